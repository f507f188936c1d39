; A minimal 32-bit DPMI host for running DPMI programs in DOSBox: nasm -f bin dpmihost.asm -o CWSDPMI.EXE
; It stays resident when started.  One client at a time; everything runs at ring 0 with interrupts off in protected mode;
; interrupts 10h-7Fh (except 31h) are reflected to real mode.  An exception ends the client with a message and status 255.
; Memory it hands out is filled with 0xA5 once and never starts at a page boundary.
bits 16
cpu 386
org 0x100

HCODE equ 8
HDATA equ 16
FLAT  equ 24
NSEL  equ 64
POOL  equ 0x200000
POOLEND equ 0xE00000

        jmp     init

        align 4
old2f   dd 0
active  db 0
        align 8
gdt:    times NSEL*8 db 0
used:   times NSEL db 0
gdtr:   dw NSEL*8-1
        dd 0
idtr:   dw 0x80*8-1
        dd 0
rmidtr: dw 0x3ff
        dd 0
c_ss    dw 0
c_sp    dd 0
c_es    dw 0
c_edi   dd 0
psp     dw 0
envseg  dw 0
m_base  dd 0                    ; the next free byte of the pool
m_n     dd 0                    ; live blocks
        align 4
rm:                             ; the real mode registers of DPMI function 0x300
rm_edi  dd 0
rm_esi  dd 0
rm_ebp  dd 0
rm_res  dd 0
rm_ebx  dd 0
rm_edx  dd 0
rm_ecx  dd 0
rm_eax  dd 0
rm_fl   dw 0
rm_es   dw 0
rm_ds   dw 0
rm_fs   dw 0
rm_gs   dw 0
rm_ip   dw 0
rm_cs   dw 0
rm_sp   dw 0
rm_ss   dw 0
rmlen equ $ - rm
vec     dd 0
intno   dw 0

my2f:   cmp     ax, 0x1687
        je      .det
        jmp     far [cs:old2f]
.det:   xor     ax, ax
        mov     bx, 1
        mov     cl, 3
        mov     dx, 0x5a
        xor     si, si
        push    cs
        pop     es
        mov     di, entry
        iret

; --- entering protected mode: far call from real mode --------------------------------------------------------------------
entry:  cmp     ax, 1
        jne     .no
        cmp     byte [cs:active], 0
        je      .ok
.no:    mov     ax, 0x8011
        stc
        retf
.ok:    cli
        mov     [cs:save_ds], ds
        mov     [cs:c_ss], ss
        pop     word [cs:ret_ip]
        pop     word [cs:ret_cs]
        movzx   eax, sp
        mov     [cs:c_sp], eax
        push    cs
        pop     ds
        mov     byte [active], 1
        mov     dword [m_base], POOL
        mov     dword [m_n], 0
        mov     ah, 0x51
        int     0x21
        mov     [psp], bx
        mov     es, bx
        mov     ax, [es:0x2c]
        mov     [envseg], ax
        mov     di, used                ; the client's selectors
        mov     cx, NSEL
        push    cs
        pop     es
        xor     al, al
        cld
        rep     stosb
        mov     dword [used], 0x01010101
        mov     ax, [ret_cs]
        mov     di, 32
        mov     cx, 0x9a
        call    mksel
        mov     ax, [save_ds]
        mov     cx, 0x92
        call    mksel
        mov     ax, [c_ss]
        call    mksel
        mov     ax, [psp]
        call    mksel
        mov     word [gdt + 32 + 24], 0xff
        mov     ax, [envseg]
        call    mksel
        mov     es, [psp]
        mov     word [es:0x2c], 64      ; the environment's selector
        call    to_pm
        mov     ax, 48
        mov     ss, ax
        mov     esp, [c_sp]
        mov     ax, 56
        mov     es, ax
        push    word 32
        push    word [ret_ip]
        xor     ax, ax
        mov     fs, ax
        mov     gs, ax
        mov     ax, 40
        mov     ds, ax
        push    dword 2                 ; (no carry, no NT flag, which iret in longjmp would obey)
        popfd
        retf
save_ds dw 0
ret_ip  dw 0
ret_cs  dw 0

; a 16-bit 64 KB segment: segment ax, access cx, at gdt + di, which advances
mksel:  movzx   eax, ax
        shl     eax, 4
        mov     word [gdt + di], 0xffff
        mov     [gdt + di + 2], ax
        shr     eax, 16
        mov     [gdt + di + 4], al
        mov     [gdt + di + 5], cl
        mov     word [gdt + di + 6], 0
        mov     bx, di
        shr     bx, 3
        mov     byte [used + bx], 1
        add     di, 8
        ret

; to protected mode, near call; changes ds, cs, ss (host's) and eax
to_pm:  cli
        pop     ax
        mov     [cs:pmret], ax
        push    cs
        pop     ds
        lgdt    [gdtr]
        lidt    [idtr]
        mov     eax, cr0
        or      al, 1
        mov     cr0, eax
        jmp     HCODE:.pm
.pm:    mov     ax, HDATA
        mov     ds, ax
        mov     ss, ax
        mov     esp, hstack
        push    dword 2                 ; (no NT flag, which iret would obey)
        popfd
        jmp     [pmret]
pmret   dw 0

; to real mode, near call (on the host's stack): ds = ss = cs
to_rm:  pop     ax
        mov     [pmret], ax
        mov     ax, HDATA
        mov     ds, ax
        mov     es, ax
        mov     fs, ax
        mov     gs, ax
        mov     ss, ax
        mov     esp, hstack
        mov     eax, cr0
        and     al, 0xfe
        mov     cr0, eax
        db      0xea
        dw      in_rm
rmseg:  dw      0
in_rm:  mov     ax, cs
        mov     ds, ax
        mov     ss, ax
        lidt    [rmidtr]
        jmp     [pmret]

; the real mode interrupt [intno] with the registers in rm; from and to protected mode, host's stack and data
simulate:
        call    to_rm
        mov     bx, [intno]
        shl     bx, 2
        xor     ax, ax
        mov     es, ax
        mov     eax, [es:bx]
        mov     [vec], eax
        mov     ax, [rm_ss]
        or      ax, [rm_sp]
        jz      .own
        mov     ss, [rm_ss]
        movzx   esp, word [rm_sp]
.own:   mov     edi, [rm_edi]
        mov     esi, [rm_esi]
        mov     ebp, [rm_ebp]
        mov     ebx, [rm_ebx]
        mov     edx, [rm_edx]
        mov     ecx, [rm_ecx]
        mov     eax, [rm_eax]
        mov     es, [rm_es]
        mov     fs, [rm_fs]
        mov     gs, [rm_gs]
        mov     ds, [rm_ds]
        sti
        pushf
        call    far [cs:vec]
        cli
        mov     [cs:rm_ds], ds
        push    cs
        pop     ds
        mov     [rm_edi], edi
        mov     [rm_esi], esi
        mov     [rm_ebp], ebp
        mov     [rm_ebx], ebx
        mov     [rm_edx], edx
        mov     [rm_ecx], ecx
        mov     [rm_eax], eax
        mov     [rm_es], es
        mov     [rm_fs], fs
        mov     [rm_gs], gs
        pushf
        pop     word [rm_fl]
        call    to_pm
        jmp     [simret]
simret  dw 0

; --- int 31h -------------------------------------------------------------------------------------------------------------
; frame after pushad and four segment registers: gs+0 fs+2 es+4 ds+6, then edi..eax at +8, eip +40, cs +44, eflags +48
int31:  pushad
        push    ds
        push    es
        push    fs
        push    gs
        mov     ebp, esp
        mov     bx, HDATA
        mov     ds, bx
        mov     ebx, [ss:ebp + 8 + 16]
        and     byte [ss:ebp + 48], 0xfe
        cmp     ax, 0x300
        je      f300
        cmp     ax, 0x501
        je      f501
        cmp     ax, 0x502
        je      f502
        cmp     ax, 0
        je      f0
        cmp     ax, 1
        je      f1
        cmp     ax, 0xb
        je      fb
        cmp     ax, 0xc
        je      fc
fail:   mov     word [ss:ebp + 8 + 28], 0x8001
bad:    or      byte [ss:ebp + 48], 1
done:   mov     esp, ebp
        pop     gs
        pop     fs
        pop     es
        pop     ds
        popad
        iretd

f0:     cmp     cx, 1
        jne     fail
        mov     bx, 10
.l:     cmp     byte [used + bx], 0
        je      .f
        inc     bx
        cmp     bx, NSEL
        jb      .l
        jmp     fail
.f:     mov     byte [used + bx], 1
        shl     bx, 3
        mov     dword [gdt + bx], 0
        mov     dword [gdt + bx + 4], 0x9200
        mov     [ss:ebp + 8 + 28], bx
        jmp     done

; selector bx (client's) -> bx = offset in the gdt, carry if not an allocated one
chk:    movzx   ebx, bx
        shr     bx, 3
        cmp     bx, 4
        jb      .n
        cmp     bx, NSEL
        jae     .n
        cmp     byte [used + bx], 0
        je      .n
        shl     bx, 3
        clc
        ret
.n:     stc
        ret

f1:     call    chk
        jc      fail
        shr     bx, 3
        mov     byte [used + bx], 0
        shl     bx, 3
        ; (a segment register that holds it keeps its hidden part)
        mov     dword [gdt + bx], 0
        mov     dword [gdt + bx + 4], 0
        ; null out what would fault when restored
        cmp     [ss:ebp], bx
        jne     .a
        mov     word [ss:ebp], 0
.a:     cmp     [ss:ebp + 2], bx
        jne     .b
        mov     word [ss:ebp + 2], 0
.b:     cmp     [ss:ebp + 4], bx
        jne     .c
        mov     word [ss:ebp + 4], 0
.c:     jmp     done

fb:     call    chk
        jc      fail
        mov     edi, [ss:ebp + 8]
        mov     es, [ss:ebp + 4]
        mov     eax, [gdt + bx]
        mov     [es:edi], eax
        mov     eax, [gdt + bx + 4]
        mov     [es:edi + 4], eax
        jmp     done

fc:     call    chk
        jc      fail
        mov     edi, [ss:ebp + 8]
        mov     es, [ss:ebp + 4]
        mov     eax, [es:edi]
        mov     [gdt + bx], eax
        mov     eax, [es:edi + 4]
        mov     [gdt + bx + 4], eax
        jmp     done

f501:   mov     ax, [ss:ebp + 8 + 16]   ; bx:cx
        shl     eax, 16
        mov     ax, [ss:ebp + 8 + 24]
        or      eax, eax
        jz      fail
        mov     edx, [m_base]
        add     edx, 0x234
        add     eax, edx
        jc      .no
        cmp     eax, POOLEND
        ja      .no
        mov     [m_base], eax
        inc     dword [m_n]
        mov     [ss:ebp + 8 + 24], dx   ; cx
        mov     [ss:ebp + 8], dx        ; di
        shr     edx, 16
        mov     [ss:ebp + 8 + 16], dx   ; bx
        mov     [ss:ebp + 8 + 4], dx    ; si
        jmp     done
.no:    mov     word [ss:ebp + 8 + 28], 0x8012
        jmp     bad

f502:   dec     dword [m_n]
        js      .bad
        mov     ax, [ss:ebp + 8 + 4]
        shl     eax, 16
        mov     ax, [ss:ebp + 8]
        sub     eax, 0x234
        cmp     eax, POOL
        jb      .bad
        cmp     eax, [m_base]
        jae     .bad
        mov     [m_base], eax
        jmp     done
.bad:   mov     word [ss:ebp + 8 + 28], 0x8023
        jmp     bad

f300:   cmp     word [ss:ebp + 8 + 24], 0
        jne     fail
        and     bx, 0xff
        mov     [intno], bx
        mov     eax, [ss:ebp + 8]
        mov     [c_edi], eax
        mov     ax, [ss:ebp + 4]
        mov     [c_es], ax
        mov     [c_ss], ss
        mov     [c_sp], ebp
        ; copy the structure
        mov     esi, [c_edi]
        mov     fs, [c_es]
        xor     ebx, ebx
.i:     mov     al, [fs:esi + ebx]
        mov     [rm + bx], al
        inc     bx
        cmp     bx, rmlen
        jb      .i
        mov     word [simret], .back
        mov     ax, HDATA
        mov     ss, ax
        mov     esp, hstack
        jmp     simulate
.back:  mov     edi, [c_edi]
        mov     fs, [c_es]
        xor     ebx, ebx
.o:     mov     al, [rm + bx]
        cmp     bx, rmlen - 8           ; cs:ip and ss:sp are not changed
        jae     .s
        mov     [fs:edi + ebx], al
.s:     inc     bx
        cmp     bx, rmlen
        jb      .o
resume: mov     ss, [c_ss]
        mov     ebp, [c_sp]
        mov     esp, ebp
        jmp     done

; --- other interrupts ----------------------------------------------------------------------------------------------------
%assign i 0
%rep 0x80
h %+ i:
%if i == 8 || (i >= 10 && i <= 14) || i == 17
        ; (an error code is there)
        push    dword i
        jmp     exc
%elif i < 16
        push    dword 0
        push    dword i
        jmp     exc
%else
        pushad
        push    ds
        push    es
        push    fs
        push    gs
        mov     bx, i
        jmp     reflect
%endif
%assign i i+1
%endrep

reflect:
        mov     ebp, esp
        mov     ax, HDATA
        mov     ds, ax
        mov     [intno], bx
        mov     eax, [ss:ebp + 8 + 28]
        cmp     bx, 0x21
        jne     .go
        cmp     ah, 0x4c
        je      quit
.go:    mov     [rm_eax], eax
        mov     eax, [ss:ebp + 8 + 24]
        mov     [rm_ecx], eax
        mov     eax, [ss:ebp + 8 + 20]
        mov     [rm_edx], eax
        mov     eax, [ss:ebp + 8 + 16]
        mov     [rm_ebx], eax
        mov     eax, [ss:ebp + 8 + 8]
        mov     [rm_ebp], eax
        mov     eax, [ss:ebp + 8 + 4]
        mov     [rm_esi], eax
        mov     eax, [ss:ebp + 8]
        mov     [rm_edi], eax
        xor     eax, eax
        mov     [rm_es], ax
        mov     [rm_ds], ax
        mov     [rm_fs], ax
        mov     [rm_gs], ax
        mov     [rm_sp], ax
        mov     [rm_ss], ax
        mov     word [rm_fl], 0x202
        mov     [c_ss], ss
        mov     [c_sp], ebp
        mov     word [simret], .back
        mov     ax, HDATA
        mov     ss, ax
        mov     esp, hstack
        jmp     simulate
.back:  mov     ss, [c_ss]
        mov     ebp, [c_sp]
        mov     eax, [rm_eax]
        mov     [ss:ebp + 8 + 28], eax
        mov     eax, [rm_ecx]
        mov     [ss:ebp + 8 + 24], eax
        mov     eax, [rm_edx]
        mov     [ss:ebp + 8 + 20], eax
        mov     eax, [rm_ebx]
        mov     [ss:ebp + 8 + 16], eax
        mov     eax, [rm_ebp]
        mov     [ss:ebp + 8 + 8], eax
        mov     eax, [rm_esi]
        mov     [ss:ebp + 8 + 4], eax
        mov     eax, [rm_edi]
        mov     [ss:ebp + 8], eax
        mov     al, [rm_fl]
        and     al, 0xd5
        and     byte [ss:ebp + 48], 0x2a
        or      [ss:ebp + 48], al
        jmp     resume

; the client ends with status al
quit:   mov     [c_es], ax
        mov     bx, HDATA
        mov     ss, bx
        mov     esp, hstack
        call    to_rm
        mov     es, [psp]
        mov     ax, [envseg]
        mov     [es:0x2c], ax
        mov     byte [active], 0
        mov     ax, [c_es]
        cmp     dword [m_n], 0
        je      .freed
        mov     dx, m_leak
        call    say
        mov     ax, 0x4cfe
.freed: mov     ah, 0x4c
        sti
        int     0x21

say:    mov     si, dx
.l:     lodsb
        or      al, al
        jz      .e
        mov     dl, al
        mov     ah, 2
        int     0x21
        jmp     .l
.e:     ret
m_leak  db 13, 10, "DPMI: memory block not freed", 13, 10, 0
m_exc   db 13, 10, "DPMI: exception "
m_no    db "00 at "
m_eip   db "00000000", 13, 10, 0

; an exception: number, error code, eip, cs, eflags on the stack
exc:    mov     ax, HDATA
        mov     ds, ax
        mov     ebp, esp
        mov     eax, [ss:ebp]
        mov     edx, [ss:ebp + 8]
        mov     ss, [hdsel]
        mov     esp, hstack
        aam     10
        add     ax, 0x3030
        mov     [m_no], ah
        mov     [m_no + 1], al
        mov     di, m_eip
        mov     cx, 8
.h:     rol     edx, 4
        mov     al, dl
        and     al, 15
        cmp     al, 10
        sbb     al, 0x69
        das
        mov     [di], al
        inc     di
        loop    .h
        call    to_rm
        mov     es, [psp]
        mov     ax, [envseg]
        mov     [es:0x2c], ax
        mov     byte [active], 0
        mov     dx, m_exc
        call    say
        mov     ax, 0x4cff
        sti
        int     0x21
hdsel   dw HDATA

        align 4
idt:    times 0x80*8 db 0
        times 2048 db 0x5a
hstack:
endres:

; --- installation --------------------------------------------------------------------------------------------------------
init:   mov     ax, cs
        mov     [rmseg], ax
        mov     di, 8
        mov     cx, 0x9a
        call    mksel
        mov     ax, cs
        mov     cx, 0x92
        call    mksel
        mov     dword [gdt + FLAT], 0x0000ffff
        mov     dword [gdt + FLAT + 4], 0x00cf9200
        xor     eax, eax
        mov     ax, cs
        shl     eax, 4
        lea     edx, [eax + gdt]
        mov     [gdtr + 2], edx
        lea     edx, [eax + idt]
        mov     [idtr + 2], edx
        mov     si, htab
        mov     di, idt
        mov     cx, 0x80
.l:     lodsw
        mov     [di], ax
        mov     word [di + 2], HCODE
        mov     word [di + 4], 0x8e00
        mov     word [di + 6], 0
        add     di, 8
        loop    .l
        mov     word [idt + 0x31 * 8], int31
        in      al, 0x92
        or      al, 2
        out     0x92, al
        ; fill the pool
        call    to_pm
        mov     ax, FLAT
        mov     es, ax
        mov     edi, POOL
        mov     ecx, (POOLEND - POOL) / 4
        mov     eax, 0xa5a5a5a5
        cld
        a32 rep stosd
        call    to_rm
        sti
        mov     ax, 0x352f
        int     0x21
        mov     [old2f], bx
        mov     [old2f + 2], es
        mov     ax, 0x252f
        mov     dx, my2f
        int     0x21
        mov     es, [0x2c]              ; the environment is not needed
        mov     ah, 0x49
        int     0x21
        mov     dx, (endres - $$ + 0x100 + 15) / 16
        mov     ax, 0x3100
        int     0x21
htab:
%assign i 0
%rep 0x80
        dw h %+ i
%assign i i+1
%endrep
