"""mkplant.py FILE.py: FILE defines PLANTS = [dict(id, property, needs, breaks, edits=[(file, old, new)], demo, files={})]."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
for p in ns["PLANTS"]:
    d = os.path.join(V, "seeded", p["id"])
    os.makedirs(d, exist_ok=True)
    assert not subprocess.run(["git", "-C", "/repo", "status", "--porcelain"], capture_output=True).stdout
    try:
        for f, old, new in p["edits"]:
            f = os.path.join("/repo", f)
            s = open(f, newline="").read()
            if "\r\n" in s:
                old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
            assert s.count(old) == 1, (p["id"], f, s.count(old), old)
            open(f, "w", newline="").write(s.replace(old, new))
        diff = subprocess.run(["git", "-C", "/repo", "diff"], capture_output=True).stdout
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])
    open(os.path.join(d, "patch.diff"), "wb").write(diff)
    open(os.path.join(d, "demo.sh"), "w").write(p["demo"])
    for n, t in p.get("files", {}).items():
        open(os.path.join(d, n), "w").write(t)
    json.dump({"property": p["property"], "needs": p["needs"], "what_it_breaks": p["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    print(p["id"], len(diff))
