#!/usr/bin/env python3
"""plant.py BUG PROP PKGDIR: reads, from stdin, python calls sub(path, old, new)
editing /repo, then '=== needs', '=== breaks' and '=== demo' sections; writes
/verif/seeded/BUG and puts /repo back."""
import sys, subprocess, os, json
bug, prop, pkg = sys.argv[1:4]
t = sys.stdin.read()
def sec(n):
    i = t.index("=== " + n + "\n") + len(n) + 5
    j = t.find("\n=== ", i)
    return t[i:j if j >= 0 else None].strip() + "\n"
code = t[:t.index("=== ")]
d = f"/verif/seeded/{bug}"
os.makedirs(d, exist_ok=True)
def sub(path, old, new, cnt=1):
    p = "/repo/" + path
    s = open(p).read()
    assert s.count(old) == cnt, (path, s.count(old), old)
    open(p, "w").write(s.replace(old, new))
assert not subprocess.run(["git", "-C", "/repo", "status", "--porcelain"], capture_output=True, text=True).stdout
try:
    exec(code, {"sub": sub})
    diff = subprocess.run(["git", "-C", "/repo", "diff"], capture_output=True, text=True).stdout
finally:
    subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])
open(d + "/patch.diff", "w").write(diff)
open(d + "/demo_test.go", "w").write(sec("demo"))
json.dump({"property": prop, "needs": sec("needs").strip(), "what_it_breaks": sec("breaks").strip()}, open(d + "/meta.json", "w"), indent=1)
s = open("/verif/tools/demo.sh.tmpl").read().replace("PKGDIR", pkg)
if len(sys.argv) > 4 and sys.argv[4] == "race":
    s = s.replace("test -vet=off", "test -race -vet=off")
if pkg in ("tarfs",): # its test files run go when they start: keep apart from them
    s = s.replace("/zz_demo_test.go", "/zzdemo/demo_test.go")
    s = s.replace("-count=1 ", "-c -o $t/demo.test ").replace(" -run '^TestDemo$' .", " ./zzdemo && cd $t && timeout 250 ./demo.test -test.run '^TestDemo$'")
open(d + "/demo.sh", "w").write(s)
