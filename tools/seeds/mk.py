#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from seeds.py: applies the edit in a scratch worktree, checks that it builds, passes the tests, that the demo
passes without and fails with it. Usage: mk.py [id ...]"""
import json,os,subprocess,sys,shutil
here=os.path.dirname(os.path.abspath(__file__)); root=os.path.dirname(os.path.dirname(here))
sys.path.insert(0,here)
import seeds
want=sys.argv[1:]
common=open(os.path.join(here,"common_test.go.txt")).read()
demo='''#!/bin/bash
# exit 0: behaves as expected; non-zero: the demonstrated misbehaviour
d=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
echo "{\\"Replace\\":{\\"$PWD/%(pkg)s/zz_demo_test.go\\":\\"$d/demo_test.go\\"}}" > "$t/o.json"
timeout 250 go test -overlay "$t/o.json" -vet=off -count=1 -run '^TestZZDemo$' ./%(pkg)s
'''
W="/tmp/seedwt"
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,**k)
sh(f"git -C /repo worktree remove --force {W}"); sh(f"git -C /repo worktree prune")
for s in seeds.SEEDS:
    if want and s["id"] not in want: continue
    d=os.path.join(root,"seeded",s["id"])
    if not want and os.path.exists(os.path.join(d,"patch.diff")): continue
    shutil.rmtree(W,ignore_errors=True); sh(f"cp -a /repo {W}"); sh(f"git -C {W} checkout -- .")
    ok=True
    for f,a,b in s["edits"]:
        p=os.path.join(W,f); t=open(p).read()
        if t.count(a)!=1: print(s["id"],"EDIT matches",t.count(a),"times:",a[:60]); ok=False; break
        open(p,"w").write(t.replace(a,b))
    if not ok: continue
    os.makedirs(d,exist_ok=True)
    pkg=s.get("pkg","mkckks")
    if "sh" in s:
        open(os.path.join(d,"demo.sh"),"w").write(s["sh"])
        for n,c in s.get("files",{}).items(): open(os.path.join(d,n),"w").write(c)
    else:
        open(os.path.join(d,"demo.sh"),"w").write(demo%dict(pkg=pkg))
        open(os.path.join(d,"demo_test.go"),"w").write((common if pkg=="mkckks" else "")+s["demo"])
    patch=sh(f"git -C {W} diff").stdout
    open(os.path.join(d,"patch.diff"),"w").write(patch)
    json.dump({"property":s["prop"],"needs":s["needs"],"what_it_breaks":s["breaks"]},open(os.path.join(d,"meta.json"),"w"),indent=1)
    b=sh(f"git -C /repo apply {d}/patch.diff && bash /opt/vp/build.sh")
    r=[b.returncode]
    t=sh("bash /opt/vp/test.sh /tmp/seedout.json")
    try:
        o=json.load(open("/tmp/seedout.json")); base=set(json.load(open("/opt/vp/BASELINE.json"))["stable"]); okt=base<=set(o["passed"])
    except Exception as e: okt=False
    x=sh(f"bash {d}/demo.sh",cwd="/repo")
    sh("git -C /repo checkout -- .")
    y=sh(f"bash {d}/demo.sh",cwd="/repo")
    good=b.returncode==0 and okt and x.returncode!=0 and y.returncode==0
    print(s["id"],"OK" if good else "BAD","build",b.returncode,"tests",okt,"with",x.returncode,"without",y.returncode)
    if y.returncode: print(y.stdout[-1500:],y.stderr[-500:])
    else: print("   ",[l for l in x.stdout.splitlines() if 'demo_test' in l or 'panic' in l][:2])
shutil.rmtree(W,ignore_errors=True)
sh("bash /opt/vp/build.sh")
