"""plant(id, prop, edits, needs, breaks, main, ...): writes /verif/seeded/<id>, and confirms it."""
import json, os, subprocess, sys, shutil
R='/repo'; V='/verif'
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def deps():
    d='/tmp/deps.tar.xz'
    if not os.path.exists(d):
        sh(f"rm -rf /tmp/dd && mkdir /tmp/dd && cp -r {V}/vendor {V}/shims {V}/pkg /tmp/dd/ && sed -i 's#dependencies come from .*##' /tmp/dd/pkg/*/Cargo.toml && cd /tmp/dd && find . -name target -prune -exec rm -rf {{}} + ; rm -f shims/*/Cargo.lock; XZ_OPT=-9 tar --sort=name --mtime=@0 --owner=0 --group=0 -cJf {d} vendor shims pkg")
    return d
def plant(id, prop, edits, needs, breaks, main, cargo=None, extra=None, checks=None, guest=None):
    d=f'{V}/seeded/{id}'; os.makedirs(d, exist_ok=True)
    assert sh('git status --porcelain', cwd=R).stdout=='', 'repo dirty'
    for f,a,b in edits:
        s=open(f'{R}/{f}').read()
        assert s.count(a)==1,(id,f,s.count(a),a)
        open(f'{R}/{f}','w').write(s.replace(a,b))
    p=sh('git diff',cwd=R).stdout
    open(f'{d}/patch.diff','w').write(p)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(f'{d}/meta.json','w'),indent=1)
    if main is not None:
        open(f'{d}/main.rs','w').write(main)
        shutil.copy(deps(),f'{d}/deps.tar.xz')
        shutil.copy(f'{V}/tools/demo/demo{"-guest" if guest else ""}.sh',f'{d}/demo.sh')
        if guest:
            open(f'{d}/guest.rs','w').write(guest)
            shutil.copy(f'{V}/tools/demo/guest.toml.in',d)
        open(f'{d}/Cargo.toml.in','w').write(cargo or open(f'{V}/tools/demo/Cargo.toml.in').read())
    for n,c in (extra or {}).items(): open(f'{d}/{n}','w').write(c)
    sh(f'chmod +x {d}/demo.sh')
    try:
        t=sh('bash /opt/vp/build.sh && bash /opt/vp/test.sh /tmp/o.json',cwd=R)
        o=json.load(open('/tmp/o.json')) if t.returncode==0 else {"passed":[],"failed":["?"]}
        x=sh(f'bash {d}/demo.sh',cwd=R)
        res={}
        for c in checks or [prop]:
            y=sh(f'./run.sh {c}',cwd=V)
            res[c]=(y.returncode, [l for l in y.stdout.splitlines() if l][:1], y.stderr[-300:] if y.returncode not in (0,1) else '')
    finally:
        sh('git checkout -- .',cwd=R)
    z=sh(f'bash {d}/demo.sh',cwd=R)
    print(id,prop,'tests',len(o['passed']),len(o['failed']),'demo patched',x.returncode,'clean',z.returncode,'checks',res)
    if x.returncode==0 or z.returncode!=0: print(x.stderr[-1500:],z.stderr[-1500:])
    sys.stdout.flush()
