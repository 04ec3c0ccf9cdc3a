#!/usr/bin/env python3
"""newbug.py ID...: validate planted bugs in a scratch copy: applies, builds, passes the stable tests, demo 0 before and nonzero after."""
import subprocess, sys, os, json, shutil
WT='/tmp/plant/repo'; VP='/tmp/plant/vp'
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def setup():
    if os.path.isdir(WT): return
    os.makedirs('/tmp/plant', exist_ok=True); sh(f'cp -a /repo {WT}; mkdir -p {VP}; cp -a /opt/vp/*.sh /opt/vp/*.py /opt/vp/*.json {VP}/')
    sh(f"sed -i 's#/opt/vp#{VP}#g; s#/repo#{WT}#g' {VP}/*.sh {VP}/*.py")
def main():
    setup(); sh(f'git -C {WT} checkout -q -- . ; git -C {WT} fetch -q /repo HEAD; git -C {WT} checkout -q FETCH_HEAD')
    for b in sys.argv[1:]:
        d=f'/verif/seeded/{b}'; ok=[]
        sh(f'git -C {WT} checkout -q -- .')
        r0=sh(f'rm -rf /tmp/plant/demo; cp -a {d} /tmp/plant/demo; rm -f /tmp/plant/demo/*.diff /tmp/plant/demo/meta.json; bash /tmp/plant/demo/demo.sh', cwd=WT); ok.append(r0.returncode==0)
        a=sh(f'git apply {d}/patch.diff', cwd=WT); ok.append(a.returncode==0)
        r1=sh(f'bash /tmp/plant/demo/demo.sh', cwd=WT); ok.append(r1.returncode!=0)
        if '--fast' not in os.environ.get('NB',''):
            bd=sh(f'bash {VP}/build.sh'); ok.append(bd.returncode==0)
            sh(f'bash {VP}/test.sh /tmp/plant/out.json'); 
            base=json.load(open('/opt/vp/BASELINE.json')); out=json.load(open('/tmp/plant/out.json'))
            bs=set(base.get('stable') or base['passed']); miss=sorted(bs-set(out['passed'])); ok.append(not miss)
        print(b, ok, '' if all(ok) else (r0.stdout[-600:]+r0.stderr[-600:] if not ok[0] else a.stderr if not ok[1] else r1.stderr[-500:] if not ok[2] else str(miss[:8]) if len(ok)>4 else bd.stdout[-300:]+bd.stderr[-600:]), '|', (r1.stdout+r1.stderr)[-150:].replace('\n',' / '), flush=True)
        sh(f'git -C {WT} checkout -q -- .')
main()
