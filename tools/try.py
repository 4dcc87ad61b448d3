#!/usr/bin/env python3
"""Development aid: apply each diff to a scratch copy of /repo, build, run the
stable tests, and report which properties the checker flags.
Usage: try.py [--demo] [--no-test] DIFF|DIR... (a DIR is a seeded bug with patch.diff, demo.sh)"""
import sys, os, subprocess, shutil, tempfile, json
from concurrent.futures import ThreadPoolExecutor
args=[a for a in sys.argv[1:] if not a.startswith('-')]
demo='--demo' in sys.argv; notest='--no-test' in sys.argv
ENV=dict(os.environ)
env=subprocess.run("set -a; . /opt/vp/env.sh; env",shell=True,capture_output=True,text=True,errors="replace",executable='/bin/bash').stdout
E={l.split('=',1)[0]:l.split('=',1)[1] for l in env.splitlines() if '=' in l}
stable=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
def sh(cmd,cwd,env=E,t=300):
    return subprocess.run(cmd,shell=True,cwd=cwd,env=env,capture_output=True,text=True,errors="replace",executable='/bin/bash',timeout=t)
def one(a):
    d=a if os.path.isfile(a) else os.path.join(a,'patch.diff')
    tmp=tempfile.mkdtemp(prefix='try')
    out=[]
    try:
        repo=os.path.join(tmp,'repo'); shutil.copytree('/repo',repo,symlinks=True)
        r=sh(f'git apply --whitespace=nowarn {os.path.abspath(d)}',repo)
        if r.returncode: return a,'DOES NOT APPLY '+r.stderr[:300]
        c=os.path.join(repo,'client')
        r=sh('go build ./... && go vet ./model >/dev/null 2>&1; go build ./...',c)
        if r.returncode: return a,'DOES NOT BUILD '+r.stderr[:600]
        if not notest:
            r=sh('go test -json -vet=off -count=1 ./... ',c)
            fails=set()
            for l in r.stdout.splitlines():
                try: j=json.loads(l)
                except Exception: continue
                if j.get('Action')=='fail' and j.get('Test'): fails.add(j['Package'].split('/')[-1]+'.'+j['Test'])
            if fails: out.append('TESTS FAIL '+','.join(sorted(fails))[:200])
        if demo and os.path.isdir(a):
            # demos use /repo by cwd: run in the copy
            r0=sh(f'bash {os.path.abspath(a)}/demo.sh','/repo')
            r1=sh(f'bash {os.path.abspath(a)}/demo.sh',repo)
            out.append(f'demo clean={r0.returncode} bug={r1.returncode}')
            if r0.returncode or not r1.returncode: out.append((r0.stdout+r0.stderr)[-300:]+' / '+(r1.stdout+r1.stderr)[-300:])
        vv=os.path.join(tmp,'vv'); os.makedirs(vv)
        shutil.copy('/verif/known-findings.txt',vv) if os.path.exists('/verif/known-findings.txt') else None
        r=subprocess.run(['/tmp/chk','-property','all','-repo',repo,'-verif',vv],capture_output=True,text=True,errors="replace")
        v=[l.split()[1].split('=')[1] for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
        det=[l[:330].replace(tmp,'') for l in r.stdout.splitlines() if l[:1]=='C' and l[1:3].isdigit()]
        want=''
        m=os.path.join(a,'meta.json')
        if os.path.isdir(a) and os.path.exists(m):
            want=json.load(open(m))['property']
            out.append(('CAUGHT' if want in v else 'MISSED')+f' by {want};')
        out.append('flags: '+(' '.join(v) or 'none'))
        if '-v' in sys.argv or '--v' in sys.argv: out+=['\n    '+x for x in det[:6]]
        if r.returncode not in (0,1): out.append('EXIT %d %s'%(r.returncode,r.stderr[:300]))
        return a,' '.join(out)
    finally:
        shutil.rmtree(tmp)
with ThreadPoolExecutor(6) as ex:
    for a,o in ex.map(one,args): print(os.path.basename(a.rstrip('/')),'=>',o,flush=True)
