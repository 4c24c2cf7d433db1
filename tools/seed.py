#!/usr/bin/env python3
"""seed.py ID PROP FILE... : records the change made in the scratch copy /tmp/s (a copy of /repo)
as /verif/seeded/ID and confirms it: only lines of the base commit are changed, the copy builds and
passes the stable tests, demo exits 0 on /repo and nonzero on the copy.  demo_test.go must be there.
Run: seed.py ID PROPERTY  'needs'  'what it breaks'"""
import sys,os,subprocess,json,shutil,re
ID,PROP,NEEDS,WHAT=sys.argv[1:5]
d=f'/verif/seeded/{ID}'; s='/tmp/s'
os.makedirs(d,exist_ok=True)
here=os.path.dirname(os.path.abspath(__file__))
for f in ('demo.sh','ps.go','fake.go'):
    if not os.path.exists(f'{d}/{f}') or f!='demo.sh': shutil.copy(f'{here}/demo/{f}',d)
if not re.search(r'\bNewFake|\bFake\b|\bSess\b|\bDecode\(|\bEncode\(|\bS\(|\bChunk\(', open(f'{d}/demo_test.go').read()):
    for f in ('ps.go','fake.go'): os.remove(f'{d}/{f}')
def run(c,**k): return subprocess.run(c,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
diff=run('git diff',cwd=s).stdout
if not diff.strip(): sys.exit('no change in /tmp/s')
open(f'{d}/patch.diff','w').write(diff)
# changed lines are base's
base=run('git rev-list --max-parents=0 HEAD',cwd='/repo').stdout.strip()
cur=None
for l in run('git diff -U0',cwd=s).stdout.split('\n'):
    m=re.match(r'--- a/(.*)',l)
    if m: cur=m.group(1)
    m=re.match(r'@@ -(\d+)(?:,(\d+))? ',l)
    if m:
        a=int(m.group(1)); n=int(m.group(2) or 1)
        if n==0: print('note: pure addition at',cur,a); continue
        for b in run(f'git blame -s -l -L{a},{a+n-1} HEAD -- {cur}',cwd='/repo').stdout.strip().split('\n'):
            h=b.split()[0].lstrip('^')
            if not base.startswith(h[:20]): print('NOT BASE:',cur,b)
json.dump({'property':PROP,'needs':NEEDS,'what_it_breaks':WHAT},open(f'{d}/meta.json','w'),indent=1)
r=run('go build ./... && go vet ./... >/dev/null 2>&1; true',cwd=s); print('build',r.stdout[-300:])
names=json.load(open('/opt/vp/BASELINE.json'))
b=names.get('stable_pass') or names.get('stable') or names.get('passed') or names.get('tests')
r=run('go test -count=1 -json ./... 2>/dev/null',cwd=s)
ok=set()
for l in r.stdout.split('\n'):
    try: e=json.loads(l)
    except Exception: continue
    if e.get('Action')=='pass' and e.get('Test'): ok.add(e['Test']); ok.add(e['Package']+'.'+e['Test']); ok.add(e['Package']+'/'+e['Test']); ok.add(e['Package']+'::'+e['Test'])
miss=[x for x in b if (x if isinstance(x,str) else str(x)) not in ok]
print('stable tests missing:',miss[:3],len(miss))
g=run(f'bash {d}/demo.sh',cwd='/repo'); print('demo on /repo:',g.returncode, g.stdout[-600:] if g.returncode else '')
g2=run(f'bash {d}/demo.sh',cwd=s); print('demo with change:',g2.returncode, g2.stdout[-400:])
print('KEEP' if not miss and g.returncode==0 and g2.returncode!=0 else 'REJECT')
