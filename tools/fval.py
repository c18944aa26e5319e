# validates fixed findings: fail at commit^, hold at HEAD
import json,subprocess,os,collections,sys
subprocess.run("python3 /verif/tools/findings.py",shell=True,check=True)
F=json.load(open('/verif/known_findings.json'))['findings']
env=dict(os.environ,VERIF_ROOT='/verif')
props=sorted({f['property'] for f in F})
def run(vh):
    out=collections.defaultdict(dict)
    for q in props:
        r=subprocess.run([vh,'try',q],env=env,capture_output=True,text=True)
        for l in r.stdout.split('\n'):
            x=l.split('\t')
            if len(x)>=4: out[q][x[2]]=x[3]
        if r.returncode: out[q]['__err']=r.stderr[-300:]
    return out
head=run('/tmp/vb/vh')
for f in F:
    fails=head[f['property']].get(f['input'].replace('\n','\n'))
    if f['status']=='fixed' and fails: print('HEAD FAILS',f,fails)
    if f['status']=='known' and not fails and '\n' not in f['input']: print('known holds',f)
cs=[]
for f in F:
    if f.get('commit') and f['commit'] not in cs: cs.append(f['commit'])
only=sys.argv[1:]
subprocess.run("rm -rf /tmp/wt /tmp/hb; git -C /repo worktree prune; git -C /repo worktree add -f --detach /tmp/wt HEAD -q; cp -a /verif/harness /tmp/hb; sed -i 's#/repo#/tmp/wt#' /tmp/hb/go.mod",shell=True,check=True)
for c in cs:
    if only and c not in only: continue
    subprocess.run("git -C /tmp/wt checkout -q --detach %s^"%c,shell=True,check=True)
    b=subprocess.run(". /opt/vp/env.sh; cd /tmp/hb && go build -o /tmp/hb/vh ./cmd/vh",shell=True,capture_output=True,text=True)
    if b.returncode: print(c,'no build',b.stderr[:200]); continue
    r=run('/tmp/hb/vh')
    for f in F:
        if f.get('commit')==c and f['status']=='fixed' and f['input'] not in r[f['property']] and '\n' not in f['input']:
            print('NOT FAILING BEFORE',c,f['property'],f['input'])
subprocess.run("git -C /repo worktree remove --force /tmp/wt; rm -rf /tmp/hb",shell=True)
