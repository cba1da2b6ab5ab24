#!/usr/bin/env python3
"""mutate.py MUTANTS.json OUT.jsonl SECONDS first|all [IDS...]
Mutation campaign in scratch copies: each mutant must compile and pass the repository's tests, then
'harness sweep' looks at it. MUTANTS.json: [{File,Start,End,New,Line,Old,Op,Func}]."""
import json,os,sys,subprocess,shutil,concurrent.futures as cf,threading,queue
muts=json.load(open(sys.argv[1]));out=sys.argv[2];secs=sys.argv[3];mode=sys.argv[4];ids=sys.argv[5:]
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
env=dict(os.environ,HOME='/root',GOTOOLCHAIN='local',GOPROXY='off',GOFLAGS='-mod=mod',GOWORK='off',GOMAXPROCS='2')
env['PATH']='/opt/veriftools/go1.27.3/bin:'+env['PATH']
BASE=os.environ.get('BASE','/repo');W=int(os.environ.get('W','8'));base='/tmp/mut/w'
q=queue.Queue();done=set()
if os.path.exists(out):
    for l in open(out): d=json.loads(l); done.add((d['File'],d['Start'],d['End'],d['New']))
lock=threading.Lock();fo=open(out,'a')
for i in range(W):
    d=f'{base}{i}';shutil.rmtree(d,ignore_errors=True);os.makedirs(d)
    shutil.copytree(BASE,d+'/repo');shutil.copytree(here+'/harness',d+'/h')
    m=open(d+'/h/go.mod').read().replace('=> /repo',f'=> {d}/repo');open(d+'/h/go.mod','w').write(m)
    q.put(d)
def run(cmd,cwd,t):
    try:
        p=subprocess.run(cmd,cwd=cwd,env=env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=t,text=True,errors='replace')
        return p.returncode,p.stdout
    except subprocess.TimeoutExpired as e: return 99,(e.stdout or b'').decode(errors='replace') if isinstance(e.stdout,bytes) else (e.stdout or '')
def one(m):
    if (m['File'],m['Start'],m['End'],m['New']) in done: return
    d=q.get()
    try:
        f=d+'/repo/'+m['File'];s=open(BASE+'/'+m['File'],'rb').read()
        open(f,'wb').write(s[:m['Start']]+m['New'].encode()+s[m['End']:])
        r=dict(m)
        rc,o=run(['go','build','./...'],d+'/repo',120)
        if rc: r['res']='nobuild'
        else:
            rc,o=run(['go','test','-vet=off','-count=1','-timeout','20s','./...'],d+'/repo',60)
            if rc: r['res']='tests'
            else:
                rc,o=run(['go','build','-o','hx','.'],d+'/h',120)
                if rc: r['res']='nobuild'
                else:
                    rc,o=run(['./hx','sweep',secs,mode]+ids,d+'/h',900)
                    k=[l for l in o.split('\n') if l.startswith('KILL')]
                    r['killers']=[l.split()[1] for l in k]
                    if k: r['res']='killed';r['msg']=k[0][:250]
                    elif rc==99: r['res']='killed';r['msg']='timeout'
                    elif rc: r['res']='killed';r['msg']='crash '+o[-200:]
                    else: r['res']='SURVIVED'
        open(f,'wb').write(s)
        with lock: fo.write(json.dumps(r)+'\n');fo.flush()
    finally: q.put(d)
with cf.ThreadPoolExecutor(W) as ex: list(ex.map(one,muts))
