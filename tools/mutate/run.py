#!/usr/bin/env python3
"""run.py MUTANTS.jsonl OUT.jsonl LANES: tries each mutant of /repo in a scratch copy: does it build, do the
stable tests pass, and if so which check reports it. Scratch: /tmp/mut."""
import json,os,subprocess,sys,shutil,threading,queue,random
muts=[json.loads(l) for l in open(sys.argv[1])]
out=sys.argv[2]; lanes=int(sys.argv[3])
BASE=os.environ.get('MUT_REPO','/repo'); HARN=os.environ.get('MUT_HARNESS','/verif/harness')
done=set()
if os.path.exists(out):
    for l in open(out):
        d=json.loads(l); done.add(d['i'])
# MUT_SKIP: earlier results, by what was changed
old=set()
if os.environ.get('MUT_SKIP'):
    for l in open(os.environ['MUT_SKIP']):
        d=json.loads(l)
        if d['res'] not in('SURVIVED','ODD','noharness'): old.add((d['file'],d['kind'],d['old'],d['new'],d['line']))
todo=[i for i in range(len(muts)) if i not in done and (muts[i]['file'],muts[i]['kind'],muts[i]['old'][:80],muts[i]['new'][:80],muts[i]['line']) not in old]
random.Random(5).shuffle(todo)
env=dict(os.environ,HOME='/root',PATH='/opt/veriftools/go1.27.3/bin:'+os.environ['PATH'],GOTOOLCHAIN='local',GOPROXY='off',GOWORK='off',GO111MODULE='on',GOFLAGS='-mod=mod',GOPATH='/root/go',GOMODCACHE='/root/go/pkg/mod',GOCACHE='/root/.cache/go-build',VERIF_SEED='1')
stable=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
ORDER={'tree.go':'P02 P01 P05 P06 P03 P24 P17','regression.go':'P11 P12 P24 P17 P10','mining.go':'P07 P08 P09 P27 P24 P23 P17','input.go':'P13 P14 P10 P24 P27 P31','miningschema.go':'P25 P04 P03 P02 P13 P30','evaluation.go':'P17 P24 P03 P04','elements.go':'P26 P29 P28 P18 P22 P20 P19 P23','groups.go':'P22 P26','complexTypes.go':'P21 P26','simpleTypes.go':'P28 P26 P24'}
# MUT_ONLY: do not go on with the checks that are not for the file
ALL=[] if os.environ.get('MUT_ONLY') else [f'P{i:02d}' for i in range(1,37)]
q=queue.Queue()
for i in todo: q.put(i)
lock=threading.Lock()
def run(cmd,cwd,t,e=env):
    p=subprocess.Popen(cmd,cwd=cwd,env=e,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,errors='replace',start_new_session=True)
    try: o,_=p.communicate(timeout=t)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid,9); p.communicate(); return 124,''
    return p.returncode,o
def lane(n):
    d=f'/tmp/mut/lane{n}'
    shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
    shutil.copytree(BASE,d+'/repo',ignore=shutil.ignore_patterns('.git'))
    shutil.copytree(HARN,d+'/h')
    g=open(d+'/h/go.mod').read().replace('=> /repo',f'=> {d}/repo'); open(d+'/h/go.mod','w').write(g)
    os.makedirs(d+'/v/harness'); shutil.copy('/verif/known-findings.txt',d+'/v/')
    if os.path.isdir('/verif/harness/corpus'): shutil.copytree('/verif/harness/corpus',d+'/v/harness/corpus')
    while True:
        try: i=q.get_nowait()
        except queue.Empty: return
        m=muts[i]; p=d+'/repo/'+m['file']
        src=open(BASE+'/'+m['file'],'rb').read()
        open(p,'wb').write(src[:m['from']]+m['new'].encode()+src[m['to']:])
        r=dict(i=i,file=m['file'],line=m['line'],kind=m['kind'],old=m['old'][:80],new=m['new'][:80])
        try:
            rc,o=run(['go','build','./...'],d+'/repo',300)
            if rc: r['res']='nobuild'; continue
            rc,o=run(['go','test','-json','-vet=off','-count=1','-timeout','2m','./...'],d+'/repo',300)
            ok=set()
            for l in o.splitlines():
                try: e=json.loads(l)
                except Exception: continue
                if e.get('Action')=='pass' and e.get('Test'): ok.add(e['Package']+'/'+e['Test'])
            if not stable<=ok: r['res']='tests'; continue
            rc,o=run(['go','build','-tags','p28','-o',d+'/harness','.'],d+'/h',300)
            if rc: r['res']='noharness'; r['out']=o[-300:]; continue
            first=ORDER[os.path.basename(m['file'])].split()
            r['res']='SURVIVED'
            for c in first+[x for x in ALL if x not in first]:
                rc,o=run([d+'/harness','check',c,'quick'],d+'/h',900,dict(env,VERIF_DIR=d+'/v',VERIF_SCALE=os.environ.get('MUT_SCALE','0.4') if c in first else '0.1'))
                if rc==1: r['res']=c; break
                if rc!=0: r['res']='ODD'; r['out']=c+': '+o[-400:]; break
        finally:
            open(p,'wb').write(src)
            with lock: open(out,'a').write(json.dumps(r)+'\n')
ts=[threading.Thread(target=lane,args=(n,)) for n in range(lanes)]
[t.start() for t in ts]; [t.join() for t in ts]
