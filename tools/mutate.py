"""development tool: systematic small changes of /repo (run inside a mount namespace where /repo and /verif are
copies, see parmut.sh).  mutate.py list SEED COUNT FILE -> a sample; mutate.py run FILE I N OUT -> every I-th of N"""
import sys,os,json,random,subprocess,re,glob
sys.path.insert(0,'/verif/tools'); sys.dont_write_bytecode=True
import rsl
R='/repo/layout/src/'
SW={'<':['<='],'<=':['<'],'>':['>='],'>=':['>'],'==':['!='],'!=':['=='],'&&':['||'],'||':['&&'],'+':['-'],'-':['+'],'*':['/'],'/':['*'],'+=':['-='],'-=':['+='],
 'true':['false'],'false':['true'],'min':['max'],'max':['min'],'first':['last'],'last':['first'],'x':['y'],'y':['x'],'from':['to'],'to':['from'],'break':['continue'],
 'left':['right'],'right':['left'],'src_port':['dst_port'],'dst_port':['src_port'],'start':['end'],'end':['start'],'successors':['predecessors'],'predecessors':['successors'],'Some':[],
 'width':['height'],'height':['width'],'top':['bottom'],'bottom':['top'],'push':[],'any':['all'],'all':['any']}
def evidence():
    fn=[]
    for f in sorted(glob.glob('/verif/evidence/P*.json')):
        p=os.path.basename(f)[:3]
        for x in json.load(open(f))['coverage']['functions_under_contract']:
            if x.get('source'): fn.append((x['source'],x.get('line',0),x['function'],p))
    return fn
def mutants():
    out=[]
    for f in sorted(glob.glob(R+'**/*.rs',recursive=True)):
        src=open(f).read(); toks=rsl.lex(src); rel=f[len(R):]
        # skip tests, attributes and uses
        dead=[False]*len(toks)
        i=0
        while i<len(toks):
            t=toks[i]
            if t.t=='#' and i+1<len(toks) and toks[i+1].t=='[':
                e=rsl.match(toks,i+1)
                test=any(x.t=='test' for x in toks[i:e+1])
                for k in range(i,e+1): dead[k]=True
                if test:
                    j=e+1
                    while toks[j].t not in('{',';'): j+=1
                    e2=rsl.match(toks,j) if toks[j].t=='{' else j
                    for k in range(i,e2+1): dead[k]=True
                    i=e2
                else: i=e
            elif t.t=='use':
                j=i
                while toks[j].t!=';': dead[j]=True; j+=1
                i=j
            i+=1
        line=lambda s: src.count('\n',0,s)+1
        depth=0
        for i,t in enumerate(toks):
            if dead[i] or t.k=='str' : continue
            p=toks[i-1] if i else None; n=toks[i+1] if i+1<len(toks) else None
            alts=list(SW.get(t.t,[]))
            if t.t in('<','>') and (p and p.k=='id' and p.t[:1].isupper() or p and p.t in('::','fn') or n and n.t in('(',')','{',';',',','::')): alts=[]
            if t.t in('-','*','&') and p and (p.t in('(',',','=','return','{','[','+','-','*','/','<','>','==','&&','||','&',';','in') ): alts=[]
            if t.t=='-' and p and p.t=='(' : alts=['']
            if t.t in('x','y','from','to','left','right','start','end') and not(p and p.t in('.','(',',')): alts=[]
            if t.t in('first','last','min','max','any','all','left','right','top','bottom') and not(p and p.t in('.','::')): alts=[]
            if re.fullmatch(r'\d+',t.t): alts=[str(int(t.t)+1)]+([str(int(t.t)-1)] if int(t.t)>0 else [])
            if re.fullmatch(r'\d+\.\d*',t.t): alts=[str(float(t.t)*2 if float(t.t) else 1.0)]
            if t.t=='!' and n and n.t not in('(','[','{','=') and not(p and p.k=='id' and p.t not in('if','while','return')): alts=['']
            if t.t=='if' and n and n.t!='let' and not(p and p.t=='else'): alts=['if !']if False else []
            for a in alts: out.append((rel,t.s,t.e,a,line(t.s)))
            # statement deletion:  ident-started statement ending in ; at the start of a line
            if t.t in(';','{','}') and n and not dead[i+1] and n.k=='id' and n.t not in('let','return','fn','pub','impl','struct','enum','const','static','mod','use','type','trait','if','while','for','match','loop','else','extern'):
                j=i+1;ok=True
                while j<len(toks) and toks[j].t!=';':
                    if toks[j].t in('(','[','{'): j=rsl.match(toks,j)
                    elif toks[j].t in('}',')',']',',','=>'): ok=False;break
                    j+=1
                if ok and j<len(toks) and not any(x.t in('println','print','log','eprintln') for x in toks[i+1:j]): out.append((rel,n.s,toks[j].e,'',line(n.s)))
            # conditions
            if t.t in('if','while') and n and n.t!='let':
                j=i+1
                while toks[j].t!='{':
                    if toks[j].t in('(','['): j=rsl.match(toks,j)
                    j+=1
                out.append((rel,toks[i+1].s,toks[j-1].e,'!('+src[toks[i+1].s:toks[j-1].e]+')',line(t.s)))
    return out
def sh(c,t):
    try: r=subprocess.run(c,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=t); return r.returncode,r.stdout.decode('utf8','replace')
    except subprocess.TimeoutExpired: return -1,'timeout'
def main():
    if sys.argv[1]=='list':
        m=mutants(); random.Random(int(sys.argv[2])).shuffle(m); m=m[:int(sys.argv[3])]; json.dump(m,open(sys.argv[4],'w')); print(len(m)); return
    ms=json.load(open(sys.argv[2])); I,N=int(sys.argv[3]),int(sys.argv[4]); out=open(sys.argv[5],'a')
    ev=evidence()
    for k in range(I,len(ms),N):
        rel,s,e,a,ln=ms[k]; f=R+rel; src=open(f).read()
        new=src[:s]+a+src[e:]
        tag=f"{k} {rel}:{ln} `{src[s:e][:60]}` -> `{a[:60]}`"
        open(f,'w').write(new)
        try:
            rc,o=sh('bash /opt/vp/build.sh',300)
            if rc: print(tag,'| nobuild',file=out,flush=True); continue
            rc,o=sh('timeout 100 bash /opt/vp/test.sh /tmp/mt.json',120)
            if rc: print(tag,'| tests',file=out,flush=True); continue
            sh('cd /verif/harness && RUSTFLAGS="--cfg verif_hooks" CARGO_TARGET_DIR=/verif/target cargo build --offline --release -q',300)
            own=[x for x in ev if x[0]==rel and x[1]<=ln]
            ml=max([x[1] for x in own],default=None); props=sorted({x[3] for x in own if x[1]==ml}); name=[x[2] for x in own if x[1]==ml][:1]
            caught=[]; und=[]
            order=[p for p in props if p!='P14']+[p for p in props if p=='P14']+[p for p in ['P%02d'%i for i in range(1,28)] if p not in props]
            # proofs of the owners, with their bounded part; then the bounded part of everything else
            for p in order:
                if p in props:
                    rc,o=sh(f'VERIF_SEED=1 VERIF_TIER=quick python3 /verif/tools/check.py {p} quick',900)
                    if 'VIOLATION' in o: caught.append(p+('*' if 'no-failing' in o else '')); break
                    if 'undecided' in o: und.append(p)
                    if rc!=0: caught.append(p+'?'+o[-200:]); break
                else:
                    b=f'/verif/target/release/vh'
                    rc,o=sh(f'{b} {p} --seed 1 --secs 4 --threads 2',100)
                    if '"fail":null' not in o: caught.append(p+'h'); break
            print(tag,'|',name,'caught '+','.join(caught) if caught else 'SURVIVED','undecided '+','.join(und) if und else '',file=out,flush=True)
        finally: open(f,'w').write(src)
main()
