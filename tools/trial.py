#!/usr/bin/env python3
"""development tool: trials.py FILE [names]: applies each edit list of FILE (T: name, kind, [(path, old, new)]) in one of four copies
(mount namespaces), builds, tests, and runs the quick checks of every property with a contract on a file it touches."""
import sys,os,re,subprocess,importlib.util,json
V='/verif'
def load(f):
    s=importlib.util.spec_from_file_location('t',f); m=importlib.util.module_from_spec(s); s.loader.exec_module(m); return m.T
def sh(c,t=900):
    try: r=subprocess.run(c,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=t); return r.returncode,r.stdout.decode('utf8','replace')
    except subprocess.TimeoutExpired: return -1,'timeout'
def affected(files):
    sys.path.insert(0,V+'/tools'); import config
    mods={}
    for f in os.listdir(V+'/contracts'):
        if f.endswith('.vspec'):
            s=open(V+'/contracts/'+f).read(); mods[f[:-6]]=set(re.findall(r'^@file (\S+)',s,re.M))
    out=[]
    for p,ms in sorted(config.MODULES.items()):
        if any(fl.endswith(x) for m in ms for x in mods.get(m,()) for fl in files): out.append(p)
    return out
def main():
    if sys.argv[1]=='run':
        _,_,f,i,n,outf=sys.argv[:6]; names=sys.argv[6:]
        ts=[t for t in load(f) if not names or t[0] in names]
        for k in range(int(i),len(ts),int(n)):
            name,kind,edits=ts[k][:3]; props=ts[k][3] if len(ts[k])>3 else None; out=open(outf,'a'); ok=True
            for p,a,b in edits:
                s=open('/repo/'+p).read()
                if s.count(a)!=1: print(name,'EDIT matches',s.count(a),repr(a[:70]),file=out,flush=True); ok=False; break
                open('/repo/'+p,'w').write(s.replace(a,b))
            if ok:
                rc,o=sh('bash /opt/vp/build.sh')
                if rc: print(name,'NOBUILD','\n'.join([l for l in o.split('\n') if 'error' in l or '-->' in l][:6]),file=out,flush=True); ok=False
            if ok:
                rc,o=sh('bash /opt/vp/test.sh /tmp/tt.json')
                if rc: print(name,'TESTS FAIL',file=out,flush=True); ok=False
            if ok:
                res=[]
                for p in props or affected({e[0] for e in edits}):
                    rc,o=sh(f'cd /verif; VERIF_SEED=1 VERIF_TIER=quick python3 tools/check.py {p} quick')
                    e=json.load(open(f'/verif/evidence/{p}.json')); c=e.get('coverage',e)
                    d=re.findall(r'undecided[^\n]*',o)
                    v='VIOLATION' in o
                    if v: res.append(p+('*' if 'no-failing-input' in o else '!!'))
                    elif rc: res.append(f'{p}?rc{rc}')
                    elif c.get('undecided'): res.append(p+'u')
                    elif c.get('failed_dependencies'): res.append(p+'d')
                    else: res.append(p)
                    if v:
                        os.makedirs('/tmp/trials/logs',exist_ok=True); open(f'/tmp/trials/logs/{name}-{p}','w').write(o)
                print(name,kind,' '.join(res),file=out,flush=True)
            sh('git -C /repo checkout -q -- .')
        return
    f=os.path.abspath(sys.argv[1]); names=' '.join(sys.argv[2:]); N=4; W='/tmp/trw'; outf=f+'.out'; open(outf,'w').close(); ps=[]
    for i in range(N):
        os.makedirs(f'{W}/{i}',exist_ok=True)
        sh(f'rm -rf {W}/{i}/repo {W}/{i}/verif; cp -a /repo {W}/{i}/repo; rsync -a --exclude .git /verif/ {W}/{i}/verif/ || cp -a /verif {W}/{i}/verif')
        ps.append(subprocess.Popen(['unshare','-m','bash','-c',f'mount --bind {W}/{i}/repo /repo; mount --bind {W}/{i}/verif /verif; python3 /verif/tools/trial.py run {f} {i} {N} {outf} {names}']))
    for p in ps: p.wait()
    print(open(outf).read())
main()
