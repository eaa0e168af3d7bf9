#!/usr/bin/env python3
"""check.py PROPERTY: decides one property on /repo's current tree. See DESIGN.md."""
import os,sys,json,subprocess,time,re,threading,resource,shutil,glob
HERE=os.path.dirname(os.path.abspath(__file__)); V=os.path.dirname(HERE)
sys.path.insert(0,HERE); sys.dont_write_bytecode=True
import weave,config
W=V+"/work"; REPO=weave.REPO
SEMANTIC=("postcondition not satisfied","precondition not satisfied","assertion failed","invariant not satisfied","possible arithmetic","decreases not satisfied","possible division","unwrap","loop invariant","recommendation not met and","possible bit shift","cannot show","failed this","index","unreachable","bounds","could not prove termination","assertion not satisfied","requires not satisfied","expect")
LIMIT=("rlimit","Resource limit","resource limit","timed out","timeout")

def sh(cmd,timeout,env=None,mem=None,cwd=None):
    def pre():
        os.setsid()
        if mem: resource.setrlimit(resource.RLIMIT_AS,(mem,mem))
        resource.setrlimit(resource.RLIMIT_CORE,(0,0))
    e=dict(os.environ); e.update(env or {})
    p=subprocess.Popen(cmd,stdout=subprocess.PIPE,stderr=subprocess.PIPE,env=e,preexec_fn=pre,cwd=cwd)
    try: o,er=p.communicate(timeout=timeout); return p.returncode,o.decode("utf8","replace"),er.decode("utf8","replace")
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid,9)
        except OSError: pass
        o,er=p.communicate(); return -999,o.decode("utf8","replace"),er.decode("utf8","replace")

# ---------------------------------------------------------------- harness
class Harness:
    def __init__(s,prop,seed): s.prop=prop;s.seed=seed;s.bin=None;s.note=None;s.hooks=True;s.runs=[]
    def build(s):
        os.makedirs(V+"/target",exist_ok=True)
        for hooks in(True,False):
            env={"CARGO_TARGET_DIR":V+"/target"+("" if hooks else "/nohooks"),"CARGO_NET_OFFLINE":"true","RUSTFLAGS":"--cfg verif_hooks" if hooks else ""}
            rc,o,e=sh(["cargo","build","--offline","--release","-q"],600,env,cwd=V+"/harness")
            if rc==0:
                s.bin=env["CARGO_TARGET_DIR"]+"/release/vh"; s.hooks=hooks
                dst=f"{W}/vh-{s.prop}"; shutil.copy2(s.bin,dst); s.bin=dst
                if not hooks: s.note="the hooks do not compile with this tree; ran without them"
                return
            s.err=e[-1500:]
        s.note="the harness does not compile with this tree: "+s.err
    def run(s,secs,seed):
        """-> dict or None"""
        if not s.bin: return None
        mem=26*2**30
        rc,o,e=sh([s.bin,s.prop,"--seed",str(seed),"--secs",str(secs)],secs+120,mem=mem)
        try: d=json.loads(o.strip().splitlines()[-1])
        except Exception:
            # the process died (stack overflow, abort, memory): find the case
            tr=f"{W}/trace-{s.prop}"
            for f in glob.glob(tr+".*"): os.unlink(f)
            sh([s.bin,s.prop,"--seed",str(seed),"--secs",str(secs*2),"--trace",tr],secs*2+120,mem=mem)
            d=None
            for f in sorted(glob.glob(tr+".*")):
                try: ix=int(open(f).read())
                except ValueError: continue
                r2,o2,e2=sh([s.bin,s.prop,"--seed",str(seed),"--case",str(ix)],90,mem=mem)
                if r2 not in(0,):
                    d={"evaluations":ix,"distinct":0,"samples":[],"fail":{"idx":ix,"msg":f"the process running this input ends abnormally (status {r2}) {o2[-300:]} {e2[-300:]}","input":o2[-4000:]}}; break
            if d is None:
                s.note=f"the harness ended abnormally (status {rc}) and no single case reproduces it: {e[-300:]}"; return None
        d["seed"]=seed; s.runs.append(d); return d

# ---------------------------------------------------------------- verus
class Proof:
    def __init__(s,prop): s.prop=prop;s.mods=config.MODULES.get(prop,[]);s.fail=[];s.undecided=[];s.dep=[];s.fns=[];s.obl=0;s.dis=0;s.smt=0;s.cmd="";s.scan=[];s.vac=None;s.err=None;s.wall=0;s.slow=[];s.raw=""
    def verus(s,text,tag,extra,timeout):
        f=f"{W}/{s.prop}_{tag}.rs"; open(f,"w").write(text)
        cmd=["verus",f,"--triggers-mode","silent","--output-json","--time-expanded","--error-format=json","--multiple-errors","8","--num-threads","4"]+extra
        s.cmd=" ".join(cmd)
        rc,o,e=sh(cmd,timeout,cwd=W)
        try: js=json.loads(o[o.index("{"):])
        except Exception: js=None
        diags=[]
        for l in e.splitlines():
            if l.startswith("{"):
                try:
                    d=json.loads(l)
                    if d.get("level")=="error": diags.append(d)
                except ValueError: pass
        return rc,js,diags,e
    def run(s,budget):
        if not s.mods: return
        t0=time.time(); degraded=set(); order=None; reasons={}
        for attempt in range(12):
            try: text,fns=weave.weave(s.mods,frozenset(degraded))
            except Exception as ex: s.err=f"extraction failed: {ex}"; s.undecided.append(s.err); return
            order=weave.closure(s.mods)
            for f in fns:
                if f.get("error") : reasons[f["key"]]=f["error"]; degraded.add(f["key"])
            if any(f.get("missing") for f in fns):
                for f in fns:
                    if f.get("missing"): reasons[f["key"]]=f["error"]
            rc,js,diags,raw=s.verus(text,"all",[],max(60,budget-(time.time()-t0)))
            s.raw=raw
            if rc==-999: s.err="the verifier ran out of time"; s.undecided.append(s.err); return
            vr=(js or {}).get("verification-results",{})
            compiled=js is not None and "verified" in vr and not vr.get("encountered-vir-error",True) and (js.get("times-ms",{}).get("smt",{}).get("smt-run-module-times"))
            if compiled: break
            new=set()
            for d in diags:
                for sp in d["spans"]:
                    if not sp.get("is_primary"): continue
                    for f in fns:
                        if f["kind"]=="fn" and not f.get("missing") and f["lo"]<=sp["line_start"]<=f["hi"] and f["key"] not in degraded:
                            new.add(f["key"]); reasons.setdefault(f["key"],"outside the verifier's reach: "+d["message"][:300])
            if not new:
                s.err="the extracted text is not accepted: "+"; ".join(d["message"][:200] for d in diags[:3]); s.undecided.append(s.err); return
            degraded|=new
        else:
            s.err="too many functions are outside the verifier's reach"; s.undecided.append(s.err); return
        own=set(s.mods)
        # results
        br={}
        for m in js["times-ms"]["smt"].get("smt-run-module-times",[]):
            for f in m.get("function-breakdown",[]):
                br[f["function"].split("::",1)[1]]=f
        s.smt=js["times-ms"]["smt"].get("smt-run",0)/1000
        bylo=[f for f in fns if f.get("lo",-1)>=0]
        def locate(line):
            for f in bylo:
                if f["lo"]<=line<=f["hi"]: return f
        errs={}
        for d in diags:
            if not d["spans"]: continue
            if d["message"].startswith("aborting due"): continue
            # the function whose body was being proved: prefer the call site / exit inside an fn
            cand=[]
            for sp in d["spans"]:
                if os.path.basename(sp.get("file_name",""))!=f"{s.prop}_all.rs": continue
                f=locate(sp["line_start"])
                if f: cand.append((f,sp))
            failed=[(f,sp) for f,sp in cand if f["kind"]=="fn" and br.get(f["module"]+"::"+f["path"],{}).get("success") is False]
            use=failed[0] if failed else (cand[0] if cand else None)
            if use: errs.setdefault(use[0].get("key",use[0]["module"]+"::<spec>"),[]).append((d,use[1]))
        tl=text.split("\n")
        runtime={g["lo"]+k for g in [{"lo":i} for i,l in enumerate(tl,1) if re.search(r"pub fn vx_(assert|panic|unreachable)\b",l)] for k in range(0,3)}
        def safety(d):
            """is it the obligation that a run does not abort, or that it ends?"""
            m=d["message"]
            if "decreases" in m or "overflow" in m or "underflow" in m or "division by zero" in m: return True
            for sp in d["spans"]:
                here=os.path.basename(sp.get("file_name",""))==f"{s.prop}_all.rs"
                if "precondition" in m and (sp.get("label") or "").startswith("failed precondition") and (not here or sp["line_start"] in runtime): return True
                if here and tl[sp["line_start"]-1][:sp["column_start"]-1].rstrip().endswith("/*"+s.prop+"*/"): return True
            return False
        def foreign(d):
            """does the obligation belong to another property alone? (a clause with the name of a property in front of it)"""
            tags=set()
            for sp in d["spans"]:
                if os.path.basename(sp.get("file_name",""))!=f"{s.prop}_all.rs": continue
                m=re.search(r"/\*(P\d\d)\*/$",tl[sp["line_start"]-1][:sp["column_start"]-1].rstrip())
                if m: tags.add(m.group(1))
            return bool(tags) and s.prop not in tags
        guard=s.prop in config.SAFETY
        for f in fns:
            if f["kind"]!="fn": continue
            key=f["key"]; ent={"function":key,"source":f["spec"].file}
            if f.get("info"): ent["line"]=f["info"].get("line")
            lost=(f.get("info") or {}).get("lost",[])
            if key in reasons or key in degraded:
                ent["status"]="undecided"; ent["why"]=reasons.get(key,"")
                if f["module"] in own: s.undecided.append(f"{key}: {ent['why']}")
            elif br.get(f["module"]+"::"+f["path"],{}).get("success") is False or key in errs:
                es=errs.get(key,[])
                msgs=[e[0]["message"] for e in es]
                lim=any(any(l in m for l in LIMIT) for m in msgs) or not msgs
                ent["errors"]=[{"obligation":e[0]["message"],"at":(e[0].get("rendered") or "")[:1500]} for e in sorted(es,key=lambda e:foreign(e[0]))[:4]]
                if lim or lost:
                    ent["status"]="undecided"; ent["why"]=("anchors lost: "+", ".join(lost)) if lost else "resource limit"
                    if f["module"] in own: s.undecided.append(f"{key}: {ent['why']}")
                elif f["module"] in own and not all(foreign(e[0]) for e in es) or guard and any(safety(e[0]) for e in es):
                    ent["status"]="failed"; s.fail.append(ent)
                else:
                    ent["status"]="failed"; s.dep.append(key)
            elif lost and False: pass
            elif "assumed" in f["spec"].opts: ent["status"]="assumed"
            else: ent["status"]="discharged"
            b=br.get(f["module"]+"::"+f["path"])
            if b: ent["ms"]=b["time"]
            if f["module"] in own or guard or ent["status"]!="discharged": s.fns.append(ent)
        for k,es in errs.items():
            if k.endswith("::<spec>") or not any(x["function"]==k for x in s.fns+[{"function":g["key"]} for g in fns if g["kind"]=="fn"]):
                m=k.split("::")[0]
                s.undecided.append(f"a lemma of module {m} is not accepted: {es[0][0]['message'][:200]}")
        s.obl=vr["verified"]+vr["errors"]; s.dis=vr["verified"]
        s.slow=sorted(((b["time"],k) for k,b in br.items()),reverse=True)[:5]
        s.scan=scan(text,fns)
        s.wall=time.time()-t0
        # vacuity: with a false assertion at the start, every function under contract has to fail
        vt,vf=weave.weave(s.mods,frozenset(degraded),vacuity=True)
        rc,js2,dg,raw2=s.verus(vt,"vac",[x for m in s.mods for x in("--verify-only-module",m)],max(60,budget-(time.time()-t0)))
        s.cmd=f"verus {W}/{s.prop}_all.rs (generated on every run by tools/weave.py)"
        if js2 and js2.get("times-ms",{}).get("smt",{}).get("smt-run-module-times"):
            ok={}
            for m in js2["times-ms"]["smt"]["smt-run-module-times"]:
                for f in m.get("function-breakdown",[]): ok[f["function"].split("::",1)[1]]=f["success"]
            probed=[f for f in vf if f["kind"]=="fn" and f["module"] in own and f["key"] not in degraded and not f.get("missing") and "assumed" not in f["spec"].opts]
            vac=[f["key"] for f in probed if ok.get(f["module"]+"::"+f["path"],False)]
            s.vac={"functions_probed":len(probed),"vacuous":vac}
            for v in vac: s.undecided.append(f"{v}: its precondition can never hold")
        else: s.vac={"functions_probed":0,"vacuous":[],"note":"the vacuity probe gave no answer"}

def scan(text,fns):
    """every assumption in the verified text"""
    out=[]
    tl=text.split("\n")
    for i,l in enumerate(tl):
        if re.search(r"external_body|assume_specification|\badmit\(|\bassume\(|external_type_specification|uninterp|\baxiom\b|exec_allows_no_decreases|external_fn_specification|broadcast axiom",l) and not l.strip().startswith("//"):
            # name the item
            j=i
            while j<len(tl) and not re.search(r"\bfn\b|\bstruct\b|\[",tl[j].replace("#[","")) and j<i+6: j+=1
            nm=re.sub(r"\s+"," ",(l.strip()+" "+(tl[j].strip() if j!=i and j<len(tl) else "")))[:220]
            out.append(nm)
    return out

# ---------------------------------------------------------------- main
def known(prop):
    r=[]
    p=V+"/known_findings.txt"
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("finding: property="+prop+" "): r.append(l[len("finding: property="+prop+" "):].strip())
    return r

def main():
    prop=sys.argv[1]; tier=os.environ.get("VERIF_TIER","quick")
    if len(sys.argv)>2: tier=sys.argv[2]
    try: seed=int(os.environ.get("VERIF_SEED","1"))
    except ValueError: seed=1
    os.makedirs(W,exist_ok=True); os.makedirs(V+"/evidence",exist_ok=True)
    t0=time.time(); thorough=tier=="thorough"
    H=Harness(prop,seed); P=Proof(prop)
    hres={}
    def hrun():
        H.build()
        hres["r"]=H.run(config.THOROUGH_SECS if thorough else config.QUICK_SECS,seed)
    def prun():
        try: P.run(400)
        except Exception as ex:
            import traceback; P.err=f"internal: {ex}"; P.undecided.append(P.err+traceback.format_exc()[-500:])
    a=threading.Thread(target=hrun); b=threading.Thread(target=prun)
    a.start(); b.start(); a.join(); b.join()
    r=hres.get("r")
    if r and thorough and not r["fail"]:
        for k in range(1,3):
            r2=H.run(60,seed+1000*k)
            if r2 and r2["fail"]: r=r2
    if (P.fail or P.undecided or P.dep) and r and not r["fail"]:
        r2=H.run(config.EXTRA_SECS if (P.fail or P.undecided) else 15,seed+7919)
        if r2 and r2["fail"]: r=r2
    viol=[]; kf=known(prop); kprint=[]
    rp=f"{W}/replay-{prop}.txt"
    if os.path.exists(rp): os.unlink(rp)
    body=""
    if r and r["fail"]:
        f=r["fail"]
        hit=[k for k in kf if k in f["msg"] or k in f["input"]]
        if hit: kprint+=hit
        else:
            viol.append("")
            body+=f"property {prop}: an input on which the real code of {REPO} breaks the property\n\n{f['msg']}\n\ninput:\n{f['input']}\n\nto replay: {V}/target/release/vh {prop} --seed {r['seed']} --case {f['idx']}   (built with RUSTFLAGS='--cfg verif_hooks' from /verif/harness)\n\n"
    if P.fail:
        body+="obligations that the verifier does not accept on the current source:\n"
        for e in P.fail:
            body+=f"\n== {e['function']} ({e['source']}:{e.get('line')})\n"+"\n".join(x["at"] for x in e.get("errors",[]))
        if not viol: viol.append(" no-failing-input-found")
    if viol: open(rp,"w").write(body)
    for k in kprint: print(f"KNOWN-FINDING: property={prop} {k}")
    ev=sum(x["evaluations"] for x in H.runs); di=sum(x["distinct"] for x in H.runs)
    harness={"evaluations":ev,"distinct_nontrivial":di,"rule":config.RULE[prop],"samples":[x for y in H.runs for x in y["samples"]][:3],"hooks":H.hooks,"note":H.note,
             "label":"bounded: sampled inputs on the real code, not counted as proved; it provides failing inputs and covers what has no contract"}
    level=config.level(prop)
    cov={"functions_under_contract":P.fns,"undecided":P.undecided,"failed_dependencies":P.dep,"solver_s":P.smt,"verifier_wall_s":round(P.wall,2),"backend":"Verus 0.2026.09.13 (Z3 4.12.5 bundled)","vacuity":P.vac,"slowest_ms":P.slow,"not_under_contract":config.REST.get(prop,[]),"bounded":harness}
    cov.update({"obligations":P.obl,"discharged":P.dis,"checker_cmd":P.cmd,"trusted_base":P.scan})
    if level!="proof":
        cov.update({"evaluations":ev,"distinct_nontrivial":di,"rule":config.RULE[prop],"samples":harness["samples"] or ["none"],"explanation":"sampled inputs on the real code, see level_note"})
    doc={"property":prop,"tier":"thorough" if thorough else "quick","seed":seed,"level":level,"coverage":cov,"assumptions":config.COMMON_ASSUME*(1 if P.mods else 0)+config.ASSUME.get(prop,[]),"wall_s":round(time.time()-t0,2),"violations":len(viol)}
    json.dump(doc,open(f"{V}/evidence/{prop}.json","w"),indent=1)
    try: os.unlink(f"{W}/vh-{prop}")
    except OSError: pass
    print(f"{prop}: {P.dis}/{P.obl} obligations discharged in {P.wall:.1f} s, {len([f for f in P.fns if f['status']=='discharged'])} functions under contract; {ev} inputs tried on the real code; {time.time()-t0:.0f} s")
    for u in P.undecided: print("undecided:",u[:400])
    for u in P.dep: print("a contract this property relies on fails in another check:",u)
    if H.note: print("note:",H.note[:500])
    for v in viol: print(f"VIOLATION property={prop} replay={rp}{v}")
    sys.exit(1 if viol else 0)
main()
