"""Cuts the functions named by contracts/*.vspec out of /repo, splices the contracts in, writes a Verus crate.
See DESIGN.md ("Extraction") for the complete list of what is dropped and desugared."""
import os,re,sys,shlex,glob
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
import rsl
from rsl import Tok

REPO=os.environ.get("VERIF_REPO","/repo")
SRC=REPO+"/layout/src/"
CON=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"contracts")

class WeaveError(Exception): pass

# ------------------------------------------------------------------ text as XML (contracts/xml.vspec): names as numbers, literals read
ALPHA="abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-:._"
def xml_name(w):
    r=0
    for c in w: r=r*100+ALPHA.index(c)+1
    return r
def xml_words(s):
    """NAME(word) -> its number, TEXT{word} -> its characters, @alphabet is handled by parse_vspec"""
    s=re.sub(r"\bTEXT\{(.*?)\}",lambda m:"Seq::<char>::empty()"+"".join(".push(%s)"%rust_char(c) for c in m.group(1)),s)
    return re.sub(r"\bNAME\(([\w:.-]+)\)",lambda m:str(xml_name(m.group(1)))+"int",s)
XALPHA="pub open spec fn xcode(c: char) -> int { "+"".join("if c == '%s' { %d } else "%(c,i+1) for i,c in enumerate(ALPHA))+"{ 0 } }"
def rust_char(c):
    return {"\n":"'\\n'","\r":"'\\r'","\t":"'\\t'","'":"'\\''","\\":"'\\\\'"}.get(c,"'%s'"%c if " "<=c<="~" else "'\\u{%x}'"%ord(c))
def unescape(tok):
    """the text of a string literal token"""
    m=re.match(r'r(#*)"',tok)
    if m: return tok[m.end():-1-len(m.group(1))]
    b=tok[1:-1]; o="";i=0
    while i<len(b):
        if b[i]!="\\": o+=b[i];i+=1;continue
        c=b[i+1]
        if c=="\n":
            i+=2
            while i<len(b) and b[i] in " \n\t\r": i+=1
        elif c=="u": j=b.index("}",i); o+=chr(int(b[i+3:j],16)); i=j+1
        elif c=="x": o+=chr(int(b[i+2:i+4],16)); i+=4
        else: o+={"n":"\n","t":"\t","r":"\r","0":"\0"}.get(c,c); i+=2
    return o
XREF={xml_name(k):v for k,v in {"amp":"&","lt":"<","gt":">","quot":'"',"apos":"'"}.items()}
def xml_read(m,s):
    """the reader of contracts/xml.vspec: only a guess, the lemmas built from it are checked by the verifier"""
    out=[]
    nm=lambda c: ALPHA.find(c)+1
    for c in s:
        k=m[0]; sp=c in " \n\t\r"; n=nm(c)
        if k=="Text": m=("Lt",) if c=="<" else ("Ref",0) if c=="&" else ("Bad",) if c==">" else m; out+=[("Ch",c)] if m[0]=="Text" else []
        elif k=="Ref":
            if c==";":
                if m[1] in XREF: out.append(("Ch",XREF[m[1]])); m=("Text",)
                else: m=("Bad",)
            else: m=("Ref",m[1]*100+n) if n else ("Bad",)
        elif k=="Lt": m=("Close",0) if c=="/" else ("Pi",) if c=="?" else ("Open",n) if n else ("Bad",)
        elif k=="Pi": m=("PiQ",) if c=="?" else m
        elif k=="PiQ":
            if c==">": out.append(("Pi",)); m=("Text",)
            elif c!="?": m=("Pi",)
        elif k=="Open":
            if n: m=("Open",m[1]*100+n)
            elif sp: out.append(("Start",m[1])); m=("Tag",)
            elif c==">": out+=[("Start",m[1]),("Body",)]; m=("Text",)
            elif c=="/": out.append(("Start",m[1])); m=("Sl",)
            else: m=("Bad",)
        elif k in("Tag","After"):
            if sp: m=("Tag",)
            elif c==">": out.append(("Body",)); m=("Text",)
            elif c=="/": m=("Sl",)
            elif n and k=="Tag": m=("Name",n)
            else: m=("Bad",)
        elif k=="Sl":
            if c==">": out.append(("Empty",)); m=("Text",)
            else: m=("Bad",)
        elif k=="Name": m=("Name",m[1]*100+n) if n else ("NameSp",m[1]) if sp else ("Eq",m[1]) if c=="=" else ("Bad",)
        elif k=="NameSp": m=m if sp else ("Eq",m[1]) if c=="=" else ("Bad",)
        elif k=="Eq": m=m if sp else ("Val",m[1],"Seq::<char>::empty()",0) if c=='"' else ("Val",m[1],"Seq::<char>::empty()",1) if c=="'" else ("Bad",)
        elif k=="Val":
            if c==("'" if m[3] else '"'): out.append(("Attr",m[1],m[2])); m=("After",)
            elif c=="<": m=("Bad",)
            elif c=="&": m=("VRef",m[1],m[2],m[3],0)
            else: m=("Val",m[1],m[2]+".push("+rust_char(c)+")",m[3])
        elif k=="VRef":
            if c==";":
                if m[4] in XREF: m=("Val",m[1],m[2]+".push("+rust_char(XREF[m[4]])+")",m[3])
                else: m=("Bad",)
            else: m=("VRef",m[1],m[2],m[3],m[4]*100+n) if n else ("Bad",)
        elif k=="Close":
            if n: m=("Close",m[1]*100+n)
            elif sp: m=("CloseSp",m[1])
            elif c==">": out.append(("End",m[1])); m=("Text",)
            else: m=("Bad",)
        elif k=="CloseSp":
            if c==">": out.append(("End",m[1])); m=("Text",)
            elif not sp: m=("Bad",)
    return m,out
def xml_m(m):
    k=m[0]
    if k=="Val": return f"XM::Val({num_(m[1])}, {m[2]}, {'true' if m[3] else 'false'})"
    if k=="VRef": return f"XM::VRef({num_(m[1])}, {m[2]}, {'true' if m[3] else 'false'}, {m[4]}int)"
    return f"XM::{k}"+(f"({m[1]}int)" if len(m)>1 else "")
def num_(x): return x if isinstance(x,str) else f"{x}int"
def xml_e(e):
    if e[0]=="Ch": return f"XE::Ch({rust_char(e[1])})"
    if e[0]=="Attr": return f"XE::Attr({num_(e[1])}, {e[2]})"
    return f"XE::{e[0]}"+(f"({e[1]}int)" if len(e)>1 else "")
def xml_literals(texts):
    """a lemma for every string literal of the module: what reading it does, from every kind of place where it can stand"""
    lits=[]
    for t in texts:
        for k in rsl.lex(t):
            if k.k=="str" and k.t not in lits and not k.t.startswith(("b","c")): lits.append(k.t)
    out=[];group=[]
    for k,t in enumerate(lits):
        s=unescape(t); cs=["seq!["+", ".join(rust_char(c) for c in s)+"]",f"Seq::<char>::empty()"][s==""]
        out.append(f"proof fn vx_chars_{k}() ensures {t}@ == {cs} {{ reveal_strlit({t}); assert({t}@ =~= {cs}); }}")
        plain=[]
        if not set(s)&set('<&"'): plain.append("vt")
        if not set(s)&set("<&>"): plain.append("tt")
        for q in plain:
            n=f"vx_{q}_{k}"; group.append(n)
            out.append(f"pub broadcast proof fn {n}() ensures #[trigger] {q}({t}@) {{ reveal({q}); reveal_strlit({t}); }}")
        if s=="":
            n=f"vx_none_{k}"; group.append(n)
            out.append(f"pub broadcast proof fn {n}() ensures #[trigger] {t}@ == Seq::<char>::empty() {{ vx_chars_{k}(); }}")
        done=[]
        for e in("Text","Tag","After","Val"):
            if e=="Text" and "tt" in plain or e=="Val" and "vt" in plain or s=="": continue
            m0=("Val","vxn","vxv",0) if e=="Val" else (e,)
            m,o=xml_read(m0,s)
            if m[0]=="Bad": continue
            par="vxn: int, vxv: Seq<char>" if e=="Val" else ""
            os="Seq::<XE>::empty()"+"".join(f".push({xml_e(x)})" for x in o)
            out.append(f"proof fn vx_read_{k}_{e}({par}) ensures xlex(XL {{ m: {xml_m(m0)}, o: Seq::<XE>::empty() }}, {cs}) == (XL {{ m: {xml_m(m)}, o: {os} }}) {{ assert(xlex(XL {{ m: {xml_m(m0)}, o: Seq::<XE>::empty() }}, {cs}) == (XL {{ m: {xml_m(m)}, o: {os} }})) by(compute); }}")
            done.append((e,m,o))
        if len(done)>=2 and [d[0] for d in done[:2]]==["Tag","After"] and done[0][1:]==done[1][1:]: done=[("Tag|After",)+done[0][1:]]+done[2:]
        for e,m,o in done:
            r="z.r";q=0;steps=[]
            while q<len(o):
                w=q
                while w<len(o) and o[w][0]=="Ch": w+=1
                if w-q>=2:
                    acc="Seq::<char>::empty()"; sp="true"
                    for j,x in enumerate(o[q:w]):
                        c=rust_char(x[1])
                        steps.append(f"lemma_feeds_one({r}, {c});" if j==0 else f"lemma_feeds_push({r}, {acc}, {sp}, {c});")
                        acc+=f".push({c})"; sp="true" if sp=="true" and x[1] in " \n\t\r" else "false"
                    r=f"feeds({r}, {acc}, {sp})"; q=w
                else: r=f"feed({r}, {xml_e(o[q])})"; q+=1
            sub=lambda z: re.sub(r"\bvxv\b","z.m->Val_1",re.sub(r"\bvxn\b","z.m->Val_0",z)) if e=="Val" else z
            n=f"vx_lit_{k}_{e.replace('|','_')}"; group.append(n)
            pre="z.m is Val, !z.m->Val_2" if e=="Val" else "z.m is Tag || z.m is After" if "|" in e else f"z.m is {e}"
            call=f"vx_read_{k}_Val(z.m->Val_0, z.m->Val_1);" if e=="Val" else f"vx_read_{k}_Tag(); vx_read_{k}_After();" if "|" in e else f"vx_read_{k}_{e}();"
            out.append(f"pub broadcast proof fn {n}(z: XZ) requires {pre} ensures #[trigger] eff(z, {t}@) == (XZ {{ m: {sub(xml_m(m))}, r: {sub(r)} }}) {{ reveal(eff); vx_chars_{k}(); {call} broadcast use {{lemma_proc_push, lemma_push_add, lemma_none_add}}; {sub(' '.join(steps))} }}")
    out.append("pub broadcast group vx_literals { "+", ".join(group)+" }")
    return "\n".join(out)+"\n"

# ------------------------------------------------------------------ vspec files
class FnSpec: pass

def parse_vspec(path):
    m={"name":None,"file":None,"use":[],"parts":[]}
    cur=None; buf=None; fn=None
    def flush():
        nonlocal buf
        buf=None
    lines=open(path).read().split("\n")
    i=0
    sink=None
    def setsink(l):
        nonlocal sink; sink=l
    for ln,line in enumerate(lines,1):
        s=line.strip()
        if s.startswith("@"):
            w=shlex.split(s[1:],comments=False)
            d=w[0]
            if d=="module": m["name"]=w[1]
            elif d=="file": m["file"]=w[1]; sink=None
            elif d=="use": m["use"]+=w[1:]
            elif d=="code": b=[]; m["parts"].append(("code",b,ln)); sink=b
            elif d=="end": sink=None
            elif d=="alphabet": sink.append(XALPHA)
            elif d=="literals": m["parts"].append(("literals",w[1])); sink=None
            elif d in("struct","enum","type","const","static"):
                m["parts"].append((d,w[1],m["file"],dict((x.split("=",1)+["1"])[:2] if "=" in x else (x,"1") for x in w[2:]))); sink=None
            elif d=="fn":
                fn=FnSpec(); fn.path=w[1]; fn.file=m["file"]; fn.opts=dict((x.split("=",1)+["1"])[:2] if "=" in x else (x,"1") for x in w[2:])
                fn.header=[]; fn.loops={}; fn.hints=[]; fn.substs=[]; fn.line=ln
                m["parts"].append(("fn",fn)); sink=fn.header
            elif d=="loop":
                n=int(w[1]); sp=[]; fn.loops[n]={"opts":dict(x.split("=",1) for x in w[2:] if "=" in x),"spec":sp,"flags":[x for x in w[2:] if "=" not in x]}; sink=sp
            elif d in("before","after"):
                b=[]; fn.hints.append((d,w[1],int(w[2]) if len(w)>2 and w[2]!="?" else 1,b,"?" in w)); sink=b
            elif d in("start","end_fn","looptop","loopstart","loopend","loopafter","loopbefore"):
                b=[]; fn.hints.append((d,w[1] if len(w)>1 else None,1,b,False)); sink=b
            elif d=="subst":
                fn.substs.append((w[1],w[2])); sink=None
            elif d=="note": sink=None
            else: raise WeaveError(f"{path}:{ln}: unknown directive @{d}")
        elif sink is not None:
            sink.append(xml_words(line))
    return m

_mods=None
def all_modules():
    global _mods
    if _mods is None:
        _mods={}
        for p in sorted(glob.glob(CON+"/*.vspec")):
            m=parse_vspec(p); _mods[m["name"]]=m
    return _mods

def closure(names):
    ms=all_modules(); out=[]
    def go(n):
        if n in out: return
        for u in ms[n]["use"]: go(u)
        out.append(n)
    for n in names: go(n)
    return out

# ------------------------------------------------------------------ source access
_src={}
def source(f):
    if f not in _src:
        t=rsl.lex(open(SRC+f).read()); _src[f]=rsl.items(t)
    return _src[f]

def T(s,pre=" ",k=None):
    """tokenise a snippet"""
    ts=rsl.lex(s)
    if ts: ts[0].pre=pre
    return ts

RAW=lambda s,pre="\n": Tok("raw",s,0,0,pre,0)

def seq_find(toks,pat,start=0,nth=1):
    p=[x.t for x in rsl.lex(pat)]
    n=len(p)
    for i in range(start,len(toks)-n+1):
        if all(toks[i+j].t==p[j] and toks[i+j].k!="raw" for j in range(n)):
            nth-=1
            if nth==0: return i,i+n
    return None

def postfix_start(toks,i):
    """toks[i] is the token after a postfix expression: index of its first token"""
    j=i-1
    while True:
        t=toks[j]
        if t.t in(")","]"):
            d=0
            while True:
                if toks[j].k=="p" and toks[j].t in rsl.CLOSE: d+=1
                elif toks[j].k=="p" and toks[j].t in rsl.OPEN:
                    d-=1
                    if d==0: break
                j-=1
            # call or index or parenthesised
            if j>0 and (toks[j-1].k=="id" and toks[j-1].t not in("in","return","if","while","match","=") or toks[j-1].t in(")","]")):
                j-=1; continue
            return j
        if t.k in("id","num"):
            if j>0 and toks[j-1].t in(".","::"):
                j-=2; continue
            return j
        return j+1

# ------------------------------------------------------------------ body transforms
def drop_attrs(toks):
    out=[];i=0
    while i<len(toks):
        if toks[i].t=="#" and i+1<len(toks) and toks[i+1].t=="[":
            e=rsl.match(toks,i+1); a="".join(x.t for x in toks[i:e+1]); i=e+1
            if a.startswith('#[cfg(feature="log")]'):
                # drop the statement
                d=0
                while True:
                    t=toks[i]
                    if t.t in rsl.OPEN and t.k=="p":
                        c=rsl.match(toks,i)
                        blk=toks[i].t=="{"
                        i=c+1
                        if blk and (i>=len(toks) or toks[i].t not in(";",".","else")): break
                        continue
                    i+=1
                    if t.t==";": break
            continue
        out.append(toks[i]); i+=1
    return out

def macro_args(toks,i):
    """toks[i]='(' ...: list of token lists split at top-level commas, index after ')'"""
    e=rsl.match(toks,i); args=[];cur=[];d=0
    for t in toks[i+1:e]:
        if t.k=="p" and t.t in rsl.OPEN: d+=1
        elif t.k=="p" and t.t in rsl.CLOSE: d-=1
        if t.t=="," and d==0: args.append(cur);cur=[]
        else: cur.append(t)
    if cur: args.append(cur)
    return args,e+1

def parse_fmt(s):
    """format string literal token text -> list of ('lit',str-literal-body)|('arg',spec-or-name)"""
    body=s[1:-1] if s.startswith('"') else None
    if body is None: return None
    parts=[];cur="";i=0
    while i<len(body):
        c=body[i]
        if c=="\\":
            if body[i+1]=="\n":
                i+=2
                while i<len(body) and body[i].isspace(): i+=1
                continue
            cur+=body[i:i+2]; i+=2; continue
        if c=="{" :
            if body[i+1]=="{": cur+="{";i+=2;continue
            j=body.index("}",i); parts.append(("lit",cur));cur=""; parts.append(("arg",body[i+1:j])); i=j+1; continue
        if c=="}" and body[i+1:i+2]=="}": cur+="}";i+=2;continue
        cur+=c;i+=1
    parts.append(("lit",cur))
    return parts

def macros(toks,fl):
    out=[];i=0
    while i<len(toks):
        t=toks[i]
        if t.k=="id" and i+2<len(toks) and toks[i+1].t=="!" and toks[i+2].t in("(","["):
            nm=t.t
            if nm in("assert","assert_eq","assert_ne","panic","unreachable","todo","unimplemented","debug_assert","format","println","print","log","vec","matches","write","writeln"):
                args,j=macro_args(toks,i+2)
                args=[macros(a,fl) for a in args]
                if nm in("assert","debug_assert"):
                    out+=T("vx_assert(",t.pre)+args[0]+T(")",""); i=j; continue
                if nm in("assert_eq","assert_ne"):
                    op="==" if nm=="assert_eq" else "!="
                    out+=T("vx_assert(",t.pre)+args[0]+T(op)+args[1]+T(")",""); i=j; continue
                if nm in("panic","unreachable","todo","unimplemented"):
                    out+=T("vx_panic()",t.pre); i=j; continue
                if nm in("println","print"):
                    out+=T("()",t.pre); i=j; continue
                if nm in("write","writeln"):
                    if "world" not in fl: raise WeaveError("write!")
                    out+=T("(",t.pre)+args[0]+T(").vx_write_str(Tracked(&mut *vx_fs), (","")+macros(T("format!(","")+sum([a+T(",","") for a in args[1:]],[])+T(")",""),fl)+T(").as_str()"+(", true" if nm=="writeln" else ", false")+")",""); i=j; continue
                if nm=="format":
                    args=[a for a in args if a]
                    pf=parse_fmt(args[0][0].t)
                    if pf is None: raise WeaveError("format string")
                    rest=args[1:]; k=0
                    out+=T("{ let mut vx_f = String::new();",t.pre)
                    for kind,x in pf:
                        if kind=="lit":
                            if x: out+=[Tok("raw",'vx_f.push_str("'+x+'");',0,0," ",0)]
                        else:
                            name,_,spec=x.partition(":")
                            if name: a=T(name,"")
                            else: a=rest[k]; k+=1
                            fnn="vx_disp" if not spec else "vx_disp_"+re.sub(r"\W","_",spec)
                            out+=T("vx_f.push_str("+fnn+"(&(")+a+T(")).as_str());","")
                    out+=T("vx_f }"); i=j; continue
        out.append(t); i+=1
    return out

def closures(toks):
    """.position/.any/.all with an expression closure -> vx_position(&X, |p| -> (vx_b: bool) ensures vx_b == (E) { E })"""
    ch=True
    while ch:
        ch=False
        for i,t in enumerate(toks):
            if t.k=="id" and t.t in("position","any","all") and toks[i-1].t=="." and i+2<len(toks) and toks[i+1].t=="(" and toks[i+2].t=="|":
                if not(toks[i-2].t==")" and toks[i-3].t=="(" and toks[i-4].t=="iter" and toks[i-5].t=="."): continue
                b=postfix_start(toks,i-5)
                e=rsl.match(toks,i+1)
                q=i+3
                while toks[q].t!="|": q+=1
                pat=toks[i+3:q]; body=toks[q+1:e]
                ptxt="".join(x.t for x in pat)
                amp=ptxt.startswith("&")
                name=ptxt.lstrip("&")
                pre=toks[b].pre
                bt="".join(x.pre+x.t for x in body).strip()
                if amp:
                    blk=f"let {name} = *vx_x; {bt}"; ens=re.sub(r"\b%s\b"%re.escape(name),"(*vx_x)",bt); par="vx_x"
                else: blk=bt; ens=bt; par=name
                new=T(f"vx_{t.t}(&",pre)+[Tok(x.k,x.t,x.s,x.e,"" if n==0 else x.pre,x.line) for n,x in enumerate(toks[b:i-5])]+\
                    T(f", |{par}: &_| -> (vx_b: bool) ensures vx_b == ({ens}) {{ {blk} }})","")
                toks=toks[:b]+new+toks[e+1:]; ch=True; break
    return toks

def range_find(toks):
    """(A..B).find(|&i| E) -> vx_find(A, B, |i: usize| -> (vx_b: bool) ensures vx_b == (E) { E })"""
    ch=True
    while ch:
        ch=False
        for i,t in enumerate(toks):
            if t.k=="id" and t.t in("find","position","any","all") and toks[i-1].t=="." and toks[i-2].t==")" and toks[i+1].t=="(" and toks[i+2].t=="|":
                a=i-2;d=0
                while True:
                    if toks[a].t==")": d+=1
                    elif toks[a].t=="(":
                        d-=1
                        if d==0: break
                    a-=1
                if a>0 and (toks[a-1].k=="id" and toks[a-1].t not in("return","in","if","while","match") or toks[a-1].t in(">",)): continue
                q=[k for k in range(a,i-2) if toks[k].t==".."]
                if len(q)!=1: continue
                A=rsl.text(toks[a+1:q[0]]).strip(); B=rsl.text(toks[q[0]+1:i-2]).strip()
                e=rsl.match(toks,i+1); z=i+3
                while toks[z].t!="|": z+=1
                name="".join(x.t for x in toks[i+3:z]).lstrip("&"); bt=rsl.text(toks[z+1:e]).strip()
                ens=re.sub(r"\b%s\b"%re.escape(name),"(%s as int)"%name,bt)
                fn={"find":"vx_find","position":"vx_find_pos","any":"vx_range_any","all":"vx_range_all"}[t.t]
                toks=toks[:a]+T(f"{fn}({A}, {B}, |{name}: usize| -> (vx_b: bool) requires {A} <= {name} < {B} ensures vx_b == ({ens}) {{ {bt} }})",toks[a].pre)+toks[e+1:]; ch=True; break
    return toks

def infinities(toks,bounds):
    """f64::INFINITY, f64::NEG_INFINITY -> a number beyond every number the function compares it with"""
    for w,r in (("f64 :: INFINITY","vx_inf"),("f64 :: NEG_INFINITY","vx_neg_inf")):
        i=0
        while True:
            f=seq_find(toks,w,i)
            if not f: break
            toks=toks[:f[0]]+T(f"{r}(Ghost({bounds}))",toks[f[0]].pre)+toks[f[1]:]; i=f[0]+1
    return toks

def copied_iters(toks):
    """x.iter().copied() -> x.vx_iter_copied()"""
    i=0
    while True:
        f=seq_find(toks,". iter ( ) . copied ( )",i)
        if not f: return toks
        toks=toks[:f[0]]+T(".vx_iter_copied()",toks[f[0]].pre)+toks[f[1]:]; i=f[0]+1

def contains_calls(toks):
    """X.contains(&E) -> vx_contains(&X, &E) (slices of types with structural equality)"""
    ch=True;start=0
    while ch:
        ch=False
        for i in range(start,len(toks)):
            t=toks[i]
            if t.k=="id" and t.t=="contains" and toks[i-1].t=="." and toks[i+1].t=="(" and toks[i+2].t=="&":
                b=postfix_start(toks,i-1); e=rsl.match(toks,i+1)
                rec=toks[b:i-1]; pre=rec[0].pre
                rec=[Tok(x.k,x.t,x.s,x.e,"" if n==0 else x.pre,x.line) for n,x in enumerate(rec)]
                toks=toks[:b]+T("vx_contains(&",pre)+rec+T(",","")+toks[i+2:e]+T(")","")+toks[e+1:]
                ch=True; start=b+1; break
    return toks

def string_calls(toks):
    """x.to_string() -> x.vx_str() (str and String only), String::from(x) -> vx_string_from(x)"""
    out=list(toks)
    for i in range(1,len(out)-2):
        if out[i].k=="id" and out[i].t=="to_string" and out[i-1].t=="." and out[i+1].t=="(" and out[i+2].t==")": out[i]=Tok("id","vx_str",0,0,out[i].pre,out[i].line)
    i=0
    while True:
        f=seq_find(out,"String :: from (",i)
        if not f: return out
        out=out[:f[0]]+T("vx_string_from(",out[f[0]].pre)+out[f[1]:]; i=f[0]+1

def full_slices(toks):
    """&x[..] -> x.vx_full()"""
    out=list(toks); i=0
    while i+2<len(out):
        if out[i].t=="[" and out[i+1].t==".." and out[i+2].t=="]":
            b=postfix_start(out,i)
            if out[b-1].t=="&":
                pre=out[b-1].pre; o=[Tok(x.k,x.t,x.s,x.e,pre if n==0 else x.pre,x.line) for n,x in enumerate(out[b:i])]
                out=out[:b-1]+o+T(".vx_full()","")+out[i+3:]
        i+=1
    return out

def lines_max(toks):
    """X.lines().map(|p| E).max() -> a loop over the lines that keeps the largest value (the definition of max)"""
    while True:
        f=seq_find(toks,". lines ( ) . map ( |")
        if not f: return toks
        m=f[1]-2; e=rsl.match(toks,m)
        g=seq_find(toks[e+1:e+5],". max ( )")
        if not g or g[0]!=0: return toks
        b=postfix_start(toks,f[0]); q=f[1]
        while toks[q].t!="|": q+=1
        pat="".join(x.t for x in toks[f[1]:q]); bt=rsl.text(toks[q+1:e]).strip(); x=rsl.text(toks[b:f[0]]).strip()
        toks=toks[:b]+T(f"{{ let mut vx_m: Option<usize> = None; for {pat} in {x}.lines() {{ let vx_v: usize = {bt}; vx_m = match vx_m {{ None => Some(vx_v), Some(vx_o) => if vx_v >= vx_o {{ Some(vx_v) }} else {{ Some(vx_o) }} }}; }} vx_m }}",toks[b].pre)+toks[e+5:]

STRAUTO={"trim","trim_start","trim_end","starts_with","ends_with","strip_prefix","strip_suffix","to_lowercase","to_uppercase","to_ascii_lowercase","to_ascii_uppercase","eq_ignore_ascii_case"}
def str_auto(toks):
    """methods that only a text has"""
    return [Tok("id","vx_"+t.t,0,0,t.pre,t.line) if t.k=="id" and t.t in STRAUTO and 0<i<len(toks)-1 and toks[i-1].t=="." and toks[i+1].t=="(" else t for i,t in enumerate(toks)]
STRM={"trim_start_matches","trim","starts_with","find","rfind","lines","split","replace"}
def str_ops(toks,blen=False):
    """text methods without a contract in vstd: x.find(..) -> x.vx_find(..), &x[a..b] -> x.vx_slice(a, b)"""
    out=lines_max(list(toks))
    for w,r in ((". chars ( ) . count (",".vx_count_chars("),(". parse :: < usize > (",".vx_parse_usize("),(". parse :: < u32 > (",".vx_parse_u32("),("u32 :: from_str_radix (","vx_u32_from_str_radix(")):
        i=0
        while True:
            f=seq_find(out,w,i)
            if not f: break
            out=out[:f[0]]+T(r,out[f[0]].pre)+out[f[1]:]; i=f[0]+1
    if blen:
        for i in range(1,len(out)-1):
            if out[i].k=="id" and out[i].t=="len" and out[i-1].t=="." and out[i+1].t=="(": out[i]=Tok("id","vx_len",0,0,"",out[i].line)
    for i in range(1,len(out)-1):
        if out[i].k=="id" and out[i].t in STRM and out[i-1].t=="." and out[i+1].t=="(": out[i]=Tok("id","vx_"+out[i].t,0,0,out[i].pre,out[i].line)
    i=0
    while i<len(out):
        if out[i].t=="[":
            e=rsl.match(out,i); d=0;q=None
            for k in range(i+1,e):
                if out[k].k=="p" and out[k].t in rsl.OPEN: d+=1
                elif out[k].k=="p" and out[k].t in rsl.CLOSE: d-=1
                elif d==0 and out[k].t in("..","..="): q=k
            if q is not None and i>0 and (out[i-1].k=="id" or out[i-1].t in(")","]")):
                b=postfix_start(out,i); amp=out[b-1].t=="&"
                A=out[i+1:q]; B=out[q+1:e]
                st=b-1 if amp else b
                rec=[Tok(x.k,x.t,x.s,x.e,out[st].pre if n==0 else x.pre,x.line) for n,x in enumerate(out[b:i])]
                if out[q].t=="..=": B=T("(")+B+T(") + 1")
                if A and B: c=T(".vx_slice(","")+A+T(",","")+B+T(")","")
                elif A: c=T(".vx_from(","")+A+T(")","")
                elif B: c=T(".vx_slice(0,","")+B+T(")","")
                else: c=T(".vx_full()","")
                out=out[:st]+([] if amp or out[e+1].t=="." else T("*",out[st].pre))+rec+c+out[e+1:]
        i+=1
    return out

WORLD=["File :: create (","std :: fs :: File :: create (","fs :: write (","std :: fs :: write (","File :: open ("]
WORLDM=["write_all","flush","sync_all","sync_data"]
def world_ops(toks):
    """operations on files get the state of the file system as an extra (ghost) argument"""
    out=list(toks)
    for w in sorted(WORLD,key=len,reverse=True):
        i=0
        while True:
            f=seq_find(out,w,i)
            if not f: break
            nm="vx_fs_"+"_".join(x.t for x in rsl.lex(w)[:-1] if x.k=="id" and x.t!="std" and x.t!="fs").lower()
            out=out[:f[0]]+T(nm+"(Tracked(&mut *vx_fs),",out[f[0]].pre)+out[f[1]:]; i=f[0]+2
    for i in range(1,len(out)-1):
        if out[i].k=="id" and out[i].t=="as_bytes" and out[i-1].t=="." and out[i+1].t=="(": out[i]=Tok("id","vx_bytes",0,0,"",out[i].line)
        if out[i].k=="id" and out[i].t in WORLDM and out[i-1].t=="." and out[i+1].t=="(":
            out[i]=Tok("id","vx_"+out[i].t,0,0,"",out[i].line); c=", " if out[i+2].t!=")" else ""
            out[i+1]=Tok("raw","(Tracked(&mut *vx_fs)"+c,0,0,"",0)
    return out

def clone_calls(toks):
    """x.clone() -> x.vx_clone()"""
    out=list(toks)
    for i in range(1,len(out)-2):
        if out[i].k=="id" and out[i].t=="clone" and out[i-1].t=="." and out[i+1].t=="(" and out[i+2].t==")": out[i]=Tok("id","vx_clone",0,0,out[i].pre,out[i].line)
    return out

def bool_ops(toks):
    """a |= e; -> a = vx_bor(a, e);   a &= e; -> a = vx_band(a, e);"""
    out=list(toks); i=0
    while i<len(out):
        if out[i].k=="p" and out[i].t in("|=","&="):
            b=postfix_start(out,i)
            if out[b-1].t=="*" and out[b-2].t in(";","{","}"): b-=1
            lhs=out[b:i]
            e=i+1;d=0
            while not(out[e].t==";" and d==0) and not (d==0 and out[e].t=="}"):
                if out[e].k=="p" and out[e].t in rsl.OPEN: d+=1
                if out[e].k=="p" and out[e].t in rsl.CLOSE: d-=1
                e+=1
            f="vx_bor" if out[i].t=="|=" else "vx_band"
            cp=[Tok(x.k,x.t,x.s,x.e,x.pre if n else " ",x.line) for n,x in enumerate(lhs)]
            out=out[:i]+T(f"= {f}(")+cp+T(",","")+out[i+1:e]+T(")","")+out[e:]
        i+=1
    return out

def float_lit(s):
    """1.5 -> vx_c(15, 10)"""
    m=re.fullmatch(r"([0-9][0-9_]*)(?:\.([0-9_]*))?(?:_?f64)?",s)
    if not m: return None
    a=m.group(1).replace("_",""); b=(m.group(2) or "").replace("_","").rstrip("0")
    if "." not in s and "f64" not in s: return None
    n=int(a+b); d=10**len(b)
    return f"vx_c({n}, {d})" if n<2**53 and d<2**53 else None
def float_ops(toks):
    """a += e; -> a = a + (e);  unary minus -> vx_neg(..), float literals -> vx_c(n, d), for floating point functions"""
    out=[]
    for t in toks:
        l=float_lit(t.t) if t.k not in("str","id","p") else None
        out+=T(l,t.pre) if l else [t]
    i=0
    while i<len(out):
        if out[i].k=="p" and out[i].t in("+=","-=","*=","/="):
            b=postfix_start(out,i)
            if out[b-1].t=="*" and out[b-2].t in(";","{","}"): b-=1
            lhs=out[b:i]
            e=i+1;d=0
            while not(out[e].t==";" and d==0) and not (d==0 and out[e].t=="}"):
                if out[e].k=="p" and out[e].t in rsl.OPEN: d+=1
                if out[e].k=="p" and out[e].t in rsl.CLOSE: d-=1
                e+=1
            op=out[i].t[0]
            cp=[Tok(x.k,x.t,x.s,x.e,x.pre if n else " ",x.line) for n,x in enumerate(lhs)]
            out=out[:i]+T("=")+cp+T(op+" (")+out[i+1:e]+T(")","")+out[e:]
        i+=1
    i=0
    while i<len(out):
        if out[i].t=="-" and out[i].k=="p" and (i==0 or out[i-1].k=="p" and out[i-1].t not in(")","]","}") or out[i-1].t in("return","if","else","in")):
            j=i+1
            # operand: postfix expression
            if out[j].t=="(": e=rsl.match(out,j)+1
            else: e=j+1
            while e<len(out) and (out[e].t in(".","::") or out[e].t in("(","[")):
                if out[e].t in("(","["): e=rsl.match(out,e)+1
                else: e+=2
            out=out[:i]+T("vx_neg(",out[i].pre)+out[j:e]+T(")","")+out[e:]
        i+=1
    return out

def f64_casts(toks):
    out=list(toks);i=0
    while i<len(out)-1:
        if out[i].t=="as" and out[i+1].t=="f64":
            b=postfix_start(out,i)
            out=out[:b]+T("vx_f64(",out[b].pre)+[Tok(x.k,x.t,x.s,x.e,"" if n==0 else x.pre,x.line) for n,x in enumerate(out[b:i])]+T(")","")+out[i+2:]
        i+=1
    return out

# ------------------------------------------------------------------ loops
def loop_positions(toks):
    """indices of the loop keywords of the body in source order (closures and nested fns included)"""
    r=[]
    for i,t in enumerate(toks):
        if t.k=="id" and t.t in("while","loop","for") and not (t.t=="for" and toks[i+1].t=="<"):
            r.append(i)
    return r

def body_brace(toks,i):
    j=i+1
    while True:
        t=toks[j]
        if t.k=="p" and t.t in("(","["): j=rsl.match(toks,j)
        elif t.t=="{": return j
        elif t.t=="match": # match in a loop header
            raise WeaveError("match in loop header")
        j+=1

def do_loops(toks,spec,info):
    """insert loop contracts; desugar for loops. Works from the last loop to the first so that ordinals stay valid."""
    pos=loop_positions(toks)
    info["nloops"]=len(pos)
    want=max(spec.loops) if spec.loops else 0
    if len(pos)<want: info["lost"].append(f"loop {want}")
    for n in range(len(pos),0,-1):
        i=pos[n-1]; kw=toks[i].t
        L=spec.loops.get(n,{"opts":{},"spec":[],"flags":[]})
        if n not in spec.loops and "loose" not in spec.opts: info["lost"].append(f"contract for loop {n}")
        o=L["opts"]; b=body_brace(toks,i); e=rsl.match(toks,b)
        inv="\n".join(L["spec"]); hs=[h for h in spec.hints if h[0].startswith("loop") and h[1]==str(n)]
        def hint(k):
            r=[]
            for h in hs:
                if h[0]==k: r.append(RAW("\n".join(h[3])))
            return r
        label=[];ls=i
        if i>=2 and toks[i-1].t==":" and toks[i-2].k=="life": label=toks[i-2:i]; ls=i-2
        if kw=="while" or kw=="loop":
            if o.get("kind") not in(None,"while","loop","whilelet"): info["lost"].append(f"loop {n} kind")
            toks=toks[:ls]+hint("loopbefore")+toks[ls:b]+[RAW(inv)]+toks[b:b+1]+hint("loopstart")+toks[b+1:e]+hint("loopend")+toks[e:e+1]+hint("loopafter")+toks[e+1:]
            continue
        # for PAT in EXPR {
        d=0;j=i+1
        while not (toks[j].t=="in" and d==0):
            if toks[j].k=="p" and toks[j].t in rsl.OPEN: d+=1
            if toks[j].k=="p" and toks[j].t in rsl.CLOSE: d-=1
            j+=1
        pat=toks[i+1:j]; ex=toks[j+1:b]; body=toks[b+1:e]
        txt=[x.t for x in ex]; kind=o.get("kind"); I=f"vx_i{n}"; E=f"vx_e{n}"; S=f"vx_s{n}"
        def clean(ts): return "".join(x.pre+x.t for x in ts).strip()
        P=clean(pat)
        d=0;rng=None
        for q,x in enumerate(ex):
            if x.k=="p" and x.t in rsl.OPEN: d+=1
            elif x.k=="p" and x.t in rsl.CLOSE: d-=1
            elif d==0 and x.t in("..","..="): rng=q
        auto=f"invariant {I} <= {E}," if "noauto" not in L["flags"] else ""
        has_dec=any("decreases" in s for s in L["spec"])
        # the given invariant clause list is merged with the automatic one
        sp="\n".join(L["spec"])
        def merge(auto,dec):
            body=sp
            if auto:
                if re.search(r"\binvariant\b",body): body=re.sub(r"\binvariant\b",auto,body,count=1)
                else: body=auto+"\n"+body
            if not has_dec: body=body.rstrip().rstrip(",")+",\n decreases "+dec+"," if body.strip() else "decreases "+dec+","
            return body
        if kind=="native":
            toks=toks[:ls]+hint("loopbefore")+toks[ls:j+1]+(T(o["name"]+":") if "name" in o else [])+ex+[RAW(sp)]+toks[b:b+1]+hint("loopstart")+body+hint("loopend")+toks[e:e+1]+hint("loopafter")+toks[e+1:]
            continue
        if kind=="iter":
            if "map" not in L["flags"]: pass
            elif txt[-4:]==[".","iter","(",")"]: ex=ex[:-4]+T(".vx_iter_map()","")
            elif txt[0]=="&" and txt[1]!="mut": ex=T("(")+ex+T(").vx_iter_map()","")
            head=f"{{ let mut vx_it{n} = {clean(ex)};"
            loop=f" while let Some({P}) = vx_it{n}.next()"
            pre=""
            inv=sp
        elif rng is not None:
            A=clean(ex[:rng]);B=clean(ex[rng+1:])
            if txt[rng]=="..=": B=f"({B}) + 1"
            ty=f": {o['type']}" if "type" in o else ""
            head=f"{{ let mut {I}{ty} = {A}; let {E}{ty} = {B};"
            loop=f" while {I} < {E}"
            pre=f" let {P} = {I}; {I} = {I} + 1;"
            inv=merge(auto,f"{E} - {I}")
        elif txt[-4:]==[".","rev","(",")"] and txt[0]=="(" and ".." in txt:
            inner=ex[1:-5]; 
            q=[k for k,x in enumerate(inner) if x.t==".."][0]
            A=clean(inner[:q]);B=clean(inner[q+1:])
            head=f"{{ let {E} = {A}; let mut {I} = {B};"
            loop=f" while {I} > {E}"
            pre=f" {I} = {I} - 1; let {P} = {I};"
            inv=merge(f"invariant {E} <= {I}," if "noauto" not in L["flags"] else "",f"{I} - {E}")
        elif kind=="vecown":
            # the vector is consumed front to back
            G=f"vx_a{n}"
            head=f"{{ let mut {S} = {clean(ex)}; let ghost {G} = {S}@; let mut {I}: usize = 0; let {E}: usize = {S}.len();"
            loop=f" while {I} < {E}"
            pre=f" let {P} = {S}.remove(0); {I} = {I} + 1;"
            inv=merge(auto and auto+f" {E} == {G}.len(), {S}@ =~= {G}.skip({I} as int),",f"{E} - {I}")
        elif txt[-4:]==[".","iter_mut","(",")"]:
            V=clean(ex[:-4])
            head=f"{{ let mut {I}: usize = 0; let {E}: usize = {V}.len();"
            loop=f" while {I} < {E}"
            pre=f" let {P} = &mut {V}[{I}]; {I} = {I} + 1;"
            inv=merge(auto and auto+f" {E} == {V}.len(),",f"{E} - {I}")
        else:
            en=False;rev=False;skip=None
            if txt[-1]==")":
                d=0;q=len(ex)-1
                while True:
                    if ex[q].t==")" and ex[q].k=="p": d+=1
                    elif ex[q].t=="(" and ex[q].k=="p":
                        d-=1
                        if d==0: break
                    q-=1
                if q>=2 and txt[q-1]=="skip" and txt[q-2]==".": skip=clean(ex[q+1:-1]); ex=ex[:q-2]; txt=txt[:q-2]
            if txt[-4:]==[".","enumerate","(",")"]: en=True; ex=ex[:-4]; txt=txt[:-4]
            if txt[-4:]==[".","rev","(",")"]: rev=True; ex=ex[:-4]; txt=txt[:-4]
            mut=False
            if txt[-4:]==[".","iter","(",")"]: ex=ex[:-4]; src="&"+clean(ex) if kind!="ref" else clean(ex); byref=True
            elif txt[0]=="&" and txt[1]=="mut": src=clean(ex); byref=True; mut=True
            elif txt[0]=="&": src=clean(ex); byref=True
            elif kind=="vecval": src=clean(ex); byref=False
            elif kind=="vecmut": src=clean(ex); byref=True; mut=True
            else: src=clean(ex); byref=True
            if en:
                m=re.match(r"^\(\s*(.+?)\s*,\s*(.+?)\s*\)$",P,re.S); ip,P=m.group(1),m.group(2)
            head=f"{{ let {S} = {src};"
            amp="&mut " if mut else "&" if byref else ""
            inc=f"{I} = {I} + 1;"
            ix=I
            if rev:
                ix=f"{S}.len() - 1 - {I}"
            item=f" let {P} = {amp}{S}[{ix}];"
            if P.startswith("&") and amp=="&": item=f" let {P[1:].strip()} = {S}[{ix}];"
            if en: item=f" let {ip} = {I};"+item
            head+=f" let {E}: usize = {S}.len(); let mut {I}: usize = 0;" if skip is None else f" let {E}: usize = {S}.len(); let mut {I}: usize = cmp::min({skip}, {E});"
            loop=f" while {I} < {E}"
            pre=item+" "+inc
            # the place iterated over is borrowed while the loop runs
            place=re.sub(r"^&\s*","",src)
            same=f" {S}@ == {place}@," if byref and not mut and re.match(r"^[a-z_]\w*(\s*\.\s*[a-z_]\w*)*$",place) else ""
            inv=merge((auto and auto+f" {E} == {S}.len(),"+same) ,f"{E} - {I}")
        toks=toks[:ls]+T(head,toks[ls].pre)+hint("loopbefore")+(T(" #[verifier::loop_isolation(true)]") if "isolated" in L["flags"] else [])+label+T(loop)+[RAW(inv)]+T("{")+hint("looptop")+T(pre)+hint("loopstart")+body+hint("loopend")+T("}")+hint("loopafter")+T("}")+toks[e+1:]
    return toks

# ------------------------------------------------------------------ functions
def arm_guard(body):
    """does the body have a match arm with a guard (`pattern if condition =>`)?"""
    ts=real(body)
    for q,x in enumerate(ts):
        if q and x.t=="if" and (ts[q-1].t in(")","]","}") or ts[q-1].k in("id","num","str","char","lit")) and ts[q-1].t not in("else","return","in","match","break","move"):
            d=0
            for y in ts[q+1:]:
                if y.t in("(","[","{"): d+=1
                elif y.t in(")","]","}"):
                    d-=1
                    if d<0: break
                elif d==0 and y.t=="=>": return True
                elif d==0 and y.t in(",",";"): break
    return False

def weave_fn(spec,degrade=False,vacuity=False):
    info={"lost":[],"path":spec.path,"file":spec.file}
    src=source(spec.file)
    found=rsl.find_fn(src,spec.path)
    if len(found)!=1: raise WeaveError(f"{spec.file}: {spec.path}: {len(found)} matches")
    it=found[0]; toks=it.toks
    info["line"]=toks[0].line
    # split signature / body
    j=0
    while toks[j].t!="fn": j+=1
    k=j
    while toks[k].t!="{":
        if toks[k].t in("(","["): k=rsl.match(toks,k)
        k+=1
    sig=[Tok(x.k,x.t,x.s,x.e,x.pre,x.line) for x in toks[j:k]]; body=[Tok(x.k,x.t,x.s,x.e,x.pre,x.line) for x in toks[k:]]
    info["repo_text"]=rsl.text(toks)
    sig[0].pre=""
    hdr="\n".join(spec.header)
    ret=None
    m=re.match(r"\s*ret\s+(\w+)",hdr)
    if m: ret=m.group(1); hdr=hdr[m.end():]
    # return type
    arrow=None;d=0
    for q,x in enumerate(sig):
        if x.k=="p" and x.t in("(","["): d+=1
        elif x.k=="p" and x.t in(")","]"): d-=1
        elif x.t=="->" and d==0: arrow=q
    if ret and arrow is not None:
        w=[q for q,x in enumerate(sig) if x.t=="where" and q>arrow]
        e=w[0] if w else len(sig)
        rt="".join(x.pre+x.t for x in sig[arrow+1:e]).strip()
        sig=sig[:arrow]+T(f"-> ({ret}: {rt})")+sig[e:]
    if "item" in spec.opts:
        while True:
            f=seq_find(sig,"Self::Item")
            if not f:
                f2=[q for q,x in enumerate(sig) if "Self::Item" in x.t]
                for q in f2: sig[q]=RAW(sig[q].t.replace("Self::Item",spec.opts["item"]),sig[q].pre)
                break
            sig=sig[:f[0]]+T(spec.opts["item"],sig[f[0]].pre)+sig[f[1]:]
    sig=dyn_params(sig)
    for a,b in reversed(rsl.nested(body)): body=body[:a]+body[b:]
    sigt=rsl.text(real(sig))
    # the verifier loses what a match guard reads through a mutable reference: a failure there decides nothing
    if any(x.t in("&","&&") and q+1<len(sig) and any(y.t=="mut" for y in sig[q+1:q+3]) for q,x in enumerate(sig)) and arm_guard(body):
        info["lost"].append("match guard")
    if not degrade and "assumed" not in spec.opts:
        body=drop_attrs(body)
        body=macros(body,spec.opts)
        body=range_find(copied_iters(closures(body)))
        if "float" in spec.opts: body=infinities(body,spec.opts.get("inf","0real"))
        if "strcontains" not in spec.opts: body=contains_calls(body)
        body=bool_ops(body)
        body=full_slices(string_calls(body))
        if "vxclone" in spec.opts: body=clone_calls(body)
        if "strmap" in spec.opts: body=[Tok(x.k,"vx_get_mut",0,0,x.pre,x.line) if x.k=="id" and x.t=="get_mut" else x for x in body]
        if "world" in spec.opts: body=world_ops(body)
        if "autotext" in spec.opts: body=str_auto(body)
        if "text" in spec.opts: body=str_ops(body,"blen" in spec.opts)
        if "float" in spec.opts: body=f64_casts(float_ops(body))
        for a,b in spec.substs:
            f=seq_find(body,a)
            if not f:
                info["lost"].append(f"subst {a}"); continue
            while f:
                body=body[:f[0]]+T(b,body[f[0]].pre)+body[f[1]:]
                f=seq_find(body,a,f[0]+len(rsl.lex(b)))
        # statement hints (token anchors), inserted before the loops are rewritten
        for kind,arg,nth,blk,opt in spec.hints:
            if kind in("before","after"):
                f=seq_find(body,arg,0,nth)
                if not f:
                    if not opt: info["lost"].append(f"anchor {arg!r}")
                    continue
                if kind=="before": p=f[0]
                else:
                    p=f[1];d=0
                    last=body[f[1]-1]
                    if last.t=="{": pass
                    elif last.t in(";","}"): pass
                    else:
                        while True:
                            t=body[p]
                            if t.k=="p" and t.t in rsl.OPEN: p=rsl.match(body,p)
                            elif t.t==";" : p+=1; break
                            elif t.k=="p" and t.t in rsl.CLOSE: break
                            p+=1
                body=body[:p]+[RAW("\n".join(blk))]+body[p:]
        body=do_loops(body,spec,info)
        st=[RAW("\n".join(h[3])) for h in spec.hints if h[0]=="start"]
        en=[RAW("\n".join(h[3])) for h in spec.hints if h[0]=="end_fn"]
        if vacuity: st=[RAW("proof { assert(false); }")]+st
        if en:
            t=tail_start(body)
            if t is not None and "".join(x.t for x in body[t:-1] if x.k!="raw"):
                body=body[:t]+T("let vx_r =","\n")+body[t:-1]+T(";","")+en+T("vx_r","\n")+body[-1:]
            else: body=body[:-1]+en+body[-1:]
        body=body[:1]+st+body[1:]
    attrs=""
    for o in("rlimit","spinoff_prover","loop_isolation","exec_allows_no_decreases_clause","nonlinear"):
        if o in spec.opts:
            if o=="rlimit": attrs+=f"#[verifier::rlimit({spec.opts[o]})]\n"
            elif o=="loop_isolation": pass
            else: attrs+=f"#[verifier::{o}]\n"
    # what is known before a loop stays known in it, so that moving a computation out of a loop needs no invariant
    if any(x.t in("while","loop","for") for x in body) and "isolate" not in spec.opts and not degrade:
        attrs+="#[verifier::loop_isolation(false)]\n"
        if not any("isolated" in L["flags"] for L in spec.loops.values()): attrs+="#[verifier::allow_complex_invariants]\n"
    ext=degrade or "assumed" in spec.opts
    if ext: attrs+="#[verifier::external_body]\n"
    bt="{ unimplemented!() }"
    if not ext: bt=rsl.text(real(body))
    if "world" in spec.opts:
        k=rsl.lex(sigt); a=[q for q,x in enumerate(k) if x.t=="("][0]; b=rsl.match(k,a)
        sigt=rsl.text(k[:b])+(", " if b>a+1 and k[b-1].t!="," else "")+"Tracked(vx_fs): Tracked<&mut Fs>"+rsl.text(k[b:])
    out=f"{attrs}pub {sigt}\n{hdr}\n{bt}\n"
    return it,out,info

def dyn_params(sig):
    """fn f(x: &mut dyn T) -> fn f<VxD: T>(x: &mut VxD)"""
    ds=[]
    out=list(sig); i=0
    while i<len(out)-1:
        if out[i].t=="dyn" and out[i+1].k=="id":
            n="VxD" if not ds else f"VxD{len(ds)}"; ds.append(f"{n}: {out[i+1].t}")
            out=out[:i]+[Tok("id",n,0,0,out[i].pre,0)]+out[i+2:]
        i+=1
    if not ds: return out
    j=[k for k,t in enumerate(out) if t.t=="fn"][0]+2
    if out[j].t=="<":
        e=rsl.skip_generics(out,j)-1
        return out[:e]+T(", "+", ".join(ds),"")+out[e:]
    return out[:j]+T("<"+", ".join(ds)+">","")+out[j:]

def real(toks):
    """f64 becomes Fl, whose contracts read a float as the real number it stands for; a module named verifier would clash with the verifier's own attributes"""
    toks=[Tok(t.k,"vx_verifier",t.s,t.e,t.pre,t.line) if t.k=="id" and t.t=="verifier" and i>0 and toks[i-1].t!="[" and i+1<len(toks) and toks[i+1].t=="::" else t for i,t in enumerate(toks)]
    return [Tok(t.k,"Fl",t.s,t.e,t.pre,t.line) if t.k=="id" and t.t=="f64" else t for t in toks]

def tail_start(body):
    """index of the first token of the tail expression of a block, None if there is none"""
    i=1;e=len(body)-1
    start=1
    while i<e:
        t=body[i]
        if t.k=="raw": i+=1; start=i; continue
        # one statement or tail expression starts here
        start=i
        if t.k=="life": i+=2; t=body[i]
        blocklike=t.t in("for","while","loop","if","match","{","unsafe")
        if blocklike and t.t!="{":
            kw=t.t; j=i
            while True:
                j=block_of(body,j+1) if True else j
                c=rsl.match(body,j)
                if kw=="if" and c+1<e and body[c+1].t=="else":
                    if body[c+2].t=="{": c=rsl.match(body,c+2)
                    else: j=c+2; continue
                    if c+1<e and body[c+1].t=="else": j=c+1; continue
                break
            i=c+1
            while i<e and body[i].k=="raw" and kw in("for","while","loop"): i+=1
            if i>=e: return None if kw in("for","while") else start
            if body[i].t in(".","?"): pass
            else: continue
        elif t.t=="{":
            i=rsl.match(body,i)+1
            if i>=e: return start
            continue
        # ordinary: up to ;
        d=0
        while i<e:
            t=body[i]
            if t.k=="p" and t.t in rsl.OPEN: i=rsl.match(body,i)+1; continue
            if t.t==";": break
            i+=1
        if i>=e: return start
        i+=1
    return None

def block_of(toks,j):
    while toks[j].t!="{" or toks[j].k!="p":
        if toks[j].k=="p" and toks[j].t in("(","["): j=rsl.match(toks,j)
        j+=1
    return j

ALLOWED_DERIVES=["Copy","Clone","PartialEq","Eq"]

def weave_item(kind,name,file,opts):
    src=source(file)
    c=[i for i in src if i.kind==kind and i.name==name]
    if len(c)!=1: raise WeaveError(f"{file}: {kind} {name}: {len(c)} matches")
    it=c[0]; toks=[Tok(x.k,x.t,x.s,x.e,x.pre,x.line) for x in drop_attrs(it.toks)]
    der=[]
    if "derive" in opts: der=[x for x in opts["derive"].split(",") if x]
    else:
        for a in it.attrs:
            m=re.match(r"#\[derive\((.*)\)\]",a)
            if m: der=[x for x in m.group(1).split(",") if x in("Copy","Clone","PartialEq","Eq")]
        if "PartialEq" in der and "Eq" in der: der.append("Structural")
        elif "PartialEq" in der: der.remove("PartialEq")
        if "cloneeq" in opts or kind=="struct" and "Copy" not in der: der=[]
    while toks[0].t in("pub","("):
        if toks[0].t=="pub":
            toks=toks[1:]
        elif toks[0].t=="(": toks=toks[rsl.match(toks,0)+1:]
    if kind=="struct":
        i=[k for k,t in enumerate(toks) if t.t=="{"]
        if i:
            i=i[0]; e=rsl.match(toks,i); out=toks[:i+1]; start=True; d=0
            for t in toks[i+1:e]:
                if start and t.t not in("}",):
                    if t.t=="pub": start=False; out.append(t); continue
                    out.append(Tok("id","pub",0,0,t.pre,0)); t=Tok(t.k,t.t,t.s,t.e," ",t.line); start=False
                if t.k=="p" and t.t in("(","[","<","{"): d+=1
                if t.k=="p" and t.t in(")","]",">","}"): d-=1
                if t.t==">>": d-=2
                out.append(t)
                if t.t=="," and d==0: start=True
            toks=out+toks[e:]
    toks[0].pre=""
    if kind=="struct" and any(t.t=="dyn" for t in toks):
        k=[q for q,t in enumerate(toks) if t.t=="dyn"][0]; b="VxD: "+toks[k+1].t
        toks=toks[:k]+[Tok("id","VxD",0,0," ",0)]+toks[k+2:]
        if toks[2].t=="<":
            e=rsl.skip_generics(toks,2)-1; toks=toks[:e]+T(", "+b,"")+toks[e:]
        else: toks=toks[:2]+T("<"+b+">","")+toks[2:]
    if kind in("const","static") and any(x.t=="f64" for x in toks):
        e=[i for i,x in enumerate(toks) if x.t=="="][0]; l=float_lit(rsl.text(toks[e+1:-1]).strip())
        if not l: raise WeaveError(f"{file}: {name}: not a plain number")
        a,b=re.findall(r"\d+",l)
        return f"pub open spec fn vx_v_{name}() -> real {{ {a}real / {b}real }}\npub exec const {name}: Fl ensures rv({name}) == vx_v_{name}() {{ {l} }}\n"
    toks=real(toks)
    tx=rsl.text(toks)
    if kind in("const","static"): tx=re.sub(r"&(?=str|\[)","&'static ",tx)
    if kind=="static": tx=re.sub(r"^static","const",tx)
    pre=f"#[derive({','.join(der)})]\n" if der else ""
    if "cloneeq" in opts:
        # the source derives Clone (checked here): a clone is field by field equal
        if not any(re.match(r"#\[derive\(.*\bClone\b.*\)\]",a) for a in it.attrs): raise WeaveError(f"{file}: {name} does not derive Clone any more")
        tx+=f"\n// derived\nimpl Clone for {name} {{ #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self {{ unimplemented!() }} }}\nimpl VxClone for {name} {{ open spec fn same(self, o: Self) -> bool {{ self == o }} fn vx_clone(&self) -> (r: Self) {{ self.clone() }} }}"
    if "attr" in opts: pre=opts["attr"]+"\n"+pre
    return pre+"pub "+tx+"\n"

def module_texts(n):
    """the woven texts of a module, for the literals in them"""
    r=[]
    for part in all_modules()[n]["parts"]:
        try:
            if part[0]=="fn": r.append(weave_fn(part[1])[1])
            elif part[0]!="code" and part[0]!="literals": r.append(weave_item(*part))
        except Exception: pass
    return r

def weave(names,degraded=frozenset(),vacuity=False):
    """-> (text, fnmap: list of dict(module, path, lo, hi, info)), raises WeaveError only for structural problems"""
    ms=all_modules(); order=closure(names)
    out=["// generated by /verif/tools/weave.py from "+REPO+"; do not edit","#![allow(unused_imports,dead_code,unused_variables,unused_mut,unused_parens,non_snake_case,unused_braces,unused_assignments,unreachable_code,unused_labels)]","use vstd::prelude::*;","fn main(){}"]
    fns=[]
    def emit(s):
        lo=sum(x.count("\n")+1 for x in out)+1
        out.append(s)
        return lo,lo+s.count("\n")
    for n in order:
        m=ms[n]
        out.append(f"pub mod {n} {{ use vstd::prelude::*; use std::mem;")
        for u in order[:order.index(n)]:
            if u in closure([n]): out.append(f"use crate::{u}::*;")
        out.append("verus! {")
        for part in m["parts"]:
            if part[0]=="literals":
                lo,hi=emit(xml_literals(module_texts(part[1])))
                fns.append({"module":n,"path":"<spec>","lo":lo,"hi":hi,"info":None,"kind":"code"})
            elif part[0]=="code": 
                lo,hi=emit("\n".join(part[1]))
                fns.append({"module":n,"path":"<spec>","lo":lo,"hi":hi,"info":None,"kind":"code"})
            elif part[0]=="fn":
                sp=part[1]; key=n+"::"+sp.path
                if "text" in closure([n]): sp.opts["autotext"]=True
                rec={"module":n,"path":sp.path,"key":key,"info":None,"kind":"fn","error":None,"degraded":key in degraded,"spec":sp}
                try:
                    it,tx,info=weave_fn(sp,degrade=key in degraded,vacuity=vacuity and n in names)
                except (WeaveError,rsl.LexError,IndexError,AttributeError) as ex:
                    try:
                        it,tx,info=weave_fn(sp,degrade=True); rec["error"]=f"weave: {ex}"; rec["degraded"]=True
                    except Exception as ex2:
                        rec["error"]=f"weave: {ex2}"; rec["missing"]=True; rec["lo"]=rec["hi"]=-1; fns.append(rec); continue
                rec["info"]=info
                if it.impl:
                    hdr="".join(x.pre+x.t for x in it.impl[2]).strip()
                    if it.impl[1]: # trait impl -> inherent
                        g=it.impl[2]; txt=[x.t for x in g]; k=txt.index("for")
                        gen=""
                        if txt[1]=="<":
                            e=rsl.skip_generics(g,1); gen="".join(x.pre+x.t for x in g[1:e])
                        hdr="impl"+gen+" "+"".join(x.pre+x.t for x in g[k+1:]).strip()
                    if "impl" in sp.opts: hdr=sp.opts["impl"]
                    tx=hdr+" {\n"+tx+"}\n"
                lo,hi=emit(tx); rec["lo"]=lo; rec["hi"]=hi; fns.append(rec)
            else:
                kind,name,file,opts=part
                try: tx=weave_item(kind,name,file,opts)
                except (WeaveError,rsl.LexError) as ex: raise WeaveError(f"module {n}: {ex}")
                lo,hi=emit(tx); fns.append({"module":n,"path":name,"lo":lo,"hi":hi,"kind":"item","info":None})
        out.append("} // verus!"); out.append("}")
    return "\n".join(out)+"\n",fns

if __name__=="__main__":
    t,f=weave(sys.argv[1:])
    sys.stdout.write(t)
    for x in f:
        if x["kind"]=="fn" and (x["error"] or x["info"]["lost"]): print("//",x["key"],x["error"],x["info"] and x["info"]["lost"],file=sys.stderr)
