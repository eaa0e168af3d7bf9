"""A small Rust lexer and item finder, enough to cut functions out of /repo mechanically."""
import re

class Tok:
    __slots__=("k","t","s","e","pre","line")
    def __init__(self,k,t,s,e,pre,line): self.k=k;self.t=t;self.s=s;self.e=e;self.pre=pre;self.line=line
    def __repr__(self): return f"{self.k}:{self.t}"

PUNCT=["<<=",">>=","...","..=","->","=>","::","..","==","!=","<=",">=","&&","||","+=","-=","*=","/=","%=","|=","&=","^="]

class LexError(Exception): pass

def lex(src):
    toks=[];i=0;n=len(src);pre_start=0;line=1
    def count(a,b): return src.count("\n",a,b)
    cur=1;last=0
    while i<n:
        c=src[i]
        if c.isspace(): i+=1; continue
        if src.startswith("//",i):
            j=src.find("\n",i); i=n if j<0 else j; continue
        if src.startswith("/*",i):
            d=1;i+=2
            while i<n and d:
                if src.startswith("/*",i): d+=1;i+=2
                elif src.startswith("*/",i): d-=1;i+=2
                else: i+=1
            continue
        s=i
        cur+=count(last,s); last=s
        m=re.compile(r'(?:b|c)?r(#*)"').match(src,i)
        if m:
            close='"'+m.group(1); j=src.find(close,m.end())
            if j<0: raise LexError("raw string")
            i=j+len(close); k="str"
        elif c=='"' or (c in "bc" and src.startswith('"',i+1)):
            i=i+1 if c=='"' else i+2
            while i<n and src[i]!='"':
                i+=2 if src[i]=="\\" else 1
            i+=1;k="str"
        elif c=="'":
            m=re.compile(r"'(\\u\{[0-9a-fA-F_]+\}|\\x[0-9a-fA-F]{2}|\\.|[^\\'])'").match(src,i)
            if m: i=m.end();k="char"
            else:
                m=re.compile(r"'[A-Za-z_]\w*").match(src,i)
                if not m: raise LexError("quote")
                i=m.end();k="life"
        elif c.isalpha() or c=="_":
            m=re.compile(r"(?:r#)?\w+").match(src,i); i=m.end();k="id"
        elif c.isdigit():
            m=re.compile(r"0[xob][0-9a-fA-F_]+(?:[iu](?:8|16|32|64|128|size))?|[0-9][0-9_]*(?:\.(?![\.A-Za-z_])[0-9_]*)?(?:[eE][+-]?[0-9_]+)?(?:_?(?:[iu](?:8|16|32|64|128|size)|f32|f64))?").match(src,i)
            i=m.end();k="num"
        else:
            for p in PUNCT:
                if src.startswith(p,i): i+=len(p);break
            else: i+=1
            k="p"
        toks.append(Tok(k,src[s:i],s,i,src[pre_start:s],cur)); pre_start=i
    return toks

OPEN={"(":")","[":"]","{":"}"}
CLOSE={")","]","}"}

def match(toks,i):
    """index of the token closing the bracket at i"""
    d=0
    for j in range(i,len(toks)):
        t=toks[j]
        if t.k!="p": continue
        if t.t in OPEN: d+=1
        elif t.t in CLOSE:
            d-=1
            if d==0: return j
    raise LexError("unbalanced")

def skip_generics(toks,i):
    """toks[i] is '<': index after the matching '>'"""
    d=0;j=i
    while j<len(toks):
        t=toks[j].t
        if t=="<": d+=1
        elif t==">": d-=1
        elif t=="<<": d+=2
        elif t in (">>",): d-=2
        elif t in ("(","["): j=match(toks,j)
        elif t in (">=",">>="): raise LexError("generics")
        j+=1
        if d==0: return j
    raise LexError("generics")

class Item:
    def __init__(self,kind,name,toks,attrs,impl=None):
        self.kind=kind;self.name=name;self.toks=toks;self.attrs=attrs;self.impl=impl

def _attrs(toks,i):
    a=[]
    while i<len(toks) and toks[i].t=="#":
        j=i+1
        if toks[j].t=="!": j+=1
        e=match(toks,j); a.append("".join(x.t for x in toks[i:e+1])); i=e+1
    return a,i

def items(toks,impl=None,path=""):
    """yield Items of a token list (module level or impl level)"""
    out=[];i=0;n=len(toks)
    while i<n:
        attrs,i=_attrs(toks,i)
        if i>=n: break
        s=i
        # visibility and qualifiers
        while i<n and toks[i].t in("pub","unsafe","async","default","extern","const") :
            if toks[i].t=="const" and toks[i+1].t!="fn": break
            if toks[i].t=="extern" and toks[i+1].t=="crate": break
            if toks[i].t=="pub" and toks[i+1].t=="(": i=match(toks,i+1)+1
            elif toks[i].t=="extern" and toks[i+1].k=="str": i+=2
            else: i+=1
        if i>=n: break
        t=toks[i].t
        if t=="fn":
            name=toks[i+1].t; j=i
            while toks[j].t not in("{",";"):
                if toks[j].t in("(","["): j=match(toks,j)
                j+=1
            e=match(toks,j) if toks[j].t=="{" else j
            out.append(Item("fn",name,toks[s:e+1],attrs,impl)); i=e+1
            if toks[j].t=="{" and not any("test" in a for a in attrs):
                for a,b in nested(toks[j:e+1]): out.extend(items(toks[j+a:j+b]))
        elif t in("struct","enum","union"):
            name=toks[i+1].t;j=i+2
            if toks[j].t=="<": j=skip_generics(toks,j)
            while toks[j].t not in("{",";","("): j+=1
            if toks[j].t=="{": e=match(toks,j)
            elif toks[j].t=="(":
                e=match(toks,j)
                while toks[e].t!=";": e+=1
            else: e=j
            out.append(Item(t,name,toks[s:e+1],attrs)); i=e+1
        elif t=="impl":
            j=i+1
            if toks[j].t=="<": j=skip_generics(toks,j)
            hs=j
            while toks[j].t!="{": j+=1
            e=match(toks,j); hdr=toks[i:j]
            # type name: last path segment before generics / where of the self type
            h=toks[hs:j]
            txt=[x.t for x in h]
            trait=None
            if "for" in txt:
                k=txt.index("for"); trait=[x for x in txt[:k] if x[0].isalpha()][0]; h=h[k+1:]
            nm=None;d=0
            for x in h:
                if x.t=="where": break
                if x.t=="<": break
                if x.k=="id": nm=x.t
            inner=items(toks[j+1:e],impl=(nm,trait,hdr))
            out.append(Item("impl",nm,toks[s:e+1],attrs,(nm,trait,hdr))); out.extend(inner); i=e+1
        elif t=="trait":
            name=toks[i+1].t;j=i
            while toks[j].t!="{": j+=1
            e=match(toks,j); out.append(Item("trait",name,toks[s:e+1],attrs)); i=e+1
        elif t=="mod":
            name=toks[i+1].t
            if toks[i+2].t==";": e=i+2
            else: e=match(toks,i+2)
            out.append(Item("mod",name,toks[s:e+1],attrs)); i=e+1
        elif t in("use","type","const","static","extern","macro_rules"):
            j=i
            while toks[j].t!=";":
                if toks[j].t in OPEN: j=match(toks,j)
                j+=1
            out.append(Item(t,toks[i+1].t,toks[s:j+1],attrs)); i=j+1
        else:
            raise LexError(f"item at {toks[i]} line {toks[i].line}")
    return out

def nested(body):
    """spans of the structs, enums and impls declared among the statements of a block"""
    r=[];i=1;n=len(body)-1
    while i<n:
        t=body[i]
        if t.k=="id" and t.t in("struct","enum","impl") and (body[i-1].t in("{","}",";","]")):
            e=i
            while body[e].t not in("{",";"): e+=1
            e=match(body,e)+1 if body[e].t=="{" else e+1
            st=i
            while body[st-1].t=="]":
                k=st-1;d=0
                while True:
                    if body[k].t=="]": d+=1
                    if body[k].t=="[":
                        d-=1
                        if d==0: break
                    k-=1
                if body[k-1].t!="#": break
                st=k-1
            r.append((st,e)); i=e; continue
        if t.k=="p" and t.t in("(","["): i=match(body,i)
        i+=1
    return r

def text(toks):
    s="".join(t.pre+t.t for t in toks)
    return s

def find_fn(its,path):
    """path: 'Type::name' or 'name' or 'Type::Trait::name'; the first non-test match"""
    parts=path.split("::")
    r=[]
    for it in its:
        if it.kind!="fn" or it.name!=parts[-1]: continue
        if any("test" in a for a in it.attrs): continue
        if len(parts)==1 and it.impl is None: r.append(it)
        elif len(parts)==2 and it.impl and it.impl[0]==parts[0] : r.append(it)
        elif len(parts)==3 and it.impl and it.impl[0]==parts[0] and it.impl[1]==parts[1]: r.append(it)
    return r
