import json,sys
def ty(t,I):
    if t is None: return "()"
    (k,v),=t.items()
    if k=="resolved_path":
        n=v["path"].split("::")[-1]
        a=v.get("args")
        if a and "angle_bracketed" in a:
            ar=[ty(x["type"],I) for x in a["angle_bracketed"]["args"] if "type" in x]
            if ar: n+="<"+",".join(ar)+">"
        return n
    if k=="primitive": return v
    if k=="generic": return v
    if k=="borrowed_ref": return "&"+("mut " if v["is_mutable"] else "")+ty(v["type"],I)
    if k=="slice": return "["+ty(v,I)+"]"
    if k=="array": return "["+ty(v["type"],I)+";"+v["len"]+"]"
    if k=="tuple": return "("+",".join(ty(x,I) for x in v)+")"
    if k=="impl_trait": return "impl "+"+".join(bnd(x,I) for x in v)
    if k=="qualified_path": return "<..>::"+v["name"]
    if k=="dyn_trait": return "dyn "+"+".join(x["trait"]["path"] for x in v["traits"])
    return k
def bnd(b,I):
    if "trait_bound" in b: return ty({"resolved_path":b["trait_bound"]["trait"]},I)
    return str(b)[:20]
def load(v):
    d=json.load(open(f"/tmp/rd/{v}.json")); I=d["index"]
    out={"types":{},"inh":{}, "traits":[], "consts":{}, "aliases":{}, "trait_impls":[], "fns":[]}
    for id,it in I.items():
        inner=it["inner"]; (k,x),=inner.items()
        if it["crate_id"]!=0: continue
        if k=="struct":
            f=x["kind"]
            if "plain" in f:
                fs=[(I[str(q)]["name"],ty(I[str(q)]["inner"]["struct_field"],I),I[str(q)]["visibility"]) for q in f["plain"]["fields"]]
                out["types"][it["name"]]=("struct",fs,f["plain"]["has_stripped_fields"])
            elif "tuple" in f:
                out["types"][it["name"]]=("tuple",[ty(I[str(q)]["inner"]["struct_field"],I) if q is not None else "?" for q in f["tuple"]],False)
            else: out["types"][it["name"]]=("unit",[],False)
        elif k=="enum":
            vs=[]
            for q in x["variants"]:
                vv=I[str(q)]; kk=vv["inner"]["variant"]["kind"]
                if kk=="plain": vs.append((vv["name"],[]))
                elif "tuple" in kk: vs.append((vv["name"],[ty(I[str(z)]["inner"]["struct_field"],I) for z in kk["tuple"]]))
                else: vs.append((vv["name"],["{"+",".join(I[str(z)]["name"] for z in kk["struct"]["fields"])+"}"]))
            out["types"][it["name"]]=("enum",vs,False)
        elif k=="impl":
            if x.get("blanket_impl") or x.get("is_synthetic"): continue
            forn=ty(x["for"],I)
            tr=x["trait"]; derived="automatically_derived" in json.dumps(it.get("attrs",[]))
            fns=[]
            for q in x["items"]:
                f=I.get(str(q)); 
                if not f: continue
                if "function" in f["inner"]:
                    s=f["inner"]["function"]["sig"]
                    fns.append((f["name"],[(n,ty(t,I)) for n,t in s["inputs"]],ty(s["output"],I)))
            if tr is None: out["inh"].setdefault(forn,[]).extend(fns)
            else: out["trait_impls"].append((forn,ty({"resolved_path":tr},I),derived,[f[0] for f in fns]))
        elif k=="constant": out["consts"][it["name"]]=x["const"]["value"] or x["const"]["expr"]
        elif k=="type_alias": out["aliases"][it["name"]]=ty(x["type"],I)
        elif k=="trait":
            out["traits"].append((it["name"],[(I[str(q)]["name"],[(n,ty(t,I)) for n,t in I[str(q)]["inner"]["function"]["sig"]["inputs"]],ty(I[str(q)]["inner"]["function"]["sig"]["output"],I)) for q in x["items"] if "function" in I[str(q)]["inner"]]))
    return out
if __name__=="__main__":
    for v in sys.argv[1:]:
        o=load(v)
        f=open(f"/tmp/api/{v}.txt","w")
        for n,t in sorted(o["types"].items()): print("TYPE",n,t,file=f)
        for n,fs in sorted(o["inh"].items()):
            for a in fs: print("FN",f"{n}::{a[0]}({', '.join(p+': '+t for p,t in a[1])}) -> {a[2]}",file=f)
        for t in sorted(o["trait_impls"]): 
            if t[1].split("<")[0] in("Debug","Clone","Serialize","Deserialize","PartialEq","Eq","Hash","Copy","PartialOrd","Ord","StructuralPartialEq") and True: 
                print("DERIV" if t[2] else "IMPLD",t[0],t[1],t[3] if not t[2] else "",file=f)
            else: print("IMPL",t[0],t[1],t[3],file=f)
        for t in o["traits"]: print("TRAIT",t,file=f)
        for t in o["consts"].items(): print("CONST",t,file=f)
        for t in o["aliases"].items(): print("ALIAS",t,file=f)
