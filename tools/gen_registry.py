#!/usr/bin/env python3
"""One-off: turns the public API (rustdoc JSON, see api_summary.py) of every version into mc/src/gen/<version>.rs,
tables of plain function pointers Value -> Value. The result is committed; no check runs this script."""
import sys, re, json, os
sys.path.insert(0, os.path.dirname(__file__))
import api_summary as api

SKIP_FROM = set()
def rid(t): return re.sub(r"[^A-Za-z0-9]", "_", t)

def main(v):
    o = api.load(v)
    model = json.load(open(f"/verif/model/{v}.json"))
    ser = {t[0] for t in o["trait_impls"] if t[1].split("<")[0] == "Serialize"}
    de = {t[0] for t in o["trait_impls"] if t[1].split("<")[0] == "Deserialize"}
    prim = {"i64", "bool", "String", "Value", "f64", "u64", "&str"}
    def is_de(t):
        t = t.strip()
        if t.startswith("&"): return False
        m = re.match(r"^(Vec|Option)<(.*)>$", t)
        if m: return is_de(m.group(2))
        if t.startswith("Map<") or t.startswith("BTreeMap<") or t.startswith("HashMap<"): return True
        return t in de or t in prim
    def is_ser(t):
        m = re.match(r"^(Vec|Option)<(.*)>$", t)
        if m: return is_ser(m.group(2))
        return t in ser or t in prim
    def rty(t):
        # rust spelling of a summarised type
        m = re.match(r"^(Vec|Option)<(.*)>$", t)
        if m: return f"{m.group(1)}<{rty(m.group(2))}>"
        m = re.match(r"^(Map|BTreeMap|HashMap)<([^,]*),(.*)>$", t)
        if m: 
            if m.group(1) == "Map": return "serde_json::Map<String, Value>"
            return f"std::collections::{m.group(1)}<{rty(m.group(2))}, {rty(m.group(3))}>"
        if t in prim: return t
        return "api::" + t
    enums = {t: d for t, d in o["types"].items() if d[0] == "enum" and any(x[1] for x in d[1])}
    hold = {}
    for t, d in o["types"].items():
        if d[0] == "struct":
            for f, ty, vis in d[1]:
                if f in ("request", "result", "notification") and ty in enums: hold[t] = (f, ty)
    walk = set(enums) | set(hold)
    mks = MKS = [e for e in ("RequestFromClient", "RequestFromServer", "NotificationFromClient", "NotificationFromServer", "ResultFromClient",
                       "ResultFromServer", "ServerResult", "ClientResult", "ClientRequest", "ServerRequest", "ClientNotification", "ServerNotification",
                       "MessageFromClient", "MessageFromServer") if e in enums]
    L = []
    P = L.append
    P("// generated once by tools/gen_registry.py from the public API; edit the generator, not this file")
    P("#![allow(clippy::all, unused, deprecated)]")
    P("use crate::reg::*;\nuse serde_json::Value;")
    P(f"use rust_mcp_schema::mcp_{v} as root;")
    P("pub mod api { pub use super::root::*; pub use super::root::schema_utils::*; pub use rust_mcp_schema::{ProtocolVersion, ParseProtocolVersionError}; }")
    P(f'pub const VERSION: &str = "{v}";')
    P(f'pub const MODEL: &str = include_str!("../../../model/{v}.json");')
    P("pub fn registry() -> Reg { let mut r = Reg::default();")
    names = sorted(t for t in o["types"] if t in ser and t in de)
    fns = []
    for t in names:
        P(f'  r.types.push(TypeOps{{name:"{t}", schema:{"true" if t in model else "false"}, rt: rt::<api::{t}>, rts: rts::<api::{t}>}});')
    # constructors
    nctor = 0
    left = []
    for t, fs in sorted(o["inh"].items()):
        for name, args, ret in fs:
            if name != "new": continue
            ok = t in ser
            call = []
            for i, (a, ty) in enumerate(args):
                if ty in ("T", "impl Into<String>") or ty == "impl AsRef<str>": call.append(f"j::<String>(&a[{i}])?")
                elif is_de(ty): call.append(f"j(&a[{i}])?" if ty != "String" else f"j::<String>(&a[{i}])?")
                else: ok = False
            if not ok: left.append((t, name, args)); continue
            fld = o["types"].get(t)
            an = ",".join('"%s"' % a[0] for a in args)
            P(f'  r.ctors.push(Ctor{{ty:"{t}", args:&[{an}], f: |a| out(api::{t}::new({", ".join(call)}))}});')
            nctor += 1
    # constants of generated types
    for t, fs in sorted(o["inh"].items()):
        if t not in de: continue
        for name, args, ret in fs:
            m = re.match(r"^(\w+?)_(value|name)$", name)
            if m and not args and ret in ("&str", "i64"):
                P(f'  r.consts.push(ConstFn{{ty:"{t}", field:"{m.group(1)}", f: || serde_json::to_value(api::{t}::{name}()).unwrap()}});')
            if args == [("self", "&Self")] and name in ("type_", "method", "jsonrpc", "mode", "code") and t in o["types"] and o["types"][t][0] == "struct" and ret in ("&String", "&Option<String>", "&i64"):
                P(f'  r.getters.push(Getter{{ty:"{t}", field:"{name}", f: |v| out(j::<api::{t}>(v)?.{name}())}});')
    # builders: with_x(self, T) -> Self
    for t, fs in sorted(o["inh"].items()):
        if t not in de or t not in ser: continue
        for name, args, ret in fs:
            if name.startswith("with_") and len(args) == 2 and args[0] == ("self", "Self") and ret == "Self":
                ty = args[1][1]
                if ty in ("T", "impl Into<String>"): c = "j::<String>(a)?"
                elif is_de(ty): c = "j(a)?" if ty != "String" else "j::<String>(a)?"
                else: left.append((t, name, args)); continue
                P(f'  r.builders.push(Builder{{ty:"{t}", name:"{name}", arg:"{ty}", f: |v, a| out(j::<api::{t}>(v)?.{name}({c}))}});')
    for t in sorted(o["trait_impls"]):
        forn, tr, derived, _ = t
        b = tr.split("<")[0]
        if b == "Default" and forn in ser:
            P(f'  r.defaults.push(DefaultFn{{ty:"{forn}", f: || out(<api::{forn} as Default>::default())}});')
        m = re.match(r"^(From|TryFrom)<(.*)>$", tr)
        if m:
            src = m.group(2)
            base = o["aliases"].get(forn, forn)
            if base not in o["types"] or not is_ser(base) or not is_de(src):
                left.append((forn, tr)); continue
            if m.group(1) == "From" and src == "i64":
                e = "ElicitResultContentPrimitive" if base == "ElicitResultContent" and v != "2025_06_18" else base
                c = f"from_as::<_, _, api::{forn}>(api::{e}::Integer, v)?"
                P(f'  r.froms.push(Conv{{src:"{src}", dst:"{base}", f: |v| out({c}), var: Some(|v| Ok(var_{base}(&{c})))}});')
            elif m.group(1) == "From":
                var = f"Some(|v| Ok(var_{base}(&<api::{forn} as From<{rty(src)}>>::from(j::<{rty(src)}>(v)?))))" if base in walk else "None"
                P(f'  r.froms.push(Conv{{src:"{src}", dst:"{base}", f: |v| out(<api::{forn} as From<{rty(src)}>>::from(j::<{rty(src)}>(v)?)), var: {var}}});')
            else:
                get = f"mk_{src}(p, v)?" if src in MKS else f"j::<{rty(src)}>(v)?"
                P(f'  r.try_froms.push(TryConv{{src:"{src}", dst:"{base}", f: |p, v| {{ let x = {get}; Ok(<api::{forn} as TryFrom<{rty(src)}>>::try_from(x).map(|y| serde_json::to_value(y).unwrap()).map_err(|e| serde_json::to_value(e).unwrap()))}}}});')
        m = re.match(r"^(FromMessage)<(.*)>$", tr)
        if m:
            src = m.group(2)
            if not is_de(src): left.append((forn, tr)); continue
            P(f'  r.from_message.push(Assemble{{src:"{src}", dst:"{forn}", f: |v, id| {{ let id = match id {{ Some(i) => Some(j::<api::RequestId>(i)?), None => None }}; let x = j::<{rty(src)}>(v)?; Ok(<api::{forn} as api::FromMessage<{rty(src)}>>::from_message(x, id).map(|y| serde_json::json!([var_{forn}(&y), y])).map_err(|e| serde_json::to_value(e).unwrap())) }} }});')
        m = re.match(r"^(ToMessage)<(.*)>$", tr)
        if m:
            dst = m.group(2)
            if not is_de(forn): left.append((forn, tr)); continue
            P(f'  r.to_message.push(Assemble{{src:"{forn}", dst:"{dst}", f: |v, id| {{ let id = match id {{ Some(i) => Some(j::<api::RequestId>(i)?), None => None }}; let x = j::<{rty(forn)}>(v)?; Ok(<{rty(forn)} as api::ToMessage<{rty(dst)}>>::to_message(x, id).map(|y| serde_json::json!([var_{dst}(&y), y])).map_err(|e| serde_json::to_value(e).unwrap())) }} }});')
        if tr == "Display" and forn in de:
            P(f'  r.displays.push(DisplayFn{{ty:"{forn}", f: |v| Ok(j::<api::{forn}>(v)?.to_string())}});')
        if tr == "FromStr" and forn in ser:
            rpcerr = forn.endswith(("Message", "Messages", "Request", "Response", "Notification", "JsonrpcError", "RpcError"))
            err = "serde_json::to_string(&e).unwrap()" if rpcerr else 'format!("{e:?}")'
            P(f'  r.fromstrs.push(FromStrFn{{ty:"{forn}", f: |s| s.parse::<api::{forn}>().map(|x| serde_json::to_value(x).unwrap()).map_err(|e| {err})}});')
    for t in sorted(walk):
        if t in de: P(f'  r.variants.push(VariantFn{{ty:"{t}", f: |v| Ok(var_{t}(&j::<api::{t}>(v)?))}});')
    P("  r }")
    for t in sorted(walk):
        P(f"pub fn var_{t}(x: &api::{t}) -> String {{")
        if t in hold:
            P(f"  var_{hold[t][1]}(&x.{hold[t][0]})")
        else:
            P("  #[allow(unreachable_patterns)] match x {")
            for n, pl in enums[t][1]:
                if not pl: P(f'    api::{t}::{n} => "{n}".to_string(),')
                elif pl[0].startswith("{"): P(f'    api::{t}::{n} {{ .. }} => "{n}".to_string(),')
                else:
                    inner = re.sub(r"^Box<(.*)>$", r"\1", pl[0])
                    if inner in walk: P(f'    api::{t}::{n}(y) => format!("{n}/{{}}", var_{inner}(y)),')
                    else: P(f'    api::{t}::{n}(..) => "{n}".to_string(),')
            P('    _ => "?".to_string(),')
            P("  }")
        P("}")
    for e in mks:
        P(f"pub fn mk_{e}(path: &[&str], v: &Value) -> Result<api::{e}, String> {{ Ok(match path[0] {{")
        for n, pl in enums[e][1]:
            ty = pl[0]
            inner = f"mk_{ty}(&path[1..], v)?" if ty in mks else f"j::<{rty(ty)}>(v)?"
            P(f'    "{n}" => api::{e}::{n}({inner}),')
        P('    x => return Err(format!("no variant {x}")),\n  })}')
        P(f"pub const VARIANTS_{e.upper()}: &[(&str, &str)] = &[" + ", ".join(f'("{n}", "{pl[0]}")' for n, pl in enums[e][1]) + "];")
    P("pub fn variants(e: &str) -> &'static [(&'static str, &'static str)] { match e { " + " ".join(f'"{e}" => VARIANTS_{e.upper()},' for e in mks) + " _ => &[] } }")
    open(f"/verif/mc/src/gen/v{v}.rs", "w").write("\n".join(L) + "\n")
    print(v, "ctors", nctor, "lines", len(L)); 
    for l in left: print("   left:", l)

for v in sys.argv[1:]: main(v)
