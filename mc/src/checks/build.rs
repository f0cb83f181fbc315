//! C03 (second half): constants, getters and defaults. C19: constructors and builders put every value in its own member.
use super::convert::schema_of;
use crate::{env::Env, hand::content};
use mccore::{ctx::*, explore::*, model::*};
use serde_json::{json, Map, Value};
use std::rc::Rc;

fn resolve(e: &Env, s: &Rc<S>) -> Rc<S> {
    match &**s {
        S::Ref(n) => resolve(e, &e.m.ty(n)),
        _ => s.clone(),
    }
}
/// the members the schema fixes to one value: (name, required, value)
fn constants(e: &Env, ty: &str) -> Vec<(String, bool, Value)> {
    match &*resolve(e, &e.m.ty(ty)) {
        S::Obj { props, .. } => props
            .iter()
            .filter_map(|(n, r, s)| match &*resolve(e, s) {
                S::Const(v, _) => Some((n.clone(), *r, v.clone())),
                S::Enum(v) if v.len() == 1 => Some((n.clone(), *r, v[0].clone())),
                _ => None,
            })
            .collect(),
        _ => vec![],
    }
}

pub fn constant_accessors(e: &Env, c: &mut Ctx) {
    for f in &e.reg.consts {
        if !c.mine() || !e.m.has(f.ty) {
            continue;
        }
        c.state("constant accessor", &format!("{}.{}", f.ty, f.field));
        c.transitions += 1;
        let want = constants(e, f.ty).into_iter().find(|x| x.0 == f.field).map(|x| x.2);
        let got = guard(f.f).unwrap_or_default();
        c.ran("constant read");
        if let Some(w) = want {
            c.expect(
                got == w,
                format!("{}.{}: the constant accessor says {got}", f.ty, f.field),
                || json!({"type": f.ty}),
                || format!("the protocol fixes it to {w}"),
            );
        }
    }
    for f in &e.reg.defaults {
        if !c.mine() {
            continue;
        }
        c.state("default", f.ty);
        c.transitions += 1;
        let got = match guard(f.f) {
            Ok(Ok(v)) => v,
            x => {
                c.fail(format!("{}: the default fails", f.ty), json!({}), format!("{x:?}"));
                continue;
            }
        };
        c.ran("default built");
        if e.m.has(f.ty) {
            for (n, req, w) in constants(e, f.ty) {
                let g = got.get(&n);
                c.expect(
                    g == Some(&w) || (g.is_none() && !req),
                    format!("{}: the default carries a wrong {n}", f.ty),
                    || got.clone(),
                    || format!("the protocol fixes it to {w}"),
                );
            }
            let s = e.m.ty(f.ty);
            c.expect(e.m.valid(&s, &got), format!("{}: the default does not conform", f.ty), || got.clone(), String::new);
        }
    }
    let (max, cap) = if c.thorough { (2, 2000) } else { (2, 300) };
    for f in &e.reg.getters {
        if !c.mine() || !e.m.has(f.ty) {
            continue;
        }
        let s = e.m.ty(f.ty);
        let key = format!("{}.{}()", f.ty, f.field);
        let read = |c: &mut Ctx, d: Value| {
            if !c.state(&key, &d.to_string()) {
                return;
            }
            let want = d.get(f.field.trim_end_matches('_')).cloned().unwrap_or(Value::Null);
            let got = guard(|| (f.f)(&d));
            c.ran("getter read");
            c.expect(
                got == Ok(Ok(want.clone())),
                format!("{key} disagrees with the document"),
                || d.clone(),
                || format!("{got:?}, expected {want}"),
            );
        };
        c.rich(&e.m, &key, &s, if c.thorough { 4000 } else { 1000 }, &mut |c, d, _, _| read(c, d));
        for full in [false, true] {
            let mk = |ch: &mut Ch| {
                let mut g = Gen::new(&e.m, full);
                g.max_depth = 6;
                g.at(ch, &s, f.ty)
            };
            c.explore_fit(
                &key,
                0,
                max,
                cap,
                &mut |c, ch| {
                    let d = mk(ch);
                    read(c, d);
                },
                &mut |ch| {
                    mk(ch);
                },
            );
        }
    }
}

/// the JSON member an argument is named for
fn member(e: &Env, ty: &str, arg: &str) -> Option<String> {
    let special = match (ty, arg) {
        ("BlobResourceContents", "base64_text") => "blob",
        ("CallToolRequestParams", "tool_name") => "name",
        (_, "client_info") => "io.modelcontextprotocol/clientInfo",
        (_, "log_level") => "io.modelcontextprotocol/logLevel",
        (_, "protocol_version") if ty == "RequestMetaObject" => "io.modelcontextprotocol/protocolVersion",
        (_, "client_capabilities") => "io.modelcontextprotocol/clientCapabilities",
        (_, "schema") => "$schema",
        (_, "traceparent" | "tracestate" | "baggage") => return Some(arg.into()),
        ("RpcError" | "SdkError", "message" | "data") => return Some(arg.into()),
        (_, "structured_content") => "structuredContent",
        _ => "",
    };
    let a = arg.trim_matches('_');
    let mut camel = String::new();
    let mut up = false;
    for ch in a.chars() {
        if ch == '_' {
            up = true;
        } else if up {
            camel.extend(ch.to_uppercase());
            up = false;
        } else {
            camel.push(ch);
        }
    }
    let props: Vec<String> = if e.m.has(ty) { e.m.props(ty).into_iter().map(|p| p.0).collect() } else { vec![] };
    [special, a, &camel, &format!("_{camel}")].iter().find(|x| props.iter().any(|p| p == *x)).map(|s| s.to_string())
}

pub fn constructors(e: &Env, c: &mut Ctx) {
    let (max, cap) = if c.thorough { (3, 6000) } else { (2, 1500) };
    for f in &e.reg.ctors {
        if !e.m.has(f.ty) || ["ClientJsonrpc", "ServerJsonrpc"].iter().any(|p| f.ty.starts_with(p)) || !c.mine() {
            continue; // the envelopes are covered by the assembly check
        }
        let s = e.m.ty(f.ty);
        let key = format!("{}::new", f.ty);
        let consts = constants(e, f.ty);
        let names: Vec<Option<String>> = f
            .args
            .iter()
            .map(|a| {
                if *a == "extra" {
                    None
                } else {
                    Some(member(e, f.ty, a).unwrap_or_else(|| panic!("{key}: argument {a}")))
                }
            })
            .collect();
        let known: Vec<String> = e.m.props(f.ty).into_iter().map(|p| p.0).collect();
        let construct = |c: &mut Ctx, d: Value, mut el: Vec<String>| {
            let Some(o) = d.as_object() else { return };
            let mut want = Map::new();
            let mut args = vec![];
            for n in &names {
                match n {
                    Some(n) => {
                        let v = o.get(n).cloned();
                        if let Some(v) = &v {
                            want.insert(n.clone(), v.clone());
                        }
                        args.push(v.unwrap_or(if n == "required" { json!([]) } else { Value::Null }));
                    }
                    None => {
                        let x: Map<String, Value> = o.iter().filter(|(k, _)| !known.contains(k)).map(|(k, v)| (k.clone(), v.clone())).collect();
                        want.extend(x.clone());
                        args.push(if x.is_empty() { Value::Null } else { Value::Object(x) });
                    }
                }
            }
            for (n, req, v) in &consts {
                if !names.iter().any(|x| x.as_deref() == Some(n)) {
                    want.insert(n.clone(), v.clone());
                    if !req {
                        el.push(format!("/{n}"));
                    }
                }
            }
            if !c.state(&key, &json!(args).to_string()) {
                return;
            }
            let mut want = Value::Object(want);
            let mut r = guard(|| (f.f)(&args));
            // lists that are not optional
            for i in 0..args.len() {
                if args[i].is_null() && matches!(&r, Ok(Err(x)) if x.contains("expected a sequence")) {
                    args[i] = json!([]);
                    if let Some(n) = &names[i] {
                        el.push(format!("/{n}"));
                        want[n] = json!([]);
                    }
                    r = guard(|| (f.f)(&args));
                }
            }
            let case = || json!({"constructor": key, "arguments": args});
            match r {
                Ok(Ok(got)) => {
                    c.ran("constructed");
                    if let Some(x) = diff_but(&want, &got, &el) {
                        c.fail(format!("{key}: not what was given"), case(), x);
                    }
                }
                Ok(Err(x)) => c.fail(format!("{key}: arguments refused"), case(), x),
                Err(x) => c.fail(format!("{key}: panics"), case(), x),
            }
            c.sample(case());
        };
        c.rich(&e.m, &key, &s, if c.thorough { 8000 } else { 2000 }, &mut |c, d, g, _| construct(c, d, g.elidable.clone()));
        for full in [false, true] {
            let mk = |ch: &mut Ch| {
                let mut g = Gen::new(&e.m, full);
                g.max_depth = 7;
                let d = g.at(ch, &s, f.ty);
                (d, g.elidable)
            };
            c.explore_fit(
                &key,
                0,
                max,
                cap,
                &mut |c, ch| {
                    let (d, el) = mk(ch);
                    construct(c, d, el);
                },
                &mut |ch| {
                    mk(ch);
                },
            );
        }
    }
    let (max, cap) = if c.thorough { (2, 4000) } else { (2, 300) };
    for f in &e.reg.builders {
        let name = f.name.strip_prefix("with_").unwrap();
        if (!e.m.has(f.ty) && f.ty != "SdkError") || !c.mine() {
            continue;
        }
        let key = format!("{}::{}", f.ty, f.name);
        let s = schema_of(e, if f.ty == "SdkError" { "RpcError" } else { f.ty }).unwrap();
        let (opt, at) = match f.arg.strip_prefix("Option<").and_then(|x| x.strip_suffix('>')) {
            Some(x) => (true, x),
            None => (false, f.arg),
        };
        let arg = match at {
            "T" | "impl Into<String>" => schema_of(e, "String").unwrap(),
            "Map<String,Value>" => e.m.compile(&json!({"type": "object"})),
            t => schema_of(e, t).unwrap_or_else(|| panic!("{key}: argument {t}")),
        };
        let field = member(e, f.ty, name).or_else(|| if ["RequestMetaObject", "SdkError"].contains(&f.ty) { Some(name.to_string()) } else { None });
        // a union whose members carry the field
        let Some(field) = field.or_else(|| if f.ty == "ElicitRequestParams" { Some(name.to_string()) } else { None }) else {
            panic!("{key}: no member")
        };
        let build = |c: &mut Ctx, d: Value, a: Value, mut el: Vec<String>| {
            if !c.state(&key, &json!([d, a]).to_string()) {
                return;
            }
            let mut want = d.clone();
            if a.is_null() && opt {
                want.as_object_mut().unwrap().remove(&field);
            } else {
                want[&field] = a.clone();
                if a.is_null() {
                    el.push(format!("/{field}"));
                }
            }
            let case = || json!({"builder": key, "on": d, "argument": a});
            match guard(|| (f.f)(&d, &a)) {
                Ok(Ok(got)) => {
                    c.ran("built");
                    if let Some(x) = diff_but(&want, &got, &el) {
                        c.fail(format!("{key}: not what was given"), case(), x);
                    }
                }
                Ok(Err(x)) => c.fail(format!("{key}: refused"), case(), x),
                Err(x) => c.fail(format!("{key}: panics"), case(), x),
            }
            c.sample(case());
        };
        for full in [false, true] {
            let mut g = Gen::new(&e.m, full);
            g.max_depth = 6;
            let mut d = g.at(&mut Ch::replay(vec![]), &s, f.ty);
            if f.ty == "SdkError" {
                d["code"] = json!(-32603);
            }
            c.rich(&e.m, at, &arg, if c.thorough { 5000 } else { 1500 }, &mut |c, a, h, _| {
                let mut el = g.elidable.clone();
                el.extend(h.elidable.iter().map(|p| format!("/{}{p}", field)));
                el.push(format!("/{field}"));
                if !(a.is_null() || a == json!([])) {
                    el.pop();
                }
                build(c, d.clone(), a, el)
            });
        }
        for full in [false, true] {
            let mk = |ch: &mut Ch| {
                let mut g = Gen::new(&e.m, full);
                g.max_depth = 6;
                let mut d = g.at(ch, &s, f.ty);
                let mut el = g.elidable;
                if f.ty == "SdkError" {
                    // its code is one of a fixed set
                    d["code"] = json!(-32603);
                }
                let mut h = Gen::new(&e.m, ch.free(2) == 1);
                h.max_depth = 5;
                let a = if opt && ch.free(2) == 1 { Value::Null } else { h.at(ch, &arg, at) };
                el.extend(h.elidable.iter().map(|p| format!("/{}{p}", field)));
                (d, a, el)
            };
            c.explore_fit(
                &key,
                0,
                max,
                cap,
                &mut |c, ch| {
                    let (d, a, el) = mk(ch);
                    build(c, d, a, el);
                },
                &mut |ch| {
                    mk(ch);
                },
            );
        }
    }
    if c.part.0 == 0 {
        tool_results(e, c);
    }
}

/// the parts of a content block its own constructor takes
fn parts(d: &Value) -> Value {
    let mut d = d.clone();
    if content::FULL && d["type"] != "resource_link" {
        let o = d.as_object_mut().unwrap();
        o.remove("annotations");
        o.remove("_meta");
    }
    d
}

/// every way to start a tool result and every sequence of operations on it
fn tool_results(e: &Env, c: &mut Ctx) {
    let item = if e.m.has("ContentBlock") {
        e.m.ty("ContentBlock")
    } else {
        let S::Obj { props, .. } = &*resolve(e, &e.m.ty("CallToolResult")) else { panic!() };
        let S::Arr { items, .. } = &*resolve(e, &props.iter().find(|p| p.0 == "content").unwrap().2) else {
            panic!()
        };
        items.clone()
    };
    // one small and one full document of every kind of block, and a few more
    let mut docs: Vec<Value> = vec![];
    let mut more: Vec<Value> = vec![];
    for full in [false, true] {
        explore(if c.thorough { 2 } else { 1 }, u64::MAX, &mut |ch| {
            let mut g = Gen::new(&e.m, full);
            g.max_depth = 5;
            let d = g.at(ch, &item, "block");
            let n = docs.iter().filter(|x| x["type"] == d["type"]).count();
            if n <= full as usize && (full || n == 0) {
                docs.push(d.clone());
            }
            if !more.contains(&d) {
                more.push(d);
            }
        });
    }
    let kinds: Vec<&str> = content::STARTS
        .iter()
        .copied()
        .filter(|k| *k == "any" || *k == "error" || docs.iter().any(|d| d["type"] == *k))
        .collect();
    for d in &more {
        c.state("block", &d.to_string());
        c.transitions += 1;
        let want = parts(d);
        let got = guard(|| content::block_of(d));
        c.ran("block built");
        match got {
            Ok(Ok(g)) => {
                let el: Vec<String> = vec!["/annotations".into(), "/resource/_meta".into(), "/annotations/audience".into(), "/_meta".into(), "/icons".into()];
                if let Some(x) = diff_but(&want, &g, &el) {
                    c.fail(format!("content block {}: not what was given", d["type"]), d.clone(), x);
                }
            }
            x => c.fail(format!("content block {}: refused or panics", d["type"]), d.clone(), format!("{x:?}")),
        }
    }
    let metas = [None, Some(json!({"k": 1})), Some(json!({}))];
    let structs = [json!({"a": {"b": [1, "x"]}}), json!({})];
    let depth = if c.thorough { 4 } else { 2 };
    let st = explore(usize::MAX, u64::MAX, &mut |ch| {
        let start = kinds[ch.free(kinds.len())];
        let of = |k: &str| -> Vec<Value> { docs.iter().filter(|d| k == "any" || d["type"] == k).cloned().collect() };
        let mut w = json!({});
        let blocks: Vec<Value> = if start == "error" {
            {
                let t = ["", "it failed"][ch.free(2)];
                vec![json!({"type": "text", "text": t})]
            }
        } else {
            let from = of(start);
            let n = if content::FULL { ch.free(if start == "any" { 3 } else { 4 }) } else { 1 };
            (0..n).map(|_| from[ch.free(from.len())].clone()).collect()
        };
        w["content"] = json!(blocks);
        if start == "error" {
            w["isError"] = json!(true);
        }
        if e.p.family == mccore::proto::Family::New {
            w["resultType"] = json!("complete");
        }
        let mut ops = vec![];
        let mut el = vec![];
        for _ in 0..depth {
            let adds = if content::FULL { docs.len() } else { 0 };
            let nst = if content::FULL { structs.len() } else { 0 };
            // long starts are enough without many operations
            if blocks.len() > 1 && !ops.is_empty() {
                break;
            }
            let o = ch.free(1 + metas.len() + nst + adds);
            if o == 0 {
                break;
            }
            let o = o - 1;
            let op = if o < metas.len() {
                match &metas[o] {
                    Some(m) => w["_meta"] = m.clone(),
                    None => {
                        w.as_object_mut().unwrap().remove("_meta");
                    }
                }
                content::Op::Meta(metas[o].clone())
            } else if o < metas.len() + nst {
                let v = structs[o - metas.len()].clone();
                w["structuredContent"] = v.clone();
                content::Op::Structured(v)
            } else {
                let v = docs[o - metas.len() - nst].clone();
                w["content"].as_array_mut().unwrap().push(v.clone());
                content::Op::Add(v)
            };
            ops.push(op);
        }
        for (i, b) in w["content"].as_array().unwrap().iter().enumerate() {
            for k in ["annotations", "icons", "_meta", "annotations/audience"] {
                if b.pointer(&format!("/{k}")).map(|v| v.is_null() || v == &json!([])).unwrap_or(false) {
                    el.push(format!("/content/{i}/{k}"));
                }
            }
        }
        let case = || json!({"start": start, "blocks": blocks, "operations": format!("{ops:?}")});
        if !c.state("tool result", &case().to_string()) {
            return;
        }
        c.transitions += 1;
        let last = match ops.last() {
            None => format!("start with {start}"),
            Some(content::Op::Meta(_)) => "with_meta".into(),
            Some(content::Op::Structured(_)) => "with_structured_content".into(),
            Some(content::Op::Add(_)) => "add_content".into(),
        };
        match guard(|| content::tool_result(start, &blocks, &ops)) {
            Ok(Ok(g)) => {
                c.ran("tool result built");
                if let Some(x) = diff_but(&w, &g, &el) {
                    c.fail(format!("CallToolResult {last}: not what was given"), case(), x);
                }
            }
            x => c.fail(format!("CallToolResult {last}: refused or panics"), case(), format!("{x:?}")),
        }
        c.sample(case());
    });
    c.explored("tool results", &st);
    plain(c);
}

/// values made of plain text and numbers
pub fn plain(c: &mut Ctx) {
    let alphabet = ["a", "dark", "light", " ", "\u{e9}", "\"", "D"];
    let st = explore(usize::MAX, u64::MAX, &mut |ch| {
        let n = ch.free(4);
        let t: String = (0..n).map(|_| alphabet[ch.free(alphabet.len())]).collect();
        c.state("plain text", &t);
        c.transitions += 1;
        match guard(|| content::from_text(&t)) {
            Ok(v) => {
                for (k, v) in v {
                    c.ran("made of text");
                    let w = match k {
                        "TextContent" => json!({"type": "text", "text": t}),
                        "IconTheme" => json!(if t == "dark" { "dark" } else { "light" }),
                        "list" => json!([t, "x", t]),
                        _ => json!(t),
                    };
                    c.expect(v == w, format!("text as {k}: something else"), || json!(t), || v.to_string());
                }
            }
            Err(x) => c.fail("text: panics", json!(t), x),
        }
    });
    c.explored("plain text", &st);
    for i in [0, 1, -1, i64::MAX, i64::MIN] {
        let made = guard(|| content::from_int(i));
        c.expect(made.is_ok(), "number: refused", || json!(i), String::new);
        for v in made.unwrap_or_default() {
            c.ran("made of a number");
            c.expect(v == json!(i), "number: something else", || json!(i), || v.to_string());
        }
    }
}
