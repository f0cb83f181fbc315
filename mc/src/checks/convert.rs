//! C08: conversions into containers keep the payload. C09: taking a kind out succeeds exactly when it is that kind.
use crate::{env::Env, gen, hand};
use mccore::{ctx::*, explore::*, model::*, proto::Family};
use serde_json::{json, Value};
use std::rc::Rc;

/// the documents of a Rust type by its spelling
pub fn schema_of(e: &Env, t: &str) -> Option<Rc<S>> {
    let s = match t {
        "String" => json!({"type": "string"}),
        "i64" => json!({"type": "integer"}),
        "bool" => json!({"type": "boolean"}),
        "f64" => json!({"type": "number"}),
        "Value" => json!({}),
        "ClientTaskResult" => json!({"anyOf": [mccore::proto::r("ElicitResult"), mccore::proto::r("CreateMessageResult")]}),
        _ => {
            if e.m.has(t) {
                return Some(e.m.ty(t));
            }
            let inner = t.strip_prefix("Vec<")?.strip_suffix('>')?;
            return schema_of(e, inner).map(|i| Rc::new(S::Arr { items: i, min: 0, wrong: vec![] }));
        }
    };
    Some(e.m.compile(&s))
}

fn arm(src: &str) -> &str {
    match src {
        "i64" => "Integer",
        "bool" => "Boolean",
        "ElicitRequestFormParams" => "FormParams",
        "ElicitRequestUrlParams" => "UrlParams",
        "ElicitResultContentPrimitive" => "Primitive",
        "Vec<SamplingMessageContentBlock>" => "SamplingMessageContentBlock",
        "Vec<String>" => "StringArray",
        "JsonObject" => "Variant0",
        "Vec<JsonValue>" => "Variant1",
        "JsonValueVariant2" => "Variant2",
        s => s,
    }
}

pub fn into(e: &Env, c: &mut Ctx) {
    let (max, cap) = if c.thorough { (3, 4000) } else { (2, 600) };
    for f in &e.reg.froms {
        // messages to be sent have no document of their own: see the assembly and batch checks
        let Some(s) = schema_of(e, f.src) else { continue };
        if !c.mine() {
            continue;
        }
        let key = format!("{} into {}", f.src, f.dst);
        let body = |c: &mut Ctx, d: Value, el: Vec<String>| {
            if !c.state(&key, &d.to_string()) {
                return;
            }
            c.transitions += 1;
            let case = || json!({"operation": key, "document": d});
            let got = match guard(|| (f.f)(&d)) {
                Ok(Ok(v)) => v,
                Ok(Err(x)) => {
                    c.ran("refused");
                    c.fail(format!("{key}: refused"), case(), x);
                    return;
                }
                Err(x) => {
                    c.ran("panicked");
                    c.fail(format!("{key}: panics"), case(), x);
                    return;
                }
            };
            c.ran("converted");
            let mut el = el;
            let want = match f.dst {
                "CustomRequest" => {
                    let mut w = json!({"method": d["method"]});
                    if let Some(p) = d.get("params") {
                        w["params"] = p.clone();
                    }
                    w
                }
                "RpcError" if d.get("error").is_some() => {
                    el = el.iter().filter_map(|p| p.strip_prefix("/error").map(|s| s.to_string())).collect();
                    d["error"].clone()
                }
                // the older versions keep typed notifications without the envelope
                x if x.ends_with("JsonrpcNotification") && d.get("jsonrpc").is_none() => {
                    let mut w = d.clone();
                    w["jsonrpc"] = json!("2.0");
                    w
                }
                // from here on only the payload counts, the envelope is gone
                x if x.starts_with("RequestFrom") || x.starts_with("NotificationFrom") => {
                    if e.p.family == Family::Old {
                        d.clone()
                    } else {
                        el.push(String::new());
                        el = el.iter().filter_map(|p| p.strip_prefix("/params").map(|s| s.to_string())).collect();
                        d.get("params").cloned().unwrap_or(Value::Null)
                    }
                }
                _ => d.clone(),
            };
            // custom messages keep their method next to the params
            let custom = got.get("method").is_some() && want.get("method").is_none() && f.dst.contains("From");
            if !custom {
                if let Some(x) = diff_but(&want, &got, &el) {
                    c.fail(format!("{key}: content changed"), case(), x);
                }
            }
            if let Some(var) = f.var {
                let v = guard(|| var(&d)).and_then(|r| r).unwrap_or_default();
                let own = e.reg.variants.iter().find(|x| x.ty == f.src).and_then(|x| (x.f)(&d).ok()).unwrap_or_default();
                let ok = match f.src {
                    "Value" => v.starts_with("Custom"),
                    "RpcError" => v == "Error",
                    s if s.starts_with("JsonrpcBatch") || s == "JsonrpcResultResponse" => v == s[7..],
                    s if f.dst.ends_with("Messages") => v == if s.starts_with("Vec") { "Batch".into() } else { format!("Single/{own}") },
                    s if s.starts_with("Jsonrpc") => {
                        ["Request", "Notification", "Error", "Response"].iter().any(|k| s[7..].contains(k) && v.starts_with(k)) && !(s == "JsonrpcErrorResponse" && v.starts_with("Response"))
                    }
                    s if f.dst.ends_with("Message") => v == format!("{}/{own}", &s[13..]),
                    s if s.ends_with("JsonrpcRequest") || s.ends_with("JsonrpcNotification") => {
                        let (a, b) = (v.split('/').next().unwrap_or(""), own.split('/').next().unwrap_or("?"));
                        a == b || own.split('/').any(|o| o == a) || (a.starts_with("Custom") && own.contains("Custom"))
                    }
                    "ClientTaskResult" => v == own,
                    s => v.split('/').any(|x| x == arm(s)) && (own.is_empty() || v.ends_with(&own)),
                };
                c.expect(ok, format!("{key}: becomes {v}"), case, || v.clone());
            }
            c.sample(case());
        };
        for full in [false, true] {
            let mk = |ch: &mut Ch| {
                let mut g = Gen::new(&e.m, full);
                g.max_depth = 7;
                let d = g.at(ch, &s, f.src);
                (d, g.elidable)
            };
            c.explore_fit(
                &key,
                0,
                max,
                cap,
                &mut |c, ch| {
                    let (d, el) = mk(ch);
                    body(c, d, el)
                },
                &mut |ch| {
                    mk(ch);
                },
            );
        }
        c.rich(&e.m, &key, &s, if c.thorough { 6000 } else { 1500 }, &mut |c, d, g, _| body(c, d, g.elidable.clone()));
    }
}

/// every variant path of a container that values can be made of, with the type of the payload
fn paths(e: &Env, ty: &str) -> Vec<(Vec<&'static str>, String)> {
    let mut v = vec![];
    for (a, t) in gen::variants(ty) {
        let inner = gen::variants(t);
        if inner.is_empty() {
            v.push((vec![*a], t.to_string()));
        } else {
            for (p, t) in paths(e, t) {
                let mut q = vec![*a];
                q.extend(p);
                v.push((q, t));
            }
        }
    }
    v
}

pub fn extract(e: &Env, c: &mut Ctx) {
    let (max, cap) = if c.thorough { (2, 800) } else { (2, 300) };
    let mut srcs: Vec<&str> = e.reg.try_froms.iter().map(|t| t.src).collect();
    srcs.dedup();
    srcs.sort();
    srcs.dedup();
    for src in srcs {
        for (path, ty) in paths(e, src) {
            if !c.mine() {
                continue;
            }
            let ty = ty.trim_start_matches("Option<").trim_end_matches('>').to_string();
            let s = schema_of(e, &ty);
            let Some(s) = s else {
                continue;
            };
            let body = |c: &mut Ctx, d: Value, el: Vec<String>| {
                for t in e.reg.try_froms.iter().filter(|t| t.src == src) {
                    let key = format!("{} out of {src} holding {}", t.dst, path.join("/"));
                    if !c.state(&key, &d.to_string()) {
                        continue;
                    }
                    c.transitions += 1;
                    let case = || json!({"operation": key, "document": d});
                    let held = match (&path[..], t.dst) {
                        (p, "ClientTaskResult") => ["ElicitResult", "CreateMessageResult"].contains(p.last().unwrap()) || p.contains(&"ClientTaskResult"),
                        // a task's payload is any result
                        (p, "Result") => p.contains(&"Result") || p.contains(&"GetTaskPayloadResult"),
                        (p, x) => p.contains(&x),
                    };
                    match guard(|| (t.f)(&path, &d)) {
                        Err(x) => {
                            c.ran("panicked");
                            c.fail(format!("{key}: panics"), case(), x)
                        }
                        Ok(Err(x)) => {
                            c.ran("refused");
                            c.fail(format!("{key}: payload refused"), case(), x)
                        }
                        Ok(Ok(Ok(v))) => {
                            c.ran("taken out");
                            if c.expect(held, format!("{key}: succeeds"), case, || v.to_string()) {
                                if let Some(x) = diff_but(&d, &v, &el) {
                                    c.fail(format!("{key}: content changed"), case(), x);
                                }
                            }
                        }
                        Ok(Ok(Err(er))) => {
                            c.ran("another kind");
                            c.expect(!held, format!("{key}: fails"), case, || er.to_string());
                            c.expect(er["code"] == json!(-32603), format!("{key}: error code"), case, || er.to_string());
                        }
                    }
                    c.sample(case());
                }
            };
            for full in [false, true] {
                let mk = |ch: &mut Ch| {
                    let mut g = Gen::new(&e.m, full);
                    g.max_depth = 6;
                    g.scalars = false;
                    let d = g.at(ch, &s, &ty);
                    (d, g.elidable)
                };
                c.explore_fit(
                    &format!("{src} {}", path.join("/")),
                    0,
                    max,
                    cap,
                    &mut |c, ch| {
                        let (d, el) = mk(ch);
                        body(c, d, el)
                    },
                    &mut |ch| {
                        mk(ch);
                    },
                );
            }
            c.rich(&e.m, &ty, &s, if c.thorough { 4000 } else { 600 }, &mut |c, d, g, _| body(c, d, g.elidable.clone()));
        }
    }
    // content blocks: named accessors
    let block = ["ContentBlock", "CallToolResultContentItem"].into_iter().find(|b| e.m.has(b)).unwrap_or("CallToolResultContentItem");
    if c.mine() {
        let kinds = [
            ("text", "TextContent"),
            ("image", "ImageContent"),
            ("audio", "AudioContent"),
            ("resource_link", "ResourceLink"),
            ("resource", "EmbeddedResource"),
        ];
        for (tag, ty) in kinds {
            if !e.m.has(ty) {
                continue;
            }
            for full in [false, true] {
                c.explore_fit(
                    ty,
                    1,
                    if c.thorough { 3 } else { 2 },
                    2000,
                    &mut |c, ch| {
                        let mut g = Gen::new(&e.m, full);
                        let d = g.ty(ch, ty);
                        if !c.state(block, &d.to_string()) {
                            return;
                        }
                        c.transitions += 1;
                        c.ran("accessors");
                        let case = || json!({"content block": d});
                        match guard(|| hand::block(&d)) {
                            Ok(Ok(o)) => {
                                c.expect(o["type"] == json!(tag), format!("{block} {ty}: content type"), case, || o["type"].to_string());
                                for (k, x) in o["as"].as_object().unwrap() {
                                    if k == ty {
                                        let x = x.get("ok").cloned().unwrap_or(Value::Null);
                                        if let Some(x) = diff_but(&d, &x, &g.elidable) {
                                            c.fail(format!("{block} {ty}: as {k}"), case(), x);
                                        }
                                    } else {
                                        c.expect(x["err"]["code"] == json!(-32603), format!("{block} {ty}: as {k} does not fail with an internal error"), case, || {
                                            x.to_string()
                                        });
                                    }
                                }
                            }
                            x => c.fail(format!("{block} {ty}: refused"), case(), format!("{x:?}")),
                        }
                    },
                    &mut |ch| {
                        Gen::new(&e.m, full).ty(ch, ty);
                    },
                );
            }
        }
    }
}
