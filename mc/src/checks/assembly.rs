//! C07: composing messages from payloads, for every payload kind, request id and direction.
use super::messages::more_ids;
use crate::{env::Env, gen, hand};
use mccore::{ctx::*, explore::*, model::*, proto::Family};
use serde_json::{json, Value};
use std::rc::Rc;

pub struct Route {
    pub path: Vec<&'static str>,
    pub kind: &'static str,
    pub ty: String,
}
pub fn routes(client: bool) -> Vec<Route> {
    let side = if client { "Client" } else { "Server" };
    let mut v = vec![];
    for (top, top_ty) in gen::variants(&format!("MessageFrom{side}")) {
        let kind = match *top {
            "Error" => "Error",
            t if t.starts_with("Request") => "Request",
            t if t.starts_with("Notification") => "Notification",
            _ => "Response",
        };
        if kind == "Error" {
            v.push(Route {
                path: vec![top],
                kind,
                ty: "RpcError".into(),
            });
            continue;
        }
        for (a, a_ty) in gen::variants(top_ty) {
            let inner = gen::variants(a_ty);
            if inner.is_empty() {
                let ty = if a.starts_with("Custom") { "Custom" } else { a };
                v.push(Route {
                    path: vec![top, a],
                    kind,
                    ty: ty.into(),
                });
            }
            for (b, _) in inner {
                v.push(Route {
                    path: vec![top, a, b],
                    kind,
                    ty: b.to_string(),
                });
            }
        }
    }
    v
}

/// the payload schema of a route: params for requests and notifications of the newer versions, else the whole document.
/// None for "nothing" is added where the payload may be absent.
pub fn payload(e: &Env, r: &Route) -> (Option<Rc<S>>, bool) {
    if r.ty == "Custom" {
        return (None, false);
    }
    let direct = matches!(r.kind, "Request" | "Notification") && e.p.family != Family::Old;
    if direct {
        let p = e.m.props(&r.ty).into_iter().find(|p| p.0 == "params").unwrap_or_else(|| panic!("{} has no params", r.ty));
        return (Some(e.m.compile(&p.2)), !p.1);
    }
    (Some(e.m.ty(&r.ty)), false)
}

pub fn customs(e: &Env, kind: &str) -> Vec<Value> {
    let m = ["custom/do-it", "", "initialize", "tools/call", "é\""];
    let mut v = vec![];
    for m in m {
        v.push(json!({ "method": m }));
        v.push(json!({"method": m, "params": {}}));
        v.push(json!({"method": m, "params": {"a": [1, {"b": null}], "method": "x", "_meta": {"k": 1}}}));
        if e.p.family == Family::Old {
            v.push(json!({"method": m, "extra": 5, "params": [1, 2]}));
        }
    }
    if kind == "Response" {
        v.extend([json!(5), json!("x"), json!([1, {"a": 2}]), json!({"roots": 5})]);
    }
    v
}

pub fn expected(e: &Env, r: &Route, payload: &Value, id: Option<&Value>) -> Result<(Value, Value), &'static str> {
    let old = e.p.family == Family::Old;
    let mut d = json!({"jsonrpc": "2.0"});
    let mut method = Value::Null;
    match r.kind {
        "Request" | "Notification" => {
            if r.kind == "Request" {
                d["id"] = id.ok_or("request_id is None")?.clone();
            } else if id.is_some() {
                return Err("request_id expected to be None");
            }
            method = if r.ty == "Custom" { payload["method"].clone() } else { json!(e.p.method(&e.m, &r.ty)) };
            d["method"] = method.clone();
            let p = match (old, r.ty == "Custom") {
                // the older versions take the whole value as the params of a custom message
                (true, true) => Some(payload.clone()),
                (true, false) | (false, true) => payload.get("params").cloned(),
                (false, false) => Some(payload.clone()).filter(|p| !p.is_null()),
            };
            if let Some(p) = p {
                d["params"] = p;
            }
        }
        "Response" => {
            d["id"] = id.ok_or("request_id is None")?.clone();
            d["result"] = payload.clone();
        }
        _ => {
            if let Some(i) = id {
                d["id"] = i.clone();
            } else if old {
                return Err("request_id is None");
            }
            d["error"] = payload.clone();
        }
    }
    Ok((d, method))
}

pub fn ids() -> Vec<Option<Value>> {
    vec![
        None,
        Some(json!(0)),
        Some(json!("")),
        Some(json!("a-é")),
        Some(json!(i64::MIN)),
        Some(json!(i64::MAX)),
        Some(json!("0")),
    ]
}

pub fn assembly(e: &Env, c: &mut Ctx) {
    let (max, cap) = if c.thorough { (3, 6000) } else { (1, 60) };
    for client in [true, false] {
        let side = if client { "client" } else { "server" };
        for r in routes(client) {
            if !c.mine() {
                continue;
            }
            let (schema, optional) = payload(e, &r);
            match schema {
                None => {
                    for p in customs(e, r.kind) {
                        for id in ids() {
                            one(e, c, client, side, &r, &p, id.as_ref(), &[]);
                        }
                    }
                    for id in more_ids() {
                        one(e, c, client, side, &r, &json!({"method": "custom/m", "params": {"k": 1}}), Some(&id), &[]);
                    }
                    // every method of the protocol, awkward methods and params
                    let own = e
                        .m
                        .compile(&json!({"type": "object", "required": ["method", "params"], "properties": {"method": {"type": "string"}, "params": {"type": "object", "additionalProperties": {}}}}));
                    let id = json!("i");
                    let id = if r.kind == "Notification" { None } else { Some(&id) };
                    c.rich(&e.m, "custom", &own, 2000, &mut |c, p, g, _| one(e, c, client, side, &r, &p, id, &g.elidable));
                    for m in e.m.consts.clone() {
                        one(e, c, client, side, &r, &json!({"method": m, "params": {"uri": "u", "name": "n", "requestId": 1}}), id, &[]);
                    }
                }
                Some(s) => {
                    let id = json!("i");
                    let id = if r.kind == "Notification" { None } else { Some(&id) };
                    c.rich(&e.m, &r.ty, &s, if c.thorough { 8000 } else { 1500 }, &mut |c, p, g, _| {
                        one(e, c, client, side, &r, &p, id, &g.elidable)
                    });
                    let p = Gen::new(&e.m, false).at(&mut Ch::replay(vec![]), &s, &r.ty);
                    for id in more_ids() {
                        one(e, c, client, side, &r, &p, Some(&id), &[]);
                    }
                    for full in [false, true] {
                        let mut dry = |ch: &mut Ch| {
                            let mut g = Gen::new(&e.m, full);
                            g.max_depth = 6;
                            g.at(ch, &s, &r.ty);
                        };
                        c.explore_fit(
                            &format!("{side} {}", r.path.join("/")),
                            0,
                            max,
                            cap,
                            &mut |c, ch| {
                                let mut g = Gen::new(&e.m, full);
                                g.max_depth = 6;
                                let p = g.at(ch, &s, &r.ty);
                                for id in ids() {
                                    one(e, c, client, side, &r, &p, id.as_ref(), &g.elidable);
                                }
                            },
                            &mut dry,
                        );
                    }
                    if optional {
                        for id in ids() {
                            one(e, c, client, side, &r, &Value::Null, id.as_ref(), &[]);
                        }
                    }
                }
            }
        }
        // the older versions also compose from every single request, notification and result type
        for (list, how) in [(&e.reg.from_message, "from_message"), (&e.reg.to_message, "to_message")] {
            for a in list.iter() {
                if a.dst != if client { "ClientMessage" } else { "ServerMessage" } || !e.m.has(a.src) || !c.mine() {
                    continue;
                }
                let kind = if a.src.ends_with("Request") {
                    "Request"
                } else if a.src.ends_with("Notification") {
                    "Notification"
                } else if a.src == "RpcError" {
                    "Error"
                } else if a.src.ends_with("Result") {
                    "Response"
                } else {
                    continue;
                };
                let r = Route {
                    path: vec![],
                    kind,
                    ty: a.src.to_string(),
                };
                for full in [false, true] {
                    c.explore_fit(
                        a.src,
                        0,
                        1,
                        cap,
                        &mut |c, ch| {
                            let mut g = Gen::new(&e.m, full);
                            g.max_depth = 6;
                            let p = g.ty(ch, a.src);
                            for id in ids() {
                                let want = expected(e, &r, &p, id.as_ref());
                                let key = format!("{how} {} {}", a.src, a.dst);
                                if !c.state(&key, &json!([p, id]).to_string()) {
                                    continue;
                                }
                                c.transitions += 1;
                                let case = json!({"operation": key, "payload": p, "id": id});
                                match (want, guard(|| (a.f)(&p, id.as_ref()))) {
                                    (_, Err(x)) => c.fail(format!("{key}: panics"), case, x),
                                    (_, Ok(Err(x))) => c.fail(format!("{key}: payload refused"), case, x),
                                    (Err(why), Ok(Ok(Err(er)))) => {
                                        c.ran("refused");
                                        let ok = er["code"] == json!(-32603) && er["message"].as_str().map(|m| m.contains(why)).unwrap_or(false);
                                        c.expect(ok, format!("{key}: wrong error"), || case.clone(), || er.to_string());
                                    }
                                    (Err(_), Ok(Ok(Ok(m)))) => c.fail(format!("{key}: composed against the id rule"), case, m.to_string()),
                                    (Ok(_), Ok(Ok(Err(er)))) => c.fail(format!("{key}: refused"), case, er.to_string()),
                                    (Ok((d, _)), Ok(Ok(Ok(m)))) => {
                                        c.ran("composed");
                                        let el: Vec<String> = g
                                            .elidable
                                            .iter()
                                            .map(|p| {
                                                if kind == "Response" {
                                                    format!("/result{p}")
                                                } else if kind == "Error" {
                                                    format!("/error{p}")
                                                } else {
                                                    p.clone()
                                                }
                                            })
                                            .collect();
                                        if let Some(x) = diff_but(&d, &m[1], &el) {
                                            c.fail(format!("{key}: composed message differs"), case.clone(), x);
                                        }
                                        let v = m[0].as_str().unwrap_or("");
                                        let ok = v.starts_with(kind) && (kind == "Error" || v.ends_with(&format!("/{}", r.ty)));
                                        c.expect(ok, format!("{key}: composed as {v}"), || case, || v.to_string());
                                    }
                                }
                            }
                        },
                        &mut |ch| {
                            let mut g = Gen::new(&e.m, full);
                            g.max_depth = 6;
                            g.ty(ch, a.src);
                        },
                    );
                }
            }
        }
    }
}

fn one(e: &Env, c: &mut Ctx, client: bool, side: &str, r: &Route, p: &Value, id: Option<&Value>, el: &[String]) {
    let what = format!("{side} {}/{}", r.kind, r.ty);
    if !c.state(&what, &json!([p, id]).to_string()) {
        return;
    }
    c.transitions += 1;
    let case = || json!({"side": side, "path": r.path, "payload": p, "id": id});
    let got = guard(|| if client { hand::outgoing_client(&r.path, p, id) } else { hand::outgoing_server(&r.path, p, id) });
    let extra = guard(|| hand::outgoing_extra(client, &r.path, p));
    let (got, extra) = match (got, extra) {
        (Ok(Ok(a)), Ok(Ok(b))) => (a, b),
        (Ok(Err(x)), _) | (_, Ok(Err(x))) => {
            c.ran("payload refused");
            c.fail(format!("{what}: payload refused"), case(), x);
            return;
        }
        (Err(x), _) | (_, Err(x)) => {
            c.ran("panicked");
            c.fail(format!("{what}: panics"), case(), x);
            return;
        }
    };
    let el: Vec<String> = el
        .iter()
        .map(|p| match (r.kind, e.p.family) {
            ("Response", _) => format!("/result{p}"),
            ("Error", _) => format!("/error{p}"),
            (_, Family::Old) => p.clone(),
            _ => format!("/params{p}"),
        })
        .collect();
    for (k, f) in [("Request", "request"), ("Response", "response"), ("Notification", "notification"), ("Error", "error")] {
        c.expect((got["is"][f] == json!(true)) == (k == r.kind), format!("{what}: outgoing is_{f}"), case, || got["is"].to_string());
    }
    c.expect(got["type"] == json!(r.kind), format!("{what}: outgoing message_type"), case, || got["type"].to_string());
    c.expect(got["wrapped"] == got["variant"], format!("{what}: wrapping changes the message"), case, || got["wrapped"].to_string());
    match (expected(e, r, p, id), got["from"].get("ok")) {
        (Err(why), None) => {
            c.ran("refused");
            let er = &got["from"]["err"];
            let ok = er["code"] == json!(-32603) && er["message"].as_str().map(|m| m.contains(why)).unwrap_or(false);
            c.expect(ok, format!("{what}: wrong error"), case, || er.to_string());
        }
        (Err(_), Some(m)) => {
            c.ran("composed");
            c.fail(format!("{what}: composed against the id rule"), case(), m.to_string());
        }
        (Ok(_), None) => {
            c.ran("refused");
            c.fail(format!("{what}: refused"), case(), got["from"].to_string());
        }
        (Ok((d, method)), Some(m)) => {
            c.ran("composed");
            if let Some(x) = diff_but(&d, m, &el) {
                c.fail(format!("{what}: composed message differs"), case(), x);
            }
            let v = got["from"]["variant"].as_str().unwrap_or("").to_string();
            let seg = v.rsplit('/').next().unwrap_or("").to_string();
            let ok = v.starts_with(r.kind) && (r.kind == "Error" || seg == r.ty || (r.ty == "Custom" && seg.starts_with("Custom")));
            c.expect(ok, format!("{what}: composed as {v}"), case, || v.clone());
            if let Some(n) = got.get("new") {
                if let Some(x) = diff_but(&d, n, &el) {
                    c.fail(format!("{what}: new() differs"), case(), x);
                }
            }
            if let Some(m) = got.get("method") {
                c.expect(*m == method, format!("{what}: method of the payload"), case, || format!("{m} instead of {method}"));
            }
            if let Some(b) = got.get("back") {
                let back = b["variant"].as_str().unwrap_or("").split('/').next().unwrap_or("");
                let ok = back == r.ty || (r.ty == "Custom" && back.starts_with("Custom"));
                c.expect(ok, format!("{what}: taken apart as {back}"), case, || b.to_string());
                c.expect(b["method"] == method, format!("{what}: method after taking apart"), case, || b.to_string());
                let inner: Vec<String> = el.iter().filter_map(|p| p.strip_prefix("/params").map(|s| s.to_string())).collect();
                if r.ty != "Custom" {
                    if let Some(x) = diff_but(p, &b["emit"], &inner) {
                        c.fail(format!("{what}: payload changed by the envelope"), case(), x);
                    }
                } else {
                    let mut q = p.clone();
                    if q.get("params").is_none() {
                        q["params"] = Value::Null;
                    }
                    if let Some(x) = diff_but(&q, &b["emit"], &["/params".into()]) {
                        c.fail(format!("{what}: payload changed by the envelope"), case(), x);
                    }
                }
            }
        }
    }
    let init = r.ty == "InitializeRequest";
    let inited = r.ty == "InitializedNotification";
    let task = matches!(r.ty.as_str(), "CreateMessageRequest" | "ElicitRequest" | "CallToolRequest") && r.kind == "Request" && p.get("task").is_some();
    for (k, w) in [
        ("initialize", init),
        ("initialized", inited),
        ("inner initialize", init),
        ("inner initialized", inited),
        ("task", task),
        ("inner task", task),
    ] {
        if let Some(x) = extra.get(k) {
            c.expect(*x == json!(w), format!("{what}: {k} is {x}"), case, || extra.to_string());
        }
    }
    c.sample(json!({"side": side, "compose": r.path, "payload": p, "id": id}));
}
