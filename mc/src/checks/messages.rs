//! Checks on JSON-RPC messages: dispatch to typed or custom messages, classification, results, batches, text.
use crate::{env::Env, hand};
use mccore::{ctx::*, explore::*, model::*, proto::Family};
use serde_json::{json, Value};
use std::rc::Rc;

pub struct Expect {
    pub kind: &'static str,
    /// the type that carries it, or "Custom"
    pub name: String,
    pub id: Value,
    pub method: Value,
}

pub struct Tables {
    pub client: bool,
    /// (type, method, schema of the envelope)
    pub reqs: Vec<(String, String, Rc<S>)>,
    pub nots: Vec<(String, String, Rc<S>)>,
    pub res: Vec<(String, Rc<S>)>,
    pub error: Rc<S>,
    pub id: Rc<S>,
}
impl Tables {
    pub fn new(e: &Env, client: bool) -> Tables {
        let (r, n, s) = if client {
            (&e.p.client_req, &e.p.client_not, &e.p.client_res)
        } else {
            (&e.p.server_req, &e.p.server_not, &e.p.server_res)
        };
        let env = |t: &String, id: bool| (t.clone(), e.p.method(&e.m, t), e.m.compile(&e.p.envelope(&e.m, t, id)));
        Tables {
            client,
            reqs: r.iter().map(|t| env(t, true)).collect(),
            nots: n.iter().map(|t| env(t, false)).collect(),
            res: s.iter().map(|t| (t.clone(), e.m.ty(t))).collect(),
            error: e.m.ty(e.p.error),
            id: e.m.ty("RequestId"),
        }
    }
    fn side(&self) -> &'static str {
        if self.client {
            "client"
        } else {
            "server"
        }
    }
    /// the result type a response's result is read as; None: refused
    pub fn result(&self, e: &Env, r: &Value) -> Option<String> {
        let mut r = r.clone();
        if e.p.family == Family::New && !self.client {
            // the specification: a result without a discriminator is complete
            let o = r.as_object_mut()?;
            match o.get("resultType") {
                Some(Value::String(s)) if s == "input_required" => {
                    return if e.m.valid(&e.m.ty("InputRequiredResult"), &r) {
                        Some("InputRequiredResult".into())
                    } else {
                        None
                    };
                }
                Some(Value::String(_)) => {}
                _ => {
                    o.insert("resultType".into(), json!("complete"));
                }
            }
            return self.res.iter().filter(|t| t.0 != "InputRequiredResult").find(|t| e.m.valid(&t.1, &r)).map(|t| t.0.clone());
        }
        let hit = self.res.iter().find(|t| e.m.valid(&t.1, &r)).map(|t| t.0.clone());
        // the older versions read anything else as a custom result
        hit.or(if e.p.family == Family::Old { Some("Custom".into()) } else { None })
    }
    /// what the protocol says a document is; None: not a message
    pub fn classify(&self, e: &Env, d: &Value) -> Option<Expect> {
        let o = d.as_object()?;
        if o.get("jsonrpc") != Some(&json!("2.0")) {
            return None;
        }
        let id = o.get("id").cloned();
        let id_ok = id.as_ref().map(|i| e.m.valid(&self.id, i)).unwrap_or(false);
        let known = |k: &str, allowed: &[&str]| o.contains_key(k) && !o.keys().any(|x| ["method", "result", "error", "params"].contains(&x.as_str()) && !allowed.contains(&x.as_str()));
        if known("error", &["error"]) {
            let ok = match &id {
                None | Some(Value::Null) => e.p.family != Family::Old,
                _ => id_ok,
            };
            let mut probe = d.clone();
            probe["id"] = json!(1);
            return if ok && e.m.valid(&self.error, &probe) {
                Some(Expect {
                    kind: "Error",
                    name: "Error".into(),
                    id: id.unwrap_or(Value::Null),
                    method: Value::Null,
                })
            } else {
                None
            };
        }
        if known("result", &["result"]) {
            return if id_ok {
                self.result(e, &o["result"]).map(|n| Expect {
                    kind: "Response",
                    name: n,
                    id: id.unwrap(),
                    method: Value::Null,
                })
            } else {
                None
            };
        }
        if known("method", &["method", "params"]) {
            let method = o["method"].as_str()?;
            let p = o.get("params");
            let custom_ok = e.p.family == Family::Old || p.map(|p| p.is_object() || p.is_null()).unwrap_or(true);
            let (kind, table) = match id {
                Some(_) if id_ok => ("Request", &self.reqs),
                Some(_) => return None,
                None => ("Notification", &self.nots),
            };
            let name = match table.iter().find(|t| t.1 == method && e.m.valid(&t.2, d)) {
                Some(t) => t.0.clone(),
                None if custom_ok => "Custom".into(),
                None => return None,
            };
            return Some(Expect {
                kind,
                name,
                id: id.unwrap_or(Value::Null),
                method: json!(method),
            });
        }
        None
    }
}

pub fn ids() -> Vec<Value> {
    vec![
        json!(0),
        json!(""),
        json!("req-é\"7"),
        json!("7"),
        json!(-1),
        json!(i64::MAX),
        json!(i64::MIN),
        json!(null),
        json!(1.5),
        json!(true),
        json!({}),
        json!(["a"]),
    ]
}

/// ids of unusual length and size
pub fn more_ids() -> Vec<Value> {
    let mut l: Vec<Value> = MORE_STRINGS.iter().map(|s| json!(s)).collect();
    for n in [31, 64, 256, 1025, 70000] {
        l.push(json!("0123456789".chars().cycle().take(n).collect::<String>()));
    }
    for i in [
        1i64,
        255,
        256,
        65536,
        2147483647,
        2147483648,
        4294967296,
        9007199254740993,
        -2147483649,
        -9007199254740993,
        -32600,
        i64::MAX - 1,
    ] {
        l.push(json!(i));
        l.push(json!(i.to_string()));
    }
    l
}

/// documents derived from a conforming message: (document, is it still elidable-clean)
fn neighbours(e: &Env, good: &Value, sites: &[Site], client: bool) -> Vec<Value> {
    let mut v = vec![good.clone()];
    for s in sites {
        // a server request without the marker is accepted by the newest versions
        if e.p.family == Family::New && !client && s.ptr == ["jsonrpc"] && s.put.is_none() {
            continue;
        }
        v.push(s.apply(good));
    }
    for i in ids() {
        let mut d = good.clone();
        d["id"] = i;
        v.push(d);
    }
    let mut d = good.clone();
    d.as_object_mut().unwrap().remove("id");
    v.push(d);
    v
}

fn last(v: &Value) -> String {
    let s = v.as_str().unwrap_or("?").rsplit('/').next().unwrap_or("?");
    if s.starts_with("Custom") {
        "Custom".into()
    } else {
        s.to_string()
    }
}

const KINDS: [&str; 4] = ["Request", "Response", "Notification", "Error"];

/// what is asked of one document; `whole`: the schema knows all its members
pub fn judge(e: &Env, c: &mut Ctx, t: &Tables, d: &Value, elidable: &[String], dispatch: bool, whole: bool) {
    let side = t.side();
    let text = d.to_string();
    if !c.state(side, &text) {
        return;
    }
    c.transitions += 1;
    let want = t.classify(e, d);
    let got = guard(|| hand::message(t.client, d));
    let got_str = guard(|| hand::message_str(t.client, &text));
    let other = rewritten(d);
    let again = guard(|| hand::message_str(t.client, &other));
    let case = |w: &str| json!({"side": side, "document": d, "check": w});
    let (got, got_str) = match (got, got_str) {
        (Ok(a), Ok(b)) => (a, b),
        (a, b) => {
            c.ran("panicked");
            c.fail(format!("{side}: reading panics"), case("no panic"), format!("{:?} {:?}", a.err(), b.err()));
            return;
        }
    };
    let alike = match (&again, &got_str) {
        (Ok(Ok(x)), Ok(y)) => x == y,
        (Ok(Err(_)), Err(_)) => true,
        _ => false,
    };
    c.expect(
        alike,
        format!("{side}: the same document written otherwise is read differently"),
        || json!({"side": side, "document": d, "check": "text", "text": other}),
        || format!("{:?}", again.as_ref().map(|r| r.is_ok())),
    );
    let (want, got, got_str) = match (want, got, got_str) {
        (None, Err(_), Err(_)) => {
            c.ran("refused, as required");
            return;
        }
        (None, a, b) => {
            let g = a.ok().or(b.ok()).unwrap();
            // named by what makes the document unacceptable
            let why = if d.get("jsonrpc") != Some(&json!("2.0")) {
                "a message of another JSON-RPC version"
            } else if d.get("method").is_some() && d.get("id").map(|i| !e.m.valid(&t.id, i)).unwrap_or(false) && d.get("result").is_none() && d.get("error").is_none() {
                "a request whose id is no request id"
            } else {
                "a document that is no message"
            };
            let kind = g["variant"].as_str().unwrap_or("").split('/').next().unwrap_or("").to_string();
            c.ran("accepted");
            if dispatch {
                return;
            }
            c.fail(format!("{side}: {why} is read as {kind}"), case("refused"), g["variant"].to_string());
            return;
        }
        (Some(w), Ok(a), Ok(b)) => (w, a, b),
        (Some(w), a, b) => {
            c.ran("refused");
            c.fail(format!("{side}: {}/{} refused", w.kind, w.name), case("accepted"), format!("value: {:?} text: {:?}", a.err(), b.err()));
            return;
        }
    };
    c.ran(w_kind(&want));
    let what = format!("{side} {}/{}", want.kind, want.name);
    let kind = got["variant"].as_str().unwrap_or("").split('/').next().unwrap_or("").to_string();
    if dispatch {
        if kind == want.kind {
            c.expect(
                last(&got["variant"]) == want.name,
                format!("{what}: read as {}", last(&got["variant"])),
                || case("dispatch"),
                || format!("read as {}", got["variant"]),
            );
        }
        c.expect(
            got["variant"] == got_str["variant"],
            format!("{what}: text and value are read differently"),
            || case("text"),
            || format!("{} / {}", got["variant"], got_str["variant"]),
        );
        let mut el: Vec<String> = elidable.to_vec();
        if d.get("params").map(|p| p.is_null()).unwrap_or(false) {
            el.push("/params".into());
        }
        if d.get("id").map(|p| p.is_null()).unwrap_or(false) {
            el.push("/id".into());
        }
        // a result without the discriminator gets it written out
        let mut expect = d.clone();
        if e.p.family == Family::New && !t.client && want.kind == "Response" && !expect["result"]["resultType"].is_string() {
            expect["result"]["resultType"] = json!("complete");
        }
        for (how, g) in [("value", &got), ("text", &got_str)] {
            if !whole && want.name != "Custom" {
                continue;
            }
            if let Some(x) = diff_but(&expect, &g["emit"], &el) {
                // known: the older versions put the whole custom message into its own params
                let mut nested = d.clone();
                nested["params"] = json!({"method": d["method"], "params": d["params"]});
                let key = if want.name == "Custom" && e.p.family == Family::Old && same(&nested, &g["emit"]) {
                    format!("{side} {}: custom params are nested in themselves", want.kind)
                } else {
                    format!("{what}: content changed")
                };
                c.fail(key, case(how), x);
            }
        }
    } else {
        c.expect(kind == want.kind, format!("{what}: taken for {kind}"), || case("kind"), || got["variant"].to_string());
        for (k, f) in [("Request", "request"), ("Response", "response"), ("Notification", "notification"), ("Error", "error")] {
            let is = got["is"][f] == json!(true);
            c.expect(is == (k == want.kind), format!("{what}: is_{f} is {is}"), || case("predicate"), || got["is"].to_string());
            let ti = got["type_is"][f] == json!(true);
            c.expect(
                ti == (k == want.kind),
                format!("{what}: message_type equals {k} is {ti}"),
                || case("message type"),
                || got["type_is"].to_string(),
            );
            let a = &got["as"][f];
            if k == want.kind {
                c.expect(
                    a.get("ok").map(|x| same(x, &got["emit"])).unwrap_or(false),
                    format!("{what}: as_{f} does not give the message"),
                    || case("as"),
                    || a.to_string(),
                );
            } else {
                let ok = a["err"]["code"] == json!(-32603)
                    && a["err"]["message"]
                        .as_str()
                        .map(|m| m.contains(&format!("\"{k}\"")) && m.contains(&format!("\"{}\"", want.kind)))
                        .unwrap_or(false);
                c.expect(ok, format!("{what}: as_{f} does not fail with an internal error naming both kinds"), || case("as"), || a.to_string());
            }
        }
        c.expect(
            got["type"] == json!(want.kind) && KINDS.contains(&want.kind),
            format!("{what}: message_type"),
            || case("message type"),
            || got["type"].to_string(),
        );
        c.expect(
            got["id"] == want.id,
            format!("{what}: request_id"),
            || case("request_id"),
            || format!("{} instead of {}", got["id"], want.id),
        );
        c.expect(got["jsonrpc"] == json!("2.0"), format!("{what}: jsonrpc"), || case("jsonrpc"), || got["jsonrpc"].to_string());
        if e.p.family != Family::Old {
            c.expect(
                got["method"] == want.method,
                format!("{what}: method"),
                || case("method"),
                || format!("{} instead of {}", got["method"], want.method),
            );
        }
        let i = &got["inner"];
        for f in ["method", "method again"] {
            if let Some(m) = i.get(f) {
                c.expect(*m == want.method, format!("{what}: inner {f}"), || case("inner method"), || format!("{m} instead of {}", want.method));
            }
        }
        if let Some(x) = i.get("id") {
            c.expect(*x == want.id, format!("{what}: inner id"), || case("inner id"), || x.to_string());
        }
        c.expect(i["jsonrpc"] == json!("2.0"), format!("{what}: inner jsonrpc"), || case("inner jsonrpc"), || i.to_string());
        if let Some(w) = i.get("wrapped") {
            c.expect(*w == got["variant"], format!("{what}: wrapping the inner message changes it"), || case("wrapped"), || w.to_string());
        }
        if t.client {
            let init = want.kind == "Request" && want.name == "InitializeRequest";
            let inited = want.kind == "Notification" && want.name == "InitializedNotification";
            c.expect(
                got["initialize"] == json!(init),
                format!("{what}: is_initialize_request"),
                || case("initialize"),
                || got["initialize"].to_string(),
            );
            c.expect(
                got["initialized"] == json!(inited),
                format!("{what}: is_initialized_notification"),
                || case("initialized"),
                || got["initialized"].to_string(),
            );
        }
        if matches!(want.kind, "Request" | "Notification") && want.name != "Custom" {
            match guard(|| hand::plain(t.client, want.kind == "Request", d)) {
                Ok(None) => {}
                Ok(Some(Ok(p))) => {
                    c.expect(
                        p["method"] == want.method,
                        format!("{what}: method of the plain message"),
                        || case("plain method"),
                        || p["method"].to_string(),
                    );
                    c.expect(
                        p["variant"] == json!(want.name),
                        format!("{what}: the plain message is read as {}", p["variant"]),
                        || case("plain variant"),
                        || p["variant"].to_string(),
                    );
                    c.expect(
                        p["id"].is_null() || p["id"] == want.id,
                        format!("{what}: request_id of the plain message"),
                        || case("plain id"),
                        || p["id"].to_string(),
                    );
                }
                Ok(Some(Err(x))) | Err(x) => c.fail(format!("{what}: refused as plain message"), case("plain"), x),
            }
        }
        if let Some(tk) = i.get("task") {
            let wt = match want.name.as_str() {
                "CallToolRequest" | "CreateMessageRequest" | "ElicitRequest" => d["params"].get("task").is_some(),
                _ => false,
            };
            c.expect(*tk == json!(wt), format!("{what}: is_task_augmented is {tk}"), || case("task"), || tk.to_string());
        }
        for x in [&got["display"], &i["display"]] {
            if let Some(s) = x.as_str() {
                let p: Option<Value> = serde_json::from_str(s).ok();
                c.expect(
                    p.as_ref().map(|p| same(p, &got["emit"])).unwrap_or(false),
                    format!("{what}: the displayed text is not the message"),
                    || case("display"),
                    || s.to_string(),
                );
            }
        }
        let mut a = got.clone();
        for k in ["initialize", "initialized"] {
            a.as_object_mut().unwrap().remove(k);
        }
        c.expect(
            a == got_str,
            format!("{what}: text and value are read differently"),
            || case("text"),
            || diff(&a, &got_str).unwrap_or_default(),
        );
    }
    c.sample(json!({"side": side, "document": d, "kind": want.kind, "read as": want.name}));
}
fn w_kind(w: &Expect) -> &'static str {
    match (w.kind, w.name == "Custom") {
        ("Request", false) => "typed request",
        ("Request", true) => "custom request",
        ("Notification", false) => "typed notification",
        ("Notification", true) => "custom notification",
        ("Response", _) => "response",
        _ => "error",
    }
}

/// C04/C05: every message document in the bounded space is what the protocol says it is
pub fn messages(e: &Env, c: &mut Ctx, dispatch: bool) {
    let (max, cap) = match (c.thorough, dispatch) {
        (true, _) => (2, 250),
        (false, true) => (1, 14),
        (false, false) => (0, 1),
    };
    for client in [true, false] {
        let t = Tables::new(e, client);
        let other = Tables::new(e, !client);
        // typed requests and notifications, damaged in every single way
        for (name, _, s) in t.reqs.iter().chain(&t.nots) {
            if !c.mine() {
                continue;
            }
            for full in [false, true] {
                let mk = |ch: &mut Ch| {
                    let mut g = Gen::new(&e.m, full);
                    g.scalars = false;
                    g.max_depth = 7;
                    g.record = true;
                    let d = g.at(ch, s, name);
                    (d, g)
                };
                c.explore_fit(
                    name,
                    0,
                    max,
                    cap,
                    &mut |c, ch| {
                        let (d, g) = mk(ch);
                        let el = g.elidable.clone();
                        for d in neighbours(e, &d, &g.sites, client) {
                            judge(e, c, &t, &d, &el, dispatch, true);
                        }
                    },
                    &mut |ch| {
                        mk(ch);
                    },
                );
            }
            if dispatch {
                let cap = if c.thorough { 5000 } else { 400 };
                c.rich(&e.m, name, s, cap, &mut |c, d, g, _| judge(e, c, &t, &d, &g.elidable, dispatch, true));
            } else {
                let mut d = Gen::new(&e.m, false).at(&mut Ch::replay(vec![]), s, name);
                for i in more_ids() {
                    d["id"] = i;
                    judge(e, c, &t, &d, &[], dispatch, true);
                }
            }
        }
        // methods of nobody, of the other side, and near misses; with and without id and params
        let mut methods: Vec<String> = vec![
            "".into(),
            "x".into(),
            "custom/do-it".into(),
            "méthode \"q\"".into(),
            "initialize".into(),
            "tasks/get".into(),
            "ping".into(),
            "notifications/initialized".into(),
        ];
        for (_, m, _) in other.reqs.iter().chain(&other.nots).chain(&t.reqs).chain(&t.nots) {
            methods.push(m.clone());
            methods.push(m.to_uppercase());
            methods.push(format!("{m} "));
            methods.push(format!("/{m}"));
            if dispatch {
                methods.extend(near_texts(m, c.thorough, &[]).iter().filter_map(|x| x.as_str().map(String::from)));
            }
        }
        methods.sort();
        methods.dedup();
        if c.mine() {
            let st = explore(usize::MAX, u64::MAX, &mut |ch| {
                let mut d = json!({"jsonrpc": "2.0", "method": methods[ch.free(methods.len())]});
                let params = [
                    None,
                    Some(json!({})),
                    Some(json!({"a": 1, "method": "m", "id": 3, "_meta": {"k": [1]}})),
                    Some(json!({"requestId": 1, "uri": "u", "name": "n", "level": "info"})),
                    Some(json!(5)),
                    Some(json!("p")),
                ];
                if let Some(p) = &params[ch.free(params.len())] {
                    d["params"] = p.clone();
                }
                let id = [None, Some(json!(1)), Some(json!("a")), Some(json!(null)), Some(json!(2.5))];
                if let Some(i) = &id[ch.free(id.len())] {
                    d["id"] = i.clone();
                }
                judge(e, c, &t, &d, &[], dispatch, false);
            });
            c.explored("methods", &st);
        }
        // errors and responses
        if c.mine() {
            let er = e.m.ty("RpcError");
            let st = explore(if c.thorough { 3 } else { 2 }, u64::MAX, &mut |ch| {
                let mut g = Gen::new(&e.m, true);
                g.record = true;
                let er = g.at(ch, &er, "error");
                for s in std::iter::once(None).chain(g.sites.iter().map(Some)) {
                    let er = match s {
                        None => er.clone(),
                        Some(s) => s.apply(&er),
                    };
                    for i in std::iter::once(None).chain(ids().into_iter().map(Some)) {
                        let mut d = json!({"jsonrpc": "2.0", "error": er});
                        if let Some(i) = i {
                            d["id"] = i;
                        }
                        let el: Vec<String> = g.elidable.iter().map(|p| format!("/error{p}")).collect();
                        judge(e, c, &t, &d, &el, dispatch, true);
                    }
                }
                for v in ["1.0", "", "2", "2.00"] {
                    judge(e, c, &t, &json!({"jsonrpc": v, "error": er, "id": 1}), &[], dispatch, true);
                }
            });
            c.explored("errors", &st);
            c.rich(&e.m, "error", &er, if c.thorough { 5000 } else { 1000 }, &mut |c, er, g, _| {
                let el: Vec<String> = g.elidable.iter().map(|p| format!("/error{p}")).collect();
                judge(e, c, &t, &json!({"jsonrpc": "2.0", "error": er, "id": "a"}), &el, dispatch, true);
                judge(e, c, &t, &json!({"jsonrpc": "2.0", "error": er}), &el, dispatch, true);
            });
            for i in more_ids() {
                judge(e, c, &t, &json!({"jsonrpc": "2.0", "error": {"code": -32000, "message": "m"}, "id": i}), &[], dispatch, true);
                judge(
                    e,
                    c,
                    &t,
                    &json!({"jsonrpc": "2.0", "result": if e.p.family == Family::New { json!({"resultType": "complete"}) } else { json!({}) }, "id": i}),
                    &[],
                    dispatch,
                    true,
                );
                judge(e, c, &t, &json!({"jsonrpc": "2.0", "method": "custom/m", "id": i}), &[], dispatch, false);
            }
        }
        for (name, s) in &t.res {
            if !c.mine() {
                continue;
            }
            let mk = |ch: &mut Ch, full: bool| {
                let mut g = Gen::new(&e.m, full);
                g.scalars = false;
                g.max_depth = 6;
                let r = g.at(ch, s, name);
                (r, g)
            };
            for full in [false, true] {
                c.explore_fit(
                    name,
                    0,
                    max,
                    cap,
                    &mut |c, ch| {
                        let (r, g) = mk(ch, full);
                        let el: Vec<String> = g.elidable.iter().map(|p| format!("/result{p}")).collect();
                        for i in std::iter::once(None).chain(ids().into_iter().map(Some)) {
                            let mut d = json!({"jsonrpc": "2.0", "result": r});
                            if let Some(i) = i {
                                d["id"] = i;
                            }
                            judge(e, c, &t, &d, &el, dispatch, true);
                        }
                        for v in ["1.0", "", "2"] {
                            judge(e, c, &t, &json!({"jsonrpc": v, "result": r, "id": 1}), &[], dispatch, true);
                        }
                        judge(e, c, &t, &json!({"result": r, "id": 1}), &[], dispatch, true);
                    },
                    &mut |ch| {
                        mk(ch, full);
                    },
                );
            }
        }
        // not messages at all
        if c.mine() {
            for d in [
                json!(null),
                json!(1),
                json!("x"),
                json!([]),
                json!({}),
                json!({"jsonrpc": "2.0"}),
                json!({"jsonrpc": "2.0", "id": 1}),
                json!({"jsonrpc": "2.0", "id": 1, "params": {}}),
                json!({"id": 1, "params": {}}),
            ] {
                judge(e, c, &t, &d, &[], dispatch, true);
            }
        }
    }
}
