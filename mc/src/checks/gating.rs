//! C10/C11: capabilities accept a request or notification exactly when the feature it needs is declared.
#![cfg(any(feature = "v2025_11_25", feature = "v2026_07_28", feature = "vdraft"))]
use crate::{env::Env, hand::gate::Requests};
use mccore::{ctx::*, explore::*, model::*, proto::Family};
use serde_json::{json, Value};

/// sets a member unless the choice is "absent"
fn put(o: &mut Value, k: &str, v: &Option<Value>) {
    if let Some(v) = v {
        o[k] = v.clone();
    }
}
fn one_of(ch: &mut Ch, o: &mut Value, k: &str, alts: &[Value]) {
    let n = ch.free(1 + alts.len());
    if n > 0 {
        put(o, k, &Some(alts[n - 1].clone()));
    }
}

fn server_caps(ch: &mut Ch, mid: bool, thorough: bool) -> Value {
    let mut o = json!({});
    let sub = |names: &[&str]| -> Vec<Value> {
        let mut v = vec![json!({})];
        for n in names {
            v.push(json!({ *n: true }));
            if thorough {
                v.push(json!({ *n: false }));
            }
        }
        v
    };
    one_of(ch, &mut o, "logging", &[json!({})]);
    one_of(ch, &mut o, "completions", &[json!({})]);
    one_of(ch, &mut o, "prompts", &sub(&["listChanged"]));
    one_of(ch, &mut o, "resources", &sub(&["subscribe", "listChanged"]));
    one_of(ch, &mut o, "tools", &sub(&["listChanged"]));
    if mid {
        if ch.free(2) == 1 {
            o["tasks"] = json!({});
            one_of(ch, &mut o["tasks"], "list", &[json!({})]);
            one_of(ch, &mut o["tasks"], "cancel", &[json!({})]);
            one_of(ch, &mut o["tasks"], "requests", &[json!({}), json!({"tools": {}}), json!({"tools": {"call": {}}})]);
        }
    } else {
        one_of(ch, &mut o, "extensions", &[json!({"a/b": {}})]);
    }
    if ch.free(2) == 1 {
        o["experimental"] = json!({"tools": {}, "prompts": {}, "tasks": {"list": {}}});
    }
    o
}

fn client_caps(ch: &mut Ch, mid: bool) -> Value {
    let mut o = json!({});
    one_of(ch, &mut o, "sampling", &[json!({}), json!({"context": {}}), json!({"tools": {}}), json!({"context": {}, "tools": {}})]);
    let roots = if mid {
        vec![json!({}), json!({"listChanged": true}), json!({"listChanged": false})]
    } else {
        vec![json!({})]
    };
    one_of(ch, &mut o, "roots", &roots);
    one_of(ch, &mut o, "elicitation", &[json!({}), json!({"form": {}}), json!({"url": {}}), json!({"form": {}, "url": {}})]);
    if mid && ch.free(2) == 1 {
        o["tasks"] = json!({});
        one_of(ch, &mut o["tasks"], "list", &[json!({})]);
        one_of(ch, &mut o["tasks"], "cancel", &[json!({})]);
        if ch.free(2) == 1 {
            o["tasks"]["requests"] = json!({});
            one_of(ch, &mut o["tasks"]["requests"], "sampling", &[json!({}), json!({"createMessage": {}})]);
            one_of(ch, &mut o["tasks"]["requests"], "elicitation", &[json!({}), json!({"create": {}})]);
        }
    }
    if ch.free(2) == 1 {
        o["experimental"] = json!({"sampling": {}, "roots": {}, "tasks": {"list": {}}});
    }
    o
}

/// the features a request needs that the capabilities do not declare
fn missing_server(c: &Value, method: &str, d: &Value, mid: bool) -> Vec<&'static str> {
    let no = |k: &str| c.get(k).is_none();
    let deep = |p: &str| c.pointer(p).is_some();
    let mut m = vec![];
    match method {
        "logging/setLevel" if no("logging") => m.push("logging"),
        "prompts/get" | "prompts/list" if no("prompts") => m.push("prompts"),
        "resources/list" | "resources/templates/list" | "resources/read" | "resources/subscribe" | "resources/unsubscribe" if no("resources") => m.push("resources"),
        "tools/call" | "tools/list" => {
            if no("tools") {
                m.push("tools");
            }
            if mid && method == "tools/call" && d["params"].get("task").is_some() && !deep("/tasks/requests/tools/call") {
                m.push("Task-augmented tool call");
            }
        }
        "completion/complete" if no("completions") => m.push("completions"),
        "tasks/get" | "tasks/result" if no("tasks") => m.push("task"),
        "tasks/list" if no("tasks") => m.push("task"),
        "tasks/list" if !deep("/tasks/list") => m.push("listing tasks"),
        "tasks/cancel" if no("tasks") => m.push("task"),
        "tasks/cancel" if !deep("/tasks/cancel") => m.push("task cancellation"),
        _ => {}
    }
    m
}
fn missing_client(c: &Value, method: &str, d: &Value, mid: bool) -> Vec<&'static str> {
    let no = |k: &str| c.get(k).is_none();
    let deep = |p: &str| c.pointer(p).is_some();
    let p = &d["params"];
    let task = mid && p.get("task").is_some();
    let mut m = vec![];
    match method {
        "sampling/createMessage" => {
            if no("sampling") {
                m.push(if mid { "sampling capability" } else { "sampling" });
            } else if mid {
                if ["thisServer", "allServers"].iter().any(|x| p.get("includeContext") == Some(&json!(x))) && !deep("/sampling/context") {
                    m.push("context inclusion");
                }
                if (p.get("toolChoice").is_some() || p["tools"].as_array().map(|t| !t.is_empty()).unwrap_or(false)) && !deep("/sampling/tools") {
                    m.push("tool choice");
                }
            }
            if task && !deep("/tasks/requests/sampling/createMessage") {
                m.push("sampling task");
            }
        }
        "roots/list" if no("roots") => m.push(if mid { "roots capability" } else { "roots" }),
        "elicitation/create" => {
            if no("elicitation") {
                m.push(if mid { "input elicitation" } else { "elicitation" });
            }
            if task && !deep("/tasks/requests/elicitation/create") {
                m.push("elicitation task");
            }
        }
        "tasks/get" | "tasks/result" if no("tasks") => m.push("Task"),
        "tasks/list" if no("tasks") => m.push("Task"),
        "tasks/list" if !deep("/tasks/list") => m.push("listing tasks"),
        "tasks/cancel" if no("tasks") => m.push("Task"),
        "tasks/cancel" if !deep("/tasks/cancel") => m.push("task cancellation"),
        _ => {}
    }
    m
}
fn notification(server: bool, mid: bool, c: &Value, method: &str) -> Vec<&'static str> {
    let no = |k: &str| c.get(k).is_none();
    match (server, method) {
        (true, "notifications/message") if no("logging") => vec!["logging"],
        (true, "notifications/resources/updated" | "notifications/resources/list_changed") if no("resources") => vec!["notifying about resources"],
        (true, "notifications/tools/list_changed") if no("tools") => vec!["notifying of tool list changes"],
        (true, "notifications/prompts/list_changed") if no("prompts") => vec!["notifying of prompt list changes"],
        (false, "notifications/roots/list_changed") if no("roots") && mid => vec!["roots list changed notifications"],
        _ => vec![],
    }
}

pub fn gating(e: &Env, c: &mut Ctx, server: bool) {
    let mid = e.p.family == Family::Mid;
    // requests that reach the gate: of every type in every form, and custom ones
    let mut docs: Vec<Value> = vec![];
    for t in if server { &e.p.client_req } else { &e.p.server_req } {
        let s = e.m.compile(&e.p.envelope(&e.m, t, true));
        for full in [false, true] {
            explore(if c.thorough { 2 } else { 1 }, u64::MAX, &mut |ch| {
                let mut g = Gen::new(&e.m, full);
                g.scalars = false;
                g.max_depth = 3;
                let d = g.at(ch, &s, t);
                if docs.len() < 4000 {
                    docs.push(d);
                }
            });
        }
        let base = {
            let mut g = Gen::new(&e.m, false);
            g.at(&mut Ch::replay(vec![]), &s, t)
        };
        if t == "CreateMessageRequest" {
            explore(usize::MAX, u64::MAX, &mut |ch| {
                let mut d = base.clone();
                one_of(ch, &mut d["params"], "includeContext", &[json!("none"), json!("thisServer"), json!("allServers")]);
                one_of(ch, &mut d["params"], "tools", &[json!([]), json!([{"name": "t", "inputSchema": {"type": "object"}}])]);
                one_of(ch, &mut d["params"], "toolChoice", &[json!({}), json!({"mode": "none"}), json!({"mode": "required"})]);
                if mid {
                    one_of(ch, &mut d["params"], "task", &[json!({}), json!({"ttl": 5})]);
                }
                docs.push(d);
            });
        }
        if mid && (t == "ElicitRequest" || t == "CallToolRequest") {
            for task in [json!({}), json!({"ttl": 5})] {
                let mut d = base.clone();
                d["params"]["task"] = task;
                docs.push(d);
            }
        }
    }
    for m in ["custom/do-it", "tasks", "tools/call/x", ""] {
        docs.push(json!({"jsonrpc": "2.0", "id": 1, "method": m}));
        docs.push(json!({"jsonrpc": "2.0", "id": 1, "method": m, "params": {"task": {}}}));
    }
    docs.sort_by_key(|d| d.to_string());
    docs.dedup();
    if !c.thorough {
        // every distinct demand once or twice is enough in the quick tier
        let mut seen = std::collections::HashMap::new();
        docs.retain(|d| {
            let p = &d["params"];
            let k = json!([
                d["method"],
                p.get("task"),
                p.get("includeContext"),
                p.get("tools").map(|t| t.as_array().map(|a| a.len())),
                p.get("toolChoice"),
                p.get("mode")
            ])
            .to_string();
            let n = seen.entry(k).or_insert(0);
            *n += 1;
            *n <= 2
        });
    }
    let reqs = match guard(|| Requests::new(server, &docs)) {
        Ok(Ok(r)) => r,
        x => {
            c.fail("a conforming request is refused", json!({}), format!("{:?}", x.map(|r| r.err())));
            return;
        }
    };
    let mut methods: Vec<String> = e.p.client_not.iter().chain(&e.p.server_not).map(|t| e.p.method(&e.m, t)).collect();
    methods.extend(["notifications/roots/list_changed", "notifications/x", "", "notifications/tools/list_changed ", "tools/list"].map(String::from));
    methods.sort();
    methods.dedup();
    let (entity, who) = if server { ("Server", "server") } else { ("Client", "client") };
    let thorough = c.thorough;
    let own: Vec<String> = if server { &e.p.client_req } else { &e.p.server_req }.iter().map(|t| e.p.method(&e.m, t)).collect();
    let run = |c: &mut Ctx, caps: &Value, docs: &[Value], reqs: &Requests, methods: &[String]| {
        let (rs, ns, flags) = match guard(|| if server { reqs.server(caps, methods) } else { reqs.client(caps, methods) }) {
            Ok(Ok(x)) => x,
            x => {
                c.fail(format!("{who} capabilities refused"), caps.clone(), format!("{:?}", x.map(|r| r.err())));
                return;
            }
        };
        let mut verdict = |c: &mut Ctx, method: &str, case: Value, want: Vec<&str>, got: &Option<Value>| {
            c.transitions += 1;
            match got {
                None => {
                    c.ran("accepted");
                    c.expect(want.is_empty(), format!("{who}: {method} accepted without {}", want.join(" and ")), || case, || "accepted".into());
                }
                Some(er) => {
                    c.ran("refused");
                    if c.expect(!want.is_empty(), format!("{who}: {method} refused"), || case.clone(), || er.to_string()) {
                        let ok = er["code"] == json!(-32603) && want.iter().any(|w| er["message"] == json!(format!("{entity} does not support {w} (required for {method})")));
                        c.expect(ok, format!("{who}: {method}: the refusal does not name the missing feature"), || case, || er.to_string());
                    }
                }
            }
        };
        for (d, r) in docs.iter().zip(&rs) {
            if !c.state(&caps.to_string(), &d.to_string()) {
                continue;
            }
            let m = d["method"].as_str().unwrap();
            let want = match own.iter().any(|o| o == m) {
                false => vec![],
                true if server => missing_server(caps, m, d, mid),
                true => missing_client(caps, m, d, mid),
            };
            verdict(c, m, json!({"capabilities": caps, "request": d}), want, r);
        }
        for (m, r) in methods.iter().zip(&ns) {
            if !c.state(&caps.to_string(), m) {
                continue;
            }
            verdict(c, m, json!({"capabilities": caps, "notification": m}), notification(server, mid, caps, m), r);
        }
        if let Some(o) = flags.as_object() {
            let mut want = |o: &serde_json::Map<String, Value>| {
                for (k, v) in o {
                    let p = match k.as_str() {
                        "list" => "/tasks/list",
                        "cancel" => "/tasks/cancel",
                        "tools" => "/tasks/requests/tools/call",
                        "elicitation" => "/tasks/requests/elicitation/create",
                        "sampling" => "/tasks/requests/sampling/createMessage",
                        _ => continue,
                    };
                    let w = caps.pointer(p).is_some();
                    c.expect(*v == json!(w), format!("{who}: task helper {k} says {v}"), || caps.clone(), || v.to_string());
                }
            };
            want(o);
            if let Some(t) = o.get("tasks").and_then(|t| t.as_object()) {
                want(t);
            }
        }
        c.sample(json!({"capabilities": caps, "requests": docs.len(), "notifications": methods.len()}));
    };
    let mut all: Vec<Value> = vec![];
    let st = explore(usize::MAX, u64::MAX, &mut |ch| {
        let caps = if server { server_caps(ch, mid, thorough) } else { client_caps(ch, mid) };
        if c.mine() {
            run(c, &caps, &docs, &reqs, &methods);
        }
        all.push(caps);
    });
    c.explored("capabilities", &st);
    // requests with many more values and names close to known ones, with everything, nothing, all but one feature, one feature
    let most = all.iter().max_by_key(|v| v.to_string().len()).unwrap().clone();
    let mut paths = vec![];
    fn walk(v: &Value, p: Vec<String>, out: &mut Vec<Vec<String>>) {
        for (k, x) in v.as_object().into_iter().flatten() {
            let mut q = p.clone();
            q.push(k.clone());
            out.push(q.clone());
            walk(x, q, out);
        }
    }
    walk(&most, vec![], &mut paths);
    let mut few = vec![json!({}), most.clone(), {
        // what the capabilities contain is not looked at
        let mut m = most.clone();
        m["experimental"] = (0..40).map(|i| (format!("e{i}"), json!({"v": i}))).collect::<serde_json::Map<_, _>>().into();
        m
    }];
    for p in &paths {
        let (last, up) = p.split_last().unwrap();
        let mut but = most.clone();
        up.iter().fold(&mut but, |v, k| &mut v[k]).as_object_mut().unwrap().remove(last);
        let mut only = json!({});
        let at = up.iter().fold(&mut only, |v, k| {
            v[k] = json!({});
            &mut v[k]
        });
        at[last] = match p.iter().try_fold(&most, |v, k| v.get(k)) {
            Some(Value::Object(_)) => json!({}),
            x => x.cloned().unwrap_or(Value::Null),
        };
        few.extend([but, only]);
    }
    few.dedup();
    let mut near: Vec<String> = methods.iter().flat_map(|m| near_texts(m, thorough, &[])).filter_map(|m| m.as_str().map(String::from)).collect();
    near.extend(rich_strings().iter().cloned());
    for t in if server { &e.p.client_req } else { &e.p.server_req } {
        if !c.mine() {
            continue;
        }
        let s = e.m.compile(&e.p.envelope(&e.m, t, true));
        let mut docs = vec![];
        c.rich(&e.m, t, &s, if thorough { 4000 } else { 400 }, &mut |_, d, _, _| docs.push(d));
        match guard(|| Requests::new(server, &docs)) {
            Ok(Ok(r)) => few.iter().for_each(|caps| run(c, caps, &docs, &r, &[])),
            x => c.fail("a conforming request is refused", json!({}), format!("{:?}", x.map(|r| r.err()))),
        }
    }
    // methods outside this side of the protocol: the other side's, other versions', and names close to known ones
    if c.mine() {
        let other: Vec<String> = if server { &e.p.server_req } else { &e.p.client_req }.iter().map(|t| e.p.method(&e.m, t)).collect();
        let mut names: Vec<String> = own.iter().flat_map(|m| near_texts(m, thorough, &[])).filter_map(|m| m.as_str().map(String::from)).collect();
        for m in own.iter().chain(&other).chain(&methods) {
            let (head, tail) = m.split_once('/').unwrap_or((m, ""));
            for n in [head, tail] {
                names.extend([n.to_string(), format!("{n}/pause"), format!("{n}/"), format!("x/{n}"), format!("{n}.list")]);
            }
            names.extend([format!("{m}/all"), format!("x/{m}"), m.to_string()]);
        }
        names.extend(
            "resources/subscribe resources/unsubscribe logging/setLevel tasks/get tasks/list tasks/cancel tasks/result tasks/update ping initialize server/discover subscriptions/listen tools/call tools/list prompts/get completion/complete sampling/createMessage roots/list elicitation/create elicitation/complete"
                .split(' ')
                .map(String::from),
        );
        names.extend(rich_strings().iter().cloned());
        names.sort();
        names.dedup();
        names.retain(|n| !own.contains(n));
        let docs: Vec<Value> = names
            .iter()
            .flat_map(|m| {
                [
                    json!({"jsonrpc": "2.0", "id": 1, "method": m}),
                    json!({"jsonrpc": "2.0", "id": "a", "method": m, "params": {"task": {"ttl": 1}, "mode": "url", "tools": [], "includeContext": "allServers"}}),
                ]
            })
            .collect();
        match guard(|| Requests::new(server, &docs)) {
            Ok(Ok(r)) => few.iter().for_each(|caps| run(c, caps, &docs, &r, &[])),
            x => c.fail("a custom request is refused", json!({}), format!("{:?}", x.map(|r| r.err()))),
        }
    }
    if c.mine() {
        near.retain(|m| !methods.contains(m));
        let none = Requests::new(server, &[]).unwrap();
        few.iter().for_each(|caps| run(c, caps, &[], &none, &near));
    }
}
