//! C21 input-required sessions, C22 request metadata, C23 task, tool and elicitation helpers.
use super::assembly::{payload, routes, Route};
#[cfg(any(feature = "v2026_07_28", feature = "vdraft"))]
use super::messages::more_ids;
use crate::{env::Env, hand};
use mccore::{ctx::*, explore::*, model::*};
use serde_json::{json, Value};

pub fn small(e: &Env, t: &str, full: bool) -> Value {
    let mut g = Gen::new(&e.m, full);
    g.scalars = false;
    g.max_depth = 6;
    g.ty(&mut Ch::replay(vec![]), t)
}

#[cfg(any(feature = "v2026_07_28", feature = "vdraft"))]
mod newest {
    use super::*;
    use hand::flow;

    fn requests() -> Vec<Route> {
        routes(true).into_iter().filter(|r| r.kind == "Request").collect()
    }
    /// the params a request is made of
    fn params(e: &Env, r: &Route, full: bool) -> Value {
        match payload(e, r).0 {
            None => json!({"method": "custom/do-it", "params": {"_meta": {"k": 1}, "inputResponses": 5}}),
            Some(s) => {
                let mut g = Gen::new(&e.m, full);
                g.scalars = false;
                g.max_depth = 6;
                g.at(&mut Ch::replay(vec![]), &s, "params")
            }
        }
    }

    pub fn sessions(e: &Env, c: &mut Ctx) {
        const RETRY: [&str; 3] = ["CallToolRequest", "GetPromptRequest", "ReadResourceRequest"];
        let kinds = [
            ("CreateMessageRequest", "CreateMessageResult"),
            ("ListRootsRequest", "ListRootsResult"),
            ("ElicitRequest", "ElicitResult"),
        ];
        let asks: Vec<[Value; 2]> = kinds.iter().map(|k| [small(e, k.0, false), small(e, k.0, true)]).collect();
        let answers: Vec<[Value; 2]> = kinds.iter().map(|k| [small(e, k.1, false), small(e, k.1, true)]).collect();
        let base = small(e, "InputRequiredResult", false);
        let mut states: Vec<Option<String>> = vec![None, Some("s1".into()), Some("".into())];
        states.extend(rich_strings().iter().filter(|s| c.thorough || s.len() < 50 || s.len() > 200 && s.len() < 2000).cloned().map(Some));
        let many: Vec<String> = (0..20).map(|i| format!("k{i}")).collect();
        let keysets: Vec<Vec<&str>> = vec![
            vec!["a"],
            vec!["b", "a"],
            vec!["k\u{e9}\""],
            vec![],
            vec!["A", "a"],
            vec!["a", "a "],
            vec!["10", "9"],
            vec![""],
            MORE_KEYS.to_vec(),
            many.iter().map(|s| &s[..]).collect(),
        ];
        let ids = [json!(7), json!("r\u{e9}q")];
        let finals: Vec<(String, Value)> =
            e.p.server_res
                .iter()
                .filter(|t| *t != "InputRequiredResult")
                .flat_map(|t| [false, true].map(|f| (t.clone(), small(e, t, f))))
                .map(|(t, mut d)| {
                    d["resultType"] = json!("complete");
                    (t, d)
                })
                .collect();
        let rounds = if c.thorough { 3 } else { 2 };
        let bound = if c.thorough { 3 } else { 2 };
        let reqs = requests();
        for r in &reqs {
            if !c.mine() {
                continue;
            }
            let st = explore(bound, u64::MAX, &mut |ch| {
                let mut hist: Vec<Value> = vec![];
                let full = ch.pick(2) == 1;
                let path: Vec<&str> = r.path[1..].to_vec();
                let original = params(e, r, full);
                let can = RETRY.contains(&r.ty.as_str());
                let mut now = original.clone();
                let what = &r.ty;
                let n = if can { ch.free(rounds + 1) } else { 1 };
                hist.push(json!([what, now]));
                for round in 0..n {
                    let id = &ids[ch.pick(2)];
                    // the server asks
                    let keys: &[&str] = &keysets[ch.pick(keysets.len())];
                    let mut want = base.clone();
                    let mut which: Vec<(usize, usize)> = vec![];
                    let none = keys.is_empty() && ch.pick(2) == 1;
                    let mut q = json!({});
                    for (at, k) in keys.iter().enumerate() {
                        let (i, f) = if keys.len() > 2 { (at % 3, 0) } else { (ch.free(3), ch.pick(2)) };
                        q[*k] = asks[i][f].clone();
                        which.push((i, f));
                    }
                    if !none {
                        want["inputRequests"] = q.clone();
                    }
                    let state = states[ch.pick(if round == 0 && r.ty == "CallToolRequest" || c.thorough { states.len() } else { 3 })].as_deref();
                    if let Some(s) = state {
                        want["requestState"] = json!(s);
                    }
                    hist.push(json!(["server asks", want]));
                    let hcase = hist.clone();
                    let case = || json!({ "session": hcase });
                    c.ran("input asked for");
                    let text = match guard(|| flow::ask(&base, Some(&q).filter(|_| !none), state, id)).and_then(|x| x) {
                        Ok(t) => t,
                        Err(x) => return c.fail("an input-required answer cannot be made", case(), x),
                    };
                    let wire = json!({"jsonrpc": "2.0", "id": id, "result": want});
                    let same_text = serde_json::from_str::<Value>(&text).ok().map_or(false, |v| same(&v, &wire));
                    c.expect(same_text, "an input-required answer is sent as something else", case, || format!("{text} expected {wire}"));
                    // the client reads
                    let a = match guard(|| flow::answer(&wire.to_string())).and_then(|x| x) {
                        Ok(a) => a,
                        Err(x) => return c.fail("an input-required answer is refused", case(), x),
                    };
                    c.expect(
                        a["input required"] == true && a["complete"] == false && a["variant"] == "InputRequiredResult",
                        "an input-required answer is taken for a complete one",
                        case,
                        || a.to_string(),
                    );
                    c.expect(
                        a["id"] == *id && same(&a["emit"], &want) && same(&a["as"], &want) && a["state"] == json!(state),
                        "an input-required answer is read as something else",
                        case,
                        || a.to_string(),
                    );
                    let mut sorted: Vec<&str> = keys.to_vec();
                    sorted.sort();
                    if !none {
                        c.expect(
                            a["len"] == json!(keys.len()) && a["empty"] == json!(keys.is_empty()) && a["keys"] == json!(sorted) && a["missing"] == false,
                            "the keys of the input requests are wrong",
                            case,
                            || a.to_string(),
                        );
                    }
                    let mut rs = vec![];
                    let mut seen = json!([[0, true]]);
                    let mut wanted = json!({});
                    for (pos, k) in sorted.iter().enumerate() {
                        let at = keys.iter().position(|x| x == k).unwrap();
                        let (i, f) = which[at];
                        let doc = &asks[i][f];
                        let x = &a["requests"][pos];
                        let mut ok = x["key"] == json!(k) && x["method"] == doc["method"] && same(&x["emit"], doc) && same(&x["get"], doc);
                        for (m, kk) in kinds.iter().enumerate() {
                            ok &= if m == i { same(&x[kk.0], doc) } else { x[kk.0].is_null() };
                        }
                        c.expect(ok, format!("a {} asked for is read as something else", kinds[i].0), case, || x.to_string());
                        let d = answers[i][if keys.len() > 2 { pos % 2 } else { ch.pick(2) }].clone();
                        wanted[*k] = d.clone();
                        rs.push((k.to_string(), kinds[i].1, d));
                        seen.as_array_mut().unwrap().push(json!([pos + 1, false]));
                    }
                    // answering a key twice keeps the last answer
                    if rs.len() == 1 && ch.pick(2) == 1 {
                        let first = answers[(which[0].0 + 1) % 3][0].clone();
                        rs.insert(0, (rs[0].0.clone(), kinds[(which[0].0 + 1) % 3].1, first));
                        seen.as_array_mut().unwrap().push(json!([1, false]));
                    }
                    hist.push(json!(["client answers", wanted]));
                    let hcase = hist.clone();
                    let case = || json!({ "session": hcase });
                    c.state("session", &json!(hist).to_string());
                    c.ran("sent again");
                    let x = match guard(|| flow::retry(&path, &now, &rs, state, id)).and_then(|x| x) {
                        Ok(x) => x,
                        Err(x) => return c.fail(format!("{what}: cannot be sent again"), case(), x),
                    };
                    c.expect(
                        same(&x["responses"], &wanted) && x["seen"] == seen && x["default"] == json!({}),
                        "the collected answers are something else",
                        case,
                        || x.to_string(),
                    );
                    if !can {
                        let m = if r.ty == "Custom" { "custom/do-it".to_string() } else { e.p.method(&e.m, &r.ty) };
                        let ok = x["err"]["code"] == -32602 && x["err"]["message"].as_str().map_or(false, |s| s.contains(&m));
                        c.expect(ok, format!("{what}: takes answers although it has no place for them"), case, || x.to_string());
                        return;
                    }
                    now = original.clone();
                    now["inputResponses"] = wanted;
                    now.as_object_mut().unwrap().remove("requestState");
                    if let Some(s) = state {
                        now["requestState"] = json!(s);
                    }
                    let wire = json!({"jsonrpc": "2.0", "id": id, "method": e.p.method(&e.m, &r.ty), "params": now});
                    let sent: Value = x["text"].as_str().and_then(|s| serde_json::from_str(s).ok()).unwrap_or_default();
                    c.expect(same(&sent, &wire) && x["variant"] == r.ty, format!("{what}: is sent again as something else"), case, || {
                        format!("{x} expected {wire}")
                    });
                    // the server reads
                    match guard(|| hand::message_str(true, &wire.to_string())) {
                        Ok(Ok(v)) => {
                            c.expect(
                                same(&v["emit"], &wire) && v["variant"].as_str().unwrap().contains(r.ty.as_str()),
                                format!("{what}: sent again, is read as something else"),
                                case,
                                || v.to_string(),
                            );
                        }
                        x => return c.fail(format!("{what}: sent again, is refused"), case(), format!("{x:?}")),
                    }
                }
                // the server completes the request
                let (t, d) = &finals[if n == 0 { ch.free(finals.len()) } else { ch.pick(3) }];
                hist.push(json!(["server completes", t, d]));
                let wire = json!({"jsonrpc": "2.0", "id": ids[0], "result": d});
                c.state("session", &json!(hist).to_string());
                c.ran("completed");
                match guard(|| flow::answer(&wire.to_string())).and_then(|x| x) {
                    Ok(a) => {
                        c.expect(
                            a["input required"] == false && a["complete"] == true && a.get("as").is_none() && same(&a["emit"], d),
                            format!("{t}: a complete result is taken for one that needs input"),
                            || json!({ "session": hist }),
                            || a.to_string(),
                        );
                    }
                    Err(x) => c.fail(format!("{t}: a complete result is refused"), json!({ "session": hist }), x),
                }
                c.sample(json!({ "session": hist }));
            });
            c.explored("sessions", &st);
        }
    }

    pub fn meta(e: &Env, c: &mut Ctx) {
        let caps = [json!({}), small(e, "ClientCapabilities", true)];
        let starts = [None, Some(small(e, "RequestMetaObject", false)), Some(small(e, "RequestMetaObject", true)), {
            let mut d = small(e, "RequestMetaObject", false);
            for (k, v) in [("traceparent", json!(5)), ("tracestate", json!(null)), ("baggage", json!({"a": 1})), ("x.example/other", json!([1]))] {
                d[k] = v;
            }
            Some(d)
        }];
        let infos = [small(e, "Implementation", false), small(e, "Implementation", true)];
        let ops: Vec<(&str, &str, Value)> = vec![
            ("client_info", "io.modelcontextprotocol/clientInfo", infos[0].clone()),
            ("client_info", "io.modelcontextprotocol/clientInfo", infos[1].clone()),
            ("log_level", "io.modelcontextprotocol/logLevel", json!("debug")),
            ("log_level", "io.modelcontextprotocol/logLevel", json!("emergency")),
            ("progress_token", "progressToken", json!("p")),
            ("progress_token", "progressToken", json!(-3)),
            ("traceparent", "traceparent", json!("00-0af7651916cd43dd8448eb211c80319c-b7ad6b7169203331-01")),
            ("traceparent", "traceparent", json!("")),
            ("tracestate", "tracestate", json!("a=b,c=d")),
            ("tracestate", "tracestate", json!("")),
            ("baggage", "baggage", json!("k=v;p")),
            ("baggage", "baggage", json!("")),
            ("baggage", "baggage", json!("\u{e9}\"")),
        ];
        // values tried alone or before another step
        let mut more = ops.clone();
        for (i, v) in rich_strings().iter().map(String::as_str).chain(["", " "]).enumerate() {
            let k = ["traceparent", "tracestate", "baggage"];
            for j in 0..3 {
                more.push((k[(i + j) % 3], k[(i + j) % 3], json!(v)));
            }
        }
        more.extend(more_ids().into_iter().map(|v| ("progress_token", "progressToken", v)));
        for l in ["alert", "critical", "error", "info", "notice", "warning"] {
            more.push(("log_level", "io.modelcontextprotocol/logLevel", json!(l)));
        }
        c.rich(&e.m, "Implementation", &e.m.ty("Implementation"), if c.thorough { 2000 } else { 300 }, &mut |_, v, g, _| {
            if g.elidable.is_empty() {
                more.push(("client_info", "io.modelcontextprotocol/clientInfo", v));
            }
        });
        let len = if c.thorough { 4 } else { 3 };
        let reqs = requests();
        let docs: Vec<[Value; 2]> = reqs.iter().map(|r| [params(e, r, false), params(e, r, true)]).collect();
        let st = explore(usize::MAX, u64::MAX, &mut |ch| {
            let s = ch.free(starts.len());
            let cap = &caps[if s == 0 { ch.free(2) } else { 0 }];
            let version = if s == 0 { ["2026-07-28", ""][ch.free(2)] } else { "" };
            let n = ch.free(len + 1);
            let h: Vec<&(&str, &str, Value)> = (0..n).map(|i| &more[ch.free(if n == 1 || (n == 2 && i == 0) { more.len() } else { ops.len() })]).collect();
            let case = || json!({"start": starts[s], "version": version, "capabilities": cap, "steps": h.iter().map(|o| json!([o.0, o.2])).collect::<Vec<_>>()});
            if !c.state("metadata", &case().to_string()) {
                return;
            }
            c.ran("metadata built");
            let mut want = match &starts[s] {
                Some(d) => d.clone(),
                None => json!({"io.modelcontextprotocol/protocolVersion": version, "io.modelcontextprotocol/clientCapabilities": cap}),
            };
            let steps: Vec<(&str, Value)> = h.iter().map(|o| (o.0, o.2.clone())).collect();
            let got = match guard(|| flow::meta(starts[s].as_ref(), version, cap, &steps)).and_then(|x| x) {
                Ok(g) => g,
                Err(x) => return c.fail("building metadata fails", case(), x),
            };
            for (i, g) in got.iter().enumerate() {
                let op = if i == 0 { "new" } else { h[i - 1].0 };
                if i > 0 {
                    want[h[i - 1].1] = h[i - 1].2.clone();
                }
                c.expect(same(&g["emit"], &want), format!("{op}: the metadata is something else"), case, || {
                    format!("{} expected {want}", g["emit"])
                });
                for k in ["traceparent", "tracestate", "baggage"] {
                    let w = want.get(k).filter(|v| v.is_string()).cloned().unwrap_or(Value::Null);
                    c.expect(g[k] == w, format!("{k}: read as something else"), case, || format!("{} expected {w}", g[k]));
                }
            }
            // stamped onto every request
            if n > 1 || n == 1 && !ops.contains(h[0]) {
                return;
            }
            for (r, d) in reqs.iter().zip(&docs) {
                for d in d {
                    for m in [None, Some(&want)] {
                        c.transitions += 1;
                        c.ran("metadata stamped on a request");
                        let case = || json!({"request": r.ty, "params": d, "metadata": m});
                        let o = match guard(|| flow::stamp(&r.path[1..], d, m)).and_then(|x| x) {
                            Ok(o) => o,
                            Err(x) => {
                                c.fail(format!("{}: metadata cannot be stamped", r.ty), case(), x);
                                continue;
                            }
                        };
                        let custom = r.ty == "Custom";
                        let mut w = d.clone();
                        if let (Some(m), false) = (m, custom) {
                            w["_meta"] = m.clone();
                        }
                        let wm = if custom { Value::Null } else { w["_meta"].clone() };
                        let name = if custom { "CustomRequest" } else { &r.ty };
                        c.expect(
                            same(&o["emit"], &w) && o["variant"] == name,
                            format!("{}: stamping metadata changes something else", r.ty),
                            case,
                            || o.to_string(),
                        );
                        c.expect(same(&o["meta"], &wm), format!("{}: the metadata read is not that of the request", r.ty), case, || o["meta"].to_string());
                        let b = &o["received"];
                        c.expect(
                            same(&b["meta"], &wm) && same(&b["emit"], &w) && b["variant"] == name,
                            format!("{}: the receiver sees other metadata", r.ty),
                            case,
                            || b.to_string(),
                        );
                    }
                }
            }
        });
        c.explored("metadata", &st);
        c.sample(json!({"requests": reqs.iter().map(|r| &r.ty).collect::<Vec<_>>()}));
    }
}
#[cfg(any(feature = "v2026_07_28", feature = "vdraft"))]
pub use newest::*;

pub fn helpers(e: &Env, c: &mut Ctx) {
    let (max, cap) = if c.thorough { (3, 6000) } else { (2, 600) };
    let docs = |c: &mut Ctx, t: &str, f: &mut dyn FnMut(&mut Ctx, &Value)| {
        for full in [false, true] {
            c.explore_fit(
                t,
                1,
                max,
                cap,
                &mut |c, ch| {
                    let d = Gen::new(&e.m, full).ty(ch, t);
                    if c.state(t, &d.to_string()) {
                        f(c, &d);
                    }
                },
                &mut |ch| {
                    Gen::new(&e.m, full).ty(ch, t);
                },
            );
        }
        if e.m.has(t) {
            c.rich(&e.m, t, &e.m.ty(t), if c.thorough { 5000 } else { 1000 }, &mut |c, d, _, _| {
                if c.state(t, &d.to_string()) {
                    f(c, &d);
                }
            });
        }
    };
    docs(c, "CallToolRequest", &mut |c, d| {
        let r = guard(|| hand::helpers::tool_name(d)).and_then(|x| x);
        c.ran("tool name read");
        c.expect(
            r.as_ref().ok().map(|s| json!(s)) == Some(d["params"]["name"].clone()),
            "a tool call names another tool",
            || d.clone(),
            || format!("{r:?}"),
        );
    });
    #[cfg(any(feature = "v2025_11_25", feature = "v2026_07_28", feature = "vdraft"))]
    docs(c, "ElicitRequestParams", &mut |c, d| {
        let r = guard(|| hand::helpers::elicit_message(d)).and_then(|x| x);
        c.ran("elicitation text read");
        c.expect(
            r.as_ref().ok().map(|s| json!(s)) == Some(d["message"].clone()),
            "an elicitation shows another text",
            || d.clone(),
            || format!("{r:?}"),
        );
    });
    #[cfg(feature = "v2025_11_25")]
    {
        use hand::helpers::tasks;
        for t in ["TaskStatus", "Task", "GetTaskResult"] {
            docs(c, t, &mut |c, d| {
                let s = if t == "TaskStatus" { d } else { &d["status"] };
                let want = ["completed", "failed", "cancelled"].contains(&s.as_str().unwrap());
                let r = guard(|| tasks::terminal(t, d)).and_then(|x| x);
                c.ran("task asked whether it is over");
                c.expect(
                    r == Ok(want),
                    format!("{t}: {} is said to be {}over", s, if want { "not " } else { "" }),
                    || d.clone(),
                    || format!("{r:?}"),
                );
            });
        }
        for t in [
            "CallToolRequest",
            "CallToolRequestParams",
            "CreateMessageRequestParams",
            "ElicitRequestParams",
            "ClientJsonrpcRequest",
            "ServerJsonrpcRequest",
        ] {
            docs(c, t, &mut |c, d| {
                let m = d.get("method").and_then(|m| m.as_str()).unwrap_or("");
                let p = if t.ends_with("Params") { d } else { &d["params"] };
                // custom requests are never task-augmented
                let typed = t.ends_with("Params") || ["tools/call", "sampling/createMessage", "elicitation/create"].contains(&m);
                let want = typed && p.get("task").map_or(false, |x| !x.is_null());
                let r = guard(|| tasks::augmented(t, d)).and_then(|x| x);
                c.ran("asked for task augmentation");
                c.expect(
                    r == Ok(want),
                    format!("{t}: said to be {}task-augmented", if want { "not " } else { "" }),
                    || d.clone(),
                    || format!("{r:?}"),
                );
            });
        }
        c.expect(
            tasks::KEY == "io.modelcontextprotocol/related-task",
            "the key of the related task is another",
            || json!(null),
            || tasks::KEY.to_string(),
        );
        let k = "io.modelcontextprotocol/related-task";
        let metas = [
            json!({}),
            json!({"other": {"taskId": "o"}}),
            json!({k: {"taskId": "old"}, "z": 1}),
            json!({k: {"taskId": 5}}),
            json!({k: "old"}),
            json!({k: null}),
            json!({k: {"task_id": "x", "more": true}}),
            json!({"taskId": "t"}),
        ];
        let ids = ["t1", "", "\u{e9}\""];
        let get = |m: &Value| m.get(k).and_then(|x| x.get("taskId")).filter(|x| x.is_string()).cloned().unwrap_or(Value::Null);
        let len = if c.thorough { 4 } else { 3 };
        let st = explore(usize::MAX, u64::MAX, &mut |ch| {
            // on a task's result
            let s = ch.free(metas.len() + 1);
            let mut d = json!({"content": [{"a": 1}], "x": null});
            if s > 0 {
                d["_meta"] = metas[s - 1].clone();
            }
            let n = ch.free(3);
            let h: Vec<&str> = (0..n).map(|_| ids[ch.free(ids.len())]).collect();
            let case = || json!({"result": d, "related task ids set": h});
            c.state("related task", &case().to_string());
            c.ran("related task set");
            let got = guard(|| tasks::related(&d, &h)).and_then(|x| x);
            let mut w = d.clone();
            let mut want = vec![json!([get(w.get("_meta").unwrap_or(&Value::Null)), w])];
            for id in &h {
                if w.get("_meta").is_none() {
                    w["_meta"] = json!({});
                }
                w["_meta"][k] = json!({ "taskId": id });
                want.push(json!([id, w]));
            }
            let ok = got.as_ref().map_or(false, |g| same(&json!(g), &json!(want)));
            c.expect(ok, "the related task of a result is another", case, || format!("{got:?} expected {want:?}"));
        });
        c.explored("related tasks", &st);
        let vals = [json!("v"), json!(3), json!(true), json!({"n": [null]}), json!(null)];
        let st = explore(usize::MAX, u64::MAX, &mut |ch| {
            let start = &metas[ch.free(metas.len())];
            let n = ch.free(len) + 1;
            let mut m = start.clone();
            let mut want = vec![];
            let ops: Vec<(&str, &str, Value)> = (0..n)
                .map(|_| {
                    let op = ["set", "with", "add", "add_if true", "add_if false", "add_raw"][ch.free(6)];
                    let (key, v) = if op == "set" || op == "with" {
                        (ids[ch.free(2)], Value::Null)
                    } else {
                        ([k, "other"][ch.free(2)], vals[if op == "add" { ch.free(vals.len()) } else { 3 }].clone())
                    };
                    match op {
                        "set" | "with" => m[k] = json!({ "taskId": key }),
                        "add_if false" => {}
                        _ => m[key] = v.clone(),
                    }
                    want.push(json!([get(&m), m]));
                    (op, key, v)
                })
                .collect();
            let case = || json!({"metadata": start, "steps": ops.iter().map(|o| json!([o.0, o.1, o.2])).collect::<Vec<_>>()});
            c.state("metadata history", &case().to_string());
            c.ran("metadata changed");
            let got = guard(|| tasks::meta(start, &ops));
            let ok = got.as_ref().map_or(false, |g| json!(g) == json!(want));
            c.expect(ok, "metadata is changed in another way", case, || format!("{got:?} expected {want:?}"));
        });
        c.explored("metadata", &st);
    }
    c.sample(json!(small(e, "CallToolRequest", true)));
}
