//! C13: containers of messages keep every message, in order, and say truthfully what they hold.
use super::{assembly, messages::Tables};
use crate::{env::Env, hand, hand::batch};
use mccore::{ctx::*, explore::*, model::*};
use serde_json::{json, Value};

/// messages of every kind, a small and a full one of a few types each
pub fn representatives(e: &Env, client: bool, many: bool) -> Vec<Value> {
    let t = Tables::new(e, client);
    let mut v = vec![];
    let gen = |s: &std::rc::Rc<S>, full: bool| {
        let mut g = Gen::new(&e.m, full);
        g.scalars = false;
        g.max_depth = 5;
        g.at(&mut Ch::replay(vec![]), s, "message")
    };
    let n = if many { usize::MAX } else { 2 };
    let take = |l: usize| if l <= n { (0..l).collect::<Vec<_>>() } else { vec![0, l - 1] };
    for i in take(t.reqs.len()) {
        v.push(gen(&t.reqs[i].2, i % 2 == 1));
    }
    for i in take(t.nots.len()) {
        v.push(gen(&t.nots[i].2, i % 2 == 1));
    }
    for i in take(t.res.len()) {
        v.push(json!({"jsonrpc": "2.0", "id": format!("r{i}"), "result": gen(&t.res[i].1, i % 2 == 1)}));
    }
    v.push(json!({"jsonrpc": "2.0", "id": 7, "error": {"code": -32601, "message": "no", "data": [1]}}));
    v.push(json!({"jsonrpc": "2.0", "id": "c", "method": "custom/do-it", "params": {"a": 1}}));
    v.push(json!({"jsonrpc": "2.0", "method": "custom/done"}));
    v
}

/// `brief`: only that lists and single messages keep what they are made of (C08)
pub fn batches(e: &Env, c: &mut Ctx, brief: bool) {
    let len = if brief {
        2
    } else if c.thorough {
        4
    } else {
        3
    };
    for client in [true, false] {
        let side = if client { "client" } else { "server" };
        let few = representatives(e, client, false).len();
        let mut docs = representatives(e, client, false);
        for d in representatives(e, client, true) {
            if !docs.contains(&d) {
                docs.push(d);
            }
        }
        let bad = [json!({}), json!(5), json!({"jsonrpc": "1.0", "id": 1, "method": "ping"}), json!({"jsonrpc": "2.0", "id": 1})];
        let mut alone: Vec<Value> = vec![];
        for d in &docs {
            match guard(|| hand::message(client, d)) {
                Ok(Ok(v)) => alone.push(strip(v)),
                x => {
                    c.fail(format!("{side}: a message is refused"), d.clone(), format!("{x:?}"));
                    return;
                }
            }
        }
        let read = |s: &str| if client { batch::read_client(s) } else { batch::read_server(s) };
        let made = |d: &[Value], one: bool| if client { batch::made_client(d, one) } else { batch::made_server(d, one) };
        let mut run = |c: &mut Ctx, picks: &[usize], single: bool| {
            let n = picks.len() + 1;
            let list: Vec<Value> = picks.iter().map(|i| docs[*i].clone()).collect();
            let whole = if single { list[0].clone() } else { json!(list) };
            let text = whole.to_string();
            if !c.state(side, &text) {
                return;
            }
            c.transitions += 1;
            let case = || json!({"side": side, "messages": whole});
            let key = format!("{side}: {}", if single { "a single message" } else { "a list" });
            let want: Vec<&Value> = picks.iter().map(|i| &alone[*i]).collect();
            let any = want.iter().any(|w| w["is"]["request"] == json!(true));
            let mut judge = |c: &mut Ctx, how: &str, v: Value| {
                c.ran(how);
                c.expect(v["batch"] == json!(!single), format!("{key}, {how}: is_batch is wrong"), case, || v["batch"].to_string());
                c.expect(brief || v["request"] == json!(any), format!("{key}, {how}: includes_request is wrong"), case, || {
                    v["request"].to_string()
                });
                let emit: Vec<Value> = want.iter().map(|w| w["emit"].clone()).collect();
                let emit = if single { emit[0].clone() } else { json!(emit) };
                c.expect(v["emit"] == emit, format!("{key}, {how}: written as something else"), case, || v["emit"].to_string());
                let shown: Value = serde_json::from_str(v["display"].as_str().unwrap_or("")).unwrap_or_default();
                c.expect(shown == emit, format!("{key}, {how}: displayed as something else"), case, || v["display"].to_string());
                let (good, other) = if single { ("single", "list") } else { ("list", "single") };
                let got = match good {
                    "single" => strip(v["single"]["ok"].clone()),
                    _ => Value::Array(v["list"]["ok"].as_array().cloned().unwrap_or_default().into_iter().map(strip).collect()),
                };
                let w = if single { want[0].clone() } else { json!(want) };
                c.expect(got == w, format!("{key}, {how}: as_{good} gives something else"), case, || v[good].to_string());
                let er = &v[other]["err"];
                c.expect(
                    er["code"] == json!(-32603) && er["message"].as_str().map(|m| !m.is_empty() && m != "Internal error").unwrap_or(false),
                    format!("{key}, {how}: as_{other} is not refused with an internal error"),
                    case,
                    || v[other].to_string(),
                );
            };
            match guard(|| if brief { (None, None) } else { read(&text) }) {
                _ if brief => {}
                Ok((Some(a), Some(b))) => {
                    judge(c, "read from text", a);
                    judge(c, "read from a value", b);
                }
                Ok(x) => c.fail(format!("{key}: refused"), case(), format!("{:?}", x.0.is_some())),
                Err(x) => c.fail(format!("{key}: panics"), case(), x),
            }
            match guard(|| made(&list, single)) {
                Ok(Ok(v)) => judge(c, "made of messages", v),
                x => c.fail(format!("{key}: cannot be made of messages"), case(), format!("{x:?}")),
            }
            // one element that is no message spoils the list
            if !brief && !single && (n <= 3 && picks.iter().all(|p| *p < few) || n > 5 && picks.iter().all(|p| *p == picks[0])) {
                for (bi, b) in bad.iter().enumerate().take(if n > 20 { 1 } else { 4 }) {
                    for at in if n <= 3 {
                        (0..=list.len()).collect()
                    } else if n > 20 {
                        vec![list.len()]
                    } else {
                        vec![0, list.len() / 2, list.len()]
                    } {
                        let mut l = list.clone();
                        l.insert(at, b.clone());
                        let t = json!(l).to_string();
                        c.state(side, &t);
                        let r = guard(|| read(&t));
                        c.ran("list with a bad element");
                        c.expect(
                            matches!(r, Ok((None, None))),
                            format!("{side}: a list with a bad element ({bi}) is not refused"),
                            || json!(l),
                            || format!("{r:?}"),
                        );
                    }
                }
            }
            c.sample(case());
        };
        if c.mine() {
            let st = explore(usize::MAX, u64::MAX, &mut |ch| {
                let n = ch.free(len + 2);
                // one element alone, or a list of n - 1
                let single = n == 0;
                let picks: Vec<usize> = (0..if single { 1 } else { n - 1 }).map(|_| ch.free(few)).collect();
                run(c, &picks, single);
            });
            c.explored(side, &st);
        }
        if !brief && c.mine() {
            // every message there is, alone and next to another
            let st = explore(usize::MAX, u64::MAX, &mut |ch| {
                let n = ch.free(5);
                let i = ch.free(docs.len());
                let mut k = || ch.free(if c.thorough { docs.len() } else { few });
                match n {
                    0 => run(c, &[i], true),
                    1 => run(c, &[i], false),
                    2 => run(c, &[i, k()], false),
                    3 => run(c, &[k(), i], false),
                    _ => run(c, &[i; 4], false),
                }
            });
            c.explored(side, &st);
        }
        // long lists with one odd element at either end or inside, or none
        let sizes: &[usize] = if c.thorough {
            &[5, 6, 7, 8, 9, 10, 16, 17, 32, 33, 50, 64, 65, 100, 101, 128, 129, 256, 257, 1000, 1025, 5000]
        } else {
            &[5, 8, 9, 10, 11, 17, 33, 65, 101, 129, 257, 1025]
        };
        for size in sizes {
            if brief || !c.mine() {
                continue;
            }
            let st = explore(usize::MAX, u64::MAX, &mut |ch| {
                let (filler, odd) = if *size > 200 {
                    (few - 1, if c.thorough { ch.free(few) } else { [0, few - 3, few - 1][ch.free(3)] })
                } else if *size > if c.thorough { 40 } else { 20 } {
                    ([few - 1, few - 3][ch.free(if *size > 100 { 1 } else { 2 })], ch.free(few))
                } else {
                    (ch.free(few), ch.free(few))
                };
                let at = [size - 1, 0, size / 2, 1, size - 2][ch.free(if *size > 20 { 3 } else { 5 })];
                let mut l = vec![filler; *size];
                l[at] = odd;
                run(c, &l, false);
            });
            c.explored("long lists", &st);
        }
        // the same for messages that are still to be sent
        if !c.mine() {
            continue;
        }
        let routes = assembly::routes(client);
        let mut parts: Vec<(Vec<&str>, Value)> = vec![];
        for kind in ["Request", "Notification", "Response", "Error"] {
            let of: Vec<_> = routes.iter().filter(|r| r.kind == kind).collect();
            let mut idx = vec![0, of.len() - 1];
            idx.dedup();
            for i in idx {
                let r = of[i];
                let p = match assembly::payload(e, r).0 {
                    None => json!({"method": "custom/do-it", "params": {"a": 1}}),
                    Some(s) => {
                        let mut g = Gen::new(&e.m, i % 2 == 1);
                        g.scalars = false;
                        g.max_depth = 4;
                        g.at(&mut Ch::replay(vec![]), &s, "payload")
                    }
                };
                parts.push((r.path.clone(), p));
            }
        }
        let st = explore(usize::MAX, u64::MAX, &mut |ch| {
            let n = ch.free(len + 2);
            let single = n == 0;
            let mut picks: Vec<usize> = (0..if single { 1 } else { n - 1 }).map(|_| ch.free(parts.len())).collect();
            // a list of two, drawn out
            if n == 3 && !brief {
                let times = [1, 3, 8, 16, 32, 64, 100, 256][ch.free(8)];
                let first = ch.free(2) == 0;
                let more = vec![picks[if first { 0 } else { 1 }]; times - 1];
                picks.splice(if first { 0..0 } else { 2..2 }, more);
            }
            let l: Vec<(&[&str], &Value)> = picks.iter().map(|i| (&parts[*i].0[..], &parts[*i].1)).collect();
            let case = || json!({"side": side, "outgoing": l.iter().map(|p| json!([p.0, p.1])).collect::<Vec<_>>(), "single": single});
            c.state("outgoing", &case().to_string());
            c.transitions += 1;
            let key = format!("{side}: outgoing {}", if single { "single message" } else { "list" });
            let (v, each) = match guard(|| if client { batch::outmade_client(&l, single) } else { batch::outmade_server(&l, single) }) {
                Ok(Ok(x)) => x,
                x => {
                    c.fail(format!("{key}: refused or panics"), case(), format!("{x:?}"));
                    return;
                }
            };
            c.ran("outgoing made");
            let any = l.iter().any(|p| p.0[0].starts_with("Request"));
            c.expect(v["batch"] == json!(!single), format!("{key}: is_batch is wrong"), case, || v["batch"].to_string());
            c.expect(brief || v["request"] == json!(any), format!("{key}: includes_request is wrong"), case, || v["request"].to_string());
            let emit: Vec<Value> = each.iter().map(|x| x["emit"].clone()).collect();
            let emit = if single { emit[0].clone() } else { json!(emit) };
            let (good, other) = if single { ("single", "list") } else { ("list", "single") };
            c.expect(v["emit"] == emit, format!("{key}: written as something else"), case, || v["emit"].to_string());
            c.expect(v[good]["ok"] == emit, format!("{key}: as_{good} gives something else"), case, || v[good].to_string());
            let er = &v[other]["err"];
            c.expect(
                er["code"] == json!(-32603) && er["message"].as_str().map(|m| !m.is_empty() && m != "Internal error").unwrap_or(false),
                format!("{key}: as_{other} is not refused with an internal error"),
                case,
                || v[other].to_string(),
            );
        });
        c.explored("outgoing", &st);
    }
}

/// what only the single reader adds
fn strip(mut v: Value) -> Value {
    if let Some(o) = v.as_object_mut() {
        o.remove("initialize");
        o.remove("initialized");
    }
    v
}
