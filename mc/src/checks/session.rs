//! C24: two parties talk over ordered channels; every reachable state of a bounded session is visited, and every step
//! runs on the real code. The model says what each party must read and which waiting request every answer settles.
use super::{
    assembly::{expected, payload, routes, Route},
    messages::Tables,
};
use crate::{
    env::Env,
    hand::session::{End, Out},
};
use mccore::{ctx::*, explore::*, model::*, proto::Family};
use serde_json::{json, Value};
use std::collections::{BTreeSet, HashSet, VecDeque};
use std::rc::Rc;

struct Item {
    route: Route,
    payload: Value,
    el: Vec<String>,
}

struct Msg {
    kind: &'static str,
    name: String,
    doc: Value,
    method: Value,
    el: Vec<String>,
    /// the number of the request this is, or answers
    key: Option<usize>,
    /// what it is made of, for the report
    what: String,
}

#[derive(Clone)]
struct Node {
    ends: [End; 2],
    chan: [VecDeque<(String, Vec<Rc<Msg>>)>; 2],
    waiting: [BTreeSet<usize>; 2],
    /// (number, request type, id, open) in the order received
    inbox: [Vec<(usize, String, Value, bool)>; 2],
    sent: [usize; 2],
    asked: [usize; 2],
    keys: usize,
    trace: Vec<String>,
}

impl Node {
    fn digest(&self) -> String {
        let ch: Vec<Vec<Vec<String>>> = self
            .chan
            .iter()
            .map(|c| c.iter().map(|(_, l)| l.iter().map(|m| format!("{}{:?}", m.what, m.key)).collect()).collect())
            .collect();
        format!("{ch:?}{:?}{:?}{:?}", self.waiting, self.inbox, self.sent)
    }
}

fn elided(el: &[String], kind: &str, old: bool) -> Vec<String> {
    el.iter()
        .map(|p| match kind {
            "Response" => format!("/result{p}"),
            "Error" => format!("/error{p}"),
            _ if old => p.clone(),
            _ => format!("/params{p}"),
        })
        .collect()
}

fn items(e: &Env, client: bool, kind: &str) -> Vec<[Rc<Item>; 2]> {
    let mut v = vec![];
    for r in routes(client) {
        if r.kind != kind || (r.ty == "Custom" && (e.p.family == Family::Old || kind == "Response")) {
            continue;
        }
        let again = |full: bool| {
            let (s, optional) = payload(e, &r);
            let (payload, el) = if r.ty == "Custom" {
                (json!({"method": "custom/do-it", "params": {"a": [1, {"b": 2}]}}), vec![])
            } else if optional && !full {
                (Value::Null, vec!["".to_string()])
            } else {
                let mut g = Gen::new(&e.m, full);
                g.scalars = false;
                g.max_depth = 6;
                let d = g.at(&mut Ch::replay(vec![]), &s.unwrap(), "");
                (d, g.elidable.clone())
            };
            Rc::new(Item {
                route: Route {
                    path: r.path.clone(),
                    kind: r.kind,
                    ty: r.ty.clone(),
                },
                payload,
                el,
            })
        };
        v.push([again(false), again(true)]);
    }
    v
}

const SIDE: [&str; 2] = ["client", "server"];

struct World<'a> {
    e: &'a Env,
    tables: [Tables; 2],
    /// what each side may send in this session
    menu: [Vec<Rc<Item>>; 2],
    results: [Vec<[Rc<Item>; 2]>; 2],
    errors: [Rc<Item>; 2],
    max: [usize; 2],
    style: usize,
    full: bool,
}

impl World<'_> {
    fn id(&self, n: usize) -> Value {
        // ids of both sides, and of one side in different clothes, look alike
        match (self.style, n % 2) {
            (0, _) => json!(n),
            (1, _) => json!(n.to_string()),
            // a float tells no two of these apart
            (3, _) => json!(i64::MAX - 1 - n as i64),
            (_, 0) => json!(1 + n / 2),
            _ => json!((1 + n / 2).to_string()),
        }
    }
    fn msg(&self, side: usize, it: &Item, id: Option<&Value>, key: Option<usize>) -> Msg {
        let (doc, method) = expected(self.e, &it.route, &it.payload, id).expect("the session composes only what can be composed");
        let want = self.tables[side].classify(self.e, &doc).unwrap_or_else(|| panic!("the session sends what is no message: {doc}"));
        let el = elided(&it.el, it.route.kind, self.e.p.family == Family::Old);
        Msg {
            kind: it.route.kind,
            name: want.name,
            doc,
            method,
            el,
            key,
            what: format!("{}:{}", it.route.kind, it.route.ty),
        }
    }
    /// the ways to answer a request of a type
    fn answers(&self, side: usize, ty: &str) -> Vec<Rc<Item>> {
        let r = &self.results[side];
        let typed = ty.replace("Request", "Result");
        let mut v = vec![];
        match r.iter().find(|x| x[0].route.ty == typed) {
            Some(x) => v.push(x[self.full as usize].clone()),
            None => v.push(r.iter().find(|x| x[0].route.ty == "Result").unwrap_or(&r[r.len() - 1])[0].clone()),
        }
        v.push(self.errors[side].clone());
        v
    }
    fn steps(&self, n: &Node) -> Vec<Step> {
        let mut v = vec![];
        for s in 0..2 {
            let k = self.menu[s].len();
            let lists: [&[usize]; 5] = [&[0], &[0, 0], &[0, 1], &[1, 0], &[1, 0, 0]];
            if n.sent[s] < self.max[s] {
                v.extend((0..k).map(|i| Step::Send(s, vec![i], true)));
            }
            v.extend(
                lists
                    .iter()
                    .filter(|l| n.sent[s] + l.len() <= self.max[s] && l.iter().all(|i| *i < k))
                    .map(|l| Step::Send(s, l.to_vec(), false)),
            );
            if !n.chan[s].is_empty() {
                v.push(Step::Deliver(s));
            }
            let open: Vec<usize> = (0..n.inbox[s].len()).filter(|i| n.inbox[s][*i].3).collect();
            for i in &open {
                for a in 0..2 {
                    v.push(Step::Answer(s, vec![(*i, a)], true));
                }
            }
            if open.len() > 1 {
                // all at once, the latest first
                v.push(Step::Answer(s, open.iter().rev().map(|i| (*i, 0)).collect(), false));
                v.push(Step::Answer(s, open.iter().enumerate().map(|(k, i)| (*i, k % 2)).collect(), false));
            }
        }
        v
    }
    /// runs one step on the model and on the real code; None: a violation was reported
    fn apply(&self, c: &mut Ctx, n: &Node, st: &Step) -> Option<Node> {
        let mut n = n.clone();
        n.trace.push(format!("{st:?}"));
        match st {
            Step::Send(s, picks, single) => {
                let mut parts: Vec<(Rc<Item>, Option<Value>, Option<usize>)> = vec![];
                for p in picks {
                    let it = self.menu[*s][*p].clone();
                    if it.route.kind == "Request" {
                        let id = self.id(n.asked[*s]);
                        n.asked[*s] += 1;
                        n.keys += 1;
                        n.waiting[*s].insert(n.keys);
                        parts.push((it, Some(id), Some(n.keys)));
                    } else {
                        parts.push((it, None, None));
                    }
                }
                n.sent[*s] += picks.len();
                let msgs: Vec<Rc<Msg>> = parts.iter().map(|(it, id, key)| Rc::new(self.msg(*s, it, id.as_ref(), *key))).collect();
                let out: Vec<(&[&str], &Value, Out)> = parts
                    .iter()
                    .map(|(it, id, key)| (&it.route.path[..], &it.payload, id.as_ref().map(|i| Out::Ask(i, key.unwrap())).unwrap_or(Out::Note)))
                    .collect();
                self.emit(c, n, *s, msgs, out, *single)
            }
            Step::Answer(s, picks, single) => {
                let mut parts = vec![];
                for (i, a) in picks {
                    let (key, ty, id, open) = &mut n.inbox[*s][*i];
                    *open = false;
                    parts.push((self.answers(*s, ty)[*a].clone(), id.clone(), *key, *i));
                }
                let msgs: Vec<Rc<Msg>> = parts.iter().map(|(it, id, key, _)| Rc::new(self.msg(*s, it, Some(id), Some(*key)))).collect();
                let out: Vec<(&[&str], &Value, Out)> = parts.iter().map(|(it, _, _, i)| (&it.route.path[..], &it.payload, Out::Answer(*i))).collect();
                self.emit(c, n, *s, msgs, out, *single)
            }
            Step::Deliver(s) => {
                let to = 1 - *s;
                let (text, msgs) = n.chan[*s].pop_front().unwrap();
                let mut end = n.ends[to].clone();
                let got = guard(|| end.recv(&text).map(|l| (end, l)));
                let list = match got {
                    Ok(Ok((end, l))) => {
                        n.ends[to] = end;
                        l
                    }
                    Ok(Err(x)) | Err(x) => {
                        c.ran("not read");
                        c.fail(format!("{}: what the {} wrote cannot be read", SIDE[to], SIDE[*s]), self.case(&n, &text), x);
                        return None;
                    }
                };
                if !c.expect(
                    list.len() == msgs.len(),
                    format!("{}: number of messages read", SIDE[to]),
                    || self.case(&n, &text),
                    || format!("{} of {}", list.len(), msgs.len()),
                ) {
                    return None;
                }
                let mut ok = true;
                for (g, m) in list.iter().zip(&msgs) {
                    c.ran(m.kind);
                    let what = format!("{} {}", SIDE[*s], m.what);
                    let v = g["variant"].as_str().unwrap_or("").to_string();
                    let last = v.rsplit('/').next().unwrap_or("");
                    let named = v.starts_with(m.kind) && (m.kind == "Error" || last == m.name || (m.name == "Custom" && last.starts_with("Custom")));
                    ok &= c.expect(named, format!("{what}: arrives as {v}"), || self.case(&n, &text), || format!("expected {}/{}", m.kind, m.name));
                    let d = diff_but(&m.doc, &g["emit"], &m.el);
                    ok &= c.expect(d.is_none(), format!("{what}: arrives changed"), || self.case(&n, &text), || d.clone().unwrap_or_default());
                    if !g["method"].is_null() || !m.method.is_null() {
                        let gm = if g["method"].is_null() { &g["inner"]["method"] } else { &g["method"] };
                        ok &= c.expect(*gm == m.method, format!("{what}: arrives with another method"), || self.case(&n, &text), || gm.to_string());
                    }
                    let id = m.doc.get("id").cloned().unwrap_or(Value::Null);
                    ok &= c.expect(g["id"] == id, format!("{what}: arrives with another id"), || self.case(&n, &text), || g["id"].to_string());
                    let settled = match m.kind {
                        "Response" | "Error" => m.key,
                        _ => None,
                    };
                    ok &= c.expect(
                        g["settled"] == json!(settled),
                        format!("{what}: settles another request"),
                        || self.case(&n, &text),
                        || format!("{} instead of {settled:?}", g["settled"]),
                    );
                    match m.kind {
                        "Request" => n.inbox[to].push((m.key.unwrap(), m.what["Request:".len()..].to_string(), id, true)),
                        "Response" | "Error" => {
                            n.waiting[to].remove(&m.key.unwrap());
                        }
                        _ => {}
                    }
                }
                let open = n.inbox[to].iter().filter(|i| i.3).count();
                ok &= c.expect(
                    n.ends[to].still() == (n.waiting[to].len(), open),
                    format!("{}: requests left open", SIDE[to]),
                    || self.case(&n, &text),
                    || format!("{:?} instead of {:?}", n.ends[to].still(), (n.waiting[to].len(), open)),
                );
                Some(n).filter(|_| ok)
            }
        }
    }
    fn emit(&self, c: &mut Ctx, mut n: Node, s: usize, msgs: Vec<Rc<Msg>>, out: Vec<(&[&str], &Value, Out)>, single: bool) -> Option<Node> {
        let mut end = n.ends[s].clone();
        let what = format!("{} {}", SIDE[s], if single { msgs[0].what.clone() } else { "list of messages".into() });
        match guard(|| end.send(&out, single).map(|t| (end, t))) {
            Ok(Ok((end, text))) => {
                n.ends[s] = end;
                let want = if single {
                    msgs[0].doc.clone()
                } else {
                    Value::Array(msgs.iter().map(|m| m.doc.clone()).collect())
                };
                let el: Vec<String> = if single {
                    msgs[0].el.clone()
                } else {
                    msgs.iter().enumerate().flat_map(|(i, m)| m.el.iter().map(move |p| format!("/{i}{p}"))).collect()
                };
                let d = match serde_json::from_str::<Value>(&text) {
                    Ok(v) => diff_but(&want, &v, &el),
                    Err(e) => Some(e.to_string()),
                };
                c.ran("written");
                if !c.expect(d.is_none(), format!("{what}: written as something else"), || self.case(&n, &text), || d.clone().unwrap_or_default()) {
                    return None;
                }
                n.chan[s].push_back((text, msgs));
                Some(n)
            }
            Ok(Err(x)) | Err(x) => {
                c.ran("not written");
                c.fail(format!("{what}: cannot be sent"), self.case(&n, ""), x);
                None
            }
        }
    }
    fn case(&self, n: &Node, text: &str) -> Value {
        let menu: Vec<Vec<Value>> = self.menu.iter().map(|m| m.iter().map(|i| json!({"path": i.route.path, "payload": i.payload})).collect()).collect();
        json!({"history": n.trace, "client may send": menu[0], "server may send": menu[1], "text": text, "id style": self.style})
    }
}

#[derive(Debug, Clone)]
enum Step {
    Send(usize, Vec<usize>, bool),
    Deliver(usize),
    Answer(usize, Vec<(usize, usize)>, bool),
}

pub fn sessions(e: &Env, c: &mut Ctx) {
    let req = [items(e, true, "Request"), items(e, false, "Request")];
    let not = [items(e, true, "Notification"), items(e, false, "Notification")];
    let results = || [items(e, true, "Response"), items(e, false, "Response")];
    let error = |client: bool| {
        let route = routes(client).into_iter().find(|r| r.kind == "Error").unwrap();
        Rc::new(Item {
            route,
            payload: json!({"code": -32001, "message": "no \u{e9}", "data": {"a": [1]}}),
            el: vec![],
        })
    };
    let rounds = req.iter().chain(&not).map(|l| l.len()).max().unwrap();
    for round in 0..rounds {
        for full in [false, true] {
            for style in 0..4 {
                // quick: one combination of the two per session
                if !c.thorough && style != (2 * round + full as usize + round / 2) % 4 {
                    continue;
                }
                if !c.mine() {
                    continue;
                }
                let pick = |l: &Vec<[Rc<Item>; 2]>| if l.is_empty() { None } else { Some(l[round % l.len()][full as usize].clone()) };
                let menu = [0, 1].map(|s| pick(&req[s]).into_iter().chain(pick(&not[s])).collect::<Vec<_>>());
                let most = if c.thorough { [2, 2] } else { [[2, 1], [1, 2]][round % 2] };
                let w = World {
                    e,
                    tables: [Tables::new(e, true), Tables::new(e, false)],
                    menu,
                    results: results(),
                    errors: [error(true), error(false)],
                    max: most,
                    style,
                    full,
                };
                let first = Node {
                    ends: [End::new(true), End::new(false)],
                    chan: Default::default(),
                    waiting: Default::default(),
                    inbox: Default::default(),
                    sent: [0, 0],
                    asked: [0, 0],
                    keys: 0,
                    trace: vec![],
                };
                let mut seen: HashSet<String> = HashSet::new();
                let mut todo = vec![first];
                let label = format!("{round}/{full}/{style}");
                let mut quiet = 0;
                while let Some(n) = todo.pop() {
                    let steps = w.steps(&n);
                    if steps.iter().all(|s| matches!(s, Step::Send(..))) {
                        // nothing under way: nobody waits any more
                        quiet += 1;
                        c.expect(
                            n.ends.iter().all(|e| e.still() == (0, 0)),
                            "requests stay open after everything was answered",
                            || w.case(&n, ""),
                            String::new,
                        );
                    }
                    for s in steps {
                        c.transitions += 1;
                        if let Some(next) = w.apply(c, &n, &s) {
                            let d = next.digest();
                            if seen.insert(d.clone()) {
                                c.state(&label, &d);
                                if quiet == 0 {
                                    c.sample(json!({"history": next.trace}));
                                }
                                todo.push(next);
                            }
                        }
                    }
                }
                if std::env::var("MC_LOUD").is_ok() {
                    eprintln!("{label} {} states", seen.len());
                }
                *c.bounds.entry(format!("sessions of at most {}+{} unprompted messages", w.max[0], w.max[1])).or_insert(0) += 1;
            }
        }
    }
}
