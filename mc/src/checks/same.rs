//! C25: everything observable about one version as digests, one per operation, to be compared with another version's.
use super::{assembly, batch, convert::schema_of};
use crate::{env::Env, gen, hand};
use mccore::{ctx::*, explore::*, model::*};
use serde_json::{json, Value};

pub fn observe(e: &Env, c: &mut Ctx) {
    let (max, cap) = if c.thorough {
        (2, 1500)
    } else if brief() {
        (1, 30)
    } else {
        (1, 60)
    };
    let mut w = Watch { c };
    let ids = assembly::ids();
    // every document of every type, and every damaged one
    for t in e.reg.types.iter().filter(|t| e.m.has(t.name)) {
        if !w.mine(&format!("reading {}", t.name)) {
            continue;
        }
        let (mut log, mut runs) = (vec![], 0);
        docs(e, w.c, t.name, max, cap, true, &mut |d| {
            let a = guard(|| (t.rt)(d)).map(|r| r.ok());
            let b = guard(|| (t.rts)(&d.to_string())).map(|r| r.ok());
            log.push(json!([d, a.unwrap_or(Some(json!("panic"))), b.unwrap_or(Some("panic".into()))]));
            runs += 1;
        });
        w.put(format!("reading {}", t.name), log, runs);
    }
    let mut on = |name: String, ty: &str, f: &mut dyn FnMut(&Value) -> Value| {
        if schema_of(e, ty).is_none() || !w.mine(&name) {
            return;
        }
        let (mut log, mut runs) = (vec![], 0);
        docs(e, w.c, ty, max, cap.min(40), false, &mut |d| {
            log.push(json!([d, f(d)]));
            runs += 1;
        });
        w.put(name, log, runs);
    };
    for g in &e.reg.getters {
        on(format!("{}.{}", g.ty, g.field), g.ty, &mut |d| ok(|| (g.f)(d)));
    }
    for g in &e.reg.froms {
        on(format!("{} into {}", g.src, g.dst), g.src, &mut |d| {
            json!([ok(|| (g.f)(d)), g.var.map(|v| ok(|| v(d).map(|s| json!(s))))])
        });
    }
    for g in &e.reg.displays {
        on(format!("{} displayed", g.ty), g.ty, &mut |d| ok(|| (g.f)(d).map(|s| json!(s))));
    }
    for g in &e.reg.fromstrs {
        on(format!("{} parsed", g.ty), g.ty, &mut |d| {
            let t = d.to_string();
            let cut: String = t.chars().take(t.chars().count() - 1).collect();
            let texts = ["", "\u{feff}", " ", "\n", "\u{3000}", "\0"].iter().flat_map(|m| [format!("{m}{t}"), format!("{t}{m}")]);
            texts.chain([cut, format!("{t}{t}"), format!("[{t}]")]).map(|t| ok(|| (g.f)(&t))).collect()
        });
    }
    for g in &e.reg.variants {
        on(format!("variant of {}", g.ty), g.ty, &mut |d| ok(|| (g.f)(d).map(|s| json!(s))));
    }
    for b in &e.reg.builders {
        let Some(a) = schema_of(e, b.arg) else { continue };
        let mut g = Gen::new(&e.m, true);
        g.scalars = false;
        g.max_depth = 4;
        let arg = g.at(&mut Ch::replay(vec![]), &a, b.arg);
        on(format!("{}.{}", b.ty, b.name), b.ty, &mut |d| ok(|| (b.f)(d, &arg)));
    }
    for g in &e.reg.try_froms {
        if !w.mine(&format!("{} out of {}", g.dst, g.src)) {
            continue;
        }
        let mut log = vec![];
        for (v, ty) in gen::variants(g.src) {
            if let Some(s) = schema_of(e, ty) {
                for full in [false, true] {
                    let mut gg = Gen::new(&e.m, full);
                    gg.max_depth = 5;
                    let d = gg.at(&mut Ch::replay(vec![]), &s, ty);
                    let r = guard(|| (g.f)(&[v], &d)).ok().and_then(|r| r.ok());
                    log.push(json!([v, d, r.map(|r| r.map_err(|e| e["code"].clone()))]));
                }
            }
        }
        let n = log.len() as u64;
        w.put(format!("{} out of {}", g.dst, g.src), log, n);
    }
    for k in &e.reg.consts {
        w.put(format!("{}::{}", k.ty, k.field), vec![guard(|| (k.f)()).unwrap_or_default()], 1);
    }
    for k in &e.reg.defaults {
        w.put(format!("{} default", k.ty), vec![ok(|| (k.f)())], 1);
    }
    for k in &e.reg.ctors {
        let args: Option<Vec<Value>> = k
            .args
            .iter()
            .map(|a| {
                let opt = a.strip_prefix("Option<").and_then(|a| a.strip_suffix('>')).unwrap_or(a);
                schema_of(e, opt).map(|s| {
                    let mut g = Gen::new(&e.m, true);
                    g.max_depth = 4;
                    g.at(&mut Ch::replay(vec![]), &s, opt)
                })
            })
            .collect();
        if let Some(args) = args {
            w.put(format!("{}::new", k.ty), vec![ok(|| (k.f)(&args))], 1);
        }
    }
    for client in [true, false] {
        let side = if client { "client" } else { "server" };
        let mut log = vec![];
        for d in batch::representatives(e, client, true) {
            for i in [None, Some(Value::Null), Some(json!(2.5)), Some(json!(-1)), Some(json!("x"))] {
                for version in ["2.0", "1.0"] {
                    let mut d = d.clone();
                    d["jsonrpc"] = json!(version);
                    match &i {
                        Some(i) => d["id"] = i.clone(),
                        None => {
                            d.as_object_mut().unwrap().remove("id");
                        }
                    }
                    log.push(json!([d, ok(|| hand::message(client, &d))]));
                }
            }
        }
        let n = log.len() as u64;
        w.put(format!("{side} messages"), log, n);
        for r in assembly::routes(client) {
            if !w.mine(&format!("composing {side} {}", r.path.join("/"))) {
                continue;
            }
            let mut log = vec![];
            let payloads: Vec<Value> = match assembly::payload(e, &r).0 {
                None => assembly::customs(e, r.kind),
                Some(s) => [false, true]
                    .map(|full| {
                        let mut g = Gen::new(&e.m, full);
                        g.max_depth = 6;
                        g.at(&mut Ch::replay(vec![]), &s, "")
                    })
                    .to_vec(),
            };
            for p in &payloads {
                for i in &ids {
                    log.push(json!([
                        p,
                        i,
                        ok(|| if client {
                            hand::outgoing_client(&r.path, p, i.as_ref())
                        } else {
                            hand::outgoing_server(&r.path, p, i.as_ref())
                        })
                    ]));
                }
            }
            let n = log.len() as u64;
            w.put(format!("composing {side} {}", r.path.join("/")), log, n);
        }
    }
}

fn ok(f: impl FnOnce() -> Result<Value, String>) -> Value {
    match guard(f) {
        Ok(Ok(v)) => v,
        Ok(Err(_)) => json!("refused"),
        Err(_) => json!("panics"),
    }
}

fn docs(e: &Env, c: &mut Ctx, ty: &str, max: usize, cap: u64, damage: bool, f: &mut dyn FnMut(&Value)) {
    let s = schema_of(e, ty).unwrap();
    for full in [false, true] {
        let gen = |ch: &mut Ch| {
            let mut g = Gen::new(&e.m, full);
            g.scalars = false;
            g.max_depth = 6;
            g.record = damage;
            g.near = damage as u8;
            let d = g.at(ch, &s, ty);
            (d, g)
        };
        let b = fit_bound(max, cap, &mut |ch| {
            gen(ch);
        });
        explore(b, u64::MAX, &mut |ch| {
            let (d, g) = gen(ch);
            f(&d);
            if ch.choices().iter().all(|x| *x == 0) {
                for s in &g.sites {
                    f(&s.apply(&d));
                }
            }
        });
    }
    c.rich(&e.m, ty, &s, if c.thorough { 20000 } else if brief() { 150 } else { 700 }, &mut |_, d, _, _| f(&d));
}

/// a shorter look, for comparing many builds of one version
fn brief() -> bool {
    std::env::args().nth(2).as_deref() == Some("brief")
}

struct Watch<'a> {
    c: &'a mut Ctx,
}
impl Watch<'_> {
    fn mine(&mut self, key: &str) -> bool {
        self.c.mine() && self.c.only.as_deref().map(|o| o == key).unwrap_or(true)
    }
    fn put(&mut self, key: String, log: Vec<Value>, runs: u64) {
        self.c.transitions += runs;
        for l in &log {
            self.c.ran("observed");
            self.c.state(&key, &l[0].to_string());
        }
        let text = serde_json::to_string(&log).unwrap();
        // a replay shows everything that was observed
        let v = if self.c.only.as_deref() == Some(&key) { text } else { format!("{:016x}", h64(&text)) };
        self.c.digests.insert(key, v);
    }
}
