//! slim OUT.json [VERSION TYPE]: reads and writes every published type of the enabled versions, with or without
//! schema_utils; one digest per type, or everything about one type.
use mccore::{ctx::*, explore::*, model::*};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
mod types;

pub fn rt<T: DeserializeOwned + Serialize>(v: &Value) -> Option<Value> {
    let x: T = serde_json::from_value(v.clone()).ok()?;
    serde_json::to_value(&x).ok()
}
pub fn rts<T: DeserializeOwned + Serialize>(s: &str) -> Option<String> {
    let x: T = serde_json::from_str(s).ok()?;
    serde_json::to_string(&x).ok()
}

type Ops = (&'static str, fn(&Value) -> Option<Value>, fn(&str) -> Option<String>);

/// everything read and written of one type, in one order
fn observe(m: &Model, c: &mut Ctx, (ty, rt, rts): Ops) -> Vec<Value> {
    let mut log = vec![];
    let mut see = |d: &Value| {
        let x = guard(|| rt(d)).unwrap_or(Some(json!("panic")));
        let y = guard(|| rts(&d.to_string())).unwrap_or(Some("panic".into()));
        log.push(json!([d, x, y]));
    };
    let s = m.ty(ty);
    for full in [false, true] {
        let gen = |ch: &mut Ch| {
            let mut g = Gen::new(m, full);
            g.scalars = false;
            g.max_depth = 6;
            g.record = true;
            g.near = 1;
            let d = g.at(ch, &s, ty);
            (d, g)
        };
        let b = fit_bound(1, 40, &mut |ch| drop(gen(ch)));
        explore(b, u64::MAX, &mut |ch| {
            let (d, g) = gen(ch);
            see(&d);
            if ch.choices().iter().all(|x| *x == 0) {
                for s in &g.sites {
                    see(&s.apply(&d));
                }
            }
        });
    }
    // every value of an enumeration, and texts that are nearly one
    if let Some(a) = m.raw.get(ty).and_then(|s| s["enum"].as_array()) {
        for v in a.iter().filter_map(|v| v.as_str()) {
            let mut cs = v.chars();
            let first = cs.next().map(|f| f.to_uppercase().to_string() + cs.as_str()).unwrap_or_default();
            for t in [v.to_string(), v.to_uppercase(), first, v.replace('-', "_"), format!(" {v}")] {
                see(&json!(t));
            }
        }
    }
    c.rich(m, ty, &s, 100, &mut |_, d, _, _| see(&d));
    log
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    let mut lanes = vec![];
    for (version, model, list) in types::all() {
        if a.len() > 2 && a[2] != version {
            continue;
        }
        for lane in 0..2 {
            let only = a.get(3).cloned();
            let list: Vec<Ops> = list.iter().skip(lane).step_by(2).copied().filter(|t| only.as_deref().map(|o| o == t.0).unwrap_or(true)).collect();
            lanes.push(std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
                let m = Model::load(model);
                let mut c = Ctx::new("C26", version, false, None);
                let f = |t: Ops| {
                    let log = observe(&m, &mut c, t);
                    let n = log.len();
                    let v = if only.is_some() { json!(log) } else { json!([format!("{:016x}", h64(&json!(log).to_string())), n]) };
                    (format!("{version}: reading {}", t.0), v)
                };
                list.into_iter().map(f).collect::<Vec<_>>()
            }));
        }
    }
    let mut out = serde_json::Map::new();
    for l in lanes {
        match l.unwrap().join() {
            Ok(x) => out.extend(x),
            Err(_) => std::process::exit(3),
        }
    }
    std::fs::write(&a[1], Value::Object(out).to_string()).unwrap();
}
