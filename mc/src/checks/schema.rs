//! Checks on single documents of every type: round trip, rejection of damaged documents, constants, enums, defaults.
use crate::env::Env;
use mccore::{ctx::*, explore::*, model::*, proto::Family};
use serde_json::{json, Value};

fn covered<'a>(e: &'a Env) -> Vec<&'a crate::reg::TypeOps> {
    e.reg.types.iter().filter(|t| e.m.has(t.name)).collect()
}

/// C01: every document of the model survives parse + serialise, from text and from a JSON value
pub fn round_trip(e: &Env, c: &mut Ctx) {
    let (max, cap) = if c.thorough { (4, 12000) } else { (2, 260) };
    for t in covered(e) {
        if !c.mine() {
            continue;
        }
        let body = |c: &mut Ctx, d: Value, g: &Gen, rewrite: bool| {
            assert!(e.m.valid(&e.m.ty(t.name), &d), "generator left the model: {} {d}", t.name);
            let text = d.to_string();
            if !c.state(t.name, &text) {
                return;
            }
            let via_value = guard(|| (t.rt)(&d)).and_then(|r| r);
            verdict(c, t.name, "value", &d, via_value, &g.elidable);
            for (how, text) in [("text", text), ("rewritten text", if rewrite { rewritten(&d) } else { String::new() })] {
                if text.is_empty() {
                    continue;
                }
                let r = guard(|| (t.rts)(&text)).and_then(|r| r);
                let r = r.and_then(|s| serde_json::from_str::<Value>(&s).map_err(|e| format!("emitted text is not JSON: {e}")));
                verdict(c, t.name, how, &d, r, &g.elidable);
            }
            c.sample(json!({"type": t.name, "document": d}));
        };
        for full in [false, true] {
            let mut dry = |ch: &mut Ch| {
                Gen::new(&e.m, full).ty(ch, t.name);
            };
            c.explore_fit(
                t.name,
                1,
                max,
                cap,
                &mut |c, ch| {
                    let mut g = Gen::new(&e.m, full);
                    let d = g.ty(ch, t.name);
                    body(c, d, &g, true)
                },
                &mut dry,
            );
        }
        let cap = if c.thorough { 8000 } else { 1200 };
        c.rich(&e.m, t.name, &e.m.ty(t.name), cap, &mut |c, d, g, flavor| body(c, d, g, flavor > 0));
    }
}

fn verdict(c: &mut Ctx, ty: &str, how: &str, d: &Value, r: Result<Value, String>, el: &[String]) {
    match r {
        Ok(e) => match diff_but(d, &e, el) {
            None => c.ran("preserved"),
            Some(x) => {
                c.ran("changed");
                let at = x.split(": ").next().unwrap_or("").to_string();
                c.fail(format!("{ty}: {at} changed"), json!({"type": ty, "via": how, "document": d, "emitted": e}), x)
            }
        },
        Err(x) => {
            c.ran("rejected");
            c.fail(format!("{ty}: conforming document rejected"), json!({"type": ty, "via": how, "document": d}), x)
        }
    }
}

/// C02/C03: every single damage to a conforming document that leaves the schema is refused
pub fn damaged(e: &Env, c: &mut Ctx, constants: bool) {
    let (max, cap, depth) = if c.thorough { (2, 400, 9) } else { (1, 40, 7) };
    for t in covered(e) {
        // messages are judged by the message checks
        if !t.schema || (t.name == "ServerResult" && e.p.family == Family::New) || !c.mine() {
            continue;
        }
        let sch = e.m.ty(t.name);
        for full in [false, true] {
            let mut dry = |ch: &mut Ch| {
                let mut g = Gen::new(&e.m, full);
                g.scalars = false;
                g.max_depth = depth;
                g.ty(ch, t.name);
            };
            c.explore_fit(
                t.name,
                0,
                max,
                cap,
                &mut |c, ch| {
                    let mut g = Gen::new(&e.m, full);
                    g.scalars = false;
                    g.max_depth = depth;
                    g.record = true;
                    g.near = if c.thorough { 2 } else { 1 };
                    let good = g.ty(ch, t.name);
                    for site in &g.sites {
                        // a constant that is missing or no text is the business of both checks
                        let gross = !constants && site.put.as_ref().is_none_or(|v| !v.is_string());
                        if site.constant != constants && !gross {
                            continue;
                        }
                        let d = site.apply(&good);
                        let text = d.to_string();
                        if !c.state(t.name, &text) {
                            continue;
                        }
                        c.transitions += 1;
                        if e.m.valid(&sch, &d) {
                            c.ran("damage stays within the schema");
                            // it may be refused, but not be read as something else
                            if !constants {
                                let got = guard(|| (t.rt)(&d));
                                let ok = matches!(&got, Ok(Err(_))) || matches!(&got, Ok(Ok(g)) if contained(g, &d));
                                c.expect(ok, format!("{}: read as something else with {}", t.name, site.note), || json!({"type": t.name, "document": d}), || format!("{got:?}"));
                            }
                            continue;
                        }
                        let r1 = guard(|| (t.rt)(&d));
                        let r2 = guard(|| (t.rts)(&text));
                        for (how, r) in [("value", r1.map(|r| r.map(|v| v.to_string()))), ("text", r2)] {
                            match r {
                                Err(p) => {
                                    c.ran("panicked");
                                    c.fail(format!("{}: panics", t.name), json!({"type": t.name, "via": how, "document": d}), p)
                                }
                                Ok(Err(_)) => c.ran("refused"),
                                Ok(Ok(got)) => {
                                    c.ran("accepted");
                                    c.fail(
                                        format!("{}: accepted with {}", t.name, site.note),
                                        json!({"type": t.name, "via": how, "document": d, "read as": got}),
                                        site.note.clone(),
                                    )
                                }
                            }
                        }
                        c.sample(json!({"type": t.name, "damage": site.note, "document": d}));
                    }
                },
                &mut dry,
            );
        }
    }
}

/// nothing that is not in `d`, but for members that are null or empty lists
fn contained(g: &Value, d: &Value) -> bool {
    match (g, d) {
        (Value::Object(g), Value::Object(d)) => g.iter().all(|(k, v)| d.get(k).map(|d| contained(v, d)).unwrap_or(v.is_null() || *v == json!([]))),
        (Value::Array(g), Value::Array(d)) => g.len() == d.len() && g.iter().zip(d).all(|(g, d)| contained(g, d)),
        _ => same(g, d),
    }
}
