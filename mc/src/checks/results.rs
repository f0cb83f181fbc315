//! C06: which result type the result of a response is read as.
use super::messages::{judge, Tables};
use crate::{env::Env, gen};
use mccore::{ctx::*, explore::*, model::*, proto::Family};
use serde_json::{json, Value};
use std::rc::Rc;

fn merge(a: &Value, b: &Value) -> Value {
    let mut r = a.clone();
    for (k, v) in b.as_object().unwrap() {
        r[k] = v.clone();
    }
    r
}

/// the alternatives of a union of results in the order in which they are tried
fn alternatives(e: &Env, ty: &str) -> Vec<(String, Option<Rc<S>>)> {
    let mut v = vec![];
    for (a, t) in gen::variants(ty) {
        if !gen::variants(t).is_empty() {
            v.extend(alternatives(e, t));
        } else if *t == "Value" {
            v.push((a.to_string(), None));
        } else {
            v.push((t.to_string(), Some(e.m.ty(t))));
        }
    }
    v
}

fn direct(e: &Env, c: &mut Ctx, ty: &str, f: fn(&Value) -> Result<String, String>, alts: &[(String, Option<Rc<S>>)], t: &Tables, d: &Value) {
    if !c.state(ty, &d.to_string()) {
        return;
    }
    c.transitions += 1;
    let want = if e.p.family == Family::New && ty == "ServerResult" {
        t.result(e, d)
    } else {
        alts.iter().find(|a| a.1.as_ref().map(|s| e.m.valid(s, d)).unwrap_or(true)).map(|a| a.0.clone())
    };
    let case = || json!({"type": ty, "document": d});
    match (want, guard(|| f(d))) {
        (_, Err(x)) => c.fail(format!("{ty}: panics"), case(), x),
        (None, Ok(Err(_))) => c.ran("refused, as required"),
        (None, Ok(Ok(v))) => c.fail(format!("{ty}: no result, read as {v}"), case(), v),
        (Some(w), Ok(Err(x))) => c.fail(format!("{ty}: {w} refused"), case(), x),
        (Some(w), Ok(Ok(v))) => {
            c.ran("read");
            let l = v.rsplit('/').next().unwrap_or("").to_string();
            c.expect(l == w || (w.starts_with("Custom") && l.starts_with("Custom")), format!("{ty}: {w} read as {l}"), case, || v.clone());
        }
    }
}

pub fn results(e: &Env, c: &mut Ctx) {
    let (max, cap) = if c.thorough { (3, 3000) } else { (1, 30) };
    for client in [true, false] {
        let t = Tables::new(e, client);
        let unions: Vec<_> = e
            .reg
            .variants
            .iter()
            .filter(|v| (if client { ["ClientResult", "ResultFromClient"] } else { ["ServerResult", "ResultFromServer"] }).contains(&v.ty))
            .map(|v| (v.ty, v.f, alternatives(e, v.ty)))
            .collect();
        let mut all = |c: &mut Ctx, r: &Value, el: &[String], whole: bool| {
            let d = json!({"jsonrpc": "2.0", "id": 7, "result": r});
            let el: Vec<String> = el.iter().map(|p| format!("/result{p}")).collect();
            judge(e, c, &t, &d, &el, true, whole);
            for (ty, f, alts) in &unions {
                if r.is_object() {
                    direct(e, c, ty, *f, alts, &t, r);
                }
            }
        };
        // every result, damaged in every single place
        for (name, s) in &t.res {
            if !c.mine() {
                continue;
            }
            for full in [false, true] {
                let mk = |ch: &mut Ch| {
                    let mut g = Gen::new(&e.m, full);
                    g.scalars = false;
                    g.max_depth = 6;
                    g.record = true;
                    let r = g.at(ch, s, name);
                    (r, g)
                };
                c.explore_fit(
                    name,
                    0,
                    max,
                    cap,
                    &mut |c, ch| {
                        let (r, g) = mk(ch);
                        all(c, &r, &g.elidable, true);
                        for site in &g.sites {
                            // null for a member that is optional in another result means absent there; not judged
                            if site.put == Some(Value::Null) && site.ptr == ["_meta"] {
                                continue;
                            }
                            all(c, &site.apply(&r), &[], false);
                        }
                        // the discriminator of the newest versions, and members of nobody
                        for v in [
                            json!("complete"),
                            json!("input_required"),
                            json!("task"),
                            json!(""),
                            json!("Complete"),
                            json!(null),
                            json!(5),
                            json!({}),
                        ] {
                            let mut r = r.clone();
                            r["resultType"] = v;
                            all(c, &r, &[], false);
                        }
                        let mut q = r.clone();
                        q.as_object_mut().unwrap().remove("resultType");
                        all(c, &q, &[], false);
                        let mut q = r.clone();
                        q["x-nobody"] = json!({"a": 1});
                        all(c, &q, &[], false);
                    },
                    &mut |ch| {
                        mk(ch);
                    },
                );
            }
        }
        for (name, s) in &t.res {
            if c.mine() {
                c.rich(&e.m, name, s, if c.thorough { 5000 } else { 500 }, &mut |c, r, g, _| all(c, &r, &g.elidable, true));
            }
        }
        // every pair of results in one document, in both precedences and all four forms
        for (na, a) in &t.res {
            if !c.mine() {
                continue;
            }
            for (nb, b) in &t.res {
                if na == nb {
                    continue;
                }
                let st = explore(usize::MAX, u64::MAX, &mut |ch| {
                    let (fa, fb) = (ch.free(2) == 1, ch.free(2) == 1);
                    let doc = |s: &Rc<S>, n: &str, full: bool| {
                        let mut g = Gen::new(&e.m, full);
                        g.scalars = false;
                        g.max_depth = 4;
                        g.at(&mut Ch::replay(vec![]), s, n)
                    };
                    let r = merge(&doc(a, na, fa), &doc(b, nb, fb));
                    all(c, &r, &[], false);
                });
                c.explored("pairs", &st);
            }
        }
        for r in [
            json!({}),
            json!({"_meta": {}}),
            json!({"_meta": {"a": 1}, "x": 1}),
            json!(null),
            json!([]),
            json!("x"),
            json!(3),
            json!(true),
        ] {
            all(c, &r, &[], false);
        }
    }
}
