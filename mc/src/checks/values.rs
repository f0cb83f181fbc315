//! C12 protocol versions, C15 reading from text, C16 request ids, C17 elicitation field schemas, C18 enumerations as text.
use super::{batch::representatives, messages::more_ids};
use crate::{env::Env, hand::values as hv};
use mccore::{ctx::*, explore::*, model::*};
use serde_json::{json, Value};
use std::collections::BTreeSet;

/// all strings at most `depth` single-character edits away from s
pub fn edits(s: &str, alphabet: &[char], depth: usize) -> BTreeSet<String> {
    let mut all: BTreeSet<String> = [s.to_string()].into();
    let mut last = all.clone();
    for _ in 0..depth {
        let mut next = BTreeSet::new();
        for s in &last {
            let cs: Vec<char> = s.chars().collect();
            for i in 0..=cs.len() {
                let (a, b) = (cs[..i].iter().collect::<String>(), &cs[i..]);
                for c in alphabet {
                    next.insert(format!("{a}{c}{}", b.iter().collect::<String>()));
                    if !b.is_empty() {
                        next.insert(format!("{a}{c}{}", b[1..].iter().collect::<String>()));
                    }
                }
                if !b.is_empty() {
                    next.insert(format!("{a}{}", b[1..].iter().collect::<String>()));
                    next.insert(a.clone());
                    let flip: String = if b[0].is_uppercase() { b[0].to_lowercase().collect() } else { b[0].to_uppercase().collect() };
                    next.insert(format!("{a}{flip}{}", b[1..].iter().collect::<String>()));
                }
                if b.len() > 1 {
                    next.insert(format!("{a}{}{}{}", b[1], b[0], b[2..].iter().collect::<String>()));
                }
            }
        }
        all.extend(next.iter().cloned());
        last = next;
    }
    all
}

pub fn versions(e: &Env, c: &mut Ctx) {
    let table = [
        ("2024-11-05", "V2024_11_05"),
        ("2025-03-26", "V2025_03_26"),
        ("2025-06-18", "V2025_06_18"),
        ("2025-11-25", "V2025_11_25"),
        ("2026-07-28", "V2026_07_28"),
        ("DRAFT", "Draft"),
    ];
    let list = table[..5].iter().map(|t| t.0).collect::<Vec<_>>().join(", ");
    let mut all: BTreeSet<String> = ["", "latest", "2024_11_05", "v2025-11-25", "V2025_11_25", "2025-11-25\n", "\u{feff}DRAFT", "2026-07-28-draft", "1.0"]
        .map(String::from)
        .into();
    for (s, _) in table {
        all.extend(edits(s, &['0', '1', '2', '5', '6', '9', '-', '_', 'D', 'r', ' ', '\u{662}'], if c.thorough { 2 } else { 1 }));
    }
    if !c.thorough {
        // two edits within the characters that versions are made of
        for (s, _) in table {
            all.extend(edits(s, &['0', '2', '5', '8'], 2));
        }
    }
    for s in &all {
        c.state("version text", s);
        c.transitions += 1;
        let want = table.iter().find(|t| t.0 == s);
        let r = guard(|| hv::version(s));
        c.ran(if want.is_some() { "version read" } else { "other text refused" });
        let case = || json!({ "text": s });
        match (r, want) {
            (Err(p), _) => c.fail("reading a version panics", case(), p),
            (Ok(Ok((n, v))), Some(w)) => {
                c.expect(n == w.1, "read as another version", case, || n.clone());
                c.expect(v.to_string() == w.0, "displayed as another version", case, || v.to_string());
                c.expect(hv::owned(v) == w.0, "turned into another text", case, String::new);
            }
            (Ok(Err(x)), Some(_)) => c.fail("a supported version is refused", case(), x.0),
            (Ok(Ok((n, _))), None) => c.fail("an unknown version is accepted", case(), n),
            (Ok(Err((m, _))), None) => {
                let w = format!("Unsupported protocol version : {s}. Supported versions: {list}");
                c.expect(m == w, "the error does not name the text and the supported versions", case, || m.clone());
            }
        }
    }
    for draft in [false, true] {
        let v: Vec<String> = hv::supported(draft).iter().map(|v| v.to_string()).collect();
        let w: Vec<&str> = table[..if draft { 6 } else { 5 }].iter().map(|t| t.0).collect();
        c.ran("supported versions listed");
        c.state("supported", &draft.to_string());
        c.expect(v == w, "wrong list of supported versions", || json!({ "draft": draft }), || format!("{v:?}"));
        let vs = hv::supported(draft);
        for (i, a) in vs.iter().enumerate() {
            for (k, b) in hv::supported(draft).iter().enumerate() {
                c.transitions += 1;
                c.ran("versions compared");
                c.expect(
                    (a == b) == (i == k) && a.cmp(b) == i.cmp(&k) && a.partial_cmp(b) == Some(i.cmp(&k)),
                    "versions are not ordered by age",
                    || json!([w[i], w[k]]),
                    String::new,
                );
            }
        }
    }
    c.expect(hv::latest().to_string() == "2026-07-28", "wrong latest version", || json!(null), || hv::latest().to_string());
    // the schema module names itself
    let own = match e.version {
        "draft" => "2026-07-28".to_string(),
        v => v.replace('_', "-"),
    };
    c.ran("constant read");
    c.state("constant", &own);
    c.expect(hv::LATEST == own, "the schema module names another version", || json!(e.version), || hv::LATEST.to_string());
    c.expect(
        hv::JSONRPC == "2.0",
        "the schema module names another JSON-RPC version",
        || json!(e.version),
        || hv::JSONRPC.to_string(),
    );
    c.sample(json!({"texts": all.len()}));
}

pub fn text(e: &Env, c: &mut Ctx) {
    let alphabet = ['"', '\\', '{', '}', '[', ']', ',', ':', '0', '-', '.', 'e', 'n', ' ', '\n', '\u{0}', '\u{e9}'];
    for f in &e.reg.fromstrs {
        let rpc = !matches!(f.ty, "Role" | "StringSchemaFormat");
        if !rpc || !c.mine() {
            continue;
        }
        let op = e.reg.ty(f.ty).unwrap();
        let disp = e.reg.displays.iter().find(|d| d.ty == f.ty);
        let few = representatives(e, f.ty.starts_with("Client"), c.thorough);
        let mut docs: Vec<Value> = if f.ty.starts_with("Client") || f.ty.starts_with("Server") {
            representatives(e, f.ty.starts_with("Client"), true)
        } else {
            vec![]
        };
        for d in [
            json!({"jsonrpc": "2.0", "id": 7, "error": {"code": -32601, "message": "no", "data": [1]}}),
            json!({"jsonrpc": "2.0", "id": "x\u{1F600}\"\\\n", "error": {"code": 0, "message": ""}}),
            json!({"code": -32601, "message": "no", "data": {"a": null}}),
            json!({"jsonrpc": "2.0", "id": 1, "result": {}}),
        ] {
            if !docs.contains(&d) {
                docs.push(d);
            }
        }
        let mut texts: Vec<(String, bool)> = vec![];
        for d in &docs {
            let s = d.to_string();
            // whole, padded, and joined with more text
            for t in [
                s.clone(),
                format!(" \t\r\n{s}\n "),
                serde_json::to_string_pretty(d).unwrap(),
                format!("{s}{s}"),
                format!("{s},"),
                format!("{s}\u{0}"),
                format!("\u{feff}{s}"),
                format!("[{s}]"),
                json!(s).to_string(),
                format!("{s}//"),
            ] {
                texts.push((t, false));
            }
            let cs: Vec<char> = s.chars().collect();
            // every way of ending early and every single-character change
            let long = !c.thorough && (cs.len() > 200 || d.get("jsonrpc").is_some() && !few.contains(d));
            for i in 0..cs.len() {
                let (a, b): (String, String) = (cs[..i].iter().collect(), cs[i + 1..].iter().collect());
                texts.push((a.clone(), true));
                if long {
                    continue;
                }
                texts.push((format!("{a}{b}"), true));
                for x in alphabet {
                    if x != cs[i] {
                        texts.push((format!("{a}{x}{b}"), true));
                    }
                    texts.push((format!("{a}{x}{}{b}", cs[i]), true));
                }
            }
        }
        // documents with many more values
        let sch: Vec<std::rc::Rc<S>> = if e.m.has(f.ty) { vec![e.m.ty(f.ty)] } else { vec![] };
        for s in &sch {
            c.rich(&e.m, f.ty, s, if c.thorough { 4000 } else { 800 }, &mut |_, d, _, _| {
                texts.push((d.to_string(), false));
                texts.push((rewritten(&d), false));
            });
        }
        for d in &docs {
            for i in more_ids() {
                let mut d = d.clone();
                d["id"] = i;
                texts.push((d.to_string(), false));
                texts.push((rewritten(&d), false));
            }
        }
        for s in ["", "null", "true", "0", "\"\"", "[]", "{}", "nul", "\u{0}", "{\"jsonrpc\"", "[[[[", "{\"a\":1e999}"] {
            texts.push((s.into(), false));
        }
        texts.push(("[".repeat(100_000), false));
        texts.push(("{\"a\":".repeat(100_000), false));
        for (s, _) in &texts {
            if !c.state(f.ty, s) {
                continue;
            }
            c.transitions += 1;
            let case = || json!({"type": f.ty, "text": s.chars().take(600).collect::<String>()});
            let v: Result<Value, _> = serde_json::from_str(s);
            let want = match &v {
                Ok(v) => guard(|| (op.rt)(v)),
                Err(_) => Ok(Err(String::new())),
            };
            let got = guard(|| (f.f)(s));
            match (got, want) {
                (Err(p), _) => c.fail(format!("{}: reading text panics", f.ty), case(), p),
                (_, Err(p)) => c.fail(format!("{}: reading a value panics", f.ty), case(), p),
                (Ok(Ok(g)), Ok(Ok(w))) => {
                    c.ran("read");
                    c.expect(g == w, format!("{}: read from text as something else than from a value", f.ty), case, || format!("{g} / {w}"));
                    if let (Some(d), Ok(v)) = (disp, &v) {
                        let shown = guard(|| (d.f)(v)).and_then(|x| x).unwrap_or_default();
                        c.expect(
                            serde_json::from_str::<Value>(&shown).ok().as_ref() == Some(&g),
                            format!("{}: displayed as something else", f.ty),
                            case,
                            || shown.clone(),
                        );
                        // what is not even stable as a value is not a matter of text
                        let stable = guard(|| (op.rt)(&g)).and_then(|x| x).as_ref() == Ok(&g);
                        let again = guard(|| (f.f)(&shown)).and_then(|x| x);
                        c.expect(!stable || again.as_ref() == Ok(&g), format!("{}: its displayed text is read as something else", f.ty), case, || {
                            format!("{again:?}")
                        });
                    }
                }
                (Ok(Err(m)), Ok(Err(_))) => {
                    c.ran(if v.is_err() { "not JSON, refused" } else { "not of the type, refused" });
                    let m: Value = serde_json::from_str(&m).unwrap_or_default();
                    let details = m["data"]["details"].as_str().unwrap_or("");
                    c.expect(m["code"] == -32700, format!("{}: refused with another error than a parse error", f.ty), case, || m.to_string());
                    c.expect(!details.is_empty(), format!("{}: refused without details", f.ty), case, || m.to_string());
                }
                (Ok(Ok(g)), Ok(Err(w))) => {
                    c.ran("accepted");
                    c.fail(format!("{}: text accepted that is refused as a value", f.ty), case(), format!("{g} / {w}"))
                }
                (Ok(Err(g)), Ok(Ok(w))) => {
                    // two members of one name are an error only in text
                    if g.contains("duplicate field") {
                        c.ran("duplicate member refused");
                        continue;
                    }
                    c.ran("refused");
                    c.fail(format!("{}: text refused that is accepted as a value", f.ty), case(), format!("{g} / {w}"))
                }
            }
        }
        c.sample(json!({"type": f.ty, "texts": texts.len()}));
    }
    *c.bounds.entry("single-character changes and early ends of every text".into()).or_insert(0) += 1;
}

pub fn ids(e: &Env, c: &mut Ctx) {
    let mut vals = vec![
        json!(0),
        json!(1),
        json!(-1),
        json!(7),
        json!(i64::MAX),
        json!(i64::MIN),
        json!(1i64 << 53),
        json!((1i64 << 53) + 1),
        json!(""),
        json!("0"),
        json!("1"),
        json!("-1"),
        json!("01"),
        json!("1 "),
        json!("a"),
        json!("A"),
        json!("\u{e9}"),
        json!("e\u{301}"),
        json!("\u{1F600}"),
        json!("9223372036854775807"),
        json!("null"),
        json!("\u{0}"),
        json!("1\u{0}"),
    ];
    for n in [15, 63, 300] {
        for end in ["a", "b", ""] {
            vals.push(json!(format!("{}{end}", "x".repeat(n))));
            vals.push(json!(format!("{end}{}", "x".repeat(n))));
        }
    }
    for v in more_ids() {
        if !vals.contains(&v) {
            vals.push(v);
        }
    }
    vals.sort_by_key(|v| v.to_string());
    vals.dedup();
    let shown = |v: &Value| v.as_str().map(String::from).unwrap_or_else(|| v.to_string());
    for a in &vals {
        let s = e.reg.displays.iter().find(|d| d.ty == "RequestId").map(|d| guard(|| (d.f)(a)).and_then(|x| x));
        c.expect(s == Some(Ok(shown(a))), "an id is displayed as something else", || a.clone(), || format!("{s:?}"));
        for b in &vals {
            c.state("pair", &format!("{a} {b}"));
            c.transitions += 1;
            c.ran("ids compared");
            let case = || json!([a, b]);
            let r = match guard(|| hv::ids(a, b)).and_then(|x| x) {
                Ok(r) => r,
                Err(x) => {
                    c.fail("comparing ids fails", case(), x);
                    continue;
                }
            };
            let same = a == b;
            let kind = match (a.is_string(), b.is_string()) {
                (true, true) => "two texts",
                (false, false) => "two numbers",
                _ => "a text and a number",
            };
            c.expect(
                r["eq"] == same && r["ne"] != same && r["ref"] == same && r["refs"] == same && r["clone"] == true,
                format!("{kind}: equality is not that of the ids"),
                case,
                || r.to_string(),
            );
            c.expect(!same || r["same hash"] == true, format!("{kind}: equal ids have different hashes"), case, || r.to_string());
            c.expect(
                r["found"] == same && r["set"] == json!(if same { 1 } else { 2 }),
                format!("{kind}: as keys of a table they are told apart wrongly"),
                case,
                || r.to_string(),
            );
            c.expect(
                r["wire"] == same && r["wire back"] == same && r["sent"] == json!([a, b]),
                format!("{kind}: sent and read again they are told apart wrongly"),
                case,
                || r.to_string(),
            );
            c.expect(r["display"] == json!([shown(a), shown(b)]), format!("{kind}: displayed as something else"), case, || r.to_string());
        }
    }
    // every history of waiting for and settling requests whose ids look alike
    let like = [json!(1), json!("1"), json!(-1), json!(""), json!("a")];
    let n = like.len();
    let len = if c.thorough { 5 } else { 4 };
    let st = explore(usize::MAX, u64::MAX, &mut |ch| {
        let k = ch.free(len) + 1;
        let ops: Vec<(bool, &Value)> = (0..k)
            .map(|_| {
                let x = ch.free(2 * n);
                (x < n, &like[x % n])
            })
            .collect();
        let mut m: std::collections::BTreeMap<String, usize> = Default::default();
        let seen: Vec<Option<usize>> = ops
            .iter()
            .enumerate()
            .map(|(i, (put, id))| if *put { m.insert(id.to_string(), i) } else { m.remove(&id.to_string()) })
            .collect();
        let mut left: Vec<usize> = m.into_values().collect();
        left.sort();
        let want = json!([seen, left]);
        let case = || json!(ops.iter().map(|(p, i)| json!([if *p { "wait for" } else { "settle" }, i])).collect::<Vec<_>>());
        c.state("history", &case().to_string());
        c.ran("history of waiting requests");
        let r = guard(|| hv::table(&ops)).and_then(|x| x);
        c.expect(r.as_ref() == Ok(&want), "a table of waiting requests mixes up ids", case, || format!("{r:?} expected {want}"));
    });
    c.explored("histories", &st);
    c.sample(json!({"ids": vals}));
}

pub fn primitives(e: &Env, c: &mut Ctx) {
    if !e.m.has("PrimitiveSchemaDefinition") {
        return;
    }
    let old = e.m.has("EnumSchema") && !e.m.has("LegacyTitledEnumSchema");
    let sch = e.m.ty("PrimitiveSchemaDefinition");
    let kind = |d: &Value| -> &str {
        let has = |k: &str| d.get(k).is_some();
        if old && has("enum") && d["type"] == "string" {
            "EnumSchema"
        } else if !old && has("oneOf") {
            "TitledSingleSelectEnumSchema"
        } else if !old && has("enum") {
            if has("enumNames") {
                "LegacyTitledEnumSchema"
            } else {
                "UntitledSingleSelectEnumSchema"
            }
        } else {
            match d["type"].as_str() {
                Some("string") => "StringSchema",
                Some("number" | "integer") => "NumberSchema",
                Some("boolean") => "BooleanSchema",
                Some("array") if d["items"].get("anyOf").is_some() => "TitledMultiSelectEnumSchema",
                Some("array") => "UntitledMultiSelectEnumSchema",
                _ => "?",
            }
        }
    };
    // conforming as the kind it claims to be (a plain string schema is open to anything)
    let conforms = |d: &Value| e.m.valid(&sch, d) && e.m.has(kind(d)) && e.m.valid(&e.m.ty(kind(d)), d);
    let refusal = |c: &mut Ctx, x: &Value, case: &dyn Fn() -> Value| {
        c.expect(
            x["code"] == -32700 && x["message"].as_str().map_or(false, |m| !m.is_empty() && m != "Parse error"),
            "a refusal is no parse error saying what is wrong",
            case,
            || x.to_string(),
        );
    };
    let (max, cap) = if c.thorough { (6, 200000) } else { (5, 12000) };
    let members: Vec<String> = e.m.flat(&e.m.raw["PrimitiveSchemaDefinition"])["anyOf"]
        .as_array()
        .unwrap()
        .iter()
        .map(|r| r["$ref"].as_str().unwrap().rsplit('/').next().unwrap().to_string())
        .collect();
    for t in &members {
        let body = |c: &mut Ctx, d: Value, g: &Gen| {
            if !c.state("schema", &d.to_string()) {
                return;
            }
            let mut before = Value::Null;
            let case = || json!({ "schema": d });
            match guard(|| hv::primitive(&d).unwrap()) {
                Err(p) => c.fail(format!("{t}: panics"), case(), p),
                Ok(Err(x)) => {
                    c.ran("refused");
                    c.fail(format!("{t}: a conforming schema is refused"), case(), x.to_string())
                }
                Ok(Ok(x)) => {
                    before = x["variant"].clone();
                    c.ran("converted");
                    c.expect(x["variant"] == kind(&d), format!("{t}: taken for another kind"), case, || x.to_string());
                    if let Some(diff) = diff_but(&d, &x["emit"], &g.elidable) {
                        c.fail(format!("{t}: {} changed", diff.split(": ").next().unwrap_or("")), case(), format!("{diff}: {}", x["emit"]));
                    }
                }
            }
            let good = &d;
            for site in &g.sites {
                let d = site.apply(&d);
                if !d.is_object() || !c.state("damaged schema", &d.to_string()) {
                    continue;
                }
                c.transitions += 1;
                let case = || json!({ "schema": d });
                match guard(|| hv::primitive(&d).unwrap()) {
                    Err(p) => c.fail(format!("{t}: panics"), case(), p),
                    Ok(Err(x)) => {
                        c.ran("damaged schema refused");
                        refusal(c, &x, &case);
                        c.expect(!conforms(&d), format!("{t}: a conforming schema is refused"), case, || x.to_string());
                    }
                    Ok(Ok(x)) => {
                        c.ran("damaged schema read without its damaged member");
                        c.expect(e.m.valid(&sch, &x["emit"]), format!("{t}: something that is no field schema is made of a damaged one"), case, || {
                            x.to_string()
                        });
                        let extra = x["emit"].as_object().unwrap().iter().find(|(k, v)| d.get(k.as_str()).map_or(true, |w| !same(w, v)));
                        c.expect(extra.is_none(), format!("{t}: content is invented for a damaged schema"), case, || x.to_string());
                        c.expect(!conforms(&d) || x["variant"] == kind(&d), format!("{t}: taken for another kind"), case, || x.to_string());
                        if x["variant"] == before {
                            let lost = good
                                .as_object()
                                .unwrap()
                                .iter()
                                .find(|(k, v)| site.ptr[0] != **k && !v.is_null() && x["emit"].get(k.as_str()).map_or(true, |w| !same(w, v)));
                            c.expect(lost.is_none(), format!("{t}: a damaged member costs another one"), case, || format!("{lost:?}"));
                        }
                    }
                }
            }
        };
        for full in [false, true] {
            let mut dry = |ch: &mut Ch| {
                Gen::new(&e.m, full).ty(ch, t);
            };
            c.explore_fit(
                t,
                1,
                max,
                cap,
                &mut |c, ch| {
                    let mut g = Gen::new(&e.m, full);
                    g.record = true;
                    let d = g.ty(ch, t);
                    body(c, d, &g);
                },
                &mut dry,
            );
        }
        c.rich(&e.m, t, &e.m.ty(t), 8000, &mut |c, d, g, _| body(c, d, g));
    }
    // the oldest version with elicitation also takes choices written as a list of titled alternatives
    if old {
        let alt = |ch: &mut Ch, k: usize| {
            let x = ["a", "b", ""][(k + ch.free(3)) % 3];
            let mut a = json!({ "enum": [x] });
            if ch.free(2) == 1 {
                a["title"] = json!(format!("T{k}"));
            }
            a
        };
        let st = explore(usize::MAX, u64::MAX, &mut |ch| {
            let alts: Vec<Value> = (0..ch.free(4)).map(|k| alt(ch, k)).collect();
            let mut d = json!({ "oneOf": alts });
            let mut w = json!({"type": "string", "enum": alts.iter().map(|a| a["enum"][0].clone()).collect::<Vec<_>>(),
                "enumNames": alts.iter().map(|a| a.get("title").unwrap_or(&a["enum"][0]).clone()).collect::<Vec<_>>()});
            for k in ["title", "description"] {
                if ch.free(2) == 1 {
                    d[k] = json!(k);
                    w[k] = json!(k);
                }
            }
            c.state("alternatives", &d.to_string());
            c.ran("alternatives converted");
            let r = guard(|| hv::primitive(&d).unwrap());
            let ok = matches!(&r, Ok(Ok(x)) if x["variant"] == "EnumSchema" && diff_but(&w, &x["emit"], &["/enumNames".to_string()]).is_none());
            c.expect(ok, "titled alternatives are changed", || json!({ "schema": d }), || format!("{r:?} expected {w}"));
            // one alternative that is no single text
            for bad in [json!({}), json!({"enum": []}), json!({"enum": [1]}), json!({"enum": "a"}), json!(5)] {
                let mut d = d.clone();
                d["oneOf"].as_array_mut().unwrap().push(bad);
                c.transitions += 1;
                c.ran("bad alternative tried");
                match guard(|| hv::primitive(&d).unwrap()) {
                    Err(p) => c.fail("a bad alternative panics", json!({ "schema": d }), p),
                    Ok(Ok(x)) => c.fail("a bad alternative is accepted", json!({ "schema": d }), x.to_string()),
                    Ok(Err(x)) => refusal(c, &x, &|| json!({ "schema": d })),
                }
            }
        });
        c.explored("alternatives", &st);
    }
    // types that are no primitive ones, and near misses of those that are
    let mut types: BTreeSet<String> = ["object", "null", "enum", "", "any", "file", "array"].map(String::from).into();
    for t in ["string", "number", "integer", "boolean"] {
        types.extend(edits(t, &['s', ' ', '1'], 1));
    }
    for t in types {
        for extra in [
            json!({}),
            json!({"title": "t", "description": "d"}),
            json!({"default": 1}),
            json!({"items": {}}),
            json!({"items": 5}),
            json!({"items": {"type": "string"}}),
        ] {
            let mut d = extra.clone();
            d["type"] = json!(t);
            c.state("type", &d.to_string());
            c.transitions += 1;
            c.ran("type tried");
            let case = || json!({ "schema": d });
            let good = matches!(t.as_str(), "string" | "number" | "integer" | "boolean");
            match guard(|| hv::primitive(&d).unwrap()) {
                Err(p) => c.fail("a type panics", case(), p),
                Ok(Ok(x)) => {
                    c.expect(good, "an unsupported type is accepted", case, || x.to_string());
                }
                Ok(Err(x)) => {
                    c.expect(!good, "a supported type is refused", case, || x.to_string());
                    refusal(c, &x, &case);
                }
            }
        }
    }
    for d in [json!({}), json!({"type": null}), json!({"type": 1}), json!({"type": ["string"]}), json!({"title": "string"})] {
        c.ran("type tried");
        match guard(|| hv::primitive(&d).unwrap()) {
            Err(p) => c.fail("a type panics", d.clone(), p),
            Ok(Ok(x)) => c.fail("an unsupported type is accepted", d.clone(), x.to_string()),
            Ok(Err(x)) => refusal(c, &x, &|| d.clone()),
        }
    }
}

pub fn enums(e: &Env, c: &mut Ctx) {
    for t in &e.reg.types {
        if !e.m.raw.contains_key(t.name) {
            continue;
        }
        let s = e.m.flat(&e.m.raw[t.name]);
        let vals: Vec<String> = match (&s["enum"], &s["const"]) {
            (Value::Array(a), _) => a.iter().filter_map(|v| v.as_str().map(String::from)).collect(),
            (_, Value::String(x)) => vec![x.clone()],
            _ => continue,
        };
        let disp = e.reg.displays.iter().find(|d| d.ty == t.name);
        let parse = e.reg.fromstrs.iter().find(|f| f.ty == t.name);
        let mut all: BTreeSet<String> = ["", "null", "unknown", "default"].map(String::from).into();
        let depth = if c.thorough { 2 } else { 1 };
        for v in &vals {
            all.extend(edits(v, &['a', 's', 'E', '-', '_', ' ', '0', '"'], depth));
            for k in [v.to_uppercase(), v.replace('-', "_"), v.replace('-', ""), format!("\"{v}\""), v.replace('_', "-")] {
                all.insert(k);
            }
            let mut cs = v.chars();
            all.extend(cs.next().map(|f| f.to_uppercase().to_string() + cs.as_str()));
        }
        let mut read: Vec<String> = vec![];
        for x in &all {
            c.state(t.name, x);
            c.transitions += 1;
            let want = vals.contains(x);
            c.ran(if want { "value read" } else { "other text refused" });
            let case = || json!({"type": t.name, "text": x});
            let r = guard(|| (t.rt)(&json!(x)));
            let r2 = guard(|| (t.rts)(&json!(x).to_string()));
            let ok = if want {
                r == Ok(Ok(json!(x))) && r2 == Ok(Ok(json!(x).to_string()))
            } else {
                matches!(r, Ok(Err(_))) && matches!(r2, Ok(Err(_)))
            };
            c.expect(
                ok,
                format!("{}: {}", t.name, if want { "a value is not read as itself" } else { "another text is accepted" }),
                case,
                || format!("{r:?} {r2:?}"),
            );
            if let (true, Some(d)) = (want, disp) {
                let s = guard(|| (d.f)(&json!(x))).and_then(|x| x);
                c.expect(s.as_ref() == Ok(x), format!("{}: displayed as another text", t.name), case, || format!("{s:?}"));
            }
            if let Some(p) = parse {
                let r = guard(|| (p.f)(x));
                let ok = if want { r == Ok(Ok(json!(x))) } else { matches!(r, Ok(Err(_))) };
                c.expect(
                    ok,
                    format!("{}: {}", t.name, if want { "its displayed text is not read as itself" } else { "another displayed text is accepted" }),
                    case,
                    || format!("{r:?}"),
                );
            }
            if want {
                read.push(x.clone());
            }
        }
        c.expect(read.len() == vals.len(), format!("{}: not every value was tried", t.name), || json!(vals), String::new);
        // every value is the same as itself and as no other
        for f in e.reg.sames.iter().filter(|f| f.ty == t.name) {
            for a in &vals {
                for b in &vals {
                    c.state(t.name, &format!("{a} {b}"));
                    c.transitions += 1;
                    c.ran("values compared");
                    let r = guard(|| (f.f)(&json!(a), &json!(b)));
                    let ok = matches!(&r, Ok(Ok(r)) if r.iter().all(|s| *s == (a == b)));
                    let key = if a == b { "a value is not the same as itself" } else { "different values are the same" };
                    c.expect(ok, format!("{}: {key}", t.name), || json!({"type": t.name, "values": [a, b]}), || format!("{r:?}"));
                }
            }
        }
        c.sample(json!({"type": t.name, "values": vals}));
    }
}
