//! C14: error values carry the code and text of what they are named for. C20: tool errors become error results.
use crate::{
    env::Env,
    gen,
    hand::errs::{self, Mk, E},
};
use mccore::{ctx::*, explore::*, model::*, proto::Family};
use serde_json::{json, Value};

const CODES: &[(&str, i64, &str)] = &[
    ("CONNECTION_CLOSED", -32000, "Connection closed"),
    ("REQUEST_TIMEOUT", -32001, "Request timeout"),
    ("RESOURCE_NOT_FOUND", -32002, "Resource not found"),
    ("BAD_REQUEST", -32015, "Bad request"),
    ("SESSION_NOT_FOUND", -32016, "Session not found"),
    ("INVALID_REQUEST", -32600, "Invalid request"),
    ("METHOD_NOT_FOUND", -32601, "Method not found"),
    ("INVALID_PARAMS", -32602, "Invalid params"),
    ("INTERNAL_ERROR", -32603, "Internal error"),
    ("PARSE_ERROR", -32700, "Parse Error"),
    ("URL_ELICITATION_REQUIRED", -32042, "A required URL was not provided. Please supply the requested URL to continue."),
    ("HEADER_MISMATCH", -32020, ""),
    ("MISSING_REQUIRED_CLIENT_CAPABILITY", -32021, "Missing required client capability"),
    ("UNSUPPORTED_PROTOCOL_VERSION", -32022, "Unsupported protocol version"),
];
fn code(n: &str) -> (i64, &'static str) {
    let c = CODES.iter().find(|c| c.0 == n).unwrap();
    (c.1, c.2)
}

/// what an error is expected to look like
#[derive(Clone)]
struct M {
    rpc: bool,
    code: i64,
    message: String,
    data: Option<Value>,
}
impl M {
    fn check(&self, c: &mut Ctx, what: &str, e: &E, case: &dyn Fn() -> Value) {
        c.ran("error built");
        let v = match guard(|| e.view()) {
            Ok(v) => v,
            Err(x) => {
                c.fail(format!("{what}: panics"), case(), x);
                return;
            }
        };
        let mut w = json!({"code": self.code, "message": self.message});
        // a null is as good as none
        let data = self.data.clone().filter(|d| !d.is_null());
        if let Some(d) = &data {
            w["data"] = d.clone();
        }
        let emit = |k: &str| {
            let mut x = v[k].clone();
            if x.get("data") == Some(&Value::Null) && self.data == Some(Value::Null) {
                x.as_object_mut().unwrap().remove("data");
            }
            x
        };
        c.expect(emit("emit") == w, format!("{what}: written as something else"), case, || format!("{} expected {w}", v["emit"]));
        let fields = json!([v["code"], v["message"], v["data"]]) == json!([self.code, self.message, data]);
        c.expect(fields, format!("{what}: wrong fields"), case, || v.to_string());
        c.expect(v["describe"] == json!(self.message) && v["source"] == json!(false), format!("{what}: wrong description"), case, || {
            v.to_string()
        });
        if self.rpc {
            let d: Value = serde_json::from_str(v["display"].as_str().unwrap()).unwrap_or_default();
            let d = if self.data == Some(Value::Null) { w.clone() } else { d };
            c.expect(d == w, format!("{what}: displayed as something else"), case, || v["display"].to_string());
            c.expect(emit("parsed") == w, format!("{what}: not read back from its text"), case, || v["parsed"].to_string());
            c.expect(v["client"] == "Error" && v["server"] == "Error", format!("{what}: not sent as an error"), case, || v.to_string());
        } else {
            c.expect(
                v["display"] == json!(format!("MCP error {}: {}", self.code, self.message)),
                format!("{what}: displayed as something else"),
                case,
                || v["display"].to_string(),
            );
        }
    }
}

/// every published code has its number and its text
pub fn code_table(c: &mut Ctx) {
    for (n, f) in errs::codes() {
        let (i, t) = code(n);
        c.state("code", n);
        c.transitions += 1;
        let g = guard(f).unwrap_or_default();
        c.ran("code read");
        c.expect(g.0 == i, format!("code {n}: wrong number"), || json!(n), || format!("{}, expected {i}", g.0));
        c.expect(g.1 == t, format!("code {n}: wrong text"), || json!(n), || format!("{}, expected {t}", g.1));
    }
    for (n, f) in errs::rpc_codes() {
        let (i, _) = code(n);
        c.state("rpc code", n);
        c.transitions += 1;
        c.ran("code read");
        let g = guard(f);
        c.expect(g == Ok((i, i)), format!("code {n} of an RPC error: wrong number"), || json!(n), || format!("{g:?}, expected {i}"));
    }
}

pub fn errors(e: &Env, c: &mut Ctx) {
    code_table(c);
    let msgs = ["", "m", "line\n\"quoted\" \u{e9}\u{1F600}", "{\"code\":1}"];
    let datas = [
        None,
        Some(json!({"a": [1, null]})),
        Some(json!("s")),
        Some(json!(0)),
        Some(json!(false)),
        Some(json!([])),
        Some(Value::Null),
    ];
    let news = errs::news();
    let nstart = errs::RPC.len() + errs::SDK.len() + 14 + news.len();
    let times = [
        0u128,
        1,
        999,
        1000,
        60_000,
        4294967295,
        4294967296,
        4294967297,
        9007199254740993,
        i64::MAX as u128,
        i64::MAX as u128 + 1,
        u64::MAX as u128,
        u64::MAX as u128 + 1,
        u128::MAX,
    ];
    let depth = if c.thorough { 4 } else { 3 };
    // every history: make an error in any way, then change it up to `depth` times
    let st = explore(usize::MAX, u64::MAX, &mut |ch| {
        let mut i = ch.free(nstart);
        let mut hist = vec![];
        let made = guard(|| {
            if i < errs::RPC.len() {
                let n = errs::RPC[i];
                let (k, t) = code(&n.to_uppercase());
                let t = if n == "parse_error" { "Parse error" } else { t };
                return (
                    M {
                        rpc: true,
                        code: k,
                        message: t.into(),
                        data: None,
                    },
                    Some(E::rpc(n)),
                    format!("RpcError::{n}"),
                );
            }
            i -= errs::RPC.len();
            if i < errs::SDK.len() {
                let n = errs::SDK[i];
                let (k, t) = code(&n.to_uppercase());
                return (
                    M {
                        rpc: false,
                        code: k,
                        message: t.into(),
                        data: None,
                    },
                    Some(E::sdk(n)),
                    format!("SdkError::{n}"),
                );
            }
            i -= errs::SDK.len();
            if i < times.len() {
                let t = times[i];
                let m = M {
                    rpc: false,
                    code: -32001,
                    message: "Request timeout".into(),
                    data: Some(json!({"timeout": u64::try_from(t).unwrap_or(u64::MAX)})),
                };
                return (m, guard(|| E::timeout(t)).ok(), format!("SdkError::request_timeout({t})"));
            }
            i -= times.len();
            let (n, rpc, f) = &news[i];
            let (k, _) = code(n);
            let (m, d) = (ch.free(msgs.len()), ch.free(datas.len()));
            let m = M {
                rpc: *rpc,
                code: k,
                message: msgs[m].into(),
                data: datas[d].clone(),
            };
            let x = f(m.message.clone(), m.data.clone());
            (m, Some(x), format!("{}::new({n})", if *rpc { "RpcError" } else { "SdkError" }))
        });
        let Ok((mut m, x, what)) = made else {
            c.fail("making an error panics", json!(i), format!("{:?}", made.err()));
            return;
        };
        hist.push(what.clone());
        let Some(mut x) = x else {
            c.fail(format!("{}: panics", what.split('(').next().unwrap()), json!(hist), "making it panics".to_string());
            return;
        };
        let what = what.split("(1").next().unwrap().to_string();
        let check = |c: &mut Ctx, m: &M, x: &E, hist: &[String]| {
            if c.state("error", &hist.join(" ")) {
                c.transitions += 1;
                m.check(c, &what, x, &|| json!(hist));
            }
        };
        check(c, &m, &x, &hist);
        for _ in 0..depth {
            let o = ch.free(1 + msgs.len() * 2 + datas.len());
            if o == 0 {
                break;
            }
            let o = o - 1;
            if o < msgs.len() * 2 {
                let t = msgs[o / 2];
                m.message = t.into();
                x = x.with_message(t, o % 2 == 0);
                hist.push(format!("with_message({t:?}, {})", o % 2));
            } else {
                let d = datas[o - msgs.len() * 2].clone();
                m.data = d.clone();
                hist.push(format!("with_data({d:?})"));
                x = x.with_data(d);
            }
            check(c, &m, &x, &hist);
        }
        c.sample(json!(hist));
    });
    c.explored("error histories", &st);
    // one value of many in every place that takes one
    let mut one: Vec<(Option<String>, Option<Value>)> = rich_strings().iter().map(|s| (Some(s.clone()), None)).collect();
    let any = e.m.compile(&json!({}));
    c.rich(&e.m, "data", &any, 1000, &mut |_, d, _, _| one.push((None, Some(d))));
    for (n, rpc, f) in &news {
        for (t, d) in &one {
            let (k, _) = code(n);
            let what = format!("{}::new({n})", if *rpc { "RpcError" } else { "SdkError" });
            let case = || json!([what, t, d]);
            c.state("error", &case().to_string());
            c.transitions += 2;
            let m = M {
                rpc: *rpc,
                code: k,
                message: t.clone().unwrap_or("m".into()),
                data: d.clone(),
            };
            let made = guard(|| {
                let at_once = f(m.message.clone(), d.clone());
                let later = f("x".into(), Some(json!(1)));
                let later = match t {
                    Some(t) => later.with_message(t, true),
                    None => later.with_message("m", false),
                };
                (at_once, later.with_data(d.clone()))
            });
            match made {
                Ok((a, b)) => {
                    m.check(c, &what, &a, &case);
                    m.check(c, &what, &b, &case);
                }
                Err(x) => c.fail(format!("{what}: panics"), case(), x),
            }
        }
    }
    // complete error messages
    let ids = [None, Some(json!(0)), Some(json!(-1)), Some(json!("")), Some(json!("1")), Some(json!(i64::MAX))];
    for (n, f) in errs::creates() {
        for id in ids.iter().filter(|i| e.p.family != Family::Old || i.is_some()) {
            for m in msgs {
                for d in &datas {
                    let case = || json!({"code": n, "id": id, "message": m, "data": d});
                    c.state("create", &case().to_string());
                    c.transitions += 1;
                    let got = guard(|| f(id.as_ref().map(|i| crate::reg::j(i).unwrap()), m.to_string(), d.clone()));
                    c.ran("error message created");
                    let mut w = json!({"jsonrpc": "2.0", "error": {"code": code(n).0, "message": m}});
                    let mut el = vec![];
                    if let Some(i) = id {
                        w["id"] = i.clone();
                    }
                    if let Some(d) = d {
                        w["error"]["data"] = d.clone();
                        if d.is_null() {
                            el.push("/error/data".to_string());
                        }
                    }
                    match got {
                        Ok(g) => {
                            if let Some(x) = diff_but(&w, &g, &el) {
                                c.fail(format!("create {n}: wrong message"), case(), x);
                            }
                        }
                        Err(x) => c.fail(format!("create {n}: panics"), case(), x),
                    }
                }
            }
        }
    }
    // the list of addresses a client must visit
    if gen::VERSION == "2025_11_25" {
        let s = e.m.compile(&json!({"type": "array", "items": {"$ref": "#/$defs/ElicitRequestURLParams"}}));
        let mut docs = vec![json!([])];
        for full in [false, true] {
            let st = explore(if c.thorough { 3 } else { 2 }, 3000, &mut |ch| {
                let mut g = Gen::new(&e.m, full);
                g.max_depth = 6;
                docs.push(g.at(ch, &s, "urls"));
            });
            c.explored("url lists", &st);
        }
        for d in docs {
            c.state("urls", &d.to_string());
            match guard(|| errs::url_required(&d)) {
                Ok(Ok((a, b))) => {
                    for (x, rpc) in [(a, true), (b, false)] {
                        let m = M {
                            rpc,
                            code: -32042,
                            message: "URL required. Please provide a URL.".into(),
                            data: Some(json!({"elicitations": d})),
                        };
                        // optional empty members may be left out
                        let v = guard(|| x.view()).unwrap_or_default();
                        let mut m = m;
                        if same(&v["data"], m.data.as_ref().unwrap()) {
                            m.data = Some(v["data"].clone());
                        }
                        m.check(c, "url_elicit_required", &x, &|| d.clone());
                    }
                }
                x => c.fail("url_elicit_required: refused or panics", d.clone(), format!("{:?}", x.map(|r| r.err()))),
            }
        }
    }
}

/// the text a tool error shows, and its causes
fn shown(k: &Mk) -> (String, Vec<String>) {
    match k {
        Mk::Message(m) => (m.clone(), vec![]),
        Mk::Own(m, s) => (m.clone(), s.clone()),
        Mk::Unknown(n) => (format!("Unknown tool: {n}"), vec![]),
        Mk::Arguments(n, m) => {
            let n = n.trim();
            if n.is_empty() {
                return ("Invalid arguments: tool name cannot be empty".into(), vec![]);
            }
            (format!("Invalid arguments for tool '{n}': {}", m.as_deref().unwrap_or("no additional details provided")), vec![])
        }
        Mk::Task => ("Task-augmented tool calls are not supported.".into(), vec![]),
        Mk::Nested(k) => shown(k),
    }
}

pub fn tool_errors(e: &Env, c: &mut Ctx) {
    let rich = rich_strings();
    let alphabet = ["a", " ", "\t", "\u{e9}", "{}", "'", "\"", "\u{3000}", "\n"];
    let len = if c.thorough { 4 } else { 3 };
    let st = explore(usize::MAX, u64::MAX, &mut |ch| {
        let text = |ch: &mut Ch, len: usize| {
            let n = ch.free(len + if len > 1 { 2 } else { 1 });
            if n > len {
                return rich[ch.free(rich.len())].clone();
            }
            (0..n).map(|_| alphabet[ch.free(alphabet.len())]).collect::<String>()
        };
        let how = ch.free(6);
        let a = text(ch, if how == 5 { 0 } else { len });
        let mut k = match how {
            0 => Mk::Message(a),
            1 => Mk::Own(a, vec![]),
            2 => {
                let n = 1 + ch.free(3);
                let causes = (0..n).map(|i| if i == 0 { text(ch, 1) } else { ["b", "c"][i - 1].into() });
                Mk::Own(a, causes.collect())
            }
            3 => Mk::Unknown(a),
            4 => {
                let b = if ch.free(2) == 1 { Some(text(ch, 1)) } else { None };
                Mk::Arguments(a, b)
            }
            _ => Mk::Task,
        };
        let name = ["from_message", "new", "new", "unknown_tool", "invalid_arguments", "unsupported task"][how];
        let nest = ch.free(3);
        for _ in 0..nest {
            k = Mk::Nested(Box::new(k));
        }
        let (text, source) = shown(&k);
        let case = || json!({"made by": name, "wrapped": nest, "text": text});
        if !c.state("tool error", &format!("{name} {nest} {text} {source:?}")) {
            return;
        }
        c.transitions += 1;
        let v = match guard(|| errs::tool_error(&k)) {
            Ok(v) => v,
            Err(x) => {
                c.fail(format!("{name}: panics"), case(), x);
                return;
            }
        };
        c.ran("tool error built");
        c.expect(v["display"] == json!(text), format!("{name}: shows another text"), case, || v["display"].to_string());
        c.expect(v["inner"] == json!(text), format!("{name}: the wrapped error shows another text"), case, || v["inner"].to_string());
        c.expect(v["causes"] == json!(source), format!("{name}: loses its cause"), case, || v["causes"].to_string());
        c.expect(v["inner_causes"] == json!(source), format!("{name}: the wrapped error loses its cause"), case, || v["inner_causes"].to_string());
        let mut w = json!({"content": [{"type": "text", "text": text}], "isError": true});
        if e.p.family == Family::New {
            w["resultType"] = json!("complete");
        }
        for how in ["result", "with_error"] {
            c.expect(v[how] == w, format!("{name}: {how} is not an error result with the text"), case, || v[how].to_string());
        }
        c.expect(
            v["rpc"] == json!({"code": -32603, "message": text}),
            format!("{name}: not an internal error with the text"),
            case,
            || v["rpc"].to_string(),
        );
        c.sample(case());
    });
    c.explored("tool errors", &st);
}
