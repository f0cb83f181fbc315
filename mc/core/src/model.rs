//! The reference model: an interpreter for the JSON schemas the MCP specification publishes for every type.
//! `Gen` enumerates documents (driven by explore::Ch), `valid` decides membership.
use crate::explore::Ch;
use serde_json::{json, Map, Value};
use std::collections::BTreeMap;
use std::rc::Rc;

pub const RENAMES: &[(&str, &str)] = &[
    ("JSONRPCError", "JsonrpcError"),
    ("JSONRPCNotification", "JsonrpcNotification"),
    ("JSONRPCRequest", "JsonrpcRequest"),
    ("JSONRPCResponse", "JsonrpcResponse"),
    ("JSONRPCMessage", "JsonrpcMessage"),
    ("JSONRPCBatchRequest", "JsonrpcBatchRequest"),
    ("JSONRPCBatchResponse", "JsonrpcBatchResponse"),
    ("JSONRPCErrorResponse", "JsonrpcErrorResponse"),
    ("JSONRPCResultResponse", "JsonrpcResultResponse"),
    ("ElicitRequestURLParams", "ElicitRequestUrlParams"),
    ("URLElicitationRequiredError", "UrlElicitationRequiredError"),
    ("Error", "RpcError"),
    ("JSONObject", "JsonObject"),
    ("JSONValue", "JsonValue"),
    ("JSONArray", "JsonArray"),
];

/// compiled schema
#[derive(Debug)]
pub enum S {
    Any,
    Const(Value, Vec<Value>),
    Enum(Vec<Value>),
    Alt(Vec<Rc<S>>),
    Types(Vec<Rc<S>>, Vec<Value>, String),
    Obj { props: Vec<(String, bool, Rc<S>)>, extra: Extra, wrong: Vec<Value> },
    Arr { items: Rc<S>, min: usize, wrong: Vec<Value> },
    Scalar { t: &'static str, fmt: String, lo: Option<f64>, hi: Option<f64>, wrong: Vec<Value> },
    Ref(String),
}
#[derive(Debug)]
pub enum Extra {
    /// the schema does not mention further properties
    Silent,
    Typed(Rc<S>),
}

pub struct Model {
    pub raw: BTreeMap<String, Value>,
    pub structs: BTreeMap<String, bool>,
    pub types: BTreeMap<String, Rc<S>>,
    /// every constant text of the protocol, sorted
    pub consts: Vec<String>,
}

impl Model {
    pub fn load(text: &str) -> Model {
        let v: Value = serde_json::from_str(text).unwrap();
        let mut raw = BTreeMap::new();
        let mut structs = BTreeMap::new();
        for (k, t) in v.as_object().unwrap() {
            raw.insert(k.clone(), t["schema"].clone());
            structs.insert(k.clone(), t["kind"] == "struct");
        }
        // where the published schema is weaker than the specification text it comes with
        if let Some(e) = raw.get_mut("UrlElicitationRequiredError") {
            e["properties"]["error"]["allOf"][1]["properties"]["code"] = json!({"const": -32042});
        }
        if let Some(e) = raw.get_mut("UrlElicitError") {
            e["allOf"][1]["properties"]["code"] = json!({"const": -32042});
        }
        if let Some(e) = raw.get_mut("InputRequiredResult") {
            e["properties"]["resultType"] = json!({"const": "input_required", "lenient": true});
        }
        let mut m = Model { raw, structs, types: BTreeMap::new(), consts: vec![] };
        fn consts(v: &Value, out: &mut std::collections::BTreeSet<String>) {
            match v {
                Value::Object(o) => {
                    if let Some(c) = o.get("const").and_then(|c| c.as_str()) {
                        out.insert(c.to_string());
                    }
                    o.values().for_each(|x| consts(x, out));
                }
                Value::Array(a) => a.iter().for_each(|x| consts(x, out)),
                _ => {}
            }
        }
        let mut found = Default::default();
        m.raw.values().for_each(|v| consts(v, &mut found));
        m.consts = found.into_iter().collect();
        let names: Vec<String> = m.raw.keys().cloned().collect();
        for n in names {
            let s = m.compile(&m.raw[&n].clone());
            m.types.insert(n, s);
        }
        m
    }
    pub fn rust_name(name: &str) -> &str {
        RENAMES.iter().find(|r| r.0 == name).map(|r| r.1).unwrap_or(name)
    }
    pub fn ty(&self, name: &str) -> Rc<S> {
        self.types.get(name).unwrap_or_else(|| panic!("model has no type {name}")).clone()
    }
    pub fn has(&self, name: &str) -> bool {
        self.types.contains_key(name)
    }
    fn raw_resolve(&self, s: &Value) -> Value {
        let mut s = s.clone();
        while let Some(r) = s.get("$ref").and_then(|r| r.as_str()) {
            let n = Self::rust_name(r.rsplit('/').next().unwrap()).to_string();
            s = self.raw.get(&n).unwrap_or_else(|| panic!("no {n}")).clone();
        }
        s
    }
    /// merges allOf into one object schema
    pub fn flat(&self, s: &Value) -> Value {
        let s = self.raw_resolve(s);
        if let Some(a) = s.get("allOf").and_then(|a| a.as_array()) {
            let mut out = json!({"type":"object","properties":{},"required":[]});
            for x in a {
                let x = self.flat(x);
                if let Some(p) = x.get("properties").and_then(|p| p.as_object()) {
                    for (k, v) in p {
                        out["properties"][k] = v.clone();
                    }
                }
                if let Some(r) = x.get("required").and_then(|p| p.as_array()) {
                    for v in r {
                        if !out["required"].as_array().unwrap().contains(v) {
                            out["required"].as_array_mut().unwrap().push(v.clone());
                        }
                    }
                }
                if let Some(ap) = x.get("additionalProperties") {
                    out["additionalProperties"] = ap.clone();
                }
            }
            return out;
        }
        s
    }
    /// the declared properties of a type (after $ref/allOf), as (name, required, raw schema)
    pub fn props(&self, name: &str) -> Vec<(String, bool, Value)> {
        let f = self.flat(&self.raw[name]);
        let req: Vec<&str> = f.get("required").and_then(|r| r.as_array()).map(|r| r.iter().filter_map(|x| x.as_str()).collect()).unwrap_or_default();
        f.get("properties")
            .and_then(|p| p.as_object())
            .map(|p| p.iter().map(|(k, v)| (k.clone(), req.contains(&k.as_str()), v.clone())).collect())
            .unwrap_or_default()
    }
    pub fn compile(&self, s: &Value) -> Rc<S> {
        if let Some(r) = s.get("$ref").and_then(|r| r.as_str()) {
            return Rc::new(S::Ref(Self::rust_name(r.rsplit('/').next().unwrap()).to_string()));
        }
        let s = self.flat(s);
        let o = match s.as_object() {
            Some(o) => o.clone(),
            None => return Rc::new(S::Any),
        };
        if let Some(c) = o.get("const") {
            let wrong = if o.contains_key("lenient") { vec![] } else { wrong_consts(c) };
            return Rc::new(S::Const(c.clone(), wrong));
        }
        if let Some(e) = o.get("enum").and_then(|e| e.as_array()) {
            return Rc::new(S::Enum(e.clone()));
        }
        for k in ["anyOf", "oneOf"] {
            if let Some(a) = o.get(k).and_then(|a| a.as_array()) {
                return Rc::new(S::Alt(a.iter().map(|x| self.compile(x)).collect()));
            }
        }
        let wrong = wrong_types(&o);
        let t = match o.get("type") {
            Some(Value::String(t)) => t.clone(),
            Some(Value::Array(ts)) => {
                let alts = ts
                    .iter()
                    .map(|t| {
                        let mut o2 = o.clone();
                        o2.insert("type".into(), t.clone());
                        self.compile(&Value::Object(o2))
                    })
                    .collect();
                return Rc::new(S::Types(alts, wrong, o["type"].to_string()));
            }
            _ if o.contains_key("properties") => "object".into(),
            _ => return Rc::new(S::Any),
        };
        match t.as_str() {
            "object" => {
                let req: Vec<&str> = o.get("required").and_then(|r| r.as_array()).map(|r| r.iter().filter_map(|x| x.as_str()).collect()).unwrap_or_default();
                let props = o
                    .get("properties")
                    .and_then(|p| p.as_object())
                    .map(|p| p.iter().map(|(k, v)| (k.clone(), req.contains(&k.as_str()), self.compile(v))).collect())
                    .unwrap_or_default();
                let extra = match o.get("additionalProperties") {
                    Some(Value::Bool(false)) | None => Extra::Silent,
                    Some(ap) => Extra::Typed(self.compile(ap)),
                };
                Rc::new(S::Obj { props, extra, wrong })
            }
            "array" => Rc::new(S::Arr {
                items: o.get("items").map(|i| self.compile(i)).unwrap_or_else(|| Rc::new(S::Any)),
                min: o.get("minItems").and_then(|x| x.as_u64()).unwrap_or(0) as usize,
                wrong,
            }),
            t => Rc::new(S::Scalar {
                t: match t {
                    "string" => "string",
                    "integer" => "integer",
                    "number" => "number",
                    "boolean" => "boolean",
                    "null" => "null",
                    t => panic!("type {t}"),
                },
                fmt: o.get("format").and_then(|f| f.as_str()).unwrap_or("").to_string(),
                lo: o.get("minimum").and_then(|m| m.as_f64()),
                hi: o.get("maximum").and_then(|m| m.as_f64()),
                wrong,
            }),
        }
    }

    // ---- membership ------------------------------------------------------------------------------
    pub fn valid(&self, s: &S, v: &Value) -> bool {
        match s {
            S::Any => true,
            S::Ref(n) => self.valid(&self.ty(n), v),
            S::Const(c, _) => same(c, v),
            S::Enum(e) => e.iter().any(|x| same(x, v)),
            S::Alt(a) | S::Types(a, _, _) => a.iter().any(|x| self.valid(x, v)),
            S::Obj { props, extra, .. } => {
                let m = match v.as_object() {
                    Some(m) => m,
                    None => return false,
                };
                for (k, req, ps) in props {
                    match m.get(k) {
                        None if *req => return false,
                        None => {}
                        Some(x) => {
                            if !self.valid(ps, x) {
                                return false;
                            }
                        }
                    }
                }
                if let Extra::Typed(e) = extra {
                    for (k, x) in m {
                        if !props.iter().any(|p| p.0 == *k) && !self.valid(e, x) {
                            return false;
                        }
                    }
                }
                true
            }
            S::Arr { items, min, .. } => match v.as_array() {
                Some(a) => a.len() >= *min && a.iter().all(|x| self.valid(items, x)),
                None => false,
            },
            S::Scalar { t, .. } => is_type(t, v),
        }
    }
}

pub fn is_type(t: &str, v: &Value) -> bool {
    match t {
        "string" => v.is_string(),
        "integer" => v.is_i64() || v.is_u64() || v.as_f64().map(|f| f.fract() == 0.0).unwrap_or(false),
        "number" => v.is_number(),
        "boolean" => v.is_boolean(),
        "null" => v.is_null(),
        "object" => v.is_object(),
        "array" => v.is_array(),
        _ => panic!("type {t}"),
    }
}

/// equality of JSON documents; numbers by exact mathematical value
pub fn same(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Number(x), Value::Number(y)) => num_eq(x, y),
        (Value::Array(x), Value::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| same(p, q)),
        (Value::Object(x), Value::Object(y)) => {
            x.len() == y.len() && x.iter().all(|(k, p)| y.get(k).map(|q| same(p, q)).unwrap_or(false))
        }
        _ => a == b,
    }
}
fn num_eq(x: &serde_json::Number, y: &serde_json::Number) -> bool {
    let i = |n: &serde_json::Number| -> Option<i128> {
        n.as_i64().map(|v| v as i128).or_else(|| n.as_u64().map(|v| v as i128)).or_else(|| {
            let f = n.as_f64()?;
            if f.fract() == 0.0 && f.abs() < 1e30 {
                Some(f as i128)
            } else {
                None
            }
        })
    };
    match (i(x), i(y)) {
        (Some(a), Some(b)) => a == b,
        (None, None) => x.as_f64() == y.as_f64(),
        _ => false,
    }
}

/// the same document written otherwise: members in reverse order, every character escaped, white space everywhere
pub fn rewritten(v: &Value) -> String {
    fn esc(s: &str) -> String {
        let mut o = String::from("\"");
        let mut b = [0u16; 2];
        for c in s.chars() {
            for u in c.encode_utf16(&mut b) {
                o.push_str(&format!("\\u{u:04X}"));
            }
        }
        o + "\""
    }
    match v {
        Value::Object(o) => {
            let l: Vec<String> = o.iter().rev().map(|(k, v)| format!("\r\n\t{} : {}", esc(k), rewritten(v))).collect();
            format!("{{{} }}", l.join(" ,"))
        }
        Value::Array(a) => format!("[ {}\n]", a.iter().map(rewritten).collect::<Vec<_>>().join(" , ")),
        Value::String(s) => esc(s),
        v => v.to_string(),
    }
}

pub fn pointer(p: &[String]) -> String {
    p.iter().map(|s| format!("/{s}")).collect()
}

/// first difference between two documents, as "pointer: kind"
pub fn diff(want: &Value, got: &Value) -> Option<String> {
    diff_but(want, got, &[])
}
/// as `diff`, but the members at the pointers `elidable` may be missing from `got`
pub fn diff_but(want: &Value, got: &Value, elidable: &[String]) -> Option<String> {
    fn go(p: &str, a: &Value, b: &Value, el: &[String]) -> Option<String> {
        match (a, b) {
            (Value::Object(x), Value::Object(y)) => {
                for (k, v) in x {
                    match y.get(k) {
                        None => {
                            let q = format!("{p}/{k}");
                            if !el.contains(&q) {
                                return Some(format!("{q}: lost {}", short(v)));
                            }
                        }
                        Some(w) => {
                            if let Some(d) = go(&format!("{p}/{k}"), v, w, el) {
                                return Some(d);
                            }
                        }
                    }
                }
                for (k, v) in y {
                    if !x.contains_key(k) {
                        return Some(format!("{p}/{k}: invented {}", short(v)));
                    }
                }
                None
            }
            (Value::Array(x), Value::Array(y)) => {
                if x.len() != y.len() {
                    return Some(format!("{p}: {} elements became {}", x.len(), y.len()));
                }
                x.iter().zip(y).enumerate().find_map(|(i, (v, w))| go(&format!("{p}/{i}"), v, w, el))
            }
            _ => {
                if same(a, b) {
                    None
                } else {
                    Some(format!("{p}: {} became {}", short(a), short(b)))
                }
            }
        }
    }
    go("", want, got, elidable)
}
pub fn short(v: &Value) -> String {
    let s = v.to_string();
    if s.chars().count() > 60 {
        s.chars().take(60).collect::<String>() + "…"
    } else {
        s
    }
}


// ---- generation ------------------------------------------------------------------------------------

/// one way of damaging a document
#[derive(Clone)]
pub struct Site {
    pub ptr: Vec<String>,
    /// None: the member is removed
    pub put: Option<Value>,
    pub note: String,
    pub constant: bool,
}
impl Site {
    pub fn apply(&self, d: &Value) -> Value {
        let mut d = d.clone();
        let Some((last, up)) = self.ptr.split_last() else {
            return self.put.clone().unwrap();
        };
        let mut at = &mut d;
        for k in up {
            at = match at {
                Value::Array(a) => &mut a[k.parse::<usize>().unwrap()],
                v => v.get_mut(k.as_str()).unwrap_or_else(|| panic!("no {k} in {:?}", self.ptr)),
            };
        }
        match (at, &self.put) {
            (Value::Array(a), Some(p)) => a[last.parse::<usize>().unwrap()] = p.clone(),
            (Value::Object(o), Some(p)) => {
                o.insert(last.clone(), p.clone());
            }
            (Value::Object(o), None) => {
                o.remove(last);
            }
            _ => panic!("bad damage site"),
        }
        d
    }
}

#[derive(Clone)]
pub struct Gen<'a> {
    pub m: &'a Model,
    /// all optional properties by default (true) or none (false)
    pub full: bool,
    /// below this depth optional properties and extra properties are no longer offered
    pub max_depth: usize,
    /// offer alternative scalar values and array lengths
    pub scalars: bool,
    /// places where the document can be damaged, recorded when `record` is set
    pub record: bool,
    /// damage constants to texts close to them: 0 a few, 1 more, 2 all
    pub near: u8,
    /// offer many more scalars, list lengths and map keys
    pub rich: bool,
    /// what every scalar of the document is by default: 0 told apart by path, else the same everywhere
    pub flavor: usize,
    pub sites: Vec<Site>,
    path: String,
    ptr: Vec<String>,
    /// pointers of optional members generated as [] or null: the Rust types do not tell them from absent ones
    pub elidable: Vec<String>,
}

fn hash(p: &str) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in p.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

pub const STRINGS: &[&str] = &["", "é\"\\\n\u{1}\u{2028}😀 {}", "null"];
pub const FLAVORS: usize = 4;

/// further awkward texts: white space, look-alikes of other JSON values, escapes, composed and right-to-left letters
pub const MORE_STRINGS: &[&str] = &[
    " ", " a", "a ", "\ta\n", "A", "a", "0", "-1", "1.0", "true", "[]", "{}", "\"\"", "\\", "\\u0041", "/", "//", "a/b", "~1", "%20a%00", "%s{}$1",
    "\u{0}", "\u{7f}", "\u{85}", "\u{a0}", "\u{feff}a", "\u{202e}abc", "e\u{301}", "\u{e9}", "\u{df}\u{130}", "\u{d7ff}\u{e000}\u{ffff}", "\u{10ffff}",
    "👩\u{200d}👩\u{200d}👧", "__proto__", "undefined", "NaN", "http://user:p@h:1/a%2Fb?q=1&r=#f", "uri://A/../b/./c//", "file:///C:\\x", "text/plain; charset=\"utf-8\"",
    "data:;base64,AA==", "AA", "AA=", "A-_/+=", "2025-02-30T25:61:61+99:99", "2025-01-01", "io.modelcontextprotocol/x", "<b>&amp;</b>", "'; --",
];
const LENGTHS: &[usize] = &[31, 64, 100, 128, 255, 256, 1000, 1025, 4097, 70000];
pub fn rich_strings() -> Rc<Vec<String>> {
    thread_local!(static L: Rc<Vec<String>> = Rc::new(make_rich_strings()));
    L.with(|l| l.clone())
}
fn make_rich_strings() -> Vec<String> {
    let mut l: Vec<String> = MORE_STRINGS.iter().map(|s| s.to_string()).collect();
    for n in LENGTHS {
        l.push("0123456789abcdef".chars().cycle().take(*n).collect());
    }
    l.push("é".repeat(300));
    l.push("\u{1}".repeat(300));
    l
}
pub const MORE_KEYS: &[&str] = &[
    "0", "null", "type", "name", "method", "params", "id", "jsonrpc", "_meta", "progressToken", "key", "__proto__", "a.b/c~d", "é\"\\\n😀", " ", "A", "a", "$ref", "additionalProperties", "extra", "data", "value", "io.modelcontextprotocol/x",
];
const MORE_INTS: &[i64] = &[
    1, 2, 7, 99, 100, 101, 127, 128, 255, 256, 1024, 32767, 32768, 65535, 65536, 2147483647, 2147483648, 4294967295, 4294967296, 9007199254740991, 9007199254740992, 9007199254740993,
    -32700, -32603, -32602, -32601, -32600, -32042, -32022, -32021, -32020, -32016, -32015, -32002, -32001, 1763000000, 1763000000000, -2, -32000, -128, -129, -2147483648, -2147483649, -9007199254740993, i64::MAX - 1, i64::MIN + 1,
];

impl<'a> Gen<'a> {
    pub fn new(m: &'a Model, full: bool) -> Self {
        Gen { m, full, max_depth: 9, scalars: true, record: false, near: 0, rich: false, flavor: 0, sites: vec![], path: String::new(), ptr: vec![], elidable: vec![] }
    }
    pub fn ty(&mut self, ch: &mut Ch, name: &str) -> Value {
        self.at(ch, &self.m.ty(name), name)
    }
    pub fn at(&mut self, ch: &mut Ch, s: &S, path: &str) -> Value {
        self.try_at(ch, s, path).unwrap()
    }
    pub fn try_at(&mut self, ch: &mut Ch, s: &S, path: &str) -> Option<Value> {
        self.path.clear();
        self.path.push_str(path);
        self.ptr.clear();
        self.elidable.clear();
        self.sites.clear();
        self.gen(ch, s, 0)
    }
    pub fn any(&mut self, ch: &mut Ch) -> Value {
        let more = if self.rich { MORE_STRINGS.len() + 12 } else { 0 };
        let i = if self.scalars { ch.pick(9 + more) } else { 0 };
        if i >= 9 + MORE_STRINGS.len() {
            let nest = |n: usize, arr: bool| (0..n).fold(json!({"end": null}), |v, i| if arr { json!([v, i]) } else { json!({"a": v, "b": i}) });
            return match i - 9 - MORE_STRINGS.len() {
                0 => nest(60, true),
                1 => nest(60, false),
                2 => (0..70).map(|i| (format!("k{i}"), json!(i))).collect::<Map<_, _>>().into(),
                3 => json!((0..300).collect::<Vec<_>>()),
                4 => json!([null, true, "", [], {}, 0, -0.5]),
                5 => MORE_KEYS.iter().map(|k| (k.to_string(), json!(k))).collect::<Map<_, _>>().into(),
                6 => json!(i64::MIN),
                7 => json!(1.7976931348623157e308),
                8 => json!({"type": "text", "text": "t"}),
                9 => json!({"jsonrpc": "2.0", "id": 1, "method": "ping"}),
                10 => json!({"": {"": [[], [[]], null]}}),
                _ => json!(9007199254740993i64),
            };
        }
        if i >= 9 {
            return json!(MORE_STRINGS[i - 9]);
        }
        match i {
            0 if self.flavor > 0 => json!([null, {}, null]),
            0 => json!({"k": [1, format!("s:{}", self.path), {"n": null, "f": 1.5, "b": false}]}),
            1 => json!(null),
            2 => json!(false),
            3 => json!(0),
            4 => json!(""),
            5 => json!([]),
            6 => json!({}),
            7 => json!(-2.5),
            _ => json!(18446744073709551615u64),
        }
    }
    fn sub(&mut self, ch: &mut Ch, s: &S, seg: &str, depth: usize) -> Option<Value> {
        let n = self.path.len();
        self.path.push_str(seg);
        self.ptr.push(match seg.strip_prefix('.') {
            Some(k) => k.to_string(),
            None => seg.trim_matches(|c| c == '[' || c == ']').to_string(),
        });
        let k = self.sites.len();
        let r = self.gen(ch, s, depth);
        if r.is_none() {
            self.sites.truncate(k);
        }
        self.path.truncate(n);
        self.ptr.pop();
        r
    }
    fn damage(&mut self, wrong: &[Value], what: &str, constant: bool) {
        if !self.record {
            return;
        }
        for w in wrong {
            let note = format!("{} = {w} where {what} is required", self.path);
            self.sites.push(Site { ptr: self.ptr.clone(), put: Some(w.clone()), note, constant });
        }
    }
    /// None: no value can be produced below the depth bound
    pub fn gen(&mut self, ch: &mut Ch, s: &S, depth: usize) -> Option<Value> {
        match s {
            S::Any => Some(self.any(ch)),
            S::Ref(n) => {
                let t = self.m.ty(n);
                self.gen(ch, &t, depth)
            }
            S::Const(c, wrong) => {
                self.damage(wrong, &format!("the constant {c}"), true);
                if let (Some(t), true, false) = (c.as_str(), self.near > 0 && self.record, wrong.is_empty()) {
                    let l = near_texts(t, self.near > 1, &self.m.consts);
                    self.damage(&l, &format!("the constant {c}"), true);
                }
                Some(c.clone())
            }
            S::Enum(e) => {
                self.damage(&[json!("@not-a-member"), json!(17)], "an enum member", false);
                if self.near > 0 && self.record {
                    for t in e.iter().filter_map(|t| t.as_str()) {
                        let mut l = near_texts(t, self.near > 1, &[]);
                        l.retain(|x| !e.contains(x));
                        self.damage(&l, "an enum member", false);
                    }
                }
                Some(e[ch.pick(e.len())].clone())
            }
            S::Alt(a) => {
                if depth > self.max_depth {
                    for x in a {
                        let mut x: Rc<S> = x.clone();
                        while let S::Ref(n) = &*x {
                            x = self.m.ty(n);
                        }
                        if matches!(&*x, S::Scalar { .. } | S::Const(..) | S::Enum(_) | S::Types(..)) {
                            return self.gen(ch, &x, depth + 1);
                        }
                    }
                    return None;
                }
                let n = ch.pick(a.len());
                self.gen(ch, &a[n], depth + 1)
            }
            S::Types(a, wrong, t) => {
                self.damage(wrong, t, false);
                if self.near > 0 && a.iter().any(|x| matches!(&**x, S::Scalar { t, .. } if *t == "integer")) {
                    self.damage(&[json!(1u64 << 63), json!(u64::MAX)], t, false);
                }
                let n = ch.pick(a.len());
                let rec = std::mem::replace(&mut self.record, false);
                let r = self.gen(ch, &a[n], depth + 1);
                self.record = rec;
                r
            }
            S::Obj { props, extra, wrong } => {
                self.damage(wrong, "an object", false);
                let mut out = Map::new();
                for (k, req, ps) in props {
                    if *req {
                        // a missing member that may be null is read as null
                        if self.record && !self.m.valid(ps, &Value::Null) {
                            let mut ptr = self.ptr.clone();
                            ptr.push(k.clone());
                            let note = format!("required {}.{k} missing", self.path);
                            self.sites.push(Site { ptr, put: None, note, constant: matches!(&**ps, S::Const(..)) });
                        }
                        let v = self.sub(ch, ps, &format!(".{k}"), depth + 1)?;
                        out.insert(k.clone(), v);
                    } else {
                        if depth >= self.max_depth {
                            continue;
                        }
                        if (ch.pick(2) == 0) == self.full {
                            let first = self.sites.len();
                            if let Some(v) = self.sub(ch, ps, &format!(".{k}"), depth + 1) {
                                // null for an optional member means absent
                                let at = self.ptr.len() + 1;
                                let mut i = 0;
                                self.sites.retain(|s| {
                                    i += 1;
                                    i <= first || s.ptr.len() != at || s.put != Some(Value::Null)
                                });
                                if v.is_null() || v.as_array().map(|a| a.is_empty()).unwrap_or(false) {
                                    self.elidable.push(format!("{}/{k}", pointer(&self.ptr)));
                                }
                                out.insert(k.clone(), v);
                            }
                        }
                    }
                }
                if depth < self.max_depth {
                    if let Extra::Typed(ap) = extra {
                        let n = ch.pick(if self.rich { 3 } else { 2 });
                        if n == 2 {
                            // many and awkward keys
                            let keys = MORE_KEYS.iter().map(|k| k.to_string()).chain((0..20).map(|i| format!("k{i}")));
                            for key in keys.filter(|k| !props.iter().any(|p| p.0 == *k)) {
                                if let Some(v) = self.sub(ch, ap, &format!(".{key}"), depth + 1) {
                                    out.insert(key, v);
                                }
                            }
                        } else if (n == 0) == self.full {
                            for key in ["x/extra", ""] {
                                if let Some(v) = self.sub(ch, ap, &format!(".{key}"), depth + 1) {
                                    out.insert(key.to_string(), v);
                                }
                                if !self.full {
                                    break;
                                }
                            }
                        }
                    } else if props.is_empty() && (ch.pick(2) == 0) == self.full {
                        // an object the schema says nothing about
                        let v = self.any(ch);
                        out.insert("x".into(), v);
                    }
                }
                Some(Value::Object(out))
            }
            S::Arr { items, min, wrong } => {
                self.damage(wrong, "an array", false);
                let default = if self.full { 2 } else { *min };
                let n = if depth > self.max_depth {
                    *min
                } else if !self.scalars {
                    default
                } else {
                    let mut l = vec![if self.flavor > 0 { 3 } else { default }];
                    for x in if self.rich { &[0usize, 1, 2, 3, 5, 17, 65, 257][..] } else { &[0, 1, 2][..] }.iter().copied() {
                        if x != default && x >= *min {
                            l.push(x);
                        }
                    }
                    l[ch.pick(l.len())]
                };
                let mut out: Vec<Value> = vec![];
                for i in 0..n {
                    // a longer list has neither distinct nor ordered elements
                    if n > 2 && i == n - 1 && !out.is_empty() {
                        let v: Value = out[0].clone();
                        out.push(v);
                        let at = pointer(&self.ptr);
                        let first = format!("{at}/0/");
                        let copies: Vec<String> = self.elidable.iter().filter_map(|p| p.strip_prefix(&first)).map(|p| format!("{at}/{i}/{p}")).collect();
                        self.elidable.extend(copies);
                        continue;
                    }
                    if out.len() < i {
                        break;
                    }
                    match self.sub(ch, items, &format!("[{i}]"), depth + 1) {
                        Some(v) => out.push(v),
                        None => break,
                    }
                }
                Some(Value::Array(out))
            }
            S::Scalar { t, fmt, lo, hi, wrong } => {
                self.damage(wrong, t, false);
                if *t == "integer" && self.near > 0 {
                    // these fit no i64: within the schema, yet never to be read as others
                    self.damage(&[json!(1u64 << 63), json!(u64::MAX)], t, false);
                }
                let h = hash(&self.path);
                let p = &self.path;
                Some(match *t {
                    "string" => {
                        let more = if self.rich { rich_strings() } else { Rc::new(vec![]) };
                        let n = if self.scalars { ch.pick(1 + STRINGS.len() + more.len()) } else { 0 };
                        if n > STRINGS.len() {
                            return Some(json!(more[n - 1 - STRINGS.len()]));
                        }
                        if n == 0 && self.flavor > 0 {
                            return Some(json!(["", "é\"\\\n\u{1}\u{2028}😀 {}", "same", "0"][self.flavor - 1]));
                        }
                        if n > 0 {
                            return Some(json!(STRINGS[n - 1]));
                        }
                        json!(match fmt.as_str() {
                            "uri" | "uri-template" => format!("uri://{p}"),
                            "byte" => format!("{:x}==", h & 0xffff),
                            "date-time" => format!("2025-01-01T00:00:{:02}Z", h % 60),
                            _ => format!("s:{p}"),
                        })
                    }
                    "integer" => {
                        let mut alts: Vec<i64> = vec![1000 + (h % 9000) as i64, 0, -1, i64::MAX, i64::MIN];
                        if self.flavor > 0 {
                            alts[0] = [0, i64::MAX, 7, 1][self.flavor - 1];
                        }
                        if self.rich {
                            alts.extend(MORE_INTS);
                        }
                        if let Some(m) = lo {
                            alts.retain(|a| *a as f64 >= *m);
                        }
                        let n = if self.scalars { ch.pick(alts.len()) } else { 0 };
                        json!(alts[n])
                    }
                    "number" => {
                        let alts = if lo.is_some() || hi.is_some() {
                            let lo = lo.unwrap_or(0.0);
                            let hi = hi.unwrap_or(lo + 1.0);
                            let mut l = vec![json!(lo + (hi - lo) * ((h % 1000) as f64) / 1024.0), json!(lo), json!(hi as i64)];
                            if self.flavor > 0 {
                                l.swap(0, 1);
                            }
                            if self.rich {
                                l.extend([0.1, 0.25, 0.5, 0.7, 0.999999, 1e-9].map(|f| json!(lo + (hi - lo) * f)));
                            }
                            l
                        } else {
                            let mut l = vec![json!((h % 1000) as f64 + 0.5), json!(0), json!(-3), json!(1e300)];
                            if self.flavor > 0 {
                                l.swap(0, 1);
                            }
                            if self.rich {
                                l.extend([0.1, -0.0, 1e-7, 1e21, 1e22, 0.30000000000000004, 100.0, 1.7976931348623157e308, 2.2250738585072014e-308, 16777217.0, 4294967296.5].map(|f| json!(f)));
                            }
                            l
                        };
                        let n = if self.scalars { ch.pick(alts.len()) } else { 0 };
                        alts[n].clone()
                    }
                    "boolean" => json!((ch.pick(2) == 0) == (self.flavor == 0)),
                    _ => Value::Null,
                })
            }
        }
    }
}

fn wrong_types(o: &Map<String, Value>) -> Vec<Value> {
    [json!("str"), json!(7), json!(1.5), json!(true), json!(null), json!({}), json!(["a"]), json!([]), json!("7"), json!("1.5"), json!("true"), json!(""), json!(0), json!({"0": "a"}), json!(1), json!(-1), json!(false), json!("null"), json!("{}"), json!("[]")]
        .into_iter()
        // serde reads a sequence as a struct's fields in order; arrays in place of objects are not judged
        .filter(|v| !(v.is_array() && o.get("type") == Some(&json!("object"))))
        .filter(|v| !match o.get("type") {
            Some(Value::String(t)) => is_type(t, v),
            Some(Value::Array(ts)) => ts.iter().any(|t| is_type(t.as_str().unwrap(), v)),
            _ => o.contains_key("properties") && v.is_object(),
        })
        .collect()
}
/// texts that are nearly, but not, the given one; `all`: every single-character edit, and every other constant of the protocol
pub fn near_texts(t: &str, all: bool, others: &[String]) -> Vec<Value> {
    let ch: Vec<char> = t.chars().collect();
    let flip = |c: char| if c.is_uppercase() { c.to_lowercase().next().unwrap() } else { c.to_uppercase().next().unwrap_or(c) };
    let mut l: Vec<String> = [" ", "\t", "\n", "\0", "/", "0", ".0", "-", "\"", "\u{feff}", "\u{a0}", "s", t]
        .iter()
        .flat_map(|x| [format!("{t}{x}"), format!("{x}{t}")])
        .collect();
    let at: Vec<usize> = if all { (0..ch.len()).collect() } else { [0, ch.len() / 2, ch.len().saturating_sub(1)].into_iter().filter(|i| *i < ch.len()).collect() };
    for i in at {
        let cut = |r: &[char]| ch[..i].iter().chain(r).chain(&ch[i + 1..]).collect::<String>();
        l.push(cut(&[]));
        l.push(cut(&[flip(ch[i])]));
        l.push(cut(&[ch[i], ch[i]]));
        l.push(cut(&['_']));
        l.push(cut(&[ch[i], ' ']));
        l.push(cut(&[ch[i], '/']));
        l.push(cut(&['\u{430}']));
    }
    for (k, o) in others.iter().enumerate() {
        let near = others.get(k + 1).map(|n| n == t).unwrap_or(false) || (k > 0 && others[k - 1] == t);
        if all || near {
            l.push(o.clone());
        }
    }
    if let Some(k) = t.rfind('/') {
        l.push(t[k + 1..].to_string());
        l.push(t[..k].to_string());
    }
    l.sort();
    l.dedup();
    let mut l: Vec<Value> = l.into_iter().filter(|x| x != t).map(|x| json!(x)).collect();
    if let Ok(n) = t.parse::<f64>() {
        l.push(json!(n));
        l.push(json!(n as i64));
    }
    l.push(json!([t]));
    l.push(json!(true));
    l
}
fn wrong_consts(c: &Value) -> Vec<Value> {
    match c {
        Value::String(s) => vec![
            json!(format!("{s}x")),
            json!(""),
            json!(s.to_uppercase() + if s.to_uppercase() == *s { "~" } else { "" }),
            json!(s.chars().take(s.chars().count().saturating_sub(1)).collect::<String>()),
            json!(17),
            json!(null),
            json!({}),
        ],
        _ => vec![json!("other"), json!(0), json!(-1), json!(null)],
    }
}
