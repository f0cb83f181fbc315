//! Protocol tables of the reference model: which messages exist per version and direction, and the schemas of the
//! JSON-RPC envelopes the crate builds around the published types.
use crate::model::Model;
use serde_json::{json, Value};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Family {
    Old,
    Mid,
    New,
}

pub struct Proto {
    pub family: Family,
    pub client_req: Vec<String>,
    pub server_req: Vec<String>,
    pub client_not: Vec<String>,
    pub server_not: Vec<String>,
    /// results in the order in which alternatives are tried
    pub client_res: Vec<String>,
    pub server_res: Vec<String>,
    pub error: &'static str,
}

fn refs(m: &Model, t: &str) -> Vec<String> {
    m.raw[t]["anyOf"]
        .as_array()
        .unwrap_or_else(|| panic!("{t}"))
        .iter()
        .map(|r| Model::rust_name(r["$ref"].as_str().unwrap().rsplit('/').next().unwrap()).to_string())
        .collect()
}
fn names(s: &str) -> Vec<String> {
    s.split_whitespace().map(|s| s.to_string()).collect()
}
pub fn r(t: &str) -> Value {
    json!({ "$ref": format!("#/$defs/{t}") })
}
pub const CUSTOM_METHOD: &str = "custom/do-it";

impl Proto {
    pub fn new(m: &Model, version: &str) -> Proto {
        let family = match version {
            "2025_11_25" => Family::Mid,
            "2026_07_28" | "draft" => Family::New,
            _ => Family::Old,
        };
        let last = |mut v: Vec<String>| {
            v.retain(|x| x != "Result");
            v.push("Result".into());
            v
        };
        match family {
            Family::Old => Proto {
                family,
                client_req: refs(m, "ClientRequest"),
                server_req: refs(m, "ServerRequest"),
                client_not: refs(m, "ClientNotification"),
                server_not: refs(m, "ServerNotification"),
                client_res: last(refs(m, "ClientResult")),
                server_res: last(refs(m, "ServerResult")),
                error: "JsonrpcError",
            },
            Family::Mid => Proto {
                family,
                client_req: refs(m, "ClientRequest"),
                server_req: refs(m, "ServerRequest"),
                client_not: refs(m, "ClientNotification"),
                server_not: refs(m, "ServerNotification"),
                client_res: names("GetTaskResult CancelTaskResult ListTasksResult CreateMessageResult ListRootsResult ElicitResult CreateTaskResult Result GetTaskPayloadResult"),
                server_res: names("InitializeResult ListResourcesResult ListResourceTemplatesResult ReadResourceResult ListPromptsResult GetPromptResult ListToolsResult CallToolResult GetTaskResult CancelTaskResult ListTasksResult CompleteResult CreateTaskResult Result GetTaskPayloadResult"),
                error: "JsonrpcErrorResponse",
            },
            Family::New => Proto {
                family,
                client_req: refs(m, "ClientRequest"),
                server_req: names("CreateMessageRequest ListRootsRequest ElicitRequest"),
                client_not: names("CancelledNotification"),
                server_not: refs(m, "ServerNotification"),
                client_res: names("CreateMessageResult ListRootsResult ElicitResult Result"),
                server_res: names("InputRequiredResult DiscoverResult ListResourcesResult ListResourceTemplatesResult ReadResourceResult SubscriptionsListenResult ListPromptsResult GetPromptResult ListToolsResult CallToolResult CompleteResult Result"),
                error: "JsonrpcErrorResponse",
            },
        }
    }
    pub fn method(&self, m: &Model, t: &str) -> String {
        m.flat(&m.raw[t])["properties"]["method"]["const"].as_str().unwrap_or_else(|| panic!("{t} has no method")).to_string()
    }
    /// the schema of a typed request/notification on the wire
    pub fn envelope(&self, m: &Model, t: &str, id: bool) -> Value {
        let mut s = m.flat(&m.raw[t]);
        s["properties"]["jsonrpc"] = json!({"const": "2.0"});
        let mut req: Vec<Value> = s["required"].as_array().cloned().unwrap_or_default();
        let mut need = vec!["jsonrpc"];
        if id {
            s["properties"]["id"] = r("RequestId");
            need.push("id");
        }
        for k in need {
            if !req.contains(&json!(k)) {
                req.push(json!(k));
            }
        }
        s["required"] = Value::Array(req);
        s
    }
    pub fn custom(&self, id: bool) -> Value {
        let mut s = json!({"type":"object","required":["jsonrpc","method"],"properties":{
            "jsonrpc": {"const": "2.0"},
            "method": {"const": CUSTOM_METHOD, "lenient": true},
            "params": {"type":"object","additionalProperties":{}}}});
        if id {
            s["properties"]["id"] = r("RequestId");
            s["required"].as_array_mut().unwrap().push(json!("id"));
        }
        s
    }
    fn response(&self, results: &[String]) -> Value {
        let alts: Vec<Value> = results.iter().map(|t| r(t)).collect();
        json!({"type":"object","required":["id","jsonrpc","result"],"properties":{
            "id": r("RequestId"), "jsonrpc": {"const":"2.0"}, "result": {"anyOf": alts}}})
    }
    /// adds the schemas of the hand-written envelope types to the model
    pub fn extend(&self, m: &mut Model) {
        let mut add: Vec<(String, Value)> = vec![];
        for (side, reqs, nots, ress) in [
            ("Client", &self.client_req, &self.client_not, &self.client_res),
            ("Server", &self.server_req, &self.server_not, &self.server_res),
        ] {
            let mut a: Vec<Value> = reqs.iter().map(|t| self.envelope(m, t, true)).collect();
            // the older versions do not keep custom messages flat (known finding, see the message checks)
            if self.family != Family::Old {
                a.push(self.custom(true));
            }
            add.push((format!("{side}JsonrpcRequest"), json!({ "anyOf": a })));
            let mut a: Vec<Value> = nots.iter().map(|t| self.envelope(m, t, false)).collect();
            if self.family != Family::Old {
                a.push(self.custom(false));
            }
            add.push((format!("{side}JsonrpcNotification"), json!({ "anyOf": a })));
            add.push((format!("{side}JsonrpcResponse"), self.response(ress)));
            let all: Vec<Value> = ["Request", "Notification", "Response"].iter().map(|k| r(&format!("{side}Jsonrpc{k}"))).chain([r(self.error)]).collect();
            add.push((format!("{side}Message"), json!({ "anyOf": all })));
            add.push((
                format!("{side}Messages"),
                json!({"anyOf": [r(&format!("{side}Message")), {"type":"array","items": r(&format!("{side}Message"))}]}),
            ));
        }
        if self.family != Family::Old {
            add.push((
                "CustomRequest".into(),
                json!({"type":"object","required":["method"],"properties":{"method":{"type":"string"},"params":{"type":"object","additionalProperties":{}}}}),
            ));
        }
        add.push((
            "SdkError".into(),
            json!({"type":"object","required":["code","message"],"properties":{"code":{"type":"integer"},"message":{"type":"string"},"data":{}}}),
        ));
        for (n, s) in add {
            assert!(!m.raw.contains_key(&n), "{n}");
            m.raw.insert(n.clone(), s);
            m.structs.insert(n, false);
        }
        let names: Vec<String> = m.raw.keys().cloned().collect();
        for n in names {
            let s = m.compile(&m.raw[&n].clone());
            m.types.insert(n, s);
        }
    }
}
