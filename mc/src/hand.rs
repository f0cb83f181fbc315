//! Hand-written adaptors for operations that are not plain conversions between documents.
//! Everything is reported as JSON so that the checks stay independent of the Rust types.
use crate::gen::{self, api};
use crate::reg::j;
use api::{McpMessage, RpcMessage};
use serde_json::{json, Value};

/// the protocol-version feature families (see proto::Family)
macro_rules! mid_new { ($($x:tt)*) => { #[cfg(any(feature = "v2025_11_25", feature = "v2026_07_28", feature = "vdraft"))] { $($x)* } } }
macro_rules! mid { ($($x:tt)*) => { #[cfg(feature = "v2025_11_25")] { $($x)* } } }

fn verdict<T: serde::Serialize>(r: Result<T, api::RpcError>) -> Value {
    match r {
        Ok(x) => json!({ "ok": x }),
        Err(e) => json!({ "err": e }),
    }
}

macro_rules! probe_message {
    ($name:ident, $ty:ident, $req:ident, $not:ident, $res:ident, $nf:ident, $var:ident) => {
        /// everything a receiver can ask of a message
        pub fn $name(m: api::$ty) -> Value {
            let mut o = json!({
                "variant": gen::$var(&m),
                "is": {"request": m.is_request(), "response": m.is_response(), "notification": m.is_notification(), "error": m.is_error()},
                "type": m.message_type().to_string(),
                "type_is": {"request": m.message_type() == api::MessageTypes::Request, "response": m.message_type() == api::MessageTypes::Response,
                            "notification": m.message_type() == api::MessageTypes::Notification, "error": m.message_type() == api::MessageTypes::Error},
                "id": m.request_id(),
                "jsonrpc": m.jsonrpc(),
                "display": m.to_string(),
                "emit": m,
                "as": {"request": verdict(m.clone().as_request()), "response": verdict(m.clone().as_response()),
                       "notification": verdict(m.clone().as_notification()), "error": verdict(m.clone().as_error())},
            });
            mid_new! { o["method"] = json!(m.method()); }
            match m.clone() {
                api::$ty::Request(x) => {
                    o["inner"] = json!({"jsonrpc": x.jsonrpc(), "display": x.to_string(), "wrapped": gen::$var(&api::$ty::from(x.clone()))});
                    mid_new! {
                        o["inner"]["id"] = json!(x.request_id());
                        o["inner"]["method"] = json!(x.method());
                    }
                    #[cfg(not(any(feature = "v2025_11_25", feature = "v2026_07_28", feature = "vdraft")))]
                    {
                        o["inner"]["id"] = json!(x.id);
                        o["inner"]["method"] = json!(x.method);
                        o["inner"]["method again"] = json!(x.request.method());
                    }
                    mid! { o["inner"]["task"] = json!(x.is_task_augmented()); }
                }
                api::$ty::Notification(x) => {
                    o["inner"] = json!({"jsonrpc": x.jsonrpc(), "display": x.to_string(), "wrapped": gen::$var(&api::$ty::from(x.clone()))});
                    mid_new! { o["inner"]["method"] = json!(api::$nf::from(x.clone()).method()); }
                    #[cfg(not(any(feature = "v2025_11_25", feature = "v2026_07_28", feature = "vdraft")))]
                    {
                        o["inner"]["method"] = json!(x.method);
                    }
                }
                api::$ty::Response(x) => {
                    o["inner"] = json!({"jsonrpc": x.jsonrpc(), "display": x.to_string(), "wrapped": gen::$var(&api::$ty::from(x.clone())), "id": x.id, "result": x.result});
                }
                api::$ty::Error(x) => {
                    o["inner"] = json!({"jsonrpc": x.jsonrpc(), "display": x.to_string(), "id": x.id, "error": x.error});
                }
            }
            o
        }
    };
}
probe_message!(
    probe_client,
    ClientMessage,
    ClientJsonrpcRequest,
    ClientJsonrpcNotification,
    ClientJsonrpcResponse,
    NotificationFromClient,
    var_ClientMessage
);
probe_message!(
    probe_server,
    ServerMessage,
    ServerJsonrpcRequest,
    ServerJsonrpcNotification,
    ServerJsonrpcResponse,
    NotificationFromServer,
    var_ServerMessage
);

/// reads a message from a JSON value and from text; Err: refused
pub fn message(client: bool, d: &Value) -> Result<Value, String> {
    if client {
        let m: api::ClientMessage = j(d)?;
        let a = m.is_initialize_request();
        #[allow(unused_mut)]
        let mut b = json!(m.is_initialized_notification());
        mid! {
            if let api::ClientMessage::Notification(n) = &m {
                // both answer the same
                if json!(n.is_initialized_notification()) != b {
                    b = json!("the message and its notification disagree");
                }
            }
        }
        let mut o = probe_client(m);
        o["initialize"] = json!(a);
        o["initialized"] = json!(b);
        Ok(o)
    } else {
        Ok(probe_server(j(d)?))
    }
}
/// the same through FromStr; Err carries the RpcError
pub fn message_str(client: bool, s: &str) -> Result<Value, Value> {
    let er = |e: api::RpcError| serde_json::to_value(e).unwrap();
    if client {
        s.parse::<api::ClientMessage>().map(probe_client).map_err(er)
    } else {
        s.parse::<api::ServerMessage>().map(probe_server).map_err(er)
    }
}

/// a message of the protocol as its plain union, without the crate's envelopes; None: the version has no such union
pub fn plain(client: bool, request: bool, d: &Value) -> Option<Result<Value, String>> {
    macro_rules! u {
        ($t:ident, $v:ident, $id:expr) => {
            Some(j::<api::$t>(d).map(|m| json!({"method": m.method(), "variant": gen::$v(&m), "id": ($id)(&m)})))
        };
    }
    #[cfg(any(feature = "v2025_11_25", feature = "v2026_07_28", feature = "vdraft"))]
    fn cid(m: &api::ClientRequest) -> Value {
        json!(m.request_id())
    }
    #[cfg(not(any(feature = "v2025_11_25", feature = "v2026_07_28", feature = "vdraft")))]
    fn cid(_: &api::ClientRequest) -> Value {
        Value::Null
    }
    #[cfg(feature = "v2025_11_25")]
    fn sid(m: &api::ServerRequest) -> Value {
        json!(m.request_id())
    }
    #[cfg(not(any(feature = "v2025_11_25", feature = "v2026_07_28", feature = "vdraft")))]
    fn sid(_: &api::ServerRequest) -> Value {
        Value::Null
    }
    match (client, request) {
        (true, true) => u!(ClientRequest, var_ClientRequest, cid),
        (false, false) => u!(ServerNotification, var_ServerNotification, |_| Value::Null),
        #[cfg(not(any(feature = "v2026_07_28", feature = "vdraft")))]
        (false, true) => u!(ServerRequest, var_ServerRequest, sid),
        #[cfg(not(any(feature = "v2026_07_28", feature = "vdraft")))]
        (true, false) => u!(ClientNotification, var_ClientNotification, |_| Value::Null),
        #[cfg(any(feature = "v2026_07_28", feature = "vdraft"))]
        _ => None,
    }
}

macro_rules! old { ($($x:tt)*) => { #[cfg(not(any(feature = "v2025_11_25", feature = "v2026_07_28", feature = "vdraft")))] { $($x)* } } }

/// the same for a message that is still to be sent (no id, no envelope)
macro_rules! outgoing {
    ($name:ident, $mt:ident, $msg:ident, $rf:ident, $nf:ident, $res:ident, $jreq:ident, $jnot:ident, $jres:ident, $mk:ident, $var:ident, $varm:ident, $varr:ident, $varn:ident) => {
        pub fn $name(path: &[&str], payload: &Value, id: Option<&Value>) -> Result<Value, String> {
            use api::FromMessage;
            let m: api::$mt = gen::$mk(path, payload)?;
            let rid: Option<api::RequestId> = match id {
                Some(i) => Some(j(i)?),
                None => None,
            };
            let t = |r: Result<api::$msg, api::RpcError>| match r {
                Ok(x) => json!({"ok": x, "variant": gen::$var(&x)}),
                Err(e) => json!({ "err": e }),
            };
            let mut o = json!({
                "is": {"request": m.is_request(), "response": m.is_response(), "notification": m.is_notification(), "error": m.is_error()},
                "type": m.message_type().to_string(),
                "variant": gen::$varm(&m),
                "from": t(api::$msg::from_message(m.clone(), rid.clone())),
            });
            // the single parts
            match m {
                api::$mt::$rf(r) => {
                    o["method"] = json!(r.method());
                    o["wrapped"] = json!(gen::$varm(&api::$mt::from(r.clone())));
                    if let Some(i) = rid {
                        let x = api::$jreq::new(i, r.clone());
                        o["new"] = json!(x);
                        mid_new! {
                            let back = api::$rf::from(x);
                            o["back"] = json!({"variant": gen::$varr(&back), "emit": back, "method": back.method()});
                        }
                    }
                }
                api::$mt::$nf(n) => {
                    o["wrapped"] = json!(gen::$varm(&api::$mt::from(n.clone())));
                    mid_new! { o["method"] = json!(n.method()); }
                    let x = api::$jnot::new(n.clone());
                    o["new"] = json!(x);
                    mid_new! {
                        let back = api::$nf::from(x);
                        o["back"] = json!({"variant": gen::$varn(&back), "emit": back, "method": back.method()});
                    }
                }
                api::$mt::Error(e) => {
                    o["wrapped"] = json!(gen::$varm(&api::$mt::from(e.clone())));
                }
                api::$mt::$res(r) => {
                    o["wrapped"] = json!(gen::$varm(&api::$mt::from(r.clone())));
                    if let Some(i) = rid {
                        o["new"] = json!(api::$jres::new(i, r));
                    }
                }
            }
            Ok(o)
        }
    };
}
outgoing!(
    outgoing_client,
    MessageFromClient,
    ClientMessage,
    RequestFromClient,
    NotificationFromClient,
    ResultFromClient,
    ClientJsonrpcRequest,
    ClientJsonrpcNotification,
    ClientJsonrpcResponse,
    mk_MessageFromClient,
    var_ClientMessage,
    var_MessageFromClient,
    var_RequestFromClient,
    var_NotificationFromClient
);
#[cfg(not(any(feature = "v2026_07_28", feature = "vdraft")))]
outgoing!(
    outgoing_server,
    MessageFromServer,
    ServerMessage,
    RequestFromServer,
    NotificationFromServer,
    ResultFromServer,
    ServerJsonrpcRequest,
    ServerJsonrpcNotification,
    ServerJsonrpcResponse,
    mk_MessageFromServer,
    var_ServerMessage,
    var_MessageFromServer,
    var_RequestFromServer,
    var_NotificationFromServer
);
#[cfg(any(feature = "v2026_07_28", feature = "vdraft"))]
outgoing!(
    outgoing_server,
    MessageFromServer,
    ServerMessage,
    RequestFromServer,
    NotificationFromServer,
    ServerResult,
    ServerJsonrpcRequest,
    ServerJsonrpcNotification,
    ServerJsonrpcResponse,
    mk_MessageFromServer,
    var_ServerMessage,
    var_MessageFromServer,
    var_RequestFromServer,
    var_NotificationFromServer
);

/// properties only some versions offer on an outgoing message
pub fn outgoing_extra(client: bool, path: &[&str], payload: &Value) -> Result<Value, String> {
    let mut o = json!({});
    if client {
        let m = gen::mk_MessageFromClient(path, payload)?;
        o["initialize"] = json!(m.is_initialize_request());
        o["initialized"] = json!(m.is_initialized_notification());
        if let api::MessageFromClient::RequestFromClient(r) = &m {
            o["inner initialize"] = json!(r.is_initialize_request());
        }
        #[cfg(not(any(feature = "v2026_07_28", feature = "vdraft")))]
        if let api::MessageFromClient::NotificationFromClient(r) = &m {
            o["inner initialized"] = json!(r.is_initialized_notification());
        }
    } else {
        let _m = gen::mk_MessageFromServer(path, payload)?;
        mid! {
            o["task"] = json!(_m.is_task_augmented());
            if let api::MessageFromServer::RequestFromServer(r) = &_m {
                o["inner task"] = json!(r.is_task_augmented());
            }
        }
    }
    old! { let _ = &o; }
    Ok(o)
}

#[cfg(not(any(feature = "v2024_11_05", feature = "v2025_03_26")))]
type Block = api::ContentBlock;
#[cfg(any(feature = "v2024_11_05", feature = "v2025_03_26"))]
type Block = api::CallToolResultContentItem;

/// a content block through its accessors
pub fn block(d: &Value) -> Result<Value, String> {
    let b: Block = j(d)?;
    let mut o = json!({"type": b.content_type(), "as": {
        "TextContent": verdict(b.as_text_content()),
        "ImageContent": verdict(b.as_image_content()),
        "EmbeddedResource": verdict(b.as_embedded_resource()),
    }});
    #[cfg(not(feature = "v2024_11_05"))]
    {
        o["as"]["AudioContent"] = verdict(b.as_audio_content());
    }
    #[cfg(not(any(feature = "v2024_11_05", feature = "v2025_03_26")))]
    {
        o["as"]["ResourceLink"] = verdict(b.as_resource_link());
    }
    Ok(o)
}

/// what capabilities say about requests and notifications (the three newest versions)
#[cfg(any(feature = "v2025_11_25", feature = "v2026_07_28", feature = "vdraft"))]
pub mod gate {
    use super::*;
    type Verdicts = Result<(Vec<Option<Value>>, Vec<Option<Value>>, Value), String>;
    fn v(r: Result<(), api::RpcError>) -> Option<Value> {
        r.err().map(|e| serde_json::to_value(e).unwrap())
    }
    pub struct Requests {
        client: Vec<api::ClientJsonrpcRequest>,
        server: Vec<api::ServerJsonrpcRequest>,
    }
    impl Requests {
        pub fn new(from_client: bool, docs: &[Value]) -> Result<Requests, String> {
            let mut r = Requests { client: vec![], server: vec![] };
            for d in docs {
                if from_client {
                    r.client.push(j(d)?);
                } else {
                    r.server.push(j(d)?);
                }
            }
            Ok(r)
        }
        /// the verdicts of a server with these capabilities
        pub fn server(&self, caps: &Value, methods: &[String]) -> Verdicts {
            let c: api::ServerCapabilities = j(caps)?;
            #[allow(unused_mut)]
            let mut o = json!({});
            #[cfg(feature = "v2025_11_25")]
            {
                o = json!({"list": c.can_list_tasks(), "cancel": c.can_cancel_tasks(), "tools": c.can_run_task_augmented_tools()});
                if let Some(t) = &c.tasks {
                    o["tasks"] = json!({"list": t.can_list_tasks(), "cancel": t.can_cancel_tasks(), "tools": t.can_run_task_augmented_tools()});
                }
            }
            Ok((
                self.client.iter().map(|r| v(c.can_handle_request(r))).collect(),
                methods.iter().map(|m| v(c.can_accept_notification(m))).collect(),
                o,
            ))
        }
        pub fn client(&self, caps: &Value, methods: &[String]) -> Verdicts {
            let c: api::ClientCapabilities = j(caps)?;
            #[allow(unused_mut)]
            let mut o = json!({});
            #[cfg(feature = "v2025_11_25")]
            {
                o = json!({"list": c.can_list_tasks(), "cancel": c.can_cancel_tasks(), "elicitation": c.can_accept_elicitation_task(), "sampling": c.can_accept_sampling_task()});
                if let Some(t) = &c.tasks {
                    o["tasks"] = json!({"list": t.can_list_tasks(), "cancel": t.can_cancel_tasks(), "elicitation": t.can_accept_elicitation_task(), "sampling": t.can_accept_sampling_task()});
                }
            }
            Ok((
                self.server.iter().map(|r| v(c.can_handle_request(r))).collect(),
                methods.iter().map(|m| v(c.can_accept_notification(m))).collect(),
                o,
            ))
        }
    }
}

/// error values and what is done to them
pub mod errs {
    use super::*;
    pub enum E {
        Rpc(api::RpcError),
        Sdk(api::SdkError),
    }
    pub const RPC: &[&str] = &["method_not_found", "invalid_params", "invalid_request", "internal_error", "parse_error"];
    pub const SDK: &[&str] = &[
        "connection_closed",
        "session_not_found",
        "invalid_request",
        "method_not_found",
        "invalid_params",
        "internal_error",
        "parse_error",
        "resource_not_found",
        "bad_request",
    ];
    impl E {
        pub fn rpc(n: &str) -> E {
            use api::RpcError as R;
            E::Rpc(match n {
                "method_not_found" => R::method_not_found(),
                "invalid_params" => R::invalid_params(),
                "invalid_request" => R::invalid_request(),
                "internal_error" => R::internal_error(),
                "parse_error" => R::parse_error(),
                _ => unreachable!(),
            })
        }
        pub fn sdk(n: &str) -> E {
            use api::SdkError as R;
            E::Sdk(match n {
                "connection_closed" => R::connection_closed(),
                "session_not_found" => R::session_not_found(),
                "invalid_request" => R::invalid_request(),
                "method_not_found" => R::method_not_found(),
                "invalid_params" => R::invalid_params(),
                "internal_error" => R::internal_error(),
                "parse_error" => R::parse_error(),
                "resource_not_found" => R::resource_not_found(),
                "bad_request" => R::bad_request(),
                _ => unreachable!(),
            })
        }
        pub fn timeout(t: u128) -> E {
            E::Sdk(api::SdkError::request_timeout(t.try_into().unwrap_or_default()))
        }
        pub fn with_message(self, m: &str, owned: bool) -> E {
            match self {
                E::Rpc(e) if owned => E::Rpc(e.with_message(m.to_string())),
                E::Rpc(e) => E::Rpc(e.with_message(m)),
                E::Sdk(e) => E::Sdk(e.with_message(m)),
            }
        }
        pub fn with_data(self, d: Option<Value>) -> E {
            match self {
                E::Rpc(e) => E::Rpc(e.with_data(d)),
                E::Sdk(e) => E::Sdk(e.with_data(d)),
            }
        }
        #[allow(deprecated)]
        pub fn view(&self) -> Value {
            use std::error::Error;
            match self {
                E::Rpc(e) => json!({"emit": e, "code": e.code, "message": e.message, "data": e.data, "display": e.to_string(), "describe": e.description(),
                    "parsed": e.to_string().parse::<api::RpcError>().ok(), "source": e.source().is_some(),
                    "client": gen::var_MessageFromClient(&api::MessageFromClient::from(e.clone())), "server": gen::var_MessageFromServer(&api::MessageFromServer::from(e.clone()))}),
                E::Sdk(e) => json!({"emit": e, "code": e.code, "message": e.message, "data": e.data, "display": e.to_string(), "describe": e.description(),
                    "source": e.source().is_some()}),
            }
        }
    }
    /// by the name of the code
    pub fn codes() -> Vec<(&'static str, fn() -> (i64, String))> {
        macro_rules! c { ($($n:ident),*) => { vec![$((stringify!($n), (|| (api::SdkErrorCodes::$n.into(), api::SdkErrorCodes::$n.to_string())) as fn() -> (i64, String))),*] } }
        #[allow(unused_mut)]
        let mut v = c!(
            CONNECTION_CLOSED,
            REQUEST_TIMEOUT,
            RESOURCE_NOT_FOUND,
            BAD_REQUEST,
            SESSION_NOT_FOUND,
            INVALID_REQUEST,
            METHOD_NOT_FOUND,
            INVALID_PARAMS,
            INTERNAL_ERROR,
            PARSE_ERROR
        );
        mid! { v.extend(c!(URL_ELICITATION_REQUIRED)); }
        #[cfg(any(feature = "v2026_07_28", feature = "vdraft"))]
        v.extend(c!(MISSING_REQUIRED_CLIENT_CAPABILITY, UNSUPPORTED_PROTOCOL_VERSION));
        v
    }
    /// the codes an RPC error is made from: the number it turns into, and the number the error made from it has
    pub fn rpc_codes() -> Vec<(&'static str, fn() -> (i64, i64))> {
        macro_rules! c { ($($n:ident),*) => { vec![$((stringify!($n), (|| (api::RpcErrorCodes::$n.into(), api::RpcError::new(api::RpcErrorCodes::$n, "m".into(), None).code)) as fn() -> (i64, i64))),*] } }
        #[allow(unused_mut)]
        let mut v = c!(PARSE_ERROR, INVALID_REQUEST, METHOD_NOT_FOUND, INVALID_PARAMS, INTERNAL_ERROR);
        mid! { v.extend(c!(URL_ELICITATION_REQUIRED)); }
        #[cfg(any(feature = "v2026_07_28", feature = "vdraft"))]
        v.extend(c!(HEADER_MISMATCH, MISSING_REQUIRED_CLIENT_CAPABILITY, UNSUPPORTED_PROTOCOL_VERSION));
        v
    }
    pub type New = fn(String, Option<Value>) -> E;
    pub type Create = fn(Option<api::RequestId>, String, Option<Value>) -> Value;
    /// constructors by the name of the code
    pub fn news() -> Vec<(&'static str, bool, New)> {
        macro_rules! r { ($($n:ident),*) => { vec![$((stringify!($n), true, (|m, d| E::Rpc(api::RpcError::new(api::RpcErrorCodes::$n, m, d))) as New)),*] } }
        macro_rules! s { ($($n:ident),*) => { vec![$((stringify!($n), false, (|m, d| E::Sdk(api::SdkError::new(api::SdkErrorCodes::$n, m, d))) as New)),*] } }
        let mut v = r!(PARSE_ERROR, INVALID_REQUEST, METHOD_NOT_FOUND, INVALID_PARAMS, INTERNAL_ERROR);
        v.extend(s!(
            CONNECTION_CLOSED,
            REQUEST_TIMEOUT,
            RESOURCE_NOT_FOUND,
            BAD_REQUEST,
            SESSION_NOT_FOUND,
            INVALID_REQUEST,
            METHOD_NOT_FOUND,
            INVALID_PARAMS,
            INTERNAL_ERROR,
            PARSE_ERROR
        ));
        mid! { v.extend(r!(URL_ELICITATION_REQUIRED)); v.extend(s!(URL_ELICITATION_REQUIRED)); }
        #[cfg(any(feature = "v2026_07_28", feature = "vdraft"))]
        {
            v.extend(r!(HEADER_MISMATCH, MISSING_REQUIRED_CLIENT_CAPABILITY, UNSUPPORTED_PROTOCOL_VERSION));
            v.extend(s!(MISSING_REQUIRED_CLIENT_CAPABILITY, UNSUPPORTED_PROTOCOL_VERSION));
        }
        v
    }
    pub fn creates() -> Vec<(&'static str, Create)> {
        #[cfg(any(feature = "v2025_11_25", feature = "v2026_07_28", feature = "vdraft"))]
        macro_rules! r { ($($n:ident),*) => { vec![$((stringify!($n), (|i, m, d| serde_json::to_value(api::JsonrpcErrorResponse::create(i, api::RpcErrorCodes::$n, m, d)).unwrap()) as Create)),*] } }
        #[cfg(not(any(feature = "v2025_11_25", feature = "v2026_07_28", feature = "vdraft")))]
        macro_rules! r { ($($n:ident),*) => { vec![$((stringify!($n), (|i, m, d| serde_json::to_value(api::JsonrpcError::create(i.unwrap(), api::RpcErrorCodes::$n, m, d)).unwrap()) as Create)),*] } }
        #[allow(unused_mut)]
        let mut v = r!(PARSE_ERROR, INVALID_REQUEST, METHOD_NOT_FOUND, INVALID_PARAMS, INTERNAL_ERROR);
        mid! { v.extend(r!(URL_ELICITATION_REQUIRED)); }
        #[cfg(any(feature = "v2026_07_28", feature = "vdraft"))]
        v.extend(r!(HEADER_MISMATCH, MISSING_REQUIRED_CLIENT_CAPABILITY, UNSUPPORTED_PROTOCOL_VERSION));
        v
    }
    #[cfg(feature = "v2025_11_25")]
    pub fn url_required(urls: &Value) -> Result<(E, E), String> {
        Ok((E::Rpc(api::RpcError::url_elicit_required(j(urls)?)), E::Sdk(api::SdkError::url_elicit_required(j(urls)?))))
    }
    #[cfg(not(feature = "v2025_11_25"))]
    pub fn url_required(_: &Value) -> Result<(E, E), String> {
        Err("none".into())
    }

    /// an application's own error, with a cause
    #[derive(Debug)]
    pub struct Own(pub String, pub Option<Box<Own>>);
    impl std::fmt::Display for Own {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            write!(f, "{}", self.0)
        }
    }
    impl std::error::Error for Own {
        fn source(&self) -> Option<&(dyn std::error::Error + 'static)> {
            self.1.as_ref().map(|b| &**b as &(dyn std::error::Error + 'static))
        }
    }
    /// the ways to make a tool error
    pub enum Mk {
        Message(String),
        /// an error and what caused it, nearest first
        Own(String, Vec<String>),
        Unknown(String),
        Arguments(String, Option<String>),
        Task,
        Nested(Box<Mk>),
    }
    fn own(m: &str, causes: &[String]) -> Own {
        Own(m.into(), causes.split_first().map(|(a, b)| Box::new(own(a, b))))
    }
    /// every cause of an error, nearest first
    fn causes(e: &dyn std::error::Error) -> Vec<String> {
        std::iter::successors(e.source(), |s| s.source()).take(9).map(|s| s.to_string()).collect()
    }
    fn make(k: &Mk) -> api::CallToolError {
        use api::CallToolError as T;
        match k {
            Mk::Message(m) => T::from_message(m.clone()),
            Mk::Own(m, s) => T::new(own(m, s)),
            Mk::Unknown(n) => T::unknown_tool(n.clone()),
            Mk::Arguments(n, m) => T::invalid_arguments(n, m.clone()),
            #[cfg(any(feature = "v2025_11_25", feature = "v2026_07_28", feature = "vdraft"))]
            Mk::Task => T::unsupported_task_augmented_tool_call(),
            #[cfg(not(any(feature = "v2025_11_25", feature = "v2026_07_28", feature = "vdraft")))]
            Mk::Task => T::from_message("Task-augmented tool calls are not supported."),
            Mk::Nested(k) => T::new(make(k)),
        }
    }
    pub fn tool_error(k: &Mk) -> Value {
        let e = make(k);
        json!({"display": e.to_string(), "inner": e.0.to_string(), "causes": causes(&e), "inner_causes": causes(&*e.0),
            "result": api::CallToolResult::from(make(k)), "with_error": api::CallToolResult::with_error(make(k)), "rpc": api::RpcError::from(make(k))})
    }
}

/// tool results made step by step, and content made from parts
pub mod content {
    use super::*;
    #[cfg(feature = "v2024_11_05")]
    type TextAnn = api::TextContentAnnotations;
    #[cfg(feature = "v2024_11_05")]
    type ImageAnn = api::ImageContentAnnotations;
    #[cfg(feature = "v2024_11_05")]
    type EmbAnn = api::EmbeddedResourceAnnotations;
    #[cfg(feature = "v2025_03_26")]
    type TextAnn = api::Annotations;
    #[cfg(feature = "v2025_03_26")]
    type ImageAnn = api::Annotations;
    #[cfg(feature = "v2025_03_26")]
    type EmbAnn = api::Annotations;

    /// one block made of its parts (a document of the block)
    #[cfg(any(feature = "v2024_11_05", feature = "v2025_03_26"))]
    pub fn block_of(d: &Value) -> Result<Value, String> {
        let s = |k: &str| j::<String>(&d[k]);
        let b = match d["type"].as_str().unwrap() {
            "text" => Block::text_content(s("text")?, j::<Option<TextAnn>>(&d["annotations"])?),
            "image" => Block::image_content(s("data")?, s("mimeType")?, j::<Option<ImageAnn>>(&d["annotations"])?),
            "resource" => Block::embedded_resource(j(&d["resource"])?, j::<Option<EmbAnn>>(&d["annotations"])?),
            #[cfg(feature = "v2025_03_26")]
            "audio" => Block::audio_content(s("data")?, s("mimeType")?, j::<Option<ImageAnn>>(&d["annotations"])?),
            x => return Err(format!("no block {x}")),
        };
        Ok(json!(b))
    }
    #[cfg(not(any(feature = "v2024_11_05", feature = "v2025_03_26")))]
    pub fn block_of(d: &Value) -> Result<Value, String> {
        let s = |k: &str| j::<String>(&d[k]);
        let b = match d["type"].as_str().unwrap() {
            "text" => Block::text_content(s("text")?),
            "image" => Block::image_content(s("data")?, s("mimeType")?),
            "resource" => Block::embedded_resource(j(&d["resource"])?),
            "resource_link" => Block::resource_link(j(d)?),
            "audio" => Block::audio_content(s("data")?, s("mimeType")?),
            x => return Err(format!("no block {x}")),
        };
        Ok(json!(b))
    }
    #[cfg(any(feature = "v2024_11_05", feature = "v2025_03_26"))]
    pub const STARTS: &[&str] = &["text", "image", "resource", "audio", "error"];
    #[cfg(not(any(feature = "v2024_11_05", feature = "v2025_03_26")))]
    pub const STARTS: &[&str] = &["text", "image", "resource", "audio", "resource_link", "any", "error"];

    #[derive(Clone, Debug)]
    pub enum Op {
        Meta(Option<Value>),
        Structured(Value),
        Add(Value),
    }
    pub const FULL: bool = cfg!(not(any(feature = "v2024_11_05", feature = "v2025_03_26")));

    /// a tool result from blocks of one kind and the operations applied to it
    pub fn tool_result(start: &str, blocks: &[Value], ops: &[Op]) -> Result<Value, String> {
        use api::CallToolResult as T;
        let all = Value::Array(blocks.to_vec());
        #[cfg(any(feature = "v2024_11_05", feature = "v2025_03_26"))]
        let mut r = {
            let d = &blocks[0];
            let s = |k: &str| j::<String>(&d[k]);
            let _ = &all;
            match start {
                "text" => T::text_content(s("text")?, j::<Option<TextAnn>>(&d["annotations"])?),
                "image" => T::image_content(s("data")?, s("mimeType")?, j::<Option<ImageAnn>>(&d["annotations"])?),
                "resource" => T::embedded_resource(j(&d["resource"])?, j::<Option<EmbAnn>>(&d["annotations"])?),
                #[cfg(feature = "v2025_03_26")]
                "audio" => T::audio_content(s("data")?, s("mimeType")?, j::<Option<ImageAnn>>(&d["annotations"])?),
                "error" => T::with_error(api::CallToolError::from_message(s("text")?)),
                x => return Err(format!("no start {x}")),
            }
        };
        #[cfg(not(any(feature = "v2024_11_05", feature = "v2025_03_26")))]
        let mut r = match start {
            "text" => T::text_content(j(&all)?),
            "image" => T::image_content(j(&all)?),
            "audio" => T::audio_content(j(&all)?),
            "resource" => T::embedded_resource(j(&all)?),
            "resource_link" => T::resource_link(j(&all)?),
            "any" => T::from_content(j(&all)?),
            "error" => T::with_error(api::CallToolError::from_message(j::<String>(&blocks[0]["text"])?)),
            x => return Err(format!("no start {x}")),
        };
        for o in ops {
            r = match o {
                Op::Meta(m) => r.with_meta(match m {
                    Some(m) => Some(j(m)?),
                    None => None,
                }),
                #[cfg(not(any(feature = "v2024_11_05", feature = "v2025_03_26")))]
                Op::Structured(v) => r.with_structured_content(j(v)?),
                #[cfg(not(any(feature = "v2024_11_05", feature = "v2025_03_26")))]
                Op::Add(b) => r.add_content(j(b)?),
                #[cfg(any(feature = "v2024_11_05", feature = "v2025_03_26"))]
                _ => return Err("no such operation".into()),
            };
        }
        Ok(json!(r))
    }

    /// values made of plain text
    #[allow(unused_mut)]
    pub fn from_text(t: &str) -> Vec<(&'static str, Value)> {
        let mut v: Vec<(&'static str, Value)> = vec![];
        #[cfg(not(any(feature = "v2024_11_05", feature = "v2025_03_26")))]
        {
            v.push(("TextContent", json!(api::TextContent::from(t))));
            v.push(("TextContent", json!(api::TextContent::from(t.to_string()))));
        }
        #[cfg(feature = "v2025_11_25")]
        {
            v.push(("IconTheme", json!(api::IconTheme::from(t))));
            v.push(("text", json!(api::ElicitResultContent::from(t))));
            v.push(("text", json!(api::ElicitResultContent::from(t.to_string()))));
            v.push(("text", json!(api::ElicitResultContentPrimitive::from(t))));
            v.push(("text", json!(api::ElicitResultContentPrimitive::from(t.to_string()))));
            v.push(("list", json!(api::ElicitResultContent::from(vec![t, "x", t]))));
        }
        v
    }
    #[cfg(feature = "v2025_11_25")]
    pub fn from_int(i: i64) -> Vec<Value> {
        let i = &json!(i);
        let (a, b) = (
            crate::reg::from_as::<_, _, api::ElicitResultContent>(api::ElicitResultContentPrimitive::Integer, i),
            crate::reg::from_as::<_, _, api::ElicitResultContentPrimitive>(api::ElicitResultContentPrimitive::Integer, i),
        );
        vec![json!(a.unwrap_or_else(|e| panic!("{e}"))), json!(b.unwrap_or_else(|e| panic!("{e}")))]
    }
    #[cfg(not(feature = "v2025_11_25"))]
    pub fn from_int(_: i64) -> Vec<Value> {
        vec![]
    }
}

/// containers of one or many messages
pub mod batch {
    use super::*;
    fn sdk<T>(r: Result<T, api::SdkError>, f: impl Fn(T) -> Value) -> Value {
        match r {
            Ok(x) => json!({ "ok": f(x) }),
            Err(e) => json!({ "err": e }),
        }
    }
    macro_rules! containers {
        ($view:ident, $read:ident, $made:ident, $outview:ident, $outmade:ident, $many:ident, $one:ident, $omany:ident, $oone:ident, $probe:ident, $mk:ident) => {
            pub fn $view(m: api::$many) -> Value {
                json!({"batch": m.is_batch(), "request": m.includes_request(), "display": m.to_string(), "emit": m,
                    "single": sdk(m.clone().as_single(), $probe), "list": sdk(m.as_batch(), |l| Value::Array(l.into_iter().map($probe).collect()))})
            }
            pub fn $read(text: &str) -> (Option<Value>, Option<Value>) {
                let a = serde_json::from_str::<api::$many>(text).ok().map($view);
                let b = serde_json::from_str::<Value>(text).ok().and_then(|v| j::<api::$many>(&v).ok()).map($view);
                (a, b)
            }
            pub fn $made(docs: &[Value], single: bool) -> Result<Value, String> {
                Ok($view(if single { api::$many::from(j::<api::$one>(&docs[0])?) } else { api::$many::from(j::<Vec<api::$one>>(&Value::Array(docs.to_vec()))?) }))
            }
            fn $outview(m: api::$omany) -> Value {
                json!({"batch": m.is_batch(), "request": m.includes_request(), "emit": m,
                    "single": sdk(m.clone().as_single(), |m| json!(m)), "list": sdk(m.as_batch(), |l| json!(l))})
            }
            /// outgoing messages by variant and payload; also each of them alone
            pub fn $outmade(parts: &[(&[&str], &Value)], single: bool) -> Result<(Value, Vec<Value>), String> {
                let l = parts.iter().map(|(p, v)| gen::$mk(p, v)).collect::<Result<Vec<api::$oone>, String>>()?;
                let each = l.iter().map(|m| json!({"request": m.is_request(), "emit": m})).collect();
                Ok(($outview(if single { api::$omany::from(l[0].clone()) } else { api::$omany::from(l) }), each))
            }
        };
    }
    containers!(
        view_client,
        read_client,
        made_client,
        outview_client,
        outmade_client,
        ClientMessages,
        ClientMessage,
        MessagesFromClient,
        MessageFromClient,
        probe_client,
        mk_MessageFromClient
    );
    containers!(
        view_server,
        read_server,
        made_server,
        outview_server,
        outmade_server,
        ServerMessages,
        ServerMessage,
        MessagesFromServer,
        MessageFromServer,
        probe_server,
        mk_MessageFromServer
    );
}

/// protocol versions and other small values
pub mod values {
    use super::*;
    use std::collections::{HashMap, HashSet};
    use std::convert::TryFrom;
    pub const LATEST: &str = api::LATEST_PROTOCOL_VERSION;
    pub const JSONRPC: &str = api::JSONRPC_VERSION;

    pub fn version(s: &str) -> Result<(String, api::ProtocolVersion), (String, bool)> {
        match api::ProtocolVersion::try_from(s) {
            Ok(v) => Ok((format!("{v:?}"), v)),
            Err(e) => Err((e.to_string(), std::error::Error::source(&e).is_some())),
        }
    }
    pub fn supported(draft: bool) -> Vec<api::ProtocolVersion> {
        api::ProtocolVersion::supported_versions(draft)
    }
    pub fn latest() -> api::ProtocolVersion {
        api::ProtocolVersion::latest()
    }
    pub fn owned(v: api::ProtocolVersion) -> String {
        v.into()
    }

    fn h<T: std::hash::Hash>(t: &T) -> u64 {
        mccore::ctx::h64(t)
    }
    /// how two request ids relate
    #[allow(clippy::op_ref)]
    pub fn ids(a: &Value, b: &Value) -> Result<Value, String> {
        let (x, y): (api::RequestId, api::RequestId) = (j(a)?, j(b)?);
        let mut m = HashMap::new();
        m.insert(x.clone(), 1);
        let s: HashSet<api::RequestId> = [x.clone(), y.clone()].into_iter().collect();
        Ok(json!({
            "eq": x == y, "ne": x != y, "ref": &x == y, "refs": &x == &y,
            "same hash": h(&x) == h(&y), "found": m.contains_key(&y), "set": s.len(),
            "display": [x.to_string(), y.to_string()],
            "clone": x.clone() == x,
            "wire": wired(&x)? == y, "wire back": x == wired(&y)?,
            "sent": [serde_json::to_value(&x).map_err(|e| e.to_string())?, serde_json::to_value(&y).map_err(|e| e.to_string())?],
        }))
    }
    fn wired(x: &api::RequestId) -> Result<api::RequestId, String> {
        let t = serde_json::to_string(x).map_err(|e| e.to_string())?;
        serde_json::from_str(&t).map_err(|e| e.to_string())
    }
    /// waiting requests: inserts and removals by id; what each operation found
    pub fn table(ops: &[(bool, &Value)]) -> Result<Value, String> {
        let mut m: HashMap<api::RequestId, usize> = HashMap::new();
        let mut seen = vec![];
        for (i, (put, id)) in ops.iter().enumerate() {
            let id: api::RequestId = j(id)?;
            seen.push(if *put { json!(m.insert(id, i)) } else { json!(m.remove(&id)) });
        }
        let mut left: Vec<usize> = m.into_values().collect();
        left.sort();
        Ok(json!([seen, left]))
    }
    #[cfg(not(any(feature = "v2024_11_05", feature = "v2025_03_26")))]
    pub fn primitive(d: &Value) -> Option<Result<Value, Value>> {
        Some(
            api::PrimitiveSchemaDefinition::try_from(d.as_object().unwrap())
                .map(|x| json!({"variant": gen::var_PrimitiveSchemaDefinition(&x), "emit": x}))
                .map_err(|e| json!(e)),
        )
    }
    #[cfg(any(feature = "v2024_11_05", feature = "v2025_03_26"))]
    pub fn primitive(_: &Value) -> Option<Result<Value, Value>> {
        None
    }
}

/// helpers of single types
pub mod helpers {
    use super::*;
    pub fn tool_name(d: &Value) -> Result<String, String> {
        Ok(j::<api::CallToolRequest>(d)?.tool_name().to_string())
    }
    #[cfg(any(feature = "v2025_11_25", feature = "v2026_07_28", feature = "vdraft"))]
    pub fn elicit_message(d: &Value) -> Result<String, String> {
        Ok(j::<api::ElicitRequestParams>(d)?.message().to_string())
    }
    #[cfg(feature = "v2025_11_25")]
    pub mod tasks {
        use super::*;
        use api::McpMetaEx;
        pub const KEY: &str = api::RELATED_TASK_META_KEY;
        pub fn terminal(ty: &str, d: &Value) -> Result<bool, String> {
            Ok(match ty {
                "TaskStatus" => j::<api::TaskStatus>(d)?.is_terminal(),
                "Task" => j::<api::Task>(d)?.is_terminal(),
                _ => j::<api::GetTaskResult>(d)?.is_terminal(),
            })
        }
        pub fn augmented(ty: &str, d: &Value) -> Result<bool, String> {
            Ok(match ty {
                "CallToolRequest" => j::<api::CallToolRequest>(d)?.is_task_augmented(),
                "CallToolRequestParams" => j::<api::CallToolRequestParams>(d)?.is_task_augmented(),
                "CreateMessageRequestParams" => j::<api::CreateMessageRequestParams>(d)?.is_task_augmented(),
                "ElicitRequestParams" => j::<api::ElicitRequestParams>(d)?.is_task_augmented(),
                "ClientJsonrpcRequest" => j::<api::ClientJsonrpcRequest>(d)?.is_task_augmented(),
                _ => j::<api::ServerJsonrpcRequest>(d)?.is_task_augmented(),
            })
        }
        /// sets related task ids one after the other
        pub fn related(d: &Value, ids: &[&str]) -> Result<Vec<Value>, String> {
            let mut r: api::GetTaskPayloadResult = j(d)?;
            let mut v = vec![json!([r.related_task_id(), r])];
            for (i, id) in ids.iter().enumerate() {
                if i % 2 == 0 {
                    r.set_related_task_id(*id);
                } else {
                    r.set_related_task_id(id.to_string());
                }
                v.push(json!([r.related_task_id(), r]));
            }
            Ok(v)
        }
        /// the same on bare metadata, mixed with other entries
        pub fn meta(start: &Value, ops: &[(&str, &str, Value)]) -> Vec<Value> {
            let mut m = start.as_object().unwrap().clone();
            let mut v = vec![];
            for (op, k, x) in ops {
                m = match *op {
                    "set" => {
                        m.set_related_task_id(*k);
                        m
                    }
                    "with" => m.with_related_task_id(k.to_string()),
                    "add" => match x {
                        Value::String(s) => m.add(*k, s.clone()),
                        Value::Number(n) => m.add(k.to_string(), n.as_i64().unwrap()),
                        Value::Bool(b) => m.add(*k, *b),
                        x => m.add(*k, x.clone()),
                    },
                    "add_if true" => m.add_if(true, *k, x.clone()),
                    "add_if false" => m.add_if(false, *k, x.clone()),
                    _ => m.add_raw(*k, x.clone()),
                };
                v.push(json!([m.related_task_id(), m]));
            }
            v
        }
    }
}

/// request metadata and the input-required flow (the two newest versions)
#[cfg(any(feature = "v2026_07_28", feature = "vdraft"))]
pub mod flow {
    use super::*;
    fn meta_view(m: &api::RequestMetaObject) -> Value {
        json!({"emit": m, "traceparent": m.traceparent(), "tracestate": m.tracestate(), "baggage": m.baggage()})
    }
    /// the metadata after every step; None starts from new(), Some from a document
    pub fn meta(start: Option<&Value>, version: &str, caps: &Value, ops: &[(&str, Value)]) -> Result<Vec<Value>, String> {
        let mut m = match start {
            Some(d) => j(d)?,
            None => api::RequestMetaObject::new(version, j(caps)?),
        };
        let mut v = vec![meta_view(&m)];
        for (op, a) in ops {
            m = match *op {
                "client_info" => m.with_client_info(j(a)?),
                "log_level" => m.with_log_level(j(a)?),
                "progress_token" => m.with_progress_token(j(a)?),
                "traceparent" => m.with_traceparent(a.as_str().unwrap()),
                "tracestate" => m.with_tracestate(a.as_str().unwrap().to_string()),
                _ => m.with_baggage(a.as_str().unwrap()),
            };
            v.push(meta_view(&m));
        }
        Ok(v)
    }
    /// metadata stamped on a request, as the sender and, through text, as the receiver see it
    pub fn stamp(path: &[&str], payload: &Value, meta: Option<&Value>) -> Result<Value, String> {
        use api::FromMessage;
        let mut r = gen::mk_RequestFromClient(path, payload)?;
        if let Some(m) = meta {
            r = r.with_meta(j(m)?);
        }
        let mut o = json!({"meta": r.meta(), "variant": gen::var_RequestFromClient(&r), "emit": r, "method": r.method()});
        let m = api::ClientMessage::from_message(api::MessageFromClient::RequestFromClient(r), Some(api::RequestId::Integer(1))).map_err(|e| e.to_string())?;
        let read: api::ClientMessage = m.to_string().parse().map_err(|e: api::RpcError| e.to_string())?;
        let back = api::RequestFromClient::from(read.as_request().map_err(|e| e.to_string())?);
        o["received"] = json!({"meta": back.meta(), "variant": gen::var_RequestFromClient(&back), "emit": back});
        Ok(o)
    }
    fn responses(rs: &[(String, &str, Value)]) -> Result<(api::InputResponses, Value), String> {
        let mut x = api::InputResponses::new();
        let mut seen = vec![json!([x.len(), x.is_empty()])];
        for (k, ty, v) in rs {
            x = match *ty {
                "CreateMessageResult" => x.insert(k.as_str(), j::<api::CreateMessageResult>(v)?),
                "ListRootsResult" => x.insert(k.clone(), j::<api::ListRootsResult>(v)?),
                _ => x.insert(k.as_str(), j::<api::ElicitResult>(v)?),
            };
            seen.push(json!([x.len(), x.is_empty()]));
        }
        Ok((x, json!(seen)))
    }
    /// answers to input requests put on a request that is sent again
    pub fn retry(path: &[&str], payload: &Value, rs: &[(String, &str, Value)], state: Option<&str>, id: &Value) -> Result<Value, String> {
        use api::FromMessage;
        let (x, seen) = responses(rs)?;
        let r = gen::mk_RequestFromClient(path, payload)?;
        let mut o = json!({"responses": x, "seen": seen, "default": api::InputResponses::default()});
        match r.with_input_responses(x, state.map(String::from)) {
            Err(e) => o["err"] = json!(e),
            Ok(r) => {
                o["variant"] = json!(gen::var_RequestFromClient(&r));
                let m = api::ClientMessage::from_message(api::MessageFromClient::RequestFromClient(r), Some(j(id)?)).map_err(|e| e.to_string())?;
                o["text"] = json!(m.to_string());
            }
        }
        Ok(o)
    }
    /// an input-required answer as a server makes it
    pub fn ask(base: &Value, requests: Option<&Value>, state: Option<&str>, id: &Value) -> Result<String, String> {
        let mut r: api::InputRequiredResult = j(base)?;
        if let Some(q) = requests {
            r = r.with_input_requests(j(q)?);
        }
        if let Some(s) = state {
            r = r.with_request_state(s);
        }
        use api::FromMessage;
        let m = api::ServerMessage::from_message(api::MessageFromServer::ServerResult(api::ServerResult::InputRequiredResult(r)), Some(j(id)?)).map_err(|e: api::RpcError| e.to_string())?;
        Ok(m.to_string())
    }
    /// what a client learns from a response
    pub fn answer(text: &str) -> Result<Value, String> {
        let m: api::ServerMessage = text.parse().map_err(|e: api::RpcError| e.to_string())?;
        let r = m.as_response().map_err(|e| e.to_string())?;
        let res: api::ServerResult = r.result;
        let mut o = json!({"id": r.id, "input required": res.is_input_required(), "complete": res.is_complete(), "variant": gen::var_ServerResult(&res), "emit": res});
        if let Some(i) = res.as_input_required() {
            o["as"] = json!(i);
            o["state"] = json!(i.request_state);
            if let Some(q) = &i.input_requests {
                o["len"] = json!(q.len());
                o["empty"] = json!(q.is_empty());
                o["keys"] = json!(q.keys().collect::<Vec<_>>());
                o["missing"] = json!(q.get("no such key").is_some());
                let mut l = vec![];
                for (k, x) in q.iter() {
                    l.push(json!({"key": k, "method": x.method(), "emit": x, "get": q.get(k), "CreateMessageRequest": x.as_create_message(), "ListRootsRequest": x.as_list_roots(), "ElicitRequest": x.as_elicit()}));
                }
                o["requests"] = json!(l);
            }
        }
        Ok(o)
    }
}

/// one end of a connection: the requests it waits on and those it has yet to answer, kept as a user of the crate would
pub mod session {
    use super::*;
    use api::FromMessage;
    use std::collections::HashMap;

    pub enum Out<'a> {
        Note,
        /// ask under a new id; the number is what the caller knows the request by
        Ask(&'a Value, usize),
        /// answer the n-th request ever received
        Answer(usize),
    }
    #[derive(Clone, Default)]
    pub struct End {
        pub client: bool,
        waiting: HashMap<api::RequestId, usize>,
        inbox: Vec<Option<api::RequestId>>,
    }
    macro_rules! end {
        ($send:ident, $recv:ident, $mk:ident, $omsg:ident, $omsgs:ident, $imsg:ident, $imsgs:ident, $probe:ident) => {
            fn $send(&mut self, parts: &[(&[&str], &Value, Out)], single: bool) -> Result<String, String> {
                let mut l: Vec<api::$omsg> = vec![];
                for (path, payload, out) in parts {
                    let id = match out {
                        Out::Note => None,
                        Out::Ask(id, key) => {
                            let id: api::RequestId = j(id)?;
                            if self.waiting.insert(id.clone(), *key).is_some() {
                                return Err("the new request took the place of a waiting one".into());
                            }
                            Some(id)
                        }
                        Out::Answer(n) => Some(self.inbox[*n].take().ok_or("answered twice")?),
                    };
                    l.push(api::$omsg::from_message(gen::$mk(path, payload)?, id).map_err(|e| format!("cannot be composed: {e}"))?);
                }
                let m = if single { api::$omsgs::from(l.remove(0)) } else { api::$omsgs::from(l) };
                let text = serde_json::to_string(&m).map_err(|e| e.to_string())?;
                if m.to_string() != text {
                    return Err(format!("displays as {m} but is written as {text}"));
                }
                Ok(text)
            }
            fn $recv(&mut self, text: &str) -> Result<Vec<Value>, String> {
                let m: api::$imsgs = serde_json::from_str(text).map_err(|e| format!("refused: {e}"))?;
                let l: Vec<api::$imsg> = if m.is_batch() {
                    m.as_batch().map_err(|e| e.to_string())?
                } else {
                    vec![m.as_single().map_err(|e| e.to_string())?]
                };
                Ok(l.into_iter()
                    .map(|m| {
                        let id = m.request_id().cloned();
                        let mut settled = None;
                        if m.is_request() {
                            self.inbox.push(id);
                        } else if m.is_response() || m.is_error() {
                            settled = id.and_then(|i| self.waiting.remove(&i));
                        }
                        let mut o = $probe(m);
                        o["settled"] = json!(settled);
                        o
                    })
                    .collect())
            }
        };
    }
    impl End {
        pub fn new(client: bool) -> End {
            End { client, ..Default::default() }
        }
        pub fn send(&mut self, parts: &[(&[&str], &Value, Out)], single: bool) -> Result<String, String> {
            if self.client {
                self.send_c(parts, single)
            } else {
                self.send_s(parts, single)
            }
        }
        pub fn recv(&mut self, text: &str) -> Result<Vec<Value>, String> {
            if self.client {
                self.recv_s(text)
            } else {
                self.recv_c(text)
            }
        }
        pub fn still(&self) -> (usize, usize) {
            (self.waiting.len(), self.inbox.iter().flatten().count())
        }
        end!(send_c, recv_c, mk_MessageFromClient, ClientMessage, ClientMessages, ClientMessage, ClientMessages, probe_client);
        end!(send_s, recv_s, mk_MessageFromServer, ServerMessage, ServerMessages, ServerMessage, ServerMessages, probe_server);
    }
}
