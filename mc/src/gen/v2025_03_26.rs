// generated once by tools/gen_registry.py from the public API; edit the generator, not this file
#![allow(clippy::all, unused, deprecated)]
use crate::reg::*;
use serde_json::Value;
use rust_mcp_schema::mcp_2025_03_26 as root;
pub mod api { pub use super::root::*; pub use super::root::schema_utils::*; pub use rust_mcp_schema::{ProtocolVersion, ParseProtocolVersionError}; }
pub const VERSION: &str = "2025_03_26";
pub const MODEL: &str = include_str!("../../../model/2025_03_26.json");
pub fn registry() -> Reg { let mut r = Reg::default();
  // comparisons
  r.sames.push(crate::same_fn!("IncludeContext", api::IncludeContext));
  r.sames.push(crate::same_fn!("LoggingLevel", api::LoggingLevel));
  r.sames.push(crate::same_fn!("Role", api::Role));
  r.types.push(TypeOps{name:"Annotations", schema:true, rt: rt::<api::Annotations>, rts: rts::<api::Annotations>});
  r.types.push(TypeOps{name:"AudioContent", schema:true, rt: rt::<api::AudioContent>, rts: rts::<api::AudioContent>});
  r.types.push(TypeOps{name:"BlobResourceContents", schema:true, rt: rt::<api::BlobResourceContents>, rts: rts::<api::BlobResourceContents>});
  r.types.push(TypeOps{name:"CallToolRequest", schema:true, rt: rt::<api::CallToolRequest>, rts: rts::<api::CallToolRequest>});
  r.types.push(TypeOps{name:"CallToolRequestParams", schema:true, rt: rt::<api::CallToolRequestParams>, rts: rts::<api::CallToolRequestParams>});
  r.types.push(TypeOps{name:"CallToolResult", schema:true, rt: rt::<api::CallToolResult>, rts: rts::<api::CallToolResult>});
  r.types.push(TypeOps{name:"CallToolResultContentItem", schema:true, rt: rt::<api::CallToolResultContentItem>, rts: rts::<api::CallToolResultContentItem>});
  r.types.push(TypeOps{name:"CancelledNotification", schema:true, rt: rt::<api::CancelledNotification>, rts: rts::<api::CancelledNotification>});
  r.types.push(TypeOps{name:"CancelledNotificationParams", schema:true, rt: rt::<api::CancelledNotificationParams>, rts: rts::<api::CancelledNotificationParams>});
  r.types.push(TypeOps{name:"ClientCapabilities", schema:true, rt: rt::<api::ClientCapabilities>, rts: rts::<api::ClientCapabilities>});
  r.types.push(TypeOps{name:"ClientJsonrpcNotification", schema:false, rt: rt::<api::ClientJsonrpcNotification>, rts: rts::<api::ClientJsonrpcNotification>});
  r.types.push(TypeOps{name:"ClientJsonrpcRequest", schema:false, rt: rt::<api::ClientJsonrpcRequest>, rts: rts::<api::ClientJsonrpcRequest>});
  r.types.push(TypeOps{name:"ClientJsonrpcResponse", schema:false, rt: rt::<api::ClientJsonrpcResponse>, rts: rts::<api::ClientJsonrpcResponse>});
  r.types.push(TypeOps{name:"ClientMessage", schema:false, rt: rt::<api::ClientMessage>, rts: rts::<api::ClientMessage>});
  r.types.push(TypeOps{name:"ClientMessages", schema:false, rt: rt::<api::ClientMessages>, rts: rts::<api::ClientMessages>});
  r.types.push(TypeOps{name:"ClientNotification", schema:true, rt: rt::<api::ClientNotification>, rts: rts::<api::ClientNotification>});
  r.types.push(TypeOps{name:"ClientRequest", schema:true, rt: rt::<api::ClientRequest>, rts: rts::<api::ClientRequest>});
  r.types.push(TypeOps{name:"ClientResult", schema:true, rt: rt::<api::ClientResult>, rts: rts::<api::ClientResult>});
  r.types.push(TypeOps{name:"ClientRoots", schema:true, rt: rt::<api::ClientRoots>, rts: rts::<api::ClientRoots>});
  r.types.push(TypeOps{name:"CompleteRequest", schema:true, rt: rt::<api::CompleteRequest>, rts: rts::<api::CompleteRequest>});
  r.types.push(TypeOps{name:"CompleteRequestArgument", schema:true, rt: rt::<api::CompleteRequestArgument>, rts: rts::<api::CompleteRequestArgument>});
  r.types.push(TypeOps{name:"CompleteRequestParams", schema:true, rt: rt::<api::CompleteRequestParams>, rts: rts::<api::CompleteRequestParams>});
  r.types.push(TypeOps{name:"CompleteRequestRef", schema:true, rt: rt::<api::CompleteRequestRef>, rts: rts::<api::CompleteRequestRef>});
  r.types.push(TypeOps{name:"CompleteResult", schema:true, rt: rt::<api::CompleteResult>, rts: rts::<api::CompleteResult>});
  r.types.push(TypeOps{name:"CompleteResultCompletion", schema:true, rt: rt::<api::CompleteResultCompletion>, rts: rts::<api::CompleteResultCompletion>});
  r.types.push(TypeOps{name:"CreateMessageContent", schema:true, rt: rt::<api::CreateMessageContent>, rts: rts::<api::CreateMessageContent>});
  r.types.push(TypeOps{name:"CreateMessageRequest", schema:true, rt: rt::<api::CreateMessageRequest>, rts: rts::<api::CreateMessageRequest>});
  r.types.push(TypeOps{name:"CreateMessageRequestParams", schema:true, rt: rt::<api::CreateMessageRequestParams>, rts: rts::<api::CreateMessageRequestParams>});
  r.types.push(TypeOps{name:"CreateMessageResult", schema:true, rt: rt::<api::CreateMessageResult>, rts: rts::<api::CreateMessageResult>});
  r.types.push(TypeOps{name:"Cursor", schema:true, rt: rt::<api::Cursor>, rts: rts::<api::Cursor>});
  r.types.push(TypeOps{name:"EmbeddedResource", schema:true, rt: rt::<api::EmbeddedResource>, rts: rts::<api::EmbeddedResource>});
  r.types.push(TypeOps{name:"EmbeddedResourceResource", schema:true, rt: rt::<api::EmbeddedResourceResource>, rts: rts::<api::EmbeddedResourceResource>});
  r.types.push(TypeOps{name:"EmptyResult", schema:true, rt: rt::<api::EmptyResult>, rts: rts::<api::EmptyResult>});
  r.types.push(TypeOps{name:"GetPromptRequest", schema:true, rt: rt::<api::GetPromptRequest>, rts: rts::<api::GetPromptRequest>});
  r.types.push(TypeOps{name:"GetPromptRequestParams", schema:true, rt: rt::<api::GetPromptRequestParams>, rts: rts::<api::GetPromptRequestParams>});
  r.types.push(TypeOps{name:"GetPromptResult", schema:true, rt: rt::<api::GetPromptResult>, rts: rts::<api::GetPromptResult>});
  r.types.push(TypeOps{name:"ImageContent", schema:true, rt: rt::<api::ImageContent>, rts: rts::<api::ImageContent>});
  r.types.push(TypeOps{name:"Implementation", schema:true, rt: rt::<api::Implementation>, rts: rts::<api::Implementation>});
  r.types.push(TypeOps{name:"IncludeContext", schema:true, rt: rt::<api::IncludeContext>, rts: rts::<api::IncludeContext>});
  r.types.push(TypeOps{name:"InitializeRequest", schema:true, rt: rt::<api::InitializeRequest>, rts: rts::<api::InitializeRequest>});
  r.types.push(TypeOps{name:"InitializeRequestParams", schema:true, rt: rt::<api::InitializeRequestParams>, rts: rts::<api::InitializeRequestParams>});
  r.types.push(TypeOps{name:"InitializeResult", schema:true, rt: rt::<api::InitializeResult>, rts: rts::<api::InitializeResult>});
  r.types.push(TypeOps{name:"InitializedNotification", schema:true, rt: rt::<api::InitializedNotification>, rts: rts::<api::InitializedNotification>});
  r.types.push(TypeOps{name:"InitializedNotificationParams", schema:true, rt: rt::<api::InitializedNotificationParams>, rts: rts::<api::InitializedNotificationParams>});
  r.types.push(TypeOps{name:"JsonrpcBatchRequest", schema:true, rt: rt::<api::JsonrpcBatchRequest>, rts: rts::<api::JsonrpcBatchRequest>});
  r.types.push(TypeOps{name:"JsonrpcBatchRequestItem", schema:true, rt: rt::<api::JsonrpcBatchRequestItem>, rts: rts::<api::JsonrpcBatchRequestItem>});
  r.types.push(TypeOps{name:"JsonrpcBatchResponse", schema:true, rt: rt::<api::JsonrpcBatchResponse>, rts: rts::<api::JsonrpcBatchResponse>});
  r.types.push(TypeOps{name:"JsonrpcBatchResponseItem", schema:true, rt: rt::<api::JsonrpcBatchResponseItem>, rts: rts::<api::JsonrpcBatchResponseItem>});
  r.types.push(TypeOps{name:"JsonrpcError", schema:true, rt: rt::<api::JsonrpcError>, rts: rts::<api::JsonrpcError>});
  r.types.push(TypeOps{name:"JsonrpcMessage", schema:true, rt: rt::<api::JsonrpcMessage>, rts: rts::<api::JsonrpcMessage>});
  r.types.push(TypeOps{name:"JsonrpcNotification", schema:true, rt: rt::<api::JsonrpcNotification>, rts: rts::<api::JsonrpcNotification>});
  r.types.push(TypeOps{name:"JsonrpcNotificationParams", schema:true, rt: rt::<api::JsonrpcNotificationParams>, rts: rts::<api::JsonrpcNotificationParams>});
  r.types.push(TypeOps{name:"JsonrpcRequest", schema:true, rt: rt::<api::JsonrpcRequest>, rts: rts::<api::JsonrpcRequest>});
  r.types.push(TypeOps{name:"JsonrpcRequestParams", schema:true, rt: rt::<api::JsonrpcRequestParams>, rts: rts::<api::JsonrpcRequestParams>});
  r.types.push(TypeOps{name:"JsonrpcRequestParamsMeta", schema:true, rt: rt::<api::JsonrpcRequestParamsMeta>, rts: rts::<api::JsonrpcRequestParamsMeta>});
  r.types.push(TypeOps{name:"JsonrpcResponse", schema:true, rt: rt::<api::JsonrpcResponse>, rts: rts::<api::JsonrpcResponse>});
  r.types.push(TypeOps{name:"ListPromptsRequest", schema:true, rt: rt::<api::ListPromptsRequest>, rts: rts::<api::ListPromptsRequest>});
  r.types.push(TypeOps{name:"ListPromptsRequestParams", schema:true, rt: rt::<api::ListPromptsRequestParams>, rts: rts::<api::ListPromptsRequestParams>});
  r.types.push(TypeOps{name:"ListPromptsResult", schema:true, rt: rt::<api::ListPromptsResult>, rts: rts::<api::ListPromptsResult>});
  r.types.push(TypeOps{name:"ListResourceTemplatesRequest", schema:true, rt: rt::<api::ListResourceTemplatesRequest>, rts: rts::<api::ListResourceTemplatesRequest>});
  r.types.push(TypeOps{name:"ListResourceTemplatesRequestParams", schema:true, rt: rt::<api::ListResourceTemplatesRequestParams>, rts: rts::<api::ListResourceTemplatesRequestParams>});
  r.types.push(TypeOps{name:"ListResourceTemplatesResult", schema:true, rt: rt::<api::ListResourceTemplatesResult>, rts: rts::<api::ListResourceTemplatesResult>});
  r.types.push(TypeOps{name:"ListResourcesRequest", schema:true, rt: rt::<api::ListResourcesRequest>, rts: rts::<api::ListResourcesRequest>});
  r.types.push(TypeOps{name:"ListResourcesRequestParams", schema:true, rt: rt::<api::ListResourcesRequestParams>, rts: rts::<api::ListResourcesRequestParams>});
  r.types.push(TypeOps{name:"ListResourcesResult", schema:true, rt: rt::<api::ListResourcesResult>, rts: rts::<api::ListResourcesResult>});
  r.types.push(TypeOps{name:"ListRootsRequest", schema:true, rt: rt::<api::ListRootsRequest>, rts: rts::<api::ListRootsRequest>});
  r.types.push(TypeOps{name:"ListRootsRequestParams", schema:true, rt: rt::<api::ListRootsRequestParams>, rts: rts::<api::ListRootsRequestParams>});
  r.types.push(TypeOps{name:"ListRootsRequestParamsMeta", schema:true, rt: rt::<api::ListRootsRequestParamsMeta>, rts: rts::<api::ListRootsRequestParamsMeta>});
  r.types.push(TypeOps{name:"ListRootsResult", schema:true, rt: rt::<api::ListRootsResult>, rts: rts::<api::ListRootsResult>});
  r.types.push(TypeOps{name:"ListToolsRequest", schema:true, rt: rt::<api::ListToolsRequest>, rts: rts::<api::ListToolsRequest>});
  r.types.push(TypeOps{name:"ListToolsRequestParams", schema:true, rt: rt::<api::ListToolsRequestParams>, rts: rts::<api::ListToolsRequestParams>});
  r.types.push(TypeOps{name:"ListToolsResult", schema:true, rt: rt::<api::ListToolsResult>, rts: rts::<api::ListToolsResult>});
  r.types.push(TypeOps{name:"LoggingLevel", schema:true, rt: rt::<api::LoggingLevel>, rts: rts::<api::LoggingLevel>});
  r.types.push(TypeOps{name:"LoggingMessageNotification", schema:true, rt: rt::<api::LoggingMessageNotification>, rts: rts::<api::LoggingMessageNotification>});
  r.types.push(TypeOps{name:"LoggingMessageNotificationParams", schema:true, rt: rt::<api::LoggingMessageNotificationParams>, rts: rts::<api::LoggingMessageNotificationParams>});
  r.types.push(TypeOps{name:"MessageFromClient", schema:false, rt: rt::<api::MessageFromClient>, rts: rts::<api::MessageFromClient>});
  r.types.push(TypeOps{name:"MessageFromServer", schema:false, rt: rt::<api::MessageFromServer>, rts: rts::<api::MessageFromServer>});
  r.types.push(TypeOps{name:"MessagesFromClient", schema:false, rt: rt::<api::MessagesFromClient>, rts: rts::<api::MessagesFromClient>});
  r.types.push(TypeOps{name:"MessagesFromServer", schema:false, rt: rt::<api::MessagesFromServer>, rts: rts::<api::MessagesFromServer>});
  r.types.push(TypeOps{name:"ModelHint", schema:true, rt: rt::<api::ModelHint>, rts: rts::<api::ModelHint>});
  r.types.push(TypeOps{name:"ModelPreferences", schema:true, rt: rt::<api::ModelPreferences>, rts: rts::<api::ModelPreferences>});
  r.types.push(TypeOps{name:"Notification", schema:true, rt: rt::<api::Notification>, rts: rts::<api::Notification>});
  r.types.push(TypeOps{name:"NotificationFromClient", schema:false, rt: rt::<api::NotificationFromClient>, rts: rts::<api::NotificationFromClient>});
  r.types.push(TypeOps{name:"NotificationFromServer", schema:false, rt: rt::<api::NotificationFromServer>, rts: rts::<api::NotificationFromServer>});
  r.types.push(TypeOps{name:"NotificationParams", schema:true, rt: rt::<api::NotificationParams>, rts: rts::<api::NotificationParams>});
  r.types.push(TypeOps{name:"PaginatedRequest", schema:true, rt: rt::<api::PaginatedRequest>, rts: rts::<api::PaginatedRequest>});
  r.types.push(TypeOps{name:"PaginatedRequestParams", schema:true, rt: rt::<api::PaginatedRequestParams>, rts: rts::<api::PaginatedRequestParams>});
  r.types.push(TypeOps{name:"PaginatedResult", schema:true, rt: rt::<api::PaginatedResult>, rts: rts::<api::PaginatedResult>});
  r.types.push(TypeOps{name:"PingRequest", schema:true, rt: rt::<api::PingRequest>, rts: rts::<api::PingRequest>});
  r.types.push(TypeOps{name:"PingRequestParams", schema:true, rt: rt::<api::PingRequestParams>, rts: rts::<api::PingRequestParams>});
  r.types.push(TypeOps{name:"PingRequestParamsMeta", schema:true, rt: rt::<api::PingRequestParamsMeta>, rts: rts::<api::PingRequestParamsMeta>});
  r.types.push(TypeOps{name:"ProgressNotification", schema:true, rt: rt::<api::ProgressNotification>, rts: rts::<api::ProgressNotification>});
  r.types.push(TypeOps{name:"ProgressNotificationParams", schema:true, rt: rt::<api::ProgressNotificationParams>, rts: rts::<api::ProgressNotificationParams>});
  r.types.push(TypeOps{name:"ProgressToken", schema:true, rt: rt::<api::ProgressToken>, rts: rts::<api::ProgressToken>});
  r.types.push(TypeOps{name:"Prompt", schema:true, rt: rt::<api::Prompt>, rts: rts::<api::Prompt>});
  r.types.push(TypeOps{name:"PromptArgument", schema:true, rt: rt::<api::PromptArgument>, rts: rts::<api::PromptArgument>});
  r.types.push(TypeOps{name:"PromptListChangedNotification", schema:true, rt: rt::<api::PromptListChangedNotification>, rts: rts::<api::PromptListChangedNotification>});
  r.types.push(TypeOps{name:"PromptListChangedNotificationParams", schema:true, rt: rt::<api::PromptListChangedNotificationParams>, rts: rts::<api::PromptListChangedNotificationParams>});
  r.types.push(TypeOps{name:"PromptMessage", schema:true, rt: rt::<api::PromptMessage>, rts: rts::<api::PromptMessage>});
  r.types.push(TypeOps{name:"PromptMessageContent", schema:true, rt: rt::<api::PromptMessageContent>, rts: rts::<api::PromptMessageContent>});
  r.types.push(TypeOps{name:"PromptReference", schema:true, rt: rt::<api::PromptReference>, rts: rts::<api::PromptReference>});
  r.types.push(TypeOps{name:"ReadResourceContent", schema:true, rt: rt::<api::ReadResourceContent>, rts: rts::<api::ReadResourceContent>});
  r.types.push(TypeOps{name:"ReadResourceRequest", schema:true, rt: rt::<api::ReadResourceRequest>, rts: rts::<api::ReadResourceRequest>});
  r.types.push(TypeOps{name:"ReadResourceRequestParams", schema:true, rt: rt::<api::ReadResourceRequestParams>, rts: rts::<api::ReadResourceRequestParams>});
  r.types.push(TypeOps{name:"ReadResourceResult", schema:true, rt: rt::<api::ReadResourceResult>, rts: rts::<api::ReadResourceResult>});
  r.types.push(TypeOps{name:"Request", schema:true, rt: rt::<api::Request>, rts: rts::<api::Request>});
  r.types.push(TypeOps{name:"RequestFromClient", schema:false, rt: rt::<api::RequestFromClient>, rts: rts::<api::RequestFromClient>});
  r.types.push(TypeOps{name:"RequestFromServer", schema:false, rt: rt::<api::RequestFromServer>, rts: rts::<api::RequestFromServer>});
  r.types.push(TypeOps{name:"RequestId", schema:true, rt: rt::<api::RequestId>, rts: rts::<api::RequestId>});
  r.types.push(TypeOps{name:"RequestParams", schema:true, rt: rt::<api::RequestParams>, rts: rts::<api::RequestParams>});
  r.types.push(TypeOps{name:"RequestParamsMeta", schema:true, rt: rt::<api::RequestParamsMeta>, rts: rts::<api::RequestParamsMeta>});
  r.types.push(TypeOps{name:"Resource", schema:true, rt: rt::<api::Resource>, rts: rts::<api::Resource>});
  r.types.push(TypeOps{name:"ResourceContents", schema:true, rt: rt::<api::ResourceContents>, rts: rts::<api::ResourceContents>});
  r.types.push(TypeOps{name:"ResourceListChangedNotification", schema:true, rt: rt::<api::ResourceListChangedNotification>, rts: rts::<api::ResourceListChangedNotification>});
  r.types.push(TypeOps{name:"ResourceListChangedNotificationParams", schema:true, rt: rt::<api::ResourceListChangedNotificationParams>, rts: rts::<api::ResourceListChangedNotificationParams>});
  r.types.push(TypeOps{name:"ResourceReference", schema:true, rt: rt::<api::ResourceReference>, rts: rts::<api::ResourceReference>});
  r.types.push(TypeOps{name:"ResourceTemplate", schema:true, rt: rt::<api::ResourceTemplate>, rts: rts::<api::ResourceTemplate>});
  r.types.push(TypeOps{name:"ResourceUpdatedNotification", schema:true, rt: rt::<api::ResourceUpdatedNotification>, rts: rts::<api::ResourceUpdatedNotification>});
  r.types.push(TypeOps{name:"ResourceUpdatedNotificationParams", schema:true, rt: rt::<api::ResourceUpdatedNotificationParams>, rts: rts::<api::ResourceUpdatedNotificationParams>});
  r.types.push(TypeOps{name:"Result", schema:true, rt: rt::<api::Result>, rts: rts::<api::Result>});
  r.types.push(TypeOps{name:"ResultFromClient", schema:false, rt: rt::<api::ResultFromClient>, rts: rts::<api::ResultFromClient>});
  r.types.push(TypeOps{name:"ResultFromServer", schema:false, rt: rt::<api::ResultFromServer>, rts: rts::<api::ResultFromServer>});
  r.types.push(TypeOps{name:"Role", schema:true, rt: rt::<api::Role>, rts: rts::<api::Role>});
  r.types.push(TypeOps{name:"Root", schema:true, rt: rt::<api::Root>, rts: rts::<api::Root>});
  r.types.push(TypeOps{name:"RootsListChangedNotification", schema:true, rt: rt::<api::RootsListChangedNotification>, rts: rts::<api::RootsListChangedNotification>});
  r.types.push(TypeOps{name:"RootsListChangedNotificationParams", schema:true, rt: rt::<api::RootsListChangedNotificationParams>, rts: rts::<api::RootsListChangedNotificationParams>});
  r.types.push(TypeOps{name:"RpcError", schema:true, rt: rt::<api::RpcError>, rts: rts::<api::RpcError>});
  r.types.push(TypeOps{name:"SamplingMessage", schema:true, rt: rt::<api::SamplingMessage>, rts: rts::<api::SamplingMessage>});
  r.types.push(TypeOps{name:"SamplingMessageContent", schema:true, rt: rt::<api::SamplingMessageContent>, rts: rts::<api::SamplingMessageContent>});
  r.types.push(TypeOps{name:"SdkError", schema:false, rt: rt::<api::SdkError>, rts: rts::<api::SdkError>});
  r.types.push(TypeOps{name:"ServerCapabilities", schema:true, rt: rt::<api::ServerCapabilities>, rts: rts::<api::ServerCapabilities>});
  r.types.push(TypeOps{name:"ServerCapabilitiesPrompts", schema:true, rt: rt::<api::ServerCapabilitiesPrompts>, rts: rts::<api::ServerCapabilitiesPrompts>});
  r.types.push(TypeOps{name:"ServerCapabilitiesResources", schema:true, rt: rt::<api::ServerCapabilitiesResources>, rts: rts::<api::ServerCapabilitiesResources>});
  r.types.push(TypeOps{name:"ServerCapabilitiesTools", schema:true, rt: rt::<api::ServerCapabilitiesTools>, rts: rts::<api::ServerCapabilitiesTools>});
  r.types.push(TypeOps{name:"ServerJsonrpcNotification", schema:false, rt: rt::<api::ServerJsonrpcNotification>, rts: rts::<api::ServerJsonrpcNotification>});
  r.types.push(TypeOps{name:"ServerJsonrpcRequest", schema:false, rt: rt::<api::ServerJsonrpcRequest>, rts: rts::<api::ServerJsonrpcRequest>});
  r.types.push(TypeOps{name:"ServerJsonrpcResponse", schema:false, rt: rt::<api::ServerJsonrpcResponse>, rts: rts::<api::ServerJsonrpcResponse>});
  r.types.push(TypeOps{name:"ServerMessage", schema:false, rt: rt::<api::ServerMessage>, rts: rts::<api::ServerMessage>});
  r.types.push(TypeOps{name:"ServerMessages", schema:false, rt: rt::<api::ServerMessages>, rts: rts::<api::ServerMessages>});
  r.types.push(TypeOps{name:"ServerNotification", schema:true, rt: rt::<api::ServerNotification>, rts: rts::<api::ServerNotification>});
  r.types.push(TypeOps{name:"ServerRequest", schema:true, rt: rt::<api::ServerRequest>, rts: rts::<api::ServerRequest>});
  r.types.push(TypeOps{name:"ServerResult", schema:true, rt: rt::<api::ServerResult>, rts: rts::<api::ServerResult>});
  r.types.push(TypeOps{name:"SetLevelRequest", schema:true, rt: rt::<api::SetLevelRequest>, rts: rts::<api::SetLevelRequest>});
  r.types.push(TypeOps{name:"SetLevelRequestParams", schema:true, rt: rt::<api::SetLevelRequestParams>, rts: rts::<api::SetLevelRequestParams>});
  r.types.push(TypeOps{name:"SubscribeRequest", schema:true, rt: rt::<api::SubscribeRequest>, rts: rts::<api::SubscribeRequest>});
  r.types.push(TypeOps{name:"SubscribeRequestParams", schema:true, rt: rt::<api::SubscribeRequestParams>, rts: rts::<api::SubscribeRequestParams>});
  r.types.push(TypeOps{name:"TextContent", schema:true, rt: rt::<api::TextContent>, rts: rts::<api::TextContent>});
  r.types.push(TypeOps{name:"TextResourceContents", schema:true, rt: rt::<api::TextResourceContents>, rts: rts::<api::TextResourceContents>});
  r.types.push(TypeOps{name:"Tool", schema:true, rt: rt::<api::Tool>, rts: rts::<api::Tool>});
  r.types.push(TypeOps{name:"ToolAnnotations", schema:true, rt: rt::<api::ToolAnnotations>, rts: rts::<api::ToolAnnotations>});
  r.types.push(TypeOps{name:"ToolInputSchema", schema:true, rt: rt::<api::ToolInputSchema>, rts: rts::<api::ToolInputSchema>});
  r.types.push(TypeOps{name:"ToolListChangedNotification", schema:true, rt: rt::<api::ToolListChangedNotification>, rts: rts::<api::ToolListChangedNotification>});
  r.types.push(TypeOps{name:"ToolListChangedNotificationParams", schema:true, rt: rt::<api::ToolListChangedNotificationParams>, rts: rts::<api::ToolListChangedNotificationParams>});
  r.types.push(TypeOps{name:"UnsubscribeRequest", schema:true, rt: rt::<api::UnsubscribeRequest>, rts: rts::<api::UnsubscribeRequest>});
  r.types.push(TypeOps{name:"UnsubscribeRequestParams", schema:true, rt: rt::<api::UnsubscribeRequestParams>, rts: rts::<api::UnsubscribeRequestParams>});
  r.ctors.push(Ctor{ty:"AudioContent", args:&["data","mime_type","annotations"], f: |a| out(api::AudioContent::new(j::<String>(&a[0])?, j::<String>(&a[1])?, j(&a[2])?))});
  r.ctors.push(Ctor{ty:"CallToolRequest", args:&["params"], f: |a| out(api::CallToolRequest::new(j(&a[0])?))});
  r.ctors.push(Ctor{ty:"CancelledNotification", args:&["params"], f: |a| out(api::CancelledNotification::new(j(&a[0])?))});
  r.ctors.push(Ctor{ty:"ClientJsonrpcNotification", args:&["notification"], f: |a| out(api::ClientJsonrpcNotification::new(j(&a[0])?))});
  r.ctors.push(Ctor{ty:"ClientJsonrpcRequest", args:&["id","request"], f: |a| out(api::ClientJsonrpcRequest::new(j(&a[0])?, j(&a[1])?))});
  r.ctors.push(Ctor{ty:"ClientJsonrpcResponse", args:&["id","result"], f: |a| out(api::ClientJsonrpcResponse::new(j(&a[0])?, j(&a[1])?))});
  r.ctors.push(Ctor{ty:"CompleteRequest", args:&["params"], f: |a| out(api::CompleteRequest::new(j(&a[0])?))});
  r.ctors.push(Ctor{ty:"CreateMessageRequest", args:&["params"], f: |a| out(api::CreateMessageRequest::new(j(&a[0])?))});
  r.ctors.push(Ctor{ty:"EmbeddedResource", args:&["resource","annotations"], f: |a| out(api::EmbeddedResource::new(j(&a[0])?, j(&a[1])?))});
  r.ctors.push(Ctor{ty:"GetPromptRequest", args:&["params"], f: |a| out(api::GetPromptRequest::new(j(&a[0])?))});
  r.ctors.push(Ctor{ty:"ImageContent", args:&["data","mime_type","annotations"], f: |a| out(api::ImageContent::new(j::<String>(&a[0])?, j::<String>(&a[1])?, j(&a[2])?))});
  r.ctors.push(Ctor{ty:"InitializeRequest", args:&["params"], f: |a| out(api::InitializeRequest::new(j(&a[0])?))});
  r.ctors.push(Ctor{ty:"InitializedNotification", args:&["params"], f: |a| out(api::InitializedNotification::new(j(&a[0])?))});
  r.ctors.push(Ctor{ty:"JsonrpcError", args:&["error","id"], f: |a| out(api::JsonrpcError::new(j(&a[0])?, j(&a[1])?))});
  r.ctors.push(Ctor{ty:"JsonrpcNotification", args:&["method","params"], f: |a| out(api::JsonrpcNotification::new(j::<String>(&a[0])?, j(&a[1])?))});
  r.ctors.push(Ctor{ty:"JsonrpcRequest", args:&["id","method","params"], f: |a| out(api::JsonrpcRequest::new(j(&a[0])?, j::<String>(&a[1])?, j(&a[2])?))});
  r.ctors.push(Ctor{ty:"JsonrpcResponse", args:&["id","result"], f: |a| out(api::JsonrpcResponse::new(j(&a[0])?, j(&a[1])?))});
  r.ctors.push(Ctor{ty:"ListPromptsRequest", args:&["params"], f: |a| out(api::ListPromptsRequest::new(j(&a[0])?))});
  r.ctors.push(Ctor{ty:"ListResourceTemplatesRequest", args:&["params"], f: |a| out(api::ListResourceTemplatesRequest::new(j(&a[0])?))});
  r.ctors.push(Ctor{ty:"ListResourcesRequest", args:&["params"], f: |a| out(api::ListResourcesRequest::new(j(&a[0])?))});
  r.ctors.push(Ctor{ty:"ListRootsRequest", args:&["params"], f: |a| out(api::ListRootsRequest::new(j(&a[0])?))});
  r.ctors.push(Ctor{ty:"ListToolsRequest", args:&["params"], f: |a| out(api::ListToolsRequest::new(j(&a[0])?))});
  r.ctors.push(Ctor{ty:"LoggingMessageNotification", args:&["params"], f: |a| out(api::LoggingMessageNotification::new(j(&a[0])?))});
  r.ctors.push(Ctor{ty:"PingRequest", args:&["params"], f: |a| out(api::PingRequest::new(j(&a[0])?))});
  r.ctors.push(Ctor{ty:"ProgressNotification", args:&["params"], f: |a| out(api::ProgressNotification::new(j(&a[0])?))});
  r.ctors.push(Ctor{ty:"PromptListChangedNotification", args:&["params"], f: |a| out(api::PromptListChangedNotification::new(j(&a[0])?))});
  r.ctors.push(Ctor{ty:"PromptReference", args:&["name"], f: |a| out(api::PromptReference::new(j::<String>(&a[0])?))});
  r.ctors.push(Ctor{ty:"ReadResourceRequest", args:&["params"], f: |a| out(api::ReadResourceRequest::new(j(&a[0])?))});
  r.ctors.push(Ctor{ty:"ResourceListChangedNotification", args:&["params"], f: |a| out(api::ResourceListChangedNotification::new(j(&a[0])?))});
  r.ctors.push(Ctor{ty:"ResourceReference", args:&["uri"], f: |a| out(api::ResourceReference::new(j::<String>(&a[0])?))});
  r.ctors.push(Ctor{ty:"ResourceUpdatedNotification", args:&["params"], f: |a| out(api::ResourceUpdatedNotification::new(j(&a[0])?))});
  r.ctors.push(Ctor{ty:"RootsListChangedNotification", args:&["params"], f: |a| out(api::RootsListChangedNotification::new(j(&a[0])?))});
  r.ctors.push(Ctor{ty:"ServerJsonrpcNotification", args:&["notification"], f: |a| out(api::ServerJsonrpcNotification::new(j(&a[0])?))});
  r.ctors.push(Ctor{ty:"ServerJsonrpcRequest", args:&["id","request"], f: |a| out(api::ServerJsonrpcRequest::new(j(&a[0])?, j(&a[1])?))});
  r.ctors.push(Ctor{ty:"ServerJsonrpcResponse", args:&["id","result"], f: |a| out(api::ServerJsonrpcResponse::new(j(&a[0])?, j(&a[1])?))});
  r.ctors.push(Ctor{ty:"SetLevelRequest", args:&["params"], f: |a| out(api::SetLevelRequest::new(j(&a[0])?))});
  r.ctors.push(Ctor{ty:"SubscribeRequest", args:&["params"], f: |a| out(api::SubscribeRequest::new(j(&a[0])?))});
  r.ctors.push(Ctor{ty:"TextContent", args:&["text","annotations"], f: |a| out(api::TextContent::new(j::<String>(&a[0])?, j(&a[1])?))});
  r.ctors.push(Ctor{ty:"ToolInputSchema", args:&["required","properties"], f: |a| out(api::ToolInputSchema::new(j(&a[0])?, j(&a[1])?))});
  r.ctors.push(Ctor{ty:"ToolListChangedNotification", args:&["params"], f: |a| out(api::ToolListChangedNotification::new(j(&a[0])?))});
  r.ctors.push(Ctor{ty:"UnsubscribeRequest", args:&["params"], f: |a| out(api::UnsubscribeRequest::new(j(&a[0])?))});
  r.getters.push(Getter{ty:"AudioContent", field:"type_", f: |v| out(j::<api::AudioContent>(v)?.type_())});
  r.consts.push(ConstFn{ty:"AudioContent", field:"type", f: || serde_json::to_value(api::AudioContent::type_value()).unwrap()});
  r.consts.push(ConstFn{ty:"AudioContent", field:"type", f: || serde_json::to_value(api::AudioContent::type_name()).unwrap()});
  r.getters.push(Getter{ty:"CallToolRequest", field:"method", f: |v| out(j::<api::CallToolRequest>(v)?.method())});
  r.consts.push(ConstFn{ty:"CallToolRequest", field:"method", f: || serde_json::to_value(api::CallToolRequest::method_value()).unwrap()});
  r.consts.push(ConstFn{ty:"CallToolRequest", field:"method", f: || serde_json::to_value(api::CallToolRequest::method_name()).unwrap()});
  r.getters.push(Getter{ty:"CancelledNotification", field:"method", f: |v| out(j::<api::CancelledNotification>(v)?.method())});
  r.consts.push(ConstFn{ty:"CancelledNotification", field:"method", f: || serde_json::to_value(api::CancelledNotification::method_value()).unwrap()});
  r.consts.push(ConstFn{ty:"CancelledNotification", field:"method", f: || serde_json::to_value(api::CancelledNotification::method_name()).unwrap()});
  r.getters.push(Getter{ty:"ClientJsonrpcNotification", field:"jsonrpc", f: |v| out(j::<api::ClientJsonrpcNotification>(v)?.jsonrpc())});
  r.getters.push(Getter{ty:"ClientJsonrpcRequest", field:"jsonrpc", f: |v| out(j::<api::ClientJsonrpcRequest>(v)?.jsonrpc())});
  r.getters.push(Getter{ty:"ClientJsonrpcResponse", field:"jsonrpc", f: |v| out(j::<api::ClientJsonrpcResponse>(v)?.jsonrpc())});
  r.getters.push(Getter{ty:"CompleteRequest", field:"method", f: |v| out(j::<api::CompleteRequest>(v)?.method())});
  r.consts.push(ConstFn{ty:"CompleteRequest", field:"method", f: || serde_json::to_value(api::CompleteRequest::method_value()).unwrap()});
  r.consts.push(ConstFn{ty:"CompleteRequest", field:"method", f: || serde_json::to_value(api::CompleteRequest::method_name()).unwrap()});
  r.getters.push(Getter{ty:"CreateMessageRequest", field:"method", f: |v| out(j::<api::CreateMessageRequest>(v)?.method())});
  r.consts.push(ConstFn{ty:"CreateMessageRequest", field:"method", f: || serde_json::to_value(api::CreateMessageRequest::method_value()).unwrap()});
  r.consts.push(ConstFn{ty:"CreateMessageRequest", field:"method", f: || serde_json::to_value(api::CreateMessageRequest::method_name()).unwrap()});
  r.getters.push(Getter{ty:"EmbeddedResource", field:"type_", f: |v| out(j::<api::EmbeddedResource>(v)?.type_())});
  r.consts.push(ConstFn{ty:"EmbeddedResource", field:"type", f: || serde_json::to_value(api::EmbeddedResource::type_value()).unwrap()});
  r.consts.push(ConstFn{ty:"EmbeddedResource", field:"type", f: || serde_json::to_value(api::EmbeddedResource::type_name()).unwrap()});
  r.getters.push(Getter{ty:"GetPromptRequest", field:"method", f: |v| out(j::<api::GetPromptRequest>(v)?.method())});
  r.consts.push(ConstFn{ty:"GetPromptRequest", field:"method", f: || serde_json::to_value(api::GetPromptRequest::method_value()).unwrap()});
  r.consts.push(ConstFn{ty:"GetPromptRequest", field:"method", f: || serde_json::to_value(api::GetPromptRequest::method_name()).unwrap()});
  r.getters.push(Getter{ty:"ImageContent", field:"type_", f: |v| out(j::<api::ImageContent>(v)?.type_())});
  r.consts.push(ConstFn{ty:"ImageContent", field:"type", f: || serde_json::to_value(api::ImageContent::type_value()).unwrap()});
  r.consts.push(ConstFn{ty:"ImageContent", field:"type", f: || serde_json::to_value(api::ImageContent::type_name()).unwrap()});
  r.getters.push(Getter{ty:"InitializeRequest", field:"method", f: |v| out(j::<api::InitializeRequest>(v)?.method())});
  r.consts.push(ConstFn{ty:"InitializeRequest", field:"method", f: || serde_json::to_value(api::InitializeRequest::method_value()).unwrap()});
  r.consts.push(ConstFn{ty:"InitializeRequest", field:"method", f: || serde_json::to_value(api::InitializeRequest::method_name()).unwrap()});
  r.getters.push(Getter{ty:"InitializedNotification", field:"method", f: |v| out(j::<api::InitializedNotification>(v)?.method())});
  r.consts.push(ConstFn{ty:"InitializedNotification", field:"method", f: || serde_json::to_value(api::InitializedNotification::method_value()).unwrap()});
  r.consts.push(ConstFn{ty:"InitializedNotification", field:"method", f: || serde_json::to_value(api::InitializedNotification::method_name()).unwrap()});
  r.getters.push(Getter{ty:"JsonrpcError", field:"jsonrpc", f: |v| out(j::<api::JsonrpcError>(v)?.jsonrpc())});
  r.getters.push(Getter{ty:"JsonrpcNotification", field:"jsonrpc", f: |v| out(j::<api::JsonrpcNotification>(v)?.jsonrpc())});
  r.getters.push(Getter{ty:"JsonrpcRequest", field:"jsonrpc", f: |v| out(j::<api::JsonrpcRequest>(v)?.jsonrpc())});
  r.getters.push(Getter{ty:"JsonrpcResponse", field:"jsonrpc", f: |v| out(j::<api::JsonrpcResponse>(v)?.jsonrpc())});
  r.getters.push(Getter{ty:"ListPromptsRequest", field:"method", f: |v| out(j::<api::ListPromptsRequest>(v)?.method())});
  r.consts.push(ConstFn{ty:"ListPromptsRequest", field:"method", f: || serde_json::to_value(api::ListPromptsRequest::method_value()).unwrap()});
  r.consts.push(ConstFn{ty:"ListPromptsRequest", field:"method", f: || serde_json::to_value(api::ListPromptsRequest::method_name()).unwrap()});
  r.getters.push(Getter{ty:"ListResourceTemplatesRequest", field:"method", f: |v| out(j::<api::ListResourceTemplatesRequest>(v)?.method())});
  r.consts.push(ConstFn{ty:"ListResourceTemplatesRequest", field:"method", f: || serde_json::to_value(api::ListResourceTemplatesRequest::method_value()).unwrap()});
  r.consts.push(ConstFn{ty:"ListResourceTemplatesRequest", field:"method", f: || serde_json::to_value(api::ListResourceTemplatesRequest::method_name()).unwrap()});
  r.getters.push(Getter{ty:"ListResourcesRequest", field:"method", f: |v| out(j::<api::ListResourcesRequest>(v)?.method())});
  r.consts.push(ConstFn{ty:"ListResourcesRequest", field:"method", f: || serde_json::to_value(api::ListResourcesRequest::method_value()).unwrap()});
  r.consts.push(ConstFn{ty:"ListResourcesRequest", field:"method", f: || serde_json::to_value(api::ListResourcesRequest::method_name()).unwrap()});
  r.getters.push(Getter{ty:"ListRootsRequest", field:"method", f: |v| out(j::<api::ListRootsRequest>(v)?.method())});
  r.consts.push(ConstFn{ty:"ListRootsRequest", field:"method", f: || serde_json::to_value(api::ListRootsRequest::method_value()).unwrap()});
  r.consts.push(ConstFn{ty:"ListRootsRequest", field:"method", f: || serde_json::to_value(api::ListRootsRequest::method_name()).unwrap()});
  r.getters.push(Getter{ty:"ListToolsRequest", field:"method", f: |v| out(j::<api::ListToolsRequest>(v)?.method())});
  r.consts.push(ConstFn{ty:"ListToolsRequest", field:"method", f: || serde_json::to_value(api::ListToolsRequest::method_value()).unwrap()});
  r.consts.push(ConstFn{ty:"ListToolsRequest", field:"method", f: || serde_json::to_value(api::ListToolsRequest::method_name()).unwrap()});
  r.getters.push(Getter{ty:"LoggingMessageNotification", field:"method", f: |v| out(j::<api::LoggingMessageNotification>(v)?.method())});
  r.consts.push(ConstFn{ty:"LoggingMessageNotification", field:"method", f: || serde_json::to_value(api::LoggingMessageNotification::method_value()).unwrap()});
  r.consts.push(ConstFn{ty:"LoggingMessageNotification", field:"method", f: || serde_json::to_value(api::LoggingMessageNotification::method_name()).unwrap()});
  r.getters.push(Getter{ty:"PingRequest", field:"method", f: |v| out(j::<api::PingRequest>(v)?.method())});
  r.consts.push(ConstFn{ty:"PingRequest", field:"method", f: || serde_json::to_value(api::PingRequest::method_value()).unwrap()});
  r.consts.push(ConstFn{ty:"PingRequest", field:"method", f: || serde_json::to_value(api::PingRequest::method_name()).unwrap()});
  r.getters.push(Getter{ty:"ProgressNotification", field:"method", f: |v| out(j::<api::ProgressNotification>(v)?.method())});
  r.consts.push(ConstFn{ty:"ProgressNotification", field:"method", f: || serde_json::to_value(api::ProgressNotification::method_value()).unwrap()});
  r.consts.push(ConstFn{ty:"ProgressNotification", field:"method", f: || serde_json::to_value(api::ProgressNotification::method_name()).unwrap()});
  r.getters.push(Getter{ty:"PromptListChangedNotification", field:"method", f: |v| out(j::<api::PromptListChangedNotification>(v)?.method())});
  r.consts.push(ConstFn{ty:"PromptListChangedNotification", field:"method", f: || serde_json::to_value(api::PromptListChangedNotification::method_value()).unwrap()});
  r.consts.push(ConstFn{ty:"PromptListChangedNotification", field:"method", f: || serde_json::to_value(api::PromptListChangedNotification::method_name()).unwrap()});
  r.getters.push(Getter{ty:"PromptReference", field:"type_", f: |v| out(j::<api::PromptReference>(v)?.type_())});
  r.consts.push(ConstFn{ty:"PromptReference", field:"type", f: || serde_json::to_value(api::PromptReference::type_value()).unwrap()});
  r.consts.push(ConstFn{ty:"PromptReference", field:"type", f: || serde_json::to_value(api::PromptReference::type_name()).unwrap()});
  r.getters.push(Getter{ty:"ReadResourceRequest", field:"method", f: |v| out(j::<api::ReadResourceRequest>(v)?.method())});
  r.consts.push(ConstFn{ty:"ReadResourceRequest", field:"method", f: || serde_json::to_value(api::ReadResourceRequest::method_value()).unwrap()});
  r.consts.push(ConstFn{ty:"ReadResourceRequest", field:"method", f: || serde_json::to_value(api::ReadResourceRequest::method_name()).unwrap()});
  r.getters.push(Getter{ty:"ResourceListChangedNotification", field:"method", f: |v| out(j::<api::ResourceListChangedNotification>(v)?.method())});
  r.consts.push(ConstFn{ty:"ResourceListChangedNotification", field:"method", f: || serde_json::to_value(api::ResourceListChangedNotification::method_value()).unwrap()});
  r.consts.push(ConstFn{ty:"ResourceListChangedNotification", field:"method", f: || serde_json::to_value(api::ResourceListChangedNotification::method_name()).unwrap()});
  r.getters.push(Getter{ty:"ResourceReference", field:"type_", f: |v| out(j::<api::ResourceReference>(v)?.type_())});
  r.consts.push(ConstFn{ty:"ResourceReference", field:"type", f: || serde_json::to_value(api::ResourceReference::type_value()).unwrap()});
  r.consts.push(ConstFn{ty:"ResourceReference", field:"type", f: || serde_json::to_value(api::ResourceReference::type_name()).unwrap()});
  r.getters.push(Getter{ty:"ResourceUpdatedNotification", field:"method", f: |v| out(j::<api::ResourceUpdatedNotification>(v)?.method())});
  r.consts.push(ConstFn{ty:"ResourceUpdatedNotification", field:"method", f: || serde_json::to_value(api::ResourceUpdatedNotification::method_value()).unwrap()});
  r.consts.push(ConstFn{ty:"ResourceUpdatedNotification", field:"method", f: || serde_json::to_value(api::ResourceUpdatedNotification::method_name()).unwrap()});
  r.getters.push(Getter{ty:"RootsListChangedNotification", field:"method", f: |v| out(j::<api::RootsListChangedNotification>(v)?.method())});
  r.consts.push(ConstFn{ty:"RootsListChangedNotification", field:"method", f: || serde_json::to_value(api::RootsListChangedNotification::method_value()).unwrap()});
  r.consts.push(ConstFn{ty:"RootsListChangedNotification", field:"method", f: || serde_json::to_value(api::RootsListChangedNotification::method_name()).unwrap()});
  r.getters.push(Getter{ty:"ServerJsonrpcNotification", field:"jsonrpc", f: |v| out(j::<api::ServerJsonrpcNotification>(v)?.jsonrpc())});
  r.getters.push(Getter{ty:"ServerJsonrpcRequest", field:"jsonrpc", f: |v| out(j::<api::ServerJsonrpcRequest>(v)?.jsonrpc())});
  r.getters.push(Getter{ty:"ServerJsonrpcResponse", field:"jsonrpc", f: |v| out(j::<api::ServerJsonrpcResponse>(v)?.jsonrpc())});
  r.getters.push(Getter{ty:"SetLevelRequest", field:"method", f: |v| out(j::<api::SetLevelRequest>(v)?.method())});
  r.consts.push(ConstFn{ty:"SetLevelRequest", field:"method", f: || serde_json::to_value(api::SetLevelRequest::method_value()).unwrap()});
  r.consts.push(ConstFn{ty:"SetLevelRequest", field:"method", f: || serde_json::to_value(api::SetLevelRequest::method_name()).unwrap()});
  r.getters.push(Getter{ty:"SubscribeRequest", field:"method", f: |v| out(j::<api::SubscribeRequest>(v)?.method())});
  r.consts.push(ConstFn{ty:"SubscribeRequest", field:"method", f: || serde_json::to_value(api::SubscribeRequest::method_value()).unwrap()});
  r.consts.push(ConstFn{ty:"SubscribeRequest", field:"method", f: || serde_json::to_value(api::SubscribeRequest::method_name()).unwrap()});
  r.getters.push(Getter{ty:"TextContent", field:"type_", f: |v| out(j::<api::TextContent>(v)?.type_())});
  r.consts.push(ConstFn{ty:"TextContent", field:"type", f: || serde_json::to_value(api::TextContent::type_value()).unwrap()});
  r.consts.push(ConstFn{ty:"TextContent", field:"type", f: || serde_json::to_value(api::TextContent::type_name()).unwrap()});
  r.getters.push(Getter{ty:"ToolInputSchema", field:"type_", f: |v| out(j::<api::ToolInputSchema>(v)?.type_())});
  r.consts.push(ConstFn{ty:"ToolInputSchema", field:"type", f: || serde_json::to_value(api::ToolInputSchema::type_value()).unwrap()});
  r.consts.push(ConstFn{ty:"ToolInputSchema", field:"type", f: || serde_json::to_value(api::ToolInputSchema::type_name()).unwrap()});
  r.getters.push(Getter{ty:"ToolListChangedNotification", field:"method", f: |v| out(j::<api::ToolListChangedNotification>(v)?.method())});
  r.consts.push(ConstFn{ty:"ToolListChangedNotification", field:"method", f: || serde_json::to_value(api::ToolListChangedNotification::method_value()).unwrap()});
  r.consts.push(ConstFn{ty:"ToolListChangedNotification", field:"method", f: || serde_json::to_value(api::ToolListChangedNotification::method_name()).unwrap()});
  r.getters.push(Getter{ty:"UnsubscribeRequest", field:"method", f: |v| out(j::<api::UnsubscribeRequest>(v)?.method())});
  r.consts.push(ConstFn{ty:"UnsubscribeRequest", field:"method", f: || serde_json::to_value(api::UnsubscribeRequest::method_value()).unwrap()});
  r.consts.push(ConstFn{ty:"UnsubscribeRequest", field:"method", f: || serde_json::to_value(api::UnsubscribeRequest::method_name()).unwrap()});
  r.builders.push(Builder{ty:"CallToolResult", name:"with_meta", arg:"Option<Map<String,Value>>", f: |v, a| out(j::<api::CallToolResult>(v)?.with_meta(j(a)?))});
  r.builders.push(Builder{ty:"RpcError", name:"with_message", arg:"T", f: |v, a| out(j::<api::RpcError>(v)?.with_message(j::<String>(a)?))});
  r.builders.push(Builder{ty:"RpcError", name:"with_data", arg:"Option<Value>", f: |v, a| out(j::<api::RpcError>(v)?.with_data(j(a)?))});
  r.builders.push(Builder{ty:"SdkError", name:"with_data", arg:"Option<Value>", f: |v, a| out(j::<api::SdkError>(v)?.with_data(j(a)?))});
  r.defaults.push(DefaultFn{ty:"Annotations", f: || out(<api::Annotations as Default>::default())});
  r.to_message.push(Assemble{src:"CallToolRequest", dst:"ClientMessage", f: |v, id| { let id = match id { Some(i) => Some(j::<api::RequestId>(i)?), None => None }; let x = j::<api::CallToolRequest>(v)?; Ok(<api::CallToolRequest as api::ToMessage<api::ClientMessage>>::to_message(x, id).map(|y| serde_json::json!([var_ClientMessage(&y), y])).map_err(|e| serde_json::to_value(e).unwrap())) } });
  r.try_froms.push(TryConv{src:"RequestFromClient", dst:"CallToolRequest", f: |p, v| { let x = mk_RequestFromClient(p, v)?; Ok(<api::CallToolRequest as TryFrom<api::RequestFromClient>>::try_from(x).map(|y| serde_json::to_value(y).unwrap()).map_err(|e| serde_json::to_value(e).unwrap()))}});
  r.to_message.push(Assemble{src:"CallToolResult", dst:"ServerMessage", f: |v, id| { let id = match id { Some(i) => Some(j::<api::RequestId>(i)?), None => None }; let x = j::<api::CallToolResult>(v)?; Ok(<api::CallToolResult as api::ToMessage<api::ServerMessage>>::to_message(x, id).map(|y| serde_json::json!([var_ServerMessage(&y), y])).map_err(|e| serde_json::to_value(e).unwrap())) } });
  r.try_froms.push(TryConv{src:"ResultFromServer", dst:"CallToolResult", f: |p, v| { let x = mk_ResultFromServer(p, v)?; Ok(<api::CallToolResult as TryFrom<api::ResultFromServer>>::try_from(x).map(|y| serde_json::to_value(y).unwrap()).map_err(|e| serde_json::to_value(e).unwrap()))}});
  r.froms.push(Conv{src:"AudioContent", dst:"CallToolResultContentItem", f: |v| out(<api::CallToolResultContentItem as From<api::AudioContent>>::from(j::<api::AudioContent>(v)?)), var: Some(|v| Ok(var_CallToolResultContentItem(&<api::CallToolResultContentItem as From<api::AudioContent>>::from(j::<api::AudioContent>(v)?))))});
  r.froms.push(Conv{src:"EmbeddedResource", dst:"CallToolResultContentItem", f: |v| out(<api::CallToolResultContentItem as From<api::EmbeddedResource>>::from(j::<api::EmbeddedResource>(v)?)), var: Some(|v| Ok(var_CallToolResultContentItem(&<api::CallToolResultContentItem as From<api::EmbeddedResource>>::from(j::<api::EmbeddedResource>(v)?))))});
  r.froms.push(Conv{src:"ImageContent", dst:"CallToolResultContentItem", f: |v| out(<api::CallToolResultContentItem as From<api::ImageContent>>::from(j::<api::ImageContent>(v)?)), var: Some(|v| Ok(var_CallToolResultContentItem(&<api::CallToolResultContentItem as From<api::ImageContent>>::from(j::<api::ImageContent>(v)?))))});
  r.froms.push(Conv{src:"TextContent", dst:"CallToolResultContentItem", f: |v| out(<api::CallToolResultContentItem as From<api::TextContent>>::from(j::<api::TextContent>(v)?)), var: Some(|v| Ok(var_CallToolResultContentItem(&<api::CallToolResultContentItem as From<api::TextContent>>::from(j::<api::TextContent>(v)?))))});
  r.to_message.push(Assemble{src:"CancelledNotification", dst:"ClientMessage", f: |v, id| { let id = match id { Some(i) => Some(j::<api::RequestId>(i)?), None => None }; let x = j::<api::CancelledNotification>(v)?; Ok(<api::CancelledNotification as api::ToMessage<api::ClientMessage>>::to_message(x, id).map(|y| serde_json::json!([var_ClientMessage(&y), y])).map_err(|e| serde_json::to_value(e).unwrap())) } });
  r.to_message.push(Assemble{src:"CancelledNotification", dst:"ServerMessage", f: |v, id| { let id = match id { Some(i) => Some(j::<api::RequestId>(i)?), None => None }; let x = j::<api::CancelledNotification>(v)?; Ok(<api::CancelledNotification as api::ToMessage<api::ServerMessage>>::to_message(x, id).map(|y| serde_json::json!([var_ServerMessage(&y), y])).map_err(|e| serde_json::to_value(e).unwrap())) } });
  r.try_froms.push(TryConv{src:"NotificationFromClient", dst:"CancelledNotification", f: |p, v| { let x = mk_NotificationFromClient(p, v)?; Ok(<api::CancelledNotification as TryFrom<api::NotificationFromClient>>::try_from(x).map(|y| serde_json::to_value(y).unwrap()).map_err(|e| serde_json::to_value(e).unwrap()))}});
  r.try_froms.push(TryConv{src:"NotificationFromServer", dst:"CancelledNotification", f: |p, v| { let x = mk_NotificationFromServer(p, v)?; Ok(<api::CancelledNotification as TryFrom<api::NotificationFromServer>>::try_from(x).map(|y| serde_json::to_value(y).unwrap()).map_err(|e| serde_json::to_value(e).unwrap()))}});
  r.defaults.push(DefaultFn{ty:"ClientCapabilities", f: || out(<api::ClientCapabilities as Default>::default())});
  r.displays.push(DisplayFn{ty:"ClientJsonrpcNotification", f: |v| Ok(j::<api::ClientJsonrpcNotification>(v)?.to_string())});
  r.froms.push(Conv{src:"CancelledNotification", dst:"ClientJsonrpcNotification", f: |v| out(<api::ClientJsonrpcNotification as From<api::CancelledNotification>>::from(j::<api::CancelledNotification>(v)?)), var: Some(|v| Ok(var_ClientJsonrpcNotification(&<api::ClientJsonrpcNotification as From<api::CancelledNotification>>::from(j::<api::CancelledNotification>(v)?))))});
  r.froms.push(Conv{src:"InitializedNotification", dst:"ClientJsonrpcNotification", f: |v| out(<api::ClientJsonrpcNotification as From<api::InitializedNotification>>::from(j::<api::InitializedNotification>(v)?)), var: Some(|v| Ok(var_ClientJsonrpcNotification(&<api::ClientJsonrpcNotification as From<api::InitializedNotification>>::from(j::<api::InitializedNotification>(v)?))))});
  r.froms.push(Conv{src:"ProgressNotification", dst:"ClientJsonrpcNotification", f: |v| out(<api::ClientJsonrpcNotification as From<api::ProgressNotification>>::from(j::<api::ProgressNotification>(v)?)), var: Some(|v| Ok(var_ClientJsonrpcNotification(&<api::ClientJsonrpcNotification as From<api::ProgressNotification>>::from(j::<api::ProgressNotification>(v)?))))});
  r.froms.push(Conv{src:"RootsListChangedNotification", dst:"ClientJsonrpcNotification", f: |v| out(<api::ClientJsonrpcNotification as From<api::RootsListChangedNotification>>::from(j::<api::RootsListChangedNotification>(v)?)), var: Some(|v| Ok(var_ClientJsonrpcNotification(&<api::ClientJsonrpcNotification as From<api::RootsListChangedNotification>>::from(j::<api::RootsListChangedNotification>(v)?))))});
  r.fromstrs.push(FromStrFn{ty:"ClientJsonrpcNotification", f: |s| s.parse::<api::ClientJsonrpcNotification>().map(|x| serde_json::to_value(x).unwrap()).map_err(|e| serde_json::to_string(&e).unwrap())});
  r.displays.push(DisplayFn{ty:"ClientJsonrpcRequest", f: |v| Ok(j::<api::ClientJsonrpcRequest>(v)?.to_string())});
  r.fromstrs.push(FromStrFn{ty:"ClientJsonrpcRequest", f: |s| s.parse::<api::ClientJsonrpcRequest>().map(|x| serde_json::to_value(x).unwrap()).map_err(|e| serde_json::to_string(&e).unwrap())});
  r.displays.push(DisplayFn{ty:"ClientJsonrpcResponse", f: |v| Ok(j::<api::ClientJsonrpcResponse>(v)?.to_string())});
  r.fromstrs.push(FromStrFn{ty:"ClientJsonrpcResponse", f: |s| s.parse::<api::ClientJsonrpcResponse>().map(|x| serde_json::to_value(x).unwrap()).map_err(|e| serde_json::to_string(&e).unwrap())});
  r.displays.push(DisplayFn{ty:"ClientMessage", f: |v| Ok(j::<api::ClientMessage>(v)?.to_string())});
  r.froms.push(Conv{src:"ClientJsonrpcNotification", dst:"ClientMessage", f: |v| out(<api::ClientMessage as From<api::ClientJsonrpcNotification>>::from(j::<api::ClientJsonrpcNotification>(v)?)), var: Some(|v| Ok(var_ClientMessage(&<api::ClientMessage as From<api::ClientJsonrpcNotification>>::from(j::<api::ClientJsonrpcNotification>(v)?))))});
  r.froms.push(Conv{src:"ClientJsonrpcRequest", dst:"ClientMessage", f: |v| out(<api::ClientMessage as From<api::ClientJsonrpcRequest>>::from(j::<api::ClientJsonrpcRequest>(v)?)), var: Some(|v| Ok(var_ClientMessage(&<api::ClientMessage as From<api::ClientJsonrpcRequest>>::from(j::<api::ClientJsonrpcRequest>(v)?))))});
  r.froms.push(Conv{src:"ClientJsonrpcResponse", dst:"ClientMessage", f: |v| out(<api::ClientMessage as From<api::ClientJsonrpcResponse>>::from(j::<api::ClientJsonrpcResponse>(v)?)), var: Some(|v| Ok(var_ClientMessage(&<api::ClientMessage as From<api::ClientJsonrpcResponse>>::from(j::<api::ClientJsonrpcResponse>(v)?))))});
  r.from_message.push(Assemble{src:"CallToolRequest", dst:"ClientMessage", f: |v, id| { let id = match id { Some(i) => Some(j::<api::RequestId>(i)?), None => None }; let x = j::<api::CallToolRequest>(v)?; Ok(<api::ClientMessage as api::FromMessage<api::CallToolRequest>>::from_message(x, id).map(|y| serde_json::json!([var_ClientMessage(&y), y])).map_err(|e| serde_json::to_value(e).unwrap())) } });
  r.from_message.push(Assemble{src:"CancelledNotification", dst:"ClientMessage", f: |v, id| { let id = match id { Some(i) => Some(j::<api::RequestId>(i)?), None => None }; let x = j::<api::CancelledNotification>(v)?; Ok(<api::ClientMessage as api::FromMessage<api::CancelledNotification>>::from_message(x, id).map(|y| serde_json::json!([var_ClientMessage(&y), y])).map_err(|e| serde_json::to_value(e).unwrap())) } });
  r.from_message.push(Assemble{src:"CompleteRequest", dst:"ClientMessage", f: |v, id| { let id = match id { Some(i) => Some(j::<api::RequestId>(i)?), None => None }; let x = j::<api::CompleteRequest>(v)?; Ok(<api::ClientMessage as api::FromMessage<api::CompleteRequest>>::from_message(x, id).map(|y| serde_json::json!([var_ClientMessage(&y), y])).map_err(|e| serde_json::to_value(e).unwrap())) } });
  r.from_message.push(Assemble{src:"CreateMessageResult", dst:"ClientMessage", f: |v, id| { let id = match id { Some(i) => Some(j::<api::RequestId>(i)?), None => None }; let x = j::<api::CreateMessageResult>(v)?; Ok(<api::ClientMessage as api::FromMessage<api::CreateMessageResult>>::from_message(x, id).map(|y| serde_json::json!([var_ClientMessage(&y), y])).map_err(|e| serde_json::to_value(e).unwrap())) } });
  r.from_message.push(Assemble{src:"GetPromptRequest", dst:"ClientMessage", f: |v, id| { let id = match id { Some(i) => Some(j::<api::RequestId>(i)?), None => None }; let x = j::<api::GetPromptRequest>(v)?; Ok(<api::ClientMessage as api::FromMessage<api::GetPromptRequest>>::from_message(x, id).map(|y| serde_json::json!([var_ClientMessage(&y), y])).map_err(|e| serde_json::to_value(e).unwrap())) } });
  r.from_message.push(Assemble{src:"InitializeRequest", dst:"ClientMessage", f: |v, id| { let id = match id { Some(i) => Some(j::<api::RequestId>(i)?), None => None }; let x = j::<api::InitializeRequest>(v)?; Ok(<api::ClientMessage as api::FromMessage<api::InitializeRequest>>::from_message(x, id).map(|y| serde_json::json!([var_ClientMessage(&y), y])).map_err(|e| serde_json::to_value(e).unwrap())) } });
  r.from_message.push(Assemble{src:"InitializedNotification", dst:"ClientMessage", f: |v, id| { let id = match id { Some(i) => Some(j::<api::RequestId>(i)?), None => None }; let x = j::<api::InitializedNotification>(v)?; Ok(<api::ClientMessage as api::FromMessage<api::InitializedNotification>>::from_message(x, id).map(|y| serde_json::json!([var_ClientMessage(&y), y])).map_err(|e| serde_json::to_value(e).unwrap())) } });
  r.from_message.push(Assemble{src:"ListPromptsRequest", dst:"ClientMessage", f: |v, id| { let id = match id { Some(i) => Some(j::<api::RequestId>(i)?), None => None }; let x = j::<api::ListPromptsRequest>(v)?; Ok(<api::ClientMessage as api::FromMessage<api::ListPromptsRequest>>::from_message(x, id).map(|y| serde_json::json!([var_ClientMessage(&y), y])).map_err(|e| serde_json::to_value(e).unwrap())) } });
  r.from_message.push(Assemble{src:"ListResourceTemplatesRequest", dst:"ClientMessage", f: |v, id| { let id = match id { Some(i) => Some(j::<api::RequestId>(i)?), None => None }; let x = j::<api::ListResourceTemplatesRequest>(v)?; Ok(<api::ClientMessage as api::FromMessage<api::ListResourceTemplatesRequest>>::from_message(x, id).map(|y| serde_json::json!([var_ClientMessage(&y), y])).map_err(|e| serde_json::to_value(e).unwrap())) } });
  r.from_message.push(Assemble{src:"ListResourcesRequest", dst:"ClientMessage", f: |v, id| { let id = match id { Some(i) => Some(j::<api::RequestId>(i)?), None => None }; let x = j::<api::ListResourcesRequest>(v)?; Ok(<api::ClientMessage as api::FromMessage<api::ListResourcesRequest>>::from_message(x, id).map(|y| serde_json::json!([var_ClientMessage(&y), y])).map_err(|e| serde_json::to_value(e).unwrap())) } });
  r.from_message.push(Assemble{src:"ListRootsResult", dst:"ClientMessage", f: |v, id| { let id = match id { Some(i) => Some(j::<api::RequestId>(i)?), None => None }; let x = j::<api::ListRootsResult>(v)?; Ok(<api::ClientMessage as api::FromMessage<api::ListRootsResult>>::from_message(x, id).map(|y| serde_json::json!([var_ClientMessage(&y), y])).map_err(|e| serde_json::to_value(e).unwrap())) } });
  r.from_message.push(Assemble{src:"ListToolsRequest", dst:"ClientMessage", f: |v, id| { let id = match id { Some(i) => Some(j::<api::RequestId>(i)?), None => None }; let x = j::<api::ListToolsRequest>(v)?; Ok(<api::ClientMessage as api::FromMessage<api::ListToolsRequest>>::from_message(x, id).map(|y| serde_json::json!([var_ClientMessage(&y), y])).map_err(|e| serde_json::to_value(e).unwrap())) } });
  r.from_message.push(Assemble{src:"MessageFromClient", dst:"ClientMessage", f: |v, id| { let id = match id { Some(i) => Some(j::<api::RequestId>(i)?), None => None }; let x = j::<api::MessageFromClient>(v)?; Ok(<api::ClientMessage as api::FromMessage<api::MessageFromClient>>::from_message(x, id).map(|y| serde_json::json!([var_ClientMessage(&y), y])).map_err(|e| serde_json::to_value(e).unwrap())) } });
  r.from_message.push(Assemble{src:"PingRequest", dst:"ClientMessage", f: |v, id| { let id = match id { Some(i) => Some(j::<api::RequestId>(i)?), None => None }; let x = j::<api::PingRequest>(v)?; Ok(<api::ClientMessage as api::FromMessage<api::PingRequest>>::from_message(x, id).map(|y| serde_json::json!([var_ClientMessage(&y), y])).map_err(|e| serde_json::to_value(e).unwrap())) } });
  r.from_message.push(Assemble{src:"ProgressNotification", dst:"ClientMessage", f: |v, id| { let id = match id { Some(i) => Some(j::<api::RequestId>(i)?), None => None }; let x = j::<api::ProgressNotification>(v)?; Ok(<api::ClientMessage as api::FromMessage<api::ProgressNotification>>::from_message(x, id).map(|y| serde_json::json!([var_ClientMessage(&y), y])).map_err(|e| serde_json::to_value(e).unwrap())) } });
  r.from_message.push(Assemble{src:"ReadResourceRequest", dst:"ClientMessage", f: |v, id| { let id = match id { Some(i) => Some(j::<api::RequestId>(i)?), None => None }; let x = j::<api::ReadResourceRequest>(v)?; Ok(<api::ClientMessage as api::FromMessage<api::ReadResourceRequest>>::from_message(x, id).map(|y| serde_json::json!([var_ClientMessage(&y), y])).map_err(|e| serde_json::to_value(e).unwrap())) } });
  r.from_message.push(Assemble{src:"Result", dst:"ClientMessage", f: |v, id| { let id = match id { Some(i) => Some(j::<api::RequestId>(i)?), None => None }; let x = j::<api::Result>(v)?; Ok(<api::ClientMessage as api::FromMessage<api::Result>>::from_message(x, id).map(|y| serde_json::json!([var_ClientMessage(&y), y])).map_err(|e| serde_json::to_value(e).unwrap())) } });
  r.from_message.push(Assemble{src:"RootsListChangedNotification", dst:"ClientMessage", f: |v, id| { let id = match id { Some(i) => Some(j::<api::RequestId>(i)?), None => None }; let x = j::<api::RootsListChangedNotification>(v)?; Ok(<api::ClientMessage as api::FromMessage<api::RootsListChangedNotification>>::from_message(x, id).map(|y| serde_json::json!([var_ClientMessage(&y), y])).map_err(|e| serde_json::to_value(e).unwrap())) } });
  r.from_message.push(Assemble{src:"SetLevelRequest", dst:"ClientMessage", f: |v, id| { let id = match id { Some(i) => Some(j::<api::RequestId>(i)?), None => None }; let x = j::<api::SetLevelRequest>(v)?; Ok(<api::ClientMessage as api::FromMessage<api::SetLevelRequest>>::from_message(x, id).map(|y| serde_json::json!([var_ClientMessage(&y), y])).map_err(|e| serde_json::to_value(e).unwrap())) } });
  r.from_message.push(Assemble{src:"SubscribeRequest", dst:"ClientMessage", f: |v, id| { let id = match id { Some(i) => Some(j::<api::RequestId>(i)?), None => None }; let x = j::<api::SubscribeRequest>(v)?; Ok(<api::ClientMessage as api::FromMessage<api::SubscribeRequest>>::from_message(x, id).map(|y| serde_json::json!([var_ClientMessage(&y), y])).map_err(|e| serde_json::to_value(e).unwrap())) } });
  r.from_message.push(Assemble{src:"UnsubscribeRequest", dst:"ClientMessage", f: |v, id| { let id = match id { Some(i) => Some(j::<api::RequestId>(i)?), None => None }; let x = j::<api::UnsubscribeRequest>(v)?; Ok(<api::ClientMessage as api::FromMessage<api::UnsubscribeRequest>>::from_message(x, id).map(|y| serde_json::json!([var_ClientMessage(&y), y])).map_err(|e| serde_json::to_value(e).unwrap())) } });
  r.fromstrs.push(FromStrFn{ty:"ClientMessage", f: |s| s.parse::<api::ClientMessage>().map(|x| serde_json::to_value(x).unwrap()).map_err(|e| serde_json::to_string(&e).unwrap())});
  r.displays.push(DisplayFn{ty:"ClientMessages", f: |v| Ok(j::<api::ClientMessages>(v)?.to_string())});
  r.froms.push(Conv{src:"ClientMessage", dst:"ClientMessages", f: |v| out(<api::ClientMessages as From<api::ClientMessage>>::from(j::<api::ClientMessage>(v)?)), var: Some(|v| Ok(var_ClientMessages(&<api::ClientMessages as From<api::ClientMessage>>::from(j::<api::ClientMessage>(v)?))))});
  r.froms.push(Conv{src:"Vec<ClientMessage>", dst:"ClientMessages", f: |v| out(<api::ClientMessages as From<Vec<api::ClientMessage>>>::from(j::<Vec<api::ClientMessage>>(v)?)), var: Some(|v| Ok(var_ClientMessages(&<api::ClientMessages as From<Vec<api::ClientMessage>>>::from(j::<Vec<api::ClientMessage>>(v)?))))});
  r.froms.push(Conv{src:"CancelledNotification", dst:"ClientNotification", f: |v| out(<api::ClientNotification as From<api::CancelledNotification>>::from(j::<api::CancelledNotification>(v)?)), var: Some(|v| Ok(var_ClientNotification(&<api::ClientNotification as From<api::CancelledNotification>>::from(j::<api::CancelledNotification>(v)?))))});
  r.froms.push(Conv{src:"InitializedNotification", dst:"ClientNotification", f: |v| out(<api::ClientNotification as From<api::InitializedNotification>>::from(j::<api::InitializedNotification>(v)?)), var: Some(|v| Ok(var_ClientNotification(&<api::ClientNotification as From<api::InitializedNotification>>::from(j::<api::InitializedNotification>(v)?))))});
  r.froms.push(Conv{src:"ProgressNotification", dst:"ClientNotification", f: |v| out(<api::ClientNotification as From<api::ProgressNotification>>::from(j::<api::ProgressNotification>(v)?)), var: Some(|v| Ok(var_ClientNotification(&<api::ClientNotification as From<api::ProgressNotification>>::from(j::<api::ProgressNotification>(v)?))))});
  r.froms.push(Conv{src:"RootsListChangedNotification", dst:"ClientNotification", f: |v| out(<api::ClientNotification as From<api::RootsListChangedNotification>>::from(j::<api::RootsListChangedNotification>(v)?)), var: Some(|v| Ok(var_ClientNotification(&<api::ClientNotification as From<api::RootsListChangedNotification>>::from(j::<api::RootsListChangedNotification>(v)?))))});
  r.try_froms.push(TryConv{src:"NotificationFromClient", dst:"ClientNotification", f: |p, v| { let x = mk_NotificationFromClient(p, v)?; Ok(<api::ClientNotification as TryFrom<api::NotificationFromClient>>::try_from(x).map(|y| serde_json::to_value(y).unwrap()).map_err(|e| serde_json::to_value(e).unwrap()))}});
  r.froms.push(Conv{src:"CallToolRequest", dst:"ClientRequest", f: |v| out(<api::ClientRequest as From<api::CallToolRequest>>::from(j::<api::CallToolRequest>(v)?)), var: Some(|v| Ok(var_ClientRequest(&<api::ClientRequest as From<api::CallToolRequest>>::from(j::<api::CallToolRequest>(v)?))))});
  r.froms.push(Conv{src:"CompleteRequest", dst:"ClientRequest", f: |v| out(<api::ClientRequest as From<api::CompleteRequest>>::from(j::<api::CompleteRequest>(v)?)), var: Some(|v| Ok(var_ClientRequest(&<api::ClientRequest as From<api::CompleteRequest>>::from(j::<api::CompleteRequest>(v)?))))});
  r.froms.push(Conv{src:"GetPromptRequest", dst:"ClientRequest", f: |v| out(<api::ClientRequest as From<api::GetPromptRequest>>::from(j::<api::GetPromptRequest>(v)?)), var: Some(|v| Ok(var_ClientRequest(&<api::ClientRequest as From<api::GetPromptRequest>>::from(j::<api::GetPromptRequest>(v)?))))});
  r.froms.push(Conv{src:"InitializeRequest", dst:"ClientRequest", f: |v| out(<api::ClientRequest as From<api::InitializeRequest>>::from(j::<api::InitializeRequest>(v)?)), var: Some(|v| Ok(var_ClientRequest(&<api::ClientRequest as From<api::InitializeRequest>>::from(j::<api::InitializeRequest>(v)?))))});
  r.froms.push(Conv{src:"ListPromptsRequest", dst:"ClientRequest", f: |v| out(<api::ClientRequest as From<api::ListPromptsRequest>>::from(j::<api::ListPromptsRequest>(v)?)), var: Some(|v| Ok(var_ClientRequest(&<api::ClientRequest as From<api::ListPromptsRequest>>::from(j::<api::ListPromptsRequest>(v)?))))});
  r.froms.push(Conv{src:"ListResourceTemplatesRequest", dst:"ClientRequest", f: |v| out(<api::ClientRequest as From<api::ListResourceTemplatesRequest>>::from(j::<api::ListResourceTemplatesRequest>(v)?)), var: Some(|v| Ok(var_ClientRequest(&<api::ClientRequest as From<api::ListResourceTemplatesRequest>>::from(j::<api::ListResourceTemplatesRequest>(v)?))))});
  r.froms.push(Conv{src:"ListResourcesRequest", dst:"ClientRequest", f: |v| out(<api::ClientRequest as From<api::ListResourcesRequest>>::from(j::<api::ListResourcesRequest>(v)?)), var: Some(|v| Ok(var_ClientRequest(&<api::ClientRequest as From<api::ListResourcesRequest>>::from(j::<api::ListResourcesRequest>(v)?))))});
  r.froms.push(Conv{src:"ListToolsRequest", dst:"ClientRequest", f: |v| out(<api::ClientRequest as From<api::ListToolsRequest>>::from(j::<api::ListToolsRequest>(v)?)), var: Some(|v| Ok(var_ClientRequest(&<api::ClientRequest as From<api::ListToolsRequest>>::from(j::<api::ListToolsRequest>(v)?))))});
  r.froms.push(Conv{src:"PingRequest", dst:"ClientRequest", f: |v| out(<api::ClientRequest as From<api::PingRequest>>::from(j::<api::PingRequest>(v)?)), var: Some(|v| Ok(var_ClientRequest(&<api::ClientRequest as From<api::PingRequest>>::from(j::<api::PingRequest>(v)?))))});
  r.froms.push(Conv{src:"ReadResourceRequest", dst:"ClientRequest", f: |v| out(<api::ClientRequest as From<api::ReadResourceRequest>>::from(j::<api::ReadResourceRequest>(v)?)), var: Some(|v| Ok(var_ClientRequest(&<api::ClientRequest as From<api::ReadResourceRequest>>::from(j::<api::ReadResourceRequest>(v)?))))});
  r.froms.push(Conv{src:"SetLevelRequest", dst:"ClientRequest", f: |v| out(<api::ClientRequest as From<api::SetLevelRequest>>::from(j::<api::SetLevelRequest>(v)?)), var: Some(|v| Ok(var_ClientRequest(&<api::ClientRequest as From<api::SetLevelRequest>>::from(j::<api::SetLevelRequest>(v)?))))});
  r.froms.push(Conv{src:"SubscribeRequest", dst:"ClientRequest", f: |v| out(<api::ClientRequest as From<api::SubscribeRequest>>::from(j::<api::SubscribeRequest>(v)?)), var: Some(|v| Ok(var_ClientRequest(&<api::ClientRequest as From<api::SubscribeRequest>>::from(j::<api::SubscribeRequest>(v)?))))});
  r.froms.push(Conv{src:"UnsubscribeRequest", dst:"ClientRequest", f: |v| out(<api::ClientRequest as From<api::UnsubscribeRequest>>::from(j::<api::UnsubscribeRequest>(v)?)), var: Some(|v| Ok(var_ClientRequest(&<api::ClientRequest as From<api::UnsubscribeRequest>>::from(j::<api::UnsubscribeRequest>(v)?))))});
  r.try_froms.push(TryConv{src:"RequestFromClient", dst:"ClientRequest", f: |p, v| { let x = mk_RequestFromClient(p, v)?; Ok(<api::ClientRequest as TryFrom<api::RequestFromClient>>::try_from(x).map(|y| serde_json::to_value(y).unwrap()).map_err(|e| serde_json::to_value(e).unwrap()))}});
  r.froms.push(Conv{src:"CreateMessageResult", dst:"ClientResult", f: |v| out(<api::ClientResult as From<api::CreateMessageResult>>::from(j::<api::CreateMessageResult>(v)?)), var: Some(|v| Ok(var_ClientResult(&<api::ClientResult as From<api::CreateMessageResult>>::from(j::<api::CreateMessageResult>(v)?))))});
  r.froms.push(Conv{src:"ListRootsResult", dst:"ClientResult", f: |v| out(<api::ClientResult as From<api::ListRootsResult>>::from(j::<api::ListRootsResult>(v)?)), var: Some(|v| Ok(var_ClientResult(&<api::ClientResult as From<api::ListRootsResult>>::from(j::<api::ListRootsResult>(v)?))))});
  r.froms.push(Conv{src:"Result", dst:"ClientResult", f: |v| out(<api::ClientResult as From<api::Result>>::from(j::<api::Result>(v)?)), var: Some(|v| Ok(var_ClientResult(&<api::ClientResult as From<api::Result>>::from(j::<api::Result>(v)?))))});
  r.try_froms.push(TryConv{src:"ResultFromClient", dst:"ClientResult", f: |p, v| { let x = mk_ResultFromClient(p, v)?; Ok(<api::ClientResult as TryFrom<api::ResultFromClient>>::try_from(x).map(|y| serde_json::to_value(y).unwrap()).map_err(|e| serde_json::to_value(e).unwrap()))}});
  r.defaults.push(DefaultFn{ty:"ClientRoots", f: || out(<api::ClientRoots as Default>::default())});
  r.to_message.push(Assemble{src:"CompleteRequest", dst:"ClientMessage", f: |v, id| { let id = match id { Some(i) => Some(j::<api::RequestId>(i)?), None => None }; let x = j::<api::CompleteRequest>(v)?; Ok(<api::CompleteRequest as api::ToMessage<api::ClientMessage>>::to_message(x, id).map(|y| serde_json::json!([var_ClientMessage(&y), y])).map_err(|e| serde_json::to_value(e).unwrap())) } });
  r.try_froms.push(TryConv{src:"RequestFromClient", dst:"CompleteRequest", f: |p, v| { let x = mk_RequestFromClient(p, v)?; Ok(<api::CompleteRequest as TryFrom<api::RequestFromClient>>::try_from(x).map(|y| serde_json::to_value(y).unwrap()).map_err(|e| serde_json::to_value(e).unwrap()))}});
  r.froms.push(Conv{src:"PromptReference", dst:"CompleteRequestRef", f: |v| out(<api::CompleteRequestRef as From<api::PromptReference>>::from(j::<api::PromptReference>(v)?)), var: Some(|v| Ok(var_CompleteRequestRef(&<api::CompleteRequestRef as From<api::PromptReference>>::from(j::<api::PromptReference>(v)?))))});
  r.froms.push(Conv{src:"ResourceReference", dst:"CompleteRequestRef", f: |v| out(<api::CompleteRequestRef as From<api::ResourceReference>>::from(j::<api::ResourceReference>(v)?)), var: Some(|v| Ok(var_CompleteRequestRef(&<api::CompleteRequestRef as From<api::ResourceReference>>::from(j::<api::ResourceReference>(v)?))))});
  r.to_message.push(Assemble{src:"CompleteResult", dst:"ServerMessage", f: |v, id| { let id = match id { Some(i) => Some(j::<api::RequestId>(i)?), None => None }; let x = j::<api::CompleteResult>(v)?; Ok(<api::CompleteResult as api::ToMessage<api::ServerMessage>>::to_message(x, id).map(|y| serde_json::json!([var_ServerMessage(&y), y])).map_err(|e| serde_json::to_value(e).unwrap())) } });
  r.try_froms.push(TryConv{src:"ResultFromServer", dst:"CompleteResult", f: |p, v| { let x = mk_ResultFromServer(p, v)?; Ok(<api::CompleteResult as TryFrom<api::ResultFromServer>>::try_from(x).map(|y| serde_json::to_value(y).unwrap()).map_err(|e| serde_json::to_value(e).unwrap()))}});
  r.froms.push(Conv{src:"AudioContent", dst:"CreateMessageContent", f: |v| out(<api::CreateMessageContent as From<api::AudioContent>>::from(j::<api::AudioContent>(v)?)), var: Some(|v| Ok(var_CreateMessageContent(&<api::CreateMessageContent as From<api::AudioContent>>::from(j::<api::AudioContent>(v)?))))});
  r.froms.push(Conv{src:"ImageContent", dst:"CreateMessageContent", f: |v| out(<api::CreateMessageContent as From<api::ImageContent>>::from(j::<api::ImageContent>(v)?)), var: Some(|v| Ok(var_CreateMessageContent(&<api::CreateMessageContent as From<api::ImageContent>>::from(j::<api::ImageContent>(v)?))))});
  r.froms.push(Conv{src:"TextContent", dst:"CreateMessageContent", f: |v| out(<api::CreateMessageContent as From<api::TextContent>>::from(j::<api::TextContent>(v)?)), var: Some(|v| Ok(var_CreateMessageContent(&<api::CreateMessageContent as From<api::TextContent>>::from(j::<api::TextContent>(v)?))))});
  r.to_message.push(Assemble{src:"CreateMessageRequest", dst:"ServerMessage", f: |v, id| { let id = match id { Some(i) => Some(j::<api::RequestId>(i)?), None => None }; let x = j::<api::CreateMessageRequest>(v)?; Ok(<api::CreateMessageRequest as api::ToMessage<api::ServerMessage>>::to_message(x, id).map(|y| serde_json::json!([var_ServerMessage(&y), y])).map_err(|e| serde_json::to_value(e).unwrap())) } });
  r.try_froms.push(TryConv{src:"RequestFromServer", dst:"CreateMessageRequest", f: |p, v| { let x = mk_RequestFromServer(p, v)?; Ok(<api::CreateMessageRequest as TryFrom<api::RequestFromServer>>::try_from(x).map(|y| serde_json::to_value(y).unwrap()).map_err(|e| serde_json::to_value(e).unwrap()))}});
  r.to_message.push(Assemble{src:"CreateMessageResult", dst:"ClientMessage", f: |v, id| { let id = match id { Some(i) => Some(j::<api::RequestId>(i)?), None => None }; let x = j::<api::CreateMessageResult>(v)?; Ok(<api::CreateMessageResult as api::ToMessage<api::ClientMessage>>::to_message(x, id).map(|y| serde_json::json!([var_ClientMessage(&y), y])).map_err(|e| serde_json::to_value(e).unwrap())) } });
  r.try_froms.push(TryConv{src:"ResultFromClient", dst:"CreateMessageResult", f: |p, v| { let x = mk_ResultFromClient(p, v)?; Ok(<api::CreateMessageResult as TryFrom<api::ResultFromClient>>::try_from(x).map(|y| serde_json::to_value(y).unwrap()).map_err(|e| serde_json::to_value(e).unwrap()))}});
  r.froms.push(Conv{src:"BlobResourceContents", dst:"EmbeddedResourceResource", f: |v| out(<api::EmbeddedResourceResource as From<api::BlobResourceContents>>::from(j::<api::BlobResourceContents>(v)?)), var: Some(|v| Ok(var_EmbeddedResourceResource(&<api::EmbeddedResourceResource as From<api::BlobResourceContents>>::from(j::<api::BlobResourceContents>(v)?))))});
  r.froms.push(Conv{src:"TextResourceContents", dst:"EmbeddedResourceResource", f: |v| out(<api::EmbeddedResourceResource as From<api::TextResourceContents>>::from(j::<api::TextResourceContents>(v)?)), var: Some(|v| Ok(var_EmbeddedResourceResource(&<api::EmbeddedResourceResource as From<api::TextResourceContents>>::from(j::<api::TextResourceContents>(v)?))))});
  r.froms.push(Conv{src:"CallToolResult", dst:"Result", f: |v| out(<api::GenericResult as From<api::CallToolResult>>::from(j::<api::CallToolResult>(v)?)), var: None});
  r.froms.push(Conv{src:"CompleteResult", dst:"Result", f: |v| out(<api::GenericResult as From<api::CompleteResult>>::from(j::<api::CompleteResult>(v)?)), var: None});
  r.froms.push(Conv{src:"GetPromptResult", dst:"Result", f: |v| out(<api::GenericResult as From<api::GetPromptResult>>::from(j::<api::GetPromptResult>(v)?)), var: None});
  r.froms.push(Conv{src:"InitializeResult", dst:"Result", f: |v| out(<api::GenericResult as From<api::InitializeResult>>::from(j::<api::InitializeResult>(v)?)), var: None});
  r.froms.push(Conv{src:"ListPromptsResult", dst:"Result", f: |v| out(<api::GenericResult as From<api::ListPromptsResult>>::from(j::<api::ListPromptsResult>(v)?)), var: None});
  r.froms.push(Conv{src:"ListResourceTemplatesResult", dst:"Result", f: |v| out(<api::GenericResult as From<api::ListResourceTemplatesResult>>::from(j::<api::ListResourceTemplatesResult>(v)?)), var: None});
  r.froms.push(Conv{src:"ListResourcesResult", dst:"Result", f: |v| out(<api::GenericResult as From<api::ListResourcesResult>>::from(j::<api::ListResourcesResult>(v)?)), var: None});
  r.froms.push(Conv{src:"ListToolsResult", dst:"Result", f: |v| out(<api::GenericResult as From<api::ListToolsResult>>::from(j::<api::ListToolsResult>(v)?)), var: None});
  r.froms.push(Conv{src:"ReadResourceResult", dst:"Result", f: |v| out(<api::GenericResult as From<api::ReadResourceResult>>::from(j::<api::ReadResourceResult>(v)?)), var: None});
  r.to_message.push(Assemble{src:"GetPromptRequest", dst:"ClientMessage", f: |v, id| { let id = match id { Some(i) => Some(j::<api::RequestId>(i)?), None => None }; let x = j::<api::GetPromptRequest>(v)?; Ok(<api::GetPromptRequest as api::ToMessage<api::ClientMessage>>::to_message(x, id).map(|y| serde_json::json!([var_ClientMessage(&y), y])).map_err(|e| serde_json::to_value(e).unwrap())) } });
  r.try_froms.push(TryConv{src:"RequestFromClient", dst:"GetPromptRequest", f: |p, v| { let x = mk_RequestFromClient(p, v)?; Ok(<api::GetPromptRequest as TryFrom<api::RequestFromClient>>::try_from(x).map(|y| serde_json::to_value(y).unwrap()).map_err(|e| serde_json::to_value(e).unwrap()))}});
  r.to_message.push(Assemble{src:"GetPromptResult", dst:"ServerMessage", f: |v, id| { let id = match id { Some(i) => Some(j::<api::RequestId>(i)?), None => None }; let x = j::<api::GetPromptResult>(v)?; Ok(<api::GetPromptResult as api::ToMessage<api::ServerMessage>>::to_message(x, id).map(|y| serde_json::json!([var_ServerMessage(&y), y])).map_err(|e| serde_json::to_value(e).unwrap())) } });
  r.try_froms.push(TryConv{src:"ResultFromServer", dst:"GetPromptResult", f: |p, v| { let x = mk_ResultFromServer(p, v)?; Ok(<api::GetPromptResult as TryFrom<api::ResultFromServer>>::try_from(x).map(|y| serde_json::to_value(y).unwrap()).map_err(|e| serde_json::to_value(e).unwrap()))}});
  r.displays.push(DisplayFn{ty:"IncludeContext", f: |v| Ok(j::<api::IncludeContext>(v)?.to_string())});
  r.to_message.push(Assemble{src:"InitializeRequest", dst:"ClientMessage", f: |v, id| { let id = match id { Some(i) => Some(j::<api::RequestId>(i)?), None => None }; let x = j::<api::InitializeRequest>(v)?; Ok(<api::InitializeRequest as api::ToMessage<api::ClientMessage>>::to_message(x, id).map(|y| serde_json::json!([var_ClientMessage(&y), y])).map_err(|e| serde_json::to_value(e).unwrap())) } });
  r.try_froms.push(TryConv{src:"RequestFromClient", dst:"InitializeRequest", f: |p, v| { let x = mk_RequestFromClient(p, v)?; Ok(<api::InitializeRequest as TryFrom<api::RequestFromClient>>::try_from(x).map(|y| serde_json::to_value(y).unwrap()).map_err(|e| serde_json::to_value(e).unwrap()))}});
  r.to_message.push(Assemble{src:"InitializeResult", dst:"ServerMessage", f: |v, id| { let id = match id { Some(i) => Some(j::<api::RequestId>(i)?), None => None }; let x = j::<api::InitializeResult>(v)?; Ok(<api::InitializeResult as api::ToMessage<api::ServerMessage>>::to_message(x, id).map(|y| serde_json::json!([var_ServerMessage(&y), y])).map_err(|e| serde_json::to_value(e).unwrap())) } });
  r.try_froms.push(TryConv{src:"ResultFromServer", dst:"InitializeResult", f: |p, v| { let x = mk_ResultFromServer(p, v)?; Ok(<api::InitializeResult as TryFrom<api::ResultFromServer>>::try_from(x).map(|y| serde_json::to_value(y).unwrap()).map_err(|e| serde_json::to_value(e).unwrap()))}});
  r.to_message.push(Assemble{src:"InitializedNotification", dst:"ClientMessage", f: |v, id| { let id = match id { Some(i) => Some(j::<api::RequestId>(i)?), None => None }; let x = j::<api::InitializedNotification>(v)?; Ok(<api::InitializedNotification as api::ToMessage<api::ClientMessage>>::to_message(x, id).map(|y| serde_json::json!([var_ClientMessage(&y), y])).map_err(|e| serde_json::to_value(e).unwrap())) } });
  r.try_froms.push(TryConv{src:"NotificationFromClient", dst:"InitializedNotification", f: |p, v| { let x = mk_NotificationFromClient(p, v)?; Ok(<api::InitializedNotification as TryFrom<api::NotificationFromClient>>::try_from(x).map(|y| serde_json::to_value(y).unwrap()).map_err(|e| serde_json::to_value(e).unwrap()))}});
  r.defaults.push(DefaultFn{ty:"InitializedNotificationParams", f: || out(<api::InitializedNotificationParams as Default>::default())});
  r.froms.push(Conv{src:"JsonrpcNotification", dst:"JsonrpcBatchRequestItem", f: |v| out(<api::JsonrpcBatchRequestItem as From<api::JsonrpcNotification>>::from(j::<api::JsonrpcNotification>(v)?)), var: Some(|v| Ok(var_JsonrpcBatchRequestItem(&<api::JsonrpcBatchRequestItem as From<api::JsonrpcNotification>>::from(j::<api::JsonrpcNotification>(v)?))))});
  r.froms.push(Conv{src:"JsonrpcRequest", dst:"JsonrpcBatchRequestItem", f: |v| out(<api::JsonrpcBatchRequestItem as From<api::JsonrpcRequest>>::from(j::<api::JsonrpcRequest>(v)?)), var: Some(|v| Ok(var_JsonrpcBatchRequestItem(&<api::JsonrpcBatchRequestItem as From<api::JsonrpcRequest>>::from(j::<api::JsonrpcRequest>(v)?))))});
  r.froms.push(Conv{src:"JsonrpcError", dst:"JsonrpcBatchResponseItem", f: |v| out(<api::JsonrpcBatchResponseItem as From<api::JsonrpcError>>::from(j::<api::JsonrpcError>(v)?)), var: Some(|v| Ok(var_JsonrpcBatchResponseItem(&<api::JsonrpcBatchResponseItem as From<api::JsonrpcError>>::from(j::<api::JsonrpcError>(v)?))))});
  r.froms.push(Conv{src:"JsonrpcResponse", dst:"JsonrpcBatchResponseItem", f: |v| out(<api::JsonrpcBatchResponseItem as From<api::JsonrpcResponse>>::from(j::<api::JsonrpcResponse>(v)?)), var: Some(|v| Ok(var_JsonrpcBatchResponseItem(&<api::JsonrpcBatchResponseItem as From<api::JsonrpcResponse>>::from(j::<api::JsonrpcResponse>(v)?))))});
  r.displays.push(DisplayFn{ty:"JsonrpcError", f: |v| Ok(j::<api::JsonrpcError>(v)?.to_string())});
  r.fromstrs.push(FromStrFn{ty:"JsonrpcError", f: |s| s.parse::<api::JsonrpcError>().map(|x| serde_json::to_value(x).unwrap()).map_err(|e| serde_json::to_string(&e).unwrap())});
  r.froms.push(Conv{src:"JsonrpcBatchRequest", dst:"JsonrpcMessage", f: |v| out(<api::JsonrpcMessage as From<api::JsonrpcBatchRequest>>::from(j::<api::JsonrpcBatchRequest>(v)?)), var: Some(|v| Ok(var_JsonrpcMessage(&<api::JsonrpcMessage as From<api::JsonrpcBatchRequest>>::from(j::<api::JsonrpcBatchRequest>(v)?))))});
  r.froms.push(Conv{src:"JsonrpcBatchResponse", dst:"JsonrpcMessage", f: |v| out(<api::JsonrpcMessage as From<api::JsonrpcBatchResponse>>::from(j::<api::JsonrpcBatchResponse>(v)?)), var: Some(|v| Ok(var_JsonrpcMessage(&<api::JsonrpcMessage as From<api::JsonrpcBatchResponse>>::from(j::<api::JsonrpcBatchResponse>(v)?))))});
  r.froms.push(Conv{src:"JsonrpcError", dst:"JsonrpcMessage", f: |v| out(<api::JsonrpcMessage as From<api::JsonrpcError>>::from(j::<api::JsonrpcError>(v)?)), var: Some(|v| Ok(var_JsonrpcMessage(&<api::JsonrpcMessage as From<api::JsonrpcError>>::from(j::<api::JsonrpcError>(v)?))))});
  r.froms.push(Conv{src:"JsonrpcNotification", dst:"JsonrpcMessage", f: |v| out(<api::JsonrpcMessage as From<api::JsonrpcNotification>>::from(j::<api::JsonrpcNotification>(v)?)), var: Some(|v| Ok(var_JsonrpcMessage(&<api::JsonrpcMessage as From<api::JsonrpcNotification>>::from(j::<api::JsonrpcNotification>(v)?))))});
  r.froms.push(Conv{src:"JsonrpcRequest", dst:"JsonrpcMessage", f: |v| out(<api::JsonrpcMessage as From<api::JsonrpcRequest>>::from(j::<api::JsonrpcRequest>(v)?)), var: Some(|v| Ok(var_JsonrpcMessage(&<api::JsonrpcMessage as From<api::JsonrpcRequest>>::from(j::<api::JsonrpcRequest>(v)?))))});
  r.froms.push(Conv{src:"JsonrpcResponse", dst:"JsonrpcMessage", f: |v| out(<api::JsonrpcMessage as From<api::JsonrpcResponse>>::from(j::<api::JsonrpcResponse>(v)?)), var: Some(|v| Ok(var_JsonrpcMessage(&<api::JsonrpcMessage as From<api::JsonrpcResponse>>::from(j::<api::JsonrpcResponse>(v)?))))});
  r.defaults.push(DefaultFn{ty:"JsonrpcNotificationParams", f: || out(<api::JsonrpcNotificationParams as Default>::default())});
  r.defaults.push(DefaultFn{ty:"JsonrpcRequestParams", f: || out(<api::JsonrpcRequestParams as Default>::default())});
  r.defaults.push(DefaultFn{ty:"JsonrpcRequestParamsMeta", f: || out(<api::JsonrpcRequestParamsMeta as Default>::default())});
  r.to_message.push(Assemble{src:"ListPromptsRequest", dst:"ClientMessage", f: |v, id| { let id = match id { Some(i) => Some(j::<api::RequestId>(i)?), None => None }; let x = j::<api::ListPromptsRequest>(v)?; Ok(<api::ListPromptsRequest as api::ToMessage<api::ClientMessage>>::to_message(x, id).map(|y| serde_json::json!([var_ClientMessage(&y), y])).map_err(|e| serde_json::to_value(e).unwrap())) } });
  r.try_froms.push(TryConv{src:"RequestFromClient", dst:"ListPromptsRequest", f: |p, v| { let x = mk_RequestFromClient(p, v)?; Ok(<api::ListPromptsRequest as TryFrom<api::RequestFromClient>>::try_from(x).map(|y| serde_json::to_value(y).unwrap()).map_err(|e| serde_json::to_value(e).unwrap()))}});
  r.defaults.push(DefaultFn{ty:"ListPromptsRequestParams", f: || out(<api::ListPromptsRequestParams as Default>::default())});
  r.to_message.push(Assemble{src:"ListPromptsResult", dst:"ServerMessage", f: |v, id| { let id = match id { Some(i) => Some(j::<api::RequestId>(i)?), None => None }; let x = j::<api::ListPromptsResult>(v)?; Ok(<api::ListPromptsResult as api::ToMessage<api::ServerMessage>>::to_message(x, id).map(|y| serde_json::json!([var_ServerMessage(&y), y])).map_err(|e| serde_json::to_value(e).unwrap())) } });
  r.try_froms.push(TryConv{src:"ResultFromServer", dst:"ListPromptsResult", f: |p, v| { let x = mk_ResultFromServer(p, v)?; Ok(<api::ListPromptsResult as TryFrom<api::ResultFromServer>>::try_from(x).map(|y| serde_json::to_value(y).unwrap()).map_err(|e| serde_json::to_value(e).unwrap()))}});
  r.to_message.push(Assemble{src:"ListResourceTemplatesRequest", dst:"ClientMessage", f: |v, id| { let id = match id { Some(i) => Some(j::<api::RequestId>(i)?), None => None }; let x = j::<api::ListResourceTemplatesRequest>(v)?; Ok(<api::ListResourceTemplatesRequest as api::ToMessage<api::ClientMessage>>::to_message(x, id).map(|y| serde_json::json!([var_ClientMessage(&y), y])).map_err(|e| serde_json::to_value(e).unwrap())) } });
  r.try_froms.push(TryConv{src:"RequestFromClient", dst:"ListResourceTemplatesRequest", f: |p, v| { let x = mk_RequestFromClient(p, v)?; Ok(<api::ListResourceTemplatesRequest as TryFrom<api::RequestFromClient>>::try_from(x).map(|y| serde_json::to_value(y).unwrap()).map_err(|e| serde_json::to_value(e).unwrap()))}});
  r.defaults.push(DefaultFn{ty:"ListResourceTemplatesRequestParams", f: || out(<api::ListResourceTemplatesRequestParams as Default>::default())});
  r.to_message.push(Assemble{src:"ListResourceTemplatesResult", dst:"ServerMessage", f: |v, id| { let id = match id { Some(i) => Some(j::<api::RequestId>(i)?), None => None }; let x = j::<api::ListResourceTemplatesResult>(v)?; Ok(<api::ListResourceTemplatesResult as api::ToMessage<api::ServerMessage>>::to_message(x, id).map(|y| serde_json::json!([var_ServerMessage(&y), y])).map_err(|e| serde_json::to_value(e).unwrap())) } });
  r.try_froms.push(TryConv{src:"ResultFromServer", dst:"ListResourceTemplatesResult", f: |p, v| { let x = mk_ResultFromServer(p, v)?; Ok(<api::ListResourceTemplatesResult as TryFrom<api::ResultFromServer>>::try_from(x).map(|y| serde_json::to_value(y).unwrap()).map_err(|e| serde_json::to_value(e).unwrap()))}});
  r.to_message.push(Assemble{src:"ListResourcesRequest", dst:"ClientMessage", f: |v, id| { let id = match id { Some(i) => Some(j::<api::RequestId>(i)?), None => None }; let x = j::<api::ListResourcesRequest>(v)?; Ok(<api::ListResourcesRequest as api::ToMessage<api::ClientMessage>>::to_message(x, id).map(|y| serde_json::json!([var_ClientMessage(&y), y])).map_err(|e| serde_json::to_value(e).unwrap())) } });
  r.try_froms.push(TryConv{src:"RequestFromClient", dst:"ListResourcesRequest", f: |p, v| { let x = mk_RequestFromClient(p, v)?; Ok(<api::ListResourcesRequest as TryFrom<api::RequestFromClient>>::try_from(x).map(|y| serde_json::to_value(y).unwrap()).map_err(|e| serde_json::to_value(e).unwrap()))}});
  r.defaults.push(DefaultFn{ty:"ListResourcesRequestParams", f: || out(<api::ListResourcesRequestParams as Default>::default())});
  r.to_message.push(Assemble{src:"ListResourcesResult", dst:"ServerMessage", f: |v, id| { let id = match id { Some(i) => Some(j::<api::RequestId>(i)?), None => None }; let x = j::<api::ListResourcesResult>(v)?; Ok(<api::ListResourcesResult as api::ToMessage<api::ServerMessage>>::to_message(x, id).map(|y| serde_json::json!([var_ServerMessage(&y), y])).map_err(|e| serde_json::to_value(e).unwrap())) } });
  r.try_froms.push(TryConv{src:"ResultFromServer", dst:"ListResourcesResult", f: |p, v| { let x = mk_ResultFromServer(p, v)?; Ok(<api::ListResourcesResult as TryFrom<api::ResultFromServer>>::try_from(x).map(|y| serde_json::to_value(y).unwrap()).map_err(|e| serde_json::to_value(e).unwrap()))}});
  r.to_message.push(Assemble{src:"ListRootsRequest", dst:"ServerMessage", f: |v, id| { let id = match id { Some(i) => Some(j::<api::RequestId>(i)?), None => None }; let x = j::<api::ListRootsRequest>(v)?; Ok(<api::ListRootsRequest as api::ToMessage<api::ServerMessage>>::to_message(x, id).map(|y| serde_json::json!([var_ServerMessage(&y), y])).map_err(|e| serde_json::to_value(e).unwrap())) } });
  r.try_froms.push(TryConv{src:"RequestFromServer", dst:"ListRootsRequest", f: |p, v| { let x = mk_RequestFromServer(p, v)?; Ok(<api::ListRootsRequest as TryFrom<api::RequestFromServer>>::try_from(x).map(|y| serde_json::to_value(y).unwrap()).map_err(|e| serde_json::to_value(e).unwrap()))}});
  r.defaults.push(DefaultFn{ty:"ListRootsRequestParams", f: || out(<api::ListRootsRequestParams as Default>::default())});
  r.defaults.push(DefaultFn{ty:"ListRootsRequestParamsMeta", f: || out(<api::ListRootsRequestParamsMeta as Default>::default())});
  r.to_message.push(Assemble{src:"ListRootsResult", dst:"ClientMessage", f: |v, id| { let id = match id { Some(i) => Some(j::<api::RequestId>(i)?), None => None }; let x = j::<api::ListRootsResult>(v)?; Ok(<api::ListRootsResult as api::ToMessage<api::ClientMessage>>::to_message(x, id).map(|y| serde_json::json!([var_ClientMessage(&y), y])).map_err(|e| serde_json::to_value(e).unwrap())) } });
  r.try_froms.push(TryConv{src:"ResultFromClient", dst:"ListRootsResult", f: |p, v| { let x = mk_ResultFromClient(p, v)?; Ok(<api::ListRootsResult as TryFrom<api::ResultFromClient>>::try_from(x).map(|y| serde_json::to_value(y).unwrap()).map_err(|e| serde_json::to_value(e).unwrap()))}});
  r.to_message.push(Assemble{src:"ListToolsRequest", dst:"ClientMessage", f: |v, id| { let id = match id { Some(i) => Some(j::<api::RequestId>(i)?), None => None }; let x = j::<api::ListToolsRequest>(v)?; Ok(<api::ListToolsRequest as api::ToMessage<api::ClientMessage>>::to_message(x, id).map(|y| serde_json::json!([var_ClientMessage(&y), y])).map_err(|e| serde_json::to_value(e).unwrap())) } });
  r.try_froms.push(TryConv{src:"RequestFromClient", dst:"ListToolsRequest", f: |p, v| { let x = mk_RequestFromClient(p, v)?; Ok(<api::ListToolsRequest as TryFrom<api::RequestFromClient>>::try_from(x).map(|y| serde_json::to_value(y).unwrap()).map_err(|e| serde_json::to_value(e).unwrap()))}});
  r.defaults.push(DefaultFn{ty:"ListToolsRequestParams", f: || out(<api::ListToolsRequestParams as Default>::default())});
  r.to_message.push(Assemble{src:"ListToolsResult", dst:"ServerMessage", f: |v, id| { let id = match id { Some(i) => Some(j::<api::RequestId>(i)?), None => None }; let x = j::<api::ListToolsResult>(v)?; Ok(<api::ListToolsResult as api::ToMessage<api::ServerMessage>>::to_message(x, id).map(|y| serde_json::json!([var_ServerMessage(&y), y])).map_err(|e| serde_json::to_value(e).unwrap())) } });
  r.try_froms.push(TryConv{src:"ResultFromServer", dst:"ListToolsResult", f: |p, v| { let x = mk_ResultFromServer(p, v)?; Ok(<api::ListToolsResult as TryFrom<api::ResultFromServer>>::try_from(x).map(|y| serde_json::to_value(y).unwrap()).map_err(|e| serde_json::to_value(e).unwrap()))}});
  r.displays.push(DisplayFn{ty:"LoggingLevel", f: |v| Ok(j::<api::LoggingLevel>(v)?.to_string())});
  r.to_message.push(Assemble{src:"LoggingMessageNotification", dst:"ServerMessage", f: |v, id| { let id = match id { Some(i) => Some(j::<api::RequestId>(i)?), None => None }; let x = j::<api::LoggingMessageNotification>(v)?; Ok(<api::LoggingMessageNotification as api::ToMessage<api::ServerMessage>>::to_message(x, id).map(|y| serde_json::json!([var_ServerMessage(&y), y])).map_err(|e| serde_json::to_value(e).unwrap())) } });
  r.try_froms.push(TryConv{src:"NotificationFromServer", dst:"LoggingMessageNotification", f: |p, v| { let x = mk_NotificationFromServer(p, v)?; Ok(<api::LoggingMessageNotification as TryFrom<api::NotificationFromServer>>::try_from(x).map(|y| serde_json::to_value(y).unwrap()).map_err(|e| serde_json::to_value(e).unwrap()))}});
  r.froms.push(Conv{src:"CallToolRequest", dst:"MessageFromClient", f: |v| out(<api::MessageFromClient as From<api::CallToolRequest>>::from(j::<api::CallToolRequest>(v)?)), var: Some(|v| Ok(var_MessageFromClient(&<api::MessageFromClient as From<api::CallToolRequest>>::from(j::<api::CallToolRequest>(v)?))))});
  r.froms.push(Conv{src:"CancelledNotification", dst:"MessageFromClient", f: |v| out(<api::MessageFromClient as From<api::CancelledNotification>>::from(j::<api::CancelledNotification>(v)?)), var: Some(|v| Ok(var_MessageFromClient(&<api::MessageFromClient as From<api::CancelledNotification>>::from(j::<api::CancelledNotification>(v)?))))});
  r.froms.push(Conv{src:"CompleteRequest", dst:"MessageFromClient", f: |v| out(<api::MessageFromClient as From<api::CompleteRequest>>::from(j::<api::CompleteRequest>(v)?)), var: Some(|v| Ok(var_MessageFromClient(&<api::MessageFromClient as From<api::CompleteRequest>>::from(j::<api::CompleteRequest>(v)?))))});
  r.froms.push(Conv{src:"CreateMessageResult", dst:"MessageFromClient", f: |v| out(<api::MessageFromClient as From<api::CreateMessageResult>>::from(j::<api::CreateMessageResult>(v)?)), var: Some(|v| Ok(var_MessageFromClient(&<api::MessageFromClient as From<api::CreateMessageResult>>::from(j::<api::CreateMessageResult>(v)?))))});
  r.froms.push(Conv{src:"GetPromptRequest", dst:"MessageFromClient", f: |v| out(<api::MessageFromClient as From<api::GetPromptRequest>>::from(j::<api::GetPromptRequest>(v)?)), var: Some(|v| Ok(var_MessageFromClient(&<api::MessageFromClient as From<api::GetPromptRequest>>::from(j::<api::GetPromptRequest>(v)?))))});
  r.froms.push(Conv{src:"InitializeRequest", dst:"MessageFromClient", f: |v| out(<api::MessageFromClient as From<api::InitializeRequest>>::from(j::<api::InitializeRequest>(v)?)), var: Some(|v| Ok(var_MessageFromClient(&<api::MessageFromClient as From<api::InitializeRequest>>::from(j::<api::InitializeRequest>(v)?))))});
  r.froms.push(Conv{src:"InitializedNotification", dst:"MessageFromClient", f: |v| out(<api::MessageFromClient as From<api::InitializedNotification>>::from(j::<api::InitializedNotification>(v)?)), var: Some(|v| Ok(var_MessageFromClient(&<api::MessageFromClient as From<api::InitializedNotification>>::from(j::<api::InitializedNotification>(v)?))))});
  r.froms.push(Conv{src:"ListPromptsRequest", dst:"MessageFromClient", f: |v| out(<api::MessageFromClient as From<api::ListPromptsRequest>>::from(j::<api::ListPromptsRequest>(v)?)), var: Some(|v| Ok(var_MessageFromClient(&<api::MessageFromClient as From<api::ListPromptsRequest>>::from(j::<api::ListPromptsRequest>(v)?))))});
  r.froms.push(Conv{src:"ListResourceTemplatesRequest", dst:"MessageFromClient", f: |v| out(<api::MessageFromClient as From<api::ListResourceTemplatesRequest>>::from(j::<api::ListResourceTemplatesRequest>(v)?)), var: Some(|v| Ok(var_MessageFromClient(&<api::MessageFromClient as From<api::ListResourceTemplatesRequest>>::from(j::<api::ListResourceTemplatesRequest>(v)?))))});
  r.froms.push(Conv{src:"ListResourcesRequest", dst:"MessageFromClient", f: |v| out(<api::MessageFromClient as From<api::ListResourcesRequest>>::from(j::<api::ListResourcesRequest>(v)?)), var: Some(|v| Ok(var_MessageFromClient(&<api::MessageFromClient as From<api::ListResourcesRequest>>::from(j::<api::ListResourcesRequest>(v)?))))});
  r.froms.push(Conv{src:"ListRootsResult", dst:"MessageFromClient", f: |v| out(<api::MessageFromClient as From<api::ListRootsResult>>::from(j::<api::ListRootsResult>(v)?)), var: Some(|v| Ok(var_MessageFromClient(&<api::MessageFromClient as From<api::ListRootsResult>>::from(j::<api::ListRootsResult>(v)?))))});
  r.froms.push(Conv{src:"ListToolsRequest", dst:"MessageFromClient", f: |v| out(<api::MessageFromClient as From<api::ListToolsRequest>>::from(j::<api::ListToolsRequest>(v)?)), var: Some(|v| Ok(var_MessageFromClient(&<api::MessageFromClient as From<api::ListToolsRequest>>::from(j::<api::ListToolsRequest>(v)?))))});
  r.froms.push(Conv{src:"NotificationFromClient", dst:"MessageFromClient", f: |v| out(<api::MessageFromClient as From<api::NotificationFromClient>>::from(j::<api::NotificationFromClient>(v)?)), var: Some(|v| Ok(var_MessageFromClient(&<api::MessageFromClient as From<api::NotificationFromClient>>::from(j::<api::NotificationFromClient>(v)?))))});
  r.froms.push(Conv{src:"PingRequest", dst:"MessageFromClient", f: |v| out(<api::MessageFromClient as From<api::PingRequest>>::from(j::<api::PingRequest>(v)?)), var: Some(|v| Ok(var_MessageFromClient(&<api::MessageFromClient as From<api::PingRequest>>::from(j::<api::PingRequest>(v)?))))});
  r.froms.push(Conv{src:"ProgressNotification", dst:"MessageFromClient", f: |v| out(<api::MessageFromClient as From<api::ProgressNotification>>::from(j::<api::ProgressNotification>(v)?)), var: Some(|v| Ok(var_MessageFromClient(&<api::MessageFromClient as From<api::ProgressNotification>>::from(j::<api::ProgressNotification>(v)?))))});
  r.froms.push(Conv{src:"ReadResourceRequest", dst:"MessageFromClient", f: |v| out(<api::MessageFromClient as From<api::ReadResourceRequest>>::from(j::<api::ReadResourceRequest>(v)?)), var: Some(|v| Ok(var_MessageFromClient(&<api::MessageFromClient as From<api::ReadResourceRequest>>::from(j::<api::ReadResourceRequest>(v)?))))});
  r.froms.push(Conv{src:"RequestFromClient", dst:"MessageFromClient", f: |v| out(<api::MessageFromClient as From<api::RequestFromClient>>::from(j::<api::RequestFromClient>(v)?)), var: Some(|v| Ok(var_MessageFromClient(&<api::MessageFromClient as From<api::RequestFromClient>>::from(j::<api::RequestFromClient>(v)?))))});
  r.froms.push(Conv{src:"Result", dst:"MessageFromClient", f: |v| out(<api::MessageFromClient as From<api::Result>>::from(j::<api::Result>(v)?)), var: Some(|v| Ok(var_MessageFromClient(&<api::MessageFromClient as From<api::Result>>::from(j::<api::Result>(v)?))))});
  r.froms.push(Conv{src:"ResultFromClient", dst:"MessageFromClient", f: |v| out(<api::MessageFromClient as From<api::ResultFromClient>>::from(j::<api::ResultFromClient>(v)?)), var: Some(|v| Ok(var_MessageFromClient(&<api::MessageFromClient as From<api::ResultFromClient>>::from(j::<api::ResultFromClient>(v)?))))});
  r.froms.push(Conv{src:"RootsListChangedNotification", dst:"MessageFromClient", f: |v| out(<api::MessageFromClient as From<api::RootsListChangedNotification>>::from(j::<api::RootsListChangedNotification>(v)?)), var: Some(|v| Ok(var_MessageFromClient(&<api::MessageFromClient as From<api::RootsListChangedNotification>>::from(j::<api::RootsListChangedNotification>(v)?))))});
  r.froms.push(Conv{src:"RpcError", dst:"MessageFromClient", f: |v| out(<api::MessageFromClient as From<api::RpcError>>::from(j::<api::RpcError>(v)?)), var: Some(|v| Ok(var_MessageFromClient(&<api::MessageFromClient as From<api::RpcError>>::from(j::<api::RpcError>(v)?))))});
  r.froms.push(Conv{src:"SetLevelRequest", dst:"MessageFromClient", f: |v| out(<api::MessageFromClient as From<api::SetLevelRequest>>::from(j::<api::SetLevelRequest>(v)?)), var: Some(|v| Ok(var_MessageFromClient(&<api::MessageFromClient as From<api::SetLevelRequest>>::from(j::<api::SetLevelRequest>(v)?))))});
  r.froms.push(Conv{src:"SubscribeRequest", dst:"MessageFromClient", f: |v| out(<api::MessageFromClient as From<api::SubscribeRequest>>::from(j::<api::SubscribeRequest>(v)?)), var: Some(|v| Ok(var_MessageFromClient(&<api::MessageFromClient as From<api::SubscribeRequest>>::from(j::<api::SubscribeRequest>(v)?))))});
  r.froms.push(Conv{src:"UnsubscribeRequest", dst:"MessageFromClient", f: |v| out(<api::MessageFromClient as From<api::UnsubscribeRequest>>::from(j::<api::UnsubscribeRequest>(v)?)), var: Some(|v| Ok(var_MessageFromClient(&<api::MessageFromClient as From<api::UnsubscribeRequest>>::from(j::<api::UnsubscribeRequest>(v)?))))});
  r.froms.push(Conv{src:"CallToolResult", dst:"MessageFromServer", f: |v| out(<api::MessageFromServer as From<api::CallToolResult>>::from(j::<api::CallToolResult>(v)?)), var: Some(|v| Ok(var_MessageFromServer(&<api::MessageFromServer as From<api::CallToolResult>>::from(j::<api::CallToolResult>(v)?))))});
  r.froms.push(Conv{src:"CancelledNotification", dst:"MessageFromServer", f: |v| out(<api::MessageFromServer as From<api::CancelledNotification>>::from(j::<api::CancelledNotification>(v)?)), var: Some(|v| Ok(var_MessageFromServer(&<api::MessageFromServer as From<api::CancelledNotification>>::from(j::<api::CancelledNotification>(v)?))))});
  r.froms.push(Conv{src:"CompleteResult", dst:"MessageFromServer", f: |v| out(<api::MessageFromServer as From<api::CompleteResult>>::from(j::<api::CompleteResult>(v)?)), var: Some(|v| Ok(var_MessageFromServer(&<api::MessageFromServer as From<api::CompleteResult>>::from(j::<api::CompleteResult>(v)?))))});
  r.froms.push(Conv{src:"CreateMessageRequest", dst:"MessageFromServer", f: |v| out(<api::MessageFromServer as From<api::CreateMessageRequest>>::from(j::<api::CreateMessageRequest>(v)?)), var: Some(|v| Ok(var_MessageFromServer(&<api::MessageFromServer as From<api::CreateMessageRequest>>::from(j::<api::CreateMessageRequest>(v)?))))});
  r.froms.push(Conv{src:"GetPromptResult", dst:"MessageFromServer", f: |v| out(<api::MessageFromServer as From<api::GetPromptResult>>::from(j::<api::GetPromptResult>(v)?)), var: Some(|v| Ok(var_MessageFromServer(&<api::MessageFromServer as From<api::GetPromptResult>>::from(j::<api::GetPromptResult>(v)?))))});
  r.froms.push(Conv{src:"InitializeResult", dst:"MessageFromServer", f: |v| out(<api::MessageFromServer as From<api::InitializeResult>>::from(j::<api::InitializeResult>(v)?)), var: Some(|v| Ok(var_MessageFromServer(&<api::MessageFromServer as From<api::InitializeResult>>::from(j::<api::InitializeResult>(v)?))))});
  r.froms.push(Conv{src:"ListPromptsResult", dst:"MessageFromServer", f: |v| out(<api::MessageFromServer as From<api::ListPromptsResult>>::from(j::<api::ListPromptsResult>(v)?)), var: Some(|v| Ok(var_MessageFromServer(&<api::MessageFromServer as From<api::ListPromptsResult>>::from(j::<api::ListPromptsResult>(v)?))))});
  r.froms.push(Conv{src:"ListResourceTemplatesResult", dst:"MessageFromServer", f: |v| out(<api::MessageFromServer as From<api::ListResourceTemplatesResult>>::from(j::<api::ListResourceTemplatesResult>(v)?)), var: Some(|v| Ok(var_MessageFromServer(&<api::MessageFromServer as From<api::ListResourceTemplatesResult>>::from(j::<api::ListResourceTemplatesResult>(v)?))))});
  r.froms.push(Conv{src:"ListResourcesResult", dst:"MessageFromServer", f: |v| out(<api::MessageFromServer as From<api::ListResourcesResult>>::from(j::<api::ListResourcesResult>(v)?)), var: Some(|v| Ok(var_MessageFromServer(&<api::MessageFromServer as From<api::ListResourcesResult>>::from(j::<api::ListResourcesResult>(v)?))))});
  r.froms.push(Conv{src:"ListRootsRequest", dst:"MessageFromServer", f: |v| out(<api::MessageFromServer as From<api::ListRootsRequest>>::from(j::<api::ListRootsRequest>(v)?)), var: Some(|v| Ok(var_MessageFromServer(&<api::MessageFromServer as From<api::ListRootsRequest>>::from(j::<api::ListRootsRequest>(v)?))))});
  r.froms.push(Conv{src:"ListToolsResult", dst:"MessageFromServer", f: |v| out(<api::MessageFromServer as From<api::ListToolsResult>>::from(j::<api::ListToolsResult>(v)?)), var: Some(|v| Ok(var_MessageFromServer(&<api::MessageFromServer as From<api::ListToolsResult>>::from(j::<api::ListToolsResult>(v)?))))});
  r.froms.push(Conv{src:"LoggingMessageNotification", dst:"MessageFromServer", f: |v| out(<api::MessageFromServer as From<api::LoggingMessageNotification>>::from(j::<api::LoggingMessageNotification>(v)?)), var: Some(|v| Ok(var_MessageFromServer(&<api::MessageFromServer as From<api::LoggingMessageNotification>>::from(j::<api::LoggingMessageNotification>(v)?))))});
  r.froms.push(Conv{src:"NotificationFromServer", dst:"MessageFromServer", f: |v| out(<api::MessageFromServer as From<api::NotificationFromServer>>::from(j::<api::NotificationFromServer>(v)?)), var: Some(|v| Ok(var_MessageFromServer(&<api::MessageFromServer as From<api::NotificationFromServer>>::from(j::<api::NotificationFromServer>(v)?))))});
  r.froms.push(Conv{src:"PingRequest", dst:"MessageFromServer", f: |v| out(<api::MessageFromServer as From<api::PingRequest>>::from(j::<api::PingRequest>(v)?)), var: Some(|v| Ok(var_MessageFromServer(&<api::MessageFromServer as From<api::PingRequest>>::from(j::<api::PingRequest>(v)?))))});
  r.froms.push(Conv{src:"ProgressNotification", dst:"MessageFromServer", f: |v| out(<api::MessageFromServer as From<api::ProgressNotification>>::from(j::<api::ProgressNotification>(v)?)), var: Some(|v| Ok(var_MessageFromServer(&<api::MessageFromServer as From<api::ProgressNotification>>::from(j::<api::ProgressNotification>(v)?))))});
  r.froms.push(Conv{src:"PromptListChangedNotification", dst:"MessageFromServer", f: |v| out(<api::MessageFromServer as From<api::PromptListChangedNotification>>::from(j::<api::PromptListChangedNotification>(v)?)), var: Some(|v| Ok(var_MessageFromServer(&<api::MessageFromServer as From<api::PromptListChangedNotification>>::from(j::<api::PromptListChangedNotification>(v)?))))});
  r.froms.push(Conv{src:"ReadResourceResult", dst:"MessageFromServer", f: |v| out(<api::MessageFromServer as From<api::ReadResourceResult>>::from(j::<api::ReadResourceResult>(v)?)), var: Some(|v| Ok(var_MessageFromServer(&<api::MessageFromServer as From<api::ReadResourceResult>>::from(j::<api::ReadResourceResult>(v)?))))});
  r.froms.push(Conv{src:"RequestFromServer", dst:"MessageFromServer", f: |v| out(<api::MessageFromServer as From<api::RequestFromServer>>::from(j::<api::RequestFromServer>(v)?)), var: Some(|v| Ok(var_MessageFromServer(&<api::MessageFromServer as From<api::RequestFromServer>>::from(j::<api::RequestFromServer>(v)?))))});
  r.froms.push(Conv{src:"ResourceListChangedNotification", dst:"MessageFromServer", f: |v| out(<api::MessageFromServer as From<api::ResourceListChangedNotification>>::from(j::<api::ResourceListChangedNotification>(v)?)), var: Some(|v| Ok(var_MessageFromServer(&<api::MessageFromServer as From<api::ResourceListChangedNotification>>::from(j::<api::ResourceListChangedNotification>(v)?))))});
  r.froms.push(Conv{src:"ResourceUpdatedNotification", dst:"MessageFromServer", f: |v| out(<api::MessageFromServer as From<api::ResourceUpdatedNotification>>::from(j::<api::ResourceUpdatedNotification>(v)?)), var: Some(|v| Ok(var_MessageFromServer(&<api::MessageFromServer as From<api::ResourceUpdatedNotification>>::from(j::<api::ResourceUpdatedNotification>(v)?))))});
  r.froms.push(Conv{src:"Result", dst:"MessageFromServer", f: |v| out(<api::MessageFromServer as From<api::Result>>::from(j::<api::Result>(v)?)), var: Some(|v| Ok(var_MessageFromServer(&<api::MessageFromServer as From<api::Result>>::from(j::<api::Result>(v)?))))});
  r.froms.push(Conv{src:"ResultFromServer", dst:"MessageFromServer", f: |v| out(<api::MessageFromServer as From<api::ResultFromServer>>::from(j::<api::ResultFromServer>(v)?)), var: Some(|v| Ok(var_MessageFromServer(&<api::MessageFromServer as From<api::ResultFromServer>>::from(j::<api::ResultFromServer>(v)?))))});
  r.froms.push(Conv{src:"RpcError", dst:"MessageFromServer", f: |v| out(<api::MessageFromServer as From<api::RpcError>>::from(j::<api::RpcError>(v)?)), var: Some(|v| Ok(var_MessageFromServer(&<api::MessageFromServer as From<api::RpcError>>::from(j::<api::RpcError>(v)?))))});
  r.froms.push(Conv{src:"ToolListChangedNotification", dst:"MessageFromServer", f: |v| out(<api::MessageFromServer as From<api::ToolListChangedNotification>>::from(j::<api::ToolListChangedNotification>(v)?)), var: Some(|v| Ok(var_MessageFromServer(&<api::MessageFromServer as From<api::ToolListChangedNotification>>::from(j::<api::ToolListChangedNotification>(v)?))))});
  r.froms.push(Conv{src:"MessageFromClient", dst:"MessagesFromClient", f: |v| out(<api::MessagesFromClient as From<api::MessageFromClient>>::from(j::<api::MessageFromClient>(v)?)), var: Some(|v| Ok(var_MessagesFromClient(&<api::MessagesFromClient as From<api::MessageFromClient>>::from(j::<api::MessageFromClient>(v)?))))});
  r.froms.push(Conv{src:"Vec<MessageFromClient>", dst:"MessagesFromClient", f: |v| out(<api::MessagesFromClient as From<Vec<api::MessageFromClient>>>::from(j::<Vec<api::MessageFromClient>>(v)?)), var: Some(|v| Ok(var_MessagesFromClient(&<api::MessagesFromClient as From<Vec<api::MessageFromClient>>>::from(j::<Vec<api::MessageFromClient>>(v)?))))});
  r.froms.push(Conv{src:"MessageFromServer", dst:"MessagesFromServer", f: |v| out(<api::MessagesFromServer as From<api::MessageFromServer>>::from(j::<api::MessageFromServer>(v)?)), var: Some(|v| Ok(var_MessagesFromServer(&<api::MessagesFromServer as From<api::MessageFromServer>>::from(j::<api::MessageFromServer>(v)?))))});
  r.froms.push(Conv{src:"Vec<MessageFromServer>", dst:"MessagesFromServer", f: |v| out(<api::MessagesFromServer as From<Vec<api::MessageFromServer>>>::from(j::<Vec<api::MessageFromServer>>(v)?)), var: Some(|v| Ok(var_MessagesFromServer(&<api::MessagesFromServer as From<Vec<api::MessageFromServer>>>::from(j::<Vec<api::MessageFromServer>>(v)?))))});
  r.defaults.push(DefaultFn{ty:"ModelHint", f: || out(<api::ModelHint as Default>::default())});
  r.defaults.push(DefaultFn{ty:"ModelPreferences", f: || out(<api::ModelPreferences as Default>::default())});
  r.froms.push(Conv{src:"CancelledNotification", dst:"NotificationFromClient", f: |v| out(<api::NotificationFromClient as From<api::CancelledNotification>>::from(j::<api::CancelledNotification>(v)?)), var: Some(|v| Ok(var_NotificationFromClient(&<api::NotificationFromClient as From<api::CancelledNotification>>::from(j::<api::CancelledNotification>(v)?))))});
  r.froms.push(Conv{src:"InitializedNotification", dst:"NotificationFromClient", f: |v| out(<api::NotificationFromClient as From<api::InitializedNotification>>::from(j::<api::InitializedNotification>(v)?)), var: Some(|v| Ok(var_NotificationFromClient(&<api::NotificationFromClient as From<api::InitializedNotification>>::from(j::<api::InitializedNotification>(v)?))))});
  r.froms.push(Conv{src:"ProgressNotification", dst:"NotificationFromClient", f: |v| out(<api::NotificationFromClient as From<api::ProgressNotification>>::from(j::<api::ProgressNotification>(v)?)), var: Some(|v| Ok(var_NotificationFromClient(&<api::NotificationFromClient as From<api::ProgressNotification>>::from(j::<api::ProgressNotification>(v)?))))});
  r.froms.push(Conv{src:"RootsListChangedNotification", dst:"NotificationFromClient", f: |v| out(<api::NotificationFromClient as From<api::RootsListChangedNotification>>::from(j::<api::RootsListChangedNotification>(v)?)), var: Some(|v| Ok(var_NotificationFromClient(&<api::NotificationFromClient as From<api::RootsListChangedNotification>>::from(j::<api::RootsListChangedNotification>(v)?))))});
  r.froms.push(Conv{src:"CancelledNotification", dst:"NotificationFromServer", f: |v| out(<api::NotificationFromServer as From<api::CancelledNotification>>::from(j::<api::CancelledNotification>(v)?)), var: Some(|v| Ok(var_NotificationFromServer(&<api::NotificationFromServer as From<api::CancelledNotification>>::from(j::<api::CancelledNotification>(v)?))))});
  r.froms.push(Conv{src:"LoggingMessageNotification", dst:"NotificationFromServer", f: |v| out(<api::NotificationFromServer as From<api::LoggingMessageNotification>>::from(j::<api::LoggingMessageNotification>(v)?)), var: Some(|v| Ok(var_NotificationFromServer(&<api::NotificationFromServer as From<api::LoggingMessageNotification>>::from(j::<api::LoggingMessageNotification>(v)?))))});
  r.froms.push(Conv{src:"ProgressNotification", dst:"NotificationFromServer", f: |v| out(<api::NotificationFromServer as From<api::ProgressNotification>>::from(j::<api::ProgressNotification>(v)?)), var: Some(|v| Ok(var_NotificationFromServer(&<api::NotificationFromServer as From<api::ProgressNotification>>::from(j::<api::ProgressNotification>(v)?))))});
  r.froms.push(Conv{src:"PromptListChangedNotification", dst:"NotificationFromServer", f: |v| out(<api::NotificationFromServer as From<api::PromptListChangedNotification>>::from(j::<api::PromptListChangedNotification>(v)?)), var: Some(|v| Ok(var_NotificationFromServer(&<api::NotificationFromServer as From<api::PromptListChangedNotification>>::from(j::<api::PromptListChangedNotification>(v)?))))});
  r.froms.push(Conv{src:"ResourceListChangedNotification", dst:"NotificationFromServer", f: |v| out(<api::NotificationFromServer as From<api::ResourceListChangedNotification>>::from(j::<api::ResourceListChangedNotification>(v)?)), var: Some(|v| Ok(var_NotificationFromServer(&<api::NotificationFromServer as From<api::ResourceListChangedNotification>>::from(j::<api::ResourceListChangedNotification>(v)?))))});
  r.froms.push(Conv{src:"ResourceUpdatedNotification", dst:"NotificationFromServer", f: |v| out(<api::NotificationFromServer as From<api::ResourceUpdatedNotification>>::from(j::<api::ResourceUpdatedNotification>(v)?)), var: Some(|v| Ok(var_NotificationFromServer(&<api::NotificationFromServer as From<api::ResourceUpdatedNotification>>::from(j::<api::ResourceUpdatedNotification>(v)?))))});
  r.froms.push(Conv{src:"ToolListChangedNotification", dst:"NotificationFromServer", f: |v| out(<api::NotificationFromServer as From<api::ToolListChangedNotification>>::from(j::<api::ToolListChangedNotification>(v)?)), var: Some(|v| Ok(var_NotificationFromServer(&<api::NotificationFromServer as From<api::ToolListChangedNotification>>::from(j::<api::ToolListChangedNotification>(v)?))))});
  r.defaults.push(DefaultFn{ty:"NotificationParams", f: || out(<api::NotificationParams as Default>::default())});
  r.defaults.push(DefaultFn{ty:"PaginatedRequestParams", f: || out(<api::PaginatedRequestParams as Default>::default())});
  r.defaults.push(DefaultFn{ty:"PaginatedResult", f: || out(<api::PaginatedResult as Default>::default())});
  r.to_message.push(Assemble{src:"PingRequest", dst:"ClientMessage", f: |v, id| { let id = match id { Some(i) => Some(j::<api::RequestId>(i)?), None => None }; let x = j::<api::PingRequest>(v)?; Ok(<api::PingRequest as api::ToMessage<api::ClientMessage>>::to_message(x, id).map(|y| serde_json::json!([var_ClientMessage(&y), y])).map_err(|e| serde_json::to_value(e).unwrap())) } });
  r.to_message.push(Assemble{src:"PingRequest", dst:"ServerMessage", f: |v, id| { let id = match id { Some(i) => Some(j::<api::RequestId>(i)?), None => None }; let x = j::<api::PingRequest>(v)?; Ok(<api::PingRequest as api::ToMessage<api::ServerMessage>>::to_message(x, id).map(|y| serde_json::json!([var_ServerMessage(&y), y])).map_err(|e| serde_json::to_value(e).unwrap())) } });
  r.try_froms.push(TryConv{src:"RequestFromClient", dst:"PingRequest", f: |p, v| { let x = mk_RequestFromClient(p, v)?; Ok(<api::PingRequest as TryFrom<api::RequestFromClient>>::try_from(x).map(|y| serde_json::to_value(y).unwrap()).map_err(|e| serde_json::to_value(e).unwrap()))}});
  r.try_froms.push(TryConv{src:"RequestFromServer", dst:"PingRequest", f: |p, v| { let x = mk_RequestFromServer(p, v)?; Ok(<api::PingRequest as TryFrom<api::RequestFromServer>>::try_from(x).map(|y| serde_json::to_value(y).unwrap()).map_err(|e| serde_json::to_value(e).unwrap()))}});
  r.defaults.push(DefaultFn{ty:"PingRequestParams", f: || out(<api::PingRequestParams as Default>::default())});
  r.defaults.push(DefaultFn{ty:"PingRequestParamsMeta", f: || out(<api::PingRequestParamsMeta as Default>::default())});
  r.to_message.push(Assemble{src:"ProgressNotification", dst:"ClientMessage", f: |v, id| { let id = match id { Some(i) => Some(j::<api::RequestId>(i)?), None => None }; let x = j::<api::ProgressNotification>(v)?; Ok(<api::ProgressNotification as api::ToMessage<api::ClientMessage>>::to_message(x, id).map(|y| serde_json::json!([var_ClientMessage(&y), y])).map_err(|e| serde_json::to_value(e).unwrap())) } });
  r.to_message.push(Assemble{src:"ProgressNotification", dst:"ServerMessage", f: |v, id| { let id = match id { Some(i) => Some(j::<api::RequestId>(i)?), None => None }; let x = j::<api::ProgressNotification>(v)?; Ok(<api::ProgressNotification as api::ToMessage<api::ServerMessage>>::to_message(x, id).map(|y| serde_json::json!([var_ServerMessage(&y), y])).map_err(|e| serde_json::to_value(e).unwrap())) } });
  r.try_froms.push(TryConv{src:"NotificationFromClient", dst:"ProgressNotification", f: |p, v| { let x = mk_NotificationFromClient(p, v)?; Ok(<api::ProgressNotification as TryFrom<api::NotificationFromClient>>::try_from(x).map(|y| serde_json::to_value(y).unwrap()).map_err(|e| serde_json::to_value(e).unwrap()))}});
  r.try_froms.push(TryConv{src:"NotificationFromServer", dst:"ProgressNotification", f: |p, v| { let x = mk_NotificationFromServer(p, v)?; Ok(<api::ProgressNotification as TryFrom<api::NotificationFromServer>>::try_from(x).map(|y| serde_json::to_value(y).unwrap()).map_err(|e| serde_json::to_value(e).unwrap()))}});
  r.froms.push(Conv{src:"i64", dst:"ProgressToken", f: |v| out(from_as::<_, _, api::ProgressToken>(api::ProgressToken::Integer, v)?), var: Some(|v| Ok(var_ProgressToken(&from_as::<_, _, api::ProgressToken>(api::ProgressToken::Integer, v)?)))});
  r.to_message.push(Assemble{src:"PromptListChangedNotification", dst:"ServerMessage", f: |v, id| { let id = match id { Some(i) => Some(j::<api::RequestId>(i)?), None => None }; let x = j::<api::PromptListChangedNotification>(v)?; Ok(<api::PromptListChangedNotification as api::ToMessage<api::ServerMessage>>::to_message(x, id).map(|y| serde_json::json!([var_ServerMessage(&y), y])).map_err(|e| serde_json::to_value(e).unwrap())) } });
  r.try_froms.push(TryConv{src:"NotificationFromServer", dst:"PromptListChangedNotification", f: |p, v| { let x = mk_NotificationFromServer(p, v)?; Ok(<api::PromptListChangedNotification as TryFrom<api::NotificationFromServer>>::try_from(x).map(|y| serde_json::to_value(y).unwrap()).map_err(|e| serde_json::to_value(e).unwrap()))}});
  r.defaults.push(DefaultFn{ty:"PromptListChangedNotificationParams", f: || out(<api::PromptListChangedNotificationParams as Default>::default())});
  r.froms.push(Conv{src:"AudioContent", dst:"PromptMessageContent", f: |v| out(<api::PromptMessageContent as From<api::AudioContent>>::from(j::<api::AudioContent>(v)?)), var: Some(|v| Ok(var_PromptMessageContent(&<api::PromptMessageContent as From<api::AudioContent>>::from(j::<api::AudioContent>(v)?))))});
  r.froms.push(Conv{src:"EmbeddedResource", dst:"PromptMessageContent", f: |v| out(<api::PromptMessageContent as From<api::EmbeddedResource>>::from(j::<api::EmbeddedResource>(v)?)), var: Some(|v| Ok(var_PromptMessageContent(&<api::PromptMessageContent as From<api::EmbeddedResource>>::from(j::<api::EmbeddedResource>(v)?))))});
  r.froms.push(Conv{src:"ImageContent", dst:"PromptMessageContent", f: |v| out(<api::PromptMessageContent as From<api::ImageContent>>::from(j::<api::ImageContent>(v)?)), var: Some(|v| Ok(var_PromptMessageContent(&<api::PromptMessageContent as From<api::ImageContent>>::from(j::<api::ImageContent>(v)?))))});
  r.froms.push(Conv{src:"TextContent", dst:"PromptMessageContent", f: |v| out(<api::PromptMessageContent as From<api::TextContent>>::from(j::<api::TextContent>(v)?)), var: Some(|v| Ok(var_PromptMessageContent(&<api::PromptMessageContent as From<api::TextContent>>::from(j::<api::TextContent>(v)?))))});
  r.froms.push(Conv{src:"BlobResourceContents", dst:"ReadResourceContent", f: |v| out(<api::ReadResourceContent as From<api::BlobResourceContents>>::from(j::<api::BlobResourceContents>(v)?)), var: Some(|v| Ok(var_ReadResourceContent(&<api::ReadResourceContent as From<api::BlobResourceContents>>::from(j::<api::BlobResourceContents>(v)?))))});
  r.froms.push(Conv{src:"TextResourceContents", dst:"ReadResourceContent", f: |v| out(<api::ReadResourceContent as From<api::TextResourceContents>>::from(j::<api::TextResourceContents>(v)?)), var: Some(|v| Ok(var_ReadResourceContent(&<api::ReadResourceContent as From<api::TextResourceContents>>::from(j::<api::TextResourceContents>(v)?))))});
  r.to_message.push(Assemble{src:"ReadResourceRequest", dst:"ClientMessage", f: |v, id| { let id = match id { Some(i) => Some(j::<api::RequestId>(i)?), None => None }; let x = j::<api::ReadResourceRequest>(v)?; Ok(<api::ReadResourceRequest as api::ToMessage<api::ClientMessage>>::to_message(x, id).map(|y| serde_json::json!([var_ClientMessage(&y), y])).map_err(|e| serde_json::to_value(e).unwrap())) } });
  r.try_froms.push(TryConv{src:"RequestFromClient", dst:"ReadResourceRequest", f: |p, v| { let x = mk_RequestFromClient(p, v)?; Ok(<api::ReadResourceRequest as TryFrom<api::RequestFromClient>>::try_from(x).map(|y| serde_json::to_value(y).unwrap()).map_err(|e| serde_json::to_value(e).unwrap()))}});
  r.to_message.push(Assemble{src:"ReadResourceResult", dst:"ServerMessage", f: |v, id| { let id = match id { Some(i) => Some(j::<api::RequestId>(i)?), None => None }; let x = j::<api::ReadResourceResult>(v)?; Ok(<api::ReadResourceResult as api::ToMessage<api::ServerMessage>>::to_message(x, id).map(|y| serde_json::json!([var_ServerMessage(&y), y])).map_err(|e| serde_json::to_value(e).unwrap())) } });
  r.try_froms.push(TryConv{src:"ResultFromServer", dst:"ReadResourceResult", f: |p, v| { let x = mk_ResultFromServer(p, v)?; Ok(<api::ReadResourceResult as TryFrom<api::ResultFromServer>>::try_from(x).map(|y| serde_json::to_value(y).unwrap()).map_err(|e| serde_json::to_value(e).unwrap()))}});
  r.froms.push(Conv{src:"CallToolRequest", dst:"RequestFromClient", f: |v| out(<api::RequestFromClient as From<api::CallToolRequest>>::from(j::<api::CallToolRequest>(v)?)), var: Some(|v| Ok(var_RequestFromClient(&<api::RequestFromClient as From<api::CallToolRequest>>::from(j::<api::CallToolRequest>(v)?))))});
  r.froms.push(Conv{src:"ClientRequest", dst:"RequestFromClient", f: |v| out(<api::RequestFromClient as From<api::ClientRequest>>::from(j::<api::ClientRequest>(v)?)), var: Some(|v| Ok(var_RequestFromClient(&<api::RequestFromClient as From<api::ClientRequest>>::from(j::<api::ClientRequest>(v)?))))});
  r.froms.push(Conv{src:"CompleteRequest", dst:"RequestFromClient", f: |v| out(<api::RequestFromClient as From<api::CompleteRequest>>::from(j::<api::CompleteRequest>(v)?)), var: Some(|v| Ok(var_RequestFromClient(&<api::RequestFromClient as From<api::CompleteRequest>>::from(j::<api::CompleteRequest>(v)?))))});
  r.froms.push(Conv{src:"GetPromptRequest", dst:"RequestFromClient", f: |v| out(<api::RequestFromClient as From<api::GetPromptRequest>>::from(j::<api::GetPromptRequest>(v)?)), var: Some(|v| Ok(var_RequestFromClient(&<api::RequestFromClient as From<api::GetPromptRequest>>::from(j::<api::GetPromptRequest>(v)?))))});
  r.froms.push(Conv{src:"InitializeRequest", dst:"RequestFromClient", f: |v| out(<api::RequestFromClient as From<api::InitializeRequest>>::from(j::<api::InitializeRequest>(v)?)), var: Some(|v| Ok(var_RequestFromClient(&<api::RequestFromClient as From<api::InitializeRequest>>::from(j::<api::InitializeRequest>(v)?))))});
  r.froms.push(Conv{src:"ListPromptsRequest", dst:"RequestFromClient", f: |v| out(<api::RequestFromClient as From<api::ListPromptsRequest>>::from(j::<api::ListPromptsRequest>(v)?)), var: Some(|v| Ok(var_RequestFromClient(&<api::RequestFromClient as From<api::ListPromptsRequest>>::from(j::<api::ListPromptsRequest>(v)?))))});
  r.froms.push(Conv{src:"ListResourceTemplatesRequest", dst:"RequestFromClient", f: |v| out(<api::RequestFromClient as From<api::ListResourceTemplatesRequest>>::from(j::<api::ListResourceTemplatesRequest>(v)?)), var: Some(|v| Ok(var_RequestFromClient(&<api::RequestFromClient as From<api::ListResourceTemplatesRequest>>::from(j::<api::ListResourceTemplatesRequest>(v)?))))});
  r.froms.push(Conv{src:"ListResourcesRequest", dst:"RequestFromClient", f: |v| out(<api::RequestFromClient as From<api::ListResourcesRequest>>::from(j::<api::ListResourcesRequest>(v)?)), var: Some(|v| Ok(var_RequestFromClient(&<api::RequestFromClient as From<api::ListResourcesRequest>>::from(j::<api::ListResourcesRequest>(v)?))))});
  r.froms.push(Conv{src:"ListToolsRequest", dst:"RequestFromClient", f: |v| out(<api::RequestFromClient as From<api::ListToolsRequest>>::from(j::<api::ListToolsRequest>(v)?)), var: Some(|v| Ok(var_RequestFromClient(&<api::RequestFromClient as From<api::ListToolsRequest>>::from(j::<api::ListToolsRequest>(v)?))))});
  r.froms.push(Conv{src:"PingRequest", dst:"RequestFromClient", f: |v| out(<api::RequestFromClient as From<api::PingRequest>>::from(j::<api::PingRequest>(v)?)), var: Some(|v| Ok(var_RequestFromClient(&<api::RequestFromClient as From<api::PingRequest>>::from(j::<api::PingRequest>(v)?))))});
  r.froms.push(Conv{src:"ReadResourceRequest", dst:"RequestFromClient", f: |v| out(<api::RequestFromClient as From<api::ReadResourceRequest>>::from(j::<api::ReadResourceRequest>(v)?)), var: Some(|v| Ok(var_RequestFromClient(&<api::RequestFromClient as From<api::ReadResourceRequest>>::from(j::<api::ReadResourceRequest>(v)?))))});
  r.froms.push(Conv{src:"SetLevelRequest", dst:"RequestFromClient", f: |v| out(<api::RequestFromClient as From<api::SetLevelRequest>>::from(j::<api::SetLevelRequest>(v)?)), var: Some(|v| Ok(var_RequestFromClient(&<api::RequestFromClient as From<api::SetLevelRequest>>::from(j::<api::SetLevelRequest>(v)?))))});
  r.froms.push(Conv{src:"SubscribeRequest", dst:"RequestFromClient", f: |v| out(<api::RequestFromClient as From<api::SubscribeRequest>>::from(j::<api::SubscribeRequest>(v)?)), var: Some(|v| Ok(var_RequestFromClient(&<api::RequestFromClient as From<api::SubscribeRequest>>::from(j::<api::SubscribeRequest>(v)?))))});
  r.froms.push(Conv{src:"UnsubscribeRequest", dst:"RequestFromClient", f: |v| out(<api::RequestFromClient as From<api::UnsubscribeRequest>>::from(j::<api::UnsubscribeRequest>(v)?)), var: Some(|v| Ok(var_RequestFromClient(&<api::RequestFromClient as From<api::UnsubscribeRequest>>::from(j::<api::UnsubscribeRequest>(v)?))))});
  r.froms.push(Conv{src:"Value", dst:"RequestFromClient", f: |v| out(<api::RequestFromClient as From<Value>>::from(j::<Value>(v)?)), var: Some(|v| Ok(var_RequestFromClient(&<api::RequestFromClient as From<Value>>::from(j::<Value>(v)?))))});
  r.froms.push(Conv{src:"CreateMessageRequest", dst:"RequestFromServer", f: |v| out(<api::RequestFromServer as From<api::CreateMessageRequest>>::from(j::<api::CreateMessageRequest>(v)?)), var: Some(|v| Ok(var_RequestFromServer(&<api::RequestFromServer as From<api::CreateMessageRequest>>::from(j::<api::CreateMessageRequest>(v)?))))});
  r.froms.push(Conv{src:"ListRootsRequest", dst:"RequestFromServer", f: |v| out(<api::RequestFromServer as From<api::ListRootsRequest>>::from(j::<api::ListRootsRequest>(v)?)), var: Some(|v| Ok(var_RequestFromServer(&<api::RequestFromServer as From<api::ListRootsRequest>>::from(j::<api::ListRootsRequest>(v)?))))});
  r.froms.push(Conv{src:"PingRequest", dst:"RequestFromServer", f: |v| out(<api::RequestFromServer as From<api::PingRequest>>::from(j::<api::PingRequest>(v)?)), var: Some(|v| Ok(var_RequestFromServer(&<api::RequestFromServer as From<api::PingRequest>>::from(j::<api::PingRequest>(v)?))))});
  r.froms.push(Conv{src:"ServerRequest", dst:"RequestFromServer", f: |v| out(<api::RequestFromServer as From<api::ServerRequest>>::from(j::<api::ServerRequest>(v)?)), var: Some(|v| Ok(var_RequestFromServer(&<api::RequestFromServer as From<api::ServerRequest>>::from(j::<api::ServerRequest>(v)?))))});
  r.froms.push(Conv{src:"Value", dst:"RequestFromServer", f: |v| out(<api::RequestFromServer as From<Value>>::from(j::<Value>(v)?)), var: Some(|v| Ok(var_RequestFromServer(&<api::RequestFromServer as From<Value>>::from(j::<Value>(v)?))))});
  r.displays.push(DisplayFn{ty:"RequestId", f: |v| Ok(j::<api::RequestId>(v)?.to_string())});
  r.froms.push(Conv{src:"i64", dst:"RequestId", f: |v| out(from_as::<_, _, api::RequestId>(api::RequestId::Integer, v)?), var: Some(|v| Ok(var_RequestId(&from_as::<_, _, api::RequestId>(api::RequestId::Integer, v)?)))});
  r.defaults.push(DefaultFn{ty:"RequestParams", f: || out(<api::RequestParams as Default>::default())});
  r.defaults.push(DefaultFn{ty:"RequestParamsMeta", f: || out(<api::RequestParamsMeta as Default>::default())});
  r.to_message.push(Assemble{src:"ResourceListChangedNotification", dst:"ServerMessage", f: |v, id| { let id = match id { Some(i) => Some(j::<api::RequestId>(i)?), None => None }; let x = j::<api::ResourceListChangedNotification>(v)?; Ok(<api::ResourceListChangedNotification as api::ToMessage<api::ServerMessage>>::to_message(x, id).map(|y| serde_json::json!([var_ServerMessage(&y), y])).map_err(|e| serde_json::to_value(e).unwrap())) } });
  r.try_froms.push(TryConv{src:"NotificationFromServer", dst:"ResourceListChangedNotification", f: |p, v| { let x = mk_NotificationFromServer(p, v)?; Ok(<api::ResourceListChangedNotification as TryFrom<api::NotificationFromServer>>::try_from(x).map(|y| serde_json::to_value(y).unwrap()).map_err(|e| serde_json::to_value(e).unwrap()))}});
  r.defaults.push(DefaultFn{ty:"ResourceListChangedNotificationParams", f: || out(<api::ResourceListChangedNotificationParams as Default>::default())});
  r.to_message.push(Assemble{src:"ResourceUpdatedNotification", dst:"ServerMessage", f: |v, id| { let id = match id { Some(i) => Some(j::<api::RequestId>(i)?), None => None }; let x = j::<api::ResourceUpdatedNotification>(v)?; Ok(<api::ResourceUpdatedNotification as api::ToMessage<api::ServerMessage>>::to_message(x, id).map(|y| serde_json::json!([var_ServerMessage(&y), y])).map_err(|e| serde_json::to_value(e).unwrap())) } });
  r.try_froms.push(TryConv{src:"NotificationFromServer", dst:"ResourceUpdatedNotification", f: |p, v| { let x = mk_NotificationFromServer(p, v)?; Ok(<api::ResourceUpdatedNotification as TryFrom<api::NotificationFromServer>>::try_from(x).map(|y| serde_json::to_value(y).unwrap()).map_err(|e| serde_json::to_value(e).unwrap()))}});
  r.defaults.push(DefaultFn{ty:"Result", f: || out(<api::Result as Default>::default())});
  r.to_message.push(Assemble{src:"Result", dst:"ClientMessage", f: |v, id| { let id = match id { Some(i) => Some(j::<api::RequestId>(i)?), None => None }; let x = j::<api::Result>(v)?; Ok(<api::Result as api::ToMessage<api::ClientMessage>>::to_message(x, id).map(|y| serde_json::json!([var_ClientMessage(&y), y])).map_err(|e| serde_json::to_value(e).unwrap())) } });
  r.to_message.push(Assemble{src:"Result", dst:"ServerMessage", f: |v, id| { let id = match id { Some(i) => Some(j::<api::RequestId>(i)?), None => None }; let x = j::<api::Result>(v)?; Ok(<api::Result as api::ToMessage<api::ServerMessage>>::to_message(x, id).map(|y| serde_json::json!([var_ServerMessage(&y), y])).map_err(|e| serde_json::to_value(e).unwrap())) } });
  r.try_froms.push(TryConv{src:"ResultFromClient", dst:"Result", f: |p, v| { let x = mk_ResultFromClient(p, v)?; Ok(<api::Result as TryFrom<api::ResultFromClient>>::try_from(x).map(|y| serde_json::to_value(y).unwrap()).map_err(|e| serde_json::to_value(e).unwrap()))}});
  r.try_froms.push(TryConv{src:"ResultFromServer", dst:"Result", f: |p, v| { let x = mk_ResultFromServer(p, v)?; Ok(<api::Result as TryFrom<api::ResultFromServer>>::try_from(x).map(|y| serde_json::to_value(y).unwrap()).map_err(|e| serde_json::to_value(e).unwrap()))}});
  r.froms.push(Conv{src:"ClientResult", dst:"ResultFromClient", f: |v| out(<api::ResultFromClient as From<api::ClientResult>>::from(j::<api::ClientResult>(v)?)), var: Some(|v| Ok(var_ResultFromClient(&<api::ResultFromClient as From<api::ClientResult>>::from(j::<api::ClientResult>(v)?))))});
  r.froms.push(Conv{src:"CreateMessageResult", dst:"ResultFromClient", f: |v| out(<api::ResultFromClient as From<api::CreateMessageResult>>::from(j::<api::CreateMessageResult>(v)?)), var: Some(|v| Ok(var_ResultFromClient(&<api::ResultFromClient as From<api::CreateMessageResult>>::from(j::<api::CreateMessageResult>(v)?))))});
  r.froms.push(Conv{src:"ListRootsResult", dst:"ResultFromClient", f: |v| out(<api::ResultFromClient as From<api::ListRootsResult>>::from(j::<api::ListRootsResult>(v)?)), var: Some(|v| Ok(var_ResultFromClient(&<api::ResultFromClient as From<api::ListRootsResult>>::from(j::<api::ListRootsResult>(v)?))))});
  r.froms.push(Conv{src:"Result", dst:"ResultFromClient", f: |v| out(<api::ResultFromClient as From<api::Result>>::from(j::<api::Result>(v)?)), var: Some(|v| Ok(var_ResultFromClient(&<api::ResultFromClient as From<api::Result>>::from(j::<api::Result>(v)?))))});
  r.froms.push(Conv{src:"Value", dst:"ResultFromClient", f: |v| out(<api::ResultFromClient as From<Value>>::from(j::<Value>(v)?)), var: Some(|v| Ok(var_ResultFromClient(&<api::ResultFromClient as From<Value>>::from(j::<Value>(v)?))))});
  r.froms.push(Conv{src:"CallToolResult", dst:"ResultFromServer", f: |v| out(<api::ResultFromServer as From<api::CallToolResult>>::from(j::<api::CallToolResult>(v)?)), var: Some(|v| Ok(var_ResultFromServer(&<api::ResultFromServer as From<api::CallToolResult>>::from(j::<api::CallToolResult>(v)?))))});
  r.froms.push(Conv{src:"CompleteResult", dst:"ResultFromServer", f: |v| out(<api::ResultFromServer as From<api::CompleteResult>>::from(j::<api::CompleteResult>(v)?)), var: Some(|v| Ok(var_ResultFromServer(&<api::ResultFromServer as From<api::CompleteResult>>::from(j::<api::CompleteResult>(v)?))))});
  r.froms.push(Conv{src:"GetPromptResult", dst:"ResultFromServer", f: |v| out(<api::ResultFromServer as From<api::GetPromptResult>>::from(j::<api::GetPromptResult>(v)?)), var: Some(|v| Ok(var_ResultFromServer(&<api::ResultFromServer as From<api::GetPromptResult>>::from(j::<api::GetPromptResult>(v)?))))});
  r.froms.push(Conv{src:"InitializeResult", dst:"ResultFromServer", f: |v| out(<api::ResultFromServer as From<api::InitializeResult>>::from(j::<api::InitializeResult>(v)?)), var: Some(|v| Ok(var_ResultFromServer(&<api::ResultFromServer as From<api::InitializeResult>>::from(j::<api::InitializeResult>(v)?))))});
  r.froms.push(Conv{src:"ListPromptsResult", dst:"ResultFromServer", f: |v| out(<api::ResultFromServer as From<api::ListPromptsResult>>::from(j::<api::ListPromptsResult>(v)?)), var: Some(|v| Ok(var_ResultFromServer(&<api::ResultFromServer as From<api::ListPromptsResult>>::from(j::<api::ListPromptsResult>(v)?))))});
  r.froms.push(Conv{src:"ListResourceTemplatesResult", dst:"ResultFromServer", f: |v| out(<api::ResultFromServer as From<api::ListResourceTemplatesResult>>::from(j::<api::ListResourceTemplatesResult>(v)?)), var: Some(|v| Ok(var_ResultFromServer(&<api::ResultFromServer as From<api::ListResourceTemplatesResult>>::from(j::<api::ListResourceTemplatesResult>(v)?))))});
  r.froms.push(Conv{src:"ListResourcesResult", dst:"ResultFromServer", f: |v| out(<api::ResultFromServer as From<api::ListResourcesResult>>::from(j::<api::ListResourcesResult>(v)?)), var: Some(|v| Ok(var_ResultFromServer(&<api::ResultFromServer as From<api::ListResourcesResult>>::from(j::<api::ListResourcesResult>(v)?))))});
  r.froms.push(Conv{src:"ListToolsResult", dst:"ResultFromServer", f: |v| out(<api::ResultFromServer as From<api::ListToolsResult>>::from(j::<api::ListToolsResult>(v)?)), var: Some(|v| Ok(var_ResultFromServer(&<api::ResultFromServer as From<api::ListToolsResult>>::from(j::<api::ListToolsResult>(v)?))))});
  r.froms.push(Conv{src:"ReadResourceResult", dst:"ResultFromServer", f: |v| out(<api::ResultFromServer as From<api::ReadResourceResult>>::from(j::<api::ReadResourceResult>(v)?)), var: Some(|v| Ok(var_ResultFromServer(&<api::ResultFromServer as From<api::ReadResourceResult>>::from(j::<api::ReadResourceResult>(v)?))))});
  r.froms.push(Conv{src:"Result", dst:"ResultFromServer", f: |v| out(<api::ResultFromServer as From<api::Result>>::from(j::<api::Result>(v)?)), var: Some(|v| Ok(var_ResultFromServer(&<api::ResultFromServer as From<api::Result>>::from(j::<api::Result>(v)?))))});
  r.froms.push(Conv{src:"ServerResult", dst:"ResultFromServer", f: |v| out(<api::ResultFromServer as From<api::ServerResult>>::from(j::<api::ServerResult>(v)?)), var: Some(|v| Ok(var_ResultFromServer(&<api::ResultFromServer as From<api::ServerResult>>::from(j::<api::ServerResult>(v)?))))});
  r.froms.push(Conv{src:"Value", dst:"ResultFromServer", f: |v| out(<api::ResultFromServer as From<Value>>::from(j::<Value>(v)?)), var: Some(|v| Ok(var_ResultFromServer(&<api::ResultFromServer as From<Value>>::from(j::<Value>(v)?))))});
  r.displays.push(DisplayFn{ty:"Role", f: |v| Ok(j::<api::Role>(v)?.to_string())});
  r.to_message.push(Assemble{src:"RootsListChangedNotification", dst:"ClientMessage", f: |v, id| { let id = match id { Some(i) => Some(j::<api::RequestId>(i)?), None => None }; let x = j::<api::RootsListChangedNotification>(v)?; Ok(<api::RootsListChangedNotification as api::ToMessage<api::ClientMessage>>::to_message(x, id).map(|y| serde_json::json!([var_ClientMessage(&y), y])).map_err(|e| serde_json::to_value(e).unwrap())) } });
  r.try_froms.push(TryConv{src:"NotificationFromClient", dst:"RootsListChangedNotification", f: |p, v| { let x = mk_NotificationFromClient(p, v)?; Ok(<api::RootsListChangedNotification as TryFrom<api::NotificationFromClient>>::try_from(x).map(|y| serde_json::to_value(y).unwrap()).map_err(|e| serde_json::to_value(e).unwrap()))}});
  r.defaults.push(DefaultFn{ty:"RootsListChangedNotificationParams", f: || out(<api::RootsListChangedNotificationParams as Default>::default())});
  r.displays.push(DisplayFn{ty:"RpcError", f: |v| Ok(j::<api::RpcError>(v)?.to_string())});
  r.fromstrs.push(FromStrFn{ty:"RpcError", f: |s| s.parse::<api::RpcError>().map(|x| serde_json::to_value(x).unwrap()).map_err(|e| serde_json::to_string(&e).unwrap())});
  r.froms.push(Conv{src:"AudioContent", dst:"SamplingMessageContent", f: |v| out(<api::SamplingMessageContent as From<api::AudioContent>>::from(j::<api::AudioContent>(v)?)), var: Some(|v| Ok(var_SamplingMessageContent(&<api::SamplingMessageContent as From<api::AudioContent>>::from(j::<api::AudioContent>(v)?))))});
  r.froms.push(Conv{src:"ImageContent", dst:"SamplingMessageContent", f: |v| out(<api::SamplingMessageContent as From<api::ImageContent>>::from(j::<api::ImageContent>(v)?)), var: Some(|v| Ok(var_SamplingMessageContent(&<api::SamplingMessageContent as From<api::ImageContent>>::from(j::<api::ImageContent>(v)?))))});
  r.froms.push(Conv{src:"TextContent", dst:"SamplingMessageContent", f: |v| out(<api::SamplingMessageContent as From<api::TextContent>>::from(j::<api::TextContent>(v)?)), var: Some(|v| Ok(var_SamplingMessageContent(&<api::SamplingMessageContent as From<api::TextContent>>::from(j::<api::TextContent>(v)?))))});
  r.displays.push(DisplayFn{ty:"SdkError", f: |v| Ok(j::<api::SdkError>(v)?.to_string())});
  r.defaults.push(DefaultFn{ty:"ServerCapabilities", f: || out(<api::ServerCapabilities as Default>::default())});
  r.defaults.push(DefaultFn{ty:"ServerCapabilitiesPrompts", f: || out(<api::ServerCapabilitiesPrompts as Default>::default())});
  r.defaults.push(DefaultFn{ty:"ServerCapabilitiesResources", f: || out(<api::ServerCapabilitiesResources as Default>::default())});
  r.defaults.push(DefaultFn{ty:"ServerCapabilitiesTools", f: || out(<api::ServerCapabilitiesTools as Default>::default())});
  r.displays.push(DisplayFn{ty:"ServerJsonrpcNotification", f: |v| Ok(j::<api::ServerJsonrpcNotification>(v)?.to_string())});
  r.froms.push(Conv{src:"CancelledNotification", dst:"ServerJsonrpcNotification", f: |v| out(<api::ServerJsonrpcNotification as From<api::CancelledNotification>>::from(j::<api::CancelledNotification>(v)?)), var: Some(|v| Ok(var_ServerJsonrpcNotification(&<api::ServerJsonrpcNotification as From<api::CancelledNotification>>::from(j::<api::CancelledNotification>(v)?))))});
  r.froms.push(Conv{src:"LoggingMessageNotification", dst:"ServerJsonrpcNotification", f: |v| out(<api::ServerJsonrpcNotification as From<api::LoggingMessageNotification>>::from(j::<api::LoggingMessageNotification>(v)?)), var: Some(|v| Ok(var_ServerJsonrpcNotification(&<api::ServerJsonrpcNotification as From<api::LoggingMessageNotification>>::from(j::<api::LoggingMessageNotification>(v)?))))});
  r.froms.push(Conv{src:"ProgressNotification", dst:"ServerJsonrpcNotification", f: |v| out(<api::ServerJsonrpcNotification as From<api::ProgressNotification>>::from(j::<api::ProgressNotification>(v)?)), var: Some(|v| Ok(var_ServerJsonrpcNotification(&<api::ServerJsonrpcNotification as From<api::ProgressNotification>>::from(j::<api::ProgressNotification>(v)?))))});
  r.froms.push(Conv{src:"PromptListChangedNotification", dst:"ServerJsonrpcNotification", f: |v| out(<api::ServerJsonrpcNotification as From<api::PromptListChangedNotification>>::from(j::<api::PromptListChangedNotification>(v)?)), var: Some(|v| Ok(var_ServerJsonrpcNotification(&<api::ServerJsonrpcNotification as From<api::PromptListChangedNotification>>::from(j::<api::PromptListChangedNotification>(v)?))))});
  r.froms.push(Conv{src:"ResourceListChangedNotification", dst:"ServerJsonrpcNotification", f: |v| out(<api::ServerJsonrpcNotification as From<api::ResourceListChangedNotification>>::from(j::<api::ResourceListChangedNotification>(v)?)), var: Some(|v| Ok(var_ServerJsonrpcNotification(&<api::ServerJsonrpcNotification as From<api::ResourceListChangedNotification>>::from(j::<api::ResourceListChangedNotification>(v)?))))});
  r.froms.push(Conv{src:"ResourceUpdatedNotification", dst:"ServerJsonrpcNotification", f: |v| out(<api::ServerJsonrpcNotification as From<api::ResourceUpdatedNotification>>::from(j::<api::ResourceUpdatedNotification>(v)?)), var: Some(|v| Ok(var_ServerJsonrpcNotification(&<api::ServerJsonrpcNotification as From<api::ResourceUpdatedNotification>>::from(j::<api::ResourceUpdatedNotification>(v)?))))});
  r.froms.push(Conv{src:"ToolListChangedNotification", dst:"ServerJsonrpcNotification", f: |v| out(<api::ServerJsonrpcNotification as From<api::ToolListChangedNotification>>::from(j::<api::ToolListChangedNotification>(v)?)), var: Some(|v| Ok(var_ServerJsonrpcNotification(&<api::ServerJsonrpcNotification as From<api::ToolListChangedNotification>>::from(j::<api::ToolListChangedNotification>(v)?))))});
  r.fromstrs.push(FromStrFn{ty:"ServerJsonrpcNotification", f: |s| s.parse::<api::ServerJsonrpcNotification>().map(|x| serde_json::to_value(x).unwrap()).map_err(|e| serde_json::to_string(&e).unwrap())});
  r.displays.push(DisplayFn{ty:"ServerJsonrpcRequest", f: |v| Ok(j::<api::ServerJsonrpcRequest>(v)?.to_string())});
  r.fromstrs.push(FromStrFn{ty:"ServerJsonrpcRequest", f: |s| s.parse::<api::ServerJsonrpcRequest>().map(|x| serde_json::to_value(x).unwrap()).map_err(|e| serde_json::to_string(&e).unwrap())});
  r.displays.push(DisplayFn{ty:"ServerJsonrpcResponse", f: |v| Ok(j::<api::ServerJsonrpcResponse>(v)?.to_string())});
  r.fromstrs.push(FromStrFn{ty:"ServerJsonrpcResponse", f: |s| s.parse::<api::ServerJsonrpcResponse>().map(|x| serde_json::to_value(x).unwrap()).map_err(|e| serde_json::to_string(&e).unwrap())});
  r.displays.push(DisplayFn{ty:"ServerMessage", f: |v| Ok(j::<api::ServerMessage>(v)?.to_string())});
  r.froms.push(Conv{src:"ServerJsonrpcNotification", dst:"ServerMessage", f: |v| out(<api::ServerMessage as From<api::ServerJsonrpcNotification>>::from(j::<api::ServerJsonrpcNotification>(v)?)), var: Some(|v| Ok(var_ServerMessage(&<api::ServerMessage as From<api::ServerJsonrpcNotification>>::from(j::<api::ServerJsonrpcNotification>(v)?))))});
  r.froms.push(Conv{src:"ServerJsonrpcRequest", dst:"ServerMessage", f: |v| out(<api::ServerMessage as From<api::ServerJsonrpcRequest>>::from(j::<api::ServerJsonrpcRequest>(v)?)), var: Some(|v| Ok(var_ServerMessage(&<api::ServerMessage as From<api::ServerJsonrpcRequest>>::from(j::<api::ServerJsonrpcRequest>(v)?))))});
  r.froms.push(Conv{src:"ServerJsonrpcResponse", dst:"ServerMessage", f: |v| out(<api::ServerMessage as From<api::ServerJsonrpcResponse>>::from(j::<api::ServerJsonrpcResponse>(v)?)), var: Some(|v| Ok(var_ServerMessage(&<api::ServerMessage as From<api::ServerJsonrpcResponse>>::from(j::<api::ServerJsonrpcResponse>(v)?))))});
  r.from_message.push(Assemble{src:"CallToolResult", dst:"ServerMessage", f: |v, id| { let id = match id { Some(i) => Some(j::<api::RequestId>(i)?), None => None }; let x = j::<api::CallToolResult>(v)?; Ok(<api::ServerMessage as api::FromMessage<api::CallToolResult>>::from_message(x, id).map(|y| serde_json::json!([var_ServerMessage(&y), y])).map_err(|e| serde_json::to_value(e).unwrap())) } });
  r.from_message.push(Assemble{src:"CancelledNotification", dst:"ServerMessage", f: |v, id| { let id = match id { Some(i) => Some(j::<api::RequestId>(i)?), None => None }; let x = j::<api::CancelledNotification>(v)?; Ok(<api::ServerMessage as api::FromMessage<api::CancelledNotification>>::from_message(x, id).map(|y| serde_json::json!([var_ServerMessage(&y), y])).map_err(|e| serde_json::to_value(e).unwrap())) } });
  r.from_message.push(Assemble{src:"CompleteResult", dst:"ServerMessage", f: |v, id| { let id = match id { Some(i) => Some(j::<api::RequestId>(i)?), None => None }; let x = j::<api::CompleteResult>(v)?; Ok(<api::ServerMessage as api::FromMessage<api::CompleteResult>>::from_message(x, id).map(|y| serde_json::json!([var_ServerMessage(&y), y])).map_err(|e| serde_json::to_value(e).unwrap())) } });
  r.from_message.push(Assemble{src:"CreateMessageRequest", dst:"ServerMessage", f: |v, id| { let id = match id { Some(i) => Some(j::<api::RequestId>(i)?), None => None }; let x = j::<api::CreateMessageRequest>(v)?; Ok(<api::ServerMessage as api::FromMessage<api::CreateMessageRequest>>::from_message(x, id).map(|y| serde_json::json!([var_ServerMessage(&y), y])).map_err(|e| serde_json::to_value(e).unwrap())) } });
  r.from_message.push(Assemble{src:"GetPromptResult", dst:"ServerMessage", f: |v, id| { let id = match id { Some(i) => Some(j::<api::RequestId>(i)?), None => None }; let x = j::<api::GetPromptResult>(v)?; Ok(<api::ServerMessage as api::FromMessage<api::GetPromptResult>>::from_message(x, id).map(|y| serde_json::json!([var_ServerMessage(&y), y])).map_err(|e| serde_json::to_value(e).unwrap())) } });
  r.from_message.push(Assemble{src:"InitializeResult", dst:"ServerMessage", f: |v, id| { let id = match id { Some(i) => Some(j::<api::RequestId>(i)?), None => None }; let x = j::<api::InitializeResult>(v)?; Ok(<api::ServerMessage as api::FromMessage<api::InitializeResult>>::from_message(x, id).map(|y| serde_json::json!([var_ServerMessage(&y), y])).map_err(|e| serde_json::to_value(e).unwrap())) } });
  r.from_message.push(Assemble{src:"ListPromptsResult", dst:"ServerMessage", f: |v, id| { let id = match id { Some(i) => Some(j::<api::RequestId>(i)?), None => None }; let x = j::<api::ListPromptsResult>(v)?; Ok(<api::ServerMessage as api::FromMessage<api::ListPromptsResult>>::from_message(x, id).map(|y| serde_json::json!([var_ServerMessage(&y), y])).map_err(|e| serde_json::to_value(e).unwrap())) } });
  r.from_message.push(Assemble{src:"ListResourceTemplatesResult", dst:"ServerMessage", f: |v, id| { let id = match id { Some(i) => Some(j::<api::RequestId>(i)?), None => None }; let x = j::<api::ListResourceTemplatesResult>(v)?; Ok(<api::ServerMessage as api::FromMessage<api::ListResourceTemplatesResult>>::from_message(x, id).map(|y| serde_json::json!([var_ServerMessage(&y), y])).map_err(|e| serde_json::to_value(e).unwrap())) } });
  r.from_message.push(Assemble{src:"ListResourcesResult", dst:"ServerMessage", f: |v, id| { let id = match id { Some(i) => Some(j::<api::RequestId>(i)?), None => None }; let x = j::<api::ListResourcesResult>(v)?; Ok(<api::ServerMessage as api::FromMessage<api::ListResourcesResult>>::from_message(x, id).map(|y| serde_json::json!([var_ServerMessage(&y), y])).map_err(|e| serde_json::to_value(e).unwrap())) } });
  r.from_message.push(Assemble{src:"ListRootsRequest", dst:"ServerMessage", f: |v, id| { let id = match id { Some(i) => Some(j::<api::RequestId>(i)?), None => None }; let x = j::<api::ListRootsRequest>(v)?; Ok(<api::ServerMessage as api::FromMessage<api::ListRootsRequest>>::from_message(x, id).map(|y| serde_json::json!([var_ServerMessage(&y), y])).map_err(|e| serde_json::to_value(e).unwrap())) } });
  r.from_message.push(Assemble{src:"ListToolsResult", dst:"ServerMessage", f: |v, id| { let id = match id { Some(i) => Some(j::<api::RequestId>(i)?), None => None }; let x = j::<api::ListToolsResult>(v)?; Ok(<api::ServerMessage as api::FromMessage<api::ListToolsResult>>::from_message(x, id).map(|y| serde_json::json!([var_ServerMessage(&y), y])).map_err(|e| serde_json::to_value(e).unwrap())) } });
  r.from_message.push(Assemble{src:"LoggingMessageNotification", dst:"ServerMessage", f: |v, id| { let id = match id { Some(i) => Some(j::<api::RequestId>(i)?), None => None }; let x = j::<api::LoggingMessageNotification>(v)?; Ok(<api::ServerMessage as api::FromMessage<api::LoggingMessageNotification>>::from_message(x, id).map(|y| serde_json::json!([var_ServerMessage(&y), y])).map_err(|e| serde_json::to_value(e).unwrap())) } });
  r.from_message.push(Assemble{src:"MessageFromServer", dst:"ServerMessage", f: |v, id| { let id = match id { Some(i) => Some(j::<api::RequestId>(i)?), None => None }; let x = j::<api::MessageFromServer>(v)?; Ok(<api::ServerMessage as api::FromMessage<api::MessageFromServer>>::from_message(x, id).map(|y| serde_json::json!([var_ServerMessage(&y), y])).map_err(|e| serde_json::to_value(e).unwrap())) } });
  r.from_message.push(Assemble{src:"PingRequest", dst:"ServerMessage", f: |v, id| { let id = match id { Some(i) => Some(j::<api::RequestId>(i)?), None => None }; let x = j::<api::PingRequest>(v)?; Ok(<api::ServerMessage as api::FromMessage<api::PingRequest>>::from_message(x, id).map(|y| serde_json::json!([var_ServerMessage(&y), y])).map_err(|e| serde_json::to_value(e).unwrap())) } });
  r.from_message.push(Assemble{src:"ProgressNotification", dst:"ServerMessage", f: |v, id| { let id = match id { Some(i) => Some(j::<api::RequestId>(i)?), None => None }; let x = j::<api::ProgressNotification>(v)?; Ok(<api::ServerMessage as api::FromMessage<api::ProgressNotification>>::from_message(x, id).map(|y| serde_json::json!([var_ServerMessage(&y), y])).map_err(|e| serde_json::to_value(e).unwrap())) } });
  r.from_message.push(Assemble{src:"PromptListChangedNotification", dst:"ServerMessage", f: |v, id| { let id = match id { Some(i) => Some(j::<api::RequestId>(i)?), None => None }; let x = j::<api::PromptListChangedNotification>(v)?; Ok(<api::ServerMessage as api::FromMessage<api::PromptListChangedNotification>>::from_message(x, id).map(|y| serde_json::json!([var_ServerMessage(&y), y])).map_err(|e| serde_json::to_value(e).unwrap())) } });
  r.from_message.push(Assemble{src:"ReadResourceResult", dst:"ServerMessage", f: |v, id| { let id = match id { Some(i) => Some(j::<api::RequestId>(i)?), None => None }; let x = j::<api::ReadResourceResult>(v)?; Ok(<api::ServerMessage as api::FromMessage<api::ReadResourceResult>>::from_message(x, id).map(|y| serde_json::json!([var_ServerMessage(&y), y])).map_err(|e| serde_json::to_value(e).unwrap())) } });
  r.from_message.push(Assemble{src:"ResourceListChangedNotification", dst:"ServerMessage", f: |v, id| { let id = match id { Some(i) => Some(j::<api::RequestId>(i)?), None => None }; let x = j::<api::ResourceListChangedNotification>(v)?; Ok(<api::ServerMessage as api::FromMessage<api::ResourceListChangedNotification>>::from_message(x, id).map(|y| serde_json::json!([var_ServerMessage(&y), y])).map_err(|e| serde_json::to_value(e).unwrap())) } });
  r.from_message.push(Assemble{src:"ResourceUpdatedNotification", dst:"ServerMessage", f: |v, id| { let id = match id { Some(i) => Some(j::<api::RequestId>(i)?), None => None }; let x = j::<api::ResourceUpdatedNotification>(v)?; Ok(<api::ServerMessage as api::FromMessage<api::ResourceUpdatedNotification>>::from_message(x, id).map(|y| serde_json::json!([var_ServerMessage(&y), y])).map_err(|e| serde_json::to_value(e).unwrap())) } });
  r.from_message.push(Assemble{src:"Result", dst:"ServerMessage", f: |v, id| { let id = match id { Some(i) => Some(j::<api::RequestId>(i)?), None => None }; let x = j::<api::Result>(v)?; Ok(<api::ServerMessage as api::FromMessage<api::Result>>::from_message(x, id).map(|y| serde_json::json!([var_ServerMessage(&y), y])).map_err(|e| serde_json::to_value(e).unwrap())) } });
  r.from_message.push(Assemble{src:"ToolListChangedNotification", dst:"ServerMessage", f: |v, id| { let id = match id { Some(i) => Some(j::<api::RequestId>(i)?), None => None }; let x = j::<api::ToolListChangedNotification>(v)?; Ok(<api::ServerMessage as api::FromMessage<api::ToolListChangedNotification>>::from_message(x, id).map(|y| serde_json::json!([var_ServerMessage(&y), y])).map_err(|e| serde_json::to_value(e).unwrap())) } });
  r.fromstrs.push(FromStrFn{ty:"ServerMessage", f: |s| s.parse::<api::ServerMessage>().map(|x| serde_json::to_value(x).unwrap()).map_err(|e| serde_json::to_string(&e).unwrap())});
  r.displays.push(DisplayFn{ty:"ServerMessages", f: |v| Ok(j::<api::ServerMessages>(v)?.to_string())});
  r.froms.push(Conv{src:"ServerMessage", dst:"ServerMessages", f: |v| out(<api::ServerMessages as From<api::ServerMessage>>::from(j::<api::ServerMessage>(v)?)), var: Some(|v| Ok(var_ServerMessages(&<api::ServerMessages as From<api::ServerMessage>>::from(j::<api::ServerMessage>(v)?))))});
  r.froms.push(Conv{src:"Vec<ServerMessage>", dst:"ServerMessages", f: |v| out(<api::ServerMessages as From<Vec<api::ServerMessage>>>::from(j::<Vec<api::ServerMessage>>(v)?)), var: Some(|v| Ok(var_ServerMessages(&<api::ServerMessages as From<Vec<api::ServerMessage>>>::from(j::<Vec<api::ServerMessage>>(v)?))))});
  r.froms.push(Conv{src:"CancelledNotification", dst:"ServerNotification", f: |v| out(<api::ServerNotification as From<api::CancelledNotification>>::from(j::<api::CancelledNotification>(v)?)), var: Some(|v| Ok(var_ServerNotification(&<api::ServerNotification as From<api::CancelledNotification>>::from(j::<api::CancelledNotification>(v)?))))});
  r.froms.push(Conv{src:"LoggingMessageNotification", dst:"ServerNotification", f: |v| out(<api::ServerNotification as From<api::LoggingMessageNotification>>::from(j::<api::LoggingMessageNotification>(v)?)), var: Some(|v| Ok(var_ServerNotification(&<api::ServerNotification as From<api::LoggingMessageNotification>>::from(j::<api::LoggingMessageNotification>(v)?))))});
  r.froms.push(Conv{src:"ProgressNotification", dst:"ServerNotification", f: |v| out(<api::ServerNotification as From<api::ProgressNotification>>::from(j::<api::ProgressNotification>(v)?)), var: Some(|v| Ok(var_ServerNotification(&<api::ServerNotification as From<api::ProgressNotification>>::from(j::<api::ProgressNotification>(v)?))))});
  r.froms.push(Conv{src:"PromptListChangedNotification", dst:"ServerNotification", f: |v| out(<api::ServerNotification as From<api::PromptListChangedNotification>>::from(j::<api::PromptListChangedNotification>(v)?)), var: Some(|v| Ok(var_ServerNotification(&<api::ServerNotification as From<api::PromptListChangedNotification>>::from(j::<api::PromptListChangedNotification>(v)?))))});
  r.froms.push(Conv{src:"ResourceListChangedNotification", dst:"ServerNotification", f: |v| out(<api::ServerNotification as From<api::ResourceListChangedNotification>>::from(j::<api::ResourceListChangedNotification>(v)?)), var: Some(|v| Ok(var_ServerNotification(&<api::ServerNotification as From<api::ResourceListChangedNotification>>::from(j::<api::ResourceListChangedNotification>(v)?))))});
  r.froms.push(Conv{src:"ResourceUpdatedNotification", dst:"ServerNotification", f: |v| out(<api::ServerNotification as From<api::ResourceUpdatedNotification>>::from(j::<api::ResourceUpdatedNotification>(v)?)), var: Some(|v| Ok(var_ServerNotification(&<api::ServerNotification as From<api::ResourceUpdatedNotification>>::from(j::<api::ResourceUpdatedNotification>(v)?))))});
  r.froms.push(Conv{src:"ToolListChangedNotification", dst:"ServerNotification", f: |v| out(<api::ServerNotification as From<api::ToolListChangedNotification>>::from(j::<api::ToolListChangedNotification>(v)?)), var: Some(|v| Ok(var_ServerNotification(&<api::ServerNotification as From<api::ToolListChangedNotification>>::from(j::<api::ToolListChangedNotification>(v)?))))});
  r.try_froms.push(TryConv{src:"NotificationFromServer", dst:"ServerNotification", f: |p, v| { let x = mk_NotificationFromServer(p, v)?; Ok(<api::ServerNotification as TryFrom<api::NotificationFromServer>>::try_from(x).map(|y| serde_json::to_value(y).unwrap()).map_err(|e| serde_json::to_value(e).unwrap()))}});
  r.froms.push(Conv{src:"CreateMessageRequest", dst:"ServerRequest", f: |v| out(<api::ServerRequest as From<api::CreateMessageRequest>>::from(j::<api::CreateMessageRequest>(v)?)), var: Some(|v| Ok(var_ServerRequest(&<api::ServerRequest as From<api::CreateMessageRequest>>::from(j::<api::CreateMessageRequest>(v)?))))});
  r.froms.push(Conv{src:"ListRootsRequest", dst:"ServerRequest", f: |v| out(<api::ServerRequest as From<api::ListRootsRequest>>::from(j::<api::ListRootsRequest>(v)?)), var: Some(|v| Ok(var_ServerRequest(&<api::ServerRequest as From<api::ListRootsRequest>>::from(j::<api::ListRootsRequest>(v)?))))});
  r.froms.push(Conv{src:"PingRequest", dst:"ServerRequest", f: |v| out(<api::ServerRequest as From<api::PingRequest>>::from(j::<api::PingRequest>(v)?)), var: Some(|v| Ok(var_ServerRequest(&<api::ServerRequest as From<api::PingRequest>>::from(j::<api::PingRequest>(v)?))))});
  r.try_froms.push(TryConv{src:"RequestFromServer", dst:"ServerRequest", f: |p, v| { let x = mk_RequestFromServer(p, v)?; Ok(<api::ServerRequest as TryFrom<api::RequestFromServer>>::try_from(x).map(|y| serde_json::to_value(y).unwrap()).map_err(|e| serde_json::to_value(e).unwrap()))}});
  r.froms.push(Conv{src:"CallToolResult", dst:"ServerResult", f: |v| out(<api::ServerResult as From<api::CallToolResult>>::from(j::<api::CallToolResult>(v)?)), var: Some(|v| Ok(var_ServerResult(&<api::ServerResult as From<api::CallToolResult>>::from(j::<api::CallToolResult>(v)?))))});
  r.froms.push(Conv{src:"CompleteResult", dst:"ServerResult", f: |v| out(<api::ServerResult as From<api::CompleteResult>>::from(j::<api::CompleteResult>(v)?)), var: Some(|v| Ok(var_ServerResult(&<api::ServerResult as From<api::CompleteResult>>::from(j::<api::CompleteResult>(v)?))))});
  r.froms.push(Conv{src:"GetPromptResult", dst:"ServerResult", f: |v| out(<api::ServerResult as From<api::GetPromptResult>>::from(j::<api::GetPromptResult>(v)?)), var: Some(|v| Ok(var_ServerResult(&<api::ServerResult as From<api::GetPromptResult>>::from(j::<api::GetPromptResult>(v)?))))});
  r.froms.push(Conv{src:"InitializeResult", dst:"ServerResult", f: |v| out(<api::ServerResult as From<api::InitializeResult>>::from(j::<api::InitializeResult>(v)?)), var: Some(|v| Ok(var_ServerResult(&<api::ServerResult as From<api::InitializeResult>>::from(j::<api::InitializeResult>(v)?))))});
  r.froms.push(Conv{src:"ListPromptsResult", dst:"ServerResult", f: |v| out(<api::ServerResult as From<api::ListPromptsResult>>::from(j::<api::ListPromptsResult>(v)?)), var: Some(|v| Ok(var_ServerResult(&<api::ServerResult as From<api::ListPromptsResult>>::from(j::<api::ListPromptsResult>(v)?))))});
  r.froms.push(Conv{src:"ListResourceTemplatesResult", dst:"ServerResult", f: |v| out(<api::ServerResult as From<api::ListResourceTemplatesResult>>::from(j::<api::ListResourceTemplatesResult>(v)?)), var: Some(|v| Ok(var_ServerResult(&<api::ServerResult as From<api::ListResourceTemplatesResult>>::from(j::<api::ListResourceTemplatesResult>(v)?))))});
  r.froms.push(Conv{src:"ListResourcesResult", dst:"ServerResult", f: |v| out(<api::ServerResult as From<api::ListResourcesResult>>::from(j::<api::ListResourcesResult>(v)?)), var: Some(|v| Ok(var_ServerResult(&<api::ServerResult as From<api::ListResourcesResult>>::from(j::<api::ListResourcesResult>(v)?))))});
  r.froms.push(Conv{src:"ListToolsResult", dst:"ServerResult", f: |v| out(<api::ServerResult as From<api::ListToolsResult>>::from(j::<api::ListToolsResult>(v)?)), var: Some(|v| Ok(var_ServerResult(&<api::ServerResult as From<api::ListToolsResult>>::from(j::<api::ListToolsResult>(v)?))))});
  r.froms.push(Conv{src:"ReadResourceResult", dst:"ServerResult", f: |v| out(<api::ServerResult as From<api::ReadResourceResult>>::from(j::<api::ReadResourceResult>(v)?)), var: Some(|v| Ok(var_ServerResult(&<api::ServerResult as From<api::ReadResourceResult>>::from(j::<api::ReadResourceResult>(v)?))))});
  r.froms.push(Conv{src:"Result", dst:"ServerResult", f: |v| out(<api::ServerResult as From<api::Result>>::from(j::<api::Result>(v)?)), var: Some(|v| Ok(var_ServerResult(&<api::ServerResult as From<api::Result>>::from(j::<api::Result>(v)?))))});
  r.try_froms.push(TryConv{src:"ResultFromServer", dst:"ServerResult", f: |p, v| { let x = mk_ResultFromServer(p, v)?; Ok(<api::ServerResult as TryFrom<api::ResultFromServer>>::try_from(x).map(|y| serde_json::to_value(y).unwrap()).map_err(|e| serde_json::to_value(e).unwrap()))}});
  r.to_message.push(Assemble{src:"SetLevelRequest", dst:"ClientMessage", f: |v, id| { let id = match id { Some(i) => Some(j::<api::RequestId>(i)?), None => None }; let x = j::<api::SetLevelRequest>(v)?; Ok(<api::SetLevelRequest as api::ToMessage<api::ClientMessage>>::to_message(x, id).map(|y| serde_json::json!([var_ClientMessage(&y), y])).map_err(|e| serde_json::to_value(e).unwrap())) } });
  r.try_froms.push(TryConv{src:"RequestFromClient", dst:"SetLevelRequest", f: |p, v| { let x = mk_RequestFromClient(p, v)?; Ok(<api::SetLevelRequest as TryFrom<api::RequestFromClient>>::try_from(x).map(|y| serde_json::to_value(y).unwrap()).map_err(|e| serde_json::to_value(e).unwrap()))}});
  r.to_message.push(Assemble{src:"SubscribeRequest", dst:"ClientMessage", f: |v, id| { let id = match id { Some(i) => Some(j::<api::RequestId>(i)?), None => None }; let x = j::<api::SubscribeRequest>(v)?; Ok(<api::SubscribeRequest as api::ToMessage<api::ClientMessage>>::to_message(x, id).map(|y| serde_json::json!([var_ClientMessage(&y), y])).map_err(|e| serde_json::to_value(e).unwrap())) } });
  r.try_froms.push(TryConv{src:"RequestFromClient", dst:"SubscribeRequest", f: |p, v| { let x = mk_RequestFromClient(p, v)?; Ok(<api::SubscribeRequest as TryFrom<api::RequestFromClient>>::try_from(x).map(|y| serde_json::to_value(y).unwrap()).map_err(|e| serde_json::to_value(e).unwrap()))}});
  r.defaults.push(DefaultFn{ty:"ToolAnnotations", f: || out(<api::ToolAnnotations as Default>::default())});
  r.to_message.push(Assemble{src:"ToolListChangedNotification", dst:"ServerMessage", f: |v, id| { let id = match id { Some(i) => Some(j::<api::RequestId>(i)?), None => None }; let x = j::<api::ToolListChangedNotification>(v)?; Ok(<api::ToolListChangedNotification as api::ToMessage<api::ServerMessage>>::to_message(x, id).map(|y| serde_json::json!([var_ServerMessage(&y), y])).map_err(|e| serde_json::to_value(e).unwrap())) } });
  r.try_froms.push(TryConv{src:"NotificationFromServer", dst:"ToolListChangedNotification", f: |p, v| { let x = mk_NotificationFromServer(p, v)?; Ok(<api::ToolListChangedNotification as TryFrom<api::NotificationFromServer>>::try_from(x).map(|y| serde_json::to_value(y).unwrap()).map_err(|e| serde_json::to_value(e).unwrap()))}});
  r.defaults.push(DefaultFn{ty:"ToolListChangedNotificationParams", f: || out(<api::ToolListChangedNotificationParams as Default>::default())});
  r.to_message.push(Assemble{src:"UnsubscribeRequest", dst:"ClientMessage", f: |v, id| { let id = match id { Some(i) => Some(j::<api::RequestId>(i)?), None => None }; let x = j::<api::UnsubscribeRequest>(v)?; Ok(<api::UnsubscribeRequest as api::ToMessage<api::ClientMessage>>::to_message(x, id).map(|y| serde_json::json!([var_ClientMessage(&y), y])).map_err(|e| serde_json::to_value(e).unwrap())) } });
  r.try_froms.push(TryConv{src:"RequestFromClient", dst:"UnsubscribeRequest", f: |p, v| { let x = mk_RequestFromClient(p, v)?; Ok(<api::UnsubscribeRequest as TryFrom<api::RequestFromClient>>::try_from(x).map(|y| serde_json::to_value(y).unwrap()).map_err(|e| serde_json::to_value(e).unwrap()))}});
  r.variants.push(VariantFn{ty:"CallToolResultContentItem", f: |v| Ok(var_CallToolResultContentItem(&j::<api::CallToolResultContentItem>(v)?))});
  r.variants.push(VariantFn{ty:"ClientJsonrpcNotification", f: |v| Ok(var_ClientJsonrpcNotification(&j::<api::ClientJsonrpcNotification>(v)?))});
  r.variants.push(VariantFn{ty:"ClientJsonrpcRequest", f: |v| Ok(var_ClientJsonrpcRequest(&j::<api::ClientJsonrpcRequest>(v)?))});
  r.variants.push(VariantFn{ty:"ClientJsonrpcResponse", f: |v| Ok(var_ClientJsonrpcResponse(&j::<api::ClientJsonrpcResponse>(v)?))});
  r.variants.push(VariantFn{ty:"ClientMessage", f: |v| Ok(var_ClientMessage(&j::<api::ClientMessage>(v)?))});
  r.variants.push(VariantFn{ty:"ClientMessages", f: |v| Ok(var_ClientMessages(&j::<api::ClientMessages>(v)?))});
  r.variants.push(VariantFn{ty:"ClientNotification", f: |v| Ok(var_ClientNotification(&j::<api::ClientNotification>(v)?))});
  r.variants.push(VariantFn{ty:"ClientRequest", f: |v| Ok(var_ClientRequest(&j::<api::ClientRequest>(v)?))});
  r.variants.push(VariantFn{ty:"ClientResult", f: |v| Ok(var_ClientResult(&j::<api::ClientResult>(v)?))});
  r.variants.push(VariantFn{ty:"CompleteRequestRef", f: |v| Ok(var_CompleteRequestRef(&j::<api::CompleteRequestRef>(v)?))});
  r.variants.push(VariantFn{ty:"CreateMessageContent", f: |v| Ok(var_CreateMessageContent(&j::<api::CreateMessageContent>(v)?))});
  r.variants.push(VariantFn{ty:"EmbeddedResourceResource", f: |v| Ok(var_EmbeddedResourceResource(&j::<api::EmbeddedResourceResource>(v)?))});
  r.variants.push(VariantFn{ty:"JsonrpcBatchRequestItem", f: |v| Ok(var_JsonrpcBatchRequestItem(&j::<api::JsonrpcBatchRequestItem>(v)?))});
  r.variants.push(VariantFn{ty:"JsonrpcBatchResponseItem", f: |v| Ok(var_JsonrpcBatchResponseItem(&j::<api::JsonrpcBatchResponseItem>(v)?))});
  r.variants.push(VariantFn{ty:"JsonrpcMessage", f: |v| Ok(var_JsonrpcMessage(&j::<api::JsonrpcMessage>(v)?))});
  r.variants.push(VariantFn{ty:"MessageFromClient", f: |v| Ok(var_MessageFromClient(&j::<api::MessageFromClient>(v)?))});
  r.variants.push(VariantFn{ty:"MessageFromServer", f: |v| Ok(var_MessageFromServer(&j::<api::MessageFromServer>(v)?))});
  r.variants.push(VariantFn{ty:"MessagesFromClient", f: |v| Ok(var_MessagesFromClient(&j::<api::MessagesFromClient>(v)?))});
  r.variants.push(VariantFn{ty:"MessagesFromServer", f: |v| Ok(var_MessagesFromServer(&j::<api::MessagesFromServer>(v)?))});
  r.variants.push(VariantFn{ty:"NotificationFromClient", f: |v| Ok(var_NotificationFromClient(&j::<api::NotificationFromClient>(v)?))});
  r.variants.push(VariantFn{ty:"NotificationFromServer", f: |v| Ok(var_NotificationFromServer(&j::<api::NotificationFromServer>(v)?))});
  r.variants.push(VariantFn{ty:"ProgressToken", f: |v| Ok(var_ProgressToken(&j::<api::ProgressToken>(v)?))});
  r.variants.push(VariantFn{ty:"PromptMessageContent", f: |v| Ok(var_PromptMessageContent(&j::<api::PromptMessageContent>(v)?))});
  r.variants.push(VariantFn{ty:"ReadResourceContent", f: |v| Ok(var_ReadResourceContent(&j::<api::ReadResourceContent>(v)?))});
  r.variants.push(VariantFn{ty:"RequestFromClient", f: |v| Ok(var_RequestFromClient(&j::<api::RequestFromClient>(v)?))});
  r.variants.push(VariantFn{ty:"RequestFromServer", f: |v| Ok(var_RequestFromServer(&j::<api::RequestFromServer>(v)?))});
  r.variants.push(VariantFn{ty:"RequestId", f: |v| Ok(var_RequestId(&j::<api::RequestId>(v)?))});
  r.variants.push(VariantFn{ty:"ResultFromClient", f: |v| Ok(var_ResultFromClient(&j::<api::ResultFromClient>(v)?))});
  r.variants.push(VariantFn{ty:"ResultFromServer", f: |v| Ok(var_ResultFromServer(&j::<api::ResultFromServer>(v)?))});
  r.variants.push(VariantFn{ty:"SamplingMessageContent", f: |v| Ok(var_SamplingMessageContent(&j::<api::SamplingMessageContent>(v)?))});
  r.variants.push(VariantFn{ty:"ServerJsonrpcNotification", f: |v| Ok(var_ServerJsonrpcNotification(&j::<api::ServerJsonrpcNotification>(v)?))});
  r.variants.push(VariantFn{ty:"ServerJsonrpcRequest", f: |v| Ok(var_ServerJsonrpcRequest(&j::<api::ServerJsonrpcRequest>(v)?))});
  r.variants.push(VariantFn{ty:"ServerJsonrpcResponse", f: |v| Ok(var_ServerJsonrpcResponse(&j::<api::ServerJsonrpcResponse>(v)?))});
  r.variants.push(VariantFn{ty:"ServerMessage", f: |v| Ok(var_ServerMessage(&j::<api::ServerMessage>(v)?))});
  r.variants.push(VariantFn{ty:"ServerMessages", f: |v| Ok(var_ServerMessages(&j::<api::ServerMessages>(v)?))});
  r.variants.push(VariantFn{ty:"ServerNotification", f: |v| Ok(var_ServerNotification(&j::<api::ServerNotification>(v)?))});
  r.variants.push(VariantFn{ty:"ServerRequest", f: |v| Ok(var_ServerRequest(&j::<api::ServerRequest>(v)?))});
  r.variants.push(VariantFn{ty:"ServerResult", f: |v| Ok(var_ServerResult(&j::<api::ServerResult>(v)?))});
  r }
pub fn var_CallToolResultContentItem(x: &api::CallToolResultContentItem) -> String {
  #[allow(unreachable_patterns)] match x {
    api::CallToolResultContentItem::TextContent(..) => "TextContent".to_string(),
    api::CallToolResultContentItem::ImageContent(..) => "ImageContent".to_string(),
    api::CallToolResultContentItem::AudioContent(..) => "AudioContent".to_string(),
    api::CallToolResultContentItem::EmbeddedResource(..) => "EmbeddedResource".to_string(),
    _ => "?".to_string(),
  }
}
pub fn var_ClientJsonrpcNotification(x: &api::ClientJsonrpcNotification) -> String {
  var_NotificationFromClient(&x.notification)
}
pub fn var_ClientJsonrpcRequest(x: &api::ClientJsonrpcRequest) -> String {
  var_RequestFromClient(&x.request)
}
pub fn var_ClientJsonrpcResponse(x: &api::ClientJsonrpcResponse) -> String {
  var_ResultFromClient(&x.result)
}
pub fn var_ClientMessage(x: &api::ClientMessage) -> String {
  #[allow(unreachable_patterns)] match x {
    api::ClientMessage::Request(y) => format!("Request/{}", var_ClientJsonrpcRequest(y)),
    api::ClientMessage::Notification(y) => format!("Notification/{}", var_ClientJsonrpcNotification(y)),
    api::ClientMessage::Response(y) => format!("Response/{}", var_ClientJsonrpcResponse(y)),
    api::ClientMessage::Error(..) => "Error".to_string(),
    _ => "?".to_string(),
  }
}
pub fn var_ClientMessages(x: &api::ClientMessages) -> String {
  #[allow(unreachable_patterns)] match x {
    api::ClientMessages::Single(y) => format!("Single/{}", var_ClientMessage(y)),
    api::ClientMessages::Batch(..) => "Batch".to_string(),
    _ => "?".to_string(),
  }
}
pub fn var_ClientNotification(x: &api::ClientNotification) -> String {
  #[allow(unreachable_patterns)] match x {
    api::ClientNotification::CancelledNotification(..) => "CancelledNotification".to_string(),
    api::ClientNotification::InitializedNotification(..) => "InitializedNotification".to_string(),
    api::ClientNotification::ProgressNotification(..) => "ProgressNotification".to_string(),
    api::ClientNotification::RootsListChangedNotification(..) => "RootsListChangedNotification".to_string(),
    _ => "?".to_string(),
  }
}
pub fn var_ClientRequest(x: &api::ClientRequest) -> String {
  #[allow(unreachable_patterns)] match x {
    api::ClientRequest::InitializeRequest(..) => "InitializeRequest".to_string(),
    api::ClientRequest::PingRequest(..) => "PingRequest".to_string(),
    api::ClientRequest::ListResourcesRequest(..) => "ListResourcesRequest".to_string(),
    api::ClientRequest::ListResourceTemplatesRequest(..) => "ListResourceTemplatesRequest".to_string(),
    api::ClientRequest::ReadResourceRequest(..) => "ReadResourceRequest".to_string(),
    api::ClientRequest::SubscribeRequest(..) => "SubscribeRequest".to_string(),
    api::ClientRequest::UnsubscribeRequest(..) => "UnsubscribeRequest".to_string(),
    api::ClientRequest::ListPromptsRequest(..) => "ListPromptsRequest".to_string(),
    api::ClientRequest::GetPromptRequest(..) => "GetPromptRequest".to_string(),
    api::ClientRequest::ListToolsRequest(..) => "ListToolsRequest".to_string(),
    api::ClientRequest::CallToolRequest(..) => "CallToolRequest".to_string(),
    api::ClientRequest::SetLevelRequest(..) => "SetLevelRequest".to_string(),
    api::ClientRequest::CompleteRequest(..) => "CompleteRequest".to_string(),
    _ => "?".to_string(),
  }
}
pub fn var_ClientResult(x: &api::ClientResult) -> String {
  #[allow(unreachable_patterns)] match x {
    api::ClientResult::CreateMessageResult(..) => "CreateMessageResult".to_string(),
    api::ClientResult::ListRootsResult(..) => "ListRootsResult".to_string(),
    api::ClientResult::Result(..) => "Result".to_string(),
    _ => "?".to_string(),
  }
}
pub fn var_CompleteRequestRef(x: &api::CompleteRequestRef) -> String {
  #[allow(unreachable_patterns)] match x {
    api::CompleteRequestRef::PromptReference(..) => "PromptReference".to_string(),
    api::CompleteRequestRef::ResourceReference(..) => "ResourceReference".to_string(),
    _ => "?".to_string(),
  }
}
pub fn var_CreateMessageContent(x: &api::CreateMessageContent) -> String {
  #[allow(unreachable_patterns)] match x {
    api::CreateMessageContent::TextContent(..) => "TextContent".to_string(),
    api::CreateMessageContent::ImageContent(..) => "ImageContent".to_string(),
    api::CreateMessageContent::AudioContent(..) => "AudioContent".to_string(),
    _ => "?".to_string(),
  }
}
pub fn var_EmbeddedResourceResource(x: &api::EmbeddedResourceResource) -> String {
  #[allow(unreachable_patterns)] match x {
    api::EmbeddedResourceResource::TextResourceContents(..) => "TextResourceContents".to_string(),
    api::EmbeddedResourceResource::BlobResourceContents(..) => "BlobResourceContents".to_string(),
    _ => "?".to_string(),
  }
}
pub fn var_JsonrpcBatchRequestItem(x: &api::JsonrpcBatchRequestItem) -> String {
  #[allow(unreachable_patterns)] match x {
    api::JsonrpcBatchRequestItem::Request(..) => "Request".to_string(),
    api::JsonrpcBatchRequestItem::Notification(..) => "Notification".to_string(),
    _ => "?".to_string(),
  }
}
pub fn var_JsonrpcBatchResponseItem(x: &api::JsonrpcBatchResponseItem) -> String {
  #[allow(unreachable_patterns)] match x {
    api::JsonrpcBatchResponseItem::Response(..) => "Response".to_string(),
    api::JsonrpcBatchResponseItem::Error(..) => "Error".to_string(),
    _ => "?".to_string(),
  }
}
pub fn var_JsonrpcMessage(x: &api::JsonrpcMessage) -> String {
  #[allow(unreachable_patterns)] match x {
    api::JsonrpcMessage::Request(..) => "Request".to_string(),
    api::JsonrpcMessage::Notification(..) => "Notification".to_string(),
    api::JsonrpcMessage::BatchRequest(..) => "BatchRequest".to_string(),
    api::JsonrpcMessage::Response(..) => "Response".to_string(),
    api::JsonrpcMessage::Error(..) => "Error".to_string(),
    api::JsonrpcMessage::BatchResponse(..) => "BatchResponse".to_string(),
    _ => "?".to_string(),
  }
}
pub fn var_MessageFromClient(x: &api::MessageFromClient) -> String {
  #[allow(unreachable_patterns)] match x {
    api::MessageFromClient::RequestFromClient(y) => format!("RequestFromClient/{}", var_RequestFromClient(y)),
    api::MessageFromClient::ResultFromClient(y) => format!("ResultFromClient/{}", var_ResultFromClient(y)),
    api::MessageFromClient::NotificationFromClient(y) => format!("NotificationFromClient/{}", var_NotificationFromClient(y)),
    api::MessageFromClient::Error(..) => "Error".to_string(),
    _ => "?".to_string(),
  }
}
pub fn var_MessageFromServer(x: &api::MessageFromServer) -> String {
  #[allow(unreachable_patterns)] match x {
    api::MessageFromServer::RequestFromServer(y) => format!("RequestFromServer/{}", var_RequestFromServer(y)),
    api::MessageFromServer::ResultFromServer(y) => format!("ResultFromServer/{}", var_ResultFromServer(y)),
    api::MessageFromServer::NotificationFromServer(y) => format!("NotificationFromServer/{}", var_NotificationFromServer(y)),
    api::MessageFromServer::Error(..) => "Error".to_string(),
    _ => "?".to_string(),
  }
}
pub fn var_MessagesFromClient(x: &api::MessagesFromClient) -> String {
  #[allow(unreachable_patterns)] match x {
    api::MessagesFromClient::Single(y) => format!("Single/{}", var_MessageFromClient(y)),
    api::MessagesFromClient::Batch(..) => "Batch".to_string(),
    _ => "?".to_string(),
  }
}
pub fn var_MessagesFromServer(x: &api::MessagesFromServer) -> String {
  #[allow(unreachable_patterns)] match x {
    api::MessagesFromServer::Single(y) => format!("Single/{}", var_MessageFromServer(y)),
    api::MessagesFromServer::Batch(..) => "Batch".to_string(),
    _ => "?".to_string(),
  }
}
pub fn var_NotificationFromClient(x: &api::NotificationFromClient) -> String {
  #[allow(unreachable_patterns)] match x {
    api::NotificationFromClient::ClientNotification(y) => format!("ClientNotification/{}", var_ClientNotification(y)),
    api::NotificationFromClient::CustomNotification(..) => "CustomNotification".to_string(),
    _ => "?".to_string(),
  }
}
pub fn var_NotificationFromServer(x: &api::NotificationFromServer) -> String {
  #[allow(unreachable_patterns)] match x {
    api::NotificationFromServer::ServerNotification(y) => format!("ServerNotification/{}", var_ServerNotification(y)),
    api::NotificationFromServer::CustomNotification(..) => "CustomNotification".to_string(),
    _ => "?".to_string(),
  }
}
pub fn var_ProgressToken(x: &api::ProgressToken) -> String {
  #[allow(unreachable_patterns)] match x {
    api::ProgressToken::String(..) => "String".to_string(),
    api::ProgressToken::Integer(..) => "Integer".to_string(),
    _ => "?".to_string(),
  }
}
pub fn var_PromptMessageContent(x: &api::PromptMessageContent) -> String {
  #[allow(unreachable_patterns)] match x {
    api::PromptMessageContent::TextContent(..) => "TextContent".to_string(),
    api::PromptMessageContent::ImageContent(..) => "ImageContent".to_string(),
    api::PromptMessageContent::AudioContent(..) => "AudioContent".to_string(),
    api::PromptMessageContent::EmbeddedResource(..) => "EmbeddedResource".to_string(),
    _ => "?".to_string(),
  }
}
pub fn var_ReadResourceContent(x: &api::ReadResourceContent) -> String {
  #[allow(unreachable_patterns)] match x {
    api::ReadResourceContent::TextResourceContents(..) => "TextResourceContents".to_string(),
    api::ReadResourceContent::BlobResourceContents(..) => "BlobResourceContents".to_string(),
    _ => "?".to_string(),
  }
}
pub fn var_RequestFromClient(x: &api::RequestFromClient) -> String {
  #[allow(unreachable_patterns)] match x {
    api::RequestFromClient::ClientRequest(y) => format!("ClientRequest/{}", var_ClientRequest(y)),
    api::RequestFromClient::CustomRequest(..) => "CustomRequest".to_string(),
    _ => "?".to_string(),
  }
}
pub fn var_RequestFromServer(x: &api::RequestFromServer) -> String {
  #[allow(unreachable_patterns)] match x {
    api::RequestFromServer::ServerRequest(y) => format!("ServerRequest/{}", var_ServerRequest(y)),
    api::RequestFromServer::CustomRequest(..) => "CustomRequest".to_string(),
    _ => "?".to_string(),
  }
}
pub fn var_RequestId(x: &api::RequestId) -> String {
  #[allow(unreachable_patterns)] match x {
    api::RequestId::String(..) => "String".to_string(),
    api::RequestId::Integer(..) => "Integer".to_string(),
    _ => "?".to_string(),
  }
}
pub fn var_ResultFromClient(x: &api::ResultFromClient) -> String {
  #[allow(unreachable_patterns)] match x {
    api::ResultFromClient::ClientResult(y) => format!("ClientResult/{}", var_ClientResult(y)),
    api::ResultFromClient::CustomResult(..) => "CustomResult".to_string(),
    _ => "?".to_string(),
  }
}
pub fn var_ResultFromServer(x: &api::ResultFromServer) -> String {
  #[allow(unreachable_patterns)] match x {
    api::ResultFromServer::ServerResult(y) => format!("ServerResult/{}", var_ServerResult(y)),
    api::ResultFromServer::CustomResult(..) => "CustomResult".to_string(),
    _ => "?".to_string(),
  }
}
pub fn var_SamplingMessageContent(x: &api::SamplingMessageContent) -> String {
  #[allow(unreachable_patterns)] match x {
    api::SamplingMessageContent::TextContent(..) => "TextContent".to_string(),
    api::SamplingMessageContent::ImageContent(..) => "ImageContent".to_string(),
    api::SamplingMessageContent::AudioContent(..) => "AudioContent".to_string(),
    _ => "?".to_string(),
  }
}
pub fn var_ServerJsonrpcNotification(x: &api::ServerJsonrpcNotification) -> String {
  var_NotificationFromServer(&x.notification)
}
pub fn var_ServerJsonrpcRequest(x: &api::ServerJsonrpcRequest) -> String {
  var_RequestFromServer(&x.request)
}
pub fn var_ServerJsonrpcResponse(x: &api::ServerJsonrpcResponse) -> String {
  var_ResultFromServer(&x.result)
}
pub fn var_ServerMessage(x: &api::ServerMessage) -> String {
  #[allow(unreachable_patterns)] match x {
    api::ServerMessage::Request(y) => format!("Request/{}", var_ServerJsonrpcRequest(y)),
    api::ServerMessage::Notification(y) => format!("Notification/{}", var_ServerJsonrpcNotification(y)),
    api::ServerMessage::Response(y) => format!("Response/{}", var_ServerJsonrpcResponse(y)),
    api::ServerMessage::Error(..) => "Error".to_string(),
    _ => "?".to_string(),
  }
}
pub fn var_ServerMessages(x: &api::ServerMessages) -> String {
  #[allow(unreachable_patterns)] match x {
    api::ServerMessages::Single(y) => format!("Single/{}", var_ServerMessage(y)),
    api::ServerMessages::Batch(..) => "Batch".to_string(),
    _ => "?".to_string(),
  }
}
pub fn var_ServerNotification(x: &api::ServerNotification) -> String {
  #[allow(unreachable_patterns)] match x {
    api::ServerNotification::CancelledNotification(..) => "CancelledNotification".to_string(),
    api::ServerNotification::ProgressNotification(..) => "ProgressNotification".to_string(),
    api::ServerNotification::ResourceListChangedNotification(..) => "ResourceListChangedNotification".to_string(),
    api::ServerNotification::ResourceUpdatedNotification(..) => "ResourceUpdatedNotification".to_string(),
    api::ServerNotification::PromptListChangedNotification(..) => "PromptListChangedNotification".to_string(),
    api::ServerNotification::ToolListChangedNotification(..) => "ToolListChangedNotification".to_string(),
    api::ServerNotification::LoggingMessageNotification(..) => "LoggingMessageNotification".to_string(),
    _ => "?".to_string(),
  }
}
pub fn var_ServerRequest(x: &api::ServerRequest) -> String {
  #[allow(unreachable_patterns)] match x {
    api::ServerRequest::PingRequest(..) => "PingRequest".to_string(),
    api::ServerRequest::CreateMessageRequest(..) => "CreateMessageRequest".to_string(),
    api::ServerRequest::ListRootsRequest(..) => "ListRootsRequest".to_string(),
    _ => "?".to_string(),
  }
}
pub fn var_ServerResult(x: &api::ServerResult) -> String {
  #[allow(unreachable_patterns)] match x {
    api::ServerResult::InitializeResult(..) => "InitializeResult".to_string(),
    api::ServerResult::ListResourcesResult(..) => "ListResourcesResult".to_string(),
    api::ServerResult::ListResourceTemplatesResult(..) => "ListResourceTemplatesResult".to_string(),
    api::ServerResult::ReadResourceResult(..) => "ReadResourceResult".to_string(),
    api::ServerResult::ListPromptsResult(..) => "ListPromptsResult".to_string(),
    api::ServerResult::GetPromptResult(..) => "GetPromptResult".to_string(),
    api::ServerResult::ListToolsResult(..) => "ListToolsResult".to_string(),
    api::ServerResult::CallToolResult(..) => "CallToolResult".to_string(),
    api::ServerResult::CompleteResult(..) => "CompleteResult".to_string(),
    api::ServerResult::Result(..) => "Result".to_string(),
    _ => "?".to_string(),
  }
}
pub fn mk_RequestFromClient(path: &[&str], v: &Value) -> Result<api::RequestFromClient, String> { Ok(match path[0] {
    "ClientRequest" => api::RequestFromClient::ClientRequest(mk_ClientRequest(&path[1..], v)?),
    "CustomRequest" => api::RequestFromClient::CustomRequest(j::<Value>(v)?),
    x => return Err(format!("no variant {x}")),
  })}
pub const VARIANTS_REQUESTFROMCLIENT: &[(&str, &str)] = &[("ClientRequest", "ClientRequest"), ("CustomRequest", "Value")];
pub fn mk_RequestFromServer(path: &[&str], v: &Value) -> Result<api::RequestFromServer, String> { Ok(match path[0] {
    "ServerRequest" => api::RequestFromServer::ServerRequest(mk_ServerRequest(&path[1..], v)?),
    "CustomRequest" => api::RequestFromServer::CustomRequest(j::<Value>(v)?),
    x => return Err(format!("no variant {x}")),
  })}
pub const VARIANTS_REQUESTFROMSERVER: &[(&str, &str)] = &[("ServerRequest", "ServerRequest"), ("CustomRequest", "Value")];
pub fn mk_NotificationFromClient(path: &[&str], v: &Value) -> Result<api::NotificationFromClient, String> { Ok(match path[0] {
    "ClientNotification" => api::NotificationFromClient::ClientNotification(mk_ClientNotification(&path[1..], v)?),
    "CustomNotification" => api::NotificationFromClient::CustomNotification(j::<Value>(v)?),
    x => return Err(format!("no variant {x}")),
  })}
pub const VARIANTS_NOTIFICATIONFROMCLIENT: &[(&str, &str)] = &[("ClientNotification", "ClientNotification"), ("CustomNotification", "Value")];
pub fn mk_NotificationFromServer(path: &[&str], v: &Value) -> Result<api::NotificationFromServer, String> { Ok(match path[0] {
    "ServerNotification" => api::NotificationFromServer::ServerNotification(mk_ServerNotification(&path[1..], v)?),
    "CustomNotification" => api::NotificationFromServer::CustomNotification(j::<Value>(v)?),
    x => return Err(format!("no variant {x}")),
  })}
pub const VARIANTS_NOTIFICATIONFROMSERVER: &[(&str, &str)] = &[("ServerNotification", "ServerNotification"), ("CustomNotification", "Value")];
pub fn mk_ResultFromClient(path: &[&str], v: &Value) -> Result<api::ResultFromClient, String> { Ok(match path[0] {
    "ClientResult" => api::ResultFromClient::ClientResult(mk_ClientResult(&path[1..], v)?),
    "CustomResult" => api::ResultFromClient::CustomResult(j::<Value>(v)?),
    x => return Err(format!("no variant {x}")),
  })}
pub const VARIANTS_RESULTFROMCLIENT: &[(&str, &str)] = &[("ClientResult", "ClientResult"), ("CustomResult", "Value")];
pub fn mk_ResultFromServer(path: &[&str], v: &Value) -> Result<api::ResultFromServer, String> { Ok(match path[0] {
    "ServerResult" => api::ResultFromServer::ServerResult(mk_ServerResult(&path[1..], v)?),
    "CustomResult" => api::ResultFromServer::CustomResult(j::<Value>(v)?),
    x => return Err(format!("no variant {x}")),
  })}
pub const VARIANTS_RESULTFROMSERVER: &[(&str, &str)] = &[("ServerResult", "ServerResult"), ("CustomResult", "Value")];
pub fn mk_ServerResult(path: &[&str], v: &Value) -> Result<api::ServerResult, String> { Ok(match path[0] {
    "InitializeResult" => api::ServerResult::InitializeResult(j::<api::InitializeResult>(v)?),
    "ListResourcesResult" => api::ServerResult::ListResourcesResult(j::<api::ListResourcesResult>(v)?),
    "ListResourceTemplatesResult" => api::ServerResult::ListResourceTemplatesResult(j::<api::ListResourceTemplatesResult>(v)?),
    "ReadResourceResult" => api::ServerResult::ReadResourceResult(j::<api::ReadResourceResult>(v)?),
    "ListPromptsResult" => api::ServerResult::ListPromptsResult(j::<api::ListPromptsResult>(v)?),
    "GetPromptResult" => api::ServerResult::GetPromptResult(j::<api::GetPromptResult>(v)?),
    "ListToolsResult" => api::ServerResult::ListToolsResult(j::<api::ListToolsResult>(v)?),
    "CallToolResult" => api::ServerResult::CallToolResult(j::<api::CallToolResult>(v)?),
    "CompleteResult" => api::ServerResult::CompleteResult(j::<api::CompleteResult>(v)?),
    "Result" => api::ServerResult::Result(j::<api::Result>(v)?),
    x => return Err(format!("no variant {x}")),
  })}
pub const VARIANTS_SERVERRESULT: &[(&str, &str)] = &[("InitializeResult", "InitializeResult"), ("ListResourcesResult", "ListResourcesResult"), ("ListResourceTemplatesResult", "ListResourceTemplatesResult"), ("ReadResourceResult", "ReadResourceResult"), ("ListPromptsResult", "ListPromptsResult"), ("GetPromptResult", "GetPromptResult"), ("ListToolsResult", "ListToolsResult"), ("CallToolResult", "CallToolResult"), ("CompleteResult", "CompleteResult"), ("Result", "Result")];
pub fn mk_ClientResult(path: &[&str], v: &Value) -> Result<api::ClientResult, String> { Ok(match path[0] {
    "CreateMessageResult" => api::ClientResult::CreateMessageResult(j::<api::CreateMessageResult>(v)?),
    "ListRootsResult" => api::ClientResult::ListRootsResult(j::<api::ListRootsResult>(v)?),
    "Result" => api::ClientResult::Result(j::<api::Result>(v)?),
    x => return Err(format!("no variant {x}")),
  })}
pub const VARIANTS_CLIENTRESULT: &[(&str, &str)] = &[("CreateMessageResult", "CreateMessageResult"), ("ListRootsResult", "ListRootsResult"), ("Result", "Result")];
pub fn mk_ClientRequest(path: &[&str], v: &Value) -> Result<api::ClientRequest, String> { Ok(match path[0] {
    "InitializeRequest" => api::ClientRequest::InitializeRequest(j::<api::InitializeRequest>(v)?),
    "PingRequest" => api::ClientRequest::PingRequest(j::<api::PingRequest>(v)?),
    "ListResourcesRequest" => api::ClientRequest::ListResourcesRequest(j::<api::ListResourcesRequest>(v)?),
    "ListResourceTemplatesRequest" => api::ClientRequest::ListResourceTemplatesRequest(j::<api::ListResourceTemplatesRequest>(v)?),
    "ReadResourceRequest" => api::ClientRequest::ReadResourceRequest(j::<api::ReadResourceRequest>(v)?),
    "SubscribeRequest" => api::ClientRequest::SubscribeRequest(j::<api::SubscribeRequest>(v)?),
    "UnsubscribeRequest" => api::ClientRequest::UnsubscribeRequest(j::<api::UnsubscribeRequest>(v)?),
    "ListPromptsRequest" => api::ClientRequest::ListPromptsRequest(j::<api::ListPromptsRequest>(v)?),
    "GetPromptRequest" => api::ClientRequest::GetPromptRequest(j::<api::GetPromptRequest>(v)?),
    "ListToolsRequest" => api::ClientRequest::ListToolsRequest(j::<api::ListToolsRequest>(v)?),
    "CallToolRequest" => api::ClientRequest::CallToolRequest(j::<api::CallToolRequest>(v)?),
    "SetLevelRequest" => api::ClientRequest::SetLevelRequest(j::<api::SetLevelRequest>(v)?),
    "CompleteRequest" => api::ClientRequest::CompleteRequest(j::<api::CompleteRequest>(v)?),
    x => return Err(format!("no variant {x}")),
  })}
pub const VARIANTS_CLIENTREQUEST: &[(&str, &str)] = &[("InitializeRequest", "InitializeRequest"), ("PingRequest", "PingRequest"), ("ListResourcesRequest", "ListResourcesRequest"), ("ListResourceTemplatesRequest", "ListResourceTemplatesRequest"), ("ReadResourceRequest", "ReadResourceRequest"), ("SubscribeRequest", "SubscribeRequest"), ("UnsubscribeRequest", "UnsubscribeRequest"), ("ListPromptsRequest", "ListPromptsRequest"), ("GetPromptRequest", "GetPromptRequest"), ("ListToolsRequest", "ListToolsRequest"), ("CallToolRequest", "CallToolRequest"), ("SetLevelRequest", "SetLevelRequest"), ("CompleteRequest", "CompleteRequest")];
pub fn mk_ServerRequest(path: &[&str], v: &Value) -> Result<api::ServerRequest, String> { Ok(match path[0] {
    "PingRequest" => api::ServerRequest::PingRequest(j::<api::PingRequest>(v)?),
    "CreateMessageRequest" => api::ServerRequest::CreateMessageRequest(j::<api::CreateMessageRequest>(v)?),
    "ListRootsRequest" => api::ServerRequest::ListRootsRequest(j::<api::ListRootsRequest>(v)?),
    x => return Err(format!("no variant {x}")),
  })}
pub const VARIANTS_SERVERREQUEST: &[(&str, &str)] = &[("PingRequest", "PingRequest"), ("CreateMessageRequest", "CreateMessageRequest"), ("ListRootsRequest", "ListRootsRequest")];
pub fn mk_ClientNotification(path: &[&str], v: &Value) -> Result<api::ClientNotification, String> { Ok(match path[0] {
    "CancelledNotification" => api::ClientNotification::CancelledNotification(j::<api::CancelledNotification>(v)?),
    "InitializedNotification" => api::ClientNotification::InitializedNotification(j::<api::InitializedNotification>(v)?),
    "ProgressNotification" => api::ClientNotification::ProgressNotification(j::<api::ProgressNotification>(v)?),
    "RootsListChangedNotification" => api::ClientNotification::RootsListChangedNotification(j::<api::RootsListChangedNotification>(v)?),
    x => return Err(format!("no variant {x}")),
  })}
pub const VARIANTS_CLIENTNOTIFICATION: &[(&str, &str)] = &[("CancelledNotification", "CancelledNotification"), ("InitializedNotification", "InitializedNotification"), ("ProgressNotification", "ProgressNotification"), ("RootsListChangedNotification", "RootsListChangedNotification")];
pub fn mk_ServerNotification(path: &[&str], v: &Value) -> Result<api::ServerNotification, String> { Ok(match path[0] {
    "CancelledNotification" => api::ServerNotification::CancelledNotification(j::<api::CancelledNotification>(v)?),
    "ProgressNotification" => api::ServerNotification::ProgressNotification(j::<api::ProgressNotification>(v)?),
    "ResourceListChangedNotification" => api::ServerNotification::ResourceListChangedNotification(j::<api::ResourceListChangedNotification>(v)?),
    "ResourceUpdatedNotification" => api::ServerNotification::ResourceUpdatedNotification(j::<api::ResourceUpdatedNotification>(v)?),
    "PromptListChangedNotification" => api::ServerNotification::PromptListChangedNotification(j::<api::PromptListChangedNotification>(v)?),
    "ToolListChangedNotification" => api::ServerNotification::ToolListChangedNotification(j::<api::ToolListChangedNotification>(v)?),
    "LoggingMessageNotification" => api::ServerNotification::LoggingMessageNotification(j::<api::LoggingMessageNotification>(v)?),
    x => return Err(format!("no variant {x}")),
  })}
pub const VARIANTS_SERVERNOTIFICATION: &[(&str, &str)] = &[("CancelledNotification", "CancelledNotification"), ("ProgressNotification", "ProgressNotification"), ("ResourceListChangedNotification", "ResourceListChangedNotification"), ("ResourceUpdatedNotification", "ResourceUpdatedNotification"), ("PromptListChangedNotification", "PromptListChangedNotification"), ("ToolListChangedNotification", "ToolListChangedNotification"), ("LoggingMessageNotification", "LoggingMessageNotification")];
pub fn mk_MessageFromClient(path: &[&str], v: &Value) -> Result<api::MessageFromClient, String> { Ok(match path[0] {
    "RequestFromClient" => api::MessageFromClient::RequestFromClient(mk_RequestFromClient(&path[1..], v)?),
    "ResultFromClient" => api::MessageFromClient::ResultFromClient(mk_ResultFromClient(&path[1..], v)?),
    "NotificationFromClient" => api::MessageFromClient::NotificationFromClient(mk_NotificationFromClient(&path[1..], v)?),
    "Error" => api::MessageFromClient::Error(j::<api::RpcError>(v)?),
    x => return Err(format!("no variant {x}")),
  })}
pub const VARIANTS_MESSAGEFROMCLIENT: &[(&str, &str)] = &[("RequestFromClient", "RequestFromClient"), ("ResultFromClient", "ResultFromClient"), ("NotificationFromClient", "NotificationFromClient"), ("Error", "RpcError")];
pub fn mk_MessageFromServer(path: &[&str], v: &Value) -> Result<api::MessageFromServer, String> { Ok(match path[0] {
    "RequestFromServer" => api::MessageFromServer::RequestFromServer(mk_RequestFromServer(&path[1..], v)?),
    "ResultFromServer" => api::MessageFromServer::ResultFromServer(mk_ResultFromServer(&path[1..], v)?),
    "NotificationFromServer" => api::MessageFromServer::NotificationFromServer(mk_NotificationFromServer(&path[1..], v)?),
    "Error" => api::MessageFromServer::Error(j::<api::RpcError>(v)?),
    x => return Err(format!("no variant {x}")),
  })}
pub const VARIANTS_MESSAGEFROMSERVER: &[(&str, &str)] = &[("RequestFromServer", "RequestFromServer"), ("ResultFromServer", "ResultFromServer"), ("NotificationFromServer", "NotificationFromServer"), ("Error", "RpcError")];
pub fn variants(e: &str) -> &'static [(&'static str, &'static str)] { match e { "RequestFromClient" => VARIANTS_REQUESTFROMCLIENT, "RequestFromServer" => VARIANTS_REQUESTFROMSERVER, "NotificationFromClient" => VARIANTS_NOTIFICATIONFROMCLIENT, "NotificationFromServer" => VARIANTS_NOTIFICATIONFROMSERVER, "ResultFromClient" => VARIANTS_RESULTFROMCLIENT, "ResultFromServer" => VARIANTS_RESULTFROMSERVER, "ServerResult" => VARIANTS_SERVERRESULT, "ClientResult" => VARIANTS_CLIENTRESULT, "ClientRequest" => VARIANTS_CLIENTREQUEST, "ServerRequest" => VARIANTS_SERVERREQUEST, "ClientNotification" => VARIANTS_CLIENTNOTIFICATION, "ServerNotification" => VARIANTS_SERVERNOTIFICATION, "MessageFromClient" => VARIANTS_MESSAGEFROMCLIENT, "MessageFromServer" => VARIANTS_MESSAGEFROMSERVER, _ => &[] } }
