// generated once by tools/gen_registry.py from the public API; edit the generator, not this file
#![allow(clippy::all, unused, deprecated)]
use crate::reg::*;
use serde_json::Value;
use rust_mcp_schema::mcp_2026_07_28 as root;
pub mod api { pub use super::root::*; pub use super::root::schema_utils::*; pub use rust_mcp_schema::{ProtocolVersion, ParseProtocolVersionError}; }
pub const VERSION: &str = "2026_07_28";
pub const MODEL: &str = include_str!("../../../model/2026_07_28.json");
pub fn registry() -> Reg { let mut r = Reg::default();
  // comparisons
  r.sames.push(crate::same_fn!("CacheableResultCacheScope", api::CacheableResultCacheScope));
  r.sames.push(crate::same_fn!("DiscoverResultCacheScope", api::DiscoverResultCacheScope));
  r.sames.push(crate::same_fn!("ElicitResultAction", api::ElicitResultAction));
  r.sames.push(crate::same_fn!("IconTheme", api::IconTheme));
  r.sames.push(crate::same_fn!("IncludeContext", api::IncludeContext));
  r.sames.push(crate::same_fn!("ListPromptsResultCacheScope", api::ListPromptsResultCacheScope));
  r.sames.push(crate::same_fn!("ListResourceTemplatesResultCacheScope", api::ListResourceTemplatesResultCacheScope));
  r.sames.push(crate::same_fn!("ListResourcesResultCacheScope", api::ListResourcesResultCacheScope));
  r.sames.push(crate::same_fn!("ListToolsResultCacheScope", api::ListToolsResultCacheScope));
  r.sames.push(crate::same_fn!("LoggingLevel", api::LoggingLevel));
  r.sames.push(crate::same_fn!("NumberSchemaType", api::NumberSchemaType));
  r.sames.push(crate::same_fn!("ReadResourceResultCacheScope", api::ReadResourceResultCacheScope));
  r.sames.push(crate::same_fn!("Role", api::Role));
  r.sames.push(crate::same_fn!("StringSchemaFormat", api::StringSchemaFormat));
  r.sames.push(crate::same_fn!("ToolChoiceMode", api::ToolChoiceMode));
  r.types.push(TypeOps{name:"Annotations", schema:true, rt: rt::<api::Annotations>, rts: rts::<api::Annotations>});
  r.types.push(TypeOps{name:"AudioContent", schema:true, rt: rt::<api::AudioContent>, rts: rts::<api::AudioContent>});
  r.types.push(TypeOps{name:"BaseMetadata", schema:true, rt: rt::<api::BaseMetadata>, rts: rts::<api::BaseMetadata>});
  r.types.push(TypeOps{name:"BlobResourceContents", schema:true, rt: rt::<api::BlobResourceContents>, rts: rts::<api::BlobResourceContents>});
  r.types.push(TypeOps{name:"BooleanSchema", schema:true, rt: rt::<api::BooleanSchema>, rts: rts::<api::BooleanSchema>});
  r.types.push(TypeOps{name:"CacheableResult", schema:true, rt: rt::<api::CacheableResult>, rts: rts::<api::CacheableResult>});
  r.types.push(TypeOps{name:"CacheableResultCacheScope", schema:true, rt: rt::<api::CacheableResultCacheScope>, rts: rts::<api::CacheableResultCacheScope>});
  r.types.push(TypeOps{name:"CallToolRequest", schema:true, rt: rt::<api::CallToolRequest>, rts: rts::<api::CallToolRequest>});
  r.types.push(TypeOps{name:"CallToolRequestParams", schema:true, rt: rt::<api::CallToolRequestParams>, rts: rts::<api::CallToolRequestParams>});
  r.types.push(TypeOps{name:"CallToolResult", schema:true, rt: rt::<api::CallToolResult>, rts: rts::<api::CallToolResult>});
  r.types.push(TypeOps{name:"CallToolResultResponse", schema:true, rt: rt::<api::CallToolResultResponse>, rts: rts::<api::CallToolResultResponse>});
  r.types.push(TypeOps{name:"CallToolResultResponseResult", schema:true, rt: rt::<api::CallToolResultResponseResult>, rts: rts::<api::CallToolResultResponseResult>});
  r.types.push(TypeOps{name:"CancelledNotification", schema:true, rt: rt::<api::CancelledNotification>, rts: rts::<api::CancelledNotification>});
  r.types.push(TypeOps{name:"CancelledNotificationParams", schema:true, rt: rt::<api::CancelledNotificationParams>, rts: rts::<api::CancelledNotificationParams>});
  r.types.push(TypeOps{name:"ClientCapabilities", schema:true, rt: rt::<api::ClientCapabilities>, rts: rts::<api::ClientCapabilities>});
  r.types.push(TypeOps{name:"ClientElicitation", schema:true, rt: rt::<api::ClientElicitation>, rts: rts::<api::ClientElicitation>});
  r.types.push(TypeOps{name:"ClientJsonrpcNotification", schema:false, rt: rt::<api::ClientJsonrpcNotification>, rts: rts::<api::ClientJsonrpcNotification>});
  r.types.push(TypeOps{name:"ClientJsonrpcRequest", schema:false, rt: rt::<api::ClientJsonrpcRequest>, rts: rts::<api::ClientJsonrpcRequest>});
  r.types.push(TypeOps{name:"ClientJsonrpcResponse", schema:false, rt: rt::<api::ClientJsonrpcResponse>, rts: rts::<api::ClientJsonrpcResponse>});
  r.types.push(TypeOps{name:"ClientMessage", schema:false, rt: rt::<api::ClientMessage>, rts: rts::<api::ClientMessage>});
  r.types.push(TypeOps{name:"ClientMessages", schema:false, rt: rt::<api::ClientMessages>, rts: rts::<api::ClientMessages>});
  r.types.push(TypeOps{name:"ClientNotification", schema:true, rt: rt::<api::ClientNotification>, rts: rts::<api::ClientNotification>});
  r.types.push(TypeOps{name:"ClientRequest", schema:true, rt: rt::<api::ClientRequest>, rts: rts::<api::ClientRequest>});
  r.types.push(TypeOps{name:"ClientResult", schema:true, rt: rt::<api::ClientResult>, rts: rts::<api::ClientResult>});
  r.types.push(TypeOps{name:"ClientSampling", schema:true, rt: rt::<api::ClientSampling>, rts: rts::<api::ClientSampling>});
  r.types.push(TypeOps{name:"CompleteRequest", schema:true, rt: rt::<api::CompleteRequest>, rts: rts::<api::CompleteRequest>});
  r.types.push(TypeOps{name:"CompleteRequestArgument", schema:true, rt: rt::<api::CompleteRequestArgument>, rts: rts::<api::CompleteRequestArgument>});
  r.types.push(TypeOps{name:"CompleteRequestContext", schema:true, rt: rt::<api::CompleteRequestContext>, rts: rts::<api::CompleteRequestContext>});
  r.types.push(TypeOps{name:"CompleteRequestParams", schema:true, rt: rt::<api::CompleteRequestParams>, rts: rts::<api::CompleteRequestParams>});
  r.types.push(TypeOps{name:"CompleteRequestRef", schema:true, rt: rt::<api::CompleteRequestRef>, rts: rts::<api::CompleteRequestRef>});
  r.types.push(TypeOps{name:"CompleteResult", schema:true, rt: rt::<api::CompleteResult>, rts: rts::<api::CompleteResult>});
  r.types.push(TypeOps{name:"CompleteResultCompletion", schema:true, rt: rt::<api::CompleteResultCompletion>, rts: rts::<api::CompleteResultCompletion>});
  r.types.push(TypeOps{name:"CompleteResultResponse", schema:true, rt: rt::<api::CompleteResultResponse>, rts: rts::<api::CompleteResultResponse>});
  r.types.push(TypeOps{name:"ContentBlock", schema:true, rt: rt::<api::ContentBlock>, rts: rts::<api::ContentBlock>});
  r.types.push(TypeOps{name:"CreateMessageContent", schema:true, rt: rt::<api::CreateMessageContent>, rts: rts::<api::CreateMessageContent>});
  r.types.push(TypeOps{name:"CreateMessageRequest", schema:true, rt: rt::<api::CreateMessageRequest>, rts: rts::<api::CreateMessageRequest>});
  r.types.push(TypeOps{name:"CreateMessageRequestParams", schema:true, rt: rt::<api::CreateMessageRequestParams>, rts: rts::<api::CreateMessageRequestParams>});
  r.types.push(TypeOps{name:"CreateMessageResult", schema:true, rt: rt::<api::CreateMessageResult>, rts: rts::<api::CreateMessageResult>});
  r.types.push(TypeOps{name:"Cursor", schema:true, rt: rt::<api::Cursor>, rts: rts::<api::Cursor>});
  r.types.push(TypeOps{name:"CustomRequest", schema:false, rt: rt::<api::CustomRequest>, rts: rts::<api::CustomRequest>});
  r.types.push(TypeOps{name:"DiscoverRequest", schema:true, rt: rt::<api::DiscoverRequest>, rts: rts::<api::DiscoverRequest>});
  r.types.push(TypeOps{name:"DiscoverResult", schema:true, rt: rt::<api::DiscoverResult>, rts: rts::<api::DiscoverResult>});
  r.types.push(TypeOps{name:"DiscoverResultCacheScope", schema:true, rt: rt::<api::DiscoverResultCacheScope>, rts: rts::<api::DiscoverResultCacheScope>});
  r.types.push(TypeOps{name:"DiscoverResultResponse", schema:true, rt: rt::<api::DiscoverResultResponse>, rts: rts::<api::DiscoverResultResponse>});
  r.types.push(TypeOps{name:"ElicitRequest", schema:true, rt: rt::<api::ElicitRequest>, rts: rts::<api::ElicitRequest>});
  r.types.push(TypeOps{name:"ElicitRequestFormParams", schema:true, rt: rt::<api::ElicitRequestFormParams>, rts: rts::<api::ElicitRequestFormParams>});
  r.types.push(TypeOps{name:"ElicitRequestFormParamsRequestedSchema", schema:true, rt: rt::<api::ElicitRequestFormParamsRequestedSchema>, rts: rts::<api::ElicitRequestFormParamsRequestedSchema>});
  r.types.push(TypeOps{name:"ElicitRequestParams", schema:true, rt: rt::<api::ElicitRequestParams>, rts: rts::<api::ElicitRequestParams>});
  r.types.push(TypeOps{name:"ElicitRequestUrlParams", schema:true, rt: rt::<api::ElicitRequestUrlParams>, rts: rts::<api::ElicitRequestUrlParams>});
  r.types.push(TypeOps{name:"ElicitResult", schema:true, rt: rt::<api::ElicitResult>, rts: rts::<api::ElicitResult>});
  r.types.push(TypeOps{name:"ElicitResultAction", schema:true, rt: rt::<api::ElicitResultAction>, rts: rts::<api::ElicitResultAction>});
  r.types.push(TypeOps{name:"ElicitResultContent", schema:true, rt: rt::<api::ElicitResultContent>, rts: rts::<api::ElicitResultContent>});
  r.types.push(TypeOps{name:"ElicitResultContentPrimitive", schema:true, rt: rt::<api::ElicitResultContentPrimitive>, rts: rts::<api::ElicitResultContentPrimitive>});
  r.types.push(TypeOps{name:"EmbeddedResource", schema:true, rt: rt::<api::EmbeddedResource>, rts: rts::<api::EmbeddedResource>});
  r.types.push(TypeOps{name:"EmbeddedResourceResource", schema:true, rt: rt::<api::EmbeddedResourceResource>, rts: rts::<api::EmbeddedResourceResource>});
  r.types.push(TypeOps{name:"EmptyResult", schema:true, rt: rt::<api::EmptyResult>, rts: rts::<api::EmptyResult>});
  r.types.push(TypeOps{name:"EnumSchema", schema:true, rt: rt::<api::EnumSchema>, rts: rts::<api::EnumSchema>});
  r.types.push(TypeOps{name:"GetPromptRequest", schema:true, rt: rt::<api::GetPromptRequest>, rts: rts::<api::GetPromptRequest>});
  r.types.push(TypeOps{name:"GetPromptRequestParams", schema:true, rt: rt::<api::GetPromptRequestParams>, rts: rts::<api::GetPromptRequestParams>});
  r.types.push(TypeOps{name:"GetPromptResult", schema:true, rt: rt::<api::GetPromptResult>, rts: rts::<api::GetPromptResult>});
  r.types.push(TypeOps{name:"GetPromptResultResponse", schema:true, rt: rt::<api::GetPromptResultResponse>, rts: rts::<api::GetPromptResultResponse>});
  r.types.push(TypeOps{name:"GetPromptResultResponseResult", schema:true, rt: rt::<api::GetPromptResultResponseResult>, rts: rts::<api::GetPromptResultResponseResult>});
  r.types.push(TypeOps{name:"HeaderMismatchError", schema:true, rt: rt::<api::HeaderMismatchError>, rts: rts::<api::HeaderMismatchError>});
  r.types.push(TypeOps{name:"Icon", schema:true, rt: rt::<api::Icon>, rts: rts::<api::Icon>});
  r.types.push(TypeOps{name:"IconTheme", schema:true, rt: rt::<api::IconTheme>, rts: rts::<api::IconTheme>});
  r.types.push(TypeOps{name:"Icons", schema:true, rt: rt::<api::Icons>, rts: rts::<api::Icons>});
  r.types.push(TypeOps{name:"ImageContent", schema:true, rt: rt::<api::ImageContent>, rts: rts::<api::ImageContent>});
  r.types.push(TypeOps{name:"Implementation", schema:true, rt: rt::<api::Implementation>, rts: rts::<api::Implementation>});
  r.types.push(TypeOps{name:"IncludeContext", schema:true, rt: rt::<api::IncludeContext>, rts: rts::<api::IncludeContext>});
  r.types.push(TypeOps{name:"InputRequest", schema:true, rt: rt::<api::InputRequest>, rts: rts::<api::InputRequest>});
  r.types.push(TypeOps{name:"InputRequests", schema:true, rt: rt::<api::InputRequests>, rts: rts::<api::InputRequests>});
  r.types.push(TypeOps{name:"InputRequiredResult", schema:true, rt: rt::<api::InputRequiredResult>, rts: rts::<api::InputRequiredResult>});
  r.types.push(TypeOps{name:"InputResponse", schema:true, rt: rt::<api::InputResponse>, rts: rts::<api::InputResponse>});
  r.types.push(TypeOps{name:"InputResponseRequestParams", schema:true, rt: rt::<api::InputResponseRequestParams>, rts: rts::<api::InputResponseRequestParams>});
  r.types.push(TypeOps{name:"InputResponses", schema:true, rt: rt::<api::InputResponses>, rts: rts::<api::InputResponses>});
  r.types.push(TypeOps{name:"InternalError", schema:true, rt: rt::<api::InternalError>, rts: rts::<api::InternalError>});
  r.types.push(TypeOps{name:"InvalidParamsError", schema:true, rt: rt::<api::InvalidParamsError>, rts: rts::<api::InvalidParamsError>});
  r.types.push(TypeOps{name:"InvalidRequestError", schema:true, rt: rt::<api::InvalidRequestError>, rts: rts::<api::InvalidRequestError>});
  r.types.push(TypeOps{name:"JsonArray", schema:true, rt: rt::<api::JsonArray>, rts: rts::<api::JsonArray>});
  r.types.push(TypeOps{name:"JsonObject", schema:true, rt: rt::<api::JsonObject>, rts: rts::<api::JsonObject>});
  r.types.push(TypeOps{name:"JsonValue", schema:true, rt: rt::<api::JsonValue>, rts: rts::<api::JsonValue>});
  r.types.push(TypeOps{name:"JsonValueVariant2", schema:true, rt: rt::<api::JsonValueVariant2>, rts: rts::<api::JsonValueVariant2>});
  r.types.push(TypeOps{name:"JsonrpcErrorResponse", schema:true, rt: rt::<api::JsonrpcErrorResponse>, rts: rts::<api::JsonrpcErrorResponse>});
  r.types.push(TypeOps{name:"JsonrpcMessage", schema:true, rt: rt::<api::JsonrpcMessage>, rts: rts::<api::JsonrpcMessage>});
  r.types.push(TypeOps{name:"JsonrpcNotification", schema:true, rt: rt::<api::JsonrpcNotification>, rts: rts::<api::JsonrpcNotification>});
  r.types.push(TypeOps{name:"JsonrpcRequest", schema:true, rt: rt::<api::JsonrpcRequest>, rts: rts::<api::JsonrpcRequest>});
  r.types.push(TypeOps{name:"JsonrpcResponse", schema:true, rt: rt::<api::JsonrpcResponse>, rts: rts::<api::JsonrpcResponse>});
  r.types.push(TypeOps{name:"JsonrpcResultResponse", schema:true, rt: rt::<api::JsonrpcResultResponse>, rts: rts::<api::JsonrpcResultResponse>});
  r.types.push(TypeOps{name:"LegacyTitledEnumSchema", schema:true, rt: rt::<api::LegacyTitledEnumSchema>, rts: rts::<api::LegacyTitledEnumSchema>});
  r.types.push(TypeOps{name:"ListPromptsRequest", schema:true, rt: rt::<api::ListPromptsRequest>, rts: rts::<api::ListPromptsRequest>});
  r.types.push(TypeOps{name:"ListPromptsResult", schema:true, rt: rt::<api::ListPromptsResult>, rts: rts::<api::ListPromptsResult>});
  r.types.push(TypeOps{name:"ListPromptsResultCacheScope", schema:true, rt: rt::<api::ListPromptsResultCacheScope>, rts: rts::<api::ListPromptsResultCacheScope>});
  r.types.push(TypeOps{name:"ListPromptsResultResponse", schema:true, rt: rt::<api::ListPromptsResultResponse>, rts: rts::<api::ListPromptsResultResponse>});
  r.types.push(TypeOps{name:"ListResourceTemplatesRequest", schema:true, rt: rt::<api::ListResourceTemplatesRequest>, rts: rts::<api::ListResourceTemplatesRequest>});
  r.types.push(TypeOps{name:"ListResourceTemplatesResult", schema:true, rt: rt::<api::ListResourceTemplatesResult>, rts: rts::<api::ListResourceTemplatesResult>});
  r.types.push(TypeOps{name:"ListResourceTemplatesResultCacheScope", schema:true, rt: rt::<api::ListResourceTemplatesResultCacheScope>, rts: rts::<api::ListResourceTemplatesResultCacheScope>});
  r.types.push(TypeOps{name:"ListResourceTemplatesResultResponse", schema:true, rt: rt::<api::ListResourceTemplatesResultResponse>, rts: rts::<api::ListResourceTemplatesResultResponse>});
  r.types.push(TypeOps{name:"ListResourcesRequest", schema:true, rt: rt::<api::ListResourcesRequest>, rts: rts::<api::ListResourcesRequest>});
  r.types.push(TypeOps{name:"ListResourcesResult", schema:true, rt: rt::<api::ListResourcesResult>, rts: rts::<api::ListResourcesResult>});
  r.types.push(TypeOps{name:"ListResourcesResultCacheScope", schema:true, rt: rt::<api::ListResourcesResultCacheScope>, rts: rts::<api::ListResourcesResultCacheScope>});
  r.types.push(TypeOps{name:"ListResourcesResultResponse", schema:true, rt: rt::<api::ListResourcesResultResponse>, rts: rts::<api::ListResourcesResultResponse>});
  r.types.push(TypeOps{name:"ListRootsRequest", schema:true, rt: rt::<api::ListRootsRequest>, rts: rts::<api::ListRootsRequest>});
  r.types.push(TypeOps{name:"ListRootsRequestParams", schema:true, rt: rt::<api::ListRootsRequestParams>, rts: rts::<api::ListRootsRequestParams>});
  r.types.push(TypeOps{name:"ListRootsResult", schema:true, rt: rt::<api::ListRootsResult>, rts: rts::<api::ListRootsResult>});
  r.types.push(TypeOps{name:"ListToolsRequest", schema:true, rt: rt::<api::ListToolsRequest>, rts: rts::<api::ListToolsRequest>});
  r.types.push(TypeOps{name:"ListToolsResult", schema:true, rt: rt::<api::ListToolsResult>, rts: rts::<api::ListToolsResult>});
  r.types.push(TypeOps{name:"ListToolsResultCacheScope", schema:true, rt: rt::<api::ListToolsResultCacheScope>, rts: rts::<api::ListToolsResultCacheScope>});
  r.types.push(TypeOps{name:"ListToolsResultResponse", schema:true, rt: rt::<api::ListToolsResultResponse>, rts: rts::<api::ListToolsResultResponse>});
  r.types.push(TypeOps{name:"LoggingLevel", schema:true, rt: rt::<api::LoggingLevel>, rts: rts::<api::LoggingLevel>});
  r.types.push(TypeOps{name:"LoggingMessageNotification", schema:true, rt: rt::<api::LoggingMessageNotification>, rts: rts::<api::LoggingMessageNotification>});
  r.types.push(TypeOps{name:"LoggingMessageNotificationParams", schema:true, rt: rt::<api::LoggingMessageNotificationParams>, rts: rts::<api::LoggingMessageNotificationParams>});
  r.types.push(TypeOps{name:"MessageFromClient", schema:false, rt: rt::<api::MessageFromClient>, rts: rts::<api::MessageFromClient>});
  r.types.push(TypeOps{name:"MessageFromServer", schema:false, rt: rt::<api::MessageFromServer>, rts: rts::<api::MessageFromServer>});
  r.types.push(TypeOps{name:"MessagesFromClient", schema:false, rt: rt::<api::MessagesFromClient>, rts: rts::<api::MessagesFromClient>});
  r.types.push(TypeOps{name:"MessagesFromServer", schema:false, rt: rt::<api::MessagesFromServer>, rts: rts::<api::MessagesFromServer>});
  r.types.push(TypeOps{name:"MetaObject", schema:true, rt: rt::<api::MetaObject>, rts: rts::<api::MetaObject>});
  r.types.push(TypeOps{name:"MethodNotFoundError", schema:true, rt: rt::<api::MethodNotFoundError>, rts: rts::<api::MethodNotFoundError>});
  r.types.push(TypeOps{name:"MissingRequiredClientCapabilityError", schema:true, rt: rt::<api::MissingRequiredClientCapabilityError>, rts: rts::<api::MissingRequiredClientCapabilityError>});
  r.types.push(TypeOps{name:"MissingRequiredClientCapabilityErrorError", schema:true, rt: rt::<api::MissingRequiredClientCapabilityErrorError>, rts: rts::<api::MissingRequiredClientCapabilityErrorError>});
  r.types.push(TypeOps{name:"MissingRequiredClientCapabilityErrorErrorData", schema:true, rt: rt::<api::MissingRequiredClientCapabilityErrorErrorData>, rts: rts::<api::MissingRequiredClientCapabilityErrorErrorData>});
  r.types.push(TypeOps{name:"ModelHint", schema:true, rt: rt::<api::ModelHint>, rts: rts::<api::ModelHint>});
  r.types.push(TypeOps{name:"ModelPreferences", schema:true, rt: rt::<api::ModelPreferences>, rts: rts::<api::ModelPreferences>});
  r.types.push(TypeOps{name:"MultiSelectEnumSchema", schema:true, rt: rt::<api::MultiSelectEnumSchema>, rts: rts::<api::MultiSelectEnumSchema>});
  r.types.push(TypeOps{name:"Notification", schema:true, rt: rt::<api::Notification>, rts: rts::<api::Notification>});
  r.types.push(TypeOps{name:"NotificationFromClient", schema:false, rt: rt::<api::NotificationFromClient>, rts: rts::<api::NotificationFromClient>});
  r.types.push(TypeOps{name:"NotificationFromServer", schema:false, rt: rt::<api::NotificationFromServer>, rts: rts::<api::NotificationFromServer>});
  r.types.push(TypeOps{name:"NotificationMetaObject", schema:true, rt: rt::<api::NotificationMetaObject>, rts: rts::<api::NotificationMetaObject>});
  r.types.push(TypeOps{name:"NotificationParams", schema:true, rt: rt::<api::NotificationParams>, rts: rts::<api::NotificationParams>});
  r.types.push(TypeOps{name:"NumberSchema", schema:true, rt: rt::<api::NumberSchema>, rts: rts::<api::NumberSchema>});
  r.types.push(TypeOps{name:"NumberSchemaType", schema:true, rt: rt::<api::NumberSchemaType>, rts: rts::<api::NumberSchemaType>});
  r.types.push(TypeOps{name:"PaginatedRequest", schema:true, rt: rt::<api::PaginatedRequest>, rts: rts::<api::PaginatedRequest>});
  r.types.push(TypeOps{name:"PaginatedRequestParams", schema:true, rt: rt::<api::PaginatedRequestParams>, rts: rts::<api::PaginatedRequestParams>});
  r.types.push(TypeOps{name:"PaginatedResult", schema:true, rt: rt::<api::PaginatedResult>, rts: rts::<api::PaginatedResult>});
  r.types.push(TypeOps{name:"ParseError", schema:true, rt: rt::<api::ParseError>, rts: rts::<api::ParseError>});
  r.types.push(TypeOps{name:"PrimitiveSchemaDefinition", schema:true, rt: rt::<api::PrimitiveSchemaDefinition>, rts: rts::<api::PrimitiveSchemaDefinition>});
  r.types.push(TypeOps{name:"ProgressNotification", schema:true, rt: rt::<api::ProgressNotification>, rts: rts::<api::ProgressNotification>});
  r.types.push(TypeOps{name:"ProgressNotificationParams", schema:true, rt: rt::<api::ProgressNotificationParams>, rts: rts::<api::ProgressNotificationParams>});
  r.types.push(TypeOps{name:"ProgressToken", schema:true, rt: rt::<api::ProgressToken>, rts: rts::<api::ProgressToken>});
  r.types.push(TypeOps{name:"Prompt", schema:true, rt: rt::<api::Prompt>, rts: rts::<api::Prompt>});
  r.types.push(TypeOps{name:"PromptArgument", schema:true, rt: rt::<api::PromptArgument>, rts: rts::<api::PromptArgument>});
  r.types.push(TypeOps{name:"PromptListChangedNotification", schema:true, rt: rt::<api::PromptListChangedNotification>, rts: rts::<api::PromptListChangedNotification>});
  r.types.push(TypeOps{name:"PromptMessage", schema:true, rt: rt::<api::PromptMessage>, rts: rts::<api::PromptMessage>});
  r.types.push(TypeOps{name:"PromptReference", schema:true, rt: rt::<api::PromptReference>, rts: rts::<api::PromptReference>});
  r.types.push(TypeOps{name:"ReadResourceContent", schema:true, rt: rt::<api::ReadResourceContent>, rts: rts::<api::ReadResourceContent>});
  r.types.push(TypeOps{name:"ReadResourceRequest", schema:true, rt: rt::<api::ReadResourceRequest>, rts: rts::<api::ReadResourceRequest>});
  r.types.push(TypeOps{name:"ReadResourceRequestParams", schema:true, rt: rt::<api::ReadResourceRequestParams>, rts: rts::<api::ReadResourceRequestParams>});
  r.types.push(TypeOps{name:"ReadResourceResult", schema:true, rt: rt::<api::ReadResourceResult>, rts: rts::<api::ReadResourceResult>});
  r.types.push(TypeOps{name:"ReadResourceResultCacheScope", schema:true, rt: rt::<api::ReadResourceResultCacheScope>, rts: rts::<api::ReadResourceResultCacheScope>});
  r.types.push(TypeOps{name:"ReadResourceResultResponse", schema:true, rt: rt::<api::ReadResourceResultResponse>, rts: rts::<api::ReadResourceResultResponse>});
  r.types.push(TypeOps{name:"ReadResourceResultResponseResult", schema:true, rt: rt::<api::ReadResourceResultResponseResult>, rts: rts::<api::ReadResourceResultResponseResult>});
  r.types.push(TypeOps{name:"Request", schema:true, rt: rt::<api::Request>, rts: rts::<api::Request>});
  r.types.push(TypeOps{name:"RequestFromClient", schema:false, rt: rt::<api::RequestFromClient>, rts: rts::<api::RequestFromClient>});
  r.types.push(TypeOps{name:"RequestFromServer", schema:false, rt: rt::<api::RequestFromServer>, rts: rts::<api::RequestFromServer>});
  r.types.push(TypeOps{name:"RequestId", schema:true, rt: rt::<api::RequestId>, rts: rts::<api::RequestId>});
  r.types.push(TypeOps{name:"RequestMetaObject", schema:true, rt: rt::<api::RequestMetaObject>, rts: rts::<api::RequestMetaObject>});
  r.types.push(TypeOps{name:"RequestParams", schema:true, rt: rt::<api::RequestParams>, rts: rts::<api::RequestParams>});
  r.types.push(TypeOps{name:"Resource", schema:true, rt: rt::<api::Resource>, rts: rts::<api::Resource>});
  r.types.push(TypeOps{name:"ResourceContents", schema:true, rt: rt::<api::ResourceContents>, rts: rts::<api::ResourceContents>});
  r.types.push(TypeOps{name:"ResourceLink", schema:true, rt: rt::<api::ResourceLink>, rts: rts::<api::ResourceLink>});
  r.types.push(TypeOps{name:"ResourceListChangedNotification", schema:true, rt: rt::<api::ResourceListChangedNotification>, rts: rts::<api::ResourceListChangedNotification>});
  r.types.push(TypeOps{name:"ResourceRequestParams", schema:true, rt: rt::<api::ResourceRequestParams>, rts: rts::<api::ResourceRequestParams>});
  r.types.push(TypeOps{name:"ResourceTemplate", schema:true, rt: rt::<api::ResourceTemplate>, rts: rts::<api::ResourceTemplate>});
  r.types.push(TypeOps{name:"ResourceTemplateReference", schema:true, rt: rt::<api::ResourceTemplateReference>, rts: rts::<api::ResourceTemplateReference>});
  r.types.push(TypeOps{name:"ResourceUpdatedNotification", schema:true, rt: rt::<api::ResourceUpdatedNotification>, rts: rts::<api::ResourceUpdatedNotification>});
  r.types.push(TypeOps{name:"ResourceUpdatedNotificationParams", schema:true, rt: rt::<api::ResourceUpdatedNotificationParams>, rts: rts::<api::ResourceUpdatedNotificationParams>});
  r.types.push(TypeOps{name:"Result", schema:true, rt: rt::<api::Result>, rts: rts::<api::Result>});
  r.types.push(TypeOps{name:"ResultFromClient", schema:false, rt: rt::<api::ResultFromClient>, rts: rts::<api::ResultFromClient>});
  r.types.push(TypeOps{name:"ResultMetaObject", schema:true, rt: rt::<api::ResultMetaObject>, rts: rts::<api::ResultMetaObject>});
  r.types.push(TypeOps{name:"ResultType", schema:true, rt: rt::<api::ResultType>, rts: rts::<api::ResultType>});
  r.types.push(TypeOps{name:"Role", schema:true, rt: rt::<api::Role>, rts: rts::<api::Role>});
  r.types.push(TypeOps{name:"Root", schema:true, rt: rt::<api::Root>, rts: rts::<api::Root>});
  r.types.push(TypeOps{name:"RpcError", schema:true, rt: rt::<api::RpcError>, rts: rts::<api::RpcError>});
  r.types.push(TypeOps{name:"SamplingMessage", schema:true, rt: rt::<api::SamplingMessage>, rts: rts::<api::SamplingMessage>});
  r.types.push(TypeOps{name:"SamplingMessageContent", schema:true, rt: rt::<api::SamplingMessageContent>, rts: rts::<api::SamplingMessageContent>});
  r.types.push(TypeOps{name:"SamplingMessageContentBlock", schema:true, rt: rt::<api::SamplingMessageContentBlock>, rts: rts::<api::SamplingMessageContentBlock>});
  r.types.push(TypeOps{name:"SdkError", schema:false, rt: rt::<api::SdkError>, rts: rts::<api::SdkError>});
  r.types.push(TypeOps{name:"ServerCapabilities", schema:true, rt: rt::<api::ServerCapabilities>, rts: rts::<api::ServerCapabilities>});
  r.types.push(TypeOps{name:"ServerCapabilitiesPrompts", schema:true, rt: rt::<api::ServerCapabilitiesPrompts>, rts: rts::<api::ServerCapabilitiesPrompts>});
  r.types.push(TypeOps{name:"ServerCapabilitiesResources", schema:true, rt: rt::<api::ServerCapabilitiesResources>, rts: rts::<api::ServerCapabilitiesResources>});
  r.types.push(TypeOps{name:"ServerCapabilitiesTools", schema:true, rt: rt::<api::ServerCapabilitiesTools>, rts: rts::<api::ServerCapabilitiesTools>});
  r.types.push(TypeOps{name:"ServerJsonrpcNotification", schema:false, rt: rt::<api::ServerJsonrpcNotification>, rts: rts::<api::ServerJsonrpcNotification>});
  r.types.push(TypeOps{name:"ServerJsonrpcRequest", schema:false, rt: rt::<api::ServerJsonrpcRequest>, rts: rts::<api::ServerJsonrpcRequest>});
  r.types.push(TypeOps{name:"ServerJsonrpcResponse", schema:false, rt: rt::<api::ServerJsonrpcResponse>, rts: rts::<api::ServerJsonrpcResponse>});
  r.types.push(TypeOps{name:"ServerMessage", schema:false, rt: rt::<api::ServerMessage>, rts: rts::<api::ServerMessage>});
  r.types.push(TypeOps{name:"ServerMessages", schema:false, rt: rt::<api::ServerMessages>, rts: rts::<api::ServerMessages>});
  r.types.push(TypeOps{name:"ServerNotification", schema:true, rt: rt::<api::ServerNotification>, rts: rts::<api::ServerNotification>});
  r.types.push(TypeOps{name:"ServerResult", schema:true, rt: rt::<api::ServerResult>, rts: rts::<api::ServerResult>});
  r.types.push(TypeOps{name:"SingleSelectEnumSchema", schema:true, rt: rt::<api::SingleSelectEnumSchema>, rts: rts::<api::SingleSelectEnumSchema>});
  r.types.push(TypeOps{name:"StringSchema", schema:true, rt: rt::<api::StringSchema>, rts: rts::<api::StringSchema>});
  r.types.push(TypeOps{name:"StringSchemaFormat", schema:true, rt: rt::<api::StringSchemaFormat>, rts: rts::<api::StringSchemaFormat>});
  r.types.push(TypeOps{name:"SubscriptionFilter", schema:true, rt: rt::<api::SubscriptionFilter>, rts: rts::<api::SubscriptionFilter>});
  r.types.push(TypeOps{name:"SubscriptionsAcknowledgedNotification", schema:true, rt: rt::<api::SubscriptionsAcknowledgedNotification>, rts: rts::<api::SubscriptionsAcknowledgedNotification>});
  r.types.push(TypeOps{name:"SubscriptionsAcknowledgedNotificationParams", schema:true, rt: rt::<api::SubscriptionsAcknowledgedNotificationParams>, rts: rts::<api::SubscriptionsAcknowledgedNotificationParams>});
  r.types.push(TypeOps{name:"SubscriptionsListenRequest", schema:true, rt: rt::<api::SubscriptionsListenRequest>, rts: rts::<api::SubscriptionsListenRequest>});
  r.types.push(TypeOps{name:"SubscriptionsListenRequestParams", schema:true, rt: rt::<api::SubscriptionsListenRequestParams>, rts: rts::<api::SubscriptionsListenRequestParams>});
  r.types.push(TypeOps{name:"SubscriptionsListenResult", schema:true, rt: rt::<api::SubscriptionsListenResult>, rts: rts::<api::SubscriptionsListenResult>});
  r.types.push(TypeOps{name:"SubscriptionsListenResultMetaObject", schema:true, rt: rt::<api::SubscriptionsListenResultMetaObject>, rts: rts::<api::SubscriptionsListenResultMetaObject>});
  r.types.push(TypeOps{name:"SubscriptionsListenResultResponse", schema:true, rt: rt::<api::SubscriptionsListenResultResponse>, rts: rts::<api::SubscriptionsListenResultResponse>});
  r.types.push(TypeOps{name:"TextContent", schema:true, rt: rt::<api::TextContent>, rts: rts::<api::TextContent>});
  r.types.push(TypeOps{name:"TextResourceContents", schema:true, rt: rt::<api::TextResourceContents>, rts: rts::<api::TextResourceContents>});
  r.types.push(TypeOps{name:"TitledMultiSelectEnumSchema", schema:true, rt: rt::<api::TitledMultiSelectEnumSchema>, rts: rts::<api::TitledMultiSelectEnumSchema>});
  r.types.push(TypeOps{name:"TitledMultiSelectEnumSchemaItems", schema:true, rt: rt::<api::TitledMultiSelectEnumSchemaItems>, rts: rts::<api::TitledMultiSelectEnumSchemaItems>});
  r.types.push(TypeOps{name:"TitledMultiSelectEnumSchemaItemsAnyOfItem", schema:true, rt: rt::<api::TitledMultiSelectEnumSchemaItemsAnyOfItem>, rts: rts::<api::TitledMultiSelectEnumSchemaItemsAnyOfItem>});
  r.types.push(TypeOps{name:"TitledSingleSelectEnumSchema", schema:true, rt: rt::<api::TitledSingleSelectEnumSchema>, rts: rts::<api::TitledSingleSelectEnumSchema>});
  r.types.push(TypeOps{name:"TitledSingleSelectEnumSchemaOneOfItem", schema:true, rt: rt::<api::TitledSingleSelectEnumSchemaOneOfItem>, rts: rts::<api::TitledSingleSelectEnumSchemaOneOfItem>});
  r.types.push(TypeOps{name:"Tool", schema:true, rt: rt::<api::Tool>, rts: rts::<api::Tool>});
  r.types.push(TypeOps{name:"ToolAnnotations", schema:true, rt: rt::<api::ToolAnnotations>, rts: rts::<api::ToolAnnotations>});
  r.types.push(TypeOps{name:"ToolChoice", schema:true, rt: rt::<api::ToolChoice>, rts: rts::<api::ToolChoice>});
  r.types.push(TypeOps{name:"ToolChoiceMode", schema:true, rt: rt::<api::ToolChoiceMode>, rts: rts::<api::ToolChoiceMode>});
  r.types.push(TypeOps{name:"ToolInputSchema", schema:true, rt: rt::<api::ToolInputSchema>, rts: rts::<api::ToolInputSchema>});
  r.types.push(TypeOps{name:"ToolListChangedNotification", schema:true, rt: rt::<api::ToolListChangedNotification>, rts: rts::<api::ToolListChangedNotification>});
  r.types.push(TypeOps{name:"ToolOutputSchema", schema:true, rt: rt::<api::ToolOutputSchema>, rts: rts::<api::ToolOutputSchema>});
  r.types.push(TypeOps{name:"ToolResultContent", schema:true, rt: rt::<api::ToolResultContent>, rts: rts::<api::ToolResultContent>});
  r.types.push(TypeOps{name:"ToolUseContent", schema:true, rt: rt::<api::ToolUseContent>, rts: rts::<api::ToolUseContent>});
  r.types.push(TypeOps{name:"UnsupportedProtocolVersionError", schema:true, rt: rt::<api::UnsupportedProtocolVersionError>, rts: rts::<api::UnsupportedProtocolVersionError>});
  r.types.push(TypeOps{name:"UnsupportedProtocolVersionErrorError", schema:true, rt: rt::<api::UnsupportedProtocolVersionErrorError>, rts: rts::<api::UnsupportedProtocolVersionErrorError>});
  r.types.push(TypeOps{name:"UnsupportedProtocolVersionErrorErrorData", schema:true, rt: rt::<api::UnsupportedProtocolVersionErrorErrorData>, rts: rts::<api::UnsupportedProtocolVersionErrorErrorData>});
  r.types.push(TypeOps{name:"UntitledMultiSelectEnumSchema", schema:true, rt: rt::<api::UntitledMultiSelectEnumSchema>, rts: rts::<api::UntitledMultiSelectEnumSchema>});
  r.types.push(TypeOps{name:"UntitledMultiSelectEnumSchemaItems", schema:true, rt: rt::<api::UntitledMultiSelectEnumSchemaItems>, rts: rts::<api::UntitledMultiSelectEnumSchemaItems>});
  r.types.push(TypeOps{name:"UntitledSingleSelectEnumSchema", schema:true, rt: rt::<api::UntitledSingleSelectEnumSchema>, rts: rts::<api::UntitledSingleSelectEnumSchema>});
  r.ctors.push(Ctor{ty:"AudioContent", args:&["data","mime_type","annotations","meta"], f: |a| out(api::AudioContent::new(j::<String>(&a[0])?, j::<String>(&a[1])?, j(&a[2])?, j(&a[3])?))});
  r.ctors.push(Ctor{ty:"BlobResourceContents", args:&["base64_text","uri"], f: |a| out(api::BlobResourceContents::new(j::<String>(&a[0])?, j::<String>(&a[1])?))});
  r.ctors.push(Ctor{ty:"BooleanSchema", args:&["default","description","title"], f: |a| out(api::BooleanSchema::new(j(&a[0])?, j(&a[1])?, j(&a[2])?))});
  r.ctors.push(Ctor{ty:"CallToolRequest", args:&["id","params"], f: |a| out(api::CallToolRequest::new(j(&a[0])?, j(&a[1])?))});
  r.ctors.push(Ctor{ty:"CallToolRequestParams", args:&["tool_name","meta"], f: |a| out(api::CallToolRequestParams::new(j::<String>(&a[0])?, j(&a[1])?))});
  r.ctors.push(Ctor{ty:"CallToolResultResponse", args:&["id","result"], f: |a| out(api::CallToolResultResponse::new(j(&a[0])?, j(&a[1])?))});
  r.ctors.push(Ctor{ty:"CancelledNotification", args:&["params"], f: |a| out(api::CancelledNotification::new(j(&a[0])?))});
  r.ctors.push(Ctor{ty:"ClientJsonrpcNotification", args:&["notification"], f: |a| out(api::ClientJsonrpcNotification::new(j(&a[0])?))});
  r.ctors.push(Ctor{ty:"ClientJsonrpcRequest", args:&["id","request"], f: |a| out(api::ClientJsonrpcRequest::new(j(&a[0])?, j(&a[1])?))});
  r.ctors.push(Ctor{ty:"ClientJsonrpcResponse", args:&["id","result"], f: |a| out(api::ClientJsonrpcResponse::new(j(&a[0])?, j(&a[1])?))});
  r.ctors.push(Ctor{ty:"ClientNotification", args:&["params"], f: |a| out(api::ClientNotification::new(j(&a[0])?))});
  r.ctors.push(Ctor{ty:"CompleteRequest", args:&["id","params"], f: |a| out(api::CompleteRequest::new(j(&a[0])?, j(&a[1])?))});
  r.ctors.push(Ctor{ty:"CompleteResultResponse", args:&["id","result"], f: |a| out(api::CompleteResultResponse::new(j(&a[0])?, j(&a[1])?))});
  r.ctors.push(Ctor{ty:"CreateMessageRequest", args:&["params"], f: |a| out(api::CreateMessageRequest::new(j(&a[0])?))});
  r.ctors.push(Ctor{ty:"DiscoverRequest", args:&["id","params"], f: |a| out(api::DiscoverRequest::new(j(&a[0])?, j(&a[1])?))});
  r.ctors.push(Ctor{ty:"DiscoverResultResponse", args:&["id","result"], f: |a| out(api::DiscoverResultResponse::new(j(&a[0])?, j(&a[1])?))});
  r.ctors.push(Ctor{ty:"ElicitRequest", args:&["params"], f: |a| out(api::ElicitRequest::new(j(&a[0])?))});
  r.ctors.push(Ctor{ty:"ElicitRequestFormParams", args:&["message","requested_schema"], f: |a| out(api::ElicitRequestFormParams::new(j::<String>(&a[0])?, j(&a[1])?))});
  r.ctors.push(Ctor{ty:"ElicitRequestFormParamsRequestedSchema", args:&["properties","required","schema"], f: |a| out(api::ElicitRequestFormParamsRequestedSchema::new(j(&a[0])?, j(&a[1])?, j(&a[2])?))});
  r.ctors.push(Ctor{ty:"ElicitRequestUrlParams", args:&["message","url"], f: |a| out(api::ElicitRequestUrlParams::new(j::<String>(&a[0])?, j::<String>(&a[1])?))});
  r.ctors.push(Ctor{ty:"EmbeddedResource", args:&["resource","annotations","meta"], f: |a| out(api::EmbeddedResource::new(j(&a[0])?, j(&a[1])?, j(&a[2])?))});
  r.ctors.push(Ctor{ty:"GetPromptRequest", args:&["id","params"], f: |a| out(api::GetPromptRequest::new(j(&a[0])?, j(&a[1])?))});
  r.ctors.push(Ctor{ty:"GetPromptResultResponse", args:&["id","result"], f: |a| out(api::GetPromptResultResponse::new(j(&a[0])?, j(&a[1])?))});
  r.ctors.push(Ctor{ty:"HeaderMismatchError", args:&["error","id"], f: |a| out(api::HeaderMismatchError::new(j(&a[0])?, j(&a[1])?))});
  r.ctors.push(Ctor{ty:"ImageContent", args:&["data","mime_type","annotations","meta"], f: |a| out(api::ImageContent::new(j::<String>(&a[0])?, j::<String>(&a[1])?, j(&a[2])?, j(&a[3])?))});
  r.ctors.push(Ctor{ty:"InputResponses", args:&[], f: |a| out(api::InputResponses::new())});
  r.ctors.push(Ctor{ty:"JsonrpcErrorResponse", args:&["error","id"], f: |a| out(api::JsonrpcErrorResponse::new(j(&a[0])?, j(&a[1])?))});
  r.ctors.push(Ctor{ty:"JsonrpcNotification", args:&["method","params"], f: |a| out(api::JsonrpcNotification::new(j::<String>(&a[0])?, j(&a[1])?))});
  r.ctors.push(Ctor{ty:"JsonrpcRequest", args:&["id","method","params"], f: |a| out(api::JsonrpcRequest::new(j(&a[0])?, j::<String>(&a[1])?, j(&a[2])?))});
  r.ctors.push(Ctor{ty:"JsonrpcResultResponse", args:&["id","result"], f: |a| out(api::JsonrpcResultResponse::new(j(&a[0])?, j(&a[1])?))});
  r.ctors.push(Ctor{ty:"LegacyTitledEnumSchema", args:&["enum_","enum_names","default","description","title"], f: |a| out(api::LegacyTitledEnumSchema::new(j(&a[0])?, j(&a[1])?, j(&a[2])?, j(&a[3])?, j(&a[4])?))});
  r.ctors.push(Ctor{ty:"ListPromptsRequest", args:&["id","params"], f: |a| out(api::ListPromptsRequest::new(j(&a[0])?, j(&a[1])?))});
  r.ctors.push(Ctor{ty:"ListPromptsResultResponse", args:&["id","result"], f: |a| out(api::ListPromptsResultResponse::new(j(&a[0])?, j(&a[1])?))});
  r.ctors.push(Ctor{ty:"ListResourceTemplatesRequest", args:&["id","params"], f: |a| out(api::ListResourceTemplatesRequest::new(j(&a[0])?, j(&a[1])?))});
  r.ctors.push(Ctor{ty:"ListResourceTemplatesResultResponse", args:&["id","result"], f: |a| out(api::ListResourceTemplatesResultResponse::new(j(&a[0])?, j(&a[1])?))});
  r.ctors.push(Ctor{ty:"ListResourcesRequest", args:&["id","params"], f: |a| out(api::ListResourcesRequest::new(j(&a[0])?, j(&a[1])?))});
  r.ctors.push(Ctor{ty:"ListResourcesResultResponse", args:&["id","result"], f: |a| out(api::ListResourcesResultResponse::new(j(&a[0])?, j(&a[1])?))});
  r.ctors.push(Ctor{ty:"ListRootsRequest", args:&["params"], f: |a| out(api::ListRootsRequest::new(j(&a[0])?))});
  r.ctors.push(Ctor{ty:"ListToolsRequest", args:&["id","params"], f: |a| out(api::ListToolsRequest::new(j(&a[0])?, j(&a[1])?))});
  r.ctors.push(Ctor{ty:"ListToolsResultResponse", args:&["id","result"], f: |a| out(api::ListToolsResultResponse::new(j(&a[0])?, j(&a[1])?))});
  r.ctors.push(Ctor{ty:"LoggingMessageNotification", args:&["params"], f: |a| out(api::LoggingMessageNotification::new(j(&a[0])?))});
  r.ctors.push(Ctor{ty:"MissingRequiredClientCapabilityError", args:&["error","id"], f: |a| out(api::MissingRequiredClientCapabilityError::new(j(&a[0])?, j(&a[1])?))});
  r.ctors.push(Ctor{ty:"PaginatedRequest", args:&["id","method","params"], f: |a| out(api::PaginatedRequest::new(j(&a[0])?, j::<String>(&a[1])?, j(&a[2])?))});
  r.ctors.push(Ctor{ty:"ProgressNotification", args:&["params"], f: |a| out(api::ProgressNotification::new(j(&a[0])?))});
  r.ctors.push(Ctor{ty:"PromptListChangedNotification", args:&["params"], f: |a| out(api::PromptListChangedNotification::new(j(&a[0])?))});
  r.ctors.push(Ctor{ty:"PromptReference", args:&["name","title"], f: |a| out(api::PromptReference::new(j::<String>(&a[0])?, j(&a[1])?))});
  r.ctors.push(Ctor{ty:"ReadResourceRequest", args:&["id","params"], f: |a| out(api::ReadResourceRequest::new(j(&a[0])?, j(&a[1])?))});
  r.ctors.push(Ctor{ty:"ReadResourceResultResponse", args:&["id","result"], f: |a| out(api::ReadResourceResultResponse::new(j(&a[0])?, j(&a[1])?))});
  r.ctors.push(Ctor{ty:"RequestMetaObject", args:&["protocol_version","client_capabilities"], f: |a| out(api::RequestMetaObject::new(j::<String>(&a[0])?, j(&a[1])?))});
  r.ctors.push(Ctor{ty:"ResourceLink", args:&["icons","name","uri","annotations","description","meta","mime_type","size","title"], f: |a| out(api::ResourceLink::new(j(&a[0])?, j::<String>(&a[1])?, j::<String>(&a[2])?, j(&a[3])?, j(&a[4])?, j(&a[5])?, j(&a[6])?, j(&a[7])?, j(&a[8])?))});
  r.ctors.push(Ctor{ty:"ResourceListChangedNotification", args:&["params"], f: |a| out(api::ResourceListChangedNotification::new(j(&a[0])?))});
  r.ctors.push(Ctor{ty:"ResourceTemplateReference", args:&["uri"], f: |a| out(api::ResourceTemplateReference::new(j::<String>(&a[0])?))});
  r.ctors.push(Ctor{ty:"ResourceUpdatedNotification", args:&["params"], f: |a| out(api::ResourceUpdatedNotification::new(j(&a[0])?))});
  r.ctors.push(Ctor{ty:"ServerJsonrpcNotification", args:&["notification"], f: |a| out(api::ServerJsonrpcNotification::new(j(&a[0])?))});
  r.ctors.push(Ctor{ty:"ServerJsonrpcRequest", args:&["request_id","request"], f: |a| out(api::ServerJsonrpcRequest::new(j(&a[0])?, j(&a[1])?))});
  r.ctors.push(Ctor{ty:"ServerJsonrpcResponse", args:&["id","result"], f: |a| out(api::ServerJsonrpcResponse::new(j(&a[0])?, j(&a[1])?))});
  r.ctors.push(Ctor{ty:"StringSchema", args:&["default","description","format","max_length","min_length","title"], f: |a| out(api::StringSchema::new(j(&a[0])?, j(&a[1])?, j(&a[2])?, j(&a[3])?, j(&a[4])?, j(&a[5])?))});
  r.ctors.push(Ctor{ty:"SubscriptionsAcknowledgedNotification", args:&["params"], f: |a| out(api::SubscriptionsAcknowledgedNotification::new(j(&a[0])?))});
  r.ctors.push(Ctor{ty:"SubscriptionsListenRequest", args:&["id","params"], f: |a| out(api::SubscriptionsListenRequest::new(j(&a[0])?, j(&a[1])?))});
  r.ctors.push(Ctor{ty:"SubscriptionsListenResultResponse", args:&["id","result"], f: |a| out(api::SubscriptionsListenResultResponse::new(j(&a[0])?, j(&a[1])?))});
  r.ctors.push(Ctor{ty:"TextContent", args:&["text","annotations","meta"], f: |a| out(api::TextContent::new(j::<String>(&a[0])?, j(&a[1])?, j(&a[2])?))});
  r.ctors.push(Ctor{ty:"TextResourceContents", args:&["text","uri"], f: |a| out(api::TextResourceContents::new(j::<String>(&a[0])?, j::<String>(&a[1])?))});
  r.ctors.push(Ctor{ty:"TitledMultiSelectEnumSchema", args:&["default","items","description","max_items","min_items","title"], f: |a| out(api::TitledMultiSelectEnumSchema::new(j(&a[0])?, j(&a[1])?, j(&a[2])?, j(&a[3])?, j(&a[4])?, j(&a[5])?))});
  r.ctors.push(Ctor{ty:"TitledSingleSelectEnumSchema", args:&["one_of","default","description","title"], f: |a| out(api::TitledSingleSelectEnumSchema::new(j(&a[0])?, j(&a[1])?, j(&a[2])?, j(&a[3])?))});
  r.ctors.push(Ctor{ty:"ToolInputSchema", args:&["schema","extra"], f: |a| out(api::ToolInputSchema::new(j(&a[0])?, j(&a[1])?))});
  r.ctors.push(Ctor{ty:"ToolListChangedNotification", args:&["params"], f: |a| out(api::ToolListChangedNotification::new(j(&a[0])?))});
  r.ctors.push(Ctor{ty:"ToolResultContent", args:&["content","tool_use_id","is_error","meta","structured_content"], f: |a| out(api::ToolResultContent::new(j(&a[0])?, j::<String>(&a[1])?, j(&a[2])?, j(&a[3])?, j(&a[4])?))});
  r.ctors.push(Ctor{ty:"ToolUseContent", args:&["id","input","name","meta"], f: |a| out(api::ToolUseContent::new(j::<String>(&a[0])?, j(&a[1])?, j::<String>(&a[2])?, j(&a[3])?))});
  r.ctors.push(Ctor{ty:"UnsupportedProtocolVersionError", args:&["error","id"], f: |a| out(api::UnsupportedProtocolVersionError::new(j(&a[0])?, j(&a[1])?))});
  r.ctors.push(Ctor{ty:"UntitledMultiSelectEnumSchema", args:&["default","items","description","max_items","min_items","title"], f: |a| out(api::UntitledMultiSelectEnumSchema::new(j(&a[0])?, j(&a[1])?, j(&a[2])?, j(&a[3])?, j(&a[4])?, j(&a[5])?))});
  r.ctors.push(Ctor{ty:"UntitledMultiSelectEnumSchemaItems", args:&["enum_"], f: |a| out(api::UntitledMultiSelectEnumSchemaItems::new(j(&a[0])?))});
  r.ctors.push(Ctor{ty:"UntitledSingleSelectEnumSchema", args:&["enum_","default","description","title"], f: |a| out(api::UntitledSingleSelectEnumSchema::new(j(&a[0])?, j(&a[1])?, j(&a[2])?, j(&a[3])?))});
  r.getters.push(Getter{ty:"AudioContent", field:"type_", f: |v| out(j::<api::AudioContent>(v)?.type_())});
  r.consts.push(ConstFn{ty:"AudioContent", field:"type", f: || serde_json::to_value(api::AudioContent::type_value()).unwrap()});
  r.consts.push(ConstFn{ty:"AudioContent", field:"type", f: || serde_json::to_value(api::AudioContent::type_name()).unwrap()});
  r.getters.push(Getter{ty:"BooleanSchema", field:"type_", f: |v| out(j::<api::BooleanSchema>(v)?.type_())});
  r.consts.push(ConstFn{ty:"BooleanSchema", field:"type", f: || serde_json::to_value(api::BooleanSchema::type_value()).unwrap()});
  r.consts.push(ConstFn{ty:"BooleanSchema", field:"type", f: || serde_json::to_value(api::BooleanSchema::type_name()).unwrap()});
  r.getters.push(Getter{ty:"CallToolRequest", field:"jsonrpc", f: |v| out(j::<api::CallToolRequest>(v)?.jsonrpc())});
  r.getters.push(Getter{ty:"CallToolRequest", field:"method", f: |v| out(j::<api::CallToolRequest>(v)?.method())});
  r.consts.push(ConstFn{ty:"CallToolRequest", field:"method", f: || serde_json::to_value(api::CallToolRequest::method_value()).unwrap()});
  r.consts.push(ConstFn{ty:"CallToolRequest", field:"method", f: || serde_json::to_value(api::CallToolRequest::method_name()).unwrap()});
  r.getters.push(Getter{ty:"CallToolResultResponse", field:"jsonrpc", f: |v| out(j::<api::CallToolResultResponse>(v)?.jsonrpc())});
  r.getters.push(Getter{ty:"CancelledNotification", field:"jsonrpc", f: |v| out(j::<api::CancelledNotification>(v)?.jsonrpc())});
  r.getters.push(Getter{ty:"CancelledNotification", field:"method", f: |v| out(j::<api::CancelledNotification>(v)?.method())});
  r.consts.push(ConstFn{ty:"CancelledNotification", field:"method", f: || serde_json::to_value(api::CancelledNotification::method_value()).unwrap()});
  r.consts.push(ConstFn{ty:"CancelledNotification", field:"method", f: || serde_json::to_value(api::CancelledNotification::method_name()).unwrap()});
  r.getters.push(Getter{ty:"ClientJsonrpcResponse", field:"jsonrpc", f: |v| out(j::<api::ClientJsonrpcResponse>(v)?.jsonrpc())});
  r.getters.push(Getter{ty:"ClientNotification", field:"jsonrpc", f: |v| out(j::<api::ClientNotification>(v)?.jsonrpc())});
  r.getters.push(Getter{ty:"ClientNotification", field:"method", f: |v| out(j::<api::ClientNotification>(v)?.method())});
  r.consts.push(ConstFn{ty:"ClientNotification", field:"method", f: || serde_json::to_value(api::ClientNotification::method_value()).unwrap()});
  r.consts.push(ConstFn{ty:"ClientNotification", field:"method", f: || serde_json::to_value(api::ClientNotification::method_name()).unwrap()});
  r.getters.push(Getter{ty:"CompleteRequest", field:"jsonrpc", f: |v| out(j::<api::CompleteRequest>(v)?.jsonrpc())});
  r.getters.push(Getter{ty:"CompleteRequest", field:"method", f: |v| out(j::<api::CompleteRequest>(v)?.method())});
  r.consts.push(ConstFn{ty:"CompleteRequest", field:"method", f: || serde_json::to_value(api::CompleteRequest::method_value()).unwrap()});
  r.consts.push(ConstFn{ty:"CompleteRequest", field:"method", f: || serde_json::to_value(api::CompleteRequest::method_name()).unwrap()});
  r.getters.push(Getter{ty:"CompleteResultResponse", field:"jsonrpc", f: |v| out(j::<api::CompleteResultResponse>(v)?.jsonrpc())});
  r.getters.push(Getter{ty:"CreateMessageRequest", field:"method", f: |v| out(j::<api::CreateMessageRequest>(v)?.method())});
  r.consts.push(ConstFn{ty:"CreateMessageRequest", field:"method", f: || serde_json::to_value(api::CreateMessageRequest::method_value()).unwrap()});
  r.consts.push(ConstFn{ty:"CreateMessageRequest", field:"method", f: || serde_json::to_value(api::CreateMessageRequest::method_name()).unwrap()});
  r.getters.push(Getter{ty:"DiscoverRequest", field:"jsonrpc", f: |v| out(j::<api::DiscoverRequest>(v)?.jsonrpc())});
  r.getters.push(Getter{ty:"DiscoverRequest", field:"method", f: |v| out(j::<api::DiscoverRequest>(v)?.method())});
  r.consts.push(ConstFn{ty:"DiscoverRequest", field:"method", f: || serde_json::to_value(api::DiscoverRequest::method_value()).unwrap()});
  r.consts.push(ConstFn{ty:"DiscoverRequest", field:"method", f: || serde_json::to_value(api::DiscoverRequest::method_name()).unwrap()});
  r.getters.push(Getter{ty:"DiscoverResultResponse", field:"jsonrpc", f: |v| out(j::<api::DiscoverResultResponse>(v)?.jsonrpc())});
  r.getters.push(Getter{ty:"ElicitRequest", field:"method", f: |v| out(j::<api::ElicitRequest>(v)?.method())});
  r.consts.push(ConstFn{ty:"ElicitRequest", field:"method", f: || serde_json::to_value(api::ElicitRequest::method_value()).unwrap()});
  r.consts.push(ConstFn{ty:"ElicitRequest", field:"method", f: || serde_json::to_value(api::ElicitRequest::method_name()).unwrap()});
  r.getters.push(Getter{ty:"ElicitRequestFormParams", field:"mode", f: |v| out(j::<api::ElicitRequestFormParams>(v)?.mode())});
  r.consts.push(ConstFn{ty:"ElicitRequestFormParams", field:"mode", f: || serde_json::to_value(api::ElicitRequestFormParams::mode_value()).unwrap()});
  r.consts.push(ConstFn{ty:"ElicitRequestFormParams", field:"mode", f: || serde_json::to_value(api::ElicitRequestFormParams::mode_name()).unwrap()});
  r.getters.push(Getter{ty:"ElicitRequestFormParamsRequestedSchema", field:"type_", f: |v| out(j::<api::ElicitRequestFormParamsRequestedSchema>(v)?.type_())});
  r.consts.push(ConstFn{ty:"ElicitRequestFormParamsRequestedSchema", field:"type", f: || serde_json::to_value(api::ElicitRequestFormParamsRequestedSchema::type_value()).unwrap()});
  r.consts.push(ConstFn{ty:"ElicitRequestFormParamsRequestedSchema", field:"type", f: || serde_json::to_value(api::ElicitRequestFormParamsRequestedSchema::type_name()).unwrap()});
  r.getters.push(Getter{ty:"ElicitRequestUrlParams", field:"mode", f: |v| out(j::<api::ElicitRequestUrlParams>(v)?.mode())});
  r.consts.push(ConstFn{ty:"ElicitRequestUrlParams", field:"mode", f: || serde_json::to_value(api::ElicitRequestUrlParams::mode_value()).unwrap()});
  r.consts.push(ConstFn{ty:"ElicitRequestUrlParams", field:"mode", f: || serde_json::to_value(api::ElicitRequestUrlParams::mode_name()).unwrap()});
  r.getters.push(Getter{ty:"EmbeddedResource", field:"type_", f: |v| out(j::<api::EmbeddedResource>(v)?.type_())});
  r.consts.push(ConstFn{ty:"EmbeddedResource", field:"type", f: || serde_json::to_value(api::EmbeddedResource::type_value()).unwrap()});
  r.consts.push(ConstFn{ty:"EmbeddedResource", field:"type", f: || serde_json::to_value(api::EmbeddedResource::type_name()).unwrap()});
  r.getters.push(Getter{ty:"GetPromptRequest", field:"jsonrpc", f: |v| out(j::<api::GetPromptRequest>(v)?.jsonrpc())});
  r.getters.push(Getter{ty:"GetPromptRequest", field:"method", f: |v| out(j::<api::GetPromptRequest>(v)?.method())});
  r.consts.push(ConstFn{ty:"GetPromptRequest", field:"method", f: || serde_json::to_value(api::GetPromptRequest::method_value()).unwrap()});
  r.consts.push(ConstFn{ty:"GetPromptRequest", field:"method", f: || serde_json::to_value(api::GetPromptRequest::method_name()).unwrap()});
  r.getters.push(Getter{ty:"GetPromptResultResponse", field:"jsonrpc", f: |v| out(j::<api::GetPromptResultResponse>(v)?.jsonrpc())});
  r.getters.push(Getter{ty:"HeaderMismatchError", field:"jsonrpc", f: |v| out(j::<api::HeaderMismatchError>(v)?.jsonrpc())});
  r.getters.push(Getter{ty:"ImageContent", field:"type_", f: |v| out(j::<api::ImageContent>(v)?.type_())});
  r.consts.push(ConstFn{ty:"ImageContent", field:"type", f: || serde_json::to_value(api::ImageContent::type_value()).unwrap()});
  r.consts.push(ConstFn{ty:"ImageContent", field:"type", f: || serde_json::to_value(api::ImageContent::type_name()).unwrap()});
  r.getters.push(Getter{ty:"JsonrpcErrorResponse", field:"jsonrpc", f: |v| out(j::<api::JsonrpcErrorResponse>(v)?.jsonrpc())});
  r.getters.push(Getter{ty:"JsonrpcNotification", field:"jsonrpc", f: |v| out(j::<api::JsonrpcNotification>(v)?.jsonrpc())});
  r.getters.push(Getter{ty:"JsonrpcRequest", field:"jsonrpc", f: |v| out(j::<api::JsonrpcRequest>(v)?.jsonrpc())});
  r.getters.push(Getter{ty:"JsonrpcResultResponse", field:"jsonrpc", f: |v| out(j::<api::JsonrpcResultResponse>(v)?.jsonrpc())});
  r.getters.push(Getter{ty:"LegacyTitledEnumSchema", field:"type_", f: |v| out(j::<api::LegacyTitledEnumSchema>(v)?.type_())});
  r.consts.push(ConstFn{ty:"LegacyTitledEnumSchema", field:"type", f: || serde_json::to_value(api::LegacyTitledEnumSchema::type_value()).unwrap()});
  r.consts.push(ConstFn{ty:"LegacyTitledEnumSchema", field:"type", f: || serde_json::to_value(api::LegacyTitledEnumSchema::type_name()).unwrap()});
  r.getters.push(Getter{ty:"ListPromptsRequest", field:"jsonrpc", f: |v| out(j::<api::ListPromptsRequest>(v)?.jsonrpc())});
  r.getters.push(Getter{ty:"ListPromptsRequest", field:"method", f: |v| out(j::<api::ListPromptsRequest>(v)?.method())});
  r.consts.push(ConstFn{ty:"ListPromptsRequest", field:"method", f: || serde_json::to_value(api::ListPromptsRequest::method_value()).unwrap()});
  r.consts.push(ConstFn{ty:"ListPromptsRequest", field:"method", f: || serde_json::to_value(api::ListPromptsRequest::method_name()).unwrap()});
  r.getters.push(Getter{ty:"ListPromptsResultResponse", field:"jsonrpc", f: |v| out(j::<api::ListPromptsResultResponse>(v)?.jsonrpc())});
  r.getters.push(Getter{ty:"ListResourceTemplatesRequest", field:"jsonrpc", f: |v| out(j::<api::ListResourceTemplatesRequest>(v)?.jsonrpc())});
  r.getters.push(Getter{ty:"ListResourceTemplatesRequest", field:"method", f: |v| out(j::<api::ListResourceTemplatesRequest>(v)?.method())});
  r.consts.push(ConstFn{ty:"ListResourceTemplatesRequest", field:"method", f: || serde_json::to_value(api::ListResourceTemplatesRequest::method_value()).unwrap()});
  r.consts.push(ConstFn{ty:"ListResourceTemplatesRequest", field:"method", f: || serde_json::to_value(api::ListResourceTemplatesRequest::method_name()).unwrap()});
  r.getters.push(Getter{ty:"ListResourceTemplatesResultResponse", field:"jsonrpc", f: |v| out(j::<api::ListResourceTemplatesResultResponse>(v)?.jsonrpc())});
  r.getters.push(Getter{ty:"ListResourcesRequest", field:"jsonrpc", f: |v| out(j::<api::ListResourcesRequest>(v)?.jsonrpc())});
  r.getters.push(Getter{ty:"ListResourcesRequest", field:"method", f: |v| out(j::<api::ListResourcesRequest>(v)?.method())});
  r.consts.push(ConstFn{ty:"ListResourcesRequest", field:"method", f: || serde_json::to_value(api::ListResourcesRequest::method_value()).unwrap()});
  r.consts.push(ConstFn{ty:"ListResourcesRequest", field:"method", f: || serde_json::to_value(api::ListResourcesRequest::method_name()).unwrap()});
  r.getters.push(Getter{ty:"ListResourcesResultResponse", field:"jsonrpc", f: |v| out(j::<api::ListResourcesResultResponse>(v)?.jsonrpc())});
  r.getters.push(Getter{ty:"ListRootsRequest", field:"method", f: |v| out(j::<api::ListRootsRequest>(v)?.method())});
  r.consts.push(ConstFn{ty:"ListRootsRequest", field:"method", f: || serde_json::to_value(api::ListRootsRequest::method_value()).unwrap()});
  r.consts.push(ConstFn{ty:"ListRootsRequest", field:"method", f: || serde_json::to_value(api::ListRootsRequest::method_name()).unwrap()});
  r.getters.push(Getter{ty:"ListToolsRequest", field:"jsonrpc", f: |v| out(j::<api::ListToolsRequest>(v)?.jsonrpc())});
  r.getters.push(Getter{ty:"ListToolsRequest", field:"method", f: |v| out(j::<api::ListToolsRequest>(v)?.method())});
  r.consts.push(ConstFn{ty:"ListToolsRequest", field:"method", f: || serde_json::to_value(api::ListToolsRequest::method_value()).unwrap()});
  r.consts.push(ConstFn{ty:"ListToolsRequest", field:"method", f: || serde_json::to_value(api::ListToolsRequest::method_name()).unwrap()});
  r.getters.push(Getter{ty:"ListToolsResultResponse", field:"jsonrpc", f: |v| out(j::<api::ListToolsResultResponse>(v)?.jsonrpc())});
  r.getters.push(Getter{ty:"LoggingMessageNotification", field:"jsonrpc", f: |v| out(j::<api::LoggingMessageNotification>(v)?.jsonrpc())});
  r.getters.push(Getter{ty:"LoggingMessageNotification", field:"method", f: |v| out(j::<api::LoggingMessageNotification>(v)?.method())});
  r.consts.push(ConstFn{ty:"LoggingMessageNotification", field:"method", f: || serde_json::to_value(api::LoggingMessageNotification::method_value()).unwrap()});
  r.consts.push(ConstFn{ty:"LoggingMessageNotification", field:"method", f: || serde_json::to_value(api::LoggingMessageNotification::method_name()).unwrap()});
  r.getters.push(Getter{ty:"MissingRequiredClientCapabilityError", field:"jsonrpc", f: |v| out(j::<api::MissingRequiredClientCapabilityError>(v)?.jsonrpc())});
  r.getters.push(Getter{ty:"PaginatedRequest", field:"jsonrpc", f: |v| out(j::<api::PaginatedRequest>(v)?.jsonrpc())});
  r.getters.push(Getter{ty:"ProgressNotification", field:"jsonrpc", f: |v| out(j::<api::ProgressNotification>(v)?.jsonrpc())});
  r.getters.push(Getter{ty:"ProgressNotification", field:"method", f: |v| out(j::<api::ProgressNotification>(v)?.method())});
  r.consts.push(ConstFn{ty:"ProgressNotification", field:"method", f: || serde_json::to_value(api::ProgressNotification::method_value()).unwrap()});
  r.consts.push(ConstFn{ty:"ProgressNotification", field:"method", f: || serde_json::to_value(api::ProgressNotification::method_name()).unwrap()});
  r.getters.push(Getter{ty:"PromptListChangedNotification", field:"jsonrpc", f: |v| out(j::<api::PromptListChangedNotification>(v)?.jsonrpc())});
  r.getters.push(Getter{ty:"PromptListChangedNotification", field:"method", f: |v| out(j::<api::PromptListChangedNotification>(v)?.method())});
  r.consts.push(ConstFn{ty:"PromptListChangedNotification", field:"method", f: || serde_json::to_value(api::PromptListChangedNotification::method_value()).unwrap()});
  r.consts.push(ConstFn{ty:"PromptListChangedNotification", field:"method", f: || serde_json::to_value(api::PromptListChangedNotification::method_name()).unwrap()});
  r.getters.push(Getter{ty:"PromptReference", field:"type_", f: |v| out(j::<api::PromptReference>(v)?.type_())});
  r.consts.push(ConstFn{ty:"PromptReference", field:"type", f: || serde_json::to_value(api::PromptReference::type_value()).unwrap()});
  r.consts.push(ConstFn{ty:"PromptReference", field:"type", f: || serde_json::to_value(api::PromptReference::type_name()).unwrap()});
  r.getters.push(Getter{ty:"ReadResourceRequest", field:"jsonrpc", f: |v| out(j::<api::ReadResourceRequest>(v)?.jsonrpc())});
  r.getters.push(Getter{ty:"ReadResourceRequest", field:"method", f: |v| out(j::<api::ReadResourceRequest>(v)?.method())});
  r.consts.push(ConstFn{ty:"ReadResourceRequest", field:"method", f: || serde_json::to_value(api::ReadResourceRequest::method_value()).unwrap()});
  r.consts.push(ConstFn{ty:"ReadResourceRequest", field:"method", f: || serde_json::to_value(api::ReadResourceRequest::method_name()).unwrap()});
  r.getters.push(Getter{ty:"ReadResourceResultResponse", field:"jsonrpc", f: |v| out(j::<api::ReadResourceResultResponse>(v)?.jsonrpc())});
  r.getters.push(Getter{ty:"ResourceLink", field:"type_", f: |v| out(j::<api::ResourceLink>(v)?.type_())});
  r.consts.push(ConstFn{ty:"ResourceLink", field:"type", f: || serde_json::to_value(api::ResourceLink::type_value()).unwrap()});
  r.consts.push(ConstFn{ty:"ResourceLink", field:"type", f: || serde_json::to_value(api::ResourceLink::type_name()).unwrap()});
  r.getters.push(Getter{ty:"ResourceListChangedNotification", field:"jsonrpc", f: |v| out(j::<api::ResourceListChangedNotification>(v)?.jsonrpc())});
  r.getters.push(Getter{ty:"ResourceListChangedNotification", field:"method", f: |v| out(j::<api::ResourceListChangedNotification>(v)?.method())});
  r.consts.push(ConstFn{ty:"ResourceListChangedNotification", field:"method", f: || serde_json::to_value(api::ResourceListChangedNotification::method_value()).unwrap()});
  r.consts.push(ConstFn{ty:"ResourceListChangedNotification", field:"method", f: || serde_json::to_value(api::ResourceListChangedNotification::method_name()).unwrap()});
  r.getters.push(Getter{ty:"ResourceTemplateReference", field:"type_", f: |v| out(j::<api::ResourceTemplateReference>(v)?.type_())});
  r.consts.push(ConstFn{ty:"ResourceTemplateReference", field:"type", f: || serde_json::to_value(api::ResourceTemplateReference::type_value()).unwrap()});
  r.consts.push(ConstFn{ty:"ResourceTemplateReference", field:"type", f: || serde_json::to_value(api::ResourceTemplateReference::type_name()).unwrap()});
  r.getters.push(Getter{ty:"ResourceUpdatedNotification", field:"jsonrpc", f: |v| out(j::<api::ResourceUpdatedNotification>(v)?.jsonrpc())});
  r.getters.push(Getter{ty:"ResourceUpdatedNotification", field:"method", f: |v| out(j::<api::ResourceUpdatedNotification>(v)?.method())});
  r.consts.push(ConstFn{ty:"ResourceUpdatedNotification", field:"method", f: || serde_json::to_value(api::ResourceUpdatedNotification::method_value()).unwrap()});
  r.consts.push(ConstFn{ty:"ResourceUpdatedNotification", field:"method", f: || serde_json::to_value(api::ResourceUpdatedNotification::method_name()).unwrap()});
  r.getters.push(Getter{ty:"ServerJsonrpcResponse", field:"jsonrpc", f: |v| out(j::<api::ServerJsonrpcResponse>(v)?.jsonrpc())});
  r.getters.push(Getter{ty:"StringSchema", field:"type_", f: |v| out(j::<api::StringSchema>(v)?.type_())});
  r.consts.push(ConstFn{ty:"StringSchema", field:"type", f: || serde_json::to_value(api::StringSchema::type_value()).unwrap()});
  r.consts.push(ConstFn{ty:"StringSchema", field:"type", f: || serde_json::to_value(api::StringSchema::type_name()).unwrap()});
  r.getters.push(Getter{ty:"SubscriptionsAcknowledgedNotification", field:"jsonrpc", f: |v| out(j::<api::SubscriptionsAcknowledgedNotification>(v)?.jsonrpc())});
  r.getters.push(Getter{ty:"SubscriptionsAcknowledgedNotification", field:"method", f: |v| out(j::<api::SubscriptionsAcknowledgedNotification>(v)?.method())});
  r.consts.push(ConstFn{ty:"SubscriptionsAcknowledgedNotification", field:"method", f: || serde_json::to_value(api::SubscriptionsAcknowledgedNotification::method_value()).unwrap()});
  r.consts.push(ConstFn{ty:"SubscriptionsAcknowledgedNotification", field:"method", f: || serde_json::to_value(api::SubscriptionsAcknowledgedNotification::method_name()).unwrap()});
  r.getters.push(Getter{ty:"SubscriptionsListenRequest", field:"jsonrpc", f: |v| out(j::<api::SubscriptionsListenRequest>(v)?.jsonrpc())});
  r.getters.push(Getter{ty:"SubscriptionsListenRequest", field:"method", f: |v| out(j::<api::SubscriptionsListenRequest>(v)?.method())});
  r.consts.push(ConstFn{ty:"SubscriptionsListenRequest", field:"method", f: || serde_json::to_value(api::SubscriptionsListenRequest::method_value()).unwrap()});
  r.consts.push(ConstFn{ty:"SubscriptionsListenRequest", field:"method", f: || serde_json::to_value(api::SubscriptionsListenRequest::method_name()).unwrap()});
  r.getters.push(Getter{ty:"SubscriptionsListenResultResponse", field:"jsonrpc", f: |v| out(j::<api::SubscriptionsListenResultResponse>(v)?.jsonrpc())});
  r.getters.push(Getter{ty:"TextContent", field:"type_", f: |v| out(j::<api::TextContent>(v)?.type_())});
  r.consts.push(ConstFn{ty:"TextContent", field:"type", f: || serde_json::to_value(api::TextContent::type_value()).unwrap()});
  r.consts.push(ConstFn{ty:"TextContent", field:"type", f: || serde_json::to_value(api::TextContent::type_name()).unwrap()});
  r.getters.push(Getter{ty:"TitledMultiSelectEnumSchema", field:"type_", f: |v| out(j::<api::TitledMultiSelectEnumSchema>(v)?.type_())});
  r.consts.push(ConstFn{ty:"TitledMultiSelectEnumSchema", field:"type", f: || serde_json::to_value(api::TitledMultiSelectEnumSchema::type_value()).unwrap()});
  r.consts.push(ConstFn{ty:"TitledMultiSelectEnumSchema", field:"type", f: || serde_json::to_value(api::TitledMultiSelectEnumSchema::type_name()).unwrap()});
  r.getters.push(Getter{ty:"TitledSingleSelectEnumSchema", field:"type_", f: |v| out(j::<api::TitledSingleSelectEnumSchema>(v)?.type_())});
  r.consts.push(ConstFn{ty:"TitledSingleSelectEnumSchema", field:"type", f: || serde_json::to_value(api::TitledSingleSelectEnumSchema::type_value()).unwrap()});
  r.consts.push(ConstFn{ty:"TitledSingleSelectEnumSchema", field:"type", f: || serde_json::to_value(api::TitledSingleSelectEnumSchema::type_name()).unwrap()});
  r.getters.push(Getter{ty:"ToolInputSchema", field:"type_", f: |v| out(j::<api::ToolInputSchema>(v)?.type_())});
  r.consts.push(ConstFn{ty:"ToolInputSchema", field:"type", f: || serde_json::to_value(api::ToolInputSchema::type_value()).unwrap()});
  r.consts.push(ConstFn{ty:"ToolInputSchema", field:"type", f: || serde_json::to_value(api::ToolInputSchema::type_name()).unwrap()});
  r.getters.push(Getter{ty:"ToolListChangedNotification", field:"jsonrpc", f: |v| out(j::<api::ToolListChangedNotification>(v)?.jsonrpc())});
  r.getters.push(Getter{ty:"ToolListChangedNotification", field:"method", f: |v| out(j::<api::ToolListChangedNotification>(v)?.method())});
  r.consts.push(ConstFn{ty:"ToolListChangedNotification", field:"method", f: || serde_json::to_value(api::ToolListChangedNotification::method_value()).unwrap()});
  r.consts.push(ConstFn{ty:"ToolListChangedNotification", field:"method", f: || serde_json::to_value(api::ToolListChangedNotification::method_name()).unwrap()});
  r.getters.push(Getter{ty:"ToolResultContent", field:"type_", f: |v| out(j::<api::ToolResultContent>(v)?.type_())});
  r.consts.push(ConstFn{ty:"ToolResultContent", field:"type", f: || serde_json::to_value(api::ToolResultContent::type_value()).unwrap()});
  r.consts.push(ConstFn{ty:"ToolResultContent", field:"type", f: || serde_json::to_value(api::ToolResultContent::type_name()).unwrap()});
  r.getters.push(Getter{ty:"ToolUseContent", field:"type_", f: |v| out(j::<api::ToolUseContent>(v)?.type_())});
  r.consts.push(ConstFn{ty:"ToolUseContent", field:"type", f: || serde_json::to_value(api::ToolUseContent::type_value()).unwrap()});
  r.consts.push(ConstFn{ty:"ToolUseContent", field:"type", f: || serde_json::to_value(api::ToolUseContent::type_name()).unwrap()});
  r.getters.push(Getter{ty:"UnsupportedProtocolVersionError", field:"jsonrpc", f: |v| out(j::<api::UnsupportedProtocolVersionError>(v)?.jsonrpc())});
  r.getters.push(Getter{ty:"UntitledMultiSelectEnumSchema", field:"type_", f: |v| out(j::<api::UntitledMultiSelectEnumSchema>(v)?.type_())});
  r.consts.push(ConstFn{ty:"UntitledMultiSelectEnumSchema", field:"type", f: || serde_json::to_value(api::UntitledMultiSelectEnumSchema::type_value()).unwrap()});
  r.consts.push(ConstFn{ty:"UntitledMultiSelectEnumSchema", field:"type", f: || serde_json::to_value(api::UntitledMultiSelectEnumSchema::type_name()).unwrap()});
  r.getters.push(Getter{ty:"UntitledMultiSelectEnumSchemaItems", field:"type_", f: |v| out(j::<api::UntitledMultiSelectEnumSchemaItems>(v)?.type_())});
  r.consts.push(ConstFn{ty:"UntitledMultiSelectEnumSchemaItems", field:"type", f: || serde_json::to_value(api::UntitledMultiSelectEnumSchemaItems::type_value()).unwrap()});
  r.consts.push(ConstFn{ty:"UntitledMultiSelectEnumSchemaItems", field:"type", f: || serde_json::to_value(api::UntitledMultiSelectEnumSchemaItems::type_name()).unwrap()});
  r.getters.push(Getter{ty:"UntitledSingleSelectEnumSchema", field:"type_", f: |v| out(j::<api::UntitledSingleSelectEnumSchema>(v)?.type_())});
  r.consts.push(ConstFn{ty:"UntitledSingleSelectEnumSchema", field:"type", f: || serde_json::to_value(api::UntitledSingleSelectEnumSchema::type_value()).unwrap()});
  r.consts.push(ConstFn{ty:"UntitledSingleSelectEnumSchema", field:"type", f: || serde_json::to_value(api::UntitledSingleSelectEnumSchema::type_name()).unwrap()});
  r.builders.push(Builder{ty:"BlobResourceContents", name:"with_meta", arg:"MetaObject", f: |v, a| out(j::<api::BlobResourceContents>(v)?.with_meta(j(a)?))});
  r.builders.push(Builder{ty:"BlobResourceContents", name:"with_mime_type", arg:"T", f: |v, a| out(j::<api::BlobResourceContents>(v)?.with_mime_type(j::<String>(a)?))});
  r.builders.push(Builder{ty:"BlobResourceContents", name:"with_uri", arg:"T", f: |v, a| out(j::<api::BlobResourceContents>(v)?.with_uri(j::<String>(a)?))});
  r.builders.push(Builder{ty:"CallToolRequestParams", name:"with_arguments", arg:"Map<String,Value>", f: |v, a| out(j::<api::CallToolRequestParams>(v)?.with_arguments(j(a)?))});
  r.builders.push(Builder{ty:"CallToolRequestParams", name:"with_input_responses", arg:"InputResponses", f: |v, a| out(j::<api::CallToolRequestParams>(v)?.with_input_responses(j(a)?))});
  r.builders.push(Builder{ty:"CallToolRequestParams", name:"with_request_state", arg:"T", f: |v, a| out(j::<api::CallToolRequestParams>(v)?.with_request_state(j::<String>(a)?))});
  r.builders.push(Builder{ty:"CallToolResult", name:"with_meta", arg:"Option<ResultMetaObject>", f: |v, a| out(j::<api::CallToolResult>(v)?.with_meta(j(a)?))});
  r.builders.push(Builder{ty:"CallToolResult", name:"with_structured_content", arg:"Map<String,Value>", f: |v, a| out(j::<api::CallToolResult>(v)?.with_structured_content(j(a)?))});
  r.builders.push(Builder{ty:"GetPromptRequestParams", name:"with_input_responses", arg:"InputResponses", f: |v, a| out(j::<api::GetPromptRequestParams>(v)?.with_input_responses(j(a)?))});
  r.builders.push(Builder{ty:"GetPromptRequestParams", name:"with_request_state", arg:"T", f: |v, a| out(j::<api::GetPromptRequestParams>(v)?.with_request_state(j::<String>(a)?))});
  r.builders.push(Builder{ty:"InputRequiredResult", name:"with_request_state", arg:"T", f: |v, a| out(j::<api::InputRequiredResult>(v)?.with_request_state(j::<String>(a)?))});
  r.builders.push(Builder{ty:"InputRequiredResult", name:"with_input_requests", arg:"InputRequests", f: |v, a| out(j::<api::InputRequiredResult>(v)?.with_input_requests(j(a)?))});
  r.builders.push(Builder{ty:"InputResponseRequestParams", name:"with_input_responses", arg:"InputResponses", f: |v, a| out(j::<api::InputResponseRequestParams>(v)?.with_input_responses(j(a)?))});
  r.builders.push(Builder{ty:"InputResponseRequestParams", name:"with_request_state", arg:"T", f: |v, a| out(j::<api::InputResponseRequestParams>(v)?.with_request_state(j::<String>(a)?))});
  r.builders.push(Builder{ty:"ReadResourceRequestParams", name:"with_input_responses", arg:"InputResponses", f: |v, a| out(j::<api::ReadResourceRequestParams>(v)?.with_input_responses(j(a)?))});
  r.builders.push(Builder{ty:"ReadResourceRequestParams", name:"with_request_state", arg:"T", f: |v, a| out(j::<api::ReadResourceRequestParams>(v)?.with_request_state(j::<String>(a)?))});
  r.builders.push(Builder{ty:"RequestFromClient", name:"with_meta", arg:"RequestMetaObject", f: |v, a| out(j::<api::RequestFromClient>(v)?.with_meta(j(a)?))});
  r.builders.push(Builder{ty:"RequestMetaObject", name:"with_client_info", arg:"Implementation", f: |v, a| out(j::<api::RequestMetaObject>(v)?.with_client_info(j(a)?))});
  r.builders.push(Builder{ty:"RequestMetaObject", name:"with_log_level", arg:"LoggingLevel", f: |v, a| out(j::<api::RequestMetaObject>(v)?.with_log_level(j(a)?))});
  r.builders.push(Builder{ty:"RequestMetaObject", name:"with_progress_token", arg:"ProgressToken", f: |v, a| out(j::<api::RequestMetaObject>(v)?.with_progress_token(j(a)?))});
  r.builders.push(Builder{ty:"RequestMetaObject", name:"with_traceparent", arg:"impl Into<String>", f: |v, a| out(j::<api::RequestMetaObject>(v)?.with_traceparent(j::<String>(a)?))});
  r.builders.push(Builder{ty:"RequestMetaObject", name:"with_tracestate", arg:"impl Into<String>", f: |v, a| out(j::<api::RequestMetaObject>(v)?.with_tracestate(j::<String>(a)?))});
  r.builders.push(Builder{ty:"RequestMetaObject", name:"with_baggage", arg:"impl Into<String>", f: |v, a| out(j::<api::RequestMetaObject>(v)?.with_baggage(j::<String>(a)?))});
  r.builders.push(Builder{ty:"RpcError", name:"with_message", arg:"T", f: |v, a| out(j::<api::RpcError>(v)?.with_message(j::<String>(a)?))});
  r.builders.push(Builder{ty:"RpcError", name:"with_data", arg:"Option<Value>", f: |v, a| out(j::<api::RpcError>(v)?.with_data(j(a)?))});
  r.builders.push(Builder{ty:"SdkError", name:"with_data", arg:"Option<Value>", f: |v, a| out(j::<api::SdkError>(v)?.with_data(j(a)?))});
  r.builders.push(Builder{ty:"TextResourceContents", name:"with_meta", arg:"MetaObject", f: |v, a| out(j::<api::TextResourceContents>(v)?.with_meta(j(a)?))});
  r.builders.push(Builder{ty:"TextResourceContents", name:"with_mime_type", arg:"T", f: |v, a| out(j::<api::TextResourceContents>(v)?.with_mime_type(j::<String>(a)?))});
  r.builders.push(Builder{ty:"TextResourceContents", name:"with_uri", arg:"T", f: |v, a| out(j::<api::TextResourceContents>(v)?.with_uri(j::<String>(a)?))});
  r.defaults.push(DefaultFn{ty:"Annotations", f: || out(<api::Annotations as Default>::default())});
  r.defaults.push(DefaultFn{ty:"BaseMetadata", f: || out(<api::BaseMetadata as Default>::default())});
  r.defaults.push(DefaultFn{ty:"BlobResourceContents", f: || out(<api::BlobResourceContents as Default>::default())});
  r.displays.push(DisplayFn{ty:"CacheableResultCacheScope", f: |v| Ok(j::<api::CacheableResultCacheScope>(v)?.to_string())});
  r.try_froms.push(TryConv{src:"ServerResult", dst:"CallToolResult", f: |p, v| { let x = mk_ServerResult(p, v)?; Ok(<api::CallToolResult as TryFrom<api::ServerResult>>::try_from(x).map(|y| serde_json::to_value(y).unwrap()).map_err(|e| serde_json::to_value(e).unwrap()))}});
  r.froms.push(Conv{src:"CallToolResult", dst:"CallToolResultResponseResult", f: |v| out(<api::CallToolResultResponseResult as From<api::CallToolResult>>::from(j::<api::CallToolResult>(v)?)), var: Some(|v| Ok(var_CallToolResultResponseResult(&<api::CallToolResultResponseResult as From<api::CallToolResult>>::from(j::<api::CallToolResult>(v)?))))});
  r.froms.push(Conv{src:"InputRequiredResult", dst:"CallToolResultResponseResult", f: |v| out(<api::CallToolResultResponseResult as From<api::InputRequiredResult>>::from(j::<api::InputRequiredResult>(v)?)), var: Some(|v| Ok(var_CallToolResultResponseResult(&<api::CallToolResultResponseResult as From<api::InputRequiredResult>>::from(j::<api::InputRequiredResult>(v)?))))});
  r.defaults.push(DefaultFn{ty:"CancelledNotificationParams", f: || out(<api::CancelledNotificationParams as Default>::default())});
  r.defaults.push(DefaultFn{ty:"ClientCapabilities", f: || out(<api::ClientCapabilities as Default>::default())});
  r.defaults.push(DefaultFn{ty:"ClientElicitation", f: || out(<api::ClientElicitation as Default>::default())});
  r.displays.push(DisplayFn{ty:"ClientJsonrpcNotification", f: |v| Ok(j::<api::ClientJsonrpcNotification>(v)?.to_string())});
  r.fromstrs.push(FromStrFn{ty:"ClientJsonrpcNotification", f: |s| s.parse::<api::ClientJsonrpcNotification>().map(|x| serde_json::to_value(x).unwrap()).map_err(|e| serde_json::to_string(&e).unwrap())});
  r.displays.push(DisplayFn{ty:"ClientJsonrpcRequest", f: |v| Ok(j::<api::ClientJsonrpcRequest>(v)?.to_string())});
  r.froms.push(Conv{src:"CallToolRequest", dst:"ClientJsonrpcRequest", f: |v| out(<api::ClientJsonrpcRequest as From<api::CallToolRequest>>::from(j::<api::CallToolRequest>(v)?)), var: Some(|v| Ok(var_ClientJsonrpcRequest(&<api::ClientJsonrpcRequest as From<api::CallToolRequest>>::from(j::<api::CallToolRequest>(v)?))))});
  r.froms.push(Conv{src:"CompleteRequest", dst:"ClientJsonrpcRequest", f: |v| out(<api::ClientJsonrpcRequest as From<api::CompleteRequest>>::from(j::<api::CompleteRequest>(v)?)), var: Some(|v| Ok(var_ClientJsonrpcRequest(&<api::ClientJsonrpcRequest as From<api::CompleteRequest>>::from(j::<api::CompleteRequest>(v)?))))});
  r.froms.push(Conv{src:"DiscoverRequest", dst:"ClientJsonrpcRequest", f: |v| out(<api::ClientJsonrpcRequest as From<api::DiscoverRequest>>::from(j::<api::DiscoverRequest>(v)?)), var: Some(|v| Ok(var_ClientJsonrpcRequest(&<api::ClientJsonrpcRequest as From<api::DiscoverRequest>>::from(j::<api::DiscoverRequest>(v)?))))});
  r.froms.push(Conv{src:"GetPromptRequest", dst:"ClientJsonrpcRequest", f: |v| out(<api::ClientJsonrpcRequest as From<api::GetPromptRequest>>::from(j::<api::GetPromptRequest>(v)?)), var: Some(|v| Ok(var_ClientJsonrpcRequest(&<api::ClientJsonrpcRequest as From<api::GetPromptRequest>>::from(j::<api::GetPromptRequest>(v)?))))});
  r.froms.push(Conv{src:"ListPromptsRequest", dst:"ClientJsonrpcRequest", f: |v| out(<api::ClientJsonrpcRequest as From<api::ListPromptsRequest>>::from(j::<api::ListPromptsRequest>(v)?)), var: Some(|v| Ok(var_ClientJsonrpcRequest(&<api::ClientJsonrpcRequest as From<api::ListPromptsRequest>>::from(j::<api::ListPromptsRequest>(v)?))))});
  r.froms.push(Conv{src:"ListResourceTemplatesRequest", dst:"ClientJsonrpcRequest", f: |v| out(<api::ClientJsonrpcRequest as From<api::ListResourceTemplatesRequest>>::from(j::<api::ListResourceTemplatesRequest>(v)?)), var: Some(|v| Ok(var_ClientJsonrpcRequest(&<api::ClientJsonrpcRequest as From<api::ListResourceTemplatesRequest>>::from(j::<api::ListResourceTemplatesRequest>(v)?))))});
  r.froms.push(Conv{src:"ListResourcesRequest", dst:"ClientJsonrpcRequest", f: |v| out(<api::ClientJsonrpcRequest as From<api::ListResourcesRequest>>::from(j::<api::ListResourcesRequest>(v)?)), var: Some(|v| Ok(var_ClientJsonrpcRequest(&<api::ClientJsonrpcRequest as From<api::ListResourcesRequest>>::from(j::<api::ListResourcesRequest>(v)?))))});
  r.froms.push(Conv{src:"ListToolsRequest", dst:"ClientJsonrpcRequest", f: |v| out(<api::ClientJsonrpcRequest as From<api::ListToolsRequest>>::from(j::<api::ListToolsRequest>(v)?)), var: Some(|v| Ok(var_ClientJsonrpcRequest(&<api::ClientJsonrpcRequest as From<api::ListToolsRequest>>::from(j::<api::ListToolsRequest>(v)?))))});
  r.froms.push(Conv{src:"ReadResourceRequest", dst:"ClientJsonrpcRequest", f: |v| out(<api::ClientJsonrpcRequest as From<api::ReadResourceRequest>>::from(j::<api::ReadResourceRequest>(v)?)), var: Some(|v| Ok(var_ClientJsonrpcRequest(&<api::ClientJsonrpcRequest as From<api::ReadResourceRequest>>::from(j::<api::ReadResourceRequest>(v)?))))});
  r.froms.push(Conv{src:"SubscriptionsListenRequest", dst:"ClientJsonrpcRequest", f: |v| out(<api::ClientJsonrpcRequest as From<api::SubscriptionsListenRequest>>::from(j::<api::SubscriptionsListenRequest>(v)?)), var: Some(|v| Ok(var_ClientJsonrpcRequest(&<api::ClientJsonrpcRequest as From<api::SubscriptionsListenRequest>>::from(j::<api::SubscriptionsListenRequest>(v)?))))});
  r.fromstrs.push(FromStrFn{ty:"ClientJsonrpcRequest", f: |s| s.parse::<api::ClientJsonrpcRequest>().map(|x| serde_json::to_value(x).unwrap()).map_err(|e| serde_json::to_string(&e).unwrap())});
  r.displays.push(DisplayFn{ty:"ClientJsonrpcResponse", f: |v| Ok(j::<api::ClientJsonrpcResponse>(v)?.to_string())});
  r.fromstrs.push(FromStrFn{ty:"ClientJsonrpcResponse", f: |s| s.parse::<api::ClientJsonrpcResponse>().map(|x| serde_json::to_value(x).unwrap()).map_err(|e| serde_json::to_string(&e).unwrap())});
  r.displays.push(DisplayFn{ty:"ClientMessage", f: |v| Ok(j::<api::ClientMessage>(v)?.to_string())});
  r.froms.push(Conv{src:"ClientJsonrpcNotification", dst:"ClientMessage", f: |v| out(<api::ClientMessage as From<api::ClientJsonrpcNotification>>::from(j::<api::ClientJsonrpcNotification>(v)?)), var: Some(|v| Ok(var_ClientMessage(&<api::ClientMessage as From<api::ClientJsonrpcNotification>>::from(j::<api::ClientJsonrpcNotification>(v)?))))});
  r.froms.push(Conv{src:"ClientJsonrpcRequest", dst:"ClientMessage", f: |v| out(<api::ClientMessage as From<api::ClientJsonrpcRequest>>::from(j::<api::ClientJsonrpcRequest>(v)?)), var: Some(|v| Ok(var_ClientMessage(&<api::ClientMessage as From<api::ClientJsonrpcRequest>>::from(j::<api::ClientJsonrpcRequest>(v)?))))});
  r.froms.push(Conv{src:"ClientJsonrpcResponse", dst:"ClientMessage", f: |v| out(<api::ClientMessage as From<api::ClientJsonrpcResponse>>::from(j::<api::ClientJsonrpcResponse>(v)?)), var: Some(|v| Ok(var_ClientMessage(&<api::ClientMessage as From<api::ClientJsonrpcResponse>>::from(j::<api::ClientJsonrpcResponse>(v)?))))});
  r.from_message.push(Assemble{src:"MessageFromClient", dst:"ClientMessage", f: |v, id| { let id = match id { Some(i) => Some(j::<api::RequestId>(i)?), None => None }; let x = j::<api::MessageFromClient>(v)?; Ok(<api::ClientMessage as api::FromMessage<api::MessageFromClient>>::from_message(x, id).map(|y| serde_json::json!([var_ClientMessage(&y), y])).map_err(|e| serde_json::to_value(e).unwrap())) } });
  r.fromstrs.push(FromStrFn{ty:"ClientMessage", f: |s| s.parse::<api::ClientMessage>().map(|x| serde_json::to_value(x).unwrap()).map_err(|e| serde_json::to_string(&e).unwrap())});
  r.displays.push(DisplayFn{ty:"ClientMessages", f: |v| Ok(j::<api::ClientMessages>(v)?.to_string())});
  r.froms.push(Conv{src:"ClientMessage", dst:"ClientMessages", f: |v| out(<api::ClientMessages as From<api::ClientMessage>>::from(j::<api::ClientMessage>(v)?)), var: Some(|v| Ok(var_ClientMessages(&<api::ClientMessages as From<api::ClientMessage>>::from(j::<api::ClientMessage>(v)?))))});
  r.froms.push(Conv{src:"Vec<ClientMessage>", dst:"ClientMessages", f: |v| out(<api::ClientMessages as From<Vec<api::ClientMessage>>>::from(j::<Vec<api::ClientMessage>>(v)?)), var: Some(|v| Ok(var_ClientMessages(&<api::ClientMessages as From<Vec<api::ClientMessage>>>::from(j::<Vec<api::ClientMessage>>(v)?))))});
  r.froms.push(Conv{src:"CallToolRequest", dst:"ClientRequest", f: |v| out(<api::ClientRequest as From<api::CallToolRequest>>::from(j::<api::CallToolRequest>(v)?)), var: Some(|v| Ok(var_ClientRequest(&<api::ClientRequest as From<api::CallToolRequest>>::from(j::<api::CallToolRequest>(v)?))))});
  r.froms.push(Conv{src:"CompleteRequest", dst:"ClientRequest", f: |v| out(<api::ClientRequest as From<api::CompleteRequest>>::from(j::<api::CompleteRequest>(v)?)), var: Some(|v| Ok(var_ClientRequest(&<api::ClientRequest as From<api::CompleteRequest>>::from(j::<api::CompleteRequest>(v)?))))});
  r.froms.push(Conv{src:"DiscoverRequest", dst:"ClientRequest", f: |v| out(<api::ClientRequest as From<api::DiscoverRequest>>::from(j::<api::DiscoverRequest>(v)?)), var: Some(|v| Ok(var_ClientRequest(&<api::ClientRequest as From<api::DiscoverRequest>>::from(j::<api::DiscoverRequest>(v)?))))});
  r.froms.push(Conv{src:"GetPromptRequest", dst:"ClientRequest", f: |v| out(<api::ClientRequest as From<api::GetPromptRequest>>::from(j::<api::GetPromptRequest>(v)?)), var: Some(|v| Ok(var_ClientRequest(&<api::ClientRequest as From<api::GetPromptRequest>>::from(j::<api::GetPromptRequest>(v)?))))});
  r.froms.push(Conv{src:"ListPromptsRequest", dst:"ClientRequest", f: |v| out(<api::ClientRequest as From<api::ListPromptsRequest>>::from(j::<api::ListPromptsRequest>(v)?)), var: Some(|v| Ok(var_ClientRequest(&<api::ClientRequest as From<api::ListPromptsRequest>>::from(j::<api::ListPromptsRequest>(v)?))))});
  r.froms.push(Conv{src:"ListResourceTemplatesRequest", dst:"ClientRequest", f: |v| out(<api::ClientRequest as From<api::ListResourceTemplatesRequest>>::from(j::<api::ListResourceTemplatesRequest>(v)?)), var: Some(|v| Ok(var_ClientRequest(&<api::ClientRequest as From<api::ListResourceTemplatesRequest>>::from(j::<api::ListResourceTemplatesRequest>(v)?))))});
  r.froms.push(Conv{src:"ListResourcesRequest", dst:"ClientRequest", f: |v| out(<api::ClientRequest as From<api::ListResourcesRequest>>::from(j::<api::ListResourcesRequest>(v)?)), var: Some(|v| Ok(var_ClientRequest(&<api::ClientRequest as From<api::ListResourcesRequest>>::from(j::<api::ListResourcesRequest>(v)?))))});
  r.froms.push(Conv{src:"ListToolsRequest", dst:"ClientRequest", f: |v| out(<api::ClientRequest as From<api::ListToolsRequest>>::from(j::<api::ListToolsRequest>(v)?)), var: Some(|v| Ok(var_ClientRequest(&<api::ClientRequest as From<api::ListToolsRequest>>::from(j::<api::ListToolsRequest>(v)?))))});
  r.froms.push(Conv{src:"ReadResourceRequest", dst:"ClientRequest", f: |v| out(<api::ClientRequest as From<api::ReadResourceRequest>>::from(j::<api::ReadResourceRequest>(v)?)), var: Some(|v| Ok(var_ClientRequest(&<api::ClientRequest as From<api::ReadResourceRequest>>::from(j::<api::ReadResourceRequest>(v)?))))});
  r.froms.push(Conv{src:"SubscriptionsListenRequest", dst:"ClientRequest", f: |v| out(<api::ClientRequest as From<api::SubscriptionsListenRequest>>::from(j::<api::SubscriptionsListenRequest>(v)?)), var: Some(|v| Ok(var_ClientRequest(&<api::ClientRequest as From<api::SubscriptionsListenRequest>>::from(j::<api::SubscriptionsListenRequest>(v)?))))});
  r.defaults.push(DefaultFn{ty:"ClientSampling", f: || out(<api::ClientSampling as Default>::default())});
  r.defaults.push(DefaultFn{ty:"CompleteRequestArgument", f: || out(<api::CompleteRequestArgument as Default>::default())});
  r.defaults.push(DefaultFn{ty:"CompleteRequestContext", f: || out(<api::CompleteRequestContext as Default>::default())});
  r.froms.push(Conv{src:"PromptReference", dst:"CompleteRequestRef", f: |v| out(<api::CompleteRequestRef as From<api::PromptReference>>::from(j::<api::PromptReference>(v)?)), var: Some(|v| Ok(var_CompleteRequestRef(&<api::CompleteRequestRef as From<api::PromptReference>>::from(j::<api::PromptReference>(v)?))))});
  r.froms.push(Conv{src:"ResourceTemplateReference", dst:"CompleteRequestRef", f: |v| out(<api::CompleteRequestRef as From<api::ResourceTemplateReference>>::from(j::<api::ResourceTemplateReference>(v)?)), var: Some(|v| Ok(var_CompleteRequestRef(&<api::CompleteRequestRef as From<api::ResourceTemplateReference>>::from(j::<api::ResourceTemplateReference>(v)?))))});
  r.try_froms.push(TryConv{src:"ServerResult", dst:"CompleteResult", f: |p, v| { let x = mk_ServerResult(p, v)?; Ok(<api::CompleteResult as TryFrom<api::ServerResult>>::try_from(x).map(|y| serde_json::to_value(y).unwrap()).map_err(|e| serde_json::to_value(e).unwrap()))}});
  r.froms.push(Conv{src:"AudioContent", dst:"ContentBlock", f: |v| out(<api::ContentBlock as From<api::AudioContent>>::from(j::<api::AudioContent>(v)?)), var: Some(|v| Ok(var_ContentBlock(&<api::ContentBlock as From<api::AudioContent>>::from(j::<api::AudioContent>(v)?))))});
  r.froms.push(Conv{src:"EmbeddedResource", dst:"ContentBlock", f: |v| out(<api::ContentBlock as From<api::EmbeddedResource>>::from(j::<api::EmbeddedResource>(v)?)), var: Some(|v| Ok(var_ContentBlock(&<api::ContentBlock as From<api::EmbeddedResource>>::from(j::<api::EmbeddedResource>(v)?))))});
  r.froms.push(Conv{src:"ImageContent", dst:"ContentBlock", f: |v| out(<api::ContentBlock as From<api::ImageContent>>::from(j::<api::ImageContent>(v)?)), var: Some(|v| Ok(var_ContentBlock(&<api::ContentBlock as From<api::ImageContent>>::from(j::<api::ImageContent>(v)?))))});
  r.froms.push(Conv{src:"ResourceLink", dst:"ContentBlock", f: |v| out(<api::ContentBlock as From<api::ResourceLink>>::from(j::<api::ResourceLink>(v)?)), var: Some(|v| Ok(var_ContentBlock(&<api::ContentBlock as From<api::ResourceLink>>::from(j::<api::ResourceLink>(v)?))))});
  r.froms.push(Conv{src:"TextContent", dst:"ContentBlock", f: |v| out(<api::ContentBlock as From<api::TextContent>>::from(j::<api::TextContent>(v)?)), var: Some(|v| Ok(var_ContentBlock(&<api::ContentBlock as From<api::TextContent>>::from(j::<api::TextContent>(v)?))))});
  r.froms.push(Conv{src:"AudioContent", dst:"CreateMessageContent", f: |v| out(<api::CreateMessageContent as From<api::AudioContent>>::from(j::<api::AudioContent>(v)?)), var: Some(|v| Ok(var_CreateMessageContent(&<api::CreateMessageContent as From<api::AudioContent>>::from(j::<api::AudioContent>(v)?))))});
  r.froms.push(Conv{src:"ImageContent", dst:"CreateMessageContent", f: |v| out(<api::CreateMessageContent as From<api::ImageContent>>::from(j::<api::ImageContent>(v)?)), var: Some(|v| Ok(var_CreateMessageContent(&<api::CreateMessageContent as From<api::ImageContent>>::from(j::<api::ImageContent>(v)?))))});
  r.froms.push(Conv{src:"TextContent", dst:"CreateMessageContent", f: |v| out(<api::CreateMessageContent as From<api::TextContent>>::from(j::<api::TextContent>(v)?)), var: Some(|v| Ok(var_CreateMessageContent(&<api::CreateMessageContent as From<api::TextContent>>::from(j::<api::TextContent>(v)?))))});
  r.froms.push(Conv{src:"ToolResultContent", dst:"CreateMessageContent", f: |v| out(<api::CreateMessageContent as From<api::ToolResultContent>>::from(j::<api::ToolResultContent>(v)?)), var: Some(|v| Ok(var_CreateMessageContent(&<api::CreateMessageContent as From<api::ToolResultContent>>::from(j::<api::ToolResultContent>(v)?))))});
  r.froms.push(Conv{src:"ToolUseContent", dst:"CreateMessageContent", f: |v| out(<api::CreateMessageContent as From<api::ToolUseContent>>::from(j::<api::ToolUseContent>(v)?)), var: Some(|v| Ok(var_CreateMessageContent(&<api::CreateMessageContent as From<api::ToolUseContent>>::from(j::<api::ToolUseContent>(v)?))))});
  r.froms.push(Conv{src:"Vec<SamplingMessageContentBlock>", dst:"CreateMessageContent", f: |v| out(<api::CreateMessageContent as From<Vec<api::SamplingMessageContentBlock>>>::from(j::<Vec<api::SamplingMessageContentBlock>>(v)?)), var: Some(|v| Ok(var_CreateMessageContent(&<api::CreateMessageContent as From<Vec<api::SamplingMessageContentBlock>>>::from(j::<Vec<api::SamplingMessageContentBlock>>(v)?))))});
  r.try_froms.push(TryConv{src:"ResultFromClient", dst:"CreateMessageResult", f: |p, v| { let x = mk_ResultFromClient(p, v)?; Ok(<api::CreateMessageResult as TryFrom<api::ResultFromClient>>::try_from(x).map(|y| serde_json::to_value(y).unwrap()).map_err(|e| serde_json::to_value(e).unwrap()))}});
  r.defaults.push(DefaultFn{ty:"Cursor", f: || out(<api::Cursor as Default>::default())});
  r.froms.push(Conv{src:"JsonrpcNotification", dst:"CustomRequest", f: |v| out(<api::CustomNotification as From<api::JsonrpcNotification>>::from(j::<api::JsonrpcNotification>(v)?)), var: None});
  r.froms.push(Conv{src:"JsonrpcRequest", dst:"CustomRequest", f: |v| out(<api::CustomRequest as From<api::JsonrpcRequest>>::from(j::<api::JsonrpcRequest>(v)?)), var: None});
  r.try_froms.push(TryConv{src:"ServerResult", dst:"DiscoverResult", f: |p, v| { let x = mk_ServerResult(p, v)?; Ok(<api::DiscoverResult as TryFrom<api::ServerResult>>::try_from(x).map(|y| serde_json::to_value(y).unwrap()).map_err(|e| serde_json::to_value(e).unwrap()))}});
  r.displays.push(DisplayFn{ty:"DiscoverResultCacheScope", f: |v| Ok(j::<api::DiscoverResultCacheScope>(v)?.to_string())});
  r.froms.push(Conv{src:"ElicitRequestFormParams", dst:"ElicitRequestParams", f: |v| out(<api::ElicitRequestParams as From<api::ElicitRequestFormParams>>::from(j::<api::ElicitRequestFormParams>(v)?)), var: Some(|v| Ok(var_ElicitRequestParams(&<api::ElicitRequestParams as From<api::ElicitRequestFormParams>>::from(j::<api::ElicitRequestFormParams>(v)?))))});
  r.froms.push(Conv{src:"ElicitRequestUrlParams", dst:"ElicitRequestParams", f: |v| out(<api::ElicitRequestParams as From<api::ElicitRequestUrlParams>>::from(j::<api::ElicitRequestUrlParams>(v)?)), var: Some(|v| Ok(var_ElicitRequestParams(&<api::ElicitRequestParams as From<api::ElicitRequestUrlParams>>::from(j::<api::ElicitRequestUrlParams>(v)?))))});
  r.try_froms.push(TryConv{src:"ResultFromClient", dst:"ElicitResult", f: |p, v| { let x = mk_ResultFromClient(p, v)?; Ok(<api::ElicitResult as TryFrom<api::ResultFromClient>>::try_from(x).map(|y| serde_json::to_value(y).unwrap()).map_err(|e| serde_json::to_value(e).unwrap()))}});
  r.displays.push(DisplayFn{ty:"ElicitResultAction", f: |v| Ok(j::<api::ElicitResultAction>(v)?.to_string())});
  r.froms.push(Conv{src:"ElicitResultContentPrimitive", dst:"ElicitResultContent", f: |v| out(<api::ElicitResultContent as From<api::ElicitResultContentPrimitive>>::from(j::<api::ElicitResultContentPrimitive>(v)?)), var: Some(|v| Ok(var_ElicitResultContent(&<api::ElicitResultContent as From<api::ElicitResultContentPrimitive>>::from(j::<api::ElicitResultContentPrimitive>(v)?))))});
  r.froms.push(Conv{src:"Vec<String>", dst:"ElicitResultContent", f: |v| out(<api::ElicitResultContent as From<Vec<String>>>::from(j::<Vec<String>>(v)?)), var: Some(|v| Ok(var_ElicitResultContent(&<api::ElicitResultContent as From<Vec<String>>>::from(j::<Vec<String>>(v)?))))});
  r.froms.push(Conv{src:"bool", dst:"ElicitResultContentPrimitive", f: |v| out(<api::ElicitResultContentPrimitive as From<bool>>::from(j::<bool>(v)?)), var: Some(|v| Ok(var_ElicitResultContentPrimitive(&<api::ElicitResultContentPrimitive as From<bool>>::from(j::<bool>(v)?))))});
  r.froms.push(Conv{src:"i64", dst:"ElicitResultContentPrimitive", f: |v| out(from_as::<_, _, api::ElicitResultContentPrimitive>(api::ElicitResultContentPrimitive::Integer, v)?), var: Some(|v| Ok(var_ElicitResultContentPrimitive(&from_as::<_, _, api::ElicitResultContentPrimitive>(api::ElicitResultContentPrimitive::Integer, v)?)))});
  r.froms.push(Conv{src:"BlobResourceContents", dst:"EmbeddedResourceResource", f: |v| out(<api::EmbeddedResourceResource as From<api::BlobResourceContents>>::from(j::<api::BlobResourceContents>(v)?)), var: Some(|v| Ok(var_EmbeddedResourceResource(&<api::EmbeddedResourceResource as From<api::BlobResourceContents>>::from(j::<api::BlobResourceContents>(v)?))))});
  r.froms.push(Conv{src:"TextResourceContents", dst:"EmbeddedResourceResource", f: |v| out(<api::EmbeddedResourceResource as From<api::TextResourceContents>>::from(j::<api::TextResourceContents>(v)?)), var: Some(|v| Ok(var_EmbeddedResourceResource(&<api::EmbeddedResourceResource as From<api::TextResourceContents>>::from(j::<api::TextResourceContents>(v)?))))});
  r.defaults.push(DefaultFn{ty:"EmptyResult", f: || out(<api::EmptyResult as Default>::default())});
  r.froms.push(Conv{src:"LegacyTitledEnumSchema", dst:"EnumSchema", f: |v| out(<api::EnumSchema as From<api::LegacyTitledEnumSchema>>::from(j::<api::LegacyTitledEnumSchema>(v)?)), var: Some(|v| Ok(var_EnumSchema(&<api::EnumSchema as From<api::LegacyTitledEnumSchema>>::from(j::<api::LegacyTitledEnumSchema>(v)?))))});
  r.froms.push(Conv{src:"TitledMultiSelectEnumSchema", dst:"EnumSchema", f: |v| out(<api::EnumSchema as From<api::TitledMultiSelectEnumSchema>>::from(j::<api::TitledMultiSelectEnumSchema>(v)?)), var: Some(|v| Ok(var_EnumSchema(&<api::EnumSchema as From<api::TitledMultiSelectEnumSchema>>::from(j::<api::TitledMultiSelectEnumSchema>(v)?))))});
  r.froms.push(Conv{src:"TitledSingleSelectEnumSchema", dst:"EnumSchema", f: |v| out(<api::EnumSchema as From<api::TitledSingleSelectEnumSchema>>::from(j::<api::TitledSingleSelectEnumSchema>(v)?)), var: Some(|v| Ok(var_EnumSchema(&<api::EnumSchema as From<api::TitledSingleSelectEnumSchema>>::from(j::<api::TitledSingleSelectEnumSchema>(v)?))))});
  r.froms.push(Conv{src:"UntitledMultiSelectEnumSchema", dst:"EnumSchema", f: |v| out(<api::EnumSchema as From<api::UntitledMultiSelectEnumSchema>>::from(j::<api::UntitledMultiSelectEnumSchema>(v)?)), var: Some(|v| Ok(var_EnumSchema(&<api::EnumSchema as From<api::UntitledMultiSelectEnumSchema>>::from(j::<api::UntitledMultiSelectEnumSchema>(v)?))))});
  r.froms.push(Conv{src:"UntitledSingleSelectEnumSchema", dst:"EnumSchema", f: |v| out(<api::EnumSchema as From<api::UntitledSingleSelectEnumSchema>>::from(j::<api::UntitledSingleSelectEnumSchema>(v)?)), var: Some(|v| Ok(var_EnumSchema(&<api::EnumSchema as From<api::UntitledSingleSelectEnumSchema>>::from(j::<api::UntitledSingleSelectEnumSchema>(v)?))))});
  r.froms.push(Conv{src:"CallToolResult", dst:"Result", f: |v| out(<api::GenericResult as From<api::CallToolResult>>::from(j::<api::CallToolResult>(v)?)), var: None});
  r.froms.push(Conv{src:"CompleteResult", dst:"Result", f: |v| out(<api::GenericResult as From<api::CompleteResult>>::from(j::<api::CompleteResult>(v)?)), var: None});
  r.froms.push(Conv{src:"DiscoverResult", dst:"Result", f: |v| out(<api::GenericResult as From<api::DiscoverResult>>::from(j::<api::DiscoverResult>(v)?)), var: None});
  r.froms.push(Conv{src:"GetPromptResult", dst:"Result", f: |v| out(<api::GenericResult as From<api::GetPromptResult>>::from(j::<api::GetPromptResult>(v)?)), var: None});
  r.froms.push(Conv{src:"InputRequiredResult", dst:"Result", f: |v| out(<api::GenericResult as From<api::InputRequiredResult>>::from(j::<api::InputRequiredResult>(v)?)), var: None});
  r.froms.push(Conv{src:"ListPromptsResult", dst:"Result", f: |v| out(<api::GenericResult as From<api::ListPromptsResult>>::from(j::<api::ListPromptsResult>(v)?)), var: None});
  r.froms.push(Conv{src:"ListResourceTemplatesResult", dst:"Result", f: |v| out(<api::GenericResult as From<api::ListResourceTemplatesResult>>::from(j::<api::ListResourceTemplatesResult>(v)?)), var: None});
  r.froms.push(Conv{src:"ListResourcesResult", dst:"Result", f: |v| out(<api::GenericResult as From<api::ListResourcesResult>>::from(j::<api::ListResourcesResult>(v)?)), var: None});
  r.froms.push(Conv{src:"ListToolsResult", dst:"Result", f: |v| out(<api::GenericResult as From<api::ListToolsResult>>::from(j::<api::ListToolsResult>(v)?)), var: None});
  r.froms.push(Conv{src:"ReadResourceResult", dst:"Result", f: |v| out(<api::GenericResult as From<api::ReadResourceResult>>::from(j::<api::ReadResourceResult>(v)?)), var: None});
  r.froms.push(Conv{src:"SubscriptionsListenResult", dst:"Result", f: |v| out(<api::GenericResult as From<api::SubscriptionsListenResult>>::from(j::<api::SubscriptionsListenResult>(v)?)), var: None});
  r.try_froms.push(TryConv{src:"ResultFromClient", dst:"Result", f: |p, v| { let x = mk_ResultFromClient(p, v)?; Ok(<api::GenericResult as TryFrom<api::ResultFromClient>>::try_from(x).map(|y| serde_json::to_value(y).unwrap()).map_err(|e| serde_json::to_value(e).unwrap()))}});
  r.try_froms.push(TryConv{src:"ServerResult", dst:"Result", f: |p, v| { let x = mk_ServerResult(p, v)?; Ok(<api::GenericResult as TryFrom<api::ServerResult>>::try_from(x).map(|y| serde_json::to_value(y).unwrap()).map_err(|e| serde_json::to_value(e).unwrap()))}});
  r.try_froms.push(TryConv{src:"ServerResult", dst:"GetPromptResult", f: |p, v| { let x = mk_ServerResult(p, v)?; Ok(<api::GetPromptResult as TryFrom<api::ServerResult>>::try_from(x).map(|y| serde_json::to_value(y).unwrap()).map_err(|e| serde_json::to_value(e).unwrap()))}});
  r.froms.push(Conv{src:"GetPromptResult", dst:"GetPromptResultResponseResult", f: |v| out(<api::GetPromptResultResponseResult as From<api::GetPromptResult>>::from(j::<api::GetPromptResult>(v)?)), var: Some(|v| Ok(var_GetPromptResultResponseResult(&<api::GetPromptResultResponseResult as From<api::GetPromptResult>>::from(j::<api::GetPromptResult>(v)?))))});
  r.froms.push(Conv{src:"InputRequiredResult", dst:"GetPromptResultResponseResult", f: |v| out(<api::GetPromptResultResponseResult as From<api::InputRequiredResult>>::from(j::<api::InputRequiredResult>(v)?)), var: Some(|v| Ok(var_GetPromptResultResponseResult(&<api::GetPromptResultResponseResult as From<api::InputRequiredResult>>::from(j::<api::InputRequiredResult>(v)?))))});
  r.displays.push(DisplayFn{ty:"IconTheme", f: |v| Ok(j::<api::IconTheme>(v)?.to_string())});
  r.defaults.push(DefaultFn{ty:"Icons", f: || out(<api::Icons as Default>::default())});
  r.defaults.push(DefaultFn{ty:"Implementation", f: || out(<api::Implementation as Default>::default())});
  r.displays.push(DisplayFn{ty:"IncludeContext", f: |v| Ok(j::<api::IncludeContext>(v)?.to_string())});
  r.froms.push(Conv{src:"CreateMessageRequest", dst:"InputRequest", f: |v| out(<api::InputRequest as From<api::CreateMessageRequest>>::from(j::<api::CreateMessageRequest>(v)?)), var: Some(|v| Ok(var_InputRequest(&<api::InputRequest as From<api::CreateMessageRequest>>::from(j::<api::CreateMessageRequest>(v)?))))});
  r.froms.push(Conv{src:"ElicitRequest", dst:"InputRequest", f: |v| out(<api::InputRequest as From<api::ElicitRequest>>::from(j::<api::ElicitRequest>(v)?)), var: Some(|v| Ok(var_InputRequest(&<api::InputRequest as From<api::ElicitRequest>>::from(j::<api::ElicitRequest>(v)?))))});
  r.froms.push(Conv{src:"ListRootsRequest", dst:"InputRequest", f: |v| out(<api::InputRequest as From<api::ListRootsRequest>>::from(j::<api::ListRootsRequest>(v)?)), var: Some(|v| Ok(var_InputRequest(&<api::InputRequest as From<api::ListRootsRequest>>::from(j::<api::ListRootsRequest>(v)?))))});
  r.try_froms.push(TryConv{src:"ServerResult", dst:"InputRequiredResult", f: |p, v| { let x = mk_ServerResult(p, v)?; Ok(<api::InputRequiredResult as TryFrom<api::ServerResult>>::try_from(x).map(|y| serde_json::to_value(y).unwrap()).map_err(|e| serde_json::to_value(e).unwrap()))}});
  r.froms.push(Conv{src:"CreateMessageResult", dst:"InputResponse", f: |v| out(<api::InputResponse as From<api::CreateMessageResult>>::from(j::<api::CreateMessageResult>(v)?)), var: Some(|v| Ok(var_InputResponse(&<api::InputResponse as From<api::CreateMessageResult>>::from(j::<api::CreateMessageResult>(v)?))))});
  r.froms.push(Conv{src:"ElicitResult", dst:"InputResponse", f: |v| out(<api::InputResponse as From<api::ElicitResult>>::from(j::<api::ElicitResult>(v)?)), var: Some(|v| Ok(var_InputResponse(&<api::InputResponse as From<api::ElicitResult>>::from(j::<api::ElicitResult>(v)?))))});
  r.froms.push(Conv{src:"ListRootsResult", dst:"InputResponse", f: |v| out(<api::InputResponse as From<api::ListRootsResult>>::from(j::<api::ListRootsResult>(v)?)), var: Some(|v| Ok(var_InputResponse(&<api::InputResponse as From<api::ListRootsResult>>::from(j::<api::ListRootsResult>(v)?))))});
  r.defaults.push(DefaultFn{ty:"InputResponses", f: || out(<api::InputResponses as Default>::default())});
  r.froms.push(Conv{src:"JsonObject", dst:"JsonValue", f: |v| out(<api::JsonValue as From<api::JsonObject>>::from(j::<api::JsonObject>(v)?)), var: Some(|v| Ok(var_JsonValue(&<api::JsonValue as From<api::JsonObject>>::from(j::<api::JsonObject>(v)?))))});
  r.froms.push(Conv{src:"JsonValueVariant2", dst:"JsonValue", f: |v| out(<api::JsonValue as From<api::JsonValueVariant2>>::from(j::<api::JsonValueVariant2>(v)?)), var: Some(|v| Ok(var_JsonValue(&<api::JsonValue as From<api::JsonValueVariant2>>::from(j::<api::JsonValueVariant2>(v)?))))});
  r.froms.push(Conv{src:"Vec<JsonValue>", dst:"JsonValue", f: |v| out(<api::JsonValue as From<Vec<api::JsonValue>>>::from(j::<Vec<api::JsonValue>>(v)?)), var: Some(|v| Ok(var_JsonValue(&<api::JsonValue as From<Vec<api::JsonValue>>>::from(j::<Vec<api::JsonValue>>(v)?))))});
  r.froms.push(Conv{src:"bool", dst:"JsonValueVariant2", f: |v| out(<api::JsonValueVariant2 as From<bool>>::from(j::<bool>(v)?)), var: Some(|v| Ok(var_JsonValueVariant2(&<api::JsonValueVariant2 as From<bool>>::from(j::<bool>(v)?))))});
  r.froms.push(Conv{src:"i64", dst:"JsonValueVariant2", f: |v| out(from_as::<_, _, api::JsonValueVariant2>(api::JsonValueVariant2::Integer, v)?), var: Some(|v| Ok(var_JsonValueVariant2(&from_as::<_, _, api::JsonValueVariant2>(api::JsonValueVariant2::Integer, v)?)))});
  r.displays.push(DisplayFn{ty:"JsonrpcErrorResponse", f: |v| Ok(j::<api::JsonrpcErrorResponse>(v)?.to_string())});
  r.fromstrs.push(FromStrFn{ty:"JsonrpcErrorResponse", f: |s| s.parse::<api::JsonrpcErrorResponse>().map(|x| serde_json::to_value(x).unwrap()).map_err(|e| serde_json::to_string(&e).unwrap())});
  r.froms.push(Conv{src:"JsonrpcErrorResponse", dst:"JsonrpcMessage", f: |v| out(<api::JsonrpcMessage as From<api::JsonrpcErrorResponse>>::from(j::<api::JsonrpcErrorResponse>(v)?)), var: Some(|v| Ok(var_JsonrpcMessage(&<api::JsonrpcMessage as From<api::JsonrpcErrorResponse>>::from(j::<api::JsonrpcErrorResponse>(v)?))))});
  r.froms.push(Conv{src:"JsonrpcNotification", dst:"JsonrpcMessage", f: |v| out(<api::JsonrpcMessage as From<api::JsonrpcNotification>>::from(j::<api::JsonrpcNotification>(v)?)), var: Some(|v| Ok(var_JsonrpcMessage(&<api::JsonrpcMessage as From<api::JsonrpcNotification>>::from(j::<api::JsonrpcNotification>(v)?))))});
  r.froms.push(Conv{src:"JsonrpcRequest", dst:"JsonrpcMessage", f: |v| out(<api::JsonrpcMessage as From<api::JsonrpcRequest>>::from(j::<api::JsonrpcRequest>(v)?)), var: Some(|v| Ok(var_JsonrpcMessage(&<api::JsonrpcMessage as From<api::JsonrpcRequest>>::from(j::<api::JsonrpcRequest>(v)?))))});
  r.froms.push(Conv{src:"JsonrpcResultResponse", dst:"JsonrpcMessage", f: |v| out(<api::JsonrpcMessage as From<api::JsonrpcResultResponse>>::from(j::<api::JsonrpcResultResponse>(v)?)), var: Some(|v| Ok(var_JsonrpcMessage(&<api::JsonrpcMessage as From<api::JsonrpcResultResponse>>::from(j::<api::JsonrpcResultResponse>(v)?))))});
  r.froms.push(Conv{src:"JsonrpcErrorResponse", dst:"JsonrpcResponse", f: |v| out(<api::JsonrpcResponse as From<api::JsonrpcErrorResponse>>::from(j::<api::JsonrpcErrorResponse>(v)?)), var: Some(|v| Ok(var_JsonrpcResponse(&<api::JsonrpcResponse as From<api::JsonrpcErrorResponse>>::from(j::<api::JsonrpcErrorResponse>(v)?))))});
  r.froms.push(Conv{src:"JsonrpcResultResponse", dst:"JsonrpcResponse", f: |v| out(<api::JsonrpcResponse as From<api::JsonrpcResultResponse>>::from(j::<api::JsonrpcResultResponse>(v)?)), var: Some(|v| Ok(var_JsonrpcResponse(&<api::JsonrpcResponse as From<api::JsonrpcResultResponse>>::from(j::<api::JsonrpcResultResponse>(v)?))))});
  r.try_froms.push(TryConv{src:"ServerResult", dst:"ListPromptsResult", f: |p, v| { let x = mk_ServerResult(p, v)?; Ok(<api::ListPromptsResult as TryFrom<api::ServerResult>>::try_from(x).map(|y| serde_json::to_value(y).unwrap()).map_err(|e| serde_json::to_value(e).unwrap()))}});
  r.displays.push(DisplayFn{ty:"ListPromptsResultCacheScope", f: |v| Ok(j::<api::ListPromptsResultCacheScope>(v)?.to_string())});
  r.try_froms.push(TryConv{src:"ServerResult", dst:"ListResourceTemplatesResult", f: |p, v| { let x = mk_ServerResult(p, v)?; Ok(<api::ListResourceTemplatesResult as TryFrom<api::ServerResult>>::try_from(x).map(|y| serde_json::to_value(y).unwrap()).map_err(|e| serde_json::to_value(e).unwrap()))}});
  r.displays.push(DisplayFn{ty:"ListResourceTemplatesResultCacheScope", f: |v| Ok(j::<api::ListResourceTemplatesResultCacheScope>(v)?.to_string())});
  r.try_froms.push(TryConv{src:"ServerResult", dst:"ListResourcesResult", f: |p, v| { let x = mk_ServerResult(p, v)?; Ok(<api::ListResourcesResult as TryFrom<api::ServerResult>>::try_from(x).map(|y| serde_json::to_value(y).unwrap()).map_err(|e| serde_json::to_value(e).unwrap()))}});
  r.displays.push(DisplayFn{ty:"ListResourcesResultCacheScope", f: |v| Ok(j::<api::ListResourcesResultCacheScope>(v)?.to_string())});
  r.defaults.push(DefaultFn{ty:"ListRootsRequestParams", f: || out(<api::ListRootsRequestParams as Default>::default())});
  r.try_froms.push(TryConv{src:"ResultFromClient", dst:"ListRootsResult", f: |p, v| { let x = mk_ResultFromClient(p, v)?; Ok(<api::ListRootsResult as TryFrom<api::ResultFromClient>>::try_from(x).map(|y| serde_json::to_value(y).unwrap()).map_err(|e| serde_json::to_value(e).unwrap()))}});
  r.try_froms.push(TryConv{src:"ServerResult", dst:"ListToolsResult", f: |p, v| { let x = mk_ServerResult(p, v)?; Ok(<api::ListToolsResult as TryFrom<api::ServerResult>>::try_from(x).map(|y| serde_json::to_value(y).unwrap()).map_err(|e| serde_json::to_value(e).unwrap()))}});
  r.displays.push(DisplayFn{ty:"ListToolsResultCacheScope", f: |v| Ok(j::<api::ListToolsResultCacheScope>(v)?.to_string())});
  r.defaults.push(DefaultFn{ty:"LoggingLevel", f: || out(<api::LoggingLevel as Default>::default())});
  r.displays.push(DisplayFn{ty:"LoggingLevel", f: |v| Ok(j::<api::LoggingLevel>(v)?.to_string())});
  r.defaults.push(DefaultFn{ty:"LoggingMessageNotificationParams", f: || out(<api::LoggingMessageNotificationParams as Default>::default())});
  r.froms.push(Conv{src:"CreateMessageResult", dst:"MessageFromClient", f: |v| out(<api::MessageFromClient as From<api::CreateMessageResult>>::from(j::<api::CreateMessageResult>(v)?)), var: Some(|v| Ok(var_MessageFromClient(&<api::MessageFromClient as From<api::CreateMessageResult>>::from(j::<api::CreateMessageResult>(v)?))))});
  r.froms.push(Conv{src:"ElicitResult", dst:"MessageFromClient", f: |v| out(<api::MessageFromClient as From<api::ElicitResult>>::from(j::<api::ElicitResult>(v)?)), var: Some(|v| Ok(var_MessageFromClient(&<api::MessageFromClient as From<api::ElicitResult>>::from(j::<api::ElicitResult>(v)?))))});
  r.froms.push(Conv{src:"ListRootsResult", dst:"MessageFromClient", f: |v| out(<api::MessageFromClient as From<api::ListRootsResult>>::from(j::<api::ListRootsResult>(v)?)), var: Some(|v| Ok(var_MessageFromClient(&<api::MessageFromClient as From<api::ListRootsResult>>::from(j::<api::ListRootsResult>(v)?))))});
  r.froms.push(Conv{src:"NotificationFromClient", dst:"MessageFromClient", f: |v| out(<api::MessageFromClient as From<api::NotificationFromClient>>::from(j::<api::NotificationFromClient>(v)?)), var: Some(|v| Ok(var_MessageFromClient(&<api::MessageFromClient as From<api::NotificationFromClient>>::from(j::<api::NotificationFromClient>(v)?))))});
  r.froms.push(Conv{src:"RequestFromClient", dst:"MessageFromClient", f: |v| out(<api::MessageFromClient as From<api::RequestFromClient>>::from(j::<api::RequestFromClient>(v)?)), var: Some(|v| Ok(var_MessageFromClient(&<api::MessageFromClient as From<api::RequestFromClient>>::from(j::<api::RequestFromClient>(v)?))))});
  r.froms.push(Conv{src:"Result", dst:"MessageFromClient", f: |v| out(<api::MessageFromClient as From<api::Result>>::from(j::<api::Result>(v)?)), var: Some(|v| Ok(var_MessageFromClient(&<api::MessageFromClient as From<api::Result>>::from(j::<api::Result>(v)?))))});
  r.froms.push(Conv{src:"ResultFromClient", dst:"MessageFromClient", f: |v| out(<api::MessageFromClient as From<api::ResultFromClient>>::from(j::<api::ResultFromClient>(v)?)), var: Some(|v| Ok(var_MessageFromClient(&<api::MessageFromClient as From<api::ResultFromClient>>::from(j::<api::ResultFromClient>(v)?))))});
  r.froms.push(Conv{src:"RpcError", dst:"MessageFromClient", f: |v| out(<api::MessageFromClient as From<api::RpcError>>::from(j::<api::RpcError>(v)?)), var: Some(|v| Ok(var_MessageFromClient(&<api::MessageFromClient as From<api::RpcError>>::from(j::<api::RpcError>(v)?))))});
  r.froms.push(Conv{src:"CallToolResult", dst:"MessageFromServer", f: |v| out(<api::MessageFromServer as From<api::CallToolResult>>::from(j::<api::CallToolResult>(v)?)), var: Some(|v| Ok(var_MessageFromServer(&<api::MessageFromServer as From<api::CallToolResult>>::from(j::<api::CallToolResult>(v)?))))});
  r.froms.push(Conv{src:"CompleteResult", dst:"MessageFromServer", f: |v| out(<api::MessageFromServer as From<api::CompleteResult>>::from(j::<api::CompleteResult>(v)?)), var: Some(|v| Ok(var_MessageFromServer(&<api::MessageFromServer as From<api::CompleteResult>>::from(j::<api::CompleteResult>(v)?))))});
  r.froms.push(Conv{src:"DiscoverResult", dst:"MessageFromServer", f: |v| out(<api::MessageFromServer as From<api::DiscoverResult>>::from(j::<api::DiscoverResult>(v)?)), var: Some(|v| Ok(var_MessageFromServer(&<api::MessageFromServer as From<api::DiscoverResult>>::from(j::<api::DiscoverResult>(v)?))))});
  r.froms.push(Conv{src:"GetPromptResult", dst:"MessageFromServer", f: |v| out(<api::MessageFromServer as From<api::GetPromptResult>>::from(j::<api::GetPromptResult>(v)?)), var: Some(|v| Ok(var_MessageFromServer(&<api::MessageFromServer as From<api::GetPromptResult>>::from(j::<api::GetPromptResult>(v)?))))});
  r.froms.push(Conv{src:"InputRequiredResult", dst:"MessageFromServer", f: |v| out(<api::MessageFromServer as From<api::InputRequiredResult>>::from(j::<api::InputRequiredResult>(v)?)), var: Some(|v| Ok(var_MessageFromServer(&<api::MessageFromServer as From<api::InputRequiredResult>>::from(j::<api::InputRequiredResult>(v)?))))});
  r.froms.push(Conv{src:"ListPromptsResult", dst:"MessageFromServer", f: |v| out(<api::MessageFromServer as From<api::ListPromptsResult>>::from(j::<api::ListPromptsResult>(v)?)), var: Some(|v| Ok(var_MessageFromServer(&<api::MessageFromServer as From<api::ListPromptsResult>>::from(j::<api::ListPromptsResult>(v)?))))});
  r.froms.push(Conv{src:"ListResourceTemplatesResult", dst:"MessageFromServer", f: |v| out(<api::MessageFromServer as From<api::ListResourceTemplatesResult>>::from(j::<api::ListResourceTemplatesResult>(v)?)), var: Some(|v| Ok(var_MessageFromServer(&<api::MessageFromServer as From<api::ListResourceTemplatesResult>>::from(j::<api::ListResourceTemplatesResult>(v)?))))});
  r.froms.push(Conv{src:"ListResourcesResult", dst:"MessageFromServer", f: |v| out(<api::MessageFromServer as From<api::ListResourcesResult>>::from(j::<api::ListResourcesResult>(v)?)), var: Some(|v| Ok(var_MessageFromServer(&<api::MessageFromServer as From<api::ListResourcesResult>>::from(j::<api::ListResourcesResult>(v)?))))});
  r.froms.push(Conv{src:"ListToolsResult", dst:"MessageFromServer", f: |v| out(<api::MessageFromServer as From<api::ListToolsResult>>::from(j::<api::ListToolsResult>(v)?)), var: Some(|v| Ok(var_MessageFromServer(&<api::MessageFromServer as From<api::ListToolsResult>>::from(j::<api::ListToolsResult>(v)?))))});
  r.froms.push(Conv{src:"NotificationFromServer", dst:"MessageFromServer", f: |v| out(<api::MessageFromServer as From<api::NotificationFromServer>>::from(j::<api::NotificationFromServer>(v)?)), var: Some(|v| Ok(var_MessageFromServer(&<api::MessageFromServer as From<api::NotificationFromServer>>::from(j::<api::NotificationFromServer>(v)?))))});
  r.froms.push(Conv{src:"ReadResourceResult", dst:"MessageFromServer", f: |v| out(<api::MessageFromServer as From<api::ReadResourceResult>>::from(j::<api::ReadResourceResult>(v)?)), var: Some(|v| Ok(var_MessageFromServer(&<api::MessageFromServer as From<api::ReadResourceResult>>::from(j::<api::ReadResourceResult>(v)?))))});
  r.froms.push(Conv{src:"RequestFromServer", dst:"MessageFromServer", f: |v| out(<api::MessageFromServer as From<api::RequestFromServer>>::from(j::<api::RequestFromServer>(v)?)), var: Some(|v| Ok(var_MessageFromServer(&<api::MessageFromServer as From<api::RequestFromServer>>::from(j::<api::RequestFromServer>(v)?))))});
  r.froms.push(Conv{src:"Result", dst:"MessageFromServer", f: |v| out(<api::MessageFromServer as From<api::Result>>::from(j::<api::Result>(v)?)), var: Some(|v| Ok(var_MessageFromServer(&<api::MessageFromServer as From<api::Result>>::from(j::<api::Result>(v)?))))});
  r.froms.push(Conv{src:"RpcError", dst:"MessageFromServer", f: |v| out(<api::MessageFromServer as From<api::RpcError>>::from(j::<api::RpcError>(v)?)), var: Some(|v| Ok(var_MessageFromServer(&<api::MessageFromServer as From<api::RpcError>>::from(j::<api::RpcError>(v)?))))});
  r.froms.push(Conv{src:"ServerResult", dst:"MessageFromServer", f: |v| out(<api::MessageFromServer as From<api::ServerResult>>::from(j::<api::ServerResult>(v)?)), var: Some(|v| Ok(var_MessageFromServer(&<api::MessageFromServer as From<api::ServerResult>>::from(j::<api::ServerResult>(v)?))))});
  r.froms.push(Conv{src:"SubscriptionsListenResult", dst:"MessageFromServer", f: |v| out(<api::MessageFromServer as From<api::SubscriptionsListenResult>>::from(j::<api::SubscriptionsListenResult>(v)?)), var: Some(|v| Ok(var_MessageFromServer(&<api::MessageFromServer as From<api::SubscriptionsListenResult>>::from(j::<api::SubscriptionsListenResult>(v)?))))});
  r.froms.push(Conv{src:"MessageFromClient", dst:"MessagesFromClient", f: |v| out(<api::MessagesFromClient as From<api::MessageFromClient>>::from(j::<api::MessageFromClient>(v)?)), var: Some(|v| Ok(var_MessagesFromClient(&<api::MessagesFromClient as From<api::MessageFromClient>>::from(j::<api::MessageFromClient>(v)?))))});
  r.froms.push(Conv{src:"Vec<MessageFromClient>", dst:"MessagesFromClient", f: |v| out(<api::MessagesFromClient as From<Vec<api::MessageFromClient>>>::from(j::<Vec<api::MessageFromClient>>(v)?)), var: Some(|v| Ok(var_MessagesFromClient(&<api::MessagesFromClient as From<Vec<api::MessageFromClient>>>::from(j::<Vec<api::MessageFromClient>>(v)?))))});
  r.froms.push(Conv{src:"MessageFromServer", dst:"MessagesFromServer", f: |v| out(<api::MessagesFromServer as From<api::MessageFromServer>>::from(j::<api::MessageFromServer>(v)?)), var: Some(|v| Ok(var_MessagesFromServer(&<api::MessagesFromServer as From<api::MessageFromServer>>::from(j::<api::MessageFromServer>(v)?))))});
  r.froms.push(Conv{src:"Vec<MessageFromServer>", dst:"MessagesFromServer", f: |v| out(<api::MessagesFromServer as From<Vec<api::MessageFromServer>>>::from(j::<Vec<api::MessageFromServer>>(v)?)), var: Some(|v| Ok(var_MessagesFromServer(&<api::MessagesFromServer as From<Vec<api::MessageFromServer>>>::from(j::<Vec<api::MessageFromServer>>(v)?))))});
  r.defaults.push(DefaultFn{ty:"MetaObject", f: || out(<api::MetaObject as Default>::default())});
  r.defaults.push(DefaultFn{ty:"ModelHint", f: || out(<api::ModelHint as Default>::default())});
  r.defaults.push(DefaultFn{ty:"ModelPreferences", f: || out(<api::ModelPreferences as Default>::default())});
  r.froms.push(Conv{src:"TitledMultiSelectEnumSchema", dst:"MultiSelectEnumSchema", f: |v| out(<api::MultiSelectEnumSchema as From<api::TitledMultiSelectEnumSchema>>::from(j::<api::TitledMultiSelectEnumSchema>(v)?)), var: Some(|v| Ok(var_MultiSelectEnumSchema(&<api::MultiSelectEnumSchema as From<api::TitledMultiSelectEnumSchema>>::from(j::<api::TitledMultiSelectEnumSchema>(v)?))))});
  r.froms.push(Conv{src:"UntitledMultiSelectEnumSchema", dst:"MultiSelectEnumSchema", f: |v| out(<api::MultiSelectEnumSchema as From<api::UntitledMultiSelectEnumSchema>>::from(j::<api::UntitledMultiSelectEnumSchema>(v)?)), var: Some(|v| Ok(var_MultiSelectEnumSchema(&<api::MultiSelectEnumSchema as From<api::UntitledMultiSelectEnumSchema>>::from(j::<api::UntitledMultiSelectEnumSchema>(v)?))))});
  r.froms.push(Conv{src:"ClientJsonrpcNotification", dst:"NotificationFromClient", f: |v| out(<api::NotificationFromClient as From<api::ClientJsonrpcNotification>>::from(j::<api::ClientJsonrpcNotification>(v)?)), var: Some(|v| Ok(var_NotificationFromClient(&<api::NotificationFromClient as From<api::ClientJsonrpcNotification>>::from(j::<api::ClientJsonrpcNotification>(v)?))))});
  r.froms.push(Conv{src:"ServerJsonrpcNotification", dst:"NotificationFromServer", f: |v| out(<api::NotificationFromServer as From<api::ServerJsonrpcNotification>>::from(j::<api::ServerJsonrpcNotification>(v)?)), var: Some(|v| Ok(var_NotificationFromServer(&<api::NotificationFromServer as From<api::ServerJsonrpcNotification>>::from(j::<api::ServerJsonrpcNotification>(v)?))))});
  r.defaults.push(DefaultFn{ty:"NotificationMetaObject", f: || out(<api::NotificationMetaObject as Default>::default())});
  r.defaults.push(DefaultFn{ty:"NotificationParams", f: || out(<api::NotificationParams as Default>::default())});
  r.displays.push(DisplayFn{ty:"NumberSchemaType", f: |v| Ok(j::<api::NumberSchemaType>(v)?.to_string())});
  r.defaults.push(DefaultFn{ty:"PaginatedRequestParams", f: || out(<api::PaginatedRequestParams as Default>::default())});
  r.defaults.push(DefaultFn{ty:"PaginatedResult", f: || out(<api::PaginatedResult as Default>::default())});
  r.froms.push(Conv{src:"BooleanSchema", dst:"PrimitiveSchemaDefinition", f: |v| out(<api::PrimitiveSchemaDefinition as From<api::BooleanSchema>>::from(j::<api::BooleanSchema>(v)?)), var: Some(|v| Ok(var_PrimitiveSchemaDefinition(&<api::PrimitiveSchemaDefinition as From<api::BooleanSchema>>::from(j::<api::BooleanSchema>(v)?))))});
  r.froms.push(Conv{src:"LegacyTitledEnumSchema", dst:"PrimitiveSchemaDefinition", f: |v| out(<api::PrimitiveSchemaDefinition as From<api::LegacyTitledEnumSchema>>::from(j::<api::LegacyTitledEnumSchema>(v)?)), var: Some(|v| Ok(var_PrimitiveSchemaDefinition(&<api::PrimitiveSchemaDefinition as From<api::LegacyTitledEnumSchema>>::from(j::<api::LegacyTitledEnumSchema>(v)?))))});
  r.froms.push(Conv{src:"NumberSchema", dst:"PrimitiveSchemaDefinition", f: |v| out(<api::PrimitiveSchemaDefinition as From<api::NumberSchema>>::from(j::<api::NumberSchema>(v)?)), var: Some(|v| Ok(var_PrimitiveSchemaDefinition(&<api::PrimitiveSchemaDefinition as From<api::NumberSchema>>::from(j::<api::NumberSchema>(v)?))))});
  r.froms.push(Conv{src:"StringSchema", dst:"PrimitiveSchemaDefinition", f: |v| out(<api::PrimitiveSchemaDefinition as From<api::StringSchema>>::from(j::<api::StringSchema>(v)?)), var: Some(|v| Ok(var_PrimitiveSchemaDefinition(&<api::PrimitiveSchemaDefinition as From<api::StringSchema>>::from(j::<api::StringSchema>(v)?))))});
  r.froms.push(Conv{src:"TitledMultiSelectEnumSchema", dst:"PrimitiveSchemaDefinition", f: |v| out(<api::PrimitiveSchemaDefinition as From<api::TitledMultiSelectEnumSchema>>::from(j::<api::TitledMultiSelectEnumSchema>(v)?)), var: Some(|v| Ok(var_PrimitiveSchemaDefinition(&<api::PrimitiveSchemaDefinition as From<api::TitledMultiSelectEnumSchema>>::from(j::<api::TitledMultiSelectEnumSchema>(v)?))))});
  r.froms.push(Conv{src:"TitledSingleSelectEnumSchema", dst:"PrimitiveSchemaDefinition", f: |v| out(<api::PrimitiveSchemaDefinition as From<api::TitledSingleSelectEnumSchema>>::from(j::<api::TitledSingleSelectEnumSchema>(v)?)), var: Some(|v| Ok(var_PrimitiveSchemaDefinition(&<api::PrimitiveSchemaDefinition as From<api::TitledSingleSelectEnumSchema>>::from(j::<api::TitledSingleSelectEnumSchema>(v)?))))});
  r.froms.push(Conv{src:"UntitledMultiSelectEnumSchema", dst:"PrimitiveSchemaDefinition", f: |v| out(<api::PrimitiveSchemaDefinition as From<api::UntitledMultiSelectEnumSchema>>::from(j::<api::UntitledMultiSelectEnumSchema>(v)?)), var: Some(|v| Ok(var_PrimitiveSchemaDefinition(&<api::PrimitiveSchemaDefinition as From<api::UntitledMultiSelectEnumSchema>>::from(j::<api::UntitledMultiSelectEnumSchema>(v)?))))});
  r.froms.push(Conv{src:"UntitledSingleSelectEnumSchema", dst:"PrimitiveSchemaDefinition", f: |v| out(<api::PrimitiveSchemaDefinition as From<api::UntitledSingleSelectEnumSchema>>::from(j::<api::UntitledSingleSelectEnumSchema>(v)?)), var: Some(|v| Ok(var_PrimitiveSchemaDefinition(&<api::PrimitiveSchemaDefinition as From<api::UntitledSingleSelectEnumSchema>>::from(j::<api::UntitledSingleSelectEnumSchema>(v)?))))});
  r.defaults.push(DefaultFn{ty:"ProgressNotificationParams", f: || out(<api::ProgressNotificationParams as Default>::default())});
  r.defaults.push(DefaultFn{ty:"ProgressToken", f: || out(<api::ProgressToken as Default>::default())});
  r.froms.push(Conv{src:"i64", dst:"ProgressToken", f: |v| out(from_as::<_, _, api::ProgressToken>(api::ProgressToken::Integer, v)?), var: Some(|v| Ok(var_ProgressToken(&from_as::<_, _, api::ProgressToken>(api::ProgressToken::Integer, v)?)))});
  r.froms.push(Conv{src:"BlobResourceContents", dst:"ReadResourceContent", f: |v| out(<api::ReadResourceContent as From<api::BlobResourceContents>>::from(j::<api::BlobResourceContents>(v)?)), var: Some(|v| Ok(var_ReadResourceContent(&<api::ReadResourceContent as From<api::BlobResourceContents>>::from(j::<api::BlobResourceContents>(v)?))))});
  r.froms.push(Conv{src:"TextResourceContents", dst:"ReadResourceContent", f: |v| out(<api::ReadResourceContent as From<api::TextResourceContents>>::from(j::<api::TextResourceContents>(v)?)), var: Some(|v| Ok(var_ReadResourceContent(&<api::ReadResourceContent as From<api::TextResourceContents>>::from(j::<api::TextResourceContents>(v)?))))});
  r.try_froms.push(TryConv{src:"ServerResult", dst:"ReadResourceResult", f: |p, v| { let x = mk_ServerResult(p, v)?; Ok(<api::ReadResourceResult as TryFrom<api::ServerResult>>::try_from(x).map(|y| serde_json::to_value(y).unwrap()).map_err(|e| serde_json::to_value(e).unwrap()))}});
  r.displays.push(DisplayFn{ty:"ReadResourceResultCacheScope", f: |v| Ok(j::<api::ReadResourceResultCacheScope>(v)?.to_string())});
  r.froms.push(Conv{src:"InputRequiredResult", dst:"ReadResourceResultResponseResult", f: |v| out(<api::ReadResourceResultResponseResult as From<api::InputRequiredResult>>::from(j::<api::InputRequiredResult>(v)?)), var: Some(|v| Ok(var_ReadResourceResultResponseResult(&<api::ReadResourceResultResponseResult as From<api::InputRequiredResult>>::from(j::<api::InputRequiredResult>(v)?))))});
  r.froms.push(Conv{src:"ReadResourceResult", dst:"ReadResourceResultResponseResult", f: |v| out(<api::ReadResourceResultResponseResult as From<api::ReadResourceResult>>::from(j::<api::ReadResourceResult>(v)?)), var: Some(|v| Ok(var_ReadResourceResultResponseResult(&<api::ReadResourceResultResponseResult as From<api::ReadResourceResult>>::from(j::<api::ReadResourceResult>(v)?))))});
  r.froms.push(Conv{src:"ClientJsonrpcRequest", dst:"RequestFromClient", f: |v| out(<api::RequestFromClient as From<api::ClientJsonrpcRequest>>::from(j::<api::ClientJsonrpcRequest>(v)?)), var: Some(|v| Ok(var_RequestFromClient(&<api::RequestFromClient as From<api::ClientJsonrpcRequest>>::from(j::<api::ClientJsonrpcRequest>(v)?))))});
  r.froms.push(Conv{src:"ServerJsonrpcRequest", dst:"RequestFromServer", f: |v| out(<api::RequestFromServer as From<api::ServerJsonrpcRequest>>::from(j::<api::ServerJsonrpcRequest>(v)?)), var: Some(|v| Ok(var_RequestFromServer(&<api::RequestFromServer as From<api::ServerJsonrpcRequest>>::from(j::<api::ServerJsonrpcRequest>(v)?))))});
  r.defaults.push(DefaultFn{ty:"RequestId", f: || out(<api::RequestId as Default>::default())});
  r.displays.push(DisplayFn{ty:"RequestId", f: |v| Ok(j::<api::RequestId>(v)?.to_string())});
  r.froms.push(Conv{src:"i64", dst:"RequestId", f: |v| out(from_as::<_, _, api::RequestId>(api::RequestId::Integer, v)?), var: Some(|v| Ok(var_RequestId(&from_as::<_, _, api::RequestId>(api::RequestId::Integer, v)?)))});
  r.defaults.push(DefaultFn{ty:"RequestMetaObject", f: || out(<api::RequestMetaObject as Default>::default())});
  r.defaults.push(DefaultFn{ty:"RequestParams", f: || out(<api::RequestParams as Default>::default())});
  r.defaults.push(DefaultFn{ty:"ResourceUpdatedNotificationParams", f: || out(<api::ResourceUpdatedNotificationParams as Default>::default())});
  r.defaults.push(DefaultFn{ty:"Result", f: || out(<api::Result as Default>::default())});
  r.froms.push(Conv{src:"CreateMessageResult", dst:"ResultFromClient", f: |v| out(<api::ResultFromClient as From<api::CreateMessageResult>>::from(j::<api::CreateMessageResult>(v)?)), var: Some(|v| Ok(var_ResultFromClient(&<api::ResultFromClient as From<api::CreateMessageResult>>::from(j::<api::CreateMessageResult>(v)?))))});
  r.froms.push(Conv{src:"ElicitResult", dst:"ResultFromClient", f: |v| out(<api::ResultFromClient as From<api::ElicitResult>>::from(j::<api::ElicitResult>(v)?)), var: Some(|v| Ok(var_ResultFromClient(&<api::ResultFromClient as From<api::ElicitResult>>::from(j::<api::ElicitResult>(v)?))))});
  r.froms.push(Conv{src:"ListRootsResult", dst:"ResultFromClient", f: |v| out(<api::ResultFromClient as From<api::ListRootsResult>>::from(j::<api::ListRootsResult>(v)?)), var: Some(|v| Ok(var_ResultFromClient(&<api::ResultFromClient as From<api::ListRootsResult>>::from(j::<api::ListRootsResult>(v)?))))});
  r.froms.push(Conv{src:"Result", dst:"ResultFromClient", f: |v| out(<api::ResultFromClient as From<api::Result>>::from(j::<api::Result>(v)?)), var: Some(|v| Ok(var_ResultFromClient(&<api::ResultFromClient as From<api::Result>>::from(j::<api::Result>(v)?))))});
  r.defaults.push(DefaultFn{ty:"ResultMetaObject", f: || out(<api::ResultMetaObject as Default>::default())});
  r.displays.push(DisplayFn{ty:"Role", f: |v| Ok(j::<api::Role>(v)?.to_string())});
  r.fromstrs.push(FromStrFn{ty:"Role", f: |s| s.parse::<api::Role>().map(|x| serde_json::to_value(x).unwrap()).map_err(|e| format!("{e:?}"))});
  r.displays.push(DisplayFn{ty:"RpcError", f: |v| Ok(j::<api::RpcError>(v)?.to_string())});
  r.froms.push(Conv{src:"MissingRequiredClientCapabilityError", dst:"RpcError", f: |v| out(<api::RpcError as From<api::MissingRequiredClientCapabilityError>>::from(j::<api::MissingRequiredClientCapabilityError>(v)?)), var: None});
  r.froms.push(Conv{src:"UnsupportedProtocolVersionError", dst:"RpcError", f: |v| out(<api::RpcError as From<api::UnsupportedProtocolVersionError>>::from(j::<api::UnsupportedProtocolVersionError>(v)?)), var: None});
  r.fromstrs.push(FromStrFn{ty:"RpcError", f: |s| s.parse::<api::RpcError>().map(|x| serde_json::to_value(x).unwrap()).map_err(|e| serde_json::to_string(&e).unwrap())});
  r.froms.push(Conv{src:"AudioContent", dst:"SamplingMessageContent", f: |v| out(<api::SamplingMessageContent as From<api::AudioContent>>::from(j::<api::AudioContent>(v)?)), var: Some(|v| Ok(var_SamplingMessageContent(&<api::SamplingMessageContent as From<api::AudioContent>>::from(j::<api::AudioContent>(v)?))))});
  r.froms.push(Conv{src:"ImageContent", dst:"SamplingMessageContent", f: |v| out(<api::SamplingMessageContent as From<api::ImageContent>>::from(j::<api::ImageContent>(v)?)), var: Some(|v| Ok(var_SamplingMessageContent(&<api::SamplingMessageContent as From<api::ImageContent>>::from(j::<api::ImageContent>(v)?))))});
  r.froms.push(Conv{src:"TextContent", dst:"SamplingMessageContent", f: |v| out(<api::SamplingMessageContent as From<api::TextContent>>::from(j::<api::TextContent>(v)?)), var: Some(|v| Ok(var_SamplingMessageContent(&<api::SamplingMessageContent as From<api::TextContent>>::from(j::<api::TextContent>(v)?))))});
  r.froms.push(Conv{src:"ToolResultContent", dst:"SamplingMessageContent", f: |v| out(<api::SamplingMessageContent as From<api::ToolResultContent>>::from(j::<api::ToolResultContent>(v)?)), var: Some(|v| Ok(var_SamplingMessageContent(&<api::SamplingMessageContent as From<api::ToolResultContent>>::from(j::<api::ToolResultContent>(v)?))))});
  r.froms.push(Conv{src:"ToolUseContent", dst:"SamplingMessageContent", f: |v| out(<api::SamplingMessageContent as From<api::ToolUseContent>>::from(j::<api::ToolUseContent>(v)?)), var: Some(|v| Ok(var_SamplingMessageContent(&<api::SamplingMessageContent as From<api::ToolUseContent>>::from(j::<api::ToolUseContent>(v)?))))});
  r.froms.push(Conv{src:"Vec<SamplingMessageContentBlock>", dst:"SamplingMessageContent", f: |v| out(<api::SamplingMessageContent as From<Vec<api::SamplingMessageContentBlock>>>::from(j::<Vec<api::SamplingMessageContentBlock>>(v)?)), var: Some(|v| Ok(var_SamplingMessageContent(&<api::SamplingMessageContent as From<Vec<api::SamplingMessageContentBlock>>>::from(j::<Vec<api::SamplingMessageContentBlock>>(v)?))))});
  r.froms.push(Conv{src:"AudioContent", dst:"SamplingMessageContentBlock", f: |v| out(<api::SamplingMessageContentBlock as From<api::AudioContent>>::from(j::<api::AudioContent>(v)?)), var: Some(|v| Ok(var_SamplingMessageContentBlock(&<api::SamplingMessageContentBlock as From<api::AudioContent>>::from(j::<api::AudioContent>(v)?))))});
  r.froms.push(Conv{src:"ImageContent", dst:"SamplingMessageContentBlock", f: |v| out(<api::SamplingMessageContentBlock as From<api::ImageContent>>::from(j::<api::ImageContent>(v)?)), var: Some(|v| Ok(var_SamplingMessageContentBlock(&<api::SamplingMessageContentBlock as From<api::ImageContent>>::from(j::<api::ImageContent>(v)?))))});
  r.froms.push(Conv{src:"TextContent", dst:"SamplingMessageContentBlock", f: |v| out(<api::SamplingMessageContentBlock as From<api::TextContent>>::from(j::<api::TextContent>(v)?)), var: Some(|v| Ok(var_SamplingMessageContentBlock(&<api::SamplingMessageContentBlock as From<api::TextContent>>::from(j::<api::TextContent>(v)?))))});
  r.froms.push(Conv{src:"ToolResultContent", dst:"SamplingMessageContentBlock", f: |v| out(<api::SamplingMessageContentBlock as From<api::ToolResultContent>>::from(j::<api::ToolResultContent>(v)?)), var: Some(|v| Ok(var_SamplingMessageContentBlock(&<api::SamplingMessageContentBlock as From<api::ToolResultContent>>::from(j::<api::ToolResultContent>(v)?))))});
  r.froms.push(Conv{src:"ToolUseContent", dst:"SamplingMessageContentBlock", f: |v| out(<api::SamplingMessageContentBlock as From<api::ToolUseContent>>::from(j::<api::ToolUseContent>(v)?)), var: Some(|v| Ok(var_SamplingMessageContentBlock(&<api::SamplingMessageContentBlock as From<api::ToolUseContent>>::from(j::<api::ToolUseContent>(v)?))))});
  r.displays.push(DisplayFn{ty:"SdkError", f: |v| Ok(j::<api::SdkError>(v)?.to_string())});
  r.defaults.push(DefaultFn{ty:"ServerCapabilities", f: || out(<api::ServerCapabilities as Default>::default())});
  r.defaults.push(DefaultFn{ty:"ServerCapabilitiesPrompts", f: || out(<api::ServerCapabilitiesPrompts as Default>::default())});
  r.defaults.push(DefaultFn{ty:"ServerCapabilitiesResources", f: || out(<api::ServerCapabilitiesResources as Default>::default())});
  r.defaults.push(DefaultFn{ty:"ServerCapabilitiesTools", f: || out(<api::ServerCapabilitiesTools as Default>::default())});
  r.displays.push(DisplayFn{ty:"ServerJsonrpcNotification", f: |v| Ok(j::<api::ServerJsonrpcNotification>(v)?.to_string())});
  r.fromstrs.push(FromStrFn{ty:"ServerJsonrpcNotification", f: |s| s.parse::<api::ServerJsonrpcNotification>().map(|x| serde_json::to_value(x).unwrap()).map_err(|e| serde_json::to_string(&e).unwrap())});
  r.displays.push(DisplayFn{ty:"ServerJsonrpcRequest", f: |v| Ok(j::<api::ServerJsonrpcRequest>(v)?.to_string())});
  r.fromstrs.push(FromStrFn{ty:"ServerJsonrpcRequest", f: |s| s.parse::<api::ServerJsonrpcRequest>().map(|x| serde_json::to_value(x).unwrap()).map_err(|e| serde_json::to_string(&e).unwrap())});
  r.displays.push(DisplayFn{ty:"ServerJsonrpcResponse", f: |v| Ok(j::<api::ServerJsonrpcResponse>(v)?.to_string())});
  r.fromstrs.push(FromStrFn{ty:"ServerJsonrpcResponse", f: |s| s.parse::<api::ServerJsonrpcResponse>().map(|x| serde_json::to_value(x).unwrap()).map_err(|e| serde_json::to_string(&e).unwrap())});
  r.displays.push(DisplayFn{ty:"ServerMessage", f: |v| Ok(j::<api::ServerMessage>(v)?.to_string())});
  r.froms.push(Conv{src:"ServerJsonrpcNotification", dst:"ServerMessage", f: |v| out(<api::ServerMessage as From<api::ServerJsonrpcNotification>>::from(j::<api::ServerJsonrpcNotification>(v)?)), var: Some(|v| Ok(var_ServerMessage(&<api::ServerMessage as From<api::ServerJsonrpcNotification>>::from(j::<api::ServerJsonrpcNotification>(v)?))))});
  r.froms.push(Conv{src:"ServerJsonrpcRequest", dst:"ServerMessage", f: |v| out(<api::ServerMessage as From<api::ServerJsonrpcRequest>>::from(j::<api::ServerJsonrpcRequest>(v)?)), var: Some(|v| Ok(var_ServerMessage(&<api::ServerMessage as From<api::ServerJsonrpcRequest>>::from(j::<api::ServerJsonrpcRequest>(v)?))))});
  r.froms.push(Conv{src:"ServerJsonrpcResponse", dst:"ServerMessage", f: |v| out(<api::ServerMessage as From<api::ServerJsonrpcResponse>>::from(j::<api::ServerJsonrpcResponse>(v)?)), var: Some(|v| Ok(var_ServerMessage(&<api::ServerMessage as From<api::ServerJsonrpcResponse>>::from(j::<api::ServerJsonrpcResponse>(v)?))))});
  r.from_message.push(Assemble{src:"MessageFromServer", dst:"ServerMessage", f: |v, id| { let id = match id { Some(i) => Some(j::<api::RequestId>(i)?), None => None }; let x = j::<api::MessageFromServer>(v)?; Ok(<api::ServerMessage as api::FromMessage<api::MessageFromServer>>::from_message(x, id).map(|y| serde_json::json!([var_ServerMessage(&y), y])).map_err(|e| serde_json::to_value(e).unwrap())) } });
  r.fromstrs.push(FromStrFn{ty:"ServerMessage", f: |s| s.parse::<api::ServerMessage>().map(|x| serde_json::to_value(x).unwrap()).map_err(|e| serde_json::to_string(&e).unwrap())});
  r.displays.push(DisplayFn{ty:"ServerMessages", f: |v| Ok(j::<api::ServerMessages>(v)?.to_string())});
  r.froms.push(Conv{src:"ServerMessage", dst:"ServerMessages", f: |v| out(<api::ServerMessages as From<api::ServerMessage>>::from(j::<api::ServerMessage>(v)?)), var: Some(|v| Ok(var_ServerMessages(&<api::ServerMessages as From<api::ServerMessage>>::from(j::<api::ServerMessage>(v)?))))});
  r.froms.push(Conv{src:"Vec<ServerMessage>", dst:"ServerMessages", f: |v| out(<api::ServerMessages as From<Vec<api::ServerMessage>>>::from(j::<Vec<api::ServerMessage>>(v)?)), var: Some(|v| Ok(var_ServerMessages(&<api::ServerMessages as From<Vec<api::ServerMessage>>>::from(j::<Vec<api::ServerMessage>>(v)?))))});
  r.froms.push(Conv{src:"CancelledNotification", dst:"ServerNotification", f: |v| out(<api::ServerNotification as From<api::CancelledNotification>>::from(j::<api::CancelledNotification>(v)?)), var: Some(|v| Ok(var_ServerNotification(&<api::ServerNotification as From<api::CancelledNotification>>::from(j::<api::CancelledNotification>(v)?))))});
  r.froms.push(Conv{src:"LoggingMessageNotification", dst:"ServerNotification", f: |v| out(<api::ServerNotification as From<api::LoggingMessageNotification>>::from(j::<api::LoggingMessageNotification>(v)?)), var: Some(|v| Ok(var_ServerNotification(&<api::ServerNotification as From<api::LoggingMessageNotification>>::from(j::<api::LoggingMessageNotification>(v)?))))});
  r.froms.push(Conv{src:"ProgressNotification", dst:"ServerNotification", f: |v| out(<api::ServerNotification as From<api::ProgressNotification>>::from(j::<api::ProgressNotification>(v)?)), var: Some(|v| Ok(var_ServerNotification(&<api::ServerNotification as From<api::ProgressNotification>>::from(j::<api::ProgressNotification>(v)?))))});
  r.froms.push(Conv{src:"PromptListChangedNotification", dst:"ServerNotification", f: |v| out(<api::ServerNotification as From<api::PromptListChangedNotification>>::from(j::<api::PromptListChangedNotification>(v)?)), var: Some(|v| Ok(var_ServerNotification(&<api::ServerNotification as From<api::PromptListChangedNotification>>::from(j::<api::PromptListChangedNotification>(v)?))))});
  r.froms.push(Conv{src:"ResourceListChangedNotification", dst:"ServerNotification", f: |v| out(<api::ServerNotification as From<api::ResourceListChangedNotification>>::from(j::<api::ResourceListChangedNotification>(v)?)), var: Some(|v| Ok(var_ServerNotification(&<api::ServerNotification as From<api::ResourceListChangedNotification>>::from(j::<api::ResourceListChangedNotification>(v)?))))});
  r.froms.push(Conv{src:"ResourceUpdatedNotification", dst:"ServerNotification", f: |v| out(<api::ServerNotification as From<api::ResourceUpdatedNotification>>::from(j::<api::ResourceUpdatedNotification>(v)?)), var: Some(|v| Ok(var_ServerNotification(&<api::ServerNotification as From<api::ResourceUpdatedNotification>>::from(j::<api::ResourceUpdatedNotification>(v)?))))});
  r.froms.push(Conv{src:"SubscriptionsAcknowledgedNotification", dst:"ServerNotification", f: |v| out(<api::ServerNotification as From<api::SubscriptionsAcknowledgedNotification>>::from(j::<api::SubscriptionsAcknowledgedNotification>(v)?)), var: Some(|v| Ok(var_ServerNotification(&<api::ServerNotification as From<api::SubscriptionsAcknowledgedNotification>>::from(j::<api::SubscriptionsAcknowledgedNotification>(v)?))))});
  r.froms.push(Conv{src:"ToolListChangedNotification", dst:"ServerNotification", f: |v| out(<api::ServerNotification as From<api::ToolListChangedNotification>>::from(j::<api::ToolListChangedNotification>(v)?)), var: Some(|v| Ok(var_ServerNotification(&<api::ServerNotification as From<api::ToolListChangedNotification>>::from(j::<api::ToolListChangedNotification>(v)?))))});
  r.froms.push(Conv{src:"CallToolResult", dst:"ServerResult", f: |v| out(<api::ServerResult as From<api::CallToolResult>>::from(j::<api::CallToolResult>(v)?)), var: Some(|v| Ok(var_ServerResult(&<api::ServerResult as From<api::CallToolResult>>::from(j::<api::CallToolResult>(v)?))))});
  r.froms.push(Conv{src:"CompleteResult", dst:"ServerResult", f: |v| out(<api::ServerResult as From<api::CompleteResult>>::from(j::<api::CompleteResult>(v)?)), var: Some(|v| Ok(var_ServerResult(&<api::ServerResult as From<api::CompleteResult>>::from(j::<api::CompleteResult>(v)?))))});
  r.froms.push(Conv{src:"DiscoverResult", dst:"ServerResult", f: |v| out(<api::ServerResult as From<api::DiscoverResult>>::from(j::<api::DiscoverResult>(v)?)), var: Some(|v| Ok(var_ServerResult(&<api::ServerResult as From<api::DiscoverResult>>::from(j::<api::DiscoverResult>(v)?))))});
  r.froms.push(Conv{src:"GetPromptResult", dst:"ServerResult", f: |v| out(<api::ServerResult as From<api::GetPromptResult>>::from(j::<api::GetPromptResult>(v)?)), var: Some(|v| Ok(var_ServerResult(&<api::ServerResult as From<api::GetPromptResult>>::from(j::<api::GetPromptResult>(v)?))))});
  r.froms.push(Conv{src:"InputRequiredResult", dst:"ServerResult", f: |v| out(<api::ServerResult as From<api::InputRequiredResult>>::from(j::<api::InputRequiredResult>(v)?)), var: Some(|v| Ok(var_ServerResult(&<api::ServerResult as From<api::InputRequiredResult>>::from(j::<api::InputRequiredResult>(v)?))))});
  r.froms.push(Conv{src:"ListPromptsResult", dst:"ServerResult", f: |v| out(<api::ServerResult as From<api::ListPromptsResult>>::from(j::<api::ListPromptsResult>(v)?)), var: Some(|v| Ok(var_ServerResult(&<api::ServerResult as From<api::ListPromptsResult>>::from(j::<api::ListPromptsResult>(v)?))))});
  r.froms.push(Conv{src:"ListResourceTemplatesResult", dst:"ServerResult", f: |v| out(<api::ServerResult as From<api::ListResourceTemplatesResult>>::from(j::<api::ListResourceTemplatesResult>(v)?)), var: Some(|v| Ok(var_ServerResult(&<api::ServerResult as From<api::ListResourceTemplatesResult>>::from(j::<api::ListResourceTemplatesResult>(v)?))))});
  r.froms.push(Conv{src:"ListResourcesResult", dst:"ServerResult", f: |v| out(<api::ServerResult as From<api::ListResourcesResult>>::from(j::<api::ListResourcesResult>(v)?)), var: Some(|v| Ok(var_ServerResult(&<api::ServerResult as From<api::ListResourcesResult>>::from(j::<api::ListResourcesResult>(v)?))))});
  r.froms.push(Conv{src:"ListToolsResult", dst:"ServerResult", f: |v| out(<api::ServerResult as From<api::ListToolsResult>>::from(j::<api::ListToolsResult>(v)?)), var: Some(|v| Ok(var_ServerResult(&<api::ServerResult as From<api::ListToolsResult>>::from(j::<api::ListToolsResult>(v)?))))});
  r.froms.push(Conv{src:"ReadResourceResult", dst:"ServerResult", f: |v| out(<api::ServerResult as From<api::ReadResourceResult>>::from(j::<api::ReadResourceResult>(v)?)), var: Some(|v| Ok(var_ServerResult(&<api::ServerResult as From<api::ReadResourceResult>>::from(j::<api::ReadResourceResult>(v)?))))});
  r.froms.push(Conv{src:"Result", dst:"ServerResult", f: |v| out(<api::ServerResult as From<api::Result>>::from(j::<api::Result>(v)?)), var: Some(|v| Ok(var_ServerResult(&<api::ServerResult as From<api::Result>>::from(j::<api::Result>(v)?))))});
  r.froms.push(Conv{src:"SubscriptionsListenResult", dst:"ServerResult", f: |v| out(<api::ServerResult as From<api::SubscriptionsListenResult>>::from(j::<api::SubscriptionsListenResult>(v)?)), var: Some(|v| Ok(var_ServerResult(&<api::ServerResult as From<api::SubscriptionsListenResult>>::from(j::<api::SubscriptionsListenResult>(v)?))))});
  r.froms.push(Conv{src:"TitledSingleSelectEnumSchema", dst:"SingleSelectEnumSchema", f: |v| out(<api::SingleSelectEnumSchema as From<api::TitledSingleSelectEnumSchema>>::from(j::<api::TitledSingleSelectEnumSchema>(v)?)), var: Some(|v| Ok(var_SingleSelectEnumSchema(&<api::SingleSelectEnumSchema as From<api::TitledSingleSelectEnumSchema>>::from(j::<api::TitledSingleSelectEnumSchema>(v)?))))});
  r.froms.push(Conv{src:"UntitledSingleSelectEnumSchema", dst:"SingleSelectEnumSchema", f: |v| out(<api::SingleSelectEnumSchema as From<api::UntitledSingleSelectEnumSchema>>::from(j::<api::UntitledSingleSelectEnumSchema>(v)?)), var: Some(|v| Ok(var_SingleSelectEnumSchema(&<api::SingleSelectEnumSchema as From<api::UntitledSingleSelectEnumSchema>>::from(j::<api::UntitledSingleSelectEnumSchema>(v)?))))});
  r.displays.push(DisplayFn{ty:"StringSchemaFormat", f: |v| Ok(j::<api::StringSchemaFormat>(v)?.to_string())});
  r.fromstrs.push(FromStrFn{ty:"StringSchemaFormat", f: |s| s.parse::<api::StringSchemaFormat>().map(|x| serde_json::to_value(x).unwrap()).map_err(|e| format!("{e:?}"))});
  r.defaults.push(DefaultFn{ty:"SubscriptionFilter", f: || out(<api::SubscriptionFilter as Default>::default())});
  r.defaults.push(DefaultFn{ty:"SubscriptionsAcknowledgedNotificationParams", f: || out(<api::SubscriptionsAcknowledgedNotificationParams as Default>::default())});
  r.try_froms.push(TryConv{src:"ServerResult", dst:"SubscriptionsListenResult", f: |p, v| { let x = mk_ServerResult(p, v)?; Ok(<api::SubscriptionsListenResult as TryFrom<api::ServerResult>>::try_from(x).map(|y| serde_json::to_value(y).unwrap()).map_err(|e| serde_json::to_value(e).unwrap()))}});
  r.defaults.push(DefaultFn{ty:"ToolAnnotations", f: || out(<api::ToolAnnotations as Default>::default())});
  r.defaults.push(DefaultFn{ty:"ToolChoice", f: || out(<api::ToolChoice as Default>::default())});
  r.displays.push(DisplayFn{ty:"ToolChoiceMode", f: |v| Ok(j::<api::ToolChoiceMode>(v)?.to_string())});
  r.defaults.push(DefaultFn{ty:"ToolOutputSchema", f: || out(<api::ToolOutputSchema as Default>::default())});
  r.variants.push(VariantFn{ty:"CallToolResultResponse", f: |v| Ok(var_CallToolResultResponse(&j::<api::CallToolResultResponse>(v)?))});
  r.variants.push(VariantFn{ty:"CallToolResultResponseResult", f: |v| Ok(var_CallToolResultResponseResult(&j::<api::CallToolResultResponseResult>(v)?))});
  r.variants.push(VariantFn{ty:"ClientJsonrpcNotification", f: |v| Ok(var_ClientJsonrpcNotification(&j::<api::ClientJsonrpcNotification>(v)?))});
  r.variants.push(VariantFn{ty:"ClientJsonrpcRequest", f: |v| Ok(var_ClientJsonrpcRequest(&j::<api::ClientJsonrpcRequest>(v)?))});
  r.variants.push(VariantFn{ty:"ClientJsonrpcResponse", f: |v| Ok(var_ClientJsonrpcResponse(&j::<api::ClientJsonrpcResponse>(v)?))});
  r.variants.push(VariantFn{ty:"ClientMessage", f: |v| Ok(var_ClientMessage(&j::<api::ClientMessage>(v)?))});
  r.variants.push(VariantFn{ty:"ClientMessages", f: |v| Ok(var_ClientMessages(&j::<api::ClientMessages>(v)?))});
  r.variants.push(VariantFn{ty:"ClientRequest", f: |v| Ok(var_ClientRequest(&j::<api::ClientRequest>(v)?))});
  r.variants.push(VariantFn{ty:"CompleteRequestRef", f: |v| Ok(var_CompleteRequestRef(&j::<api::CompleteRequestRef>(v)?))});
  r.variants.push(VariantFn{ty:"ContentBlock", f: |v| Ok(var_ContentBlock(&j::<api::ContentBlock>(v)?))});
  r.variants.push(VariantFn{ty:"CreateMessageContent", f: |v| Ok(var_CreateMessageContent(&j::<api::CreateMessageContent>(v)?))});
  r.variants.push(VariantFn{ty:"ElicitRequestParams", f: |v| Ok(var_ElicitRequestParams(&j::<api::ElicitRequestParams>(v)?))});
  r.variants.push(VariantFn{ty:"ElicitResultContent", f: |v| Ok(var_ElicitResultContent(&j::<api::ElicitResultContent>(v)?))});
  r.variants.push(VariantFn{ty:"ElicitResultContentPrimitive", f: |v| Ok(var_ElicitResultContentPrimitive(&j::<api::ElicitResultContentPrimitive>(v)?))});
  r.variants.push(VariantFn{ty:"EmbeddedResourceResource", f: |v| Ok(var_EmbeddedResourceResource(&j::<api::EmbeddedResourceResource>(v)?))});
  r.variants.push(VariantFn{ty:"EnumSchema", f: |v| Ok(var_EnumSchema(&j::<api::EnumSchema>(v)?))});
  r.variants.push(VariantFn{ty:"GetPromptResultResponse", f: |v| Ok(var_GetPromptResultResponse(&j::<api::GetPromptResultResponse>(v)?))});
  r.variants.push(VariantFn{ty:"GetPromptResultResponseResult", f: |v| Ok(var_GetPromptResultResponseResult(&j::<api::GetPromptResultResponseResult>(v)?))});
  r.variants.push(VariantFn{ty:"InputRequest", f: |v| Ok(var_InputRequest(&j::<api::InputRequest>(v)?))});
  r.variants.push(VariantFn{ty:"InputResponse", f: |v| Ok(var_InputResponse(&j::<api::InputResponse>(v)?))});
  r.variants.push(VariantFn{ty:"JsonValue", f: |v| Ok(var_JsonValue(&j::<api::JsonValue>(v)?))});
  r.variants.push(VariantFn{ty:"JsonValueVariant2", f: |v| Ok(var_JsonValueVariant2(&j::<api::JsonValueVariant2>(v)?))});
  r.variants.push(VariantFn{ty:"JsonrpcMessage", f: |v| Ok(var_JsonrpcMessage(&j::<api::JsonrpcMessage>(v)?))});
  r.variants.push(VariantFn{ty:"JsonrpcResponse", f: |v| Ok(var_JsonrpcResponse(&j::<api::JsonrpcResponse>(v)?))});
  r.variants.push(VariantFn{ty:"MessageFromClient", f: |v| Ok(var_MessageFromClient(&j::<api::MessageFromClient>(v)?))});
  r.variants.push(VariantFn{ty:"MessageFromServer", f: |v| Ok(var_MessageFromServer(&j::<api::MessageFromServer>(v)?))});
  r.variants.push(VariantFn{ty:"MessagesFromClient", f: |v| Ok(var_MessagesFromClient(&j::<api::MessagesFromClient>(v)?))});
  r.variants.push(VariantFn{ty:"MessagesFromServer", f: |v| Ok(var_MessagesFromServer(&j::<api::MessagesFromServer>(v)?))});
  r.variants.push(VariantFn{ty:"MultiSelectEnumSchema", f: |v| Ok(var_MultiSelectEnumSchema(&j::<api::MultiSelectEnumSchema>(v)?))});
  r.variants.push(VariantFn{ty:"NotificationFromClient", f: |v| Ok(var_NotificationFromClient(&j::<api::NotificationFromClient>(v)?))});
  r.variants.push(VariantFn{ty:"NotificationFromServer", f: |v| Ok(var_NotificationFromServer(&j::<api::NotificationFromServer>(v)?))});
  r.variants.push(VariantFn{ty:"PrimitiveSchemaDefinition", f: |v| Ok(var_PrimitiveSchemaDefinition(&j::<api::PrimitiveSchemaDefinition>(v)?))});
  r.variants.push(VariantFn{ty:"ProgressToken", f: |v| Ok(var_ProgressToken(&j::<api::ProgressToken>(v)?))});
  r.variants.push(VariantFn{ty:"ReadResourceContent", f: |v| Ok(var_ReadResourceContent(&j::<api::ReadResourceContent>(v)?))});
  r.variants.push(VariantFn{ty:"ReadResourceResultResponse", f: |v| Ok(var_ReadResourceResultResponse(&j::<api::ReadResourceResultResponse>(v)?))});
  r.variants.push(VariantFn{ty:"ReadResourceResultResponseResult", f: |v| Ok(var_ReadResourceResultResponseResult(&j::<api::ReadResourceResultResponseResult>(v)?))});
  r.variants.push(VariantFn{ty:"RequestFromClient", f: |v| Ok(var_RequestFromClient(&j::<api::RequestFromClient>(v)?))});
  r.variants.push(VariantFn{ty:"RequestFromServer", f: |v| Ok(var_RequestFromServer(&j::<api::RequestFromServer>(v)?))});
  r.variants.push(VariantFn{ty:"RequestId", f: |v| Ok(var_RequestId(&j::<api::RequestId>(v)?))});
  r.variants.push(VariantFn{ty:"ResultFromClient", f: |v| Ok(var_ResultFromClient(&j::<api::ResultFromClient>(v)?))});
  r.variants.push(VariantFn{ty:"SamplingMessageContent", f: |v| Ok(var_SamplingMessageContent(&j::<api::SamplingMessageContent>(v)?))});
  r.variants.push(VariantFn{ty:"SamplingMessageContentBlock", f: |v| Ok(var_SamplingMessageContentBlock(&j::<api::SamplingMessageContentBlock>(v)?))});
  r.variants.push(VariantFn{ty:"ServerJsonrpcNotification", f: |v| Ok(var_ServerJsonrpcNotification(&j::<api::ServerJsonrpcNotification>(v)?))});
  r.variants.push(VariantFn{ty:"ServerJsonrpcRequest", f: |v| Ok(var_ServerJsonrpcRequest(&j::<api::ServerJsonrpcRequest>(v)?))});
  r.variants.push(VariantFn{ty:"ServerJsonrpcResponse", f: |v| Ok(var_ServerJsonrpcResponse(&j::<api::ServerJsonrpcResponse>(v)?))});
  r.variants.push(VariantFn{ty:"ServerMessage", f: |v| Ok(var_ServerMessage(&j::<api::ServerMessage>(v)?))});
  r.variants.push(VariantFn{ty:"ServerMessages", f: |v| Ok(var_ServerMessages(&j::<api::ServerMessages>(v)?))});
  r.variants.push(VariantFn{ty:"ServerNotification", f: |v| Ok(var_ServerNotification(&j::<api::ServerNotification>(v)?))});
  r.variants.push(VariantFn{ty:"ServerResult", f: |v| Ok(var_ServerResult(&j::<api::ServerResult>(v)?))});
  r.variants.push(VariantFn{ty:"SingleSelectEnumSchema", f: |v| Ok(var_SingleSelectEnumSchema(&j::<api::SingleSelectEnumSchema>(v)?))});
  r }
pub fn var_CallToolResultResponse(x: &api::CallToolResultResponse) -> String {
  var_CallToolResultResponseResult(&x.result)
}
pub fn var_CallToolResultResponseResult(x: &api::CallToolResultResponseResult) -> String {
  #[allow(unreachable_patterns)] match x {
    api::CallToolResultResponseResult::InputRequiredResult(..) => "InputRequiredResult".to_string(),
    api::CallToolResultResponseResult::CallToolResult(..) => "CallToolResult".to_string(),
    _ => "?".to_string(),
  }
}
pub fn var_ClientJsonrpcNotification(x: &api::ClientJsonrpcNotification) -> String {
  #[allow(unreachable_patterns)] match x {
    api::ClientJsonrpcNotification::CancelledNotification(..) => "CancelledNotification".to_string(),
    api::ClientJsonrpcNotification::CustomNotification(..) => "CustomNotification".to_string(),
    _ => "?".to_string(),
  }
}
pub fn var_ClientJsonrpcRequest(x: &api::ClientJsonrpcRequest) -> String {
  #[allow(unreachable_patterns)] match x {
    api::ClientJsonrpcRequest::Standard(y) => format!("Standard/{}", var_ClientRequest(y)),
    api::ClientJsonrpcRequest::Custom(..) => "Custom".to_string(),
    _ => "?".to_string(),
  }
}
pub fn var_ClientJsonrpcResponse(x: &api::ClientJsonrpcResponse) -> String {
  var_ResultFromClient(&x.result)
}
pub fn var_ClientMessage(x: &api::ClientMessage) -> String {
  #[allow(unreachable_patterns)] match x {
    api::ClientMessage::Request(y) => format!("Request/{}", var_ClientJsonrpcRequest(y)),
    api::ClientMessage::Notification(y) => format!("Notification/{}", var_ClientJsonrpcNotification(y)),
    api::ClientMessage::Response(y) => format!("Response/{}", var_ClientJsonrpcResponse(y)),
    api::ClientMessage::Error(..) => "Error".to_string(),
    _ => "?".to_string(),
  }
}
pub fn var_ClientMessages(x: &api::ClientMessages) -> String {
  #[allow(unreachable_patterns)] match x {
    api::ClientMessages::Single(y) => format!("Single/{}", var_ClientMessage(y)),
    api::ClientMessages::Batch(..) => "Batch".to_string(),
    _ => "?".to_string(),
  }
}
pub fn var_ClientRequest(x: &api::ClientRequest) -> String {
  #[allow(unreachable_patterns)] match x {
    api::ClientRequest::DiscoverRequest(..) => "DiscoverRequest".to_string(),
    api::ClientRequest::ListResourcesRequest(..) => "ListResourcesRequest".to_string(),
    api::ClientRequest::ListResourceTemplatesRequest(..) => "ListResourceTemplatesRequest".to_string(),
    api::ClientRequest::ReadResourceRequest(..) => "ReadResourceRequest".to_string(),
    api::ClientRequest::SubscriptionsListenRequest(..) => "SubscriptionsListenRequest".to_string(),
    api::ClientRequest::ListPromptsRequest(..) => "ListPromptsRequest".to_string(),
    api::ClientRequest::GetPromptRequest(..) => "GetPromptRequest".to_string(),
    api::ClientRequest::ListToolsRequest(..) => "ListToolsRequest".to_string(),
    api::ClientRequest::CallToolRequest(..) => "CallToolRequest".to_string(),
    api::ClientRequest::CompleteRequest(..) => "CompleteRequest".to_string(),
    _ => "?".to_string(),
  }
}
pub fn var_CompleteRequestRef(x: &api::CompleteRequestRef) -> String {
  #[allow(unreachable_patterns)] match x {
    api::CompleteRequestRef::PromptReference(..) => "PromptReference".to_string(),
    api::CompleteRequestRef::ResourceTemplateReference(..) => "ResourceTemplateReference".to_string(),
    _ => "?".to_string(),
  }
}
pub fn var_ContentBlock(x: &api::ContentBlock) -> String {
  #[allow(unreachable_patterns)] match x {
    api::ContentBlock::TextContent(..) => "TextContent".to_string(),
    api::ContentBlock::ImageContent(..) => "ImageContent".to_string(),
    api::ContentBlock::AudioContent(..) => "AudioContent".to_string(),
    api::ContentBlock::ResourceLink(..) => "ResourceLink".to_string(),
    api::ContentBlock::EmbeddedResource(..) => "EmbeddedResource".to_string(),
    _ => "?".to_string(),
  }
}
pub fn var_CreateMessageContent(x: &api::CreateMessageContent) -> String {
  #[allow(unreachable_patterns)] match x {
    api::CreateMessageContent::TextContent(..) => "TextContent".to_string(),
    api::CreateMessageContent::ImageContent(..) => "ImageContent".to_string(),
    api::CreateMessageContent::AudioContent(..) => "AudioContent".to_string(),
    api::CreateMessageContent::ToolUseContent(..) => "ToolUseContent".to_string(),
    api::CreateMessageContent::ToolResultContent(..) => "ToolResultContent".to_string(),
    api::CreateMessageContent::SamplingMessageContentBlock(..) => "SamplingMessageContentBlock".to_string(),
    _ => "?".to_string(),
  }
}
pub fn var_ElicitRequestParams(x: &api::ElicitRequestParams) -> String {
  #[allow(unreachable_patterns)] match x {
    api::ElicitRequestParams::FormParams(..) => "FormParams".to_string(),
    api::ElicitRequestParams::UrlParams(..) => "UrlParams".to_string(),
    _ => "?".to_string(),
  }
}
pub fn var_ElicitResultContent(x: &api::ElicitResultContent) -> String {
  #[allow(unreachable_patterns)] match x {
    api::ElicitResultContent::StringArray(..) => "StringArray".to_string(),
    api::ElicitResultContent::Primitive(y) => format!("Primitive/{}", var_ElicitResultContentPrimitive(y)),
    _ => "?".to_string(),
  }
}
pub fn var_ElicitResultContentPrimitive(x: &api::ElicitResultContentPrimitive) -> String {
  #[allow(unreachable_patterns)] match x {
    api::ElicitResultContentPrimitive::Boolean(..) => "Boolean".to_string(),
    api::ElicitResultContentPrimitive::String(..) => "String".to_string(),
    api::ElicitResultContentPrimitive::Integer(..) => "Integer".to_string(),
    _ => "?".to_string(),
  }
}
pub fn var_EmbeddedResourceResource(x: &api::EmbeddedResourceResource) -> String {
  #[allow(unreachable_patterns)] match x {
    api::EmbeddedResourceResource::TextResourceContents(..) => "TextResourceContents".to_string(),
    api::EmbeddedResourceResource::BlobResourceContents(..) => "BlobResourceContents".to_string(),
    _ => "?".to_string(),
  }
}
pub fn var_EnumSchema(x: &api::EnumSchema) -> String {
  #[allow(unreachable_patterns)] match x {
    api::EnumSchema::UntitledSingleSelectEnumSchema(..) => "UntitledSingleSelectEnumSchema".to_string(),
    api::EnumSchema::TitledSingleSelectEnumSchema(..) => "TitledSingleSelectEnumSchema".to_string(),
    api::EnumSchema::UntitledMultiSelectEnumSchema(..) => "UntitledMultiSelectEnumSchema".to_string(),
    api::EnumSchema::TitledMultiSelectEnumSchema(..) => "TitledMultiSelectEnumSchema".to_string(),
    api::EnumSchema::LegacyTitledEnumSchema(..) => "LegacyTitledEnumSchema".to_string(),
    _ => "?".to_string(),
  }
}
pub fn var_GetPromptResultResponse(x: &api::GetPromptResultResponse) -> String {
  var_GetPromptResultResponseResult(&x.result)
}
pub fn var_GetPromptResultResponseResult(x: &api::GetPromptResultResponseResult) -> String {
  #[allow(unreachable_patterns)] match x {
    api::GetPromptResultResponseResult::InputRequiredResult(..) => "InputRequiredResult".to_string(),
    api::GetPromptResultResponseResult::GetPromptResult(..) => "GetPromptResult".to_string(),
    _ => "?".to_string(),
  }
}
pub fn var_InputRequest(x: &api::InputRequest) -> String {
  #[allow(unreachable_patterns)] match x {
    api::InputRequest::CreateMessageRequest(..) => "CreateMessageRequest".to_string(),
    api::InputRequest::ListRootsRequest(..) => "ListRootsRequest".to_string(),
    api::InputRequest::ElicitRequest(..) => "ElicitRequest".to_string(),
    _ => "?".to_string(),
  }
}
pub fn var_InputResponse(x: &api::InputResponse) -> String {
  #[allow(unreachable_patterns)] match x {
    api::InputResponse::CreateMessageResult(..) => "CreateMessageResult".to_string(),
    api::InputResponse::ListRootsResult(..) => "ListRootsResult".to_string(),
    api::InputResponse::ElicitResult(..) => "ElicitResult".to_string(),
    _ => "?".to_string(),
  }
}
pub fn var_JsonValue(x: &api::JsonValue) -> String {
  #[allow(unreachable_patterns)] match x {
    api::JsonValue::Variant0(..) => "Variant0".to_string(),
    api::JsonValue::Variant1(..) => "Variant1".to_string(),
    api::JsonValue::Variant2(y) => format!("Variant2/{}", var_JsonValueVariant2(y)),
    _ => "?".to_string(),
  }
}
pub fn var_JsonValueVariant2(x: &api::JsonValueVariant2) -> String {
  #[allow(unreachable_patterns)] match x {
    api::JsonValueVariant2::Boolean(..) => "Boolean".to_string(),
    api::JsonValueVariant2::String(..) => "String".to_string(),
    api::JsonValueVariant2::Integer(..) => "Integer".to_string(),
    _ => "?".to_string(),
  }
}
pub fn var_JsonrpcMessage(x: &api::JsonrpcMessage) -> String {
  #[allow(unreachable_patterns)] match x {
    api::JsonrpcMessage::Request(..) => "Request".to_string(),
    api::JsonrpcMessage::Notification(..) => "Notification".to_string(),
    api::JsonrpcMessage::ResultResponse(..) => "ResultResponse".to_string(),
    api::JsonrpcMessage::ErrorResponse(..) => "ErrorResponse".to_string(),
    _ => "?".to_string(),
  }
}
pub fn var_JsonrpcResponse(x: &api::JsonrpcResponse) -> String {
  #[allow(unreachable_patterns)] match x {
    api::JsonrpcResponse::ResultResponse(..) => "ResultResponse".to_string(),
    api::JsonrpcResponse::ErrorResponse(..) => "ErrorResponse".to_string(),
    _ => "?".to_string(),
  }
}
pub fn var_MessageFromClient(x: &api::MessageFromClient) -> String {
  #[allow(unreachable_patterns)] match x {
    api::MessageFromClient::RequestFromClient(y) => format!("RequestFromClient/{}", var_RequestFromClient(y)),
    api::MessageFromClient::ResultFromClient(y) => format!("ResultFromClient/{}", var_ResultFromClient(y)),
    api::MessageFromClient::NotificationFromClient(y) => format!("NotificationFromClient/{}", var_NotificationFromClient(y)),
    api::MessageFromClient::Error(..) => "Error".to_string(),
    _ => "?".to_string(),
  }
}
pub fn var_MessageFromServer(x: &api::MessageFromServer) -> String {
  #[allow(unreachable_patterns)] match x {
    api::MessageFromServer::RequestFromServer(y) => format!("RequestFromServer/{}", var_RequestFromServer(y)),
    api::MessageFromServer::ServerResult(y) => format!("ServerResult/{}", var_ServerResult(y)),
    api::MessageFromServer::NotificationFromServer(y) => format!("NotificationFromServer/{}", var_NotificationFromServer(y)),
    api::MessageFromServer::Error(..) => "Error".to_string(),
    _ => "?".to_string(),
  }
}
pub fn var_MessagesFromClient(x: &api::MessagesFromClient) -> String {
  #[allow(unreachable_patterns)] match x {
    api::MessagesFromClient::Single(y) => format!("Single/{}", var_MessageFromClient(y)),
    api::MessagesFromClient::Batch(..) => "Batch".to_string(),
    _ => "?".to_string(),
  }
}
pub fn var_MessagesFromServer(x: &api::MessagesFromServer) -> String {
  #[allow(unreachable_patterns)] match x {
    api::MessagesFromServer::Single(y) => format!("Single/{}", var_MessageFromServer(y)),
    api::MessagesFromServer::Batch(..) => "Batch".to_string(),
    _ => "?".to_string(),
  }
}
pub fn var_MultiSelectEnumSchema(x: &api::MultiSelectEnumSchema) -> String {
  #[allow(unreachable_patterns)] match x {
    api::MultiSelectEnumSchema::UntitledMultiSelectEnumSchema(..) => "UntitledMultiSelectEnumSchema".to_string(),
    api::MultiSelectEnumSchema::TitledMultiSelectEnumSchema(..) => "TitledMultiSelectEnumSchema".to_string(),
    _ => "?".to_string(),
  }
}
pub fn var_NotificationFromClient(x: &api::NotificationFromClient) -> String {
  #[allow(unreachable_patterns)] match x {
    api::NotificationFromClient::CancelledNotification(..) => "CancelledNotification".to_string(),
    api::NotificationFromClient::CustomNotification(..) => "CustomNotification".to_string(),
    _ => "?".to_string(),
  }
}
pub fn var_NotificationFromServer(x: &api::NotificationFromServer) -> String {
  #[allow(unreachable_patterns)] match x {
    api::NotificationFromServer::CancelledNotification(..) => "CancelledNotification".to_string(),
    api::NotificationFromServer::ProgressNotification(..) => "ProgressNotification".to_string(),
    api::NotificationFromServer::ResourceListChangedNotification(..) => "ResourceListChangedNotification".to_string(),
    api::NotificationFromServer::ResourceUpdatedNotification(..) => "ResourceUpdatedNotification".to_string(),
    api::NotificationFromServer::PromptListChangedNotification(..) => "PromptListChangedNotification".to_string(),
    api::NotificationFromServer::ToolListChangedNotification(..) => "ToolListChangedNotification".to_string(),
    api::NotificationFromServer::LoggingMessageNotification(..) => "LoggingMessageNotification".to_string(),
    api::NotificationFromServer::SubscriptionsAcknowledgedNotification(..) => "SubscriptionsAcknowledgedNotification".to_string(),
    api::NotificationFromServer::CustomNotification(..) => "CustomNotification".to_string(),
    _ => "?".to_string(),
  }
}
pub fn var_PrimitiveSchemaDefinition(x: &api::PrimitiveSchemaDefinition) -> String {
  #[allow(unreachable_patterns)] match x {
    api::PrimitiveSchemaDefinition::StringSchema(..) => "StringSchema".to_string(),
    api::PrimitiveSchemaDefinition::NumberSchema(..) => "NumberSchema".to_string(),
    api::PrimitiveSchemaDefinition::BooleanSchema(..) => "BooleanSchema".to_string(),
    api::PrimitiveSchemaDefinition::UntitledSingleSelectEnumSchema(..) => "UntitledSingleSelectEnumSchema".to_string(),
    api::PrimitiveSchemaDefinition::TitledSingleSelectEnumSchema(..) => "TitledSingleSelectEnumSchema".to_string(),
    api::PrimitiveSchemaDefinition::UntitledMultiSelectEnumSchema(..) => "UntitledMultiSelectEnumSchema".to_string(),
    api::PrimitiveSchemaDefinition::TitledMultiSelectEnumSchema(..) => "TitledMultiSelectEnumSchema".to_string(),
    api::PrimitiveSchemaDefinition::LegacyTitledEnumSchema(..) => "LegacyTitledEnumSchema".to_string(),
    _ => "?".to_string(),
  }
}
pub fn var_ProgressToken(x: &api::ProgressToken) -> String {
  #[allow(unreachable_patterns)] match x {
    api::ProgressToken::String(..) => "String".to_string(),
    api::ProgressToken::Integer(..) => "Integer".to_string(),
    _ => "?".to_string(),
  }
}
pub fn var_ReadResourceContent(x: &api::ReadResourceContent) -> String {
  #[allow(unreachable_patterns)] match x {
    api::ReadResourceContent::TextResourceContents(..) => "TextResourceContents".to_string(),
    api::ReadResourceContent::BlobResourceContents(..) => "BlobResourceContents".to_string(),
    _ => "?".to_string(),
  }
}
pub fn var_ReadResourceResultResponse(x: &api::ReadResourceResultResponse) -> String {
  var_ReadResourceResultResponseResult(&x.result)
}
pub fn var_ReadResourceResultResponseResult(x: &api::ReadResourceResultResponseResult) -> String {
  #[allow(unreachable_patterns)] match x {
    api::ReadResourceResultResponseResult::InputRequiredResult(..) => "InputRequiredResult".to_string(),
    api::ReadResourceResultResponseResult::ReadResourceResult(..) => "ReadResourceResult".to_string(),
    _ => "?".to_string(),
  }
}
pub fn var_RequestFromClient(x: &api::RequestFromClient) -> String {
  #[allow(unreachable_patterns)] match x {
    api::RequestFromClient::ListResourcesRequest(..) => "ListResourcesRequest".to_string(),
    api::RequestFromClient::ListResourceTemplatesRequest(..) => "ListResourceTemplatesRequest".to_string(),
    api::RequestFromClient::ReadResourceRequest(..) => "ReadResourceRequest".to_string(),
    api::RequestFromClient::ListPromptsRequest(..) => "ListPromptsRequest".to_string(),
    api::RequestFromClient::GetPromptRequest(..) => "GetPromptRequest".to_string(),
    api::RequestFromClient::ListToolsRequest(..) => "ListToolsRequest".to_string(),
    api::RequestFromClient::CallToolRequest(..) => "CallToolRequest".to_string(),
    api::RequestFromClient::CompleteRequest(..) => "CompleteRequest".to_string(),
    api::RequestFromClient::DiscoverRequest(..) => "DiscoverRequest".to_string(),
    api::RequestFromClient::SubscriptionsListenRequest(..) => "SubscriptionsListenRequest".to_string(),
    api::RequestFromClient::CustomRequest(..) => "CustomRequest".to_string(),
    _ => "?".to_string(),
  }
}
pub fn var_RequestFromServer(x: &api::RequestFromServer) -> String {
  #[allow(unreachable_patterns)] match x {
    api::RequestFromServer::CreateMessageRequest(..) => "CreateMessageRequest".to_string(),
    api::RequestFromServer::ListRootsRequest(..) => "ListRootsRequest".to_string(),
    api::RequestFromServer::ElicitRequest(y) => format!("ElicitRequest/{}", var_ElicitRequestParams(y)),
    api::RequestFromServer::CustomRequest(..) => "CustomRequest".to_string(),
    _ => "?".to_string(),
  }
}
pub fn var_RequestId(x: &api::RequestId) -> String {
  #[allow(unreachable_patterns)] match x {
    api::RequestId::String(..) => "String".to_string(),
    api::RequestId::Integer(..) => "Integer".to_string(),
    _ => "?".to_string(),
  }
}
pub fn var_ResultFromClient(x: &api::ResultFromClient) -> String {
  #[allow(unreachable_patterns)] match x {
    api::ResultFromClient::CreateMessageResult(..) => "CreateMessageResult".to_string(),
    api::ResultFromClient::ListRootsResult(..) => "ListRootsResult".to_string(),
    api::ResultFromClient::ElicitResult(..) => "ElicitResult".to_string(),
    api::ResultFromClient::Result(..) => "Result".to_string(),
    _ => "?".to_string(),
  }
}
pub fn var_SamplingMessageContent(x: &api::SamplingMessageContent) -> String {
  #[allow(unreachable_patterns)] match x {
    api::SamplingMessageContent::TextContent(..) => "TextContent".to_string(),
    api::SamplingMessageContent::ImageContent(..) => "ImageContent".to_string(),
    api::SamplingMessageContent::AudioContent(..) => "AudioContent".to_string(),
    api::SamplingMessageContent::ToolUseContent(..) => "ToolUseContent".to_string(),
    api::SamplingMessageContent::ToolResultContent(..) => "ToolResultContent".to_string(),
    api::SamplingMessageContent::SamplingMessageContentBlock(..) => "SamplingMessageContentBlock".to_string(),
    _ => "?".to_string(),
  }
}
pub fn var_SamplingMessageContentBlock(x: &api::SamplingMessageContentBlock) -> String {
  #[allow(unreachable_patterns)] match x {
    api::SamplingMessageContentBlock::TextContent(..) => "TextContent".to_string(),
    api::SamplingMessageContentBlock::ImageContent(..) => "ImageContent".to_string(),
    api::SamplingMessageContentBlock::AudioContent(..) => "AudioContent".to_string(),
    api::SamplingMessageContentBlock::ToolUseContent(..) => "ToolUseContent".to_string(),
    api::SamplingMessageContentBlock::ToolResultContent(..) => "ToolResultContent".to_string(),
    _ => "?".to_string(),
  }
}
pub fn var_ServerJsonrpcNotification(x: &api::ServerJsonrpcNotification) -> String {
  #[allow(unreachable_patterns)] match x {
    api::ServerJsonrpcNotification::Standard(y) => format!("Standard/{}", var_ServerNotification(y)),
    api::ServerJsonrpcNotification::Custom(..) => "Custom".to_string(),
    _ => "?".to_string(),
  }
}
pub fn var_ServerJsonrpcRequest(x: &api::ServerJsonrpcRequest) -> String {
  #[allow(unreachable_patterns)] match x {
    api::ServerJsonrpcRequest::CreateMessageRequest { .. } => "CreateMessageRequest".to_string(),
    api::ServerJsonrpcRequest::ListRootsRequest { .. } => "ListRootsRequest".to_string(),
    api::ServerJsonrpcRequest::ElicitRequest { .. } => "ElicitRequest".to_string(),
    api::ServerJsonrpcRequest::CustomRequest(..) => "CustomRequest".to_string(),
    _ => "?".to_string(),
  }
}
pub fn var_ServerJsonrpcResponse(x: &api::ServerJsonrpcResponse) -> String {
  var_ServerResult(&x.result)
}
pub fn var_ServerMessage(x: &api::ServerMessage) -> String {
  #[allow(unreachable_patterns)] match x {
    api::ServerMessage::Request(y) => format!("Request/{}", var_ServerJsonrpcRequest(y)),
    api::ServerMessage::Notification(y) => format!("Notification/{}", var_ServerJsonrpcNotification(y)),
    api::ServerMessage::Response(y) => format!("Response/{}", var_ServerJsonrpcResponse(y)),
    api::ServerMessage::Error(..) => "Error".to_string(),
    _ => "?".to_string(),
  }
}
pub fn var_ServerMessages(x: &api::ServerMessages) -> String {
  #[allow(unreachable_patterns)] match x {
    api::ServerMessages::Single(y) => format!("Single/{}", var_ServerMessage(y)),
    api::ServerMessages::Batch(..) => "Batch".to_string(),
    _ => "?".to_string(),
  }
}
pub fn var_ServerNotification(x: &api::ServerNotification) -> String {
  #[allow(unreachable_patterns)] match x {
    api::ServerNotification::CancelledNotification(..) => "CancelledNotification".to_string(),
    api::ServerNotification::ProgressNotification(..) => "ProgressNotification".to_string(),
    api::ServerNotification::ResourceListChangedNotification(..) => "ResourceListChangedNotification".to_string(),
    api::ServerNotification::SubscriptionsAcknowledgedNotification(..) => "SubscriptionsAcknowledgedNotification".to_string(),
    api::ServerNotification::ResourceUpdatedNotification(..) => "ResourceUpdatedNotification".to_string(),
    api::ServerNotification::PromptListChangedNotification(..) => "PromptListChangedNotification".to_string(),
    api::ServerNotification::ToolListChangedNotification(..) => "ToolListChangedNotification".to_string(),
    api::ServerNotification::LoggingMessageNotification(..) => "LoggingMessageNotification".to_string(),
    _ => "?".to_string(),
  }
}
pub fn var_ServerResult(x: &api::ServerResult) -> String {
  #[allow(unreachable_patterns)] match x {
    api::ServerResult::InputRequiredResult(..) => "InputRequiredResult".to_string(),
    api::ServerResult::DiscoverResult(..) => "DiscoverResult".to_string(),
    api::ServerResult::ListResourcesResult(..) => "ListResourcesResult".to_string(),
    api::ServerResult::ListResourceTemplatesResult(..) => "ListResourceTemplatesResult".to_string(),
    api::ServerResult::ReadResourceResult(..) => "ReadResourceResult".to_string(),
    api::ServerResult::SubscriptionsListenResult(..) => "SubscriptionsListenResult".to_string(),
    api::ServerResult::ListPromptsResult(..) => "ListPromptsResult".to_string(),
    api::ServerResult::GetPromptResult(..) => "GetPromptResult".to_string(),
    api::ServerResult::ListToolsResult(..) => "ListToolsResult".to_string(),
    api::ServerResult::CallToolResult(..) => "CallToolResult".to_string(),
    api::ServerResult::CompleteResult(..) => "CompleteResult".to_string(),
    api::ServerResult::Result(..) => "Result".to_string(),
    _ => "?".to_string(),
  }
}
pub fn var_SingleSelectEnumSchema(x: &api::SingleSelectEnumSchema) -> String {
  #[allow(unreachable_patterns)] match x {
    api::SingleSelectEnumSchema::UntitledSingleSelectEnumSchema(..) => "UntitledSingleSelectEnumSchema".to_string(),
    api::SingleSelectEnumSchema::TitledSingleSelectEnumSchema(..) => "TitledSingleSelectEnumSchema".to_string(),
    _ => "?".to_string(),
  }
}
pub fn mk_RequestFromClient(path: &[&str], v: &Value) -> Result<api::RequestFromClient, String> { Ok(match path[0] {
    "ListResourcesRequest" => api::RequestFromClient::ListResourcesRequest(j::<api::PaginatedRequestParams>(v)?),
    "ListResourceTemplatesRequest" => api::RequestFromClient::ListResourceTemplatesRequest(j::<api::PaginatedRequestParams>(v)?),
    "ReadResourceRequest" => api::RequestFromClient::ReadResourceRequest(j::<api::ReadResourceRequestParams>(v)?),
    "ListPromptsRequest" => api::RequestFromClient::ListPromptsRequest(j::<api::PaginatedRequestParams>(v)?),
    "GetPromptRequest" => api::RequestFromClient::GetPromptRequest(j::<api::GetPromptRequestParams>(v)?),
    "ListToolsRequest" => api::RequestFromClient::ListToolsRequest(j::<api::PaginatedRequestParams>(v)?),
    "CallToolRequest" => api::RequestFromClient::CallToolRequest(j::<api::CallToolRequestParams>(v)?),
    "CompleteRequest" => api::RequestFromClient::CompleteRequest(j::<api::CompleteRequestParams>(v)?),
    "DiscoverRequest" => api::RequestFromClient::DiscoverRequest(j::<api::RequestParams>(v)?),
    "SubscriptionsListenRequest" => api::RequestFromClient::SubscriptionsListenRequest(j::<api::SubscriptionsListenRequestParams>(v)?),
    "CustomRequest" => api::RequestFromClient::CustomRequest(j::<api::CustomRequest>(v)?),
    x => return Err(format!("no variant {x}")),
  })}
pub const VARIANTS_REQUESTFROMCLIENT: &[(&str, &str)] = &[("ListResourcesRequest", "PaginatedRequestParams"), ("ListResourceTemplatesRequest", "PaginatedRequestParams"), ("ReadResourceRequest", "ReadResourceRequestParams"), ("ListPromptsRequest", "PaginatedRequestParams"), ("GetPromptRequest", "GetPromptRequestParams"), ("ListToolsRequest", "PaginatedRequestParams"), ("CallToolRequest", "CallToolRequestParams"), ("CompleteRequest", "CompleteRequestParams"), ("DiscoverRequest", "RequestParams"), ("SubscriptionsListenRequest", "SubscriptionsListenRequestParams"), ("CustomRequest", "CustomRequest")];
pub fn mk_RequestFromServer(path: &[&str], v: &Value) -> Result<api::RequestFromServer, String> { Ok(match path[0] {
    "CreateMessageRequest" => api::RequestFromServer::CreateMessageRequest(j::<api::CreateMessageRequestParams>(v)?),
    "ListRootsRequest" => api::RequestFromServer::ListRootsRequest(j::<Option<api::ListRootsRequestParams>>(v)?),
    "ElicitRequest" => api::RequestFromServer::ElicitRequest(j::<api::ElicitRequestParams>(v)?),
    "CustomRequest" => api::RequestFromServer::CustomRequest(j::<api::CustomRequest>(v)?),
    x => return Err(format!("no variant {x}")),
  })}
pub const VARIANTS_REQUESTFROMSERVER: &[(&str, &str)] = &[("CreateMessageRequest", "CreateMessageRequestParams"), ("ListRootsRequest", "Option<ListRootsRequestParams>"), ("ElicitRequest", "ElicitRequestParams"), ("CustomRequest", "CustomRequest")];
pub fn mk_NotificationFromClient(path: &[&str], v: &Value) -> Result<api::NotificationFromClient, String> { Ok(match path[0] {
    "CancelledNotification" => api::NotificationFromClient::CancelledNotification(j::<api::CancelledNotificationParams>(v)?),
    "CustomNotification" => api::NotificationFromClient::CustomNotification(j::<api::CustomNotification>(v)?),
    x => return Err(format!("no variant {x}")),
  })}
pub const VARIANTS_NOTIFICATIONFROMCLIENT: &[(&str, &str)] = &[("CancelledNotification", "CancelledNotificationParams"), ("CustomNotification", "CustomNotification")];
pub fn mk_NotificationFromServer(path: &[&str], v: &Value) -> Result<api::NotificationFromServer, String> { Ok(match path[0] {
    "CancelledNotification" => api::NotificationFromServer::CancelledNotification(j::<api::CancelledNotificationParams>(v)?),
    "ProgressNotification" => api::NotificationFromServer::ProgressNotification(j::<api::ProgressNotificationParams>(v)?),
    "ResourceListChangedNotification" => api::NotificationFromServer::ResourceListChangedNotification(j::<Option<api::NotificationParams>>(v)?),
    "ResourceUpdatedNotification" => api::NotificationFromServer::ResourceUpdatedNotification(j::<api::ResourceUpdatedNotificationParams>(v)?),
    "PromptListChangedNotification" => api::NotificationFromServer::PromptListChangedNotification(j::<Option<api::NotificationParams>>(v)?),
    "ToolListChangedNotification" => api::NotificationFromServer::ToolListChangedNotification(j::<Option<api::NotificationParams>>(v)?),
    "LoggingMessageNotification" => api::NotificationFromServer::LoggingMessageNotification(j::<api::LoggingMessageNotificationParams>(v)?),
    "SubscriptionsAcknowledgedNotification" => api::NotificationFromServer::SubscriptionsAcknowledgedNotification(j::<api::SubscriptionsAcknowledgedNotificationParams>(v)?),
    "CustomNotification" => api::NotificationFromServer::CustomNotification(j::<api::CustomNotification>(v)?),
    x => return Err(format!("no variant {x}")),
  })}
pub const VARIANTS_NOTIFICATIONFROMSERVER: &[(&str, &str)] = &[("CancelledNotification", "CancelledNotificationParams"), ("ProgressNotification", "ProgressNotificationParams"), ("ResourceListChangedNotification", "Option<NotificationParams>"), ("ResourceUpdatedNotification", "ResourceUpdatedNotificationParams"), ("PromptListChangedNotification", "Option<NotificationParams>"), ("ToolListChangedNotification", "Option<NotificationParams>"), ("LoggingMessageNotification", "LoggingMessageNotificationParams"), ("SubscriptionsAcknowledgedNotification", "SubscriptionsAcknowledgedNotificationParams"), ("CustomNotification", "CustomNotification")];
pub fn mk_ResultFromClient(path: &[&str], v: &Value) -> Result<api::ResultFromClient, String> { Ok(match path[0] {
    "CreateMessageResult" => api::ResultFromClient::CreateMessageResult(j::<api::CreateMessageResult>(v)?),
    "ListRootsResult" => api::ResultFromClient::ListRootsResult(j::<api::ListRootsResult>(v)?),
    "ElicitResult" => api::ResultFromClient::ElicitResult(j::<api::ElicitResult>(v)?),
    "Result" => api::ResultFromClient::Result(j::<api::Result>(v)?),
    x => return Err(format!("no variant {x}")),
  })}
pub const VARIANTS_RESULTFROMCLIENT: &[(&str, &str)] = &[("CreateMessageResult", "CreateMessageResult"), ("ListRootsResult", "ListRootsResult"), ("ElicitResult", "ElicitResult"), ("Result", "Result")];
pub fn mk_ServerResult(path: &[&str], v: &Value) -> Result<api::ServerResult, String> { Ok(match path[0] {
    "InputRequiredResult" => api::ServerResult::InputRequiredResult(j::<api::InputRequiredResult>(v)?),
    "DiscoverResult" => api::ServerResult::DiscoverResult(j::<api::DiscoverResult>(v)?),
    "ListResourcesResult" => api::ServerResult::ListResourcesResult(j::<api::ListResourcesResult>(v)?),
    "ListResourceTemplatesResult" => api::ServerResult::ListResourceTemplatesResult(j::<api::ListResourceTemplatesResult>(v)?),
    "ReadResourceResult" => api::ServerResult::ReadResourceResult(j::<api::ReadResourceResult>(v)?),
    "SubscriptionsListenResult" => api::ServerResult::SubscriptionsListenResult(j::<api::SubscriptionsListenResult>(v)?),
    "ListPromptsResult" => api::ServerResult::ListPromptsResult(j::<api::ListPromptsResult>(v)?),
    "GetPromptResult" => api::ServerResult::GetPromptResult(j::<api::GetPromptResult>(v)?),
    "ListToolsResult" => api::ServerResult::ListToolsResult(j::<api::ListToolsResult>(v)?),
    "CallToolResult" => api::ServerResult::CallToolResult(j::<api::CallToolResult>(v)?),
    "CompleteResult" => api::ServerResult::CompleteResult(j::<api::CompleteResult>(v)?),
    "Result" => api::ServerResult::Result(j::<api::Result>(v)?),
    x => return Err(format!("no variant {x}")),
  })}
pub const VARIANTS_SERVERRESULT: &[(&str, &str)] = &[("InputRequiredResult", "InputRequiredResult"), ("DiscoverResult", "DiscoverResult"), ("ListResourcesResult", "ListResourcesResult"), ("ListResourceTemplatesResult", "ListResourceTemplatesResult"), ("ReadResourceResult", "ReadResourceResult"), ("SubscriptionsListenResult", "SubscriptionsListenResult"), ("ListPromptsResult", "ListPromptsResult"), ("GetPromptResult", "GetPromptResult"), ("ListToolsResult", "ListToolsResult"), ("CallToolResult", "CallToolResult"), ("CompleteResult", "CompleteResult"), ("Result", "Result")];
pub fn mk_ClientRequest(path: &[&str], v: &Value) -> Result<api::ClientRequest, String> { Ok(match path[0] {
    "DiscoverRequest" => api::ClientRequest::DiscoverRequest(j::<api::DiscoverRequest>(v)?),
    "ListResourcesRequest" => api::ClientRequest::ListResourcesRequest(j::<api::ListResourcesRequest>(v)?),
    "ListResourceTemplatesRequest" => api::ClientRequest::ListResourceTemplatesRequest(j::<api::ListResourceTemplatesRequest>(v)?),
    "ReadResourceRequest" => api::ClientRequest::ReadResourceRequest(j::<api::ReadResourceRequest>(v)?),
    "SubscriptionsListenRequest" => api::ClientRequest::SubscriptionsListenRequest(j::<api::SubscriptionsListenRequest>(v)?),
    "ListPromptsRequest" => api::ClientRequest::ListPromptsRequest(j::<api::ListPromptsRequest>(v)?),
    "GetPromptRequest" => api::ClientRequest::GetPromptRequest(j::<api::GetPromptRequest>(v)?),
    "ListToolsRequest" => api::ClientRequest::ListToolsRequest(j::<api::ListToolsRequest>(v)?),
    "CallToolRequest" => api::ClientRequest::CallToolRequest(j::<api::CallToolRequest>(v)?),
    "CompleteRequest" => api::ClientRequest::CompleteRequest(j::<api::CompleteRequest>(v)?),
    x => return Err(format!("no variant {x}")),
  })}
pub const VARIANTS_CLIENTREQUEST: &[(&str, &str)] = &[("DiscoverRequest", "DiscoverRequest"), ("ListResourcesRequest", "ListResourcesRequest"), ("ListResourceTemplatesRequest", "ListResourceTemplatesRequest"), ("ReadResourceRequest", "ReadResourceRequest"), ("SubscriptionsListenRequest", "SubscriptionsListenRequest"), ("ListPromptsRequest", "ListPromptsRequest"), ("GetPromptRequest", "GetPromptRequest"), ("ListToolsRequest", "ListToolsRequest"), ("CallToolRequest", "CallToolRequest"), ("CompleteRequest", "CompleteRequest")];
pub fn mk_ServerNotification(path: &[&str], v: &Value) -> Result<api::ServerNotification, String> { Ok(match path[0] {
    "CancelledNotification" => api::ServerNotification::CancelledNotification(j::<api::CancelledNotification>(v)?),
    "ProgressNotification" => api::ServerNotification::ProgressNotification(j::<api::ProgressNotification>(v)?),
    "ResourceListChangedNotification" => api::ServerNotification::ResourceListChangedNotification(j::<api::ResourceListChangedNotification>(v)?),
    "SubscriptionsAcknowledgedNotification" => api::ServerNotification::SubscriptionsAcknowledgedNotification(j::<api::SubscriptionsAcknowledgedNotification>(v)?),
    "ResourceUpdatedNotification" => api::ServerNotification::ResourceUpdatedNotification(j::<api::ResourceUpdatedNotification>(v)?),
    "PromptListChangedNotification" => api::ServerNotification::PromptListChangedNotification(j::<api::PromptListChangedNotification>(v)?),
    "ToolListChangedNotification" => api::ServerNotification::ToolListChangedNotification(j::<api::ToolListChangedNotification>(v)?),
    "LoggingMessageNotification" => api::ServerNotification::LoggingMessageNotification(j::<api::LoggingMessageNotification>(v)?),
    x => return Err(format!("no variant {x}")),
  })}
pub const VARIANTS_SERVERNOTIFICATION: &[(&str, &str)] = &[("CancelledNotification", "CancelledNotification"), ("ProgressNotification", "ProgressNotification"), ("ResourceListChangedNotification", "ResourceListChangedNotification"), ("SubscriptionsAcknowledgedNotification", "SubscriptionsAcknowledgedNotification"), ("ResourceUpdatedNotification", "ResourceUpdatedNotification"), ("PromptListChangedNotification", "PromptListChangedNotification"), ("ToolListChangedNotification", "ToolListChangedNotification"), ("LoggingMessageNotification", "LoggingMessageNotification")];
pub fn mk_MessageFromClient(path: &[&str], v: &Value) -> Result<api::MessageFromClient, String> { Ok(match path[0] {
    "RequestFromClient" => api::MessageFromClient::RequestFromClient(mk_RequestFromClient(&path[1..], v)?),
    "ResultFromClient" => api::MessageFromClient::ResultFromClient(mk_ResultFromClient(&path[1..], v)?),
    "NotificationFromClient" => api::MessageFromClient::NotificationFromClient(mk_NotificationFromClient(&path[1..], v)?),
    "Error" => api::MessageFromClient::Error(j::<api::RpcError>(v)?),
    x => return Err(format!("no variant {x}")),
  })}
pub const VARIANTS_MESSAGEFROMCLIENT: &[(&str, &str)] = &[("RequestFromClient", "RequestFromClient"), ("ResultFromClient", "ResultFromClient"), ("NotificationFromClient", "NotificationFromClient"), ("Error", "RpcError")];
pub fn mk_MessageFromServer(path: &[&str], v: &Value) -> Result<api::MessageFromServer, String> { Ok(match path[0] {
    "RequestFromServer" => api::MessageFromServer::RequestFromServer(mk_RequestFromServer(&path[1..], v)?),
    "ServerResult" => api::MessageFromServer::ServerResult(mk_ServerResult(&path[1..], v)?),
    "NotificationFromServer" => api::MessageFromServer::NotificationFromServer(mk_NotificationFromServer(&path[1..], v)?),
    "Error" => api::MessageFromServer::Error(j::<api::RpcError>(v)?),
    x => return Err(format!("no variant {x}")),
  })}
pub const VARIANTS_MESSAGEFROMSERVER: &[(&str, &str)] = &[("RequestFromServer", "RequestFromServer"), ("ServerResult", "ServerResult"), ("NotificationFromServer", "NotificationFromServer"), ("Error", "RpcError")];
pub fn variants(e: &str) -> &'static [(&'static str, &'static str)] { match e { "RequestFromClient" => VARIANTS_REQUESTFROMCLIENT, "RequestFromServer" => VARIANTS_REQUESTFROMSERVER, "NotificationFromClient" => VARIANTS_NOTIFICATIONFROMCLIENT, "NotificationFromServer" => VARIANTS_NOTIFICATIONFROMSERVER, "ResultFromClient" => VARIANTS_RESULTFROMCLIENT, "ServerResult" => VARIANTS_SERVERRESULT, "ClientRequest" => VARIANTS_CLIENTREQUEST, "ServerNotification" => VARIANTS_SERVERNOTIFICATION, "MessageFromClient" => VARIANTS_MESSAGEFROMCLIENT, "MessageFromServer" => VARIANTS_MESSAGEFROMSERVER, _ => &[] } }
