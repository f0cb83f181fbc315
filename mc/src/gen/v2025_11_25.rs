// generated once by tools/gen_registry.py from the public API; edit the generator, not this file
#![allow(clippy::all, unused, deprecated)]
use crate::reg::*;
use serde_json::Value;
use rust_mcp_schema::mcp_2025_11_25 as root;
pub mod api { pub use super::root::*; pub use super::root::schema_utils::*; pub use rust_mcp_schema::{ProtocolVersion, ParseProtocolVersionError}; }
pub const VERSION: &str = "2025_11_25";
pub const MODEL: &str = include_str!("../../../model/2025_11_25.json");
pub fn registry() -> Reg { let mut r = Reg::default();
  // comparisons
  r.sames.push(crate::same_fn!("ElicitResultAction", api::ElicitResultAction));
  r.sames.push(crate::same_fn!("IconTheme", api::IconTheme));
  r.sames.push(crate::same_fn!("IncludeContext", api::IncludeContext));
  r.sames.push(crate::same_fn!("LoggingLevel", api::LoggingLevel));
  r.sames.push(crate::same_fn!("NumberSchemaType", api::NumberSchemaType));
  r.sames.push(crate::same_fn!("Role", api::Role));
  r.sames.push(crate::same_fn!("StringSchemaFormat", api::StringSchemaFormat));
  r.sames.push(crate::same_fn!("TaskStatus", api::TaskStatus));
  r.sames.push(crate::same_fn!("ToolChoiceMode", api::ToolChoiceMode));
  r.sames.push(crate::same_fn!("ToolExecutionTaskSupport", api::ToolExecutionTaskSupport));
  r.types.push(TypeOps{name:"Annotations", schema:true, rt: rt::<api::Annotations>, rts: rts::<api::Annotations>});
  r.types.push(TypeOps{name:"AudioContent", schema:true, rt: rt::<api::AudioContent>, rts: rts::<api::AudioContent>});
  r.types.push(TypeOps{name:"BaseMetadata", schema:true, rt: rt::<api::BaseMetadata>, rts: rts::<api::BaseMetadata>});
  r.types.push(TypeOps{name:"BlobResourceContents", schema:true, rt: rt::<api::BlobResourceContents>, rts: rts::<api::BlobResourceContents>});
  r.types.push(TypeOps{name:"BooleanSchema", schema:true, rt: rt::<api::BooleanSchema>, rts: rts::<api::BooleanSchema>});
  r.types.push(TypeOps{name:"CallToolMeta", schema:true, rt: rt::<api::CallToolMeta>, rts: rts::<api::CallToolMeta>});
  r.types.push(TypeOps{name:"CallToolRequest", schema:true, rt: rt::<api::CallToolRequest>, rts: rts::<api::CallToolRequest>});
  r.types.push(TypeOps{name:"CallToolRequestParams", schema:true, rt: rt::<api::CallToolRequestParams>, rts: rts::<api::CallToolRequestParams>});
  r.types.push(TypeOps{name:"CallToolResult", schema:true, rt: rt::<api::CallToolResult>, rts: rts::<api::CallToolResult>});
  r.types.push(TypeOps{name:"CancelTaskParams", schema:true, rt: rt::<api::CancelTaskParams>, rts: rts::<api::CancelTaskParams>});
  r.types.push(TypeOps{name:"CancelTaskRequest", schema:true, rt: rt::<api::CancelTaskRequest>, rts: rts::<api::CancelTaskRequest>});
  r.types.push(TypeOps{name:"CancelTaskResult", schema:true, rt: rt::<api::CancelTaskResult>, rts: rts::<api::CancelTaskResult>});
  r.types.push(TypeOps{name:"CancelledNotification", schema:true, rt: rt::<api::CancelledNotification>, rts: rts::<api::CancelledNotification>});
  r.types.push(TypeOps{name:"CancelledNotificationParams", schema:true, rt: rt::<api::CancelledNotificationParams>, rts: rts::<api::CancelledNotificationParams>});
  r.types.push(TypeOps{name:"ClientCapabilities", schema:true, rt: rt::<api::ClientCapabilities>, rts: rts::<api::ClientCapabilities>});
  r.types.push(TypeOps{name:"ClientElicitation", schema:true, rt: rt::<api::ClientElicitation>, rts: rts::<api::ClientElicitation>});
  r.types.push(TypeOps{name:"ClientJsonrpcNotification", schema:false, rt: rt::<api::ClientJsonrpcNotification>, rts: rts::<api::ClientJsonrpcNotification>});
  r.types.push(TypeOps{name:"ClientJsonrpcRequest", schema:false, rt: rt::<api::ClientJsonrpcRequest>, rts: rts::<api::ClientJsonrpcRequest>});
  r.types.push(TypeOps{name:"ClientJsonrpcResponse", schema:false, rt: rt::<api::ClientJsonrpcResponse>, rts: rts::<api::ClientJsonrpcResponse>});
  r.types.push(TypeOps{name:"ClientMessage", schema:false, rt: rt::<api::ClientMessage>, rts: rts::<api::ClientMessage>});
  r.types.push(TypeOps{name:"ClientMessages", schema:false, rt: rt::<api::ClientMessages>, rts: rts::<api::ClientMessages>});
  r.types.push(TypeOps{name:"ClientNotification", schema:true, rt: rt::<api::ClientNotification>, rts: rts::<api::ClientNotification>});
  r.types.push(TypeOps{name:"ClientRequest", schema:true, rt: rt::<api::ClientRequest>, rts: rts::<api::ClientRequest>});
  r.types.push(TypeOps{name:"ClientResult", schema:true, rt: rt::<api::ClientResult>, rts: rts::<api::ClientResult>});
  r.types.push(TypeOps{name:"ClientRoots", schema:true, rt: rt::<api::ClientRoots>, rts: rts::<api::ClientRoots>});
  r.types.push(TypeOps{name:"ClientSampling", schema:true, rt: rt::<api::ClientSampling>, rts: rts::<api::ClientSampling>});
  r.types.push(TypeOps{name:"ClientTaskElicitation", schema:true, rt: rt::<api::ClientTaskElicitation>, rts: rts::<api::ClientTaskElicitation>});
  r.types.push(TypeOps{name:"ClientTaskRequest", schema:true, rt: rt::<api::ClientTaskRequest>, rts: rts::<api::ClientTaskRequest>});
  r.types.push(TypeOps{name:"ClientTaskResult", schema:false, rt: rt::<api::ClientTaskResult>, rts: rts::<api::ClientTaskResult>});
  r.types.push(TypeOps{name:"ClientTaskSampling", schema:true, rt: rt::<api::ClientTaskSampling>, rts: rts::<api::ClientTaskSampling>});
  r.types.push(TypeOps{name:"ClientTasks", schema:true, rt: rt::<api::ClientTasks>, rts: rts::<api::ClientTasks>});
  r.types.push(TypeOps{name:"CompleteRequest", schema:true, rt: rt::<api::CompleteRequest>, rts: rts::<api::CompleteRequest>});
  r.types.push(TypeOps{name:"CompleteRequestArgument", schema:true, rt: rt::<api::CompleteRequestArgument>, rts: rts::<api::CompleteRequestArgument>});
  r.types.push(TypeOps{name:"CompleteRequestContext", schema:true, rt: rt::<api::CompleteRequestContext>, rts: rts::<api::CompleteRequestContext>});
  r.types.push(TypeOps{name:"CompleteRequestMeta", schema:true, rt: rt::<api::CompleteRequestMeta>, rts: rts::<api::CompleteRequestMeta>});
  r.types.push(TypeOps{name:"CompleteRequestParams", schema:true, rt: rt::<api::CompleteRequestParams>, rts: rts::<api::CompleteRequestParams>});
  r.types.push(TypeOps{name:"CompleteRequestRef", schema:true, rt: rt::<api::CompleteRequestRef>, rts: rts::<api::CompleteRequestRef>});
  r.types.push(TypeOps{name:"CompleteResult", schema:true, rt: rt::<api::CompleteResult>, rts: rts::<api::CompleteResult>});
  r.types.push(TypeOps{name:"CompleteResultCompletion", schema:true, rt: rt::<api::CompleteResultCompletion>, rts: rts::<api::CompleteResultCompletion>});
  r.types.push(TypeOps{name:"ContentBlock", schema:true, rt: rt::<api::ContentBlock>, rts: rts::<api::ContentBlock>});
  r.types.push(TypeOps{name:"CreateMessageContent", schema:true, rt: rt::<api::CreateMessageContent>, rts: rts::<api::CreateMessageContent>});
  r.types.push(TypeOps{name:"CreateMessageRequest", schema:true, rt: rt::<api::CreateMessageRequest>, rts: rts::<api::CreateMessageRequest>});
  r.types.push(TypeOps{name:"CreateMessageRequestParams", schema:true, rt: rt::<api::CreateMessageRequestParams>, rts: rts::<api::CreateMessageRequestParams>});
  r.types.push(TypeOps{name:"CreateMessageResult", schema:true, rt: rt::<api::CreateMessageResult>, rts: rts::<api::CreateMessageResult>});
  r.types.push(TypeOps{name:"CreateTaskResult", schema:true, rt: rt::<api::CreateTaskResult>, rts: rts::<api::CreateTaskResult>});
  r.types.push(TypeOps{name:"Cursor", schema:true, rt: rt::<api::Cursor>, rts: rts::<api::Cursor>});
  r.types.push(TypeOps{name:"CustomRequest", schema:false, rt: rt::<api::CustomRequest>, rts: rts::<api::CustomRequest>});
  r.types.push(TypeOps{name:"ElicitCompleteParams", schema:true, rt: rt::<api::ElicitCompleteParams>, rts: rts::<api::ElicitCompleteParams>});
  r.types.push(TypeOps{name:"ElicitFormMeta", schema:true, rt: rt::<api::ElicitFormMeta>, rts: rts::<api::ElicitFormMeta>});
  r.types.push(TypeOps{name:"ElicitFormSchema", schema:true, rt: rt::<api::ElicitFormSchema>, rts: rts::<api::ElicitFormSchema>});
  r.types.push(TypeOps{name:"ElicitRequest", schema:true, rt: rt::<api::ElicitRequest>, rts: rts::<api::ElicitRequest>});
  r.types.push(TypeOps{name:"ElicitRequestFormParams", schema:true, rt: rt::<api::ElicitRequestFormParams>, rts: rts::<api::ElicitRequestFormParams>});
  r.types.push(TypeOps{name:"ElicitRequestParams", schema:true, rt: rt::<api::ElicitRequestParams>, rts: rts::<api::ElicitRequestParams>});
  r.types.push(TypeOps{name:"ElicitRequestUrlParams", schema:true, rt: rt::<api::ElicitRequestUrlParams>, rts: rts::<api::ElicitRequestUrlParams>});
  r.types.push(TypeOps{name:"ElicitResult", schema:true, rt: rt::<api::ElicitResult>, rts: rts::<api::ElicitResult>});
  r.types.push(TypeOps{name:"ElicitResultAction", schema:true, rt: rt::<api::ElicitResultAction>, rts: rts::<api::ElicitResultAction>});
  r.types.push(TypeOps{name:"ElicitResultContent", schema:true, rt: rt::<api::ElicitResultContent>, rts: rts::<api::ElicitResultContent>});
  r.types.push(TypeOps{name:"ElicitResultContentPrimitive", schema:true, rt: rt::<api::ElicitResultContentPrimitive>, rts: rts::<api::ElicitResultContentPrimitive>});
  r.types.push(TypeOps{name:"ElicitUrlMeta", schema:true, rt: rt::<api::ElicitUrlMeta>, rts: rts::<api::ElicitUrlMeta>});
  r.types.push(TypeOps{name:"ElicitationCompleteNotification", schema:true, rt: rt::<api::ElicitationCompleteNotification>, rts: rts::<api::ElicitationCompleteNotification>});
  r.types.push(TypeOps{name:"EmbeddedResource", schema:true, rt: rt::<api::EmbeddedResource>, rts: rts::<api::EmbeddedResource>});
  r.types.push(TypeOps{name:"EmbeddedResourceResource", schema:true, rt: rt::<api::EmbeddedResourceResource>, rts: rts::<api::EmbeddedResourceResource>});
  r.types.push(TypeOps{name:"EmptyResult", schema:true, rt: rt::<api::EmptyResult>, rts: rts::<api::EmptyResult>});
  r.types.push(TypeOps{name:"EnumSchema", schema:true, rt: rt::<api::EnumSchema>, rts: rts::<api::EnumSchema>});
  r.types.push(TypeOps{name:"GetPromptMeta", schema:true, rt: rt::<api::GetPromptMeta>, rts: rts::<api::GetPromptMeta>});
  r.types.push(TypeOps{name:"GetPromptRequest", schema:true, rt: rt::<api::GetPromptRequest>, rts: rts::<api::GetPromptRequest>});
  r.types.push(TypeOps{name:"GetPromptRequestParams", schema:true, rt: rt::<api::GetPromptRequestParams>, rts: rts::<api::GetPromptRequestParams>});
  r.types.push(TypeOps{name:"GetPromptResult", schema:true, rt: rt::<api::GetPromptResult>, rts: rts::<api::GetPromptResult>});
  r.types.push(TypeOps{name:"GetTaskParams", schema:true, rt: rt::<api::GetTaskParams>, rts: rts::<api::GetTaskParams>});
  r.types.push(TypeOps{name:"GetTaskPayloadParams", schema:true, rt: rt::<api::GetTaskPayloadParams>, rts: rts::<api::GetTaskPayloadParams>});
  r.types.push(TypeOps{name:"GetTaskPayloadRequest", schema:true, rt: rt::<api::GetTaskPayloadRequest>, rts: rts::<api::GetTaskPayloadRequest>});
  r.types.push(TypeOps{name:"GetTaskPayloadResult", schema:true, rt: rt::<api::GetTaskPayloadResult>, rts: rts::<api::GetTaskPayloadResult>});
  r.types.push(TypeOps{name:"GetTaskRequest", schema:true, rt: rt::<api::GetTaskRequest>, rts: rts::<api::GetTaskRequest>});
  r.types.push(TypeOps{name:"GetTaskResult", schema:true, rt: rt::<api::GetTaskResult>, rts: rts::<api::GetTaskResult>});
  r.types.push(TypeOps{name:"Icon", schema:true, rt: rt::<api::Icon>, rts: rts::<api::Icon>});
  r.types.push(TypeOps{name:"IconTheme", schema:true, rt: rt::<api::IconTheme>, rts: rts::<api::IconTheme>});
  r.types.push(TypeOps{name:"Icons", schema:true, rt: rt::<api::Icons>, rts: rts::<api::Icons>});
  r.types.push(TypeOps{name:"ImageContent", schema:true, rt: rt::<api::ImageContent>, rts: rts::<api::ImageContent>});
  r.types.push(TypeOps{name:"Implementation", schema:true, rt: rt::<api::Implementation>, rts: rts::<api::Implementation>});
  r.types.push(TypeOps{name:"IncludeContext", schema:true, rt: rt::<api::IncludeContext>, rts: rts::<api::IncludeContext>});
  r.types.push(TypeOps{name:"InitializeMeta", schema:true, rt: rt::<api::InitializeMeta>, rts: rts::<api::InitializeMeta>});
  r.types.push(TypeOps{name:"InitializeRequest", schema:true, rt: rt::<api::InitializeRequest>, rts: rts::<api::InitializeRequest>});
  r.types.push(TypeOps{name:"InitializeRequestParams", schema:true, rt: rt::<api::InitializeRequestParams>, rts: rts::<api::InitializeRequestParams>});
  r.types.push(TypeOps{name:"InitializeResult", schema:true, rt: rt::<api::InitializeResult>, rts: rts::<api::InitializeResult>});
  r.types.push(TypeOps{name:"InitializedNotification", schema:true, rt: rt::<api::InitializedNotification>, rts: rts::<api::InitializedNotification>});
  r.types.push(TypeOps{name:"JsonrpcErrorResponse", schema:true, rt: rt::<api::JsonrpcErrorResponse>, rts: rts::<api::JsonrpcErrorResponse>});
  r.types.push(TypeOps{name:"JsonrpcMessage", schema:true, rt: rt::<api::JsonrpcMessage>, rts: rts::<api::JsonrpcMessage>});
  r.types.push(TypeOps{name:"JsonrpcNotification", schema:true, rt: rt::<api::JsonrpcNotification>, rts: rts::<api::JsonrpcNotification>});
  r.types.push(TypeOps{name:"JsonrpcRequest", schema:true, rt: rt::<api::JsonrpcRequest>, rts: rts::<api::JsonrpcRequest>});
  r.types.push(TypeOps{name:"JsonrpcResponse", schema:true, rt: rt::<api::JsonrpcResponse>, rts: rts::<api::JsonrpcResponse>});
  r.types.push(TypeOps{name:"JsonrpcResultResponse", schema:true, rt: rt::<api::JsonrpcResultResponse>, rts: rts::<api::JsonrpcResultResponse>});
  r.types.push(TypeOps{name:"LegacyTitledEnumSchema", schema:true, rt: rt::<api::LegacyTitledEnumSchema>, rts: rts::<api::LegacyTitledEnumSchema>});
  r.types.push(TypeOps{name:"ListPromptsRequest", schema:true, rt: rt::<api::ListPromptsRequest>, rts: rts::<api::ListPromptsRequest>});
  r.types.push(TypeOps{name:"ListPromptsResult", schema:true, rt: rt::<api::ListPromptsResult>, rts: rts::<api::ListPromptsResult>});
  r.types.push(TypeOps{name:"ListResourceTemplatesRequest", schema:true, rt: rt::<api::ListResourceTemplatesRequest>, rts: rts::<api::ListResourceTemplatesRequest>});
  r.types.push(TypeOps{name:"ListResourceTemplatesResult", schema:true, rt: rt::<api::ListResourceTemplatesResult>, rts: rts::<api::ListResourceTemplatesResult>});
  r.types.push(TypeOps{name:"ListResourcesRequest", schema:true, rt: rt::<api::ListResourcesRequest>, rts: rts::<api::ListResourcesRequest>});
  r.types.push(TypeOps{name:"ListResourcesResult", schema:true, rt: rt::<api::ListResourcesResult>, rts: rts::<api::ListResourcesResult>});
  r.types.push(TypeOps{name:"ListRootsRequest", schema:true, rt: rt::<api::ListRootsRequest>, rts: rts::<api::ListRootsRequest>});
  r.types.push(TypeOps{name:"ListRootsResult", schema:true, rt: rt::<api::ListRootsResult>, rts: rts::<api::ListRootsResult>});
  r.types.push(TypeOps{name:"ListTasksRequest", schema:true, rt: rt::<api::ListTasksRequest>, rts: rts::<api::ListTasksRequest>});
  r.types.push(TypeOps{name:"ListTasksResult", schema:true, rt: rt::<api::ListTasksResult>, rts: rts::<api::ListTasksResult>});
  r.types.push(TypeOps{name:"ListToolsRequest", schema:true, rt: rt::<api::ListToolsRequest>, rts: rts::<api::ListToolsRequest>});
  r.types.push(TypeOps{name:"ListToolsResult", schema:true, rt: rt::<api::ListToolsResult>, rts: rts::<api::ListToolsResult>});
  r.types.push(TypeOps{name:"LoggingLevel", schema:true, rt: rt::<api::LoggingLevel>, rts: rts::<api::LoggingLevel>});
  r.types.push(TypeOps{name:"LoggingMessageNotification", schema:true, rt: rt::<api::LoggingMessageNotification>, rts: rts::<api::LoggingMessageNotification>});
  r.types.push(TypeOps{name:"LoggingMessageNotificationParams", schema:true, rt: rt::<api::LoggingMessageNotificationParams>, rts: rts::<api::LoggingMessageNotificationParams>});
  r.types.push(TypeOps{name:"MessageFromClient", schema:false, rt: rt::<api::MessageFromClient>, rts: rts::<api::MessageFromClient>});
  r.types.push(TypeOps{name:"MessageFromServer", schema:false, rt: rt::<api::MessageFromServer>, rts: rts::<api::MessageFromServer>});
  r.types.push(TypeOps{name:"MessageMeta", schema:true, rt: rt::<api::MessageMeta>, rts: rts::<api::MessageMeta>});
  r.types.push(TypeOps{name:"MessagesFromClient", schema:false, rt: rt::<api::MessagesFromClient>, rts: rts::<api::MessagesFromClient>});
  r.types.push(TypeOps{name:"MessagesFromServer", schema:false, rt: rt::<api::MessagesFromServer>, rts: rts::<api::MessagesFromServer>});
  r.types.push(TypeOps{name:"ModelHint", schema:true, rt: rt::<api::ModelHint>, rts: rts::<api::ModelHint>});
  r.types.push(TypeOps{name:"ModelPreferences", schema:true, rt: rt::<api::ModelPreferences>, rts: rts::<api::ModelPreferences>});
  r.types.push(TypeOps{name:"MultiSelectEnumSchema", schema:true, rt: rt::<api::MultiSelectEnumSchema>, rts: rts::<api::MultiSelectEnumSchema>});
  r.types.push(TypeOps{name:"Notification", schema:true, rt: rt::<api::Notification>, rts: rts::<api::Notification>});
  r.types.push(TypeOps{name:"NotificationFromClient", schema:false, rt: rt::<api::NotificationFromClient>, rts: rts::<api::NotificationFromClient>});
  r.types.push(TypeOps{name:"NotificationFromServer", schema:false, rt: rt::<api::NotificationFromServer>, rts: rts::<api::NotificationFromServer>});
  r.types.push(TypeOps{name:"NotificationParams", schema:true, rt: rt::<api::NotificationParams>, rts: rts::<api::NotificationParams>});
  r.types.push(TypeOps{name:"NumberSchema", schema:true, rt: rt::<api::NumberSchema>, rts: rts::<api::NumberSchema>});
  r.types.push(TypeOps{name:"NumberSchemaType", schema:true, rt: rt::<api::NumberSchemaType>, rts: rts::<api::NumberSchemaType>});
  r.types.push(TypeOps{name:"PaginatedMeta", schema:true, rt: rt::<api::PaginatedMeta>, rts: rts::<api::PaginatedMeta>});
  r.types.push(TypeOps{name:"PaginatedRequest", schema:true, rt: rt::<api::PaginatedRequest>, rts: rts::<api::PaginatedRequest>});
  r.types.push(TypeOps{name:"PaginatedRequestParams", schema:true, rt: rt::<api::PaginatedRequestParams>, rts: rts::<api::PaginatedRequestParams>});
  r.types.push(TypeOps{name:"PaginatedResult", schema:true, rt: rt::<api::PaginatedResult>, rts: rts::<api::PaginatedResult>});
  r.types.push(TypeOps{name:"PingRequest", schema:true, rt: rt::<api::PingRequest>, rts: rts::<api::PingRequest>});
  r.types.push(TypeOps{name:"PrimitiveSchemaDefinition", schema:true, rt: rt::<api::PrimitiveSchemaDefinition>, rts: rts::<api::PrimitiveSchemaDefinition>});
  r.types.push(TypeOps{name:"ProgressNotification", schema:true, rt: rt::<api::ProgressNotification>, rts: rts::<api::ProgressNotification>});
  r.types.push(TypeOps{name:"ProgressNotificationParams", schema:true, rt: rt::<api::ProgressNotificationParams>, rts: rts::<api::ProgressNotificationParams>});
  r.types.push(TypeOps{name:"ProgressToken", schema:true, rt: rt::<api::ProgressToken>, rts: rts::<api::ProgressToken>});
  r.types.push(TypeOps{name:"Prompt", schema:true, rt: rt::<api::Prompt>, rts: rts::<api::Prompt>});
  r.types.push(TypeOps{name:"PromptArgument", schema:true, rt: rt::<api::PromptArgument>, rts: rts::<api::PromptArgument>});
  r.types.push(TypeOps{name:"PromptListChangedNotification", schema:true, rt: rt::<api::PromptListChangedNotification>, rts: rts::<api::PromptListChangedNotification>});
  r.types.push(TypeOps{name:"PromptMessage", schema:true, rt: rt::<api::PromptMessage>, rts: rts::<api::PromptMessage>});
  r.types.push(TypeOps{name:"PromptReference", schema:true, rt: rt::<api::PromptReference>, rts: rts::<api::PromptReference>});
  r.types.push(TypeOps{name:"ReadResourceContent", schema:true, rt: rt::<api::ReadResourceContent>, rts: rts::<api::ReadResourceContent>});
  r.types.push(TypeOps{name:"ReadResourceMeta", schema:true, rt: rt::<api::ReadResourceMeta>, rts: rts::<api::ReadResourceMeta>});
  r.types.push(TypeOps{name:"ReadResourceRequest", schema:true, rt: rt::<api::ReadResourceRequest>, rts: rts::<api::ReadResourceRequest>});
  r.types.push(TypeOps{name:"ReadResourceRequestParams", schema:true, rt: rt::<api::ReadResourceRequestParams>, rts: rts::<api::ReadResourceRequestParams>});
  r.types.push(TypeOps{name:"ReadResourceResult", schema:true, rt: rt::<api::ReadResourceResult>, rts: rts::<api::ReadResourceResult>});
  r.types.push(TypeOps{name:"RelatedTaskMetadata", schema:true, rt: rt::<api::RelatedTaskMetadata>, rts: rts::<api::RelatedTaskMetadata>});
  r.types.push(TypeOps{name:"Request", schema:true, rt: rt::<api::Request>, rts: rts::<api::Request>});
  r.types.push(TypeOps{name:"RequestFromClient", schema:false, rt: rt::<api::RequestFromClient>, rts: rts::<api::RequestFromClient>});
  r.types.push(TypeOps{name:"RequestFromServer", schema:false, rt: rt::<api::RequestFromServer>, rts: rts::<api::RequestFromServer>});
  r.types.push(TypeOps{name:"RequestId", schema:true, rt: rt::<api::RequestId>, rts: rts::<api::RequestId>});
  r.types.push(TypeOps{name:"RequestParams", schema:true, rt: rt::<api::RequestParams>, rts: rts::<api::RequestParams>});
  r.types.push(TypeOps{name:"RequestParamsMeta", schema:true, rt: rt::<api::RequestParamsMeta>, rts: rts::<api::RequestParamsMeta>});
  r.types.push(TypeOps{name:"Resource", schema:true, rt: rt::<api::Resource>, rts: rts::<api::Resource>});
  r.types.push(TypeOps{name:"ResourceContents", schema:true, rt: rt::<api::ResourceContents>, rts: rts::<api::ResourceContents>});
  r.types.push(TypeOps{name:"ResourceLink", schema:true, rt: rt::<api::ResourceLink>, rts: rts::<api::ResourceLink>});
  r.types.push(TypeOps{name:"ResourceListChangedNotification", schema:true, rt: rt::<api::ResourceListChangedNotification>, rts: rts::<api::ResourceListChangedNotification>});
  r.types.push(TypeOps{name:"ResourceMeta", schema:true, rt: rt::<api::ResourceMeta>, rts: rts::<api::ResourceMeta>});
  r.types.push(TypeOps{name:"ResourceRequestParams", schema:true, rt: rt::<api::ResourceRequestParams>, rts: rts::<api::ResourceRequestParams>});
  r.types.push(TypeOps{name:"ResourceTemplate", schema:true, rt: rt::<api::ResourceTemplate>, rts: rts::<api::ResourceTemplate>});
  r.types.push(TypeOps{name:"ResourceTemplateReference", schema:true, rt: rt::<api::ResourceTemplateReference>, rts: rts::<api::ResourceTemplateReference>});
  r.types.push(TypeOps{name:"ResourceUpdatedNotification", schema:true, rt: rt::<api::ResourceUpdatedNotification>, rts: rts::<api::ResourceUpdatedNotification>});
  r.types.push(TypeOps{name:"ResourceUpdatedNotificationParams", schema:true, rt: rt::<api::ResourceUpdatedNotificationParams>, rts: rts::<api::ResourceUpdatedNotificationParams>});
  r.types.push(TypeOps{name:"Result", schema:true, rt: rt::<api::Result>, rts: rts::<api::Result>});
  r.types.push(TypeOps{name:"ResultFromClient", schema:false, rt: rt::<api::ResultFromClient>, rts: rts::<api::ResultFromClient>});
  r.types.push(TypeOps{name:"ResultFromServer", schema:false, rt: rt::<api::ResultFromServer>, rts: rts::<api::ResultFromServer>});
  r.types.push(TypeOps{name:"Role", schema:true, rt: rt::<api::Role>, rts: rts::<api::Role>});
  r.types.push(TypeOps{name:"Root", schema:true, rt: rt::<api::Root>, rts: rts::<api::Root>});
  r.types.push(TypeOps{name:"RootsListChangedNotification", schema:true, rt: rt::<api::RootsListChangedNotification>, rts: rts::<api::RootsListChangedNotification>});
  r.types.push(TypeOps{name:"RpcError", schema:true, rt: rt::<api::RpcError>, rts: rts::<api::RpcError>});
  r.types.push(TypeOps{name:"SamplingMessage", schema:true, rt: rt::<api::SamplingMessage>, rts: rts::<api::SamplingMessage>});
  r.types.push(TypeOps{name:"SamplingMessageContent", schema:true, rt: rt::<api::SamplingMessageContent>, rts: rts::<api::SamplingMessageContent>});
  r.types.push(TypeOps{name:"SamplingMessageContentBlock", schema:true, rt: rt::<api::SamplingMessageContentBlock>, rts: rts::<api::SamplingMessageContentBlock>});
  r.types.push(TypeOps{name:"SdkError", schema:false, rt: rt::<api::SdkError>, rts: rts::<api::SdkError>});
  r.types.push(TypeOps{name:"ServerCapabilities", schema:true, rt: rt::<api::ServerCapabilities>, rts: rts::<api::ServerCapabilities>});
  r.types.push(TypeOps{name:"ServerCapabilitiesPrompts", schema:true, rt: rt::<api::ServerCapabilitiesPrompts>, rts: rts::<api::ServerCapabilitiesPrompts>});
  r.types.push(TypeOps{name:"ServerCapabilitiesResources", schema:true, rt: rt::<api::ServerCapabilitiesResources>, rts: rts::<api::ServerCapabilitiesResources>});
  r.types.push(TypeOps{name:"ServerCapabilitiesTools", schema:true, rt: rt::<api::ServerCapabilitiesTools>, rts: rts::<api::ServerCapabilitiesTools>});
  r.types.push(TypeOps{name:"ServerJsonrpcNotification", schema:false, rt: rt::<api::ServerJsonrpcNotification>, rts: rts::<api::ServerJsonrpcNotification>});
  r.types.push(TypeOps{name:"ServerJsonrpcRequest", schema:false, rt: rt::<api::ServerJsonrpcRequest>, rts: rts::<api::ServerJsonrpcRequest>});
  r.types.push(TypeOps{name:"ServerJsonrpcResponse", schema:false, rt: rt::<api::ServerJsonrpcResponse>, rts: rts::<api::ServerJsonrpcResponse>});
  r.types.push(TypeOps{name:"ServerMessage", schema:false, rt: rt::<api::ServerMessage>, rts: rts::<api::ServerMessage>});
  r.types.push(TypeOps{name:"ServerMessages", schema:false, rt: rt::<api::ServerMessages>, rts: rts::<api::ServerMessages>});
  r.types.push(TypeOps{name:"ServerNotification", schema:true, rt: rt::<api::ServerNotification>, rts: rts::<api::ServerNotification>});
  r.types.push(TypeOps{name:"ServerRequest", schema:true, rt: rt::<api::ServerRequest>, rts: rts::<api::ServerRequest>});
  r.types.push(TypeOps{name:"ServerResult", schema:true, rt: rt::<api::ServerResult>, rts: rts::<api::ServerResult>});
  r.types.push(TypeOps{name:"ServerTaskRequest", schema:true, rt: rt::<api::ServerTaskRequest>, rts: rts::<api::ServerTaskRequest>});
  r.types.push(TypeOps{name:"ServerTaskTools", schema:true, rt: rt::<api::ServerTaskTools>, rts: rts::<api::ServerTaskTools>});
  r.types.push(TypeOps{name:"ServerTasks", schema:true, rt: rt::<api::ServerTasks>, rts: rts::<api::ServerTasks>});
  r.types.push(TypeOps{name:"SetLevelMeta", schema:true, rt: rt::<api::SetLevelMeta>, rts: rts::<api::SetLevelMeta>});
  r.types.push(TypeOps{name:"SetLevelRequest", schema:true, rt: rt::<api::SetLevelRequest>, rts: rts::<api::SetLevelRequest>});
  r.types.push(TypeOps{name:"SetLevelRequestParams", schema:true, rt: rt::<api::SetLevelRequestParams>, rts: rts::<api::SetLevelRequestParams>});
  r.types.push(TypeOps{name:"SingleSelectEnumSchema", schema:true, rt: rt::<api::SingleSelectEnumSchema>, rts: rts::<api::SingleSelectEnumSchema>});
  r.types.push(TypeOps{name:"StringSchema", schema:true, rt: rt::<api::StringSchema>, rts: rts::<api::StringSchema>});
  r.types.push(TypeOps{name:"StringSchemaFormat", schema:true, rt: rt::<api::StringSchemaFormat>, rts: rts::<api::StringSchemaFormat>});
  r.types.push(TypeOps{name:"SubscribeMeta", schema:true, rt: rt::<api::SubscribeMeta>, rts: rts::<api::SubscribeMeta>});
  r.types.push(TypeOps{name:"SubscribeRequest", schema:true, rt: rt::<api::SubscribeRequest>, rts: rts::<api::SubscribeRequest>});
  r.types.push(TypeOps{name:"SubscribeRequestParams", schema:true, rt: rt::<api::SubscribeRequestParams>, rts: rts::<api::SubscribeRequestParams>});
  r.types.push(TypeOps{name:"Task", schema:true, rt: rt::<api::Task>, rts: rts::<api::Task>});
  r.types.push(TypeOps{name:"TaskAugmentedMeta", schema:true, rt: rt::<api::TaskAugmentedMeta>, rts: rts::<api::TaskAugmentedMeta>});
  r.types.push(TypeOps{name:"TaskAugmentedRequestParams", schema:true, rt: rt::<api::TaskAugmentedRequestParams>, rts: rts::<api::TaskAugmentedRequestParams>});
  r.types.push(TypeOps{name:"TaskMetadata", schema:true, rt: rt::<api::TaskMetadata>, rts: rts::<api::TaskMetadata>});
  r.types.push(TypeOps{name:"TaskStatus", schema:true, rt: rt::<api::TaskStatus>, rts: rts::<api::TaskStatus>});
  r.types.push(TypeOps{name:"TaskStatusNotification", schema:true, rt: rt::<api::TaskStatusNotification>, rts: rts::<api::TaskStatusNotification>});
  r.types.push(TypeOps{name:"TaskStatusNotificationParams", schema:true, rt: rt::<api::TaskStatusNotificationParams>, rts: rts::<api::TaskStatusNotificationParams>});
  r.types.push(TypeOps{name:"TextContent", schema:true, rt: rt::<api::TextContent>, rts: rts::<api::TextContent>});
  r.types.push(TypeOps{name:"TextResourceContents", schema:true, rt: rt::<api::TextResourceContents>, rts: rts::<api::TextResourceContents>});
  r.types.push(TypeOps{name:"TitledMultiSelectEnumSchema", schema:true, rt: rt::<api::TitledMultiSelectEnumSchema>, rts: rts::<api::TitledMultiSelectEnumSchema>});
  r.types.push(TypeOps{name:"TitledMultiSelectEnumSchemaItems", schema:true, rt: rt::<api::TitledMultiSelectEnumSchemaItems>, rts: rts::<api::TitledMultiSelectEnumSchemaItems>});
  r.types.push(TypeOps{name:"TitledMultiSelectEnumSchemaItemsAnyOfItem", schema:true, rt: rt::<api::TitledMultiSelectEnumSchemaItemsAnyOfItem>, rts: rts::<api::TitledMultiSelectEnumSchemaItemsAnyOfItem>});
  r.types.push(TypeOps{name:"TitledSingleSelectEnumSchema", schema:true, rt: rt::<api::TitledSingleSelectEnumSchema>, rts: rts::<api::TitledSingleSelectEnumSchema>});
  r.types.push(TypeOps{name:"TitledSingleSelectEnumSchemaOneOfItem", schema:true, rt: rt::<api::TitledSingleSelectEnumSchemaOneOfItem>, rts: rts::<api::TitledSingleSelectEnumSchemaOneOfItem>});
  r.types.push(TypeOps{name:"Tool", schema:true, rt: rt::<api::Tool>, rts: rts::<api::Tool>});
  r.types.push(TypeOps{name:"ToolAnnotations", schema:true, rt: rt::<api::ToolAnnotations>, rts: rts::<api::ToolAnnotations>});
  r.types.push(TypeOps{name:"ToolChoice", schema:true, rt: rt::<api::ToolChoice>, rts: rts::<api::ToolChoice>});
  r.types.push(TypeOps{name:"ToolChoiceMode", schema:true, rt: rt::<api::ToolChoiceMode>, rts: rts::<api::ToolChoiceMode>});
  r.types.push(TypeOps{name:"ToolExecution", schema:true, rt: rt::<api::ToolExecution>, rts: rts::<api::ToolExecution>});
  r.types.push(TypeOps{name:"ToolExecutionTaskSupport", schema:true, rt: rt::<api::ToolExecutionTaskSupport>, rts: rts::<api::ToolExecutionTaskSupport>});
  r.types.push(TypeOps{name:"ToolInputSchema", schema:true, rt: rt::<api::ToolInputSchema>, rts: rts::<api::ToolInputSchema>});
  r.types.push(TypeOps{name:"ToolListChangedNotification", schema:true, rt: rt::<api::ToolListChangedNotification>, rts: rts::<api::ToolListChangedNotification>});
  r.types.push(TypeOps{name:"ToolOutputSchema", schema:true, rt: rt::<api::ToolOutputSchema>, rts: rts::<api::ToolOutputSchema>});
  r.types.push(TypeOps{name:"ToolResultContent", schema:true, rt: rt::<api::ToolResultContent>, rts: rts::<api::ToolResultContent>});
  r.types.push(TypeOps{name:"ToolUseContent", schema:true, rt: rt::<api::ToolUseContent>, rts: rts::<api::ToolUseContent>});
  r.types.push(TypeOps{name:"UnsubscribeMeta", schema:true, rt: rt::<api::UnsubscribeMeta>, rts: rts::<api::UnsubscribeMeta>});
  r.types.push(TypeOps{name:"UnsubscribeRequest", schema:true, rt: rt::<api::UnsubscribeRequest>, rts: rts::<api::UnsubscribeRequest>});
  r.types.push(TypeOps{name:"UnsubscribeRequestParams", schema:true, rt: rt::<api::UnsubscribeRequestParams>, rts: rts::<api::UnsubscribeRequestParams>});
  r.types.push(TypeOps{name:"UntitledMultiSelectEnumSchema", schema:true, rt: rt::<api::UntitledMultiSelectEnumSchema>, rts: rts::<api::UntitledMultiSelectEnumSchema>});
  r.types.push(TypeOps{name:"UntitledMultiSelectEnumSchemaItems", schema:true, rt: rt::<api::UntitledMultiSelectEnumSchemaItems>, rts: rts::<api::UntitledMultiSelectEnumSchemaItems>});
  r.types.push(TypeOps{name:"UntitledSingleSelectEnumSchema", schema:true, rt: rt::<api::UntitledSingleSelectEnumSchema>, rts: rts::<api::UntitledSingleSelectEnumSchema>});
  r.types.push(TypeOps{name:"UrlElicitError", schema:true, rt: rt::<api::UrlElicitError>, rts: rts::<api::UrlElicitError>});
  r.types.push(TypeOps{name:"UrlElicitErrorData", schema:true, rt: rt::<api::UrlElicitErrorData>, rts: rts::<api::UrlElicitErrorData>});
  r.types.push(TypeOps{name:"UrlElicitationRequiredError", schema:true, rt: rt::<api::UrlElicitationRequiredError>, rts: rts::<api::UrlElicitationRequiredError>});
  r.ctors.push(Ctor{ty:"AudioContent", args:&["data","mime_type","annotations","meta"], f: |a| out(api::AudioContent::new(j::<String>(&a[0])?, j::<String>(&a[1])?, j(&a[2])?, j(&a[3])?))});
  r.ctors.push(Ctor{ty:"BlobResourceContents", args:&["base64_text","uri"], f: |a| out(api::BlobResourceContents::new(j::<String>(&a[0])?, j::<String>(&a[1])?))});
  r.ctors.push(Ctor{ty:"BooleanSchema", args:&["default","description","title"], f: |a| out(api::BooleanSchema::new(j(&a[0])?, j(&a[1])?, j(&a[2])?))});
  r.ctors.push(Ctor{ty:"CallToolRequest", args:&["id","params"], f: |a| out(api::CallToolRequest::new(j(&a[0])?, j(&a[1])?))});
  r.ctors.push(Ctor{ty:"CallToolRequestParams", args:&["tool_name"], f: |a| out(api::CallToolRequestParams::new(j::<String>(&a[0])?))});
  r.ctors.push(Ctor{ty:"CancelTaskRequest", args:&["id","params"], f: |a| out(api::CancelTaskRequest::new(j(&a[0])?, j(&a[1])?))});
  r.ctors.push(Ctor{ty:"CancelledNotification", args:&["params"], f: |a| out(api::CancelledNotification::new(j(&a[0])?))});
  r.ctors.push(Ctor{ty:"ClientJsonrpcNotification", args:&["notification"], f: |a| out(api::ClientJsonrpcNotification::new(j(&a[0])?))});
  r.ctors.push(Ctor{ty:"ClientJsonrpcRequest", args:&["id","request"], f: |a| out(api::ClientJsonrpcRequest::new(j(&a[0])?, j(&a[1])?))});
  r.ctors.push(Ctor{ty:"ClientJsonrpcResponse", args:&["id","result"], f: |a| out(api::ClientJsonrpcResponse::new(j(&a[0])?, j(&a[1])?))});
  r.ctors.push(Ctor{ty:"CompleteRequest", args:&["id","params"], f: |a| out(api::CompleteRequest::new(j(&a[0])?, j(&a[1])?))});
  r.ctors.push(Ctor{ty:"CreateMessageRequest", args:&["id","params"], f: |a| out(api::CreateMessageRequest::new(j(&a[0])?, j(&a[1])?))});
  r.ctors.push(Ctor{ty:"ElicitFormSchema", args:&["properties","required","schema"], f: |a| out(api::ElicitFormSchema::new(j(&a[0])?, j(&a[1])?, j(&a[2])?))});
  r.ctors.push(Ctor{ty:"ElicitRequest", args:&["id","params"], f: |a| out(api::ElicitRequest::new(j(&a[0])?, j(&a[1])?))});
  r.ctors.push(Ctor{ty:"ElicitRequestFormParams", args:&["message","requested_schema","meta","task"], f: |a| out(api::ElicitRequestFormParams::new(j::<String>(&a[0])?, j(&a[1])?, j(&a[2])?, j(&a[3])?))});
  r.ctors.push(Ctor{ty:"ElicitRequestUrlParams", args:&["elicitation_id","message","url","meta","task"], f: |a| out(api::ElicitRequestUrlParams::new(j::<String>(&a[0])?, j::<String>(&a[1])?, j::<String>(&a[2])?, j(&a[3])?, j(&a[4])?))});
  r.ctors.push(Ctor{ty:"ElicitationCompleteNotification", args:&["params"], f: |a| out(api::ElicitationCompleteNotification::new(j(&a[0])?))});
  r.ctors.push(Ctor{ty:"EmbeddedResource", args:&["resource","annotations","meta"], f: |a| out(api::EmbeddedResource::new(j(&a[0])?, j(&a[1])?, j(&a[2])?))});
  r.ctors.push(Ctor{ty:"GetPromptRequest", args:&["id","params"], f: |a| out(api::GetPromptRequest::new(j(&a[0])?, j(&a[1])?))});
  r.ctors.push(Ctor{ty:"GetTaskPayloadRequest", args:&["id","params"], f: |a| out(api::GetTaskPayloadRequest::new(j(&a[0])?, j(&a[1])?))});
  r.ctors.push(Ctor{ty:"GetTaskRequest", args:&["id","params"], f: |a| out(api::GetTaskRequest::new(j(&a[0])?, j(&a[1])?))});
  r.ctors.push(Ctor{ty:"ImageContent", args:&["data","mime_type","annotations","meta"], f: |a| out(api::ImageContent::new(j::<String>(&a[0])?, j::<String>(&a[1])?, j(&a[2])?, j(&a[3])?))});
  r.ctors.push(Ctor{ty:"InitializeRequest", args:&["id","params"], f: |a| out(api::InitializeRequest::new(j(&a[0])?, j(&a[1])?))});
  r.ctors.push(Ctor{ty:"InitializedNotification", args:&["params"], f: |a| out(api::InitializedNotification::new(j(&a[0])?))});
  r.ctors.push(Ctor{ty:"JsonrpcErrorResponse", args:&["error","id"], f: |a| out(api::JsonrpcErrorResponse::new(j(&a[0])?, j(&a[1])?))});
  r.ctors.push(Ctor{ty:"JsonrpcNotification", args:&["method","params"], f: |a| out(api::JsonrpcNotification::new(j::<String>(&a[0])?, j(&a[1])?))});
  r.ctors.push(Ctor{ty:"JsonrpcRequest", args:&["id","method","params"], f: |a| out(api::JsonrpcRequest::new(j(&a[0])?, j::<String>(&a[1])?, j(&a[2])?))});
  r.ctors.push(Ctor{ty:"JsonrpcResultResponse", args:&["id","result"], f: |a| out(api::JsonrpcResultResponse::new(j(&a[0])?, j(&a[1])?))});
  r.ctors.push(Ctor{ty:"LegacyTitledEnumSchema", args:&["enum_","enum_names","default","description","title"], f: |a| out(api::LegacyTitledEnumSchema::new(j(&a[0])?, j(&a[1])?, j(&a[2])?, j(&a[3])?, j(&a[4])?))});
  r.ctors.push(Ctor{ty:"ListPromptsRequest", args:&["id","params"], f: |a| out(api::ListPromptsRequest::new(j(&a[0])?, j(&a[1])?))});
  r.ctors.push(Ctor{ty:"ListResourceTemplatesRequest", args:&["id","params"], f: |a| out(api::ListResourceTemplatesRequest::new(j(&a[0])?, j(&a[1])?))});
  r.ctors.push(Ctor{ty:"ListResourcesRequest", args:&["id","params"], f: |a| out(api::ListResourcesRequest::new(j(&a[0])?, j(&a[1])?))});
  r.ctors.push(Ctor{ty:"ListRootsRequest", args:&["id","params"], f: |a| out(api::ListRootsRequest::new(j(&a[0])?, j(&a[1])?))});
  r.ctors.push(Ctor{ty:"ListTasksRequest", args:&["id","params"], f: |a| out(api::ListTasksRequest::new(j(&a[0])?, j(&a[1])?))});
  r.ctors.push(Ctor{ty:"ListToolsRequest", args:&["id","params"], f: |a| out(api::ListToolsRequest::new(j(&a[0])?, j(&a[1])?))});
  r.ctors.push(Ctor{ty:"LoggingMessageNotification", args:&["params"], f: |a| out(api::LoggingMessageNotification::new(j(&a[0])?))});
  r.ctors.push(Ctor{ty:"PaginatedRequest", args:&["id","method","params"], f: |a| out(api::PaginatedRequest::new(j(&a[0])?, j::<String>(&a[1])?, j(&a[2])?))});
  r.ctors.push(Ctor{ty:"PingRequest", args:&["id","params"], f: |a| out(api::PingRequest::new(j(&a[0])?, j(&a[1])?))});
  r.ctors.push(Ctor{ty:"ProgressNotification", args:&["params"], f: |a| out(api::ProgressNotification::new(j(&a[0])?))});
  r.ctors.push(Ctor{ty:"PromptListChangedNotification", args:&["params"], f: |a| out(api::PromptListChangedNotification::new(j(&a[0])?))});
  r.ctors.push(Ctor{ty:"PromptReference", args:&["name","title"], f: |a| out(api::PromptReference::new(j::<String>(&a[0])?, j(&a[1])?))});
  r.ctors.push(Ctor{ty:"ReadResourceRequest", args:&["id","params"], f: |a| out(api::ReadResourceRequest::new(j(&a[0])?, j(&a[1])?))});
  r.ctors.push(Ctor{ty:"ResourceLink", args:&["icons","name","uri","annotations","description","meta","mime_type","size","title"], f: |a| out(api::ResourceLink::new(j(&a[0])?, j::<String>(&a[1])?, j::<String>(&a[2])?, j(&a[3])?, j(&a[4])?, j(&a[5])?, j(&a[6])?, j(&a[7])?, j(&a[8])?))});
  r.ctors.push(Ctor{ty:"ResourceListChangedNotification", args:&["params"], f: |a| out(api::ResourceListChangedNotification::new(j(&a[0])?))});
  r.ctors.push(Ctor{ty:"ResourceTemplateReference", args:&["uri"], f: |a| out(api::ResourceTemplateReference::new(j::<String>(&a[0])?))});
  r.ctors.push(Ctor{ty:"ResourceUpdatedNotification", args:&["params"], f: |a| out(api::ResourceUpdatedNotification::new(j(&a[0])?))});
  r.ctors.push(Ctor{ty:"RootsListChangedNotification", args:&["params"], f: |a| out(api::RootsListChangedNotification::new(j(&a[0])?))});
  r.ctors.push(Ctor{ty:"ServerJsonrpcNotification", args:&["notification"], f: |a| out(api::ServerJsonrpcNotification::new(j(&a[0])?))});
  r.ctors.push(Ctor{ty:"ServerJsonrpcRequest", args:&["request_id","request"], f: |a| out(api::ServerJsonrpcRequest::new(j(&a[0])?, j(&a[1])?))});
  r.ctors.push(Ctor{ty:"ServerJsonrpcResponse", args:&["id","result"], f: |a| out(api::ServerJsonrpcResponse::new(j(&a[0])?, j(&a[1])?))});
  r.ctors.push(Ctor{ty:"SetLevelRequest", args:&["id","params"], f: |a| out(api::SetLevelRequest::new(j(&a[0])?, j(&a[1])?))});
  r.ctors.push(Ctor{ty:"StringSchema", args:&["default","description","format","max_length","min_length","title"], f: |a| out(api::StringSchema::new(j(&a[0])?, j(&a[1])?, j(&a[2])?, j(&a[3])?, j(&a[4])?, j(&a[5])?))});
  r.ctors.push(Ctor{ty:"SubscribeRequest", args:&["id","params"], f: |a| out(api::SubscribeRequest::new(j(&a[0])?, j(&a[1])?))});
  r.ctors.push(Ctor{ty:"TaskStatusNotification", args:&["params"], f: |a| out(api::TaskStatusNotification::new(j(&a[0])?))});
  r.ctors.push(Ctor{ty:"TextContent", args:&["text","annotations","meta"], f: |a| out(api::TextContent::new(j::<String>(&a[0])?, j(&a[1])?, j(&a[2])?))});
  r.ctors.push(Ctor{ty:"TextResourceContents", args:&["text","uri"], f: |a| out(api::TextResourceContents::new(j::<String>(&a[0])?, j::<String>(&a[1])?))});
  r.ctors.push(Ctor{ty:"TitledMultiSelectEnumSchema", args:&["default","items","description","max_items","min_items","title"], f: |a| out(api::TitledMultiSelectEnumSchema::new(j(&a[0])?, j(&a[1])?, j(&a[2])?, j(&a[3])?, j(&a[4])?, j(&a[5])?))});
  r.ctors.push(Ctor{ty:"TitledSingleSelectEnumSchema", args:&["one_of","default","description","title"], f: |a| out(api::TitledSingleSelectEnumSchema::new(j(&a[0])?, j(&a[1])?, j(&a[2])?, j(&a[3])?))});
  r.ctors.push(Ctor{ty:"ToolInputSchema", args:&["required","properties","schema"], f: |a| out(api::ToolInputSchema::new(j(&a[0])?, j(&a[1])?, j(&a[2])?))});
  r.ctors.push(Ctor{ty:"ToolListChangedNotification", args:&["params"], f: |a| out(api::ToolListChangedNotification::new(j(&a[0])?))});
  r.ctors.push(Ctor{ty:"ToolOutputSchema", args:&["required","properties","schema"], f: |a| out(api::ToolOutputSchema::new(j(&a[0])?, j(&a[1])?, j(&a[2])?))});
  r.ctors.push(Ctor{ty:"ToolResultContent", args:&["content","tool_use_id","is_error","meta","structured_content"], f: |a| out(api::ToolResultContent::new(j(&a[0])?, j::<String>(&a[1])?, j(&a[2])?, j(&a[3])?, j(&a[4])?))});
  r.ctors.push(Ctor{ty:"ToolUseContent", args:&["id","input","name","meta"], f: |a| out(api::ToolUseContent::new(j::<String>(&a[0])?, j(&a[1])?, j::<String>(&a[2])?, j(&a[3])?))});
  r.ctors.push(Ctor{ty:"UnsubscribeRequest", args:&["id","params"], f: |a| out(api::UnsubscribeRequest::new(j(&a[0])?, j(&a[1])?))});
  r.ctors.push(Ctor{ty:"UntitledMultiSelectEnumSchema", args:&["default","items","description","max_items","min_items","title"], f: |a| out(api::UntitledMultiSelectEnumSchema::new(j(&a[0])?, j(&a[1])?, j(&a[2])?, j(&a[3])?, j(&a[4])?, j(&a[5])?))});
  r.ctors.push(Ctor{ty:"UntitledMultiSelectEnumSchemaItems", args:&["enum_"], f: |a| out(api::UntitledMultiSelectEnumSchemaItems::new(j(&a[0])?))});
  r.ctors.push(Ctor{ty:"UntitledSingleSelectEnumSchema", args:&["enum_","default","description","title"], f: |a| out(api::UntitledSingleSelectEnumSchema::new(j(&a[0])?, j(&a[1])?, j(&a[2])?, j(&a[3])?))});
  r.ctors.push(Ctor{ty:"UrlElicitError", args:&["data","message"], f: |a| out(api::UrlElicitError::new(j(&a[0])?, j::<String>(&a[1])?))});
  r.ctors.push(Ctor{ty:"UrlElicitationRequiredError", args:&["error","id"], f: |a| out(api::UrlElicitationRequiredError::new(j(&a[0])?, j(&a[1])?))});
  r.getters.push(Getter{ty:"AudioContent", field:"type_", f: |v| out(j::<api::AudioContent>(v)?.type_())});
  r.consts.push(ConstFn{ty:"AudioContent", field:"type", f: || serde_json::to_value(api::AudioContent::type_value()).unwrap()});
  r.consts.push(ConstFn{ty:"AudioContent", field:"type", f: || serde_json::to_value(api::AudioContent::type_name()).unwrap()});
  r.getters.push(Getter{ty:"BooleanSchema", field:"type_", f: |v| out(j::<api::BooleanSchema>(v)?.type_())});
  r.consts.push(ConstFn{ty:"BooleanSchema", field:"type", f: || serde_json::to_value(api::BooleanSchema::type_value()).unwrap()});
  r.consts.push(ConstFn{ty:"BooleanSchema", field:"type", f: || serde_json::to_value(api::BooleanSchema::type_name()).unwrap()});
  r.getters.push(Getter{ty:"CallToolRequest", field:"jsonrpc", f: |v| out(j::<api::CallToolRequest>(v)?.jsonrpc())});
  r.getters.push(Getter{ty:"CallToolRequest", field:"method", f: |v| out(j::<api::CallToolRequest>(v)?.method())});
  r.consts.push(ConstFn{ty:"CallToolRequest", field:"method", f: || serde_json::to_value(api::CallToolRequest::method_value()).unwrap()});
  r.consts.push(ConstFn{ty:"CallToolRequest", field:"method", f: || serde_json::to_value(api::CallToolRequest::method_name()).unwrap()});
  r.getters.push(Getter{ty:"CancelTaskRequest", field:"jsonrpc", f: |v| out(j::<api::CancelTaskRequest>(v)?.jsonrpc())});
  r.getters.push(Getter{ty:"CancelTaskRequest", field:"method", f: |v| out(j::<api::CancelTaskRequest>(v)?.method())});
  r.consts.push(ConstFn{ty:"CancelTaskRequest", field:"method", f: || serde_json::to_value(api::CancelTaskRequest::method_value()).unwrap()});
  r.consts.push(ConstFn{ty:"CancelTaskRequest", field:"method", f: || serde_json::to_value(api::CancelTaskRequest::method_name()).unwrap()});
  r.getters.push(Getter{ty:"CancelledNotification", field:"jsonrpc", f: |v| out(j::<api::CancelledNotification>(v)?.jsonrpc())});
  r.getters.push(Getter{ty:"CancelledNotification", field:"method", f: |v| out(j::<api::CancelledNotification>(v)?.method())});
  r.consts.push(ConstFn{ty:"CancelledNotification", field:"method", f: || serde_json::to_value(api::CancelledNotification::method_value()).unwrap()});
  r.consts.push(ConstFn{ty:"CancelledNotification", field:"method", f: || serde_json::to_value(api::CancelledNotification::method_name()).unwrap()});
  r.getters.push(Getter{ty:"ClientJsonrpcResponse", field:"jsonrpc", f: |v| out(j::<api::ClientJsonrpcResponse>(v)?.jsonrpc())});
  r.getters.push(Getter{ty:"CompleteRequest", field:"jsonrpc", f: |v| out(j::<api::CompleteRequest>(v)?.jsonrpc())});
  r.getters.push(Getter{ty:"CompleteRequest", field:"method", f: |v| out(j::<api::CompleteRequest>(v)?.method())});
  r.consts.push(ConstFn{ty:"CompleteRequest", field:"method", f: || serde_json::to_value(api::CompleteRequest::method_value()).unwrap()});
  r.consts.push(ConstFn{ty:"CompleteRequest", field:"method", f: || serde_json::to_value(api::CompleteRequest::method_name()).unwrap()});
  r.getters.push(Getter{ty:"CreateMessageRequest", field:"jsonrpc", f: |v| out(j::<api::CreateMessageRequest>(v)?.jsonrpc())});
  r.getters.push(Getter{ty:"CreateMessageRequest", field:"method", f: |v| out(j::<api::CreateMessageRequest>(v)?.method())});
  r.consts.push(ConstFn{ty:"CreateMessageRequest", field:"method", f: || serde_json::to_value(api::CreateMessageRequest::method_value()).unwrap()});
  r.consts.push(ConstFn{ty:"CreateMessageRequest", field:"method", f: || serde_json::to_value(api::CreateMessageRequest::method_name()).unwrap()});
  r.getters.push(Getter{ty:"ElicitFormSchema", field:"type_", f: |v| out(j::<api::ElicitFormSchema>(v)?.type_())});
  r.consts.push(ConstFn{ty:"ElicitFormSchema", field:"type", f: || serde_json::to_value(api::ElicitFormSchema::type_value()).unwrap()});
  r.consts.push(ConstFn{ty:"ElicitFormSchema", field:"type", f: || serde_json::to_value(api::ElicitFormSchema::type_name()).unwrap()});
  r.getters.push(Getter{ty:"ElicitRequest", field:"jsonrpc", f: |v| out(j::<api::ElicitRequest>(v)?.jsonrpc())});
  r.getters.push(Getter{ty:"ElicitRequest", field:"method", f: |v| out(j::<api::ElicitRequest>(v)?.method())});
  r.consts.push(ConstFn{ty:"ElicitRequest", field:"method", f: || serde_json::to_value(api::ElicitRequest::method_value()).unwrap()});
  r.consts.push(ConstFn{ty:"ElicitRequest", field:"method", f: || serde_json::to_value(api::ElicitRequest::method_name()).unwrap()});
  r.getters.push(Getter{ty:"ElicitRequestFormParams", field:"mode", f: |v| out(j::<api::ElicitRequestFormParams>(v)?.mode())});
  r.consts.push(ConstFn{ty:"ElicitRequestFormParams", field:"mode", f: || serde_json::to_value(api::ElicitRequestFormParams::mode_value()).unwrap()});
  r.consts.push(ConstFn{ty:"ElicitRequestFormParams", field:"mode", f: || serde_json::to_value(api::ElicitRequestFormParams::mode_name()).unwrap()});
  r.getters.push(Getter{ty:"ElicitRequestUrlParams", field:"mode", f: |v| out(j::<api::ElicitRequestUrlParams>(v)?.mode())});
  r.consts.push(ConstFn{ty:"ElicitRequestUrlParams", field:"mode", f: || serde_json::to_value(api::ElicitRequestUrlParams::mode_value()).unwrap()});
  r.consts.push(ConstFn{ty:"ElicitRequestUrlParams", field:"mode", f: || serde_json::to_value(api::ElicitRequestUrlParams::mode_name()).unwrap()});
  r.getters.push(Getter{ty:"ElicitationCompleteNotification", field:"jsonrpc", f: |v| out(j::<api::ElicitationCompleteNotification>(v)?.jsonrpc())});
  r.getters.push(Getter{ty:"ElicitationCompleteNotification", field:"method", f: |v| out(j::<api::ElicitationCompleteNotification>(v)?.method())});
  r.consts.push(ConstFn{ty:"ElicitationCompleteNotification", field:"method", f: || serde_json::to_value(api::ElicitationCompleteNotification::method_value()).unwrap()});
  r.consts.push(ConstFn{ty:"ElicitationCompleteNotification", field:"method", f: || serde_json::to_value(api::ElicitationCompleteNotification::method_name()).unwrap()});
  r.getters.push(Getter{ty:"EmbeddedResource", field:"type_", f: |v| out(j::<api::EmbeddedResource>(v)?.type_())});
  r.consts.push(ConstFn{ty:"EmbeddedResource", field:"type", f: || serde_json::to_value(api::EmbeddedResource::type_value()).unwrap()});
  r.consts.push(ConstFn{ty:"EmbeddedResource", field:"type", f: || serde_json::to_value(api::EmbeddedResource::type_name()).unwrap()});
  r.getters.push(Getter{ty:"GetPromptRequest", field:"jsonrpc", f: |v| out(j::<api::GetPromptRequest>(v)?.jsonrpc())});
  r.getters.push(Getter{ty:"GetPromptRequest", field:"method", f: |v| out(j::<api::GetPromptRequest>(v)?.method())});
  r.consts.push(ConstFn{ty:"GetPromptRequest", field:"method", f: || serde_json::to_value(api::GetPromptRequest::method_value()).unwrap()});
  r.consts.push(ConstFn{ty:"GetPromptRequest", field:"method", f: || serde_json::to_value(api::GetPromptRequest::method_name()).unwrap()});
  r.getters.push(Getter{ty:"GetTaskPayloadRequest", field:"jsonrpc", f: |v| out(j::<api::GetTaskPayloadRequest>(v)?.jsonrpc())});
  r.getters.push(Getter{ty:"GetTaskPayloadRequest", field:"method", f: |v| out(j::<api::GetTaskPayloadRequest>(v)?.method())});
  r.consts.push(ConstFn{ty:"GetTaskPayloadRequest", field:"method", f: || serde_json::to_value(api::GetTaskPayloadRequest::method_value()).unwrap()});
  r.consts.push(ConstFn{ty:"GetTaskPayloadRequest", field:"method", f: || serde_json::to_value(api::GetTaskPayloadRequest::method_name()).unwrap()});
  r.getters.push(Getter{ty:"GetTaskRequest", field:"jsonrpc", f: |v| out(j::<api::GetTaskRequest>(v)?.jsonrpc())});
  r.getters.push(Getter{ty:"GetTaskRequest", field:"method", f: |v| out(j::<api::GetTaskRequest>(v)?.method())});
  r.consts.push(ConstFn{ty:"GetTaskRequest", field:"method", f: || serde_json::to_value(api::GetTaskRequest::method_value()).unwrap()});
  r.consts.push(ConstFn{ty:"GetTaskRequest", field:"method", f: || serde_json::to_value(api::GetTaskRequest::method_name()).unwrap()});
  r.getters.push(Getter{ty:"ImageContent", field:"type_", f: |v| out(j::<api::ImageContent>(v)?.type_())});
  r.consts.push(ConstFn{ty:"ImageContent", field:"type", f: || serde_json::to_value(api::ImageContent::type_value()).unwrap()});
  r.consts.push(ConstFn{ty:"ImageContent", field:"type", f: || serde_json::to_value(api::ImageContent::type_name()).unwrap()});
  r.getters.push(Getter{ty:"InitializeRequest", field:"jsonrpc", f: |v| out(j::<api::InitializeRequest>(v)?.jsonrpc())});
  r.getters.push(Getter{ty:"InitializeRequest", field:"method", f: |v| out(j::<api::InitializeRequest>(v)?.method())});
  r.consts.push(ConstFn{ty:"InitializeRequest", field:"method", f: || serde_json::to_value(api::InitializeRequest::method_value()).unwrap()});
  r.consts.push(ConstFn{ty:"InitializeRequest", field:"method", f: || serde_json::to_value(api::InitializeRequest::method_name()).unwrap()});
  r.getters.push(Getter{ty:"InitializedNotification", field:"jsonrpc", f: |v| out(j::<api::InitializedNotification>(v)?.jsonrpc())});
  r.getters.push(Getter{ty:"InitializedNotification", field:"method", f: |v| out(j::<api::InitializedNotification>(v)?.method())});
  r.consts.push(ConstFn{ty:"InitializedNotification", field:"method", f: || serde_json::to_value(api::InitializedNotification::method_value()).unwrap()});
  r.consts.push(ConstFn{ty:"InitializedNotification", field:"method", f: || serde_json::to_value(api::InitializedNotification::method_name()).unwrap()});
  r.getters.push(Getter{ty:"JsonrpcErrorResponse", field:"jsonrpc", f: |v| out(j::<api::JsonrpcErrorResponse>(v)?.jsonrpc())});
  r.getters.push(Getter{ty:"JsonrpcNotification", field:"jsonrpc", f: |v| out(j::<api::JsonrpcNotification>(v)?.jsonrpc())});
  r.getters.push(Getter{ty:"JsonrpcRequest", field:"jsonrpc", f: |v| out(j::<api::JsonrpcRequest>(v)?.jsonrpc())});
  r.getters.push(Getter{ty:"JsonrpcResultResponse", field:"jsonrpc", f: |v| out(j::<api::JsonrpcResultResponse>(v)?.jsonrpc())});
  r.getters.push(Getter{ty:"LegacyTitledEnumSchema", field:"type_", f: |v| out(j::<api::LegacyTitledEnumSchema>(v)?.type_())});
  r.consts.push(ConstFn{ty:"LegacyTitledEnumSchema", field:"type", f: || serde_json::to_value(api::LegacyTitledEnumSchema::type_value()).unwrap()});
  r.consts.push(ConstFn{ty:"LegacyTitledEnumSchema", field:"type", f: || serde_json::to_value(api::LegacyTitledEnumSchema::type_name()).unwrap()});
  r.getters.push(Getter{ty:"ListPromptsRequest", field:"jsonrpc", f: |v| out(j::<api::ListPromptsRequest>(v)?.jsonrpc())});
  r.getters.push(Getter{ty:"ListPromptsRequest", field:"method", f: |v| out(j::<api::ListPromptsRequest>(v)?.method())});
  r.consts.push(ConstFn{ty:"ListPromptsRequest", field:"method", f: || serde_json::to_value(api::ListPromptsRequest::method_value()).unwrap()});
  r.consts.push(ConstFn{ty:"ListPromptsRequest", field:"method", f: || serde_json::to_value(api::ListPromptsRequest::method_name()).unwrap()});
  r.getters.push(Getter{ty:"ListResourceTemplatesRequest", field:"jsonrpc", f: |v| out(j::<api::ListResourceTemplatesRequest>(v)?.jsonrpc())});
  r.getters.push(Getter{ty:"ListResourceTemplatesRequest", field:"method", f: |v| out(j::<api::ListResourceTemplatesRequest>(v)?.method())});
  r.consts.push(ConstFn{ty:"ListResourceTemplatesRequest", field:"method", f: || serde_json::to_value(api::ListResourceTemplatesRequest::method_value()).unwrap()});
  r.consts.push(ConstFn{ty:"ListResourceTemplatesRequest", field:"method", f: || serde_json::to_value(api::ListResourceTemplatesRequest::method_name()).unwrap()});
  r.getters.push(Getter{ty:"ListResourcesRequest", field:"jsonrpc", f: |v| out(j::<api::ListResourcesRequest>(v)?.jsonrpc())});
  r.getters.push(Getter{ty:"ListResourcesRequest", field:"method", f: |v| out(j::<api::ListResourcesRequest>(v)?.method())});
  r.consts.push(ConstFn{ty:"ListResourcesRequest", field:"method", f: || serde_json::to_value(api::ListResourcesRequest::method_value()).unwrap()});
  r.consts.push(ConstFn{ty:"ListResourcesRequest", field:"method", f: || serde_json::to_value(api::ListResourcesRequest::method_name()).unwrap()});
  r.getters.push(Getter{ty:"ListRootsRequest", field:"jsonrpc", f: |v| out(j::<api::ListRootsRequest>(v)?.jsonrpc())});
  r.getters.push(Getter{ty:"ListRootsRequest", field:"method", f: |v| out(j::<api::ListRootsRequest>(v)?.method())});
  r.consts.push(ConstFn{ty:"ListRootsRequest", field:"method", f: || serde_json::to_value(api::ListRootsRequest::method_value()).unwrap()});
  r.consts.push(ConstFn{ty:"ListRootsRequest", field:"method", f: || serde_json::to_value(api::ListRootsRequest::method_name()).unwrap()});
  r.getters.push(Getter{ty:"ListTasksRequest", field:"jsonrpc", f: |v| out(j::<api::ListTasksRequest>(v)?.jsonrpc())});
  r.getters.push(Getter{ty:"ListTasksRequest", field:"method", f: |v| out(j::<api::ListTasksRequest>(v)?.method())});
  r.consts.push(ConstFn{ty:"ListTasksRequest", field:"method", f: || serde_json::to_value(api::ListTasksRequest::method_value()).unwrap()});
  r.consts.push(ConstFn{ty:"ListTasksRequest", field:"method", f: || serde_json::to_value(api::ListTasksRequest::method_name()).unwrap()});
  r.getters.push(Getter{ty:"ListToolsRequest", field:"jsonrpc", f: |v| out(j::<api::ListToolsRequest>(v)?.jsonrpc())});
  r.getters.push(Getter{ty:"ListToolsRequest", field:"method", f: |v| out(j::<api::ListToolsRequest>(v)?.method())});
  r.consts.push(ConstFn{ty:"ListToolsRequest", field:"method", f: || serde_json::to_value(api::ListToolsRequest::method_value()).unwrap()});
  r.consts.push(ConstFn{ty:"ListToolsRequest", field:"method", f: || serde_json::to_value(api::ListToolsRequest::method_name()).unwrap()});
  r.getters.push(Getter{ty:"LoggingMessageNotification", field:"jsonrpc", f: |v| out(j::<api::LoggingMessageNotification>(v)?.jsonrpc())});
  r.getters.push(Getter{ty:"LoggingMessageNotification", field:"method", f: |v| out(j::<api::LoggingMessageNotification>(v)?.method())});
  r.consts.push(ConstFn{ty:"LoggingMessageNotification", field:"method", f: || serde_json::to_value(api::LoggingMessageNotification::method_value()).unwrap()});
  r.consts.push(ConstFn{ty:"LoggingMessageNotification", field:"method", f: || serde_json::to_value(api::LoggingMessageNotification::method_name()).unwrap()});
  r.getters.push(Getter{ty:"PaginatedRequest", field:"jsonrpc", f: |v| out(j::<api::PaginatedRequest>(v)?.jsonrpc())});
  r.getters.push(Getter{ty:"PingRequest", field:"jsonrpc", f: |v| out(j::<api::PingRequest>(v)?.jsonrpc())});
  r.getters.push(Getter{ty:"PingRequest", field:"method", f: |v| out(j::<api::PingRequest>(v)?.method())});
  r.consts.push(ConstFn{ty:"PingRequest", field:"method", f: || serde_json::to_value(api::PingRequest::method_value()).unwrap()});
  r.consts.push(ConstFn{ty:"PingRequest", field:"method", f: || serde_json::to_value(api::PingRequest::method_name()).unwrap()});
  r.getters.push(Getter{ty:"ProgressNotification", field:"jsonrpc", f: |v| out(j::<api::ProgressNotification>(v)?.jsonrpc())});
  r.getters.push(Getter{ty:"ProgressNotification", field:"method", f: |v| out(j::<api::ProgressNotification>(v)?.method())});
  r.consts.push(ConstFn{ty:"ProgressNotification", field:"method", f: || serde_json::to_value(api::ProgressNotification::method_value()).unwrap()});
  r.consts.push(ConstFn{ty:"ProgressNotification", field:"method", f: || serde_json::to_value(api::ProgressNotification::method_name()).unwrap()});
  r.getters.push(Getter{ty:"PromptListChangedNotification", field:"jsonrpc", f: |v| out(j::<api::PromptListChangedNotification>(v)?.jsonrpc())});
  r.getters.push(Getter{ty:"PromptListChangedNotification", field:"method", f: |v| out(j::<api::PromptListChangedNotification>(v)?.method())});
  r.consts.push(ConstFn{ty:"PromptListChangedNotification", field:"method", f: || serde_json::to_value(api::PromptListChangedNotification::method_value()).unwrap()});
  r.consts.push(ConstFn{ty:"PromptListChangedNotification", field:"method", f: || serde_json::to_value(api::PromptListChangedNotification::method_name()).unwrap()});
  r.getters.push(Getter{ty:"PromptReference", field:"type_", f: |v| out(j::<api::PromptReference>(v)?.type_())});
  r.consts.push(ConstFn{ty:"PromptReference", field:"type", f: || serde_json::to_value(api::PromptReference::type_value()).unwrap()});
  r.consts.push(ConstFn{ty:"PromptReference", field:"type", f: || serde_json::to_value(api::PromptReference::type_name()).unwrap()});
  r.getters.push(Getter{ty:"ReadResourceRequest", field:"jsonrpc", f: |v| out(j::<api::ReadResourceRequest>(v)?.jsonrpc())});
  r.getters.push(Getter{ty:"ReadResourceRequest", field:"method", f: |v| out(j::<api::ReadResourceRequest>(v)?.method())});
  r.consts.push(ConstFn{ty:"ReadResourceRequest", field:"method", f: || serde_json::to_value(api::ReadResourceRequest::method_value()).unwrap()});
  r.consts.push(ConstFn{ty:"ReadResourceRequest", field:"method", f: || serde_json::to_value(api::ReadResourceRequest::method_name()).unwrap()});
  r.getters.push(Getter{ty:"ResourceLink", field:"type_", f: |v| out(j::<api::ResourceLink>(v)?.type_())});
  r.consts.push(ConstFn{ty:"ResourceLink", field:"type", f: || serde_json::to_value(api::ResourceLink::type_value()).unwrap()});
  r.consts.push(ConstFn{ty:"ResourceLink", field:"type", f: || serde_json::to_value(api::ResourceLink::type_name()).unwrap()});
  r.getters.push(Getter{ty:"ResourceListChangedNotification", field:"jsonrpc", f: |v| out(j::<api::ResourceListChangedNotification>(v)?.jsonrpc())});
  r.getters.push(Getter{ty:"ResourceListChangedNotification", field:"method", f: |v| out(j::<api::ResourceListChangedNotification>(v)?.method())});
  r.consts.push(ConstFn{ty:"ResourceListChangedNotification", field:"method", f: || serde_json::to_value(api::ResourceListChangedNotification::method_value()).unwrap()});
  r.consts.push(ConstFn{ty:"ResourceListChangedNotification", field:"method", f: || serde_json::to_value(api::ResourceListChangedNotification::method_name()).unwrap()});
  r.getters.push(Getter{ty:"ResourceTemplateReference", field:"type_", f: |v| out(j::<api::ResourceTemplateReference>(v)?.type_())});
  r.consts.push(ConstFn{ty:"ResourceTemplateReference", field:"type", f: || serde_json::to_value(api::ResourceTemplateReference::type_value()).unwrap()});
  r.consts.push(ConstFn{ty:"ResourceTemplateReference", field:"type", f: || serde_json::to_value(api::ResourceTemplateReference::type_name()).unwrap()});
  r.getters.push(Getter{ty:"ResourceUpdatedNotification", field:"jsonrpc", f: |v| out(j::<api::ResourceUpdatedNotification>(v)?.jsonrpc())});
  r.getters.push(Getter{ty:"ResourceUpdatedNotification", field:"method", f: |v| out(j::<api::ResourceUpdatedNotification>(v)?.method())});
  r.consts.push(ConstFn{ty:"ResourceUpdatedNotification", field:"method", f: || serde_json::to_value(api::ResourceUpdatedNotification::method_value()).unwrap()});
  r.consts.push(ConstFn{ty:"ResourceUpdatedNotification", field:"method", f: || serde_json::to_value(api::ResourceUpdatedNotification::method_name()).unwrap()});
  r.getters.push(Getter{ty:"RootsListChangedNotification", field:"jsonrpc", f: |v| out(j::<api::RootsListChangedNotification>(v)?.jsonrpc())});
  r.getters.push(Getter{ty:"RootsListChangedNotification", field:"method", f: |v| out(j::<api::RootsListChangedNotification>(v)?.method())});
  r.consts.push(ConstFn{ty:"RootsListChangedNotification", field:"method", f: || serde_json::to_value(api::RootsListChangedNotification::method_value()).unwrap()});
  r.consts.push(ConstFn{ty:"RootsListChangedNotification", field:"method", f: || serde_json::to_value(api::RootsListChangedNotification::method_name()).unwrap()});
  r.getters.push(Getter{ty:"ServerJsonrpcResponse", field:"jsonrpc", f: |v| out(j::<api::ServerJsonrpcResponse>(v)?.jsonrpc())});
  r.getters.push(Getter{ty:"SetLevelRequest", field:"jsonrpc", f: |v| out(j::<api::SetLevelRequest>(v)?.jsonrpc())});
  r.getters.push(Getter{ty:"SetLevelRequest", field:"method", f: |v| out(j::<api::SetLevelRequest>(v)?.method())});
  r.consts.push(ConstFn{ty:"SetLevelRequest", field:"method", f: || serde_json::to_value(api::SetLevelRequest::method_value()).unwrap()});
  r.consts.push(ConstFn{ty:"SetLevelRequest", field:"method", f: || serde_json::to_value(api::SetLevelRequest::method_name()).unwrap()});
  r.getters.push(Getter{ty:"StringSchema", field:"type_", f: |v| out(j::<api::StringSchema>(v)?.type_())});
  r.consts.push(ConstFn{ty:"StringSchema", field:"type", f: || serde_json::to_value(api::StringSchema::type_value()).unwrap()});
  r.consts.push(ConstFn{ty:"StringSchema", field:"type", f: || serde_json::to_value(api::StringSchema::type_name()).unwrap()});
  r.getters.push(Getter{ty:"SubscribeRequest", field:"jsonrpc", f: |v| out(j::<api::SubscribeRequest>(v)?.jsonrpc())});
  r.getters.push(Getter{ty:"SubscribeRequest", field:"method", f: |v| out(j::<api::SubscribeRequest>(v)?.method())});
  r.consts.push(ConstFn{ty:"SubscribeRequest", field:"method", f: || serde_json::to_value(api::SubscribeRequest::method_value()).unwrap()});
  r.consts.push(ConstFn{ty:"SubscribeRequest", field:"method", f: || serde_json::to_value(api::SubscribeRequest::method_name()).unwrap()});
  r.getters.push(Getter{ty:"TaskStatusNotification", field:"jsonrpc", f: |v| out(j::<api::TaskStatusNotification>(v)?.jsonrpc())});
  r.getters.push(Getter{ty:"TaskStatusNotification", field:"method", f: |v| out(j::<api::TaskStatusNotification>(v)?.method())});
  r.consts.push(ConstFn{ty:"TaskStatusNotification", field:"method", f: || serde_json::to_value(api::TaskStatusNotification::method_value()).unwrap()});
  r.consts.push(ConstFn{ty:"TaskStatusNotification", field:"method", f: || serde_json::to_value(api::TaskStatusNotification::method_name()).unwrap()});
  r.getters.push(Getter{ty:"TextContent", field:"type_", f: |v| out(j::<api::TextContent>(v)?.type_())});
  r.consts.push(ConstFn{ty:"TextContent", field:"type", f: || serde_json::to_value(api::TextContent::type_value()).unwrap()});
  r.consts.push(ConstFn{ty:"TextContent", field:"type", f: || serde_json::to_value(api::TextContent::type_name()).unwrap()});
  r.getters.push(Getter{ty:"TitledMultiSelectEnumSchema", field:"type_", f: |v| out(j::<api::TitledMultiSelectEnumSchema>(v)?.type_())});
  r.consts.push(ConstFn{ty:"TitledMultiSelectEnumSchema", field:"type", f: || serde_json::to_value(api::TitledMultiSelectEnumSchema::type_value()).unwrap()});
  r.consts.push(ConstFn{ty:"TitledMultiSelectEnumSchema", field:"type", f: || serde_json::to_value(api::TitledMultiSelectEnumSchema::type_name()).unwrap()});
  r.getters.push(Getter{ty:"TitledSingleSelectEnumSchema", field:"type_", f: |v| out(j::<api::TitledSingleSelectEnumSchema>(v)?.type_())});
  r.consts.push(ConstFn{ty:"TitledSingleSelectEnumSchema", field:"type", f: || serde_json::to_value(api::TitledSingleSelectEnumSchema::type_value()).unwrap()});
  r.consts.push(ConstFn{ty:"TitledSingleSelectEnumSchema", field:"type", f: || serde_json::to_value(api::TitledSingleSelectEnumSchema::type_name()).unwrap()});
  r.getters.push(Getter{ty:"ToolInputSchema", field:"type_", f: |v| out(j::<api::ToolInputSchema>(v)?.type_())});
  r.consts.push(ConstFn{ty:"ToolInputSchema", field:"type", f: || serde_json::to_value(api::ToolInputSchema::type_value()).unwrap()});
  r.consts.push(ConstFn{ty:"ToolInputSchema", field:"type", f: || serde_json::to_value(api::ToolInputSchema::type_name()).unwrap()});
  r.getters.push(Getter{ty:"ToolListChangedNotification", field:"jsonrpc", f: |v| out(j::<api::ToolListChangedNotification>(v)?.jsonrpc())});
  r.getters.push(Getter{ty:"ToolListChangedNotification", field:"method", f: |v| out(j::<api::ToolListChangedNotification>(v)?.method())});
  r.consts.push(ConstFn{ty:"ToolListChangedNotification", field:"method", f: || serde_json::to_value(api::ToolListChangedNotification::method_value()).unwrap()});
  r.consts.push(ConstFn{ty:"ToolListChangedNotification", field:"method", f: || serde_json::to_value(api::ToolListChangedNotification::method_name()).unwrap()});
  r.getters.push(Getter{ty:"ToolOutputSchema", field:"type_", f: |v| out(j::<api::ToolOutputSchema>(v)?.type_())});
  r.consts.push(ConstFn{ty:"ToolOutputSchema", field:"type", f: || serde_json::to_value(api::ToolOutputSchema::type_value()).unwrap()});
  r.consts.push(ConstFn{ty:"ToolOutputSchema", field:"type", f: || serde_json::to_value(api::ToolOutputSchema::type_name()).unwrap()});
  r.getters.push(Getter{ty:"ToolResultContent", field:"type_", f: |v| out(j::<api::ToolResultContent>(v)?.type_())});
  r.consts.push(ConstFn{ty:"ToolResultContent", field:"type", f: || serde_json::to_value(api::ToolResultContent::type_value()).unwrap()});
  r.consts.push(ConstFn{ty:"ToolResultContent", field:"type", f: || serde_json::to_value(api::ToolResultContent::type_name()).unwrap()});
  r.getters.push(Getter{ty:"ToolUseContent", field:"type_", f: |v| out(j::<api::ToolUseContent>(v)?.type_())});
  r.consts.push(ConstFn{ty:"ToolUseContent", field:"type", f: || serde_json::to_value(api::ToolUseContent::type_value()).unwrap()});
  r.consts.push(ConstFn{ty:"ToolUseContent", field:"type", f: || serde_json::to_value(api::ToolUseContent::type_name()).unwrap()});
  r.getters.push(Getter{ty:"UnsubscribeRequest", field:"jsonrpc", f: |v| out(j::<api::UnsubscribeRequest>(v)?.jsonrpc())});
  r.getters.push(Getter{ty:"UnsubscribeRequest", field:"method", f: |v| out(j::<api::UnsubscribeRequest>(v)?.method())});
  r.consts.push(ConstFn{ty:"UnsubscribeRequest", field:"method", f: || serde_json::to_value(api::UnsubscribeRequest::method_value()).unwrap()});
  r.consts.push(ConstFn{ty:"UnsubscribeRequest", field:"method", f: || serde_json::to_value(api::UnsubscribeRequest::method_name()).unwrap()});
  r.getters.push(Getter{ty:"UntitledMultiSelectEnumSchema", field:"type_", f: |v| out(j::<api::UntitledMultiSelectEnumSchema>(v)?.type_())});
  r.consts.push(ConstFn{ty:"UntitledMultiSelectEnumSchema", field:"type", f: || serde_json::to_value(api::UntitledMultiSelectEnumSchema::type_value()).unwrap()});
  r.consts.push(ConstFn{ty:"UntitledMultiSelectEnumSchema", field:"type", f: || serde_json::to_value(api::UntitledMultiSelectEnumSchema::type_name()).unwrap()});
  r.getters.push(Getter{ty:"UntitledMultiSelectEnumSchemaItems", field:"type_", f: |v| out(j::<api::UntitledMultiSelectEnumSchemaItems>(v)?.type_())});
  r.consts.push(ConstFn{ty:"UntitledMultiSelectEnumSchemaItems", field:"type", f: || serde_json::to_value(api::UntitledMultiSelectEnumSchemaItems::type_value()).unwrap()});
  r.consts.push(ConstFn{ty:"UntitledMultiSelectEnumSchemaItems", field:"type", f: || serde_json::to_value(api::UntitledMultiSelectEnumSchemaItems::type_name()).unwrap()});
  r.getters.push(Getter{ty:"UntitledSingleSelectEnumSchema", field:"type_", f: |v| out(j::<api::UntitledSingleSelectEnumSchema>(v)?.type_())});
  r.consts.push(ConstFn{ty:"UntitledSingleSelectEnumSchema", field:"type", f: || serde_json::to_value(api::UntitledSingleSelectEnumSchema::type_value()).unwrap()});
  r.consts.push(ConstFn{ty:"UntitledSingleSelectEnumSchema", field:"type", f: || serde_json::to_value(api::UntitledSingleSelectEnumSchema::type_name()).unwrap()});
  r.getters.push(Getter{ty:"UrlElicitError", field:"code", f: |v| out(j::<api::UrlElicitError>(v)?.code())});
  r.consts.push(ConstFn{ty:"UrlElicitError", field:"code", f: || serde_json::to_value(api::UrlElicitError::code_value()).unwrap()});
  r.consts.push(ConstFn{ty:"UrlElicitError", field:"code", f: || serde_json::to_value(api::UrlElicitError::code_name()).unwrap()});
  r.getters.push(Getter{ty:"UrlElicitationRequiredError", field:"jsonrpc", f: |v| out(j::<api::UrlElicitationRequiredError>(v)?.jsonrpc())});
  r.builders.push(Builder{ty:"BlobResourceContents", name:"with_meta", arg:"Map<String,Value>", f: |v, a| out(j::<api::BlobResourceContents>(v)?.with_meta(j(a)?))});
  r.builders.push(Builder{ty:"BlobResourceContents", name:"with_mime_type", arg:"T", f: |v, a| out(j::<api::BlobResourceContents>(v)?.with_mime_type(j::<String>(a)?))});
  r.builders.push(Builder{ty:"BlobResourceContents", name:"with_uri", arg:"T", f: |v, a| out(j::<api::BlobResourceContents>(v)?.with_uri(j::<String>(a)?))});
  r.builders.push(Builder{ty:"CallToolRequestParams", name:"with_arguments", arg:"Map<String,Value>", f: |v, a| out(j::<api::CallToolRequestParams>(v)?.with_arguments(j(a)?))});
  r.builders.push(Builder{ty:"CallToolRequestParams", name:"with_meta", arg:"CallToolMeta", f: |v, a| out(j::<api::CallToolRequestParams>(v)?.with_meta(j(a)?))});
  r.builders.push(Builder{ty:"CallToolRequestParams", name:"with_task", arg:"TaskMetadata", f: |v, a| out(j::<api::CallToolRequestParams>(v)?.with_task(j(a)?))});
  r.builders.push(Builder{ty:"CallToolResult", name:"with_meta", arg:"Option<Map<String,Value>>", f: |v, a| out(j::<api::CallToolResult>(v)?.with_meta(j(a)?))});
  r.builders.push(Builder{ty:"CallToolResult", name:"with_structured_content", arg:"Map<String,Value>", f: |v, a| out(j::<api::CallToolResult>(v)?.with_structured_content(j(a)?))});
  r.builders.push(Builder{ty:"ElicitRequestFormParams", name:"with_task", arg:"TaskMetadata", f: |v, a| out(j::<api::ElicitRequestFormParams>(v)?.with_task(j(a)?))});
  r.builders.push(Builder{ty:"ElicitRequestParams", name:"with_task", arg:"TaskMetadata", f: |v, a| out(j::<api::ElicitRequestParams>(v)?.with_task(j(a)?))});
  r.builders.push(Builder{ty:"ElicitRequestUrlParams", name:"with_task", arg:"TaskMetadata", f: |v, a| out(j::<api::ElicitRequestUrlParams>(v)?.with_task(j(a)?))});
  r.builders.push(Builder{ty:"RpcError", name:"with_message", arg:"T", f: |v, a| out(j::<api::RpcError>(v)?.with_message(j::<String>(a)?))});
  r.builders.push(Builder{ty:"RpcError", name:"with_data", arg:"Option<Value>", f: |v, a| out(j::<api::RpcError>(v)?.with_data(j(a)?))});
  r.builders.push(Builder{ty:"SdkError", name:"with_data", arg:"Option<Value>", f: |v, a| out(j::<api::SdkError>(v)?.with_data(j(a)?))});
  r.builders.push(Builder{ty:"TextResourceContents", name:"with_meta", arg:"Map<String,Value>", f: |v, a| out(j::<api::TextResourceContents>(v)?.with_meta(j(a)?))});
  r.builders.push(Builder{ty:"TextResourceContents", name:"with_mime_type", arg:"T", f: |v, a| out(j::<api::TextResourceContents>(v)?.with_mime_type(j::<String>(a)?))});
  r.builders.push(Builder{ty:"TextResourceContents", name:"with_uri", arg:"T", f: |v, a| out(j::<api::TextResourceContents>(v)?.with_uri(j::<String>(a)?))});
  r.defaults.push(DefaultFn{ty:"Annotations", f: || out(<api::Annotations as Default>::default())});
  r.defaults.push(DefaultFn{ty:"CallToolMeta", f: || out(<api::CallToolMeta as Default>::default())});
  r.try_froms.push(TryConv{src:"ResultFromServer", dst:"CallToolResult", f: |p, v| { let x = mk_ResultFromServer(p, v)?; Ok(<api::CallToolResult as TryFrom<api::ResultFromServer>>::try_from(x).map(|y| serde_json::to_value(y).unwrap()).map_err(|e| serde_json::to_value(e).unwrap()))}});
  r.try_froms.push(TryConv{src:"ResultFromClient", dst:"CancelTaskResult", f: |p, v| { let x = mk_ResultFromClient(p, v)?; Ok(<api::CancelTaskResult as TryFrom<api::ResultFromClient>>::try_from(x).map(|y| serde_json::to_value(y).unwrap()).map_err(|e| serde_json::to_value(e).unwrap()))}});
  r.try_froms.push(TryConv{src:"ResultFromServer", dst:"CancelTaskResult", f: |p, v| { let x = mk_ResultFromServer(p, v)?; Ok(<api::CancelTaskResult as TryFrom<api::ResultFromServer>>::try_from(x).map(|y| serde_json::to_value(y).unwrap()).map_err(|e| serde_json::to_value(e).unwrap()))}});
  r.defaults.push(DefaultFn{ty:"CancelledNotificationParams", f: || out(<api::CancelledNotificationParams as Default>::default())});
  r.defaults.push(DefaultFn{ty:"ClientCapabilities", f: || out(<api::ClientCapabilities as Default>::default())});
  r.defaults.push(DefaultFn{ty:"ClientElicitation", f: || out(<api::ClientElicitation as Default>::default())});
  r.displays.push(DisplayFn{ty:"ClientJsonrpcNotification", f: |v| Ok(j::<api::ClientJsonrpcNotification>(v)?.to_string())});
  r.fromstrs.push(FromStrFn{ty:"ClientJsonrpcNotification", f: |s| s.parse::<api::ClientJsonrpcNotification>().map(|x| serde_json::to_value(x).unwrap()).map_err(|e| serde_json::to_string(&e).unwrap())});
  r.displays.push(DisplayFn{ty:"ClientJsonrpcRequest", f: |v| Ok(j::<api::ClientJsonrpcRequest>(v)?.to_string())});
  r.froms.push(Conv{src:"CallToolRequest", dst:"ClientJsonrpcRequest", f: |v| out(<api::ClientJsonrpcRequest as From<api::CallToolRequest>>::from(j::<api::CallToolRequest>(v)?)), var: Some(|v| Ok(var_ClientJsonrpcRequest(&<api::ClientJsonrpcRequest as From<api::CallToolRequest>>::from(j::<api::CallToolRequest>(v)?))))});
  r.froms.push(Conv{src:"CancelTaskRequest", dst:"ClientJsonrpcRequest", f: |v| out(<api::ClientJsonrpcRequest as From<api::CancelTaskRequest>>::from(j::<api::CancelTaskRequest>(v)?)), var: Some(|v| Ok(var_ClientJsonrpcRequest(&<api::ClientJsonrpcRequest as From<api::CancelTaskRequest>>::from(j::<api::CancelTaskRequest>(v)?))))});
  r.froms.push(Conv{src:"CompleteRequest", dst:"ClientJsonrpcRequest", f: |v| out(<api::ClientJsonrpcRequest as From<api::CompleteRequest>>::from(j::<api::CompleteRequest>(v)?)), var: Some(|v| Ok(var_ClientJsonrpcRequest(&<api::ClientJsonrpcRequest as From<api::CompleteRequest>>::from(j::<api::CompleteRequest>(v)?))))});
  r.froms.push(Conv{src:"GetPromptRequest", dst:"ClientJsonrpcRequest", f: |v| out(<api::ClientJsonrpcRequest as From<api::GetPromptRequest>>::from(j::<api::GetPromptRequest>(v)?)), var: Some(|v| Ok(var_ClientJsonrpcRequest(&<api::ClientJsonrpcRequest as From<api::GetPromptRequest>>::from(j::<api::GetPromptRequest>(v)?))))});
  r.froms.push(Conv{src:"GetTaskPayloadRequest", dst:"ClientJsonrpcRequest", f: |v| out(<api::ClientJsonrpcRequest as From<api::GetTaskPayloadRequest>>::from(j::<api::GetTaskPayloadRequest>(v)?)), var: Some(|v| Ok(var_ClientJsonrpcRequest(&<api::ClientJsonrpcRequest as From<api::GetTaskPayloadRequest>>::from(j::<api::GetTaskPayloadRequest>(v)?))))});
  r.froms.push(Conv{src:"GetTaskRequest", dst:"ClientJsonrpcRequest", f: |v| out(<api::ClientJsonrpcRequest as From<api::GetTaskRequest>>::from(j::<api::GetTaskRequest>(v)?)), var: Some(|v| Ok(var_ClientJsonrpcRequest(&<api::ClientJsonrpcRequest as From<api::GetTaskRequest>>::from(j::<api::GetTaskRequest>(v)?))))});
  r.froms.push(Conv{src:"InitializeRequest", dst:"ClientJsonrpcRequest", f: |v| out(<api::ClientJsonrpcRequest as From<api::InitializeRequest>>::from(j::<api::InitializeRequest>(v)?)), var: Some(|v| Ok(var_ClientJsonrpcRequest(&<api::ClientJsonrpcRequest as From<api::InitializeRequest>>::from(j::<api::InitializeRequest>(v)?))))});
  r.froms.push(Conv{src:"ListPromptsRequest", dst:"ClientJsonrpcRequest", f: |v| out(<api::ClientJsonrpcRequest as From<api::ListPromptsRequest>>::from(j::<api::ListPromptsRequest>(v)?)), var: Some(|v| Ok(var_ClientJsonrpcRequest(&<api::ClientJsonrpcRequest as From<api::ListPromptsRequest>>::from(j::<api::ListPromptsRequest>(v)?))))});
  r.froms.push(Conv{src:"ListResourceTemplatesRequest", dst:"ClientJsonrpcRequest", f: |v| out(<api::ClientJsonrpcRequest as From<api::ListResourceTemplatesRequest>>::from(j::<api::ListResourceTemplatesRequest>(v)?)), var: Some(|v| Ok(var_ClientJsonrpcRequest(&<api::ClientJsonrpcRequest as From<api::ListResourceTemplatesRequest>>::from(j::<api::ListResourceTemplatesRequest>(v)?))))});
  r.froms.push(Conv{src:"ListResourcesRequest", dst:"ClientJsonrpcRequest", f: |v| out(<api::ClientJsonrpcRequest as From<api::ListResourcesRequest>>::from(j::<api::ListResourcesRequest>(v)?)), var: Some(|v| Ok(var_ClientJsonrpcRequest(&<api::ClientJsonrpcRequest as From<api::ListResourcesRequest>>::from(j::<api::ListResourcesRequest>(v)?))))});
  r.froms.push(Conv{src:"ListTasksRequest", dst:"ClientJsonrpcRequest", f: |v| out(<api::ClientJsonrpcRequest as From<api::ListTasksRequest>>::from(j::<api::ListTasksRequest>(v)?)), var: Some(|v| Ok(var_ClientJsonrpcRequest(&<api::ClientJsonrpcRequest as From<api::ListTasksRequest>>::from(j::<api::ListTasksRequest>(v)?))))});
  r.froms.push(Conv{src:"ListToolsRequest", dst:"ClientJsonrpcRequest", f: |v| out(<api::ClientJsonrpcRequest as From<api::ListToolsRequest>>::from(j::<api::ListToolsRequest>(v)?)), var: Some(|v| Ok(var_ClientJsonrpcRequest(&<api::ClientJsonrpcRequest as From<api::ListToolsRequest>>::from(j::<api::ListToolsRequest>(v)?))))});
  r.froms.push(Conv{src:"PingRequest", dst:"ClientJsonrpcRequest", f: |v| out(<api::ClientJsonrpcRequest as From<api::PingRequest>>::from(j::<api::PingRequest>(v)?)), var: Some(|v| Ok(var_ClientJsonrpcRequest(&<api::ClientJsonrpcRequest as From<api::PingRequest>>::from(j::<api::PingRequest>(v)?))))});
  r.froms.push(Conv{src:"ReadResourceRequest", dst:"ClientJsonrpcRequest", f: |v| out(<api::ClientJsonrpcRequest as From<api::ReadResourceRequest>>::from(j::<api::ReadResourceRequest>(v)?)), var: Some(|v| Ok(var_ClientJsonrpcRequest(&<api::ClientJsonrpcRequest as From<api::ReadResourceRequest>>::from(j::<api::ReadResourceRequest>(v)?))))});
  r.froms.push(Conv{src:"SetLevelRequest", dst:"ClientJsonrpcRequest", f: |v| out(<api::ClientJsonrpcRequest as From<api::SetLevelRequest>>::from(j::<api::SetLevelRequest>(v)?)), var: Some(|v| Ok(var_ClientJsonrpcRequest(&<api::ClientJsonrpcRequest as From<api::SetLevelRequest>>::from(j::<api::SetLevelRequest>(v)?))))});
  r.froms.push(Conv{src:"SubscribeRequest", dst:"ClientJsonrpcRequest", f: |v| out(<api::ClientJsonrpcRequest as From<api::SubscribeRequest>>::from(j::<api::SubscribeRequest>(v)?)), var: Some(|v| Ok(var_ClientJsonrpcRequest(&<api::ClientJsonrpcRequest as From<api::SubscribeRequest>>::from(j::<api::SubscribeRequest>(v)?))))});
  r.froms.push(Conv{src:"UnsubscribeRequest", dst:"ClientJsonrpcRequest", f: |v| out(<api::ClientJsonrpcRequest as From<api::UnsubscribeRequest>>::from(j::<api::UnsubscribeRequest>(v)?)), var: Some(|v| Ok(var_ClientJsonrpcRequest(&<api::ClientJsonrpcRequest as From<api::UnsubscribeRequest>>::from(j::<api::UnsubscribeRequest>(v)?))))});
  r.fromstrs.push(FromStrFn{ty:"ClientJsonrpcRequest", f: |s| s.parse::<api::ClientJsonrpcRequest>().map(|x| serde_json::to_value(x).unwrap()).map_err(|e| serde_json::to_string(&e).unwrap())});
  r.displays.push(DisplayFn{ty:"ClientJsonrpcResponse", f: |v| Ok(j::<api::ClientJsonrpcResponse>(v)?.to_string())});
  r.fromstrs.push(FromStrFn{ty:"ClientJsonrpcResponse", f: |s| s.parse::<api::ClientJsonrpcResponse>().map(|x| serde_json::to_value(x).unwrap()).map_err(|e| serde_json::to_string(&e).unwrap())});
  r.displays.push(DisplayFn{ty:"ClientMessage", f: |v| Ok(j::<api::ClientMessage>(v)?.to_string())});
  r.froms.push(Conv{src:"ClientJsonrpcNotification", dst:"ClientMessage", f: |v| out(<api::ClientMessage as From<api::ClientJsonrpcNotification>>::from(j::<api::ClientJsonrpcNotification>(v)?)), var: Some(|v| Ok(var_ClientMessage(&<api::ClientMessage as From<api::ClientJsonrpcNotification>>::from(j::<api::ClientJsonrpcNotification>(v)?))))});
  r.froms.push(Conv{src:"ClientJsonrpcRequest", dst:"ClientMessage", f: |v| out(<api::ClientMessage as From<api::ClientJsonrpcRequest>>::from(j::<api::ClientJsonrpcRequest>(v)?)), var: Some(|v| Ok(var_ClientMessage(&<api::ClientMessage as From<api::ClientJsonrpcRequest>>::from(j::<api::ClientJsonrpcRequest>(v)?))))});
  r.froms.push(Conv{src:"ClientJsonrpcResponse", dst:"ClientMessage", f: |v| out(<api::ClientMessage as From<api::ClientJsonrpcResponse>>::from(j::<api::ClientJsonrpcResponse>(v)?)), var: Some(|v| Ok(var_ClientMessage(&<api::ClientMessage as From<api::ClientJsonrpcResponse>>::from(j::<api::ClientJsonrpcResponse>(v)?))))});
  r.from_message.push(Assemble{src:"MessageFromClient", dst:"ClientMessage", f: |v, id| { let id = match id { Some(i) => Some(j::<api::RequestId>(i)?), None => None }; let x = j::<api::MessageFromClient>(v)?; Ok(<api::ClientMessage as api::FromMessage<api::MessageFromClient>>::from_message(x, id).map(|y| serde_json::json!([var_ClientMessage(&y), y])).map_err(|e| serde_json::to_value(e).unwrap())) } });
  r.fromstrs.push(FromStrFn{ty:"ClientMessage", f: |s| s.parse::<api::ClientMessage>().map(|x| serde_json::to_value(x).unwrap()).map_err(|e| serde_json::to_string(&e).unwrap())});
  r.displays.push(DisplayFn{ty:"ClientMessages", f: |v| Ok(j::<api::ClientMessages>(v)?.to_string())});
  r.froms.push(Conv{src:"ClientMessage", dst:"ClientMessages", f: |v| out(<api::ClientMessages as From<api::ClientMessage>>::from(j::<api::ClientMessage>(v)?)), var: Some(|v| Ok(var_ClientMessages(&<api::ClientMessages as From<api::ClientMessage>>::from(j::<api::ClientMessage>(v)?))))});
  r.froms.push(Conv{src:"Vec<ClientMessage>", dst:"ClientMessages", f: |v| out(<api::ClientMessages as From<Vec<api::ClientMessage>>>::from(j::<Vec<api::ClientMessage>>(v)?)), var: Some(|v| Ok(var_ClientMessages(&<api::ClientMessages as From<Vec<api::ClientMessage>>>::from(j::<Vec<api::ClientMessage>>(v)?))))});
  r.froms.push(Conv{src:"CancelledNotification", dst:"ClientNotification", f: |v| out(<api::ClientNotification as From<api::CancelledNotification>>::from(j::<api::CancelledNotification>(v)?)), var: Some(|v| Ok(var_ClientNotification(&<api::ClientNotification as From<api::CancelledNotification>>::from(j::<api::CancelledNotification>(v)?))))});
  r.froms.push(Conv{src:"InitializedNotification", dst:"ClientNotification", f: |v| out(<api::ClientNotification as From<api::InitializedNotification>>::from(j::<api::InitializedNotification>(v)?)), var: Some(|v| Ok(var_ClientNotification(&<api::ClientNotification as From<api::InitializedNotification>>::from(j::<api::InitializedNotification>(v)?))))});
  r.froms.push(Conv{src:"ProgressNotification", dst:"ClientNotification", f: |v| out(<api::ClientNotification as From<api::ProgressNotification>>::from(j::<api::ProgressNotification>(v)?)), var: Some(|v| Ok(var_ClientNotification(&<api::ClientNotification as From<api::ProgressNotification>>::from(j::<api::ProgressNotification>(v)?))))});
  r.froms.push(Conv{src:"RootsListChangedNotification", dst:"ClientNotification", f: |v| out(<api::ClientNotification as From<api::RootsListChangedNotification>>::from(j::<api::RootsListChangedNotification>(v)?)), var: Some(|v| Ok(var_ClientNotification(&<api::ClientNotification as From<api::RootsListChangedNotification>>::from(j::<api::RootsListChangedNotification>(v)?))))});
  r.froms.push(Conv{src:"TaskStatusNotification", dst:"ClientNotification", f: |v| out(<api::ClientNotification as From<api::TaskStatusNotification>>::from(j::<api::TaskStatusNotification>(v)?)), var: Some(|v| Ok(var_ClientNotification(&<api::ClientNotification as From<api::TaskStatusNotification>>::from(j::<api::TaskStatusNotification>(v)?))))});
  r.froms.push(Conv{src:"CallToolRequest", dst:"ClientRequest", f: |v| out(<api::ClientRequest as From<api::CallToolRequest>>::from(j::<api::CallToolRequest>(v)?)), var: Some(|v| Ok(var_ClientRequest(&<api::ClientRequest as From<api::CallToolRequest>>::from(j::<api::CallToolRequest>(v)?))))});
  r.froms.push(Conv{src:"CancelTaskRequest", dst:"ClientRequest", f: |v| out(<api::ClientRequest as From<api::CancelTaskRequest>>::from(j::<api::CancelTaskRequest>(v)?)), var: Some(|v| Ok(var_ClientRequest(&<api::ClientRequest as From<api::CancelTaskRequest>>::from(j::<api::CancelTaskRequest>(v)?))))});
  r.froms.push(Conv{src:"CompleteRequest", dst:"ClientRequest", f: |v| out(<api::ClientRequest as From<api::CompleteRequest>>::from(j::<api::CompleteRequest>(v)?)), var: Some(|v| Ok(var_ClientRequest(&<api::ClientRequest as From<api::CompleteRequest>>::from(j::<api::CompleteRequest>(v)?))))});
  r.froms.push(Conv{src:"GetPromptRequest", dst:"ClientRequest", f: |v| out(<api::ClientRequest as From<api::GetPromptRequest>>::from(j::<api::GetPromptRequest>(v)?)), var: Some(|v| Ok(var_ClientRequest(&<api::ClientRequest as From<api::GetPromptRequest>>::from(j::<api::GetPromptRequest>(v)?))))});
  r.froms.push(Conv{src:"GetTaskPayloadRequest", dst:"ClientRequest", f: |v| out(<api::ClientRequest as From<api::GetTaskPayloadRequest>>::from(j::<api::GetTaskPayloadRequest>(v)?)), var: Some(|v| Ok(var_ClientRequest(&<api::ClientRequest as From<api::GetTaskPayloadRequest>>::from(j::<api::GetTaskPayloadRequest>(v)?))))});
  r.froms.push(Conv{src:"GetTaskRequest", dst:"ClientRequest", f: |v| out(<api::ClientRequest as From<api::GetTaskRequest>>::from(j::<api::GetTaskRequest>(v)?)), var: Some(|v| Ok(var_ClientRequest(&<api::ClientRequest as From<api::GetTaskRequest>>::from(j::<api::GetTaskRequest>(v)?))))});
  r.froms.push(Conv{src:"InitializeRequest", dst:"ClientRequest", f: |v| out(<api::ClientRequest as From<api::InitializeRequest>>::from(j::<api::InitializeRequest>(v)?)), var: Some(|v| Ok(var_ClientRequest(&<api::ClientRequest as From<api::InitializeRequest>>::from(j::<api::InitializeRequest>(v)?))))});
  r.froms.push(Conv{src:"ListPromptsRequest", dst:"ClientRequest", f: |v| out(<api::ClientRequest as From<api::ListPromptsRequest>>::from(j::<api::ListPromptsRequest>(v)?)), var: Some(|v| Ok(var_ClientRequest(&<api::ClientRequest as From<api::ListPromptsRequest>>::from(j::<api::ListPromptsRequest>(v)?))))});
  r.froms.push(Conv{src:"ListResourceTemplatesRequest", dst:"ClientRequest", f: |v| out(<api::ClientRequest as From<api::ListResourceTemplatesRequest>>::from(j::<api::ListResourceTemplatesRequest>(v)?)), var: Some(|v| Ok(var_ClientRequest(&<api::ClientRequest as From<api::ListResourceTemplatesRequest>>::from(j::<api::ListResourceTemplatesRequest>(v)?))))});
  r.froms.push(Conv{src:"ListResourcesRequest", dst:"ClientRequest", f: |v| out(<api::ClientRequest as From<api::ListResourcesRequest>>::from(j::<api::ListResourcesRequest>(v)?)), var: Some(|v| Ok(var_ClientRequest(&<api::ClientRequest as From<api::ListResourcesRequest>>::from(j::<api::ListResourcesRequest>(v)?))))});
  r.froms.push(Conv{src:"ListTasksRequest", dst:"ClientRequest", f: |v| out(<api::ClientRequest as From<api::ListTasksRequest>>::from(j::<api::ListTasksRequest>(v)?)), var: Some(|v| Ok(var_ClientRequest(&<api::ClientRequest as From<api::ListTasksRequest>>::from(j::<api::ListTasksRequest>(v)?))))});
  r.froms.push(Conv{src:"ListToolsRequest", dst:"ClientRequest", f: |v| out(<api::ClientRequest as From<api::ListToolsRequest>>::from(j::<api::ListToolsRequest>(v)?)), var: Some(|v| Ok(var_ClientRequest(&<api::ClientRequest as From<api::ListToolsRequest>>::from(j::<api::ListToolsRequest>(v)?))))});
  r.froms.push(Conv{src:"PingRequest", dst:"ClientRequest", f: |v| out(<api::ClientRequest as From<api::PingRequest>>::from(j::<api::PingRequest>(v)?)), var: Some(|v| Ok(var_ClientRequest(&<api::ClientRequest as From<api::PingRequest>>::from(j::<api::PingRequest>(v)?))))});
  r.froms.push(Conv{src:"ReadResourceRequest", dst:"ClientRequest", f: |v| out(<api::ClientRequest as From<api::ReadResourceRequest>>::from(j::<api::ReadResourceRequest>(v)?)), var: Some(|v| Ok(var_ClientRequest(&<api::ClientRequest as From<api::ReadResourceRequest>>::from(j::<api::ReadResourceRequest>(v)?))))});
  r.froms.push(Conv{src:"SetLevelRequest", dst:"ClientRequest", f: |v| out(<api::ClientRequest as From<api::SetLevelRequest>>::from(j::<api::SetLevelRequest>(v)?)), var: Some(|v| Ok(var_ClientRequest(&<api::ClientRequest as From<api::SetLevelRequest>>::from(j::<api::SetLevelRequest>(v)?))))});
  r.froms.push(Conv{src:"SubscribeRequest", dst:"ClientRequest", f: |v| out(<api::ClientRequest as From<api::SubscribeRequest>>::from(j::<api::SubscribeRequest>(v)?)), var: Some(|v| Ok(var_ClientRequest(&<api::ClientRequest as From<api::SubscribeRequest>>::from(j::<api::SubscribeRequest>(v)?))))});
  r.froms.push(Conv{src:"UnsubscribeRequest", dst:"ClientRequest", f: |v| out(<api::ClientRequest as From<api::UnsubscribeRequest>>::from(j::<api::UnsubscribeRequest>(v)?)), var: Some(|v| Ok(var_ClientRequest(&<api::ClientRequest as From<api::UnsubscribeRequest>>::from(j::<api::UnsubscribeRequest>(v)?))))});
  r.froms.push(Conv{src:"CancelTaskResult", dst:"ClientResult", f: |v| out(<api::ClientResult as From<api::CancelTaskResult>>::from(j::<api::CancelTaskResult>(v)?)), var: Some(|v| Ok(var_ClientResult(&<api::ClientResult as From<api::CancelTaskResult>>::from(j::<api::CancelTaskResult>(v)?))))});
  r.froms.push(Conv{src:"CreateMessageResult", dst:"ClientResult", f: |v| out(<api::ClientResult as From<api::CreateMessageResult>>::from(j::<api::CreateMessageResult>(v)?)), var: Some(|v| Ok(var_ClientResult(&<api::ClientResult as From<api::CreateMessageResult>>::from(j::<api::CreateMessageResult>(v)?))))});
  r.froms.push(Conv{src:"ElicitResult", dst:"ClientResult", f: |v| out(<api::ClientResult as From<api::ElicitResult>>::from(j::<api::ElicitResult>(v)?)), var: Some(|v| Ok(var_ClientResult(&<api::ClientResult as From<api::ElicitResult>>::from(j::<api::ElicitResult>(v)?))))});
  r.froms.push(Conv{src:"GetTaskPayloadResult", dst:"ClientResult", f: |v| out(<api::ClientResult as From<api::GetTaskPayloadResult>>::from(j::<api::GetTaskPayloadResult>(v)?)), var: Some(|v| Ok(var_ClientResult(&<api::ClientResult as From<api::GetTaskPayloadResult>>::from(j::<api::GetTaskPayloadResult>(v)?))))});
  r.froms.push(Conv{src:"GetTaskResult", dst:"ClientResult", f: |v| out(<api::ClientResult as From<api::GetTaskResult>>::from(j::<api::GetTaskResult>(v)?)), var: Some(|v| Ok(var_ClientResult(&<api::ClientResult as From<api::GetTaskResult>>::from(j::<api::GetTaskResult>(v)?))))});
  r.froms.push(Conv{src:"ListRootsResult", dst:"ClientResult", f: |v| out(<api::ClientResult as From<api::ListRootsResult>>::from(j::<api::ListRootsResult>(v)?)), var: Some(|v| Ok(var_ClientResult(&<api::ClientResult as From<api::ListRootsResult>>::from(j::<api::ListRootsResult>(v)?))))});
  r.froms.push(Conv{src:"ListTasksResult", dst:"ClientResult", f: |v| out(<api::ClientResult as From<api::ListTasksResult>>::from(j::<api::ListTasksResult>(v)?)), var: Some(|v| Ok(var_ClientResult(&<api::ClientResult as From<api::ListTasksResult>>::from(j::<api::ListTasksResult>(v)?))))});
  r.froms.push(Conv{src:"Result", dst:"ClientResult", f: |v| out(<api::ClientResult as From<api::Result>>::from(j::<api::Result>(v)?)), var: Some(|v| Ok(var_ClientResult(&<api::ClientResult as From<api::Result>>::from(j::<api::Result>(v)?))))});
  r.defaults.push(DefaultFn{ty:"ClientRoots", f: || out(<api::ClientRoots as Default>::default())});
  r.defaults.push(DefaultFn{ty:"ClientSampling", f: || out(<api::ClientSampling as Default>::default())});
  r.defaults.push(DefaultFn{ty:"ClientTaskElicitation", f: || out(<api::ClientTaskElicitation as Default>::default())});
  r.defaults.push(DefaultFn{ty:"ClientTaskRequest", f: || out(<api::ClientTaskRequest as Default>::default())});
  r.try_froms.push(TryConv{src:"ResultFromClient", dst:"ClientTaskResult", f: |p, v| { let x = mk_ResultFromClient(p, v)?; Ok(<api::ClientTaskResult as TryFrom<api::ResultFromClient>>::try_from(x).map(|y| serde_json::to_value(y).unwrap()).map_err(|e| serde_json::to_value(e).unwrap()))}});
  r.defaults.push(DefaultFn{ty:"ClientTaskSampling", f: || out(<api::ClientTaskSampling as Default>::default())});
  r.defaults.push(DefaultFn{ty:"ClientTasks", f: || out(<api::ClientTasks as Default>::default())});
  r.defaults.push(DefaultFn{ty:"CompleteRequestContext", f: || out(<api::CompleteRequestContext as Default>::default())});
  r.defaults.push(DefaultFn{ty:"CompleteRequestMeta", f: || out(<api::CompleteRequestMeta as Default>::default())});
  r.froms.push(Conv{src:"PromptReference", dst:"CompleteRequestRef", f: |v| out(<api::CompleteRequestRef as From<api::PromptReference>>::from(j::<api::PromptReference>(v)?)), var: Some(|v| Ok(var_CompleteRequestRef(&<api::CompleteRequestRef as From<api::PromptReference>>::from(j::<api::PromptReference>(v)?))))});
  r.froms.push(Conv{src:"ResourceTemplateReference", dst:"CompleteRequestRef", f: |v| out(<api::CompleteRequestRef as From<api::ResourceTemplateReference>>::from(j::<api::ResourceTemplateReference>(v)?)), var: Some(|v| Ok(var_CompleteRequestRef(&<api::CompleteRequestRef as From<api::ResourceTemplateReference>>::from(j::<api::ResourceTemplateReference>(v)?))))});
  r.try_froms.push(TryConv{src:"ResultFromServer", dst:"CompleteResult", f: |p, v| { let x = mk_ResultFromServer(p, v)?; Ok(<api::CompleteResult as TryFrom<api::ResultFromServer>>::try_from(x).map(|y| serde_json::to_value(y).unwrap()).map_err(|e| serde_json::to_value(e).unwrap()))}});
  r.froms.push(Conv{src:"AudioContent", dst:"ContentBlock", f: |v| out(<api::ContentBlock as From<api::AudioContent>>::from(j::<api::AudioContent>(v)?)), var: Some(|v| Ok(var_ContentBlock(&<api::ContentBlock as From<api::AudioContent>>::from(j::<api::AudioContent>(v)?))))});
  r.froms.push(Conv{src:"EmbeddedResource", dst:"ContentBlock", f: |v| out(<api::ContentBlock as From<api::EmbeddedResource>>::from(j::<api::EmbeddedResource>(v)?)), var: Some(|v| Ok(var_ContentBlock(&<api::ContentBlock as From<api::EmbeddedResource>>::from(j::<api::EmbeddedResource>(v)?))))});
  r.froms.push(Conv{src:"ImageContent", dst:"ContentBlock", f: |v| out(<api::ContentBlock as From<api::ImageContent>>::from(j::<api::ImageContent>(v)?)), var: Some(|v| Ok(var_ContentBlock(&<api::ContentBlock as From<api::ImageContent>>::from(j::<api::ImageContent>(v)?))))});
  r.froms.push(Conv{src:"ResourceLink", dst:"ContentBlock", f: |v| out(<api::ContentBlock as From<api::ResourceLink>>::from(j::<api::ResourceLink>(v)?)), var: Some(|v| Ok(var_ContentBlock(&<api::ContentBlock as From<api::ResourceLink>>::from(j::<api::ResourceLink>(v)?))))});
  r.froms.push(Conv{src:"TextContent", dst:"ContentBlock", f: |v| out(<api::ContentBlock as From<api::TextContent>>::from(j::<api::TextContent>(v)?)), var: Some(|v| Ok(var_ContentBlock(&<api::ContentBlock as From<api::TextContent>>::from(j::<api::TextContent>(v)?))))});
  r.froms.push(Conv{src:"AudioContent", dst:"CreateMessageContent", f: |v| out(<api::CreateMessageContent as From<api::AudioContent>>::from(j::<api::AudioContent>(v)?)), var: Some(|v| Ok(var_CreateMessageContent(&<api::CreateMessageContent as From<api::AudioContent>>::from(j::<api::AudioContent>(v)?))))});
  r.froms.push(Conv{src:"ImageContent", dst:"CreateMessageContent", f: |v| out(<api::CreateMessageContent as From<api::ImageContent>>::from(j::<api::ImageContent>(v)?)), var: Some(|v| Ok(var_CreateMessageContent(&<api::CreateMessageContent as From<api::ImageContent>>::from(j::<api::ImageContent>(v)?))))});
  r.froms.push(Conv{src:"TextContent", dst:"CreateMessageContent", f: |v| out(<api::CreateMessageContent as From<api::TextContent>>::from(j::<api::TextContent>(v)?)), var: Some(|v| Ok(var_CreateMessageContent(&<api::CreateMessageContent as From<api::TextContent>>::from(j::<api::TextContent>(v)?))))});
  r.froms.push(Conv{src:"ToolResultContent", dst:"CreateMessageContent", f: |v| out(<api::CreateMessageContent as From<api::ToolResultContent>>::from(j::<api::ToolResultContent>(v)?)), var: Some(|v| Ok(var_CreateMessageContent(&<api::CreateMessageContent as From<api::ToolResultContent>>::from(j::<api::ToolResultContent>(v)?))))});
  r.froms.push(Conv{src:"ToolUseContent", dst:"CreateMessageContent", f: |v| out(<api::CreateMessageContent as From<api::ToolUseContent>>::from(j::<api::ToolUseContent>(v)?)), var: Some(|v| Ok(var_CreateMessageContent(&<api::CreateMessageContent as From<api::ToolUseContent>>::from(j::<api::ToolUseContent>(v)?))))});
  r.froms.push(Conv{src:"Vec<SamplingMessageContentBlock>", dst:"CreateMessageContent", f: |v| out(<api::CreateMessageContent as From<Vec<api::SamplingMessageContentBlock>>>::from(j::<Vec<api::SamplingMessageContentBlock>>(v)?)), var: Some(|v| Ok(var_CreateMessageContent(&<api::CreateMessageContent as From<Vec<api::SamplingMessageContentBlock>>>::from(j::<Vec<api::SamplingMessageContentBlock>>(v)?))))});
  r.try_froms.push(TryConv{src:"ResultFromClient", dst:"CreateMessageResult", f: |p, v| { let x = mk_ResultFromClient(p, v)?; Ok(<api::CreateMessageResult as TryFrom<api::ResultFromClient>>::try_from(x).map(|y| serde_json::to_value(y).unwrap()).map_err(|e| serde_json::to_value(e).unwrap()))}});
  r.try_froms.push(TryConv{src:"ResultFromClient", dst:"CreateTaskResult", f: |p, v| { let x = mk_ResultFromClient(p, v)?; Ok(<api::CreateTaskResult as TryFrom<api::ResultFromClient>>::try_from(x).map(|y| serde_json::to_value(y).unwrap()).map_err(|e| serde_json::to_value(e).unwrap()))}});
  r.try_froms.push(TryConv{src:"ResultFromServer", dst:"CreateTaskResult", f: |p, v| { let x = mk_ResultFromServer(p, v)?; Ok(<api::CreateTaskResult as TryFrom<api::ResultFromServer>>::try_from(x).map(|y| serde_json::to_value(y).unwrap()).map_err(|e| serde_json::to_value(e).unwrap()))}});
  r.froms.push(Conv{src:"JsonrpcNotification", dst:"CustomRequest", f: |v| out(<api::CustomNotification as From<api::JsonrpcNotification>>::from(j::<api::JsonrpcNotification>(v)?)), var: None});
  r.froms.push(Conv{src:"JsonrpcRequest", dst:"CustomRequest", f: |v| out(<api::CustomRequest as From<api::JsonrpcRequest>>::from(j::<api::JsonrpcRequest>(v)?)), var: None});
  r.defaults.push(DefaultFn{ty:"ElicitFormMeta", f: || out(<api::ElicitFormMeta as Default>::default())});
  r.froms.push(Conv{src:"ElicitRequestFormParams", dst:"ElicitRequestParams", f: |v| out(<api::ElicitRequestParams as From<api::ElicitRequestFormParams>>::from(j::<api::ElicitRequestFormParams>(v)?)), var: Some(|v| Ok(var_ElicitRequestParams(&<api::ElicitRequestParams as From<api::ElicitRequestFormParams>>::from(j::<api::ElicitRequestFormParams>(v)?))))});
  r.froms.push(Conv{src:"ElicitRequestUrlParams", dst:"ElicitRequestParams", f: |v| out(<api::ElicitRequestParams as From<api::ElicitRequestUrlParams>>::from(j::<api::ElicitRequestUrlParams>(v)?)), var: Some(|v| Ok(var_ElicitRequestParams(&<api::ElicitRequestParams as From<api::ElicitRequestUrlParams>>::from(j::<api::ElicitRequestUrlParams>(v)?))))});
  r.try_froms.push(TryConv{src:"ResultFromClient", dst:"ElicitResult", f: |p, v| { let x = mk_ResultFromClient(p, v)?; Ok(<api::ElicitResult as TryFrom<api::ResultFromClient>>::try_from(x).map(|y| serde_json::to_value(y).unwrap()).map_err(|e| serde_json::to_value(e).unwrap()))}});
  r.displays.push(DisplayFn{ty:"ElicitResultAction", f: |v| Ok(j::<api::ElicitResultAction>(v)?.to_string())});
  r.froms.push(Conv{src:"ElicitResultContentPrimitive", dst:"ElicitResultContent", f: |v| out(<api::ElicitResultContent as From<api::ElicitResultContentPrimitive>>::from(j::<api::ElicitResultContentPrimitive>(v)?)), var: Some(|v| Ok(var_ElicitResultContent(&<api::ElicitResultContent as From<api::ElicitResultContentPrimitive>>::from(j::<api::ElicitResultContentPrimitive>(v)?))))});
  r.froms.push(Conv{src:"String", dst:"ElicitResultContent", f: |v| out(<api::ElicitResultContent as From<String>>::from(j::<String>(v)?)), var: Some(|v| Ok(var_ElicitResultContent(&<api::ElicitResultContent as From<String>>::from(j::<String>(v)?))))});
  r.froms.push(Conv{src:"Vec<String>", dst:"ElicitResultContent", f: |v| out(<api::ElicitResultContent as From<Vec<String>>>::from(j::<Vec<String>>(v)?)), var: Some(|v| Ok(var_ElicitResultContent(&<api::ElicitResultContent as From<Vec<String>>>::from(j::<Vec<String>>(v)?))))});
  r.froms.push(Conv{src:"i64", dst:"ElicitResultContent", f: |v| out(from_as::<_, _, api::ElicitResultContent>(api::ElicitResultContentPrimitive::Integer, v)?), var: Some(|v| Ok(var_ElicitResultContent(&from_as::<_, _, api::ElicitResultContent>(api::ElicitResultContentPrimitive::Integer, v)?)))});
  r.froms.push(Conv{src:"String", dst:"ElicitResultContentPrimitive", f: |v| out(<api::ElicitResultContentPrimitive as From<String>>::from(j::<String>(v)?)), var: Some(|v| Ok(var_ElicitResultContentPrimitive(&<api::ElicitResultContentPrimitive as From<String>>::from(j::<String>(v)?))))});
  r.froms.push(Conv{src:"bool", dst:"ElicitResultContentPrimitive", f: |v| out(<api::ElicitResultContentPrimitive as From<bool>>::from(j::<bool>(v)?)), var: Some(|v| Ok(var_ElicitResultContentPrimitive(&<api::ElicitResultContentPrimitive as From<bool>>::from(j::<bool>(v)?))))});
  r.froms.push(Conv{src:"i64", dst:"ElicitResultContentPrimitive", f: |v| out(from_as::<_, _, api::ElicitResultContentPrimitive>(api::ElicitResultContentPrimitive::Integer, v)?), var: Some(|v| Ok(var_ElicitResultContentPrimitive(&from_as::<_, _, api::ElicitResultContentPrimitive>(api::ElicitResultContentPrimitive::Integer, v)?)))});
  r.defaults.push(DefaultFn{ty:"ElicitUrlMeta", f: || out(<api::ElicitUrlMeta as Default>::default())});
  r.froms.push(Conv{src:"BlobResourceContents", dst:"EmbeddedResourceResource", f: |v| out(<api::EmbeddedResourceResource as From<api::BlobResourceContents>>::from(j::<api::BlobResourceContents>(v)?)), var: Some(|v| Ok(var_EmbeddedResourceResource(&<api::EmbeddedResourceResource as From<api::BlobResourceContents>>::from(j::<api::BlobResourceContents>(v)?))))});
  r.froms.push(Conv{src:"TextResourceContents", dst:"EmbeddedResourceResource", f: |v| out(<api::EmbeddedResourceResource as From<api::TextResourceContents>>::from(j::<api::TextResourceContents>(v)?)), var: Some(|v| Ok(var_EmbeddedResourceResource(&<api::EmbeddedResourceResource as From<api::TextResourceContents>>::from(j::<api::TextResourceContents>(v)?))))});
  r.froms.push(Conv{src:"LegacyTitledEnumSchema", dst:"EnumSchema", f: |v| out(<api::EnumSchema as From<api::LegacyTitledEnumSchema>>::from(j::<api::LegacyTitledEnumSchema>(v)?)), var: Some(|v| Ok(var_EnumSchema(&<api::EnumSchema as From<api::LegacyTitledEnumSchema>>::from(j::<api::LegacyTitledEnumSchema>(v)?))))});
  r.froms.push(Conv{src:"TitledMultiSelectEnumSchema", dst:"EnumSchema", f: |v| out(<api::EnumSchema as From<api::TitledMultiSelectEnumSchema>>::from(j::<api::TitledMultiSelectEnumSchema>(v)?)), var: Some(|v| Ok(var_EnumSchema(&<api::EnumSchema as From<api::TitledMultiSelectEnumSchema>>::from(j::<api::TitledMultiSelectEnumSchema>(v)?))))});
  r.froms.push(Conv{src:"TitledSingleSelectEnumSchema", dst:"EnumSchema", f: |v| out(<api::EnumSchema as From<api::TitledSingleSelectEnumSchema>>::from(j::<api::TitledSingleSelectEnumSchema>(v)?)), var: Some(|v| Ok(var_EnumSchema(&<api::EnumSchema as From<api::TitledSingleSelectEnumSchema>>::from(j::<api::TitledSingleSelectEnumSchema>(v)?))))});
  r.froms.push(Conv{src:"UntitledMultiSelectEnumSchema", dst:"EnumSchema", f: |v| out(<api::EnumSchema as From<api::UntitledMultiSelectEnumSchema>>::from(j::<api::UntitledMultiSelectEnumSchema>(v)?)), var: Some(|v| Ok(var_EnumSchema(&<api::EnumSchema as From<api::UntitledMultiSelectEnumSchema>>::from(j::<api::UntitledMultiSelectEnumSchema>(v)?))))});
  r.froms.push(Conv{src:"UntitledSingleSelectEnumSchema", dst:"EnumSchema", f: |v| out(<api::EnumSchema as From<api::UntitledSingleSelectEnumSchema>>::from(j::<api::UntitledSingleSelectEnumSchema>(v)?)), var: Some(|v| Ok(var_EnumSchema(&<api::EnumSchema as From<api::UntitledSingleSelectEnumSchema>>::from(j::<api::UntitledSingleSelectEnumSchema>(v)?))))});
  r.froms.push(Conv{src:"CallToolResult", dst:"Result", f: |v| out(<api::GenericResult as From<api::CallToolResult>>::from(j::<api::CallToolResult>(v)?)), var: None});
  r.froms.push(Conv{src:"CancelTaskResult", dst:"Result", f: |v| out(<api::GenericResult as From<api::CancelTaskResult>>::from(j::<api::CancelTaskResult>(v)?)), var: None});
  r.froms.push(Conv{src:"CompleteResult", dst:"Result", f: |v| out(<api::GenericResult as From<api::CompleteResult>>::from(j::<api::CompleteResult>(v)?)), var: None});
  r.froms.push(Conv{src:"GetPromptResult", dst:"Result", f: |v| out(<api::GenericResult as From<api::GetPromptResult>>::from(j::<api::GetPromptResult>(v)?)), var: None});
  r.froms.push(Conv{src:"GetTaskPayloadResult", dst:"Result", f: |v| out(<api::GenericResult as From<api::GetTaskPayloadResult>>::from(j::<api::GetTaskPayloadResult>(v)?)), var: None});
  r.froms.push(Conv{src:"GetTaskResult", dst:"Result", f: |v| out(<api::GenericResult as From<api::GetTaskResult>>::from(j::<api::GetTaskResult>(v)?)), var: None});
  r.froms.push(Conv{src:"InitializeResult", dst:"Result", f: |v| out(<api::GenericResult as From<api::InitializeResult>>::from(j::<api::InitializeResult>(v)?)), var: None});
  r.froms.push(Conv{src:"ListPromptsResult", dst:"Result", f: |v| out(<api::GenericResult as From<api::ListPromptsResult>>::from(j::<api::ListPromptsResult>(v)?)), var: None});
  r.froms.push(Conv{src:"ListResourceTemplatesResult", dst:"Result", f: |v| out(<api::GenericResult as From<api::ListResourceTemplatesResult>>::from(j::<api::ListResourceTemplatesResult>(v)?)), var: None});
  r.froms.push(Conv{src:"ListResourcesResult", dst:"Result", f: |v| out(<api::GenericResult as From<api::ListResourcesResult>>::from(j::<api::ListResourcesResult>(v)?)), var: None});
  r.froms.push(Conv{src:"ListTasksResult", dst:"Result", f: |v| out(<api::GenericResult as From<api::ListTasksResult>>::from(j::<api::ListTasksResult>(v)?)), var: None});
  r.froms.push(Conv{src:"ListToolsResult", dst:"Result", f: |v| out(<api::GenericResult as From<api::ListToolsResult>>::from(j::<api::ListToolsResult>(v)?)), var: None});
  r.froms.push(Conv{src:"ReadResourceResult", dst:"Result", f: |v| out(<api::GenericResult as From<api::ReadResourceResult>>::from(j::<api::ReadResourceResult>(v)?)), var: None});
  r.try_froms.push(TryConv{src:"ResultFromClient", dst:"Result", f: |p, v| { let x = mk_ResultFromClient(p, v)?; Ok(<api::GenericResult as TryFrom<api::ResultFromClient>>::try_from(x).map(|y| serde_json::to_value(y).unwrap()).map_err(|e| serde_json::to_value(e).unwrap()))}});
  r.try_froms.push(TryConv{src:"ResultFromServer", dst:"Result", f: |p, v| { let x = mk_ResultFromServer(p, v)?; Ok(<api::GenericResult as TryFrom<api::ResultFromServer>>::try_from(x).map(|y| serde_json::to_value(y).unwrap()).map_err(|e| serde_json::to_value(e).unwrap()))}});
  r.defaults.push(DefaultFn{ty:"GetPromptMeta", f: || out(<api::GetPromptMeta as Default>::default())});
  r.try_froms.push(TryConv{src:"ResultFromServer", dst:"GetPromptResult", f: |p, v| { let x = mk_ResultFromServer(p, v)?; Ok(<api::GetPromptResult as TryFrom<api::ResultFromServer>>::try_from(x).map(|y| serde_json::to_value(y).unwrap()).map_err(|e| serde_json::to_value(e).unwrap()))}});
  r.defaults.push(DefaultFn{ty:"GetTaskPayloadResult", f: || out(<api::GetTaskPayloadResult as Default>::default())});
  r.try_froms.push(TryConv{src:"ResultFromClient", dst:"GetTaskPayloadResult", f: |p, v| { let x = mk_ResultFromClient(p, v)?; Ok(<api::GetTaskPayloadResult as TryFrom<api::ResultFromClient>>::try_from(x).map(|y| serde_json::to_value(y).unwrap()).map_err(|e| serde_json::to_value(e).unwrap()))}});
  r.try_froms.push(TryConv{src:"ResultFromServer", dst:"GetTaskPayloadResult", f: |p, v| { let x = mk_ResultFromServer(p, v)?; Ok(<api::GetTaskPayloadResult as TryFrom<api::ResultFromServer>>::try_from(x).map(|y| serde_json::to_value(y).unwrap()).map_err(|e| serde_json::to_value(e).unwrap()))}});
  r.try_froms.push(TryConv{src:"ResultFromClient", dst:"GetTaskResult", f: |p, v| { let x = mk_ResultFromClient(p, v)?; Ok(<api::GetTaskResult as TryFrom<api::ResultFromClient>>::try_from(x).map(|y| serde_json::to_value(y).unwrap()).map_err(|e| serde_json::to_value(e).unwrap()))}});
  r.try_froms.push(TryConv{src:"ResultFromServer", dst:"GetTaskResult", f: |p, v| { let x = mk_ResultFromServer(p, v)?; Ok(<api::GetTaskResult as TryFrom<api::ResultFromServer>>::try_from(x).map(|y| serde_json::to_value(y).unwrap()).map_err(|e| serde_json::to_value(e).unwrap()))}});
  r.displays.push(DisplayFn{ty:"IconTheme", f: |v| Ok(j::<api::IconTheme>(v)?.to_string())});
  r.defaults.push(DefaultFn{ty:"Icons", f: || out(<api::Icons as Default>::default())});
  r.displays.push(DisplayFn{ty:"IncludeContext", f: |v| Ok(j::<api::IncludeContext>(v)?.to_string())});
  r.defaults.push(DefaultFn{ty:"InitializeMeta", f: || out(<api::InitializeMeta as Default>::default())});
  r.try_froms.push(TryConv{src:"ResultFromServer", dst:"InitializeResult", f: |p, v| { let x = mk_ResultFromServer(p, v)?; Ok(<api::InitializeResult as TryFrom<api::ResultFromServer>>::try_from(x).map(|y| serde_json::to_value(y).unwrap()).map_err(|e| serde_json::to_value(e).unwrap()))}});
  r.displays.push(DisplayFn{ty:"JsonrpcErrorResponse", f: |v| Ok(j::<api::JsonrpcErrorResponse>(v)?.to_string())});
  r.fromstrs.push(FromStrFn{ty:"JsonrpcErrorResponse", f: |s| s.parse::<api::JsonrpcErrorResponse>().map(|x| serde_json::to_value(x).unwrap()).map_err(|e| serde_json::to_string(&e).unwrap())});
  r.froms.push(Conv{src:"JsonrpcErrorResponse", dst:"JsonrpcMessage", f: |v| out(<api::JsonrpcMessage as From<api::JsonrpcErrorResponse>>::from(j::<api::JsonrpcErrorResponse>(v)?)), var: Some(|v| Ok(var_JsonrpcMessage(&<api::JsonrpcMessage as From<api::JsonrpcErrorResponse>>::from(j::<api::JsonrpcErrorResponse>(v)?))))});
  r.froms.push(Conv{src:"JsonrpcNotification", dst:"JsonrpcMessage", f: |v| out(<api::JsonrpcMessage as From<api::JsonrpcNotification>>::from(j::<api::JsonrpcNotification>(v)?)), var: Some(|v| Ok(var_JsonrpcMessage(&<api::JsonrpcMessage as From<api::JsonrpcNotification>>::from(j::<api::JsonrpcNotification>(v)?))))});
  r.froms.push(Conv{src:"JsonrpcRequest", dst:"JsonrpcMessage", f: |v| out(<api::JsonrpcMessage as From<api::JsonrpcRequest>>::from(j::<api::JsonrpcRequest>(v)?)), var: Some(|v| Ok(var_JsonrpcMessage(&<api::JsonrpcMessage as From<api::JsonrpcRequest>>::from(j::<api::JsonrpcRequest>(v)?))))});
  r.froms.push(Conv{src:"JsonrpcResultResponse", dst:"JsonrpcMessage", f: |v| out(<api::JsonrpcMessage as From<api::JsonrpcResultResponse>>::from(j::<api::JsonrpcResultResponse>(v)?)), var: Some(|v| Ok(var_JsonrpcMessage(&<api::JsonrpcMessage as From<api::JsonrpcResultResponse>>::from(j::<api::JsonrpcResultResponse>(v)?))))});
  r.froms.push(Conv{src:"JsonrpcErrorResponse", dst:"JsonrpcResponse", f: |v| out(<api::JsonrpcResponse as From<api::JsonrpcErrorResponse>>::from(j::<api::JsonrpcErrorResponse>(v)?)), var: Some(|v| Ok(var_JsonrpcResponse(&<api::JsonrpcResponse as From<api::JsonrpcErrorResponse>>::from(j::<api::JsonrpcErrorResponse>(v)?))))});
  r.froms.push(Conv{src:"JsonrpcResultResponse", dst:"JsonrpcResponse", f: |v| out(<api::JsonrpcResponse as From<api::JsonrpcResultResponse>>::from(j::<api::JsonrpcResultResponse>(v)?)), var: Some(|v| Ok(var_JsonrpcResponse(&<api::JsonrpcResponse as From<api::JsonrpcResultResponse>>::from(j::<api::JsonrpcResultResponse>(v)?))))});
  r.try_froms.push(TryConv{src:"ResultFromServer", dst:"ListPromptsResult", f: |p, v| { let x = mk_ResultFromServer(p, v)?; Ok(<api::ListPromptsResult as TryFrom<api::ResultFromServer>>::try_from(x).map(|y| serde_json::to_value(y).unwrap()).map_err(|e| serde_json::to_value(e).unwrap()))}});
  r.try_froms.push(TryConv{src:"ResultFromServer", dst:"ListResourceTemplatesResult", f: |p, v| { let x = mk_ResultFromServer(p, v)?; Ok(<api::ListResourceTemplatesResult as TryFrom<api::ResultFromServer>>::try_from(x).map(|y| serde_json::to_value(y).unwrap()).map_err(|e| serde_json::to_value(e).unwrap()))}});
  r.try_froms.push(TryConv{src:"ResultFromServer", dst:"ListResourcesResult", f: |p, v| { let x = mk_ResultFromServer(p, v)?; Ok(<api::ListResourcesResult as TryFrom<api::ResultFromServer>>::try_from(x).map(|y| serde_json::to_value(y).unwrap()).map_err(|e| serde_json::to_value(e).unwrap()))}});
  r.try_froms.push(TryConv{src:"ResultFromClient", dst:"ListRootsResult", f: |p, v| { let x = mk_ResultFromClient(p, v)?; Ok(<api::ListRootsResult as TryFrom<api::ResultFromClient>>::try_from(x).map(|y| serde_json::to_value(y).unwrap()).map_err(|e| serde_json::to_value(e).unwrap()))}});
  r.try_froms.push(TryConv{src:"ResultFromClient", dst:"ListTasksResult", f: |p, v| { let x = mk_ResultFromClient(p, v)?; Ok(<api::ListTasksResult as TryFrom<api::ResultFromClient>>::try_from(x).map(|y| serde_json::to_value(y).unwrap()).map_err(|e| serde_json::to_value(e).unwrap()))}});
  r.try_froms.push(TryConv{src:"ResultFromServer", dst:"ListTasksResult", f: |p, v| { let x = mk_ResultFromServer(p, v)?; Ok(<api::ListTasksResult as TryFrom<api::ResultFromServer>>::try_from(x).map(|y| serde_json::to_value(y).unwrap()).map_err(|e| serde_json::to_value(e).unwrap()))}});
  r.try_froms.push(TryConv{src:"ResultFromServer", dst:"ListToolsResult", f: |p, v| { let x = mk_ResultFromServer(p, v)?; Ok(<api::ListToolsResult as TryFrom<api::ResultFromServer>>::try_from(x).map(|y| serde_json::to_value(y).unwrap()).map_err(|e| serde_json::to_value(e).unwrap()))}});
  r.displays.push(DisplayFn{ty:"LoggingLevel", f: |v| Ok(j::<api::LoggingLevel>(v)?.to_string())});
  r.froms.push(Conv{src:"CancelTaskResult", dst:"MessageFromClient", f: |v| out(<api::MessageFromClient as From<api::CancelTaskResult>>::from(j::<api::CancelTaskResult>(v)?)), var: Some(|v| Ok(var_MessageFromClient(&<api::MessageFromClient as From<api::CancelTaskResult>>::from(j::<api::CancelTaskResult>(v)?))))});
  r.froms.push(Conv{src:"CreateMessageResult", dst:"MessageFromClient", f: |v| out(<api::MessageFromClient as From<api::CreateMessageResult>>::from(j::<api::CreateMessageResult>(v)?)), var: Some(|v| Ok(var_MessageFromClient(&<api::MessageFromClient as From<api::CreateMessageResult>>::from(j::<api::CreateMessageResult>(v)?))))});
  r.froms.push(Conv{src:"CreateTaskResult", dst:"MessageFromClient", f: |v| out(<api::MessageFromClient as From<api::CreateTaskResult>>::from(j::<api::CreateTaskResult>(v)?)), var: Some(|v| Ok(var_MessageFromClient(&<api::MessageFromClient as From<api::CreateTaskResult>>::from(j::<api::CreateTaskResult>(v)?))))});
  r.froms.push(Conv{src:"ElicitResult", dst:"MessageFromClient", f: |v| out(<api::MessageFromClient as From<api::ElicitResult>>::from(j::<api::ElicitResult>(v)?)), var: Some(|v| Ok(var_MessageFromClient(&<api::MessageFromClient as From<api::ElicitResult>>::from(j::<api::ElicitResult>(v)?))))});
  r.froms.push(Conv{src:"GetTaskPayloadResult", dst:"MessageFromClient", f: |v| out(<api::MessageFromClient as From<api::GetTaskPayloadResult>>::from(j::<api::GetTaskPayloadResult>(v)?)), var: Some(|v| Ok(var_MessageFromClient(&<api::MessageFromClient as From<api::GetTaskPayloadResult>>::from(j::<api::GetTaskPayloadResult>(v)?))))});
  r.froms.push(Conv{src:"GetTaskResult", dst:"MessageFromClient", f: |v| out(<api::MessageFromClient as From<api::GetTaskResult>>::from(j::<api::GetTaskResult>(v)?)), var: Some(|v| Ok(var_MessageFromClient(&<api::MessageFromClient as From<api::GetTaskResult>>::from(j::<api::GetTaskResult>(v)?))))});
  r.froms.push(Conv{src:"ListRootsResult", dst:"MessageFromClient", f: |v| out(<api::MessageFromClient as From<api::ListRootsResult>>::from(j::<api::ListRootsResult>(v)?)), var: Some(|v| Ok(var_MessageFromClient(&<api::MessageFromClient as From<api::ListRootsResult>>::from(j::<api::ListRootsResult>(v)?))))});
  r.froms.push(Conv{src:"ListTasksResult", dst:"MessageFromClient", f: |v| out(<api::MessageFromClient as From<api::ListTasksResult>>::from(j::<api::ListTasksResult>(v)?)), var: Some(|v| Ok(var_MessageFromClient(&<api::MessageFromClient as From<api::ListTasksResult>>::from(j::<api::ListTasksResult>(v)?))))});
  r.froms.push(Conv{src:"NotificationFromClient", dst:"MessageFromClient", f: |v| out(<api::MessageFromClient as From<api::NotificationFromClient>>::from(j::<api::NotificationFromClient>(v)?)), var: Some(|v| Ok(var_MessageFromClient(&<api::MessageFromClient as From<api::NotificationFromClient>>::from(j::<api::NotificationFromClient>(v)?))))});
  r.froms.push(Conv{src:"RequestFromClient", dst:"MessageFromClient", f: |v| out(<api::MessageFromClient as From<api::RequestFromClient>>::from(j::<api::RequestFromClient>(v)?)), var: Some(|v| Ok(var_MessageFromClient(&<api::MessageFromClient as From<api::RequestFromClient>>::from(j::<api::RequestFromClient>(v)?))))});
  r.froms.push(Conv{src:"Result", dst:"MessageFromClient", f: |v| out(<api::MessageFromClient as From<api::Result>>::from(j::<api::Result>(v)?)), var: Some(|v| Ok(var_MessageFromClient(&<api::MessageFromClient as From<api::Result>>::from(j::<api::Result>(v)?))))});
  r.froms.push(Conv{src:"ResultFromClient", dst:"MessageFromClient", f: |v| out(<api::MessageFromClient as From<api::ResultFromClient>>::from(j::<api::ResultFromClient>(v)?)), var: Some(|v| Ok(var_MessageFromClient(&<api::MessageFromClient as From<api::ResultFromClient>>::from(j::<api::ResultFromClient>(v)?))))});
  r.froms.push(Conv{src:"RpcError", dst:"MessageFromClient", f: |v| out(<api::MessageFromClient as From<api::RpcError>>::from(j::<api::RpcError>(v)?)), var: Some(|v| Ok(var_MessageFromClient(&<api::MessageFromClient as From<api::RpcError>>::from(j::<api::RpcError>(v)?))))});
  r.froms.push(Conv{src:"CallToolResult", dst:"MessageFromServer", f: |v| out(<api::MessageFromServer as From<api::CallToolResult>>::from(j::<api::CallToolResult>(v)?)), var: Some(|v| Ok(var_MessageFromServer(&<api::MessageFromServer as From<api::CallToolResult>>::from(j::<api::CallToolResult>(v)?))))});
  r.froms.push(Conv{src:"CancelTaskResult", dst:"MessageFromServer", f: |v| out(<api::MessageFromServer as From<api::CancelTaskResult>>::from(j::<api::CancelTaskResult>(v)?)), var: Some(|v| Ok(var_MessageFromServer(&<api::MessageFromServer as From<api::CancelTaskResult>>::from(j::<api::CancelTaskResult>(v)?))))});
  r.froms.push(Conv{src:"CompleteResult", dst:"MessageFromServer", f: |v| out(<api::MessageFromServer as From<api::CompleteResult>>::from(j::<api::CompleteResult>(v)?)), var: Some(|v| Ok(var_MessageFromServer(&<api::MessageFromServer as From<api::CompleteResult>>::from(j::<api::CompleteResult>(v)?))))});
  r.froms.push(Conv{src:"CreateTaskResult", dst:"MessageFromServer", f: |v| out(<api::MessageFromServer as From<api::CreateTaskResult>>::from(j::<api::CreateTaskResult>(v)?)), var: Some(|v| Ok(var_MessageFromServer(&<api::MessageFromServer as From<api::CreateTaskResult>>::from(j::<api::CreateTaskResult>(v)?))))});
  r.froms.push(Conv{src:"GetPromptResult", dst:"MessageFromServer", f: |v| out(<api::MessageFromServer as From<api::GetPromptResult>>::from(j::<api::GetPromptResult>(v)?)), var: Some(|v| Ok(var_MessageFromServer(&<api::MessageFromServer as From<api::GetPromptResult>>::from(j::<api::GetPromptResult>(v)?))))});
  r.froms.push(Conv{src:"GetTaskPayloadResult", dst:"MessageFromServer", f: |v| out(<api::MessageFromServer as From<api::GetTaskPayloadResult>>::from(j::<api::GetTaskPayloadResult>(v)?)), var: Some(|v| Ok(var_MessageFromServer(&<api::MessageFromServer as From<api::GetTaskPayloadResult>>::from(j::<api::GetTaskPayloadResult>(v)?))))});
  r.froms.push(Conv{src:"GetTaskResult", dst:"MessageFromServer", f: |v| out(<api::MessageFromServer as From<api::GetTaskResult>>::from(j::<api::GetTaskResult>(v)?)), var: Some(|v| Ok(var_MessageFromServer(&<api::MessageFromServer as From<api::GetTaskResult>>::from(j::<api::GetTaskResult>(v)?))))});
  r.froms.push(Conv{src:"InitializeResult", dst:"MessageFromServer", f: |v| out(<api::MessageFromServer as From<api::InitializeResult>>::from(j::<api::InitializeResult>(v)?)), var: Some(|v| Ok(var_MessageFromServer(&<api::MessageFromServer as From<api::InitializeResult>>::from(j::<api::InitializeResult>(v)?))))});
  r.froms.push(Conv{src:"ListPromptsResult", dst:"MessageFromServer", f: |v| out(<api::MessageFromServer as From<api::ListPromptsResult>>::from(j::<api::ListPromptsResult>(v)?)), var: Some(|v| Ok(var_MessageFromServer(&<api::MessageFromServer as From<api::ListPromptsResult>>::from(j::<api::ListPromptsResult>(v)?))))});
  r.froms.push(Conv{src:"ListResourceTemplatesResult", dst:"MessageFromServer", f: |v| out(<api::MessageFromServer as From<api::ListResourceTemplatesResult>>::from(j::<api::ListResourceTemplatesResult>(v)?)), var: Some(|v| Ok(var_MessageFromServer(&<api::MessageFromServer as From<api::ListResourceTemplatesResult>>::from(j::<api::ListResourceTemplatesResult>(v)?))))});
  r.froms.push(Conv{src:"ListResourcesResult", dst:"MessageFromServer", f: |v| out(<api::MessageFromServer as From<api::ListResourcesResult>>::from(j::<api::ListResourcesResult>(v)?)), var: Some(|v| Ok(var_MessageFromServer(&<api::MessageFromServer as From<api::ListResourcesResult>>::from(j::<api::ListResourcesResult>(v)?))))});
  r.froms.push(Conv{src:"ListTasksResult", dst:"MessageFromServer", f: |v| out(<api::MessageFromServer as From<api::ListTasksResult>>::from(j::<api::ListTasksResult>(v)?)), var: Some(|v| Ok(var_MessageFromServer(&<api::MessageFromServer as From<api::ListTasksResult>>::from(j::<api::ListTasksResult>(v)?))))});
  r.froms.push(Conv{src:"ListToolsResult", dst:"MessageFromServer", f: |v| out(<api::MessageFromServer as From<api::ListToolsResult>>::from(j::<api::ListToolsResult>(v)?)), var: Some(|v| Ok(var_MessageFromServer(&<api::MessageFromServer as From<api::ListToolsResult>>::from(j::<api::ListToolsResult>(v)?))))});
  r.froms.push(Conv{src:"NotificationFromServer", dst:"MessageFromServer", f: |v| out(<api::MessageFromServer as From<api::NotificationFromServer>>::from(j::<api::NotificationFromServer>(v)?)), var: Some(|v| Ok(var_MessageFromServer(&<api::MessageFromServer as From<api::NotificationFromServer>>::from(j::<api::NotificationFromServer>(v)?))))});
  r.froms.push(Conv{src:"ReadResourceResult", dst:"MessageFromServer", f: |v| out(<api::MessageFromServer as From<api::ReadResourceResult>>::from(j::<api::ReadResourceResult>(v)?)), var: Some(|v| Ok(var_MessageFromServer(&<api::MessageFromServer as From<api::ReadResourceResult>>::from(j::<api::ReadResourceResult>(v)?))))});
  r.froms.push(Conv{src:"RequestFromServer", dst:"MessageFromServer", f: |v| out(<api::MessageFromServer as From<api::RequestFromServer>>::from(j::<api::RequestFromServer>(v)?)), var: Some(|v| Ok(var_MessageFromServer(&<api::MessageFromServer as From<api::RequestFromServer>>::from(j::<api::RequestFromServer>(v)?))))});
  r.froms.push(Conv{src:"Result", dst:"MessageFromServer", f: |v| out(<api::MessageFromServer as From<api::Result>>::from(j::<api::Result>(v)?)), var: Some(|v| Ok(var_MessageFromServer(&<api::MessageFromServer as From<api::Result>>::from(j::<api::Result>(v)?))))});
  r.froms.push(Conv{src:"ResultFromServer", dst:"MessageFromServer", f: |v| out(<api::MessageFromServer as From<api::ResultFromServer>>::from(j::<api::ResultFromServer>(v)?)), var: Some(|v| Ok(var_MessageFromServer(&<api::MessageFromServer as From<api::ResultFromServer>>::from(j::<api::ResultFromServer>(v)?))))});
  r.froms.push(Conv{src:"RpcError", dst:"MessageFromServer", f: |v| out(<api::MessageFromServer as From<api::RpcError>>::from(j::<api::RpcError>(v)?)), var: Some(|v| Ok(var_MessageFromServer(&<api::MessageFromServer as From<api::RpcError>>::from(j::<api::RpcError>(v)?))))});
  r.defaults.push(DefaultFn{ty:"MessageMeta", f: || out(<api::MessageMeta as Default>::default())});
  r.froms.push(Conv{src:"MessageFromClient", dst:"MessagesFromClient", f: |v| out(<api::MessagesFromClient as From<api::MessageFromClient>>::from(j::<api::MessageFromClient>(v)?)), var: Some(|v| Ok(var_MessagesFromClient(&<api::MessagesFromClient as From<api::MessageFromClient>>::from(j::<api::MessageFromClient>(v)?))))});
  r.froms.push(Conv{src:"Vec<MessageFromClient>", dst:"MessagesFromClient", f: |v| out(<api::MessagesFromClient as From<Vec<api::MessageFromClient>>>::from(j::<Vec<api::MessageFromClient>>(v)?)), var: Some(|v| Ok(var_MessagesFromClient(&<api::MessagesFromClient as From<Vec<api::MessageFromClient>>>::from(j::<Vec<api::MessageFromClient>>(v)?))))});
  r.froms.push(Conv{src:"MessageFromServer", dst:"MessagesFromServer", f: |v| out(<api::MessagesFromServer as From<api::MessageFromServer>>::from(j::<api::MessageFromServer>(v)?)), var: Some(|v| Ok(var_MessagesFromServer(&<api::MessagesFromServer as From<api::MessageFromServer>>::from(j::<api::MessageFromServer>(v)?))))});
  r.froms.push(Conv{src:"Vec<MessageFromServer>", dst:"MessagesFromServer", f: |v| out(<api::MessagesFromServer as From<Vec<api::MessageFromServer>>>::from(j::<Vec<api::MessageFromServer>>(v)?)), var: Some(|v| Ok(var_MessagesFromServer(&<api::MessagesFromServer as From<Vec<api::MessageFromServer>>>::from(j::<Vec<api::MessageFromServer>>(v)?))))});
  r.defaults.push(DefaultFn{ty:"ModelHint", f: || out(<api::ModelHint as Default>::default())});
  r.defaults.push(DefaultFn{ty:"ModelPreferences", f: || out(<api::ModelPreferences as Default>::default())});
  r.froms.push(Conv{src:"TitledMultiSelectEnumSchema", dst:"MultiSelectEnumSchema", f: |v| out(<api::MultiSelectEnumSchema as From<api::TitledMultiSelectEnumSchema>>::from(j::<api::TitledMultiSelectEnumSchema>(v)?)), var: Some(|v| Ok(var_MultiSelectEnumSchema(&<api::MultiSelectEnumSchema as From<api::TitledMultiSelectEnumSchema>>::from(j::<api::TitledMultiSelectEnumSchema>(v)?))))});
  r.froms.push(Conv{src:"UntitledMultiSelectEnumSchema", dst:"MultiSelectEnumSchema", f: |v| out(<api::MultiSelectEnumSchema as From<api::UntitledMultiSelectEnumSchema>>::from(j::<api::UntitledMultiSelectEnumSchema>(v)?)), var: Some(|v| Ok(var_MultiSelectEnumSchema(&<api::MultiSelectEnumSchema as From<api::UntitledMultiSelectEnumSchema>>::from(j::<api::UntitledMultiSelectEnumSchema>(v)?))))});
  r.froms.push(Conv{src:"ClientJsonrpcNotification", dst:"NotificationFromClient", f: |v| out(<api::NotificationFromClient as From<api::ClientJsonrpcNotification>>::from(j::<api::ClientJsonrpcNotification>(v)?)), var: Some(|v| Ok(var_NotificationFromClient(&<api::NotificationFromClient as From<api::ClientJsonrpcNotification>>::from(j::<api::ClientJsonrpcNotification>(v)?))))});
  r.froms.push(Conv{src:"ServerJsonrpcNotification", dst:"NotificationFromServer", f: |v| out(<api::NotificationFromServer as From<api::ServerJsonrpcNotification>>::from(j::<api::ServerJsonrpcNotification>(v)?)), var: Some(|v| Ok(var_NotificationFromServer(&<api::NotificationFromServer as From<api::ServerJsonrpcNotification>>::from(j::<api::ServerJsonrpcNotification>(v)?))))});
  r.defaults.push(DefaultFn{ty:"NotificationParams", f: || out(<api::NotificationParams as Default>::default())});
  r.displays.push(DisplayFn{ty:"NumberSchemaType", f: |v| Ok(j::<api::NumberSchemaType>(v)?.to_string())});
  r.defaults.push(DefaultFn{ty:"PaginatedMeta", f: || out(<api::PaginatedMeta as Default>::default())});
  r.defaults.push(DefaultFn{ty:"PaginatedRequestParams", f: || out(<api::PaginatedRequestParams as Default>::default())});
  r.defaults.push(DefaultFn{ty:"PaginatedResult", f: || out(<api::PaginatedResult as Default>::default())});
  r.froms.push(Conv{src:"BooleanSchema", dst:"PrimitiveSchemaDefinition", f: |v| out(<api::PrimitiveSchemaDefinition as From<api::BooleanSchema>>::from(j::<api::BooleanSchema>(v)?)), var: Some(|v| Ok(var_PrimitiveSchemaDefinition(&<api::PrimitiveSchemaDefinition as From<api::BooleanSchema>>::from(j::<api::BooleanSchema>(v)?))))});
  r.froms.push(Conv{src:"LegacyTitledEnumSchema", dst:"PrimitiveSchemaDefinition", f: |v| out(<api::PrimitiveSchemaDefinition as From<api::LegacyTitledEnumSchema>>::from(j::<api::LegacyTitledEnumSchema>(v)?)), var: Some(|v| Ok(var_PrimitiveSchemaDefinition(&<api::PrimitiveSchemaDefinition as From<api::LegacyTitledEnumSchema>>::from(j::<api::LegacyTitledEnumSchema>(v)?))))});
  r.froms.push(Conv{src:"NumberSchema", dst:"PrimitiveSchemaDefinition", f: |v| out(<api::PrimitiveSchemaDefinition as From<api::NumberSchema>>::from(j::<api::NumberSchema>(v)?)), var: Some(|v| Ok(var_PrimitiveSchemaDefinition(&<api::PrimitiveSchemaDefinition as From<api::NumberSchema>>::from(j::<api::NumberSchema>(v)?))))});
  r.froms.push(Conv{src:"StringSchema", dst:"PrimitiveSchemaDefinition", f: |v| out(<api::PrimitiveSchemaDefinition as From<api::StringSchema>>::from(j::<api::StringSchema>(v)?)), var: Some(|v| Ok(var_PrimitiveSchemaDefinition(&<api::PrimitiveSchemaDefinition as From<api::StringSchema>>::from(j::<api::StringSchema>(v)?))))});
  r.froms.push(Conv{src:"TitledMultiSelectEnumSchema", dst:"PrimitiveSchemaDefinition", f: |v| out(<api::PrimitiveSchemaDefinition as From<api::TitledMultiSelectEnumSchema>>::from(j::<api::TitledMultiSelectEnumSchema>(v)?)), var: Some(|v| Ok(var_PrimitiveSchemaDefinition(&<api::PrimitiveSchemaDefinition as From<api::TitledMultiSelectEnumSchema>>::from(j::<api::TitledMultiSelectEnumSchema>(v)?))))});
  r.froms.push(Conv{src:"TitledSingleSelectEnumSchema", dst:"PrimitiveSchemaDefinition", f: |v| out(<api::PrimitiveSchemaDefinition as From<api::TitledSingleSelectEnumSchema>>::from(j::<api::TitledSingleSelectEnumSchema>(v)?)), var: Some(|v| Ok(var_PrimitiveSchemaDefinition(&<api::PrimitiveSchemaDefinition as From<api::TitledSingleSelectEnumSchema>>::from(j::<api::TitledSingleSelectEnumSchema>(v)?))))});
  r.froms.push(Conv{src:"UntitledMultiSelectEnumSchema", dst:"PrimitiveSchemaDefinition", f: |v| out(<api::PrimitiveSchemaDefinition as From<api::UntitledMultiSelectEnumSchema>>::from(j::<api::UntitledMultiSelectEnumSchema>(v)?)), var: Some(|v| Ok(var_PrimitiveSchemaDefinition(&<api::PrimitiveSchemaDefinition as From<api::UntitledMultiSelectEnumSchema>>::from(j::<api::UntitledMultiSelectEnumSchema>(v)?))))});
  r.froms.push(Conv{src:"UntitledSingleSelectEnumSchema", dst:"PrimitiveSchemaDefinition", f: |v| out(<api::PrimitiveSchemaDefinition as From<api::UntitledSingleSelectEnumSchema>>::from(j::<api::UntitledSingleSelectEnumSchema>(v)?)), var: Some(|v| Ok(var_PrimitiveSchemaDefinition(&<api::PrimitiveSchemaDefinition as From<api::UntitledSingleSelectEnumSchema>>::from(j::<api::UntitledSingleSelectEnumSchema>(v)?))))});
  r.froms.push(Conv{src:"i64", dst:"ProgressToken", f: |v| out(from_as::<_, _, api::ProgressToken>(api::ProgressToken::Integer, v)?), var: Some(|v| Ok(var_ProgressToken(&from_as::<_, _, api::ProgressToken>(api::ProgressToken::Integer, v)?)))});
  r.froms.push(Conv{src:"BlobResourceContents", dst:"ReadResourceContent", f: |v| out(<api::ReadResourceContent as From<api::BlobResourceContents>>::from(j::<api::BlobResourceContents>(v)?)), var: Some(|v| Ok(var_ReadResourceContent(&<api::ReadResourceContent as From<api::BlobResourceContents>>::from(j::<api::BlobResourceContents>(v)?))))});
  r.froms.push(Conv{src:"TextResourceContents", dst:"ReadResourceContent", f: |v| out(<api::ReadResourceContent as From<api::TextResourceContents>>::from(j::<api::TextResourceContents>(v)?)), var: Some(|v| Ok(var_ReadResourceContent(&<api::ReadResourceContent as From<api::TextResourceContents>>::from(j::<api::TextResourceContents>(v)?))))});
  r.defaults.push(DefaultFn{ty:"ReadResourceMeta", f: || out(<api::ReadResourceMeta as Default>::default())});
  r.try_froms.push(TryConv{src:"ResultFromServer", dst:"ReadResourceResult", f: |p, v| { let x = mk_ResultFromServer(p, v)?; Ok(<api::ReadResourceResult as TryFrom<api::ResultFromServer>>::try_from(x).map(|y| serde_json::to_value(y).unwrap()).map_err(|e| serde_json::to_value(e).unwrap()))}});
  r.froms.push(Conv{src:"ClientJsonrpcRequest", dst:"RequestFromClient", f: |v| out(<api::RequestFromClient as From<api::ClientJsonrpcRequest>>::from(j::<api::ClientJsonrpcRequest>(v)?)), var: Some(|v| Ok(var_RequestFromClient(&<api::RequestFromClient as From<api::ClientJsonrpcRequest>>::from(j::<api::ClientJsonrpcRequest>(v)?))))});
  r.froms.push(Conv{src:"ServerJsonrpcRequest", dst:"RequestFromServer", f: |v| out(<api::RequestFromServer as From<api::ServerJsonrpcRequest>>::from(j::<api::ServerJsonrpcRequest>(v)?)), var: Some(|v| Ok(var_RequestFromServer(&<api::RequestFromServer as From<api::ServerJsonrpcRequest>>::from(j::<api::ServerJsonrpcRequest>(v)?))))});
  r.displays.push(DisplayFn{ty:"RequestId", f: |v| Ok(j::<api::RequestId>(v)?.to_string())});
  r.froms.push(Conv{src:"i64", dst:"RequestId", f: |v| out(from_as::<_, _, api::RequestId>(api::RequestId::Integer, v)?), var: Some(|v| Ok(var_RequestId(&from_as::<_, _, api::RequestId>(api::RequestId::Integer, v)?)))});
  r.defaults.push(DefaultFn{ty:"RequestParams", f: || out(<api::RequestParams as Default>::default())});
  r.defaults.push(DefaultFn{ty:"RequestParamsMeta", f: || out(<api::RequestParamsMeta as Default>::default())});
  r.defaults.push(DefaultFn{ty:"ResourceMeta", f: || out(<api::ResourceMeta as Default>::default())});
  r.defaults.push(DefaultFn{ty:"Result", f: || out(<api::Result as Default>::default())});
  r.froms.push(Conv{src:"CancelTaskResult", dst:"ResultFromClient", f: |v| out(<api::ResultFromClient as From<api::CancelTaskResult>>::from(j::<api::CancelTaskResult>(v)?)), var: Some(|v| Ok(var_ResultFromClient(&<api::ResultFromClient as From<api::CancelTaskResult>>::from(j::<api::CancelTaskResult>(v)?))))});
  r.froms.push(Conv{src:"ClientTaskResult", dst:"ResultFromClient", f: |v| out(<api::ResultFromClient as From<api::ClientTaskResult>>::from(j::<api::ClientTaskResult>(v)?)), var: Some(|v| Ok(var_ResultFromClient(&<api::ResultFromClient as From<api::ClientTaskResult>>::from(j::<api::ClientTaskResult>(v)?))))});
  r.froms.push(Conv{src:"CreateMessageResult", dst:"ResultFromClient", f: |v| out(<api::ResultFromClient as From<api::CreateMessageResult>>::from(j::<api::CreateMessageResult>(v)?)), var: Some(|v| Ok(var_ResultFromClient(&<api::ResultFromClient as From<api::CreateMessageResult>>::from(j::<api::CreateMessageResult>(v)?))))});
  r.froms.push(Conv{src:"CreateTaskResult", dst:"ResultFromClient", f: |v| out(<api::ResultFromClient as From<api::CreateTaskResult>>::from(j::<api::CreateTaskResult>(v)?)), var: Some(|v| Ok(var_ResultFromClient(&<api::ResultFromClient as From<api::CreateTaskResult>>::from(j::<api::CreateTaskResult>(v)?))))});
  r.froms.push(Conv{src:"ElicitResult", dst:"ResultFromClient", f: |v| out(<api::ResultFromClient as From<api::ElicitResult>>::from(j::<api::ElicitResult>(v)?)), var: Some(|v| Ok(var_ResultFromClient(&<api::ResultFromClient as From<api::ElicitResult>>::from(j::<api::ElicitResult>(v)?))))});
  r.froms.push(Conv{src:"GetTaskPayloadResult", dst:"ResultFromClient", f: |v| out(<api::ResultFromClient as From<api::GetTaskPayloadResult>>::from(j::<api::GetTaskPayloadResult>(v)?)), var: Some(|v| Ok(var_ResultFromClient(&<api::ResultFromClient as From<api::GetTaskPayloadResult>>::from(j::<api::GetTaskPayloadResult>(v)?))))});
  r.froms.push(Conv{src:"GetTaskResult", dst:"ResultFromClient", f: |v| out(<api::ResultFromClient as From<api::GetTaskResult>>::from(j::<api::GetTaskResult>(v)?)), var: Some(|v| Ok(var_ResultFromClient(&<api::ResultFromClient as From<api::GetTaskResult>>::from(j::<api::GetTaskResult>(v)?))))});
  r.froms.push(Conv{src:"ListRootsResult", dst:"ResultFromClient", f: |v| out(<api::ResultFromClient as From<api::ListRootsResult>>::from(j::<api::ListRootsResult>(v)?)), var: Some(|v| Ok(var_ResultFromClient(&<api::ResultFromClient as From<api::ListRootsResult>>::from(j::<api::ListRootsResult>(v)?))))});
  r.froms.push(Conv{src:"ListTasksResult", dst:"ResultFromClient", f: |v| out(<api::ResultFromClient as From<api::ListTasksResult>>::from(j::<api::ListTasksResult>(v)?)), var: Some(|v| Ok(var_ResultFromClient(&<api::ResultFromClient as From<api::ListTasksResult>>::from(j::<api::ListTasksResult>(v)?))))});
  r.froms.push(Conv{src:"Result", dst:"ResultFromClient", f: |v| out(<api::ResultFromClient as From<api::Result>>::from(j::<api::Result>(v)?)), var: Some(|v| Ok(var_ResultFromClient(&<api::ResultFromClient as From<api::Result>>::from(j::<api::Result>(v)?))))});
  r.froms.push(Conv{src:"CallToolResult", dst:"ResultFromServer", f: |v| out(<api::ResultFromServer as From<api::CallToolResult>>::from(j::<api::CallToolResult>(v)?)), var: Some(|v| Ok(var_ResultFromServer(&<api::ResultFromServer as From<api::CallToolResult>>::from(j::<api::CallToolResult>(v)?))))});
  r.froms.push(Conv{src:"CancelTaskResult", dst:"ResultFromServer", f: |v| out(<api::ResultFromServer as From<api::CancelTaskResult>>::from(j::<api::CancelTaskResult>(v)?)), var: Some(|v| Ok(var_ResultFromServer(&<api::ResultFromServer as From<api::CancelTaskResult>>::from(j::<api::CancelTaskResult>(v)?))))});
  r.froms.push(Conv{src:"CompleteResult", dst:"ResultFromServer", f: |v| out(<api::ResultFromServer as From<api::CompleteResult>>::from(j::<api::CompleteResult>(v)?)), var: Some(|v| Ok(var_ResultFromServer(&<api::ResultFromServer as From<api::CompleteResult>>::from(j::<api::CompleteResult>(v)?))))});
  r.froms.push(Conv{src:"CreateTaskResult", dst:"ResultFromServer", f: |v| out(<api::ResultFromServer as From<api::CreateTaskResult>>::from(j::<api::CreateTaskResult>(v)?)), var: Some(|v| Ok(var_ResultFromServer(&<api::ResultFromServer as From<api::CreateTaskResult>>::from(j::<api::CreateTaskResult>(v)?))))});
  r.froms.push(Conv{src:"GetPromptResult", dst:"ResultFromServer", f: |v| out(<api::ResultFromServer as From<api::GetPromptResult>>::from(j::<api::GetPromptResult>(v)?)), var: Some(|v| Ok(var_ResultFromServer(&<api::ResultFromServer as From<api::GetPromptResult>>::from(j::<api::GetPromptResult>(v)?))))});
  r.froms.push(Conv{src:"GetTaskPayloadResult", dst:"ResultFromServer", f: |v| out(<api::ResultFromServer as From<api::GetTaskPayloadResult>>::from(j::<api::GetTaskPayloadResult>(v)?)), var: Some(|v| Ok(var_ResultFromServer(&<api::ResultFromServer as From<api::GetTaskPayloadResult>>::from(j::<api::GetTaskPayloadResult>(v)?))))});
  r.froms.push(Conv{src:"GetTaskResult", dst:"ResultFromServer", f: |v| out(<api::ResultFromServer as From<api::GetTaskResult>>::from(j::<api::GetTaskResult>(v)?)), var: Some(|v| Ok(var_ResultFromServer(&<api::ResultFromServer as From<api::GetTaskResult>>::from(j::<api::GetTaskResult>(v)?))))});
  r.froms.push(Conv{src:"InitializeResult", dst:"ResultFromServer", f: |v| out(<api::ResultFromServer as From<api::InitializeResult>>::from(j::<api::InitializeResult>(v)?)), var: Some(|v| Ok(var_ResultFromServer(&<api::ResultFromServer as From<api::InitializeResult>>::from(j::<api::InitializeResult>(v)?))))});
  r.froms.push(Conv{src:"ListPromptsResult", dst:"ResultFromServer", f: |v| out(<api::ResultFromServer as From<api::ListPromptsResult>>::from(j::<api::ListPromptsResult>(v)?)), var: Some(|v| Ok(var_ResultFromServer(&<api::ResultFromServer as From<api::ListPromptsResult>>::from(j::<api::ListPromptsResult>(v)?))))});
  r.froms.push(Conv{src:"ListResourceTemplatesResult", dst:"ResultFromServer", f: |v| out(<api::ResultFromServer as From<api::ListResourceTemplatesResult>>::from(j::<api::ListResourceTemplatesResult>(v)?)), var: Some(|v| Ok(var_ResultFromServer(&<api::ResultFromServer as From<api::ListResourceTemplatesResult>>::from(j::<api::ListResourceTemplatesResult>(v)?))))});
  r.froms.push(Conv{src:"ListResourcesResult", dst:"ResultFromServer", f: |v| out(<api::ResultFromServer as From<api::ListResourcesResult>>::from(j::<api::ListResourcesResult>(v)?)), var: Some(|v| Ok(var_ResultFromServer(&<api::ResultFromServer as From<api::ListResourcesResult>>::from(j::<api::ListResourcesResult>(v)?))))});
  r.froms.push(Conv{src:"ListTasksResult", dst:"ResultFromServer", f: |v| out(<api::ResultFromServer as From<api::ListTasksResult>>::from(j::<api::ListTasksResult>(v)?)), var: Some(|v| Ok(var_ResultFromServer(&<api::ResultFromServer as From<api::ListTasksResult>>::from(j::<api::ListTasksResult>(v)?))))});
  r.froms.push(Conv{src:"ListToolsResult", dst:"ResultFromServer", f: |v| out(<api::ResultFromServer as From<api::ListToolsResult>>::from(j::<api::ListToolsResult>(v)?)), var: Some(|v| Ok(var_ResultFromServer(&<api::ResultFromServer as From<api::ListToolsResult>>::from(j::<api::ListToolsResult>(v)?))))});
  r.froms.push(Conv{src:"ReadResourceResult", dst:"ResultFromServer", f: |v| out(<api::ResultFromServer as From<api::ReadResourceResult>>::from(j::<api::ReadResourceResult>(v)?)), var: Some(|v| Ok(var_ResultFromServer(&<api::ResultFromServer as From<api::ReadResourceResult>>::from(j::<api::ReadResourceResult>(v)?))))});
  r.froms.push(Conv{src:"Result", dst:"ResultFromServer", f: |v| out(<api::ResultFromServer as From<api::Result>>::from(j::<api::Result>(v)?)), var: Some(|v| Ok(var_ResultFromServer(&<api::ResultFromServer as From<api::Result>>::from(j::<api::Result>(v)?))))});
  r.displays.push(DisplayFn{ty:"Role", f: |v| Ok(j::<api::Role>(v)?.to_string())});
  r.fromstrs.push(FromStrFn{ty:"Role", f: |s| s.parse::<api::Role>().map(|x| serde_json::to_value(x).unwrap()).map_err(|e| format!("{e:?}"))});
  r.displays.push(DisplayFn{ty:"RpcError", f: |v| Ok(j::<api::RpcError>(v)?.to_string())});
  r.fromstrs.push(FromStrFn{ty:"RpcError", f: |s| s.parse::<api::RpcError>().map(|x| serde_json::to_value(x).unwrap()).map_err(|e| serde_json::to_string(&e).unwrap())});
  r.froms.push(Conv{src:"AudioContent", dst:"SamplingMessageContent", f: |v| out(<api::SamplingMessageContent as From<api::AudioContent>>::from(j::<api::AudioContent>(v)?)), var: Some(|v| Ok(var_SamplingMessageContent(&<api::SamplingMessageContent as From<api::AudioContent>>::from(j::<api::AudioContent>(v)?))))});
  r.froms.push(Conv{src:"ImageContent", dst:"SamplingMessageContent", f: |v| out(<api::SamplingMessageContent as From<api::ImageContent>>::from(j::<api::ImageContent>(v)?)), var: Some(|v| Ok(var_SamplingMessageContent(&<api::SamplingMessageContent as From<api::ImageContent>>::from(j::<api::ImageContent>(v)?))))});
  r.froms.push(Conv{src:"TextContent", dst:"SamplingMessageContent", f: |v| out(<api::SamplingMessageContent as From<api::TextContent>>::from(j::<api::TextContent>(v)?)), var: Some(|v| Ok(var_SamplingMessageContent(&<api::SamplingMessageContent as From<api::TextContent>>::from(j::<api::TextContent>(v)?))))});
  r.froms.push(Conv{src:"ToolResultContent", dst:"SamplingMessageContent", f: |v| out(<api::SamplingMessageContent as From<api::ToolResultContent>>::from(j::<api::ToolResultContent>(v)?)), var: Some(|v| Ok(var_SamplingMessageContent(&<api::SamplingMessageContent as From<api::ToolResultContent>>::from(j::<api::ToolResultContent>(v)?))))});
  r.froms.push(Conv{src:"ToolUseContent", dst:"SamplingMessageContent", f: |v| out(<api::SamplingMessageContent as From<api::ToolUseContent>>::from(j::<api::ToolUseContent>(v)?)), var: Some(|v| Ok(var_SamplingMessageContent(&<api::SamplingMessageContent as From<api::ToolUseContent>>::from(j::<api::ToolUseContent>(v)?))))});
  r.froms.push(Conv{src:"Vec<SamplingMessageContentBlock>", dst:"SamplingMessageContent", f: |v| out(<api::SamplingMessageContent as From<Vec<api::SamplingMessageContentBlock>>>::from(j::<Vec<api::SamplingMessageContentBlock>>(v)?)), var: Some(|v| Ok(var_SamplingMessageContent(&<api::SamplingMessageContent as From<Vec<api::SamplingMessageContentBlock>>>::from(j::<Vec<api::SamplingMessageContentBlock>>(v)?))))});
  r.froms.push(Conv{src:"AudioContent", dst:"SamplingMessageContentBlock", f: |v| out(<api::SamplingMessageContentBlock as From<api::AudioContent>>::from(j::<api::AudioContent>(v)?)), var: Some(|v| Ok(var_SamplingMessageContentBlock(&<api::SamplingMessageContentBlock as From<api::AudioContent>>::from(j::<api::AudioContent>(v)?))))});
  r.froms.push(Conv{src:"ImageContent", dst:"SamplingMessageContentBlock", f: |v| out(<api::SamplingMessageContentBlock as From<api::ImageContent>>::from(j::<api::ImageContent>(v)?)), var: Some(|v| Ok(var_SamplingMessageContentBlock(&<api::SamplingMessageContentBlock as From<api::ImageContent>>::from(j::<api::ImageContent>(v)?))))});
  r.froms.push(Conv{src:"TextContent", dst:"SamplingMessageContentBlock", f: |v| out(<api::SamplingMessageContentBlock as From<api::TextContent>>::from(j::<api::TextContent>(v)?)), var: Some(|v| Ok(var_SamplingMessageContentBlock(&<api::SamplingMessageContentBlock as From<api::TextContent>>::from(j::<api::TextContent>(v)?))))});
  r.froms.push(Conv{src:"ToolResultContent", dst:"SamplingMessageContentBlock", f: |v| out(<api::SamplingMessageContentBlock as From<api::ToolResultContent>>::from(j::<api::ToolResultContent>(v)?)), var: Some(|v| Ok(var_SamplingMessageContentBlock(&<api::SamplingMessageContentBlock as From<api::ToolResultContent>>::from(j::<api::ToolResultContent>(v)?))))});
  r.froms.push(Conv{src:"ToolUseContent", dst:"SamplingMessageContentBlock", f: |v| out(<api::SamplingMessageContentBlock as From<api::ToolUseContent>>::from(j::<api::ToolUseContent>(v)?)), var: Some(|v| Ok(var_SamplingMessageContentBlock(&<api::SamplingMessageContentBlock as From<api::ToolUseContent>>::from(j::<api::ToolUseContent>(v)?))))});
  r.displays.push(DisplayFn{ty:"SdkError", f: |v| Ok(j::<api::SdkError>(v)?.to_string())});
  r.defaults.push(DefaultFn{ty:"ServerCapabilities", f: || out(<api::ServerCapabilities as Default>::default())});
  r.defaults.push(DefaultFn{ty:"ServerCapabilitiesPrompts", f: || out(<api::ServerCapabilitiesPrompts as Default>::default())});
  r.defaults.push(DefaultFn{ty:"ServerCapabilitiesResources", f: || out(<api::ServerCapabilitiesResources as Default>::default())});
  r.defaults.push(DefaultFn{ty:"ServerCapabilitiesTools", f: || out(<api::ServerCapabilitiesTools as Default>::default())});
  r.displays.push(DisplayFn{ty:"ServerJsonrpcNotification", f: |v| Ok(j::<api::ServerJsonrpcNotification>(v)?.to_string())});
  r.fromstrs.push(FromStrFn{ty:"ServerJsonrpcNotification", f: |s| s.parse::<api::ServerJsonrpcNotification>().map(|x| serde_json::to_value(x).unwrap()).map_err(|e| serde_json::to_string(&e).unwrap())});
  r.displays.push(DisplayFn{ty:"ServerJsonrpcRequest", f: |v| Ok(j::<api::ServerJsonrpcRequest>(v)?.to_string())});
  r.froms.push(Conv{src:"CancelTaskRequest", dst:"ServerJsonrpcRequest", f: |v| out(<api::ServerJsonrpcRequest as From<api::CancelTaskRequest>>::from(j::<api::CancelTaskRequest>(v)?)), var: Some(|v| Ok(var_ServerJsonrpcRequest(&<api::ServerJsonrpcRequest as From<api::CancelTaskRequest>>::from(j::<api::CancelTaskRequest>(v)?))))});
  r.froms.push(Conv{src:"CreateMessageRequest", dst:"ServerJsonrpcRequest", f: |v| out(<api::ServerJsonrpcRequest as From<api::CreateMessageRequest>>::from(j::<api::CreateMessageRequest>(v)?)), var: Some(|v| Ok(var_ServerJsonrpcRequest(&<api::ServerJsonrpcRequest as From<api::CreateMessageRequest>>::from(j::<api::CreateMessageRequest>(v)?))))});
  r.froms.push(Conv{src:"ElicitRequest", dst:"ServerJsonrpcRequest", f: |v| out(<api::ServerJsonrpcRequest as From<api::ElicitRequest>>::from(j::<api::ElicitRequest>(v)?)), var: Some(|v| Ok(var_ServerJsonrpcRequest(&<api::ServerJsonrpcRequest as From<api::ElicitRequest>>::from(j::<api::ElicitRequest>(v)?))))});
  r.froms.push(Conv{src:"GetTaskPayloadRequest", dst:"ServerJsonrpcRequest", f: |v| out(<api::ServerJsonrpcRequest as From<api::GetTaskPayloadRequest>>::from(j::<api::GetTaskPayloadRequest>(v)?)), var: Some(|v| Ok(var_ServerJsonrpcRequest(&<api::ServerJsonrpcRequest as From<api::GetTaskPayloadRequest>>::from(j::<api::GetTaskPayloadRequest>(v)?))))});
  r.froms.push(Conv{src:"GetTaskRequest", dst:"ServerJsonrpcRequest", f: |v| out(<api::ServerJsonrpcRequest as From<api::GetTaskRequest>>::from(j::<api::GetTaskRequest>(v)?)), var: Some(|v| Ok(var_ServerJsonrpcRequest(&<api::ServerJsonrpcRequest as From<api::GetTaskRequest>>::from(j::<api::GetTaskRequest>(v)?))))});
  r.froms.push(Conv{src:"ListRootsRequest", dst:"ServerJsonrpcRequest", f: |v| out(<api::ServerJsonrpcRequest as From<api::ListRootsRequest>>::from(j::<api::ListRootsRequest>(v)?)), var: Some(|v| Ok(var_ServerJsonrpcRequest(&<api::ServerJsonrpcRequest as From<api::ListRootsRequest>>::from(j::<api::ListRootsRequest>(v)?))))});
  r.froms.push(Conv{src:"ListTasksRequest", dst:"ServerJsonrpcRequest", f: |v| out(<api::ServerJsonrpcRequest as From<api::ListTasksRequest>>::from(j::<api::ListTasksRequest>(v)?)), var: Some(|v| Ok(var_ServerJsonrpcRequest(&<api::ServerJsonrpcRequest as From<api::ListTasksRequest>>::from(j::<api::ListTasksRequest>(v)?))))});
  r.froms.push(Conv{src:"PingRequest", dst:"ServerJsonrpcRequest", f: |v| out(<api::ServerJsonrpcRequest as From<api::PingRequest>>::from(j::<api::PingRequest>(v)?)), var: Some(|v| Ok(var_ServerJsonrpcRequest(&<api::ServerJsonrpcRequest as From<api::PingRequest>>::from(j::<api::PingRequest>(v)?))))});
  r.fromstrs.push(FromStrFn{ty:"ServerJsonrpcRequest", f: |s| s.parse::<api::ServerJsonrpcRequest>().map(|x| serde_json::to_value(x).unwrap()).map_err(|e| serde_json::to_string(&e).unwrap())});
  r.displays.push(DisplayFn{ty:"ServerJsonrpcResponse", f: |v| Ok(j::<api::ServerJsonrpcResponse>(v)?.to_string())});
  r.fromstrs.push(FromStrFn{ty:"ServerJsonrpcResponse", f: |s| s.parse::<api::ServerJsonrpcResponse>().map(|x| serde_json::to_value(x).unwrap()).map_err(|e| serde_json::to_string(&e).unwrap())});
  r.displays.push(DisplayFn{ty:"ServerMessage", f: |v| Ok(j::<api::ServerMessage>(v)?.to_string())});
  r.froms.push(Conv{src:"ServerJsonrpcNotification", dst:"ServerMessage", f: |v| out(<api::ServerMessage as From<api::ServerJsonrpcNotification>>::from(j::<api::ServerJsonrpcNotification>(v)?)), var: Some(|v| Ok(var_ServerMessage(&<api::ServerMessage as From<api::ServerJsonrpcNotification>>::from(j::<api::ServerJsonrpcNotification>(v)?))))});
  r.froms.push(Conv{src:"ServerJsonrpcRequest", dst:"ServerMessage", f: |v| out(<api::ServerMessage as From<api::ServerJsonrpcRequest>>::from(j::<api::ServerJsonrpcRequest>(v)?)), var: Some(|v| Ok(var_ServerMessage(&<api::ServerMessage as From<api::ServerJsonrpcRequest>>::from(j::<api::ServerJsonrpcRequest>(v)?))))});
  r.froms.push(Conv{src:"ServerJsonrpcResponse", dst:"ServerMessage", f: |v| out(<api::ServerMessage as From<api::ServerJsonrpcResponse>>::from(j::<api::ServerJsonrpcResponse>(v)?)), var: Some(|v| Ok(var_ServerMessage(&<api::ServerMessage as From<api::ServerJsonrpcResponse>>::from(j::<api::ServerJsonrpcResponse>(v)?))))});
  r.from_message.push(Assemble{src:"MessageFromServer", dst:"ServerMessage", f: |v, id| { let id = match id { Some(i) => Some(j::<api::RequestId>(i)?), None => None }; let x = j::<api::MessageFromServer>(v)?; Ok(<api::ServerMessage as api::FromMessage<api::MessageFromServer>>::from_message(x, id).map(|y| serde_json::json!([var_ServerMessage(&y), y])).map_err(|e| serde_json::to_value(e).unwrap())) } });
  r.fromstrs.push(FromStrFn{ty:"ServerMessage", f: |s| s.parse::<api::ServerMessage>().map(|x| serde_json::to_value(x).unwrap()).map_err(|e| serde_json::to_string(&e).unwrap())});
  r.displays.push(DisplayFn{ty:"ServerMessages", f: |v| Ok(j::<api::ServerMessages>(v)?.to_string())});
  r.froms.push(Conv{src:"ServerMessage", dst:"ServerMessages", f: |v| out(<api::ServerMessages as From<api::ServerMessage>>::from(j::<api::ServerMessage>(v)?)), var: Some(|v| Ok(var_ServerMessages(&<api::ServerMessages as From<api::ServerMessage>>::from(j::<api::ServerMessage>(v)?))))});
  r.froms.push(Conv{src:"Vec<ServerMessage>", dst:"ServerMessages", f: |v| out(<api::ServerMessages as From<Vec<api::ServerMessage>>>::from(j::<Vec<api::ServerMessage>>(v)?)), var: Some(|v| Ok(var_ServerMessages(&<api::ServerMessages as From<Vec<api::ServerMessage>>>::from(j::<Vec<api::ServerMessage>>(v)?))))});
  r.froms.push(Conv{src:"CancelledNotification", dst:"ServerNotification", f: |v| out(<api::ServerNotification as From<api::CancelledNotification>>::from(j::<api::CancelledNotification>(v)?)), var: Some(|v| Ok(var_ServerNotification(&<api::ServerNotification as From<api::CancelledNotification>>::from(j::<api::CancelledNotification>(v)?))))});
  r.froms.push(Conv{src:"ElicitationCompleteNotification", dst:"ServerNotification", f: |v| out(<api::ServerNotification as From<api::ElicitationCompleteNotification>>::from(j::<api::ElicitationCompleteNotification>(v)?)), var: Some(|v| Ok(var_ServerNotification(&<api::ServerNotification as From<api::ElicitationCompleteNotification>>::from(j::<api::ElicitationCompleteNotification>(v)?))))});
  r.froms.push(Conv{src:"LoggingMessageNotification", dst:"ServerNotification", f: |v| out(<api::ServerNotification as From<api::LoggingMessageNotification>>::from(j::<api::LoggingMessageNotification>(v)?)), var: Some(|v| Ok(var_ServerNotification(&<api::ServerNotification as From<api::LoggingMessageNotification>>::from(j::<api::LoggingMessageNotification>(v)?))))});
  r.froms.push(Conv{src:"ProgressNotification", dst:"ServerNotification", f: |v| out(<api::ServerNotification as From<api::ProgressNotification>>::from(j::<api::ProgressNotification>(v)?)), var: Some(|v| Ok(var_ServerNotification(&<api::ServerNotification as From<api::ProgressNotification>>::from(j::<api::ProgressNotification>(v)?))))});
  r.froms.push(Conv{src:"PromptListChangedNotification", dst:"ServerNotification", f: |v| out(<api::ServerNotification as From<api::PromptListChangedNotification>>::from(j::<api::PromptListChangedNotification>(v)?)), var: Some(|v| Ok(var_ServerNotification(&<api::ServerNotification as From<api::PromptListChangedNotification>>::from(j::<api::PromptListChangedNotification>(v)?))))});
  r.froms.push(Conv{src:"ResourceListChangedNotification", dst:"ServerNotification", f: |v| out(<api::ServerNotification as From<api::ResourceListChangedNotification>>::from(j::<api::ResourceListChangedNotification>(v)?)), var: Some(|v| Ok(var_ServerNotification(&<api::ServerNotification as From<api::ResourceListChangedNotification>>::from(j::<api::ResourceListChangedNotification>(v)?))))});
  r.froms.push(Conv{src:"ResourceUpdatedNotification", dst:"ServerNotification", f: |v| out(<api::ServerNotification as From<api::ResourceUpdatedNotification>>::from(j::<api::ResourceUpdatedNotification>(v)?)), var: Some(|v| Ok(var_ServerNotification(&<api::ServerNotification as From<api::ResourceUpdatedNotification>>::from(j::<api::ResourceUpdatedNotification>(v)?))))});
  r.froms.push(Conv{src:"TaskStatusNotification", dst:"ServerNotification", f: |v| out(<api::ServerNotification as From<api::TaskStatusNotification>>::from(j::<api::TaskStatusNotification>(v)?)), var: Some(|v| Ok(var_ServerNotification(&<api::ServerNotification as From<api::TaskStatusNotification>>::from(j::<api::TaskStatusNotification>(v)?))))});
  r.froms.push(Conv{src:"ToolListChangedNotification", dst:"ServerNotification", f: |v| out(<api::ServerNotification as From<api::ToolListChangedNotification>>::from(j::<api::ToolListChangedNotification>(v)?)), var: Some(|v| Ok(var_ServerNotification(&<api::ServerNotification as From<api::ToolListChangedNotification>>::from(j::<api::ToolListChangedNotification>(v)?))))});
  r.froms.push(Conv{src:"CancelTaskRequest", dst:"ServerRequest", f: |v| out(<api::ServerRequest as From<api::CancelTaskRequest>>::from(j::<api::CancelTaskRequest>(v)?)), var: Some(|v| Ok(var_ServerRequest(&<api::ServerRequest as From<api::CancelTaskRequest>>::from(j::<api::CancelTaskRequest>(v)?))))});
  r.froms.push(Conv{src:"CreateMessageRequest", dst:"ServerRequest", f: |v| out(<api::ServerRequest as From<api::CreateMessageRequest>>::from(j::<api::CreateMessageRequest>(v)?)), var: Some(|v| Ok(var_ServerRequest(&<api::ServerRequest as From<api::CreateMessageRequest>>::from(j::<api::CreateMessageRequest>(v)?))))});
  r.froms.push(Conv{src:"ElicitRequest", dst:"ServerRequest", f: |v| out(<api::ServerRequest as From<api::ElicitRequest>>::from(j::<api::ElicitRequest>(v)?)), var: Some(|v| Ok(var_ServerRequest(&<api::ServerRequest as From<api::ElicitRequest>>::from(j::<api::ElicitRequest>(v)?))))});
  r.froms.push(Conv{src:"GetTaskPayloadRequest", dst:"ServerRequest", f: |v| out(<api::ServerRequest as From<api::GetTaskPayloadRequest>>::from(j::<api::GetTaskPayloadRequest>(v)?)), var: Some(|v| Ok(var_ServerRequest(&<api::ServerRequest as From<api::GetTaskPayloadRequest>>::from(j::<api::GetTaskPayloadRequest>(v)?))))});
  r.froms.push(Conv{src:"GetTaskRequest", dst:"ServerRequest", f: |v| out(<api::ServerRequest as From<api::GetTaskRequest>>::from(j::<api::GetTaskRequest>(v)?)), var: Some(|v| Ok(var_ServerRequest(&<api::ServerRequest as From<api::GetTaskRequest>>::from(j::<api::GetTaskRequest>(v)?))))});
  r.froms.push(Conv{src:"ListRootsRequest", dst:"ServerRequest", f: |v| out(<api::ServerRequest as From<api::ListRootsRequest>>::from(j::<api::ListRootsRequest>(v)?)), var: Some(|v| Ok(var_ServerRequest(&<api::ServerRequest as From<api::ListRootsRequest>>::from(j::<api::ListRootsRequest>(v)?))))});
  r.froms.push(Conv{src:"ListTasksRequest", dst:"ServerRequest", f: |v| out(<api::ServerRequest as From<api::ListTasksRequest>>::from(j::<api::ListTasksRequest>(v)?)), var: Some(|v| Ok(var_ServerRequest(&<api::ServerRequest as From<api::ListTasksRequest>>::from(j::<api::ListTasksRequest>(v)?))))});
  r.froms.push(Conv{src:"PingRequest", dst:"ServerRequest", f: |v| out(<api::ServerRequest as From<api::PingRequest>>::from(j::<api::PingRequest>(v)?)), var: Some(|v| Ok(var_ServerRequest(&<api::ServerRequest as From<api::PingRequest>>::from(j::<api::PingRequest>(v)?))))});
  r.froms.push(Conv{src:"CallToolResult", dst:"ServerResult", f: |v| out(<api::ServerResult as From<api::CallToolResult>>::from(j::<api::CallToolResult>(v)?)), var: Some(|v| Ok(var_ServerResult(&<api::ServerResult as From<api::CallToolResult>>::from(j::<api::CallToolResult>(v)?))))});
  r.froms.push(Conv{src:"CancelTaskResult", dst:"ServerResult", f: |v| out(<api::ServerResult as From<api::CancelTaskResult>>::from(j::<api::CancelTaskResult>(v)?)), var: Some(|v| Ok(var_ServerResult(&<api::ServerResult as From<api::CancelTaskResult>>::from(j::<api::CancelTaskResult>(v)?))))});
  r.froms.push(Conv{src:"CompleteResult", dst:"ServerResult", f: |v| out(<api::ServerResult as From<api::CompleteResult>>::from(j::<api::CompleteResult>(v)?)), var: Some(|v| Ok(var_ServerResult(&<api::ServerResult as From<api::CompleteResult>>::from(j::<api::CompleteResult>(v)?))))});
  r.froms.push(Conv{src:"GetPromptResult", dst:"ServerResult", f: |v| out(<api::ServerResult as From<api::GetPromptResult>>::from(j::<api::GetPromptResult>(v)?)), var: Some(|v| Ok(var_ServerResult(&<api::ServerResult as From<api::GetPromptResult>>::from(j::<api::GetPromptResult>(v)?))))});
  r.froms.push(Conv{src:"GetTaskPayloadResult", dst:"ServerResult", f: |v| out(<api::ServerResult as From<api::GetTaskPayloadResult>>::from(j::<api::GetTaskPayloadResult>(v)?)), var: Some(|v| Ok(var_ServerResult(&<api::ServerResult as From<api::GetTaskPayloadResult>>::from(j::<api::GetTaskPayloadResult>(v)?))))});
  r.froms.push(Conv{src:"GetTaskResult", dst:"ServerResult", f: |v| out(<api::ServerResult as From<api::GetTaskResult>>::from(j::<api::GetTaskResult>(v)?)), var: Some(|v| Ok(var_ServerResult(&<api::ServerResult as From<api::GetTaskResult>>::from(j::<api::GetTaskResult>(v)?))))});
  r.froms.push(Conv{src:"InitializeResult", dst:"ServerResult", f: |v| out(<api::ServerResult as From<api::InitializeResult>>::from(j::<api::InitializeResult>(v)?)), var: Some(|v| Ok(var_ServerResult(&<api::ServerResult as From<api::InitializeResult>>::from(j::<api::InitializeResult>(v)?))))});
  r.froms.push(Conv{src:"ListPromptsResult", dst:"ServerResult", f: |v| out(<api::ServerResult as From<api::ListPromptsResult>>::from(j::<api::ListPromptsResult>(v)?)), var: Some(|v| Ok(var_ServerResult(&<api::ServerResult as From<api::ListPromptsResult>>::from(j::<api::ListPromptsResult>(v)?))))});
  r.froms.push(Conv{src:"ListResourceTemplatesResult", dst:"ServerResult", f: |v| out(<api::ServerResult as From<api::ListResourceTemplatesResult>>::from(j::<api::ListResourceTemplatesResult>(v)?)), var: Some(|v| Ok(var_ServerResult(&<api::ServerResult as From<api::ListResourceTemplatesResult>>::from(j::<api::ListResourceTemplatesResult>(v)?))))});
  r.froms.push(Conv{src:"ListResourcesResult", dst:"ServerResult", f: |v| out(<api::ServerResult as From<api::ListResourcesResult>>::from(j::<api::ListResourcesResult>(v)?)), var: Some(|v| Ok(var_ServerResult(&<api::ServerResult as From<api::ListResourcesResult>>::from(j::<api::ListResourcesResult>(v)?))))});
  r.froms.push(Conv{src:"ListTasksResult", dst:"ServerResult", f: |v| out(<api::ServerResult as From<api::ListTasksResult>>::from(j::<api::ListTasksResult>(v)?)), var: Some(|v| Ok(var_ServerResult(&<api::ServerResult as From<api::ListTasksResult>>::from(j::<api::ListTasksResult>(v)?))))});
  r.froms.push(Conv{src:"ListToolsResult", dst:"ServerResult", f: |v| out(<api::ServerResult as From<api::ListToolsResult>>::from(j::<api::ListToolsResult>(v)?)), var: Some(|v| Ok(var_ServerResult(&<api::ServerResult as From<api::ListToolsResult>>::from(j::<api::ListToolsResult>(v)?))))});
  r.froms.push(Conv{src:"ReadResourceResult", dst:"ServerResult", f: |v| out(<api::ServerResult as From<api::ReadResourceResult>>::from(j::<api::ReadResourceResult>(v)?)), var: Some(|v| Ok(var_ServerResult(&<api::ServerResult as From<api::ReadResourceResult>>::from(j::<api::ReadResourceResult>(v)?))))});
  r.froms.push(Conv{src:"Result", dst:"ServerResult", f: |v| out(<api::ServerResult as From<api::Result>>::from(j::<api::Result>(v)?)), var: Some(|v| Ok(var_ServerResult(&<api::ServerResult as From<api::Result>>::from(j::<api::Result>(v)?))))});
  r.defaults.push(DefaultFn{ty:"ServerTaskRequest", f: || out(<api::ServerTaskRequest as Default>::default())});
  r.defaults.push(DefaultFn{ty:"ServerTaskTools", f: || out(<api::ServerTaskTools as Default>::default())});
  r.defaults.push(DefaultFn{ty:"ServerTasks", f: || out(<api::ServerTasks as Default>::default())});
  r.defaults.push(DefaultFn{ty:"SetLevelMeta", f: || out(<api::SetLevelMeta as Default>::default())});
  r.froms.push(Conv{src:"TitledSingleSelectEnumSchema", dst:"SingleSelectEnumSchema", f: |v| out(<api::SingleSelectEnumSchema as From<api::TitledSingleSelectEnumSchema>>::from(j::<api::TitledSingleSelectEnumSchema>(v)?)), var: Some(|v| Ok(var_SingleSelectEnumSchema(&<api::SingleSelectEnumSchema as From<api::TitledSingleSelectEnumSchema>>::from(j::<api::TitledSingleSelectEnumSchema>(v)?))))});
  r.froms.push(Conv{src:"UntitledSingleSelectEnumSchema", dst:"SingleSelectEnumSchema", f: |v| out(<api::SingleSelectEnumSchema as From<api::UntitledSingleSelectEnumSchema>>::from(j::<api::UntitledSingleSelectEnumSchema>(v)?)), var: Some(|v| Ok(var_SingleSelectEnumSchema(&<api::SingleSelectEnumSchema as From<api::UntitledSingleSelectEnumSchema>>::from(j::<api::UntitledSingleSelectEnumSchema>(v)?))))});
  r.displays.push(DisplayFn{ty:"StringSchemaFormat", f: |v| Ok(j::<api::StringSchemaFormat>(v)?.to_string())});
  r.fromstrs.push(FromStrFn{ty:"StringSchemaFormat", f: |s| s.parse::<api::StringSchemaFormat>().map(|x| serde_json::to_value(x).unwrap()).map_err(|e| format!("{e:?}"))});
  r.defaults.push(DefaultFn{ty:"SubscribeMeta", f: || out(<api::SubscribeMeta as Default>::default())});
  r.defaults.push(DefaultFn{ty:"TaskAugmentedMeta", f: || out(<api::TaskAugmentedMeta as Default>::default())});
  r.defaults.push(DefaultFn{ty:"TaskAugmentedRequestParams", f: || out(<api::TaskAugmentedRequestParams as Default>::default())});
  r.defaults.push(DefaultFn{ty:"TaskMetadata", f: || out(<api::TaskMetadata as Default>::default())});
  r.displays.push(DisplayFn{ty:"TaskStatus", f: |v| Ok(j::<api::TaskStatus>(v)?.to_string())});
  r.defaults.push(DefaultFn{ty:"ToolAnnotations", f: || out(<api::ToolAnnotations as Default>::default())});
  r.defaults.push(DefaultFn{ty:"ToolChoice", f: || out(<api::ToolChoice as Default>::default())});
  r.displays.push(DisplayFn{ty:"ToolChoiceMode", f: |v| Ok(j::<api::ToolChoiceMode>(v)?.to_string())});
  r.defaults.push(DefaultFn{ty:"ToolExecution", f: || out(<api::ToolExecution as Default>::default())});
  r.displays.push(DisplayFn{ty:"ToolExecutionTaskSupport", f: |v| Ok(j::<api::ToolExecutionTaskSupport>(v)?.to_string())});
  r.defaults.push(DefaultFn{ty:"UnsubscribeMeta", f: || out(<api::UnsubscribeMeta as Default>::default())});
  r.variants.push(VariantFn{ty:"ClientJsonrpcNotification", f: |v| Ok(var_ClientJsonrpcNotification(&j::<api::ClientJsonrpcNotification>(v)?))});
  r.variants.push(VariantFn{ty:"ClientJsonrpcRequest", f: |v| Ok(var_ClientJsonrpcRequest(&j::<api::ClientJsonrpcRequest>(v)?))});
  r.variants.push(VariantFn{ty:"ClientJsonrpcResponse", f: |v| Ok(var_ClientJsonrpcResponse(&j::<api::ClientJsonrpcResponse>(v)?))});
  r.variants.push(VariantFn{ty:"ClientMessage", f: |v| Ok(var_ClientMessage(&j::<api::ClientMessage>(v)?))});
  r.variants.push(VariantFn{ty:"ClientMessages", f: |v| Ok(var_ClientMessages(&j::<api::ClientMessages>(v)?))});
  r.variants.push(VariantFn{ty:"ClientNotification", f: |v| Ok(var_ClientNotification(&j::<api::ClientNotification>(v)?))});
  r.variants.push(VariantFn{ty:"ClientRequest", f: |v| Ok(var_ClientRequest(&j::<api::ClientRequest>(v)?))});
  r.variants.push(VariantFn{ty:"ClientResult", f: |v| Ok(var_ClientResult(&j::<api::ClientResult>(v)?))});
  r.variants.push(VariantFn{ty:"ClientTaskResult", f: |v| Ok(var_ClientTaskResult(&j::<api::ClientTaskResult>(v)?))});
  r.variants.push(VariantFn{ty:"CompleteRequestRef", f: |v| Ok(var_CompleteRequestRef(&j::<api::CompleteRequestRef>(v)?))});
  r.variants.push(VariantFn{ty:"ContentBlock", f: |v| Ok(var_ContentBlock(&j::<api::ContentBlock>(v)?))});
  r.variants.push(VariantFn{ty:"CreateMessageContent", f: |v| Ok(var_CreateMessageContent(&j::<api::CreateMessageContent>(v)?))});
  r.variants.push(VariantFn{ty:"ElicitRequestParams", f: |v| Ok(var_ElicitRequestParams(&j::<api::ElicitRequestParams>(v)?))});
  r.variants.push(VariantFn{ty:"ElicitResultContent", f: |v| Ok(var_ElicitResultContent(&j::<api::ElicitResultContent>(v)?))});
  r.variants.push(VariantFn{ty:"ElicitResultContentPrimitive", f: |v| Ok(var_ElicitResultContentPrimitive(&j::<api::ElicitResultContentPrimitive>(v)?))});
  r.variants.push(VariantFn{ty:"EmbeddedResourceResource", f: |v| Ok(var_EmbeddedResourceResource(&j::<api::EmbeddedResourceResource>(v)?))});
  r.variants.push(VariantFn{ty:"EnumSchema", f: |v| Ok(var_EnumSchema(&j::<api::EnumSchema>(v)?))});
  r.variants.push(VariantFn{ty:"JsonrpcMessage", f: |v| Ok(var_JsonrpcMessage(&j::<api::JsonrpcMessage>(v)?))});
  r.variants.push(VariantFn{ty:"JsonrpcResponse", f: |v| Ok(var_JsonrpcResponse(&j::<api::JsonrpcResponse>(v)?))});
  r.variants.push(VariantFn{ty:"MessageFromClient", f: |v| Ok(var_MessageFromClient(&j::<api::MessageFromClient>(v)?))});
  r.variants.push(VariantFn{ty:"MessageFromServer", f: |v| Ok(var_MessageFromServer(&j::<api::MessageFromServer>(v)?))});
  r.variants.push(VariantFn{ty:"MessagesFromClient", f: |v| Ok(var_MessagesFromClient(&j::<api::MessagesFromClient>(v)?))});
  r.variants.push(VariantFn{ty:"MessagesFromServer", f: |v| Ok(var_MessagesFromServer(&j::<api::MessagesFromServer>(v)?))});
  r.variants.push(VariantFn{ty:"MultiSelectEnumSchema", f: |v| Ok(var_MultiSelectEnumSchema(&j::<api::MultiSelectEnumSchema>(v)?))});
  r.variants.push(VariantFn{ty:"NotificationFromClient", f: |v| Ok(var_NotificationFromClient(&j::<api::NotificationFromClient>(v)?))});
  r.variants.push(VariantFn{ty:"NotificationFromServer", f: |v| Ok(var_NotificationFromServer(&j::<api::NotificationFromServer>(v)?))});
  r.variants.push(VariantFn{ty:"PrimitiveSchemaDefinition", f: |v| Ok(var_PrimitiveSchemaDefinition(&j::<api::PrimitiveSchemaDefinition>(v)?))});
  r.variants.push(VariantFn{ty:"ProgressToken", f: |v| Ok(var_ProgressToken(&j::<api::ProgressToken>(v)?))});
  r.variants.push(VariantFn{ty:"ReadResourceContent", f: |v| Ok(var_ReadResourceContent(&j::<api::ReadResourceContent>(v)?))});
  r.variants.push(VariantFn{ty:"RequestFromClient", f: |v| Ok(var_RequestFromClient(&j::<api::RequestFromClient>(v)?))});
  r.variants.push(VariantFn{ty:"RequestFromServer", f: |v| Ok(var_RequestFromServer(&j::<api::RequestFromServer>(v)?))});
  r.variants.push(VariantFn{ty:"RequestId", f: |v| Ok(var_RequestId(&j::<api::RequestId>(v)?))});
  r.variants.push(VariantFn{ty:"ResultFromClient", f: |v| Ok(var_ResultFromClient(&j::<api::ResultFromClient>(v)?))});
  r.variants.push(VariantFn{ty:"ResultFromServer", f: |v| Ok(var_ResultFromServer(&j::<api::ResultFromServer>(v)?))});
  r.variants.push(VariantFn{ty:"SamplingMessageContent", f: |v| Ok(var_SamplingMessageContent(&j::<api::SamplingMessageContent>(v)?))});
  r.variants.push(VariantFn{ty:"SamplingMessageContentBlock", f: |v| Ok(var_SamplingMessageContentBlock(&j::<api::SamplingMessageContentBlock>(v)?))});
  r.variants.push(VariantFn{ty:"ServerJsonrpcNotification", f: |v| Ok(var_ServerJsonrpcNotification(&j::<api::ServerJsonrpcNotification>(v)?))});
  r.variants.push(VariantFn{ty:"ServerJsonrpcRequest", f: |v| Ok(var_ServerJsonrpcRequest(&j::<api::ServerJsonrpcRequest>(v)?))});
  r.variants.push(VariantFn{ty:"ServerJsonrpcResponse", f: |v| Ok(var_ServerJsonrpcResponse(&j::<api::ServerJsonrpcResponse>(v)?))});
  r.variants.push(VariantFn{ty:"ServerMessage", f: |v| Ok(var_ServerMessage(&j::<api::ServerMessage>(v)?))});
  r.variants.push(VariantFn{ty:"ServerMessages", f: |v| Ok(var_ServerMessages(&j::<api::ServerMessages>(v)?))});
  r.variants.push(VariantFn{ty:"ServerNotification", f: |v| Ok(var_ServerNotification(&j::<api::ServerNotification>(v)?))});
  r.variants.push(VariantFn{ty:"ServerRequest", f: |v| Ok(var_ServerRequest(&j::<api::ServerRequest>(v)?))});
  r.variants.push(VariantFn{ty:"ServerResult", f: |v| Ok(var_ServerResult(&j::<api::ServerResult>(v)?))});
  r.variants.push(VariantFn{ty:"SingleSelectEnumSchema", f: |v| Ok(var_SingleSelectEnumSchema(&j::<api::SingleSelectEnumSchema>(v)?))});
  r }
pub fn var_ClientJsonrpcNotification(x: &api::ClientJsonrpcNotification) -> String {
  #[allow(unreachable_patterns)] match x {
    api::ClientJsonrpcNotification::CancelledNotification(..) => "CancelledNotification".to_string(),
    api::ClientJsonrpcNotification::InitializedNotification(..) => "InitializedNotification".to_string(),
    api::ClientJsonrpcNotification::ProgressNotification(..) => "ProgressNotification".to_string(),
    api::ClientJsonrpcNotification::TaskStatusNotification(..) => "TaskStatusNotification".to_string(),
    api::ClientJsonrpcNotification::RootsListChangedNotification(..) => "RootsListChangedNotification".to_string(),
    api::ClientJsonrpcNotification::CustomNotification(..) => "CustomNotification".to_string(),
    _ => "?".to_string(),
  }
}
pub fn var_ClientJsonrpcRequest(x: &api::ClientJsonrpcRequest) -> String {
  #[allow(unreachable_patterns)] match x {
    api::ClientJsonrpcRequest::InitializeRequest(..) => "InitializeRequest".to_string(),
    api::ClientJsonrpcRequest::PingRequest(..) => "PingRequest".to_string(),
    api::ClientJsonrpcRequest::ListResourcesRequest(..) => "ListResourcesRequest".to_string(),
    api::ClientJsonrpcRequest::ListResourceTemplatesRequest(..) => "ListResourceTemplatesRequest".to_string(),
    api::ClientJsonrpcRequest::ReadResourceRequest(..) => "ReadResourceRequest".to_string(),
    api::ClientJsonrpcRequest::SubscribeRequest(..) => "SubscribeRequest".to_string(),
    api::ClientJsonrpcRequest::UnsubscribeRequest(..) => "UnsubscribeRequest".to_string(),
    api::ClientJsonrpcRequest::ListPromptsRequest(..) => "ListPromptsRequest".to_string(),
    api::ClientJsonrpcRequest::GetPromptRequest(..) => "GetPromptRequest".to_string(),
    api::ClientJsonrpcRequest::ListToolsRequest(..) => "ListToolsRequest".to_string(),
    api::ClientJsonrpcRequest::CallToolRequest(..) => "CallToolRequest".to_string(),
    api::ClientJsonrpcRequest::GetTaskRequest(..) => "GetTaskRequest".to_string(),
    api::ClientJsonrpcRequest::GetTaskPayloadRequest(..) => "GetTaskPayloadRequest".to_string(),
    api::ClientJsonrpcRequest::CancelTaskRequest(..) => "CancelTaskRequest".to_string(),
    api::ClientJsonrpcRequest::ListTasksRequest(..) => "ListTasksRequest".to_string(),
    api::ClientJsonrpcRequest::SetLevelRequest(..) => "SetLevelRequest".to_string(),
    api::ClientJsonrpcRequest::CompleteRequest(..) => "CompleteRequest".to_string(),
    api::ClientJsonrpcRequest::CustomRequest(..) => "CustomRequest".to_string(),
    _ => "?".to_string(),
  }
}
pub fn var_ClientJsonrpcResponse(x: &api::ClientJsonrpcResponse) -> String {
  var_ResultFromClient(&x.result)
}
pub fn var_ClientMessage(x: &api::ClientMessage) -> String {
  #[allow(unreachable_patterns)] match x {
    api::ClientMessage::Request(y) => format!("Request/{}", var_ClientJsonrpcRequest(y)),
    api::ClientMessage::Notification(y) => format!("Notification/{}", var_ClientJsonrpcNotification(y)),
    api::ClientMessage::Response(y) => format!("Response/{}", var_ClientJsonrpcResponse(y)),
    api::ClientMessage::Error(..) => "Error".to_string(),
    _ => "?".to_string(),
  }
}
pub fn var_ClientMessages(x: &api::ClientMessages) -> String {
  #[allow(unreachable_patterns)] match x {
    api::ClientMessages::Single(y) => format!("Single/{}", var_ClientMessage(y)),
    api::ClientMessages::Batch(..) => "Batch".to_string(),
    _ => "?".to_string(),
  }
}
pub fn var_ClientNotification(x: &api::ClientNotification) -> String {
  #[allow(unreachable_patterns)] match x {
    api::ClientNotification::CancelledNotification(..) => "CancelledNotification".to_string(),
    api::ClientNotification::InitializedNotification(..) => "InitializedNotification".to_string(),
    api::ClientNotification::ProgressNotification(..) => "ProgressNotification".to_string(),
    api::ClientNotification::TaskStatusNotification(..) => "TaskStatusNotification".to_string(),
    api::ClientNotification::RootsListChangedNotification(..) => "RootsListChangedNotification".to_string(),
    _ => "?".to_string(),
  }
}
pub fn var_ClientRequest(x: &api::ClientRequest) -> String {
  #[allow(unreachable_patterns)] match x {
    api::ClientRequest::InitializeRequest(..) => "InitializeRequest".to_string(),
    api::ClientRequest::PingRequest(..) => "PingRequest".to_string(),
    api::ClientRequest::ListResourcesRequest(..) => "ListResourcesRequest".to_string(),
    api::ClientRequest::ListResourceTemplatesRequest(..) => "ListResourceTemplatesRequest".to_string(),
    api::ClientRequest::ReadResourceRequest(..) => "ReadResourceRequest".to_string(),
    api::ClientRequest::SubscribeRequest(..) => "SubscribeRequest".to_string(),
    api::ClientRequest::UnsubscribeRequest(..) => "UnsubscribeRequest".to_string(),
    api::ClientRequest::ListPromptsRequest(..) => "ListPromptsRequest".to_string(),
    api::ClientRequest::GetPromptRequest(..) => "GetPromptRequest".to_string(),
    api::ClientRequest::ListToolsRequest(..) => "ListToolsRequest".to_string(),
    api::ClientRequest::CallToolRequest(..) => "CallToolRequest".to_string(),
    api::ClientRequest::GetTaskRequest(..) => "GetTaskRequest".to_string(),
    api::ClientRequest::GetTaskPayloadRequest(..) => "GetTaskPayloadRequest".to_string(),
    api::ClientRequest::CancelTaskRequest(..) => "CancelTaskRequest".to_string(),
    api::ClientRequest::ListTasksRequest(..) => "ListTasksRequest".to_string(),
    api::ClientRequest::SetLevelRequest(..) => "SetLevelRequest".to_string(),
    api::ClientRequest::CompleteRequest(..) => "CompleteRequest".to_string(),
    _ => "?".to_string(),
  }
}
pub fn var_ClientResult(x: &api::ClientResult) -> String {
  #[allow(unreachable_patterns)] match x {
    api::ClientResult::GetTaskResult(..) => "GetTaskResult".to_string(),
    api::ClientResult::CancelTaskResult(..) => "CancelTaskResult".to_string(),
    api::ClientResult::ListTasksResult(..) => "ListTasksResult".to_string(),
    api::ClientResult::CreateMessageResult(..) => "CreateMessageResult".to_string(),
    api::ClientResult::ListRootsResult(..) => "ListRootsResult".to_string(),
    api::ClientResult::ElicitResult(..) => "ElicitResult".to_string(),
    api::ClientResult::Result(..) => "Result".to_string(),
    api::ClientResult::GetTaskPayloadResult(..) => "GetTaskPayloadResult".to_string(),
    _ => "?".to_string(),
  }
}
pub fn var_ClientTaskResult(x: &api::ClientTaskResult) -> String {
  #[allow(unreachable_patterns)] match x {
    api::ClientTaskResult::ElicitResult(..) => "ElicitResult".to_string(),
    api::ClientTaskResult::CreateMessageResult(..) => "CreateMessageResult".to_string(),
    _ => "?".to_string(),
  }
}
pub fn var_CompleteRequestRef(x: &api::CompleteRequestRef) -> String {
  #[allow(unreachable_patterns)] match x {
    api::CompleteRequestRef::PromptReference(..) => "PromptReference".to_string(),
    api::CompleteRequestRef::ResourceTemplateReference(..) => "ResourceTemplateReference".to_string(),
    _ => "?".to_string(),
  }
}
pub fn var_ContentBlock(x: &api::ContentBlock) -> String {
  #[allow(unreachable_patterns)] match x {
    api::ContentBlock::TextContent(..) => "TextContent".to_string(),
    api::ContentBlock::ImageContent(..) => "ImageContent".to_string(),
    api::ContentBlock::AudioContent(..) => "AudioContent".to_string(),
    api::ContentBlock::ResourceLink(..) => "ResourceLink".to_string(),
    api::ContentBlock::EmbeddedResource(..) => "EmbeddedResource".to_string(),
    _ => "?".to_string(),
  }
}
pub fn var_CreateMessageContent(x: &api::CreateMessageContent) -> String {
  #[allow(unreachable_patterns)] match x {
    api::CreateMessageContent::TextContent(..) => "TextContent".to_string(),
    api::CreateMessageContent::ImageContent(..) => "ImageContent".to_string(),
    api::CreateMessageContent::AudioContent(..) => "AudioContent".to_string(),
    api::CreateMessageContent::ToolUseContent(..) => "ToolUseContent".to_string(),
    api::CreateMessageContent::ToolResultContent(..) => "ToolResultContent".to_string(),
    api::CreateMessageContent::SamplingMessageContentBlock(..) => "SamplingMessageContentBlock".to_string(),
    _ => "?".to_string(),
  }
}
pub fn var_ElicitRequestParams(x: &api::ElicitRequestParams) -> String {
  #[allow(unreachable_patterns)] match x {
    api::ElicitRequestParams::UrlParams(..) => "UrlParams".to_string(),
    api::ElicitRequestParams::FormParams(..) => "FormParams".to_string(),
    _ => "?".to_string(),
  }
}
pub fn var_ElicitResultContent(x: &api::ElicitResultContent) -> String {
  #[allow(unreachable_patterns)] match x {
    api::ElicitResultContent::StringArray(..) => "StringArray".to_string(),
    api::ElicitResultContent::Primitive(y) => format!("Primitive/{}", var_ElicitResultContentPrimitive(y)),
    _ => "?".to_string(),
  }
}
pub fn var_ElicitResultContentPrimitive(x: &api::ElicitResultContentPrimitive) -> String {
  #[allow(unreachable_patterns)] match x {
    api::ElicitResultContentPrimitive::Boolean(..) => "Boolean".to_string(),
    api::ElicitResultContentPrimitive::String(..) => "String".to_string(),
    api::ElicitResultContentPrimitive::Integer(..) => "Integer".to_string(),
    _ => "?".to_string(),
  }
}
pub fn var_EmbeddedResourceResource(x: &api::EmbeddedResourceResource) -> String {
  #[allow(unreachable_patterns)] match x {
    api::EmbeddedResourceResource::TextResourceContents(..) => "TextResourceContents".to_string(),
    api::EmbeddedResourceResource::BlobResourceContents(..) => "BlobResourceContents".to_string(),
    _ => "?".to_string(),
  }
}
pub fn var_EnumSchema(x: &api::EnumSchema) -> String {
  #[allow(unreachable_patterns)] match x {
    api::EnumSchema::UntitledSingleSelectEnumSchema(..) => "UntitledSingleSelectEnumSchema".to_string(),
    api::EnumSchema::TitledSingleSelectEnumSchema(..) => "TitledSingleSelectEnumSchema".to_string(),
    api::EnumSchema::UntitledMultiSelectEnumSchema(..) => "UntitledMultiSelectEnumSchema".to_string(),
    api::EnumSchema::TitledMultiSelectEnumSchema(..) => "TitledMultiSelectEnumSchema".to_string(),
    api::EnumSchema::LegacyTitledEnumSchema(..) => "LegacyTitledEnumSchema".to_string(),
    _ => "?".to_string(),
  }
}
pub fn var_JsonrpcMessage(x: &api::JsonrpcMessage) -> String {
  #[allow(unreachable_patterns)] match x {
    api::JsonrpcMessage::Request(..) => "Request".to_string(),
    api::JsonrpcMessage::Notification(..) => "Notification".to_string(),
    api::JsonrpcMessage::ResultResponse(..) => "ResultResponse".to_string(),
    api::JsonrpcMessage::ErrorResponse(..) => "ErrorResponse".to_string(),
    _ => "?".to_string(),
  }
}
pub fn var_JsonrpcResponse(x: &api::JsonrpcResponse) -> String {
  #[allow(unreachable_patterns)] match x {
    api::JsonrpcResponse::ResultResponse(..) => "ResultResponse".to_string(),
    api::JsonrpcResponse::ErrorResponse(..) => "ErrorResponse".to_string(),
    _ => "?".to_string(),
  }
}
pub fn var_MessageFromClient(x: &api::MessageFromClient) -> String {
  #[allow(unreachable_patterns)] match x {
    api::MessageFromClient::RequestFromClient(y) => format!("RequestFromClient/{}", var_RequestFromClient(y)),
    api::MessageFromClient::ResultFromClient(y) => format!("ResultFromClient/{}", var_ResultFromClient(y)),
    api::MessageFromClient::NotificationFromClient(y) => format!("NotificationFromClient/{}", var_NotificationFromClient(y)),
    api::MessageFromClient::Error(..) => "Error".to_string(),
    _ => "?".to_string(),
  }
}
pub fn var_MessageFromServer(x: &api::MessageFromServer) -> String {
  #[allow(unreachable_patterns)] match x {
    api::MessageFromServer::RequestFromServer(y) => format!("RequestFromServer/{}", var_RequestFromServer(y)),
    api::MessageFromServer::ResultFromServer(y) => format!("ResultFromServer/{}", var_ResultFromServer(y)),
    api::MessageFromServer::NotificationFromServer(y) => format!("NotificationFromServer/{}", var_NotificationFromServer(y)),
    api::MessageFromServer::Error(..) => "Error".to_string(),
    _ => "?".to_string(),
  }
}
pub fn var_MessagesFromClient(x: &api::MessagesFromClient) -> String {
  #[allow(unreachable_patterns)] match x {
    api::MessagesFromClient::Single(y) => format!("Single/{}", var_MessageFromClient(y)),
    api::MessagesFromClient::Batch(..) => "Batch".to_string(),
    _ => "?".to_string(),
  }
}
pub fn var_MessagesFromServer(x: &api::MessagesFromServer) -> String {
  #[allow(unreachable_patterns)] match x {
    api::MessagesFromServer::Single(y) => format!("Single/{}", var_MessageFromServer(y)),
    api::MessagesFromServer::Batch(..) => "Batch".to_string(),
    _ => "?".to_string(),
  }
}
pub fn var_MultiSelectEnumSchema(x: &api::MultiSelectEnumSchema) -> String {
  #[allow(unreachable_patterns)] match x {
    api::MultiSelectEnumSchema::UntitledMultiSelectEnumSchema(..) => "UntitledMultiSelectEnumSchema".to_string(),
    api::MultiSelectEnumSchema::TitledMultiSelectEnumSchema(..) => "TitledMultiSelectEnumSchema".to_string(),
    _ => "?".to_string(),
  }
}
pub fn var_NotificationFromClient(x: &api::NotificationFromClient) -> String {
  #[allow(unreachable_patterns)] match x {
    api::NotificationFromClient::CancelledNotification(..) => "CancelledNotification".to_string(),
    api::NotificationFromClient::InitializedNotification(..) => "InitializedNotification".to_string(),
    api::NotificationFromClient::ProgressNotification(..) => "ProgressNotification".to_string(),
    api::NotificationFromClient::TaskStatusNotification(..) => "TaskStatusNotification".to_string(),
    api::NotificationFromClient::RootsListChangedNotification(..) => "RootsListChangedNotification".to_string(),
    api::NotificationFromClient::CustomNotification(..) => "CustomNotification".to_string(),
    _ => "?".to_string(),
  }
}
pub fn var_NotificationFromServer(x: &api::NotificationFromServer) -> String {
  #[allow(unreachable_patterns)] match x {
    api::NotificationFromServer::CancelledNotification(..) => "CancelledNotification".to_string(),
    api::NotificationFromServer::ProgressNotification(..) => "ProgressNotification".to_string(),
    api::NotificationFromServer::ResourceListChangedNotification(..) => "ResourceListChangedNotification".to_string(),
    api::NotificationFromServer::ResourceUpdatedNotification(..) => "ResourceUpdatedNotification".to_string(),
    api::NotificationFromServer::PromptListChangedNotification(..) => "PromptListChangedNotification".to_string(),
    api::NotificationFromServer::ToolListChangedNotification(..) => "ToolListChangedNotification".to_string(),
    api::NotificationFromServer::TaskStatusNotification(..) => "TaskStatusNotification".to_string(),
    api::NotificationFromServer::LoggingMessageNotification(..) => "LoggingMessageNotification".to_string(),
    api::NotificationFromServer::ElicitationCompleteNotification(..) => "ElicitationCompleteNotification".to_string(),
    api::NotificationFromServer::CustomNotification(..) => "CustomNotification".to_string(),
    _ => "?".to_string(),
  }
}
pub fn var_PrimitiveSchemaDefinition(x: &api::PrimitiveSchemaDefinition) -> String {
  #[allow(unreachable_patterns)] match x {
    api::PrimitiveSchemaDefinition::StringSchema(..) => "StringSchema".to_string(),
    api::PrimitiveSchemaDefinition::NumberSchema(..) => "NumberSchema".to_string(),
    api::PrimitiveSchemaDefinition::BooleanSchema(..) => "BooleanSchema".to_string(),
    api::PrimitiveSchemaDefinition::UntitledSingleSelectEnumSchema(..) => "UntitledSingleSelectEnumSchema".to_string(),
    api::PrimitiveSchemaDefinition::TitledSingleSelectEnumSchema(..) => "TitledSingleSelectEnumSchema".to_string(),
    api::PrimitiveSchemaDefinition::UntitledMultiSelectEnumSchema(..) => "UntitledMultiSelectEnumSchema".to_string(),
    api::PrimitiveSchemaDefinition::TitledMultiSelectEnumSchema(..) => "TitledMultiSelectEnumSchema".to_string(),
    api::PrimitiveSchemaDefinition::LegacyTitledEnumSchema(..) => "LegacyTitledEnumSchema".to_string(),
    _ => "?".to_string(),
  }
}
pub fn var_ProgressToken(x: &api::ProgressToken) -> String {
  #[allow(unreachable_patterns)] match x {
    api::ProgressToken::String(..) => "String".to_string(),
    api::ProgressToken::Integer(..) => "Integer".to_string(),
    _ => "?".to_string(),
  }
}
pub fn var_ReadResourceContent(x: &api::ReadResourceContent) -> String {
  #[allow(unreachable_patterns)] match x {
    api::ReadResourceContent::TextResourceContents(..) => "TextResourceContents".to_string(),
    api::ReadResourceContent::BlobResourceContents(..) => "BlobResourceContents".to_string(),
    _ => "?".to_string(),
  }
}
pub fn var_RequestFromClient(x: &api::RequestFromClient) -> String {
  #[allow(unreachable_patterns)] match x {
    api::RequestFromClient::InitializeRequest(..) => "InitializeRequest".to_string(),
    api::RequestFromClient::PingRequest(..) => "PingRequest".to_string(),
    api::RequestFromClient::ListResourcesRequest(..) => "ListResourcesRequest".to_string(),
    api::RequestFromClient::ListResourceTemplatesRequest(..) => "ListResourceTemplatesRequest".to_string(),
    api::RequestFromClient::ReadResourceRequest(..) => "ReadResourceRequest".to_string(),
    api::RequestFromClient::SubscribeRequest(..) => "SubscribeRequest".to_string(),
    api::RequestFromClient::UnsubscribeRequest(..) => "UnsubscribeRequest".to_string(),
    api::RequestFromClient::ListPromptsRequest(..) => "ListPromptsRequest".to_string(),
    api::RequestFromClient::GetPromptRequest(..) => "GetPromptRequest".to_string(),
    api::RequestFromClient::ListToolsRequest(..) => "ListToolsRequest".to_string(),
    api::RequestFromClient::CallToolRequest(..) => "CallToolRequest".to_string(),
    api::RequestFromClient::GetTaskRequest(..) => "GetTaskRequest".to_string(),
    api::RequestFromClient::GetTaskPayloadRequest(..) => "GetTaskPayloadRequest".to_string(),
    api::RequestFromClient::CancelTaskRequest(..) => "CancelTaskRequest".to_string(),
    api::RequestFromClient::ListTasksRequest(..) => "ListTasksRequest".to_string(),
    api::RequestFromClient::SetLevelRequest(..) => "SetLevelRequest".to_string(),
    api::RequestFromClient::CompleteRequest(..) => "CompleteRequest".to_string(),
    api::RequestFromClient::CustomRequest(..) => "CustomRequest".to_string(),
    _ => "?".to_string(),
  }
}
pub fn var_RequestFromServer(x: &api::RequestFromServer) -> String {
  #[allow(unreachable_patterns)] match x {
    api::RequestFromServer::PingRequest(..) => "PingRequest".to_string(),
    api::RequestFromServer::GetTaskRequest(..) => "GetTaskRequest".to_string(),
    api::RequestFromServer::GetTaskPayloadRequest(..) => "GetTaskPayloadRequest".to_string(),
    api::RequestFromServer::CancelTaskRequest(..) => "CancelTaskRequest".to_string(),
    api::RequestFromServer::ListTasksRequest(..) => "ListTasksRequest".to_string(),
    api::RequestFromServer::CreateMessageRequest(..) => "CreateMessageRequest".to_string(),
    api::RequestFromServer::ListRootsRequest(..) => "ListRootsRequest".to_string(),
    api::RequestFromServer::ElicitRequest(y) => format!("ElicitRequest/{}", var_ElicitRequestParams(y)),
    api::RequestFromServer::CustomRequest(..) => "CustomRequest".to_string(),
    _ => "?".to_string(),
  }
}
pub fn var_RequestId(x: &api::RequestId) -> String {
  #[allow(unreachable_patterns)] match x {
    api::RequestId::String(..) => "String".to_string(),
    api::RequestId::Integer(..) => "Integer".to_string(),
    _ => "?".to_string(),
  }
}
pub fn var_ResultFromClient(x: &api::ResultFromClient) -> String {
  #[allow(unreachable_patterns)] match x {
    api::ResultFromClient::GetTaskResult(..) => "GetTaskResult".to_string(),
    api::ResultFromClient::CancelTaskResult(..) => "CancelTaskResult".to_string(),
    api::ResultFromClient::ListTasksResult(..) => "ListTasksResult".to_string(),
    api::ResultFromClient::CreateMessageResult(..) => "CreateMessageResult".to_string(),
    api::ResultFromClient::ListRootsResult(..) => "ListRootsResult".to_string(),
    api::ResultFromClient::ElicitResult(..) => "ElicitResult".to_string(),
    api::ResultFromClient::CreateTaskResult(..) => "CreateTaskResult".to_string(),
    api::ResultFromClient::Result(..) => "Result".to_string(),
    api::ResultFromClient::GetTaskPayloadResult(..) => "GetTaskPayloadResult".to_string(),
    _ => "?".to_string(),
  }
}
pub fn var_ResultFromServer(x: &api::ResultFromServer) -> String {
  #[allow(unreachable_patterns)] match x {
    api::ResultFromServer::InitializeResult(..) => "InitializeResult".to_string(),
    api::ResultFromServer::ListResourcesResult(..) => "ListResourcesResult".to_string(),
    api::ResultFromServer::ListResourceTemplatesResult(..) => "ListResourceTemplatesResult".to_string(),
    api::ResultFromServer::ReadResourceResult(..) => "ReadResourceResult".to_string(),
    api::ResultFromServer::ListPromptsResult(..) => "ListPromptsResult".to_string(),
    api::ResultFromServer::GetPromptResult(..) => "GetPromptResult".to_string(),
    api::ResultFromServer::ListToolsResult(..) => "ListToolsResult".to_string(),
    api::ResultFromServer::CallToolResult(..) => "CallToolResult".to_string(),
    api::ResultFromServer::GetTaskResult(..) => "GetTaskResult".to_string(),
    api::ResultFromServer::CancelTaskResult(..) => "CancelTaskResult".to_string(),
    api::ResultFromServer::ListTasksResult(..) => "ListTasksResult".to_string(),
    api::ResultFromServer::CompleteResult(..) => "CompleteResult".to_string(),
    api::ResultFromServer::CreateTaskResult(..) => "CreateTaskResult".to_string(),
    api::ResultFromServer::Result(..) => "Result".to_string(),
    api::ResultFromServer::GetTaskPayloadResult(..) => "GetTaskPayloadResult".to_string(),
    _ => "?".to_string(),
  }
}
pub fn var_SamplingMessageContent(x: &api::SamplingMessageContent) -> String {
  #[allow(unreachable_patterns)] match x {
    api::SamplingMessageContent::TextContent(..) => "TextContent".to_string(),
    api::SamplingMessageContent::ImageContent(..) => "ImageContent".to_string(),
    api::SamplingMessageContent::AudioContent(..) => "AudioContent".to_string(),
    api::SamplingMessageContent::ToolUseContent(..) => "ToolUseContent".to_string(),
    api::SamplingMessageContent::ToolResultContent(..) => "ToolResultContent".to_string(),
    api::SamplingMessageContent::SamplingMessageContentBlock(..) => "SamplingMessageContentBlock".to_string(),
    _ => "?".to_string(),
  }
}
pub fn var_SamplingMessageContentBlock(x: &api::SamplingMessageContentBlock) -> String {
  #[allow(unreachable_patterns)] match x {
    api::SamplingMessageContentBlock::TextContent(..) => "TextContent".to_string(),
    api::SamplingMessageContentBlock::ImageContent(..) => "ImageContent".to_string(),
    api::SamplingMessageContentBlock::AudioContent(..) => "AudioContent".to_string(),
    api::SamplingMessageContentBlock::ToolUseContent(..) => "ToolUseContent".to_string(),
    api::SamplingMessageContentBlock::ToolResultContent(..) => "ToolResultContent".to_string(),
    _ => "?".to_string(),
  }
}
pub fn var_ServerJsonrpcNotification(x: &api::ServerJsonrpcNotification) -> String {
  #[allow(unreachable_patterns)] match x {
    api::ServerJsonrpcNotification::CancelledNotification(..) => "CancelledNotification".to_string(),
    api::ServerJsonrpcNotification::ProgressNotification(..) => "ProgressNotification".to_string(),
    api::ServerJsonrpcNotification::ResourceListChangedNotification(..) => "ResourceListChangedNotification".to_string(),
    api::ServerJsonrpcNotification::ResourceUpdatedNotification(..) => "ResourceUpdatedNotification".to_string(),
    api::ServerJsonrpcNotification::PromptListChangedNotification(..) => "PromptListChangedNotification".to_string(),
    api::ServerJsonrpcNotification::ToolListChangedNotification(..) => "ToolListChangedNotification".to_string(),
    api::ServerJsonrpcNotification::TaskStatusNotification(..) => "TaskStatusNotification".to_string(),
    api::ServerJsonrpcNotification::LoggingMessageNotification(..) => "LoggingMessageNotification".to_string(),
    api::ServerJsonrpcNotification::ElicitationCompleteNotification(..) => "ElicitationCompleteNotification".to_string(),
    api::ServerJsonrpcNotification::CustomNotification(..) => "CustomNotification".to_string(),
    _ => "?".to_string(),
  }
}
pub fn var_ServerJsonrpcRequest(x: &api::ServerJsonrpcRequest) -> String {
  #[allow(unreachable_patterns)] match x {
    api::ServerJsonrpcRequest::PingRequest(..) => "PingRequest".to_string(),
    api::ServerJsonrpcRequest::GetTaskRequest(..) => "GetTaskRequest".to_string(),
    api::ServerJsonrpcRequest::GetTaskPayloadRequest(..) => "GetTaskPayloadRequest".to_string(),
    api::ServerJsonrpcRequest::CancelTaskRequest(..) => "CancelTaskRequest".to_string(),
    api::ServerJsonrpcRequest::ListTasksRequest(..) => "ListTasksRequest".to_string(),
    api::ServerJsonrpcRequest::CreateMessageRequest(..) => "CreateMessageRequest".to_string(),
    api::ServerJsonrpcRequest::ListRootsRequest(..) => "ListRootsRequest".to_string(),
    api::ServerJsonrpcRequest::ElicitRequest(..) => "ElicitRequest".to_string(),
    api::ServerJsonrpcRequest::CustomRequest(..) => "CustomRequest".to_string(),
    _ => "?".to_string(),
  }
}
pub fn var_ServerJsonrpcResponse(x: &api::ServerJsonrpcResponse) -> String {
  var_ResultFromServer(&x.result)
}
pub fn var_ServerMessage(x: &api::ServerMessage) -> String {
  #[allow(unreachable_patterns)] match x {
    api::ServerMessage::Request(y) => format!("Request/{}", var_ServerJsonrpcRequest(y)),
    api::ServerMessage::Notification(y) => format!("Notification/{}", var_ServerJsonrpcNotification(y)),
    api::ServerMessage::Response(y) => format!("Response/{}", var_ServerJsonrpcResponse(y)),
    api::ServerMessage::Error(..) => "Error".to_string(),
    _ => "?".to_string(),
  }
}
pub fn var_ServerMessages(x: &api::ServerMessages) -> String {
  #[allow(unreachable_patterns)] match x {
    api::ServerMessages::Single(y) => format!("Single/{}", var_ServerMessage(y)),
    api::ServerMessages::Batch(..) => "Batch".to_string(),
    _ => "?".to_string(),
  }
}
pub fn var_ServerNotification(x: &api::ServerNotification) -> String {
  #[allow(unreachable_patterns)] match x {
    api::ServerNotification::CancelledNotification(..) => "CancelledNotification".to_string(),
    api::ServerNotification::ProgressNotification(..) => "ProgressNotification".to_string(),
    api::ServerNotification::ResourceListChangedNotification(..) => "ResourceListChangedNotification".to_string(),
    api::ServerNotification::ResourceUpdatedNotification(..) => "ResourceUpdatedNotification".to_string(),
    api::ServerNotification::PromptListChangedNotification(..) => "PromptListChangedNotification".to_string(),
    api::ServerNotification::ToolListChangedNotification(..) => "ToolListChangedNotification".to_string(),
    api::ServerNotification::TaskStatusNotification(..) => "TaskStatusNotification".to_string(),
    api::ServerNotification::LoggingMessageNotification(..) => "LoggingMessageNotification".to_string(),
    api::ServerNotification::ElicitationCompleteNotification(..) => "ElicitationCompleteNotification".to_string(),
    _ => "?".to_string(),
  }
}
pub fn var_ServerRequest(x: &api::ServerRequest) -> String {
  #[allow(unreachable_patterns)] match x {
    api::ServerRequest::PingRequest(..) => "PingRequest".to_string(),
    api::ServerRequest::GetTaskRequest(..) => "GetTaskRequest".to_string(),
    api::ServerRequest::GetTaskPayloadRequest(..) => "GetTaskPayloadRequest".to_string(),
    api::ServerRequest::CancelTaskRequest(..) => "CancelTaskRequest".to_string(),
    api::ServerRequest::ListTasksRequest(..) => "ListTasksRequest".to_string(),
    api::ServerRequest::CreateMessageRequest(..) => "CreateMessageRequest".to_string(),
    api::ServerRequest::ListRootsRequest(..) => "ListRootsRequest".to_string(),
    api::ServerRequest::ElicitRequest(..) => "ElicitRequest".to_string(),
    _ => "?".to_string(),
  }
}
pub fn var_ServerResult(x: &api::ServerResult) -> String {
  #[allow(unreachable_patterns)] match x {
    api::ServerResult::InitializeResult(..) => "InitializeResult".to_string(),
    api::ServerResult::ListResourcesResult(..) => "ListResourcesResult".to_string(),
    api::ServerResult::ListResourceTemplatesResult(..) => "ListResourceTemplatesResult".to_string(),
    api::ServerResult::ReadResourceResult(..) => "ReadResourceResult".to_string(),
    api::ServerResult::ListPromptsResult(..) => "ListPromptsResult".to_string(),
    api::ServerResult::GetPromptResult(..) => "GetPromptResult".to_string(),
    api::ServerResult::ListToolsResult(..) => "ListToolsResult".to_string(),
    api::ServerResult::CallToolResult(..) => "CallToolResult".to_string(),
    api::ServerResult::GetTaskResult(..) => "GetTaskResult".to_string(),
    api::ServerResult::CancelTaskResult(..) => "CancelTaskResult".to_string(),
    api::ServerResult::ListTasksResult(..) => "ListTasksResult".to_string(),
    api::ServerResult::CompleteResult(..) => "CompleteResult".to_string(),
    api::ServerResult::Result(..) => "Result".to_string(),
    api::ServerResult::GetTaskPayloadResult(..) => "GetTaskPayloadResult".to_string(),
    _ => "?".to_string(),
  }
}
pub fn var_SingleSelectEnumSchema(x: &api::SingleSelectEnumSchema) -> String {
  #[allow(unreachable_patterns)] match x {
    api::SingleSelectEnumSchema::UntitledSingleSelectEnumSchema(..) => "UntitledSingleSelectEnumSchema".to_string(),
    api::SingleSelectEnumSchema::TitledSingleSelectEnumSchema(..) => "TitledSingleSelectEnumSchema".to_string(),
    _ => "?".to_string(),
  }
}
pub fn mk_RequestFromClient(path: &[&str], v: &Value) -> Result<api::RequestFromClient, String> { Ok(match path[0] {
    "InitializeRequest" => api::RequestFromClient::InitializeRequest(j::<api::InitializeRequestParams>(v)?),
    "PingRequest" => api::RequestFromClient::PingRequest(j::<Option<api::RequestParams>>(v)?),
    "ListResourcesRequest" => api::RequestFromClient::ListResourcesRequest(j::<Option<api::PaginatedRequestParams>>(v)?),
    "ListResourceTemplatesRequest" => api::RequestFromClient::ListResourceTemplatesRequest(j::<Option<api::PaginatedRequestParams>>(v)?),
    "ReadResourceRequest" => api::RequestFromClient::ReadResourceRequest(j::<api::ReadResourceRequestParams>(v)?),
    "SubscribeRequest" => api::RequestFromClient::SubscribeRequest(j::<api::SubscribeRequestParams>(v)?),
    "UnsubscribeRequest" => api::RequestFromClient::UnsubscribeRequest(j::<api::UnsubscribeRequestParams>(v)?),
    "ListPromptsRequest" => api::RequestFromClient::ListPromptsRequest(j::<Option<api::PaginatedRequestParams>>(v)?),
    "GetPromptRequest" => api::RequestFromClient::GetPromptRequest(j::<api::GetPromptRequestParams>(v)?),
    "ListToolsRequest" => api::RequestFromClient::ListToolsRequest(j::<Option<api::PaginatedRequestParams>>(v)?),
    "CallToolRequest" => api::RequestFromClient::CallToolRequest(j::<api::CallToolRequestParams>(v)?),
    "GetTaskRequest" => api::RequestFromClient::GetTaskRequest(j::<api::GetTaskParams>(v)?),
    "GetTaskPayloadRequest" => api::RequestFromClient::GetTaskPayloadRequest(j::<api::GetTaskPayloadParams>(v)?),
    "CancelTaskRequest" => api::RequestFromClient::CancelTaskRequest(j::<api::CancelTaskParams>(v)?),
    "ListTasksRequest" => api::RequestFromClient::ListTasksRequest(j::<Option<api::PaginatedRequestParams>>(v)?),
    "SetLevelRequest" => api::RequestFromClient::SetLevelRequest(j::<api::SetLevelRequestParams>(v)?),
    "CompleteRequest" => api::RequestFromClient::CompleteRequest(j::<api::CompleteRequestParams>(v)?),
    "CustomRequest" => api::RequestFromClient::CustomRequest(j::<api::CustomRequest>(v)?),
    x => return Err(format!("no variant {x}")),
  })}
pub const VARIANTS_REQUESTFROMCLIENT: &[(&str, &str)] = &[("InitializeRequest", "InitializeRequestParams"), ("PingRequest", "Option<RequestParams>"), ("ListResourcesRequest", "Option<PaginatedRequestParams>"), ("ListResourceTemplatesRequest", "Option<PaginatedRequestParams>"), ("ReadResourceRequest", "ReadResourceRequestParams"), ("SubscribeRequest", "SubscribeRequestParams"), ("UnsubscribeRequest", "UnsubscribeRequestParams"), ("ListPromptsRequest", "Option<PaginatedRequestParams>"), ("GetPromptRequest", "GetPromptRequestParams"), ("ListToolsRequest", "Option<PaginatedRequestParams>"), ("CallToolRequest", "CallToolRequestParams"), ("GetTaskRequest", "GetTaskParams"), ("GetTaskPayloadRequest", "GetTaskPayloadParams"), ("CancelTaskRequest", "CancelTaskParams"), ("ListTasksRequest", "Option<PaginatedRequestParams>"), ("SetLevelRequest", "SetLevelRequestParams"), ("CompleteRequest", "CompleteRequestParams"), ("CustomRequest", "CustomRequest")];
pub fn mk_RequestFromServer(path: &[&str], v: &Value) -> Result<api::RequestFromServer, String> { Ok(match path[0] {
    "PingRequest" => api::RequestFromServer::PingRequest(j::<Option<api::RequestParams>>(v)?),
    "GetTaskRequest" => api::RequestFromServer::GetTaskRequest(j::<api::GetTaskParams>(v)?),
    "GetTaskPayloadRequest" => api::RequestFromServer::GetTaskPayloadRequest(j::<api::GetTaskPayloadParams>(v)?),
    "CancelTaskRequest" => api::RequestFromServer::CancelTaskRequest(j::<api::CancelTaskParams>(v)?),
    "ListTasksRequest" => api::RequestFromServer::ListTasksRequest(j::<Option<api::PaginatedRequestParams>>(v)?),
    "CreateMessageRequest" => api::RequestFromServer::CreateMessageRequest(j::<api::CreateMessageRequestParams>(v)?),
    "ListRootsRequest" => api::RequestFromServer::ListRootsRequest(j::<Option<api::RequestParams>>(v)?),
    "ElicitRequest" => api::RequestFromServer::ElicitRequest(j::<api::ElicitRequestParams>(v)?),
    "CustomRequest" => api::RequestFromServer::CustomRequest(j::<api::CustomRequest>(v)?),
    x => return Err(format!("no variant {x}")),
  })}
pub const VARIANTS_REQUESTFROMSERVER: &[(&str, &str)] = &[("PingRequest", "Option<RequestParams>"), ("GetTaskRequest", "GetTaskParams"), ("GetTaskPayloadRequest", "GetTaskPayloadParams"), ("CancelTaskRequest", "CancelTaskParams"), ("ListTasksRequest", "Option<PaginatedRequestParams>"), ("CreateMessageRequest", "CreateMessageRequestParams"), ("ListRootsRequest", "Option<RequestParams>"), ("ElicitRequest", "ElicitRequestParams"), ("CustomRequest", "CustomRequest")];
pub fn mk_NotificationFromClient(path: &[&str], v: &Value) -> Result<api::NotificationFromClient, String> { Ok(match path[0] {
    "CancelledNotification" => api::NotificationFromClient::CancelledNotification(j::<api::CancelledNotificationParams>(v)?),
    "InitializedNotification" => api::NotificationFromClient::InitializedNotification(j::<Option<api::NotificationParams>>(v)?),
    "ProgressNotification" => api::NotificationFromClient::ProgressNotification(j::<api::ProgressNotificationParams>(v)?),
    "TaskStatusNotification" => api::NotificationFromClient::TaskStatusNotification(j::<api::TaskStatusNotificationParams>(v)?),
    "RootsListChangedNotification" => api::NotificationFromClient::RootsListChangedNotification(j::<Option<api::NotificationParams>>(v)?),
    "CustomNotification" => api::NotificationFromClient::CustomNotification(j::<api::CustomNotification>(v)?),
    x => return Err(format!("no variant {x}")),
  })}
pub const VARIANTS_NOTIFICATIONFROMCLIENT: &[(&str, &str)] = &[("CancelledNotification", "CancelledNotificationParams"), ("InitializedNotification", "Option<NotificationParams>"), ("ProgressNotification", "ProgressNotificationParams"), ("TaskStatusNotification", "TaskStatusNotificationParams"), ("RootsListChangedNotification", "Option<NotificationParams>"), ("CustomNotification", "CustomNotification")];
pub fn mk_NotificationFromServer(path: &[&str], v: &Value) -> Result<api::NotificationFromServer, String> { Ok(match path[0] {
    "CancelledNotification" => api::NotificationFromServer::CancelledNotification(j::<api::CancelledNotificationParams>(v)?),
    "ProgressNotification" => api::NotificationFromServer::ProgressNotification(j::<api::ProgressNotificationParams>(v)?),
    "ResourceListChangedNotification" => api::NotificationFromServer::ResourceListChangedNotification(j::<Option<api::NotificationParams>>(v)?),
    "ResourceUpdatedNotification" => api::NotificationFromServer::ResourceUpdatedNotification(j::<api::ResourceUpdatedNotificationParams>(v)?),
    "PromptListChangedNotification" => api::NotificationFromServer::PromptListChangedNotification(j::<Option<api::NotificationParams>>(v)?),
    "ToolListChangedNotification" => api::NotificationFromServer::ToolListChangedNotification(j::<Option<api::NotificationParams>>(v)?),
    "TaskStatusNotification" => api::NotificationFromServer::TaskStatusNotification(j::<api::TaskStatusNotificationParams>(v)?),
    "LoggingMessageNotification" => api::NotificationFromServer::LoggingMessageNotification(j::<api::LoggingMessageNotificationParams>(v)?),
    "ElicitationCompleteNotification" => api::NotificationFromServer::ElicitationCompleteNotification(j::<api::ElicitCompleteParams>(v)?),
    "CustomNotification" => api::NotificationFromServer::CustomNotification(j::<api::CustomNotification>(v)?),
    x => return Err(format!("no variant {x}")),
  })}
pub const VARIANTS_NOTIFICATIONFROMSERVER: &[(&str, &str)] = &[("CancelledNotification", "CancelledNotificationParams"), ("ProgressNotification", "ProgressNotificationParams"), ("ResourceListChangedNotification", "Option<NotificationParams>"), ("ResourceUpdatedNotification", "ResourceUpdatedNotificationParams"), ("PromptListChangedNotification", "Option<NotificationParams>"), ("ToolListChangedNotification", "Option<NotificationParams>"), ("TaskStatusNotification", "TaskStatusNotificationParams"), ("LoggingMessageNotification", "LoggingMessageNotificationParams"), ("ElicitationCompleteNotification", "ElicitCompleteParams"), ("CustomNotification", "CustomNotification")];
pub fn mk_ResultFromClient(path: &[&str], v: &Value) -> Result<api::ResultFromClient, String> { Ok(match path[0] {
    "GetTaskResult" => api::ResultFromClient::GetTaskResult(j::<api::GetTaskResult>(v)?),
    "CancelTaskResult" => api::ResultFromClient::CancelTaskResult(j::<api::CancelTaskResult>(v)?),
    "ListTasksResult" => api::ResultFromClient::ListTasksResult(j::<api::ListTasksResult>(v)?),
    "CreateMessageResult" => api::ResultFromClient::CreateMessageResult(j::<api::CreateMessageResult>(v)?),
    "ListRootsResult" => api::ResultFromClient::ListRootsResult(j::<api::ListRootsResult>(v)?),
    "ElicitResult" => api::ResultFromClient::ElicitResult(j::<api::ElicitResult>(v)?),
    "CreateTaskResult" => api::ResultFromClient::CreateTaskResult(j::<api::CreateTaskResult>(v)?),
    "Result" => api::ResultFromClient::Result(j::<api::Result>(v)?),
    "GetTaskPayloadResult" => api::ResultFromClient::GetTaskPayloadResult(j::<api::GetTaskPayloadResult>(v)?),
    x => return Err(format!("no variant {x}")),
  })}
pub const VARIANTS_RESULTFROMCLIENT: &[(&str, &str)] = &[("GetTaskResult", "GetTaskResult"), ("CancelTaskResult", "CancelTaskResult"), ("ListTasksResult", "ListTasksResult"), ("CreateMessageResult", "CreateMessageResult"), ("ListRootsResult", "ListRootsResult"), ("ElicitResult", "ElicitResult"), ("CreateTaskResult", "CreateTaskResult"), ("Result", "Result"), ("GetTaskPayloadResult", "GetTaskPayloadResult")];
pub fn mk_ResultFromServer(path: &[&str], v: &Value) -> Result<api::ResultFromServer, String> { Ok(match path[0] {
    "InitializeResult" => api::ResultFromServer::InitializeResult(j::<api::InitializeResult>(v)?),
    "ListResourcesResult" => api::ResultFromServer::ListResourcesResult(j::<api::ListResourcesResult>(v)?),
    "ListResourceTemplatesResult" => api::ResultFromServer::ListResourceTemplatesResult(j::<api::ListResourceTemplatesResult>(v)?),
    "ReadResourceResult" => api::ResultFromServer::ReadResourceResult(j::<api::ReadResourceResult>(v)?),
    "ListPromptsResult" => api::ResultFromServer::ListPromptsResult(j::<api::ListPromptsResult>(v)?),
    "GetPromptResult" => api::ResultFromServer::GetPromptResult(j::<api::GetPromptResult>(v)?),
    "ListToolsResult" => api::ResultFromServer::ListToolsResult(j::<api::ListToolsResult>(v)?),
    "CallToolResult" => api::ResultFromServer::CallToolResult(j::<api::CallToolResult>(v)?),
    "GetTaskResult" => api::ResultFromServer::GetTaskResult(j::<api::GetTaskResult>(v)?),
    "CancelTaskResult" => api::ResultFromServer::CancelTaskResult(j::<api::CancelTaskResult>(v)?),
    "ListTasksResult" => api::ResultFromServer::ListTasksResult(j::<api::ListTasksResult>(v)?),
    "CompleteResult" => api::ResultFromServer::CompleteResult(j::<api::CompleteResult>(v)?),
    "CreateTaskResult" => api::ResultFromServer::CreateTaskResult(j::<api::CreateTaskResult>(v)?),
    "Result" => api::ResultFromServer::Result(j::<api::Result>(v)?),
    "GetTaskPayloadResult" => api::ResultFromServer::GetTaskPayloadResult(j::<api::GetTaskPayloadResult>(v)?),
    x => return Err(format!("no variant {x}")),
  })}
pub const VARIANTS_RESULTFROMSERVER: &[(&str, &str)] = &[("InitializeResult", "InitializeResult"), ("ListResourcesResult", "ListResourcesResult"), ("ListResourceTemplatesResult", "ListResourceTemplatesResult"), ("ReadResourceResult", "ReadResourceResult"), ("ListPromptsResult", "ListPromptsResult"), ("GetPromptResult", "GetPromptResult"), ("ListToolsResult", "ListToolsResult"), ("CallToolResult", "CallToolResult"), ("GetTaskResult", "GetTaskResult"), ("CancelTaskResult", "CancelTaskResult"), ("ListTasksResult", "ListTasksResult"), ("CompleteResult", "CompleteResult"), ("CreateTaskResult", "CreateTaskResult"), ("Result", "Result"), ("GetTaskPayloadResult", "GetTaskPayloadResult")];
pub fn mk_ServerResult(path: &[&str], v: &Value) -> Result<api::ServerResult, String> { Ok(match path[0] {
    "InitializeResult" => api::ServerResult::InitializeResult(j::<api::InitializeResult>(v)?),
    "ListResourcesResult" => api::ServerResult::ListResourcesResult(j::<api::ListResourcesResult>(v)?),
    "ListResourceTemplatesResult" => api::ServerResult::ListResourceTemplatesResult(j::<api::ListResourceTemplatesResult>(v)?),
    "ReadResourceResult" => api::ServerResult::ReadResourceResult(j::<api::ReadResourceResult>(v)?),
    "ListPromptsResult" => api::ServerResult::ListPromptsResult(j::<api::ListPromptsResult>(v)?),
    "GetPromptResult" => api::ServerResult::GetPromptResult(j::<api::GetPromptResult>(v)?),
    "ListToolsResult" => api::ServerResult::ListToolsResult(j::<api::ListToolsResult>(v)?),
    "CallToolResult" => api::ServerResult::CallToolResult(j::<api::CallToolResult>(v)?),
    "GetTaskResult" => api::ServerResult::GetTaskResult(j::<api::GetTaskResult>(v)?),
    "CancelTaskResult" => api::ServerResult::CancelTaskResult(j::<api::CancelTaskResult>(v)?),
    "ListTasksResult" => api::ServerResult::ListTasksResult(j::<api::ListTasksResult>(v)?),
    "CompleteResult" => api::ServerResult::CompleteResult(j::<api::CompleteResult>(v)?),
    "Result" => api::ServerResult::Result(j::<api::Result>(v)?),
    "GetTaskPayloadResult" => api::ServerResult::GetTaskPayloadResult(j::<api::GetTaskPayloadResult>(v)?),
    x => return Err(format!("no variant {x}")),
  })}
pub const VARIANTS_SERVERRESULT: &[(&str, &str)] = &[("InitializeResult", "InitializeResult"), ("ListResourcesResult", "ListResourcesResult"), ("ListResourceTemplatesResult", "ListResourceTemplatesResult"), ("ReadResourceResult", "ReadResourceResult"), ("ListPromptsResult", "ListPromptsResult"), ("GetPromptResult", "GetPromptResult"), ("ListToolsResult", "ListToolsResult"), ("CallToolResult", "CallToolResult"), ("GetTaskResult", "GetTaskResult"), ("CancelTaskResult", "CancelTaskResult"), ("ListTasksResult", "ListTasksResult"), ("CompleteResult", "CompleteResult"), ("Result", "Result"), ("GetTaskPayloadResult", "GetTaskPayloadResult")];
pub fn mk_ClientResult(path: &[&str], v: &Value) -> Result<api::ClientResult, String> { Ok(match path[0] {
    "GetTaskResult" => api::ClientResult::GetTaskResult(j::<api::GetTaskResult>(v)?),
    "CancelTaskResult" => api::ClientResult::CancelTaskResult(j::<api::CancelTaskResult>(v)?),
    "ListTasksResult" => api::ClientResult::ListTasksResult(j::<api::ListTasksResult>(v)?),
    "CreateMessageResult" => api::ClientResult::CreateMessageResult(j::<api::CreateMessageResult>(v)?),
    "ListRootsResult" => api::ClientResult::ListRootsResult(j::<api::ListRootsResult>(v)?),
    "ElicitResult" => api::ClientResult::ElicitResult(j::<api::ElicitResult>(v)?),
    "Result" => api::ClientResult::Result(j::<api::Result>(v)?),
    "GetTaskPayloadResult" => api::ClientResult::GetTaskPayloadResult(j::<api::GetTaskPayloadResult>(v)?),
    x => return Err(format!("no variant {x}")),
  })}
pub const VARIANTS_CLIENTRESULT: &[(&str, &str)] = &[("GetTaskResult", "GetTaskResult"), ("CancelTaskResult", "CancelTaskResult"), ("ListTasksResult", "ListTasksResult"), ("CreateMessageResult", "CreateMessageResult"), ("ListRootsResult", "ListRootsResult"), ("ElicitResult", "ElicitResult"), ("Result", "Result"), ("GetTaskPayloadResult", "GetTaskPayloadResult")];
pub fn mk_ClientRequest(path: &[&str], v: &Value) -> Result<api::ClientRequest, String> { Ok(match path[0] {
    "InitializeRequest" => api::ClientRequest::InitializeRequest(j::<api::InitializeRequest>(v)?),
    "PingRequest" => api::ClientRequest::PingRequest(j::<api::PingRequest>(v)?),
    "ListResourcesRequest" => api::ClientRequest::ListResourcesRequest(j::<api::ListResourcesRequest>(v)?),
    "ListResourceTemplatesRequest" => api::ClientRequest::ListResourceTemplatesRequest(j::<api::ListResourceTemplatesRequest>(v)?),
    "ReadResourceRequest" => api::ClientRequest::ReadResourceRequest(j::<api::ReadResourceRequest>(v)?),
    "SubscribeRequest" => api::ClientRequest::SubscribeRequest(j::<api::SubscribeRequest>(v)?),
    "UnsubscribeRequest" => api::ClientRequest::UnsubscribeRequest(j::<api::UnsubscribeRequest>(v)?),
    "ListPromptsRequest" => api::ClientRequest::ListPromptsRequest(j::<api::ListPromptsRequest>(v)?),
    "GetPromptRequest" => api::ClientRequest::GetPromptRequest(j::<api::GetPromptRequest>(v)?),
    "ListToolsRequest" => api::ClientRequest::ListToolsRequest(j::<api::ListToolsRequest>(v)?),
    "CallToolRequest" => api::ClientRequest::CallToolRequest(j::<api::CallToolRequest>(v)?),
    "GetTaskRequest" => api::ClientRequest::GetTaskRequest(j::<api::GetTaskRequest>(v)?),
    "GetTaskPayloadRequest" => api::ClientRequest::GetTaskPayloadRequest(j::<api::GetTaskPayloadRequest>(v)?),
    "CancelTaskRequest" => api::ClientRequest::CancelTaskRequest(j::<api::CancelTaskRequest>(v)?),
    "ListTasksRequest" => api::ClientRequest::ListTasksRequest(j::<api::ListTasksRequest>(v)?),
    "SetLevelRequest" => api::ClientRequest::SetLevelRequest(j::<api::SetLevelRequest>(v)?),
    "CompleteRequest" => api::ClientRequest::CompleteRequest(j::<api::CompleteRequest>(v)?),
    x => return Err(format!("no variant {x}")),
  })}
pub const VARIANTS_CLIENTREQUEST: &[(&str, &str)] = &[("InitializeRequest", "InitializeRequest"), ("PingRequest", "PingRequest"), ("ListResourcesRequest", "ListResourcesRequest"), ("ListResourceTemplatesRequest", "ListResourceTemplatesRequest"), ("ReadResourceRequest", "ReadResourceRequest"), ("SubscribeRequest", "SubscribeRequest"), ("UnsubscribeRequest", "UnsubscribeRequest"), ("ListPromptsRequest", "ListPromptsRequest"), ("GetPromptRequest", "GetPromptRequest"), ("ListToolsRequest", "ListToolsRequest"), ("CallToolRequest", "CallToolRequest"), ("GetTaskRequest", "GetTaskRequest"), ("GetTaskPayloadRequest", "GetTaskPayloadRequest"), ("CancelTaskRequest", "CancelTaskRequest"), ("ListTasksRequest", "ListTasksRequest"), ("SetLevelRequest", "SetLevelRequest"), ("CompleteRequest", "CompleteRequest")];
pub fn mk_ServerRequest(path: &[&str], v: &Value) -> Result<api::ServerRequest, String> { Ok(match path[0] {
    "PingRequest" => api::ServerRequest::PingRequest(j::<api::PingRequest>(v)?),
    "GetTaskRequest" => api::ServerRequest::GetTaskRequest(j::<api::GetTaskRequest>(v)?),
    "GetTaskPayloadRequest" => api::ServerRequest::GetTaskPayloadRequest(j::<api::GetTaskPayloadRequest>(v)?),
    "CancelTaskRequest" => api::ServerRequest::CancelTaskRequest(j::<api::CancelTaskRequest>(v)?),
    "ListTasksRequest" => api::ServerRequest::ListTasksRequest(j::<api::ListTasksRequest>(v)?),
    "CreateMessageRequest" => api::ServerRequest::CreateMessageRequest(j::<api::CreateMessageRequest>(v)?),
    "ListRootsRequest" => api::ServerRequest::ListRootsRequest(j::<api::ListRootsRequest>(v)?),
    "ElicitRequest" => api::ServerRequest::ElicitRequest(j::<api::ElicitRequest>(v)?),
    x => return Err(format!("no variant {x}")),
  })}
pub const VARIANTS_SERVERREQUEST: &[(&str, &str)] = &[("PingRequest", "PingRequest"), ("GetTaskRequest", "GetTaskRequest"), ("GetTaskPayloadRequest", "GetTaskPayloadRequest"), ("CancelTaskRequest", "CancelTaskRequest"), ("ListTasksRequest", "ListTasksRequest"), ("CreateMessageRequest", "CreateMessageRequest"), ("ListRootsRequest", "ListRootsRequest"), ("ElicitRequest", "ElicitRequest")];
pub fn mk_ClientNotification(path: &[&str], v: &Value) -> Result<api::ClientNotification, String> { Ok(match path[0] {
    "CancelledNotification" => api::ClientNotification::CancelledNotification(j::<api::CancelledNotification>(v)?),
    "InitializedNotification" => api::ClientNotification::InitializedNotification(j::<api::InitializedNotification>(v)?),
    "ProgressNotification" => api::ClientNotification::ProgressNotification(j::<api::ProgressNotification>(v)?),
    "TaskStatusNotification" => api::ClientNotification::TaskStatusNotification(j::<api::TaskStatusNotification>(v)?),
    "RootsListChangedNotification" => api::ClientNotification::RootsListChangedNotification(j::<api::RootsListChangedNotification>(v)?),
    x => return Err(format!("no variant {x}")),
  })}
pub const VARIANTS_CLIENTNOTIFICATION: &[(&str, &str)] = &[("CancelledNotification", "CancelledNotification"), ("InitializedNotification", "InitializedNotification"), ("ProgressNotification", "ProgressNotification"), ("TaskStatusNotification", "TaskStatusNotification"), ("RootsListChangedNotification", "RootsListChangedNotification")];
pub fn mk_ServerNotification(path: &[&str], v: &Value) -> Result<api::ServerNotification, String> { Ok(match path[0] {
    "CancelledNotification" => api::ServerNotification::CancelledNotification(j::<api::CancelledNotification>(v)?),
    "ProgressNotification" => api::ServerNotification::ProgressNotification(j::<api::ProgressNotification>(v)?),
    "ResourceListChangedNotification" => api::ServerNotification::ResourceListChangedNotification(j::<api::ResourceListChangedNotification>(v)?),
    "ResourceUpdatedNotification" => api::ServerNotification::ResourceUpdatedNotification(j::<api::ResourceUpdatedNotification>(v)?),
    "PromptListChangedNotification" => api::ServerNotification::PromptListChangedNotification(j::<api::PromptListChangedNotification>(v)?),
    "ToolListChangedNotification" => api::ServerNotification::ToolListChangedNotification(j::<api::ToolListChangedNotification>(v)?),
    "TaskStatusNotification" => api::ServerNotification::TaskStatusNotification(j::<api::TaskStatusNotification>(v)?),
    "LoggingMessageNotification" => api::ServerNotification::LoggingMessageNotification(j::<api::LoggingMessageNotification>(v)?),
    "ElicitationCompleteNotification" => api::ServerNotification::ElicitationCompleteNotification(j::<api::ElicitationCompleteNotification>(v)?),
    x => return Err(format!("no variant {x}")),
  })}
pub const VARIANTS_SERVERNOTIFICATION: &[(&str, &str)] = &[("CancelledNotification", "CancelledNotification"), ("ProgressNotification", "ProgressNotification"), ("ResourceListChangedNotification", "ResourceListChangedNotification"), ("ResourceUpdatedNotification", "ResourceUpdatedNotification"), ("PromptListChangedNotification", "PromptListChangedNotification"), ("ToolListChangedNotification", "ToolListChangedNotification"), ("TaskStatusNotification", "TaskStatusNotification"), ("LoggingMessageNotification", "LoggingMessageNotification"), ("ElicitationCompleteNotification", "ElicitationCompleteNotification")];
pub fn mk_MessageFromClient(path: &[&str], v: &Value) -> Result<api::MessageFromClient, String> { Ok(match path[0] {
    "RequestFromClient" => api::MessageFromClient::RequestFromClient(mk_RequestFromClient(&path[1..], v)?),
    "ResultFromClient" => api::MessageFromClient::ResultFromClient(mk_ResultFromClient(&path[1..], v)?),
    "NotificationFromClient" => api::MessageFromClient::NotificationFromClient(mk_NotificationFromClient(&path[1..], v)?),
    "Error" => api::MessageFromClient::Error(j::<api::RpcError>(v)?),
    x => return Err(format!("no variant {x}")),
  })}
pub const VARIANTS_MESSAGEFROMCLIENT: &[(&str, &str)] = &[("RequestFromClient", "RequestFromClient"), ("ResultFromClient", "ResultFromClient"), ("NotificationFromClient", "NotificationFromClient"), ("Error", "RpcError")];
pub fn mk_MessageFromServer(path: &[&str], v: &Value) -> Result<api::MessageFromServer, String> { Ok(match path[0] {
    "RequestFromServer" => api::MessageFromServer::RequestFromServer(mk_RequestFromServer(&path[1..], v)?),
    "ResultFromServer" => api::MessageFromServer::ResultFromServer(mk_ResultFromServer(&path[1..], v)?),
    "NotificationFromServer" => api::MessageFromServer::NotificationFromServer(mk_NotificationFromServer(&path[1..], v)?),
    "Error" => api::MessageFromServer::Error(j::<api::RpcError>(v)?),
    x => return Err(format!("no variant {x}")),
  })}
pub const VARIANTS_MESSAGEFROMSERVER: &[(&str, &str)] = &[("RequestFromServer", "RequestFromServer"), ("ResultFromServer", "ResultFromServer"), ("NotificationFromServer", "NotificationFromServer"), ("Error", "RpcError")];
pub fn variants(e: &str) -> &'static [(&'static str, &'static str)] { match e { "RequestFromClient" => VARIANTS_REQUESTFROMCLIENT, "RequestFromServer" => VARIANTS_REQUESTFROMSERVER, "NotificationFromClient" => VARIANTS_NOTIFICATIONFROMCLIENT, "NotificationFromServer" => VARIANTS_NOTIFICATIONFROMSERVER, "ResultFromClient" => VARIANTS_RESULTFROMCLIENT, "ResultFromServer" => VARIANTS_RESULTFROMSERVER, "ServerResult" => VARIANTS_SERVERRESULT, "ClientResult" => VARIANTS_CLIENTRESULT, "ClientRequest" => VARIANTS_CLIENTREQUEST, "ServerRequest" => VARIANTS_SERVERREQUEST, "ClientNotification" => VARIANTS_CLIENTNOTIFICATION, "ServerNotification" => VARIANTS_SERVERNOTIFICATION, "MessageFromClient" => VARIANTS_MESSAGEFROMCLIENT, "MessageFromServer" => VARIANTS_MESSAGEFROMSERVER, _ => &[] } }
