//! The published types of every version, as they are without schema_utils. Made from the registry of the harness.
#[cfg(feature = "v2024_11_05")]
pub mod v2024_11_05 {
    use rust_mcp_schema::mcp_2024_11_05 as api;
    pub const MODEL: &str = include_str!("../../../model/2024_11_05.json");
    pub const TYPES: &[super::Type] = &[
        ("Annotated", crate::rt::<api::Annotated>, crate::rts::<api::Annotated>),
        ("AnnotatedAnnotations", crate::rt::<api::AnnotatedAnnotations>, crate::rts::<api::AnnotatedAnnotations>),
        ("BlobResourceContents", crate::rt::<api::BlobResourceContents>, crate::rts::<api::BlobResourceContents>),
        ("CallToolRequest", crate::rt::<api::CallToolRequest>, crate::rts::<api::CallToolRequest>),
        ("CallToolRequestParams", crate::rt::<api::CallToolRequestParams>, crate::rts::<api::CallToolRequestParams>),
        ("CallToolResult", crate::rt::<api::CallToolResult>, crate::rts::<api::CallToolResult>),
        ("CallToolResultContentItem", crate::rt::<api::CallToolResultContentItem>, crate::rts::<api::CallToolResultContentItem>),
        ("CancelledNotification", crate::rt::<api::CancelledNotification>, crate::rts::<api::CancelledNotification>),
        ("CancelledNotificationParams", crate::rt::<api::CancelledNotificationParams>, crate::rts::<api::CancelledNotificationParams>),
        ("ClientCapabilities", crate::rt::<api::ClientCapabilities>, crate::rts::<api::ClientCapabilities>),
        ("ClientNotification", crate::rt::<api::ClientNotification>, crate::rts::<api::ClientNotification>),
        ("ClientRequest", crate::rt::<api::ClientRequest>, crate::rts::<api::ClientRequest>),
        ("ClientResult", crate::rt::<api::ClientResult>, crate::rts::<api::ClientResult>),
        ("ClientRoots", crate::rt::<api::ClientRoots>, crate::rts::<api::ClientRoots>),
        ("CompleteRequest", crate::rt::<api::CompleteRequest>, crate::rts::<api::CompleteRequest>),
        ("CompleteRequestArgument", crate::rt::<api::CompleteRequestArgument>, crate::rts::<api::CompleteRequestArgument>),
        ("CompleteRequestParams", crate::rt::<api::CompleteRequestParams>, crate::rts::<api::CompleteRequestParams>),
        ("CompleteRequestRef", crate::rt::<api::CompleteRequestRef>, crate::rts::<api::CompleteRequestRef>),
        ("CompleteResult", crate::rt::<api::CompleteResult>, crate::rts::<api::CompleteResult>),
        ("CompleteResultCompletion", crate::rt::<api::CompleteResultCompletion>, crate::rts::<api::CompleteResultCompletion>),
        ("CreateMessageRequest", crate::rt::<api::CreateMessageRequest>, crate::rts::<api::CreateMessageRequest>),
        ("CreateMessageRequestParams", crate::rt::<api::CreateMessageRequestParams>, crate::rts::<api::CreateMessageRequestParams>),
        ("CreateMessageResult", crate::rt::<api::CreateMessageResult>, crate::rts::<api::CreateMessageResult>),
        ("CreateMessageResultContent", crate::rt::<api::CreateMessageResultContent>, crate::rts::<api::CreateMessageResultContent>),
        ("Cursor", crate::rt::<api::Cursor>, crate::rts::<api::Cursor>),
        ("EmbeddedResource", crate::rt::<api::EmbeddedResource>, crate::rts::<api::EmbeddedResource>),
        ("EmbeddedResourceAnnotations", crate::rt::<api::EmbeddedResourceAnnotations>, crate::rts::<api::EmbeddedResourceAnnotations>),
        ("EmbeddedResourceResource", crate::rt::<api::EmbeddedResourceResource>, crate::rts::<api::EmbeddedResourceResource>),
        ("EmptyResult", crate::rt::<api::EmptyResult>, crate::rts::<api::EmptyResult>),
        ("GetPromptRequest", crate::rt::<api::GetPromptRequest>, crate::rts::<api::GetPromptRequest>),
        ("GetPromptRequestParams", crate::rt::<api::GetPromptRequestParams>, crate::rts::<api::GetPromptRequestParams>),
        ("GetPromptResult", crate::rt::<api::GetPromptResult>, crate::rts::<api::GetPromptResult>),
        ("ImageContent", crate::rt::<api::ImageContent>, crate::rts::<api::ImageContent>),
        ("ImageContentAnnotations", crate::rt::<api::ImageContentAnnotations>, crate::rts::<api::ImageContentAnnotations>),
        ("Implementation", crate::rt::<api::Implementation>, crate::rts::<api::Implementation>),
        ("IncludeContext", crate::rt::<api::IncludeContext>, crate::rts::<api::IncludeContext>),
        ("InitializeRequest", crate::rt::<api::InitializeRequest>, crate::rts::<api::InitializeRequest>),
        ("InitializeRequestParams", crate::rt::<api::InitializeRequestParams>, crate::rts::<api::InitializeRequestParams>),
        ("InitializeResult", crate::rt::<api::InitializeResult>, crate::rts::<api::InitializeResult>),
        ("InitializedNotification", crate::rt::<api::InitializedNotification>, crate::rts::<api::InitializedNotification>),
        ("InitializedNotificationParams", crate::rt::<api::InitializedNotificationParams>, crate::rts::<api::InitializedNotificationParams>),
        ("JsonrpcError", crate::rt::<api::JsonrpcError>, crate::rts::<api::JsonrpcError>),
        ("JsonrpcMessage", crate::rt::<api::JsonrpcMessage>, crate::rts::<api::JsonrpcMessage>),
        ("JsonrpcNotification", crate::rt::<api::JsonrpcNotification>, crate::rts::<api::JsonrpcNotification>),
        ("JsonrpcNotificationParams", crate::rt::<api::JsonrpcNotificationParams>, crate::rts::<api::JsonrpcNotificationParams>),
        ("JsonrpcRequest", crate::rt::<api::JsonrpcRequest>, crate::rts::<api::JsonrpcRequest>),
        ("JsonrpcRequestParams", crate::rt::<api::JsonrpcRequestParams>, crate::rts::<api::JsonrpcRequestParams>),
        ("JsonrpcRequestParamsMeta", crate::rt::<api::JsonrpcRequestParamsMeta>, crate::rts::<api::JsonrpcRequestParamsMeta>),
        ("JsonrpcResponse", crate::rt::<api::JsonrpcResponse>, crate::rts::<api::JsonrpcResponse>),
        ("ListPromptsRequest", crate::rt::<api::ListPromptsRequest>, crate::rts::<api::ListPromptsRequest>),
        ("ListPromptsRequestParams", crate::rt::<api::ListPromptsRequestParams>, crate::rts::<api::ListPromptsRequestParams>),
        ("ListPromptsResult", crate::rt::<api::ListPromptsResult>, crate::rts::<api::ListPromptsResult>),
        ("ListResourceTemplatesRequest", crate::rt::<api::ListResourceTemplatesRequest>, crate::rts::<api::ListResourceTemplatesRequest>),
        ("ListResourceTemplatesRequestParams", crate::rt::<api::ListResourceTemplatesRequestParams>, crate::rts::<api::ListResourceTemplatesRequestParams>),
        ("ListResourceTemplatesResult", crate::rt::<api::ListResourceTemplatesResult>, crate::rts::<api::ListResourceTemplatesResult>),
        ("ListResourcesRequest", crate::rt::<api::ListResourcesRequest>, crate::rts::<api::ListResourcesRequest>),
        ("ListResourcesRequestParams", crate::rt::<api::ListResourcesRequestParams>, crate::rts::<api::ListResourcesRequestParams>),
        ("ListResourcesResult", crate::rt::<api::ListResourcesResult>, crate::rts::<api::ListResourcesResult>),
        ("ListRootsRequest", crate::rt::<api::ListRootsRequest>, crate::rts::<api::ListRootsRequest>),
        ("ListRootsRequestParams", crate::rt::<api::ListRootsRequestParams>, crate::rts::<api::ListRootsRequestParams>),
        ("ListRootsRequestParamsMeta", crate::rt::<api::ListRootsRequestParamsMeta>, crate::rts::<api::ListRootsRequestParamsMeta>),
        ("ListRootsResult", crate::rt::<api::ListRootsResult>, crate::rts::<api::ListRootsResult>),
        ("ListToolsRequest", crate::rt::<api::ListToolsRequest>, crate::rts::<api::ListToolsRequest>),
        ("ListToolsRequestParams", crate::rt::<api::ListToolsRequestParams>, crate::rts::<api::ListToolsRequestParams>),
        ("ListToolsResult", crate::rt::<api::ListToolsResult>, crate::rts::<api::ListToolsResult>),
        ("LoggingLevel", crate::rt::<api::LoggingLevel>, crate::rts::<api::LoggingLevel>),
        ("LoggingMessageNotification", crate::rt::<api::LoggingMessageNotification>, crate::rts::<api::LoggingMessageNotification>),
        ("LoggingMessageNotificationParams", crate::rt::<api::LoggingMessageNotificationParams>, crate::rts::<api::LoggingMessageNotificationParams>),
        ("ModelHint", crate::rt::<api::ModelHint>, crate::rts::<api::ModelHint>),
        ("ModelPreferences", crate::rt::<api::ModelPreferences>, crate::rts::<api::ModelPreferences>),
        ("Notification", crate::rt::<api::Notification>, crate::rts::<api::Notification>),
        ("NotificationParams", crate::rt::<api::NotificationParams>, crate::rts::<api::NotificationParams>),
        ("PaginatedRequest", crate::rt::<api::PaginatedRequest>, crate::rts::<api::PaginatedRequest>),
        ("PaginatedRequestParams", crate::rt::<api::PaginatedRequestParams>, crate::rts::<api::PaginatedRequestParams>),
        ("PaginatedResult", crate::rt::<api::PaginatedResult>, crate::rts::<api::PaginatedResult>),
        ("PingRequest", crate::rt::<api::PingRequest>, crate::rts::<api::PingRequest>),
        ("PingRequestParams", crate::rt::<api::PingRequestParams>, crate::rts::<api::PingRequestParams>),
        ("PingRequestParamsMeta", crate::rt::<api::PingRequestParamsMeta>, crate::rts::<api::PingRequestParamsMeta>),
        ("ProgressNotification", crate::rt::<api::ProgressNotification>, crate::rts::<api::ProgressNotification>),
        ("ProgressNotificationParams", crate::rt::<api::ProgressNotificationParams>, crate::rts::<api::ProgressNotificationParams>),
        ("ProgressToken", crate::rt::<api::ProgressToken>, crate::rts::<api::ProgressToken>),
        ("Prompt", crate::rt::<api::Prompt>, crate::rts::<api::Prompt>),
        ("PromptArgument", crate::rt::<api::PromptArgument>, crate::rts::<api::PromptArgument>),
        ("PromptListChangedNotification", crate::rt::<api::PromptListChangedNotification>, crate::rts::<api::PromptListChangedNotification>),
        ("PromptListChangedNotificationParams", crate::rt::<api::PromptListChangedNotificationParams>, crate::rts::<api::PromptListChangedNotificationParams>),
        ("PromptMessage", crate::rt::<api::PromptMessage>, crate::rts::<api::PromptMessage>),
        ("PromptMessageContent", crate::rt::<api::PromptMessageContent>, crate::rts::<api::PromptMessageContent>),
        ("PromptReference", crate::rt::<api::PromptReference>, crate::rts::<api::PromptReference>),
        ("ReadResourceContent", crate::rt::<api::ReadResourceContent>, crate::rts::<api::ReadResourceContent>),
        ("ReadResourceRequest", crate::rt::<api::ReadResourceRequest>, crate::rts::<api::ReadResourceRequest>),
        ("ReadResourceRequestParams", crate::rt::<api::ReadResourceRequestParams>, crate::rts::<api::ReadResourceRequestParams>),
        ("ReadResourceResult", crate::rt::<api::ReadResourceResult>, crate::rts::<api::ReadResourceResult>),
        ("Request", crate::rt::<api::Request>, crate::rts::<api::Request>),
        ("RequestId", crate::rt::<api::RequestId>, crate::rts::<api::RequestId>),
        ("RequestParams", crate::rt::<api::RequestParams>, crate::rts::<api::RequestParams>),
        ("RequestParamsMeta", crate::rt::<api::RequestParamsMeta>, crate::rts::<api::RequestParamsMeta>),
        ("Resource", crate::rt::<api::Resource>, crate::rts::<api::Resource>),
        ("ResourceAnnotations", crate::rt::<api::ResourceAnnotations>, crate::rts::<api::ResourceAnnotations>),
        ("ResourceContents", crate::rt::<api::ResourceContents>, crate::rts::<api::ResourceContents>),
        ("ResourceListChangedNotification", crate::rt::<api::ResourceListChangedNotification>, crate::rts::<api::ResourceListChangedNotification>),
        ("ResourceListChangedNotificationParams", crate::rt::<api::ResourceListChangedNotificationParams>, crate::rts::<api::ResourceListChangedNotificationParams>),
        ("ResourceReference", crate::rt::<api::ResourceReference>, crate::rts::<api::ResourceReference>),
        ("ResourceTemplate", crate::rt::<api::ResourceTemplate>, crate::rts::<api::ResourceTemplate>),
        ("ResourceTemplateAnnotations", crate::rt::<api::ResourceTemplateAnnotations>, crate::rts::<api::ResourceTemplateAnnotations>),
        ("ResourceUpdatedNotification", crate::rt::<api::ResourceUpdatedNotification>, crate::rts::<api::ResourceUpdatedNotification>),
        ("ResourceUpdatedNotificationParams", crate::rt::<api::ResourceUpdatedNotificationParams>, crate::rts::<api::ResourceUpdatedNotificationParams>),
        ("Result", crate::rt::<api::Result>, crate::rts::<api::Result>),
        ("Role", crate::rt::<api::Role>, crate::rts::<api::Role>),
        ("Root", crate::rt::<api::Root>, crate::rts::<api::Root>),
        ("RootsListChangedNotification", crate::rt::<api::RootsListChangedNotification>, crate::rts::<api::RootsListChangedNotification>),
        ("RootsListChangedNotificationParams", crate::rt::<api::RootsListChangedNotificationParams>, crate::rts::<api::RootsListChangedNotificationParams>),
        ("RpcError", crate::rt::<api::RpcError>, crate::rts::<api::RpcError>),
        ("SamplingMessage", crate::rt::<api::SamplingMessage>, crate::rts::<api::SamplingMessage>),
        ("SamplingMessageContent", crate::rt::<api::SamplingMessageContent>, crate::rts::<api::SamplingMessageContent>),
        ("ServerCapabilities", crate::rt::<api::ServerCapabilities>, crate::rts::<api::ServerCapabilities>),
        ("ServerCapabilitiesPrompts", crate::rt::<api::ServerCapabilitiesPrompts>, crate::rts::<api::ServerCapabilitiesPrompts>),
        ("ServerCapabilitiesResources", crate::rt::<api::ServerCapabilitiesResources>, crate::rts::<api::ServerCapabilitiesResources>),
        ("ServerCapabilitiesTools", crate::rt::<api::ServerCapabilitiesTools>, crate::rts::<api::ServerCapabilitiesTools>),
        ("ServerNotification", crate::rt::<api::ServerNotification>, crate::rts::<api::ServerNotification>),
        ("ServerRequest", crate::rt::<api::ServerRequest>, crate::rts::<api::ServerRequest>),
        ("ServerResult", crate::rt::<api::ServerResult>, crate::rts::<api::ServerResult>),
        ("SetLevelRequest", crate::rt::<api::SetLevelRequest>, crate::rts::<api::SetLevelRequest>),
        ("SetLevelRequestParams", crate::rt::<api::SetLevelRequestParams>, crate::rts::<api::SetLevelRequestParams>),
        ("SubscribeRequest", crate::rt::<api::SubscribeRequest>, crate::rts::<api::SubscribeRequest>),
        ("SubscribeRequestParams", crate::rt::<api::SubscribeRequestParams>, crate::rts::<api::SubscribeRequestParams>),
        ("TextContent", crate::rt::<api::TextContent>, crate::rts::<api::TextContent>),
        ("TextContentAnnotations", crate::rt::<api::TextContentAnnotations>, crate::rts::<api::TextContentAnnotations>),
        ("TextResourceContents", crate::rt::<api::TextResourceContents>, crate::rts::<api::TextResourceContents>),
        ("Tool", crate::rt::<api::Tool>, crate::rts::<api::Tool>),
        ("ToolInputSchema", crate::rt::<api::ToolInputSchema>, crate::rts::<api::ToolInputSchema>),
        ("ToolListChangedNotification", crate::rt::<api::ToolListChangedNotification>, crate::rts::<api::ToolListChangedNotification>),
        ("ToolListChangedNotificationParams", crate::rt::<api::ToolListChangedNotificationParams>, crate::rts::<api::ToolListChangedNotificationParams>),
        ("UnsubscribeRequest", crate::rt::<api::UnsubscribeRequest>, crate::rts::<api::UnsubscribeRequest>),
        ("UnsubscribeRequestParams", crate::rt::<api::UnsubscribeRequestParams>, crate::rts::<api::UnsubscribeRequestParams>),
    ];
}
#[cfg(feature = "v2025_03_26")]
pub mod v2025_03_26 {
    use rust_mcp_schema::mcp_2025_03_26 as api;
    pub const MODEL: &str = include_str!("../../../model/2025_03_26.json");
    pub const TYPES: &[super::Type] = &[
        ("Annotations", crate::rt::<api::Annotations>, crate::rts::<api::Annotations>),
        ("AudioContent", crate::rt::<api::AudioContent>, crate::rts::<api::AudioContent>),
        ("BlobResourceContents", crate::rt::<api::BlobResourceContents>, crate::rts::<api::BlobResourceContents>),
        ("CallToolRequest", crate::rt::<api::CallToolRequest>, crate::rts::<api::CallToolRequest>),
        ("CallToolRequestParams", crate::rt::<api::CallToolRequestParams>, crate::rts::<api::CallToolRequestParams>),
        ("CallToolResult", crate::rt::<api::CallToolResult>, crate::rts::<api::CallToolResult>),
        ("CallToolResultContentItem", crate::rt::<api::CallToolResultContentItem>, crate::rts::<api::CallToolResultContentItem>),
        ("CancelledNotification", crate::rt::<api::CancelledNotification>, crate::rts::<api::CancelledNotification>),
        ("CancelledNotificationParams", crate::rt::<api::CancelledNotificationParams>, crate::rts::<api::CancelledNotificationParams>),
        ("ClientCapabilities", crate::rt::<api::ClientCapabilities>, crate::rts::<api::ClientCapabilities>),
        ("ClientNotification", crate::rt::<api::ClientNotification>, crate::rts::<api::ClientNotification>),
        ("ClientRequest", crate::rt::<api::ClientRequest>, crate::rts::<api::ClientRequest>),
        ("ClientResult", crate::rt::<api::ClientResult>, crate::rts::<api::ClientResult>),
        ("ClientRoots", crate::rt::<api::ClientRoots>, crate::rts::<api::ClientRoots>),
        ("CompleteRequest", crate::rt::<api::CompleteRequest>, crate::rts::<api::CompleteRequest>),
        ("CompleteRequestArgument", crate::rt::<api::CompleteRequestArgument>, crate::rts::<api::CompleteRequestArgument>),
        ("CompleteRequestParams", crate::rt::<api::CompleteRequestParams>, crate::rts::<api::CompleteRequestParams>),
        ("CompleteRequestRef", crate::rt::<api::CompleteRequestRef>, crate::rts::<api::CompleteRequestRef>),
        ("CompleteResult", crate::rt::<api::CompleteResult>, crate::rts::<api::CompleteResult>),
        ("CompleteResultCompletion", crate::rt::<api::CompleteResultCompletion>, crate::rts::<api::CompleteResultCompletion>),
        ("CreateMessageContent", crate::rt::<api::CreateMessageContent>, crate::rts::<api::CreateMessageContent>),
        ("CreateMessageRequest", crate::rt::<api::CreateMessageRequest>, crate::rts::<api::CreateMessageRequest>),
        ("CreateMessageRequestParams", crate::rt::<api::CreateMessageRequestParams>, crate::rts::<api::CreateMessageRequestParams>),
        ("CreateMessageResult", crate::rt::<api::CreateMessageResult>, crate::rts::<api::CreateMessageResult>),
        ("Cursor", crate::rt::<api::Cursor>, crate::rts::<api::Cursor>),
        ("EmbeddedResource", crate::rt::<api::EmbeddedResource>, crate::rts::<api::EmbeddedResource>),
        ("EmbeddedResourceResource", crate::rt::<api::EmbeddedResourceResource>, crate::rts::<api::EmbeddedResourceResource>),
        ("EmptyResult", crate::rt::<api::EmptyResult>, crate::rts::<api::EmptyResult>),
        ("GetPromptRequest", crate::rt::<api::GetPromptRequest>, crate::rts::<api::GetPromptRequest>),
        ("GetPromptRequestParams", crate::rt::<api::GetPromptRequestParams>, crate::rts::<api::GetPromptRequestParams>),
        ("GetPromptResult", crate::rt::<api::GetPromptResult>, crate::rts::<api::GetPromptResult>),
        ("ImageContent", crate::rt::<api::ImageContent>, crate::rts::<api::ImageContent>),
        ("Implementation", crate::rt::<api::Implementation>, crate::rts::<api::Implementation>),
        ("IncludeContext", crate::rt::<api::IncludeContext>, crate::rts::<api::IncludeContext>),
        ("InitializeRequest", crate::rt::<api::InitializeRequest>, crate::rts::<api::InitializeRequest>),
        ("InitializeRequestParams", crate::rt::<api::InitializeRequestParams>, crate::rts::<api::InitializeRequestParams>),
        ("InitializeResult", crate::rt::<api::InitializeResult>, crate::rts::<api::InitializeResult>),
        ("InitializedNotification", crate::rt::<api::InitializedNotification>, crate::rts::<api::InitializedNotification>),
        ("InitializedNotificationParams", crate::rt::<api::InitializedNotificationParams>, crate::rts::<api::InitializedNotificationParams>),
        ("JsonrpcBatchRequest", crate::rt::<api::JsonrpcBatchRequest>, crate::rts::<api::JsonrpcBatchRequest>),
        ("JsonrpcBatchRequestItem", crate::rt::<api::JsonrpcBatchRequestItem>, crate::rts::<api::JsonrpcBatchRequestItem>),
        ("JsonrpcBatchResponse", crate::rt::<api::JsonrpcBatchResponse>, crate::rts::<api::JsonrpcBatchResponse>),
        ("JsonrpcBatchResponseItem", crate::rt::<api::JsonrpcBatchResponseItem>, crate::rts::<api::JsonrpcBatchResponseItem>),
        ("JsonrpcError", crate::rt::<api::JsonrpcError>, crate::rts::<api::JsonrpcError>),
        ("JsonrpcMessage", crate::rt::<api::JsonrpcMessage>, crate::rts::<api::JsonrpcMessage>),
        ("JsonrpcNotification", crate::rt::<api::JsonrpcNotification>, crate::rts::<api::JsonrpcNotification>),
        ("JsonrpcNotificationParams", crate::rt::<api::JsonrpcNotificationParams>, crate::rts::<api::JsonrpcNotificationParams>),
        ("JsonrpcRequest", crate::rt::<api::JsonrpcRequest>, crate::rts::<api::JsonrpcRequest>),
        ("JsonrpcRequestParams", crate::rt::<api::JsonrpcRequestParams>, crate::rts::<api::JsonrpcRequestParams>),
        ("JsonrpcRequestParamsMeta", crate::rt::<api::JsonrpcRequestParamsMeta>, crate::rts::<api::JsonrpcRequestParamsMeta>),
        ("JsonrpcResponse", crate::rt::<api::JsonrpcResponse>, crate::rts::<api::JsonrpcResponse>),
        ("ListPromptsRequest", crate::rt::<api::ListPromptsRequest>, crate::rts::<api::ListPromptsRequest>),
        ("ListPromptsRequestParams", crate::rt::<api::ListPromptsRequestParams>, crate::rts::<api::ListPromptsRequestParams>),
        ("ListPromptsResult", crate::rt::<api::ListPromptsResult>, crate::rts::<api::ListPromptsResult>),
        ("ListResourceTemplatesRequest", crate::rt::<api::ListResourceTemplatesRequest>, crate::rts::<api::ListResourceTemplatesRequest>),
        ("ListResourceTemplatesRequestParams", crate::rt::<api::ListResourceTemplatesRequestParams>, crate::rts::<api::ListResourceTemplatesRequestParams>),
        ("ListResourceTemplatesResult", crate::rt::<api::ListResourceTemplatesResult>, crate::rts::<api::ListResourceTemplatesResult>),
        ("ListResourcesRequest", crate::rt::<api::ListResourcesRequest>, crate::rts::<api::ListResourcesRequest>),
        ("ListResourcesRequestParams", crate::rt::<api::ListResourcesRequestParams>, crate::rts::<api::ListResourcesRequestParams>),
        ("ListResourcesResult", crate::rt::<api::ListResourcesResult>, crate::rts::<api::ListResourcesResult>),
        ("ListRootsRequest", crate::rt::<api::ListRootsRequest>, crate::rts::<api::ListRootsRequest>),
        ("ListRootsRequestParams", crate::rt::<api::ListRootsRequestParams>, crate::rts::<api::ListRootsRequestParams>),
        ("ListRootsRequestParamsMeta", crate::rt::<api::ListRootsRequestParamsMeta>, crate::rts::<api::ListRootsRequestParamsMeta>),
        ("ListRootsResult", crate::rt::<api::ListRootsResult>, crate::rts::<api::ListRootsResult>),
        ("ListToolsRequest", crate::rt::<api::ListToolsRequest>, crate::rts::<api::ListToolsRequest>),
        ("ListToolsRequestParams", crate::rt::<api::ListToolsRequestParams>, crate::rts::<api::ListToolsRequestParams>),
        ("ListToolsResult", crate::rt::<api::ListToolsResult>, crate::rts::<api::ListToolsResult>),
        ("LoggingLevel", crate::rt::<api::LoggingLevel>, crate::rts::<api::LoggingLevel>),
        ("LoggingMessageNotification", crate::rt::<api::LoggingMessageNotification>, crate::rts::<api::LoggingMessageNotification>),
        ("LoggingMessageNotificationParams", crate::rt::<api::LoggingMessageNotificationParams>, crate::rts::<api::LoggingMessageNotificationParams>),
        ("ModelHint", crate::rt::<api::ModelHint>, crate::rts::<api::ModelHint>),
        ("ModelPreferences", crate::rt::<api::ModelPreferences>, crate::rts::<api::ModelPreferences>),
        ("Notification", crate::rt::<api::Notification>, crate::rts::<api::Notification>),
        ("NotificationParams", crate::rt::<api::NotificationParams>, crate::rts::<api::NotificationParams>),
        ("PaginatedRequest", crate::rt::<api::PaginatedRequest>, crate::rts::<api::PaginatedRequest>),
        ("PaginatedRequestParams", crate::rt::<api::PaginatedRequestParams>, crate::rts::<api::PaginatedRequestParams>),
        ("PaginatedResult", crate::rt::<api::PaginatedResult>, crate::rts::<api::PaginatedResult>),
        ("PingRequest", crate::rt::<api::PingRequest>, crate::rts::<api::PingRequest>),
        ("PingRequestParams", crate::rt::<api::PingRequestParams>, crate::rts::<api::PingRequestParams>),
        ("PingRequestParamsMeta", crate::rt::<api::PingRequestParamsMeta>, crate::rts::<api::PingRequestParamsMeta>),
        ("ProgressNotification", crate::rt::<api::ProgressNotification>, crate::rts::<api::ProgressNotification>),
        ("ProgressNotificationParams", crate::rt::<api::ProgressNotificationParams>, crate::rts::<api::ProgressNotificationParams>),
        ("ProgressToken", crate::rt::<api::ProgressToken>, crate::rts::<api::ProgressToken>),
        ("Prompt", crate::rt::<api::Prompt>, crate::rts::<api::Prompt>),
        ("PromptArgument", crate::rt::<api::PromptArgument>, crate::rts::<api::PromptArgument>),
        ("PromptListChangedNotification", crate::rt::<api::PromptListChangedNotification>, crate::rts::<api::PromptListChangedNotification>),
        ("PromptListChangedNotificationParams", crate::rt::<api::PromptListChangedNotificationParams>, crate::rts::<api::PromptListChangedNotificationParams>),
        ("PromptMessage", crate::rt::<api::PromptMessage>, crate::rts::<api::PromptMessage>),
        ("PromptMessageContent", crate::rt::<api::PromptMessageContent>, crate::rts::<api::PromptMessageContent>),
        ("PromptReference", crate::rt::<api::PromptReference>, crate::rts::<api::PromptReference>),
        ("ReadResourceContent", crate::rt::<api::ReadResourceContent>, crate::rts::<api::ReadResourceContent>),
        ("ReadResourceRequest", crate::rt::<api::ReadResourceRequest>, crate::rts::<api::ReadResourceRequest>),
        ("ReadResourceRequestParams", crate::rt::<api::ReadResourceRequestParams>, crate::rts::<api::ReadResourceRequestParams>),
        ("ReadResourceResult", crate::rt::<api::ReadResourceResult>, crate::rts::<api::ReadResourceResult>),
        ("Request", crate::rt::<api::Request>, crate::rts::<api::Request>),
        ("RequestId", crate::rt::<api::RequestId>, crate::rts::<api::RequestId>),
        ("RequestParams", crate::rt::<api::RequestParams>, crate::rts::<api::RequestParams>),
        ("RequestParamsMeta", crate::rt::<api::RequestParamsMeta>, crate::rts::<api::RequestParamsMeta>),
        ("Resource", crate::rt::<api::Resource>, crate::rts::<api::Resource>),
        ("ResourceContents", crate::rt::<api::ResourceContents>, crate::rts::<api::ResourceContents>),
        ("ResourceListChangedNotification", crate::rt::<api::ResourceListChangedNotification>, crate::rts::<api::ResourceListChangedNotification>),
        ("ResourceListChangedNotificationParams", crate::rt::<api::ResourceListChangedNotificationParams>, crate::rts::<api::ResourceListChangedNotificationParams>),
        ("ResourceReference", crate::rt::<api::ResourceReference>, crate::rts::<api::ResourceReference>),
        ("ResourceTemplate", crate::rt::<api::ResourceTemplate>, crate::rts::<api::ResourceTemplate>),
        ("ResourceUpdatedNotification", crate::rt::<api::ResourceUpdatedNotification>, crate::rts::<api::ResourceUpdatedNotification>),
        ("ResourceUpdatedNotificationParams", crate::rt::<api::ResourceUpdatedNotificationParams>, crate::rts::<api::ResourceUpdatedNotificationParams>),
        ("Result", crate::rt::<api::Result>, crate::rts::<api::Result>),
        ("Role", crate::rt::<api::Role>, crate::rts::<api::Role>),
        ("Root", crate::rt::<api::Root>, crate::rts::<api::Root>),
        ("RootsListChangedNotification", crate::rt::<api::RootsListChangedNotification>, crate::rts::<api::RootsListChangedNotification>),
        ("RootsListChangedNotificationParams", crate::rt::<api::RootsListChangedNotificationParams>, crate::rts::<api::RootsListChangedNotificationParams>),
        ("RpcError", crate::rt::<api::RpcError>, crate::rts::<api::RpcError>),
        ("SamplingMessage", crate::rt::<api::SamplingMessage>, crate::rts::<api::SamplingMessage>),
        ("SamplingMessageContent", crate::rt::<api::SamplingMessageContent>, crate::rts::<api::SamplingMessageContent>),
        ("ServerCapabilities", crate::rt::<api::ServerCapabilities>, crate::rts::<api::ServerCapabilities>),
        ("ServerCapabilitiesPrompts", crate::rt::<api::ServerCapabilitiesPrompts>, crate::rts::<api::ServerCapabilitiesPrompts>),
        ("ServerCapabilitiesResources", crate::rt::<api::ServerCapabilitiesResources>, crate::rts::<api::ServerCapabilitiesResources>),
        ("ServerCapabilitiesTools", crate::rt::<api::ServerCapabilitiesTools>, crate::rts::<api::ServerCapabilitiesTools>),
        ("ServerNotification", crate::rt::<api::ServerNotification>, crate::rts::<api::ServerNotification>),
        ("ServerRequest", crate::rt::<api::ServerRequest>, crate::rts::<api::ServerRequest>),
        ("ServerResult", crate::rt::<api::ServerResult>, crate::rts::<api::ServerResult>),
        ("SetLevelRequest", crate::rt::<api::SetLevelRequest>, crate::rts::<api::SetLevelRequest>),
        ("SetLevelRequestParams", crate::rt::<api::SetLevelRequestParams>, crate::rts::<api::SetLevelRequestParams>),
        ("SubscribeRequest", crate::rt::<api::SubscribeRequest>, crate::rts::<api::SubscribeRequest>),
        ("SubscribeRequestParams", crate::rt::<api::SubscribeRequestParams>, crate::rts::<api::SubscribeRequestParams>),
        ("TextContent", crate::rt::<api::TextContent>, crate::rts::<api::TextContent>),
        ("TextResourceContents", crate::rt::<api::TextResourceContents>, crate::rts::<api::TextResourceContents>),
        ("Tool", crate::rt::<api::Tool>, crate::rts::<api::Tool>),
        ("ToolAnnotations", crate::rt::<api::ToolAnnotations>, crate::rts::<api::ToolAnnotations>),
        ("ToolInputSchema", crate::rt::<api::ToolInputSchema>, crate::rts::<api::ToolInputSchema>),
        ("ToolListChangedNotification", crate::rt::<api::ToolListChangedNotification>, crate::rts::<api::ToolListChangedNotification>),
        ("ToolListChangedNotificationParams", crate::rt::<api::ToolListChangedNotificationParams>, crate::rts::<api::ToolListChangedNotificationParams>),
        ("UnsubscribeRequest", crate::rt::<api::UnsubscribeRequest>, crate::rts::<api::UnsubscribeRequest>),
        ("UnsubscribeRequestParams", crate::rt::<api::UnsubscribeRequestParams>, crate::rts::<api::UnsubscribeRequestParams>),
    ];
}
#[cfg(feature = "v2025_06_18")]
pub mod v2025_06_18 {
    use rust_mcp_schema::mcp_2025_06_18 as api;
    pub const MODEL: &str = include_str!("../../../model/2025_06_18.json");
    pub const TYPES: &[super::Type] = &[
        ("Annotations", crate::rt::<api::Annotations>, crate::rts::<api::Annotations>),
        ("AudioContent", crate::rt::<api::AudioContent>, crate::rts::<api::AudioContent>),
        ("BaseMetadata", crate::rt::<api::BaseMetadata>, crate::rts::<api::BaseMetadata>),
        ("BlobResourceContents", crate::rt::<api::BlobResourceContents>, crate::rts::<api::BlobResourceContents>),
        ("BooleanSchema", crate::rt::<api::BooleanSchema>, crate::rts::<api::BooleanSchema>),
        ("CallToolRequest", crate::rt::<api::CallToolRequest>, crate::rts::<api::CallToolRequest>),
        ("CallToolRequestParams", crate::rt::<api::CallToolRequestParams>, crate::rts::<api::CallToolRequestParams>),
        ("CallToolResult", crate::rt::<api::CallToolResult>, crate::rts::<api::CallToolResult>),
        ("CancelledNotification", crate::rt::<api::CancelledNotification>, crate::rts::<api::CancelledNotification>),
        ("CancelledNotificationParams", crate::rt::<api::CancelledNotificationParams>, crate::rts::<api::CancelledNotificationParams>),
        ("ClientCapabilities", crate::rt::<api::ClientCapabilities>, crate::rts::<api::ClientCapabilities>),
        ("ClientNotification", crate::rt::<api::ClientNotification>, crate::rts::<api::ClientNotification>),
        ("ClientRequest", crate::rt::<api::ClientRequest>, crate::rts::<api::ClientRequest>),
        ("ClientResult", crate::rt::<api::ClientResult>, crate::rts::<api::ClientResult>),
        ("ClientRoots", crate::rt::<api::ClientRoots>, crate::rts::<api::ClientRoots>),
        ("CompleteRequest", crate::rt::<api::CompleteRequest>, crate::rts::<api::CompleteRequest>),
        ("CompleteRequestArgument", crate::rt::<api::CompleteRequestArgument>, crate::rts::<api::CompleteRequestArgument>),
        ("CompleteRequestContext", crate::rt::<api::CompleteRequestContext>, crate::rts::<api::CompleteRequestContext>),
        ("CompleteRequestParams", crate::rt::<api::CompleteRequestParams>, crate::rts::<api::CompleteRequestParams>),
        ("CompleteRequestRef", crate::rt::<api::CompleteRequestRef>, crate::rts::<api::CompleteRequestRef>),
        ("CompleteResult", crate::rt::<api::CompleteResult>, crate::rts::<api::CompleteResult>),
        ("CompleteResultCompletion", crate::rt::<api::CompleteResultCompletion>, crate::rts::<api::CompleteResultCompletion>),
        ("ContentBlock", crate::rt::<api::ContentBlock>, crate::rts::<api::ContentBlock>),
        ("CreateMessageContent", crate::rt::<api::CreateMessageContent>, crate::rts::<api::CreateMessageContent>),
        ("CreateMessageRequest", crate::rt::<api::CreateMessageRequest>, crate::rts::<api::CreateMessageRequest>),
        ("CreateMessageRequestParams", crate::rt::<api::CreateMessageRequestParams>, crate::rts::<api::CreateMessageRequestParams>),
        ("CreateMessageResult", crate::rt::<api::CreateMessageResult>, crate::rts::<api::CreateMessageResult>),
        ("Cursor", crate::rt::<api::Cursor>, crate::rts::<api::Cursor>),
        ("ElicitRequest", crate::rt::<api::ElicitRequest>, crate::rts::<api::ElicitRequest>),
        ("ElicitRequestParams", crate::rt::<api::ElicitRequestParams>, crate::rts::<api::ElicitRequestParams>),
        ("ElicitRequestedSchema", crate::rt::<api::ElicitRequestedSchema>, crate::rts::<api::ElicitRequestedSchema>),
        ("ElicitResult", crate::rt::<api::ElicitResult>, crate::rts::<api::ElicitResult>),
        ("ElicitResultAction", crate::rt::<api::ElicitResultAction>, crate::rts::<api::ElicitResultAction>),
        ("ElicitResultContent", crate::rt::<api::ElicitResultContent>, crate::rts::<api::ElicitResultContent>),
        ("EmbeddedResource", crate::rt::<api::EmbeddedResource>, crate::rts::<api::EmbeddedResource>),
        ("EmbeddedResourceResource", crate::rt::<api::EmbeddedResourceResource>, crate::rts::<api::EmbeddedResourceResource>),
        ("EmptyResult", crate::rt::<api::EmptyResult>, crate::rts::<api::EmptyResult>),
        ("EnumSchema", crate::rt::<api::EnumSchema>, crate::rts::<api::EnumSchema>),
        ("GetPromptRequest", crate::rt::<api::GetPromptRequest>, crate::rts::<api::GetPromptRequest>),
        ("GetPromptRequestParams", crate::rt::<api::GetPromptRequestParams>, crate::rts::<api::GetPromptRequestParams>),
        ("GetPromptResult", crate::rt::<api::GetPromptResult>, crate::rts::<api::GetPromptResult>),
        ("ImageContent", crate::rt::<api::ImageContent>, crate::rts::<api::ImageContent>),
        ("Implementation", crate::rt::<api::Implementation>, crate::rts::<api::Implementation>),
        ("IncludeContext", crate::rt::<api::IncludeContext>, crate::rts::<api::IncludeContext>),
        ("InitializeRequest", crate::rt::<api::InitializeRequest>, crate::rts::<api::InitializeRequest>),
        ("InitializeRequestParams", crate::rt::<api::InitializeRequestParams>, crate::rts::<api::InitializeRequestParams>),
        ("InitializeResult", crate::rt::<api::InitializeResult>, crate::rts::<api::InitializeResult>),
        ("InitializedNotification", crate::rt::<api::InitializedNotification>, crate::rts::<api::InitializedNotification>),
        ("InitializedNotificationParams", crate::rt::<api::InitializedNotificationParams>, crate::rts::<api::InitializedNotificationParams>),
        ("JsonrpcError", crate::rt::<api::JsonrpcError>, crate::rts::<api::JsonrpcError>),
        ("JsonrpcMessage", crate::rt::<api::JsonrpcMessage>, crate::rts::<api::JsonrpcMessage>),
        ("JsonrpcNotification", crate::rt::<api::JsonrpcNotification>, crate::rts::<api::JsonrpcNotification>),
        ("JsonrpcNotificationParams", crate::rt::<api::JsonrpcNotificationParams>, crate::rts::<api::JsonrpcNotificationParams>),
        ("JsonrpcRequest", crate::rt::<api::JsonrpcRequest>, crate::rts::<api::JsonrpcRequest>),
        ("JsonrpcRequestParams", crate::rt::<api::JsonrpcRequestParams>, crate::rts::<api::JsonrpcRequestParams>),
        ("JsonrpcRequestParamsMeta", crate::rt::<api::JsonrpcRequestParamsMeta>, crate::rts::<api::JsonrpcRequestParamsMeta>),
        ("JsonrpcResponse", crate::rt::<api::JsonrpcResponse>, crate::rts::<api::JsonrpcResponse>),
        ("ListPromptsRequest", crate::rt::<api::ListPromptsRequest>, crate::rts::<api::ListPromptsRequest>),
        ("ListPromptsRequestParams", crate::rt::<api::ListPromptsRequestParams>, crate::rts::<api::ListPromptsRequestParams>),
        ("ListPromptsResult", crate::rt::<api::ListPromptsResult>, crate::rts::<api::ListPromptsResult>),
        ("ListResourceTemplatesRequest", crate::rt::<api::ListResourceTemplatesRequest>, crate::rts::<api::ListResourceTemplatesRequest>),
        ("ListResourceTemplatesRequestParams", crate::rt::<api::ListResourceTemplatesRequestParams>, crate::rts::<api::ListResourceTemplatesRequestParams>),
        ("ListResourceTemplatesResult", crate::rt::<api::ListResourceTemplatesResult>, crate::rts::<api::ListResourceTemplatesResult>),
        ("ListResourcesRequest", crate::rt::<api::ListResourcesRequest>, crate::rts::<api::ListResourcesRequest>),
        ("ListResourcesRequestParams", crate::rt::<api::ListResourcesRequestParams>, crate::rts::<api::ListResourcesRequestParams>),
        ("ListResourcesResult", crate::rt::<api::ListResourcesResult>, crate::rts::<api::ListResourcesResult>),
        ("ListRootsRequest", crate::rt::<api::ListRootsRequest>, crate::rts::<api::ListRootsRequest>),
        ("ListRootsRequestParams", crate::rt::<api::ListRootsRequestParams>, crate::rts::<api::ListRootsRequestParams>),
        ("ListRootsRequestParamsMeta", crate::rt::<api::ListRootsRequestParamsMeta>, crate::rts::<api::ListRootsRequestParamsMeta>),
        ("ListRootsResult", crate::rt::<api::ListRootsResult>, crate::rts::<api::ListRootsResult>),
        ("ListToolsRequest", crate::rt::<api::ListToolsRequest>, crate::rts::<api::ListToolsRequest>),
        ("ListToolsRequestParams", crate::rt::<api::ListToolsRequestParams>, crate::rts::<api::ListToolsRequestParams>),
        ("ListToolsResult", crate::rt::<api::ListToolsResult>, crate::rts::<api::ListToolsResult>),
        ("LoggingLevel", crate::rt::<api::LoggingLevel>, crate::rts::<api::LoggingLevel>),
        ("LoggingMessageNotification", crate::rt::<api::LoggingMessageNotification>, crate::rts::<api::LoggingMessageNotification>),
        ("LoggingMessageNotificationParams", crate::rt::<api::LoggingMessageNotificationParams>, crate::rts::<api::LoggingMessageNotificationParams>),
        ("ModelHint", crate::rt::<api::ModelHint>, crate::rts::<api::ModelHint>),
        ("ModelPreferences", crate::rt::<api::ModelPreferences>, crate::rts::<api::ModelPreferences>),
        ("Notification", crate::rt::<api::Notification>, crate::rts::<api::Notification>),
        ("NotificationParams", crate::rt::<api::NotificationParams>, crate::rts::<api::NotificationParams>),
        ("NumberSchema", crate::rt::<api::NumberSchema>, crate::rts::<api::NumberSchema>),
        ("NumberSchemaType", crate::rt::<api::NumberSchemaType>, crate::rts::<api::NumberSchemaType>),
        ("PaginatedRequest", crate::rt::<api::PaginatedRequest>, crate::rts::<api::PaginatedRequest>),
        ("PaginatedRequestParams", crate::rt::<api::PaginatedRequestParams>, crate::rts::<api::PaginatedRequestParams>),
        ("PaginatedResult", crate::rt::<api::PaginatedResult>, crate::rts::<api::PaginatedResult>),
        ("PingRequest", crate::rt::<api::PingRequest>, crate::rts::<api::PingRequest>),
        ("PingRequestParams", crate::rt::<api::PingRequestParams>, crate::rts::<api::PingRequestParams>),
        ("PingRequestParamsMeta", crate::rt::<api::PingRequestParamsMeta>, crate::rts::<api::PingRequestParamsMeta>),
        ("PrimitiveSchemaDefinition", crate::rt::<api::PrimitiveSchemaDefinition>, crate::rts::<api::PrimitiveSchemaDefinition>),
        ("ProgressNotification", crate::rt::<api::ProgressNotification>, crate::rts::<api::ProgressNotification>),
        ("ProgressNotificationParams", crate::rt::<api::ProgressNotificationParams>, crate::rts::<api::ProgressNotificationParams>),
        ("ProgressToken", crate::rt::<api::ProgressToken>, crate::rts::<api::ProgressToken>),
        ("Prompt", crate::rt::<api::Prompt>, crate::rts::<api::Prompt>),
        ("PromptArgument", crate::rt::<api::PromptArgument>, crate::rts::<api::PromptArgument>),
        ("PromptListChangedNotification", crate::rt::<api::PromptListChangedNotification>, crate::rts::<api::PromptListChangedNotification>),
        ("PromptListChangedNotificationParams", crate::rt::<api::PromptListChangedNotificationParams>, crate::rts::<api::PromptListChangedNotificationParams>),
        ("PromptMessage", crate::rt::<api::PromptMessage>, crate::rts::<api::PromptMessage>),
        ("PromptReference", crate::rt::<api::PromptReference>, crate::rts::<api::PromptReference>),
        ("ReadResourceContent", crate::rt::<api::ReadResourceContent>, crate::rts::<api::ReadResourceContent>),
        ("ReadResourceRequest", crate::rt::<api::ReadResourceRequest>, crate::rts::<api::ReadResourceRequest>),
        ("ReadResourceRequestParams", crate::rt::<api::ReadResourceRequestParams>, crate::rts::<api::ReadResourceRequestParams>),
        ("ReadResourceResult", crate::rt::<api::ReadResourceResult>, crate::rts::<api::ReadResourceResult>),
        ("Request", crate::rt::<api::Request>, crate::rts::<api::Request>),
        ("RequestId", crate::rt::<api::RequestId>, crate::rts::<api::RequestId>),
        ("RequestParams", crate::rt::<api::RequestParams>, crate::rts::<api::RequestParams>),
        ("RequestParamsMeta", crate::rt::<api::RequestParamsMeta>, crate::rts::<api::RequestParamsMeta>),
        ("Resource", crate::rt::<api::Resource>, crate::rts::<api::Resource>),
        ("ResourceContents", crate::rt::<api::ResourceContents>, crate::rts::<api::ResourceContents>),
        ("ResourceLink", crate::rt::<api::ResourceLink>, crate::rts::<api::ResourceLink>),
        ("ResourceListChangedNotification", crate::rt::<api::ResourceListChangedNotification>, crate::rts::<api::ResourceListChangedNotification>),
        ("ResourceListChangedNotificationParams", crate::rt::<api::ResourceListChangedNotificationParams>, crate::rts::<api::ResourceListChangedNotificationParams>),
        ("ResourceTemplate", crate::rt::<api::ResourceTemplate>, crate::rts::<api::ResourceTemplate>),
        ("ResourceTemplateReference", crate::rt::<api::ResourceTemplateReference>, crate::rts::<api::ResourceTemplateReference>),
        ("ResourceUpdatedNotification", crate::rt::<api::ResourceUpdatedNotification>, crate::rts::<api::ResourceUpdatedNotification>),
        ("ResourceUpdatedNotificationParams", crate::rt::<api::ResourceUpdatedNotificationParams>, crate::rts::<api::ResourceUpdatedNotificationParams>),
        ("Result", crate::rt::<api::Result>, crate::rts::<api::Result>),
        ("Role", crate::rt::<api::Role>, crate::rts::<api::Role>),
        ("Root", crate::rt::<api::Root>, crate::rts::<api::Root>),
        ("RootsListChangedNotification", crate::rt::<api::RootsListChangedNotification>, crate::rts::<api::RootsListChangedNotification>),
        ("RootsListChangedNotificationParams", crate::rt::<api::RootsListChangedNotificationParams>, crate::rts::<api::RootsListChangedNotificationParams>),
        ("RpcError", crate::rt::<api::RpcError>, crate::rts::<api::RpcError>),
        ("SamplingMessage", crate::rt::<api::SamplingMessage>, crate::rts::<api::SamplingMessage>),
        ("SamplingMessageContent", crate::rt::<api::SamplingMessageContent>, crate::rts::<api::SamplingMessageContent>),
        ("ServerCapabilities", crate::rt::<api::ServerCapabilities>, crate::rts::<api::ServerCapabilities>),
        ("ServerCapabilitiesPrompts", crate::rt::<api::ServerCapabilitiesPrompts>, crate::rts::<api::ServerCapabilitiesPrompts>),
        ("ServerCapabilitiesResources", crate::rt::<api::ServerCapabilitiesResources>, crate::rts::<api::ServerCapabilitiesResources>),
        ("ServerCapabilitiesTools", crate::rt::<api::ServerCapabilitiesTools>, crate::rts::<api::ServerCapabilitiesTools>),
        ("ServerNotification", crate::rt::<api::ServerNotification>, crate::rts::<api::ServerNotification>),
        ("ServerRequest", crate::rt::<api::ServerRequest>, crate::rts::<api::ServerRequest>),
        ("ServerResult", crate::rt::<api::ServerResult>, crate::rts::<api::ServerResult>),
        ("SetLevelRequest", crate::rt::<api::SetLevelRequest>, crate::rts::<api::SetLevelRequest>),
        ("SetLevelRequestParams", crate::rt::<api::SetLevelRequestParams>, crate::rts::<api::SetLevelRequestParams>),
        ("StringSchema", crate::rt::<api::StringSchema>, crate::rts::<api::StringSchema>),
        ("StringSchemaFormat", crate::rt::<api::StringSchemaFormat>, crate::rts::<api::StringSchemaFormat>),
        ("SubscribeRequest", crate::rt::<api::SubscribeRequest>, crate::rts::<api::SubscribeRequest>),
        ("SubscribeRequestParams", crate::rt::<api::SubscribeRequestParams>, crate::rts::<api::SubscribeRequestParams>),
        ("TextContent", crate::rt::<api::TextContent>, crate::rts::<api::TextContent>),
        ("TextResourceContents", crate::rt::<api::TextResourceContents>, crate::rts::<api::TextResourceContents>),
        ("Tool", crate::rt::<api::Tool>, crate::rts::<api::Tool>),
        ("ToolAnnotations", crate::rt::<api::ToolAnnotations>, crate::rts::<api::ToolAnnotations>),
        ("ToolInputSchema", crate::rt::<api::ToolInputSchema>, crate::rts::<api::ToolInputSchema>),
        ("ToolListChangedNotification", crate::rt::<api::ToolListChangedNotification>, crate::rts::<api::ToolListChangedNotification>),
        ("ToolListChangedNotificationParams", crate::rt::<api::ToolListChangedNotificationParams>, crate::rts::<api::ToolListChangedNotificationParams>),
        ("ToolOutputSchema", crate::rt::<api::ToolOutputSchema>, crate::rts::<api::ToolOutputSchema>),
        ("UnsubscribeRequest", crate::rt::<api::UnsubscribeRequest>, crate::rts::<api::UnsubscribeRequest>),
        ("UnsubscribeRequestParams", crate::rt::<api::UnsubscribeRequestParams>, crate::rts::<api::UnsubscribeRequestParams>),
    ];
}
#[cfg(feature = "v2025_11_25")]
pub mod v2025_11_25 {
    use rust_mcp_schema::mcp_2025_11_25 as api;
    pub const MODEL: &str = include_str!("../../../model/2025_11_25.json");
    pub const TYPES: &[super::Type] = &[
        ("Annotations", crate::rt::<api::Annotations>, crate::rts::<api::Annotations>),
        ("AudioContent", crate::rt::<api::AudioContent>, crate::rts::<api::AudioContent>),
        ("BaseMetadata", crate::rt::<api::BaseMetadata>, crate::rts::<api::BaseMetadata>),
        ("BlobResourceContents", crate::rt::<api::BlobResourceContents>, crate::rts::<api::BlobResourceContents>),
        ("BooleanSchema", crate::rt::<api::BooleanSchema>, crate::rts::<api::BooleanSchema>),
        ("CallToolMeta", crate::rt::<api::CallToolMeta>, crate::rts::<api::CallToolMeta>),
        ("CallToolRequest", crate::rt::<api::CallToolRequest>, crate::rts::<api::CallToolRequest>),
        ("CallToolRequestParams", crate::rt::<api::CallToolRequestParams>, crate::rts::<api::CallToolRequestParams>),
        ("CallToolResult", crate::rt::<api::CallToolResult>, crate::rts::<api::CallToolResult>),
        ("CancelTaskParams", crate::rt::<api::CancelTaskParams>, crate::rts::<api::CancelTaskParams>),
        ("CancelTaskRequest", crate::rt::<api::CancelTaskRequest>, crate::rts::<api::CancelTaskRequest>),
        ("CancelTaskResult", crate::rt::<api::CancelTaskResult>, crate::rts::<api::CancelTaskResult>),
        ("CancelledNotification", crate::rt::<api::CancelledNotification>, crate::rts::<api::CancelledNotification>),
        ("CancelledNotificationParams", crate::rt::<api::CancelledNotificationParams>, crate::rts::<api::CancelledNotificationParams>),
        ("ClientCapabilities", crate::rt::<api::ClientCapabilities>, crate::rts::<api::ClientCapabilities>),
        ("ClientElicitation", crate::rt::<api::ClientElicitation>, crate::rts::<api::ClientElicitation>),
        ("ClientNotification", crate::rt::<api::ClientNotification>, crate::rts::<api::ClientNotification>),
        ("ClientRequest", crate::rt::<api::ClientRequest>, crate::rts::<api::ClientRequest>),
        ("ClientResult", crate::rt::<api::ClientResult>, crate::rts::<api::ClientResult>),
        ("ClientRoots", crate::rt::<api::ClientRoots>, crate::rts::<api::ClientRoots>),
        ("ClientSampling", crate::rt::<api::ClientSampling>, crate::rts::<api::ClientSampling>),
        ("ClientTaskElicitation", crate::rt::<api::ClientTaskElicitation>, crate::rts::<api::ClientTaskElicitation>),
        ("ClientTaskRequest", crate::rt::<api::ClientTaskRequest>, crate::rts::<api::ClientTaskRequest>),
        ("ClientTaskSampling", crate::rt::<api::ClientTaskSampling>, crate::rts::<api::ClientTaskSampling>),
        ("ClientTasks", crate::rt::<api::ClientTasks>, crate::rts::<api::ClientTasks>),
        ("CompleteRequest", crate::rt::<api::CompleteRequest>, crate::rts::<api::CompleteRequest>),
        ("CompleteRequestArgument", crate::rt::<api::CompleteRequestArgument>, crate::rts::<api::CompleteRequestArgument>),
        ("CompleteRequestContext", crate::rt::<api::CompleteRequestContext>, crate::rts::<api::CompleteRequestContext>),
        ("CompleteRequestMeta", crate::rt::<api::CompleteRequestMeta>, crate::rts::<api::CompleteRequestMeta>),
        ("CompleteRequestParams", crate::rt::<api::CompleteRequestParams>, crate::rts::<api::CompleteRequestParams>),
        ("CompleteRequestRef", crate::rt::<api::CompleteRequestRef>, crate::rts::<api::CompleteRequestRef>),
        ("CompleteResult", crate::rt::<api::CompleteResult>, crate::rts::<api::CompleteResult>),
        ("CompleteResultCompletion", crate::rt::<api::CompleteResultCompletion>, crate::rts::<api::CompleteResultCompletion>),
        ("ContentBlock", crate::rt::<api::ContentBlock>, crate::rts::<api::ContentBlock>),
        ("CreateMessageContent", crate::rt::<api::CreateMessageContent>, crate::rts::<api::CreateMessageContent>),
        ("CreateMessageRequest", crate::rt::<api::CreateMessageRequest>, crate::rts::<api::CreateMessageRequest>),
        ("CreateMessageRequestParams", crate::rt::<api::CreateMessageRequestParams>, crate::rts::<api::CreateMessageRequestParams>),
        ("CreateMessageResult", crate::rt::<api::CreateMessageResult>, crate::rts::<api::CreateMessageResult>),
        ("CreateTaskResult", crate::rt::<api::CreateTaskResult>, crate::rts::<api::CreateTaskResult>),
        ("Cursor", crate::rt::<api::Cursor>, crate::rts::<api::Cursor>),
        ("ElicitCompleteParams", crate::rt::<api::ElicitCompleteParams>, crate::rts::<api::ElicitCompleteParams>),
        ("ElicitFormMeta", crate::rt::<api::ElicitFormMeta>, crate::rts::<api::ElicitFormMeta>),
        ("ElicitFormSchema", crate::rt::<api::ElicitFormSchema>, crate::rts::<api::ElicitFormSchema>),
        ("ElicitRequest", crate::rt::<api::ElicitRequest>, crate::rts::<api::ElicitRequest>),
        ("ElicitRequestFormParams", crate::rt::<api::ElicitRequestFormParams>, crate::rts::<api::ElicitRequestFormParams>),
        ("ElicitRequestParams", crate::rt::<api::ElicitRequestParams>, crate::rts::<api::ElicitRequestParams>),
        ("ElicitRequestUrlParams", crate::rt::<api::ElicitRequestUrlParams>, crate::rts::<api::ElicitRequestUrlParams>),
        ("ElicitResult", crate::rt::<api::ElicitResult>, crate::rts::<api::ElicitResult>),
        ("ElicitResultAction", crate::rt::<api::ElicitResultAction>, crate::rts::<api::ElicitResultAction>),
        ("ElicitResultContent", crate::rt::<api::ElicitResultContent>, crate::rts::<api::ElicitResultContent>),
        ("ElicitResultContentPrimitive", crate::rt::<api::ElicitResultContentPrimitive>, crate::rts::<api::ElicitResultContentPrimitive>),
        ("ElicitUrlMeta", crate::rt::<api::ElicitUrlMeta>, crate::rts::<api::ElicitUrlMeta>),
        ("ElicitationCompleteNotification", crate::rt::<api::ElicitationCompleteNotification>, crate::rts::<api::ElicitationCompleteNotification>),
        ("EmbeddedResource", crate::rt::<api::EmbeddedResource>, crate::rts::<api::EmbeddedResource>),
        ("EmbeddedResourceResource", crate::rt::<api::EmbeddedResourceResource>, crate::rts::<api::EmbeddedResourceResource>),
        ("EmptyResult", crate::rt::<api::EmptyResult>, crate::rts::<api::EmptyResult>),
        ("EnumSchema", crate::rt::<api::EnumSchema>, crate::rts::<api::EnumSchema>),
        ("GetPromptMeta", crate::rt::<api::GetPromptMeta>, crate::rts::<api::GetPromptMeta>),
        ("GetPromptRequest", crate::rt::<api::GetPromptRequest>, crate::rts::<api::GetPromptRequest>),
        ("GetPromptRequestParams", crate::rt::<api::GetPromptRequestParams>, crate::rts::<api::GetPromptRequestParams>),
        ("GetPromptResult", crate::rt::<api::GetPromptResult>, crate::rts::<api::GetPromptResult>),
        ("GetTaskParams", crate::rt::<api::GetTaskParams>, crate::rts::<api::GetTaskParams>),
        ("GetTaskPayloadParams", crate::rt::<api::GetTaskPayloadParams>, crate::rts::<api::GetTaskPayloadParams>),
        ("GetTaskPayloadRequest", crate::rt::<api::GetTaskPayloadRequest>, crate::rts::<api::GetTaskPayloadRequest>),
        ("GetTaskPayloadResult", crate::rt::<api::GetTaskPayloadResult>, crate::rts::<api::GetTaskPayloadResult>),
        ("GetTaskRequest", crate::rt::<api::GetTaskRequest>, crate::rts::<api::GetTaskRequest>),
        ("GetTaskResult", crate::rt::<api::GetTaskResult>, crate::rts::<api::GetTaskResult>),
        ("Icon", crate::rt::<api::Icon>, crate::rts::<api::Icon>),
        ("IconTheme", crate::rt::<api::IconTheme>, crate::rts::<api::IconTheme>),
        ("Icons", crate::rt::<api::Icons>, crate::rts::<api::Icons>),
        ("ImageContent", crate::rt::<api::ImageContent>, crate::rts::<api::ImageContent>),
        ("Implementation", crate::rt::<api::Implementation>, crate::rts::<api::Implementation>),
        ("IncludeContext", crate::rt::<api::IncludeContext>, crate::rts::<api::IncludeContext>),
        ("InitializeMeta", crate::rt::<api::InitializeMeta>, crate::rts::<api::InitializeMeta>),
        ("InitializeRequest", crate::rt::<api::InitializeRequest>, crate::rts::<api::InitializeRequest>),
        ("InitializeRequestParams", crate::rt::<api::InitializeRequestParams>, crate::rts::<api::InitializeRequestParams>),
        ("InitializeResult", crate::rt::<api::InitializeResult>, crate::rts::<api::InitializeResult>),
        ("InitializedNotification", crate::rt::<api::InitializedNotification>, crate::rts::<api::InitializedNotification>),
        ("JsonrpcErrorResponse", crate::rt::<api::JsonrpcErrorResponse>, crate::rts::<api::JsonrpcErrorResponse>),
        ("JsonrpcMessage", crate::rt::<api::JsonrpcMessage>, crate::rts::<api::JsonrpcMessage>),
        ("JsonrpcNotification", crate::rt::<api::JsonrpcNotification>, crate::rts::<api::JsonrpcNotification>),
        ("JsonrpcRequest", crate::rt::<api::JsonrpcRequest>, crate::rts::<api::JsonrpcRequest>),
        ("JsonrpcResponse", crate::rt::<api::JsonrpcResponse>, crate::rts::<api::JsonrpcResponse>),
        ("JsonrpcResultResponse", crate::rt::<api::JsonrpcResultResponse>, crate::rts::<api::JsonrpcResultResponse>),
        ("LegacyTitledEnumSchema", crate::rt::<api::LegacyTitledEnumSchema>, crate::rts::<api::LegacyTitledEnumSchema>),
        ("ListPromptsRequest", crate::rt::<api::ListPromptsRequest>, crate::rts::<api::ListPromptsRequest>),
        ("ListPromptsResult", crate::rt::<api::ListPromptsResult>, crate::rts::<api::ListPromptsResult>),
        ("ListResourceTemplatesRequest", crate::rt::<api::ListResourceTemplatesRequest>, crate::rts::<api::ListResourceTemplatesRequest>),
        ("ListResourceTemplatesResult", crate::rt::<api::ListResourceTemplatesResult>, crate::rts::<api::ListResourceTemplatesResult>),
        ("ListResourcesRequest", crate::rt::<api::ListResourcesRequest>, crate::rts::<api::ListResourcesRequest>),
        ("ListResourcesResult", crate::rt::<api::ListResourcesResult>, crate::rts::<api::ListResourcesResult>),
        ("ListRootsRequest", crate::rt::<api::ListRootsRequest>, crate::rts::<api::ListRootsRequest>),
        ("ListRootsResult", crate::rt::<api::ListRootsResult>, crate::rts::<api::ListRootsResult>),
        ("ListTasksRequest", crate::rt::<api::ListTasksRequest>, crate::rts::<api::ListTasksRequest>),
        ("ListTasksResult", crate::rt::<api::ListTasksResult>, crate::rts::<api::ListTasksResult>),
        ("ListToolsRequest", crate::rt::<api::ListToolsRequest>, crate::rts::<api::ListToolsRequest>),
        ("ListToolsResult", crate::rt::<api::ListToolsResult>, crate::rts::<api::ListToolsResult>),
        ("LoggingLevel", crate::rt::<api::LoggingLevel>, crate::rts::<api::LoggingLevel>),
        ("LoggingMessageNotification", crate::rt::<api::LoggingMessageNotification>, crate::rts::<api::LoggingMessageNotification>),
        ("LoggingMessageNotificationParams", crate::rt::<api::LoggingMessageNotificationParams>, crate::rts::<api::LoggingMessageNotificationParams>),
        ("MessageMeta", crate::rt::<api::MessageMeta>, crate::rts::<api::MessageMeta>),
        ("ModelHint", crate::rt::<api::ModelHint>, crate::rts::<api::ModelHint>),
        ("ModelPreferences", crate::rt::<api::ModelPreferences>, crate::rts::<api::ModelPreferences>),
        ("MultiSelectEnumSchema", crate::rt::<api::MultiSelectEnumSchema>, crate::rts::<api::MultiSelectEnumSchema>),
        ("Notification", crate::rt::<api::Notification>, crate::rts::<api::Notification>),
        ("NotificationParams", crate::rt::<api::NotificationParams>, crate::rts::<api::NotificationParams>),
        ("NumberSchema", crate::rt::<api::NumberSchema>, crate::rts::<api::NumberSchema>),
        ("NumberSchemaType", crate::rt::<api::NumberSchemaType>, crate::rts::<api::NumberSchemaType>),
        ("PaginatedMeta", crate::rt::<api::PaginatedMeta>, crate::rts::<api::PaginatedMeta>),
        ("PaginatedRequest", crate::rt::<api::PaginatedRequest>, crate::rts::<api::PaginatedRequest>),
        ("PaginatedRequestParams", crate::rt::<api::PaginatedRequestParams>, crate::rts::<api::PaginatedRequestParams>),
        ("PaginatedResult", crate::rt::<api::PaginatedResult>, crate::rts::<api::PaginatedResult>),
        ("PingRequest", crate::rt::<api::PingRequest>, crate::rts::<api::PingRequest>),
        ("PrimitiveSchemaDefinition", crate::rt::<api::PrimitiveSchemaDefinition>, crate::rts::<api::PrimitiveSchemaDefinition>),
        ("ProgressNotification", crate::rt::<api::ProgressNotification>, crate::rts::<api::ProgressNotification>),
        ("ProgressNotificationParams", crate::rt::<api::ProgressNotificationParams>, crate::rts::<api::ProgressNotificationParams>),
        ("ProgressToken", crate::rt::<api::ProgressToken>, crate::rts::<api::ProgressToken>),
        ("Prompt", crate::rt::<api::Prompt>, crate::rts::<api::Prompt>),
        ("PromptArgument", crate::rt::<api::PromptArgument>, crate::rts::<api::PromptArgument>),
        ("PromptListChangedNotification", crate::rt::<api::PromptListChangedNotification>, crate::rts::<api::PromptListChangedNotification>),
        ("PromptMessage", crate::rt::<api::PromptMessage>, crate::rts::<api::PromptMessage>),
        ("PromptReference", crate::rt::<api::PromptReference>, crate::rts::<api::PromptReference>),
        ("ReadResourceContent", crate::rt::<api::ReadResourceContent>, crate::rts::<api::ReadResourceContent>),
        ("ReadResourceMeta", crate::rt::<api::ReadResourceMeta>, crate::rts::<api::ReadResourceMeta>),
        ("ReadResourceRequest", crate::rt::<api::ReadResourceRequest>, crate::rts::<api::ReadResourceRequest>),
        ("ReadResourceRequestParams", crate::rt::<api::ReadResourceRequestParams>, crate::rts::<api::ReadResourceRequestParams>),
        ("ReadResourceResult", crate::rt::<api::ReadResourceResult>, crate::rts::<api::ReadResourceResult>),
        ("RelatedTaskMetadata", crate::rt::<api::RelatedTaskMetadata>, crate::rts::<api::RelatedTaskMetadata>),
        ("Request", crate::rt::<api::Request>, crate::rts::<api::Request>),
        ("RequestId", crate::rt::<api::RequestId>, crate::rts::<api::RequestId>),
        ("RequestParams", crate::rt::<api::RequestParams>, crate::rts::<api::RequestParams>),
        ("RequestParamsMeta", crate::rt::<api::RequestParamsMeta>, crate::rts::<api::RequestParamsMeta>),
        ("Resource", crate::rt::<api::Resource>, crate::rts::<api::Resource>),
        ("ResourceContents", crate::rt::<api::ResourceContents>, crate::rts::<api::ResourceContents>),
        ("ResourceLink", crate::rt::<api::ResourceLink>, crate::rts::<api::ResourceLink>),
        ("ResourceListChangedNotification", crate::rt::<api::ResourceListChangedNotification>, crate::rts::<api::ResourceListChangedNotification>),
        ("ResourceMeta", crate::rt::<api::ResourceMeta>, crate::rts::<api::ResourceMeta>),
        ("ResourceRequestParams", crate::rt::<api::ResourceRequestParams>, crate::rts::<api::ResourceRequestParams>),
        ("ResourceTemplate", crate::rt::<api::ResourceTemplate>, crate::rts::<api::ResourceTemplate>),
        ("ResourceTemplateReference", crate::rt::<api::ResourceTemplateReference>, crate::rts::<api::ResourceTemplateReference>),
        ("ResourceUpdatedNotification", crate::rt::<api::ResourceUpdatedNotification>, crate::rts::<api::ResourceUpdatedNotification>),
        ("ResourceUpdatedNotificationParams", crate::rt::<api::ResourceUpdatedNotificationParams>, crate::rts::<api::ResourceUpdatedNotificationParams>),
        ("Result", crate::rt::<api::Result>, crate::rts::<api::Result>),
        ("Role", crate::rt::<api::Role>, crate::rts::<api::Role>),
        ("Root", crate::rt::<api::Root>, crate::rts::<api::Root>),
        ("RootsListChangedNotification", crate::rt::<api::RootsListChangedNotification>, crate::rts::<api::RootsListChangedNotification>),
        ("RpcError", crate::rt::<api::RpcError>, crate::rts::<api::RpcError>),
        ("SamplingMessage", crate::rt::<api::SamplingMessage>, crate::rts::<api::SamplingMessage>),
        ("SamplingMessageContent", crate::rt::<api::SamplingMessageContent>, crate::rts::<api::SamplingMessageContent>),
        ("SamplingMessageContentBlock", crate::rt::<api::SamplingMessageContentBlock>, crate::rts::<api::SamplingMessageContentBlock>),
        ("ServerCapabilities", crate::rt::<api::ServerCapabilities>, crate::rts::<api::ServerCapabilities>),
        ("ServerCapabilitiesPrompts", crate::rt::<api::ServerCapabilitiesPrompts>, crate::rts::<api::ServerCapabilitiesPrompts>),
        ("ServerCapabilitiesResources", crate::rt::<api::ServerCapabilitiesResources>, crate::rts::<api::ServerCapabilitiesResources>),
        ("ServerCapabilitiesTools", crate::rt::<api::ServerCapabilitiesTools>, crate::rts::<api::ServerCapabilitiesTools>),
        ("ServerNotification", crate::rt::<api::ServerNotification>, crate::rts::<api::ServerNotification>),
        ("ServerRequest", crate::rt::<api::ServerRequest>, crate::rts::<api::ServerRequest>),
        ("ServerResult", crate::rt::<api::ServerResult>, crate::rts::<api::ServerResult>),
        ("ServerTaskRequest", crate::rt::<api::ServerTaskRequest>, crate::rts::<api::ServerTaskRequest>),
        ("ServerTaskTools", crate::rt::<api::ServerTaskTools>, crate::rts::<api::ServerTaskTools>),
        ("ServerTasks", crate::rt::<api::ServerTasks>, crate::rts::<api::ServerTasks>),
        ("SetLevelMeta", crate::rt::<api::SetLevelMeta>, crate::rts::<api::SetLevelMeta>),
        ("SetLevelRequest", crate::rt::<api::SetLevelRequest>, crate::rts::<api::SetLevelRequest>),
        ("SetLevelRequestParams", crate::rt::<api::SetLevelRequestParams>, crate::rts::<api::SetLevelRequestParams>),
        ("SingleSelectEnumSchema", crate::rt::<api::SingleSelectEnumSchema>, crate::rts::<api::SingleSelectEnumSchema>),
        ("StringSchema", crate::rt::<api::StringSchema>, crate::rts::<api::StringSchema>),
        ("StringSchemaFormat", crate::rt::<api::StringSchemaFormat>, crate::rts::<api::StringSchemaFormat>),
        ("SubscribeMeta", crate::rt::<api::SubscribeMeta>, crate::rts::<api::SubscribeMeta>),
        ("SubscribeRequest", crate::rt::<api::SubscribeRequest>, crate::rts::<api::SubscribeRequest>),
        ("SubscribeRequestParams", crate::rt::<api::SubscribeRequestParams>, crate::rts::<api::SubscribeRequestParams>),
        ("Task", crate::rt::<api::Task>, crate::rts::<api::Task>),
        ("TaskAugmentedMeta", crate::rt::<api::TaskAugmentedMeta>, crate::rts::<api::TaskAugmentedMeta>),
        ("TaskAugmentedRequestParams", crate::rt::<api::TaskAugmentedRequestParams>, crate::rts::<api::TaskAugmentedRequestParams>),
        ("TaskMetadata", crate::rt::<api::TaskMetadata>, crate::rts::<api::TaskMetadata>),
        ("TaskStatus", crate::rt::<api::TaskStatus>, crate::rts::<api::TaskStatus>),
        ("TaskStatusNotification", crate::rt::<api::TaskStatusNotification>, crate::rts::<api::TaskStatusNotification>),
        ("TaskStatusNotificationParams", crate::rt::<api::TaskStatusNotificationParams>, crate::rts::<api::TaskStatusNotificationParams>),
        ("TextContent", crate::rt::<api::TextContent>, crate::rts::<api::TextContent>),
        ("TextResourceContents", crate::rt::<api::TextResourceContents>, crate::rts::<api::TextResourceContents>),
        ("TitledMultiSelectEnumSchema", crate::rt::<api::TitledMultiSelectEnumSchema>, crate::rts::<api::TitledMultiSelectEnumSchema>),
        ("TitledMultiSelectEnumSchemaItems", crate::rt::<api::TitledMultiSelectEnumSchemaItems>, crate::rts::<api::TitledMultiSelectEnumSchemaItems>),
        ("TitledMultiSelectEnumSchemaItemsAnyOfItem", crate::rt::<api::TitledMultiSelectEnumSchemaItemsAnyOfItem>, crate::rts::<api::TitledMultiSelectEnumSchemaItemsAnyOfItem>),
        ("TitledSingleSelectEnumSchema", crate::rt::<api::TitledSingleSelectEnumSchema>, crate::rts::<api::TitledSingleSelectEnumSchema>),
        ("TitledSingleSelectEnumSchemaOneOfItem", crate::rt::<api::TitledSingleSelectEnumSchemaOneOfItem>, crate::rts::<api::TitledSingleSelectEnumSchemaOneOfItem>),
        ("Tool", crate::rt::<api::Tool>, crate::rts::<api::Tool>),
        ("ToolAnnotations", crate::rt::<api::ToolAnnotations>, crate::rts::<api::ToolAnnotations>),
        ("ToolChoice", crate::rt::<api::ToolChoice>, crate::rts::<api::ToolChoice>),
        ("ToolChoiceMode", crate::rt::<api::ToolChoiceMode>, crate::rts::<api::ToolChoiceMode>),
        ("ToolExecution", crate::rt::<api::ToolExecution>, crate::rts::<api::ToolExecution>),
        ("ToolExecutionTaskSupport", crate::rt::<api::ToolExecutionTaskSupport>, crate::rts::<api::ToolExecutionTaskSupport>),
        ("ToolInputSchema", crate::rt::<api::ToolInputSchema>, crate::rts::<api::ToolInputSchema>),
        ("ToolListChangedNotification", crate::rt::<api::ToolListChangedNotification>, crate::rts::<api::ToolListChangedNotification>),
        ("ToolOutputSchema", crate::rt::<api::ToolOutputSchema>, crate::rts::<api::ToolOutputSchema>),
        ("ToolResultContent", crate::rt::<api::ToolResultContent>, crate::rts::<api::ToolResultContent>),
        ("ToolUseContent", crate::rt::<api::ToolUseContent>, crate::rts::<api::ToolUseContent>),
        ("UnsubscribeMeta", crate::rt::<api::UnsubscribeMeta>, crate::rts::<api::UnsubscribeMeta>),
        ("UnsubscribeRequest", crate::rt::<api::UnsubscribeRequest>, crate::rts::<api::UnsubscribeRequest>),
        ("UnsubscribeRequestParams", crate::rt::<api::UnsubscribeRequestParams>, crate::rts::<api::UnsubscribeRequestParams>),
        ("UntitledMultiSelectEnumSchema", crate::rt::<api::UntitledMultiSelectEnumSchema>, crate::rts::<api::UntitledMultiSelectEnumSchema>),
        ("UntitledMultiSelectEnumSchemaItems", crate::rt::<api::UntitledMultiSelectEnumSchemaItems>, crate::rts::<api::UntitledMultiSelectEnumSchemaItems>),
        ("UntitledSingleSelectEnumSchema", crate::rt::<api::UntitledSingleSelectEnumSchema>, crate::rts::<api::UntitledSingleSelectEnumSchema>),
        ("UrlElicitError", crate::rt::<api::UrlElicitError>, crate::rts::<api::UrlElicitError>),
        ("UrlElicitErrorData", crate::rt::<api::UrlElicitErrorData>, crate::rts::<api::UrlElicitErrorData>),
        ("UrlElicitationRequiredError", crate::rt::<api::UrlElicitationRequiredError>, crate::rts::<api::UrlElicitationRequiredError>),
    ];
}
#[cfg(feature = "v2026_07_28")]
pub mod v2026_07_28 {
    use rust_mcp_schema::mcp_2026_07_28 as api;
    pub const MODEL: &str = include_str!("../../../model/2026_07_28.json");
    pub const TYPES: &[super::Type] = &[
        ("Annotations", crate::rt::<api::Annotations>, crate::rts::<api::Annotations>),
        ("AudioContent", crate::rt::<api::AudioContent>, crate::rts::<api::AudioContent>),
        ("BaseMetadata", crate::rt::<api::BaseMetadata>, crate::rts::<api::BaseMetadata>),
        ("BlobResourceContents", crate::rt::<api::BlobResourceContents>, crate::rts::<api::BlobResourceContents>),
        ("BooleanSchema", crate::rt::<api::BooleanSchema>, crate::rts::<api::BooleanSchema>),
        ("CacheableResult", crate::rt::<api::CacheableResult>, crate::rts::<api::CacheableResult>),
        ("CacheableResultCacheScope", crate::rt::<api::CacheableResultCacheScope>, crate::rts::<api::CacheableResultCacheScope>),
        ("CallToolRequest", crate::rt::<api::CallToolRequest>, crate::rts::<api::CallToolRequest>),
        ("CallToolRequestParams", crate::rt::<api::CallToolRequestParams>, crate::rts::<api::CallToolRequestParams>),
        ("CallToolResult", crate::rt::<api::CallToolResult>, crate::rts::<api::CallToolResult>),
        ("CallToolResultResponse", crate::rt::<api::CallToolResultResponse>, crate::rts::<api::CallToolResultResponse>),
        ("CallToolResultResponseResult", crate::rt::<api::CallToolResultResponseResult>, crate::rts::<api::CallToolResultResponseResult>),
        ("CancelledNotification", crate::rt::<api::CancelledNotification>, crate::rts::<api::CancelledNotification>),
        ("CancelledNotificationParams", crate::rt::<api::CancelledNotificationParams>, crate::rts::<api::CancelledNotificationParams>),
        ("ClientCapabilities", crate::rt::<api::ClientCapabilities>, crate::rts::<api::ClientCapabilities>),
        ("ClientElicitation", crate::rt::<api::ClientElicitation>, crate::rts::<api::ClientElicitation>),
        ("ClientNotification", crate::rt::<api::ClientNotification>, crate::rts::<api::ClientNotification>),
        ("ClientRequest", crate::rt::<api::ClientRequest>, crate::rts::<api::ClientRequest>),
        ("ClientResult", crate::rt::<api::ClientResult>, crate::rts::<api::ClientResult>),
        ("ClientSampling", crate::rt::<api::ClientSampling>, crate::rts::<api::ClientSampling>),
        ("CompleteRequest", crate::rt::<api::CompleteRequest>, crate::rts::<api::CompleteRequest>),
        ("CompleteRequestArgument", crate::rt::<api::CompleteRequestArgument>, crate::rts::<api::CompleteRequestArgument>),
        ("CompleteRequestContext", crate::rt::<api::CompleteRequestContext>, crate::rts::<api::CompleteRequestContext>),
        ("CompleteRequestParams", crate::rt::<api::CompleteRequestParams>, crate::rts::<api::CompleteRequestParams>),
        ("CompleteRequestRef", crate::rt::<api::CompleteRequestRef>, crate::rts::<api::CompleteRequestRef>),
        ("CompleteResult", crate::rt::<api::CompleteResult>, crate::rts::<api::CompleteResult>),
        ("CompleteResultCompletion", crate::rt::<api::CompleteResultCompletion>, crate::rts::<api::CompleteResultCompletion>),
        ("CompleteResultResponse", crate::rt::<api::CompleteResultResponse>, crate::rts::<api::CompleteResultResponse>),
        ("ContentBlock", crate::rt::<api::ContentBlock>, crate::rts::<api::ContentBlock>),
        ("CreateMessageContent", crate::rt::<api::CreateMessageContent>, crate::rts::<api::CreateMessageContent>),
        ("CreateMessageRequest", crate::rt::<api::CreateMessageRequest>, crate::rts::<api::CreateMessageRequest>),
        ("CreateMessageRequestParams", crate::rt::<api::CreateMessageRequestParams>, crate::rts::<api::CreateMessageRequestParams>),
        ("CreateMessageResult", crate::rt::<api::CreateMessageResult>, crate::rts::<api::CreateMessageResult>),
        ("Cursor", crate::rt::<api::Cursor>, crate::rts::<api::Cursor>),
        ("DiscoverRequest", crate::rt::<api::DiscoverRequest>, crate::rts::<api::DiscoverRequest>),
        ("DiscoverResult", crate::rt::<api::DiscoverResult>, crate::rts::<api::DiscoverResult>),
        ("DiscoverResultCacheScope", crate::rt::<api::DiscoverResultCacheScope>, crate::rts::<api::DiscoverResultCacheScope>),
        ("DiscoverResultResponse", crate::rt::<api::DiscoverResultResponse>, crate::rts::<api::DiscoverResultResponse>),
        ("ElicitRequest", crate::rt::<api::ElicitRequest>, crate::rts::<api::ElicitRequest>),
        ("ElicitRequestFormParams", crate::rt::<api::ElicitRequestFormParams>, crate::rts::<api::ElicitRequestFormParams>),
        ("ElicitRequestFormParamsRequestedSchema", crate::rt::<api::ElicitRequestFormParamsRequestedSchema>, crate::rts::<api::ElicitRequestFormParamsRequestedSchema>),
        ("ElicitRequestParams", crate::rt::<api::ElicitRequestParams>, crate::rts::<api::ElicitRequestParams>),
        ("ElicitRequestUrlParams", crate::rt::<api::ElicitRequestUrlParams>, crate::rts::<api::ElicitRequestUrlParams>),
        ("ElicitResult", crate::rt::<api::ElicitResult>, crate::rts::<api::ElicitResult>),
        ("ElicitResultAction", crate::rt::<api::ElicitResultAction>, crate::rts::<api::ElicitResultAction>),
        ("ElicitResultContent", crate::rt::<api::ElicitResultContent>, crate::rts::<api::ElicitResultContent>),
        ("ElicitResultContentPrimitive", crate::rt::<api::ElicitResultContentPrimitive>, crate::rts::<api::ElicitResultContentPrimitive>),
        ("EmbeddedResource", crate::rt::<api::EmbeddedResource>, crate::rts::<api::EmbeddedResource>),
        ("EmbeddedResourceResource", crate::rt::<api::EmbeddedResourceResource>, crate::rts::<api::EmbeddedResourceResource>),
        ("EmptyResult", crate::rt::<api::EmptyResult>, crate::rts::<api::EmptyResult>),
        ("EnumSchema", crate::rt::<api::EnumSchema>, crate::rts::<api::EnumSchema>),
        ("GetPromptRequest", crate::rt::<api::GetPromptRequest>, crate::rts::<api::GetPromptRequest>),
        ("GetPromptRequestParams", crate::rt::<api::GetPromptRequestParams>, crate::rts::<api::GetPromptRequestParams>),
        ("GetPromptResult", crate::rt::<api::GetPromptResult>, crate::rts::<api::GetPromptResult>),
        ("GetPromptResultResponse", crate::rt::<api::GetPromptResultResponse>, crate::rts::<api::GetPromptResultResponse>),
        ("GetPromptResultResponseResult", crate::rt::<api::GetPromptResultResponseResult>, crate::rts::<api::GetPromptResultResponseResult>),
        ("HeaderMismatchError", crate::rt::<api::HeaderMismatchError>, crate::rts::<api::HeaderMismatchError>),
        ("Icon", crate::rt::<api::Icon>, crate::rts::<api::Icon>),
        ("IconTheme", crate::rt::<api::IconTheme>, crate::rts::<api::IconTheme>),
        ("Icons", crate::rt::<api::Icons>, crate::rts::<api::Icons>),
        ("ImageContent", crate::rt::<api::ImageContent>, crate::rts::<api::ImageContent>),
        ("Implementation", crate::rt::<api::Implementation>, crate::rts::<api::Implementation>),
        ("IncludeContext", crate::rt::<api::IncludeContext>, crate::rts::<api::IncludeContext>),
        ("InputRequest", crate::rt::<api::InputRequest>, crate::rts::<api::InputRequest>),
        ("InputRequests", crate::rt::<api::InputRequests>, crate::rts::<api::InputRequests>),
        ("InputRequiredResult", crate::rt::<api::InputRequiredResult>, crate::rts::<api::InputRequiredResult>),
        ("InputResponse", crate::rt::<api::InputResponse>, crate::rts::<api::InputResponse>),
        ("InputResponseRequestParams", crate::rt::<api::InputResponseRequestParams>, crate::rts::<api::InputResponseRequestParams>),
        ("InputResponses", crate::rt::<api::InputResponses>, crate::rts::<api::InputResponses>),
        ("InternalError", crate::rt::<api::InternalError>, crate::rts::<api::InternalError>),
        ("InvalidParamsError", crate::rt::<api::InvalidParamsError>, crate::rts::<api::InvalidParamsError>),
        ("InvalidRequestError", crate::rt::<api::InvalidRequestError>, crate::rts::<api::InvalidRequestError>),
        ("JsonArray", crate::rt::<api::JsonArray>, crate::rts::<api::JsonArray>),
        ("JsonObject", crate::rt::<api::JsonObject>, crate::rts::<api::JsonObject>),
        ("JsonValue", crate::rt::<api::JsonValue>, crate::rts::<api::JsonValue>),
        ("JsonValueVariant2", crate::rt::<api::JsonValueVariant2>, crate::rts::<api::JsonValueVariant2>),
        ("JsonrpcErrorResponse", crate::rt::<api::JsonrpcErrorResponse>, crate::rts::<api::JsonrpcErrorResponse>),
        ("JsonrpcMessage", crate::rt::<api::JsonrpcMessage>, crate::rts::<api::JsonrpcMessage>),
        ("JsonrpcNotification", crate::rt::<api::JsonrpcNotification>, crate::rts::<api::JsonrpcNotification>),
        ("JsonrpcRequest", crate::rt::<api::JsonrpcRequest>, crate::rts::<api::JsonrpcRequest>),
        ("JsonrpcResponse", crate::rt::<api::JsonrpcResponse>, crate::rts::<api::JsonrpcResponse>),
        ("JsonrpcResultResponse", crate::rt::<api::JsonrpcResultResponse>, crate::rts::<api::JsonrpcResultResponse>),
        ("LegacyTitledEnumSchema", crate::rt::<api::LegacyTitledEnumSchema>, crate::rts::<api::LegacyTitledEnumSchema>),
        ("ListPromptsRequest", crate::rt::<api::ListPromptsRequest>, crate::rts::<api::ListPromptsRequest>),
        ("ListPromptsResult", crate::rt::<api::ListPromptsResult>, crate::rts::<api::ListPromptsResult>),
        ("ListPromptsResultCacheScope", crate::rt::<api::ListPromptsResultCacheScope>, crate::rts::<api::ListPromptsResultCacheScope>),
        ("ListPromptsResultResponse", crate::rt::<api::ListPromptsResultResponse>, crate::rts::<api::ListPromptsResultResponse>),
        ("ListResourceTemplatesRequest", crate::rt::<api::ListResourceTemplatesRequest>, crate::rts::<api::ListResourceTemplatesRequest>),
        ("ListResourceTemplatesResult", crate::rt::<api::ListResourceTemplatesResult>, crate::rts::<api::ListResourceTemplatesResult>),
        ("ListResourceTemplatesResultCacheScope", crate::rt::<api::ListResourceTemplatesResultCacheScope>, crate::rts::<api::ListResourceTemplatesResultCacheScope>),
        ("ListResourceTemplatesResultResponse", crate::rt::<api::ListResourceTemplatesResultResponse>, crate::rts::<api::ListResourceTemplatesResultResponse>),
        ("ListResourcesRequest", crate::rt::<api::ListResourcesRequest>, crate::rts::<api::ListResourcesRequest>),
        ("ListResourcesResult", crate::rt::<api::ListResourcesResult>, crate::rts::<api::ListResourcesResult>),
        ("ListResourcesResultCacheScope", crate::rt::<api::ListResourcesResultCacheScope>, crate::rts::<api::ListResourcesResultCacheScope>),
        ("ListResourcesResultResponse", crate::rt::<api::ListResourcesResultResponse>, crate::rts::<api::ListResourcesResultResponse>),
        ("ListRootsRequest", crate::rt::<api::ListRootsRequest>, crate::rts::<api::ListRootsRequest>),
        ("ListRootsRequestParams", crate::rt::<api::ListRootsRequestParams>, crate::rts::<api::ListRootsRequestParams>),
        ("ListRootsResult", crate::rt::<api::ListRootsResult>, crate::rts::<api::ListRootsResult>),
        ("ListToolsRequest", crate::rt::<api::ListToolsRequest>, crate::rts::<api::ListToolsRequest>),
        ("ListToolsResult", crate::rt::<api::ListToolsResult>, crate::rts::<api::ListToolsResult>),
        ("ListToolsResultCacheScope", crate::rt::<api::ListToolsResultCacheScope>, crate::rts::<api::ListToolsResultCacheScope>),
        ("ListToolsResultResponse", crate::rt::<api::ListToolsResultResponse>, crate::rts::<api::ListToolsResultResponse>),
        ("LoggingLevel", crate::rt::<api::LoggingLevel>, crate::rts::<api::LoggingLevel>),
        ("LoggingMessageNotification", crate::rt::<api::LoggingMessageNotification>, crate::rts::<api::LoggingMessageNotification>),
        ("LoggingMessageNotificationParams", crate::rt::<api::LoggingMessageNotificationParams>, crate::rts::<api::LoggingMessageNotificationParams>),
        ("MetaObject", crate::rt::<api::MetaObject>, crate::rts::<api::MetaObject>),
        ("MethodNotFoundError", crate::rt::<api::MethodNotFoundError>, crate::rts::<api::MethodNotFoundError>),
        ("MissingRequiredClientCapabilityError", crate::rt::<api::MissingRequiredClientCapabilityError>, crate::rts::<api::MissingRequiredClientCapabilityError>),
        ("MissingRequiredClientCapabilityErrorError", crate::rt::<api::MissingRequiredClientCapabilityErrorError>, crate::rts::<api::MissingRequiredClientCapabilityErrorError>),
        ("MissingRequiredClientCapabilityErrorErrorData", crate::rt::<api::MissingRequiredClientCapabilityErrorErrorData>, crate::rts::<api::MissingRequiredClientCapabilityErrorErrorData>),
        ("ModelHint", crate::rt::<api::ModelHint>, crate::rts::<api::ModelHint>),
        ("ModelPreferences", crate::rt::<api::ModelPreferences>, crate::rts::<api::ModelPreferences>),
        ("MultiSelectEnumSchema", crate::rt::<api::MultiSelectEnumSchema>, crate::rts::<api::MultiSelectEnumSchema>),
        ("Notification", crate::rt::<api::Notification>, crate::rts::<api::Notification>),
        ("NotificationMetaObject", crate::rt::<api::NotificationMetaObject>, crate::rts::<api::NotificationMetaObject>),
        ("NotificationParams", crate::rt::<api::NotificationParams>, crate::rts::<api::NotificationParams>),
        ("NumberSchema", crate::rt::<api::NumberSchema>, crate::rts::<api::NumberSchema>),
        ("NumberSchemaType", crate::rt::<api::NumberSchemaType>, crate::rts::<api::NumberSchemaType>),
        ("PaginatedRequest", crate::rt::<api::PaginatedRequest>, crate::rts::<api::PaginatedRequest>),
        ("PaginatedRequestParams", crate::rt::<api::PaginatedRequestParams>, crate::rts::<api::PaginatedRequestParams>),
        ("PaginatedResult", crate::rt::<api::PaginatedResult>, crate::rts::<api::PaginatedResult>),
        ("ParseError", crate::rt::<api::ParseError>, crate::rts::<api::ParseError>),
        ("PrimitiveSchemaDefinition", crate::rt::<api::PrimitiveSchemaDefinition>, crate::rts::<api::PrimitiveSchemaDefinition>),
        ("ProgressNotification", crate::rt::<api::ProgressNotification>, crate::rts::<api::ProgressNotification>),
        ("ProgressNotificationParams", crate::rt::<api::ProgressNotificationParams>, crate::rts::<api::ProgressNotificationParams>),
        ("ProgressToken", crate::rt::<api::ProgressToken>, crate::rts::<api::ProgressToken>),
        ("Prompt", crate::rt::<api::Prompt>, crate::rts::<api::Prompt>),
        ("PromptArgument", crate::rt::<api::PromptArgument>, crate::rts::<api::PromptArgument>),
        ("PromptListChangedNotification", crate::rt::<api::PromptListChangedNotification>, crate::rts::<api::PromptListChangedNotification>),
        ("PromptMessage", crate::rt::<api::PromptMessage>, crate::rts::<api::PromptMessage>),
        ("PromptReference", crate::rt::<api::PromptReference>, crate::rts::<api::PromptReference>),
        ("ReadResourceContent", crate::rt::<api::ReadResourceContent>, crate::rts::<api::ReadResourceContent>),
        ("ReadResourceRequest", crate::rt::<api::ReadResourceRequest>, crate::rts::<api::ReadResourceRequest>),
        ("ReadResourceRequestParams", crate::rt::<api::ReadResourceRequestParams>, crate::rts::<api::ReadResourceRequestParams>),
        ("ReadResourceResult", crate::rt::<api::ReadResourceResult>, crate::rts::<api::ReadResourceResult>),
        ("ReadResourceResultCacheScope", crate::rt::<api::ReadResourceResultCacheScope>, crate::rts::<api::ReadResourceResultCacheScope>),
        ("ReadResourceResultResponse", crate::rt::<api::ReadResourceResultResponse>, crate::rts::<api::ReadResourceResultResponse>),
        ("ReadResourceResultResponseResult", crate::rt::<api::ReadResourceResultResponseResult>, crate::rts::<api::ReadResourceResultResponseResult>),
        ("Request", crate::rt::<api::Request>, crate::rts::<api::Request>),
        ("RequestId", crate::rt::<api::RequestId>, crate::rts::<api::RequestId>),
        ("RequestMetaObject", crate::rt::<api::RequestMetaObject>, crate::rts::<api::RequestMetaObject>),
        ("RequestParams", crate::rt::<api::RequestParams>, crate::rts::<api::RequestParams>),
        ("Resource", crate::rt::<api::Resource>, crate::rts::<api::Resource>),
        ("ResourceContents", crate::rt::<api::ResourceContents>, crate::rts::<api::ResourceContents>),
        ("ResourceLink", crate::rt::<api::ResourceLink>, crate::rts::<api::ResourceLink>),
        ("ResourceListChangedNotification", crate::rt::<api::ResourceListChangedNotification>, crate::rts::<api::ResourceListChangedNotification>),
        ("ResourceRequestParams", crate::rt::<api::ResourceRequestParams>, crate::rts::<api::ResourceRequestParams>),
        ("ResourceTemplate", crate::rt::<api::ResourceTemplate>, crate::rts::<api::ResourceTemplate>),
        ("ResourceTemplateReference", crate::rt::<api::ResourceTemplateReference>, crate::rts::<api::ResourceTemplateReference>),
        ("ResourceUpdatedNotification", crate::rt::<api::ResourceUpdatedNotification>, crate::rts::<api::ResourceUpdatedNotification>),
        ("ResourceUpdatedNotificationParams", crate::rt::<api::ResourceUpdatedNotificationParams>, crate::rts::<api::ResourceUpdatedNotificationParams>),
        ("Result", crate::rt::<api::Result>, crate::rts::<api::Result>),
        ("ResultMetaObject", crate::rt::<api::ResultMetaObject>, crate::rts::<api::ResultMetaObject>),
        ("ResultType", crate::rt::<api::ResultType>, crate::rts::<api::ResultType>),
        ("Role", crate::rt::<api::Role>, crate::rts::<api::Role>),
        ("Root", crate::rt::<api::Root>, crate::rts::<api::Root>),
        ("RpcError", crate::rt::<api::RpcError>, crate::rts::<api::RpcError>),
        ("SamplingMessage", crate::rt::<api::SamplingMessage>, crate::rts::<api::SamplingMessage>),
        ("SamplingMessageContent", crate::rt::<api::SamplingMessageContent>, crate::rts::<api::SamplingMessageContent>),
        ("SamplingMessageContentBlock", crate::rt::<api::SamplingMessageContentBlock>, crate::rts::<api::SamplingMessageContentBlock>),
        ("ServerCapabilities", crate::rt::<api::ServerCapabilities>, crate::rts::<api::ServerCapabilities>),
        ("ServerCapabilitiesPrompts", crate::rt::<api::ServerCapabilitiesPrompts>, crate::rts::<api::ServerCapabilitiesPrompts>),
        ("ServerCapabilitiesResources", crate::rt::<api::ServerCapabilitiesResources>, crate::rts::<api::ServerCapabilitiesResources>),
        ("ServerCapabilitiesTools", crate::rt::<api::ServerCapabilitiesTools>, crate::rts::<api::ServerCapabilitiesTools>),
        ("ServerNotification", crate::rt::<api::ServerNotification>, crate::rts::<api::ServerNotification>),
        ("ServerResult", crate::rt::<api::ServerResult>, crate::rts::<api::ServerResult>),
        ("SingleSelectEnumSchema", crate::rt::<api::SingleSelectEnumSchema>, crate::rts::<api::SingleSelectEnumSchema>),
        ("StringSchema", crate::rt::<api::StringSchema>, crate::rts::<api::StringSchema>),
        ("StringSchemaFormat", crate::rt::<api::StringSchemaFormat>, crate::rts::<api::StringSchemaFormat>),
        ("SubscriptionFilter", crate::rt::<api::SubscriptionFilter>, crate::rts::<api::SubscriptionFilter>),
        ("SubscriptionsAcknowledgedNotification", crate::rt::<api::SubscriptionsAcknowledgedNotification>, crate::rts::<api::SubscriptionsAcknowledgedNotification>),
        ("SubscriptionsAcknowledgedNotificationParams", crate::rt::<api::SubscriptionsAcknowledgedNotificationParams>, crate::rts::<api::SubscriptionsAcknowledgedNotificationParams>),
        ("SubscriptionsListenRequest", crate::rt::<api::SubscriptionsListenRequest>, crate::rts::<api::SubscriptionsListenRequest>),
        ("SubscriptionsListenRequestParams", crate::rt::<api::SubscriptionsListenRequestParams>, crate::rts::<api::SubscriptionsListenRequestParams>),
        ("SubscriptionsListenResult", crate::rt::<api::SubscriptionsListenResult>, crate::rts::<api::SubscriptionsListenResult>),
        ("SubscriptionsListenResultMetaObject", crate::rt::<api::SubscriptionsListenResultMetaObject>, crate::rts::<api::SubscriptionsListenResultMetaObject>),
        ("SubscriptionsListenResultResponse", crate::rt::<api::SubscriptionsListenResultResponse>, crate::rts::<api::SubscriptionsListenResultResponse>),
        ("TextContent", crate::rt::<api::TextContent>, crate::rts::<api::TextContent>),
        ("TextResourceContents", crate::rt::<api::TextResourceContents>, crate::rts::<api::TextResourceContents>),
        ("TitledMultiSelectEnumSchema", crate::rt::<api::TitledMultiSelectEnumSchema>, crate::rts::<api::TitledMultiSelectEnumSchema>),
        ("TitledMultiSelectEnumSchemaItems", crate::rt::<api::TitledMultiSelectEnumSchemaItems>, crate::rts::<api::TitledMultiSelectEnumSchemaItems>),
        ("TitledMultiSelectEnumSchemaItemsAnyOfItem", crate::rt::<api::TitledMultiSelectEnumSchemaItemsAnyOfItem>, crate::rts::<api::TitledMultiSelectEnumSchemaItemsAnyOfItem>),
        ("TitledSingleSelectEnumSchema", crate::rt::<api::TitledSingleSelectEnumSchema>, crate::rts::<api::TitledSingleSelectEnumSchema>),
        ("TitledSingleSelectEnumSchemaOneOfItem", crate::rt::<api::TitledSingleSelectEnumSchemaOneOfItem>, crate::rts::<api::TitledSingleSelectEnumSchemaOneOfItem>),
        ("Tool", crate::rt::<api::Tool>, crate::rts::<api::Tool>),
        ("ToolAnnotations", crate::rt::<api::ToolAnnotations>, crate::rts::<api::ToolAnnotations>),
        ("ToolChoice", crate::rt::<api::ToolChoice>, crate::rts::<api::ToolChoice>),
        ("ToolChoiceMode", crate::rt::<api::ToolChoiceMode>, crate::rts::<api::ToolChoiceMode>),
        ("ToolInputSchema", crate::rt::<api::ToolInputSchema>, crate::rts::<api::ToolInputSchema>),
        ("ToolListChangedNotification", crate::rt::<api::ToolListChangedNotification>, crate::rts::<api::ToolListChangedNotification>),
        ("ToolOutputSchema", crate::rt::<api::ToolOutputSchema>, crate::rts::<api::ToolOutputSchema>),
        ("ToolResultContent", crate::rt::<api::ToolResultContent>, crate::rts::<api::ToolResultContent>),
        ("ToolUseContent", crate::rt::<api::ToolUseContent>, crate::rts::<api::ToolUseContent>),
        ("UnsupportedProtocolVersionError", crate::rt::<api::UnsupportedProtocolVersionError>, crate::rts::<api::UnsupportedProtocolVersionError>),
        ("UnsupportedProtocolVersionErrorError", crate::rt::<api::UnsupportedProtocolVersionErrorError>, crate::rts::<api::UnsupportedProtocolVersionErrorError>),
        ("UnsupportedProtocolVersionErrorErrorData", crate::rt::<api::UnsupportedProtocolVersionErrorErrorData>, crate::rts::<api::UnsupportedProtocolVersionErrorErrorData>),
        ("UntitledMultiSelectEnumSchema", crate::rt::<api::UntitledMultiSelectEnumSchema>, crate::rts::<api::UntitledMultiSelectEnumSchema>),
        ("UntitledMultiSelectEnumSchemaItems", crate::rt::<api::UntitledMultiSelectEnumSchemaItems>, crate::rts::<api::UntitledMultiSelectEnumSchemaItems>),
        ("UntitledSingleSelectEnumSchema", crate::rt::<api::UntitledSingleSelectEnumSchema>, crate::rts::<api::UntitledSingleSelectEnumSchema>),
    ];
}
#[cfg(feature = "vdraft")]
pub mod vdraft {
    use rust_mcp_schema::mcp_draft as api;
    pub const MODEL: &str = include_str!("../../../model/draft.json");
    pub const TYPES: &[super::Type] = &[
        ("Annotations", crate::rt::<api::Annotations>, crate::rts::<api::Annotations>),
        ("AudioContent", crate::rt::<api::AudioContent>, crate::rts::<api::AudioContent>),
        ("BaseMetadata", crate::rt::<api::BaseMetadata>, crate::rts::<api::BaseMetadata>),
        ("BlobResourceContents", crate::rt::<api::BlobResourceContents>, crate::rts::<api::BlobResourceContents>),
        ("BooleanSchema", crate::rt::<api::BooleanSchema>, crate::rts::<api::BooleanSchema>),
        ("CacheableResult", crate::rt::<api::CacheableResult>, crate::rts::<api::CacheableResult>),
        ("CacheableResultCacheScope", crate::rt::<api::CacheableResultCacheScope>, crate::rts::<api::CacheableResultCacheScope>),
        ("CallToolRequest", crate::rt::<api::CallToolRequest>, crate::rts::<api::CallToolRequest>),
        ("CallToolRequestParams", crate::rt::<api::CallToolRequestParams>, crate::rts::<api::CallToolRequestParams>),
        ("CallToolResult", crate::rt::<api::CallToolResult>, crate::rts::<api::CallToolResult>),
        ("CallToolResultResponse", crate::rt::<api::CallToolResultResponse>, crate::rts::<api::CallToolResultResponse>),
        ("CallToolResultResponseResult", crate::rt::<api::CallToolResultResponseResult>, crate::rts::<api::CallToolResultResponseResult>),
        ("CancelledNotification", crate::rt::<api::CancelledNotification>, crate::rts::<api::CancelledNotification>),
        ("CancelledNotificationParams", crate::rt::<api::CancelledNotificationParams>, crate::rts::<api::CancelledNotificationParams>),
        ("ClientCapabilities", crate::rt::<api::ClientCapabilities>, crate::rts::<api::ClientCapabilities>),
        ("ClientElicitation", crate::rt::<api::ClientElicitation>, crate::rts::<api::ClientElicitation>),
        ("ClientNotification", crate::rt::<api::ClientNotification>, crate::rts::<api::ClientNotification>),
        ("ClientRequest", crate::rt::<api::ClientRequest>, crate::rts::<api::ClientRequest>),
        ("ClientResult", crate::rt::<api::ClientResult>, crate::rts::<api::ClientResult>),
        ("ClientSampling", crate::rt::<api::ClientSampling>, crate::rts::<api::ClientSampling>),
        ("CompleteRequest", crate::rt::<api::CompleteRequest>, crate::rts::<api::CompleteRequest>),
        ("CompleteRequestArgument", crate::rt::<api::CompleteRequestArgument>, crate::rts::<api::CompleteRequestArgument>),
        ("CompleteRequestContext", crate::rt::<api::CompleteRequestContext>, crate::rts::<api::CompleteRequestContext>),
        ("CompleteRequestParams", crate::rt::<api::CompleteRequestParams>, crate::rts::<api::CompleteRequestParams>),
        ("CompleteRequestRef", crate::rt::<api::CompleteRequestRef>, crate::rts::<api::CompleteRequestRef>),
        ("CompleteResult", crate::rt::<api::CompleteResult>, crate::rts::<api::CompleteResult>),
        ("CompleteResultCompletion", crate::rt::<api::CompleteResultCompletion>, crate::rts::<api::CompleteResultCompletion>),
        ("CompleteResultResponse", crate::rt::<api::CompleteResultResponse>, crate::rts::<api::CompleteResultResponse>),
        ("ContentBlock", crate::rt::<api::ContentBlock>, crate::rts::<api::ContentBlock>),
        ("CreateMessageContent", crate::rt::<api::CreateMessageContent>, crate::rts::<api::CreateMessageContent>),
        ("CreateMessageRequest", crate::rt::<api::CreateMessageRequest>, crate::rts::<api::CreateMessageRequest>),
        ("CreateMessageRequestParams", crate::rt::<api::CreateMessageRequestParams>, crate::rts::<api::CreateMessageRequestParams>),
        ("CreateMessageResult", crate::rt::<api::CreateMessageResult>, crate::rts::<api::CreateMessageResult>),
        ("Cursor", crate::rt::<api::Cursor>, crate::rts::<api::Cursor>),
        ("DiscoverRequest", crate::rt::<api::DiscoverRequest>, crate::rts::<api::DiscoverRequest>),
        ("DiscoverResult", crate::rt::<api::DiscoverResult>, crate::rts::<api::DiscoverResult>),
        ("DiscoverResultCacheScope", crate::rt::<api::DiscoverResultCacheScope>, crate::rts::<api::DiscoverResultCacheScope>),
        ("DiscoverResultResponse", crate::rt::<api::DiscoverResultResponse>, crate::rts::<api::DiscoverResultResponse>),
        ("ElicitRequest", crate::rt::<api::ElicitRequest>, crate::rts::<api::ElicitRequest>),
        ("ElicitRequestFormParams", crate::rt::<api::ElicitRequestFormParams>, crate::rts::<api::ElicitRequestFormParams>),
        ("ElicitRequestFormParamsRequestedSchema", crate::rt::<api::ElicitRequestFormParamsRequestedSchema>, crate::rts::<api::ElicitRequestFormParamsRequestedSchema>),
        ("ElicitRequestParams", crate::rt::<api::ElicitRequestParams>, crate::rts::<api::ElicitRequestParams>),
        ("ElicitRequestUrlParams", crate::rt::<api::ElicitRequestUrlParams>, crate::rts::<api::ElicitRequestUrlParams>),
        ("ElicitResult", crate::rt::<api::ElicitResult>, crate::rts::<api::ElicitResult>),
        ("ElicitResultAction", crate::rt::<api::ElicitResultAction>, crate::rts::<api::ElicitResultAction>),
        ("ElicitResultContent", crate::rt::<api::ElicitResultContent>, crate::rts::<api::ElicitResultContent>),
        ("ElicitResultContentPrimitive", crate::rt::<api::ElicitResultContentPrimitive>, crate::rts::<api::ElicitResultContentPrimitive>),
        ("EmbeddedResource", crate::rt::<api::EmbeddedResource>, crate::rts::<api::EmbeddedResource>),
        ("EmbeddedResourceResource", crate::rt::<api::EmbeddedResourceResource>, crate::rts::<api::EmbeddedResourceResource>),
        ("EmptyResult", crate::rt::<api::EmptyResult>, crate::rts::<api::EmptyResult>),
        ("EnumSchema", crate::rt::<api::EnumSchema>, crate::rts::<api::EnumSchema>),
        ("GetPromptRequest", crate::rt::<api::GetPromptRequest>, crate::rts::<api::GetPromptRequest>),
        ("GetPromptRequestParams", crate::rt::<api::GetPromptRequestParams>, crate::rts::<api::GetPromptRequestParams>),
        ("GetPromptResult", crate::rt::<api::GetPromptResult>, crate::rts::<api::GetPromptResult>),
        ("GetPromptResultResponse", crate::rt::<api::GetPromptResultResponse>, crate::rts::<api::GetPromptResultResponse>),
        ("GetPromptResultResponseResult", crate::rt::<api::GetPromptResultResponseResult>, crate::rts::<api::GetPromptResultResponseResult>),
        ("HeaderMismatchError", crate::rt::<api::HeaderMismatchError>, crate::rts::<api::HeaderMismatchError>),
        ("Icon", crate::rt::<api::Icon>, crate::rts::<api::Icon>),
        ("IconTheme", crate::rt::<api::IconTheme>, crate::rts::<api::IconTheme>),
        ("Icons", crate::rt::<api::Icons>, crate::rts::<api::Icons>),
        ("ImageContent", crate::rt::<api::ImageContent>, crate::rts::<api::ImageContent>),
        ("Implementation", crate::rt::<api::Implementation>, crate::rts::<api::Implementation>),
        ("IncludeContext", crate::rt::<api::IncludeContext>, crate::rts::<api::IncludeContext>),
        ("InputRequest", crate::rt::<api::InputRequest>, crate::rts::<api::InputRequest>),
        ("InputRequests", crate::rt::<api::InputRequests>, crate::rts::<api::InputRequests>),
        ("InputRequiredResult", crate::rt::<api::InputRequiredResult>, crate::rts::<api::InputRequiredResult>),
        ("InputResponse", crate::rt::<api::InputResponse>, crate::rts::<api::InputResponse>),
        ("InputResponseRequestParams", crate::rt::<api::InputResponseRequestParams>, crate::rts::<api::InputResponseRequestParams>),
        ("InputResponses", crate::rt::<api::InputResponses>, crate::rts::<api::InputResponses>),
        ("InternalError", crate::rt::<api::InternalError>, crate::rts::<api::InternalError>),
        ("InvalidParamsError", crate::rt::<api::InvalidParamsError>, crate::rts::<api::InvalidParamsError>),
        ("InvalidRequestError", crate::rt::<api::InvalidRequestError>, crate::rts::<api::InvalidRequestError>),
        ("JsonArray", crate::rt::<api::JsonArray>, crate::rts::<api::JsonArray>),
        ("JsonObject", crate::rt::<api::JsonObject>, crate::rts::<api::JsonObject>),
        ("JsonValue", crate::rt::<api::JsonValue>, crate::rts::<api::JsonValue>),
        ("JsonValueVariant2", crate::rt::<api::JsonValueVariant2>, crate::rts::<api::JsonValueVariant2>),
        ("JsonrpcErrorResponse", crate::rt::<api::JsonrpcErrorResponse>, crate::rts::<api::JsonrpcErrorResponse>),
        ("JsonrpcMessage", crate::rt::<api::JsonrpcMessage>, crate::rts::<api::JsonrpcMessage>),
        ("JsonrpcNotification", crate::rt::<api::JsonrpcNotification>, crate::rts::<api::JsonrpcNotification>),
        ("JsonrpcRequest", crate::rt::<api::JsonrpcRequest>, crate::rts::<api::JsonrpcRequest>),
        ("JsonrpcResponse", crate::rt::<api::JsonrpcResponse>, crate::rts::<api::JsonrpcResponse>),
        ("JsonrpcResultResponse", crate::rt::<api::JsonrpcResultResponse>, crate::rts::<api::JsonrpcResultResponse>),
        ("LegacyTitledEnumSchema", crate::rt::<api::LegacyTitledEnumSchema>, crate::rts::<api::LegacyTitledEnumSchema>),
        ("ListPromptsRequest", crate::rt::<api::ListPromptsRequest>, crate::rts::<api::ListPromptsRequest>),
        ("ListPromptsResult", crate::rt::<api::ListPromptsResult>, crate::rts::<api::ListPromptsResult>),
        ("ListPromptsResultCacheScope", crate::rt::<api::ListPromptsResultCacheScope>, crate::rts::<api::ListPromptsResultCacheScope>),
        ("ListPromptsResultResponse", crate::rt::<api::ListPromptsResultResponse>, crate::rts::<api::ListPromptsResultResponse>),
        ("ListResourceTemplatesRequest", crate::rt::<api::ListResourceTemplatesRequest>, crate::rts::<api::ListResourceTemplatesRequest>),
        ("ListResourceTemplatesResult", crate::rt::<api::ListResourceTemplatesResult>, crate::rts::<api::ListResourceTemplatesResult>),
        ("ListResourceTemplatesResultCacheScope", crate::rt::<api::ListResourceTemplatesResultCacheScope>, crate::rts::<api::ListResourceTemplatesResultCacheScope>),
        ("ListResourceTemplatesResultResponse", crate::rt::<api::ListResourceTemplatesResultResponse>, crate::rts::<api::ListResourceTemplatesResultResponse>),
        ("ListResourcesRequest", crate::rt::<api::ListResourcesRequest>, crate::rts::<api::ListResourcesRequest>),
        ("ListResourcesResult", crate::rt::<api::ListResourcesResult>, crate::rts::<api::ListResourcesResult>),
        ("ListResourcesResultCacheScope", crate::rt::<api::ListResourcesResultCacheScope>, crate::rts::<api::ListResourcesResultCacheScope>),
        ("ListResourcesResultResponse", crate::rt::<api::ListResourcesResultResponse>, crate::rts::<api::ListResourcesResultResponse>),
        ("ListRootsRequest", crate::rt::<api::ListRootsRequest>, crate::rts::<api::ListRootsRequest>),
        ("ListRootsRequestParams", crate::rt::<api::ListRootsRequestParams>, crate::rts::<api::ListRootsRequestParams>),
        ("ListRootsResult", crate::rt::<api::ListRootsResult>, crate::rts::<api::ListRootsResult>),
        ("ListToolsRequest", crate::rt::<api::ListToolsRequest>, crate::rts::<api::ListToolsRequest>),
        ("ListToolsResult", crate::rt::<api::ListToolsResult>, crate::rts::<api::ListToolsResult>),
        ("ListToolsResultCacheScope", crate::rt::<api::ListToolsResultCacheScope>, crate::rts::<api::ListToolsResultCacheScope>),
        ("ListToolsResultResponse", crate::rt::<api::ListToolsResultResponse>, crate::rts::<api::ListToolsResultResponse>),
        ("LoggingLevel", crate::rt::<api::LoggingLevel>, crate::rts::<api::LoggingLevel>),
        ("LoggingMessageNotification", crate::rt::<api::LoggingMessageNotification>, crate::rts::<api::LoggingMessageNotification>),
        ("LoggingMessageNotificationParams", crate::rt::<api::LoggingMessageNotificationParams>, crate::rts::<api::LoggingMessageNotificationParams>),
        ("MetaObject", crate::rt::<api::MetaObject>, crate::rts::<api::MetaObject>),
        ("MethodNotFoundError", crate::rt::<api::MethodNotFoundError>, crate::rts::<api::MethodNotFoundError>),
        ("MissingRequiredClientCapabilityError", crate::rt::<api::MissingRequiredClientCapabilityError>, crate::rts::<api::MissingRequiredClientCapabilityError>),
        ("MissingRequiredClientCapabilityErrorError", crate::rt::<api::MissingRequiredClientCapabilityErrorError>, crate::rts::<api::MissingRequiredClientCapabilityErrorError>),
        ("MissingRequiredClientCapabilityErrorErrorData", crate::rt::<api::MissingRequiredClientCapabilityErrorErrorData>, crate::rts::<api::MissingRequiredClientCapabilityErrorErrorData>),
        ("ModelHint", crate::rt::<api::ModelHint>, crate::rts::<api::ModelHint>),
        ("ModelPreferences", crate::rt::<api::ModelPreferences>, crate::rts::<api::ModelPreferences>),
        ("MultiSelectEnumSchema", crate::rt::<api::MultiSelectEnumSchema>, crate::rts::<api::MultiSelectEnumSchema>),
        ("Notification", crate::rt::<api::Notification>, crate::rts::<api::Notification>),
        ("NotificationMetaObject", crate::rt::<api::NotificationMetaObject>, crate::rts::<api::NotificationMetaObject>),
        ("NotificationParams", crate::rt::<api::NotificationParams>, crate::rts::<api::NotificationParams>),
        ("NumberSchema", crate::rt::<api::NumberSchema>, crate::rts::<api::NumberSchema>),
        ("NumberSchemaType", crate::rt::<api::NumberSchemaType>, crate::rts::<api::NumberSchemaType>),
        ("PaginatedRequest", crate::rt::<api::PaginatedRequest>, crate::rts::<api::PaginatedRequest>),
        ("PaginatedRequestParams", crate::rt::<api::PaginatedRequestParams>, crate::rts::<api::PaginatedRequestParams>),
        ("PaginatedResult", crate::rt::<api::PaginatedResult>, crate::rts::<api::PaginatedResult>),
        ("ParseError", crate::rt::<api::ParseError>, crate::rts::<api::ParseError>),
        ("PrimitiveSchemaDefinition", crate::rt::<api::PrimitiveSchemaDefinition>, crate::rts::<api::PrimitiveSchemaDefinition>),
        ("ProgressNotification", crate::rt::<api::ProgressNotification>, crate::rts::<api::ProgressNotification>),
        ("ProgressNotificationParams", crate::rt::<api::ProgressNotificationParams>, crate::rts::<api::ProgressNotificationParams>),
        ("ProgressToken", crate::rt::<api::ProgressToken>, crate::rts::<api::ProgressToken>),
        ("Prompt", crate::rt::<api::Prompt>, crate::rts::<api::Prompt>),
        ("PromptArgument", crate::rt::<api::PromptArgument>, crate::rts::<api::PromptArgument>),
        ("PromptListChangedNotification", crate::rt::<api::PromptListChangedNotification>, crate::rts::<api::PromptListChangedNotification>),
        ("PromptMessage", crate::rt::<api::PromptMessage>, crate::rts::<api::PromptMessage>),
        ("PromptReference", crate::rt::<api::PromptReference>, crate::rts::<api::PromptReference>),
        ("ReadResourceContent", crate::rt::<api::ReadResourceContent>, crate::rts::<api::ReadResourceContent>),
        ("ReadResourceRequest", crate::rt::<api::ReadResourceRequest>, crate::rts::<api::ReadResourceRequest>),
        ("ReadResourceRequestParams", crate::rt::<api::ReadResourceRequestParams>, crate::rts::<api::ReadResourceRequestParams>),
        ("ReadResourceResult", crate::rt::<api::ReadResourceResult>, crate::rts::<api::ReadResourceResult>),
        ("ReadResourceResultCacheScope", crate::rt::<api::ReadResourceResultCacheScope>, crate::rts::<api::ReadResourceResultCacheScope>),
        ("ReadResourceResultResponse", crate::rt::<api::ReadResourceResultResponse>, crate::rts::<api::ReadResourceResultResponse>),
        ("ReadResourceResultResponseResult", crate::rt::<api::ReadResourceResultResponseResult>, crate::rts::<api::ReadResourceResultResponseResult>),
        ("Request", crate::rt::<api::Request>, crate::rts::<api::Request>),
        ("RequestId", crate::rt::<api::RequestId>, crate::rts::<api::RequestId>),
        ("RequestMetaObject", crate::rt::<api::RequestMetaObject>, crate::rts::<api::RequestMetaObject>),
        ("RequestParams", crate::rt::<api::RequestParams>, crate::rts::<api::RequestParams>),
        ("Resource", crate::rt::<api::Resource>, crate::rts::<api::Resource>),
        ("ResourceContents", crate::rt::<api::ResourceContents>, crate::rts::<api::ResourceContents>),
        ("ResourceLink", crate::rt::<api::ResourceLink>, crate::rts::<api::ResourceLink>),
        ("ResourceListChangedNotification", crate::rt::<api::ResourceListChangedNotification>, crate::rts::<api::ResourceListChangedNotification>),
        ("ResourceRequestParams", crate::rt::<api::ResourceRequestParams>, crate::rts::<api::ResourceRequestParams>),
        ("ResourceTemplate", crate::rt::<api::ResourceTemplate>, crate::rts::<api::ResourceTemplate>),
        ("ResourceTemplateReference", crate::rt::<api::ResourceTemplateReference>, crate::rts::<api::ResourceTemplateReference>),
        ("ResourceUpdatedNotification", crate::rt::<api::ResourceUpdatedNotification>, crate::rts::<api::ResourceUpdatedNotification>),
        ("ResourceUpdatedNotificationParams", crate::rt::<api::ResourceUpdatedNotificationParams>, crate::rts::<api::ResourceUpdatedNotificationParams>),
        ("Result", crate::rt::<api::Result>, crate::rts::<api::Result>),
        ("ResultMetaObject", crate::rt::<api::ResultMetaObject>, crate::rts::<api::ResultMetaObject>),
        ("ResultType", crate::rt::<api::ResultType>, crate::rts::<api::ResultType>),
        ("Role", crate::rt::<api::Role>, crate::rts::<api::Role>),
        ("Root", crate::rt::<api::Root>, crate::rts::<api::Root>),
        ("RpcError", crate::rt::<api::RpcError>, crate::rts::<api::RpcError>),
        ("SamplingMessage", crate::rt::<api::SamplingMessage>, crate::rts::<api::SamplingMessage>),
        ("SamplingMessageContent", crate::rt::<api::SamplingMessageContent>, crate::rts::<api::SamplingMessageContent>),
        ("SamplingMessageContentBlock", crate::rt::<api::SamplingMessageContentBlock>, crate::rts::<api::SamplingMessageContentBlock>),
        ("ServerCapabilities", crate::rt::<api::ServerCapabilities>, crate::rts::<api::ServerCapabilities>),
        ("ServerCapabilitiesPrompts", crate::rt::<api::ServerCapabilitiesPrompts>, crate::rts::<api::ServerCapabilitiesPrompts>),
        ("ServerCapabilitiesResources", crate::rt::<api::ServerCapabilitiesResources>, crate::rts::<api::ServerCapabilitiesResources>),
        ("ServerCapabilitiesTools", crate::rt::<api::ServerCapabilitiesTools>, crate::rts::<api::ServerCapabilitiesTools>),
        ("ServerNotification", crate::rt::<api::ServerNotification>, crate::rts::<api::ServerNotification>),
        ("ServerResult", crate::rt::<api::ServerResult>, crate::rts::<api::ServerResult>),
        ("SingleSelectEnumSchema", crate::rt::<api::SingleSelectEnumSchema>, crate::rts::<api::SingleSelectEnumSchema>),
        ("StringSchema", crate::rt::<api::StringSchema>, crate::rts::<api::StringSchema>),
        ("StringSchemaFormat", crate::rt::<api::StringSchemaFormat>, crate::rts::<api::StringSchemaFormat>),
        ("SubscriptionFilter", crate::rt::<api::SubscriptionFilter>, crate::rts::<api::SubscriptionFilter>),
        ("SubscriptionsAcknowledgedNotification", crate::rt::<api::SubscriptionsAcknowledgedNotification>, crate::rts::<api::SubscriptionsAcknowledgedNotification>),
        ("SubscriptionsAcknowledgedNotificationParams", crate::rt::<api::SubscriptionsAcknowledgedNotificationParams>, crate::rts::<api::SubscriptionsAcknowledgedNotificationParams>),
        ("SubscriptionsListenRequest", crate::rt::<api::SubscriptionsListenRequest>, crate::rts::<api::SubscriptionsListenRequest>),
        ("SubscriptionsListenRequestParams", crate::rt::<api::SubscriptionsListenRequestParams>, crate::rts::<api::SubscriptionsListenRequestParams>),
        ("SubscriptionsListenResult", crate::rt::<api::SubscriptionsListenResult>, crate::rts::<api::SubscriptionsListenResult>),
        ("SubscriptionsListenResultMetaObject", crate::rt::<api::SubscriptionsListenResultMetaObject>, crate::rts::<api::SubscriptionsListenResultMetaObject>),
        ("SubscriptionsListenResultResponse", crate::rt::<api::SubscriptionsListenResultResponse>, crate::rts::<api::SubscriptionsListenResultResponse>),
        ("TextContent", crate::rt::<api::TextContent>, crate::rts::<api::TextContent>),
        ("TextResourceContents", crate::rt::<api::TextResourceContents>, crate::rts::<api::TextResourceContents>),
        ("TitledMultiSelectEnumSchema", crate::rt::<api::TitledMultiSelectEnumSchema>, crate::rts::<api::TitledMultiSelectEnumSchema>),
        ("TitledMultiSelectEnumSchemaItems", crate::rt::<api::TitledMultiSelectEnumSchemaItems>, crate::rts::<api::TitledMultiSelectEnumSchemaItems>),
        ("TitledMultiSelectEnumSchemaItemsAnyOfItem", crate::rt::<api::TitledMultiSelectEnumSchemaItemsAnyOfItem>, crate::rts::<api::TitledMultiSelectEnumSchemaItemsAnyOfItem>),
        ("TitledSingleSelectEnumSchema", crate::rt::<api::TitledSingleSelectEnumSchema>, crate::rts::<api::TitledSingleSelectEnumSchema>),
        ("TitledSingleSelectEnumSchemaOneOfItem", crate::rt::<api::TitledSingleSelectEnumSchemaOneOfItem>, crate::rts::<api::TitledSingleSelectEnumSchemaOneOfItem>),
        ("Tool", crate::rt::<api::Tool>, crate::rts::<api::Tool>),
        ("ToolAnnotations", crate::rt::<api::ToolAnnotations>, crate::rts::<api::ToolAnnotations>),
        ("ToolChoice", crate::rt::<api::ToolChoice>, crate::rts::<api::ToolChoice>),
        ("ToolChoiceMode", crate::rt::<api::ToolChoiceMode>, crate::rts::<api::ToolChoiceMode>),
        ("ToolInputSchema", crate::rt::<api::ToolInputSchema>, crate::rts::<api::ToolInputSchema>),
        ("ToolListChangedNotification", crate::rt::<api::ToolListChangedNotification>, crate::rts::<api::ToolListChangedNotification>),
        ("ToolOutputSchema", crate::rt::<api::ToolOutputSchema>, crate::rts::<api::ToolOutputSchema>),
        ("ToolResultContent", crate::rt::<api::ToolResultContent>, crate::rts::<api::ToolResultContent>),
        ("ToolUseContent", crate::rt::<api::ToolUseContent>, crate::rts::<api::ToolUseContent>),
        ("UnsupportedProtocolVersionError", crate::rt::<api::UnsupportedProtocolVersionError>, crate::rts::<api::UnsupportedProtocolVersionError>),
        ("UnsupportedProtocolVersionErrorError", crate::rt::<api::UnsupportedProtocolVersionErrorError>, crate::rts::<api::UnsupportedProtocolVersionErrorError>),
        ("UnsupportedProtocolVersionErrorErrorData", crate::rt::<api::UnsupportedProtocolVersionErrorErrorData>, crate::rts::<api::UnsupportedProtocolVersionErrorErrorData>),
        ("UntitledMultiSelectEnumSchema", crate::rt::<api::UntitledMultiSelectEnumSchema>, crate::rts::<api::UntitledMultiSelectEnumSchema>),
        ("UntitledMultiSelectEnumSchemaItems", crate::rt::<api::UntitledMultiSelectEnumSchemaItems>, crate::rts::<api::UntitledMultiSelectEnumSchemaItems>),
        ("UntitledSingleSelectEnumSchema", crate::rt::<api::UntitledSingleSelectEnumSchema>, crate::rts::<api::UntitledSingleSelectEnumSchema>),
    ];
}

use serde_json::Value;
pub type Type = (&'static str, fn(&Value) -> Option<Value>, fn(&str) -> Option<String>);

pub fn all() -> Vec<(&'static str, &'static str, &'static [Type])> {
    vec![
        #[cfg(feature = "v2024_11_05")]
        ("2024_11_05", v2024_11_05::MODEL, v2024_11_05::TYPES),
        #[cfg(feature = "v2025_03_26")]
        ("2025_03_26", v2025_03_26::MODEL, v2025_03_26::TYPES),
        #[cfg(feature = "v2025_06_18")]
        ("2025_06_18", v2025_06_18::MODEL, v2025_06_18::TYPES),
        #[cfg(feature = "v2025_11_25")]
        ("2025_11_25", v2025_11_25::MODEL, v2025_11_25::TYPES),
        #[cfg(feature = "v2026_07_28")]
        ("2026_07_28", v2026_07_28::MODEL, v2026_07_28::TYPES),
        #[cfg(feature = "vdraft")]
        ("draft", vdraft::MODEL, vdraft::TYPES),
    ]
}
