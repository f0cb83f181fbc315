From 2ea8786e4a360466b8fb65d5e2e2c27dc1a97c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:43 +0000
Subject: [PATCH 01/16] fix: let schema versions be enabled together, as the
 README documents

Every version declared a module named validators, so enabling two of them did
not compile.
---
 src/generated_schema.rs                       | 23 ++++++++++++-------
 src/generated_schema/2024_11_05/mcp_schema.rs |  2 +-
 src/generated_schema/2025_03_26/mcp_schema.rs |  2 +-
 src/generated_schema/2025_06_18/mcp_schema.rs |  2 +-
 src/generated_schema/2025_11_25/mcp_schema.rs |  2 +-
 src/generated_schema/2026_07_28/mcp_schema.rs |  2 +-
 src/generated_schema/draft/mcp_schema.rs      |  2 +-
 7 files changed, 21 insertions(+), 14 deletions(-)

diff --git a/src/generated_schema.rs b/src/generated_schema.rs
index 9527ff3..921bfcb 100644
--- a/src/generated_schema.rs
+++ b/src/generated_schema.rs
@@ -6,7 +6,8 @@ macro_rules! define_schema_version {
         $utils_path:literal,
         $validators_path:literal,
         $schema_mod:ident,
-        $utils_mod:ident
+        $utils_mod:ident,
+        $validators_mod:ident
     ) => {
         #[cfg(feature = $feature)]
         #[path = $schema_path]
@@ -20,7 +21,7 @@ macro_rules! define_schema_version {
         mod $utils_mod;
 
         #[path = $validators_path]
-        mod validators;
+        mod $validators_mod;
 
         #[cfg(feature = $feature)]
         pub mod $mod_name {
@@ -54,7 +55,8 @@ define_schema_version!(
     "generated_schema/2025_06_18/schema_utils.rs",
     "generated_schema/2025_06_18/validators.rs",
     __int_2025_06_18,
-    __int_utils_2025_06_18
+    __int_utils_2025_06_18,
+    __int_validators_2025_06_18
 );
 
 #[cfg(feature = "2025_03_26")]
@@ -65,7 +67,8 @@ define_schema_version!(
     "generated_schema/2025_03_26/schema_utils.rs",
     "generated_schema/2025_03_26/validators.rs",
     __int_2025_03_26,
-    __int_utils_2025_03_26
+    __int_utils_2025_03_26,
+    __int_validators_2025_03_26
 );
 
 #[cfg(feature = "2024_11_05")]
@@ -76,7 +79,8 @@ define_schema_version!(
     "generated_schema/2024_11_05/schema_utils.rs",
     "generated_schema/2024_11_05/validators.rs",
     __int_2024_11_05,
-    __int_utils_2024_11_05
+    __int_utils_2024_11_05,
+    __int_validators_2024_11_05
 );
 
 #[cfg(feature = "2025_11_25")]
@@ -87,7 +91,8 @@ define_schema_version!(
     "generated_schema/2025_11_25/schema_utils.rs",
     "generated_schema/2025_11_25/validators.rs",
     __int_2025_11_25,
-    __int_utils_2025_11_25
+    __int_utils_2025_11_25,
+    __int_validators_2025_11_25
 );
 
 #[cfg(feature = "2026_07_28")]
@@ -98,7 +103,8 @@ define_schema_version!(
     "generated_schema/2026_07_28/schema_utils.rs",
     "generated_schema/2026_07_28/validators.rs",
     __int_2026_07_28,
-    __int_utils_2026_07_28
+    __int_utils_2026_07_28,
+    __int_validators_2026_07_28
 );
 
 #[cfg(feature = "draft")]
@@ -109,7 +115,8 @@ define_schema_version!(
     "generated_schema/draft/schema_utils.rs",
     "generated_schema/draft/validators.rs",
     __int_draft,
-    __int_utils_draft
+    __int_utils_draft,
+    __int_validators_draft
 );
 
 #[path = "generated_schema/protocol_version.rs"]
diff --git a/src/generated_schema/2024_11_05/mcp_schema.rs b/src/generated_schema/2024_11_05/mcp_schema.rs
index 9a33233..f3e934c 100644
--- a/src/generated_schema/2024_11_05/mcp_schema.rs
+++ b/src/generated_schema/2024_11_05/mcp_schema.rs
@@ -11,7 +11,7 @@
 /// Generated at : 2026-08-21 20:10:04
 /// ----------------------------------------------------------------------------
 ///
-use super::validators as validate;
+use super::__int_validators_2024_11_05 as validate;
 /// MCP Protocol Version
 pub const LATEST_PROTOCOL_VERSION: &str = "2024-11-05";
 /// JSON-RPC Version
diff --git a/src/generated_schema/2025_03_26/mcp_schema.rs b/src/generated_schema/2025_03_26/mcp_schema.rs
index 2f4b5aa..f6ad1d0 100644
--- a/src/generated_schema/2025_03_26/mcp_schema.rs
+++ b/src/generated_schema/2025_03_26/mcp_schema.rs
@@ -11,7 +11,7 @@
 /// Generated at : 2026-08-21 20:10:18
 /// ----------------------------------------------------------------------------
 ///
-use super::validators as validate;
+use super::__int_validators_2025_03_26 as validate;
 /// MCP Protocol Version
 pub const LATEST_PROTOCOL_VERSION: &str = "2025-03-26";
 /// JSON-RPC Version
diff --git a/src/generated_schema/2025_06_18/mcp_schema.rs b/src/generated_schema/2025_06_18/mcp_schema.rs
index 1f2431a..bf48dc6 100644
--- a/src/generated_schema/2025_06_18/mcp_schema.rs
+++ b/src/generated_schema/2025_06_18/mcp_schema.rs
@@ -11,7 +11,7 @@
 /// Generated at : 2026-08-21 20:10:19
 /// ----------------------------------------------------------------------------
 ///
-use super::validators as validate;
+use super::__int_validators_2025_06_18 as validate;
 /// MCP Protocol Version
 pub const LATEST_PROTOCOL_VERSION: &str = "2025-06-18";
 /// JSON-RPC Version
diff --git a/src/generated_schema/2025_11_25/mcp_schema.rs b/src/generated_schema/2025_11_25/mcp_schema.rs
index 05e85d6..8ca8933 100644
--- a/src/generated_schema/2025_11_25/mcp_schema.rs
+++ b/src/generated_schema/2025_11_25/mcp_schema.rs
@@ -11,7 +11,7 @@
 /// Generated at : 2026-08-21 20:10:21
 /// ----------------------------------------------------------------------------
 ///
-use super::validators as validate;
+use super::__int_validators_2025_11_25 as validate;
 /// MCP Protocol Version
 pub const LATEST_PROTOCOL_VERSION: &str = "2025-11-25";
 /// JSON-RPC Version
diff --git a/src/generated_schema/2026_07_28/mcp_schema.rs b/src/generated_schema/2026_07_28/mcp_schema.rs
index b2b0748..b815298 100644
--- a/src/generated_schema/2026_07_28/mcp_schema.rs
+++ b/src/generated_schema/2026_07_28/mcp_schema.rs
@@ -11,7 +11,7 @@
 /// Generated at : 2026-08-21 20:10:23
 /// ----------------------------------------------------------------------------
 ///
-use super::validators as validate;
+use super::__int_validators_2026_07_28 as validate;
 /// MCP Protocol Version
 pub const LATEST_PROTOCOL_VERSION: &str = "2026-07-28";
 /// JSON-RPC Version
diff --git a/src/generated_schema/draft/mcp_schema.rs b/src/generated_schema/draft/mcp_schema.rs
index 3db865d..68b1583 100644
--- a/src/generated_schema/draft/mcp_schema.rs
+++ b/src/generated_schema/draft/mcp_schema.rs
@@ -11,7 +11,7 @@
 /// Generated at : 2026-08-21 20:10:25
 /// ----------------------------------------------------------------------------
 ///
-use super::validators as validate;
+use super::__int_validators_draft as validate;
 /// MCP Protocol Version
 pub const LATEST_PROTOCOL_VERSION: &str = "2026-07-28";
 /// JSON-RPC Version
-- 
2.43.0


From 1155427d0a4d77c2e6ef8a788fcf8938c24b7ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:00 +0000
Subject: [PATCH 02/16] fix: SdkError::bad_request carries the bad request
 message

It reported the message of RESOURCE_NOT_FOUND.
---
 src/generated_schema/2024_11_05/schema_utils.rs | 2 +-
 src/generated_schema/2025_03_26/schema_utils.rs | 2 +-
 src/generated_schema/2025_06_18/schema_utils.rs | 2 +-
 src/generated_schema/2025_11_25/schema_utils.rs | 2 +-
 src/generated_schema/2026_07_28/schema_utils.rs | 2 +-
 src/generated_schema/draft/schema_utils.rs      | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/generated_schema/2024_11_05/schema_utils.rs b/src/generated_schema/2024_11_05/schema_utils.rs
index 0563fd6..a2f7239 100644
--- a/src/generated_schema/2024_11_05/schema_utils.rs
+++ b/src/generated_schema/2024_11_05/schema_utils.rs
@@ -2604,7 +2604,7 @@ impl SdkError {
         Self {
             code: SdkErrorCodes::BAD_REQUEST.into(),
             data: None,
-            message: SdkErrorCodes::RESOURCE_NOT_FOUND.to_string(),
+            message: SdkErrorCodes::BAD_REQUEST.to_string(),
         }
     }
     pub fn with_message(mut self, message: &str) -> Self {
diff --git a/src/generated_schema/2025_03_26/schema_utils.rs b/src/generated_schema/2025_03_26/schema_utils.rs
index 9d7b6de..637f4b4 100644
--- a/src/generated_schema/2025_03_26/schema_utils.rs
+++ b/src/generated_schema/2025_03_26/schema_utils.rs
@@ -2603,7 +2603,7 @@ impl SdkError {
         Self {
             code: SdkErrorCodes::BAD_REQUEST.into(),
             data: None,
-            message: SdkErrorCodes::RESOURCE_NOT_FOUND.to_string(),
+            message: SdkErrorCodes::BAD_REQUEST.to_string(),
         }
     }
     pub fn with_message(mut self, message: &str) -> Self {
diff --git a/src/generated_schema/2025_06_18/schema_utils.rs b/src/generated_schema/2025_06_18/schema_utils.rs
index f265ca4..146b7cf 100644
--- a/src/generated_schema/2025_06_18/schema_utils.rs
+++ b/src/generated_schema/2025_06_18/schema_utils.rs
@@ -2736,7 +2736,7 @@ impl SdkError {
         Self {
             code: SdkErrorCodes::BAD_REQUEST.into(),
             data: None,
-            message: SdkErrorCodes::RESOURCE_NOT_FOUND.to_string(),
+            message: SdkErrorCodes::BAD_REQUEST.to_string(),
         }
     }
     pub fn with_message(mut self, message: &str) -> Self {
diff --git a/src/generated_schema/2025_11_25/schema_utils.rs b/src/generated_schema/2025_11_25/schema_utils.rs
index 120421f..e289a28 100644
--- a/src/generated_schema/2025_11_25/schema_utils.rs
+++ b/src/generated_schema/2025_11_25/schema_utils.rs
@@ -3545,7 +3545,7 @@ impl SdkError {
         Self {
             code: SdkErrorCodes::BAD_REQUEST.into(),
             data: None,
-            message: SdkErrorCodes::RESOURCE_NOT_FOUND.to_string(),
+            message: SdkErrorCodes::BAD_REQUEST.to_string(),
         }
     }
     pub fn with_message(mut self, message: &str) -> Self {
diff --git a/src/generated_schema/2026_07_28/schema_utils.rs b/src/generated_schema/2026_07_28/schema_utils.rs
index 6eb1cfe..b81f639 100644
--- a/src/generated_schema/2026_07_28/schema_utils.rs
+++ b/src/generated_schema/2026_07_28/schema_utils.rs
@@ -2911,7 +2911,7 @@ impl SdkError {
         Self {
             code: SdkErrorCodes::BAD_REQUEST.into(),
             data: None,
-            message: SdkErrorCodes::RESOURCE_NOT_FOUND.to_string(),
+            message: SdkErrorCodes::BAD_REQUEST.to_string(),
         }
     }
     pub fn with_message(mut self, message: &str) -> Self {
diff --git a/src/generated_schema/draft/schema_utils.rs b/src/generated_schema/draft/schema_utils.rs
index 6eb1cfe..b81f639 100644
--- a/src/generated_schema/draft/schema_utils.rs
+++ b/src/generated_schema/draft/schema_utils.rs
@@ -2911,7 +2911,7 @@ impl SdkError {
         Self {
             code: SdkErrorCodes::BAD_REQUEST.into(),
             data: None,
-            message: SdkErrorCodes::RESOURCE_NOT_FOUND.to_string(),
+            message: SdkErrorCodes::BAD_REQUEST.to_string(),
         }
     }
     pub fn with_message(mut self, message: &str) -> Self {
-- 
2.43.0


From b5eb758b541b9a66dec9ddc186d2318fd0786644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:00 +0000
Subject: [PATCH 03/16] fix: SdkError without data does not serialize a null
 data member

---
 src/generated_schema/2024_11_05/schema_utils.rs | 1 +
 src/generated_schema/2025_03_26/schema_utils.rs | 1 +
 src/generated_schema/2025_06_18/schema_utils.rs | 1 +
 src/generated_schema/2025_11_25/schema_utils.rs | 1 +
 src/generated_schema/2026_07_28/schema_utils.rs | 1 +
 src/generated_schema/draft/schema_utils.rs      | 1 +
 6 files changed, 6 insertions(+)

diff --git a/src/generated_schema/2024_11_05/schema_utils.rs b/src/generated_schema/2024_11_05/schema_utils.rs
index a2f7239..aaf587f 100644
--- a/src/generated_schema/2024_11_05/schema_utils.rs
+++ b/src/generated_schema/2024_11_05/schema_utils.rs
@@ -2511,6 +2511,7 @@ pub struct SdkError {
     ///The error type that occurred.
     pub code: i64,
     ///Additional information about the error.
+    #[serde(default, skip_serializing_if = "::std::option::Option::is_none")]
     pub data: ::std::option::Option<::serde_json::Value>,
     ///A short description of the error.
     pub message: ::std::string::String,
diff --git a/src/generated_schema/2025_03_26/schema_utils.rs b/src/generated_schema/2025_03_26/schema_utils.rs
index 637f4b4..cd778c8 100644
--- a/src/generated_schema/2025_03_26/schema_utils.rs
+++ b/src/generated_schema/2025_03_26/schema_utils.rs
@@ -2510,6 +2510,7 @@ pub struct SdkError {
     ///The error type that occurred.
     pub code: i64,
     ///Additional information about the error.
+    #[serde(default, skip_serializing_if = "::std::option::Option::is_none")]
     pub data: ::std::option::Option<::serde_json::Value>,
     ///A short description of the error.
     pub message: ::std::string::String,
diff --git a/src/generated_schema/2025_06_18/schema_utils.rs b/src/generated_schema/2025_06_18/schema_utils.rs
index 146b7cf..954b234 100644
--- a/src/generated_schema/2025_06_18/schema_utils.rs
+++ b/src/generated_schema/2025_06_18/schema_utils.rs
@@ -2643,6 +2643,7 @@ pub struct SdkError {
     ///The error type that occurred.
     pub code: i64,
     ///Additional information about the error.
+    #[serde(default, skip_serializing_if = "::std::option::Option::is_none")]
     pub data: ::std::option::Option<::serde_json::Value>,
     ///A short description of the error.
     pub message: ::std::string::String,
diff --git a/src/generated_schema/2025_11_25/schema_utils.rs b/src/generated_schema/2025_11_25/schema_utils.rs
index e289a28..ce2918c 100644
--- a/src/generated_schema/2025_11_25/schema_utils.rs
+++ b/src/generated_schema/2025_11_25/schema_utils.rs
@@ -3434,6 +3434,7 @@ pub struct SdkError {
     ///The error type that occurred.
     pub code: i64,
     ///Additional information about the error.
+    #[serde(default, skip_serializing_if = "::std::option::Option::is_none")]
     pub data: ::std::option::Option<::serde_json::Value>,
     ///A short description of the error.
     pub message: ::std::string::String,
diff --git a/src/generated_schema/2026_07_28/schema_utils.rs b/src/generated_schema/2026_07_28/schema_utils.rs
index b81f639..e92a483 100644
--- a/src/generated_schema/2026_07_28/schema_utils.rs
+++ b/src/generated_schema/2026_07_28/schema_utils.rs
@@ -2819,6 +2819,7 @@ impl From<SdkErrorCodes> for i64 {
 #[derive(::serde::Deserialize, ::serde::Serialize, Clone, Debug)]
 pub struct SdkError {
     pub code: i64,
+    #[serde(default, skip_serializing_if = "::std::option::Option::is_none")]
     pub data: ::std::option::Option<::serde_json::Value>,
     pub message: ::std::string::String,
 }
diff --git a/src/generated_schema/draft/schema_utils.rs b/src/generated_schema/draft/schema_utils.rs
index b81f639..e92a483 100644
--- a/src/generated_schema/draft/schema_utils.rs
+++ b/src/generated_schema/draft/schema_utils.rs
@@ -2819,6 +2819,7 @@ impl From<SdkErrorCodes> for i64 {
 #[derive(::serde::Deserialize, ::serde::Serialize, Clone, Debug)]
 pub struct SdkError {
     pub code: i64,
+    #[serde(default, skip_serializing_if = "::std::option::Option::is_none")]
     pub data: ::std::option::Option<::serde_json::Value>,
     pub message: ::std::string::String,
 }
-- 
2.43.0


From 6efab94e2a4c3f613bb00563f9bdc267cdc5ad2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:00 +0000
Subject: [PATCH 04/16] fix: related_task_id reads the task id that
 set_related_task_id stores

The setter stores {"taskId": id}; the getters looked for a plain string.
---
 src/generated_schema/2025_11_25/schema_utils.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/generated_schema/2025_11_25/schema_utils.rs b/src/generated_schema/2025_11_25/schema_utils.rs
index ce2918c..bb6ad45 100644
--- a/src/generated_schema/2025_11_25/schema_utils.rs
+++ b/src/generated_schema/2025_11_25/schema_utils.rs
@@ -2899,8 +2899,8 @@ impl GetTaskPayloadResult {
     /// Retrieves the related task ID from the metadata, if it exists.
     ///
     /// This function looks for a key corresponding to the `RELATED_TASK_META_KEY` in the
-    /// `meta` field of the struct. If the key exists and contains a string value, it returns
-    /// it as an `Option<&str>`. If the key is missing or not a string, it returns `None`.
+    /// `meta` field of the struct. If the key exists and its value has a string `taskId`, it
+    /// returns it as an `Option<&str>`. If there is no such `taskId`, it returns `None`.
     ///
     /// # Returns
     /// - `Some(&str)` if a related task ID exists.
@@ -2909,6 +2909,7 @@ impl GetTaskPayloadResult {
         self.meta
             .as_ref()
             .and_then(|v| v.get(RELATED_TASK_META_KEY))
+            .and_then(|v| v.get("taskId"))
             .and_then(|v| v.as_str())
     }
 
@@ -2945,8 +2946,8 @@ pub trait McpMetaEx {
     /// Retrieves the related task ID from the metadata, if it exists.
     ///
     /// This function looks for a key corresponding to the `RELATED_TASK_META_KEY` in the
-    /// `meta` field of the struct. If the key exists and contains a string value, it returns
-    /// it as an `Option<&str>`. If the key is missing or not a string, it returns `None`.
+    /// `meta` field of the struct. If the key exists and its value has a string `taskId`, it
+    /// returns it as an `Option<&str>`. If there is no such `taskId`, it returns `None`.
     ///
     /// # Returns
     /// - `Some(&str)` if a related task ID exists.
@@ -2994,7 +2995,9 @@ pub trait McpMetaEx {
 
 impl McpMetaEx for serde_json::Map<String, Value> {
     fn related_task_id(&self) -> Option<&str> {
-        self.get(RELATED_TASK_META_KEY).and_then(|v| v.as_str())
+        self.get(RELATED_TASK_META_KEY)
+            .and_then(|v| v.get("taskId"))
+            .and_then(|v| v.as_str())
     }
 
     fn set_related_task_id<T>(&mut self, task_id: T)
-- 
2.43.0


From 10836a624066e781084f0fe5c832b0216953f60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:00 +0000
Subject: [PATCH 05/16] fix: a client without the tasks capability cannot list
 or cancel tasks

can_handle_request accepted tasks/list and tasks/cancel when the client
declared no tasks capability at all.
---
 src/generated_schema/2025_11_25/schema_utils.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/generated_schema/2025_11_25/schema_utils.rs b/src/generated_schema/2025_11_25/schema_utils.rs
index bb6ad45..59583c5 100644
--- a/src/generated_schema/2025_11_25/schema_utils.rs
+++ b/src/generated_schema/2025_11_25/schema_utils.rs
@@ -2767,10 +2767,13 @@ impl ClientCapabilities {
                     return Err(create_error("roots capability", request_method));
                 }
             }
-            ServerJsonrpcRequest::GetTaskRequest(_) | ServerJsonrpcRequest::GetTaskPayloadRequest(_) => {
-                if self.tasks.is_none() {
-                    return Err(create_error("Task", request_method));
-                }
+            ServerJsonrpcRequest::GetTaskRequest(_)
+            | ServerJsonrpcRequest::GetTaskPayloadRequest(_)
+            | ServerJsonrpcRequest::CancelTaskRequest(_)
+            | ServerJsonrpcRequest::ListTasksRequest(_)
+                if self.tasks.is_none() =>
+            {
+                return Err(create_error("Task", request_method));
             }
             ServerJsonrpcRequest::CancelTaskRequest(_) => {
                 if let Some(tasks) = self.tasks.as_ref() {
-- 
2.43.0


From cc6d4bf28a277f4db9cce136df38b98b29301dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:01 +0000
Subject: [PATCH 06/16] fix: check sampling requests against the declared
 sampling capabilities

A request that offers tools without a tool choice passed although the client
declared no sampling.tools, and one with includeContext "none", which needs no
capability, was refused when the client declared no sampling.context.
---
 src/generated_schema/2025_11_25/schema_utils.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/generated_schema/2025_11_25/schema_utils.rs b/src/generated_schema/2025_11_25/schema_utils.rs
index 59583c5..2404f0a 100644
--- a/src/generated_schema/2025_11_25/schema_utils.rs
+++ b/src/generated_schema/2025_11_25/schema_utils.rs
@@ -2744,12 +2744,18 @@ impl ClientCapabilities {
                 match self.sampling.as_ref() {
                     Some(samplig_capabilities) => {
                         //  include_context requested but not supported
-                        if create_message_request.params.include_context.is_some() && samplig_capabilities.context.is_none()
+                        if matches!(
+                            create_message_request.params.include_context,
+                            Some(IncludeContext::ThisServer | IncludeContext::AllServers)
+                        ) && samplig_capabilities.context.is_none()
                         {
                             return Err(create_error("context inclusion", request_method));
                         }
 
-                        if create_message_request.params.tool_choice.is_some() && samplig_capabilities.tools.is_none() {
+                        if (create_message_request.params.tool_choice.is_some()
+                            || !create_message_request.params.tools.is_empty())
+                            && samplig_capabilities.tools.is_none()
+                        {
                             return Err(create_error("tool choice", request_method));
                         }
                     }
-- 
2.43.0


From 2d91807a8fd85bb3751e97041f50ce6c3cb2f1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:01 +0000
Subject: [PATCH 07/16] fix: url_elicit_required builds the documented error
 data

The data was the bare list of elicitations, which does not deserialize into
UrlElicitErrorData, nor the error into UrlElicitError, as documented.
---
 .../2025_11_25/schema_utils.rs                | 36 ++++++++++++-------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/src/generated_schema/2025_11_25/schema_utils.rs b/src/generated_schema/2025_11_25/schema_utils.rs
index 2404f0a..3e9bca8 100644
--- a/src/generated_schema/2025_11_25/schema_utils.rs
+++ b/src/generated_schema/2025_11_25/schema_utils.rs
@@ -3538,12 +3538,18 @@ impl SdkError {
     pub fn url_elicit_required(elicit_url_params: Vec<ElicitRequestUrlParams>) -> Self {
         Self {
             code: UrlElicitError::code_value(),
-            data: Some(serde_json::to_value(elicit_url_params).unwrap_or_else(|_| {
-                json!(
-                    { "elicitations" : [], "error" :
-                    "failed to UrlElicitError data" }
-                )
-            })),
+            data: Some(
+                serde_json::to_value(UrlElicitErrorData {
+                    elicitations: elicit_url_params,
+                    extra: None,
+                })
+                .unwrap_or_else(|_| {
+                    json!(
+                        { "elicitations" : [], "error" :
+                        "failed to UrlElicitError data" }
+                    )
+                }),
+            ),
             message: "URL required. Please provide a URL.".to_string(),
         }
     }
@@ -3639,12 +3645,18 @@ impl RpcError {
     pub fn url_elicit_required(elicit_url_params: Vec<ElicitRequestUrlParams>) -> Self {
         Self {
             code: UrlElicitError::code_value(),
-            data: Some(serde_json::to_value(elicit_url_params).unwrap_or_else(|_| {
-                json!(
-                    { "elicitations" : [], "error" :
-                    "failed to UrlElicitError data" }
-                )
-            })),
+            data: Some(
+                serde_json::to_value(UrlElicitErrorData {
+                    elicitations: elicit_url_params,
+                    extra: None,
+                })
+                .unwrap_or_else(|_| {
+                    json!(
+                        { "elicitations" : [], "error" :
+                        "failed to UrlElicitError data" }
+                    )
+                }),
+            ),
             message: "URL required. Please provide a URL.".to_string(),
         }
     }
-- 
2.43.0


From 75f76dcf46b4285f7d21c85c75237755ebad5f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:01 +0000
Subject: [PATCH 08/16] fix: converting an unsupported schema type is an error,
 not a panic

---
 src/generated_schema/2025_06_18/schema_utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/generated_schema/2025_06_18/schema_utils.rs b/src/generated_schema/2025_06_18/schema_utils.rs
index 954b234..5c082c2 100644
--- a/src/generated_schema/2025_06_18/schema_utils.rs
+++ b/src/generated_schema/2025_06_18/schema_utils.rs
@@ -1907,7 +1907,7 @@ impl TryFrom<&serde_json::Map<String, Value>> for PrimitiveSchemaDefinition {
                 PrimitiveSchemaDefinition::EnumSchema(EnumSchema::new(enum_values, enum_names, description, title))
             }
             other => {
-                panic!("'{other}' type is not currently supported");
+                return Err(RpcError::parse_error().with_message(format!("'{other}' type is not currently supported")));
             }
         };
 
-- 
2.43.0


From 2d2fdcd280191d6c168272c61c8f72ce16668e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:01 +0000
Subject: [PATCH 09/16] fix: keep the null ttl of a task

A task with unlimited retention has ttl null; the required member was read as
absent and lost when the task was serialized again.
---
 src/generated_schema/2025_11_25/mcp_schema.rs | 12 ++++++++++--
 src/generated_schema/2025_11_25/validators.rs |  8 ++++++++
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/generated_schema/2025_11_25/mcp_schema.rs b/src/generated_schema/2025_11_25/mcp_schema.rs
index 8ca8933..aff6d34 100644
--- a/src/generated_schema/2025_11_25/mcp_schema.rs
+++ b/src/generated_schema/2025_11_25/mcp_schema.rs
@@ -8867,7 +8867,11 @@ pub struct Task {
     #[serde(rename = "taskId")]
     pub task_id: ::std::string::String,
     ///Actual retention duration from creation in milliseconds, null for unlimited.
-    #[serde(default, skip_serializing_if = "::std::option::Option::is_none")]
+    #[serde(
+        default,
+        skip_serializing_if = "::std::option::Option::is_none",
+        deserialize_with = "validate::nullable_i64"
+    )]
     pub ttl: ::std::option::Option<::std::option::Option<i64>>,
 }
 ///See [General fields: _meta](https://modelcontextprotocol.io/specification/2025-11-25/basic/index#meta) for notes on _meta usage.
@@ -9106,7 +9110,11 @@ pub struct TaskStatusNotificationParams {
     #[serde(rename = "taskId")]
     pub task_id: ::std::string::String,
     ///Actual retention duration from creation in milliseconds, null for unlimited.
-    #[serde(default, skip_serializing_if = "::std::option::Option::is_none")]
+    #[serde(
+        default,
+        skip_serializing_if = "::std::option::Option::is_none",
+        deserialize_with = "validate::nullable_i64"
+    )]
     pub ttl: ::std::option::Option<::std::option::Option<i64>>,
 }
 ///Text provided to or from an LLM.
diff --git a/src/generated_schema/2025_11_25/validators.rs b/src/generated_schema/2025_11_25/validators.rs
index fd225aa..99e5fb9 100644
--- a/src/generated_schema/2025_11_25/validators.rs
+++ b/src/generated_schema/2025_11_25/validators.rs
@@ -79,6 +79,14 @@ where
     }
 }
 
+/// Deserializer for a nullable integer field that is present: `null` is kept as `Some(None)`.
+pub(crate) fn nullable_i64<'de, D>(deserializer: D) -> Result<Option<Option<i64>>, D::Error>
+where
+    D: serde::de::Deserializer<'de>,
+{
+    serde::Deserialize::deserialize(deserializer).map(Some)
+}
+
 macro_rules! validate {
     // === String validation (required) ===
     ($func_name:ident,  $struct:expr, $field:expr, $expected:expr $(,)?) => {
-- 
2.43.0


From c0e3e8f0eecd0fc6f9230f3757cb8d2a1d571e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:50 +0000
Subject: [PATCH 10/16] fix: keep enum, oneOf and enumNames of elicitation
 schemas

The untagged enums tried the less specific alternatives first, so an enum
schema was read as a plain string schema and a legacy titled enum as an
untitled one, and the members that tell them apart were lost.
---
 src/generated_schema/2025_06_18/mcp_schema.rs |  2 +-
 src/generated_schema/2025_11_25/mcp_schema.rs | 12 +++++++-----
 src/generated_schema/2025_11_25/validators.rs | 12 ++++++++++++
 src/generated_schema/2026_07_28/mcp_schema.rs | 12 +++++++-----
 src/generated_schema/2026_07_28/validators.rs | 12 ++++++++++++
 src/generated_schema/draft/mcp_schema.rs      | 12 +++++++-----
 src/generated_schema/draft/validators.rs      | 12 ++++++++++++
 7 files changed, 58 insertions(+), 16 deletions(-)

diff --git a/src/generated_schema/2025_06_18/mcp_schema.rs b/src/generated_schema/2025_06_18/mcp_schema.rs
index bf48dc6..4908e45 100644
--- a/src/generated_schema/2025_06_18/mcp_schema.rs
+++ b/src/generated_schema/2025_06_18/mcp_schema.rs
@@ -4271,10 +4271,10 @@ without nested objects or arrays.*/
 #[derive(::serde::Deserialize, ::serde::Serialize, Clone, Debug)]
 #[serde(untagged)]
 pub enum PrimitiveSchemaDefinition {
+    EnumSchema(EnumSchema),
     StringSchema(StringSchema),
     NumberSchema(NumberSchema),
     BooleanSchema(BooleanSchema),
-    EnumSchema(EnumSchema),
 }
 impl ::std::convert::From<StringSchema> for PrimitiveSchemaDefinition {
     fn from(value: StringSchema) -> Self {
diff --git a/src/generated_schema/2025_11_25/mcp_schema.rs b/src/generated_schema/2025_11_25/mcp_schema.rs
index aff6d34..4dd4556 100644
--- a/src/generated_schema/2025_11_25/mcp_schema.rs
+++ b/src/generated_schema/2025_11_25/mcp_schema.rs
@@ -3114,11 +3114,12 @@ pub struct EmptyResult(pub Result);
 #[derive(::serde::Deserialize, ::serde::Serialize, Clone, Debug)]
 #[serde(untagged)]
 pub enum EnumSchema {
+    #[serde(deserialize_with = "validate::legacy_titled_enum_schema")]
+    LegacyTitledEnumSchema(LegacyTitledEnumSchema),
     UntitledSingleSelectEnumSchema(UntitledSingleSelectEnumSchema),
     TitledSingleSelectEnumSchema(TitledSingleSelectEnumSchema),
     UntitledMultiSelectEnumSchema(UntitledMultiSelectEnumSchema),
     TitledMultiSelectEnumSchema(TitledMultiSelectEnumSchema),
-    LegacyTitledEnumSchema(LegacyTitledEnumSchema),
 }
 impl ::std::convert::From<UntitledSingleSelectEnumSchema> for EnumSchema {
     fn from(value: UntitledSingleSelectEnumSchema) -> Self {
@@ -5902,14 +5903,15 @@ without nested objects or arrays.*/
 #[derive(::serde::Deserialize, ::serde::Serialize, Clone, Debug)]
 #[serde(untagged)]
 pub enum PrimitiveSchemaDefinition {
-    StringSchema(StringSchema),
-    NumberSchema(NumberSchema),
-    BooleanSchema(BooleanSchema),
+    #[serde(deserialize_with = "validate::legacy_titled_enum_schema")]
+    LegacyTitledEnumSchema(LegacyTitledEnumSchema),
     UntitledSingleSelectEnumSchema(UntitledSingleSelectEnumSchema),
     TitledSingleSelectEnumSchema(TitledSingleSelectEnumSchema),
     UntitledMultiSelectEnumSchema(UntitledMultiSelectEnumSchema),
     TitledMultiSelectEnumSchema(TitledMultiSelectEnumSchema),
-    LegacyTitledEnumSchema(LegacyTitledEnumSchema),
+    StringSchema(StringSchema),
+    NumberSchema(NumberSchema),
+    BooleanSchema(BooleanSchema),
 }
 impl ::std::convert::From<StringSchema> for PrimitiveSchemaDefinition {
     fn from(value: StringSchema) -> Self {
diff --git a/src/generated_schema/2025_11_25/validators.rs b/src/generated_schema/2025_11_25/validators.rs
index 99e5fb9..af17e6d 100644
--- a/src/generated_schema/2025_11_25/validators.rs
+++ b/src/generated_schema/2025_11_25/validators.rs
@@ -87,6 +87,18 @@ where
     serde::Deserialize::deserialize(deserializer).map(Some)
 }
 
+/// Accepts a legacy enum schema only if it has the `enumNames` that tell it from an untitled one.
+pub(crate) fn legacy_titled_enum_schema<'de, D>(deserializer: D) -> Result<super::__int_2025_11_25::LegacyTitledEnumSchema, D::Error>
+where
+    D: serde::de::Deserializer<'de>,
+{
+    let schema: super::__int_2025_11_25::LegacyTitledEnumSchema = serde::Deserialize::deserialize(deserializer)?;
+    if schema.enum_names.is_empty() {
+        return Err(serde::de::Error::missing_field("enumNames"));
+    }
+    Ok(schema)
+}
+
 macro_rules! validate {
     // === String validation (required) ===
     ($func_name:ident,  $struct:expr, $field:expr, $expected:expr $(,)?) => {
diff --git a/src/generated_schema/2026_07_28/mcp_schema.rs b/src/generated_schema/2026_07_28/mcp_schema.rs
index b815298..ec59b09 100644
--- a/src/generated_schema/2026_07_28/mcp_schema.rs
+++ b/src/generated_schema/2026_07_28/mcp_schema.rs
@@ -2748,11 +2748,12 @@ pub struct EmptyResult(pub Result);
 #[derive(::serde::Deserialize, ::serde::Serialize, Clone, Debug)]
 #[serde(untagged)]
 pub enum EnumSchema {
+    #[serde(deserialize_with = "validate::legacy_titled_enum_schema")]
+    LegacyTitledEnumSchema(LegacyTitledEnumSchema),
     UntitledSingleSelectEnumSchema(UntitledSingleSelectEnumSchema),
     TitledSingleSelectEnumSchema(TitledSingleSelectEnumSchema),
     UntitledMultiSelectEnumSchema(UntitledMultiSelectEnumSchema),
     TitledMultiSelectEnumSchema(TitledMultiSelectEnumSchema),
-    LegacyTitledEnumSchema(LegacyTitledEnumSchema),
 }
 impl ::std::convert::From<UntitledSingleSelectEnumSchema> for EnumSchema {
     fn from(value: UntitledSingleSelectEnumSchema) -> Self {
@@ -6178,14 +6179,15 @@ without nested objects or arrays.*/
 #[derive(::serde::Deserialize, ::serde::Serialize, Clone, Debug)]
 #[serde(untagged)]
 pub enum PrimitiveSchemaDefinition {
-    StringSchema(StringSchema),
-    NumberSchema(NumberSchema),
-    BooleanSchema(BooleanSchema),
+    #[serde(deserialize_with = "validate::legacy_titled_enum_schema")]
+    LegacyTitledEnumSchema(LegacyTitledEnumSchema),
     UntitledSingleSelectEnumSchema(UntitledSingleSelectEnumSchema),
     TitledSingleSelectEnumSchema(TitledSingleSelectEnumSchema),
     UntitledMultiSelectEnumSchema(UntitledMultiSelectEnumSchema),
     TitledMultiSelectEnumSchema(TitledMultiSelectEnumSchema),
-    LegacyTitledEnumSchema(LegacyTitledEnumSchema),
+    StringSchema(StringSchema),
+    NumberSchema(NumberSchema),
+    BooleanSchema(BooleanSchema),
 }
 impl ::std::convert::From<StringSchema> for PrimitiveSchemaDefinition {
     fn from(value: StringSchema) -> Self {
diff --git a/src/generated_schema/2026_07_28/validators.rs b/src/generated_schema/2026_07_28/validators.rs
index 698c66f..cac7289 100644
--- a/src/generated_schema/2026_07_28/validators.rs
+++ b/src/generated_schema/2026_07_28/validators.rs
@@ -79,6 +79,18 @@ where
     }
 }
 
+/// Accepts a legacy enum schema only if it has the `enumNames` that tell it from an untitled one.
+pub(crate) fn legacy_titled_enum_schema<'de, D>(deserializer: D) -> Result<super::__int_2026_07_28::LegacyTitledEnumSchema, D::Error>
+where
+    D: serde::de::Deserializer<'de>,
+{
+    let schema: super::__int_2026_07_28::LegacyTitledEnumSchema = serde::Deserialize::deserialize(deserializer)?;
+    if schema.enum_names.is_empty() {
+        return Err(serde::de::Error::missing_field("enumNames"));
+    }
+    Ok(schema)
+}
+
 macro_rules! validate {
     // === String validation (required) ===
     ($func_name:ident,  $struct:expr, $field:expr, $expected:expr $(,)?) => {
diff --git a/src/generated_schema/draft/mcp_schema.rs b/src/generated_schema/draft/mcp_schema.rs
index 68b1583..f1d253c 100644
--- a/src/generated_schema/draft/mcp_schema.rs
+++ b/src/generated_schema/draft/mcp_schema.rs
@@ -2748,11 +2748,12 @@ pub struct EmptyResult(pub Result);
 #[derive(::serde::Deserialize, ::serde::Serialize, Clone, Debug)]
 #[serde(untagged)]
 pub enum EnumSchema {
+    #[serde(deserialize_with = "validate::legacy_titled_enum_schema")]
+    LegacyTitledEnumSchema(LegacyTitledEnumSchema),
     UntitledSingleSelectEnumSchema(UntitledSingleSelectEnumSchema),
     TitledSingleSelectEnumSchema(TitledSingleSelectEnumSchema),
     UntitledMultiSelectEnumSchema(UntitledMultiSelectEnumSchema),
     TitledMultiSelectEnumSchema(TitledMultiSelectEnumSchema),
-    LegacyTitledEnumSchema(LegacyTitledEnumSchema),
 }
 impl ::std::convert::From<UntitledSingleSelectEnumSchema> for EnumSchema {
     fn from(value: UntitledSingleSelectEnumSchema) -> Self {
@@ -6178,14 +6179,15 @@ without nested objects or arrays.*/
 #[derive(::serde::Deserialize, ::serde::Serialize, Clone, Debug)]
 #[serde(untagged)]
 pub enum PrimitiveSchemaDefinition {
-    StringSchema(StringSchema),
-    NumberSchema(NumberSchema),
-    BooleanSchema(BooleanSchema),
+    #[serde(deserialize_with = "validate::legacy_titled_enum_schema")]
+    LegacyTitledEnumSchema(LegacyTitledEnumSchema),
     UntitledSingleSelectEnumSchema(UntitledSingleSelectEnumSchema),
     TitledSingleSelectEnumSchema(TitledSingleSelectEnumSchema),
     UntitledMultiSelectEnumSchema(UntitledMultiSelectEnumSchema),
     TitledMultiSelectEnumSchema(TitledMultiSelectEnumSchema),
-    LegacyTitledEnumSchema(LegacyTitledEnumSchema),
+    StringSchema(StringSchema),
+    NumberSchema(NumberSchema),
+    BooleanSchema(BooleanSchema),
 }
 impl ::std::convert::From<StringSchema> for PrimitiveSchemaDefinition {
     fn from(value: StringSchema) -> Self {
diff --git a/src/generated_schema/draft/validators.rs b/src/generated_schema/draft/validators.rs
index 698c66f..e0f0830 100644
--- a/src/generated_schema/draft/validators.rs
+++ b/src/generated_schema/draft/validators.rs
@@ -79,6 +79,18 @@ where
     }
 }
 
+/// Accepts a legacy enum schema only if it has the `enumNames` that tell it from an untitled one.
+pub(crate) fn legacy_titled_enum_schema<'de, D>(deserializer: D) -> Result<super::__int_draft::LegacyTitledEnumSchema, D::Error>
+where
+    D: serde::de::Deserializer<'de>,
+{
+    let schema: super::__int_draft::LegacyTitledEnumSchema = serde::Deserialize::deserialize(deserializer)?;
+    if schema.enum_names.is_empty() {
+        return Err(serde::de::Error::missing_field("enumNames"));
+    }
+    Ok(schema)
+}
+
 macro_rules! validate {
     // === String validation (required) ===
     ($func_name:ident,  $struct:expr, $field:expr, $expected:expr $(,)?) => {
-- 
2.43.0


From 2621753de52c571f121aad70354f313aaff0941b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:08 +0000
Subject: [PATCH 11/16] fix: do not read complete results as input-required
 results

In the results of tools/call, prompts/get and resources/read responses the
input-required alternative came first and matched any object with a
resultType, so the content of complete results was lost.
---
 src/generated_schema/2026_07_28/mcp_schema.rs |  3 +++
 src/generated_schema/2026_07_28/validators.rs | 12 ++++++++++++
 src/generated_schema/draft/mcp_schema.rs      |  3 +++
 src/generated_schema/draft/validators.rs      | 12 ++++++++++++
 4 files changed, 30 insertions(+)

diff --git a/src/generated_schema/2026_07_28/mcp_schema.rs b/src/generated_schema/2026_07_28/mcp_schema.rs
index ec59b09..cbe9aa2 100644
--- a/src/generated_schema/2026_07_28/mcp_schema.rs
+++ b/src/generated_schema/2026_07_28/mcp_schema.rs
@@ -673,6 +673,7 @@ impl CallToolResultResponse {
 #[derive(::serde::Deserialize, ::serde::Serialize, Clone, Debug)]
 #[serde(untagged)]
 pub enum CallToolResultResponseResult {
+    #[serde(deserialize_with = "validate::input_required_result")]
     InputRequiredResult(InputRequiredResult),
     CallToolResult(CallToolResult),
 }
@@ -3022,6 +3023,7 @@ impl GetPromptResultResponse {
 #[derive(::serde::Deserialize, ::serde::Serialize, Clone, Debug)]
 #[serde(untagged)]
 pub enum GetPromptResultResponseResult {
+    #[serde(deserialize_with = "validate::input_required_result")]
     InputRequiredResult(InputRequiredResult),
     GetPromptResult(GetPromptResult),
 }
@@ -6980,6 +6982,7 @@ impl ReadResourceResultResponse {
 #[derive(::serde::Deserialize, ::serde::Serialize, Clone, Debug)]
 #[serde(untagged)]
 pub enum ReadResourceResultResponseResult {
+    #[serde(deserialize_with = "validate::input_required_result")]
     InputRequiredResult(InputRequiredResult),
     ReadResourceResult(ReadResourceResult),
 }
diff --git a/src/generated_schema/2026_07_28/validators.rs b/src/generated_schema/2026_07_28/validators.rs
index cac7289..697392a 100644
--- a/src/generated_schema/2026_07_28/validators.rs
+++ b/src/generated_schema/2026_07_28/validators.rs
@@ -91,6 +91,18 @@ where
     Ok(schema)
 }
 
+/// Accepts an input-required result only if its `resultType` says that it is one.
+pub(crate) fn input_required_result<'de, D>(deserializer: D) -> Result<super::__int_2026_07_28::InputRequiredResult, D::Error>
+where
+    D: serde::de::Deserializer<'de>,
+{
+    let result: super::__int_2026_07_28::InputRequiredResult = serde::Deserialize::deserialize(deserializer)?;
+    if result.result_type != "input_required" {
+        return Err(serde::de::Error::custom("resultType is not input_required"));
+    }
+    Ok(result)
+}
+
 macro_rules! validate {
     // === String validation (required) ===
     ($func_name:ident,  $struct:expr, $field:expr, $expected:expr $(,)?) => {
diff --git a/src/generated_schema/draft/mcp_schema.rs b/src/generated_schema/draft/mcp_schema.rs
index f1d253c..2196ffd 100644
--- a/src/generated_schema/draft/mcp_schema.rs
+++ b/src/generated_schema/draft/mcp_schema.rs
@@ -673,6 +673,7 @@ impl CallToolResultResponse {
 #[derive(::serde::Deserialize, ::serde::Serialize, Clone, Debug)]
 #[serde(untagged)]
 pub enum CallToolResultResponseResult {
+    #[serde(deserialize_with = "validate::input_required_result")]
     InputRequiredResult(InputRequiredResult),
     CallToolResult(CallToolResult),
 }
@@ -3022,6 +3023,7 @@ impl GetPromptResultResponse {
 #[derive(::serde::Deserialize, ::serde::Serialize, Clone, Debug)]
 #[serde(untagged)]
 pub enum GetPromptResultResponseResult {
+    #[serde(deserialize_with = "validate::input_required_result")]
     InputRequiredResult(InputRequiredResult),
     GetPromptResult(GetPromptResult),
 }
@@ -6980,6 +6982,7 @@ impl ReadResourceResultResponse {
 #[derive(::serde::Deserialize, ::serde::Serialize, Clone, Debug)]
 #[serde(untagged)]
 pub enum ReadResourceResultResponseResult {
+    #[serde(deserialize_with = "validate::input_required_result")]
     InputRequiredResult(InputRequiredResult),
     ReadResourceResult(ReadResourceResult),
 }
diff --git a/src/generated_schema/draft/validators.rs b/src/generated_schema/draft/validators.rs
index e0f0830..aca11bc 100644
--- a/src/generated_schema/draft/validators.rs
+++ b/src/generated_schema/draft/validators.rs
@@ -91,6 +91,18 @@ where
     Ok(schema)
 }
 
+/// Accepts an input-required result only if its `resultType` says that it is one.
+pub(crate) fn input_required_result<'de, D>(deserializer: D) -> Result<super::__int_draft::InputRequiredResult, D::Error>
+where
+    D: serde::de::Deserializer<'de>,
+{
+    let result: super::__int_draft::InputRequiredResult = serde::Deserialize::deserialize(deserializer)?;
+    if result.result_type != "input_required" {
+        return Err(serde::de::Error::custom("resultType is not input_required"));
+    }
+    Ok(result)
+}
+
 macro_rules! validate {
     // === String validation (required) ===
     ($func_name:ident,  $struct:expr, $field:expr, $expected:expr $(,)?) => {
-- 
2.43.0


From f5a1f62701c7df49e8324f8e370f3331baeaf0de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:08 +0000
Subject: [PATCH 12/16] fix: a resources/list request without params has no
 params member

---
 src/generated_schema/2024_11_05/schema_utils.rs | 6 +++++-
 src/generated_schema/2025_03_26/schema_utils.rs | 6 +++++-
 src/generated_schema/2025_06_18/schema_utils.rs | 6 +++++-
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/generated_schema/2024_11_05/schema_utils.rs b/src/generated_schema/2024_11_05/schema_utils.rs
index aaf587f..dc8bf35 100644
--- a/src/generated_schema/2024_11_05/schema_utils.rs
+++ b/src/generated_schema/2024_11_05/schema_utils.rs
@@ -1818,7 +1818,11 @@ impl ::serde::Serialize for ClientJsonrpcRequest {
                         state.serialize_field("params", params)?
                     }
                 }
-                ListResourcesRequest(msg) => state.serialize_field("params", &msg.params)?,
+                ListResourcesRequest(msg) => {
+                    if let Some(params) = &msg.params {
+                        state.serialize_field("params", params)?
+                    }
+                }
                 ListResourceTemplatesRequest(msg) => {
                     if let Some(params) = &msg.params {
                         state.serialize_field("params", params)?
diff --git a/src/generated_schema/2025_03_26/schema_utils.rs b/src/generated_schema/2025_03_26/schema_utils.rs
index cd778c8..002c6bb 100644
--- a/src/generated_schema/2025_03_26/schema_utils.rs
+++ b/src/generated_schema/2025_03_26/schema_utils.rs
@@ -1817,7 +1817,11 @@ impl ::serde::Serialize for ClientJsonrpcRequest {
                         state.serialize_field("params", params)?
                     }
                 }
-                ListResourcesRequest(msg) => state.serialize_field("params", &msg.params)?,
+                ListResourcesRequest(msg) => {
+                    if let Some(params) = &msg.params {
+                        state.serialize_field("params", params)?
+                    }
+                }
                 ListResourceTemplatesRequest(msg) => {
                     if let Some(params) = &msg.params {
                         state.serialize_field("params", params)?
diff --git a/src/generated_schema/2025_06_18/schema_utils.rs b/src/generated_schema/2025_06_18/schema_utils.rs
index 5c082c2..e33de47 100644
--- a/src/generated_schema/2025_06_18/schema_utils.rs
+++ b/src/generated_schema/2025_06_18/schema_utils.rs
@@ -1939,7 +1939,11 @@ impl ::serde::Serialize for ClientJsonrpcRequest {
                         state.serialize_field("params", params)?
                     }
                 }
-                ListResourcesRequest(msg) => state.serialize_field("params", &msg.params)?,
+                ListResourcesRequest(msg) => {
+                    if let Some(params) = &msg.params {
+                        state.serialize_field("params", params)?
+                    }
+                }
                 ListResourceTemplatesRequest(msg) => {
                     if let Some(params) = &msg.params {
                         state.serialize_field("params", params)?
-- 
2.43.0


From 57f38411638bbf32a44f3b66be564d76794f4ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:10 +0000
Subject: [PATCH 13/16] fix: the standard JSON-RPC error types accept only
 their own code

ParseError, InvalidRequestError, MethodNotFoundError, InvalidParamsError and
InternalError read any code, although the schema fixes it.
---
 src/generated_schema/2026_07_28/mcp_schema.rs | 5 +++++
 src/generated_schema/2026_07_28/validators.rs | 8 +++++---
 src/generated_schema/draft/mcp_schema.rs      | 5 +++++
 src/generated_schema/draft/validators.rs      | 8 +++++---
 4 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/generated_schema/2026_07_28/mcp_schema.rs b/src/generated_schema/2026_07_28/mcp_schema.rs
index cbe9aa2..d190229 100644
--- a/src/generated_schema/2026_07_28/mcp_schema.rs
+++ b/src/generated_schema/2026_07_28/mcp_schema.rs
@@ -3661,6 +3661,7 @@ pub struct InputResponses(pub std::collections::BTreeMap<::std::string::String,
 #[derive(::serde::Deserialize, ::serde::Serialize, Clone, Debug)]
 pub struct InternalError {
     ///The error type that occurred.
+    #[serde(deserialize_with = "validate::internal_error_code")]
     pub code: i64,
     ///Additional information about the error. The value of this member is defined by the sender (e.g. detailed error information, nested errors etc.).
     #[serde(default, skip_serializing_if = "::std::option::Option::is_none")]
@@ -3707,6 +3708,7 @@ In MCP, this error is returned in various contexts when request parameters fail
 #[derive(::serde::Deserialize, ::serde::Serialize, Clone, Debug)]
 pub struct InvalidParamsError {
     ///The error type that occurred.
+    #[serde(deserialize_with = "validate::invalid_params_error_code")]
     pub code: i64,
     ///Additional information about the error. The value of this member is defined by the sender (e.g. detailed error information, nested errors etc.).
     #[serde(default, skip_serializing_if = "::std::option::Option::is_none")]
@@ -3746,6 +3748,7 @@ pub struct InvalidParamsError {
 #[derive(::serde::Deserialize, ::serde::Serialize, Clone, Debug)]
 pub struct InvalidRequestError {
     ///The error type that occurred.
+    #[serde(deserialize_with = "validate::invalid_request_error_code")]
     pub code: i64,
     ///Additional information about the error. The value of this member is defined by the sender (e.g. detailed error information, nested errors etc.).
     #[serde(default, skip_serializing_if = "::std::option::Option::is_none")]
@@ -5523,6 +5526,7 @@ A request that requires a client capability the client did not declare is signal
 #[derive(::serde::Deserialize, ::serde::Serialize, Clone, Debug)]
 pub struct MethodNotFoundError {
     ///The error type that occurred.
+    #[serde(deserialize_with = "validate::method_not_found_error_code")]
     pub code: i64,
     ///Additional information about the error. The value of this member is defined by the sender (e.g. detailed error information, nested errors etc.).
     #[serde(default, skip_serializing_if = "::std::option::Option::is_none")]
@@ -6134,6 +6138,7 @@ pub struct PaginatedResult {
 #[derive(::serde::Deserialize, ::serde::Serialize, Clone, Debug)]
 pub struct ParseError {
     ///The error type that occurred.
+    #[serde(deserialize_with = "validate::parse_error_code")]
     pub code: i64,
     ///Additional information about the error. The value of this member is defined by the sender (e.g. detailed error information, nested errors etc.).
     #[serde(default, skip_serializing_if = "::std::option::Option::is_none")]
diff --git a/src/generated_schema/2026_07_28/validators.rs b/src/generated_schema/2026_07_28/validators.rs
index 697392a..8699a09 100644
--- a/src/generated_schema/2026_07_28/validators.rs
+++ b/src/generated_schema/2026_07_28/validators.rs
@@ -57,9 +57,6 @@ where
     }
 }
 
-// Used only by the `i64` arm of `validate!`; some schema versions (e.g. 2026-07-28) have no
-// integer const properties, so it would otherwise be flagged as dead code there.
-#[allow(dead_code)]
 fn i64_validator<'de, D>(
     struct_name: &'static str,
     field_name: &'static str,
@@ -412,3 +409,8 @@ validate!(
     "type_",
     "string"
 );
+validate!(internal_error_code, "InternalError", "code", -32603i64, i64);
+validate!(invalid_params_error_code, "InvalidParamsError", "code", -32602i64, i64);
+validate!(invalid_request_error_code, "InvalidRequestError", "code", -32600i64, i64);
+validate!(method_not_found_error_code, "MethodNotFoundError", "code", -32601i64, i64);
+validate!(parse_error_code, "ParseError", "code", -32700i64, i64);
diff --git a/src/generated_schema/draft/mcp_schema.rs b/src/generated_schema/draft/mcp_schema.rs
index 2196ffd..81f4853 100644
--- a/src/generated_schema/draft/mcp_schema.rs
+++ b/src/generated_schema/draft/mcp_schema.rs
@@ -3661,6 +3661,7 @@ pub struct InputResponses(pub std::collections::BTreeMap<::std::string::String,
 #[derive(::serde::Deserialize, ::serde::Serialize, Clone, Debug)]
 pub struct InternalError {
     ///The error type that occurred.
+    #[serde(deserialize_with = "validate::internal_error_code")]
     pub code: i64,
     ///Additional information about the error. The value of this member is defined by the sender (e.g. detailed error information, nested errors etc.).
     #[serde(default, skip_serializing_if = "::std::option::Option::is_none")]
@@ -3707,6 +3708,7 @@ In MCP, this error is returned in various contexts when request parameters fail
 #[derive(::serde::Deserialize, ::serde::Serialize, Clone, Debug)]
 pub struct InvalidParamsError {
     ///The error type that occurred.
+    #[serde(deserialize_with = "validate::invalid_params_error_code")]
     pub code: i64,
     ///Additional information about the error. The value of this member is defined by the sender (e.g. detailed error information, nested errors etc.).
     #[serde(default, skip_serializing_if = "::std::option::Option::is_none")]
@@ -3746,6 +3748,7 @@ pub struct InvalidParamsError {
 #[derive(::serde::Deserialize, ::serde::Serialize, Clone, Debug)]
 pub struct InvalidRequestError {
     ///The error type that occurred.
+    #[serde(deserialize_with = "validate::invalid_request_error_code")]
     pub code: i64,
     ///Additional information about the error. The value of this member is defined by the sender (e.g. detailed error information, nested errors etc.).
     #[serde(default, skip_serializing_if = "::std::option::Option::is_none")]
@@ -5523,6 +5526,7 @@ A request that requires a client capability the client did not declare is signal
 #[derive(::serde::Deserialize, ::serde::Serialize, Clone, Debug)]
 pub struct MethodNotFoundError {
     ///The error type that occurred.
+    #[serde(deserialize_with = "validate::method_not_found_error_code")]
     pub code: i64,
     ///Additional information about the error. The value of this member is defined by the sender (e.g. detailed error information, nested errors etc.).
     #[serde(default, skip_serializing_if = "::std::option::Option::is_none")]
@@ -6134,6 +6138,7 @@ pub struct PaginatedResult {
 #[derive(::serde::Deserialize, ::serde::Serialize, Clone, Debug)]
 pub struct ParseError {
     ///The error type that occurred.
+    #[serde(deserialize_with = "validate::parse_error_code")]
     pub code: i64,
     ///Additional information about the error. The value of this member is defined by the sender (e.g. detailed error information, nested errors etc.).
     #[serde(default, skip_serializing_if = "::std::option::Option::is_none")]
diff --git a/src/generated_schema/draft/validators.rs b/src/generated_schema/draft/validators.rs
index aca11bc..0cb29b6 100644
--- a/src/generated_schema/draft/validators.rs
+++ b/src/generated_schema/draft/validators.rs
@@ -57,9 +57,6 @@ where
     }
 }
 
-// Used only by the `i64` arm of `validate!`; some schema versions (e.g. 2026-07-28) have no
-// integer const properties, so it would otherwise be flagged as dead code there.
-#[allow(dead_code)]
 fn i64_validator<'de, D>(
     struct_name: &'static str,
     field_name: &'static str,
@@ -412,3 +409,8 @@ validate!(
     "type_",
     "string"
 );
+validate!(internal_error_code, "InternalError", "code", -32603i64, i64);
+validate!(invalid_params_error_code, "InvalidParamsError", "code", -32602i64, i64);
+validate!(invalid_request_error_code, "InvalidRequestError", "code", -32600i64, i64);
+validate!(method_not_found_error_code, "MethodNotFoundError", "code", -32601i64, i64);
+validate!(parse_error_code, "ParseError", "code", -32700i64, i64);
-- 
2.43.0


From 62cec9b32c1e13e775d1f495251a5d4e2fb98a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:07 +0000
Subject: [PATCH 14/16] fix: messages with another JSON-RPC version are refused
 in every protocol version

---
 .../2024_11_05/schema_utils.rs                | 18 +++++++++++++
 .../2025_03_26/schema_utils.rs                | 18 +++++++++++++
 .../2025_06_18/schema_utils.rs                | 18 +++++++++++++
 .../2025_11_25/schema_utils.rs                |  6 +++++
 .../2026_07_28/schema_utils.rs                | 26 ++++++++++++++++---
 src/generated_schema/draft/schema_utils.rs    | 26 ++++++++++++++++---
 6 files changed, 106 insertions(+), 6 deletions(-)

diff --git a/src/generated_schema/2024_11_05/schema_utils.rs b/src/generated_schema/2024_11_05/schema_utils.rs
index dc8bf35..c5cce95 100644
--- a/src/generated_schema/2024_11_05/schema_utils.rs
+++ b/src/generated_schema/2024_11_05/schema_utils.rs
@@ -1885,6 +1885,9 @@ impl<'de> ::serde::Deserialize<'de> for ClientJsonrpcRequest {
                 }
                 let id = id.ok_or_else(|| de::Error::missing_field("id"))?;
                 let jsonrpc = jsonrpc.ok_or_else(|| de::Error::missing_field("jsonrpc"))?;
+                if jsonrpc != JSONRPC_VERSION {
+                    return Err(de::Error::invalid_value(de::Unexpected::Str(&jsonrpc), &JSONRPC_VERSION));
+                }
                 let method = method.ok_or_else(|| de::Error::missing_field("method"))?;
                 let params = params.unwrap_or_default();
                 let req_object = json!({ "method" : method, "params" : params });
@@ -1967,6 +1970,9 @@ impl<'de> ::serde::Deserialize<'de> for ServerJsonrpcRequest {
                 }
                 let id = id.ok_or_else(|| de::Error::missing_field("id"))?;
                 let jsonrpc = jsonrpc.ok_or_else(|| de::Error::missing_field("jsonrpc"))?;
+                if jsonrpc != JSONRPC_VERSION {
+                    return Err(de::Error::invalid_value(de::Unexpected::Str(&jsonrpc), &JSONRPC_VERSION));
+                }
                 let method = method.ok_or_else(|| de::Error::missing_field("method"))?;
                 let params = params.unwrap_or_default();
                 let req_object = json!({ "method" : method, "params" : params });
@@ -2046,6 +2052,9 @@ impl<'de> ::serde::Deserialize<'de> for ClientJsonrpcNotification {
                     }
                 }
                 let jsonrpc = jsonrpc.ok_or_else(|| de::Error::missing_field("jsonrpc"))?;
+                if jsonrpc != JSONRPC_VERSION {
+                    return Err(de::Error::invalid_value(de::Unexpected::Str(&jsonrpc), &JSONRPC_VERSION));
+                }
                 let method = method.ok_or_else(|| de::Error::missing_field("method"))?;
                 let params = params.unwrap_or_default();
                 let req_object = json!({ "method" : method, "params" : params });
@@ -2132,6 +2141,9 @@ impl<'de> ::serde::Deserialize<'de> for ServerJsonrpcNotification {
                     }
                 }
                 let jsonrpc = jsonrpc.ok_or_else(|| de::Error::missing_field("jsonrpc"))?;
+                if jsonrpc != JSONRPC_VERSION {
+                    return Err(de::Error::invalid_value(de::Unexpected::Str(&jsonrpc), &JSONRPC_VERSION));
+                }
                 let method = method.ok_or_else(|| de::Error::missing_field("method"))?;
                 let params = params.unwrap_or_default();
                 let req_object = json!({ "method" : method, "params" : params });
@@ -2195,6 +2207,9 @@ impl<'de> ::serde::Deserialize<'de> for ServerJsonrpcResponse {
                 }
                 let id = id.ok_or_else(|| de::Error::missing_field("id"))?;
                 let jsonrpc = jsonrpc.ok_or_else(|| de::Error::missing_field("jsonrpc"))?;
+                if jsonrpc != JSONRPC_VERSION {
+                    return Err(de::Error::invalid_value(de::Unexpected::Str(&jsonrpc), &JSONRPC_VERSION));
+                }
                 let result = result.ok_or_else(|| de::Error::missing_field("result"))?;
                 let result = serde_json::from_value::<ResultFromServer>(result).map_err(de::Error::custom)?;
                 Ok(ServerJsonrpcResponse { id, jsonrpc, result })
@@ -2247,6 +2262,9 @@ impl<'de> ::serde::Deserialize<'de> for ClientJsonrpcResponse {
                 }
                 let id = id.ok_or_else(|| de::Error::missing_field("id"))?;
                 let jsonrpc = jsonrpc.ok_or_else(|| de::Error::missing_field("jsonrpc"))?;
+                if jsonrpc != JSONRPC_VERSION {
+                    return Err(de::Error::invalid_value(de::Unexpected::Str(&jsonrpc), &JSONRPC_VERSION));
+                }
                 let result = result.ok_or_else(|| de::Error::missing_field("result"))?;
                 let result = serde_json::from_value::<ResultFromClient>(result).map_err(de::Error::custom)?;
                 Ok(ClientJsonrpcResponse { id, jsonrpc, result })
diff --git a/src/generated_schema/2025_03_26/schema_utils.rs b/src/generated_schema/2025_03_26/schema_utils.rs
index 002c6bb..94107d4 100644
--- a/src/generated_schema/2025_03_26/schema_utils.rs
+++ b/src/generated_schema/2025_03_26/schema_utils.rs
@@ -1884,6 +1884,9 @@ impl<'de> ::serde::Deserialize<'de> for ClientJsonrpcRequest {
                 }
                 let id = id.ok_or_else(|| de::Error::missing_field("id"))?;
                 let jsonrpc = jsonrpc.ok_or_else(|| de::Error::missing_field("jsonrpc"))?;
+                if jsonrpc != JSONRPC_VERSION {
+                    return Err(de::Error::invalid_value(de::Unexpected::Str(&jsonrpc), &JSONRPC_VERSION));
+                }
                 let method = method.ok_or_else(|| de::Error::missing_field("method"))?;
                 let params = params.unwrap_or_default();
                 let req_object = json!({ "method" : method, "params" : params });
@@ -1966,6 +1969,9 @@ impl<'de> ::serde::Deserialize<'de> for ServerJsonrpcRequest {
                 }
                 let id = id.ok_or_else(|| de::Error::missing_field("id"))?;
                 let jsonrpc = jsonrpc.ok_or_else(|| de::Error::missing_field("jsonrpc"))?;
+                if jsonrpc != JSONRPC_VERSION {
+                    return Err(de::Error::invalid_value(de::Unexpected::Str(&jsonrpc), &JSONRPC_VERSION));
+                }
                 let method = method.ok_or_else(|| de::Error::missing_field("method"))?;
                 let params = params.unwrap_or_default();
                 let req_object = json!({ "method" : method, "params" : params });
@@ -2045,6 +2051,9 @@ impl<'de> ::serde::Deserialize<'de> for ClientJsonrpcNotification {
                     }
                 }
                 let jsonrpc = jsonrpc.ok_or_else(|| de::Error::missing_field("jsonrpc"))?;
+                if jsonrpc != JSONRPC_VERSION {
+                    return Err(de::Error::invalid_value(de::Unexpected::Str(&jsonrpc), &JSONRPC_VERSION));
+                }
                 let method = method.ok_or_else(|| de::Error::missing_field("method"))?;
                 let params = params.unwrap_or_default();
                 let req_object = json!({ "method" : method, "params" : params });
@@ -2131,6 +2140,9 @@ impl<'de> ::serde::Deserialize<'de> for ServerJsonrpcNotification {
                     }
                 }
                 let jsonrpc = jsonrpc.ok_or_else(|| de::Error::missing_field("jsonrpc"))?;
+                if jsonrpc != JSONRPC_VERSION {
+                    return Err(de::Error::invalid_value(de::Unexpected::Str(&jsonrpc), &JSONRPC_VERSION));
+                }
                 let method = method.ok_or_else(|| de::Error::missing_field("method"))?;
                 let params = params.unwrap_or_default();
                 let req_object = json!({ "method" : method, "params" : params });
@@ -2194,6 +2206,9 @@ impl<'de> ::serde::Deserialize<'de> for ServerJsonrpcResponse {
                 }
                 let id = id.ok_or_else(|| de::Error::missing_field("id"))?;
                 let jsonrpc = jsonrpc.ok_or_else(|| de::Error::missing_field("jsonrpc"))?;
+                if jsonrpc != JSONRPC_VERSION {
+                    return Err(de::Error::invalid_value(de::Unexpected::Str(&jsonrpc), &JSONRPC_VERSION));
+                }
                 let result = result.ok_or_else(|| de::Error::missing_field("result"))?;
                 let result = serde_json::from_value::<ResultFromServer>(result).map_err(de::Error::custom)?;
                 Ok(ServerJsonrpcResponse { id, jsonrpc, result })
@@ -2246,6 +2261,9 @@ impl<'de> ::serde::Deserialize<'de> for ClientJsonrpcResponse {
                 }
                 let id = id.ok_or_else(|| de::Error::missing_field("id"))?;
                 let jsonrpc = jsonrpc.ok_or_else(|| de::Error::missing_field("jsonrpc"))?;
+                if jsonrpc != JSONRPC_VERSION {
+                    return Err(de::Error::invalid_value(de::Unexpected::Str(&jsonrpc), &JSONRPC_VERSION));
+                }
                 let result = result.ok_or_else(|| de::Error::missing_field("result"))?;
                 let result = serde_json::from_value::<ResultFromClient>(result).map_err(de::Error::custom)?;
                 Ok(ClientJsonrpcResponse { id, jsonrpc, result })
diff --git a/src/generated_schema/2025_06_18/schema_utils.rs b/src/generated_schema/2025_06_18/schema_utils.rs
index e33de47..d0ccdeb 100644
--- a/src/generated_schema/2025_06_18/schema_utils.rs
+++ b/src/generated_schema/2025_06_18/schema_utils.rs
@@ -2006,6 +2006,9 @@ impl<'de> ::serde::Deserialize<'de> for ClientJsonrpcRequest {
                 }
                 let id = id.ok_or_else(|| de::Error::missing_field("id"))?;
                 let jsonrpc = jsonrpc.ok_or_else(|| de::Error::missing_field("jsonrpc"))?;
+                if jsonrpc != JSONRPC_VERSION {
+                    return Err(de::Error::invalid_value(de::Unexpected::Str(&jsonrpc), &JSONRPC_VERSION));
+                }
                 let method = method.ok_or_else(|| de::Error::missing_field("method"))?;
                 let params = params.unwrap_or_default();
                 let req_object = json!({ "method" : method, "params" : params });
@@ -2089,6 +2092,9 @@ impl<'de> ::serde::Deserialize<'de> for ServerJsonrpcRequest {
                 }
                 let id = id.ok_or_else(|| de::Error::missing_field("id"))?;
                 let jsonrpc = jsonrpc.ok_or_else(|| de::Error::missing_field("jsonrpc"))?;
+                if jsonrpc != JSONRPC_VERSION {
+                    return Err(de::Error::invalid_value(de::Unexpected::Str(&jsonrpc), &JSONRPC_VERSION));
+                }
                 let method = method.ok_or_else(|| de::Error::missing_field("method"))?;
                 let params = params.unwrap_or_default();
                 let req_object = json!({ "method" : method, "params" : params });
@@ -2168,6 +2174,9 @@ impl<'de> ::serde::Deserialize<'de> for ClientJsonrpcNotification {
                     }
                 }
                 let jsonrpc = jsonrpc.ok_or_else(|| de::Error::missing_field("jsonrpc"))?;
+                if jsonrpc != JSONRPC_VERSION {
+                    return Err(de::Error::invalid_value(de::Unexpected::Str(&jsonrpc), &JSONRPC_VERSION));
+                }
                 let method = method.ok_or_else(|| de::Error::missing_field("method"))?;
                 let params = params.unwrap_or_default();
                 let req_object = json!({ "method" : method, "params" : params });
@@ -2254,6 +2263,9 @@ impl<'de> ::serde::Deserialize<'de> for ServerJsonrpcNotification {
                     }
                 }
                 let jsonrpc = jsonrpc.ok_or_else(|| de::Error::missing_field("jsonrpc"))?;
+                if jsonrpc != JSONRPC_VERSION {
+                    return Err(de::Error::invalid_value(de::Unexpected::Str(&jsonrpc), &JSONRPC_VERSION));
+                }
                 let method = method.ok_or_else(|| de::Error::missing_field("method"))?;
                 let params = params.unwrap_or_default();
                 let req_object = json!({ "method" : method, "params" : params });
@@ -2317,6 +2329,9 @@ impl<'de> ::serde::Deserialize<'de> for ServerJsonrpcResponse {
                 }
                 let id = id.ok_or_else(|| de::Error::missing_field("id"))?;
                 let jsonrpc = jsonrpc.ok_or_else(|| de::Error::missing_field("jsonrpc"))?;
+                if jsonrpc != JSONRPC_VERSION {
+                    return Err(de::Error::invalid_value(de::Unexpected::Str(&jsonrpc), &JSONRPC_VERSION));
+                }
                 let result = result.ok_or_else(|| de::Error::missing_field("result"))?;
                 let result = serde_json::from_value::<ResultFromServer>(result).map_err(de::Error::custom)?;
                 Ok(ServerJsonrpcResponse { id, jsonrpc, result })
@@ -2369,6 +2384,9 @@ impl<'de> ::serde::Deserialize<'de> for ClientJsonrpcResponse {
                 }
                 let id = id.ok_or_else(|| de::Error::missing_field("id"))?;
                 let jsonrpc = jsonrpc.ok_or_else(|| de::Error::missing_field("jsonrpc"))?;
+                if jsonrpc != JSONRPC_VERSION {
+                    return Err(de::Error::invalid_value(de::Unexpected::Str(&jsonrpc), &JSONRPC_VERSION));
+                }
                 let result = result.ok_or_else(|| de::Error::missing_field("result"))?;
                 let result = serde_json::from_value::<ResultFromClient>(result).map_err(de::Error::custom)?;
                 Ok(ClientJsonrpcResponse { id, jsonrpc, result })
diff --git a/src/generated_schema/2025_11_25/schema_utils.rs b/src/generated_schema/2025_11_25/schema_utils.rs
index 3e9bca8..d48fb55 100644
--- a/src/generated_schema/2025_11_25/schema_utils.rs
+++ b/src/generated_schema/2025_11_25/schema_utils.rs
@@ -3124,6 +3124,9 @@ impl<'de> ::serde::Deserialize<'de> for ServerJsonrpcResponse {
                 }
                 let id = id.ok_or_else(|| de::Error::missing_field("id"))?;
                 let jsonrpc = jsonrpc.ok_or_else(|| de::Error::missing_field("jsonrpc"))?;
+                if jsonrpc != JSONRPC_VERSION {
+                    return Err(de::Error::invalid_value(de::Unexpected::Str(&jsonrpc), &JSONRPC_VERSION));
+                }
                 let result = result.ok_or_else(|| de::Error::missing_field("result"))?;
                 let result = serde_json::from_value::<ResultFromServer>(result).map_err(de::Error::custom)?;
                 Ok(ServerJsonrpcResponse { id, jsonrpc, result })
@@ -3176,6 +3179,9 @@ impl<'de> ::serde::Deserialize<'de> for ClientJsonrpcResponse {
                 }
                 let id = id.ok_or_else(|| de::Error::missing_field("id"))?;
                 let jsonrpc = jsonrpc.ok_or_else(|| de::Error::missing_field("jsonrpc"))?;
+                if jsonrpc != JSONRPC_VERSION {
+                    return Err(de::Error::invalid_value(de::Unexpected::Str(&jsonrpc), &JSONRPC_VERSION));
+                }
                 let result = result.ok_or_else(|| de::Error::missing_field("result"))?;
                 let result = serde_json::from_value::<ResultFromClient>(result).map_err(de::Error::custom)?;
                 Ok(ClientJsonrpcResponse { id, jsonrpc, result })
diff --git a/src/generated_schema/2026_07_28/schema_utils.rs b/src/generated_schema/2026_07_28/schema_utils.rs
index e92a483..07259ae 100644
--- a/src/generated_schema/2026_07_28/schema_utils.rs
+++ b/src/generated_schema/2026_07_28/schema_utils.rs
@@ -10,6 +10,20 @@ fn default_jsonrpc() -> String {
     "2.0".to_string()
 }
 
+fn supported_jsonrpc<'de, D>(deserializer: D) -> result::Result<String, D::Error>
+where
+    D: serde::Deserializer<'de>,
+{
+    let jsonrpc = <String as serde::Deserialize>::deserialize(deserializer)?;
+    if jsonrpc != JSONRPC_VERSION {
+        return Err(serde::de::Error::invalid_value(
+            serde::de::Unexpected::Str(&jsonrpc),
+            &JSONRPC_VERSION,
+        ));
+    }
+    Ok(jsonrpc)
+}
+
 #[derive(Debug, PartialEq)]
 pub enum MessageTypes {
     Request,
@@ -1050,21 +1064,21 @@ impl Display for ServerMessage {
 pub enum ServerJsonrpcRequest {
     CreateMessageRequest {
         id: RequestId,
-        #[serde(default = "default_jsonrpc")]
+        #[serde(default = "default_jsonrpc", deserialize_with = "supported_jsonrpc")]
         jsonrpc: String,
         #[serde(flatten)]
         request: CreateMessageRequest,
     },
     ListRootsRequest {
         id: RequestId,
-        #[serde(default = "default_jsonrpc")]
+        #[serde(default = "default_jsonrpc", deserialize_with = "supported_jsonrpc")]
         jsonrpc: String,
         #[serde(flatten)]
         request: ListRootsRequest,
     },
     ElicitRequest {
         id: RequestId,
-        #[serde(default = "default_jsonrpc")]
+        #[serde(default = "default_jsonrpc", deserialize_with = "supported_jsonrpc")]
         jsonrpc: String,
         #[serde(flatten)]
         request: ElicitRequest,
@@ -3469,6 +3483,9 @@ impl<'de> ::serde::Deserialize<'de> for ClientJsonrpcResponse {
                 }
                 let id = id.ok_or_else(|| de::Error::missing_field("id"))?;
                 let jsonrpc = jsonrpc.ok_or_else(|| de::Error::missing_field("jsonrpc"))?;
+                if jsonrpc != JSONRPC_VERSION {
+                    return Err(de::Error::invalid_value(de::Unexpected::Str(&jsonrpc), &JSONRPC_VERSION));
+                }
                 let result = result.ok_or_else(|| de::Error::missing_field("result"))?;
                 let result = serde_json::from_value::<ResultFromClient>(result).map_err(de::Error::custom)?;
                 Ok(ClientJsonrpcResponse { id, jsonrpc, result })
@@ -3521,6 +3538,9 @@ impl<'de> ::serde::Deserialize<'de> for ServerJsonrpcResponse {
                 }
                 let id = id.ok_or_else(|| de::Error::missing_field("id"))?;
                 let jsonrpc = jsonrpc.ok_or_else(|| de::Error::missing_field("jsonrpc"))?;
+                if jsonrpc != JSONRPC_VERSION {
+                    return Err(de::Error::invalid_value(de::Unexpected::Str(&jsonrpc), &JSONRPC_VERSION));
+                }
                 let result = result.ok_or_else(|| de::Error::missing_field("result"))?;
                 let result = serde_json::from_value::<ServerResult>(result).map_err(de::Error::custom)?;
                 Ok(ServerJsonrpcResponse { id, jsonrpc, result })
diff --git a/src/generated_schema/draft/schema_utils.rs b/src/generated_schema/draft/schema_utils.rs
index e92a483..07259ae 100644
--- a/src/generated_schema/draft/schema_utils.rs
+++ b/src/generated_schema/draft/schema_utils.rs
@@ -10,6 +10,20 @@ fn default_jsonrpc() -> String {
     "2.0".to_string()
 }
 
+fn supported_jsonrpc<'de, D>(deserializer: D) -> result::Result<String, D::Error>
+where
+    D: serde::Deserializer<'de>,
+{
+    let jsonrpc = <String as serde::Deserialize>::deserialize(deserializer)?;
+    if jsonrpc != JSONRPC_VERSION {
+        return Err(serde::de::Error::invalid_value(
+            serde::de::Unexpected::Str(&jsonrpc),
+            &JSONRPC_VERSION,
+        ));
+    }
+    Ok(jsonrpc)
+}
+
 #[derive(Debug, PartialEq)]
 pub enum MessageTypes {
     Request,
@@ -1050,21 +1064,21 @@ impl Display for ServerMessage {
 pub enum ServerJsonrpcRequest {
     CreateMessageRequest {
         id: RequestId,
-        #[serde(default = "default_jsonrpc")]
+        #[serde(default = "default_jsonrpc", deserialize_with = "supported_jsonrpc")]
         jsonrpc: String,
         #[serde(flatten)]
         request: CreateMessageRequest,
     },
     ListRootsRequest {
         id: RequestId,
-        #[serde(default = "default_jsonrpc")]
+        #[serde(default = "default_jsonrpc", deserialize_with = "supported_jsonrpc")]
         jsonrpc: String,
         #[serde(flatten)]
         request: ListRootsRequest,
     },
     ElicitRequest {
         id: RequestId,
-        #[serde(default = "default_jsonrpc")]
+        #[serde(default = "default_jsonrpc", deserialize_with = "supported_jsonrpc")]
         jsonrpc: String,
         #[serde(flatten)]
         request: ElicitRequest,
@@ -3469,6 +3483,9 @@ impl<'de> ::serde::Deserialize<'de> for ClientJsonrpcResponse {
                 }
                 let id = id.ok_or_else(|| de::Error::missing_field("id"))?;
                 let jsonrpc = jsonrpc.ok_or_else(|| de::Error::missing_field("jsonrpc"))?;
+                if jsonrpc != JSONRPC_VERSION {
+                    return Err(de::Error::invalid_value(de::Unexpected::Str(&jsonrpc), &JSONRPC_VERSION));
+                }
                 let result = result.ok_or_else(|| de::Error::missing_field("result"))?;
                 let result = serde_json::from_value::<ResultFromClient>(result).map_err(de::Error::custom)?;
                 Ok(ClientJsonrpcResponse { id, jsonrpc, result })
@@ -3521,6 +3538,9 @@ impl<'de> ::serde::Deserialize<'de> for ServerJsonrpcResponse {
                 }
                 let id = id.ok_or_else(|| de::Error::missing_field("id"))?;
                 let jsonrpc = jsonrpc.ok_or_else(|| de::Error::missing_field("jsonrpc"))?;
+                if jsonrpc != JSONRPC_VERSION {
+                    return Err(de::Error::invalid_value(de::Unexpected::Str(&jsonrpc), &JSONRPC_VERSION));
+                }
                 let result = result.ok_or_else(|| de::Error::missing_field("result"))?;
                 let result = serde_json::from_value::<ServerResult>(result).map_err(de::Error::custom)?;
                 Ok(ServerJsonrpcResponse { id, jsonrpc, result })
-- 
2.43.0


From b59429ac6ef19275b5bfafbf2f6f3f4e0ea56f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:19 +0000
Subject: [PATCH 15/16] fix: SdkError::request_timeout does not panic on a
 timeout beyond u64

---
 src/generated_schema/2024_11_05/schema_utils.rs | 2 +-
 src/generated_schema/2025_03_26/schema_utils.rs | 2 +-
 src/generated_schema/2025_06_18/schema_utils.rs | 2 +-
 src/generated_schema/2025_11_25/schema_utils.rs | 2 +-
 src/generated_schema/2026_07_28/schema_utils.rs | 2 +-
 src/generated_schema/draft/schema_utils.rs      | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/generated_schema/2024_11_05/schema_utils.rs b/src/generated_schema/2024_11_05/schema_utils.rs
index c5cce95..ce5cd7a 100644
--- a/src/generated_schema/2024_11_05/schema_utils.rs
+++ b/src/generated_schema/2024_11_05/schema_utils.rs
@@ -2570,7 +2570,7 @@ impl SdkError {
     pub fn request_timeout(timeout: u128) -> Self {
         Self {
             code: SdkErrorCodes::REQUEST_TIMEOUT.into(),
-            data: Some(json!({ "timeout" : timeout })),
+            data: Some(json!({ "timeout" : u64::try_from(timeout).unwrap_or(u64::MAX) })),
             message: SdkErrorCodes::REQUEST_TIMEOUT.to_string(),
         }
     }
diff --git a/src/generated_schema/2025_03_26/schema_utils.rs b/src/generated_schema/2025_03_26/schema_utils.rs
index 94107d4..16a106f 100644
--- a/src/generated_schema/2025_03_26/schema_utils.rs
+++ b/src/generated_schema/2025_03_26/schema_utils.rs
@@ -2569,7 +2569,7 @@ impl SdkError {
     pub fn request_timeout(timeout: u128) -> Self {
         Self {
             code: SdkErrorCodes::REQUEST_TIMEOUT.into(),
-            data: Some(json!({ "timeout" : timeout })),
+            data: Some(json!({ "timeout" : u64::try_from(timeout).unwrap_or(u64::MAX) })),
             message: SdkErrorCodes::REQUEST_TIMEOUT.to_string(),
         }
     }
diff --git a/src/generated_schema/2025_06_18/schema_utils.rs b/src/generated_schema/2025_06_18/schema_utils.rs
index d0ccdeb..028c693 100644
--- a/src/generated_schema/2025_06_18/schema_utils.rs
+++ b/src/generated_schema/2025_06_18/schema_utils.rs
@@ -2702,7 +2702,7 @@ impl SdkError {
     pub fn request_timeout(timeout: u128) -> Self {
         Self {
             code: SdkErrorCodes::REQUEST_TIMEOUT.into(),
-            data: Some(json!({ "timeout" : timeout })),
+            data: Some(json!({ "timeout" : u64::try_from(timeout).unwrap_or(u64::MAX) })),
             message: SdkErrorCodes::REQUEST_TIMEOUT.to_string(),
         }
     }
diff --git a/src/generated_schema/2025_11_25/schema_utils.rs b/src/generated_schema/2025_11_25/schema_utils.rs
index d48fb55..dfd2d81 100644
--- a/src/generated_schema/2025_11_25/schema_utils.rs
+++ b/src/generated_schema/2025_11_25/schema_utils.rs
@@ -3489,7 +3489,7 @@ impl SdkError {
     pub fn request_timeout(timeout: u128) -> Self {
         Self {
             code: SdkErrorCodes::REQUEST_TIMEOUT.into(),
-            data: Some(json!({ "timeout" : timeout })),
+            data: Some(json!({ "timeout" : u64::try_from(timeout).unwrap_or(u64::MAX) })),
             message: SdkErrorCodes::REQUEST_TIMEOUT.to_string(),
         }
     }
diff --git a/src/generated_schema/2026_07_28/schema_utils.rs b/src/generated_schema/2026_07_28/schema_utils.rs
index 07259ae..906c3f5 100644
--- a/src/generated_schema/2026_07_28/schema_utils.rs
+++ b/src/generated_schema/2026_07_28/schema_utils.rs
@@ -2869,7 +2869,7 @@ impl SdkError {
     pub fn request_timeout(timeout: u128) -> Self {
         Self {
             code: SdkErrorCodes::REQUEST_TIMEOUT.into(),
-            data: Some(json!({ "timeout" : timeout })),
+            data: Some(json!({ "timeout" : u64::try_from(timeout).unwrap_or(u64::MAX) })),
             message: SdkErrorCodes::REQUEST_TIMEOUT.to_string(),
         }
     }
diff --git a/src/generated_schema/draft/schema_utils.rs b/src/generated_schema/draft/schema_utils.rs
index 07259ae..906c3f5 100644
--- a/src/generated_schema/draft/schema_utils.rs
+++ b/src/generated_schema/draft/schema_utils.rs
@@ -2869,7 +2869,7 @@ impl SdkError {
     pub fn request_timeout(timeout: u128) -> Self {
         Self {
             code: SdkErrorCodes::REQUEST_TIMEOUT.into(),
-            data: Some(json!({ "timeout" : timeout })),
+            data: Some(json!({ "timeout" : u64::try_from(timeout).unwrap_or(u64::MAX) })),
             message: SdkErrorCodes::REQUEST_TIMEOUT.to_string(),
         }
     }
-- 
2.43.0


From 8342148f796c6e7e0738f672f22c16881bf99e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:58 +0000
Subject: [PATCH 16/16] fix: an enum field schema is not converted to a plain
 string schema (2025-06-18)

---
 src/generated_schema/2025_06_18/schema_utils.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/generated_schema/2025_06_18/schema_utils.rs b/src/generated_schema/2025_06_18/schema_utils.rs
index 028c693..f08a944 100644
--- a/src/generated_schema/2025_06_18/schema_utils.rs
+++ b/src/generated_schema/2025_06_18/schema_utils.rs
@@ -1844,6 +1844,11 @@ impl TryFrom<&serde_json::Map<String, Value>> for PrimitiveSchemaDefinition {
         let title = value.get("title").and_then(|v| v.as_str().map(|s| s.to_string()));
 
         let schema_definition: PrimitiveSchemaDefinition = match input_type {
+            "string" if value.contains_key("enum") => {
+                let schema: EnumSchema = serde_json::from_value(Value::Object(value.clone()))
+                    .map_err(|e| RpcError::parse_error().with_message(format!("Failed to parse EnumSchema: {e}")))?;
+                PrimitiveSchemaDefinition::EnumSchema(schema)
+            }
             "string" => {
                 let max_length = value.get("maxLength").and_then(|v| v.as_number().and_then(|n| n.as_i64()));
                 let min_length = value.get("minLength").and_then(|v| v.as_number().and_then(|n| n.as_i64()));
-- 
2.43.0

