From 220378923191ac6f2c333983aa2f899de7d0ceaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:47:13 +0000
Subject: [PATCH 01/31] fix: Check the number of key shares in an
 UnmaskingResponse

The server indexed the key shares of a client's unmasking response up to
the number of neighbours without checking how many the client had sent.
A short response read past the end of the list. It is now rejected with
an invalid-argument error, which aborts that client only.
---
 fcp/secagg/server/secagg_server_protocol_impl.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/fcp/secagg/server/secagg_server_protocol_impl.cc b/fcp/secagg/server/secagg_server_protocol_impl.cc
index cceb251..740f47c 100644
--- a/fcp/secagg/server/secagg_server_protocol_impl.cc
+++ b/fcp/secagg/server/secagg_server_protocol_impl.cc
@@ -258,6 +258,13 @@ Status SecAggServerProtocolImpl::HandleUnmaskingResponse(
             self_shamir_share_table_ != nullptr)
       << "Shamir Shares Tables haven't been initialized";
 
+  if (unmasking_response.noise_or_prf_key_shares_size() !=
+      number_of_neighbors()) {
+    return ::absl::InvalidArgumentError(
+        "The UnmaskingResponse does not contain the expected number of key "
+        "shares.");
+  }
+
   // Verify the client sent all the right types of shares.
   for (uint32_t i = 0; i < number_of_neighbors(); ++i) {
     int ith_neighbor = GetNeighbor(client_id, i);
-- 
2.43.0


From 514c3a8e506ecd105390ab599fb5bf206415eb55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:51:10 +0000
Subject: [PATCH 02/31] fix: Report file write errors found at close and failed
 file reads

---
 fcp/base/platform.cc | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/fcp/base/platform.cc b/fcp/base/platform.cc
index 0f43c72..cf18adf 100644
--- a/fcp/base/platform.cc
+++ b/fcp/base/platform.cc
@@ -67,8 +67,11 @@ absl::StatusOr<T> ReadFile(absl::string_view file_name) {
         absl::StrCat("cannot read file ", file_name_str));
   }
   std::ostringstream buffer;
-  buffer << is.rdbuf();
-  if (!is) {
+  // Inserting an empty stream buffer would set the failbit.
+  if (is.peek() != std::ifstream::traits_type::eof()) {
+    buffer << is.rdbuf();
+  }
+  if (!is || !buffer) {
     return absl::InternalError(
         absl::StrCat("error reading file ", file_name_str));
   }
@@ -94,6 +97,7 @@ absl::Status WriteStringToFile(absl::string_view file_name,
         absl::StrCat("cannot create file ", file_name_str));
   }
   os << content;
+  os.close();
   if (!os) {
     return absl::InternalError(
         absl::StrCat("error writing to file ", file_name_str));
@@ -116,6 +120,11 @@ absl::Status WriteCordToFile(absl::string_view file_name,
           absl::StrCat("error writing to file ", file_name_str));
     }
   }
+  os.close();
+  if (!os) {
+    return absl::InternalError(
+        absl::StrCat("error writing to file ", file_name_str));
+  }
   return absl::OkStatus();
 }
 
-- 
2.43.0


From 6ed8d0673bcf64c2be440133cfa2b65b7743000e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:00:39 +0000
Subject: [PATCH 03/31] fix: Resolve the overwritten promise's future on move
 assignment

Assigning over a promise whose value was never provided dropped its shared
state without resolving it, so the paired future waited for ever.
---
 fcp/base/future.h | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/fcp/base/future.h b/fcp/base/future.h
index f464f49..d6e3723 100644
--- a/fcp/base/future.h
+++ b/fcp/base/future.h
@@ -167,15 +167,16 @@ template <typename T>
 class Promise {
  public:
   Promise(Promise&&) = default;
-  Promise& operator=(Promise&&) = default;
-
-  ~Promise() {
-    if (state_.has_value()) {
-      // Abandoned
-      (*state_)->Set(std::nullopt);
+  Promise& operator=(Promise&& other) {
+    if (this != &other) {
+      Abandon();
+      state_ = std::move(other.state_);
     }
+    return *this;
   }
 
+  ~Promise() { Abandon(); }
+
   /**
    * Provides a value to the paired Future. Setting a promise *consumes* it,
    * and so requires an rvalue. To set a Promise<T> p:
@@ -193,6 +194,12 @@ class Promise {
   explicit Promise(future_internal::FutureStateRef<T> state)
       : state_(std::move(state)) {}
 
+  void Abandon() {
+    if (state_.has_value()) {
+      (*state_)->Set(std::nullopt);
+    }
+  }
+
   future_internal::FutureStateRef<T> state_;
 };
 
-- 
2.43.0


From 5f22b71a1cae2b900b73964db975569f2da1a589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:16:00 +0000
Subject: [PATCH 04/31] fix: Check the COSE_Signature element types before
 reading them

A CWT whose first COSE_Signature is not an array, or whose signature is not
a byte string, was dereferenced as a null pointer. Such a CWT is now
rejected as invalid.
---
 fcp/confidentialcompute/cose.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fcp/confidentialcompute/cose.cc b/fcp/confidentialcompute/cose.cc
index 7032674..5146088 100644
--- a/fcp/confidentialcompute/cose.cc
+++ b/fcp/confidentialcompute/cose.cc
@@ -469,8 +469,9 @@ absl::StatusOr<OkpCwt> OkpCwt::Decode(absl::string_view encoded) {
       // which is a (protected header, unprotected header, signature) tuple.
       if (cppbor::Array* sigs = component->asArray(); sigs->size() > 0) {
         if (cppbor::Array* sig = sigs->get(0)->asArray();
-            sig->size() == 3 && sig->get(0)->type() == cppbor::BSTR &&
-            sig->get(0)->type() == cppbor::BSTR) {
+            sig != nullptr && sig->size() == 3 &&
+            sig->get(0)->type() == cppbor::BSTR &&
+            sig->get(2)->type() == cppbor::BSTR) {
           parsed_signature_and_protected_header = true;
           FCP_RETURN_IF_ERROR(
               ParseCwtProtectedHeader(sig->get(0)->asBstr()->value(), cwt));
-- 
2.43.0


From d2a816f8048999bc7bc1611e8eb85d3367988f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:16:00 +0000
Subject: [PATCH 05/31] fix: Reject client payloads whose header length exceeds
 the data

A header length larger than the remaining data, or too large for the parser's
limit, was ignored and the ciphertext was parsed as part of the header.
---
 fcp/confidentialcompute/client_payload.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fcp/confidentialcompute/client_payload.cc b/fcp/confidentialcompute/client_payload.cc
index 04fbfbc..c6ac876 100644
--- a/fcp/confidentialcompute/client_payload.cc
+++ b/fcp/confidentialcompute/client_payload.cc
@@ -87,6 +87,11 @@ absl::StatusOr<ClientPayloadHeader> DecodeAndConsumeClientPayloadHeader(
     return absl::InvalidArgumentError("Could not read 'size' varint64");
   }
 
+  if (serialized_payload_size >
+      encoded_data.size() - coded_in.CurrentPosition()) {
+    return absl::InvalidArgumentError("Payload header is truncated");
+  }
+
   auto limit = coded_in.PushLimit(serialized_payload_size);
   AggregationClientPayloadHeader payload_header;
   if (!payload_header.ParseFromCodedStream(&coded_in)) {
-- 
2.43.0


From 3691ff4907ceebeb7452e46083fce9d2f9cbf147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:30:55 +0000
Subject: [PATCH 06/31] fix: Encode control characters in URIs with two hex
 digits

---
 fcp/client/http/http_client_util.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fcp/client/http/http_client_util.cc b/fcp/client/http/http_client_util.cc
index f5d24b8..8b91f2e 100644
--- a/fcp/client/http/http_client_util.cc
+++ b/fcp/client/http/http_client_util.cc
@@ -137,7 +137,7 @@ absl::StatusOr<std::string> PercentEncode(
       continue;
     }
     // Any other character is percent-encoded.
-    result.append(absl::StrFormat("%%%X", c));
+    result.append(absl::StrFormat("%%%02X", c));
   }
   return result;
 }
-- 
2.43.0


From 5a9651a2efd230256d048fcc6d2c1c6398c017c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:18:47 +0000
Subject: [PATCH 07/31] fix: Count a task as contributed only when its results
 were uploaded

---
 fcp/client/fl_runner.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fcp/client/fl_runner.cc b/fcp/client/fl_runner.cc
index 7a33f0b..9ba044c 100644
--- a/fcp/client/fl_runner.cc
+++ b/fcp/client/fl_runner.cc
@@ -1906,6 +1906,7 @@ std::vector<std::string> HandleMultipleTaskAssignments(
         federated_protocol, fedselect_manager, opstats_example_iterator_factory,
         example_iterator_query_recorder.get(), fl_runner_result, should_abort,
         timing_config, reference_time);
+    const bool has_results = run_plan_results.computation_results.ok();
     absl::Status report_result =
         ReportPlanResult(federated_protocol, phase_logger,
                          std::move(run_plan_results.computation_results),
@@ -1913,7 +1914,7 @@ std::vector<std::string> HandleMultipleTaskAssignments(
                          task_assignment.aggregation_session_id);
     TaskResultInfo task_result_info;
     if (run_plan_results.outcome == engine::PlanOutcome::kSuccess &&
-        report_result.ok()) {
+        has_results && report_result.ok()) {
       // Only if training succeeded *and* reporting succeeded do we consider
       // the device to have contributed successfully.
       successful_task_names.push_back(task_assignment.task_name);
@@ -2167,13 +2168,14 @@ absl::StatusOr<FLRunnerResult> RunFederatedComputation(
           example_iterator_query_recorder.get(), fl_runner_result, should_abort,
           timing_config, reference_time);
 
+      const bool has_results = run_plan_results.computation_results.ok();
       absl::Status report_result = ReportPlanResult(
           federated_protocol, phase_logger,
           std::move(run_plan_results.computation_results),
           run_plan_results.run_plan_start_time, reference_time, std::nullopt);
       TaskResultInfo task_result_info;
       if (run_plan_results.outcome == engine::PlanOutcome::kSuccess &&
-          report_result.ok()) {
+          has_results && report_result.ok()) {
         // Only if training succeeded *and* reporting succeeded do we consider
         // the device to have contributed successfully.
         successful_task_names.push_back(checkin_result->task_name);
-- 
2.43.0


From f92f9a65811e5fc6e48a22bb7979bb6108b6c7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:20:26 +0000
Subject: [PATCH 08/31] fix: Record fatal and non-fatal initialization errors
 under their own event kinds

---
 fcp/client/phase_logger_impl.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fcp/client/phase_logger_impl.cc b/fcp/client/phase_logger_impl.cc
index 6f71d22..0d88878 100644
--- a/fcp/client/phase_logger_impl.cc
+++ b/fcp/client/phase_logger_impl.cc
@@ -79,7 +79,7 @@ void PhaseLoggerImpl::LogNonfatalInitializationError(
       error_status, kInitializationErrorPrefix, /* keep_error_message= */ true);
   event_publisher_->PublishNonfatalInitializationError(error_message);
   opstats_logger_->AddEventWithErrorMessage(
-      OperationalStats::Event::EVENT_KIND_INITIALIZATION_ERROR_FATAL,
+      OperationalStats::Event::EVENT_KIND_INITIALIZATION_ERROR_NONFATAL,
       error_message);
 }
 
@@ -88,7 +88,7 @@ void PhaseLoggerImpl::LogFatalInitializationError(absl::Status error_status) {
       error_status, kInitializationErrorPrefix, /* keep_error_message= */ true);
   event_publisher_->PublishFatalInitializationError(error_message);
   opstats_logger_->AddEventWithErrorMessage(
-      OperationalStats::Event::EVENT_KIND_INITIALIZATION_ERROR_NONFATAL,
+      OperationalStats::Event::EVENT_KIND_INITIALIZATION_ERROR_FATAL,
       error_message);
 }
 
-- 
2.43.0


From 6806aa8a66bcd50fe60a02511c8a16cffc7dd09e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:47:03 +0000
Subject: [PATCH 09/31] fix: Report a transfer that broke off as an error
 instead of a completed response

---
 fcp/client/http/curl/curl_http_client.cc         | 2 +-
 fcp/client/http/curl/curl_http_request_handle.cc | 8 ++++++--
 fcp/client/http/curl/curl_http_request_handle.h  | 5 +++--
 3 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/fcp/client/http/curl/curl_http_client.cc b/fcp/client/http/curl/curl_http_client.cc
index c5f75e7..aa86abf 100644
--- a/fcp/client/http/curl/curl_http_client.cc
+++ b/fcp/client/http/curl/curl_http_client.cc
@@ -45,7 +45,7 @@ void ReadCompleteMessages(CurlMultiHandle* multi_handle) {
       FCP_CHECK(user_data != nullptr);
 
       auto handle = static_cast<CurlHttpRequestHandle*>(user_data);
-      handle->MarkAsCompleted();
+      handle->MarkAsCompleted(msg->data.result);
       handle->RemoveFromMulti(multi_handle);
     }
   }
diff --git a/fcp/client/http/curl/curl_http_request_handle.cc b/fcp/client/http/curl/curl_http_request_handle.cc
index b7af189..559787c 100644
--- a/fcp/client/http/curl/curl_http_request_handle.cc
+++ b/fcp/client/http/curl/curl_http_request_handle.cc
@@ -188,13 +188,17 @@ void CurlHttpRequestHandle::Cancel() {
   is_cancelled_ = true;
 }
 
-void CurlHttpRequestHandle::MarkAsCompleted() {
+void CurlHttpRequestHandle::MarkAsCompleted(CURLcode result) {
   absl::MutexLock lock(&mutex_);
 
   FCP_CHECK(callback_ != nullptr);
   if (!is_cancelled_ && !is_completed_) {
-    if (response_ != nullptr) {
+    if (response_ != nullptr && result == CURLE_OK) {
       callback_->OnResponseCompleted(*request_, *response_);
+    } else if (response_ != nullptr) {
+      callback_->OnResponseBodyError(
+          *request_, *response_,
+          absl::UnavailableError(CurlEasyHandle::StrError(result)));
     } else {
       callback_->OnResponseError(*request_,
                                  absl::InternalError("response_ is nullptr"));
diff --git a/fcp/client/http/curl/curl_http_request_handle.h b/fcp/client/http/curl/curl_http_request_handle.h
index 3b0147c..bc64889 100644
--- a/fcp/client/http/curl/curl_http_request_handle.h
+++ b/fcp/client/http/curl/curl_http_request_handle.h
@@ -55,8 +55,9 @@ class CurlHttpRequestHandle : public HttpRequestHandle {
   // Removes this request from the corresponding multi-handle.
   void RemoveFromMulti(CurlMultiHandle* multi_handle)
       ABSL_LOCKS_EXCLUDED(mutex_);
-  // Marks the request as completed which fires the OnComplete callback.
-  void MarkAsCompleted() ABSL_LOCKS_EXCLUDED(mutex_);
+  // Marks the request as completed which fires the OnComplete callback if the
+  // transfer succeeded, and an error callback otherwise.
+  void MarkAsCompleted(CURLcode result) ABSL_LOCKS_EXCLUDED(mutex_);
 
   // HttpRequestHandle overrides:
   ABSL_MUST_USE_RESULT HttpRequestHandle::SentReceivedBytes
-- 
2.43.0


From ecd1472a7c5855ce465ca35bfd9dff72a579342e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:47:03 +0000
Subject: [PATCH 10/31] fix: Stop the transfer once the callback refused the
 response

---
 fcp/client/http/curl/curl_http_request_handle.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/fcp/client/http/curl/curl_http_request_handle.cc b/fcp/client/http/curl/curl_http_request_handle.cc
index 559787c..0caf47c 100644
--- a/fcp/client/http/curl/curl_http_request_handle.cc
+++ b/fcp/client/http/curl/curl_http_request_handle.cc
@@ -95,7 +95,9 @@ size_t CurlHttpRequestHandle::HeaderCallback(char* buffer, size_t size,
 
   if (!status.ok()) {
     FCP_LOG(ERROR) << "Called OnResponseStarted. Received status: " << status;
-    self->callback_->OnResponseError(*self->request_, status);
+    absl::MutexLock lock(&self->mutex_);
+    self->is_cancelled_ = true;
+    return 0;
   }
 
   return size * n_items;
@@ -111,8 +113,9 @@ size_t CurlHttpRequestHandle::DownloadCallback(void* body, size_t size,
 
   if (!status.ok()) {
     FCP_LOG(ERROR) << "Called OnResponseBody. Received status: " << status;
-    self->callback_->OnResponseBodyError(*self->request_, *self->response_,
-                                         status);
+    absl::MutexLock lock(&self->mutex_);
+    self->is_cancelled_ = true;
+    return 0;
   }
 
   return size * nmemb;
-- 
2.43.0


From 2c7e7d2d7ad116beabdcbc6b14690dce3f14f95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:47:03 +0000
Subject: [PATCH 11/31] fix: Keep response header values that contain a colon
 whole

---
 fcp/client/http/curl/curl_header_parser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fcp/client/http/curl/curl_header_parser.cc b/fcp/client/http/curl/curl_header_parser.cc
index 51836a5..87d5d35 100644
--- a/fcp/client/http/curl/curl_header_parser.cc
+++ b/fcp/client/http/curl/curl_header_parser.cc
@@ -69,7 +69,7 @@ bool CurlHeaderParser::ParseAsHeader(const std::string& header_string) {
   }
 
   std::pair<std::string, std::string> split =
-      absl::StrSplit(header_string, ':');
+      absl::StrSplit(header_string, absl::MaxSplits(':', 1));
   std::string key = split.first;
   std::string value = std::string(absl::StripAsciiWhitespace(split.second));
 
-- 
2.43.0


From b7d379a2e6c8ba4e2841dced81177237b0ebf0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:47:44 +0000
Subject: [PATCH 12/31] fix: Report a request that could not be set up instead
 of calling a missing callback

---
 fcp/client/http/curl/curl_http_request_handle.cc | 14 +++++++++-----
 fcp/client/http/curl/curl_http_request_handle.h  |  2 ++
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/fcp/client/http/curl/curl_http_request_handle.cc b/fcp/client/http/curl/curl_http_request_handle.cc
index 0caf47c..40a2fb6 100644
--- a/fcp/client/http/curl/curl_http_request_handle.cc
+++ b/fcp/client/http/curl/curl_http_request_handle.cc
@@ -155,6 +155,7 @@ CurlHttpRequestHandle::CurlHttpRequestHandle(
       response_(nullptr),
       easy_handle_(std::move(easy_handle)),
       callback_(nullptr),
+      initialization_code_(CURLE_OK),
       is_being_performed_(false),
       is_completed_(false),
       is_cancelled_(false),
@@ -162,13 +163,11 @@ CurlHttpRequestHandle::CurlHttpRequestHandle(
   FCP_CHECK(request_ != nullptr);
   FCP_CHECK(easy_handle_ != nullptr);
 
-  CURLcode code = InitializeConnection(test_cert_path);
-  if (code != CURLE_OK) {
+  initialization_code_ = InitializeConnection(test_cert_path);
+  if (initialization_code_ != CURLE_OK) {
     FCP_LOG(ERROR) << "easy_handle initialization failed with code "
-                   << CurlEasyHandle::StrError(code);
+                   << CurlEasyHandle::StrError(initialization_code_);
     FCP_LOG(ERROR) << error_buffer_;
-    callback_->OnResponseError(*request_, absl::InternalError(error_buffer_));
-    return;
   }
 }
 
@@ -223,6 +222,11 @@ absl::Status CurlHttpRequestHandle::AddToMulti(CurlMultiHandle* multi_handle,
   } else if (is_being_performed_ || is_completed_) {
     return absl::ResourceExhaustedError(
         "The handle was previously passed to another PerformRequests call.");
+  } else if (initialization_code_ != CURLE_OK) {
+    absl::Status status = absl::InternalError(
+        CurlEasyHandle::StrError(initialization_code_));
+    callback->OnResponseError(*request_, status);
+    return status;
   }
 
   is_being_performed_ = true;
diff --git a/fcp/client/http/curl/curl_http_request_handle.h b/fcp/client/http/curl/curl_http_request_handle.h
index bc64889..b015cb7 100644
--- a/fcp/client/http/curl/curl_http_request_handle.h
+++ b/fcp/client/http/curl/curl_http_request_handle.h
@@ -96,6 +96,8 @@ class CurlHttpRequestHandle : public HttpRequestHandle {
   CurlHeaderParser header_parser_{};
   // Owned by the caller. Initialized in AddToMulti and then read-only.
   HttpRequestCallback* callback_ ABSL_GUARDED_BY(mutex_);
+  // Whether easy_handle_ was set up successfully.
+  CURLcode initialization_code_ ABSL_GUARDED_BY(mutex_);
   bool is_being_performed_ ABSL_GUARDED_BY(mutex_);
   bool is_completed_ ABSL_GUARDED_BY(mutex_);
   bool is_cancelled_ ABSL_GUARDED_BY(mutex_);
-- 
2.43.0


From b6b83c2f45425622959dd3aac1d4800acc61e8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:51:51 +0000
Subject: [PATCH 13/31] fix: Notice a slice that could not be flushed to its
 scratch file

---
 fcp/client/federated_select.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fcp/client/federated_select.cc b/fcp/client/federated_select.cc
index 58a3e5a..be2b3a6 100644
--- a/fcp/client/federated_select.cc
+++ b/fcp/client/federated_select.cc
@@ -285,6 +285,9 @@ absl::StatusOr<std::string> InMemoryFederatedSelectExampleIterator::Next() {
     }
   }
   checkpoint_stream.close();
+  if (checkpoint_stream.fail()) {
+    return absl::InternalError("Failed to write slice to file");
+  }
 
   // Remove the slice from the deque, releasing its data from memory.
   slices_.pop_front();
-- 
2.43.0


From e729ec4635d1f37fb4d2744dad068ed787a91822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:51:51 +0000
Subject: [PATCH 14/31] fix: Remove the scratch file when fetching slices fails

---
 fcp/client/federated_select.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fcp/client/federated_select.cc b/fcp/client/federated_select.cc
index be2b3a6..234507c 100644
--- a/fcp/client/federated_select.cc
+++ b/fcp/client/federated_select.cc
@@ -203,6 +203,8 @@ HttpFederatedSelectExampleIteratorFactory::CreateExampleIterator(
   bytes_sent_acc_ += bytes_sent;
   bytes_received_acc_ += bytes_received;
   if (!slices.ok()) {
+    // No iterator will be created, so nothing else would remove the file.
+    std::filesystem::remove(*scratch_filename);
     log_manager_.LogDiag(ProdDiagCode::FEDSELECT_SLICE_HTTP_FETCH_FAILED);
     return absl::Status(slices.status().code(),
                         absl::StrCat("Failed to fetch slice data: ",
-- 
2.43.0


From 666fa73dcd809224f6f01d49eafcdfd37ff11982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:01:03 +0000
Subject: [PATCH 15/31] fix: Keep the minimum separation index when splitting a
 run into tasks

The last round a device contributed in is looked up in the entries split by
task. The index was not copied to them, so a device that logs statistics per
phase never found it and the minimum separation policy let it contribute
again at once.
---
 fcp/client/opstats/opstats_utils.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fcp/client/opstats/opstats_utils.cc b/fcp/client/opstats/opstats_utils.cc
index 408e42c..dea2dd3 100644
--- a/fcp/client/opstats/opstats_utils.cc
+++ b/fcp/client/opstats/opstats_utils.cc
@@ -187,6 +187,10 @@ std::vector<OperationalStats> ConvertToLegacyOperationalStats(
       legacy_op_stats.push_back(CreateLegacyOperationalStats(
           op_stats.population_name(), op_stats.session_name(),
           op_stats.retry_window(), task_stats));
+      if (op_stats.has_min_sep_policy_index()) {
+        legacy_op_stats.back().set_min_sep_policy_index(
+            op_stats.min_sep_policy_index());
+      }
     }
   }
   return legacy_op_stats;
-- 
2.43.0


From a4e90be0b8695cc344fde501a9f69135399cb208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:01:03 +0000
Subject: [PATCH 16/31] fix: Do not replace an earlier run's entry after a
 failed commit

A failed first commit was remembered as done, so the next commit overwrote the
last entry in the database, which belongs to an earlier run.
---
 fcp/client/opstats/opstats_logger_impl.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fcp/client/opstats/opstats_logger_impl.cc b/fcp/client/opstats/opstats_logger_impl.cc
index 6e1124b..546199e 100644
--- a/fcp/client/opstats/opstats_logger_impl.cc
+++ b/fcp/client/opstats/opstats_logger_impl.cc
@@ -225,7 +225,9 @@ absl::Status OpStatsLoggerImpl::CommitToStorage() {
   log_manager_->LogToLongHistogram(
       HistogramCounters::TRAINING_OPSTATS_COMMIT_LATENCY,
       absl::ToInt64Milliseconds(after_commit_time - before_commit_time));
-  already_committed_ = true;
+  if (status.ok()) {
+    already_committed_ = true;
+  }
   return status;
 }
 
-- 
2.43.0


From 2231c7fb9794720744eaab66ca51aa8f812c383d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:01:03 +0000
Subject: [PATCH 17/31] fix: Take events logged per phase into account for the
 trustworthy time

After old entries were pruned, the earliest trustworthy time was set to the
current time whenever the remaining runs logged their events per phase, although
their records are complete.
---
 fcp/client/opstats/pds_backed_opstats_db.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/fcp/client/opstats/pds_backed_opstats_db.cc b/fcp/client/opstats/pds_backed_opstats_db.cc
index 09dac40..39718c5 100644
--- a/fcp/client/opstats/pds_backed_opstats_db.cc
+++ b/fcp/client/opstats/pds_backed_opstats_db.cc
@@ -170,8 +170,12 @@ absl::Time GetLastUpdateTime(const OperationalStats& operational_stats) {
   ::google::protobuf::Timestamp timestamp = TimeUtil::GetCurrentTime();
   for (const auto& stat : op_stats) {
     if (!stat.events().empty()) {
-      timestamp = stat.events().begin()->timestamp();
-      break;
+      return stat.events().begin()->timestamp();
+    }
+    for (const auto& phase_stats : stat.phase_stats()) {
+      if (!phase_stats.events().empty()) {
+        return phase_stats.events().begin()->timestamp();
+      }
     }
   }
   return timestamp;
-- 
2.43.0


From 72c87e9f2bd28395221e7db9f86efb2d721c7c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:01:16 +0000
Subject: [PATCH 18/31] fix: Remove a cached file that could not be written
 completely

The manifest already names the file at that point, so the truncated contents
were returned as the cached resource afterwards.
---
 fcp/client/cache/file_backed_resource_cache.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fcp/client/cache/file_backed_resource_cache.cc b/fcp/client/cache/file_backed_resource_cache.cc
index d71b97c..9f6e8ef 100644
--- a/fcp/client/cache/file_backed_resource_cache.cc
+++ b/fcp/client/cache/file_backed_resource_cache.cc
@@ -202,6 +202,9 @@ absl::Status FileBackedResourceCache::Put(absl::string_view cache_id,
     auto status = WriteCordToFile(cached_file_path.string(), resource);
     if (!status.ok()) {
       log_manager_.LogDiag(ProdDiagCode::RESOURCE_CACHE_RESOURCE_WRITE_FAILED);
+      // Don't leave a partially written file behind, Get() would return it.
+      std::error_code ignored_remove_error;
+      std::filesystem::remove(cached_file_path, ignored_remove_error);
       return status;
     }
   }
-- 
2.43.0


From 3612c15a9ae39856543a6f6400a7490979f1c417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:01:16 +0000
Subject: [PATCH 19/31] fix: Overwrite a resource that is already cached

Storing a resource under an identifier already in use is documented to replace
it, but reported success and kept the previous resource, metadata and expiry.
---
 fcp/client/cache/file_backed_resource_cache.cc | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/fcp/client/cache/file_backed_resource_cache.cc b/fcp/client/cache/file_backed_resource_cache.cc
index 9f6e8ef..ebd8720 100644
--- a/fcp/client/cache/file_backed_resource_cache.cc
+++ b/fcp/client/cache/file_backed_resource_cache.cc
@@ -182,8 +182,19 @@ absl::Status FileBackedResourceCache::Put(absl::string_view cache_id,
   *cached_resource.mutable_last_accessed_time() =
       TimeUtil::ConvertAbslToProtoTimestamp(now);
 
+  // If the resource is already cached it is overwritten. Remove the previous
+  // file first, so that it is never returned along with the new metadata.
+  std::error_code remove_error;
+  std::filesystem::remove(cached_file_path, remove_error);
+  if (remove_error.value() != 0) {
+    log_manager_.LogDiag(ProdDiagCode::RESOURCE_CACHE_RESOURCE_WRITE_FAILED);
+    return absl::InternalError(absl::StrCat(
+        "Failed to remove previously cached resource with error code: ",
+        remove_error.value()));
+  }
+
   // Write the manifest back to disk before we write the file.
-  manifest.mutable_cache()->insert({cache_id_str, cached_resource});
+  (*manifest.mutable_cache())[cache_id_str] = cached_resource;
   FCP_RETURN_IF_ERROR(
       WriteInternal(std::make_unique<CacheManifest>(std::move(manifest))));
 
-- 
2.43.0


From 4dcababa647a8f24ee9ae12edadcaf4126d03687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:01:56 +0000
Subject: [PATCH 20/31] fix: Refuse a cache id that leads out of the cache
 directory

The id comes from the server and is used as a file name. With a slash in it,
resources were written to and removed from other directories.
---
 fcp/client/cache/file_backed_resource_cache.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/fcp/client/cache/file_backed_resource_cache.cc b/fcp/client/cache/file_backed_resource_cache.cc
index ebd8720..8c7e61a 100644
--- a/fcp/client/cache/file_backed_resource_cache.cc
+++ b/fcp/client/cache/file_backed_resource_cache.cc
@@ -35,6 +35,7 @@
 #include "absl/status/status.h"
 #include "absl/status/statusor.h"
 #include "absl/strings/cord.h"
+#include "absl/strings/match.h"
 #include "absl/strings/str_cat.h"
 #include "absl/strings/string_view.h"
 #include "absl/synchronization/mutex.h"
@@ -163,6 +164,13 @@ absl::Status FileBackedResourceCache::Put(absl::string_view cache_id,
                                           absl::Duration max_age) {
   absl::MutexLock lock(&mutex_);
 
+  // The id names a file in the cache directory, it must not lead out of it.
+  if (cache_id.empty() || cache_id == "." || cache_id == ".." ||
+      absl::StrContains(cache_id, "/")) {
+    return absl::InvalidArgumentError(
+        absl::StrCat(cache_id, " is not a valid cache id"));
+  }
+
   if (resource.size() > max_cache_size_bytes_ / 2) {
     return absl::ResourceExhaustedError(absl::StrCat(cache_id, " too large"));
   }
-- 
2.43.0


From c74456c1a29b911a7b4b4d583ffe2bc24fd50304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:43:57 +0000
Subject: [PATCH 21/31] fix: Answer truncated gzip request bodies with
 BAD_REQUEST

gzip.decompress() raises EOFError for a body that ends early. The error was
not caught, so the connection was dropped without any response.
---
 fcp/demo/http_actions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fcp/demo/http_actions.py b/fcp/demo/http_actions.py
index 503da70..a1adb52 100644
--- a/fcp/demo/http_actions.py
+++ b/fcp/demo/http_actions.py
@@ -243,7 +243,7 @@ def create_handler(*services: Any) -> Type[http.server.BaseHTTPRequestHandler]:
       if self.headers['Content-Encoding'] == 'gzip':
         try:
           body = gzip.decompress(body)
-        except (gzip.BadGzipFile, zlib.error) as e:
+        except (gzip.BadGzipFile, zlib.error, EOFError) as e:
           raise HttpError(http.HTTPStatus.BAD_REQUEST) from e
       elif self.headers['Content-Encoding']:
         logging.warning('Unsupported content encoding %s',
-- 
2.43.0


From 308954f737ffce46cfc2a4216cf6f7ddeb36eb70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:43:57 +0000
Subject: [PATCH 22/31] fix: Free the upload when a submission names the wrong
 resource

The client's entry has already been removed at this point. Nothing else refers
to its upload, so the uploaded data was kept for the lifetime of the server.
---
 fcp/demo/aggregations.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fcp/demo/aggregations.py b/fcp/demo/aggregations.py
index e74b308..4c41b98 100644
--- a/fcp/demo/aggregations.py
+++ b/fcp/demo/aggregations.py
@@ -422,6 +422,8 @@ class Service:
     # Ensure the client is using the resource name provided when they called
     # StartAggregationDataUpload.
     if request.resource_name != client_data.resource_name:
+      with contextlib.suppress(KeyError):
+        self._media_service.finalize_upload(client_data.resource_name)
       raise http_actions.HttpError(http.HTTPStatus.BAD_REQUEST)
 
     # The aggregation protocol may have already closed the connect (e.g., if
-- 
2.43.0


From 5da7989283bf50c0db0bf14cae870a1226464602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:43:57 +0000
Subject: [PATCH 23/31] fix: Hold the sessions lock while cleaning up an
 aggregation session

Request handlers that looked the session up before it was removed may still
change its client table. Iterating over the table at the same time fails with
"dictionary changed size during iteration".
---
 fcp/demo/aggregations.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/fcp/demo/aggregations.py b/fcp/demo/aggregations.py
index 4c41b98..d45bec3 100644
--- a/fcp/demo/aggregations.py
+++ b/fcp/demo/aggregations.py
@@ -351,17 +351,18 @@ class Service:
     Args:
       state: The session state to clean up.
     """
-    state.authorization_tokens.clear()
-    for client_data in state.active_clients.values():
-      self._media_service.finalize_upload(client_data.resource_name)
-    state.active_clients.clear()
-    # Anyone waiting on the session should be notified that it's finished.
-    if state.pending_waits:
-      status = self._get_session_status(state)
-      for data in state.pending_waits:
-        data.loop.call_soon_threadsafe(
-            functools.partial(data.status_future.set_result, status))
-      state.pending_waits.clear()
+    with self._sessions_lock:
+      state.authorization_tokens.clear()
+      for client_data in state.active_clients.values():
+        self._media_service.finalize_upload(client_data.resource_name)
+      state.active_clients.clear()
+      # Anyone waiting on the session should be notified that it's finished.
+      if state.pending_waits:
+        status = self._get_session_status(state)
+        for data in state.pending_waits:
+          data.loop.call_soon_threadsafe(
+              functools.partial(data.status_future.set_result, status))
+        state.pending_waits.clear()
 
   @http_actions.proto_action(
       service='google.internal.federatedcompute.v1.Aggregations',
-- 
2.43.0


From 2a75185ce4b3603e6369454934b5baa0150f3124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:43:57 +0000
Subject: [PATCH 24/31] fix: Do not register clients in aggregation sessions
 that have ended

A session can be completed or aborted between redeeming a client's token and
recording the client. The client's upload was then never freed.
---
 fcp/demo/aggregations.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fcp/demo/aggregations.py b/fcp/demo/aggregations.py
index d45bec3..e48c884 100644
--- a/fcp/demo/aggregations.py
+++ b/fcp/demo/aggregations.py
@@ -386,6 +386,10 @@ class Service:
     upload_name = self._media_service.register_upload()
 
     with self._sessions_lock:
+      # The session may have ended since the token was redeemed.
+      if request.aggregation_id not in self._sessions:
+        self._media_service.finalize_upload(upload_name)
+        raise http_actions.HttpError(http.HTTPStatus.NOT_FOUND)
       state.active_clients[client_token] = _ActiveClientData(
           client_id, upload_name
       )
-- 
2.43.0


From daadfb7766771bc61d96a5811bcc72bc57f0b466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:43:57 +0000
Subject: [PATCH 25/31] fix: Do not leave a task listed when its assignment
 mode is refused

The task assignments service rejects unknown assignment modes. The task had
been added to the eligibility service by then and was never removed.
---
 fcp/demo/server.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fcp/demo/server.py b/fcp/demo/server.py
index 1a1a78e..85aa718 100644
--- a/fcp/demo/server.py
+++ b/fcp/demo/server.py
@@ -127,9 +127,6 @@ class InProcessServer(socketserver.ThreadingMixIn, http.server.HTTPServer):
                   gzip.compress(slice_data),
                   content_type=_CHECKPOINT_CONTENT_TYPE,
               )
-          self._eligibility_eval_tasks_service.add_task(
-              task_name, task_assignment_mode
-          )
           self._task_assignments_service.add_task(
               task_name,
               task_assignment_mode,
@@ -138,6 +135,9 @@ class InProcessServer(socketserver.ThreadingMixIn, http.server.HTTPServer):
               common_pb2.Resource(uri=checkpoint_url),
               group.prefix + _FEDERATED_SELECT_NAME_TEMPLATE,
           )
+          self._eligibility_eval_tasks_service.add_task(
+              task_name, task_assignment_mode
+          )
           try:
             status = await self._aggregations_service.wait(
                 session_id,
-- 
2.43.0


From fcb8df003b8c787c7d48a4be7b34171e319480f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:44:13 +0000
Subject: [PATCH 26/31] fix: Keep example selectors alive while their plans are
 cached

Plans are cached by the id() of the example selector. Once a selector has been
freed, a new selector can get the same id. A computation then ran with the plan
built for the old selector.
---
 fcp/demo/federated_context.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/fcp/demo/federated_context.py b/fcp/demo/federated_context.py
index 81d8978..0c526f9 100644
--- a/fcp/demo/federated_context.py
+++ b/fcp/demo/federated_context.py
@@ -87,7 +87,11 @@ class FederatedContext(tff.program.FederatedContext):
           self._server.socket, server_side=True)
     self._server_thread = threading.Thread(
         target=self._server.serve_forever, daemon=True)
-    self._cached_comps: dict[tuple[tff.Computation, int], plan_pb2.Plan] = {}
+    # The selectors are kept with the plans because the ids in the keys are only
+    # unique while the selectors are alive.
+    self._cached_comps: dict[
+        tuple[tff.Computation, int], tuple[Any, plan_pb2.Plan]
+    ] = {}
 
   @property
   def server_port(self) -> int:
@@ -134,7 +138,7 @@ class FederatedContext(tff.program.FederatedContext):
     # subsequent invocations.
     cache_key = (comp.wrapped_computation, id(config.example_selector))
     try:
-      plan = self._cached_comps[cache_key]
+      _, plan = self._cached_comps[cache_key]
     except KeyError:
       plan = federated_compute_plan_builder.build_plan(
           None,  # MapReduceForm is being deprecated
@@ -144,7 +148,7 @@ class FederatedContext(tff.program.FederatedContext):
       )
       # Add the TF Lite flatbuffer to the plan.
       plan = plan_utils.generate_and_add_flat_buffer_to_plan(plan)
-      self._cached_comps[cache_key] = plan
+      self._cached_comps[cache_key] = (config.example_selector, plan)
 
     checkpoint_future = self._run_computation(comp.name, config, plan,
                                               comp.type_signature.parameter[0],
-- 
2.43.0


From bdded9f2246a65eba939f77336bf373e11788d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:50:54 +0000
Subject: [PATCH 27/31] fix: Await the value references in structured
 computation state

_resolve_value_references() is a coroutine function. For structures, the
coroutines themselves were packed into the state in place of the values.
---
 fcp/demo/federated_context.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fcp/demo/federated_context.py b/fcp/demo/federated_context.py
index 0c526f9..f014acf 100644
--- a/fcp/demo/federated_context.py
+++ b/fcp/demo/federated_context.py
@@ -259,7 +259,7 @@ class FederatedContext(tff.program.FederatedContext):
       return structure
     elif isinstance(structure, tff.structure.Struct):
       s = [
-          self._resolve_value_references(x)
+          await self._resolve_value_references(x)
           for x in tff.structure.flatten(structure)
       ]
       return tff.structure.pack_sequence_as(structure, s)
-- 
2.43.0


From e661c1e802cbad1bda49488ce1b79dffc2282136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:04:51 +0000
Subject: [PATCH 28/31] fix: write the values of bytes vectors of example query
 results

The branch for bytes vectors copied the (empty) string values of the result but
wrote as many elements as there were bytes values, reading past the end of the
empty buffer.
---
 fcp/client/engine/example_query_plan_engine.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fcp/client/engine/example_query_plan_engine.cc b/fcp/client/engine/example_query_plan_engine.cc
index bbbe1b2..8acd25e 100644
--- a/fcp/client/engine/example_query_plan_engine.cc
+++ b/fcp/client/engine/example_query_plan_engine.cc
@@ -176,7 +176,7 @@ absl::Status WriteCheckpoint(
             output_vector_spec, ExampleQuerySpec::OutputVectorSpec::BYTES));
         int64_t size = values.bytes_values().value_size();
         std::vector<tf::tstring> tf_string_vector;
-        for (const auto& value : values.string_values().value()) {
+        for (const auto& value : values.bytes_values().value()) {
           tf_string_vector.emplace_back(value);
         }
         FCP_RETURN_IF_ERROR(WriteSlice(slice_writer, output_name, size,
-- 
2.43.0


From 1f40826f03db7f7efc6e68946a299f22259eacff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:04:51 +0000
Subject: [PATCH 29/31] fix: initialize the delegate pointer read by the TFLite
 abort function

A run that is aborted before the interpreter was set up loads the pointer before
anything was stored in it.
---
 fcp/client/engine/tflite_wrapper.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fcp/client/engine/tflite_wrapper.cc b/fcp/client/engine/tflite_wrapper.cc
index a874a0f..903ddd1 100644
--- a/fcp/client/engine/tflite_wrapper.cc
+++ b/fcp/client/engine/tflite_wrapper.cc
@@ -269,7 +269,7 @@ absl::StatusOr<OutputTensors> RunTfLiteModelThreadSafe(
           .interrupt_timeout_extended = ProdDiagCode::
               BACKGROUND_TRAINING_INTERRUPT_TF_EXTENDED_EXECUTION_TIMED_OUT});
 
-  std::atomic<tflite::FlexDelegate*> delegate_raw_ptr;
+  std::atomic<tflite::FlexDelegate*> delegate_raw_ptr = nullptr;
 
   OutputTensors output_tensors;
   FCP_RETURN_IF_ERROR(runner->Run(
-- 
2.43.0


From 987573e05fab1d3c72ca448a361d49eb5cab41b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:33:12 +0000
Subject: [PATCH 30/31] fix: keep all bits of tracing span ids

The constructor took an int, so ids handed out after the first 2^31 spans
wrapped around to negative values and later repeated those of earlier spans.
---
 fcp/tracing/tracing_span_id.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fcp/tracing/tracing_span_id.h b/fcp/tracing/tracing_span_id.h
index b737ccc..79525c5 100644
--- a/fcp/tracing/tracing_span_id.h
+++ b/fcp/tracing/tracing_span_id.h
@@ -29,7 +29,7 @@ struct TracingSpanId {
 
   // Generates next unique id
   static TracingSpanId NextUniqueId();
-  explicit constexpr TracingSpanId(int id) : value(id) {}
+  explicit constexpr TracingSpanId(std::int64_t id) : value(id) {}
 
  private:
   static std::atomic<std::int64_t> id_source;
-- 
2.43.0


From e8751853d4978916420c40e416055830e4f07386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:48:07 +0000
Subject: [PATCH 31/31] fix: write every output of an example query, also when
 several name the same vector

---
 .../engine/example_query_plan_engine.cc       | 21 +++++++++++--------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/fcp/client/engine/example_query_plan_engine.cc b/fcp/client/engine/example_query_plan_engine.cc
index 8acd25e..756348e 100644
--- a/fcp/client/engine/example_query_plan_engine.cc
+++ b/fcp/client/engine/example_query_plan_engine.cc
@@ -76,19 +76,22 @@ absl::Status WriteSlice(tf::checkpoint::TensorSliceWriter& slice_writer,
   return slice_writer.Add(name, shape, slice, data);
 }
 
-// Returns a map of (vector name) -> tuple(output name, vector spec).
-absl::flat_hash_map<std::string,
-                    std::tuple<std::string, ExampleQuerySpec::OutputVectorSpec>>
+// Returns pairs of (vector name, tuple(output name, vector spec)), one for each
+// output. Several outputs may name the same vector.
+std::vector<
+    std::pair<std::string,
+              std::tuple<std::string, ExampleQuerySpec::OutputVectorSpec>>>
 GetOutputVectorSpecs(const ExampleQuerySpec::ExampleQuery& example_query) {
-  absl::flat_hash_map<
-      std::string, std::tuple<std::string, ExampleQuerySpec::OutputVectorSpec>>
-      map;
+  std::vector<
+      std::pair<std::string,
+                std::tuple<std::string, ExampleQuerySpec::OutputVectorSpec>>>
+      specs;
   for (auto const& [output_name, output_vector_spec] :
        example_query.output_vector_specs()) {
-    map[output_vector_spec.vector_name()] =
-        std::make_tuple(output_name, output_vector_spec);
+    specs.emplace_back(output_vector_spec.vector_name(),
+                       std::make_tuple(output_name, output_vector_spec));
   }
-  return map;
+  return specs;
 }
 
 absl::Status CheckOutputVectorDataType(
-- 
2.43.0

