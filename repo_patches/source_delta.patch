From b7516d078268d9a49de9327ca7f6125dc8ef47f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:25 +0000
Subject: [PATCH 01/19] fix: observe() with asType event returns the wrapped
 function's result or error

LangfuseEvent has neither update() nor end(), so the wrapper threw a TypeError
and lost the caller's value or error.
---
 packages/tracing/src/index.ts | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/packages/tracing/src/index.ts b/packages/tracing/src/index.ts
index ac99d0e..c4c2762 100644
--- a/packages/tracing/src/index.ts
+++ b/packages/tracing/src/index.ts
@@ -1473,6 +1473,12 @@ export function observe<T extends (...args: any[]) => any>(
       observation.otelSpan.spanContext().traceId,
     );
 
+    // Events are already ended on creation and can neither be updated nor
+    // ended again
+    if (asType === "event") {
+      return context.with(activeContext, () => fn.apply(this, args));
+    }
+
     try {
       const result = context.with(activeContext, () => fn.apply(this, args));
 
-- 
2.43.0


From 02e97d1008d39eae79e7fe3cfc477dfa82b84687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:04:42 +0000
Subject: [PATCH 02/19] fix: apply the mask function to flattened metadata
 attributes

Object metadata is exported as one attribute per top-level key, which
applyMaskInPlace did not look at, so it left the process unmasked.
---
 packages/otel/src/span-processor.ts | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/packages/otel/src/span-processor.ts b/packages/otel/src/span-processor.ts
index 67b6020..c6221f6 100644
--- a/packages/otel/src/span-processor.ts
+++ b/packages/otel/src/span-processor.ts
@@ -558,10 +558,13 @@ export class LangfuseSpanProcessor implements SpanProcessor {
     ];
 
     for (const maskCandidate of maskCandidates) {
-      if (maskCandidate in span.attributes) {
-        span.attributes[maskCandidate] = await this.applyMask(
-          span.attributes[maskCandidate],
-        );
+      // Metadata is flattened to one attribute per top-level key
+      const attributeKeys = Object.keys(span.attributes).filter(
+        (key) => key === maskCandidate || key.startsWith(`${maskCandidate}.`),
+      );
+
+      for (const key of attributeKeys) {
+        span.attributes[key] = await this.applyMask(span.attributes[key]);
       }
     }
   }
-- 
2.43.0


From ae83db137a11d89bbace4dcf3b7437c17bd92565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:41 +0000
Subject: [PATCH 03/19] fix: placeholder resolution tolerates null entries and
 inherited property names

---
 packages/client/src/prompt/promptClients.ts | 24 +++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/packages/client/src/prompt/promptClients.ts b/packages/client/src/prompt/promptClients.ts
index 8872765..ac88243 100644
--- a/packages/client/src/prompt/promptClients.ts
+++ b/packages/client/src/prompt/promptClients.ts
@@ -334,13 +334,21 @@ export class ChatPromptClient extends BasePromptClient {
 
     for (const item of this.prompt) {
       if ("type" in item && item.type === ChatMessageType.Placeholder) {
-        const placeholderValue = placeholderValues[item.name];
+        const placeholderValue = Object.prototype.hasOwnProperty.call(
+          placeholderValues,
+          item.name,
+        )
+          ? placeholderValues[item.name]
+          : undefined;
         if (
           Array.isArray(placeholderValue) &&
           placeholderValue.length > 0 &&
           placeholderValue.every(
             (msg) =>
-              typeof msg === "object" && "role" in msg && "content" in msg,
+              typeof msg === "object" &&
+              msg !== null &&
+              "role" in msg &&
+              "content" in msg,
           )
         ) {
           messagesWithPlaceholdersReplaced.push(
@@ -424,13 +432,21 @@ export class ChatPromptClient extends BasePromptClient {
 
     for (const item of this.prompt) {
       if ("type" in item && item.type === ChatMessageType.Placeholder) {
-        const placeholderValue = placeholderValues[item.name];
+        const placeholderValue = Object.prototype.hasOwnProperty.call(
+          placeholderValues,
+          item.name,
+        )
+          ? placeholderValues[item.name]
+          : undefined;
         if (
           Array.isArray(placeholderValue) &&
           placeholderValue.length > 0 &&
           placeholderValue.every(
             (msg) =>
-              typeof msg === "object" && "role" in msg && "content" in msg,
+              typeof msg === "object" &&
+              msg !== null &&
+              "role" in msg &&
+              "content" in msg,
           )
         ) {
           // Complete placeholder fill-in, replace with it
-- 
2.43.0


From 306666eda52b93454025651fa13ca1fd58c51dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:41 +0000
Subject: [PATCH 04/19] fix: flushing scores also sends and awaits scores
 created during an earlier flush

---
 packages/client/src/score/index.ts | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/packages/client/src/score/index.ts b/packages/client/src/score/index.ts
index 9cbe359..98af14d 100644
--- a/packages/client/src/score/index.ts
+++ b/packages/client/src/score/index.ts
@@ -102,10 +102,10 @@ export class ScoreManager {
     }
 
     if (this.eventQueue.length >= this.flushAtCount) {
-      this.flushPromise = this.flush();
+      void this.flush();
     } else if (!this.flushTimer) {
       this.flushTimer = safeSetTimeout(() => {
-        this.flushPromise = this.flush();
+        void this.flush();
       }, this.flushIntervalSeconds * 1_000);
     }
   }
@@ -298,8 +298,6 @@ export class ScoreManager {
       await Promise.all(promises);
     } catch (err) {
       this.logger.error("Error flushing Score Manager: ", err);
-    } finally {
-      this.flushPromise = null;
     }
   }
 
@@ -318,7 +316,19 @@ export class ScoreManager {
    * ```
    */
   public async flush() {
-    return this.flushPromise ?? this.handleFlush();
+    // Scores queued while an earlier flush is in flight are not part of it:
+    // send them now and resolve once both flushes are done.
+    const previousFlush = this.flushPromise;
+    const flushPromise = this.handleFlush().then(async () => {
+      await previousFlush;
+    });
+
+    this.flushPromise = flushPromise;
+    await flushPromise;
+
+    if (this.flushPromise === flushPromise) {
+      this.flushPromise = null;
+    }
   }
 
   /**
-- 
2.43.0


From ffc990c3ce75327bdc8411d516da6fb4ebec3f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:40 +0000
Subject: [PATCH 05/19] fix: replace each inline media data URI by its own
 reference tag

---
 packages/otel/src/MediaService.ts | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/packages/otel/src/MediaService.ts b/packages/otel/src/MediaService.ts
index 79ae77e..3f62880 100644
--- a/packages/otel/src/MediaService.ts
+++ b/packages/otel/src/MediaService.ts
@@ -53,8 +53,8 @@ export class MediaService {
         }
 
         // Find media base64 data URI
-        let mediaReplacedValue = value;
-        const regex = /data:[^;]+;base64,[A-Za-z0-9+/]+=*/g;
+        const mediaTags = new Map<string, string>();
+        const regex = /data:[^;:,\s"'\\]+;base64,[A-Za-z0-9+/]+=*/g;
         const foundMedia = [...new Set(value.match(regex) ?? [])];
 
         if (foundMedia.length === 0) continue;
@@ -86,14 +86,14 @@ export class MediaService {
                 : "metadata", // todo: make more robust
           });
 
-          // Replace original attribute with media escaped attribute
-          mediaReplacedValue = mediaReplacedValue.replaceAll(
-            mediaDataUri,
-            langfuseMediaTag,
-          );
+          mediaTags.set(mediaDataUri, langfuseMediaTag);
         }
 
-        span.attributes[key] = mediaReplacedValue;
+        // Replace original attribute with media escaped attribute
+        span.attributes[key] = value.replace(
+          regex,
+          (mediaDataUri) => mediaTags.get(mediaDataUri) ?? mediaDataUri,
+        );
       }
     }
 
@@ -263,9 +263,10 @@ export class MediaService {
       field: params.field,
     });
 
+    // Match the whole JSON string, the content may be part of other content
     return params.mediaReplacedValue.replaceAll(
-      params.contentToReplace ?? params.base64Content,
-      langfuseMediaTag,
+      JSON.stringify(params.contentToReplace ?? params.base64Content),
+      () => JSON.stringify(langfuseMediaTag),
     );
   }
 
-- 
2.43.0


From cc73d09f0bde583c7342b4a0325f1298b03483b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:24 +0000
Subject: [PATCH 06/19] fix: formatted experiment results show each result with
 its own item when other items failed

---
 packages/client/src/experiment/ExperimentManager.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/client/src/experiment/ExperimentManager.ts b/packages/client/src/experiment/ExperimentManager.ts
index 668ae98..461d93e 100644
--- a/packages/client/src/experiment/ExperimentManager.ts
+++ b/packages/client/src/experiment/ExperimentManager.ts
@@ -626,7 +626,8 @@ export class ExperimentManager {
     if (includeItemResults) {
       for (let index = 0; index < itemResults.length; index++) {
         const result = itemResults[index];
-        const originalItem = originalData[index];
+        // failed items have no result, so positions differ from the original data
+        const originalItem = result.item ?? originalData[index];
 
         output += `\n${index + 1}. Item ${index + 1}:\n`;
 
-- 
2.43.0


From 484e56adfb378315184d87331392b4c1a3667d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:10 +0000
Subject: [PATCH 07/19] fix: clear the request timeout timer when a request
 fails

---
 .../core/src/api/core/fetcher/makeRequest.ts  | 29 ++++++++++---------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/packages/core/src/api/core/fetcher/makeRequest.ts b/packages/core/src/api/core/fetcher/makeRequest.ts
index f6859af..108f0fa 100644
--- a/packages/core/src/api/core/fetcher/makeRequest.ts
+++ b/packages/core/src/api/core/fetcher/makeRequest.ts
@@ -26,19 +26,20 @@ export const makeRequest = async (
     signals.push(abortSignal);
   }
   let newSignals = anySignal(signals);
-  const response = await fetchFn(url, {
-    method: method,
-    headers,
-    body: requestBody,
-    signal: newSignals,
-    credentials: withCredentials ? "include" : undefined,
-    // @ts-ignore
-    duplex,
-  });
-
-  if (timeoutAbortId != null) {
-    clearTimeout(timeoutAbortId);
+  try {
+    return await fetchFn(url, {
+      method: method,
+      headers,
+      body: requestBody,
+      signal: newSignals,
+      credentials: withCredentials ? "include" : undefined,
+      // @ts-ignore
+      duplex,
+    });
+  } finally {
+    // Also when the request fails: a pending timer keeps the process alive
+    if (timeoutAbortId != null) {
+      clearTimeout(timeoutAbortId);
+    }
   }
-
-  return response;
 };
-- 
2.43.0


From 57b405904584fc4491f2ea8c4db03c48b606276c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:21 +0000
Subject: [PATCH 08/19] fix: report request timeouts as LangfuseAPITimeoutError

---
 packages/core/src/api/core/fetcher/Fetcher.ts | 7 ++++++-
 packages/core/src/api/core/fetcher/signals.ts | 2 +-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/packages/core/src/api/core/fetcher/Fetcher.ts b/packages/core/src/api/core/fetcher/Fetcher.ts
index a74add3..89f8d70 100644
--- a/packages/core/src/api/core/fetcher/Fetcher.ts
+++ b/packages/core/src/api/core/fetcher/Fetcher.ts
@@ -12,6 +12,7 @@ import {
   unknownRawResponse,
 } from "./RawResponse.js";
 import { requestWithRetries } from "./requestWithRetries.js";
+import { TIMEOUT } from "./signals.js";
 import { Supplier } from "./Supplier.js";
 
 export type FetchFunction = <R = unknown>(
@@ -152,7 +153,11 @@ export async function fetcherImpl<R = unknown>(
         },
         rawResponse: abortRawResponse,
       };
-    } else if (error instanceof Error && error.name === "AbortError") {
+    } else if (
+      // fetch rejects with the abort reason of the timeout signal
+      error === TIMEOUT ||
+      (error instanceof Error && error.name === "AbortError")
+    ) {
       return {
         ok: false,
         error: {
diff --git a/packages/core/src/api/core/fetcher/signals.ts b/packages/core/src/api/core/fetcher/signals.ts
index 0cd3298..9b241b9 100644
--- a/packages/core/src/api/core/fetcher/signals.ts
+++ b/packages/core/src/api/core/fetcher/signals.ts
@@ -1,4 +1,4 @@
-const TIMEOUT = "timeout";
+export const TIMEOUT = "timeout";
 
 export function getTimeoutSignal(timeoutMs: number): {
   signal: AbortSignal;
-- 
2.43.0


From 5750751c70da92ee68f3d02e117a55fcd2eb8b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:12 +0000
Subject: [PATCH 09/19] fix: do not fail OpenAI calls answered without choices

---
 packages/openai/src/parseOpenAI.ts | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/packages/openai/src/parseOpenAI.ts b/packages/openai/src/parseOpenAI.ts
index c60aac3..0549a7b 100644
--- a/packages/openai/src/parseOpenAI.ts
+++ b/packages/openai/src/parseOpenAI.ts
@@ -94,9 +94,12 @@ export const parseCompletionOutput = (res: unknown): unknown => {
     return "";
   }
 
-  return "message" in res.choices[0]
-    ? res.choices[0].message
-    : (res.choices[0].text ?? "");
+  const choice = res.choices[0];
+  if (!choice) {
+    return "";
+  }
+
+  return "message" in choice ? choice.message : (choice.text ?? "");
 };
 
 export const parseUsageDetails = (
-- 
2.43.0


From ffcd4b6e154bb1b3dfb5a15633909d5752a72c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:32 +0000
Subject: [PATCH 10/19] fix: end the generation of an OpenAI stream that fails
 or is not consumed to its end

---
 packages/openai/src/traceMethod.ts | 99 ++++++++++++++++--------------
 1 file changed, 53 insertions(+), 46 deletions(-)

diff --git a/packages/openai/src/traceMethod.ts b/packages/openai/src/traceMethod.ts
index bafe35c..d248ccb 100644
--- a/packages/openai/src/traceMethod.ts
+++ b/packages/openai/src/traceMethod.ts
@@ -201,61 +201,68 @@ function wrapAsyncIterable<R>(
     let usageDetails: Record<string, number> | undefined = undefined;
     let output: unknown = null;
 
-    for await (const rawChunk of response as AsyncIterable<unknown>) {
-      completionStartTime = completionStartTime ?? new Date();
+    try {
+      for await (const rawChunk of response as AsyncIterable<unknown>) {
+        completionStartTime = completionStartTime ?? new Date();
 
-      // Handle Response API chunks
-      if (typeof rawChunk === "object" && rawChunk && "response" in rawChunk) {
-        const result = rawChunk["response"];
-        output = parseCompletionOutput(result);
-        usageDetails = parseUsageDetailsFromResponse(result);
+        // Handle Response API chunks
+        if (typeof rawChunk === "object" && rawChunk && "response" in rawChunk) {
+          const result = rawChunk["response"];
+          output = parseCompletionOutput(result);
+          usageDetails = parseUsageDetailsFromResponse(result);
 
-        const {
-          model: modelFromResponse,
-          modelParameters: modelParametersFromResponse,
-          metadata: metadataFromResponse,
-        } = parseModelDataFromResponse(result);
+          const {
+            model: modelFromResponse,
+            modelParameters: modelParametersFromResponse,
+            metadata: metadataFromResponse,
+          } = parseModelDataFromResponse(result);
 
-        generation.update({
-          model: modelFromResponse,
-          modelParameters: modelParametersFromResponse,
-          metadata: metadataFromResponse,
-        });
-      }
+          generation.update({
+            model: modelFromResponse,
+            modelParameters: modelParametersFromResponse,
+            metadata: metadataFromResponse,
+          });
+        }
 
-      if (
-        typeof rawChunk === "object" &&
-        rawChunk != null &&
-        "usage" in rawChunk
-      ) {
-        usage = rawChunk.usage as OpenAI.CompletionUsage | null;
-      }
+        if (
+          typeof rawChunk === "object" &&
+          rawChunk != null &&
+          "usage" in rawChunk
+        ) {
+          usage = rawChunk.usage as OpenAI.CompletionUsage | null;
+        }
 
-      const processedChunk = parseChunk(rawChunk);
+        const processedChunk = parseChunk(rawChunk);
 
-      if (!processedChunk.isToolCall) {
-        textChunks.push(processedChunk.data);
-      } else {
-        toolCallChunks.push(processedChunk.data);
-      }
+        if (!processedChunk.isToolCall) {
+          textChunks.push(processedChunk.data);
+        } else {
+          toolCallChunks.push(processedChunk.data);
+        }
 
-      yield rawChunk;
-    }
+        yield rawChunk;
+      }
+    } catch (error) {
+      generation.update({ statusMessage: String(error), level: "ERROR" });
 
-    output =
-      output ??
-      (toolCallChunks.length > 0
-        ? getToolCallOutput(toolCallChunks)
-        : textChunks.join(""));
+      throw error;
+    } finally {
+      // Also when the stream fails or the consumer stops early
+      output =
+        output ??
+        (toolCallChunks.length > 0
+          ? getToolCallOutput(toolCallChunks)
+          : textChunks.join(""));
 
-    generation
-      .update({
-        output,
-        completionStartTime,
-        usageDetails:
-          usageDetails ?? (usage ? parseUsageDetails(usage) : undefined),
-      })
-      .end();
+      generation
+        .update({
+          output,
+          completionStartTime,
+          usageDetails:
+            usageDetails ?? (usage ? parseUsageDetails(usage) : undefined),
+        })
+        .end();
+    }
   }
 
   return tracedOutputGenerator() as R;
-- 
2.43.0


From deb23369a53774f63f3bcbfc767e9866255e7e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:36 +0000
Subject: [PATCH 11/19] fix: keep parallel tool calls of an OpenAI stream apart
 and ignore empty tool call lists

---
 packages/openai/src/parseOpenAI.ts | 27 ++++++++++++---------------
 packages/openai/src/traceMethod.ts |  2 +-
 2 files changed, 13 insertions(+), 16 deletions(-)

diff --git a/packages/openai/src/parseOpenAI.ts b/packages/openai/src/parseOpenAI.ts
index 0549a7b..361bc86 100644
--- a/packages/openai/src/parseOpenAI.ts
+++ b/packages/openai/src/parseOpenAI.ts
@@ -206,7 +206,7 @@ export const parseChunk = (
   | { isToolCall: false; data: string }
   | {
       isToolCall: true;
-      data: OpenAI.Chat.Completions.ChatCompletionChunk.Choice.Delta.ToolCall;
+      data: OpenAI.Chat.Completions.ChatCompletionChunk.Choice.Delta.ToolCall[];
     } => {
   let isToolCall = false;
   const _chunk = rawChunk as
@@ -218,11 +218,12 @@ export const parseChunk = (
     if (
       "delta" in chunkData &&
       "tool_calls" in chunkData.delta &&
-      Array.isArray(chunkData.delta.tool_calls)
+      Array.isArray(chunkData.delta.tool_calls) &&
+      chunkData.delta.tool_calls.length > 0
     ) {
       isToolCall = true;
 
-      return { isToolCall, data: chunkData.delta.tool_calls[0] };
+      return { isToolCall, data: chunkData.delta.tool_calls };
     }
     if ("delta" in chunkData) {
       return { isToolCall, data: chunkData.delta?.content || "" };
@@ -265,23 +266,19 @@ export const getToolCallOutput = (
     };
   }[];
 } => {
-  let name = "";
-  let toolArguments = "";
+  // Chunks of parallel tool calls are told apart by their index
+  const toolCalls = new Map<number, { name: string; arguments: string }>();
 
   for (const toolCall of toolCallChunks) {
-    name = toolCall.function?.name || name;
-    toolArguments += toolCall.function?.arguments || "";
+    const call = toolCalls.get(toolCall.index) ?? { name: "", arguments: "" };
+
+    call.name = toolCall.function?.name || call.name;
+    call.arguments += toolCall.function?.arguments || "";
+    toolCalls.set(toolCall.index, call);
   }
 
   return {
-    tool_calls: [
-      {
-        function: {
-          name,
-          arguments: toolArguments,
-        },
-      },
-    ],
+    tool_calls: [...toolCalls.values()].map((call) => ({ function: call })),
   };
 };
 
diff --git a/packages/openai/src/traceMethod.ts b/packages/openai/src/traceMethod.ts
index d248ccb..e9dc94a 100644
--- a/packages/openai/src/traceMethod.ts
+++ b/packages/openai/src/traceMethod.ts
@@ -237,7 +237,7 @@ function wrapAsyncIterable<R>(
         if (!processedChunk.isToolCall) {
           textChunks.push(processedChunk.data);
         } else {
-          toolCallChunks.push(processedChunk.data);
+          toolCallChunks.push(...processedChunk.data);
         }
 
         yield rawChunk;
-- 
2.43.0


From b1a9f3ffc8cd0b2f2d7e0712dd2b4f6ed2ff3427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:04 +0000
Subject: [PATCH 12/19] fix: end LangChain generations that returned no
 generation

---
 packages/langchain/src/CallbackHandler.ts | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/packages/langchain/src/CallbackHandler.ts b/packages/langchain/src/CallbackHandler.ts
index 6c0ffa1..dbf4b14 100644
--- a/packages/langchain/src/CallbackHandler.ts
+++ b/packages/langchain/src/CallbackHandler.ts
@@ -601,10 +601,8 @@ export class CallbackHandler extends BaseCallbackHandler {
     try {
       this.logger.debug(`LLM end with ID: ${runId}`);
 
-      const lastResponse =
-        output.generations[output.generations.length - 1][
-          output.generations[output.generations.length - 1].length - 1
-        ];
+      // Undefined if the model returned no generation
+      const lastResponse = output.generations.at(-1)?.at(-1);
       const llmUsage =
         this.extractUsageMetadata(lastResponse) ??
         output.llmOutput?.["tokenUsage"] ??
@@ -650,11 +648,11 @@ export class CallbackHandler extends BaseCallbackHandler {
       }
 
       const extractedOutput =
-        "message" in lastResponse
+        lastResponse && "message" in lastResponse
           ? this.extractChatMessageContent(
               lastResponse["message"] as BaseMessage,
             )
-          : lastResponse.text;
+          : lastResponse?.text;
 
       this.handleOtelSpanEnd({
         runId,
@@ -904,10 +902,11 @@ export class CallbackHandler extends BaseCallbackHandler {
 
   /** Not all models supports tokenUsage in llmOutput, can use AIMessage.usage_metadata instead */
   private extractUsageMetadata(
-    generation: Generation,
+    generation: Generation | undefined,
   ): UsageMetadata | undefined {
     try {
       const usageMetadata =
+        generation &&
         "message" in generation &&
         (generation["message"] instanceof AIMessage ||
           generation["message"] instanceof AIMessageChunk)
-- 
2.43.0


From e49c43bbccedce3bc53db80d82cba71ed792dda1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:04 +0000
Subject: [PATCH 13/19] fix: end LangChain runs that failed with a null or
 undefined error

---
 packages/langchain/src/CallbackHandler.ts | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/packages/langchain/src/CallbackHandler.ts b/packages/langchain/src/CallbackHandler.ts
index dbf4b14..d4c3c82 100644
--- a/packages/langchain/src/CallbackHandler.ts
+++ b/packages/langchain/src/CallbackHandler.ts
@@ -264,7 +264,7 @@ export class CallbackHandler extends BaseCallbackHandler {
         runId,
         attributes: {
           level: "ERROR",
-          statusMessage: err.toString() + azureRefusalError,
+          statusMessage: String(err) + azureRefusalError,
         },
       });
     } catch (e) {
@@ -546,7 +546,7 @@ export class CallbackHandler extends BaseCallbackHandler {
         runId,
         attributes: {
           level: "ERROR",
-          statusMessage: err.toString(),
+          statusMessage: String(err),
         },
       });
     } catch (e) {
@@ -584,7 +584,7 @@ export class CallbackHandler extends BaseCallbackHandler {
         runId,
         attributes: {
           level: "ERROR",
-          statusMessage: err.toString(),
+          statusMessage: String(err),
         },
       });
     } catch (e) {
@@ -694,7 +694,7 @@ export class CallbackHandler extends BaseCallbackHandler {
         runId,
         attributes: {
           level: "ERROR",
-          statusMessage: err.toString() + azureRefusalError,
+          statusMessage: String(err) + azureRefusalError,
         },
       });
     } catch (e) {
@@ -852,7 +852,7 @@ export class CallbackHandler extends BaseCallbackHandler {
     // This would not be logged as the error message is only a generic message
     // that there has been a refusal
     let azureRefusalError = "";
-    if (typeof err == "object" && "error" in err) {
+    if (err && typeof err == "object" && "error" in err) {
       try {
         azureRefusalError =
           "\n\nError details:\n" + JSON.stringify(err["error"], null, 2);
-- 
2.43.0


From 5e2a8ab976fa5946c378aaa5dc4208c83dead0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:04 +0000
Subject: [PATCH 14/19] fix: do not reject unhandled when a LangChain
 generation cannot be started

---
 packages/langchain/src/CallbackHandler.ts | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/packages/langchain/src/CallbackHandler.ts b/packages/langchain/src/CallbackHandler.ts
index d4c3c82..b6d2312 100644
--- a/packages/langchain/src/CallbackHandler.ts
+++ b/packages/langchain/src/CallbackHandler.ts
@@ -316,8 +316,8 @@ export class CallbackHandler extends BaseCallbackHandler {
     let extractedModelName: string | undefined;
     if (extraParams) {
       const invocationParamsModelName = (
-        extraParams.invocation_params as InvocationParams
-      ).model;
+        extraParams.invocation_params as InvocationParams | undefined
+      )?.model;
       const metadataModelName =
         metadata && "ls_model_name" in metadata
           ? (metadata["ls_model_name"] as string)
@@ -375,7 +375,7 @@ export class CallbackHandler extends BaseCallbackHandler {
         message.map((m) => this.extractChatMessageContent(m)),
       );
 
-      this.handleGenerationStart(
+      await this.handleGenerationStart(
         llm,
         prompts,
         runId,
@@ -444,7 +444,7 @@ export class CallbackHandler extends BaseCallbackHandler {
     try {
       this.logger.debug(`LLM start with ID: ${runId}`);
 
-      this.handleGenerationStart(
+      await this.handleGenerationStart(
         llm,
         prompts,
         runId,
-- 
2.43.0


From 17c2a1192fa73e9968a6a147d22d470318f3abdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:04 +0000
Subject: [PATCH 15/19] fix: forget failed LangChain runs

---
 packages/langchain/src/CallbackHandler.ts | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/packages/langchain/src/CallbackHandler.ts b/packages/langchain/src/CallbackHandler.ts
index b6d2312..b99689d 100644
--- a/packages/langchain/src/CallbackHandler.ts
+++ b/packages/langchain/src/CallbackHandler.ts
@@ -267,6 +267,7 @@ export class CallbackHandler extends BaseCallbackHandler {
           statusMessage: String(err) + azureRefusalError,
         },
       });
+      this.deregisterLangfusePrompt(runId);
     } catch (e) {
       this.logger.debug(e instanceof Error ? e.message : String(e));
     }
@@ -697,6 +698,10 @@ export class CallbackHandler extends BaseCallbackHandler {
           statusMessage: String(err) + azureRefusalError,
         },
       });
+
+      if (runId in this.completionStartTimes) {
+        delete this.completionStartTimes[runId];
+      }
     } catch (e) {
       this.logger.debug(e instanceof Error ? e.message : String(e));
     }
-- 
2.43.0


From e12fbd4c4f66cdf531b86757d6796faad6b689e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:01 +0000
Subject: [PATCH 16/19] fix: keep the observation of a LangChain agent's chain
 when the agent acts

---
 packages/langchain/src/CallbackHandler.ts | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/packages/langchain/src/CallbackHandler.ts b/packages/langchain/src/CallbackHandler.ts
index b99689d..8e3c357 100644
--- a/packages/langchain/src/CallbackHandler.ts
+++ b/packages/langchain/src/CallbackHandler.ts
@@ -218,6 +218,21 @@ export class CallbackHandler extends BaseCallbackHandler {
   ): Promise<void> {
     try {
       this.logger.debug(`Agent action ${action.tool} with ID: ${runId}`);
+
+      // Agent callbacks carry the run ID of the agent's chain, whose
+      // observation has to stay registered until the chain ends
+      const run = this.runMap.get(runId);
+      if (run) {
+        run
+          .startObservation(action.tool, {
+            version: this.version,
+            input: action,
+          })
+          .end();
+
+        return;
+      }
+
       this.startAndRegisterOtelSpan({
         runId,
         parentRunId,
@@ -240,10 +255,7 @@ export class CallbackHandler extends BaseCallbackHandler {
     try {
       this.logger.debug(`Agent finish with ID: ${runId}`);
 
-      this.handleOtelSpanEnd({
-        runId,
-        attributes: { output: action },
-      });
+      this.runMap.get(runId)?.update({ output: action });
     } catch (e) {
       this.logger.debug(e instanceof Error ? e.message : String(e));
     }
-- 
2.43.0


From dc57111e0c896649ce5b9309ca5544975e6104c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:58:17 +0000
Subject: [PATCH 17/19] fix: keep thrown values that have no string form

---
 .../src/experiment/ExperimentManager.ts       |  3 ++-
 packages/core/src/utils.ts                    | 12 +++++++++++
 packages/langchain/src/CallbackHandler.ts     | 20 ++++++++++---------
 packages/openai/src/traceMethod.ts            |  7 ++++---
 packages/otel/src/span-processor.ts           |  3 ++-
 packages/tracing/src/index.ts                 | 14 ++++++++-----
 6 files changed, 40 insertions(+), 19 deletions(-)

diff --git a/packages/client/src/experiment/ExperimentManager.ts b/packages/client/src/experiment/ExperimentManager.ts
index 461d93e..a35bc7a 100644
--- a/packages/client/src/experiment/ExperimentManager.ts
+++ b/packages/client/src/experiment/ExperimentManager.ts
@@ -2,6 +2,7 @@ import {
   DatasetItem,
   getGlobalLogger,
   propagateAttributes,
+  safeToString,
   serializeValue,
   createExperimentId,
   createExperimentItemId,
@@ -226,7 +227,7 @@ export class ExperimentManager {
           });
         } catch (reason) {
           const errorMessage =
-            reason instanceof Error ? reason.message : String(reason);
+            reason instanceof Error ? reason.message : safeToString(reason);
           this.logger.error(
             `Task failed with error: ${errorMessage}. Skipping item.`,
           );
diff --git a/packages/core/src/utils.ts b/packages/core/src/utils.ts
index 4248057..148518d 100644
--- a/packages/core/src/utils.ts
+++ b/packages/core/src/utils.ts
@@ -130,3 +130,15 @@ export function serializeValue(value: any): string | undefined {
 
   return JSON.stringify(value);
 }
+
+/**
+ * Like String(value), but never throws: anything can be thrown, also values
+ * that cannot be converted (e.g. objects without a prototype).
+ */
+export function safeToString(value: unknown): string {
+  try {
+    return String(value);
+  } catch {
+    return "<unprintable value>";
+  }
+}
diff --git a/packages/langchain/src/CallbackHandler.ts b/packages/langchain/src/CallbackHandler.ts
index 8e3c357..6e5f6fe 100644
--- a/packages/langchain/src/CallbackHandler.ts
+++ b/packages/langchain/src/CallbackHandler.ts
@@ -12,7 +12,7 @@ import {
 } from "@langchain/core/messages";
 import type { Generation, LLMResult } from "@langchain/core/outputs";
 import type { ChainValues } from "@langchain/core/utils/types";
-import { getGlobalLogger } from "@langfuse/core";
+import { getGlobalLogger, safeToString } from "@langfuse/core";
 import {
   startActiveObservation,
   LangfuseGeneration,
@@ -268,7 +268,7 @@ export class CallbackHandler extends BaseCallbackHandler {
     parentRunId?: string | undefined,
   ): Promise<void> {
     try {
-      this.logger.debug(`Chain error: ${err} with ID: ${runId}`);
+      this.logger.debug(`Chain error: ${safeToString(err)} with ID: ${runId}`);
 
       const azureRefusalError = this.parseAzureRefusalError(err);
 
@@ -276,7 +276,7 @@ export class CallbackHandler extends BaseCallbackHandler {
         runId,
         attributes: {
           level: "ERROR",
-          statusMessage: String(err) + azureRefusalError,
+          statusMessage: safeToString(err) + azureRefusalError,
         },
       });
       this.deregisterLangfusePrompt(runId);
@@ -554,12 +554,14 @@ export class CallbackHandler extends BaseCallbackHandler {
     parentRunId?: string | undefined,
   ): Promise<void> {
     try {
-      this.logger.debug(`Retriever error: ${err} with ID: ${runId}`);
+      this.logger.debug(
+        `Retriever error: ${safeToString(err)} with ID: ${runId}`,
+      );
       this.handleOtelSpanEnd({
         runId,
         attributes: {
           level: "ERROR",
-          statusMessage: String(err),
+          statusMessage: safeToString(err),
         },
       });
     } catch (e) {
@@ -591,13 +593,13 @@ export class CallbackHandler extends BaseCallbackHandler {
     parentRunId?: string | undefined,
   ): Promise<void> {
     try {
-      this.logger.debug(`Tool error ${err} with ID: ${runId}`);
+      this.logger.debug(`Tool error ${safeToString(err)} with ID: ${runId}`);
 
       this.handleOtelSpanEnd({
         runId,
         attributes: {
           level: "ERROR",
-          statusMessage: String(err),
+          statusMessage: safeToString(err),
         },
       });
     } catch (e) {
@@ -696,7 +698,7 @@ export class CallbackHandler extends BaseCallbackHandler {
     parentRunId?: string | undefined,
   ): Promise<void> {
     try {
-      this.logger.debug(`LLM error ${err} with ID: ${runId}`);
+      this.logger.debug(`LLM error ${safeToString(err)} with ID: ${runId}`);
 
       // Azure has the refusal status for harmful messages in the error property
       // This would not be logged as the error message is only a generic message
@@ -707,7 +709,7 @@ export class CallbackHandler extends BaseCallbackHandler {
         runId,
         attributes: {
           level: "ERROR",
-          statusMessage: String(err) + azureRefusalError,
+          statusMessage: safeToString(err) + azureRefusalError,
         },
       });
 
diff --git a/packages/openai/src/traceMethod.ts b/packages/openai/src/traceMethod.ts
index e9dc94a..2884114 100644
--- a/packages/openai/src/traceMethod.ts
+++ b/packages/openai/src/traceMethod.ts
@@ -1,3 +1,4 @@
+import { safeToString } from "@langfuse/core";
 import {
   LangfuseGeneration,
   startObservation,
@@ -134,7 +135,7 @@ const wrapMethod = <T extends GenericMethod>(
             .catch((err) => {
               generation
                 .update({
-                  statusMessage: String(err),
+                  statusMessage: safeToString(err),
                   level: "ERROR",
                   costDetails: {
                     input: 0,
@@ -154,7 +155,7 @@ const wrapMethod = <T extends GenericMethod>(
       } catch (error) {
         generation
           .update({
-            statusMessage: String(error),
+            statusMessage: safeToString(error),
             level: "ERROR",
             costDetails: {
               input: 0,
@@ -243,7 +244,7 @@ function wrapAsyncIterable<R>(
         yield rawChunk;
       }
     } catch (error) {
-      generation.update({ statusMessage: String(error), level: "ERROR" });
+      generation.update({ statusMessage: safeToString(error), level: "ERROR" });
 
       throw error;
     } finally {
diff --git a/packages/otel/src/span-processor.ts b/packages/otel/src/span-processor.ts
index c6221f6..c207f73 100644
--- a/packages/otel/src/span-processor.ts
+++ b/packages/otel/src/span-processor.ts
@@ -9,6 +9,7 @@ import {
   base64Encode,
   getLangfuseTraceIdFromBaggage,
   getPropagatedAttributesFromContext,
+  safeToString,
 } from "@langfuse/core";
 import { Context } from "@opentelemetry/api";
 import { hrTimeToMilliseconds } from "@opentelemetry/core";
@@ -576,7 +577,7 @@ export class LangfuseSpanProcessor implements SpanProcessor {
       return await this.mask({ data });
     } catch (err) {
       this.logger.warn(
-        `Applying mask function failed due to error, fully masking property. Error: ${err}`,
+        `Applying mask function failed due to error, fully masking property. Error: ${safeToString(err)}`,
       );
 
       return "<fully masked due to failed mask function>";
diff --git a/packages/tracing/src/index.ts b/packages/tracing/src/index.ts
index c4c2762..9137e5f 100644
--- a/packages/tracing/src/index.ts
+++ b/packages/tracing/src/index.ts
@@ -1,6 +1,7 @@
 import {
   getGlobalLogger,
   LangfuseOtelSpanAttributes,
+  safeToString,
   setLangfuseTraceIdInBaggage,
 } from "@langfuse/core";
 import {
@@ -1500,9 +1501,12 @@ export function observe<T extends (...args: any[]) => any>(
             observation.update({
               level: "ERROR",
               statusMessage:
-                (error instanceof Error ? error.message : String(error)) ||
-                "Function threw an error",
-              output: captureOutput ? { error: String(error) } : undefined,
+                (error instanceof Error
+                  ? error.message
+                  : safeToString(error)) || "Function threw an error",
+              output: captureOutput
+                ? { error: safeToString(error) }
+                : undefined,
             });
 
             if (options?.endOnExit !== false) {
@@ -1528,9 +1532,9 @@ export function observe<T extends (...args: any[]) => any>(
       observation.update({
         level: "ERROR",
         statusMessage:
-          (error instanceof Error ? error.message : String(error)) ||
+          (error instanceof Error ? error.message : safeToString(error)) ||
           "Function threw an error",
-        output: captureOutput ? { error: String(error) } : undefined,
+        output: captureOutput ? { error: safeToString(error) } : undefined,
       });
 
       if (options?.endOnExit !== false) {
-- 
2.43.0


From 27ed9580386c152534c0ab483379197830af4cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:59 +0000
Subject: [PATCH 18/19] fix: record falsy arguments of observed functions as
 input

---
 packages/tracing/src/index.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/tracing/src/index.ts b/packages/tracing/src/index.ts
index 9137e5f..522a2f7 100644
--- a/packages/tracing/src/index.ts
+++ b/packages/tracing/src/index.ts
@@ -1458,7 +1458,7 @@ export function observe<T extends (...args: any[]) => any>(
     // Create the appropriate observation type
     const observation = startObservation(
       name,
-      inputData ? { input: inputData } : {},
+      inputData !== undefined ? { input: inputData } : {},
       {
         asType: asType as "span", // typecast necessary as ts cannot narrow down type
         parentSpanContext,
-- 
2.43.0


From b2dd3531e92758dce043124623d4f08d8eaad9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:59 +0000
Subject: [PATCH 19/19] fix: keep empty metadata values

---
 packages/tracing/src/attributes.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/tracing/src/attributes.ts b/packages/tracing/src/attributes.ts
index 66a00b9..a05dbdf 100644
--- a/packages/tracing/src/attributes.ts
+++ b/packages/tracing/src/attributes.ts
@@ -133,13 +133,13 @@ function _flattenAndSerializeMetadata(
 
   if (typeof metadata !== "object" || Array.isArray(metadata)) {
     const serialized = _serialize(metadata);
-    if (serialized) {
+    if (serialized != null) {
       metadataAttributes[prefix] = serialized;
     }
   } else {
     for (const [key, value] of Object.entries(metadata)) {
       const serialized = typeof value === "string" ? value : _serialize(value);
-      if (serialized) {
+      if (serialized != null) {
         metadataAttributes[`${prefix}.${key}`] = serialized;
       }
     }
-- 
2.43.0

