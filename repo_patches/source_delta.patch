From 3ed05c81f474e4e64fa2e724710238d52b254aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:47 +0000
Subject: [PATCH 01/35] fix: mask flattened metadata attributes before export

---
 packages/otel/src/span-processor.ts | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/packages/otel/src/span-processor.ts b/packages/otel/src/span-processor.ts
index 67b6020..cb1821a 100644
--- a/packages/otel/src/span-processor.ts
+++ b/packages/otel/src/span-processor.ts
@@ -558,10 +558,13 @@ export class LangfuseSpanProcessor implements SpanProcessor {
     ];
 
     for (const maskCandidate of maskCandidates) {
-      if (maskCandidate in span.attributes) {
-        span.attributes[maskCandidate] = await this.applyMask(
-          span.attributes[maskCandidate],
-        );
+      // Metadata objects are flattened into one attribute per key
+      const attributeKeys = Object.keys(span.attributes).filter(
+        (key) => key === maskCandidate || key.startsWith(`${maskCandidate}.`),
+      );
+
+      for (const key of attributeKeys) {
+        span.attributes[key] = await this.applyMask(span.attributes[key]);
       }
     }
   }
-- 
2.43.0


From e25d864c73d827f2b62191691b9bf62570d7b022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:21 +0000
Subject: [PATCH 02/35] fix: replace each embedded data URI by its own media
 tag

---
 packages/otel/src/MediaService.ts | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/packages/otel/src/MediaService.ts b/packages/otel/src/MediaService.ts
index 79ae77e..05ed96e 100644
--- a/packages/otel/src/MediaService.ts
+++ b/packages/otel/src/MediaService.ts
@@ -53,8 +53,8 @@ export class MediaService {
         }
 
         // Find media base64 data URI
-        let mediaReplacedValue = value;
-        const regex = /data:[^;]+;base64,[A-Za-z0-9+/]+=*/g;
+        const mediaTagByDataUri = new Map<string, string>();
+        const regex = /data:[^\s;,:"\\]+;base64,[A-Za-z0-9+/]+=*/g;
         const foundMedia = [...new Set(value.match(regex) ?? [])];
 
         if (foundMedia.length === 0) continue;
@@ -86,14 +86,14 @@ export class MediaService {
                 : "metadata", // todo: make more robust
           });
 
-          // Replace original attribute with media escaped attribute
-          mediaReplacedValue = mediaReplacedValue.replaceAll(
-            mediaDataUri,
-            langfuseMediaTag,
-          );
+          mediaTagByDataUri.set(mediaDataUri, langfuseMediaTag);
         }
 
-        span.attributes[key] = mediaReplacedValue;
+        // Replace original attribute with media escaped attribute
+        span.attributes[key] = value.replace(
+          regex,
+          (mediaDataUri) => mediaTagByDataUri.get(mediaDataUri) ?? mediaDataUri,
+        );
       }
     }
 
-- 
2.43.0


From 55f63be9a2dc733639db9a025bc9f3ecbd412ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:55 +0000
Subject: [PATCH 03/35] fix: replace AI SDK file parts individually when
 extracting media

---
 packages/otel/src/MediaService.ts | 69 +++++++++++++++++++------------
 1 file changed, 43 insertions(+), 26 deletions(-)

diff --git a/packages/otel/src/MediaService.ts b/packages/otel/src/MediaService.ts
index 05ed96e..65249fb 100644
--- a/packages/otel/src/MediaService.ts
+++ b/packages/otel/src/MediaService.ts
@@ -108,20 +108,20 @@ export class MediaService {
           continue;
         }
 
-        // Find media base64 data URI
-        let mediaReplacedValue = value;
+        let hasReplacedMedia = false;
 
         try {
           const parsed = JSON.parse(value);
 
           if (Array.isArray(parsed)) {
             for (const message of parsed) {
-              if (Array.isArray(message["content"])) {
+              if (Array.isArray(message?.["content"])) {
                 const contentParts = message["content"];
 
                 for (const part of contentParts) {
-                  if (part["type"] === "file") {
+                  if (part?.["type"] === "file") {
                     let base64Content: string | null = null;
+                    let contentKey = "data";
                     const mediaType = part["mediaType"];
                     // FilePart
                     if (
@@ -137,26 +137,33 @@ export class MediaService {
                       !part["image"].startsWith("http") // skip URLs
                     ) {
                       base64Content = part["image"];
+                      contentKey = "image";
                     }
 
                     if (!base64Content || typeof mediaType !== "string") {
                       continue;
                     }
 
-                    mediaReplacedValue = await this.replaceBytesMedia({
+                    const langfuseMediaTag = await this.processBytesMedia({
                       span,
-                      mediaReplacedValue,
                       base64Content,
                       contentType: mediaType,
                       field: "input",
                     });
+
+                    if (langfuseMediaTag) {
+                      part[contentKey] = langfuseMediaTag;
+                      hasReplacedMedia = true;
+                    }
                   }
                 }
               }
             }
           }
 
-          span.attributes[mediaAttribute] = mediaReplacedValue;
+          if (hasReplacedMedia) {
+            span.attributes[mediaAttribute] = JSON.stringify(parsed);
+          }
         } catch (err) {
           this.logger.warn(
             `Failed to handle media for AI SDK attribute ${mediaAttribute} for span ${span.spanContext().spanId}`,
@@ -179,23 +186,23 @@ export class MediaService {
           continue;
         }
 
-        let mediaReplacedValue = value;
+        let hasReplacedMedia = false;
 
         try {
           const parsed = JSON.parse(value);
 
           if (Array.isArray(parsed)) {
             for (const message of parsed) {
-              if (!Array.isArray(message["parts"])) {
+              if (!Array.isArray(message?.["parts"])) {
                 continue;
               }
 
               for (const part of message["parts"]) {
-                const content = part["content"];
-                const mediaType = part["mime_type"];
+                const content = part?.["content"];
+                const mediaType = part?.["mime_type"];
 
                 if (
-                  part["type"] !== "blob" ||
+                  part?.["type"] !== "blob" ||
                   typeof content !== "string" ||
                   !content ||
                   typeof mediaType !== "string" ||
@@ -210,19 +217,24 @@ export class MediaService {
                   continue;
                 }
 
-                mediaReplacedValue = await this.replaceBytesMedia({
+                const langfuseMediaTag = await this.processBytesMedia({
                   span,
-                  mediaReplacedValue,
                   base64Content: normalizedContent.base64Content,
-                  contentToReplace: content,
                   contentType: mediaType,
                   field,
                 });
+
+                if (langfuseMediaTag) {
+                  part["content"] = langfuseMediaTag;
+                  hasReplacedMedia = true;
+                }
               }
             }
           }
 
-          span.attributes[attribute] = mediaReplacedValue;
+          if (hasReplacedMedia) {
+            span.attributes[attribute] = JSON.stringify(parsed);
+          }
         } catch (err) {
           this.logger.warn(
             `Failed to handle media for AI SDK v7 attribute ${attribute} for span ${span.spanContext().spanId}`,
@@ -233,17 +245,25 @@ export class MediaService {
     }
   }
 
-  private async replaceBytesMedia(params: {
+  private async processBytesMedia(params: {
     span: ReadableSpan;
-    mediaReplacedValue: string;
     base64Content: string;
-    contentToReplace?: string;
     contentType: string;
     field: string;
-  }): Promise<string> {
+  }): Promise<string | null> {
+    let contentBytes: Uint8Array;
+
+    try {
+      contentBytes = base64ToBytes(params.base64Content);
+    } catch (err) {
+      this.logger.warn("Failed to decode media. Skipping media item.", err);
+
+      return null;
+    }
+
     const media = new LangfuseMedia({
       contentType: params.contentType as MediaContentType,
-      contentBytes: base64ToBytes(params.base64Content),
+      contentBytes,
       source: "bytes",
     });
 
@@ -254,7 +274,7 @@ export class MediaService {
         "Failed to create Langfuse media tag. Skipping media item.",
       );
 
-      return params.mediaReplacedValue;
+      return null;
     }
 
     this.scheduleUpload({
@@ -263,10 +283,7 @@ export class MediaService {
       field: params.field,
     });
 
-    return params.mediaReplacedValue.replaceAll(
-      params.contentToReplace ?? params.base64Content,
-      langfuseMediaTag,
-    );
+    return langfuseMediaTag;
   }
 
   private scheduleUpload(params: {
-- 
2.43.0


From e25ed0993d4f7d3caae940e7c3d9f4dae57c63f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:47 +0000
Subject: [PATCH 04/35] fix: reject media reference strings with missing values

---
 packages/client/src/media/index.ts | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/packages/client/src/media/index.ts b/packages/client/src/media/index.ts
index 081741b..d853412 100644
--- a/packages/client/src/media/index.ts
+++ b/packages/client/src/media/index.ts
@@ -205,13 +205,15 @@ export class MediaManager {
     const parsedData: { [key: string]: string } = {};
 
     for (const pair of pairs) {
-      const [key, value] = pair.split("=", 2);
-      parsedData[key] = value;
+      const separatorIndex = pair.indexOf("=");
+      if (separatorIndex === -1) continue;
+
+      parsedData[pair.slice(0, separatorIndex)] = pair.slice(
+        separatorIndex + 1,
+      );
     }
 
-    if (
-      !("type" in parsedData && "id" in parsedData && "source" in parsedData)
-    ) {
+    if (!parsedData["type"] || !parsedData["id"] || !parsedData["source"]) {
       throw new Error("Missing required fields in reference string");
     }
 
-- 
2.43.0


From e116fe1ea05f621cc7ad16863e977a751ead234c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:00 +0000
Subject: [PATCH 05/35] fix: insert resolved media content verbatim

---
 packages/client/src/media/index.ts | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/packages/client/src/media/index.ts b/packages/client/src/media/index.ts
index d853412..b0e22a6 100644
--- a/packages/client/src/media/index.ts
+++ b/packages/client/src/media/index.ts
@@ -140,8 +140,10 @@ export class MediaManager {
           referenceString,
           base64MediaContent,
         ] of referenceStringToMediaContentMap.entries()) {
-          result = result.replaceAll(referenceString, base64MediaContent) as T &
-            string;
+          result = result.replaceAll(
+            referenceString,
+            () => base64MediaContent,
+          ) as T & string;
         }
 
         return result;
-- 
2.43.0


From 24a693f9a93c0f530c4363d745aa4e46517a92fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:38 +0000
Subject: [PATCH 06/35] fix: reject malformed data URIs instead of truncating
 their content

---
 packages/core/src/media.ts | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/packages/core/src/media.ts b/packages/core/src/media.ts
index 6b27144..5c26525 100644
--- a/packages/core/src/media.ts
+++ b/packages/core/src/media.ts
@@ -113,13 +113,19 @@ export class LangfuseMedia {
         throw new Error("Data URI does not start with 'data:'");
       }
 
-      const [header, actualData] = data.slice(5).split(",", 2);
+      const separatorIndex = data.indexOf(",");
+      if (separatorIndex === -1) {
+        throw new Error("Invalid URI");
+      }
+
+      const header = data.slice(5, separatorIndex);
+      const actualData = data.slice(separatorIndex + 1);
       if (!header || !actualData) {
         throw new Error("Invalid URI");
       }
 
       const headerParts = header.split(";");
-      if (!headerParts.includes("base64")) {
+      if (!headerParts.slice(1).includes("base64")) {
         throw new Error("Data is not base64 encoded");
       }
 
-- 
2.43.0


From 2028aab1be6e5a39f008a602c65caa4183606b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:16 +0000
Subject: [PATCH 07/35] fix: keep prompt cache entries of different names apart

---
 packages/client/src/prompt/promptCache.ts | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/packages/client/src/prompt/promptCache.ts b/packages/client/src/prompt/promptCache.ts
index bfae38d..a8851d5 100644
--- a/packages/client/src/prompt/promptCache.ts
+++ b/packages/client/src/prompt/promptCache.ts
@@ -39,6 +39,7 @@ export class LangfusePromptCache {
     label?: string;
   }): string {
     const { name, version, label } = params;
+    // Encoded as a list, so that no name and label can run into each other
     const parts = [name];
 
     if (version !== undefined) {
@@ -49,7 +50,7 @@ export class LangfusePromptCache {
       parts.push("label:production");
     }
 
-    return parts.join("-");
+    return JSON.stringify(parts);
   }
 
   public set(
@@ -86,8 +87,9 @@ export class LangfusePromptCache {
       this._cache.keys(),
     );
 
+    const namePrefix = `[${JSON.stringify(promptName)},`;
     for (const key of this._cache.keys()) {
-      if (key.startsWith(promptName)) {
+      if (key.startsWith(namePrefix)) {
         this._cache.delete(key);
       }
     }
-- 
2.43.0


From 3631b7daaee54c0edf13dd410d225d5047899b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:42 +0000
Subject: [PATCH 08/35] fix: do not cache prompts fetched before an
 invalidation

---
 packages/client/src/prompt/promptCache.ts   | 9 +++++++++
 packages/client/src/prompt/promptManager.ts | 6 +++++-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/packages/client/src/prompt/promptCache.ts b/packages/client/src/prompt/promptCache.ts
index a8851d5..d7f10c4 100644
--- a/packages/client/src/prompt/promptCache.ts
+++ b/packages/client/src/prompt/promptCache.ts
@@ -22,11 +22,18 @@ export class LangfusePromptCache {
   private _cache: Map<string, LangfusePromptCacheItem>;
   private _defaultTtlSeconds: number;
   private _refreshingKeys: Map<string, Promise<void>>;
+  private _invalidations: Map<string, number>;
 
   constructor() {
     this._cache = new Map<string, LangfusePromptCacheItem>();
     this._defaultTtlSeconds = DEFAULT_PROMPT_CACHE_TTL_SECONDS;
     this._refreshingKeys = new Map<string, Promise<void>>();
+    this._invalidations = new Map<string, number>();
+  }
+
+  /** Number of times the entries of a prompt name have been invalidated. */
+  public invalidations(promptName: string): number {
+    return this._invalidations.get(promptName) ?? 0;
   }
 
   public getIncludingExpired(key: string): LangfusePromptCacheItem | null {
@@ -87,6 +94,8 @@ export class LangfusePromptCache {
       this._cache.keys(),
     );
 
+    this._invalidations.set(promptName, this.invalidations(promptName) + 1);
+
     const namePrefix = `[${JSON.stringify(promptName)},`;
     for (const key of this._cache.keys()) {
       if (key.startsWith(namePrefix)) {
diff --git a/packages/client/src/prompt/promptManager.ts b/packages/client/src/prompt/promptManager.ts
index 1d1cb6f..a1dc1f2 100644
--- a/packages/client/src/prompt/promptManager.ts
+++ b/packages/client/src/prompt/promptManager.ts
@@ -431,6 +431,7 @@ export class PromptManager {
         fetchTimeoutMs,
       } = params;
 
+      const invalidations = this.cache.invalidations(name);
       const data = await this.apiClient.prompts.get(
         name,
         {
@@ -450,7 +451,10 @@ export class PromptManager {
         prompt = new TextPromptClient(data);
       }
 
-      this.cache.set(cacheKey, prompt, cacheTtlSeconds);
+      // Do not cache what was requested before an update or delete
+      if (this.cache.invalidations(name) === invalidations) {
+        this.cache.set(cacheKey, prompt, cacheTtlSeconds);
+      }
 
       return prompt;
     } catch (error) {
-- 
2.43.0


From c87b4690f8aeea6cf47eb2539feaedc8ec4fdea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:44 +0000
Subject: [PATCH 09/35] fix: accept null entries in prompt placeholder values

---
 packages/client/src/prompt/promptClients.ts | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/packages/client/src/prompt/promptClients.ts b/packages/client/src/prompt/promptClients.ts
index 8872765..d5b810c 100644
--- a/packages/client/src/prompt/promptClients.ts
+++ b/packages/client/src/prompt/promptClients.ts
@@ -340,7 +340,10 @@ export class ChatPromptClient extends BasePromptClient {
           placeholderValue.length > 0 &&
           placeholderValue.every(
             (msg) =>
-              typeof msg === "object" && "role" in msg && "content" in msg,
+              typeof msg === "object" &&
+              msg !== null &&
+              "role" in msg &&
+              "content" in msg,
           )
         ) {
           messagesWithPlaceholdersReplaced.push(
@@ -430,7 +433,10 @@ export class ChatPromptClient extends BasePromptClient {
           placeholderValue.length > 0 &&
           placeholderValue.every(
             (msg) =>
-              typeof msg === "object" && "role" in msg && "content" in msg,
+              typeof msg === "object" &&
+              msg !== null &&
+              "role" in msg &&
+              "content" in msg,
           )
         ) {
           // Complete placeholder fill-in, replace with it
-- 
2.43.0


From 592f0149988f617f8d8180e7dad350cf522f2d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:41 +0000
Subject: [PATCH 10/35] fix: do not resolve prompt variables to inherited
 object properties

---
 packages/client/src/prompt/promptClients.ts | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/packages/client/src/prompt/promptClients.ts b/packages/client/src/prompt/promptClients.ts
index d5b810c..bdcc7b5 100644
--- a/packages/client/src/prompt/promptClients.ts
+++ b/packages/client/src/prompt/promptClients.ts
@@ -16,6 +16,11 @@ mustache.escape = function (text) {
   return text;
 };
 
+// Only the given values, so that a name like "constructor" does not resolve to an inherited property
+function ownValues<T>(values?: Record<string, T>): Record<string, T> {
+  return Object.assign(Object.create(null), values);
+}
+
 /**
  * Base class for all prompt clients.
  *
@@ -216,7 +221,7 @@ export class TextPromptClient extends BasePromptClient {
     variables?: Record<string, string>,
     _placeholders?: Record<string, any>,
   ): string {
-    return mustache.render(this.promptResponse.prompt, variables ?? {});
+    return mustache.render(this.promptResponse.prompt, ownValues(variables));
   }
 
   /**
@@ -330,7 +335,7 @@ export class ChatPromptClient extends BasePromptClient {
   ): (ChatMessageOrPlaceholder | any)[] {
     const messagesWithPlaceholdersReplaced: (ChatMessageOrPlaceholder | any)[] =
       [];
-    const placeholderValues = placeholders ?? {};
+    const placeholderValues = ownValues<any>(placeholders);
 
     for (const item of this.prompt) {
       if ("type" in item && item.type === ChatMessageType.Placeholder) {
@@ -387,7 +392,7 @@ export class ChatPromptClient extends BasePromptClient {
       ) {
         return {
           ...item,
-          content: mustache.render(item.content, variables ?? {}),
+          content: mustache.render(item.content, ownValues(variables)),
         };
       } else {
         // Return placeholder or stringified value as-is
@@ -423,7 +428,7 @@ export class ChatPromptClient extends BasePromptClient {
       | LangchainMessagesPlaceholder
       | any
     )[] = [];
-    const placeholderValues = options?.placeholders ?? {};
+    const placeholderValues = ownValues<any>(options?.placeholders);
 
     for (const item of this.prompt) {
       if ("type" in item && item.type === ChatMessageType.Placeholder) {
-- 
2.43.0


From 5fd962b244efb0af9fab143fe068653fec98772a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:05 +0000
Subject: [PATCH 11/35] fix: keep the braces of nested and empty JSON objects
 in LangChain prompts

---
 packages/client/src/prompt/promptClients.ts | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/packages/client/src/prompt/promptClients.ts b/packages/client/src/prompt/promptClients.ts
index bdcc7b5..bd07567 100644
--- a/packages/client/src/prompt/promptClients.ts
+++ b/packages/client/src/prompt/promptClients.ts
@@ -106,7 +106,8 @@ abstract class BasePromptClient {
    * Escapes every curly brace that is part of a JSON object by doubling it.
    *
    * A curly brace is considered “JSON-related” when, after skipping any immediate
-   * whitespace, the next non-whitespace character is a single (') or double (") quote.
+   * whitespace, the next non-whitespace character is a single (') or double (") quote
+   * or the closing brace of an empty object.
    *
    * Braces that are already doubled (e.g. `{{variable}}` placeholders) are left untouched.
    *
@@ -115,7 +116,7 @@ abstract class BasePromptClient {
    */
   protected escapeJsonForLangchain(text: string): string {
     const out: string[] = []; // collected characters
-    const stack: boolean[] = []; // true = “this { belongs to JSON”, false = normal “{”
+    const stack: ("json" | "plain" | "doubled")[] = []; // how each open “{” was treated
     let i = 0;
     const n = text.length;
 
@@ -127,6 +128,7 @@ abstract class BasePromptClient {
         // leave existing “{{ …” untouched
         if (i + 1 < n && text[i + 1] === "{") {
           out.push("{{");
+          stack.push("doubled");
           i += 2;
           continue;
         }
@@ -137,24 +139,26 @@ abstract class BasePromptClient {
           j++;
         }
 
-        const isJson = j < n && (text[j] === "'" || text[j] === '"');
+        const isJson =
+          j < n && (text[j] === "'" || text[j] === '"' || text[j] === "}");
         out.push(isJson ? "{{" : "{");
-        stack.push(isJson); // remember how this “{” was treated
+        stack.push(isJson ? "json" : "plain");
         i += 1;
         continue;
       }
 
       // ---------- closing brace ----------
       if (ch === "}") {
+        const opened = stack.pop() ?? "doubled";
+
         // leave existing “… }}” untouched
-        if (i + 1 < n && text[i + 1] === "}") {
+        if (opened === "doubled" && i + 1 < n && text[i + 1] === "}") {
           out.push("}}");
           i += 2;
           continue;
         }
 
-        const isJson = stack.pop() ?? false;
-        out.push(isJson ? "}}" : "}");
+        out.push(opened === "json" ? "}}" : "}");
         i += 1;
         continue;
       }
-- 
2.43.0


From 33bf7d926ca5d4105b61f8e62c3ed68171a220d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:19 +0000
Subject: [PATCH 12/35] fix: convert prompt variables written with inner spaces
 for LangChain

---
 packages/client/src/prompt/promptClients.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/client/src/prompt/promptClients.ts b/packages/client/src/prompt/promptClients.ts
index bd07567..6b3b9ee 100644
--- a/packages/client/src/prompt/promptClients.ts
+++ b/packages/client/src/prompt/promptClients.ts
@@ -99,7 +99,7 @@ abstract class BasePromptClient {
   protected _transformToLangchainVariables(content: string): string {
     const jsonEscapedContent = this.escapeJsonForLangchain(content);
 
-    return jsonEscapedContent.replace(/\{\{(\w+)\}\}/g, "{$1}");
+    return jsonEscapedContent.replace(/\{\{\s*(\w+)\s*\}\}/g, "{$1}");
   }
 
   /**
-- 
2.43.0


From 04a0c003802a38977cb9171cf16d9e24007206a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:38 +0000
Subject: [PATCH 13/35] fix: keep non-text message content in LangChain prompts

---
 packages/client/src/prompt/promptClients.ts | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/packages/client/src/prompt/promptClients.ts b/packages/client/src/prompt/promptClients.ts
index 6b3b9ee..b77332c 100644
--- a/packages/client/src/prompt/promptClients.ts
+++ b/packages/client/src/prompt/promptClients.ts
@@ -97,6 +97,9 @@ abstract class BasePromptClient {
     | (ChatMessage | LangchainMessagesPlaceholder | any)[];
 
   protected _transformToLangchainVariables(content: string): string {
+    // Content of other shapes (e.g. multi-modal parts) holds no template
+    if (typeof content !== "string") return content;
+
     const jsonEscapedContent = this.escapeJsonForLangchain(content);
 
     return jsonEscapedContent.replace(/\{\{\s*(\w+)\s*\}\}/g, "{$1}");
-- 
2.43.0


From fc3a6f6c046d49a028bd8aec2dc948c9c9720d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:08 +0000
Subject: [PATCH 14/35] fix: send every queued score before a score flush
 resolves

---
 packages/client/src/score/index.ts | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/packages/client/src/score/index.ts b/packages/client/src/score/index.ts
index 9cbe359..9aea7fe 100644
--- a/packages/client/src/score/index.ts
+++ b/packages/client/src/score/index.ts
@@ -102,10 +102,10 @@ export class ScoreManager {
     }
 
     if (this.eventQueue.length >= this.flushAtCount) {
-      this.flushPromise = this.flush();
+      void this.flush();
     } else if (!this.flushTimer) {
       this.flushTimer = safeSetTimeout(() => {
-        this.flushPromise = this.flush();
+        void this.flush();
       }, this.flushIntervalSeconds * 1_000);
     }
   }
@@ -298,8 +298,6 @@ export class ScoreManager {
       await Promise.all(promises);
     } catch (err) {
       this.logger.error("Error flushing Score Manager: ", err);
-    } finally {
-      this.flushPromise = null;
     }
   }
 
@@ -318,7 +316,11 @@ export class ScoreManager {
    * ```
    */
   public async flush() {
-    return this.flushPromise ?? this.handleFlush();
+    // Also wait for scores that an earlier flush is still sending
+    const inFlight = this.flushPromise ?? undefined;
+    this.flushPromise = this.handleFlush().then(() => inFlight);
+
+    return this.flushPromise;
   }
 
   /**
-- 
2.43.0


From 8cc76aae8c9342e81f050f33d6739dcd7dade03b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:33 +0000
Subject: [PATCH 15/35] fix: report experiment results next to their own item

---
 packages/client/src/experiment/ExperimentManager.ts | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/packages/client/src/experiment/ExperimentManager.ts b/packages/client/src/experiment/ExperimentManager.ts
index 668ae98..819c77a 100644
--- a/packages/client/src/experiment/ExperimentManager.ts
+++ b/packages/client/src/experiment/ExperimentManager.ts
@@ -1,5 +1,4 @@
 import {
-  DatasetItem,
   getGlobalLogger,
   propagateAttributes,
   serializeValue,
@@ -17,7 +16,6 @@ import {
   ExperimentParams,
   ExperimentResult,
   ExperimentTask,
-  ExperimentItem,
   ExperimentItemResult,
   Evaluator,
   Evaluation,
@@ -310,7 +308,6 @@ export class ExperimentManager {
         await this.prettyPrintResults({
           datasetRunUrl,
           itemResults,
-          originalData: data,
           runEvaluations,
           name: config.name,
           runName,
@@ -544,7 +541,6 @@ export class ExperimentManager {
    * @param params - Formatting parameters
    * @param params.datasetRunUrl - Optional URL to the dataset run in Langfuse UI
    * @param params.itemResults - Results from processing each data item
-   * @param params.originalData - The original input data items
    * @param params.runEvaluations - Results from run-level evaluators
    * @param params.name - Name of the experiment
    * @param params.description - Optional description of the experiment
@@ -597,9 +593,6 @@ export class ExperimentManager {
   >(params: {
     datasetRunUrl?: string;
     itemResults: ExperimentItemResult<Input, ExpectedOutput, Metadata>[];
-    originalData:
-      | ExperimentItem<Input, ExpectedOutput, Metadata>[]
-      | DatasetItem[];
     runEvaluations: Evaluation[];
     name: string;
     runName: string;
@@ -608,7 +601,6 @@ export class ExperimentManager {
   }): Promise<string> {
     const {
       itemResults,
-      originalData,
       runEvaluations,
       name,
       runName,
@@ -626,7 +618,7 @@ export class ExperimentManager {
     if (includeItemResults) {
       for (let index = 0; index < itemResults.length; index++) {
         const result = itemResults[index];
-        const originalItem = originalData[index];
+        const originalItem = result.item;
 
         output += `\n${index + 1}. Item ${index + 1}:\n`;
 
-- 
2.43.0


From 04915917c1443658dc98610f48b3c03744828cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:55 +0000
Subject: [PATCH 16/35] fix: return input and expected output with experiment
 item results

---
 packages/client/src/experiment/ExperimentManager.ts | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/packages/client/src/experiment/ExperimentManager.ts b/packages/client/src/experiment/ExperimentManager.ts
index 819c77a..e2d5c33 100644
--- a/packages/client/src/experiment/ExperimentManager.ts
+++ b/packages/client/src/experiment/ExperimentManager.ts
@@ -519,6 +519,8 @@ export class ExperimentManager {
     }
 
     return {
+      input: item.input,
+      expectedOutput: item.expectedOutput,
       output,
       evaluations: evals,
       traceId,
-- 
2.43.0


From 23bb8d246dfe1ea6ffdf0401574e39e0e1456093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:21 +0000
Subject: [PATCH 17/35] fix: skip dataset media references whose path does not
 exist in the item

---
 packages/client/src/dataset/jsonPath.ts | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/packages/client/src/dataset/jsonPath.ts b/packages/client/src/dataset/jsonPath.ts
index ed03c33..42d8142 100644
--- a/packages/client/src/dataset/jsonPath.ts
+++ b/packages/client/src/dataset/jsonPath.ts
@@ -75,10 +75,12 @@ export function setValueAtPath(
 
   let target = value;
   for (const segment of segments.slice(0, -1)) {
+    assertHasNode(target, segment, jsonPath);
     target = (target as Record<string | number, unknown>)[segment];
   }
 
   const leaf = segments[segments.length - 1];
+  assertHasNode(target, leaf, jsonPath);
   // A numeric leaf on a non-array means jsonpath-plus rendered an all-digit
   // object key as "[0]", which is indistinguishable from a list index — so we
   // can't safely resolve it (rather than write a bogus numeric key).
@@ -89,3 +91,18 @@ export function setValueAtPath(
 
   return value;
 }
+
+/** Throws unless `segment` is an own node of `target` (no inherited or missing keys). */
+function assertHasNode(
+  target: unknown,
+  segment: string | number,
+  jsonPath: string,
+): void {
+  if (
+    typeof target !== "object" ||
+    target === null ||
+    !Object.prototype.hasOwnProperty.call(target, segment)
+  ) {
+    throw new Error(`Cannot resolve JSONPath: ${jsonPath}`);
+  }
+}
-- 
2.43.0


From 072af920346dcbb8f2284fee5e4c9ba3cbca0138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:06 +0000
Subject: [PATCH 18/35] fix: reject browser scores with the client's error type
 when the response is unreadable

---
 packages/browser/src/index.ts |  2 +-
 packages/browser/src/utils.ts | 15 +++++++++++++--
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/packages/browser/src/index.ts b/packages/browser/src/index.ts
index 483c3be..68eddf8 100644
--- a/packages/browser/src/index.ts
+++ b/packages/browser/src/index.ts
@@ -77,7 +77,7 @@ export class LangfuseBrowserClient {
     }
 
     const hasSuccess = response.successes.some(
-      (success) => success.id === event.id,
+      (success) => success?.id === event.id,
     );
     if (!hasSuccess) {
       throw new LangfuseBrowserError(
diff --git a/packages/browser/src/utils.ts b/packages/browser/src/utils.ts
index 0c3ffe7..3928e60 100644
--- a/packages/browser/src/utils.ts
+++ b/packages/browser/src/utils.ts
@@ -11,8 +11,19 @@ const RESERVED_ADDITIONAL_HEADER_NAMES = new Set([
   "x-langfuse-sdk-integration",
 ]);
 
+async function readResponseText(response: Response): Promise<string> {
+  try {
+    return await response.text();
+  } catch (error) {
+    throw new LangfuseBrowserError("Failed to read Langfuse response.", {
+      status: response.status,
+      originalError: error,
+    });
+  }
+}
+
 export async function parseJsonResponse(response: Response): Promise<unknown> {
-  const text = await response.text();
+  const text = await readResponseText(response);
   if (!text) {
     return undefined;
   }
@@ -34,7 +45,7 @@ export async function parseJsonResponse(response: Response): Promise<unknown> {
 export async function parseErrorResponseBody(
   response: Response,
 ): Promise<unknown> {
-  const text = await response.text();
+  const text = await readResponseText(response);
   if (!text) {
     return undefined;
   }
-- 
2.43.0


From d65bfb2b8e88ed6682d645a5ab4a512ae0d3a533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:20 +0000
Subject: [PATCH 19/35] fix: let observe wrap functions as events

---
 packages/tracing/src/index.ts | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/packages/tracing/src/index.ts b/packages/tracing/src/index.ts
index ac99d0e..fbe9981 100644
--- a/packages/tracing/src/index.ts
+++ b/packages/tracing/src/index.ts
@@ -1481,7 +1481,9 @@ export function observe<T extends (...args: any[]) => any>(
         return result.then(
           (value) => {
             if (captureOutput) {
-              observation.update({ output: _captureOutput(value) });
+              observation.updateOtelSpanAttributes({
+                output: _captureOutput(value),
+              });
             }
 
             if (options?.endOnExit !== false) {
@@ -1491,7 +1493,7 @@ export function observe<T extends (...args: any[]) => any>(
             return value;
           },
           (error: unknown) => {
-            observation.update({
+            observation.updateOtelSpanAttributes({
               level: "ERROR",
               statusMessage:
                 (error instanceof Error ? error.message : String(error)) ||
@@ -1509,7 +1511,9 @@ export function observe<T extends (...args: any[]) => any>(
       } else {
         // Handle sync functions
         if (captureOutput) {
-          observation.update({ output: _captureOutput(result) });
+          observation.updateOtelSpanAttributes({
+            output: _captureOutput(result),
+          });
         }
 
         if (options?.endOnExit !== false) {
@@ -1519,7 +1523,7 @@ export function observe<T extends (...args: any[]) => any>(
         return result as ReturnType<T>;
       }
     } catch (error: unknown) {
-      observation.update({
+      observation.updateOtelSpanAttributes({
         level: "ERROR",
         statusMessage:
           (error instanceof Error ? error.message : String(error)) ||
-- 
2.43.0


From 5ebc26ef3a105ff30b0a81e5426b48c4d130f6a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:21 +0000
Subject: [PATCH 20/35] fix: capture falsy arguments as observation input

---
 packages/tracing/src/index.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/tracing/src/index.ts b/packages/tracing/src/index.ts
index fbe9981..ff9a106 100644
--- a/packages/tracing/src/index.ts
+++ b/packages/tracing/src/index.ts
@@ -1457,7 +1457,7 @@ export function observe<T extends (...args: any[]) => any>(
     // Create the appropriate observation type
     const observation = startObservation(
       name,
-      inputData ? { input: inputData } : {},
+      inputData !== undefined ? { input: inputData } : {},
       {
         asType: asType as "span", // typecast necessary as ts cannot narrow down type
         parentSpanContext,
-- 
2.43.0


From 826ac754b98b896a7ff329d174c00b2411b04d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:54:33 +0000
Subject: [PATCH 21/35] fix: rethrow the original error from observed functions
 when it has no string form

---
 packages/tracing/src/index.ts | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/packages/tracing/src/index.ts b/packages/tracing/src/index.ts
index ff9a106..a5258be 100644
--- a/packages/tracing/src/index.ts
+++ b/packages/tracing/src/index.ts
@@ -1496,9 +1496,12 @@ export function observe<T extends (...args: any[]) => any>(
             observation.updateOtelSpanAttributes({
               level: "ERROR",
               statusMessage:
-                (error instanceof Error ? error.message : String(error)) ||
-                "Function threw an error",
-              output: captureOutput ? { error: String(error) } : undefined,
+                (error instanceof Error
+                  ? error.message
+                  : _stringifyError(error)) || "Function threw an error",
+              output: captureOutput
+                ? { error: _stringifyError(error) }
+                : undefined,
             });
 
             if (options?.endOnExit !== false) {
@@ -1526,9 +1529,9 @@ export function observe<T extends (...args: any[]) => any>(
       observation.updateOtelSpanAttributes({
         level: "ERROR",
         statusMessage:
-          (error instanceof Error ? error.message : String(error)) ||
+          (error instanceof Error ? error.message : _stringifyError(error)) ||
           "Function threw an error",
-        output: captureOutput ? { error: String(error) } : undefined,
+        output: captureOutput ? { error: _stringifyError(error) } : undefined,
       });
 
       if (options?.endOnExit !== false) {
@@ -1558,6 +1561,19 @@ function _captureArguments(args: unknown[]): unknown {
   }
 }
 
+/**
+ * Converts a thrown value to a string. Never throws itself, so that the
+ * original error reaches the caller.
+ * @internal
+ */
+function _stringifyError(error: unknown): string {
+  try {
+    return String(error);
+  } catch {
+    return "<failed to stringify error>";
+  }
+}
+
 /**
  * Helper function to safely capture function output.
  *
-- 
2.43.0


From 9e45806547fa702eb3739dc4a2c196bb85e8b4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:39 +0000
Subject: [PATCH 22/35] fix: keep empty strings in observation metadata

---
 packages/tracing/src/attributes.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/tracing/src/attributes.ts b/packages/tracing/src/attributes.ts
index 66a00b9..0be72d1 100644
--- a/packages/tracing/src/attributes.ts
+++ b/packages/tracing/src/attributes.ts
@@ -133,13 +133,13 @@ function _flattenAndSerializeMetadata(
 
   if (typeof metadata !== "object" || Array.isArray(metadata)) {
     const serialized = _serialize(metadata);
-    if (serialized) {
+    if (serialized !== undefined) {
       metadataAttributes[prefix] = serialized;
     }
   } else {
     for (const [key, value] of Object.entries(metadata)) {
       const serialized = typeof value === "string" ? value : _serialize(value);
-      if (serialized) {
+      if (serialized !== undefined) {
         metadataAttributes[`${prefix}.${key}`] = serialized;
       }
     }
-- 
2.43.0


From e3bf940b92fadfcbcdb38a382fe27a4ddbb8f694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:25 +0000
Subject: [PATCH 23/35] fix: read properties of observed OpenAI clients once
 and from the client itself

---
 packages/openai/src/observeOpenAI.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/openai/src/observeOpenAI.ts b/packages/openai/src/observeOpenAI.ts
index f786450..469305d 100644
--- a/packages/openai/src/observeOpenAI.ts
+++ b/packages/openai/src/observeOpenAI.ts
@@ -94,7 +94,7 @@ export const observeOpenAI = <SDKType extends object>(
   langfuseConfig?: LangfuseConfig,
 ): SDKType => {
   return new Proxy(sdk, {
-    get(wrappedSdk, propKey, proxy) {
+    get(wrappedSdk, propKey) {
       const originalProperty = wrappedSdk[propKey as keyof SDKType];
 
       const defaultGenerationName = `${sdk.constructor?.name}.${propKey.toString()}`;
@@ -119,7 +119,7 @@ export const observeOpenAI = <SDKType extends object>(
       }
 
       // Fallback to returning the original value
-      return Reflect.get(wrappedSdk, propKey, proxy);
+      return originalProperty;
     },
   });
 };
-- 
2.43.0


From 627453459a11f86e3338b85d9ca0a5d602b389aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:28 +0000
Subject: [PATCH 24/35] fix: do not reject OpenAI responses without choices

---
 packages/openai/src/parseOpenAI.ts | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/packages/openai/src/parseOpenAI.ts b/packages/openai/src/parseOpenAI.ts
index c60aac3..ea027de 100644
--- a/packages/openai/src/parseOpenAI.ts
+++ b/packages/openai/src/parseOpenAI.ts
@@ -94,9 +94,13 @@ export const parseCompletionOutput = (res: unknown): unknown => {
     return "";
   }
 
-  return "message" in res.choices[0]
-    ? res.choices[0].message
-    : (res.choices[0].text ?? "");
+  const choice = res.choices[0];
+
+  if (!(choice instanceof Object)) {
+    return "";
+  }
+
+  return "message" in choice ? choice.message : (choice.text ?? "");
 };
 
 export const parseUsageDetails = (
-- 
2.43.0


From b9ffaf1f1c07da9c9cad7d509624269f0a4929ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:50 +0000
Subject: [PATCH 25/35] fix: end OpenAI generations when their stream fails or
 is not read to the end

---
 packages/openai/src/traceMethod.ts | 111 +++++++++++++++++------------
 1 file changed, 65 insertions(+), 46 deletions(-)

diff --git a/packages/openai/src/traceMethod.ts b/packages/openai/src/traceMethod.ts
index bafe35c..cae33c9 100644
--- a/packages/openai/src/traceMethod.ts
+++ b/packages/openai/src/traceMethod.ts
@@ -201,61 +201,80 @@ function wrapAsyncIterable<R>(
     let usageDetails: Record<string, number> | undefined = undefined;
     let output: unknown = null;
 
-    for await (const rawChunk of response as AsyncIterable<unknown>) {
-      completionStartTime = completionStartTime ?? new Date();
+    try {
+      for await (const rawChunk of response as AsyncIterable<unknown>) {
+        completionStartTime = completionStartTime ?? new Date();
 
-      // Handle Response API chunks
-      if (typeof rawChunk === "object" && rawChunk && "response" in rawChunk) {
-        const result = rawChunk["response"];
-        output = parseCompletionOutput(result);
-        usageDetails = parseUsageDetailsFromResponse(result);
+        // Handle Response API chunks
+        if (
+          typeof rawChunk === "object" &&
+          rawChunk &&
+          "response" in rawChunk
+        ) {
+          const result = rawChunk["response"];
+          output = parseCompletionOutput(result);
+          usageDetails = parseUsageDetailsFromResponse(result);
 
-        const {
-          model: modelFromResponse,
-          modelParameters: modelParametersFromResponse,
-          metadata: metadataFromResponse,
-        } = parseModelDataFromResponse(result);
+          const {
+            model: modelFromResponse,
+            modelParameters: modelParametersFromResponse,
+            metadata: metadataFromResponse,
+          } = parseModelDataFromResponse(result);
 
-        generation.update({
-          model: modelFromResponse,
-          modelParameters: modelParametersFromResponse,
-          metadata: metadataFromResponse,
-        });
-      }
+          generation.update({
+            model: modelFromResponse,
+            modelParameters: modelParametersFromResponse,
+            metadata: metadataFromResponse,
+          });
+        }
 
-      if (
-        typeof rawChunk === "object" &&
-        rawChunk != null &&
-        "usage" in rawChunk
-      ) {
-        usage = rawChunk.usage as OpenAI.CompletionUsage | null;
-      }
+        if (
+          typeof rawChunk === "object" &&
+          rawChunk != null &&
+          "usage" in rawChunk
+        ) {
+          usage = rawChunk.usage as OpenAI.CompletionUsage | null;
+        }
 
-      const processedChunk = parseChunk(rawChunk);
+        const processedChunk = parseChunk(rawChunk);
 
-      if (!processedChunk.isToolCall) {
-        textChunks.push(processedChunk.data);
-      } else {
-        toolCallChunks.push(processedChunk.data);
-      }
+        if (!processedChunk.isToolCall) {
+          textChunks.push(processedChunk.data);
+        } else {
+          toolCallChunks.push(processedChunk.data);
+        }
 
-      yield rawChunk;
-    }
+        yield rawChunk;
+      }
+    } catch (error) {
+      generation.update({
+        statusMessage: String(error),
+        level: "ERROR",
+        costDetails: {
+          input: 0,
+          output: 0,
+          total: 0,
+        },
+      });
 
-    output =
-      output ??
-      (toolCallChunks.length > 0
-        ? getToolCallOutput(toolCallChunks)
-        : textChunks.join(""));
+      throw error;
+    } finally {
+      // Also reached when the stream fails or the consumer stops early
+      output =
+        output ??
+        (toolCallChunks.length > 0
+          ? getToolCallOutput(toolCallChunks)
+          : textChunks.join(""));
 
-    generation
-      .update({
-        output,
-        completionStartTime,
-        usageDetails:
-          usageDetails ?? (usage ? parseUsageDetails(usage) : undefined),
-      })
-      .end();
+      generation
+        .update({
+          output,
+          completionStartTime,
+          usageDetails:
+            usageDetails ?? (usage ? parseUsageDetails(usage) : undefined),
+        })
+        .end();
+    }
   }
 
   return tracedOutputGenerator() as R;
-- 
2.43.0


From bf01c07fb2f8a9d2b5077ced0eb12c33cf141522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:08 +0000
Subject: [PATCH 26/35] fix: record every streamed OpenAI tool call and the
 text next to them

---
 packages/openai/src/parseOpenAI.ts | 42 +++++++++++++++++++-----------
 packages/openai/src/traceMethod.ts |  5 ++--
 2 files changed, 30 insertions(+), 17 deletions(-)

diff --git a/packages/openai/src/parseOpenAI.ts b/packages/openai/src/parseOpenAI.ts
index ea027de..7408504 100644
--- a/packages/openai/src/parseOpenAI.ts
+++ b/packages/openai/src/parseOpenAI.ts
@@ -207,7 +207,8 @@ export const parseChunk = (
   | { isToolCall: false; data: string }
   | {
       isToolCall: true;
-      data: OpenAI.Chat.Completions.ChatCompletionChunk.Choice.Delta.ToolCall;
+      data: OpenAI.Chat.Completions.ChatCompletionChunk.Choice.Delta.ToolCall[];
+      text: string;
     } => {
   let isToolCall = false;
   const _chunk = rawChunk as
@@ -219,11 +220,16 @@ export const parseChunk = (
     if (
       "delta" in chunkData &&
       "tool_calls" in chunkData.delta &&
-      Array.isArray(chunkData.delta.tool_calls)
+      Array.isArray(chunkData.delta.tool_calls) &&
+      chunkData.delta.tool_calls.length > 0
     ) {
       isToolCall = true;
 
-      return { isToolCall, data: chunkData.delta.tool_calls[0] };
+      return {
+        isToolCall,
+        data: chunkData.delta.tool_calls,
+        text: chunkData.delta.content || "",
+      };
     }
     if ("delta" in chunkData) {
       return { isToolCall, data: chunkData.delta?.content || "" };
@@ -258,7 +264,9 @@ function hasCompletionUsage(
 
 export const getToolCallOutput = (
   toolCallChunks: OpenAI.Chat.Completions.ChatCompletionChunk.Choice.Delta.ToolCall[],
+  text = "",
 ): {
+  content?: string;
   tool_calls: {
     function: {
       name: string;
@@ -266,23 +274,27 @@ export const getToolCallOutput = (
     };
   }[];
 } => {
-  let name = "";
-  let toolArguments = "";
+  // Chunks of parallel tool calls are told apart by their index
+  const toolCalls = new Map<
+    number,
+    { function: { name: string; arguments: string } }
+  >();
 
   for (const toolCall of toolCallChunks) {
-    name = toolCall.function?.name || name;
-    toolArguments += toolCall.function?.arguments || "";
+    const index = toolCall?.index ?? 0;
+    const current = toolCalls.get(index) ?? {
+      function: { name: "", arguments: "" },
+    };
+
+    current.function.name = toolCall?.function?.name || current.function.name;
+    current.function.arguments += toolCall?.function?.arguments || "";
+
+    toolCalls.set(index, current);
   }
 
   return {
-    tool_calls: [
-      {
-        function: {
-          name,
-          arguments: toolArguments,
-        },
-      },
-    ],
+    ...(text ? { content: text } : {}),
+    tool_calls: Array.from(toolCalls.values()),
   };
 };
 
diff --git a/packages/openai/src/traceMethod.ts b/packages/openai/src/traceMethod.ts
index cae33c9..6fedfb1 100644
--- a/packages/openai/src/traceMethod.ts
+++ b/packages/openai/src/traceMethod.ts
@@ -241,7 +241,8 @@ function wrapAsyncIterable<R>(
         if (!processedChunk.isToolCall) {
           textChunks.push(processedChunk.data);
         } else {
-          toolCallChunks.push(processedChunk.data);
+          toolCallChunks.push(...processedChunk.data);
+          textChunks.push(processedChunk.text);
         }
 
         yield rawChunk;
@@ -263,7 +264,7 @@ function wrapAsyncIterable<R>(
       output =
         output ??
         (toolCallChunks.length > 0
-          ? getToolCallOutput(toolCallChunks)
+          ? getToolCallOutput(toolCallChunks, textChunks.join(""))
           : textChunks.join(""));
 
       generation
-- 
2.43.0


From 3c100f409349e5377a128f4a59f7e0ae1cd0e976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:28:25 +0000
Subject: [PATCH 27/35] fix: do not mix the choices of streamed OpenAI
 responses

---
 packages/openai/src/parseOpenAI.ts | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/packages/openai/src/parseOpenAI.ts b/packages/openai/src/parseOpenAI.ts
index 7408504..f1dba42 100644
--- a/packages/openai/src/parseOpenAI.ts
+++ b/packages/openai/src/parseOpenAI.ts
@@ -217,6 +217,11 @@ export const parseChunk = (
   const chunkData = _chunk?.choices?.[0];
 
   try {
+    // Like for complete responses, only the first choice is recorded
+    if (chunkData.index > 0) {
+      return { isToolCall: false, data: "" };
+    }
+
     if (
       "delta" in chunkData &&
       "tool_calls" in chunkData.delta &&
-- 
2.43.0


From dc115ccfa48f199806ad8a0f8bd653ccbf7427ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:47:36 +0000
Subject: [PATCH 28/35] fix: keep failures of LangChain generation starts from
 becoming unhandled rejections

---
 packages/langchain/src/CallbackHandler.ts | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/packages/langchain/src/CallbackHandler.ts b/packages/langchain/src/CallbackHandler.ts
index 6c0ffa1..1109bfb 100644
--- a/packages/langchain/src/CallbackHandler.ts
+++ b/packages/langchain/src/CallbackHandler.ts
@@ -316,8 +316,8 @@ export class CallbackHandler extends BaseCallbackHandler {
     let extractedModelName: string | undefined;
     if (extraParams) {
       const invocationParamsModelName = (
-        extraParams.invocation_params as InvocationParams
-      ).model;
+        extraParams.invocation_params as InvocationParams | undefined
+      )?.model;
       const metadataModelName =
         metadata && "ls_model_name" in metadata
           ? (metadata["ls_model_name"] as string)
@@ -375,7 +375,7 @@ export class CallbackHandler extends BaseCallbackHandler {
         message.map((m) => this.extractChatMessageContent(m)),
       );
 
-      this.handleGenerationStart(
+      await this.handleGenerationStart(
         llm,
         prompts,
         runId,
@@ -444,7 +444,7 @@ export class CallbackHandler extends BaseCallbackHandler {
     try {
       this.logger.debug(`LLM start with ID: ${runId}`);
 
-      this.handleGenerationStart(
+      await this.handleGenerationStart(
         llm,
         prompts,
         runId,
-- 
2.43.0


From ac026eae76a7581b306f4f598f7856f80eb53436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:22 +0000
Subject: [PATCH 29/35] fix: drop all state of LangChain runs that end with an
 error

---
 packages/langchain/src/CallbackHandler.ts | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/packages/langchain/src/CallbackHandler.ts b/packages/langchain/src/CallbackHandler.ts
index 1109bfb..9b684de 100644
--- a/packages/langchain/src/CallbackHandler.ts
+++ b/packages/langchain/src/CallbackHandler.ts
@@ -848,6 +848,8 @@ export class CallbackHandler extends BaseCallbackHandler {
 
     this.last_trace_id = span.traceId;
     this.runMap.delete(runId);
+    this.deregisterLangfusePrompt(runId);
+    delete this.completionStartTimes[runId];
   }
   private parseAzureRefusalError(err: any): string {
     // Azure has the refusal status for harmful messages in the error property
-- 
2.43.0


From f3cb22b515ceb7e953e637bfbd84d79373229ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:38 +0000
Subject: [PATCH 30/35] fix: end LangChain runs whatever output or error they
 finish with

---
 packages/langchain/src/CallbackHandler.ts | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/packages/langchain/src/CallbackHandler.ts b/packages/langchain/src/CallbackHandler.ts
index 9b684de..027336e 100644
--- a/packages/langchain/src/CallbackHandler.ts
+++ b/packages/langchain/src/CallbackHandler.ts
@@ -264,7 +264,7 @@ export class CallbackHandler extends BaseCallbackHandler {
         runId,
         attributes: {
           level: "ERROR",
-          statusMessage: err.toString() + azureRefusalError,
+          statusMessage: String(err) + azureRefusalError,
         },
       });
     } catch (e) {
@@ -428,6 +428,8 @@ export class CallbackHandler extends BaseCallbackHandler {
       this.deregisterLangfusePrompt(runId);
     } catch (e) {
       this.logger.debug(e instanceof Error ? e.message : String(e));
+      // The run is over even if its output could not be read
+      this.handleOtelSpanEnd({ runId });
     }
   }
 
@@ -546,7 +548,7 @@ export class CallbackHandler extends BaseCallbackHandler {
         runId,
         attributes: {
           level: "ERROR",
-          statusMessage: err.toString(),
+          statusMessage: String(err),
         },
       });
     } catch (e) {
@@ -584,7 +586,7 @@ export class CallbackHandler extends BaseCallbackHandler {
         runId,
         attributes: {
           level: "ERROR",
-          statusMessage: err.toString(),
+          statusMessage: String(err),
         },
       });
     } catch (e) {
@@ -675,6 +677,8 @@ export class CallbackHandler extends BaseCallbackHandler {
       }
     } catch (e) {
       this.logger.debug(e instanceof Error ? e.message : String(e));
+      // The run is over even if its output could not be read
+      this.handleOtelSpanEnd({ runId });
     }
   }
 
@@ -696,7 +700,7 @@ export class CallbackHandler extends BaseCallbackHandler {
         runId,
         attributes: {
           level: "ERROR",
-          statusMessage: err.toString() + azureRefusalError,
+          statusMessage: String(err) + azureRefusalError,
         },
       });
     } catch (e) {
@@ -856,7 +860,7 @@ export class CallbackHandler extends BaseCallbackHandler {
     // This would not be logged as the error message is only a generic message
     // that there has been a refusal
     let azureRefusalError = "";
-    if (typeof err == "object" && "error" in err) {
+    if (typeof err == "object" && err !== null && "error" in err) {
       try {
         azureRefusalError =
           "\n\nError details:\n" + JSON.stringify(err["error"], null, 2);
-- 
2.43.0


From e7975d447f8735557f08b8912c1e67c05cda08a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:12 +0000
Subject: [PATCH 31/35] fix: trace LangChain runs that start without input or
 serialized form

---
 packages/langchain/src/CallbackHandler.ts | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/packages/langchain/src/CallbackHandler.ts b/packages/langchain/src/CallbackHandler.ts
index 027336e..de1779f 100644
--- a/packages/langchain/src/CallbackHandler.ts
+++ b/packages/langchain/src/CallbackHandler.ts
@@ -112,7 +112,7 @@ export class CallbackHandler extends BaseCallbackHandler {
     try {
       this.logger.debug(`Chain start with Id: ${runId}`);
 
-      const runName = name ?? chain.id.at(-1)?.toString() ?? "Langchain Run";
+      const runName = name ?? chain?.id?.at(-1)?.toString() ?? "Langchain Run";
 
       this.registerLangfusePrompt(parentRunId, metadata);
 
@@ -120,6 +120,7 @@ export class CallbackHandler extends BaseCallbackHandler {
       let finalInput: string | ChainValues = inputs;
       if (
         typeof inputs === "object" &&
+        inputs !== null &&
         "input" in inputs &&
         Array.isArray(inputs["input"]) &&
         inputs["input"].every((m: unknown) => m instanceof BaseMessage)
@@ -129,6 +130,7 @@ export class CallbackHandler extends BaseCallbackHandler {
         );
       } else if (
         typeof inputs === "object" &&
+        inputs !== null &&
         "messages" in inputs &&
         Array.isArray(inputs["messages"]) &&
         inputs["messages"].every((m: unknown) => m instanceof BaseMessage)
@@ -138,6 +140,7 @@ export class CallbackHandler extends BaseCallbackHandler {
         );
       } else if (
         typeof inputs === "object" &&
+        inputs !== null &&
         "content" in inputs &&
         typeof inputs["content"] === "string" &&
         Object.keys(inputs).length === 1
@@ -286,7 +289,8 @@ export class CallbackHandler extends BaseCallbackHandler {
       `Generation start with ID: ${runId} and parentRunId ${parentRunId}`,
     );
 
-    const runName = name ?? llm.id.at(-1)?.toString() ?? "Langchain Generation";
+    const runName =
+      name ?? llm?.id?.at(-1)?.toString() ?? "Langchain Generation";
 
     const modelParameters: Record<string, any> = {};
     const invocationParams = extraParams?.["invocation_params"];
@@ -477,7 +481,7 @@ export class CallbackHandler extends BaseCallbackHandler {
         type: "tool",
         runId,
         parentRunId,
-        runName: name ?? tool.id.at(-1)?.toString() ?? "Tool execution",
+        runName: name ?? tool?.id?.at(-1)?.toString() ?? "Tool execution",
         attributes: {
           input,
         },
@@ -504,7 +508,7 @@ export class CallbackHandler extends BaseCallbackHandler {
       this.startAndRegisterOtelSpan({
         runId,
         parentRunId,
-        runName: name ?? retriever.id.at(-1)?.toString() ?? "Retriever",
+        runName: name ?? retriever?.id?.at(-1)?.toString() ?? "Retriever",
         attributes: {
           input: query,
         },
-- 
2.43.0


From 26232fd15014661ffb14619c9d2c8c127cb143f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:26 +0000
Subject: [PATCH 32/35] fix: keep the observation of LangChain agents when they
 act

---
 packages/langchain/src/CallbackHandler.ts | 25 +++++++++++++----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/packages/langchain/src/CallbackHandler.ts b/packages/langchain/src/CallbackHandler.ts
index de1779f..a1b6277 100644
--- a/packages/langchain/src/CallbackHandler.ts
+++ b/packages/langchain/src/CallbackHandler.ts
@@ -221,14 +221,19 @@ export class CallbackHandler extends BaseCallbackHandler {
   ): Promise<void> {
     try {
       this.logger.debug(`Agent action ${action.tool} with ID: ${runId}`);
-      this.startAndRegisterOtelSpan({
-        runId,
-        parentRunId,
-        runName: action.tool,
-        attributes: {
-          input: action,
+      // LangChain reports actions with the run ID of the agent, whose
+      // observation has to stay registered under that ID.
+      const agent =
+        this.runMap.get(runId) ??
+        (parentRunId ? this.runMap.get(parentRunId) : undefined);
+
+      startActiveObservation(
+        action.tool,
+        (span) => {
+          span.update({ version: this.version, input: action });
         },
-      });
+        { parentSpanContext: agent?.otelSpan.spanContext() },
+      );
     } catch (e) {
       this.logger.debug(e instanceof Error ? e.message : String(e));
     }
@@ -243,10 +248,8 @@ export class CallbackHandler extends BaseCallbackHandler {
     try {
       this.logger.debug(`Agent finish with ID: ${runId}`);
 
-      this.handleOtelSpanEnd({
-        runId,
-        attributes: { output: action },
-      });
+      // The run of the agent itself ends with its chain
+      this.runMap.get(runId)?.update({ output: action });
     } catch (e) {
       this.logger.debug(e instanceof Error ? e.message : String(e));
     }
-- 
2.43.0


From 10fa398b90edcceef674d05601817bf844b5167f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:57 +0000
Subject: [PATCH 33/35] fix: report API timeouts with the timeout error

---
 packages/core/src/api/core/fetcher/Fetcher.ts | 6 +++++-
 packages/core/src/api/core/fetcher/signals.ts | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/packages/core/src/api/core/fetcher/Fetcher.ts b/packages/core/src/api/core/fetcher/Fetcher.ts
index a74add3..d89566e 100644
--- a/packages/core/src/api/core/fetcher/Fetcher.ts
+++ b/packages/core/src/api/core/fetcher/Fetcher.ts
@@ -12,6 +12,7 @@ import {
   unknownRawResponse,
 } from "./RawResponse.js";
 import { requestWithRetries } from "./requestWithRetries.js";
+import { TIMEOUT } from "./signals.js";
 import { Supplier } from "./Supplier.js";
 
 export type FetchFunction = <R = unknown>(
@@ -152,7 +153,10 @@ export async function fetcherImpl<R = unknown>(
         },
         rawResponse: abortRawResponse,
       };
-    } else if (error instanceof Error && error.name === "AbortError") {
+    } else if (
+      error === TIMEOUT ||
+      (error instanceof Error && error.name === "AbortError")
+    ) {
       return {
         ok: false,
         error: {
diff --git a/packages/core/src/api/core/fetcher/signals.ts b/packages/core/src/api/core/fetcher/signals.ts
index 0cd3298..9b241b9 100644
--- a/packages/core/src/api/core/fetcher/signals.ts
+++ b/packages/core/src/api/core/fetcher/signals.ts
@@ -1,4 +1,4 @@
-const TIMEOUT = "timeout";
+export const TIMEOUT = "timeout";
 
 export function getTimeoutSignal(timeoutMs: number): {
   signal: AbortSignal;
-- 
2.43.0


From 63e95fd83ab1acdc2ed925b273b66071504c09dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:01 +0000
Subject: [PATCH 34/35] fix: keep the status of API errors whose body is not
 valid JSON

---
 .../api/core/fetcher/getErrorResponseBody.ts  | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/packages/core/src/api/core/fetcher/getErrorResponseBody.ts b/packages/core/src/api/core/fetcher/getErrorResponseBody.ts
index 1df82fe..79f64fa 100644
--- a/packages/core/src/api/core/fetcher/getErrorResponseBody.ts
+++ b/packages/core/src/api/core/fetcher/getErrorResponseBody.ts
@@ -1,6 +1,19 @@
 import { fromJson } from "../json.js";
 import { getResponseBody } from "./getResponseBody.js";
 
+async function getJsonOrText(response: Response): Promise<unknown> {
+  const text = await response.text();
+  if (text.length === 0) {
+    return undefined;
+  }
+  try {
+    return fromJson(text);
+  } catch {
+    // The status matters even if the body is not what it claims to be
+    return text;
+  }
+}
+
 export async function getErrorResponseBody(
   response: Response,
 ): Promise<unknown> {
@@ -19,15 +32,13 @@ export async function getErrorResponseBody(
     case "application/problem+json":
     case "application/vnd.api+json":
     case "text/json":
-      const text = await response.text();
-      return text.length > 0 ? fromJson(text) : undefined;
+      return getJsonOrText(response);
     default:
       if (
         contentType.startsWith("application/vnd.") &&
         contentType.endsWith("+json")
       ) {
-        const text = await response.text();
-        return text.length > 0 ? fromJson(text) : undefined;
+        return getJsonOrText(response);
       }
 
       // Fallback to plain text if content type is not recognized
-- 
2.43.0


From 6d2c38be9e2e7c7ddd6e204f919c1f40402f4f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:57 +0000
Subject: [PATCH 35/35] fix: reject successful API answers that are not JSON

---
 packages/core/src/api/core/fetcher/Fetcher.ts | 21 +++++++++++++++++--
 .../api/core/fetcher/getErrorResponseBody.ts  |  4 ++--
 .../src/api/core/fetcher/getResponseBody.ts   | 16 +++++++-------
 3 files changed, 29 insertions(+), 12 deletions(-)

diff --git a/packages/core/src/api/core/fetcher/Fetcher.ts b/packages/core/src/api/core/fetcher/Fetcher.ts
index d89566e..4d642fe 100644
--- a/packages/core/src/api/core/fetcher/Fetcher.ts
+++ b/packages/core/src/api/core/fetcher/Fetcher.ts
@@ -4,7 +4,7 @@ import { createRequestUrl } from "./createRequestUrl.js";
 import { getErrorResponseBody } from "./getErrorResponseBody.js";
 import { getFetchFn } from "./getFetchFn.js";
 import { getRequestBody } from "./getRequestBody.js";
-import { getResponseBody } from "./getResponseBody.js";
+import { getResponseBody, NonJsonResponseError } from "./getResponseBody.js";
 import { makeRequest } from "./makeRequest.js";
 import {
   abortRawResponse,
@@ -126,9 +126,26 @@ export async function fetcherImpl<R = unknown>(
     );
 
     if (response.status >= 200 && response.status < 400) {
+      let body: R;
+      try {
+        body = (await getResponseBody(response, args.responseType)) as R;
+      } catch (error) {
+        if (!(error instanceof NonJsonResponseError)) {
+          throw error;
+        }
+        return {
+          ok: false,
+          error: {
+            reason: "non-json",
+            statusCode: response.status,
+            rawBody: error.rawBody,
+          },
+          rawResponse: toRawResponse(response),
+        };
+      }
       return {
         ok: true,
-        body: (await getResponseBody(response, args.responseType)) as R,
+        body,
         headers: response.headers,
         rawResponse: toRawResponse(response),
       };
diff --git a/packages/core/src/api/core/fetcher/getErrorResponseBody.ts b/packages/core/src/api/core/fetcher/getErrorResponseBody.ts
index 79f64fa..6fec4af 100644
--- a/packages/core/src/api/core/fetcher/getErrorResponseBody.ts
+++ b/packages/core/src/api/core/fetcher/getErrorResponseBody.ts
@@ -1,5 +1,5 @@
 import { fromJson } from "../json.js";
-import { getResponseBody } from "./getResponseBody.js";
+import { isResponseWithBody } from "./ResponseWithBody.js";
 
 async function getJsonOrText(response: Response): Promise<unknown> {
   const text = await response.text();
@@ -19,7 +19,7 @@ export async function getErrorResponseBody(
 ): Promise<unknown> {
   let contentType = response.headers.get("Content-Type")?.toLowerCase();
   if (contentType == null || contentType.length === 0) {
-    return getResponseBody(response);
+    return isResponseWithBody(response) ? getJsonOrText(response) : undefined;
   }
 
   if (contentType.indexOf(";") !== -1) {
diff --git a/packages/core/src/api/core/fetcher/getResponseBody.ts b/packages/core/src/api/core/fetcher/getResponseBody.ts
index 2a06812..f98f7b9 100644
--- a/packages/core/src/api/core/fetcher/getResponseBody.ts
+++ b/packages/core/src/api/core/fetcher/getResponseBody.ts
@@ -2,6 +2,13 @@ import { getBinaryResponse } from "./BinaryResponse.js";
 import { isResponseWithBody } from "./ResponseWithBody.js";
 import { fromJson } from "../json.js";
 
+export class NonJsonResponseError extends Error {
+  constructor(public readonly rawBody: string) {
+    super("Response body is not valid JSON");
+    Object.setPrototypeOf(this, NonJsonResponseError.prototype);
+  }
+}
+
 export async function getResponseBody(
   response: Response,
   responseType?: string,
@@ -32,14 +39,7 @@ export async function getResponseBody(
       let responseBody = fromJson(text);
       return responseBody;
     } catch (err) {
-      return {
-        ok: false,
-        error: {
-          reason: "non-json",
-          statusCode: response.status,
-          rawBody: text,
-        },
-      };
+      throw new NonJsonResponseError(text);
     }
   }
   return undefined;
-- 
2.43.0

