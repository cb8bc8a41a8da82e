"use strict";
const M = []; const m = (id, file, a, b, ...more) => { const edits = [[file, a, b]]; for (let i = 0; i < more.length; i += 3) edits.push([more[i], more[i + 1], more[i + 2]]); M.push({ id, prop: id.slice(0, 3), edits }); };
const PR = "core/src/propagation.ts", SP = "otel/src/span-processor.ts", MS = "otel/src/MediaService.ts", SF = "otel/src/span-filter.ts", ME = "core/src/media.ts", MU = "core/src/mediaUpload.ts", UT = "core/src/utils.ts";
m("P01a", PR, "value.length > 200", "[...value].length > 200");
m("P01b", PR, "/^(?!langfuse)[a-z0-9_-]+$/", "/^(?!langfuse)[a-z0-9_-]+$/m");
m("P01c", PR, "    const validTags = tags.filter((tag) =>\n      isValidPropagatedString({\n        value: tag,\n        attributeName: \"tag\",\n      }),\n    );", "    const validTags = tags.every((tag) =>\n      isValidPropagatedString({\n        value: tag,\n        attributeName: \"tag\",\n      }),\n    )\n      ? tags\n      : tags.slice(0, tags.findIndex((t) => typeof t !== \"string\" || t.length > 200));");
m("P01d", PR, "!Number.isInteger(version)", "Number.isNaN(version)");
m("P01e", PR, "      propagatedAttributes[spanKey] = String(v);", "      propagatedAttributes[spanKey] = String(v).trim();");
m("P01f", PR, "/^\\d+$/.test(rawVersion)", "/^\\d+/.test(rawVersion)");
m("P01g", PR, "if (span && span.isRecording()) {\n    if (key === \"metadata\") {\n      for (const [k, v] of Object.entries(mergedMetadata)) {", "if (span && span.isRecording()) {\n    if (key === \"metadata\") {\n      for (const [k, v] of Object.entries(value)) {\n        if (!v) continue;");
m("P01h", PR, "if (userId && typeof userId === \"string\") {", "if (userId && typeof userId === \"string\" && userId.length < 200) {");
m("P02a", PR, "return { ...(existingMetadata as Record<string, string>), ...newMetadata };", "return { ...newMetadata, ...(existingMetadata as Record<string, string>) };");
m("P02b", PR, "return [...new Set([...existingTags, ...newTags])];", "return [...new Set([...newTags, ...existingTags])];");
m("P02c", PR, "return [...new Set([...existingTags, ...newTags])];", "return [...existingTags, ...newTags.filter((t) => !existingTags.includes(t))];");
m("P02d", PR, "return { ...(existingMetadata as Record<string, string>), ...newMetadata };", "return Object.assign(existingMetadata, newMetadata) as Record<string, string>;");
m("P02e", PR, "return [...new Set([...existingTags, ...newTags])];", "for (const t of newTags) if (!existingTags.includes(t)) existingTags.push(t);\n    return existingTags;");
m("P02f", PR, "return [...new Set([...existingTags, ...newTags])];", "const seen = new Set(existingTags.map((t) => t.toLowerCase()));\n    return [...existingTags, ...newTags.filter((t) => !seen.has(t.toLowerCase()))];");
m("P03a", PR, "baggage = baggage.setEntry(baggageKey, { value: String(value) });", "baggage = baggage.setEntry(baggageKey, { value: String(value).trim() });");
m("P03b", PR, "if (baggageKey === LANGFUSE_TRACE_ID_BAGGAGE_KEY) return;", "");
m("P03c", PR, "baggage = baggage.setEntry(`${baggageKey}_${k}`, { value: v });", "baggage = baggage.setEntry(`${baggageKey}_${k.toLowerCase()}`, { value: v });");
m("P03d", PR, "/^\\d+$/.test(baggageEntry.value)", "/^[1-9]\\d*$/.test(baggageEntry.value)");
m("P03e", PR, "            if (isValidEnvironment(baggageEntry.value)) {\n              propagatedAttributes[spanKey] = baggageEntry.value;\n            }\n\n            return;", "            propagatedAttributes[spanKey] = baggageEntry.value;\n            return;");
m("P03f", PR, "    let baggage =\n      propagation.getBaggage(context) || propagation.createBaggage();", "    let baggage = propagation.createBaggage();\n    for (const [k, e] of propagation.getBaggage(context)?.getAllEntries() ?? [])\n      if (k.startsWith(LANGFUSE_BAGGAGE_PREFIX)) baggage = baggage.setEntry(k, e);");
m("P03g", PR, "      for (const [k, v] of Object.entries(mergedMetadata)) {\n        baggage =", "      for (const [k, v] of Object.entries(value)) {\n        baggage =");
m("P04a", SP, "    this.spanExportExpectationById.set(spanId, expectedExportedAtStart);", "    if (expectedExportedAtStart) this.spanExportExpectationById.set(traceId, true);", SP, "? this.spanExportExpectationById.get(parentSpanId) === true", "? this.spanExportExpectationById.get(traceId) === true");
m("P04b", SP, "    this.spanExportExpectationById.delete(span.spanContext().spanId);", "    void 0;");
m("P04c", PR, "return entry.value.toLowerCase();", "return entry.value;");
m("P04d", SP, "const suppressedByParentClaim = propagatedClaim === traceId;", "const suppressedByParentClaim = propagatedClaim !== undefined;");
m("P04e", SP, "return this.shouldExportSpan({ otelSpan: readable }) === true;", "return this.shouldExportSpan({ otelSpan: readable }) !== false;");
m("P04f", SP, "    this.spanExportExpectationById.set(spanId, expectedExportedAtStart);", "    this.spanExportExpectationById.set(spanId, expectedExportedAtStart || (parentSpanId !== undefined && this.spanExportExpectationById.get(parentSpanId) === true));");
m("P05a", SP, "        span.attributes[key] = await this.applyMask(span.attributes[key]);", "        const masked = await this.applyMask(span.attributes[key]);\n        if (masked) span.attributes[key] = masked;");
m("P05b", SP, "      return await this.mask({ data });", "      return this.mask({ data });");
m("P05c", SP, "      LangfuseOtelSpanAttributes.TRACE_OUTPUT,\n      LangfuseOtelSpanAttributes.OBSERVATION_METADATA,\n      LangfuseOtelSpanAttributes.TRACE_METADATA,\n    ];\n\n    for (const maskCandidate", "      LangfuseOtelSpanAttributes.OBSERVATION_METADATA,\n      LangfuseOtelSpanAttributes.TRACE_METADATA,\n    ];\n\n    for (const maskCandidate");
m("P05d", SP, "    await this.applyMaskInPlace(span);\n", "    const masking = this.applyMaskInPlace(span);\n    if (!this.mediaUploadEnabled) await masking;\n");
m("P06a", SP, "=== false) {", "!== true) {");
m("P06b", SF, "attributeKey.startsWith(\"gen_ai.\")", "attributeKey.startsWith(\"gen_ai\")");
m("P06c", SF, "scope.startsWith(`${prefix}.`)", "scope.startsWith(prefix)");
m("P06d", SF, "new Set<string>([\"ai\"])", "new Set<string>([])");
m("P06e", SF, "const scope = span.instrumentationScope.name;", "const scope = span.instrumentationScope.name.toLowerCase();");
m("P06f", SF, "  \"vllm\",\n", "");
m("P07a", SP, "    await Promise.all(Array.from(this.pendingEndedSpans));\n    await this.mediaService.flush();", "    await Promise.all([...this.pendingEndedSpans, this.mediaService.flush()]);");
m("P07b", MS, "await Promise.all(Array.from(this.pendingMediaUploads));", "await Promise.race([...this.pendingMediaUploads, ...(this.pendingMediaUploads.size ? [] : [Promise.resolve()])]);");
m("P07c", SP, "    const processEndedSpanPromise = this.processEndedSpan(span).catch((err) => {\n      this.logger.error(err);\n    });", "    const processEndedSpanPromise = this.processEndedSpan(span);\n    processEndedSpanPromise.catch((err) => {\n      this.logger.error(err);\n    });");
m("P07d", SP, "  public async shutdown(): Promise<void> {\n    await this.flush();", "  public async shutdown(): Promise<void> {\n    await this.mediaService.flush();");
m("P07e", MS, "    this.pendingMediaUploads.add(uploadPromise);\n", "    if (this.pendingMediaUploads.size < 1) this.pendingMediaUploads.add(uploadPromise);\n");
m("P08a", MS, "/data:[^\\s;,:\"\\\\]+;base64,[A-Za-z0-9+/]+=*/g", "/data:[^\\s;,:\"\\\\]+;base64,[A-Za-z0-9+/]+={0,1}/g");
m("P08b", MS, "                : \"metadata\", // todo: make more robust", "                : \"output\",");
m("P08c", MS, "/data:[^\\s;,:\"\\\\]+;base64,[A-Za-z0-9+/]+=*/g", "/data:[^\\s;,:\"\\\\]+;base64,[A-Za-z0-9/]+=*/g");
m("P08d", MS, "                      contentKey = \"image\";", "");
m("P08e", MS, "        { attribute: \"gen_ai.output.messages\", field: \"output\" },", "        { attribute: \"gen_ai.output.messages\", field: \"input\" },");
m("P08f", MS, "!part[\"data\"].startsWith(\"http\")", "!part[\"data\"].includes(\"http\")");
m("P09a", ME, ".replaceAll(\"+\", \"-\")", ".replace(\"+\", \"-\")");
m("P09b", ME, "headerParts.slice(1).includes(\"base64\")", "headerParts.includes(\"base64\")");
m("P09c", ME, "const separatorIndex = data.indexOf(\",\");", "const separatorIndex = data.lastIndexOf(\",\");");
m("P09d", UT, "String.fromCharCode(byte)", "String.fromCodePoint(byte & 0x7f ? byte : byte)");
m("P09e", UT, "return Buffer.from(input, \"base64\").toString(\"utf8\");", "return Buffer.from(input, \"base64\").toString(\"latin1\");");
m("P09f", UT, "  const bytes = new TextEncoder().encode(input);\n  return bytesToBase64(bytes);", "  return btoa(unescape(encodeURIComponent(input.normalize())));");
m("P09g", ME, "urlSafeContentHash.slice(0, 22)", "urlSafeContentHash.slice(0, 22).replace(/_$/, \"-\")");
m("P19a", UT, "(r & 0x3) | 0x8", "(r & 0x7) | 0x8");
m("P19b", UT, "let r = Math.random() * 16; //", "let r = Math.round(Math.random() * 16); //");
m("P19c", UT, ".map((b) => b.toString(16).padStart(2, \"0\"))\n    .join(\"\");\n\n  return hashHex", ".map((b) => b.toString(16))\n    .join(\"\");\n\n  return hashHex");
m("P19d", UT, "const randomBytes = new Uint8Array(8);", "const randomBytes = new Uint8Array(8).fill(1);", UT, "crypto.getRandomValues(randomBytes);", "crypto.getRandomValues(randomBytes.subarray(0, 7));");
m("P19e", UT, "r = (d + r) % 16 | 0;", "r = (d + r) % 17 | 0;");
m("P24a", MU, "if (clientSideMediaId !== mediaId) {", "if (!clientSideMediaId?.startsWith(mediaId)) {");
m("P24b", MU, "attempt <= maxRetries; attempt++", "attempt < maxRetries; attempt++");
m("P24c", MU, "        uploadResponse.status !== 201\n", "        uploadResponse.status !== 201 &&\n        uploadResponse.status !== 204\n");
m("P24d", MU, "parsedHostname.endsWith(\".storage.googleapis.com\")", "parsedHostname.endsWith(\"storage.googleapis.com\")");
m("P24e", MU, "uploadHttpStatus: uploadResponse.status,", "uploadHttpStatus: uploadSucceeded ? 200 : uploadResponse.status,");
m("P24f", MU, "baseDelay * Math.pow(2, attempt)", "baseDelay * (attempt + 1)");
m("P24g", MU, "  const uploadSucceeded =\n    uploadResponse.status === 200 || uploadResponse.status === 201;", "  const uploadSucceeded = uploadResponse.status < 500;");

const PC = "client/src/prompt/promptCache.ts", PM = "client/src/prompt/promptManager.ts", PL = "client/src/prompt/promptClients.ts", SC = "client/src/score/index.ts", DS = "client/src/dataset/index.ts", JP = "client/src/dataset/jsonPath.ts", CM = "client/src/media/index.ts", EM = "client/src/experiment/ExperimentManager.ts", BI = "browser/src/index.ts", BU = "browser/src/utils.ts", TA = "tracing/src/attributes.ts", TI = "tracing/src/index.ts";
m("P10a", PC, "return Date.now() > this._expiry;", "return Date.now() >= this._expiry + 1000;");
m("P10b", PC, "if (version !== undefined) {", "if (version) {");
m("P10c", PC, ".catch(() => {\n        this._refreshingKeys.delete(key);\n      })", ".catch(() => {})", PM, "}).catch(() => {\n          this.logger.warn(", "}).catch((e) => {\n          if (e) throw e;\n          this.logger.warn(");
m("P10d", PM, "this.cache.invalidate(name);\n\n    return newPrompt;", "if (newLabels.length) this.cache.invalidate(name);\n\n    return newPrompt;");
m("P10e", PM, "if (!this.cache.isRefreshing(cacheKey)) {", "if (!this.cache.isRefreshing(name)) {");
m("P10f", PM, "if (!cachedPrompt || options?.cacheTtlSeconds === 0) {", "if (!cachedPrompt || (options?.cacheTtlSeconds === 0 && cachedPrompt.isExpired)) {");
m("P10g", PC, "ttlSeconds ?? this._defaultTtlSeconds", "ttlSeconds || this._defaultTtlSeconds");
m("P10h", PM, "version: options?.version ?? 0,", "version: 0,");
m("P10i", PM, "timeoutInSeconds: fetchTimeoutMs ? fetchTimeoutMs / 1_000 : undefined,", "timeoutInSeconds: fetchTimeoutMs ? Math.floor(fetchTimeoutMs / 1_000) : undefined,");
m("P10j", PM, "labels: options.label ? [options.label] : [],", "labels: [],");
m("P11a", PL, "mustache.escape = function (text) {\n  return text;\n};", "mustache.escape = function (text) {\n  return typeof text === \"string\" ? text.replace(/\\u0000/g, \"\") : text;\n};");
m("P11b", PL, "placeholderValue.length > 0 &&\n          placeholderValue.every(\n            (msg) =>\n              typeof msg === \"object\" &&\n              msg !== null &&\n              \"role\" in msg &&\n              \"content\" in msg,\n          )\n        ) {\n          messagesWithPlaceholdersReplaced.push(\n            ...(placeholderValue as ChatMessage[]),", "placeholderValue.length > 0 &&\n          placeholderValue.every(\n            (msg) =>\n              typeof msg === \"object\" &&\n              msg !== null &&\n              \"role\" in msg,\n          )\n        ) {\n          messagesWithPlaceholdersReplaced.push(\n            ...(placeholderValue as ChatMessage[]),");
m("P11c", PL, "return {\n          ...item,\n          content: mustache.render(item.content, ownValues(variables)),\n        };", "item.content = mustache.render(item.content, ownValues(variables));\n        return item;");
m("P11d", PL, "return mustache.render(this.promptResponse.prompt, ownValues(variables));", "return mustache.render(this.promptResponse.prompt.trim(), ownValues(variables));");
m("P12a", PL, "while (j < n && /\\s/.test(text[j])) {", "while (j < n && text[j] === \" \") {");
m("P12b", PL, "messagesWithPlaceholdersReplaced.push([\n            \"placeholder\",\n            `{${item.name}}`,\n          ]);", "messagesWithPlaceholdersReplaced.unshift([\n            \"placeholder\",\n            `{${item.name}}`,\n          ]);");
m("P13a", SC, "this.eventQueue.splice(0, MAX_BATCH_SIZE)", "this.eventQueue.splice(-MAX_BATCH_SIZE)");
m("P13b", SC, "while (this.eventQueue.length > 0) {", "if (this.eventQueue.length > 0) {");
m("P13c", SC, "if (this.flushTimer) {\n        clearTimeout(this.flushTimer);\n        this.flushTimer = null;\n      }", "if (this.flushTimer) {\n        clearTimeout(this.flushTimer);\n      }");
m("P13d", SC, "if (this.eventQueue.length >= this.flushAtCount) {", "if (this.eventQueue.length > this.flushAtCount) {");
m("P13e", SC, ".catch((err) => {\n              this.logger.error(\"Failed to export score batch:\", err);\n            }),", ".catch((err) => {\n              this.logger.error(\"Failed to export score batch:\", err);\n              this.eventQueue.unshift(...batch);\n            }),");
m("P13f", SC, "await Promise.all(promises);", "await Promise.race(promises);");
m("P13g", SC, "id: data.id ?? generateUUID(),", "id: data.id || data.name,");
m("P14a", EM, "length: Math.min(maxConcurrency, data.length)", "length: Math.min(maxConcurrency + 1, data.length)");
m("P14b", EM, "acc.push(...promiseResult.value.flat());", "acc.push(...promiseResult.value.flat().filter((e) => e.value));");
m("P14c", EM, "this.langfuseClient.score.create({ datasetRunId, ...runEval }),", "this.langfuseClient.score.create({ ...runEval, datasetRunId, value: Number(runEval.value) }),");
m("P14d", EM, "expectedOutput: item.expectedOutput as any,\n          output,", "expectedOutput: (item.expectedOutput || undefined) as any,\n          output,");
m("P14e", EM, "if (datasetItemId) {\n          try {", "{\n          try {");
m("P14f", EM, "? evaluation.value.toFixed(3)", "? evaluation.value.toFixed(2)");
m("P14g", EM, "const avg = scores.reduce((a, b) => a + b, 0) / scores.length;", "const avg = scores.reduce((a, b) => a + b, 0) / totalItems;");
m("P14h", EM, "const datasetRunId = itemResults.find(\n      (item) => item.datasetRunId,\n    )?.datasetRunId;", "const datasetRunId = itemResults[0]?.datasetRunId;");
m("P15a", DS, "if (itemsResponse.meta.totalPages <= page) {", "if (itemsResponse.meta.totalPages <= page || itemsResponse.data.length === 0) {");
m("P15b", DS, "if (!collected.has(mediaId)) {", "if (!collected.has(mediaId) && collected.size < 2) {");
m("P15c", DS, "limit: options?.fetchItemsPageSize ?? 50,\n        page,", "limit: options?.fetchItemsPageSize ?? 50,\n        page: page,", DS, "page++;", "page += itemsResponse.data.length ? 1 : 2;");
m("P15d", JP, "Number.parseInt(jsonPath.slice(start, i), 10)", "Number.parseInt(jsonPath[start], 10)");
m("P15e", DS, "ancestors: Set<unknown> = new Set(),", "ancestors: Set<unknown> = new Set(),", DS, "const nextAncestors = new Set(ancestors).add(data);", "const nextAncestors = ancestors.add(data);");
m("P15f", DS, "itemRecord[itemKey] = setValueAtPath(", "item.metadata = setValueAtPath(");
m("P16a", BI, "if (response.errors.length > 0) {", "if (response.errors.length > 0 && response.successes.length === 0) {");
m("P16b", BI, "(success) => success?.id === event.id,", "(success) => success?.id === event.id || success?.id === scoreId,");
m("P16c", BU, "has(name.toLowerCase())", "has(name.toLowerCase().trim()) && name.length > 0");
m("P16d", BI, "if (!response.ok) {", "if (response.status >= 400) {");
m("P16e", BI, "environment: body.environment ?? this.environment,", "environment: this.environment ?? body.environment,");
m("P16f", BU, "while (end > 0 && url.charCodeAt(end - 1) === 47) {", "if (end > 0 && url.charCodeAt(end - 1) === 47) {");
m("P16g", BI, "const scoreId = body.id ?? generateUUID(globalThis);", "const scoreId = body.id?.trim() ?? generateUUID(globalThis);");
m("P17a", TI, "const result = context.with(activeContext, () => fn.apply(this, args));", "const result = context.with(activeContext, () => fn(...args));");
m("P17b", TI, "if (endOnExit !== false) {\n        span.end(); // End span AFTER Promise rejects\n      }", "if (endOnExit) {\n        span.end();\n      }");
m("P17c", TI, "message: err instanceof Error ? err.message : \"Unknown error\",\n      });\n      if (endOnExit", "message: (err as Error).message,\n      });\n      if (endOnExit");
m("P17d", TI, "createParentContext(observationOptions?.parentSpanContext) ??\n      context.active(),", "context.active(),");
m("P17e", TI, "(error: unknown) => {\n            observation.updateOtelSpanAttributes({\n              level: \"ERROR\",", "(error: unknown) => {\n            observation.updateOtelSpanAttributes({\n              level: error instanceof Error ? \"ERROR\" : \"WARNING\",");
m("P17f", TI, "if (result instanceof Promise) {\n        return result.then(\n          (value) => {\n            if (captureOutput) {", "if (result instanceof Promise) {\n        return result.then(\n          (value) => {\n            if (captureOutput && value !== null) {");
m("P18a", TA, "return obj != null ? JSON.stringify(obj) : undefined;", "return obj ? JSON.stringify(obj) : undefined;");
m("P18b", TA, "...(prompt && !prompt.isFallback", "...(prompt && prompt.isFallback !== true && prompt.version");
m("P18c", TA, "Object.entries(otelAttributes).filter(([_, v]) => v != null),", "Object.entries(otelAttributes).filter(([_, v]) => v != null && v !== \"\"),");
m("P18d", TA, "typeof value === \"string\" ? value : _serialize(value);", "typeof value === \"string\" ? value : _serialize(value ?? \"\");");
m("P18e", TA, "} catch {\n    return \"<failed to serialize>\";\n  }", "} catch (e) {\n    if (e instanceof RangeError) return undefined;\n    throw e;\n  }");
m("P19f", TI, "if (seed) {", "if (seed?.trim()) {");
m("P19g", TI, "uint8ArrayToHex(hashArray).slice(0, 32)", "uint8ArrayToHex(hashArray).slice(-32)");
m("P25a", CM, "const { obj, maxDepth = 10 } = params;", "const { obj, maxDepth = 9 } = params;");
m("P25b", CM, "if (mediaContent.status !== 200) {", "if (mediaContent.status >= 400) {");
m("P25c", CM, "data:${mediaData.contentType};base64", "data:${parsedMediaReference.contentType};base64");
m("P25d", CM, "/@@@langfuseMedia:.+?@@@/g", "/@@@langfuseMedia:.+@@@/g");
m("P25e", ME, "expiryMs - Date.now() <= thresholdSeconds * 1000", "expiryMs - Date.now() <= thresholdSeconds");

const OT = "openai/src/traceMethod.ts", OP = "openai/src/parseOpenAI.ts", OO = "openai/src/observeOpenAI.ts", OU = "openai/src/utils.ts";
m("P20a", OT, "    } finally {\n      // Also reached", "    }\n    {\n      // Also reached");
m("P20b", OT, "        yield rawChunk;\n      }\n    } catch (error) {", "        if (processedChunk.data.length || !(rawChunk as any)?.choices?.[0]?.delta || (rawChunk as any).choices[0].delta.content !== \"\") yield rawChunk;\n      }\n    } catch (error) {");
m("P20c", OT, "      throw error;\n    } finally {", "      if (textChunks.length === 0) throw error;\n    } finally {");
m("P20d", OT, "return wrapAsyncIterable(res, generation);", "return wrapAsyncIterable(res, generation, );", OT, "    const response = iterable;", "    const response = iterable;\n    const it = response[Symbol.asyncIterator]();", OT, "for await (const rawChunk of response as AsyncIterable<unknown>) {", "for (let step = await it.next(); !step.done; step = await it.next()) {\n        const rawChunk: any = step.value;");
m("P20e", OO, "withTracing(originalProperty.bind(wrappedSdk), config)", "withTracing(originalProperty.bind(sdk.constructor === Object ? undefined : wrappedSdk), config)");
m("P20f", OT, "              throw err;\n            });", "              throw err instanceof Error ? err : new Error(String(err));\n            });");
m("P20g", OT, "parentSpanContext: config?.parentSpanContext,", "parentSpanContext: trace.getActiveSpan() ? undefined : config?.parentSpanContext,", OT, "import type OpenAI from \"openai\";", "import { trace } from \"@opentelemetry/api\";\nimport type OpenAI from \"openai\";");
m("P20h", OO, "        !(originalProperty instanceof Date) &&\n", "");
m("P20i", OT, "            .catch((err) => {\n              generation\n                .update({\n                  statusMessage: String(err),", "            .catch((err) => {\n              generation\n                .update({\n                  statusMessage: err?.message,");
m("P20j", OT, "            .then((result) => {\n              if (isAsyncIterable(result)) {", "            .then((result) => {\n              if (!result) return result;\n              if (isAsyncIterable(result)) {");
m("P20k", OT, "userId: config?.userId,", "userId: config?.sessionId ? undefined : config?.userId,");
m("P20l", OT, "completionStartTime = completionStartTime ?? new Date();", "completionStartTime = new Date();");
m("P20m", OT, "prompt: config?.langfusePrompt,", "prompt: config?.generationMetadata ? undefined : config?.langfusePrompt,");
m("P20n", OT, "          ...config?.generationMetadata,\n        response_format:", "          response_format:");
m("P20o", OO, "observeOpenAI(originalProperty, config)", "observeOpenAI(originalProperty, { generationName: config.generationName, traceName: config.traceName, userId: config.userId, sessionId: config.sessionId, tags: config.tags, generationMetadata: config.generationMetadata, langfusePrompt: config.langfusePrompt } as any)");
m("P20p", OO, "langfuseConfig?.generationName ?? defaultGenerationName;", "langfuseConfig?.generationName || defaultGenerationName;");
m("P21a", OT, "usage = rawChunk.usage as OpenAI.CompletionUsage | null;", "usage = usage ?? (rawChunk.usage as OpenAI.CompletionUsage | null);");
m("P21b", OP, "const index = toolCall?.index ?? 0;", "const index = toolCall?.index || toolCalls.size - 1;");
m("P21c", OP, "current.function.name = toolCall?.function?.name || current.function.name;", "current.function.name = current.function.name || toolCall?.function?.name || \"\";\n    if (toolCall?.function?.name && toolCall.function.arguments === \"{}\") continue;");
m("P21d", OP, "tool_calls: Array.from(toolCalls.values()),", "tool_calls: Array.from(toolCalls.values()).filter((t) => t.function.arguments),");
m("P21e", OP, "    if (chunkData.index > 0) {\n      return { isToolCall: false, data: \"\" };\n    }", "");
m("P21f", OP, "text: chunkData.delta.content || \"\",", "text: \"\",");
m("P21g", OP, "`output_${key}`,\n        value as number,\n      ]),\n    );\n\n    let", "`output_${key.replace(\"_tokens\", \"\")}`,\n        value as number,\n      ]),\n    );\n\n    let");
m("P21h", OP, "    Object.keys(output_tokens_details ?? {}).forEach((key) => {", "    Object.keys(output_tokens_details ?? {}).slice(0, 1).forEach((key) => {");
m("P21i", OP, "return \"message\" in choice ? choice.message : (choice.text ?? \"\");", "return choice.message ?? (choice.text || choice.delta || \"\");");
m("P21j", OP, "return \"message\" in choice ? choice.message : (choice.text ?? \"\");", "return \"message\" in choice ? (choice.message.content ?? choice.message) : (choice.text ?? \"\");");
m("P21k", OP, "    if (output.length > 1) {\n      return output;\n    }", "    if (output.length > 1) {\n      return output.filter((o: any) => o?.type !== \"reasoning\");\n    }");
m("P21l", OP, "if (val !== null && val !== undefined) {", "if (val) {");
m("P21m", OT, "          output = parseCompletionOutput(result);\n          usageDetails = parse", "          output = parseCompletionOutput(result);\n          usageDetails = usageDetails ?? parse");
m("P21n", OT, "          output = parseCompletionOutput(result);\n          usageDetails = parse", "          output = output ?? parseCompletionOutput(result);\n          usageDetails = parse");
m("P21o", OP, "    if (\"tools\" in args) {\n      input.tools = args.tools;\n    }", "    if (args.tools?.length > 1) {\n      input.tools = args.tools;\n    }");
m("P21p", OP, "temperature: args.temperature,", "temperature: args.temperature || undefined,");
m("P21q", OP, "finalInputTokens = Math.max(finalInputTokens - value, 0);", "finalInputTokens = Math.max(finalInputTokens - value, 1);");
m("P21r", OP, "res[\"output_text\"] !== \"\"", "res[\"output_text\"] !== undefined");
m("P21s", OP, "      (typeof obj.usage.input_tokens === \"number\" &&", "      (typeof obj.usage.input_tokens === \"number\" && obj.usage.input_tokens > 0 &&");
m("P21t", OP, "if (\"text\" in chunkData) {\n      return { isToolCall, data: chunkData.text || \"\" };\n    }", "");
m("P21u", OP, "current.function.arguments += toolCall?.function?.arguments || \"\";", "current.function.arguments += toolCall?.function?.arguments?.trim() || \"\";");

const LC = "langchain/src/CallbackHandler.ts";
m("P22a", LC, "delete this.completionStartTimes[runId];\n  }\n  private", "}\n  private", LC, "      if (runId in this.completionStartTimes) {\n        delete this.completionStartTimes[runId];\n      }", "");
m("P22b", LC, "    if (registeredPrompt && parentRunId) {\n      this.deregisterLangfusePrompt(parentRunId);\n    }", "");
m("P22c", LC, "this.runMap.get(parentRunId)?.otelSpan.spanContext()", "(this.runMap.get(parentRunId) ?? [...this.runMap.values()].pop())?.otelSpan.spanContext()");
m("P22d", LC, "if (value !== undefined && value !== null) {\n        modelParameters", "if (value) {\n        modelParameters");
m("P22e", LC, "invocationParamsModelName ?? metadataModelName", "metadataModelName ?? invocationParamsModelName");
m("P22f", LC, "usageDetails[\"output\"] = Math.max(0, usageDetails[\"output\"] - val);", "usageDetails[\"output\"] = Math.max(0, usageDetails[\"output\"] - (key === \"audio\" ? 0 : val));");
m("P22g", LC, "if (!parentRunId) {\n        const traceTags", "if (!parentRunId || !this.runMap.has(parentRunId)) {\n        const traceTags");
m("P22h", LC, "output.generations[output.generations.length - 1].length - 1\n        ];", "0\n        ];");
m("P22i", LC, "        (response as any)[\"tool_calls\"] = message[\"tool_calls\"];\n      }\n      if", "        (response as any)[\"tool_calls\"] = message[\"tool_calls\"].slice(0, 1);\n      }\n      if");
m("P22j", LC, "    } else if (message.getType() === \"system\") {\n      response = { content: message.content, role: \"system\" };", "    } else if (message.getType() === \"system\") {\n      response = { content: String(message.content), role: \"system\" };");
m("P22k", LC, "Array.isArray(inputs[\"messages\"]) &&\n        inputs[\"messages\"].every((m: unknown) => m instanceof BaseMessage)", "Array.isArray(inputs[\"messages\"]) &&\n        inputs[\"messages\"].some((m: unknown) => m instanceof BaseMessage)");
m("P22l", LC, "        finalInput = inputs[\"content\"];", "        finalInput = inputs[\"content\"].trim();");
m("P22m", LC, "        finalOutput = {\n          messages: outputs.messages.map", "        finalOutput = {\n          messages: outputs.messages.slice(-1).map");
m("P22n", LC, "const prompts = messages.flatMap((message) =>", "const prompts = messages.slice(0, 1).flatMap((message) =>");
m("P22o", LC, "this.last_trace_id = span.traceId;\n    this.runMap.delete(runId);", "this.last_trace_id = span.traceId;\n    if (!this.promptToParentRunMap.has(runId)) this.runMap.delete(runId);");
m("P22p", LC, "if (runId && !(runId in this.completionStartTimes)) {", "if (token && runId && !(runId in this.completionStartTimes)) {");
m("P22q", LC, "metadata: this.joinTagsAndMetaData(tags, metadata),", "metadata: this.joinTagsAndMetaData(parentRunId ? tags : undefined, metadata),");
m("P22r", LC, "if (metadata && \"langfusePrompt\" in metadata && parentRunId) {", "if (metadata && \"langfusePrompt\" in metadata && parentRunId && !this.promptToParentRunMap.has(parentRunId)) {");
m("P22s", LC, "\"\\n\\nError details:\\n\" + JSON.stringify(err[\"error\"], null, 2);\n      } catch {}", "\"\\n\\nError details:\\n\" + JSON.stringify(err[\"error\"], null, 2);\n      } catch {\n        return \"\\n\\n\" + err.error.message;\n      }");
m("P22t", LC, "    const observationAttributes = {\n      version: this.version,", "    const observationAttributes = {\n      version: parentRunId ? undefined : this.version,");
m("P22u", LC, "this.runMap.get(runId)?.update({ output: action });", "this.runMap.get(runId)?.update({ output: action }).end();\n      this.runMap.delete(runId);");
m("P22v", LC, "{ parentSpanContext: agent?.otelSpan.spanContext() },", "{ parentSpanContext: (parentRunId ? this.runMap.get(parentRunId) : agent)?.otelSpan.spanContext() },");
m("P22w", LC, "      // The run is over even if its output could not be read\n      this.handleOtelSpanEnd({ runId });\n    }\n  }\n\n  async handleLLMError", "}\n  }\n\n  async handleLLMError");
m("P22x", LC, "...(toolChoice !== undefined\n                  ? { tool_choice: toolChoice }", "...(toolChoice !== undefined && tools\n                  ? { tool_choice: toolChoice }");
m("P22y", LC, "      } else if (\n        typeof outputs === \"object\" &&\n        \"messages\" in outputs", "      } else if (\n        typeof outputs === \"object\" && !(\"output\" in outputs) &&\n        \"messages\" in outputs");
m("P22z", LC, "typeof metadata[\"langfuseSessionId\"] === \"string\"\n            ? metadata[\"langfuseSessionId\"]\n            : this.sessionId;", "typeof metadata[\"langfuseSessionId\"] === \"string\"\n            ? (this.sessionId ?? metadata[\"langfuseSessionId\"])\n            : this.sessionId;");

const VU = "vercel-ai-sdk/src/utils.ts", VI = "vercel-ai-sdk/src/LangfuseVercelAiSdkIntegration.ts";
m("P23a", VU, "  \"reranking\",\n]", "]");
m("P23b", VU, "      if (serialized != null) {", "      if (serialized) {");
m("P23c", VU, "  if (!isPlainObject(value)) {\n    return;\n  }", "  if (!isPlainObject(value) || Object.getPrototypeOf(value) !== Object.prototype) {\n    return;\n  }");
m("P23d", VU, "typeof value.isFallback === \"boolean\" ? value.isFallback : false", "Boolean(value.isFallback)");
m("P23e", VU, "typeof value.version !== \"number\"", "!value.version");
m("P23f", VU, "  const { langfusePrompt, ...metadata } = runtimeContext;", "  const { langfusePrompt, ...metadata } = runtimeContext;\n  if (langfusePrompt !== undefined && !normalizePrompt(langfusePrompt)) (metadata as any).langfusePrompt = langfusePrompt;");
m("P23g", VI, "    this.delegate.onAbort(event);", "    this.delegate.onEnd(event as any);");
m("P23h", VI, "return this.delegate.executeTool(params);", "return this.delegate.executeTool({ ...params, execute: async () => params.execute() });");
m("P23i", VU, "`${LangfuseOtelSpanAttributes.OBSERVATION_METADATA}.${key}`", "`${LangfuseOtelSpanAttributes.OBSERVATION_METADATA}.${key.trim()}`");
m("P23j", VU, "    return JSON.stringify(value);\n  } catch {", "    return JSON.stringify(value, (_k, v) => v ?? undefined);\n  } catch {");
const AF = "core/src/api/core/fetcher/", AC = "core/src/api/core/", AR = "core/src/api/api/resources/";
m("P26a", AF + "requestWithRetries.ts", "response.status >= 500) {", "response.status > 500) {");
m("P26b", AF + "requestWithRetries.ts", "return Math.min(Math.max(delay, 0), MAX_RETRY_DELAY);", "return Math.max(delay, 0);");
m("P26c", AF + "requestWithRetries.ts", "return addPositiveJitter(Math.min(delay, MAX_RETRY_DELAY));", "return Math.min(addPositiveJitter(delay) - delay, MAX_RETRY_DELAY);");
m("P26d", AC + "headers.ts", "    } else if (key in result) {\n      delete result[key];\n    }", "}");
m("P26e", AC + "url/qs.ts", "  if (value === null) {\n    return \"\";\n  }\n", "  if (value === null || value === false) {\n    return \"\";\n  }\n");
m("P26f", AC + "url/qs.ts", "        if (item === undefined) {\n          continue;\n        }", "        if (!item) {\n          continue;\n        }");
m("P26g", AC + "url/join.ts", "    return url.toString();", "    return url.origin + url.pathname;");
m("P26h", AR + "comments/client/Client.ts", "maxRetries: requestOptions?.maxRetries,\n      abortSignal: requestOptions?.abortSignal,\n    });\n    if (_response.ok) {\n      return {\n        data: _response.body as LangfuseAPI.CreateCommentResponse,", "abortSignal: requestOptions?.abortSignal,\n    });\n    if (_response.ok) {\n      return {\n        data: _response.body as LangfuseAPI.CreateCommentResponse,");
m("P26i", AF + "Fetcher.ts", "    if (args.abortSignal != null && args.abortSignal.aborted) {", "    if (args.abortSignal?.aborted && args.timeoutMs === undefined) {");
m("P26j", AF + "getErrorResponseBody.ts", "return await response.text();", "return undefined;");
m("P26k", AC + "auth/BasicAuth.ts", "base64Encode(`${basicAuth.username}:${basicAuth.password}`)", "base64Encode(`${basicAuth.username}:${basicAuth.password.trim()}`)");
m("P26l", AF + "makeRequest.ts", "  if (timeoutAbortId != null) {\n    clearTimeout(timeoutAbortId);\n  }\n\n  return", "  return");
m("P26m", AF + "requestWithRetries.ts", "parseInt(retryAfter, 10)", "parseInt(retryAfter, 8)");
m("P26n", AF + "Fetcher.ts", "      error === TIMEOUT ||\n", "");
m("P26o", AR + "comments/client/Client.ts", "        case 400:\n          throw new LangfuseAPI.Error(", "        case 400: if (!requestOptions)\n          throw new LangfuseAPI.Error(");
m("P26p", AC + "url/join.ts", "  if (str.endsWith(\"/\")) end = str.length - 1;", "  if (str.endsWith(\"/\") || str.endsWith(\".\")) end = str.length - 1;");
m("P26q", AF + "signals.ts", "    if (signal.aborted) {", "    if (signal.aborted && signals.length > 2) {");
m("P26r", AF + "Fetcher.ts", "response.status >= 200 && response.status < 400", "response.status >= 200 && response.status <= 400");

const CL = "client/src/LangfuseClient.ts", LG = "core/src/logger/index.ts";
m("P27a", CL, "getEnv(\"LANGFUSE_BASE_URL\") ??\n      getEnv(\"LANGFUSE_BASEURL\") ??", "getEnv(\"LANGFUSE_BASEURL\") ??\n      getEnv(\"LANGFUSE_BASE_URL\") ??");
m("P27b", SP, "params?.timeout ?? Number(getEnv(\"LANGFUSE_TIMEOUT\") ?? 5)", "params?.timeout || Number(getEnv(\"LANGFUSE_TIMEOUT\") ?? 5)");
m("P27c", LG, "return level >= this.config.level;", "return level > this.config.level - 1 && level !== LogLevel.NONE - this.config.level;");
m("P27d", LG, "this.config.prefix || \"[Langfuse SDK]\"", "this.config.prefix?.trim() || \"[Langfuse SDK]\"");
m("P27e", CL, "getEnv(\"LANGFUSE_SECRET_KEY\")", "getEnv(\"LANGFUSE_SECRET_KEY\")?.trim()");
m("P27f", SP, "params?.flushInterval ?? getEnv(\"LANGFUSE_FLUSH_INTERVAL\")", "getEnv(\"LANGFUSE_FLUSH_INTERVAL\") ?? params?.flushInterval");
m("P27g", CL, "this.fetchSessions = this.api.sessions.get.bind(this.api.sessions);", "this.fetchSessions = ((q: any) => this.api.sessions.get(q)) as any;");
m("P27h", CL, "headers: params?.additionalHeaders,", "headers: { ...params?.additionalHeaders, \"x-langfuse-sdk-name\": \"javascript\" },");
m("P27i", SP, "headers: params?.additionalHeaders,", "");
m("P27j", SP, "          ...params?.additionalHeaders,\n", "");
m("P27k", CL, "if (!projectId) {\n      projectId", "if (!projectId || !traceId) {\n      projectId");
m("P27l", LG, "console.info(", "console.log(");
m("P27m", LG, "getEnv(\"LANGFUSE_DEBUG\")?.toLowerCase() === \"true\"", "getEnv(\"LANGFUSE_DEBUG\") === \"true\"");
m("P27n", UT, "typeof process !== \"undefined\" && process.env[key]", "typeof process !== \"undefined\" && process.env[key] !== undefined");
m("P28a", "tracing/src/tracerProvider.ts", "getGlobalState().isolatedTracerProvider = provider;", "if (provider) getGlobalState().isolatedTracerProvider = provider;");
m("P28b", "tracing/src/tracerProvider.ts", "getGlobalState().isolatedTracerProvider = provider;", "getGlobalState().isolatedTracerProvider ??= provider;");
m("P28c", "tracing/src/tracerProvider.ts", "export function getLangfuseTracer() {\n  return getLangfuseTracerProvider().getTracer(\n    LANGFUSE_TRACER_NAME,\n    LANGFUSE_SDK_VERSION,\n  );", "let cached: any;\nexport function getLangfuseTracer() {\n  return (cached ??= getLangfuseTracerProvider().getTracer(\n    LANGFUSE_TRACER_NAME,\n    LANGFUSE_SDK_VERSION,\n  ));");
m("P28d", "tracing/src/index.ts", "return getLangfuseTracer().startActiveSpan(", "return trace.getTracer(\"langfuse-sdk\").startActiveSpan(");
m("P28e", "tracing/src/index.ts", "return trace.getActiveSpan()?.spanContext().spanId;", "return trace.getActiveSpan()?.isRecording() ? trace.getActiveSpan()?.spanContext().spanId : undefined;");
m("P28f", "tracing/src/index.ts", "{ startTime: params.startTime },", "{},");
m("P28g", "tracing/src/index.ts", "{ startTime: observationOptions?.startTime },", "{},");
m("P28h", "tracing/src/tracerProvider.ts", "    LANGFUSE_TRACER_NAME,\n    LANGFUSE_SDK_VERSION,\n  );", "    LANGFUSE_TRACER_NAME,\n  );");
m("P28i", "tracing/src/index.ts", "const timestamp = observationOptions?.startTime ?? new Date();\n              observation", "const timestamp = new Date();\n              observation");
m("P29a", "client/src/prompt/promptManager.ts", "type: body.type ?? \"text\",", "type: \"text\" as const,");
m("P29b", "client/src/prompt/promptManager.ts", "                return {\n                  type: ChatMessageType.Placeholder,\n                  name: item.name,\n                } as PlaceholderMessage;", "                return item as PlaceholderMessage;");
m("P29c", "client/src/prompt/promptManager.ts", "                return {\n                  ...item,\n                  type: ChatMessageType.ChatMessage,\n                } as ChatMessage;", "                return {\n                  role: (item as any).role,\n                  content: (item as any).content,\n                  type: ChatMessageType.ChatMessage,\n                } as ChatMessage;");
m("P29d", "client/src/prompt/promptManager.ts", "    if (promptResponse.type === \"chat\") {\n      return new ChatPromptClient(promptResponse);", "    if (body.type === \"chat\") {\n      return new ChatPromptClient(promptResponse as any);");
m("P29e", "client/src/prompt/promptManager.ts", "version: options?.version,\n      label: options?.label,", "version: options?.version,\n      label: options?.version ? undefined : options?.label,");
m("P29f", "client/src/prompt/promptManager.ts", "      newLabels,\n    });", "      newLabels: newLabels.filter(Boolean),\n    });");
m("P29g", "client/src/prompt/promptClients.ts", "    this.commitMessage = prompt.commitMessage;", "    this.commitMessage = prompt.commitMessage ?? undefined;");
m("P29h", "client/src/prompt/promptClients.ts", "prompt: this.promptResponse.prompt.map((item) => {\n        if (\"type\" in item && item.type === ChatMessageType.ChatMessage) {", "prompt: this.promptResponse.prompt.map((item) => {\n        if (\"type\" in item) {");
m("P29i", "client/src/prompt/promptClients.ts", "      isFallback: this.isFallback,\n      tags: this.tags,\n      labels: this.labels,\n      type: this.type,\n      config: this.config,\n    });\n  }\n}\n\n/**\n * Client for working with chat", "      isFallback: false,\n      tags: this.tags,\n      labels: this.labels,\n      type: this.type,\n      config: this.config,\n    });\n  }\n}\n\n/**\n * Client for working with chat");
m("P29j", "client/src/prompt/promptClients.ts", "this.config = prompt.config;", "this.config = prompt.config ?? {};");
m("P29k", "client/src/prompt/promptClients.ts", "this.labels = prompt.labels;", "this.labels = [...new Set(prompt.labels)].sort();");
m("P29l", "client/src/prompt/promptClients.ts", "type: ChatMessageType.ChatMessage,\n          ...(item as Omit<ChatMessage, \"type\">),", "type: ChatMessageType.ChatMessage,\n          role: item.role,\n          content: item.content,");
m("P29m", "client/src/prompt/promptClients.ts", "const { type: _, ...messageWithoutType } = item;\n          return messageWithoutType;", "return { role: item.role, content: item.content };");
m("P30a", "client/src/experiment/RunnerContext.ts", "const resolvedData = params.data ?? this.data;", "const resolvedData = params.data?.length ? params.data : this.data;");
m("P30b", "client/src/experiment/RunnerContext.ts", "            ...(this.metadata ?? {}),\n            ...(params.metadata ?? {}),", "            ...(params.metadata ?? {}),\n            ...(this.metadata ?? {}),");
m("P30c", "client/src/experiment/RunnerContext.ts", "params.datasetVersion ?? this.datasetVersion", "params.datasetVersion || this.datasetVersion");
m("P30d", "client/src/experiment/RunnerContext.ts", "const mergedMetadata =\n      this.metadata === undefined && params.metadata === undefined\n        ? undefined\n        : {", "const mergedMetadata =\n      this.metadata === undefined || params.metadata === undefined\n        ? params.metadata\n        : {");
m("P30e", "client/src/experiment/RunnerContext.ts", "${threshold !== undefined ?", "${threshold ?");
m("P30f", "client/src/experiment/RunnerContext.ts", "(metric !== undefined && value !== undefined", "(metric && value");
m("P30g", "client/src/experiment/RunnerContext.ts", "message ??\n", "message ||\n");
m("P30h", "client/src/experiment/adapters.ts", "      ...(params ?? {}),\n      input: langfuseEvaluatorParams.input,\n      output: langfuseEvaluatorParams.output,\n      expected: langfuseEvaluatorParams.expectedOutput,", "      input: langfuseEvaluatorParams.input,\n      output: langfuseEvaluatorParams.output,\n      expected: langfuseEvaluatorParams.expectedOutput,\n      ...(params ?? {}),");
m("P30i", "client/src/experiment/adapters.ts", "value: score.score ?? 0,", "value: score.score || 0,");
m("P30j", "client/src/experiment/adapters.ts", "      metadata: score.metadata,", "      metadata: score.metadata ?? undefined,");
m("P30k", "client/src/experiment/RunnerContext.ts", "    this.threshold = threshold;", "    this.threshold = threshold || undefined;");
m("P30l", "client/src/experiment/RunnerContext.ts", "if (resolvedData === undefined) {", "if (!resolvedData || resolvedData.length === 0) {");
M.push(...require("./mutants2.js"));
M.push(...require("./mutants3.js"));
module.exports = M;
