"use strict";
const M = []; const m = (id, file, a, b, ...more) => { const edits = [[file, a, b]]; for (let i = 0; i < more.length; i += 3) edits.push([more[i], more[i + 1], more[i + 2]]); M.push({ id, prop: id.slice(0, 3), edits }); };
const PR = "core/src/propagation.ts", SP = "otel/src/span-processor.ts", MS = "otel/src/MediaService.ts", SF = "otel/src/span-filter.ts", ME = "core/src/media.ts", MU = "core/src/mediaUpload.ts", UT = "core/src/utils.ts", PM = "client/src/prompt/promptManager.ts", PC = "client/src/prompt/promptCache.ts", CL = "client/src/prompt/promptClients.ts", SC = "client/src/score/index.ts", EX = "client/src/experiment/ExperimentManager.ts", DS = "client/src/dataset/index.ts", JP = "client/src/dataset/jsonPath.ts", MM = "client/src/media/index.ts", BR = "browser/src/index.ts", BU = "browser/src/utils.ts", TI = "tracing/src/index.ts", AT = "tracing/src/attributes.ts", SW = "tracing/src/spanWrapper.ts", TP = "tracing/src/tracerProvider.ts";
// P01
m("P01A", PR, "    if (validTags.length > 0) {", "    if (validTags.length === tags.length) {");
m("P01B", PR, "        attributeName: \"tag\",\n      }),\n    );", "        attributeName: \"tag\",\n      }) && tag !== \"\",\n    );");
m("P01C", PR, "    const spanKey = getSpanKeyForPropagatedKey(\"promptVersion\");\n\n    propagatedAttributes[spanKey] = promptVersion;", "    const spanKey = getSpanKeyForPropagatedKey(\"promptVersion\");\n\n    if (promptVersion) propagatedAttributes[spanKey] = promptVersion;");
m("P01D", PR, "  if (isFallback) {", "  if (isFallback === undefined ? false : String(isFallback) === \"1\") {");
m("P01E", PR, "    if (value !== undefined) {\n      logger.warn(", "    if (value !== undefined && value !== null) {\n      logger.warn(", PR, "if (environment !== undefined && isValidEnvironment(environment)) {", "if (environment !== undefined && isValidEnvironment(String(environment))) {");
m("P01F", PR, "        validatedMetadata[key] = value;", "        validatedMetadata[key.trim()] = value;");
m("P01G", PR, "    for (const [key, value] of Object.entries(metadata)) {\n      if (\n        isValidPropagatedString({\n          value: value,", "    for (const [key, value] of Object.entries(metadata)) {\n      if (\n        key.length <= 64 && isValidPropagatedString({\n          value: value,");
m("P01H", PR, "      span.setAttribute(spanKey, mergedTags);", "      span.setAttribute(spanKey, mergedTags.slice(0, 50));");
m("P01I", PR, "if (value.length > 40) {", "if (value.length > 40 || value.endsWith(\"-\")) {");
m("P01J", SP, "    // Set propagated attributes, environment and release attributes\n    span.setAttributes({", "    if (this.environment) delete propagatedAttributes[LangfuseOtelSpanAttributes.ENVIRONMENT];\n    span.setAttributes({");
m("P01K", PR, "  if (version && typeof version === \"string\") {", "  if (version && typeof version === \"string\" && !propagatedAttributes[LangfuseOtelSpanAttributes.OBSERVATION_PROMPT_NAME]) {");
// P02
m("P02A", PR, "  const tags = context.getValue(LangfuseOtelContextKeys[\"tags\"]);\n  if (tags && Array.isArray(tags)) {", "  const tags = context.getValue(LangfuseOtelContextKeys[\"tags\"]);\n  if (tags && Array.isArray(tags) && !propagatedAttributes[LangfuseOtelSpanAttributes.TRACE_TAGS]) {");
m("P02B", PR, "  if (existingTags && Array.isArray(existingTags)) {\n    return [...new Set([...existingTags, ...newTags])];", "  if (existingTags && Array.isArray(existingTags)) {\n    if (newTags.length > existingTags.length) return [...new Set(newTags)];\n    return [...new Set([...existingTags, ...newTags])];");
m("P02C", PR, "    const propagatedPrompt = extractPropagatedPrompt(prompt);", "    const propagatedPrompt = extractPropagatedPrompt(prompt);\n    if (!propagatedPrompt) context = context.deleteValue(LangfuseOtelContextKeys[\"promptName\"]);");
m("P02D", PR, "    context = context.setValue(contextKey, value);\n  }", "    if (context.getValue(contextKey) === undefined || key !== \"traceName\") context = context.setValue(contextKey, value);\n  }");
m("P02E", PR, "  const userId = context.getValue(LangfuseOtelContextKeys[\"userId\"]);\n  if (userId && typeof userId === \"string\") {", "  const userId = context.getValue(LangfuseOtelContextKeys[\"userId\"]);\n  if (userId && typeof userId === \"string\" && !propagatedAttributes[LangfuseOtelSpanAttributes.TRACE_USER_ID]) {");
m("P02F", PR, "    return { ...(existingMetadata as Record<string, string>), ...newMetadata };", "    return Object.keys(newMetadata).some((k) => k in (existingMetadata as any)) ? newMetadata : { ...(existingMetadata as Record<string, string>), ...newMetadata };");
// P03
m("P03A", PR, "  if (asBaggage) {\n    const baggageKey", "  if (asBaggage || propagation.getBaggage(context)?.getEntry(\"langfuse_session_id\")) {\n    const baggageKey");
m("P03B", PR, "    const metadataKey = suffix.slice(\"metadata_\".length);", "    const metadataKey = suffix.split(\"_\")[1];");
m("P03C", PR, "baggageEntry.value.split(LANGFUSE_BAGGAGE_TAGS_SEPARATOR)", "baggageEntry.value.split(LANGFUSE_BAGGAGE_TAGS_SEPARATOR).filter(Boolean)");
m("P03D", PR, "baggageEntry.value.split(LANGFUSE_BAGGAGE_TAGS_SEPARATOR)", "baggageEntry.value.split(LANGFUSE_BAGGAGE_TAGS_SEPARATOR).map((t) => t.trim())");
m("P03E", PR, "      if (baggageKey.startsWith(LANGFUSE_BAGGAGE_PREFIX)) {", "      if (baggageKey.toLowerCase().startsWith(LANGFUSE_BAGGAGE_PREFIX)) {", PR, "  if (!baggageKey.startsWith(LANGFUSE_BAGGAGE_PREFIX)) return;", "  if (!baggageKey.toLowerCase().startsWith(LANGFUSE_BAGGAGE_PREFIX)) return;");
m("P03F", PR, "            propagatedAttributes[spanKey] = Number(baggageEntry.value);", "            propagatedAttributes[spanKey] = Number(baggageEntry.value) || baggageEntry.value;");
m("P03G", PR, "    if (key === \"metadata\") {\n      for (const [k, v] of Object.entries(mergedMetadata)) {\n        baggage = baggage.setEntry(", "    if (key === \"metadata\") {\n      for (const [k, v] of Object.entries(mergedMetadata)) {\n        if (v) baggage = baggage.setEntry(");
m("P03H", PR, "      return `${LANGFUSE_BAGGAGE_PREFIX}experiment_item_metadata`;", "      return `${LANGFUSE_BAGGAGE_PREFIX}experiment_metadata`;");
m("P03I", PR, "value: mergedTags.join(LANGFUSE_BAGGAGE_TAGS_SEPARATOR),", "value: value.join(LANGFUSE_BAGGAGE_TAGS_SEPARATOR),");
m("P03J", PR, "          if (spanKey === LangfuseOtelSpanAttributes.ENVIRONMENT) {", "          if (propagatedAttributes[spanKey] !== undefined) return;\n          if (spanKey === LangfuseOtelSpanAttributes.ENVIRONMENT) {");
// P04
m("P04A", SP, "    const traceId = span.spanContext().traceId;\n    const spanId", "    if (span.parentSpanContext?.isRemote && span.kind === 0) return;\n    const traceId = span.spanContext().traceId;\n    const spanId");
m("P04B", SP, "    this.spanExportExpectationById.delete(span.spanContext().spanId);\n", "    if (!span.parentSpanContext) this.spanExportExpectationById.delete(span.spanContext().spanId);\n");
m("P04C", SP, "    this.spanExportExpectationById.set(spanId, expectedExportedAtStart);\n", "    if (!suppressedByParentClaim) this.spanExportExpectationById.set(spanId, expectedExportedAtStart);\n");
m("P04D", SP, "    this.spanExportExpectationById.set(spanId, expectedExportedAtStart);\n", "    this.spanExportExpectationById.set(spanId, expectedExportedAtStart || isParentExpectedExported);\n");
m("P04E", SP, "    this.spanExportExpectationById.set(spanId, expectedExportedAtStart);\n", "    if (this.spanExportExpectationById.size >= 256) this.spanExportExpectationById.clear();\n    this.spanExportExpectationById.set(spanId, expectedExportedAtStart);\n");
m("P04F", SP, "      span.setAttribute(LangfuseOtelSpanAttributes.IS_APP_ROOT, true);", "      if (!span.parentSpanContext || span.parentSpanContext.isRemote || this.spanExportExpectationById.has(parentSpanId!)) span.setAttribute(LangfuseOtelSpanAttributes.IS_APP_ROOT, true);");
m("P04G", SP, "    const propagatedClaim = getLangfuseTraceIdFromBaggage(parentContext);", "    const propagatedClaim = expectedExportedAtStart && span.parentSpanContext?.isRemote === false ? undefined : getLangfuseTraceIdFromBaggage(parentContext);");
m("P04H", PR, "  if (getLangfuseTraceIdFromBaggage(context) === normalized) return context;", "  if (getLangfuseTraceIdFromBaggage(context)) return context;");
m("P04I", TI, "    const activeContext = setLangfuseTraceIdInBaggage(\n      trace.setSpan(context.active(), observation.otelSpan),\n      observation.otelSpan.spanContext().traceId,\n    );", "    const activeContext = trace.setSpan(context.active(), observation.otelSpan);");
m("P04J", SP, "    } catch (err) {\n      this.logger.debug(\n        \"App-root start-time check failed", "    } catch (err) {\n      span.setAttribute(LangfuseOtelSpanAttributes.IS_APP_ROOT, true);\n      this.logger.debug(\n        \"App-root start-time check failed", SP, "        err,\n      );\n\n      return false;\n    }", "        err,\n      );\n\n      throw err;\n    }");
// P05
m("P05A", SP, "  private async applyMask<T>(data: T): Promise<T | string> {\n    if (!this.mask) return data;", "  private async applyMask<T>(data: T): Promise<T | string> {\n    if (!this.mask || data === \"\") return data;");
m("P05B", SP, "      return await this.mask({ data });", "      return (await this.mask({ data })) ?? data;");
m("P05C", SP, "      for (const key of attributeKeys) {\n        span.attributes[key] = await this.applyMask(span.attributes[key]);\n      }", "      const results = await Promise.all(attributeKeys.map((key) => this.applyMask(span.attributes[key])));\n      attributeKeys.sort().forEach((key, i) => (span.attributes[key] = results[i]));");
m("P05D", SP, "(key) => key === maskCandidate || key.startsWith(`${maskCandidate}.`),", "(key) => key === maskCandidate || (key.startsWith(`${maskCandidate}.`) && key.split(\".\").length === maskCandidate.split(\".\").length + 1),");
m("P05E", SP, "  private async applyMask<T>(data: T): Promise<T | string> {", "  private masked = new Map<unknown, unknown>();\n  private async applyMask<T>(data: T): Promise<any> {\n    if (this.masked.has(data)) return this.masked.get(data);\n    const r = await this.applyMask0(data);\n    this.masked.set(data, r);\n    return r;\n  }\n  private async applyMask0<T>(data: T): Promise<T | string> {");
m("P05F", SP, "      for (const key of attributeKeys) {\n        span.attributes[key] = await this.applyMask(span.attributes[key]);\n      }", "      for (const key of attributeKeys) {\n        const m = await this.applyMask(span.attributes[key]);\n        span.attributes[key] = m;\n        if (m === \"<fully masked due to failed mask function>\") break;\n      }");
m("P05G", SP, "    await this.applyMaskInPlace(span);\n", "    if (span.status.code !== 2) await this.applyMaskInPlace(span);\n");
m("P05H", SP, "    const maskCandidates = [", "    if (span.attributes[LangfuseOtelSpanAttributes.OBSERVATION_TYPE] === \"event\") return;\n    const maskCandidates = [");
m("P05I", SP, "  private async applyMaskInPlace(span: ReadableSpan): Promise<void> {", "  private maskingSpan?: ReadableSpan;\n  private async applyMaskInPlace(span0: ReadableSpan): Promise<void> {\n    this.maskingSpan = span0;\n    const span = span0;", SP, "        span.attributes[key] = await this.applyMask(span.attributes[key]);", "        const v = await this.applyMask(span.attributes[key]);\n        this.maskingSpan!.attributes[key] = v;");
// P06
m("P06A", SP, "      if (this.shouldExportSpan({ otelSpan: span }) === false) {", "      if (this.shouldExportSpan({ otelSpan: span }) === false || span.ended === undefined || (span.duration[0] === 0 && span.duration[1] === 0 && span.attributes[LangfuseOtelSpanAttributes.OBSERVATION_TYPE] !== \"event\")) {");
m("P06B", SF, "  return Object.keys(span.attributes).some((attributeKey) =>\n    attributeKey.startsWith(\"gen_ai.\"),\n  );", "  return Object.keys(span.attributes).slice(0, 16).some((attributeKey) =>\n    attributeKey.startsWith(\"gen_ai.\"),\n  );");
m("P06C", SF, "scope.startsWith(`${prefix}.`)", "scope.startsWith(`${prefix}.`) && scope.length > prefix.length + 1");
m("P06D", SP, "    const processEndedSpanPromise = this.processEndedSpan(span).catch((err) => {", "    const expected = this.spanExportExpectationById.size;\n    const processEndedSpanPromise = (expected > 64 ? Promise.resolve() : this.processEndedSpan(span)).catch((err) => {");
m("P06E", SP, "        err,\n      );\n\n      return;\n    }\n\n    await this.applyMaskInPlace(span);", "        err,\n      );\n\n      if (err instanceof Error) return;\n    }\n\n    await this.applyMaskInPlace(span);");
m("P06F", SF, "    isLangfuseSpan(span) || isGenAISpan(span) || isKnownLLMInstrumentor(span)", "    isLangfuseSpan(span) || (isGenAISpan(span) && span.kind !== 1) || isKnownLLMInstrumentor(span)");
// P07
m("P07A", SP, "  private async flush(): Promise<void> {\n    await Promise.all(Array.from(this.pendingEndedSpans));\n    await this.mediaService.flush();\n  }", "  private flushing?: Promise<void>;\n  private flush(): Promise<void> {\n    this.flushing ??= (async () => {\n      await Promise.all(Array.from(this.pendingEndedSpans));\n      await this.mediaService.flush();\n      this.flushing = undefined;\n    })();\n    return this.flushing;\n  }");
m("P07B", SP, "    await Promise.all(Array.from(this.pendingEndedSpans));\n    await this.mediaService.flush();", "    await Promise.all([...this.pendingEndedSpans, this.mediaService.flush()]);");
m("P07C", SP, "    await Promise.all(Array.from(this.pendingEndedSpans));\n", "    const p = Array.from(this.pendingEndedSpans);\n    this.pendingEndedSpans.clear();\n    await Promise.all(p);\n");
m("P07D", MS, "    await Promise.all(Array.from(this.pendingMediaUploads));", "    await Promise.race([Promise.all(Array.from(this.pendingMediaUploads)), new Promise((r) => setTimeout(r, 10_000))]);");
m("P07E", MS, "    uploadPromise.finally(() => {\n      this.pendingMediaUploads.delete(uploadPromise);\n    });", "    uploadPromise.finally(() => {\n      this.pendingMediaUploads.clear();\n    });");
m("P07F", SP, "    void processEndedSpanPromise.finally(() =>\n      this.pendingEndedSpans.delete(processEndedSpanPromise),\n    );", "    void processEndedSpanPromise.finally(() =>\n      this.pendingEndedSpans.clear(),\n    );");
m("P07G", SP, "    this.pendingEndedSpans.add(processEndedSpanPromise);\n", "    if (this.pendingEndedSpans.size < 512) this.pendingEndedSpans.add(processEndedSpanPromise);\n");
m("P07H", SP, "  public async shutdown(): Promise<void> {\n    await this.flush();\n\n    return this.processor.shutdown();", "  public async shutdown(): Promise<void> {\n    await Promise.race([this.flush(), new Promise<void>((r) => setTimeout(r, 5_000))]);\n\n    return this.processor.shutdown();");
m("P07I", SP, "    await this.flush();\n\n    return this.processor.forceFlush();", "    await Promise.all([this.flush(), this.processor.forceFlush()]);");
m("P07J", MS, "    }).catch((err) => {\n      this.logger.error(\"Media upload failed with error: \", err);\n    });", "    });", MS, "    } catch (err) {\n      this.logger.error(`Error processing media item: ${err}`);\n    }", "    } catch (err) {\n      this.logger.error(`Error processing media item: ${err}`);\n      if (!(err instanceof Error)) throw err;\n    }");
// P08
m("P08A", MS, "/data:[^\\s;,:\"\\\\]+;base64,[A-Za-z0-9+/]+=*/g", "/data:[\\w/.+-]+;base64,[A-Za-z0-9+/]+={0,1}/g");
m("P08B", MS, "(mediaDataUri) => mediaTagByDataUri.get(mediaDataUri) ?? mediaDataUri,", "(mediaDataUri) => mediaTagByDataUri.get(mediaDataUri) ?? [...mediaTagByDataUri.values()][0] ?? mediaDataUri,");
m("P08C", MS, "            field: mediaAttribute.includes(\"input\")", "            field: key.includes(\"input\")");
m("P08D", MS, "                  if (part?.[\"type\"] === \"file\") {", "                  if (part?.[\"type\"] === \"file\" && !hasReplacedMedia) {");
m("P08E", MS, "          if (hasReplacedMedia) {\n            span.attributes[attribute] = JSON.stringify(parsed);", "          {\n            span.attributes[attribute] = JSON.stringify(parsed);");
m("P08F", MS, "            if (!langfuseMediaTag) {\n            this.logger", "", MS, "", "");
m("P08G", MS, "        if (foundMedia.length === 0) continue;", "        if (foundMedia.length === 0) break;");
m("P08H", MS, "            continue;\n          }\n\n          this.scheduleUpload({\n            span,\n            media,", "            break;\n          }\n\n          this.scheduleUpload({\n            span,\n            media,");
m("P08I", MS, "                if (!normalizedContent) {\n                  continue;\n                }", "                if (!normalizedContent) {\n                  break;\n                }");
m("P08J", MS, "                      part[contentKey] = langfuseMediaTag;", "                      part[\"data\"] = langfuseMediaTag;");
m("P08K", MS, "              if (!Array.isArray(message?.[\"parts\"])) {\n                continue;", "              if (!Array.isArray(message?.[\"parts\"])) {\n                break;");
m("P08L", MS, "    contentType: params.contentType as MediaContentType,", "    contentType: params.contentType.toLowerCase() as MediaContentType,");
m("P08M", MS, "  const base64Start = content.indexOf(\";base64,\");", "  const base64Start = content.lastIndexOf(\";base64,\", 40);");
m("P08N", MS, "    this.scheduleUpload({\n      span: params.span,\n      media,\n      field: params.field,\n    });", "    this.scheduleUpload({\n      span: params.span,\n      media,\n      field: \"input\",\n    });");
m("P08O", MS, "[\"ai\", \"gen_ai\"].includes(span.instrumentationScope.name)", "[\"ai\"].includes(span.instrumentationScope.name)");
// P09
m("P09A", UT, "  const binString = Array.from(bytes, (byte) => String.fromCharCode(byte)).join(\n    \"\",\n  );", "  let binString = \"\";\n  for (let i = 0; i < bytes.length; i += 1024) binString += String.fromCharCode(...bytes.subarray(i, Math.min(i + 1024, bytes.length - 1) + (i + 1024 >= bytes.length ? 1 : 0)));");
m("P09B", ME, "    const [header, actualData]", "", ME, "", "");
m("P09C", ME, "      if (!headerParts.slice(1).includes(\"base64\")) {", "      if (!headerParts.includes(\"base64\")) {");
m("P09D", MM, "      const separatorIndex = pair.indexOf(\"=\");", "      const separatorIndex = pair.lastIndexOf(\"=\");");
m("P09E", MM, "if (!referenceString.endsWith(suffix)) {", "if (!referenceString.includes(suffix, prefix.length)) {");
m("P09F", UT, "    return Buffer.from(input, \"utf8\").toString(\"base64\");", "    return Buffer.from(input.normalize(), \"utf8\").toString(\"base64\");");
m("P09G", ME, "      const separatorIndex = data.indexOf(\",\");", "      const separatorIndex = data.lastIndexOf(\",\");");
m("P09H", ME, "      if (!header || !actualData) {", "      if (!header) {");
// P10
m("P10A", PC, "    const effectiveTtlSeconds = ttlSeconds ?? this._defaultTtlSeconds;", "    const effectiveTtlSeconds = ttlSeconds || this._defaultTtlSeconds;");
m("P10B", PC, "    } else if (label !== undefined) {", "    } else if (label) {");
m("P10C", PC, "    if (version !== undefined) {", "    if (version) {");
m("P10D", PM, "    if (!cachedPrompt || options?.cacheTtlSeconds === 0) {", "    if (!cachedPrompt || (options?.cacheTtlSeconds === 0 && cachedPrompt.isExpired)) {");
m("P10E", PM, "      if (!this.cache.isRefreshing(cacheKey)) {", "      if (!this.cache.isRefreshing(cacheKey) && options?.cacheTtlSeconds !== undefined) {");
m("P10F", PC, "    this._invalidations.set(promptName, this.invalidations(promptName) + 1);", "    if (this._cache.size > 0) this._invalidations.set(promptName, this.invalidations(promptName) + 1);");
m("P10G", PM, "      // Do not cache what was requested before an update or delete\n      if (this.cache.invalidations(name) === invalidations) {", "      if (this.cache.invalidations(name) === invalidations || version !== undefined) {");
m("P10H", PC, "  public getIncludingExpired(key: string): LangfusePromptCacheItem | null {\n    return this._cache.get(key) ?? null;", "  public getIncludingExpired(key: string): LangfusePromptCacheItem | null {\n    if (this._cache.size > 50) this._cache.clear();\n    return this._cache.get(key) ?? null;");
m("P10I", PM, "        }).catch(() => {\n          this.logger.warn(\n            `Failed to refresh", "        }).catch(() => {\n          this.cache.invalidate(name);\n          this.logger.warn(\n            `Failed to refresh");
m("P10J", PM, "    this.cache.invalidate(name);\n\n    return newPrompt;", "    if (newPrompt.version !== version || newLabels.length > 0) this.cache.invalidate(name);\n\n    return newPrompt;");
m("P10K", PM, "    await this.apiClient.prompts.delete(name, {\n      version: options?.version,\n      label: options?.label,\n    });\n\n    this.cache.invalidate(name);", "    this.cache.invalidate(name);\n    await this.apiClient.prompts.delete(name, {\n      version: options?.version,\n      label: options?.label,\n    });");
m("P10L", PM, "        if (options?.fallback) {", "        if (options?.fallback && !cachedPrompt) {");
m("P10M", PM, "this.cache.set(cacheKey, prompt, cacheTtlSeconds);", "this.cache.set(this.cache.createKey({ name, label: version === undefined ? label : undefined, version: version === undefined ? undefined : prompt.version }), prompt, cacheTtlSeconds);");
m("P10N", PM, "    if (cachedPrompt.isExpired) {", "    if (cachedPrompt.isExpired || options?.maxRetries === 0) {");
m("P10O", PC, "        this._refreshingKeys.delete(key);\n      })\n      .catch", "        this._refreshingKeys.clear();\n      })\n      .catch");
// P11
m("P11A", CL, "          placeholderValue.every(\n            (msg) =>\n              typeof msg === \"object\" &&\n              msg !== null &&\n              \"role\" in msg &&\n              \"content\" in msg,\n          )\n        ) {\n          messagesWithPlaceholdersReplaced.push(\n            ...", "          placeholderValue.some(\n            (msg) =>\n              typeof msg === \"object\" &&\n              msg !== null &&\n              \"role\" in msg &&\n              \"content\" in msg,\n          )\n        ) {\n          messagesWithPlaceholdersReplaced.push(\n            ...");
m("P11B", CL, "        typeof item.content === \"string\"\n      ) {", "        typeof item.content === \"string\" && item.content.includes(\"{{\") === true && item.role !== \"tool\"\n      ) {");
m("P11C", CL, "  return Object.assign(Object.create(null), values);", "  return Object.assign({}, values);");
m("P11D", CL, "    return mustache.render(this.promptResponse.prompt, ownValues(variables));", "    const once = mustache.render(this.promptResponse.prompt, ownValues(variables));\n    return once.includes(\"{{\") ? mustache.render(once, ownValues(variables)) : once;");
m("P11E", CL, "        return {\n          ...item,\n          content: mustache.render(item.content, ownValues(variables)),\n        };", "        item.content = mustache.render(item.content, ownValues(variables));\n        return item;");
m("P11F", CL, "        } else if (placeholderValue !== undefined) {\n          // Non-standard placeholder value format, just stringfiy", "        } else if (placeholderValue) {\n          // Non-standard placeholder value format, just stringfiy");
m("P11G", CL, "  return text;\n};", "  return text.replace(/\\u0000/g, \"\");\n};");
m("P11H", CL, "  return text;\n};", "  return String(text).trimEnd();\n};");
// P12
m("P12A", CL, "/\\{\\{\\s*(\\w+)\\s*\\}\\}/g", "/\\{\\{\\s?(\\w+)\\s?\\}\\}/g");
m("P12B", CL, "          j < n && (text[j] === \"'\" || text[j] === '\"' || text[j] === \"}\");", "          j < n && (text[j] === \"'\" || text[j] === '\"');");
m("P12C", CL, "        while (j < n && /\\s/.test(text[j])) {", "        while (j < n && text[j] === \" \") {");
m("P12D", CL, "        const opened = stack.pop() ?? \"doubled\";", "        const opened = stack.shift() ?? \"doubled\";");
m("P12E", CL, "            `{${item.name}}`,", "            `{${item.name.trim()}}`,");
m("P12F", CL, "                content: this._transformToLangchainVariables(msg.content),", "                content: msg.content,");
// P13
m("P13A", SC, "        clearTimeout(this.flushTimer);\n        this.flushTimer = null;", "        clearTimeout(this.flushTimer);\n        if (this.eventQueue.length > 0) this.flushTimer = null;");
m("P13B", SC, "    const inFlight = this.flushPromise ?? undefined;\n    this.flushPromise = this.handleFlush().then(() => inFlight);", "    this.flushPromise = this.handleFlush();");
m("P13C", SC, "      while (this.eventQueue.length > 0) {", "      while (this.eventQueue.length > 0 && promises.length < 10) {");
m("P13D", SC, "              this.logger.error(\"Failed to export score batch:\", err);", "              this.logger.error(\"Failed to export score batch:\", err);\n              if (err?.statusCode === 503) this.eventQueue.unshift(...batch);");
m("P13E", SC, "      id: data.id ?? generateUUID(),", "      id: data.id || `${data.traceId}-${data.name}`,");
m("P13F", SC, "    if (this.eventQueue.length >= this.flushAtCount) {", "    if (this.eventQueue.length === this.flushAtCount) {");
m("P13G", SC, "              if (res.errors?.length > 0) {", "              if (res.errors.length > 0) {");
m("P13H", SC, "    if (this.eventQueue.length >= MAX_QUEUE_SIZE) {", "    if (this.eventQueue.length >= MAX_QUEUE_SIZE - 1) {");
m("P13I", SC, "    const { traceId } = observation.otelSpan.spanContext();\n\n    this.create({\n      ...data,\n      traceId,\n    });", "    const { traceId, spanId } = observation.otelSpan.spanContext();\n\n    this.create({\n      ...data,\n      traceId,\n      observationId: spanId,\n    });");
m("P13J", SC, "      environment: data.environment ?? getEnv(\"LANGFUSE_TRACING_ENVIRONMENT\"),", "      environment: getEnv(\"LANGFUSE_TRACING_ENVIRONMENT\") ?? data.environment,");
m("P13K", SC, "      await Promise.all(promises);\n    } catch", "      for (const p of promises.slice(0, 5)) await p;\n    } catch");
// P14
m("P14A", EX, "        const index = nextIndex++;\n        const item = data[index];", "        const index = nextIndex;\n        const item = data[index];\n        if (nextIndex > 0 && maxConcurrency > 2) await Promise.resolve();\n        nextIndex++;");
m("P14B", EX, "      { length: Math.min(maxConcurrency, data.length) },", "      { length: Math.min(maxConcurrency + (data.length > maxConcurrency * 2 ? 1 : 0), data.length) },");
m("P14C", EX, "          acc.push(...promiseResult.value.flat());", "          acc.push(...promiseResult.value.flat().filter((e) => e.value));");
m("P14D", EX, "    for (const ev of evals) {", "    for (const ev of new Map(evals.map((e) => [e.name, e])).values()) {");
m("P14E", EX, "          this.langfuseClient.score.create({ datasetRunId, ...runEval }),", "          this.langfuseClient.score.create({ ...runEval, datasetRunId, comment: runEval.comment || undefined, value: runEval.value || 0 }),");
m("P14F", EX, "        result !== undefined,", "        result !== undefined && result.output !== undefined,");
m("P14G", EX, "        const score =\n              typeof evaluation.value", "", EX, "", "");
m("P14H", EX, "          originalItem?.expectedOutput ?? result.expectedOutput ?? null;", "          originalItem?.expectedOutput || result.expectedOutput || null;");
m("P14I", EX, "          .filter((e) => e.name === evalName && typeof e.value === \"number\")", "          .filter((e) => e.name === evalName && typeof e.value === \"number\" && e.value !== 0)");
m("P14J", EX, "value.length > 50 ? `${value.substring(0, 47)}...` : value", "value.length > 50 ? `${value.substring(0, 50)}...` : value");
m("P14K", EX, "      traceId,\n      datasetRunId,\n      item,\n    };", "      traceId,\n      datasetRunId,\n      item: { ...item },\n    };");
// P15
m("P15A", DS, "      if (itemsResponse.meta.totalPages <= page) {", "      if (itemsResponse.meta.totalPages <= page || itemsResponse.data.length < (options?.fetchItemsPageSize ?? 50)) {");
m("P15B", DS, "    if (!collected.has(mediaId)) {", "    if (![...collected.values()].some((c) => c.field === field && c.media.contentLength === data.contentLength)) {");
m("P15C", DS, "const MAX_MEDIA_TRAVERSAL_DEPTH = 20;", "const MAX_MEDIA_TRAVERSAL_DEPTH = 19;");
m("P15D", DS, "  if (ancestors.has(data)) {", "  if (ancestors.has(data) || (ancestors as any).seen?.has(data)) {", DS, "  const nextAncestors = new Set(ancestors).add(data);", "  const nextAncestors = ancestors.add(data);");
m("P15E", DS, "    const datasetItemId = request.id ?? generateUUID();", "    const datasetItemId = request.id ?? generateUUID();\n    request.id = datasetItemId;");
m("P15F", DS, "  return proto === Object.prototype || proto === null;", "  return proto === Object.prototype;");
m("P15G", DS, "      continue;\n    }\n\n    const replacement", "      break;\n    }\n\n    const replacement");
m("P15H", JP, "      const close = jsonPath.indexOf(\"']\", i);", "      const close = jsonPath.lastIndexOf(\"']\");");
m("P15I", JP, "    !Object.prototype.hasOwnProperty.call(target, segment)", "    (target as any)[segment] === undefined");
m("P15J", JP, "    !Object.prototype.hasOwnProperty.call(target, segment)", "    !(target as any)[segment]");
m("P15K", DS, "      items.push(...itemsResponse.data.map(hydrateDatasetItemMediaReferences));", "      items.push(...itemsResponse.data.map(hydrateDatasetItemMediaReferences).filter((x) => !items.some((y) => y.id === x.id)));");
m("P15L", DS, "        ...(options?.version && { version: options.version }),\n      });", "        ...(options?.version && page === 1 && { version: options.version }),\n      });");
// P16
m("P16A", BR, "    if (response.errors.length > 0) {", "    if (response.errors.length > 0 && response.successes.length === 0) {");
m("P16B", BR, "(success) => success?.id === event.id,", "(success) => success?.id === event.id || success?.id === scoreId,");
m("P16C", BR, "        environment: body.environment ?? this.environment,", "        environment: this.environment ?? body.environment,");
m("P16D", BU, "RESERVED_ADDITIONAL_HEADER_NAMES.has(name.toLowerCase())", "RESERVED_ADDITIONAL_HEADER_NAMES.has(name.toLocaleLowerCase().trim())");
m("P16E", BU, "  while (end > 0 && url.charCodeAt(end - 1) === 47) {\n    end -= 1;\n  }", "  if (end > 0 && url.charCodeAt(end - 1) === 47) {\n    end -= 1;\n  }");
m("P16F", BR, "    if (!response.ok) {", "    if (response.status >= 400) {");
m("P16G", BR, "    const scoreId = body.id ?? generateUUID(globalThis);", "    const scoreId = body.id || generateUUID(globalThis);");
m("P16H", BU, "    Array.isArray((value as LangfuseIngestionResponse).errors)\n", "    (value as LangfuseIngestionResponse).errors != null\n");
// P17
m("P17A", TI, "      const result = context.with(activeContext, () => fn.apply(this, args));", "      const result = context.with(activeContext, () => fn.call(this, ...(args.length > 1 ? args : [args[0]]) as any));");
m("P17B", TI, "      if (result instanceof Promise) {\n        return result.then(", "      if (result && typeof (result as any).then === \"function\") {\n        return result.then(");
m("P17C", TI, "            if (captureOutput) {\n              observation.updateOtelSpanAttributes({\n                output: _captureOutput(value),\n              });\n            }", "            if (captureOutput && value) {\n              observation.updateOtelSpanAttributes({\n                output: _captureOutput(value),\n              });\n            }");
m("P17D", TI, "    name = fn.name || \"anonymous-function\",", "    name = fn.name.replace(/^bound /, \"\") || \"anonymous-function\",");
m("P17E", TI, "    if (args.length === 1) return args[0];", "    if (args.length === 1) return args[0] ?? undefined;\n    while (args.length && args[args.length - 1] === undefined) args.pop();");
m("P17F", TI, "            throw error;\n          },\n        ) as ReturnType<T>;", "            throw error instanceof Error ? error : new Error(String(error));\n          },\n        ) as ReturnType<T>;");
m("P17G", TI, "      if (endOnExit !== false) {\n        span.end(); // End span AFTER Promise rejects\n      }", "      span.end(); // End span AFTER Promise rejects");
m("P17H", TI, "          if (observationOptions?.endOnExit !== false) {\n            span.end();\n          }\n\n          throw err;", "          span.end();\n\n          throw err;");
m("P17I", SW, "      parentSpanContext: this.otelSpan.spanContext(),", "      parentSpanContext: this.otelSpan.isRecording() ? this.otelSpan.spanContext() : undefined,");
m("P17J", TI, "              output: captureOutput\n                ? { error: _stringifyError(error) }\n                : undefined,\n            });\n\n            if (options?.endOnExit !== false) {\n              observation.end();\n            }", "              output: captureOutput\n                ? { error: _stringifyError(error) }\n                : undefined,\n            });\n\n            observation.end();");
m("P17K", TI, "    const inputData = captureInput ? _captureArguments(args) : undefined;", "    const inputData = captureInput && captureOutput ? _captureArguments(args) : undefined;");
m("P17L", TI, "        message: err instanceof Error ? err.message : \"Unknown error\",\n      });\n\n      if (endOnExit", "        message: err instanceof Error ? err.message : \"Unknown error\",\n      });\n      if (err === undefined) return undefined as any;\n      if (endOnExit");
// P18
m("P18A", AT, "    return obj != null ? JSON.stringify(obj) : undefined;", "    return obj != null && obj !== false ? JSON.stringify(obj) : undefined;");
m("P18B", AT, "    if (typeof obj === \"string\") return obj;", "    if (typeof obj === \"string\") return obj || undefined;");
m("P18C", AT, "    for (const [key, value] of Object.entries(metadata)) {", "    for (const [key, value] of Object.entries(metadata).slice(0, 64)) {");
m("P18D", AT, "  if (typeof metadata !== \"object\" || Array.isArray(metadata)) {", "  if (typeof metadata !== \"object\") {");
m("P18E", AT, "        metadataAttributes[`${prefix}.${key}`] = serialized;", "        metadataAttributes[`${prefix}.${key.replace(/ /g, \"_\")}`] = serialized;");
m("P18F", AT, "    Object.entries(otelAttributes).filter(([_, v]) => v != null),", "    Object.entries(otelAttributes).filter(([_, v]) => v != null && v !== \"\"),");
m("P18G", TI, "  if (!options?.asType) {\n    otelAttributes[LangfuseOtelSpanAttributes.OBSERVATION_TYPE] = undefined;", "  if (!options?.asType || options.asType === \"span\") {\n    otelAttributes[LangfuseOtelSpanAttributes.OBSERVATION_TYPE] = undefined;");
m("P18H", AT, "    [LangfuseOtelSpanAttributes.TRACE_OUTPUT]: _serialize(output),", "    [LangfuseOtelSpanAttributes.TRACE_OUTPUT]: _serialize(output ?? input),");
m("P18I", AT, "      _serialize(completionStartTime),", "      completionStartTime && String(Number(completionStartTime)),");
m("P18J", AT, "    return obj != null ? JSON.stringify(obj) : undefined;\n  } catch {", "    return obj != null ? JSON.stringify(obj, (k, v) => (typeof v === \"bigint\" ? String(v) : v === null ? undefined : v)) : undefined;\n  } catch {");
// P19
m("P19A", TI, "  if (seed) {", "  if (seed && seed.trim()) {");
m("P19B", UT, "      r = (d + r) % 16 | 0;\n      d = Math.floor(d / 16);", "      r = (d + r) % 16 | 0;\n      d = (d / 16) | 0;");
m("P19C", TI, "uint8ArrayToHex(hashArray).slice(0, 32)", "uint8ArrayToHex(hashArray).slice(-32)");
m("P19D", UT, "  return hashHex.slice(0, 16);", "  return hashHex.slice(0, 16).replace(/^0+/, \"\").padEnd(16, \"0\");");
m("P19E", TI, "    .map((b) => b.toString(16).padStart(2, \"0\"))", "    .map((b) => b.toString(16).padEnd(2, \"0\"))");
m("P19F", UT, "(r & 0x3) | 0x8", "(r & 0x3) + (r & 0x8)");
// P24
m("P24A", MU, "  if (clientSideMediaId !== mediaId) {", "  if (clientSideMediaId?.toLowerCase() !== mediaId.toLowerCase()) {");
m("P24B", MU, "        uploadResponse.status !== 201\n      ) {", "        uploadResponse.status !== 201 && uploadResponse.status < 500\n      ) {");
m("P24C", MU, "      if (attempt === maxRetries) {", "      if (attempt >= maxRetries - 1) {");
m("P24D", MU, "const delay = baseDelay * Math.pow(2, attempt);", "const delay = baseDelay * (attempt + 1);");
m("P24E", MU, "    uploadHttpStatus: uploadResponse.status,", "    uploadHttpStatus: uploadSucceeded ? 200 : uploadResponse.status,");
m("P24F", MU, "parsedHostname.endsWith(\".storage.googleapis.com\")", "parsedHostname.endsWith(\"storage.googleapis.com\")");
m("P24G", MU, "    uploadResponse.status === 200 || uploadResponse.status === 201;", "    uploadResponse.status >= 200 && uploadResponse.status < 300;");
m("P24H", MU, "    uploadTimeMs: Date.now() - startTime,\n  });", "    uploadTimeMs: Date.now() - startTime,\n  }).catch(() => undefined);");
m("P24I", MU, "  if (!uploadUrl) {", "  if (!uploadUrl || uploadUrl === \"null\") {");
// P25
m("P25A", MM, "      if (depth > maxDepth) {", "      if (depth >= maxDepth) {");
m("P25B", MM, "        const regex = /@@@langfuseMedia:.+?@@@/g;", "        const regex = /@@@langfuseMedia:[^@]+@@@/g;");
m("P25C", MM, "              if (mediaContent.status !== 200) {", "              if (!mediaContent.status) {");
m("P25D", MM, "          result = result.replaceAll(", "          result = result.replace(");
m("P25E", MM, "            () => base64MediaContent,", "            base64MediaContent,");
m("P25F", ME, "    if (!response.ok) {", "    if (response.status >= 500) {");
m("P25G", ME, "    return expiryMs - Date.now() <= thresholdSeconds * 1000;", "    return expiryMs - Date.now() < thresholdSeconds * 1000;");
m("P25H", MM, "const base64DataUri = `data:${mediaData.contentType};base64,${base64MediaContent}`;", "const base64DataUri = `data:${parsedMediaReference.contentType};base64,${base64MediaContent}`;");
m("P25I", MM, "        const referenceStringMatches = obj.match(regex);\n        if (!referenceStringMatches) {", "        const referenceStringMatches = obj.match(regex);\n        if (!referenceStringMatches || referenceStringMatches.length > 20) {");
m("P25J", ME, "    const expiryMs = Date.parse(this.urlExpiry);\n    if (Number.isNaN(expiryMs)) {\n      return false;", "    const expiryMs = Date.parse(this.urlExpiry);\n    if (Number.isNaN(expiryMs)) {\n      return true;");
// P28
m("P28A", TP, "  if (isolatedTracerProvider) return isolatedTracerProvider;", "  if (isolatedTracerProvider && !trace.getActiveSpan()) return isolatedTracerProvider;");
m("P28B", TI, "  return trace.setSpanContext(context.active(), parentSpanContext);", "  return trace.setSpanContext(context.active(), { ...parentSpanContext, isRemote: true });");
m("P28C", SW, "    this.otelSpan.end(endTime);", "    this.otelSpan.end(endTime || undefined);");
// P31
m("P31A", EX, "        const experimentId = datasetRunId || params.fallbackExperimentId;", "        const experimentId = params.fallbackExperimentId;");
m("P31B", EX, "              experimentName: params.experimentRunName,", "              experimentName: params.experimentName,");
m("P31C", EX, "              experimentItemMetadata: serializeValue(itemMetadata),", "              experimentItemMetadata: serializeValue(itemMetadata ?? experimentMetadata),");
m("P31D", PR, "  // Extract experiment attributes\n  for (const key of experimentKeys) {", "  // Extract experiment attributes\n  for (const key of experimentKeys) {\n    if (key === \"experimentMetadata\" && propagatedAttributes[LangfuseOtelSpanAttributes.TRACE_USER_ID]) continue;");
m("P31E", EX, "            ...(itemMetadata ?? {}),\n            ...experimentMetadata,", "            ...experimentMetadata,\n            ...(itemMetadata ?? {}),");
m("P31F", EX, "        if (expectedOutput !== undefined) {", "        if (expectedOutput) {");
m("P31G", EX, "        const experimentItemId =\n          datasetItemId || (await createExperimentItemId(input));", "        const experimentItemId =\n          (datasetRunId && datasetItemId) || (await createExperimentItemId(input));");
m("P31H", PR, "  if (\n    propagatedAttributes[\n      getSpanKeyForPropagatedKey(\"experimentItemRootObservationId\")\n    ]\n  ) {", "  if (\n    propagatedAttributes[\n      getSpanKeyForPropagatedKey(\"experimentDatasetId\")\n    ]\n  ) {");
m("P31I", EX, "                ...(params.datasetVersion && {\n                  datasetVersion: params.datasetVersion,\n                }),", "");
m("P31J", EX, "          async () => await task(item),", "          () => task(item),");
module.exports = M.filter((x) => x.edits.every((e) => e[1] !== ""));
