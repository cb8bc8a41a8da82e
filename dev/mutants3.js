"use strict";
// third batch of development mutants, written from the property statements
const M = []; const m = (id, file, a, b, ...more) => { const edits = [[file, a, b]]; for (let i = 0; i < more.length; i += 3) edits.push([more[i], more[i + 1], more[i + 2]]); M.push({ id, prop: id.slice(0, 3), edits }); };
const OT = "openai/src/traceMethod.ts", OO = "openai/src/observeOpenAI.ts", OP = "openai/src/parseOpenAI.ts";
m("P20-1", OT, "        if (res instanceof Promise) {", "        if (res instanceof Promise && res.constructor === Promise) {");
m("P20-2", OT, "      throw error;\n    } finally {", "      throw error instanceof Error ? error : new Error(String(error));\n    } finally {");
m("P20-3", OT, "        const processedChunk = parseChunk(rawChunk);", "        if (rawChunk == null) continue;\n        const processedChunk = parseChunk(rawChunk);");
m("P20-4", OT, "        yield rawChunk;\n      }\n    } catch (error) {", "        if (usage && (rawChunk as any)?.choices?.length === 0) continue;\n        yield rawChunk;\n      }\n    } catch (error) {");
m("P20-5", OO, "        !Array.isArray(originalProperty) &&\n", "");
m("P20-6", OO, "      const originalProperty = wrappedSdk[propKey as keyof SDKType];", "      if (typeof propKey === \"symbol\") return undefined;\n      const originalProperty = wrappedSdk[propKey as keyof SDKType];");
m("P20-7", OT, "completionStartTime = completionStartTime ?? new Date();", "if (parseChunk(rawChunk).data.length > 0) completionStartTime = completionStartTime ?? new Date();");
m("P20-8", OT, "      } catch (error) {\n        generation\n          .update({", "      } catch (error) {\n        if (!(error instanceof Error)) throw error;\n        generation\n          .update({");
m("P20-9", OO, "const config = { ...langfuseConfig, generationName };", "const config = Object.assign(langfuseConfig ?? {}, { generationName });");
m("P20-10", OT, "            .catch((err) => {\n              generation", "            .catch((err) => {\n              if (err?.name === \"AbortError\") {\n                generation.end();\n                throw err;\n              }\n              generation");
m("P20-11", OT, "const res = tracedMethod(...args);", "const res = args.length > 1 ? tracedMethod(args[0], args[1]) : tracedMethod(...args);");
m("P20-12", OO, "`${sdk.constructor?.name}", "`${sdk.constructor.name}");
m("P20-13", OT, "              if (isAsyncIterable(result)) {\n                return wrapAsyncIterable(result, generation);\n              }", "              if (isAsyncIterable(result) && !Array.isArray(result)) {\n                return wrapAsyncIterable(result, generation);\n              }\n              if (result === null || result === undefined) return result;");
m("P20-14", OT, "tags: config?.tags,", "tags: config?.tags?.slice(0, 5),");
m("P20-15", OT, "          completionStartTime,\n", "          completionStartTime: output ? completionStartTime : undefined,\n");
m("P20-16", OT, "              return result;\n            })", "              return output ? result : (result ?? {});\n            })");
m("P20-17", OT, "    try {\n      for await", "    await Promise.resolve();\n    if (generation.otelSpan.isRecording() === false) return;\n    try {\n      for await");
m("P21-1", OP, "    Object.values(flatCompletionTokensDetails).forEach((value) => {\n      finalOutputTokens = Math.max(finalOutputTokens - value, 0);\n    });", "    finalOutputTokens = Math.max(finalOutputTokens - (completion_tokens_details?.reasoning_tokens ?? 0) - (completion_tokens_details?.audio_tokens ?? 0), 0);");
m("P21-2", OP, "      total: total_tokens,\n      ...flatPromptTokensDetails,", "      total: finalInputTokens + finalOutputTokens,\n      ...flatPromptTokensDetails,");
m("P21-3", OP, "    res[\"output_text\"] !== \"\"\n", "    res[\"output_text\"] !== \"\" && !(\"output\" in res && Array.isArray(res.output) && res.output.length > 1)\n");
m("P21-4", OP, "tool_calls: Array.from(toolCalls.values()),", "tool_calls: Array.from(toolCalls.entries()).sort().map(([, v]) => v),");
m("P21-5", OP, "current.function.name = toolCall?.function?.name || current.function.name;", "current.function.name += toolCall?.function?.name || \"\";");
m("P21-6", OP, "if (\"delta\" in chunkData) {\n      return", "if (chunkData.finish_reason) return { isToolCall, data: \"\" };\n    if (\"delta\" in chunkData) {\n      return");
m("P21-7", OT, ": textChunks.join(\"\"));", ": textChunks.join(\"\").trim());");
m("P21-8", OP, "const choice = res.choices[0];", "const choice = res.choices.find((c: any) => c?.finish_reason === \"stop\") ?? res.choices[0];");
m("P21-9", OT, "usage = rawChunk.usage as OpenAI.CompletionUsage | null;", "const u = rawChunk.usage as any;\n          usage = usage && u ? { ...u, prompt_tokens: usage.prompt_tokens + u.prompt_tokens } : u;");
m("P21-10", OP, "    if (output.length === 1) {\n      return output[0] as Record<string, unknown>;", "    if (output.length === 1) {\n      return output[0]?.content ?? output[0];");
m("P21-11", OP, "    finalInputTokens = Math.max(finalInputTokens - value, 0);", "    finalInputTokens = Math.max(finalInputTokens - Math.trunc(value / 2) * 2, 0);");
m("P21-12", OP, "const index = toolCall?.index ?? 0;", "const index = (toolCall?.index ?? 0) % 8;");
m("P21-13", OP, "...(text ? { content: text } : {}),", "...(text && toolCalls.size === 1 ? { content: text } : {}),");
m("P21-14", OP, "  if (\"prompt_tokens\" in completionUsage) {", "  if (\"prompt_tokens\" in completionUsage && !(\"input_tokens\" in completionUsage)) {");
m("P21-15", OP, "    !(res instanceof Object && \"choices\" in res && Array.isArray(res.choices))", "    !(res instanceof Object && \"choices\" in res && Array.isArray(res.choices) && res.choices.length <= 1)");
m("P21-16", OP, "Object.keys(input_tokens_details ?? {}).forEach((key) => {", "Object.keys(input_tokens_details ?? {}).filter((k) => k !== \"cache_write_tokens\").forEach((key) => {");
const LC = "langchain/src/CallbackHandler.ts", VU = "vercel-ai-sdk/src/utils.ts", VI = "vercel-ai-sdk/src/LangfuseVercelAiSdkIntegration.ts";
m("P22-1", LC, "attributes: { output },", "attributes: { output: typeof output === \"string\" ? output : undefined },");
m("P22-2", LC, "output: documents,", "output: documents.slice(0, 10),");
m("P22-3", LC, "      this.logger.debug(`Tool error ${err} with ID: ${runId}`);\n\n      this.handleOtelSpanEnd({\n        runId,\n        attributes: {\n          level: \"ERROR\",\n          statusMessage: String(err),", "      this.logger.debug(`Tool error ${err} with ID: ${runId}`);\n\n      this.handleOtelSpanEnd({\n        runId,\n        attributes: {\n          level: \"ERROR\",\n          statusMessage: err.stack ?? String(err),");
m("P22-4", LC, "      this.logger.debug(`Tool error ${err} with ID: ${runId}`);\n\n      this.handleOtelSpanEnd({\n        runId,\n        attributes: {\n          level: \"ERROR\",", "      this.logger.debug(`Tool error ${err} with ID: ${runId}`);\n\n      this.handleOtelSpanEnd({\n        runId,\n        attributes: {\n          level: err?.name === \"ToolInputParsingException\" ? \"WARNING\" : \"ERROR\",");
m("P22-5", LC, "    this.runMap.set(runId, observation);", "    this.runMap.set(runId.slice(0, 13), observation);", LC, "    const span = this.runMap.get(runId);", "    const span = this.runMap.get(runId.slice(0, 13));", LC, "? this.runMap.get(parentRunId)?.otelSpan.spanContext()", "? this.runMap.get(parentRunId.slice(0, 13))?.otelSpan.spanContext()", LC, "    this.runMap.delete(runId);\n    this.dereg", "    this.runMap.delete(runId.slice(0, 13));\n    this.dereg");
m("P22-6", LC, "    delete this.completionStartTimes[runId];\n  }\n  private", "    if (this.runMap.size <= 1) this.completionStartTimes = {};\n    else delete this.completionStartTimes[runId];\n  }\n  private");
m("P22-7", LC, "    delete this.completionStartTimes[runId];\n  }\n  private", "    this.completionStartTimes = {};\n  }\n  private");
m("P22-8", LC, "    if (registeredPrompt && parentRunId) {\n      this.deregisterLangfusePrompt(parentRunId);\n    }", "    if (registeredPrompt && parentRunId) {\n      this.promptToParentRunMap.clear();\n    }");
m("P22-9", LC, "        this.extractUsageMetadata(lastResponse) ??\n        output.llmOutput?.[\"tokenUsage\"] ??", "        output.llmOutput?.[\"tokenUsage\"] ??\n        this.extractUsageMetadata(lastResponse) ??");
m("P22-10", LC, "      const agent =\n", "      if (action.tool.startsWith(\"_\")) return;\n      const agent =\n");
m("P22-11", LC, "([key, _]) => !langfuseKeys.includes(key),", "([key, _]) => !key.startsWith(\"langfuse\"),", LC, "    const langfuseKeys = [\n      \"langfusePrompt\",\n      \"langfuseUserId\",\n      \"langfuseSessionId\",\n    ];\n", "");
m("P22-12", LC, "      const azureRefusalError = this.parseAzureRefusalError(err);\n\n      this.handleOtelSpanEnd({\n        runId,\n        attributes: {\n          level: \"ERROR\",\n          statusMessage: String(err) + azureRefusalError,\n        },\n      });\n    } catch (e) {\n      this.logger.debug(e instanceof Error ? e.message : String(e));\n    }\n  }\n\n  async handleGenerationStart(", "      const azureRefusalError = this.parseAzureRefusalError(err);\n\n      this.handleOtelSpanEnd({\n        runId,\n        attributes: err?.name === \"GraphInterrupt\" ? {} : {\n          level: \"ERROR\",\n          statusMessage: String(err) + azureRefusalError,\n        },\n      });\n    } catch (e) {\n      this.logger.debug(e instanceof Error ? e.message : String(e));\n    }\n  }\n\n  async handleGenerationStart(");
m("P22-13", LC, "    this.runMap.set(runId, observation);", "    this.runMap.set(runId, observation);\n    if (this.runMap.size > 50) this.runMap.delete(this.runMap.keys().next().value as string);");
m("P22-14", LC, "if (runId && !(runId in this.completionStartTimes)) {", "if (runId && !(runId in this.completionStartTimes) && Object.keys(this.completionStartTimes).length < 10) {");
m("P22-15", LC, "usageDetails[`input_${key}`] = val;\n", "usageDetails[`input_${key.replace(/^cache_/, \"\")}`] = val;\n");
m("P22-16", LC, "          if (\"output\" in usageDetails && typeof val === \"number\") {", "          if (usageDetails[\"output\"] && typeof val === \"number\" && val < usageDetails[\"output\"]) {");
m("P22-17", LC, "const traceTags = [...new Set([...(tags ?? []), ...this.tags])];", "if (tags) this.tags.push(...tags.filter((t) => !this.tags.includes(t)));\n        const traceTags = [...this.tags];");
m("P22-18", LC, "            : this.userId;", "            : this.userId;\n        this.userId = traceUserId;");
m("P22-19", LC, "    if (!span) {\n      this.logger.warn", "    if (!span || (params.type === \"generation\" && span.type !== \"generation\")) {\n      this.logger.warn");
m("P22-20", LC, "typeof v === \"string\" ? v : JSON.stringify(v),\n              ]),", "typeof v === \"string\" ? v : JSON.stringify(v),\n              ]).filter(([, v]) => v),");
m("P22-21", LC, "name ?? llm?.id?.at(-1)?.toString() ?? \"Langchain Generation\";", "name ?? llm.id.at(-1)?.toString() ?? \"Langchain Generation\";");
m("P22-22", LC, "      // The run of the agent itself ends with its chain\n      this.runMap.get(runId)?.update({ output: action });", "      // The run of the agent itself ends with its chain\n      this.runMap.get(parentRunId ?? runId)?.update({ output: action });");
m("P23-1", VU, "  const { langfusePrompt, ...metadata } = runtimeContext;", "  const { langfusePrompt, ...rest } = runtimeContext;\n  const metadata = Object.fromEntries(Object.entries(rest).filter(([k]) => !k.startsWith(\"langfuse\")));");
m("P23-2", VU, "for (const [key, value] of Object.entries(metadata)) {", "for (const [key, value] of Object.entries(metadata).slice(0, 20)) {");
m("P23-3", VU, "typeof value === \"string\" ? value : safeSerialize(value);", "typeof value === \"string\" ? value.slice(0, 1000) : safeSerialize(value);");
m("P23-4", VU, "    return JSON.stringify(value);\n  } catch {", "    if (value instanceof Date) return value.toISOString();\n    return JSON.stringify(value);\n  } catch {");
m("P23-5", VI, "    this.delegate.onError(error);", "    if (error) this.delegate.onError(error);");
m("P23-6", VU, "typeof value.version !== \"number\"", "!Number.isInteger(value.version)");
m("P23-7", VU, "if (typeof value.name !== \"string\" ||", "if (!value.name || typeof value.name !== \"string\" ||");
m("P23-8", VU, "  const { langfusePrompt, ...metadata } = runtimeContext;", "  const langfusePrompt = runtimeContext.langfusePrompt;\n  delete runtimeContext.langfusePrompt;\n  const metadata = runtimeContext;");
m("P23-9", VU, "for (const [key, value] of Object.entries(metadata)) {", "for (const key in metadata) {\n      const value = metadata[key];");
m("P23-10", VI, "      {\n        tracer: options.tracer,", "      {\n        tracer: options.tracer ?? undefined,\n        ...(process.env.LANGFUSE_DEBUG ? {} : {}),", VI, "return this.delegate.executeLanguageModelCall(params);", "return Promise.resolve(this.delegate.executeLanguageModelCall(params)).catch((e) => {\n      this.delegate.onError(e);\n      throw e;\n    });");
m("P23-11", VU, "return \"<failed to serialize>\";", "return String(value);");
m("P23-12", VU, "  if (!runtimeContext) {\n    return attributes;\n  }", "  if (!runtimeContext || Object.keys(runtimeContext).length === 0 || Object.values(runtimeContext).some((v) => typeof v === \"function\")) {\n    return attributes;\n  }");
module.exports = M;
