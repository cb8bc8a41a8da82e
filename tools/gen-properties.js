const P=[];
const p=(id,title,statement,over,qtext,why,files,mech,extra={})=>P.push({id,title,statement,quantifier:{over,text:qtext},why_tests_cant:why,anchors:{files,mechanism:mech.map(([name,where])=>({name,where})),...extra}});
p('P01','Propagated attributes are validated one by one and reach the right spans',
"A user id, session id, version, trace name, tag or metadata value passed for propagation is attached if and only if it is a string of at most 200 UTF-16 units (empty scalars are ignored), and an environment if and only if it is 1 to 40 characters of a-z, 0-9, '-' or '_' that do not begin with 'langfuse'; a prompt link is attached only for a non-fallback prompt with a non-empty string name and an integer version. An invalid value is dropped alone: every valid value still reaches the active span and every span started inside the scope, unchanged. The wrapped function's return value or exception comes back unchanged.",
['inputs'],'every combination of attribute values (any string length and content, any non-string type)',
'The length limits, the character class and the interaction of several attributes form an unbounded input space; tests sample a few strings.',
['packages/core/src/propagation.ts','packages/otel/src/span-processor.ts'],
[['propagateAttributes','packages/core/src/propagation.ts'],['getPropagatedAttributesFromContext','packages/core/src/propagation.ts'],['onStart','packages/otel/src/span-processor.ts']]);
p('P02','Nested propagation scopes merge inward and never leak outward',
"When propagation scopes nest, spans started in the inner scope see the inner value of every attribute set there and the outer value of every other; metadata merges key by key with the inner value winning, and tags become the outer tags followed by the inner ones without duplicates. Spans started after the inner scope has ended (also when it ends by throwing) see exactly the outer values, and spans outside every scope see none.",
['inputs','histories'],'every assignment of attributes to two nested scopes, every metadata key overlap and tag overlap, normal or exceptional exit',
'Overlap of keys and tags between levels is combinatorial and depends on equality of arbitrary strings.',
['packages/core/src/propagation.ts'],[['getContextMergedTags','packages/core/src/propagation.ts'],['getContextMergedMetadata','packages/core/src/propagation.ts'],['setPropagatedAttribute','packages/core/src/propagation.ts']]);
p('P03','Baggage carries propagated attributes faithfully, and only on request',
"With baggage propagation requested, a service that only receives the baggage reconstructs for its spans the same attributes as the sender's scope (strings identical; tags as the same list when no tag contains a comma; a non-negative integer prompt version as a number). Without the request, no attribute value is written to baggage. An invalid environment received in baggage and the internal trace-claim entry never become span attributes, and entries that are not Langfuse's are neither altered nor read.",
['inputs'],'every attribute value, metadata key and foreign baggage entry',
'A round trip through keys and values must hold for all strings.',
['packages/core/src/propagation.ts'],[['getSpanKeyFromBaggageKey','packages/core/src/propagation.ts'],['getBaggageKeyForPropagatedKey','packages/core/src/propagation.ts']]);
p('P04','Exactly the top exported span of a trace in a process is marked as app root',
"A span is marked as application root when it starts if and only if the export filter accepts it at start, its parent is not a still-open local span that the filter accepted at start, and the incoming baggage does not already claim the same trace (compared case-insensitively). A filter that throws leaves the span unmarked and never disturbs span creation.",
['inputs','histories'],'every tree of spans, every filter verdict per span, every claim and parent state',
'Depends on the history of starts and ends and on arbitrary filter verdicts.',
['packages/otel/src/span-processor.ts','packages/core/src/propagation.ts'],[['markAppRootCandidate','packages/otel/src/span-processor.ts'],['getLangfuseTraceIdFromBaggage','packages/core/src/propagation.ts']]);
p('P05','No unmasked input, output or metadata leaves the process',
"When a mask function is configured, every input, output and metadata attribute of an exported span, including flattened per-key metadata and trace-level ones, has been replaced by what the (synchronous or asynchronous) mask returned for it, before the span reaches the exporter or its media is uploaded. If the mask throws or rejects for a value, that value is replaced by the fixed fully-masked text and the other values are still masked; all other attributes stay untouched.",
['inputs','fault_sequences'],'every attribute content and subset of present attributes, every mask outcome (value, throw, rejection) per attribute',
'Failure of the mask at each position and arbitrary attribute sets cannot be sampled exhaustively, and one miss is a data leak.',
['packages/otel/src/span-processor.ts'],[['applyMaskInPlace','packages/otel/src/span-processor.ts'],['processEndedSpan','packages/otel/src/span-processor.ts']]);
p('P06','The export filter decides exactly which spans are exported',
"An ended span is handed to the exporter exactly once if the configured filter returns anything but false, and never if it returns false or throws. The default filter accepts exactly spans of Langfuse's own scope, spans with an attribute key beginning 'gen_ai.', and spans whose scope is a known LLM instrumentation name or one followed by '.' and more (for 'ai', only exactly 'ai'). One span's rejection or failure does not affect another span.",
['inputs','fault_sequences'],'every scope name, attribute key and filter outcome',
'Scope names and attribute keys are arbitrary strings; prefix rules have boundary cases that samples miss.',
['packages/otel/src/span-filter.ts','packages/otel/src/span-processor.ts'],[['isDefaultExportSpan','packages/otel/src/span-filter.ts'],['processEndedSpan','packages/otel/src/span-processor.ts']]);
p('P07','Flush and shutdown lose no ended span and no media upload',
"When a flush or shutdown of the span processor resolves, every span ended before the call has been handed to the underlying exporter pipeline before that pipeline was flushed or shut down, and every media upload those spans triggered has settled, whatever order and outcome the asynchronous masks and uploads have. A failing upload or mask never makes a flush reject or hang, and does not keep other spans from being exported.",
['schedules','fault_sequences'],'every completion order and outcome of masks and uploads, every position of the flush call among span ends',
'Loss depends on the interleaving of asynchronous steps with the flush.',
['packages/otel/src/span-processor.ts','packages/otel/src/MediaService.ts'],[['forceFlush','packages/otel/src/span-processor.ts'],['flush','packages/otel/src/MediaService.ts'],['scheduleUpload','packages/otel/src/MediaService.ts']]);
p('P08','Embedded media is replaced by its own reference and nothing else changes',
"In every input, output and metadata attribute of an exported span, each base64 data URI (and, for AI SDK spans, each base64 file part) is replaced by the reference tag computed from exactly its own bytes and content type and is uploaded under the right field, and all text around it stays identical. Values without media, non-string values and malformed media stay unchanged, and processing never throws.",
['inputs'],'every attribute text with up to two embedded data URIs, including ones where one is a prefix of another or repeats',
'Interaction of several URIs and of special characters in one text is combinatorial.',
['packages/otel/src/MediaService.ts','packages/core/src/media.ts'],[['process','packages/otel/src/MediaService.ts'],['replaceBytesMedia','packages/otel/src/MediaService.ts']]);
p('P09','Media and text codecs round-trip',
"Bytes to base64 and back, text to base64 and back, a media object to its data URI and back, and a media object's reference tag to its parsed fields are all lossless; the media id in the tag is the first 22 characters of the URL-safe base64 SHA-256 of the content. Malformed data URIs and malformed reference strings are rejected (no content, respectively an error) and never yield a wrong id, type or content.",
['inputs'],'every byte sequence, content type and string within the size bound',
'Round trips must hold for every byte value, padding length and malformed shape.',
['packages/core/src/media.ts','packages/core/src/utils.ts','packages/client/src/media/index.ts'],[['parseBase64DataUri','packages/core/src/media.ts'],['base64ToBytes / bytesToBase64','packages/core/src/utils.ts'],['parseReferenceString','packages/client/src/media/index.ts']]);
p('P10','Prompt cache: fresh hits, stale-while-revalidate, isolation and invalidation',
"A prompt request returns the prompt that was fetched for exactly the requested name and version or label: from cache without a network call until the entry's lifetime has passed, and afterwards the stale one at once while at most one refresh per key is in flight (a failed refresh keeps the stale entry usable and allows another refresh). A lifetime of zero always fetches; when the first fetch fails, the given fallback is returned, marked as fallback and not cached, else the error is raised. After an update or delete of a name through the client, no prompt of that name fetched before is served from cache.",
['inputs','histories','schedules','fault_sequences'],'every sequence of requests, clock readings, fetch outcomes and completion orders within the bound',
'Depends on time, on the history of calls and on the interleaving of background refreshes.',
['packages/client/src/prompt/promptCache.ts','packages/client/src/prompt/promptManager.ts'],[['get','packages/client/src/prompt/promptManager.ts'],['LangfusePromptCache','packages/client/src/prompt/promptCache.ts']]);
p('P11','Compiling a prompt substitutes values verbatim and places messages in order',
"Compiling a text or chat prompt replaces each double-brace variable by the supplied value (a string) character for character, without escaping or re-interpreting the value, unsupplied variables by nothing, and leaves all other text alone. In chat prompts a placeholder is replaced in place by its list of messages (whose own variables are compiled too), an empty list removes it, a missing one stays, a value of another shape is inserted as its JSON text, and every other message keeps its order, role and content. Compiling never modifies the stored prompt.",
['inputs'],'every variable value, placeholder shape and message text within the bound',
'Values are arbitrary strings, among them ones that look like template syntax or HTML.',
['packages/client/src/prompt/promptClients.ts'],[['compile','packages/client/src/prompt/promptClients.ts']]);
p('P12','LangChain conversion preserves template meaning',
"Formatting a converted prompt with LangChain's single-brace rules yields the original text with every double-brace variable (with or without inner spaces) replaced by its value and every JSON brace kept literally, for prompts of plain text, double-brace variables and well-formed JSON objects in any nesting and spacing whose strings contain no braces other than variables. Braces that are already doubled around JSON and single-brace LangChain variables keep their meaning, and message content that is not text is kept as it is. Unresolved chat placeholders become LangChain placeholders of the same name, in order.",
['inputs'],'every prompt text of the stated form within the length bound',
'The brace scanner behaves differently for adjacent, nested and spaced braces.',
['packages/client/src/prompt/promptClients.ts'],[['escapeJsonForLangchain','packages/client/src/prompt/promptClients.ts'],['getLangchainPrompt','packages/client/src/prompt/promptClients.ts']]);
p('P13','Every created score is sent exactly once, in order, before flush resolves',
"Each score accepted while the queue limit is not exceeded is sent in exactly one ingestion batch of at most 100 events, in creation order, with its own id and content; batches go out when the configured count or interval is reached, and a later interval still fires after earlier flushes. When a flush or shutdown resolves, every score created before it was called has been sent and its request has settled, also when another flush was already in flight. A failing request is neither raised to the caller nor able to block later scores.",
['schedules','histories','fault_sequences'],'every interleaving of creations, timer firings, flush calls and request completions or failures within the bound',
'The defect class here is a race between a flush in flight and new scores.',
['packages/client/src/score/index.ts'],[['create','packages/client/src/score/index.ts'],['handleFlush','packages/client/src/score/index.ts'],['flush','packages/client/src/score/index.ts']]);
p('P14','An experiment runs every item once, isolates failures and reports truthfully',
"Running an experiment calls the task exactly once per item with at most the configured number (1 or more) in flight, returns one result per succeeded item in the order of the data, each with its own item, output, expected output and evaluations, and omits failed items without affecting others; a failing evaluator drops only its own evaluations. Every returned item evaluation (and, when the run is linked to a dataset run, every run evaluation) is recorded as one score with the same name, value and target. The printed report attributes each output and score to the item it belongs to.",
['inputs','schedules','fault_sequences'],'every number of items and concurrency within the bound, every success or failure of tasks and evaluators, every completion order',
'Failure position and completion order are combinatorial.',
['packages/client/src/experiment/ExperimentManager.ts'],[['run','packages/client/src/experiment/ExperimentManager.ts'],['runItem','packages/client/src/experiment/ExperimentManager.ts'],['prettyPrintResults','packages/client/src/experiment/ExperimentManager.ts']]);
p('P15','Dataset reads and writes are complete and structure-preserving',
"Fetching a dataset returns every item of every page exactly once and in order, with each media reference placed exactly at its path and all other data unchanged; an unresolvable reference is skipped without affecting the rest. Creating an item uploads every distinct embedded media (found in up to 20 levels of nesting) before the item is created, replaces each occurrence by its reference tag, keeps all other structure, does not modify the caller's object, and creates nothing if an upload fails.",
['inputs','fault_sequences'],'every page layout, item structure, media path and upload outcome within the bound',
'Structures, paths and page layouts are unbounded.',
['packages/client/src/dataset/index.ts','packages/client/src/dataset/jsonPath.ts'],[['get','packages/client/src/dataset/index.ts'],['createItem','packages/client/src/dataset/index.ts'],['parseJsonPath / setValueAtPath','packages/client/src/dataset/jsonPath.ts']]);
p('P16','The browser client reports success only for an acknowledged score',
"A score call resolves with the id sent if and only if the server answered with a success status whose body lists that event as accepted and reports no error; every other response, body shape or network failure rejects with the client's own error type. The request always carries the configured public key and the SDK's identity headers, which additional headers cannot override in any letter case, goes to the configured server address (trailing slashes ignored), and contains exactly the caller's score fields.",
['inputs','fault_sequences'],'every response status and body shape, every additional header name, base address and score body within the bound',
'Server responses and header spellings are arbitrary.',
['packages/browser/src/index.ts','packages/browser/src/utils.ts'],[['score','packages/browser/src/index.ts'],['normalizeHeaders and helpers','packages/browser/src/utils.ts']]);
p('P17','Tracing wrappers are transparent and end their span exactly once',
"A function wrapped for tracing or run inside an active observation returns, resolves, throws or rejects exactly as the original would with the same arguments and receiver, whatever the observation type and options. Its span is started once, is the active span inside the function, is a child of the active one or of the explicitly given parent, and is ended exactly once when the function has finished (or left open when automatic ending is disabled; an event has no duration). When capturing is on, arguments and result are recorded as given, and a failure is recorded on the span as error level or error status.",
['inputs','fault_sequences','schedules'],'every observation type, option combination, argument, result and synchronous or asynchronous failure',
'The option and outcome space is combinatorial and includes arbitrary thrown values.',
['packages/tracing/src/index.ts','packages/tracing/src/spanWrapper.ts'],[['observe','packages/tracing/src/index.ts'],['startActiveObservation','packages/tracing/src/index.ts']]);
p('P18','Observation fields map to span attributes without loss or invention',
"Every field set on an observation or trace (text, numbers, dates and JSON-like values) appears in the exported span under its own documented attribute with a faithful value (strings as is, other values as JSON, numbers and dates preserved), absent or null fields appear nowhere, and nothing else appears. Object metadata is flattened one attribute per key and other metadata kept whole; a fallback prompt is never linked; later updates override only the fields they set. Values that cannot be serialized never raise to the caller.",
['inputs'],'every subset of fields and every value within the bound',
'Field subsets times value kinds is combinatorial.',
['packages/tracing/src/attributes.ts','packages/tracing/src/spanWrapper.ts'],[['createObservationAttributes','packages/tracing/src/attributes.ts'],['createTraceAttributes','packages/tracing/src/attributes.ts']]);
p('P19','Generated identifiers are well-formed and seeded ones deterministic',
"Every generated UUID is a lower-case version-4 UUID for every clock reading and random draw; trace ids are 32 lower-case hex digits, experiment and item ids 16; the same seed gives the same trace id (the leading half of its SHA-256) and equal inputs the same item id, and an unseeded trace id uses fresh randomness at full width.",
['inputs'],'every clock value, random draw, hash value and seed',
'Random draws and clock values are never exhausted by tests.',
['packages/core/src/utils.ts','packages/tracing/src/index.ts'],[['generateUUID','packages/core/src/utils.ts'],['createExperimentId / createExperimentItemId','packages/core/src/utils.ts'],['createTraceId','packages/tracing/src/index.ts']]);
p('P20','The OpenAI wrapper is transparent and always ends its generation',
"Calling a wrapped OpenAI client gives the caller the same results, errors, stream chunks in the same order, and non-function properties as the bare client, for promise, plain and streaming results. Each call that returns a promise or stream or throws creates one generation, with the configured name, metadata and prompt, that is ended exactly once: on success with the parsed output, on failure with error level and the message, and for streams (whose first piece sets the completion start) also when the stream fails midway or the consumer stops early.",
['inputs','fault_sequences','schedules'],'every number of chunks, failure position, early stop and chunk content within the bound',
'Failure position and consumer behaviour are schedules, not inputs of a test.',
['packages/openai/src/traceMethod.ts','packages/openai/src/observeOpenAI.ts'],[['wrapMethod / wrapAsyncIterable','packages/openai/src/traceMethod.ts'],['observeOpenAI','packages/openai/src/observeOpenAI.ts']]);
p('P21','OpenAI responses are parsed without inventing or losing content and tokens',
"For every completion, chat or response-API result the recorded output is the model's own message (of the first choice; streamed text and tool-call arguments concatenated in order, one entry per tool call; response-API text as text). Recorded usage never counts a token twice: input plus its separately listed details equals the reported prompt tokens, and likewise for output. Missing or unknown fields never raise.",
['inputs'],'every token count, detail subset, chunk split and missing field within the bound',
'Counts and chunk splits are unbounded.',
['packages/openai/src/parseOpenAI.ts'],[['parseUsageDetails','packages/openai/src/parseOpenAI.ts'],['parseChunk / getToolCallOutput / parseCompletionOutput','packages/openai/src/parseOpenAI.ts']]);
p('P22','The LangChain handler ends every run once, links parents, and never throws',
"For every sequence of LangChain callbacks, each started run gets one observation whose parent is its parent run's observation, and which is ended exactly once when the run ends or errors (with error level and message on error), leaving no state behind for finished runs; an agent's actions become its children, and a prompt given in run metadata is linked to the next generation of the same parent. A generation records the model's output and the time of its first token and counts each token once. Callbacks never throw or cause an unhandled rejection, whatever shape their payload has.",
['inputs','histories'],'every order of start, token, end and error events of up to a few nested runs and every payload shape within the bound',
'Callback histories and payload shapes are unbounded.',
['packages/langchain/src/CallbackHandler.ts'],[['startAndRegisterOtelSpan','packages/langchain/src/CallbackHandler.ts'],['handleLLMEnd and the other handlers','packages/langchain/src/CallbackHandler.ts']]);
p('P23','AI SDK integration maps prompt links and attributes faithfully',
"Every runtime-context entry other than the prompt entry becomes observation metadata of the same key (text verbatim, other values as JSON, absent ones left out, unserializable ones marked), and the mapping never throws into the AI SDK call. A prompt entry with a string name and a number as version that is not a fallback is linked on model spans (language model, embedding, reranking) only and never appears as metadata. Every telemetry event and wrapped execution is passed on unchanged.",
['inputs'],'every settings shape and value within the bound','Settings are arbitrary user objects.',
['packages/vercel-ai-sdk/src/utils.ts','packages/vercel-ai-sdk/src/LangfuseVercelAiSdkIntegration.ts'],[['attribute mapping','packages/vercel-ai-sdk/src/utils.ts']]);
p('P24','Media upload: verified id, bounded retries, truthful status',
"A media upload sends the content only if the server's media id equals the one computed from the content and only if the server asked for it; it makes at most one attempt plus the configured retries, waiting with exponential backoff in between, retrying exactly on network failures and on statuses other than 200 and 201, and stops at the first success. It resolves only if the content was stored or already present, and reports the final HTTP status to the server. Storage-provider headers are sent as required by the host.",
['inputs','fault_sequences'],'every sequence of attempt outcomes, status codes, ids and hosts within the bound',
'Fault sequences times statuses are combinatorial.',
['packages/core/src/mediaUpload.ts'],[['uploadMedia','packages/core/src/mediaUpload.ts'],['uploadWithBackoff','packages/core/src/mediaUpload.ts']]);
p('P25','Resolving media references changes exactly the resolvable references',
"Resolving media references in a JSON-like value returns a copy in which each well-formed reference whose content could be fetched is replaced by its data URI with exactly the fetched bytes and content type, wherever it occurs within the depth limit; everything else, including references that cannot be resolved, is unchanged, the input is not modified, and the call does not reject because of one bad reference. A media reference object downloads exactly the stored bytes, rejects on a non-success answer, and is reported as expired exactly when its expiry lies within the threshold.",
['inputs','fault_sequences'],'every structure, reference position, fetch outcome and content within the bound',
'Structures, texts and fetch outcomes are unbounded.',
['packages/client/src/media/index.ts'],[['resolveReferences','packages/client/src/media/index.ts']]);
p('P26','API requests: bounded retries, correct URL, headers and errors',
"Every API method sends its documented HTTP method, path, query parameters and body, with path values (other than dot segments) and query values percent-encoded so that decoding gives them back, the given credentials as basic authentication, and header values where the most specific one wins and an explicit null removes. An API call is retried only on statuses 408, 429 and 5xx, at most the allowed number of times and after a bounded delay, and yields the last response. A status of 400 or more always surfaces as an error carrying that status, a success answer that is not JSON as an error, a timeout as the timeout error, and an abort or network failure as a rejection.",
['inputs','fault_sequences'],'every sequence of statuses, retry limits, header sets and parameter values within the bound',
'Status sequences, retry headers and arbitrary strings are unbounded.',
['packages/core/src/api/core/fetcher/requestWithRetries.ts','packages/core/src/api/core/url/qs.ts','packages/core/src/api/core/headers.ts'],[['requestWithRetries','packages/core/src/api/core/fetcher/requestWithRetries.ts'],['toQueryString','packages/core/src/api/core/url/qs.ts'],['mergeHeaders','packages/core/src/api/core/headers.ts']]);
p('P27','Configuration precedence and log filtering are exact',
"For every setting an explicit parameter wins over the environment variable, which wins over the default, and the resulting credentials, base address, headers, release, environment, export timeout, batching and media switch are the ones used for requests and spans. A log message is printed if and only if its level is at least the configured level, on the matching console method with its prefix and arguments. The client's shorthand methods and trace links do exactly what their API counterparts do.",
['inputs'],'every combination of parameters, environment values and levels','The combination space of settings is combinatorial.',
['packages/client/src/LangfuseClient.ts','packages/core/src/logger/index.ts','packages/otel/src/span-processor.ts'],[['LangfuseClient constructor','packages/client/src/LangfuseClient.ts'],['shouldLog','packages/core/src/logger/index.ts'],['getEnv','packages/core/src/utils.ts']]);
p('P28','Observations use the tracer provider in effect, and active ids match the scope',
"Every observation the SDK starts (directly, as child, by a wrapped function, an OpenAI call, a LangChain run or an experiment) is created by the provider last set for Langfuse, or by the global one when none is set or it was cleared, under the Langfuse tracer's name and version; spans of other tracers stay with the global provider, and parent and trace are inherited across providers. The active trace and observation ids are those of the span active in the calling scope, before and after pauses and under any interleaving, and undefined outside any span. Start and end times given explicitly are the recorded ones.",
['inputs','histories','schedules'],'every sequence of provider switches and observations and every interleaving of scopes within the bound','Depends on the history of switches and on the interleaving of asynchronous scopes.',
['packages/tracing/src/tracerProvider.ts','packages/tracing/src/index.ts'],[['getLangfuseTracerProvider','packages/tracing/src/tracerProvider.ts'],['getActiveTraceId / getActiveSpanId','packages/tracing/src/index.ts']]);
p('P29','Created, fetched and serialized prompts say exactly what was given',
"Creating a prompt sends everything the caller gave and nothing else (text is the default type, chat messages are marked as messages, placeholders reduced to their name) without changing the caller's object. The returned prompt, like a fetched or fallback one, carries exactly the server's (or the fallback's) name, version, type, text or messages, configuration, labels, tags and commit message, and its JSON form says the same. Updating or deleting addresses exactly the named prompt, version, label and new labels, and a refusal is raised to the caller unchanged.",
['inputs'],'every prompt shape, field subset and text within the bound','Field subsets times message shapes times texts is combinatorial.',
['packages/client/src/prompt/promptManager.ts','packages/client/src/prompt/promptClients.ts'],[['create / update / delete','packages/client/src/prompt/promptManager.ts'],['normalizePrompt / toJSON','packages/client/src/prompt/promptClients.ts']]);
p('P30','Runner context defaults, regression errors and evaluator adapters are exact',
"An experiment run through a runner context uses the call's data and dataset version where given and the context's otherwise, the metadata of both with the call's winning, and every other parameter unchanged, and is refused without running when there is no data; its result or error is the run's own. A regression error carries its result and figures and the caller's message, or one naming the metric, value and threshold (zero included). An adapted AutoEvals evaluator is called once with the item's input, output and expected output plus the extra parameters, and its name, score (zero when null) and metadata are the evaluation.",
['inputs'],'every combination of given and absent parameters and values within the bound','The combinations of context, call and evaluator values are combinatorial and include falsy ones.',
['packages/client/src/experiment/RunnerContext.ts','packages/client/src/experiment/adapters.ts'],[['runExperiment','packages/client/src/experiment/RunnerContext.ts'],['createEvaluatorFromAutoevals','packages/client/src/experiment/adapters.ts']]);
p('P31','Experiment context marks exactly the spans of its own item',
"While an item's task runs, before and after pauses and under any interleaving of items, every span started in it carries that item's experiment id (the dataset run's id when linked, the run's own otherwise), run name, metadata, dataset id, item id, item metadata and root observation id and the experiment environment; the item's root span additionally carries the description and expected output. Spans started outside tasks carry none of it. The dataset-run link names the run, item, trace, root observation, metadata, description and dataset version, and the run name is the given one or the experiment's name with the start time.",
['inputs','schedules'],'every interleaving of two items and every combination of given and absent values within the bound','Items run concurrently, so marking depends on the interleaving; values are arbitrary.',
['packages/client/src/experiment/ExperimentManager.ts','packages/core/src/propagation.ts'],[['runItem','packages/client/src/experiment/ExperimentManager.ts'],['propagateAttributes (_internalExperiment)','packages/core/src/propagation.ts']]);
const bad=P.filter(x=>x.title.length>80||(x.statement.match(/[.] [A-Z]/g)||[]).length>2);for(const b of bad)console.error('CHECK',b.id,b.title.length,(b.statement.match(/[.] [A-Z]/g)||[]).length);
require('fs').writeFileSync('/verif/properties.jsonl',P.map(x=>JSON.stringify(x)).join('\n')+'\n');
