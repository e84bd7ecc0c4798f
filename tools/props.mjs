const m = (...l) => l.map((s) => { const i = s.lastIndexOf(" @ "); return { name: s.slice(0, i), where: s.slice(i + 3) }; });
const PROP = "packages/core/src/propagation.ts";
export const props = [
  { id: "C01", title: "Propagated trace attributes are validated: only valid values leave the process",
    statement: "For every user id, session id, version, trace name, tag, metadata value, prompt link or environment passed to attribute propagation, a non-empty string of at most 200 characters (an environment matching the documented lowercase pattern, a prompt link with a non-empty name and an integer version that is not a fallback) reaches the active span, every child span and, when opted in, the baggage unchanged, and an invalid value reaches none of them. An invalid entry is dropped alone: other attributes, tags and metadata entries given in the same call are still propagated. The callback runs exactly once whether or not anything was dropped.",
    over: ["inputs", "configurations"], text: "all attribute values of any JavaScript type and length, with and without baggage opt-in",
    why: "Tests try a handful of strings (one 201-character string, a few types); the boundary, the mixed valid/invalid combinations and the three sinks multiply beyond samples.",
    files: [PROP], mech: m("value validators and per-key setters @ " + PROP) },
  { id: "C02", title: "Propagated attributes read back identically in-process and through baggage",
    statement: "Whatever trace attributes are propagated with baggage enabled, spans created in a process that received only the baggage get exactly the same attribute names and values as local child spans, with tags that contain no comma, prompt versions as integers, metadata key by key, and experiment attributes including their environment. Values set locally win over incoming baggage, baggage of other parties is neither read as attributes nor removed, and a trace id carried in baggage is read back normalised to lower case and is never turned into an attribute.",
    over: ["inputs", "configurations"], text: "all valid attribute values and metadata keys, any foreign baggage entries",
    why: "Round-trip equality over arbitrary strings and keys cannot be sampled exhaustively; tests check fixed literals one way at a time.",
    files: [PROP], mech: m("baggage encoding and decoding @ " + PROP, "context readers @ " + PROP) },
  { id: "C03", title: "Nested attribute propagation scopes correctly and never alters the callback",
    statement: "Inside nested propagation scopes, inner values override outer ones, tags are unioned without duplicates in outer-first order, metadata is merged key by key with inner winning, and invalid inner values leave outer ones intact. When a scope ends by return, throw or promise settlement, nothing it set is visible outside it, concurrent sibling scopes never see each other's values, and only the currently active recording span is annotated. The callback's return value, promise, thrown error or rejection is passed to the caller unchanged.",
    over: ["inputs", "histories", "schedules"], text: "all nestings, callback outcomes and interleavings of asynchronous sibling scopes",
    why: "Interleavings and merge combinations are unbounded; tests use fixed two-level nestings with literals.",
    files: [PROP], mech: m("context derivation per scope @ " + PROP, "merge of tags and metadata @ " + PROP) },
  { id: "C04", title: "Observation and trace fields are exported exactly as given under their own keys",
    statement: "For every observation type and every combination of fields, each provided field appears on the observation's span under its documented attribute, strings unchanged and other values as JSON, metadata flattened one attribute per top-level key, prompts linked only when they are not fallbacks, and fields not provided write nothing and leave earlier values in place. Starting, updating or setting trace input and output touches only the observation it was called on, creates exactly one span of the requested type (unknown types become spans), and only events end on creation; start and end times are those given. A child observation shares its parent's trace and is parented to it.",
    over: ["inputs", "histories"], text: "all attribute values, types and sequences of update calls",
    why: "Ten observation types times a dozen optional fields times arbitrary values; tests check individual literals.",
    files: ["packages/tracing/src/index.ts", "packages/tracing/src/attributes.ts", "packages/tracing/src/spanWrapper.ts"], mech: m("attribute mapping @ packages/tracing/src/attributes.ts", "observation wrappers @ packages/tracing/src/spanWrapper.ts", "factories and active-span helpers @ packages/tracing/src/index.ts") },
  { id: "C05", title: "Instrumented functions behave as if not instrumented and their span ends once",
    statement: "A function run through an active observation or through the observe wrapper is called exactly once with the same arguments and receiver, and its return value, promise result, thrown error or rejection reaches the caller unchanged, for every observation type. While it runs, including across awaits, its observation is the active one; afterwards the previous one is active again and the observation has been ended exactly once (events end at creation), after the result or error was recorded and not before the promise settled, unless ending on exit was disabled. The observation has the given name or the wrapped function's, input and output are recorded exactly when capturing is not disabled, errors are recorded as errors, and an explicit parent is honoured.",
    over: ["inputs", "schedules", "programs"], text: "all wrapped functions (sync, async, throwing, rejecting), results, arguments and options",
    why: "The wrapper must be transparent for any user function; tests cover specific functions and never the event type.",
    files: ["packages/tracing/src/index.ts", "packages/tracing/src/spanWrapper.ts"], mech: m("wrapActiveObservation, startActiveObservation, observe @ packages/tracing/src/index.ts") },
  { id: "C06", title: "Seeded trace ids are deterministic and the configured tracer provider is used",
    statement: "For every seed, the created trace id is the first 32 lower-case hex digits of the SHA-256 of the seed's UTF-8 bytes, and without a seed it is still 32 lower-case hex digits. While an isolated Langfuse tracer provider is set, every Langfuse observation goes to the most recently set one and none to the global provider; setting it to null restores the global provider. Active trace and span ids are those of the active span, or undefined when there is none.",
    over: ["inputs", "histories"], text: "all seed strings and sequences of provider changes",
    why: "Determinism over all strings and provider switching histories; tests use a few fixed seeds.",
    files: ["packages/tracing/src/index.ts", "packages/tracing/src/tracerProvider.ts"], mech: m("createTraceId @ packages/tracing/src/index.ts", "provider selection @ packages/tracing/src/tracerProvider.ts") },
  { id: "C07", title: "Masking applies to every input, output and metadata value before export",
    statement: "With a mask function configured, for every span handed to the exporter each input, output and metadata attribute of observation and trace, including metadata flattened to one attribute per key, holds what the mask returned for its original value, the mask was called exactly once per such value, and no other attribute changes. If the mask throws or rejects for a value, that value is replaced by the fixed fully-masked placeholder, never the original. Nothing is exported before asynchronous masks have settled, and without a mask all values are exported unchanged.",
    over: ["inputs", "schedules"], text: "all attribute keys and values, all mask outcomes (sync, async, throwing, rejecting)",
    why: "A leak needs only one unmasked key or timing; tests check the three or four literal keys.",
    files: ["packages/otel/src/span-processor.ts"], mech: m("applyMaskInPlace, applyMask, processEndedSpan @ packages/otel/src/span-processor.ts") },
  { id: "C08", title: "Exactly the spans accepted by the export filter are exported",
    statement: "Without a custom filter, a span is exported iff its instrumentation scope is the Langfuse SDK, or it carries an attribute whose key starts with gen_ai., or its scope is a known LLM instrumentor, exactly or below it after a dot (the scope ai only exactly). A custom filter replaces this decision completely: it is asked once at the end of each span, a span for which it returns false or throws is dropped without masking or upload, and other spans are unaffected.",
    over: ["inputs", "histories"], text: "all scope names, attribute keys and filter outcomes",
    why: "Prefix matching over arbitrary strings has boundary cases (aix, vllmx) that samples miss.",
    files: ["packages/otel/src/span-filter.ts", "packages/otel/src/span-processor.ts"], mech: m("default filter predicates @ packages/otel/src/span-filter.ts", "processEndedSpan @ packages/otel/src/span-processor.ts") },
  { id: "C09", title: "Every ended span is handed over once and flush waits for all pending work",
    statement: "Every accepted span that ended is passed to the downstream processor exactly once. Flush and shutdown resolve only after every span ended before the call has been masked and handed over and every media upload they started has settled, and only then flush or shut down the downstream processor, whatever order the pending work finishes in. A failing span, mask, upload or exporter never prevents the other spans from being exported or the flush from completing.",
    over: ["schedules", "histories", "inputs"], text: "all completion orders of pending masks and uploads and failures of each",
    why: "Loss depends on interleavings of asynchronous masks, uploads and flushes.",
    files: ["packages/otel/src/span-processor.ts", "packages/otel/src/MediaService.ts"], mech: m("onEnd, flush, forceFlush, shutdown @ packages/otel/src/span-processor.ts", "pending uploads @ packages/otel/src/MediaService.ts") },
  { id: "C10", title: "Spans carry configured context and exactly the topmost exported ones are roots",
    statement: "Every started span receives the configured environment and release (constructor option over environment variable) and the propagated attributes, where a propagated environment wins over the configured one and a prompt set on the span itself wins over a propagated prompt. A span is marked as application root iff the export filter accepts it at start, its parent is not a still-running span accepted by the filter, and no application-root claim for its own trace arrived in baggage; a throwing filter marks nothing and breaks nothing. The exporter is set up with the ingestion url, basic authorization and headers from constructor options over environment variables over defaults.",
    over: ["inputs", "histories", "configurations"], text: "all option and environment combinations, parent and claim states, filter outcomes",
    why: "The combination of parent state, claim and filter outcome is a product tests cover only along single axes.",
    files: ["packages/otel/src/span-processor.ts", "packages/core/src/propagation.ts"], mech: m("constructor, onStart, markAppRootCandidate @ packages/otel/src/span-processor.ts", "getPropagatedAttributesFromContext @ packages/core/src/propagation.ts") },
  { id: "C12", title: "The prompt cache serves fresh or stale prompts exactly as its TTL says",
    statement: "Within its time to live a prompt is returned from the cache without a request, one entry per prompt name and version or label (a version wins over a label, the default label is production); after it the cached prompt is returned immediately while at most one background refresh per entry is in flight, and a failed refresh keeps the stale prompt and is retried by the next get. A TTL of zero always fetches, a failed fetch is never cached, and requests carry the given name, version, label, retries and timeout in seconds. Updating or deleting a prompt invalidates all of its cached entries, and API failures reach the caller.",
    over: ["inputs", "schedules", "histories"], text: "all names, versions, labels, TTLs, elapsed times, refresh outcomes and completion orders",
    why: "Staleness and refresh de-duplication depend on time and on interleavings of concurrent gets.",
    files: ["packages/client/src/prompt/promptManager.ts", "packages/client/src/prompt/promptCache.ts"], mech: m("get, fetchPromptAndUpdateCache, update, delete @ packages/client/src/prompt/promptManager.ts", "LangfusePromptCache @ packages/client/src/prompt/promptCache.ts") },
  { id: "C13", title: "A fallback prompt is used only when nothing else is available and never cached",
    statement: "If a prompt cannot be fetched and no cached prompt exists, the given fallback is returned, marked as fallback, with the requested name, the given version or 0, the given label and the requested type; without a fallback the fetch error reaches the caller. A fallback never displaces a fetched or cached prompt and is never cached, so the next get fetches again. Creating a prompt sends the text or chat body as given, with plain messages and placeholders typed accordingly, and returns the created prompt.",
    over: ["inputs", "histories"], text: "all prompt names, options, fallbacks and failure histories",
    why: "The precedence between cache, fetch and fallback is a product of histories that samples cover only pointwise.",
    files: ["packages/client/src/prompt/promptManager.ts", "packages/client/src/prompt/promptClients.ts"], mech: m("get, create, createPromptFallback @ packages/client/src/prompt/promptManager.ts") },
  { id: "C14", title: "Compiling a prompt substitutes variables verbatim and keeps message order",
    statement: "Compiling a text or chat prompt renders the template with the given variables, inserting every value verbatim without HTML escaping, and does not modify the prompt. For a chat prompt the result has the messages in their order with their roles; a placeholder is replaced by exactly the given messages, is removed if an empty list is given, is kept if no value is given, and a value that is not a list of messages is passed through as its string form. Serialising a prompt gives all of its fields.",
    over: ["inputs"], text: "all templates, messages, variables and placeholder values",
    why: "Templates, message lists and placeholder values are unbounded inputs.",
    files: ["packages/client/src/prompt/promptClients.ts"], mech: m("TextPromptClient.compile, ChatPromptClient.compile, toJSON @ packages/client/src/prompt/promptClients.ts") },
  { id: "C15", title: "LangChain conversion uses single-brace variables and keeps JSON literal",
    statement: "The LangChain form of a prompt has every mustache variable written with single braces, every literal JSON object brace that is not already doubled is doubled so that LangChain treats it as text, and everything else unchanged. For chat prompts the messages keep their order and role, placeholders that were given values are replaced by those messages and others become LangChain message placeholders of the same name, and the prompt itself is not modified.",
    over: ["inputs"], text: "all prompt texts, messages and placeholder values",
    why: "Brace handling over arbitrary text has boundary cases that samples miss.",
    files: ["packages/client/src/prompt/promptClients.ts"], mech: m("getLangchainPrompt, _transformToLangchainVariables, escapeJsonForLangchain @ packages/client/src/prompt/promptClients.ts") },
  { id: "C16", title: "Every created score is sent once, in order, and flush waits for all of them",
    statement: "Every created score is sent to the ingestion API exactly once, in creation order and in batches of at most 100, as soon as the configured flush count (default 10) is queued and at the latest when the flush interval (default one second) after the first queued score has passed. The sent score has the fields as given, a generated id if none was given and the environment given or configured, and the observation and trace variants add exactly the ids of the given or active span and send nothing without one. Flush and shutdown resolve only after the requests of all previously created scores have settled, also when other flushes are in flight, and a failing request neither rejects nor prevents other scores from being sent.",
    over: ["schedules", "histories", "inputs"], text: "all score bodies and all interleavings of create, flush, timers and request completions (up to the stated history length)",
    why: "Loss and duplication depend on interleavings of timers, in-flight requests and further scores.",
    files: ["packages/client/src/score/index.ts"], mech: m("create, observation, trace, activeObservation, activeTrace, flush, handleFlush, shutdown @ packages/client/src/score/index.ts") },
  { id: "C11", title: "Inline media in exported spans become reference tags and are uploaded",
    statement: "In the input, output and metadata attributes of traces and observations of an exported span, every base64 data URI is replaced by a reference tag computed from its content, and every other character of the attributes is left as it was; likewise for inline file and image contents in spans of the AI SDK scopes. Every replaced media is uploaded, once per distinct data URI of an attribute, with the span's trace and observation ids and its field. Data that cannot be decoded is left in place, and a failing upload changes neither the span nor any other upload; with uploads switched off by option or LANGFUSE_MEDIA_UPLOAD_ENABLED the attributes are left as they are.",
    over: ["inputs", "histories"], text: "all attribute texts, positions and numbers of data URIs and upload outcomes (text scanning: a stated bound)",
    why: "Which text surrounds or repeats a data URI is unlimited; a test fixes a few strings.",
    files: ["packages/otel/src/MediaService.ts", "packages/core/src/media.ts"], mech: m("process, flush, scheduleUpload, handleUpload @ packages/otel/src/MediaService.ts; LangfuseMedia @ packages/core/src/media.ts") },
  { id: "C17", title: "A fetched dataset holds every item of every page, with media references hydrated",
    statement: "Fetching a dataset returns its fields and all items of all pages in order, each page requested once with the given page size (default 50) and version, and a failing request rejects. Each listed media reference of an item is replaced at its JSON path by a media reference object, unresolvable paths are skipped, and every other value is unchanged. Linking an item creates a run item for exactly that item and the given span, and runExperiment on the dataset runs the given experiment over all its items at the fetched version.",
    over: ["inputs", "histories"], text: "all page counts, items, media references and JSON paths (path parsing: a stated bound)",
    why: "Page counts, item contents and paths are unlimited.",
    files: ["packages/client/src/dataset/index.ts", "packages/client/src/dataset/jsonPath.ts"], mech: m("get, createDatasetItemLinkFunction, hydrateDatasetItemMediaReferences @ packages/client/src/dataset/index.ts; parseJsonPath, setValueAtPath @ packages/client/src/dataset/jsonPath.ts") },
  { id: "C18", title: "A created dataset item stores media references whose media was uploaded first",
    statement: "Creating a dataset item sends one request with the given fields, with a generated id if none was given, in which every media object (up to 20 levels deep) of input, expected output and metadata is replaced in place by its reference string and all other values are as given. Every distinct media is uploaded once for that dataset and item before the item is created, and invalid media or a failing upload rejects without creating the item. The caller's values are never modified.",
    over: ["inputs", "histories"], text: "all value shapes, media contents and upload outcomes",
    why: "Nesting, duplicates and failure points are unlimited.",
    files: ["packages/client/src/dataset/index.ts", "packages/core/src/media.ts"], mech: m("createItem, replaceDatasetItemMedia @ packages/client/src/dataset/index.ts; uploadMedia @ packages/core/src/mediaUpload.ts") },
  { id: "C19", title: "Resolving media references inlines exactly the media that can be fetched",
    statement: "Resolving references in a JSON-like value returns the same value in which, up to the given depth (default 10), every well-formed media reference whose record and content can be fetched (status 200) is replaced by the content as a base64 data URI, in whatever order the answers arrive; malformed and unfetchable references and all other text and values stay as they are, and the caller's value is not modified. Parsing a reference returns its id, type and source or throws; a media object's id and tag depend only on its content, type and source, its tag parses back to them, and an invalid data URI yields no media and no exception. A media reference object is expired exactly when its expiry is within the threshold (default 60 s), serialises to its reference string, and fetches its content or rejects.",
    over: ["inputs", "histories"], text: "all contents, value shapes, depths, response outcomes and orders (text scanning: a stated bound)",
    why: "Contents, nesting, response outcomes and orders are unlimited; a test fixes a few.",
    files: ["packages/client/src/media/index.ts", "packages/core/src/media.ts"], mech: m("resolveReferences, parseReferenceString @ packages/client/src/media/index.ts; LangfuseMedia, LangfuseMediaReference @ packages/core/src/media.ts") },
  { id: "C20", title: "An experiment runs every item once and reports exactly what succeeded",
    statement: "Running an experiment calls the task once for every item, starting in data order with never more than the configured number (default 50) at a time and never fewer while items are left; the results are those of the items that succeeded, in data order, each with its own item, output, trace and evaluations, and failing items, evaluators, run evaluators or dataset links affect nothing else. Every item runs in a span of its own that is ended and carries the item's input, output, metadata and experiment attributes (an item outside a dataset is identified by a hash of its input, the same in every run), dataset items are linked to the run by that span, each evaluation becomes a score of its item's observation (run evaluations of the run), and all scores are flushed before the run resolves. The formatted report shows each result with the values of its own item and the averages over all results; a runner context runs the same experiment with its defaults unless the call overrides them.",
    over: ["schedules", "inputs", "histories"], text: "all item values, completion orders, failures and concurrency limits (schedules: up to the stated history length)",
    why: "Completion orders and failure combinations are unlimited; tests use a few.",
    files: ["packages/client/src/experiment/ExperimentManager.ts", "packages/client/src/experiment/RunnerContext.ts"], mech: m("run, runItem, prettyPrintResults @ packages/client/src/experiment/ExperimentManager.ts; runExperiment, RegressionError @ packages/client/src/experiment/RunnerContext.ts; createEvaluatorFromAutoevals @ packages/client/src/experiment/adapters.ts; createExperimentId, createExperimentItemId @ packages/core/src/utils.ts") },
  { id: "C21", title: "A media upload retries transient failures and reports the final status",
    statement: "Uploading media asks for an upload URL with its entity ids, field, content type, length and hash, uploads nothing if the media is already known, and fails if the server's media id differs from the computed one or the media is incomplete. Otherwise it puts the exact bytes, retrying every failed attempt up to the configured number of times (default 3) with exponentially growing delays, with the storage headers the host requires. The final status is reported once, and the call resolves only if the upload succeeded.",
    over: ["histories", "inputs"], text: "all contents, response sequences and retry settings",
    why: "Failure sequences and delays are unlimited and real time is involved.",
    files: ["packages/core/src/mediaUpload.ts"], mech: m("uploadMedia, uploadWithBackoff @ packages/core/src/mediaUpload.ts") },
  { id: "C22", title: "API calls reach the documented endpoint with the configured identity and data",
    statement: "Every client method sends one request with its documented verb to its documented path on the configured server (base URL option over LANGFUSE_BASE_URL over LANGFUSE_BASEURL over the cloud), with path ids and query values percent-encoded, absent parameters left out, lists repeated and the request object as JSON body, and resolves to the parsed answer. Each request carries Basic credentials of the configured keys (option over environment variable), the SDK name, version and public key, the configured headers and those of the call, which override them for that call only. Trace URLs name server, project (looked up once) and trace, the v3 shortcuts call the same endpoints, also when detached from the client, and flush and shutdown deliver pending scores.",
    over: ["inputs", "configurations"], text: "all ids, parameter values, bodies, keys, header sets and base URLs, over all 114 endpoint methods",
    why: "114 methods times arbitrary ids and parameters; tests call a few with literals and never with characters that need encoding.",
    files: ["packages/core/src/api/Client.ts", "packages/core/src/api/core/fetcher/Fetcher.ts", "packages/core/src/api/core/url/join.ts", "packages/core/src/api/core/url/qs.ts", "packages/core/src/api/core/headers.ts", "packages/client/src/LangfuseClient.ts"], mech: m("constructor, getTraceUrl, flush, shutdown @ packages/client/src/LangfuseClient.ts; endpoint methods @ packages/core/src/api/api/resources/*/client/Client.ts; join @ packages/core/src/api/core/url/join.ts; toQueryString @ packages/core/src/api/core/url/qs.ts; mergeHeaders @ packages/core/src/api/core/headers.ts") },
  { id: "C23", title: "API failures are retried, timed out, aborted and reported as documented",
    statement: "A request answered with 408, 429 or a 5xx status is sent again unchanged up to the given number of retries (default 2), after the server's Retry-After or X-RateLimit-Reset time or an exponential back-off from one second, never more than about a minute; any other answer and every connection failure ends the call at once. The last answer decides: below 400 its parsed body is the result, otherwise the call rejects with a LangfuseAPIError of the class of its status carrying status code and body. An attempt without answer within the timeout (default 60 seconds) is aborted and rejects with LangfuseAPITimeoutError, a call aborted by the caller's signal rejects as aborted, and no timer survives the call.",
    over: ["inputs", "histories", "schedules"], text: "all status sequences, header values listed, timeouts, abort points and bodies, over all 114 endpoint methods",
    why: "Failure sequences, times and abort points multiply; tests mock single failures and real time is involved.",
    files: ["packages/core/src/api/core/fetcher/Fetcher.ts", "packages/core/src/api/core/fetcher/requestWithRetries.ts", "packages/core/src/api/core/fetcher/makeRequest.ts", "packages/core/src/api/core/fetcher/signals.ts"], mech: m("fetcherImpl @ packages/core/src/api/core/fetcher/Fetcher.ts; requestWithRetries @ packages/core/src/api/core/fetcher/requestWithRetries.ts; makeRequest @ packages/core/src/api/core/fetcher/makeRequest.ts; anySignal @ packages/core/src/api/core/fetcher/signals.ts; error mapping @ packages/core/src/api/api/resources/*/client/Client.ts") },
  { id: "C24", title: "A wrapped OpenAI client behaves as the SDK and ends one generation per call",
    statement: "Through observeOpenAI every call reaches the SDK once with the caller's arguments and receiver and gives the caller the very result, stream chunks or error the SDK gave; properties, writes and instanceof are those of the SDK. Each call that returns a promise or an async iterable is recorded as one generation that ends exactly once: when its answer arrives, when it fails (level ERROR with the message), or when its stream is consumed, fails or is abandoned, with the output collected so far. Concurrent calls keep their own results and generations, and the configured name, parent, metadata, prompt, user and session apply to every call, nested ones included.",
    over: ["inputs", "histories", "schedules"], text: "all arguments, results, errors, chunk contents, failure and stop points of streams, and completion orders of concurrent calls",
    why: "Failure and stop points of streams, odd results and completion orders multiply; tests consume a few mock streams to their end.",
    files: ["packages/openai/src/traceMethod.ts", "packages/openai/src/observeOpenAI.ts", "packages/openai/src/parseOpenAI.ts"], mech: m("observeOpenAI @ packages/openai/src/observeOpenAI.ts; wrapMethod, wrapAsyncIterable @ packages/openai/src/traceMethod.ts; parseChunk, getToolCallOutput @ packages/openai/src/parseOpenAI.ts") },
  { id: "C25", title: "OpenAI generations record input, output, model, parameters and token usage",
    statement: "For a wrapped OpenAI call the generation's input is the messages with tools and functions, or else the input or prompt of the request; its output is the answer's message, text, output items or joined stream text; model and parameters are those of the answer where it names them and of the request otherwise. Token usage splits the reported counts: every detail keeps its count under input_ or output_, the plain input and output counts are what remains and never negative, the total is the reported one, and incomplete counts are left out.",
    over: ["inputs"], text: "all texts, token counts and parameter values over the request and answer shapes of the chat, completion, embedding and responses APIs, streamed or not",
    why: "Billing-relevant arithmetic and field mapping over all values; tests compare a few fixed answers.",
    files: ["packages/openai/src/parseOpenAI.ts", "packages/openai/src/traceMethod.ts"], mech: m("parseInputArgs, parseCompletionOutput, parseUsageDetails, parseModelDataFromResponse, parseChunk @ packages/openai/src/parseOpenAI.ts; wrapMethod, wrapAsyncIterable @ packages/openai/src/traceMethod.ts") },
  { id: "C26", title: "Every LangChain run becomes one observation that ends once under its parent",
    statement: "For every history of callbacks LangChain issues, each chain, model, tool and retriever run is recorded as one observation of its kind and name, child of its parent run's observation in the same trace, and it ends exactly once with the run's output or, whatever was thrown, as an ERROR with the message; the chain of an agent lives until the chain ends. Concurrent runs may end in any order, a prompt is linked to its chain's next generation only, and user, session, tags, version and metadata of the handler or run reach the root. No callback throws, rejects or leaves an unhandled rejection whatever it is given, and nothing is kept of finished runs.",
    over: ["inputs", "histories", "schedules"], text: "all run ids, names, outputs, errors and end orders over the run trees listed, and all odd callback arguments listed",
    why: "Histories of nested and concurrent runs with failures at any point multiply; tests replay a few successful chains.",
    files: ["packages/langchain/src/CallbackHandler.ts"], mech: m("CallbackHandler.handle*, startAndRegisterOtelSpan, handleOtelSpanEnd, registerLangfusePrompt @ packages/langchain/src/CallbackHandler.ts") },
  { id: "C27", title: "LangChain runs record messages, values, model, parameters and token usage",
    statement: "Messages given to or returned by LangChain runs are recorded in order with their content, role and tool calls, a model run's input together with the tools and tool choice offered, and other chain inputs and outputs as they are. A model run records the model that answered or else the one asked for, its parameters, and the answer's token counts: details under input_ and output_ keep their counts, plain counts are what remains and never negative, the total is the reported one.",
    over: ["inputs"], text: "all message contents, names, token counts and parameter values over all LangChain message kinds and result shapes",
    why: "Field mapping and billing-relevant arithmetic over all values; tests compare a few fixed messages.",
    files: ["packages/langchain/src/CallbackHandler.ts"], mech: m("extractChatMessageContent, handleChainStart, handleChainEnd, handleGenerationStart, handleLLMEnd @ packages/langchain/src/CallbackHandler.ts") },
  { id: "C28", title: "AI SDK v7 calls become complete span trees with prompt link and metadata",
    statement: "With the AI SDK integration every generate, stream, object, embed and rerank call is recorded as an operation span with its steps, model calls and tool executions nested below it, each ended exactly once however the call ends, is aborted or fails, and interleaved calls stay apart; model calls and tools run once, inside their span, and return their very result or error. Runtime context becomes metadata (text as is, other values as JSON, nothing for null) on every span of the call, and a well-formed langfusePrompt that is no fallback is linked to model-call spans only and never metadata.",
    over: ["inputs", "histories", "schedules"], text: "all runtime context values, prompts, results and errors over the event histories of every call kind, broken off at every stage and interleaved",
    why: "Event histories broken off at every stage and arbitrary context values multiply; the tests need a live model.",
    files: ["packages/vercel-ai-sdk/src/LangfuseVercelAiSdkIntegration.ts", "packages/vercel-ai-sdk/src/utils.ts"], mech: m("LangfuseVercelAiSdkIntegration @ packages/vercel-ai-sdk/src/LangfuseVercelAiSdkIntegration.ts; createLangfuseObservationAttributes, normalizePrompt, safeSerialize @ packages/vercel-ai-sdk/src/utils.ts") },
  { id: "C29", title: "Browser scores are sent once, authorised by the public key, failures reported",
    statement: "A score sent by the browser client makes exactly one ingestion request holding that score as given (its id or a fresh one, its environment or the client's), authorised by the public key alone, whatever additional headers or trailing slashes are configured, and leaves the caller's objects alone. The call resolves with the score's id only if the server confirmed that very event; an error status, a network failure, a reported error or an answer without that confirmation rejects with a LangfuseBrowserError carrying it, and concurrent scores have their own outcomes.",
    over: ["inputs", "schedules"], text: "all keys, scores, hosts, messages and statuses, the server's answers and failures, two concurrent scores answered in every order",
    why: "Arbitrary scores, servers' answers and answer orders; tests sample a few.",
    files: ["packages/browser/src/index.ts", "packages/browser/src/utils.ts"], mech: m("LangfuseBrowserClient @ packages/browser/src/index.ts; parseJsonResponse, isIngestionResponse, filterAdditionalHeaders, removeTrailingSlash @ packages/browser/src/utils.ts") },
];
