"""One-off generator of /verif/properties.jsonl (kept so that the file stays easy to edit)."""
import json, os

P = []
def p(id, title, statement, over, text, why, files, mech, observe):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe, "hook_needed": None}})

BH, BS = "ekosis/requests/buffered_handler_base.py", "ekosis/sending/buffered_sender_base.py"
PQ, PN = "ekosis/queues/paginated_queue.py", "ekosis/queues/pending_queue.py"
AB, SB = "ekosis/application_base.py", "ekosis/servers/server_base.py"

p("C01", "Acknowledged buffered requests are never lost, duplicated or altered",
  "Every request a buffered endpoint acknowledges is, from then on, in exactly one place: waiting, being processed, processed successfully exactly once, or in the endpoint's error queue (unless an operator removed it from there), and it is always handed to the handler with exactly the data and span key that were sent. A request that was answered with anything but success is never processed. A request repeated with the same span key while the first one is still waiting is acknowledged but not queued a second time; after the first one was processed or removed it is a request of its own (what becomes of one repeated while the first is being processed or parked is left open).",
  ["schedules", "histories", "inputs", "configurations"],
  "for all page sizes and retry limits, all interleavings of concurrent clients on TCP, UDP and UDS with the worker, all handler outcomes (success, failure, exception) and all operator actions in between",
  "The tests push a handful of messages through one page size with a handler that succeeds or fails at once; loss and duplication depend on where page boundaries, retries and operator actions fall relative to each other.",
  [BH, PQ, PN, "ekosis/state_keepers/buffered_handler_keeper.py"],
  [("message is in its queue before it is acknowledged", BH + " run"), ("worker loop: pop, run, park or push back", BH), ("front page, database and back page hold each entry once", PQ)],
  ["acknowledgements on the wire", "handler invocations", "queue sizes and error queue listings via eco.buffered_handler.*"])

p("C02", "An orderly shutdown keeps every accepted message",
  "When an application is stopped by SIGTERM, SIGINT or SIGHUP (once or repeatedly), or ends because one of its own tasks raised, at any moment, then every message its buffered endpoints acknowledged or its buffered senders accepted, and that was not yet successfully processed or sent, is still in its pending or error queue when the same instance is started again, with unchanged data and metadata. No message whose processing completed successfully is processed again after the restart, and the application does stop.",
  ["schedules", "crash_points", "histories", "configurations"],
  "for all moments a signal or failure can arrive (idle, mid handler, mid retry, mid send, queue spread over front page, database and back page, clients connected), all page sizes, and several stop/start rounds",
  "No test stops and restarts an application; the queue unit test reloads one queue at one size.",
  [AB, BH, BS, PQ, PN],
  [("signals end the event loop between two callbacks", AB), ("interrupted work is pushed back", BH + ", " + BS), ("pages are written to the database on shut down", PQ + " shut_down")],
  ["process exit", "handler invocations before and after the restart", "messages received by the target of a buffered sender", "queue sizes and contents after the restart"])

p("C03", "A killed application loses at most its in-memory pages",
  "When an application is killed without warning (SIGKILL) at any point, the same instance starts again without help, and of the messages a buffered endpoint acknowledged and had not finished, at most two pages' worth plus the one being processed are missing from each of its queues. All others are processed after the restart, in the order they were accepted, with unchanged data, and none that was successfully processed, or that an operator removed, is processed again.",
  ["crash_points", "histories", "configurations"],
  "for all kill moments, page sizes and backlogs",
  "No test kills an application; the loss bound is a statement about every crash point.",
  [PQ, PN, BH, AB],
  [("only the front and back page live in memory", PQ), ("full back pages are committed before more is accepted", PQ + " push"), ("stale lock files do not prevent a start", AB)],
  ["process start after SIGKILL", "handler invocations before and after", "queue sizes after the restart"])

p("C04", "Paginated queues are FIFO without duplicates, across pages and restarts",
  "For every sequence of operations, a paginated queue behaves like one ordered list in which each span key occurs at most once: pop returns the oldest entry, push of a span key that is present changes nothing, inspecting, popping or listing by span key and the reported size agree with that list, and clearing empties it. This is independent of the page size, and closing the queue and opening it again on the same file changes nothing in it.",
  ["histories", "inputs", "configurations"],
  "for all operation sequences, page sizes and reopen points",
  "The unit tests drive a few fixed sequences at one or two page sizes and reopen once.",
  [PQ, PN],
  [("front page / database / back page hand-over", PQ), ("record ids below the minimum and above the maximum keep order on disk", PQ)],
  ["return values of the queue's operations"])

p("C05", "Buffered requests are processed one at a time in the order they were accepted",
  "A buffered endpoint never runs its handler for two requests at the same time, and first attempts happen in the order in which the requests were acknowledged, also after a restart. A request whose attempt failed goes behind everything that was waiting at that moment, without changing the order of the others, and an idle endpoint with waiting requests that is not paused always continues with the next one.",
  ["schedules", "histories", "configurations"],
  "for all arrival interleavings, handler durations and outcomes, page sizes and queue lengths",
  "The tests never look at the order or overlap of handler invocations.",
  [BH, PQ, PN],
  [("a single worker task per handler", BH + " __check_process_queue"), ("FIFO queue", PQ)],
  ["handler start and end events", "acknowledgement order of one sequential client"])

p("C06", "Failing buffered requests are retried exactly as configured, then parked",
  "A buffered request whose handler reports failure or raises is attempted exactly as many times as the configured maximum (at least once) and is then found in the error queue, with its data and metadata unchanged, and is not attempted again unless an operator reprocesses it. One failing, raising or unprocessable request never prevents other requests from being processed. Reprocessing starts a new full round of attempts.",
  ["inputs", "histories", "configurations", "fault_sequences"],
  "for all outcome sequences (success, failure, exception of any kind), retry limits, page sizes and mixes of good and bad requests",
  "The tests exercise one always-failing endpoint with one retry limit.",
  [BH, PN],
  [("retry count stored with the entry", PN), ("retry or park decision", BH)],
  ["handler invocations", "error queue listing and inspection", "metadata seen by buffered middleware"])

p("C07", "Pausing and unpausing do exactly what they say",
  "While receiving on a buffered endpoint is paused every request to it is answered with the server-busy status and is never processed; while processing is paused requests are accepted and kept but no attempt is started; while sending on a buffered sender is paused messages are accepted and kept but none is sent. Each switch changes nothing but what it names, the reported state is always the actual state, no other management action changes it, and after unpausing everything that was kept is handled.",
  ["schedules", "histories", "configurations"],
  "for all sequences of pause and unpause commands interleaved with traffic, retries and error queue management, on endpoints and senders",
  "The tests check the reported flags right after each command; they send no traffic while paused.",
  [BH, BS, "ekosis/state_keepers/buffered_handler_keeper.py", "ekosis/state_keepers/buffered_sender_keeper.py", "ekosis/standard_endpoints/buffered_handler_manager.py", "ekosis/standard_endpoints/buffered_sender_manager.py"],
  [("pause flags checked at acceptance and before each attempt", BH + ", " + BS)],
  ["status of responses", "handler invocations", "messages at a sender's target", "management responses"])

p("C08", "Error queue management acts on exactly the requests it names",
  "For buffered endpoints and buffered senders alike: listing shows the oldest (at most ten) parked span keys in order; inspecting returns a parked request's data and changes nothing; popping removes exactly that request and returns its data; reprocessing one or all moves exactly those, unchanged, behind what is already waiting; clearing empties the error queue and nothing else. Every answer reports the true queue sizes after the action, and an unknown span key or route key is reported as such and changes nothing.",
  ["histories", "inputs", "configurations"],
  "for all sequences of management commands over error queues of any length relative to the page size, including empty requests",
  "The tests run each command on an error queue with one or two entries that all fit in memory.",
  ["ekosis/standard_endpoints/buffered_handler_manager.py", "ekosis/standard_endpoints/buffered_sender_manager.py", "ekosis/state_keepers/buffered_handler_keeper.py", "ekosis/state_keepers/buffered_sender_keeper.py", PN, PQ],
  [("move between error and pending queue", PN), ("lookup by span key over pages and database", PQ)],
  ["responses of eco.buffered_handler.errors.* and eco.buffered_sender.errors.*", "later handler invocations and sends"])

p("C09", "Buffered senders deliver every message once, in order, or park it",
  "Every message handed to a buffered sender is sent to its target in the order it was handed over, one at a time, until the target answers it; a message the target answered with success is never sent again (except when the application is stopped before it has taken that answer in), and one that is not delivered stays in the sender's pending or error queue with its data unchanged. Only a busy target or exhausted communication retries make it try again later, at most the configured number of times; any other failure parks the message in the error queue at once without affecting the others.",
  ["schedules", "fault_sequences", "histories", "configurations"],
  "for all target behaviours (success, each error status, silence, resets, refused connections), retry limits, page sizes and wait periods",
  "The tests use one always-available and one failing target and look at queue sizes only.",
  [BS, PN, PQ],
  [("send loop with retry classification", BS), ("FIFO queue", PQ)],
  ["requests as received by a scripted target", "sender queue sizes and error queue contents"])

p("C10", "Every complete request gets exactly one response: its own",
  "For every well-formed request to an existing endpoint over TCP, UDP or UDS, the server sends exactly one response, carrying the request's span key and the result of the handler run once for exactly that request's data; on a stream connection responses come in request order however the bytes are split or pipelined, heartbeat enquiries are answered with an acknowledgement, and a line that has not ended is not a request. Requests on different connections do not affect each other, whatever one client does (slow handlers, partial lines, disconnecting), and messages of any size up to the documented limits work.",
  ["schedules", "inputs"],
  "for all payloads (sizes, Unicode, nesting), fragmentations, pipelining depths, transports, concurrent clients and disconnect points",
  "The tests send one small request at a time over each transport.",
  [SB, "ekosis/servers/stream_server_base.py", "ekosis/servers/json/udp.py", "ekosis/servers/json/tcp.py", "ekosis/servers/json/uds.py", "ekosis/requests/request_router.py", "ekosis/requests/standard_handler.py"],
  [("line framing and sequential handling per connection", "ekosis/servers/stream_server_base.py"), ("one task per datagram", "ekosis/servers/json/udp.py")],
  ["bytes on the sockets", "handler invocations"])

p("C11", "Bad requests and failing handlers get the documented status",
  "Whatever bytes arrive as a request, the server answers that request with the status that documents what went wrong: not parseable as JSON 100, valid JSON that does not describe a request or the endpoint's data 300, unknown route key 400, application failure reported by the handler 600, anything else the handler raises or returns that can not be sent 999. The span key is echoed whenever it could be read, no handler runs for a rejected request or for one whose line did not end before its connection did, and the server goes on serving this and all other connections.",
  ["inputs", "fault_sequences"],
  "for all byte strings up to and including the line end, all handler exceptions and return values, on every transport",
  "The tests cover one unknown route key, one application exception and one unhandled exception.",
  [SB, "ekosis/requests/request_router.py", "ekosis/requests/handler_base.py", "ekosis/requests/status.py", "ekosis/servers/stream_server_base.py", "ekosis/servers/json/udp.py"],
  [("exception to status mapping", SB + " _route_request")],
  ["responses on the sockets", "handler invocations"])

p("C12", "A client only ever returns the response to its own request",
  "A call on any client (transient or persistent TCP or UDS, UDP) that returns, returns the data of the response the server gave to that very call, also when calls run concurrently on one client, earlier calls timed out and their responses arrive late, connections break and are re-established, responses arrive in fragments, or heartbeats are exchanged in between. Responses that are truncated or missing end in an exception, never in a result.",
  ["schedules", "fault_sequences"],
  "for all response delays relative to the client's timeout, fragmentations, disconnect points, retries and numbers of concurrent callers",
  "The tests make one call at a time against a prompt server.",
  ["ekosis/clients/client_base.py", "ekosis/clients/stream_client_base.py", "ekosis/clients/persistent_stream_client_base.py", "ekosis/clients/datagram_client_base.py"],
  [("one exchange at a time per connection; a connection with an incomplete exchange is dropped", "ekosis/clients/persistent_stream_client_base.py"), ("new socket after a failed exchange", "ekosis/clients/datagram_client_base.py")],
  ["return values of calls matched by unique request ids"])

p("C13", "Clients retry within their limits and report what went wrong",
  "A call sends its request at most the configured number of times (at least once), repeats it only after a timeout or a broken connection and the configured delay, never after a response, and ends with the response's data, or with the exception that belongs to the response's status, or with the exceptions for exhausted retries or for failures that can not be retried. Concurrent calls on one client do not influence each other's attempts, and the client is usable again as soon as the server is.",
  ["fault_sequences", "schedules", "configurations"],
  "for all sequences of server faults per attempt (silence, reset, close, refusal, each status code), retry limits and concurrent calls",
  "The tests see only unknown-route, processing and unhandled errors from a healthy server.",
  ["ekosis/clients/client_base.py", "ekosis/clients/stream_client_base.py", "ekosis/clients/persistent_stream_client_base.py", "ekosis/clients/datagram_client_base.py", "ekosis/exceptions/communication.py", "ekosis/exceptions/response.py"],
  [("retry loops", "ekosis/clients/"), ("status to exception mapping", "ekosis/clients/client_base.py")],
  ["requests counted at a scripted server", "result or exception type of each call"])

p("C14", "Each request is handled and logged under its own span key",
  "While any number of requests are handled concurrently, in endpoints, buffered endpoints and middleware, the span key a handler receives and the trace and span ids on every line logged while handling a request are those of that request, before and after each suspension and also when the line is written later from a buffer. Lines logged outside of any request carry none.",
  ["schedules", "histories"],
  "for all interleavings of concurrent requests on all transports with buffered processing, log buffer sizes and handler outcomes",
  "The tests never handle two requests at once while looking at span keys, and do not read log lines.",
  ["ekosis/requests/request_context.py", SB, BH, "ekosis/logs/otlp_formatter.py", "ekosis/logs/buffered_rotating_file_handler.py"],
  [("context variable set per request and reset afterwards", SB + ", " + BH), ("span key stored with a buffered log record", "ekosis/logs/buffered_rotating_file_handler.py")],
  ["span key parameter of handlers and middleware", "trace_id and span_id in log files"])

p("C15", "Middleware runs in order, for every request, and its data travels with it",
  "For every request all registered middleware run before routing in registration order, each given what the previous one returned, the handler gets the result, and all run after routing in registration order on the handler's response the same way. For buffered endpoints the data collected from all buffered middleware when the request is accepted (a later one wins on equal names) is stored with the request and given unchanged to every attempt, through retries, parking, reprocessing and restarts, together with the right attempt number and outcome; collection happens once per accepted request.",
  ["histories", "inputs", "configurations", "schedules"],
  "for all numbers of middleware, transformations and metadata values, outcome sequences, page sizes, reprocessing and restart points",
  "The unit tests call the managers directly with one or two middleware and never through pages on disk, restarts and concurrent requests together.",
  ["ekosis/middleware/manager.py", "ekosis/middleware/buffered_middleware_manager.py", "ekosis/requests/request_router.py", BH, PN],
  [("middleware chains", "ekosis/middleware/"), ("metadata stored in the queue entry", PN)],
  ["calls recorded by middleware", "responses on the wire"])

p("C16", "Statistics count what happened",
  "In every gathered period and in the current one, an endpoint's call count is the number of successful responses it gave in that period, no call is missing from or counted in two periods, its 95th and 99th percentile are those of how long that period's calls took (interpolated linearly between the two nearest, -1 without calls), queue sizes equal the number of messages waiting and parked, and custom statistics equal the sum of what the application did to them in that period. Gathered periods are kept newest first, never more than configured, and do not change once gathered.",
  ["schedules", "histories", "configurations"],
  "for all call sequences relative to period ends, history lengths, gather periods, custom statistics and route keys",
  "The tests fetch statistics and check that keys exist.",
  ["ekosis/state_keepers/statistics_keeper.py", SB, "ekosis/standard_endpoints/statistics.py"],
  [("counting and duration collection", "ekosis/state_keepers/statistics_keeper.py"), ("period end: snapshot and reset", "ekosis/state_keepers/statistics_keeper.py gather_statistics")],
  ["eco.statistics.get responses", "requests and responses on the wire"])

p("C17", "No log record is lost, repeated, reordered or damaged",
  "Every record logged at or above the level in force at that moment, and none below it, appears exactly once in the log files, in the order logged, as one line of valid JSON with its message, severity, time and application identity, whatever the buffer size and its changes, whatever the message contains, through rotation (as long as the configured number of files holds them) and up to an orderly shutdown. Changing the level or the buffer size while running takes effect for the records that follow.",
  ["histories", "inputs", "configurations", "schedules"],
  "for all sequences of records, level and buffer size changes, rotation sizes and shutdown points, from several tasks and threads",
  "The tests call the two log management endpoints and check the echoed values.",
  ["ekosis/logs/logger.py", "ekosis/logs/buffered_rotating_file_handler.py", "ekosis/logs/otlp_formatter.py", "ekosis/standard_endpoints/log_manager.py", AB],
  [("buffering in front of a rotating file", "ekosis/logs/buffered_rotating_file_handler.py"), ("flush on shutdown", AB)],
  ["log files on disk"])

p("C18", "The log shipper delivers every line exactly once, in order",
  "Every complete line written to a watched log file is accepted by the collector exactly once and in file order, through failing or unreachable collectors (a batch is retried until it is accepted), rotation by renaming, new files appearing, lines written in pieces and lines that are not log records (which are skipped). After the shipper is stopped or killed and started again it continues where it was, repeating at most what it had not yet recorded as delivered, and losing nothing.",
  ["schedules", "crash_points", "fault_sequences", "inputs"],
  "for all write and rotation patterns, collector failures (refused, error status, silence, broken connection) and kill points; a file is rotated at most once between two looks of the shipper at it, not while the shipper is down, and the shipper is not killed while lines of a file that was rotated away are undelivered",
  "The C++ test covers one rotation of one file without a collector.",
  ["ekosis_log_shipper/src/main.cpp", "ekosis_log_shipper/src/tracked_file.cpp", "ekosis_log_shipper/src/state_store.cpp", "ekosis_log_shipper/src/http_sender.cpp"],
  [("offset advanced only after a 2xx response", "ekosis_log_shipper/src/main.cpp"), ("old file drained before switching to the new one", "ekosis_log_shipper/src/tracked_file.cpp")],
  ["HTTP requests received by a scripted collector"])

p("C19", "Shipped log records say what the log file says",
  "Each delivered record carries the same message, severity number and text, time to the microsecond, trace and span id (when present), and attributes of the same type and value as its line in the log file, for any text, and the batch names the application and instance the lines name; no record is left out or holds up others because of what it says. The shipper has no memory errors, leaks or undefined behaviour while doing so.",
  ["inputs"],
  "for all records the logging side can write (any Unicode text, control characters, any attribute values, times with and without fractions, any line length)",
  "No test builds a payload.",
  ["ekosis_log_shipper/src/otlp_envelope.cpp", "ekosis_log_shipper/src/main.cpp", "ekosis_log_shipper/src/tracked_file.cpp", "ekosis/logs/otlp_formatter.py"],
  [("record conversion", "ekosis_log_shipper/src/otlp_envelope.cpp")],
  ["decoded payloads at a scripted collector", "AddressSanitizer / UndefinedBehaviorSanitizer / LeakSanitizer reports"])

p("C20", "Settings are resolved from the most specific source",
  "Every setting of a running instance has the value of the most specific place that gives one: the instance's entry in the configuration file if there is one, else the environment variable for this instance, else the one for the application, else the one for the machine, else the documented default; server addresses are only taken from the instance level. Settings of other applications and instances never apply, and extra values are found under their own names by the same precedence.",
  ["configurations", "inputs"],
  "for all subsets of the places in which each setting can be given, application names and instance ids, including names that are prefixes of each other",
  "The tests start each application with one fixed configuration.",
  ["ekosis/configuration/config_models.py", "ekosis/configuration/argument_parser.py", "ekosis/util/utility_functions.py"],
  [("environment lookup chain", "ekosis/configuration/config_models.py get_eco_env"), ("extra values merged by level", "ekosis/configuration/config_models.py")],
  ["configuration as seen by application code in a started process"])

p("C21", "At most one process runs per application instance",
  "However many processes for the same application and instance are started at the same time or later, at most one is running at any moment; the others refuse to start and change nothing for the running one. After the running one ended in any way, including being killed, the instance can be started again, also when the lock file is left empty or damaged, and different instances or applications never block each other (an instance is known by its application's name, a dash and its own name).",
  ["schedules", "crash_points", "histories"],
  "for all start interleavings, kill points and lock file contents",
  "The tests start each application once.",
  [AB],
  [("lock file with process id, guarded by a file lock", AB)],
  ["processes that reach the running state", "exit of the others"])

p("C22", "The LRU cache keeps exactly the most recently used entries",
  "For every sequence of operations the cache holds at most its maximum number of entries, exactly the most recently used ones, each with the value last set; iteration goes from most to least recently used, looking up or setting an entry makes it the most recent one, and peeking or testing membership does not change the order. Removing entries and clearing affect nothing else.",
  ["histories", "inputs", "configurations"],
  "for all operation sequences and sizes from one up",
  "The tests run short fixed sequences.",
  ["ekosis/cacheing/lru_cache.py", "ekosis/cacheing/cached_item.py"],
  [("doubly linked ring plus dictionary", "ekosis/cacheing/lru_cache.py")],
  ["return values of the cache's operations"])

p("C23", "Span keys survive every representation unchanged",
  "A span key converted to bytes, to text, to JSON and back by any of the supported ways is the same span key; two span keys are equal (and hash equally) exactly when both their parts are, and parts exactly when their bytes are; generated ones do not repeat. Anything that is not a valid representation is rejected with an error, never turned into a different span key.",
  ["inputs"],
  "for all trace and span id values including extremes, and all malformed representations",
  "The tests use generated keys only, as opaque values.",
  ["ekosis/data_transfer_objects/span_id.py", "ekosis/data_transfer_objects/json_protocol.py"],
  [("fixed width encodings", "ekosis/data_transfer_objects/")],
  ["results of the conversions", "span keys echoed on the wire"])

p("C24", "Published metrics are what the services report",
  "For every statistics response, each endpoint and queue outside of the excluded groups yields exactly one metric per available number, with that number and with the service, instance, group and endpoint it belongs to, percentiles without data and excluded groups yield none, and custom statistics each yield theirs. A scrape publishes health 1 for each service that answered and 0 for each that did not, and one failing service never affects what is published for the others; all local services configured in the environment, and only those, are scraped.",
  ["inputs", "configurations", "fault_sequences"],
  "for all statistics trees (route keys of any depth), environments, and combinations of answering, failing and unreachable services",
  "No test covers the metrics package.",
  ["ekosis_prometheus/ekosis_prometheus/stats_translator.py", "ekosis_prometheus/ekosis_prometheus/scraper.py", "ekosis_prometheus/ekosis_prometheus/service_discovery.py"],
  [("translation of the statistics tree", "ekosis_prometheus/ekosis_prometheus/stats_translator.py"), ("per-service error isolation", "ekosis_prometheus/ekosis_prometheus/scraper.py")],
  ["samples pushed to a stand-in Pushgateway", "translator output"])

p("C25", "Traces show each request and each processing attempt under its caller",
  "With tracing enabled, every successfully answered request yields exactly one span named after its route key, in the trace of the request and as child of the caller's span, and every processing attempt of a buffered request yields exactly one span with its attempt number and outcome, in the same trace and as child of the span under which the request was received (or of the caller's span if there was none), also when it is processed after retries or a restart, and when one span key is used for requests to several endpoints at a time.",
  ["schedules", "histories"],
  "for all interleavings of concurrent requests, outcome sequences and restart points",
  "No test covers the tracing package.",
  ["ekosis_otlp_traces/ekosis_otlp_traces/middleware.py", "ekosis_otlp_traces/ekosis_otlp_traces/buffered_middleware.py", "ekosis_otlp_traces/ekosis_otlp_traces/setup.py"],
  [("span per request being routed", "ekosis_otlp_traces/ekosis_otlp_traces/middleware.py"), ("receive span id stored as metadata", "ekosis_otlp_traces/ekosis_otlp_traces/buffered_middleware.py")],
  ["spans received by a stand-in collector"])

p("C26", "Error states show exactly the errors raised and not yet cleared",
  "At any time the error states an application reports are exactly those raised more often than cleared, each with its first description and the right count: raising adds one, clearing removes at most what is there (and all of it when asked to clear all), identifiers are not case sensitive, and clearing one error never changes another.",
  ["histories", "inputs"],
  "for all sequences of raising and clearing, in the application and through the management endpoints",
  "The tests run one short sequence.",
  ["ekosis/state_keepers/error_state_list.py", "ekosis/state_keepers/error_state_keeper.py", "ekosis/standard_endpoints/errors.py"],
  [("counter per upper-cased identifier", "ekosis/state_keepers/")],
  ["eco.error_states.* responses", "return values"])

p("C27", "The command line tools do what was asked and report the answer",
  "Each invocation of a command line tool performs exactly the one management action its options name, on the given server (over TCP, UDP or UDS), queue and request, and prints the server's answer; wrong or incomplete options are refused without contacting a server.",
  ["inputs", "configurations"],
  "for all tools, options, transports, queue states",
  "The tests do not run the tools.",
  ["ekosis/cli/bem.py", "ekosis/cli/bsm.py", "ekosis/cli/log.py", "ekosis/cli/stat.py", "ekosis/cli/shared_functions.py", "ekosis/cli/senders/queue_management_sender_base.py"],
  [("option to sender mapping", "ekosis/cli/")],
  ["requests received by a recording server", "output and exit status"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
