prop("C01", "A task is claimed only while pending, by exactly one consumer",
 """A promise is only ever granted for a task that is stored as pending at the very moment it becomes active, in one
 atomic step, so no two consumers can hold the same execution of a task. A consumer that asks for a specific task gets a
 conflict exactly when the task exists but is not pending, and not-found exactly when it does not exist; a forced promise
 (upsert) replaces the current one atomically.""",
 "schedules inputs histories fault_sequences",
 "All interleavings of any number of consumers, all stored task states, all failures of storage operations.",
 """The tests claim tasks from one goroutine or a handful with a fixed seed; exclusivity is a statement about every
 interleaving and every stored state, and depends on the check and the update being one transaction (or one conditional
 database command).""",
 "internal/engine/memdb/queue.go internal/engine/memdb/promise.go internal/engine/mongodb/queue.go internal/engine/mongodb/promise.go",
 [("claim within one write transaction", "memdb Poll, InsertPromise, UpsertPromise"),
  ("conditional find-and-update", "mongodb pollAtomic, pollOptimistic, insertPromise*, upsertPromise*")],
 [("task state", "pending, active, completed or archived", "ratus.Task.State"), ("nonce", "identifies one execution of a task", "ratus.Task.Nonce")],
 tech="typestate of transactions and claimed records")
prop("C02", "Polling hands out the earliest due pending task of the topic, or says none",
 """A poll returns a task only if it belongs to the requested topic, is pending and its scheduled time has been reached, and
 among those it is one with the earliest scheduled time, including times before 1970. It reports not-found only when no
 such task exists at that moment.""",
 "inputs histories schedules", "All contents of the store, topics, scheduled times and clock readings.",
 "Tests use a few tasks with times around now; order and completeness must hold for every stored set and every time value.",
 "internal/engine/memdb/queue.go internal/engine/memdb/memdb.go internal/engine/memdb/indexer.go internal/engine/mongodb/queue.go",
 [("ordered index scan from the minimum time", "memdb Poll with the pending/topic/scheduled index"), ("sorted conditional query", "mongodb pollAtomic, peek")],
 tech="value flow from index scans to results, index schema derivation")
prop("C03", "Claiming rewrites exactly the claim fields of a task",
 """A granted promise makes the task active with a fresh nonce, the consumer of the promise, the current time as the time of
 consumption and the deadline of the promise, and changes no other field. What the consumer receives is what is stored.""",
 "inputs histories", "All tasks (any payload, any optional field present or absent) and all promises.",
 "Tests compare a few fields of a few tasks; a dropped, swapped or stale field shows only for particular records.",
 "internal/engine/memdb/memdb.go internal/engine/memdb/queue.go internal/engine/memdb/promise.go internal/engine/mongodb/mongodb.go internal/engine/mongodb/queue.go internal/engine/mongodb/promise.go",
 [("update of the claimed record", "memdb updateOpsConsume; mongodb updateOpsConsume and its fallback")],
 tech="per-field value-flow obligations")
prop("C04", "A stale or foreign nonce can never commit to a task",
 """A commit that carries a nonce is applied only if the nonce equals that of the current execution of the task, checked in
 the same atomic step as the update, and a commit without a nonce is applied unconditionally; every commit invalidates the
 nonce. Conflict is reported exactly for a nonce mismatch and not-found exactly for a missing task, and neither changes
 anything.""",
 "inputs schedules histories", "All commits, stored tasks and interleavings with claims, commits and recoveries.",
 "Tests try one matching and one wrong nonce sequentially; the guarantee is about every interleaving with recovery and re-claiming.",
 "internal/engine/memdb/queue.go internal/engine/mongodb/queue.go",
 [("nonce check", "memdb Commit; mongodb commitAtomic, commitOptimistic")], tech="guard obligations on atomic updates")
prop("C05", "A commit changes exactly the fields it specifies",
 """A commit replaces topic, state, scheduled time and payload if and only if it specifies them, clears the nonce and leaves every other
 field of the task as it was; the result returned to the caller is the stored task.""",
 "inputs", "All combinations of specified and omitted fields and all stored tasks.",
 "Tests commit with a few combinations of fields.",
 "internal/engine/memdb/memdb.go internal/engine/memdb/queue.go internal/engine/mongodb/mongodb.go internal/engine/mongodb/queue.go",
 [("field-wise update", "memdb updateOpsCommit; mongodb updateOpsCommit")], tech="per-field value-flow obligations")
prop("C06", "Recovery returns exactly the timed-out active tasks to pending",
 """Every run of the background job puts every active task whose deadline has passed back to pending, with its nonce
 invalidated and everything else unchanged, and touches no task that is not active or whose deadline lies in the future.""",
 "histories inputs schedules", "All contents of the store, all deadlines and clock readings, all interleavings with claims and commits.",
 "Tests recover one or two tasks; completeness over the whole store and exactness at the boundary need every record and time.",
 "internal/engine/memdb/queue.go internal/engine/memdb/memdb.go internal/engine/mongodb/queue.go",
 [("deadline scan", "memdb Chore; mongodb Chore")], tech="exhaustive-scan and guard obligations")
prop("C07", "Retention removes exactly the completed tasks past their period",
 """Every run of the background job of the in-memory engine deletes every completed task consumed longer ago than the retention period,
 and deletes no other task; a task that is not completed, or completed more recently, is never deleted by time. With the external
 database the same is delegated to an expiring index over completed tasks with the configured period.""",
 "histories inputs configurations", "All contents of the store, consumption times, retention periods and clock readings.",
 "Tests wait for the expiry of a single task.",
 "internal/engine/memdb/queue.go internal/engine/memdb/memdb.go internal/engine/mongodb/mongodb.go",
 [("retention scan", "memdb Chore"), ("expiring index", "mongodb Open")], tech="exhaustive-scan and guard obligations")
prop("C08", "Releasing promises returns exactly the named active tasks to pending",
 """Deleting a promise, or the promises of a topic, returns exactly the active tasks with that identifier, or of that topic, to
 pending with their nonce invalidated and all else unchanged, in one atomic step; the reported number is the number of tasks released.
 Tasks that are pending, completed or archived are not touched.""",
 "inputs histories schedules", "All contents of the store and all identifiers and topics.",
 "Tests release a promise or two.",
 "internal/engine/memdb/promise.go internal/engine/memdb/memdb.go internal/engine/mongodb/promise.go",
 [("release", "memdb and mongodb DeletePromise, DeletePromises")], tech="exhaustive-scan, guard and count obligations")
prop("C09", "Operations of the in-memory engine are atomic, isolated and report failures",
 """Every operation of the in-memory engine works on one consistent snapshot, and its changes become visible all together or not at
 all: on success they are committed, on any error nothing is. Records in the store are never modified in place or shared with a
 caller, and no failure of a storage operation is reported as success.""",
 "schedules inputs fault_sequences", "All interleavings of concurrent operations, all failure points inside an operation.",
 "Tests never fail a storage operation half-way and cannot enumerate interleavings; aliasing shows only under concurrent readers.",
 "internal/engine/memdb/memdb.go internal/engine/memdb/queue.go internal/engine/memdb/task.go internal/engine/memdb/promise.go internal/engine/memdb/topic.go",
 [("transaction with deferred abort", "every method of the memdb engine"), ("copy on write", "memdb clone and updateOps*")],
 tech="transaction typestate, escape and ownership of stored records, error-propagation")
prop("C10", "Inserting never overwrites, upserting always does, and counts are exact",
 """Inserting a single task fails with a conflict exactly when its identifier is taken, leaving the stored task alone; inserting a batch skips exactly the
 existing identifiers; upserting stores exactly the given tasks, completely and field by field. The reported numbers of created and updated tasks are the
 numbers that were, and a failure is never reported as success (the in-memory engine then stores none of them).""",
 "inputs histories fault_sequences", "All batches (including duplicates within a batch), stored tasks and failures half-way.",
 "Tests insert small fixed batches without duplicates.",
 "internal/engine/memdb/task.go internal/engine/mongodb/task.go",
 [("insertions", "memdb and mongodb InsertTask, InsertTasks, UpsertTask, UpsertTasks")], tech="guard, value-flow and count obligations")
prop("C11", "Reads and deletions cover exactly what was named",
 """Looking up or deleting a task, promise or topic concerns exactly the records with that identifier or topic: nothing else is
 returned or removed, nothing matching is left behind, and the number reported is exact. A lookup reports not-found exactly when there is no such record, and
 names that could be mistaken for one another by the store are rejected.""",
 "inputs histories", "All identifiers and topics, including empty, prefix-related and control-character names, all contents.",
 "Tests use well-behaved names; cross-talk between names shows only for particular pairs (prefixes, separators, wildcards).",
 "internal/engine/memdb/task.go internal/engine/memdb/topic.go internal/engine/memdb/promise.go internal/engine/memdb/memdb.go internal/middleware/task.go internal/middleware/middleware.go internal/engine/mongodb/task.go internal/engine/mongodb/topic.go internal/engine/mongodb/promise.go",
 [("exact index lookups", "memdb Delete*, Get*"), ("exact filters", "mongodb Delete*, Get*")], tech="index-argument value flow")
prop("C12", "Snapshots are complete, consistent and replaced atomically",
 """A snapshot contains every task of one consistent view of the store, and replaces the previous file only after it has been completely
 written and flushed to disk under another name; a crash or failure at any point leaves the previous snapshot intact and no
 success is reported. Closing the engine saves a last snapshot and the background job saves one whenever the configured interval has passed.""",
 "crash_points fault_sequences histories", "All crash points and failures of file operations during a save, all contents.",
 "Tests save to a healthy disk and never crash in between.",
 "internal/engine/memdb/memdb.go internal/engine/memdb/queue.go",
 [("write to temporary, sync, rename", "memdb save"), ("interval", "memdb Chore"), ("final save", "memdb Close")],
 tech="typestate of files (write, flush, sync, close, rename), exhaustive-scan obligations")
prop("C13", "Opening restores exactly the tasks of the snapshot or reports the failure",
 """Opening the in-memory engine with a snapshot path restores every record of the file unchanged, and makes it visible only as a whole; a
 missing file means an empty store, and any other problem (unreadable, truncated, corrupt) is reported instead of silently starting
 with fewer tasks.""",
 "inputs fault_sequences crash_points", "All snapshot files, including truncated and corrupt ones, all read failures.",
 "Tests load one valid snapshot.",
 "internal/engine/memdb/memdb.go", [("decode loop", "memdb load"), ("visibility", "memdb Open")],
 tech="typestate of files and transactions, error-propagation")
prop("C14", "A listing is exactly the requested page of the matching records",
 """Listing tasks, promises or topics with a limit and an offset returns exactly the records at positions offset to offset+limit-1 of the
 matching ones in the order of the store, each a faithful private copy; it stops short only when there are no more. Following the pages
 on an unchanged store therefore visits every record exactly once.""",
 "inputs histories", "All limits, offsets and contents.",
 "Tests list a few hundred records with a few limits; off-by-one errors need particular limits and offsets.",
 "internal/engine/memdb/task.go internal/engine/memdb/promise.go internal/engine/memdb/topic.go internal/engine/mongodb/task.go internal/engine/mongodb/promise.go internal/engine/mongodb/topic.go",
 [("page loops", "memdb ListTasks, ListPromises, ListTopics"), ("limit and skip", "mongodb List*")],
 tech="relational (linear) invariants of scan positions")

prop("C15", "MongoDB fallbacks are taken exactly when the deployment demands them",
 """An operation of the MongoDB engine that is not supported on a sharded collection is repeated, once and in a way that works under any shard key,
 exactly when the server rejects it for that reason; every other failure is returned. The need is remembered for that operation only, and the
 settings that disable fallbacks or atomic polling are respected.""",
 "inputs histories fault_sequences", "All server errors, flag values, configurations and orders of operations.",
 "The tests of this engine need a live sharded deployment and are skipped without one.",
 "internal/engine/mongodb/mongodb.go internal/engine/mongodb/queue.go internal/engine/mongodb/promise.go internal/engine/mongodb/task.go",
 [("branch", "mongodb.go branch"), ("flags", "mongodb.go New, Fallback")], tech="typestate of attempts and flags, command extraction")
prop("C16", "The MongoDB engine uses the configured collection and indexes that exist",
 """Every index the MongoDB engine asks the server to use exists after opening it and contains every document the command has to see; opening creates
 all indexes unless that is disabled, waits for them and reports failures. The engine works on the deployment, database and
 collection it is configured with, and objects in payloads come back as objects.""",
 "inputs histories fault_sequences", "All commands sent by any operation, all configurations.",
 "A hint on a missing index fails and one on a partial index hides documents, on a live server only; without one, the tests of this engine are skipped.",
 "internal/engine/mongodb/mongodb.go internal/engine/mongodb/queue.go internal/engine/mongodb/promise.go internal/engine/mongodb/task.go internal/engine/mongodb/topic.go",
 [("index creation", "mongodb.go createIndexes"), ("hints", "all mongodb operations"), ("client", "mongodb.go New")], tech="catalogue of created indexes checked against the hint and filter of every command")
API = "internal/middleware/middleware.go internal/middleware/task.go internal/middleware/promise.go internal/middleware/commit.go internal/middleware/pagination.go internal/controller/controller.go internal/controller/task.go internal/controller/promise.go internal/controller/topic.go cmd/ratus/main.go"
prop("C17", "Requests are normalised as documented, or rejected before they have any effect",
 """No operation of the storage engine is performed for a request with a malformed or (where one is required) missing body, with a
 null task, with an empty or inconsistent identifier or an empty topic, with an unknown state, an unparsable duration, a name
 containing NUL, or with a negative or excessive limit or offset. Otherwise what the engine receives is the request itself with
 exactly the documented defaults: identifier and topic of the path, current time as production time, production or deferred
 time as schedule, default timeout, completed as target state, default limit capped by the configured maximum. Valid requests are
 not rejected.""",
 "inputs", "All requests (bodies, path and query parameters) and all configurations of the page size.",
 "Every combination of present, absent, empty and inconsistent fields, in every element of a batch; tests try about one request per message.",
 API, [("request middlewares", "internal/middleware"), ("handler chains", "controller.go Mount")], tech="value flow from decoded requests to engine calls over all mounted handler chains")
prop("C18", "Every request is answered once, with the status and body of its outcome",
 """Whatever the request and whatever the storage engine returns, the response is sent exactly once: success with 200, or 201 exactly if
 something was created, and the result of the engine as body; failure with the status code of the class of the error (400, 404, 409, 499, 503,
 otherwise 500), through any wrapping, and an error object carrying the same code and the message. Rejected requests get 400 and unknown
 endpoints 404. The engines report a result exactly if they report no error.""",
 "inputs fault_sequences", "All requests and all errors and results of the storage engine, wrapped any number of times.",
 "Clients act on the class of the error (retry, give up, poll again later); the tests see a handful of errors from a stub engine, never one wrapped by a real one.",
 API + " internal/controller/health.go internal/router/router.go ratus.go",
 [("responses", "controller.go send, middleware.go fail"), ("classification of errors", "ratus.go NewError")], tech="effect counting on all paths of all mounted handler chains, error-class analysis")
prop("C19", "Every endpoint performs the operation and names the resource it documents",
 """Each documented endpoint is mounted exactly once at the root and under /v1, on every configuration, and performs exactly its
 documented operation, at most once, on the topic or task named in the path, on the engine that was opened, with the context of the
 request so that it is cancelled with it. A promise that names a task is made for that task, and only a promise without a name
 polls. Names may contain escaped slashes.""",
 "inputs", "All requests, endpoints and configurations.",
 "Swapped handlers or arguments of the same type compile and show only if the affected endpoint is exercised with distinguishing values.",
 "internal/controller/controller.go internal/controller/task.go internal/controller/promise.go internal/controller/topic.go internal/controller/health.go internal/controller/metrics.go internal/router/router.go cmd/ratus/main.go docs/docs.go",
 [("routing table", "controller.go Mount, router.go New")], tech="extraction of the routing table and effect analysis of every handler chain")
prop("C20", "Every client method makes its one request right and reports its result",
 """Every exported method of the client sends at most one request, with the context of the caller: to the endpoint that performs the
 operation the method is named after, with the given names escaped in the path (whatever characters they contain), limit and offset in
 the query and the given value as JSON body. It withholds the request only if a name is empty, as a bad request. It returns the decoded
 response on success and an error after every failure: of the transport, of encoding or decoding, and for every status of 400 or above
 the error the response describes; and it always closes the body. The transport directs every request to the configured origin, keeps
 headers that are present and adds the configured ones and a user agent.""",
 "inputs fault_sequences", "All arguments, all answers and failures of the transport, all configurations of the client.",
 "Tests call the methods with plain names against a healthy server; names with slashes or spaces and failing exchanges are not sampled.",
 "client.go transport.go ratus.go internal/controller/controller.go internal/controller/task.go internal/controller/promise.go internal/controller/topic.go",
 [("request and response of each method", "client.go Request and the methods around it"), ("origin and headers", "transport.go RoundTrip")],
 tech="matching of the requests on every path of the client against the extracted routing table")
prop("C21", "Errors keep their class and message between engine, server and client",
 """Errors are told apart by the sentinel they wrap, however deeply: each of the exported classes is answered with its own status code and
 the text of the error, cancelled requests and truncated bodies as closed by the client, everything else as an internal error. The
 client turns the answer into an error of the same class that carries the message.""",
 "inputs", "All errors and all error responses, including codes and messages the server does not produce.",
 "Tests compare the errors they construct themselves; wrapping and classification must hold for every error value.",
 "ratus.go client.go", [("translation of errors", "NewError, Error.Err")], tech="exhaustive case analysis of the translation in both directions")
prop("C22", "A polled context commits exactly the updates made, once, in time",
 """Poll returns the claimed task in a context that ends after the time from its consumption to its deadline and with the context of the
 caller. Commit sends, to that task and within that context, its nonce and the completed state unless changed; each setter changes
 its own fields only, Abstain, Archive, Reschedule, Retry, Force and Reset mean what they document. After a success further commits
 do nothing and the timer is released; after a failure Commit can be repeated with the same updates.""",
 "inputs histories fault_sequences", "All sequences of setters, tasks and outcomes of the exchange.",
 "Tests commit a few combinations against a healthy server; lost or leaking updates show for other combinations and after failures.",
 "context.go client.go ratus.go", [("construction of the context", "Client.Poll"), ("accumulation and sending of updates", "Context")],
 tech="abstract interpretation of method sequences with per-field obligations")
prop("C23", "A subscription handles and commits each claimed task exactly once",
 """Subscribe runs as many workers as the concurrency prescribes (at least one), started one after the other, each polling the topic with the given
 consumer and timeout only. A worker hands every claimed task to the handler exactly once, then commits it, and does not poll again before. It
 pauses as configured (or by default) after a success, an empty topic or an error, reports each failed poll or commit to the handler exactly once
 unless the context has ended, never for an empty topic, and never stops for any reason but the end of the context, whose error is
 returned after all workers ended. A worker never waits for itself.""",
 "schedules inputs histories fault_sequences", "All options, all sequences of outcomes of polls and commits, cancellation at any point.",
 "Tests run a subscription against a healthy server for a few seconds; a lost wake-up or a double commit needs particular sequences of failures.",
 "client.go context.go", [("worker loop", "Client.Subscribe")], tech="typestate of the worker's token over all iterations of the loop")
prop("C24", "Metrics count exactly what happened, once, under the right labels",
 """The counters of tasks produced, consumed and committed grow by exactly the number of tasks of each successful operation and
 not otherwise; delay and execution time are those of the task concerned; the duration of every request is observed once, after it was
 answered, under its topic, method, route pattern and status code. Label values belong to the task concerned. The metrics are served.""",
 "inputs fault_sequences histories", "All requests and outcomes of the storage engine.",
 "Tests look for the names of the metrics, not at values after every kind of outcome, failures and partial batches included.",
 "internal/controller/task.go internal/controller/promise.go internal/controller/metrics.go internal/middleware/prometheus.go internal/metrics/metrics.go",
 [("collection after responses", "internal/controller"), ("request durations", "middleware/prometheus.go")], tech="effect counting with linear amounts on all paths of all mounted handler chains")
prop("C25", "An instance runs the configured engine and shuts down without losing work",
 """The program uses the storage engine named by the configuration (regardless of case; an unknown name is an error) with the configuration of that engine. Nothing is
 served or run before the engine was opened successfully. The API server (unless the port is zero) and the background jobs run side by side; when one fails the
 other stops. An interrupt or SIGTERM at any time leads to a graceful shutdown in which requests in progress are completed however long they take. The engine is closed exactly
 once, after everything else has ended. Any failure, including one to close the engine, makes the program end with an error, a graceful shutdown does not.""",
 "schedules fault_sequences crash_points inputs", "All configurations, all failures of the parts, signals at any point.",
 "The tests start the program only to stop it; what happens to requests in flight, failing parts and a failing engine needs particular timing.",
 "cmd/ratus/main.go internal/config/config.go", [("life of an instance", "main.run"), ("server", "main.serve")], tech="ordering and typestate analysis of the program's paths, its goroutines included")
prop("C26", "Background jobs run once per interval until the instance stops",
 """With a positive interval, and only then, the background jobs of the storage engine first run after the initial delay (or a random part of it, if so configured) and then once
 every interval, never overlapping, whether or not earlier runs failed, until a signal or the end of the instance, which end them promptly. The duration of each
 run is observed once.""",
 "schedules fault_sequences inputs", "All configurations and sequences of failures, unbounded numbers of runs.",
 "Without these runs nothing is recovered or expired; that they continue forever and after failures cannot be observed by a test that ends.",
 "cmd/ratus/main.go internal/config/config.go internal/metrics/metrics.go", [("periodic jobs", "main.chore")], tech="typestate of the clock over all iterations of the loop")
prop("C27", "Concurrent requests and activities never corrupt or block each other",
 """The operations of a storage engine, API requests, calls of one client (its workers of subscriptions included) and the parts of the program may run at
 the same time, in any numbers and interleaving: no memory that one of them writes is accessed by another without synchronisation (a common lock, or atomic operations), so that
 none can observe or overwrite the data of another. Every lock is released on every path, failures included, and locks are never waited for in a cycle, so none can block the others forever.""",
 "schedules fault_sequences", "All interleavings of any number of activities, all paths, failures included.",
 "A race or deadlock appears in one interleaving of millions; the tests run few, and the race detector sees only those.",
 "internal/engine/memdb/memdb.go internal/engine/memdb/queue.go internal/engine/mongodb/mongodb.go internal/nonce/nonce.go internal/middleware/middleware.go client.go transport.go cmd/ratus/main.go",
 [("locks and atomics", "memdb.Engine.mux, mongodb fallback flags"), ("per-request memory", "middleware closures, Client, transport")], tech="lockset analysis on top of the abstract interpretation (all engine operations, handler chains, client calls and goroutines)")
prop("C28", "No request can crash a handler or the server",
 """No request, well-formed or not, makes a handler panic, dereference a missing value, index out of range, fail a type assertion, pass the
 wrong number of metric labels or labels that are not valid UTF-8, or end the process, whatever the storage engine returns.""",
 "inputs fault_sequences", "All requests, including null elements, missing bodies, invalid encodings, and all engine outcomes.",
 "Such inputs are exactly the ones nobody thought of when writing the tests (a null element in a batch crashed the handler).",
 API + " internal/middleware/prometheus.go internal/metrics/metrics.go",
 [("handler chains", "controller.go Mount")], tech="nullness, bounds and assertion analysis of every mounted handler chain")
prop("C29", "Nonces are fresh random alphanumeric strings of exactly the requested length",
 """Generating a nonce of any length returns exactly that many characters, never fails or reads out of range, and each character may be any of the 62 letters
 and digits, chosen by random bits that no other character (or other instance, by a constant seed) is chosen by. Nonces of tasks have at least 16 characters.""",
 "inputs histories", "All lengths and all sequences of random numbers.",
 "A nonce that is too short, or whose characters depend on each other, still passes every test that samples a few, but lets a stale consumer commit to a task it lost.",
 "internal/nonce/nonce.go ratus.go", [("rejection sampling from cached bits", "nonce.Generate")], tech="abstract interpretation with linear loop invariants (text length, bit budget)")
prop("C30", "Health endpoints tell the truth about the instance",
 """The liveness endpoints answer 200 without asking the storage engine; the readiness endpoint answers 200 exactly if the engine says it is ready and otherwise with
 the status of its error. The in-memory engine is ready exactly if its database exists and the MongoDB engine exactly if the server answers; otherwise
 they report the service as unavailable (503).""",
 "fault_sequences histories", "All states of the engines and all answers of the database server.",
 "Orchestrators act on these; the failing probe of a real engine needs a broken server or a closed engine.",
 "internal/controller/health.go internal/engine/memdb/memdb.go internal/engine/mongodb/mongodb.go ratus.go",
 [("probes", "health.go; Engine.Ready")], tech="outcome classification of the probes")
prop("C31", "The published API description and the served API agree",
 """Every published form of the API description (OpenAPI and Swagger, JSON and YAML) promises the same, and the server keeps it: each documented endpoint is
 served below /v1 with the documented path and query parameters and each endpoint that uses the storage is documented; requests are decoded and successes
 reported as the documented types under documented status codes, and not-found and conflict are answered exactly where documented. Each
 documented type has exactly the documented properties with the documented JSON types, those that identify a resource or report a result always being present,
 and task states have the documented numbers. What the body of a promise may say can equally be given in the query.""",
 "inputs", "All documented operations, status codes, types, properties and enumeration values; all requests and outcomes of the storage engines.",
 "Clients in other languages are written against the description; server and Go client share their types, so that tests between them pass whatever the names and numbers are.",
 "docs/openapi.json docs/openapi.yaml docs/swagger.json docs/swagger.yaml ratus.go internal/controller/controller.go internal/controller/task.go internal/controller/promise.go internal/controller/topic.go internal/middleware/promise.go internal/middleware/pagination.go",
 [("description", "docs/openapi.json"), ("types and tags", "ratus.go")],
 tech="comparison of the documents with the extracted routing table, the outcomes of the handlers and engines, and the types encoded")
prop("C32", "Tasks keep every field when stored, sent and decoded",
 """Every field of a task, except the delay that is converted when it is accepted, is stored in the database and in snapshots, under a name of its own
 and as it is (the pending state included, which queries look for), and promises are read back from tasks under the same names. Every field of each
 transmitted type is sent under a name of its own, and values that a commit may leave unspecified can be told from all that it can specify.
 Decoding the payload of a task gives the value that was produced, or an error.""",
 "inputs", "All values of all fields of all resources.",
 "A field that is dropped, merged with another or left out for one particular value shows only for that field and value, and only in the store that is affected; no database is available to the tests.",
 "ratus.go internal/engine/mongodb/mongodb.go internal/engine/memdb/memdb.go",
 [("encodings", "struct tags and methods of the types in ratus.go"), ("payloads", "ratus.go Task.Decode")],
 tech="analysis of encodings over the type-checked program; value flow")
prop("C38", "Options can be set by their documented names and have their documented defaults",
 """Every setting of the server can be given as a command line flag and through the environment variable of the same name (upper case, with underscores);
 no two settings share a name, and each name controls the setting it is documented for, in every part of the program that uses it. All settings are
 optional and their defaults are valid and as documented: the in-memory engine without snapshots, port 80 on all addresses, background jobs and retention on, index creation,
 fallbacks and atomic polling enabled. What the documentation, the image and the deployment examples set are settings of the program, with valid values.""",
 "inputs", "All settings, by flag and by environment variable, in the documentation and the deployment files.",
 "The tests set some options by flag and never use the environment; a variable that is misspelt, swapped or shared is noticed only in a deployment that relies on it.",
 "cmd/ratus/main.go internal/config/config.go internal/engine/memdb/memdb.go internal/engine/mongodb/mongodb.go Dockerfile README.md deployments",
 [("options", "tags of the structs that main parses the command line into")],
 tech="custom lint over the type-checked program and the documentation")
prop("C39", "Work is bound to the caller that asked for it",
 """Whatever is done for a caller is done in the caller's context: every command an operation of the MongoDB engine sends (retries, fallbacks, lookups,
 index creation and goroutines included) carries the context given to the operation, every storage operation of the API carries the context of its request, and every request of the
 client library that of its caller, or a context derived from these that ends with them. So no claim, update or request goes on for a caller that has gone, and none is sent
 in a context that has already been ended by the program itself.""",
 "schedules inputs fault_sequences", "All operations, on all paths; all moments at which a caller may go away.",
 "Tests never cancel; a command that drops or outlives its context behaves the same until a caller gives up, and then claims tasks nobody executes or blocks callers forever.",
 "internal/engine/mongodb internal/controller client.go",
 [("database commands", "every call of the driver in the MongoDB engine"), ("storage operations", "internal/controller"), ("requests", "client.go Request")],
 tech="value flow of contexts, typestate of cancellation")
prop("C33", "Payloads come back exactly as they were produced",
 """The payload a consumer receives equals the payload the producer sent, for every JSON value, whichever engine stores it and however often it is
 committed, snapshotted and restored.""",
 "inputs histories", "All JSON values as payloads.",
 "Equality must hold for every value, and encoders have special cases (large numbers, empty lists, nesting).",
 "ratus.go internal/engine/memdb/memdb.go internal/engine/mongodb/mongodb.go",
 [("payload", "ratus.Task.Payload through JSON, gob and BSON")],
 na="""Payloads are opaque values here: that the field is carried everywhere unchanged is decided (C03, C05, C10, C12, C13, C32), but whether the
 encoders of the libraries (JSON into empty interfaces, gob, BSON) map a given value to an equal one depends on run-time values inside library code that no rule
 over this repository's source can bound (known losses are listed in DESIGN.md).""")
prop("C34", "Every due task is eventually handed out while consumers keep polling",
 """As long as consumers poll its topic and promises are kept or time out, every pending task whose time has come is eventually handed out, and so is every task
 whose consumer disappeared.""",
 "histories schedules", "All infinite histories with polling consumers and running background jobs.",
 "Liveness speaks about infinite histories.",
 "internal/engine/memdb/queue.go internal/engine/mongodb/queue.go cmd/ratus/main.go",
 [("earliest first, recovery each interval", "Poll and Chore")],
 na="""A liveness property under fairness of the scheduler, the clock and the consumers, none of which appears in the source; the safety facts it follows from are decided instead
 (poll takes the earliest due task and says none only if there is none: C02; each run recovers all that timed out: C06; jobs run once per interval: C26).""")
prop("C35", "Operations on MongoDB are linearizable under concurrent instances",
 """Operations of any number of instances on one MongoDB deployment appear to take effect one at a time, in an order that agrees with real time, for every deployment (replica sets with
 failovers, sharded clusters) and version.""",
 "schedules histories crash_points fault_sequences", "All interleavings of instances, all failovers of the database.",
 "No database is available to the tests, and interleavings inside the server cannot be controlled.",
 "internal/engine/mongodb/queue.go internal/engine/mongodb/promise.go internal/engine/mongodb/task.go",
 [("single commands", "queue.go, promise.go, task.go")],
 na="""Depends on the semantics of the server (isolation of single commands, write concern, failover, TTL monitor), which is not part of the source. What the source is responsible for is decided:
 each claim, commit and recovery is one conditional command with the right filter, update, hint and fallback (C01-C08, C10, C11, C15, C16).""")
prop("C36", "Tasks are handed out promptly at their scheduled time",
 """A polled task is handed out within a bounded delay after its scheduled time, and recovered within a bounded delay after its deadline.""",
 "schedules", "All loads, clock speeds and collection sizes.",
 "A timing bound depends on load.",
 "internal/engine/memdb/queue.go internal/engine/mongodb/queue.go cmd/ratus/main.go",
 [("clock comparisons", "Poll and Chore")],
 na="""Durations of execution are not determined by the source. The comparisons with the clock, the intervals and the delays are decided (C02, C06, C23, C26).""")
prop("C37", "No two executions ever share a nonce",
 """The nonces of all executions of a task differ, so that a stale commit can never match a later execution.""",
 "histories", "All histories of claims of a task.",
 "Repetition is a matter of probability.",
 "internal/nonce/nonce.go internal/engine/memdb/memdb.go internal/engine/mongodb/mongodb.go",
 [("random nonces", "nonce.Generate")],
 na="""Uniqueness of random strings is probabilistic; no static rule can establish it. What keeps the probability negligible is decided: length, alphabet, fresh random bits for each character and
 random seeds (C29), a fresh nonce per claim (C03) and an empty one after each commit, recovery and release (C04, C06, C08).""")
