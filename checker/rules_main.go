package main

func init() {
	register("C01", "Every task made active by Poll, InsertPromise or UpsertPromise was read from the store in the same write transaction and is known to be pending there (UpsertPromise: any state), is stored active with a generated nonce, and exactly one task is stored per committed outcome; conflict and not-found are returned only on paths that establish them. MongoDB: a claim is one conditional find-and-update whose filter requires the identifier or the poll query and the pending state, every further condition repeats a field of a document looked up with the same query; success exactly if its outcome is, no other write, retries only after a miss and with the same arguments.", func(c *Checker) {
		c.claimFromPending("Poll", true)
		c.claimFromPending("InsertPromise", true)
		c.claimFromPending("UpsertPromise", false)
		c.memdbPromiseErrors()
		c.mongoClaim("Poll", true)
		c.mongoClaim("InsertPromise", true)
		c.mongoClaim("UpsertPromise", false)
	})
	register("C02", "The claimed task is the first record of a scan of an index over exactly the pending tasks of the requested topic ordered by scheduled time, started at the minimum of the time encoding, and is known to be due; not-found only when that first record is absent, belongs to another topic or is not due. MongoDB: the filter is exactly pending, topic and scheduled at or before the clock, sorted ascending, or pins the first document of that query; not-found only after a miss of exactly that query.", func(c *Checker) { c.pollOrder(); c.mongoPollOrder() })
	register("C03", "Each field of the stored task equals the value a claim prescribes (state, nonce, consumer, consumed, deadline) or the field of the task read, field by field, and each field of the result equals the stored one. MongoDB: the update sets exactly those fields to those values.", func(c *Checker) {
		for _, n := range []string{"Poll", "InsertPromise", "UpsertPromise"} {
			c.claimFields(n)
		}
		for _, n := range []string{"Poll", "InsertPromise", "UpsertPromise"} {
			c.mongoClaimFields(n)
		}
	})
	register("C04", "A commit is stored only on paths where the nonce of the commit is empty or known to equal that of the record read by identifier in the same transaction, and leaves an empty nonce; conflict only where the nonces are known to differ, not-found only where the lookup found nothing. MongoDB: the filter of the update requires the identifier and, unless the nonce of the commit is known empty, that nonce.", func(c *Checker) { c.memdbCommitGuard(); c.mongoCommitGuard() })
	register("C05", "Each field of the stored task equals the field of the commit if that is specified and of the task read otherwise; the result equals the stored task. MongoDB: the update sets exactly the fields known to be specified, and the nonce.", func(c *Checker) { c.memdbCommitFields(); c.mongoCommitFields() })
	register("C06", "Every record delivered by a scan of the active tasks by deadline from the minimum is put back or known not to be due; the scan stops only at its end or at a task known not to be due; every record put back is known to be active and past its deadline; field by field only the state and the nonce change. MongoDB: one update of all documents that are active with a deadline before the clock, setting exactly state and nonce.", func(c *Checker) { c.memdbRecovery(); c.mongoRecovery() })
	register("C07", "Every record delivered by a scan of the completed tasks by time of consumption from the minimum is deleted or known not to be past the retention period; every record deleted is known to be completed and past it. MongoDB: an index over consumed, partial on completed, expiring after the configured seconds, is created or its period changed; failures are reported.", func(c *Checker) { c.memdbRetention(); c.mongoRetention() })
	register("C08", "Every record delivered by the lookup by identifier or the scan by topic of active tasks is put back with only its state and nonce changed; nothing else is stored; the reported number is the number of stored records. MongoDB: one update whose filter is exactly the name and the active state, setting exactly state and nonce; its count is reported.", func(c *Checker) { c.memdbRelease(); c.mongoRelease() })
	register("C09", "Typestate of transactions (one per operation, opened in the right mode, ended on every path, committed iff the operation succeeds and changed something, not used afterwards), stored records never written to, handed out or aliased with the caller's, every failed operation reported.", func(c *Checker) {
		for _, n := range memdbMutators {
			c.txnRules(n, true)
		}
		for _, n := range memdbReaders {
			c.txnRules(n, false)
		}
	})
	register("C10", "Every element of the given list is looked up by its identifier and stored completely (insertions: iff the lookup finds nothing); conflict only where it found something; the counters equal the number of iterations with the respective effect. MongoDB: one write model per element of the list, each for that element and its identifier; errors are ignored only if every one is known to be a duplicate key; counters are those of the commands.", func(c *Checker) { c.memdbInsertions(); c.mongoInsertions() })
	register("C11", "Deletions and lookups use exactly the index and the argument that denote the named records; results are the fields of the records found; counts are those of the deletion or the exhausted scan; not-found only where nothing was found. MongoDB: exactly one command with exactly the filter that names the records; counts are those of the command.", func(c *Checker) { c.memdbDeletions(); c.memdbReads(); c.mongoDeletions(); c.mongoReads() })
	register("C12", "Typestate of the snapshot file on every path: created next to the target under another name, every record of one scan of all tasks encoded, flushed, synced and closed without error before it is renamed; the target is not touched otherwise; failures are reported and leave no file behind; saves happen when due and on close.", func(c *Checker) { c.snapshotSave() })
	register("C13", "Every record decoded is stored as decoded, each in an object of its own, in one transaction committed only at the end of the file; only a missing file counts as an empty store; every other failure is returned.", func(c *Checker) { c.snapshotLoad() })
	register("C14", "For every record of the scan, its position is known (by linear invariants) to lie within the page iff it is appended to the result; the loop ends only when the page is full or the scan exhausted; elements are private copies, field by field. MongoDB: the command carries exactly the topic, limit and offset requested and all of its records are returned.", func(c *Checker) { c.memdbPages(); c.mongoPages() })
	register("C15", "On every path through the operations with a fallback, a second attempt is made iff the flag is automatic and the error of the first is known to be a server error with one of the two sharding codes; the flag is raised exactly then; errors that do not qualify are returned; the commands of the fallback name the identifier and topic of the task; the flags made by New are those the configuration asks for.", func(c *Checker) { c.mongoFallback() })
	register("C16", "Every index named as a hint is created by Open (or is that of the identifier), its partial filter is implied by the filter of the command and its first key occurs there; names are unique; creation is waited for and its failure reported. The client of the engine derives from the configured URI and a registry that decodes documents to maps, its collection from the configured names.", func(c *Checker) { c.mongoIndexes(); c.mongoConfig() })
	register("C17", "For every path of every mounted handler chain that reaches the storage engine: decoding succeeded, each requirement on each field (of each element of a batch) is known to hold, each field handed over equals the decoded one or its documented default under the facts that call for the default; page arguments are known to be within the configured maxima. Every path that rejects has a fact that is a documented reason.", func(c *Checker) { c.apiValidation() })
	register("C18", "Exactly one response on every path of every mounted handler chain; its status is determined by the outcome of the engine (error classes known through errors.Is facts; 201 iff the count of created is known positive), its body is the result of the engine or an error object with the same code and the text of the error. Contract of both engines: result present iff no error.", func(c *Checker) { c.apiResponses(); c.engineContract() })
	register("C19", "The routing table extracted from main: each documented endpoint mounted once under each prefix on every path; each chain performs at most one engine operation, the documented one, with the request's context, on the opened engine, with the parameters of the path; each documented operation is reachable; the router keeps escaped slashes apart.", func(c *Checker) { c.apiRoutes() })
	register("C20", "For every path of every exported method of the client with arbitrary arguments: at most one request, with the caller's context; its method and URL term match a mounted endpoint that performs the operation of the same name; names are placed in the path escaped, limits and offsets in the query, the argument as JSON in the body. A request is withheld only where a name is known to be empty. Every failure is returned, the body closed, the result the decoded response. The transport changes the origin and absent headers only.", func(c *Checker) {
		c.clientRequests()
		c.clientResponses()
		c.clientTransport()
	})
	register("C21", "The exported error classes are distinct. On every path of NewError the code is that of a class the error is known to wrap, or that of an internal error where it is known to wrap none; the message is the text of the error. On every path of Err the error wraps the class of the code (or none for an unknown code) and carries the message.", func(c *Checker) { c.errorTranslation() })
	register("C22", "From every outcome of Poll, for every exported method of the context and sequences of them (alone, followed by Reset, after all others, after a commit): the fields of the commit sent are the defaults overwritten by exactly the documented fields; the request goes to the task of the context, with its context, at most once after a success and again after a failure; the context is derived from that of the caller with the time left; it is ended after success only.", func(c *Checker) { c.contextRules() })
	register("C23", "For every path of Subscribe: the workers belong to one group that is waited for, as many as the concurrency or one. On every iteration of a worker exactly one token is consumed (timer, task or error) and one produced (timer set, or result passed on through a buffered channel): a task is handled then committed once, an error is reported unless it means that there is no task or the context ended; pauses are the option or its default; all waiting includes the end of the context, which alone ends a worker.", func(c *Checker) { c.subscribeRules() })
	register("C25", "On every path of the program: the engine created is the one of the configured name (regardless of case) with its own configuration; it is opened before any use, and nothing starts if that failed; the server and the background jobs belong to one group whose context has no deadline; the engine is closed exactly once, after the group was waited for, with a live context; the exit status tells whether anything failed. On every path of the server: it listens iff the port is positive, on the configured address with the router; signals are buffered before; each cause (signal, end of the group) stops it, gracefully and without limit for a signal; it returns only after that, and with any error other than that of a closed server.", func(c *Checker) { c.lifeRules() })
	register("C26", "On every path of the background jobs and every iteration of their loop (typestate over clocks): they run iff the interval is positive; each tick is followed by exactly one Chore of the opened engine with the context of the group, whose errors are not a reason to stop; the first tick comes after the initial delay (as a linear term; scaled by a random factor below one iff so configured), later ones after the interval; waiting always includes signals and the end of the group, which alone stop the jobs; each duration is observed once, from clock readings around the run.", func(c *Checker) { c.choreRules() })
	register("C24", "On every path of every mounted handler chain: the metrics updated, their amounts (as linear terms over the engine's counters and clock readings) and label values are exactly those prescribed by the operation and its outcome; the duration of the request is observed once, after the response.", func(c *Checker) { c.apiMetrics() })
	register("C27", "Every operation of both engines, every mounted handler chain, every client method, the transport, the subscriptions and main with the goroutines they start are walked on every path, recording each access to memory that existed before the activity or is shared with goroutines it started, with the locks held. For every location that some activity writes: that write and every other access that may happen at the same time hold a common lock (the writer exclusively), or both are atomic. Locks are released on every path and iteration, never released unheld, never acquired twice, and always acquired in a consistent order.", func(c *Checker) { c.raceRules() })
	register("C28", "No path of any mounted handler chain panics, exits, dereferences a value that came from the request or an absent engine result without a check, indexes a decoded list without knowing it is long enough, or hands metric labels not known to be valid UTF-8 to the client.", func(c *Checker) { c.apiRobust() })
	register("C29", "For every path of nonce.Generate and every iteration of its loop, for any length: the length of the result is the requested one (linear invariants over the loop variables and the text written so far); no index is out of range; every piece is an element of a constant set of alphanumeric characters at an index whose range covers all 62; the index depends on random bits drawn in the iteration or carried by the loop, which are discarded after use, and refreshed before they run out (bit budget). Random sources are never seeded with constants.", func(c *Checker) { c.nonceRules() })
	register("C31", "All four published descriptions reduce to the same promises. Every documented path and method is in the routing table extracted from main below each documented base, with the same parameters; every mounted endpoint that reaches the storage engine is documented. Over all paths of every handler chain: the type a body is decoded into, the tags query parameters are read by, the status and type of each success, and the error classes that the operation can produce in either engine (over all its paths) equal what is documented. Properties, JSON types, presence and enumeration values of the documented types equal those of the Go types.", func(c *Checker) { c.docsRules() })
	register("C32", "For every type that is stored or transmitted: no encoding of its own; every field except the relative delays has a distinct BSON name without options that change or drop values that commands look for; promises use the names and types of tasks; every field has a distinct JSON name and is transmitted for every value that differs from its absence. On every path of Task.Decode without an error exactly one decoding into the given value of the encoded payload, on every other an error.", func(c *Checker) { c.codecRules() })
	register("C30", "Liveness chains use no engine and answer 200; readiness asks Ready once and answers 200 iff it succeeded, else the status of the error class. Ready of both engines: success iff the database is known to be present, or the ping to have succeeded; otherwise an unavailable error.", func(c *Checker) { c.apiHealth() })
	register("C38", "Over every path of main, the type the command line is parsed into: each option is settable, has a distinct name and short name and the environment variable of its name, is not mandatory, and its default is a value of its type; defaults are the documented ones; every option named in the README, the image and the deployments exists and is set to a value of its type. (The rules about engines, server, jobs and validation find the options by these names.)", func(c *Checker) { c.configRules() })
	register("C39", "The context of every command of the MongoDB engine (on every path, in loops and in the goroutines it starts), of every storage operation of a handler and of every request of the client is that of the caller or derived from it by functions that keep its cancellation, and has not been ended before by events on the path (cancel functions, the end of the group it belongs to).", func(c *Checker) { c.cancelRules() })
}
