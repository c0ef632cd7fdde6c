SEQ = "Example-based tests run one or two fixed sequences"
prop("C01", "Embedding store behaves as a map of live records over any history",
 "After any sequence of single, batch and multi-record inserts, updates and deletes (by id, by id list, by document, by metadata filter, clear) interleaved with closing and reopening the database, lookup by id, lookup by document, listing, counting and statistics report exactly the live records. Each live record is returned with the id, vector (bit for bit), content, document, collection, metadata and access list that were last written for it, and a rejected call changes nothing.",
 ["inputs", "histories", "configurations"], "every finite history of store operations, every index configuration, every admissible id, content, metadata and vector value",
 SEQ + " with tidy ASCII ids and a single index type; they never compare the whole visible state with a model after each step nor across reopen.",
 ["pkg/core/store_crud.go", "pkg/core/store_query.go", "pkg/core/store_init.go", "internal/encoding/utils.go"],
 [("INSERT OR REPLACE upsert and DELETE statements", "pkg/core/store_crud.go"), ("vector and metadata encoding", "internal/encoding/utils.go")],
 ["GetByID, GetByDocID, ListDocuments, ListDocumentsWithInfo, Stats, GetDocumentsByType return values"],
 "runtime monitor: online map-model checker over random operation histories with reopen", "exploration",
 "Every read of the run is compared with a reference map; assurance is limited to the seed-determined histories executed. Trusts SQLite and the harness model.")
prop("C02", "Multi-record writes are all-or-nothing under any failure",
 "A batch insert, batch delete, delete by filter, clear, deletion of a document or collection with its chunks, multi-vector write or graph batch either takes effect completely (a graph batch: except for the elements it reports as failed) or, when it returns an error, changes nothing: no row, no keyword index entry, no vector-search result and no count differs from before. This holds whichever element is invalid, whichever storage statement fails, and whenever the context is cancelled.",
 ["inputs", "fault_sequences"], "every batch, every position of an invalid element, every storage statement at which an error is injected, every cancellation point",
 "Tests never make a statement fail half way through a batch; the error paths of multi-record operations are untested.",
 ["pkg/core/store_crud.go", "pkg/core/multi_vector.go", "pkg/graph/graph_batch.go"],
 [("one transaction per batch with rollback on error", "pkg/core/store_crud.go"), ("graph batch transaction", "pkg/graph/graph_batch.go")],
 ["full table contents, FTS match sets, search result sets before/after"],
 "runtime monitor: state comparison around injected statement faults and cancellations", "fault_enumeration",
 "Faults are injected at every element of each generated batch with SQLite triggers; complete in fault position for those batches, sampled in batch content.")
prop("C03", "Acknowledged writes survive a crash and nothing partial appears",
 "If the process is killed at any instant, reopening the database succeeds, every write that had returned success is present with its exact content, every multi-record write is present entirely or not at all, and no deleted record reappears. After the reopen keyword search and vector search (with any index) agree with the stored records.",
 ["crash_points", "histories", "configurations"], "every kill instant, in particular inside every statement of a transaction and between storage commit and index snapshot, for every index configuration",
 "No test kills a process; all of them close the store cleanly, so the recovery path from a stale or absent index snapshot is never run.",
 ["pkg/core/store_init.go", "pkg/core/store_index.go", "pkg/core/store_close.go", "pkg/core/store_crud.go"],
 [("WAL journal and transactions", "pkg/core/store_init.go"), ("index snapshot load and rebuild at init", "pkg/core/store_index.go")],
 ["state seen by a fresh process after SIGKILL of the writer"],
 "runtime monitor: SIGKILL at hooked statements and random instants, offline checker of the acknowledged-operation log against the reopened store", "fault_enumeration",
 "Process-crash model only (SIGKILL); power loss and torn pages are not simulated.")
prop("C04", "Exact vector search returns the true top-K",
 "Without an approximate index, a vector search returns exactly the records of the selected collection that satisfy the document and metadata filter and the score threshold, scored with the configured similarity function on the stored vector, ordered by score from best to worst and cut to the K best. This is so for every stored state, query, K, threshold and similarity function, and for vectors with zero, negative, tiny or huge components.",
 ["inputs", "histories", "configurations"], "every stored set, query vector, K, threshold, filter and similarity function",
 SEQ + " of a few vectors and check that the first hit is the expected one; ranking, ties, thresholds and K boundaries over arbitrary data are not compared with an independent computation.",
 ["pkg/core/store_search.go", "pkg/core/similarity.go"],
 [("linear scan scoring, sort and truncation", "pkg/core/store_search.go"), ("similarity functions", "pkg/core/similarity.go")],
 ["Search, SearchWithFilter results"],
 "runtime monitor: brute-force reference oracle on every search", "exploration",
 "Scores compared with an independent float64 computation within a tolerance; ties at the cut may be broken either way.")
prop("C05", "Indexed search never returns stale data nor loses live records",
 "With an HNSW or IVF index (with or without quantization), every search result is a live record of the selected collection that satisfies the filter and threshold, appears once, carries its current content, and is scored by the similarity of its current vector, in non-increasing order. A search returns as many results as K and the number of matching records allow (whatever fraction of the data matches), a record whose vector equals the query is found, and this stays so after updates, deletes of every kind, re-inserts, retraining and reopening.",
 ["histories", "inputs", "configurations"], "every history of writes, deletes, updates, reopen and retraining, every index type and quantizer, every selectivity of collection and filter",
 "Tests insert fresh vectors into an index and look at the first result; they never update or delete under an index and compare the whole answer, nor use filters that match few records.",
 ["pkg/core/store_search.go", "pkg/core/store_index.go", "pkg/core/store_crud.go", "pkg/index/hnsw.go", "pkg/index/ivf.go"],
 [("index maintenance in every write path", "pkg/core/store_crud.go"), ("candidate fetch, filter and re-score", "pkg/core/store_search.go"), ("snapshot load / rebuild", "pkg/core/store_index.go")],
 ["Search results against the table contents"],
 "runtime monitor: result-soundness and completeness checker against the live record set after each history step", "exploration",
 "Approximate order is not required to be the exact top-K; soundness, count and self-recall are exact, a recall floor is statistical with a wide margin.")
prop("C06", "Searches in one collection never see another collection",
 "Every search, listing, count, statistic and hybrid or keyword query that names a collection reports only records written to that collection, whatever other collections contain, however similar or numerous their records are, and whichever index is in use. Creating, listing, describing and deleting collections keeps names unique, reports exact counts, and deleting a collection removes all of its records and only those, from every search path.",
 ["inputs", "histories", "configurations"], "every assignment of records to collections, every search entry point, every index type",
 "Tests put two or three records in separate collections and call plain search; hybrid, reranked, diverse, streaming and faceted paths are not checked for leakage.",
 ["pkg/core/collections.go", "pkg/core/store_search.go", "pkg/core/advanced_search.go", "pkg/core/faceted_search.go", "pkg/core/streaming.go"],
 [("collection join or id predicate in each query", "pkg/core/store_search.go"), ("collection delete", "pkg/core/collections.go")],
 ["results of every search entry point"],
 "runtime monitor: tagged-record (taint) checker over every search entry point", "exploration",
 "Each record carries its collection as an unforgeable tag in its content; any foreign tag in a result is a violation.")
prop("C07", "Access lists are enforced on every access-controlled search",
 "An access-controlled search for a set of principals returns a record only if the record is public or its own list, or (when it has none) its document's list, names one of those principals exactly, and it returns every such record that the ordinary search ranks in the top K. This holds for any principal strings (including quotes, wildcards, prefixes of one another and JSON characters), together with any collection, filter or threshold, and after updates or dump and load.",
 ["inputs", "histories"], "every assignment of access lists to records and documents, every principal set, every combination with other query options",
 "Tests use two users with distinct simple names and no collection, filter or threshold.",
 ["pkg/core/store_search.go", "pkg/core/store_crud.go", "pkg/core/io.go"],
 [("json_each based access predicate", "pkg/core/store_search.go")],
 ["SearchWithACL results"],
 "runtime monitor: independent access-decision oracle on every result", "exploration",
 "The oracle recomputes the visible set from the written access lists.")
prop("C08", "Metadata filters select exactly the records they describe",
 "A metadata filter built from comparison, IN, LIKE, range, AND, OR and NOT conditions selects a record if and only if the record's metadata satisfies the condition; the selection is the same when it is applied before scoring, after scoring as a delete or as a dump, whether the filter was built programmatically, with the fluent builder (whose operands stay usable) or parsed from a filter string. No filter value or field name can widen the selection or alter other data.",
 ["inputs", "programs"], "every filter expression, every metadata content including missing keys, empty metadata, numeric strings and SQL metacharacters",
 "Tests evaluate a dozen fixed filters in isolation and never compare the SQL translation, the in-memory evaluator and the delete path on the same data.",
 ["pkg/core/advanced_filter.go", "pkg/core/advanced_search.go", "pkg/core/store_crud.go", "pkg/core/store_search.go"],
 [("filter to SQL translation and in-memory evaluator", "pkg/core/advanced_filter.go")],
 ["SearchWithAdvancedFilter, SearchWithFilter, DeleteByFilter, GetDocumentsByType"],
 "runtime monitor: differential oracle between reference evaluator and every filter path", "exploration",
 "Reference evaluator written from the documented meaning; random filter trees up to depth 4.")
prop("C09", "Deleting a parent removes its children, and only those, on any connection",
 "Deleting a document, collection or graph node, or a chat session's row, removes every chunk, message or edge that belongs to it and nothing else, and a record can never be stored that refers to a missing document, session, collection or node. This holds whatever pooled connection executes the statement and however many run concurrently.",
 ["histories", "schedules", "configurations"], "every ownership graph, every delete order, every pooled connection on which the statement may land",
 "Tests run sequentially, so all statements land on the one pooled connection whose settings were initialised; other connections are never used.",
 ["pkg/core/store_init.go", "pkg/core/document.go", "pkg/core/collections.go", "pkg/core/chat.go", "pkg/graph/graph.go"],
 [("foreign keys with ON DELETE CASCADE enabled on every connection", "pkg/core/store_init.go")],
 ["orphan queries over all tables after each delete, with earlier pool connections pinned"],
 "runtime monitor: orphan detector with pinned pool connections", "exploration",
 "Connections are pinned through the exported database handle to steer statements to fresh connections.")
prop("C10", "Keyword search always reflects the stored text",
 "At every moment a keyword query over chunks or chat messages matches exactly the live records whose current text contains the query terms: an inserted text is found, an updated text is found under its new words and no longer under its old ones, and a deleted one is not found, whichever operation performed the write or delete. The full-text index stays internally consistent with the stored rows.",
 ["histories", "inputs"], "every history of writes and deletes through every entry point, every text",
 SEQ + " of inserts followed by a match; replacement and cascaded deletes are not checked against the full-text index.",
 ["pkg/core/store_init.go", "pkg/core/advanced_search.go", "pkg/core/chat.go"],
 [("AFTER INSERT/UPDATE/DELETE triggers feeding FTS5", "pkg/core/store_init.go")],
 ["KeywordSearchMessages, HybridSearch, FTS MATCH and FTS5 integrity-check"],
 "runtime monitor: token-level reference index plus FTS5 integrity-check after each step", "exploration",
 "Texts are built from a known vocabulary so that the tokenizer is not part of the trusted model.")
prop("C11", "Concurrent use is free of races, deadlocks, panics and lost updates",
 "Any mix of store, graph, memory and index operations may run from many goroutines at once on one open database without data races, deadlock, panic or spurious failure. Every operation that reported success is visible afterwards, each concurrent read returns a value that some write actually produced and that was current at some instant during the read, and the final state equals the outcome of the successful operations.",
 ["schedules", "histories"], "every interleaving of concurrent operations, including writers waiting between nested reads and an exhausted connection pool",
 "The concurrent tests run a few goroutines of one operation without a race detector or a history check.",
 ["pkg/core/store.go", "pkg/core/store_crud.go", "pkg/core/store_search.go", "pkg/core/store_index.go", "pkg/core/collections.go", "pkg/index/hnsw.go", "pkg/index/ivf.go", "pkg/graph/graph.go"],
 [("store read/write lock, SQLite busy timeout", "pkg/core/store.go")],
 ["invocation/response log of every call, race detector reports, goroutine dumps"],
 "race detector, deadlock monitor and offline linearizability checking of recorded histories", "exploration",
 "Interleavings are sampled under injected delays; the race detector generalises each run over its happens-before order.")
prop("C12", "Close is clean, idempotent and final",
 "Closing a database at any time, including twice, concurrently with other operations or right after a background save was scheduled, returns without hanging, makes the data durable, and leaves no goroutine, file handle or timer behind. After it, every operation returns an error rather than panicking or silently succeeding, and the file can be opened again with identical contents.",
 ["schedules", "histories", "configurations"], "every moment of the call relative to other operations, every configuration including periodic saves",
 "Tests close the store once at the end of a sequential run and call two or three operations afterwards.",
 ["pkg/core/store_close.go", "pkg/core/store_index.go", "pkg/cortexdb/cortexdb.go", "pkg/hindsight/hindsight.go"],
 [("closed flag under the store lock, snapshot and handle close", "pkg/core/store_close.go")],
 ["return values, goroutine dump, /proc/self/fd after close"],
 "runtime monitor: lifecycle automaton plus goroutine and descriptor leak detector under the race detector", "exploration",
 "Leak detection compares goroutine stacks and open descriptors for the database path.")
prop("C13", "Dump, load and backup reproduce the database",
 "Dumping a database (in the JSON or line formats, optionally filtered) and loading the result into another database reproduces every selected record of valid UTF-8 text with identical id, vector, content, document, collection, metadata and access list, along with the documents and collections they need; a backup file opens as a database with the same contents. Malformed, truncated or hostile input makes load return an error without hanging, without panicking and without damaging what was already stored.",
 ["inputs", "histories"], "every database content, every option combination, every corruption of the dump",
 "Tests round-trip three records with plain content and never feed a damaged dump.",
 ["pkg/core/io.go"],
 [("dump/load encoders and Backup", "pkg/core/io.go")],
 ["Dump, Load, Import, Backup and the resulting database"],
 "runtime monitor: full-state comparison across the round trip plus mutated-dump fuzzing with a progress monitor", "exploration",
 "Comparison is on the visible record set; CSV is export-only by design.")
prop("C14", "Chat history is complete, ordered and private to its session",
 "A session's history returns its most recent messages up to the limit, in the order in which they were added, and never a message of another session; every acknowledged message is present with its exact role, text, metadata and vector. Semantic search over a session or a user returns that scope's best matches by similarity in order, and keyword search returns only that scope's matching messages.",
 ["histories", "inputs", "schedules"], "every interleaving of messages over sessions and users, every limit",
 "Tests add three messages and read them back; ordering of messages that arrive within the same clock tick and isolation under interleaving are not checked.",
 ["pkg/core/chat.go"],
 [("messages ordered by creation, session predicate", "pkg/core/chat.go")],
 ["GetSessionHistory, SearchChatHistory, KeywordSearchMessages, SearchMessagesByUser"],
 "runtime monitor: per-session log model checker", "exploration",
 "Sequential and concurrent senders; order is required between messages whose adds did not overlap.")
prop("C15", "Vector dimension policy is enforced uniformly",
 "A database with a fixed dimension stores only record vectors of that dimension: each write of another length, by any write path (single, batch, multi-vector, load), is rejected in strict and warn-only mode or stored adapted as the configured policy documents (truncated or padded, normalised), and never stored with a different length. A dimension of zero adopts the length of the first vector successfully stored, a query of another length is adapted the same way or rejected with an error rather than a panic by every search, and non-finite values are always rejected.",
 ["inputs", "configurations", "histories"], "every dimension, policy, write path and query length",
 "Tests check one mismatching upsert per policy, on the single-record path only.",
 ["pkg/core/dimension.go", "pkg/core/store_crud.go", "pkg/core/store_search.go", "internal/encoding/utils.go"],
 [("dimension adapter on write and query", "pkg/core/dimension.go")],
 ["stored vector lengths, returned errors"],
 "runtime monitor: stored-vector invariant checker over policy and path combinations", "exploration",
 "Adapted values are checked against the documented truncate/pad behaviour where it is documented.")
prop("C16", "Aggregations and facets equal a full recomputation",
 "Counts, sums, averages, minima, maxima, group-by results and facet counts equal those recomputed from all live records that satisfy the request's collection and filters, for every data set, with missing and non-numeric fields treated uniformly. The records returned with facets are the top-K of exactly those records.",
 ["inputs"], "every data set, field, filter, grouping and facet request",
 "Tests aggregate five fixed rows.",
 ["pkg/core/aggregations.go", "pkg/core/faceted_search.go"],
 [("SQL aggregate generation", "pkg/core/aggregations.go"), ("facet predicates and counts", "pkg/core/faceted_search.go")],
 ["Aggregate, SearchWithFacets results"],
 "runtime monitor: reference recomputation of every aggregate", "exploration",
 "Floating sums compared with tolerance.")
prop("C17", "Reranked, diverse, hybrid and multi-vector results are sound",
 "Reranking returns a permutation of the candidates ordered by the reranker's score and cut to K; hybrid, negative-example, recommendation, anomaly and multi-vector searches return distinct live records that satisfy the request's filters, at most K of them, in non-increasing order of the reported score, scored by their documented formula, and fewer than K only when fewer match; diversity search returns distinct records in the order in which its documented selection picks them. None of them alters the caller's query, the candidates or the stored data.",
 ["inputs", "configurations"], "every candidate list, weight, lambda, K and stored set",
 "Tests look at result counts on a handful of vectors.",
 ["pkg/core/reranker.go", "pkg/core/advanced_search.go", "pkg/core/multi_vector.go"],
 [("rank fusion, MMR, score sort", "pkg/core/advanced_search.go"), ("rerankers", "pkg/core/reranker.go")],
 ["results of each entry point and the caller's arguments before/after"],
 "runtime monitor: reference re-computation and argument-immutability monitor", "exploration",
 "Fused scores recomputed independently where the formula is documented.")
prop("C18", "Streaming, incremental and range search deliver exactly what was asked for",
 "A range search returns exactly the records within the radius, nearest first. A streamed search read to the end delivers each matching record exactly once, its collected ranking is the exact top-K (over several merged streams: by each record's best score), and one that may terminate early ends only after K results of the requested quality. Cancelling or abandoning a stream at any moment ends it without leaking goroutines, blocking writers or delivering anything outside the request. Updates accepted by an incremental index are stored in the order in which they were added, none is lost when another is invalid or the index is closed, and the next search through it sees them.",
 ["inputs", "schedules"], "every stored set, radius, batch size, option, cancellation instant and queue history; the reader keeps up within MaxLatency",
 "Tests drain one stream of a few records.",
 ["pkg/core/streaming.go", "pkg/core/faceted_search.go"],
 [("batch scan feeding a channel, update queue", "pkg/core/streaming.go"), ("range scan", "pkg/core/faceted_search.go")],
 ["channel contents, goroutine dump after cancel, stored records after flush"],
 "runtime monitor: exactly-once delivery checker with cancellation injection, goroutine-leak detector and race detector", "exploration",
 "Built with the race detector. A stream that stays blocked for 100 s after everything it waits for has been released counts as not ended.")
prop("C19", "Index structures equal a reference set with sound search",
 "Each in-memory index (flat, HNSW, IVF, LSH, hybrid and multi-index) behaves as a set of the last vector inserted under each id: size, membership and search results reflect inserts, overwrites, deletes and clears; results are distinct live ids with their true distances in order, exact for the flat index, for an HNSW search at least as wide as the index and for an IVF search that probes every cluster, complete up to K for flat, HNSW and hybrid indexes, and for IVF and LSH always containing a vector equal to the query; saving and loading preserves all answers. No input makes an index panic, and the caller's slices are neither modified nor retained.",
 ["inputs", "histories", "schedules"], "every sequence of index operations, every vector set including duplicates, zero vectors and every K",
 "Tests insert random vectors once and check recall loosely; deletes, overwrites, parallel builds and reloads are hardly covered.",
 ["pkg/index/hnsw.go", "pkg/index/ivf.go", "pkg/index/flat.go", "pkg/index/lsh.go", "pkg/index/multi_index.go"],
 [("graph links and tombstones", "pkg/index/hnsw.go"), ("inverted lists", "pkg/index/ivf.go"), ("hash buckets", "pkg/index/lsh.go")],
 ["Insert/Delete/Search/Save/Load results"],
 "runtime monitor: reference-set checker over random operation sequences", "exploration",
 "Recall floors are far below measured recall to exclude false alarms.")
prop("C20", "Quantization keeps its error bound and survives serialization",
 "Scalar quantization reconstructs every component within the trained range to within half a step (and clamps the rest), product codes name the nearest codeword of every subspace, binary codes tell for every component whether it exceeds the training mean, and distances computed from codes agree with the distance to the reconstruction. Saving and loading a quantizer gives identical codes, decodings and distances, and untrained, mismatching, truncated or corrupted input is answered with an error, never a panic or a NaN.",
 ["inputs", "configurations"], "every training set, vector, bit width and subspace count",
 "Tests encode Gaussian vectors with the default parameters.",
 ["pkg/quantization/scalar_quantization.go", "pkg/quantization/product_quantization.go"],
 [("min/scale code, codebooks", "pkg/quantization/scalar_quantization.go")],
 ["Encode, Decode, distance and serialization results"],
 "runtime monitor: bound-assertion oracle over generated and adversarial vectors", "exploration",
 "")
prop("C21", "Graph storage and traversal match the mathematical graph",
 "After any history of node and edge upserts and deletes, single, batched or executed as mixed operations, the stored graph equals the reference graph with all properties, vectors, types and weights, edges always join existing nodes, and deleting a node removes exactly its edges. Neighbour, edge, subgraph and filtered listing queries return exactly the elements within the requested depth, direction, type and limit.",
 ["inputs", "histories"], "every graph including self loops, parallel edges and cycles, every traversal option",
 "Tests use one small fixed graph and default options.",
 ["pkg/graph/graph.go", "pkg/graph/graph_batch.go", "pkg/graph/graph_traversal.go"],
 [("node/edge tables with foreign keys", "pkg/graph/graph.go"), ("breadth-first traversal", "pkg/graph/graph_traversal.go")],
 ["GetNode, GetAllNodes, GetEdges, Neighbors, SubGraph ... results"],
 "runtime monitor: reference graph model with BFS oracle", "exploration", "")
prop("C22", "Graph algorithms compute their defined quantities",
 "Shortest path returns a path of existing edges of minimal length or reports that none exists, connected components partition the nodes exactly by connectivity, and statistics equal a recount. PageRank values are positive, sum to at most one (to one when every node has an outgoing edge) and satisfy the PageRank equation to the convergence tolerance, whatever the insertion order; communities partition the nodes and never join unconnected ones; link prediction refers only to existing nodes and excludes existing links.",
 ["inputs"], "every graph including disconnected ones, dangling nodes, self loops and parallel edges",
 "Tests run each algorithm on one small graph and check a handful of values.",
 ["pkg/graph/graph_algorithms.go", "pkg/graph/graph_traversal.go"],
 [("power iteration, union/BFS components, BFS path", "pkg/graph/graph_algorithms.go")],
 ["algorithm results"],
 "runtime monitor: independent reference algorithms on random graphs", "exploration", "")
prop("C23", "Graph export and import round-trip",
 "Exporting a graph and importing the result into an empty database reproduces every node and edge with the attributes the format carries (JSON: everything but timestamps, exactly), for every id, property, weight and text the format can represent, including markup. Importing malformed or truncated data returns an error without a panic and without leaving part of the import behind.",
 ["inputs", "fault_sequences"], "every graph content, every supported format, every truncation point",
 "Tests round-trip one ASCII graph.",
 ["pkg/graph/graph_export.go"],
 [("format encoders and decoders", "pkg/graph/graph_export.go")],
 ["exported bytes, re-imported graph"],
 "runtime monitor: round-trip equality and truncation fuzzing", "exploration", "")
prop("C24", "Graph vector and hybrid search see the current graph",
 "Vector and hybrid graph searches return only existing nodes, each once, scored by the similarity of the node's current vector (and current graph position for the hybrid score), in non-increasing order and cut to K, and fewer than K only when fewer match; without an index the answer is the exact top-K. This stays true after updates, deletes, batch writes and imports, with or without the graph index enabled.",
 ["histories", "inputs", "configurations"], "every history of graph writes, every query, filter and K",
 "Tests insert nodes once and look at the first hit.",
 ["pkg/graph/graph_hybrid.go", "pkg/graph/graph_hnsw.go"],
 [("linear scoring and index candidate fetch", "pkg/graph/graph_hybrid.go")],
 ["HybridSearch, GraphVectorSearch, HNSWSearch, SimilarityInGraph results"],
 "runtime monitor: brute-force reference oracle", "exploration", "")
prop("C25", "Knowledge items are saved, replaced, found and deleted as a whole",
 "A saved knowledge item can be read back exactly, its text is split into chunks that together cover it, and it is found by lexical search for its words and by semantic search for its text; saving it again or updating its text replaces chunks, entities and relations completely so that nothing of the old version is found or stored, and an update that leaves the text alone changes the given fields and nothing else. Deleting an item removes its chunks, its nodes and the mentions and relations it contributed and leaves every other item intact; a failed save or update changes nothing; and no item of another collection is reported by a collection-restricted search.",
 ["histories", "inputs"], "every history of save, update, delete and embedding failure over items with shared entities and relations, every text",
 "Tests save one or two items and check they can be found.",
 ["pkg/cortexdb/knowledge_api.go", "pkg/cortexdb/graphrag.go", "pkg/cortexdb/knowledge_memory_helpers.go"],
 [("document replace and graph re-link", "pkg/cortexdb/knowledge_api.go")],
 ["GetKnowledge, SearchKnowledge, table contents"],
 "runtime monitor: reference model of items plus residue scan", "exploration", "")
prop("C26", "Memories stay in their scope, expire and update atomically",
 "A memory is visible only through the scope, user, session and namespace it was saved under, whatever characters those names contain; a search in one bucket never returns another bucket's memory, and get, update and delete act on exactly one memory and never on ordinary chat messages. Expired memories are never returned, unexpired ones always are when they match, results are ranked best first, and the latest saved content, metadata and importance are what is read, also when several callers save, update and delete at once.",
 ["inputs", "histories"], "every scope naming, every history of saves, updates, deletes and expiries",
 "Tests use simple user names and one memory per bucket.",
 ["pkg/cortexdb/memory_api.go", "pkg/cortexdb/knowledge_memory_helpers.go"],
 [("bucket id derivation and bucketed session search", "pkg/cortexdb/memory_api.go")],
 ["SaveMemory, GetMemory, SearchMemory, UpdateMemory, DeleteMemory results"],
 "runtime monitor: tagged-bucket (taint) checker with reference model", "exploration", "")
prop("C27", "Document ingestion conserves text and respects retrieval budgets",
 "Ingesting a document yields chunks whose concatenation, overlaps removed, contains every word of the text in order, no chunk exceeding the configured size and neighbours sharing the configured overlap; re-ingesting replaces all earlier chunks, mentions and relations, and an embedder or extractor failure leaves the earlier version untouched. Retrieval returns distinct chunks of the requested collection, the most similar or matching ones and chunks linked to them, best first, repeatably; the assembled context holds exactly the retrieved text, never exceeds the requested number of chunks, chunks per document or characters (a single chunk that alone is too long excepted), and is valid UTF-8.",
 ["inputs", "configurations"], "every text in any script, every chunk size, overlap and budget",
 "Tests chunk short English sentences.",
 ["pkg/cortexdb/graphrag.go", "pkg/cortexdb/graphrag_tools.go"],
 [("word chunker, context assembly", "pkg/cortexdb/graphrag.go")],
 ["ingest results, stored chunks, retrieval results, context text"],
 "runtime monitor: conservation checker over chunked text and budget assertion", "exploration", "")
prop("C28", "Agent memory banks are isolated, complete and persistent",
 "A memory retained in a bank is recalled only from that bank and carries the content, type, confidence, entities, creation time and (as text) the metadata it was retained with, whatever its identifier, metadata keys or entity names, until the same bank replaces it; identifiers are scoped to the bank, and the caller's own records and graph nodes stay untouched. Recall returns distinct memories best first within the limit: by similarity, by inclusive time range, by entity, by keyword, or fused by reciprocal rank; a failing reranker leaves the order alone and a recall in which every strategy failed is an error, not an empty answer. Observations come back in full, bank settings survive reopening, Reflect stays within its token budget and its bank, and automatic retention hands each trigger's window of messages to the extractor in order and keeps every fact it returns.",
 ["histories", "inputs"], "every history of bank creation, retain, recall, observe, delete and restart, every metadata key",
 "Tests use one bank, a handful of memories and no restart.",
 ["pkg/hindsight/hindsight.go", "pkg/hindsight/bank.go", "pkg/hindsight/chat.go", "pkg/hindsight/hooks.go"],
 [("bank filter on recall strategies, rank fusion", "pkg/hindsight/hindsight.go")],
 ["Recall, Reflect, Observe, GetObservations, GetBank, ListBanks results", "windows received by the extractor hook"],
 "runtime monitor: tagged-bank (taint) checker with reference model across restarts", "exploration", "")
prop("C29", "Semantic routing picks the best route above its threshold",
 "Routing returns the route whose examples are most similar to the query, with that similarity as its score, and reports a match exactly when the score reaches the threshold; batch routing equals routing each query alone, and repeating a call repeats its answer. Keyword encoders follow their documented formulas over the last corpus they were fitted on; hybrid routing weighs the best dense and the best keyword score by alpha and lists the routes of both; function routing names the matched route's function and lists exactly its required parameters that were not found. Adding is all-or-nothing, added and removed routes take effect at once, a persistent router has the same routes, examples and decisions after a reload, and an embedding or store failure is reported without poisoning later calls.",
 ["inputs", "histories", "fault_sequences"], "every route set, query, threshold and embedder failure sequence",
 "Tests route three fixed queries with a mock embedder and never make it fail.",
 ["pkg/semantic-router/router.go", "pkg/semantic-router/hybrid.go", "pkg/semantic-router/sparse.go", "pkg/semantic-router/schema.go"],
 [("argmax over cached utterance vectors", "pkg/semantic-router/router.go")],
 ["Route, RouteBatch, List, Get results", "stored examples after reload"],
 "runtime monitor: reference argmax oracle with a fault-injecting embedder", "exploration", "")
prop("C30", "Geographic queries equal brute force over the sphere",
 "Radius and nearest-neighbour queries return exactly the live points that brute-force great-circle distance selects, nearest first and cut to K, at every latitude and across the date line; bounding-box and polygon queries return exactly the live points inside the shape in the latitude/longitude plane. Updates and deletes take effect at once, stored points do not change through the caller's maps, and invalid coordinates, radii and boxes are rejected.",
 ["inputs", "histories"], "every point set, query centre, radius, box and precision, including poles and the antimeridian",
 "Tests use a few cities at mid latitudes.",
 ["pkg/geo/geospatial.go"],
 [("grid cells and haversine distance", "pkg/geo/geospatial.go")],
 ["query results"],
 "runtime monitor: brute-force geodesic oracle", "exploration", "Points within a small relative distance of a boundary are not judged.")
prop("C31", "Stored encodings round-trip and reject malformed bytes",
 "Encoding and decoding a vector (any bit pattern) or a metadata map (any valid text) is the identity, and distinct values have distinct encodings. Decoding arbitrary, truncated or oversized bytes returns an error or a value, never panics, never hangs and never allocates memory out of proportion to the input, in the store, the indexes and the quantizers alike; a damaged stored cell leaves the database openable and every other record readable.",
 ["inputs"], "every vector and metadata value, every byte string",
 "Tests decode a few hand-written buffers.",
 ["internal/encoding/utils.go", "pkg/index/hnsw.go", "pkg/index/ivf.go", "pkg/quantization/scalar_quantization.go", "pkg/quantization/product_quantization.go"],
 [("length-prefixed little-endian encoding", "internal/encoding/utils.go")],
 ["decoder results, allocation counters"],
 "runtime monitor: round-trip and mutation fuzzing with allocation accounting", "exploration", "")
prop("C32", "The tool interface does what the library does",
 "Every tool advertised through the tool toolbox or the MCP server can be called, accepts exactly the parameters its schema declares, and yields the same effect and answer as the corresponding library call, with missing required parameters, wrong types, unknown tools and unknown graph nodes answered by an error result, over the toolbox as over MCP (in process, over stdio, or in several sessions at a time). What a write reports is stored, expanding a graph returns exactly the reachable part, limits beyond everything mean no limit, and no tool input can crash the server or leave a partial effect after an error.",
 ["inputs", "histories"], "every tool, every well-formed and malformed argument object, every call history",
 "Tests call each tool once with good arguments.",
 ["pkg/cortexdb/mcp.go", "pkg/cortexdb/graphrag_tools.go", "pkg/cortexdb/knowledge_memory_tooldefs.go"],
 [("tool dispatch and schema definitions", "pkg/cortexdb/graphrag_tools.go")],
 ["Call results, MCP responses, database state"],
 "runtime monitor: differential execution of tool calls against library calls with argument fuzzing", "exploration", "")
prop("C33", "A result limit cuts the answer and changes nothing else",
 "For every query that takes a result limit, in the record store, chat history, graph, indexes, quantizers, geographic index, knowledge, memory and memory-bank parts: a positive limit k yields at most k distinct results, all of them taken from the unlimited answer, exactly min(k, available) where the query ranks or lists everything that matches, and there the best ones in the same order; a limit beyond what is available yields the whole answer however large it is, up to the largest integer; and no limit, including zero and negative ones, makes a query crash or return what does not match.",
 ["inputs", "configurations"], "every query with a limit, every integer limit, every database size and index kind",
 "Tests ask for the top 5 of 10; candidate pools multiplied from the limit, capacities reserved from it and cuts before filtering only show at other limits.",
 ["pkg/core/store_search.go", "pkg/core/advanced_search.go", "pkg/core/reranker.go", "pkg/core/chat.go", "pkg/graph/graph_hnsw.go", "pkg/graph/graph_hybrid.go", "pkg/index/multi_index.go", "pkg/cortexdb/graphrag_tools.go"],
 [("candidate pools computed from the limit", "pkg/core/advanced_search.go"), ("index candidate pools", "pkg/index/multi_index.go")],
 ["the results of the same query under different limits"],
 "runtime monitor: metamorphic comparison of each query's answers under different limits", "exploration", "")
prop("C34", "Text operations are exactly their vector operations",
 "Through the text and Quick interfaces, storing a text stores one record holding that text, the given metadata and the embedder's vector for it, replacing the record of that identifier or, where the identifier is generated, never an existing one; a batch stores all its non-empty texts or nothing. Searching by text returns what searching by the text's own vector returns, in the whole database or in one collection; hybrid text search equals the store's hybrid search, and text-only search returns exactly the live records that match the keywords, best first, with or without an embedder, for any query text. A missing or failing embedder, embeddings that are missing or not finite, empty texts and cancelled contexts yield the documented error, no result and no change. Info reports the configuration the database runs with.",
 ["inputs", "histories", "fault_sequences"], "every history of text operations, every text, every embedder failure",
 "Tests insert three texts with an embedder that never fails or answers short.",
 ["pkg/cortexdb/cortexdb.go", "pkg/cortexdb/embedder.go"],
 [("text insert, batch and search wrappers", "pkg/cortexdb/cortexdb.go")],
 ["InsertText, InsertTextBatch, SearchText, HybridSearchText, SearchTextOnly, Quick and Info results", "table contents"],
 "runtime monitor: reference model with a fault-injecting embedder and differential comparison with the vector calls", "exploration", "The relevance threshold of text-only search is not judged.")
