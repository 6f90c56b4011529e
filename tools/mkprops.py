#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property list)."""
import json, os, sys
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "mechanism": [{"name": n, "where": w} for n, w in mech],
                    "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                    "observe_at": list(observe), "hook_needed": hook}})

SCH = "pymllm/orchestrator/scheduler_process.py"
MRP = "pymllm/orchestrator/model_runner_process.py"
MR = "pymllm/executor/model_runner.py"
RAD = "pymllm/mem_cache/radix_cache.py"
MAM = "pymllm/mem_cache/mamba_radix_cache.py"
POOL = "pymllm/mem_cache/memory_pool.py"
ENG = "pymllm/engine/launch.py"
RR = "pymllm/orchestrator/request_response_process.py"
TOK = "pymllm/orchestrator/tokenizer_process.py"
DET = "pymllm/orchestrator/detokenizer_process.py"
SHM = "pymllm/orchestrator/shared_memory_queue.py"
IPC = "pymllm/orchestrator/cuda_ipc_transport.py"
SRV = "pymllm/server/launch.py"

prop("P01", "A request's output depends only on its own prompt and parameters",
 "With greedy decoding, the tokens and text returned for a request are a function of the model, its own prompt and its own sampling parameters. They never depend on which other requests are batched with it, were served before it, share a prefix with it, are aborted or evicted around it, or on how messages and processes are delayed.",
 ["schedules", "histories", "configurations"],
 "for every set of concurrent requests with overlapping prompts, every arrival/abort timing, cache state and pool size",
 "Unit tests run single forward steps with hand-built batches; prefix reuse, batching, eviction and aborts only interact in multi-request histories and the reuse errors depend on what earlier requests left in the pools.",
 [SCH, MRP, MR, RAD, POOL],
 [("prefix matching and KV allocation for a prefill batch", MRP + ":_allocate_extend"),
  ("write-back of the tree's own indices after insert", MRP + ":_insert_into_radix_cache"),
  ("KV position bookkeeping in decode", MRP + ":_allocate_decode"),
  ("release of finished requests into the prefix cache", MRP + ":_free_rid_resources")],
 [("request-to-token table", "which KV slot holds each position of a live request", POOL + ":ReqToTokenPool.req_to_token")],
 ["Engine.generate_async results"])

prop("P02", "Every KV slot and request slot has exactly one owner",
 "At every scheduling step each KV-cache slot is either free, owned by the prefix cache, or owned by one running request, never two of these and never none, and the same holds for request slots. When no request is in flight all slots are either free or held, evictable, by the prefix cache, so capacity never shrinks over the life of the server.",
 ["schedules", "histories", "configurations"],
 "for every history of prefills, decodes, finishes, aborts and evictions, all pool sizes, cache on or off, dense and hybrid models",
 "A leak or a double free needs a history (overlap between concurrent prompts, abort in the middle, eviction under pressure); tests allocate a pool and check sizes once.",
 [MRP, RAD, POOL, SCH],
 [("ownership hand-over on completion", MRP + ":_free_rid_resources"),
  ("duplicate index release after insert", MRP + ":_insert_into_radix_cache"),
  ("eviction under allocation pressure", MRP + ":_alloc_kv_with_eviction"),
  ("free lists", POOL + ":TokenToKVPoolAllocator, ReqToTokenPool")],
 [("free list", "slots available for allocation", POOL + ":TokenToKVPoolAllocator"),
  ("radix tree values", "slots owned by the prefix cache", RAD + ":TreeNode.value")],
 ["pool free lists, tree contents and request table after each scheduler step"])

prop("P03", "Every accepted request gets exactly one terminal result, and gets it",
 "Each accepted request receives exactly one terminal result, carrying its own identifier, whether it came alone or as a member of a batch, streaming or not; batch results keep the order of their inputs. Once faults stop, every request that fits the configured limits terminates within a bounded number of scheduler steps: none is lost, starved or left hanging, in any interleaving of arrivals, completions and aborts of other requests.",
 ["schedules", "histories", "configurations"],
 "for every interleaving of client arrivals, process scheduling, message delay and aborts, over every queue limit and running limit",
 "The existing tests never start the four-process pipeline at all; a lost wake-up or a request dropped between queues only shows in particular interleavings.",
 [ENG, RR, TOK, SCH, DET],
 [("per-request event and output list", RR + ":ReqState"),
  ("waiting, pending and running queues", SCH + ":event_loop"),
  ("batch fan-out and gather", ENG + ":Engine.generate_async")],
 [("rid to state map", "who waits for which result", RR + ":_rid_to_state")],
 ["Engine.generate / generate_async"])

prop("P04", "Streamed increments reassemble exactly to the final text",
 "For a streaming request the concatenation of the text increments equals the text of the final result, which equals the text a non-streaming request would get; cumulative texts and token lists only ever grow, and completion counts match the tokens delivered. No increment is lost, repeated, reordered or delivered to another request, even when characters span several tokens or the client reads slowly.",
 ["schedules", "inputs", "histories"],
 "for every token sequence (including characters split over tokens and invalid bytes), every interleaving of producer, detokenizer and reader, and any number of concurrent streams",
 "No existing test streams; loss of a chunk depends on when the reader wakes relative to the producer, and split characters depend on token boundaries.",
 [DET, RR, ENG, SCH],
 [("delta computed against previously sent text", DET + ":_detokenize"),
  ("read offset per request", SCH + ":stream_output"),
  ("drain of the pending chunk list", ENG + ":_stream_results")],
 [("previous text per request", "what was already sent", DET + ":_rid_to_prev_text")],
 ["chunks yielded by Engine.generate_async(stream=True)"])

prop("P05", "Abort or disconnect stops a request and releases everything it held",
 "When a client aborts a request or disconnects, at any point of its life, the waiting caller is released, generation for it stops within a bounded number of steps, and everything it held in every process (cache slots, request slots, token budget, per-request tracking) is released. Other requests' results are unaffected, nothing is delivered for the request after its terminal result, and aborting an unknown or finished request has no effect.",
 ["schedules", "crash_points", "histories"],
 "for every point of the request's life at which the abort or disconnect lands and every message delay between processes",
 "The abort races with the request through four processes; the interesting points (before tokenization, while waiting, mid-prefill, after the last token) exist only under a controlled schedule.",
 [RR, TOK, SCH, DET, ENG, MRP],
 [("abort fan-out", RR + ":abort_request"),
  ("abort in the queues", SCH + ":_abort_request, _recv_from_zmq"),
  ("disconnect detection", ENG + ":Engine.generate_async finally block")],
 [("running and pending lists", "aborted requests must leave both", SCH + ":_running_batch, _pending_queue")],
 ["Engine.generate_async, RequestResponseProcess.abort_request, process tables"])

prop("P06", "Admission limits hold and over-limit requests neither hang nor crash",
 "The number of running requests never exceeds the configured maximum, no prefill batch admits more prompt tokens than its limit, the token budget never goes over its total, and the budget reads zero whenever nothing is running. A request that can never fit is answered with an error rather than waiting forever, and memory pressure never brings the scheduler down or stops the requests that do fit.",
 ["schedules", "histories", "configurations"],
 "for every mix of prompt and output lengths, limits, pool sizes and abort timings",
 "Limits interact with prefix hits, aborts and completions over long histories; tests exercise none of it.",
 [SCH, MRP, MR],
 [("capacity checks", SCH + ":get_next_batch_to_run"),
  ("budget return on prefix hit and completion", SCH + ":process_batch_result, _free_req_resources"),
  ("eviction retry", MRP + ":_alloc_kv_with_eviction")],
 [("used token budget", "tokens charged to running requests", SCH + ":_used_tokens")],
 ["scheduler state after each step; results seen by clients"])

prop("P07", "Generation stops at exactly the right token with the right reason and counts",
 "Generation ends at the first end-of-sequence or requested stop token or after exactly the requested maximum number of new tokens, whichever comes first; the reported reason says which (a stop token that is also the last allowed token counts as a stop), and prompt and completion token counts equal the real numbers. This holds per request whatever the other requests in the batch ask for.",
 ["histories", "configurations", "schedules"],
 "for every combination of per-request limits, stop tokens and batch composition over time",
 "Per-request limits are checked in a shared batch loop; cross-talk needs concurrent requests with different parameters.",
 [SCH, ENG],
 [("finish check", SCH + ":Req.check_finished"),
  ("default and merged stop tokens", SCH + ":process_input_requests")],
 [], ["finished_reason, completion_tokens, prompt_tokens, output_token_ids of results"])

prop("P08", "Recurrent state always matches the reused prefix (hybrid models)",
 "For models that keep recurrent state next to the key/value cache, a request that reuses a cached prefix starts from exactly the recurrent state the model has after that prefix, and otherwise from the zero state; outputs equal those of a fresh server. Saved state snapshots are owned by one cache entry or one request at a time and are returned when the entry or request goes away.",
 ["schedules", "histories", "configurations"],
 "for every history of overlapping prompts, evictions and aborts, and every number of snapshot slots",
 "Needs several requests with nested prefixes, node splits and snapshot-slot exhaustion in a particular order; tests never run a hybrid model with the cache.",
 [MRP, POOL, RAD],
 [("restore or reset on admission", MRP + ":_allocate_extend"),
  ("snapshot after prefill", MRP + ":_track_gdn_state_after_extend"),
  ("release on eviction", MRP + ":_on_radix_node_evict")],
 [("node to snapshot map", "which cache entry owns which saved state", MRP + ":_node_id_to_gdn_track_slot")],
 ["Engine results; GDNPool free lists"])

prop("P09", "The prefix cache returns only what was stored, and never drops what is in use",
 "A prefix lookup returns the longest stored prefix of the key in its namespace with exactly the slot numbers stored for those positions; entries locked by a user are never evicted or altered; eviction removes unlocked entries least-recently-used first until the requested amount is freed and returns each slot exactly once. The reported evictable and protected sizes always equal the actual contents.",
 ["histories", "schedules", "configurations"],
 "for every interleaving of lookups, inserts, locks, unlocks and evictions by concurrent users, with any page size, namespaces and sliding window",
 "No test touches the prefix cache; split/lock/evict interactions need histories of several overlapping keys.",
 [RAD, "pymllm/mem_cache/base_prefix_cache.py", "pymllm/mem_cache/chunk_cache.py"],
 [("node splitting", RAD + ":_split_node"), ("locking", RAD + ":inc_lock_ref/dec_lock_ref"),
  ("LRU eviction", RAD + ":evict")],
 [("size counters", "must equal the tree", RAD + ":_evictable_size, _protected_size")],
 ["match_prefix, evict, evictable_size, protected_size"])

prop("P10", "The hybrid-state prefix cache keeps both kinds of cached state consistent",
 "In the cache that stores recurrent-state checkpoints together with key/value entries, a lookup returns exactly the stored slots of the longest stored prefix, and the length it reports as reusable is the longest part of it whose recurrent state is still stored. Locks handed back release exactly what they took, locked state of either kind is never evicted, and the size counters always equal the contents. Eviction of either kind takes the least recently used first, terminates, frees as much as asked for when that much is unlocked, and frees each slot exactly once.",
 ["histories", "schedules"],
 "for every interleaving of lookups, inserts, locks, unlocks and evictions of either kind, pool size and key overlap",
 "No test covers it; two interlocking LRU lists and tombstones fail only in specific histories.",
 [MAM],
 [("dual LRU lists", MAM + ":evict"), ("tombstones", MAM + ":MambaTreeNode"), ("reusable length", MAM + ":match_prefix")],
 [], ["match_prefix, insert, evict results and pool free lists"])

prop("P11", "Requests cross the shared-memory fast path exactly once, without leaks",
 "A request handed to the shared-memory fast path reaches the scheduler exactly once with unaltered metadata and tensors, and its shared segment is removed, whatever the interleaving, queue pressure or failures to create or open a segment. Aborts are honoured on this path as on the ordinary one, and a failure affects only the request it hits.",
 ["schedules", "fault_sequences"],
 "for every interleaving of producer and consumer, full queues, and segment create/open/read failures",
 "Needs injected shared-memory failures and queue pressure between two processes; no test starts them.",
 [SHM, SCH, TOK],
 [("write, read and unlink of the segment", SHM + ":SharedMemoryManager"),
  ("reassembly", SCH + ":_recv_from_shared_queue")],
 [], ["requests delivered to the scheduler; live segments"])

prop("P12", "Pooled tensor transport never overlaps, loses or leaks chunks",
 "In the pooled tensor transport, live chunks never overlap, a receiver reads exactly the bytes the sender put in, and a chunk is reused only after its receiver has finished with it. Every chunk eventually returns and adjacent free space is coalesced, so a drained pool can serve an allocation of its full size again, under any interleaving of senders, receivers and the recycler.",
 ["schedules", "fault_sequences"],
 "for every interleaving of allocation, receive and recycling threads, including receivers that stall or finish late",
 "The recycler thread races with allocation; tests have no CUDA device and no schedule control.",
 [IPC],
 [("occupied/available chunk lists under a lock", IPC + ":MmItemMemoryPool"),
  ("sync flag handshake", IPC + ":ShmSyncBuffer, CudaIpcTensorTransportProxy")],
 [("available and occupied chunks", "partition of the pool", IPC + ":MmItemMemoryPool")],
 ["return_a_slice_tensor_with_flag, receiver tensors, chunk lists"])

prop("P13", "Reasoning and tool-call stream parsing is independent of chunk boundaries",
 "Parsing a generated text incrementally gives the same visible content, reasoning content and tool calls as parsing the whole text at once, up to surrounding white space, for every way of cutting it into chunks. At end of stream no buffered text is lost, whatever point the stream ends at.",
 ["inputs", "schedules", "crash_points"],
 "for every cut of a text into chunks and every truncation point, for each supported model family",
 "The chunk boundaries depend on token timing; no test feeds markers split over chunks.",
 ["pymllm/parsers/reasoning_parser.py", "pymllm/parsers/tool_call_parser.py", SRV],
 [("partial-marker buffering", "pymllm/parsers/reasoning_parser.py:parse_stream_chunk"),
  ("tool-call state machine", "pymllm/parsers/tool_call_parser.py:parse_stream_chunk")],
 [], ["parser return values; SSE deltas of /v1/chat/completions"])

prop("P14", "HTTP responses follow the API contract under streaming, errors and disconnects",
 "Every HTTP generation request is answered with either one complete result or a well-formed event stream that ends with one end marker, carries one terminal finish reason per choice and the correct usage, and whose content equals the non-streaming answer. Disconnecting clients cause the request to be cancelled, engine errors are reported to that client only, and a missing or wrong API key is always refused.",
 ["schedules", "histories", "fault_sequences"],
 "for every endpoint, streaming or not, interleaved clients, disconnect times and engine failures",
 "Tests only call the debug-timing helper; ordering of stream events, disconnects and errors is not exercised.",
 [SRV],
 [("disconnect-aware iteration", SRV + ":_iter_with_disconnect_check"),
  ("SSE generators", SRV + ":generate, openai_completions, openai_chat_completions"),
  ("auth middleware", SRV + ":_auth_middleware")],
 [], ["ASGI responses"])

prop("P15", "A dead worker process is noticed and never leaves callers hanging silently",
 "If a worker process dies, the engine's health turns false within a bounded time and stays false, callers waiting on it are released within the documented time limit, and healthy engines are never reported unhealthy, however slow their workers. A worker that dies or reports failure during start-up makes launch fail, and shutting down terminates every worker and returns.",
 ["crash_points", "schedules", "fault_sequences"],
 "for every worker, every point at which it is killed, and every clock and scheduling delay",
 "Needs process kills at chosen points and hours of simulated time.",
 [ENG, RR, SCH, SRV],
 [("health monitor", ENG + ":_start_health_monitor"), ("readiness pipes", ENG + ":_launch_processes"),
  ("stale request cleanup", RR + ":_cleanup_stale_states")],
 [], ["Engine.is_healthy, launch, shutdown, pending callers"])

prop("P16", "Sampling honours each request's own parameters in any batch mix",
 "Whatever the random draws and whatever other requests share the batch, every sampled token lies in the set its own request's temperature, top-k, top-p and penalties allow, a greedy request always gets the highest-scoring token, penalties are computed from that request's own history only, and over many draws tokens come up with the probabilities those parameters give.",
 ["schedules", "inputs", "histories"],
 "for every batch composition over time and every random draw",
 "Existing sampling tests use fixed tiny batches with uniform parameters.",
 [MRP, MR, "pymllm/layers/sampling.py"],
 [("per-request parameter tensors", MRP + ":_forward_batch"), ("sampling", MR + ":sample")],
 [], ["output_token_ids"])

N = "mllm/engine/"
prop("N01", "Parallel loops run every iteration exactly once and always finish",
 "A parallel loop submitted to the native thread pool executes each iteration exactly once, returns only after all of them are complete and visible to the caller, and never deadlocks, in every interleaving of workers, concurrent submitters and pool life-cycle changes.",
 ["schedules", "configurations"],
 "for every thread interleaving, thread count, task queue depth, iteration count and step",
 "The existing C++ tests do not use the pool; busy-wait hand-offs fail only in rare interleavings.",
 [N + "HpcThreadPool.cpp", N + "HpcThreadPool.hpp"],
 [("slot acquisition, task publication and completion flags", N + "HpcThreadPool.cpp")],
 [("task slots", "published work and per-worker done flags", N + "HpcThreadPool.hpp")],
 ["HpcThreadPool::push and task bodies"])

prop("N02", "The native memory pool never hands out overlapping memory or loses any",
 "Live blocks handed out by the native memory manager never overlap, are at least as large and aligned as asked for, keep their contents until freed, and are always returned; memory freed becomes allocatable again and adjacent free memory is merged. This holds for any number of threads allocating and freeing and when the system allocator fails.",
 ["schedules", "histories", "fault_sequences"],
 "for every interleaving of allocating and freeing threads, block sizes, cache settings and system allocation failures",
 "No test allocates from the pool concurrently or over long histories.",
 [N + "BuddyMemPool.cpp", N + "BuddyMemPool.hpp", N + "MemoryManager.cpp"],
 [("buddy split and merge", N + "BuddyMemPool.cpp"), ("object cache", N + "BuddyMemPool.cpp"),
  ("per-device pools", N + "MemoryManager.cpp")],
 [], ["MemoryManager::alloc / free, allocator calls underneath"])

prop("N03", "The native request service answers each request once, in order, to its owner",
 "Every request accepted by the native service yields exactly its session's responses, in order, to the caller that owns it, and blocked callers are woken when their response arrives or the service stops. Requests are never lost, duplicated or cross-delivered with any number of submitters, workers and readers, and a failing session or malformed request affects only its own caller.",
 ["schedules", "fault_sequences", "histories"],
 "for every interleaving of client and worker threads, cancellation and stop points, and session failures",
 "No test starts the service; lost wake-ups and races depend on the schedule.",
 [N + "service/Service.cpp", N + "service/Service.hpp", N + "service/Session.hpp"],
 [("request and response pools", N + "service/Service.cpp"), ("session pool", N + "service/Service.cpp")],
 [], ["insertRequest, getResponse, startService, stopService"])

prop("N04", "Native KV storage keeps every live address distinct and its data intact",
 "Each live address handed out by the native KV-cache storage refers to its own memory, distinct from all other live addresses, what is written there is read back unchanged until it is freed, and freed addresses become available again, in memory and on disk, over any history and when storage operations fail.",
 ["histories", "fault_sequences", "configurations"],
 "for every history of allocations, frees and lookups, blob sizes, in-memory and on-disk mode, and disk faults",
 "No test touches it; aliasing appears only after page/blob rollover or reuse.",
 ["mllm/engine/prefix_cache/ZenFS.cpp", "mllm/engine/prefix_cache/ZenFS.hpp", "mllm/engine/prefix_cache/Allocator.cpp", "mllm/engine/prefix_cache/TLB.hpp"],
 [("lane bitmaps", "mllm/engine/prefix_cache/ZenFS.cpp"), ("address encoding", "mllm/engine/prefix_cache/ZenFS.hpp")],
 [], ["alloc, free, access"])

prop("N05", "The native prefix tree returns only addresses stored for the key looked up",
 "A search in the native prefix tree, or in a prefix cache over it, returns the longest stored prefix of the tokens looked up in the same namespace, with exactly the key and value addresses of every layer that were first stored for each of its positions, in order. Inserting and splitting, users that drop or store what others stored first, tokens that slide out of a sliding window (which become invalid in the sliding layers only, never other data) and concurrent searches never change what other lookups return, nor the data at stored addresses.",
 ["histories", "schedules", "configurations"],
 "for every history of inserts, searches and evictions over keys with shared prefixes in several namespaces, by interleaved users and concurrent searchers",
 "The one existing test inserts a few fixed keys.",
 ["mllm/engine/prefix_cache/RadixTree.cpp", "mllm/engine/prefix_cache/RadixTree.hpp", "mllm/engine/prefix_cache/Cache.cpp", "mllm/nn/lmcache/PrefixCache.cpp"],
 [("edge split and search", "mllm/engine/prefix_cache/RadixTree.cpp"), ("tokens outside the sliding window", "mllm/nn/lmcache/PrefixCache.cpp")],
 [], ["search, insert, promote, evictSlidingWindowLayerOn results"])

prop("N06", "A model file is saved whole and loaded exactly, or refused",
 "Saving parameters (V1 or V2 format) either leaves a file that loads back with every name, type, shape and byte unchanged, or fails with an error (failed or short writes, names or shapes the format cannot hold). "
 "Loading any file, mapped or buffered, whole, truncated, torn or damaged, under short reads and failing file calls, either returns exactly the parameters the bytes of the file describe, all of them lying inside the file, "
 "or is refused with the code base's error exit; it never yields tensors of other or uninitialised content, accesses memory outside the file or its buffers, runs for ever, or dies uncontrolled. A whole file is not refused unless a file call failed.",
 ["fault_sequences", "crash_points", "inputs"],
 "for every set of parameters, every truncation, tear, changed field or flipped bit, every short or failing file call and every point where the saving process dies, both formats, mapped or buffered",
 "Tests load whole files only and never inject I/O faults or damage.",
 ["mllm/core/ParameterFile.cpp", "mllm/core/ParameterFile.hpp", "mllm/core/MappedFile.cpp", "mllm/core/schema/ModelFileV2.hpp", "mllm/core/DataTypes.cpp"],
 [("header and descriptor validation", "mllm/core/ParameterFile.cpp"), ("writers", "mllm/core/ParameterFile.cpp"), ("sizes of types", "mllm/core/DataTypes.cpp")],
 [], ["ParameterFileIOImpl::read and write, MappedFile"])

prop("N07", "Model files written by the converter are read back identically or refused",
 "A model file whose conversion finished (Python ModelFileV2 written at once or streamed, or through the quantization solver) names its model and is read by the native loader with every tensor's name, type, shape and bytes unchanged, also when the process ends right after; "
 "if the process dies at any file operation, a write fails or the disk fills, the remains are refused by the loader or contain only complete correct tensors. What a file cannot hold is refused when writing; what it can hold is not.",
 ["crash_points", "fault_sequences", "inputs"],
 "for every set of tensors (torch, numpy, native; any layout in memory) and every crash point, short write or write failure in the writer",
 "No test writes and reads back a file, let alone an interrupted one.",
 ["pymllm/mobile/convertor/model_file_v2.py", "pymllm/mobile/convertor/mllm_type_mapping.py", "pymllm/mobile/quantize/solver.py", "mllm/core/ParameterFile.cpp"],
 [("two-phase header write", "pymllm/mobile/convertor/model_file_v2.py"), ("number of parameters reserved", "pymllm/mobile/quantize/solver.py"), ("reader validation", "mllm/core/ParameterFile.cpp")],
 [], ["file bytes on the disk; loader result"])

prop("N08", "Threads sharing the native engine stay independent; background work runs once",
 "Any number of threads may use the native engine at once. Each keeps its own session (trace mode, trace context, attached contexts) whatever other threads do, ids and random states are handed out once each, and every operator or module runs exactly once, traced or executed as its own thread asked, with its own inputs, outputs and arguments. "
 "A wait returns only after the awaited background work is complete: forked modules have returned their results or their failure to their own caller, and a tensor copied, promoted or loaded from a file in the background holds exactly the source's bytes.",
 ["schedules", "histories", "fault_sequences"],
 "for every interleaving of control threads and pool threads, every order in which the pool takes jobs, and failing modules",
 "No test uses the engine from two threads or runs anything in the background.",
 [N + "Context.cpp", N + "Context.hpp", N + "Task.cpp", N + "DispatcherManager.cpp", N + "io/Primitives.cpp", N + "io/CpuMemoryDiskDispatcher.cpp", "mllm/backends/cpu/CPUDispatcher.cpp", "mllm/compile/ir/IRTraceDispatcher.cpp", "mllm/nn/Module.cpp", "mllm/nn/Layer.cpp", "mllm/mllm.hpp", "mllm/mllm.cpp", "mllm/backends/base/Backend.cpp"],
 [("session blocks, ids, random states", N + "Context.cpp"), ("background tasks", N + "io/Primitives.cpp"), ("module tasks", "mllm/backends/cpu/CPUDispatcher.cpp"), ("fork and wait", "mllm/mllm.hpp")],
 [], ["Context::thisThread, getUUID, getRandomState, buildOpAndSubmitTask; async::fork and wait; async::io"])

prop("N09", "Native generation draws allowed tokens, stops as asked, keeps streams apart",
 "For every model, prompt and sampling configuration, generate, streamGenerate and chat feed the model exactly the prompt and then each token drawn, and draw each token from the last position's scores: the best one when greedy or at temperature zero, otherwise a token of the vocabulary with non-zero probability, within the k best or the smallest set reaching top_p when asked, with the probabilities that the scores and the temperature give. "
 "A stream ends right after the end-of-sequence token or after max_length tokens, shows every token once and in order, reports a failing model to its caller, and is unaffected by other streams.",
 ["inputs", "schedules", "fault_sequences"],
 "for every random draw (zero and one included), every score vector (ties, masked tokens), top_k beyond the vocabulary, several chats of one model advancing in any order, several models in threads and a model failing at any step",
 "No test calls any of the three; draws are random, so a test could not pin them.",
 ["mllm/models/ARGeneration.cpp", "mllm/models/ARGeneration.hpp", "mllm/core/Tensor.cpp", "mllm/core/aops/SliceOp.cpp"],
 [("samplers", "mllm/models/ARGeneration.cpp"), ("generation loops and chat iterator", "mllm/models/ARGeneration.cpp")],
 [], ["ARGeneration::generate, streamGenerate, chat; std::random_device"])

prop("N10", "The native KV caches return what was stored, in order, for every head and layer",
 "Each of the native caches of one sequence (static eager, static for flash attention, sub-cache, growing cache, cache operator) returns for every layer and head exactly the keys and values stored at positions 0 to its length, in the types and shapes given; rolling back or clearing changes lengths only, what is stored later replaces what lay behind, other layers and caches are not touched, a sub-cache writes into its part of its parent only, and views taken earlier stay correct. "
 "What exceeds the capacity is refused and changes nothing.",
 ["histories", "inputs", "schedules"],
 "for every history of appends (of any length, also parts of tensors), reads, rollbacks, clears and sub-caches over several layers, head groupings, element types and capacities, with other threads using their own caches",
 "Tests append a few times and never fill, roll back, share or overrun a cache.",
 ["mllm/nn/lmcache/StaticCache.cpp", "mllm/nn/lmcache/StaticCache.hpp", "mllm/nn/lmcache/DynamicCache.cpp", "mllm/backends/cpu/ops/KVCacheOp.cpp", "mllm/nn/layers/KVCache.cpp", "mllm/core/aops/KVCacheOp.hpp",
  "mllm/backends/cpu/ops/ConcatOp.cpp", "mllm/backends/cpu/ops/RepeatOp.cpp", "mllm/core/aops/SliceOp.cpp"],
 [("capacity and positions", "mllm/nn/lmcache/StaticCache.cpp"), ("growing cache", "mllm/nn/lmcache/DynamicCache.cpp"), ("cache operator", "mllm/backends/cpu/ops/KVCacheOp.cpp")],
 [], ["StaticCache, SubStaticCache and DynamicCache ::updateKVCache, getKVCache, preGetKVWriteLocation; nn::KVCache"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
try:
    import jsonschema
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for p in P: jsonschema.validate(p, s)
    for p in P:
        for f in p["anchors"]["files"]:
            if not os.path.exists("/repo/" + f): print("missing", p["id"], f)
    print("ok", len(P))
except ImportError: pass
