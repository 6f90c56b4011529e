FIXED = [
    ("a malformed request is refused", ["P06", "P03"], "a malformed request (out-of-vocabulary id, wrong-typed parameter, None parameter) raised in the scheduler and ended it; a one-member batch was mis-sliced"),
    ("synchronous generate can be called repeatedly", ["P03", "P05"], "a second synchronous generate ran on a closed loop; a live request id could be taken over by a second request; stale timeouts left the request running"),
    ("a worker that dies during start-up", ["P15"], "launch hung when a worker died before reporting ready"),
    ("prompts with images share no prefix-cache", ["P01"], "two prompts with different images and equal token ids shared KV; positions after a cached prefix were wrong"),
    ("evicting a leaf under a released window entry", ["P09"], "evicting the last leaf below an entry whose window slots had been released left the entry behind or freed its slots twice"),
    ("SWA insert leaves the slots of an entry in use alone", ["P09"], "a sliding-window insert replaced the slots of an entry locked by a user"),
    ("streamed reasoning and tool-call parsing does not depend", ["P13", "P14"], "chunk boundaries changed the parsed reasoning, content and tool calls; buffered text was lost at the end of a stream"),
    ("an HTTP client that goes away while streaming", ["P14", "P05"], "a client that disconnected during a stream left its request running"),
    ("notices clients that leave before a non-streaming answer", ["P14"], "a client that disconnected while waiting for a non-streaming answer was never noticed (BaseHTTPMiddleware hides it), its request ran on"),
    ("the OpenAI endpoints report engine errors", ["P14"], "engine errors became empty completions with status 200"),
    ("HTTP answers to a batch of prompts", ["P14", "P03"], "results and stream events of a batch of prompts were mixed up and numbered 0"),
    ("the CUDA IPC pool can be constructed", ["P12"], "constructing the pool always raised (sync buffer list used before it existed)"),
    ("a pool chunk is released only after the receiver's device copy", ["P12"], "the receiver released the chunk before its asynchronous device copy was complete, so the sender could overwrite it"),
    ("a pooled tensor that cannot be shared", ["P12"], "when sharing failed the receiver got raw bytes with the wrong type and shape and the chunk was never released"),
    ("strided and zero-dimensional tensors can cross", ["P12"], "a strided or zero-dimensional tensor raised after its chunk was taken, which was then lost"),
    ("the CUDA IPC pool survives a failing sync buffer", ["P12"], "a failing shared-memory allocation lost the rest of the split chunk; empty chunks blocked coalescing"),
    ("parallel loops run a last partial step", ["N01"], "a loop whose range is no multiple of its step skipped the last iteration; a pool without workers ran nothing; an empty loop hung"),
    ("parallel loops and the pool's destructor finish", ["N01"], "lost wake-ups: a loop or the destructor could wait for ever for idle or still active workers; data races on the pool's flags"),
    ("several submitters and nested loops can share", ["N01", "N03"], "two threads (or a nested loop) using one task slot overwrote each other's loop, so iterations ran twice, never, or after the caller had gone"),
    ("readers of the native service do not miss", ["N03"], "a reader of a response could miss its wake-up or lose a response when several readers waited; the session pool was unlocked"),
    ("a failing session or a request for an unknown model", ["N03"], "an exception in a session ended the process, a request for an unknown model crashed, a session that never finished left its reader waiting"),
    ("stopping the native service serves", ["N03"], "a stopped service lost accepted requests, left readers waiting and could not be started again"),
    ("the native memory pool locks its block table", ["N02"], "concurrent allocation and release raced on the block table and on the segment list"),
    ("the native memory pool grows for blocks larger", ["N02"], "a block larger than the next segment made the pool add segments for ever or hand out memory beyond a segment"),
    ("object cache is keyed by the size asked for", ["N02"], "a cached block was handed out for a larger size than its own, and cached blocks were lost when the cache sizes changed"),
    ("a failing system allocator is reported", ["N02"], "a failed system allocation left a null segment from which memory was handed out"),
    ("a first segment whose capacity is not a power of two", ["N02"], "a first segment whose capacity is not a power of two handed out overlapping blocks"),
    ("freeing a KV address of the native storage frees that address", ["N04"], "free() of an address cleared the lane bit of another page, so a live address was handed out again and the freed one was lost"),
    ("the native KV storage hands out no address beyond", ["N04"], "addresses beyond the end of a blob were handed out when lanes were no multiple of 64"),
    ("a purge hint of the native KV storage", ["N04"], "a purge hint discarded the data of other addresses, and of anonymous memory"),
    ("the native KV storage can keep blobs in files", ["N04"], "file-backed blobs could not be created or mapped"),
    ("native KV storage that was recorded is recovered", ["N04"], "recovering a recorded storage lost addresses and data or handed out addresses in use"),
    ("the native prefix tree follows an edge to its children", ["N05"], "a partly matched edge was followed to its children, so tokens in the middle of a key were skipped"),
    ("entries of the native prefix caches stored under an extra key", ["N05"], "entries stored under an extra key could never be found"),
    ("equal tokens of different namespaces", ["N05"], "an edge of one namespace was dropped when another namespace's edge with the same tokens fell into the same hash bucket"),
    ("a tensor view without dimensions writes no stride", ["N06"], "creating a tensor without dimensions wrote in front of its stride array"),
    ("bfloat16 and the remaining quantization types", ["N06", "N07"], "bfloat16 and several quantization types had no size, so such parameters were loaded as garbage"),
    ("model files that are truncated or whose descriptors", ["N06", "N07"], "truncated or damaged model files were loaded as garbage, read outside the file or crashed"),
    ("the V1 descriptor section is as long as", ["N06"], "the V1 writer miscounted its descriptor section when a tensor's own name differed"),
    ("a V2 model file is not written with a shortened", ["N06"], "parameter names over 256 bytes were shortened, so they were lost or collided"),
    ("saving a model file reports failed writes", ["N06"], "a save on a full disk reported success"),
    ("streaming more tensors than were reserved", ["N07"], "one tensor more than reserved overwrote the data of the first tensor"),
    ("numpy arrays can be written", ["N07"], "numpy arrays raised KeyError; big-endian ones would have been stored swapped"),
    ("a streamed model file without tensors", ["N07"], "a streamed file without tensors listed as many as were reserved"),
    ("the Python model writer does not shorten", ["N07"], "names over 256 bytes were shortened"),
    ("a V2 model file written from Python names its model", ["N07"], "the header never named the model"),
    ("params that no quantization pass takes", ["N07"], "params matched by the configuration but by no pass were not counted, so the conversion failed"),
    ("control threads get their own session block", ["N08"], "threads inserted into the session table at the same time (a data race), and two threads could be given the same id or the same random state"),
    ("loading a tensor in the background loads it", ["N08"], "a tensor loaded in the background was copied onto itself instead, and the task referred to a parameter of the function that had returned"),
    ("dispatchers can be registered while other threads", ["N08"], "registering a dispatcher while other threads used the engine raced on the manager's table, and a lazily registered one could be registered twice"),
    ("a thread does not stay in trace mode", ["N08"], "a module that failed while it was traced left its thread in trace mode, so later calls were recorded rather than run"),
    ("a tensor can be deleted before its scope ends", ["N09"], "every sampled generation crashed: deleting a tensor gave up its data and then read it"),
    ("generate() does not use the scores it has deleted", ["N09"], "generate() with sampling read the device of a tensor it had deleted (a null pointer)"),
    ("top-k sampling with k above the size", ["N09"], "top_k above the size of the vocabulary read and returned memory behind the scores"),
    ("generation at temperature zero", ["N09"], "temperature 0 divided by zero and returned token 0 or none of the vocabulary instead of the best one"),
    ("sampling never leaves the vocabulary", ["N09"], "a draw rounded up to one could return a token one past the vocabulary or one of probability zero"),
    ("a static KV cache refuses what exceeds", ["N10"], "positions beyond the capacity were written over the next head or behind the buffer"),
    ("slices with a last dimension of one", ["N07"], "a slice with a last dimension of one raised"),
]
RECORDED = []
