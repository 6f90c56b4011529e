"""Checks beyond the serving-pipeline ones."""
NOTE = ("Seeded search, no proof: holds for the runs explored. ")
CPP = ("The C++ sources run as built from the tree with every thread a fibre of one simulated process; executions are sequentially consistent, "
       "unordered accesses are reported by a happens-before check. ")
CHECKS = {
    "P11": ("deterministic simulation of the whole serving pipeline on the shared-memory path with seeded schedules, queue pressure and failing shared-memory calls",
            NOTE + "Shared segments and the process queue are simulated; what the real tokenizer produced is compared with what the real scheduler received."),
    "P15": ("deterministic simulation of the whole serving pipeline with worker crashes, failing start-ups, stalls and clock jumps over hours of simulated time",
            NOTE + "Processes, pipes and clocks are simulated; the health monitor, launch, shutdown and stale-request code is the real one. Idle survivors are frozen during the half-hour wait."),
    "P12": ("deterministic simulation of senders, receivers, recycler thread and device streams with seeded schedules, stalls and allocation failures",
            NOTE + "Drives the real pool, proxies and tensor queue; the device is a host-memory stand-in with late, piecewise stream copies."),
    "P13": ("deterministic simulation of the streaming parsers under seeded chunk schedules and cut-off points, against a whole-text reference parser",
            NOTE + "Drives the real parsers with every chunk boundary chosen by the simulator; whole-pipeline streaming is covered by P14."),
    "P14": ("deterministic simulation of HTTP clients, the real ASGI application and the whole serving pipeline with seeded schedules, disconnects and faults",
            NOTE + "The real FastAPI application runs on the simulated event loop; uvicorn and sockets are replaced by an ASGI driver."),
    "P16": ("deterministic simulation of the whole serving pipeline with seeded schedules and adversarial random draws",
            NOTE + "The PyTorch sampling path (the one used without FlashInfer) runs for real; its random draw is a decision of the simulator. "
            "Trusts the simulated ZeroMQ/process layer and the stand-in network that supplies the scores."),
    "P09": ("deterministic simulation of concurrent prefix-cache users with seeded interleavings, eviction pressure and user failures, checked against a reference model",
            NOTE + "Drives the real cache classes directly with simulated users (the CPU path of the scheduler is single-threaded, so users interleave between cache calls), plus whole-pipeline runs."),
    "P10": ("deterministic simulation of concurrent hybrid-cache users with seeded interleavings, eviction pressure and user failures, checked against a reference model",
            NOTE + "Drives the real cache class directly with simulated users; users interleave between cache calls."),
    "N01": ("deterministic simulation of the native thread pool: real threads as fibres with a seeded switch at any memory access or lock, stalls and spurious wake-ups, against an execute-once counter model",
            NOTE + CPP + "Covers submitters, nested loops, activation and destruction at arbitrary points."),
    "N02": ("deterministic simulation of concurrent users of the native memory pool with seeded interleavings and failing system allocations, against an interval model of live memory",
            NOTE + CPP + "The operating system's allocator is counted and made to fail."),
    "N03": ("deterministic simulation of clients, workers and sessions of the native request service with seeded interleavings, failing sessions, malformed requests, stop and restart",
            NOTE + CPP + "Sessions are stand-ins whose answers are known; the runtime context is a stub."),
    "N04": ("deterministic simulation of lives of the native KV storage: seeded histories with crashes at any file operation, restarts and failing or short file operations, against a model of live addresses and their content",
            NOTE + CPP + "File calls go to a scratch directory through a layer that injects faults; a crash ends the process and keeps what it had written."),
    "N05": ("deterministic simulation of interleaved users and concurrent searchers of the native prefix tree and prefix caches under seeded histories, against a position-by-position reference model",
            NOTE + CPP + "Changes to the tree come from one thread at a time, as the code requires."),
    "N06": ("deterministic simulation of saving and loading model files with damaged, truncated and torn files, crashes while saving and failing or short file operations, against an independent parser of the bytes on disk",
            NOTE + CPP + "File calls go to a scratch directory through a layer that injects faults; the formats have no checksums, so damaged data bytes inside a file of full length are what the file says."),
    "N08": ("deterministic simulation of control threads and pool threads sharing the native engine, with a seeded switch at any memory access or lock, any order of background jobs, stalls and failing modules, against per-task and per-thread reference values",
            NOTE + CPP + "stdexec is not installed; its schedule/then/when_all/sync_wait are replaced by a small pool with the same contract. Arithmetic is a test operator; engine, dispatchers, modules, tensors and file reader are real."),
    "N09": ("deterministic simulation of token streams of several native models and conversations, with every random draw decided by the simulator (also the extreme ones), failing steps and seeded interleavings, against the distribution computed from the scores",
            NOTE + CPP + "The random-device call is the simulator's; softmax and scaling kernels are plain loops (the vector library is not installed) and the model's forward is a known function of the tokens before. The distribution is judged by betting against it, so a run alarms by chance with probability below 1e-9."),
    "N10": ("deterministic simulation of seeded histories of the native key/value caches (append, read, roll back, clear, sub-caches, capacity) in several threads, against a position-by-position reference",
            NOTE + CPP + "Caches, tensors, slice/concat/repeat/KV-cache operators and dispatch are real."),
    "N07": ("deterministic simulation of the Python converter on a disk with crashes at any operation, short and failing writes, its remains loaded by the real native reader under the same simulator",
            NOTE + CPP + "Writer and solver run unmodified over a raw-file layer that injects faults; a crash keeps what was written (no power loss)."),
}
