"""Writes known_findings.json: repaired defects (fixed) and recorded ones."""
import json
import os
import subprocess

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# commit subject -> (properties, what failed)
FIXED = [
    ("do not treat the last sampled token", ["P02", "P01"], "the last sampled token, which has no KV slot, was inserted into the prefix cache with the slot of another request"),
    ("treat top_k <= 0 as disabled", ["P16"], "one request without top_k in a mixed batch was sampled with an empty or wrong candidate set"),
    ("greedy requests take the argmax", ["P16", "P01"], "a greedy request batched with sampling requests was sampled at random"),
    ("keep the evictable size in step", ["P09", "P02"], "evictable size drifted from the tree contents whenever a leaf gained a child"),
    ("fully cached one-token prompt", ["P01"], "a fully cached one-token prompt was extended by nothing and crashed or mis-sampled"),
    ("SWA prefix-cache insert", ["P09", "P02"], "sliding-window insert freed duplicate slots twice or never and lost its place after a split"),
    ("SWA prefix lookups refresh", ["P09"], "sliding-window lookups did not refresh the LRU order"),
    ("store whole pages only", ["P02", "P09"], "with pages larger than one token, unaligned tails leaked or were shared"),
    ("hybrid models reuse a prefix", ["P08"], "a hybrid model reused a prefix with the recurrent state of a longer prefix; snapshot slots leaked"),
    ("a result arriving at the receive timeout", ["P03"], "a result arriving exactly at the 60 s receive timeout was dropped and its caller hung"),
    ("stale-request timeouts", ["P03", "P15"], "a wall-clock jump answered live requests with 'timeout'"),
    ("an abort never overtakes", ["P05"], "an abort could overtake its own still queued request, which then ran to its end unowned"),
    ("refuse requests that can never fit", ["P06"], "over-limit requests waited forever; admitted requests could outgrow the KV pool and kill the scheduler"),
    ("accept the lock handle back", ["P08", "P10"], "with the hybrid-state or chunk cache the scheduler died with a TypeError when releasing a request; locks leaked over splits"),
    ("keeps the recurrent state of its own tokens", ["P10"], "a hybrid-state cache entry stored the state slots of its whole key, so counters drifted and slots were freed twice"),
    ("streamed text only grows", ["P04", "P05"], "a character spanning several tokens was shown as U+FFFD and then replaced; aborted requests left their text in the detokenizer"),
    ("on the shared-memory path aborts", ["P11", "P05"], "aborts were never read on the shared-memory path; a failing segment left its caller hanging; an untokenizable request killed the tokenizer"),
    ("any request id can cross", ["P11"], "a request id with '/' killed the tokenizer on the shared-memory path"),
]
try:
    from findings_extra import FIXED as F2, RECORDED
    FIXED += F2
except ImportError:
    RECORDED = []
log = subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h %s"], text=True).splitlines()
out = []
for key, pids, what in FIXED:
    c = [l.split()[0] for l in log if key in l]
    assert c, key
    for p in pids:
        out.append({"property": p, "fixed": "fixed: property=%s %s %s" % (p, c[0], what)})
with open(os.path.join(V, "known_findings.json"), "w") as f:
    json.dump({"findings": RECORDED + out}, f, indent=1)
    f.write("\n")
