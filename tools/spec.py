#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json (run after editing; both are committed)."""
import json
from pathlib import Path

V = Path(__file__).resolve().parent.parent
PROPS, CHECKS, NA = [], [], []


def prop(id, title, statement, over, text, why, files, mechanism, technique, note, observe=None, na=None, thorough=True):
    assert len(title) <= 80, title
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                      anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism],
                                   observe_at=observe or [], hook_needed=None)))
    if na:
        NA.append(dict(property=id, reason=na))
        return
    c = dict(property=id, quick_cmd=f"./check {id}", technique=technique, level="exploration", level_note=note)
    if thorough:
        c["thorough_cmd"] = f"./check {id} thorough"
    CHECKS.append(c)


MC = "pymllm/mem_cache/"
ORC = "pymllm/orchestrator/"
SERVE_NOTE = ("Executions of the real scheduler + model runner event loop on random request histories, judged by a sequential "
              "reference; trusts the recording model used instead of a GPU model, and explores histories, not all of them.")

prop("P01", "Prefix cache returns exactly the longest cached prefix, and hashes identify it",
     "After any history of inserts, lookups, locks and evictions, a lookup in the prefix cache returns, for every queried sequence, exactly the KV slots stored for its longest cached prefix (whole pages, same namespace) and nothing else; prefix hashes are equal exactly for equal prefixes. "
     "Locked prefixes are never evicted, eviction frees as many unlocked tokens as asked for (least recently used first) when there are that many, and the reported evictable and protected sizes equal the unlocked and locked cached tokens.",
     ["histories", "inputs", "configurations"], "every history of cache operations, every token sequence, page size and cache variant (plain, recurrent-state, sliding-window)",
     "No test touches the prefix cache; correctness depends on splits, lock counts and eviction orders built up over a history.",
     [MC + "radix_cache.py", MC + "mamba_radix_cache.py", MC + "base_prefix_cache.py", MC + "chunk_cache.py"],
     [("match_prefix/insert/_split_node", MC + "radix_cache.py"), ("evict/_add_leaf size accounting", MC + "radix_cache.py"), ("compute_node_hash/hash_token_ids", MC + "base_prefix_cache.py")],
     "runtime monitoring: model-based online monitor over random operation histories",
     "Random histories on the live cache classes compared after every step with a per-token reference map; not exhaustive.",
     ["return values of match_prefix/insert/evict", "slots handed back to the allocator", "evictable_size()/protected_size()"])

prop("P03", "Every KV slot has exactly one owner, and all slots come back",
     "At any moment of any serving history, each KV-cache slot is either free or owned by exactly one of: a running request's token, or a cached prefix entry; a slot is written only by its owner and freed exactly once. "
     "When no request is in flight, every slot is free or held by the prefix cache, and every request slot is free.",
     ["histories", "schedules", "configurations"], "every history of request arrivals, completions, aborts, cache hits, evictions and memory exhaustion, for every cache variant, page size and pool size",
     "The serving loop has no tests; leaks and double ownership need multi-request histories with shared prefixes and memory pressure.",
     [ORC + "model_runner_process.py", MC + "memory_pool.py", MC + "radix_cache.py", "pymllm/executor/model_runner.py"],
     [("_free_rid_resources", ORC + "model_runner_process.py"), ("TokenToKVPoolAllocator.alloc/free", MC + "memory_pool.py"), ("insert/dup freeing", MC + "radix_cache.py")],
     "runtime monitoring: slot-ownership ledger over the running serving loop", SERVE_NOTE,
     ["alloc/free calls", "KV writes of every forward", "pool sizes at idle points"])

prop("P04", "A request's output does not depend on batching, caching or other requests",
     "With greedy decoding (and deterministic per-request penalties), a request generates the same tokens whatever other requests run with it, in whatever batches, whether or not its prefix was cached, evicted, or it was sent back to the queue and resumed. "
     "Every attended position carries the key/value, position and image embedding of that request's own token at that position.",
     ["histories", "schedules", "configurations"], "every history of requests, prompts sharing prefixes, batch compositions, cache states and evictions",
     "Needs interleavings of several requests with cache hits and evictions; the tests run no scheduler.",
     [ORC + "scheduler_process.py", ORC + "model_runner_process.py", "pymllm/executor/model_runner.py", "pymllm/models/qwen3_vl.py", "pymllm/engine/forward_batch.py"],
     [("_prepare_extend/_prepare_decode batch building", ORC + "model_runner_process.py"), ("ModelRunner.forward_batch/sample", "pymllm/executor/model_runner.py"), ("retraction", ORC + "scheduler_process.py")],
     "runtime monitoring: KV-sensitive model with sequential reference oracle", SERVE_NOTE,
     ["generated token ids", "per-forward KV mapping, positions and image rows"])

prop("P05", "Recurrent state of hybrid models follows each request's own tokens",
     "For models with recurrent (linear-attention) layers, the state used for a request's next token is always the state obtained by feeding that request's own tokens from the start, whatever prefix was reused, which snapshots were taken or evicted, and whatever other requests ran in the batch. "
     "State slots of finished requests and of evicted snapshots come back to the pool.",
     ["histories", "schedules"], "every history of requests on a hybrid model with and without snapshot caching",
     "No test runs a hybrid model through the serving loop.",
     [ORC + "model_runner_process.py", MC + "mamba_radix_cache.py", MC + "memory_pool.py"],
     [("_track_gdn_state/_restore snapshot", ORC + "model_runner_process.py"), ("mamba_value of tree nodes", MC + "mamba_radix_cache.py"), ("GDNPool", MC + "memory_pool.py")],
     "runtime monitoring: state-tracking model with sequential reference oracle", SERVE_NOTE,
     ["recurrent state read at every step", "GDN pool free list at idle points"])

prop("P07", "Scheduling limits hold and every request ends in bounded steps",
     "A batch never exceeds the configured number of running requests or prefill tokens (a longer prompt runs in a batch of its own), no request is in a batch twice, and the token budget charged for requests returns to zero when none is left. "
     "For every finite set of arrivals, each request reaches a terminal response within a bounded number of scheduling steps, whatever its length, the load, and the memory pressure.",
     ["histories", "schedules", "configurations"], "every arrival history, limit configuration and pool size, including prompts longer than a prefill batch and pools too small for all requests",
     "Bounded progress is a statement about unbounded histories; no test covers the scheduler.",
     [ORC + "scheduler_process.py", ORC + "model_runner_process.py"],
     [("get_next_batch_to_run/_get_new_prefill_batch", ORC + "scheduler_process.py"), ("retraction", ORC + "scheduler_process.py")],
     "runtime monitoring: limit monitor and bounded-progress watchdog on the scheduler loop", SERVE_NOTE,
     ["composition of every batch", "steps from arrival to terminal"])

prop("P08", "Completion protocol: right end reason, limits respected, one terminal message",
     "A generation ends at the first end-of-sequence or stop token (unless told to ignore it), at the maximum number of new tokens, or at the sequence limit, whichever comes first, and the reported finish reason and token counts say which. "
     "The streamed token deltas of a request concatenate to its output, in order, and exactly one terminal message is sent, after which nothing follows.",
     ["histories", "inputs"], "every request parameter combination and every serving history",
     "Combination of sampling parameters with batching, retraction and streaming; not covered by tests.",
     [ORC + "scheduler_process.py", "pymllm/engine/io_struct.py"],
     [("process_batch_result / _check_finished", ORC + "scheduler_process.py"), ("stream_output", ORC + "scheduler_process.py")],
     "runtime monitoring: output-protocol monitor with reference oracle", SERVE_NOTE,
     ["messages sent to the detokenizer"])

prop("P09", "An aborted request stops and leaves no trace",
     "After an abort is received, the aborted request takes part in no later batch, its KV slots, request slot and recurrent state are returned, and no output follows for it. "
     "Other requests generate exactly what they would have generated had it never been sent or not been aborted.",
     ["histories", "schedules"], "every point of a request's life at which an abort can arrive (before arrival, waiting, prefill, decoding, finished) and every load",
     "Aborts race with every stage; no test sends one.",
     [ORC + "scheduler_process.py", ORC + "model_runner_process.py"],
     [("abort handling in receive", ORC + "scheduler_process.py"), ("_free_rid_resources", ORC + "model_runner_process.py")],
     "runtime monitoring: differential histories with injected aborts", SERVE_NOTE,
     ["batches after the abort", "pool levels", "outputs of the other requests"])

prop("P27", "A malformed or unservable request fails alone",
     "A request whose parameters, prompt or length cannot be served gets one terminal response saying so, within bounded steps. "
     "The engine keeps serving, and every other request generates exactly what it would have generated without it.",
     ["inputs", "histories"], "every malformed parameter value, empty or oversized prompt, at any point of any history",
     "The space of malformed inputs and the moments they arrive is not sampled by any test.",
     [ORC + "scheduler_process.py", ORC + "model_runner_process.py", ORC + "tokenizer_process.py"],
     [("request validation on receipt", ORC + "scheduler_process.py")],
     "runtime monitoring: hostile-input histories, differential oracle", SERVE_NOTE,
     ["terminal responses", "outputs of the other requests"])

# MORE-PROPS

def main():
    exec_more()
    order = sorted(PROPS, key=lambda p: (p["id"][0] != "P", p["id"]))
    (V / "properties.jsonl").write_text("".join(json.dumps(p) + "\n" for p in order))
    m = dict(version=1, setup_cmd="true", checks=sorted(CHECKS, key=lambda c: (c["property"][0] != "P", c["property"])),
             not_applicable=NA,
             notes="./check ID [thorough] runs checks/ID.py under a watchdog; evidence in evidence/ID.json; known findings in known_findings.json. No hooks were added to /repo: harnesses wrap the real classes from outside.")
    (V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")


def exec_more():
    for f in sorted((V / "tools").glob("spec_*.py")):
        exec(compile(f.read_text(), str(f), "exec"), globals())


main()
