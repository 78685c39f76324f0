"""P06: the memory pools hand every slot to one owner and keep what was stored."""
import sys
sys.path.insert(0, __file__.rsplit("/checks/", 1)[0] + "/lib")
import random
import vlib
vlib.setup_python_repo()
from vlib import Check, parallel, run_main, scale, seed
import torch
torch.set_num_threads(1)
from pymllm.mem_cache.memory_pool import GDNPool, KVPool, ReqToTokenPool, TokenToKVPoolAllocator, make_full_attention_net_mem_pool

c = Check("P06", "random histories of alloc/free/batched free/clear on the KV slot allocator (per-token and paged, with and without sorting), the request-slot pool and the "
          "recurrent-state pool, with content written to and read back from the owned slots; compared with an ownership ledger after every call; "
          "non-trivial = distinct histories with more than 5 allocations")


def kv(r, i):
    page = r.choice([1, 1, 1, 2, 4, 16])
    size = r.choice([1, 3, 7, 15, 16, 31, 64, 100])
    pool, al = make_full_attention_net_mem_pool(size=size, layer_num=2, k_head_num=1, k_head_dim=2, v_head_num=1, v_head_dim=r.choice([2, 3]),
                                                device="cpu", dtype=torch.float32, page_size=page, need_sort=r.random() < .6, pin_memory=False)
    owner = {}            # slot -> stamp
    held = []             # list of index tensors (whole pages)
    pending = 0
    group = None
    n_alloc = 0
    cap = al.available_size()
    hist = []
    rep = {"kind": "kv", "size": size, "page": page, "history": hist}
    if page == 1 and cap != size:
        c.violation("capacity", f"a fresh allocator of size {size} has {cap} slots", rep)
    if cap > size or (page > 1 and size + 1 >= 2 * page and cap < size + 1 - 2 * page + 1):
        c.violation("capacity", f"a fresh paged allocator (size {size}, page {page}) offers {cap} slots", rep)
    stamp = 0

    def check_free():
        avail = al.available_size()
        pages_owned = {s // page for s in owner} | {s // page for s in deferred}
        if avail != cap - len(pages_owned) * page:
            c.violation("available", f"available_size() {avail}, but {len(pages_owned) * page} of {cap} slots are held", rep)

    deferred = set()
    for step in range(r.randrange(10, 60)):
        op = r.random()
        if op < .45:
            n = r.choice([0, 1, 1, 2, 3, page, 2 * page, r.randrange(1, size + 2), cap, cap + 1])
            hist.append(f"alloc {n}")
            free = cap - len({s // page for s in owner} | {s // page for s in deferred}) * page
            out = al.alloc(n)
            need = -(-n // page) * page
            if out is None:
                if need <= free:
                    c.violation("refused", f"alloc({n}) refused with {free} slots free", rep)
                continue
            got = out.tolist()
            n_alloc += 1
            c.observe("slots_allocated", len(got))
            if need > free:
                c.violation("overcommit", f"alloc({n}) granted with only {free} free", rep)
            if len(got) != n or len(set(got)) != n:
                c.violation("count", f"alloc({n}) returned {got}", rep)
            if out.dtype != torch.int32:
                c.violation("dtype", f"alloc returned {out.dtype}", rep)
            if any(not 1 <= s <= size for s in got):
                c.violation("range", f"alloc({n}) returned slots outside [1, {size}]: {[s for s in got if not 1 <= s <= size][:4]}", rep)
                return
            if any(s in owner or s in deferred for s in got) or any(s // page in {x // page for x in owner} for s in got):
                c.violation("double", f"alloc({n}) handed out owned slots {[s for s in got if s in owner or s in deferred][:4]}", rep)
                return
            if page > 1 and any(got[j + 1] != got[j] + 1 for j in range(n - 1) if (j + 1) % page):
                c.violation("page-contiguous", f"alloc({n}) with pages of {page} is not contiguous within pages: {got}", rep)
            if page > 1 and any(got[j] % page for j in range(0, n, page)):
                c.violation("page-aligned", f"alloc({n}) with pages of {page} does not start at page boundaries: {got}", rep)
            stamp += 1
            for s in got:
                owner[s] = stamp
            if got:
                held.append(out.clone())
                t = torch.tensor([[float(stamp), float(s)] for s in got])
                layer = r.randrange(2)
                vd = pool.v_head_dim
                for layer in (0, 1):
                    pool.set_kv_buffer(layer, out.long(), (t + layer).view(-1, 1, 2), torch.cat([t * 2 + layer, t[:, :1]], 1)[:, :vd].reshape(-1, 1, vd))
        elif op < .8 and held:
            idx = r.sample(range(len(held)), min(len(held), r.choice([1, 1, 2, 3])))
            ts = [held[j] for j in idx]
            if page == 1 and r.random() < .3 and len(ts[0]) > 1:
                # part of an allocation
                k = r.randrange(1, len(ts[0]))
                keep, ts[0] = ts[0][k:], ts[0][:k]
                held.append(keep)
            held = [h for j, h in enumerate(held) if j not in idx]
            x = torch.cat(ts)
            if r.random() < .3:
                x = x[torch.randperm(len(x))]
            if r.random() < .3:
                x = x.to(torch.int64) if r.random() < .2 and False else x
            hist.append(f"free {x.tolist()}")
            # what is read back before it is given up is what was stored
            for s in x.tolist():
                for layer in (0, 1):
                    k = pool.get_key_buffer(layer)[s].flatten().tolist()
                    v = pool.get_value_buffer(layer)[s].flatten().tolist()
                    if k != [owner[s] + layer, s + layer] or v[0] != owner[s] * 2 + layer:
                        c.violation("content", f"slot {s} layer {layer} holds {k}, expected {[owner[s] + layer, s + layer]}", rep)
                c.observe("contents_checked")
            al.free(x)
            for s in x.tolist():
                del owner[s]
                if group is not None:
                    deferred.add(s)
        elif op < .88:
            if group is None:
                hist.append("group_begin")
                al.free_group_begin()
                group = True
            else:
                hist.append("group_end")
                al.free_group_end()
                group = None
                deferred.clear()
        elif op < .9 and group is None:
            hist.append("clear")
            al.clear()
            owner.clear(); held = []
        check_free()
    if group is not None:
        al.free_group_end()
        deferred.clear()
    if held:
        al.free(torch.cat(held))
        owner.clear()
    if al.available_size() != cap:
        c.violation("leak", f"{al.available_size()} of {cap} slots free after everything was freed", rep)
    got = al.alloc(cap)
    if got is None or len(set(got.tolist())) != cap:
        c.violation("drained", "a fully freed pool does not hand out every slot once", rep)
    c.case((size, page, tuple(hist)), nontrivial=n_alloc > 5, sample=f"size={size} page={page}: {hist[:8]}")


def reqs(r, i):
    n, L = r.randrange(1, 8), r.randrange(1, 12)
    p = ReqToTokenPool(n, L, device="cpu")
    live = {}
    hist = []
    rep = {"kind": "req", "max_reqs": n, "history": hist}
    for _ in range(40):
        if r.random() < .55:
            k = r.randrange(1, n + 2)
            out = p.alloc(k)
            hist.append(f"alloc {k} -> {out}")
            if (out is None) != (k > n - len(live)):
                c.violation("req-refused", f"alloc({k}) -> {out} with {n - len(live)} of {n} free", rep)
                continue
            for s in out or []:
                if s in live or not 1 <= s <= n:
                    c.violation("req-double", f"alloc handed out slot {s} (live {sorted(live)}, valid [1, {n}])", rep)
                    return
                vals = torch.tensor([r.randrange(1000) for _ in range(r.randrange(0, L + 1))], dtype=torch.int32)
                p.write((s, slice(0, len(vals))), vals)
                live[s] = vals.tolist()
        elif live:
            s = r.choice(sorted(live))
            hist.append(f"free {s}")
            p.free(s)
            del live[s]
        for s, v in live.items():
            c.observe("rows_checked")
            if p.req_to_token[s, :len(v)].tolist() != v:
                c.violation("req-row", f"row {s} changed under a live request", rep)
        if p.available_size() != n - len(live):
            c.violation("req-available", f"available_size {p.available_size()}, {n - len(live)} expected", rep)
    c.case(("req", n, tuple(hist)))


def gdn(r, i):
    n, tr = r.randrange(1, 5), r.randrange(0, 5)
    p = GDNPool(n, 2, 1, 2, 3, 2, r.choice([2, 4]), device="cpu", dtype=torch.float32, max_track_slots=tr)
    val = {s: 0.0 for s in range(1, n + 1)}
    tracks = {}
    hist = []
    rep = {"kind": "gdn", "max_reqs": n, "tracks": tr, "history": hist}

    def fill(s, x):
        for l in range(2):
            a, b = p.get_layer_state(l)
            a[s] = x + l
            b[s] = x - l

    def read(s):
        vs = set()
        for l in range(2):
            a, b = p.get_layer_state(l)
            vs |= set((a[s] - l).flatten().tolist()) | set((b[s] + l).flatten().tolist())
        return vs
    fill(0, -1.0)
    for s in val:
        fill(s, float(s))
        val[s] = float(s)
    x = 100.0
    for _ in range(40):
        op = r.random()
        if op < .25:
            t = p.alloc_track_slot()
            hist.append(f"track -> {t}")
            if (t is None) != (len(tracks) >= tr):
                c.violation("track-refused", f"alloc_track_slot -> {t} with {tr - len(tracks)} of {tr} free", rep)
            elif t is not None:
                if t in tracks or not n + 1 <= t < n + 1 + tr:
                    c.violation("track-double", f"track slot {t} handed out twice or outside the pool", rep)
                    return
                src = r.choice(sorted(val))
                p.copy_states(src, t)
                tracks[t] = val[src]
        elif op < .45 and tracks:
            t = r.choice(sorted(tracks))
            p.free_track_slot(t)
            del tracks[t]
            hist.append(f"untrack {t}")
        elif op < .6 and tracks:
            t, s = r.choice(sorted(tracks)), r.choice(sorted(val))
            p.copy_states(t, s)
            val[s] = tracks[t]
            hist.append(f"restore {t}->{s}")
        elif op < .8:
            x += 10
            s = r.choice(sorted(val))
            fill(s, x)
            val[s] = x
        else:
            ss = r.sample(sorted(val), r.randrange(0, n + 1))
            p.reset_states(torch.tensor(ss, dtype=torch.int64))
            hist.append(f"reset {ss}")
            for s in ss:
                val[s] = None
        for s, v in list(val.items()) + list(tracks.items()):
            c.observe("states_checked")
            if v is None:
                ok = all(float(q[s].abs().sum()) == 0 for l in range(2) for q in p.get_layer_state(l))
            else:
                ok = read(s) == {v}
            if not ok:
                c.violation("state", f"state slot {s} does not hold its owner's state", rep)
    c.case(("gdn", n, tr, tuple(hist)))


def one(i):
    r = random.Random(seed() * 1000003 + i)
    try:
        for _ in range(3):
            kv(r, i)
        reqs(r, i)
        gdn(r, i)
    except Exception as e:  # noqa: BLE001
        c.exception(e, "pool", {"case": i, "seed": seed()})


def main():
    parallel(c, one, scale(1000, 20000), workers=8)
    c.require("slots_allocated", 1000)
    c.require("states_checked", 1000)
    c.finish()


run_main(c, main)
