"""P01: prefix cache (radix) answers exactly the longest cached prefix and
never loses / hands out / evicts locked entries.  Reference-model monitor."""
import random
import sys
sys.path.insert(0, __file__.rsplit("/checks/", 1)[0] + "/lib")
import vlib
vlib.setup_python_repo()
import torch
torch.set_num_threads(1)
from pymllm.mem_cache.base_prefix_cache import RadixKey
from pymllm.mem_cache.radix_cache import RadixCache
from pymllm.mem_cache.mamba_radix_cache import MambaRadixCache
from pymllm.mem_cache.base_prefix_cache import hash_token_ids

C = vlib.Check("P01", "random histories of insert/match/lock/unlock/evict on a live cache, compared step by step with a "
               "per-token reference map; a history is non-trivial when it produced a partial match, a split or an eviction")


class Bad(Exception):
    def __init__(self, sig, msg):
        self.sig, self.msg = sig, msg


class Pool:
    """Recording allocator stand-in: gives out unique slot numbers."""
    def __init__(self):
        self.device = torch.device("cpu")
        self.next = 1
        self.live = set()
        self.freed_log = []

    def take(self, n):
        v = list(range(self.next, self.next + n))
        self.next += n
        self.live.update(v)
        return v

    def free(self, idx):
        l = [int(x) for x in idx.tolist()]
        self.freed_log.append(l)
        for x in l:
            if x not in self.live:
                raise Bad("double-free", f"slot {x} freed although it is not allocated")
            self.live.discard(x)


class Model:
    """(extra, token prefix) -> slot, last access times, lock counts."""
    def __init__(self):
        self.val = {}
        self.t_full = {}   # last op that covered this prefix entirely
        self.t_any = {}    # last op that touched this or a neighbouring position of its run
        self.lock = {}

    def longest(self, ex, toks):
        n = 0
        while n < len(toks) and (ex, tuple(toks[:n + 1])) in self.val:
            n += 1
        return n

    def nlocked(self):
        return sum(1 for k in self.val if self.lock.get(k, 0) > 0)

    def children(self, k):
        ex, p = k
        return [q for q in self.val if q[0] == ex and len(q[1]) == len(p) + 1 and q[1][:-1] == p]


def shadow_audit(cache, m, cname, page):
    """Compare size queries with the model."""
    total, locked = len(m.val) * page, m.nlocked() * page
    if cache.total_size() != total:
        raise Bad(f"{cname}:total-size", f"total_size {cache.total_size()} but {total} tokens are cached")
    if cache.protected_size() != locked:
        raise Bad(f"{cname}:protected-size", f"protected_size {cache.protected_size()} but {locked} cached tokens are locked")
    if cache.evictable_size() != total - locked:
        raise Bad(f"{cname}:evictable-size", f"evictable_size {cache.evictable_size()} but {total - locked} cached tokens are unlocked")


def run(hid, rng, mk, cname, nops, alphabet, maxlen, extras, page):
    """Model symbols are whole pages: (tuple of tokens)."""
    pool = Pool()
    evicted_ids = []
    cache = mk(pool, evicted_ids)
    swa = cname.startswith("swa")
    m = Model()
    locks = []
    trace = []
    stats = set()
    syms = [tuple(rng.randrange(alphabet) for _ in range(page)) for _ in range(alphabet)] if page > 1 else [(t,) for t in range(alphabet)]
    if page > 1:  # pages which share their first token
        syms.append((syms[0][0],) + tuple(t + 1 for t in syms[0][1:]))

    def key():
        base = []
        if m.val and rng.random() < 0.6:
            base = list(rng.choice(list(m.val))[1])
            base = base[: rng.randint(0, len(base))]
        base += [rng.choice(syms) for _ in range(rng.randint(0, maxlen))]
        base = base[: maxlen * 2]
        tail = [rng.randrange(alphabet) for _ in range(rng.randint(0, page - 1))]
        return base, [t for p in base for t in p] + tail

    def path_of(ex, ps, n):
        return [(ex, tuple(ps[:i + 1])) for i in range(n)]

    for op in range(nops):
        r = rng.random()
        ex = rng.choice(extras)
        if not locks and rng.random() < 0.015:     # the owner starts over: nothing is cached, all slots are free
            cache.reset()
            trace.append(("reset",))
            pool.free(torch.tensor(sorted(pool.live), dtype=torch.int64))
            m = Model()
            C.observe("resets")
            if any(f() for f in (cache.total_size, cache.evictable_size, cache.protected_size)):
                raise Bad(f"{cname}:reset-size", f"after reset total {cache.total_size()}, evictable {cache.evictable_size()}, protected {cache.protected_size()}")
        if r < 0.40:
            ps, toks = key()
            if not toks:
                continue
            have = m.longest(ex, ps)
            vals = pool.take(len(toks))
            kw = {}
            own = 0
            if swa:
                # the caller holds (a part of) the cached prefix already
                own = rng.randint(0, have)
                shared = [x for k in path_of(ex, ps, own) for x in m.val[k]]
                pool.free(torch.tensor(vals[: own * page], dtype=torch.int64))
                vals = shared + vals[own * page:]
                kw = {"prev_prefix_len": own * page}
            trace.append(("insert", ex, tuple(toks), own))
            res = cache.insert(RadixKey(list(toks), ex), torch.tensor(vals, dtype=torch.int64), **kw)
            if res.prefix_len != have * page:
                raise Bad(f"{cname}:insert-prefix-len", f"insert reported prefix_len {res.prefix_len}, {have * page} leading tokens were cached; trace={trace[-6:]}")
            for i, k in enumerate(path_of(ex, ps, len(ps))):
                if i >= have:
                    m.val[k] = tuple(vals[i * page:(i + 1) * page])
                    m.t_full[k] = op
                elif not cname.startswith("mamba"):
                    m.t_full[k] = op   # (a re-insert is not a "use" for the hybrid cache)
                m.t_any[k] = op
            if have < len(ps):
                stats.add("new")
            if 0 < have < len(ps):
                stats.add("branch")
            # duplicates are the caller's to free (the SWA cache frees them), and so is the unaligned tail
            if have and not swa:
                pool.free(torch.tensor(vals[:have * page]))
            if len(toks) > len(ps) * page:
                pool.free(torch.tensor(vals[len(ps) * page:]))
                stats.add("tail")
            C.observe("inserts")
        elif r < 0.70:
            ps, toks = key()
            trace.append(("match", ex, tuple(toks)))
            want = m.longest(ex, ps)
            res = cache.match_prefix(RadixKey(list(toks), ex))
            got = [int(x) for x in res.indices.tolist()]
            path = path_of(ex, ps, want)
            exp = [x for k in path for x in m.val[k]]
            if len(got) != want * page or res.prefix_len != want * page:
                raise Bad(f"{cname}:match-length", f"match of {toks} ex={ex} returned {len(got)} (prefix_len {res.prefix_len}), longest cached prefix is {want * page}; trace={trace[-8:]}")
            if got != exp:
                raise Bad(f"{cname}:match-values", f"match of {toks} returned slots {got}, inserted were {exp}")
            for k in path:
                m.t_full[k] = op
            if want or ps:
                for k in m.val:
                    if k[0] == ex and (k[1][:want] == tuple(ps[:want])) and (want or k[1][:1] == tuple(ps[:1])):
                        m.t_any[k] = op
            for k in path:
                m.t_any[k] = op
            C.observe("matches")
            C.seen("match_len", want)
            if 0 < want < len(ps):
                stats.add("partial")
            if want and rng.random() < 0.45:
                tok = cache.inc_lock_ref(res.last_node)
                for k in path:
                    m.lock[k] = m.lock.get(k, 0) + 1
                locks.append((res.last_node, tok, path))
                trace.append(("lock", ex, path[-1][1]))
                C.observe("locks")
        elif r < 0.84:
            if locks:
                node, tok, path = locks.pop(rng.randrange(len(locks)))
                cache.dec_lock_ref(node, tok)
                for k in path:
                    m.lock[k] -= 1
                trace.append(("unlock", path[-1][1]))
                C.observe("unlocks")
        else:
            n = rng.choice([1, 1, 2, 3, 5, 8, 10 ** 6])
            trace.append(("evict", n))
            before = dict(m.val)
            byslot = {x: k for k, v in m.val.items() for x in v}
            unlocked = (len(before) - m.nlocked()) * page
            pool.freed_log.clear()
            res = cache.evict(n)
            gone = []
            for grp in pool.freed_log:
                ks = []
                for x in grp:
                    k = byslot.get(x)
                    if k is None:
                        raise Bad(f"{cname}:evict-foreign", f"eviction freed slot {x} which no cached token holds")
                    if m.lock.get(k, 0) > 0:
                        raise Bad(f"{cname}:evict-locked", f"eviction freed the slot of a locked entry {k}")
                    if k not in ks:
                        ks.append(k)
                gone.append(ks)
            flat = [k for g in gone for k in g]
            nfreed = sum(len(g) for g in pool.freed_log)
            if nfreed != len(flat) * page or len(set(flat)) != len(flat):
                raise Bad(f"{cname}:evict-partial-page", f"eviction freed {nfreed} slots of {len(flat)} pages of {page}")
            if res.full_evicted != nfreed:
                raise Bad(f"{cname}:evict-count", f"evict reported {res.full_evicted}, freed {nfreed}")
            if nfreed < min(n, unlocked):
                raise Bad(f"{cname}:evict-short", f"evict({n}) freed {nfreed} although {unlocked} unlocked tokens were cached; trace={trace[-8:]}")
            if gone and nfreed - len(gone[-1]) * page >= n:
                raise Bad(f"{cname}:evict-excess", f"evict({n}) freed {nfreed}, the last {len(gone[-1]) * page} needlessly")
            for k in flat:
                del m.val[k]
            for k in m.val:
                if len(k[1]) > 1 and (k[0], k[1][:-1]) not in m.val:
                    raise Bad(f"{cname}:evict-orphan", f"eviction removed a prefix of the still cached {k}")
            # LRU order (conservative, see DESIGN)
            if gone and not swa:
                stats.add("evict")
                leaves = [k for k in m.val if m.lock.get(k, 0) == 0 and not m.children(k)]
                for E in (max(g, key=lambda k: len(k[1])) for g in gone):
                    for F in leaves:
                        if m.t_full[E] > max(m.t_any.get((F[0], F[1][:j]), -1) for j in range(len(F[1]), 0, -1)):
                            raise Bad(f"{cname}:evict-order", f"evicted {E} (used at op {m.t_full[E]}) before {F}, last used earlier; trace={trace[-12:]}")
            for k in flat:
                m.t_full.pop(k, None); m.t_any.pop(k, None); m.lock.pop(k, None)
            C.observe("evictions"); C.observe("evicted_tokens", nfreed)
        shadow_audit(cache, m, cname, page)
        held = {x for v in m.val.values() for x in v}
        if held != pool.live:
            raise Bad(f"{cname}:slot-ledger", f"slots held by cache {len(held)} vs allocated {len(pool.live)}: cache-only {sorted(held - pool.live)[:5]}, leaked {sorted(pool.live - held)[:5]}; trace={trace[-6:]}")
    # drain: everything unlocked must be evictable, locked must stay
    while locks:
        node, tok, path = locks.pop()
        cache.dec_lock_ref(node, tok)
        for k in path:
            m.lock[k] -= 1
    shadow_audit(cache, m, cname, page)
    cache.evict(10 ** 9)
    if pool.live:
        raise Bad(f"{cname}:drain", f"{len(pool.live)} slots still held after evicting everything")
    if cache.total_size() != 0 or cache.evictable_size() != 0 or cache.protected_size() != 0:
        raise Bad(f"{cname}:drain-size", "sizes are not zero after evicting everything")
    return stats, trace


class SwaPool(Pool):
    """Also records which slots lost their sliding-window KV."""
    def __init__(self):
        super().__init__()
        self.swa_log = []

    def free_swa(self, idx):
        l = [int(x) for x in idx.tolist()]
        self.swa_log.append(l)
        for x in l:
            if x not in self.live:
                raise Bad("swa:free-swa-foreign", f"window KV of slot {x} freed although the slot is not allocated")


def run_swa(rng, page, window, nops, alphabet, maxlen):
    """Sliding-window cache with the window KV of old tokens given up (tombstones).

    Reference: per page of a cached sequence its slots, whether its window KV is
    still there, and the locks.  A prefix may be handed out when its last
    `window` tokens still have their window KV, or when all of it has."""
    cn = f"swa{page}w"
    pool = SwaPool()
    cache = RadixCache(page, window, pool, None)
    val, tomb, lock = {}, {}, {}
    locks, trace, stats = [], [], set()
    syms = [tuple(rng.randrange(alphabet) for _ in range(page)) for _ in range(alphabet)] if page > 1 else [(t,) for t in range(alphabet)]

    def keyof():
        base = []
        if val and rng.random() < 0.75:
            base = list(rng.choice(list(val)))
            if rng.random() < 0.5:
                base = base[: rng.randint(0, len(base))]
        base += [rng.choice(syms) for _ in range(rng.randint(0 if base else 1, maxlen))]
        return tuple(base[: 2 * maxlen])

    def path(ps, n):
        return [ps[:i + 1] for i in range(n)]

    def longest(ps):
        n = 0
        while n < len(ps) and ps[:n + 1] in val:
            n += 1
        return n

    def usable(ps):
        """Length of the longest prefix that may be handed out."""
        best, run, full = 0, 0, True
        for i, k in enumerate(path(ps, longest(ps))):
            if tomb[k]:
                run, full = 0, False
            else:
                run += page
            if full or run >= window:
                best = i + 1
        return best

    def protected_window(path_):
        """Pages whose window KV a reader of this prefix needs."""
        out, n = [], 0
        for k in reversed(path_):
            if n >= window:
                break
            out.append(k)
            n += page
        return out

    def absorb_frees(where):
        """Apply what the cache freed to the reference; locked data must not go."""
        held = {k for _, _, pt in locks for k in pt}
        need = {k for _, _, pt in locks for k in protected_window(pt) if not tomb.get(k, True)}
        byslot = {x: k for k, v in val.items() for x in v}
        for grp in pool.swa_log:
            ks = {byslot.get(x) for x in grp}
            for k in ks:
                if k is None:
                    raise Bad(f"{cn}:free-swa-foreign", f"{where} gave up window KV of a slot no cached token holds; trace={trace[-8:]}")
                if tomb[k]:
                    raise Bad(f"{cn}:free-swa-twice", f"{where} gave up the window KV of {k} twice; trace={trace[-8:]}")
                if k in need:
                    raise Bad(f"{cn}:free-swa-locked", f"{where} gave up window KV that the holder of a locked prefix still reads ({k}); trace={trace[-8:]}")
                if not all(x in grp for x in val[k]):
                    raise Bad(f"{cn}:free-swa-partial", f"{where} gave up the window KV of a part of a page")
                tomb[k] = True
        nfull, nswa = 0, sum(len(g) for g in pool.swa_log)
        for grp in pool.freed_log:
            for x in grp:
                k = byslot.get(x)
                if k is None:
                    continue
                if k in held:
                    raise Bad(f"{cn}:freed-locked", f"{where} freed slot {x} of a locked prefix ({k}); trace={trace[-8:]}")
        return byslot, nfull, nswa

    def audit():
        toks = len(val) * page
        nl = sum(1 for k in val if lock.get(k, 0) > 0) * page
        live = sum(1 for k in val if not tomb[k]) * page
        if cache.total_size() != toks:
            raise Bad(f"{cn}:total-size", f"total_size {cache.total_size()}, {toks} cached; trace={trace[-8:]}")
        if (cache.protected_size(), cache.evictable_size()) != (nl, toks - nl):
            raise Bad(f"{cn}:sizes", f"protected/evictable {cache.protected_size()}/{cache.evictable_size()}, locked/unlocked are {nl}/{toks - nl}; trace={trace[-8:]}")
        if cache.swa_protected_size() + cache.swa_evictable_size() != live:
            raise Bad(f"{cn}:swa-sizes", f"swa protected+evictable {cache.swa_protected_size()}+{cache.swa_evictable_size()}, tokens with window KV {live}; trace={trace[-8:]}")
        need = {k for _, _, pt in locks for k in protected_window(pt) if not tomb[k]}
        if cache.swa_protected_size() < len(need) * page:
            raise Bad(f"{cn}:swa-protected", f"swa_protected_size {cache.swa_protected_size()}, readers need {len(need) * page} tokens; trace={trace[-8:]}")
        if not locks and cache.swa_protected_size():
            raise Bad(f"{cn}:swa-protected", f"swa_protected_size {cache.swa_protected_size()} with no lock held; trace={trace[-8:]}")
        held = {x for v in val.values() for x in v}
        if held != pool.live:
            raise Bad(f"{cn}:slot-ledger", f"cache-only {sorted(held - pool.live)[:5]}, leaked {sorted(pool.live - held)[:5]}; trace={trace[-8:]}")

    for op in range(nops):
        pool.freed_log.clear(); pool.swa_log.clear()
        r = rng.random()
        if r < 0.38:
            ps = keyof()
            n = len(ps) * page
            # the request: looks its prefix up, computes the rest, may have dropped the window KV of its oldest tokens
            own = usable(ps) if rng.random() < 0.5 else 0
            gone = rng.randint(0, max(0, n - window)) // page * page if rng.random() < 0.4 else 0
            have = longest(ps)
            vals = [x for k in path(ps, own) for x in val[k]] + pool.take(n - own * page)
            trace.append(("insert", ps, own, gone))
            res = cache.insert(RadixKey([t for p in ps for t in p]), torch.tensor(vals, dtype=torch.int64), prev_prefix_len=own * page, swa_evicted_seqlen=gone)
            if res.prefix_len != have * page:
                raise Bad(f"{cn}:insert-prefix-len", f"insert reported {res.prefix_len}, {have * page} tokens were cached; trace={trace[-8:]}")
            absorb_frees("insert")
            freed = [x for g in pool.freed_log for x in g]
            for i, k in enumerate(path(ps, len(ps))):
                mine = tuple(vals[i * page:(i + 1) * page])
                if i >= have:
                    val[k], tomb[k] = mine, i * page < gone
                    lock.setdefault(k, 0)
                elif i >= own:
                    old = val[k]
                    if all(x in freed for x in old) and not any(x in freed for x in mine):
                        if not tomb[k]:
                            raise Bad(f"{cn}:replaced-live", f"insert replaced the slots of {k}, whose window KV was there; trace={trace[-8:]}")
                        if i * page < gone:
                            raise Bad(f"{cn}:revived-stale", f"insert revived {k} with slots whose window KV is gone; trace={trace[-8:]}")
                        val[k], tomb[k] = mine, False
                        stats.add("revive")
                    elif not (all(x in freed for x in mine) and not any(x in freed for x in old)):
                        raise Bad(f"{cn}:insert-duplicate", f"insert of {ps}: of the stored and the new slots of {k} exactly one set has to be freed; trace={trace[-8:]}")
            C.observe("swa_inserts")
        elif r < 0.66:
            ps = keyof()
            trace.append(("match", ps))
            want = usable(ps)
            res = cache.match_prefix(RadixKey([t for p in ps for t in p]))
            got = [int(x) for x in res.indices.tolist()]
            exp = [x for k in path(ps, want) for x in val[k]]
            if got != exp or res.prefix_len != len(exp):
                raise Bad(f"{cn}:match", f"match of {ps} gave {len(got)} tokens (prefix_len {res.prefix_len}), the longest usable prefix has {len(exp)}, of {longest(ps) * page} cached; trace={trace[-8:]}")
            if want < longest(ps):
                stats.add("cut")
            C.observe("swa_matches")
            if want and rng.random() < 0.5:
                tok = cache.inc_lock_ref(res.last_node)
                pt = path(ps, want)
                for k in pt:
                    lock[k] = lock.get(k, 0) + 1
                locks.append((res.last_node, tok, pt))
                trace.append(("lock", pt[-1]))
                C.observe("swa_locks")
        elif r < 0.78:
            if locks:
                node, tok, pt = locks.pop(rng.randrange(len(locks)))
                cache.dec_lock_ref(node, tok)
                for k in pt:
                    lock[k] -= 1
                trace.append(("unlock", pt[-1]))
        else:
            nf = rng.choice([0, 0, 0, 1, 3, 10 ** 6]) if rng.random() < 0.5 else 0
            ns = rng.choice([1, 2, 4, 8, 10 ** 6]) if nf == 0 or rng.random() < 0.4 else 0
            trace.append(("evict", nf, ns))
            unlocked = sum(1 for k in val if not lock.get(k, 0)) * page
            sev = cache.swa_evictable_size()
            live0 = sum(1 for k in val if not tomb[k]) * page
            res = cache.evict(nf, ns)
            byslot, _, nswa = absorb_frees("evict")
            freed = [x for g in pool.freed_log for x in g]
            for x in freed:
                if x not in byslot:
                    raise Bad(f"{cn}:evict-foreign", f"evict freed slot {x}, which no cached token holds; trace={trace[-8:]}")
            gone = {byslot[x] for x in freed}
            if len(gone) * page != len(freed):
                raise Bad(f"{cn}:evict-partial", f"evict freed a part of a page; trace={trace[-8:]}")
            for k in gone:
                del val[k]; tomb.pop(k); lock.pop(k, None)
            for k in val:
                if len(k) > 1 and k[:-1] not in val:
                    raise Bad(f"{cn}:evict-orphan", f"evict removed a prefix of the still cached {k}; trace={trace[-8:]}")
            nlive = live0 - sum(1 for k in val if not tomb[k]) * page
            if res.full_evicted != len(freed) or res.swa_evicted != nlive:
                raise Bad(f"{cn}:evict-count", f"evict({nf},{ns}) reported {res.full_evicted}/{res.swa_evicted}, gave up {len(freed)}/{nlive}; trace={trace[-8:]}")
            if len(freed) < min(nf, unlocked):
                raise Bad(f"{cn}:evict-short", f"evict({nf}) freed {len(freed)} although {unlocked} unlocked tokens were cached; trace={trace[-8:]}")
            if nlive < min(ns, sev):
                raise Bad(f"{cn}:evict-swa-short", f"evict(swa {ns}) gave up window KV of {nlive} tokens although {sev} were reported evictable; trace={trace[-8:]}")
            if nswa:
                stats.add("tombstone")
            C.observe("swa_tombstoned_tokens", nswa)
        audit()
    while locks:
        node, tok, pt = locks.pop()
        cache.dec_lock_ref(node, tok)
        for k in pt:
            lock[k] -= 1
        audit()
    cache.evict(10 ** 9)
    if pool.live or cache.total_size() or cache.evictable_size() or cache.swa_evictable_size():
        raise Bad(f"{cn}:drain", f"{len(pool.live)} slots held, sizes {cache.total_size()}/{cache.evictable_size()}/{cache.swa_evictable_size()} after evicting everything; trace={trace[-8:]}")
    return stats, trace


def hash_check(rng):
    """Per-page hashes of a cached node are those of the whole prefix, whatever was asked first."""
    page = rng.choice([1, 2])
    cache = RadixCache(page_size=page)
    seqs = []
    for _ in range(rng.randint(2, 6)):
        base = list(rng.choice(seqs)) if seqs and rng.random() < 0.7 else []
        base = base[: rng.randrange(0, len(base) + 1) // page * page] + [rng.randrange(4) for _ in range(2 * rng.randint(1, 3))]
        seqs.append(base)
        cache.insert(RadixKey(list(base)))
        if rng.random() < 0.4:
            s = rng.choice(seqs)
            cache.compute_node_hash(cache.match_prefix(RadixKey(list(s))).last_node)
    rng.shuffle(seqs)
    for s in seqs:
        cut = rng.randint(1, len(s)) // page * page
        if not cut:
            continue
        r = cache.match_prefix(RadixKey(list(s[:cut])))
        node = r.last_node
        got = cache.compute_node_hash(node)
        chain, h = [], None
        for i in range(0, cut, page):
            h = hash_token_ids(s[i:i + page], prior_hash=h)
            chain.append(h)
        if got != chain[len(chain) - len(got):]:
            raise Bad("hash-chain", f"node hash of prefix {s[:cut]} does not identify the whole prefix (page {page})")
        C.observe("hashes")


def main():
    N = vlib.scale(4000, 60000)
    S = vlib.seed()
    kinds = [("radix", lambda p, ev: RadixCache(1, None, p, ev.append), 1),
             ("radix-page2", lambda p, ev: RadixCache(2, None, p, ev.append), 2),
             ("mamba", lambda p, ev: MambaRadixCache(1, p, None, ev.append), 1),
             ("radix-page4", lambda p, ev: RadixCache(4, None, p, ev.append), 4),
             ("mamba-page2", lambda p, ev: MambaRadixCache(2, p, None, ev.append), 2),
             ("swa", lambda p, ev: RadixCache(1, 4, p, ev.append), 1),
             ("swa-page2", lambda p, ev: RadixCache(2, 4, p, ev.append), 2)]
    for i in range(N):
        rng = random.Random(S * 1000003 + i)
        cname, mk, page = kinds[i % len(kinds)]
        cfg = dict(nops=rng.choice([12, 30, 60]), alphabet=rng.choice([2, 3, 5]), maxlen=rng.choice([4, 7, 12]),
                   extras=rng.choice([[None], [None, "a"], ["a", "b"], [None, ""], ["", "a"]]), page=page)
        try:
            st, tr = run(i, rng, mk, cname, **cfg)
            C.case((i, cname), nontrivial=bool(st & {"partial", "branch", "evict"}),
                   sample={"cache": cname, "cfg": cfg, "trace_head": tr[:8]} if i < 3 else None)
        except Bad as b:
            C.case((i, cname))
            C.violation(b.sig, b.msg, {"case": i, "kind": cname, "cfg": cfg, "seed": S})
        except Exception as e:
            C.case((i, cname))
            C.exception(e, cname, {"case": i, "cfg": cfg})
        if i % 2:
            cfg = dict(page=rng.choice([1, 1, 2, 3]), window=rng.choice([1, 2, 3, 4, 6]), nops=rng.choice([12, 30, 60]), alphabet=rng.choice([2, 2, 3]), maxlen=rng.choice([3, 5, 8]))
            try:
                st, tr = run_swa(rng, **cfg)
                C.case((i, "window"), nontrivial=bool(st & {"cut", "tombstone", "revive"}))
                for k in st:
                    C.observe("swa_histories_" + k)
            except Bad as b:
                C.case((i, "window"))
                C.violation(b.sig, b.msg, {"case": i, "cfg": cfg, "seed": S, "what": "window"})
            except Exception as e:
                C.case((i, "window"))
                C.exception(e, "window", {"case": i, "cfg": cfg})
        try:
            if i % 2 == 0:
                hash_check(rng)
        except Bad as b:
            C.violation(b.sig, b.msg, {"case": i, "seed": S})
        except Exception as e:
            C.exception(e, "hash", {"case": i})
    for k in ("swa_inserts", "swa_matches", "swa_locks", "swa_tombstoned_tokens", "swa_histories_cut", "swa_histories_revive", "unlocks", "inserts", "matches", "evicted_tokens", "locks", "resets"):
        C.require(k, 50)
    C.finish()


vlib.run_main(C, main)
