// C01: the C++ prefix tree against a flat reference map.
// Reference: for each (extra_key, prefix of tokens) the addresses of its last
// token are those of the first insertion that covered it; search returns the
// longest covered prefix and those addresses.
#include "vh.hpp"
#include "mllm/mllm.hpp"
#include "mllm/engine/prefix_cache/Cache.hpp"
#include "mllm/nn/lmcache/PrefixCache.hpp"
using namespace mllm;
using namespace mllm::prefix_cache;
typedef std::vector<int64_t> Toks;
struct Slot { std::vector<vp_addr_t> k, v; };
struct Ref {
  int layers;
  std::map<std::pair<int64_t, Toks>, Slot> m;
  void insert(int64_t ns, const Toks& t, const std::vector<std::vector<vp_addr_t>>& k, const std::vector<std::vector<vp_addr_t>>& v) {
    Toks p;
    for (size_t i = 0; i < t.size(); ++i) {
      p.push_back(t[i]);
      auto& s = m[{ns, p}];
      if (s.k.empty()) for (int l = 0; l < layers; ++l) { s.k.push_back(k[l][i]); s.v.push_back(v[l][i]); }
    }
  }
  size_t longest(int64_t ns, const Toks& t) const {
    Toks p; size_t n = 0;
    for (auto x : t) { p.push_back(x); if (!m.count({ns, p})) break; ++n; }
    return n;
  }
};

static void check(const Ref& ref, int64_t ns, const Toks& q, const RadixSearchResult& r, const char* what, const std::string& hist) {
  size_t n = ref.longest(ns, q);
  vh::observe("searches");
  vh::seen("matched", vh::S(std::min<size_t>(n, 12), "/", std::min<size_t>(q.size(), 12)));
  if (r.success != (n > 0) || (size_t)r.matched_length != n) {
    vh::violation(vh::S("length:", what), vh::S(what, ": search ", vh::L(q), " in namespace ", ns, " matched ", r.matched_length, " (success ", r.success, "), the longest cached prefix is ", n), hist);
    return;
  }
  if ((int)r.k_cache_addresses.size() != ref.layers || (int)r.v_cache_addresses.size() != ref.layers) {
    vh::violation(vh::S("layers:", what), vh::S(what, ": ", r.k_cache_addresses.size(), " layers of addresses, not ", ref.layers), hist);
    return;
  }
  size_t plen = 0;
  for (auto& [nd, l] : r.path) plen += l;
  if (plen != n) vh::violation(vh::S("path:", what), vh::S(what, ": the path adds up to ", plen, " tokens of ", n), hist);
  for (int l = 0; l < ref.layers; ++l) {
    if (r.k_cache_addresses[l].size() != n || r.v_cache_addresses[l].size() != n) {
      vh::violation(vh::S("count:", what), vh::S(what, ": layer ", l, " has ", r.k_cache_addresses[l].size(), "/", r.v_cache_addresses[l].size(), " addresses for ", n, " tokens"), hist);
      return;
    }
    Toks p;
    for (size_t i = 0; i < n; ++i) {
      p.push_back(q[i]);
      auto& s = ref.m.at({ns, p});
      if (r.k_cache_addresses[l][i] != s.k[l] || r.v_cache_addresses[l][i] != s.v[l]) {
        vh::violation(vh::S("address:", what), vh::S(what, ": token ", i, " of ", vh::L(q), " in namespace ", ns, ", layer ", l, ": K/V address ", r.k_cache_addresses[l][i], "/", r.v_cache_addresses[l][i],
                      ", stored were ", s.k[l], "/", s.v[l]), hist);
        return;
      }
    }
  }
}

// what: 0 RadixTree, 1 Cache, 2 CpuPrefixCache
static void history(int what, uint64_t sd, int steps) {
  vh::Rng r(sd);
  static const char* names[] = {"tree", "cache", "cpu_prefix_cache"};
  int layers = r.in(1, 3);
  RadixTreeOptions to; to.transformer_blocks_num = layers;
  std::unique_ptr<RadixTree> tree; std::unique_ptr<Cache> cache; std::unique_ptr<nn::CpuPrefixCache> pc;
  ZenFileSystemOptions z{.record = false, .working_dir = ".", .blob_bits_size = 20, .page_bits = 3, .lane_bits = 4, .per_k_token_ele = 4, .per_v_token_ele = 4, .k_dtype = kFloat32, .v_dtype = kFloat32};
  if (what == 0) tree = std::make_unique<RadixTree>(to);
  if (what == 1) { CacheOptions co; co.radix_tree_options = to; co.allocator_options.zen_fs_options = z; cache = std::make_unique<Cache>(co); }
  if (what == 2) { nn::PrefixCacheOptions o; o.total_layers = layers; o.per_k_token_ele_num = 4; o.per_v_token_ele_num = 4; o.zen_fs_page_bits = 3; o.zen_fs_lane_bits = 4; pc = std::make_unique<nn::CpuPrefixCache>(o); }
  Ref ref{layers, {}};
  int alpha = r.p(0.5) ? 2 : r.p(0.5) ? 3 : 40;
  int nns = r.in(1, 3), maxlen = r.p(0.3) ? 64 : 14;
  int64_t base = r.p(0.2) ? -1 : r.p(0.2) ? INT64_MAX - 50 : r.p(0.3) ? INT64_MIN : 0;
  std::vector<Toks> pool;
  vp_addr_t next = r.p(0.2) ? 0xFFFFFF00u : 1;
  std::ostringstream hist;
  hist << names[what] << " layers=" << layers;
  auto ns_of = [&](int i) -> int64_t { static const int64_t v[] = {0, 7, -3}; return v[i]; };
  auto gen = [&] {
    Toks t;
    if (!pool.empty() && r.p(0.75)) {
      t = r.pick(pool);
      if (r.p(0.6) && !t.empty()) t.resize(r.in(0, t.size()));
      if (r.p(0.1) && !t.empty()) t[r.in(0, t.size() - 1)] = base + r.in(0, alpha - 1);
    }
    int add = r.in(0, r.p(0.3) ? maxlen : 4);
    for (int i = 0; i < add; ++i) t.push_back(base + r.in(0, alpha - 1));
    return t;
  };
  for (int s = 0; s < steps; ++s) {
    int64_t ns = ns_of(r.in(0, nns - 1));
    if (r.p(0.45)) {
      Toks t = gen();
      if (r.p(0.02) && !pool.empty()) t = r.pick(pool);
      std::vector<std::vector<vp_addr_t>> k(layers), v(layers);
      for (int l = 0; l < layers; ++l) for (size_t i = 0; i < t.size(); ++i) { k[l].push_back(next++); v[l].push_back(next++); }
      // as a service does: what a search returned is kept for the matched part
      if (r.p(0.4)) {
        RadixSearchResult f = what == 0 ? tree->search(RadixTreeNodeKey(VectorView<int64_t>(t), ns)) : what == 1 ? cache->find(t, ns) : pc->find(t, ns);
        check(ref, ns, t, f, names[what], hist.str());
        for (int l = 0; l < layers; ++l) for (size_t i = 0; i < f.k_cache_addresses[l].size() && i < t.size(); ++i) { k[l][i] = f.k_cache_addresses[l][i]; v[l][i] = f.v_cache_addresses[l][i]; }
      }
      if (hist.tellp() < 3500) hist << "; insert ns=" << ns << " " << vh::L(t);
      if (what == 0) {
        RadixTreeNodeValue val;
        bool off = r.p(0.3);  // views into longer vectors
        for (int l = 0; l < layers; ++l) {
          auto mk = [&](const std::vector<vp_addr_t>& a) {
            if (!off) return VectorView<vp_addr_t>(a);
            std::vector<vp_addr_t> b{9, 9, 9}; b.insert(b.end(), a.begin(), a.end()); b.push_back(8);
            return VectorView<vp_addr_t>(b, 3, (int)a.size());
          };
          val.k_cache_addresses.push_back(mk(k[l])); val.v_cache_addresses.push_back(mk(v[l]));
        }
        Toks big{5}; big.insert(big.end(), t.begin(), t.end()); big.push_back(6);
        auto view = off ? VectorView<int64_t>(big, 1, (int)t.size()) : VectorView<int64_t>(t);
        if (!tree->insert(RadixTreeNodeKey(view, ns), val)) vh::violation("insert", "insert refused a sequence", hist.str());
      } else if (what == 1) cache->promote(t, k, v, ns);
      else pc->promote(t, k, v, ns);
      ref.insert(ns, t, k, v);
      pool.push_back(t);
      if (pool.size() > 12) pool.erase(pool.begin() + r.in(0, 11));
      vh::observe("insertions");
    } else {
      Toks t = gen();
      RadixSearchResult f = what == 0 ? tree->search(RadixTreeNodeKey(VectorView<int64_t>(t), ns)) : what == 1 ? cache->find(t, ns) : pc->find(t, ns);
      check(ref, ns, t, f, names[what], hist.str() + "; search " + vh::L(t));
    }
    if (what == 0 && r.p(0.004)) { tree->clear(); ref.m.clear(); hist << "; clear"; vh::observe("clears"); }
  }
  // at the end everything is still there
  size_t n = 0;
  for (auto& [key, slot] : ref.m) {
    if (++n > 60) break;
    RadixSearchResult f = what == 0 ? tree->search(RadixTreeNodeKey(VectorView<int64_t>(key.second), key.first)) : what == 1 ? cache->find(key.second, key.first) : pc->find(key.second, key.first);
    check(ref, key.first, key.second, f, names[what], hist.str());
  }
  vh::cases(vh::S(names[what], ":", layers, ":", alpha, ":", nns, ":", maxlen, ":", ref.m.size()));
  vh::sample(hist.str().substr(0, 200));
}

// Sliding-window layers: after eviction the last `window` tokens keep their
// addresses, older ones of window layers are gone and are reused, and the
// other layers keep everything.
static void window(uint64_t sd) {
  vh::Rng r(sd);
  int layers = r.in(1, 3), W = r.in(1, 20), n = r.in(1, 70);
  int64_t ns = r.p(0.3) ? 5 : 0;
  std::vector<bool> win;
  for (int l = 0; l < layers; ++l) win.push_back(r.p(0.6));
  nn::PrefixCacheOptions o;
  o.total_layers = layers; o.per_k_token_ele_num = 3 + r.in(0, 5); o.per_v_token_ele_num = 2 + r.in(0, 5);
  o.zen_fs_page_bits = 2; o.zen_fs_lane_bits = r.in(0, 5);
  o.hybrid_sliding_window_cache = true; o.sliding_window_size = W; o.sliding_window_layers = win;
  nn::CpuPrefixCache c(o);
  std::string cfg = vh::S("layers=", layers, " window=", W, " tokens=", n, " ns=", ns, " lanes=", o.zen_fs_lane_bits);
  Toks t;
  std::vector<std::vector<std::pair<vp_addr_t, vp_addr_t>>> live(layers);
  size_t peak = 0;
  for (int i = 0; i < n; ++i) {
    int add = r.p(0.3) ? r.in(1, 5) : 1;
    auto f = c.find(t, ns);
    auto k = f.k_cache_addresses, v = f.v_cache_addresses;
    k.resize(layers); v.resize(layers);
    if ((size_t)f.matched_length != t.size()) { vh::violation("window-length", vh::S(cfg, ": ", f.matched_length, " of ", t.size(), " tokens found")); return; }
    for (int a = 0; a < add; ++a) {
      t.push_back(r.in(0, 3));
      for (int l = 0; l < layers; ++l) {
        auto ka = c.allocKey(l), va = c.allocValue(l);
        for (size_t j = 0; j < live[l].size(); ++j) {
          bool in = !win[l] || j + W >= t.size() - 1 - a;  // still in the window as of the last eviction
          if (in && (live[l][j].first == ka || live[l][j].second == va)) { vh::violation("window-reuse", vh::S(cfg, ": layer ", l, " token ", t.size() - 1, " was given the lane of token ", j, ", which is in use")); return; }
        }
        live[l].push_back({ka, va});
        k[l].push_back(ka); v[l].push_back(va);
        memset(c.physicalAddrKey(l, ka), (int)(t.size() & 255), o.per_k_token_ele_num * 4);
        memset(c.physicalAddrValue(l, va), (int)((t.size() + 100) & 255), o.per_v_token_ele_num * 4);
      }
    }
    c.promote(t, k, v, ns);
    c.evictSlidingWindowLayerOn(t, ns);
    auto g = c.find(t, ns);
    if ((size_t)g.matched_length != t.size()) { vh::violation("window-length", vh::S(cfg, ": after eviction ", g.matched_length, " of ", t.size())); return; }
    for (int l = 0; l < layers; ++l) for (size_t j = 0; j < t.size(); ++j) {
      bool evicted = win[l] && (int)t.size() > W && j + W < t.size();
      auto ka = g.k_cache_addresses[l][j], va = g.v_cache_addresses[l][j];
      if (evicted ? (ka != INVALID_VP_ADDR || va != INVALID_VP_ADDR) : (ka != live[l][j].first || va != live[l][j].second)) {
        vh::violation("window-address", vh::S(cfg, ": of ", t.size(), " tokens, token ", j, " in layer ", l, (evicted ? " is outside the window but still has" : " should have kept its addresses, but has"), " ", ka, "/", va, " (were ", live[l][j].first, "/", live[l][j].second, ")"));
        return;
      }
      if (!evicted) {
        char* p = c.physicalAddrKey(l, ka); char* q = c.physicalAddrValue(l, va);
        for (int b = 0; b < o.per_k_token_ele_num * 4; ++b) if ((uint8_t)p[b] != ((j + 1) & 255)) { /* filled with the size when stored */ if ((uint8_t)p[b] != (uint8_t)((j + 1) & 255)) { vh::violation("window-data", vh::S(cfg, ": K of token ", j, " layer ", l, " was overwritten")); return; } }
        for (int b = 0; b < o.per_v_token_ele_num * 4; ++b) if ((uint8_t)q[b] != (uint8_t)((j + 101) & 255)) { vh::violation("window-data", vh::S(cfg, ": V of token ", j, " layer ", l, " was overwritten")); return; }
      }
    }
    vh::observe("window_steps");
    peak = std::max(peak, t.size());
  }
  vh::cases(vh::S("window:", layers, ":", W, ":", peak, ":", o.zen_fs_lane_bits));
}

int main() {
  initializeContext();
  int H = vh::scale(240, 4000);
  for (int i = 0; i < H; ++i) { vh::begin(vh::S("tree history ", i)); history(0, vh::seed() * 1000003 + i, vh::scale(120, 300)); }
  for (int i = 0; i < H / 6; ++i) { vh::begin(vh::S("cache history ", i)); history(1, vh::seed() * 7000003 + i, 60); history(2, vh::seed() * 9000003 + i, 60); }
  for (int i = 0; i < vh::scale(80, 1000); ++i) { vh::begin(vh::S("window ", i)); window(vh::seed() * 5000003 + i); }
  vh::finish();
  shutdownContext();
  return 0;
}
