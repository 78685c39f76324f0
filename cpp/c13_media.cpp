// C13: image and audio preprocessing. Reads cases (one JSON object a line), runs
// the real code and writes what it returned; the oracle is in checks/C13.py.
#include "mllm/mllm.hpp"
#include "vh.hpp"
#include <fstream>
#include <nlohmann/json.hpp>
#include "mllm/preprocessor/audio/Audio.hpp"
#include "mllm/preprocessor/visual/Image.hpp"
#include "mllm/preprocessor/visual/ImageTransform.hpp"
#include "mllm/models/qwen2vl/image_preprocessor_qwen2vl.hpp"
#include "mllm/models/minicpm_o2_6/image_preprocessor_minicpmo.hpp"
#include "mllm/models/minicpm_o2_6/audio_preprocessor_minicpmo.hpp"

using namespace mllm;
using J = nlohmann::json;

static std::string hex(const void* p, size_t n) {
  static const char* d = "0123456789abcdef";
  std::string r;
  for (size_t i = 0; i < n; ++i) { unsigned char c = ((const unsigned char*)p)[i]; r.push_back(d[c >> 4]); r.push_back(d[c & 15]); }
  return r;
}
static std::string unhex(const std::string& h) {
  std::string r;
  for (size_t i = 0; i + 1 < h.size(); i += 2) r.push_back((char)strtol(h.substr(i, 2).c_str(), nullptr, 16));
  return r;
}
static J pic(Image& m) { return J{{"w", m.w()}, {"h", m.h()}, {"c", m.c()}, {"px", hex(m.ptr(), (size_t)m.w() * m.h() * m.c())}}; }
static J ten(Tensor t) {
  // by stride: whatever layout it has
  J r;
  auto sh = t.shape();
  r["shape"] = sh;
  std::vector<float> v;
  std::vector<int32_t> ix(sh.size(), 0);
  for (size_t n = 0; n < t.numel(); ++n) {
    int64_t o = 0;
    for (size_t i = 0; i < sh.size(); ++i) o += (int64_t)ix[i] * t.stride()[i];
    v.push_back(t.ptr<float>()[o]);
    for (int i = (int)sh.size() - 1; i >= 0; --i) { if (++ix[i] < sh[i]) break; ix[i] = 0; }
  }
  r["v"] = hex(v.data(), v.size() * 4);
  return r;
}
static Image step(Image m, const J& s) {
  auto k = s[0].get<std::string>();
  if (k == "resize") return s.size() > 3 ? m.resize(s[1], s[2], s[3].get<std::string>()) : m.resize(s[1], s[2]);
  if (k == "crop") return m.crop(s[1], s[2], s[3], s[4]);
  if (k == "pad") return m.pad(s[1], s[2], (unsigned char)s[3].get<int>(), (unsigned char)s[4].get<int>(), (unsigned char)s[5].get<int>());
  if (k == "shorter") return Resize(s[1].get<int>()).apply(m);
  if (k == "hw") return Resize(s[1].get<int>(), s[2].get<int>()).apply(m);
  if (k == "center") return s.size() > 2 ? CenterCrop(s[1].get<int>(), s[2].get<int>()).apply(m) : CenterCrop(s[1].get<int>()).apply(m);
  if (k == "compose") {
    ComposeImageTransforms c;
    for (auto& x : s[1]) {
      if (x[0] == "shorter") c.add(std::make_shared<Resize>(x[1].get<int>()));
      else if (x[0] == "hw") c.add(std::make_shared<Resize>(x[1].get<int>(), x[2].get<int>()));
      else c.add(std::make_shared<CenterCrop>(x[1].get<int>(), x[2].get<int>()));
    }
    return c(m);
  }
  if (k == "save") { m.save(s[1].get<std::string>()); return m; }
  vh::harness_error("unknown step " + k);
  return m;
}
static J one(const J& c) {
  J r;
  auto op = c["op"].get<std::string>();
  if (op == "image") {
    Image m = Image::open(c["path"].get<std::string>());
    r["open"] = pic(m);
    Image cur = m;
    r["steps"] = J::array();
    for (auto& s : c["steps"]) { cur = step(cur, s); r["steps"].push_back(pic(cur)); }
    r["after"] = pic(m);  // the picture opened is untouched
    r["tensor"] = ten(cur.tensor());
    auto tt = ToTensor().apply(cur);
    r["chw"] = ten(tt);
  } else if (op == "basic") {
    Image m = Image::open(c["path"].get<std::string>());
    std::optional<int> sh, cc;
    std::optional<std::pair<int, int>> hw, chw;
    std::optional<std::vector<float>> mean, sd;
    if (c.contains("shorter")) sh = c["shorter"].get<int>();
    if (c.contains("hw")) hw = std::make_pair(c["hw"][0].get<int>(), c["hw"][1].get<int>());
    if (c.contains("center")) { chw = std::make_pair(c["center"][0].get<int>(), c["center"][1].get<int>()); cc = c["center"][0].get<int>(); }
    if (c.contains("mean")) { mean = c["mean"].get<std::vector<float>>(); sd = c["std"].get<std::vector<float>>(); }
    r["out"] = ten(c["square"].get<bool>() ? BasicImageTransform(sh, cc, mean, sd)(m) : BasicImageTransform(sh, hw, chw, mean, sd)(m));
    if (c.contains("shorter")) m = Resize(*sh).apply(m);
    if (c.contains("hw")) m = Resize(hw->first, hw->second).apply(m);
    if (c.contains("center")) m = CenterCrop(chw->first, chw->second).apply(m);
    r["img"] = pic(m);
  } else if (op == "normalize") {
    auto sh = c["shape"].get<std::vector<int32_t>>();
    auto v = unhex(c["v"].get<std::string>());
    Tensor t = Tensor::empty(sh, kFloat32, kCPU).alloc();
    memcpy(t.ptr<char>(), v.data(), v.size());
    Tensor in = t;
    if (c.contains("perm")) in = t.permute(c["perm"].get<std::vector<int32_t>>());
    if (c.contains("cut")) in = t[{kAll, {c["cut"][0].get<int>(), c["cut"][1].get<int>()}, kAll}];
    r["in"] = ten(in);
    auto nz = std::make_shared<Normalize>(c["mean"].get<std::vector<float>>(), c["std"].get<std::vector<float>>());
    if (c.contains("twice")) { ComposeTensorTransforms cc; cc.add(nz).add(nz); r["out"] = ten(cc(in)); }
    else r["out"] = ten(nz->apply(in));
    r["kept"] = memcmp(t.ptr<char>(), v.data(), v.size()) == 0;
  } else if (op == "refuse") {
    auto what = c["what"].get<std::string>();
    r["r"] = vh::in_child([&] {
      if (what == "open") Image::open(c["path"].get<std::string>());
      else if (what == "save") { Image m = Image::open(c["path"].get<std::string>()); m.save(c["to"].get<std::string>()); }
      else if (what == "step") { Image m = Image::open(c["path"].get<std::string>()); step(m, c["step"]); }
      else if (what == "wav") { auto x = audio::readWAV(c["path"].get<std::string>(), c["rate"].get<int>()); if (x.empty()) throw 1; }
      else if (what == "clips") audio::processWAV({c["path"].get<std::string>()});
    }, 20);
  } else if (op == "wav") {
    std::vector<float> v;
    auto st = vh::in_child([] {}, 5);
    v = audio::readWAV(c["path"].get<std::string>(), c["rate"].get<int>());
    r["v"] = hex(v.data(), v.size() * 4);
  } else if (op == "clips") {
    std::vector<std::string> ps;
    for (auto& p : c["paths"]) ps.push_back(p);
    auto o = audio::processWAV(ps);
    r["files"] = J::array();
    for (auto& f : o) {
      J cl = J::array();
      for (auto& x : f) {
        std::vector<float> flat;
        for (auto& row : x) flat.insert(flat.end(), row.begin(), row.end());
        cl.push_back(J{{"rows", x.size()}, {"cols", x.empty() ? 0 : x[0].size()}, {"v", hex(flat.data(), flat.size() * 4)}});
      }
      r["files"].push_back(cl);
    }
  } else if (op == "smart") {
    models::qwen2vl::Qwen2VLImagePreprocessor p;
    for (auto& q : c["sizes"]) { auto [h, w] = p.smartResize(q[0], q[1], q[2], q[3], q[4]); r["r"].push_back({h, w}); }
  } else if (op == "qwen") {
    models::qwen2vl::Qwen2VLImagePreprocessor p(c["min"], c["max"]);
    auto [a, g] = p(c["path"].get<std::string>());
    r["patches"] = ten(a);
    r["grid"] = {g.ptr<int>()[0], g.ptr<int>()[1], g.ptr<int>()[2]};
    Image m = Image::open(c["path"].get<std::string>());
    m = m.resize(g.ptr<int>()[2] * 14, g.ptr<int>()[1] * 14);
    r["img"] = pic(m);
  } else if (op == "slices") {
    models::minicpmo::ImageSliceProcessor p(c["max"], c["res"], c["patch"]);
    for (auto& q : c["sizes"]) {
      int w = q[0], h = q[1];
      auto g = p.get_sliced_grid(w, h, q[2]);
      auto b = p.find_best_resize(w, h), bu = p.find_best_resize(w, h, true);
      J o{{"grid", g}, {"best", {b.first, b.second}}, {"up", {bu.first, bu.second}}};
      if (!g.empty()) { auto f = p.get_refine_size(w, h, g); o["refine"] = {f.first, f.second}; }
      r["r"].push_back(o);
    }
  } else if (op == "slice_image") {
    models::minicpmo::ImageSliceProcessor p(c["max"], c["res"], c["patch"]);
    Image m = Image::open(c["path"].get<std::string>());
    auto [src, patches, grid] = p.slice_image(m);
    r["src"] = pic(src);
    r["grid"] = grid;
    if (!grid.empty()) {
      auto f = p.get_refine_size(m.w(), m.h(), grid);
      auto ref = m.resize(f.first, f.second);
      r["refined"] = pic(ref);
      for (auto& row : patches) { J jr = J::array(); for (auto& x : row) { auto y = x; jr.push_back(pic(y)); } r["patches"].push_back(jr); }
    }
  } else if (op == "mel") {
    r["win"] = ten(models::minicpmo::create_hann_window(c["n"], c["periodic"].get<bool>()));
    r["bank"] = ten(models::minicpmo::create_mel_filterbank(c["bins"], c["mels"], c["lo"], c["hi"], c["rate"]));
  } else vh::harness_error("unknown op " + op);
  return r;
}

int main(int, char** argv) {
  mllm::initializeContext();
  std::ifstream in(argv[1]);
  std::ofstream out(argv[2]);
  std::string line;
  int i = 0;
  while (std::getline(in, line)) {
    J c = J::parse(line);
    vh::begin(c["op"].get<std::string>() + " " + std::to_string(i++) + " " + line.substr(0, 200));
    J r;
    try { r = one(c); } catch (const std::exception& e) { r = J(); r["exception"] = std::string(e.what()).substr(0, 200); }
    out << r.dump(-1, ' ', false, J::error_handler_t::replace) << "\n";
    out.flush();
  }
  return vh::finish();
}
