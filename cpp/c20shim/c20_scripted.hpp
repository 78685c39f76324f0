// Sessions that do as the request tells them (its field "vh"), instead of models.
#pragma once
#include <chrono>
#include <filesystem>
#include <fstream>
#include <atomic>
#include <map>
#include <mutex>
#include <stdexcept>
#include <thread>
#include "mllm/engine/service/Session.hpp"
namespace vh20 {
inline std::atomic<long> g_served{0};
inline std::atomic<long> g_active{0};
inline std::mutex g_mtx;
inline std::map<std::string, std::string> g_ids;  // The engine's request id, and what the request was for
class Scripted : public ::mllm::service::Session {
 public:
  void fromPreTrain(const std::string& p) override {
    if (p.find("broken") != std::string::npos) throw std::runtime_error("no such model");
    name_ = p;
  }
  void streamGenerate(const nlohmann::json& request, const std::function<void(const nlohmann::json&, bool)>& callback) override {
    struct Count {
      Count() { g_active++; }
      ~Count() {
        g_active--;
        g_served++;
      }
    } count;
    auto vh = request.value("vh", nlohmann::json::object());
    {
      std::lock_guard<std::mutex> lk(g_mtx);
      g_ids[request.value("id", "")] = vh.value("what", "");
    }
    if (vh.value("echo", false)) {
      nlohmann::json e = request;
      nlohmann::json files = nlohmann::json::array();
      if (request.contains("messages") && request["messages"].is_array()) {
        for (auto& m : request["messages"]) {
          if (!m.is_object() || !m.contains("images") || !m["images"].is_array()) continue;
          for (auto& p : m["images"]) {
            nlohmann::json f;
            f["path"] = p;
            std::string text;
            if (p.is_string()) {
              std::ifstream in(p.get<std::string>(), std::ios::binary);
              f["open"] = in.good();
              static const char* hex = "0123456789abcdef";
              char ch;
              while (in.get(ch)) {
                text += hex[(ch >> 4) & 15];
                text += hex[ch & 15];
              }
            }
            f["hex"] = text;
            files.push_back(f);
          }
        }
      }
      callback(nlohmann::json{{"request", e}, {"files", files}, {"session", name_}}.dump(), false);
    }
    auto tokens = vh.value("tokens", std::vector<std::string>{});
    int throw_at = vh.value("throw_at", -1), delay = vh.value("delay_us", 0), i = 0;
    for (auto& t : tokens) {
      if (i++ == throw_at) throw std::runtime_error("scripted");
      if (delay) std::this_thread::sleep_for(std::chrono::microseconds(delay));
      callback(t, false);
    }
    if (throw_at == static_cast<int>(tokens.size())) throw std::runtime_error("scripted");
    if (!vh.value("no_last", false)) callback(vh.value("last", ""), true);
  }

 private:
  std::string name_;
};
}  // namespace vh20
