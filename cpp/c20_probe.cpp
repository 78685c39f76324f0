// What the Go harness asks of the service it drives.
#include <string>
#include "mllm/engine/service/Service.hpp"
#include "c20_scripted.hpp"
#include "c20_probe.h"
extern "C" long vh20_served(void) { return vh20::g_served.load(); }
extern "C" long vh20_active(void) { return vh20::g_active.load(); }
// After the service has stopped: how many requests have responses that nobody fetched.
extern "C" long vh20_leftover(char* which, long n) {
  long left = 0;
  std::lock_guard<std::mutex> lk(vh20::g_mtx);
  for (auto& [id, what] : vh20::g_ids) {
    if (id.empty()) continue;
    auto r = nlohmann::json::parse(mllm::service::getResponse(id));
    if (!r.contains("choices")) continue;
    left++;
    if (which && static_cast<long>(what.size()) < n) std::snprintf(which, n, "%s", what.c_str());
  }
  return left;
}
