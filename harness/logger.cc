// L01: Logger.
#include "rst/logger/logger.h"

#include <limits>
#include <memory>
#include <string>
#include <string_view>

#include "rst/memory/memory.h"
#include "vf.h"

namespace {

int g_sent;
std::string g_text;
int g_other;

const char kAborts[] = "logging a message aborts before the message was sent";

class Recorder final : public rst::Sink {
 public:
  explicit Recorder(int* const counter, const bool fatal)
      : counter_(counter), fatal_(fatal) {}

  void Log(const std::string_view message) override {
    (*counter_)++;
    g_text = std::string(message);
    if (fatal_)
      vf_may_abort();
  }

 private:
  int* const counter_;
  const bool fatal_;
};

using Level = rst::Logger::Level;

const char* Label(const Level level) {
  if (level == Level::kDebug)
    return "DEBUG";
  if (level == Level::kInfo)
    return "INFO";
  if (level == Level::kWarning)
    return "WARNING";
  if (level == Level::kError)
    return "ERROR";
  return "FATAL";
}

// Everything but fatal messages, at any threshold.
void Logs(const Level level) {
  g_sent = g_other = 0;
  g_text.clear();
  const int threshold = vf_int();
  vf_assume(threshold >= 0 && threshold <= static_cast<int>(Level::kOff));
  const std::string file = vf_string();
  const std::string message = vf_string();
  const int line = vf_int();
  vf_assume(line > 0);
  vf_no_abort("logging a message that is not fatal aborts");
  rst::Logger other(std::make_unique<Recorder>(&g_other, false));
  rst::Logger::SetGlobalLogger(&other);
  rst::Logger logger(std::make_unique<Recorder>(&g_sent, false));
  rst::Logger::SetGlobalLogger(&logger);
  logger.set_level(static_cast<Level>(threshold));
  rst::Logger::Log(level, file.c_str(), line, message);
  vf_assert(g_other == 0, "only the logger set last is used");
  if (static_cast<int>(level) < threshold) {
    vf_assert(g_sent == 0, "a message below the level is not sent");
    vf_reach("below");
  } else {
    vf_assert(g_sent == 1, "a message at or above the level is sent once");
    std::string expected("[");
    expected.append(Label(level)).append(":").append(file).append("(");
    expected.append(std::to_string(line)).append(")] ").append(message);
    vf_assert(g_text == expected, "a message carries its label, file name, line and text");
    vf_reach("sent");
  }
}

}  // namespace

void L01_debug() { Logs(Level::kDebug); }
void L01_info() { Logs(Level::kInfo); }
void L01_warning() { Logs(Level::kWarning); }
void L01_error() { Logs(Level::kError); }

void L01_fatal() {
  g_sent = g_other = 0;
  g_text.clear();
  const int threshold = vf_int();
  vf_assume(threshold >= 0 && threshold <= static_cast<int>(Level::kFatal));
  const std::string message = vf_string();
  const int line = vf_int();
  vf_assume(line > 0);
  vf_no_abort(kAborts);
  rst::Logger logger(std::make_unique<Recorder>(&g_sent, true));
  rst::Logger::SetGlobalLogger(&logger);
  logger.set_level(static_cast<Level>(threshold));
  rst::Logger::Log(Level::kFatal, "f", line, message);
  vf_unreachable("logging a fatal message returns");
}

// With the logger switched off not even a fatal message is sent.
void L01_off() {
  g_sent = 0;
  const std::string message = vf_string();
  const int line = vf_int();
  vf_assume(line > 0);
  vf_may_abort();
  class Silent final : public rst::Sink {
   public:
    void Log(std::string_view) override { vf_unreachable("a message below the level is sent"); }
  };
  rst::Logger logger(std::make_unique<Silent>());
  rst::Logger::SetGlobalLogger(&logger);
  logger.set_level(Level::kOff);
  rst::Logger::Log(Level::kFatal, "f", line, message);
  vf_reach("end");
}

void L01_default_level() {
  g_sent = 0;
  vf_no_abort("logging a message that is not fatal aborts");
  rst::Logger logger(std::make_unique<Recorder>(&g_sent, false));
  rst::Logger::SetGlobalLogger(&logger);
  RST_LOG_DEBUG("x");
  vf_assert(g_sent == 1, "by default every message is sent");
  vf_assert(g_text.find("[DEBUG:") == 0, "RST_LOG_DEBUG logs at its level");
  RST_LOG_INFO("x");
  vf_assert(g_sent == 2 && g_text.find("[INFO:") == 0, "RST_LOG_INFO logs at its level");
  RST_LOG_WARNING("x");
  vf_assert(g_sent == 3 && g_text.find("[WARNING:") == 0, "RST_LOG_WARNING logs at its level");
  RST_LOG_ERROR("x");
  vf_assert(g_sent == 4 && g_text.find("[ERROR:") == 0, "RST_LOG_ERROR logs at its level");
  vf_reach("all");
}

void L01_macro_fatal() {
  g_sent = 0;
  vf_no_abort(kAborts);
  rst::Logger logger(std::make_unique<Recorder>(&g_sent, true));
  rst::Logger::SetGlobalLogger(&logger);
  RST_LOG_FATAL("x");
  vf_unreachable("logging a fatal message returns");
}

void L01_debug_macros() {
  g_sent = 0;
  vf_no_abort("logging a message that is not fatal aborts");
  rst::Logger logger(std::make_unique<Recorder>(&g_sent, false));
  rst::Logger::SetGlobalLogger(&logger);
  RST_DLOG_DEBUG("x");
  RST_DLOG_INFO("x");
  RST_DLOG_WARNING("x");
  RST_DLOG_ERROR("x");
#if defined(NDEBUG)
  vf_assert(g_sent == 0, "debug logging is off in release builds");
#else
  vf_assert(g_sent == 4, "debug logging is on in debug builds");
#endif
  vf_reach("all");
}

// After any number of messages, sent or not, the next one is sent.
void L01_many() {
  g_sent = 0;
  const bool below = vf_bool();
  vf_no_abort("logging a message that is not fatal aborts");
  rst::Logger logger(std::make_unique<Recorder>(&g_sent, false));
  rst::Logger::SetGlobalLogger(&logger);
  logger.set_level(Level::kWarning);
  for (int i = 0; i < 3; i++) {
    vf_mark();
    rst::Logger::Log(below ? Level::kInfo : Level::kError, "f", 1, "x");
  }
  vf_again();
  const int n = g_sent;
  vf_assert(n == (below ? 0 : 3), "a message at or above the level is sent once");
  rst::Logger::Log(Level::kError, "f", 1, "x");
  rst::Logger::Log(Level::kError, "f", 1, "x");
  vf_assert(g_sent == n + 2, "after many messages a message is not sent once");
  vf_reach("end");
}
