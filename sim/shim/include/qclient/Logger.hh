#pragma once
#include <string>
namespace qclient {
enum class LogLevel { kFatal = 0, kError, kWarn, kInfo, kDebug };
class Logger {
public:
  virtual ~Logger() {}
  virtual void print(LogLevel level, int line, const std::string& file, const std::string& msg) = 0;
  LogLevel getLevel() const { return logLevel; }
  static std::string logLevelToString(LogLevel l) { switch (l) { case LogLevel::kFatal: return "FATAL"; case LogLevel::kError: return "ERROR"; case LogLevel::kWarn: return "WARN"; case LogLevel::kInfo: return "INFO"; default: return "DEBUG"; } }
protected:
  LogLevel logLevel = LogLevel::kInfo;
};
}
