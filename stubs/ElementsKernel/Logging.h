#pragma once
#include <sstream>
#include <string>
#include <map>
#include <boost/format.hpp>
#include <boost/filesystem.hpp>
#include "ElementsKernel/Exception.h"
#include <log4cpp_stub.h>
namespace Elements {
class Logging {
public:
  static Logging getLogger(const std::string& name = "");
  static void setLevel(std::string level);
  static void setLogFile(const std::string& f);
  class LogMessageStream {
  public:
    template <typename T> LogMessageStream& operator<<(const T& m);
    LogMessageStream& operator<<(std::ostream& (*)(std::ostream&));
    LogMessageStream(LogMessageStream&&);
    LogMessageStream();
    ~LogMessageStream();
  };
  void debug(const std::string& m); LogMessageStream debug();
  void info(const std::string& m); LogMessageStream info();
  void warn(const std::string& m); LogMessageStream warn();
  void error(const std::string& m); LogMessageStream error();
  void fatal(const std::string& m); LogMessageStream fatal();
  void log(log4cpp::Priority::Value, const std::string&);
  template <typename... A> void debug(const char* fmt, A&&... a);
  template <typename... A> void info(const char* fmt, A&&... a);
  template <typename... A> void warn(const char* fmt, A&&... a);
  template <typename... A> void error(const char* fmt, A&&... a);
  template <typename... A> void fatal(const char* fmt, A&&... a);
};
}
