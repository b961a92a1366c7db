#pragma once
// Declaration-only stand-in used for PARSING ONLY (never compiled into a program).
#include <exception>
#include <sstream>
#include <string>
namespace Elements {
enum class ExitCode { OK = 0, NOT_OK = 1, USAGE = 64, DATAERR, NOINPUT, SOFTWARE = 70, CONFIG = 78 };
using ExitCodeType = int;
class Exception : public std::exception {
public:
  explicit Exception(ExitCode e = ExitCode::NOT_OK);
  explicit Exception(const std::string& m, ExitCode e = ExitCode::NOT_OK);
  explicit Exception(const char* m, ExitCode e = ExitCode::NOT_OK);
  template <typename... Args> explicit Exception(const char* fmt, Args&&... args);
  virtual ~Exception() noexcept;
  const char* what() const noexcept override;
  ExitCode exitCode() const noexcept;
  template <typename T> void appendMessage(const T& message);
protected:
  std::string m_error_msg{};
  ExitCode m_exit_code{ExitCode::NOT_OK};
};
template <class Ex, class T> auto operator<<(Ex&& e, const T& t) -> typename std::enable_if<std::is_base_of<Exception, typename std::remove_reference<Ex>::type>::value, Ex&&>::type;
}
