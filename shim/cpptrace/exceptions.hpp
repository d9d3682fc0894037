#pragma once
#include <exception>
#include <string>
#include <vector>
namespace cpptrace {
struct stacktrace_frame { std::string symbol, filename; unsigned long raw_address = 0, object_address = 0; struct {bool has_value() const {return false;} unsigned value() const {return 0;} unsigned value_or(unsigned v) const {return v;}} line; };
struct stacktrace { std::vector<stacktrace_frame> frames; std::string to_string(bool=false) const { return {}; } auto begin() const {return frames.begin();} auto end() const {return frames.end();} };
inline stacktrace generate_trace() { return {}; }
struct exception : std::exception {
  virtual const char* message() const noexcept = 0;
  virtual const stacktrace& trace() const noexcept = 0;
};
struct lazy_exception : exception {
  const char* what() const noexcept override { return message(); }
  const char* message() const noexcept override { return "cpptrace::lazy_exception"; }
  const stacktrace& trace() const noexcept override { static stacktrace t; return t; }
};
}
