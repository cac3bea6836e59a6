// Stand-in for the (absent) ConcLog submodule: logging is muted, statements passed to the RUN macros are run.
#ifndef SIM_CONCLOG_LOGGING_HPP
#define SIM_CONCLOG_LOGGING_HPP
#include <string>
#include <iostream>
#include <iomanip>
#include <sstream>
#include <memory>
#include "conclog/progress_indicator.hpp"
namespace ConcLog {
struct TerminalTextTheme { int id; };
inline constexpr TerminalTextTheme TT_THEME_NONE{0};
inline constexpr TerminalTextTheme TT_THEME_LIGHT{1};
inline constexpr TerminalTextTheme TT_THEME_DARK{2};
class LoggerConfiguration {
    unsigned int _verbosity=0; TerminalTextTheme _theme=TT_THEME_NONE;
  public:
    void set_verbosity(unsigned int v) { _verbosity=v; }
    unsigned int verbosity() const { return _verbosity; }
    void set_theme(TerminalTextTheme const& t) { _theme=t; }
    TerminalTextTheme const& theme() const { return _theme; }
};
class Logger {
    LoggerConfiguration _configuration; int _scheduler=2;
  public:
    static Logger& instance() { static Logger logger; return logger; }
    void use_immediate_scheduler() { _scheduler=0; }
    void use_blocking_scheduler() { _scheduler=1; }
    void use_nonblocking_scheduler() { _scheduler=2; }
    int scheduler() const { return _scheduler; }
    LoggerConfiguration& configuration() { return _configuration; }
};
struct LogScopeManager { template<class... AS> LogScopeManager(AS&&...) { } };
}
// Log text is formatted only when the simulation enables it (SIM_CONCLOG_FORMAT); the text is then discarded.
namespace SimConcLog { extern "C" bool sim_conclog_enabled(); }
#ifdef SIM_CONCLOG_FORMAT
#define SIM_CONCLOG_WRITE(expr) do { if (SimConcLog::sim_conclog_enabled()) { std::ostringstream _clss; _clss << expr; } } while(0);
#else
#define SIM_CONCLOG_WRITE(expr) do { if (false) { std::ostringstream _clss; _clss << expr; } } while(0);
#endif
#define CONCLOG_SCOPE_CREATE
#define CONCLOG_SCOPE_PRINTHOLD(expr) SIM_CONCLOG_WRITE(expr)
#define CONCLOG_PRINTLN(expr) SIM_CONCLOG_WRITE(expr)
#define CONCLOG_PRINTLN_AT(level,expr) SIM_CONCLOG_WRITE(expr)
#define CONCLOG_PRINTLN_VAR(var) SIM_CONCLOG_WRITE(var)
#define CONCLOG_PRINTLN_VAR_AT(level,var) SIM_CONCLOG_WRITE(var)
#define CONCLOG_PRINTHOLD_AT(level,expr) SIM_CONCLOG_WRITE(expr)
#define CONCLOG_RUN_AT(level,...) __VA_ARGS__;
#define CONCLOG_RUN_MUTED(...) __VA_ARGS__;
#endif
