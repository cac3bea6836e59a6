#ifndef SIM_CONCLOG_PROGRESS_INDICATOR_HPP
#define SIM_CONCLOG_PROGRESS_INDICATOR_HPP
#include <cmath>
namespace ConcLog {
class ProgressIndicator {
  public:
    ProgressIndicator(double final_value = 0.0) : _final_value(final_value), _current_value(0), _step(0u) { }
    double final_value() const { return _final_value; }
    double current_value() const { return _current_value; }
    void update_current(double new_value) { if (_current_value != new_value) { _current_value = new_value; ++_step; } }
    void update_final(double new_final) { _final_value = new_final; }
    char symbol() const { switch (_step % 4) { case 0: return '\\'; case 1: return '|'; case 2: return '/'; default: return '-'; }}
    unsigned int percentage() const { return static_cast<unsigned int>(std::round(_current_value/_final_value*100u)); }
  private:
    double _final_value; double _current_value; unsigned int _step;
};
}
#endif
