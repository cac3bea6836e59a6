#ifndef SIM_BETTERTHREADS_TASK_MANAGER_HPP
#define SIM_BETTERTHREADS_TASK_MANAGER_HPP
#include "betterthreads/typedefs.hpp"
namespace BetterThreads {
class TaskManager {
    unsigned int _concurrency=0u;
    TaskManager() = default;
  public:
    TaskManager(TaskManager const&) = delete;
    static TaskManager& instance() { static TaskManager tm; return tm; }
    unsigned int maximum_concurrency() const { return 8u; }
    unsigned int concurrency() const { return _concurrency; }
    void set_concurrency(unsigned int c) { if (c>maximum_concurrency()) throw std::runtime_error("concurrency too high"); _concurrency=c; }
    void set_maximum_concurrency() { _concurrency=maximum_concurrency(); }
};
}
#endif
