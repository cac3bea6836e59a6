// Stand-in for BetterThreads' workloads. Elements are processed by as many simulated threads as the TaskManager's
// concurrency says (0: by the caller, in order); which element is taken next and how threads interleave is the
// simulator's choice.
#ifndef SIM_BETTERTHREADS_WORKLOAD_HPP
#define SIM_BETTERTHREADS_WORKLOAD_HPP
#include <exception>
#include <deque>
#include <tuple>
#include "betterthreads/typedefs.hpp"
#include "betterthreads/task_manager.hpp"
#include "conclog/progress_indicator.hpp"
namespace SimPool {
struct Job { virtual ~Job() = default; virtual void run() = 0; };
// A pool of queued jobs, run by `concurrency` simulated threads until none is queued or running.
class Pool {
  public:
    Pool(); ~Pool();
    void push(Job* job);        // may be called before run(), or from a running job
    void run(unsigned int concurrency); // rethrows the first exception that a job threw

    struct Impl; private: Impl* _impl;
};
}
namespace BetterThreads {
using ConcLog::ProgressIndicator;

template<class E, class... AS> class DynamicWorkload {
  public:
    class Access {
        DynamicWorkload& _load;
      public:
        Access(DynamicWorkload& load) : _load(load) { }
        void append(E const& e) { _load.append(e); }
        template<class C> void append_all(C const& es) { for (auto const& e : es) _load.append(e); }
    };
    using Function = std::function<void(Access&, E const&, AS...)>;
    using Acknowledge = std::function<void(E const&, std::shared_ptr<ProgressIndicator>)>;
    template<class F> DynamicWorkload(F f, AS... as) : _indicator(new ProgressIndicator()), _access(*this) {
        _call=[f,tup=std::tuple<AS...>(as...)](Access& a, E const& e) { std::apply([&](auto const&... args){ f(a,e,args...); },tup); }; }
    template<class P, class F> requires (std::is_invocable_v<P,E const&,std::shared_ptr<ProgressIndicator>>)
    DynamicWorkload(P p, F f, AS... as) : _ack(p), _indicator(new ProgressIndicator()), _access(*this) {
        _call=[f,tup=std::tuple<AS...>(as...)](Access& a, E const& e) { std::apply([&](auto const&... args){ f(a,e,args...); },tup); }; }
    DynamicWorkload(DynamicWorkload const&) = delete;
    DynamicWorkload& append(E const& e) { _pool.push(new ElementJob(*this,e)); return *this; }
    template<class C> requires (!std::is_convertible_v<C,E>) DynamicWorkload& append(C const& es) { for (auto const& e : es) append(e); return *this; }
    void process() { _pool.run(TaskManager::instance().concurrency()); }
  private:
    struct ElementJob : public SimPool::Job {
        DynamicWorkload& load; E element;
        ElementJob(DynamicWorkload& l, E const& e) : load(l), element(e) { }
        void run() override { load._run(element); }
    };
    void _run(E const& e) {
        if (_ack) { std::lock_guard<std::mutex> lock(_ack_mux); _ack(e,_indicator); }
        _call(_access,e);
    }
    Acknowledge _ack; std::mutex _ack_mux;
    std::shared_ptr<ProgressIndicator> _indicator;
    std::function<void(Access&,E const&)> _call;
    Access _access;
    SimPool::Pool _pool;
};

template<class E, class... AS> class StaticWorkload {
  public:
    template<class F> StaticWorkload(F f, AS... as) {
        _call=[f,tup=std::tuple<AS...>(as...)](E const& e) { std::apply([&](auto const&... args){ f(e,args...); },tup); }; }
    StaticWorkload(StaticWorkload const&) = delete;
    StaticWorkload& append(E const& e) { _pool.push(new ElementJob(*this,e)); return *this; }
    template<class C> requires (!std::is_convertible_v<C,E>) StaticWorkload& append(C const& es) { for (auto const& e : es) append(e); return *this; }
    void process() { _pool.run(TaskManager::instance().concurrency()); }
  private:
    struct ElementJob : public SimPool::Job {
        StaticWorkload& load; E element;
        ElementJob(StaticWorkload& l, E const& e) : load(l), element(e) { }
        void run() override { load._call(element); }
    };
    std::function<void(E const&)> _call;
    SimPool::Pool _pool;
};
}
#endif
