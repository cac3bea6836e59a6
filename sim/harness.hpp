// Scenario interface of the simulator.
#ifndef SIM_HARNESS_HPP
#define SIM_HARNESS_HPP
#include "simrt.h"
#include <functional>
#include <map>
#include <sstream>
#include <string>
#include <vector>
namespace sim {
struct Rng {
    u64 s; explicit Rng(u64 seed) : s(sim_mix(seed^0x5EED)) { }
    u64 next() { s+=0x9E3779B97F4A7C15ull; return sim_mix(s); }
    u64 below(u64 n) { return n?next()%n:0; }
    long range(long a, long b) { return a+(long)below((u64)(b-a+1)); }
    bool chance(unsigned num, unsigned den) { return below(den)<num; }
    double unit() { return (double)(next()>>11)/9007199254740992.0; }
    template<class C> auto const& pick(C const& c) { return c[below(c.size())]; }
};
struct Plan {
    std::string scenario; u64 seed=0;
    std::map<std::string,long> params;
    std::vector<std::vector<std::string>> ops;
    std::vector<std::pair<std::string,long>> faults;
    std::vector<std::pair<u64,u32>> switches;
    long get(const char* k, long d=0) const { auto i=params.find(k); return i==params.end()?d:i->second; }
    void set(const char* k, long v) { params[k]=v; }
    template<class... A> void op(A const&... a) { std::vector<std::string> v; (v.push_back(str(a)),...); ops.push_back(v); }
    void fault(std::string k, long at) { faults.push_back({k,at}); }
    template<class T> static std::string str(T const& t) { std::ostringstream o; o<<t; return o.str(); }
    std::string text() const;
    static Plan parse(std::string const& t);
};
struct Scenario {
    const char* name; void (*generate)(Rng&, Plan&, bool thorough); void (*run)(Plan const&);
    Scenario(const char* n, void (*g)(Rng&,Plan&,bool), void (*r)(Plan const&));
    Scenario* next;
};
enum EnvParts { ENV_HEAP=1, ENV_SCHED=2 };
void gen_env(Rng&, Plan&, int parts);        // scheduling policy, heap policy: swarm style, fresh for each run
void count(const char* kind, long n=1);      // fault kind / probe counters, reported at the end of the run
void state(u64 h);                           // a reached state, for the distinct-states measure
u64 hash_str(std::string const&);
// run the bodies on simulated threads, one each, and join them; an exception in a body is returned as its text
std::vector<std::string> run_threads(std::vector<std::function<void()>> bodies);
inline long to_l(std::string const& s) { return strtol(s.c_str(),nullptr,10); }
}
#endif
