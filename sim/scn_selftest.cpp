// Checks of the simulator itself: a racy counter, a locked counter, a lost update, a deadlock.
#include "harness.hpp"
#include <mutex>
#include <thread>
#include <memory>
using namespace sim;
static void gen(Rng& r, Plan& p, bool) { gen_env(r,p,ENV_HEAP|ENV_SCHED); p.set("mode",r.below(4)); p.set("n",r.range(2,4)); }
static void run(Plan const& p) {
    int n=(int)p.get("n"); long mode=p.get("mode"); std::vector<std::function<void()>> fs; long* c=new long(0); std::mutex m,m2; auto sp=std::make_shared<int>(3);
    for (int i=0;i<n;++i) fs.push_back([=,&m,&m2]{ for (int k=0;k<20;++k) {
        if (mode==0) { std::lock_guard<std::mutex> l(m); ++*c; }
        else if (mode==1) ++*c;
        else if (mode==2) { long v; { std::lock_guard<std::mutex> l(m); v=*c; } { std::lock_guard<std::mutex> l(m); *c=v+1; } }
        else { std::mutex& a=i?m:m2; std::mutex& b=i?m2:m; std::lock_guard<std::mutex> l(a); std::lock_guard<std::mutex> l2(b); ++*c; } auto q=sp; } });
    run_threads(fs);
    if (*c!=20*n) sim_violation("mismatch","count %ld",*c);
    delete c;
}
static Scenario s("selftest",gen,run);
