// Parallel and sequential evolution of vector fields.
#include "harness.hpp"
#include "digest_enclosure.hpp"
#include "symbolic/expression_set.hpp"
#include "solvers/integrator.hpp"
#include "dynamics/orbit.hpp"
#include "dynamics/vector_field_evolver.hpp"
using namespace sim; using namespace Ariadne;
namespace {
static void gen(Rng& r, Plan& p, bool thorough) {
    gen_env(r,p,ENV_HEAP|ENV_SCHED); p.set("system",r.below(3)); p.set("concurrency",r.range(1,thorough?8:4)); p.set("integrator",r.below(2)); p.set("subdiv",r.below(2)); p.set("semantics",r.below(4)?1:0);
    p.set("splits",r.below(3)); p.set("steps",r.range(1,thorough?5:2));
}
struct Out { std::string reach,inter,fin; SizeType n=0; };
static Out run_one(Plan const& p, unsigned c) {
    BetterThreads::TaskManager::instance().set_concurrency(c);
    RealVariable x("x"), v("v"), y("y");
    ThresholdSweeper<FloatDP> sweeper(DoublePrecision(),1e-6_pr);
    TaylorPicardIntegrator tpi(step_maximum_error=1e-3_pr,sweeper,lipschitz_tolerance=0.5_x,minimum_temporal_order=0,maximum_temporal_order=4);
    GradedTaylorSeriesIntegrator gsi(step_maximum_error=1e-3_pr,sweeper,lipschitz_tolerance=0.5_x,minimum_spacial_order=1,minimum_temporal_order=2,maximum_spacial_order=2,maximum_temporal_order=4);
    IntegratorInterface& integ = p.get("integrator")?static_cast<IntegratorInterface&>(gsi):static_cast<IntegratorInterface&>(tpi);
    VectorField vf = p.get("system")==0 ? VectorField({dot(x)=v,dot(v)=Real(0.5_x)*(1-x*x)*v-x}) : p.get("system")==1 ? VectorField({dot(x)=v,dot(v)=-x}) : VectorField({dot(x)=v,dot(v)=-x*0.5_dec},{let(y)=x+v});
    VectorFieldEvolver ev(vf,integ);
    static const double rad[]={0.5,0.06,0.04}; ev.configuration().set_maximum_enclosure_radius(rad[p.get("splits")]); ev.configuration().set_maximum_step_size(0.25); ev.configuration().set_enable_subdivisions(p.get("subdiv")); ev.configuration().set_maximum_spacial_error(1e-2);
    RealExpressionBoundedConstraintSet init({0.95_dec<=x<=1.05_dec,0.45_dec<=v<=0.55_dec});
    auto orb=ev.orbit(init,Real(Dyadic(0.25_x)*p.get("steps")),p.get("semantics")?Semantics::UPPER:Semantics::LOWER);
    return Out{dig_list(orb.reach()),dig_list(orb.intermediate()),dig_list(orb.final()),orb.reach().size()};
}
static void run(Plan const& p) {
    Out s=run_one(p,0), c=run_one(p,(unsigned)p.get("concurrency"));
    if (s.reach!=c.reach) sim_violation("mismatch","reach set differs: %zu sequential, %zu concurrent elements",(size_t)s.n,(size_t)c.n);
    if (s.inter!=c.inter) sim_violation("mismatch","intermediate set differs");
    if (s.fin!=c.fin) sim_violation("mismatch","final set differs");
    state(hash_str(s.reach)); count("reach_sets",(long)s.n);
}
Scenario s("vfe",gen,run);
}
