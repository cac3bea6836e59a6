// Pavings and other sets changed in place; pavings against a model which is the set of small cells they cover.
#include "algebra/algebra.hpp"
#include "geometry/grid_paving.hpp"
#include "geometry/binary_tree.hpp"
#include "geometry/grid_cell.hpp"
#include "digest.hpp"
#include "geometry/interval.hpp"
#include "geometry/box.hpp"
#include "geometry/grid.hpp"
#include "geometry/list_set.hpp"
#include "geometry/function_set.hpp"
#include "geometry/curve.hpp"
#include "geometry/point.hpp"
#include "geometry/union_of_intervals.hpp"
#include "function/constraint.hpp"
#include "mutables.hpp"
#include <cmath>
using namespace Ariadne; using namespace sim; using sim::dg; using sim::Rng; using sim::wr;
namespace {
// the cells of side 1/8 in [-8,8]x[-8,8]
struct Bits { std::vector<unsigned char> b; Bits() : b(128*128,0) { } bool operator==(Bits const& o) const { return b==o.b; }
    void add(double x0, double x1, double y0, double y1) { long i0=std::lround((x0+8)*8), i1=std::lround((x1+8)*8), j0=std::lround((y0+8)*8), j1=std::lround((y1+8)*8); for (long i=std::max(0l,i0);i<std::min(128l,i1);++i) for (long j=std::max(0l,j0);j<std::min(128l,j1);++j) b[i*128+j]=1; }
    std::string str() const { u64 h=1469598103934665603ull; long n=0; for (auto c : b) { h=(h^c)*1099511628211ull; n+=c; } return std::to_string(n)+":"+std::to_string(h)+" "; } };
static Bits bits(GridTreePaving const& p) { NoFail nf; Bits m; for (auto it=p.begin();it!=p.end();++it) { ExactBoxType c=it->box(); m.add(c[0].lower_bound().get_d(),c[0].upper_bound().get_d(),c[1].lower_bound().get_d(),c[1].upper_bound().get_d()); } return m; }
struct Bx { double a[4]; ExactBoxType box() const { return ExactBoxType({{FloatDP(ExactDouble(a[0]),dp),FloatDP(ExactDouble(a[1]),dp)},{FloatDP(ExactDouble(a[2]),dp),FloatDP(ExactDouble(a[3]),dp)}}); } };
static Bx rbx(Rng& r, bool small=false) { Bx b; double x=r.range(-112,96)/16., y=r.range(-112,96)/16.; long w=small?20:60; b.a[0]=x; b.a[1]=std::min(7.,x+r.range(1,w)/16.); b.a[2]=y; b.a[3]=std::min(7.,y+r.range(1,w)/16.); return b; }
static GridTreePaving rpav(Rng& r) { GridTreePaving q(Grid(2)); long n=r.range(1,2); for (long i=0;i<n;++i) q.adjoin_over_approximation(rbx(r,true).box(),(Nat)r.range(0,3)); return q; }
struct MPav { GridTreePaving p; Bits m; bool dirty=false; const char* bad=""; 
    explicit MPav(u64 s) : MPav(Rng(s)) { } explicit MPav(Rng r) : p(Grid(2)) { if (r.chance(2,3)) p=rpav(r); m=bits(p); }
    std::string digest() const { Bits b=bits(p); std::string o=b.str()+std::to_string(p.size())+wr(p.measure()); if (*bad) o+=std::string("(@! ")+bad+")"; if (!dirty && !(b==m)) o+="(@! the paving does not cover the cells it should)"; return o; }
    // the change of the paving, then of the model; when the change throws, the model is what the paving covers
    template<class F, class G> void change(F f, G g) { dirty=true; f(); NoFail nf; g(); dirty=false; }
    void fine() { if (dirty) { NoFail nf; m=bits(p); dirty=false; } } };
MUTABLE(MPav,"paving") {
#define CH(code,model) s.fine(); s.change([&]{ code },[&]{ model });
    M(adj,GridTreePaving q=rpav(r); CH(s.p.adjoin(q);,Bits b=bits(q); for (size_t i=0;i<b.b.size();++i) s.m.b[i]|=b.b[i];))
    M(rest,GridTreePaving q=rpav(r); CH(s.p.restrict(q);,Bits b=bits(q); for (size_t i=0;i<b.b.size();++i) s.m.b[i]&=b.b[i];))
    M(rem,GridTreePaving q=rpav(r); CH(s.p.remove(q);,Bits b=bits(q); for (size_t i=0;i<b.b.size();++i) s.m.b[i]&=(unsigned char)(1-b.b[i]);))
    M(uni,GridTreePaving q=rpav(r); CH(s.p=join(s.p,q);,Bits b=bits(q); for (size_t i=0;i<b.b.size();++i) s.m.b[i]|=b.b[i];))
    M(isec,GridTreePaving q=join(s.p,rpav(r)); CH(s.p=intersection(s.p,q);,;))
    M(diff,GridTreePaving q=rpav(r); CH(s.p=difference(s.p,q);,Bits b=bits(q); for (size_t i=0;i<b.b.size();++i) s.m.b[i]&=(unsigned char)(1-b.b[i]);))
    M(mince,CH(s.p.mince((Nat)r.range(0,2));,;)) M(mince_t,CH(s.p.mince_to_tree_depth((Nat)r.range(0,9));,;)) M(recomb,CH(s.p.recombine();,;)) M(clear,CH(s.p.clear();,s.m=Bits();))
    M(copy,CH(GridTreePaving t(s.p); s.p=t;,;)) M(self,CH(s.p=s.p;,;)) M(asg,GridTreePaving q=rpav(r); CH(s.p=q;,s.m=bits(q);)) M(clone,CH(std::unique_ptr<GridTreePaving> c(s.p.clone()); s.p=*c;,;))
    M(clsub,if (s.p.binary_tree()->is_leaf()) return; s.fine(); bool side=r.chance(1,2); GridTreeSubpaving h=s.p.branch(side); std::unique_ptr<GridTreeSubpaving> c(h.clone()); { NoFail nf; std::vector<std::string> x, y; for (auto it=h.begin();it!=h.end();++it) x.push_back(wr(it->box())); for (auto it=c->begin();it!=c->end();++it) y.push_back(wr(it->box())); if (x!=y) s.bad="the clone of a part of a paving differs from it"; })
    M(adjc,GridTreePaving q=rpav(r); if (q.is_empty()) return; GridCell c=*q.begin(); CH(s.p.adjoin(c);,ExactBoxType b=c.box(); s.m.add(b[0].lower_bound().get_d(),b[0].upper_bound().get_d(),b[1].lower_bound().get_d(),b[1].upper_bound().get_d());))
    M(remc,if (s.p.is_empty()) return; GridCell c=*s.p.begin(); CH(s.p.remove(c);,ExactBoxType b=c.box(); Bits k; k.add(b[0].lower_bound().get_d(),b[0].upper_bound().get_d(),b[1].lower_bound().get_d(),b[1].upper_bound().get_d()); for (size_t i=0;i<k.b.size();++i) s.m.b[i]&=(unsigned char)(1-k.b[i]);))
    M(over,Bx b=rbx(r); Nat k=(Nat)r.range(0,3); CH(s.p.adjoin_over_approximation(b.box(),k);,Bits n=bits(s.p); Bits in; double w=1./(1<<k); in.add(std::floor(b.a[0]*8)/8,std::ceil(b.a[1]*8)/8,std::floor(b.a[2]*8)/8,std::ceil(b.a[3]*8)/8); Bits out; out.add(std::floor(b.a[0]/w)*w-w,std::ceil(b.a[1]/w)*w+w,std::floor(b.a[2]/w)*w-w,std::ceil(b.a[3]/w)*w+w); for (size_t i=0;i<n.b.size();++i) { if ((in.b[i]||s.m.b[i]) && !n.b[i]) s.bad="an over-approximation does not cover the box"; if (n.b[i] && !s.m.b[i] && !out.b[i]) s.bad="an over-approximation covers a cell away from the box"; } s.m=n;))
    M(outer,Bx b=rbx(r,true); Nat k=(Nat)r.range(0,2); CH(s.p.adjoin_outer_approximation(UpperBoxType(b.box()),k);,Bits n=bits(s.p); Bits in; in.add(std::floor(b.a[0]*8)/8,std::ceil(b.a[1]*8)/8,std::floor(b.a[2]*8)/8,std::ceil(b.a[3]*8)/8); for (size_t i=0;i<n.b.size();++i) if ((in.b[i]||s.m.b[i]) && !n.b[i]) s.bad="an outer approximation does not cover the box"; s.m=n;))
    M(sub,GridTreePaving q=rpav(r); bool u=subset(s.p,q), o=intersect(s.p,q); s.fine(); NoFail nf; Bits b=bits(q); bool u2=true, o2=false; for (size_t i=0;i<b.b.size();++i) { if (s.m.b[i] && !b.b[i]) u2=false; if (s.m.b[i] && b.b[i]) o2=true; } if (u!=u2) s.bad="subset is wrong"; if (o!=o2) s.bad="intersect is wrong";)
    M(subself,s.fine(); GridTreePaving q(s.p); q.mince((Nat)r.below(2)); if (r.chance(1,2)) q.recombine(); if (!subset(s.p,q)||!subset(q,s.p)) s.bad="a paving is not a subset of another division of it"; )
#undef CH
}
// ---------------------------------------------------------------- other sets
struct MSet { Box<Interval<FloatDPUpperBound>> b; ExactBoxType e; ListSet<ExactBoxType> l; ConstrainedImageSet c; ValidatedConstrainedImageSet v; InterpolatedCurve cu; RealBox rb; Interval<FloatDP> iv;
    static EffectiveScalarMultivariateFunction co(SizeType i) { return EffectiveScalarMultivariateFunction::coordinate(2u,i); }
    explicit MSet(u64 s) : MSet(Rng(s)) { } explicit MSet(Rng r) : b(rbx(r).box()), e(rbx(r).box()), c(BoundedConstraintSet(RealBox({{-1,1},{0,2}}))), v(ExactBoxType({{-1,1},{0,2}})), cu(0,Point<FloatDPApproximation>(2u,FloatDPApproximation(0.0,dp))), rb({{-1,1},{0,2}}), iv(-1,2,dp) { }
    std::string digest() const { std::string o=dg(b)+dg(e); for (auto& x : l) o+=dg(x); o+=wr(c)+wr(v)+wr(rb)+wr(iv); for (auto& k : cu) o+=wr(k.first)+wr(k.second); return o; } };
MUTABLE(MSet,"geometry") {
    M(bset,s.b[r.below(2)]=rbx(r).box()[0];) M(basg,s.b=rbx(r).box();) M(bself,s.b=s.b;) M(bjoin,s.b=product(s.b,s.b); s.b=project(s.b,Range(1u,3u));) M(eset,s.e[r.below(2)]=rbx(r).box()[1];) M(easg,s.e=rbx(r).box();) M(ehull,s.e=hull(s.e,rbx(r).box());) M(lapp,s.l.adjoin(s.e); if (s.l.size()>9) s.l.clear();) M(ladj,ListSet<ExactBoxType> k; k.adjoin(rbx(r).box()); k.adjoin(s.e); s.l.adjoin(k); if (s.l.size()>9) s.l.clear();) M(lpush,s.l.push_back(rbx(r).box());) M(lasg,ListSet<ExactBoxType> k(s.l); s.l=k; s.l=s.l;)
    M(capply,s.c.apply(EffectiveVectorMultivariateFunction({MSet::co(0)+MSet::co(1),MSet::co(1)*Real(r.range(1,3))})); if (wr(s.c).size()>1500) s.c=ConstrainedImageSet(BoundedConstraintSet(RealBox({{-1,1},{0,2}})));) M(cpar,s.c.new_parameter_constraint(MSet::co(0)*MSet::co(1)<=Real(r.range(0,9))); if (s.c.number_of_constraints()>5) s.c=ConstrainedImageSet(BoundedConstraintSet(RealBox({{-1,1},{0,2}})));) M(cspc,s.c.new_space_constraint(MSet::co(0)-MSet::co(1)>=Real(r.range(-9,9))); if (s.c.number_of_constraints()>5) s.c=ConstrainedImageSet(BoundedConstraintSet(RealBox({{-1,1},{0,2}})));) M(casg,ConstrainedImageSet t(s.c); t.new_space_constraint(MSet::co(0)<=Real(3)); s.c=t; if (s.c.number_of_constraints()>5) s.c=ConstrainedImageSet(BoundedConstraintSet(RealBox({{-1,1},{0,2}})));)
    M(vapply,s.v.apply(ValidatedVectorMultivariateFunction(EffectiveVectorMultivariateFunction({MSet::co(0)+MSet::co(1),MSet::co(1)*Real(r.range(1,3))}))); if (wr(s.v).size()>1500) s.v=ValidatedConstrainedImageSet(ExactBoxType({{-1,1},{0,2}}));) M(vpar,ValidatedConstraint k(MSet::co(0)*MSet::co(1)<=Real(r.range(0,9))); s.v.new_parameter_constraint(k); if (s.v.number_of_constraints()>5) s.v=ValidatedConstrainedImageSet(ExactBoxType({{-1,1},{0,2}}));) M(vred,s.v.reduce();) M(vasg,ValidatedConstrainedImageSet t(s.v); t.reduce(); s.v=t;)
    M(cins,s.cu.insert(FloatDP(ExactDouble((double)r.range(0,99)),dp),Vector<FloatDP>(2u,FloatDP(ExactDouble((double)r.range(0,9)),dp)));) M(rset,s.rb[0]=RealInterval(Real(-r.range(1,5)),Real(r.range(1,5)));) M(rasg,RealBox t(s.rb); s.rb=RealBox({{-1,1},{0,r.range(1,9)}}); if (r.chance(1,2)) s.rb=t;) M(ivs,s.iv=Interval<FloatDP>(r.range(-5,0),r.range(1,5),dp); s.iv.set_upper_bound(FloatDP(9,dp));) }
}
