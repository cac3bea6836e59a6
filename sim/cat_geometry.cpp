// Geometric objects: intervals, boxes, grids, pavings, polyhedra, zonotopes, affine and constrained image sets.
#include "algebra/algebra.hpp"
#include "geometry/grid_paving.hpp"
#include "geometry/grid_cell.hpp"
#include "digest.hpp"
#include "geometry/interval.hpp"
#include "geometry/box.hpp"
#include "geometry/grid.hpp"
#include "geometry/grid_cell.hpp"
#include "algebra/algebra.hpp"
#include "geometry/grid_paving.hpp"
#include "geometry/list_set.hpp"
#include "geometry/affine_set.hpp"
#include "geometry/function_set.hpp"
#include "geometry/paver.hpp"
#include "geometry/curve.hpp"
#include "geometry/point.hpp"
#include "io/geometry2d.hpp"
#include "function/constraint.hpp"
#include "symbolic/expression_set.hpp"
#include "symbolic/expression.hpp"
#include "symbolic/space.hpp"
#include "catalogue.hpp"
using namespace Ariadne; using namespace sim;
namespace {
static Rational rs(Rng& r) { return Rational(Integer(r.range(-80,80)),Integer(100)); }
static Dyadic rw(Rng& r, long lo, long hi) { return Dyadic(Integer((int)r.range(lo*16,hi*16)),4u); }
static ExactIntervalType xi(Rng& r) { Dyadic l=rw(r,-2,1); return ExactIntervalType(FloatDP(l,dp),FloatDP(Dyadic(l+rw(r,0,2)+Dyadic(1,4u)),dp)); }
static ExactBoxType xb(Rng& r, SizeType n) { ExactBoxType b(n); for (SizeType i=0;i!=n;++i) b[i]=xi(r); return b; }
static UpperIntervalType ui(Rng& r) { Rational l=rs(r); return UpperIntervalType(FloatDPLowerBound(l,dp),FloatDPUpperBound(Rational(l+Rational(Integer(r.range(1,90)),Integer(70))),dp)); }
template<class T> std::string tx(T const& t) { NoFail nf; std::ostringstream o; o.precision(17); o<<t; return o.str(); }
template<class X> static std::string dl(List<X> const& l) { NoFail nf; std::string s="L("; for (auto const& x : l) s+=dg(x); return s+")"; }
// ---------------------------------------------------------------- intervals
struct Ivl { ExactIntervalType a,b; UpperIntervalType u,w; ApproximateIntervalType m; RealInterval q; DyadicInterval d; FloatDPBounds x; FloatDP v;
    explicit Ivl(u64 s) : Ivl(Rng(s)) { }
    explicit Ivl(Rng r) : a(xi(r)), b(xi(r)), u(ui(r)), w(ui(r)), m(u), q(Real(rs(r)),Real(Rational(2))), d(rw(r,-2,0),rw(r,1,3)), x(rs(r),dp), v(rw(r,-1,1),dp) { }
};
FAMILY(Ivl,"geometry") {
    E(add,s.u+s.w) E(sub,s.u-s.w) E(mul,s.u*s.w) E(divi,s.u/(sqr(s.w)+FloatDP(1.0_x,dp))) E(neg,-s.u) E(sqr,sqr(s.u)) E(powi,pow(s.u,(Int)r.range(1,5))) E(expi,exp(s.u)) E(logi,log(sqr(s.u)+FloatDP(1.0_x,dp))) E(sqrti,sqrt(sqr(s.w))) E(sini,sin(s.u)) E(cosi,cos(s.u)) E(atani,atan(s.w)) E(absi,abs(s.u)) E(maxi,max(s.u,s.w),min(s.u,s.w)) E(addx,s.u+s.x,s.x*s.w) E(mag,mag(s.u),mig(s.u))
    E(inter,intersection(s.a,s.b)) E(hulli,hull(s.a,s.b)) E(interu,intersection(s.u,s.w),hull(s.u,s.w)) E(rel,subset(s.a,s.b),intersect(s.a,s.b),disjoint(s.a,s.b),superset(s.a,s.b),covers(s.a,s.b),overlap(s.a,s.b),inside(s.a,s.b),separated(s.a,s.b)) E(relu,subset(s.u,s.b),intersect(s.u,s.b),inside(s.u,s.a)) E(cont,contains(s.a,s.v),element(s.v,s.b),contains(s.u,s.x))
    EF(mid,F_APPROX,s.a.midpoint(),s.u.midpoint()) E(wid,s.a.width(),s.u.width(),s.a.radius(),s.u.radius()) E(cen,s.u.centre()) E(emp,s.a.is_empty(),s.u.is_empty(),s.a.is_bounded(),s.a.is_singleton()) EF(spl,F_APPROX,split(s.a).first,split(s.a).second) E(eq,s.a==s.b,s.a!=s.b,s.a==s.a,refines(s.u,s.w),same(s.u,s.u))
    E(wden,widen(s.a),widen(s.u)) EF(wdom,F_APPROX,widen_domain(s.u)) EF(adom,F_APPROX,approximate_domain(s.u)) E(nar,narrow(s.a)) B(cast,return dg(cast_exact(s.u),cast_singleton(s.u));)
    EF(str,F_APPROX,wr(s.a),wr(s.u),wr(s.m),wr(s.q),wr(s.d)) E(make,ExactIntervalType::unit_interval(),ExactIntervalType::empty_interval()) B(asg,ExactIntervalType a(s.a); a=s.b; a.set_lower_bound(s.v); UpperIntervalType u(a); u=s.w; return dg(a,u);) EF(app,F_APPROX,s.m+s.m,s.m*s.m,s.m-s.m)
    E(real,wr(intersection(s.d,s.d)),tx(s.d.midpoint()),tx(s.d.width())) BF(rd,F_APPROX,ExactIntervalType a; std::stringstream ss("{-0.5:1.25}"); ss.exceptions(std::ios::badbit); ss>>a; return dg(a);) E(upr,UpperIntervalType(s.q,dp))
}
// ---------------------------------------------------------------- boxes
struct Bx { ExactBoxType a,b,c; UpperBoxType u; RealBox q; ExactPointType p; ApproximateBoxType m; LowerBoxType l;
    explicit Bx(u64 s) : Bx(Rng(s)) { }
    explicit Bx(Rng r) : a(xb(r,3)), b(xb(r,3)), c(xb(r,2)), u({ui(r),ui(r),ui(r)}), q({{Real(rs(r)),Real(1)},{Real(-1),Real(2)},{Real(-2),Real(Rational(1,3))}}), p(Vector<FloatDP>({FloatDP(rw(r,-1,1),dp),FloatDP(rw(r,-1,1),dp),FloatDP(rw(r,-1,1),dp)})), m(u), l(a) { }
};
FAMILY(Bx,"geometry") {
    E(inter,intersection(s.a,s.b)) E(hullb,hull(s.a,s.b)) E(interu,intersection(s.u,s.a)) E(prod,product(s.a,s.c)) E(prod2,product(s.c,s.a[1])) EF(spl,F_APPROX,s.a.split().first,s.a.split((SizeType)r.below(3)).second) E(proj,project(s.a,Array<SizeType>({2,0}))) E(elem,s.a[r.below(3)])
    E(rel,subset(s.a,s.b),intersect(s.a,s.b),disjoint(s.a,s.b),s.a.covers(s.b),s.a.overlaps(s.b),s.a.inside(s.b),s.a.separated(s.b),s.a.superset(s.b)) E(relu,subset(s.u,s.a),s.u.inside(s.b)) E(cont,contains(s.a,s.p),s.a.contains(s.p)) E(eq,s.a==s.b,s.a!=s.b,same(s.a,s.a))
    EF(mid,F_APPROX,s.a.midpoint(),s.u.midpoint()) E(wid,s.a.widths(),s.a.radii(),s.u.widths()) E(rad,s.a.radius(),s.u.radius()) E(meas,s.a.measure(),s.u.measure(),s.a.volume()) E(semi,s.a.semiperimeter()) E(vert,dl(s.c.vertices())) E(bnds,s.a.lower_bounds(),s.a.upper_bounds()) E(emp,s.a.is_empty(),s.a.is_bounded())
    E(wden,widen(s.a),widen(s.u)) E(nar,narrow(s.a)) E(cast,cast_exact_box(s.u)) EF(casts,F_APPROX,cast_singleton(s.u)) EF(dom,F_APPROX,widen_domain(s.u)) EF(str,F_APPROX,wr(s.a),wr(s.u),wr(s.q),wr(s.m)) E(fromr,UpperBoxType(s.q,dp))
    B(asg,ExactBoxType a(s.a); a=s.c; a[1]=s.a[0]; UpperBoxType u(s.u); u=UpperBoxType(a); return dg(a,u);) B(lst,ListSet<ExactBoxType> l(s.a); l.adjoin(s.b); l.adjoin(s.a); ListSet<ExactBoxType> k(l); k.adjoin(l); return dg(k.size(),k[3]);) B(bad,return dg(intersection(s.a,s.a),hull(s.a,s.c));)
    E(unit,ExactBoxType::unit_box(2)) B(vs,Vector<FloatDPBounds> v=cast_singleton(s.a); return dg(v);) E(norm,norm(cast_vector(s.u)))
}
// ---------------------------------------------------------------- grids, cells and pavings
static std::string dc(GridCell const& c) { return tx(c.root_extent())+":"+tx(c.word())+" "; }
static std::string dp_(GridTreeSubpaving const& p) { NoFail nf; std::string s="G("+tx(p.size())+"|"; for (auto it=p.begin(); it!=p.end(); ++it) s+=dc(*it); return s+")"; }
struct Pav { Grid g; GridTreePaving p,q; GridCell c,e; ExactBoxType b; mutable std::vector<GridCell> cs;
    explicit Pav(u64 s) : Pav(Rng(s)) { }
    explicit Pav(Rng r) : g(Vector<FloatDP>({FloatDP(rw(r,-1,1),dp),FloatDP(0.0_x,dp)}),Vector<FloatDP>({FloatDP(1.0_x,dp),FloatDP(0.5_x,dp)})), p(g), q(g), c(GridCell::smallest_enclosing_primary_cell(xb(r,2),g)), e(c.split(r.below(2)).split(r.below(2))), b(xb(r,2)) {
        p.adjoin_outer_approximation(UpperBoxType(b),1); p.adjoin_outer_approximation(UpperBoxType(xb(r,2)),2); q.adjoin_outer_approximation(UpperBoxType(xb(r,2)),1); q.adjoin(e); if (r.below(2)) p.recombine(); }
};
FAMILY(Pav,"geometry") {
    E(joinp,dp_(join(s.p,s.q))) E(interp,dp_(intersection(s.p,s.q))) E(diffp,dp_(difference(s.p,s.q))) E(rel,subset(s.p,s.q),intersect(s.p,s.q),subset(s.e,s.q),intersect(s.c,s.p)) E(mem,s.p.equals(s.q),s.p.subset(s.q),s.p.intersects(s.q),s.q.superset(s.e)) E(relb,s.p.subset(s.b),s.p.superset(s.b),s.p.intersects(s.b),s.p.disjoint(s.b)) E(kl,s.p.covers(s.b),s.p.inside(s.b),s.p.separated(s.b),s.p.overlaps(s.b))
    E(size,s.p.size(),s.p.dimension(),s.p.tree_depth(),s.p.is_empty()) EF(meas,F_APPROX,s.p.measure()) E(bbox,s.p.bounding_box()) E(root,dc(s.p.root_cell())) E(iter,dp_(s.p)) E(br,dp_(s.p.branch(r.below(2)))) E(eq,s.p==s.q,s.p==s.p)
    B(cp,GridTreePaving p(s.p); p.adjoin(s.q); p.remove(s.e); return dg(dp_(p),dp_(s.p));) B(mince,GridTreePaving p(s.p); p.mince((Nat)r.range(0,2)); std::string a=dp_(p); p.recombine(); return dg(a,dp_(p));) B(restr,GridTreePaving p(s.p); p.restrict(s.q); return dg(dp_(p));) B(rem,GridTreePaving p(s.p); p.remove(s.q); return dg(dp_(p));) B(adjc,GridTreePaving p(s.p); p.adjoin(s.c); return dg(dp_(p));) B(asg,GridTreePaving p(s.p); p=s.q; p.clear(); p=s.p; return dg(dp_(p));) B(ext,GridTreePaving p(s.p); p.restrict_to_extent((Nat)r.range(0,2)); return dg(dp_(p));)
    B(adjo,GridTreePaving p(s.g); p.adjoin_over_approximation(s.b,1); return dg(dp_(p));) B(outer,return dg(dp_(outer_approximation(ListSet<ExactBoxType>(s.b),s.g,2)));) BF(outeru,F_APPROX,GridTreePaving p(s.q); p.adjoin_outer_approximation(UpperBoxType(s.b),3); return dg(dp_(p));) B(inner,GridTreePaving p(s.g); p.adjoin_inner_approximation(LowerBoxType(s.b),2); return dg(dp_(p));) BF(prod,F_SLOW,GridTreePaving p(s.e), q(s.e); q.adjoin(s.c.split(r.below(2)).split(r.below(2))); return dg(dp_(product(p,q)));) B(lst,ListSet<ExactBoxType> l(s.p); return dg(l.size(),l[0]);) B(sub,GridTreePaving p(s.p); p.subdivide(0.3); return dg(dp_(p));)
    E(cell,s.c.box(),s.e.box(),s.c.depth(),s.e.root_height()) B(cellop,GridCell a(s.c); a=s.e; auto pr=s.e.split(); return dg(dc(a),dc(pr.first),dc(pr.second),s.c<s.e,s.c==s.e);) B(open,GridOpenCell o=s.e.interior(); return dg(o.box(),dp_(o.closure()));) E(grid,s.g==s.g,s.g.dimension(),s.g.origin(),s.g.lengths()) B(grd,Grid h(s.g); h=Grid(2u); return dg(h.coordinate(0,1.5),s.g.subdivision_coordinate(1,(int)3));) EF(str,F_APPROX,wr(s.g),wr(s.c),wr(s.p)) B(cur,GridTreeCursor k(&s.p); k.is_leaf(); if (!k.is_leaf()) { k.move_left(); } return dg(dc(k.cell()),k.is_enabled());) B(wd,BinaryWord w(s.e.word()); w.push_back(true); BinaryWord v(w); v.append(s.c.word()); return dg(tx(v),w==v,w<v,v.is_prefix(w));)
}
// ---------------------------------------------------------------- constraint and image sets
typedef EffectiveScalarMultivariateFunction ESF; typedef EffectiveVectorMultivariateFunction EVF;
struct FSet { EVF x; ConstraintSet k; BoundedConstraintSet bk; ConstrainedImageSet im; ValidatedConstrainedImageSet vim; ExactBoxType b; EVF h;
    explicit FSet(u64 s) : FSet(Rng(s)) { }
    explicit FSet(Rng r) : x(EVF::identity(2)), k({x[0]*x[0]+Real(rs(r))*x[1]<=Real(1),x[0]+x[1]<=Real(2)}), bk(RealBox({{-1,2},{-2,1}}),{x[0]*x[0]+x[1]*Real(rs(r))<=Real(1)}), im(RealBox({{-1,1},{-1,1}}),EVF({x[0]+x[1]*Real(rs(r)),x[1]-sqr(x[0])/4})), vim(ExactBoxType({{-1,1},{-1,1}}),EVF({x[0]+x[1]*Real(rs(r)),x[1]-sqr(x[0])/4})), b({{FloatDP(rw(r,-1,0),dp),FloatDP(rw(r,1,2),dp)},{FloatDP(rw(r,-1,0),dp),FloatDP(rw(r,1,2),dp)}}), h({x[0]*x[1],x[1]/2}) { im.new_parameter_constraint(x[0]+x[1]<=Real(1)); vim.new_parameter_constraint(ValidatedConstraint(x[0]+x[1]<=Real(1))); }
};
FAMILY(FSet,"geometry") {
    EF(csep,F_SLOW,s.k.separated(s.b,Effort(1))) EF(cov,F_SLOW,s.k.covers(s.b,Effort(1))) EF(ovl,F_SLOW,s.k.overlaps(s.b,Effort(1))) E(cinfo,s.k.dimension(),s.k.number_of_constraints(),tx(s.k.constraint_bounds())) EF(bsep,F_SLOW,s.bk.separated(s.b,Effort(1))) EF(bins,F_SLOW,s.bk.inside(s.b,Effort(1))) E(bbb,s.bk.bounding_box()) B(cint,ConstraintSet i=intersection(s.k,s.k); BoundedConstraintSet j=intersection(s.bk,s.k); BoundedConstraintSet l=intersection(s.k,RealBox({{-1,1},{-1,1}})); return dg(i.number_of_constraints(),j.number_of_constraints(),l.number_of_constraints());)
    E(ibb,s.im.bounding_box()) EF(isep,F_SLOW,s.im.separated(s.b,Effort(1))) EF(iins,F_SLOW,s.im.inside(s.b,Effort(1))) EF(iovl,F_SLOW,s.im.overlaps(s.b,Effort(1))) B(imf,ConstrainedImageSet i=image(s.bk,s.h); ConstrainedImageSet j=image(s.im,s.h); return dg(i.dimension(),j.bounding_box());) B(ispl,auto p=s.im.split(0); return dg(p.first.bounding_box(),p.second.bounding_box());)
    E(vbb,s.vim.bounding_box()) E(vsep,s.vim.separated(s.b)) E(vins,s.vim.inside(s.b)) EF(vovl,F_SLOW,s.vim.overlaps(s.b)) EF(vemp,F_SLOW,s.vim.is_empty()) B(vred,ValidatedConstrainedImageSet v(s.vim); v.reduce(); return dg(v.reduced_domain(),s.vim.domain());) B(vspl,auto p=s.vim.split(); return dg(p.first.domain(),p.second.domain());) BF(vaff,F_APPROX,return dg(s.vim.affine_over_approximation().bounding_box());) BF(vout,F_SLOW|F_APPROX,return dg(dp_(s.vim.outer_approximation(Grid(2u),2)));) B(vimg,ValidatedConstrainedImageSet v(s.vim); v.apply(s.h); return dg(v.bounding_box(),v.dimension());) B(vres,return dg(s.vim.restriction(ExactBoxType({{0,1},{-1,0}})).bounding_box());) BF(vsat,F_SLOW,return dg(s.vim.satisfies(ValidatedConstraint(s.x[0]<=Real(1))));) EF(str,F_APPROX,wr(s.k),wr(s.bk),wr(s.im),wr(s.vim)) B(cpy,ConstraintSet k(s.k); k=ConstraintSet(List<EffectiveConstraint>{s.x[0]<=Real(0)}); ValidatedConstrainedImageSet v(s.vim); v.new_space_constraint(ValidatedConstraint(s.x[1]<=Real(1))); ConstrainedImageSet i(s.im); i.apply(s.h); return dg(v.number_of_constraints(),s.vim.number_of_constraints(),i.dimension(),k.dimension());)
    BF(paff,F_SLOW|F_APPROX,GridTreePaving p(Grid(2u)); AffinePaver().adjoin_outer_approximation(p,s.vim,1); return dg(dp_(p));) BF(psub,F_SLOW|F_APPROX,GridTreePaving p(Grid(2u)); SubdivisionPaver().adjoin_outer_approximation(p,s.vim,1); return dg(dp_(p));) BF(pred,F_SLOW|F_APPROX,GridTreePaving p(Grid(2u)); ReducePaver().adjoin_outer_approximation(p,s.vim,1); return dg(dp_(p));)
}
// ---------------------------------------------------------------- affine sets and zonotopes
struct ASet { ExactBoxType D; Vector<Affine<FloatDPBounds>> y; ValidatedAffineConstrainedImageSet a; ExactBoxType b;
    static Affine<FloatDPBounds> af(Rng& r) { Affine<FloatDPBounds> x0=Affine<FloatDPBounds>::coordinate(2u,0u,dp),x1=Affine<FloatDPBounds>::coordinate(2u,1u,dp); return FloatDPBounds(rs(r),dp)*x0+FloatDPBounds(rs(r),dp)*x1+FloatDPBounds(rs(r),dp); }
    explicit ASet(u64 s) : ASet(Rng(s)) { }
    explicit ASet(Rng r) : D({{-1,1},{-1,1}}), y({af(r),af(r)}), a(D,y), b(xb(r,2)) { a.new_parameter_constraint(af(r)<=FloatDPBounds(1,dp)); }
};
FAMILY(ASet,"geometry") {
    E(abb,s.a.bounding_box()) E(asep,s.a.separated(s.b)) E(ains,s.a.inside(s.b)) EF(aemp,F_SLOW,s.a.is_empty()) E(abnd,s.a.is_bounded()) E(ainfo,s.a.dimension(),s.a.number_of_parameters(),s.a.number_of_constraints(),s.a.domain()) BF(abdy,F_APPROX,auto l=s.a.boundary(0,1); NoFail nf; std::string t; for (auto const& p : l) t+=dg(wr(p)); return t;) BF(aout,F_SLOW|F_APPROX,return dg(dp_(s.a.outer_approximation(Grid(2u),1)));) BF(arob,F_SLOW|F_APPROX,GridTreePaving p(Grid(2u)); s.a.robust_adjoin_outer_approximation_to(p,0); return dg(dp_(p));) EF(str,F_APPROX,wr(s.a)) B(acp,ValidatedAffineConstrainedImageSet a(s.a); a=ValidatedAffineConstrainedImageSet(s.D,s.y); return dg(a.bounding_box());)
}
// ---------------------------------------------------------------- points, curves, and sets of named variables
struct ESet { RealVariable x,y; RealVariablesBox vb; RealExpressionBoundedConstraintSet es; RealExpressionConstraintSet ec; RealSpace sp; InterpolatedCurve cv; 
    explicit ESet(u64 s) : ESet(Rng(s)) { }
    explicit ESet(Rng r) : x("x"), y("y"), vb({RealVariableInterval(Real(-1),x,Real(rs(r)+1)),RealVariableInterval(Real(0),y,Real(2))}), es({RealVariableInterval(Real(-1),x,Real(1)),RealVariableInterval(Real(0),y,Real(2))},{sqr(x)+y*Real(rs(r))<=1}), ec(List<ContinuousPredicate>{sqr(x)+sqr(y)<=Real(1)}), sp({x,y}), cv(FloatDP(0.0_x,dp),Point<FloatDP>({FloatDP(rw(r,-1,1),dp),FloatDP(rw(r,-1,1),dp)})) { for (int i=1;i<4;++i) cv.insert(FloatDP(Dyadic(i),dp),Point<FloatDP>({FloatDP(rw(r,-1,1),dp),FloatDP(rw(r,-1,1),dp)})); }
};
FAMILY(ESet,"geometry") {
    E(vbb,tx(s.vb.euclidean_set(s.sp))) E(vars,tx(s.vb.variables())) E(vel,tx(s.vb[s.x])) B(ebs,BoundedConstraintSet b=s.es.euclidean_set(s.sp); return dg(b.bounding_box(),b.number_of_constraints());) B(ecs,ConstraintSet c=s.ec.euclidean_set(s.sp); return dg(c.number_of_constraints(),c.dimension());) EF(str,F_APPROX,wr(s.vb),wr(s.es),wr(s.ec)) B(cpy,RealExpressionBoundedConstraintSet e(s.es); e=RealExpressionBoundedConstraintSet(s.vb); return dg(tx(e.variables()));)
    E(cinfo,s.cv.size(),s.cv.dimension()) E(cbb,s.cv.bounding_box()) EF(cstr,F_APPROX,wr(s.cv)) B(ccp,InterpolatedCurve c(s.cv); c.insert(FloatDP(9.0_x,dp),Point<FloatDP>(2u,dp)); return dg(c.size(),s.cv.size());)
}
}
