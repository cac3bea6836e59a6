// Numbers: exact, real, generic, floating-point in both precisions.
#include "digest_num.hpp"
#include "numeric/real.hpp"
#include "numeric/validated_real.hpp"
#include "numeric/upper_real.hpp"
#include "numeric/lower_real.hpp"
#include "numeric/number.hpp"
#include "numeric/upper_number.hpp"
#include "numeric/lower_number.hpp"
#include "numeric/decimal.hpp"
#include "numeric/complex.hpp"
#include "numeric/sequence.hpp"
#include "numeric/rounded_float.hpp"
#include "numeric/float_literals.hpp"
#include "numeric/logical.hpp"
namespace sim { template<class T> requires requires(T const& t) { DigN::dig(t); } std::string dig(T const& t) { return DigN::dig(t); } }
#include "catalogue.hpp"
namespace sim { CatFam* CatFam::all; CatOp* CatOp::all; }
using namespace Ariadne; using namespace sim;
namespace Ariadne { Decimal operator"" _dec(long double); }
namespace {
static Rational rq(Rng& r) { return Rational(Integer(r.range(-900,900)),Integer(r.range(1,97))); }
static Dyadic rd(Rng& r) { return Dyadic(Integer(r.range(-5000,5000)),(Nat)r.range(0,9)); }
static Rational rpos(Rng& r) { return Rational(Integer(r.range(1,900)),Integer(r.range(1,97))); }
// bounds of every kind of sign: a point, narrow, wide, around zero, with an end at zero, very large or very small
template<class PR> static auto rb(Rng& r, PR pr) -> Bounds<RawFloatType<PR>> { typedef Bounds<RawFloatType<PR>> BT; Rational q=rq(r); long k=r.range(0,8);
    if (k<2) return BT(q,pr); if (k==2) return BT(q,q+Rational(1,1000),pr); if (k<6) { Rational l=-rpos(r), u=rpos(r); return BT(l,u,pr); } if (k==6) return r.chance(1,2)?BT(Rational(0),rpos(r),pr):BT(-rpos(r),Rational(0),pr);
    if (k==7) { Rational l=rq(r); return l<q?BT(l,q,pr):BT(q,l,pr); } Dyadic sc=r.chance(1,2)?Dyadic(pow(Integer(2),(Nat)r.range(20,300))):Dyadic(Integer(1),(Nat)r.range(20,300)); return BT(-rpos(r)*Rational(sc),rpos(r)*Rational(sc),pr); }
static Rational rsmall(Rng& r) { return Rational(Integer(r.range(-90,90)),Integer(100)); }

// ---------------------------------------------------------------- exact numbers
struct Exact { Integer z,w; Dyadic d,e; Decimal c; Rational q,p; Bounds<Dyadic> b; Bounds<Rational> qb;
    explicit Exact(u64 seed) : Exact(Rng(seed)) { }
    explicit Exact(Rng r) : z(Integer(r.range(-100000,100000))*Integer(r.range(1,1000000))), w(r.range(1,5000)), d(rd(r)), e(rd(r)), c(Decimal(Dyadic(Integer(r.range(-500,500)),2u))), q(rq(r)), p(rpos(r)), b(d-Dyadic(1),d+Dyadic(2)), qb(q-Rational(1),q+Rational(1,3)) { } };
FAMILY(Exact,"numeric") {
    E(zadd,s.z+s.w) E(zsub,s.z-s.w) E(zmul,s.z*s.w) E(zdiv,s.z/s.w) E(zpow,pow(s.w,5u)) E(zpown,pow(s.w,-3)) E(zsqr,sqr(s.z)) E(zhlf,hlf(s.z)) E(zabs,abs(s.z)) E(zmax,max(s.z,s.w)) E(zmin,min(s.z,s.w)) E(zquot,quot(s.z,s.w)) E(zrem,rem(s.z,s.w)) E(zrec,rec(s.w)) E(zcmp,s.z<s.w,s.z==s.w)
    B(zinpl, Integer a(s.z); a+=s.w; a*=s.z; a-=s.w; ++a; --a; return dg(a);)
    E(zstr,wr(s.z))
    E(dadd,s.d+s.e) E(dsub,s.d-s.e) E(dmul,s.d*s.e) E(dhlf,hlf(s.d)) E(dsqr,sqr(s.d)) E(dpow,pow(s.d,4u)) E(dneg,-s.d) E(dabs,abs(s.d)) E(dmax,max(s.d,s.e)) E(dcmp,s.d<s.e,s.d==s.e) E(dround,floor(s.d),ceil(s.d),round(s.d))
    B(dinpl, Dyadic a(s.d); a+=s.e; a*=s.d; a-=s.e; return dg(a);)
    E(bops,s.b+s.b,s.b-s.b,s.b*s.b) E(bhlf,hlf(s.b),sqr(s.b))
    E(cadd,s.c+s.c,s.c*s.c,-s.c) E(cstr,wr(s.c)) E(cq,Rational(s.c)+s.q)
    E(qadd,s.q+s.p) E(qsub,s.q-s.p) E(qmul,s.q*s.p) E(qdiv,s.q/s.p) E(qrec,rec(s.p)) E(qpow,pow(s.p,-4),pow(s.q,5)) E(qabs,abs(s.q)) E(qmax,max(s.q,s.p),min(s.q,s.p)) E(qround,floor(s.q),ceil(s.q),round(s.q)) E(qcmp,s.q<s.p,s.q==s.p,s.q>s.p) E(qsqr,sqr(s.q)) E(qhlf,hlf(s.q)) E(qstr,wr(s.q)) E(qd,s.q.get_d())
    B(qinpl, Rational a(s.q); a+=s.p; a*=s.q; a/=s.p; a-=s.q; return dg(a);)
    E(qbops,s.qb+s.qb,s.qb*s.qb,s.qb-s.qb)
    // exact numbers have no largest value
    E(zbig,pow(s.z,(Nat)(40+r.below(160))),wr(pow(s.w,(Nat)(40+r.below(260))))) E(qbig,wr(pow(s.p,(Int)(30+r.below(220)))),wr(-pow(s.p,-(Int)(30+r.below(220))))) E(dbig,wr(pow(s.d,(Nat)(5+r.below(8)))),wr(Rational(Dyadic(Integer(3),(Nat)(10+r.below(200))))))
    E(fromstr,Dyadic(String(r.chance(1,3)?"-12.375":r.chance(1,2)?"0.015625":"1024")),Integer(String("-123456789012345678901234567890")),Decimal(String("-3.14159")),Dyadic(s.z)) E(fromstrdp,FloatDP(String("2.5"),dp),FloatMP(String("-0.75"),MultiplePrecision(80)))
    E(badstr,Dyadic(String("1.2x"))) E(badstrd,Dyadic(String("0.1"))) E(badstrc,Decimal(String(r.chance(1,2)?"1.2.3":"7y"))) E(badstrf,FloatMP(String("0.3"),MultiplePrecision(80)))
    B(qread, std::istringstream i(wr(s.q)); i.exceptions(std::ios::badbit); Rational a; i>>a; return dg(a);)
    B(strs, return dg(Decimal(String("-12.375")),Rational(String("22/7")),Dyadic(Integer(5),3u));)
}
// ---------------------------------------------------------------- floating point, either precision
template<class PR> struct Flt { typedef RawFloatType<PR> F; PR pr; F x,y; Bounds<F> b,c,p; Ball<F> m,n; UpperBound<F> u; LowerBound<F> l; Approximation<F> a,ap; Error<F> er; Rational q; Integer z; Dyadic d;
    explicit Flt(u64 seed) : Flt(Rng(seed),mk(seed)) { }
    static PR mk(u64 s) { if constexpr (std::is_same_v<PR,DoublePrecision>) return PR(); else { static const int k[]={53,64,96,128,192,24}; return MultiplePrecision(k[s%6]); } }
    Flt(Rng r, PR p_) : pr(p_), x(rd(r),pr), y(Dyadic(Integer(r.range(1,5000)),6u),pr), b(rb(r,pr)), c(rsmall(r),pr), p(rpos(r),pr), m(rq(r),pr), n(rpos(r),pr), u(rq(r),pr), l(rq(r),pr), a(rq(r),pr), ap(rpos(r),pr), er((Nat)r.range(0,7),pr), q(rq(r)), z(r.range(-1000000,1000000)), d(rd(r)) { if (r.chance(1,3)) c=c+rb(r,pr)*Bounds<F>(Dyadic(Integer(1),12u),pr); if (r.chance(1,2)) p=Bounds<F>(p.lower_raw(),(p+p).upper_raw()); if (r.chance(1,2)) m=Ball<F>(b); } };
typedef Flt<DoublePrecision> FltDP; typedef Flt<MultiplePrecision> FltMP;
#define FLOAT_OPS \
    E(xadd,add(up,s.x,s.y),add(down,s.x,s.y),add(near,s.x,s.y)) E(xsub,sub(up,s.x,s.y),sub(down,s.x,s.y),sub(near,s.x,s.y)) E(xmul,mul(up,s.x,s.y),mul(down,s.x,s.y),mul(near,s.x,s.y)) E(xdiv,div(up,s.x,s.y),div(down,s.x,s.y),div(near,s.x,s.y)) \
    E(xfma,fma(up,s.x,s.y,s.x),fma(down,s.x,s.y,s.x)) E(xpow,pow(up,s.y,5),pow(down,s.y,5),pow(up,s.y,3u)) E(xsqrt,sqrt(up,s.y),sqrt(down,s.y)) E(xexp,exp(up,hlf(s.y/16).lower_raw()),exp(down,hlf(s.y/16).lower_raw())) E(xlog,log(up,s.y),log(down,s.y)) E(xsin,sin(up,s.x),sin(down,s.x)) E(xcos,cos(up,s.x),cos(down,s.x)) E(xtan,tan(up,s.x),tan(down,s.x)) E(xatan,atan(up,s.x),atan(down,s.x)) E(xrec,rec(up,s.y),rec(down,s.y)) E(xsqr,sqr(up,s.x),sqr(down,s.x)) \
    E(xb,s.x+s.y,s.x-s.y,s.x*s.y,s.x/s.y) E(xhlf,hlf(s.x),-s.x,abs(s.x),max(s.x,s.y),min(s.x,s.y)) E(xcmp,s.x<s.y,s.x==s.y) E(xcmpq,s.x<s.q,s.x>s.q,s.x==s.q) E(xq,Rational(s.x),Dyadic(s.y)) E(xround,floor(s.x),ceil(s.x),round(s.x)) E(xint,cast_integer(s.x)) EF(xstr,F_APPROX,sdig_(s.x)) \
    E(conv,F0(s.q,up,s.pr),F0(s.q,down,s.pr),F0(s.q,near,s.pr)) E(convz,F0(s.z,up,s.pr),F0(s.d,down,s.pr)) \
    E(badd,s.b+s.c) E(bsub,s.b-s.c) E(bmul,s.b*s.c) E(bdiv,s.b/s.p) E(brec,rec(s.p)) E(bsqr,sqr(s.b)) E(bpow,pow(s.b,3u),pow(s.p,-2),pow(s.c,4u)) E(bsqrt,sqrt(s.p)) E(bexp,exp(s.c)) E(blog,log(s.p)) E(bsin,sin(s.b)) E(bcos,cos(s.b)) E(btan,tan(Bounds<FF>(s.y*hlf(hlf(FF(1,s.pr)))) )) E(basin,asin(s.c)) E(bacos,acos(s.c)) E(batan,atan(s.b)) E(babs,abs(s.b)) E(bmax,max(s.b,s.p),min(s.b,s.p)) E(bmag,mag(s.b),mig(s.b)) E(bcmp,s.b<s.c,s.b==s.p,s.b>s.c) E(brefine,refines(s.b,s.c),consistent(s.b,s.c),refinement(s.b,s.b)) E(bfma,fma(s.b,s.c,s.p)) E(bval,s.b.value(),s.b.error(),s.b.lower(),s.b.upper()) EF(bstr,F_APPROX,sdig_(s.b)) E(bint,cast_integer(s.b)) E(bq,Bounds<FF>(s.q,s.pr),Bounds<FF>(s.z,s.pr),Bounds<FF>(s.d,s.pr)) E(bx,s.b+s.x,s.b*s.x,s.x/s.p,s.x-s.b) E(btrunc,trunc(s.b)) \
    E(bconst,s.b+s.q,s.b*s.d,s.b-s.z,s.q/s.p) E(bint2,s.b+1,3*s.b,s.b/7) \
    B(binpl, auto t=s.b; t+=s.c; t*=s.b; t-=s.p; t/=s.p; return dg(t);) \
    E(madd,s.m+s.n) E(msub,s.m-s.n) E(mmul,s.m*s.n) E(mdiv,s.m/s.n) E(mrec,rec(s.n)) E(msqr,sqr(s.m)) E(mpow,pow(s.n,3u),pow(s.m,-2)) E(msqrt,sqrt(s.n)) E(mexp,exp(hlf(rec(s.n)))) E(mlog,log(s.n)) E(msin,sin(s.m)) E(mcos,cos(s.m)) E(mtan,tan(s.n)) E(matan,atan(s.m)) E(mabs,abs(s.m)) E(mmax,max(s.m,s.n),min(s.m,s.n)) E(mcmp,s.m<s.n) EF(mstr,F_APPROX,sdig_(s.m)) E(mlu,s.m.lower(),s.m.upper()) E(mb,Bounds<FF>(s.m)) E(mq,Ball<FF>(s.q,s.pr)) \
    E(uadd,s.u+s.u,s.u-s.l,max(s.u,s.u),hlf(s.u)) E(ladd,s.l+s.l,s.l-s.u,min(s.l,s.l)) E(uneg,-s.u,-s.l) EF(ustr,F_APPROX,sdig_(s.u)+sdig_(s.l)) E(uexp,exp(-s.l*0u),atan(s.u)) \
    E(eadd,s.er+s.er,s.er*s.er) E(emax,max(s.er,s.er)) EF(estr,F_APPROX,sdig_(s.er)) E(epow,pow(s.er,3u)) \
    E(aadd,s.a+s.ap,s.a-s.ap,s.a*s.ap,s.a/s.ap) E(afun,sqrt(s.ap),log(s.ap),sin(s.a),cos(s.a),atan(s.a)) E(aexp,exp(s.a/s.a)) E(apow,pow(s.a,3u),pow(s.ap,-2),sqr(s.a),rec(s.ap)) E(aabs,abs(s.a),max(s.a,s.ap),min(s.a,s.ap)) EF(astr,F_APPROX,sdig_(s.a)) E(acmp,s.a<s.ap) E(aq,Approximation<FF>(s.q,s.pr)) \
    E(nums,ValidatedNumber(s.b).get(s.pr),ValidatedNumber(s.b).get(s.pr)*2,ApproximateNumber(s.a).get(s.pr)) E(genops,(ValidatedNumber(s.b)+ValidatedNumber(s.q)).get(s.pr),(ValidatedNumber(s.p)/ValidatedNumber(s.m)).get(s.pr)) E(gena,(ApproximateNumber(s.a)*ApproximateNumber(s.ap)).get(s.pr))
#define sdig_(x) sim::wr(x)
FAMILY(FltDP,"numeric") { using FF=FloatDP; using F0=FloatDP; FLOAT_OPS
    EF(lit,F_APPROX,s.x.literal(),s.x.literal(up)) E(mp,FloatMP(s.x,MultiplePrecision(80))) E(pm,s.x.pm(s.er))
    B(rounded, Rounded<FloatDP> a(s.x),b(s.y); auto md=FloatDP::get_rounding_mode(); FloatDP::set_rounding_mode(up); auto t=a*b+a/b-sqr(b)+sqrt(b)+exp(a/(b+1000)); FloatDP::set_rounding_mode(md); return dg(FloatDP(t.raw()));) }
FAMILY(FltMP,"numeric") { using FF=FloatMP; using F0=FloatMP; FLOAT_OPS
    E(prec,s.x.precision()) E(dp,FloatDP(s.x,up,dp),FloatDP(s.x,down,dp)) E(reprec,FloatMP(s.x,up,MultiplePrecision(30)),FloatMP(s.b.upper_raw(),down,MultiplePrecision(20)))
    B(setprec, FloatMP a(s.x); a.set_precision(MultiplePrecision(40)); FloatMP b(a); a.set_precision(MultiplePrecision(200)); return dg(a,b);)
    B(defprec, FloatMP a(Dyadic(7),MultiplePrecision(70)); FloatMP b(a); a=s.x; std::swap(a,b); return dg(a,b);)
    B(ballmixed, Ball<FloatMP,FloatDP> a(s.q,s.pr,dp); return dg(a+a,a*a);) }
// ---------------------------------------------------------------- reals and generic numbers
struct Reals { Real r,t,p,small_,deep; EffectiveNumber n; ValidatedNumber v; ApproximateNumber a; ExactNumber e; ConvergentSequence<DyadicBounds> cs; FastCauchySequence<Dyadic> fs; Real lim1, lim2; LowerReal lr; UpperReal ur;
    explicit Reals(u64 seed) : Reals(Rng(seed)) { }
    explicit Reals(Rng g) : r(rq(g)), t(Decimal(Dyadic(Integer(g.range(-300,300)),3u))), p(rpos(g)), small_(rsmall(g)), deep(r), n(Real(rq(g))), v(rq(g)), a(ApproximateNumber(rq(g))), e(rd(g)),
        cs([](Natural k){ Dyadic w(Integer(1),2u); Dyadic rad(Integer(1),(Nat)k.get_si()); return DyadicBounds(w-rad,w+rad); }), fs([](Natural k){ return Dyadic(Integer(3),2u)+Dyadic(Integer(1),(Nat)k.get_si()+2u); }), lim1(cs), lim2(fs), lr(r.lower()), ur(t.upper()) {
        for (int i=0;i<4;++i) { switch (g.below(5)) { case 0: deep=deep+t; break; case 1: deep=deep*small_; break; case 2: deep=sin(deep); break; case 3: deep=sqr(deep)-p; break; default: deep=exp(small_)*atan(deep); } } } };
FAMILY(Reals,"numeric") {
    E(dp,s.r.get(dp),s.t.get(dp)) E(mp,s.r.get(MultiplePrecision(96)),s.deep.get(MultiplePrecision(64))) E(deepdp,s.deep.get(dp)) E(using_,s.deep.compute_using(dp),s.deep.compute_using(MultiplePrecision(70))) E(eff,s.deep.compute(Effort(5)).get()) E(acc,s.p.compute(Accuracy(Nat(20))).get()) E(acc2,(s.r*s.t).compute(Accuracy(Nat(40))).get())
    E(getd,s.deep.get_d()) EF(str,F_APPROX,sim::wr(s.deep)) E(arith,(s.r+s.t).get(dp),(s.r-s.t).get(dp),(s.r*s.t).get(dp),(s.r/s.p).get(dp)) E(fun,sqrt(s.p).get(dp),exp(s.small_).get(dp),log(s.p).get(dp)) E(trig,sin(s.r).get(dp),cos(s.t).get(dp),tan(s.small_).get(dp)) E(atrig,atan(s.r).get(dp)) E(lat,abs(s.r).get(dp),max(s.r,s.t).get(dp),min(s.r,s.t).get(dp)) E(pw,pow(s.r,3).get(dp),sqr(s.t).get(dp),rec(s.p).get(dp),hlf(s.r).get(dp)) E(dst,dist(s.r,s.t).get(dp))
    E(cmp,(s.r<s.t).check(Effort(10)),(s.r==s.t).check(Effort(8)),(s.p>s.r).check(Effort(9))) E(sg,sgn(s.deep).check(Effort(9))) E(rnd,round(s.r)) E(pi,pi.get(dp),pi.get(MultiplePrecision(120))) E(nondet,nondeterministic_greater(s.r,Rational(-1),Rational(1)))
    E(lim,s.lim1.get(dp),s.lim2.get(dp)) E(limeff,s.lim1.compute(Effort(12)).get(),s.lim2.compute(Effort(9)).get()) E(seq,s.cs[Natural(7u)],s.fs[Natural(6u)]) E(limacc,s.lim2.compute(Accuracy(Nat(16))).get())
    E(lueff,s.lr.compute(Effort(6)).get(),s.ur.compute(Effort(6)).get()) E(vr,s.deep.compute(Effort(30)).get(dp))
    E(nget,s.n.get(dp),s.n.get(MultiplePrecision(90))) E(vget,s.v.get(dp),s.v.get(MultiplePrecision(60))) E(aget,s.a.get(dp)) E(nadd,(s.n+s.n).get(dp),(s.n*s.n).get(dp)) E(mixed,(s.n+EffectiveNumber(s.r)).get(dp),(s.v*ValidatedNumber(s.e)).get(dp)) E(exn,(s.e+s.e).get(dp),sqr(s.e).get(dp)) E(nfun,sin(s.n).get(dp),exp(EffectiveNumber(s.small_)).get(dp),atan(s.v).get(dp)) E(ndiv,(s.v/ValidatedNumber(Rational(3))).get(dp),rec(ValidatedNumber(s.p)).get(dp)) E(ncmp,(s.n<s.n*2)) E(nstr,sim::wr(s.n),sim::wr(s.v),sim::wr(s.e)) E(aops,(s.a+s.a*s.a).get(dp),sqrt(abs(s.a)).get(dp)) E(nmax,max(s.v,ValidatedNumber(s.e)).get(dp)) E(ball,s.v.get(dp,dp))
    B(inpl, Real x(s.r); x+=s.t; x*=s.p; x-=s.small_; x/=s.p; return dg(x.get(dp));) B(ninpl, ValidatedNumber x(s.v); x+=ValidatedNumber(s.e); x*=s.v; return dg(x.get(dp));)
    B(same_, return dg((bool)same(s.deep,s.deep),(bool)same(s.r,s.t));)
    B(casez, auto k=choose({s.r<Real(100000),s.t},{s.r>Real(-100000),s.t}); return dg(k.get(dp));)
    B(whenz, auto k=when({s.p>=Real(0),s.p},{s.p<=Real(0),-s.p}); return dg(k.get(dp));)
    E(logical,((s.r<s.t)&&(s.t<s.p)).check(Effort(6)),((s.r<s.t)||!(s.t<s.p)).check(Effort(6)))
}
// ---------------------------------------------------------------- complex
struct Cplx { Complex<FloatDPBounds> z,w; Complex<FloatMPBounds> m; Complex<Real> r;
    explicit Cplx(u64 seed) : Cplx(Rng(seed)) { }
    explicit Cplx(Rng g) : z(FloatDPBounds(rq(g),dp),FloatDPBounds(rpos(g),dp)), w(FloatDPBounds(rpos(g),dp),FloatDPBounds(rpos(g),dp)), m(FloatMPBounds(rpos(g),MultiplePrecision(80)),FloatMPBounds(rq(g),MultiplePrecision(80))), r(Real(rpos(g)),Real(rq(g))) { } };
template<class X> static std::string dc(Complex<X> const& c) { return "("+sim::dg(c.real_part())+"+i"+sim::dg(c.imaginary_part())+")"; }
FAMILY(Cplx,"numeric") {
    E(add,dc(s.z+s.w),dc(s.z-s.w)) E(mul,dc(s.z*s.w),dc(sqr(s.z))) E(div,dc(s.z/s.w),dc(rec(s.w))) E(mp,dc(s.m*s.m),dc(s.m/s.m)) E(cj,dc(conj(s.z))) E(ab,abs(s.w)) E(arg_,arg(s.w)) E(ex,dc(exp(s.z/(s.z+s.w)))) E(rl,(s.r*s.r).real_part().get(dp),(s.r+s.r).imaginary_part().get(dp)) EF(str,F_APPROX,sim::wr(s.z))
}
}
