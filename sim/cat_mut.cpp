// Numbers, arrays, lists, vectors, matrices, expansions and differentials changed in place.
#include "digest_num.hpp"
#include "numeric/real.hpp"
#include "numeric/decimal.hpp"
#include "algebra/vector.hpp"
#include "algebra/covector.hpp"
#include "algebra/matrix.hpp"
#include "algebra/matrix.tpl.hpp"
#include "algebra/differential.hpp"
#include "algebra/univariate_differential.hpp"
#include "algebra/expansion.hpp"
#include "algebra/multi_index.hpp"
#include "utility/array.hpp"
#include "utility/container.hpp"
#include "utility/lru_cache.hpp"
#include "digest_alg.hpp"
#include "mutables.hpp"
using namespace Ariadne; using namespace sim; using sim::dg; using sim::Rng; using sim::wr;
namespace {
static Rational rq(Rng& r) { return Rational(Integer(r.range(-900,900)),Integer(r.range(1,97))); }
static Rational rp(Rng& r) { return Rational(Integer(r.range(1,300)),Integer(r.range(1,97))); }
static MultiplePrecision rpr(Rng& r) { static const int k[]={24,53,64,96,128,192,300}; return MultiplePrecision(k[r.below(7)]); }
// ---------------------------------------------------------------- numbers
struct MNum { Integer z; Dyadic d; Decimal c; Rational q; FloatMP x; FloatMPBounds b; FloatDPBounds p; FloatMPBall m; Real y;
    explicit MNum(u64 s) : MNum(Rng(s)) { } explicit MNum(Rng r) : z(r.range(-9999,9999)), d(Integer(r.range(-99,99)),3u), c(Decimal(Dyadic(Integer(r.range(-99,99)),2u))), q(rq(r)), x(Dyadic(Integer(r.range(-99,99)),3u),rpr(r)), b(rq(r),rpr(r)), p(rq(r),dp), m(rq(r),rpr(r)), y(rq(r)) { }
    std::string digest() const { return dg(z,d,q,x)+dg(b,p,m)+dg(c)+dg(y.get(dp)); } };
MUTABLE(MNum,"numeric") {
    M(zadd,s.z+=Integer(r.range(-99999,99999));) M(zmul,if (abs(s.z)<pow(Integer(10),200u)) s.z*=Integer(r.range(2,99999)); else s.z=7;) M(zsub,s.z-=s.z;) M(zasg,Integer t(s.z); s.z=t*t; s.z=t;) M(zself,s.z=s.z; s.z+=s.z;) M(zbig,s.z=pow(Integer(r.range(2,99)),(Nat)r.range(5,90));) M(zinc,++s.z; ++s.z; --s.z;)
    M(dadd,s.d+=Dyadic(Integer(r.range(-99,99)),(Nat)r.below(9));) M(dasg,Dyadic t(s.d); s.d=Dyadic(Integer(r.range(-999,999)),(Nat)r.below(40)); if (r.chance(1,2)) s.d=t;) M(dself,s.d=s.d; s.d+=s.d; s.d-=s.d; s.d=Dyadic(s.z/Integer(1)==s.q?1:3);) M(cadd,s.c=s.c+Decimal(Dyadic(Integer(r.range(-99,99)),1u));) M(casg,Decimal t(s.c); s.c=Decimal(Dyadic(Integer(r.range(-99,99)),2u)); std::swap(t,s.c);)
    M(qadd,s.q+=rq(r);) M(qmul,s.q*=rp(r); if (abs(s.q)>Rational(1000000)) s.q=rp(r);) M(qdiv,s.q/=rp(r); if (abs(s.q)>Rational(1000000)) s.q=rp(r);) M(qasg,Rational t(s.q); s.q=rq(r); std::swap(s.q,t);) M(qself,s.q=s.q; s.q+=s.q; s.q-=s.q; s.q=rp(r);)
    M(xasg,FloatMP t(Dyadic(Integer(r.range(-99,99)),2u),rpr(r)); s.x=t;) M(xmove,FloatMP t(Dyadic(Integer(r.range(-99,99)),2u),rpr(r)); FloatMP u(t); s.x=std::move(t); t=s.x; s.x=u;) M(xprec,s.x.set_precision(rpr(r));) M(xself,s.x=s.x; s.x=-s.x;) M(xadd,s.x=add(up,s.x,FloatMP(3,rpr(r)));) M(xswap,FloatMP t(Dyadic(Integer(r.range(-99,99)),2u),rpr(r)); std::swap(t,s.x); t=s.x; s.x=t;)
    M(badd,s.b+=FloatMPBounds(rq(r),rpr(r));) M(bmul,s.b*=FloatMPBounds(rp(r),s.b.precision());) M(bdiv,s.b/=FloatMPBounds(rp(r),s.b.precision());) M(basg,s.b=FloatMPBounds(rq(r),rpr(r));) M(bself,s.b-=s.b; s.b=s.b; s.b+=FloatMPBounds(rq(r),s.b.precision());) M(padd,s.p+=FloatDPBounds(rq(r),dp); s.p*=FloatDPBounds(rp(r),dp); s.p=s.p/2;) M(masg,s.m=FloatMPBall(rq(r),rpr(r)); s.m+=s.m;) M(yset,s.y=Real(rq(r)); if (r.chance(1,2)) s.y=s.y*s.y+Real(1);) }
// ---------------------------------------------------------------- arrays and lists
struct MArr { Array<FloatMP> a; Array<Integer> z; List<Rational> l; Map<String,Integer> m; Set<String> t; Array<SizeType> n;
    explicit MArr(u64 s) : MArr(Rng(s)) { } explicit MArr(Rng r) : a((SizeType)r.range(0,6),FloatMP(1,MultiplePrecision(64))), z({Integer(3),Integer(4)}), n({SizeType(1),SizeType(2)}) { for (long i=r.range(0,4);i>0;--i) l.append(rq(r)); }
    std::string digest() const { std::string o; for (auto& x : a) o+=dg(x); for (auto& x : z) o+=dg(x); for (auto& x : l) o+=dg(x); for (auto& x : m) o+=x.first+dg(x.second); for (auto& x : t) o+=x; for (auto& x : n) o+=std::to_string(x); return o+";"+std::to_string(a.size())+std::to_string(z.size()); } };
MUTABLE(MArr,"utility") {
    M(resz,s.z.resize((SizeType)r.range(0,9));) M(resn,s.n.resize((SizeType)r.range(0,9)); for (auto& x : s.n) x=7;) M(filla,s.a.fill(FloatMP(r.range(-9,9),MultiplePrecision(80)));) M(asga,Array<FloatMP> b((SizeType)r.range(0,9),FloatMP(2,rpr(r))); s.a=b; if (r.chance(1,2)) s.a=s.a;) M(asgz,Array<Integer> b((SizeType)r.range(0,9),Integer(r.range(0,99))); s.z=b;) M(asgl,Array<Integer> b((SizeType)r.range(1,9),Integer(r.range(0,99))); s.z.assign(b.begin(),b.end());)
    M(movz,Array<Integer> b({Integer(1),Integer(2),Integer(r.range(0,9))}); s.z=std::move(b); b=s.z;) M(swapz,Array<Integer> b({Integer(r.range(0,9))}); s.z.swap(b); Array<Integer> c(b); s.z=c;) M(resza,s.a=Array<FloatMP>(s.a.size()+1,FloatMP(5,rpr(r))); if (s.a.size()>8) s.a=Array<FloatMP>(0u,FloatMP(0,MultiplePrecision(64)));)
    M(lapp,s.l.append(rq(r)); s.l.append(rq(r));) M(lcat,List<Rational> k(s.l); k.append(rq(r)); if (s.l.size()<20) s.l.append(k); else s.l=List<Rational>();) M(lpop,if (!s.l.empty()) s.l.pop_back();) M(lself,s.l=s.l;)
    M(mins,s.m.insert(String(1,'a'+(char)r.below(9))+"a rather long key of the map",Integer(r.range(0,99)));) M(mset,s.m[String(1,'a'+(char)r.below(9))+"a rather long key of the map"]=Integer(r.range(0,99));) M(mera,s.m.erase(String(1,'a'+(char)r.below(9))+"a rather long key of the map");) M(madj,Map<String,Integer> o; o["zz"]=Integer(4); o["another long key for the other map"]=Integer(6); s.m.adjoin(o);) M(mrest,Set<String> k({String(1,'a'+(char)r.below(9))+"a rather long key of the map","zz"}); s.m=restrict_keys(s.m,k);)
    M(tins,s.t.insert(String(1,'a'+(char)r.below(9))+"a rather long element of the set");) M(tadj,s.t.adjoin(Set<String>({"yy","one more long element of a set"}));) M(trem,s.t.remove(Set<String>({"yy"}));) M(trest,s.t.restrict(Set<String>({"yy","aa rather long element of the set","one more long element of a set"}));) }
// ---------------------------------------------------------------- cache
struct MLru { LRUCache<String,Integer> c; explicit MLru(u64 s) : c((SizeType)(1+s%4)) { }
    std::string digest() const { std::string o; auto& k=const_cast<LRUCache<String,Integer>&>(c); for (char h='a';h<'i';++h) { String l=String(1,h)+" the label of an element"; if (k.has_label(l)) { SizeType a=k.age(l); o+=h+std::to_string(a)+","; if (a>=k.current_size()) o+="(@! age out of range)"; } } o+=std::to_string(c.current_size())+"/"+std::to_string(c.maximum_size()); if (c.current_size()>c.maximum_size()) o+="(@! too many)"; return o; } };
MUTABLE(MLru,"utility") {
    M(put,String l=String(1,'a'+(char)r.below(8))+" the label of an element"; if (!s.c.has_label(l)) s.c.put(l,Integer(r.range(0,99)));) M(get,String l=String(1,'a'+(char)r.below(8))+" the label of an element"; if (s.c.has_label(l)) s.c.get(l);) M(use,String l=String(1,'a'+(char)r.below(8))+" the label of an element"; if (s.c.has_label(l)) s.c.get(l); else s.c.put(l,pow(Integer(3),(Nat)r.below(90)));) }
// ---------------------------------------------------------------- indices
struct MIdx { MultiIndexList l; MultiIndex a; explicit MIdx(u64 s) : MIdx(Rng(s)) { } explicit MIdx(Rng r) : l((SizeType)r.range(0,3),MultiIndex({1,2,0})), a({0,1,1}) { }
    std::string digest() const { std::string o; for (SizeType i=0;i!=l.size();++i) { for (SizeType j=0;j!=3;++j) o+=std::to_string((int)l[i][j]); o+=" "; } for (SizeType j=0;j!=a.size();++j) o+=std::to_string((int)a[j]); return o+"/"+std::to_string(l.size()); } };
MUTABLE(MIdx,"algebra") {
    M(app,s.l.append(MultiIndex({(DegreeType)r.below(5),(DegreeType)r.below(5),(DegreeType)r.below(5)}));) M(app8,for (int i=0;i<8;++i) s.l.append(MultiIndex({(DegreeType)r.below(5),(DegreeType)i,1}));) M(sum,if (s.l.size()>0) { MultiIndex b(s.l[0]); s.l.append_sum(b,MultiIndex({1,0,1})); } if (s.l.size()>40) s.l.resize(3);) M(resize,SizeType n=s.l.size(), m=(SizeType)r.range(0,12); s.l.resize(m); for (SizeType i=n;i<m;++i) s.l[i]=MultiIndex({1,1,1});) M(reserve,s.l.reserve((SizeType)r.range(0,40));)
    M(set,if (s.l.size()) s.l[r.below(s.l.size())]=MultiIndex({3,2,(DegreeType)r.below(9)});) M(asg,MultiIndexList k((SizeType)r.range(0,9),MultiIndex({2,2,2})); s.l=k;) M(mov,MultiIndexList k((SizeType)r.range(1,9),MultiIndex({2,0,2})); MultiIndexList h(k); s.l=std::move(k); k=h;) M(self,s.l=s.l;) M(copy,MultiIndexList k(s.l); k.append(MultiIndex({9,9,9})); s.l=k;)
    M(aset,s.a=MultiIndex({(DegreeType)r.below(9),1,2});) M(ainc,++s.a;) M(aadd,s.a+=MultiIndex({1,0,(DegreeType)r.below(2)}); if (s.a.degree()>60) s.a=MultiIndex({0,0,1});) M(amov,MultiIndex b({1,2,3}); MultiIndex c(s.a); s.a=std::move(b); b=c; s.a=b;) M(ares,s.a=MultiIndex::unit(3,r.below(3));) }
// ---------------------------------------------------------------- expansions
template<class X> struct MExpOf { Expansion<MultiIndex,X> e; SortedExpansion<MultiIndex,X,GradedIndexLess> g; X z;
    static X mk(Rng& r) { if constexpr (std::is_same_v<X,FloatDPBounds>) return X(rq(r),dp); else return X(rq(r),rpr(r)); }
    static MultiIndex ix(Rng& r) { return MultiIndex({(DegreeType)r.below(3),(DegreeType)r.below(3),(DegreeType)r.below(3)}); }
    explicit MExpOf(u64 s) : MExpOf(Rng(s)) { } explicit MExpOf(Rng r) : e(3u,mk(r)), g(3u,mk(r)), z(mk(r)) { }
    template<class EE> static std::string de(EE const& e) { std::string o; for (auto t : e) { for (SizeType j=0;j!=3;++j) o+=std::to_string((int)t.index()[j]); X c(t.coefficient()); o+=dg(c); } return o+"/"+std::to_string(e.size()); }
    std::string digest() const { std::string o=de(e)+de(g); return o; } };
typedef MExpOf<FloatDPBounds> MExpDP; typedef MExpOf<FloatMPBounds> MExpMP;
#define EXP_MUTS M(app,s.e.append(S::ix(r),S::mk(r));) M(app9,for (int i=0;i<9;++i) s.e.append(S::ix(r),S::mk(r));) M(apps,s.e.append_sum(S::ix(r),S::ix(r),S::mk(r));) M(prep,s.e.prepend(S::ix(r),S::mk(r));) M(shrink,if (s.e.size()>4) s.e.resize(r.below(4));) M(reserve,s.e.reserve((SizeType)r.below(40));) M(clear,s.e.clear();) M(sortg,s.e.sort(GradedIndexLess());) M(sortr,s.e.sort(ReverseLexicographicIndexLess());) M(comb,s.e.sort(GradedIndexLess()); s.e.combine_terms();) M(rmz,s.e.append(S::ix(r),nul(s.z)); s.e.remove_zeros();) \
    M(swap,Expansion<MultiIndex,X> t(3u,S::mk(r)); t.append(S::ix(r),S::mk(r)); s.e.swap(t); s.e.append(S::ix(r),S::mk(r)); t=s.e;) M(asg,Expansion<MultiIndex,X> t(3u,S::mk(r)); for (long i=r.below(20);i>0;--i) t.append(S::ix(r),S::mk(r)); s.e=t;) M(mov,Expansion<MultiIndex,X> t(s.e); t.append(S::ix(r),S::mk(r)); Expansion<MultiIndex,X> k(t); s.e=std::move(t); t=k;) M(self,s.e=s.e;) M(erase,if (s.e.size()) s.e.erase(s.e.begin());) M(copy,Expansion<MultiIndex,X> k(s.e); k.append(S::ix(r),S::mk(r)); s.e=k;) \
    M(gset,s.g.set(S::ix(r),S::mk(r));) M(gat,s.g.at(S::ix(r))=S::mk(r);) M(gsrt,s.g.sort();) M(gclear,s.g.clear();) M(gcopy,auto t=s.g; t.set(S::ix(r),S::mk(r)); s.g=t;) M(gasg,s.g=SortedExpansion<MultiIndex,X,GradedIndexLess>(s.g);)
MUTABLE(MExpDP,"algebra") { using X=FloatDPBounds; EXP_MUTS }
MUTABLE(MExpMP,"algebra") { using X=FloatMPBounds; EXP_MUTS }
// ---------------------------------------------------------------- vectors, matrices, differentials
struct MLin { typedef FloatMPBounds X; Vector<X> v; Matrix<Rational> A; Matrix<X> Bm; Covector<X> w; Differential<FloatDPBounds> d; Differential<X> dm; UnivariateDifferential<X> u; Vector<Differential<FloatDPBounds>> dv;
    static X mk(Rng& r) { return X(rq(r),MultiplePrecision(96)); }
    explicit MLin(u64 s) : MLin(Rng(s)) { } explicit MLin(Rng r) : v(3u,mk(r)), A(2u,2u,rq(r)), Bm(2u,3u,mk(r)), w(2u,mk(r)), d(Differential<FloatDPBounds>::variable(2u,3u,FloatDPBounds(rq(r),dp),0u)), dm(Differential<X>::variable(2u,2u,mk(r),1u)), u(UnivariateDifferential<X>::variable(3u,mk(r))), dv(2u,2u,2u,dp) { }
    std::string digest() const { return dg(v,A,Bm)+dg(w)+dg(d,dm)+dg(u)+dg(dv[0],dv[1]); } };
MUTABLE(MLin,"algebra") { using X=FloatMPBounds;
    M(vset,s.v[r.below(s.v.size())]=S::mk(r);) M(vadd,s.v+=s.v;) M(vsub,s.v-=Vector<X>(s.v.size(),S::mk(r));) M(vmul,s.v*=S::mk(r);) M(vasg,s.v=Vector<X>((SizeType)r.range(1,5),S::mk(r));) M(vjoin,if (s.v.size()<6) s.v=join(s.v,S::mk(r)); else s.v=project(s.v,Range(1u,4u));) M(vself,s.v=s.v;) M(vneg,s.v=-s.v;)
    M(aset,s.A[0][1]=rq(r);) M(aasg,SizeType n=(SizeType)r.range(2,4); s.A=Matrix<Rational>(n,n,rq(r)); for (SizeType i=0;i!=n;++i) s.A[i][i]=Rational(999)+rq(r);) M(amul,Matrix<Rational> t(s.A); s.A=s.A*t; s.A=Matrix<Rational>(2u,2u,rq(r));) M(aadd,s.A+=s.A; s.A-=Matrix<Rational>(s.A.row_size(),s.A.column_size(),rq(r)); s.A*=Rational(1,3);) M(atr,s.A=transpose(s.A);) M(ares,s.A.resize((SizeType)r.range(1,4),2u); for (SizeType i=0;i!=s.A.row_size();++i) for (SizeType j=0;j!=2;++j) s.A[i][j]=rq(r); if (s.A.row_size()!=2) s.A=Matrix<Rational>(2u,2u,rq(r));)
    M(bset,s.Bm[1][2]=S::mk(r);) M(bmul,s.Bm=s.A.row_size()==2?Matrix<X>(s.Bm+s.Bm):s.Bm;) M(basg,s.Bm=Matrix<X>(2u,(SizeType)r.range(1,5),S::mk(r)); s.Bm=Matrix<X>(2u,3u,S::mk(r));) M(bself,s.Bm=s.Bm;) M(wmul,s.w*=S::mk(r); s.w+=s.w;) M(wasg,s.w=Covector<X>((SizeType)r.range(1,4),S::mk(r));)
    M(dadd,s.d+=s.d; s.d+=FloatDPBounds(rq(r),dp);) M(dmul,s.d*=FloatDPBounds(rq(r),dp);) M(dprod,s.d=s.d*s.d+s.d; s.d=s.d/FloatDPBounds(1000,dp);) M(dsub,s.d-=Differential<FloatDPBounds>::variable(2u,3u,FloatDPBounds(rq(r),dp),1u);) M(dset,s.d.set_value(FloatDPBounds(rq(r),dp)); s.d.set_gradient(0u,FloatDPBounds(rq(r),dp));) M(dself,s.d=s.d;) M(dexp,s.d=exp(s.d/FloatDPBounds(100000,dp));) M(dclear,s.d.clear(); s.d.set_degree(3u); s.d+=FloatDPBounds(rq(r),dp);)
    M(mmul,s.dm*=S::mk(r); s.dm+=S::mk(r);) M(mprod,s.dm=s.dm*s.dm; s.dm/=S::mk(r)+X(1000,MultiplePrecision(96));) M(masg,s.dm=Differential<X>::constant(2u,2u,S::mk(r));) M(umul,s.u=s.u*s.u; s.u/=X(1000,MultiplePrecision(96));) M(uadd,s.u=s.u+S::mk(r); s.u=s.u*S::mk(r);) M(uasg,s.u=UnivariateDifferential<X>::constant(3u,S::mk(r));)
    M(dvset,s.dv[r.below(2)]=Differential<FloatDPBounds>::variable(2u,2u,FloatDPBounds(rq(r),dp),r.below(2));) M(dvadd,s.dv+=s.dv;) M(dvself,s.dv=s.dv;) }
}
