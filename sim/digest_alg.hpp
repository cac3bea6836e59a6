// digests of algebraic objects
#ifndef SIM_DIGEST_ALG
#define SIM_DIGEST_ALG
namespace sim {
template<class X> std::string digx(X const& x) { if constexpr (requires { DigN::dig(x); }) return DigN::dig(x); else { std::ostringstream o; o.precision(17); o<<x; return o.str(); } }
template<class I, class X> std::string dige(Expansion<I,X> const& e) { std::string r="E("; for (auto it=e.begin(); it!=e.end(); ++it) { std::ostringstream o; o<<it->index(); r+=o.str()+":"+digx(X(it->coefficient()))+" "; } return r+")"; }
template<class X> std::string dig(Differential<X> const& d) { return "D"+std::to_string(d.degree())+dige(d.expansion()); }
template<class X> std::string dig(Vector<Differential<X>> const& d) { std::string r="DV("; for (SizeType i=0;i!=d.size();++i) r+=dig(Differential<X>(d[i])); return r+")"; }
template<class X> std::string dig(UnivariateDifferential<X> const& d) { std::string r="U("; for (DegreeType i=0;i<=d.degree();++i) r+=digx(d[i]); return r+")"; }
template<class I, class X> std::string dig(Expansion<I,X> const& e) { return dige(e); }
template<class I, class X> std::string dig(SortedExpansion<I,X,GradedIndexLess> const& e) { return dige(static_cast<Expansion<I,X>const&>(e)); }
template<class T> requires requires(T const& t) { DigN::dig(t); } std::string dig(T const& t) { return DigN::dig(t); }
}
#endif
