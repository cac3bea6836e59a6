#ifndef SIM_DIGEST_ENCLOSURE_HPP
#define SIM_DIGEST_ENCLOSURE_HPP
#include "digest.hpp"
#include "dynamics/enclosure.hpp"
#include "function/constraint.hpp"
#include "symbolic/space.hpp"
namespace sim {
inline std::string dig(Enclosure const& e) {
    std::string r="E{"+dig(e.domain())+dig(e.reduced_domain())+dig(e.state_function())+dig(e.time_function())+dig(e.dwell_time_function());
    for (auto const& c : e.constraint_models()) r+="c"+dig(c.function())+dig(c.lower_bound())+dig(c.upper_bound());
    for (auto k : e.variable_kinds()) r+=(char)('a'+(int)k);
    return r+"}"; }
inline std::string dig(LabelledEnclosure const& e) { return sdig(e.state_space())+dig(e.euclidean_set()); }
template<class L> std::string dig_list(L const& l) { std::vector<std::string> v; for (auto const& e : l) v.push_back(dig(e)); return sorted(v); }
}
#endif
