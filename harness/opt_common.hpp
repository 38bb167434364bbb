// shared by the harnesses of optimisation passes
#pragma once
#include "common.hpp"
namespace hx {
static const std::vector<std::pair<unsigned,unsigned>> DIMS_Q{{4,10},{6,24},{9,60}}, DIMS_T{{4,10},{5,18},{6,30},{8,60},{10,110},{12,160}};
inline std::vector<uint64_t> snapshot(const aig_network& a){ std::vector<uint64_t> r{a.size(),a.num_pis(),a.num_pos(),a.num_gates()}; a.foreach_gate([&](auto n){ r.push_back(n); r.push_back(a.get_child0(n).data); r.push_back(a.get_child1(n).data); r.push_back(a.fanout_size(n)); }); a.foreach_po([&](auto const& s){ r.push_back(sig(s).data); }); return r; }
inline void same_snapshot(const aig_network& a,const std::vector<uint64_t>& b){ sym_check(snapshot(a)==b,"the input network is left as it was"); }
// depth computed independently (longest path from an output, in gates); cycles are reported by eval
inline std::vector<unsigned> ref_levels(const aig_network& a){ std::vector<unsigned> l(a.size(),0); std::vector<uint8_t> st(a.size(),0); std::function<unsigned(uint64_t)> f=[&](uint64_t n)->unsigned{ if(n>=l.size()||n==0||a.is_ci(n)||st[n]) return n<l.size()?l[n]:0; st[n]=1; unsigned x=f(a.get_child0(n).index),y=f(a.get_child1(n).index); return l[n]=1+std::max(x,y); }; for(uint64_t n=0;n<a.size();++n) if(!a.is_dead(n)) f(n); return l; }
inline unsigned ref_depth(const aig_network& a){ auto l=ref_levels(a); unsigned d=0; a.foreach_co([&](auto const& s){ d=std::max(d,l[sig(s).index]); }); return d; }
// gates in the cones of the outputs
inline unsigned used_gates(const aig_network& a){ std::vector<uint8_t> m(a.size(),0); unsigned c=0; std::function<void(uint64_t)> f=[&](uint64_t n){ if(n>=m.size()||m[n]||n==0||a.is_ci(n)) return; m[n]=1; ++c; f(a.get_child0(n).index); f(a.get_child1(n).index); }; a.foreach_co([&](auto const& s){ f(sig(s).index); }); return c; }
inline void after_opt(const aig_network& b,const inputs& x,const std::vector<uint8_t>& want,const sketch& k){ sym_check(b.num_pis()==k.npi&&b.num_pos()==k.pos.size(),"the interface (inputs and outputs, in order) is preserved"); auto got=eval(b,x); check_equal(got,want,"every output computes the same function for every input"); check_aig_invariants(b,true,true,"result"); }
}
