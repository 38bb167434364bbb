// B01: AND balancing   B02: SOP balancing   D01: cleanup   V01: views
#include "common.hpp"
#include <operations/algorithms/cleanup.hpp>
#include <operations/optimization/and_balance.hpp>
#include <operations/optimization/balancing.hpp>
#include <operations/optimization/balancing/sop_balancing.hpp>
#include <database/views/depth_view.hpp>
#include <database/views/topo_view.hpp>
#include "opt_common.hpp"
using namespace hx; using namespace iFPGA_NAMESPACE;

// ---- B01
static void balance_one(const sketch& k,bool symstruct){ inputs x(k.npi); auto want=k.eval(x.v); aig_network a=k.build(); auto before=snapshot(a); unsigned d0=ref_depth(a);
  aig_network b=balance_and(a);
  after_opt(b,x,want,k); same_snapshot(a,before); unsigned d1=ref_depth(b); sym_check(d1<=d0,"AND balancing never increases the depth"); sym_check(used_gates(b)==b.num_gates(),"the result has no dangling gates");
  { aig_network c=balance_and(b); after_opt(c,x,want,k); sym_check(ref_depth(c)<=d1,"AND balancing never increases the depth"); }
  // the input network stays usable after the call
  { auto p=a.create_pi(); auto g=a.create_and(p,a.make_signal(1)); sym_check(a.is_and(g.index),"the input network can be extended after balancing"); }
  sym_cover("end"); sym_observe("gates",b.num_gates()); sym_observe("depth",d1); }
static void bal_small(){ unsigned cfg=(unsigned)sym_choice("cfg",sym_thorough()?4:3); static const unsigned C[][2]={{2,3},{3,3},{4,3},{3,4}}; sketch k=any_sketch(C[cfg][0],C[cfg][1],cfg==0,true,cfg==3); balance_one(k,true); }
static void bal_large(){ sketch k=any_gen(sym_thorough()?30:10,sym_thorough()?DIMS_T:DIMS_Q); balance_one(k,false); }
// networks with outputs driven by inputs, constants or nothing but inputs
static void bal_edge(){ sketch k; k.npi=1+(unsigned)sym_choice("npi",3); inputs x(k.npi); aig_network a; std::vector<sig> s{a.get_constant(false)}; std::vector<uint8_t> v{0}; for(unsigned i=0;i<k.npi;++i){ s.push_back(a.create_pi()); v.push_back(x.v[i]); } if(k.npi>1&&sym_choice("gate",2)){ s.push_back(a.create_and(s[1],!s[2])); v.push_back(v[1]&(v[2]^1)); } unsigned npo=(unsigned)sym_choice("npo",3); std::vector<uint8_t> want; for(unsigned i=0;i<npo;++i){ unsigned c=(unsigned)sym_choice("drv",s.size()); uint8_t p=(uint8_t)sym_choice("pol",2); a.create_po(p?!s[c]:s[c]); want.push_back(v[c]^p); k.pos.push_back({0,0}); }
  aig_network b=balance_and(a); after_opt(b,x,want,k); aig_network c=cleanup_dangling(a); after_opt(c,x,want,k); sop_rebalancing<aig_network> fn; rebalancing_function_t<aig_network> rf=std::ref(fn); balancing_params ps; ps.cut_enumeration_ps.cut_size=4; ps.cut_enumeration_ps.cut_limit=8; aig_network d=balancing(a,rf,ps); after_opt(d,x,want,k); sym_cover("end"); sym_observe("g",b.num_gates()); }
// ---- B02
static void sop_one(const sketch& k,unsigned cs,unsigned lim,bool mn){ inputs x(k.npi); auto want=k.eval(x.v); aig_network a=k.build(); auto before=snapshot(a); sop_rebalancing<aig_network> fn; rebalancing_function_t<aig_network> rf=std::ref(fn); balancing_params ps; ps.cut_enumeration_ps.cut_size=cs; ps.cut_enumeration_ps.cut_limit=lim; ps.cut_enumeration_ps.minimize_truth_table=mn;
  aig_network b=balancing(a,rf,ps); after_opt(b,x,want,k); same_snapshot(a,before); sym_check(ref_depth(b)<=ref_depth(a),"SOP balancing never increases the depth"); sym_cover("end"); sym_observe("pos",b.num_pos()); }
static void sop_small(){ unsigned cfg=(unsigned)sym_choice("cfg",sym_thorough()?3:2); static const unsigned C[][2]={{2,3},{3,3},{3,4}}; sketch k=any_sketch(C[cfg][0],C[cfg][1],false,false,cfg==2); for(auto&g:k.g){ if(sym_choice("pol",2)) g.pa^=1; if(cfg<1&&sym_choice("pol",2)) g.pb^=1; } sop_one(k,2+(unsigned)sym_choice("k",3),8,sym_choice("min",2)); }
static void sop_large(){ sketch k=any_gen(sym_thorough()?20:8,sym_thorough()?DIMS_T:DIMS_Q); static const unsigned P[][2]={{4,8},{6,11},{3,5}}; auto c=sym_choice("cfg",3); sop_one(k,P[c][0],P[c][1],sym_choice("min",2)); }
extern "C" void sym_main(const char* h){ std::string s(h); if(s=="bal_small") bal_small(); else if(s=="bal_large") bal_large(); else if(s=="bal_edge") bal_edge(); else if(s=="sop_small") sop_small(); else if(s=="sop_large") sop_large(); else __builtin_trap(); }
