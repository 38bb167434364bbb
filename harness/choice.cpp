// H01: structural choices (miter of several networks, choice computation, mapping with choices)
#include <fstream>
#include <iostream>
#include "klut_common.hpp"
#include "opt_common.hpp"
#include <database/views/mapping_view.hpp>
#include <operations/algorithms/aig_with_choice.hpp>
#include <operations/algorithms/choice_miter.hpp>
#include <operations/algorithms/choice_computation.hpp>
#include <operations/algorithms/klut_mapping.hpp>
#include <operations/algorithms/network_to_klut.hpp>
#include <operations/algorithms/cleanup.hpp>
#include <operations/optimization/and_balance.hpp>
#include <operations/optimization/refactor.hpp>
#include <operations/optimization/rewrite.hpp>
using namespace hx; using namespace iFPGA_NAMESPACE;
typedef mapping_view<aig_with_choice,true,false> mview;
static aig_network variant(const aig_network& a,unsigned v){ switch(v){ case 0: return cleanup_dangling(a); case 1: return balance_and(a); case 2: { refactor_params p; p.allow_zero_gain=true; p.allow_depth_up=true; aig_network b=cleanup_dangling(a); return refactor(b,p); } default: { rewrite_params p; p.b_preserve_depth=false; p.b_use_zero_gain=true; p.cut_enumeration_ps.cut_size=4; p.cut_enumeration_ps.cut_limit=8; aig_network b=cleanup_dangling(a); return rewrite(b,p); } } }
static void choice_one(const sketch& k,const std::vector<unsigned>& vs,unsigned cs,unsigned lim,const choice_params& ps=choice_params()){ inputs x(k.npi); auto want=k.eval(x.v); aig_network a=k.build(); choice_miter cm; cm.add_aig(std::make_shared<aig_network>(a)); for(auto v:vs){ aig_network b=variant(k.build(),v); cm.add_aig(std::make_shared<aig_network>(b)); }
  aig_network m=cm.merge_aigs_to_miter(); sym_check(m.num_pis()==k.npi&&m.num_pos()==k.pos.size(),"the merged network has the interface of its parts"); check_equal(eval(m,x),want,"every output of the merged network computes the same function");
  choice_computation cc(ps,m); aig_with_choice w=cc.compute_choice(); sym_check(w.num_pis()==k.npi&&w.num_pos()==k.pos.size(),"the network with choices has the same interface"); evaluator e(w,x.v); check_equal(e.outputs(),want,"every output of the network with choices computes the same function"); sym_check(e.acyclic,"the network with choices is acyclic");
  bool eq=true,order=true; unsigned nch=0; for(uint64_t n=0;n<w.size();++n){ uint64_t c=w.get_equiv_node(n); unsigned steps=0; uint64_t p=n; while(c!=aig_network::AIG_NULL){ if(c>=w.size()||++steps>w.size()){ order=false; break; } order&=(c<p); eq&=((uint8_t)(e.node(n)^e.node(c))==(uint8_t)(w.phase(n)^w.phase(c))); ++nch; p=c; c=w.get_equiv_node(c); } }
  sym_check(order,"choice lists are finite and lead to earlier nodes"); sym_check(eq,"every choice computes the function of its representative up to the recorded phase"); if(nch) sym_cover("choices");
  mview mv(w); klut_mapping_params mp; mp.cut_enumeration_ps.cut_size=cs; mp.cut_enumeration_ps.cut_limit=lim; klut_mapping<mview,true>(mv,mp); auto o=choice_to_klut<klut_network>(mv); sym_check(o.has_value(),"a mapped network converts to a LUT network"); if(!o) return; sym_check(o->num_pis()==k.npi&&o->num_pos()==k.pos.size(),"the interface is preserved by mapping with choices"); check_equal(keval(*o,x),want,"every output computes the same function after mapping with choices"); check_klut_invariants(*o,cs,false,"LUT network"); sym_cover("end"); sym_observe("pos",o->num_pos()); }
static const std::vector<unsigned> V[]={{0},{1},{2},{1,2},{3,1,2},{}};
static const unsigned P[][2]={{6,10},{4,8},{3,6}};
// parameter settings that exercise give-up, solver recycling and counterexample refinement
static void ch_param(){ sketch k=any_gen(sym_thorough()?20:4,sym_thorough()?DIMS_T:DIMS_Q); choice_params p; p.nwords=1; switch(sym_choice("param",4)){ case 0: p.BT_limit=1; break; case 1: p.max_sat_var=12; p.calls_recycle=2; break; case 2: p.polar_flip=false; break; default: p.polar_flip=false; p.BT_limit=2; p.max_sat_var=20; p.calls_recycle=1; } choice_one(k,V[1],4,8,p); }
static void ch_large(){ sketch k=any_gen(sym_thorough()?20:3,sym_thorough()?DIMS_T:DIMS_Q); auto c=sym_choice("cfg",3); choice_one(k,V[sym_choice("variants",5)],P[c][0],P[c][1]); }
static void ch_small(){ unsigned cfg=(unsigned)sym_choice("cfg",sym_thorough()?3:2); static const unsigned C[][2]={{2,3},{3,3},{3,4}}; sketch k=any_sketch(C[cfg][0],C[cfg][1],false,false,cfg==2); for(auto&g:k.g) if(sym_choice("pol",2)) g.pa^=1; for(auto&o:k.pos) o.p^=sym_choice("po",2); choice_one(k,V[1+4*sym_choice("variants",2)],4,8); }
extern "C" void sym_main(const char* h){ std::string s(h); if(s=="ch_small") ch_small(); else if(s=="ch_param") ch_param(); else if(s=="ch_large") ch_large(); else __builtin_trap(); }
