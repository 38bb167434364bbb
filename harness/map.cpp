// M01: LUT mapping   M02: LUT based restructuring (lut_opt)   H01: structural choices
#include <fstream>
#include <iostream>
#include "klut_common.hpp"
#include "opt_common.hpp"
#include <database/views/mapping_view.hpp>
#include <operations/algorithms/aig_with_choice.hpp>
#include <operations/algorithms/klut_mapping.hpp>
#include <operations/algorithms/network_to_klut.hpp>
#include <operations/algorithms/detail/convert_to_aig.hpp>
#include <operations/algorithms/cleanup.hpp>
using namespace hx; using namespace iFPGA_NAMESPACE;
typedef mapping_view<aig_with_choice,true,false> mview;
// the mapped network itself: roots cover the outputs, cell functions are right, cells are small enough
static std::vector<uint8_t> meval(const mview& m,const std::vector<uint8_t>& in,unsigned k,unsigned* depth=nullptr){ std::vector<uint8_t> val(m.size(),0),st(m.size(),0); std::vector<unsigned> lv(m.size(),0); bool cover=true,size=true,acyclic=true,arity=true; unsigned c=0; m.foreach_pi([&](auto n){ val[n]=in[c++]; st[n]=2; }); val[0]=0; st[0]=2; std::function<uint8_t(uint64_t)> f=[&](uint64_t n)->uint8_t{ if(st[n]==2) return val[n]; if(st[n]==1){ acyclic=false; return 0; } st[n]=1; if(!m.is_cell_root(n)){ cover=false; st[n]=2; return 0; } uint32_t idx=0; unsigned q=0; unsigned d=0; m.foreach_cell_fanin(n,[&](auto l){ idx|=(uint32_t)f(l)<<q; d=std::max(d,lv[l]); ++q; }); lv[n]=d+1; size&=(q<=k); auto t=m.cell_function(n); if((unsigned)t.num_vars()!=q){ arity=false; st[n]=2; return 0; } uint8_t r=0; for(uint64_t j=0;j<(1ull<<q);++j) r|=(uint8_t)((idx==j)&((t._bits[j>>6]>>(j&63))&1)); val[n]=r; st[n]=2; return r; };
  std::vector<uint8_t> r; unsigned D=0; m.foreach_po([&](auto const& s){ uint64_t n=m.get_node(s); r.push_back(f(n)^(uint8_t)m.is_complemented(s)); D=std::max(D,lv[n]); }); sym_check(acyclic,"the mapping is acyclic"); sym_check(cover,"every output and every cell input is an input, a constant or a cell"); sym_check(size,"every cell has at most cut_size inputs"); sym_check(arity,"cell functions have the arity of the cell"); if(depth) *depth=D; return r; }
static void map_one(const sketch& k,unsigned cs,unsigned lim,bool zero,bool back){ inputs x(k.npi); auto want=k.eval(x.v); aig_network a=k.build(); auto before=snapshot(a); unsigned d0=ref_depth(a); aig_with_choice awc(a); mview m(awc); klut_mapping_params ps; ps.cut_enumeration_ps.cut_size=cs; ps.cut_enumeration_ps.cut_limit=lim; ps.bZeroGain=zero;
  auto q=klut_mapping<mview,true>(m,ps); unsigned D=0; check_equal(meval(m,x.v,cs,&D),want,"the cells of the mapped network compute the outputs"); same_snapshot(a,before); sym_check(D<=d0,"the mapping is not deeper than the network"); sym_check((unsigned)q.delay==D,"the reported delay is the depth of the mapping"); sym_check((unsigned)q.area==m.num_cells(),"the reported area is the number of cells");
  auto o=choice_to_klut<klut_network>(m); sym_check(o.has_value(),"a mapped network converts to a LUT network"); if(!o) return; klut_network& n=*o; sym_check(n.num_pis()==k.npi&&n.num_pos()==k.pos.size(),"the interface (inputs and outputs, in order) is preserved"); check_equal(keval(n,x),want,"every output of the LUT network computes the same function for every input"); check_klut_invariants(n,cs,false,"LUT network");
  { klut_network l; sym_check(network_to_klut(l,m),"a mapped network converts to a LUT network"); check_equal(keval(l,x),want,"every output computes the same function after network_to_klut"); }
  if(back){ aig_network c=convert_klut_to_aig(n); after_opt(c,x,want,k); aig_network e=convert_mapped_graph_to_aig(m); after_opt(e,x,want,k); sym_observe("pos",c.num_pos()); }
  sym_cover("end"); sym_observe("cells",m.num_cells()); }
static const unsigned P[][2]={{6,10},{4,8},{3,6},{2,6},{5,11}};
static void map_small(){ unsigned cfg=(unsigned)sym_choice("cfg",sym_thorough()?3:2); static const unsigned C[][2]={{2,3},{3,3},{3,4}}; sketch k=any_sketch(C[cfg][0],C[cfg][1],false,false,cfg==2); for(auto&g:k.g){ if(sym_choice("pol",2)) g.pa^=1; if(cfg<1&&sym_choice("pol",2)) g.pb^=1; } for(auto&o:k.pos) o.p^=sym_choice("po",2); map_one(k,2+(unsigned)sym_choice("k",3),8,true,false); }
static void map_large(){ sketch k=any_gen(sym_thorough()?20:6,sym_thorough()?DIMS_T:DIMS_Q); auto c=sym_choice("cfg",5); map_one(k,P[c][0],P[c][1],true,false); }
static void opt_small(){ unsigned cfg=(unsigned)sym_choice("cfg",sym_thorough()?3:2); static const unsigned C[][2]={{2,3},{3,3},{3,4}}; sketch k=any_sketch(C[cfg][0],C[cfg][1],false,false,cfg==2); for(auto&g:k.g) if(sym_choice("pol",2)) g.pa^=1; map_one(k,2+(unsigned)sym_choice("k",3),8,false,true); }
static void opt_large(){ sketch k=any_gen(sym_thorough()?20:6,sym_thorough()?DIMS_T:DIMS_Q); auto c=sym_choice("cfg",5); map_one(k,P[c][0],P[c][1],false,true); }
extern "C" void sym_main(const char* h){ std::string s(h); if(s=="map_small") map_small(); else if(s=="map_large") map_large(); else if(s=="opt_small") opt_small(); else if(s=="opt_large") opt_large(); else __builtin_trap(); }
