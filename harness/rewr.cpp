// R01: DAG-aware rewriting
#include "common.hpp"
#include <operations/algorithms/cleanup.hpp>
#include <operations/optimization/rewrite.hpp>
#include "opt_common.hpp"
using namespace hx; using namespace iFPGA_NAMESPACE;
// the resynthesis database (65536 canonizations) is built once, before any symbolic value exists; each path uses the library code on it
static node_rewriting<aig_network>* DB;
struct rparm { unsigned cut,limit; bool depth,zero; };
static void rewrite_one(const sketch& k,const rparm& p,bool twice){ inputs x(k.npi); auto want=k.eval(x.v); aig_network a=k.build(); unsigned g0=used_gates(a), d0=ref_depth(a); rewrite_params ps; ps.cut_enumeration_ps.cut_size=p.cut; ps.cut_enumeration_ps.cut_limit=p.limit; ps.b_preserve_depth=p.depth; ps.b_use_zero_gain=p.zero;
  aig_network b=detail::rewrite_impl<aig_network,node_rewriting<aig_network>>{a,*DB,ps}.run(); after_opt(b,x,want,k); sym_check(b.num_gates()<=g0,"rewriting never increases the number of gates"); if(p.depth) sym_check(ref_depth(b)<=d0,"rewriting never increases the depth when it must preserve it"); sym_cover(b.num_gates()<g0?"improved":"end");
  if(twice){ unsigned g1=used_gates(b),d1=ref_depth(b); aig_network c=detail::rewrite_impl<aig_network,node_rewriting<aig_network>>{b,*DB,ps}.run(); after_opt(c,x,want,k); sym_check(c.num_gates()<=g1,"rewriting never increases the number of gates"); if(p.depth) sym_check(ref_depth(c)<=d1,"rewriting never increases the depth when it must preserve it"); } sym_observe("pos",b.num_pos()); }
static void small(){ unsigned cfg=(unsigned)sym_choice("cfg",sym_thorough()?3:2); static const unsigned C[][2]={{4,3},{4,4},{4,5}}; sketch k=any_sketch(C[cfg][0],C[cfg][1],false,false,cfg>0); for(auto&g:k.g){ if(sym_choice("pol",2)) g.pa^=1; if(cfg<1&&sym_choice("pol",2)) g.pb^=1; } rparm p{4,10,sym_choice("depth",2)!=0,sym_choice("zero",2)!=0}; rewrite_one(k,p,false); }
static void large(){ sketch k=any_gen(sym_thorough()?40:12,sym_thorough()?DIMS_T:DIMS_Q); static const rparm P[]={{4,10,true,false},{4,10,false,true},{4,6,true,true},{4,11,false,false}}; auto p=P[sym_choice("cfg",4)]; rewrite_one(k,p,true); }
static void wide(){ sketch k=any_gen(sym_thorough()?24:8,sym_thorough()?std::vector<std::pair<unsigned,unsigned>>{{8,40},{12,60},{14,120},{16,240}}:std::vector<std::pair<unsigned,unsigned>>{{8,40},{14,110}}); static const rparm P[]={{4,10,true,true},{4,8,true,false},{3,8,true,true}}; auto p=P[sym_choice("cfg",3)]; rewrite_one(k,p,true); }
// N01: the resynthesis database itself: every candidate for a table computes exactly that table over the leaves
static uint8_t ttval(uint64_t t,const std::vector<uint8_t>& v){ unsigned idx=0; for(size_t i=0;i<v.size();++i) idx|=(unsigned)v[i]<<i; uint8_t r=0; for(unsigned m=0;m<(1u<<v.size());++m) r|=(uint8_t)((idx==m)&((t>>m)&1)); return r; }
static void cands(aig_network& a,unsigned nv,uint64_t tt,const std::vector<sig>& leaves,const std::vector<uint8_t>& lv,const inputs& x,bool must){ kitty::dynamic_truth_table t(nv); t._bits[0]=tt; std::vector<sig> c; (*DB)(a,t,leaves.begin(),leaves.end(),[&](auto const& s){ c.push_back(s); return true; }); if(must) sym_check(!c.empty(),"every function has a candidate"); evaluator e(a,x.v); uint8_t want=ttval(tt,lv), bad=0; for(auto s:c) bad|=(uint8_t)(e.signal(s)^want); sym_check(e.acyclic,"candidates are acyclic"); sym_check(bad==0,"every candidate computes the function over the leaves for every input");
  // stopping early is respected
  unsigned n=0; (*DB)(a,t,leaves.begin(),leaves.end(),[&](auto const&){ ++n; return n<2; }); sym_check(n==std::min<size_t>(2,c.size()),"enumeration stops when asked to"); sym_cover(c.size()>1?"many":"one"); }
static void npn(){ inputs x(4); uint64_t hi=sym_choice("hi",256); // 256 tables per path
  for(unsigned lo=0;lo<256;++lo){ uint64_t tt=(hi<<8)|lo; aig_network a; std::vector<sig> s; for(unsigned i=0;i<4;++i) s.push_back(a.create_pi()); cands(a,4,tt,s,x.v,x,true); } sym_cover("end"); }
// leaves that are gates, complemented, shared, or constant, and tables of fewer variables
static void npn_leaf(){ inputs x(4); unsigned nv=1+(unsigned)sym_choice("nv",4); sketch k=gen((unsigned)sym_choice("style",NSTYLE),1+sym_choice("seed",sym_thorough()?20:4),4,10); aig_network a; std::vector<sig> s; std::vector<uint8_t> v(x.v); for(unsigned i=0;i<4;++i) s.push_back(a.create_pi()); for(auto&g:k.g){ s.push_back(a.create_and(s[g.a]^(g.pa!=0),s[g.b]^(g.pb!=0))); v.push_back((v[g.a]^g.pa)&(v[g.b]^g.pb)); } s.push_back(a.get_constant(false)); v.push_back(0);
  lfsr r(nv*977+k.g.size()+k.npi); unsigned n=nv==1?4:nv==2?16:nv==3?256:(sym_thorough()?2000:300); for(unsigned q=0;q<n;++q){ uint64_t tt=nv<4?q:r.below(1u<<(1u<<nv)); std::vector<sig> l; std::vector<uint8_t> lv; for(unsigned i=0;i<nv;++i){ unsigned j=r.below(s.size()); uint8_t c=r.below(2); l.push_back(s[j]^(c!=0)); lv.push_back(v[j]^c); } uint8_t keep=0; std::vector<uint8_t> before; { evaluator e(a,x.v); for(auto z:s) before.push_back(e.signal(z)); } cands(a,nv,tt,l,lv,x,true); { evaluator e(a,x.v); for(size_t i=0;i<s.size();++i) keep|=(uint8_t)(before[i]^e.signal(s[i])); } sym_check(keep==0,"trying candidates leaves the existing logic alone"); } sym_cover("end"); }
extern "C" void sym_main(const char* h){ DB=new node_rewriting<aig_network>(); std::string s(h); if(s=="small") small(); else if(s=="large") large(); else if(s=="wide") wide(); else if(s=="npn") npn(); else if(s=="npn_leaf") npn_leaf(); else __builtin_trap(); }
