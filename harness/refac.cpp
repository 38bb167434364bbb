// S01: SOP factoring   F01: refactoring
#include "common.hpp"
#include <operations/algorithms/cleanup.hpp>
#include <operations/optimization/refactor.hpp>
#include "opt_common.hpp"
using namespace hx; using namespace iFPGA_NAMESPACE;
// value of a truth table at the symbolic input point
static uint8_t tt_at(const kitty::dynamic_truth_table& t,const std::vector<uint8_t>& x){ uint32_t idx=0; for(int i=0;i<t.num_vars();++i) idx|=(uint32_t)x[i]<<i; uint8_t r=0; for(uint64_t j=0;j<(1ull<<t.num_vars());++j) r|=(uint8_t)(((t._bits[j>>6]>>(j&63))&1)&(idx==j)); return r; }
static void factor_one(const kitty::dynamic_truth_table& t){ unsigned n=t.num_vars(); inputs x(n); aig_network a; std::vector<sig> ch; std::vector<uint8_t> cv; for(unsigned i=0;i<n;++i){ sig s=a.create_pi(); uint8_t p=(uint8_t)(i&1); ch.push_back(p?!s:s); cv.push_back(x.v[i]^p); }
  unsigned calls=0; sig r; sop_factoring<aig_network> f; f(a,t,ch.begin(),ch.end(),[&](sig s){ r=s; ++calls; return true; }); sym_check(calls==1,"one candidate is produced"); evaluator e(a,x.v); uint8_t got=e.signal(r); sym_check(e.acyclic,"acyclic"); sym_check(got==tt_at(t,cv),"the factored form computes the truth table"); check_aig_invariants(a,false,true,"factored form"); sym_cover("end"); sym_observe("gates",a.num_gates()); }
static void factor4(){ unsigned n=1+(unsigned)sym_choice("n",4); kitty::dynamic_truth_table t(n); for(unsigned i=0;i<(1u<<n);++i){ if(n==4&&!sym_thorough()&&i==15) continue; t._bits[0]|=(uint64_t)sym_choice("t",2)<<i; } factor_one(t); }
// larger functions: sums of products drawn from a family
static void factor_big(){ unsigned n=5+(unsigned)sym_choice("n",sym_thorough()?6:5); unsigned st=(unsigned)sym_choice("style",4); unsigned sd=(unsigned)sym_choice("seed",sym_thorough()?60:16); lfsr r(sd+sym_seed()*977+st*1000+n*31); kitty::dynamic_truth_table t(n); uint64_t sz=1ull<<n;
  if(st==0) for(auto&w:t._bits) w=((uint64_t)r.next()<<32|r.next())&(n<6?(1ull<<sz)-1:~0ull); // random
  else { unsigned nc=2+r.below(st==1?5:10); for(unsigned c=0;c<nc;++c){ uint32_t m=0,v=0; unsigned nl=1+r.below(st==2?3:n); for(unsigned l=0;l<nl;++l){ unsigned i=r.below(n); m|=1u<<i; if(r.below(st==3?4:2)) v|=1u<<i; } for(uint64_t j=0;j<sz;++j) if((j&m)==(v&m)) t._bits[j>>6]|=1ull<<(j&63); } if(r.below(2)){ for(auto&w:t._bits) w=~w; if(n<6) t._bits[0]&=(1ull<<sz)-1; } }
  note_t nt; nt.add("n=%u style=%u seed=%u",n,st,sd); sym_note(nt.b); factor_one(t); }
// algebraic division: divident == divisor*quotient + remainder, as sets of cubes evaluated at a symbolic point
static uint8_t sop_val(const std::vector<uint64_t>& s,uint64_t lits){ uint8_t r=0; for(auto c:s) r|=(uint8_t)((c&~lits)==0); return r; }
static void divide(){ unsigned nf=1+(unsigned)sym_choice("nf",sym_thorough()?4:3), nd=1+(unsigned)sym_choice("nd",2); unsigned L=sym_thorough()?6:4; std::vector<uint64_t> f,d,q,rm; for(unsigned i=0;i<nf;++i) f.push_back(sym_bits("f",L)); for(unsigned i=0;i<nd;++i) d.push_back(sym_bits("d",L)); bool dis=true; for(unsigned i=0;i<nf;++i) for(unsigned j=0;j<i;++j) dis&=(f[i]!=f[j]); for(unsigned i=0;i<nd;++i) for(unsigned j=0;j<i;++j) dis&=(d[i]!=d[j]); 
  // divisor cubes: no cube inside another (kernels are cube free and irredundant)
  for(unsigned i=0;i<nd;++i) for(unsigned j=0;j<nd;++j) if(i!=j) dis&=((d[i]&d[j])!=d[i]); sym_assume(dis); auto f0=f; sop_divide(f,d,q,rm); bool same=f.size()==f0.size(); for(unsigned i=0;i<nf;++i) same&=(f[i]==f0[i]); sym_check(same,"the divident is restored"); uint64_t a=sym_bits("a",L); uint8_t dq=sop_val(d,a)&sop_val(q,a); sym_check((uint8_t)(dq|sop_val(rm,a))==sop_val(f,a),"divident == divisor*quotient + remainder"); bool sub=true; for(auto c:rm){ bool in=false; for(auto z:f) in|=(c==z); sub&=in; } sym_check(sub,"the remainder is part of the divident"); sym_check(rm.size()+q.size()*d.size()==f.size()||nd>1,"every cube is covered once"); sym_cover(q.empty()?"nodiv":"div"); sym_observe("q",q.size()); 
  auto g=f0; sop_make_cube_free(g); uint64_t m=~0ull; for(auto c:f0) m&=c; bool cf=true; for(unsigned i=0;i<nf;++i) cf&=(g[i]==(f0[i]&~m)); sym_check(cf,"making a sum cube-free removes exactly the common cube"); sym_check(sop_is_cube_free(f0)==(m==0),"cube-freeness test"); }
// ---- F01
struct rparm { unsigned leaves,cone; bool up,zero; };
static void refactor_one(const sketch& k,const rparm& p,bool twice){ inputs x(k.npi); auto want=k.eval(x.v); aig_network a=k.build(); unsigned g0=used_gates(a), d0=ref_depth(a); refactor_params ps; ps.max_leaves_num=p.leaves; ps.max_cone_size=p.cone; ps.allow_depth_up=p.up; ps.allow_zero_gain=p.zero;
  aig_network b=refactor(a,ps); after_opt(b,x,want,k); sym_check(b.num_gates()<=g0,"refactoring never increases the number of gates"); if(!p.up) sym_check(ref_depth(b)<=d0,"refactoring never increases the depth when it must preserve it"); sym_cover(b.num_gates()<g0?"improved":"end"); if(b.num_gates()>=g0) sym_cover("end"); else sym_cover("improved");
  if(twice){ unsigned g1=used_gates(b),d1=ref_depth(b); aig_network c=refactor(b,ps); after_opt(c,x,want,k); sym_check(c.num_gates()<=g1,"refactoring never increases the number of gates"); if(!p.up) sym_check(ref_depth(c)<=d1,"refactoring never increases the depth when it must preserve it"); } sym_observe("pos",b.num_pos()); }
static void ref_small(){ unsigned cfg=(unsigned)sym_choice("cfg",sym_thorough()?3:2); static const unsigned C[][2]={{2,3},{3,4},{3,5}}; sketch k=any_sketch(C[cfg][0],C[cfg][1],false,false,cfg==2); for(auto&g:k.g){ if(sym_choice("pol",2)) g.pa^=1; if(cfg<1&&sym_choice("pol",2)) g.pb^=1; } rparm p{10,16,sym_choice("up",2)!=0,sym_choice("zero",2)!=0}; refactor_one(k,p,false); }
static void ref_large(){ sketch k=any_gen(sym_thorough()?40:12,sym_thorough()?DIMS_T:DIMS_Q); static const rparm P[]={{10,16,false,false},{10,16,false,true},{10,16,true,true},{4,6,false,true},{12,20,true,false},{5,20,true,true}}; auto p=P[sym_choice("cfg",6)]; refactor_one(k,p,true); }
static void ref_wide(){ sketch k=any_gen(sym_thorough()?24:8,sym_thorough()?std::vector<std::pair<unsigned,unsigned>>{{8,40},{12,60},{14,120},{16,240}}:std::vector<std::pair<unsigned,unsigned>>{{8,40},{14,110}}); static const rparm P[]={{10,16,false,true},{5,20,false,false},{12,20,false,true}}; auto p=P[sym_choice("cfg",3)]; refactor_one(k,p,true); }
extern "C" void sym_main(const char* h){ std::string s(h); if(s=="factor4") factor4(); else if(s=="factor_big") factor_big(); else if(s=="divide") divide(); else if(s=="ref_small") ref_small(); else if(s=="ref_large") ref_large(); else if(s=="ref_wide") ref_wide(); else __builtin_trap(); }
