// E01: SAT encodings (miter, CNF, equivalence checking, circuit validator)   Q01: simulators
#include <fstream>
#include <iostream>
#include "klut_common.hpp"
#include "opt_common.hpp"
#include <operations/algorithms/miter.hpp>
#include <operations/algorithms/equivalence_checking.hpp>
#include <operations/algorithms/circuit_validator.hpp>
#include <operations/algorithms/simulation.hpp>
using namespace hx; using namespace iFPGA_NAMESPACE;
// the signal computed for every sketch signal
static aig_network build_all(const sketch& k,std::vector<sig>& s){ aig_network a; for(unsigned i=0;i<k.npi;++i) s.push_back(a.create_pi()); for(auto&x:k.g) s.push_back(a.create_and(s[x.a]^(x.pa!=0),s[x.b]^(x.pb!=0))); for(auto&o:k.pos) a.create_po(s[o.s]^(o.p!=0)); return a; }
template<class W> static std::vector<W> words(const sketch& k,const std::vector<W>& in){ std::vector<W> v(in.begin(),in.begin()+k.npi); for(auto&x:k.g) v.push_back((W)((v[x.a]^(W)(0-(W)x.pa))&(v[x.b]^(W)(0-(W)x.pb)))); return v; }
static uint8_t any_diff(const std::vector<uint8_t>& a,const std::vector<uint8_t>& b){ uint8_t d=0; for(size_t i=0;i<a.size()&&i<b.size();++i) d|=(uint8_t)(a[i]^b[i]); return d; }
// ---- miter: symbolic polarities
static void h_miter(){
  static const unsigned C[][3]={{2,1,1},{2,2,1},{2,2,2},{3,2,2}}; unsigned c=(unsigned)sym_choice("cfg",sym_thorough()?4:3); sketch k=any_sketch(C[c][0],C[c][1],c==1), l=any_sketch(C[c][0],C[c][2],c==1,c<2);
  if(c>=2){ for(auto&g:l.g) g.pa^=sym_choice("pol",2); for(auto&o:l.pos) o.p^=sym_choice("po",2); }
  inputs x(k.npi); auto wa=k.eval(x.v), wb=l.eval(x.v); aig_network a=k.build(), b=l.build(); auto sa=snapshot(a), sb=snapshot(b);
  auto m=miter<aig_network,aig_network,aig_network>(a,b);
  if(wa.size()!=wb.size()){ sym_check(!m.has_value(),"networks with different numbers of outputs have no miter"); sym_cover("no miter"); return; }
  sym_check(m.has_value(),"networks with the same interface have a miter"); if(!m) return;
  sym_check(m->num_pis()==k.npi&&m->num_pos()==1,"a miter has the inputs of the networks and one output"); auto r=eval(*m,x); sym_check(r.size()==1&&r[0]==any_diff(wa,wb),"the miter output tells whether some output differs"); check_aig_invariants(*m,true,true,"miter"); same_snapshot(a,sa); same_snapshot(b,sb);
  { aig_network z; for(unsigned i=0;i<k.npi+1;++i) z.create_pi(); for(size_t i=0;i<wa.size();++i) z.create_po(z.get_constant(false)); sym_check(!(miter<aig_network,aig_network,aig_network>(a,z).has_value()),"networks with different numbers of inputs have no miter"); }
  sym_cover("end"); sym_observe("gates",m->num_gates()); }
// ---- miter of LUT networks: small tables chosen by forking
static klut_network kbuild(const sketch& k,unsigned style){ klut_network n; std::vector<klut_network::signal> s; for(unsigned i=0;i<k.npi;++i) s.push_back(n.create_pi()); unsigned q=0; for(auto&g:k.g){ kitty::dynamic_truth_table t(2u); for(unsigned m=0;m<4;++m) if((((m&1)^g.pa)&((m>>1)^g.pb)&1)) kitty::set_bit(t,m); if(style&&(q++&1)){ kitty::dynamic_truth_table u(3u); for(unsigned m=0;m<8;++m) if((((m&1)^g.pa)&((m>>2)^g.pb)&1)) kitty::set_bit(u,m); s.push_back(n.create_node({s[g.a],s[0],s[g.b]},u)); } else s.push_back(n.create_node({s[g.a],s[g.b]},t)); } for(auto&o:k.pos) n.create_po(o.p?n.create_not(s[o.s]):s[o.s]); return n; }
static void forkpol(sketch& k){ for(auto&g:k.g){ g.pa^=sym_choice("pa",2); g.pb^=sym_choice("pb",2); } for(auto&o:k.pos) o.p^=sym_choice("po",2); }
static void h_miterk(){ sketch k=any_sketch(2,2,false,false), l=any_sketch(2,sym_thorough()?2:1,false,false); forkpol(k); forkpol(l); inputs x(2); auto wa=k.eval(x.v), wb=l.eval(x.v); if(wa.size()!=wb.size()) sym_drop(); unsigned st=(unsigned)sym_choice("luts",2); klut_network a=kbuild(k,st), b=kbuild(l,0); auto m=miter<klut_network,klut_network,klut_network>(a,b); sym_check(m.has_value(),"networks with the same interface have a miter"); if(!m) return;
  auto r=keval(*m,x); sym_check(m->num_pis()==2&&r.size()==1&&r[0]==any_diff(wa,wb),"the miter output tells whether some output differs");
  auto e=equivalence_checking(*m); sym_check(e.has_value(),"equivalence checking without a conflict limit decides"); if(e&&*e) sym_check(any_diff(wa,wb)==0,"networks reported equivalent are equivalent"); sym_cover("end"); }
// ---- equivalence checking
// function-preserving or function-changing edits of a program
static sketch edited(const sketch& k,unsigned kind,unsigned at){ sketch e; e.npi=k.npi; std::vector<lit> m; for(unsigned i=0;i<k.npi;++i) m.push_back({i,0}); builder b(k.npi); unsigned q=0; for(auto&g:k.g){ lit x=m[g.a],y=m[g.b]; x.p^=g.pa; y.p^=g.pb; lit r; bool here=(q==at%k.g.size()); ++q;
    if(kind==1&&here) x.p^=1;                                                     // one complement
    if(kind==2&&here){ x=m[at%m.size()]; }                                        // other fanin
    if(kind==3&&(q+at)%3==0) r=b.land(x,b.lor(y,b.no(x)));                        // equivalent: x & (y | !x)
    else if(kind==4&&(q+at)%2==0&&x.s!=y.s) r=b.no(b.lor(b.lxor(x,y),b.no(y)));   // equivalent: !((x^y) | !y)
    else if(kind==5&&here) r=b.lor(x,y);                                          // or instead of and
    else r=b.land(x,y); m.push_back(r); }
  for(auto&o:k.pos){ lit r=m[o.s]; r.p^=o.p; b.po(r); } if(kind==6&&b.k.pos.size()) b.k.pos[at%b.k.pos.size()].p^=1; if(kind==7&&b.k.pos.size()>1){ std::swap(b.k.pos[0],b.k.pos.back()); } return b.k; }
static void h_cec(){ static const std::vector<std::pair<unsigned,unsigned>> Q{{3,5},{5,14},{7,36}}, T{{3,5},{5,14},{7,36},{9,60},{12,90}}; sketch k=any_gen(sym_thorough()?12:4,sym_thorough()?T:Q); unsigned kind=(unsigned)sym_choice("edit",8), at=(unsigned)sym_choice("at",sym_thorough()?4:2)*7; sketch e=edited(k,kind,at); inputs x(k.npi); auto wa=k.eval(x.v), wb=e.eval(x.v);
  aig_network a=k.build(), b=e.build(); auto m=miter<aig_network,aig_network,aig_network>(a,b); sym_check(m.has_value(),"networks with the same interface have a miter"); if(!m) return; equivalence_checking_stats st; auto r=equivalence_checking(*m,{},&st); sym_check(r.has_value(),"equivalence checking without a conflict limit decides"); if(!r) return;
  { equivalence_checking_params p1; p1.conflict_limit=1; auto q=equivalence_checking(*m,p1); sym_check(!q||*q==*r,"a conflict limit does not change a verdict"); if(!q) sym_cover("undecided"); }
  if(*r){ sym_check(any_diff(wa,wb)==0,"networks reported equivalent are equivalent"); sym_cover("equivalent"); }
  else { sym_check(st.counter_example.size()==k.npi,"a counter-example gives every input"); if(st.counter_example.size()!=k.npi) return; std::vector<uint8_t> c; for(bool v:st.counter_example) c.push_back(v); sym_check(any_diff(k.eval(c),e.eval(c))!=0,"the counter-example distinguishes the networks"); sym_cover("different"); }
  sym_observe("r",*r); }
// every pair of small programs, polarities by forking
static void h_cecs(){ sketch k=any_sketch(2,2,false,false), l=any_sketch(2,2,false,false); forkpol(k); for(auto&g:l.g){ g.pa^=sym_choice("pa",2); if(sym_thorough()) g.pb^=sym_choice("pb",2); } inputs x(2); auto wa=k.eval(x.v), wb=l.eval(x.v); if(wa.size()!=wb.size()) sym_drop(); aig_network a=k.build(), b=l.build(); auto m=miter<aig_network,aig_network,aig_network>(a,b); sym_check(m.has_value(),"networks with the same interface have a miter"); if(!m) return; equivalence_checking_stats st; auto r=equivalence_checking(*m,{},&st); sym_check(r.has_value(),"equivalence checking without a conflict limit decides"); if(!r) return; if(*r){ sym_check(any_diff(wa,wb)==0,"networks reported equivalent are equivalent"); sym_cover("equivalent"); } else { std::vector<uint8_t> c; for(bool v:st.counter_example) c.push_back(v); sym_check(c.size()==2&&any_diff(k.eval(c),l.eval(c))!=0,"the counter-example distinguishes the networks"); sym_cover("different"); } }
// ---- CNF: for every assignment of all variables
static uint8_t litval(const std::vector<uint8_t>& v,uint32_t l){ return (uint8_t)(v.at(l>>1)^(l&1)); } static uint8_t litval(const std::vector<uint8_t>& v,bill::lit_type l){ return (uint8_t)(v.at(l.variable())^(uint8_t)l.is_complemented()); }
template<class L> static void cnf_aig(){ static const unsigned C[][2]={{2,2},{2,3},{3,3}}; unsigned c=(unsigned)sym_choice("cfg",sym_thorough()?3:2); sketch k=any_sketch(C[c][0],C[c][1],c==0,false); forkpol(k); std::vector<sig> s; aig_network a=build_all(k,s); unsigned off=sym_choice("offset",2)?k.npi+4:0; node_map<L,aig_network> lits=off?node_literals<aig_network,L>(a,off):node_literals<aig_network,L>(a); std::vector<std::vector<L>> cl; std::optional<node_map<L,aig_network>> ol; if(off||sym_choice("given",2)) ol.emplace(lits); clause_callback_t<L> fn=[&](std::vector<L> const& q){ cl.push_back(q); };
  std::vector<L> out; if constexpr(std::is_same_v<L,uint32_t>) out=generate_cnf<aig_network>(a,fn,ol); else out=generate_cnf<aig_network,L>(a,fn,ol);
  std::vector<uint8_t> v; for(unsigned i=0;i<(off?off:k.npi+1)+a.num_gates();++i) v.push_back((uint8_t)sym_bits("v",1)); uint8_t sat=1; for(auto&q:cl){ uint8_t o=0; for(auto&l:q) o|=litval(v,l); sat&=o; }
  uint8_t want=(uint8_t)(v[0]^1); unsigned i=1; bool pim=true; a.foreach_pi([&](auto n){ pim&=(litval(v,lits[n])==v[i]); ++i; }); sym_check(pim,"inputs are the variables 1..n"); std::vector<uint8_t> nv(a.size(),0); nv[0]=v[0]; a.foreach_pi([&](auto n){ nv[n]=litval(v,lits[n]); }); a.foreach_gate([&](auto n){ nv[n]=litval(v,lits[n]); }); a.foreach_gate([&](auto n){ sig p=a.get_child0(n),q=a.get_child1(n); want&=(uint8_t)(1^nv[n]^((nv[p.index]^(uint8_t)p.complement)&(nv[q.index]^(uint8_t)q.complement))); });
  sym_check(sat==want,"an assignment satisfies the clauses exactly when every gate has the value of its function"); bool oo=true; unsigned j=0; a.foreach_po([&](auto const& f){ sig p=f; if(j<out.size()) oo&=(litval(v,out[j])==(nv[p.index]^(uint8_t)p.complement)); ++j; }); sym_check(j==out.size(),"one literal per output"); sym_check(oo,"output literals have the value of the outputs"); sym_cover("end"); sym_observe("clauses",cl.size()); }
static void cnf_klut(){ unsigned ar=1+(unsigned)sym_choice("arity",3); uint64_t bits=ar==3?(sym_thorough()?sym_choice("table",256):sym_choice("t",64)*4+(sym_choice("hi",4))):sym_choice("table",1u<<(1u<<ar)); klut_network n; std::vector<klut_network::signal> s; for(unsigned i=0;i<3;++i) s.push_back(n.create_pi()); kitty::dynamic_truth_table t(ar); for(unsigned m=0;m<(1u<<ar);++m) if((bits>>m)&1) kitty::set_bit(t,m); std::vector<klut_network::signal> ch(s.begin(),s.begin()+ar); auto g=n.create_node(ch,t); auto h=n.create_and(g,s[2]); n.create_po(h); n.create_po(g); n.create_po(n.create_not(s[0])); n.create_po(n.get_constant(true));
  std::vector<std::vector<uint32_t>> cl; clause_callback_t<uint32_t> fn=[&](std::vector<uint32_t> const& q){ cl.push_back(q); }; auto lits=node_literals(n); auto out=generate_cnf<klut_network>(n,fn); std::vector<uint8_t> v; for(unsigned i=0;i<4+n.num_gates();++i) v.push_back((uint8_t)sym_bits("v",1)); uint8_t sat=1; for(auto&q:cl){ uint8_t o=0; for(auto&l:q) o|=litval(v,l); sat&=o; }
  std::vector<uint8_t> nv(n.size(),0); nv[0]=v[0]; nv[1]=v[0]^1; n.foreach_pi([&](auto p){ nv[p]=litval(v,lits[p]); }); n.foreach_gate([&](auto p){ nv[p]=litval(v,lits[p]); }); uint8_t want=v[0]^1; n.foreach_gate([&](auto p){ uint32_t idx=0; unsigned q=0; n.foreach_fanin(p,[&](auto const& f){ idx|=(uint32_t)nv[f]<<q; ++q; }); auto tt=n.node_function(p); uint8_t r=0; for(uint64_t m=0;m<(1ull<<q);++m) r|=(uint8_t)((idx==m)&((tt._bits[0]>>m)&1)); want&=(uint8_t)(1^nv[p]^r); });
  sym_check(sat==want,"an assignment satisfies the clauses exactly when every gate has the value of its function"); unsigned j=0; bool oo=true; n.foreach_po([&](auto const& f){ if(j<out.size()) oo&=(litval(v,out[j])==nv[f]); ++j; }); sym_check(j==out.size(),"one literal per output"); sym_check(oo,"output literals have the value of the outputs"); sym_cover("klut"); }
static void h_cnf(){ switch(sym_choice("kind",3)){ case 0: cnf_aig<uint32_t>(); break; case 1: cnf_aig<bill::lit_type>(); break; default: cnf_klut(); } }
// ---- circuit validator
template<bill::solvers S,bool PP,bool RND> static void val_one(const sketch& k0,unsigned mode){
  sketch k=k0; std::vector<sig> s; aig_network a=build_all(k,s); inputs x(k.npi); validator_params ps; ps.conflict_limit=0; if(mode&1) ps.max_clauses=5; 
  std::vector<uint8_t> val=words<uint8_t>(k,x.v); for(auto&b:val) b&=1; lfsr r(k.g.size()*7+mode+1); unsigned q=0;
  auto cv=[&](const std::vector<bool>& c){ std::vector<uint8_t> v; for(bool b:c) v.push_back(b); auto w=words<uint8_t>(k,v); for(auto&b:w) b&=1; return w; };
  { typedef circuit_validator<aig_network,S,PP,RND> V; V v(a,ps);
    auto eqres=[&](std::optional<bool> res,std::function<uint8_t(const std::vector<uint8_t>&)> diff){ ++q; sym_check(res.has_value(),"validation without a conflict limit decides"); if(!res) return; if(*res){ sym_check(diff(val)==0,"a validated equivalence holds for every input"); sym_cover("valid"); } else { sym_check(v.cex.size()==k.npi&&diff(cv(v.cex))!=0,"the counter-example refutes the equivalence"); sym_cover("refuted"); } };
    auto round=[&]{ unsigned n=s.size(); for(unsigned t=0;t<(sym_thorough()?40u:24u);++t){ unsigned i=r.below(n), j=r.below(n); uint8_t pi=r.below(2), pj=r.below(2); if(r.below(3)==0) j=i; if(r.below(3)==0&&n>k.npi) i=k.npi+r.below(n-k.npi);
      switch(r.below(PP?5:4)){
        case 0: eqres(v.validate(s[i]^(pi!=0),s[j]^(pj!=0)),[=](auto const& w){ return (uint8_t)(w[i]^pi^w[j]^pj); }); break;
        case 1: { uint8_t c=s[i].complement; eqres(v.validate(a.get_node(s[i]),s[j]^(pj!=0)),[=](auto const& w){ return (uint8_t)(w[i]^c^w[j]^pj); }); break; }
        case 2: eqres(v.validate(s[i]^(pi!=0),pj!=0),[=](auto const& w){ return (uint8_t)(w[i]^pi^pj); }); break;
        case 3: { unsigned d0=r.below(n), d1=r.below(n), d2=r.below(n); uint8_t c0=s[d0].complement,c1=s[d1].complement,c2=s[d2].complement; typedef typename V::gate G; unsigned ty=r.below(3); uint8_t n0=r.below(2),n1=r.below(2),n2=r.below(2),on=r.below(2); std::vector<G> circ; G g1; g1.fanins.resize(2); g1.fanins[0].index=0; g1.fanins[0].inverted=n0; g1.fanins[1].index=1; g1.fanins[1].inverted=n1; g1.type=r.below(2)?V::AND:V::XOR; circ.push_back(g1); G g2; g2.fanins.resize(ty==2?3:2); g2.fanins[0].index=3; g2.fanins[0].inverted=n1; g2.fanins[1].index=2; g2.fanins[1].inverted=n2; if(ty==2){ g2.fanins[2].index=0; g2.fanins[2].inverted=n2; } g2.type=ty==2?(n0?V::MAJ:V::XOR):(ty==1?V::XOR:V::AND); circ.push_back(g2); std::vector<typename aig_network::node> dv{a.get_node(s[d0]),a.get_node(s[d1]),a.get_node(s[d2])}; bool and1=g1.type==V::AND, maj=g2.type==V::MAJ, and2=g2.type==V::AND;
          eqres(v.validate(s[i]^(pi!=0),dv,circ,on!=0),[=](auto const& w){ uint8_t a0=w[d0]^c0,a1=w[d1]^c1,a2=w[d2]^c2; uint8_t o1=and1?(uint8_t)((a0^n0)&(a1^n1)):(uint8_t)((a0^n0)^(a1^n1)); uint8_t f0=o1^n1,f1=a2^n2,f2=a0^n2; uint8_t o2=ty==2?(maj?(uint8_t)((f0&f1)|(f0&f2)|(f1&f2)):(uint8_t)(f0^f1^f2)):(and2?(uint8_t)(f0&f1):(uint8_t)(f0^f1)); return (uint8_t)(w[i]^pi^o2^on); }); break; }
        default: if constexpr(PP){ std::vector<std::vector<bool>> blk; for(unsigned z=r.below(3);z>0;--z){ std::vector<bool> b; for(unsigned y=0;y<k.npi;++y) b.push_back(r.below(2)); blk.push_back(b); } unsigned want=1+r.below(4); auto gp=v.generate_pattern(s[i]^(pi!=0),pj!=0,blk,want); ++q; bool ok=gp.size()<=want, sz=true; for(size_t z=0;z<gp.size();++z){ sz&=gp[z].size()==k.npi; if(!sz) break; ok&=((cv(gp[z])[i]^pi)==pj); for(auto&b:blk) ok&=(b!=gp[z]); for(size_t y=0;y<z;++y) ok&=(gp[y]!=gp[z]); } sym_check(sz,"a pattern gives every input"); sym_check(ok,"generated patterns are new, distinct and set the signal to the value"); if(sz&&gp.size()<want){ uint8_t hit=0; auto all=blk; for(auto&b:gp) all.push_back(b); for(auto&b:all){ uint8_t e=1; for(unsigned y=0;y<k.npi;++y) e&=(uint8_t)(1^x.v[y]^(uint8_t)b[y]); hit|=e; } sym_check(((uint8_t)((val[i]^pi)==pj)&(uint8_t)(hit^1))==0,"fewer patterns than requested only when there are no others"); sym_cover("exhausted"); } sym_cover("patterns"); } } } };
    round();
    // grow the network behind the validator's back: it listens to the events
    for(unsigned t=0;t<3;++t){ unsigned i=r.below(s.size()), j=r.below(s.size()); uint8_t pa=r.below(2),pb=r.below(2); s.push_back(a.create_and(s[i]^(pa!=0),s[j]^(pb!=0))); k.g.push_back({i,j,pa,pb}); val.push_back((uint8_t)((val[i]^pa)&(val[j]^pb))); }
    round(); if(mode&2){ v.update(); round(); } }
  // the validator is gone; the network goes on
  sig z=a.create_and(s[0],!s[k.npi>1?1:0]); sig y=a.create_and(z,s.back()); a.create_po(y); auto o=eval(a,x); sym_check(o.back()==((x.v[0]&(x.v[k.npi>1?1:0]^1))&val.back()),"a network outlives its validators"); sym_cover("end"); sym_observe("q",q); }
static void h_val(){ static const std::vector<std::pair<unsigned,unsigned>> Q{{3,5},{4,12},{6,30}}, T{{2,3},{3,5},{4,12},{5,20},{6,30},{8,60}}; unsigned sv=(unsigned)sym_choice("solver",4), mode=(unsigned)sym_choice("mode",4); sketch k=any_gen(sym_thorough()?8:2,sym_thorough()?T:Q); switch(sv){ case 0: val_one<bill::solvers::bsat2,true,false>(k,mode); break; case 1: val_one<bill::solvers::bsat2,false,false>(k,mode); break; case 2: val_one<bill::solvers::bsat2,true,true>(k,mode); break; default: val_one<bill::solvers::glucose_41,false,false>(k,mode); } }
// default parameters must live as long as the validator
static void h_valdef(){ sketch k=gen((unsigned)sym_choice("style",NSTYLE),1+sym_choice("seed",2),4,10); std::vector<sig> s; aig_network a=build_all(k,s); inputs x(k.npi); auto val=words<uint8_t>(k,x.v); for(auto&b:val) b&=1; circuit_validator<aig_network,bill::solvers::bsat2,true> v(a); std::vector<uint32_t> junk(64,7); sym_observe("j",junk[3]); for(unsigned i=0;i<s.size();++i) for(unsigned j=0;j<i;++j){ auto r=v.validate(s[i],s[j]); sym_check(r.has_value(),"a small query is decided within the default conflict limit"); if(r&&*r) sym_check(val[i]==val[j],"a validated equivalence holds for every input"); } sym_cover("end"); }

// ---- simulation
static void h_simb(){ static const unsigned C[][2]={{2,2},{2,3},{3,3}}; unsigned c=(unsigned)sym_choice("cfg",sym_thorough()?3:2); sketch k=any_sketch(C[c][0],C[c][1],c==0||sym_thorough(),c<2,c>0); inputs x(k.npi); auto want=k.eval(x.v); aig_network a=k.build(); std::vector<bool> as; for(auto b:x.v) as.push_back(b!=0); auto r=simulate<bool>(a,default_simulator<bool>(as)); bool ok=r.size()==want.size(); sym_check(ok,"one value per output"); if(!ok) return; for(size_t i=0;i<r.size();++i) ok&=((uint8_t)(bool)r[i]==want[i]); sym_check(ok,"Boolean simulation computes the outputs");
  uint64_t w=sym_bits("hi",8)<<k.npi; for(unsigned i=0;i<k.npi;++i) w|=(uint64_t)x.v[i]<<i; auto q=simulate<bool>(a,input_word_simulator(w)); ok=q.size()==want.size(); for(size_t i=0;i<q.size()&&ok;++i) ok&=((uint8_t)(bool)q[i]==want[i]); sym_check(ok,"input word simulation computes the outputs"); auto nv=simulate_nodes<bool>(a,default_simulator<bool>(as)); evaluator e(a,x.v); ok=true; a.foreach_gate([&](auto n){ ok&=((uint8_t)(bool)nv[n]==e.node(n)); }); sym_check(ok,"node values are the gate functions"); sym_cover("end"); }
template<unsigned N> static void tts(const sketch& k,const aig_network& a){ auto d=simulate<kitty::dynamic_truth_table>(a,default_simulator<kitty::dynamic_truth_table>(N)); auto s=simulate<kitty::static_truth_table<N>>(a); sym_check(d.size()==k.pos.size()&&s.size()==k.pos.size(),"one table per output"); if(d.size()!=k.pos.size()||s.size()!=k.pos.size()) return; bool od=true,os=true; for(uint64_t m=0;m<(1ull<<N);++m){ std::vector<uint8_t> in; for(unsigned i=0;i<N;++i) in.push_back((m>>i)&1); auto w=k.eval(in); for(size_t o=0;o<w.size();++o){ od&=(kitty::get_bit(d[o],m)==w[o]); os&=(kitty::get_bit(s[o],m)==w[o]); } } sym_check(od,"dynamic truth tables are the output functions"); sym_check(os,"static truth tables are the output functions"); sym_cover("tables"); }
static void h_simt(){ if(sym_choice("kind",2)==0){ unsigned c=(unsigned)sym_choice("cfg",2); sketch k=c?any_sketch(3,3,true,true,true):any_sketch(2,3,true); aig_network a=k.build(); if(c) tts<3>(k,a); else tts<2>(k,a); } else { unsigned c=(unsigned)sym_choice("n",sym_thorough()?3:2); sketch k=gen((unsigned)sym_choice("style",NSTYLE),1+sym_choice("seed",2),c==0?4:c==1?7:8,c==0?12:24); // larger circuits: complements of the first gates stay symbolic
    aig_network a=k.build(); if(c==0) tts<4>(k,a); else if(c==1) tts<7>(k,a); else tts<8>(k,a); } }
// LUT networks: table and Boolean simulation, tables of a gate symbolic
static void h_simk(){ klut_network n; std::vector<klut_network::signal> s; for(unsigned i=0;i<3;++i) s.push_back(n.create_pi()); unsigned st=(unsigned)sym_choice("shape",4); kitty::dynamic_truth_table t2(2u), t3(3u); t2._bits[0]=st==3?0x6:st==2?0x8:st==1?0xb:0x1; t3._bits[0]=(uint64_t)(1+sym_choice("t3",254)); auto g=n.create_node({s[st&1],s[2]},t2); auto h=n.create_node({g,s[1],s[st>>1]},t3); n.create_po(h); n.create_po(n.create_not(g)); n.create_po(s[2]); n.create_po(n.get_constant(true)); n.create_po(n.get_constant(false)); inputs x(3); auto want=keval(n,x); std::vector<bool> as; for(auto b:x.v) as.push_back(b!=0); bool ok=true;
  auto d=simulate<kitty::dynamic_truth_table>(n,default_simulator<kitty::dynamic_truth_table>(3)); uint32_t idx=x.v[0]|(x.v[1]<<1)|(x.v[2]<<2); sym_check(d.size()==want.size(),"one table per output"); for(size_t o=0;o<want.size()&&o<d.size();++o) ok&=(((d[o]._bits[0]>>idx)&1)==want[o]); sym_check(ok,"truth tables of a LUT network are its output functions");
  auto r=simulate<bool>(n,default_simulator<bool>(as)); ok=r.size()==want.size(); for(size_t i=0;i<r.size()&&ok;++i) ok&=((uint8_t)(bool)r[i]==want[i]); sym_check(ok,"Boolean simulation computes the outputs of a LUT network"); sym_cover("klut"); }
// partial truth tables: symbolic patterns, several blocks, then added patterns
static void h_simp(){ sketch k=gen((unsigned)sym_choice("style",NSTYLE),1+sym_choice("seed",sym_thorough()?3:1),3,10); std::vector<sig> s; aig_network a=build_all(k,s); static const unsigned NB[]={1,63,64,126,129,62,65,128}; unsigned nb=NB[sym_choice("bits",sym_thorough()?8:5)], add=(unsigned)sym_choice("add",sym_thorough()?4:3); unsigned op=(unsigned)sym_choice("op",3); std::vector<kitty::partial_truth_table> p; std::vector<std::vector<uint64_t>> w(k.npi); for(unsigned i=0;i<k.npi;++i){ p.emplace_back(nb); for(unsigned b=0;b*64<nb;++b){ unsigned width=std::min(64u,nb-b*64); uint64_t v=sym_bits("w",width); p[i]._bits[b]=v; w[i].push_back(v); } }
  partial_simulator sim(p); unordered_node_map<kitty::partial_truth_table,aig_network> nv(a); auto cmp=[&](const char* l){ unsigned n=sim.num_bits(); bool ok=true,len=true; for(unsigned b=0;b*64<n;++b){ std::vector<uint64_t> in; for(unsigned i=0;i<k.npi;++i) in.push_back(w[i][b]); auto r=words<uint64_t>(k,in); unsigned width=std::min(64u,n-b*64); uint64_t mask=width==64?~0ull:((1ull<<width)-1); for(unsigned i=0;i<s.size();++i){ if(a.is_constant(s[i].index)) continue; if(!nv.has(s[i].index)){ len=false; continue; } auto& t=nv[s[i].index]; if(t.num_bits()!=n||t._bits.size()!=(n+63)/64){ len=false; continue; } uint64_t got=t._bits[b]^(0-(uint64_t)s[i].complement); ok&=((got&mask)==(r[i]&mask)); if(width<64) ok&=((t._bits[b]&~mask)==0); } } sym_check(len,"every node has one value per pattern"); sym_check(ok,l); };
  simulate_nodes<aig_network>(a,nv,sim,true); cmp("partial simulation computes every node for every pattern"); unsigned pend=0;
  for(unsigned t=0;t<add;++t){ std::vector<bool> pat; unsigned n=sim.num_bits(); for(unsigned i=0;i<k.npi;++i){ uint64_t b=sym_bits("a",1); pat.push_back(b!=0); if(n%64==0) w[i].push_back(0); w[i][n/64]|=b<<(n%64); } if(n%64==0&&pend){ simulate_nodes<aig_network>(a,nv,sim,false); pend=0; } sim.add_pattern(pat); ++pend; sym_check(sim.num_bits()==n+1,"an added pattern is counted"); if(op!=0){ simulate_nodes<aig_network>(a,nv,sim,false); pend=0; } }
  if(add){ if(op==2){ for(unsigned i=s.size();i-->0;) if(!a.is_constant(s[i].index)&&!a.is_pi(s[i].index)) simulate_node(a,s[i].index,nv,sim); if(pend) detail::update_const_pi(a,nv,sim); } else if(pend) simulate_nodes<aig_network>(a,nv,sim,false); cmp("added patterns are simulated on every node"); }
  // new gates after the fact
  sig g=a.create_and(s.back(),!s[0]); k.g.push_back({(unsigned)(s.size()-1),0,0,1}); s.push_back(g); if(!a.is_constant(g.index)&&!a.is_pi(g.index)){ simulate_node(a,g.index,nv,sim); } cmp("a new gate is simulated on demand"); sym_cover("end"); }
// packing keeps the cared bits of every pattern
static void h_pack(){ unsigned npi=2, init=(unsigned)sym_choice("init",2), n=init+2+(unsigned)sym_choice("n",sym_thorough()?3:2); std::vector<kitty::partial_truth_table> p; std::vector<std::vector<uint8_t>> v(n), c(n); for(unsigned i=0;i<npi;++i) p.emplace_back(init); 
  for(unsigned t=0;t<n;++t) for(unsigned i=0;i<npi;++i){ v[t].push_back((uint8_t)(t<2||sym_thorough()?sym_bits("v",1):(t+i)&1)); c[t].push_back(t<init?1:(uint8_t)sym_choice("c",2)); } for(unsigned t=0;t<init;++t) for(unsigned i=0;i<npi;++i) if(v[t][i]) kitty::set_bit(p[i],t);
  bit_packed_simulator sim(p); auto keep=[&](const char* l,unsigned m){ auto q=sim.get_patterns(); bool sz=q.size()==npi; for(auto&t:q) sz&=(t.num_bits()==sim.num_bits()); sym_check(sz,"the number of patterns is the length of every table"); if(!sz) return; bool ok=true; for(unsigned t=0;t<m;++t){ uint8_t any=0; bool cares=false; for(unsigned i=0;i<npi;++i) cares|=c[t][i]!=0; if(!cares) continue; for(unsigned o=0;o<sim.num_bits();++o){ uint8_t e=1; for(unsigned i=0;i<npi;++i) if(c[t][i]) e&=(uint8_t)(1^(uint8_t)kitty::get_bit(q[i],o)^v[t][i]); any|=e; } ok&=(any!=0); } sym_check(ok,l); };
  unsigned cut=init+(unsigned)sym_choice("cut",n-init+1); for(unsigned t=init;t<n;++t){ std::vector<bool> a,b; for(unsigned i=0;i<npi;++i){ a.push_back(v[t][i]!=0); b.push_back(c[t][i]!=0); } sim.add_pattern(a,b); if(t+1==cut){ unsigned before=sim.num_bits(); bool r=sim.pack_bits(); sym_check(sim.num_bits()<=before&&r==(sim.num_bits()<before),"packing reports whether it removed patterns"); keep("packing keeps the cared bits of every pattern",t+1); } }
  unsigned before=sim.num_bits(); bool r=sim.pack_bits(); sym_check(sim.num_bits()<=before&&r==(sim.num_bits()<before),"packing reports whether it removed patterns"); keep("packing keeps the cared bits of every pattern",n); if(r) sym_cover("packed"); sim.randomize_dont_care_bits(3); keep("randomising don't-care bits keeps the cared bits",n); sym_cover("end"); }
extern "C" void sym_main(const char* h){ std::string s(h);
#define H(n) if(s==#n){ h_##n(); return; }
H(miter) H(miterk) H(cec) H(cecs) H(cnf) H(val) H(valdef) H(simb) H(simt) H(simk) H(simp) H(pack) __builtin_trap(); }
