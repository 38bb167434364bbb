// shared pieces of the harnesses: symbolic sketches of networks, evaluation under symbolic inputs, oracles
#pragma once
#include "sym.h"
#include <cstdio>
#include <cstdarg>
#include <cstring>
#include <string>
#include <vector>
#include <array>
#include <functional>
#include <list>
#include <kitty/kitty.hpp>
#include <algorithm>
#include <database/network/aig_network.hpp>

namespace hx {
using iFPGA_NAMESPACE::aig_network;
typedef aig_network::signal sig;

struct note_t { char b[1000]; size_t n=0; void add(const char* f,...){ va_list a; va_start(a,f); int r=vsnprintf(b+n,sizeof(b)-n,f,a); va_end(a); if(r>0) n=std::min(sizeof(b)-1,n+r); } };

// values of the primary inputs: one symbolic bit each (0/1 in a byte)
struct inputs { std::vector<uint8_t> v; explicit inputs(unsigned n,const char*name="x"){ for(unsigned i=0;i<n;++i) v.push_back((uint8_t)sym_bits(name,1)); } };

// evaluation of an AIG from its outputs.  Uses only the public navigation API.  Cycles -> acyclic=false
struct evaluator {
  const aig_network& n; const std::vector<uint8_t>& in; std::vector<uint8_t> val, st; bool acyclic=true;
  evaluator(const aig_network& ntk,const std::vector<uint8_t>& i):n(ntk),in(i),val(ntk.size(),0),st(ntk.size(),0){
    unsigned k=0; n.foreach_ci([&](auto const& p){ val[p]=k<in.size()?in[k]:0; st[p]=2; ++k; }); val[0]=0; st[0]=2; }
  uint8_t node(uint64_t x){ if(x>=st.size()){ acyclic=false; return 0; } if(st[x]==2) return val[x]; if(st[x]==1){ acyclic=false; return 0; } st[x]=1;
    sig a=n.get_child0(x), b=n.get_child1(x); uint8_t va=node(a.index)^(uint8_t)a.complement, vb=node(b.index)^(uint8_t)b.complement; val[x]=va&vb; st[x]=2; return val[x]; }
  uint8_t signal(sig s){ return node(s.index)^(uint8_t)s.complement; }
  std::vector<uint8_t> outputs(){ std::vector<uint8_t> r; n.foreach_co([&](auto const& o){ sig s=o; r.push_back(signal(s)); }); return r; }
};
inline std::vector<uint8_t> eval(const aig_network& n,const inputs& in){ evaluator e(n,in.v); auto r=e.outputs(); sym_check(e.acyclic,"network is acyclic"); return r; }
inline void check_equal(const std::vector<uint8_t>& a,const std::vector<uint8_t>& b,const char* label){ sym_check(a.size()==b.size(),"number of outputs preserved"); bool ok=true; for(size_t i=0;i<a.size()&&i<b.size();++i) ok&=(a[i]==b[i]); sym_check(ok,label); }

// independent AND model used by sketches: gate i = AND of two literals over earlier signals
struct sketch {
  struct gate { unsigned a,b; uint8_t pa,pb; };
  unsigned npi; std::vector<gate> g; struct po { unsigned s; uint8_t p; }; std::vector<po> pos; // signal ids: 0..npi-1 = PIs, npi.. = gates
  // reference evaluation, independent of the network code
  std::vector<uint8_t> eval(const std::vector<uint8_t>& in) const { std::vector<uint8_t> v(in.begin(),in.begin()+npi); for(auto&x:g) v.push_back((v[x.a]^x.pa)&(v[x.b]^x.pb)); std::vector<uint8_t> r; for(auto&o:pos) r.push_back(v[o.s]^o.p); return r; }
  void note() const { note_t t; t.add("pi=%u",npi); for(size_t i=0;i<g.size();++i) t.add(" n%zu=(%u,%u)",i+npi,g[i].a,g[i].b); t.add(" po="); for(auto&o:pos) t.add("%u,",o.s); sym_note(t.b); }
  aig_network build() const { aig_network aig; std::vector<sig> s; for(unsigned i=0;i<npi;++i) s.push_back(aig.create_pi()); for(auto&x:g) s.push_back(aig.create_and(s[x.a]^(x.pa!=0),s[x.b]^(x.pb!=0))); for(auto&o:pos) aig.create_po(s[o.s]^(o.p!=0)); return aig; }
};
// structure chosen by forking, polarities symbolic. `canon`: prune isomorphic orders of independent gates.
// every gate is used (drives a later gate or an output): outputs are the sinks, plus optionally one extra chosen signal
// all structures with `ng` gates over `npi` inputs, up to the order of independent gates and renaming of inputs
typedef std::vector<std::pair<uint8_t,uint8_t>> shape;
inline void shapes_rec(unsigned npi,unsigned ng,shape& g,std::vector<shape>& out,bool single){
  if(g.size()==ng){ unsigned next=0; for(auto&x:g) for(unsigned s:{x.first,x.second}) if(s<npi){ if(s==next) ++next; else if(s>next) return; }
    std::vector<uint8_t> used(npi+ng,0); for(auto&x:g) used[x.first]=used[x.second]=1; unsigned sinks=0; for(unsigned s=npi;s<npi+ng;++s) sinks+=!used[s]; if(single&&sinks!=1) return; out.push_back(g); return; }
  unsigned i=g.size(), n=npi+i; for(unsigned b=1;b<n;++b) for(unsigned a=0;a<b;++a){ if(i>0){ bool dep=(b==n-1)||(a==n-1); if(!dep&&(b<g[i-1].second||(b==g[i-1].second&&a<g[i-1].first))) continue; } g.push_back({(uint8_t)a,(uint8_t)b}); shapes_rec(npi,ng,g,out,single); g.pop_back(); } }
inline std::vector<shape> shapes(unsigned npi,unsigned ng,bool single=false){ std::vector<shape> r; shape g; shapes_rec(npi,ng,g,r,single); return r; }
template<class T> inline T pick(const char* nm,const std::vector<T>& v){ if(v.empty()) sym_drop(); return v[sym_choice(nm,v.size())]; }
// structure chosen by forking, polarities symbolic.  Every gate is used (drives a later gate or an output):
// outputs are the sinks, plus optionally one extra chosen signal
inline sketch from_shape(unsigned npi,const shape& h,bool extra_po=false,bool sym_pol=true){
  sketch k; k.npi=npi; unsigned ng=h.size(); std::vector<uint8_t> used(npi+ng,0);
  for(auto&x:h){ used[x.first]=used[x.second]=1; k.g.push_back({x.first,x.second,(uint8_t)(sym_pol?sym_bits("pa",1):0),(uint8_t)(sym_pol?sym_bits("pb",1):0)}); }
  for(unsigned s=npi;s<npi+ng;++s) if(!used[s]) k.pos.push_back({s,(uint8_t)(sym_pol?sym_bits("po",1):0)});
  if(extra_po){ unsigned c=(unsigned)sym_choice("xpo",npi+ng); k.pos.push_back({c,(uint8_t)(sym_pol?sym_bits("xpol",1):0)}); }
  k.note(); return k; }
inline sketch any_sketch(unsigned npi,unsigned ng,bool extra_po=false,bool sym_pol=true,bool single_sink=false){ auto l=shapes(npi,ng,single_sink); return from_shape(npi,pick("shape",l),extra_po,sym_pol); }

// ---- a family of larger programs: structure and polarities are fixed by (style, seed), the inputs stay symbolic
struct lfsr { uint64_t s; explicit lfsr(uint64_t x):s(x*0x9E3779B97F4A7C15ull+0x1234567){ for(int i=0;i<4;++i) next(); } uint32_t next(){ s^=s<<13; s^=s>>7; s^=s<<17; return (uint32_t)(s>>11); } uint32_t below(uint32_t n){ return next()%n; } };
struct lit { unsigned s; uint8_t p; };
struct builder { sketch k; explicit builder(unsigned npi){ k.npi=npi; }
  lit pi(unsigned i){ return {i,0}; } lit no(lit a){ a.p^=1; return a; } lit land(lit a,lit b){ k.g.push_back({a.s,b.s,a.p,b.p}); return {(unsigned)(k.npi+k.g.size()-1),0}; } lit lor(lit a,lit b){ return no(land(no(a),no(b))); } lit lxor(lit a,lit b){ return land(lor(a,b),no(land(a,b))); } lit mux(lit c,lit t,lit e){ return lor(land(c,t),land(no(c),e)); } lit maj(lit a,lit b,lit c){ return lor(land(a,b),land(c,lor(a,b))); } void po(lit a){ k.pos.push_back({a.s,a.p}); } };
enum { NSTYLE=9 };
inline sketch gen(unsigned style,uint64_t seed,unsigned npi,unsigned size,bool with_special=true){
  lfsr r(seed*131+style*7919+npi*17+size); builder b(npi); std::vector<lit> v; for(unsigned i=0;i<npi;++i) v.push_back(b.pi(i)); auto any=[&]{ lit l=v[r.below(v.size())]; l.p^=r.below(2); return l; }; auto recent=[&]{ unsigned n=v.size(),w=std::min(n,4u+npi/2); lit l=v[n-1-r.below(w)]; l.p^=r.below(2); return l; };
  std::vector<uint8_t> used; auto sinks=[&](unsigned maxpo){ std::vector<uint8_t> u(npi+b.k.g.size(),0); for(auto&g:b.k.g) u[g.a]=u[g.b]=1; unsigned c=0; for(unsigned i=npi+b.k.g.size();i-->npi;) if(!u[i]&&c<maxpo){ b.po({i,(uint8_t)r.below(2)}); ++c; } };
  switch(style){
    case 0: while(b.k.g.size()<size){ lit x=any(),y=any(); if(x.s==y.s) continue; v.push_back(b.land(x,y)); } sinks(64); break;                                  // random DAG
    case 1: while(b.k.g.size()<size){ lit x=recent(),y=any(); if(x.s==y.s) continue; v.push_back(b.land(x,y)); } sinks(64); break;                            // deep and local
    case 2: { lit c=v[0]; unsigned i=1; while(b.k.g.size()<size){ lit n=v[i%npi]; n.p^=r.below(2); if(n.s!=c.s) c=b.land(c,n); if(r.below(3)==0) c.p^=1; ++i; if(i%5==0) v.push_back(c); if(i%7==3){ lit q=v[r.below(v.size())]; if(q.s!=c.s) c=b.lor(c,q); } } b.po(c); sinks(8); break; } // long chain
    case 3: { std::vector<lit> w=v; while(b.k.g.size()<size){ if(w.size()<2){ w=v; for(auto&l:w) l.p^=r.below(2); } std::vector<lit> n; for(unsigned i=0;i+1<w.size();i+=2){ lit a=w[i],c=w[i+1]; a.p^=r.below(2); n.push_back(r.below(2)?b.land(a,c):b.lor(a,c)); } if(w.size()&1) n.push_back(w.back()); w=n; if(w.size()==1) v.push_back(w[0]); } for(auto&l:w) b.po(l); sinks(16); break; } // trees
    case 4: { while(b.k.g.size()<size) { lit x=any(),y=recent(); if(x.s==y.s) continue; v.push_back(b.lxor(x,y)); } sinks(32); break; }                        // xor rich
    case 5: { while(b.k.g.size()<size) { lit x=any(),y=recent(),z=any(); if(x.s==y.s||y.s==z.s||x.s==z.s) continue; v.push_back(b.mux(x,y,z)); } sinks(32); break; } // mux rich
    case 6: { unsigned h=npi/2; lit c={0,0}; bool have=false; for(unsigned t=0;b.k.g.size()<size||t<1;++t){ std::vector<lit> nv; have=false; for(unsigned i=0;i<h;++i){ lit x=v[v.size()-npi+i],y=v[v.size()-npi+h+i]; x.p^=r.below(2); lit s=b.lxor(x,y); if(have){ nv.push_back(b.lxor(s,c)); c=b.maj(x,y,c); } else { nv.push_back(s); c=b.land(x,y); have=true; } } nv.push_back(c); for(auto&l:nv) b.po(l); for(unsigned i=0;i<npi;++i){ lit l=nv[i%nv.size()]; if(i>=nv.size()) l=v[i]; v.push_back(l); } } break; } // adders, cascaded
    case 7: { for(unsigned i=0;i+2<npi;++i) v.push_back(b.maj(v[i],v[i+1],v[i+2])); while(b.k.g.size()<size){ lit x=any(),y=recent(),z=recent(); if(x.s==y.s||y.s==z.s||x.s==z.s) continue; v.push_back(r.below(2)?b.maj(x,y,z):b.lor(b.land(x,y),b.land(x,z))); } sinks(32); break; } // majority, factorable sums
    default: { while(b.k.g.size()<size){ lit x=any(),y=any(),z=any(); if(x.s==y.s||y.s==z.s||x.s==z.s) continue; lit p=b.land(b.land(x,y),z), q=b.land(x,b.land(y,z)); v.push_back(p); v.push_back(q); v.push_back(b.lor(b.land(x,y),b.land(x,b.no(y)))); if(r.below(2)) v.push_back(b.lxor(p,recent())); } sinks(32); break; } } // redundant logic
  if(with_special){ switch(seed%5){ case 0: break; case 1: b.po({r.below(npi),(uint8_t)r.below(2)}); break; case 2: if(b.k.pos.size()){ auto o=b.k.pos[0]; o.p^=1; b.k.pos.push_back(o); } break; case 3: if(b.k.pos.size()) b.k.pos.push_back(b.k.pos[0]); break; default: { unsigned s=npi+r.below(b.k.g.size()); b.po({s,(uint8_t)r.below(2)}); } } }
  note_t n; n.add("gen(style=%u,seed=%u,npi=%u,size=%u) gates=%zu pos=%zu",style,(unsigned)seed,npi,size,b.k.g.size(),b.k.pos.size()); sym_note(n.b); return b.k; }
// pick a program of the family
inline sketch any_gen(unsigned nseeds,const std::vector<std::pair<unsigned,unsigned>>& dims){ unsigned st=(unsigned)sym_choice("style",NSTYLE); auto d=pick("dim",dims); unsigned sd=(unsigned)sym_choice("seed",nseeds); return gen(st,sd+sym_seed()*1000-1000,d.first,d.second); }

// structural invariants of an AIG reachable through the public API. fanout counts are compared when `counts`.
inline void check_aig_invariants(const aig_network& n,bool counts,bool hashing,const char* pfx){
  std::string p(pfx); uint64_t sz=n.size(); std::vector<uint32_t> fo(sz,0); std::vector<uint64_t> gates; bool fan_ok=true, alive=true, norm=true;
  n.foreach_gate([&](auto const& g){ gates.push_back(g); sig a=n.get_child0(g),b=n.get_child1(g); if(a.index>=sz||b.index>=sz){ fan_ok=false; return; } fo[a.index]++; fo[b.index]++; if(n.is_dead(a.index)||n.is_dead(b.index)) alive=false; if(!(a.index<b.index)||a.index==0) norm=false; });
  n.foreach_co([&](auto const& o){ sig s=o; if(s.index>=sz){ fan_ok=false; return; } fo[s.index]++; if(n.is_dead(s.index)) alive=false; });
  sym_check(fan_ok,(p+": fanins in range").c_str()); sym_check(alive,(p+": no live reference to a dead node").c_str());
  if(hashing){ sym_check(norm,(p+": gates normalised (ordered, non-trivial, no constant fanin)").c_str());
    bool uniq=true; for(size_t i=0;i<gates.size();++i) for(size_t j=i+1;j<gates.size();++j){ sig a=n.get_child0(gates[i]),b=n.get_child1(gates[i]),c=n.get_child0(gates[j]),d=n.get_child1(gates[j]); uniq&=(((a.data^c.data)|(b.data^d.data))!=0); } sym_check(uniq,(p+": no two gates with the same fanins").c_str()); }
  sym_check(n.num_gates()==gates.size(),(p+": num_gates counts the live gates").c_str());
  if(counts){ bool ok=true; for(uint64_t i=0;i<sz;++i) if(!n.is_dead(i)) ok&=(n.fanout_size(i)==fo[i]); sym_check(ok,(p+": fanout_size equals the number of references").c_str()); }
}
} // namespace hx
