#pragma once
#include "common.hpp"
#include <database/network/klut_network.hpp>
namespace hx {
using iFPGA_NAMESPACE::klut_network;
// evaluation of a LUT network from its own tables: bit (sum of fanin_i << i) of node_function
struct kevaluator {
  const klut_network& n; const std::vector<uint8_t>& in; std::vector<uint8_t> val,st; bool acyclic=true, arity=true;
  kevaluator(const klut_network& k,const std::vector<uint8_t>& i):n(k),in(i),val(k.size(),0),st(k.size(),0){ unsigned j=0; n.foreach_ci([&](auto const& p){ val[p]=j<in.size()?in[j]:0; st[p]=2; ++j; }); val[0]=0; val[1]=1; st[0]=st[1]=2; }
  uint8_t node(uint64_t x){ if(x>=st.size()){ acyclic=false; return 0; } if(st[x]==2) return val[x]; if(st[x]==1){ acyclic=false; return 0; } st[x]=1; uint32_t idx=0; unsigned k=0; n.foreach_fanin(x,[&](auto const& f){ idx|=(uint32_t)node(f)<<k; ++k; }); auto tt=n.node_function(x); if((unsigned)tt.num_vars()!=k){ arity=false; st[x]=2; return 0; }
    uint8_t r=0; for(uint64_t m=0;m<(1ull<<k);++m) r|=(uint8_t)((idx==m)&((tt._bits[m>>6]>>(m&63))&1)); val[x]=r; st[x]=2; return r; }
  std::vector<uint8_t> outputs(){ std::vector<uint8_t> r; n.foreach_co([&](auto const& o){ r.push_back(node(o)); }); return r; }
};
inline std::vector<uint8_t> keval(const klut_network& n,const inputs& in){ kevaluator e(n,in.v); auto r=e.outputs(); sym_check(e.acyclic,"LUT network is acyclic"); sym_check(e.arity,"every LUT function has as many variables as fanins"); return r; }
inline void check_klut_invariants(const klut_network& n,unsigned maxk,bool counts,const char* pfx){ std::string p(pfx); std::vector<uint32_t> fo(n.size(),0); unsigned g=0; bool range=true,arity=true,kk=true; n.foreach_gate([&](auto const& x){ ++g; unsigned k=0; n.foreach_fanin(x,[&](auto const& f){ ++k; if(f>=n.size()) range=false; else fo[f]++; }); arity&=(k>0&&k==n.fanin_size(x)&&(unsigned)n.node_function(x).num_vars()==k); kk&=(k<=maxk); }); n.foreach_co([&](auto const& o){ if(o>=n.size()) range=false; else fo[o]++; });
  sym_check(range,(p+": fanins in range").c_str()); sym_check(arity,(p+": LUT arity matches its table").c_str()); sym_check(kk,(p+": LUT size bound").c_str()); sym_check(n.num_gates()==g,(p+": num_gates counts the gates").c_str()); if(counts){ bool ok=true; for(uint64_t i=0;i<n.size();++i) ok&=(n.fanout_size(i)==fo[i]); sym_check(ok,(p+": fanout_size equals the number of references").c_str()); } }
}
