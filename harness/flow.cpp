// P01: the one-shot mapping flow (examples/ifpga): AIGER file or folder in, Verilog and LUT netlists out
#include <fstream>
#include <iostream>
#include <sstream>
#include <sys/stat.h>
#include <unistd.h>
#include "klut_common.hpp"
#include "opt_common.hpp"
#include "netlist.hpp"
#include <flow/flow_manager.hpp>
using namespace hx; using namespace iFPGA_NAMESPACE;
static void num(std::string& s,uint64_t v){ char b[24]; snprintf(b,sizeof b,"%lu",(unsigned long)v); s+=b; }
static std::string slurp(const std::string& p){ std::ifstream in(p,std::ios::binary); std::stringstream b; b<<in.rdbuf(); return b.str(); }
static void put_delta(std::string& s,uint64_t d){ while(d>=128){ s.push_back((char)((d&0x7f)|0x80)); d>>=7; } s.push_back((char)d); }
static void write_aig(const std::string& p,const sketch& k,bool names){ std::string s="aig "; unsigned v[]={(unsigned)(k.npi+k.g.size()),k.npi,0,(unsigned)k.pos.size(),(unsigned)k.g.size()}; for(unsigned i=0;i<5;++i){ if(i) s+=' '; num(s,v[i]); } s+="\n"; for(auto&o:k.pos){ num(s,2*(o.s+1)+o.p); s+="\n"; } for(size_t i=0;i<k.g.size();++i){ uint64_t l=2*(k.npi+i+1),a=2*(k.g[i].a+1)+k.g[i].pa,b=2*(k.g[i].b+1)+k.g[i].pb; if(a<b) std::swap(a,b); put_delta(s,l-a); put_delta(s,a-b); } if(names){ for(unsigned i=0;i<k.npi;++i){ s+="i"; num(s,i); s+=" a["; num(s,i); s+="]\n"; } for(size_t i=0;i<k.pos.size();++i){ s+="o"; num(s,i); s+=" f"; num(s,i); s+="\n"; } } std::ofstream os(p,std::ios::binary); os<<s; }
// the same functions with redundant logic: some gates a&b become (a&b)&!(!a&c)
static sketch redundant(const sketch& k,unsigned seed){ lfsr r(77+seed); sketch n; n.npi=k.npi; std::vector<unsigned> at; for(unsigned i=0;i<k.npi;++i) at.push_back(i); std::vector<unsigned> pis=at; for(auto&g:k.g){ unsigned a=at[g.a],b=at[g.b]; n.g.push_back({a,b,g.pa,g.pb}); unsigned id=n.npi+n.g.size()-1; if(r.below(3)==0&&a>=n.npi){ unsigned c=r.below(id); n.g.push_back({a,c,(uint8_t)(g.pa^1),(uint8_t)r.below(2)}); n.g.push_back({id,id+1,0,1}); id+=2; } at.push_back(id); } for(auto&o:k.pos) n.pos.push_back({at[o.s],o.p}); return n; }
struct conf { unsigned cs=6,cl=10,ur=1,la=1; bool debug=false,verbose=false,balance=false; };
static void write_conf(const std::string& p,const conf& c){ std::string s="{ \"flow_manager\": { \"debug\": "; auto b=[&](bool v){ s+=v?"true":"false"; }; b(c.debug); s+=", \"iterations\": 0, \"use_balance\": "; b(c.balance); s+=", \"use_rewrite\": "; b(c.balance); s+=", \"verbose\": "; b(c.verbose); s+=", \"very_verbose\": "; b(c.verbose); s+=" }, \"klut_mapping\": { \"cut_size\": "; num(s,c.cs); s+=", \"cut_limit\": "; num(s,c.cl); s+=", \"uGlobal_round\": "; num(s,c.ur); s+=", \"uLocal_round\": "; num(s,c.la); s+=", \"debug\": "; b(c.debug); s+=", \"verbose\": "; b(c.verbose); s+=" }, \"rewrite\": { \"cut_size\": 4, \"cut_limit\": 10, \"min_candidate_cut_size\": 4, \"use_zero_gain\": true, \"preserve_depth\": false } }\n"; std::ofstream os(p); os<<s; }
// run the flow and compare both netlists with the file read
static void flow_one(const sketch& k,const conf& c,const std::vector<sketch>* versions,bool names){ inputs x(k.npi); auto want=k.eval(x.v); std::string base=unique_path("d"),in=versions?base:unique_path("aig"),cf=unique_path("json"),v=unique_path("v"),l=unique_path("lut.v"); static const char* F[]={"/original.aig","/compress.aig","/compress2.aig"}; if(versions){ mkdir(base.c_str(),0700); for(unsigned i=0;i<3;++i) write_aig(base+F[i],(*versions)[i],names&&i==0); } else write_aig(in,k,names); write_conf(cf,c);
  { flow_manager m(in,cf,v,l); m.run(); }
  std::string tv=slurp(v),tl=slurp(l); for(auto&p:{v,l,cf}) unlink(p.c_str()); if(versions){ for(unsigned i=0;i<3;++i) unlink((base+F[i]).c_str()); if(c.debug){ std::string t=slurp(base+"/awc.aig"); unlink((base+"/awc.aig").c_str()); unlink((base+"/awc.dot").c_str()); sym_check(t.compare(0,4,"aig ")==0,"the debug dump is an AIGER file"); } rmdir(base.c_str()); } else unlink(in.c_str());
  std::vector<std::string> pi,po; for(unsigned i=0;i<k.npi;++i){ std::string s="a["; num(s,i); pi.push_back(s+"]"); } for(size_t i=0;i<k.pos.size();++i){ std::string s="f"; num(s,i); po.push_back(s); }
  check_netlist(tl,x,want,names?&pi:nullptr,names?&po:nullptr,"LUT netlist of the flow"); check_netlist(tv,x,want,names?&pi:nullptr,names?&po:nullptr,"Verilog of the flow"); sym_cover("end"); }
static conf any_conf(){ conf c; switch(sym_choice("conf",sym_thorough()?6:4)){ case 0: break; case 1: c.cs=4; c.cl=6; c.debug=c.verbose=true; break; case 2: c.cs=3; c.cl=8; c.ur=2; c.la=3; break; case 3: c.cs=2; c.cl=20; c.balance=true; break; case 4: c.cs=5; c.debug=true; break; default: c.cl=20; c.verbose=true; } return c; }
static void folder(){ unsigned style=(unsigned)sym_choice("style",NSTYLE),seed=1+(unsigned)sym_choice("seed",sym_thorough()?12:3); static const unsigned D[][2]={{4,12},{6,30},{9,60}}; unsigned d=(style+seed)%3; sketch k=gen(style,seed,D[d][0],D[d][1]); conf c=any_conf(); std::vector<sketch> vs{k,redundant(k,seed),redundant(k,seed+31)}; if(sym_choice("swap",2)){ std::swap(vs[0],vs[1]); } flow_one(k,c,&vs,seed&1); }
static sketch tiny_net(){ unsigned c=(unsigned)sym_choice("net",5); sketch k; switch(c){ case 0: k.npi=2; k.pos={{1,1},{0,0}}; break; case 1: k.npi=3; k.g={{0,1,0,1},{3,2,1,0},{3,4,0,1}}; k.pos={{5,1},{4,0}}; break; case 2: k.npi=2; k.g={{0,1,0,0},{0,1,1,1},{2,3,1,1}}; k.pos={{4,0},{4,1},{0,1}}; break; case 3: k.npi=3; k.g={{0,1,0,0},{0,1,1,0},{3,4,0,0}}; k.pos={{5,0},{5,1},{2,0}}; break; default: k.npi=1; k.pos={{0,0}}; } return k; }
static void tiny(){ sketch k=tiny_net(); conf c=any_conf(); if(sym_choice("folder",2)){ std::vector<sketch> vs{k,redundant(k,1),redundant(k,2)}; flow_one(k,c,&vs,false); } else flow_one(k,c,nullptr,sym_choice("names",2)); }
static void file(){ uint64_t seed=sym_choice("seed",sym_thorough()?60:9); sketch k=gen(seed%NSTYLE,1+seed/NSTYLE,4+seed%5,14+4*((seed*7)%9)); conf c=seed%2?conf():conf{4,8,1,1,true,true,true}; flow_one(k,c,nullptr,seed&1); }
extern "C" void sym_main(const char* h){ std::string s(h); if(s=="folder") folder(); else if(s=="tiny") tiny(); else if(s=="file") file(); else __builtin_trap(); }
