// I01: reading AIGER   I02: writing AIGER, Verilog, LUT netlists and DOT
#include <fstream>
#include <iostream>
#include <sstream>
#include <unistd.h>
#include "klut_common.hpp"
#include "opt_common.hpp"
#include "netlist.hpp"
#include <operations/io/reader.hpp>
#include <operations/io/writer.hpp>
#include <operations/algorithms/cleanup.hpp>
using namespace hx; using namespace iFPGA_NAMESPACE;
static void num(std::string& s,uint64_t v){ char b[24]; snprintf(b,sizeof b,"%lu",(unsigned long)v); s+=b; }
// ---- an AIGER file: header and literals drawn from choices, the deltas of the gates are symbolic bytes
struct afile { unsigned I=0,L=0,O=0,A=0; std::vector<uint64_t> next,out; std::vector<int> reset; std::vector<uint64_t> d1,d2; // ground truth (d's symbolic)
  std::string bytes; unsigned M() const { return I+L+A; } };
static void put_delta(std::string& s,uint64_t d,bool two){ if(two){ s.push_back((char)((d&0x7f)|0x80)); s.push_back((char)0); } else s.push_back((char)(d&0x7f)); }
static uint8_t sel(const std::vector<uint8_t>& v,uint64_t l){ uint8_t r=0; for(size_t i=0;i<v.size();++i) r|=(uint8_t)(v[i]&(uint8_t)((l>>1)==i)); return r^(uint8_t)(l&1); }
static std::vector<uint8_t> ref_eval(const afile& f,const std::vector<uint8_t>& in){ std::vector<uint8_t> v{0}; for(unsigned i=0;i<f.I+f.L;++i) v.push_back(in[i]); for(unsigned g=0;g<f.A;++g){ uint64_t lhs=2*(f.I+f.L+1+g), r0=lhs-f.d1[g], r1=r0-f.d2[g]; v.push_back(sel(v,r0)&sel(v,r1)); } std::vector<uint8_t> r; for(auto o:f.out) r.push_back(sel(v,o)); for(auto o:f.next) r.push_back(sel(v,o)); return r; }
static void header(afile& f,bool props){ f.bytes="aig "; unsigned v[]={f.M(),f.I,f.L,f.O,f.A}; for(unsigned i=0;i<5;++i){ if(i) f.bytes+=' '; num(f.bytes,v[i]); } if(props) f.bytes+=" 1 1 1 1"; f.bytes+="\n"; }
static void body(afile& f,bool props){ for(unsigned i=0;i<f.L;++i){ num(f.bytes,f.next[i]); if(f.reset[i]==0) f.bytes+=" 0"; else if(f.reset[i]==1) f.bytes+=" 1"; else { f.bytes+=" "; num(f.bytes,2*(f.I+i+1)); } f.bytes+="\n"; } for(auto o:f.out){ num(f.bytes,o); f.bytes+="\n"; } if(props) f.bytes+="0\n1\n2\n0\n1\n1\n"; }
static void rd_bin(){ afile f; f.I=(unsigned)sym_choice("I",sym_thorough()?4:3); f.L=(unsigned)sym_choice("L",2); f.A=(unsigned)sym_choice("A",sym_thorough()?4:3); bool lean=f.A>=2&&!sym_thorough(); if(lean&&(f.I+f.L!=2)) sym_drop(); bool tie=f.A<=1&&!sym_thorough(); f.O=1+(lean||tie?0:(unsigned)sym_choice("O",2)); bool names=(f.A<2||sym_thorough())&&sym_choice("names",2); bool props=f.A<2&&!names&&sym_choice("props",2);
  for(unsigned i=0;i<f.L;++i){ f.next.push_back((lean||names||(tie&&f.A))&&!sym_thorough()?2*f.M()+1-(lean?0:3*sym_choice("next",2)):sym_choice("next",2*f.M()+2)); f.reset.push_back(lean?-1:tie?(int)(f.next[i]%3)-1:(int)sym_choice("reset",3)-1); } for(unsigned i=0;i<f.O;++i) f.out.push_back(i?(f.out[0]^1):lean?2*f.M()+1-3*sym_choice("out",2):tie&&f.A&&f.L?2*f.M()+1-sym_choice("out",4):names&&!sym_thorough()?(2*f.M()+1-sym_choice("out",f.M()?3:2)):sym_choice("out",2*f.M()+2)); header(f,props); body(f,props);
  for(unsigned g=0;g<f.A;++g){ uint64_t lhs=2*(f.I+f.L+1+g); uint64_t a,b; if(lean&&g==0){ a=1+sym_choice("d1",2); b=1+sym_choice("d2",2); } else if(names){ a=1+sym_choice("d1",4); b=sym_choice("d2",3); if(a>lhs||b>lhs-a) sym_drop(); } else { a=sym_bits("d1",4); b=sym_bits("d2",4); } sym_assume((bool)((a>=1)&(a<=lhs)&(b<=lhs-a))); f.d1.push_back(a); f.d2.push_back(b); put_delta(f.bytes,a,g==0&&sym_choice("long",2)); put_delta(f.bytes,b,false); }
  if(names){ for(unsigned i=0;i<f.I;++i){ f.bytes+="i"; num(f.bytes,i); f.bytes+=" in["; num(f.bytes,i); f.bytes+="]\n"; } for(unsigned i=0;i<f.L;++i){ f.bytes+="l"; num(f.bytes,i); f.bytes+=" reg\n"; } for(unsigned i=0;i<f.O;++i){ f.bytes+="o"; num(f.bytes,i); f.bytes+=" out "; num(f.bytes,i); f.bytes+="\n"; } } unsigned tail=lean?0:tie?(unsigned)(f.out[0]%3):(unsigned)sym_choice("tail",3); if(tail) f.bytes+= tail==1?"c\ncomment\ni0 no\n":"c";
  aig_network a; NameMap<aig_network> nm; lorina::return_code rc; { std::istringstream in(f.bytes); aiger_reader<aig_network> rd(a,&nm); rc=lorina::read_aiger(in,rd); } sym_check(rc==lorina::return_code::success,"a well-formed AIGER file is accepted");
  sym_check(a.num_pis()==f.I&&a.num_pos()==f.O&&a.num_latches()==f.L&&a.num_cis()==f.I+f.L,"the interface declared in the header is created"); inputs x(f.I+f.L); check_equal(eval(a,x),ref_eval(f,x.v),"outputs and next-state functions are those of the file"); check_aig_invariants(a,true,true,"read network"); for(unsigned i=0;i<f.L;++i) sym_check(a.latch_reset(i)==f.reset[i],"register reset values are those of the file");
  if(names){ unsigned k=0; bool ok=true; a.foreach_ci([&](auto n){ char b[16]; if(k<f.I) snprintf(b,16,"in[%u]",k); else snprintf(b,16,"reg"); ok&=nm.has_name(a.make_signal(n),b); ++k; }); k=0; a.foreach_po([&](auto const& s){ char b[16]; snprintf(b,16,"out %u",k++); ok&=nm.has_name(sig(s),b); }); sym_check(ok,"symbol table names the inputs, registers and outputs"); sym_cover("names"); }
  if(f.L) sym_cover("register"); sym_cover(f.A==0?"A0":f.A==1?names?"A1n":"A1":"A2"); sym_cover("end"); sym_observe("gates",a.num_gates()); }
// big networks: multi-byte deltas, one gate with a symbolic delta
static void rd_wide(){ static const unsigned N[]={70,300,9000}; unsigned n=N[sym_choice("n",sym_thorough()?3:2)]; afile f; f.I=n; f.A=2; f.O=1; uint64_t lhs=2*(n+1); header(f,false); num(f.bytes,lhs+2); f.bytes+="\n"; uint64_t base=sym_choice("base",3); uint64_t d=(base==0?1:base==1?lhs/2:lhs-8)+sym_bits("d",2); uint64_t e=sym_choice("e",3); uint64_t d2=e==0?0:e==1?1:(lhs-d)-(uint64_t)sym_choice("low",2)*2; auto enc=[&](std::string& s,uint64_t v,unsigned len){ for(unsigned i=0;i<len;++i){ s.push_back((char)((v&0x7f)|(i+1<len?0x80:0))); v>>=7; } }; unsigned len=n<8000?2:3; enc(f.bytes,d,len); enc(f.bytes,d2,len); enc(f.bytes,2,1); enc(f.bytes,lhs+2-2-3,len);
  aig_network a; lorina::return_code rc; { std::istringstream in(f.bytes); aiger_reader<aig_network> rd(a); rc=lorina::read_aiger(in,rd); } sym_check(rc==lorina::return_code::success,"a well-formed AIGER file is accepted"); sym_check(a.num_pis()==n&&a.num_pos()==1,"the interface declared in the header is created"); uint64_t r0=lhs-d,r1=r0-d2; std::vector<uint8_t> in(n,0); uint64_t c0=sym_concretize(r0),c1=sym_concretize(r1); auto at=[&](uint64_t v)->uint8_t{ return v==0?0:in[v-1]; }; uint64_t u[]={c0>>1,c1>>1,1}; for(uint64_t v:u) if(v) in[v-1]=(uint8_t)sym_bits("x",1); evaluator ev(a,in); auto o=ev.outputs(); sym_check(o.size()==1&&o[0]==(uint8_t)((at(c0>>1)^(c0&1))&(at(c1>>1)^(c1&1))&(in[0]^1)),"outputs and next-state functions are those of the file"); sym_cover("end"); }
// ---- malformed files are refused, nothing is read out of bounds, nothing hangs
static void rd_bad(){ sym_path_timeout(20); unsigned kind=(unsigned)sym_choice("kind",6); afile f; f.I=2; f.L=(unsigned)sym_choice("L",2); f.O=1; f.A=2; if(f.L){ f.next.push_back(3); f.reset.push_back(0); } f.out.push_back(2*f.M()+1); bool must_fail=true; aig_network a; NameMap<aig_network> nm; note_t nt;
  auto gates=[&](uint64_t a0,uint64_t b0,uint64_t a1,uint64_t b1){ uint64_t d[]={a0,b0,a1,b1}; for(auto v:d) f.bytes.push_back((char)v); };
  switch(kind){
    case 0: { static const char* H[]={"","aig","aig \n","aag 4 2 0 1 2\n","aig 4 2 0 1\n","aig 4 2 x 1 2\n","aig -4 2 0 1 2\n"," aig 4 2 0 1 2\n","aig 4 2 0 1 2 \n","aig 4 2 0 1 2 0 0 0 0 0\n","aig 3 2 0 1 2\n","aig 5 2 0 1 2\n","aig 4 2 0 1 2 y\n","\n","aig 1 2 0 1 2\n"}; f.bytes=H[sym_choice("h",15)]; f.L=0; f.bytes+="9\n"; gates(2,2,2,2); nt.add("header variant"); break; }
    case 1: { header(f,false); body(f,false); gates(2,2,2,2); size_t n=sym_choice("cut",f.bytes.size()); f.bytes.resize(n); nt.add("truncated to %zu bytes",n); break; }
    case 2: { uint64_t bad=2*(f.M()+1)+sym_choice("over",3); static const uint64_t B[]={0,40,4000000000ull,~0ull>>1}; unsigned w=(unsigned)sym_choice("far",4); if(w) bad=B[w]; if(f.L&&sym_choice("latch",2)) f.next[0]=bad; else f.out[0]=bad; header(f,false); body(f,false); gates(2,2,2,2); nt.add("literal %lu out of range",(unsigned long)bad); break; }
    case 3: { header(f,false); body(f,false); uint64_t g=sym_choice("gate",2); uint64_t lhs=2*(f.I+f.L+1+g); uint64_t x=sym_bits("d1",6),y=sym_bits("d2",6); sym_assume((bool)((x==0)|(x>lhs)|(y>lhs-x))); if(g) gates(2,2,x,y); else gates(x,y,2,2); nt.add("gate %u has impossible deltas",(unsigned)g); break; }
    case 4: { header(f,false); body(f,false); gates(2,2,2,2); static const char* S[]={"i2 a\n","i4000000000 a\n","o1 b\n","o99 b\n","l0 r\n","l7 r\n","b0 p\n","c5 p\n","j0 p\n","f0 p\n","i99999999999999999999 a\n","x\n","i a\n"}; f.bytes+=S[sym_choice("sym",f.L?13:13)]; must_fail=false; nt.add("symbol table entry without a port"); break; }
    default: { header(f,false); body(f,false); std::string enc; unsigned n=1+(unsigned)sym_choice("len",12); for(unsigned i=0;i<n;++i) enc.push_back((char)0xff); enc.push_back(0x7f); f.bytes+=enc; gates(2,2,2,2); nt.add("a delta of %u bytes",n+1); break; } }
  sym_note(nt.b); lorina::return_code rc; { std::istringstream in(f.bytes); aiger_reader<aig_network> rd(a,&nm); rc=lorina::read_aiger(in,rd); } if(must_fail) { sym_check(rc==lorina::return_code::parse_error,"a malformed AIGER file is refused"); sym_cover("refused"); } else { inputs x(f.I+f.L); eval(a,x); sym_check(a.num_pos()==1,"outputs are kept"); } check_aig_invariants(a,true,true,"read network"); sym_cover("end"); }
// ---- files read through the Reader: port names reach the writers
static std::string norm(std::string s){ if(!s.empty()&&s[0]=='\\'){ s=s.substr(1); while(!s.empty()&&s.back()==' ') s.pop_back(); } return s; }
static klut_network to_klut(const aig_network& a){ klut_network k; std::vector<uint64_t> m(a.size(),0); a.foreach_pi([&](auto n){ m[n]=k.create_pi(); }); a.foreach_gate([&](auto n){ sig x=a.get_child0(n),y=a.get_child1(n); kitty::dynamic_truth_table t(2); for(unsigned i=0;i<4;++i) if((((i&1)^x.complement)&((i>>1)^y.complement))) kitty::set_bit(t,i); std::vector<klut_network::signal> c{m[x.index],m[y.index]}; m[n]=k.create_node(c,t); }); a.foreach_po([&](auto const& s){ sig f=s; k.create_po(f.index==0?k.get_constant(f.complement):f.complement?k.create_not(m[f.index]):m[f.index]); }); return k; }
static void rd_file(){ unsigned I=1+(unsigned)sym_choice("I",2); afile f; f.I=I; f.A=1; f.O=2; if(I==1) f.A=0; f.out.push_back(sym_choice("o0",2*f.M()+2)); f.out.push_back(sym_choice("o1",2*f.M()+2)); header(f,false); body(f,false); if(f.A){ f.bytes.push_back(2); f.bytes.push_back(2); f.d1.push_back(2); f.d2.push_back(2); }
  static const char* IN[]={"","a","n3","x0","a b"}; static const char* ON[]={"","f","n3","y0","o[1]"}; std::vector<std::string> in(f.I),out(f.O); unsigned ni=0,no=0; for(unsigned i=0;i<f.I;++i){ in[i]=IN[sym_choice("in",i?3:5)]; if(i&&in[i]==in[0]&&!in[i].empty()) in[i]+="2"; if(!in[i].empty()){ ++ni; f.bytes+="i"; num(f.bytes,i); f.bytes+=" "+in[i]+"\n"; } } for(unsigned i=0;i<f.O;++i){ out[i]=ON[sym_choice("on",i?3:5)]; bool dup=false; if(!out[i].empty()){ for(auto&s:in) dup|=s==out[i]; if(i) dup|=out[0]==out[i]; if(dup) out[i]+=i?"_r":"_q"; for(auto&s:in) if(s==out[i]) sym_drop(); ++no; f.bytes+="o"; num(f.bytes,i); f.bytes+=" "+out[i]+"\n"; } }
  for(auto&s:in) for(auto& c:s) if(c==' ') sym_cover("space"); std::string p=unique_path("aig"); { std::ofstream os(p,std::ios::binary); os<<f.bytes; } aig_network a; write_verilog_params ports; bool ok; { Reader<aig_network> r(p,a,ports); ok=r.isSuccess(); } unlink(p.c_str()); sym_check(ok,"a well-formed file is read"); if(!ok) return; inputs x(f.I); auto want=ref_eval(f,x.v); check_equal(eval(a,x),want,"outputs and next-state functions are those of the file");
  std::vector<std::string> pin,pout; for(auto s:in){ for(auto&c:s) if(c==' ') s=""; pin.push_back(s); } for(auto&s:out) pout.push_back(s); bool spaced=false; for(auto&s:in) for(auto c:s) spaced|=c==' '; if(!spaced){ std::ostringstream os; write_verilog(a,os,ports); check_netlist(os.str(),x,want,&pin,&pout,"Verilog with port names"); klut_network k=to_klut(a); std::ostringstream ol; write_lut(k,ol,ports); check_netlist(ol.str(),x,want,&pin,&pout,"LUT netlist with port names"); }
  if(ni==f.I&&no==f.O&&!spaced){ bool same=ports.input_names.size()==f.I&&ports.output_names.size()==f.O; for(unsigned i=0;same&&i<f.I;++i) same&=norm(ports.input_names[i].first)==in[i]; for(unsigned i=0;same&&i<f.O;++i) same&=norm(ports.output_names[i].first)==out[i]; sym_check(same,"ports carry the names of the symbol table"); sym_cover("named"); } sym_cover("end"); }
// ---- writers
static void dot_check(const std::string& s,const std::vector<std::array<uint64_t,3>>& edges,size_t nodes,size_t pos,const char* what){ std::istringstream in(s); std::string l; std::vector<std::array<uint64_t,3>> got; size_t nn=0,np=0; bool ok=true; while(std::getline(in,l)){ unsigned long a,b; if(l.find("->")!=std::string::npos){ uint64_t st=l.find("style=dashed")!=std::string::npos; if(!st) ok&=l.find("style=solid")!=std::string::npos; if(sscanf(l.c_str(),"%lu -> po%lu",&a,&b)==2) got.push_back({a,b+1000000,st}); else if(sscanf(l.c_str(),"%lu -> %lu",&a,&b)==2) got.push_back({a,b,st}); else ok=false; } else if(l.find("shape=")!=std::string::npos){ if(l[0]=='p') ++np; else ++nn; } } auto want=edges; std::sort(want.begin(),want.end()); std::sort(got.begin(),got.end()); note_t t; t.add("%s: the drawn edges are the fanins and outputs",what); sym_check(ok&&want==got,t.b); note_t u; u.add("%s: every node and output is drawn once",what); sym_check(nn==nodes&&np==pos,u.b); }
static sketch small_net(){ unsigned cfg=(unsigned)sym_choice("cfg",sym_thorough()?4:3); if(cfg==0){ sketch k; k.npi=(unsigned)sym_choice("npi",3); return k; } static const unsigned C[][2]={{0,0},{2,2},{2,3},{3,3}}; sketch k=any_sketch(C[cfg][0],C[cfg][1],false,false,cfg>=2); for(auto&g:k.g){ g.pa=sym_choice("pa",2); g.pb=sym_choice("pb",2); } for(auto&o:k.pos) o.p=sym_choice("po",2); return k; }
static aig_network net_with_specials(sketch& k,std::vector<uint8_t>& want,const inputs& x,unsigned sp){ aig_network a=k.build(); want=k.eval(x.v); if(sp&1){ a.create_po(a.get_constant(true)); want.push_back(1); } if(sp&2){ a.create_po(a.get_constant(false)); want.push_back(0); } if((sp&4)&&k.npi){ a.create_po(!a.make_signal(1)); want.push_back(x.v[0]^1); a.create_po(a.make_signal(k.npi)); want.push_back(x.v[k.npi-1]); } return a; }
static std::vector<std::array<uint64_t,3>> aig_edges(const aig_network& a){ std::vector<std::array<uint64_t,3>> r; a.foreach_gate([&](auto n){ sig x=a.get_child0(n),y=a.get_child1(n); r.push_back({x.index,n,x.complement}); r.push_back({y.index,n,y.complement}); }); unsigned i=0; a.foreach_po([&](auto const& s){ sig f=s; r.push_back({f.index,1000000+i++,f.complement}); }); return r; }
static void write_all(aig_network a,const inputs& x,const std::vector<uint8_t>& want,unsigned what){
  if(what==0){ std::ostringstream os; write_aiger(a,os); std::string s=os.str(); aig_network b; lorina::return_code rc; { std::istringstream in(s); aiger_reader<aig_network> rd(b); rc=lorina::read_aiger(in,rd); } sym_check(rc==lorina::return_code::success,"a written AIGER file is accepted by the reader"); check_equal(eval(b,x),want,"writing and reading an AIGER file keeps every output"); sym_check(b.num_pis()==x.v.size()&&b.num_gates()==a.num_gates(),"writing and reading an AIGER file keeps inputs and gates"); std::ostringstream o2; write_aiger(b,o2); sym_check(o2.str()==s,"writing again yields the same file"); }
  else if(what==1){ std::ostringstream os; write_verilog(a,os); check_netlist(os.str(),x,want,nullptr,nullptr,"Verilog"); }
  else if(what==2){ klut_network k=to_klut(a); std::ostringstream os; write_lut(k,os,write_verilog_params{}); check_netlist(os.str(),x,want,nullptr,nullptr,"LUT netlist"); }
  else { std::ostringstream os; write_dot(a,os); dot_check(os.str(),aig_edges(a),a.size(),a.num_pos(),"DOT of an AIG"); } }
static void wr_small(){ sketch k=small_net(); inputs x(k.npi); std::vector<uint8_t> want; aig_network a=net_with_specials(k,want,x,k.g.size()>2?7:(unsigned)sym_choice("sp",8)); if(want.empty()) sym_drop(); a=cleanup_dangling(a); write_all(a,x,want,(unsigned)sym_choice("writer",4)); sym_cover("end"); }
static void wr_large(){ sketch k=any_gen(sym_thorough()?10:3,sym_thorough()?DIMS_T:DIMS_Q); inputs x(k.npi); std::vector<uint8_t> want; aig_network a=net_with_specials(k,want,x,0); a=cleanup_dangling(a); write_all(a,x,want,(unsigned)sym_choice("writer",4)); sym_cover("end"); }
// many inputs: literals and deltas of several bytes
static void wr_wide(){ static const unsigned N[]={40,63,64,70,130,9000}; unsigned n=N[sym_choice("n",sym_thorough()?6:5)]; aig_network a; std::vector<sig> s; for(unsigned i=0;i<n;++i) s.push_back(a.create_pi()); std::vector<unsigned> idx; idx.push_back(0); idx.push_back(1); idx.push_back(n/2); idx.push_back(n-2); idx.push_back(n-1); std::vector<uint8_t> in(n,0); unsigned i=idx[sym_choice("i",5)],j=idx[sym_choice("j",5)]; if(i==j) sym_drop(); bool p=sym_choice("p",2),q=sym_choice("q",2); in[i]=(uint8_t)sym_bits("x",1); in[j]=(uint8_t)sym_bits("x",1); sig g=a.create_and(s[i]^p,s[j]^q); unsigned l=idx[sym_choice("l",5)]; sig h=a.create_and(!g,s[l]); in[l]=(uint8_t)sym_bits("x",1); a.create_po(h); evaluator ev(a,in); auto want=ev.outputs(); inputs x(0); x.v=in; unsigned w=(unsigned)sym_choice("writer",2); if(n>1000&&w) sym_drop(); write_all(a,x,want,w); sym_cover("end"); }
// LUT networks of any arity
static void wr_klut(){ unsigned npi=1+(unsigned)sym_choice("npi",3); klut_network k; std::vector<klut_network::signal> s; for(unsigned i=0;i<npi;++i) s.push_back(k.create_pi()); unsigned ng=1+(unsigned)sym_choice("ng",2); bool lean=ng==2&&!sym_thorough(); static const uint64_t T[]={0xfee1deadcafe8001ull,0x0123456789abcdefull,0x6996966996696996ull,0x8000000000000001ull,0x5,0xa}; for(unsigned g=0;g<ng;++g){ unsigned ar=lean?1+g+(unsigned)sym_choice("ar",3):1+(unsigned)sym_choice("ar",6); std::vector<klut_network::signal> c; for(unsigned i=0;i<ar;++i) c.push_back(s[(i*(1+sym_choice("rot",1))+g)%s.size()]); std::rotate(c.begin(),c.begin()+(lean?g:sym_choice("r",ar)),c.end()); kitty::dynamic_truth_table t(ar); uint64_t m=ar==6?~0ull:((1ull<<(1u<<ar))-1); t._bits[0]=(T[sym_choice("t",sym_thorough()?6:lean?2:3)])&m; s.push_back(k.create_node(c,t)); } k.create_po(s.back()); unsigned e=(unsigned)sym_choice("po",4); if(e==1) k.create_po(k.get_constant(true)); if(e==2) k.create_po(s[0]); if(e==3) k.create_po(s[npi]); inputs x(npi); auto want=keval(k,x); 
  if(sym_choice("dot",2)){ std::vector<std::array<uint64_t,3>> ed; k.foreach_gate([&](auto n){ k.foreach_fanin(n,[&](auto f){ ed.push_back({f,n,0}); }); }); unsigned i=0; k.foreach_po([&](auto f){ ed.push_back({f,1000000+i++,0}); }); std::ostringstream os; write_dot(k,os); dot_check(os.str(),ed,k.size(),k.num_pos(),"DOT of a LUT network"); sym_cover("dot"); } else { std::ostringstream os; write_lut(k,os,write_verilog_params{}); check_netlist(os.str(),x,want,nullptr,nullptr,"LUT netlist"); } sym_cover("end"); }
// the Writer class: files on disk hold what the stream writers produce
static void wr_file(){ sketch k=small_net(); inputs x(k.npi); std::vector<uint8_t> want; aig_network a=net_with_specials(k,want,x,0); if(want.empty()) sym_drop(); klut_network kl=to_klut(a); Writer<aig_network,klut_network> w(a,kl); unsigned t=(unsigned)sym_choice("type",3); std::string p=unique_path("out"); { write_verilog_params pn; aig_network none; Reader<aig_network> r("missing_"+p,none,pn); sym_check(!r.isSuccess(),"reading a missing file fails"); } bool ok=t==0?w.write2AIG(p):t==1?w.write2Verilog(p):w.write2LUT(p); sym_check(ok,"the file is written"); std::string s; { std::ifstream in(p,std::ios::binary); std::stringstream b; b<<in.rdbuf(); s=b.str(); } unlink(p.c_str()); std::ostringstream os; if(t==0) write_aiger(a,os); else if(t==1) write_verilog(a,os); else write_lut(kl,os,write_verilog_params{}); sym_check(s==os.str(),"the file holds the text of the stream writer"); sym_cover("end"); }
// Verilog with vector ports: any partition of the inputs and outputs into scalars and vectors, names that look like wires
static std::vector<std::pair<std::string,uint32_t>> ports_of(unsigned n,const char* pfx,std::vector<std::string>& bits,lfsr& r,unsigned mode){ std::vector<std::pair<std::string,uint32_t>> p; for(unsigned at=0,i=0;at<n;++i){ unsigned left=n-at; uint32_t w=mode==0?0:mode==1?left:mode==2?1:r.below(3)==0?0:1+r.below(std::min(left,4u)); std::string nm(pfx); num(nm,i); p.push_back({nm,w}); if(!w) bits.push_back(nm); for(uint32_t q=0;q<w;++q){ std::string b=nm+"["; num(b,q); bits.push_back(b+"]"); } at+=std::max(w,1u); } return p; }
static void wr_ports(){ static const char* PF[][2]={{"a","f"},{"n","m"},{"x","y"},{"i","n"}}; sketch k=gen((unsigned)sym_choice("style",sym_thorough()?NSTYLE:4),1+sym_choice("seed",sym_thorough()?8:2),6,20); inputs x(k.npi); auto want=k.eval(x.v); aig_network a=k.build(); write_verilog_params ps; std::vector<std::string> pi,po; unsigned mi=(unsigned)sym_choice("in",4),mo=(unsigned)sym_choice("out",4),pf=(unsigned)sym_choice("names",4); lfsr r(1+mi*5+mo*3+pf+k.g.size()); ps.input_names=ports_of(k.npi,PF[pf][0],pi,r,mi); ps.output_names=ports_of(k.pos.size(),PF[pf][1],po,r,mo); if(mi==3) ps.module_name="mod"; std::ostringstream os; write_verilog(a,os,ps); check_netlist(os.str(),x,want,&pi,&po,"Verilog with vector ports"); sym_check(netlist(os.str()).module==ps.module_name,"the module carries the name given"); sym_cover("end"); }
extern "C" void sym_main(const char* h){ std::string s(h); if(s=="wr_ports") wr_ports(); else if(s=="rd_bin") rd_bin(); else if(s=="rd_wide") rd_wide(); else if(s=="rd_bad") rd_bad(); else if(s=="rd_file") rd_file(); else if(s=="wr_small") wr_small(); else if(s=="wr_large") wr_large(); else if(s=="wr_wide") wr_wide(); else if(s=="wr_klut") wr_klut(); else if(s=="wr_file") wr_file(); else __builtin_trap(); }
