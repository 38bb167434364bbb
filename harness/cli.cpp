// G01: sessions of the command line tool: files in, commands, files out
#include <fstream>
#include <iostream>
#include <sstream>
#include <fcntl.h>
#include <unistd.h>
#include "klut_common.hpp"
#include "opt_common.hpp"
#include "netlist.hpp"
#define ALICE_CINTERFACE
#include "imap.cpp"
using namespace hx; using namespace iFPGA_NAMESPACE;
static void num(std::string& s,uint64_t v){ char b[24]; snprintf(b,sizeof b,"%lu",(unsigned long)v); s+=b; }
static std::string slurp(const std::string& p){ std::ifstream in(p,std::ios::binary); std::stringstream b; b<<in.rdbuf(); return b.str(); }
static void put_delta(std::string& s,uint64_t d){ while(d>=128){ s.push_back((char)((d&0x7f)|0x80)); d>>=7; } s.push_back((char)d); }
// the AIGER file of a sketch, written without the code under test
static std::string aiger_of(const sketch& k,bool names){ std::string s="aig "; unsigned v[]={(unsigned)(k.npi+k.g.size()),k.npi,0,(unsigned)k.pos.size(),(unsigned)k.g.size()}; for(unsigned i=0;i<5;++i){ if(i) s+=' '; num(s,v[i]); } s+="\n"; for(auto&o:k.pos){ num(s,2*(o.s+1)+o.p); s+="\n"; } for(size_t i=0;i<k.g.size();++i){ uint64_t l=2*(k.npi+i+1),a=2*(k.g[i].a+1)+k.g[i].pa,b=2*(k.g[i].b+1)+k.g[i].pb; if(a<b) std::swap(a,b); put_delta(s,l-a); put_delta(s,a-b); } if(names){ for(unsigned i=0;i<k.npi;++i){ s+="i"; num(s,i); s+=" a["; num(s,i); s+="]\n"; } for(size_t i=0;i<k.pos.size();++i){ s+="o"; num(s,i); s+=" f"; num(s,i); s+="\n"; } } return s; }
static void names_of(const sketch& k,std::vector<std::string>& in,std::vector<std::string>& out){ for(unsigned i=0;i<k.npi;++i){ std::string s="a["; num(s,i); in.push_back(s+"]"); } for(size_t i=0;i<k.pos.size();++i){ std::string s="f"; num(s,i); out.push_back(s); } }
static std::string skeleton(const aig_network& a){ std::string s; auto add=[&](uint64_t v){ num(s,v); s+=' '; }; add(a.num_pis()); add(a.num_pos()); a.foreach_gate([&](auto n){ add(n); add(a.get_child0(n).data); add(a.get_child1(n).data); }); a.foreach_po([&](auto const& p){ add(sig(p).data); }); return s; }
// ---- a session with its reference model: the functions of the file, and the recorded history
struct session { cli_t* c; const sketch* k=nullptr; const inputs* x=nullptr; std::vector<uint8_t> want; bool open=false,mapped=false; std::vector<std::string> hist; std::string text;
  session():c(reinterpret_cast<cli_t*>(imap_create())){}
  ~session(){ c->env->reroute(std::cout,std::cerr); imap_delete(c); }
  store_container<aig_network>& aigs(){ return c->env->store<aig_network>(); } store_container<klut_network>& luts(){ return c->env->store<klut_network>(); }
  int raw(const std::string& s){ text+=s+"; "; sym_note(text.c_str()); return imap_command(c,s.c_str(),nullptr,0); }
  void check(const char* after){ if(!open){ sym_check(aigs().empty(),"no network appears without a file"); return; } note_t t; t.add("after %s the current network computes the functions of the file",after); aig_network a=aigs().current(); sym_check(a.num_pis()==k->npi&&a.num_pos()==k->pos.size(),"the current network keeps the inputs and outputs of the file"); check_equal(eval(a,*x),want,t.b); check_aig_invariants(a,true,true,"current network");
    if(!mapped) sym_check(luts().empty(),"no mapping result is left from an earlier file"); if(mapped){ note_t u; u.add("after %s the mapping result computes the functions of the file",after); klut_network l=luts().current(); sym_check(l.num_pis()==k->npi&&l.num_pos()==k->pos.size(),"the mapping result keeps the inputs and outputs of the file"); check_equal(keval(l,*x),want,u.b); }
    bool ok=true; for(size_t i=0;i<hist.size();++i) ok&=skeleton(aigs()[i])==hist[i]; sym_check(ok,"recorded networks stay as they were recorded"); }
  void read(const sketch& s,const inputs& in,bool names=false){ std::string p=unique_path("aig"); { std::ofstream os(p,std::ios::binary); os<<aiger_of(s,names); } k=&s; x=&in; want=s.eval(in.v); raw("read_aiger -f "+p); unlink(p.c_str()); open=true; mapped=false; hist.clear(); if(used>0) stale=true; check("read_aiger"); }
  unsigned used=0; bool stale=false;
  void add(){ bool room=used<5; std::string s=skeleton(aigs().current()); raw("history -a"); if(room){ ++used; if(!stale) hist.push_back(s); } check("history -a"); }
  void replace(unsigned i){ char b[32]; snprintf(b,32,"history -r %u",i); std::string s=skeleton(aigs().current()); raw(b); if(!stale&&i<hist.size()) hist[i]=s; check("history -r"); }
  void clear(){ raw("history -c"); used=0; hist.clear(); stale=false; check("history -c"); }
  void run(const std::string& s){ raw(s); check(s.c_str()); }
  void keepdepth(const std::string& s){ unsigned d=ref_depth(aigs().current()),g=used_gates(aigs().current()); run(s); sym_check(ref_depth(aigs().current())<=d,"a pass that preserves the levels never increases the depth"); sym_check(used_gates(aigs().current())<=g,"rewriting and refactoring never increase the number of gates"); }
  // the text a command prints on the standard output
  std::string printed(const std::string& cmd){ std::string p=unique_path("out"); fflush(stdout); int keep=dup(1),fd=::open(p.c_str(),O_CREAT|O_TRUNC|O_WRONLY,0600); dup2(fd,1); close(fd); raw(cmd); fflush(stdout); dup2(keep,1); close(keep); std::string t=slurp(p); unlink(p.c_str()); return t; }
  static long field(const std::string& t,const char* name){ auto p=t.find(name); if(p==std::string::npos) return -1; p+=strlen(name); while(p<t.size()&&(t[p]==' '||t[p]=='='||t[p]==':')) ++p; return p<t.size()&&t[p]>='0'&&t[p]<='9'?strtol(t.c_str()+p,nullptr,10):-2; }
  void stats(){ aig_network a=aigs().current(); unsigned g=0; a.foreach_gate([&](auto){ ++g; }); std::string t=printed("print_stats"); sym_check(field(t,"pis")==(long)a.num_pis()&&field(t,"pos")==(long)a.num_pos()&&field(t,"area")==(long)g&&field(t,"depth")==(long)ref_depth(a),"the statistics printed are those of the current network");
    if(mapped){ klut_network l=luts().current(); std::vector<unsigned> lev(l.size(),0); unsigned d=0,n=0; l.foreach_gate([&](auto q){ ++n; unsigned m=0; l.foreach_fanin(q,[&](auto f){ m=std::max(m,lev[f]); }); lev[q]=m+1; }); l.foreach_po([&](auto f){ d=std::max(d,lev[f]); }); t=printed("print_stats -t 1"); sym_check(field(t,"pis")==(long)l.num_pis()&&field(t,"pos")==(long)l.num_pos()&&field(t,"area")==(long)n&&field(t,"depth")==(long)d,"the statistics printed are those of the mapping result"); } if(!stale){ t=printed("history -s"); sym_check(field(t,"history size is")==(long)used,"the history size printed is the number of recorded networks"); } check("print_stats"); }
  void map(const std::string& s){ raw(s); mapped=true; check(s.c_str()); } };
enum { BAL,REF,LOPT,CLEAN,HADD,MAP,MAPC,HREP,RW,NOPS };
static void step(session& s,unsigned op,unsigned v){ switch(op){ case BAL: s.run(v%4==3?"balance -v":"balance"); break; case REF: s.keepdepth(v%7==5?"refactor -v":v%3==0?"refactor":v%3==1?"refactor -z":"refactor -I 4 -C 6"); break; case LOPT: s.run(v%7==6?"lut_opt -v":v%3==0?"lut_opt":v%3==1?"lut_opt -C 3":"lut_opt -C 4 -z"); break; case CLEAN: s.run(v%3==2?"cleanup -v":"cleanup"); break; case HADD: s.add(); break; case MAP: s.map(v%7==5?"map_fpga -v":v%4==0?"map_fpga":v%4==1?"map_fpga -C 4 -P 6":v%4==2?"map_fpga -C 2":"map_fpga -C 3 -P 20"); break; case MAPC: s.map(v%2?"map_fpga -t 1 -C 4":"map_fpga -t 1"); break; case HREP: s.replace(v%2); break; default: s.keepdepth(v%2?"rewrite -l -z":"rewrite -l"); } }
static sketch small_net(){ unsigned c=(unsigned)sym_choice("net",sym_thorough()?6:4); if(c==0){ sketch k; k.npi=2; k.pos.push_back({1,1}); k.pos.push_back({0,0}); return k; } if(c==1){ sketch k=gen(1,3,5,24); return k; } if(c==2){ sketch k=gen(4,2,4,12); return k; } if(c==3){ sketch k; k.npi=3; k.g.push_back({0,1,0,1}); k.g.push_back({3,2,1,0}); k.g.push_back({3,4,0,1}); k.pos.push_back({5,1}); k.pos.push_back({4,0}); return k; } return gen(c,7,6,30); }
// every sequence of commands of the given length
static void seq(){ unsigned n=sym_thorough()?4:3; sketch k=small_net(); inputs x(k.npi); session s; s.read(k,x); for(unsigned i=0;i<n;++i) step(s,(unsigned)sym_choice("cmd",RW),i); s.stats(); sym_cover("end"); }
// longer sessions on larger networks, with a second file in the middle
static void longseq(){ unsigned style=(unsigned)sym_choice("style",NSTYLE); uint64_t seed=1+sym_choice("seed",sym_thorough()?60:16); lfsr r(style*1009+seed); unsigned d=r.below(3); static const unsigned D[][2]={{4,12},{6,30},{9,60}}; sketch k=gen(style,seed,D[d][0],D[d][1]),k2=gen((style+1)%NSTYLE,seed,D[d][0],D[d][1]/2); inputs x(k.npi); session s; s.read(k,x); unsigned n=sym_thorough()?14:9; for(unsigned i=0;i<n;++i){ unsigned op=r.below(RW+2); if(op==RW+1||(op==RW&&i%4)) op=HADD; if(i==n/2&&seed%3==0) s.read(k2,x); step(s,op,r.below(12)); } s.stats(); if(s.hist.size()>1) sym_cover("history"); sym_cover("end"); }
// history: more records than there is room for, replacing, clearing
static void hist(){ sketch k=gen(1,5,5,20); inputs x(k.npi); session s; s.read(k,x); unsigned n=sym_thorough()?9:7; for(unsigned i=0;i<n;++i){ unsigned op=i<5&&!sym_thorough()?0:(unsigned)sym_choice("op",4); switch(op){ case 0: s.add(); break; case 1: s.replace((unsigned)sym_choice("at",6)); break; case 2: s.clear(); break; default: s.map("map_fpga -t 1"); } if(i==1) s.run("refactor"); if(i==2) s.run("balance"); if(i==6) s.run("lut_opt -C 3"); } s.map("map_fpga -t 1"); s.stats(); sym_cover("end"); }
// options: every documented value is accepted, everything else is refused without touching the session
static void options(){ struct opt { const char* cmd; const char* o; int lo,hi; }; static const opt O[]={{"map_fpga","-P",6,20},{"map_fpga","-C",2,6},{"map_fpga","-G",1,2},{"map_fpga","-L",1,3},{"map_fpga","-t",0,1},{"lut_opt","-P",6,20},{"lut_opt","-C",2,6},{"lut_opt","-G",1,2},{"lut_opt","-L",1,3},{"refactor","-I",2,12},{"refactor","-C",1,20},{"rewrite","-P",6,20},{"rewrite","-C",2,4}}; unsigned w=(unsigned)sym_choice("option",13); auto& o=O[w]; int v=o.lo-2+(int)sym_choice("value",o.hi-o.lo+5); bool in=v>=o.lo&&v<=o.hi; if(w>=11&&in&&v!=o.lo&&v!=o.hi&&!sym_thorough()) sym_drop(); if(w==10&&v==0) in=true; sketch k=gen(0,11,12,in?170:40); inputs x(k.npi); session s; s.read(k,x); s.add(); std::string before=skeleton(s.aigs().current()); char b[64]; snprintf(b,64,"%s %s %d",o.cmd,o.o,v); bool map=o.cmd[0]=='m'; if(in){ if(map) s.map(b); else s.run(b); sym_cover("accepted"); if(map) sym_check(s.luts().size()>0,"a documented option value is accepted"); } else { s.run(b); sym_check(skeleton(s.aigs().current())==before,"a refused option leaves the network alone"); sym_check(s.luts().size()==0,"a refused option produces no mapping"); sym_cover("refused"); } sym_cover("end"); }
// without a usable file no command has an effect, and none brings the session down
static const char* ALL[]={"balance","refactor","lut_opt","cleanup","history -a","history -r 0","history -s","map_fpga","map_fpga -t 1","print_stats","print_stats -t 1","print_stats -t 2","print_stats -t 9","rewrite","nonsense","balance --what","refactor -I x","help"}; enum { NALL=18, NOUT=4 };
static std::string out_cmd(unsigned i,const std::string& p){ static const char* C[]={"write_aiger","write_fpga","write_primary","write_dot"}; return std::string(C[i])+" -f "+p; }
static void nofile(){ session s; unsigned how=(unsigned)sym_choice("how",3); if(how==1){ s.raw("read_aiger -f missing"); } if(how==2){ std::string p=unique_path("aig"); { std::ofstream os(p); os<<"aig 3 2 0 1 1\nx"; } s.raw("read_aiger -f "+p); unlink(p.c_str()); } std::ostringstream o,e; s.c->env->reroute(o,e); for(unsigned i=0;i<2;++i){ unsigned c=(unsigned)sym_choice("cmd",NALL+NOUT); std::string p=unique_path("out"); if((c==13)&&(i||how)) sym_drop(); s.raw(c<NALL?std::string(ALL[c]):out_cmd(c-NALL,p)); unlink(p.c_str()); if(how==0){ sym_check(s.aigs().empty()&&s.luts().empty(),"no network appears without a file"); } } sketch k=gen(3,2,4,9); inputs x(k.npi); s.used=0; s.read(k,x); s.run("balance"); s.map("map_fpga"); sym_cover("end"); }
// whole flows: what is written at the end computes what was read, port by port
static void flow(){ sketch k=small_net(); if(sym_choice("big",2)){ k=gen((unsigned)sym_choice("style",NSTYLE),1+sym_choice("seed",sym_thorough()?12:2),6,36); } bool names=sym_choice("names",2); inputs x(k.npi); std::vector<std::string> in,out; names_of(k,in,out); session s; s.read(k,x,names); static const char* F[][3]={{"","",""},{"balance","refactor","lut_opt"},{"refactor -z","balance",""},{"lut_opt -C 4","refactor",""}}; unsigned f=(unsigned)sym_choice("script",4); for(unsigned i=0;i<3;++i) if(*F[f][i]) s.run(F[f][i]); if(f&1) s.add(); unsigned w=(unsigned)sym_choice("writer",3); std::string p=unique_path("out"); if(w==1) s.map(f==1?"map_fpga -C 4":"map_fpga"); s.raw(out_cmd(w,p)); std::string t=slurp(p); 
  if(w==0){ aig_network b; lorina::return_code rc; { std::istringstream is(t); aiger_reader<aig_network> rd(b); rc=lorina::read_aiger(is,rd); } sym_check(rc==lorina::return_code::success,"a written AIGER file is accepted by the reader"); check_equal(eval(b,x),s.want,"the written AIGER file computes the functions of the file read"); session s2; s2.k=&k; s2.x=&x; s2.want=s.want; s2.raw("read_aiger -f "+p); s2.open=true; s2.check("reading the written file"); }
  else check_netlist(t,x,s.want,names&&w==1?&in:nullptr,names&&w==1?&out:nullptr,w==1?"LUT netlist":"Verilog"); unlink(p.c_str()); s.check("writing"); sym_cover(w==0?"aiger":w==1?"lut":"verilog"); sym_cover("end"); }
// the same through the shell: commands on the command line and in a script file
static void script(){ sketch k=small_net(); inputs x(k.npi); bool file=sym_choice("file",2); unsigned f=(unsigned)sym_choice("script",3); std::string p=unique_path("aig"),q=unique_path("v"),sc=unique_path("cmd"); { std::ofstream os(p,std::ios::binary); os<<aiger_of(k,true); } std::vector<std::string> l; l.push_back("read_aiger -f "+p); if(f==1){ l.push_back("balance"); l.push_back("history -a"); l.push_back("refactor"); l.push_back("map_fpga -t 1"); } else { if(f==2) l.push_back("lut_opt"); l.push_back("map_fpga"); } l.push_back("write_fpga -f "+q); std::string all; for(auto&s:l) all+=(all.empty()?"":file?"\n":"; ")+s; sym_note(all.c_str()); cli_t* c=reinterpret_cast<cli_t*>(imap_create()); std::vector<std::string> a{"imap"}; if(file){ std::ofstream os(sc); os<<"# comment\n\n"<<all<<"\n"; a.push_back("-f"); a.push_back(sc); } else { a.push_back("-c"); a.push_back(all); } std::vector<char*> v; for(auto&s:a) v.push_back(&s[0]); v.push_back(nullptr); int rc=c->run((int)a.size(),v.data()); sym_check(rc==0,"the script runs to its end"); imap_delete(c); std::string t=slurp(q); unlink(p.c_str()); unlink(q.c_str()); unlink(sc.c_str()); std::vector<std::string> in,out; names_of(k,in,out); check_netlist(t,x,k.eval(x.v),&in,&out,"LUT netlist"); sym_cover(file?"file":"line"); }
// rewriting inside sessions (the command builds its database every time)
static void rw(){ uint64_t seed=sym_choice("seed",sym_thorough()?90:27); sketch k=gen(seed%NSTYLE,1+seed/NSTYLE,4+seed%5,14+4*((seed*7)%9)); inputs x(k.npi); session s; s.read(k,x); s.add(); s.keepdepth(seed%5==4?"rewrite -l -v":seed%2?"rewrite -l":"rewrite -l -z -C 4"); s.add(); s.map("map_fpga -t 1"); s.run("balance"); s.map("map_fpga"); sym_cover("end"); }
// the help promises that the levels are kept unless asked otherwise
static void levels(){ unsigned seed=sym_choice("seed",sym_thorough()?40:6); bool rw=sym_choice("rewrite",2); if(rw&&seed) sym_drop(); sketch k=rw?gen(7,7,6,30):gen(seed%NSTYLE,7+seed,6,36); inputs x(k.npi); session s; s.read(k,x); s.keepdepth(rw?"rewrite":seed%2?"refactor":"refactor -z"); sym_cover(rw?"rewrite":"refactor"); }
extern "C" void sym_main(const char* h){ std::string s(h); if(s=="seq") seq(); else if(s=="longseq") longseq(); else if(s=="hist") hist(); else if(s=="options") options(); else if(s=="nofile") nofile(); else if(s=="flow") flow(); else if(s=="script") script(); else if(s=="rw") rw(); else if(s=="levels") levels(); else __builtin_trap(); }
