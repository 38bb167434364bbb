// the independent reader of the netlists (Verilog and LUT) that the writers produce
#pragma once
#include <unistd.h>
#include <map>
#include "common.hpp"
using namespace hx;
struct netlist { std::vector<std::string> in,out,ports,pin,pout; std::map<std::string,std::string> decl; struct asg { std::string lhs; std::vector<std::pair<bool,std::string>> ops; std::string op; }; std::map<std::string,asg> drv; struct lut { std::vector<std::string> p; std::string init; unsigned k=0; }; std::map<std::string,lut> luts; std::map<std::string,std::string> lutof; bool ok=true; std::string why; std::string module;
  void bad(const std::string& w){ if(ok) why=w; ok=false; }
  static std::vector<std::string> toks(const std::string& s){ std::vector<std::string> t; size_t i=0; while(i<s.size()){ char c=s[i]; if(c==' '||c=='\n'||c=='\t'){ ++i; continue; } if(c=='\\'){ size_t j=i+1; while(j<s.size()&&s[j]!=' '&&s[j]!='\n'&&s[j]!='\t') ++j; t.push_back(s.substr(i+1,j-i-1)); i=j; continue; } auto id=[](char d){ return (d>='a'&&d<='z')||(d>='A'&&d<='Z')||(d>='0'&&d<='9')||d=='_'||d=='$'||d=='\''; }; if(id(c)){ size_t j=i; while(j<s.size()&&id(s[j])) ++j; t.push_back(s.substr(i,j-i)); i=j; continue; } t.push_back(std::string(1,c)); ++i; } return t; }
  explicit netlist(const std::string& s){ auto t=toks(s); size_t i=0; auto more=[&]{ return i<t.size(); }; auto eat=[&](const char* w){ if(!more()||t[i]!=w){ bad(std::string("expected ")+w+(more()?" before "+t[i]:"")); return; } ++i; }; eat("module"); if(more()) module=t[i++]; eat("("); bool first=true; while(ok&&more()&&t[i]!=")"){ if(!first) eat(","); first=false; if(!ok||!more()) break; if(t[i]==","||t[i]==")"){ bad("empty port"); break; } ports.push_back(t[i++]); } eat(")"); eat(";");
    while(ok&&more()&&t[i]!="endmodule"){ std::string w=t[i]; auto ref=[&]{ std::string n=more()?t[i++]:""; if(more()&&t[i]=="["){ ++i; n+="["; if(more()) n+=t[i++]; n+="]"; eat("]"); } return n; }; if(w=="input"||w=="output"||w=="wire"){ ++i; int width=0; if(more()&&t[i]=="["){ ++i; width=more()?atoi(t[i++].c_str())+1:0; eat(":"); eat("0"); eat("]"); if(width<1||width>4096){ bad("bad range"); break; } } bool f=true; while(ok&&more()&&t[i]!=";"){ if(!f) eat(","); f=false; if(!ok||!more()) break; std::string n=t[i++]; if(n==","||n==";"||n=="("){ bad("bad declaration"); break; } if(w=="input") pin.push_back(n); if(w=="output") pout.push_back(n); if(width&&!decl.emplace(n,"vector").second) bad("declared twice: "+n); for(int q=0;q<std::max(width,1);++q){ std::string m=n; if(width){ char z[16]; snprintf(z,16,"[%d]",q); m+=z; } if(!decl.emplace(m,w).second) bad("declared twice: "+m); if(w=="input") in.push_back(m); if(w=="output") out.push_back(m); } } eat(";"); }
      else if(w=="assign"){ ++i; asg a; a.lhs=ref(); eat("="); bool f=true; while(ok&&more()&&t[i]!=";"){ if(!f){ if(t[i]!="&"&&t[i]!="|"&&t[i]!="^"){ bad("bad operator "+t[i]); break; } a.op=t[i++]; if(!more()) break; } f=false; bool n=false; while(more()&&t[i]=="~"){ n=!n; ++i; } if(!more()) break; a.ops.push_back({n,ref()}); } eat(";"); if(a.ops.empty()) bad("empty assignment"); if(drv.count(a.lhs)||lutof.count(a.lhs)) bad("driven twice: "+a.lhs); drv[a.lhs]=a; }
      else if(w=="defparam"){ ++i; std::string n=more()?t[i++]:""; eat("."); eat("INIT"); eat("="); if(more()){ if(!luts.count(n)) bad("parameter of an unknown cell"); luts[n].init=t[i++]; } eat(";"); }
      else if(w.rfind("LUT",0)==0){ ++i; lut l; l.k=(unsigned)atoi(w.c_str()+3); std::string n=more()?t[i++]:""; if(!decl.emplace(n,"cell").second) bad("declared twice: "+n); eat("("); bool f=true; while(ok&&more()&&t[i]!=")"){ if(!f) eat(","); f=false; if(!more()) break; l.p.push_back(t[i++]); } eat(")"); eat(";"); if(l.p.size()!=l.k+1) bad("wrong number of pins"); else { if(lutof.count(l.p.back())||drv.count(l.p.back())) bad("driven twice: "+l.p.back()); lutof[l.p.back()]=n; } luts[n]=l; }
      else bad("unexpected "+w); }
    eat("endmodule"); if(ok&&i!=t.size()) bad("text after endmodule"); std::vector<std::string> io=pin; io.insert(io.end(),pout.begin(),pout.end()); if(ok&&io!=ports) bad("port list and declarations differ"); }
  std::map<std::string,uint8_t> val; std::map<std::string,int> st;
  uint8_t value(const std::string& n){ if(n=="1'b0") return 0; if(n=="1'b1") return 1; auto d=decl.find(n); if(d==decl.end()||d->second=="cell"||d->second=="vector"){ bad("not declared: "+n); return 0; } if(st[n]==2) return val[n]; if(st[n]==1){ bad("combinational loop at "+n); return 0; } st[n]=1; uint8_t r=0; if(d->second=="input") bad("input without a value: "+n); else if(drv.count(n)){ auto& a=drv[n]; for(size_t i=0;i<a.ops.size();++i){ uint8_t v=value(a.ops[i].second)^(uint8_t)a.ops[i].first; r=i==0?v:a.op=="&"?(r&v):a.op=="|"?(r|v):(r^v); } } else if(lutof.count(n)){ auto& l=luts[lutof[n]]; std::string b=l.init; unsigned w=1u<<l.k; char pre[16]; snprintf(pre,16,"%u'h",w); if(b.rfind(pre,0)!=0){ bad("INIT "+b+" has a wrong width"); } else { b=b.substr(strlen(pre)); std::vector<uint8_t> bits; for(size_t q=b.size();q-->0;){ char c=b[q]; int h=c>='0'&&c<='9'?c-'0':c>='a'&&c<='f'?c-'a'+10:c>='A'&&c<='F'?c-'A'+10:-1; if(h<0){ bad("INIT is not hexadecimal"); h=0; } for(int z=0;z<4;++z) bits.push_back((h>>z)&1); } bits.resize(std::max<size_t>(bits.size(),w),0); uint32_t idx=0; for(unsigned q=0;q<l.k;++q) idx|=(uint32_t)value(l.p[q])<<q; for(unsigned m=0;m<w;++m) r|=(uint8_t)((idx==m)&bits[m]); } } else bad("not driven: "+n); st[n]=2; val[n]=r; return r; }
  std::vector<uint8_t> eval(const std::vector<uint8_t>& x){ for(size_t i=0;i<in.size();++i){ val[in[i]]=i<x.size()?x[i]:0; st[in[i]]=2; } std::vector<uint8_t> r; for(auto&o:out) r.push_back(value(o)); return r; } };
static void check_netlist(const std::string& s,const inputs& x,const std::vector<uint8_t>& want,const std::vector<std::string>* pin,const std::vector<std::string>* pout,const char* what){ netlist n(s); auto got=n.eval(x.v); note_t w; w.add("%s: the text is a well-formed netlist",what); if(!n.ok){ note_t m; m.add("%s: %s",what,n.why.c_str()); sym_note(m.b); } sym_check(n.ok,w.b); if(!n.ok) return; note_t c; c.add("%s: one port per input and output",what); sym_check(n.in.size()==x.v.size()&&n.out.size()==want.size(),c.b); note_t e; e.add("%s: the netlist computes the outputs of the network",what); check_equal(got,want,e.b); if(pin){ note_t p; p.add("%s: ports carry the names given, in order",what); bool ok=true; for(size_t i=0;i<pin->size()&&i<n.in.size();++i) if(!(*pin)[i].empty()) ok&=n.in[i]==(*pin)[i]; for(size_t i=0;i<pout->size()&&i<n.out.size();++i) if(!(*pout)[i].empty()) ok&=n.out[i]==(*pout)[i]; sym_check(ok,p.b); } }
static std::string unique_path(const char* ext){ char b[64]; snprintf(b,sizeof b,"t%d.%s",(int)getpid(),ext); return b; }
