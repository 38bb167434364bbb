// K01/K02/T01: LUT networks and the truth-table cache
#include "klut_common.hpp"
#include <utils/truth_table_cache.hpp>
using namespace hx; typedef klut_network::signal ks;
static ks any(const klut_network& k,const char* n="s"){ return sym_choice(n,k.size()); }
static kitty::dynamic_truth_table table(unsigned nv,uint64_t bits){ kitty::dynamic_truth_table t(nv); t._bits[0]=bits; return t; }
static void ops(){
  klut_network k; inputs x(3); for(int i=0;i<3;++i){ ks p=k.create_pi(); sym_check(p==k.pi_at(i),"create_pi appends an input"); }
  if(sym_choice("pre",2)){ ks a=2+sym_choice("a",3), b=sym_thorough()?sym_choice("b",5):3; static const uint64_t P[]={0x6,0x8,0xd,0x2}; k.create_node({a,b},table(2,P[sym_choice("tt",sym_thorough()?4:2)])); }
  unsigned op=(unsigned)sym_choice("op",15); unsigned ar=op<2?1:op<7?2:op<10?3:op==10?1+(unsigned)sym_choice("k",2):(unsigned)sym_choice("k",op==14?1:4); std::vector<ks> s; std::vector<uint8_t> v; { kevaluator e(k,x.v); for(unsigned i=0;i<ar;++i){ s.push_back(any(k)); v.push_back(e.node(s[i])); } }
  ks r=0; uint8_t w=0; uint32_t before=k.size();
  switch(op){ case 0: r=k.create_buf(s[0]); w=v[0]; break; case 1: r=k.create_not(s[0]); w=v[0]^1; break;
    case 2: r=k.create_and(s[0],s[1]); w=v[0]&v[1]; break; case 3: r=k.create_or(s[0],s[1]); w=v[0]|v[1]; break; case 4: r=k.create_lt(s[0],s[1]); w=(v[0]^1)&v[1]; break; case 5: r=k.create_le(s[0],s[1]); w=(v[0]^1)|v[1]; break; case 6: r=k.create_xor(s[0],s[1]); w=v[0]^v[1]; break;
    case 7: r=k.create_maj(s[0],s[1],s[2]); w=(v[0]&v[1])|(v[0]&v[2])|(v[1]&v[2]); break; case 8: r=k.create_ite(s[0],s[1],s[2]); w=(v[0]&v[1])|((v[0]^1)&v[2]); break; case 9: r=k.create_xor3(s[0],s[1],s[2]); w=v[0]^v[1]^v[2]; break;
    case 10: { uint64_t t=sym_choice("fn",ar==1?4:16); r=k.create_node(s,table(ar,t)); unsigned i=0; for(unsigned j=0;j<ar;++j) i|=v[j]<<j; for(unsigned m=0;m<(1u<<ar);++m) w|=(uint8_t)((i==m)&(t>>m&1)); sym_check(k.node_function(r)==table(ar,t),"node_function returns the table a node was created with"); break; }
    case 11: r=k.create_nary_and(s); w=1; for(auto q:v) w&=q; break; case 12: r=k.create_nary_or(s); for(auto q:v) w|=q; break; case 13: r=k.create_nary_xor(s); for(auto q:v) w^=q; break;
    default: { uint64_t c=sym_choice("c",2); kitty::dynamic_truth_table t(0); t._bits[0]=c; r=k.create_node({},t); w=(uint8_t)c; } }
  static const char* nm[]={"buf","not","and","or","lt","le","xor","maj","ite","xor3","node","nary_and","nary_or","nary_xor","constant node"}; char lab[80]; snprintf(lab,80,"create_%s computes its function",nm[op]);
  kevaluator e(k,x.v); sym_check(e.node(r)==w,lab); for(unsigned i=0;i<ar;++i) sym_check(e.node(s[i])==v[i],"operands keep their function"); check_klut_invariants(k,3,true,"after create");
  // the simulation interface agrees with the node function
  if(k.size()>before&&!k.is_constant(r)&&!k.is_ci(r)&&op<=10){ std::vector<bool> b; for(auto q:v) b.push_back(sym_concretize(q)!=0); bool g=k.compute(r,b.begin(),b.end()); sym_check((uint8_t)g==w,"compute(bool) evaluates the LUT");
    std::vector<kitty::dynamic_truth_table> ts; for(unsigned j=0;j<ar;++j) ts.push_back(table(1,(v[j]?3:0))); auto t=k.compute(r,ts.begin(),ts.end()); sym_check((t._bits[0]&1)==w&&(t._bits[0]>>1&1)==w,"compute(truth table) evaluates the LUT"); }
  sym_cover(nm[op]); sym_observe("size",k.size()); sym_observe("r",r);
}
// a 4- or 5-input LUT with a symbolic choice of fanin values, clone into another network, shared storage
static void misc(){
  klut_network k; unsigned n=3+(unsigned)sym_choice("n",3); inputs x(n); std::vector<ks> p; for(unsigned i=0;i<n;++i) p.push_back(k.create_pi()); uint64_t msk=n<6?(1ull<<(1u<<n))-1:~0ull; static const uint64_t T[]={0x6996966996696996ull,0xcafe8001d00df00dull,0x8000000000000001ull,0x00000000fffffffeull,0}; uint64_t t=T[sym_choice("t",4)]&msk; if(t==0||t==msk) sym_drop();
  ks r=k.create_node(p,table(n,t)); ks inv=k.create_not(r); k.create_po(r); k.create_po(inv); uint8_t w=0; uint32_t idx=0; for(unsigned i=0;i<n;++i) idx|=x.v[i]<<i; for(unsigned m=0;m<(1u<<n);++m) w|=(uint8_t)((idx==m)&(t>>m&1));
  auto o=keval(k,x); sym_check(o[0]==w&&o[1]==(w^1),"a LUT computes the table it was created with");
  klut_network q; std::vector<ks> c; for(unsigned i=0;i<n;++i) c.push_back(q.create_pi()); ks d=q.clone_node(k,r,c); q.create_po(d); ks d2=q.clone_node(k,inv,{d}); q.create_po(d2); check_equal(keval(q,x),o,"clone_node copies the function"); check_klut_invariants(q,6,true,"clone");
  // a network handle on the same storage is the same network
  uint32_t sz=k.size(),g=k.num_gates(); klut_network same(k._storage); sym_check(same.size()==sz&&same.num_gates()==g,"a second handle on the storage shows the same network"); check_klut_invariants(same,6,true,"shared"); check_equal(keval(same,x),o,"shared storage");
  auto st=k.get_detailed_lut_statics(6); for(unsigned i=0;i<6;++i) sym_check(st[i]==((i+1==n)+(i==0)),"LUT statistics count the LUTs of each size");
  // application data must not change what a node is
  k.clear_values(); k.clear_visited(); for(unsigned i=0;i<n;++i) sym_check(k.is_pi(p[i])&&k.is_ci(p[i]),"inputs stay inputs when values are cleared"); k.set_value(r,(uint32_t)sym_bits("val",2)); sym_check(!k.is_ci(r)&&!k.is_pi(r),"a gate stays a gate whatever its value"); k.set_value(p[0],5); sym_check(k.is_ci(p[0]),"an input stays an input whatever its value"); sym_check(k.value(p[0])==5,"value is stored"); k.set_visited(r,7); sym_check(k.visited(r)==7,"visited is stored"); check_equal(keval(k,x),o,"application data does not change the function"); check_klut_invariants(k,6,true,"flags"); sym_cover("end"); sym_observe("sz",sz);
}
static void iface(){
  klut_network a; unsigned np=(unsigned)sym_choice("pis",3),nr=(unsigned)sym_choice("regs",3),no=(unsigned)sym_choice("pos",3); std::vector<ks> pi,ro,po,ri; std::vector<int> rs;
  for(unsigned i=0;i<np;++i) pi.push_back(a.create_pi()); for(unsigned i=0;i<nr;++i) ro.push_back(a.create_ro()); std::vector<ks> s=pi; s.insert(s.end(),ro.begin(),ro.end()); if(s.size()>=2) a.create_xor(s[0],s[1]);
  for(unsigned i=0;i<no;++i){ po.push_back(any(a,"po")); sym_check(a.create_po(po[i])==i,"create_po index"); } for(unsigned i=0;i<nr;++i){ ri.push_back(any(a,"ri")); rs.push_back((int)sym_bits("rst",2)); sym_check(a.create_ri(ri[i],(int8_t)rs[i])==no+i,"create_ri index"); }
  sym_check(a.num_pis()==np&&a.num_pos()==no&&a.num_registers()==nr&&a.num_latches()==nr&&a.num_cis()==np+nr&&a.num_cos()==no+nr,"counts"); sym_check(a.is_combinational()==(nr==0),"is_combinational");
  for(unsigned i=0;i<np;++i) sym_check(a.pi_at(i)==pi[i]&&a.ci_at(i)==pi[i]&&a.is_pi(pi[i])&&a.is_ci(pi[i])&&!a.is_ro(pi[i])&&a.pi_index(pi[i])==i&&a.ci_index(pi[i])==i,"pi position");
  for(unsigned i=0;i<no;++i){ sym_check(a.po_at(i)==po[i]&&a.co_at(i)==po[i],"po position"); uint32_t j=a.po_index(po[i]); sym_check(j<=i&&a.po_at(j)==po[i],"po_index"); }
  for(unsigned i=0;i<nr;++i){ sym_check(a.ro_at(i)==ro[i]&&a.is_ro(ro[i])&&!a.is_pi(ro[i])&&a.is_ci(ro[i])&&a.ci_at(np+i)==ro[i]&&a.ro_index(ro[i])==i&&a.ci_index(ro[i])==np+i,"register output position"); sym_check(a.ri_at(i)==ri[i]&&a.co_at(no+i)==ri[i]&&a.latch_reset(i)==rs[i],"register input position"); sym_check(a.ro_to_ri(ro[i])==ri[i],"ro_to_ri pairs a register"); }
  unsigned c=0; a.foreach_register([&](std::pair<ks,uint64_t> p,auto i){ sym_check(p.first==ri[i]&&p.second==ro[i],"foreach_register pairs inputs and outputs"); ++c; }); sym_check(c==nr,"foreach_register visits every register"); check_klut_invariants(a,2,true,"interface"); sym_cover("end"); sym_observe("size",a.size());
}
static void subst(){
  klut_network k; unsigned n=2+(unsigned)sym_choice("n",2); inputs x(n); for(unsigned i=0;i<n;++i) k.create_pi(); unsigned g=sym_thorough()?2+(unsigned)sym_choice("g",2):2; std::vector<ks> gs; note_t t; static const uint64_t F[]={0x8,0x6,0xd,0x2}; 
  for(unsigned i=0;i<g;++i){ std::vector<std::pair<ks,ks>> ps; for(ks u=0;u<k.size();++u) for(ks w=0;w<k.size();++w) if(u+w>2&&(w>=2||u>=2)&&(u<=w||sym_thorough())) ps.push_back({u,w}); auto pp=pick("fanins",ps); ks a=pp.first,b=pp.second; gs.push_back(k.create_node({a,b},table(2,F[i&3]))); t.add("%u=(%u,%u) ",(unsigned)gs[i],(unsigned)a,(unsigned)b); }
  ks o1=gs.back(),o2=any(k,"o"); k.create_po(o1); k.create_po(o2); ks old=2+sym_choice("old",k.size()-2);
  std::vector<uint8_t> dep(k.size(),0); dep[old]=1; k.foreach_gate([&](auto m){ k.foreach_fanin(m,[&](auto f){ if(dep[f]) dep[m]=1; }); }); std::vector<ks> ok; for(ks i=0;i<k.size();++i) if(!dep[i]) ok.push_back(i); ks nw=pick("new",ok); t.add("po %u subst %u->%u",(unsigned)o2,(unsigned)old,(unsigned)nw); sym_note(t.b);
  // reference
  std::vector<uint8_t> v(k.size(),0); { kevaluator e(k,x.v); for(ks i=0;i<k.size();++i) v[i]=e.node(i); } std::vector<uint8_t> v2=v; v2[old]=v[nw]; k.foreach_gate([&](auto m){ if(m==old||!dep[m]) return; unsigned idx=0,j=0; k.foreach_fanin(m,[&](auto f){ idx|=v2[f]<<j++; }); auto tt=k.node_function(m); uint8_t r=0; for(unsigned q=0;q<4;++q) r|=(uint8_t)((idx==q)&(tt._bits[0]>>q&1)); v2[m]=r; });
  std::vector<uint8_t> want{v2[o1],v2[o2]}; k.substitute_node(old,nw); check_equal(keval(k,x),want,"outputs compute the substituted function"); bool ref=false; k.foreach_gate([&](auto m){ if(m!=old) k.foreach_fanin(m,[&](auto f){ ref|=(f==old); }); }); k.foreach_co([&](auto o){ ref|=(o==old); }); sym_check(!ref&&k.fanout_size(old)==0,"nothing references a substituted node"); std::vector<uint32_t> fo(k.size(),0); k.foreach_gate([&](auto m){ k.foreach_fanin(m,[&](auto f){ fo[f]++; }); }); k.foreach_co([&](auto o){ fo[o]++; }); for(ks i=0;i<k.size();++i) sym_check(k.fanout_size(i)==fo[i],"fanout_size equals the number of references"); sym_check(k.num_pis()==n&&k.num_pos()==2,"interface preserved"); sym_cover("end"); sym_observe("f",k.fanout_size(nw));
}
// truth-table cache: any sequence of insertions, symbolic table contents
static void cache(){
  iFPGA_NAMESPACE::truth_table_cache<kitty::dynamic_truth_table> c(1); unsigned m=sym_thorough()?4:3; std::vector<kitty::dynamic_truth_table> t; std::vector<uint32_t> l; 
  for(unsigned i=0;i<m;++i){ unsigned nv=i==2&&!sym_thorough()?2:(unsigned)sym_choice("nv",4); kitty::dynamic_truth_table u(nv); uint64_t msk=(1ull<<(1u<<nv))-1; static const uint64_t B[]={0x00,0x5a,0xa5,0xff}; u._bits[0]=nv<=2?sym_bits("tt",nv<=1?2:4)&msk:sym_thorough()?sym_bits("tt",8):(B[sym_choice("base",2)]^sym_bits("tt",2)^(sym_bits("tt7",1)<<7)); size_t before=c.size(); uint32_t lit=c.insert(u); t.push_back(u); l.push_back(lit); sym_check(c.size()==before||c.size()==before+1,"insert adds at most one table"); sym_check((lit>>1)<c.size(),"literal in range"); sym_check((lit&1)==(u._bits[0]&1),"literal is complemented iff the table is not normal");
    for(unsigned j=0;j<=i;++j){ auto r=c[l[j]]; sym_check(r.num_vars()==t[j].num_vars()&&r._bits.size()==t[j]._bits.size(),"cache keeps the number of variables"); sym_check(r._bits[0]==t[j]._bits[0],"cache[insert(t)] == t"); auto q=c[l[j]^1]; sym_check(q._bits[0]==((~t[j]._bits[0])&((1ull<<(1u<<t[j].num_vars()))-1)),"the complemented literal gives the complement"); 
      if(j<i){ bool same=(t[j].num_vars()==t[i].num_vars())&(t[j]._bits[0]==t[i]._bits[0]); sym_check((bool)((unsigned)(l[j]==l[i])^(unsigned)!same),"equal literals exactly for equal tables"); } } }
  sym_cover("end"); sym_observe("n",c.size()); for(auto q:l) sym_observe("l",q);
}
// 7-variable tables (two words): insertion order and complements
static void cache7(){ iFPGA_NAMESPACE::truth_table_cache<kitty::dynamic_truth_table> c(1); kitty::dynamic_truth_table a(7),b(7); a._bits[0]=sym_bits("a0",3); a._bits[1]=sym_bits("a1",2)<<62; b._bits[0]=~0ull<<3|sym_bits("b0",3); b._bits[1]=~0ull>>2|sym_bits("b1",2)<<62; uint32_t la=c.insert(a),lb=c.insert(b),la2=c.insert(a); sym_check(la==la2,"inserting again gives the same literal"); auto ra=c[la],rb=c[lb]; sym_check((ra._bits[0]==a._bits[0])&(ra._bits[1]==a._bits[1]),"cache[insert(t)] == t (7 variables)"); sym_check((rb._bits[0]==b._bits[0])&(rb._bits[1]==b._bits[1]),"cache[insert(t)] == t (7 variables)"); bool same=(a._bits[0]==b._bits[0])&(a._bits[1]==b._bits[1]), comp=(a._bits[0]==~b._bits[0])&(a._bits[1]==~b._bits[1]); sym_check(!same,"distinct"); sym_check((bool)((unsigned)((la>>1)==(lb>>1))^(unsigned)!comp),"a table and its complement share an entry, others do not"); sym_cover("end"); sym_observe("la",la); sym_observe("lb",lb); }
extern "C" void sym_main(const char* h){ std::string s(h); if(s=="ops") ops(); else if(s=="misc") misc(); else if(s=="iface") iface(); else if(s=="subst") subst(); else if(s=="cache") cache(); else if(s=="cache7") cache7(); else __builtin_trap(); }
