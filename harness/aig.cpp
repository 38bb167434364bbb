// A01/A02/A03/A04: the AIG data structure
#include "common.hpp"
using namespace hx; using iFPGA_NAMESPACE::aig_network;
typedef aig_network::node node;

// shrink the structural-hash table so that collision chains and rehashing are exercised (public storage API)
static void any_hash_size(aig_network& a){ switch(sym_choice("hash",3)){ case 1: a._storage->hash_reserve(1); break; case 2: a._storage->hash_reserve(3); break; default: break; } }
// any signal: index forked over the nodes present, complement symbolic
static sig any_signal(const aig_network& a,const char* nm="s"){ uint64_t i=sym_choice(nm,a.size()); return sig(i,sym_bits("cpl",1)); }

// reference value of an operator applied to operand values
static void ops(){
  aig_network a; inputs x(3); sig p[3]; for(auto&s:p) s=a.create_pi();
  if(sym_choice("hash",2)) a._storage->hash_reserve(1);
  unsigned npre=sym_choice("npre",sym_thorough()?3:2); for(unsigned i=0;i<npre;++i){ std::vector<std::pair<node,node>> ps; for(node u=1;u<a.size();++u) for(node v=u+1;v<a.size();++v) if(u!=3||i) ps.push_back({u,v}); auto p=pick("pre",ps); a.create_and(sig(p.first,sym_bits("cpl",1)),sig(p.second,sym_bits("cpl",1))); }
  check_aig_invariants(a,true,true,"before");
  unsigned op=(unsigned)sym_choice("op",17); unsigned nop = op<2?1: op<11?2: op<14?3: (unsigned)sym_choice("arity",sym_thorough()?5:4);
  std::vector<sig> s; note_t t; t.add("op=%u npre=%u args=",op,npre); for(unsigned i=0;i<nop;++i){ s.push_back(any_signal(a,"arg")); t.add("%u,",(unsigned)s[i].index); } sym_note(t.b);
  std::vector<uint8_t> v; { evaluator e(a,x.v); for(auto q:s) v.push_back(e.signal(q)); }
  sig r; uint8_t w=0;
  switch(op){
    case 0: r=a.create_buf(s[0]); w=v[0]; break;
    case 1: r=a.create_not(s[0]); w=v[0]^1; break;
    case 2: r=a.create_and(s[0],s[1]); w=v[0]&v[1]; break;
    case 3: r=a.create_nand(s[0],s[1]); w=(v[0]&v[1])^1; break;
    case 4: r=a.create_or(s[0],s[1]); w=v[0]|v[1]; break;
    case 5: r=a.create_nor(s[0],s[1]); w=(v[0]|v[1])^1; break;
    case 6: r=a.create_lt(s[0],s[1]); w=(v[0]^1)&v[1]; break;
    case 7: r=a.create_le(s[0],s[1]); w=(v[0]^1)|v[1]; break;
    case 8: r=a.create_xor(s[0],s[1]); w=v[0]^v[1]; break;
    case 9: r=a.create_xnor(s[0],s[1]); w=v[0]^v[1]^1; break;
    case 10: r=a.clone_node(a,0,{s[0],s[1]}); w=v[0]&v[1]; break;
    case 11: r=a.create_ite(s[0],s[1],s[2]); w=(v[0]&v[1])|((v[0]^1)&v[2]); break;
    case 12: r=a.create_maj(s[0],s[1],s[2]); w=(v[0]&v[1])|(v[0]&v[2])|(v[1]&v[2]); break;
    case 13: r=a.create_xor3(s[0],s[1],s[2]); w=v[0]^v[1]^v[2]; break;
    case 14: r=a.create_nary_and(s); w=1; for(auto q:v) w&=q; break;
    case 15: r=a.create_nary_or(s); w=0; for(auto q:v) w|=q; break;
    default: r=a.create_nary_xor(s); w=0; for(auto q:v) w^=q; break; }
  evaluator e(a,x.v); uint8_t got=e.signal(r);
  static const char* nm[]={"buf","not","and","nand","or","nor","lt","le","xor","xnor","clone_node","ite","maj","xor3","nary_and","nary_or","nary_xor"};
  char lab[80]; snprintf(lab,80,"create_%s computes its function",nm[op]); sym_check(e.acyclic,"acyclic"); sym_check(got==w,lab);
  // operands keep their value; structure stays sound; building the same thing again adds nothing
  for(unsigned i=0;i<nop;++i) sym_check(e.signal(s[i])==v[i],"operands keep their function");
  check_aig_invariants(a,true,true,"after");
  uint32_t sz=a.size(); if(op==2||op==10){ sym_check(a.find_and(s[0],s[1]),"find_and sees an existing AND"); sig r2=a.create_and(s[1],s[0]); sym_check(r2.data==r.data&&a.size()==sz,"structural hashing: same operands, same node"); }
  { std::vector<uint8_t> z(3,0); evaluator e0(a,z); for(uint32_t n=0;n<a.size();++n) sym_check(e0.node(n)==(uint8_t)a.phase(n),"phase bit is the value at the all-zero input"); }
  sym_cover(nm[op]); sym_observe("size",a.size()); sym_observe("r",r.data);
}
// any history of create_and / create_pi / create_po: invariants, hashing, find_and, index round trips
static void hist(){
  aig_network a; any_hash_size(a); inputs x(3); unsigned len=sym_thorough()?4:3; a.create_pi(); a.create_pi(); unsigned npo=0,npi=2; note_t t;
  std::vector<sig> pos; std::vector<node> pis{1,2};
  struct ref { uint8_t v; }; std::vector<uint8_t> val{0,x.v[0],x.v[1]}; // reference value of node i
  for(unsigned i=0;i<len;++i){ unsigned op=(unsigned)sym_choice("op",i==0?1:3);
    if(op==0){ sig u=any_signal(a,"u"),v=any_signal(a,"v"); if(u.index>v.index) sym_drop(); t.add("and(%u,%u) ",(unsigned)u.index,(unsigned)v.index); sym_note(t.b);
      bool had=a.find_and(u,v); uint32_t g=a.num_gates(), sz=a.size(); sig r=a.create_and(u,v); uint8_t w=(val[u.index]^u.complement)&(val[v.index]^v.complement);
      sym_check(r.index<=sz,"create_and returns a node of the network"); sym_check((a.size()==sz)==had,"find_and predicts whether a node is added"); sym_check(a.num_gates()==g+(a.size()-sz),"num_gates follows creation");
      if(a.size()>sz){ sym_check(r.data==sig(sz,0).data,"the new node is returned uncomplemented"); val.push_back(w); sym_cover("new"); } else { sym_check((val[r.index]^(uint8_t)r.complement)==w,"an existing signal is returned only if it computes the AND"); if(r.index) sym_cover("hit"); } }
    else if(op==1){ if(npi>=3||npo) sym_drop(); uint32_t sz=a.size(); sig r=a.create_pi(); sym_check(r.data==sig(sz,0).data,"create_pi returns the new node"); pis.push_back(sz); val.push_back(x.v[npi++]); t.add("pi "); }
    else { sig u=any_signal(a,"po"); uint32_t k=a.create_po(u); sym_check(k==npo,"create_po returns the output index"); pos.push_back(u); ++npo; t.add("po(%u) ",(unsigned)u.index); if(npo>2) sym_drop(); }
  }
  sym_note(t.b); check_aig_invariants(a,true,true,"history");
  evaluator e(a,x.v); for(uint32_t n=0;n<a.size();++n) sym_check(e.node(n)==val[n],"every node keeps the function it was created with");
  sym_check(a.num_pis()==pis.size()&&a.num_cis()==pis.size()&&a.num_pos()==pos.size()&&a.num_cos()==pos.size()&&a.is_combinational()&&a.num_registers()==0,"interface counts");
  for(unsigned i=0;i<pis.size();++i) sym_check(a.pi_at(i)==pis[i]&&a.pi_index(pis[i])==i&&a.ci_at(i)==pis[i]&&a.ci_index(pis[i])==i&&a.is_ci(pis[i])&&a.is_pi(pis[i])&&!a.is_ro(pis[i])&&!a.is_and(pis[i])&&a.fanin_size(pis[i])==0,"inputs keep their position");
  for(unsigned i=0;i<pos.size();++i){ sym_check(a.po_at(i).data==pos[i].data&&a.co_at(i).data==pos[i].data,"outputs keep their position and driver"); uint32_t k=a.po_index(pos[i]); sym_check(k<=i&&a.po_at(k).data==pos[i].data,"po_index finds an output with that driver"); }
  unsigned c=0; a.foreach_po([&](auto const& s,auto i){ sym_check(i==c&&sig(s).data==pos[i].data,"foreach_po order"); ++c; }); sym_check(c==pos.size(),"foreach_po visits every output"); c=0; a.foreach_pi([&](auto const& n,auto i){ sym_check(i==c&&n==pis[i],"foreach_pi order"); ++c; }); sym_check(c==pis.size(),"foreach_pi visits every input");
  // foreach_fanin and compute agree with the stored function
  a.foreach_gate([&](auto const& n){ uint8_t v[2]; sig f[2]; unsigned k=0; a.foreach_fanin(n,[&](sig const& s,auto i){ if(k<2){ f[k]=s; v[k]=val[s.index]; } sym_check(i==k,"fanin index"); ++k; }); sym_check(k==2&&f[0].data==a.get_child0(n).data&&f[1].data==a.get_child1(n).data,"foreach_fanin visits both fanins"); std::vector<bool> b{v[0]!=0,v[1]!=0}; sym_check(a.compute(n,b.begin(),b.end())==(val[n]!=0),"compute(bool) evaluates the gate"); sym_check(a.fanin_size(n)==2&&a.is_and(n)&&!a.is_ci(n)&&!a.is_constant(n),"gate classification"); });
  sym_cover("end"); sym_observe("size",a.size()); sym_observe("gates",a.num_gates());
}
// gate evaluation over truth tables (dynamic / static), all contents symbolic
static void comp(){
  aig_network a; sig p=a.create_pi(),q=a.create_pi(); sig g=a.create_and(p^(sym_bits("pa",1)!=0),q^(sym_bits("pb",1)!=0)); uint8_t pa=(uint8_t)a.get_child0(g.index).complement,pb=(uint8_t)a.get_child1(g.index).complement;
  unsigned nv=(unsigned)sym_choice("nv",8); kitty::dynamic_truth_table t0(nv),t1(nv); uint64_t msk=nv<6?((1ull<<(1u<<nv))-1):~0ull;
  for(auto&b:t0._bits) b=sym_bits("t0",64)&msk; for(auto&b:t1._bits) b=sym_bits("t1",64)&msk; std::vector<kitty::dynamic_truth_table> v{t0,t1};
  auto r=a.compute(g.index,v.begin(),v.end()); bool ok=r.num_vars()==(int)nv; for(size_t i=0;i<t0._bits.size();++i){ uint64_t w=((pa?~t0._bits[i]:t0._bits[i])&(pb?~t1._bits[i]:t1._bits[i]))&msk; ok&=(r._bits[i]==w); } sym_check(ok,"compute(truth table) evaluates the gate");
  { std::vector<kitty::static_truth_table<3>> w(2); w[0]._bits=sym_bits("s0",8); w[1]._bits=sym_bits("s1",8); auto z=a.compute(g.index,w.begin(),w.end()); sym_check(z._bits==(((pa?~w[0]._bits:w[0]._bits)&(pb?~w[1]._bits:w[1]._bits))&0xff),"compute(static truth table) evaluates the gate"); }
  auto f=a.node_function(g.index); sym_check(f.num_vars()==2&&f._bits[0]==8,"node_function of a gate is AND"); sym_cover("end"); sym_observe("r0",r._bits[0]);
}
// ---- substitution --------------------------------------------------------------------------------------------------
static std::vector<node> gates(const aig_network& a){ std::vector<node> g; a.foreach_gate([&](auto const& n){ g.push_back(n); }); return g; }
static std::vector<uint8_t> tfo(const aig_network& a,node r){ std::vector<uint8_t> t(a.size(),0); t[r]=1; for(node n=0;n<a.size();++n) if(!a.is_ci(n)&&n&&!a.is_dead(n)) { if(t[a.get_child0(n).index]||t[a.get_child1(n).index]) t[n]=1; } return t; }
// reference: value of every output when node `old` is replaced by signal `nw`
static std::vector<uint8_t> ref_subst(const aig_network& a,const std::vector<uint8_t>& in,const std::vector<std::pair<node,sig>>& subs){
  // value of a signal under the substitutions applied simultaneously: a reference to `old` reads `nw`
  std::vector<int> st(a.size(),-1); std::function<uint8_t(sig)> ev; auto raw=[&](node n)->uint8_t{ if(n==0) return 0; if(a.is_ci(n)) return in[a.ci_index(n)]; if(st[n]>=0) return (uint8_t)1; return 0; }; (void)raw;
  std::vector<uint8_t> val(a.size(),0), done(a.size(),0);
  ev=[&](sig s)->uint8_t{ uint8_t c=(uint8_t)s.complement; node n=s.index; for(auto&k:subs) if(k.first==n) return ev(k.second)^c; if(n==0) return c; if(a.is_ci(n)) return in[a.ci_index(n)]^c; if(!done[n]){ val[n]=ev(a.get_child0(n))&ev(a.get_child1(n)); done[n]=1; } return val[n]^c; };
  std::vector<uint8_t> r; a.foreach_co([&](auto const& o){ r.push_back(ev(sig(o))); }); return r; }
static void after_subst(aig_network& a,const inputs& x,const std::vector<uint8_t>& want,unsigned npi,unsigned npo,bool pi_subst){
  sym_check(a.num_pis()==npi&&a.num_pos()==npo,"substitution preserves the interface");
  auto got=eval(a,x); check_equal(got,want,"outputs compute the substituted function");
  check_aig_invariants(a,!pi_subst,true,"after substitution");
  // the hash table still finds every live gate, and only live gates
  std::vector<node> gs; a.foreach_gate([&](auto const& n){ gs.push_back(n); }); for(node n:gs){ sig r=a.create_and(a.get_child0(n),a.get_child1(n)); sym_check(r.data==sig(n,0).data,"structural hashing finds every live gate"); }
}
static void subst(){
  unsigned cfg=(unsigned)sym_choice("cfg",sym_thorough()?5:3); unsigned npi=cfg==0||cfg==2?2:3, ng=cfg<2?2:cfg<4?3:4; bool full=sym_thorough(); sketch k=any_sketch(npi,ng,full||cfg<2,full||cfg<2,cfg==2&&!full); aig_network a=k.build(); inputs x(npi);
  if(!sym_thorough()||sym_choice("hash",2)) a._storage->hash_reserve(1);
  if(a.num_gates()==0) sym_drop();
  node old=pick("old",gates(a)); auto t=tfo(a,old); std::vector<node> ok; for(node i=0;i<a.size();++i) if(!t[i]) ok.push_back(i); sig nw(pick("new",ok),sym_bits("cpl",1));
  note_t nt; nt.add("npi=%u gates:",npi); a.foreach_gate([&](auto n){ nt.add(" %u=(%u,%u)",(unsigned)n,(unsigned)a.get_child0(n).index,(unsigned)a.get_child1(n).index); }); nt.add(" substitute %u by %u",(unsigned)old,(unsigned)nw.index); sym_note(nt.b);
  auto want=ref_subst(a,x.v,{{old,nw}}); unsigned np=a.num_pos(); a.substitute_node(old,nw); sym_check(a.is_dead(old),"the substituted node is removed");
  after_subst(a,x,want,npi,np,false); sym_cover("end"); sym_observe("gates",a.num_gates());
}
static void subst2(){ // two substitutions in a row, then new logic
  unsigned npi=2, ng=3; sketch k=any_sketch(npi,ng,sym_thorough()); aig_network a=k.build(); inputs x(npi); a._storage->hash_reserve(1);
  for(unsigned i=0;i<2;++i){ node old=pick("old",gates(a));
    // candidates: live nodes whose cone does not contain `old` (after a substitution the index order is not topological)
    std::vector<node> ok; for(node c=0;c<a.size();++c){ if(a.is_dead(c)) continue; std::vector<int> m(a.size(),0); std::function<bool(node)> reach=[&](node n)->bool{ if(n==old) return true; if(n==0||a.is_ci(n)) return false; if(m[n]) return m[n]==2; bool r=reach(a.get_child0(n).index)||reach(a.get_child1(n).index); m[n]=r?2:1; return r; }; if(!reach(c)) ok.push_back(c); }
    sig nw(pick("new",ok),sym_bits("cpl",1));
    auto want=ref_subst(a,x.v,{{old,nw}}); unsigned np=a.num_pos(); a.substitute_node(old,nw); after_subst(a,x,want,npi,np,false); }
  sym_cover("end"); sym_observe("gates",a.num_gates());
}
static void substs(){ // substitute_nodes with a list of two
  unsigned npi=2+(unsigned)sym_choice("npi",sym_thorough()?2:1), ng=3; sketch k=any_sketch(npi,ng,true,sym_thorough()); aig_network a=k.build(); inputs x(npi);
  std::list<std::pair<node,sig>> l; std::vector<std::pair<node,sig>> v; std::vector<uint8_t> bad(a.size(),0);
  if(gates(a).size()<2) sym_drop();
  { auto gs=gates(a); node o1=pick("old",gs); gs.erase(std::find(gs.begin(),gs.end(),o1)); node o2=pick("old",gs); auto t1=tfo(a,o1),t2=tfo(a,o2); std::vector<node> ok; for(node i=0;i<a.size();++i) if(!t1[i]&&!t2[i]) ok.push_back(i); // no replacement depends on a replaced node
    for(node o:{o1,o2}){ sig nw(pick("new",ok),sym_bits("cpl",1)); l.push_back({o,nw}); v.push_back({o,nw}); } }
  // merging a rewritten gate into a node that is itself about to be replaced is only right when the list preserves the
  // function, so equality of the outputs is required for function-preserving lists
  bool preserving=true; for(unsigned m=0;m<(1u<<npi);++m){ std::vector<uint8_t> in; for(unsigned i=0;i<npi;++i) in.push_back(m>>i&1); evaluator e(a,in); for(auto&s:v) preserving&=(e.node(s.first)==e.signal(s.second)); }
  unsigned np=a.num_pos(); note_t nt; nt.add("npi=%u gates:",npi); a.foreach_gate([&](auto n){ nt.add(" %u=(%u,%u)",(unsigned)n,(unsigned)a.get_child0(n).index,(unsigned)a.get_child1(n).index); }); for(auto&s:v) nt.add(" %u->%u",(unsigned)s.first,(unsigned)s.second.index); sym_note(nt.b);
  auto orig=eval(a,x); a.substitute_nodes(l); auto got=eval(a,x); sym_check(got.size()==orig.size()&&a.num_pis()==npi&&a.num_pos()==np,"substitution preserves the interface"); for(size_t i=0;i<got.size();++i) sym_check((bool)((unsigned)!preserving|(unsigned)(got[i]==orig[i])),"outputs unchanged by function-preserving substitutions"); check_aig_invariants(a,true,true,"after substitution"); if(preserving) sym_cover("preserving"); sym_cover("end"); sym_observe("gates",a.num_gates());
}
// larger networks: replacements cascade over several levels (constants, merged gates, trivial gates)
static bool reaches(const aig_network& a,node from,node to){ std::vector<int> m(a.size(),0); std::function<bool(node)> f=[&](node n)->bool{ if(n==to) return true; if(n==0||a.is_ci(n)||m[n]) return false; m[n]=1; return f(a.get_child0(n).index)||f(a.get_child1(n).index); }; return f(from); }
static std::vector<uint64_t> node_sim(const aig_network& a){ std::vector<uint64_t> r(a.size(),0); unsigned k=a.num_pis(); for(unsigned m=0;m<(1u<<k);++m){ std::vector<uint8_t> in; for(unsigned i=0;i<k;++i) in.push_back(m>>i&1); evaluator e(a,in); for(node n=0;n<a.size();++n) if(!a.is_dead(n)) r[n]|=(uint64_t)e.node(n)<<m; } return r; }
static void deep(){
  static const std::vector<std::pair<unsigned,unsigned>> D{{4,14},{5,24},{6,40}}; sketch k=any_gen(sym_thorough()?60:30,D); unsigned mode=(unsigned)sym_choice("mode",3); unsigned pickseed=(unsigned)sym_choice("picks",sym_thorough()?4:2); lfsr r(pickseed*7919+mode*31+k.g.size()*101+k.npi); aig_network a=k.build(); inputs x(k.npi); if(sym_choice("hash",2)) a._storage->hash_reserve(3);
  if(a.num_gates()<2) sym_drop(); unsigned np=a.num_pos();
  if(mode<2){ for(unsigned step=0;step<(mode?4u:2u);++step){ auto gs=gates(a); if(gs.empty()) break; node old=gs[r.below(mode?gs.size():std::min<unsigned>(gs.size(),6))]; std::vector<node> ok; for(node n=0;n<a.size();++n) if(!a.is_dead(n)&&!reaches(a,n,old)) ok.push_back(n); sig nw(r.below(3)==0?0:ok[r.below(ok.size())],r.below(2));
    note_t nt; nt.add("step %u: substitute %u by %s%u",step,(unsigned)old,nw.complement?"!":"",(unsigned)nw.index); sym_note(nt.b);
    auto want=ref_subst(a,x.v,{{old,nw}}); a.substitute_node(old,nw); sym_check(a.is_dead(old),"the substituted node is removed"); after_subst(a,x,want,k.npi,np,false); } sym_cover("end"); return; }
  // function-preserving lists: pairs of nodes with the same function
  auto want=k.eval(x.v); auto s=node_sim(a); uint64_t full=k.npi==6?~0ull:(1ull<<(1u<<k.npi))-1; std::vector<std::pair<node,sig>> all; for(node o:gates(a)) for(node n=0;n<o;++n) if(!a.is_dead(n)){ if(s[n]==s[o]) all.push_back({o,sig(n,0)}); else if(s[n]==(~s[o]&full)) all.push_back({o,sig(n,1)}); }
  if(all.empty()) sym_drop(); std::list<std::pair<node,sig>> l; std::vector<uint8_t> used(a.size(),0); for(unsigned t=0;t<6&&l.size()<4;++t){ auto q=all[r.below(all.size())]; if(used[q.first]) continue; bool dep=reaches(a,q.second.index,q.first); for(auto&z:l) dep|=reaches(a,q.second.index,z.first)||reaches(a,z.second.index,q.first); if(dep) continue; /* no replacement depends on a replaced node */ used[q.first]=1; l.push_back(q); }
  note_t nt; for(auto&q:l) nt.add(" %u->%s%u",(unsigned)q.first,q.second.complement?"!":"",(unsigned)q.second.index); sym_note(nt.b); if(l.empty()) sym_drop();
  a.substitute_nodes(l); after_subst(a,x,want,k.npi,np,false); sym_cover("list"); }
static void takeout(){ // removing an unreferenced node removes exactly the nodes only it used
  unsigned npi=2+(unsigned)sym_choice("npi",2), ng=sym_thorough()?4:3; sketch k=any_sketch(npi,ng,false); aig_network a; { sketch s=k; s.pos.clear(); unsigned keep=(unsigned)sym_choice("keep",npi+ng+1); if(keep<npi+ng) s.pos.push_back({keep,(uint8_t)sym_bits("kp",1)}); a=s.build(); }
  if(sym_choice("hash",2)) a._storage->hash_reserve(1);
  inputs x(npi); std::vector<node> zr; for(node i:gates(a)) if(!a.fanout_size(i)) zr.push_back(i); node n=pick("node",zr); auto want=eval(a,x); std::vector<uint32_t> fo; for(node i=0;i<a.size();++i) fo.push_back(a.fanout_size(i));
  std::vector<uint8_t> gone(a.size(),0); std::function<void(node)> rm=[&](node m){ gone[m]=1; for(sig c:{a.get_child0(m),a.get_child1(m)}) if(--fo[c.index]==0&&c.index&&!a.is_ci(c.index)) rm(c.index); }; rm(n);
  a.take_out_node(n); bool ok=true; for(node i=1;i<a.size();++i) ok&=((a.is_dead(i)?1:0)==gone[i]); sym_check(ok,"take_out_node removes exactly the maximal fanout-free cone");
  check_equal(eval(a,x),want,"outputs unchanged by take_out_node"); check_aig_invariants(a,true,true,"after take_out"); 
  std::vector<node> gs; a.foreach_gate([&](auto const& m){ gs.push_back(m); }); for(node m:gs){ sig r=a.create_and(a.get_child0(m),a.get_child1(m)); sym_check(r.data==sig(m,0).data,"structural hashing finds every live gate"); }
  sym_cover("end"); sym_observe("gates",a.num_gates());
}
// sequential interface: registers
static void seqif(){
  aig_network a; unsigned np=(unsigned)sym_choice("pis",3),nr=(unsigned)sym_choice("regs",3),no=(unsigned)sym_choice("pos",3); std::vector<sig> s; std::vector<node> pi,ro; std::vector<sig> po,ri; std::vector<int8_t> rs;
  for(unsigned i=0;i<np;++i){ s.push_back(a.create_pi()); pi.push_back(s.back().index); } for(unsigned i=0;i<nr;++i){ s.push_back(a.create_ro()); ro.push_back(s.back().index); }
  if(s.size()>=2) a.create_and(s[0]^(sym_bits("a",1)!=0),s[1]^(sym_bits("b",1)!=0));
  for(unsigned i=0;i<no;++i){ po.push_back(any_signal(a,"po")); sym_check(a.create_po(po.back())==i,"create_po index"); } for(unsigned i=0;i<nr;++i){ ri.push_back(any_signal(a,"ri")); rs.push_back((int8_t)sym_bits("reset",2)); sym_check(a.create_ri(ri.back(),rs.back())==no+i,"create_ri index"); }
  sym_check(a.num_pis()==np&&a.num_pos()==no&&a.num_registers()==nr&&a.num_latches()==nr&&a.num_cis()==np+nr&&a.num_cos()==no+nr,"counts"); sym_check(a.is_combinational()==(nr==0),"is_combinational");
  for(unsigned i=0;i<np;++i) sym_check(a.pi_at(i)==pi[i]&&a.is_pi(pi[i])&&!a.is_ro(pi[i])&&a.pi_index(pi[i])==i,"pi position");
  for(unsigned i=0;i<nr;++i){ sym_check(a.ro_at(i)==ro[i]&&a.is_ro(ro[i])&&!a.is_pi(ro[i])&&a.is_ci(ro[i])&&a.ro_index(ro[i])==i&&a.ci_at(np+i)==ro[i]&&a.ci_index(ro[i])==np+i,"register output position"); sym_check(a.ri_at(i).data==ri[i].data&&a.co_at(no+i).data==ri[i].data&&a.latch_reset(i)==rs[i],"register input position and reset"); sym_check(a.ro_to_ri(sig(ro[i],0)).data==ri[i].data,"ro_to_ri pairs a register"); uint32_t j=a.ri_index(ri[i]); sym_check(j<=i&&a.ri_at(j).data==ri[i].data,"ri_index"); }
  unsigned c=0; a.foreach_register([&](std::pair<sig,node> p,auto i){ sym_check(i==c&&p.first.data==ri[i].data&&p.second==ro[i],"foreach_register pairs inputs and outputs"); ++c; }); sym_check(c==nr,"foreach_register visits every register"); c=0; a.foreach_ro([&](auto n,auto i){ sym_check(n==ro[i],"foreach_ro"); ++c; }); a.foreach_ri([&](auto q,auto i){ sym_check(sig(q).data==ri[i].data,"foreach_ri"); ++c; }); sym_check(c==2*nr,"foreach_ro/ri visit all");
  check_aig_invariants(a,true,true,"sequential"); sym_cover("end"); sym_observe("size",a.size());
}
extern "C" void sym_main(const char* h){ std::string s(h);
  if(s=="ops") ops(); else if(s=="hist") hist(); else if(s=="comp") comp(); else if(s=="subst") subst(); else if(s=="subst2") subst2(); else if(s=="substs") substs(); else if(s=="takeout") takeout(); else if(s=="deep") deep(); else if(s=="seqif") seqif(); else __builtin_trap(); }
