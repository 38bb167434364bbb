// V01: views and node maps   D01: cleanup
#include "klut_common.hpp"
#include "opt_common.hpp"
#include <operations/algorithms/cleanup.hpp>
#include <operations/algorithms/ref_deref.hpp>
#include <database/views/depth_view.hpp>
#include <database/views/topo_view.hpp>
#include <database/views/mapping_view.hpp>
#include <utils/node_map.hpp>
using namespace hx; using namespace iFPGA_NAMESPACE;
typedef klut_network::signal ks;
static std::array<uint64_t,2> kids(const aig_network& a,uint64_t n){ std::array<uint64_t,2> r; r[0]=a.get_child0(n).index; r[1]=a.get_child1(n).index; return r; }
// ---- levels, computed independently.  cc: a complemented edge counts 1
struct levels { std::vector<uint32_t> lv; std::vector<uint8_t> seen; std::vector<uint64_t> order; uint32_t depth=0; std::vector<int64_t> tail;
  template<class N> static uint64_t idx(const N& n,typename N::signal const& s){ return n.get_node(s); }
  template<class N> void visit(const N& n,uint64_t x,bool cc){ if(seen[x]) return; seen[x]=1; uint32_t l=0; if(!n.is_constant(x)&&!n.is_ci(x)) { n.foreach_fanin(x,[&](auto const& f){ uint64_t c=n.get_node(f); visit(n,c,cc); uint32_t e=lv[c]+(cc?(uint32_t)n.is_complemented(f):0); l=e>l?e:l; }); l+=1; } lv[x]=l; order.push_back(x); }
  template<class N> levels(const N& n,bool cc):lv(n.size(),0),seen(n.size(),0),tail(n.size(),-1000){ n.foreach_po([&](auto const& f){ uint64_t x=n.get_node(f); visit(n,x,cc); uint32_t o=cc?(uint32_t)n.is_complemented(f):0; uint32_t e=lv[x]+o; depth=e>depth?e:depth; tail[x]=(int64_t)o>tail[x]?(int64_t)o:tail[x]; });
    for(size_t i=order.size();i-->0;){ uint64_t x=order[i]; if(n.is_constant(x)||n.is_ci(x)) continue; n.foreach_fanin(x,[&](auto const& f){ uint64_t c=n.get_node(f); int64_t t=tail[x]+1+(cc?(int64_t)n.is_complemented(f):0); tail[c]=t>tail[c]?t:tail[c]; }); } } };
template<class V> static void check_levels(const V& d,bool cc,const char* when,bool crit=true){ levels l(d,cc); note_t a; a.add("%s: level is the longest path to an input",when); note_t b; b.add("%s: depth is the longest path to an output",when); note_t c; c.add("%s: the critical path is the set of nodes on a longest path",when);
  bool lo=true,co=true; for(auto x:l.order){ lo&=(d.level(x)==l.lv[x]); if(crit) co&=((bool)d.is_on_critical_path(x)==((int64_t)l.lv[x]+l.tail[x]==(int64_t)l.depth)); } sym_check(lo,a.b); sym_check(d.depth()==l.depth,b.b); if(crit) sym_check(co,c.b); }
static sig pick_sig(const aig_network& a,const char* n){ uint64_t i=sym_choice(n,a.size()); return a.make_signal(i)^(sym_choice("c",2)!=0); }
static void depth_aig(){ unsigned cfg=(unsigned)sym_choice("cfg",sym_thorough()?4:3); static const unsigned C[][2]={{2,2},{3,2},{2,3},{3,4}}; bool cc=sym_choice("cc",2); sketch k=any_sketch(C[cfg][0],C[cfg][1],cfg==1,true,cfg==3); aig_network a=k.build(); depth_view_params ps; ps.count_complements=cc; unit_cost<aig_network> uc;
  depth_view<aig_network> d(a,uc,ps); check_levels(d,cc,"construction"); if(cfg==0&&sym_choice("ext",2)) { depth_view<aig_network> e(d); sig p=pick_sig(a,"p"),q=pick_sig(a,"q"); sig g=d.create_and(p,q); levels l0(a,cc); d.create_po(g); bool live=true; live&=(l0.seen[p.index]|a.is_ci(p.index)|(p.index==0)); live&=(l0.seen[q.index]|a.is_ci(q.index)|(q.index==0)); if(live){ check_levels(d,cc,"extension",false); sym_check(e.level(g.index)==d.level(g.index),"a copy of the view follows the network"); } d.update_levels(); check_levels(d,cc,"update"); sym_cover("extend"); }
  sym_cover("end"); }
static void depth_large(){ sketch k=any_gen(sym_thorough()?20:4,sym_thorough()?DIMS_T:DIMS_Q); aig_network a=k.build(); bool cc=sym_choice("cc",2); depth_view_params ps; ps.count_complements=cc; unit_cost<aig_network> uc; depth_view<aig_network> d(a,uc,ps); check_levels(d,cc,"construction"); { topo_view<depth_view<aig_network>> t(d); unsigned c=0; t.foreach_gate([&](auto n){ ++c; sym_check(d.level(n)>0,"gates have a level"); }); sym_check(c==used_gates(a),"topological view visits the gates in the cones of the outputs"); } sym_cover("end"); }
// a LUT network drawn from choices
static klut_network any_klut(unsigned npi,unsigned ng,unsigned maxk,std::vector<ks>& s){ static const uint64_t T1[]={1,2,0,3}, T2[]={0x8,0xd,0xa,0x0,0x6,0xf}, T3[]={0xe8,0xf0,0xca,0x80,0x96,0x3c}; klut_network k; s={0,1}; for(unsigned i=0;i<npi;++i) s.push_back(k.create_pi()); for(unsigned g=0;g<ng;++g){ unsigned ar=1+(unsigned)sym_choice("ar",maxk); std::vector<ks> c; for(unsigned i=0;i<ar;++i) c.push_back(s[s.size()-1-sym_choice("f",std::min<size_t>(s.size(),ar==3?3:4))]); kitty::dynamic_truth_table t(ar); t._bits[0]=ar==1?T1[sym_choice("t",4)]:ar==2?T2[sym_choice("t",sym_thorough()?6:4)]:T3[sym_choice("t",sym_thorough()?6:2)]; s.push_back(k.create_node(c,t)); } return k; }
static void depth_klut(){ std::vector<ks> s; klut_network k=any_klut(2,2,2,s); k.create_po(s.back()); if(sym_choice("second",2)) k.create_po(s[s.size()-2]); unit_cost<klut_network> uc; depth_view<klut_network> d(k,uc); check_levels(d,false,"LUT construction"); topo_view<klut_network> t(k); std::vector<uint64_t> o; t.foreach_node([&](auto n){ o.push_back(n); }); std::vector<int> pos(k.size(),-1); for(size_t i=0;i<o.size();++i){ sym_check(pos[o[i]]<0,"a node appears once"); pos[o[i]]=(int)i; } bool ok=true; k.foreach_node([&](auto n){ if(pos[n]>=0&&!k.is_ci(n)&&!k.is_constant(n)) k.foreach_fanin(n,[&](auto const& f){ ok&=pos[f]>=0&&pos[f]<pos[n]; }); }); sym_check(ok,"fanins come first in the topological view"); levels l(k,false); unsigned g=0; for(auto x:l.order) g+=!k.is_ci(x)&&!k.is_constant(x); sym_check(t.num_gates()==g,"topological view counts the gates in the cones"); sym_cover("end"); }
// ---- topological view: rewired networks (substitution breaks the index order), with and without start signal, with registers
static void topo(){ unsigned npi=2,nr=(unsigned)sym_choice("regs",2); aig_network a; std::vector<sig> s; for(unsigned i=0;i<npi;++i) s.push_back(a.create_pi()); for(unsigned i=0;i<nr;++i) s.push_back(a.create_ro()); unsigned ng=3; for(unsigned g=0;g<ng;++g){ size_t i=sym_choice("a",s.size()), j=sym_choice("b",s.size()); if(i>=j) sym_drop(); s.push_back(a.create_and(s[i],s[j]^(sym_choice("p",2)!=0))); }
  a.create_po(s[s.size()-1-sym_choice("po",2)]); if(nr) a.create_ri(s[s.size()-1-sym_choice("ri",3)]); 
  bool one=sym_choice("start",2); sig st=s[sym_choice("st",one?s.size():1)]; if(!nr&&sym_choice("subst",2)){ // replace an early gate by a later one that does not depend on it
    uint64_t x=s[npi].index; sig y=s.back(); std::vector<uint8_t> m(a.size(),0); std::function<bool(uint64_t)> dep=[&](uint64_t n){ if(n==x) return true; if(n==0||a.is_ci(n)) return false; return dep(a.get_child0(n).index)||dep(a.get_child1(n).index); }; if(!a.is_and(x)||a.is_dead(x)||dep(y.index)||a.is_dead(y.index)) sym_drop(); a.substitute_node(x,y); sym_cover("substituted"); if(a.is_dead(st.index)) sym_drop(); }
  std::vector<uint64_t> o,gs; uint32_t ngt=0,size=0,npo=0; std::vector<uint64_t> pos_; auto rd=[&](auto& t){ t.foreach_node([&](auto n){ o.push_back(n); }); t.foreach_gate([&](auto n){ gs.push_back(n); }); ngt=t.num_gates(); size=t.size(); npo=t.num_pos(); t.foreach_po([&](auto const& f){ pos_.push_back(sig(f).data); }); for(uint32_t i=0;i<size;++i) sym_check(t.node_to_index(t.index_to_node(i))==i,"indices of the view are consistent"); };
  if(one){ topo_view<aig_network> t(a,st); rd(t); } else { topo_view<aig_network> t(a); rd(t); }
  std::vector<uint8_t> in(a.size(),0); std::function<void(uint64_t)> mk=[&](uint64_t n){ if(in[n]) return; in[n]=1; if(n==0||a.is_ci(n)) return; mk(a.get_child0(n).index); mk(a.get_child1(n).index); }; mk(0); a.foreach_ci([&](auto n){ in[n]=1; }); if(one) mk(st.index); else a.foreach_co([&](auto const& f){ mk(sig(f).index); }); unsigned cnt=0,gc=0; for(uint64_t n=0;n<a.size();++n){ cnt+=in[n]; gc+=in[n]&&n&&!a.is_ci(n); }
  std::vector<int> pos(a.size(),-1); bool once=true,ord=true,mem=true,gok=gs.size()==gc; for(size_t i=0;i<o.size();++i){ if(o[i]>=a.size()){ mem=false; continue; } once&=pos[o[i]]<0; pos[o[i]]=(int)i; mem&=in[o[i]]; if(o[i]&&!a.is_ci(o[i])) for(auto f:kids(a,o[i])) ord&=pos[f]>=0; } sym_check(once,"a node appears once"); sym_check(ord,"fanins come first in the topological view"); sym_check(mem&&o.size()==cnt&&size==cnt,"the view holds the inputs, the constant and the cones, nothing else"); for(auto g:gs) gok&=g&&!a.is_ci(g)&&in[g]; sym_check(gok,"foreach_gate of the view visits the gates of the cones"); sym_check(ngt==gc,"num_gates of the view counts the gates of the cones"); std::vector<uint64_t> wp; if(one) wp.push_back(st.data); else a.foreach_po([&](auto const& f){ wp.push_back(sig(f).data); }); sym_check(pos_==wp&&npo==wp.size(),"outputs of the view"); sym_cover("end"); }
// ---- mapping view against a model, over histories
static void mapping(){ aig_network a; sig x=a.create_pi(),y=a.create_pi(),z=a.create_pi(); sig g=a.create_and(x,y),h=a.create_and(g,!z); a.create_po(h); typedef mapping_view<aig_network,true> mv; mv m(a); struct cell { bool root=false; std::vector<uint64_t> l; bool hasf=false; uint64_t f=0; unsigned nv=0; }; std::map<uint64_t,cell> mod; mod[g.index]; mod[h.index]; unsigned steps=sym_thorough()?4:3; static const std::vector<uint64_t> L[]={{1,2},{4,3},{1,2,3},{3,1}};
  for(unsigned i=0;i<steps;++i){ uint64_t n=sym_choice("n",2)?g.index:h.index; switch(sym_choice("op",4)){ case 0: { auto& l=L[sym_choice("l",4)]; m.add_to_mapping(n,l.begin(),l.end()); mod[n].root=true; mod[n].l=l; break; } case 1: m.remove_from_mapping(n); mod[n].root=false; break; case 2: m.clear_mapping(); for(auto&c:mod) c.second.root=false; break; default: { kitty::dynamic_truth_table t(2); static const uint64_t F[]={0x8,0x7,0x6,0x0,0xf}; t._bits[0]=F[sym_choice("f",5)]; m.set_cell_function(n,t); mod[n].hasf=true; mod[n].f=t._bits[0]; mod[n].nv=2; } }
    unsigned c=0; bool ok=true,ll=true,ff=true; for(auto&q:mod){ c+=q.second.root; ok&=m.is_cell_root(q.first)==q.second.root; if(q.second.root){ std::vector<uint64_t> l; m.foreach_cell_fanin(q.first,[&](auto n){ l.push_back(n); }); ll&=l==q.second.l; } auto t=m.cell_function(q.first); ff&=(unsigned)t.num_vars()==q.second.nv&&t._bits[0]==q.second.f; } sym_check(ok,"cell roots are those added and not removed since"); sym_check(ll,"the leaves of a cell are those it was added with"); sym_check(ff,"the function of a cell is the last one set"); sym_check(m.num_cells()==c&&m.has_mapping()==(c>0),"the number of cells"); sym_check(!m.is_cell_root(x.index)&&!m.is_cell_root(0),"inputs are not cells"); } sym_cover("end"); }
// ---- node maps against a model
static void nmap(){ aig_network a; sig x=a.create_pi(),y=a.create_pi(),g=a.create_and(x,y); (void)g; node_map<uint32_t,aig_network> m(a,7u); unordered_node_map<uint32_t,aig_network> u(a); std::vector<uint32_t> mod(a.size(),7); std::map<uint64_t,uint32_t> um; unsigned steps=sym_thorough()?4:3; for(unsigned i=0;i<steps;++i){ uint64_t n=sym_choice("n",4); uint32_t v=(uint32_t)sym_bits("v",8); switch(sym_choice("op",8)){ case 0: m[n]=v; mod[n]=v; break; case 1: m[!a.make_signal(n)]=v; mod[n]=v; break; case 2: a.create_pi(); m.resize(v); mod.resize(a.size(),v); break; case 3: m.reset(v); mod.assign(a.size(),v); break; case 4: u[n]=v; um[n]=v; break; case 5: u.erase(n); um.erase(n); break; case 6: { node_map<uint32_t,aig_network> c(a,m); c[n]=v; break; } default: { auto c=u.copy(); bool ok=true; for(uint64_t j=0;j<4;++j){ ok&=c.has(j)==(um.count(j)>0); if(c.has(j)&&um.count(j)) ok&=c[j]==um[j]; } sym_check(ok,"a copy of an unordered node map has the same entries"); c[n]=v; } }
    bool ok=true,uo=true; for(uint64_t j=0;j<mod.size();++j) ok&=(m[j]==mod[j]); for(uint64_t j=0;j<4;++j){ uo&=(u.has(j)==(um.count(j)>0))&(u.has(a.make_signal(j))==u.has(j)); if(um.count(j)&&u.has(j)) uo&=(u[j]==um[j]); } sym_check(ok,"a node map returns the last value written"); sym_check(uo,"an unordered node map holds the entries written and not erased"); } sym_cover("end"); }
// ---- reference counting of cones
static void refs(){ unsigned cfg=(unsigned)sym_choice("cfg",sym_thorough()?3:2); static const unsigned C[][2]={{2,3},{3,3},{3,4}}; sketch k=any_sketch(C[cfg][0],C[cfg][1],true,false,false); for(auto&g:k.g) if(sym_choice("pol",2)) g.pa^=1; aig_network a=k.build(); std::vector<uint32_t> v0(a.size()); a.foreach_node([&](auto n){ a.set_value(n,a.fanout_size(n)); v0[n]=a.fanout_size(n); });
  std::vector<uint64_t> gs; a.foreach_gate([&](auto n){ gs.push_back(n); }); if(gs.empty()) sym_drop(); { uint64_t n=pick("gate",gs); // size of the cone that is used by n only
    std::vector<uint32_t> f=v0; unsigned want=0; std::function<void(uint64_t)> rm=[&](uint64_t q){ if(q==0||a.is_ci(q)) return; ++want; for(auto c:kids(a,q)) if(--f[c]==0) rm(c); }; rm(n);
    uint32_t d=deref_node_recursive(a,n); bool ok=true; for(uint64_t q=0;q<a.size();++q) ok&=a.value(q)==f[q]; sym_check(d==want,"dereferencing a node returns the size of its fanout-free cone"); sym_check(ok,"dereferencing takes away the references of the cone"); if(sym_choice("contained",2)){ uint64_t r=sym_choice("r",a.size()); std::vector<uint8_t> in(a.size(),0); std::function<void(uint64_t)> mk=[&](uint64_t q){ in[q]=1; if(q==0||a.is_ci(q)) return; for(auto c:kids(a,q)){ in[c]=1; if(f[c]++==0) mk(c); } }; mk(n); auto t=ref_node_recursive_contained(a,n,r); sym_check((uint32_t)std::get<0>(t)==want,"referencing a node returns the size of its fanout-free cone"); sym_check(std::get<1>(t)==(bool)in[r],"containment in the cone"); } else sym_check(ref_node_recursive(a,n)==want,"referencing a node returns the size of its fanout-free cone"); ok=true; for(uint64_t q=0;q<a.size();++q) ok&=a.value(q)==v0[q]; sym_check(ok,"referencing undoes dereferencing"); } sym_cover("end"); }
// ---- D01
static void clean_aig(){ unsigned npi=2+(unsigned)sym_choice("npi",2); auto l=shapes(npi,sym_thorough()||npi==2?3:2); sketch k=from_shape(npi,pick("shape",l),false,true); /* outputs: any subset of the sinks, so that gates dangle; plus inputs and constants */ std::vector<sketch::po> keep; for(auto&o:k.pos) if(sym_choice("keep",2)) keep.push_back(o); if(sym_choice("pi",2)) keep.push_back({0,(uint8_t)sym_bits("pp",1)}); k.pos=keep; inputs x(npi); auto want=k.eval(x.v); aig_network a=k.build(); bool c0=sym_choice("const",2); if(c0){ uint8_t p=(uint8_t)sym_bits("cp",1); a.create_po(a.get_constant(p!=0)); want.push_back(p); }
  auto before=snapshot(a); bool rp=sym_choice("rpi",2), ro=sym_choice("rpo",2); aig_network b=cleanup_dangling(a,rp,ro); same_snapshot(a,before); std::vector<uint8_t> xin; a.foreach_pi([&](auto n,auto i){ if(!rp||a.fanout_size(n)>0) xin.push_back(x.v[i]); }); sym_check(b.num_pis()==xin.size(),"inputs without fanout are dropped exactly when asked for"); evaluator e(b,xin); auto got=e.outputs(); sym_check(e.acyclic,"network is acyclic"); if(!ro) check_equal(got,want,"every output computes the same function"); else { // outputs that are gates stay, in order
    std::vector<uint8_t> w2; evaluator ea(a,x.v); a.foreach_po([&](auto const& f){ sig s=f; if(s.index&&!a.is_pi(s.index)) w2.push_back(ea.signal(s)); }); check_equal(got,w2,"every output driven by a gate computes the same function"); }
  check_aig_invariants(b,true,true,"result"); sym_check(used_gates(b)==b.num_gates(),"no gate dangles"); sym_check(b.num_gates()==used_gates(a),"no other gate is lost");
  if(!rp&&!ro){ // the variant that copies into an existing network
    aig_network d; inputs y(npi,"y"); std::vector<sig> lv; std::vector<uint8_t> lvv; sig q0=d.create_pi(),q1=d.create_pi(); lv={!q0,d.create_and(q0,q1)}; lvv={(uint8_t)(y.v[0]^1),(uint8_t)(y.v[0]&y.v[1])}; if(npi==3){ lv.push_back(q1); lvv.push_back(y.v[1]); } auto fs=cleanup_dangling(a,d,lv.begin(),lv.end()); evaluator ed(d,y.v); auto w3=k.eval(lvv); if(c0) w3.push_back(want.back()); std::vector<uint8_t> g3; for(auto s:fs) g3.push_back(ed.signal(s)); check_equal(g3,w3,"copying into another network composes the functions"); check_aig_invariants(d,false,true,"destination"); sym_cover("into"); }
  sym_cover("end"); }
static void clean_klut(){ std::vector<ks> s; bool deep=sym_choice("deep",2); klut_network k=any_klut(2,2,deep?3:2,s); k.create_po(s.back()); if(sym_choice("second",2)) k.create_po(s[s.size()-2]); inputs x(2); auto want=keval(k,x); unsigned g0=k.num_gates(); klut_network b=cleanup_dangling(k); check_equal(keval(b,x),want,"every output computes the same function after cleanup_dangling"); sym_check(b.num_pis()==2&&b.num_gates()<=g0,"cleanup never adds LUTs"); check_klut_invariants(b,3,true,"cleaned"); klut_network c=cleanup_luts(k); check_equal(keval(c,x),want,"every output computes the same function after cleanup_luts"); check_klut_invariants(c,3,true,"cleaned LUTs"); sym_check(c.num_pis()==2,"inputs are kept"); bool supp=true; c.foreach_gate([&](auto n){ auto t=c.node_function(n); for(int i=0;i<t.num_vars();++i) supp&=kitty::has_var(t,i); c.foreach_fanin(n,[&](auto f){ supp&=!c.is_constant(f); }); }); sym_check(supp,"LUTs have no constant or redundant inputs after cleanup_luts"); sym_cover("end"); }
static void clean_large(){ sketch k=any_gen(sym_thorough()?20:6,sym_thorough()?DIMS_T:DIMS_Q); std::vector<sketch::po> keep; lfsr r(k.g.size()+k.pos.size()*17); for(auto&o:k.pos) if(keep.empty()||r.below(2)) keep.push_back(o); k.pos=keep; inputs x(k.npi); auto want=k.eval(x.v); aig_network a=k.build(); auto before=snapshot(a); unsigned u=used_gates(a); aig_network b=cleanup_dangling(a); after_opt(b,x,want,k); same_snapshot(a,before); sym_check(b.num_gates()==u&&used_gates(b)==u,"exactly the gates in the cones of the outputs stay"); sym_cover("end"); }
extern "C" void sym_main(const char* h){ std::string s(h); if(s=="depth_aig") depth_aig(); else if(s=="depth_large") depth_large(); else if(s=="depth_klut") depth_klut(); else if(s=="topo") topo(); else if(s=="mapping") mapping(); else if(s=="nmap") nmap(); else if(s=="refs") refs(); else if(s=="clean_aig") clean_aig(); else if(s=="clean_klut") clean_klut(); else if(s=="clean_large") clean_large(); else __builtin_trap(); }
