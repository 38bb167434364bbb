// C01: cuts and cut sets   C02: cut enumeration
#include "common.hpp"
#include <database/cut/cut.hpp>
#include <database/cut/cut_set.hpp>
#include <database/cut/cut_enumeration.hpp>
using namespace hx; using namespace iFPGA_NAMESPACE;
struct tag { uint32_t id{0}; };
typedef cut<8,tag> cut8;
template<class C> static std::vector<uint32_t> leaves(const C& c){ return std::vector<uint32_t>(c.begin(),c.end()); }
// a cut with symbolic, strictly increasing leaves below 2^bits
template<class C> static std::vector<uint32_t> sym_cut(C& c,unsigned n,unsigned bits,const char* nm){ std::vector<uint32_t> l; bool inc=true; for(unsigned i=0;i<n;++i){ uint32_t v=(uint32_t)sym_bits(nm,bits); l.push_back(bits==4?(v&7)|(v>>3)<<6:bits==5?(v&7)|(v>>3)<<5:v); if(i) inc&=(l[i-1]<l[i]); } sym_assume(inc); c.set_leaves(l); return l; }
static bool has(const std::vector<uint32_t>& v,uint32_t x){ bool r=false; for(auto y:v) r|=(x==y); return r; }
static bool subset(const std::vector<uint32_t>& a,const std::vector<uint32_t>& b){ bool r=true; for(auto y:a) r&=has(b,y); return r; }
static void check_cut(const cut8& c,const char* what){ auto l=leaves(c); bool inc=true; uint64_t s=0; for(size_t i=0;i<l.size();++i){ if(i) inc&=(l[i-1]<l[i]); s|=UINT64_C(1)<<(l[i]&63); } sym_check(inc,"leaves strictly increasing"); sym_check(c.size()==l.size(),"size() is the number of leaves"); sym_check(c.signature()==s,what); }
static void basic(){ // merge / dominates / copy for all leaf values
  unsigned M=sym_thorough()?5:4; unsigned na=(unsigned)sym_choice("na",M+1),nb=(unsigned)sym_choice("nb",M+1); cut8 a,b,r; auto la=sym_cut(a,na,sym_thorough()?5:4,"a"), lb=sym_cut(b,nb,sym_thorough()?5:4,"b"); a->id=1; b->id=2; r->id=9;
  check_cut(a,"signature has one bit per leaf (set_leaves)");
  unsigned un=na; for(auto y:lb) un+=(unsigned)!has(la,y); un=(unsigned)sym_concretize(un);
  unsigned lim=(unsigned)sym_choice("limit",9); 
  if(lim==0){ bool d=a.dominates(b); sym_check((bool)((unsigned)d^(unsigned)!subset(la,lb)),"dominates iff leaves are a subset"); cut8 c(a),e; e=a; e=e; sym_check(leaves(c)==la&&leaves(e)==la&&c->id==1&&e->id==1&&c.size()==na,"copy keeps leaves and data"); check_cut(c,"copied signature"); check_cut(e,"assigned signature"); sym_check(e.dominates(c)&&c.dominates(e),"a cut dominates itself"); sym_cover("dominates"); return; }
  bool ok=a.merge(b,r,lim); sym_check(ok==(un<=lim),"merge succeeds iff the union fits");
  if(ok){ auto lr=leaves(r); sym_check(lr.size()==un,"merge: size of the union"); sym_check((bool)((unsigned)subset(la,lr)&(unsigned)subset(lb,lr)),"merge: union contains both"); check_cut(r,"merged signature"); cut8 t(r); sym_check(leaves(t)==lr,"copy of a merged cut"); sym_check(a.dominates(r)&&b.dominates(r),"parts dominate the merge"); sym_cover("merge"); } else sym_cover("too large");
  sym_check(leaves(a)==la&&leaves(b)==lb&&a.size()==na,"merge leaves its operands alone"); sym_check(a->id==1&&b->id==2&&r->id==9,"data untouched"); sym_observe("ok",ok); sym_observe("n",un);
}
// merging cuts whose signatures collide must stay inside the cut object, whatever the leaf values
static void collide(){ struct guard { uint32_t lo[4]; cut<4,tag> r; uint32_t hi[4]; } g; for(int i=0;i<4;++i) g.lo[i]=g.hi[i]=0x5a5a5a5a; cut<4,tag> a,b,c; unsigned n=4; auto la=sym_cut(a,n,8,"a"), lb=sym_cut(b,n,8,"b"); bool same=true; for(unsigned i=0;i<n;++i) same&=((la[i]&63)==(lb[i]&63))&(la[i]<64); sym_assume(same); c.set_leaves(std::vector<uint32_t>{1,2}); g.r->id=7; sym_check(c.merge(c,g.r,4),"self merge"); bool ok=a.merge(b,g.r,4); unsigned un=n; for(auto y:lb) un+=(unsigned)!has(la,y); un=(unsigned)sym_concretize(un); sym_check(ok==(un<=4),"merge succeeds iff the union fits (colliding signatures)"); 
  sym_check(g.r->id==7,"data untouched by a failed merge"); sym_check(g.r.size()<=4&&(size_t)(g.r.end()-g.r.begin())<=4&&(size_t)(g.r.end()-g.r.begin())==g.r.size(),"a failed merge leaves a valid cut"); if(!ok) sym_cover("collision"); for(int i=0;i<4;++i) sym_check(g.lo[i]==0x5a5a5a5a&&g.hi[i]==0x5a5a5a5a,"no write outside"); sym_observe("ok",ok); }
// cut sets against a reference list: every history of insert/update_best/remove/limit/resize
static void cset(){
  typedef cut<6,tag> cc; typedef cut_set<cc,3> cs; cs s; std::vector<std::vector<uint32_t>> ref; std::vector<uint32_t> id; unsigned len=sym_thorough()?6:4; note_t t;
  for(unsigned i=0;i<len;++i){ unsigned op=ref.empty()?0:(i+1<len?0:(unsigned)sym_choice("op",5)); 
    if(op==0){ static const unsigned M[]={1,2,4,8,3,5,9,6,10,12,7,11,13,14,15}; unsigned m=M[sym_choice("m",sym_thorough()&&i>2?8:15)]; std::vector<uint32_t> l; for(unsigned j=0;j<4;++j) if(m>>j&1) l.push_back(10+j*7); cc c; c.set_leaves(l); c->id=i+1; t.add("ins %x ",m); sym_note(t.b);
      bool dom=false; for(auto&q:ref) dom|=subset(q,l); sym_check(s.is_dominated(c)==dom,"is_dominated iff some stored cut is a subset"); if(dom) { sym_cover("dominated"); continue; }
      s.insert(c); std::vector<std::vector<uint32_t>> n; std::vector<uint32_t> ni; for(size_t j=0;j<ref.size();++j) if(!subset(l,ref[j])){ n.push_back(ref[j]); ni.push_back(id[j]); }
      size_t pos=0; while(pos<n.size()&&n[pos].size()<l.size()) ++pos; if(n.size()==3){ if(pos<3){ n.pop_back(); ni.pop_back(); n.insert(n.begin()+pos,l); ni.insert(ni.begin()+pos,i+1); } sym_cover("full"); } else { n.insert(n.begin()+pos,l); ni.insert(ni.begin()+pos,i+1); } ref=n; id=ni; }
    else if(op==1){ unsigned k=(unsigned)sym_choice("k",ref.size()); s.update_best(k); auto q=ref[k]; auto qi=id[k]; ref.erase(ref.begin()+k); id.erase(id.begin()+k); ref.insert(ref.begin(),q); id.insert(id.begin(),qi); sym_check(leaves(s.best())==q,"update_best moves the cut to the front"); }
    else if(op==2){ unsigned k=(unsigned)sym_choice("k",ref.size()); s.remove(k); ref.erase(ref.begin()+k); id.erase(id.begin()+k); }
    else if(op==3){ unsigned k=(unsigned)sym_choice("k",ref.size()+1); s.resize((uint8_t)k); ref.resize(k); id.resize(k); }
    else { unsigned k=2+(unsigned)sym_choice("k",4); s.limit(k); size_t z=s.size(); sym_check(z<=k,"limit bounds the number of cuts"); sym_check(ref.size()<=k?z==ref.size():z>=1,"limit keeps a set that is small enough"); if(z<ref.size()){ ref.resize(z); id.resize(z); } }
    sym_check((size_t)s.size()==ref.size(),"number of stored cuts"); bool same=true,data=true,sorted=true; size_t j=0; for(auto const& c:s){ if(j>=ref.size()) break; same&=(leaves(*c)==ref[j]); data&=((*c)->id==id[j]); if(op==0&&j) sorted&=(ref[j-1].size()<=ref[j].size()); ++j; } sym_check(same&&j==ref.size(),"the cut set holds exactly the non-dominated cuts, best first, worst dropped when full"); sym_check(data,"cut data travels with its cut"); for(size_t q=0;q<ref.size();++q) sym_check(leaves(s[q])==ref[q],"operator[]"); if(!ref.empty()) sym_check(leaves(s.best())==ref[0],"best() is the first cut"); }
  if(!ref.empty()&&sym_choice("fit",2)){ s.resize_to_fit(); sym_check(leaves(s.best())==ref[0],"resize_to_fit keeps the best cut"); }
  sym_cover("end"); sym_observe("n",ref.size());
}
// --- enumeration: every reported cut is a cut, has a bounded size, and its table is the node's function of its leaves
template<class Cuts> static void check_cuts(const aig_network& a,const Cuts& cs,const inputs& x,unsigned k,unsigned limit,bool min_tt,bool exact){
  evaluator e(a,x.v); std::vector<uint8_t> val(a.size()); for(uint64_t i=0;i<a.size();++i) val[i]=e.node(i); bool fok=true,lok=true;
  a.foreach_node([&](auto n){ auto const& set=cs.cuts(n); unsigned c=0; bool trivial=false; std::vector<std::vector<uint32_t>> all;
    for(auto const& p:set){ auto l=leaves(*p); ++c; all.push_back(l); lok&=l.size()<=k; for(size_t i=1;i<l.size();++i) lok&=l[i-1]<l[i]; for(auto q:l) lok&=q<=n;
      if(l.size()==1&&l[0]==n) trivial=true;
      // cut property: every path from the node to an input passes a leaf (constants need not be leaves)
      std::vector<uint8_t> m(a.size(),0); bool cutok=true; std::function<void(uint64_t)> walk=[&](uint64_t y){ if(m[y]) return; m[y]=1; for(auto q:l) if(q==y) return; if(y==0) return; if(a.is_ci(y)){ cutok=false; return; } walk(a.get_child0(y).index); walk(a.get_child1(y).index); }; walk(n); if(min_tt) cutok=true; sym_check(cutok,"every path to an input passes a leaf of the cut"); for(auto q:l) if(q!=n) sym_check(m[q]==1||min_tt,"every leaf lies in the cone of the node");
      // function of the cut
      auto tt=cs.truth_table(*p); sym_check((size_t)tt.num_vars()==l.size(),"cut function has one variable per leaf"); uint32_t idx=0; for(size_t i=0;i<l.size();++i) idx|=(uint32_t)val[l[i]]<<i; uint8_t r=0; for(uint64_t t=0;t<(1ull<<l.size());++t) if(tt._bits[t>>6]>>(t&63)&1) r|=(uint8_t)(idx==t); fok&=(r==val[n]); }
    sym_check(c>=1,"every node has a cut"); if(n&&(a.is_ci(n)||exact)) sym_check(trivial||a.is_constant(n)||(all.size()==1&&all[0].size()<=1),"the trivial cut is present"); sym_check(c<=limit,"number of cuts per node bounded by the limit");
    if(n&&a.is_ci(n)) sym_check(c==1&&trivial,"an input has exactly its trivial cut"); 
    bool anti=true; for(size_t i=0;i<all.size();++i) for(size_t j=0;j<all.size();++j) if(i!=j&&!(all[i].size()==1&&all[i][0]==n)&&!(all[j].size()==1&&all[j][0]==n)) anti&=!subset(all[i],all[j]); sym_check(anti,"no cut dominates another"); });
  sym_check(fok,"the function of a cut computes the node from its leaves"); sym_check(lok,"cuts have at most cut_size ordered leaves"); }
// when nothing has to be dropped, the cut set is exactly all irredundant k-feasible cuts
template<class Cuts> static void check_complete(const aig_network& a,const Cuts& cs,unsigned k,unsigned room){ typedef std::vector<uint32_t> C; std::vector<std::vector<C>> all(a.size()); bool dropped=false;
  a.foreach_node([&](auto n){ if(dropped) return; if(n==0){ all[0].push_back({}); return; } if(a.is_ci(n)){ all[n].push_back({(uint32_t)n}); return; } std::vector<C> r; for(auto&u:all[a.get_child0(n).index]) for(auto&v:all[a.get_child1(n).index]){ C w; std::set_union(u.begin(),u.end(),v.begin(),v.end(),std::back_inserter(w)); if(w.size()<=k) r.push_back(w); } if(r.size()>600){ dropped=true; return; } std::vector<C> m; for(size_t i=0;i<r.size();++i){ bool keep=true; for(size_t j=0;j<r.size()&&keep;++j) if(j!=i&&subset(r[j],r[i])&&(r[j].size()<r[i].size()||j<i)) keep=false; if(keep) m.push_back(r[i]); } if(m.size()>=room) dropped=true; m.push_back({(uint32_t)n}); all[n]=m; 
    if(dropped) return; std::vector<C> got; for(auto const& p:cs.cuts(n)) got.push_back(leaves(*p)); std::sort(got.begin(),got.end()); auto w=m; std::sort(w.begin(),w.end()); sym_check(got==w,"all irredundant k-feasible cuts are enumerated when they fit"); });
  if(!dropped) sym_cover("complete"); }
static void enum_one(const aig_network& a,const inputs& x,unsigned k,unsigned limit,bool mn){ cut_enumeration_params ps; ps.cut_size=k; ps.cut_limit=limit; ps.minimize_truth_table=mn; auto cs=cut_enumeration<aig_network,true>(a,ps); check_cuts(a,cs,x,k,limit,mn,!mn); if(!mn) check_complete(a,cs,k,limit-1); size_t tot=0; sym_check(cs.nodes_size()==a.size(),"a cut set per node"); a.foreach_gate([&](auto n){ tot+=cs.cuts(n).size(); }); sym_observe("cuts",tot); 
  auto cn=cut_enumeration<aig_network,false>(a,ps); if(!mn){ bool same=true; a.foreach_node([&](auto n){ auto const& u=cs.cuts(n); auto const& v=cn.cuts(n); same&=(u.size()==v.size()); for(size_t i=0;i<(size_t)u.size()&&same;++i) same&=(leaves(u[i])==leaves(v[i])); }); sym_check(same,"the same cuts with and without functions"); } }
static void small(){ unsigned cfg=(unsigned)sym_choice("cfg",sym_thorough()?3:2); unsigned npi=cfg==0?2:3,ng=cfg==2?4:3; sketch k=any_sketch(npi,ng,false,false); for(auto&g:k.g){ if(sym_choice("pol",2)) g.pa^=1; } aig_network a=k.build(); inputs x(npi); unsigned ks=2+(unsigned)sym_choice("k",3); enum_one(a,x,ks,8,sym_choice("min",2)); sym_cover("end"); }
static void large(){ sketch k=any_gen(sym_thorough()?12:6,sym_thorough()?std::vector<std::pair<unsigned,unsigned>>{{5,12},{8,40},{12,110}}:std::vector<std::pair<unsigned,unsigned>>{{6,16},{10,85}}); aig_network a=k.build(); inputs x(k.npi); static const unsigned P[][2]={{4,8},{6,11},{7,5},{3,11},{6,3}}; auto c=sym_choice("cfg",5); enum_one(a,x,P[c][0],P[c][1],sym_choice("min",2)); sym_cover("end"); }
extern "C" void sym_main(const char* h){ std::string s(h); if(s=="basic") basic(); else if(s=="collide") collide(); else if(s=="cset") cset(); else if(s=="small") small(); else if(s=="large") large(); else __builtin_trap(); }
