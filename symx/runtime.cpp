// symx runtime: shadow memory, path exploration (fork), Z3 queries, reporting.
#include "expr.h"
#include <z3.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_map>
#include <atomic>
#include <algorithm>
#include <unistd.h>
#include <signal.h>
#include <errno.h>
#include <fcntl.h>
#include <malloc.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/prctl.h>
#include <new>
extern "C" { uint8_t* sx_flags; Expr* sx_args[64]; void* sx_tok; Expr* sx_ret[16]; void* sx_rettok; uint64_t sx_val; void sym_main(const char*); }
static int inRT=0; struct RT{ RT(){++inRT;} ~RT(){--inRT;} };
// ---------------------------------------------------------------- shared state
struct Viol { char kind[16]; char label[240]; char note[1024]; char model[3000]; };
struct Shared { std::atomic<int> slots; std::atomic<uint64_t> started,paths,assumed,forks,checks,checksSym,q,qsat,qunsat,qunk,qns,quick,implied,abandoned,nviol,nsamp,concr,procs,engerr,maxdepth,solvertime_fail,obligUnk; std::atomic<int> stop; 
  Viol viol[64]; char samples[64][3000]; struct {char n[64];std::atomic<uint64_t> c;} cover[64]; std::atomic<int> ncover; char ext[64][64]; std::atomic<int> next; std::atomic<int> lock; char engmsg[512]; };
static Shared* S; static double t0; static double budget=1e9; static unsigned pathTO=20; static const char* outFile; static uint64_t seedV=1; static int thoroughV=0; static unsigned long rlimitQ=0; static unsigned maxViol=24; static const char* runHarness;
static double now(){ timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+t.tv_nsec*1e-9; }
static void lockS(){ int e=0; while(!S->lock.compare_exchange_weak(e,1)){e=0;usleep(50);} } static void unlockS(){S->lock=0;}
// ---------------------------------------------------------------- vars / pc / z3
struct Var{ std::string name; unsigned bits; };
static std::vector<Var> vars; static std::vector<Expr*> pc; static size_t pcAsserted=0; static uint64_t pcSupp[4];
static Z3_context zc; static Z3_solver zs; static char noteBuf[1024]; static unsigned depth_=0; static bool ownsTok=false; static bool isRoot=true;
static void engine_error(const char*f,...); 
static void z3err(Z3_context c,Z3_error_code e){ engine_error("z3: %s",Z3_get_error_msg(c,e)); }
static Z3_ast zB(Z3_ast b){ return b; }
static Z3_ast toZ(Expr*e); 
static Z3_ast bv(Expr*e){ Z3_ast z=toZ(e); if(e->bits==1){ Z3_sort s=Z3_mk_bv_sort(zc,1); return Z3_mk_ite(zc,z,Z3_mk_unsigned_int64(zc,1,s),Z3_mk_unsigned_int64(zc,0,s)); } return z; }
static Z3_ast toZ1(Expr*e){
  Z3_sort s=e->bits==1?Z3_mk_bool_sort(zc):Z3_mk_bv_sort(zc,e->bits); Z3_ast r;
  auto b1=[&](Z3_ast x){ return e->bits==1?Z3_mk_eq(zc,x,Z3_mk_unsigned_int64(zc,1,Z3_mk_bv_sort(zc,1))):x; };
  switch(e->op){
    case OConst: return e->bits==1?(e->k?Z3_mk_true(zc):Z3_mk_false(zc)):Z3_mk_unsigned_int64(zc,e->k,s);
    case OVar: { char b[32]; snprintf(b,32,"v%llu",(unsigned long long)e->k); return Z3_mk_const(zc,Z3_mk_string_symbol(zc,b),s); }
    case OExtract: return b1(Z3_mk_extract(zc,e->k+e->bits-1,e->k,bv(e->a)));
    case OConcat: return Z3_mk_concat(zc,bv(e->a),bv(e->b));
    case OSExt: return Z3_mk_sign_ext(zc,e->bits-e->a->bits,bv(e->a));
    case OAdd: return Z3_mk_bvadd(zc,bv(e->a),bv(e->b)); case OSub: return Z3_mk_bvsub(zc,bv(e->a),bv(e->b)); case OMul: return Z3_mk_bvmul(zc,bv(e->a),bv(e->b));
    case OUDiv: return b1(Z3_mk_bvudiv(zc,bv(e->a),bv(e->b))); case OSDiv: return b1(Z3_mk_bvsdiv(zc,bv(e->a),bv(e->b))); case OURem: return b1(Z3_mk_bvurem(zc,bv(e->a),bv(e->b))); case OSRem: return b1(Z3_mk_bvsrem(zc,bv(e->a),bv(e->b)));
    case OAnd: if(e->bits==1){Z3_ast x[2]={toZ(e->a),toZ(e->b)};return Z3_mk_and(zc,2,x);} return Z3_mk_bvand(zc,bv(e->a),bv(e->b));
    case OOr: if(e->bits==1){Z3_ast x[2]={toZ(e->a),toZ(e->b)};return Z3_mk_or(zc,2,x);} return Z3_mk_bvor(zc,bv(e->a),bv(e->b));
    case OXor: if(e->bits==1)return Z3_mk_xor(zc,toZ(e->a),toZ(e->b)); return Z3_mk_bvxor(zc,bv(e->a),bv(e->b));
    case ONot: if(e->bits==1)return Z3_mk_not(zc,toZ(e->a)); return Z3_mk_bvnot(zc,bv(e->a));
    case OShl: return b1(Z3_mk_bvshl(zc,bv(e->a),bv(e->b))); case OLShr: return b1(Z3_mk_bvlshr(zc,bv(e->a),bv(e->b))); case OAShr: return b1(Z3_mk_bvashr(zc,bv(e->a),bv(e->b)));
    case OEq: return e->a->bits==1?Z3_mk_iff(zc,toZ(e->a),toZ(e->b)):Z3_mk_eq(zc,bv(e->a),bv(e->b)); case OUlt: return Z3_mk_bvult(zc,bv(e->a),bv(e->b)); case OUle: return Z3_mk_bvule(zc,bv(e->a),bv(e->b)); case OSlt: return Z3_mk_bvslt(zc,bv(e->a),bv(e->b)); case OSle: return Z3_mk_bvsle(zc,bv(e->a),bv(e->b));
    case OIte: return Z3_mk_ite(zc,toZ(e->a),toZ(e->b),toZ(e->c)); }
  abort(); }
static Z3_ast toZ(Expr*e){ if(e->z3)return (Z3_ast)e->z3; // children first without deep recursion
  std::vector<Expr*> st{e}; while(!st.empty()){ Expr*x=st.back(); if(x->z3){st.pop_back();continue;} bool w=false; for(Expr*y:{x->a,x->b,x->c}) if(y&&!y->z3){st.push_back(y);w=true;} if(w)continue; Z3_ast z=toZ1(x); Z3_inc_ref(zc,z); x->z3=z; st.pop_back(); }
  return (Z3_ast)e->z3; }
static void dumpModel(char*b,size_t n){ size_t k=0; b[0]=0; for(size_t i=0;i<vars.size();++i){ int r=snprintf(b+k,n-k,"%s=%llu\n",vars[i].name.c_str(),(unsigned long long)modelVals[i]); if(r<0||k+r>=n)break; k+=r; } }
[[noreturn]] static void endProc(){ // end of this process' exploration
  while(waitpid(-1,nullptr,WNOHANG)>0){}
  if(isRoot) { 
    if(ownsTok) S->slots++; 
    for(;;){ int r=waitpid(-1,nullptr,0); if(r<0&&errno==ECHILD)break; }
    extern void writeResult(); writeResult(); _exit(0); }
  S->procs++; if(ownsTok) S->slots++; _exit(0); }
static void engine_error(const char*f,...){ va_list a; va_start(a,f); char b[400]; vsnprintf(b,400,f,a); va_end(a); if(S){ lockS(); if(!S->engerr++) snprintf(S->engmsg,512,"%s",b); unlockS(); S->stop=1; } fprintf(stderr,"symx ENGINE ERROR: %s\n",b); if(!S)_exit(9); endProc(); }
static void violation(const char*kind,const char*label){ uint64_t i=S->nviol++; // keep ≤3 per label
  lockS(); int same=0,free_=-1; for(int j=0;j<64;++j){ if(!S->viol[j].kind[0]){free_=j;break;} if(!strcmp(S->viol[j].label,label)&&!strcmp(S->viol[j].kind,kind))++same; }
  if(same<3&&free_>=0){ Viol&v=S->viol[free_]; snprintf(v.label,240,"%s",label); snprintf(v.note,1024,"%s",noteBuf); dumpModel(v.model,3000); snprintf(v.kind,16,"%s",kind); }
  unlockS(); if(i+1>=maxViol) S->stop=1; }
static uint32_t verCtr=1;
static void flushChecks();
static void endPath(){ flushChecks(); S->paths++; if(depth_>S->maxdepth)S->maxdepth=depth_; endProc(); }
static bool stackHit(siginfo_t*si,void*uc){ uintptr_t sp=(uintptr_t)((ucontext_t*)uc)->uc_mcontext.gregs[REG_RSP],a=(uintptr_t)si->si_addr; return a+(1u<<17)>sp&&a<sp+(1u<<17); } // a fault next to the stack pointer: the stack is exhausted
static void onSig(int s,siginfo_t*si,void*uc){ 
  if(s==SIGPROF){ if(inRT) S->solvertime_fail++; else violation("hang","path exceeded cpu limit"); }
  else { if(s==SIGSEGV&&stackHit(si,uc)) violation("crash","stack overflow"); else if(inRT>0){ S->engerr++; snprintf(S->engmsg,512,"signal %d inside runtime",s); S->stop=1; } else { char b[64]; snprintf(b,64,"signal %d",s); violation("crash",b); } }
  S->paths++; if(isRoot){ endProc(); } S->procs++; if(ownsTok)S->slots++; _exit(0); }
extern "C" void __assert_fail(const char*e,const char*file,unsigned,const char*) noexcept { const char*b=strrchr(file,'/'); char l[240]; snprintf(l,240,"assert(%s)@%s",e,b?b+1:file); ++inRT; violation("assert",l); endPath(); _exit(0); }
namespace std { [[noreturn]] void __glibcxx_assert_fail(const char*file,int,const char*fn,const char*c) noexcept { char l[240]; snprintf(l,240,"glibcxx(%s)%.120s",c?c:"",fn?fn:""); ++inRT; violation("bounds",l); endPath(); _exit(0);} }
// ---------------------------------------------------------------- knowledge
static void fixBit(uint64_t idx){ unsigned s=suppBit(idx); if(s!=255) fixedVars[s>>6]|=1ull<<(s&63); }
static std::unordered_map<uint64_t,uint64_t> varKnown;
static void learnVarBits(Expr*v,uint64_t m){ uint64_t&k=varKnown[v->k]; k|=m; if((k&maskN(v->bits))==maskN(v->bits)) fixBit(v->k); }
static void learnEq(Expr*x){ // x is known to equal its model value
  if(isC(x))return; switch(x->op){ case OVar: learnVarBits(x,maskN(x->bits)); break; case OConcat: learnEq(x->a);learnEq(x->b);break; case OSExt: case ONot: learnEq(x->a);break; case OExtract: if(x->a->op==OVar) learnVarBits(x->a,maskN(x->bits)<<x->k); break;
    case OAdd: case OSub: case OXor: if(isC(norm(x->b)))learnEq(x->a); else if(isC(norm(x->a)))learnEq(x->b); break; default: break; } }
static void learn(Expr*c,bool v){ if(isC(c))return; switch(c->op){ case OVar: learnVarBits(c,1);break; case ONot: learn(c->a,!v);break; case OAnd: if(v){learn(c->a,1);learn(c->b,1);} else if(isC(norm(c->a))&&norm(c->a)->k)learn(c->b,0); else if(isC(norm(c->b))&&norm(c->b)->k)learn(c->a,0); break; case OOr: if(!v){learn(c->a,0);learn(c->b,0);} else if(isC(norm(c->a))&&!norm(c->a)->k)learn(c->b,1); else if(isC(norm(c->b))&&!norm(c->b)->k)learn(c->a,1); break; case OEq: if(v){ if(isC(c->b))learnEq(c->a); } else if(c->a->bits==1){} break; case OXor: if(isC(norm(c->a)))learn(c->b,norm(c->a)->k^v); else if(isC(norm(c->b)))learn(c->a,norm(c->b)->k^v); break; case OExtract: if(c->a->op==OVar)learnVarBits(c->a,1ull<<c->k);break; default:break; } }
static void addPC(Expr*c){ // c must hold in current model
  learn(c,true); Expr*n=norm(c); if(isC(n)){ // fully captured by fixed vars? fixed vars must be communicated to the solver too
  }
  pc.push_back(c); for(int i=0;i<4;++i)pcSupp[i]|=c->supp[i]; }
static bool disjoint(uint64_t*a,uint64_t*b){ for(int i=0;i<4;++i)if(a[i]&b[i])return false; return true; }
static void* curSite; // for SYMX_TRACEQ
// satisfiable(pc ∧ e)?  on sat: newModel filled.  returns 1 sat, 0 unsat, -1 unknown
static std::vector<uint64_t> newModel;
static int solve(Expr*e){
  RT rt; e=norm(e); if(isC(e)){ if(e->k){newModel=modelVals;return 1;} return 0; }
  if(evalExpr(e)){ newModel=modelVals; S->quick++; return 1; }
  // quick: flip single unfixed 1..8 bit vars in support
  { std::vector<unsigned> vs; for(unsigned i=0;i<vars.size()&&i<255;++i) if((e->supp[i>>6]>>(i&63)&1)&&!(fixedVars[i>>6]>>(i&63)&1)) { vs.push_back(i); if(vs.size()>6)break; }
    if(!vs.empty()&&vs.size()<=6){ auto save=modelVals; 
      for(unsigned v:vs){ unsigned w=vars[v].bits; for(int t=0;t<(w==1?1:3);++t){ modelVals=save; if(w==1) modelVals[v]^=1; else if(t==0) modelVals[v]^=1; else if(t==1) modelVals[v]=(save[v]+1)&maskN(w); else modelVals[v]=0; uint64_t kn=varKnown.count(v)?varKnown[v]:0; if((modelVals[v]^save[v])&kn)continue; modelVer=++verCtr; bool ok=evalExpr(e); if(ok) for(Expr*p:pc){ if((p->supp[v>>6]>>(v&63)&1)&&!evalExpr(p)){ok=false;break;} }
        if(ok){ newModel=modelVals; modelVals=save; modelVer=++verCtr; S->quick++; return 1; } } }
      modelVals=save; modelVer=++verCtr; } }
  if(!zc) engine_error("no z3");
  while(pcAsserted<pc.size()){ Z3_solver_assert(zc,zs,toZ(pc[pcAsserted])); ++pcAsserted; }
  static int tr=-1; if(tr<0){ const char*t=getenv("SYMX_TRACEQ"); tr=t?open(t,O_WRONLY|O_CREAT|O_APPEND,0644):0; } 
  double a=now(); Z3_solver_push(zc,zs); Z3_solver_assert(zc,zs,toZ(e)); Z3_lbool r=Z3_solver_check(zc,zs); S->q++;
  int res=r==Z3_L_TRUE?1:r==Z3_L_FALSE?0:-1; if(tr>0){ char l[64]; int n=snprintf(l,64,"%p %d %.6f\n",curSite,res,now()-a); if(write(tr,l,n)){} }
  if(res==1){ Z3_model m=Z3_solver_get_model(zc,zs); Z3_model_inc_ref(zc,m); newModel=modelVals; for(size_t i=0;i<vars.size();++i){ Expr*v=mkVar(i,vars[i].bits); Z3_ast o; if(!v->z3)continue; if(!Z3_model_eval(zc,m,toZ(v),false,&o))continue; if(vars[i].bits==1){ Z3_lbool b=Z3_get_bool_value(zc,o); if(b!=Z3_L_UNDEF)newModel[i]=b==Z3_L_TRUE; } else if(Z3_get_ast_kind(zc,o)==Z3_NUMERAL_AST){ uint64_t u; if(Z3_get_numeral_uint64(zc,o,&u))newModel[i]=u; } } Z3_model_dec_ref(zc,m); }
  if(res==1){ // every model is validated against the path condition before it is used
    auto cur=modelVals; modelVals=newModel; modelVer=++verCtr; bool good=evalExpr(e); for(Expr*p:pc) if(good&&!evalExpr(p)) good=false; modelVals=cur; modelVer=++verCtr; if(!good) engine_error("solver returned a model that violates the path condition"); }
  Z3_solver_pop(zc,zs,1); S->qns+=(uint64_t)((now()-a)*1e9); if(res==1)S->qsat++; else if(res==0)S->qunsat++; else S->qunk++;
  return res; }
static void setModel(const std::vector<uint64_t>&m);
// obligations are collected along the path and discharged together (the path condition can only have grown on each
// extension, and every extension of this prefix discharges its own copy)
static std::vector<std::pair<Expr*,std::string>> pend;
static void flushChecks(){ if(pend.empty()) return; RT rt; auto todo=std::move(pend); pend.clear();
  while(!todo.empty()){ Expr*conj=mkConst(1,1); for(auto&p:todo) conj=mkAnd(conj,norm(p.first)); int r=solve(mkNot(conj)); if(r==0) return;
    if(r<0){ if(todo.size()==1){ S->obligUnk++; return; } for(auto&p:todo){ pend.clear(); pend.push_back(p); flushChecks(); } return; }
    auto cur=modelVals; setModel(newModel); decltype(todo) rest; for(auto&p:todo){ if(evalExpr(norm(p.first))) rest.push_back(p); else violation("check",p.second.c_str()); } setModel(cur); if(rest.size()==todo.size()) { engine_error("flush"); } todo=std::move(rest); } }
static void setModel(const std::vector<uint64_t>&m){ modelVals=m; modelVer=++verCtr; }
static void armTimer(){ itimerval it{}; it.it_value.tv_sec=pathTO; setitimer(ITIMER_PROF,&it,nullptr); }
// fork: returns true in the child.  In DFS mode the parent waits for the child.
static bool forkPath(){
  if(S->stop||now()-t0>budget){ S->abandoned++; if(now()-t0>budget) S->stop=1; endProc(); }
  int s=S->slots.load(); bool par=false; while(s>0){ if(S->slots.compare_exchange_weak(s,s-1)){par=true;break;} }
  ++depth_; S->forks++; S->started++; pid_t p=fork(); if(p<0){ usleep(20000); p=fork(); if(p<0) engine_error("fork failed errno %d",errno); }
  if(p==0){ isRoot=false; ownsTok=par; armTimer(); return true; }
  if(!par){ itimerval z{}; setitimer(ITIMER_PROF,&z,nullptr); int st; while(waitpid(p,&st,0)<0&&errno==EINTR){} }
  while(waitpid(-1,nullptr,WNOHANG)>0){}
  armTimer(); return false; }
// decide a boolean on this path
static bool branchOn(Expr*e){
  RT rt; e=norm(e); if(isC(e))return e->k; bool b=evalExpr(e); Expr*ne=b?mkNot(e):e; Expr*pe=b?e:mkNot(e);
  int r=solve(ne); if(r==0){ S->implied++; learn(pe,true); return b; }
  if(r<0){ S->abandoned++; addPC(pe); return b; } // other side not explored: reported as incomplete
  std::vector<uint64_t> nm=newModel;
  if(forkPath()){ setModel(nm); addPC(ne); return !b; }
  addPC(pe); return b; }
static uint64_t concretize(Expr*e){ RT rt; e=norm(e); if(isC(e))return e->k; S->concr++; for(;;){ uint64_t v=evalExpr(e); Expr*eq=mkEq(e,mkConst(v,e->bits)); eq=norm(eq); if(isC(eq)) { if(eq->k) return v; engine_error("concretize"); }
    int r=solve(mkNot(eq)); if(r==0){ addPC(eq); return v; } if(r<0){ S->abandoned++; addPC(eq); return v; }
    std::vector<uint64_t> nm=newModel; if(forkPath()){ addPC(eq); return v; } setModel(nm); addPC(mkNot(eq)); Expr*n=norm(e); if(isC(n))return n->k; } }
// ---------------------------------------------------------------- shadow memory
struct Page{ Expr* e[4096]; uint8_t i[4096]; unsigned cnt; }; static std::unordered_map<uint64_t,Page*>* pages;
static void markPage(uint64_t pg){ sx_flags[pg]=1; sx_flags[pg-1]=1; }
static inline Page* getPage(uint64_t pg){ auto it=pages->find(pg); return it==pages->end()?nullptr:it->second; }
static Expr* byteSh(uint64_t a,uint8_t&i){ Page*p=getPage(a>>12); if(!p)return nullptr; i=p->i[a&4095]; return p->e[a&4095]; }
static void setByte(uint64_t a,Expr*e,uint8_t i){ Page*p=getPage(a>>12); if(!p){ if(!e)return; p=(Page*)mmap(nullptr,sizeof(Page),PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0); (*pages)[a>>12]=p; markPage(a>>12); } p->e[a&4095]=e; p->i[a&4095]=i; }
static Expr* readMem(uint64_t a,unsigned n){ Expr*r=nullptr; // little endian; build from high to low
  unsigned i=0; std::vector<Expr*> parts; while(i<n){ uint8_t ix; Expr*e=byteSh(a+i,ix); unsigned j=i+1; if(e){ while(j<n){ uint8_t jx; Expr*f=byteSh(a+j,jx); if(f==e&&jx==ix+(j-i)&&8*(unsigned)(jx+1)<=e->bits)++j; else break; } parts.push_back(norm(mkExtract(e,8*ix,8*(j-i)))); } else { while(j<n){ uint8_t jx; if(byteSh(a+j,jx))break; ++j; } uint64_t v=0; memcpy(&v,(void*)(a+i),j-i); parts.push_back(mkConst(v,8*(j-i))); } i=j; }
  for(auto*p:parts) r=r?mkConcat(p,r):p; return r; }
static bool anySh(uint64_t a,uint64_t n){ if(!n) return false; for(uint64_t pg=a>>12;pg<=(a+n-1)>>12;++pg) if(sx_flags[pg]){ Page*p=getPage(pg); if(!p)continue; uint64_t lo=std::max(a,pg<<12),hi=std::min(a+n,(pg+1)<<12); for(uint64_t x=lo;x<hi;++x) if(p->e[x&4095])return true; } return false; }
static void clearSh(uint64_t a,uint64_t n){ if(!n) return; for(uint64_t pg=a>>12;pg<=(a+n-1)>>12;++pg) if(sx_flags[pg]){ Page*p=getPage(pg); if(!p)continue; uint64_t lo=std::max(a,pg<<12),hi=std::min(a+n,(pg+1)<<12); memset(&p->e[lo&4095],0,(hi-lo)*sizeof(Expr*)); } }
static void writeMem(uint64_t a,unsigned n,Expr*e){ if(isC(e)){ memcpy((void*)a,&e->k,n); clearSh(a,n); return; } 
  for(unsigned i=0;i<n;++i){ Expr*x=mkExtract(e,8*i,8); if(isC(x)){ *(uint8_t*)(a+i)=x->k; setByte(a+i,nullptr,0);} else setByte(a+i,e,i); } }
static void concMem(uint64_t a,uint64_t n){ for(uint64_t i=0;i<n;){ uint8_t ix; if(!(sx_flags[(a+i)>>12])){ i=(((a+i)>>12)+1<<12)-a; continue;} Expr*e=byteSh(a+i,ix); if(!e){++i;continue;} uint64_t j=i+1; while(j<n&&j<i+8){ uint8_t jx; Expr*f=byteSh(a+j,jx); if(f!=e||jx!=ix+(j-i))break; ++j; } Expr*x=readMem(a+i,j-i); uint64_t v=concretize(x); memcpy((void*)(a+i),&v,j-i); clearSh(a+i,j-i); i=j; } }
// live heap chunks
static std::map<uint64_t,uint64_t>* chunks; static uint64_t liveBytes=0; static uint64_t heapLo=~0ull,heapHi=0; static std::vector<std::pair<uint64_t,uint64_t>>* segs; static uint64_t stackHi;
static void initSegs(){ segs=new std::vector<std::pair<uint64_t,uint64_t>>(); FILE*f=fopen("/proc/self/maps","r"); char l[512]; while(fgets(l,512,f)){ unsigned long a,b; char pr[8]; char nm[300]=""; sscanf(l,"%lx-%lx %7s %*s %*s %*s %299s",&a,&b,pr,nm); if(strstr(nm,"[stack]"))stackHi=b; if(nm[0]=='/'&&pr[0]=='r') segs->push_back({a,b}); else if(pr[0]=='r'&&!nm[0]&&!segs->empty()&&segs->back().second==a) segs->back().second=b; } fclose(f); }
static bool validRange(uint64_t a,unsigned n){ auto it=chunks->upper_bound(a); if(it!=chunks->begin()){ --it; if(a>=it->first&&a+n<=it->first+it->second)return true; } char here; if(a>=(uint64_t)&here-(1<<20)&&a+n<=stackHi)return true; for(auto&s:*segs) if(a>=s.first&&a+n<=s.second)return true; return false; }
static const unsigned ADDRLIM=48;
static std::vector<std::pair<Expr*,uint64_t>> resolve(Expr*sp,unsigned n){
  std::vector<std::pair<Expr*,uint64_t>> out; sp=norm(sp); if(isC(sp)){ out.push_back({mkConst(1,1),sp->k}); return out; }
  std::vector<std::pair<Expr*,uint64_t>> cand; bool ok=treeLeaves(sp,32,[&](Expr*g,uint64_t v){cand.push_back({g,v});});
  if(!ok){ cand.clear(); // enumerate with the solver
    Expr*block=mkConst(1,1); auto m=modelVals; bool full=true; uint64_t v=evalExpr(sp); for(unsigned k=0;;++k){ Expr*g=mkEq(sp,mkConst(v,64)); cand.push_back({g,v}); block=mkAnd(block,mkNot(g)); if(k+1>=ADDRLIM){full=false;break;} int r=solve(block); if(r==0)break; if(r<0){full=false;break;} auto sv=modelVals; setModel(newModel); v=evalExpr(sp); setModel(sv); }
    if(!full){ uint64_t a=concretize(sp); cand.clear(); cand.push_back({mkConst(1,1),a}); if(!validRange(a,n)){ violation("oob","symbolic address out of bounds"); endPath(); } return cand; } }
  for(auto&c:cand){ if(validRange(c.second,n)) out.push_back(c); else { Expr*g=norm(c.first); int r=solve(g); if(r==1){ std::vector<uint64_t> nm=newModel; if(solve(mkNot(g))!=0){ // fork: violating side reported
            auto keep=newModel; if(evalExpr(g)==0) keep=modelVals; auto cur=modelVals; setModel(nm); violation("oob","symbolic address out of bounds"); setModel(cur); if(evalExpr(g)) setModel(keep); addPC(mkNot(g)); }
          else { setModel(nm); violation("oob","symbolic address out of bounds"); endPath(); } } } }
  if(out.empty()) engine_error("no valid address"); return out; }
// ---------------------------------------------------------------- instrumented-code entry points
static inline Expr* fin(Expr*e){ if(isC(e)){ sx_val=e->k; return nullptr; } return e; }
static inline Expr* X(uint64_t v,Expr*e,unsigned bits){ if(!e)return mkConst(v,bits); e=norm(e); return e; }
[[noreturn]] static void divzero(){ violation("crash","division by zero"); endPath(); _exit(0);} 
enum {LAdd=13,LSub=15,LMul=17,LUDiv=19,LSDiv=20,LURem=22,LSRem=23,LShl=25,LLShr=26,LAShr=27,LAnd=28,LOr=29,LXor=30};
extern "C" {
Expr* sx_bin(unsigned op,unsigned bits,uint64_t a,Expr*ea,uint64_t b,Expr*eb){ RT rt; Expr*x=X(a,ea,bits),*y=X(b,eb,bits); 
  switch(op){ case LAdd:return fin(mkAdd(x,y)); case LSub:return fin(mkSub(x,y)); case LMul:return fin(mkMul(x,y)); case LShl:return fin(mkShift(OShl,x,y)); case LLShr:return fin(mkShift(OLShr,x,y)); case LAShr:return fin(mkShift(OAShr,x,y)); case LAnd:return fin(mkAnd(x,y)); case LOr:return fin(mkOr(x,y)); case LXor:return fin(mkXor(x,y));
    case LUDiv: case LSDiv: case LURem: case LSRem: { if(!branchOn(mkNot(mkEq(y,mkConst(0,bits))))) divzero(); y=norm(y); x=norm(x); return fin(mkDiv(op==LUDiv?OUDiv:op==LSDiv?OSDiv:op==LURem?OURem:OSRem,x,y)); } }
  engine_error("binop %u",op); return nullptr; }
static Expr* cmpE(unsigned p,Expr*x,Expr*y){ switch(p){ case 32:return mkEq(x,y); case 33:return mkNot(mkEq(x,y)); case 34:return mkUlt(y,x); case 35:return mkUle(y,x); case 36:return mkUlt(x,y); case 37:return mkUle(x,y); case 38:return mkSlt(y,x); case 39:return mkSle(y,x); case 40:return mkSlt(x,y); case 41:return mkSle(x,y);} engine_error("pred"); return nullptr; }
Expr* sx_cmp(unsigned p,unsigned bits,uint64_t a,Expr*ea,uint64_t b,Expr*eb){ RT rt; return fin(cmpE(p,X(a,ea,bits),X(b,eb,bits))); }
Expr* sx_cast(unsigned code,unsigned fb,unsigned tb,Expr*e){ RT rt; e=norm(e); return fin(tb<fb?mkExtract(e,0,tb):code?mkSExt(e,tb):mkZExt(e,tb)); }
Expr* sx_select(unsigned bits,uint64_t c,Expr*ec,uint64_t t,Expr*et,uint64_t f,Expr*ef){ RT rt; Expr*C=X(c,ec,1); return fin(mkIte(C,X(t,et,bits),X(f,ef,bits))); }
uint64_t sx_branch(Expr*e){ curSite=__builtin_return_address(0); uint64_t r=branchOn(e); curSite=nullptr; return r; }
uint64_t sx_conc(Expr*e,uint64_t v){ return e?concretize(e):v; }
Expr* sx_load(uint64_t p,Expr*sp,unsigned n,unsigned bits){ RT rt; Expr*r;
  if(sp&&(sp=norm(sp),!isC(sp))){ auto as=resolve(sp,n); r=nullptr; for(size_t i=as.size();i-->0;){ Expr*v=readMem(as[i].second,n); r=r?mkIte(as[i].first,v,r):v; } }
  else { if(sp)p=sp->k; r=readMem(p,n); }
  if(!bits){ sx_val=concretize(r); return nullptr; }
  if(bits<8*n) r=mkExtract(r,0,bits); return fin(r); }
void sx_store(uint64_t p,Expr*sp,uint64_t v,Expr*sv,unsigned n){ RT rt; Expr*e=sv?norm(sv):mkConst(v,8*n); if(e->bits<8*n)e=mkZExt(e,8*n);
  if(sp&&(sp=norm(sp),!isC(sp))){ auto as=resolve(sp,n); for(auto&a:as){ Expr*old=readMem(a.second,n); writeMem(a.second,n,mkIte(a.first,e,old)); } return; }
  if(sp)p=sp->k; writeMem(p,n,e); }
Expr* sx_gep(uint64_t b,Expr*eb,uint64_t i,Expr*ei,unsigned ib,uint64_t sc,uint64_t off){ RT rt; Expr*B=X(b,eb,64); Expr*I=ei?mkSExt(norm(ei),64):mkConst(i,64); if(ei&&ei->bits!=ib&&ei->bits<64) I=mkSExt(norm(ei),64); Expr*r=mkAdd(mkAdd(B,mkConst(off,64)),mkMul(I,mkConst(sc,64))); if(isC(r)){sx_val=r->k;return nullptr;} return r; }
uint64_t sx_fix(uint64_t p,Expr*sp,uint64_t n){ RT rt; if(sp)p=concretize(sp); if(anySh(p,n)) concMem(p,n); return p; }
void sx_clear(uint64_t p,uint64_t n){ clearSh(p,n); }
static void copySh(uint64_t d,uint64_t s,uint64_t n){ // shadow only; overlapping safe
  bool ss=anySh(s,n); if(!ss){ clearSh(d,n); return; } std::vector<std::pair<Expr*,uint8_t>> t(n); for(uint64_t i=0;i<n;++i){ uint8_t ix=0; t[i].first=byteSh(s+i,ix); t[i].second=ix; } for(uint64_t i=0;i<n;++i) setByte(d+i,t[i].first,t[i].second); }
void sx_memmove(uint64_t d,Expr*sd,uint64_t s,Expr*ss,uint64_t n,Expr*sn){ RT rt; if(sn)n=concretize(sn); 
  if((sd&&!isC(norm(sd)))||(ss&&!isC(norm(ss)))){ if(n<=64&&n){ // element-wise with symbolic addresses
      std::vector<Expr*> tmp; Expr*D=sd?norm(sd):mkConst(d,64),*Sx=ss?norm(ss):mkConst(s,64); std::vector<std::pair<unsigned,unsigned>> pc_; for(unsigned o=0;o<n;){ unsigned w=n-o>=8?8:n-o>=4?4:n-o>=2?2:1; pc_.push_back({o,w}); o+=w; }
      auto sr=resolve(Sx,n); for(auto&c:pc_){ Expr*r=nullptr; for(size_t i=sr.size();i-->0;){ Expr*v=readMem(sr[i].second+c.first,c.second); r=r?mkIte(sr[i].first,v,r):v; } tmp.push_back(r); }
      auto dr=resolve(D,n); for(auto&a:dr) for(size_t k=0;k<pc_.size();++k){ Expr*v=tmp[k]; if(!isC(a.first)) v=mkIte(a.first,v,readMem(a.second+pc_[k].first,pc_[k].second)); writeMem(a.second+pc_[k].first,pc_[k].second,v); } return; }
  }
  if(sd)d=concretize(sd); if(ss)s=concretize(ss); if(!n) return; --inRT; memmove((void*)d,(void*)s,n); ++inRT; copySh(d,s,n); }
void sx_memset(uint64_t d,Expr*sd,uint64_t v,Expr*sv,uint64_t n,Expr*sn){ RT rt; if(sd)d=concretize(sd); if(sn)n=concretize(sn); if(!n)return; if(sv){ Expr*e=norm(sv); if(e->bits>8)e=mkExtract(e,0,8); for(uint64_t i=0;i<n;++i) writeMem(d+i,1,e); return; } --inRT; memset((void*)d,(int)v,n); ++inRT; clearSh(d,n); }
static Expr* popc(Expr*x){ unsigned n=x->bits; Expr*r=mkConst(0,n); for(unsigned i=0;i<n;++i){ Expr*b=mkExtract(x,i,1); if(isC(b)){ if(b->k) r=mkAdd(r,mkConst(1,n)); continue; } r=mkAdd(r,mkZExt(b,n)); } return r; }
Expr* sx_intr(unsigned code,unsigned bits,uint64_t a,Expr*ea,uint64_t b,Expr*eb,uint64_t c,Expr*ec){ RT rt; Expr*x=X(a,ea,bits); Expr*y=X(b,eb,(code==5||code==6||code==8)?1:bits),*z=X(c,ec,bits);
  switch(code){ case 0:return fin(mkIte(mkUlt(x,y),x,y)); case 1:return fin(mkIte(mkUlt(x,y),y,x)); case 2:return fin(mkIte(mkSlt(x,y),x,y)); case 3:return fin(mkIte(mkSlt(x,y),y,x));
    case 4: if(bits==1) return fin(x); return fin(popc(x));
    case 5:{ Expr*r=mkConst(bits,bits); for(unsigned i=0;i<bits;++i) r=mkIte(mkExtract(x,i,1),mkConst(bits-1-i,bits),r); return fin(r);} 
    case 6:{ Expr*r=mkConst(bits,bits); for(unsigned i=bits;i-->0;) r=mkIte(mkExtract(x,i,1),mkConst(i,bits),r); return fin(r);} 
    case 7:{ Expr*r=nullptr; for(unsigned i=0;i<bits/8;++i){ Expr*p=mkExtract(x,8*i,8); r=r?mkConcat(r,p):p; } return fin(r);} 
    case 8: return fin(mkIte(mkSlt(x,mkConst(0,bits)),mkSub(mkConst(0,bits),x),x));
    case 9: case 10:{ if(!isC(z)) z=mkConst(concretize(z),bits); unsigned s=z->k%bits; x=norm(x);y=norm(y); if(code==9){ if(!s)return fin(x); return fin(mkConcat(mkExtract(x,0,bits-s),mkExtract(y,bits-s,s))); } if(!s)return fin(y); return fin(mkConcat(mkExtract(x,0,s),mkExtract(y,s,bits-s))); }
    case 11: return fin(mkIte(mkUlt(x,y),mkConst(0,bits),mkSub(x,y)));
    case 12:{ Expr*s=mkAdd(x,y); return fin(mkIte(mkUlt(s,x),mkConst(~0ull,bits),s)); }
    case 15:{ Expr*r=nullptr; for(unsigned i=0;i<bits;++i){ Expr*p=mkExtract(x,i,1); r=r?mkConcat(r,p):p; } return fin(r);} 
  } engine_error("intrinsic %u",code); return nullptr; }
Expr* sx_ovf(unsigned code,unsigned bits,uint64_t a,Expr*ea,uint64_t b,Expr*eb){ RT rt; Expr*x=X(a,ea,bits),*y=X(b,eb,bits); bool flag=code>=8; code&=7;
  if(!flag) return fin(code==0||code==3?mkAdd(x,y):code==1||code==4?mkSub(x,y):mkMul(x,y));
  switch(code){ case 0:return fin(mkUlt(mkAdd(x,y),x)); case 1:return fin(mkUlt(x,y));
    case 2: { if(bits<=32){ Expr*p=mkMul(mkZExt(x,2*bits),mkZExt(y,2*bits)); return fin(mkNot(mkEq(mkExtract(p,bits,bits),mkConst(0,bits)))); } if(isC(x))std::swap(x,y); if(!isC(y)) y=mkConst(concretize(y),bits); x=norm(x); if(!y->k){sx_val=0;return nullptr;} return fin(mkUlt(mkConst(maskN(bits)/y->k,bits),x)); }
    case 3: case 4: { if(bits<64){ Expr*s=code==3?mkAdd(mkSExt(x,bits+1),mkSExt(y,bits+1)):mkSub(mkSExt(x,bits+1),mkSExt(y,bits+1)); return fin(mkXor(mkExtract(s,bits,1),mkExtract(s,bits-1,1))); } Expr*r=code==3?mkAdd(x,y):mkSub(x,y); Expr*sx_=mkExtract(x,63,1),*sy=mkExtract(y,63,1),*sr=mkExtract(r,63,1); if(code==3) return fin(mkAnd(mkNot(mkXor(sx_,sy)),mkXor(sx_,sr))); return fin(mkAnd(mkXor(sx_,sy),mkXor(sx_,sr))); }
    case 5: { if(bits<=32){ Expr*p=mkMul(mkSExt(x,2*bits),mkSExt(y,2*bits)); return fin(mkNot(mkEq(mkSExt(mkExtract(p,0,bits),2*bits),p))); } engine_error("smul64 ovf"); } }
  return nullptr; }
void sx_extptr(uint64_t p,const char*name){ RT rt; uint64_t n=256; auto it=chunks->upper_bound(p); if(it!=chunks->begin()){ --it; if(p<it->first+it->second) n=std::min<uint64_t>(4096,it->first+it->second-p); else n=64; }
  static const char*const cstr[]={"_fileIcE4open","fopen","unlink","remove","access","getenv"}; for(auto*c:cstr) if(strstr(name,c)) n=std::min<uint64_t>(n,strnlen((const char*)p,n)+1);  // C strings: nothing behind the terminator is read
  if(anySh(p,n)){ lockS(); bool f=false; for(int i=0;i<S->next;++i) if(!strncmp(S->ext[i],name,63))f=true; if(!f&&S->next<64){ strncpy(S->ext[S->next],name,63); S->next++; } unlockS(); concMem(p,n);} }
void sx_indchk(uint64_t n){ for(uint64_t i=0;i<n;++i) if(sx_args[i]&&!isC(norm(sx_args[i]))) engine_error("indirect call to uninstrumented function with symbolic argument %lu",(unsigned long)i); }
// ---------------------------------------------------------------- library models
static uint64_t A(int i,uint64_t v){ Expr*e=sx_args[i]; sx_args[i]=nullptr; return e?concretize(e):v; }
static void* regChunk(void*p,uint64_t n){ if(p){ RT rt; (*chunks)[(uint64_t)p]=n; liveBytes+=n; clearSh((uint64_t)p,n); if(liveBytes>(3ull<<30)){ violation("hang","memory blow-up (>3GB live)"); endPath(); } } return p; }
static void unreg(void*p){ if(!p)return; RT rt; auto it=chunks->find((uint64_t)p); if(it!=chunks->end()){ liveBytes-=it->second; clearSh((uint64_t)p,it->second); chunks->erase(it);} }
static bool tooBig(uint64_t n){ return n>(2ull<<30); }
void* sxm_malloc(uint64_t n){ n=A(0,n); if(tooBig(n))return nullptr; return regChunk(malloc(n),n); }
void* sxm_calloc(uint64_t a,uint64_t b){ a=A(0,a);b=A(1,b); if(tooBig(a*b))return nullptr; return regChunk(calloc(a,b),a*b); }
void sxm_free(void*p){ p=(void*)A(0,(uint64_t)p); unreg(p); free(p); }
void* sxm_realloc(void*p,uint64_t n){ p=(void*)A(0,(uint64_t)p); n=A(1,n); if(tooBig(n))return nullptr; uint64_t o=0; if(p){auto it=chunks->find((uint64_t)p); if(it!=chunks->end())o=it->second; else o=malloc_usable_size(p);} void*q=malloc(n); regChunk(q,n); if(p){ uint64_t m=std::min(o,n); memcpy(q,p,m); RT rt; copySh((uint64_t)q,(uint64_t)p,m); unreg(p); free(p);} return q; }
static void* newImpl(uint64_t n){ if(tooBig(n)) throw std::bad_alloc(); void*p=malloc(n?n:1); return regChunk(p,n?n:1); }
void* sxm__Znwm(uint64_t n){ n=A(0,n); return newImpl(n);} void* sxm__Znam(uint64_t n){ n=A(0,n); return newImpl(n);} 
void* sxm__ZnwmRKSt9nothrow_t(uint64_t n,void*){ n=A(0,n); if(tooBig(n))return nullptr; return newImpl(n);} void* sxm__ZnamRKSt9nothrow_t(uint64_t n,void*){ n=A(0,n); if(tooBig(n))return nullptr; return newImpl(n);} 
void* sxm__ZnwmSt11align_val_t(uint64_t n,uint64_t al){ n=A(0,n); if(tooBig(n)) throw std::bad_alloc(); return regChunk(aligned_alloc(al,(n+al-1)/al*al),n);} void* sxm_aligned_alloc(uint64_t al,uint64_t n){ n=A(1,n); if(tooBig(n))return nullptr; return regChunk(aligned_alloc(al,n),n);} 
int sxm_posix_memalign(void**pp,uint64_t al,uint64_t n){ n=A(2,n); int r=posix_memalign(pp,al,n); if(!r)regChunk(*pp,n); return r; }
static void del(void*p){ p=(void*)A(0,(uint64_t)p); unreg(p); free(p);} 
void sxm__ZdlPv(void*p){del(p);} void sxm__ZdaPv(void*p){del(p);} void sxm__ZdlPvm(void*p,uint64_t){del(p);} void sxm__ZdaPvm(void*p,uint64_t){del(p);} void sxm__ZdlPvSt11align_val_t(void*p,uint64_t){del(p);} void sxm__ZdlPvmSt11align_val_t(void*p,uint64_t,uint64_t){del(p);} 
static void retE(Expr*e,unsigned bits,void*fn){ (void)bits; e=norm(e); if(isC(e)){ sx_val=e->k; } sx_ret[0]=isC(e)?nullptr:e; sx_rettok=fn; }
static uint64_t cmpMem(uint64_t a,uint64_t b,uint64_t n,void*fn,bool eqOnly){ if(!n)return 0; if(!anySh(a,n)&&!anySh(b,n)) return (uint64_t)(int64_t)memcmp((void*)a,(void*)b,n); RT rt;
  Expr*r=mkConst(0,32); for(uint64_t i=n;i-->0;){ Expr*x=readMem(a+i,1),*y=readMem(b+i,1); r=mkIte(mkEq(x,y),r,eqOnly?mkConst(1,32):mkIte(mkUlt(x,y),mkConst(~0ull,32),mkConst(1,32))); } r=norm(r); if(isC(r))return (uint64_t)(int64_t)(int32_t)r->k; retE(r,32,fn); return 0; }
int sxm_memcmp(void*a,void*b,uint64_t n){ a=(void*)A(0,(uint64_t)a);b=(void*)A(1,(uint64_t)b);n=A(2,n); return (int)cmpMem((uint64_t)a,(uint64_t)b,n,(void*)sxm_memcmp,false);} 
uint64_t _ZSt11_Hash_bytesPKvmm(const void*,uint64_t,uint64_t);
uint64_t sxm__ZSt11_Hash_bytesPKvmm(void*p,uint64_t n,uint64_t seed){ p=(void*)A(0,(uint64_t)p); n=A(1,n); seed=A(2,seed); concMem((uint64_t)p,n); return _ZSt11_Hash_bytesPKvmm(p,n,seed); }
int sxm_bcmp(void*a,void*b,uint64_t n){ a=(void*)A(0,(uint64_t)a);b=(void*)A(1,(uint64_t)b);n=A(2,n); return (int)cmpMem((uint64_t)a,(uint64_t)b,n,(void*)sxm_bcmp,true);} 
static bool byteIs(uint64_t a,uint8_t c){ uint8_t ix; if(!sx_flags[a>>12]||!byteSh(a,ix)) return *(uint8_t*)a==c; return branchOn(mkEq(readMem(a,1),mkConst(c,8))); }
uint64_t sxm_strlen(char*p){ p=(char*)A(0,(uint64_t)p); uint64_t n=0; while(!byteIs((uint64_t)p+n,0))++n; return n; }
void* sxm_memchr(void*p,int c,uint64_t n){ p=(void*)A(0,(uint64_t)p); c=(int)A(1,c); n=A(2,n); for(uint64_t i=0;i<n;++i) if(byteIs((uint64_t)p+i,(uint8_t)c)) return (char*)p+i; return nullptr; }
char* sxm_strchr(char*p,int c){ p=(char*)A(0,(uint64_t)p); c=(int)A(1,c); for(;;++p){ if(byteIs((uint64_t)p,(uint8_t)c))return p; if(byteIs((uint64_t)p,0))return nullptr; } }
static int strcmpN(char*a,char*b,uint64_t n){ for(uint64_t i=0;i<n;++i){ uint64_t x=sx_fix((uint64_t)a+i,nullptr,1),y=sx_fix((uint64_t)b+i,nullptr,1); uint8_t u=*(uint8_t*)x,v=*(uint8_t*)y; if(u!=v)return u<v?-1:1; if(!u)return 0; } return 0; }
int sxm_strcmp(char*a,char*b){ a=(char*)A(0,(uint64_t)a);b=(char*)A(1,(uint64_t)b); return strcmpN(a,b,~0ull);} int sxm_strncmp(char*a,char*b,uint64_t n){ a=(char*)A(0,(uint64_t)a);b=(char*)A(1,(uint64_t)b);n=A(2,n); return strcmpN(a,b,n);} 
void* sxm_memcpy(void*d,void*s,uint64_t n){ Expr*e0=sx_args[0],*e1=sx_args[1],*e2=sx_args[2]; if(e0)d=(void*)concretize(e0); sx_memmove((uint64_t)d,nullptr,(uint64_t)s,e1,n,e2); return d;} void* sxm_memmove(void*d,void*s,uint64_t n){ return sxm_memcpy(d,s,n);} 
void* sxm_memset(void*d,int c,uint64_t n){ Expr*e0=sx_args[0],*e1=sx_args[1],*e2=sx_args[2]; if(e0)d=(void*)concretize(e0); sx_memset((uint64_t)d,nullptr,c,e1,n,e2); return d;} 
char* sxm_strcpy(char*d,char*s){ sx_args[0]=sx_args[0]; uint64_t dd=A(0,(uint64_t)d); uint64_t ss=A(1,(uint64_t)s); uint64_t n=0; while(!byteIs(ss+n,0))++n; sx_memmove(dd,nullptr,ss,nullptr,n+1,nullptr); return (char*)dd; }
char* sxm_strncpy(char*d,char*s,uint64_t k){ uint64_t dd=A(0,(uint64_t)d),ss=A(1,(uint64_t)s); k=A(2,k); uint64_t n=0; while(n<k&&!byteIs(ss+n,0))++n; sx_memmove(dd,nullptr,ss,nullptr,n,nullptr); if(n<k) sx_memset(dd+n,nullptr,0,nullptr,k-n,nullptr); return (char*)dd; }
// ---------------------------------------------------------------- harness API
static std::map<std::string,int>* occ; struct Obs{std::string n; Expr*e; uint64_t v;}; static std::vector<Obs>* obs;
static Expr* newVar(const char*name,unsigned bits){ RT rt; std::string n=name; int k=(*occ)[n]++; if(k) n+="#"+std::to_string(k); uint64_t i=vars.size(); vars.push_back({n,bits}); modelVals.push_back(0); return mkVar(i,bits); }
uint64_t sym_bits(const char*name,unsigned bits){ Expr*v=newVar(name,bits); if(bits<64)v=mkZExt(v,64); retE(v,64,(void*)sym_bits); return 0; }
uint64_t sym_choice(const char*name,uint64_t n){ if(n<=1){ newVar(name,1); addPC(mkNot(mkVar(vars.size()-1,1))); return 0; } unsigned bits=64-__builtin_clzll(n-1); Expr*v=newVar(name,bits); RT rt; uint64_t id=vars.size()-1;
  // a fresh variable: every value in range is feasible, so split the range by forking without asking the solver
  uint64_t lo=0,hi=n; while(hi-lo>1){ uint64_t mid=lo+(hi-lo)/2; if(forkPath()) lo=mid; else hi=mid; } auto m=modelVals; m[id]=lo; setModel(m); addPC(mkEq(v,mkConst(lo,bits))); return lo; }
uint64_t sym_concretize(uint64_t v){ return A(0,v); }
void sym_drop(){ flushChecks(); S->assumed++; endProc(); }
static Expr* boolArg(bool c){ Expr*e=sx_args[0]; if(!e) return mkConst(c?1:0,1); e=norm(e); if(e->bits>1) e=mkExtract(e,0,1); return e; }
void sym_assume(bool c){ RT rt; Expr*e=boolArg(c); if(isC(e)){ if(!e->k) sym_drop(); return; } flushChecks();
  if(evalExpr(e)){ addPC(e); return; } int r=solve(e); if(r==0) sym_drop(); if(r<0){ S->abandoned++; endProc(); } auto m=newModel; setModel(m); addPC(e); }
void sym_check(bool c,const char*label){ RT rt; S->checks++; Expr*e=boolArg(c); if(isC(e)){ if(!e->k){ violation("check",label); endPath(); } return; }
  S->checksSym++; for(auto&p:pend) if(p.first==e) return; pend.push_back({e,label}); }
void sym_cover(const char*l){ for(int i=0;;++i){ if(i>=64)return; if(i>=S->ncover){ lockS(); if(i>=S->ncover){ strncpy(S->cover[i].n,l,63); S->ncover=i+1; } unlockS(); } if(!strncmp(S->cover[i].n,l,63)){ S->cover[i].c++; return; } } }
void sym_observe(const char*n,uint64_t v){ RT rt; obs->push_back({n,sx_args[1],v}); }
void sym_note(const char*t){ snprintf(noteBuf,sizeof noteBuf,"%s",t); }
int sym_is_symbolic(){ return 1; } uint64_t sym_seed(){return seedV;} int sym_thorough(){return thoroughV;} 
void sym_path_timeout(unsigned s){ pathTO=s; armTimer(); }
}
void writeResult(){ FILE*f=fopen(outFile,"w"); auto esc=[&](const char*s){ std::string o; for(;*s;++s){ if(*s=='"'||*s=='\\'){o+='\\';o+=*s;} else if(*s=='\n')o+="\\n"; else if((unsigned char)*s<32||(unsigned char)*s>126){char b[8];snprintf(b,8,"\\u%04x",(unsigned char)*s);o+=b;} else o+=*s; } return o; };
  fprintf(f,"{\"paths\":%lu,\"forks\":%lu,\"started\":%lu,\"procs\":%lu,\"assumed\":%lu,\"checks\":%lu,\"checks_symbolic\":%lu,\"queries\":%lu,\"sat\":%lu,\"unsat\":%lu,\"unknown\":%lu,\"solver_s\":%.3f,\"quick_sat\":%lu,\"implied\":%lu,\"concretizations\":%lu,\"abandoned\":%lu,\"solver_timeouts\":%lu,\"oblig_unknown\":%lu,\"engine_errors\":%lu,\"engine_msg\":\"%s\",\"maxdepth\":%lu,\"nviol\":%lu,\"wall_s\":%.3f,\"stopped\":%d,\n\"violations\":[",S->paths.load(),S->forks.load(),S->started.load(),S->procs.load(),S->assumed.load(),S->checks.load(),S->checksSym.load(),S->q.load(),S->qsat.load(),S->qunsat.load(),S->qunk.load(),S->qns.load()*1e-9,S->quick.load(),S->implied.load(),S->concr.load(),S->abandoned.load(),S->solvertime_fail.load(),S->obligUnk.load(),S->engerr.load(),esc(S->engmsg).c_str(),S->maxdepth.load(),S->nviol.load(),now()-t0,S->stop.load());
  bool first=true; for(auto&v:S->viol) if(v.kind[0]){ fprintf(f,"%s\n{\"kind\":\"%s\",\"label\":\"%s\",\"note\":\"%s\",\"model\":\"%s\"}",first?"":",",v.kind,esc(v.label).c_str(),esc(v.note).c_str(),esc(v.model).c_str()); first=false; }
  fprintf(f,"],\n\"cover\":{"); for(int i=0;i<S->ncover;++i) fprintf(f,"%s\"%s\":%lu",i?",":"",esc(S->cover[i].n).c_str(),S->cover[i].c.load()); fprintf(f,"},\n\"extptr\":["); for(int i=0;i<S->next;++i) fprintf(f,"%s\"%s\"",i?",":"",S->ext[i]); fprintf(f,"],\n\"samples\":["); first=true; for(auto&s:S->samples) if(s[0]){ fprintf(f,"%s\n\"%s\"",first?"":",",esc(s).c_str()); first=false; } fprintf(f,"]}\n"); fclose(f); }
static void finishPath(){ ++inRT; uint64_t p=S->paths.load(); uint64_t cap=48; if((p<8||(p<512&&p%32==0)||p%2048==0)&&S->nsamp<cap){ uint64_t i=S->nsamp++; if(i<cap){ std::string t; char b[3000]; 
      // an arbitrary model of the path: prefer ones
      dumpModel(b,1800); t=b; for(auto&o:*obs){ uint64_t v=o.e?evalExpr(norm(o.e)):o.v; char l[160]; snprintf(l,160,"@%s=%llu\n",o.n.c_str(),(unsigned long long)v); if(t.size()+strlen(l)>2900)break; t+=l; } lockS(); snprintf(S->samples[i],3000,"%s",t.c_str()); unlockS(); } }
  endPath(); }
__attribute__((constructor(101))) static void init0(){ sx_flags=(uint8_t*)mmap(nullptr,1ull<<35,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); if(sx_flags==MAP_FAILED){perror("mmap");_exit(9);} pages=new std::unordered_map<uint64_t,Page*>(); chunks=new std::map<uint64_t,uint64_t>(); occ=new std::map<std::string,int>(); obs=new std::vector<Obs>();
  S=(Shared*)mmap(nullptr,sizeof(Shared),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); }
int main(int argc,char**argv){ // harness outfile jobs budget seed tier
  runHarness=argv[1]; outFile=argv[2]; int jobs=argc>3?atoi(argv[3]):8; if(argc>4)budget=atof(argv[4]); if(argc>5)seedV=strtoull(argv[5],0,10); if(argc>6)thoroughV=atoi(argv[6]); if(getenv("SYMX_RLIMIT"))rlimitQ=strtoul(getenv("SYMX_RLIMIT"),0,10); else rlimitQ=400000000ul; if(getenv("SYMX_MAXVIOL"))maxViol=atoi(getenv("SYMX_MAXVIOL"));
  prctl(PR_SET_CHILD_SUBREAPER,1); prctl(PR_SET_THP_DISABLE,1,0,0,0);
  Z3_config cfg=Z3_mk_config(); zc=Z3_mk_context(cfg); Z3_set_error_handler(zc,z3err); const char*zm=getenv("SYMX_SOLVER"); zs=(zm&&!strcmp(zm,"bv"))?Z3_mk_solver_for_logic(zc,Z3_mk_string_symbol(zc,"QF_BV")):Z3_mk_simple_solver(zc); Z3_solver_inc_ref(zc,zs); Z3_params ps=Z3_mk_params(zc); Z3_params_inc_ref(zc,ps); Z3_params_set_uint(zc,ps,Z3_mk_string_symbol(zc,"rlimit"),(unsigned)std::min(rlimitQ,4000000000ul)); Z3_solver_set_params(zc,zs,ps);
  initSegs(); stack_t ss{}; ss.ss_size=1<<18; ss.ss_sp=malloc(ss.ss_size); sigaltstack(&ss,nullptr); struct sigaction sa{}; sa.sa_sigaction=onSig; sa.sa_flags=SA_ONSTACK|SA_SIGINFO; for(int s:{SIGSEGV,SIGBUS,SIGFPE,SIGILL,SIGABRT,SIGPROF}) sigaction(s,&sa,nullptr);
  struct rlimit rl{0,0}; setrlimit(RLIMIT_CORE,&rl);
  S->slots=jobs-1; t0=now(); S->started=1; int dn=open("/dev/null",O_WRONLY); if(!getenv("SYMX_STDOUT")) { dup2(dn,1); if(!getenv("SYMX_STDERR")) dup2(dn,2);} armTimer();
  atexit([]{ ++inRT; violation("exit","exit() called"); endPath(); });
  sym_main(argv[1]); finishPath(); }
