#include "expr.h"
#include <cstdlib>
#include <cstring>
#include <sys/mman.h>
#include <unordered_map>
uint64_t fixedVars[4]; std::vector<uint64_t> modelVals; uint32_t modelVer=1; uint64_t nExprs=0;
static Expr** tab=nullptr; static size_t tabN=0;
static char* arena=nullptr; static size_t arenaLeft=0;
static Expr* alloc(){ if(arenaLeft<sizeof(Expr)){ size_t n=1<<20; arena=(char*)mmap(nullptr,n,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0); arenaLeft=n; } Expr*e=(Expr*)arena; arena+=sizeof(Expr); arenaLeft-=sizeof(Expr); return e; }
static void grow(){ size_t n=tabN?tabN*2:(1<<14); Expr**t=(Expr**)calloc(n,sizeof(Expr*)); for(size_t i=0;i<tabN;++i) for(Expr*e=tab[i];e;){Expr*x=e->next; size_t h=e->hash&(n-1); e->next=t[h]; t[h]=e; e=x;} free(tab); tab=t; tabN=n; }
static inline int64_t sx(uint64_t v,unsigned b){ return b>=64?(int64_t)v:(int64_t)(v<<(64-b))>>(64-b); }
static uint64_t ev(Op op,unsigned bits,uint64_t a,uint64_t b,unsigned ab){ // bits: result width, ab: operand width
  uint64_t m=maskN(bits); switch(op){
    case OAdd:return (a+b)&m; case OSub:return (a-b)&m; case OMul:return (a*b)&m; case OAnd:return a&b; case OOr:return a|b; case OXor:return a^b; case ONot:return ~a&m;
    case OUDiv:return b?a/b:m; case OURem:return b?a%b:a; 
    case OSDiv:{ int64_t x=sx(a,ab),y=sx(b,ab); if(!y) return x<0?1:m; if(y==-1) return (-(uint64_t)x)&m; return (uint64_t)(x/y)&m; }
    case OSRem:{ int64_t x=sx(a,ab),y=sx(b,ab); if(!y) return a; if(y==-1) return 0; return (uint64_t)(x%y)&m; }
    case OShl:return b>=bits?0:(a<<b)&m; case OLShr:return b>=bits?0:a>>b; case OAShr:{int64_t x=sx(a,ab); return (uint64_t)(x>>(b>=bits?bits-1:b))&m;}
    case OEq:return a==b; case OUlt:return a<b; case OUle:return a<=b; case OSlt:return sx(a,ab)<sx(b,ab); case OSle:return sx(a,ab)<=sx(b,ab);
    default:abort(); } }
static Expr* mk(Op op,unsigned bits,Expr*a,Expr*b,Expr*c,uint64_t k){
  uint64_t h=op*0x9E3779B97F4A7C15ull^bits*0xD6E8FEB86659FD93ull; auto mix=[&](uint64_t x){h^=x;h*=0xff51afd7ed558ccdull;h^=h>>32;}; mix(a?a->id+1:0);mix(b?b->id+1:0);mix(c?c->id+1:0);mix(k);
  if(nExprs*2>=tabN) grow();
  uint32_t hh=(uint32_t)h; for(Expr*e=tab[hh&(tabN-1)];e;e=e->next) if(e->hash==hh&&e->op==op&&e->bits==bits&&e->a==a&&e->b==b&&e->c==c&&e->k==k) return e;
  Expr*e=alloc(); e->op=op;e->bits=bits;e->a=a;e->b=b;e->c=c;e->k=k;e->hash=hh;e->id=nExprs++;e->z3=nullptr;e->evalver=0;e->kz=e->ko=0;e->leaves=0;e->isTree=0;
  for(int i=0;i<4;++i) e->supp[i]=(a?a->supp[i]:0)|(b?b->supp[i]:0)|(c?c->supp[i]:0);
  uint64_t m=maskN(bits);
  switch(op){
    case OConst: e->ko=k;e->kz=~k&m; e->leaves=1; break;
    case OVar: { unsigned s=suppBit(k); e->supp[s>>6]|=1ull<<(s&63); break; }
    case OExtract: e->ko=(a->ko>>k)&m; e->kz=(a->kz>>k)&m; break;
    case OConcat: e->ko=((a->ko<<b->bits)|b->ko)&m; e->kz=((a->kz<<b->bits)|b->kz)&m; break;
    case OSExt: { uint64_t s=1ull<<(a->bits-1); e->ko=a->ko;e->kz=a->kz; uint64_t up=m&~maskN(a->bits); if(a->ko&s)e->ko|=up; else if(a->kz&s)e->kz|=up; break; }
    case OAnd: e->ko=a->ko&b->ko; e->kz=a->kz|b->kz; break;
    case OOr: e->ko=a->ko|b->ko; e->kz=a->kz&b->kz; break;
    case OXor: e->ko=(a->ko&b->kz)|(a->kz&b->ko); e->kz=(a->kz&b->kz)|(a->ko&b->ko); break;
    case ONot: e->ko=a->kz;e->kz=a->ko; break;
    case OIte: e->ko=b->ko&c->ko; e->kz=b->kz&c->kz; if(b->leaves&&c->leaves&&b->leaves+c->leaves<=64) e->leaves=b->leaves+c->leaves; break;
    case OAdd: case OSub: case OMul: { // trailing known bits, and leading zeros for add
      uint64_t ka=a->kz|a->ko,kb=b->kz|b->ko; uint64_t both=ka&kb; unsigned t=__builtin_ctzll(~both|(bits>=64?0:1ull<<bits)); if(~both==0)t=64; if(t>bits)t=bits;
      if(t){ uint64_t lm=maskN(t); uint64_t v=ev(op,bits,a->ko,b->ko,bits)&lm; e->ko|=v; e->kz|=~v&lm; }
      if(op==OMul){ unsigned z=0; unsigned za=(~a->kz)?__builtin_ctzll(~a->kz):64, zb=(~b->kz)?__builtin_ctzll(~b->kz):64; z=za+zb; if(z>bits)z=bits; e->kz|=maskN(z)&m; e->ko&=~maskN(z); }
      if(op==OAdd){ uint64_t ma=~a->kz&m,mb=~b->kz&m; unsigned __int128 s=(unsigned __int128)ma+mb; if(s<=m){ uint64_t sv=(uint64_t)s; unsigned w=sv?64-__builtin_clzll(sv):0; e->kz|=m&~maskN(w); } }
      break; }
    case OLShr: { uint64_t ma=~a->kz&m; unsigned w=ma?64-__builtin_clzll(ma):0; e->kz|=m&~maskN(w); break; }
    case OURem: if(isC(b)&&b->k){ unsigned w=64-__builtin_clzll(b->k); e->kz|=m&~maskN(w);} break;
    case OUDiv: { uint64_t ma=~a->kz&m; unsigned w=ma?64-__builtin_clzll(ma):0; if(!(isC(b)&&b->k==0)&&isC(b)) e->kz|=m&~maskN(w); break; }
    default: break; }
  e->next=tab[hh&(tabN-1)]; tab[hh&(tabN-1)]=e; return e;
}
static Expr* fin(Expr*e){ if(e->op!=OConst&&((e->kz|e->ko)&maskN(e->bits))==maskN(e->bits)) return mkConst(e->ko,e->bits); return norm(e); }
Expr* mkConst(uint64_t v,unsigned bits){ return mk(OConst,bits,0,0,0,v&maskN(bits)); }
Expr* mkVar(uint64_t i,unsigned bits){ return mk(OVar,bits,0,0,0,i); }
Expr* norm(Expr*e){ if(e->op==OConst)return e; for(int i=0;i<4;++i) if(e->supp[i]&~fixedVars[i]) return e; return mkConst(evalExpr(e),e->bits); }
uint64_t evalExpr(Expr*e){
  if(e->op==OConst)return e->k; if(e->evalver==modelVer)return e->evalval;
  // explicit stack to survive deep DAGs
  static std::vector<Expr*> st; size_t base=st.size(); st.push_back(e);
  auto done=[&](Expr*x){return x->op==OConst||x->evalver==modelVer;}; auto val=[&](Expr*x){return x->op==OConst?x->k:x->evalval;};
  while(st.size()>base){ Expr*x=st.back(); if(done(x)){st.pop_back();continue;}
    uint64_t v; 
    if(x->op==OVar){ v=modelVals[x->k]&maskN(x->bits); }
    else if(x->op==OIte){ if(!done(x->a)){st.push_back(x->a);continue;} Expr*y=val(x->a)?x->b:x->c; if(!done(y)){st.push_back(y);continue;} v=val(y); }
    else { bool w=false; for(Expr*y:{x->a,x->b}) if(y&&!done(y)){st.push_back(y);w=true;} if(w)continue;
      switch(x->op){ case OExtract:v=(val(x->a)>>x->k)&maskN(x->bits);break; case OConcat:v=(val(x->a)<<x->b->bits)|val(x->b);break; case OSExt:v=(uint64_t)sx(val(x->a),x->a->bits)&maskN(x->bits);break;
        default: v=ev((Op)x->op,x->bits,val(x->a),x->b?val(x->b):0,x->a->bits); } }
    x->evalver=modelVer;x->evalval=v;st.pop_back(); }
  return e->evalval;
}
// ---- ite trees with constant leaves
static Expr* mapTree(Expr*e,const std::function<Expr*(Expr*)>&fn){ if(isC(e))return fn(e); std::unordered_map<Expr*,Expr*> memo; std::function<Expr*(Expr*)> rec=[&](Expr*x)->Expr*{ if(isC(x))return fn(x); auto it=memo.find(x); if(it!=memo.end())return it->second; Expr*r=mkIte(x->a,rec(x->b),rec(x->c)); memo[x]=r; return r; }; return rec(e); }
Expr* toTree(Expr*e,unsigned lim){ // rewrite as const-leaved tree if few unknown bits
  if(e->leaves)return e->leaves<=lim?e:nullptr;
  uint64_t unk=maskN(e->bits)&~(e->kz|e->ko); unsigned n=__builtin_popcountll(unk); if((1u<<(n>6?6:n))>lim||n>4)return nullptr;
  if(e->op!=OConcat&&e->bits!=1)return nullptr; if(e->bits==1) return mkIte(e,mkConst(1,1),mkConst(0,1));
  // collect bit expressions
  std::vector<std::pair<unsigned,Expr*>> bs; for(unsigned i=0;i<e->bits;++i) if(unk>>i&1) bs.push_back({i,mkExtract(e,i,1)});
  std::function<Expr*(size_t,uint64_t)> rec=[&](size_t i,uint64_t v)->Expr*{ if(i==bs.size())return mkConst(v,e->bits); Expr*t=rec(i+1,v|1ull<<bs[i].first),*f=rec(i+1,v); if(isC(bs[i].second))return bs[i].second->k?t:f; if(t==f) return t; return mk(OIte,e->bits,bs[i].second,t,f,0); };
  Expr*r=rec(0,e->ko); return r->leaves?r:nullptr;
}
static bool noTree=false;
static Expr* tryMap2(Expr*a,Expr*b,const std::function<Expr*(Expr*,Expr*)>&fn){
  if(noTree) return nullptr;
  if(isC(a)&&isC(b))return nullptr; if(!a->leaves&&!b->leaves) return nullptr; // at least one proper tree/const
  Expr*ta=toTree(a,16),*tb=ta?toTree(b,16):nullptr; if(!ta||!tb||ta->leaves*tb->leaves>16)return nullptr;
  return mapTree(ta,[&](Expr*x){ return mapTree(tb,[&](Expr*y){ return fn(x,y); }); }); }
bool treeLeaves(Expr*e,unsigned lim,const std::function<void(Expr*,uint64_t)>&fn){ Expr*t=toTree(e,lim); if(!t)return false;
  // merge equal leaves
  std::vector<std::pair<uint64_t,Expr*>> out; std::function<void(Expr*,Expr*)> rec=[&](Expr*x,Expr*g){ if(isC(g)&&!g->k)return; if(isC(x)){ for(auto&o:out) if(o.first==x->k){o.second=mkOr(o.second,g);return;} out.push_back({x->k,g}); return;} rec(x->b,mkAnd(g,x->a)); rec(x->c,mkAnd(g,mkNot(x->a))); }; rec(t,mkConst(1,1)); for(auto&o:out) fn(o.second,o.first); return true; }

Expr* mkNot(Expr*a){ if(isC(a))return mkConst(~a->k,a->bits); if(a->op==ONot)return a->a; 
  if(a->op==OConcat) return mkConcat(mkNot(a->a),mkNot(a->b));
  if(a->op==OIte&&(isC(a->b)||isC(a->c))&&a->bits>1) return mkIte(a->a,mkNot(a->b),mkNot(a->c));
  return fin(mk(ONot,a->bits,a,0,0,0)); }
static unsigned pieces(Expr*e){ unsigned n=1; while(e->op==OConcat){++n;e=e->b;} return n; }
static Expr* runs(Op op,Expr*x,uint64_t k){ // bitwise with constant, split in runs (≤6), else null
  unsigned n=x->bits; unsigned cnt=0; for(unsigned i=0;i<n;){ unsigned j=i; bool bit=k>>i&1; while(j<n&&(bool)(k>>j&1)==bit)++j; ++cnt; i=j; } if(cnt>6)return nullptr;
  Expr*r=nullptr; for(unsigned i=0;i<n;){ unsigned j=i; bool bit=k>>i&1; while(j<n&&(bool)(k>>j&1)==bit)++j; unsigned w=j-i; Expr*p; 
    if(op==OAnd) p=bit?mkExtract(x,i,w):mkConst(0,w); else if(op==OOr) p=bit?mkConst(~0ull,w):mkExtract(x,i,w); else p=bit?mkNot(mkExtract(x,i,w)):mkExtract(x,i,w);
    r=r?mkConcat(p,r):p; i=j; } return r; }
static Expr* bitw(Op op,Expr*a,Expr*b){
  unsigned n=a->bits; if(isC(a)&&!isC(b))std::swap(a,b); if(isC(a)&&isC(b))return mkConst(ev(op,n,a->k,b->k,n),n);
  uint64_t m=maskN(n);
  if(a==b) return op==OXor?mkConst(0,n):a;
  if((a->op==ONot&&a->a==b)||(b->op==ONot&&b->a==a)) return op==OAnd?mkConst(0,n):mkConst(m,n);
  if(isC(b)){ if(op==OAnd){ if(!b->k)return b; if(b->k==m)return a; if((b->k|a->kz)==m) return a; } else if(op==OOr){ if(!b->k)return a; if(b->k==m)return b; if((~b->k|a->ko)==~0ull||((~b->k&m)|a->ko)==m) return a; } else { if(!b->k)return a; if(b->k==m)return mkNot(a); }
    if(a->op==OIte&&a->leaves&&a->leaves<=16) return mapTree(a,[&](Expr*x){return mkConst(ev(op,n,x->k,b->k,n),n);});
    if(Expr*r=runs(op,a,b->k)) return r;
    if((a->op==op)&&isC(a->b)&&op!=OXor) return bitw(op,a->a,mkConst(ev(op,n,a->b->k,b->k,n),n));
    if(a->op==op&&op==OXor&&isC(a->b)) return bitw(op,a->a,mkConst(a->b->k^b->k,n));
  } else {
    if(op==OOr&&((a->kz|b->kz)&m)==m&&(a->op==OConcat||b->op==OConcat)){ // disjoint: interleave
    }
    if((a->op==OConcat&&pieces(a)<=8&&pieces(b)<=8)||(b->op==OConcat&&pieces(b)<=8&&pieces(a)<=8)){ unsigned lo=a->op==OConcat?a->b->bits:b->b->bits; return mkConcat(bitw(op,mkExtract(a,lo,n-lo),mkExtract(b,lo,n-lo)),bitw(op,mkExtract(a,0,lo),mkExtract(b,0,lo))); }
    if(op==OXor){ if(a->op==ONot&&b->op==ONot) return bitw(op,a->a,b->a); if(a->op==ONot)return mkNot(bitw(op,a->a,b)); if(b->op==ONot)return mkNot(bitw(op,a,b->a)); 
      if(a->op==OXor&&(a->a==b))return a->b; if(a->op==OXor&&a->b==b)return a->a; if(b->op==OXor&&b->a==a)return b->b; if(b->op==OXor&&b->b==a)return b->a; }
    if(op==OAnd){ if(a->op==OAnd&&(a->a==b||a->b==b))return a; if(b->op==OAnd&&(b->a==a||b->b==a))return b; if(a->op==OAnd&&(mkNot(a->a)==b||mkNot(a->b)==b))return mkConst(0,n); if(b->op==OAnd&&(mkNot(b->a)==a||mkNot(b->b)==a))return mkConst(0,n); }
    if(op==OOr){ if(a->op==OOr&&(a->a==b||a->b==b))return a; if(b->op==OOr&&(b->a==a||b->b==a))return b; }
    if(a->id>b->id)std::swap(a,b);
  }
  return fin(mk(op,n,a,b,0,0)); }
Expr* mkAnd(Expr*a,Expr*b){return bitw(OAnd,a,b);} Expr* mkOr(Expr*a,Expr*b){return bitw(OOr,a,b);} Expr* mkXor(Expr*a,Expr*b){return bitw(OXor,a,b);}
Expr* mkExtract(Expr*a,unsigned lo,unsigned n){
  if(lo==0&&n==a->bits)return a; if(isC(a))return mkConst(a->k>>lo,n);
  uint64_t kn=((a->kz|a->ko)>>lo)&maskN(n); if(kn==maskN(n)) return mkConst(a->ko>>lo,n);
  switch(a->op){
    case OExtract: return mkExtract(a->a,lo+a->k,n);
    case OConcat: { unsigned l=a->b->bits; if(lo>=l) return mkExtract(a->a,lo-l,n); if(lo+n<=l) return mkExtract(a->b,lo,n); return mkConcat(mkExtract(a->a,0,lo+n-l),mkExtract(a->b,lo,l-lo)); }
    case OSExt: if(lo+n<=a->a->bits) return mkExtract(a->a,lo,n); if(lo<a->a->bits) return mkSExt(mkExtract(a->a,lo,a->a->bits-lo),n); return mkSExt(mkExtract(a->a,a->a->bits-1,1),n);
    case OIte: if(a->leaves||(isC(a->b)||isC(a->c))||n==1) return mkIte(a->a,mkExtract(a->b,lo,n),mkExtract(a->c,lo,n)); break;
    case OAnd: case OOr: case OXor: return bitw((Op)a->op,mkExtract(a->a,lo,n),mkExtract(a->b,lo,n));
    case ONot: return mkNot(mkExtract(a->a,lo,n));
    case OAdd: if(lo==0) return mkAdd(mkExtract(a->a,0,n),mkExtract(a->b,0,n)); break;
    case OSub: if(lo==0) return mkSub(mkExtract(a->a,0,n),mkExtract(a->b,0,n)); break;
    case OMul: if(lo==0) return mkMul(mkExtract(a->a,0,n),mkExtract(a->b,0,n)); break;
    default: break; }
  return fin(mk(OExtract,n,a,0,0,lo)); }
Expr* mkConcat(Expr*h,Expr*l){
  unsigned n=h->bits+l->bits; if(isC(h)&&isC(l))return mkConst((h->k<<l->bits)|l->k,n);
  if(h->op==OConcat) return mkConcat(h->a,mkConcat(h->b,l));
  if(l->op==OConcat){ Expr*x=l->a; // try to merge h with the first piece
    if(isC(h)&&isC(x)) return mkConcat(mkConst((h->k<<x->bits)|x->k,h->bits+x->bits),l->b);
    if(h->op==OExtract&&x->op==OExtract&&h->a==x->a&&h->k==x->k+x->bits) return mkConcat(mkExtract(h->a,x->k,h->bits+x->bits),l->b);
    if(h->op==OExtract&&h->a==x&&h->k==x->bits) {} }
  else { if(h->op==OExtract&&l->op==OExtract&&h->a==l->a&&h->k==l->k+l->bits) return mkExtract(h->a,l->k,n); }
  return fin(mk(OConcat,n,h,l,0,0)); }
Expr* mkZExt(Expr*a,unsigned n){ return n==a->bits?a:mkConcat(mkConst(0,n-a->bits),a); }
Expr* mkSExt(Expr*a,unsigned n){ if(n==a->bits)return a; if(isC(a))return mkConst((uint64_t)sx(a->k,a->bits),n); if(a->kz>>(a->bits-1)&1) return mkZExt(a,n); if(a->leaves&&a->leaves<=16) return mapTree(a,[&](Expr*x){return mkConst((uint64_t)sx(x->k,x->bits),n);}); if(a->bits==1) return mkIte(a,mkConst(~0ull,n),mkConst(0,n)); return fin(mk(OSExt,n,a,0,0,0)); }
Expr* mkAdd(Expr*a,Expr*b){ unsigned n=a->bits; if(isC(a))std::swap(a,b); if(isC(a)&&isC(b))return mkConst(a->k+b->k,n); if(n==1) return mkXor(a,b);
  if(isC(b)){ if(!b->k)return a; if(a->op==OAdd&&isC(a->b)) return mkAdd(a->a,mkConst(a->b->k+b->k,n)); if(a->op==OSub&&isC(a->a)) return mkSub(mkConst(a->a->k+b->k,n),a->b); 
    if(a->op==OConcat&&isC(a->b)&&b->k<=maskN(a->b->bits)&&a->b->k+b->k<=maskN(a->b->bits)) return mkConcat(a->a,mkConst(a->b->k+b->k,a->b->bits));
  }
  if(Expr*r=tryMap2(a,b,[&](Expr*x,Expr*y){return mkConst(x->k+y->k,n);}))return r;
  if(!isC(b)){ if(a->op==OAdd&&isC(a->b)) return mkAdd(mkAdd(a->a,b),a->b); if(b->op==OAdd&&isC(b->b)) return mkAdd(mkAdd(a,b->a),b->b); if(a->op==OSub&&a->b==b) return a->a; if(b->op==OSub&&b->b==a) return b->a; if(a->id>b->id)std::swap(a,b); }
  return fin(mk(OAdd,n,a,b,0,0)); }
Expr* mkSub(Expr*a,Expr*b){ unsigned n=a->bits; if(isC(b))return mkAdd(a,mkConst(-b->k,n)); if(a==b)return mkConst(0,n); if(n==1) return mkXor(a,b);
  if(a->op==OAdd){ if(a->a==b)return a->b; if(a->b==b)return a->a; if(isC(a->b)) return mkAdd(mkSub(a->a,b),a->b); }
  if(b->op==OAdd&&isC(b->b)) return mkAdd(mkSub(a,b->a),mkConst(-b->b->k,n));
  if(Expr*r=tryMap2(a,b,[&](Expr*x,Expr*y){return mkConst(x->k-y->k,n);}))return r;
  return fin(mk(OSub,n,a,b,0,0)); }
Expr* mkMul(Expr*a,Expr*b){ unsigned n=a->bits; if(isC(a))std::swap(a,b); if(isC(a)&&isC(b))return mkConst(a->k*b->k,n); if(n==1) return mkAnd(a,b);
  if(isC(b)){ if(!b->k)return b; if(b->k==1)return a; if(!(b->k&(b->k-1))) return mkShift(OShl,a,mkConst(__builtin_ctzll(b->k),n)); }
  if(Expr*r=tryMap2(a,b,[&](Expr*x,Expr*y){return mkConst(x->k*y->k,n);}))return r;
  if(!isC(b)&&a->id>b->id)std::swap(a,b);
  return fin(mk(OMul,n,a,b,0,0)); }
Expr* mkDiv(Op op,Expr*a,Expr*b){ unsigned n=a->bits; if(isC(a)&&isC(b))return mkConst(ev(op,n,a->k,b->k,n),n);
  if(isC(b)&&b->k&&!(b->k&(b->k-1))){ unsigned s=__builtin_ctzll(b->k); if(op==OUDiv)return mkShift(OLShr,a,mkConst(s,n)); if(op==OURem)return s?mkZExt(mkExtract(a,0,s),n):mkConst(0,n); }
  if(isC(b)&&b->k&&(op==OURem||op==OUDiv)){ uint64_t mx=~a->kz&maskN(n); if(mx<b->k) return op==OURem?a:mkConst(0,n); }
  if((op==OSDiv||op==OSRem)&&(a->kz>>(n-1)&1)&&(b->kz>>(n-1)&1)) return mkDiv(op==OSDiv?OUDiv:OURem,a,b);
  if(Expr*r=tryMap2(a,b,[&](Expr*x,Expr*y){return mkConst(ev(op,n,x->k,y->k,n),n);}))return r;
  return fin(mk(op,n,a,b,0,0)); }
Expr* mkShift(Op op,Expr*a,Expr*b){ unsigned n=a->bits; if(isC(a)&&isC(b))return mkConst(ev(op,n,a->k,b->k,n),n);
  if(isC(b)){ uint64_t s=b->k; if(!s)return a; if(op==OShl) return s>=n?mkConst(0,n):mkConcat(mkExtract(a,0,n-s),mkConst(0,s)); if(op==OLShr) return s>=n?mkConst(0,n):mkZExt(mkExtract(a,s,n-s),n); if(s>=n)s=n-1; return mkSExt(mkExtract(a,s,n-s),n); }
  if(Expr*r=tryMap2(a,b,[&](Expr*x,Expr*y){return mkConst(ev(op,n,x->k,y->k,n),n);}))return r;
  if(b->leaves&&b->leaves<=8){ return mapTree(b,[&](Expr*y){return mkConst(y->k,n);})->op==OIte?[&]{ std::function<Expr*(Expr*)> rec=[&](Expr*x)->Expr*{ return isC(x)?mkShift(op,a,x):mkIte(x->a,rec(x->b),rec(x->c)); }; return rec(b); }():mkShift(op,a,b); }
  return fin(mk(op,n,a,b,0,0)); }
Expr* mkEq(Expr*a,Expr*b){ unsigned n=a->bits; if(a==b)return mkConst(1,1); if(isC(a))std::swap(a,b); if(isC(a)&&isC(b))return mkConst(a->k==b->k,1);
  if((a->ko&b->kz)|(a->kz&b->ko))return mkConst(0,1);
  if(n==1){ if(isC(b))return b->k?a:mkNot(a); return mkNot(mkXor(a,b)); }
  if(isC(b)){ 
    if(a->op==OConcat){ unsigned l=a->b->bits; return mkAnd(mkEq(a->a,mkConst(b->k>>l,a->a->bits)),mkEq(a->b,mkConst(b->k,l))); }
    if(a->op==OAdd&&isC(a->b))return mkEq(a->a,mkConst(b->k-a->b->k,n)); if(a->op==OSub&&isC(a->a)) return mkEq(a->b,mkConst(a->a->k-b->k,n)); if(a->op==OXor&&isC(a->b))return mkEq(a->a,mkConst(b->k^a->b->k,n)); if(a->op==ONot)return mkEq(a->a,mkConst(~b->k,n));
    if(a->op==OSub&&!b->k) return mkEq(a->a,a->b);
    if(a->op==OXor&&!b->k) return mkEq(a->a,a->b);
    if(a->op==OSExt){ if((uint64_t)sx(b->k,a->a->bits)!=0||1){ uint64_t back=(uint64_t)sx(b->k&maskN(a->a->bits),a->a->bits)&maskN(n); if(back!=b->k)return mkConst(0,1); return mkEq(a->a,mkConst(b->k,a->a->bits)); } }
    if(a->op==OIte){ if(a->leaves&&a->leaves<=64) return mapTree(a,[&](Expr*x){return mkConst(x->k==b->k,1);}); if(isC(a->b)||isC(a->c)) return mkIte(a->a,mkEq(a->b,b),mkEq(a->c,b)); }
  } else {
    if(a->op==OConcat||b->op==OConcat){ Expr*cc=a->op==OConcat?a:b; if(pieces(cc)<=16){ unsigned l=cc->b->bits; return mkAnd(mkEq(mkExtract(a,l,n-l),mkExtract(b,l,n-l)),mkEq(mkExtract(a,0,l),mkExtract(b,0,l))); } }
    if(a->op==OIte&&b->op==OIte&&a->a==b->a) return mkIte(a->a,mkEq(a->b,b->b),mkEq(a->c,b->c));
    if(Expr*r=tryMap2(a,b,[&](Expr*x,Expr*y){return mkConst(x->k==y->k,1);}))return r;
    if(a->op==OAdd&&b->op==OAdd&&a->b==b->b) return mkEq(a->a,b->a);
    if(a->op==OAdd&&(a->a==b)) return mkEq(a->b,mkConst(0,n)); if(b->op==OAdd&&(b->a==a)) return mkEq(b->b,mkConst(0,n));
    if(a->id>b->id)std::swap(a,b); }
  return fin(mk(OEq,1,a,b,0,0)); }
static Expr* cmpTree(Op op,Expr*a,Expr*b){ unsigned n=a->bits; return tryMap2(a,b,[&](Expr*x,Expr*y){return mkConst(ev(op,1,x->k,y->k,n),1);}); }
Expr* mkUlt(Expr*a,Expr*b){ unsigned n=a->bits; uint64_t m=maskN(n); if(a==b)return mkConst(0,1); if(isC(a)&&isC(b))return mkConst(a->k<b->k,1); 
  uint64_t amin=a->ko,amax=~a->kz&m,bmin=b->ko,bmax=~b->kz&m; if(amax<bmin)return mkConst(1,1); if(amin>=bmax)return mkConst(0,1);
  if(n==1) return mkAnd(mkNot(a),b); if(isK(b,1))return mkEq(a,mkConst(0,n)); if(isK(a,0))return mkNot(mkEq(b,a)); if(isK(b,m))return mkNot(mkEq(a,b)); if(isK(a,m-1)) return mkEq(b,mkConst(m,n));
  if(Expr*r=cmpTree(OUlt,a,b))return r; 
  { // drop equal known leading bits
    uint64_t same=(a->ko&b->ko)|(a->kz&b->kz); unsigned lead=0; while(lead<n&&(same>>(n-1-lead)&1))++lead; if(lead&&lead<n) return mkUlt(mkExtract(a,0,n-lead),mkExtract(b,0,n-lead)); }
  return fin(mk(OUlt,1,a,b,0,0)); }
Expr* mkUle(Expr*a,Expr*b){ return mkNot(mkUlt(b,a)); }
Expr* mkSlt(Expr*a,Expr*b){ unsigned n=a->bits; if(a==b)return mkConst(0,1); if(isC(a)&&isC(b))return mkConst(sx(a->k,n)<sx(b->k,n),1); uint64_t s=1ull<<(n-1);
  bool ap=a->kz&s,an=a->ko&s,bp=b->kz&s,bn=b->ko&s; if((ap&&bp)||(an&&bn))return mkUlt(a,b); if(an&&bp)return mkConst(1,1); if(ap&&bn)return mkConst(0,1);
  if(isK(b,0)) return mkExtract(a,n-1,1);
  if(Expr*r=cmpTree(OSlt,a,b))return r; return fin(mk(OSlt,1,a,b,0,0)); }
Expr* mkSle(Expr*a,Expr*b){ return mkNot(mkSlt(b,a)); }
Expr* mkIte(Expr*c,Expr*t,Expr*f){ if(isC(c))return c->k?t:f; c=norm(c); if(isC(c))return c->k?t:f; if(t==f)return t; if(c->op==ONot)return mkIte(c->a,f,t); unsigned n=t->bits;
  if(t->op==OIte&&t->a==c)t=t->b; if(f->op==OIte&&f->a==c)f=f->c; if(t==f)return t;
  if(n==1){ if(isK(t,1)&&isK(f,0))return c; if(isK(t,0)&&isK(f,1))return mkNot(c); if(isK(t,1))return mkOr(c,f); if(isK(t,0))return mkAnd(mkNot(c),f); if(isK(f,0))return mkAnd(c,t); if(isK(f,1))return mkOr(mkNot(c),t); if(t==c)return mkOr(c,f); if(f==c)return mkAnd(c,t); if(mkNot(t)==f) return mkNot(mkXor(c,t)); }
  if(f->op==OIte&&f->b==t) return mkIte(mkOr(c,f->a),t,f->c);
  if(n>1&&t->op==OConcat&&f->op==OConcat&&t->b->bits==f->b->bits&&pieces(t)<=6&&pieces(f)<=6&&(t->a==f->a||t->b==f->b)) return mkConcat(mkIte(c,t->a,f->a),mkIte(c,t->b,f->b));
  if(n>1&&((t->op==OConcat)!=(f->op==OConcat))&&(isC(t)||isC(f))){ Expr*cc=t->op==OConcat?t:f; if(pieces(cc)<=4){ unsigned l=cc->b->bits; Expr*h=mkIte(c,mkExtract(t,l,n-l),mkExtract(f,l,n-l)); if(isC(h)) return mkConcat(h,mkIte(c,mkExtract(t,0,l),mkExtract(f,0,l))); } }
  return fin(mk(OIte,n,c,t,f,0)); }
