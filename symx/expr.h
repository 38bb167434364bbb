// Hash-consed bit-vector expression DAG with an on-the-fly simplifier.
#pragma once
#include <cstdint>
#include <cstddef>
#include <vector>
#include <functional>
enum Op : uint8_t { OConst,OVar,OExtract,OConcat,OSExt,OAdd,OSub,OMul,OUDiv,OSDiv,OURem,OSRem,OAnd,OOr,OXor,ONot,OShl,OLShr,OAShr,OEq,OUlt,OUle,OSlt,OSle,OIte };
struct Expr {
  uint8_t op, bits; uint8_t isTree; uint8_t pad; uint32_t id; uint32_t leaves; // leaves of a const-leaved ite tree (0 = not one)
  Expr *a,*b,*c; uint64_t k; uint64_t kz,ko; uint64_t supp[4];
  void* z3; uint32_t evalver; uint32_t hash; uint64_t evalval; Expr* next;
};
static inline uint64_t maskN(unsigned b){ return b>=64?~0ull:((1ull<<b)-1); }
Expr* mkConst(uint64_t v,unsigned bits);
Expr* mkVar(uint64_t idx,unsigned bits);
Expr* mkNot(Expr*); Expr* mkAnd(Expr*,Expr*); Expr* mkOr(Expr*,Expr*); Expr* mkXor(Expr*,Expr*);
Expr* mkExtract(Expr*,unsigned lo,unsigned bits); Expr* mkConcat(Expr*hi,Expr*lo); Expr* mkZExt(Expr*,unsigned); Expr* mkSExt(Expr*,unsigned);
Expr* mkAdd(Expr*,Expr*); Expr* mkSub(Expr*,Expr*); Expr* mkMul(Expr*,Expr*); Expr* mkDiv(Op,Expr*,Expr*);
Expr* mkShift(Op,Expr*,Expr*); Expr* mkEq(Expr*,Expr*); Expr* mkUlt(Expr*,Expr*); Expr* mkUle(Expr*,Expr*); Expr* mkSlt(Expr*,Expr*); Expr* mkSle(Expr*,Expr*);
Expr* mkIte(Expr*,Expr*,Expr*);
Expr* norm(Expr*);
uint64_t evalExpr(Expr*);
static inline bool isC(Expr*e){ return e->op==OConst; }
static inline bool isK(Expr*e,uint64_t k){ return e->op==OConst&&e->k==(k&maskN(e->bits)); }
extern uint64_t fixedVars[4]; extern std::vector<uint64_t> modelVals; extern uint32_t modelVer; extern uint64_t nExprs;
static inline unsigned suppBit(uint64_t idx){ return idx<255?idx:255; }
bool treeLeaves(Expr*e,unsigned lim,const std::function<void(Expr* guard,uint64_t v)>&fn);
Expr* toTree(Expr*e,unsigned lim);
