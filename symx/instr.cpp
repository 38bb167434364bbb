// symx-instr: instruments LLVM IR so that every integer/pointer SSA value carries a shadow
// expression (null = concrete).  See DESIGN.md for the execution model.
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Verifier.h"
#include "llvm/IR/AttributeMask.h"
#include <unistd.h>
#include "llvm/IR/CFG.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Bitcode/BitcodeWriter.h"
#include "llvm/ADT/PostOrderIterator.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/FileSystem.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include "llvm/Transforms/Utils/Cloning.h"
#include <set>
#include <map>
#include <unordered_map>
using namespace llvm;

static LLVMContext C;
static Module* M;
static const DataLayout* DL;
static Type *I1,*I8,*I16,*I32,*I64,*VoidT; static PointerType* P;
static GlobalVariable *gArgs,*gTok,*gRet,*gRetTok,*gVal; static GlobalVariable* gFlags;
static FunctionCallee fBin,fCmp,fCast,fSel,fBranch,fConc,fLoad,fStore,fGep,fFix,fClear,fMemcpy,fMemset,fIntr,fOvf,fExtPtr,fUnk,fDivz,fIndChk,fAfter;
static std::set<std::string> modeled = {
  "malloc","free","calloc","realloc","_Znwm","_Znam","_ZdlPv","_ZdaPv","_ZdlPvm","_ZdaPvm","_ZnwmRKSt9nothrow_t","_ZnamRKSt9nothrow_t","_ZnwmSt11align_val_t","_ZdlPvSt11align_val_t","_ZdlPvmSt11align_val_t","aligned_alloc","posix_memalign",
  "memcmp","bcmp","strlen","memchr","strcmp","strncmp","memcpy","memmove","memset","strcpy","strncpy","strchr","_ZSt11_Hash_bytesPKvmm"
};
static std::set<std::string> safeExt; // externals that neither inspect nor overwrite user payload bytes

static bool isShTy(Type* T){ return T->isIntegerTy()&&T->getIntegerBitWidth()<=64 || T->isPointerTy(); }
static Type* shTy(Type* T){
  if (auto* S=dyn_cast<StructType>(T)){ std::vector<Type*> v; for(auto*e:S->elements()) v.push_back(shTy(e)); return StructType::get(C,v);}  
  if (auto* A=dyn_cast<ArrayType>(T)) return ArrayType::get(shTy(A->getElementType()),A->getNumElements());
  return P;
}
static Constant* nullSh(Type* T){ return Constant::getNullValue(shTy(T)); }
static bool hasSh(Type*T){ if(isShTy(T))return true; if(auto*S=dyn_cast<StructType>(T)){for(auto*e:S->elements())if(hasSh(e))return true;} if(auto*A=dyn_cast<ArrayType>(T))return hasSh(A->getElementType()); return false;}

struct FI {
  Function& F; std::unordered_map<Value*,Value*> S; bool token=false;
  std::vector<std::pair<PHINode*,PHINode*>> phis;
  FI(Function&f):F(f){}
  Value* sh(Value* v){ 
    if (isa<Constant>(v)||isa<MetadataAsValue>(v)||isa<InlineAsm>(v)||isa<BasicBlock>(v)) return nullSh(v->getType());
    auto it=S.find(v); if(it!=S.end()) return it->second; return nullSh(v->getType()); }
  bool isNull(Value*s){ return isa<Constant>(s)&&cast<Constant>(s)->isNullValue(); }
  Value* anyNN(IRBuilder<>&B,std::vector<Value*> ss){ Value*r=nullptr; for(auto*s:ss){ if(isNull(s))continue; Value*c=B.CreateIsNotNull(s); r=r?B.CreateOr(r,c):c;} return r; }
  Value* toI64(IRBuilder<>&B,Value*v){ Type*T=v->getType(); if(T->isPointerTy())return B.CreatePtrToInt(v,I64); if(T->isIntegerTy()) return B.CreateZExtOrTrunc(v,I64); if(T->isFloatTy())return B.CreateZExt(B.CreateBitCast(v,I32),I64); if(T->isDoubleTy())return B.CreateBitCast(v,I64); report_fatal_error("toI64"); }
  Value* fromI64(IRBuilder<>&B,Value*v,Type*T){ if(T->isPointerTy())return B.CreateIntToPtr(v,T); if(T->isIntegerTy())return B.CreateZExtOrTrunc(v,T); if(T->isFloatTy())return B.CreateBitCast(B.CreateTrunc(v,I32),T); if(T->isDoubleTy())return B.CreateBitCast(v,T); report_fatal_error("fromI64"); }
  unsigned bits(Type*T){ if(T->isPointerTy())return 64; if(T->isIntegerTy())return T->getIntegerBitWidth(); return DL->getTypeSizeInBits(T); }
  MDNode* cold(){ return MDNode::get(C,{MDString::get(C,"branch_weights"),ConstantAsMetadata::get(ConstantInt::get(I32,1)),ConstantAsMetadata::get(ConstantInt::get(I32,100000))}); }
  // split before I; cond → slow block; returns slow-block terminator; continuation starts at I
  Instruction* slow(Value*cond,Instruction*I){ return SplitBlockAndInsertIfThen(cond,I,false,cold()); }
  Value* i64(uint64_t v){ return ConstantInt::get(I64,v);} Value* i32(uint32_t v){ return ConstantInt::get(I32,v);} 

  // I: the native instruction (kept, executed in both cases). `mk` builds the runtime call returning shadow.
  template<class Fn> void after(Instruction*I,std::vector<Value*> ss,Fn mk){
    Instruction*nx=I->getNextNode(); IRBuilder<> B(nx); Value*c=anyNN(B,ss); if(!c)return;
    Instruction*t=slow(c,nx); BasicBlock*sb=t->getParent(); BasicBlock*pb=sb->getSinglePredecessor();
    IRBuilder<> SB(t); Value*e=mk(SB); 
    Value*rv=fromI64(SB,SB.CreateLoad(I64,gVal),I->getType());
    Value*nv=SB.CreateSelect(SB.CreateIsNull(e),rv,I);
    sb=t->getParent();
    IRBuilder<> CB(&*nx->getParent()->begin()); // cont block start
    PHINode*pv=CB.CreatePHI(I->getType(),2); PHINode*ps=CB.CreatePHI(P,2);
    I->replaceUsesWithIf(pv,[&](Use&u){ return u.getUser()!=nv && !(isa<Instruction>(u.getUser())&&cast<Instruction>(u.getUser())->getParent()==sb); });
    pv->addIncoming(I,pb); pv->addIncoming(nv,sb); ps->addIncoming(ConstantPointerNull::get(P),pb); ps->addIncoming(e,sb);
    S[pv]=ps;
  }
  // make value concrete before instruction I; returns concrete value
  Value* conc(Value*v,Instruction*I){
    Value*s=sh(v); if(isNull(s)||!isShTy(v->getType()))return v;
    IRBuilder<> B(I); Instruction*t=slow(B.CreateIsNotNull(s),I); BasicBlock*sb=t->getParent(),*pb=sb->getSinglePredecessor();
    IRBuilder<> SB(t); Value*r=SB.CreateCall(fConc,{s,toI64(SB,v)}); Value*nv=fromI64(SB,r,v->getType());
    IRBuilder<> CB(&*I->getParent()->begin()); PHINode*p=CB.CreatePHI(v->getType(),2); p->addIncoming(v,pb); p->addIncoming(nv,sb); return p;
  }
  Value* pageFlag(IRBuilder<>&B,Value*ptr){ Value*i=B.CreateLShr(B.CreatePtrToInt(ptr,I64),12); Value*fb=B.CreateLoad(P,gFlags); return B.CreateICmpNE(B.CreateLoad(I8,B.CreateGEP(I8,fb,i)),ConstantInt::get(I8,0)); }

  void flatten(IRBuilder<>&B,Value*s,Type*T,std::vector<Value*>&out){
    if(auto*ST=dyn_cast<StructType>(T)){ for(unsigned i=0;i<ST->getNumElements();++i) flatten(B,B.CreateExtractValue(s,i),ST->getElementType(i),out);} 
    else if(auto*A=dyn_cast<ArrayType>(T)){ for(unsigned i=0;i<A->getNumElements();++i) flatten(B,B.CreateExtractValue(s,i),A->getElementType(),out);} 
    else out.push_back(s);
  }
  Value* unflatten(IRBuilder<>&B,Type*T,std::vector<Value*>&in,unsigned&k){
    if(auto*ST=dyn_cast<StructType>(T)){ Value*r=PoisonValue::get(shTy(T)); for(unsigned i=0;i<ST->getNumElements();++i) r=B.CreateInsertValue(r,unflatten(B,ST->getElementType(i),in,k),i); return r;} 
    if(auto*A=dyn_cast<ArrayType>(T)){ Value*r=PoisonValue::get(shTy(T)); for(unsigned i=0;i<A->getNumElements();++i) r=B.CreateInsertValue(r,unflatten(B,A->getElementType(),in,k),i); return r;} 
    return in[k++];
  }
  unsigned countSlots(Type*T){ if(auto*ST=dyn_cast<StructType>(T)){unsigned n=0;for(auto*e:ST->elements())n+=countSlots(e);return n;} if(auto*A=dyn_cast<ArrayType>(T))return A->getNumElements()*countSlots(A->getElementType()); return 1; }
  Value* slot(IRBuilder<>&B,GlobalVariable*g,unsigned k){ return B.CreateConstInBoundsGEP2_64(g->getValueType(),g,0,k); }

  void prologue(){
    std::vector<Argument*> as; unsigned k=0; std::vector<unsigned> pos; for(auto&a:F.args()){ if(hasSh(a.getType())){as.push_back(&a);pos.push_back(k);} k+=countSlots(a.getType()); }
    if(as.empty()||k>60) return;
    Instruction*ip=&*F.getEntryBlock().getFirstNonPHIOrDbgOrAlloca(); IRBuilder<> B(ip);
    Value*m=B.CreateICmpEQ(B.CreateLoad(P,gTok),&F); 
    BasicBlock*pb=ip->getParent(); Instruction*t=SplitBlockAndInsertIfThen(m,ip,false); BasicBlock*sb=t->getParent(); IRBuilder<> SB(t);
    SB.CreateStore(ConstantPointerNull::get(P),gTok);
    IRBuilder<> CB(&*ip->getParent()->begin());
    for(unsigned i=0;i<as.size();++i){ std::vector<Value*> in; unsigned n=countSlots(as[i]->getType()); std::vector<PHINode*> ph;
      for(unsigned j=0;j<n;++j){ Value*l=SB.CreateLoad(P,slot(SB,gArgs,pos[i]+j)); PHINode*p=CB.CreatePHI(P,2); p->addIncoming(ConstantPointerNull::get(P),pb); p->addIncoming(l,sb); in.push_back(p);} 
      IRBuilder<> DB(ip); unsigned kk=0; S[as[i]]=unflatten(DB,as[i]->getType(),in,kk); }
  }

  void doCall(CallBase*CB){
    Function*cf=CB->getCalledFunction(); Type*RT=CB->getType();
    if(CB->isInlineAsm()){ for(unsigned i=0;i<CB->arg_size();++i){Value*v=conc(CB->getArgOperand(i),CB);CB->setArgOperand(i,v);} return; }
    if(cf&&cf->isIntrinsic()){ doIntrinsic(cast<CallInst>(CB)); return; }
    std::string nm=cf?cf->getName().str():"";
    bool rtapi=cf&&(nm.rfind("sym_",0)==0)&&nm!="sym_main"; bool mod=cf&&cf->isDeclaration()&&modeled.count(nm);
    if(mod){ auto fc=M->getOrInsertFunction("sxm_"+nm,cf->getFunctionType()); CB->setCalledFunction(fc); cf=cast<Function>(fc.getCallee()); CB->setAttributes(AttributeList()); }
    bool instrd = !cf || !cf->isDeclaration() || rtapi || mod;
    if(!cf){ Value*v=conc(CB->getCalledOperand(),CB); CB->setCalledOperand(v); }
    if(cf&&CB->getFunctionType()!=cf->getFunctionType()) instrd=false;
    if(!instrd){
      bool safe=safeExt.count(nm); if(!safe) for(auto&p:safeExt) if(p.size()&&p.back()=='*'&&nm.rfind(p.substr(0,p.size()-1),0)==0){safe=true;break;}
      for(unsigned i=0;i<CB->arg_size();++i){ Value*a=CB->getArgOperand(i); if(!isShTy(a->getType()))continue; Value*v=conc(a,CB); CB->setArgOperand(i,v);
        if(v->getType()->isPointerTy()&&!safe&&!isa<Constant>(v)){ IRBuilder<> B(CB); Instruction*t=slow(pageFlag(B,v),CB); IRBuilder<> SB(t); SB.CreateCall(fExtPtr,{v,SB.CreateGlobalStringPtr(nm)}); } }
      return;
    }
    IRBuilder<> B(CB); std::vector<Value*> slots; for(auto&a:CB->args()) flatten(B,sh(a.get()),a.get()->getType(),slots);
    bool any=false; for(auto*s:slots) if(!isNull(s)) any=true;
    if(slots.size()>60) any=false;
    if(rtapi||mod){ for(unsigned i=0;i<slots.size();++i) B.CreateStore(slots[i],slot(B,gArgs,i)); }
    else if(any||!cf){ for(unsigned i=0;i<slots.size();++i) B.CreateStore(slots[i],slot(B,gArgs,i)); B.CreateStore(CB->getCalledOperand(),gTok); }
    Instruction*nx; 
    if(auto*II=dyn_cast<InvokeInst>(CB)){ BasicBlock*nd=II->getNormalDest(); BasicBlock*nb=BasicBlock::Create(C,"",&F,nd); nx=BranchInst::Create(nd,nb); nd->replacePhiUsesWith(II->getParent(),nb); II->setNormalDest(nb); }
    else nx=CB->getNextNode();
    IRBuilder<> A(nx);
    if(!cf){ // if the token was not consumed the callee is uninstrumented
      if(any){ Value*un=A.CreateIsNotNull(A.CreateLoad(P,gTok)); Instruction*t=slow(un,nx); IRBuilder<> SB(t); SB.CreateCall(fIndChk,{i64(slots.size())}); SB.CreateStore(ConstantPointerNull::get(P),gTok); A.SetInsertPoint(nx);} 
      else A.CreateStore(ConstantPointerNull::get(P),gTok);
    }
    if(hasSh(RT)&&countSlots(RT)<=16){
      Value*m=A.CreateICmpEQ(A.CreateLoad(P,gRetTok),cf?(Value*)cf:CB->getCalledOperand());
      BasicBlock*pb0=nx->getParent(); Instruction*t=SplitBlockAndInsertIfThen(m,nx,false); BasicBlock*sb=t->getParent(); (void)pb0; BasicBlock*pb=sb->getSinglePredecessor(); IRBuilder<> SB(t); SB.CreateStore(ConstantPointerNull::get(P),gRetTok);
      std::vector<Value*> in; IRBuilder<> CBd(&*nx->getParent()->begin());
      for(unsigned j=0;j<countSlots(RT);++j){ Value*l=SB.CreateLoad(P,slot(SB,gRet,j)); PHINode*p=CBd.CreatePHI(P,2); p->addIncoming(ConstantPointerNull::get(P),pb); p->addIncoming(l,sb); in.push_back(p);} 
      IRBuilder<> DB(nx); unsigned k=0; S[CB]=unflatten(DB,RT,in,k);
    }
  }
  void doIntrinsic(CallInst*CI){
    Intrinsic::ID id=CI->getCalledFunction()->getIntrinsicID(); Type*RT=CI->getType();
    if(auto*MT=dyn_cast<MemTransferInst>(CI)){ IRBuilder<> B(CI); B.CreateCall(fMemcpy,{MT->getRawDest(),sh(MT->getRawDest()),MT->getRawSource(),sh(MT->getRawSource()),B.CreateZExt(MT->getLength(),I64),sh(MT->getLength())}); CI->eraseFromParent(); return; }
    if(auto*MS=dyn_cast<MemSetInst>(CI)){ IRBuilder<> B(CI); B.CreateCall(fMemset,{MS->getRawDest(),sh(MS->getRawDest()),B.CreateZExt(MS->getValue(),I64),sh(MS->getValue()),B.CreateZExt(MS->getLength(),I64),sh(MS->getLength())}); CI->eraseFromParent(); return; }
    switch(id){
      case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::lifetime_end: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::assume: case Intrinsic::stacksave: case Intrinsic::stackrestore: case Intrinsic::trap: case Intrinsic::eh_typeid_for: case Intrinsic::vastart: case Intrinsic::vaend: case Intrinsic::vacopy: case Intrinsic::prefetch: return;
      case Intrinsic::lifetime_start: { auto*cs=dyn_cast<ConstantInt>(CI->getArgOperand(0)); Value*p=CI->getArgOperand(1); int64_t n=cs?cs->getSExtValue():-1; if(n<=0){ if(auto*A=dyn_cast<AllocaInst>(p->stripPointerCasts())) n=(int64_t)DL->getTypeAllocSize(A->getAllocatedType()); else return; }
        Instruction*nx=CI->getNextNode(); IRBuilder<> B(nx); Value*c=pageFlag(B,p); if(n>1) c=B.CreateOr(c,pageFlag(B,B.CreateConstGEP1_64(B.getInt8Ty(),p,n-1))); if(n>4096) c=B.getTrue(); Instruction*t=slow(c,nx); IRBuilder<> SB(t); SB.CreateCall(fClear,{p,i64(n)}); return; }
      case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::threadlocal_address: { S[CI]=sh(CI->getArgOperand(0)); return; }
      case Intrinsic::umin: case Intrinsic::umax: case Intrinsic::smin: case Intrinsic::smax: case Intrinsic::ctpop: case Intrinsic::ctlz: case Intrinsic::cttz: case Intrinsic::bswap: case Intrinsic::abs: case Intrinsic::fshl: case Intrinsic::fshr: case Intrinsic::usub_sat: case Intrinsic::uadd_sat: case Intrinsic::ssub_sat: case Intrinsic::sadd_sat: case Intrinsic::bitreverse:
        if(isShTy(RT)){ 
          std::vector<Value*> ss; for(auto&a:CI->args()) ss.push_back(sh(a)); while(ss.size()<3) ss.push_back(ConstantPointerNull::get(P));
          std::vector<Value*> av; for(auto&a:CI->args()) av.push_back(a);
          unsigned code = id==Intrinsic::umin?0:id==Intrinsic::umax?1:id==Intrinsic::smin?2:id==Intrinsic::smax?3:id==Intrinsic::ctpop?4:id==Intrinsic::ctlz?5:id==Intrinsic::cttz?6:id==Intrinsic::bswap?7:id==Intrinsic::abs?8:id==Intrinsic::fshl?9:id==Intrinsic::fshr?10:id==Intrinsic::usub_sat?11:id==Intrinsic::uadd_sat?12:id==Intrinsic::ssub_sat?13:id==Intrinsic::sadd_sat?14:15;
          after(CI,ss,[&](IRBuilder<>&B){ std::vector<Value*> a={i32(code),i32(bits(RT))}; for(unsigned i=0;i<3;++i){ a.push_back(i<av.size()?toI64(B,av[i]):i64(0)); a.push_back(ss[i]); } return B.CreateCall(fIntr,a); });
          return; }
        break;
      case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
        Value*a=CI->getArgOperand(0),*b=CI->getArgOperand(1); Value*sa=sh(a),*sb_=sh(b); if(!isShTy(a->getType()))break;
        if(isNull(sa)&&isNull(sb_)) return;
        unsigned code= id==Intrinsic::uadd_with_overflow?0:id==Intrinsic::usub_with_overflow?1:id==Intrinsic::umul_with_overflow?2:id==Intrinsic::sadd_with_overflow?3:id==Intrinsic::ssub_with_overflow?4:5;
        Instruction*nx=CI->getNextNode(); IRBuilder<> B(nx); Value*c=anyNN(B,{sa,sb_}); Instruction*t=slow(c,nx); BasicBlock*sb=t->getParent(),*pb=sb->getSinglePredecessor(); IRBuilder<> SB(t);
        Value*e1=SB.CreateCall(fOvf,{i32(code),i32(bits(a->getType())),toI64(SB,a),sa,toI64(SB,b),sb_}); Value*v1=fromI64(SB,SB.CreateLoad(I64,gVal),a->getType());
        Value*e2=SB.CreateCall(fOvf,{i32(code+8),i32(bits(a->getType())),toI64(SB,a),sa,toI64(SB,b),sb_}); Value*v2=SB.CreateTrunc(SB.CreateLoad(I64,gVal),I1);
        Value*nv=SB.CreateInsertValue(SB.CreateInsertValue(PoisonValue::get(RT),v1,0),v2,1); Value*ns=SB.CreateInsertValue(SB.CreateInsertValue(PoisonValue::get(shTy(RT)),e1,0),e2,1);
        IRBuilder<> CB(&*nx->getParent()->begin()); PHINode*pv=CB.CreatePHI(RT,2),*ps=CB.CreatePHI(shTy(RT),2);
        CI->replaceUsesWithIf(pv,[&](Use&u){return cast<Instruction>(u.getUser())->getParent()!=sb;});
        pv->addIncoming(CI,pb);pv->addIncoming(nv,sb);ps->addIncoming(nullSh(RT),pb);ps->addIncoming(ns,sb);S[pv]=ps;return; }
      default: break;
    }
    // anything else: concretise scalar operands
    for(unsigned i=0;i<CI->arg_size();++i){ Value*a=CI->getArgOperand(i); if(isa<Constant>(a)||!isShTy(a->getType()))continue; Value*v=conc(a,CI); CI->setArgOperand(i,v);} 
  }
  void doLoad(LoadInst*L){
    Type*T=L->getType(); Value*p=L->getPointerOperand(); Value*sp=sh(p); unsigned n=DL->getTypeStoreSize(T);
    if(isa<GlobalVariable>(p)&&cast<GlobalVariable>(p)->isConstant()) return;
    IRBuilder<> B(L); Value*c=pageFlag(B,p); if(!isNull(sp)) c=B.CreateOr(B.CreateIsNotNull(sp),c);
    bool scalar=(isShTy(T)||T->isFloatTy()||T->isDoubleTy())&&n<=8;
    if(!scalar){ Instruction*t=slow(c,L); BasicBlock*sb=t->getParent(),*pb=sb->getSinglePredecessor(); IRBuilder<> SB(t); Value*np=SB.CreateCall(fFix,{p,sp,i64(n)}); IRBuilder<> CB(&*L->getParent()->begin()); PHINode*ph=CB.CreatePHI(P,2); ph->addIncoming(p,pb); ph->addIncoming(np,sb); L->setOperand(0,ph); return; }
    Instruction *st,*ft; SplitBlockAndInsertIfThenElse(c,L,&st,&ft,cold()); BasicBlock*sb=st->getParent(),*fb=ft->getParent(); Instruction*nx=L->getNextNode();
    L->moveBefore(ft); IRBuilder<> SB(st); Value*e=SB.CreateCall(fLoad,{p,sp,i32(n),i32(isShTy(T)?bits(T):0)}); Value*v=fromI64(SB,SB.CreateLoad(I64,gVal),T);
    IRBuilder<> CB(&*nx->getParent()->begin()); PHINode*pv=CB.CreatePHI(T,2),*ps=CB.CreatePHI(P,2); L->replaceAllUsesWith(pv);
    pv->addIncoming(L,fb);pv->addIncoming(v,sb);ps->addIncoming(ConstantPointerNull::get(P),fb);ps->addIncoming(e,sb); if(isShTy(T))S[pv]=ps;
  }
  void doStore(StoreInst*St){
    Value*v=St->getValueOperand(),*p=St->getPointerOperand(); Type*T=v->getType(); Value*sp=sh(p),*sv=isShTy(T)?sh(v):ConstantPointerNull::get(P); unsigned n=DL->getTypeStoreSize(T);
    bool scalar=(isShTy(T)||T->isFloatTy()||T->isDoubleTy())&&n<=8;
    if(!scalar&&hasSh(T)){ // first-class aggregate store: concretise elements (rare)
      Value*s=sh(v); if(!isNull(s)){ IRBuilder<> B(St); // split into element stores
        if(auto*ST=dyn_cast<StructType>(T)){ auto*SL=DL->getStructLayout(ST); std::vector<StoreInst*> ns; for(unsigned i=0;i<ST->getNumElements();++i){ Value*ev=B.CreateExtractValue(v,i); Value*es=B.CreateExtractValue(s,i); Value*ep=B.CreateConstGEP1_64(I8,p,SL->getElementOffset(i)); S[ev]=es; if(!isNull(sp)) report_fatal_error("agg store sym ptr"); ns.push_back(B.CreateStore(ev,ep)); } St->eraseFromParent(); for(auto*x:ns) doStore(x); return; } 
        report_fatal_error("aggregate store"); } }
    IRBuilder<> B(St); Value*c=pageFlag(B,p); if(!isNull(sp)) c=B.CreateOr(B.CreateIsNotNull(sp),c); if(!isNull(sv)) c=B.CreateOr(B.CreateIsNotNull(sv),c);
    if(!scalar){ Instruction*t=slow(c,St); BasicBlock*sb=t->getParent(),*pb=sb->getSinglePredecessor(); IRBuilder<> SB(t); Value*np=SB.CreateCall(fFix,{p,sp,i64(n)}); IRBuilder<> CB(&*St->getParent()->begin()); PHINode*ph=CB.CreatePHI(P,2); ph->addIncoming(p,pb); ph->addIncoming(np,sb); St->setOperand(1,ph); return; }
    Instruction *st,*ft; SplitBlockAndInsertIfThenElse(c,St,&st,&ft,cold()); St->moveBefore(ft); IRBuilder<> SB(st); SB.CreateCall(fStore,{p,sp,toI64(SB,v),sv,i32(n)});
  }
  void doGep(GetElementPtrInst*G){
    if(G->getType()->isVectorTy()){ return; }
    std::vector<Value*> ss={sh(G->getPointerOperand())}; std::vector<std::pair<Value*,uint64_t>> var; int64_t off=0; 
    for(auto gi=gep_type_begin(G),ge=gep_type_end(G);gi!=ge;++gi){ Value*ix=gi.getOperand(); if(auto*ST=gi.getStructTypeOrNull()){ off+=DL->getStructLayout(ST)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); continue;} uint64_t sc=DL->getTypeAllocSize(gi.getIndexedType()); if(auto*ci=dyn_cast<ConstantInt>(ix)){ off+=ci->getSExtValue()*(int64_t)sc; continue;} var.push_back({ix,sc}); ss.push_back(sh(ix)); }
    Value*base=G->getPointerOperand(); Value*bs=ss[0];
    after(G,ss,[&](IRBuilder<>&B){ Value*cv=B.CreatePtrToInt(base,I64); Value*ce=bs; Value*r=nullptr; bool first=true;
      if(var.empty()) return (Value*)B.CreateCall(fGep,{cv,ce,i64(0),ConstantPointerNull::get(P),i32(64),i64(0),i64(off)});
      for(auto&pr:var){ unsigned ib=pr.first->getType()->getIntegerBitWidth(); Value*iv=B.CreateSExtOrTrunc(pr.first,I64); r=B.CreateCall(fGep,{cv,ce,iv,sh(pr.first),i32(ib>64?64:ib),i64(pr.second),i64(first?off:0)}); cv=B.CreateLoad(I64,gVal); ce=r; first=false; }
      return r; });
  }
  void visit(Instruction*I){
    Type*T=I->getType();
    if(auto*L=dyn_cast<LoadInst>(I)) return doLoad(L);
    if(auto*St=dyn_cast<StoreInst>(I)) return doStore(St);
    if(auto*CB=dyn_cast<CallBase>(I)) return doCall(CB);
    if(auto*G=dyn_cast<GetElementPtrInst>(I)) return doGep(G);
    if(auto*A=dyn_cast<AllocaInst>(I)){ if(A->isArrayAllocation()){Value*v=conc(A->getArraySize(),A);A->setOperand(0,v);} 
      Instruction*nx=A->getNextNode(); if(isa<AllocaInst>(nx)&&A->isStaticAlloca()){ while(isa<AllocaInst>(nx)) nx=nx->getNextNode(); }
      IRBuilder<> B(nx); Value*sz=B.CreateMul(i64(DL->getTypeAllocSize(A->getAllocatedType())),B.CreateZExtOrTrunc(A->getArraySize(),I64)); B.CreateCall(fClear,{A,sz}); return; }
    if(auto*BO=dyn_cast<BinaryOperator>(I)){
      if(isShTy(T)){ Value*a=BO->getOperand(0),*b=BO->getOperand(1),*sa=sh(a),*sb=sh(b); auto op=BO->getOpcode();
        bool dv=op==Instruction::UDiv||op==Instruction::SDiv||op==Instruction::URem||op==Instruction::SRem;
        if(dv&&(!isNull(sb)||!isNull(sa))){ IRBuilder<> B(BO); Value*cc=anyNN(B,{sa,sb}); BO->setOperand(1,B.CreateSelect(cc,ConstantInt::get(T,1),b)); }
        after(BO,{sa,sb},[&](IRBuilder<>&B){ return B.CreateCall(fBin,{i32(op),i32(bits(T)),toI64(B,a),sa,toI64(B,b),sb}); }); return; }
      concOps(I); return; }
    if(auto*CM=dyn_cast<ICmpInst>(I)){ Value*a=CM->getOperand(0),*b=CM->getOperand(1); if(isShTy(a->getType())){ Value*sa=sh(a),*sb=sh(b); unsigned pr=CM->getPredicate(); after(CM,{sa,sb},[&](IRBuilder<>&B){ return B.CreateCall(fCmp,{i32(pr),i32(bits(a->getType())),toI64(B,a),sa,toI64(B,b),sb}); }); } else concOps(I); return; }
    if(auto*CA=dyn_cast<CastInst>(I)){ Value*a=CA->getOperand(0); Type*ST=a->getType(); 
      if(isShTy(ST)&&isShTy(T)){ auto op=CA->getOpcode(); if(op==Instruction::BitCast||op==Instruction::AddrSpaceCast||((op==Instruction::PtrToInt||op==Instruction::IntToPtr)&&bits(ST)==bits(T))){ S[I]=sh(a); return; }
        Value*sa=sh(a); unsigned code=op==Instruction::SExt?1:0; after(I,{sa},[&](IRBuilder<>&B){ return B.CreateCall(fCast,{i32(code),i32(bits(ST)),i32(bits(T)),sa}); }); return; }
      concOps(I); return; }
    if(auto*SE=dyn_cast<SelectInst>(I)){ Value*c=SE->getCondition(),*t=SE->getTrueValue(),*f=SE->getFalseValue(); 
      if(c->getType()->isVectorTy()){ concOps(I); return; }
      if(isShTy(T)){ Value*sc=sh(c),*st=sh(t),*sf=sh(f);
        if(isNull(sc)){ if(isNull(st)&&isNull(sf)) return; IRBuilder<> B(SE->getNextNode()); S[I]=B.CreateSelect(c,st,sf); return; }
        after(SE,{sc,st,sf},[&](IRBuilder<>&B){ return B.CreateCall(fSel,{i32(bits(T)),B.CreateZExt(c,I64),sc,toI64(B,t),st,toI64(B,f),sf}); }); return; }
      Value*v=conc(c,I); SE->setCondition(v); if(hasSh(T)){ IRBuilder<> B(SE->getNextNode()); S[I]=B.CreateSelect(v,sh(t),sh(f)); } return; }
    if(isa<FreezeInst>(I)){ S[I]=sh(I->getOperand(0)); return; }
    if(auto*EV=dyn_cast<ExtractValueInst>(I)){ Value*s=sh(EV->getAggregateOperand()); if(isNull(s)||!hasSh(T))return; IRBuilder<> B(EV->getNextNode()); S[I]=B.CreateExtractValue(s,EV->getIndices()); return; }
    if(auto*IV=dyn_cast<InsertValueInst>(I)){ Value*s=sh(IV->getAggregateOperand()); Value*es=sh(IV->getInsertedValueOperand()); if(isNull(s)&&isNull(es))return; IRBuilder<> B(IV->getNextNode()); S[I]=B.CreateInsertValue(s,es,IV->getIndices()); return; }
    if(auto*BR=dyn_cast<BranchInst>(I)){ if(BR->isUnconditional())return; Value*c=BR->getCondition(),*s=sh(c); if(isNull(s))return; IRBuilder<> B(BR); Instruction*t=slow(B.CreateIsNotNull(s),BR); BasicBlock*sb=t->getParent(),*pb=sb->getSinglePredecessor(); IRBuilder<> SB(t); Value*r=SB.CreateTrunc(SB.CreateCall(fBranch,{s}),I1); IRBuilder<> CB(&*BR->getParent()->begin()); PHINode*p=CB.CreatePHI(I1,2); p->addIncoming(c,pb);p->addIncoming(r,sb); BR->setCondition(p); return; }
    if(auto*SW=dyn_cast<SwitchInst>(I)){ Value*v=conc(SW->getCondition(),I); SW->setCondition(v); return; }
    if(auto*IB=dyn_cast<IndirectBrInst>(I)){ IB->setAddress(conc(IB->getAddress(),I)); return; }
    if(auto*R=dyn_cast<ReturnInst>(I)){ Value*v=R->getReturnValue(); if(!v||!hasSh(v->getType())||countSlots(v->getType())>16)return; Value*s=sh(v); if(isNull(s))return; IRBuilder<> B(R); std::vector<Value*> fl; flatten(B,s,v->getType(),fl); for(unsigned i=0;i<fl.size();++i)B.CreateStore(fl[i],slot(B,gRet,i)); B.CreateStore(&F,gRetTok); return; }
    if(isa<AtomicCmpXchgInst>(I)||isa<AtomicRMWInst>(I)){ for(unsigned i=0;i<I->getNumOperands();++i){ Value*v=conc(I->getOperand(i),I); I->setOperand(i,v);} IRBuilder<> B(I); Type*VT=isa<AtomicRMWInst>(I)?cast<AtomicRMWInst>(I)->getValOperand()->getType():cast<AtomicCmpXchgInst>(I)->getNewValOperand()->getType(); B.CreateCall(fFix,{I->getOperand(0),ConstantPointerNull::get(P),i64(DL->getTypeStoreSize(VT))}); return; }
    if(isa<LandingPadInst>(I)||isa<ResumeInst>(I)||isa<UnreachableInst>(I)||isa<FenceInst>(I)||isa<FCmpInst>(I)||isa<UnaryOperator>(I)) return;
    concOps(I);
  }
  void concOps(Instruction*I){ for(unsigned i=0;i<I->getNumOperands();++i){ Value*o=I->getOperand(i); if(isa<Constant>(o)||!isShTy(o->getType()))continue; Value*v=conc(o,I); I->setOperand(i,v);} }
  void run(){
    std::vector<Instruction*> work; ReversePostOrderTraversal<Function*> R(&F); std::set<BasicBlock*> seen; for(auto*bb:R){ seen.insert(bb); for(auto&I:*bb) work.push_back(&I);} 
    std::vector<BasicBlock*> dead; for(auto&bb:F) if(!seen.count(&bb)) dead.push_back(&bb); if(!dead.empty()) { DeleteDeadBlocks(dead); }
    prologue();
    for(auto*I:work) if(auto*ph=dyn_cast<PHINode>(I)) if(hasSh(ph->getType())){ IRBuilder<> B(ph); PHINode*sp=B.CreatePHI(shTy(ph->getType()),ph->getNumIncomingValues()); S[ph]=sp; phis.push_back({ph,sp}); }
    for(auto*I:work) if(!isa<PHINode>(I)) visit(I);
    for(auto&pr:phis){ for(unsigned i=0;i<pr.first->getNumIncomingValues();++i) pr.second->addIncoming(sh(pr.first->getIncomingValue(i)),pr.first->getIncomingBlock(i)); }
  }
};

static void fixByval(Function&F){ // caller-side copies made explicit
  std::vector<CallBase*> cs; for(auto&I:instructions(F)) if(auto*CB=dyn_cast<CallBase>(&I)) cs.push_back(CB);
  for(auto*CB:cs){ Function*cf=CB->getCalledFunction(); if(cf&&cf->isDeclaration())continue; for(unsigned i=0;i<CB->arg_size();++i) if(CB->isByValArgument(i)){ Type*T=CB->getParamByValType(i); IRBuilder<> EB(&*F.getEntryBlock().getFirstInsertionPt()); auto*A=EB.CreateAlloca(T); Align al=std::max(DL->getABITypeAlign(T),CB->getParamAlign(i).valueOrOne()); A->setAlignment(al); IRBuilder<> B(CB); B.CreateMemCpy(A,al,CB->getArgOperand(i),MaybeAlign(1),DL->getTypeAllocSize(T)); CB->setArgOperand(i,A); CB->removeParamAttr(i,Attribute::ByVal); } }
}

int main(int argc,char**argv){
  SMDiagnostic err; auto mod=parseIRFile(argv[1],err,C); if(!mod){err.print("symx-instr",errs());return 2;} M=mod.get(); DL=&M->getDataLayout();
  if(argc>3){ auto mb=MemoryBuffer::getFile(argv[3]); if(mb){ SmallVector<StringRef> ls; (*mb)->getBuffer().split(ls,'\n'); for(auto l:ls){ l=l.trim(); if(!l.empty()&&l[0]!='#') safeExt.insert(l.str()); } } }
  { DebugInfoFinder df; df.processModule(*M); for(auto*F:df.subprograms()){ std::string fn=F->getFilename().str(); if(!fn.empty()&&fn[0]!='/') fn=F->getDirectory().str()+"/"+fn; if((fn.find("/include/")!=std::string::npos&&fn.find("/usr/")!=0&&fn.find("/libs/")==std::string::npos)||fn.find("/cli/")!=std::string::npos){ size_t p=fn.find_last_of('/'); outs()<<"FN "<<fn.substr(p+1)<<":"<<F->getName()<<"\n"; } } }
  StripDebugInfo(*M);
  I1=Type::getInt1Ty(C);I8=Type::getInt8Ty(C);I16=Type::getInt16Ty(C);I32=Type::getInt32Ty(C);I64=Type::getInt64Ty(C);VoidT=Type::getVoidTy(C);P=PointerType::get(C,0);
  auto G=[&](const char*n,Type*T){ return new GlobalVariable(*M,T,false,GlobalValue::ExternalLinkage,nullptr,n); };
  gArgs=G("sx_args",ArrayType::get(P,64)); gTok=G("sx_tok",P); gRet=G("sx_ret",ArrayType::get(P,16)); gRetTok=G("sx_rettok",P); gVal=G("sx_val",I64); gFlags=G("sx_flags",P);
  auto D=[&](const char*n,Type*R,std::vector<Type*> a){ return M->getOrInsertFunction(n,FunctionType::get(R,a,false)); };
  fBin=D("sx_bin",P,{I32,I32,I64,P,I64,P}); fCmp=D("sx_cmp",P,{I32,I32,I64,P,I64,P}); fCast=D("sx_cast",P,{I32,I32,I32,P}); fSel=D("sx_select",P,{I32,I64,P,I64,P,I64,P});
  fBranch=D("sx_branch",I64,{P}); fConc=D("sx_conc",I64,{P,I64}); fLoad=D("sx_load",P,{P,P,I32,I32}); fStore=D("sx_store",VoidT,{P,P,I64,P,I32}); fGep=D("sx_gep",P,{I64,P,I64,P,I32,I64,I64}); fFix=D("sx_fix",P,{P,P,I64}); fClear=D("sx_clear",VoidT,{P,I64});
  fMemcpy=D("sx_memmove",VoidT,{P,P,P,P,I64,P}); fMemset=D("sx_memset",VoidT,{P,P,I64,P,I64,P}); fIntr=D("sx_intr",P,{I32,I32,I64,P,I64,P,I64,P}); fOvf=D("sx_ovf",P,{I32,I32,I64,P,I64,P}); fExtPtr=D("sx_extptr",VoidT,{P,P}); fIndChk=D("sx_indchk",VoidT,{I64});
  std::vector<Function*> fs; for(auto&F:*M) if(!F.isDeclaration()&&!F.isIntrinsic()) fs.push_back(&F);
  for(auto*F:fs){ // strip facts that no longer hold for the instrumented code
    fixByval(*F);
  }
  for(auto*F:fs) for(auto&A:F->args()) if(A.hasByValAttr()) A.removeAttr(Attribute::ByVal);
  AttributeMask AM; for(auto k:{Attribute::Memory,Attribute::ReadNone,Attribute::ReadOnly,Attribute::WriteOnly,Attribute::NoAlias,Attribute::NonNull,Attribute::NoUndef,Attribute::Dereferenceable,Attribute::DereferenceableOrNull,Attribute::NoCapture,Attribute::NoFree,Attribute::NoSync,Attribute::WillReturn,Attribute::MustProgress,Attribute::Speculatable,Attribute::Returned,Attribute::NoRecurse}) AM.addAttribute(k);
  auto strip=[&](AttributeList L,unsigned na){ L=L.removeFnAttributes(C,AM); L=L.removeRetAttributes(C,AM); for(unsigned i=0;i<na;++i)L=L.removeParamAttributes(C,i,AM); return L; };
  for(auto&F:*M) if(!F.isIntrinsic()){ F.setAttributes(strip(F.getAttributes(),F.arg_size())); if(!F.isDeclaration()){ F.setComdat(nullptr); if(F.hasLinkOnceLinkage()||F.hasWeakLinkage()||F.hasAvailableExternallyLinkage()) {F.setLinkage(GlobalValue::InternalLinkage); F.setVisibility(GlobalValue::DefaultVisibility);} } }
  std::vector<Instruction*> era; unsigned nI=0;
  for(auto*F:fs){ for(auto&I:instructions(*F)){ ++nI; I.dropPoisonGeneratingFlags(); SmallVector<std::pair<unsigned,MDNode*>> md; I.getAllMetadataOtherThanDebugLoc(md); for(auto&x:md) if(x.first!=LLVMContext::MD_prof) I.setMetadata(x.first,nullptr);
      if(auto*CB=dyn_cast<CallBase>(&I)){ if(!(CB->getCalledFunction()&&CB->getCalledFunction()->isIntrinsic())) CB->setAttributes(strip(CB->getAttributes(),CB->arg_size())); if(auto*CI=dyn_cast<CallInst>(CB)) { if(!CI->isMustTailCall()) CI->setTailCallKind(CallInst::TCK_None); } 
        if(CB->getCalledFunction()&&CB->getCalledFunction()->getIntrinsicID()==Intrinsic::assume) era.push_back(&I); } } }
  for(auto*I:era) I->eraseFromParent();
  for(auto*F:fs){ if(F->getName()=="main") continue; FI fi(*F); fi.run(); }
  unsigned nf=fs.size();
  for(auto& g:M->global_values()) if(!g.isDeclaration()){ if(isa<GlobalVariable>(g)&&(g.hasLinkOnceLinkage()||g.hasWeakLinkage())&&(g.getName().starts_with("_ZTV")||g.getName().starts_with("_ZTT"))) g.setVisibility(GlobalValue::HiddenVisibility); /* vtables of instrumented classes must not replace those the shared libraries use */ if(g.getLinkage()==GlobalValue::LinkOnceODRLinkage) g.setLinkage(GlobalValue::WeakODRLinkage); else if(g.getLinkage()==GlobalValue::LinkOnceAnyLinkage) g.setLinkage(GlobalValue::WeakAnyLinkage); } // llvm-split: keep definitions in their partition
  if(verifyModule(*M,&errs())){ errs()<<"symx-instr: broken module\n"; return 3; }
  std::error_code ec; raw_fd_ostream os(argv[2],ec); WriteBitcodeToFile(*M,os); os.flush();
  outs()<<"functions="<<nf<<" instructions="<<nI<<"\n"; outs().flush(); _exit(0);
}
