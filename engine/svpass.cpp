// svpass - LLVM 18 instrumentation pass: gives every SSA value and every memory
// byte a shadow symbolic expression (null = concrete).  The program keeps running
// natively on one concrete input; the runtime (svrt.cpp) builds the expressions and asks
// the SMT solver about every branch / assertion / address.
#include "llvm/IR/PassManager.h"
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstVisitor.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/MDBuilder.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include "llvm/ADT/DenseMap.h"
#include <set>
#include <map>
using namespace llvm;

namespace {

// external functions replaced by runtime models __svm_<name>
static const char *Modelled[] = {
  "memcpy","memmove","memset","memcmp","bcmp","strlen","strcmp","strncmp","memchr","strchr","strrchr",
  "strcpy","strncpy","strcat","strcasecmp","strncasecmp","malloc","calloc","realloc","free","strdup",
  "_Znwm","_Znam","_ZdlPv","_ZdaPv","_ZdlPvm","_ZdaPvm","_ZnwmRKSt9nothrow_t","_ZnamRKSt9nothrow_t",
  "tolower","toupper","isspace","isdigit","isalpha","isalnum","isprint","isxdigit","isupper","islower","abs","labs",
  // written as instrumented code in env/env_core.cpp
  "strtol","strtoul","strtoll","strtoull","__isoc23_strtol","__isoc23_strtoul","__isoc23_strtoll","__isoc23_strtoull","atoi","atol","atoll",
  "strstr","strspn","strcspn","strpbrk","memrchr","strnlen","strndup","memmem","rawmemchr","strchrnul","stpcpy","mempcpy",
  "ispunct","iscntrl","isgraph","isblank","llabs",
  nullptr };

struct SV {
  Module &M; LLVMContext &C; const DataLayout &DL;
  Type *I1,*I8,*I32,*I64,*I128,*Void; PointerType *P;
  ConstantPointerNull *Null;
  FunctionCallee Bin,BinW,Cmp,CmpW,Cast,FBin,FCmp,FCast,Sel,SelPtr,GepIdx,AddK,Branch,Switch,Load,Store,Vptr,
    Memcpy,Memset,Lifetime,Enter,RetVal,PreCall,Intr1,Intr2,Fsh,Ovf,Conc,ByVal,Unsup,Nop,AtomicClr,SetRet;
  GlobalVariable *Args,*ArgV,*Callee,*RetFn,*Rets;
  std::map<std::string,bool> modelled;
  unsigned ni=0;

  SV(Module &m):M(m),C(m.getContext()),DL(m.getDataLayout()){
    I1=Type::getInt1Ty(C);I8=Type::getInt8Ty(C);I32=Type::getInt32Ty(C);I64=Type::getInt64Ty(C);I128=Type::getInt128Ty(C);
    Void=Type::getVoidTy(C);P=PointerType::getUnqual(C);Null=ConstantPointerNull::get(P);
    auto F=[&](const char*n,Type*r,ArrayRef<Type*>a){return M.getOrInsertFunction(n,FunctionType::get(r,a,false));};
    Bin=F("__sv_bin",P,{I32,I32,P,I64,P,I64});
    BinW=F("__sv_binw",P,{I32,I32,P,I128,P,I128});
    Cmp=F("__sv_cmp",P,{I32,I32,P,I64,P,I64});
    CmpW=F("__sv_cmpw",P,{I32,I32,P,I128,P,I128});
    Cast=F("__sv_cast",P,{I32,I32,I32,P});
    FBin=F("__sv_fbin",P,{I32,I32,P,I64,P,I64});
    FCmp=F("__sv_fcmp",P,{I32,I32,P,I64,P,I64});
    FCast=F("__sv_fcast",P,{I32,I32,I32,P});
    Sel=F("__sv_select",P,{I32,P,I32,P,I64,P,I64});
    SelPtr=F("__sv_selptr",P,{P,I32,P,P});
    GepIdx=F("__sv_gepidx",P,{P,I64,P,I64,I32,I64});
    AddK=F("__sv_addk",P,{P,I64});
    Branch=F("__sv_branch",Void,{P,I32});
    Switch=F("__sv_switch",Void,{P,I32,I64,I32,P,P});
    Load=F("__sv_load",P,{P,I32,P});
    Store=F("__sv_store",Void,{P,I32,P,P});
    Vptr=F("__sv_vptr",Void,{P,P});
    Memcpy=F("__sv_memcpy",Void,{P,P,I64,P,P,P});
    Memset=F("__sv_memset",Void,{P,I32,I64,P,P,P});
    Lifetime=F("__sv_clear",Void,{P,I64});
    Enter=F("__sv_enter",P,{P});
    RetVal=F("__sv_retval",P,{P});
    PreCall=F("__sv_precall",Void,{P,I32});
    Intr1=F("__sv_intr1",P,{I32,I32,P,I64});
    Intr2=F("__sv_intr2",P,{I32,I32,P,I64,P,I64});
    Fsh=F("__sv_fsh",P,{I32,I32,P,I64,P,I64,P,I64});
    Ovf=F("__sv_ovf",P,{I32,I32,P,I64,P,I64});
    Conc=F("__sv_conc",Void,{P,I32,I64});
    ByVal=F("__sv_byval",Void,{P,P,I64});
    AtomicClr=F("__sv_atomic",Void,{P,I32,P,P});
    auto G=[&](const char*n,Type*t){return cast<GlobalVariable>(M.getOrInsertGlobal(n,t));};
    Args=G("__sv_args",ArrayType::get(P,64));
    ArgV=G("__sv_argv",ArrayType::get(I64,64));
    Rets=G("__sv_rets",ArrayType::get(P,16));
    Callee=G("__sv_callee",P); RetFn=G("__sv_retfn",P);
    for(const char**p=Modelled;*p;p++)modelled[*p]=true;
  }

  Type* shTy(Type*t){
    if(auto*s=dyn_cast<StructType>(t)){std::vector<Type*>v;for(auto*e:s->elements())v.push_back(shTy(e));return StructType::get(C,v);}
    if(auto*a=dyn_cast<ArrayType>(t))return ArrayType::get(shTy(a->getElementType()),a->getNumElements());
    if(auto*a=dyn_cast<FixedVectorType>(t))return ArrayType::get(P,a->getNumElements());
    return P;
  }
  Constant* zero(Type*t){return Constant::getNullValue(shTy(t));}
  void flat(Type*t,std::vector<std::pair<Type*,std::vector<unsigned>>>&out,std::vector<unsigned> pre={}){
    if(auto*s=dyn_cast<StructType>(t)){for(unsigned i=0;i<s->getNumElements();i++){auto q=pre;q.push_back(i);flat(s->getElementType(i),out,q);}}
    else if(auto*a=dyn_cast<ArrayType>(t)){for(unsigned i=0;i<a->getNumElements();i++){auto q=pre;q.push_back(i);flat(a->getElementType(),out,q);}}
    else if(auto*a=dyn_cast<FixedVectorType>(t)){for(unsigned i=0;i<a->getNumElements();i++){auto q=pre;q.push_back(i);out.push_back({a->getElementType(),q});}}
    else out.push_back({t,pre});
  }
  bool isScalar(Type*t){return t->isIntegerTy()||t->isPointerTy()||t->isFloatTy()||t->isDoubleTy();}
  unsigned W(Type*t){return t->isPointerTy()?64:(unsigned)t->getPrimitiveSizeInBits().getFixedValue()?(unsigned)t->getPrimitiveSizeInBits().getFixedValue():64;}

  struct FnState {
    DenseMap<Value*,Value*> sh;
    std::vector<std::pair<PHINode*,PHINode*>> phis;
  };
  FnState *S;
  Value* shadow(Value*v){
    if(isa<Constant>(v)||isa<InlineAsm>(v)||isa<MetadataAsValue>(v)) return zero(v->getType());
    auto it=S->sh.find(v); if(it!=S->sh.end())return it->second;
    return zero(v->getType());
  }
  bool isNull(Value*s){return isa<Constant>(s)&&cast<Constant>(s)->isNullValue();}
  Value* asI64(IRBuilder<>&B,Value*v){
    Type*t=v->getType();
    if(t->isPointerTy())return B.CreatePtrToInt(v,I64);
    if(t->isFloatTy())return B.CreateZExt(B.CreateBitCast(v,I32),I64);
    if(t->isDoubleTy())return B.CreateBitCast(v,I64);
    if(t->isIntegerTy()){ unsigned w=t->getIntegerBitWidth(); if(w<64)return B.CreateZExt(v,I64); if(w==64)return v; return B.CreateTrunc(v,I64);}
    return ConstantInt::get(I64,0);
  }
  Value* asI128(IRBuilder<>&B,Value*v){return B.CreateZExtOrTrunc(v,I128);}
  Value* c32(uint64_t v){return ConstantInt::get(I32,v);}
  Value* c64(uint64_t v){return ConstantInt::get(I64,v);}
  void nosan(Instruction*i){ i->setMetadata(LLVMContext::MD_nosanitize,MDNode::get(C,{})); }
  Value* fz(IRBuilder<>&B,Value*v){return v;}

  void conc(IRBuilder<>&B,Value*v){ // concretise v
    Value*s=shadow(v); if(isNull(s))return;
    if(isScalar(v->getType())) B.CreateCall(Conc,{s,c32(W(v->getType())),asI64(B,v)});
    else if(auto*vt=dyn_cast<FixedVectorType>(v->getType())){
      for(unsigned i=0;i<vt->getNumElements();i++){ Value*e=B.CreateExtractElement(v,(uint64_t)i); Value*es=B.CreateExtractValue(s,{i});
        if(isScalar(vt->getElementType()))B.CreateCall(Conc,{es,c32(W(vt->getElementType())),asI64(B,e)}); }
    }
  }
  void concAll(Instruction&I){ IRBuilder<> B(&I); for(Value*o:I.operands())conc(B,o); }

  // load shadow of type t at address (ptr,off)
  Value* loadSh(IRBuilder<>&B,Type*t,Value*ptr,Value*eptr){
    if(isScalar(t)){
      unsigned w=W(t); unsigned n=(w+7)/8;
      Value*e=B.CreateCall(Load,{ptr,c32(n),eptr});
      if(w%8)e=B.CreateCall(Cast,{c32(0),c32(n*8),c32(w),e});
      return e;
    }
    if(auto*s=dyn_cast<StructType>(t)){
      auto*L=DL.getStructLayout(s);Value*r=UndefValue::get(shTy(t));
      for(unsigned i=0;i<s->getNumElements();i++){
        uint64_t off=L->getElementOffset(i);
        Value*p=B.CreateConstInBoundsGEP1_64(I8,ptr,off);
        Value*e=isNull(eptr)?eptr:B.CreateCall(AddK,{eptr,c64(off)});
        r=B.CreateInsertValue(r,loadSh(B,s->getElementType(i),p,e),{i});
      } return r;
    }
    Type*et=nullptr;uint64_t n=0;
    if(auto*a=dyn_cast<ArrayType>(t)){et=a->getElementType();n=a->getNumElements();}
    else if(auto*a=dyn_cast<FixedVectorType>(t)){et=a->getElementType();n=a->getNumElements();}
    if(et){
      uint64_t sz=DL.getTypeAllocSize(et);Value*r=UndefValue::get(shTy(t));
      for(unsigned i=0;i<n;i++){
        Value*p=B.CreateConstInBoundsGEP1_64(I8,ptr,sz*i);
        Value*e=isNull(eptr)?eptr:B.CreateCall(AddK,{eptr,c64(sz*i)});
        r=B.CreateInsertValue(r,loadSh(B,et,p,e),{i});
      } return r;
    }
    return zero(t);
  }
  void storeSh(IRBuilder<>&B,Type*t,Value*ptr,Value*eptr,Value*s){
    if(isScalar(t)){
      unsigned w=W(t),n=(w+7)/8;
      if(w%8&&!isNull(s))s=B.CreateCall(Cast,{c32(1),c32(w),c32(n*8),s});
      B.CreateCall(Store,{ptr,c32(n),s,eptr});return;
    }
    if(auto*st=dyn_cast<StructType>(t)){
      auto*L=DL.getStructLayout(st);
      for(unsigned i=0;i<st->getNumElements();i++){
        uint64_t off=L->getElementOffset(i);
        Value*p=B.CreateConstInBoundsGEP1_64(I8,ptr,off);
        Value*e=isNull(eptr)?eptr:B.CreateCall(AddK,{eptr,c64(off)});
        storeSh(B,st->getElementType(i),p,e,isNull(s)?zero(st->getElementType(i)):B.CreateExtractValue(s,{i}));
      } return;
    }
    Type*et=nullptr;uint64_t n=0;
    if(auto*a=dyn_cast<ArrayType>(t)){et=a->getElementType();n=a->getNumElements();}
    else if(auto*a=dyn_cast<FixedVectorType>(t)){et=a->getElementType();n=a->getNumElements();}
    if(et){
      uint64_t sz=DL.getTypeAllocSize(et);
      for(unsigned i=0;i<n;i++){
        Value*p=B.CreateConstInBoundsGEP1_64(I8,ptr,sz*i);
        Value*e=isNull(eptr)?eptr:B.CreateCall(AddK,{eptr,c64(sz*i)});
        storeSh(B,et,p,e,isNull(s)?zero(et):B.CreateExtractValue(s,{i}));
      } return;
    }
    B.CreateCall(Lifetime,{ptr,c64(DL.getTypeStoreSize(t))});
  }

  void visit(Instruction&I){
    IRBuilder<> B(I.getNextNode()?I.getNextNode():&I);
    if(!I.isTerminator()) { B.SetInsertPoint(I.getNextNode()); B.SetCurrentDebugLocation(I.getDebugLoc()); }
    Type*T=I.getType();
    if(auto*L=dyn_cast<LoadInst>(&I)){
      IRBuilder<> B0(&I); Value*ep=shadow(L->getPointerOperand());
      // before load: address check; the shadow load does both
      S->sh[&I]=loadSh(B0,T,L->getPointerOperand(),ep);
      return;
    }
    if(auto*St=dyn_cast<StoreInst>(&I)){
      if(auto*T=St->getMetadata(LLVMContext::MD_tbaa))if(T->getNumOperands()>0)if(auto*N=dyn_cast<MDNode>(T->getOperand(0)))if(N->getNumOperands()>0)if(auto*Q=dyn_cast<MDString>(N->getOperand(0)))if(Q->getString()=="vtable pointer"&&St->getValueOperand()->getType()->isPointerTy())
        IRBuilder<>(&I).CreateCall(Vptr,{St->getPointerOperand(),St->getValueOperand()});
      IRBuilder<> B0(&I);
      storeSh(B0,St->getValueOperand()->getType(),St->getPointerOperand(),shadow(St->getPointerOperand()),shadow(St->getValueOperand()));
      return;
    }
    if(auto*A=dyn_cast<AllocaInst>(&I)){
      if(A->isArrayAllocation())conc(B,A->getArraySize());
      Value*sz=c64(DL.getTypeAllocSize(A->getAllocatedType()));
      if(A->isArrayAllocation())sz=B.CreateMul(sz,B.CreateZExtOrTrunc(A->getArraySize(),I64));
      // clear after all entry allocas (keeps static allocas grouped)
      if(A->isStaticAlloca()){ Instruction*p=A; while(isa<AllocaInst>(p))p=p->getNextNode(); B.SetInsertPoint(p); }
      B.CreateCall(Lifetime,{A,sz});
      return;
    }
    if(auto*BO=dyn_cast<BinaryOperator>(&I)){
      Value*a=I.getOperand(0),*b=I.getOperand(1);Value*sa=shadow(a),*sb=shadow(b);
      if(isNull(sa)&&isNull(sb))return;
      if(!isScalar(T)||(T->isIntegerTy()&&T->getIntegerBitWidth()>128)){concAll(I);return;}
      IRBuilder<> B0(&I); unsigned w=W(T);
      if(T->isIntegerTy()){
        if(w<=64)S->sh[&I]=B0.CreateCall(Bin,{c32(BO->getOpcode()),c32(w),sa,asI64(B0,a),sb,asI64(B0,b)});
        else S->sh[&I]=B0.CreateCall(BinW,{c32(BO->getOpcode()),c32(w),sa,asI128(B0,a),sb,asI128(B0,b)});
      } else S->sh[&I]=B0.CreateCall(FBin,{c32(BO->getOpcode()),c32(w),sa,asI64(B0,a),sb,asI64(B0,b)});
      return;
    }
    if(auto*U=dyn_cast<UnaryOperator>(&I)){ // fneg
      Value*a=I.getOperand(0);Value*sa=shadow(a); if(isNull(sa))return;
      if(!isScalar(T)){concAll(I);return;}
      unsigned w=W(T);
      S->sh[&I]=B.CreateCall(Bin,{c32(Instruction::Xor),c32(w),sa,asI64(B,a),Null,c64(w==64?0x8000000000000000ull:0x80000000ull)});
      (void)U;return;
    }
    if(isa<ICmpInst>(I)){
      auto&X=cast<ICmpInst>(I);Value*a=I.getOperand(0),*b=I.getOperand(1);Value*sa=shadow(a),*sb=shadow(b);
      if(isNull(sa)&&isNull(sb))return;
      if(!isScalar(a->getType())||W(a->getType())>128){concAll(I);return;}
      unsigned w=W(a->getType());
      if(w<=64)S->sh[&I]=B.CreateCall(Cmp,{c32(X.getPredicate()),c32(w),sa,asI64(B,a),sb,asI64(B,b)});
      else S->sh[&I]=B.CreateCall(CmpW,{c32(X.getPredicate()),c32(w),sa,asI128(B,a),sb,asI128(B,b)});
      return;
    }
    if(isa<FCmpInst>(I)){
      auto&X=cast<FCmpInst>(I);Value*a=I.getOperand(0),*b=I.getOperand(1);Value*sa=shadow(a),*sb=shadow(b);
      if(isNull(sa)&&isNull(sb))return;
      if(!isScalar(a->getType())){concAll(I);return;}
      S->sh[&I]=B.CreateCall(FCmp,{c32(X.getPredicate()),c32(W(a->getType())),sa,asI64(B,a),sb,asI64(B,b)});
      return;
    }
    if(auto*X=dyn_cast<CastInst>(&I)){
      Value*a=I.getOperand(0);Value*sa=shadow(a);if(isNull(sa))return;
      Type*F=a->getType();
      if(!isScalar(F)||!isScalar(T)){
        if(isa<BitCastInst>(X)&&shTy(F)==shTy(T)){S->sh[&I]=sa;return;}
        concAll(I);return;}
      switch(X->getOpcode()){
      case Instruction::Trunc:S->sh[&I]=B.CreateCall(Cast,{c32(0),c32(W(F)),c32(W(T)),sa});break;
      case Instruction::ZExt:S->sh[&I]=B.CreateCall(Cast,{c32(1),c32(W(F)),c32(W(T)),sa});break;
      case Instruction::SExt:S->sh[&I]=B.CreateCall(Cast,{c32(2),c32(W(F)),c32(W(T)),sa});break;
      case Instruction::PtrToInt:case Instruction::IntToPtr:case Instruction::BitCast:
        if(W(F)==W(T))S->sh[&I]=sa; else S->sh[&I]=B.CreateCall(Cast,{c32(W(T)<W(F)?0:1),c32(W(F)),c32(W(T)),sa});break;
      case Instruction::FPToUI:{IRBuilder<>B0(&I);S->sh[&I]=B0.CreateCall(FCast,{c32(0),c32(W(F)),c32(W(T)),sa});break;}
      case Instruction::FPToSI:{IRBuilder<>B0(&I);S->sh[&I]=B0.CreateCall(FCast,{c32(1),c32(W(F)),c32(W(T)),sa});break;}
      case Instruction::UIToFP:S->sh[&I]=B.CreateCall(FCast,{c32(2),c32(W(F)),c32(W(T)),sa});break;
      case Instruction::SIToFP:S->sh[&I]=B.CreateCall(FCast,{c32(3),c32(W(F)),c32(W(T)),sa});break;
      case Instruction::FPTrunc:case Instruction::FPExt:S->sh[&I]=B.CreateCall(FCast,{c32(4),c32(W(F)),c32(W(T)),sa});break;
      default:concAll(I);
      }
      return;
    }
    if(auto*X=dyn_cast<SelectInst>(&I)){
      Value*c=X->getCondition();Value*sc=shadow(c),*sa=shadow(X->getTrueValue()),*sb=shadow(X->getFalseValue());
      if(isNull(sc)&&isNull(sa)&&isNull(sb))return;
      if(!c->getType()->isIntegerTy(1)){concAll(I);return;}
      if(!isNull(sc)&&isScalar(T)&&!T->isPointerTy()&&W(T)<=64){
        S->sh[&I]=B.CreateCall(Sel,{c32(W(T)),sc,B.CreateZExt(c,I32),sa,asI64(B,X->getTrueValue()),sb,asI64(B,X->getFalseValue())});
      }else if(!isNull(sc)){
        IRBuilder<>B0(&I); B0.CreateCall(Branch,{sc,B0.CreateZExt(c,I32)});
        S->sh[&I]=B.CreateSelect(c,sa,sb);
      }else S->sh[&I]=B.CreateSelect(c,sa,sb);
      return;
    }
    if(auto*G=dyn_cast<GetElementPtrInst>(&I)){
      if(!T->isPointerTy())return;
      Value*cur=shadow(G->getPointerOperand());bool any=!isNull(cur);
      for(auto&ix:G->indices())if(!isNull(shadow(ix)))any=true;
      if(!any)return;
      Value*cv=B.CreatePtrToInt(G->getPointerOperand(),I64);
      uint64_t k=0;
      for(auto GTI=gep_type_begin(G),E=gep_type_end(G);GTI!=E;++GTI){
        Value*ix=GTI.getOperand();
        if(StructType*st=GTI.getStructTypeOrNull()){
          k+=DL.getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue());
        }else{
          uint64_t sc=DL.getTypeAllocSize(GTI.getIndexedType());
          if(auto*ci=dyn_cast<ConstantInt>(ix))k+=sc*ci->getSExtValue();
          else{
            Value*ext=B.CreateSExtOrTrunc(ix,I64);
            cur=B.CreateCall(GepIdx,{cur,cv,shadow(ix),ext,c32(W(ix->getType())),c64(sc)});
            cv=B.CreateAdd(cv,B.CreateMul(ext,c64(sc)));
          }
        }
      }
      if(k)cur=B.CreateCall(AddK,{cur,c64(k)});
      S->sh[&I]=cur;return;
    }
    if(auto*PN=dyn_cast<PHINode>(&I)){
      PHINode*n=PHINode::Create(shTy(T),PN->getNumIncomingValues(),"",PN);
      S->sh[&I]=n;S->phis.push_back({PN,n});return;
    }
    if(auto*X=dyn_cast<ExtractValueInst>(&I)){Value*s=shadow(X->getAggregateOperand());if(isNull(s))return;S->sh[&I]=B.CreateExtractValue(s,X->getIndices());return;}
    if(auto*X=dyn_cast<InsertValueInst>(&I)){Value*s=shadow(X->getAggregateOperand()),*v=shadow(X->getInsertedValueOperand());if(isNull(s)&&isNull(v))return;S->sh[&I]=B.CreateInsertValue(s,v,X->getIndices());return;}
    if(auto*X=dyn_cast<ExtractElementInst>(&I)){Value*s=shadow(X->getVectorOperand());if(isNull(s))return;
      if(auto*ci=dyn_cast<ConstantInt>(X->getIndexOperand())){S->sh[&I]=B.CreateExtractValue(s,{(unsigned)ci->getZExtValue()});return;} concAll(I);return;}
    if(auto*X=dyn_cast<InsertElementInst>(&I)){Value*s=shadow(X->getOperand(0)),*v=shadow(X->getOperand(1));if(isNull(s)&&isNull(v))return;
      if(auto*ci=dyn_cast<ConstantInt>(X->getOperand(2))){S->sh[&I]=B.CreateInsertValue(s,v,{(unsigned)ci->getZExtValue()});return;} concAll(I);return;}
    if(auto*X=dyn_cast<ShuffleVectorInst>(&I)){Value*s0=shadow(X->getOperand(0)),*s1=shadow(X->getOperand(1));if(isNull(s0)&&isNull(s1))return;
      unsigned n0=cast<FixedVectorType>(X->getOperand(0)->getType())->getNumElements();Value*r=zero(T);unsigned k=0;
      for(int m:X->getShuffleMask()){ if(m>=0){Value*e=(unsigned)m<n0?B.CreateExtractValue(s0,{(unsigned)m}):B.CreateExtractValue(s1,{(unsigned)m-n0}); r=B.CreateInsertValue(r,e,{k});} k++; }
      S->sh[&I]=r;return;}
    if(auto*X=dyn_cast<FreezeInst>(&I)){Value*s=shadow(X->getOperand(0));if(!isNull(s))S->sh[&I]=s;return;}
    if(auto*X=dyn_cast<BranchInst>(&I)){
      if(!X->isConditional())return;Value*s=shadow(X->getCondition());if(isNull(s))return;
      IRBuilder<>B0(&I);B0.CreateCall(Branch,{s,B0.CreateZExt(X->getCondition(),I32)});return;
    }
    if(auto*X=dyn_cast<SwitchInst>(&I)){
      Value*s=shadow(X->getCondition());if(isNull(s))return;
      if(W(X->getCondition()->getType())>64){IRBuilder<>B0(&I);conc(B0,X->getCondition());return;}
      std::vector<Constant*> vals,tg;std::map<BasicBlock*,unsigned> id;
      for(auto&c:X->cases()){
        if(c.getCaseSuccessor()==X->getDefaultDest())continue;
        auto it=id.insert({c.getCaseSuccessor(),(unsigned)id.size()}).first;
        vals.push_back(ConstantInt::get(I64,c.getCaseValue()->getZExtValue()));tg.push_back(ConstantInt::get(I32,it->second));
      }
      auto*av=ConstantArray::get(ArrayType::get(I64,vals.size()),vals);auto*at=ConstantArray::get(ArrayType::get(I32,tg.size()),tg);
      auto*gv=new GlobalVariable(M,av->getType(),true,GlobalValue::PrivateLinkage,av,"__sv_sw");
      auto*gt=new GlobalVariable(M,at->getType(),true,GlobalValue::PrivateLinkage,at,"__sv_swt");
      GlobalValue::SanitizerMetadata MD; MD.NoAddress=true; gv->setSanitizerMetadata(MD); gt->setSanitizerMetadata(MD);
      IRBuilder<>B0(&I);
      B0.CreateCall(Switch,{s,c32(W(X->getCondition()->getType())),asI64(B0,X->getCondition()),c32(vals.size()),gv,gt});
      return;
    }
    if(auto*X=dyn_cast<ReturnInst>(&I)){
      Value*v=X->getReturnValue();if(!v)return;
      IRBuilder<>B0(&I);
      if(auto*prev=X->getPrevNode())if(auto*ci=dyn_cast<CallInst>(prev))if(ci->isMustTailCall()){return;}
      Value*s=shadow(v);
      std::vector<std::pair<Type*,std::vector<unsigned>>> fl;flat(v->getType(),fl);
      if(fl.size()>16)return;
      if(isNull(s))return; // retfn stays != this fn -> caller sees null
      for(unsigned i=0;i<fl.size();i++){
        Value*e=fl[i].second.empty()?s:B0.CreateExtractValue(s,fl[i].second);
        nosan(B0.CreateStore(e,B0.CreateConstInBoundsGEP2_64(ArrayType::get(P,16),Rets,0,i)));
      }
      nosan(B0.CreateStore(I.getFunction(),RetFn));
      return;
    }
    if(auto*X=dyn_cast<AtomicRMWInst>(&I)){ IRBuilder<>B0(&I);B0.CreateCall(AtomicClr,{X->getPointerOperand(),c32(DL.getTypeStoreSize(X->getValOperand()->getType())),shadow(X->getPointerOperand()),shadow(X->getValOperand())});return;}
    if(auto*X=dyn_cast<AtomicCmpXchgInst>(&I)){ IRBuilder<>B0(&I);B0.CreateCall(AtomicClr,{X->getPointerOperand(),c32(DL.getTypeStoreSize(X->getNewValOperand()->getType())),shadow(X->getPointerOperand()),shadow(X->getNewValOperand())});return;}
    if(auto*CB=dyn_cast<CallBase>(&I)){call(*CB);return;}
    if(isa<LandingPadInst>(I)||isa<ResumeInst>(I)||isa<UnreachableInst>(I)||isa<FenceInst>(I))return;
    concAll(I);
  }

  void call(CallBase&CB){
    Type*T=CB.getType();
    IRBuilder<>B0(&CB);
    if(auto*II=dyn_cast<IntrinsicInst>(&CB)){intr(*II);return;}
    if(CB.isInlineAsm()){concAll(CB);return;}
    Function*F=dyn_cast<Function>(CB.getCalledOperand()->stripPointerCasts());
    if(F&&F->getName().starts_with("__sv"))return;
    if(F&&F->isDeclaration()&&modelled.count(F->getName().str())){
      FunctionCallee R=M.getOrInsertFunction(("__svm_"+F->getName()).str(),CB.getFunctionType());
      CB.setCalledOperand(R.getCallee());
      CB.setAttributes(AttributeList()); // drop nobuiltin/allocsize etc
      F=nullptr;
    }
    Value*callee=CB.getCalledOperand();
    if(!F||!isa<Function>(callee)){ if(!isa<Function>(callee)) conc(B0,callee); }
    bool extOrInd=!isa<Function>(callee)||cast<Function>(callee)->isDeclaration();
    // callee resolves to a possibly-weak body: still goes through the same protocol
    unsigned slot=0;bool anyArg=false;
    std::vector<std::pair<Value*,Value*>> byv;
    for(unsigned i=0;i<CB.arg_size();i++){
      Value*a=CB.getArgOperand(i);Type*at=a->getType();
      if(at->isMetadataTy())continue;
      bool bv=CB.isByValArgument(i);
      std::vector<std::pair<Type*,std::vector<unsigned>>> fl;flat(at,fl);
      Value*s=shadow(a);
      for(auto&f:fl){
        if(slot>=60)break;
        Value*e=isNull(s)?(Value*)Null:(f.second.empty()?s:B0.CreateExtractValue(s,f.second));
        if(bv)e=a; // byval: hand the source address over in the slot
        nosan(B0.CreateStore(e,B0.CreateConstInBoundsGEP2_64(ArrayType::get(P,64),Args,0,slot)));
        if(extOrInd){
          Value*v=f.second.empty()?asI64(B0,a):c64(0);
          nosan(B0.CreateStore(v,B0.CreateConstInBoundsGEP2_64(ArrayType::get(I64,64),ArgV,0,slot)));
        }
        slot++;anyArg=true;
      }
    }
    if(extOrInd){ B0.CreateCall(PreCall,{callee,c32(slot)}); }
    else { nosan(B0.CreateStore(callee,Callee)); }
    bool wantRet=!T->isVoidTy();
    if(wantRet&&!extOrInd)nosan(B0.CreateStore(Null,RetFn));
    if(wantRet){
      if(auto*ci=dyn_cast<CallInst>(&CB))if(ci->isMustTailCall())return;
      std::vector<std::pair<Type*,std::vector<unsigned>>> fl;flat(T,fl);
      if(fl.size()>16)return;
      IRBuilder<> B(C);
      if(auto*Iv=dyn_cast<InvokeInst>(&CB)){
        BasicBlock*nd=Iv->getNormalDest();
        // normal dest made single-predecessor beforehand
        B.SetInsertPoint(&*nd->getFirstInsertionPt());
      }else B.SetInsertPoint(CB.getNextNode());
      B.SetCurrentDebugLocation(CB.getDebugLoc());
      Value*rp=B.CreateCall(RetVal,{callee});
      Value*r=UndefValue::get(shTy(T));
      for(unsigned i=0;i<fl.size();i++){
        auto*l=B.CreateLoad(P,B.CreateConstInBoundsGEP1_64(P,rp,i));nosan(l);
        if(fl[i].second.empty())r=l;else r=B.CreateInsertValue(r,l,fl[i].second);
      }
      S->sh[&CB]=r;
    }
    (void)anyArg;
  }

  void intr(IntrinsicInst&I){
    IRBuilder<>B(&I); auto id=I.getIntrinsicID();Type*T=I.getType();
    auto A=[&](unsigned i){return I.getArgOperand(i);};
    auto anySh=[&]{for(auto&a:I.args())if(!a->getType()->isMetadataTy()&&!isNull(shadow(a)))return true;return false;};
    switch(id){
    case Intrinsic::memcpy:case Intrinsic::memmove:case Intrinsic::memcpy_inline:
      B.CreateCall(Memcpy,{A(0),A(1),B.CreateZExtOrTrunc(A(2),I64),shadow(A(0)),shadow(A(1)),shadow(A(2))});return;
    case Intrinsic::memset:case Intrinsic::memset_inline:
      B.CreateCall(Memset,{A(0),B.CreateZExt(A(1),I32),B.CreateZExtOrTrunc(A(2),I64),shadow(A(0)),shadow(A(1)),shadow(A(2))});return;
    case Intrinsic::lifetime_start:{
      if(auto*ci=dyn_cast<ConstantInt>(A(0)))if(ci->getSExtValue()>0){IRBuilder<>B2(I.getNextNode());B2.CreateCall(Lifetime,{A(1),c64(ci->getZExtValue())});}
      return;}
    case Intrinsic::lifetime_end:case Intrinsic::dbg_declare:case Intrinsic::dbg_value:case Intrinsic::dbg_label:case Intrinsic::assume:
    case Intrinsic::experimental_noalias_scope_decl:case Intrinsic::stacksave:case Intrinsic::stackrestore:case Intrinsic::eh_typeid_for:
    case Intrinsic::invariant_start:case Intrinsic::invariant_end:case Intrinsic::vastart:case Intrinsic::vaend:case Intrinsic::trap:case Intrinsic::prefetch:case Intrinsic::donothing:
      return;
    default:break;
    }
    if(!anySh())return;
    auto one=[&](unsigned k){ if(!isScalar(T)||W(T)>64){concAll(I);return;} S->sh[&I]=B.CreateCall(Intr1,{c32(k),c32(W(A(0)->getType())),shadow(A(0)),asI64(B,A(0))}); };
    auto two=[&](unsigned k){ if(!isScalar(T)||W(T)>64){concAll(I);return;} S->sh[&I]=B.CreateCall(Intr2,{c32(k),c32(W(T)),shadow(A(0)),asI64(B,A(0)),shadow(A(1)),asI64(B,A(1))}); };
    auto ovf=[&](unsigned op,unsigned k){
      unsigned w=W(A(0)->getType()); if(!A(0)->getType()->isIntegerTy()||w>64){concAll(I);return;}
      Value*v=B.CreateCall(Bin,{c32(op),c32(w),shadow(A(0)),asI64(B,A(0)),shadow(A(1)),asI64(B,A(1))});
      Value*o=B.CreateCall(Ovf,{c32(k),c32(w),shadow(A(0)),asI64(B,A(0)),shadow(A(1)),asI64(B,A(1))});
      Value*r=UndefValue::get(shTy(T));r=B.CreateInsertValue(r,v,{0});r=B.CreateInsertValue(r,o,{1});S->sh[&I]=r;
    };
    switch(id){
    case Intrinsic::ctpop:one(0);return;
    case Intrinsic::ctlz:one(1);return;
    case Intrinsic::cttz:one(2);return;
    case Intrinsic::bswap:one(3);return;
    case Intrinsic::abs:one(4);return;
    case Intrinsic::fabs:one(5);return;
    case Intrinsic::bitreverse:one(6);return;
    case Intrinsic::floor:one(7);return; case Intrinsic::ceil:one(8);return; case Intrinsic::trunc:one(9);return; case Intrinsic::rint:case Intrinsic::nearbyint:case Intrinsic::roundeven:one(10);return;
    case Intrinsic::sqrt:one(11);return;
    case Intrinsic::umin:two(0);return;case Intrinsic::umax:two(1);return;case Intrinsic::smin:two(2);return;case Intrinsic::smax:two(3);return;
    case Intrinsic::uadd_sat:two(4);return;case Intrinsic::usub_sat:two(5);return;
    case Intrinsic::copysign:two(6);return;
    case Intrinsic::fshl:case Intrinsic::fshr:
      if(!isScalar(T)||W(T)>64){concAll(I);return;}
      S->sh[&I]=B.CreateCall(Fsh,{c32(id==Intrinsic::fshl?0:1),c32(W(T)),shadow(A(0)),asI64(B,A(0)),shadow(A(1)),asI64(B,A(1)),shadow(A(2)),asI64(B,A(2))});return;
    case Intrinsic::uadd_with_overflow:ovf(Instruction::Add,0);return;
    case Intrinsic::sadd_with_overflow:ovf(Instruction::Add,1);return;
    case Intrinsic::usub_with_overflow:ovf(Instruction::Sub,2);return;
    case Intrinsic::ssub_with_overflow:ovf(Instruction::Sub,3);return;
    case Intrinsic::umul_with_overflow:ovf(Instruction::Mul,4);return;
    case Intrinsic::smul_with_overflow:ovf(Instruction::Mul,5);return;
    case Intrinsic::fmuladd:case Intrinsic::fma:
      if(id==Intrinsic::fmuladd&&isScalar(T)){
        Value*m=B.CreateFMul(A(0),A(1));
        Value*em=B.CreateCall(FBin,{c32(Instruction::FMul),c32(W(T)),shadow(A(0)),asI64(B,A(0)),shadow(A(1)),asI64(B,A(1))});
        S->sh[&I]=B.CreateCall(FBin,{c32(Instruction::FAdd),c32(W(T)),em,asI64(B,m),shadow(A(2)),asI64(B,A(2))});return;}
      concAll(I);return;
    case Intrinsic::expect:case Intrinsic::launder_invariant_group:case Intrinsic::strip_invariant_group:S->sh[&I]=shadow(A(0));return;
    case Intrinsic::is_constant:case Intrinsic::objectsize:return;
    default:concAll(I);return;
    }
  }

  void run(Function&F){
    FnState st;S=&st;
    // normal destinations of invokes with a result get a single predecessor
    std::vector<InvokeInst*> inv;
    for(auto&BB:F)if(auto*I=dyn_cast<InvokeInst>(BB.getTerminator()))if(!I->getType()->isVoidTy())inv.push_back(I);
    for(auto*I:inv)if(!I->getNormalDest()->getSinglePredecessor())SplitEdge(I->getParent(),I->getNormalDest());
      else if(isa<PHINode>(I->getNormalDest()->front())) SplitEdge(I->getParent(),I->getNormalDest());
    std::vector<Instruction*> all;
    // order: reverse post order so defs come before uses
    std::vector<BasicBlock*> order;{ std::set<BasicBlock*> seen; std::vector<std::pair<BasicBlock*,succ_iterator>> stk; std::vector<BasicBlock*> post;
      seen.insert(&F.getEntryBlock());stk.push_back({&F.getEntryBlock(),succ_begin(&F.getEntryBlock())});
      while(!stk.empty()){auto&t=stk.back();if(t.second==succ_end(t.first)){post.push_back(t.first);stk.pop_back();}else{BasicBlock*n=*t.second;++t.second;if(seen.insert(n).second)stk.push_back({n,succ_begin(n)});}}
      order.assign(post.rbegin(),post.rend()); }
    for(auto*BB:order)for(auto&I:*BB)all.push_back(&I);
    // entry: argument shadows
    { Instruction*ip=&*F.getEntryBlock().getFirstInsertionPt(); while(isa<AllocaInst>(ip))ip=ip->getNextNode();
      IRBuilder<>B(ip);
      if(F.arg_size()){
        Value*ap=B.CreateCall(Enter,{&F});unsigned slot=0;
        for(auto&A:F.args()){
          std::vector<std::pair<Type*,std::vector<unsigned>>> fl;flat(A.getType(),fl);
          Value*r=zero(A.getType());
          for(auto&f:fl){ if(slot>=60)break;
            auto*l=B.CreateLoad(P,B.CreateConstInBoundsGEP1_64(P,ap,slot));nosan(l);slot++;
            if(A.hasByValAttr()){ B.CreateCall(ByVal,{&A,l,c64(DL.getTypeAllocSize(A.getParamByValType()))}); continue; }
            if(f.second.empty())r=l;else r=B.CreateInsertValue(r,l,f.second);
          }
          st.sh[&A]=r;
        }
      }
    }
    for(auto*I:all){visit(*I);}
    for(auto&p:st.phis){
      for(unsigned i=0;i<p.first->getNumIncomingValues();i++){
        p.second->addIncoming(shadow(p.first->getIncomingValue(i)),p.first->getIncomingBlock(i));
      }
    }
    // group shadow phis with the phis: they were inserted directly before each phi, fine
  }
};

struct SVPass:PassInfoMixin<SVPass>{
  PreservedAnalyses run(Module&M,ModuleAnalysisManager&){
    SV s(M);std::vector<Function*> fs;
    for(auto&F:M)if(!F.isDeclaration()&&!F.getName().starts_with("__sv")&&!F.getName().starts_with("asan.")&&F.getLinkage()!=GlobalValue::AvailableExternallyLinkage)fs.push_back(&F);
    for(auto*F:fs){
      s.run(*F);
      F->removeFnAttr(Attribute::Memory); F->removeFnAttr(Attribute::NoSync);F->removeFnAttr(Attribute::NoFree);F->removeFnAttr(Attribute::WillReturn);
    }
    for(auto&F:M){F.removeFnAttr(Attribute::Memory);F.removeFnAttr(Attribute::Speculatable);
      for(unsigned i=0;i<F.arg_size();i++){F.removeParamAttr(i,Attribute::ReadNone);F.removeParamAttr(i,Attribute::ReadOnly);F.removeParamAttr(i,Attribute::WriteOnly);F.removeParamAttr(i,Attribute::NoCapture);F.removeParamAttr(i,Attribute::NoAlias);}
      for(auto&BB:F)for(auto&I:BB)if(auto*C=dyn_cast<CallBase>(&I)){if(!isa<IntrinsicInst>(C)){C->removeFnAttr(Attribute::Memory);
        if(auto*ci=dyn_cast<CallInst>(C))if(!ci->isMustTailCall())ci->setTailCallKind(CallInst::TCK_None);}}
    }
    return PreservedAnalyses::none();
  }
  static bool isRequired(){return true;}
};
}
extern "C" LLVM_ATTRIBUTE_WEAK PassPluginLibraryInfo llvmGetPassPluginInfo(){
  return {LLVM_PLUGIN_API_VERSION,"svpass","1",[](PassBuilder&PB){
    PB.registerPipelineParsingCallback([](StringRef N,ModulePassManager&MPM,ArrayRef<PassBuilder::PipelineElement>){
      if(N=="sv"){MPM.addPass(SVPass());return true;}return false;});
  }};
}
