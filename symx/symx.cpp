#include <functional>
// symx: concolic (SAGE style generational) symbolic executor for LLVM 18 bitcode.
#include "expr.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <poll.h>
#include <unistd.h>
#include <signal.h>
#include <time.h>
#include <map>
#include <set>
#include <string>
#include <algorithm>
using namespace llvm;
using std::vector; using std::string;

static double now(){ timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+t.tv_nsec*1e-9; }
static Ctx C;

// ------------------------------------------------------------------ memory
static u8 *const ARENA=(u8*)0x200000000ull;
static const u64 STK_SZ=64ull<<20, GLB_SZ=32ull<<20, HEAP_SZ=1024ull<<20, TOT=STK_SZ+GLB_SZ+HEAP_SZ;
struct Sh { Expr*whole; u16 idx,n; };
static u8*FLG; static Sh*SHD;
static u64 stk, stkHigh, glb, glbTop, heap;
static std::unordered_map<u64,u64> blocks;
enum { FL_OK=1,FL_SYM=2,FL_RO=4 };
static inline bool inArena(u64 a,u64 n){ return a>=(u64)ARENA && a+n<=(u64)ARENA+TOT; }
static inline u64 off(u64 a){ return a-(u64)ARENA; }

struct V { u128 c; Expr*s; };

// ------------------------------------------------------------------ predecoded program
enum IOp : u16 { I_ADD,I_SUB,I_MUL,I_UDIV,I_SDIV,I_UREM,I_SREM,I_AND,I_OR,I_XOR,I_SHL,I_LSHR,I_ASHR,
  I_FADD,I_FSUB,I_FMUL,I_FDIV,I_FREM,I_FNEG,I_ICMP,I_FCMP,I_SELECT,I_TRUNC,I_ZEXT,I_SEXT,I_FPTRUNC,I_FPEXT,I_FPTOSI,I_FPTOUI,I_SITOFP,I_UITOFP,I_BITI2F,I_BITF2I,I_COPY,
  I_LOAD,I_STORE,I_GEP,I_ALLOCA,I_BR,I_CBR,I_SWITCH,I_RET,I_CALL,I_INSV,I_EXTV,I_UNREACH,I_BUILTIN,I_NOP };
struct Leaf { u32 off; u16 w; bool fp; bool ptr; };
struct Edge { int pc; vector<std::pair<int,int>> cp; };
struct GepT { int opnd; i64 mul; u8 w; };
struct Fn;
struct Ins { IOp op; u16 w=0, w2=0; u8 pred=0; bool fp=false, ptr=false; u8 res=0; int dst=-1; int a=0,b=0,c=0; u32 n=1; i64 imm=0;
  vector<Leaf>*lv=0; vector<GepT>*gt=0; vector<int>*args=0; vector<Leaf>*at=0; vector<u32>*byval=0; vector<std::pair<u128,int>>*cases=0; Fn*callee=0; int bi=0; Instruction*src=0; };
struct Fn { Function*F; string name; vector<Ins> code; vector<V> consts; vector<Edge> edges; int nslots=0; int nargs=0; vector<Leaf> argl; u64 addr=0; int bi=-1; bool decoded=false; bool executed=false; u32 nfix=0; bool var=false; };
static std::map<Function*,Fn*> fns; static std::unordered_map<u64,Fn*> fnAddr; static std::map<GlobalVariable*,u64> gaddr;
static Module*M; static DataLayout const*DL;
static vector<Fn*> fnList;

enum BI { B_NONE,B_NOP,B_ZERO,B_MEMCPY,B_MEMSET,B_MALLOC,B_CALLOC,B_REALLOC,B_FREE,B_ABORT,B_EXIT,B_ASSERTFAIL,B_MATH1,B_MATH2,B_FABS,B_FLOOR,B_CEIL,B_RNE,B_TRUNC,B_LRINT,B_LDEXP,B_FREXP,B_MAXNUM,B_MINNUM,B_FMULADD,B_MINMAX,B_ABS,B_CTLZ,B_CTTZ,B_CTPOP,B_BSWAP,B_FSHL,B_FSHR,B_OVF,B_VASTART,B_VACOPY,B_SNPRINTF,B_VSNPRINTF,B_STRTODC,B_ERRNO,B_EXPECT,B_OBJSIZE,B_ISNAN,B_ROUND,B_COPYSIGN,
  B_SX_INT,B_SX_BYTE,B_SX_U64,B_SX_ASSUME,B_SX_ASSERT,B_SX_REACH,B_SX_PARAM,B_SX_CONC,B_SX_OPT,B_SX_ISSYM,B_SX_END,B_SX_NOTE,B_SX_CONCD,B_SX_MUTE,B_SX_HAVOC,B_UNKNOWN,B_SATARITH,B_FPCLASS };

static void flatten(Type*T,u32 o,vector<Leaf>&out){
  if(auto*S=dyn_cast<StructType>(T)){ auto*L=DL->getStructLayout(S); for(unsigned i=0;i<S->getNumElements();i++) flatten(S->getElementType(i),o+(u32)L->getElementOffset(i),out); }
  else if(auto*A=dyn_cast<ArrayType>(T)){ u32 es=DL->getTypeAllocSize(A->getElementType()); for(u64 i=0;i<A->getNumElements();i++) flatten(A->getElementType(),o+i*es,out); }
  else if(T->isVoidTy()){} 
  else { Leaf l; l.off=o; l.fp=T->isFloatTy()||T->isDoubleTy(); l.ptr=T->isPointerTy(); if(T->isVectorTy()||T->isX86_FP80Ty()||T->isFP128Ty()){ string s; raw_string_ostream os(s); T->print(os); fprintf(stderr,"symx: unsupported type %s\n",os.str().c_str()); exit(3);} l.w=l.ptr?64:(u16)DL->getTypeSizeInBits(T); out.push_back(l); } }
static u32 nleaf(Type*T){ vector<Leaf> l; flatten(T,0,l); return l.size(); }
static u32 leafIndex(Type*T,ArrayRef<unsigned> idx,Type*&R){ u32 r=0; for(unsigned i:idx){ if(auto*S=dyn_cast<StructType>(T)){ for(unsigned j=0;j<i;j++) r+=nleaf(S->getElementType(j)); T=S->getElementType(i);} else { auto*A=cast<ArrayType>(T); r+=i*nleaf(A->getElementType()); T=A->getElementType(); } } R=T; return r; }

static Fn* getFn(Function*F);
static u64 galloc(u64 size,u64 al,bool ro){ if(al<16)al=16; u64 a=(glb+al-1)/al*al; glb=a+size+32; if(off(glb)>STK_SZ+GLB_SZ){fprintf(stderr,"symx: globals too big\n");exit(3);} memset(FLG+off(a),FL_OK|(ro?FL_RO:0),size); return a; }
static void constVal(Constant*K,vector<V>&out){
  if(auto*I=dyn_cast<ConstantInt>(K)){ APInt const&a=I->getValue(); u128 v=a.getRawData()[0]; if(a.getNumWords()>1) v|=(u128)a.getRawData()[1]<<64; out.push_back({v&MASK(a.getBitWidth()),0}); return; }
  if(auto*F=dyn_cast<ConstantFP>(K)){ APInt a=F->getValueAPF().bitcastToAPInt(); out.push_back({a.getZExtValue(),0}); return; }
  if(isa<ConstantPointerNull>(K)){ out.push_back({0,0}); return; }
  if(isa<UndefValue>(K)||isa<ConstantAggregateZero>(K)){ u32 n=nleaf(K->getType()); for(u32 i=0;i<n;i++) out.push_back({0,0}); return; }
  if(auto*G=dyn_cast<GlobalVariable>(K)){ out.push_back({gaddr.at(G),0}); return; }
  if(auto*F=dyn_cast<Function>(K)){ out.push_back({getFn(F)->addr,0}); return; }
  if(auto*A=dyn_cast<GlobalAlias>(K)){ constVal(A->getAliasee(),out); return; }
  if(auto*A=dyn_cast<ConstantDataSequential>(K)){ for(unsigned i=0;i<A->getNumElements();i++) constVal(A->getElementAsConstant(i),out); return; }
  if(isa<ConstantAggregate>(K)){ for(auto&o:K->operands()) constVal(cast<Constant>(o),out); return; }
  if(auto*E=dyn_cast<ConstantExpr>(K)){ unsigned op=E->getOpcode();
    if(op==Instruction::GetElementPtr){ APInt o(64,0); vector<V> b; constVal(E->getOperand(0),b); if(!cast<GEPOperator>(E)->accumulateConstantOffset(*DL,o)) goto bad; out.push_back({(u64)((u64)b[0].c+o.getSExtValue()),0}); return; }
    vector<V> a,b; constVal(E->getOperand(0),a); if(E->getNumOperands()>1) constVal(E->getOperand(1),b); int w=nleaf(K->getType())?(K->getType()->isPointerTy()?64:(int)DL->getTypeSizeInBits(K->getType())):0;
    switch(op){ case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::Trunc: case Instruction::ZExt: out.push_back({a[0].c&MASK(w),0}); return;
      case Instruction::Add: out.push_back({(a[0].c+b[0].c)&MASK(w),0}); return; case Instruction::Sub: out.push_back({(a[0].c-b[0].c)&MASK(w),0}); return; case Instruction::Mul: out.push_back({(a[0].c*b[0].c)&MASK(w),0}); return;
      case Instruction::ICmp: { auto p=(CmpInst::Predicate)E->getPredicate(); bool r; if(p==CmpInst::ICMP_EQ) r=a[0].c==b[0].c; else if(p==CmpInst::ICMP_NE) r=a[0].c!=b[0].c; else if(p==CmpInst::ICMP_ULT) r=a[0].c<b[0].c; else if(p==CmpInst::ICMP_UGT) r=a[0].c>b[0].c; else goto bad; out.push_back({(u128)r,0}); return; }
      default: goto bad; } }
  bad: { string s; raw_string_ostream os(s); K->print(os); fprintf(stderr,"symx: unsupported constant %s\n",os.str().c_str()); exit(3); } }

static void writeConst(u64 addr,Constant*K){ Type*T=K->getType(); if(isa<ConstantAggregateZero>(K)||isa<UndefValue>(K)) return; 
  if(auto*A=dyn_cast<ConstantDataSequential>(K)){ u32 es=DL->getTypeAllocSize(A->getElementType()); if(es==A->getElementByteSize()){ memcpy((void*)addr,A->getRawDataValues().data(),A->getRawDataValues().size()); return; } }
  vector<Leaf> l; flatten(T,0,l); vector<V> v; constVal(K,v); for(size_t i=0;i<l.size();i++) memcpy((void*)(addr+l[i].off),&v[i].c,(l[i].w+7)/8); }

static std::map<string,std::pair<int,int>> biTab;
static void initBI(){ auto B=[&](const char*n,int b,int x=0){ biTab[n]={b,x}; };
  B("malloc",B_MALLOC);B("calloc",B_CALLOC);B("realloc",B_REALLOC);B("free",B_FREE);B("abort",B_ABORT);B("exit",B_EXIT);B("__assert_fail",B_ASSERTFAIL);B("_exit",B_EXIT);
  B("memcpy",B_MEMCPY,1);B("memmove",B_MEMCPY,1);B("memset",B_MEMSET,1);
  const char*m1[]={"sin","cos","tan","sqrt","exp","log","asin","acos","atan","log10","log2","cbrt","exp2"}; for(int i=0;i<13;i++) B(m1[i],B_MATH1,i);
  const char*m2[]={"atan2","pow","fmod","hypot","remainder"}; for(int i=0;i<5;i++) B(m2[i],B_MATH2,i);
  B("fabs",B_FABS);B("floor",B_FLOOR);B("ceil",B_CEIL);B("rint",B_RNE);B("nearbyint",B_RNE);B("trunc",B_TRUNC);B("round",B_ROUND);B("lrint",B_LRINT);B("llrint",B_LRINT);B("lround",B_LRINT,1);B("llround",B_LRINT,1);B("ldexp",B_LDEXP);B("scalbn",B_LDEXP);B("frexp",B_FREXP);B("fmax",B_MAXNUM);B("fmin",B_MINNUM);B("fma",B_FMULADD);B("copysign",B_COPYSIGN);
  for(auto n:{"printf","fprintf","vfprintf","vprintf","putchar","puts","fputc","putc","fputs","fflush","atexit","perror","fwrite_ignored"}) B(n,B_ZERO);
  B("snprintf",B_SNPRINTF);B("vsnprintf",B_VSNPRINTF);B("sprintf",B_SNPRINTF,1);B("__errno_location",B_ERRNO);B("sxl_strtod_conc",B_STRTODC);
  B("sx_int",B_SX_INT);B("sx_byte",B_SX_BYTE);B("sx_u64",B_SX_U64);B("sx_assume",B_SX_ASSUME);B("sx_assert",B_SX_ASSERT);B("sx_reach",B_SX_REACH);B("sx_param",B_SX_PARAM);B("sx_concretize",B_SX_CONC);B("sx_concretize_d",B_SX_CONCD);B("sx_opt",B_SX_OPT);B("sx_is_symbolic",B_SX_ISSYM);B("sx_end",B_SX_END);B("sx_note",B_SX_NOTE);B("sx_mute",B_SX_MUTE);
}
static int intrinsicBI(Function*F,int&x){ x=0; switch(F->getIntrinsicID()){ case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: return B_MEMCPY; case Intrinsic::memset: return B_MEMSET; case Intrinsic::fabs: return B_FABS; case Intrinsic::floor: return B_FLOOR; case Intrinsic::ceil: return B_CEIL; case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: return B_RNE; case Intrinsic::trunc: return B_TRUNC; case Intrinsic::round: return B_ROUND; case Intrinsic::lrint: case Intrinsic::llrint: return B_LRINT; case Intrinsic::maxnum: return B_MAXNUM; case Intrinsic::minnum: return B_MINNUM; case Intrinsic::fmuladd: case Intrinsic::fma: return B_FMULADD; case Intrinsic::copysign: return B_COPYSIGN;
  case Intrinsic::sqrt: x=3; return B_MATH1; case Intrinsic::sin: x=0; return B_MATH1; case Intrinsic::cos: x=1; return B_MATH1; case Intrinsic::pow: x=1; return B_MATH2;
  case Intrinsic::umin: x=0; return B_MINMAX; case Intrinsic::umax: x=1; return B_MINMAX; case Intrinsic::smin: x=2; return B_MINMAX; case Intrinsic::smax: x=3; return B_MINMAX; case Intrinsic::abs: return B_ABS; case Intrinsic::ctlz: return B_CTLZ; case Intrinsic::cttz: return B_CTTZ; case Intrinsic::ctpop: return B_CTPOP; case Intrinsic::bswap: return B_BSWAP; case Intrinsic::fshl: return B_FSHL; case Intrinsic::fshr: return B_FSHR;
  case Intrinsic::uadd_with_overflow: x=0; return B_OVF; case Intrinsic::usub_with_overflow: x=1; return B_OVF; case Intrinsic::umul_with_overflow: x=2; return B_OVF; case Intrinsic::sadd_with_overflow: x=3; return B_OVF; case Intrinsic::ssub_with_overflow: x=4; return B_OVF; case Intrinsic::smul_with_overflow: x=5; return B_OVF;
  case Intrinsic::usub_sat: x=0; return B_SATARITH; case Intrinsic::uadd_sat: x=1; return B_SATARITH;
  case Intrinsic::vastart: return B_VASTART; case Intrinsic::vacopy: return B_VACOPY; case Intrinsic::vaend: case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::stackrestore: case Intrinsic::donothing: return B_NOP; case Intrinsic::stacksave: return B_ZERO; case Intrinsic::expect: return B_EXPECT; case Intrinsic::is_fpclass: return B_FPCLASS; case Intrinsic::objectsize: return B_OBJSIZE; case Intrinsic::trap: return B_ABORT; default: return B_UNKNOWN; } }

static vector<int> biExtra;
static Fn* getFn(Function*F){ auto it=fns.find(F); if(it!=fns.end()) return it->second; Fn*f=new Fn(); f->F=F; f->name=F->getName().str(); fns[F]=f; fnList.push_back(f); u64 a=(glb+15)/16*16; glb=a+16+16; f->addr=a; fnAddr[a]=f;
  f->var=F->isVarArg(); f->nfix=F->arg_size();
  if(F->isIntrinsic()){ int x; f->bi=intrinsicBI(F,x)|(x<<8); }
  else { auto b=biTab.find(f->name); if(b!=biTab.end()&&(F->isDeclaration())) f->bi=b->second.first|(b->second.second<<8); else if(F->isDeclaration()) f->bi=B_UNKNOWN; }
  return f; }

static void decode(Fn*f){ f->decoded=true; Function*F=f->F; std::map<Value*,int> slot; std::map<Constant*,int> cs; int ns=0;
  for(auto&A:F->args()){ slot[&A]=ns; vector<Leaf> l; flatten(A.getType(),0,l); for(auto&x:l) f->argl.push_back(x); ns+=l.size(); }
  f->nargs=ns;
  for(auto&BB:*F) for(auto&I:BB) if(!I.getType()->isVoidTy()){ slot[&I]=ns; ns+=nleaf(I.getType()); }
  f->nslots=ns;
  auto opnd=[&](Value*v)->int{ if(auto*K=dyn_cast<Constant>(v)){ auto it=cs.find(K); if(it!=cs.end()) return it->second; int id=~(int)f->consts.size(); constVal(K,f->consts); cs[K]=id; return id; } auto it=slot.find(v); if(it==slot.end()) return ~0; return it->second; };
  // note: aggregate constants: operand x with leaf i is (x>=0? x+i : x-i)
  f->consts.push_back({0,0});
  std::map<BasicBlock*,int> start; vector<std::pair<int,std::pair<BasicBlock*,BasicBlock*>>> fixE;
  auto edge=[&](BasicBlock*from,BasicBlock*to)->int{ int id=f->edges.size(); f->edges.push_back({}); Edge&e=f->edges.back(); for(auto&P:to->phis()){ Value*v=P.getIncomingValueForBlock(from); int o=opnd(v); u32 n=nleaf(P.getType()); int d=slot[&P]; for(u32 i=0;i<n;i++) f->edges[id].cp.push_back({d+(int)i,o>=0?o+(int)i:o-(int)i}); } (void)e; fixE.push_back({id,{from,to}}); return id; };
  auto W=[&](Type*T){ return T->isPointerTy()?64:(int)DL->getTypeSizeInBits(T).getFixedValue(); };
  for(auto&BB:*F){ start[&BB]=f->code.size(); for(auto&I:BB){ if(isa<PHINode>(I)) continue; Ins n; n.op=I_NOP; n.src=&I; if(!I.getType()->isVoidTy()) n.dst=slot[&I];
    unsigned op=I.getOpcode(); Type*T=I.getType();
    auto bin=[&](IOp o){ n.op=o; n.w=W(T); n.a=opnd(I.getOperand(0)); n.b=opnd(I.getOperand(1)); };
    auto cast1=[&](IOp o){ n.op=o; n.w=W(T); n.w2=W(I.getOperand(0)->getType()); n.a=opnd(I.getOperand(0)); };
    switch(op){
    case Instruction::Add:bin(I_ADD);break;case Instruction::Sub:bin(I_SUB);break;case Instruction::Mul:bin(I_MUL);break;case Instruction::UDiv:bin(I_UDIV);break;case Instruction::SDiv:bin(I_SDIV);break;case Instruction::URem:bin(I_UREM);break;case Instruction::SRem:bin(I_SREM);break;
    case Instruction::And:bin(I_AND);break;case Instruction::Or:bin(I_OR);break;case Instruction::Xor:bin(I_XOR);break;case Instruction::Shl:bin(I_SHL);break;case Instruction::LShr:bin(I_LSHR);break;case Instruction::AShr:bin(I_ASHR);break;
    case Instruction::FAdd:bin(I_FADD);break;case Instruction::FSub:bin(I_FSUB);break;case Instruction::FMul:bin(I_FMUL);break;case Instruction::FDiv:bin(I_FDIV);break;case Instruction::FRem:bin(I_FREM);break;
    case Instruction::FNeg: n.op=I_FNEG; n.w=W(T); n.a=opnd(I.getOperand(0)); break;
    case Instruction::ICmp: n.op=I_ICMP; n.w=W(I.getOperand(0)->getType()); n.pred=cast<CmpInst>(I).getPredicate(); n.a=opnd(I.getOperand(0)); n.b=opnd(I.getOperand(1)); break;
    case Instruction::FCmp: n.op=I_FCMP; n.w=W(I.getOperand(0)->getType()); n.pred=cast<CmpInst>(I).getPredicate(); n.a=opnd(I.getOperand(0)); n.b=opnd(I.getOperand(1)); break;
    case Instruction::Select: n.op=I_SELECT; n.n=nleaf(T); n.ptr=T->isPointerTy(); n.a=opnd(I.getOperand(0)); n.b=opnd(I.getOperand(1)); n.c=opnd(I.getOperand(2)); n.lv=new vector<Leaf>(); flatten(T,0,*n.lv); break;
    case Instruction::Trunc:cast1(I_TRUNC);break;case Instruction::ZExt:cast1(I_ZEXT);break;case Instruction::SExt:cast1(I_SEXT);break;case Instruction::FPTrunc:cast1(I_FPTRUNC);break;case Instruction::FPExt:cast1(I_FPEXT);break;case Instruction::FPToSI:cast1(I_FPTOSI);break;case Instruction::FPToUI:cast1(I_FPTOUI);break;case Instruction::SIToFP:cast1(I_SITOFP);break;case Instruction::UIToFP:cast1(I_UITOFP);break;
    case Instruction::PtrToInt: case Instruction::IntToPtr: { int a=W(I.getOperand(0)->getType()),b=W(T); cast1(a==b?I_COPY:a<b?I_ZEXT:I_TRUNC); n.n=1; break; }
    case Instruction::BitCast: { bool fa=I.getOperand(0)->getType()->isFloatingPointTy(),fb=T->isFloatingPointTy(); cast1(fa==fb?I_COPY:fa?I_BITF2I:I_BITI2F); break; }
    case Instruction::Freeze: cast1(I_COPY); n.n=nleaf(T); break;
    case Instruction::Load: n.op=I_LOAD; n.a=opnd(I.getOperand(0)); n.lv=new vector<Leaf>(); flatten(T,0,*n.lv); n.n=n.lv->size(); break;
    case Instruction::Store: n.op=I_STORE; n.a=opnd(I.getOperand(1)); n.b=opnd(I.getOperand(0)); n.lv=new vector<Leaf>(); flatten(I.getOperand(0)->getType(),0,*n.lv); n.n=n.lv->size(); break;
    case Instruction::GetElementPtr: { n.op=I_GEP; n.a=opnd(I.getOperand(0)); n.gt=new vector<GepT>(); auto*G=cast<GetElementPtrInst>(&I); i64 c=0; for(auto it=gep_type_begin(G);it!=gep_type_end(G);++it){ Value*v=it.getOperand(); if(auto*S=it.getStructTypeOrNull()){ c+=DL->getStructLayout(S)->getElementOffset(cast<ConstantInt>(v)->getZExtValue()); } else { i64 sz=DL->getTypeAllocSize(it.getIndexedType()); if(auto*K=dyn_cast<ConstantInt>(v)) c+=K->getSExtValue()*sz; else n.gt->push_back({opnd(v),sz,(u8)W(v->getType())}); } } n.imm=c; break; }
    case Instruction::Alloca: { auto&A=cast<AllocaInst>(I); n.op=I_ALLOCA; n.imm=DL->getTypeAllocSize(A.getAllocatedType()); n.a=opnd(A.getArraySize()); n.n=A.getAlign().value(); break; }
    case Instruction::Br: { auto&B=cast<BranchInst>(I); if(B.isUnconditional()){ n.op=I_BR; n.b=edge(&BB,B.getSuccessor(0)); } else { n.op=I_CBR; n.a=opnd(B.getCondition()); n.b=edge(&BB,B.getSuccessor(0)); n.c=edge(&BB,B.getSuccessor(1)); } break; }
    case Instruction::Switch: { auto&S=cast<SwitchInst>(I); n.op=I_SWITCH; n.a=opnd(S.getCondition()); n.w=W(S.getCondition()->getType()); n.b=edge(&BB,S.getDefaultDest()); n.cases=new vector<std::pair<u128,int>>(); std::map<BasicBlock*,int> te; for(auto&cc:S.cases()){ vector<V> v; constVal(cc.getCaseValue(),v); BasicBlock*t=cc.getCaseSuccessor(); if(t==S.getDefaultDest()){ te[t]=n.b; } if(!te.count(t)) te[t]=edge(&BB,t); n.cases->push_back({v[0].c,te[t]}); } break; }
    case Instruction::Ret: { n.op=I_RET; auto*v=cast<ReturnInst>(I).getReturnValue(); if(v){ n.a=opnd(v); n.n=nleaf(v->getType()); } else n.n=0; break; }
    case Instruction::Unreachable: n.op=I_UNREACH; break;
    case Instruction::ExtractValue: { Type*R; auto&E=cast<ExtractValueInst>(I); u32 li=leafIndex(E.getAggregateOperand()->getType(),E.getIndices(),R); n.op=I_EXTV; int o=opnd(E.getAggregateOperand()); n.a=o>=0?o+(int)li:o-(int)li; n.n=nleaf(R); break; }
    case Instruction::InsertValue: { Type*R; auto&E=cast<InsertValueInst>(I); u32 li=leafIndex(T,E.getIndices(),R); n.op=I_INSV; n.a=opnd(E.getAggregateOperand()); n.b=opnd(E.getInsertedValueOperand()); n.n=nleaf(T); n.imm=li; n.c=nleaf(R); break; }
    case Instruction::Call: { auto&CI=cast<CallInst>(I); n.op=I_CALL; n.args=new vector<int>(); n.at=new vector<Leaf>(); n.byval=new vector<u32>(); n.n=nleaf(T); if(T->isPointerTy()) n.ptr=true; if(!T->isVoidTy()&&!T->isAggregateType()) n.w=W(T); n.fp=T->isFloatingPointTy();
        Value*cv=CI.getCalledOperand()->stripPointerCasts(); if(auto*FF=dyn_cast<Function>(cv)){ n.callee=getFn(FF); if(n.callee->bi==B_NOP){ n.op=I_NOP; break; } } else { n.callee=0; n.a=opnd(CI.getCalledOperand()); }
        for(unsigned i=0;i<CI.arg_size();i++){ Value*v=CI.getArgOperand(i); if(v->getType()->isMetadataTy()) continue; int o=opnd(v); vector<Leaf> l; flatten(v->getType(),0,l); for(size_t j=0;j<l.size();j++){ n.args->push_back(o>=0?o+(int)j:o-(int)j); n.at->push_back(l[j]); n.byval->push_back(CI.isByValArgument(i)?(u32)DL->getTypeAllocSize(CI.getParamByValType(i)):0); } }
        n.imm=0; for(unsigned i=0;i<CI.getFunctionType()->getNumParams()&&i<CI.arg_size();i++) n.imm+=nleaf(CI.getFunctionType()->getParamType(i));
        break; }
    default: fprintf(stderr,"symx: unsupported instruction %s in %s\n",I.getOpcodeName(),f->name.c_str()); exit(3); }
    if(n.op!=I_NOP) f->code.push_back(n); } }
  for(auto&p:fixE) f->edges[p.first].pc=start[p.second.second]; }

// ------------------------------------------------------------------ exploration state
struct Var { string name; int w; i128 lo; u128 maxv; bool sgn; };
static vector<Var> vars; static vector<u128> vals; static vector<std::pair<string,i128>> dummy;
struct Job { vector<u128> vals; u64 bound=0; u64 cfh=0; };
struct Viol { string msg; vector<std::pair<string,string>> in; string kind; };
struct Stats { u64 paths=0,queries=0,sat=0,unsat=0,unknown=0,cacheHit=0,modelHit=0,asserts=0,assertQ=0,domHit=0,diverged=0,capped=0,pruned=0,instrs=0,decisions=0,maxdec=0,fpconc=0,tabs=0,tabCert=0; double solver=0; };
static Stats S;
static vector<Viol> viols; static std::map<string,u64> reach; static std::map<string,i64> params; static std::map<string,u64> assertCnt; static std::map<string,u64> unkFns;
static vector<Job> outJobs;
static Job cur; static u64 icount, bound; static u64 cfh; static bool inMute=false;
static vector<Expr*> path; static std::set<Expr*> pathSet; 
static int optFP=0; static u64 optConcMax=300; static u64 maxInstr=60000000; static int zTimeout=8000;
struct PathEnd { int k; };
static double deadline;

static vector<vector<u128>> recent; static size_t recentPos=0;
struct CacheE { int r; vector<std::pair<int,u128>> m; };
static std::unordered_map<u64,CacheE> qcache;

static string curFnName(); 
static string i128s(i128 v){ bool neg=v<0; u128 u=neg?-(u128)v:(u128)v; string s; do{ s.insert(s.begin(),'0'+(int)(u%10)); u/=10;}while(u); if(neg) s.insert(s.begin(),'-'); return s; }
static void addViol(string kind,string msg,vector<u128> const&v){ int same=0; for(auto&x:viols) if(x.msg==msg) same++; if(same>=3) return; Viol q; q.kind=kind; q.msg=msg; for(size_t i=0;i<vars.size();i++){ i128 val=vars[i].lo+(i128)(i<v.size()?v[i]:0); if(vars[i].w==64&&vars[i].maxv==MASK(64)) val=(i128)(i64)(u64)val; q.in.push_back({vars[i].name,i128s(val)}); } viols.push_back(q); }

// finite domains: constraints over one small variable are decided by their exact truth table
struct Dom{ u64 m[4]; };
struct Tab{ Dom done,val; };
static Dom dom[MAXVARS]; static bool multiV[MAXVARS]; static std::unordered_map<Expr*,Tab> ttab; static VarSet fixedV; static int nFixed=0; static std::unordered_map<VarSet const*,int> svtab;
static int singleVar(Expr*e){ auto it=svtab.find(e->vs); int r; if(it!=svtab.end()) r=it->second; else { r=-1; int n=0; for(int i=0;i<MAXVARS/64;i++){ u64 w=e->vs->w[i]; if(w){ n+=__builtin_popcountll(w); r=i*64+__builtin_ctzll(w); } } if(n!=1) r=-1; svtab[e->vs]=r; } return r>=0&&r<(int)vars.size()&&vars[r].maxv<=255?r:-1; }
static vector<std::pair<Expr*,int>> uncert; // tables not yet confirmed by the solver
static Dom const& table(Expr*e,int v){ Tab&t=ttab[e]; bool need=false; for(int i=0;i<4;i++) if(dom[v].m[i]&~t.done.m[i]) need=true; if(!need) return t.val; uncert.push_back({e,v}); static vector<u128> a; a.assign(v+1,0); for(int i=0;i<4;i++){ u64 w=dom[v].m[i]&~t.done.m[i]; t.done.m[i]|=w; while(w){ int k=__builtin_ctzll(w); w&=w-1; a[v]=i*64+k; C.asg=&a; C.epoch++; if(C.eval(e)&1) t.val.m[i]|=1ull<<k; } } return t.val; }
static void domFix(int v){ int n=0; for(int i=0;i<4;i++) n+=__builtin_popcountll(dom[v].m[i]); if(n==1&&!fixedV.has(v)){ fixedV.set(v); nFixed++; } }
static inline bool isFixed(Expr*e){ if(!nFixed) return false; u64 const*a=e->vs->w,*b=fixedV.w; for(int i=0;i<MAXVARS/64;i++) if(a[i]&~b[i]) return false; return true; }
static void domInit(int v){ memset(&dom[v],0,sizeof(Dom)); multiV[v]=false; if(vars[v].maxv<=255) for(u128 x=0;x<=vars[v].maxv;x++) dom[v].m[x/64]|=1ull<<(x%64); }
static void domAdd(Expr*c){ int v=singleVar(c); if(v>=0){ Dom const&t=table(c,v); for(int i=0;i<4;i++) dom[v].m[i]&=t.m[i]; domFix(v); } else for(int i=0;i<MAXVARS/64;i++){ u64 w=c->vs->w[i]; while(w){ multiV[i*64+__builtin_ctzll(w)]=true; w&=w-1; } } }

static Expr* vexpr(size_t i){ Expr*e=C.var((int)i,vars[i].w,vars[i].sgn?vars[i].lo:0,vars[i].maxv); return e; }
// contains division or multiplication of unknowns
static std::unordered_map<Expr*,bool> hardTab;
static bool hard(Expr*e){ if(!e||e->op==O_CONST||e->op==O_VAR) return false; auto it=hardTab.find(e); if(it!=hardTab.end()) return it->second; bool r=e->op==O_UDIV||e->op==O_SDIV||e->op==O_UREM||e->op==O_SREM||(e->op==O_MUL&&!C.isC(e->b)&&!C.isC(e->a))||(e->op>=O_FADD&&e->op<=O_FSQRT); r=r||hard(e->a)||hard(e->b)||hard(e->c); return hardTab[e]=r; }
static int z3check(vector<Expr*> const&sl,VarSet const&vs,vector<u128>&out,bool quick){
  double t0=now(); C.usedFP=false; bool fp=false; vector<Z3_ast> as; for(auto e:sl) as.push_back(C.lb(e));
  static bool anyFP=false; if(C.usedFP) anyFP=true; fp=anyFP;
  static int zm=getenv("ZM")?atoi(getenv("ZM")):0; Z3_solver s=zm==1?Z3_mk_simple_solver(C.z):zm==2?Z3_mk_solver(C.z):fp?Z3_mk_solver_for_logic(C.z,Z3_mk_string_symbol(C.z,"QF_FPBV")):Z3_mk_solver_for_logic(C.z,Z3_mk_string_symbol(C.z,"QF_BV")); Z3_solver_inc_ref(C.z,s);
  Z3_params p=Z3_mk_params(C.z); Z3_params_inc_ref(C.z,p); double left=deadline-t0; int to=zTimeout; if(quick&&to>3000) to=3000; if(left*1000<to) to=left>0.2?(int)(left*1000):200; Z3_params_set_uint(C.z,p,Z3_mk_string_symbol(C.z,"timeout"),to); Z3_solver_set_params(C.z,s,p);
  for(auto a:as) Z3_solver_assert(C.z,s,a);
  for(size_t i=0;i<vars.size();i++) if(vs.has(i)){ if(vars[i].sgn||vars[i].maxv!=MASK(vars[i].w)){ Expr*v=vexpr(i); if(vars[i].sgn){ Z3_solver_assert(C.z,s,Z3_mk_bvsle(C.z,C.bvc(vars[i].w,(u128)vars[i].lo&MASK(vars[i].w)),C.lv(v))); Z3_solver_assert(C.z,s,Z3_mk_bvsle(C.z,C.lv(v),C.bvc(vars[i].w,((u128)vars[i].lo+vars[i].maxv)&MASK(vars[i].w)))); } else Z3_solver_assert(C.z,s,Z3_mk_bvule(C.z,C.lv(v),C.bvc(vars[i].w,vars[i].maxv))); } }
  Z3_lbool r=Z3_solver_check(C.z,s); int res=-1;
  if(r==Z3_L_TRUE){ Z3_model m=Z3_solver_get_model(C.z,s); Z3_model_inc_ref(C.z,m); out=vals; for(size_t i=0;i<vars.size();i++) if(vs.has(i)){ Z3_ast v=0; if(Z3_model_eval(C.z,m,C.lv(vexpr(i)),true,&v)&&v){ const char*str=Z3_get_numeral_string(C.z,v); u128 x=0; for(const char*q=str;*q;q++) x=x*10+(*q-'0'); if(vars[i].sgn) x=(x-(u128)vars[i].lo)&MASK(vars[i].w); out[i]=x; } } Z3_model_dec_ref(C.z,m); res=1; }
  else if(r==Z3_L_FALSE) res=0;
  else if(!quick&&getenv("SYMX_DUMP")){ static int dn=0; char fn[256]; snprintf(fn,256,"%s/q%d_%d.smt2",getenv("SYMX_DUMP"),getpid(),dn++); FILE*f=fopen(fn,"w"); if(f){ fprintf(f,"%s\n(check-sat)\n",Z3_solver_to_string(C.z,s)); fclose(f);} }
  Z3_params_dec_ref(C.z,p); Z3_solver_dec_ref(C.z,s); S.solver+=now()-t0; return res; }
// truth tables are confirmed by the solver: no value of the domain gives another result
static double certSpent=0; static std::unordered_map<Expr*,bool> fpTab;
static bool hasFP(Expr*e){ if(!e||e->op==O_CONST||e->op==O_VAR) return e&&e->fp; auto it=fpTab.find(e); if(it!=fpTab.end()) return it->second; bool r=e->fp||hasFP(e->a)||hasFP(e->b)||hasFP(e->c); return fpTab[e]=r; }
static Expr* leafOf(Expr*e){ while(e&&e->op!=O_VAR){ Expr*n=0; for(Expr*x:{e->a,e->b,e->c}) if(x&&x->op!=O_CONST){ bool any=false; for(int i=0;i<MAXVARS/64;i++) if(x->vs->w[i]) any=true; if(any){ n=x; break; } } e=n; } return e; }
static Z3_ast inSet(Dom const&d,Expr*v){ vector<Z3_ast> r; Z3_ast x=C.lv(v); if(v->a) x=Z3_mk_bvsub(C.z,x,C.bvc(v->w,v->a->k&MASK(v->w))); for(int k=0;k<256;){ if(!(d.m[k/64]>>(k%64)&1)){ k++; continue; } int l=k; while(k<256&&(d.m[k/64]>>(k%64)&1)) k++; Z3_ast a=C.bvc(v->w,l),b=C.bvc(v->w,k-1); if(l==k-1) r.push_back(Z3_mk_eq(C.z,x,a)); else { Z3_ast q[2]={Z3_mk_bvule(C.z,a,x),Z3_mk_bvule(C.z,x,b)}; r.push_back(Z3_mk_and(C.z,2,q)); } } return r.empty()?Z3_mk_false(C.z):Z3_mk_or(C.z,r.size(),r.data()); }
static void certify(double budget){ double t0=now(); while(!uncert.empty()&&now()-t0<budget){ vector<Z3_ast> q; u64 n=0; while(!uncert.empty()&&q.size()<24){ auto p=uncert.back(); uncert.pop_back(); Expr*l=leafOf(p.first); Tab&t=ttab[p.first]; if(!l||hasFP(p.first)) continue; n++; Z3_ast e=C.lb(p.first); Z3_ast z[2]={inSet(t.done,l),Z3_mk_not(C.z,Z3_mk_eq(C.z,e,inSet(t.val,l)))}; q.push_back(Z3_mk_and(C.z,2,z)); }
    if(q.empty()) break; Z3_solver s=Z3_mk_solver_for_logic(C.z,Z3_mk_string_symbol(C.z,"QF_BV")); Z3_solver_inc_ref(C.z,s); Z3_params p=Z3_mk_params(C.z); Z3_params_inc_ref(C.z,p); Z3_params_set_uint(C.z,p,Z3_mk_string_symbol(C.z,"timeout"),1000); Z3_solver_set_params(C.z,s,p); Z3_solver_assert(C.z,s,Z3_mk_or(C.z,q.size(),q.data())); Z3_lbool r=Z3_solver_check(C.z,s); if(r==Z3_L_FALSE) S.tabCert+=n; else if(r==Z3_L_TRUE){ fprintf(stderr,"symx: truth table disagrees with the solver\n%s\n",Z3_solver_to_string(C.z,s)); _exit(5); } Z3_params_dec_ref(C.z,p); Z3_solver_dec_ref(C.z,s); }
  double d=now()-t0; certSpent+=d; S.solver+=d; }
// the same query over the integers, where every operation is linear
static u64 intQ=0,intHit=0; static int optInt=1;
static int z3int(vector<Expr*> const&sl,VarSet const&vs,vector<u128>&out){
  double t0=now(); vector<Z3_ast> as; C.iops=0;
  for(auto e:sl){ Z3_ast a=C.lib(e); if(!a){ if(getenv("SYMX_XCHK")){ static int c=0; if(c++<3) fprintf(stderr,"noint %s\n",Z3_ast_to_string(C.z,C.lb(e))); } return -1; } as.push_back(a); }
  if(intQ>30&&intHit*2<intQ) return -1; intQ++; Z3_solver s=Z3_mk_solver_for_logic(C.z,Z3_mk_string_symbol(C.z,"QF_LIA")); Z3_solver_inc_ref(C.z,s); Z3_params p=Z3_mk_params(C.z); Z3_params_inc_ref(C.z,p); Z3_params_set_uint(C.z,p,Z3_mk_string_symbol(C.z,"timeout"),2000); Z3_solver_set_params(C.z,s,p);
  for(auto a:as) Z3_solver_assert(C.z,s,a);
  auto iv=[&](size_t i){ char n[64]; snprintf(n,64,"i%d",(int)i); return Z3_mk_const(C.z,Z3_mk_string_symbol(C.z,n),Z3_mk_int_sort(C.z)); };
  for(size_t i=0;i<vars.size();i++) if(vs.has(i)){ Z3_solver_assert(C.z,s,C.i2('l',C.ic(vars[i].sgn?vars[i].lo:0),iv(i))); Z3_solver_assert(C.z,s,C.i2('l',iv(i),C.ic((i128)vars[i].maxv+(vars[i].sgn?vars[i].lo:0)))); }
  Z3_lbool r=Z3_solver_check(C.z,s); int res=-1;
  if(r==Z3_L_TRUE){ Z3_model m=Z3_solver_get_model(C.z,s); Z3_model_inc_ref(C.z,m); out=vals; for(size_t i=0;i<vars.size();i++) if(vs.has(i)){ Z3_ast v=0; if(Z3_model_eval(C.z,m,iv(i),true,&v)&&v){ const char*str=Z3_get_numeral_string(C.z,v); u128 x=0; for(const char*q=str;*q;q++) if(*q>='0'&&*q<='9') x=x*10+(*q-'0'); if(*str=='-') x=-x; if(vars[i].sgn) x-=(u128)vars[i].lo; if(x>vars[i].maxv) x=vars[i].maxv; out[i]=x; } } Z3_model_dec_ref(C.z,m); res=1;
    C.asg=&out; C.epoch++; for(auto e:sl) if(!C.eval(e)){ res=-1; if(getenv("SYMX_XCHK")) fprintf(stderr,"symx: integer model does not validate\n"); break; } }
  else if(r==Z3_L_FALSE) res=0;
  S.solver+=now()-t0; if(res>=0) intHit++; if(getenv("SYMX_XCHK")){ double dt=now()-t0; static int c=0; if(dt>0.5&&c++<2) fprintf(stderr,"slowint %.2f %d %s\n",dt,res,Z3_solver_to_string(C.z,s)); } Z3_params_dec_ref(C.z,p); Z3_solver_dec_ref(C.z,s);
  if(res==0&&getenv("SYMX_XCHK")){ vector<u128> m; if(z3check(sl,vs,m,false)==1) { fprintf(stderr,"symx: INTEGER LOWERING DISAGREES\n"); for(auto e:sl) fprintf(stderr,"%s\n",Z3_ast_to_string(C.z,C.lb(e))); abort(); } }
  return res; }
// arithmetic enough to be worth it: constant factors or divisions
static std::unordered_map<Expr*,bool> arTab;
static bool arith(Expr*e){ if(!e||e->op==O_CONST||e->op==O_VAR) return false; auto it=arTab.find(e); if(it!=arTab.end()) return it->second; bool r=e->op==O_MUL||e->op==O_UDIV||e->op==O_SDIV||e->op==O_UREM||e->op==O_SREM||arith(e->a)||arith(e->b)||arith(e->c); return arTab[e]=r; }
// decide prefix /\ extra ; returns 1 sat (model in out, complete assignment), 0 unsat, -1 unknown
static int solve(vector<Expr*> const&extra,vector<u128>&out){
  S.queries++;
  for(auto e:extra) if(C.isC(e)){ if(!e->k){ return 0; } }
  { int one=-2; Dom d; for(auto e:extra){ if(C.isC(e)) continue; int v=singleVar(e); if(v<0){ one=-1; continue; } Dom const&t=table(e,v); bool any=false; for(int i=0;i<4;i++) if(dom[v].m[i]&t.m[i]) any=true; if(!any){ S.domHit++; return 0; } if(one==-2){ one=v; for(int i=0;i<4;i++) d.m[i]=dom[v].m[i]&t.m[i]; } else if(one==v) for(int i=0;i<4;i++) d.m[i]&=t.m[i]; else one=-1; }
    if(one>=0){ int x=-1; for(int i=0;i<4;i++) if(d.m[i]){ x=i*64+__builtin_ctzll(d.m[i]); break; } if(x<0){ S.domHit++; return 0; } if(!multiV[one]){ S.domHit++; out=vals; out[one]=x; return 1; } } }
  // slice
  VarSet vs; vs.clr(); vector<Expr*> sl; for(auto e:extra) if(!C.isC(e)){ vs.or_(*e->vs); sl.push_back(e); }
  vector<char> used(path.size(),0); bool ch=true; while(ch){ ch=false; for(size_t i=path.size();i-->0;) if(!used[i]&&path[i]->vs->isect(vs)){ used[i]=1; sl.push_back(path[i]); VarSet o=vs; vs.or_(*path[i]->vs); if(memcmp(&o,&vs,sizeof vs)) ch=true; } }
  // contradiction quick check
  for(auto e:extra) { Expr*n=C.notE(e); if(pathSet.count(n)) return 0; }
  vector<u32> ids; for(auto e:sl) ids.push_back(e->id); std::sort(ids.begin(),ids.end()); ids.erase(std::unique(ids.begin(),ids.end()),ids.end()); u64 h=0x9E3779B97F4A7C15ull; for(u32 i:ids){ h^=i; h*=0xff51afd7ed558ccdull; h^=h>>32; }
  auto it=qcache.find(h); if(it!=qcache.end()){ S.cacheHit++; if(it->second.r==1){ out=vals; for(auto&p:it->second.m) if((size_t)p.first<out.size()) out[p.first]=p.second; } return it->second.r; }
  auto store=[&](int r){ if(qcache.size()>400000) qcache.clear(); CacheE c; c.r=r; if(r==1) for(size_t i=0;i<out.size();i++) if(vs.has(i)) c.m.push_back({(int)i,out[i]}); qcache[h]=c; };
  for(size_t k=0;k<recent.size();k++){ auto&m=recent[(recentPos+recent.size()-1-k)%recent.size()]; bool ok=true; vector<u128> cand=vals; for(size_t i=0;i<cand.size();i++) if(vs.has(i)){ if(i<m.size()) cand[i]=m[i]; if(cand[i]>vars[i].maxv){ok=false;break;} } if(!ok) continue; C.asg=&cand; C.epoch++; for(auto e:sl) if(!C.eval(e)){ok=false;break;} if(ok){ S.modelHit++; S.sat++; out=cand; store(1); return 1; } if(k>=24) break; }
  // relaxation: decide the cheap (division free) part first; unsat there settles the query, and so does a model that happens to satisfy the rest
  { bool eh=false; for(auto e:extra) if(!C.isC(e)&&hard(e)) eh=true; if(!eh){ vector<Expr*> easy; for(auto e:sl) if(!hard(e)) easy.push_back(e); if(easy.size()<sl.size()){ vector<u128> m; bool ar=false; for(auto e:easy) if(arith(e)){ ar=true; break; } int r=-1; if(optInt&&ar) r=z3int(easy,vs,m); if(r<0) r=z3check(easy,vs,m,true); if(r==0){ S.unsat++; store(0); return 0; } if(r==1){ C.asg=&m; C.epoch++; bool ok=true; for(auto e:sl) if(!C.eval(e)){ ok=false; break; } if(ok){ S.sat++; out=m; store(1); return 1; } } } } }
  int res=-1; if(optInt){ bool ar=false; for(auto e:sl) if(arith(e)){ ar=true; break; } if(ar) res=z3int(sl,vs,out); }
  if(res<0) res=z3check(sl,vs,out,false);
  if(res==1){ S.sat++; C.asg=&out; C.epoch++; bool ok=true; for(auto e:sl) if(!C.eval(e)){ ok=false; break; } if(!ok){ S.unknown++; res=-1; static int warned=0; if(warned++<3) fprintf(stderr,"symx: model does not validate\n"); }
    else { if(recent.size()<24) { recent.push_back(out); recentPos=recent.size()%24; } else { recent[recentPos%24]=out; recentPos=(recentPos+1)%24; } store(1); } }
  else if(res==0){ S.unsat++; store(0); } else S.unknown++;
  return res; }

static void addPath(Expr*c){ if(C.isC(c)) return; if(pathSet.insert(c).second){ path.push_back(c); domAdd(c); } S.decisions++; }
static inline u64 POS(int sub){ return (icount<<14)|(u64)(sub+1); }
static inline void hashCF(u64 x){ cfh=(cfh^x)*0x9E3779B97F4A7C15ull; cfh^=cfh>>31; }
static void pushChild(vector<u128> const&m,u64 pos){ Job j; j.vals=m; j.bound=pos; j.cfh=cfh; outJobs.push_back(std::move(j)); }
static void checkBound(u64 pos){ if(pos==bound&&cur.cfh!=cfh&&cur.cfh){ S.diverged++; if(getenv("SYMX_DBG")) fprintf(stderr,"diverged at %lu\n",(unsigned long)icount); } }
// multi-way decision: taken constraint, alternatives
static void decideN(Expr*taken,vector<Expr*> const&alts,int sub){ u64 pos=POS(sub); checkBound(pos); if(pos>bound&&!inMute) for(auto a:alts){ if(C.isC(a,0)) continue; vector<u128> m; vector<Expr*> ex{a}; int r=solve(ex,m); if(r==1) pushChild(m,pos); } addPath(taken); }
static bool decide(V const&v,int sub=0){ if(!v.s) return v.c&1; bool t=v.c&1; Expr*c=t?v.s:C.notE(v.s); if(pathSet.count(c)) { u64 pos=POS(sub); checkBound(pos); return t; } vector<Expr*> alts{C.notE(c)}; decideN(c,alts,sub); return t; }
static u128 concretize(V&v,int w,int sub=0){ if(!v.s) return v.c; Expr*e=v.s; if(e->fp){ Expr*a;int k; if(C.asDy(e,a,k)) e=a; else e=C.bitsOf(e); } 
  u64 pos=POS(sub); checkBound(pos);
  // evaluate current concrete of e
  C.asg=&vals; C.epoch++; u128 cv=C.eval(e); Expr*eq=C.cmp(O_EQ,e,C.con(e->w,cv));
  if(pos>bound&&!inMute&&!C.isC(eq)){ vector<Expr*> ex{C.notE(eq)}; u64 n=0; while(true){ vector<u128> m; int r=solve(ex,m); if(r!=1) break; pushChild(m,pos); C.asg=&m; C.epoch++; u128 nv=C.eval(e); ex.push_back(C.notE(C.cmp(O_EQ,e,C.con(e->w,nv)))); if(++n>=optConcMax){ S.capped++; break; } } }
  addPath(eq); v.s=0; return v.c; }
static vector<string> fnStack;
static bool expectFail;
[[noreturn]] static void fail(string kind,string msg){ if(expectFail&&(kind=="abort"||kind=="assert")){ reach["expected failure"]++; throw PathEnd{0}; } addViol(kind,msg,vals); throw PathEnd{1}; }

// ------------------------------------------------------------------ memory access
static void fillNew(u64 a,u64 n,int pat){ memset((void*)a,pat,n); memset(FLG+off(a),FL_OK,n); }
static u64 heapAlloc(u64 n,bool zero){ u64 a=(heap+15)/16*16; if(n>(512ull<<20)||off(a)+n+64>TOT) return 0; heap=a+n+32; fillNew(a,n,zero?0:0xA5); blocks[a]=n; return a; }
static bool okRange(u64 a,u64 n){ if(!inArena(a,n)) return false; u8*f=FLG+off(a); for(u64 i=0;i<n;i++) if(!(f[i]&FL_OK)) return false; return true; }
static inline Expr* sexpr(V const&v,int w,bool fp){ return v.s?v.s:fp?C.fcon(w,v.c):C.con(w,v.c); }
static Expr* byteAt(u64 a){ u64 o=off(a); if(!(FLG[o]&FL_SYM)) return C.con(8,*(u8*)a); Sh&s=SHD[o]; Expr*w=s.whole; if(w->fp) w=C.bitsOf(w); if(w->w==8) return w; return C.extract(w,8*s.idx,8); }
static string hx(u64 a){ char b[32]; snprintf(b,32,"0x%lx",(unsigned long)a); return b; }
static V loadC(u64 a,int w,bool fp){ int n=(w+7)/8; if(!inArena(a,n)) fail("memory",string(a<4096?"null pointer read":"wild read")+" in "+curFnName()); u8*f=FLG+off(a); u8 all=0xff,any=0; for(int i=0;i<n;i++){ all&=f[i]; any|=f[i]; } if(!(all&FL_OK)) fail("memory","out-of-bounds read in "+curFnName());
  V r; r.c=0; memcpy(&r.c,(void*)a,n); r.c&=MASK(w); r.s=0; if(nFixed&&(any&FL_SYM)){ bool k=true; for(int i=0;i<n;i++) if((f[i]&FL_SYM)&&!isFixed(SHD[off(a)+i].whole)){ k=false; break; } if(k) any&=~FL_SYM; } if(any&FL_SYM){ Sh&s=SHD[off(a)]; bool whole=(f[0]&FL_SYM)&&s.idx==0&&s.n==n; if(whole) for(int i=1;i<n;i++){ Sh&q=SHD[off(a)+i]; if(!(f[i]&FL_SYM)||q.whole!=s.whole||q.idx!=i){whole=false;break;} }
    Expr*e; if(whole){ e=s.whole; if(e->fp!=fp||(fp&&e->w!=w)) e=fp?C.fromBits(e->fp?C.bitsOf(e):e):C.bitsOf(e); } else { e=byteAt(a); for(int i=1;i<n;i++) e=C.concat(byteAt(a+i),e); if(fp) e=C.fromBits(e); }
    if(!fp&&(int)e->w!=w) e=e->w>w?C.extract(e,0,w):C.zext(e,w);
    if(!C.isC(e)) r.s=e; else r.c=e->k; }
  return r; }
static void storeC(u64 a,V const&v,int w,bool fp){ int n=(w+7)/8; if(!inArena(a,n)) fail("memory",string(a<4096?"null pointer write":"wild write")+" in "+curFnName()); u8*f=FLG+off(a); for(int i=0;i<n;i++) if((f[i]&(FL_OK|FL_RO))!=FL_OK) fail("memory",string(f[i]&FL_RO?"write to read-only data":"out-of-bounds write")+" in "+curFnName());
  u128 c=v.c&MASK(w); memcpy((void*)a,&c,n); if(v.s){ Expr*e=v.s; if(!e->fp&&e->w!=n*8) e=C.zext(e,n*8); if(C.isC(e)){ for(int i=0;i<n;i++) f[i]&=~FL_SYM; return; } for(int i=0;i<n;i++){ f[i]|=FL_SYM; Sh&s=SHD[off(a)+i]; s.whole=e; s.idx=i; s.n=n; } } else for(int i=0;i<n;i++) f[i]&=~FL_SYM; }
static void copyMem(u64 d,u64 s,u64 n){ if(!n) return; if(!okRange(s,n)) fail("memory","out-of-bounds memcpy read in "+curFnName()); if(!okRange(d,n)||(FLG[off(d)]&FL_RO)) fail("memory","out-of-bounds memcpy write in "+curFnName()); memmove((void*)d,(void*)s,n); u64 a=off(d),b=off(s); bool sym=false; for(u64 i=0;i<n;i++) if((FLG[b+i]|FLG[a+i])&FL_SYM){sym=true;break;} if(sym){ vector<u8> fl(FLG+b,FLG+b+n); vector<Sh> sh(n); for(u64 i=0;i<n;i++) if(fl[i]&FL_SYM) sh[i]=SHD[b+i]; for(u64 i=0;i<n;i++){ FLG[a+i]=(FLG[a+i]&~FL_SYM)|(fl[i]&FL_SYM); if(fl[i]&FL_SYM) SHD[a+i]=sh[i]; } } }

// stride analysis: e = base + stride*x
static u64 strideOf(Expr*e){ switch(e->op){ case O_CONST: return 0; case O_MUL: if(C.isC(e->b)) { u64 k=(u64)e->b->k; u64 s=strideOf(e->a); if(s==0) s=1; return k*s; } return 1; case O_ADD: case O_SUB: { u64 a=strideOf(e->a),b=strideOf(e->b); if(a==0) return b; if(b==0) return a; while(b){u64 t=a%b;a=b;b=t;} return a; } case O_CONCAT: { if(C.isC(e->b)&&e->b->w<32) { u64 s=strideOf(e->a); if(s==0)s=1; return s<<e->b->w; } return 1; } case O_SEXT: case O_ZEXT: { if(e->op==O_ZEXT&&e->a->lo<0) return 1; return strideOf(e->a)?strideOf(e->a):1; } case O_ITE: { if(C.isC(e->b)&&C.isC(e->c)) { i128 d=SX(e->b->k,e->w)-SX(e->c->k,e->w); return (u64)(d<0?-d:d); } return 1; } default: return 1; } }
struct Ptr { u64 a; };
static V iteTree(vector<std::pair<u64,V>>&t,size_t l,size_t r,Expr*p,int w,bool fp){ if(r-l==1) return t[l].second; size_t m=(l+r)/2; V x=iteTree(t,l,m,p,w,fp),y=iteTree(t,m,r,p,w,fp); if(!x.s&&!y.s&&x.c==y.c) return x; if(x.s&&x.s==y.s) return x; Expr*e=C.ite(C.cmp(O_ULT,p,C.con(64,t[m].first)),sexpr(x,w,fp),sexpr(y,w,fp)); V q; q.c=0; q.s=e; return q; }
// make the pointer concrete for an access of n bytes
// the extent of the object around [lo,hi)
static void extent(u64&lo,u64&hi,Expr*p,u64 n){ const u64 M=0x0101010101010101ull*FL_OK; u64 a=lo; int lim=1<<16; if(p->lo>0&&p->lo<=(i128)a&&(i128)a-p->lo<lim) lim=(int)((i128)a-p->lo); while(lim>=8&&inArena(lo-8,8)){ u64 x; memcpy(&x,FLG+off(lo-8),8); if((x&M)!=M) break; lo-=8; lim-=8; } while(lim-->0&&inArena(lo-1,1)&&(FLG[off(lo-1)]&FL_OK)) lo--; lim=1<<16; if(p->hi>=(i128)a&&p->hi-(i128)a<lim) lim=(int)(p->hi-(i128)a); while(lim>=8&&inArena(hi,8)){ u64 x; memcpy(&x,FLG+off(hi),8); if((x&M)!=M) break; hi+=8; lim-=8; } while(lim-->0&&inArena(hi,1)&&(FLG[off(hi)]&FL_OK)) hi++; }
static void ptrBounds(V&p,u64 n,int sub){ u64 a=(u64)p.c; if(!okRange(a,n)) return; u64 lo=a,hi=a+n; extent(lo,hi,p.s,n);
  Expr*in=C.cmp(O_ULE,C.bin(O_SUB,p.s,C.con(64,lo)),C.con(64,hi-lo-n)); V d; d.c=1; d.s=C.isC(in)?0:in; if(C.isC(in)&&!in->k) return; decide(d,sub); }
static V loadV(V p,int w,bool fp,bool isPtr){ if(!p.s) return loadC((u64)p.c,w,fp); int n=(w+7)/8; u64 a=(u64)p.c;
  if(!okRange(a,n)){ concretize(p,64,1); return loadC(a,w,fp); }
  ptrBounds(p,n,0); u64 lo=a,hi=a+n; extent(lo,hi,p.s,n);
  u64 st=strideOf(p.s); if(st==0) st=1; u64 first=lo,last=hi-n; if(p.s->lo>(i128)first) first=(u64)p.s->lo; if(p.s->hi<(i128)last&&p.s->hi>0) last=(u64)p.s->hi; first+= (a-first)%st; 
  if(!isPtr&&(last-first)/st<1100){ vector<std::pair<u64,V>> t; for(u64 x=first;x<=last;x+=st) t.push_back({x,loadC(x,w,fp)}); V r=iteTree(t,0,t.size(),p.s,w,fp); V c=loadC(a,w,fp); if(r.s&&C.isC(r.s)){ r.c=r.s->k; r.s=0; } r.c=c.c; return r; }
  concretize(p,64,1); return loadC(a,w,fp); }
static void storeV(V p,V const&v,int w,bool fp){ if(p.s){ int n=(w+7)/8; if(okRange((u64)p.c,n)) ptrBounds(p,n,0); concretize(p,64,1); } storeC((u64)p.c,v,w,fp); }

// ------------------------------------------------------------------ operations
static inline V mk(u128 c,Expr*s){ V v; if(s&&s->op==O_CONST){ v.c=s->k; v.s=0; } else { v.c=c; v.s=s; } return v; }
static V ibin(IOp op,V const&a,V const&b,int w){ static const u8 map[]={O_ADD,O_SUB,O_MUL,O_UDIV,O_SDIV,O_UREM,O_SREM,O_AND,O_OR,O_XOR,O_SHL,O_LSHR,O_ASHR}; u8 o=map[op];
  if(!a.s&&!b.s){ V r; r.s=0; r.c=Ctx::foldBin(o,w,a.c,b.c); return r; }
  return mk(Ctx::foldBin(o,w,a.c,b.c),C.bin((Op)o,sexpr(a,w,false),sexpr(b,w,false))); }
static bool icmpC(int p,u128 a,u128 b,int w){ i128 x=SX(a,w),y=SX(b,w); switch(p){ case CmpInst::ICMP_EQ:return a==b;case CmpInst::ICMP_NE:return a!=b;case CmpInst::ICMP_UGT:return a>b;case CmpInst::ICMP_UGE:return a>=b;case CmpInst::ICMP_ULT:return a<b;case CmpInst::ICMP_ULE:return a<=b;case CmpInst::ICMP_SGT:return x>y;case CmpInst::ICMP_SGE:return x>=y;case CmpInst::ICMP_SLT:return x<y;default:return x<=y; } }
static V icmp(int p,V const&a,V const&b,int w){ bool c=icmpC(p,a.c,b.c,w); V r; r.c=c; r.s=0; if(!a.s&&!b.s) return r; Expr*x=sexpr(a,w,false),*y=sexpr(b,w,false),*e; switch(p){ case CmpInst::ICMP_EQ:e=C.cmp(O_EQ,x,y);break;case CmpInst::ICMP_NE:e=C.notE(C.cmp(O_EQ,x,y));break;case CmpInst::ICMP_UGT:e=C.cmp(O_ULT,y,x);break;case CmpInst::ICMP_UGE:e=C.cmp(O_ULE,y,x);break;case CmpInst::ICMP_ULT:e=C.cmp(O_ULT,x,y);break;case CmpInst::ICMP_ULE:e=C.cmp(O_ULE,x,y);break;case CmpInst::ICMP_SGT:e=C.cmp(O_SLT,y,x);break;case CmpInst::ICMP_SGE:e=C.cmp(O_SLE,y,x);break;case CmpInst::ICMP_SLT:e=C.cmp(O_SLT,x,y);break;default:e=C.cmp(O_SLE,x,y); } return mk(c,e); }
static inline double D(int w,u128 c){ return Ctx::bits2d(w,c); }
static inline u128 U(int w,double d){ return Ctx::d2bits(w,d); }
// optFP==2: inexact double operations are kept as expressions of their inputs; where their value matters, all inputs but one of small domain are fixed and the rest is tabulated exactly
static bool isFixedV(int id){ return fixedV.w[id/64]>>(id%64)&1; }
static void fixVar(int id,int sub){ if(isFixedV(id)) return; Expr*e=vexpr(id); C.asg=&vals; C.epoch++; V v; v.c=C.eval(e); v.s=e; concretize(v,e->w,sub); }
static inline i128 vlo(int id){ return vars[id].sgn?vars[id].lo:0; }
static vector<int> fpVars(Expr*a,Expr*b=0){ vector<int> r; for(int i=0;i<MAXVARS;i++) if(((a?a->vs->w[i/64]:0)|(b?b->vs->w[i/64]:0))>>(i%64)&1) if(!isFixedV(i)) r.push_back(i); return r; }
#define concF(v,w,sub) concF_(v,w,sub,__LINE__)
static void concF_(V&v,int w,int sub,int line){ if(v.s){ Expr*m_;int k_; S.fpconc++; if(getenv("SYMX_CONC")) fprintf(stderr,"conc in %s sub %d op %d symx.cpp:%d\n",curFnName().c_str(),sub,(int)v.s->op,line);
  if(optFP==2&&!C.asDy(v.s,m_,k_)){ for(int id:fpVars(v.s)) fixVar(id,5000+(sub>10?MAXVARS:0)+id); C.asg=&vals; C.epoch++; v.c=v.s->fp?C.eval(v.s):v.c; v.s=0; return; } concretize(v,w,sub); } }
// leaves one free variable of at most 1024 values (or none); -1: none left
static int oneVar(Expr*a,Expr*b){ auto v=fpVars(a,b); if(v.empty()) return -1; int keep=-1; for(int id:v) if(vars[id].maxv<256&&(keep<0||vars[id].maxv>vars[keep].maxv)) keep=id; for(int id:v) if(id!=keep) fixVar(id,100+id); return keep; }
template<class F> static Expr* tabBool(int id,F f){ if(id<0){ C.asg=&vals; C.epoch++; return C.con(1,f()); } vector<u128> m=vals; Expr*v=vexpr(id),*r=0; i128 lo=vlo(id); int n=(int)vars[id].maxv+1; int run=-1; int w=v->w+2; Expr*V_=C.sext(v,w);
  for(int i=0;i<=n;i++){ bool t=false; if(i<n){ m[id]=(u128)i; C.asg=&m; C.epoch++; t=f(); } if(t&&run<0) run=i; if(!t&&run>=0){ Expr*x=C.con(1,1); if(run>0) x=C.cmp(O_SLE,C.con(w,(u128)(lo+run)),V_); if(i<n) x=C.bin1(O_AND,x,C.cmp(O_SLE,V_,C.con(w,(u128)(lo+i-1)))); r=r?C.bin1(O_OR,r,x):x; run=-1; } }
  C.asg=&vals; C.epoch++; return r?r:C.con(1,0); }
template<class F> static Expr* tabInt(int id,int w,F f){ if(id<0){ C.asg=&vals; C.epoch++; return C.con(w,(u128)(i128)f()); } vector<u128> m=vals; Expr*v=vexpr(id); i128 lo=vlo(id); int n=(int)vars[id].maxv+1; vector<i128> t(n); for(int i=0;i<n;i++){ m[id]=(u128)i; C.asg=&m; C.epoch++; t[i]=f(); } C.asg=&vals; C.epoch++;
  i128 mn=t[0],mx=t[0]; for(auto x:t){ mn=std::min(mn,x); mx=std::max(mx,x); } i128 k=n>1?t[1]-t[0]:0; bool aff=true; for(int i=0;i<n;i++) aff&=t[i]==t[0]+k*i;
  if(aff){ Expr*e=C.bin(O_ADD,C.bin(O_MUL,C.sext(v,126),C.con(126,(u128)k)),C.con(126,(u128)(t[0]-k*lo))); return C.rng(C.fit(e,w),mn,mx); }
  Expr*V_=C.sext(v,v->w+2); vector<int> en; for(int i=0;i<n;i++) if(i==n-1||t[i]!=t[i+1]) en.push_back(i); if(en.size()>256) return 0;
  std::function<Expr*(int,int)> bal=[&](int p,int q)->Expr*{ if(p==q) return C.con(w,(u128)t[en[p]]); int mid=(p+q)/2; Expr*l=bal(p,mid),*r=bal(mid+1,q); return C.ite(C.cmp(O_SLE,V_,C.con(v->w+2,(u128)(lo+en[mid]))),l,r); }; Expr*e=bal(0,(int)en.size()-1); return C.rng(e,mn,mx); }
static V fbin(IOp op,V a,V b,int w){ double x=D(w,a.c),y=D(w,b.c),r; if(w==64) r=op==I_FADD?x+y:op==I_FSUB?x-y:op==I_FMUL?x*y:op==I_FDIV?x/y:fmod(x,y); else { float p=(float)x,q=(float)y; r=op==I_FADD?p+q:op==I_FSUB?p-q:op==I_FMUL?p*q:op==I_FDIV?p/q:fmodf(p,q); }
  V v; v.c=U(w,r); v.s=0; if(!a.s&&!b.s) return v;
  Expr*p=sexpr(a,w,true),*q=sexpr(b,w,true),*e=0; 
  if(op==I_FADD||op==I_FSUB||op==I_FMUL){ // identities
    e=C.dyBin(op==I_FADD?O_FADD:op==I_FSUB?O_FSUB:O_FMUL,p,q); if(!e){ // x*0, x*1 
       if(op==I_FMUL&&!b.s&&D(w,b.c)==1) e=p; else if(op==I_FMUL&&!a.s&&D(w,a.c)==1) e=q; else if(op!=I_FMUL&&!b.s&&D(w,b.c)==0) e=p; else if(op==I_FADD&&!a.s&&D(w,a.c)==0) e=q; } }
  else if(op==I_FDIV&&!b.s){ i128 m;int k; if(Ctx::dbl2dy(D(w,b.c),m,k)&&(m==1||m==-1)) e=C.dyBin(O_FMUL,p,C.fcon(w,U(w,ldexp((double)m,k)))); }
  if(e) return mk(v.c,e);
  if(optFP>=1&&op!=I_FREM){ return mk(v.c,C.raw(op==I_FADD?O_FADD:op==I_FSUB?O_FSUB:op==I_FMUL?O_FMUL:O_FDIV,true,w,p,q)); }
  // division of dyadics: exact division is decided by the solver only after making operands concrete
  if(op==I_FDIV&&b.s&&a.s){ concF(b,w,10); return fbin(op,a,b,w); }
  concF(b,w,10); concF(a,w,11); return v; }
static V fcmpV(int p,V a,V b,int w){ double x=D(w,a.c),y=D(w,b.c); bool un=x!=x||y!=y; auto cc=[&](int q){ switch(q){ case CmpInst::FCMP_FALSE:return false;case CmpInst::FCMP_OEQ:return !un&&x==y;case CmpInst::FCMP_OGT:return !un&&x>y;case CmpInst::FCMP_OGE:return !un&&x>=y;case CmpInst::FCMP_OLT:return !un&&x<y;case CmpInst::FCMP_OLE:return !un&&x<=y;case CmpInst::FCMP_ONE:return !un&&x!=y;case CmpInst::FCMP_ORD:return !un;case CmpInst::FCMP_UNO:return un;case CmpInst::FCMP_UEQ:return un||x==y;case CmpInst::FCMP_UGT:return un||x>y;case CmpInst::FCMP_UGE:return un||x>=y;case CmpInst::FCMP_ULT:return un||x<y;case CmpInst::FCMP_ULE:return un||x<=y;case CmpInst::FCMP_UNE:return un||x!=y;default:return true; } };
  V r; r.c=cc(p); r.s=0; if(!a.s&&!b.s) return r; Expr*A=sexpr(a,w,true),*B=sexpr(b,w,true); bool allok=true;
  auto prim=[&](Op o,Expr*s,Expr*t)->Expr*{ bool ok; Expr*e=C.fcmp(o,s,t,&ok); if(ok) return e; if(optFP==1) return C.raw(o,false,1,s,t); if(optFP==2){ Expr*s_=s,*t_=t; int id=oneVar(s,t); return tabBool(id,[=]{ double x=D(w,C.eval(s_)),y=D(w,C.eval(t_)); return o==O_FUNO?(x!=x||y!=y):o==O_FOEQ?x==y:o==O_FOLT?x<y:x<=y; }); } allok=false; return C.con(1,0); };
  auto un_=[&](){ return prim(O_FUNO,A,B); };
  Expr*e=0; switch(p){ case CmpInst::FCMP_FALSE:e=C.con(1,0);break;case CmpInst::FCMP_TRUE:e=C.con(1,1);break;case CmpInst::FCMP_OEQ:e=prim(O_FOEQ,A,B);break;case CmpInst::FCMP_OGT:e=prim(O_FOLT,B,A);break;case CmpInst::FCMP_OGE:e=prim(O_FOLE,B,A);break;case CmpInst::FCMP_OLT:e=prim(O_FOLT,A,B);break;case CmpInst::FCMP_OLE:e=prim(O_FOLE,A,B);break;case CmpInst::FCMP_ONE:e=C.bin1(O_AND,C.notE(prim(O_FOEQ,A,B)),C.notE(un_()));break;case CmpInst::FCMP_ORD:e=C.notE(un_());break;case CmpInst::FCMP_UNO:e=un_();break;case CmpInst::FCMP_UEQ:e=C.bin1(O_OR,prim(O_FOEQ,A,B),un_());break;case CmpInst::FCMP_UGT:e=C.notE(prim(O_FOLE,A,B));break;case CmpInst::FCMP_UGE:e=C.notE(prim(O_FOLT,A,B));break;case CmpInst::FCMP_ULT:e=C.notE(prim(O_FOLE,B,A));break;case CmpInst::FCMP_ULE:e=C.notE(prim(O_FOLT,B,A));break;case CmpInst::FCMP_UNE:e=C.notE(prim(O_FOEQ,A,B));break; }
  if(!allok){ concF(a,w,10); concF(b,w,11); return r; }
  return mk(r.c,e); }
static i64 safeI(double x){ if(!(x>=-9223372036854775808.0&&x<9223372036854775808.0)) return INT64_MIN; return (i64)x; }
static V dyUn(V a,int w,int mode){ // 0 neg 1 abs 2 floor 3 ceil 4 rne 5 trunc
  double x=D(w,a.c),r=0; switch(mode){case 0:r=-x;break;case 1:r=fabs(x);break;case 2:r=floor(x);break;case 3:r=ceil(x);break;case 4:r=nearbyint(x);break;case 5:r=trunc(x);break;} V v; v.c=U(w,r); v.s=0; if(!a.s) return v; Expr*m;int k; Expr*e=0;
  if(C.asDy(a.s,m,k)){ Expr*z=C.con(126,0); if(mode==0){ e=C.fdy(w,C.bin(O_SUB,z,C.sext(m,126)),k); } else if(mode==1){ Expr*M_=C.sext(m,126); e=C.fdy(w,C.ite(C.cmp(O_SLT,M_,z),C.bin(O_SUB,z,M_),M_),k); } else { Expr*q=C.dyRound(m,k,mode==2?1:mode==3?2:mode==4?0:3); if(q&&Ctx::exactRange(w,q->lo,q->hi)) e=C.fdy(w,q,0); } }
  if(e) return mk(v.c,e);
  if(optFP==2&&mode>=2){ int id=oneVar(a.s,0); Expr*s_=a.s; bool odd=false; auto okv=[=](double y){ return fabs(y)<(w==64?4e15:8e6); }; Expr*q=tabInt(id,64,[=,&odd]{ double y=D(w,C.eval(s_)); if(!okv(y)){ odd=true; y=0; } return (i128)safeI(mode==2?floor(y):mode==3?ceil(y):mode==4?nearbyint(y):trunc(y)); }); if(q&&odd){ /* values that the path excludes, or not */ V k; k.s=tabBool(id,[=]{ return okv(D(w,C.eval(s_))); }); C.asg=&vals; C.epoch++; k.c=C.eval(k.s); if(k.s->op==O_CONST) k.s=0; concretize(k,1,12); if(!(k.c&1)) q=0; } if(q&&Ctx::exactRange(w,q->lo,q->hi)) return mk(v.c,C.fdy(w,q,0)); concF(a,w,10); return v; }
  if(optFP>=1){ if(mode==0) return mk(v.c,C.raw(O_FNEG,true,w,a.s)); if(mode==1) return mk(v.c,C.raw(O_FABS,true,w,a.s)); if(mode<=4) return mk(v.c,C.raw(O_FRND,true,w,a.s,0,0,mode==4?0:mode==2?1:2)); }
  if(mode==0&&a.s->op==O_FITE) { }
  concF(a,w,10); return v; }
// the result of a conversion is q where it is in range; branches where it may not be
static bool f2iRange(Expr*q,V&v,int wi,bool uns){ i128 lo=uns?0:MINW(wi),hi=uns?(i128)MASK(std::min(wi,63)):MAXW(wi); if(!q||q->lo<MINW(64)||q->hi>MAXW(64)) return false; if(q->lo>=lo&&q->hi<=hi){ v=mk(v.c,C.fit(q,wi)); return true; }
  Expr*Q=C.sext(q,q->w>100?(int)q->w:100); Expr*c=C.bin1(O_AND,C.cmp(O_SLE,C.con(Q->w,(u128)lo),Q),C.cmp(O_SLE,Q,C.con(Q->w,(u128)hi))); V k; C.asg=&vals; C.epoch++; k.s=c; k.c=C.eval(c); if(c->op==O_CONST) k.s=0; concretize(k,1,12); if(!(k.c&1)) return false; Expr*L=C.con(Q->w,(u128)lo),*H=C.con(Q->w,(u128)hi); Expr*r=q->lo<lo?C.ite(C.cmp(O_SLT,Q,L),L,Q):Q; if(q->hi>hi) r=C.ite(C.cmp(O_SLT,H,r),H,r); v=mk(v.c,C.fit(C.rng2(r,std::max(lo,q->lo),std::min(hi,q->hi)),wi)); return true; }
static V f2i(V a,int wf,int wi,int mode,bool uns){ // mode 3 trunc, 0 rne
  double x=D(wf,a.c); double y=mode==3?trunc(x):nearbyint(x); V v; v.s=0; v.c=(uns?(u128)(y>=9223372036854775808.0?(u64)y:(u64)(i64)safeI(y)):(u128)(i128)safeI(y))&MASK(wi); if(!a.s) return v; Expr*m;int k; if(C.asDy(a.s,m,k)){ Expr*q=C.dyRound(m,k,mode); if(f2iRange(q,v,wi,uns)) return v; }
  if(optFP==2){ int id=oneVar(a.s,0); Expr*s_=a.s; Expr*q=tabInt(id,64,[=]{ double y=D(wf,C.eval(s_)); return (i128)safeI(mode==3?trunc(y):nearbyint(y)); }); if(f2iRange(q,v,wi,uns)) return v; }
  if(optFP==1&&mode==3) return mk(v.c,C.raw(uns?O_FPTOUI:O_FPTOSI,false,wi,a.s)); concF(a,wf,10); return v; }
static V i2f(V a,int wi,int wf,bool uns){ V v; v.s=0; v.c=U(wf,wf==64?(uns?(double)a.c:(double)SX(a.c,wi)):(uns?(float)a.c:(float)SX(a.c,wi))); if(!a.s) return v; Expr*e=uns?C.zext(a.s,std::min(wi+1,128)):a.s; if(uns&&wi<=64&&a.s->lo<0&&a.s->lo>=-1024&&a.s->hi>=0){ Expr*z=C.con(wi,0); V k; k.s=C.cmp(O_SLE,z,a.s); C.asg=&vals; C.epoch++; k.c=C.eval(k.s); concretize(k,1,12); if(k.c&1) e=C.rng2(C.ite(C.cmp(O_SLT,a.s,z),z,a.s),0,a.s->hi); } if(wi>=128&&uns){ concF(a,wi,10); return v; } if(Ctx::exactRange(wf,e->lo,e->hi)) return mk(v.c,C.fdy(wf,e,0)); if(optFP==1) return mk(v.c,C.raw(uns?O_UITOFP:O_SITOFP,true,wf,a.s)); 
  concF(a,wi,10); return v; }
static V fcvt(V a,int wa,int wb){ V v; v.s=0; v.c=U(wb,D(wa,a.c)); if(!a.s) return v; Expr*m;int k; if(C.asDy(a.s,m,k)&&Ctx::exactRange(wb,m->lo,m->hi)&&(wb==64||(k<100&&k>-90))) return mk(v.c,C.fdy(wb,m,k)); if(optFP>=1) return mk(v.c,C.raw(O_FCVT,true,wb,a.s)); concF(a,wa,10); return v; }

// ------------------------------------------------------------------ interpreter
struct Frame { Fn*f; V*r; int pc; u64 sp; int dst; u32 nret; u64 va; };
static vector<Frame> st; static V*vstk; static size_t vtop; static const size_t VMAX=8u<<20;
static string curFnName(){ for(size_t i=st.size();i-->0;) if(st[i].f->name.compare(0,4,"sxl_")) return st[i].f->name; return "?"; }
static u64 stackAlloc(u64 n,u64 al){ if(al<16)al=16; u64 a=(stk+al-1)/al*al; stk=a+n+16; if(off(stk)>STK_SZ){ fail("resource","stack overflow in "+curFnName()); } if(stk>stkHigh) stkHigh=stk; fillNew(a,n,0x5A); return a; }
static void pushFrame(Fn*f,vector<V> const&args,size_t nfix,int dst,u32 nret,vector<Leaf> const*at){ if(!f->decoded) decode(f); f->executed=true; if(st.size()>20000) fail("resource","call depth exceeded in "+curFnName()); if(vtop+f->nslots>VMAX) fail("resource","stack overflow in "+curFnName()); Frame fr; fr.f=f; fr.r=vstk+vtop; vtop+=f->nslots; fr.pc=0; fr.sp=stk; fr.dst=dst; fr.nret=nret; fr.va=0; size_t na=std::min((size_t)f->nargs,args.size()); for(size_t i=0;i<na;i++) fr.r[i]=args[i];
  st.push_back(fr);
  if(f->var){ u64 n=args.size()>(size_t)f->nargs?(args.size()-f->nargs)*16+16:16; u64 a=stackAlloc(n,16); st.back().va=a; u64 o=a; for(size_t i=f->nargs;i<args.size();i++){ int w=at?(*at)[i].w:64; bool fp=at?(*at)[i].fp:false; if(w==128) o=(o+15)/16*16; V x=args[i]; if(!fp&&w<64){ x=x.s?mk(x.c,C.zext(x.s,64)):x; w=64; } storeC(o,x,w,fp); o+=w==128?16:8; } } }

static string cstr(u64 a){ string s; while(true){ V v=loadC(a,8,false); if(!v.c) break; s+=(char)v.c; a++; if(s.size()>4000) break; } return s; }
static V nextVA(u64 ap,int w,bool fp){ V o=loadC(ap+8,64,false); u64 a=(u64)o.c; if(w==128) a=(a+15)/16*16; V v=loadC(a,w,fp); V n; n.c=a+(w==128?16:8); n.s=0; storeC(ap+8,n,64,false); return v; }
static vector<std::pair<Expr*,u8>> fout; static int subc;
static void fmtOut(u64 ap,u64 fmt){ fout.clear(); subc=100; auto put=[&](string const&s){ for(char ch:s) fout.push_back({0,(u8)ch}); };
  while(true){ V ch=loadC(fmt++,8,false); if(ch.s) concretize(ch,8,subc++); u8 c=(u8)ch.c; if(!c) break; if(c!='%'){ fout.push_back({0,c}); continue; }
    string sp="%"; int lng=0; int prec=-1; bool hasP=false; while(true){ u8 d=(u8)loadC(fmt++,8,false).c; if(!d) return; if(d=='*'){ V v=nextVA(ap,32,false); concretize(v,32,subc++); i64 n=(i64)SX(v.c,32); if(hasP){ prec=(int)n; sp+=std::to_string(n<0?0:n); if(n<0){ sp.pop_back(); sp.pop_back(); hasP=false; prec=-1; } } else sp+=std::to_string(n); continue; }
      if(d=='.'){ hasP=true; prec=0; sp+='.'; continue; } if(isdigit(d)){ if(hasP) prec=prec*10+d-'0'; sp+=(char)d; continue; } if(strchr("-+ #",d)){ sp+=(char)d; continue; } if(d=='l'||d=='z'||d=='j'||d=='t'){ lng=1; continue; } if(d=='h') continue;
      if(d=='%'){ fout.push_back({0,'%'}); break; }
      if(d=='c'){ V v=nextVA(ap,32,false); if(v.s) fout.push_back({C.extract(v.s,0,8),(u8)v.c}); else fout.push_back({0,(u8)v.c}); break; }
      if(d=='s'){ V v=nextVA(ap,64,false); concretize(v,64,subc++); u64 a=(u64)v.c; bool simple=sp=="%"||(hasP&&sp.substr(0,2)=="%."); vector<std::pair<Expr*,u8>> b; while(prec<0||(int)b.size()<prec){ V x=loadC(a++,8,false); V z=icmp(CmpInst::ICMP_EQ,x,V{0,0},8); if(decide(z,subc++)) break; b.push_back({x.s,(u8)x.c}); } 
          if(!simple){ int wd=atoi(sp.c_str()+1); bool left=wd<0||sp.find('-')!=string::npos; wd=abs(wd); if(!left) while((int)b.size()<wd) b.insert(b.begin(),{0,(u8)' '}); else while((int)b.size()<wd) b.push_back({0,(u8)' '}); } for(auto&x:b) fout.push_back(x); break; }
      char buf[512]; if(strchr("diuxXo",d)){ V v=nextVA(ap,lng?64:32,false); concretize(v,lng?64:32,subc++); sp+="l"; sp+=(char)d; if(lng||strchr("uxXo",d)) snprintf(buf,512,sp.c_str(),(long)(u64)v.c); else snprintf(buf,512,sp.c_str(),(long)SX(v.c,32)); put(buf); break; }
      if(strchr("fFgGeEa",d)){ V v=nextVA(ap,64,true); concretize(v,64,subc++); sp+=(char)d; snprintf(buf,512,sp.c_str(),D(64,v.c)); put(buf); break; }
      if(d=='p'){ V v=nextVA(ap,64,false); snprintf(buf,512,"%p",(void*)(u64)v.c); put(buf); break; }
      fail("engine",string("unsupported format %")+(char)d); } } }

static u64 errnoAddr;
static int newVar(string const&name,int w,i128 lo,u128 maxv,bool sgn=false){ int id=vars.size(); if(id>=MAXVARS){ fprintf(stderr,"symx: too many variables\n"); exit(3);} if((size_t)id>=vals.size()){ vals.resize(id+1,0); } if(vals[id]>maxv) vals[id]=maxv; vars.push_back({name,w,lo,maxv,sgn}); domInit(id); return id; }
static V symv(string const&nm,i128 lo,i128 hi,int w){ u128 mx=(u128)(hi-lo); if(mx==0){ V v; v.c=(u128)lo&MASK(w); v.s=0; newVar(nm,2,lo,0); return v; } int vw=BITS(lo,hi); int id=newVar(nm,vw,lo,mx,true); Expr*e=vexpr(id); C.rng(e,lo,hi); return mk(((u128)lo+vals[id])&MASK(w),vw<=w?C.fit(e,w):C.extract(e,0,w)); }

static V builtin(int bi,Ins&I,vector<V>&a){ int x=bi>>8; bi&=255; V r; r.c=0; r.s=0; int w=I.w;
  auto A=[&](int i){ concretize(a[i],64,i); return (u64)a[i].c; };
  switch(bi){
  case B_NOP: case B_ZERO: return r;
  case B_MEMCPY: { u64 d=A(0),s=A(1); if(a[2].s) concretize(a[2],64,2); copyMem(d,s,(u64)a[2].c); return x?a[0]:r; }
  case B_MEMSET: { u64 d=A(0); if(a[2].s) concretize(a[2],64,2); u64 n=(u64)a[2].c; if(n){ if(!okRange(d,n)) fail("memory","out-of-bounds memset in "+curFnName()); if(a[1].s){ V b=a[1]; if(b.s->w>8) b.s=C.extract(b.s,0,8); for(u64 i=0;i<n;i++) storeC(d+i,b,8,false); } else { memset((void*)d,(int)(u8)a[1].c,n); for(u64 i=0;i<n;i++) FLG[off(d)+i]&=~FL_SYM; } } return x?a[0]:r; }
  case B_MALLOC: r.c=heapAlloc(A(0),false); return r;
  case B_CALLOC: { u128 n=(u128)A(0)*A(1); r.c=n>(1ull<<40)?0:heapAlloc((u64)n,true); return r; }
  case B_REALLOC: { u64 p=A(0),n=A(1); u64 q=heapAlloc(n,false); if(q&&p){ auto it=blocks.find(p); if(it==blocks.end()) fail("memory","realloc of invalid pointer in "+curFnName()); copyMem(q,p,std::min(n,it->second)); memset(FLG+off(p),0,it->second); blocks.erase(it); } r.c=q; return r; }
  case B_FREE: { u64 p=A(0); if(p){ auto it=blocks.find(p); if(it==blocks.end()) fail("memory","invalid or double free in "+curFnName()); memset(FLG+off(p),0,it->second); blocks.erase(it); } return r; }
  case B_ABORT: fail("abort","abort called in "+curFnName());
  case B_EXIT: if(expectFail) reach["expected failure"]++; throw PathEnd{2};
  case B_ASSERTFAIL: fail("assert","assertion `"+cstr(A(0))+"' failed in "+cstr(A(3)));
  case B_MATH1: { if(optFP>=1&&x==3&&a[0].s) return mk(U(64,sqrt(D(64,a[0].c))),C.raw(O_FSQRT,true,64,a[0].s)); concF(a[0],64,10); double v=D(64,a[0].c); double(*f[])(double)={sin,cos,tan,sqrt,exp,log,asin,acos,atan,log10,log2,cbrt,exp2}; r.c=U(64,f[x](v)); return r; }
  case B_MATH2: { concF(a[0],64,10); concF(a[1],64,11); double p=D(64,a[0].c),q=D(64,a[1].c); r.c=U(64,x==0?atan2(p,q):x==1?pow(p,q):x==2?fmod(p,q):x==3?hypot(p,q):remainder(p,q)); return r; }
  case B_FABS: return dyUn(a[0],w,1); case B_FLOOR: return dyUn(a[0],w,2); case B_CEIL: return dyUn(a[0],w,3); case B_RNE: return dyUn(a[0],w,4); case B_TRUNC: return dyUn(a[0],w,5);
  case B_ROUND: concF(a[0],w,10); r.c=U(w,round(D(w,a[0].c))); return r;
  case B_COPYSIGN: concF(a[0],w,10); concF(a[1],w,11); r.c=U(w,copysign(D(w,a[0].c),D(w,a[1].c))); return r;
  case B_LRINT: if(x){ concF(a[0],64,10); r.c=(u64)lround(D(64,a[0].c)); return r; } return f2i(a[0],64,I.w,0,false);
  case B_LDEXP: { concretize(a[1],32,1); int e=(int)SX(a[1].c,32); r.c=U(64,ldexp(D(64,a[0].c),e)); if(a[0].s){ Expr*m;int k; if(C.asDy(a[0].s,m,k)&&k-e<900&&k-e>-900) return mk(r.c,C.fdy(64,m,k-e)); concF(a[0],64,10); } return r; }
  case B_FREXP: { if(optFP==2&&a[0].s){ int id=oneVar(a[0].s,0); Expr*s_=a[0].s; Expr*q=tabInt(id,64,[=]{ double y=D(64,C.eval(s_)); int t=0; if(std::isfinite(y)) frexp(y,&t); return (i128)t; }); if(q&&std::isfinite(D(64,a[0].c))){ V ev; ev.s=C.fit(q,32); ev.c=C.eval(ev.s); concretize(ev,32,11); int t=(int)SX(ev.c,32); if(t>-900&&t<900){ V ec; ec.c=(u32)t; ec.s=0; storeV(a[1],ec,32,false); V k; k.c=U(64,ldexp(1.0,-t)); k.s=0; return fbin(I_FMUL,a[0],k,64); } } }
    concF(a[0],64,10); int e; r.c=U(64,frexp(D(64,a[0].c),&e)); V ev; ev.c=(u32)e; ev.s=0; storeV(a[1],ev,32,false); return r; }
  case B_MAXNUM: case B_MINNUM: { V c=fcmpV(bi==B_MAXNUM?CmpInst::FCMP_OLT:CmpInst::FCMP_OGT,a[0],a[1],w); V p=c.c?a[1]:a[0]; if(!c.s) return p; return mk(p.c,C.fite(c.s,sexpr(a[1],w,true),sexpr(a[0],w,true))); }
  case B_FMULADD: { V m=fbin(I_FMUL,a[0],a[1],w); return fbin(I_FADD,m,a[2],w); }
  case B_MINMAX: { V c=icmp(x==0?CmpInst::ICMP_ULT:x==1?CmpInst::ICMP_UGT:x==2?CmpInst::ICMP_SLT:CmpInst::ICMP_SGT,a[0],a[1],w); V p=c.c?a[0]:a[1]; if(!c.s) return p; return mk(p.c,C.ite(c.s,sexpr(a[0],w,false),sexpr(a[1],w,false))); }
  case B_ABS: { V n=ibin(I_SUB,V{0,0},a[0],w); V c=icmp(CmpInst::ICMP_SLT,a[0],V{0,0},w); V p=c.c?n:a[0]; if(!c.s) return p; return mk(p.c,C.ite(c.s,sexpr(n,w,false),sexpr(a[0],w,false))); }
  case B_CTLZ: case B_CTTZ: { int n=0; u128 v=a[0].c; for(n=0;n<w;n++) if((v>>(bi==B_CTLZ?w-1-n:n))&1) break; r.c=n; if(!a[0].s) return r; Expr*e=C.con(w,w); for(int i=w-1;i>=0;i--) e=C.ite(C.extract(a[0].s,bi==B_CTLZ?w-1-i:i,1),C.con(w,i),e); return mk(r.c,e); }
  case B_CTPOP: { int n=0; for(int i=0;i<w;i++) n+=(a[0].c>>i)&1; r.c=n; if(!a[0].s) return r; Expr*e=C.con(w,0); for(int i=0;i<w;i++) e=C.bin(O_ADD,e,C.zext(C.extract(a[0].s,i,1),w)); return mk(r.c,e); }
  case B_BSWAP: { u128 v=0; for(int i=0;i<w/8;i++) v|=((a[0].c>>(8*i))&255)<<(w-8-8*i); r.c=v; if(!a[0].s) return r; Expr*e=C.extract(a[0].s,0,8); for(int i=1;i<w/8;i++) e=C.concat(e,C.extract(a[0].s,8*i,8)); return mk(v,e); }
  case B_FSHL: case B_FSHR: { concretize(a[2],w,2); int k=(int)(a[2].c%w); u128 v; Expr*p=sexpr(a[0],w,false),*q=sexpr(a[1],w,false),*e; if(bi==B_FSHL){ v=k?((a[0].c<<k)|(a[1].c>>(w-k)))&MASK(w):a[0].c; e=k?C.concat(C.extract(p,0,w-k),C.extract(q,w-k,k)):p; } else { v=k?((a[0].c<<(w-k))|(a[1].c>>k))&MASK(w):a[1].c; e=k?C.concat(C.extract(p,0,k),C.extract(q,k,w-k)):q; } r.c=v; if(a[0].s||a[1].s) return mk(v,e); return r; }
  case B_EXPECT: return a[0];
  case B_FPCLASS: { int ww=(*I.at)[0].w; unsigned m=(unsigned)a[1].c; if(a[0].s){ Expr*q;int k; if(!(m&~0x207u)&&C.asDy(a[0].s,q,k)){ r.c=0; return r; } if(!(~m&0x1f8u)&&C.asDy(a[0].s,q,k)){ r.c=1; return r; } if(optFP==2&&m==3) return fcmpV(CmpInst::FCMP_UNO,a[0],a[0],ww); if(m==3&&optFP==1) return fcmpV(CmpInst::FCMP_UNO,a[0],a[0],ww); concF(a[0],ww,10); } double d=D(ww,a[0].c); int cl=std::fpclassify(d); bool ng=std::signbit(d); unsigned bit=cl==FP_NAN?3:cl==FP_INFINITE?(ng?4:0x200):cl==FP_NORMAL?(ng?8:0x100):cl==FP_SUBNORMAL?(ng?0x10:0x80):(ng?0x20:0x40); r.c=(m&bit)!=0; return r; }
  case B_OBJSIZE: r.c=MASK(w); return r;
  case B_SATARITH: { if(x==0){ V c=icmp(CmpInst::ICMP_ULT,a[0],a[1],w); V d=ibin(I_SUB,a[0],a[1],w); V p=c.c?V{0,0}:d; if(!c.s) return p; return mk(p.c,C.ite(c.s,C.con(w,0),sexpr(d,w,false))); } V d=ibin(I_ADD,a[0],a[1],w); V c=icmp(CmpInst::ICMP_ULT,d,a[0],w); V p=c.c?V{MASK(w),0}:d; if(!c.s) return p; return mk(p.c,C.ite(c.s,C.con(w,MASK(w)),sexpr(d,w,false))); }
  case B_STRTODC: { string s=cstr(A(0)); r.c=U(64,strtod(s.c_str(),0)); return r; }
  case B_ERRNO: r.c=errnoAddr; return r;
  case B_VASTART: { u64 ap=A(0); V v; v.s=0; v.c=48; storeC(ap,v,32,false); v.c=176; storeC(ap+4,v,32,false); v.c=st.back().va; storeC(ap+8,v,64,false); v.c=0; storeC(ap+16,v,64,false); return r; }
  case B_VACOPY: copyMem(A(0),A(1),24); return r;
  case B_SNPRINTF: case B_VSNPRINTF: { u64 d=A(0); u64 sz=x?~0ull>>1:A(1); u64 f=A(x?1:2); u64 ap; u64 sv=stk; if(bi==B_VSNPRINTF) ap=A(3); else { // build va_list
        size_t nf=x?2:3; ap=stackAlloc(24,16); u64 ov=stackAlloc((a.size()-nf)*16+16,16); V v; v.s=0; v.c=48; storeC(ap,v,32,false); v.c=176; storeC(ap+4,v,32,false); v.c=ov; storeC(ap+8,v,64,false); u64 o=ov; for(size_t i=nf;i<a.size();i++){ int ww=(*I.at)[i].w; bool fp=(*I.at)[i].fp; V y=a[i]; if(!fp&&ww<64){ if(y.s) y=mk(y.c,C.zext(y.s,64)); ww=64; } storeC(o,y,ww,fp); o+=8; } }
      u64 apc=ap; if(bi==B_VSNPRINTF){ apc=stackAlloc(24,16); copyMem(apc,ap,24); } fmtOut(apc,f); if(bi==B_SNPRINTF||true){ memset(FLG+off(sv),0,stk-sv); stk=sv; }
      if(sz){ for(u64 i=0;i<fout.size()&&i+1<sz;i++){ V v; v.c=fout[i].second; v.s=fout[i].first; storeC(d+i,v,8,false); } V z; z.c=0; z.s=0; storeC(d+std::min((u64)fout.size(),sz-1),z,8,false); } r.c=(u32)fout.size(); return r; }
  case B_OVF: { V p=a[0],q=a[1]; int ww=(*I.at)[0].w; IOp op=x%3==0?I_ADD:x%3==1?I_SUB:I_MUL; bool sg=x>=3; V res=ibin(op,p,q,ww); V ov; ov.s=0; int W2=op==I_MUL?2*ww:ww+1; if(W2>128){ concretize(p,ww,3); concretize(q,ww,4); res=ibin(op,p,q,ww); bool o; if(sg){ i128 t; o=op==I_ADD?__builtin_add_overflow(SX(p.c,ww),SX(q.c,ww),&t):op==I_SUB?__builtin_sub_overflow(SX(p.c,ww),SX(q.c,ww),&t):__builtin_mul_overflow(SX(p.c,ww),SX(q.c,ww),&t);} else { u128 t; o=op==I_ADD?__builtin_add_overflow(p.c,q.c,&t):op==I_SUB?__builtin_sub_overflow(p.c,q.c,&t):__builtin_mul_overflow(p.c,q.c,&t);} ov.c=o; }
      else { auto ext=[&](V v){ V y; y.c=sg?((u128)SX(v.c,ww)&MASK(W2)):v.c; y.s=v.s?(sg?C.sext(v.s,W2):C.zext(v.s,W2)):0; return y; }; V wr=ibin(op,ext(p),ext(q),W2); V rr=ext(res); ov=icmp(CmpInst::ICMP_NE,wr,rr,W2); }
      st.back().r[I.dst]=res; st.back().r[I.dst+1]=ov; throw 1; }
  case B_SX_INT: { string nm=cstr(A(0)); i64 lo=(i64)A(1),hi=(i64)A(2); return symv(nm,lo,hi,64); }
  case B_SX_BYTE: { string nm=cstr(A(0)); int id=newVar(nm,8,0,255); return mk(vals[id],C.zext(C.var(id,8,0,255),w)); }
  case B_SX_U64: { string nm=cstr(A(0)); int id=newVar(nm,64,0,MASK(64)); return mk(vals[id],C.var(id,64,0,MASK(64))); }
  case B_SX_ASSUME: { V c=a[0]; int ww=(*I.at)[0].w; V b=icmp(CmpInst::ICMP_NE,c,V{0,0},ww); if(!b.s){ if(!b.c){ S.pruned++; throw PathEnd{3}; } return r; } u64 pos=POS(0); checkBound(pos); if(b.c){ addPath(b.s); return r; } S.pruned++; vector<u128> m; vector<Expr*> ex{b.s}; if(pos>bound){ if(solve(ex,m)==1) pushChild(m,pos); } throw PathEnd{3}; }
  case B_SX_ASSERT: { V c=a[0]; int ww=(*I.at)[0].w; V b=icmp(CmpInst::ICMP_NE,c,V{0,0},ww); u64 pos=POS(0); S.asserts++; string msg=cstr(A(1)); assertCnt[msg]++; checkBound(pos);
      if(!b.c){ if(pos>bound){ addViol("property",msg,vals); if(b.s){ vector<u128> m; vector<Expr*> ex{b.s}; if(solve(ex,m)==1) pushChild(m,pos); } } throw PathEnd{1}; }
      if(b.s&&pos>bound){ S.assertQ++; vector<u128> m; vector<Expr*> ex{C.notE(b.s)}; int q=solve(ex,m); if(q==1) addViol("property",msg,m); } if(b.s) addPath(b.s); return r; }
  case B_SX_REACH: reach[cstr(A(0))]++; return r;
  case B_SX_NOTE: { if(getenv("SYMX_DBG")) fprintf(stderr,"note %s: c=%ld sym=%d\n",cstr(A(0)).c_str(),(long)(u64)a[1].c,a[1].s!=0); return r; }
  case B_SX_PARAM: { string n=cstr(A(0)); auto it=params.find(n); r.c=(u64)(it==params.end()?(i64)A(1):it->second); return r; }
  case B_SX_CONC: concretize(a[0],w,0); return a[0];
  case B_SX_CONCD: concF(a[0],64,0); return a[0];
  case B_SX_MUTE: return r;
  case B_SX_OPT: { string n=cstr(A(0)); i64 v=(i64)A(1); if(n=="fp") optFP=(int)v; else if(n=="expectfail") expectFail=v!=0; else if(n=="concmax") optConcMax=v; else if(n=="maxinstr") maxInstr=v; else if(n=="int") optInt=(int)v; else if(n=="ztimeout") zTimeout=(int)v; return r; }
  case B_SX_ISSYM: r.c=a[0].s!=0; return r;
  case B_SX_END: throw PathEnd{0};
  default: break; }
  unkFns[I.callee?I.callee->name:"?"]++; fail("engine","call to unmodelled function "+(I.callee?I.callee->name:string("?"))+" in "+curFnName()); }

static u64 mulHash;
static inline V&unfix(V&v){ if(v.s&&isFixed(v.s)) v.s=0; return v; }
static void run(Fn*entry){ vector<V> args; pushFrame(entry,args,0,-1,0,0); vector<V> tmp; 
  while(true){ Frame&fr=st.back(); Fn*f=fr.f; V*R=fr.r; Ins&I=f->code[fr.pc++]; icount++; V*K=f->consts.data();
    #define OP(x) ((x)>=0?unfix(R[x]):K[~(x)])
    if(icount>maxInstr) fail("hang","execution exceeds "+std::to_string(maxInstr)+" instructions in "+curFnName());
    switch(I.op){
    case I_ADD:case I_SUB:case I_MUL:case I_AND:case I_OR:case I_XOR:case I_SHL:case I_LSHR:case I_ASHR: R[I.dst]=ibin(I.op,OP(I.a),OP(I.b),I.w); break;
    case I_UDIV:case I_SDIV:case I_UREM:case I_SREM: { V b=OP(I.b); V z=icmp(CmpInst::ICMP_EQ,b,V{0,0},I.w); if(decide(z)) fail("arith","division by zero in "+curFnName()); R[I.dst]=ibin(I.op,OP(I.a),b,I.w); break; }
    case I_FADD:case I_FSUB:case I_FMUL:case I_FDIV:case I_FREM: R[I.dst]=fbin(I.op,OP(I.a),OP(I.b),I.w); break;
    case I_FNEG: R[I.dst]=dyUn(OP(I.a),I.w,0); break;
    case I_ICMP: R[I.dst]=icmp(I.pred,OP(I.a),OP(I.b),I.w); break;
    case I_FCMP: R[I.dst]=fcmpV(I.pred,OP(I.a),OP(I.b),I.w); break;
    case I_SELECT: { V c=OP(I.a); if(c.s){ bool anyPtr=false; for(auto&l:*I.lv) anyPtr|=l.ptr; bool same=true; for(u32 i=0;i<I.n;i++){ V const&x=OP(I.b>=0?I.b+(int)i:I.b-(int)i),&y=OP(I.c>=0?I.c+(int)i:I.c-(int)i); if(x.s!=y.s||x.c!=y.c) same=false; } if(same) c.s=0; else if(anyPtr){ bool d=decide(c); hashCF(d+3); c.s=0; } }
        for(u32 i=0;i<I.n;i++){ V x=OP(I.b>=0?I.b+(int)i:I.b-(int)i),y=OP(I.c>=0?I.c+(int)i:I.c-(int)i); V p=(c.c&1)?x:y; if(c.s){ Leaf&l=(*I.lv)[i]; p=mk(p.c,C.ite(c.s,sexpr(x,l.w,l.fp),sexpr(y,l.w,l.fp))); } R[I.dst+i]=p; } break; }
    case I_TRUNC: { V a=OP(I.a); R[I.dst]=a.s?mk(a.c&MASK(I.w),C.extract(a.s,0,I.w)):V{a.c&MASK(I.w),0}; break; }
    case I_ZEXT: { V a=OP(I.a); R[I.dst]=a.s?mk(a.c,C.zext(a.s,I.w)):a; break; }
    case I_SEXT: { V a=OP(I.a); u128 c=(u128)SX(a.c,I.w2)&MASK(I.w); R[I.dst]=a.s?mk(c,C.sext(a.s,I.w)):V{c,0}; break; }
    case I_FPTRUNC:case I_FPEXT: R[I.dst]=fcvt(OP(I.a),I.w2,I.w); break;
    case I_FPTOSI: R[I.dst]=f2i(OP(I.a),I.w2,I.w,3,false); break; case I_FPTOUI: R[I.dst]=f2i(OP(I.a),I.w2,I.w,3,true); break;
    case I_SITOFP: R[I.dst]=i2f(OP(I.a),I.w2,I.w,false); break; case I_UITOFP: R[I.dst]=i2f(OP(I.a),I.w2,I.w,true); break;
    case I_BITI2F: { V a=OP(I.a); R[I.dst]=a.s?mk(a.c,C.fromBits(a.s)):a; break; } case I_BITF2I: { V a=OP(I.a); if(a.s&&optFP==0&&a.s->op!=O_FBITS){ concF(a,I.w2,10); } R[I.dst]=a.s?mk(a.c,C.bitsOf(a.s)):a; break; }
    case I_COPY: for(u32 i=0;i<I.n;i++) R[I.dst+i]=OP(I.a>=0?I.a+(int)i:I.a-(int)i); break;
    case I_LOAD: { V p=OP(I.a); if(I.n==1){ Leaf&l=(*I.lv)[0]; R[I.dst]=loadV(p,l.w,l.fp,l.ptr); if(l.ptr&&R[I.dst].s) {} } else { if(p.s) concretize(p,64,1); for(u32 i=0;i<I.n;i++){ Leaf&l=(*I.lv)[i]; R[I.dst+i]=loadC((u64)p.c+l.off,l.w,l.fp); } } break; }
    case I_STORE: { V p=OP(I.a); if(I.n==1){ Leaf&l=(*I.lv)[0]; storeV(p,OP(I.b),l.w,l.fp); } else { if(p.s) concretize(p,64,1); for(u32 i=0;i<I.n;i++){ Leaf&l=(*I.lv)[i]; storeC((u64)p.c+l.off,OP(I.b>=0?I.b+(int)i:I.b-(int)i),l.w,l.fp); } } break; }
    case I_GEP: { V p=OP(I.a); u64 c=(u64)p.c+I.imm; Expr*e=p.s; if(e&&I.imm) e=C.bin(O_ADD,e,C.con(64,(u64)I.imm)); for(auto&g:*I.gt){ V x=OP(g.opnd); i64 xi=(i64)SX(x.c,g.w); c+=(u64)(xi*g.mul); if(x.s||e){ Expr*b=e?e:0; if(x.s){ Expr*t=C.bin(O_MUL,C.sext(x.s,64),C.con(64,(u64)g.mul)); if(b) e=C.bin(O_ADD,b,t); else { u64 base=c-(u64)(xi*g.mul); e=C.bin(O_ADD,t,C.con(64,base)); } } else e=C.bin(O_ADD,b,C.con(64,(u64)(xi*g.mul))); } } R[I.dst]=mk(c,e); break; }
    case I_ALLOCA: { V n=OP(I.a); concretize(n,64); R[I.dst]=V{stackAlloc(I.imm*(u64)n.c,I.n),0}; break; }
    case I_BR: { Edge&e=f->edges[I.b]; goto take; take: if(e.cp.size()==1) R[e.cp[0].first]=OP(e.cp[0].second); else if(!e.cp.empty()){ tmp.clear(); for(auto&p:e.cp) tmp.push_back(OP(p.second)); for(size_t i=0;i<e.cp.size();i++) R[e.cp[i].first]=tmp[i]; } fr.pc=e.pc; break; }
    case I_CBR: { V c=OP(I.a); bool t=decide(c); hashCF(t+1); Edge&e=f->edges[t?I.b:I.c]; if(e.cp.size()==1) R[e.cp[0].first]=OP(e.cp[0].second); else if(!e.cp.empty()){ tmp.clear(); for(auto&p:e.cp) tmp.push_back(OP(p.second)); for(size_t i=0;i<e.cp.size();i++) R[e.cp[i].first]=tmp[i]; } fr.pc=e.pc; break; }
    case I_SWITCH: { V c=OP(I.a); int eid=I.b; for(auto&k:*I.cases) if(k.first==c.c){ eid=k.second; break; } if(c.s){ std::map<int,Expr*> tg; Expr*def=C.con(1,1); for(auto&k:*I.cases){ Expr*q=C.cmp(O_EQ,c.s,C.con(I.w,k.first)); def=C.bin1(O_AND,def,C.notE(q)); auto it=tg.find(k.second); if(it==tg.end()) tg[k.second]=q; else it->second=C.bin1(O_OR,it->second,q); } { auto it=tg.find(I.b); if(it==tg.end()) tg[I.b]=def; else it->second=C.bin1(O_OR,it->second,def); } vector<Expr*> alts; for(auto&p:tg) if(p.first!=eid) alts.push_back(p.second); decideN(tg[eid],alts,0); } hashCF(eid+11); Edge&e=f->edges[eid]; tmp.clear(); for(auto&p:e.cp) tmp.push_back(OP(p.second)); for(size_t i=0;i<e.cp.size();i++) R[e.cp[i].first]=tmp[i]; fr.pc=e.pc; break; }
    case I_EXTV: for(u32 i=0;i<I.n;i++) R[I.dst+i]=OP(I.a>=0?I.a+(int)i:I.a-(int)i); break;
    case I_INSV: { for(u32 i=0;i<I.n;i++) R[I.dst+i]=OP(I.a>=0?I.a+(int)i:I.a-(int)i); for(int i=0;i<I.c;i++) R[I.dst+I.imm+i]=OP(I.b>=0?I.b+i:I.b-i); break; }
    case I_RET: { Frame o=fr; tmp.clear(); for(u32 i=0;i<I.n;i++) tmp.push_back(OP(I.a>=0?I.a+(int)i:I.a-(int)i)); if(stk>o.sp){ memset(FLG+off(o.sp),0,stk-o.sp); stk=o.sp; } vtop-=o.f->nslots; st.pop_back(); if(st.empty()) return; if(o.dst>=0) for(u32 i=0;i<o.nret&&i<tmp.size();i++) st.back().r[o.dst+i]=tmp[i]; break; }
    case I_CALL: { Fn*g=I.callee; if(!g){ V p=OP(I.a); if(p.s) concretize(p,64,9); auto it=fnAddr.find((u64)p.c); if(it==fnAddr.end()) fail("memory","call of invalid function pointer in "+curFnName()); g=it->second; }
        static vector<V> av; av.clear(); for(int o:*I.args) av.push_back(OP(o));
        if(g->bi>=0){ Ins J=I; J.callee=g; int bi=g->bi; V r; try{ vector<V> a2=av; r=builtin(bi,J,a2); } catch(int){ break; } if(I.dst>=0) st.back().r[I.dst]=r; break; }
        for(size_t i=0;i<av.size();i++) if((*I.byval)[i]){ u64 n=(*I.byval)[i]; u64 a=stackAlloc(n,16); copyMem(a,(u64)av[i].c,n); av[i]=V{a,0}; }
        vector<V> a2=av; pushFrame(g,a2,0,I.dst,I.n,I.at); break; }
    case I_UNREACH: fail("unreachable","unreachable code reached in "+curFnName());
    default: fail("engine","bad opcode"); } } }

static vector<u8> gsnap; static u64 glbBase;
static void resetState(){ expectFail=false; // stack
  memset(FLG,0,off(stkHigh)); stk=stkHigh=(u64)ARENA+64; memcpy((void*)glbBase,gsnap.data(),gsnap.size()); for(u64 i=off(glbBase);i<off(glb);i++) FLG[i]&=~FL_SYM; u64 hb=(u64)ARENA+STK_SZ+GLB_SZ; memset(FLG+off(hb),0,heap-hb+64); heap=hb+64; blocks.clear(); st.clear(); vtop=0; path.clear(); pathSet.clear(); vars.clear(); fixedV.clr(); nFixed=0; icount=0; cfh=0; optFP=0; optConcMax=300; maxInstr=60000000; zTimeout=8000; inMute=false; auto it=params.find("_maxinstr"); if(it!=params.end()) maxInstr=it->second; }
static u64 dbgPath=0;
static void runJob(Job&j,Fn*entry){ if(C.all.size()>1500000){ C.reset(); qcache.clear(); ttab.clear(); uncert.clear(); svtab.clear(); hardTab.clear(); arTab.clear(); fpTab.clear(); } resetState(); cur=j; vals=j.vals; bound=j.bound; int k=0; try{ run(entry); } catch(PathEnd&e){ k=e.k; } S.paths++; S.instrs+=icount; if(path.size()>S.maxdec) S.maxdec=path.size();
  if(icount<(bound>>14)) { S.diverged++; }
  if(getenv("SYMX_DBG")) { fprintf(stderr,"path end %d icount=%lu dec=%zu children=%zu vals:",k,(unsigned long)icount,path.size(),outJobs.size()); for(size_t i=0;i<vars.size();i++) fprintf(stderr," %s=%s",vars[i].name.c_str(),i128s(vars[i].lo+(i128)vals[i]).c_str()); fprintf(stderr,"\n"); } }

// ------------------------------------------------------------------ master/worker
static void wr(int fd,const void*p,size_t n){ const char*c=(const char*)p; while(n){ ssize_t k=write(fd,c,n); if(k<=0){ _exit(4);} c+=k;n-=k; } }
static bool rd(int fd,void*p,size_t n){ char*c=(char*)p; while(n){ ssize_t k=read(fd,c,n); if(k<=0) return false; c+=k;n-=k; } return true; }
struct Buf { string s; size_t p=0; void u(u64 x){ s.append((char*)&x,8);} void d(double x){ s.append((char*)&x,8);} void st(string const&x){ u(x.size()); s+=x; } u64 gu(){ u64 x; memcpy(&x,&s[p],8);p+=8;return x;} double gd(){ double x; memcpy(&x,&s[p],8);p+=8;return x;} string gs(){ u64 n=gu(); string r=s.substr(p,n); p+=n; return r; } };
static void putJob(Buf&b,Job const&j){ b.u(j.vals.size()); for(u128 v:j.vals){ b.u((u64)v); b.u((u64)(v>>64)); } b.u(j.bound); b.u(j.cfh); }
static Job getJob(Buf&b){ Job j; u64 n=b.gu(); for(u64 i=0;i<n;i++){ u64 l=b.gu(),h=b.gu(); j.vals.push_back(((u128)h<<64)|l); } j.bound=b.gu(); j.cfh=b.gu(); return j; }
static void sendBuf(int fd,Buf&b){ u64 n=b.s.size(); wr(fd,&n,8); wr(fd,b.s.data(),n); }
static bool recvBuf(int fd,Buf&b){ u64 n; if(!rd(fd,&n,8)) return false; b.s.resize(n); b.p=0; return rd(fd,&b.s[0],n); }
static void worker(int in,int out,Fn*entry){ prctl(PR_SET_PDEATHSIG,SIGKILL); C.init(); vector<Job> local; std::set<string> seenF; 
  while(true){ Buf b; if(!recvBuf(in,b)) _exit(0); u64 n=b.gu(); bool few=b.gu(); for(u64 i=0;i<n;i++) local.push_back(getJob(b)); double t0=now(); S=Stats(); viols.clear(); reach.clear(); assertCnt.clear(); unkFns.clear();
    int done=0; while(!local.empty()&&now()<deadline){ Job j=local.back(); local.pop_back(); outJobs.clear(); runJob(j,entry); done++; for(auto&c:outJobs) local.push_back(std::move(c)); if(now()-t0>(few?0.02:0.25)) break; if(few&&local.size()>4) break; }
    { static double born=t0; S.tabs=uncert.size(); double allow=0.12*(now()-born)+0.3-certSpent; if(allow>0&&!uncert.empty()) certify(allow); static u64 carried=0; u64 pend=uncert.size(); S.tabs=S.tabs>carried?S.tabs-carried:0; carried=pend; }
    Buf o; o.u(local.size()); for(auto&j:local) putJob(o,j); local.clear(); u64*sp=(u64*)&S; for(size_t i=0;i<sizeof(S)/8;i++) o.u(sp[i]);
    o.u(viols.size()); for(auto&v:viols){ o.st(v.kind); o.st(v.msg); o.u(v.in.size()); for(auto&p:v.in){ o.st(p.first); o.st(p.second);} }
    o.u(reach.size()); for(auto&p:reach){ o.st(p.first); o.u(p.second);} o.u(assertCnt.size()); for(auto&p:assertCnt){ o.st(p.first); o.u(p.second);} 
    vector<string> nf; for(auto f:fnList) if(f->executed&&seenF.insert(f->name).second) nf.push_back(f->name); o.u(nf.size()); for(auto&s:nf) o.st(s); sendBuf(out,o); } }
static string jq(string const&s){ string r="\""; for(unsigned char c:s){ if(c=='"'||c=='\\'){ r+='\\'; r+=c;} else if(c<32||c>126){ char b[8]; snprintf(b,8,"\\u%04x",c); r+=b; } else r+=c; } return r+"\""; }

int main(int argc,char**argv){ string bc,entry,outp,vdir; int nw=8; double tl=60; double vgrace=15; string seedFile; bool single=false;
  for(int i=1;i<argc;i++){ string a=argv[i]; auto nx=[&](){ return string(argv[++i]); }; if(a=="--bc") bc=nx(); else if(a=="--entry") entry=nx(); else if(a=="--out") outp=nx(); else if(a=="--jobs") nw=atoi(nx().c_str()); else if(a=="--time") tl=atof(nx().c_str()); else if(a=="--set"){ string s=nx(); auto p=s.find('='); params[s.substr(0,p)]=atoll(s.substr(p+1).c_str()); } else if(a=="--single") single=true; else if(a=="--grace") vgrace=atof(nx().c_str()); else { fprintf(stderr,"symx: bad option %s\n",a.c_str()); return 3; } }
  LLVMContext ctx; SMDiagnostic err; auto mod=parseIRFile(bc,err,ctx); if(!mod){ err.print("symx",errs()); return 3; } M=mod.get(); DL=&M->getDataLayout(); initBI();
  if(mmap(ARENA,TOT,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE,-1,0)==MAP_FAILED){ perror("mmap"); return 3; }
  FLG=(u8*)mmap(0,TOT+4096,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); SHD=(Sh*)mmap(0,TOT*sizeof(Sh),PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); vstk=(V*)mmap(0,VMAX*sizeof(V),PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);
  if(FLG==MAP_FAILED||SHD==MAP_FAILED||vstk==MAP_FAILED){ perror("mmap"); return 3; }
  stk=stkHigh=(u64)ARENA+64; glb=(u64)ARENA+STK_SZ+64; glbBase=glb; heap=(u64)ARENA+STK_SZ+GLB_SZ+64;
  for(auto&G:M->globals()){ u64 sz=G.getValueType()->isSized()?(u64)DL->getTypeAllocSize(G.getValueType()):8; if(G.isDeclaration()) sz=std::max(sz,(u64)256); gaddr[&G]=galloc(sz,G.getAlign()?G.getAlign()->value():16,G.isConstant()&&!G.isDeclaration()); }
  errnoAddr=galloc(8,16,false);
  for(auto&F:*M) getFn(&F);
  for(auto&G:M->globals()) if(G.hasInitializer()) writeConst(gaddr[&G],G.getInitializer()); else if(G.getName()=="stdout"||G.getName()=="stderr"||G.getName()=="stdin"){ u64 f=galloc(256,16,false); memcpy((void*)gaddr[&G],&f,8); }
  Function*EF=M->getFunction(entry); if(!EF||EF->isDeclaration()){ fprintf(stderr,"symx: no entry %s\n",entry.c_str()); return 3; } Fn*ef=getFn(EF);
  u64 gEnd=glb; gsnap.assign((u8*)glbBase,(u8*)gEnd); 
  // decoding allocates nothing except function addresses which were all created above
  double t0=now(); deadline=t0+tl; vector<Job> work; work.push_back(Job()); vector<Viol> av; std::map<string,u64> ar,aa; std::set<string> fnames; Stats T; bool complete=false; bool crashed=false;
  if(single){ C.init(); while(!work.empty()&&now()<deadline){ Job j=work.back(); work.pop_back(); outJobs.clear(); runJob(j,ef); for(auto&c:outJobs) work.push_back(c); } complete=work.empty(); T=S; av=viols; ar=reach; aa=assertCnt; for(auto f:fnList) if(f->executed) fnames.insert(f->name); }
  else { signal(SIGPIPE,SIG_IGN); vector<int> wi(nw),wo(nw); vector<pid_t> pid(nw); vector<char> busy(nw,0); for(int i=0;i<nw;i++){ int a[2],b[2]; if(pipe(a)||pipe(b)) return 3; pid_t p=fork(); if(p==0){ for(int k=0;k<i;k++){ close(wi[k]); close(wo[k]); } close(a[1]); close(b[0]); worker(a[0],b[1],ef); _exit(0);} close(a[0]); close(b[1]); wi[i]=a[1]; wo[i]=b[0]; pid[i]=p; }
    int nb=0; double vt=0; double lastp=now(); bool prog=getenv("SYMX_PROGRESS"); 
    while(true){ bool stop=now()>deadline||(vt>0&&now()>vt+vgrace)||av.size()>=40;
      if(!stop) for(int i=0;i<nw&&!work.empty();i++) if(!busy[i]){ size_t k=std::max((size_t)1,std::min((size_t)64,work.size()/(2*nw))); Buf b; b.u(k); b.u(work.size()<(size_t)nw*4); for(size_t q=0;q<k;q++){ putJob(b,work.back()); work.pop_back(); } sendBuf(wi[i],b); busy[i]=1; nb++; }
      if(nb==0){ complete=work.empty()&&!crashed; break; } if(now()>deadline+25) break;
      vector<pollfd> pf; vector<int> ix; for(int i=0;i<nw;i++) if(busy[i]){ pf.push_back({wo[i],POLLIN,0}); ix.push_back(i);} poll(pf.data(),pf.size(),500);
      if(prog&&now()-lastp>5){ lastp=now(); fprintf(stderr,"[%.0fs] paths=%lu work=%zu q=%lu unk=%lu solver=%.0f viol=%zu conc=%lu\n",now()-t0,(unsigned long)T.paths,work.size(),(unsigned long)T.queries,(unsigned long)T.unknown,T.solver,av.size(),(unsigned long)T.fpconc); }
      for(size_t q=0;q<pf.size();q++) if(pf[q].revents){ int i=ix[q]; Buf b; if(!recvBuf(wo[i],b)){ crashed=true; busy[i]=2; nb--; fprintf(stderr,"symx: worker died\n"); busy[i]=0; wi[i]=-1; // give up on this worker
            nw--; std::swap(wi[i],wi[nw]); std::swap(wo[i],wo[nw]); std::swap(busy[i],busy[nw]); std::swap(pid[i],pid[nw]); break; } busy[i]=0; nb--; u64 n=b.gu(); for(u64 k=0;k<n;k++) work.push_back(getJob(b)); Stats s; u64*sp=(u64*)&s; for(size_t k=0;k<sizeof(S)/8;k++) sp[k]=b.gu(); u64 md=std::max(T.maxdec,s.maxdec); u64*tp=(u64*)&T; for(size_t k=0;k+1<sizeof(S)/8;k++) tp[k]+=sp[k]; T.solver+=s.solver; T.maxdec=md;
          u64 nv=b.gu(); for(u64 k=0;k<nv;k++){ Viol v; v.kind=b.gs(); v.msg=b.gs(); u64 m=b.gu(); for(u64 z=0;z<m;z++){ string a=b.gs(),c=b.gs(); v.in.push_back({a,c}); } int same=0; for(auto&x:av) if(x.msg==v.msg) same++; if(same<4) av.push_back(v); if(vt==0) vt=now(); }
          u64 m=b.gu(); for(u64 k=0;k<m;k++){ string a=b.gs(); ar[a]+=b.gu(); } m=b.gu(); for(u64 k=0;k<m;k++){ string a=b.gs(); aa[a]+=b.gu(); } m=b.gu(); for(u64 k=0;k<m;k++) fnames.insert(b.gs()); } 
      if(nw==0) break; }
    for(int i=0;i<nw;i++) kill(pid[i],SIGKILL); while(wait(0)>0){} }
  if(T.unknown||T.capped||T.diverged) {}
  string o="{\n"; char b[512]; snprintf(b,512," \"entry\":%s,\"complete\":%s,\"paths\":%lu,\"pruned\":%lu,\"queries\":%lu,\"sat\":%lu,\"unsat\":%lu,\"unknown\":%lu,\"cache_hits\":%lu,\"model_hits\":%lu,",jq(entry).c_str(),complete?"true":"false",T.paths,T.pruned,T.queries,T.sat,T.unsat,T.unknown,T.cacheHit,T.modelHit); o+=b;
  snprintf(b,512,"\"finite_domain\":%lu,\"tables\":%lu,\"tables_confirmed\":%lu,\"asserts\":%lu,\"assert_queries\":%lu,\"diverged\":%lu,\"capped\":%lu,\"instrs\":%lu,\"decisions\":%lu,\"max_path_constraints\":%lu,\"fp_concretized\":%lu,\"solver_s\":%.2f,\"wall_s\":%.2f,\"left\":%zu,\n",T.domHit,T.tabs,T.tabCert,T.asserts,T.assertQ,T.diverged,T.capped,T.instrs,T.decisions,T.maxdec,T.fpconc,T.solver,now()-t0,work.size()); o+=b;
  auto mp=[&](std::map<string,u64>&m){ string r="{"; bool f=true; for(auto&p:m){ if(!f) r+=","; f=false; r+=jq(p.first)+":"+std::to_string(p.second);} return r+"}"; };
  o+=" \"reach\":"+mp(ar)+",\n \"assert_counts\":"+mp(aa)+",\n \"functions\":["; bool f=true; for(auto&s:fnames){ if(!f) o+=","; f=false; o+=jq(s);} o+="],\n \"violations\":["; f=true; for(auto&v:av){ if(!f) o+=","; f=false; o+="\n  {\"kind\":"+jq(v.kind)+",\"msg\":"+jq(v.msg)+",\"inputs\":["; bool g=true; for(auto&p:v.in){ if(!g) o+=","; g=false; o+="["+jq(p.first)+","+jq(p.second)+"]"; } o+="]}"; } o+="]\n}\n";
  if(outp.empty()) fputs(o.c_str(),stdout); else { FILE*fo=fopen(outp.c_str(),"w"); if(!fo) return 3; fputs(o.c_str(),fo); fclose(fo); }
  fflush(stdout); _exit(0); }
