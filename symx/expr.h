// symx: hash-consed expressions with signed interval information and exact
// dyadic floating point, lowered to Z3 on demand.
#pragma once
#include <z3.h>
#include <cstdint>
#include <cstring>
#include <cmath>
#include <vector>
#include <string>
#include <unordered_map>
#include <functional>
#include <map>
#include <algorithm>
#include <cstdio>
#include <cstdlib>
typedef unsigned char u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64; typedef int64_t i64;
typedef unsigned __int128 u128; typedef __int128 i128;

#define MAXVARS 512
struct VarSet { u64 w[MAXVARS/64]; void clr(){memset(w,0,sizeof w);} void or_(VarSet const&o){for(int i=0;i<MAXVARS/64;i++)w[i]|=o.w[i];}
  bool isect(VarSet const&o)const{for(int i=0;i<MAXVARS/64;i++)if(w[i]&o.w[i])return true;return false;} bool has(int i)const{return w[i/64]>>(i%64)&1;} void set(int i){w[i/64]|=1ull<<(i%64);} };

enum Op : u8 { O_CONST, O_VAR, O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM, O_AND, O_OR, O_XOR,
  O_SHL, O_LSHR, O_ASHR, O_NOT, O_EQ, O_ULT, O_ULE, O_SLT, O_SLE, O_ITE, O_CONCAT, O_EXTRACT, O_ZEXT, O_SEXT,
  // floating point valued (fp=true)
  O_FDY, O_FBITS /*bv->fp*/, O_FADD, O_FSUB, O_FMUL, O_FDIV, O_FSQRT, O_FNEG, O_FABS, O_FRND/*k=mode 0 RNE 1 floor 2 ceil*/, O_FITE, O_FCVT/*f32<->f64*/, O_SITOFP, O_UITOFP,
  // bv valued from fp
  O_BITSF /*fp->bv*/, O_FOEQ, O_FOLT, O_FOLE, O_FUNO, O_FPTOSI, O_FPTOUI };

struct Expr { u8 op; bool fp; u16 w; u32 id; Expr *a,*b,*c; u128 k; i128 lo,hi; VarSet const* vs; Z3_ast z; Z3_ast zb; u32 ep; u128 ev; };

static inline u128 MASK(int w){ return w>=128? ~(u128)0 : (((u128)1<<w)-1); }
static inline i128 SX(u128 v,int w){ if(w>=128) return (i128)v; u128 m=(u128)1<<(w-1); v&=MASK(w); return (i128)((v^m)-m); }
static inline i128 MINW(int w){ return w>=128? (i128)((u128)1<<127) : -((i128)1<<(w-1)); }
static inline i128 MAXW(int w){ return w>=128? (i128)(~((u128)1<<127)) : ((i128)1<<(w-1))-1; }
static inline int BITS(i128 lo,i128 hi){ int m=1; while(m<128 && (lo<MINW(m)||hi>MAXW(m))) m++; return m; }

struct Ctx {
  std::unordered_multimap<u64,Expr*> tab; std::vector<Expr*> all; std::vector<std::string> vnames; Z3_context z=0; u32 epoch=1; std::vector<u128> const* asg=0;
  std::vector<std::pair<u64,VarSet*>> vsets; VarSet empty;
  bool usedFP=false;
  void init(){ Z3_config c=Z3_mk_config(); z=Z3_mk_context(c); Z3_del_config(c); Z3_set_error_handler(z,[](Z3_context cc,Z3_error_code e){ fprintf(stderr,"Z3 error: %s\n",Z3_get_error_msg(cc,e)); }); empty.clr(); }
  void reset(){ for(auto e:all){ delete e; } all.clear(); tab.clear(); for(auto&p:vsets) delete p.second; vsets.clear(); vtab.clear(); pok.clear(); itab.clear(); ibtab.clear(); if(z) Z3_del_context(z); init(); }
  VarSet const* vsUnion(Expr*a,Expr*b,Expr*c){ VarSet const*r=a?a->vs:&empty; 
    auto u=[&](VarSet const*x,VarSet const*y)->VarSet const*{ if(x==y) return x; bool xs=true,ys=true; for(int i=0;i<MAXVARS/64;i++){ if(y->w[i]&~x->w[i]) xs=false; if(x->w[i]&~y->w[i]) ys=false; } if(xs) return x; if(ys) return y; VarSet t=*x; t.or_(*y); return intern(t); };
    if(b) r=u(r,b->vs); if(c) r=u(r,c->vs); return r; }
  std::unordered_multimap<u64,VarSet*> vtab;
  VarSet const* intern(VarSet const&t){ u64 h=1469598103934665603ull; for(int i=0;i<MAXVARS/64;i++) h=(h^t.w[i])*1099511628211ull; auto r=vtab.equal_range(h); for(auto i=r.first;i!=r.second;++i) if(!memcmp(i->second,&t,sizeof t)) return i->second; auto*n=new VarSet(t); vsets.push_back({h,n}); vtab.emplace(h,n); return n; }

  Expr* raw(u8 op,bool fp,int w,Expr*a=0,Expr*b=0,Expr*c=0,u128 k=0){
    if(op>=O_ADD&&op<=O_ASHR&&(a->w!=w||b->w!=w)) { fprintf(stderr,"symx: width mismatch op %d\n",op); abort(); } if(op>=O_EQ&&op<=O_SLE&&a->w!=b->w) { fprintf(stderr,"symx: width mismatch cmp %d\n",op); abort(); } if(op==O_EXTRACT&&(int)k+w>a->w) { fprintf(stderr,"symx: bad extract\n"); abort(); } if((op==O_ZEXT||op==O_SEXT)&&a->w>=w) { fprintf(stderr,"symx: bad ext\n"); abort(); } if(op==O_ITE&&(b->w!=w||c->w!=w)) { fprintf(stderr,"symx: bad ite\n"); abort(); }
    u64 h=op*1000003ull+w*7919+fp; auto mix=[&](u64 x){ h=(h^x)*0x9E3779B97F4A7C15ull; h^=h>>29; };
    mix((u64)a);mix((u64)b);mix((u64)c);mix((u64)k);mix((u64)(k>>64));
    auto r=tab.equal_range(h); for(auto i=r.first;i!=r.second;++i){ Expr*e=i->second; if(e->op==op&&e->fp==fp&&e->w==w&&e->a==a&&e->b==b&&e->c==c&&e->k==k) return e; }
    Expr*e=new Expr(); e->op=op;e->fp=fp;e->w=w;e->id=all.size();e->a=a;e->b=b;e->c=c;e->k=k;e->lo=fp?0:MINW(w);e->hi=fp?0:MAXW(w);e->z=0;e->zb=0;e->ep=0; e->vs=vsUnion(a,b,c); all.push_back(e); tab.emplace(h,e); return e; }
  Expr* rng(Expr*e,i128 lo,i128 hi){ if(lo>e->lo)e->lo=lo; if(hi<e->hi)e->hi=hi; return e; }
  Expr* con(int w,u128 v){ v&=MASK(w); Expr*e=raw(O_CONST,false,w,0,0,0,v); e->lo=e->hi=SX(v,w); return e; }
  Expr* fcon(int w,u128 bits){ return raw(O_CONST,true,w,0,0,0,bits); }
  Expr* var(int id,int w,i128 lo,u128 maxv){ Expr*e=raw(O_VAR,false,w,lo?con(100,(u128)lo):0,0,0,(u128)id|((u128)maxv<<32)); if(e->vs==&empty){ VarSet t; t.clr(); t.set(id); e->vs=intern(t); } return e; }
  bool isC(Expr*e){return e->op==O_CONST;}
  bool isC(Expr*e,u128 v){return e->op==O_CONST&&e->k==v;}
  static bool addOK(i128 a,i128 b,i128&r){return !__builtin_add_overflow(a,b,&r);} static bool subOK(i128 a,i128 b,i128&r){return !__builtin_sub_overflow(a,b,&r);} static bool mulOK(i128 a,i128 b,i128&r){return !__builtin_mul_overflow(a,b,&r);}
  // value preserving signed narrowing (range known to fit w bits)
  Expr* fit(Expr*e,int w){ if(e->w==w) return e; if(e->w<w) return sext(e,w); if(e->op==O_CONST) return con(w,e->k);
    if(e->op==O_SEXT) return fit(e->a,w); if(e->op==O_ZEXT){ if(e->a->w<w) return zext(e->a,w); if(e->a->w==w) return e->a; return fit2(e->a,w);} if(e->op==O_ITE||e->op==O_EXTRACT||e->op==O_CONCAT||e->op==O_AND||e->op==O_OR||e->op==O_XOR){ Expr*x=extract(e,0,w); return rng(x,e->lo,e->hi);} if(e->op==O_ADD||e->op==O_SUB||e->op==O_MUL){ int ma=BITS(e->a->lo,e->a->hi),mb=BITS(e->b->lo,e->b->hi); if(ma<=w&&mb<=w){ Expr*x=bin((Op)e->op,fit(e->a,w),fit(e->b,w)); return x->op==O_CONST?x:rng(x,e->lo,e->hi);} } Expr*x=raw(O_EXTRACT,false,w,e,0,0,0); return rng(x,e->lo,e->hi); }
  Expr* fit2(Expr*e,int w){ return extract(e,0,w); }
  Expr* sext(Expr*e,int w){ if(e->w==w) return e; if(isC(e)) return con(w,(u128)SX(e->k,e->w)); if(e->op==O_SEXT) return sext(e->a,w); if(e->op==O_ZEXT) return zext(e->a,w);
    Expr*r=raw(O_SEXT,false,w,e); return rng(r,e->lo,e->hi); }
  Expr* zext(Expr*e,int w){ if(e->w==w) return e; if(isC(e)) return con(w,e->k); if(e->op==O_ZEXT) return zext(e->a,w); if(e->lo>=0) return sext(e,w);
    Expr*r=raw(O_ZEXT,false,w,e); return rng(r,0,(i128)MASK(e->w)); }
  Expr* extract(Expr*e,int lo,int w){ if(lo==0&&w==e->w) return e; if(isC(e)) return con(w,e->k>>lo);
    switch(e->op){
    case O_EXTRACT: return extract(e->a,lo+(int)e->k,w);
    case O_CONCAT: { int lw=e->b->w; if(lo+w<=lw) return extract(e->b,lo,w); if(lo>=lw) return extract(e->a,lo-lw,w); return concat(extract(e->a,0,lo+w-lw),extract(e->b,lo,lw-lo)); }
    case O_SEXT: case O_ZEXT: { int xw=e->a->w; if(lo+w<=xw) return extract(e->a,lo,w); if(lo==0) return e->op==O_SEXT? sext(e->a,w):zext(e->a,w); if(lo>=xw&&e->op==O_ZEXT) return con(w,0);
        if(lo>=xw&&e->a->lo>=0) return con(w,0); if(lo<xw){ Expr*x=extract(e->a,lo,xw-lo); return e->op==O_SEXT? sext(x,w):zext(x,w);} break; }
    case O_AND: return bin(O_AND,extract(e->a,lo,w),extract(e->b,lo,w));
    case O_OR: return bin(O_OR,extract(e->a,lo,w),extract(e->b,lo,w));
    case O_XOR: return bin(O_XOR,extract(e->a,lo,w),extract(e->b,lo,w));
    case O_ADD: case O_SUB: case O_MUL: if(lo==0) return bin((Op)e->op,extract(e->a,0,w),extract(e->b,0,w)); break;
    case O_ITE: if(isC(e->b)||isC(e->c)||e->b->op==O_SEXT||e->b->op==O_ZEXT) return ite(e->a,extract(e->b,lo,w),extract(e->c,lo,w)); break;
    default: break; }
    Expr*r=raw(O_EXTRACT,false,w,e,0,0,lo); if(lo==0&&e->lo>=MINW(w)&&e->hi<=MAXW(w)) rng(r,e->lo,e->hi);
    else if(e->lo>=0 && lo>0){ i128 h=e->hi>>lo; if(h<=MAXW(w)) rng(r,0,h);} return r; }
  // if h consists of copies of the sign bit of some expression, that expression (without sign extensions), else null
  Expr* signOf(Expr*h){ while(h->op==O_SEXT) h=h->a; if(h->op!=O_EXTRACT) return 0; Expr*y=h->a; int k=(int)h->k; while(y->op==O_SEXT) y=y->a; return k>=y->w-1&&(int)h->k+h->w<=h->a->w?y:0; }
  Expr* concat(Expr*h,Expr*l){ int w=h->w+l->w; if(isC(h)&&isC(l)) return con(w,(h->k<<l->w)|l->k); if(isC(h,0)) return zext(l,w);
    if(h->op==O_EXTRACT&&l->op==O_EXTRACT&&h->a==l->a&&(int)h->k==(int)l->k+l->w) return extract(h->a,(int)l->k,w);
    // sign extension pattern: h is the replicated sign of the value l
    if(h->lo>=-1&&h->hi<=0&&w<=128){ Expr*s=signOf(h); if(s){ Expr*y=l; while(y->op==O_SEXT) y=y->a; if(s==y) return sext(l,w); if(s->op==O_EXTRACT&&s->k==0&&s->a==y&&s->w==y->w) return sext(l,w); } }
    Expr*r=raw(O_CONCAT,false,w,h,l); if(w<120) rng(r,h->lo*((i128)1<<l->w),h->hi*((i128)1<<l->w)+(i128)MASK(l->w)); return r; }
  Expr* notE(Expr*a){ if(isC(a)) return con(1,!a->k); if(a->op==O_NOT) return a->a; if(a->op==O_SLT) return cmp(O_SLE,a->b,a->a); if(a->op==O_SLE) return cmp(O_SLT,a->b,a->a); if(a->op==O_ULT) return cmp(O_ULE,a->b,a->a); if(a->op==O_ULE) return cmp(O_ULT,a->b,a->a); return raw(O_NOT,false,1,a); }
  static u128 foldBin(u8 op,int w,u128 a,u128 b){ i128 sa=SX(a,w),sb=SX(b,w); a&=MASK(w);b&=MASK(w); u128 r=0; switch(op){ case O_ADD:r=a+b;break;case O_SUB:r=a-b;break;case O_MUL:r=a*b;break;
    case O_UDIV:r=b?a/b:MASK(w);break;case O_UREM:r=b?a%b:a;break; case O_SDIV:r=sb==0?(sa<0?1:MASK(w)):(sb==-1?-(u128)sa:(u128)(sa/sb));break; case O_SREM:r=sb==0?a:(sb==-1?0:(u128)(sa%sb));break;
    case O_AND:r=a&b;break;case O_OR:r=a|b;break;case O_XOR:r=a^b;break; case O_SHL:r=b>=(u128)w?0:a<<b;break; case O_LSHR:r=b>=(u128)w?0:a>>b;break; case O_ASHR:r=(u128)(b>=(u128)w?(sa<0?-1:0):sa>>b);break; } return r&MASK(w); }
  Expr* bin(Op op,Expr*a,Expr*b){ int w=a->w; if(isC(a)&&isC(b)) return con(w,foldBin(op,w,a->k,b->k));
    if(w==1) return bin1(op,a,b);
    if((op==O_ADD||op==O_MUL||op==O_AND||op==O_OR||op==O_XOR)){ if(isC(a)||(!isC(b)&&a->id>b->id)) std::swap(a,b); }
    i128 l=0,h=0; bool known=false;
    switch(op){
    case O_ADD: if(isC(b,0)) return a; if(isC(b)&&a->op==O_ADD&&isC(a->b)) return bin(O_ADD,a->a,con(w,a->b->k+b->k)); if(isC(b)&&a->op==O_SEXT&&a->a->op==O_ADD&&isC(a->a->b)&&exact(a->a)) return bin(O_ADD,sext(a->a->a,w),con(w,(u128)SX(a->a->b->k,a->a->w)+b->k)); known=addOK(a->lo,b->lo,l)&&addOK(a->hi,b->hi,h); break;
    case O_SUB: if(isC(b,0)) return a; if(a==b) return con(w,0); if(isC(b)&&SX(b->k,w)!=MINW(w)) return bin(O_ADD,a,con(w,-b->k)); if(a->op==O_ADD&&a->b==b) return a->a; if(a->op==O_ADD&&a->a==b) return a->b; if(isC(b)&&a->op==O_ADD&&isC(a->b)) return bin(O_ADD,a->a,con(w,a->b->k-b->k)); known=subOK(a->lo,b->hi,l)&&subOK(a->hi,b->lo,h);
      if((hasArith(a)||hasArith(b))&&(a->vs==b->vs||a->vs->isect(*b->vs))&&polyOK(a)&&polyOK(b)){ Poly P; if(poly(a,P,1,0)&&poly(b,P,-1,0)){ if(P.empty()) return con(w,0); if(P.size()==1&&P.begin()->first.empty()) return con(w,P.begin()->second); } } break;
    case O_MUL: { if(isC(b,0)) return b; if(isC(b,1)) return a; i128 p[4]; known=mulOK(a->lo,b->lo,p[0])&&mulOK(a->lo,b->hi,p[1])&&mulOK(a->hi,b->lo,p[2])&&mulOK(a->hi,b->hi,p[3]); if(known){ l=h=p[0]; for(int i=1;i<4;i++){ if(p[i]<l)l=p[i]; if(p[i]>h)h=p[i]; } if(a==b&&l<0) l=0; } break; }
    case O_UDIV: if(isC(b,1)) return a; if(isC(b)&&b->k&&!(b->k&(b->k-1))){ int s=0; while(((u128)1<<s)!=b->k)s++; return shr(false,a,s);} if(a->lo>=0&&b->lo>0){ known=true; l=a->lo/b->hi; h=a->hi/b->lo; } break;
    case O_UREM: if(isC(b)&&b->k&&!(b->k&(b->k-1))) return bin(O_AND,a,con(w,b->k-1)); if(a->lo>=0&&b->lo>0){ if(a->hi<b->lo) return a; known=true; l=0; h=std::min(a->hi,b->hi-1);} break;
    case O_SDIV: if(isC(b,1)) return a; if(b->lo>0||b->hi<0){ if(a->lo>MINW(w)||b->lo>0){ known=true; i128 m=std::max(a->hi<0?-a->hi:a->hi,a->lo<0?-a->lo:a->lo); l=-m;h=m; if(a->lo>=0&&b->lo>0){l=0;} } } break;
    case O_SREM: if(b->lo>0&&a->lo>=0){ if(a->hi<b->lo) return a; known=true;l=0;h=std::min(a->hi,b->hi-1);} else if(a->lo>MINW(w)&&(b->lo>0||b->hi<0)&&b->lo>MINW(w)){ known=true; i128 m=std::max(b->hi<0?-b->hi:b->hi,b->lo<0?-b->lo:b->lo)-1; l=-m;h=m; } break;
    case O_AND: if(isC(b,0)) return b; if(isC(b)){ u128 mo=mayOne(a); if(!(mo&b->k)) return con(w,0); if(!(mo&~b->k)) return a; if(a->op==O_OR){ if(!(mayOne(a->a)&b->k)) return bin(O_AND,a->b,b); if(!(mayOne(a->b)&b->k)) return bin(O_AND,a->a,b); } if(a->op==O_ITE&&isC(a->b)&&isC(a->c)) return ite(a->a,bin(O_AND,a->b,b),bin(O_AND,a->c,b)); } if(isC(b,MASK(w))) return a; if(a==b) return a; if(isC(b)&&!(b->k&(b->k+1))){ int n=0; while(b->k>>n) n++; return zext(extract(a,0,n),w);}
       if(isC(b)){ // high mask: clear low bits
         int n=0; while(!((b->k>>n)&1)) n++; if(n>0&&((b->k>>n)|(~MASK(w-n)&MASK(w)))==MASK(w)) return concat(extract(a,n,w-n),con(n,0)); }
       if(a->lo>=0&&b->lo>=0){known=true;l=0;h=std::min(a->hi,b->hi);} else if(b->lo>=0){known=true;l=0;h=b->hi;} else if(a->lo>=0){known=true;l=0;h=a->hi;} break;
    case O_OR: if(isC(b,0)) return a; if(a==b) return a; if(isC(b)&&a->op==O_ITE&&isC(a->b)&&isC(a->c)) return ite(a->a,con(w,a->b->k|b->k),con(w,a->c->k|b->k)); { Expr*x=disj(a,b); if(x) return x; x=disj(b,a); if(x) return x; } if(a->lo>=0&&b->lo>=0){known=true;l=std::max(a->lo,b->lo);h=std::max(a->hi,b->hi); int n=BITS(0,h); h=MAXW(n);} break;
    case O_XOR: if(isC(b,0)) return a; if(a==b) return con(w,0); if(a->lo>=0&&b->lo>=0){known=true;l=0;h=std::max(a->hi,b->hi); int n=BITS(0,h); h=MAXW(n);} break;
    case O_SHL: if(isC(b)) return shl(a,b->k>=(u128)w?w:(int)b->k); break;
    case O_LSHR: if(isC(b)) return shr(false,a,b->k>=(u128)w?w:(int)b->k); if(a->lo>=0){known=true;l=0;h=a->hi;} break;
    case O_ASHR: if(isC(b)) return shr(true,a,b->k>=(u128)w?w-1:(int)b->k); known=true; l=std::min(a->lo,(i128)0); h=std::max(a->hi,(i128)0); break;
    default: break; }
    if(known&&l>=MINW(w)&&h<=MAXW(w)){
      if(l==h) return con(w,(u128)l);
      if(op!=O_SHL&&op!=O_LSHR&&op!=O_ASHR){
      int m=BITS(std::min(l,std::min(a->lo,b->lo)),std::max(h,std::max(a->hi,b->hi))); if(op==O_SDIV) m++; if(op==O_AND){ /* only operands matter if both fit */ }
      if((op==O_AND)&&!(a->lo>=0&&b->lo>=0)){ m=w; }
      if(m<w){ Expr*x=bin(op,fit(a,m),fit(b,m)); rng(x,l,h); return rng2(sext(x,w),l,h);} }
      return rng(raw(op,false,w,a,b),l,h); }
    return raw(op,false,w,a,b); }
  Expr* rng2(Expr*e,i128 l,i128 h){ if(e->op!=O_CONST) rng(e,l,h); return e; }
  // bits that may be set
  u128 mayOne(Expr*e,int d=0){ u128 full=MASK(e->w); if(e->op==O_CONST) return e->k; if(d<5) switch(e->op){ case O_ITE: return mayOne(e->b,d+1)|mayOne(e->c,d+1); case O_ZEXT: return mayOne(e->a,d+1); case O_SEXT: if(e->a->lo>=0) return mayOne(e->a,d+1); break; case O_OR: case O_XOR: return mayOne(e->a,d+1)|mayOne(e->b,d+1); case O_AND: return mayOne(e->a,d+1)&mayOne(e->b,d+1); case O_CONCAT: return (mayOne(e->a,d+1)<<e->b->w)|mayOne(e->b,d+1); default: break; }
    if(e->lo>=0){ int n=BITS(0,e->hi)-1; return full&(n>=128?~(u128)0:(((u128)1<<n)-1)); } return full; }
  // refine the range of a branch of ite by its condition (x <= k and the like)
  void under(Expr*c,bool pos,Expr*e,i128&l,i128&h){ l=e->lo;h=e->hi; if(c->op!=O_SLT&&c->op!=O_SLE) return; Expr*x; i128 k; bool up; /* up: x <= k' */ if(isC(c->b)){ x=c->a; k=SX(c->b->k,c->b->w); if(c->op==O_SLT)k--; up=true; } else if(isC(c->a)){ x=c->b; k=SX(c->a->k,c->a->w); if(c->op==O_SLT)k++; up=false; } else return;
    if(!pos){ if(up){ k++; up=false; } else { k--; up=true; } }
    while(x->op==O_SEXT) x=x->a; Expr*y=e; while(y->op==O_SEXT) y=y->a; if(x==y){ if(up) h=std::min(h,k); else l=std::max(l,k); return; }
    if(y->op==O_SUB&&isC(y->a,0)&&exact(y)){ Expr*q=y->b; while(q->op==O_SEXT) q=q->a; if(q==x){ if(up) l=std::max(l,-k); else h=std::min(h,-k); return; } }
    if((y->op==O_SUB||y->op==O_ADD||y->op==O_MUL)&&hasArith(x)&&polyOK(y)&&polyOK(x)&&y->vs==x->vs){ Poly P; if(poly(y,P,1,0)&&poly(x,P,1,0)&&P.empty()){ if(up) l=std::max(l,-k); else h=std::min(h,-k); } } }
  Expr* disj(Expr*a,Expr*b){ // a: CONCAT(y,0_k), b: value < 2^k
    if(a->op==O_CONCAT&&isC(a->b,0)){ int k=a->b->w; if(b->lo>=0&&(k>=127||b->hi<((i128)1<<k))) return concat(a->a,extract(b,0,k)); if(b->op==O_ZEXT&&b->a->w<=k) return concat(a->a,zext(b->a,k)); if(b->op==O_SEXT&&b->a->lo>=0&&b->a->w<=k) return concat(a->a,sext(b->a,k)); }
    return 0; }
  Expr* shl(Expr*a,int k){ int w=a->w; if(k==0) return a; if(k>=w) return con(w,0); i128 l,h; bool pack=(k%8==0&&k>=16); if(!pack&&mulOK(a->lo,(i128)1<<k,l)&&mulOK(a->hi,(i128)1<<k,h)&&l>=MINW(w)&&h<=MAXW(w)){ int m=BITS(l,h); if(m<k+1)m=k+1; if(m<w) { Expr*x=concat(fit(a,m-k),con(k,0)); return rng2(sext(x,w),l,h);} }
    return concat(extract(a,0,w-k),con(k,0)); }
  Expr* shr(bool ar,Expr*a,int k){ int w=a->w; if(k==0) return a; if(k>=w) return con(w,0); if(!ar&&a->lo<0) return zext(extract(a,k,w-k),w); int m=BITS(a->lo,a->hi); if(m<=k){ if(a->lo>=0) return con(w,0); m=k+1; } if(m>w)m=w; Expr*x=fit(a,m); x=extract(x,k,m-k); if(a->op!=O_CONST) rng2(x,a->lo>>k,a->hi>>k); return sext(x,w); }
  Expr* bin1(Op op,Expr*a,Expr*b){ if(isC(a)&&(op==O_AND||op==O_OR||op==O_XOR||op==O_ADD)) std::swap(a,b); switch(op){
    case O_AND: if(isC(b,0)) return b; if(isC(b,1)) return a; if(a==b) return a; if(a==notE(b)) return con(1,0); break;
    case O_OR: if(isC(b,1)) return b; if(isC(b,0)) return a; if(a==b) return a; if(a==notE(b)) return con(1,1); break;
    case O_XOR: case O_ADD: case O_SUB: if(isC(b,0)) return a; if(isC(b,1)) return notE(a); if(isC(a,0)) return b; if(a==b) return con(1,0); op=O_XOR; break;
    case O_MUL: op=O_AND; return bin1(op,a,b);
    default: break; }
    if((op==O_AND||op==O_OR||op==O_XOR)&&a->id>b->id) std::swap(a,b);
    return raw(op,false,1,a,b); }
  // polynomial normal form modulo 2^w (sign extensions of exact subterms are looked through)
  typedef std::map<std::vector<u32>,u128> Poly;
  static bool exact(Expr*e){ i128 l,h; int w=e->w; switch(e->op){ case O_ADD: return addOK(e->a->lo,e->b->lo,l)&&addOK(e->a->hi,e->b->hi,h)&&l>=MINW(w)&&h<=MAXW(w); case O_SUB: return subOK(e->a->lo,e->b->hi,l)&&subOK(e->a->hi,e->b->lo,h)&&l>=MINW(w)&&h<=MAXW(w); case O_MUL: { i128 x[2]={e->a->lo,e->a->hi},y[2]={e->b->lo,e->b->hi}; for(i128 p:x) for(i128 q:y){ if(!mulOK(p,q,l)||l<MINW(w)||l>MAXW(w)) return false; } return true; } default: return false; } }
  bool poly(Expr*e,Poly&P,int sg,int depth){ // P += sg*e
    if(depth>40) return false; auto add=[&](std::vector<u32> m,u128 c){ auto it=P.find(m); if(it==P.end()){ if(P.size()>80) return false; P[m]=c; } else { it->second+=c; if(it->second==0) P.erase(it); } return true; };
    switch(e->op){ case O_CONST: { u128 c=(u128)SX(e->k,e->w); if(c==0) return true; return add({},sg>0?c:-c); }
    case O_ADD: return poly(e->a,P,sg,depth+1)&&poly(e->b,P,sg,depth+1); case O_SUB: return poly(e->a,P,sg,depth+1)&&poly(e->b,P,-sg,depth+1);
    case O_MUL: { Poly A,B; if(!poly(e->a,A,1,depth+1)||!poly(e->b,B,1,depth+1)) return false; if(A.size()*B.size()>400) return false; for(auto&x:A) for(auto&y:B){ std::vector<u32> m=x.first; m.insert(m.end(),y.first.begin(),y.first.end()); std::sort(m.begin(),m.end()); u128 c=x.second*y.second; if(!add(m,sg>0?c:-c)) return false; } return true; }
    case O_CONCAT: if(isC(e->b,0)&&e->b->w<64&&e->lo>MINW(e->w)){ Poly A; if(polyOK(e->a)&&poly(e->a,A,1,depth+1)){ for(auto&x:A){ u128 c=x.second<<e->b->w; if(!add(x.first,sg>0?c:-c)) return false; } return true; } } break;
    case O_SEXT: if(polyOK(e->a)) return poly(e->a,P,sg,depth+1); return add({e->a->id},sg>0?1:(u128)-1);
    default: break; }
    return add({e->id},sg>0?1:(u128)-1); }
  // value of e as an integer equals its polynomial (no wrap anywhere inside)
  std::unordered_map<Expr*,bool> pok;
  bool polyOK(Expr*e){ switch(e->op){ case O_ADD: case O_SUB: case O_MUL: { auto it=pok.find(e); if(it!=pok.end()) return it->second; bool r=exact(e)&&polyOK(e->a)&&polyOK(e->b); return pok[e]=r; } case O_SEXT: return polyOK(e->a); case O_CONCAT: return isC(e->b,0)?polyOK(e->a):true; default: return true; } }
  bool hasArith(Expr*e){ while(e->op==O_SEXT||e->op==O_CONCAT) e=e->a; return e->op==O_ADD||e->op==O_SUB||e->op==O_MUL; }
  int polyCmp(Op op,Expr*a,Expr*b){ // -1 unknown, else constant truth
    if(!hasArith(a)&&!hasArith(b)) return -1; if(!polyOK(a)||!polyOK(b)) return -1; Poly P; if(!poly(a,P,1,0)||!poly(b,P,-1,0)) return -1; if(P.empty()) return op==O_EQ||op==O_SLE; if(P.size()==1&&P.begin()->first.empty()){ i128 d=(i128)P.begin()->second; return op==O_EQ?0:op==O_SLT?d<0:d<=0; } return -1; }
  Expr* cmp(Op op,Expr*a,Expr*b){ int w=a->w; if(isC(a)&&isC(b)){ i128 sa=SX(a->k,w),sb=SX(b->k,w); switch(op){case O_EQ:return con(1,a->k==b->k);case O_ULT:return con(1,a->k<b->k);case O_ULE:return con(1,a->k<=b->k);case O_SLT:return con(1,sa<sb);default:return con(1,sa<=sb);} }
    if(a==b) return con(1,op==O_EQ||op==O_ULE||op==O_SLE);
    if(w==1){ if(op==O_EQ){ if(isC(a)) std::swap(a,b); if(isC(b)) return b->k?a:notE(a); return notE(bin1(O_XOR,a,b)); }
       if(op==O_ULT) return bin1(O_AND,notE(a),b); if(op==O_ULE) return bin1(O_OR,notE(a),b); if(op==O_SLT) return bin1(O_AND,a,notE(b)); return bin1(O_OR,a,notE(b)); }
    if(op==O_ULT||op==O_ULE){ bool an=a->lo>=0,bn=b->lo>=0; if(an&&bn) op=op==O_ULT?O_SLT:O_SLE; else if(an&&b->hi<0) return con(1,1); else if(bn&&a->hi<0) return con(1,0); else if(a->hi<0&&b->hi<0) op=op==O_ULT?O_SLT:O_SLE;
       else if(a->op==O_ZEXT||b->op==O_ZEXT){ int m=1; auto uw=[&](Expr*x){ if(x->op==O_ZEXT) return (int)x->a->w; if(isC(x)){int n=1; while(n<w&&x->k>>n)n++; return n;} if(x->lo>=0) return BITS(0,x->hi); return w; }; m=std::max(uw(a),uw(b)); if(m<w) return cmp(op,extract(a,0,m),extract(b,0,m)); } }
    if(op==O_EQ){ if(a->hi<b->lo||b->hi<a->lo) return con(1,0); if(isC(a)||(!isC(b)&&a->id>b->id)) std::swap(a,b);
       if(isC(b)&&a->op==O_ADD&&isC(a->b)) return cmp(O_EQ,a->a,con(w,b->k-a->b->k));
       if(isC(b)&&a->op==O_ITE){ if(isC(a->b)&&isC(a->c)){ bool t=a->b->k==b->k,f=a->c->k==b->k; if(t&&f) return con(1,1); if(t) return a->a; if(f) return notE(a->a); return con(1,0);} }
       if(isC(b)&&a->op==O_CONCAT) return bin1(O_AND,cmp(O_EQ,a->a,con(a->a->w,b->k>>a->b->w)),cmp(O_EQ,a->b,con(a->b->w,b->k)));
       if(a->op==O_ZEXT&&b->op==O_ZEXT&&a->a->w==b->a->w) return cmp(O_EQ,a->a,b->a);
       if(a->op==O_ZEXT&&isC(b)) { if(b->k>>a->a->w) return con(1,0); return cmp(O_EQ,a->a,con(a->a->w,b->k)); }
       if(isC(b)&&a->op==O_OR){ u128 ma=mayOne(a->a),mb=mayOne(a->b); if(b->k&~(ma|mb)) return con(1,0); if(!(ma&mb)) return bin1(O_AND,cmp(O_EQ,a->a,con(w,b->k&ma)),cmp(O_EQ,a->b,con(w,b->k&mb))); }
       if(a->op==O_OR&&isC(b,0)) return bin1(O_AND,cmp(O_EQ,a->a,b),cmp(O_EQ,a->b,b));
       if(a->op==O_SUB&&isC(b,0)) { /* a-b==0 <=> a==b (mod 2^w) */ return cmp(O_EQ,a->a,a->b); } }
    else if(op==O_SLT){ if(a->hi<b->lo) return con(1,1); if(a->lo>=b->hi) return con(1,0); }
    else if(op==O_SLE){ if(a->hi<=b->lo) return con(1,1); if(a->lo>b->hi) return con(1,0); }
    if(op!=O_ULT&&op!=O_ULE){
      auto bitw=[](Expr*x){ return x->op==O_OR||x->op==O_AND||x->op==O_XOR; };
      if(op==O_SLT&&isC(b,0)&&bitw(a)) return bin1((Op)a->op,cmp(O_SLT,a->a,b),cmp(O_SLT,a->b,b));
      if(((op==O_SLE&&isC(a,0))||(op==O_SLT&&isC(a,MASK(w))))&&bitw(b)) return notE(cmp(O_SLT,b,con(w,0)));
      if(op==O_SLE&&isC(b,MASK(w))&&bitw(a)) return cmp(O_SLT,a,con(w,0));
      if((op==O_SLT||op==O_SLE)){ // bool to int compares
        if(a->op==O_ITE&&isC(a->b)&&isC(a->c)&&isC(b)){ auto ev=[&](Expr*x){ i128 p=SX(x->k,w),q=SX(b->k,w); return op==O_SLT?p<q:p<=q; }; bool t=ev(a->b),f=ev(a->c); if(t&&f) return con(1,1); if(t) return a->a; if(f) return notE(a->a); return con(1,0);} 
        if(b->op==O_ITE&&isC(b->b)&&isC(b->c)&&isC(a)){ auto ev=[&](Expr*x){ i128 p=SX(a->k,w),q=SX(x->k,w); return op==O_SLT?p<q:p<=q; }; bool t=ev(b->b),f=ev(b->c); if(t&&f) return con(1,1); if(t) return b->a; if(f) return notE(b->a); return con(1,0);} }
      int m=BITS(std::min(a->lo,b->lo),std::max(a->hi,b->hi)); if(m<w) return cmp(op,fit(a,m),fit(b,m)); }
    if(op==O_EQ||op==O_SLT||op==O_SLE){ int r=polyCmp(op,a,b); if(r>=0) return con(1,r); }
    return raw(op,false,1,a,b); }
  Expr* ite(Expr*c,Expr*t,Expr*f){ if(isC(c)) return c->k?t:f; if(t==f) return t; if(t->fp) return fite(c,t,f); int w=t->w; if(c->op==O_NOT){ std::swap(t,f); c=c->a; }
    if(w==1){ if(isC(t)&&isC(f)) return t->k?c:notE(c); if(isC(t,1)) return bin1(O_OR,c,f); if(isC(t,0)) return bin1(O_AND,notE(c),f); if(isC(f,0)) return bin1(O_AND,c,t); if(isC(f,1)) return bin1(O_OR,notE(c),t); }
    i128 l,h,l2,h2; under(c,true,t,l,h); under(c,false,f,l2,h2); if(l>h){l=l2;h=h2;} else if(l2<=h2){ l=std::min(l,l2); h=std::max(h,h2);} int m=BITS(l,h); if(BITS(std::min(t->lo,f->lo),std::max(t->hi,f->hi))>m) m=std::min(w,BITS(std::min(t->lo,f->lo),std::max(t->hi,f->hi))); if(m<w&&w>1){ Expr*x=ite(c,fit(t,m),fit(f,m)); if(x->op!=O_CONST) rng(x,l,h); return rng2(sext(x,w),l,h);} 
    return rng(raw(O_ITE,false,w,c,t,f),l,h); }

  // ---------- floating point ----------
  static bool dbl2dy(double d,i128&m,int&k){ if(!std::isfinite(d)) return false; if(d==0){m=0;k=0;return true;} int e; double f=frexp(d,&e); i64 mm=(i64)ldexp(f,53); k=53-e; while(!(mm&1)){mm>>=1;k--;} m=mm; return true; }
  static double bits2d(int w,u128 v){ if(w==64){ u64 x=(u64)v; double d; memcpy(&d,&x,8); return d;} u32 x=(u32)v; float f; memcpy(&f,&x,4); return f; }
  static u128 d2bits(int w,double d){ if(w==64){u64 x; memcpy(&x,&d,8); return x;} float f=(float)d; u32 x; memcpy(&x,&f,4); return x; }
  Expr* fdy(int w,Expr*a,int k){ // value a*2^-k, exact by range
    if(isC(a)) return fcon(w,d2bits(w,ldexp((double)SX(a->k,a->w),-k)));
    int m=BITS(a->lo,a->hi); if(m<a->w) a=fit(a,m); return raw(O_FDY,true,w,a,0,0,(u128)(u64)(i64)k); }
  bool asDy(Expr*e,Expr*&a,int&k){ if(e->op==O_FDY){a=e->a;k=(int)(i64)(u64)e->k;return true;} if(e->op==O_CONST){ i128 m; if(!dbl2dy(bits2d(e->w,e->k),m,k)) return false; a=con(64,(u128)m); a=fit(a,BITS(m,m)); return true;} return false; }
  static bool exactRange(int w,i128 l,i128 h){ i128 M=(i128)1<<(w==64?53:24); return l>=-M&&h<=M; }
  Expr* align(Expr*a,int sh,int w){ return bin(O_MUL,sext(a,w),con(w,(u128)1<<sh)); }
  // returns null if not representable exactly
  Expr* dyBin(Op op,Expr*x,Expr*y){ Expr*a,*b;int ka,kb; if(!asDy(x,a,ka)||!asDy(y,b,kb)) return 0; int w=x->w;
    if(op==O_FMUL){ Expr*r=bin(O_MUL,sext(a,126),sext(b,126)); if(!exactRange(w,r->lo,r->hi)) return 0; if(ka+kb>900||ka+kb<-900) return 0; return fdy(w,r,ka+kb);} 
    int k=std::max(ka,kb); if(isC(a,0)) {k=kb;ka=kb;} else if(isC(b,0)){k=ka;kb=ka;} if(k-ka>60||k-kb>60) return 0; Expr*A=align(a,k-ka,126),*B=align(b,k-kb,126); Expr*r=bin(op==O_FADD?O_ADD:O_SUB,A,B); if(!exactRange(w,r->lo,r->hi)) return 0; return fdy(w,r,k); }
  Expr* fcmp(Op op,Expr*x,Expr*y,bool*ok){ // OEQ,OLT,OLE ; exact if both dyadic
    Expr*a,*b;int ka,kb; *ok=true; if(isC(x)&&isC(y)){ double p=bits2d(x->w,x->k),q=bits2d(y->w,y->k); return con(1,op==O_FOEQ?p==q:op==O_FOLT?p<q:op==O_FOLE?p<=q:(p!=p||q!=q)); }
    auto infc=[&](Expr*c,int&s){ if(c->op!=O_CONST) return false; double d=bits2d(c->w,c->k); if(std::isnan(d)){s=0;return true;} if(std::isinf(d)){s=d>0?1:-1;return true;} return false; };
    int s; if(x->op==O_FDY||y->op==O_FDY){ if(x->op==O_FDY&&infc(y,s)){ if(s==0) return con(1,op==O_FUNO); return con(1,op==O_FUNO?0:op==O_FOEQ?0:s>0);} if(y->op==O_FDY&&infc(x,s)){ if(s==0) return con(1,op==O_FUNO); return con(1,op==O_FUNO?0:op==O_FOEQ?0:s<0);} }
    if(asDy(x,a,ka)&&asDy(y,b,kb)){ if(op==O_FUNO) return con(1,0);
      if(y->op==O_CONST) return dyCmpC(op,a,ka,bits2d(y->w,y->k),false); if(x->op==O_CONST) return dyCmpC(op,b,kb,bits2d(x->w,x->k),true);
      int k=std::max(ka,kb); if(k-ka<=60&&k-kb<=60){ Expr*A=align(a,k-ka,126),*B=align(b,k-kb,126); return cmp(op==O_FOEQ?O_EQ:op==O_FOLT?O_SLT:O_SLE,A,B);} }
    *ok=false; return 0; }
  Expr* dyCmpC(Op op,Expr*a,int ka,double c,bool swapped){ // a*2^-ka op c  (or c op a if swapped)
    double s=ldexp(c,ka); if(std::isinf(s)) s=c>0?1e300:-1e300; double fl=floor(s); bool isint=fl==s; double lim=ldexp(1,100); int w=126; 
    auto I=[&](double d){ if(d>lim)d=lim; if(d<-lim)d=-lim; return con(w,(u128)(i128)d); }; Expr*A=sext(a,w);
    if(op==O_FOEQ) return isint&&fabs(s)<lim? cmp(O_EQ,A,I(s)):con(1,0);
    if(!swapped){ if(op==O_FOLT) return cmp(O_SLT,A,I(isint?s:fl+1)); return cmp(O_SLE,A,I(fl)); }
    else { if(op==O_FOLT) return cmp(O_SLT,I(fl),A); return cmp(O_SLE,I(isint?s:fl+1),A); } }
  Expr* fite(Expr*c,Expr*t,Expr*f){ if(isC(c)) return c->k?t:f; if(t==f) return t; Expr*a,*b;int ka,kb; if(asDy(t,a,ka)&&asDy(f,b,kb)){ if(isC(a,0))ka=kb; else if(isC(b,0))kb=ka; int k=std::max(ka,kb); if(k-ka<=60&&k-kb<=60){ Expr*r=ite(c,align(a,k-ka,126),align(b,k-kb,126)); if(exactRange(t->w,r->lo,r->hi)) return fdy(t->w,r,k);} } return raw(O_FITE,true,t->w,c,t,f); }
  Expr* bitsOf(Expr*f){ if(isC(f)) return con(f->w,f->k); if(f->op==O_FBITS) return f->a; return raw(O_BITSF,false,f->w,f); }
  Expr* fromBits(Expr*b){ if(isC(b)) return fcon(b->w,b->k); if(b->op==O_BITSF) return b->a; if(b->op==O_ITE) return fite(b->a,fromBits(b->b),fromBits(b->c)); return raw(O_FBITS,true,b->w,b); }
  // shifting right of dyadic integer with rounding; mode 0 RNE,1 floor,2 ceil,3 trunc -> integer expr
  Expr* dyRound(Expr*a,int k,int mode){ int w=126; Expr*A=sext(a,w); if(k<=0){ if(-k>60) return 0; return bin(O_MUL,A,con(w,(u128)1<<(-k))); } if(k>100) return 0;
    Expr*fl=bin(O_ASHR,A,con(w,k)); if(mode==1) return fl; Expr*frac=bin(O_SUB,A,bin(O_MUL,fl,con(w,(u128)1<<k)));
    if(mode==2) return bin(O_ADD,fl,zext(notE(cmp(O_EQ,frac,con(w,0))),w)); if(mode==3) return bin(O_ADD,fl,zext(bin1(O_AND,cmp(O_SLT,A,con(w,0)),notE(cmp(O_EQ,frac,con(w,0)))),w));
    Expr*half=con(w,(u128)1<<(k-1)); Expr*up=bin1(O_OR,cmp(O_SLT,half,frac),bin1(O_AND,cmp(O_EQ,frac,half),extract(fl,0,1))); return bin(O_ADD,fl,zext(up,w)); }

  // ---------- evaluation ----------
  u128 eval(Expr*e){ if(e->op==O_CONST) return e->k; if(e->ep==epoch) return e->ev; u128 r=0; 
    switch(e->op){ case O_VAR: r=(*asg)[(size_t)(u32)e->k]; if(e->a) r=(r+e->a->k)&MASK(e->w); break;
    case O_ADD:case O_SUB:case O_MUL:case O_UDIV:case O_SDIV:case O_UREM:case O_SREM:case O_AND:case O_OR:case O_XOR:case O_SHL:case O_LSHR:case O_ASHR: r=foldBin(e->op,e->w,eval(e->a),eval(e->b)); break;
    case O_NOT: r=!eval(e->a); break; case O_EQ: r=eval(e->a)==eval(e->b); break; case O_ULT:r=eval(e->a)<eval(e->b);break;case O_ULE:r=eval(e->a)<=eval(e->b);break; case O_SLT:r=SX(eval(e->a),e->a->w)<SX(eval(e->b),e->b->w);break; case O_SLE:r=SX(eval(e->a),e->a->w)<=SX(eval(e->b),e->b->w);break;
    case O_ITE: case O_FITE: r=eval(e->a)?eval(e->b):eval(e->c); break; case O_CONCAT: r=(eval(e->a)<<e->b->w)|eval(e->b); break; case O_EXTRACT: r=(eval(e->a)>>(int)e->k)&MASK(e->w); break; case O_ZEXT:r=eval(e->a);break; case O_SEXT:r=(u128)SX(eval(e->a),e->a->w)&MASK(e->w);break;
    case O_FDY: r=d2bits(e->w,ldexp((double)SX(eval(e->a),e->a->w),-(int)(i64)(u64)e->k)); break; case O_FBITS:case O_BITSF: r=eval(e->a); break;
    case O_FADD:case O_FSUB:case O_FMUL:case O_FDIV:{ double p=bits2d(e->w,eval(e->a)),q=bits2d(e->w,eval(e->b)); if(e->w==64) r=d2bits(64,e->op==O_FADD?p+q:e->op==O_FSUB?p-q:e->op==O_FMUL?p*q:p/q); else { float x=(float)p,y=(float)q; r=d2bits(32,e->op==O_FADD?x+y:e->op==O_FSUB?x-y:e->op==O_FMUL?x*y:x/y);} break; }
    case O_FSQRT: r=d2bits(e->w,sqrt(bits2d(e->w,eval(e->a)))); break; case O_FNEG: r=d2bits(e->w,-bits2d(e->w,eval(e->a))); break; case O_FABS: r=d2bits(e->w,fabs(bits2d(e->w,eval(e->a)))); break; case O_FRND:{ double p=bits2d(e->w,eval(e->a)); r=d2bits(e->w,e->k==0?nearbyint(p):e->k==1?floor(p):ceil(p)); break; }
    case O_FCVT: r=d2bits(e->w,bits2d(e->a->w,eval(e->a))); break; case O_SITOFP: r=d2bits(e->w,(double)SX(eval(e->a),e->a->w)); break; case O_UITOFP: r=d2bits(e->w,(double)eval(e->a)); break;
    case O_FOEQ:case O_FOLT:case O_FOLE:case O_FUNO:{ double p=bits2d(e->a->w,eval(e->a)),q=bits2d(e->b->w,eval(e->b)); r=e->op==O_FOEQ?p==q:e->op==O_FOLT?p<q:e->op==O_FOLE?p<=q:(p!=p||q!=q); break; }
    case O_FPTOSI: r=(u128)(i128)(i64)bits2d(e->a->w,eval(e->a))&MASK(e->w); break; case O_FPTOUI: r=(u128)(u64)bits2d(e->a->w,eval(e->a))&MASK(e->w); break;
    default: abort(); }
    e->ep=epoch; e->ev=r; return r; }
  u128 evalWith(Expr*e,std::vector<u128> const&m){ if(asg!=&m||true){ asg=&m; epoch++; } return eval(e); }

  // ---------- Z3 lowering ----------
  Z3_ast keep(Z3_ast t){ return t; }
  Z3_ast bvc(int w,u128 v){ Z3_sort s=Z3_mk_bv_sort(z,w); if(w<=64) return Z3_mk_unsigned_int64(z,(u64)v,s); char buf[64]; int n=0; u128 t=v; char tmp[64]; do{ tmp[n++]='0'+(int)(t%10); t/=10; }while(t); for(int i=0;i<n;i++) buf[i]=tmp[n-1-i]; buf[n]=0; return Z3_mk_numeral(z,buf,s); }
  Z3_sort fs(int w){ return w==64?Z3_mk_fpa_sort_64(z):Z3_mk_fpa_sort_32(z); }
  Z3_ast lb(Expr*e){ // as Z3 Bool (w==1)
    if(e->zb) return e->zb; Z3_ast r; switch(e->op){ case O_CONST: r=e->k?Z3_mk_true(z):Z3_mk_false(z); break; case O_NOT: r=Z3_mk_not(z,lb(e->a)); break;
    case O_AND:{Z3_ast x[2]={lb(e->a),lb(e->b)}; r=Z3_mk_and(z,2,x);break;} case O_OR:{Z3_ast x[2]={lb(e->a),lb(e->b)}; r=Z3_mk_or(z,2,x);break;} case O_XOR: r=Z3_mk_xor(z,lb(e->a),lb(e->b)); break;
    case O_EQ: r=Z3_mk_eq(z,lv(e->a),lv(e->b)); break; case O_ULT: r=Z3_mk_bvult(z,lv(e->a),lv(e->b)); break; case O_ULE: r=Z3_mk_bvule(z,lv(e->a),lv(e->b)); break; case O_SLT: r=Z3_mk_bvslt(z,lv(e->a),lv(e->b)); break; case O_SLE: r=Z3_mk_bvsle(z,lv(e->a),lv(e->b)); break;
    case O_ITE: r=Z3_mk_ite(z,lb(e->a),lb(e->b),lb(e->c)); break;
    case O_FOEQ: r=Z3_mk_fpa_eq(z,lf(e->a),lf(e->b)); break; case O_FOLT: r=Z3_mk_fpa_lt(z,lf(e->a),lf(e->b)); break; case O_FOLE: r=Z3_mk_fpa_leq(z,lf(e->a),lf(e->b)); break; case O_FUNO:{ Z3_ast x[2]={Z3_mk_fpa_is_nan(z,lf(e->a)),Z3_mk_fpa_is_nan(z,lf(e->b))}; r=Z3_mk_or(z,2,x); break; }
    default: r=Z3_mk_eq(z,lv(e),bvc(1,1)); }
    return e->zb=keep(r); }
  Z3_ast lv(Expr*e){ if(e->fp) return lf(e); if(e->z) return e->z; Z3_ast r; 
    switch(e->op){ case O_CONST: r=bvc(e->w,e->k); break; case O_VAR:{ char n[64]; snprintf(n,64,"v%d_%d",(int)(u32)e->k,e->w); r=Z3_mk_const(z,Z3_mk_string_symbol(z,n),Z3_mk_bv_sort(z,e->w)); break; }
    case O_ADD:r=Z3_mk_bvadd(z,lv(e->a),lv(e->b));break; case O_SUB:r=Z3_mk_bvsub(z,lv(e->a),lv(e->b));break; case O_MUL:r=Z3_mk_bvmul(z,lv(e->a),lv(e->b));break; case O_UDIV:r=Z3_mk_bvudiv(z,lv(e->a),lv(e->b));break; case O_SDIV:r=Z3_mk_bvsdiv(z,lv(e->a),lv(e->b));break; case O_UREM:r=Z3_mk_bvurem(z,lv(e->a),lv(e->b));break; case O_SREM:r=Z3_mk_bvsrem(z,lv(e->a),lv(e->b));break;
    case O_SHL:r=Z3_mk_bvshl(z,lv(e->a),lv(e->b));break; case O_LSHR:r=Z3_mk_bvlshr(z,lv(e->a),lv(e->b));break; case O_ASHR:r=Z3_mk_bvashr(z,lv(e->a),lv(e->b));break;
    case O_AND: case O_OR: case O_XOR: case O_ITE: case O_NOT: case O_EQ: case O_ULT: case O_ULE: case O_SLT: case O_SLE: case O_FOEQ: case O_FOLT: case O_FOLE: case O_FUNO:
      if(e->w==1){ r=Z3_mk_ite(z,lb(e),bvc(1,1),bvc(1,0)); break; }
      if(e->op==O_AND) r=Z3_mk_bvand(z,lv(e->a),lv(e->b)); else if(e->op==O_OR) r=Z3_mk_bvor(z,lv(e->a),lv(e->b)); else if(e->op==O_XOR) r=Z3_mk_bvxor(z,lv(e->a),lv(e->b)); else r=Z3_mk_ite(z,lb(e->a),lv(e->b),lv(e->c)); break;
    case O_CONCAT:r=Z3_mk_concat(z,lv(e->a),lv(e->b));break; case O_EXTRACT:r=Z3_mk_extract(z,(int)e->k+e->w-1,(int)e->k,lv(e->a));break; case O_ZEXT:r=Z3_mk_zero_ext(z,e->w-e->a->w,lv(e->a));break; case O_SEXT:r=Z3_mk_sign_ext(z,e->w-e->a->w,lv(e->a));break;
    case O_BITSF:r=Z3_mk_fpa_to_ieee_bv(z,lf(e->a));usedFP=true;break; case O_FPTOSI:usedFP=true;r=Z3_mk_fpa_to_sbv(z,Z3_mk_fpa_rtz(z),lf(e->a),e->w);break; case O_FPTOUI:usedFP=true;r=Z3_mk_fpa_to_ubv(z,Z3_mk_fpa_rtz(z),lf(e->a),e->w);break;
    default: abort(); }
    return e->z=keep(r); }
  Z3_ast lf(Expr*e){ if(e->z) return e->z; usedFP=true; Z3_ast rne=Z3_mk_fpa_rne(z); Z3_ast r; switch(e->op){
    case O_CONST:{ Z3_ast b=bvc(e->w,e->k); r=Z3_mk_fpa_to_fp_bv(z,b,fs(e->w)); break; } case O_FBITS: r=Z3_mk_fpa_to_fp_bv(z,lv(e->a),fs(e->w)); break;
    case O_FDY:{ r=Z3_mk_fpa_to_fp_signed(z,rne,lv(e->a),fs(e->w)); int k=(int)(i64)(u64)e->k; if(k) r=Z3_mk_fpa_mul(z,rne,r,Z3_mk_fpa_numeral_double(z,ldexp(1,-k),fs(e->w))); break; }
    case O_FADD:r=Z3_mk_fpa_add(z,rne,lf(e->a),lf(e->b));break; case O_FSUB:r=Z3_mk_fpa_sub(z,rne,lf(e->a),lf(e->b));break; case O_FMUL:r=Z3_mk_fpa_mul(z,rne,lf(e->a),lf(e->b));break; case O_FDIV:r=Z3_mk_fpa_div(z,rne,lf(e->a),lf(e->b));break; case O_FSQRT:r=Z3_mk_fpa_sqrt(z,rne,lf(e->a));break; case O_FNEG:r=Z3_mk_fpa_neg(z,lf(e->a));break; case O_FABS:r=Z3_mk_fpa_abs(z,lf(e->a));break;
    case O_FRND:r=Z3_mk_fpa_round_to_integral(z,e->k==0?rne:e->k==1?Z3_mk_fpa_rtn(z):Z3_mk_fpa_rtp(z),lf(e->a));break; case O_FITE:r=Z3_mk_ite(z,lb(e->a),lf(e->b),lf(e->c));break; case O_FCVT:r=Z3_mk_fpa_to_fp_float(z,rne,lf(e->a),fs(e->w));break; case O_SITOFP:r=Z3_mk_fpa_to_fp_signed(z,rne,lv(e->a),fs(e->w));break; case O_UITOFP:r=Z3_mk_fpa_to_fp_unsigned(z,rne,lv(e->a),fs(e->w));break;
    default: abort(); } return e->z=keep(r); }

  // ---------- integer lowering (linear arithmetic): null if not expressible ----------
  std::unordered_map<Expr*,Z3_ast> itab, ibtab; u32 iops=0;
  Z3_ast ic(i128 v){ bool neg=v<0; u128 t=neg?-(u128)v:(u128)v; char tmp[64]; int n=0; do{ tmp[n++]='0'+(int)(t%10); t/=10; }while(t); char buf[64]; int k=0; if(neg) buf[k++]='-'; while(n) buf[k++]=tmp[--n]; buf[k]=0; return Z3_mk_numeral(z,buf,Z3_mk_int_sort(z)); }
  Z3_ast i2(char op,Z3_ast a,Z3_ast b){ Z3_ast x[2]={a,b}; return op=='+'?Z3_mk_add(z,2,x):op=='-'?Z3_mk_sub(z,2,x):op=='*'?Z3_mk_mul(z,2,x):op=='/'?Z3_mk_div(z,a,b):op=='%'?Z3_mk_mod(z,a,b):op=='<'?Z3_mk_lt(z,a,b):Z3_mk_le(z,a,b); }
  Z3_ast iwrap(Z3_ast v,int w){ if(w>100) return 0; Z3_ast m=i2('%',v,ic((i128)1<<w)); iops+=2; return Z3_mk_ite(z,i2('<',m,ic((i128)1<<(w-1))),m,i2('-',m,ic((i128)1<<w))); }
  Z3_ast iuns(Expr*e){ Z3_ast a=li(e); if(!a) return 0; if(e->lo>=0) return a; if(e->w>100) return 0; iops++; return Z3_mk_ite(z,i2('<',a,ic(0)),i2('+',a,ic((i128)1<<e->w)),a); }
  Z3_ast li(Expr*e){ auto it=itab.find(e); if(it!=itab.end()) return it->second; itab[e]=0; Z3_ast r=0; int w=e->w; if(e->fp) return 0;
    if(w==1){ switch(e->op){ case O_CONST: case O_NOT: case O_AND: case O_OR: case O_XOR: case O_EQ: case O_ULT: case O_ULE: case O_SLT: case O_SLE: case O_ITE: { Z3_ast b=lib(e); if(b) r=Z3_mk_ite(z,b,ic(-1),ic(0)); return itab[e]=r; } default: break; } }
    switch(e->op){ case O_CONST: r=ic(SX(e->k,w)); break;
    case O_VAR:{ char n[64]; snprintf(n,64,"i%d",(int)(u32)e->k); r=Z3_mk_const(z,Z3_mk_string_symbol(z,n),Z3_mk_int_sort(z)); if(!e->a&&(e->k>>32)>(u128)MAXW(w)) { if(w>100) r=0; else r=Z3_mk_ite(z,i2('<',r,ic((i128)1<<(w-1))),r,i2('-',r,ic((i128)1<<w))); } break; }
    case O_ADD: case O_SUB:{ Z3_ast a=li(e->a),b=a?li(e->b):0; if(!b) break; iops++; r=i2(e->op==O_ADD?'+':'-',a,b); if(!exact(e)){ if(w>100){r=0;break;} Z3_ast M=ic((i128)1<<w); iops+=2; r=Z3_mk_ite(z,i2('l',r,ic(MAXW(w))),Z3_mk_ite(z,i2('<',r,ic(MINW(w))),i2('+',r,M),r),i2('-',r,M)); } break; }
    case O_MUL:{ if(!isC(e->a)&&!isC(e->b)) break; Z3_ast a=li(e->a),b=a?li(e->b):0; if(!b) break; iops+=2; r=i2('*',a,b); if(!exact(e)) r=0; break; }
    case O_SEXT: r=li(e->a); break; case O_ZEXT: r=iuns(e->a); break;
    case O_CONCAT:{ if(e->b->w>100) break; Z3_ast a=li(e->a),b=a?iuns(e->b):0; if(!b) break; iops++; r=i2('+',i2('*',a,ic((i128)1<<e->b->w)),b); break; }
    case O_EXTRACT:{ Z3_ast a=li(e->a); if(!a||e->k>100) break; if(e->k){ iops+=2; a=i2('/',a,ic((i128)1<<(int)e->k)); } i128 l=e->a->lo>>(int)e->k,h=e->a->hi>>(int)e->k; if(l>=MINW(w)&&h<=MAXW(w)) r=a; else r=iwrap(a,w); break; }
    case O_UDIV: case O_UREM: { if(!isC(e->b)) break; if(e->a->lo<0||e->b->lo<=0) { Z3_ast a=iuns(e->a),b=a&&isC(e->b)&&e->b->k?iuns(e->b):0; if(!b) break; iops+=4; r=iwrap(i2(e->op==O_UDIV?'/':'%',a,b),w); break; } Z3_ast a=li(e->a),b=a?li(e->b):0; if(!b) break; iops+=4; r=i2(e->op==O_UDIV?'/':'%',a,b); break; }
    case O_SDIV: case O_SREM: { if(!isC(e->b)||e->b->lo<=0) break; Z3_ast a=li(e->a),b=a?li(e->b):0; if(!b) break; iops+=6; Z3_ast na=Z3_mk_unary_minus(z,a); Z3_ast q=e->a->lo>=0?i2('/',a,b):Z3_mk_ite(z,i2('<',a,ic(0)),Z3_mk_unary_minus(z,i2('/',na,b)),i2('/',a,b)); r=e->op==O_SDIV?q:i2('-',a,i2('*',q,b)); break; }
    case O_OR: case O_XOR:{ if(mayOne(e->a)&mayOne(e->b)) break; Z3_ast a=iuns(e->a),b=a?iuns(e->b):0; if(!b) break; iops++; r=i2('+',a,b); if(e->lo<0) r=iwrap(r,w); break; }
    case O_ITE:{ Z3_ast c=lib(e->a),a=c?li(e->b):0,b=a?li(e->c):0; if(b){ iops++; r=Z3_mk_ite(z,c,a,b);} break; }
    default: break; }
    return itab[e]=r; }
  Z3_ast lib(Expr*e){ auto it=ibtab.find(e); if(it!=ibtab.end()) return it->second; ibtab[e]=0; Z3_ast r=0; Z3_ast x[2];
    switch(e->op){ case O_CONST: r=e->k?Z3_mk_true(z):Z3_mk_false(z); break; case O_NOT: { Z3_ast a=lib(e->a); if(a) r=Z3_mk_not(z,a); break; }
    case O_AND: case O_OR: case O_XOR: x[0]=lib(e->a); x[1]=x[0]?lib(e->b):0; if(x[1]) r=e->op==O_AND?Z3_mk_and(z,2,x):e->op==O_OR?Z3_mk_or(z,2,x):Z3_mk_xor(z,x[0],x[1]); break;
    case O_EQ: x[0]=li(e->a); x[1]=x[0]?li(e->b):0; if(x[1]) r=Z3_mk_eq(z,x[0],x[1]); break;
    case O_SLT: case O_SLE: x[0]=li(e->a); x[1]=x[0]?li(e->b):0; if(x[1]) r=i2(e->op==O_SLT?'<':'l',x[0],x[1]); break;
    case O_ULT: case O_ULE: x[0]=iuns(e->a); x[1]=x[0]?iuns(e->b):0; if(x[1]) r=i2(e->op==O_ULT?'<':'l',x[0],x[1]); break;
    case O_ITE: { Z3_ast c=lib(e->a),a=c?lib(e->b):0,b=a?lib(e->c):0; if(b) r=Z3_mk_ite(z,c,a,b); break; }
    case O_EXTRACT: case O_VAR: { if(e->w!=1) break; Z3_ast a=li(e); if(a) r=Z3_mk_not(z,Z3_mk_eq(z,a,ic(0))); break; }
    default: break; }
    return ibtab[e]=r; }
};
