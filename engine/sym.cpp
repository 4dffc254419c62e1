#include "sym.hpp"
#include <algorithm>
#include <cmath>
#include <sstream>
#include <cstring>
namespace sym {
Ctx C;
// ---------------------------------------------------------------- monomials
static std::vector<std::vector<uint32_t>> monos(1);          // 0 = one ; entry atom<<10|exp, atoms ascending
static std::vector<int> monoDeg(1,0);
static std::map<std::vector<uint32_t>,Mono> monoIdx{{{},0}};
static std::unordered_map<uint64_t,Mono> monoMulCache;
static Mono mkMono(const std::vector<uint32_t>&v){
  auto it=monoIdx.find(v); if(it!=monoIdx.end()) return it->second;
  Mono m=monos.size(); monos.push_back(v); int d=0; for(auto e:v) d+=e&1023; monoDeg.push_back(d);
  monoIdx[v]=m; return m;
}
static Mono monoMul(Mono a,Mono b){
  if(!a) return b; if(!b) return a; if(a>b) std::swap(a,b);
  uint64_t key=((uint64_t)a<<32)|b; auto it=monoMulCache.find(key); if(it!=monoMulCache.end()) return it->second;
  std::vector<uint32_t> r; const auto&x=monos[a]; const auto&y=monos[b]; size_t i=0,j=0;
  while(i<x.size()||j<y.size()){
    if(j==y.size()||(i<x.size()&&(x[i]>>10)<(y[j]>>10))) r.push_back(x[i++]);
    else if(i==x.size()||(y[j]>>10)<(x[i]>>10)) r.push_back(y[j++]);
    else { uint32_t e=(x[i]&1023)+(y[j]&1023); if(e>1000) throw Budget{"exponent"}; r.push_back((x[i]&~1023u)|e); i++;j++; }
  }
  Mono m=mkMono(r); monoMulCache[key]=m; return m;
}
static bool monoDiv(Mono a,Mono b,Mono&q){ // a/b
  if(!b){q=a;return true;}
  const auto&x=monos[a]; const auto&y=monos[b]; if(y.size()>x.size()) return false;
  std::vector<uint32_t> r; size_t i=0;
  for(size_t j=0;j<y.size();j++){
    while(i<x.size()&&(x[i]>>10)<(y[j]>>10)) r.push_back(x[i++]);
    if(i==x.size()||(x[i]>>10)!=(y[j]>>10)) return false;
    uint32_t ex=x[i]&1023,ey=y[j]&1023; if(ex<ey) return false;
    if(ex>ey) r.push_back((x[i]&~1023u)|(ex-ey)); i++;
  }
  while(i<x.size()) r.push_back(x[i++]);
  q=mkMono(r); return true;
}
static int monoCmp(Mono a,Mono b){ // graded lex, >0 when a larger
  if(a==b) return 0; if(monoDeg[a]!=monoDeg[b]) return monoDeg[a]-monoDeg[b];
  const auto&x=monos[a]; const auto&y=monos[b]; size_t n=std::min(x.size(),y.size());
  for(size_t i=0;i<n;i++) if(x[i]!=y[i]){
    uint32_t ax=x[i]>>10, ay=y[i]>>10; if(ax!=ay) return ax<ay?1:-1; return (x[i]&1023)>(y[i]&1023)?1:-1; }
  return x.size()>y.size()?1:-1;
}
static Poly fromMap(std::unordered_map<Mono,mpq_class>&m){
  Poly p; p.reserve(m.size()); for(auto&e:m) if(sgn(e.second)!=0) p.emplace_back(e.first,std::move(e.second));
  std::sort(p.begin(),p.end(),[](auto&a,auto&b){return monoCmp(a.first,b.first)>0;}); return p;
}
Poly pAdd(const Poly&a,const Poly&b){
  Poly r; r.reserve(a.size()+b.size()); size_t i=0,j=0;
  while(i<a.size()||j<b.size()){
    if(j==b.size()) r.push_back(a[i++]); else if(i==a.size()) r.push_back(b[j++]);
    else { int c=monoCmp(a[i].first,b[j].first);
      if(c>0) r.push_back(a[i++]); else if(c<0) r.push_back(b[j++]);
      else { mpq_class s=a[i].second+b[j].second; if(sgn(s)!=0) r.emplace_back(a[i].first,s); i++;j++; } }
  } return r;
}
Poly pScale(const Poly&a,const mpq_class&c){ Poly r; if(sgn(c)==0) return r; r=a; if(c!=1) for(auto&e:r) e.second*=c; return r; }
Poly pMul(const Poly&a,const Poly&b){
  if(a.empty()||b.empty()) return {};
  if(a.size()==1&&a[0].first==0) return pScale(b,a[0].second);
  if(b.size()==1&&b[0].first==0) return pScale(a,b[0].second);
  if((double)a.size()*b.size()>4e7) throw Budget{"pmul"};
  std::unordered_map<Mono,mpq_class> m; m.reserve(a.size()+b.size());
  for(auto&x:a) for(auto&y:b){ auto&s=m[monoMul(x.first,y.first)]; s+=x.second*y.second; if(m.size()>C.termBudget*2) throw Budget{"terms"}; }
  Poly r=fromMap(m); if(r.size()>C.termBudget) throw Budget{"terms"}; return r;
}
struct MonoGreater{ bool operator()(Mono a,Mono b) const{return monoCmp(a,b)>0;} };
bool pDivExact(const Poly&a,const Poly&b,Poly&q){
  q.clear(); if(b.empty()) return false; if(a.empty()) return true;
  Mono t; if(!monoDiv(a[0].first,b[0].first,t)) return false; if(!monoDiv(a.back().first,b.back().first,t)) return false;
  if(b.size()==1){ for(auto&e:a){ if(!monoDiv(e.first,b[0].first,t)){q.clear();return false;} q.emplace_back(t,e.second/b[0].second);} return true; }
  std::map<Mono,mpq_class,MonoGreater> r; for(auto&e:a) r[e.first]=e.second;
  while(!r.empty()){
    auto it=r.begin(); if(!monoDiv(it->first,b[0].first,t)){q.clear();return false;}
    mpq_class c=it->second/b[0].second; q.emplace_back(t,c); if(q.size()>C.termBudget) {q.clear();return false;}
    for(auto&e:b){ Mono m=monoMul(t,e.first); auto jt=r.find(m); if(jt==r.end()) r[m]=-c*e.second; else { jt->second-=c*e.second; if(sgn(jt->second)==0) r.erase(jt);} }
  } return true;
}
static bool qSqrt(const mpq_class&q,mpq_class&r){
  if(sgn(q)<0) return false; if(!mpz_perfect_square_p(q.get_num_mpz_t())||!mpz_perfect_square_p(q.get_den_mpz_t())) return false;
  mpz_class n,d; mpz_sqrt(n.get_mpz_t(),q.get_num_mpz_t()); mpz_sqrt(d.get_mpz_t(),q.get_den_mpz_t()); r=mpq_class(n,d); return true;
}
bool pSqrt(const Poly&a,Poly&r){
  r.clear(); if(a.empty()) return true;
  mpq_class c; if(!qSqrt(a[0].second,c)) return false;
  std::vector<uint32_t> m; for(auto e:monos[a[0].first]){ if((e&1)) return false; m.push_back((e&~1023u)|((e&1023)/2)); }
  Mono lm=mkMono(m); r.emplace_back(lm,c);
  // remainder a - r^2, next term = lt(rem)/(2*lt(r))
  std::map<Mono,mpq_class,MonoGreater> rem; for(size_t i=1;i<a.size();i++) rem[a[i].first]=a[i].second;
  while(!rem.empty()){
    auto it=rem.begin(); Mono t; if(!monoDiv(it->first,lm,t)) return false;
    if(monoCmp(t,r.back().first)>=0) return false;
    mpq_class k=it->second/(2*c);
    for(auto&e:r){ Mono mm=monoMul(e.first,t); mpq_class d=2*k*e.second; auto&s=rem[mm]; s-=d; if(sgn(s)==0) rem.erase(mm);} 
    { Mono mm=monoMul(t,t); auto&s=rem[mm]; s-=k*k; if(sgn(s)==0) rem.erase(mm);} 
    r.emplace_back(t,k); if(r.size()>a.size()+1) return false;
  } return true;
}
bool pCbrt(const Poly&a,Poly&r){ // real cube root of a polynomial that is a perfect cube
  r.clear(); if(a.empty()) return true;
  mpz_class n,d; mpq_class lc=a[0].second; if(!mpz_root(n.get_mpz_t(),lc.get_num_mpz_t(),3)||!mpz_root(d.get_mpz_t(),lc.get_den_mpz_t(),3)) return false; mpq_class c(n,d);
  std::vector<uint32_t> m; for(auto e:monos[a[0].first]){ if((e&1023)%3) return false; m.push_back((e&~1023u)|((e&1023)/3)); }
  Mono lm=mkMono(m),lm2=monoMul(lm,lm); r.emplace_back(lm,c);
  for(int guard=0;guard<400;guard++){ Poly q=pMul(pMul(r,r),r),rem=pAdd(a,pScale(q,-1)); if(rem.empty()) return true; Mono t; if(!monoDiv(rem[0].first,lm2,t)) return false; if(monoCmp(t,r.back().first)>=0) return false; r.emplace_back(t,rem[0].second/(3*c*c)); if(r.size()>a.size()+1) return false; }
  return false; }
// ---------------------------------------------------------------- factors
static std::vector<Poly> factors; static std::map<std::string,int> factorIdx;
static std::string pkey(const Poly&p){ std::string s; for(auto&e:p){ s+=std::to_string(e.first); s+=':'; s+=e.second.get_str(62); s+=' '; } return s; }
static int factorId(const Poly&p){ auto k=pkey(p); auto it=factorIdx.find(k); if(it!=factorIdx.end()) return it->second; int id=factors.size(); factors.push_back(p); factorIdx[k]=id; return id; }
// p = c * prod f^e
static void factorise(Poly p, mpq_class&c, std::map<int,int>&out){
  c=p[0].second; p=pScale(p,1/c);
  // monomial content
  std::map<uint32_t,uint32_t> mn; bool first=true;
  for(auto&e:p){ std::map<uint32_t,uint32_t> cur; for(auto x:monos[e.first]) cur[x>>10]=x&1023;
    if(first){mn=cur;first=false;} else { for(auto it=mn.begin();it!=mn.end();){ auto j=cur.find(it->first); if(j==cur.end()) it=mn.erase(it); else { it->second=std::min(it->second,j->second); ++it; } } }
    if(mn.empty()) break; }
  if(!mn.empty()){ std::vector<uint32_t> v; for(auto&e:mn){ v.push_back((e.first<<10)|e.second); Poly f{{mkMono({(e.first<<10)|1}),1}}; out[factorId(f)]+=e.second; }
    Mono m=mkMono(v); Poly f{{m,1}},q; pDivExact(p,f,q); p=q; }
  if(p.size()==1&&p[0].first==0){ c*=p[0].second; return; }
  for(int i=0;i<(int)factors.size();i++){ if(factors[i].size()<2||factors[i].size()>p.size()*4) continue; Poly q; while(p.size()>1&&pDivExact(p,factors[i],q)){ out[i]++; p=q; } if(p.size()==1) break; }
  Poly s; 
  if(p.size()==1&&p[0].first==0){ c*=p[0].second; return; }
  if(p.size()<400&&pSqrt(p,s)){ mpq_class c2=s[0].second; s=pScale(s,1/c2); c*=c2*c2; out[factorId(s)]+=2; return; }
  mpq_class l=p[0].second; c*=l; p=pScale(p,1/l); out[factorId(p)]++;
}
static RatP mkRat(Poly num,std::map<int,int>den){
  auto r=std::make_shared<Rat>(); 
  if(!num.empty()) for(auto&d:den){ if(d.second<=0) continue; Poly q; while(d.second>0&&num.size()<4000&&pDivExact(num,factors[d.first],q)){ num=q; d.second--; } if(d.second>0) r->den.push_back(d); }
  r->num=std::move(num); return r;
}
static bool anyRule=false;
static RatP reduceRules(RatP r);
static RatP rAdd(const RatP&a,const RatP&b){
  if(a->num.empty()) return b; if(b->num.empty()) return a;
  if(a->den==b->den){ std::map<int,int> d(a->den.begin(),a->den.end()); auto s=pAdd(a->num,b->num); if(d.empty()){auto r=std::make_shared<Rat>(); r->num=s; return r;} return mkRat(s,d); }
  std::map<int,int> l(a->den.begin(),a->den.end()); for(auto&d:b->den) l[d.first]=std::max(l[d.first],d.second);
  auto scale=[&](const RatP&x){ Poly p=x->num; std::map<int,int> d(x->den.begin(),x->den.end()); for(auto&e:l){ int k=e.second-d[e.first]; for(int i=0;i<k;i++) p=pMul(p,factors[e.first]); } return p; };
  return mkRat(pAdd(scale(a),scale(b)),l);
}
static RatP rMul(const RatP&a,const RatP&b){
  if(a->num.empty()) return a; if(b->num.empty()) return b;
  Poly x=a->num,y=b->num; std::map<int,int> l;
  auto canc=[&](Poly&p,const std::vector<std::pair<int,int>>&den){ for(auto d:den){ Poly q; while(d.second>0&&p.size()<4000&&!(p.size()==1&&p[0].first==0)&&pDivExact(p,factors[d.first],q)){p=q;d.second--;} if(d.second>0) l[d.first]+=d.second; } };
  canc(x,b->den); canc(y,a->den);
  auto r=std::make_shared<Rat>(); r->num=pMul(x,y); for(auto&d:l) r->den.push_back(d);
  return anyRule?reduceRules(r):RatP(r);
}
static RatP reduceRules(RatP r){
  for(int guard=0;guard<200;guard++){
    int at=-1; 
    for(auto&e:r->num){ for(auto x:monos[e.first]){ int a=x>>10; if(C.atoms[a].ruleDeg&&(int)(x&1023)>=C.atoms[a].ruleDeg&&a>at) at=a; } }
    if(at<0) return r;
    int dg=C.atoms[at].ruleDeg; Poly low,high;
    for(auto&e:r->num){ bool hi=false; for(auto x:monos[e.first]) if((int)(x>>10)==at&&(int)(x&1023)>=dg) hi=true;
      if(!hi) low.push_back(e); else { Mono q; monoDiv(e.first,mkMono({((uint32_t)at<<10)|(uint32_t)dg}),q); high.emplace_back(q,e.second);} }
    std::sort(high.begin(),high.end(),[](auto&a,auto&b){return monoCmp(a.first,b.first)>0;});
    const RatP&ru=C.atoms[at].rule; std::map<int,int> den(r->den.begin(),r->den.end());
    Poly h=pMul(high,ru->num); for(auto&d:ru->den){ for(int i=0;i<d.second;i++) low=pMul(low,factors[d.first]); den[d.first]+=d.second; }
    r=mkRat(pAdd(low,h),den);
  }
  throw Budget{"rules"};
}
static RatP rInv(const RatP&a){
  if(a->num.empty()) throw Budget{"inverse of zero"};
  // rationalise single-term numerators containing sqrt atoms
  RatP x=a; RatP mult; 
  if(a->num.size()==1){ for(auto e:monos[a->num[0].first]){ int at=e>>10; if(C.atoms[at].ruleDeg==2&&(e&1)){ Poly p{{mkMono({((uint32_t)at<<10)|1}),1}}; auto m=std::make_shared<Rat>(); m->num=p; mult=mult?rMul(mult,m):RatP(m); } } }
  if(mult){ x=rMul(a,mult); }
  mpq_class c; std::map<int,int> f; factorise(x->num,c,f);
  Poly num{{0,1/c}}; for(auto&d:x->den) for(int i=0;i<d.second;i++) num=pMul(num,factors[d.first]);
  RatP r=mkRat(num,f); if(mult) r=rMul(r,mult); return r;
}
static RatP rConst(const mpq_class&q){ auto r=std::make_shared<Rat>(); if(sgn(q)) r->num.emplace_back(0,q); return r; }
// ---------------------------------------------------------------- nodes
Ctx::Ctx(){ nodes.push_back(Node{O_FALSE,BOOL,0,{},999}); F=mk(O_FALSE,BOOL,0,{},0); T=mk(O_TRUE,BOOL,0,{},0); }
static uint64_t hashNode(const Node&n){ uint64_t h=n.op*1000003ull+n.width*31+n.k*0x9E3779B97F4A7C15ull; for(N x:n.a) h=(h^x)*0x100000001b3ull+(h>>29); return h; }
N Ctx::mk(Op op,Sort s,uint16_t w,std::vector<N> a,uint64_t k){
  Node nd{op,s,w,std::move(a),k}; uint64_t h=hashNode(nd); auto rg=cons.equal_range(h);
  for(auto it=rg.first;it!=rg.second;++it) if(nodes[it->second]==nd) return it->second;
  N id=nodes.size(); nodes.push_back(std::move(nd)); cons.emplace(h,id); return id;
}
N Ctx::cst(const mpq_class&q){ auto it=constIdx.find(q); if(it!=constIdx.end()) return it->second; consts.push_back(q); N id=mk(O_CONST,REAL,0,{},consts.size()-1); constIdx[q]=id; return id; }
bool Ctx::isConst(N x,mpq_class*o) const { if(nodes[x].op!=O_CONST) return false; if(o) *o=consts[nodes[x].k]; return true; }
N Ctx::var(const std::string&name,bool input,const mpq_class*lo,const mpq_class*hi,bool isInt,const mpq_class&val){
  std::string nm=name; int k=1; while(nameIdx.count(nm)) nm=name+"#"+std::to_string(k++);
  names.push_back(nm); nameIdx[nm]=names.size()-1; N id=mk(O_VAR,REAL,0,{},names.size()-1);
  VarInfo v; v.node=id;v.name=nm;v.hasB=lo&&hi; if(lo)v.lo=*lo; if(hi)v.hi=*hi; v.input=input;v.isInt=isInt;v.val=val; varOf[id]=vars.size(); vars.push_back(v);
  AtomInfo a; a.name=nm;a.node=id;a.isVar=true; if(v.hasB){a.hasB=true;a.lo=lo->get_d();a.hi=hi->get_d();} atomOf[id]=atoms.size(); atoms.push_back(a);
  return id;
}
N Ctx::add(N a,N b){ mpq_class x,y; bool ca=isConst(a,&x),cb=isConst(b,&y); if(ca&&cb) return cst(x+y); if(ca&&sgn(x)==0) return b; if(cb&&sgn(y)==0) return a; if(a>b) std::swap(a,b); return mk(O_ADD,REAL,0,{a,b},0); }
N Ctx::mul(N a,N b){ mpq_class x,y; bool ca=isConst(a,&x),cb=isConst(b,&y); if(ca&&cb) return cst(x*y); if(ca){ if(sgn(x)==0) return a; if(x==1) return b; } if(cb){ if(sgn(y)==0) return b; if(y==1) return a; }
  if(cb){std::swap(a,b);std::swap(x,y);std::swap(ca,cb);} if(ca&&n(b).op==O_MUL){ mpq_class z; if(isConst(n(b).a[0],&z)) return mul(cst(x*z),n(b).a[1]); }
  if(!ca&&a>b) std::swap(a,b); return mk(O_MUL,REAL,0,{a,b},0); }
N Ctx::neg(N a){ return mul(cst(-1),a); }
N Ctx::sub(N a,N b){ if(a==b) return cst(0); return add(a,neg(b)); }
N Ctx::div(N a,N b){ mpq_class x,y; bool ca=isConst(a,&x),cb=isConst(b,&y); if(ca&&sgn(x)==0) return a; if(cb&&sgn(y)!=0) return mul(cst(1/y),a); if(a==b) return cst(1); return mk(O_DIV,REAL,0,{a,b},0); }
N Ctx::powi(N a,int e){ N r=cst(1); for(int i=0;i<std::abs(e);i++) r=mul(r,a); return e<0?div(cst(1),r):r; }
RatP Ctx::tryNf(N x){ if(nfFail.count(x)) return nullptr; try{ return nf(x);}catch(Budget&b){ nfFail[x]=1; return nullptr; } }
RatP Ctx::nf(N x){
  auto it=nfMemo.find(x); if(it!=nfMemo.end()) return it->second; if(nfFail.count(x)) throw Budget{"memo"};
  // explicit stack to avoid deep recursion
  std::vector<N> st{x};
  while(!st.empty()){
    N y=st.back(); if(nfMemo.count(y)){st.pop_back();continue;} const Node nd=n(y); bool ready=true;
    if(nd.op==O_ADD||nd.op==O_MUL||nd.op==O_DIV) for(N c:nd.a) if(!nfMemo.count(c)){ if(nfFail.count(c)) throw Budget{"memo"}; st.push_back(c); ready=false; }
    if(!ready) continue; RatP r;
    switch(nd.op){
      case O_CONST: r=rConst(consts[nd.k]); break;
      case O_ADD: r=rAdd(nfMemo[nd.a[0]],nfMemo[nd.a[1]]); if(anyRule) r=reduceRules(r); break;
      case O_MUL: r=rMul(nfMemo[nd.a[0]],nfMemo[nd.a[1]]); break;
      case O_DIV: r=rMul(nfMemo[nd.a[0]],rInv(nfMemo[nd.a[1]])); break;
      default: { auto f=atomOf.find(y); int ai; if(f==atomOf.end()){ AtomInfo a; a.name="t"+std::to_string(y); a.node=y; ai=atoms.size(); atoms.push_back(a); atomOf[y]=ai; } else ai=f->second;
        auto q=std::make_shared<Rat>(); q->num.emplace_back(mkMono({((uint32_t)ai<<10)|1}),1); r=q; }
    }
    nfMemo[y]=r; st.pop_back();
  }
  return nfMemo[x];
}
bool Ctx::isZero(N x){ mpq_class q; if(isConst(x,&q)) return sgn(q)==0; auto r=tryNf(x); return r&&r->num.empty(); }
int Ctx::constSign(N x){ mpq_class q; if(isConst(x,&q)) return sgn(q); auto r=tryNf(x); if(!r) return 2; if(r->num.empty()) return 0; if(r->den.empty()&&r->num.size()==1&&r->num[0].first==0) return sgn(r->num[0].second); return 2; }
N Ctx::fromPoly(const Poly&p){ N s=cst(0); for(auto&e:p){ N t=cst(e.second); for(auto x:monos[e.first]){ N b=atoms[x>>10].node; for(uint32_t i=0;i<(x&1023);i++) t=mul(t,b);} s=add(s,t);} return s; }
N Ctx::fromRat(const RatP&r){ N s=fromPoly(r->num); N d=cst(1); for(auto&e:r->den) for(int i=0;i<e.second;i++) d=mul(d,fromPoly(factors[e.first])); return div(s,d); }
static void ipow(double lo,double hi,int e,double&l,double&h){ double a=std::pow(lo,e),b=std::pow(hi,e); if(e%2==0){ l=(lo<=0&&hi>=0)?0:std::min(a,b); h=std::max(a,b);} else {l=a;h=b;} }
int Ctx::boundSign(const Poly&p){
  double lo=0,hi=0,mag=0; if(p.empty()) return 0;
  for(auto&e:p){ double l=1,h=1; for(auto x:monos[e.first]){ auto&a=atoms[x>>10]; double al,ah; int ex=x&1023; if(a.hasB){al=a.lo;ah=a.hi;} else if(a.fun=="sqrt"){al=0;ah=1e300;} else {al=-1e300;ah=1e300;} double pl,ph; ipow(al,ah,ex,pl,ph); double c[4]={l*pl,l*ph,h*pl,h*ph}; for(auto&z:c) if(std::isnan(z)) z=0; l=*std::min_element(c,c+4); h=*std::max_element(c,c+4);} 
    double k=e.second.get_d(); double a=k*l,b=k*h; if(a>b) std::swap(a,b); if(std::isnan(a)||std::isnan(b)) return 2; lo+=a;hi+=b; mag+=std::max(std::fabs(a),std::fabs(b)); }
  if(std::isnan(lo)||std::isnan(hi)) return 2;
  double m=1e-12*mag; if(!(mag<1e299)) { // unbounded: only trust exact term-wise signs
    bool allp=true,alln=true,strict=false; for(auto&e:p){ bool ev=true; for(auto x:monos[e.first]){ auto&a=atoms[x>>10]; bool nonneg=((x&1023)%2==0)||(a.hasB&&a.lo>=0)||a.fun=="sqrt"; if(!nonneg) ev=false; } if(!ev){allp=alln=false;break;} if(sgn(e.second)>0) alln=false; else allp=false; if(e.first==0) strict=true; }
    if(allp) return strict?1:3; if(alln) return strict?-1:-3; return 2; }
  if(lo>m) return 1; if(hi<-m) return -1; if(lo>=0) return 3; if(hi<=0) return -3; return 2;
}
// 1 >0, -1 <0, 0 ==0, 3 >=0, -3 <=0, 2 unknown
int Ctx::signKnown(N x){ mpq_class q; if(isConst(x,&q)) return sgn(q); auto r=tryNf(x); if(!r) return 2; if(r->num.empty()) return 0; int s=1; for(auto&d:r->den){ if(d.second%2==0) continue; int t=boundSign(factors[d.first]); if(t==1||t==3) continue; if(t==-1||t==-3) s=-s; else return 2; } int t=boundSign(r->num); return t==2?2:t*s; }
N Ctx::absN(N a){ int s=signKnown(a); if(s==1||s==3||s==0) return a; if(s==-1||s==-3) return neg(a); return decide(lt(a,cst(0)))?neg(a):a; }
N Ctx::sqrtN(N a){
  mpq_class q,r; if(isConst(a,&q)){ if(qSqrt(q,r)) return cst(r); }
  RatP f=tryNf(a); if(!f) return fun("sqrtraw",{a});
  if(f->num.empty()) return cst(0);
  Poly P=f->num; N den=cst(1);
  for(auto&d:f->den){ N fn=fromPoly(factors[d.first]); int h=d.second/2; if(d.second%2){ P=pMul(P,factors[d.first]); h++; } if(h){ N ab=(h%2==0)?fn:absN(fn); for(int i=0;i<h;i++) den=mul(den,ab);} }
  if(anyRule){ auto t=std::make_shared<Rat>(); t->num=P; RatP t2=reduceRules(t); if(t2->den.empty()) P=t2->num; }
  N out=cst(1); Poly s;
  if(pSqrt(P,s)){ N sn=fromPoly(s); return div(absN(sn),den); }
  // pull out squares of known factors and monomial content
  for(int i=0;i<(int)factors.size();i++){ if(P.size()>3000) break; Poly f2=pMul(factors[i],factors[i]),qq; while(P.size()>1&&pDivExact(P,f2,qq)){ P=qq; out=mul(out,absN(fromPoly(factors[i]))); } }
  { std::map<uint32_t,uint32_t> mn; bool first=true; for(auto&e:P){ std::map<uint32_t,uint32_t> cur; for(auto x:monos[e.first]) cur[x>>10]=x&1023; if(first){mn=cur;first=false;} else for(auto it=mn.begin();it!=mn.end();){ auto j=cur.find(it->first); if(j==cur.end()) it=mn.erase(it); else {it->second=std::min(it->second,j->second);++it;} } if(mn.empty()) break; }
    for(auto&e:mn){ int h=e.second/2; if(!h) continue; Poly m{{mkMono({(e.first<<10)|(uint32_t)(2*h)}),1}},qq; pDivExact(P,m,qq); P=qq; N ab=absN(atoms[e.first].node); for(int i=0;i<h;i++) out=mul(out,ab);} }
  if(P.size()==1&&P[0].first==0&&qSqrt(P[0].second,r)) return div(mul(out,cst(r)),den);
  if(pSqrt(P,s)) return div(mul(out,absN(fromPoly(s))),den);
  // rational content: make integer primitive square-free in the trivial sense
  { mpz_class g=0,l=1; for(auto&e:P){ mpz_gcd(g.get_mpz_t(),g.get_mpz_t(),e.second.get_num_mpz_t()); mpz_lcm(l.get_mpz_t(),l.get_mpz_t(),e.second.get_den_mpz_t()); }
    mpq_class c(g,l); c.canonicalize(); // P = c*prim
    mpz_class nn=c.get_num()*c.get_den(); // c = nn/den^2
    mpz_class sq=1; for(unsigned long pr=2;pr<200;pr++){ mpz_class p2=pr*pr; while(mpz_divisible_p(nn.get_mpz_t(),p2.get_mpz_t())){ nn/=p2; sq*=pr; } }
    mpz_class rt; if(mpz_perfect_square_p(nn.get_mpz_t())){ mpz_sqrt(rt.get_mpz_t(),nn.get_mpz_t()); sq*=rt; nn=1; }
    mpq_class outc(sq,c.get_den()); outc.canonicalize(); P=pScale(P,mpq_class(nn)/c); out=mul(out,cst(outc)); }
  std::string key="sqrt:"+pkey(P); auto it=atomKey.find(key); N an;
  if(it!=atomKey.end()) an=it->second; else {
    names.push_back("sqrt"+std::to_string(atoms.size())); an=mk(O_ATOM,REAL,0,{fromPoly(P)},names.size()-1);
    AtomInfo ai; ai.name=names.back(); ai.node=an; ai.fun="sqrt"; ai.ruleDeg=2; auto rr=std::make_shared<Rat>(); rr->num=P; ai.rule=rr; ai.sqArg=P; ai.args={n(an).a[0]}; atomOf[an]=atoms.size(); atoms.push_back(ai); atomKey[key]=an; anyRule=true; 
    // nonnegativity of the argument is a domain condition
  }
  return div(mul(out,an),den);
}
int Ctx::scaledAtom(N x,const mpq_class&c){ RatP r=tryNf(x); if(!r||!r->den.empty()||r->num.size()!=1||monoDeg[r->num[0].first]!=1||r->num[0].second!=c) return -1; uint32_t k=monos[r->num[0].first][0]>>10; return k<atoms.size()?(int)k:-1; }
N Ctx::fun(const std::string&f,std::vector<N> args){
  std::string key=f; std::vector<N> ca; for(N x:args){ RatP r=tryNf(x); if(r){ key+="|"+pkey(r->num); for(auto&d:r->den) key+="/"+std::to_string(d.first)+"^"+std::to_string(d.second);} else key+="|#"+std::to_string(x); }
  auto it=atomKey.find(key); if(it!=atomKey.end()) return it->second;
  if(f=="cos"||f=="sin"||f=="tan"){ // cos(acos x) etc.
    RatP r=tryNf(args[0]);
    if(r&&r->den.empty()&&r->num.size()==1&&monoDeg[r->num[0].first]==1){ int ai=monos[r->num[0].first][0]>>10; mpq_class c=r->num[0].second; AtomInfo &A=atoms[ai];
      if(A.fun=="acos"&&c==1){ if(f=="cos") return A.args[0]; if(f=="sin") return sqrtN(sub(cst(1),mul(A.args[0],A.args[0]))); }
    }
    if(r&&r->num.empty()) return cst(f=="cos"?1:0);
  }
  if(f=="cos"||f=="sin"){ // (atan z + m pi)/3: the cosine is a root of 4c^3-3c = (-1)^m/sqrt(1+z^2)
    RatP r=tryNf(args[0]); if(r&&r->den.empty()&&(r->num.size()==1||(r->num.size()==2&&r->num[1].first==0))&&monoDeg[r->num[0].first]==1&&r->num[0].second==mpq_class(1,3)){ int k=monos[r->num[0].first][0]>>10; double off=r->num.size()==2?r->num[1].second.get_d():0; int m=(int)std::lround(off*3/M_PI);
      if(atoms[k].fun=="atan"&&std::fabs(off-m*M_PI/3)<1e-12&&m>=-1&&m<=1){ if(f=="sin"){ N cc=fun("cos",args); (void)cc; } else {
        N z=atoms[k].args[0]; N X=div(cst(m%2?-1:1),sqrtN(add(cst(1),mul(z,z)))); names.push_back("cos3_"+std::to_string(atoms.size())); N an=mk(O_ATOM,REAL,0,args,names.size()-1); AtomInfo ai; ai.name=names.back(); ai.node=an; ai.fun="cos"; ai.args=args; ai.ruleDeg=3; ai.hasB=true; ai.lo=m==0?0.866025403:0; ai.hi=m==0?1:0.866025404;
        int idx=atoms.size(); atomOf[an]=idx; atoms.push_back(ai); atomKey[key]=an; RatP rule=nf(div(add(mul(cst(3),an),X),cst(4))); atoms[idx].rule=rule; anyRule=true; return an; } } } }
  names.push_back(f+std::to_string(atoms.size())); 
  N an=mk(O_ATOM,REAL,0,args,names.size()-1);
  AtomInfo ai; ai.name=names.back(); ai.node=an; ai.fun=f; ai.args=args;
  if(f=="cos"||f=="sin"){ai.hasB=true;ai.lo=-1;ai.hi=1;} if(f=="acos"){ai.hasB=true;ai.lo=0;ai.hi=3.1415926536;} if(f=="sqrtraw"){ai.hasB=false;} if(f=="atan"){ai.hasB=true;ai.lo=-1.5707963268;ai.hi=1.5707963268;}
  int idx=atoms.size();
  if(f=="cos"||f=="sin"){ RatP r=tryNf(args[0]);
    if(r&&r->den.empty()&&r->num.size()==1&&monoDeg[r->num[0].first]==1){ int k=monos[r->num[0].first][0]>>10; mpq_class c=r->num[0].second;
      if(c==mpq_class(1,3)&&(atoms[k].fun=="acos")){
        if(f=="cos"){ // 4c^3-3c = x
          ai.ruleDeg=3; ai.hasB=true; ai.lo=0.5; ai.hi=1; // cos(acos(x)/3) in [1/2,1]
          N self=an; atomOf[an]=idx; atoms.push_back(ai); atomKey[key]=an;
          RatP rule=nf(div(add(mul(cst(3),self),atoms[k].args[0]),cst(4))); atoms[idx].rule=rule; anyRule=true; return an;
        } else { N cc=fun("cos",args); return sqrtN(sub(cst(1),mul(cc,cc))); } // angle in [0,pi/3]
      } } }
  atomOf[an]=idx; atoms.push_back(ai); atomKey[key]=an;
  if(f=="sin"){ N cc=fun("cos",args); N one=sub(cst(1),mul(cc,cc)); atoms[idx].ruleDeg=2; atoms[idx].rule=nf(one); anyRule=true; }
  if(f=="cbrt3"){ }
  return an;
}
N Ctx::newAlgebraic(const std::string&name,const std::vector<N>&co,bool){ // x^k = sum co[i] x^i, k=co.size()
  mpq_class z=0; N v=var(name,false,nullptr,nullptr,false,z); int ai=atomOf[v]; N s=cst(0); for(size_t i=0;i<co.size();i++) s=add(s,mul(co[i],powi(v,i)));
  RatP r=nf(s); N pw=v; for(size_t i=1;i<co.size();i++) pw=mk(O_MUL,REAL,0,{pw,v},0); axioms.push_back(mk(O_EQ,BOOL,0,{pw,s},0)); atoms[ai].ruleDeg=co.size(); atoms[ai].rule=r; anyRule=true; return v; }
// ---- booleans
N Ctx::lt(N a,N b){ mpq_class x,y; if(isConst(a,&x)&&isConst(b,&y)) return x<y?T:F; if(a==b) return F; return mk(O_LT,BOOL,0,{a,b},0); }
N Ctx::le(N a,N b){ mpq_class x,y; if(isConst(a,&x)&&isConst(b,&y)) return x<=y?T:F; if(a==b) return T; return mk(O_LE,BOOL,0,{a,b},0); }
N Ctx::eq(N a,N b){ mpq_class x,y; if(isConst(a,&x)&&isConst(b,&y)) return x==y?T:F; if(a==b) return T; if(a>b) std::swap(a,b); return mk(O_EQ,BOOL,0,{a,b},0); }
N Ctx::notN(N a){ if(a==T) return F; if(a==F) return T; if(n(a).op==O_NOT) return n(a).a[0]; 
  if(n(a).op==O_LT) return le(n(a).a[1],n(a).a[0]); if(n(a).op==O_LE) return lt(n(a).a[1],n(a).a[0]); return mk(O_NOT,BOOL,0,{a},0); }
N Ctx::andN(N a,N b){ if(a==F||b==F) return F; if(a==T) return b; if(b==T||a==b) return a; return mk(O_AND,BOOL,0,{a,b},0); }
N Ctx::orN(N a,N b){ if(a==T||b==T) return T; if(a==F) return b; if(b==F||a==b) return a; return mk(O_OR,BOOL,0,{a,b},0); }
N Ctx::xorN(N a,N b){ if(a==F) return b; if(b==F) return a; if(a==T) return notN(b); if(b==T) return notN(a); return mk(O_XOR,BOOL,0,{a,b},0); }
// ---- bit-vectors
static uint64_t mask(uint64_t v,unsigned w){ return w>=64?v:(v&((1ull<<w)-1)); }
static int64_t sext(uint64_t v,unsigned w){ if(w>=64) return (int64_t)v; return (int64_t)(v<<(64-w))>>(64-w); }
N Ctx::bvc(uint64_t v,unsigned w){ return mk(O_BVCONST,BV,w,{},mask(v,w)); }
bool Ctx::isBvConst(N x,uint64_t*v) const { if(nodes[x].op!=O_BVCONST) return false; if(v)*v=nodes[x].k; return true; }
N Ctx::bvvar(const std::string&nm,unsigned w){ std::string s=nm; int k=1; while(nameIdx.count(s)) s=nm+"#"+std::to_string(k++); names.push_back(s); nameIdx[s]=names.size()-1; N id=mk(O_BVVAR,BV,w,{},names.size()-1); return id; }
// opcodes: 0 add 1 sub 2 mul 3 udiv 4 sdiv 5 urem 6 srem 7 and 8 or 9 xor 10 shl 11 lshr 12 ashr ; casts 20 zext 21 sext 22 trunc
N Ctx::bvop(int o,N a,N b){ unsigned w=n(a).width; uint64_t x,y; if(isBvConst(a,&x)&&isBvConst(b,&y)){ uint64_t r=0; int64_t sx=sext(x,w),sy=sext(y,w); switch(o){case 0:r=x+y;break;case 1:r=x-y;break;case 2:r=x*y;break;case 3:r=y?x/y:0;break;case 4:r=y?(uint64_t)(sx/sy):0;break;case 5:r=y?x%y:0;break;case 6:r=y?(uint64_t)(sx%sy):0;break;case 7:r=x&y;break;case 8:r=x|y;break;case 9:r=x^y;break;case 10:r=y<64?x<<y:0;break;case 11:r=y<64?x>>y:0;break;case 12:r=(uint64_t)(sx>>(y<63?y:63));break;} return bvc(r,w);} 
  return mk(O_BVOP,BV,w,{a,b},o); }
N Ctx::bvcast(int o,N a,unsigned w){ uint64_t x; unsigned wa=n(a).width; if(isBvConst(a,&x)) return bvc(o==21?(uint64_t)sext(x,wa):x,w); return mk(O_BVOP,BV,w,{a},o); }
// pred: llvm icmp numbering 32 eq 33 ne 34 ugt 35 uge 36 ult 37 ule 38 sgt 39 sge 40 slt 41 sle
N Ctx::bvcmp(int p,N a,N b){ unsigned w=n(a).width; uint64_t x,y; if(isBvConst(a,&x)&&isBvConst(b,&y)){ int64_t sx=sext(x,w),sy=sext(y,w); bool r=false; switch(p){case 32:r=x==y;break;case 33:r=x!=y;break;case 34:r=x>y;break;case 35:r=x>=y;break;case 36:r=x<y;break;case 37:r=x<=y;break;case 38:r=sx>sy;break;case 39:r=sx>=sy;break;case 40:r=sx<sy;break;case 41:r=sx<=sy;break;} return r?T:F; }
  if(isBvConst(a)&&!isBvConst(b)){ static const int sw[]={32,33,36,37,34,35,40,41,38,39}; return bvcmp(sw[p-32],b,a); }
  if(p==33) return notN(bvcmp(32,a,b));
  // real-derived integers
  N base=a; bool thru=true; while(thru){ thru=false; if(n(base).op==O_BVOP&&(n(base).k==20||n(base).k==21||n(base).k==22)) {base=n(base).a[0];thru=true;} }
  if(n(base).op==O_R2I&&isBvConst(b,&y)&&sext(y,w)>=0&&sext(y,w)<(1ll<<31)){ N r=n(base).a[0]; mpq_class c=(long)sext(y,w); N cc=cst(c),c1=cst(c+1); int sg=signKnown(r); bool nn=(sg==1||sg==3||sg==0);
    if(nn||c>=1){ if(p==32) return c>=1||nn?andN(le(cc,r),lt(r,c1)):F; if(p==40||(p==36&&nn)) return lt(r,cc); if(p==41||(p==37&&nn)) return lt(r,c1); if(p==38||(p==34&&nn)) return le(c1,r); if(p==39||(p==35&&nn)) return le(cc,r); } }
  return mk(O_BVCMP,BOOL,0,{a,b},p); }
// ---- numeric evaluation
static double evalIv(N x,std::unordered_map<N,double>&m);
double Ctx::evalD(N x,std::unordered_map<N,double>&memo){
  auto f=memo.find(x); if(f!=memo.end()) return f->second;
  std::vector<N> st{x};
  while(!st.empty()){ N y=st.back(); if(memo.count(y)){st.pop_back();continue;} const Node&nd=n(y); bool ok=true; if(nd.sort==REAL&&nd.op!=O_I2R) for(N c:nd.a) if(!memo.count(c)){st.push_back(c);ok=false;} if(!ok) continue; double r=NAN; auto A=[&](int i){return memo[nd.a[i]];};
    switch(nd.op){ case O_CONST: r=consts[nd.k].get_d(); break; case O_VAR: r=vars[varOf[y]].val.get_d(); if(vars[varOf[y]].dead) r=NAN; break; case O_ADD: r=A(0)+A(1);break; case O_MUL:r=A(0)*A(1);break; case O_DIV:r=A(0)/A(1);break;
      case O_I2R: r=evalIv(nd.a[0],memo); break;
      case O_ATOM:{ auto&at=atoms[atomOf[y]]; const std::string&s=at.fun; if(s=="sqrt"||s=="sqrtraw") r=std::sqrt(std::max(0.0,A(0)));else if(s=="cos")r=cos(A(0));else if(s=="sin")r=sin(A(0));else if(s=="acos")r=acos(A(0));else if(s=="atan")r=atan(A(0));else if(s=="atan2")r=atan2(A(0),A(1));else if(s=="log")r=log(A(0));else if(s=="exp")r=exp(A(0));else if(s=="pow")r=pow(A(0),A(1));else if(s=="floor")r=floor(A(0));else if(s=="ceil")r=ceil(A(0)); break; }
      default: break; }
    memo[y]=r; st.pop_back(); }
  return memo[x]; }
static double evalIv(N x,std::unordered_map<N,double>&m){ const Node&nd=C.n(x); switch(nd.op){ case O_BVCONST: return (double)sext(nd.k,nd.width); case O_R2I: return std::trunc(C.evalD(nd.a[0],m)); case O_BVVAR: { auto it=C.bvVal.find(x); return it==C.bvVal.end()?NAN:(double)it->second; } case O_BVOP:{ double a=evalIv(nd.a[0],m); if(std::isnan(a)) return a; if(nd.k>=20) return a; double b=evalIv(nd.a[1],m); if(std::isnan(b)) return b; int64_t x=a,y=b; switch(nd.k){case 0:return x+y;case 1:return x-y;case 2:return (double)x*y;case 4:return y?x/y:NAN;case 6:return y?x%y:NAN; case 3: return (x>=0&&y>0)?x/y:NAN; case 5:return (x>=0&&y>0)?x%y:NAN; default:return NAN;} } default: return NAN; } }
int Ctx::evalB(N x,std::unordered_map<N,double>&m){ const Node nd=n(x); switch(nd.op){ case O_TRUE:return 1;case O_FALSE:return 0; case O_NOT:{int a=evalB(nd.a[0],m);return a<0?-1:!a;} case O_AND:{int a=evalB(nd.a[0],m),b=evalB(nd.a[1],m); if(a==0||b==0)return 0; if(a<0||b<0)return -1; return 1;} case O_OR:{int a=evalB(nd.a[0],m),b=evalB(nd.a[1],m); if(a==1||b==1)return 1; if(a<0||b<0)return -1; return 0;} case O_XOR:{int a=evalB(nd.a[0],m),b=evalB(nd.a[1],m); if(a<0||b<0)return -1; return a!=b;}
    case O_LT: case O_LE: case O_EQ:{ double a=evalD(nd.a[0],m),b=evalD(nd.a[1],m); if(std::isnan(a)||std::isnan(b)) return -1; double s=std::max(1.0,std::max(std::fabs(a),std::fabs(b))); if(std::fabs(a-b)<1e-9*s){ return -1; } if(nd.op==O_EQ) return 0; return a<b; }
    case O_BVCMP:{ double a=evalIv(nd.a[0],m),b=evalIv(nd.a[1],m); if(std::isnan(a)||std::isnan(b)) return -1; switch(nd.k){case 32:return a==b;case 33:return a!=b;case 38:return a>b;case 39:return a>=b;case 40:return a<b;case 41:return a<=b;} if(a<0||b<0) return -1; switch(nd.k){case 34:return a>b;case 35:return a>=b;case 36:return a<b;case 37:return a<=b;} return -1; }
    default: return -1; } }
std::string Ctx::polyStr(const Poly&p){ std::string s; size_t k=0; for(auto&e:p){ if(k++>30){s+=" ...";break;} s+=(sgn(e.second)<0?" - ":" + ")+mpq_class(abs(e.second)).get_str(); for(auto x:monos[e.first]){ s+="*"+atoms[x>>10].name; if((x&1023)>1) s+="^"+std::to_string(x&1023);} } return s.empty()?"0":s; }
std::string Ctx::show(N x,int d){ const Node&nd=n(x); std::ostringstream o; auto A=[&](int i){return d>0?show(nd.a[i],d-1):std::string("..");}; switch(nd.op){case O_CONST:{ const mpq_class&q=consts[nd.k]; if(q.get_str().size()>24) o<<q.get_d(); else o<<q; } break;case O_VAR:case O_BVVAR:o<<names[nd.k];break;case O_ADD:o<<"("<<A(0)<<" + "<<A(1)<<")";break;case O_MUL:o<<"("<<A(0)<<"*"<<A(1)<<")";break;case O_DIV:o<<"("<<A(0)<<"/"<<A(1)<<")";break;case O_ATOM:o<<names[nd.k]<<"{"<<A(0)<<"}";break;case O_LT:o<<A(0)<<" < "<<A(1);break;case O_LE:o<<A(0)<<" <= "<<A(1);break;case O_EQ:o<<A(0)<<" == "<<A(1);break;case O_NOT:o<<"!("<<A(0)<<")";break;case O_AND:o<<"("<<A(0)<<" && "<<A(1)<<")";break;case O_OR:o<<"("<<A(0)<<" || "<<A(1)<<")";break;case O_TRUE:o<<"true";break;case O_FALSE:o<<"false";break;case O_BVCONST:o<<sext(nd.k,nd.width);break;case O_I2R:case O_R2I:o<<"cast("<<A(0)<<")";break; default:o<<"op"<<nd.op<<"_"<<nd.k<<"("; for(size_t i=0;i<nd.a.size();i++) o<<A(i)<<",";o<<")";} return o.str(); }
// ---- z3
z3::expr Ctx::zpoly(const Poly&p){ return toZ3(fromPoly(p)); }
z3::expr Ctx::toZ3(N x){
  if(!zc) zc=new z3::context();
  auto f=zmemo.find(x); if(f!=zmemo.end()) return z3::expr(*zc,f->second);
  std::vector<N> st{x};
  while(!st.empty()){ N y=st.back(); if(zmemo.count(y)){st.pop_back();continue;} const Node nd=n(y); bool ok=true; 
    if(nd.op!=O_ATOM) for(N c:nd.a) if(!zmemo.count(c)){st.push_back(c);ok=false;} if(!ok) continue;
    auto A=[&](int i){return z3::expr(*zc,zmemo[nd.a[i]]);}; z3::expr r(*zc);
    switch(nd.op){
      case O_CONST: r=zc->real_val(consts[nd.k].get_str().c_str()); break;
      case O_VAR: { auto&v=vars[varOf[y]]; if(v.isInt) r=z3::to_real(zc->int_const(v.name.c_str())); else r=zc->real_const(v.name.c_str()); break; }
      case O_ADD: r=A(0)+A(1); break; case O_MUL: r=A(0)*A(1); break; case O_DIV: r=A(0)/A(1); break;
      case O_ATOM: { auto at=atoms[atomOf[y]]; if(at.fun=="floor"||at.fun=="ceil"){ r=z3::to_real(zc->int_const(names[nd.k].c_str())); } else r=zc->real_const(names[nd.k].c_str());
        zmemo[y]=r; zkeep.push_back(r); N s=y;
        if(at.fun=="sqrt"||at.fun=="sqrtraw"){ axioms.push_back(le(cst(0),s)); axioms.push_back(mk(O_EQ,BOOL,0,{mul(s,s),at.args[0]},0)); }
        else if(at.fun=="floor"){ axioms.push_back(le(s,at.args[0])); axioms.push_back(lt(at.args[0],add(s,cst(1)))); }
        else if(at.fun=="ceil"){ axioms.push_back(lt(sub(s,cst(1)),at.args[0])); axioms.push_back(le(at.args[0],s)); }
        else if(at.hasB){ axioms.push_back(le(cst(mpq_class(at.lo)),s)); axioms.push_back(le(s,cst(mpq_class(at.hi)+mpq_class(1,1000000000)))); }
        if(at.ruleDeg&&at.fun!="sqrt"&&at.rule){ N pw=s; for(int i=1;i<at.ruleDeg;i++) pw=mk(O_MUL,REAL,0,{pw,s},0); axioms.push_back(mk(O_EQ,BOOL,0,{pw,fromRat(at.rule)},0)); }
        st.pop_back(); continue; }
      case O_I2R: r=z3::to_real(z3::expr(*zc,Z3_mk_bv2int(*zc,A(0),true))); break;
      case O_TRUE: r=zc->bool_val(true);break; case O_FALSE: r=zc->bool_val(false);break;
      case O_LT: r=A(0)<A(1);break; case O_LE: r=A(0)<=A(1);break; case O_EQ: r=A(0)==A(1);break; case O_NOT: r=!A(0);break; case O_AND: r=A(0)&&A(1);break; case O_OR: r=A(0)||A(1);break; case O_XOR: r=A(0)!=A(1);break;
      case O_ITE: r=z3::ite(A(0),zc->bv_val(1,nd.width),zc->bv_val(0,nd.width)); break;
      case O_BVCONST: r=zc->bv_val((uint64_t)nd.k,nd.width);break; case O_BVVAR: r=zc->bv_const(names[nd.k].c_str(),nd.width);break;
      case O_R2I: { z3::expr v=A(0); z3::expr t=z3::ite(v>=0,z3::expr(*zc,Z3_mk_real2int(*zc,v)),-z3::expr(*zc,Z3_mk_real2int(*zc,-v))); r=z3::int2bv(nd.width,t); break; }
      case O_BVOP: switch(nd.k){case 0:r=A(0)+A(1);break;case 1:r=A(0)-A(1);break;case 2:r=A(0)*A(1);break;case 3:r=z3::udiv(A(0),A(1));break;case 4:r=A(0)/A(1);break;case 5:r=z3::urem(A(0),A(1));break;case 6:r=z3::srem(A(0),A(1));break;case 7:r=A(0)&A(1);break;case 8:r=A(0)|A(1);break;case 9:r=A(0)^A(1);break;case 10:r=z3::shl(A(0),A(1));break;case 11:r=z3::lshr(A(0),A(1));break;case 12:r=z3::ashr(A(0),A(1));break;case 20:r=z3::zext(A(0),nd.width-n(nd.a[0]).width);break;case 21:r=z3::sext(A(0),nd.width-n(nd.a[0]).width);break;case 22:r=A(0).extract(nd.width-1,0);break;} break;
      case O_BVCMP: switch(nd.k){case 32:r=A(0)==A(1);break;case 34:r=z3::ugt(A(0),A(1));break;case 35:r=z3::uge(A(0),A(1));break;case 36:r=z3::ult(A(0),A(1));break;case 37:r=z3::ule(A(0),A(1));break;case 38:r=A(0)>A(1);break;case 39:r=A(0)>=A(1);break;case 40:r=A(0)<A(1);break;case 41:r=A(0)<=A(1);break;} break;
      default: throw std::runtime_error("toZ3");
    }
    zmemo[y]=r; zkeep.push_back(r); st.pop_back(); }
  return z3::expr(*zc,zmemo[x]);
}
}
