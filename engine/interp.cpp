#include <atomic>
#include <poll.h>
// Symbolic executor for LLVM IR produced by clang from /repo's sources.
//   vpsym prep out.bc in1.bc in2.bc ...   link + mark cut points noinline + optimise
//   vpsym run file.bc harness-function outdir [options]
#include "sym.hpp"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/Transforms/Utils/ModuleUtils.h>
#include <llvm/Transforms/IPO/GlobalDCE.h>
#include <llvm/Transforms/IPO/Internalize.h>
#include <cmath>
#include <cstdio>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <iostream>
#include <fstream>
#include <regex>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>
using namespace llvm;
using sym::C; using sym::N;

struct Val { uint64_t b; N s; };
typedef std::atomic<uint64_t> ctr;
struct LabelStat { char name[96]; ctr nfProved, z3Proved, failed, unknown; };
struct Shared {
  ctr paths, endOk, endReach, forks, decides, queries, qSat, qUnsat, qUnknown, qMicros, divAssume, steps, infeasible, aborted, unsupported, truncated, checks, cands, witnessReach, exceptions, nodes, asserts, ivProved;
  int nLabels; LabelStat labels[512]; char msgs[64][400]; int nMsgs; ctr liveForks; unsigned char fnSeen[1<<16]; std::atomic<int> witWritten; std::atomic<int> lock;
};
static Shared *SH;
static std::string outDir; static double queryTimeout=10, ivBudget=0.6, maxTime=600, startTime; static uint64_t maxPaths=20000; static uint64_t maxSteps=4000000000ull;
static bool verbose=false;
static double now(){ timeval t; gettimeofday(&t,0); return t.tv_sec+t.tv_usec*1e-6; }
struct Guard{ Guard(){ int e=0; for(int k=0;!SH->lock.compare_exchange_weak(e,1);k++){ e=0; if(k>1000) usleep(50); if(k>100000) break; } } ~Guard(){ SH->lock=0; } };
static int jobR=-1,jobW=-1; static bool haveToken=false; static std::vector<pid_t> asyncKids; // token pool shared by all harness runs of a check
static bool takeToken(){ if(jobR<0) return false; pollfd pf{jobR,POLLIN,0}; if(poll(&pf,1,0)<=0) return false; char c; return read(jobR,&c,1)==1; }
static void giveToken(){ if(jobW>=0){ char c='t'; if(write(jobW,&c,1)<0){} } }
static void reapKids();
static void msg(const std::string&s){ Guard g; for(int i=0;i<SH->nMsgs&&i<64;i++) if(!strncmp(SH->msgs[i],s.c_str(),399)) return; if(SH->nMsgs<64){ strncpy(SH->msgs[SH->nMsgs],s.c_str(),399); SH->nMsgs++; } if(verbose) fprintf(stderr,"[msg] %s\n",s.c_str()); }
static std::vector<std::string> callStack;
static void noteFunctions();
[[noreturn]] static void endPath(const char*why){ noteFunctions(); fflush(stdout); if(verbose) fprintf(stderr,"[path end %d] %s\n",getpid(),why); SH->paths++; if(haveToken){ giveToken(); haveToken=false; } reapKids(); _exit(0); }
[[noreturn]] static void unsupported(const std::string&s){ SH->unsupported++; std::string st; for(size_t i=callStack.size()>4?callStack.size()-4:0;i<callStack.size();i++) st+=" < "+callStack[i].substr(0,60); msg("UNSUPPORTED "+s+" in"+st); endPath("unsupported"); }

// ------------------------------------------------------------------ doubles
static const uint64_t TAG=0xFFFAull<<48;
static inline bool boxed(uint64_t b){ return (b>>48)==0xFFFA; }
static inline double D(uint64_t b){ double d; memcpy(&d,&b,8); return d; }
static inline uint64_t Bd(double d){ uint64_t b; memcpy(&b,&d,8); return b; }
static mpq_class exactQ(double d){ return mpq_class(d); }
static N toNode(uint64_t b){ if(boxed(b)) return (N)(b&0xFFFFFFFFFFFFull); double d=D(b); if(!std::isfinite(d)) unsupported("non-finite value mixed into a symbolic expression"); return C.cst(exactQ(d)); }
static bool approxMode=false;
static uint64_t fromNode(N x){ mpq_class q; if(C.isConst(x,&q)){ double d=q.get_d(); if(std::isfinite(d)&&mpq_class(d)==q) return Bd(d); if(approxMode) return Bd(d); } return TAG|x; }
// idealise a literal: the simplest real within half an ulp (decimal, small rational, sqrt of small rational)
static uint64_t ideal(double d){
  if(!std::isfinite(d)||d==0) return Bd(d);
  int e; double m=frexp(fabs(d),&e); uint64_t mant=(uint64_t)ldexp(m,53); int tz=__builtin_ctzll(mant); if(53-tz<=32) return Bd(d);
  char buf[64]; for(int p=1;p<=12;p++){ snprintf(buf,64,"%.*e",p-1,d); if(strtod(buf,0)==d){ // decimal -> rational
      std::string s(buf); size_t ep=s.find('e'); int ex=atoi(s.c_str()+ep+1); std::string mnt=s.substr(0,ep); bool ng=mnt[0]=='-'; if(ng) mnt=mnt.substr(1); size_t dot=mnt.find('.'); if(dot!=std::string::npos){ ex-=(int)(mnt.size()-dot-1); mnt.erase(dot,1);} mpq_class q; q=mpz_class(mnt,10); mpz_class t; mpz_ui_pow_ui(t.get_mpz_t(),10,std::abs(ex)); if(ex<0) q/=mpq_class(t); else q*=mpq_class(t); if(ng) q=-q; q.canonicalize(); return TAG|C.cst(q); } }
  for(int q=2;q<=6000;q++){ double p=std::round(d*q); if(fabs(p)<1e9&&fabs(p/q-d)<=fabs(d)*2.3e-16){ mpq_class r((long)p,q); r.canonicalize(); return TAG|C.cst(r);} }
  double d2=d*d; for(int q=1;q<=400;q++){ double p=std::round(d2*q); if(p>0&&p<1e6&&fabs(std::sqrt(p/q)-fabs(d))<=fabs(d)*2.3e-16){ mpq_class r((long)p,q); r.canonicalize(); N s=C.sqrtN(C.cst(r)); if(d<0) s=C.neg(s); return TAG|s; } }
  return Bd(d);
}
// ------------------------------------------------------------------ path condition & solving
static std::vector<N> pc; static std::unordered_map<N,bool> known; static bool witnessValid=true;
static std::unordered_map<N,double> wmemo; static std::vector<int> choiceTrail;
static std::vector<std::pair<std::string,int>> choices;
static std::map<std::string,std::string> preset; static bool divFork=false;
static void addPc(N c){ if(c==C.T) return; pc.push_back(c); known[c]=true; known[C.notN(c)]=false; }
struct QRes { int r; /*1 sat 0 unsat -1 unknown*/ std::map<std::string,std::string> model; };
static N normCmp(N c){ // replace comparisons by polynomial sign conditions
  const sym::Node nd=C.n(c);
  if(nd.op==sym::O_LT||nd.op==sym::O_LE||nd.op==sym::O_EQ){ auto r=C.tryNf(C.sub(nd.a[1],nd.a[0])); if(!r||r->num.size()>4000) return c; 
    N num=C.fromPoly(r->num); if(nd.op==sym::O_EQ) { return C.mk(sym::O_EQ,sym::BOOL,0,{num,C.cst(0)},0); }
    N s=num; auto q=std::make_shared<sym::Rat>(); for(auto&d:r->den) if(d.second%2){ auto one=std::make_shared<sym::Rat>(); one->num.push_back({0,1}); one->den.push_back({d.first,1}); N f=C.div(C.cst(1),C.fromRat(one)); /* 1/(1/f) */ s=C.mul(s,C.div(C.cst(1),C.div(C.cst(1),f))); 
      // f as polynomial
    }
    bool poly=true; for(auto&d:r->den) if(d.second%2) poly=false; if(!poly) { // multiply by the odd factors
      N prod=num; for(auto&d:r->den) if(d.second%2){ auto one=std::make_shared<sym::Rat>(); one->num.push_back({0,1}); one->den.push_back({d.first,1}); N inv=C.fromRat(one); const sym::Node di=C.n(inv); prod=C.mul(prod,di.op==sym::O_DIV?di.a[1]:C.div(C.cst(1),inv)); } s=prod; }
    return C.mk(nd.op,sym::BOOL,0,{C.cst(0),s},0); }
  if(nd.op==sym::O_NOT){ N i=normCmp(nd.a[0]); return C.mk(sym::O_NOT,sym::BOOL,0,{i},0); }
  if(nd.op==sym::O_AND||nd.op==sym::O_OR){ return C.mk(nd.op,sym::BOOL,0,{normCmp(nd.a[0]),normCmp(nd.a[1])},0); }
  return c; }
static N normAxiom(N c){ const sym::Node nd=C.n(c); if(nd.op!=sym::O_EQ) return nd.op==sym::O_LE||nd.op==sym::O_LT?c:normCmp(c); // keep the defining power of the atom, reduce only the other side
  sym::RatP r=C.tryNf(nd.a[1]); if(!r) return c; N q=C.fromRat(r); const sym::Node qn=C.n(q); if(qn.op==sym::O_DIV) return C.mk(sym::O_EQ,sym::BOOL,0,{C.mul(nd.a[0],qn.a[1]),qn.a[0]},0); return C.mk(sym::O_EQ,sym::BOOL,0,{nd.a[0],q},0); }
static void collectVars(N x,std::set<N>&seen,std::set<N>&vars,bool&nonreal){ std::vector<N> st{x}; while(!st.empty()){ N y=st.back(); st.pop_back(); if(!seen.insert(y).second) continue; const auto&nd=C.n(y); if(nd.op==sym::O_VAR||nd.op==sym::O_ATOM||nd.op==sym::O_BVVAR) vars.insert(y); if(nd.sort==sym::BV||nd.op==sym::O_I2R) nonreal=true; if(nd.op==sym::O_VAR&&C.vars[C.varOf[y]].isInt) nonreal=true; for(N c:nd.a) st.push_back(c); } }
static QRes solve(std::vector<N> extra,double tmo=-1,const std::map<std::string,std::string>*fix=nullptr,unsigned seed=0){
  if(tmo<0) tmo=queryTimeout; double t0=now(); SH->queries++; QRes res; res.r=-1;
  if(t0-startTime>maxTime){ SH->qUnknown++; return res; }
  std::vector<N> all; for(N c:pc) all.push_back(normCmp(c)); for(N c:extra) all.push_back(normCmp(c));
  // slice: only constraints connected to the extra ones
  std::vector<std::set<N>> vs(all.size()); bool nonreal=false; for(size_t i=0;i<all.size();i++){ std::set<N> seen; bool nr=false; collectVars(all[i],seen,vs[i],nr); }
  if(!extra.empty()){ std::set<N> act; std::vector<char> in(all.size(),0); for(size_t i=pc.size();i<all.size();i++){ in[i]=1; act.insert(vs[i].begin(),vs[i].end()); }
    std::vector<std::set<N>> av; std::vector<char> ain(C.axioms.size(),0); for(N x:C.axioms){ std::set<N> seen,vv; bool nr=false; collectVars(x,seen,vv,nr); av.push_back(vv); }
    auto derived=[&](N v){ if(C.n(v).op==sym::O_ATOM) return true; auto it=C.varOf.find(v); return it!=C.varOf.end()&&!C.vars[it->second].input; };
    for(bool ch=true;ch;){ ch=false; for(size_t i=0;i<av.size();i++) if(!ain[i]){ bool rel=false; for(N v:av[i]) if(act.count(v)&&derived(v)){ rel=true; break; } if(rel){ ain[i]=1; ch=true; act.insert(av[i].begin(),av[i].end()); } }
      for(size_t i=0;i<pc.size();i++) if(!in[i]){ bool rel=vs[i].empty(); for(N v:vs[i]) if(act.count(v)){ rel=true; break; } if(rel){ in[i]=1; act.insert(vs[i].begin(),vs[i].end()); ch=true; } } }
    std::vector<N> a2; std::vector<std::set<N>> v2; for(size_t i=0;i<all.size();i++) if(in[i]){ a2.push_back(all[i]); v2.push_back(vs[i]); } all.swap(a2); vs.swap(v2); }
  for(size_t i=0;i<all.size();i++){ std::set<N> seen,vv; collectVars(all[i],seen,vv,nonreal); }
  int fds[2]; if(pipe(fds)) abort(); 
  pid_t p=fork();
  if(p==0){ close(fds[0]); prctl(PR_SET_PDEATHSIG,SIGKILL); signal(SIGALRM,SIG_DFL); alarm((unsigned)std::ceil(tmo)); std::string out;
    try{ size_t na=0; 
      std::vector<z3::expr> es; std::set<N> used; for(size_t i=0;i<all.size();i++){ es.push_back(C.toZ3(all[i])); for(N v:vs[i]) used.insert(v);} 
      // atoms may pull in more axioms (grows while converting)
      for(na=0;na<C.axioms.size();na++){ N a=normAxiom(C.axioms[na]); bool nr=false; std::set<N> seen,vv; collectVars(a,seen,vv,nr); bool rel=false; for(N v:vv) if(used.count(v)) rel=true; if(!rel) continue; es.push_back(C.toZ3(a)); for(N v:vv) used.insert(v); nonreal|=nr; }
      for(N v:used){ auto it=C.varOf.find(v); if(it==C.varOf.end()) continue; auto&vi=C.vars[it->second]; if(vi.hasB){ es.push_back(C.toZ3(C.mk(sym::O_LE,sym::BOOL,0,{C.cst(vi.lo),v},0))); es.push_back(C.toZ3(C.mk(sym::O_LE,sym::BOOL,0,{v,C.cst(vi.hi)},0))); }
        if(fix){ auto f=fix->find(vi.name); if(f!=fix->end()) es.push_back(C.toZ3(v)==C.zc->real_val(f->second.c_str())); } }
      for(N v:used) if(C.n(v).op==sym::O_ATOM&&C.atoms[C.atomOf[v]].fun=="floor") nonreal=true;
      z3::solver s=nonreal?z3::solver(*C.zc):z3::tactic(*C.zc,"qfnra-nlsat").mk_solver(); if(!nonreal){ z3::params pr(*C.zc); pr.set("seed",seed); s.set(pr);} for(auto&e:es) s.add(e);
      if(getenv("VP_SMT")) std::cerr<<s<<"\n";
      auto r=s.check(); out=r==z3::sat?"S\n":r==z3::unsat?"U\n":"K\n";
      if(r==z3::sat){ auto m=s.get_model(); for(auto&v:C.vars){ if(!used.count(v.node)) continue; z3::expr e=m.eval(C.toZ3(v.node),true); std::string t; if(e.is_numeral()) t=e.get_decimal_string(0)=="?"?"":e.to_string(); Z3_ast a=e; if(Z3_is_algebraic_number(*C.zc,a)&&!e.is_numeral()) { z3::expr lo(*C.zc,Z3_get_algebraic_number_lower(*C.zc,a,40)); t=lo.to_string(); }
          if(Z3_get_ast_kind(*C.zc,a)==Z3_NUMERAL_AST) t=Z3_get_numeral_string(*C.zc,a); if(!t.empty()) out+=v.name+" "+t+"\n"; }
        for(N v:used) if(C.n(v).op==sym::O_BVVAR){ z3::expr e=m.eval(C.toZ3(v),true); out+=C.names[C.n(v).k]+" "+std::string(Z3_get_numeral_string(*C.zc,e))+"\n"; } }
    }catch(z3::exception&e){ out=std::string("K ")+e.msg()+"\n"; }catch(std::exception&e){ out="K\n"; }
    size_t o=0; while(o<out.size()){ ssize_t w=write(fds[1],out.data()+o,out.size()-o); if(w<=0)break; o+=w;} _exit(0); }
  close(fds[1]); std::string out; char buf[4096]; ssize_t k; while((k=read(fds[0],buf,sizeof buf))>0) out.append(buf,k); close(fds[0]); int st; waitpid(p,&st,0);
  if(!out.empty()){ if(out[0]=='S') res.r=1; else if(out[0]=='U') res.r=0; std::istringstream is(out); std::string l; std::getline(is,l); if(verbose&&l.size()>2) fprintf(stderr,"[z3] %s\n",l.c_str()); while(std::getline(is,l)){ size_t sp=l.find(' '); if(sp!=std::string::npos) res.model[l.substr(0,sp)]=l.substr(sp+1); } }
  SH->qMicros+=(uint64_t)((now()-t0)*1e6); if(res.r==1) SH->qSat++; else if(res.r==0) SH->qUnsat++; else SH->qUnknown++;
  if(verbose) fprintf(stderr,"[query] %s %.2fs (%zu constraints)\n",res.r==1?"sat":res.r==0?"unsat":"unknown",now()-t0,all.size());
  return res;
}
static std::map<std::string,uint64_t> bvModel;
static mpq_class parseQ(std::string s){ // "(- (/ 1 2))", "1/2", "0.5", "-3"
  std::string t; bool ng=false; for(char c:s){ if(c=='('||c==')') continue; t+=c; }
  std::istringstream is(t); std::string w; std::vector<std::string> ws; while(is>>w) ws.push_back(w); std::vector<mpq_class> nums; bool dv=false; for(auto&x:ws){ if(x=="-") ng=!ng; else if(x=="/") dv=true; else { size_t dot=x.find('.'); if(dot!=std::string::npos){ std::string m=x; int fr=x.size()-dot-1; m.erase(dot,1); mpz_class ten; mpz_ui_pow_ui(ten.get_mpz_t(),10,fr); mpq_class q(mpz_class(m,10),ten); q.canonicalize(); nums.push_back(q);} else { mpq_class q(x,10); q.canonicalize(); nums.push_back(q);} } }
  mpq_class r=nums.empty()?mpq_class(0):nums[0]; if(dv&&nums.size()>1) r/=nums[1]; return ng?mpq_class(-r):r; }
static void useModel(const QRes&q){ for(auto&b:C.bvVal){ auto it=q.model.find(C.names[C.n(b.first).k]); if(it!=q.model.end()){ uint64_t v=strtoull(it->second.c_str(),0,10); unsigned w=C.n(b.first).width; b.second=w>=64?(int64_t)v:(int64_t)(v<<(64-w))>>(64-w); } }
  for(auto&v:C.vars){ auto it=q.model.find(v.name); if(it!=q.model.end()) v.val=parseQ(it->second);} wmemo.clear(); witnessValid=true; 
  for(N c:pc) if(C.evalB(c,wmemo)==0){ witnessValid=false; break; } }
static int witnessEval(N c){ if(!witnessValid) return -1; return C.evalB(c,wmemo); }
static void checkDeadline(){ if(now()-startTime>maxTime){ SH->truncated++; msg("time limit reached"); endPath("deadline"); } }
static void reap(pid_t p,bool async){ int st; waitpid(p,&st,0); SH->liveForks--; if(WIFSIGNALED(st)){ if(async) giveToken(); SH->aborted++; SH->paths++; msg("executor path died with signal "+std::to_string(WTERMSIG(st))); } }
static void reapKids(){ for(pid_t p:asyncKids) reap(p,true); asyncKids.clear(); }
// fork: the child explores the other side first; the parent continues afterwards
static bool forkPath(){ if(SH->paths+SH->liveForks>=maxPaths){ SH->truncated++; msg("path limit reached"); return false; } checkDeadline(); SH->forks++; SH->liveForks++; fflush(stdout); bool async=takeToken(); pid_t p=fork(); if(p<0){ SH->truncated++; msg("fork failed"); if(async) giveToken(); return false; } if(p==0){ prctl(PR_SET_PDEATHSIG,SIGKILL); haveToken=async; asyncKids.clear(); return true; } if(async){ asyncKids.push_back(p); return false; } reap(p,false); return false; }
// ---- interval branch and bound: decides a strict sign over the whole input box (outward rounded), before the algebraic solver is asked
namespace iv {
struct I{ double l,h; };
static double dn(double x){ return std::nextafter(x,-INFINITY); } static double up(double x){ return std::nextafter(x,INFINITY); }
static const I ALL{-INFINITY,INFINITY};
static I fix(I a){ if(std::isnan(a.l)||std::isnan(a.h)) return ALL; return a; }
static I add(I a,I b){ return fix({dn(a.l+b.l),up(a.h+b.h)}); }
static double m1(double a,double b){ return a==0||b==0?0:a*b; }
static I mul(I a,I b){ double p=m1(a.l,b.l),q=m1(a.l,b.h),r=m1(a.h,b.l),t=m1(a.h,b.h); return fix({dn(std::min(std::min(p,q),std::min(r,t))),up(std::max(std::max(p,q),std::max(r,t)))}); }
static I sqr(I a){ double p=a.l*a.l,q=a.h*a.h; double lo=a.l<=0&&a.h>=0?0:dn(std::min(p,q)); return fix({lo,up(std::max(p,q))}); }
static I div(I a,I b){ if(b.l<=0&&b.h>=0) return ALL; return mul(a,I{dn(1/b.h),up(1/b.l)}); }
struct Prog { std::vector<N> ord; std::vector<int> a,b; std::vector<I> cv; std::unordered_map<N,int> pos; std::vector<std::pair<int,int>> vars; bool ok=true; std::vector<I> val;
  int put(N x){ std::vector<N> st{x}; while(!st.empty()&&ok){ N y=st.back(); if(pos.count(y)){ st.pop_back(); continue; } const auto&nd=C.n(y); bool rdy=true;
      bool leaf=nd.op==sym::O_CONST||nd.op==sym::O_VAR; const sym::AtomInfo*at=nullptr; if(nd.op==sym::O_ATOM){ at=&C.atoms[C.atomOf[y]]; if(at->fun!="sqrt"&&at->fun!="sqrtraw"){ leaf=true; if(!at->hasB){ ok=false; break; } } }
      if(!leaf){ if(nd.op!=sym::O_ADD&&nd.op!=sym::O_MUL&&nd.op!=sym::O_DIV&&nd.op!=sym::O_ATOM){ ok=false; break; } if(nd.op==sym::O_ATOM){ N c=at->args[0]; if(!pos.count(c)){ st.push_back(c); rdy=false; } } else for(N c:nd.a) if(!pos.count(c)){ st.push_back(c); rdy=false; } }
      if(!rdy) continue; int id=ord.size(); if(id>30000){ ok=false; break; } int pa=-1,pb=-1; I c=ALL;
      if(nd.op==sym::O_CONST){ const mpq_class&q=C.consts[nd.k]; double d=q.get_d(); c=mpq_class(d)==q?I{d,d}:I{dn(d),up(d)}; }
      else if(nd.op==sym::O_VAR){ int v=C.varOf[y]; auto&vi=C.vars[v]; if(!vi.hasB||vi.dead||vi.isInt){ ok=false; break; } vars.push_back({id,v}); }
      else if(nd.op==sym::O_ATOM){ if(leaf) c=I{at->lo,up(at->hi)}; else pa=pos[at->args[0]]; }
      else { pa=pos[nd.a[0]]; pb=pos[nd.a[1]]; }
      pos[y]=id; ord.push_back(y); a.push_back(pa); b.push_back(pb); cv.push_back(c); st.pop_back(); } return ok?pos[x]:-1; }
  void cut(size_t n,size_t m){ for(size_t i=n;i<ord.size();i++) pos.erase(ord[i]); ord.resize(n); a.resize(n); b.resize(n); cv.resize(n); vars.resize(m); ok=true; }
  void run(const std::vector<I>&box){ val.resize(ord.size()); size_t k=0; for(size_t i=0;i<ord.size();i++){ const auto&nd=C.n(ord[i]); switch(nd.op){ case sym::O_CONST: val[i]=cv[i]; break; case sym::O_VAR: val[i]=box[k++]; break; case sym::O_ADD: val[i]=add(val[a[i]],val[b[i]]); break; case sym::O_MUL: val[i]=a[i]==b[i]?sqr(val[a[i]]):mul(val[a[i]],val[b[i]]); break; case sym::O_DIV: val[i]=div(val[a[i]],val[b[i]]); break;
      default: if(a[i]<0) val[i]=cv[i]; else { I x=val[a[i]]; val[i]=I{dn(std::sqrt(std::max(0.0,x.l))),up(std::sqrt(std::max(0.0,x.h)))}; if(val[i].l<0) val[i].l=0; } } } } };
static bool cmpFalse(const sym::Node&nd,I l,I r){ if(nd.op==sym::O_LT) return l.l>=r.h; if(nd.op==sym::O_LE) return l.l>r.h; if(nd.op==sym::O_EQ) return l.l>r.h||r.l>l.h; return false; }
static bool cmpTrue(const sym::Node&nd,I l,I r){ if(nd.op==sym::O_LT) return l.h<r.l; if(nd.op==sym::O_LE) return l.h<=r.l; return false; }
// is the comparison c (possibly negated) true for every point of the box that satisfies the path condition?
static bool holds(N c){ double budget=ivBudget;
  bool neg=false; while(C.n(c).op==sym::O_NOT){ neg=!neg; c=C.n(c).a[0]; } const sym::Node nd=C.n(c); if(nd.op!=sym::O_LT&&nd.op!=sym::O_LE&&nd.op!=sym::O_EQ) return false; if(nd.op==sym::O_EQ&&!neg) return false; if(C.n(nd.a[0]).sort!=sym::REAL) return false;
  double t0=now(); Prog P; int L=-1,R=-1,D=-1; N df=C.sub(nd.a[0],nd.a[1]);
  { // inputs that cancel in the difference do not count: decide the normal form of the difference then
    std::set<N> seen,raw,red; bool nr=false; collectVars(df,seen,raw,nr); sym::RatP r=seen.size()<60000?C.tryNf(df):nullptr; if(r&&r->num.size()<=400){ N q=C.fromRat(r); seen.clear(); collectVars(q,seen,red,nr); size_t nraw=0,nred=0; for(N v:raw) nraw+=C.n(v).op==sym::O_VAR; for(N v:red) nred+=C.n(v).op==sym::O_VAR; if(nred<nraw){ D=P.put(q); L=R=D; } } }
  if(D<0){ P=Prog(); L=P.put(nd.a[0]); if(L<0) return false; R=P.put(nd.a[1]); if(R<0) return false; D=P.put(df); if(D<0) return false; }
  size_t nv=P.vars.size(); if(nv>6) return false; std::set<N> mine; for(auto&v:P.vars) mine.insert(C.vars[v.second].node);
  struct K{ sym::Node nd; bool neg; int l,r; }; std::vector<K> ks; for(N k:pc){ bool ng=false; while(C.n(k).op==sym::O_NOT){ ng=!ng; k=C.n(k).a[0]; } sym::Node kd=C.n(k); if(kd.op!=sym::O_LT&&kd.op!=sym::O_LE) continue; if(C.n(kd.a[0]).sort!=sym::REAL) continue; std::set<N> seen,vv; bool nr=false; collectVars(k,seen,vv,nr); if(nr||seen.size()>3000) continue; bool in=true; for(N v:vv) if(C.n(v).op==sym::O_VAR&&!mine.count(v)) in=false; if(!in) continue; size_t sv=P.ord.size(),nvs=P.vars.size(); int l=P.put(kd.a[0]); int r=l<0?-1:P.put(kd.a[1]); if(r<0||P.vars.size()>nvs){ P.cut(sv,nvs); continue; } ks.push_back({kd,ng,l,r}); }
  nv=P.vars.size(); std::vector<I> box(nv); for(size_t i=0;i<nv;i++){ auto&vi=C.vars[P.vars[i].second]; double l=vi.lo.get_d(),h=vi.hi.get_d(); box[i]={l<0?dn(l):l,up(h)}; if(mpq_class(l)==vi.lo) box[i].l=l; else box[i].l=dn(l); if(mpq_class(h)==vi.hi) box[i].h=h; }
  std::vector<I> w0=box; std::vector<std::vector<I>> st{box}; int n=0; while(!st.empty()){ if(++n>200000||((n&7)==0&&now()-t0>budget)) return false; std::vector<I> b=st.back(); st.pop_back(); P.run(b); I l=P.val[L],r=P.val[R],d=P.val[D]; I z{0,0}; if(L==R) l=d,r=z; bool good=neg?cmpFalse(nd,l,r)||cmpFalse(nd,d,z):cmpTrue(nd,l,r)||cmpTrue(nd,d,z); if(good) continue;
    bool dead=false; for(auto&k:ks){ I x=P.val[k.l],y=P.val[k.r]; if(k.neg?cmpTrue(k.nd,x,y):cmpFalse(k.nd,x,y)){ dead=true; break; } } if(dead) continue;
    if(nv==0) return false; size_t m=0; double best=-1; for(size_t i=0;i<nv;i++){ double w=(b[i].h-b[i].l)/(w0[i].h-w0[i].l+1e-300); if(w>best){ best=w; m=i; } } if(best<1e-5) return false; double mid=0.5*(b[m].l+b[m].h); auto b2=b; b[m].h=mid; b2[m].l=mid; st.push_back(b2); st.push_back(b); }
  return true; }
}
static bool decide(N c){
  if(c==C.T) return true; if(c==C.F) return false; auto k=known.find(c); if(k!=known.end()) return k->second;
  const sym::Node nd=C.n(c);
  if(nd.op==sym::O_LT||nd.op==sym::O_LE||nd.op==sym::O_EQ){ int s=C.signKnown(C.sub(nd.a[1],nd.a[0])); // b-a
    if(nd.op==sym::O_LT){ if(s==1) return true; if(s==0||s==-1||s==-3) return false; }
    else if(nd.op==sym::O_LE){ if(s==1||s==0||s==3) return true; if(s==-1) return false; }
    else { if(s==0) return true; if(s==1||s==-1) return false; } }
  SH->decides++; N nc=C.notN(c);
  int w=witnessEval(c); if(w!=0&&iv::holds(c)){ SH->ivProved++; addPc(c); return true; } if(w!=1&&iv::holds(nc)){ SH->ivProved++; addPc(nc); return false; } QRes qt,qf; int ft=-2,ff=-2;
  if(w==1) ft=1; else if(w==0) ff=1;
  if(ft!=1){ qt=solve({c}); ft=qt.r; } if(ff!=1){ if(ft==0) ff=1; else { qf=solve({nc}); ff=qf.r; } }
  if(ft==0&&ff==0){ SH->infeasible++; endPath("infeasible"); }
  if(verbose) fprintf(stderr,"[decide %d] %s : T=%d F=%d w=%d\n",getpid(),C.show(c,4).substr(0,300).c_str(),ft,ff,w);
  if(ft==0){ addPc(nc); return false; } if(ff==0){ addPc(c); return true; }
  // both sides possible (or undecided): explore both
  bool first = (w!=1); // child takes the non-witness side
  if(w==-1) first=true;
  if(forkPath()){ addPc(first?c:nc); if((first?qt:qf).r==1) useModel(first?qt:qf); else witnessValid=false; return first; }
  addPc(first?nc:c); QRes&q=first?qf:qt; if(w==-1){ if(q.r==1) useModel(q); else witnessValid=false; }
  return !first; }
static LabelStat&label(const std::string&s){ Guard g; for(int i=0;i<SH->nLabels;i++) if(!strncmp(SH->labels[i].name,s.c_str(),95)) return SH->labels[i]; if(SH->nLabels>=512) return SH->labels[511]; auto&l=SH->labels[SH->nLabels++]; strncpy(l.name,s.c_str(),95); return l; }
static void writeWitness(){ std::ofstream o(outDir+"/witness.txt"); for(auto&v:C.vars) if(v.input){ char b[64]; snprintf(b,64,"%.17g",v.val.get_d()); o<<v.name<<" "<<b<<"\n"; } for(auto&b:C.bvVal) o<<C.names[C.n(b.first).k]<<" "<<b.second<<"\n"; for(auto&c:choices) o<<c.first<<" "<<c.second<<"\n"; }
static void writeCand(const std::string&lab,const std::string&detail){
  static const unsigned maxC=40; if(SH->cands>=maxC) return; 
  std::ofstream o(outDir+"/cand_"+std::to_string(SH->cands.fetch_add(1))+".txt"); o<<"# label "<<lab<<"\n# "<<detail.substr(0,400)<<"\n"; for(auto&v:C.vars) if(v.input){ char b[64]; snprintf(b,64,"%.17g",v.val.get_d()); o<<v.name<<" "<<b<<"\n"; } for(auto&b:C.bvVal) o<<C.names[C.n(b.first).k]<<" "<<b.second<<"\n"; for(auto&c:choices) o<<c.first<<" "<<c.second<<"\n"; for(auto&b:bvModel) o<<b.first<<" "<<b.second<<"\n"; }
static void candidate(const std::string&lab,const std::string&detail,const QRes*q){
  if(q&&q->r==1){ auto save=C.vars; auto sbv=C.bvVal; auto sm=wmemo; bool sv=witnessValid; useModel(*q); for(auto&m:q->model) if(m.first.compare(0,3,"bv_")==0) bvModel[m.first]=strtoull(m.second.c_str(),0,10); writeCand(lab,detail); C.vars=save; C.bvVal=sbv; wmemo=sm; witnessValid=sv; }
  else writeCand(lab,detail+(witnessValid?"":" (witness not confirmed)")); }
// check a boolean claim under the path condition
static bool check(N c,const std::string&lab,bool report=true){
  SH->checks++; LabelStat dummy; auto&L=report?label(lab):dummy;
  auto kn=known.find(c); if(c==C.T||(kn!=known.end()&&kn->second)){ L.nfProved++; return true; }
  const sym::Node nd=C.n(c); bool nfTrue=false;
  if(nd.op==sym::O_LT||nd.op==sym::O_LE||nd.op==sym::O_EQ){ int s=C.signKnown(C.sub(nd.a[1],nd.a[0])); if(nd.op==sym::O_LT&&s==1) nfTrue=true; if(nd.op==sym::O_LE&&(s==1||s==0||s==3)) nfTrue=true; if(nd.op==sym::O_EQ&&s==0) nfTrue=true; }
  if(nfTrue){ // hand the reduced query to the solver for its verdict
    SH->queries++; if(!C.zc) C.zc=new z3::context(); N red=normCmp(c); double t0=now(); z3::solver s(*C.zc); bool ok=true; if(nd.op==sym::O_EQ){ s.add(!C.toZ3(red)); ok=s.check()==z3::unsat; } SH->qMicros+=(uint64_t)((now()-t0)*1e6); if(ok){ SH->qUnsat++; L.nfProved++; return true; } SH->qSat++; }
  int w=witnessEval(c); if(w!=0&&iv::holds(c)){ SH->ivProved++; L.z3Proved++; return true; } QRes q; q.r=-1; if(!(w==0&&!report)) q=solve({C.notN(c)},w==0?std::min(queryTimeout,3.0):-1);
  if(q.r==0){ L.z3Proved++; return true; }
  if(!report) return false;
  std::string d=C.show(c,3).substr(0,200); if(nd.op==sym::O_EQ){ auto r=C.tryNf(C.sub(nd.a[1],nd.a[0])); if(r) d+=" residual "+C.polyStr(r->num).substr(0,240); }
  if(q.r==1||w==0){ L.failed++; if(verbose) fprintf(stderr,"[FAIL] %s %s\n",lab.c_str(),d.c_str()); if(w==0) candidate(lab,d,nullptr); if(q.r==1) candidate(lab,d,&q); }
  else { L.unknown++; if(verbose) fprintf(stderr,"[UNKNOWN] %s %s\n",lab.c_str(),d.c_str()); candidate(lab,"undecided "+d,nullptr); }
  return false; }

// ------------------------------------------------------------------ fp operations
// Known values: a result that provably equals a value the harness announced is represented by that value's expression (keeps normal forms small)
static std::vector<N> hints;
static bool nearD(double x,double y){ return std::isfinite(x)&&std::fabs(x-y)<=1e-9*(std::fabs(x)+std::fabs(y)); }
static N canonN(N r){ if(hints.empty()||C.isConst(r)) return r; double v=C.evalD(r,wmemo); for(N h:hints){ if(h==r) return r; double w=C.evalD(h,wmemo); if(nearD(v,w)&&C.isZero(C.sub(r,h))) return h; if(nearD(v,-w)&&C.isZero(C.add(r,h))) return C.neg(h); } return r; }
static uint64_t canon(N r){ return fromNode(canonN(r)); }
static uint64_t fpAdd(uint64_t a,uint64_t b){ if(!boxed(a)&&!boxed(b)){ double x=D(a),y=D(b),s=x+y; if(approxMode||!std::isfinite(s)) return Bd(s); double bb=s-x, err=(x-(s-bb))+(y-bb); if(err==0) return Bd(s); } else { if(!boxed(a)&&!std::isfinite(D(a))) return a; if(!boxed(b)&&!std::isfinite(D(b))) return b; } return canon(C.add(toNode(a),toNode(b))); }
static uint64_t fpNeg(uint64_t a){ if(!boxed(a)) return Bd(-D(a)); return fromNode(C.neg(toNode(a))); }
static uint64_t fpSub(uint64_t a,uint64_t b){ if(!boxed(a)&&!boxed(b)) return fpAdd(a,Bd(-D(b))); if(!boxed(b)) return fpAdd(a,Bd(-D(b))); if(!boxed(a)&&!std::isfinite(D(a))) return a; return canon(C.sub(toNode(a),toNode(b))); }
static uint64_t fpInfScale(double inf,N s){ if(std::isnan(inf)) return Bd(inf); if(decide(C.eq(s,C.cst(0)))) return Bd(NAN); return Bd(decide(C.lt(s,C.cst(0)))?-inf:inf); }
static uint64_t fpMul(uint64_t a,uint64_t b){ if(!boxed(a)&&!boxed(b)){ double x=D(a),y=D(b),p=x*y; if(approxMode||!std::isfinite(p)||p==0) return Bd(p); if(std::fma(x,y,-p)==0&&std::fabs(p)>1e-290) return Bd(p); } else { if(!boxed(a)&&!std::isfinite(D(a))) return fpInfScale(D(a),toNode(b)); if(!boxed(b)&&!std::isfinite(D(b))) return fpInfScale(D(b),toNode(a)); } return canon(C.mul(toNode(a),toNode(b))); }
static uint64_t fpDiv(uint64_t a,uint64_t b){
  if(!boxed(a)&&!boxed(b)){ double x=D(a),y=D(b),q=x/y; if(approxMode||!std::isfinite(q)||q==0) return Bd(q); if(std::fma(q,y,-x)==0&&std::fabs(x)>1e-290) return Bd(q); return fromNode(C.div(toNode(a),toNode(b))); }
  if(!boxed(a)&&!std::isfinite(D(a))) return fpInfScale(D(a),toNode(b)); if(!boxed(b)){ if(std::isinf(D(b))) return Bd(0); if(std::isnan(D(b))) return b; }
  N d=toNode(b); 
  auto byZero=[&]()->uint64_t{ if(!boxed(a)) return Bd(D(a)/0.0); N x=toNode(a); if(C.isZero(x)) return Bd(NAN); int s=C.signKnown(x); if(s==0) return Bd(NAN); if(decide(C.eq(x,C.cst(0)))) return Bd(NAN); return Bd(decide(C.lt(x,C.cst(0)))?-INFINITY:INFINITY); };
  mpq_class q; if(C.isConst(d,&q)){ if(sgn(q)==0) return byZero(); return fromNode(C.div(toNode(a),d)); }
  int s=C.signKnown(d); if(s==0) return byZero();
  if(s!=1&&s!=-1){ N z=C.eq(d,C.cst(0)); auto k=known.find(z); if(k!=known.end()){ if(k->second) return byZero(); } 
    else if(divFork){ if(decide(z)) return byZero(); } else { SH->divAssume++; N nz=C.notN(z); addPc(nz); if(witnessValid){ double v=C.evalD(d,wmemo); if(!(std::fabs(v)>1e-13)) witnessValid=false; } } }
  return canon(C.div(toNode(a),d)); }
static bool zeroTol=false;
static Val fpCmp(unsigned pred,uint64_t a,uint64_t b){ // llvm FCmpInst::Predicate
  if(!boxed(a)&&!boxed(b)){ double x=D(a),y=D(b); bool un=std::isnan(x)||std::isnan(y); bool r=false; bool e=!un&&x==y,g=!un&&x>y,l=!un&&x<y; if((pred&1)&&e) r=true; if((pred&2)&&g) r=true; if((pred&4)&&l) r=true; if((pred&8)&&un) r=true; return {r,0}; }
  if((!boxed(a)&&!std::isfinite(D(a)))||(!boxed(b)&&!std::isfinite(D(b)))){ double x=boxed(a)?0:D(a),y=boxed(b)?0:D(b); return fpCmp(pred,Bd(x),Bd(y)); }
  N x=toNode(a),y=toNode(b); N r; mpq_class tc;
  if(zeroTol){ bool swapped=false; unsigned p2=pred&7; N X=x,Y=y; if(C.isConst(X)&&!C.isConst(Y)){ std::swap(X,Y); swapped=true; p2=(p2&1)|((p2&2)?4:0)|((p2&4)?2:0); } (void)swapped;
    if(!C.isConst(X)&&C.isConst(Y,&tc)&&sgn(tc)!=0&&abs(tc)<=mpq_class(1,1000000000)){ bool pos=sgn(tc)>0; N z=C.cst(0); N q=0; bool ok=true; // a tiny threshold reads as an exact test against zero
      if(p2==4||p2==5) q=pos?C.le(X,z):C.lt(X,z); else if(p2==2||p2==3) q=pos?C.lt(z,X):C.le(z,X); else ok=false;
      if(ok){ if(q==C.T) return {1,0}; if(q==C.F) return {0,0}; return {0,q}; } } }
  switch(pred&7){ case 0: r=C.F;break; case 1: r=C.eq(x,y);break; case 2: r=C.lt(y,x);break; case 3: r=C.le(y,x);break; case 4: r=C.lt(x,y);break; case 5: r=C.le(x,y);break; case 6: r=C.notN(C.eq(x,y));break; default: r=C.T; }
  if(r==C.T) return {1,0}; if(r==C.F) return {0,0}; return {0,r}; }
static uint64_t fpSqrt(uint64_t a){ if(!boxed(a)){ double x=D(a); double r=std::sqrt(x); if(approxMode||!std::isfinite(r)||r==0||(r*r==x&&std::fma(r,r,-x)==0)) return Bd(r); if(x<0) return Bd(NAN); return fromNode(C.sqrtN(toNode(a))); }
  N x=toNode(a); mpq_class q; if(!hints.empty()&&!C.isConst(x)){ double v=C.evalD(x,wmemo); for(N h:hints){ double w=C.evalD(h,wmemo); if(nearD(v,w*w)&&C.isZero(C.sub(x,C.mul(h,h)))) return fromNode(C.absN(h)); } }
  if(C.isConst(x,&q)&&sgn(q)<0) return Bd(NAN); int s=C.signKnown(x); if(s==-1) return Bd(NAN);
  if(s==2||s==-3){ if(decide(C.lt(x,C.cst(0)))) return Bd(NAN); }
  return fromNode(C.sqrtN(x)); }
static uint64_t fpAbs(uint64_t a){ if(!boxed(a)) return Bd(std::fabs(D(a))); return fromNode(C.absN(toNode(a))); }
static uint64_t fpFun(const char*f,uint64_t a,double(*native)(double)){ if(!boxed(a)){ double v=native(D(a)); return !approxMode&&(!strcmp(f,"cos")||!strcmp(f,"sin"))?ideal(v):Bd(v); } N x=toNode(a); mpq_class q; if(C.isConst(x,&q)&&strcmp(f,"floor")&&strcmp(f,"ceil")){ double v=native(q.get_d()); return !approxMode&&(!strcmp(f,"cos")||!strcmp(f,"sin"))?ideal(v):Bd(v); } 
  if(C.isConst(x,&q)){ mpz_class z; if(!strcmp(f,"floor")) mpz_fdiv_q(z.get_mpz_t(),q.get_num_mpz_t(),q.get_den_mpz_t()); else mpz_cdiv_q(z.get_mpz_t(),q.get_num_mpz_t(),q.get_den_mpz_t()); return fromNode(C.cst(mpq_class(z))); }
  if(!strcmp(f,"acos")){ if(decide(C.lt(C.cst(1),C.mul(x,x)))) return Bd(NAN); }
  if((!strcmp(f,"cos")||!strcmp(f,"sin"))&&!hints.empty()){ // cos(acos(u)/3) is the root of 4c^3-3c=u in [1/2,1]: a hinted value that provably is that root stands for it
    { int k=C.scaledAtom(x,mpq_class(1,3)); if(k>=0&&C.atoms[k].fun=="acos"){ N u=C.atoms[k].args[0]; double v=C.evalD(x,wmemo); v=std::cos(v);
      for(N h:hints){ double w=C.evalD(h,wmemo); if(!nearD(v,w)) continue; N id=C.sub(C.sub(C.mul(C.cst(4),C.mul(h,C.mul(h,h))),C.mul(C.cst(3),h)),u); if(!C.isZero(id)) continue; if(decide(C.lt(h,C.cst(mpq_class(1,2))))||decide(C.lt(C.cst(1),h))) continue; if(f[0]=='s') return fpSqrt(fromNode(C.sub(C.cst(1),C.mul(h,h)))); return fromNode(h); } } } }
  return fromNode(C.fun(f,{x})); }
static uint64_t fpPow(uint64_t a,uint64_t b){ if(!boxed(a)&&!boxed(b)) { double y=D(b); if(y==(int)y&&std::fabs(y)<=32){ uint64_t r=Bd(1); for(int i=0;i<std::abs((int)y);i++) r=fpMul(r,a); return y<0?fpDiv(Bd(1),r):r; } return Bd(pow(D(a),D(b))); }
  if(!boxed(b)&&D(b)==(int)D(b)&&std::fabs(D(b))<=64){ int e=(int)D(b); uint64_t r=Bd(1); for(int i=0;i<std::abs(e);i++) r=fpMul(r,a); return e<0?fpDiv(Bd(1),r):r; }
  mpq_class e; N y=toNode(b); if(C.isConst(y,&e)){ N x=toNode(a); mpq_class q; if(C.isConst(x,&q)) return Bd(pow(q.get_d(),e.get_d()));
    if(e.get_den()==2){ uint64_t s=fpSqrt(a); return fpPow(s,Bd(mpz_class(e.get_num()).get_d())); }
    if(e.get_den()==3||e.get_den()==6){ // real cube root of a nonnegative number: algebraic atom w^3 = x
      if(decide(C.lt(x,C.cst(0)))) return Bd(NAN); N arg=x; if(e.get_den()==6) arg=toNode(fpSqrt(a)); { double v=C.evalD(arg,wmemo); for(N h:hints){ double w=C.evalD(h,wmemo); if(nearD(v,w*w*w)&&C.isZero(C.sub(arg,C.mul(h,C.mul(h,h))))) return fpPow(fromNode(h),Bd(mpz_class(e.get_num()).get_d())); } } sym::RatP r=C.tryNf(arg);
      if(r&&!r->num.empty()&&r->den.empty()&&r->num.size()<200){ sym::Poly c1; if(sym::pCbrt(r->num,c1)) return fpPow(fromNode(C.fromPoly(c1)),Bd(mpz_class(e.get_num()).get_d())); sym::RatP sq=C.tryNf(C.mul(arg,arg)); if(sq&&sq->den.empty()&&sym::pCbrt(sq->num,c1)) return fpPow(fpSqrt(fromNode(C.fromPoly(c1))),Bd(mpz_class(e.get_num()).get_d())); }
      std::string key="cbrt:"+(r?C.polyStr(r->num)+std::to_string(r->den.size())+C.show(C.fromRat(r),40):C.show(arg,40)); 
      N w; 
      if(r&&!r->num.empty()){ bool isone=false; mpq_class qq; N rr=C.fromRat(r); 
        auto it=C.atomKey.find(key); if(it!=C.atomKey.end()) w=it->second; else { w=C.newAlgebraic("cbrt",{arg,C.cst(0),C.cst(0)}); C.atomKey[key]=w; C.axioms.push_back(C.le(C.cst(0),w)); C.atoms[C.atomOf[w]].hasB=true; C.atoms[C.atomOf[w]].lo=0; C.atoms[C.atomOf[w]].hi=1e300; double v=C.evalD(arg,wmemo); if(std::isfinite(v)){ C.vars[C.varOf[w]].val=mpq_class(std::cbrt(v)); } else witnessValid=false; wmemo.erase(w); (void)isone;(void)qq;(void)rr; } }
      else if(r) return Bd(0); else unsupported("pow 1/3 over budget");
      return fpPow(TAG|w,Bd(mpz_class(e.get_num()).get_d())); } }
  return fromNode(C.fun("pow",{toNode(a),toNode(b)})); }

// ------------------------------------------------------------------ module loading
static LLVMContext LC; static std::unique_ptr<Module> M; static const DataLayout*DL;
struct Leaf { uint32_t off; uint8_t size; uint8_t kind; /*0 int 1 ptr 2 double 3 float*/ uint16_t bits; };
static std::unordered_map<Type*,std::vector<Leaf>> leafCache;
static const std::vector<Leaf>&leaves(Type*t){
  auto it=leafCache.find(t); if(it!=leafCache.end()) return it->second; std::vector<Leaf> v;
  if(t->isIntegerTy()){ unsigned b=t->getIntegerBitWidth(); v.push_back({0,(uint8_t)((b+7)/8),0,(uint16_t)b}); }
  else if(t->isPointerTy()) v.push_back({0,8,1,64}); else if(t->isDoubleTy()) v.push_back({0,8,2,64}); else if(t->isFloatTy()) v.push_back({0,4,3,32});
  else if(auto*s=dyn_cast<StructType>(t)){ auto*sl=DL->getStructLayout(s); for(unsigned i=0;i<s->getNumElements();i++) for(auto l:leaves(s->getElementType(i))){ l.off+=sl->getElementOffset(i); v.push_back(l);} }
  else if(auto*a=dyn_cast<ArrayType>(t)){ uint64_t sz=DL->getTypeAllocSize(a->getElementType()); for(uint64_t i=0;i<a->getNumElements();i++) for(auto l:leaves(a->getElementType())){ l.off+=i*sz; v.push_back(l);} }
  else if(auto*a=dyn_cast<FixedVectorType>(t)){ uint64_t sz=DL->getTypeStoreSize(a->getElementType()); for(uint64_t i=0;i<a->getNumElements();i++) for(auto l:leaves(a->getElementType())){ l.off+=i*sz; v.push_back(l);} }
  return leafCache[t]=v; }
struct Inst { const Instruction*I; uint16_t op; int dst; int nleaf; std::vector<int> ops; std::vector<int64_t> imm; Type*ty; struct Fn*callee=nullptr; };
struct Block { int start,end; std::vector<int> phiDst; std::vector<int> phiN; std::unordered_map<int,std::vector<int>> phiSrc; };
typedef bool (*Handler)(struct Fn*,Val*args,int n,Val*ret,const CallBase*);
struct Fn { Function*F; std::string name, dem; bool decoded=false; int nslots=0; std::vector<Inst> code; std::vector<Block> blocks; std::vector<Val> pool; Handler handler=nullptr; bool looked=false; void*native=nullptr; uint64_t addr; std::vector<int> argSlot; std::vector<int> argLeaf; int hookId=-1; bool isRepo=false; uint64_t calls=0; };
static std::unordered_map<const Function*,Fn*> fns; static std::unordered_map<uint64_t,Fn*> fnByAddr; static std::unordered_map<const GlobalVariable*,uint64_t> gAddr;
static char fnArea[1]; static uint64_t fnNext;
static Fn*getFn(const Function*f){ auto it=fns.find(f); if(it!=fns.end()) return it->second; Fn*r=new Fn; r->F=const_cast<Function*>(f); r->name=f->getName().str(); r->dem=llvm::demangle(r->name); r->isRepo=r->dem.compare(0,8,"opengv::")==0; r->addr=fnNext; fnNext+=16; fns[f]=r; fnByAddr[r->addr]=r; return r; }
static void noteFunctions(){ FILE*o=nullptr; for(auto&e:fns) if(e.second->isRepo&&e.second->calls){ size_t h=std::hash<std::string>()(e.second->name)&0xffff; if(SH->fnSeen[h]) continue; SH->fnSeen[h]=1; if(!o) o=fopen((outDir+"/functions.txt").c_str(),"a"); if(o) fprintf(o,"%s\n",e.second->dem.c_str()); } if(o) fclose(o); }
static uint64_t constAddr(const Constant*c);
static void constLeaves(const Constant*c,std::vector<Val>&out);
static uint64_t globalAddr(const GlobalVariable*g){ auto it=gAddr.find(g); if(it!=gAddr.end()) return it->second;
  if(g->isDeclaration()){ void*p=dlsym(RTLD_DEFAULT,g->getName().str().c_str()); if(!p) p=calloc(1,256); return gAddr[g]=(uint64_t)p; }
  uint64_t sz=DL->getTypeAllocSize(g->getValueType()); void*p=aligned_alloc(64,(sz+64+63)/64*64); memset(p,0,sz); return gAddr[g]=(uint64_t)p; }
static uint64_t constAddr(const Constant*c){
  if(auto*g=dyn_cast<GlobalVariable>(c)) return globalAddr(g); if(auto*f=dyn_cast<Function>(c)) return getFn(f)->addr; if(auto*a=dyn_cast<GlobalAlias>(c)) return constAddr(a->getAliasee()); if(isa<ConstantPointerNull>(c)||isa<UndefValue>(c)) return 0;
  if(auto*e=dyn_cast<ConstantExpr>(c)){ if(e->getOpcode()==Instruction::GetElementPtr){ auto*g=cast<GEPOperator>(e); APInt off(64,0); if(!g->accumulateConstantOffset(*DL,off)) unsupported("const gep"); return constAddr(cast<Constant>(g->getPointerOperand()))+off.getSExtValue(); } if(e->getOpcode()==Instruction::IntToPtr||e->getOpcode()==Instruction::PtrToInt||e->getOpcode()==Instruction::BitCast||e->getOpcode()==Instruction::AddrSpaceCast) return constAddr(e->getOperand(0)); 
    auto rd=[&](const Constant*k)->uint64_t{ std::vector<Val> v; constLeaves(k,v); return v[0].b; }; uint64_t x=rd(e->getOperand(0)); if(e->getNumOperands()==2){ uint64_t y=rd(e->getOperand(1)); switch(e->getOpcode()){case Instruction::Add:return x+y;case Instruction::Sub:return x-y;default:break;} } if(e->getOpcode()==Instruction::Trunc) return x; }
  if(auto*i=dyn_cast<ConstantInt>(c)) return i->getZExtValue();
  unsupported("constant expression"); }
static void constLeaves(const Constant*c,std::vector<Val>&out){
  Type*t=c->getType();
  if(isa<UndefValue>(c)||isa<ConstantAggregateZero>(c)){ for(size_t i=0;i<leaves(t).size();i++) out.push_back({0,0}); return; }
  if(auto*i=dyn_cast<ConstantInt>(c)){ out.push_back({i->getBitWidth()<=64?i->getZExtValue():i->getValue().trunc(64).getZExtValue(),0}); return; }
  if(auto*f=dyn_cast<ConstantFP>(c)){ if(t->isDoubleTy()) out.push_back({ideal(f->getValueAPF().convertToDouble()),0}); else out.push_back({f->getValueAPF().bitcastToAPInt().getLimitedValue(),0}); return; }
  if(t->isPointerTy()||isa<ConstantExpr>(c)){ out.push_back({constAddr(c),0}); return; }
  if(auto*s=dyn_cast<ConstantDataSequential>(c)){ for(unsigned i=0;i<s->getNumElements();i++) constLeaves(s->getElementAsConstant(i),out); return; }
  for(unsigned i=0;i<c->getNumOperands();i++) constLeaves(cast<Constant>(c->getOperand(i)),out); }
static void initMem(const Constant*c,uint64_t p){ std::vector<Val> v; constLeaves(c,v); const auto&l=leaves(c->getType()); for(size_t i=0;i<l.size();i++) memcpy((void*)(p+l[i].off),&v[i].b,l[i].size); }

static void decode(Fn*f){
  f->decoded=true; std::unordered_map<const Value*,int> slot; int ns=0; Function*F=f->F;
  for(auto&a:F->args()){ slot[&a]=ns; int k=leaves(a.getType()).size(); f->argSlot.push_back(ns); f->argLeaf.push_back(k); ns+=k; }
  std::unordered_map<const BasicBlock*,int> bi; int nb=0; for(auto&b:*F){ bi[&b]=nb++; for(auto&i:b) if(!i.getType()->isVoidTy()){ slot[&i]=ns; ns+=std::max<size_t>(1,leaves(i.getType()).size()); } }
  f->nslots=ns; std::unordered_map<const Constant*,int> cpool;
  auto opnd=[&](const Value*v)->int{ auto it=slot.find(v); if(it!=slot.end()) return it->second; if(auto*c=dyn_cast<Constant>(v)){ auto jt=cpool.find(c); if(jt!=cpool.end()) return jt->second; int idx=f->pool.size(); std::vector<Val> o; constLeaves(c,o); if(o.empty()) o.push_back({0,0}); for(auto&x:o) f->pool.push_back(x); return cpool[c]=~idx; } int idx=f->pool.size(); f->pool.push_back({0,0}); return ~idx; };
  for(auto&b:*F){ Block B; B.start=f->code.size(); std::vector<const PHINode*> phis; for(auto&ph:b.phis()) phis.push_back(&ph);
    for(auto*ph:phis){ B.phiDst.push_back(slot[ph]); B.phiN.push_back(leaves(ph->getType()).size()); for(unsigned i=0;i<ph->getNumIncomingValues();i++){ auto&src=B.phiSrc[bi[ph->getIncomingBlock(i)]]; if(src.size()<B.phiDst.size()) src.push_back(opnd(ph->getIncomingValue(i))); } }
    for(auto&i:b){ if(isa<PHINode>(i)) continue; if(isa<DbgInfoIntrinsic>(i)) continue; Inst I; I.I=&i; I.op=i.getOpcode(); I.ty=i.getType(); I.dst=i.getType()->isVoidTy()?-1:slot[&i]; I.nleaf=i.getType()->isVoidTy()?0:leaves(i.getType()).size();
      if(auto*c=dyn_cast<CallBase>(&i)){ for(auto&a:c->args()) I.ops.push_back(a->getType()->isMetadataTy()?opnd(ConstantInt::get(Type::getInt32Ty(LC),0)):opnd(a)); I.ops.push_back(opnd(c->getCalledOperand())); if(auto*cf=dyn_cast<Function>(c->getCalledOperand()->stripPointerCasts())) I.callee=getFn(cf); if(auto*iv=dyn_cast<InvokeInst>(c)) I.imm={bi[iv->getNormalDest()]}; }
      else if(auto*br=dyn_cast<BranchInst>(&i)){ if(br->isConditional()){ I.ops={opnd(br->getCondition())}; I.imm={bi[br->getSuccessor(0)],bi[br->getSuccessor(1)]}; } else I.imm={bi[br->getSuccessor(0)]}; }
      else if(auto*sw=dyn_cast<SwitchInst>(&i)){ I.ops={opnd(sw->getCondition())}; I.imm.push_back(bi[sw->getDefaultDest()]); for(auto&cs:sw->cases()){ I.imm.push_back(cs.getCaseValue()->getZExtValue()); I.imm.push_back(bi[cs.getCaseSuccessor()]); } }
      else if(auto*g=dyn_cast<GetElementPtrInst>(&i)){ int64_t off=0; I.ops.push_back(opnd(g->getPointerOperand())); I.imm.push_back(0); for(auto it=gep_type_begin(g),e=gep_type_end(g);it!=e;++it){ Value*ix=it.getOperand(); if(auto*st=it.getStructTypeOrNull()) off+=DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); else { uint64_t sz=DL->getTypeAllocSize(it.getIndexedType()); if(auto*ci=dyn_cast<ConstantInt>(ix)) off+=ci->getSExtValue()*(int64_t)sz; else { I.ops.push_back(opnd(ix)); I.imm.push_back(sz); I.imm.push_back(ix->getType()->getIntegerBitWidth()); } } } I.imm[0]=off; }
      else if(auto*ev=dyn_cast<ExtractValueInst>(&i)){ I.ops={opnd(ev->getAggregateOperand())}; Type*t=ev->getAggregateOperand()->getType(); int o=0; for(unsigned ix:ev->indices()){ if(auto*st=dyn_cast<StructType>(t)){ for(unsigned k=0;k<ix;k++) o+=leaves(st->getElementType(k)).size(); t=st->getElementType(ix);} else { Type*et=t->getArrayElementType(); o+=ix*leaves(et).size(); t=et; } } I.imm={o}; }
      else if(auto*iv=dyn_cast<InsertValueInst>(&i)){ I.ops={opnd(iv->getAggregateOperand()),opnd(iv->getInsertedValueOperand())}; Type*t=i.getType(); int o=0; for(unsigned ix:iv->indices()){ if(auto*st=dyn_cast<StructType>(t)){ for(unsigned k=0;k<ix;k++) o+=leaves(st->getElementType(k)).size(); t=st->getElementType(ix);} else { Type*et=t->getArrayElementType(); o+=ix*leaves(et).size(); t=et; } } I.imm={o,(int64_t)leaves(iv->getInsertedValueOperand()->getType()).size()}; }
      else if(auto*cm=dyn_cast<CmpInst>(&i)){ I.ops={opnd(cm->getOperand(0)),opnd(cm->getOperand(1))}; Type*t=cm->getOperand(0)->getType()->getScalarType(); I.imm={(int64_t)cm->getPredicate(),t->isIntegerTy()?(int64_t)t->getIntegerBitWidth():64}; }
      else if(auto*al=dyn_cast<AllocaInst>(&i)){ I.ops={opnd(al->getArraySize())}; I.imm={(int64_t)DL->getTypeAllocSize(al->getAllocatedType()).getFixedValue(),(int64_t)al->getAlign().value()}; }
      else if(auto*st=dyn_cast<StoreInst>(&i)){ I.ops={opnd(st->getValueOperand()),opnd(st->getPointerOperand())}; I.ty=st->getValueOperand()->getType(); }
      else if(auto*sv=dyn_cast<ShuffleVectorInst>(&i)){ I.ops={opnd(sv->getOperand(0)),opnd(sv->getOperand(1))}; I.imm.push_back(leaves(sv->getOperand(0)->getType()).size()); for(int m:sv->getShuffleMask()) I.imm.push_back(m); }
      else { for(auto&o:i.operands()) I.ops.push_back(opnd(o)); if(i.getNumOperands()&&i.getOperand(0)->getType()->isSingleValueType()){ Type*t=i.getOperand(0)->getType()->getScalarType(); I.imm={t->isIntegerTy()?(int64_t)t->getIntegerBitWidth():64}; } }
      f->code.push_back(std::move(I)); }
    B.end=f->code.size(); f->blocks.push_back(std::move(B)); } }

// ------------------------------------------------------------------ execution
static char*stackBase,*stackPtr,*stackEnd; static uint64_t steps=0;
static std::unordered_map<uint64_t,std::pair<N,uint16_t>> shadow; // symbolic integers in memory
static inline uint64_t mk(uint64_t v,unsigned w){ return w>=64?v:v&((1ull<<w)-1); }
static inline int64_t sx(uint64_t v,unsigned w){ if(w>=64) return v; return (int64_t)(v<<(64-w))>>(64-w); }
static inline uint64_t mk(uint64_t v,unsigned w);
static uint64_t concretize(N s,unsigned w,const char*why){ // enumerate feasible values, forking
  if(C.n(s).sort==sym::BOOL) return decide(s);
  { N b=s; bool sg=false; while(C.n(b).op==sym::O_BVOP&&C.n(b).k>=20&&C.n(b).k<=22){ if(C.n(b).k==21) sg=true; b=C.n(b).a[0]; } if(C.n(b).op==sym::O_ITE){ bool t=decide(C.n(b).a[0]); if(!t) return 0; if(sg&&C.n(b).width==1) return mk(~0ull,w); return 1; } }
  uint64_t c; if(C.isBvConst(s,&c)) return c; static std::unordered_map<N,uint64_t> done; auto it=done.find(s); if(it!=done.end()) return it->second;
  for(int guard=0;guard<4096;guard++){ // pick a feasible value from the solver, fork on equality
    double v=NAN; { int r=-1; for(int k=0;k<64;k++){ r=C.evalB(C.bvcmp(32,s,C.bvc(k,w)),wmemo); if(witnessValid&&r==1){ v=k; break; } } }
    if(!(v==v)){ QRes q=solve({}); // model to get a value: introduce fresh equality variable
      N k=C.bvvar("bvq",w); q=solve({C.bvcmp(32,k,s)}); if(q.r!=1){ if(q.r==0){SH->infeasible++; endPath("infeasible concretize");} unsupported(std::string("cannot enumerate symbolic integer for ")+why); } v=(double)strtoull(q.model[C.names[C.n(k).k]].c_str(),0,10); }
    N e=C.bvcmp(32,s,C.bvc((uint64_t)v,w)); if(decide(e)){ done[s]=(uint64_t)v; return (uint64_t)v; } }
  unsupported("concretize loop"); }
static inline uint64_t conc(const Val&v,unsigned w,const char*why){ if(!v.s) return v.b; return concretize(v.s,w,why); }
static bool boolOf(const Val&v){ if(!v.s) return v.b&1; if(C.n(v.s).sort==sym::BV) return concretize(v.s,1,"branch")&1; return decide(v.s); }
static inline bool shadowOverlap(uint64_t a,uint64_t n){ for(uint64_t x=a>=7?a-7:0;x<a+n;x++){ auto it=shadow.find(x); if(it!=shadow.end()&&x+(it->second.second+7)/8>a) return true; } return false; }
static void shadowClear(uint64_t a,uint64_t n){ if(shadow.empty()) return; if(n>4096){ for(auto it=shadow.begin();it!=shadow.end();) if(it->first+8>a&&it->first<a+n) it=shadow.erase(it); else ++it; return; } for(uint64_t x=a>=7?a-7:0;x<a+n;x++){ auto it=shadow.find(x); if(it!=shadow.end()&&x+(it->second.second+7)/8>a) shadow.erase(it); } }
static void memCopy(uint64_t d,uint64_t s,uint64_t n){ std::vector<std::pair<uint64_t,std::pair<N,uint16_t>>> mv; if(!shadow.empty()){ for(auto&e:shadow) if(e.first>=s&&e.first<s+n) mv.push_back(e); } memmove((void*)d,(void*)s,n); if(!shadow.empty()||!mv.empty()){ shadowClear(d,n); for(auto&e:mv) shadow[e.first-s+d]=e.second; } }
static inline void storeLeaf(uint64_t p,const Leaf&l,Val v){ if(p+l.off<4096) { SH->aborted++; msg("null pointer store in "+(callStack.empty()?"":callStack.back())); candidate("memory","null store",nullptr); label("memory").failed++; endPath("null store"); } if(!shadow.empty()) shadowClear(p+l.off,l.size); if(v.s){ shadow[p+l.off]={v.s,l.bits}; uint64_t z=0; memcpy((void*)(p+l.off),&z,l.size); } else memcpy((void*)(p+l.off),&v.b,l.size); }
static inline Val loadLeaf(uint64_t p,const Leaf&l){ uint64_t a=p+l.off; if(a<4096){ SH->aborted++; msg("null pointer load in "+(callStack.empty()?"":callStack.back())); candidate("memory","null load",nullptr); label("memory").failed++; endPath("null load"); } if(!shadow.empty()){ auto it=shadow.find(a); if(it!=shadow.end()&&(it->second.second+7)/8==l.size){ N s=it->second.first; if(C.n(s).sort==sym::BV&&C.n(s).width>l.bits) s=C.bvcast(22,s,l.bits); else if(C.n(s).sort==sym::BV&&C.n(s).width<l.bits) s=C.bvcast(20,s,l.bits); else if(C.n(s).sort==sym::BOOL&&l.bits>1) s=C.mk(sym::O_ITE,sym::BV,l.bits,{s},0); return {0,s}; } if(shadowOverlap(a,l.size)) unsupported("partial load of symbolic integer"); } Val v{0,0}; memcpy(&v.b,(void*)a,l.size); if(l.bits<64) v.b=mk(v.b,l.bits); return v; }
static void call(Fn*f,Val*args,int nargs,Val*ret,const CallBase*cb);
static N asBV(const Val&v,unsigned w){ if(!v.s) return C.bvc(v.b,w); if(C.n(v.s).sort==sym::BOOL) return C.mk(sym::O_ITE,sym::BV,w,{v.s},0); return v.s; }
static N asBool(const Val&v){ if(!v.s) return (v.b&1)?C.T:C.F; if(C.n(v.s).sort==sym::BOOL) return v.s; return C.bvcmp(33,v.s,C.bvc(0,C.n(v.s).width)); }
static Val wrap(N s){ uint64_t c; if(s==C.T) return {1,0}; if(s==C.F) return {0,0}; if(C.isBvConst(s,&c)) return {c,0}; return {0,s}; }
static Val icmp(int p,const Val&a,const Val&b,unsigned w){
  if(!a.s&&!b.s){ uint64_t x=mk(a.b,w),y=mk(b.b,w); int64_t u=sx(x,w),v=sx(y,w); bool r=false; switch(p){case 32:r=x==y;break;case 33:r=x!=y;break;case 34:r=x>y;break;case 35:r=x>=y;break;case 36:r=x<y;break;case 37:r=x<=y;break;case 38:r=u>v;break;case 39:r=u>=v;break;case 40:r=u<v;break;case 41:r=u<=v;break;} return {r,0}; }
  if(w==1){ N x=asBool(a),y=asBool(b); if(p==32) return wrap(C.notN(C.xorN(x,y))); if(p==33) return wrap(C.xorN(x,y)); return icmp(p,{conc(a,1,"icmp"),0},{conc(b,1,"icmp"),0},w); }
  auto ite=[&](const Val&s,const Val&k,bool&ok)->Val{ ok=false; if(s.s&&C.n(s.s).op==sym::O_ITE&&!k.s){ Val t=icmp(p,{1,0},k,w),f=icmp(p,{0,0},k,w); ok=true; N c=C.n(s.s).a[0]; if(t.b==f.b) return t; return wrap(t.b?c:C.notN(c)); } return {0,0}; };
  bool ok; Val r=ite(a,b,ok); if(ok) return r; if(b.s&&C.n(b.s).op==sym::O_ITE&&!a.s){ static const int sw[]={32,33,36,37,34,35,40,41,38,39}; return icmp(sw[p-32],b,a,w); }
  return wrap(C.bvcmp(p,asBV(a,w),asBV(b,w))); }
static Val binop(unsigned op,Val a,Val b,unsigned w){
  if(a.s||b.s){ if(w==1){ N x=asBool(a),y=asBool(b); if(op==Instruction::And) return wrap(C.andN(x,y)); if(op==Instruction::Or) return wrap(C.orN(x,y)); if(op==Instruction::Xor) return wrap(C.xorN(x,y)); }
    int o=-1; switch(op){case Instruction::Add:o=0;break;case Instruction::Sub:o=1;break;case Instruction::Mul:o=2;break;case Instruction::UDiv:o=3;break;case Instruction::SDiv:o=4;break;case Instruction::URem:o=5;break;case Instruction::SRem:o=6;break;case Instruction::And:o=7;break;case Instruction::Or:o=8;break;case Instruction::Xor:o=9;break;case Instruction::Shl:o=10;break;case Instruction::LShr:o=11;break;case Instruction::AShr:o=12;break;}
    if((a.s&&C.n(a.s).op==sym::O_ITE)||(b.s&&C.n(b.s).op==sym::O_ITE)){ a={conc(a,w,"ite"),0}; b={conc(b,w,"ite"),0}; return binop(op,a,b,w); }
    if(o>=3&&o<=6&&b.s) { if(decide(C.bvcmp(32,asBV(b,w),C.bvc(0,w)))){ label("memory").failed++; candidate("memory","integer division by zero",nullptr); endPath("div0"); } }
    if(op==Instruction::And&&!b.s&&w==64&&b.b==0x7fffffffffffffffull) unsupported("sign mask on symbolic int");
    return wrap(C.bvop(o,asBV(a,w),asBV(b,w))); }
  uint64_t x=mk(a.b,w),y=mk(b.b,w),r=0; int64_t u=sx(x,w),v=sx(y,w);
  switch(op){case Instruction::Add:r=x+y;break;case Instruction::Sub:r=x-y;break;case Instruction::Mul:r=x*y;break;
    case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: if(!y){ label("memory").failed++; candidate("memory","integer division by zero",nullptr); endPath("div0"); } r=op==Instruction::UDiv?x/y:op==Instruction::URem?x%y:op==Instruction::SDiv?(uint64_t)(v==-1?-u:u/v):(uint64_t)(v==-1?0:u%v); break;
    case Instruction::And: if(boxed(x)&&w==64){ if(y==0x7fffffffffffffffull) {return {fpAbs(x),0};} if(y==0x8000000000000000ull){ return {decide(C.lt(toNode(x),C.cst(0)))?y:0,0}; } } r=x&y;break;
    case Instruction::Or:r=x|y;break;case Instruction::Xor: if(boxed(x)&&w==64&&y==0x8000000000000000ull) return {fpNeg(x),0}; r=x^y;break;case Instruction::Shl:r=y<w?x<<y:0;break;case Instruction::LShr: r=y<w?x>>y:0;break;case Instruction::AShr:r=(uint64_t)(u>>(y<w?y:w-1));break;default: unsupported("binop"); }
  return {mk(r,w),0}; }
static uint64_t r2i(uint64_t b,unsigned w,Val&out){ // fptosi / fptoui
  if(!boxed(b)){ double d=D(b); out={mk((uint64_t)(int64_t)d,w),0}; if(d>9.2e18) out.b=(uint64_t)d; return 0; }
  N x=toNode(b); mpq_class q; if(C.isConst(x,&q)){ mpz_class z; mpz_tdiv_q(z.get_mpz_t(),q.get_num_mpz_t(),q.get_den_mpz_t()); out={mk((uint64_t)z.get_si(),w),0}; return 0; }
  const auto&nd=C.n(x); if(nd.op==sym::O_ATOM){ auto&at=C.atoms[C.atomOf[x]]; if(at.fun=="floor"){ int s=C.signKnown(at.args[0]); if(s==1||s==3||s==0) x=at.args[0]; } }
  out={0,C.mk(sym::O_R2I,sym::BV,w,{x},0)}; return 0; }
static Val i2r(const Val&v,unsigned w,bool sg){ if(!v.s){ double d=sg?(double)sx(v.b,w):(double)mk(v.b,w); return {Bd(d),0}; } N s=v.s; if(C.n(s).op==sym::O_ITE||C.n(s).sort==sym::BOOL) return {Bd((double)conc(v,w,"i2r")),0}; N b=s; while(C.n(b).op==sym::O_BVOP&&(C.n(b).k==20||C.n(b).k==21)) b=C.n(b).a[0]; if(C.n(b).op==sym::O_R2I){ N r=C.n(b).a[0]; if(C.n(r).op==sym::O_VAR&&C.vars[C.varOf[r]].isInt) return {TAG|r,0}; } if(!sg) return {TAG|C.mk(sym::O_I2R,sym::REAL,0,{C.bvcast(20,s,w+1)},0),0}; return {TAG|C.mk(sym::O_I2R,sym::REAL,0,{s},0),0}; }

static void exec(Fn*f,Val*args,int nargs,Val*ret){
  if(!f->decoded) decode(f); std::vector<Val> regs(f->nslots?f->nslots:1,Val{0,0}); { int tot=0; for(int k:f->argLeaf) tot+=k; if(tot>nargs) unsupported("argument count "+std::to_string(tot)+">"+std::to_string(nargs)+" "+f->dem); for(int i=0;i<tot;i++) regs[i]=args[i]; }
  char*sp0=stackPtr; callStack.push_back(f->dem); f->calls++; if(callStack.size()>2000) unsupported("call depth");
  auto P=[&](int o)->Val*{ return o>=0?&regs[o]:&f->pool[~o]; };
  int bb=0,pi=f->blocks[0].start; uint64_t local=0;
  auto jump=[&](int to){ Block&B=f->blocks[to]; if(!B.phiDst.empty()){ auto&src=B.phiSrc[bb]; static thread_local std::vector<Val> tmp; tmp.clear(); for(size_t i=0;i<B.phiDst.size();i++){ Val*s=P(src[i]); for(int k=0;k<B.phiN[i];k++) tmp.push_back(s[k]); } size_t t=0; for(size_t i=0;i<B.phiDst.size();i++) for(int k=0;k<B.phiN[i];k++) regs[B.phiDst[i]+k]=tmp[t++]; } bb=to; pi=B.start; };
  for(;;){
    Inst&I=f->code[pi++]; if((++local&0xFFFF)==0){ steps+=0x10000; if(steps>maxSteps){ SH->truncated++; msg("step limit reached"); endPath("steps"); } checkDeadline(); }
    switch(I.op){
      case Instruction::Ret: { if(!I.ops.empty()&&ret){ Val*s=P(I.ops[0]); int n=leaves(I.I->getOperand(0)->getType()).size(); for(int k=0;k<n;k++) ret[k]=s[k]; } stackPtr=sp0; callStack.pop_back(); steps+=local&0xFFFF; return; }
      case Instruction::Br: if(I.ops.empty()) jump(I.imm[0]); else jump(boolOf(*P(I.ops[0]))?I.imm[0]:I.imm[1]); break;
      case Instruction::Switch: { Val v=*P(I.ops[0]); unsigned w=I.I->getOperand(0)->getType()->getIntegerBitWidth(); uint64_t x=conc(v,w,"switch"); int to=I.imm[0]; for(size_t i=1;i<I.imm.size();i+=2) if((uint64_t)I.imm[i]==mk(x,w)) to=I.imm[i+1]; jump(to); break; }
      case Instruction::FAdd: for(int k=0;k<I.nleaf;k++) regs[I.dst+k]={fpAdd(P(I.ops[0])[k].b,P(I.ops[1])[k].b),0}; break;
      case Instruction::FSub: for(int k=0;k<I.nleaf;k++) regs[I.dst+k]={fpSub(P(I.ops[0])[k].b,P(I.ops[1])[k].b),0}; break;
      case Instruction::FMul: for(int k=0;k<I.nleaf;k++) regs[I.dst+k]={fpMul(P(I.ops[0])[k].b,P(I.ops[1])[k].b),0}; break;
      case Instruction::FDiv: for(int k=0;k<I.nleaf;k++) regs[I.dst+k]={fpDiv(P(I.ops[0])[k].b,P(I.ops[1])[k].b),0}; break;
      case Instruction::FNeg: for(int k=0;k<I.nleaf;k++) regs[I.dst+k]={fpNeg(P(I.ops[0])[k].b),0}; break;
      case Instruction::FCmp: for(int k=0;k<I.nleaf;k++) regs[I.dst+k]=fpCmp(I.imm[0],P(I.ops[0])[k].b,P(I.ops[1])[k].b); break;
      case Instruction::ICmp: for(int k=0;k<I.nleaf;k++) regs[I.dst+k]=icmp(I.imm[0],P(I.ops[0])[k],P(I.ops[1])[k],I.imm[1]); break;
      case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
        if(I.imm[0]>64) unsupported("wide integer"); for(int k=0;k<I.nleaf;k++) regs[I.dst+k]=binop(I.op,P(I.ops[0])[k],P(I.ops[1])[k],I.imm[0]); break;
      case Instruction::Load: { uint64_t p=conc(*P(I.ops[0]),64,"load address"); const auto&l=leaves(I.ty); for(size_t k=0;k<l.size();k++) { if(l[k].size>8) unsupported("wide load"); regs[I.dst+k]=loadLeaf(p,l[k]); } break; }
      case Instruction::Store: { uint64_t p=conc(*P(I.ops[1]),64,"store address"); const auto&l=leaves(I.ty); Val*v=P(I.ops[0]); for(size_t k=0;k<l.size();k++) { if(l[k].size>8) unsupported("wide store"); storeLeaf(p,l[k],v[k]); } break; }
      case Instruction::GetElementPtr: { Val b=*P(I.ops[0]); uint64_t a=conc(b,64,"gep")+I.imm[0]; for(size_t k=1;k<I.ops.size();k++){ unsigned w=I.imm[2*k]; a+=(uint64_t)(sx(conc(*P(I.ops[k]),w,"array index"),w)*I.imm[2*k-1]); } regs[I.dst]={a,0}; break; }
      case Instruction::Alloca: { uint64_t n=I.imm[0]*P(I.ops[0])->b; uint64_t al=std::max<uint64_t>(16,I.imm[1]); uint64_t p=((uint64_t)stackPtr+al-1)/al*al; if(p+n>(uint64_t)stackEnd) unsupported("stack"); memset((void*)p,0,n); shadowClear(p,n); stackPtr=(char*)(p+n); regs[I.dst]={p,0}; break; }
      case Instruction::Select: { Val c=P(I.ops[0])[0]; bool vec=I.I->getOperand(0)->getType()->isVectorTy(); for(int k=0;k<I.nleaf;k++){ if(vec) c=P(I.ops[0])[k]; bool t;
          if(!c.s) t=c.b&1; else { Val x=P(I.ops[1])[k],y=P(I.ops[2])[k]; if(x.b==y.b&&x.s==y.s) { regs[I.dst+k]=x; continue; }
            if(I.ty->isIntegerTy(1)){ N cn=asBool(c),xn=asBool(x),yn=asBool(y); regs[I.dst+k]=wrap(C.orN(C.andN(cn,xn),C.andN(C.notN(cn),yn))); continue; } t=boolOf(c); }
          regs[I.dst+k]=P(I.ops[t?1:2])[k]; } break; }
      case Instruction::ZExt: { unsigned w=I.ty->getScalarType()->getIntegerBitWidth(); for(int k=0;k<I.nleaf;k++){ Val v=P(I.ops[0])[k]; if(v.s){ if(C.n(v.s).sort==sym::BOOL) v.s=C.mk(sym::O_ITE,sym::BV,w,{v.s},0); else if(C.n(v.s).op==sym::O_ITE) v.s=C.mk(sym::O_ITE,sym::BV,w,{C.n(v.s).a[0]},0); else v.s=C.bvcast(20,v.s,w); regs[I.dst+k]=v; } else regs[I.dst+k]={mk(v.b,I.imm[0]),0}; } break; }
      case Instruction::SExt: { unsigned w=I.ty->getScalarType()->getIntegerBitWidth(); for(int k=0;k<I.nleaf;k++){ Val v=P(I.ops[0])[k]; if(v.s){ if(C.n(v.s).sort==sym::BOOL||C.n(v.s).op==sym::O_ITE){ bool t=boolOf(v); regs[I.dst+k]={C.n(v.s).sort==sym::BOOL?(t?mk(~0ull,w):0):(uint64_t)t,0}; } else regs[I.dst+k]={0,C.bvcast(21,v.s,w)}; } else regs[I.dst+k]={mk((uint64_t)sx(v.b,I.imm[0]),w),0}; } break; }
      case Instruction::Trunc: { unsigned w=I.ty->getScalarType()->getIntegerBitWidth(); for(int k=0;k<I.nleaf;k++){ Val v=P(I.ops[0])[k]; if(v.s){ if(C.n(v.s).op==sym::O_ITE){ v.s=w==1?C.n(v.s).a[0]:C.mk(sym::O_ITE,sym::BV,w,{C.n(v.s).a[0]},0); regs[I.dst+k]=v; } else if(w==1) regs[I.dst+k]=wrap(C.bvcmp(33,C.bvop(7,v.s,C.bvc(1,C.n(v.s).width)),C.bvc(0,C.n(v.s).width))); else { N b=v.s; if(C.n(b).op==sym::O_R2I) regs[I.dst+k]={0,C.mk(sym::O_R2I,sym::BV,(uint16_t)w,{C.n(b).a[0]},0)}; else if(C.n(b).op==sym::O_BVOP&&(C.n(b).k==20||C.n(b).k==21)&&C.n(C.n(b).a[0]).width==w) regs[I.dst+k]=wrap(C.n(b).a[0]); else regs[I.dst+k]=wrap(C.bvcast(22,v.s,w)); } } else regs[I.dst+k]={mk(v.b,w),0}; } break; }
      case Instruction::SIToFP: case Instruction::UIToFP: for(int k=0;k<I.nleaf;k++){ Val v=i2r(P(I.ops[0])[k],I.imm[0],I.op==Instruction::SIToFP); if(I.ty->getScalarType()->isFloatTy()){ if(boxed(v.b)) unsupported("float"); float x=(float)D(v.b); uint32_t u; memcpy(&u,&x,4); v={u,0}; } regs[I.dst+k]=v; } break;
      case Instruction::FPToSI: case Instruction::FPToUI: { if(I.I->getOperand(0)->getType()->isFloatTy()){ float x; uint32_t u=P(I.ops[0])->b; memcpy(&x,&u,4); regs[I.dst]={mk((uint64_t)(int64_t)x,I.ty->getIntegerBitWidth()),0}; } else r2i(P(I.ops[0])->b,I.ty->getIntegerBitWidth(),regs[I.dst]); break; }
      case Instruction::FPExt: { if(I.I->getOperand(0)->getType()->isFloatTy()){ float x; uint32_t u=P(I.ops[0])->b; memcpy(&x,&u,4); regs[I.dst]={Bd(x),0}; } else unsupported("fpext"); break; }
      case Instruction::FPTrunc: { uint64_t b=P(I.ops[0])->b; if(boxed(b)) unsupported("fptrunc"); float x=(float)D(b); uint32_t u; memcpy(&u,&x,4); regs[I.dst]={u,0}; break; }
      case Instruction::BitCast: case Instruction::Freeze: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: { int n=leaves(I.I->getOperand(0)->getType()).size(); if(n!=I.nleaf) unsupported("bitcast"); for(int k=0;k<n;k++) regs[I.dst+k]=P(I.ops[0])[k]; break; }
      case Instruction::ExtractValue: { Val*s=P(I.ops[0])+I.imm[0]; for(int k=0;k<I.nleaf;k++) regs[I.dst+k]=s[k]; break; }
      case Instruction::InsertValue: { Val*a=P(I.ops[0]),*v=P(I.ops[1]); for(int k=0;k<I.nleaf;k++) regs[I.dst+k]=a[k]; for(int k=0;k<I.imm[1];k++) regs[I.dst+I.imm[0]+k]=v[k]; break; }
      case Instruction::ExtractElement: { Val*s=P(I.ops[0]); regs[I.dst]=s[P(I.ops[1])->b]; break; }
      case Instruction::InsertElement: { Val*a=P(I.ops[0]); Val v=*P(I.ops[1]); uint64_t ix=P(I.ops[2])->b; for(int k=0;k<I.nleaf;k++) regs[I.dst+k]=a[k]; regs[I.dst+ix]=v; break; }
      case Instruction::ShuffleVector: { int n=I.imm[0]; std::vector<Val> t; for(size_t k=1;k<I.imm.size();k++){ int m=I.imm[k]; t.push_back(m<0?Val{0,0}:m<n?P(I.ops[0])[m]:P(I.ops[1])[m-n]); } for(size_t k=0;k<t.size();k++) regs[I.dst+k]=t[k]; break; }
      case Instruction::Call: case Instruction::Invoke: { const CallBase*cb=cast<CallBase>(I.I); static const int MAXA=64; Val av[MAXA]; int na=0; size_t nops=I.ops.size()-1; for(size_t k=0;k<nops;k++){ Type*t=cb->getArgOperand(k)->getType(); int n=t->isMetadataTy()?1:leaves(t).size(); Val*s=P(I.ops[k]); for(int j=0;j<n&&na<MAXA;j++) av[na++]=s[j]; }
        Fn*cf=I.callee; if(!cf){ if(cb->isInlineAsm()) { break; } uint64_t a=conc(*P(I.ops.back()),64,"call"); auto it=fnByAddr.find(a); if(it==fnByAddr.end()) unsupported("indirect call target"); cf=it->second; }
        Val rv[32]; memset(rv,0,sizeof rv); call(cf,av,na,rv,cb); if(I.dst>=0) for(int k=0;k<I.nleaf;k++) regs[I.dst+k]=rv[k];
        if(I.op==Instruction::Invoke) jump(I.imm[0]); break; }
      case Instruction::AtomicRMW: { auto*rm=cast<AtomicRMWInst>(I.I); uint64_t p=P(I.ops[0])->b; const auto&l=leaves(I.ty); Val o=loadLeaf(p,l[0]); Val v=*P(I.ops[1]); Val n=o; switch(rm->getOperation()){case AtomicRMWInst::Add:n.b=o.b+v.b;break;case AtomicRMWInst::Sub:n.b=o.b-v.b;break;case AtomicRMWInst::Xchg:n=v;break;default:unsupported("atomicrmw");} storeLeaf(p,l[0],n); regs[I.dst]=o; break; }
      case Instruction::Unreachable: SH->exceptions++; msg("unreachable in "+f->dem); endPath("unreachable");
      case Instruction::Fence: break;
      default: unsupported(std::string("instruction ")+I.I->getOpcodeName());
    } } }
// ------------------------------------------------------------------ calls
static std::vector<std::pair<std::string,uint64_t>> hooks; // demangled prefix -> callback address
static std::vector<std::pair<std::string,uint64_t>> replacements; // demangled prefix -> callback with the same signature
static std::string cstr(uint64_t p){ return std::string((const char*)p); }
static std::map<std::string,std::function<void(Fn*,Val*,int,Val*,const CallBase*)>> H;
static std::vector<std::pair<std::string,std::string>> patterns; // demangled regex-free substring -> handler name
static N derivative(N x,N v,std::unordered_map<N,N>&memo){ auto it=memo.find(x); if(it!=memo.end()) return it->second; const sym::Node nd=C.n(x); N r; switch(nd.op){ case sym::O_CONST: r=C.cst(0);break; case sym::O_VAR: r=C.cst(x==v?1:0);break; case sym::O_ADD: r=C.add(derivative(nd.a[0],v,memo),derivative(nd.a[1],v,memo));break; case sym::O_MUL: r=C.add(C.mul(derivative(nd.a[0],v,memo),nd.a[1]),C.mul(nd.a[0],derivative(nd.a[1],v,memo)));break; case sym::O_DIV: { N da=derivative(nd.a[0],v,memo),db=derivative(nd.a[1],v,memo); r=C.div(C.sub(C.mul(da,nd.a[1]),C.mul(nd.a[0],db)),C.mul(nd.a[1],nd.a[1])); break; }
    case sym::O_ATOM: { auto at=C.atoms[C.atomOf[x]]; N d=derivative(at.args[0],v,memo); if(d==C.cst(0)){r=d;break;} if(at.fun=="sqrt"||at.fun=="sqrtraw") r=C.div(d,C.mul(C.cst(2),x)); else if(at.fun=="acos"){ r=C.neg(C.div(d,C.sqrtN(C.sub(C.cst(1),C.mul(at.args[0],at.args[0]))))); } else if(at.fun=="cos") r=C.neg(C.mul(C.fun("sin",at.args),d)); else if(at.fun=="sin") r=C.mul(C.fun("cos",at.args),d); else unsupported("derivative of "+at.fun); break; }
    default: unsupported("derivative"); } return memo[x]=r; }
static void call(Fn*f,Val*a,int n,Val*ret,const CallBase*cb){
  if(!replacements.empty()) for(auto&rp:replacements) if(f->dem.compare(0,rp.first.size(),rp.first)==0){ Fn*h=fnByAddr[rp.second]; if(h!=f){ f->calls++; exec(h,a,n,ret); return; } }
  if(!f->looked){ f->looked=true; auto it=H.find(f->name); const std::string&nm=f->name; static std::unordered_map<Fn*,const std::function<void(Fn*,Val*,int,Val*,const CallBase*)>*> dummy;
    if(it!=H.end()) f->native=(void*)&it->second; else { for(auto&p:patterns) if(f->dem.find(p.first)!=std::string::npos&&f->dem.compare(0,5,"void ")!=0){ f->native=(void*)&H[p.second]; break; } 
      if(!f->native) for(auto&p:patterns) if(f->dem.find(p.first)!=std::string::npos){ f->native=(void*)&H[p.second]; break; } }
    if(!f->native&&nm.compare(0,5,"llvm.")==0){ std::string base=nm; for(auto&h:H) if(h.first.back()=='.'&&nm.compare(0,h.first.size(),h.first)==0){ f->native=(void*)&h.second; break; } }
    for(size_t i=0;i<hooks.size();i++) if(f->dem.compare(0,hooks[i].first.size(),hooks[i].first)==0) f->hookId=i; }
  if(f->native){ (*(std::function<void(Fn*,Val*,int,Val*,const CallBase*)>*)f->native)(f,a,n,ret,cb); return; }
  if(!f->F->isDeclaration()){ exec(f,a,n,ret); if(f->hookId>=0){ uint64_t cbk=hooks[f->hookId].second; Fn*h=fnByAddr[cbk]; Val ha[8]; for(int i=0;i<8;i++) ha[i]=i<n?a[i]:Val{0,0}; Val hr[4]; int need=0; for(auto&ar:h->F->args()){ (void)ar; need++; } int save=f->hookId; f->hookId=-1; exec(h,ha,8,hr); f->hookId=save; (void)need; } return; }
  // native external: integers/pointers in integer registers, doubles in xmm
  static std::unordered_map<Fn*,void*> nat; void*p; auto it=nat.find(f); if(it!=nat.end()) p=it->second; else { p=dlsym(RTLD_DEFAULT,f->name.c_str()); nat[f]=p; }
  if(!p) unsupported("external function "+f->dem);
  uint64_t iv[8]={0}; double dv[8]={0}; int ni=0,nd=0; for(int k=0;k<n;k++){ Type*t=cb->getArgOperand(k)->getType(); if(t->isDoubleTy()){ if(boxed(a[k].b)){ mpq_class q; if(f->dem.find("std::ostream")!=std::string::npos||f->dem.find("basic_ostream")!=std::string::npos){ dv[nd++]=NAN; continue; } unsupported("symbolic double passed to "+f->dem);} dv[nd++]=D(a[k].b); } else if(t->isFloatTy()) unsupported("float arg"); else { if(ni>=6) unsupported("too many args "+f->dem); iv[ni++]=conc(a[k],t->isIntegerTy()?t->getIntegerBitWidth():64,"external call"); } }
  if(cb->getType()->isDoubleTy()){ typedef double(*G)(uint64_t,uint64_t,uint64_t,uint64_t,uint64_t,uint64_t,double,double,double,double); ret[0].b=Bd(((G)p)(iv[0],iv[1],iv[2],iv[3],iv[4],iv[5],dv[0],dv[1],dv[2],dv[3])); }
  else { typedef uint64_t(*G)(uint64_t,uint64_t,uint64_t,uint64_t,uint64_t,uint64_t,double,double,double,double); uint64_t r=((G)p)(iv[0],iv[1],iv[2],iv[3],iv[4],iv[5],dv[0],dv[1],dv[2],dv[3]); Type*t=cb->getType(); if(t->isIntegerTy()) r=mk(r,t->getIntegerBitWidth()); ret[0]={r,0}; } }
static double rnd01(){ static uint64_t s=0x12345678abcdefull; s^=s<<13; s^=s>>7; s^=s<<17; return (s>>11)*(1.0/9007199254740992.0); }
static mpq_class qd(double d){ uint64_t b=ideal(d); if(boxed(b)){ mpq_class q; if(C.isConst(toNode(b),&q)) return q; } return exactQ(d); }
static void witnessAfterAssume(N c){ int w=witnessEval(c); if(w==1) return; if(w==-1&&witnessValid&&C.n(c).op==sym::O_NOT) return; QRes q=solve({}); if(q.r==0){ SH->infeasible++; endPath("assumption infeasible"); } if(q.r==1){ useModel(q); } else witnessValid=false; }
static void assume(N c){ if(c==C.T) return; if(c==C.F){ SH->infeasible++; endPath("assume false"); } auto k=known.find(c); if(k!=known.end()){ if(k->second) return; SH->infeasible++; endPath("assume contradiction"); } addPc(c); witnessAfterAssume(c); }
#define HD(nm) H[nm]=[](Fn*f,Val*a,int n,Val*r,const CallBase*cb)
static void initHandlers(){
  auto nop=[](Fn*,Val*,int,Val*,const CallBase*){};
  for(auto s:{"llvm.lifetime.start.","llvm.lifetime.end.","llvm.dbg.","llvm.assume","llvm.experimental.","llvm.invariant.","llvm.stackrestore.","llvm.stackrestore","llvm.donothing","llvm.prefetch.","llvm.va_start","llvm.va_end","llvm.var.annotation."}) H[s]=nop;
  HD("llvm.stacksave"){ r[0]={0,0}; }; HD("llvm.stacksave."){ r[0]={0,0}; };
  HD("llvm.expect."){ r[0]=a[0]; }; HD("llvm.threadlocal.address."){ r[0]=a[0]; }; HD("llvm.launder.invariant.group."){ r[0]=a[0]; }; HD("llvm.objectsize."){ r[0]={~0ull,0}; }; HD("llvm.is.constant."){ r[0]={0,0}; };
  auto mc=[](Fn*,Val*a,int,Val*r,const CallBase*cb){ memCopy(conc(a[0],64,"memcpy"),conc(a[1],64,"memcpy"),conc(a[2],64,"memcpy length")); r[0]=a[0]; };
  H["llvm.memcpy."]=mc; H["llvm.memmove."]=mc; H["memcpy"]=mc; H["memmove"]=mc;
  auto ms=[](Fn*,Val*a,int,Val*r,const CallBase*){ uint64_t p=a[0].b,len=conc(a[2],64,"memset"); shadowClear(p,len); memset((void*)p,(int)(a[1].b&255),len); r[0]=a[0]; }; H["llvm.memset."]=ms; H["memset"]=ms;
  #define MINMAX(nm,PR) HD(nm){ unsigned w=cb->getType()->getScalarType()->getIntegerBitWidth(); int m=leaves(cb->getType()).size(); for(int k=0;k<m;k++){ Val c=icmp(PR,a[k],a[m+k],w); r[k]=boolOf(c)?a[k]:a[m+k]; } };
  MINMAX("llvm.smax.",38) MINMAX("llvm.smin.",40) MINMAX("llvm.umax.",34) MINMAX("llvm.umin.",36)
  HD("llvm.abs."){ unsigned w=cb->getType()->getIntegerBitWidth(); uint64_t v=conc(a[0],w,"abs"); int64_t s=sx(v,w); r[0]={mk((uint64_t)(s<0?-s:s),w),0}; };
  HD("llvm.ctpop."){ r[0]={(uint64_t)__builtin_popcountll(conc(a[0],64,"ctpop")),0}; };
  HD("llvm.ctlz."){ unsigned w=cb->getType()->getIntegerBitWidth(); uint64_t v=conc(a[0],w,"ctlz"); r[0]={(uint64_t)(v?__builtin_clzll(v)-(64-w):w),0}; };
  HD("llvm.cttz."){ unsigned w=cb->getType()->getIntegerBitWidth(); uint64_t v=conc(a[0],w,"cttz"); r[0]={(uint64_t)(v?__builtin_ctzll(v):w),0}; };
  HD("llvm.usub.sat."){ unsigned w=cb->getType()->getIntegerBitWidth(); uint64_t x=conc(a[0],w,"sat"),y=conc(a[1],w,"sat"); r[0]={x>y?x-y:0,0}; };
  HD("llvm.uadd.sat."){ unsigned w=cb->getType()->getIntegerBitWidth(); uint64_t x=conc(a[0],w,"sat"),y=conc(a[1],w,"sat"); uint64_t s=mk(x+y,w); r[0]={s<x?mk(~0ull,w):s,0}; };
  HD("llvm.umul.with.overflow."){ unsigned w=a?cast<StructType>(cb->getType())->getElementType(0)->getIntegerBitWidth():64; unsigned __int128 p=(unsigned __int128)conc(a[0],w,"mul")*conc(a[1],w,"mul"); r[0]={mk((uint64_t)p,w),0}; r[1]={(uint64_t)((p>>w)!=0),0}; };
  HD("llvm.uadd.with.overflow."){ unsigned w=cast<StructType>(cb->getType())->getElementType(0)->getIntegerBitWidth(); unsigned __int128 p=(unsigned __int128)conc(a[0],w,"add")+conc(a[1],w,"add"); r[0]={mk((uint64_t)p,w),0}; r[1]={(uint64_t)((p>>w)!=0),0}; };
  HD("llvm.usub.with.overflow."){ unsigned w=cast<StructType>(cb->getType())->getElementType(0)->getIntegerBitWidth(); uint64_t x=conc(a[0],w,"sub"),y=conc(a[1],w,"sub"); r[0]={mk(x-y,w),0}; r[1]={x<y,0}; };
  HD("llvm.fshl."){ unsigned w=cb->getType()->getIntegerBitWidth(); uint64_t x=conc(a[0],w,"fshl"),y=conc(a[1],w,"fshl"),s=conc(a[2],w,"fshl")%w; r[0]={mk(s?(x<<s)|(y>>(w-s)):x,w),0}; };
  #define F1(nm,ex) H[nm]=[](Fn*,Val*a,int,Val*r,const CallBase*cb){ int m=cb->getType()->isVectorTy()?leaves(cb->getType()).size():1; for(int k=0;k<m;k++){ uint64_t x=a[k].b; r[k]={ex,0}; } };
  F1("llvm.fabs.",fpAbs(x)) F1("fabs",fpAbs(x)) F1("llvm.sqrt.",fpSqrt(x)) F1("sqrt",fpSqrt(x))
  F1("cos",fpFun("cos",x,cos)) F1("sin",fpFun("sin",x,sin)) F1("tan",fpFun("tan",x,tan)) F1("acos",fpFun("acos",x,acos)) F1("asin",fpFun("asin",x,asin)) F1("atan",fpFun("atan",x,atan)) F1("log",fpFun("log",x,log)) F1("exp",fpFun("exp",x,exp)) F1("floor",fpFun("floor",x,floor)) F1("ceil",fpFun("ceil",x,ceil)) F1("cbrt",fpPow(x,TAG|C.cst(mpq_class(1,3))))
  F1("llvm.cos.",fpFun("cos",x,cos)) F1("llvm.sin.",fpFun("sin",x,sin)) F1("llvm.log.",fpFun("log",x,log)) F1("llvm.exp.",fpFun("exp",x,exp)) F1("llvm.floor.",fpFun("floor",x,floor)) F1("llvm.ceil.",fpFun("ceil",x,ceil))
  HD("pow"){ r[0]={fpPow(a[0].b,a[1].b),0}; }; HD("llvm.pow."){ r[0]={fpPow(a[0].b,a[1].b),0}; }; HD("llvm.powi."){ r[0]={fpPow(a[0].b,Bd((double)(int32_t)a[1].b)),0}; };
  HD("atan2"){ if(!boxed(a[0].b)&&!boxed(a[1].b)) r[0]={Bd(atan2(D(a[0].b),D(a[1].b))),0}; else r[0]={fromNode(C.fun("atan2",{toNode(a[0].b),toNode(a[1].b)})),0}; };
  HD("hypot"){ r[0]={fpSqrt(fpAdd(fpMul(a[0].b,a[0].b),fpMul(a[1].b,a[1].b))),0}; };
  HD("llvm.fmuladd."){ r[0]={fpAdd(fpMul(a[0].b,a[1].b),a[2].b),0}; }; HD("llvm.fma."){ r[0]={fpAdd(fpMul(a[0].b,a[1].b),a[2].b),0}; };
  auto mx=[](Fn*,Val*a,int,Val*r,const CallBase*){ r[0]=boolOf(fpCmp(2,a[0].b,a[1].b))?a[0]:a[1]; }; auto mn=[](Fn*,Val*a,int,Val*r,const CallBase*){ r[0]=boolOf(fpCmp(4,a[0].b,a[1].b))?a[0]:a[1]; };
  H["llvm.maxnum."]=mx; H["fmax"]=mx; H["llvm.minnum."]=mn; H["fmin"]=mn; H["llvm.maximum."]=mx; H["llvm.minimum."]=mn;
  HD("llvm.copysign."){ uint64_t m=fpAbs(a[0].b); bool ng=boxed(a[1].b)?decide(C.lt(toNode(a[1].b),C.cst(0))):std::signbit(D(a[1].b)); r[0]={ng?fpNeg(m):m,0}; };
  HD("llvm.is.fpclass."){ uint64_t m=a[1].b; if(boxed(a[0].b)){ if((m&0x3)&&!(m&0x3fc)) {r[0]={0,0};return;} if((m&0x204)==0x204&&!(m&0x1f8)) { r[0]={0,0}; return; } if((m&0x1f8)==0x1f8){ r[0]={1,0}; return; } unsupported("fpclass"); } double d=D(a[0].b); unsigned c; if(std::isnan(d)) c=2; else { bool s=std::signbit(d); switch(std::fpclassify(d)){case FP_INFINITE:c=s?4:0x200;break;case FP_ZERO:c=s?0x20:0x40;break;case FP_SUBNORMAL:c=s?0x10:0x80;break;default:c=s?8:0x100;} } r[0]={(m&c)!=0,0}; };
  HD("csqrt"){ uint64_t x=a[0].b,y=a[1].b; auto zero=[](uint64_t v){ if(!boxed(v)) return D(v)==0; return (bool)decide(C.eq(toNode(v),C.cst(0))); }; auto neg=[](uint64_t v){ if(!boxed(v)) return D(v)<0; return (bool)decide(C.lt(toNode(v),C.cst(0))); };
    if((!boxed(x)&&!std::isfinite(D(x)))||(!boxed(y)&&!std::isfinite(D(y)))){ r[0]={Bd(NAN),0}; r[1]={Bd(NAN),0}; return; }
    if(zero(y)){ if(neg(x)){ r[0]={Bd(0),0}; r[1]={fpSqrt(fpNeg(x)),0}; } else { r[0]={fpSqrt(x),0}; r[1]={Bd(0),0}; } return; }
    uint64_t m=fpSqrt(fpAdd(fpMul(x,x),fpMul(y,y))); uint64_t re=fpSqrt(fpMul(Bd(0.5),fpAdd(m,x))); r[0]={re,0}; r[1]={fpDiv(y,fpMul(Bd(2),re)),0}; };
  HD("__muldc3"){ uint64_t x=a[0].b,y=a[1].b,u=a[2].b,v=a[3].b; r[0]={fpSub(fpMul(x,u),fpMul(y,v)),0}; r[1]={fpAdd(fpMul(x,v),fpMul(y,u)),0}; };
  HD("__divdc3"){ uint64_t x=a[0].b,y=a[1].b,u=a[2].b,v=a[3].b; uint64_t d=fpAdd(fpMul(u,u),fpMul(v,v)); r[0]={fpDiv(fpAdd(fpMul(x,u),fpMul(y,v)),d),0}; r[1]={fpDiv(fpSub(fpMul(y,u),fpMul(x,v)),d),0}; };
  HD("llvm.trap"){ SH->exceptions++; msg("trap"); endPath("trap"); };
  HD("__assert_fail"){ SH->asserts++; std::string w=cstr(a[0].b)+" at "+cstr(a[1].b)+":"+std::to_string((int)a[2].b); msg("assertion "+w); label("assert").failed++; QRes q=solve({}); if(q.r!=0) candidate("assert",w,&q); endPath("assert"); };
  auto thr=[](Fn*f,Val*,int,Val*,const CallBase*){ SH->exceptions++; msg("exception via "+f->dem); label("exception").failed++; QRes q=solve({}); if(q.r!=0) candidate("exception",f->dem,&q); endPath("exception"); };
  for(auto s:{"_ZSt20__throw_length_errorPKc","_ZSt17__throw_bad_allocv","_ZSt28__throw_bad_array_new_lengthv","_ZSt20__throw_out_of_rangePKc","_ZSt24__throw_out_of_range_fmtPKcz","_ZSt25__throw_bad_function_callv","__cxa_throw","_ZSt9terminatev","abort","_ZSt19__throw_logic_errorPKc","__cxa_pure_virtual","_ZSt21__glibcxx_assert_failPKciS0_S0_","__cxa_rethrow","_ZSt16__throw_bad_castv"}) H[s]=thr;
  H["exit"]=thr;
  HD("__cxa_atexit"){ r[0]={0,0}; }; HD("__cxa_guard_acquire"){ uint8_t g; memcpy(&g,(void*)a[0].b,1); r[0]={g?0ull:1ull,0}; }; HD("__cxa_guard_release"){ *(uint8_t*)a[0].b=1; };
  HD("printf"){ r[0]={0,0}; }; H["puts"]=H["printf"]; H["putchar"]=H["printf"]; H["fprintf"]=H["printf"]; H["fwrite"]=H["printf"]; H["fflush"]=H["printf"];
  HD("time"){ r[0]={1000,0}; if(a[0].b) *(uint64_t*)a[0].b=1000; }; HD("clock"){ r[0]={1000,0}; };
  HD("rand"){ static int k=0; char b[32]; snprintf(b,32,"rand_%d",k++); mpq_class lo=0,hi=2147483647; N v=C.var(b,true,&lo,&hi,true,mpz_class((long)(rnd01()*2147483647))); r[0]={0,C.mk(sym::O_R2I,sym::BV,32,{v},0)}; };
  HD("srand"){ };
  // symbolic draw from a std::uniform_int_distribution: any value of its range
  HD("@uniform_int"){ int lo=0,hi=2147483647; memcpy(&lo,(void*)a[0].b,4); memcpy(&hi,(void*)(a[0].b+4),4); static int k=0; char b[32]; snprintf(b,32,"rnd_%d",k++); N v=C.bvvar(b,32); C.bvVal[v]=lo+(int64_t)(rnd01()*((double)hi-lo)); addPc(C.bvcmp(41,C.bvc((uint32_t)lo,32),v)); addPc(C.bvcmp(41,v,C.bvc((uint32_t)hi,32))); r[0]={0,v}; };
  patterns.push_back({"std::uniform_int_distribution<int>::operator()","@uniform_int"});
  // std::pow(std::complex<double>, double) with exponent 1/3: principal cube root as algebraic pair
  HD("@cpow"){ unsupported("complex pow"); };
  // ---------------- harness interface
  HD("vp_symbolic"){ r[0]={1,0}; };
  HD("vp_real"){ std::string nm=cstr(a[0].b); double lo=D(a[1].b),hi=D(a[2].b); mpq_class l=boxed(a[1].b)?C.consts[C.n(toNode(a[1].b)).k]:exactQ(lo),h=boxed(a[2].b)?C.consts[C.n(toNode(a[2].b)).k]:exactQ(hi); mpq_class v; auto p=preset.find(nm); if(p!=preset.end()) v=parseQ(p->second); else v=l+(h-l)*mpq_class((long)(1+rnd01()*998),1000); N x=C.var(nm,true,&l,&h,false,v); r[0]={TAG|x,0}; };
  HD("vp_fresh"){ std::string nm=cstr(a[0].b); mpq_class v=boxed(a[1].b)?mpq_class(0):std::isfinite(D(a[1].b))?exactQ(D(a[1].b)):mpq_class((long)(rnd01()*2000)-1000,1000); N x=C.var(nm,false,nullptr,nullptr,false,v); r[0]={TAG|x,0}; if(std::isnan(D(a[1].b))) witnessValid=false; };
  HD("vp_int"){ std::string nm=cstr(a[0].b); mpq_class l=(long)(int)a[1].b,h=(long)(int)a[2].b; mpq_class v=l+mpz_class((long)(rnd01()*(h.get_d()-l.get_d()+0.99))); N x=C.var(nm,true,&l,&h,true,v); r[0]={0,C.mk(sym::O_R2I,sym::BV,32,{x},0)}; };
  HD("vp_choice"){ std::string nm=cstr(a[0].b); int k=(int)a[1].b; auto p=preset.find(nm); int v=0; if(p!=preset.end()) v=atoi(p->second.c_str()); else for(v=0;v<k-1;v++){ if(forkPath()) break; } choices.push_back({nm,v}); r[0]={(uint64_t)v,0}; };
  HD("vp_assume_lt"){ assume(C.lt(toNode(a[0].b),toNode(a[1].b))); }; HD("vp_assume_le"){ assume(C.le(toNode(a[0].b),toNode(a[1].b))); }; HD("vp_assume_eq"){ assume(C.eq(toNode(a[0].b),toNode(a[1].b))); }; HD("vp_assume_ne"){ N c=C.notN(C.eq(toNode(a[0].b),toNode(a[1].b))); int s=C.signKnown(C.sub(toNode(a[0].b),toNode(a[1].b))); if(s==0) assume(C.F); else if(s!=1&&s!=-1) assume(c); };
  HD("vp_assume"){ assume(asBool(a[0])); };
  auto nanfail=[](const std::string&l,const char*w){ SH->checks++; label(l).failed++; QRes q=solve({}); if(q.r!=0) candidate(l,w,q.r==1?&q:nullptr); };
  static auto nf2=nanfail;
  HD("vp_check_eq"){ std::string l=cstr(a[2].b); for(int k=0;k<2;k++) if(!boxed(a[k].b)&&!std::isfinite(D(a[k].b))){ nf2(l,"non-finite value"); return; } check(C.eq(toNode(a[0].b),toNode(a[1].b)),l); };
  HD("vp_check_lt"){ std::string l=cstr(a[2].b); for(int k=0;k<2;k++) if(!boxed(a[k].b)&&!std::isfinite(D(a[k].b))){ nf2(l,"non-finite value"); return; } check(C.lt(toNode(a[0].b),toNode(a[1].b)),l); };
  HD("vp_check_le"){ std::string l=cstr(a[2].b); for(int k=0;k<2;k++) if(!boxed(a[k].b)&&!std::isfinite(D(a[k].b))){ nf2(l,"non-finite value"); return; } check(C.le(toNode(a[0].b),toNode(a[1].b)),l); };
  HD("vp_check"){ std::string l=cstr(a[1].b); N c=asBool(a[0]); if(c==C.F){ SH->checks++; label(l).failed++; QRes q=solve({}); if(q.r==0){ label(l).failed--; SH->infeasible++; endPath("infeasible at check"); } candidate(l,"condition is false on this path",q.r==1?&q:nullptr); } else check(c,l); };
  HD("vp_finite"){ r[0]={(uint64_t)(boxed(a[0].b)||std::isfinite(D(a[0].b))),0}; };
  HD("vp_entails_eq"){ for(int k=0;k<2;k++) if(!boxed(a[k].b)&&!std::isfinite(D(a[k].b))){ r[0]={0,0}; return; } N c=C.eq(toNode(a[0].b),toNode(a[1].b)); r[0]={(uint64_t)(c==C.F?0:check(c,"",false)),0}; };
  HD("vp_reach"){ bool ok=witnessValid; if(!ok){ QRes q=solve({}); if(q.r==1) { ok=true; useModel(q); } else if(q.r==0){ SH->infeasible++; endPath("infeasible at end"); } } label(std::string("reach:")+cstr(a[0].b)).nfProved+=1; if(ok) { if(witnessValid&&!SH->witWritten.exchange(1)) writeWitness(); SH->witnessReach++; label(std::string("reach:")+cstr(a[0].b)).z3Proved++; } };
  HD("vp_num"){ double v=boxed(a[0].b)?(witnessValid||true?C.evalD(toNode(a[0].b),wmemo):NAN):D(a[0].b); r[0]={Bd(v),0}; };
  HD("vp_isconst"){ r[0]={(uint64_t)(!boxed(a[0].b)),0}; };
  HD("vp_approx"){ approxMode=a[0].b&1; }; HD("vp_zerotol"){ zeroTol=a[0].b&1; }; HD("vp_divfork"){ divFork=a[0].b&1; };
  HD("vp_alg"){ std::vector<N> co; int k=(int)a[1].b; for(int i=0;i<k;i++){ uint64_t b; memcpy(&b,(void*)(a[2].b+8*i),8); co.push_back(toNode(b)); } N v=C.newAlgebraic(cstr(a[0].b),co); C.vars[C.varOf[v]].val=std::isfinite(D(a[3].b))?exactQ(D(a[3].b)):mpq_class(0); if(!std::isfinite(D(a[3].b))) witnessValid=false; wmemo.clear(); r[0]={TAG|v,0}; };
  HD("vp_diff"){ if(!boxed(a[0].b)){ r[0]={Bd(0),0}; return; } std::unordered_map<N,N> memo; r[0]={fromNode(derivative(toNode(a[0].b),toNode(a[1].b),memo)),0}; };
  HD("vp_hint"){ if(boxed(a[0].b)) hints.push_back(toNode(a[0].b)); };
  HD("vp_simplify"){ if(!boxed(a[0].b)){ r[0]=a[0]; return; } auto q=C.tryNf(toNode(a[0].b)); r[0]={q?fromNode(C.fromRat(q)):a[0].b,0}; };
  HD("vp_terms"){ if(!boxed(a[0].b)){ r[0]={1,0}; return; } auto q=C.tryNf(toNode(a[0].b)); r[0]={q?q->num.size():999999,0}; };
  HD("vp_show"){ printf("%s = %s\n",cstr(a[0].b).c_str(),boxed(a[1].b)?C.show(toNode(a[1].b),12).substr(0,2000).c_str():std::to_string(D(a[1].b)).c_str()); if(boxed(a[1].b)){ auto q=C.tryNf(toNode(a[1].b)); if(q){ printf("   nf %s  den %zu\n",C.polyStr(q->num).substr(0,1500).c_str(),q->den.size()); } double v=C.evalD(toNode(a[1].b),wmemo); printf("   wit %g\n",v);} fflush(stdout); };
  HD("vp_note"){ if(verbose) fprintf(stderr,"[note] %s\n",cstr(a[0].b).c_str()); };
  HD("vp_hook"){ hooks.push_back({cstr(a[0].b),a[1].b}); for(auto&e:fns) e.second->looked=e.second->native?true:false; };
  HD("vp_replace"){ replacements.push_back({cstr(a[0].b),a[1].b}); };
  HD("vp_budget"){ C.termBudget=a[0].b; };
  HD("vp_timeout"){ queryTimeout=D(a[0].b); };
  HD("vp_undecided"){ std::string l=cstr(a[0].b); label(l).unknown++; candidate(l,"undecided by the harness",nullptr); };
  HD("vp_fail"){ std::string l=cstr(a[0].b); SH->checks++; QRes q; q.r=-1; if(!witnessValid) q=solve({}); if(q.r==0){ SH->infeasible++; endPath("infeasible at fail"); } label(l).failed++; candidate(l,"claim not derivable on this path",q.r==1?&q:nullptr); };
  HD("vp_tol"){ };
  HD("vp_expect"){ label(std::string("expect:")+cstr(a[0].b)).nfProved++; };
  HD("vp_stop"){ endPath("vp_stop"); };
}
static bool noinlineName(const std::string&d){ if(d.compare(0,8,"opengv::")==0) return true; if(d.compare(0,38,"std::complex<double> std::pow<double>(std",0,38)==0) return true; for(auto&p:patterns) if(d.find(p.first)!=std::string::npos) return true; return false; }
static int prep(int argc,char**argv){
  SMDiagnostic err; std::unique_ptr<Module> m; std::set<std::string> keep;
  for(int i=3;i<argc;i++){ if(!strncmp(argv[i],"keep=",5)){ std::istringstream is(argv[i]+5); std::string t; while(std::getline(is,t,',')) keep.insert(t); continue; } auto x=parseIRFile(argv[i],err,LC); if(!x){ err.print("vpsym",errs()); return 2; } if(!m) m=std::move(x); else if(Linker::linkModules(*m,std::move(x))) return 2; }
  for(auto&f:*m){ if(f.isDeclaration()) continue; std::string d=demangle(f.getName().str()); if(noinlineName(d)){ f.removeFnAttr(Attribute::AlwaysInline); f.removeFnAttr(Attribute::InlineHint); f.addFnAttr(Attribute::NoInline); } 
    if(f.hasLinkOnceLinkage()||f.hasWeakLinkage()) { f.setLinkage(GlobalValue::InternalLinkage); f.setComdat(nullptr);} f.removeFnAttr(Attribute::OptimizeNone); }
  if(!keep.empty()) internalizeModule(*m,[&](const GlobalValue&g){ return keep.count(g.getName().str())>0||g.getName().starts_with("llvm."); });
  PipelineTuningOptions pto; pto.LoopVectorization=false; pto.SLPVectorization=false; pto.LoopUnrolling=false; PassBuilder PB(nullptr,pto); LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CAM; ModuleAnalysisManager MAM; PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM,FAM,CAM,MAM);
  { ModulePassManager D; D.addPass(GlobalDCEPass()); D.run(*m,MAM); }
  // library functions can be replaced by contracts and hooks are set at run time: no interprocedural facts about them
  for(auto&f:*m) if(!f.isDeclaration()&&f.hasLocalLinkage()){ std::string d=demangle(f.getName().str()); if(d.compare(0,8,"opengv::")==0||noinlineName(d)) f.setLinkage(GlobalValue::WeakAnyLinkage); }
  for(auto&g:m->globals()) if(!g.isDeclaration()&&g.hasLocalLinkage()&&g.getName().starts_with("_ZN6vphook")) g.setLinkage(GlobalValue::ExternalLinkage);
  auto MPM=PB.buildPerModuleDefaultPipeline(OptimizationLevel::O1); MPM.run(*m,MAM);
  std::error_code ec; raw_fd_ostream os(argv[2],ec); WriteBitcodeToFile(*m,os); return 0; }
static void writeResult(){
  std::ofstream o(outDir+"/result.json"); auto&s=*SH; o<<"{\"paths\":"<<s.paths<<",\"reach\":"<<s.witnessReach<<",\"forks\":"<<s.forks<<",\"decides\":"<<s.decides<<",\"queries\":"<<s.queries<<",\"sat\":"<<s.qSat<<",\"unsat\":"<<s.qUnsat<<",\"unknown\":"<<s.qUnknown<<",\"solver_s\":"<<s.qMicros/1e6<<",\"interval\":"<<s.ivProved<<",\"div_assumed\":"<<s.divAssume<<",\"infeasible\":"<<s.infeasible<<",\"aborted\":"<<s.aborted<<",\"unsupported\":"<<s.unsupported<<",\"truncated\":"<<s.truncated<<",\"exceptions\":"<<s.exceptions<<",\"asserts\":"<<s.asserts<<",\"checks\":"<<s.checks<<",\"cands\":"<<s.cands<<",\"wall\":"<<now()-startTime<<",\"labels\":{";
  for(int i=0;i<s.nLabels;i++){ auto&l=s.labels[i]; std::string nm; for(char*c=l.name;*c;c++) if(*c!='"'&&*c!='\\') nm+=*c; o<<(i?",":"")<<"\""<<nm<<"\":["<<l.nfProved<<","<<l.z3Proved<<","<<l.failed<<","<<l.unknown<<"]"; } o<<"},\"msgs\":["; for(int i=0;i<s.nMsgs;i++){ std::string m; for(char*c=s.msgs[i];*c;c++) if(*c!='"'&&*c!='\\'&&(unsigned char)*c>=32) m+=*c; o<<(i?",":"")<<"\""<<m<<"\""; } o<<"]}\n"; }
int main(int argc,char**argv){
  if(argc<4){ fprintf(stderr,"usage: vpsym prep out.bc in.bc...|run file.bc harness outdir [k=v]\n"); return 2; }
  initHandlers();
  if(!strcmp(argv[1],"prep")) return prep(argc,argv);
  for(int i=5;i<argc;i++){ std::string s=argv[i]; size_t e=s.find('='); std::string k=s.substr(0,e),v=e==std::string::npos?"":s.substr(e+1); if(k=="-v") verbose=true; else if(k=="timeout") queryTimeout=atof(v.c_str()); else if(k=="maxtime") maxTime=atof(v.c_str()); else if(k=="ivbudget") ivBudget=atof(v.c_str()); else if(k=="maxpaths") maxPaths=atoll(v.c_str()); else preset[k]=v; }
  outDir=argv[4]; SH=(Shared*)mmap(0,sizeof(Shared),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); startTime=now();
  SMDiagnostic err; M=parseIRFile(argv[2],err,LC); if(!M){ err.print("vpsym",errs()); return 2; } DL=&M->getDataLayout();
  fnNext=(uint64_t)mmap(0,1<<26,PROT_NONE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);
  Function*hf=M->getFunction(argv[3]); if(!hf||hf->isDeclaration()){ fprintf(stderr,"no harness %s\n",argv[3]); return 2; }
  C.decide=decide; if(const char*j=getenv("VP_JOBS")) sscanf(j,"%d,%d",&jobR,&jobW);
  rlimit rl{1ull<<30,1ull<<30}; (void)rl;
  fflush(stdout); pid_t p=fork();
  if(p==0){
    stackBase=(char*)mmap(0,256<<20,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); stackPtr=stackBase; stackEnd=stackBase+(256<<20);
    for(auto&g:M->globals()) if(!g.isDeclaration()) globalAddr(&g);
    for(auto&g:M->globals()) if(g.hasInitializer()&&g.getName()!="llvm.global_ctors"&&g.getName()!="llvm.used"&&g.getName()!="llvm.compiler.used") initMem(g.getInitializer(),globalAddr(&g));
    if(auto*gc=M->getGlobalVariable("llvm.global_ctors")){ std::vector<std::pair<uint64_t,Function*>> v; if(auto*ca=dyn_cast<ConstantArray>(gc->getInitializer())) for(auto&o:ca->operands()){ auto*st=cast<ConstantStruct>(o); v.push_back({cast<ConstantInt>(st->getOperand(0))->getZExtValue(),dyn_cast<Function>(st->getOperand(1)->stripPointerCasts())}); } std::stable_sort(v.begin(),v.end(),[](auto&a,auto&b){return a.first<b.first;}); for(auto&x:v) if(x.second){ Val r[32]; call(getFn(x.second),nullptr,0,r,nullptr); } }
    Val r[32]; call(getFn(hf),nullptr,0,r,nullptr);
    if(verbose){ fprintf(stderr,"[nodes] %zu steps %lu\n",C.nodes.size(),(unsigned long)steps); }
    SH->endOk++; endPath("end"); }
  int st; waitpid(p,&st,0); if(WIFSIGNALED(st)){ SH->aborted++; SH->paths++; msg("executor died with signal "+std::to_string(WTERMSIG(st))); }
  writeResult(); return 0; }
