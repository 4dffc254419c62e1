// Runtime of the harness interface for native replay of a solver counterexample:
// ordinary doubles, the real library, the real Eigen.
// exit status: 0 all checks hold, 1 a check failed, 77 the assumptions do not hold.
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <map>
#include <sstream>
#include <string>
#include <exception>
#include <csignal>
#include <unistd.h>
#include <sys/wait.h>
static std::map<std::string,double> vals; static std::map<std::string,int> used;
static int failed=0; static double tol=1e-6; static int nchecks=0; static int drawK=0,randK=0;
static std::string expected; static unsigned long seed=12345; // existence claims: search for a run that reaches the label
static unsigned rnd(){ seed=seed*6364136223846793005ul+1442695040888963407ul; return (unsigned)(seed>>33); }
static double get(const char*n,double d){ std::string s=n; int k=used[s]++; if(k) s+="#"+std::to_string(k); auto it=vals.find(s); return it==vals.end()?d:it->second; }
static void report(const char*l,const char*fmt,double a,double b){ failed++; if(failed<20){ printf("CHECK FAILED: %s: ",l); printf(fmt,a,b); printf("\n"); fflush(stdout);} }
extern "C" {
int vp_symbolic(){ return 0; }
double vp_real(const char*n,double lo,double hi){ double v=get(n,0.5*(lo+hi)); return v; }
double vp_fresh(const char*,double w){ return w; }
int vp_int(const char*n,int lo,int hi){ return (int)get(n,expected.empty()?lo:lo+(int)(rnd()%(unsigned)(hi-lo+1))); }
int vp_choice(const char*n,int k){ return (int)get(n,expected.empty()?0:(int)(rnd()%(unsigned)k)); }
static void bad(){ printf("assumption not met\n"); fflush(stdout); _exit(failed?1:77); }
void vp_assume(bool c){ if(!c) bad(); }
void vp_assume_lt(double a,double b){ if(!(a<b)) bad(); }
void vp_assume_le(double a,double b){ if(!(a<=b+1e-9*(1+fabs(a)+fabs(b)))) bad(); }
void vp_assume_eq(double a,double b){ if(!(fabs(a-b)<=1e-9*(1+fabs(a)+fabs(b)))) bad(); }
void vp_assume_ne(double a,double b){ if(a==b) bad(); }
void vp_check(bool c,const char*l){ nchecks++; if(!c) report(l,"condition is false",0,0); }
void vp_check_eq(double a,double b,const char*l){ nchecks++; if(!(fabs(a-b)<=tol*(1+fabs(a)+fabs(b)))) report(l,"%.12g should equal %.12g",a,b); }
void vp_check_lt(double a,double b,const char*l){ nchecks++; if(!(a<b+tol*(1+fabs(a)+fabs(b)))) report(l,"%.12g should be less than %.12g",a,b); }
void vp_check_le(double a,double b,const char*l){ nchecks++; if(!(a<=b+tol*(1+fabs(a)+fabs(b)))) report(l,"%.12g should be at most %.12g",a,b); }
int vp_entails_eq(double a,double b){ return fabs(a-b)<=tol*(1+fabs(a)+fabs(b)); }
int vp_finite(double a){ return std::isfinite(a); }
void vp_reach(const char*l){ if(!expected.empty()&&expected==l) _exit(42); printf("reached %s\n",l); }
double vp_num(double x){ return x; } int vp_isconst(double){ return 1; }
void vp_approx(int){} void vp_divfork(int){} void vp_zerotol(int){} void vp_budget(int){} void vp_timeout(double){} void vp_hook(const char*,void*){}
struct VpWrap{ const char*n; void**p; }; extern __attribute__((weak)) VpWrap vp_wraps[];
void vp_replace(const char*p,void*f){ if(&vp_wraps[0]) for(VpWrap*w=vp_wraps;w->n;w++) if(!strncmp(w->n,p,strlen(p))) *w->p=f; }
void vp_hint(double){}
void vp_tol(double t){ tol=t; }
double vp_alg(const char*,int,const double*,double w){ return w; }
double vp_diff(double,double){ return 0; } double vp_simplify(double e){ return e; } int vp_terms(double){ return 1; }
void vp_show(const char*n,double e){ printf("%s = %.15g\n",n,e); } void vp_note(const char*n){ printf("%s\n",n); }
void vp_fail(const char*l){ report(l,"claim fails",0,0); }
void vp_undecided(const char*l){ printf("undecided: %s\n",l); }
void vp_expect(const char*){}
void vp_stop(){ printf("stopped; %d checks, %d failed\n",nchecks,failed); fflush(stdout); _exit(failed?1:0); }
int vp_native_draw(int lo,int hi){ char b[32]; snprintf(b,32,"rnd_%d",drawK++); auto it=vals.find(b); if(it!=vals.end()) return (int)it->second; return lo+(int)(rnd()%(unsigned)((long)hi-lo+1>0?(long)hi-lo+1:1)); }
int vp_native_rand(){ char b[32]; snprintf(b,32,"rand_%d",randK++); auto it=vals.find(b); if(it!=vals.end()) return (int)it->second; return (int)rnd(); }
void VP_ENTRY();
}
namespace vphook { [[noreturn]] void missing(const char*what){ printf("undecided: %s\n",what); fflush(stdout); _exit(failed?1:77); } }
static void onAbort(int){ printf("CHECK FAILED: assertion or abort reached\n"); fflush(stdout); _exit(1); }
static void onSegv(int){ printf("CHECK FAILED: memory fault\n"); fflush(stdout); _exit(1); }
static void onAlarm(int){ printf("CHECK FAILED: does not terminate\n"); fflush(stdout); _exit(failed?1:78); }
int main(int argc,char**argv){
  std::ifstream f(argv[1]); std::string l; while(std::getline(f,l)){ if(l.empty()||l[0]=='#') continue; if(l.compare(0,7,"expect ")==0){ expected=l.substr(7); continue; } std::istringstream is(l); std::string n; double v; if(is>>n>>v) vals[n]=v; }
  if(!expected.empty()){ alarm(100); for(int k=0;k<3000;k++){ pid_t c=fork(); if(c==0){ if(!freopen("/dev/null","w",stdout)||!freopen("/dev/null","w",stderr)) _exit(3); seed=7919ul*(k+1); try{ VP_ENTRY(); }catch(...){} _exit(drawK+randK?0:43); } int st; waitpid(c,&st,0); if(WIFEXITED(st)&&(WEXITSTATUS(st)==42||WEXITSTATUS(st)==43)){ printf("reached in run %d\n",k); return 0; } }
    printf("CHECK FAILED: expect:%s: never happens in 3000 runs with different draws\n",expected.c_str()); return 1; }
  signal(SIGABRT,onAbort); signal(SIGSEGV,onSegv); signal(SIGFPE,onSegv); signal(SIGALRM,onAlarm); alarm(60);
  try { VP_ENTRY(); } catch(std::exception&e){ printf("CHECK FAILED: exception %s\n",e.what()); fflush(stdout); _exit(1); } catch(...){ printf("CHECK FAILED: exception\n"); fflush(stdout); _exit(1); }
  printf("%d checks, %d failed\n",nchecks,failed); fflush(stdout); _exit(failed?1:0);
}
