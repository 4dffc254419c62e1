// Sturm chains: root counting, root bound, bracketing.
#include "vp.hpp"
#include <opengv/math/Sturm.hpp>
using namespace opengv; using namespace vp;
typedef std::vector<double> D;
static D times(const D&a,const D&b){ D r(a.size()+b.size()-1,0.0); for(size_t i=0;i<a.size();i++) for(size_t j=0;j<b.size();j++) r[i+j]=vp_simplify(r[i+j]+a[i]*b[j]); return r; }
static D lin(double r){ D d; d.push_back(1); d.push_back(-r); return d; }
static D pair(double p,double q){ D d; d.push_back(1); d.push_back(-2*p); d.push_back(p*p+q*q); return d; } // roots p+-iq
static D cst(double a){ return D(1,a); }
static math::Sturm make(const D&p,int form){ if(form==0) return math::Sturm(p); Eigen::MatrixXd m(1,p.size()); for(size_t i=0;i<p.size();i++) m(0,i)=p[i]; return math::Sturm(m); }
// the chain counts the distinct real roots in (x,Y]
static void count(const D&p,const D&roots,double x){ vp_divfork(1); math::Sturm s=make(p,vp_choice("form",2)); const double Y=32; int e=vp_choice("evaluate",2); 
  int n=0; for(size_t i=0;i<roots.size();i++) if(x<roots[i]) n++; 
  int a=e?(int)s.evaluateChain2(x):(int)s.evaluateChain(x),b=e?(int)s.evaluateChain2(Y):(int)s.evaluateChain(Y);
  vp_check(a-b==n,"the difference of sign changes is the number of real roots between the bounds"); vp_reach("end"); }
static double lead(){ return vp_choice("neg",2)?-2:1; }
HARNESS(count2){ double r=vp_real("r",-4,4),q=vp_real("q",-4,4),x=vp_real("x",-10,10); int k=vp_choice("kind",2); D roots; D p; if(k==0){ vp_assume_lt(r+0.05,q); roots.push_back(r); roots.push_back(q); p=times(lin(r),lin(q)); } else { vp_assume_lt(0.05,q); p=pair(r,q); } count(times(cst(lead()),p),roots,x); }
HARNESS(count3){ double r=vp_real("r",-4,4),q=vp_real("q",-4,4),x=vp_real("x",-10,10); int k=vp_choice("kind",4); D roots; D p; 
  static const double T[3]={-3,0.25,1}; if(k<3){ double t=T[k]; vp_assume_lt(r+0.05,q); if(r<t) vp_assume_lt(r+0.05,t); else vp_assume_lt(t+0.05,r); if(q<t) vp_assume_lt(q+0.05,t); else vp_assume_lt(t+0.05,q); roots.push_back(r); roots.push_back(q); roots.push_back(t); p=times(times(lin(r),lin(q)),lin(t)); }
  else { vp_assume_lt(0.05,q); double t=0.5; roots.push_back(t); p=times(pair(r,q),lin(t)); } count(times(cst(lead()),p),roots,x); }
HARNESS(count4){ double r=vp_real("r",-4,4),x=vp_real("x",-10,10); int k=vp_choice("kind",3); D roots; D p; 
  if(k==0){ static const double T[3]={-2,-0.5,1}; p=lin(r); for(int i=0;i<3;i++){ if(r<T[i]) vp_assume_lt(r+0.05,T[i]); else vp_assume_lt(T[i]+0.05,r); p=times(p,lin(T[i])); roots.push_back(T[i]); } roots.push_back(r); }
  else if(k==1){ static const double T=-1; if(r<T) vp_assume_lt(r+0.05,T); else vp_assume_lt(T+0.05,r); p=times(times(lin(r),lin(T)),pair(0.5,1)); roots.push_back(r); roots.push_back(T); }
  else { p=times(pair(r,0.5),pair(-1,2)); }
  count(times(cst(lead()),p),roots,x); }
// all roots (also complex ones) lie strictly within the bound
static double ab(double x){ return x<0?-x:x; }
HARNESS(bound2){ double r=vp_real("r",-4,4),q=vp_real("q",-4,4); D p; int k=vp_choice("kind",2); if(k==0){ p=times(lin(r),lin(q)); vp_assume_lt(r+0.01,q); } else { vp_assume_lt(0.01,q); p=pair(r,q); } math::Sturm s=make(times(cst(lead()),p),vp_choice("form",2)); double b=s.computeLagrangianBound(); vp_check(vp_finite(b),"the bound is finite");
  if(k==0){ vp_check_lt(ab(r),b,"the bound encloses every real root"); vp_check_lt(ab(q),b,"the bound encloses every real root"); } vp_check_le(b,40,"the bound is not arbitrarily large"); vp_reach("end"); }
HARNESS(bound3){ double r=vp_real("r",-4,4); static const double Q[3]={-3,0,1},T[3]={2,-1,0.5}; int k=vp_choice("t",3); double q=Q[k],t=T[k]; math::Sturm s=make(times(cst(lead()),times(times(lin(r),lin(q)),lin(t))),vp_choice("form",2)); double b=s.computeLagrangianBound(); vp_check(vp_finite(b),"the bound is finite");
  vp_check_lt(ab(r),b,"the bound encloses every real root"); vp_check_lt(ab(q),b,"the bound encloses every real root"); vp_check_lt(ab(t),b,"the bound encloses every real root"); vp_reach("end"); }
// families whose root bound is rational in the parameters
static D family(int k,D&roots,double amax){ roots.clear(); 
  if(k<3){ double a=vp_real("a",0.5,amax),b=vp_real("b",0.5,amax); double x=a*a,y=b*b; if(k==1) x=-x; if(k==2) { x=-x; y=-y; } if(k!=1) vp_assume_lt(a+0.375,b); roots.push_back(x); roots.push_back(y); return times(lin(x),lin(y)); }
  double r=vp_real("r",0.5,amax); D p; if(k==3){ roots.push_back(r); roots.push_back(-r); p=times(lin(r),lin(-r)); } else if(k==4){ roots.push_back(r); roots.push_back(0); p=times(lin(r),lin(0)); } else if(k==5){ roots.push_back(r); roots.push_back(0); roots.push_back(-r); p=times(times(lin(r),lin(-r)),lin(0)); }
  else if(k==6) p=pair(0,r); else { p=pair(0,r); p=times(p,lin(0)); roots.push_back(0); } return p; }
// one bracket per real root
HARNESS(brackets){ D roots; int k=vp_choice("kind",8); D p=times(cst(lead()),family(k,roots,1.75)); double eps=k<3?1.5:0.5; math::Sturm s=make(p,vp_choice("form",2)); std::vector<double> r; s.bracketRoots(r,eps); vp_check(r.size()==roots.size(),"one bracket per real root"); 
  for(size_t i=0;i<roots.size();i++){ int n=0; for(size_t j=0;j<r.size();j++) if(ab(r[j]-roots[i])<=eps/2) n++; vp_check(n>=1,"every real root is within the tolerance of a bracket centre"); } vp_reach("end"); }
// findRoots2: one value per real root, each within eps_x of it or with a residual below eps_val
HARNESS(find_roots2){ D roots; int k=3+vp_choice("kind",5); double A=lead(); D p=times(cst(A),family(k,roots,1.5)); double ex=k<3?1.0:0.25,ev=0.05; math::Sturm s=make(p,vp_choice("form",2)); std::vector<double> r; s.findRoots2(r,ex,ev); vp_check(r.size()==roots.size(),"one value per real root"); 
  for(size_t i=0;i<r.size();i++){ double v=0; for(size_t k=0;k<p.size();k++) v=v*r[i]+p[k]; bool ok=ab(v)<ev; for(size_t j=0;j<roots.size()&&!ok;j++) if(ab(r[i]-roots[j])<=ex) ok=true; vp_check(ok,"every value is near a root or has a small residual"); }
  for(size_t i=0;i<roots.size();i++){ int n=0; for(size_t j=0;j<r.size();j++) if(ab(r[j]-roots[i])<=(k<3?1.0:0.25)) n++; vp_check(n>=1,"every root is approximated by a value"); } vp_reach("end"); }
HARNESS(find_roots){ D roots; int k=3+vp_choice("kind",5); D p=times(cst(lead()),family(k,roots,4)); math::Sturm s=make(p,vp_choice("form",2)); std::vector<double> r=s.findRoots(); vp_check(r.size()==roots.size(),"one value per real root"); 
  for(size_t i=0;i<roots.size();i++){ int n=0; for(size_t j=0;j<r.size();j++) if(ab(r[j]-roots[i])<=1e-6) n++; vp_check(n==1,"every root is returned once"); } vp_reach("end"); }
