// Closed-form cubic and quartic roots.
#include "vp.hpp"
#include <complex>
#include <opengv/math/roots.hpp>
using namespace opengv; using namespace vp;
typedef std::complex<double> cd;
static std::vector<double> coeffs4(double a,double b,double c,double d){ std::vector<double> p; p.push_back(a); p.push_back(b); p.push_back(c); p.push_back(d); return p; }
static double lead(){ static const double t[3]={1,-2,0.5}; return t[vp_choice("lead",3)]; }
// mode 0: three distinct real roots, 1: one real root
static void o3(int mode,bool symLead){
  double a=symLead?vp_real("a",0.25,4):lead(),b=vp_real("b",-8,8),c=vp_real("c",-8,8),d=vp_real("d",-8,8);
  double t0=b*b-3*a*c,t1=2*b*b*b-9*a*b*c+27*a*a*d,disc=vp_simplify(4*t0*t0*t0-t1*t1);
  if(mode==0) vp_assume_lt(0.01,disc); else vp_assume_lt(disc,-0.01);
  vp_divfork(1);
  std::vector<double> r=math::o3_roots(coeffs4(a,b,c,d)); vp_check(r.size()==3,"three values are returned");
  if(mode==0){ vp_check_eq(r[0]+r[1]+r[2],-b/a,"the three real roots of the cubic are returned (sum)"); vp_check_eq(r[0]*r[1]+r[0]*r[2]+r[1]*r[2],c/a,"the three real roots of the cubic are returned (pair products)"); vp_check_eq(r[0]*r[1]*r[2],-d/a,"the three real roots of the cubic are returned (product)"); }
  else { double x=r[0]; vp_check_eq(((a*x+b)*x+c)*x+d,0,"the first value is the real root of the cubic"); vp_check_eq(r[0]+2*r[1],-b/a,"the other values are the real part of the complex pair"); vp_check_eq(r[1],r[2],"the other values are the real part of the complex pair"); }
  vp_reach("end"); }
HARNESS(o3_three){ o3(0,false); }
HARNESS(o3_one){ o3(1,false); }
HARNESS(o3_three_lead){ o3(0,true); }
// repeated roots: a (x-p)^2 (x-q)
static int has(const std::vector<double>&r,double x){ int n=0; for(size_t i=0;i<r.size();i++) n+=vp_finite(r[i])&&vp_entails_eq(r[i],x); return n; }
HARNESS(o3_double){ vp_divfork(1); double a=lead(),p=vp_real("p",-4,4),q=vp_real("q",-4,4); if(vp_choice("side",2)) vp_assume_lt(p+0.125,q); else vp_assume_lt(q+0.125,p);
  std::vector<double> r=math::o3_roots(coeffs4(a,a*(-2*p-q),a*(p*p+2*p*q),-a*p*p*q)); vp_check(has(r,p)==2,"a double root is returned twice"); vp_check(has(r,q)==1,"the single root beside a double root is returned"); vp_reach("end"); }
// natively the triple root is an exact rounding case: replay at the nearest quarter
#ifdef VP_NATIVE
static double dyadic(double p){ return std::round(4*p)/4; }
#else
static double dyadic(double p){ return p; }
#endif
HARNESS(o3_triple){ vp_divfork(1); double a=lead(),p=vp_real("p",-4,4); p=dyadic(p); std::vector<double> r=math::o3_roots(coeffs4(a,-3*a*p,3*a*p*p,-a*p*p*p)); vp_check(has(r,p)==3,"a triple root is returned three times"); vp_reach("end"); }
// cubics with vanishing second-order invariant (b^2 = 3ac): (x-p)^3 = q^3
HARNESS(o3_vanishing){ vp_divfork(1); double a=lead(),p=vp_real("p",-4,4),q=vp_real("q",0.25,4); if(vp_choice("neg",2)) q=-q;
  std::vector<double> r=math::o3_roots(coeffs4(a,-3*a*p,3*a*p*p,-a*(p*p*p+q*q*q))); vp_check(r.size()==3&&vp_finite(r[0])&&vp_finite(r[1])&&vp_finite(r[2]),"finite values"); vp_check_eq(r[0],p+q,"the first value is the real root of the cubic"); vp_check_eq(r[1],p-q/2,"the other values are the real part of the complex pair"); vp_check_eq(r[2],p-q/2,"the other values are the real part of the complex pair"); vp_reach("end"); }
// ---- quartics, parametrised by the pairwise sums of their depressed roots
static double hR[4],hI[4]; static int nH; // candidates for the principal cube root
static void hint(double u,double v){ hR[nH]=u; hI[nH++]=v; }
static cd cbrtHint(const cd&z){ double x=z.real(),y=z.imag();
  for(int k=0;k<nH;k++){ double u=hR[k],v=hI[k];
    if(!vp_entails_eq(u*u*u-3*u*v*v,x)||!vp_entails_eq(3*u*u*v-v*v*v,y)) continue;
    // principal branch: argument in [-60,60] degrees (the sign of a negative real number's argument follows its signed zero)
    if(u==0&&v==0) return cd(0,0); if(!(u>0)) continue; double s=sqrt(3.0)*u; if(!(v<=s)) continue; if(!(-s<=v)) continue; return cd(u,v); }
  vp_undecided("principal cube root is not among the expected ones"); vp_stop(); return cd(0,0); }
static bool zeroc(const cd&z){ return vp_entails_eq(z.real(),0)&&vp_entails_eq(z.imag(),0); }
static cd powHook(const cd&z,const double&e){ if(vp_isconst(e)&&e==2.0) return z*z; if(vp_isconst(e)&&e==3.0) return z*z*z; if(zeroc(z)) return cd(0,0); return cbrtHint(z); }
// p(x) = A ((x-h)^4 + al (x-h)^2 + be (x-h) + ga) has the values h+root[i] for i<nreal, and pairs of complex roots with the real parts h+root[i], i>=nreal
static void o4(int form,double A,double h,double al,double be,double ga,const double*root,int nreal){
  vp_divfork(1); vp_replace("std::complex<double> std::pow<double>(",(void*)powHook);
  al=vp_simplify(al); be=vp_simplify(be); ga=vp_simplify(ga);
  double B=A*(-4*h),C=A*(6*h*h+al),D=A*(-4*h*h*h-2*al*h+be),E=A*(h*h*h*h+al*h*h-be*h+ga); B=vp_simplify(B); C=vp_simplify(C); D=vp_simplify(D); E=vp_simplify(E);
  std::vector<double> r; if(form==0){ std::vector<double> p; p.push_back(A); p.push_back(B); p.push_back(C); p.push_back(D); p.push_back(E); r=math::o4_roots(p); } else { Eigen::MatrixXd p(5,1); p<<A,B,C,D,E; r=math::o4_roots(p); }
  vp_check(r.size()==4,"four values are returned"); bool fin=true; for(size_t i=0;i<r.size();i++) fin=fin&&vp_finite(r[i]); vp_check(fin,"finite values are returned"); if(!fin) vp_stop();
  for(int i=0;i<nreal;i++) vp_check(has(r,root[i]+h)>=1,"every real root of the quartic is returned");
  for(int i=nreal;i<4;i++) vp_check(has(r,root[i]+h)>=2,"complex pairs are returned by their real part");
  vp_reach("end"); }
static double lead2(bool shift){ return shift?vp_real("lead",0.25,4):(vp_choice("neg",2)?-1:1); }
static void resolvent(double w1,double s2,double s3,double&e1){ double w1s=w1*w1; e1=(2*w1s-s2-s3)/6; double im=(s2-s3)/(4*sqrt(3.0)); nH=0; hint(e1/2,im); hint(e1/2,-im); }
static void rest(double w1,double s2,double s3,double prod,double&al,double&be,double&ga){ al=-(w1*w1+s2+s3)/2; be=-prod; double sm=al+w1*w1,df=be/w1; ga=(sm*sm-df*df)/4; }
static void o4_real(int form,bool shift){ double A=lead2(shift),h=shift?vp_real("shift",-4,4):0,w1=vp_real("w1",0.25,6),w2=vp_real("w2",-6,6),w3=shift?0.5:vp_real("w3",-6,6),s2=w2*w2,s3=w3*w3,e1,al,be,ga;
  vp_assume_lt(s2,w1*w1); vp_assume_lt(s3,w1*w1); if(vp_choice("order",2)) vp_assume_lt(s2,s3); else vp_assume_lt(s3,s2);
  double root[4]={(w1+w2+w3)/2,(w1-w2-w3)/2,(-w1+w2-w3)/2,(-w1-w2+w3)/2}; resolvent(w1,s2,s3,e1); rest(w1,s2,s3,w1*w2*w3,al,be,ga); o4(form,A,h,al,be,ga,root,4); }
static void o4_pairs(int form,bool shift){ double A=lead2(shift),h=shift?vp_real("shift",-4,4):0,w1=vp_real("w1",0.25,6),p=vp_real("p",-6,6),q=shift?0.5:vp_real("q",-6,6),s2=-p*p,s3=-q*q,e1,al,be,ga;
  if(vp_choice("order",2)) vp_assume_lt(s2,s3); else vp_assume_lt(s3,s2); // roots w1/2 +- i(p+q)/2, -w1/2 +- i(p-q)/2
  double root[4]={w1/2,w1/2,-w1/2,-w1/2}; resolvent(w1,s2,s3,e1); rest(w1,s2,s3,-w1*p*q,al,be,ga); o4(form,A,h,al,be,ga,root,0); }
// two real roots w1/2+-p and a pair -w1/2 +- iq
static void o4_mixed(int form,bool shift){ double A=lead2(shift),h=shift?vp_real("shift",-4,4):0,w1=vp_real("w1",-6,6),p=vp_real("p",0.25,4),q=shift?0.5:vp_real("q",0.25,4);
  double c1=w1*w1/4-p*p,c2=w1*w1/4+q*q,al=c1+c2-w1*w1,be=w1*c1-w1*c2,ga=c1*c2; double root[4]={w1/2+p,w1/2-p,-w1/2,-w1/2};
  double e1=(w1*w1+q*q-p*p)/3,sq=2*p*q/sqrt(3.0),U=(e1+sq)/2; if(!vp_symbolic()) vp_assume_lt(0.01,U<0?-U:U); nH=0; hint(U,0); hint(-U/2,-U*sqrt(3.0)/2); hint(-e1,0);
  o4(form,A,h,al,be,ga,root,2); }
HARNESS(o4_real_vec){ o4_real(0,false); }
HARNESS(o4_real_mat){ o4_real(1,false); }
HARNESS(o4_pairs_vec){ o4_pairs(0,false); }
HARNESS(o4_pairs_mat){ o4_pairs(1,false); }
HARNESS(o4_mixed_vec){ o4_mixed(0,false); }
HARNESS(o4_mixed_mat){ o4_mixed(1,false); }
HARNESS(o4_shift_vec){ int k=vp_choice("kind",2); if(k==0) o4_real(0,true); else o4_pairs(0,true); }
HARNESS(o4_shift_mat){ int k=vp_choice("kind",2); if(k==0) o4_real(1,true); else o4_pairs(1,true); }
// biquadratics x^4 + al x^2 + ga: no linear term; (x^2-u)(x^2-v), or a pair of conjugate squares
static void o4_biq(int form){ double A=vp_choice("neg",2)?-2:1,h=vp_choice("shift",2)?0.5:0; int k=vp_choice("kind",4); double root[4]; int nreal=0; double al,ga,p=vp_real("p",0.25,4),q=vp_real("q",0.25,4); nH=0;
  if(k==0){ vp_assume_lt(p+0.125,q); al=-p*p-q*q; ga=p*p*q*q; root[0]=p;root[1]=-p;root[2]=q;root[3]=-q; nreal=4; double e; resolvent(p+q,(q-p)*(q-p),0,e); }
  else if(k==1){ al=q*q-p*p; ga=-p*p*q*q; root[0]=p;root[1]=-p;root[2]=root[3]=0; nreal=2; double e1=(q*q-p*p)/3,sq=2*p*q/sqrt(3.0),U=(e1+sq)/2; if(!vp_symbolic()) vp_assume_lt(0.01,U<0?-U:U); hint(U,0); hint(-U/2,-U*sqrt(3.0)/2); hint(-e1,0); }
  else if(k==2){ vp_assume_lt(p+0.125,q); al=p*p+q*q; ga=p*p*q*q; root[0]=root[1]=root[2]=root[3]=0; double s2=-(p+q)*(p+q),s3=-(q-p)*(q-p),e1=(-s2-s3)/6,im=(s2-s3)/(4*sqrt(3.0)); hint(e1/2,im); hint(e1/2,-im); }
  else { double s2=2*p; al=2*(q*q-p*p); ga=(p*p+q*q)*(p*p+q*q); root[0]=root[1]=p; root[2]=root[3]=-p; double e; resolvent(2*p,-4*q*q,0,e); (void)s2; } // +-p +- iq
  o4(form,A,h,al,0,ga,root,nreal); }
HARNESS(o4_biquad_vec){ o4_biq(0); }
HARNESS(o4_biquad_mat){ o4_biq(1); }
