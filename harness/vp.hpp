// Harness interface. The same harness source is compiled twice:
//  - by clang to LLVM IR, executed symbolically by engine/vpsym (intrinsics below are
//    interpreted by the engine), and
//  - by g++ against the real library sources (-DVP_NATIVE), to replay a solver
//    counterexample with ordinary doubles.
#pragma once
#include <Eigen/Eigen>
#include <vector>
#include <cmath>
#include <cstdio>
#include <opengv/types.hpp>
extern "C" {
int    vp_symbolic();
double vp_real(const char *name, double lo, double hi);
double vp_fresh(const char *name, double witness);
int    vp_int(const char *name, int lo, int hi);
int    vp_choice(const char *name, int n);
void   vp_assume(bool c);
void   vp_assume_lt(double a, double b);
void   vp_assume_le(double a, double b);
void   vp_assume_eq(double a, double b);
void   vp_assume_ne(double a, double b);
void   vp_check(bool c, const char *label);
void   vp_check_eq(double a, double b, const char *label);
void   vp_check_lt(double a, double b, const char *label);
void   vp_check_le(double a, double b, const char *label);
int    vp_entails_eq(double a, double b);
int    vp_finite(double a);
void   vp_reach(const char *label);
double vp_num(double x);
int    vp_isconst(double x);
void   vp_approx(int on);
void   vp_divfork(int on);
void   vp_zerotol(int on);   // comparisons against constants below 1e-9 read as exact tests against zero
double vp_alg(const char *name, int degree, const double *coeffs, double witness);
double vp_diff(double e, double var);
double vp_simplify(double e);
void   vp_hint(double v);   // a value that is expected to come up: results provably equal to it (or to its negative) are represented by it
int    vp_terms(double e);
void   vp_show(const char *name, double e);
void   vp_hook(const char *prefix, void *callback);
void   vp_replace(const char *prefix, void *callback); // symbolic build: run callback (same signature) instead; no effect natively
void   vp_budget(int terms);
void   vp_timeout(double s);
void   vp_fail(const char *label);
void   vp_undecided(const char *label);
void   vp_expect(const char *reachLabel);
void   vp_stop();
void   vp_tol(double t);
void   vp_note(const char *s);
}
#ifdef VP_NATIVE
#define HARNESS(n) extern "C" void n()
#else
#define HARNESS(n) extern "C" void n()
#endif
#ifdef VP_NATIVE
#include "../shim/vphooks.hpp"
#else
namespace vphook { [[noreturn]] inline void missing_(const char*what){ vp_undecided(what); vp_stop(); for(;;); } void missing(const char*what){ missing_(what); } }
#endif
namespace vp {
typedef Eigen::Vector3d V3; typedef Eigen::Matrix3d M3;
inline M3 skew(const V3 &v){ M3 s; s << 0,-v[2],v[1], v[2],0,-v[0], -v[1],v[0],0; return s; }
// rotation from (unnormalised) quaternion (1,x,y,z): rational parametrisation
inline M3 cayleyRot(double x,double y,double z){
  double s=1+x*x+y*y+z*z; M3 R;
  R << 1+x*x-y*y-z*z, 2*(x*y-z), 2*(x*z+y),
       2*(x*y+z), 1-x*x+y*y-z*z, 2*(y*z-x),
       2*(x*z-y), 2*(y*z+x), 1-x*x-y*y+z*z;
  for(int i=0;i<3;i++) for(int j=0;j<3;j++) R(i,j)=R(i,j)/s; return R; }
inline M3 quatRot(double w,double x,double y,double z){
  double s=w*w+x*x+y*y+z*z; M3 R;
  R << w*w+x*x-y*y-z*z, 2*(x*y-w*z), 2*(x*z+w*y),
       2*(x*y+w*z), w*w-x*x+y*y-z*z, 2*(y*z-w*x),
       2*(x*z-w*y), 2*(y*z+w*x), w*w-x*x-y*y+z*z;
  for(int i=0;i<3;i++) for(int j=0;j<3;j++) R(i,j)=R(i,j)/s; return R; }
inline void simp(M3&m){ for(int i=0;i<3;i++) for(int j=0;j<3;j++) m(i,j)=vp_simplify(m(i,j)); }
inline void simp(V3&m){ for(int i=0;i<3;i++) m[i]=vp_simplify(m[i]); }
// unit vector by stereographic projection (covers the sphere minus one pole)
inline V3 unit(double a,double b){ double s=1+a*a+b*b; V3 v; v << 2*a/s, 2*b/s, (1-a*a-b*b)/s; return v; }
inline V3 rat3(double a,double b,double c,double n){ V3 v; v<<a/n,b/n,c/n; return v; }
template<class A,class B> inline void checkEq(const A&a,const B&b,const char*label){
  if(a.rows()!=b.rows()||a.cols()!=b.cols()){ vp_fail(label); return; }
  for(int i=0;i<a.rows();i++) for(int j=0;j<a.cols();j++) vp_check_eq(a(i,j),b(i,j),label); }
template<class A,class B> inline bool entailsEq(const A&a,const B&b){
  for(int i=0;i<a.rows();i++) for(int j=0;j<a.cols();j++) if(!vp_entails_eq(a(i,j),b(i,j))) return false; return true; }
template<class A> inline void checkRotation(const A&R,const char*label){
  for(int i=0;i<3;i++) for(int j=i;j<3;j++){ double s=0; for(int k=0;k<3;k++) s+=R(k,i)*R(k,j); vp_check_eq(s,i==j?1.0:0.0,label); }
  double d=R(0,0)*(R(1,1)*R(2,2)-R(1,2)*R(2,1))-R(0,1)*(R(1,0)*R(2,2)-R(1,2)*R(2,0))+R(0,2)*(R(1,0)*R(2,1)-R(1,1)*R(2,0));
  vp_check_eq(d,1.0,label); }
inline V3 vec(const char*n,double lo,double hi){ char b[64]; V3 v; for(int i=0;i<3;i++){ snprintf(b,64,"%s%d",n,i); v[i]=vp_real(b,lo,hi);} return v; }
}
