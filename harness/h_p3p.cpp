// Three-point absolute pose.
#include "scene.hpp"
#include <opengv/absolute_pose/methods.hpp>
#include <opengv/absolute_pose/CentralAbsoluteAdapter.hpp>
#include <opengv/math/roots.hpp>
#include <limits>
using namespace opengv; using namespace vp;
static transformation_t pose(const M3&R,const V3&t){ transformation_t T; T.block<3,3>(0,0)=R; T.col(3)=t; return T; }
static double sn(double x){ return vp_simplify(2*x/(1+x*x)); }
static double cs(double x){ return vp_simplify((1-x*x)/(1+x*x)); }
static double rootHint; static int slot,rootCalls;
// the quartic's roots: the scene's root (verified) in one of the four places, the others do not matter
static std::vector<double> roots(double*c){ rootCalls++; double x=rootHint,v=(((c[0]*x+c[1])*x+c[2])*x+c[3])*x+c[4];
  if(!vp_entails_eq(v,0)){ vp_fail("the quartic built from the scene has the scene's root"); vp_stop(); }
  std::vector<double> r(4,std::numeric_limits<double>::quiet_NaN()); r[slot]=x; return r; }
static std::vector<double> rootsMat(const Eigen::MatrixXd&p){ double c[5]; for(int i=0;i<5;i++) c[i]=p(i,0); return roots(c); }
static std::vector<double> rootsVec(const std::vector<double>&p){ double c[5]; for(int i=0;i<5;i++) c[i]=p[i]; return roots(c); }
static void useRoots(){ slot=vp_choice("slot",4); rootCalls=0; vp_replace("opengv::math::o4_roots(Eigen::Matrix",(void*)rootsMat); vp_replace("opengv::math::o4_roots(std::vector",(void*)rootsVec); }
static double range(const char*n,bool sym,double lo,double hi,double fix){ return sym?vp_real(n,lo,hi):fix; }
// mask: 1 alpha, 2 beta, 4 theta, 8 baseline, 16 third point, 32 orientation of the world, 64 orientation of the camera, 128 origin
static void kneip(int mask){
  double a=range("a",mask&1,0.25,1.5,0.5),b=range("b",mask&2,0.25,1.75,0.375),h=range("h",mask&4,0.25,4,0.625); if((mask&3)==3) vp_assume_lt(a*b,0.875);
  double d=range("d",mask&8,0.5,8,2),p1=range("p1",mask&16,-4,4,0.75),p2=range("p2",mask&16,0.25,4,1.25);
  double sa=sn(a),ca=cs(a),sb=sn(b),cb=cs(b),st=sn(h),ct=cs(h); M3 W=mask&32?symRot("w"):fixRot(1),G=mask&64?symRot("g"):fixRot(2); V3 O; if(mask&128) O=symVec("o",0); else O<<1,-2,0.5;
  double k=vp_simplify(sa*cb/sb+ca); V3 C; C<<d*ca*k,ct*d*sa*k,st*d*sa*k; simp(C);
  M3 Q; Q<<-ca,-sa*ct,-sa*st, sa,-ca*ct,-ca*st, 0,-st,ct; V3 P3; P3<<p1,p2,0; V3 g=Q*(P3-C); simp(g); double nn=vp_simplify(g.dot(g)); vp_assume_lt(0.0625,nn); V3 f3=g/sqrt(nn); V3 f1,f2; f1<<1,0,0; f2<<cb,sb,0;
  M3 R=W*Q.transpose()*G; V3 t=O+W*C; simp(R); simp(t); transformation_t T=pose(R,t);
  double ab=vp_simplify(sa*cb+ca*sb); // sin(alpha+beta)=sin of the angle at P2
  double hv[]={sa,ca,ca/sa,st,cb,cb/sb,sb,g[0]/g[2],g[1]/g[2],d,p1,p2,ab,-(ca*cb-sa*sb)/ab,(ca*cb-sa*sb),d-p1};
  for(double x:hv) vp_hint(vp_simplify(x)); vp_assume_ne(vp_simplify(g[0]/g[2]),0); // both components vanishing: kneip_flat
  bearingVectors_t f; points_t p; V3 j=q3(1,2,2,3); f.push_back(j); p.push_back(j); V3 P2; P2<<d,0,0; V3 z=V3::Zero(); V3 ff[3]={f1,f2,f3},pp[3]={z,P2,P3}; int sw=vp_choice("swap",2);
  for(int i=0;i<3;i++){ V3 u=G.transpose()*ff[i]; V3 q=O+W*pp[i]; simp(u); simp(q); f.push_back(u); p.push_back(q); }
  absolute_pose::CentralAbsoluteAdapter ad(f,p); rootHint=ct; useRoots(); transformations_t s; int i0=sw?2:1,i1=sw?1:2;
  if(vp_choice("overload",2)) s=absolute_pose::p3p_kneip(ad,i0,i1,3); else { std::vector<int> id; id.push_back(i0); id.push_back(i1); id.push_back(3); s=absolute_pose::p3p_kneip(ad,id); }
  vp_check(s.size()<=4,"at most four poses are returned"); vp_check(countSame(s,T)>=1,"the true pose is among the returned ones"); vp_reach("end"); }
HARNESS(kneip_theta){ kneip(4); }
HARNESS(kneip_alpha){ kneip(1); }
HARNESS(kneip_beta){ kneip(2); }
HARNESS(kneip_point){ kneip(16+128); }
HARNESS(kneip_base){ kneip(8+16); }
HARNESS(kneip_angles){ kneip(7); }
HARNESS(kneip_all){ kneip(31); }
HARNESS(kneip_world){ kneip(32+4); }
HARNESS(kneip_camera){ kneip(64+4); }
// a bearing vector perpendicular to the axes of the intermediate frame
HARNESS(kneip_flat){ int kind=vp_choice("kind",2); double s3=vp_real("s",0.5,8); V3 f1,f2,f3; f1<<1,0,0; f2=q3(7,24,0,25); f3=kind?q3(0,0,-1,1):q3(3,0,-4,5); double s1=5,s2=5,d=6; V3 P1=s1*f1,P2=s2*f2,P3=s3*f3; simp(P1); simp(P2); simp(P3);
  V3 n1=(P2-P1)/d,w=P3-P1; simp(n1); double p1=vp_simplify(n1.dot(w)),p2=sqrt(vp_simplify(w.dot(w)-p1*p1)); V3 n2=(w-p1*n1)/p2,c=-P1; simp(n2); V3 cx=c.cross(n1); simp(cx); double ct=vp_simplify(n2.dot(c)/sqrt(vp_simplify(cx.dot(cx)))),st=sqrt(vp_simplify(1-ct*ct));
  double hv[]={0.6,0.8,0.75,ct,st,p1,p2,d-p1}; for(double x:hv) vp_hint(x);
  M3 W=fixRot(1),G=fixRot(2); V3 O; O<<1,-2,0.5; if(!vp_symbolic()||vp_choice("canonical",2)){ W=M3::Identity(); G=M3::Identity(); O=V3::Zero(); } M3 R=W*G; simp(R); transformation_t T=pose(R,O); bearingVectors_t f; points_t p; V3 j=q3(1,2,2,3); f.push_back(j); p.push_back(j); V3 ff[3]={f1,f2,f3},pp[3]={P1,P2,P3}; int sw=vp_choice("swap",2);
  for(int i=0;i<3;i++){ V3 u=G.transpose()*ff[i]; V3 q=O+W*pp[i]; simp(u); simp(q); f.push_back(u); p.push_back(q); }
  absolute_pose::CentralAbsoluteAdapter ad(f,p); rootHint=ct; useRoots(); transformations_t s=absolute_pose::p3p_kneip(ad,sw?2:1,sw?1:2,3);
  vp_check(s.size()<=4,"at most four poses are returned"); vp_check(countSame(s,T)>=1,"the true pose is among the returned ones"); vp_reach("end"); }
// ---- Gao: depths along the rays; the alignment of the reconstructed points is a verified contract
static transformation_t truth;
static transformation_t alignHook(const points_t&p1,const points_t&p2){ bool ok=p1.size()==p2.size(); M3 R=truth.block<3,3>(0,0); for(size_t i=0;ok&&i<p1.size();i++) for(int k=0;ok&&k<3;k++) ok=vp_finite(p2[i][k]); for(size_t i=0;ok&&i<p1.size();i++){ V3 e=R*p2[i]+truth.col(3)-p1[i]; for(int k=0;ok&&k<3;k++) ok=vp_entails_eq(e[k],0); }
  if(ok) return truth; transformation_t z=transformation_t::Zero(); return z; }
// mask: 1,2,4 depths, 8 angle between the first rays, 16 third ray, 32 world, 64 origin
static void gao(int mask){ double d1=range("d1_",mask&1,0.5,8,2),d2=range("d2_",mask&2,0.5,8,3),d3=range("d3_",mask&4,0.5,8,2.5),g=range("g",mask&8,0.125,2,0.5); V3 f1,f2,f3; f1<<1,0,0; f2<<cs(g),sn(g),0; f3=mask&16?symUnit("f",3,2):fixUnit(1); simp(f2);
  M3 W=mask&32?symRot("w"):fixRot(1),G=fixRot(2); V3 O; if(mask&64) O=symVec("o",0); else O<<1,-2,0.5; M3 R=W*G; simp(R); truth=pose(R,O);
  double x=d1/d3,y=d2/d3,ab=sqrt(vp_simplify(d1*d1+d2*d2-2*d1*d2*cs(g))),bc=vp_simplify(d2*d2+d3*d3-2*d2*d3*f2.dot(f3)),ac=vp_simplify(d1*d1+d3*d3-2*d1*d3*f1.dot(f3)); vp_assume_lt(0.0625,bc); vp_assume_lt(0.0625,ac); vp_assume_lt(0.0625,ab*ab);
  double A=vp_simplify(bc/(ab*ab)),B=vp_simplify(ac/(ab*ab)),P=2*f2.dot(f3),Q=2*f1.dot(f3),r=2*f1.dot(f2); vp_assume_ne((1-A-B)*(1-A-B)-A*B*r*r,0); vp_assume_ne(P*P+Q*Q+r*r-P*Q*r-4,0);
  double hv[]={x,y,ab,ab/d3,d1,d2,d3,vp_simplify(bc/(ab*ab)),vp_simplify(ac/(ab*ab))}; for(double v:hv) vp_hint(vp_simplify(v));
  bearingVectors_t f; points_t p; V3 j=q3(1,2,2,3); f.push_back(j); p.push_back(j); V3 ff[3]={f1,f2,f3}; double dd[3]={d1,d2,d3}; for(int i=0;i<3;i++){ V3 u=G.transpose()*ff[i]; V3 q=O+W*(dd[i]*ff[i]); simp(u); simp(q); f.push_back(u); p.push_back(q); }
  absolute_pose::CentralAbsoluteAdapter ad(f,p); rootHint=x; useRoots(); vp_replace("opengv::math::arun_complete(",(void*)alignHook); transformations_t s;
  if(vp_choice("overload",2)) s=absolute_pose::p3p_gao(ad,1,2,3); else { std::vector<int> id; id.push_back(1); id.push_back(2); id.push_back(3); s=absolute_pose::p3p_gao(ad,id); }
  vp_check(s.size()<=4,"at most four poses are returned"); vp_check(countSame(s,truth)>=1,"the true pose is among the returned ones"); vp_reach("end"); }
HARNESS(gao_d1){ gao(1); }
HARNESS(gao_depths){ gao(7); }
HARNESS(gao_angle){ gao(8); }
HARNESS(gao_ray){ gao(16); }
HARNESS(gao_all){ gao(31); }
HARNESS(gao_world){ gao(32+64+4); }
// right angles and the angle for which the coplanarity test once misfired
HARNESS(gao_sixty){ vp_divfork(1); double d3=vp_real("d3_",0.5,8); truth=pose(M3::Identity(),V3::Zero()); V3 f1,f2,f3; f1<<1,0,0; f2<<0.5,sqrt(3.0)/2,0; f3<<0,0,1; double d1=2,d2=3; double ab=sqrt(d1*d1+d2*d2-d1*d2); double hv[]={d1/d3,d2/d3,ab/d3,ab,d3}; for(double v:hv) vp_hint(vp_simplify(v));
  bearingVectors_t f; points_t p; f.push_back(f1); f.push_back(f2); f.push_back(f3); V3 a=d1*f1,b=d2*f2,c=d3*f3; p.push_back(a); p.push_back(b); p.push_back(c); absolute_pose::CentralAbsoluteAdapter ad(f,p); rootHint=d1/d3; useRoots(); vp_replace("opengv::math::arun_complete(",(void*)alignHook); transformations_t s=absolute_pose::p3p_gao(ad,0,1,2); vp_check(countSame(s,truth)>=1,"the true pose is among the returned ones"); vp_reach("end"); }
