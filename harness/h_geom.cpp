// Triangulation, two-point methods, rotation from correspondences, point-cloud alignment.
#include "scene.hpp"
#include <opengv/triangulation/methods.hpp>
#include <opengv/absolute_pose/methods.hpp>
#include <opengv/absolute_pose/CentralAbsoluteAdapter.hpp>
#include <opengv/relative_pose/methods.hpp>
#include <opengv/relative_pose/CentralRelativeAdapter.hpp>
#include <opengv/point_cloud/methods.hpp>
#include <opengv/point_cloud/PointCloudAdapter.hpp>
#include <opengv/math/arun.hpp>
using namespace opengv; using namespace vp;
// ---- triangulation: X = d1 f1 = t + d2 R f2
static void tri(int which,bool symR){
  V3 f1=symUnit("f",1),f2=symUnit("f",2); double d1=vp_real("d1",1,8),d2=vp_real("d2",1,8); M3 R=symR?symRot("r"):fixRot(1);
  V3 X=d1*f1; V3 t=X-d2*(R*f2); simp(t);
  // rays must not be parallel
  V3 c=f1.cross(V3(R*f2)); vp_assume_lt(0.0625,c.dot(c));
  V3 j=q3(1,2,2,3); bearingVectors_t a,b; a.push_back(j); b.push_back(j); a.push_back(f1); b.push_back(f2);
  relative_pose::CentralRelativeAdapter ad(a,b,t,R);
  kernels.clear(); MX N(4,1); N<<X[0],X[1],X[2],1; kernels.push_back(N); useSvd(0);
  point_t p=which==1?triangulation::triangulate(ad,1):triangulation::triangulate2(ad,1);
  checkEq(p,X,"triangulation returns the point both rays pass through, in the first frame");
  vp_reach("end"); }
HARNESS(triangulate_rot){ tri(1,true); }
HARNESS(triangulate2_rot){ tri(2,true); }
HARNESS(triangulate2_fix){ tri(2,false); }
// ---- two points, known rotation: direction of translation
static void twoptBody(bool unrotate,int mode){
  M3 R=mode==1?symRot("r"):fixRot(2); V3 f1=fixUnit(0),g1=mode==0?symUnit("g",1,1):fixUnit(2); double d1=mode!=1?vp_real("d1",1,8):3,e1=mode==0?2:(mode==2?vp_real("e1",1,8):vp_real("e1",1,8));
  // frame 2 directions expressed in frame 1: g ; f'=R^T g
  V3 t=d1*f1-e1*g1; // translation
  V3 X2=q3(1,-2,3,1); if(mode==2) X2[2]=vp_real("a2",-8,8); // second point
  V3 n2=X2-t; V3 s1=R.transpose()*g1,s2=R.transpose()*n2; simp(s1); simp(s2); simp(n2);
  double tt=t.dot(t); vp_assume_lt(0.0625,tt); V3 c1=f1.cross(g1); double k=vp_simplify(c1.dot(X2)); if(vp_choice("side",2)) vp_assume_lt(0.125,k); else vp_assume_lt(k,-0.125);
  bearingVectors_t a,b; a.push_back(q3(1,2,2,3)); b.push_back(q3(2,1,2,3)); a.push_back(X2); b.push_back(unrotate?s2:n2); a.push_back(f1); b.push_back(unrotate?s1:g1);
  relative_pose::CentralRelativeAdapter ad(a,b,R); translation_t r;
  if(vp_choice("overload",2)) r=relative_pose::twopt(ad,unrotate,2,1); else { std::vector<int> id; id.push_back(2); id.push_back(1); r=relative_pose::twopt(ad,unrotate,id); }
  V3 x=r.cross(t); checkEq(x,V3(V3::Zero()),"two-point translation is parallel to the true one");
  vp_check_lt(0,r.dot(t),"two-point translation points in the direction of the true one");
  vp_check_eq(r.dot(r),1,"two-point translation is a unit vector");
  vp_reach("end"); }
HARNESS(twopt_unrotate){ twoptBody(true,0); }
HARNESS(twopt_unrotate_rot){ twoptBody(true,1); }
HARNESS(twopt_unrotate_depth){ twoptBody(true,2); }
HARNESS(twopt_unrotated){ twoptBody(false,0); }
// ---- rotation-only, any number of correspondences
static V3 onCircle(double th,double h){ double r=(1-h*h)/(1+h*h),z=2*h/(1+h*h); V3 v; v<<r*(1-th*th)/(1+th*th),r*2*th/(1+th*th),z; return v; }
// frame-1 vectors W f, frame-2 vectors R^T W f; decomposition of sum f' f^T from the one of sum f f^T = W diag W^T
static void rotSetup(const M3&R,const M3&W,const V3&diag,int k0,int k1,int k2,double flip,const MX&H){ (void)H; M3 P=M3::Zero(); P(k0,0)=1; P(k1,1)=1; P(k2,2)=1; M3 U=R.transpose()*W*P,V=W*P; V3 d; d<<diag[k0],diag[k1],diag[k2]; simp(U); simp(V);
  gA=U*d.asDiagonal()*V.transpose(); U.col(2)*=flip; gUu=U; gVv=V; gSs=d; if(flip<0&&0) gA=gA; useSvd(1); }
HARNESS(rotation_only){
  M3 R=symRot("r"),W=fixRot(vp_choice("frame",2)+1); int n=3+vp_choice("more",2);
  double x=vp_real("x",0.25,0.75),h=vp_real("h",-0.5,0.5); double flip=vp_choice("flip",2)?-1:1;
  V3s f; if(n==3){ f.push_back(onCircle(x,h)); V3 m=f[0]; m[1]=-m[1]; f.push_back(m); m=onCircle(0,h); m[0]=-m[0]; f.push_back(m); }
  else { V3 a=onCircle(x,h); for(int i=0;i<4;i++){ V3 m=a; if(i&1) m[0]=-m[0]; if(i&2) m[1]=-m[1]; f.push_back(m); } }
  V3 c=V3::Zero(); for(int i=0;i<n;i++) c+=f[i]; c=c/n; V3 D=V3::Zero(); for(int i=0;i<n;i++) for(int k=0;k<3;k++) D[k]+=(f[i][k]-c[k])*(f[i][k]-c[k]);
  vp_assume_lt(0.03125,D[0]); vp_assume_lt(0.03125,D[1]); simp(D);
  bearingVectors_t a,b; std::vector<int> id; int ov=vp_choice("overload",2); if(ov==0){ a.push_back(q3(1,2,2,3)); b.push_back(q3(2,1,2,3)); }
  for(int i=0;i<n;i++){ V3 p=W*f[i],q=R.transpose()*p; simp(p); simp(q); a.push_back(p); b.push_back(q); id.insert(id.begin(),(int)a.size()-1); }
  bool xy=vp_choice("order",2); if(xy) vp_assume_le(D[1],D[0]); else vp_assume_le(D[0],D[1]);
  rotSetup(R,W,D,xy?0:1,xy?1:0,2,flip,MX());
  relative_pose::CentralRelativeAdapter ad(a,b); rotation_t r=ov?relative_pose::rotationOnly(ad):relative_pose::rotationOnly(ad,id);
  checkEq(r,R,"rotation-only estimation returns the rotation relating the bearing vectors");
  vp_reach("end"); }
HARNESS(twopt_rotation_only){
  M3 R=symRot("r"),W=symRot("w"); double x=vp_real("x",0.0625,0.9375); double flip=vp_choice("flip",2)?-1:1; // half angle
  double s=2*x/(1+x*x),c=(1-x*x)/(1+x*x); V3 f1,f2; f1<<s,c,0; f2<<-s,c,0; V3 D; D<<s*s/2*4,c*c/18*4,0; simp(D);
  bearingVectors_t a,b; a.push_back(q3(1,2,2,3)); b.push_back(q3(2,1,2,3)); V3 p=W*f2,q=R.transpose()*p; simp(p); simp(q); a.push_back(p); b.push_back(q); p=W*f1; q=R.transpose()*p; simp(p); simp(q); a.push_back(p); b.push_back(q);
  bool xy=vp_choice("order",2); if(xy) vp_assume_le(D[1],D[0]); else vp_assume_le(D[0],D[1]);
  vp_assume_lt(0.001,D[0]); vp_assume_lt(0.001,D[1]);
  rotSetup(R,W,D,xy?0:1,xy?1:0,2,flip,MX());
  relative_pose::CentralRelativeAdapter ad(a,b); rotation_t r;
  if(vp_choice("overload",2)) r=relative_pose::twopt_rotationOnly(ad,2,1); else { std::vector<int> id; id.push_back(1); id.push_back(2); r=relative_pose::twopt_rotationOnly(ad,id); }
  checkEq(r,R,"two-point rotation estimation returns the rotation relating the bearing vectors");
  vp_reach("end"); }
// ---- point clouds: p1 = R p2 + t
static void cloud(int mode){
  M3 R=symRot("r"),W=fixRot(1); V3 t=symVec("t",0),cen=symVec("c",0,4); double al=vp_real("al",1,4),be=vp_real("be",1,4),ga=vp_real("ga",1,4),q=vp_real("q",0.25,2);
  V3s o; int n; double flip=vp_choice("flip",2)?-1:1;
  if(mode==0){ n=3; double k=-(2+q)/(1+2*q); V3 v; v<<al,be,0; o.push_back(v); v<<al*q,be*k,0; o.push_back(v); v<<-al*(1+q),-be*(1+k),0; o.push_back(v); }
  else { n=4; V3 v; v<<al,be,ga; o.push_back(v); v<<al,-be,-ga; o.push_back(v); v<<-al,be,-ga; o.push_back(v); v<<-al,-be,ga; o.push_back(v); flip=1; }
  V3 D=V3::Zero(); for(int i=0;i<n;i++) for(int k=0;k<3;k++) D[k]+=o[i][k]*o[i][k]; simp(D);
  points_t a,b; std::vector<int> id; int ov=vp_choice("overload",2); if(ov==0){ a.push_back(q3(1,2,2,3)); b.push_back(q3(2,1,2,3)); }
  for(int i=0;i<n;i++){ V3 p2=cen+W*o[i]; V3 p1=R*p2+t; simp(p1); simp(p2); a.push_back(p1); b.push_back(p2); id.insert(id.begin(),(int)a.size()-1); }
  // correlation H = sum p2' p1'^T = W D W^T R^T
  int perm=vp_choice("order",mode==0?2:6); static const int pm[6][3]={{0,1,2},{1,0,2},{0,2,1},{2,0,1},{1,2,0},{2,1,0}}; int k0=pm[perm][0],k1=pm[perm][1],k2=pm[perm][2]; vp_assume_le(D[k1],D[k0]); vp_assume_le(D[k2],D[k1]);
  M3 P=M3::Zero(); P(k0,0)=1; P(k1,1)=1; P(k2,2)=1; M3 U=W*P,V=R*W*P; V3 d; d<<D[k0],D[k1],D[k2]; simp(U); simp(V); gA=U*d.asDiagonal()*V.transpose(); U.col(2)*=flip; gUu=U; gVv=V; gSs=d; useSvd(1);
  transformation_t T;
  if(mode==2){ points_t a2,b2; for(size_t i=0;i<id.size();i++){ a2.push_back(a[id[i]]); b2.push_back(b[id[i]]); } T=math::arun_complete(a2,b2); }
  else { point_cloud::PointCloudAdapter ad(a,b); T=ov?point_cloud::threept_arun(ad):point_cloud::threept_arun(ad,id); }
  checkEq(M3(T.block<3,3>(0,0)),R,"point-cloud alignment returns the rotation relating the clouds"); checkEq(V3(T.col(3)),t,"point-cloud alignment returns the translation relating the clouds");
  vp_reach("end"); }
HARNESS(cloud_three){ cloud(0); }
HARNESS(cloud_four){ cloud(1); }
HARNESS(cloud_complete){ cloud(2); }
// ---- p2p: position from two points with known orientation
static void p2pBody(int pattern,bool symR){
  M3 R=symR?cayleyRot(vp_real("r",-3,3),0.5,-0.25):fixRot(1); simp(R); V3 f0,f1; f0=fixUnit(0); f1=(pattern==4||pattern==5)?fixUnit(2):(pattern==0?unit(vp_real("f",-1,1),0.25):symUnit("f",1,1)); double d0=pattern==0||pattern==5?2:vp_real("d0",1,8),d1;
  V3 u0=R*f0,u1=R*f1; simp(u0); simp(u1); V3 pos=symVec("t",0,4); V3 p0=pos+d0*u0,p1; 
  if(pattern==0||pattern>=4){ d1=pattern==5?3:vp_real("d1",1,8); }
  else { // make two components of the baseline equal in magnitude, d1 solves it
    int i=pattern==1?0:(pattern==2?0:1),j=pattern==1?1:2; double s=vp_choice("sign",2)?1:-1; d1=d0*(u0[i]-s*u0[j])/(u1[i]-s*u1[j]); d1=vp_simplify(d1); vp_assume_lt(0.5,d1); vp_assume_lt(d1,16); }
  p1=pos+d1*u1; simp(p0); simp(p1); V3 base=p1-p0; vp_assume_lt(0.25,base.dot(base)); V3 cr=f0.cross(f1); vp_assume_lt(0.0625,cr.dot(cr));
  bearingVectors_t f; points_t p; f.push_back(q3(2,1,2,3)); p.push_back(q3(1,2,3,1)); f.push_back(f1); p.push_back(p1); f.push_back(f0); p.push_back(p0);
  absolute_pose::CentralAbsoluteAdapter ad(f,p,R); translation_t r;
  if(vp_choice("overload",2)) r=absolute_pose::p2p(ad,2,1); else { std::vector<int> id; id.push_back(2); id.push_back(1); r=absolute_pose::p2p(ad,id); }
  checkEq(r,pos,"two-point position is the camera position"); vp_reach("end"); }
// baselines with two equal components and a vanishing one (the frame construction divides by a component)
HARNESS(p2p_vanishing){
  double l=vp_real("l",0.5,4); static const int u[2][6]={{1,2,2,-2,-1,2},{1,2,2,2,1,2}}; int c=vp_choice("case",2),pm=vp_choice("axes",6),sg=vp_choice("signs",2); static const int P[6][3]={{0,1,2},{1,0,2},{0,2,1},{2,0,1},{1,2,0},{2,1,0}};
  V3 u0,u1; for(int i=0;i<3;i++){ u0[P[pm][i]]=(sg?-1.0:1.0)*u[c][i]/3; u1[P[pm][i]]=(sg?-1.0:1.0)*u[c][3+i]/3; }
  M3 R=fixRot(1); V3 pos=symVec("t",0,4),p0=pos+l*u0,p1=pos+l*u1; V3 f0=R.transpose()*u0,f1=R.transpose()*u1;
  bearingVectors_t f; points_t p; f.push_back(f0); p.push_back(p0); f.push_back(f1); p.push_back(p1); absolute_pose::CentralAbsoluteAdapter ad(f,p,R);
  translation_t r=absolute_pose::p2p(ad,0,1); checkEq(r,pos,"two-point position is the camera position"); vp_reach("end"); }
// baseline along a coordinate axis
HARNESS(p2p_axis){
  double l=vp_real("l",0.5,4); int pm=vp_choice("axis",3),sg=vp_choice("signs",2); V3 u0,u1; for(int i=0;i<3;i++){ static const int a[3]={1,2,2}; u0[(pm+i)%3]=(double)a[i]/3; u1[(pm+i)%3]=(i==0?-1.0:1.0)*a[i]/3; } if(sg){ u0=-u0; u1=-u1; }
  M3 R=fixRot(1); V3 pos=symVec("t",0,4),p0=pos+l*u0,p1=pos+l*u1; V3 f0=R.transpose()*u0,f1=R.transpose()*u1;
  bearingVectors_t f; points_t p; f.push_back(f0); p.push_back(p0); f.push_back(f1); p.push_back(p1); absolute_pose::CentralAbsoluteAdapter ad(f,p,R);
  translation_t r=absolute_pose::p2p(ad,0,1); checkEq(r,pos,"two-point position is the camera position"); vp_reach("end"); }
HARNESS(p2p_generic){ p2pBody(0,false); }
HARNESS(p2p_depths){ p2pBody(4,false); }
HARNESS(p2p_rot){ p2pBody(5,true); }
HARNESS(p2p_tie01){ p2pBody(1,false); }
HARNESS(p2p_tie02){ p2pBody(2,false); }
HARNESS(p2p_tie12){ p2pBody(3,false); }
