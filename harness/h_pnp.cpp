// Absolute pose from six or more points: the control-point methods for single cameras and for rigs.
#include "scene.hpp"
#include <opengv/absolute_pose/methods.hpp>
#include <opengv/absolute_pose/CentralAbsoluteAdapter.hpp>
#include <opengv/absolute_pose/NoncentralAbsoluteAdapter.hpp>
#include <limits>
#include <iostream>
#define private public
#include <opengv/absolute_pose/modules/Epnp.hpp>
#undef private
using namespace opengv; using namespace vp;
static transformation_t pose(const M3&R,const V3&t){ transformation_t T; T.block<3,3>(0,0)=R; T.col(3)=t; return T; }
static M3 W,RW; static V3 half; static VX nul; static double nn,bt; static int nPts,sgn,pca,sys,al,ls;
#ifndef VP_NATIVE
static bool diagIs(const MX&A,const M3&U,const M3&V,const V3&s){ MX D=U.transpose()*A*V; for(int i=0;i<3;i++) for(int j=0;j<3;j++) if(!vp_entails_eq(D(i,j),i==j?s[i]:0)) return false; return true; }
static bool esvd(const MX&A,MX&U,VX&S,MX&V,unsigned){
  if(A.rows()==3&&A.cols()==3){ V3 s; for(int i=0;i<3;i++) s[i]=vp_simplify(half[i]*half[i]*nPts); S=s; if(diagIs(A,W,W,s)){ pca++; U=W; V=W; return true; } if(diagIs(A,RW,W,s)){ al++; U=RW; V=W; return true; } vp_fail("the decomposed moment matrix is the one of the point cloud"); vp_stop(); }
  if(A.rows()==12&&A.cols()==12){ sys++; VX z=A*nul; for(int i=0;i<12;i++) if(!vp_entails_eq(z[i],0)){ vp_fail("the camera coordinates of the control points solve the linear system"); vp_stop(); }
    U.resize(12,12); S.resize(12); for(int i=0;i<12;i++){ S[i]=i<11?12-i:0; for(int j=0;j<11;j++) U(i,j)=((i*5+j*7)%13-6)/8.0; U(i,11)=sgn*nul[i]/nn; } V=U; return true; }
  return false; }
static bool elsq(const MX&A,const MX&B,MX&X){ ls++; VX x(A.cols()); x.setZero(); x[0]=bt*bt; VX r=A*x-B; for(int i=0;i<r.size();i++) if(!vp_entails_eq(r[i],0)){ vp_fail("the true scale of the null vector solves the distance equations"); vp_stop(); } X=x; return true; }
#endif
static void qrHook(void*,Eigen::Matrix<double,6,4>&A,Eigen::Matrix<double,6,1>&b,Eigen::Matrix<double,4,1>&X){ for(int i=0;i<6;i++) if(!vp_entails_eq(b(i,0),0)){ vp_fail("the refinement starts at the solution"); vp_stop(); } X.setZero(); }
// mask: 1 rotation, 2 translation, 4 extents of the cloud, 8 centre of the cloud ; behind: the first point lies behind the image plane
static void epnp(int mask,int behind,int n){ M3 R=mask&1?symRot("c",1):fixRot(2); W=fixRot(1); V3 c0; c0<<1,-2,0.5; if(mask&8) c0=symVec("w",0,4); half<<3,2,1; if(mask&4){ half[0]=vp_real("a",2.5,4); half[1]=vp_real("b",1.5,2); half[2]=vp_real("h",0.5,1); }
  V3 v; v<<0.5,-0.25,behind?-9:9; if(mask&2){ v[0]=vp_real("v0",-3,3); v[1]=vp_real("v1",-3,3); v[2]=behind?vp_real("v2",-14,-9):vp_real("v2",9,14); } // centre of the cloud in the camera frame
  V3 t=c0-R*v; simp(t); bearingVectors_t f; points_t p; std::vector<int> id; nPts=n; V3 j=q3(2,-1,2,3); f.push_back(j); p.push_back(j);
  for(int i=0;i<n;i++){ V3 q; if(n==8) q<<(i&1?1:-1)*half[0],(i&2?1:-1)*half[1],(i&4?1:-1)*half[2]; else { q<<0,0,0; q[i/2]=(i&1?1:-1)*half[i/2]*2; if(i>=6) q.setZero(); } V3 P=c0+W*q; V3 g=R.transpose()*(P-t); simp(P); simp(g); if(!vp_symbolic()) g.normalize(); f.push_back(g); p.push_back(P); }
  for(int i=0;i<n;i++) id.push_back(n-i);
  RW=R.transpose()*W; simp(RW); nul.resize(12); for(int k=0;k<4;k++){ V3 q=v; if(k) q+=half[k-1]*RW.col(k-1); simp(q); for(int r=0;r<3;r++) nul[3*k+r]=q[r]; }
  sgn=vp_choice("sign",2)*2-1; nn=4; bt=4; for(int i=0;i<3;i++) vp_hint(half[i]); pca=sys=al=ls=0;
#ifndef VP_NATIVE
  vphook::svd=esvd; vphook::lstsq=elsq; vp_replace("opengv::absolute_pose::modules::Epnp::qr_solve",(void*)qrHook);
#endif
  vp_tol(1e-4); absolute_pose::CentralAbsoluteAdapter ad(f,p); transformation_t T=absolute_pose::epnp(ad,id); checkEq(T,pose(R,t),"the true pose is returned"); vp_reach("end"); }
HARNESS(epnp_rot){ epnp(1,0,8); }
HARNESS(epnp_t){ epnp(2,0,8); }
HARNESS(epnp_shape){ epnp(4+8,0,8); }
HARNESS(epnp_behind){ epnp(2,1,8); }
// the refinement step: the linear system is the derivative of the distance equations, and it is solved exactly
HARNESS(epnp_jacobian){ Eigen::Matrix<double,6,10> L; Eigen::Matrix<double,6,1> rho,b; Eigen::Matrix<double,6,4> A; double be[4]; for(int i=0;i<4;i++) be[i]=real("b",i,-4,4); for(int i=0;i<6;i++){ rho[i]=i+1.5; for(int j=0;j<10;j++) L(i,j)=i==0?real("l",j,-4,4):((i*7+j*5)%13-6)/4.0; }
  absolute_pose::modules::Epnp e; e.compute_A_and_b_gauss_newton(L,rho,be,A,b); static const int p[10][2]={{0,0},{0,1},{1,1},{0,2},{1,2},{2,2},{0,3},{1,3},{2,3},{3,3}};
  for(int i=0;i<6;i++){ double r=rho[i]; for(int j=0;j<10;j++) r-=L(i,j)*be[p[j][0]]*be[p[j][1]]; vp_check_eq(b[i],r,"residuals of the distance equations"); for(int k=0;k<4;k++){ double d=0; for(int j=0;j<10;j++) d+=L(i,j)*((p[j][0]==k?be[p[j][1]]:0)+(p[j][1]==k?be[p[j][0]]:0)); vp_check_eq(A(i,k),d,"derivative of the distance equations"); } } vp_reach("end"); }
static void qr(int sym){ Eigen::Matrix<double,6,4> A; Eigen::Matrix<double,6,1> b; Eigen::Matrix<double,4,1> x,X; static const int a[6][4]={{3,1,0,2},{0,4,2,-1},{-4,0,1,0},{0,3,-2,5},{0,0,2,1},{0,0,1,-3}}; for(int i=0;i<4;i++) x[i]=real("x",i,-8,8); for(int i=0;i<6;i++) for(int j=0;j<4;j++) A(i,j)=a[i][j]; if(sym){ double s=vp_real("a",-3,3); A(5,sym-1)=s; }
  for(int i=0;i<6;i++){ b[i]=0; for(int j=0;j<4;j++) b[i]+=A(i,j)*x[j]; } absolute_pose::modules::Epnp e; e.qr_solve(A,b,X); for(int i=0;i<4;i++) vp_check_eq(X[i],x[i],"a consistent linear system is solved exactly"); vp_reach("end"); }
HARNESS(epnp_qr){ qr(0); }
HARNESS(epnp_qr4){ qr(4); }
HARNESS(epnp_qr3){ qr(3); }
// ---- rigs: the solution is read off the linear system, the four control points are aligned, and the best candidate is returned
#include <opengv/absolute_pose/modules/main.hpp>
#include <opengv/absolute_pose/modules/gpnp1/modules.hpp>
#include <opengv/absolute_pose/modules/gpnp2/modules.hpp>
#include <opengv/absolute_pose/modules/gpnp3/modules.hpp>
#include <opengv/absolute_pose/modules/gpnp4/modules.hpp>
#include <opengv/absolute_pose/modules/gpnp5/modules.hpp>
typedef Eigen::Matrix<double,12,1> X12; typedef Eigen::Matrix<double,12,12> V12;
static X12 xt; static M3 Qn; static int gp,gs,ga;
#ifndef VP_NATIVE
static bool gsvd(const MX&A,MX&U,VX&S,MX&V,unsigned){
  if(A.rows()==3&&A.cols()==3){ for(int i=0;i<9;i++) if(A(i/3,i%3)!=A(i/3,i%3)){ U=A; V=A; S=A.col(0); return true; }
    M3 a=RW*Qn,b=W*Qn; V3 s; s<<225,225,56.25; if(!diagIs(A,a,b,s)){ vp_fail("the control points are aligned with their camera coordinates"); vp_stop(); } ga++; U=a; V=b; S=s; return true; }
  if(A.rows()==3&&A.cols()==nPts){ MX B=W.transpose()*A; S.resize(3); for(int i=0;i<3;i++) for(int j=0;j<3;j++){ double d=0; for(int k=0;k<nPts;k++) d+=B(i,k)*B(j,k); if(i==j) S[i]=1; else if(!vp_entails_eq(d,0)){ vp_fail("the points are taken relative to their centre"); vp_stop(); } }
    gp++; U=W; V=MX::Zero(nPts,3); return true; }
  if(A.cols()==12&&A.rows()==2*nPts){ gs++; VX b=A*xt; double d=0; for(int i=0;i<b.size();i++) d+=(i%5-1.5)*b[i]; vp_assume_ne(d,0); U.resize(b.size(),12); S.resize(12); for(int j=0;j<12;j++) S[j]=13-j; V=MX::Identity(12,12); for(int i=0;i<b.size();i++) for(int j=0;j<12;j++) U(i,j)=(13-j)*(i%5-1.5)*xt[j]/d; return true; }
  return false; }
template<int r,int c> static void noRow(Eigen::Matrix<double,r,c>&){}
static void noOpt(const X12&,const V12&,const points_t&,std::vector<double>&){}
static void ini1(Eigen::Matrix<double,5,3>&,const X12&,X12&,V3&,V3&,V3&,V3&){}
static void ini2(Eigen::Matrix<double,10,6>&,const X12&,X12&,X12&,V3&,V3&,V3&,V3&){}
static void ini3(Eigen::Matrix<double,15,18>&,const X12&,X12&,X12&,X12&,V3&,V3&,V3&,V3&){}
static void ini4(Eigen::Matrix<double,25,37>&,const X12&,X12&,X12&,X12&,X12&,V3&,V3&,V3&,V3&){}
static void ini5(Eigen::Matrix<double,44,80>&,const X12&,X12&,X12&,X12&,X12&,X12&,V3&,V3&,V3&,V3&){}
static void noModules(int keep){
#define OFF(k,r,c) if(keep!=k){ vp_replace("opengv::absolute_pose::modules::gpnp" #k "::init",(void*)ini##k); vp_replace("opengv::absolute_pose::modules::gpnp" #k "::compute",(void*)noRow<r,c>); }
  OFF(1,5,3) OFF(2,10,6) OFF(3,15,18) OFF(4,25,37) OFF(5,44,80) vp_replace("opengv::absolute_pose::modules::gpnp_optimize",(void*)noOpt); }
#endif
// mask: 1 rotation, 2 translation, 4 extents of the cloud, 8 centre of the cloud, 16 camera positions
static void gpnp(int mask){ M3 R=mask&1?symRot("c",1):fixRot(2); W=fixRot(1); V3 c0; c0<<1,-2,0.5; if(mask&8) c0=symVec("w",0,4); half<<3,2,1; if(mask&4){ half[0]=vp_real("a",2.5,4); half[1]=vp_real("b",1.5,2); half[2]=vp_real("h",0.5,1); }
  V3 t; t<<2,-1,0.5; if(mask&2) t=symVec("t",0,5); int n=nPts=8; bearingVectors_t f; points_t p; std::vector<int> id,ci; translations_t o; rotations_t C; for(int i=0;i<3;i++){ V3 q; q<<1-i,0.5*i,1.5*i-1; if(mask&16) q=symVec("o",i,2); o.push_back(q); C.push_back(fixRot(i+1)); }
  V3 j=q3(2,-1,2,3); f.push_back(j); p.push_back(j); ci.push_back(1);
  for(int i=0;i<n;i++){ V3 q; q<<(i&1?1:-1)*half[0],(i&2?1:-1)*half[1],(i&4?1:-1)*half[2]; V3 P=c0+W*q; V3 g=C[i%3].transpose()*(R.transpose()*(P-t)-o[i%3]); simp(P); simp(g); if(!vp_symbolic()) g.normalize(); f.push_back(g); p.push_back(P); ci.push_back(i%3); id.push_back(n-i); }
  RW=R.transpose()*W; simp(RW); double s2=1/std::sqrt(2.0),s3=1/std::sqrt(3.0),s6=1/std::sqrt(6.0); Qn<<s2,s6,s3,-s2,s6,s3,0,-2*s6,s3; for(int k=0;k<4;k++){ V3 q=c0; if(k) q+=15*W.col(k-1); V3 g=R.transpose()*(q-t); simp(g); for(int r=0;r<3;r++){ xt[3*k+r]=g[r]; vp_hint(g[r]); } }
  gp=gs=ga=0;
#ifndef VP_NATIVE
  vphook::svd=gsvd; noModules(0);
#endif
  absolute_pose::NoncentralAbsoluteAdapter ad(f,ci,p,o,C); transformation_t T=absolute_pose::gpnp(ad,id); checkEq(T,pose(R,t),"the true pose is returned"); vp_reach("end"); }
HARNESS(gpnp_rot){ gpnp(1); }
HARNESS(gpnp_t){ gpnp(2); }
HARNESS(gpnp_shape){ gpnp(4+8); }
HARNESS(gpnp_rig){ gpnp(16); }
HARNESS(gpnp_all){ gpnp(31); }
// the null-space modules: with k<=4 null vectors the elimination yields the combination that has the distances of the control points
static void mod(int K,int mask){ M3 R=mask&1?symRot("c",1):fixRot(2); V3 t; t<<2,-1,0.5; if(mask&2) t=symVec("t",0,5); V3 c[4]; static const int cc[4][3]={{1,-2,3},{4,1,-1},{-3,2,2},{0,5,1}}; double s=mask&4?vp_real("s",0.5,3):1;
  X12 x,v[5]; for(int k=0;k<4;k++){ for(int r=0;r<3;r++) c[k][r]=s*cc[k][r]; V3 g=R*c[k]+s*t; for(int r=0;r<3;r++) x[3*k+r]=vp_simplify(g[r]); }
  static const double ff[5]={0.75,-1.25,0.5,2,-0.5}; double F[5]; X12 a=x; for(int k=0;k<K;k++){ F[k]=mask&8?real("f",k,-3,3):s*ff[k]; for(int i=0;i<12;i++){ int h=(i*i*(k+2)+3*i*(k*k+1)+7*k+5*((i*3+k)%4))%17-8; v[k][i]=h/4.0; a[i]-=F[k]*v[k][i]; } }
  for(int i=0;i<12;i++) a[i]=vp_simplify(a[i]); double X[5]; for(int k=0;k<K;k++) vp_hint(F[k]); vp_tol(1e-5);
  if(K==1){ Eigen::Matrix<double,5,3> g; g.setZero(); absolute_pose::modules::gpnp1::init(g,a,v[0],c[0],c[1],c[2],c[3]); absolute_pose::modules::gpnp1::compute(g); X[0]=-g(3,2)/g(3,1); }
  if(K==2){ Eigen::Matrix<double,10,6> g; g.setZero(); absolute_pose::modules::gpnp2::init(g,a,v[1],v[0],c[0],c[1],c[2],c[3]); absolute_pose::modules::gpnp2::compute(g); X[1]=-g(8,5)/g(8,4); X[0]=-(g(7,4)*X[1]+g(7,5))/g(7,3); }
  if(K==3){ Eigen::Matrix<double,15,18> g; g.setZero(); absolute_pose::modules::gpnp3::init(g,a,v[2],v[1],v[0],c[0],c[1],c[2],c[3]); absolute_pose::modules::gpnp3::compute(g); X[2]=-g(13,17)/g(13,16); X[1]=-(g(12,16)*X[2]+g(12,17))/g(12,15); X[0]=-(g(11,15)*X[1]+g(11,16)*X[2]+g(11,17))/g(11,14); }
  if(K==4){ Eigen::Matrix<double,25,37> g; g.setZero(); absolute_pose::modules::gpnp4::init(g,a,v[3],v[2],v[1],v[0],c[0],c[1],c[2],c[3]); absolute_pose::modules::gpnp4::compute(g); X[3]=-g(23,36)/g(23,35); X[2]=-(g(22,35)*X[3]+g(22,36))/g(22,34); X[1]=-(g(21,34)*X[2]+g(21,35)*X[3]+g(21,36))/g(21,33); X[0]=-(g(20,33)*X[1]+g(20,34)*X[2]+g(20,35)*X[3]+g(20,36))/g(20,32); }
  for(int k=0;k<K;k++) vp_check_eq(X[k],F[k],"the combination of null vectors that restores the distances is found"); vp_reach("end"); }
HARNESS(mod1){ mod(1,15); }
HARNESS(mod2){ mod(2,8); }
HARNESS(mod2_pose){ mod(2,3); }
HARNESS(mod3){ mod(3,8); }
HARNESS(mod3_s){ mod(3,6); }
HARNESS(mod4){ mod(4,6); }
// the driver of the modules: arguments in order, factors by back-substitution, combination with the right null vectors, best candidate
static X12 ma,mv[5]; static V3 mc[4]; static double mf[6][5]; static int mStep,mBest; static double mErr[6]; static X12 mx;
static int mStage=0;
#ifndef VP_NATIVE
static bool same3(const V3&a,const V3&b){ return entailsEq(a,b); }
static void mArgs(int K,const X12&a,const X12*const*v,const V3&c0,const V3&c1,const V3&c2,const V3&c3){ bool ok=entailsEq(a,ma)&&same3(c0,mc[0])&&same3(c1,mc[1])&&same3(c2,mc[2])&&same3(c3,mc[3]); for(int k=0;k<K;k++) ok=ok&&entailsEq(*v[k],mv[K-1-k]); if(!ok){ vp_fail("the constraints are set up from the null vectors and the control points"); vp_stop(); } }
static void in1(Eigen::Matrix<double,5,3>&,const X12&a,X12&v1,V3&p,V3&q,V3&r,V3&s){ const X12*v[]={&v1}; mArgs(1,a,v,p,q,r,s); }
static void in2(Eigen::Matrix<double,10,6>&,const X12&a,X12&v2,X12&v1,V3&p,V3&q,V3&r,V3&s){ const X12*v[]={&v2,&v1}; mArgs(2,a,v,p,q,r,s); }
static void in3(Eigen::Matrix<double,15,18>&,const X12&a,X12&v3,X12&v2,X12&v1,V3&p,V3&q,V3&r,V3&s){ const X12*v[]={&v3,&v2,&v1}; mArgs(3,a,v,p,q,r,s); }
static void in4(Eigen::Matrix<double,25,37>&,const X12&a,X12&v4,X12&v3,X12&v2,X12&v1,V3&p,V3&q,V3&r,V3&s){ const X12*v[]={&v4,&v3,&v2,&v1}; mArgs(4,a,v,p,q,r,s); }
static void in5(Eigen::Matrix<double,44,80>&,const X12&a,X12&v5,X12&v4,X12&v3,X12&v2,X12&v1,V3&p,V3&q,V3&r,V3&s){ const X12*v[]={&v5,&v4,&v3,&v2,&v1}; mArgs(5,a,v,p,q,r,s); }
// reduced rows: top-row+1..: unknowns K-1 (last) .. 0, each row has pivot in column lead
template<int r,int c> static void mRows(Eigen::Matrix<double,r,c>&g,int K){ for(int i=0;i<r;i++) for(int j=0;j<c;j++) g(i,j)=((i*7+j*3)%11)+1; // other rows are not to be used
  for(int k=0;k<K;k++){ int row=r-2-k,rhs=c-1,lead=rhs-1-k; double s=0; char b[48]; for(int j=lead+1;j<rhs;j++){ snprintf(b,48,"g%d_%d_%d",K,k,j); double e=vp_real(b,-3,3); g(row,j)=e; s+=e*mf[K][K-rhs+j]; } snprintf(b,48,"p%d_%d",K,k); double p=vp_real(b,0.5,3); g(row,lead)=p; g(row,rhs)=-(s+p*mf[K][K-1-k]); } }
static void co1(Eigen::Matrix<double,5,3>&g){ mRows(g,1); } static void co2(Eigen::Matrix<double,10,6>&g){ mRows(g,2); } static void co3(Eigen::Matrix<double,15,18>&g){ mRows(g,3); } static void co4(Eigen::Matrix<double,25,37>&g){ mRows(g,4); } static void co5(Eigen::Matrix<double,44,80>&g){ mRows(g,5); }
static void mOpt(const X12&a,const V12&V,const points_t&,std::vector<double>&f){ int K=f.size(); bool ok=entailsEq(a,ma); for(int k=0;k<5;k++) ok=ok&&entailsEq(V.col(11-k),mv[k]); for(int k=0;k<K;k++) ok=ok&&vp_entails_eq(f[k],mf[K][K-1-k]); if(!ok){ vp_fail("the factors of the null vectors come from the reduced constraints"); vp_stop(); } }
static double mEval(const X12&s,const points_t&,translation_t&t,rotation_t&R){ int K=mStep++; X12 e=ma; for(int k=0;k<K;k++) for(int i=0;i<12;i++) e[i]+=mf[K][K-1-k]*mv[K-1-k][i]; for(int i=0;i<12;i++) if(!vp_entails_eq(e[i],s[i])){ vp_fail("the candidate combines each null vector with its factor"); vp_stop(); } t.setConstant(K+1); R.setConstant(K+1); return mErr[K]; }
#endif
HARNESS(gpnp_driver){ mStage=vp_choice("best",6); int B=mStage; static const double ff[5]={0.75,-1.25,0.5,2,-0.5}; static const int cc[4][3]={{1,-2,3},{16,-2,3},{1,13,3},{1,-2,18}}; M3 R=fixRot(2); V3 t; t<<2,-1,0.5; points_t c; V12 V; V.setZero();
  for(int k=0;k<4;k++){ for(int r=0;r<3;r++) mc[k][r]=cc[k][r]; c.push_back(mc[k]); V3 g=R.transpose()*(mc[k]-t); mx.segment<3>(3*k)=g; } ma=mx;
  for(int k=0;k<5;k++){ for(int i=0;i<12;i++){ int h=(i*i*(k+2)+3*i*(k*k+1)+7*k+5*((i*3+k)%4))%17-8; mv[k][i]=h/4.0; if(k<B) ma[i]-=ff[k]*mv[k][i]; } V.col(11-k)=mv[k]; }
  for(int K=1;K<6;K++) for(int k=0;k<K;k++){ char b[32]; snprintf(b,32,"f%d_%d",K,k); mf[K][k]=vp_real(b,-3,3); vp_hint(mf[K][k]); }
  mStep=0; for(int K=0;K<6;K++) mErr[K]=real("e",K,0,2); for(int K=0;K<6;K++) if(K!=B) vp_assume_lt(mErr[B],mErr[K]); transformation_t T;
#ifndef VP_NATIVE
#define ON(k) vp_replace("opengv::absolute_pose::modules::gpnp" #k "::init",(void*)in##k); vp_replace("opengv::absolute_pose::modules::gpnp" #k "::compute",(void*)co##k);
  ON(1) ON(2) ON(3) ON(4) ON(5) vp_replace("opengv::absolute_pose::modules::gpnp_optimize",(void*)mOpt); vp_replace("opengv::absolute_pose::modules::gpnp_evaluate",(void*)mEval);
  absolute_pose::modules::gpnp_main(ma,V,c,T); for(int i=0;i<12;i++) vp_check_eq(T(i%3,i/3),B+1,"the candidate with the smallest error is returned");
#else
  vp_tol(1e-3); absolute_pose::modules::gpnp_main(ma,V,c,T); checkEq(T,pose(R,t),"the true pose is found as a combination of null vectors");
#endif
  vp_reach("end"); }
// starting values of the refinement: up to the common sign, the factors whose products solve the distance equations
static VX bs; 
#ifndef VP_NATIVE
static bool blsq(const MX&A,const MX&B,MX&X){ VX r=A*bs-B; for(int i=0;i<r.size();i++) if(!vp_entails_eq(r[i],0)){ vp_fail("the products of the factors solve the distance equations"); vp_stop(); } X=bs; return true; }
#endif
static void betas(int N){ Eigen::Matrix<double,6,10> L; Eigen::Matrix<double,6,1> rho; static const int col[3][5]={{0,1,3,6,0},{0,1,2,0,0},{0,1,2,3,4}},pr[10][2]={{0,0},{0,1},{1,1},{0,2},{1,2},{2,2},{0,3},{1,3},{2,3},{3,3}},cnt[3]={4,3,5}; double be[4]={0,0,0,0},b[4]={9,9,9,9};
  be[0]=vp_real("b0",0.5,4)*(vp_choice("s",2)*2-1); int nb=N==1?4:N==2?2:3; for(int i=1;i<nb;i++) be[i]=N==1?real("b",i,-4,4):i==1?vp_real("b1",0.5,4):vp_real("b2",-4,4); if(N>1&&nb==3) vp_assume_ne(be[2],0);
  for(int i=0;i<6;i++) for(int j=0;j<10;j++) L(i,j)=((i*i*i*3+j*j*(7+i)+i*j*5+i)%13)-5.0; bs.resize(cnt[N-1]); for(int k=0;k<cnt[N-1];k++) bs[k]=vp_simplify(be[pr[col[N-1][k]][0]]*be[pr[col[N-1][k]][1]]); for(int i=0;i<6;i++){ rho[i]=0; for(int k=0;k<cnt[N-1];k++) rho[i]+=L(i,col[N-1][k])*bs[k]; rho[i]=vp_simplify(rho[i]); }
#ifndef VP_NATIVE
  vphook::lstsq=blsq;
#endif
  double flip=N==1?(be[0]<0?-1:1):(be[1]<0?-1:1); for(int k=0;k<4;k++) vp_hint(be[k]); absolute_pose::modules::Epnp e; if(N==1) e.find_betas_approx_1(L,rho,b); if(N==2) e.find_betas_approx_2(L,rho,b); if(N==3) e.find_betas_approx_3(L,rho,b);
  for(int k=0;k<4;k++) vp_check_eq(b[k],flip*be[k],"starting factors reproduce their products"); vp_reach("end"); }
HARNESS(epnp_betas1){ betas(1); }
HARNESS(epnp_betas2){ betas(2); }
HARNESS(epnp_betas3){ betas(3); }
