// Sample-consensus problems other than the central relative one: the model computed from a noise-free sample is the scene's pose.
#include "scene.hpp"
#include <memory>
#include <algorithm>
#include <climits>
#include <limits>
#include <opengv/absolute_pose/methods.hpp>
#include <opengv/relative_pose/methods.hpp>
#include <opengv/point_cloud/methods.hpp>
#include <opengv/absolute_pose/NoncentralAbsoluteAdapter.hpp>
#include <opengv/absolute_pose/NoncentralAbsoluteMultiAdapter.hpp>
#include <opengv/relative_pose/CentralRelativeAdapter.hpp>
#include <opengv/relative_pose/NoncentralRelativeAdapter.hpp>
#include <opengv/relative_pose/NoncentralRelativeMultiAdapter.hpp>
#include <opengv/point_cloud/PointCloudAdapter.hpp>
#include <opengv/sac_problems/absolute_pose/AbsolutePoseSacProblem.hpp>
#include <opengv/sac_problems/absolute_pose/MultiNoncentralAbsolutePoseSacProblem.hpp>
#include <opengv/sac_problems/point_cloud/PointCloudSacProblem.hpp>
#include <opengv/sac_problems/relative_pose/NoncentralRelativePoseSacProblem.hpp>
#include <opengv/sac_problems/relative_pose/RotationOnlySacProblem.hpp>
#include <opengv/sac_problems/relative_pose/TranslationOnlySacProblem.hpp>
#include <opengv/sac_problems/relative_pose/EigensolverSacProblem.hpp>
#include <opengv/sac_problems/relative_pose/MultiNoncentralRelativePoseSacProblem.hpp>
// native wrap: opengv::absolute_pose::p3p_kneip(
// native wrap: opengv::absolute_pose::p3p_gao(
// native wrap: opengv::absolute_pose::epnp(
// native wrap: opengv::absolute_pose::gp3p(
// native wrap: opengv::point_cloud::threept_arun(
// native wrap: opengv::relative_pose::twopt_rotationOnly(
// native wrap: opengv::relative_pose::rotationOnly(
// native wrap: opengv::relative_pose::eigensolver(
// native wrap: opengv::relative_pose::seventeenpt(
// native wrap: opengv::relative_pose::ge(
// native wrap: opengv::relative_pose::sixpt(
// native wrap: opengv::sac_problems::relative_pose::CentralRelativePoseSacProblem::computeModelCoefficients(
using namespace opengv; using namespace vp;
typedef std::vector<int> IV;
static V3 off(int k){ static const double t[3][3]={{0.5,-0.25,1},{-1,0.75,0.25},{0.25,1.5,-0.5}}; V3 v; v<<t[k%3][0],t[k%3][1],t[k%3][2]; return v; }
static transformation_t pose(const M3&R,const V3&t){ transformation_t T; T.block<3,3>(0,0)=R; T.col(3)=t; return T; }
static transformations_t cand; static IV wanted; static int calls;
static void checkIds(const IV&id,size_t min){ calls++; bool ok=id.size()>=min; for(size_t i=0;i<id.size();i++){ bool in=false; for(size_t j=0;j<wanted.size();j++) in|=wanted[j]==id[i]; for(size_t j=0;j<i;j++) ok=ok&&id[j]!=id[i]; ok=ok&&in; } vp_check(ok,"the solver is given distinct members of the sample, as many as it needs"); }
static transformations_t absHook(const absolute_pose::AbsoluteAdapterBase&,const IV&id){ checkIds(id,3); return cand; }
static transformation_t absOne(const absolute_pose::AbsoluteAdapterBase&,const IV&id){ checkIds(id,6); return cand[0]; }
// candidates: the truth in any slot, two displaced poses and an invalid one
static void candidates(const M3&R,const V3&t,int slot){ cand.clear(); static const double e[3][3]={{0.5,-0.25,0.25},{-0.25,1,0.5},{1,0.5,-0.75}}; for(int i=0;i<4;i++){ if(i==slot){ cand.push_back(pose(R,t)); continue; } if(i==(slot+2)%4){ transformation_t T; for(int r=0;r<3;r++) for(int c=0;c<4;c++) T(r,c)=NAN; cand.push_back(T); continue; } V3 d; d<<e[i%3][0],e[i%3][1],e[i%3][2]; M3 Rd=R*fixRot(i); V3 td=t+R*d; simp(Rd); simp(td); cand.push_back(pose(Rd,td)); } }
#define REPLACE(n,f) vp_replace(n,(void*)f)
#define ABSARGS "(opengv::absolute_pose::AbsoluteAdapterBase const&, std::vector<int"
typedef sac_problems::absolute_pose::AbsolutePoseSacProblem AProb; typedef sac_problems::absolute_pose::MultiNoncentralAbsolutePoseSacProblem MProb;
// mask: 1 body position, 2 body rotation, 4 depth of the fourth point, 8 camera offset ; kind 0 kneip 1 gao 2 epnp 3 gp3p 4 twopt
struct Abs { M3 R; V3 t; translations_t o; rotations_t C; bearingVectors_t f; points_t p; IV cam; };
static Abs absScene(int mask,int n,int ncam,int first){ Abs s; s.t=mask&1?symVec("t",0,4):off(1); if(mask&2){ double h=vp_real("r",-1,1); s.R=cayleyRot(h,0.5*h,-h)*fixRot(2); simp(s.R); } else s.R=fixRot(2);
  for(int i=0;i<ncam;i++){ s.o.push_back(off(i+1)); s.C.push_back(fixRot(i+1)); } if(mask&8) s.o[0][1]=vp_real("o",-1,2);
  for(int i=0;i<n;i++){ int c=i%ncam; V3 f=fixUnit(i+first); double d=2+0.75*((i*5)%7); if(i==3&&(mask&4)) d=vp_real("d",2,6); V3 b=s.o[c]+d*(s.C[c]*f); simp(b); V3 X=s.t+s.R*b; simp(X); s.f.push_back(f); s.p.push_back(X); s.cam.push_back(c); } return s; }
static void checkPose(const transformation_t&m,const M3&R,const V3&t){ M3 Rm=m.block<3,3>(0,0); V3 tm=m.col(3); checkEq(Rm,R,"the model's rotation is the body's true rotation"); checkEq(tm,t,"the model's translation is the body's true position"); vp_reach("end"); }
static void absolute(int mask,int kind){ int need=kind==2?6:kind==4?2:4; int ncam=kind==3?2:1; Abs s=absScene(mask,7,ncam,0); IV id; static const int ord[4]={4,1,6,3}; for(int i=0;i<need;i++) id.push_back(kind==2?(i*3+1)%7:kind==4?ord[i]:ord[i]);
  absolute_pose::NoncentralAbsoluteAdapter ad(s.f,s.cam,s.p,s.o,s.C); AProb prob(ad,kind==0?AProb::KNEIP:kind==1?AProb::GAO:kind==2?AProb::EPNP:kind==3?AProb::GP3P:AProb::TWOPT); vp_check(prob.getSampleSize()==need,"the sample size suits the algorithm");
  M3 Rc=s.R*s.C[0]; V3 tc=s.t+s.R*s.o[0]; simp(Rc); simp(tc); int slot=vp_choice("slot",need==4?4:1); if(kind==3) candidates(s.R,s.t,slot); else candidates(Rc,tc,slot); wanted=id; calls=0; if(kind==4) ad.setR(Rc);
  if(kind==0) REPLACE("opengv::absolute_pose::p3p_kneip" ABSARGS,absHook); if(kind==1) REPLACE("opengv::absolute_pose::p3p_gao" ABSARGS,absHook); if(kind==2) REPLACE("opengv::absolute_pose::epnp" ABSARGS,absOne); if(kind==3) REPLACE("opengv::absolute_pose::gp3p" ABSARGS,absHook);
  transformation_t m; for(int i=0;i<3;i++) for(int j=0;j<4;j++) m(i,j)=0; bool ok=prob.computeModelCoefficients(id,m); vp_check(ok,"a noise-free sample yields a model"); checkPose(m,s.R,s.t); }
HARNESS(abs_kneip_pose){ absolute(1+8,0); }
HARNESS(abs_kneip_rot){ absolute(2,0); }
HARNESS(abs_kneip_depth){ absolute(4,0); }
HARNESS(abs_gao_pose){ absolute(1+8,1); }
HARNESS(abs_gao_depth){ absolute(2+4,1); }
HARNESS(abs_epnp){ absolute(11,2); }
HARNESS(abs_gp3p_pose){ absolute(1+8,3); }
HARNESS(abs_gp3p_depth){ absolute(4+8,3); }
HARNESS(abs_gp3p_rot){ absolute(2,3); }
HARNESS(abs_twopt){ absolute(1+8,4); }
// ---- several cameras
static void multi(int mask,int central){ Abs s=absScene(mask,6,central?1:2,0); if(central){ s.o.push_back(s.o[0]); s.C.push_back(s.C[0]); for(int i=0;i<6;i++) s.cam[i]=i%2; }
  std::vector<std::shared_ptr<bearingVectors_t> > f; std::vector<std::shared_ptr<points_t> > p; for(int c=0;c<2;c++){ f.push_back(std::make_shared<bearingVectors_t>()); p.push_back(std::make_shared<points_t>()); } for(int i=0;i<6;i++){ f[s.cam[i]]->push_back(s.f[i]); p[s.cam[i]]->push_back(s.p[i]); }
  absolute_pose::NoncentralAbsoluteMultiAdapter ad(f,p,s.o,s.C); MProb prob(ad,central!=0); std::vector<IV> id(2); int k=vp_choice("sample",2); id[0].push_back(k?2:1); id[0].push_back(0); id[1].push_back(2); id[1].push_back(k?1:0); wanted.clear(); for(int c=0;c<2;c++) for(int i=0;i<2;i++) wanted.push_back(3*c+id[c][i]);
  M3 Rc=s.R*s.C[0]; V3 tc=s.t+s.R*s.o[0]; simp(Rc); simp(tc); int slot=vp_choice("slot",4); if(central) candidates(Rc,tc,slot); else candidates(s.R,s.t,slot);
  if(central) REPLACE("opengv::absolute_pose::p3p_kneip" ABSARGS,absHook); else REPLACE("opengv::absolute_pose::gp3p" ABSARGS,absHook);
  transformation_t m; for(int i=0;i<3;i++) for(int j=0;j<4;j++) m(i,j)=0; bool ok=prob.computeModelCoefficients(id,m); vp_check(ok,"a noise-free sample yields a model"); checkPose(m,s.R,s.t); }
HARNESS(absm_pose){ multi(1,0); }
HARNESS(absm_rot){ multi(2,0); }
HARNESS(absm_central){ multi(1+8,1); }
// ---- point clouds, pure rotation, pure translation, eigensolver: the problem's own data and indices reach the estimator and its result is the model
static M3 estR; static V3 estT; static const void*theAdapter;
static transformation_t cloudHook(const point_cloud::PointCloudAdapterBase&a,const IV&id){ vp_check((const void*)&a==theAdapter,"the estimator gets the user's adapter"); checkIds(id,wanted.size()); return pose(estR,estT); }
static rotation_t rotHook(const relative_pose::RelativeAdapterBase&a,const IV&id){ vp_check((const void*)&a==theAdapter,"the estimator gets the user's adapter"); checkIds(id,wanted.size()); return estR; }
HARNESS(cloud_model){ V3s q; M3 R=symRot("r"); V3 t=symVec("t",0); points_t p1,p2; for(int i=0;i<6;i++){ V3 y=2*fixUnit(i)+off(i); V3 x=R*y+t; simp(x); p1.push_back(x); p2.push_back(y); } point_cloud::PointCloudAdapter ad(p1,p2); theAdapter=(const point_cloud::PointCloudAdapterBase*)&ad; sac_problems::point_cloud::PointCloudSacProblem prob(ad); vp_check(prob.getSampleSize()==3,"three point pairs per sample"); IV id; id.push_back(4); id.push_back(1); id.push_back(5); wanted=id; estR=R; estT=t; calls=0; REPLACE("opengv::point_cloud::threept_arun(opengv::point_cloud::PointCloudAdapterBase const&, std::vector<int",cloudHook);
  transformation_t m; bool ok=prob.computeModelCoefficients(id,m); vp_check(ok,"a noise-free sample yields a model"); checkPose(m,R,t); }
HARNESS(rotation_model){ M3 R=symRot("r"); bearingVectors_t a,b; for(int i=0;i<6;i++){ V3 y=fixUnit(i); V3 x=R*y; simp(x); a.push_back(x); b.push_back(y); } relative_pose::CentralRelativeAdapter ad(a,b); theAdapter=(const relative_pose::RelativeAdapterBase*)&ad; sac_problems::relative_pose::RotationOnlySacProblem prob(ad); IV id; id.push_back(4); id.push_back(1); wanted=id; estR=R; calls=0; REPLACE("opengv::relative_pose::twopt_rotationOnly(opengv::relative_pose::RelativeAdapterBase const&, std::vector<int",rotHook); REPLACE("opengv::relative_pose::rotationOnly(opengv::relative_pose::RelativeAdapterBase const&, std::vector<int",rotHook);
  vp_check(prob.getSampleSize()==2,"two correspondences per sample"); rotation_t m,m2; bool ok=prob.computeModelCoefficients(id,m); vp_check(ok,"a noise-free sample yields a model"); checkEq(m,R,"the model is the true rotation"); IV inl; inl.push_back(5); inl.push_back(0); inl.push_back(2); inl.push_back(3); wanted=inl; M3 s=fixRot(1); prob.optimizeModelCoefficients(inl,s,m2); checkEq(m2,R,"the refined model is the true rotation"); vp_reach("end"); }
struct Tri { V3 f1,g; double d,e; };
static Tri triangle(const M3&W,double len,double a,double b,double p){ double sa=2*a/(1+a*a),ca=(1-a*a)/(1+a*a),sb=2*b/(1+b*b),cb=(1-b*b)/(1+b*b),sp=2*p/(1+p*p),cp=(1-p*p)/(1+p*p); V3 u=cp*W.col(0)+sp*W.col(1); Tri t; t.f1=ca*W.col(2)+sa*u; t.g=cb*W.col(2)+sb*u; double s=sb*ca-cb*sa; t.d=len*sb/s; t.e=len*sa/s; simp(t.f1); simp(t.g); t.d=vp_simplify(t.d); t.e=vp_simplify(t.e); return t; }
static const double TA[12]={0.25,0.5,0.75,0.375,0.625,1.25,0.3,0.8,0.45,0.9,0.55,0.7},TB[12]={0.5,1,1.25,0.875,1.5,2.5,0.7,1.6,1.1,1.75,0.95,2},TP[12]={0,0.5,-0.75,2,-3,1,-0.25,0.3,-1.5,5,-0.4,0.7};
HARNESS(translation_model){ M3 R; double h=vp_real("r",-1,1); R=cayleyRot(h,0.5*h,-h)*fixRot(2); simp(R); M3 W=fixRot(1); V3 t=2*W.col(2); bearingVectors_t a,b; for(int i=0;i<5;i++){ double y=TB[i]; if(i==3) y=vp_real("b",0.75,1.5); Tri T=triangle(W,2,TA[i],y,TP[i]); V3 f2=R.transpose()*T.g; simp(f2); a.push_back(T.f1); b.push_back(f2); } relative_pose::CentralRelativeAdapter ad(a,b,R); sac_problems::relative_pose::TranslationOnlySacProblem prob(ad); IV id; id.push_back(3); id.push_back(1); vp_check(prob.getSampleSize()==2,"two correspondences per sample"); transformation_t m; bool ok=prob.computeModelCoefficients(id,m); vp_check(ok,"a noise-free sample yields a model"); M3 Rm=m.block<3,3>(0,0); V3 tm=m.col(3); checkEq(Rm,R,"the model keeps the known rotation"); V3 c=tm.cross(t); checkEq(c,V3(V3::Zero()),"the model's translation is parallel to the true one"); vp_check_lt(0,tm.dot(t),"the model's translation points the right way"); vp_reach("end"); }
// the eigensolver starts close to the adapter's rotation and its complete output is the model
static V3 startC; static double spread; static bool wantW; static eigensolverOutput_t result;
static rotation_t eigHook(const relative_pose::RelativeAdapterBase&a,const IV&id,eigensolverOutput_t&o,bool w){ vp_check((const void*)&a==theAdapter,"the estimator gets the user's adapter"); checkIds(id,wanted.size()); vp_check(w==wantW,"weights are used for refinement only"); M3 S=o.rotation; simp(S); double tr=vp_simplify(1+S(0,0)+S(1,1)+S(2,2)); V3 c; c<<(S(2,1)-S(1,2)),(S(0,2)-S(2,0)),(S(1,0)-S(0,1)); c=c/tr; simp(c); checkRotation(S,"the start is a rotation"); for(int i=0;i<3;i++){ double d=vp_simplify(c[i]-startC[i]); if(spread==0) vp_check_eq(d,0,"refinement starts from the given model"); else { vp_check_le(d,spread,"the start lies near the adapter's rotation"); vp_check_le(-spread,d,"the start lies near the adapter's rotation"); } } o=result; return result.rotation; }
HARNESS(eigensolver_model){ V3 c=symVec("c",0,0.75); M3 R=cayleyRot(c[0],c[1],c[2]); simp(R); bearingVectors_t a,b; for(int i=0;i<12;i++){ a.push_back(fixUnit(i)); b.push_back(fixUnit(i+1)); } relative_pose::CentralRelativeAdapter ad(a,b,R); theAdapter=(const relative_pose::RelativeAdapterBase*)&ad; int n=8+vp_choice("n",2); sac_problems::relative_pose::EigensolverSacProblem prob(ad,n); vp_check(prob.getSampleSize()==n,"the sample size is the configured one"); IV id; for(int i=0;i<n;i++) id.push_back((i*5+1)%12); wanted=id; calls=0; startC=c; spread=0.1000001; wantW=false; result.rotation=fixRot(2); result.translation=off(0); result.eigenvalues=off(1); result.eigenvectors=fixRot(3);
  REPLACE("opengv::relative_pose::eigensolver(opengv::relative_pose::RelativeAdapterBase const&, std::vector<int",eigHook);
  eigensolverOutput_t m; bool ok=prob.computeModelCoefficients(id,m); vp_check(ok&&calls==1,"a sample yields a model"); checkEq(m.rotation,result.rotation,"the model's rotation is the estimator's"); checkEq(m.translation,result.translation,"the model's translation is the estimator's"); checkEq(m.eigenvalues,result.eigenvalues,"the model's eigenvalues are the estimator's"); checkEq(m.eigenvectors,result.eigenvectors,"the model's eigenvectors are the estimator's");
  V3 s=symVec("s",0,0.75); eigensolverOutput_t st,o; st.rotation=cayleyRot(s[0],s[1],s[2]); st.translation=off(2); IV inl; inl.push_back(7); inl.push_back(0); for(int i=1;i<6;i++) inl.push_back(i); wanted=inl; startC=s; spread=0; wantW=true; prob.optimizeModelCoefficients(inl,st,o); vp_check(calls==2,"refinement runs the estimator"); checkEq(o.rotation,result.rotation,"the refined rotation is the estimator's"); checkEq(o.translation,result.translation,"the refined translation is the estimator's");
  vp_reach("end"); }
// ---- generalized cameras
static rotations_t rcand; static Eigen::Vector4d nullVec; static int evSlot,rslot,decSeen;
static transformation_t genHook(const relative_pose::RelativeAdapterBase&a,const IV&id){ vp_check((const void*)&a==theAdapter,"the estimator gets the user's adapter"); checkIds(id,wanted.size()); return pose(estR,estT); }
static rotation_t geHook(const relative_pose::RelativeAdapterBase&a,const IV&id,geOutput_t&o,bool){ vp_check((const void*)&a==theAdapter,"the estimator gets the user's adapter"); checkIds(id,wanted.size()); o.rotation=estR; for(int i=0;i<3;i++) o.translation[i]=estT[i]; o.translation[3]=1; return estR; }
static rotations_t sixHook(const relative_pose::RelativeAdapterBase&,const IV&id){ checkIds(id,6); vp_check(id.size()==6,"the six-point solver is given six correspondences"); return rcand; }
// contract of the 4x4 eigen-decomposition: for the true rotation the scene's translation (homogeneous) is the eigenvector of the vanishing eigenvalue, in any column and scale; for another rotation the answer is some translation
static V3 decoyT[3]; static int eigCalls;
static bool eig4(const MX&A,vphook::VXc&D,vphook::MXc&V){ if(A.rows()!=4) return false; bool tr=true; for(int i=0;i<4&&tr;i++){ double s=0; for(int j=0;j<4;j++) s+=A(i,j)*nullVec[j]; tr=vp_entails_eq(s,0); } decSeen+=tr; D.resize(4); V.resize(4,4); static const double ev[4]={0.5,2,0.25,3}; int c=eigCalls++%3; for(int k=0;k<4;k++){ D[k]=ev[k]; for(int j=0;j<4;j++) V(j,k)=std::complex<double>(j==3?1:tr?((j*3+k*5)%7-3)/4.0:decoyT[c][j]+(k==2?0:0.5*k),0); }
  if(tr){ double s=vp_fresh("ev_s",0.5); vp_assume_ne(s,0); D[evSlot]=0; for(int j=0;j<4;j++) V(j,evSlot)=std::complex<double>(s*nullVec[j],0); } return true; }
struct Gen { M3 R; V3 t; translations_t o; rotations_t C; bearingVectors_t a,b; IV c1,c2; };
// mask: 1 translation, 2 rotation, 4 a ray of the disambiguating members, 8 camera offset
// pair 0: correspondences between camera 0 (first view) and cameras 1, 2 (second view), whose centres are chosen so that the two baselines are rational;
// pair 1: each correspondence seen by one camera in both views, the cameras placed so that every baseline is rational (equal component along the rotation axis)
static Gen genScene(int mask,int n,int pair,const IV&exact){ Gen s; double len=pair&&(mask&1)?vp_real("len",1,2):1.5; M3 W=fixRot(1),B[3]; V3 a=W.col(2),u=W.col(0),v=W.col(1); if(pair){ double h=mask&2?vp_real("r",0.5,1):0.75,sn=2*h/(1+h*h),c=(1-h*h)/(1+h*h); M3 J=skew(a); s.R=M3::Identity()+sn*J+(1-c)*(J*J); simp(s.R); V3 t0=0.5*u-0.25*v; s.t=0.6*len*a+t0; simp(s.t);
    static const double ph[3][2]={{1,0},{0,1},{-0.6,-0.8}}; for(int k=0;k<3;k++){ V3 r=ph[k][0]*u+ph[k][1]*v; B[k].col(2)=0.6*a+0.8*r; B[k].col(0)=-0.8*a+0.6*r; B[k].col(1)=ph[k][0]*v-ph[k][1]*u; simp(B[k]); V3 p=0.8*len*r-t0; V3 o=-0.5*p-(J*p)/(2*h); simp(o); s.o.push_back(o); } }
  else { s.t=mask&1?symVec("t",0,2):off(0); if(mask&2){ double h=vp_real("r",-1,1); s.R=cayleyRot(h,0.5*h,-h)*fixRot(2); simp(s.R); } else s.R=fixRot(2); V3 o0=off(1); if(mask&8) o0[0]=vp_real("o",-1,1); s.o.push_back(o0); for(int k=1;k<3;k++){ V3 b=(k==1?len:2.0)*W.col(k==1?2:0)+o0-s.t; V3 o=s.R.transpose()*b; simp(o); s.o.push_back(o); } }
  for(int i=0;i<3;i++) s.C.push_back(fixRot(i+1));
  for(int i=0;i<n;i++){ int k1=pair?i%3:0,k2=pair?k1:1+i%2; bool ex=false; for(size_t j=0;j<exact.size();j++) ex|=exact[j]==i; double x=TA[i%12],y=TB[i%12]; if(i==(pair?4:exact.empty()?-1:exact[0])&&(mask&4)) y=vp_real("be",3.25*x,4*x); M3 Bk=pair?B[k1]:W; if(!pair&&k2==2) Bk=W*(M3()<<0,0,1,1,0,0,0,1,0).finished(); Tri T=triangle(Bk,!pair&&k2==2?2.0:len,x,y+(i>11?0.125:0),TP[i%12]); V3 f1=s.C[k1].transpose()*T.f1,f2=s.C[k2].transpose()*(s.R.transpose()*T.g); simp(f1); simp(f2); vp_hint(T.d); vp_hint(T.e); s.a.push_back(f1); s.b.push_back(f2); s.c1.push_back(k1); s.c2.push_back(k2); } return s; }
static void sixSetup(const Gen&s){ for(int i=0;i<3;i++) nullVec[i]=s.t[i]; nullVec[3]=1; rslot=vp_choice("slot",3); evSlot=vp_choice("eigenvalue",4); decSeen=eigCalls=0; rcand.clear(); for(int i=0;i<3;i++){ M3 Rd=fixRot(i)*s.R; simp(Rd); rcand.push_back(i==rslot?s.R:Rd); V3 c; c<<0.5,1.25,-0.75; decoyT[i]=c+s.o[0]-Rd*s.o[1]; simp(decoyT[i]); }
#ifndef VP_NATIVE
  vphook::eig=eig4;
#endif
  REPLACE("opengv::relative_pose::sixpt(opengv::relative_pose::RelativeAdapterBase const&, std::vector<int",sixHook); }
static void noncentral(int mask,int kind){ typedef sac_problems::relative_pose::NoncentralRelativePoseSacProblem N; int need=kind==0?17:kind==1?8:9; IV id,ex; for(int i=0;i<need;i++) id.push_back((i*7+2)%(need+2)); for(int i=6;i<need;i++) ex.push_back(id[i]); Gen s=genScene(mask,need+2,0,ex); relative_pose::NoncentralRelativeAdapter ad(s.a,s.b,s.c1,s.c2,s.o,s.C); theAdapter=(const relative_pose::RelativeAdapterBase*)&ad; N prob(ad,kind==0?N::SEVENTEENPT:kind==1?N::GE:N::SIXPT); vp_check(prob.getSampleSize()==need,"the sample size suits the algorithm"); wanted=id; calls=0; estR=s.R; estT=s.t;
  if(kind==0) REPLACE("opengv::relative_pose::seventeenpt(opengv::relative_pose::RelativeAdapterBase const&, std::vector<int",genHook); if(kind==1) REPLACE("opengv::relative_pose::ge(opengv::relative_pose::RelativeAdapterBase const&, std::vector<int",geHook); if(kind==2) sixSetup(s);
  transformation_t m; for(int i=0;i<3;i++) for(int j=0;j<4;j++) m(i,j)=0; bool ok=prob.computeModelCoefficients(id,m); vp_check(ok,"a noise-free sample yields a model"); if(kind==2&&vp_symbolic()) vp_check(decSeen==1,"the system built for the true rotation has the true translation in its null space"); checkPose(m,s.R,s.t); }
HARNESS(gen_seventeen){ noncentral(11,0); }
HARNESS(gen_ge){ noncentral(11,1); }
HARNESS(gen_six_t){ noncentral(1,2); }
HARNESS(gen_six_rot){ noncentral(2,2); }
HARNESS(gen_six_ray){ noncentral(4,2); }
static void genMulti(int mask,int kind){ typedef sac_problems::relative_pose::MultiNoncentralRelativePoseSacProblem N; int need=kind==0?17:kind==1?8:9,n=kind==0?21:12; Gen s=genScene(mask,n,1,IV()); std::vector<std::shared_ptr<bearingVectors_t> > f,g; for(int c=0;c<3;c++){ f.push_back(std::make_shared<bearingVectors_t>()); g.push_back(std::make_shared<bearingVectors_t>()); for(int i=c;i<n;i+=3){ f[c]->push_back(s.a[i]); g[c]->push_back(s.b[i]); } }
  relative_pose::NoncentralRelativeMultiAdapter ad(f,g,s.o,s.C); theAdapter=(const relative_pose::RelativeAdapterBase*)&ad; N prob(ad,kind==0?N::SEVENTEENPT:kind==1?N::GE:N::SIXPT); std::vector<IV> id(3); wanted.clear(); int per=n/3; for(int i=0;i<need;i++){ int c=i%3,k=(per-1-i/3+c)%per; id[c].push_back(k); } for(int c=0;c<3;c++) for(size_t i=0;i<id[c].size();i++) wanted.push_back(per*c+id[c][i]); calls=0; estR=s.R; estT=s.t;
  if(kind==0) REPLACE("opengv::relative_pose::seventeenpt(opengv::relative_pose::RelativeAdapterBase const&, std::vector<int",genHook); if(kind==1) REPLACE("opengv::relative_pose::ge(opengv::relative_pose::RelativeAdapterBase const&, std::vector<int",geHook); if(kind==2) sixSetup(s);
  transformation_t m; for(int i=0;i<3;i++) for(int j=0;j<4;j++) m(i,j)=0; bool ok=prob.computeModelCoefficients(id,m); vp_check(ok,"a noise-free sample yields a model"); if(kind==2&&vp_symbolic()) vp_check(decSeen==1,"the system built for the true rotation has the true translation in its null space"); checkPose(m,s.R,s.t); }
HARNESS(genm_seventeen){ genMulti(3,0); }
HARNESS(genm_ge){ genMulti(3,1); }
HARNESS(genm_six_len){ genMulti(1,2); }
HARNESS(genm_six_rot){ genMulti(2,2); }
HARNESS(genm_six_ray){ genMulti(4,2); }
// ---- treated as central: the camera-to-camera pose found by the central problem is carried over to the bodies
static transformation_t centralT;
static bool centralHook(const void*,const IV&id,transformation_t&m){ checkIds(id,8); m=centralT; return true; }
static void asCentral(int mask,int multi){ M3 R; V3 t=mask&1?symVec("t",0,4):off(0); if(mask&2) R=symRot("r"); else R=fixRot(2); V3 o1=off(1),o2=off(2); M3 C1=fixRot(1),C2=fixRot(3); if(multi){ o2=o1; C2=C1; } if(mask&8) o1[2]=vp_real("o",-1,1); if(multi) o2=o1; M3 Rc=C1.transpose()*R*C2; V3 tc=C1.transpose()*(t-o1+R*o2); simp(Rc); simp(tc); centralT=pose(Rc,tc);
  REPLACE("opengv::sac_problems::relative_pose::CentralRelativePoseSacProblem::computeModelCoefficients(",centralHook); calls=0; transformation_t m; for(int i=0;i<3;i++) for(int j=0;j<4;j++) m(i,j)=0; bool ok; wanted.clear();
  if(!multi){ typedef sac_problems::relative_pose::NoncentralRelativePoseSacProblem N; bearingVectors_t a,b; IV k1,k2,id; translations_t o; rotations_t C; o.push_back(off(0)); C.push_back(fixRot(0)); o.push_back(o1); C.push_back(C1); o.push_back(o2); C.push_back(C2); for(int i=0;i<10;i++){ a.push_back(fixUnit(i)); b.push_back(fixUnit(i+1)); k1.push_back(1); k2.push_back(2); } for(int i=0;i<8;i++) id.push_back((i*3+1)%10); wanted=id; relative_pose::NoncentralRelativeAdapter ad(a,b,k1,k2,o,C); N prob(ad,N::SIXPT,true); vp_check(prob.getSampleSize()==8,"the sample size suits the algorithm"); ok=prob.computeModelCoefficients(id,m); }
  else { typedef sac_problems::relative_pose::MultiNoncentralRelativePoseSacProblem N; std::vector<std::shared_ptr<bearingVectors_t> > f,g; translations_t o; rotations_t C; for(int c=0;c<2;c++){ f.push_back(std::make_shared<bearingVectors_t>()); g.push_back(std::make_shared<bearingVectors_t>()); for(int i=0;i<5;i++){ f[c]->push_back(fixUnit(i+c)); g[c]->push_back(fixUnit(i+2+c)); } o.push_back(o1); C.push_back(C1); } std::vector<IV> id(2); for(int c=0;c<2;c++) for(int i=0;i<4;i++){ id[c].push_back((i*2+c)%5); wanted.push_back(5*c+(i*2+c)%5); } relative_pose::NoncentralRelativeMultiAdapter ad(f,g,o,C); N prob(ad,N::SIXPT,true); ok=prob.computeModelCoefficients(id,m); }
  vp_check(ok&&calls==1,"a noise-free sample yields a model"); checkPose(m,R,t); }
HARNESS(gen_central){ asCentral(1+8,0); }
HARNESS(gen_central_rot){ asCentral(2,0); }
HARNESS(genm_central){ asCentral(1+8,1); }
HARNESS(genm_central_rot){ asCentral(2,1); }
