// Sample-consensus problems: the model computed from a noise-free sample is the scene's pose.
#include "scene.hpp"
#include <algorithm>
#include <climits>
#include <limits>
#include <opengv/relative_pose/methods.hpp>
#include <opengv/relative_pose/CentralRelativeAdapter.hpp>
#include <opengv/sac_problems/relative_pose/CentralRelativePoseSacProblem.hpp>
using namespace opengv; using namespace vp;
typedef sac_problems::relative_pose::CentralRelativePoseSacProblem CRel;
static VX rowMajor(const M3&E){ VX v(9); for(int i=0;i<3;i++) for(int j=0;j<3;j++) v[3*i+j]=E(i,j); return v; }
// ---- triangles with rational sides: rays at half-angle parameters a (first camera) and b (second) from the baseline, azimuth p
struct Tri { V3 f1,g; double d,e; };
static Tri triangle(const M3&W,double len,double a,double b,double p){ double sa=2*a/(1+a*a),ca=(1-a*a)/(1+a*a),sb=2*b/(1+b*b),cb=(1-b*b)/(1+b*b),sp=2*p/(1+p*p),cp=(1-p*p)/(1+p*p); V3 u=cp*W.col(0)+sp*W.col(1); Tri t; t.f1=ca*W.col(2)+sa*u; t.g=cb*W.col(2)+sb*u; double s=sb*ca-cb*sa; t.d=len*sb/s; t.e=len*sa/s; simp(t.f1); simp(t.g); t.d=vp_simplify(t.d); t.e=vp_simplify(t.e); return t; }
// ---- essential matrices with known decompositions
struct Dec { M3 E,U,V; V3 s; }; static std::vector<Dec> decs; static int flipU;
static Dec decompose(const M3&W,double len,const M3&R,double k){ Dec d; V3 t=len*W.col(2); d.E=k*skew(t)*R; simp(d.E); M3 Z; Z<<0,-1,0,1,0,0,0,0,1; d.U=W; d.V=R.transpose()*W*Z.transpose(); if(k<0){ d.U.col(0)*=-1; d.U.col(1)*=-1; k=-k; } simp(d.V); d.s<<k*len,k*len,0; return d; }
static MX kern; static double kernNorm;
static bool decSvd(const MX&A,MX&U,VX&S,MX&V,unsigned o){ if(A.rows()==3&&A.cols()==3){ svdCalls++; for(size_t i=0;i<decs.size();i++) if(entailsEq(A,decs[i].E)){ M3 u=decs[i].U,v=decs[i].V; if(flipU&1) u.col(2)*=-1; if(flipU&2) v.col(2)*=-1; if(flipU&4){ M3 P; P<<0,1,0,1,0,0,0,0,1; u=u*P; v=v*P; } U=u; V=v; S=decs[i].s; return true; } vp_fail("the decomposed matrix is one of the solver's results"); vp_stop(); } return kernelSvd(A,U,S,V,o); }
static int slot,nList; static const std::vector<int>*sample; static int wantN; static essentials_t list;
static void checkIdx(const std::vector<int>&id){ bool ok=(int)id.size()==wantN; for(size_t i=0;i<id.size();i++){ bool in=false; for(size_t j=0;j<sample->size();j++) in|=(*sample)[j]==id[i]; for(size_t j=0;j<i;j++) ok=ok&&id[j]!=id[i]; ok=ok&&in; } vp_check(ok,"the solver is given distinct members of the sample, as many as it needs"); }
static essentials_t realHook(const opengv::relative_pose::RelativeAdapterBase&,const std::vector<int>&id){ checkIdx(id); return list; }
static essential_t oneHook(const opengv::relative_pose::RelativeAdapterBase&,const std::vector<int>&id){ checkIdx(id); return list[slot]; }
static complexEssentials_t cplxHook(const opengv::relative_pose::RelativeAdapterBase&,const std::vector<int>&id){ checkIdx(id); complexEssentials_t r; for(size_t i=0;i<list.size();i++){ complexEssential_t x; for(int k=0;k<9;k++) x(k/3,k%3)=std::complex<double>(list[i](k/3,k%3),0); r.push_back(x); } return r; }
static const double TA[12]={0.25,0.5,0.75,0.375,0.625,1.25,0.3,0.8,0.45,0.9,0.55,0.7},TB[12]={0.5,1,1.25,0.875,1.5,2.5,0.7,1.6,1.1,1.75,0.95,2},TP[12]={0,0.5,-0.75,2,-3,1,-0.25,0.3,-1.5,5,-0.4,0.7};
// mask: 1 baseline, 2 rotation, 4 first ray angle, 8 second ray angle ; mode 0 replaced solvers, 1 eight-point from the correspondences
static void rel(int mask,CRel::algorithm_t alg,int mode,int decoys){ M3 W=fixRot(1); double len=mask&1?vp_real("len",0.5,4):1.5; M3 R=fixRot(2); if(mask&2){ double h=vp_real("r",-1,1); M3 A0=cayleyRot(h,0.5*h,-h); R=A0*R; simp(R); } V3 t=len*W.col(2); simp(t); int need=alg==CRel::EIGHTPT?9:alg==CRel::SEVENPT?9:8;
  bearingVectors_t a,b; a.push_back(q3(1,2,2,3)); b.push_back(q3(2,1,2,3)); for(int i=0;i<need;i++){ double x=TA[i],y=TB[i]; if(i==2&&(mask&4)) x=vp_real("al",0.25,0.75); if(i==3&&(mask&8)) y=vp_real("be",0.75,1.5); Tri T=triangle(W,len,x,y,TP[i]); vp_hint(T.d); vp_hint(T.e); V3 f2=R.transpose()*T.g; simp(f2); a.push_back(T.f1); b.push_back(f2); } a.push_back(q3(2,1,2,3)); b.push_back(q3(1,2,2,3));
  std::vector<int> id; for(int i=0;i<need;i++) id.push_back(1+(i*5)%need); sample=&id; wantN=alg==CRel::EIGHTPT?8:alg==CRel::SEVENPT?7:5; opengv::relative_pose::CentralRelativeAdapter ad(a,b); CRel prob(ad,alg);
  vp_check(prob.getSampleSize()==need,"the sample size leaves correspondences for disambiguation");
  double k=vp_choice("sign",2)?0.5:-0.75; decs.clear(); list.clear(); flipU=vp_symbolic()?(vp_choice("variant",2)?5:2):0; slot=decoys?vp_choice("slot",2):0; if(mode==1) k=(k<0?-1:1)/(len*sqrt(2.0)); Dec tr=decompose(W,len,R,k); 
  if(mode==1){ MX N(9,1); N.col(0)=rowMajor(tr.E); kernels.clear(); kernels.push_back(N); normaliseKernel=false; Dec o=tr; decs.push_back(o); }
  else { Dec dk=decompose(fixRot(3),1.25,fixRot(1),0.5); for(int i=0;i<1+decoys;i++){ const Dec&x=i==slot?tr:dk; decs.push_back(x); list.push_back(x.E); } }
#ifndef VP_NATIVE
  vphook::svd=decSvd; if(mode==0){ const char*n=alg==CRel::EIGHTPT?"opengv::relative_pose::eightpt(":alg==CRel::SEVENPT?"opengv::relative_pose::sevenpt(":alg==CRel::NISTER?"opengv::relative_pose::fivept_nister(":"opengv::relative_pose::fivept_stewenius("; vp_replace(n,alg==CRel::EIGHTPT?(void*)oneHook:alg==CRel::STEWENIUS?(void*)cplxHook:(void*)realHook); }
#endif
  transformation_t m; for(int i=0;i<3;i++) for(int j=0;j<4;j++) m(i,j)=0; bool ok=prob.computeModelCoefficients(id,m); vp_check(ok,"a noise-free sample yields a model"); M3 Rm=m.block<3,3>(0,0); V3 tm=m.col(3); checkEq(Rm,R,"the model's rotation is the scene's"); V3 c=tm.cross(t); checkEq(c,V3(V3::Zero()),"the model's translation is parallel to the scene's"); vp_check_lt(0,tm.dot(t),"the model's translation points the right way"); vp_reach("end"); }
HARNESS(rel_eight_len){ rel(1,CRel::EIGHTPT,1,0); }
HARNESS(rel_nister_ray){ rel(8,CRel::NISTER,0,1); }
HARNESS(rel_stew_ray){ rel(4,CRel::STEWENIUS,0,1); }
HARNESS(rel_seven_ray){ rel(8,CRel::SEVENPT,0,1); }
HARNESS(rel_eight_ray){ rel(4,CRel::EIGHTPT,0,0); }
