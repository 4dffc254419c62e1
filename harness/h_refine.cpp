// Nonlinear refinement: start point, residuals, returned pose. The minimiser itself is played by the harness.
// native: contract minimiser
#include "scene.hpp"
#include <unsupported/Eigen/NonLinearOptimization>
#include <memory>
#include <algorithm>
#include <climits>
#include <limits>
#include <opengv/absolute_pose/methods.hpp>
#include <opengv/relative_pose/methods.hpp>
#include <opengv/point_cloud/methods.hpp>
#include <opengv/absolute_pose/CentralAbsoluteAdapter.hpp>
#include <opengv/absolute_pose/NoncentralAbsoluteAdapter.hpp>
#include <opengv/absolute_pose/NoncentralAbsoluteMultiAdapter.hpp>
#include <opengv/relative_pose/CentralRelativeAdapter.hpp>
#include <opengv/relative_pose/NoncentralRelativeAdapter.hpp>
#include <opengv/relative_pose/NoncentralRelativeMultiAdapter.hpp>
#include <opengv/point_cloud/PointCloudAdapter.hpp>
#include <opengv/sac_problems/absolute_pose/AbsolutePoseSacProblem.hpp>
#include <opengv/sac_problems/absolute_pose/MultiNoncentralAbsolutePoseSacProblem.hpp>
#include <opengv/sac_problems/relative_pose/CentralRelativePoseSacProblem.hpp>
#include <opengv/sac_problems/relative_pose/NoncentralRelativePoseSacProblem.hpp>
#include <opengv/sac_problems/relative_pose/TranslationOnlySacProblem.hpp>
#include <opengv/sac_problems/relative_pose/MultiNoncentralRelativePoseSacProblem.hpp>
using namespace opengv; using namespace vp;
typedef Eigen::VectorXd VX_;
static V3 off(int k){ static const double t[3][3]={{0.5,-0.25,1},{-1,0.75,0.25},{0.25,1.5,-0.5}}; V3 v; v<<t[k%3][0],t[k%3][1],t[k%3][2]; return v; }
static M3 camR(int k){ return fixRot(k+1); }
static transformation_t pose(const M3&R,const V3&t){ transformation_t T; T.block<3,3>(0,0)=R; T.col(3)=t; return T; }
static double miss(const V3&f,const V3&c){ return 1-f.dot(c)/sqrt(c.dot(c)); }
static double missRel(const V3&f1,const V3&f2,const M3&R,const V3&t){ V3 g=R*f2; double a=f1.dot(f1),b=f1.dot(g),c=g.dot(g),d=t.dot(f1),e=t.dot(g),D=a*c-b*b; double l1=(d*c-b*e)/D,l2=(b*d-a*e)/D; V3 X=(l1*f1+t+l2*g)/2; simp(X); V3 Y=R.transpose()*(X-t); simp(Y); return miss(f1,X)+miss(f2,Y); }
// ---- what the minimiser must be given
struct Oracle { virtual double residual(int idx,const M3&R,const V3&t)=0; };
static Oracle*oracle; static V3 startT,startC,endT,endC; static std::vector<int> wanted; static int lmCalls;
static bool lmHook(vphook::LMProblem&p,vphook::VX&x){
  lmCalls++; vp_check(p.inputs()==6&&x.size()==6,"the refinement optimises position and orientation"); vp_check(p.values()==(int)wanted.size(),"there is one residual per selected correspondence"); if(p.values()!=(int)wanted.size()) vp_stop();
  vp_check(p.maxfev>=50&&p.ftol<=1e-3&&p.xtol<=1e-3,"the minimiser is told to run to convergence");
  for(int i=0;i<3;i++){ vp_check_eq(x[i],startT[i],"the refinement starts at the given position"); vp_check_eq(x[3+i],startC[i],"the refinement starts at the given orientation"); }
  vphook::VX y(6),r,r2; for(int i=0;i<3;i++){ y[i]=endT[i]; y[3+i]=endC[i]; }
  M3 R=cayleyRot(endC[0],endC[1],endC[2]); p.eval(y,r);
  for(size_t i=0;i<wanted.size();i++) vp_check_eq(r[i],oracle->residual(wanted[i],R,endT),"the minimised residual of a correspondence is its misalignment under the pose");
  // evaluating elsewhere in between must not change the residuals
  vphook::VX z(6); for(int i=0;i<3;i++){ z[i]=off(2)[i]; z[3+i]=off(0)[i]/4; } p.eval(z,r2); p.eval(y,r2); for(size_t i=0;i<wanted.size();i++) vp_check_eq(r2[i],r[i],"the residuals depend on the pose alone");
  x=y; return true; }
// free: 0 = start symbolic, 1 = rotation of the evaluated pose symbolic, 2 = its translation symbolic
static void poses(int mode,double lim){ startT=mode==0?symVec("s",0):off(2); startC=mode==0?vec("sc",-3,3):V3(off(0)); endT=off(1); endC<<0.5,-0.25,0.375; if(mode==1){ endC=vec("ec",-lim,lim); } if(mode==2) endT=symVec("e",0,4); lmCalls=0; wanted.clear();
  vphook::lm=lmHook; }
static void result(const transformation_t&T){ vp_check(lmCalls==1,"the minimiser runs once"); M3 R=cayleyRot(endC[0],endC[1],endC[2]); checkEq(M3(T.block<3,3>(0,0)),R,"the refined rotation is the minimiser's"); checkEq(V3(T.col(3)),endT,"the refined position is the minimiser's"); vp_reach("end"); }
static std::vector<int> pick(int n,bool all){ std::vector<int> l; if(all){ for(int i=0;i<n;i++) l.push_back(i); } else { l.push_back(n-1); l.push_back(0); l.push_back(1); } wanted=l; return l; }
// ---- absolute
struct AbsO:Oracle { points_t p; bearingVectors_t f; V3s o; rotations_t C; double residual(int k,const M3&R,const V3&t){ V3 b=R.transpose()*(p[k]-t); V3 c=C[k].transpose()*(b-o[k]); simp(c); return miss(f[k],c); } };
static void absolute(int mode){ poses(mode,3); AbsO q; oracle=&q; int n=4; for(int i=0;i<n;i++){ q.p.push_back(mode==1?V3(4*off(i)+q3(0,0,i,1)):symVec("p",i)); q.f.push_back(i<2?symVec("f",i,2):fixUnit(i)); }
  int kind=vp_choice("adapter",3); translations_t o; rotations_t C; std::vector<int> cam; std::unique_ptr<absolute_pose::AbsoluteAdapterBase> ad; M3 R0=cayleyRot(startC[0],startC[1],startC[2]);
  if(kind==0){ ad.reset(new absolute_pose::CentralAbsoluteAdapter(q.f,q.p)); for(int i=0;i<n;i++){ q.o.push_back(V3::Zero()); q.C.push_back(M3::Identity()); } }
  else { for(int i=0;i<2;i++){ o.push_back(off(i)); C.push_back(camR(i)); } for(int i=0;i<n;i++){ int c=kind==1?i%2:1-i/2; cam.push_back(c); q.o.push_back(o[c]); q.C.push_back(C[c]); } ad.reset(new absolute_pose::NoncentralAbsoluteAdapter(q.f,cam,q.p,o,C)); }
  int how=vp_choice("call",3); transformation_t T; std::vector<int> l=pick(n,how==0);
  if(how<2){ ad->sett(startT); ad->setR(R0); T=how==0?absolute_pose::optimize_nonlinear(*ad):absolute_pose::optimize_nonlinear(*ad,l); }
  else { ad->sett(off(0)); ad->setR(fixRot(1)); sac_problems::absolute_pose::AbsolutePoseSacProblem prob(*ad,sac_problems::absolute_pose::AbsolutePoseSacProblem::KNEIP); T=pose(fixRot(2),off(1)); transformation_t M=pose(R0,startT); prob.optimizeModelCoefficients(l,M,T); }
  result(T); }
HARNESS(absolute_start){ absolute(0); }
HARNESS(absolute_rot){ absolute(1); }
HARNESS(absolute_pos){ absolute(2); }
HARNESS(absolute_multi){ poses(vp_choice("mode",2)*2,3); AbsO q; oracle=&q; std::vector<std::shared_ptr<bearingVectors_t> > f; std::vector<std::shared_ptr<points_t> > p; translations_t o; rotations_t C; int n=0;
  for(int c=0;c<2;c++){ f.push_back(std::shared_ptr<bearingVectors_t>(new bearingVectors_t)); p.push_back(std::shared_ptr<points_t>(new points_t)); o.push_back(off(c)); C.push_back(camR(c)); for(int i=0;i<2+c;i++,n++){ V3 b=fixUnit(n),x=symVec("p",n); f[c]->push_back(b); p[c]->push_back(x); q.p.push_back(x); q.f.push_back(b); q.o.push_back(off(c)); q.C.push_back(camR(c)); } }
  absolute_pose::NoncentralAbsoluteMultiAdapter ad(f,p,o,C); M3 R0=cayleyRot(startC[0],startC[1],startC[2]); std::vector<std::vector<int> > l(2); int k=vp_choice("list",3); if(k==0){ l[0].push_back(1); l[1].push_back(2); l[1].push_back(0); } else if(k==1){ l[1].push_back(1); } else { for(int c=0;c<2;c++) for(int i=0;i<2+c;i++) l[c].push_back(i); }
  for(int c=0;c<2;c++) for(size_t i=0;i<l[c].size();i++) wanted.push_back(2*c+l[c][i]);
  ad.sett(off(0)); ad.setR(fixRot(1)); sac_problems::absolute_pose::MultiNoncentralAbsolutePoseSacProblem prob(ad); transformation_t T=pose(fixRot(2),off(1)),M=pose(R0,startT); prob.optimizeModelCoefficients(l,M,T); result(T); }
// ---- point clouds
struct CloudO:Oracle { points_t p,q; double residual(int k,const M3&R,const V3&t){ V3 e=p[k]-(R*q[k]+t); return sqrt(e.dot(e)); } };
static void cloud(int mode){ poses(mode,3); CloudO q; oracle=&q; int n=4; for(int i=0;i<n;i++){ q.p.push_back(symVec("p",i)); q.q.push_back(mode==1?fixUnit(i):symVec("q",i)); } point_cloud::PointCloudAdapter ad(q.p,q.q); ad.sett12(startT); ad.setR12(cayleyRot(startC[0],startC[1],startC[2])); bool all=vp_choice("call",2); std::vector<int> l=pick(n,all); result(all?point_cloud::optimize_nonlinear(ad):point_cloud::optimize_nonlinear(ad,l)); }
HARNESS(cloud_start){ cloud(0); }
HARNESS(cloud_rot){ cloud(1); }
HARNESS(cloud_pos){ cloud(2); }
// ---- relative
struct RelO:Oracle { bearingVectors_t f,g; V3s o1,o2; rotations_t C1,C2; double residual(int k,const M3&R,const V3&t){ M3 Rd=C1[k].transpose()*R*C2[k]; V3 td=C1[k].transpose()*(R*o2[k]+t-o1[k]); simp(Rd); simp(td); return missRel(f[k],g[k],Rd,td); } };
static void relPoses(int mode){ poses(mode==0?0:3,3); if(mode==1) endC[0]=vp_real("ec",-2,2); if(mode==2) endT[0]=vp_real("e",-4,4); }
static void relative(int mode){ relPoses(mode); RelO q; oracle=&q; int n=4; for(int i=0;i<n;i++){ q.f.push_back(fixUnit(2*i)); q.g.push_back(fixUnit(2*i+1)); } int kind=vp_choice("adapter",3); translations_t o; rotations_t C; std::vector<int> c1,c2; std::unique_ptr<relative_pose::RelativeAdapterBase> ad; M3 R0=cayleyRot(startC[0],startC[1],startC[2]);
  if(kind==0){ ad.reset(new relative_pose::CentralRelativeAdapter(q.f,q.g)); for(int i=0;i<n;i++){ q.o1.push_back(V3::Zero()); q.o2.push_back(V3::Zero()); q.C1.push_back(M3::Identity()); q.C2.push_back(M3::Identity()); } }
  else { for(int i=0;i<2;i++){ o.push_back(off(i)); C.push_back(camR(i)); } for(int i=0;i<n;i++){ int a=i%2,b=kind==1?a:(i/2)%2; c1.push_back(a); c2.push_back(b); q.o1.push_back(o[a]); q.C1.push_back(C[a]); q.o2.push_back(o[b]); q.C2.push_back(C[b]); } ad.reset(new relative_pose::NoncentralRelativeAdapter(q.f,q.g,c1,c2,o,C)); }
  int how=vp_choice("call",3); transformation_t T; std::vector<int> l=pick(n,how==0);
  if(how<2){ ad->sett12(startT); ad->setR12(R0); T=how==0?relative_pose::optimize_nonlinear(*ad):relative_pose::optimize_nonlinear(*ad,l); }
  else { ad->sett12(off(0)); ad->setR12(fixRot(1)); T=pose(fixRot(2),off(1)); transformation_t M=pose(R0,startT);
    if(kind==0&&vp_choice("translation_only",2)){ sac_problems::relative_pose::TranslationOnlySacProblem prob(*ad); prob.optimizeModelCoefficients(l,M,T); }
    else if(kind==0){ sac_problems::relative_pose::CentralRelativePoseSacProblem prob(*ad,sac_problems::relative_pose::CentralRelativePoseSacProblem::STEWENIUS); prob.optimizeModelCoefficients(l,M,T); }
    else { sac_problems::relative_pose::NoncentralRelativePoseSacProblem prob(*ad,sac_problems::relative_pose::NoncentralRelativePoseSacProblem::SEVENTEENPT); prob.optimizeModelCoefficients(l,M,T); } }
  result(T); }
HARNESS(relative_start){ relative(0); }
HARNESS(relative_rot){ relative(1); }
HARNESS(relative_pos){ relative(2); }
HARNESS(relative_multi){ relPoses(vp_choice("mode",3)); RelO q; oracle=&q; std::vector<std::shared_ptr<bearingVectors_t> > f,g; translations_t o; rotations_t C; int n=0;
  for(int c=0;c<2;c++){ f.push_back(std::shared_ptr<bearingVectors_t>(new bearingVectors_t)); g.push_back(std::shared_ptr<bearingVectors_t>(new bearingVectors_t)); o.push_back(off(c)); C.push_back(camR(c)); for(int i=0;i<2+c;i++,n++){ V3 a=fixUnit(2*n),b=fixUnit(2*n+1); f[c]->push_back(a); g[c]->push_back(b); q.f.push_back(a); q.g.push_back(b); q.o1.push_back(off(c)); q.o2.push_back(off(c)); q.C1.push_back(camR(c)); q.C2.push_back(camR(c)); } }
  relative_pose::NoncentralRelativeMultiAdapter ad(f,g,o,C); std::vector<std::vector<int> > l(2); int k=vp_choice("list",3); if(k==0){ l[0].push_back(1); l[1].push_back(2); l[1].push_back(0); } else if(k==1){ l[1].push_back(1); } else { for(int c=0;c<2;c++) for(int i=0;i<2+c;i++) l[c].push_back(i); }
  for(int c=0;c<2;c++) for(size_t i=0;i<l[c].size();i++) wanted.push_back(2*c+l[c][i]);
  ad.sett12(off(0)); ad.setR12(fixRot(1)); sac_problems::relative_pose::MultiNoncentralRelativePoseSacProblem prob(ad,sac_problems::relative_pose::MultiNoncentralRelativePoseSacProblem::SEVENTEENPT); transformation_t T=pose(fixRot(2),off(1)),M=pose(cayleyRot(startC[0],startC[1],startC[2]),startT); prob.optimizeModelCoefficients(l,M,T); result(T); }
