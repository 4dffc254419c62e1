// Inlier distances of the sample-consensus problems.
#include "scene.hpp"
#include <memory>
#include <opengv/absolute_pose/CentralAbsoluteAdapter.hpp>
#include <opengv/absolute_pose/NoncentralAbsoluteAdapter.hpp>
#include <opengv/absolute_pose/NoncentralAbsoluteMultiAdapter.hpp>
#include <opengv/relative_pose/CentralRelativeAdapter.hpp>
#include <opengv/relative_pose/NoncentralRelativeAdapter.hpp>
#include <opengv/relative_pose/CentralRelativeMultiAdapter.hpp>
#include <opengv/relative_pose/NoncentralRelativeMultiAdapter.hpp>
#include <opengv/point_cloud/PointCloudAdapter.hpp>
#include <algorithm>
#include <climits>
#include <limits>
#include <opengv/sac_problems/absolute_pose/AbsolutePoseSacProblem.hpp>
#include <opengv/sac_problems/absolute_pose/MultiNoncentralAbsolutePoseSacProblem.hpp>
#include <opengv/sac_problems/point_cloud/PointCloudSacProblem.hpp>
#include <opengv/sac_problems/relative_pose/CentralRelativePoseSacProblem.hpp>
#include <opengv/sac_problems/relative_pose/NoncentralRelativePoseSacProblem.hpp>
#include <opengv/sac_problems/relative_pose/RotationOnlySacProblem.hpp>
#include <opengv/sac_problems/relative_pose/TranslationOnlySacProblem.hpp>
#include <opengv/sac_problems/relative_pose/EigensolverSacProblem.hpp>
#include <opengv/sac_problems/relative_pose/MultiCentralRelativePoseSacProblem.hpp>
#include <opengv/sac_problems/relative_pose/MultiNoncentralRelativePoseSacProblem.hpp>
using namespace opengv; using namespace vp;
static V3 off(int k){ static const double t[3][3]={{0.5,-0.25,1},{-1,0.75,0.25},{0.25,1.5,-0.5}}; V3 v; v<<t[k%3][0],t[k%3][1],t[k%3][2]; return v; }
static M3 camR(int k){ return fixRot(k+1); }
static transformation_t pose(const M3&R,const V3&t){ transformation_t T; T.block<3,3>(0,0)=R; T.col(3)=t; return T; }
static V3 camPoint(const M3&R,const V3&t,const V3&o,const M3&C,const V3&X){ V3 b=R.transpose()*(X-t); V3 c=C.transpose()*(b-o); simp(c); return c; }
static double miss(const V3&f,const V3&c){ return 1-f.dot(c)/sqrt(c.dot(c)); }
static std::vector<int> list2(int n){ std::vector<int> l; static const int a[4]={2,0,1,2}; int k=vp_choice("list",3); if(k==0){ l.push_back(n-1); l.push_back(0); } else if(k==1) l.push_back(1); else for(int i=0;i<n;i++) l.push_back(i); (void)a; return l; }
#define POSEVARS(n) int mode_=vp_choice("pose",2); M3 R=mode_?symRot("r",3):fixRot(2); V3 t=mode_?off(2):symVec("t",0);
// ---- absolute pose
HARNESS(absolute){ POSEVARS(); points_t p; bearingVectors_t f; for(int i=0;i<3;i++){ p.push_back(symVec("p",i)); f.push_back(symVec("f",i,2)); }
  translations_t o; rotations_t C; std::vector<int> cam; int kind=vp_choice("adapter",3); std::unique_ptr<absolute_pose::AbsoluteAdapterBase> ad; std::vector<V3,Eigen::aligned_allocator<V3> > oo; rotations_t CC;
  if(kind==0){ ad.reset(new absolute_pose::CentralAbsoluteAdapter(f,p)); for(int i=0;i<3;i++){ oo.push_back(V3::Zero()); CC.push_back(M3::Identity()); } }
  else { for(int i=0;i<2;i++){ o.push_back(off(i)); C.push_back(camR(i)); } for(int i=0;i<3;i++){ int c=kind==1?i%2:1-i%2; cam.push_back(c); oo.push_back(o[c]); CC.push_back(C[c]); } ad.reset(new absolute_pose::NoncentralAbsoluteAdapter(f,cam,p,o,C)); }
  sac_problems::absolute_pose::AbsolutePoseSacProblem prob(*ad,kind==0?sac_problems::absolute_pose::AbsolutePoseSacProblem::KNEIP:sac_problems::absolute_pose::AbsolutePoseSacProblem::GP3P);
  std::vector<int> l=list2(3); std::vector<double> s; transformation_t T=pose(R,t); prob.getSelectedDistancesToModel(T,l,s); vp_check(s.size()==l.size(),"one distance per selected correspondence");
  for(size_t i=0;i<l.size();i++){ int k=l[i]; vp_check_eq(s[i],miss(f[k],camPoint(R,t,oo[k],CC[k],p[k])),"the distance is one minus the cosine between bearing and direction to the point in its camera"); }
  vp_reach("end"); }
HARNESS(absolute_multi){ POSEVARS(); std::vector<std::shared_ptr<bearingVectors_t> > f; std::vector<std::shared_ptr<points_t> > p; translations_t o; rotations_t C; for(int c=0;c<2;c++){ f.push_back(std::shared_ptr<bearingVectors_t>(new bearingVectors_t)); p.push_back(std::shared_ptr<points_t>(new points_t)); for(int i=0;i<2+c;i++){ f[c]->push_back(symVec(c?"g":"f",i,2)); p[c]->push_back(symVec(c?"q":"p",i)); } o.push_back(off(c)); C.push_back(camR(c)); }
  absolute_pose::NoncentralAbsoluteMultiAdapter ad(f,p,o,C); sac_problems::absolute_pose::MultiNoncentralAbsolutePoseSacProblem prob(ad); std::vector<std::vector<int> > l(2); int k=vp_choice("list",3); if(k==0){ l[0].push_back(1); l[1].push_back(2); l[1].push_back(0); } else if(k==1){ l[1].push_back(1); } else { l[0].push_back(0); l[0].push_back(1); l[1].push_back(0); l[1].push_back(1); l[1].push_back(2); }
  std::vector<std::vector<double> > s(2); transformation_t T=pose(R,t); prob.getSelectedDistancesToModel(T,l,s); for(int c=0;c<2;c++){ vp_check(s[c].size()==l[c].size(),"one distance per selected correspondence"); for(size_t i=0;i<l[c].size();i++) vp_check_eq(s[c][i],miss((*f[c])[l[c][i]],camPoint(R,t,o[c],C[c],(*p[c])[l[c][i]])),"the distance is one minus the cosine between bearing and direction to the point in its camera"); }
  vp_reach("end"); }
// ---- point clouds
HARNESS(cloud){ POSEVARS(); points_t p,q; for(int i=0;i<3;i++){ p.push_back(symVec("p",i)); q.push_back(symVec("q",i)); } point_cloud::PointCloudAdapter ad(p,q); sac_problems::point_cloud::PointCloudSacProblem prob(ad); std::vector<int> l=list2(3); std::vector<double> s; transformation_t T=pose(R,t); prob.getSelectedDistancesToModel(T,l,s); vp_check(s.size()==l.size(),"one distance per selected correspondence");
  for(size_t i=0;i<l.size();i++){ V3 e=p[l[i]]-(R*q[l[i]]+t); vp_check_eq(s[i],sqrt(e.dot(e)),"the distance is the length of the alignment error"); } vp_reach("end"); }
// ---- relative pose: both cameras' reprojection of the point nearest to both rays
static double missRel(const V3&f1,const V3&f2,const M3&R,const V3&t){ V3 g=R*f2; double a=f1.dot(f1),b=f1.dot(g),c=g.dot(g),d=t.dot(f1),e=t.dot(g),D=a*c-b*b; double l1=(d*c-b*e)/D,l2=(b*d-a*e)/D; V3 X=(l1*f1+t+l2*g)/2; simp(X); V3 Y=R.transpose()*(X-t); simp(Y); return miss(f1,X)+miss(f2,Y); }
static void data(bearingVectors_t&f,bearingVectors_t&g,int n){ for(int i=0;i<n;i++){ f.push_back(fixUnit(2*i)); g.push_back(fixUnit(2*i+1)); } }
static void relPose(bearingVectors_t&f,bearingVectors_t&g,M3&R,V3&t){ int k=vp_choice("pose",4); R=k==1?cayleyRot(vp_real("r",-2,2),0.5,-0.25):fixRot(1); t<<(k<2?vp_real("t",-4,4):0.75),1,-0.5; if(k==2){ V3 v; v<<vp_real("x",-2,2),0.5,1; g[1]=v; g[2]=v; } if(k==3){ V3 v; v<<0.25,vp_real("x",-2,2),1; f[1]=v; f[0]=v; } }
static M3 rotOne(){ return cayleyRot(vp_real("r",-2,2),0.5,-0.25); }
template<class PR,class M> static void relCheck(PR&prob,const M&model,const std::vector<int>&l,const bearingVectors_t&f,const bearingVectors_t&g,const M3&R,const V3&t){ std::vector<double> s; prob.getSelectedDistancesToModel(model,l,s); vp_check(s.size()==l.size(),"one distance per selected correspondence"); for(size_t i=0;i<l.size();i++) vp_check_eq(s[i],missRel(f[l[i]],g[l[i]],R,t),"the distance adds one minus the cosine in both views to the triangulated point"); vp_reach("end"); }
HARNESS(relative_central){ bearingVectors_t f,g; data(f,g,3); M3 R; V3 t; relPose(f,g,R,t); relative_pose::CentralRelativeAdapter ad(f,g); std::vector<int> l=list2(3); int k=vp_choice("problem",3); transformation_t T=pose(R,t);
  if(k==0){ sac_problems::relative_pose::CentralRelativePoseSacProblem p(ad,sac_problems::relative_pose::CentralRelativePoseSacProblem::NISTER); relCheck(p,T,l,f,g,R,t); }
  else if(k==1){ sac_problems::relative_pose::TranslationOnlySacProblem p(ad); relCheck(p,T,l,f,g,R,t); }
  else { V3 t0=off(1); M3 R0=fixRot(3); ad.sett12(t0); ad.setR12(R0); sac_problems::relative_pose::EigensolverSacProblem p(ad,10); eigensolverOutput_t m; m.rotation=R; m.translation=t; relCheck(p,m,l,f,g,R,t); checkEq(ad.gett12(),t0,"the adapter's prior is left as it was"); checkEq(ad.getR12(),R0,"the adapter's prior is left as it was"); } }
HARNESS(rotation_only){ bearingVectors_t f,g; for(int i=0;i<3;i++){ f.push_back(symVec("f",i,2)); g.push_back(symVec("g",i,2)); } M3 R=symRot("r"); relative_pose::CentralRelativeAdapter ad(f,g); sac_problems::relative_pose::RotationOnlySacProblem p(ad); std::vector<int> l=list2(3); std::vector<double> s; rotation_t RR=R; p.getSelectedDistancesToModel(RR,l,s); vp_check(s.size()==l.size(),"one distance per selected correspondence"); for(size_t i=0;i<l.size();i++) vp_check_eq(s[i],1-f[l[i]].dot(V3(R*g[l[i]])),"the distance is one minus the cosine after rotating the second vector"); vp_reach("end"); }
static void between(const M3&R,const V3&t,const V3&o1,const M3&C1,const V3&o2,const M3&C2,M3&Rd,V3&td){ Rd=C1.transpose()*R*C2; td=C1.transpose()*(R*o2+t-o1); simp(Rd); simp(td); }
HARNESS(relative_noncentral){ bearingVectors_t f,g; data(f,g,3); M3 R; V3 t; relPose(f,g,R,t); translations_t o; rotations_t C; for(int i=0;i<2;i++){ o.push_back(off(i)); C.push_back(camR(i)); } std::vector<int> c1,c2; int a=vp_choice("cams",4); for(int i=0;i<3;i++){ c1.push_back((i+a)%2); c2.push_back((i+a/2)%2); }
  relative_pose::NoncentralRelativeAdapter ad(f,g,c1,c2,o,C); sac_problems::relative_pose::NoncentralRelativePoseSacProblem p(ad,sac_problems::relative_pose::NoncentralRelativePoseSacProblem::SEVENTEENPT,vp_choice("central",2)); std::vector<int> l=list2(3); transformation_t T=pose(R,t); std::vector<double> s; p.getSelectedDistancesToModel(T,l,s); vp_check(s.size()==l.size(),"one distance per selected correspondence");
  for(size_t i=0;i<l.size();i++){ int k=l[i]; M3 Rd; V3 td; between(R,t,o[c1[k]],C[c1[k]],o[c2[k]],C[c2[k]],Rd,td); vp_check_eq(s[i],missRel(f[k],g[k],Rd,td),"the distance adds one minus the cosine in both views to the triangulated point"); } vp_reach("end"); }
static void multiLists(std::vector<std::vector<int> >&l){ l.resize(2); int k=vp_choice("list",3); if(k==0){ l[0].push_back(1); l[1].push_back(2); l[1].push_back(0); } else if(k==1){ l[1].push_back(1); } else { l[0].push_back(0); l[0].push_back(1); l[1].push_back(0); l[1].push_back(1); l[1].push_back(2); } }
static void multiData(std::vector<std::shared_ptr<bearingVectors_t> >&f,std::vector<std::shared_ptr<bearingVectors_t> >&g){ int n=0; for(int c=0;c<2;c++){ f.push_back(std::shared_ptr<bearingVectors_t>(new bearingVectors_t)); g.push_back(std::shared_ptr<bearingVectors_t>(new bearingVectors_t)); for(int i=0;i<2+c;i++,n++){ f[c]->push_back(fixUnit(2*n)); g[c]->push_back(fixUnit(2*n+1)); } } }
HARNESS(multi_noncentral){ std::vector<std::shared_ptr<bearingVectors_t> > f,g; multiData(f,g); M3 R=vp_choice("pose",2)?rotOne():fixRot(1); V3 t; t<<vp_real("t",-4,4),1,-0.5; translations_t o; rotations_t C; for(int i=0;i<2;i++){ o.push_back(off(i)); C.push_back(camR(i)); }
  relative_pose::NoncentralRelativeMultiAdapter ad(f,g,o,C); sac_problems::relative_pose::MultiNoncentralRelativePoseSacProblem p(ad,sac_problems::relative_pose::MultiNoncentralRelativePoseSacProblem::SEVENTEENPT); std::vector<std::vector<int> > l; multiLists(l); std::vector<std::vector<double> > s(2); transformation_t T=pose(R,t); p.getSelectedDistancesToModel(T,l,s);
  for(int c=0;c<2;c++){ vp_check(s[c].size()==l[c].size(),"one distance per selected correspondence"); M3 Rd; V3 td; between(R,t,o[c],C[c],o[c],C[c],Rd,td); for(size_t i=0;i<l[c].size();i++) vp_check_eq(s[c][i],missRel((*f[c])[l[c][i]],(*g[c])[l[c][i]],Rd,td),"the distance adds one minus the cosine in both views to the triangulated point"); } vp_reach("end"); }
HARNESS(multi_central){ std::vector<std::shared_ptr<bearingVectors_t> > f,g; multiData(f,g); int k=vp_choice("pose",2); M3 R=k?rotOne():fixRot(1); V3 t; t<<vp_real("t",-4,4),1,-0.5; relative_pose::CentralRelativeMultiAdapter ad(f,g); sac_problems::relative_pose::MultiCentralRelativePoseSacProblem p(ad,8); std::vector<std::vector<int> > l; multiLists(l); std::vector<std::vector<double> > s(2); transformations_t T; T.push_back(pose(R,t)); M3 R1=fixRot(2); V3 t1=off(2); T.push_back(pose(R1,t1)); if(vp_choice("swap",2)){ std::swap(T[0],T[1]); } p.getSelectedDistancesToModel(T,l,s);
  for(int c=0;c<2;c++){ vp_check(s[c].size()==l[c].size(),"one distance per selected correspondence"); for(size_t i=0;i<l[c].size();i++) vp_check_eq(s[c][i],missRel((*f[c])[l[c][i]],(*g[c])[l[c][i]],M3(T[c].block<3,3>(0,0)),V3(T[c].col(3))),"the distance adds one minus the cosine in both views to the triangulated point"); } vp_reach("end"); }
// ---- sample sizes of the multi-camera problems
template<class PR> static void sizesCheck(PR&p,int cams,int want){ std::vector<int> s=p.getSampleSizes(); vp_check((int)s.size()==cams,"one sample size per camera"); int sum=0,mn=1000,mx=0; for(size_t i=0;i<s.size();i++){ sum+=s[i]; mn=std::min(mn,s[i]); mx=std::max(mx,s[i]); } vp_check(sum==want,"the sample sizes add up to what the algorithm needs"); vp_check(mx-mn<=1,"the sample is spread evenly over the cameras"); vp_reach("end"); }
HARNESS(sample_sizes){ int n=2+vp_choice("cams",2); std::vector<std::shared_ptr<bearingVectors_t> > f,g; std::vector<std::shared_ptr<points_t> > p; translations_t o; rotations_t C; for(int c=0;c<n;c++){ f.push_back(std::shared_ptr<bearingVectors_t>(new bearingVectors_t)); g.push_back(std::shared_ptr<bearingVectors_t>(new bearingVectors_t)); p.push_back(std::shared_ptr<points_t>(new points_t)); for(int i=0;i<12;i++){ f[c]->push_back(fixUnit(i)); g[c]->push_back(fixUnit(i+1)); p[c]->push_back(off(i)); } o.push_back(off(c)); C.push_back(camR(c)); }
  int k=vp_choice("problem",6); if(k==0){ absolute_pose::NoncentralAbsoluteMultiAdapter ad(f,p,o,C); sac_problems::absolute_pose::MultiNoncentralAbsolutePoseSacProblem pr(ad); sizesCheck(pr,n,4); }
  else if(k<5){ typedef sac_problems::relative_pose::MultiNoncentralRelativePoseSacProblem M; relative_pose::NoncentralRelativeMultiAdapter ad(f,g,o,C); M pr(ad,k==1?M::SEVENTEENPT:k==2?M::GE:M::SIXPT,k==4); sizesCheck(pr,n,k==1?17:k==2?8:k==3?9:8); }
  else { relative_pose::CentralRelativeMultiAdapter ad(f,g); sac_problems::relative_pose::MultiCentralRelativePoseSacProblem pr(ad,8); sizesCheck(pr,n,8*n); } }
