// Adapters: every accessor returns exactly the datum the user supplied for that index,
// poses given at construction or by setters come back, multi <-> serialized indices agree.
#include "vp.hpp"
#include <opengv/absolute_pose/CentralAbsoluteAdapter.hpp>
#include <opengv/absolute_pose/NoncentralAbsoluteAdapter.hpp>
#include <opengv/absolute_pose/NoncentralAbsoluteMultiAdapter.hpp>
#include <opengv/absolute_pose/MACentralAbsolute.hpp>
#include <opengv/absolute_pose/MANoncentralAbsolute.hpp>
#include <opengv/relative_pose/CentralRelativeAdapter.hpp>
#include <opengv/relative_pose/CentralRelativeMultiAdapter.hpp>
#include <opengv/relative_pose/CentralRelativeWeightingAdapter.hpp>
#include <opengv/relative_pose/NoncentralRelativeAdapter.hpp>
#include <opengv/relative_pose/NoncentralRelativeMultiAdapter.hpp>
#include <opengv/relative_pose/MACentralRelative.hpp>
#include <opengv/relative_pose/MANoncentralRelative.hpp>
#include <opengv/relative_pose/MANoncentralRelativeMulti.hpp>
#include <opengv/point_cloud/PointCloudAdapter.hpp>
#include <opengv/point_cloud/MAPointCloud.hpp>
#include <memory>
using namespace opengv; using namespace vp;
static V3 sv(const char*p,int i,int j=-1){ char b[48]; if(j<0) snprintf(b,48,"%s%d_",p,i); else snprintf(b,48,"%s%d_",p,10*i+j); return vec(b,-100,100); }
static M3 sm(const char*p,int i){ M3 m; for(int r=0;r<3;r++) for(int c=0;c<3;c++){ char b[48]; snprintf(b,48,"%s%d_%d",p,i,3*r+c); m(r,c)=vp_real(b,-1,1); } return m; }
static const M3 I3=M3::Identity(); static const V3 Z3=V3::Zero();
static std::vector<V3,Eigen::aligned_allocator<V3> > svs(const char*p,int n){ std::vector<V3,Eigen::aligned_allocator<V3> > r; for(int i=0;i<n;i++) r.push_back(sv(p,i)); return r; }

// ---------------- absolute
HARNESS(central_absolute){
  bearingVectors_t f=svs("f",3); points_t p=svs("p",3); V3 t=sv("t",0); M3 R=sm("R",0); int k=vp_choice("ctor",3);
  std::unique_ptr<absolute_pose::CentralAbsoluteAdapter> a;
  if(k==0) a.reset(new absolute_pose::CentralAbsoluteAdapter(f,p)); else if(k==1) a.reset(new absolute_pose::CentralAbsoluteAdapter(f,p,R)); else a.reset(new absolute_pose::CentralAbsoluteAdapter(f,p,t,R));
  checkEq(a->gett(),k==2?t:Z3,"initial translation is the supplied one"); checkEq(a->getR(),k>=1?R:I3,"initial rotation is the supplied one");
  vp_check(a->getNumberCorrespondences()==3,"number of correspondences");
  for(int i=0;i<3;i++){ checkEq(a->getBearingVector(i),f[i],"bearing vector"); checkEq(a->getPoint(i),p[i],"point"); vp_check_eq(a->getWeight(i),1,"weight"); checkEq(a->getCamOffset(i),Z3,"central camera has no offset"); checkEq(a->getCamRotation(i),I3,"central camera has identity rotation"); }
  V3 t2=sv("u",0); M3 R2=sm("S",0); a->sett(t2); a->setR(R2); checkEq(a->gett(),t2,"translation setter"); checkEq(a->getR(),R2,"rotation setter");
  vp_reach("end"); }
HARNESS(noncentral_absolute){
  bearingVectors_t f=svs("f",3); points_t p=svs("p",3); translations_t o=svs("o",2); rotations_t C; for(int i=0;i<2;i++) C.push_back(sm("C",i)); V3 t=sv("t",0); M3 R=sm("R",0); int k=vp_choice("ctor",3);
  std::vector<int> cc; for(int i=0;i<3;i++){ char b[16]; snprintf(b,16,"cam%d",i); cc.push_back(vp_int(b,0,1)); }
  std::unique_ptr<absolute_pose::NoncentralAbsoluteAdapter> a;
  if(k==0) a.reset(new absolute_pose::NoncentralAbsoluteAdapter(f,cc,p,o,C)); else if(k==1) a.reset(new absolute_pose::NoncentralAbsoluteAdapter(f,cc,p,o,C,R)); else a.reset(new absolute_pose::NoncentralAbsoluteAdapter(f,cc,p,o,C,t,R));
  checkEq(a->gett(),k==2?t:Z3,"initial translation is the supplied one"); checkEq(a->getR(),k>=1?R:I3,"initial rotation is the supplied one");
  vp_check(a->getNumberCorrespondences()==3,"number of correspondences");
  for(int i=0;i<3;i++){ checkEq(a->getBearingVector(i),f[i],"bearing vector"); checkEq(a->getPoint(i),p[i],"point"); vp_check_eq(a->getWeight(i),1,"weight"); checkEq(a->getCamOffset(i),o[cc[i]],"offset of the observing camera"); checkEq(a->getCamRotation(i),C[cc[i]],"rotation of the observing camera"); }
  vp_reach("end"); }
HARNESS(ma_absolute){
  double P[9],F[9],G[18]; for(int i=0;i<9;i++){ char b[16]; snprintf(b,16,"P%d",i); P[i]=vp_real(b,-9,9); snprintf(b,16,"F%d",i); F[i]=vp_real(b,-9,9); } for(int i=0;i<18;i++){ char b[16]; snprintf(b,16,"G%d",i); G[i]=vp_real(b,-9,9); }
  absolute_pose::MACentralAbsolute a(P,F,3,3); absolute_pose::MANoncentralAbsolute n(P,G,3,3);
  vp_check(a.getNumberCorrespondences()==3&&n.getNumberCorrespondences()==3,"number of correspondences");
  for(int i=0;i<3;i++) for(int c=0;c<3;c++){ vp_check_eq(a.getPoint(i)[c],P[3*i+c],"point"); vp_check_eq(a.getBearingVector(i)[c],F[3*i+c],"bearing vector"); vp_check_eq(n.getPoint(i)[c],P[3*i+c],"point"); vp_check_eq(n.getBearingVector(i)[c],G[6*i+c],"bearing vector"); vp_check_eq(n.getCamOffset(i)[c],G[6*i+3+c],"camera offset"); vp_check_eq(a.getCamOffset(i)[c],0,"central camera has no offset"); }
  for(int i=0;i<3;i++){ checkEq(a.getCamRotation(i),I3,"identity camera rotation"); checkEq(n.getCamRotation(i),I3,"identity camera rotation"); vp_check_eq(a.getWeight(i),1,"weight"); vp_check_eq(n.getWeight(i),1,"weight"); }
  vp_reach("end"); }
// ---------------- relative
template<class A> static void relPose(A&a,int k,const V3&t,const M3&R){ checkEq(a.gett12(),k==2?t:Z3,"initial translation is the supplied one"); checkEq(a.getR12(),k>=1?R:I3,"initial rotation is the supplied one");
  V3 t2=sv("u",0); M3 R2=sm("S",0); a.sett12(t2); a.setR12(R2); checkEq(a.gett12(),t2,"translation setter"); checkEq(a.getR12(),R2,"rotation setter"); }
template<class A> static void relCentral(const A&a,const bearingVectors_t&f,const bearingVectors_t&g){ vp_check(a.getNumberCorrespondences()==f.size(),"number of correspondences"); for(size_t i=0;i<f.size();i++){ checkEq(a.getBearingVector1(i),f[i],"first bearing vector"); checkEq(a.getBearingVector2(i),g[i],"second bearing vector"); checkEq(a.getCamOffset1(i),Z3,"central camera has no offset"); checkEq(a.getCamOffset2(i),Z3,"central camera has no offset"); checkEq(a.getCamRotation1(i),I3,"identity camera rotation"); checkEq(a.getCamRotation2(i),I3,"identity camera rotation"); } }
HARNESS(central_relative){
  bearingVectors_t f=svs("f",3),g=svs("g",3); V3 t=sv("t",0); M3 R=sm("R",0); int k=vp_choice("ctor",3); std::unique_ptr<relative_pose::CentralRelativeAdapter> a;
  if(k==0) a.reset(new relative_pose::CentralRelativeAdapter(f,g)); else if(k==1) a.reset(new relative_pose::CentralRelativeAdapter(f,g,R)); else a.reset(new relative_pose::CentralRelativeAdapter(f,g,t,R));
  relPose(*a,k,t,R); relCentral(*a,f,g); for(int i=0;i<3;i++) vp_check_eq(a->getWeight(i),1,"weight"); vp_reach("end"); }
HARNESS(weighting_relative){
  bearingVectors_t f=svs("f",3),g=svs("g",3); V3 t=sv("t",0); M3 R=sm("R",0); std::vector<double> w; for(int i=0;i<3;i++){ char b[8]; snprintf(b,8,"w%d",i); w.push_back(vp_real(b,0,9)); } int k=vp_choice("ctor",3); std::unique_ptr<relative_pose::CentralRelativeWeightingAdapter> a;
  if(k==0) a.reset(new relative_pose::CentralRelativeWeightingAdapter(f,g,w)); else if(k==1) a.reset(new relative_pose::CentralRelativeWeightingAdapter(f,g,w,R)); else a.reset(new relative_pose::CentralRelativeWeightingAdapter(f,g,w,t,R));
  relPose(*a,k,t,R); relCentral(*a,f,g); for(int i=0;i<3;i++) vp_check_eq(a->getWeight(i),w[i],"weight"); vp_reach("end"); }
HARNESS(noncentral_relative){
  bearingVectors_t f=svs("f",2),g=svs("g",2); translations_t o=svs("o",2); rotations_t C; for(int i=0;i<2;i++) C.push_back(sm("C",i)); V3 t=sv("t",0); M3 R=sm("R",0); int k=vp_choice("ctor",3);
  std::vector<int> c1,c2; for(int i=0;i<2;i++){ char b[16]; snprintf(b,16,"cam%d",i); c1.push_back(vp_int(b,0,1)); snprintf(b,16,"kam%d",i); c2.push_back(vp_int(b,0,1)); }
  std::unique_ptr<relative_pose::NoncentralRelativeAdapter> a;
  if(k==0) a.reset(new relative_pose::NoncentralRelativeAdapter(f,g,c1,c2,o,C)); else if(k==1) a.reset(new relative_pose::NoncentralRelativeAdapter(f,g,c1,c2,o,C,R)); else a.reset(new relative_pose::NoncentralRelativeAdapter(f,g,c1,c2,o,C,t,R));
  vp_check(a->getNumberCorrespondences()==2,"number of correspondences");
  for(int i=0;i<2;i++){ checkEq(a->getBearingVector1(i),f[i],"first bearing vector"); checkEq(a->getBearingVector2(i),g[i],"second bearing vector"); checkEq(a->getCamOffset1(i),o[c1[i]],"offset of the first observing camera"); checkEq(a->getCamOffset2(i),o[c2[i]],"offset of the second observing camera"); checkEq(a->getCamRotation1(i),C[c1[i]],"rotation of the first observing camera"); checkEq(a->getCamRotation2(i),C[c2[i]],"rotation of the second observing camera"); vp_check_eq(a->getWeight(i),1,"weight"); }
  relPose(*a,k,t,R); vp_reach("end"); }
HARNESS(ma_relative){
  double F[9],G[9],F6[18],G6[18]; for(int i=0;i<9;i++){ char b[16]; snprintf(b,16,"F%d",i); F[i]=vp_real(b,-9,9); snprintf(b,16,"G%d",i); G[i]=vp_real(b,-9,9); } for(int i=0;i<18;i++){ char b[16]; snprintf(b,16,"H%d",i); F6[i]=vp_real(b,-9,9); snprintf(b,16,"K%d",i); G6[i]=vp_real(b,-9,9); }
  relative_pose::MACentralRelative a(F,G,3,3); relative_pose::MANoncentralRelative n(F6,G6,3,3);
  vp_check(a.getNumberCorrespondences()==3&&n.getNumberCorrespondences()==3,"number of correspondences");
  for(int i=0;i<3;i++){ for(int c=0;c<3;c++){ vp_check_eq(a.getBearingVector1(i)[c],F[3*i+c],"first bearing vector"); vp_check_eq(a.getBearingVector2(i)[c],G[3*i+c],"second bearing vector"); vp_check_eq(n.getBearingVector1(i)[c],F6[6*i+c],"first bearing vector"); vp_check_eq(n.getBearingVector2(i)[c],G6[6*i+c],"second bearing vector"); vp_check_eq(n.getCamOffset1(i)[c],F6[6*i+3+c],"offset of the first observing camera"); vp_check_eq(n.getCamOffset2(i)[c],G6[6*i+3+c],"offset of the second observing camera"); vp_check_eq(a.getCamOffset1(i)[c],0,"central camera has no offset"); vp_check_eq(a.getCamOffset2(i)[c],0,"central camera has no offset"); }
    checkEq(a.getCamRotation1(i),I3,"identity camera rotation"); checkEq(a.getCamRotation2(i),I3,"identity camera rotation"); checkEq(n.getCamRotation1(i),I3,"identity camera rotation"); checkEq(n.getCamRotation2(i),I3,"identity camera rotation"); vp_check_eq(a.getWeight(i),1,"weight"); vp_check_eq(n.getWeight(i),1,"weight"); }
  vp_reach("end"); }
// ---------------- point clouds
HARNESS(point_cloud){
  points_t p=svs("p",3),q=svs("q",3); V3 t=sv("t",0); M3 R=sm("R",0); int k=vp_choice("ctor",3); std::unique_ptr<point_cloud::PointCloudAdapter> a;
  if(k==0) a.reset(new point_cloud::PointCloudAdapter(p,q)); else if(k==1) a.reset(new point_cloud::PointCloudAdapter(p,q,R)); else a.reset(new point_cloud::PointCloudAdapter(p,q,t,R));
  vp_check(a->getNumberCorrespondences()==3,"number of correspondences"); for(int i=0;i<3;i++){ checkEq(a->getPoint1(i),p[i],"first point"); checkEq(a->getPoint2(i),q[i],"second point"); vp_check_eq(a->getWeight(i),1,"weight"); }
  relPose(*a,k,t,R);
  double P[9],Q[9]; for(int i=0;i<9;i++){ P[i]=p[i/3][i%3]; Q[i]=q[i/3][i%3]; } point_cloud::MAPointCloud m(P,Q,3,3); vp_check(m.getNumberCorrespondences()==3,"number of correspondences"); for(int i=0;i<3;i++){ checkEq(m.getPoint1(i),p[i],"first point"); checkEq(m.getPoint2(i),q[i],"second point"); vp_check_eq(m.getWeight(i),1,"weight"); } checkEq(m.getR12(),I3,"initial rotation"); checkEq(m.gett12(),Z3,"initial translation");
  vp_reach("end"); }
// ---------------- multi adapters: any number of correspondences per frame
static const int FR=3;
static void sizes(std::vector<int>&n){ for(int i=0;i<FR;i++){ char b[16]; snprintf(b,16,"n%d",i); n.push_back(vp_int(b,0,2)); } }
template<class A,class B,class FI> static void bijection(const A&a,const B&base_,const std::vector<int>&n,FI frameOf){
  int tot=0; for(int f=0;f<FR;f++){ vp_check((int)a.getNumberCorrespondences(f)==n[f],"number of correspondences of a camera"); for(int c=0;c<n[f];c++){ int s=a.convertMultiIndex(f,c); vp_check(s==tot,"serialized index counts through cameras and correspondences in order"); vp_check(frameOf(s)==f,"serialized index maps back to its camera"); vp_check(a.multiCorrespondenceIndex(s)==c,"serialized index maps back to its correspondence"); tot++; } }
  vp_check((int)base_.getNumberCorrespondences()==tot,"total number of correspondences");
  std::vector<std::vector<int> > m(FR); std::vector<int> e; int base=0; for(int f=0;f<FR;f++){ for(int c=n[f]-1;c>=0;c--){ m[f].push_back(c); e.push_back(base+c); } base+=n[f]; }
  vp_check(a.convertMultiIndices(m)==e,"list conversion agrees with single conversions, in order"); }
HARNESS(multi_absolute){
  std::vector<int> n; sizes(n); std::vector<std::shared_ptr<bearingVectors_t> > f; std::vector<std::shared_ptr<points_t> > p; translations_t o; rotations_t C;
  for(int i=0;i<FR;i++){ f.push_back(std::shared_ptr<bearingVectors_t>(new bearingVectors_t)); p.push_back(std::shared_ptr<points_t>(new points_t)); for(int c=0;c<n[i];c++){ f[i]->push_back(sv("f",i,c)); p[i]->push_back(sv("p",i,c)); } o.push_back(sv("o",i)); C.push_back(sm("C",i)); }
  absolute_pose::NoncentralAbsoluteMultiAdapter a(f,p,o,C); absolute_pose::AbsoluteAdapterBase&b=a;
  vp_check((int)a.getNumberFrames()==FR,"number of cameras"); bijection(a,b,n,[&](int s){ return a.multiFrameIndex(s); });
  int s=0; for(int i=0;i<FR;i++){ checkEq(a.getMultiCamOffset(i),o[i],"camera offset"); checkEq(a.getMultiCamRotation(i),C[i],"camera rotation"); for(int c=0;c<n[i];c++,s++){ checkEq(a.getBearingVector(i,c),(*f[i])[c],"bearing vector"); checkEq(a.getPoint(i,c),(*p[i])[c],"point"); vp_check_eq(a.getWeight(i,c),1,"weight");
    checkEq(b.getBearingVector(s),(*f[i])[c],"bearing vector through the serialized index"); checkEq(b.getPoint(s),(*p[i])[c],"point through the serialized index"); checkEq(b.getCamOffset(s),o[i],"camera offset through the serialized index"); checkEq(b.getCamRotation(s),C[i],"camera rotation through the serialized index"); vp_check_eq(b.getWeight(s),1,"weight through the serialized index"); } }
  vp_reach("end"); }
template<class A> static void multiRel(A&a,const std::vector<int>&n,const std::vector<std::shared_ptr<bearingVectors_t> >&f,const std::vector<std::shared_ptr<bearingVectors_t> >&g,const translations_t&o,const rotations_t&C){
  relative_pose::RelativeAdapterBase&b=a; vp_check((int)a.getNumberPairs()==FR,"number of cameras"); bijection(a,b,n,[&](int s){ return a.multiPairIndex(s); });
  int s=0; for(int i=0;i<FR;i++){ checkEq(a.getCamOffset(i),o[i],"camera offset"); checkEq(a.getCamRotation(i),C[i],"camera rotation"); for(int c=0;c<n[i];c++,s++){ checkEq(a.getBearingVector1(i,c),(*f[i])[c],"first bearing vector"); checkEq(a.getBearingVector2(i,c),(*g[i])[c],"second bearing vector"); vp_check_eq(a.getWeight(i,c),1,"weight");
    checkEq(b.getBearingVector1(s),(*f[i])[c],"first bearing vector through the serialized index"); checkEq(b.getBearingVector2(s),(*g[i])[c],"second bearing vector through the serialized index"); vp_check_eq(b.getWeight(s),1,"weight through the serialized index");
    checkEq(b.getCamOffset1(s),o[i],"camera offset through the serialized index"); checkEq(b.getCamOffset2(s),o[i],"camera offset through the serialized index"); checkEq(b.getCamRotation1(s),C[i],"camera rotation through the serialized index"); checkEq(b.getCamRotation2(s),C[i],"camera rotation through the serialized index"); } } }
static void multiData(std::vector<int>&n,std::vector<std::shared_ptr<bearingVectors_t> >&f,std::vector<std::shared_ptr<bearingVectors_t> >&g){ sizes(n); for(int i=0;i<FR;i++){ f.push_back(std::shared_ptr<bearingVectors_t>(new bearingVectors_t)); g.push_back(std::shared_ptr<bearingVectors_t>(new bearingVectors_t)); for(int c=0;c<n[i];c++){ f[i]->push_back(sv("f",i,c)); g[i]->push_back(sv("g",i,c)); } } }
HARNESS(multi_central_relative){ std::vector<int> n; std::vector<std::shared_ptr<bearingVectors_t> > f,g; multiData(n,f,g); relative_pose::CentralRelativeMultiAdapter a(f,g); multiRel(a,n,f,g,translations_t(FR,Z3),rotations_t(FR,I3)); vp_reach("end"); }
HARNESS(multi_noncentral_relative){ std::vector<int> n; std::vector<std::shared_ptr<bearingVectors_t> > f,g; multiData(n,f,g); translations_t o; rotations_t C; for(int i=0;i<FR;i++){ o.push_back(sv("o",i)); C.push_back(sm("C",i)); } relative_pose::NoncentralRelativeMultiAdapter a(f,g,o,C); multiRel(a,n,f,g,o,C); vp_reach("end"); }
HARNESS(multi_ma_relative){ std::vector<int> n; std::vector<std::shared_ptr<bearingVectors_t> > f,g; multiData(n,f,g); translations_t o; for(int i=0;i<FR;i++) o.push_back(sv("o",i));
  std::vector<double*> F,G; double O[3*FR]; for(int i=0;i<FR;i++){ F.push_back(new double[9]); G.push_back(new double[9]); for(int c=0;c<n[i];c++) for(int k=0;k<3;k++){ F[i][3*c+k]=(*f[i])[c][k]; G[i][3*c+k]=(*g[i])[c][k]; } for(int k=0;k<3;k++) O[3*i+k]=o[i][k]; }
  relative_pose::MANoncentralRelativeMulti a(F,G,O,n); multiRel(a,n,f,g,o,rotations_t(FR,I3)); vp_reach("end"); }
