// Robust-estimation loops (Ransac, Lmeds, MultiRansac) and random sampling, over a
// problem whose distances, model feasibility and random draws are symbolic.
#include "vp.hpp"
#include <opengv/sac/Ransac.hpp>
#include <opengv/sac/Lmeds.hpp>
#include <opengv/sac/MultiRansac.hpp>
#include <opengv/sac/SampleConsensusProblem.hpp>
#include <opengv/sac/MultiSampleConsensusProblem.hpp>
#include <climits>
#include <limits>
using namespace opengv;
static std::string nm(const char*p,int a,int b=-1){ char s[64]; if(b<0) snprintf(s,64,"%s%d",p,a); else snprintf(s,64,"%s%d_%d",p,a,b); return s; }
// model = number of the hypothesis that produced it
class Mock : public sac::SampleConsensusProblem<int> { public:
  int n,s; mutable int calls; mutable std::vector<std::vector<double> > dist; mutable std::vector<int> ok; mutable std::vector<std::vector<int> > drawn; int maxHyp;
  Mock(int n_,int s_,int H,const std::vector<int>&ind):n(n_),s(s_),calls(0),maxHyp(H){ setIndices(ind); }
  int getSampleSize() const { return s; }
  // loop harnesses: every draw is a new sample, and any draw may come back empty
  mutable bool realSampling=true; int draws=0; bool sawEmpty=false;
  void getSamples(int&it,std::vector<int>&smp){ if(realSampling){ sac::SampleConsensusProblem<int>::getSamples(it,smp); return; }
    if(sawEmpty) vp_fail("sampling continues after no sample could be drawn"); smp.clear(); if(vp_choice(nm("drawn",draws++).c_str(),2)) smp.push_back((*getIndices())[draws%getIndices()->size()]); else sawEmpty=true; }
  void prepare(int hyp) const { while((int)dist.size()<=hyp){ int h=dist.size(); std::vector<double> d; for(int i=0;i<n;i++) d.push_back(vp_real(nm("d",h,i).c_str(),0,10)); dist.push_back(d); } }
  bool computeModelCoefficients(const std::vector<int>&sel,int&out) const { int h=calls++; drawn.push_back(sel); if(h>=maxHyp) { vp_stop(); } int good=vp_choice(nm("ok",h).c_str(),2); ok.push_back(good); prepare(h); if(!good) return false; out=h; return true; }
  void optimizeModelCoefficients(const std::vector<int>&,const int&m,int&o){ o=m; }
  void getSelectedDistancesToModel(const int&m,const std::vector<int>&ind,std::vector<double>&d) const { for(size_t i=0;i<ind.size();i++) d.push_back(dist[m][ind[i]]); }
};
static const int MAXIT=2;
static void ransacBody(bool lmeds,int n,const std::vector<int>&ind,int maxit,bool reuse){
  std::shared_ptr<Mock> p(new Mock(n,1,lmeds?6:6,ind)); double thr=vp_real("threshold",0.125,9);
  sac::SampleConsensus<Mock>*sc; sac::Ransac<Mock> ra(maxit,1.0,0.99); sac::Lmeds<Mock> lm(maxit,1.0,0.99); sc=lmeds?(sac::SampleConsensus<Mock>*)&lm:(sac::SampleConsensus<Mock>*)&ra;
  sc->sac_model_=p; sc->threshold_=thr; sc->max_iterations_=maxit;
  p->realSampling=false; if(reuse){ sc->model_.push_back(0); sc->model_coefficients_=77; sc->inliers_.push_back(0); }
  bool res=sc->computeModel();
  int m=ind.size(); int best=-1; int bestCount=-1; double bestPen=0; int evals=0; double k=1.0; bool stopRule=true;
  for(size_t h=0;h<p->ok.size();h++){ if(!p->ok[h]) continue;
    if(!lmeds){ if(!(evals<k)) stopRule=false; int c=0; for(int i=0;i<m;i++) if(p->dist[h][ind[i]]<thr) c++;
      if(c>bestCount){ bestCount=c; best=h; double w=(double)c/m; double q=1.0-w; if(q<std::numeric_limits<double>::epsilon()) q=std::numeric_limits<double>::epsilon(); if(q>1.0-std::numeric_limits<double>::epsilon()) q=1.0-std::numeric_limits<double>::epsilon(); k=std::log(1.0-0.99)/std::log(q); } }
    else { std::vector<double> e; for(int i=0;i<m;i++) e.push_back(p->dist[h][ind[i]]*p->dist[h][ind[i]]);
      for(int i=1;i<m;i++) for(int j=i;j>0&&e[j]<e[j-1];j--) std::swap(e[j],e[j-1]);
      double pen=(m%2)?e[m/2]:(e[m/2-1]+e[m/2])/2; if(best<0||pen<bestPen){ best=h; bestPen=pen; } }
    evals++; }
  vp_check(evals<=maxit,"no more hypotheses than the iteration limit are evaluated");
  vp_check(p->ok.size()<=(size_t)(11*maxit),"failing hypotheses cannot loop forever");
  vp_check(res==(best>=0),"reports success exactly when some sample gave a model");
  if(!lmeds&&best>=0){ vp_check(stopRule,"no hypothesis is drawn once the confidence is reached"); bool skipOut=false; int sk=0; for(size_t h=0;h<p->ok.size();h++) sk+=!p->ok[h]; skipOut=sk>=10*maxit;
    vp_check(p->sawEmpty||evals>=maxit||!(evals<k)||skipOut,"does not stop before the confidence or the iteration limit is reached"); }
  if(lmeds&&best>=0) vp_check(evals==maxit||p->sawEmpty,"all permitted hypotheses are evaluated");
  if(best>=0&&res){
    vp_check(sc->model_coefficients_==best,"returned model is the best one evaluated");
    vp_check(sc->model_==p->drawn[best],"returned sample is the one of the returned model");
    std::vector<int> in; for(int i=0;i<m;i++) if(lmeds?p->dist[best][ind[i]]<=thr:p->dist[best][ind[i]]<thr) in.push_back(ind[i]);
    vp_check(sc->inliers_==in,"inliers are exactly the indices within the threshold of the returned model");
  } else if(!res&&!lmeds) vp_check(sc->inliers_.empty(),"no inliers are reported on failure");
  vp_reach("end"); }
static std::vector<int> iota(int n){ std::vector<int> v; for(int i=0;i<n;i++) v.push_back(i); return v; }
static std::vector<int> subset(int a,int b,int c){ std::vector<int> v; v.push_back(a); v.push_back(b); if(c>=0) v.push_back(c); return v; }
HARNESS(sac_ransac_full){ ransacBody(false,3,iota(3),2,false); }
HARNESS(sac_ransac_subset){ ransacBody(false,4,subset(3,1,-1),3,false); }
HARNESS(sac_ransac_reuse){ ransacBody(false,2,iota(2),1,true); }
HARNESS(sac_lmeds_odd){ ransacBody(true,3,iota(3),2,false); }
HARNESS(sac_lmeds_even){ ransacBody(true,4,subset(3,0,-1),2,false); }
HARNESS(sac_lmeds_reuse){ ransacBody(true,2,iota(2),1,true); }
// ---- no sample can be drawn
HARNESS(sac_too_few){ int which=vp_choice("which",2); std::shared_ptr<Mock> p(new Mock(2,3,4,iota(2))); bool res;
  if(which==0){ sac::Ransac<Mock> r(5,0.5,0.99); r.sac_model_=p; res=r.computeModel(); vp_check(r.model_.empty(),"no model when too few indices"); }
  else { sac::Lmeds<Mock> r(5,0.5,0.99); r.sac_model_=p; res=r.computeModel(); }
  vp_check(!res,"fails when fewer indices than the sample size"); vp_check(p->calls==0,"no model is computed from a short sample"); vp_reach("end"); }
// ---- sampling
class Mock2 : public Mock { public: int bad,checks; Mock2(int n,int s,const std::vector<int>&ind):Mock(n,s,9,ind),bad(0),checks(0){}
  mutable int asked=0; bool isSampleGood(const std::vector<int>&) const { int k=asked++; return k>=bad; } };
static void sampleBody(int s,const std::vector<int>&ind,int rounds){
  Mock p(16,s,4,ind); 
  for(int r=0;r<rounds;r++){ std::vector<int> smp; int it=0; p.getSamples(it,smp);
    vp_check((int)smp.size()==s,"sample has the size the problem asks for");
    for(size_t i=0;i<smp.size();i++){ bool in=false; for(size_t k=0;k<ind.size();k++) if(ind[k]==smp[i]) in=true; vp_check(in,"sampled index belongs to the problem's index set"); for(size_t j=0;j<i;j++) vp_check(smp[i]!=smp[j],"sampled indices are pairwise distinct"); }
    vp_check(*p.getIndices()==ind,"sampling leaves the index set unchanged"); }
  vp_reach("end"); }
HARNESS(sac_sample_subset){ std::vector<int> v=subset(9,2,5); v.push_back(7); sampleBody(3,v,1); }
HARNESS(sac_sample_all){ sampleBody(3,iota(3),1); }
HARNESS(sac_sample_twice){ sampleBody(2,iota(3),2); }
HARNESS(sac_sample_uniform_indices){ Mock p(16,2,4,subset(9,2,5)); int n=2+vp_choice("n",3); p.setUniformIndices(n); vp_check(*p.getIndices()==iota(n),"uniform indices are 0..N-1");
  std::vector<int> smp; int it=0; p.getSamples(it,smp); vp_check(smp.size()==2&&smp[0]!=smp[1]&&smp[0]>=0&&smp[0]<n&&smp[1]>=0&&smp[1]<n,"samples come from the newly set index set"); vp_reach("end"); }
HARNESS(sac_sample_good){ Mock2 p(1,1,iota(1)); p.bad=vp_choice("bad",4)*4; // 0,4,8,12 rejected draws
  std::vector<int> smp; int it=0; p.getSamples(it,smp); if(p.bad<10) vp_check(smp.size()==1&&smp[0]==0,"a good sample is returned when one is found within the allowed attempts"); else vp_check(smp.empty(),"no sample is returned when every attempt is rejected"); vp_check(p.asked<=10,"attempts are bounded"); vp_reach("end"); }
// every ordered sample is producible
HARNESS(sac_sample_reachable){ std::vector<int> ind=subset(4,6,1); Mock p(8,2,4,ind); 
  static const char*lab[9]={0,"can draw (4,6)","can draw (4,1)","can draw (6,4)",0,"can draw (6,1)","can draw (1,4)","can draw (1,6)",0};
  for(int i=0;i<9;i++) if(lab[i]) vp_expect(lab[i]);
  std::vector<int> smp; int it=0; p.getSamples(it,smp); vp_check(smp.size()==2,"size"); if(smp.size()==2){ int a=-1,b=-1; for(int k=0;k<3;k++){ if(ind[k]==smp[0]) a=k; if(ind[k]==smp[1]) b=k; } if(a>=0&&b>=0&&lab[a*3+b]) vp_reach(lab[a*3+b]); }
  vp_reach("end"); }
// ---- counting and selecting agree with the distances
HARNESS(sac_within){ std::vector<int> ind=subset(2,0,3); Mock p(4,1,3,ind); p.prepare(0); double thr=vp_real("threshold",0,10);
  std::vector<int> in; in.push_back(55); p.selectWithinDistance(0,thr,in); int c=p.countWithinDistance(0,thr);
  std::vector<int> ex; for(int i=0;i<3;i++) if(p.dist[0][ind[i]]<thr) ex.push_back(ind[i]);
  vp_check(in==ex,"selection returns exactly the indices closer than the threshold"); vp_check(c==(int)ex.size(),"count equals the size of the selection");
  std::vector<double> d; p.getDistancesToModel(0,d); vp_check(d.size()==3,"one distance per index"); for(size_t i=0;i<d.size()&&i<3;i++) vp_check_eq(d[i],p.dist[0][ind[i]],"distances follow the order of the indices");
  vp_reach("end"); }
// ================= multi-camera variants
class MMock : public sac::MultiSampleConsensusProblem<int> { public:
  std::vector<int> sizes; mutable int calls; mutable std::vector<std::vector<std::vector<double> > > dist; mutable std::vector<int> ok; mutable std::vector<std::vector<std::vector<int> > > drawn; int maxHyp; std::vector<int> total;
  MMock(const std::vector<int>&tot,const std::vector<int>&sz,int H,const std::vector<std::vector<int> >&ind):sizes(sz),calls(0),maxHyp(H),total(tot){ setIndices(ind); }
  std::vector<int> getSampleSizes() const { return sizes; }
  bool realSampling=true; int draws=0; bool sawEmpty=false;
  void getSamples(int&it,std::vector<std::vector<int> >&smp){ if(realSampling){ sac::MultiSampleConsensusProblem<int>::getSamples(it,smp); return; }
    if(sawEmpty) vp_fail("sampling continues after no sample could be drawn"); smp.clear(); if(alwaysOk?(draws++,1):vp_choice(nm("drawn",draws++).c_str(),2)) for(size_t c=0;c<sizes.size();c++){ const std::vector<int>&I=(*getIndices())[c]; std::vector<int> q; for(int i=0;i<sizes[c];i++) q.push_back(I[(i+draws-1)%I.size()]); smp.push_back(q); } else sawEmpty=true; }
  bool alwaysOk=false;
  void prepare(int hyp) const { while((int)dist.size()<=hyp){ int h=dist.size(); std::vector<std::vector<double> > d; for(size_t c=0;c<total.size();c++){ std::vector<double> e; for(int i=0;i<total[c];i++) e.push_back(vp_real((nm("d",h,c)+"_"+nm("p",i)).c_str(),0,10)); d.push_back(e);} dist.push_back(d); } }
  bool computeModelCoefficients(const std::vector<std::vector<int> >&sel,int&out) const { int h=calls++; drawn.push_back(sel); if(h>=maxHyp) vp_stop(); int good=alwaysOk?1:vp_choice(nm("ok",h).c_str(),2); ok.push_back(good); prepare(h); if(!good) return false; out=h; return true; }
  void optimizeModelCoefficients(const std::vector<std::vector<int> >&,const int&m,int&o){ o=m; }
  void getSelectedDistancesToModel(const int&m,const std::vector<std::vector<int> >&ind,std::vector<std::vector<double> >&d) const { for(size_t c=0;c<ind.size();c++) for(size_t i=0;i<ind[c].size();i++) d[c].push_back(dist[m][c][ind[c][i]]); }
};
static void multiRansacBody(const std::vector<int>&tot,const std::vector<int>&sz,const std::vector<std::vector<int> >&ind,int maxit,bool reuse,bool allOk=false){
  std::shared_ptr<MMock> p(new MMock(tot,sz,6,ind)); p->alwaysOk=allOk; double thr=vp_real("threshold",0.125,9); sac::MultiRansac<MMock> ra(maxit,1.0,0.99); ra.sac_model_=p; ra.threshold_=thr;
  p->realSampling=reuse; if(reuse){ ra.model_=ind; ra.model_coefficients_=77; ra.inliers_=ind; }
  bool res=ra.computeModel(); int m=0,ss=0; for(size_t c=0;c<ind.size();c++){ m+=ind[c].size(); ss+=sz[c]; }
  int best=-1,bestCount=-1,evals=0; double k=1.0; bool stopRule=true;
  for(size_t h=0;h<p->ok.size();h++){ if(!p->ok[h]) continue; if(!(evals<k)) stopRule=false; int c=0; for(size_t a=0;a<ind.size();a++) for(size_t i=0;i<ind[a].size();i++) if(p->dist[h][a][ind[a][i]]<thr) c++;
    if(c>bestCount){ bestCount=c; best=h; double w=(double)c/m; double q=1.0; for(int i=0;i<ss;i++) q*=w; q=1.0-q; if(q<std::numeric_limits<double>::epsilon()) q=std::numeric_limits<double>::epsilon(); if(q>1.0-std::numeric_limits<double>::epsilon()) q=1.0-std::numeric_limits<double>::epsilon(); k=std::log(1.0-0.99)/std::log(q); } evals++; }
  vp_check(evals<=maxit,"no more hypotheses than the iteration limit are evaluated");
  vp_check(res==(best>=0),"reports success exactly when some sample gave a model");
  if(best>=0){ vp_check(stopRule,"no hypothesis is drawn once the confidence is reached"); int sk=0; for(size_t h=0;h<p->ok.size();h++) sk+=!p->ok[h]; vp_check(p->sawEmpty||evals>=maxit||!(evals<k)||sk>=10*maxit,"does not stop before the confidence or the iteration limit is reached"); }
  if(best>=0&&res){ vp_check(ra.model_coefficients_==best,"returned model is the best one evaluated"); vp_check(ra.model_==p->drawn[best],"returned sample is the one of the returned model");
    std::vector<std::vector<int> > in(ind.size()); for(size_t a=0;a<ind.size();a++) for(size_t i=0;i<ind[a].size();i++) if(p->dist[best][a][ind[a][i]]<thr) in[a].push_back(ind[a][i]);
    vp_check(ra.inliers_==in,"inliers are exactly the indices within the threshold of the returned model"); }
  else if(!res) vp_check(ra.inliers_.empty(),"no inliers are reported on failure");
  vp_reach("end"); }
static std::vector<std::vector<int> > vv(const std::vector<int>&a,const std::vector<int>&b){ std::vector<std::vector<int> > r; r.push_back(a); r.push_back(b); return r; }
static std::vector<int> two(int a,int b){ std::vector<int> v; v.push_back(a); v.push_back(b); return v; }
static std::vector<int> one(int a){ return std::vector<int>(1,a); }
HARNESS(sac_multi_ransac){ multiRansacBody(two(2,1),two(1,1),vv(two(1,0),one(0)),2,false); }
HARNESS(sac_multi_ransac_subset){ multiRansacBody(two(3,3),two(1,1),vv(one(2),one(1)),3,false); }
HARNESS(sac_multi_ransac_three){ multiRansacBody(two(2,2),two(1,1),vv(iota(2),iota(2)),3,false,true); }
HARNESS(sac_multi_ransac_three_unequal){ multiRansacBody(two(3,1),two(1,1),vv(iota(3),iota(1)),3,false,true); }
HARNESS(sac_multi_ransac_reuse){ multiRansacBody(two(1,1),two(1,1),vv(one(0),one(0)),1,true); }
HARNESS(sac_multi_sample){ std::vector<std::vector<int> > ind=vv(subset(4,0,2),two(7,3)); MMock p(two(9,9),two(2,1),3,ind); 
  std::vector<std::vector<int> > s; int it=0; p.getSamples(it,s); vp_check(s.size()==2&&s[0].size()==2&&s[1].size()==1,"sample sizes per camera are respected");
  for(size_t c=0;c<s.size();c++) for(size_t i=0;i<s[c].size();i++){ bool in=false; for(size_t k=0;k<ind[c].size();k++) if(ind[c][k]==s[c][i]) in=true; vp_check(in,"sampled index belongs to the camera's index set"); for(size_t j=0;j<i;j++) vp_check(s[c][i]!=s[c][j],"sampled indices of a camera are pairwise distinct"); }
  vp_check(*p.getIndices()==ind,"sampling leaves the index sets unchanged"); vp_reach("end"); }
HARNESS(sac_multi_too_few){ MMock*q=new MMock(two(9,9),two(1,3),3,vv(subset(4,0,2),two(7,3))); std::shared_ptr<MMock> p(q); sac::MultiRansac<MMock> ra(5,0.5,0.99); ra.sac_model_=p; bool res=ra.computeModel(); vp_check(!res&&ra.model_.empty(),"fails when a camera has fewer indices than required"); vp_check(p->calls==0,"no model is computed from a short sample"); vp_reach("end"); }
HARNESS(sac_multi_within){ std::vector<std::vector<int> > ind=vv(two(2,0),one(1)); MMock p(two(3,2),two(1,1),3,ind); p.prepare(0); double thr=vp_real("threshold",0,10);
  std::vector<std::vector<int> > in; in.push_back(one(55)); p.selectWithinDistance(0,thr,in); int c=p.countWithinDistance(0,thr); std::vector<std::vector<int> > ex(2); int n=0; for(int a=0;a<2;a++) for(size_t i=0;i<ind[a].size();i++) if(p.dist[0][a][ind[a][i]]<thr){ ex[a].push_back(ind[a][i]); n++; }
  vp_check(in==ex,"selection returns exactly the indices closer than the threshold"); vp_check(c==n,"count equals the size of the selection"); vp_reach("end"); }
HARNESS(sac_multi_uniform){ MMock p(two(9,9),two(2,1),3,vv(subset(4,0,2),two(7,3))); std::vector<int> N=two(3,2); p.setUniformIndices(N); std::vector<std::vector<int> > ex=vv(iota(3),iota(2)); vp_check(*p.getIndices()==ex,"uniform indices are 0..N-1 per camera"); std::vector<std::vector<int> > s; int it=0; p.getSamples(it,s);
  vp_check(s.size()==2&&s[0].size()==2&&s[0][0]<3&&s[0][1]<3&&s[0][0]!=s[0][1]&&s[1][0]<2,"samples come from the newly set index set"); vp_reach("end"); }
