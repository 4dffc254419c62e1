// Noise-free symbolic scenes and the contract answers for Eigen's decompositions.
#pragma once
#include "vp.hpp"
namespace vp {
typedef Eigen::MatrixXd MX; typedef Eigen::VectorXd VX; typedef std::vector<V3,Eigen::aligned_allocator<V3> > V3s;
inline double real(const char*p,int i,double lo,double hi){ char b[48]; snprintf(b,48,"%s%d",p,i); return vp_real(b,lo,hi); }
inline M3 symRot(const char*n,double lim=3){ double a=real(n,0,-lim,lim),b=real(n,1,-lim,lim),c=real(n,2,-lim,lim); M3 R=cayleyRot(a,b,c); simp(R); return R; }
inline V3 symUnit(const char*n,int i,double lim=2){ char b[48]; snprintf(b,48,"%s%d_",n,i); double x=real(b,0,-lim,lim),y=real(b,1,-lim,lim); V3 v=unit(x,y); simp(v); return v; }
inline V3 symVec(const char*n,int i,double lim=8){ char b[48]; snprintf(b,48,"%s%d_",n,i); return vec(b,-lim,lim); }
// fixed rational unit vectors and rotations (exact in the symbolic build)
inline V3 q3(int a,int b,int c,int n){ V3 v; v<<(double)a/n,(double)b/n,(double)c/n; return v; }
inline V3 fixUnit(int k){ static const int t[12][4]={{1,2,2,3},{-2,3,6,7},{2,-1,2,3},{4,-4,7,9},{-3,-2,6,7},{-1,4,8,9},{6,2,9,11},{-6,-6,7,11},{2,10,11,15},{3,-4,12,13},{-12,3,4,13},{2,-5,14,15}}; return q3(t[k%12][0],t[k%12][1],t[k%12][2],t[k%12][3]); }
inline M3 fixRot(int k){ static const int t[4][4]={{2,1,0,1},{5,1,-2,1},{4,-1,1,2},{3,1,1,-1}}; return quatRot(t[k%4][0],t[k%4][1],t[k%4][2],t[k%4][3]); }
// ---- contract: SVD whose trailing right singular vectors span a null space known from the scene
struct Kernel { MX N; };                      // columns: null vectors (need not be orthonormal; see normalise)
inline std::vector<MX> kernels;               // candidates, one per expected dimension
inline bool normaliseKernel=true; inline int svdCalls=0;
inline bool kernelSvd(const MX&A,MX&U,VX&S,MX&V,unsigned){
  svdCalls++;
  for(size_t k=0;k<kernels.size();k++){ const MX&N=kernels[k]; if(N.rows()!=A.cols()) continue;
    MX Z=A*N; bool ok=true; for(int i=0;i<Z.rows()&&ok;i++) for(int j=0;j<Z.cols()&&ok;j++) ok=vp_entails_eq(Z(i,j),0); if(!ok) continue;
    int n=A.cols(),m=A.rows(),r=N.cols(); V.resize(n,n); U.resize(m,m); S.resize(m<n?m:n);
    for(int i=0;i<n;i++) for(int j=0;j<n-r;j++) V(i,j)=vp_fresh("sv_v",0.25+0.125*i-0.0625*j);
    for(int i=0;i<m;i++) for(int j=0;j<m;j++) U(i,j)=vp_fresh("sv_u",0.25+0.125*i-0.0625*j);
    for(int i=0;i<S.size();i++) S[i]=i<n-r?vp_fresh("sv_s",10-i):0;
    for(int j=0;j<r;j++){ double s=1; if(normaliseKernel){ s=0; for(int i=0;i<n;i++) s+=N(i,j)*N(i,j); s=sqrt(s); } for(int i=0;i<n;i++) V(i,n-r+j)=N(i,j)/s; }
    return true; }
  vp_fail("the linear system built from the correspondences has the scene in its null space"); vp_stop(); return false; }
// ---- contract: full decomposition known from the scene, A = U diag(S) V^T
inline MX gA,gUu,gVv; inline VX gSs;
inline bool fullSvd(const MX&A,MX&U,VX&S,MX&V,unsigned){
  svdCalls++; if(A.rows()!=gA.rows()||A.cols()!=gA.cols()||!entailsEq(A,gA)){ vp_fail("the decomposed matrix is the one the scene determines"); vp_stop(); }
  U=gUu; S=gSs; V=gVv; return true; }
inline void useSvd(int full){
#ifndef VP_NATIVE
  vphook::svd=full?fullSvd:kernelSvd;
#endif
}
// a solution is in the list: decided as "the truth equals one of them" on every path
template<class L> inline int countSame(const L&l,const MX&T){ int c=0; for(size_t i=0;i<l.size();i++){ bool s=true; for(int r=0;r<T.rows()&&s;r++) for(int k=0;k<T.cols()&&s;k++){ if(!vp_finite(l[i](r,k))||!vp_entails_eq(l[i](r,k),T(r,k))) s=false; } c+=s; } return c; }
}
