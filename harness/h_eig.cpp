// Eigenvalue minimisation of the epipolar constraints: eigensolver (central) and ge (rigs).
// native wrap: opengv::relative_pose::modules::eigensolver_main(
// native wrap: opengv::relative_pose::modules::ge_main2(
// native wrap: opengv::relative_pose::modules::ge::getCost(
// native wrap: opengv::relative_pose::modules::ge::getQuickJacobian(
// native wrap: opengv::relative_pose::modules::ge::composeG(
#include "scene.hpp"
#include <algorithm>
#include <climits>
#include <limits>
#include <opengv/relative_pose/methods.hpp>
#include <opengv/relative_pose/CentralRelativeAdapter.hpp>
#include <opengv/relative_pose/NoncentralRelativeAdapter.hpp>
#include <opengv/relative_pose/modules/main.hpp>
#include <opengv/relative_pose/modules/eigensolver/modules.hpp>
#include <opengv/relative_pose/modules/ge/modules.hpp>
#include <opengv/math/arun.hpp>
#include <opengv/math/cayley.hpp>
using namespace opengv; using namespace vp;
namespace ES=opengv::relative_pose::modules::eigensolver; namespace GE=opengv::relative_pose::modules::ge;
typedef Eigen::Matrix<double,3,9> M39; typedef Eigen::Matrix<double,9,9> M99; typedef Eigen::Matrix4d M4; typedef Eigen::Vector4d V4; typedef Eigen::Matrix<double,1,3> R3;
#define SUMS6 xxF,yyF,zzF,xyF,yzF,zxF
#define SUMSG SUMS6,x1P,y1P,z1P,x2P,y2P,z2P,m11P,m12P,m22P
#define DECL6 const M3&xxF,const M3&yyF,const M3&zzF,const M3&xyF,const M3&yzF,const M3&zxF
#define DECLG DECL6,const M39&x1P,const M39&y1P,const M39&z1P,const M39&x2P,const M39&y2P,const M39&z2P,const M99&m11P,const M99&m12P,const M99&m22P
// rotation of Rodrigues parameters times 1+|c|^2 (quadratic in c) and its derivatives
static M3 rotRed(const V3&c){ double x=c[0],y=c[1],z=c[2]; M3 R; R<<1+x*x-y*y-z*z,2*(x*y-z),2*(x*z+y),2*(x*y+z),1-x*x+y*y-z*z,2*(y*z-x),2*(x*z-y),2*(y*z+x),1-x*x-y*y+z*z; return R; }
static M3 rotD(const V3&c,int k){ double x=2*c[0],y=2*c[1],z=2*c[2]; M3 R; if(k==0) R<<x,y,z,y,-x,-2,z,2,-x; if(k==1) R<<-y,x,2,x,y,z,-2,z,-y; if(k==2) R<<-z,-2,x,2,-z,y,x,y,z; return R; }
static double eps3(int i,int j,int k){ return (i-j)*(j-k)*(k-i)/2; }
// sum over a,b,c,d of eps_iab eps_jcd T_ac . (R_b, Q_d)
struct Tensor { M3 T[3][3]; };
static Tensor tens(DECL6){ Tensor t; t.T[0][0]=xxF; t.T[1][1]=yyF; t.T[2][2]=zzF; t.T[0][1]=t.T[1][0]=xyF; t.T[1][2]=t.T[2][1]=yzF; t.T[0][2]=t.T[2][0]=zxF; return t; }
static double mEntry(const Tensor&t,const M3&R,const M3&Q,int i,int j){ double s=0; for(int a=0;a<3;a++) for(int b=0;b<3;b++) for(int c=0;c<3;c++) for(int d=0;d<3;d++){ double e=eps3(i,a,b)*eps3(j,c,d); if(e==0) continue; double q=0; for(int k=0;k<3;k++) for(int l=0;l<3;l++) q+=R(b,k)*t.T[a][c](k,l)*Q(d,l); s+=e*q; } return s; }
static M3 symMat(const char*n,int k){ M3 m; for(int i=0;i<3;i++) for(int j=0;j<=i;j++) m(i,j)=m(j,i)=real(n,k*10+i*3+j,-2,2); return m; }
// ---- the matrix whose smallest eigenvalue is minimised, and its derivatives, for arbitrary sums
HARNESS(eig_compose){ M3 s[6]; for(int i=0;i<6;i++) s[i]=symMat("s",i); V3 c=vec("c",-2,2); M3 J[3],M,N; for(int k=0;k<3;k++) J[k].setZero();
  M=ES::composeM(s[0],s[1],s[2],s[3],s[4],s[5],c); N=ES::composeMwithJacobians(s[0],s[1],s[2],s[3],s[4],s[5],c,J[0],J[1],J[2]); Tensor t=tens(s[0],s[1],s[2],s[3],s[4],s[5]); M3 R=rotRed(c);
  for(int i=0;i<3;i++) for(int j=0;j<3;j++){ double e=mEntry(t,R,R,i,j); vp_check_eq(M(i,j),e,"the matrix sums the outer products of the epipolar plane normals"); vp_check_eq(N(i,j),e,"the matrix that comes with its derivatives is the same");
    for(int k=0;k<3;k++){ M3 D=rotD(c,k); vp_check_eq(J[k](i,j),mEntry(t,D,R,i,j)+mEntry(t,R,D,i,j),"derivative of the matrix by the rotation"); } }
  vp_reach("end"); }
static double gEntry(const Tensor&t,const M39*P1,const M39*P2,const M99&m11,const M99&m12,const M99&m22,const M3&R,const M3&Q,int i,int j){ // R: left factor, Q: right factor
  if(i<3&&j<3) return mEntry(t,R,Q,i,j); Eigen::Matrix<double,9,1> cr,cq,rr,rq; for(int k=0;k<3;k++) for(int l=0;l<3;l++){ cr[3*k+l]=R(l,k); cq[3*k+l]=Q(l,k); rr[3*k+l]=R(k,l); rq[3*k+l]=Q(k,l); }
  if(i<3||j<3){ int n=i<3?i:j; bool left=i<3; const M3&A=left?R:Q; double s=0; for(int a=0;a<3;a++) for(int b=0;b<3;b++){ double e=eps3(n,a,b); if(e==0) continue; for(int k=0;k<3;k++) for(int m=0;m<9;m++) s+=e*A(b,k)*(P1[a](k,m)*(left?cq:cr)[m]+P2[a](k,m)*(left?rq:rr)[m]); } return s; }
  double s=0; for(int a=0;a<9;a++) for(int b=0;b<9;b++) s-=m11(a,b)*cr[a]*cq[b]+m22(a,b)*rr[a]*rq[b]+m12(a,b)*(rr[a]*cq[b]+rq[a]*cr[b]); return s; }
static M39 sym39(const char*n){ M39 m; for(int i=0;i<3;i++) for(int j=0;j<9;j++) m(i,j)=real(n,i*10+j,-2,2); return m; }
static M99 sym99(const char*n,bool s){ M99 m; for(int i=0;i<9;i++) for(int j=0;j<9;j++) m(i,j)=s&&j>i?0:real(n,i*10+j,-2,2); if(s) for(int i=0;i<9;i++) for(int j=i+1;j<9;j++) m(i,j)=m(j,i); return m; }
HARNESS(ge_compose){ M3 s[6]; for(int i=0;i<6;i++) s[i]=symMat("s",i); M39 P1[3]={sym39("xa"),sym39("ya"),sym39("za")},P2[3]={sym39("xb"),sym39("yb"),sym39("zb")}; M99 m11=sym99("ma",true),m12=sym99("mb",false),m22=sym99("mc",true); V3 c=vec("c",-2,2);
#define GARGS s[0],s[1],s[2],s[3],s[4],s[5],P1[0],P1[1],P1[2],P2[0],P2[1],P2[2],m11,m12,m22,c
  M4 J[3],G,N; for(int k=0;k<3;k++) J[k].setZero(); G=GE::composeG(GARGS); N=GE::composeGwithJacobians(GARGS,J[0],J[1],J[2]); Tensor t=tens(s[0],s[1],s[2],s[3],s[4],s[5]); M3 R=rotRed(c);
  for(int i=0;i<4;i++) for(int j=0;j<4;j++){ double e=gEntry(t,P1,P2,m11,m12,m22,R,R,i,j); vp_check_eq(G(i,j),e,"the matrix sums the outer products of the generalised epipolar constraints"); vp_check_eq(N(i,j),e,"the matrix that comes with its derivatives is the same");
    for(int k=0;k<3;k++){ M3 D=rotD(c,k); vp_check_eq(J[k](i,j),gEntry(t,P1,P2,m11,m12,m22,D,R,i,j)+gEntry(t,P1,P2,m11,m12,m22,R,D,i,j),"derivative of the matrix by the rotation"); } }
  vp_reach("end"); }
// ---- closed-form eigenvalues and the derivative of the smallest one, for arbitrary eigenvalues
static M3 evM; static M3 evJ[3];
#ifndef VP_NATIVE
static M3 composeHook(DECL6,const V3&c){ return evM; }
static M3 composeJacHook(DECL6,const V3&c,M3&a,M3&b,M3&d){ a=evJ[0]; b=evJ[1]; d=evJ[2]; return evM; }
#endif
static void ev3(bool jac,int frame,bool shift){
  double k=vp_real("k",0.0625,4),g=1,l=0.25; if(shift){ g=vp_real("g",0.5,4); l=vp_real("l",0,4); } double x=g*((2+k)*(2+k)-1),y=g*(3+2*k),w=g*((2+k)*(2+k)-(2+k)+1),h=(x+y)/(2*w); x=vp_simplify(x); y=vp_simplify(y); h=vp_simplify(h); double L[3]={l+x,l+y,l};
  M3 Q=frame<4?fixRot(frame):M3::Identity(); M3 D=M3::Zero(); for(int i=0;i<3;i++) D(i,i)=L[i]; evM=Q*D*Q.transpose(); simp(evM); for(int j=0;j<3;j++) evJ[j]=symMat(j==0?"ja":j==1?"jb":"jc",0);
  vp_hint(h); vp_hint(w); vp_hint(2*w*w*w);
#ifndef VP_NATIVE
  vp_replace("opengv::relative_pose::modules::eigensolver::composeM(",(void*)composeHook); vp_replace("opengv::relative_pose::modules::eigensolver::composeMwithJacobians(",(void*)composeJacHook);
  M3 z=M3::Zero(); V3 c; c<<0.5,0.25,-0.125; M3 M; R3 J; double e=jac?ES::getSmallestEVwithJacobian(z,z,z,z,z,z,c,J):ES::getSmallestEV(z,z,z,z,z,z,c,M);
  vp_check_eq(e,L[2],"smallest eigenvalue"); V3 q=Q.col(2); if(jac) for(int j=0;j<3;j++) vp_check_eq(J(0,j),q.dot(evJ[j]*q),"derivative of the smallest eigenvalue by the rotation"); else checkEq(M,evM,"the matrix is handed out");
#else
  // native: the same two functions on sums of outer products, against Eigen and the bilinear derivative
  M3 s[6]; for(int i=0;i<6;i++) s[i].setZero(); for(int i=0;i<8;i++){ V3 a=fixUnit(i),b=fixRot(i%4)*fixUnit(i+3+int(4*k)); M3 F=b*b.transpose(); s[0]+=a[0]*a[0]*F; s[1]+=a[1]*a[1]*F; s[2]+=a[2]*a[2]*F; s[3]+=a[0]*a[1]*F; s[4]+=a[1]*a[2]*F; s[5]+=a[2]*a[0]*F; }
  V3 c; c<<0.1*k,0.25*l,-0.125*g; Tensor t=tens(s[0],s[1],s[2],s[3],s[4],s[5]); M3 R=rotRed(c),M,N; for(int i=0;i<3;i++) for(int j=0;j<3;j++) M(i,j)=mEntry(t,R,R,i,j); Eigen::SelfAdjointEigenSolver<M3> E(M); R3 J; double e=jac?ES::getSmallestEVwithJacobian(s[0],s[1],s[2],s[3],s[4],s[5],c,J):ES::getSmallestEV(s[0],s[1],s[2],s[3],s[4],s[5],c,N);
  vp_check_eq(e,E.eigenvalues()[0],"smallest eigenvalue"); V3 q=E.eigenvectors().col(0); if(jac) for(int m=0;m<3;m++){ M3 D=rotD(c,m),P; for(int i=0;i<3;i++) for(int j=0;j<3;j++) P(i,j)=mEntry(t,D,R,i,j)+mEntry(t,R,D,i,j); vp_check_eq(J(0,m),q.dot(P*q),"derivative of the smallest eigenvalue by the rotation"); } else checkEq(N,M,"the matrix is handed out");
#endif
  vp_reach("end"); }
HARNESS(eig_ev){ ev3(false,vp_choice("frame",5),true); }
HARNESS(eig_evjac){ ev3(true,vp_choice("frame",5),false); }
HARNESS(eig_evjac2){ ev3(true,1,true); }
// quartic: second smallest and smallest eigenvalue
static M4 evG;
#ifndef VP_NATIVE
static M4 composeGHook(DECLG,const V3&c){ return evG; }
#endif
static void ev4(int step,int frame,bool shift){
  double b=0.5,m=vp_real("m",1.25,4),s=1,l=0.25; if(shift){ s=vp_real("s",0.5,4); l=vp_real("l",0,4); m=2; } else b=vp_real("b",0.125,0.875); double k=(m*m-1)/(2*m+1),c=k*b/(1+k-b); c=vp_simplify(c); double L[4]={l+s,l+s*b,l+s*c,l};
  double u=(1-b)*c,v=b-c; double wI=u*(m*m+m+1)/(m*m-1); wI=vp_simplify(s*s*wI); // sqrt(u^2+uv+v^2)
  double W=(L[0]+L[1]-L[2]-L[3])/2; W=vp_simplify(W); double B=-(L[0]+L[1]+L[2]+L[3]),C=0; for(int i=0;i<4;i++) for(int j=i+1;j<4;j++) C+=L[i]*L[j]; double al=-0.375*B*B+C,y=(W*W-al)/2,th=(y+5*al/6)/2,h=vp_simplify(th*6/wI);
  M4 Q; Q<<1,1,1,1, 1,-1,1,-1, 1,1,-1,-1, 1,-1,-1,1; Q/=2; if(frame==0) Q.setIdentity(); if(frame==2){ M4 P=M4::Identity(); P.block<3,3>(0,0)=fixRot(1); Q=P*Q; } M4 D=M4::Zero(); for(int i=0;i<4;i++) D(i,i)=L[i]; evG=Q*D*Q.transpose(); for(int i=0;i<4;i++) for(int j=0;j<4;j++) evG(i,j)=vp_simplify(evG(i,j));
  vp_hint(h); vp_hint(wI/6); vp_hint(wI*wI/36); vp_hint(wI*wI*wI/216); vp_hint(W); vp_hint(vp_simplify(L[2]-L[3]));
  M3 z=M3::Zero(); M39 p=M39::Zero(); M99 q=M99::Zero(); V3 cc; cc<<0.5,0.25,-0.125;
#ifndef VP_NATIVE
  vp_replace("opengv::relative_pose::modules::ge::composeG(",(void*)composeGHook);
  double e=GE::getCost(z,z,z,z,z,z,p,p,p,p,p,p,q,q,q,cc,step); vp_check_eq(e,L[step?3:2],step?"smallest eigenvalue":"second smallest eigenvalue");
#else
  M3 f[6]; for(int i=0;i<6;i++) f[i].setZero(); M39 P1[3],P2[3]; for(int i=0;i<3;i++){ P1[i].setZero(); P2[i].setZero(); } M99 m11,m12,m22; m11.setZero(); m12.setZero(); m22.setZero();
  for(int i=0;i<9;i++){ V3 a=fixUnit(i),d=fixRot(i%4)*fixUnit(i+3+int(4*m)),t1,t2; t1<<i%3,1-i%2,0.5*i; t2<<0.3*i,i%2,b; M3 F=d*d.transpose(); f[0]+=a[0]*a[0]*F; f[1]+=a[1]*a[1]*F; f[2]+=a[2]*a[2]*F; f[3]+=a[0]*a[1]*F; f[4]+=a[1]*a[2]*F; f[5]+=a[2]*a[0]*F;
    V3 e1=a.cross(t1),e2=d.cross(t2); Eigen::Matrix<double,1,9> x,y; for(int k=0;k<3;k++) for(int o=0;o<3;o++){ y(0,3*k+o)=d[o]*e1[k]; x(0,3*k+o)=a[o]*e2[k]; } for(int k=0;k<3;k++){ P1[k]+=a[k]*d*x; P2[k]+=a[k]*d*y; } m11-=x.transpose()*x; m22-=y.transpose()*y; m12-=y.transpose()*x; }
  M4 G=GE::composeG(f[0],f[1],f[2],f[3],f[4],f[5],P1[0],P1[1],P1[2],P2[0],P2[1],P2[2],m11,m12,m22,cc); Eigen::SelfAdjointEigenSolver<M4> E(G); double e=GE::getCost(f[0],f[1],f[2],f[3],f[4],f[5],P1[0],P1[1],P1[2],P2[0],P2[1],P2[2],m11,m12,m22,cc,step); vp_check(std::fabs(e-E.eigenvalues()[step?0:1])<1e-6*E.eigenvalues()[3],step?"smallest eigenvalue":"second smallest eigenvalue");
#endif
  vp_reach("end"); }
HARNESS(ge_ev){ ev4(1,vp_choice("frame",3),false); }
HARNESS(ge_ev_scale){ ev4(1,vp_choice("frame",3),true); }
HARNESS(ge_ev2){ ev4(0,vp_choice("frame",3),false); }
// ---- what eigensolver() hands to the minimisation, and the sign of the translation
static transformation_t pose(const M3&R,const V3&t){ transformation_t T; T.block<3,3>(0,0)=R; T.col(3)=t; return T; }
struct WeightedRelative : public relative_pose::CentralRelativeAdapter { const std::vector<double>&w; WeightedRelative(const bearingVectors_t&a,const bearingVectors_t&b,const M3&R,const std::vector<double>&w_):CentralRelativeAdapter(a,b,R),w(w_){} double getWeight(size_t i) const { return w[i]; } };
struct WeightedRig : public relative_pose::NoncentralRelativeAdapter { const std::vector<double>&w; WeightedRig(const bearingVectors_t&a,const bearingVectors_t&b,const std::vector<int>&i,const std::vector<int>&j,const translations_t&o,const rotations_t&C,const std::vector<double>&w_):NoncentralRelativeAdapter(a,b,i,j,o,C),w(w_){} double getWeight(size_t i) const { return w[i]; } };
static M3 tR,tS,tM; static V3 tT,tC; static int mains,flip; static M4 tG; static V4 tH;
// two matrices agree up to a positive factor
template<class A> static void propTo(const A&M,const A&E,const char*label){ double m=0,e=0; for(int i=0;i<M.rows();i++){ m+=M(i,i); e+=E(i,i); } vp_check(vp_num(m)>0,label); for(int i=0;i<M.rows();i++) for(int j=0;j<M.cols();j++) vp_check_eq(M(i,j)*e,E(i,j)*m,label); }
static void eigMainHook(DECL6,eigensolverOutput_t&o){ mains++; checkEq(o.rotation,tS,"the minimisation starts at the given rotation"); propTo(M3(ES::composeM(SUMS6,tC)),tM,"the minimised matrix weights each selected correspondence's epipolar plane normal");
  o.rotation=tR; o.translation=(flip?-0.75:0.75)*tT; o.eigenvalues<<3,2,0; o.eigenvectors.setIdentity(); }
// mask: 1 rotation at which the matrix is evaluated, 2 depths of the first point, 4 weights, 8 a ray, 16 translation/rotation of the scene
static void eigen(int mask,int ov,bool weights){ tR=fixRot(1); tC<<0.5,-0.25,0.75; if(mask&1) tC=vec("c",-2,2); tS=fixRot(2); if(mask&16){ double h=vp_real("h",-0.5,0.5); tR=cayleyRot(h,0.5*h,-h); simp(tR); } double d1=2,d2=1.5,wk=1; if(mask&2){ d1=vp_real("d1",0.5,9); d2=vp_real("d2",0.5,9); } if(mask&4) wk=vp_real("wk",0.1,9);
  static const int sel[5]={3,1,0,5,2}; static const int wi[6]={1,2,3,7,1,1}; bool sub=ov>=2; std::vector<int> idx; if(sub) idx.assign(sel,sel+5); else for(int i=0;i<6;i++) idx.push_back(i); V3 g=fixUnit(3),u=fixUnit(0); if(mask&2){ u=q3(6,-6,7,11); if(vp_choice("turn",2)) tR=fixRot(1).transpose(); } tT=d1*g-d2*u; simp(tT);
  bearingVectors_t a,b; std::vector<double> w; for(int i=0;i<6;i++){ V3 f1=g,f2=tR.transpose()*u; if(i!=idx[0]){ f1=(2+0.5*i)*fixUnit(i+4); if((mask&8)&&i==2) f1=symVec("r",0,4); f2=tR.transpose()*(f1-tT); } simp(f2); a.push_back(f1); b.push_back(f2); w.push_back(wi[i]*wk); }
  WeightedRelative ad(a,b,tS,w); tM.setZero(); M3 R=rotRed(tC); for(size_t i=0;i<idx.size();i++){ V3 n=a[idx[i]].cross(V3(R*b[idx[i]])); double q=weights?w[idx[i]]:1; for(int r=0;r<3;r++) for(int c=0;c<3;c++) tM(r,c)+=q*n[r]*n[c]; } mains=0; flip=vp_choice("flip",2);
  vp_replace("opengv::relative_pose::modules::eigensolver_main(",(void*)eigMainHook);
  eigensolverOutput_t o; o.rotation=tS; rotation_t r; if(ov==0) r=relative_pose::eigensolver(ad,o,weights); else if(ov==1) r=relative_pose::eigensolver(ad,weights); else if(ov==2) r=relative_pose::eigensolver(ad,idx,o,weights); else r=relative_pose::eigensolver(ad,idx,weights);
  vp_check(mains==1,"one minimisation"); checkEq(r,tR,"the returned rotation is the minimiser's"); if(ov==0||ov==2){ checkEq(o.rotation,tR,"the reported rotation is the minimiser's"); checkEq(V3(o.translation.cross(tT)),V3(V3::Zero()),"the translation keeps its direction"); vp_check_lt(0,o.translation.dot(tT),"the translation points from the first to the second viewpoint"); } vp_reach("end"); }
HARNESS(eig_sum){ int k=vp_choice("variant",8); eigen(1,k/2,k%2); }
HARNESS(eig_sum_depth){ int k=vp_choice("variant",2); eigen(2,2*k,k); }
HARNESS(eig_sum_weight){ int k=vp_choice("variant",4); eigen(4,k,true); }
HARNESS(eig_sum_ray){ int k=vp_choice("variant",4); eigen(8,k,k%2); }
HARNESS(eig_sum_pose){ int k=vp_choice("variant",4); eigen(16,k,k%2); }
// ---- eigensolver_main: start, residuals, stationary point, decomposition at the minimiser's rotation
static V3 mS,mE; static double mJ[3]; static int lms,eigs,slot3; static double mL[2]; static M3 mV;
#ifndef VP_NATIVE
static double jacHook(DECL6,const V3&c,R3&J){ checkEq(c,mE,"the residuals are taken at the candidate rotation"); for(int i=0;i<3;i++) J(0,i)=mJ[i]; return 0.5; }
#endif
static bool lmHook(vphook::LMProblem&p,vphook::VX&x){ lms++; vp_check(p.inputs()==3&&x.size()==3&&p.values()>=1,"the minimisation runs over the rotation"); if(x.size()!=3) vp_stop(); checkEq(V3(x),mS,"the minimisation starts at the given rotation"); vp_check(p.maxfev>=50&&p.ftol<=1e-3&&p.xtol<=1e-3,"the minimiser is told to run to convergence");
  vphook::VX y(3),r; for(int i=0;i<3;i++) y[i]=mE[i]; p.eval(y,r); for(int i=0;i<3&&i<r.size();i++) vp_check_eq(r[i],mJ[i],"the residuals are the derivatives of the smallest eigenvalue"); x=y; return true; }
static bool eig3(const MX&A,vphook::VXc&D,vphook::MXc&V){ int n=A.rows(); eigs++; vp_check(n==3,"size of the decomposed matrix"); if(n!=3) vp_stop(); propTo(M3(A),tM,"the decomposed matrix is the one at the minimiser's rotation"); D.resize(3); V.resize(3,3); int k=0; for(int i=0;i<3;i++){ if(i==slot3){ D[i]=0; for(int r=0;r<3;r++) V(r,i)=mV(r,2); continue; } D[i]=mL[k]; for(int r=0;r<3;r++) V(r,i)=mV(r,k); k++; } return true; }
// mask: 1 scene translation, 2 rotation, 4 start, 8 eigenvalues
static void emain(int mask){ mS<<0.25,0.125,-0.5; mE<<0.5,-0.25,0.375; tT<<0.5,-1,0.25; if(mask&1) tT=symVec("t",0,3); if(mask&2){ double h=vp_real("h",-0.5,0.5); mE<<h,0.5*h,-h; } if(mask&4) mS=vec("s",-2,2); vp_assume_ne(tT.dot(tT),0);
  tR=cayleyRot(mE[0],mE[1],mE[2]); simp(tR); M3 s[6]; for(int i=0;i<6;i++) s[i].setZero(); tM.setZero(); M3 Rr=rotRed(mE); for(int i=0;i<6;i++){ V3 a=(2+0.5*i)*fixUnit(i+4),b=tR.transpose()*(a-tT); simp(b); M3 F=b*b.transpose(); s[0]+=a[0]*a[0]*F; s[1]+=a[1]*a[1]*F; s[2]+=a[2]*a[2]*F; s[3]+=a[0]*a[1]*F; s[4]+=a[1]*a[2]*F; s[5]+=a[2]*a[0]*F; V3 n=a.cross(V3(Rr*b)); for(int r=0;r<3;r++) for(int c=0;c<3;c++) tM(r,c)+=n[r]*n[c]; }
  mL[0]=3; mL[1]=1.25; if(mask&8){ mL[0]=vp_real("la",0.5,9); mL[1]=vp_real("lb",0.25,9); vp_assume_ne(mL[0],mL[1]); } slot3=vp_choice("slot",3); for(int r=0;r<3;r++){ mV(r,0)=0.5+0.25*r; mV(r,1)=1-0.75*r; } double n=sqrt(tT.dot(tT)); for(int r=0;r<3;r++) mV(r,2)=tT[r]/n; for(int i=0;i<3;i++) mJ[i]=vp_fresh("jac",0.25*i+0.5); lms=eigs=0;
#ifndef VP_NATIVE
  vphook::lm=lmHook; vphook::eig=eig3; vp_replace("opengv::relative_pose::modules::eigensolver::getSmallestEVwithJacobian(",(void*)jacHook); V3 z=tM*tT; checkEq(z,V3(V3::Zero()),"the direction of the translation is in the null space at the true rotation");
#endif
  eigensolverOutput_t o; o.rotation=cayleyRot(vp_symbolic()?mS[0]:mE[0],vp_symbolic()?mS[1]:mE[1],vp_symbolic()?mS[2]:mE[2]); simp(o.rotation); relative_pose::modules::eigensolver_main(s[0],s[1],s[2],s[3],s[4],s[5],o);
  if(vp_symbolic()) vp_check(lms==1&&eigs==1,"one minimisation and one decomposition"); 
  if(vp_symbolic()){ checkEq(o.rotation,tR,"the rotation is the minimiser's"); checkEq(V3(V3(o.translation).cross(tT)),V3(V3::Zero()),"the translation is the eigenvector of the smallest eigenvalue"); vp_check_lt(0,o.translation.dot(o.translation),"the translation is not zero"); double hi=mL[0],lo=mL[1]; int ih=0; if(hi<lo){ hi=mL[1]; lo=mL[0]; ih=1; } vp_check_eq(o.eigenvalues[0],hi,"eigenvalues in descending order"); vp_check_eq(o.eigenvalues[1],lo,"eigenvalues in descending order"); vp_check_eq(o.eigenvalues[2],0,"eigenvalues in descending order"); checkEq(V3(o.eigenvectors.col(0)),V3(mV.col(ih)),"each eigenvector belongs to its eigenvalue"); checkEq(V3(o.eigenvectors.col(1)),V3(mV.col(1-ih)),"each eigenvector belongs to its eigenvalue"); checkEq(V3(o.eigenvectors.col(2)),V3(mV.col(2)),"each eigenvector belongs to its eigenvalue"); }
  else { double m=0; for(int i=0;i<9;i++) m=std::max(m,std::fabs(o.rotation(i/3,i%3)-tR(i/3,i%3))); vp_check(m<1e-5,"the rotation is the minimiser's"); V3 x=V3(o.translation).cross(tT)/(o.translation.norm()*tT.norm()); vp_check(x.norm()<1e-4,"the translation is the eigenvector of the smallest eigenvalue"); vp_check(o.eigenvalues[0]>=o.eigenvalues[1]&&o.eigenvalues[1]>=o.eigenvalues[2],"eigenvalues in descending order"); M3 M=ES::composeM(s[0],s[1],s[2],s[3],s[4],s[5],math::rot2cayley(o.rotation)); for(int i=0;i<3;i++){ V3 v=o.eigenvectors.col(i); vp_check((M*v-o.eigenvalues[i]*v).norm()<1e-7*M.norm(),"each eigenvector belongs to its eigenvalue"); } }
  vp_reach("end"); }
HARNESS(eig_main_t){ emain(1); }
HARNESS(eig_main_rot){ emain(2); }
HARNESS(eig_main_start){ emain(4); }
HARNESS(eig_main_order){ emain(8); }
// ---- what ge() hands to its minimisation
static V3 gStart; static int aruns;
#ifndef VP_NATIVE
static rotation_t arunHook(const MX&H){ aruns++; return cayleyRot(gStart[0],gStart[1],gStart[2]); }
#endif
static void geMainHook(DECLG,const cayley_t&start,geOutput_t&o){ mains++; if(vp_symbolic()) checkEq(V3(start),gStart,"the minimisation starts at the rotation that aligns the rays"); propTo(M4(GE::composeG(SUMSG,tC)),tG,"the minimised matrix weights each selected correspondence's generalised epipolar constraint");
  o.rotation=tR; o.translation=tH; o.eigenvalues<<3,2,1,0; o.eigenvectors.setIdentity(); }
static V3 rigOff(int k){ V3 v; v<<1-k,0.5*k*k,1.5*k-1; return v; }
struct Rig { bearingVectors_t a,b; std::vector<int> i1,i2; translations_t o; rotations_t C; std::vector<double> w; };
static V4 gRow(const Rig&s,int i,const M3&R){ V3 f=s.C[s.i1[i]]*s.a[i],g=s.C[s.i2[i]]*s.b[i],p=s.o[s.i1[i]],q=s.o[s.i2[i]]; V3 n=f.cross(V3(R*g)); V4 r; r.head<3>()=n; r[3]=f.dot(V3(R*V3(g.cross(q))))+V3(f.cross(p)).dot(V3(R*g)); return r; }
// mask: 1 rotation of evaluation, 2 offsets, 4 weights, 8 a ray
static void gsum(int mask,int ov,bool weights){ tR=fixRot(1); tC<<0.5,-0.25,0.75; if(mask&1) tC=vec("c",-2,2); gStart<<0.25,-0.5,0.125; tH<<0.5,-2,1,1; double wk=1; if(mask&4) wk=vp_real("wk",0.1,9); static const int sel[6]={6,1,0,5,2,3}; static const int wi[7]={1,2,3,1,5,3,7}; bool sub=ov>=2; std::vector<int> idx; if(sub) idx.assign(sel,sel+6); else for(int i=0;i<7;i++) idx.push_back(i);
  Rig s; for(int k=0;k<3;k++){ V3 v=rigOff(k); if((mask&2)&&k<2) v=symVec("o",k,2); s.o.push_back(v); s.C.push_back(fixRot(k+1)); } for(int i=0;i<7;i++){ V3 f=fixUnit(i),g=fixUnit(i+4); if((mask&8)&&i==2) f=symVec("f",0,2); if((mask&8)&&i==3) g=symVec("g",0,2); s.a.push_back(f); s.b.push_back(g); s.i1.push_back(i%3); s.i2.push_back((i+i/3)%3); s.w.push_back(wi[i]*wk); }
  WeightedRig ad(s.a,s.b,s.i1,s.i2,s.o,s.C,s.w); tG.setZero(); M3 R=rotRed(tC); for(size_t i=0;i<idx.size();i++){ V4 r=gRow(s,idx[i],R); tG+=(weights?s.w[idx[i]]:1.0)*r*r.transpose(); } mains=aruns=0;
  vp_replace("opengv::relative_pose::modules::ge_main2(",(void*)geMainHook);
#ifndef VP_NATIVE
  vp_replace("opengv::math::arun(",(void*)arunHook);
#endif
  geOutput_t o; rotation_t r; if(ov==0) r=relative_pose::ge(ad,o,weights); else if(ov==1) r=relative_pose::ge(ad,weights); else if(ov==2) r=relative_pose::ge(ad,idx,o,weights); else r=relative_pose::ge(ad,idx,weights);
  vp_check(mains==1,"one minimisation"); checkEq(r,tR,"the returned rotation is the minimiser's"); if(ov==0||ov==2){ checkEq(o.rotation,tR,"the reported rotation is the minimiser's"); checkEq(o.translation,tH,"the reported translation is the minimiser's"); } vp_reach("end"); }
HARNESS(ge_sum){ int k=vp_choice("variant",8); gsum(1,k/2,k%2); }
HARNESS(ge_sum_offset){ int k=vp_choice("variant",4); gsum(2,k,k%2); }
HARNESS(ge_sum_weight){ int k=vp_choice("variant",4); gsum(4,k,true); }
HARNESS(ge_sum_ray){ int k=vp_choice("variant",4); gsum(8,k,1-k%2); }
// start of ge(): the rotation that aligns the rays of far-away points
static MX sA; static bool alignSvd(const MX&A,MX&U,VX&S,MX&V,unsigned o){ if(A.rows()!=3||A.cols()!=3) return false; propTo(M3(A*tR),M3(sA),"the start aligns the selected rays of both viewpoints"); U=M3::Identity(); V=tR; S.resize(3); for(int i=0;i<3;i++) S[i]=3-i; return true; }
static void gStartHook(DECLG,const cayley_t&start,geOutput_t&o){ mains++; M3 R=cayleyRot(start[0],start[1],start[2]); checkEq(R,tR,"the start aligns the selected rays of both viewpoints"); o.rotation=tR; o.translation=tH; }
HARNESS(ge_start){ double h=vp_real("h",-0.5,0.5); tR=cayleyRot(h,0.5*h,-h); simp(tR); tH<<0,0,0,1; std::vector<int> idx; for(int i=0;i<8;i++) idx.push_back(9-i); Rig s; for(int k=0;k<3;k++){ s.o.push_back(rigOff(k)); s.C.push_back(fixRot(k+1)); } static const int sg[4][3]={{1,1,1},{1,-1,-1},{-1,1,-1},{-1,-1,1}};
  for(int i=0;i<10;i++){ V3 f=fixUnit(i); if(i>1){ V3 u=i<6?q3(6,3,2,7):q3(9,6,2,11); for(int k=0;k<3;k++) f[k]=sg[i%4][k]*u[k]; } V3 g=tR.transpose()*f; if(i<2) g=fixUnit(i+4); s.i1.push_back(i%3); s.i2.push_back((i+i/3)%3); s.a.push_back(s.C[s.i1[i]].transpose()*f); s.b.push_back(s.C[s.i2[i]].transpose()*g); s.w.push_back(1); }
  sA=M3::Zero(); for(int i=2;i<10;i++){ V3 f=s.C[s.i1[i]]*s.a[i]; sA+=f*f.transpose(); } /* H R = sum f' f^T R with f=R f' becomes sum f f^T rotated */ { M3 K=tR.transpose()*M3(sA)*tR; sA=K; simp(K); sA=K; }
  WeightedRig ad(s.a,s.b,s.i1,s.i2,s.o,s.C,s.w); mains=0; vp_replace("opengv::relative_pose::modules::ge_main2(",(void*)gStartHook); for(int i=0;i<9;i++) vp_hint(tR(i/3,i%3));
#ifndef VP_NATIVE
  vphook::svd=alignSvd;
#endif
  geOutput_t o; relative_pose::ge(ad,idx,o,false); vp_check(mains==1,"one minimisation"); vp_reach("end"); }
// ---- ge_main2: never ends at a rotation that is worse than its start; decomposition at the final rotation
struct Known { V3 p; double v; }; static std::vector<Known> known; static int fresh,budget; static double land[8]; static V3 finalC; static int finals; static bool atTruth;
static double dist(const V3&a,const V3&b){ double m=0; for(int i=0;i<3;i++) m=std::max(m,std::fabs(vp_num(a[i])-vp_num(b[i]))); return m; }
static double landscape(const V3&c){ for(size_t i=0;i<known.size();i++) if(dist(known[i].p,c)<1e-9) return known[i].v; Known k; k.p=c; k.v=atTruth?1.5:fresh<budget?land[fresh++]:1e3; known.push_back(k); return k.v; }
static double costHook(DECLG,const V3&c,int step){ return step==1?landscape(c):0.0; }
static void gradHook(DECLG,const V3&c,double cur,R3&J,int step){ vp_check_eq(cur,landscape(c),"the derivatives are taken from the current value"); vp_check(step==1,"the derivatives are those of the smallest eigenvalue"); static const double d[4][3]={{3,4,0},{0,-5,12},{-8,0,6},{4,0,-3}}; for(int i=0;i<3;i++) J(0,i)=d[finals%4][i]; finals=finals+1; }
static M4 finalHook(DECLG,const V3&c){ finalC=c; return tG; }
static int eigRuns; static double mL4[3]; static M4 mV4; static bool eig4(const MX&A,vphook::VXc&D,vphook::MXc&V){ eigRuns++; if(A.rows()!=4){ vp_fail("size of the decomposed matrix"); vp_stop(); } checkEq(M4(A),tG,"the decomposed matrix is the one at the final rotation"); D.resize(4); V.resize(4,4); int k=0; for(int i=0;i<4;i++){ if(i==slot3){ D[i]=0; for(int r=0;r<4;r++) V(r,i)=mV4(r,3); continue; } D[i]=mL4[k]; for(int r=0;r<4;r++) V(r,i)=mV4(r,k); k++; } return true; }
static Rig scene(const M3&R,const V3&t){ Rig s; for(int k=0;k<3;k++){ s.o.push_back(rigOff(k)); s.C.push_back(fixRot(k+1)); } for(int i=0;i<8;i++){ s.i1.push_back(i%3); s.i2.push_back((i+i/3)%3); V3 f=fixUnit(i),P=s.o[i%3]+(4+0.5*i)*(s.C[i%3]*f),q=R.transpose()*(P-t)-s.o[s.i2[i]]; V3 g=s.C[s.i2[i]].transpose()*q; simp(g); s.a.push_back(f); s.b.push_back(g); s.w.push_back(1); } return s; }
static void runMain2(const Rig&s,const V3&start,geOutput_t&o){ M3 f[6]; for(int i=0;i<6;i++) f[i].setZero(); M39 P1[3],P2[3]; for(int i=0;i<3;i++){ P1[i].setZero(); P2[i].setZero(); } M99 m11,m12,m22; m11.setZero(); m12.setZero(); m22.setZero();
  for(int i=0;i<8;i++){ V3 a=s.C[s.i1[i]]*s.a[i],d=s.C[s.i2[i]]*s.b[i]; M3 F=d*d.transpose(); f[0]+=a[0]*a[0]*F; f[1]+=a[1]*a[1]*F; f[2]+=a[2]*a[2]*F; f[3]+=a[0]*a[1]*F; f[4]+=a[1]*a[2]*F; f[5]+=a[2]*a[0]*F; V3 e1=a.cross(s.o[s.i1[i]]),e2=d.cross(s.o[s.i2[i]]); Eigen::Matrix<double,1,9> x,y; for(int k=0;k<3;k++) for(int q=0;q<3;q++){ y(0,3*k+q)=d[q]*e1[k]; x(0,3*k+q)=a[q]*e2[k]; } for(int k=0;k<3;k++){ P1[k]+=a[k]*d*x; P2[k]+=a[k]*d*y; } m11-=x.transpose()*x; m22-=y.transpose()*y; m12-=y.transpose()*x; }
#ifdef VP_NATIVE
  if(!atTruth){ relative_pose::modules::ge_main2(f[0],f[1],f[2],f[3],f[4],f[5],P1[0],P1[1],P1[2],P2[0],P2[1],P2[2],m11,m12,m22,start,o); return; }
  double before=GE::getCost(f[0],f[1],f[2],f[3],f[4],f[5],P1[0],P1[1],P1[2],P2[0],P2[1],P2[2],m11,m12,m22,start,1);
#endif
  relative_pose::modules::ge_main2(f[0],f[1],f[2],f[3],f[4],f[5],P1[0],P1[1],P1[2],P2[0],P2[1],P2[2],m11,m12,m22,start,o);
#ifdef VP_NATIVE
  double after=GE::getCost(f[0],f[1],f[2],f[3],f[4],f[5],P1[0],P1[1],P1[2],P2[0],P2[1],P2[2],m11,m12,m22,math::rot2cayley(o.rotation),1); vp_check(after<=before+1e-9*(1+std::fabs(before)),"the final rotation is not worse than the start");
#endif
}
static void prep(){ known.clear(); fresh=finals=eigRuns=0; mL4[0]=3; mL4[1]=1.25; mL4[2]=2; for(int r=0;r<4;r++){ mV4(r,0)=0.5+0.25*r; mV4(r,1)=1-0.75*r; mV4(r,2)=0.25*r*r-1; }
  if(vp_symbolic()||!atTruth){
#ifndef VP_NATIVE
  vphook::eig=eig4;
#endif
  vp_replace("opengv::relative_pose::modules::ge::getCost(",(void*)costHook); vp_replace("opengv::relative_pose::modules::ge::getQuickJacobian(",(void*)gradHook); vp_replace("opengv::relative_pose::modules::ge::composeG(",(void*)finalHook); }
}
static void descent(int n,double q){ atTruth=false; budget=n; mE<<0.5,-0.25,0.375; V3 start=mE; if(q!=0){ for(int i=0;i<3;i++) start[i]+=(i-1)*q; } tT<<0.5,-1,0.25; slot3=3; tR=cayleyRot(mE[0],mE[1],mE[2]); tG.setIdentity(); for(int r=0;r<4;r++) mV4(r,3)=r+1; prep(); for(int r=0;r<4;r++) mV4(r,3)=r+1; for(int i=0;i<n;i++) land[i]=real("v",i,0,9);
  geOutput_t o; runMain2(scene(tR,tT),start,o); { bool seen=false; for(size_t i=0;i<known.size();i++) if(dist(known[i].p,finalC)<1e-9) seen=true; vp_check(seen,"the final rotation has been evaluated"); vp_check_le(landscape(finalC),landscape(start),"the final rotation is not worse than the start"); checkEq(M3(o.rotation),cayleyRot(finalC[0],finalC[1],finalC[2]),"the reported rotation is the final one"); } vp_reach("end"); }
HARNESS(ge_descent){ descent(5,0.0625); }
HARNESS(ge_descent_long){ descent(7,0.0625); }
// the true rotation as start
static void atStart(int mask){ atTruth=true; mE<<0.5,-0.25,0.375; tT<<0.5,-1,0.25; if(mask&1) tT=symVec("t",0,3); slot3=vp_choice("slot",4); tR=cayleyRot(mE[0],mE[1],mE[2]); prep(); if(mask&2){ mL4[0]=vp_real("la",0.5,9); mL4[1]=vp_real("lb",0.25,9); mL4[2]=0.125; vp_assume_ne(mL4[0],mL4[1]); } double sc=mask&1?-0.5:0.25; for(int r=0;r<4;r++) mV4(r,3)=sc*(r<3?tT[r]:1); Known k; k.p=mE; k.v=0.5; known.push_back(k);
  Rig s=scene(tR,tT); tG.setZero(); M3 Rr=rotRed(mE); for(int i=0;i<8;i++){ V4 r=gRow(s,i,Rr); tG+=r*r.transpose(); } V4 z; z<<tT,1; if(vp_symbolic()){ V4 e=tG*z; checkEq(e,V4(V4::Zero()),"the translation is in the null space at the true rotation"); }
  geOutput_t o; runMain2(s,mE,o);
  if(vp_symbolic()){ vp_check(dist(finalC,mE)<1e-6,"a perfect start is kept"); vp_check(eigRuns==1,"one decomposition"); for(int i=0;i<4;i++) vp_check_eq(o.translation[i],z[i],"the translation is recovered in metric scale"); for(int i=0;i<3;i++) vp_check_le(o.eigenvalues[i+1],o.eigenvalues[i],"eigenvalues in descending order"); for(int i=0;i<4;i++){ bool hit=false; for(int j=0;j<4&&!hit;j++){ bool h=vp_entails_eq(o.eigenvalues[i],j<3?mL4[j]:0); for(int r=0;r<4&&h;r++) h=vp_entails_eq(o.eigenvectors(r,i),mV4(r,j)); hit=h; } vp_check(hit,"each eigenvector belongs to its eigenvalue"); } checkEq(M3(o.rotation),cayleyRot(finalC[0],finalC[1],finalC[2]),"the reported rotation is the final one"); }
  else { double m=0; for(int i=0;i<9;i++) m=std::max(m,std::fabs(o.rotation(i/3,i%3)-tR(i/3,i%3))); vp_check(m<1e-4,"a perfect start is kept"); for(int i=0;i<4;i++) vp_check(std::fabs(o.translation[i]-z[i])<1e-2*(1+tT.norm()),"the translation is recovered in metric scale"); for(int i=0;i<3;i++) vp_check(o.eigenvalues[i+1]<=o.eigenvalues[i],"eigenvalues in descending order"); }
  vp_reach("end"); }
HARNESS(ge_main_t){ atStart(1); }
HARNESS(ge_main_order){ atStart(2); }
