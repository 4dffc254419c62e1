// Linear and minimal solvers for the essential matrix.
#include "scene.hpp"
#include <opengv/relative_pose/methods.hpp>
#include <opengv/relative_pose/CentralRelativeAdapter.hpp>
#include <limits>
using namespace opengv; using namespace vp;
static const double NaN=std::numeric_limits<double>::quiet_NaN();
static VX rowMajor(const M3&E){ VX v(9); for(int i=0;i<3;i++) for(int j=0;j<3;j++) v[3*i+j]=E(i,j); return v; }
// x is a nonzero multiple of E
static bool proportional(const M3&x,const M3&E){ for(int i=0;i<3;i++) for(int j=0;j<3;j++) if(!vp_finite(x(i,j))) return false;
  int a=0,b=0; for(int i=0;i<9;i++) if(!vp_entails_eq(E(i/3,i%3),0)){ a=i/3; b=i%3; break; } if(vp_entails_eq(x(a,b),0)) return false;
  for(int i=0;i<3;i++) for(int j=0;j<3;j++) if(!vp_entails_eq(x(i,j)*E(a,b),x(a,b)*E(i,j))) return false; return true; }
static int countProp(const essentials_t&l,const M3&E){ int c=0; for(size_t i=0;i<l.size();i++) c+=proportional(l[i],E); return c; }
static bool mixSvd(const MX&A,MX&U,VX&S,MX&V,unsigned o){ if(A.rows()==3&&A.cols()==3) return fullSvd(A,U,S,V,o); return kernelSvd(A,U,S,V,o); }
static void useMix(){
#ifndef VP_NATIVE
  vphook::svd=mixSvd;
#endif
}
// mask: 1 translation direction, 2 its length, 4 rotation, 8 one viewing ray, 16 its depth
struct Scene { M3 W,R,E; V3 t; double len; bearingVectors_t a,b; std::vector<int> id; };
static Scene scene(int mask,int n,int junk){ Scene s; s.W=mask&1?symRot("w",2):fixRot(1); s.len=mask&2?vp_real("len",0.25,4):1.5; s.R=mask&4?symRot("r",2):fixRot(2); s.t=s.len*s.W.col(2); simp(s.t); s.E=skew(s.t)*s.R; simp(s.E);
  for(int i=0;i<junk;i++){ s.a.push_back(fixUnit(3*i)); s.b.push_back(fixUnit(3*i+1)); }
  for(int i=0;i<n;i++){ V3 f2=i==0&&(mask&8)?symUnit("f",0,1):fixUnit(i); double d=i==0&&(mask&16)?vp_real("d",5,9):5+0.75*((i*5)%7); V3 X=s.t+d*(s.R*f2); simp(X); double q=vp_simplify(X.dot(X)); /* d exceeds the baseline */ V3 f1=X; if(!(mask&1)) f1=X/sqrt(q); /* otherwise rays of any length */ s.id.push_back(s.a.size()); s.a.push_back(f1); s.b.push_back(f2); }
  return s; }
static void eight(int mask,int n){ int ov=vp_choice("overload",2); Scene s=scene(mask,n,ov?1:0); relative_pose::CentralRelativeAdapter ad(s.a,s.b);
  MX N(9,1); N.col(0)=rowMajor(s.E); kernels.clear(); kernels.push_back(N);
  // [t]x R = len W diag(1,1,0) Z W' R with Z a quarter turn; the sign pattern and the order of the equal values are free
  M3 Z; Z<<0,-1,0,1,0,0,0,0,1; double k=1/sqrt(2.0); M3 U=s.W,V=s.R.transpose()*s.W*Z.transpose(); simp(V); if(vp_choice("flip",2)){ U.col(2)*=-1; } if(vp_choice("swap",2)){ M3 P; P<<0,1,0,1,0,0,0,0,1; U=U*P; V=V*P; }
  gUu=U; gVv=V; VX d(3); d<<k,k,0; gSs=d; gA=s.E*(1/(s.len*sqrt(2.0))); useMix(); vp_hint(s.len*sqrt(2.0));
  essential_t r=ov?relative_pose::eightpt(ad,s.id):relative_pose::eightpt(ad);
  vp_check(proportional(r,s.E),"the eight-point essential matrix is the scene's, up to scale"); vp_reach("end"); }
HARNESS(eight_t){ eight(3,8); }
HARNESS(eight_r){ eight(4,8); }
HARNESS(eight_ray){ eight(24,8); }
HARNESS(eight_more){ eight(2+16,10); }
HARNESS(eight_all){ eight(7,8); }
// rank enforcement on a full-rank null vector
HARNESS(eight_rank){ double h=vp_real("u",-1,1); M3 A0=cayleyRot(h,0.5*h,-h); simp(A0); M3 U=A0*fixRot(2),V=fixRot(1); simp(U); double x=vp_real("s2",0.25,0.75),y=vp_real("s3",0.0625,0.2); M3 D=M3::Zero(),D2=M3::Zero(); D(0,0)=D2(0,0)=1; D(1,1)=D2(1,1)=x; D(2,2)=y; M3 F=U*D*V.transpose(),G=U*D2*V.transpose(); simp(F); simp(G);
  bearingVectors_t a,b; for(int i=0;i<8;i++){ V3 f2=fixUnit(i),c=F*f2,w=fixUnit(i+3),f1=c.cross(w); simp(f1); double q=vp_simplify(f1.dot(f1)); vp_assume_lt(0.015625,q); f1=f1/sqrt(q); a.push_back(f1); b.push_back(f2); }
  relative_pose::CentralRelativeAdapter ad(a,b); MX N(9,1); N.col(0)=rowMajor(F); kernels.clear(); kernels.push_back(N); double k=1/sqrt(vp_simplify(1+x*x+y*y)); gUu=U; gVv=V; VX d(3); d<<k,x*k,y*k; gSs=d; gA=F*k; useMix(); vp_hint(1/k);
  essential_t r=relative_pose::eightpt(ad); vp_check(proportional(r,G),"the eight-point result is the closest rank-two matrix to the null vector"); vp_reach("end"); }
// ---- seven points: a two-dimensional null space spanned by the scene's matrix and another one
static M3 F1g,F2g,M3g; static double lam; static int eslot,ekind;
static bool eig3(const MX&A,vphook::VXc&D,vphook::MXc&V){ M3 B=A; for(int i=0;i<3;i++) B(i,i)-=lam; simp(B); if(A.rows()!=3||!vp_entails_eq(B.determinant(),0)){ vp_fail("the scene's matrix is found at an eigenvalue of the pencil"); vp_stop(); }
  D.resize(3); V.resize(3,3); double u=vp_fresh("eg_u",0.5),v=vp_fresh("eg_v",ekind?0.75:2); D[eslot]=lam; int p=(eslot+1)%3,q=(eslot+2)%3; if(ekind){ vp_assume_lt(0,v); D[p]=std::complex<double>(u,v); D[q]=std::complex<double>(u,-v); } else { D[p]=u; D[q]=v; }
  for(int i=0;i<3;i++) for(int j=0;j<3;j++) V(i,j)=std::complex<double>(vp_fresh("eg_x",0.5+i-j),0); return true; }
static bool sevenSvd(const MX&A,MX&U,VX&S,MX&V,unsigned o){ bool r=kernelSvd(A,U,S,V,o); return r; }
static void seven(int mask,int basis,bool unitRays){ int ov=vp_choice("overload",2); Scene s; s.W=fixRot(1); s.len=mask&2?vp_real("len",0.25,4):1.5; if(mask&4){ double h=vp_real("r",-1,1); M3 A0=cayleyRot(h,0.5*h,-h); s.R=A0*fixRot(2); simp(s.R); } else s.R=fixRot(2); s.t=s.len*s.W.col(2); if(mask&1){ double h=vp_real("t",-1,1); s.t=s.len*unit(h,0.5*h+0.25); } simp(s.t); s.E=skew(s.t)*s.R; simp(s.E);
  M3 O; O<<1,2,-1, 3,-2,0.5, -1,0.25,2; if(mask&8) O(0,1)=vp_real("o",1.5,2.5); if(ov){ s.a.push_back(fixUnit(2)); s.b.push_back(fixUnit(5)); }
  for(int i=0;i<7;i++){ V3 f2=fixUnit(i),x=s.E*f2,y=O*f2,f1=x.cross(y); simp(f1); if(unitRays){ double q=vp_simplify(f1.dot(f1)); vp_assume_lt(0.0625,q); f1=f1/sqrt(q); } s.id.push_back(s.a.size()); s.a.push_back(f1); s.b.push_back(f2); }
  double a=basis==2?1:0.5,b=basis==2?0:-0.25,c=0.125,d=1; if(mask&16){ a=vp_real("ba",0.125,1); c=vp_real("bc",-1,1); } if((mask&32)&&basis!=2){ b=vp_real("bb",-1,1); d=vp_real("bd",0.125,1); } if(mask&16) vp_assume_lt(0.0625,a*d-b*c);
  M3 P=a*s.E+b*O,Q=c*s.E+d*O; simp(P); simp(Q); MX N(9,2); N.col(0)=rowMajor(Q); N.col(1)=rowMajor(P); kernels.clear(); kernels.push_back(N); normaliseKernel=false; lam=b/d; 
#ifndef VP_NATIVE
  double dp=vp_simplify(P.determinant()); if(basis!=2){ if(vp_choice("dsign",2)) vp_assume_le(1e-8,dp); else vp_assume_le(dp,-1e-8); } vphook::svd=sevenSvd; vphook::eig=eig3; eslot=vp_choice("slot",3); ekind=vp_choice("kind",2);
#endif
  relative_pose::CentralRelativeAdapter ad(s.a,s.b); essentials_t r=ov?relative_pose::sevenpt(ad,s.id):relative_pose::sevenpt(ad);
  vp_check(countProp(r,s.E)>=1,"the scene's essential matrix is among the seven-point results"); vp_check(r.size()<=3,"at most three seven-point results"); vp_reach("end"); }
HARNESS(seven_t){ seven(1,0,false); }
HARNESS(seven_r){ seven(4,0,false); }
HARNESS(seven_basis){ seven(48,0,true); }
HARNESS(seven_other){ seven(8+16,0,true); }
HARNESS(seven_exact){ seven(7,2,false); }
// more than seven correspondences: one null vector
static void sevenMore(int mask){ int ov=vp_choice("overload",2); Scene s=scene(mask,9,ov?1:0); relative_pose::CentralRelativeAdapter ad(s.a,s.b); MX N(9,1); N.col(0)=rowMajor(s.E); kernels.clear(); kernels.push_back(N); useSvd(0);
  essentials_t r=ov?relative_pose::sevenpt(ad,s.id):relative_pose::sevenpt(ad); vp_check(countProp(r,s.E)>=1,"the scene's essential matrix is among the seven-point results"); vp_reach("end"); }
HARNESS(seven_more_t){ sevenMore(3); }
HARNESS(seven_more_r){ sevenMore(4); }
// ---- seventeen points of a generalized camera
#include <opengv/relative_pose/NoncentralRelativeAdapter.hpp>
static M3 tR; static V3 tT; static double kernNorm; static M3 otherR;
// contract: singular values decrease, V orthogonal and U'A = S V'; used only through the pseudo-inverse P = V S^-1 U', for which P (A y) = y is kept for the one y given here
static void pinvAnswer(const MX&A,const VX*y,MX&U,VX&S,MX&V){ int m=A.rows(),n=A.cols(); MX P(n,m); VX b; if(y) b=A*(*y); for(int k=0;k<n;k++){ double s=y?(*y)[k]:0; for(int i=0;i<m-1;i++){ P(k,i)=((i*5+k*3)%7-3)/8.0+(i==k?0.5:0)+(k-4)*0.03125; if(y) s-=P(k,i)*b[i]; } P(k,m-1)=y?vp_simplify(s/b[m-1]):0.25*(k+1); }
  S.resize(n); V=MX::Identity(n,n); U.resize(m,n); for(int k=0;k<n;k++){ S[k]=n-k; for(int i=0;i<m;i++) U(i,k)=(n-k)*P(k,i); } }
static bool svd17(const MX&A,MX&U,VX&S,MX&V,unsigned o){ if(A.rows()==3&&A.cols()==3) return fullSvd(A,U,S,V,o); M3 E=skew(tT)*tR; int m=A.rows(); V3 z=tT; (void)z;
  if(A.cols()==9&&svdCalls==0){ svdCalls++; VX r(9); for(int i=0;i<3;i++) for(int j=0;j<3;j++) r[3*i+j]=tR(j,i); pinvAnswer(A,&r,U,S,V); return true; }
  if(A.cols()==9){ svdCalls++; M3 Et=E.transpose(); VX e=rowMajor(Et); VX q=A*e; for(int i=0;i<m;i++) if(!vp_entails_eq(q[i],0)){ vp_fail("the projected system has the scene's essential matrix in its null space"); vp_stop(); } V=MX::Zero(9,9); for(int i=0;i<9;i++){ for(int j=0;j<8;j++) V(i,j)=vp_fresh("sv_v",0.25+0.125*i-0.0625*j); V(i,8)=e[i]/kernNorm; } S.resize(9); for(int i=0;i<9;i++) S[i]=i<8?8-i:0; U=MX::Zero(m,9); return true; }
  if(A.cols()==3){ svdCalls++; VX y(3); y<<tT[0],tT[1],tT[2]; pinvAnswer(A,svdCalls==1000?0:&y,U,S,V); return true; }
  return false; }
// mask: 1 baseline length, 2 rotation, 4 a ray, 8 a depth, 16 camera offset
static void seventeen(int mask,int n){ int ov=vp_choice("overload",2); M3 W=fixRot(1); double len=mask&1?vp_real("len",0.25,4):1.5; M3 R=fixRot(2); if(mask&2){ double h=vp_real("r",-1,1); M3 A0=cayleyRot(h,0.5*h,-h); R=A0*R; simp(R); } V3 t=len*W.col(2); simp(t); tR=R; tT=t;
  translations_t off; rotations_t rot; off.push_back(q3(1,0,-2,4)); off.push_back(q3(-1,2,1,2)); off.push_back(q3(2,1,-1,2)); if(mask&16) off[1][0]=vp_real("o",-1,2); for(int i=0;i<3;i++) rot.push_back(fixRot(i));
  bearingVectors_t a,b; std::vector<int> c1,c2,id; if(ov){ a.push_back(q3(1,2,2,3)); b.push_back(q3(2,1,2,3)); c1.push_back(0); c2.push_back(1); }
  for(int i=0;i<n;i++){ int k1=i%3,k2=(i/2)%3; V3 f1=i<12?fixUnit(i):V3(fixRot(3)*fixUnit(i)); if(i==11&&(mask&4)){ double h=vp_real("f",-1,1); f1=unit(h,0.5*h+0.25); simp(f1); } double d=i==11&&(mask&8)?vp_real("d",5,9):3+0.5*((i*5)%9)+i*i*0.03125; V3 Xp=off[k1]+d*(rot[k1]*f1); V3 Y=R.transpose()*(Xp-t); V3 f2=rot[k2].transpose()*(Y-off[k2]); simp(f2); id.push_back(a.size()); a.push_back(f1); b.push_back(f2); c1.push_back(k1); c2.push_back(k2); }
  relative_pose::NoncentralRelativeAdapter ad(a,b,c1,c2,off,rot);
  // E' = R'[t]x' = -R'[t]x ; [t]x = len W diag(1,1,0) Z W'
  kernNorm=len*sqrt(2.0); M3 Z; Z<<0,-1,0,1,0,0,0,0,1; double k=1/sqrt(2.0); M3 U=-R.transpose()*W,V=W*Z.transpose(); simp(U); simp(V); if(vp_choice("flip",2)) U.col(2)*=-1; if(vp_choice("swap",2)){ M3 P; P<<0,1,0,1,0,0,0,0,1; U=U*P; V=V*P; } gUu=U; gVv=V; VX s(3); s<<k,k,0; gSs=s; { M3 E=skew(t)*R; gA=E.transpose()*(1/kernNorm); } svdCalls=0; vp_hint(kernNorm);
#ifndef VP_NATIVE
  vphook::svd=svd17;
#endif
  transformation_t r=ov?relative_pose::seventeenpt(ad,id):relative_pose::seventeenpt(ad); M3 Rr=r.block<3,3>(0,0); V3 tr=r.col(3); checkEq(Rr,R,"the seventeen-point rotation is the scene's"); checkEq(tr,t,"the seventeen-point translation is the scene's"); vp_reach("end"); }
HARNESS(seventeen_len){ seventeen(1,17); }
HARNESS(seventeen_rot){ seventeen(2,17); }
HARNESS(seventeen_ray){ seventeen(4,17); }
HARNESS(seventeen_depth){ seventeen(8,18); }
HARNESS(seventeen_offset){ seventeen(16,17); }
