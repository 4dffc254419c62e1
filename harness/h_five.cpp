// Five-point essential matrix: Stewenius' and Nister's solvers.
#include "scene.hpp"
#include <opengv/relative_pose/methods.hpp>
#include <opengv/relative_pose/CentralRelativeAdapter.hpp>
#include <opengv/relative_pose/modules/main.hpp>
#include <opengv/math/Sturm.hpp>
#include <limits>
#include <new>
using namespace opengv; using namespace vp;
static const double NaN=std::numeric_limits<double>::quiet_NaN();
// the scene's essential matrix and a basis of a four-dimensional space that contains it: E = w (x B0 + y B1 + z B2 + B3)
static M3 E; static double X,Y,Z,Wt; static MX Bs; static VX m1,m2; static int vslot,symRow; static double ev;
static double ent(int i,int j){ static const int t[36]={3,-2,5,1, -4,7,2,-3, 6,1,-5,2, 2,-6,3,7, -1,4,-7,5, 5,3,1,-2, -3,2,6,4, 7,-5,-2,1, 1,6,4,-6}; return t[(4*i+7*j)%36]/8.0+0.125*((i*j)%3); }
static void basis(int mask){ Bs.resize(9,4); for(int i=0;i<9;i++) for(int j=0;j<3;j++) Bs(i,j)=ent(i,j); if(mask&8){ Bs(1,0)=vp_real("b10",-2,2); Bs(5,1)=vp_real("b51",-2,2); Bs(6,2)=vp_real("b62",-2,2); }
  for(int i=0;i<9;i++) Bs(i,3)=vp_simplify(E(i/3,i%3)/Wt-X*Bs(i,0)-Y*Bs(i,1)-Z*Bs(i,2)); }
// mask: 1 essential matrix's translation, 2 its rotation, 4 coordinates x,y,z, 8 the other basis vectors, 16 scale
static void setup(int mask){ V3 t; t<<0.75,-1,1.5; if(mask&1) t=symVec("t",0,4); M3 R=mask&2?symRot("r",2):fixRot(2); E=skew(t)*R; simp(E); X=0.5; Y=-1.25; Z=0.75; Wt=1; if(mask&4){ X=vp_real("x",-4,4); Y=vp_real("y",-4,4); Z=vp_real("z",-4,4); } if(mask&16) Wt=vp_real("w",0.25,4); basis(mask); }
static void stewOrder(){ double x=X,y=Y,z=Z; m1.resize(10); m1<<x*x*x,x*x*y,x*y*y,y*y*y,x*x*z,x*y*z,y*y*z,x*z*z,y*z*z,z*z*z; m2.resize(10); m2<<x*x,x*y,y*y,x*z,y*z,z*z,x,y,z,1; }
static void nisterOrder(){ double x=X,y=Y,z=Z; m1.resize(10); m1<<x*x*x,y*y*y,x*x*y,x*y*y,x*x*z,x*x,y*y*z,y*y,x*y*z,x*y; m2.resize(10); m2<<x*z*z,x*z,x,y*z*z,y*z,y,z*z*z,z*z,z,1; }
// A1 m1 + A2 m2 = 0 is verified; the solution of A1 X = A2 is then any X with X m2 = -m1
#ifndef VP_NATIVE
static bool linHook(const MX&A,const MX&B,MX&S){ if(A.rows()!=10||B.cols()!=10) return false; VX r=A*m1+B*m2; for(int i=0;i<10;i++) if(!vp_entails_eq(r[i],0)){ vp_fail("the essential-matrix constraints vanish at the scene's matrix"); vp_stop(); }
  S.resize(10,10); for(int i=0;i<10;i++){ double s=m1[i]; for(int j=0;j<9;j++){ double v=((i*7+j*5)%11-5)/4.0+0.125; if(symRow==i||symRow==-1) v=vp_fresh("as",v); S(i,j)=v; s+=v*m2[j]; } S(i,9)=vp_simplify(-s); } return true; }
static bool eigHook(const MX&A,vphook::VXc&D,vphook::MXc&V){ VX r=A*m2; for(int i=0;i<10;i++) if(!vp_entails_eq(r[i],ev*m2[i])){ vp_fail("the scene's monomials are an eigenvector of the action matrix"); vp_stop(); }
  D.resize(10); V.resize(10,10); double c=vp_fresh("ec",0.5); for(int j=0;j<10;j++){ D[j]=j==vslot?std::complex<double>(ev,0):std::complex<double>(NaN,NaN); for(int i=0;i<10;i++) V(i,j)=j==vslot?std::complex<double>(c*m2[i],0):std::complex<double>(NaN,NaN); } return true; }
#endif
static bool propC(const complexEssential_t&x){ for(int i=0;i<3;i++) for(int j=0;j<3;j++) if(!vp_finite(x(i,j).real())||!vp_finite(x(i,j).imag())||!(vp_symbolic()?vp_entails_eq(x(i,j).imag(),0):std::fabs(x(i,j).imag())<1e-6)) return false;
  int a=0,b=0; for(int i=0;i<9;i++) if(!vp_entails_eq(E(i/3,i%3),0)){ a=i/3; b=i%3; break; } if(vp_entails_eq(x(a,b).real(),0)) return false;
  for(int i=0;i<3;i++) for(int j=0;j<3;j++) if(!vp_entails_eq(x(i,j).real()*E(a,b),x(a,b).real()*E(i,j))) return false; return true; }
static void stew(int mask,int row){ setup(mask); symRow=row; stewOrder(); ev=X; vslot=vp_choice("slot",3)*4;
#ifndef VP_NATIVE
  vphook::lsolve=linHook; vphook::eig=eigHook;
#endif
  Eigen::Matrix<double,9,4> EE=Bs; complexEssentials_t r; relative_pose::modules::fivept_stewenius_main(EE,r); int c=0; for(size_t i=0;i<r.size();i++) c+=propC(r[i]); vp_check(c>=1,"the scene's essential matrix is among the results"); vp_reach("end"); }
HARNESS(stew_xyz){ stew(4,-2); }
HARNESS(stew_t){ stew(1,-2); }
HARNESS(stew_r){ stew(2,-2); }
HARNESS(stew_scene){ stew(3+4,-2); }
HARNESS(stew_basis){ stew(8+4,-2); }
HARNESS(stew_solve){ stew(4,-1); }
HARNESS(stew_all){ stew(31,-1); }
// ---- Nister: the roots of the tenth-degree polynomial are a verified contract; its value at the scene's root must vanish
static VX poly; static void ctorHook(math::Sturm*self,const Eigen::MatrixXd&p){ poly.resize(p.cols()); for(int i=0;i<p.cols();i++) poly[i]=p(0,i); std::vector<double> t(2,1.0); new(self) math::Sturm(t); }
static std::vector<double> rootsHook(math::Sturm*){ double v=0; for(int i=0;i<poly.size();i++) v=v*Z+poly[i]; if(poly.size()!=11||!vp_entails_eq(v,0)){ vp_fail("the tenth-degree polynomial vanishes at the scene's root"); vp_stop(); } std::vector<double> r; if(vslot) r.push_back(NaN); r.push_back(Z); if(vslot==2) r.push_back(NaN); return r; }
#ifndef VP_NATIVE
static bool lmHook(vphook::LMProblem&p,VX&x){ VX f; p.eval(x,f); if(!vp_finite(x[0])) return true; for(int i=0;i<f.size();i++) if(!vp_entails_eq(f[i],0)){ vp_fail("polishing starts at a solution and keeps it"); vp_stop(); } return true; }
#endif
static void nist(int mask,int row){ setup(mask); symRow=row; nisterOrder(); vslot=vp_choice("slot",3);
#ifndef VP_NATIVE
  vphook::lsolve=linHook; vphook::lm=lmHook; vp_replace("opengv::math::Sturm::Sturm(Eigen",(void*)ctorHook); vp_replace("opengv::math::Sturm::findRoots()",(void*)rootsHook); vp_hint(X); vp_hint(Y);
#endif
  Eigen::Matrix<double,9,4> EE=Bs; essentials_t r; relative_pose::modules::fivept_nister_main(EE,r); int c=0; for(size_t i=0;i<r.size();i++){ bool ok=true; for(int k=0;k<9;k++) ok=ok&&vp_finite(r[i](k/3,k%3)); if(!ok) continue; const M3&x=r[i]; int a=0,b=0; for(int k=0;k<9;k++) if(!vp_entails_eq(E(k/3,k%3),0)){ a=k/3; b=k%3; break; }
    if(vp_entails_eq(x(a,b),0)) continue; for(int k=0;k<9&&ok;k++) ok=vp_entails_eq(x(k/3,k%3)*E(a,b),x(a,b)*E(k/3,k%3)); c+=ok; } vp_check(c>=1,"the scene's essential matrix is among the results"); vp_reach("end"); }
HARNESS(nister_xyz){ nist(4,-2); }
HARNESS(nister_t){ nist(1,-2); }
HARNESS(nister_r){ nist(2,-2); }
HARNESS(nister_basis){ nist(8+4,-2); }
HARNESS(nister_scene){ nist(7,-2); }
HARNESS(nister_row){ nist(4,vp_choice("row",6)+4); }
// ---- the public functions: correspondences of the scene; the decomposition's trailing four right singular vectors span a space with the scene's matrix in it
#ifndef VP_NATIVE
static bool spanSvd(const MX&A,MX&U,VX&S,MX&V,unsigned){ if(A.cols()!=9) return false; for(int i=0;i<A.rows();i++){ double s=0; for(int j=0;j<9;j++) s+=A(i,j)*E(j/3,j%3); if(!vp_entails_eq(s,0)){ vp_fail("the equations built from the correspondences hold for the scene's matrix"); vp_stop(); } }
  V.resize(9,9); for(int i=0;i<9;i++) for(int j=0;j<5;j++) V(i,j)=vp_fresh("sv_v",0.25+0.125*i-0.0625*j); for(int i=0;i<9;i++) for(int j=0;j<4;j++) V(i,5+j)=Bs(i,j); int m=A.rows()<9?A.rows():9; S.resize(m); for(int i=0;i<m;i++) S[i]=i<5?vp_fresh("sv_s",10-i):0; U=MX::Zero(A.rows(),A.rows()); for(int i=0;i<A.rows();i++) for(int j=0;j<A.rows();j++) U(i,j)=vp_fresh("sv_u",0.5+0.125*i-0.0625*j); return true; }
#endif
// mask: 1 translation, 2 rotation, 32 one ray, 64 its depth
static void pub(int nister,int mask,int n){ V3 t; t<<0.75,-1,1.5; if(mask&1) t=symVec("t",0,4); M3 R=mask&2?symRot("r",2):fixRot(2); E=skew(t)*R; simp(E); X=0.5; Y=-1.25; Z=0.75; Wt=1; basis(0); symRow=-2;
  int ov=vp_choice("overload",2); bearingVectors_t a,b; std::vector<int> id; if(ov){ a.push_back(q3(1,2,2,3)); b.push_back(q3(2,1,2,3)); }
  for(int i=0;i<n;i++){ V3 f2=i==1&&(mask&32)?symUnit("f",0,1):fixUnit(i+1); double d=i==1&&(mask&64)?vp_real("d",8,12):8+0.75*((i*5)%7); V3 P=t+d*(R*f2); simp(P); V3 f1=P; if(!(mask&3)) f1=P/sqrt(vp_simplify(P.dot(P))); id.insert(id.begin(),(int)a.size()); a.push_back(f1); b.push_back(f2); }
  vslot=nister?0:vp_choice("slot",2)*4; if(nister) nisterOrder(); else stewOrder(); ev=X;
#ifndef VP_NATIVE
  vphook::lsolve=linHook; vphook::eig=eigHook; vphook::svd=spanSvd; vphook::lm=lmHook; vp_replace("opengv::math::Sturm::Sturm(Eigen",(void*)ctorHook); vp_replace("opengv::math::Sturm::findRoots()",(void*)rootsHook);
#endif
  relative_pose::CentralRelativeAdapter ad(a,b); int c=0; if(!nister){ complexEssentials_t r=ov?relative_pose::fivept_stewenius(ad,id):relative_pose::fivept_stewenius(ad); for(size_t i=0;i<r.size();i++) c+=propC(r[i]); }
  else { essentials_t r=ov?relative_pose::fivept_nister(ad,id):relative_pose::fivept_nister(ad); for(size_t i=0;i<r.size();i++){ complexEssential_t x; for(int k=0;k<9;k++) x(k/3,k%3)=std::complex<double>(r[i](k/3,k%3),0); c+=propC(x); } }
  vp_check(c>=1,"the scene's essential matrix is among the results"); vp_reach("end"); }
HARNESS(stew_pub_t){ pub(0,1,5); }
HARNESS(stew_pub_r){ pub(0,2,5); }
HARNESS(stew_pub_ray){ pub(0,96,5); }
HARNESS(stew_pub_more){ pub(0,64,7); }
HARNESS(nister_pub_t){ pub(1,1,5); }
HARNESS(nister_pub_r){ pub(1,2,5); }
HARNESS(nister_pub_ray){ pub(1,96,5); }
HARNESS(nister_pub_more){ pub(1,64,7); }
