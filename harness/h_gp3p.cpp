// Three-point generalized absolute pose.
#include "scene.hpp"
#include <opengv/absolute_pose/methods.hpp>
#include <opengv/absolute_pose/NoncentralAbsoluteAdapter.hpp>
#include <limits>
using namespace opengv; using namespace vp;
static VX mv; static double ev; static int slot,cplx,eigs;
// the true solution's monomials must be an eigenvector of the action matrix; the remaining eigenvalues are complex pairs
#ifndef VP_NATIVE
static bool eig(const MX&A,vphook::VXc&D,vphook::MXc&V){ if(A.rows()!=8) return false; eigs++; VX r=A*mv; for(int i=0;i<8;i++) if(!vp_entails_eq(r[i],ev*mv[i])){ vp_fail("the true pose solves the reduced polynomial system"); vp_stop(); }
  D.resize(8); V.resize(8,8); double c=vp_fresh("ec",0.5); vp_assume_ne(c,0); for(int j=0;j<8;j++){ bool t=j==slot; D[j]=t?std::complex<double>(ev,0):std::complex<double>(0.5+j,(j%2?-1.0:1.0)*(1+j/2)); for(int i=0;i<8;i++) V(i,j)=t?std::complex<double>(c*mv[i],0):std::complex<double>(((i*3+j)%7-3)/4.0+0.0625,((i+j*2)%5-2)/8.0); } return true; }
#endif
static transformation_t pose(const M3&R,const V3&t){ transformation_t T; T.block<3,3>(0,0)=R; T.col(3)=t; return T; }
// monomials of the elimination template: exponents of c0 c1 c2 (rotation) and of the depths n[0] n[1] n[2]
static const char*tpl="111001111010111100120001120010120100201001201010201100210001210010210100300001300010300100310000001101001110001200002001002010002100010002010011010020010101010110010200011001011010011100020001020010020100021000030000100002100011100020100101100110100200101001101010101100102000110001110010110100111000120000200001200010200100201000210000300000000002000011000020000101000110000200001001001010001100002000010001010010010100011000020000100001100010100100101000110000200000000001000010000100001000010000100000000000";
static VX all; static int inits;
// the elimination, abstracted: the equations it is given vanish at the scene; it returns an arbitrary reduced system that does
static void computeHook(Eigen::Matrix<double,48,85>&G){ inits++; int used=0; for(int i=0;i<48;i++){ double r=0; bool any=false; for(int j=0;j<85;j++) if(!(vp_isconst(G(i,j))&&vp_num(G(i,j))==0)){ r+=G(i,j)*all[j]; any=true; } used+=any; if(any) vp_check_eq(r,0,"the polynomial equations vanish at the true pose"); } vp_check(used==9,"nine equations are set up");
  for(int i=0;i<6;i++){ double r=all[i==0?56:71+i]; for(int j=77;j<84;j++){ G(36+i,j)=((i*7+j*5)%11-5)/4.0+0.125; r+=G(36+i,j)*all[j]; } G(36+i,84)=vp_simplify(-r); } }
static double pw(double x,int n){ double r=1; for(int i=0;i<n;i++) r*=x; return r; }
static void useCompute(const V3&c,const double*n){ all.resize(85); for(int i=0;i<85;i++){ const char*e=tpl+6*i; all[i]=vp_simplify(pw(c[0],e[0]-'0')*pw(c[1],e[1]-'0')*pw(c[2],e[2]-'0')*pw(n[0],e[3]-'0')*pw(n[1],e[4]-'0')*pw(n[2],e[5]-'0')); } vp_replace("opengv::absolute_pose::modules::gp3p::compute",(void*)computeHook); }
// the scene: fixed rays, cameras and rotation (cfg), any world origin, any unit of length
static void gp3p(int cfg,int nCam,int mask=0){ static const double cy[6][3]={{0.25,-0.5,0.375},{-0.75,0.125,0.5},{1.5,-0.25,-0.625},{-0.125,-1.25,0.75},{0.5,1.125,-1.625},{-0.25,-0.375,-2}}; static const double of[5][3]={{0.5,-0.25,1},{-1,0.75,0.25},{0.25,1.5,-0.5},{-0.75,-1,-0.5},{1.25,0.5,-1}};
  V3 c; c<<cy[cfg][0],cy[cfg][1],cy[cfg][2]; if(mask&1) for(int i=0;i<3;i++) c[i]=real("c",i,-2,2); M3 Rt=cayleyRot(c[0],c[1],c[2]); simp(Rt); M3 R=Rt.transpose(); V3 t; t<<1,-2,0.5; if(!(mask&16)) t=symVec("t",0,8); double s=2; if(!(mask&16)) s=vp_real("s",0.25,8);
  translations_t o; rotations_t C; for(int i=0;i<nCam;i++){ V3 q; q<<s*of[(i+cfg)%5][0],s*of[(i+cfg)%5][1],s*of[(i+cfg)%5][2]; if(mask&2) q=symVec("o",i,4); simp(q); o.push_back(q); C.push_back(fixRot(i+cfg)); }
  bearingVectors_t f; points_t p; std::vector<int> ci; double n[3]; int use[3]={1,4,2}; for(int i=0;i<5;i++){ int a=(2*i+1)%nCam; V3 g=fixUnit(i*2+cfg+(cfg==4)); double d=vp_simplify(s*(2.5+0.75*((i*3+cfg)%4))); for(int k=0;k<3;k++) if(use[k]==i) n[k]=d; if(mask&4){ g=symUnit("g",i,1); } if(mask&8) d=real("d",i,0.5,8); for(int k=0;k<3;k++) if(use[k]==i) n[k]=d; V3 P=R*(o[a]+d*(C[a]*g))+t; simp(P); f.push_back(g); p.push_back(P); ci.push_back(a); }
  mv.resize(8); mv<<c[0]*c[0],n[2],n[1],n[0],c[2],c[1],c[0],1; ev=c[0]; if(mask) useCompute(c,n); eigs=0; slot=vp_choice("slot",2)*7;
#ifndef VP_NATIVE
  vphook::eig=eig;
#endif
  vp_tol(1e-3); transformations_t r; if(vp_choice("overload",2)){ absolute_pose::NoncentralAbsoluteAdapter ad(f,ci,p,o,C); r=absolute_pose::gp3p(ad,use[0],use[1],use[2]); }
  else { absolute_pose::NoncentralAbsoluteAdapter ad(f,ci,p,o,C); std::vector<int> id(use,use+3); r=absolute_pose::gp3p(ad,id); }
#ifdef VP_NATIVE
  for(size_t i=0;i<r.size();i++) for(int k=0;k<3;k++){ int j=use[k]; V3 q=C[ci[j]].transpose()*(r[i].block<3,3>(0,0).transpose()*(p[j]-r[i].col(3))-o[ci[j]]); vp_check(q.cross(f[j]).norm()<0.1*q.norm(),"poses are reported for real solutions only"); }
#endif
  if(vp_symbolic()){ if(mask) vp_check(inits==1,"the equations are set up once"); vp_check(eigs==1,"the system is solved by one eigen-decomposition"); vp_check(r.size()==1,"poses are reported for real solutions only"); } vp_check(r.size()<=8,"at most eight poses"); vp_check(countSame(r,pose(R,t))>=1,"the true pose is among the returned ones"); vp_reach("end"); }
HARNESS(gp3p_a){ gp3p(0,4); }
HARNESS(gp3p_b){ gp3p(1,3); }
HARNESS(gp3p_c){ gp3p(2,4); }
HARNESS(gp3p_d){ gp3p(3,5); }
HARNESS(gp3p_e){ gp3p(4,5); }
HARNESS(gp3p_f){ gp3p(5,2); }
// set-up of the equations and recovery of the pose for all scenes, the elimination abstracted
HARNESS(gp3p_rot){ gp3p(0,4,1+16); }
HARNESS(gp3p_offset){ gp3p(1,4,2); }
HARNESS(gp3p_ray){ gp3p(2,4,4+16); }
HARNESS(gp3p_depth){ gp3p(3,4,8); }
HARNESS(gp3p_all){ gp3p(3,4,15); }
