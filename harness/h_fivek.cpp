// Five-point relative rotation (elimination over the entries of the rotation).
#include "scene.hpp"
#include <opengv/relative_pose/methods.hpp>
#include <opengv/relative_pose/CentralRelativeAdapter.hpp>
using namespace opengv; using namespace vp;
// monomials of the elimination template: exponents of the nine entries of the rotation, row by row
static const char*tpl="000001011000001020000001101000001110000001200000002010000002100000010002000010011000010020000010101000010110000010200000011001000011010000011100000020001000020010000020100000100002000100011000100020000100101000100110000100200000101001000101010000101100000110001000110010000110100000111000000120000000200001000200010000200100000201000000210000000300000001000011001000020001000101001000110001000200001001010001001100001010001001010010001010100001011000001020000001100001001100010001100100001101000001110000001200000002000010002000100002010000002100000010000002010000011010000020010000101010000110010000200010001001010001010010001100010002000010010001010010010010010100010011000010020000010100001010100010010100100010101000010110000010200000011000001011000010011000100011001000011010000011100000012000000020000001020000010020000100020001000020010000020100000021000000030000000100000002100000011100000020100000101100000110100000200100001001100001010100001100100002000100010001100010010100010100100011000100020000100100001100100010100100100100101000100110000100200000101000001101000010101000100101001000101010000101100000102000000110000001110000010110000100110001000110010000110100000111000000120000000200000001200000010200000100200001000200010000200100000201000000210000000300000000000000002000000011000000020000000101000000110000000200000001001000001010000001100000002000000010001000010010000010100000011000000020000000100001000100010000100100000101000000110000000200000001000001001000010001000100001001000001010000001100000002000000010000001010000010010000100010001000010010000010100000011000000020000000100000001100000010100000100100001000100010000100100000101000000110000000200000000000000001000000010000000100000001000000010000000100000001000000010000000100000000000000000";
static VX all; static M3 RR; static int slot,inits,eigs;
static void setup(const M3&R){ RR=R; all.resize(197); for(int i=0;i<197;i++){ double v=1; for(int k=0;k<9;k++) for(int e=tpl[9*i+k]-'0';e>0;e--) v*=R(k/3,k%3); all[i]=vp_simplify(v); } inits=eigs=0; slot=vp_choice("slot",2)*19; }
#ifndef VP_NATIVE
// the elimination, abstracted: the equations it is given vanish at the true rotation; it returns an arbitrary reduced system that does
static void basis(Eigen::Matrix<double,66,197>&G){ inits++; int used=0; for(int i=0;i<66;i++){ double r=0; bool any=false; for(int j=0;j<197;j++) if(!(vp_isconst(G(i,j))&&vp_num(G(i,j))==0)){ r+=G(i,j)*all[j]; any=true; } used+=any; if(any) vp_check_eq(r,0,"the polynomial equations vanish at the true rotation"); } vp_check(used==30,"ten epipolar equations and the rotation's own constraints are set up");
  for(int i=0;i<10;i++){ double r=RR(0,0)*all[177+i]; for(int j=0;j<19;j++){ G(51+i,177+j)=((i*7+j*5)%11-5)/4.0+0.125; r+=G(51+i,177+j)*all[177+j]; } G(51+i,196)=vp_simplify(-r); } }
static bool eig(const MX&A,vphook::VXc&D,vphook::MXc&V){ if(A.rows()!=20) return false; eigs++; VX m(20); for(int j=0;j<20;j++) m[j]=all[177+j]; VX r=A*m; double ev=RR(0,0); for(int i=0;i<20;i++) if(!vp_entails_eq(r[i],ev*m[i])){ vp_fail("the true rotation solves the reduced polynomial system"); vp_stop(); }
  D.resize(20); V.resize(20,20); double c=vp_fresh("ec",0.5); vp_assume_ne(c,0); for(int j=0;j<20;j++){ bool t=j==slot; D[j]=t?std::complex<double>(ev,0):std::complex<double>(0.5+j,(j%2?-1.0:1.0)*(1+j/2)); for(int i=0;i<20;i++) V(i,j)=t?std::complex<double>(c*m[i],0):std::complex<double>(((i*3+j)%7-3)/4.0+0.0625,((i+j*2)%5-2)/8.0); } return true; }
#endif
static V3 pt(int i){ static const int t[7][3]={{1,-2,5},{-3,1,4},{2,2,7},{-1,-3,6},{3,0,4},{0,3,5},{-2,-1,3}}; V3 v; v<<t[i][0],t[i][1],t[i][2]; return v; }
// mask: 1 rotation, 2 translation, 4 a point, 8 ray lengths ; full: the elimination itself is run
static void fivek(int cfg,int mask,bool full){ M3 R=mask&1?symRot("c",2):fixRot(cfg); V3 t; t<<0.5-0.25*cfg,-0.375,0.625+0.125*cfg; if(mask&2) t=symVec("t",0,1); bearingVectors_t f1,f2; std::vector<int> id; static const int use[5]={4,1,6,3,0};
  for(int i=0;i<7;i++){ V3 P=pt((i+cfg)%7); if(i==3) P[0]+=0.25; if(i==6&&(mask&4)) P=symVec("p",0,2)+pt(2); double l=1,m=1; if(mask&8){ l=real("l",i,0.25,4); m=real("m",i,0.25,4); } V3 a=l*P,b=m*(R.transpose()*(P-t)); simp(a); simp(b);
    if(!vp_symbolic()&&!(mask&8)){ a.normalize(); b.normalize(); } f1.push_back(a); f2.push_back(b); }
  setup(R);
#ifndef VP_NATIVE
  vphook::eig=eig; if(!full) vp_replace("opengv::relative_pose::modules::fivept_kneip::computeBasis",(void*)basis);
#endif
  vp_tol(1e-3); relative_pose::CentralRelativeAdapter ad(f1,f2); id.assign(use,use+5); rotations_t r=relative_pose::fivept_kneip(ad,id);
  if(vp_symbolic()){ vp_check(eigs==1&&(full||inits==1),"one polynomial system is set up and solved"); vp_check(r.size()==1,"rotations are reported for real solutions only"); } vp_check(r.size()<=20,"at most twenty rotations"); vp_check(countSame(r,R)>=1,"the true rotation is among the returned ones"); vp_reach("end"); }
HARNESS(fivek_rot){ fivek(0,1,false); }
HARNESS(fivek_t){ fivek(1,2,false); }
HARNESS(fivek_point){ fivek(2,4,false); }
HARNESS(fivek_full_a){ fivek(0,8,true); }
HARNESS(fivek_full_b){ fivek(1,8,true); }
HARNESS(fivek_full_c){ fivek(5,8,true); }
