// Universal absolute pose (UPnP): cameras and rigs, minimal and many points.
#include "scene.hpp"
#include <opengv/absolute_pose/methods.hpp>
#include <opengv/absolute_pose/NoncentralAbsoluteAdapter.hpp>
#include <opengv/absolute_pose/modules/main.hpp>
#include <opengv/math/quaternion.hpp>
#include <limits>
using namespace opengv; using namespace vp;
typedef Eigen::Vector4d Q4; typedef Eigen::Matrix<double,10,10> M10; typedef Eigen::Matrix<double,1,10> C10; typedef Eigen::Matrix<double,10,1> S10;
typedef std::vector<std::pair<double,Q4>,Eigen::aligned_allocator<std::pair<double,Q4> > > Quats;
namespace opengv { namespace absolute_pose { void fill3x10(const Eigen::Vector3d&,Eigen::Matrix<double,3,10>&); void f(const M10&,const C10&,double,Eigen::Vector3d&); void Jac(const M10&,const C10&,double,Eigen::Matrix3d&); } }
static transformation_t pose(const M3&R,const V3&t){ transformation_t T; T.block<3,3>(0,0)=R; T.col(3)=t; return T; }
static S10 prods(const Q4&q){ static const int p[10][2]={{0,0},{1,1},{2,2},{3,3},{0,1},{0,2},{0,3},{1,2},{1,3},{2,3}}; S10 s; for(int i=0;i<10;i++) s[i]=vp_simplify(q[p[i][0]]*q[p[i][1]]); return s; }
// unit quaternion with positive first entry, up to half a turn
static Q4 unitQ(double a,double b,double c){ double n=1+a*a+b*b+c*c; Q4 q; q<<(1-a*a-b*b-c*c)/n,2*a/n,2*b/n,2*c/n; for(int i=0;i<4;i++) q[i]=vp_simplify(q[i]); return q; }
static Q4 tq,decoy; static int calls,place,nDecoy,many;
#ifndef VP_NATIVE
// the objective handed to the solver is a square that vanishes at the true rotation
static void objective(const M10&M,const C10&C,double g){ S10 s=prods(tq); for(int i=0;i<10;i++){ double r=C(0,i); for(int j=0;j<10;j++) r+=M(i,j)*s[j]; vp_check_eq(r,0,"the objective is stationary at the true rotation"); for(int j=0;j<i;j++) vp_check_eq(M(i,j),M(j,i),"the objective is symmetric"); } double r=g; for(int i=0;i<10;i++) r+=C(0,i)*s[i]; vp_check_eq(r,0,"the objective vanishes at the true rotation"); }
static void ret(Quats&q){ calls++; q.clear(); for(int i=0;i<=nDecoy;i++) q.push_back(std::pair<double,Q4>(i==place?0:i,i==place?tq:decoy)); }
static void mainHook(const M10&M,const C10&C,double g,Quats&q){ vp_check(!many,"few points: general solver"); objective(M,C,g); ret(q); }
static void symHook(const M10&M,const C10&C,double g,Quats&q){ vp_check(many,"many points: symmetric solver"); objective(M,C,g); ret(q); }
#endif
// mask: 1 rotation, 2 translation, 4 depths, 8 camera positions, 16 a ray; dec: other stationary points besides the true one
static void upnp(int n,int mask,int dec,int nCam=3){ double a=0.25,b=-0.375,c=0.125; if(mask&1){ a=vp_real("qa",-0.5,0.5); b=vp_real("qb",-0.5,0.5); c=vp_real("qc",-0.5,0.5); } tq=unitQ(a,b,c); Q4 q=tq; M3 Rt=quatRot(q[0],q[1],q[2],q[3]); simp(Rt); M3 R=Rt.transpose(); V3 t; t<<2,-1,0.5; if(mask&2) t=symVec("t",0,5);
  translations_t o; rotations_t C; for(int i=0;i<nCam;i++){ V3 v; v<<1-i,0.5*i,1.5*i-1; if(mask&8) v=symVec("o",i,2); o.push_back(v); C.push_back(fixRot(i+1)); } V3 j0=q3(2,-1,2,3); bearingVectors_t f; points_t p; std::vector<int> id,ci; f.push_back(j0); p.push_back(j0); ci.push_back(nCam-1);
  for(int i=0;i<n;i++){ V3 g=fixUnit(i*2+(i>4)); if((mask&16)&&i==1) g=symUnit("f",0,1); double d=2.5+0.75*((i*3)%4); if(mask&4) d=real("d",i,1,9); V3 P=R*(o[i%nCam]+d*(C[i%nCam]*g))+t; simp(P); f.push_back(g); p.push_back(P); ci.push_back(i%nCam); id.push_back(n-i); }
  many=n>3; calls=0; nDecoy=dec>0; place=0; if(dec) place=vp_choice("place",2); if(dec==2) decoy<<0.1,0.7,-0.7,0.1; else decoy<<0.9,0.3,0.1,0.3; // dec 1: a nearby one, dec 2: points behind
  for(int i=0;i<4;i++) vp_hint(tq[i]); for(int i=0;i<9;i++) vp_hint(Rt(i/3,i%3));
#ifndef VP_NATIVE
  vp_replace("opengv::absolute_pose::modules::upnp_main(",(void*)mainHook); vp_replace("opengv::absolute_pose::modules::upnp_main_sym",(void*)symHook);
#endif
  absolute_pose::NoncentralAbsoluteAdapter ad(f,ci,p,o,C); transformations_t r=absolute_pose::upnp(ad,id); if(vp_symbolic()) vp_check(calls==1,"one objective is solved");
  vp_tol(1e-7);
  if(vp_symbolic()&&!dec){ vp_check(r.size()==1,"one pose per rotation"); checkEq(r[0],pose(R,t),"the true pose is among the results"); }
  else { bool hit=false; double tl=vp_symbolic()?0:1e-7; for(size_t i=0;i<r.size();i++){ bool h=true; transformation_t T=pose(R,t); for(int k=0;k<12;k++) h=h&&(vp_symbolic()?vp_entails_eq(r[i](k%3,k/3),T(k%3,k/3)):std::fabs(r[i](k%3,k/3)-T(k%3,k/3))<tl); hit=hit||h; } vp_check(hit,"the true pose is among the results"); }
  vp_reach("end"); }
HARNESS(upnp_t){ upnp(6,2,0); }
HARNESS(upnp_rot){ upnp(6,1,0); }
HARNESS(upnp_depth){ upnp(6,4,0); }
HARNESS(upnp_offset){ upnp(5,8,0); }
HARNESS(upnp_ray){ upnp(5,16,0); }
HARNESS(upnp_3){ upnp(3,2+4+8,0); }
HARNESS(upnp_4){ upnp(4,2+4,0); }
HARNESS(upnp_near){ upnp(6,2,1); }
HARNESS(upnp_behind){ upnp(6,2,2); }
// products of quaternion entries times the rotation matrix of a point
HARNESS(upnp_phi){ Q4 q; for(int i=0;i<4;i++) q[i]=real("q",i,-1,1); vp_assume_ne(q[0]*q[0]+q[1]*q[1]+q[2]*q[2]+q[3]*q[3],0); double n=q[0]*q[0]+q[1]*q[1]+q[2]*q[2]+q[3]*q[3]; V3 x=symVec("x",0); S10 s; Eigen::Matrix<double,3,10> P; absolute_pose::fill3x10(x,P); absolute_pose::modules::upnp_fill_s(q,s);
  V3 a=P*s,b=n*(quatRot(q[0],q[1],q[2],q[3])*x); for(int i=0;i<3;i++) vp_check_eq(a[i],b[i],"the products of quaternion entries rotate the points"); S10 r=prods(q); for(int i=0;i<10;i++) vp_check_eq(s[i],r[i],"products of quaternion entries"); vp_reach("end"); }
// first and second derivative of the objective in the tangent of the rotations
HARNESS(upnp_polish){ M10 M; C10 C; for(int i=0;i<10;i++){ C(0,i)=real("C",i,-2,2); for(int j=0;j<=i;j++) M(i,j)=M(j,i)=real(i==j?"D":"M",i*10+j,-2,2); } V3 d=symVec("d",0,2); S10 a,b,c; a.setZero(); b.setZero(); c.setZero(); a[0]=1; b[4]=d[0]; b[5]=d[1]; b[6]=d[2]; c[1]=d[0]*d[0]; c[2]=d[1]*d[1]; c[3]=d[2]*d[2]; c[7]=d[0]*d[1]; c[8]=d[0]*d[2]; c[9]=d[1]*d[2]; double dd=d.dot(d);
  double aM=0,cb=0,bM=0,ac=0,cc=0; S10 Ma=M*a,Mb=M*b; for(int i=0;i<10;i++){ aM+=a[i]*Ma[i]; ac+=c[i]*Ma[i]; bM+=b[i]*Mb[i]; cb+=C(0,i)*b[i]; cc+=C(0,i)*c[i]; } double ab=0; for(int i=0;i<10;i++) ab+=a[i]*Mb[i];
  double E0=aM+2*C(0,0),E1=2*ab+2*cb,E2=bM+2*ac+2*cc+2*C(0,0)*dd-2*dd*E0; V3 g; M3 J; absolute_pose::f(M,C,0.5,g); absolute_pose::Jac(M,C,0.5,J); vp_check_eq(g.dot(d),E1,"gradient of the objective"); vp_check_eq(d.dot(J*d),2*E2,"second derivative of the objective"); vp_check_eq(J(0,1),J(1,0),"symmetric"); vp_reach("end"); }
HARNESS(upnp_all){ upnp(6,2+4+8,0); }
// ---- stationary points of the objective: equations, elimination template, action matrix and candidates
static const int symMono[149]={5200,4300,3400,2500,5110,4210,3310,2410,1510,5020,4120,3220,2320,1420,4030,3130,2230,1330,3040,2140,1240,2050,1150,5101,4201,3301,2401,1501,5011,4111,3211,2311,1411,4021,3121,2221,1321,3031,2131,1231,2041,1141,5002,4102,3202,2302,1402,4012,3112,2212,1312,3022,2122,1222,2032,1132,4003,3103,2203,1303,3013,2113,1213,2023,1123,3004,2104,1204,2014,1114,5000,4100,3200,2300,1400,4010,3110,2210,1310,410,3020,2120,1220,320,2030,1130,230,1040,140,50,4001,3101,2201,1301,401,3011,2111,1211,311,2021,1121,221,1031,131,41,3002,2102,1202,302,2012,1112,212,1022,122,32,2003,1103,203,1013,113,23,1004,104,14,5,3000,2100,1200,300,2010,1110,210,1020,120,30,2001,1101,201,1011,111,21,1002,102,12,3,1000,100,10,1};
static const int genMono[412]={8000,7100,6200,5300,4400,3500,2600,7010,6110,5210,4310,3410,2510,1610,6020,5120,4220,3320,2420,1520,5030,4130,3230,2330,1430,4040,3140,2240,1340,3050,2150,1250,2060,7001,6101,5201,4301,3401,2501,1601,6011,5111,4211,3311,2411,1511,5021,4121,3221,2321,1421,4031,3131,2231,1331,3041,2141,1241,2051,6002,5102,4202,3302,2402,1502,5012,4112,3212,2312,1412,4022,3122,2222,1322,3032,2132,1232,2042,5003,4103,3203,2303,1403,4013,3113,2213,1313,3023,2123,1223,2033,4004,3104,2204,1304,3014,2114,1214,2024,3005,2105,7000,6100,5200,4300,3400,2500,1600,6010,5110,4210,3310,2410,1510,610,5020,4120,3220,2320,1420,520,4030,3130,2230,1330,430,3040,2140,1240,340,2050,1150,250,1060,6001,5101,4201,3301,2401,1501,601,5011,4111,3211,2311,1411,511,4021,3121,2221,1321,421,3031,2131,1231,331,2041,1141,241,1051,5002,4102,3202,2302,1402,502,4012,3112,2212,1312,412,3022,2122,1222,322,2032,1132,232,1042,4003,3103,2203,1303,403,3013,2113,1213,313,2023,1123,223,1033,3004,2104,1204,304,2014,1114,214,1024,2005,1105,205,6000,5100,4200,3300,2400,1500,600,5010,4110,3210,2310,1410,510,4020,3120,2220,1320,420,3030,2130,1230,330,2040,1140,240,1050,150,60,5001,4101,3201,2301,1401,501,4011,3111,2211,1311,411,3021,2121,1221,321,2031,1131,231,1041,141,51,4002,3102,2202,1302,402,3012,2112,1212,312,2022,1122,222,1032,132,42,3003,2103,1203,303,2013,1113,213,1023,123,33,2004,1104,204,1014,114,24,1005,105,5000,4100,3200,2300,1400,500,4010,3110,2210,1310,410,3020,2120,1220,320,2030,1130,230,1040,140,50,4001,3101,2201,1301,401,3011,2111,1211,311,2021,1121,221,1031,131,41,3002,2102,1202,302,2012,1112,212,1022,122,32,2003,1103,203,1013,113,23,1004,104,14,5,4000,3100,2200,1300,400,3010,2110,1210,310,2020,1120,220,1030,130,40,3001,2101,1201,301,2011,1111,211,1021,121,31,2002,1102,202,1012,112,22,1003,103,13,3000,2100,1200,300,2010,1110,210,1020,120,30,2001,1101,201,1011,111,21,2000,1100,200,1010,1205,4,1002,102,12,3,110,20,1001,101,11,2,1000,100,10,1,0};
static VX em; static double ee; static int slot,eigs2,gjs; static VX colm; static int nRow,first; static bool symm;
static double monoVal(int e){ int p[4]={e/1000,e/100%10,e/10%10,e%10}; double r=1; for(int i=0;i<4;i++) for(int k=0;k<p[i];k++) r*=tq[i]; return r; }
// other stationary points: unit quaternions, real or complex pairs
static Q4 other(int j){ Q4 q; static const int t[5][5]={{1,2,2,4,5},{4,-2,1,2,5},{2,4,-1,2,5},{1,1,7,7,10},{1,-5,-5,7,10}}; for(int i=0;i<4;i++) q[i]=(double)t[j%5][i]/t[j%5][4]; return q; }
#ifndef VP_NATIVE
static void gjHook(std::vector<std::vector<double>*>&A,int stop){ gjs++; int nc=A[0]->size(); if((int)A.size()!=nRow||nc!=colm.size()){ vp_fail("size of the elimination template"); vp_stop(); }
  for(int r=0;r<nRow;r++){ double s=0; bool any=false; for(int c=0;c<nc;c++){ double x=(*A[r])[c]; if(vp_isconst(x)&&vp_num(x)==0) continue; any=true; s+=x*colm[c]; } vp_check(any,"every row of the template is used"); if(!vp_entails_eq(s,0)){ vp_fail("every equation of the template vanishes at the true rotation"); vp_stop(); } }
  for(int r=0;r<nRow;r++) for(int c=0;c<nc;c++) (*A[r])[c]=r==c?1:0; for(int r=stop;r<nRow;r++){ double s=colm[r]; for(int c=nRow;c<nc-1;c++){ double x=c<first?0:((r*7+c*5)%11-5)/4.0+0.125; (*A[r])[c]=x; s+=x*colm[c]; } (*A[r])[nc-1]=vp_simplify(-s/colm[nc-1]); } }
// exact inverse of the leading block
static bool inv(const MX&A,const MX&B,MX&X){ int n=A.rows(),m=B.cols(); MX a=A,b=B; for(int c=0;c<n;c++){ int p=c; while(p<n&&vp_entails_eq(a(p,c),0)) p++; if(p==n) return false; if(p!=c) for(int j=0;j<n;j++){ std::swap(a(p,j),a(c,j)); if(j<m) std::swap(b(p,j),b(c,j)); } double d=a(c,c); for(int j=0;j<n;j++) a(c,j)=vp_simplify(a(c,j)/d); for(int j=0;j<m;j++) b(c,j)=vp_simplify(b(c,j)/d);
    for(int r=0;r<n;r++) if(r!=c){ double k=a(r,c); for(int j=0;j<n;j++) a(r,j)=vp_simplify(a(r,j)-k*a(c,j)); for(int j=0;j<m;j++) b(r,j)=vp_simplify(b(r,j)-k*b(c,j)); } } X=b; return true; }
static bool ueig(const MX&A,vphook::VXc&D,vphook::MXc&V){ int n=A.rows(); if(n!=em.size()) return false; eigs2++; VX r=A*em; for(int i=0;i<n;i++) if(!vp_entails_eq(r[i],ee*em[i])){ vp_fail("the true rotation solves the reduced system"); vp_stop(); }
  D.resize(n); V.resize(n,n); double c=vp_choice("flip",2)?-0.5:0.5; for(int j=0;j<n;j++){ bool t=j==slot||(!symm&&j==(slot+3)%n); double sg=j==slot?1:-1; D[j]=t?ee*(symm?1:sg):1.5+j; Q4 q=other(j<slot?j:j-1); for(int i=0;i<n;i++) V(i,j)=0; for(int i=0;i<4;i++) V((symm?4:11)+i,j)=std::complex<double>(t?c*sg*tq[i]:(j%3+1)*0.5*q[i],0); if(t) for(int i=0;i<n;i++) if(i<(symm?4:11)||i>14) V(i,j)=std::complex<double>(c*em[i],0); }
  return true; }
#endif
// the objective: a sum of squares that vanishes at the true rotation, with symbolic weights
static void action(int sy,int cfg,int mask){ symm=sy; static const double qq[3][3]={{0.25,-0.5,0.375},{-0.125,0.25,-0.625},{0.5,0.375,-0.25}}; tq=unitQ(qq[cfg][0],qq[cfg][1],qq[cfg][2]); S10 s=prods(tq); M10 M; C10 C; M.setZero(); double w[12]; for(int k=0;k<(sy?12:3);k++){ w[k]=1; if((mask&1)&&k==2) w[k]=vp_real("w",0.5,1); S10 a; for(int i=0;i<10;i++) a[i]=((i*i*(k+1)+i*(k*3+2)+k*k+cfg*i)%9)-4; for(int i=0;i<10;i++) for(int j=0;j<10;j++) M(i,j)+=w[k]*a[i]*a[j]; }
  S10 Ms=M*s; double g=0; for(int i=0;i<10;i++){ for(int j=0;j<10;j++) M(i,j)=vp_simplify(M(i,j)); C(0,i)=vp_simplify(-Ms[i]); g+=s[i]*Ms[i]; } g=vp_simplify(g);
  nRow=sy?141:395; first=sy?141:396; int nc=sy?149:412; colm.resize(nc); for(int c=0;c<nc;c++) colm[c]=monoVal(sy?symMono[c]:genMono[c]); int nb=nc-first; em.resize(nb); for(int i=0;i<nb;i++) em[i]=colm[first+i]; ee=sy?tq[3]*tq[3]:tq[3]; eigs2=gjs=0; slot=vp_choice("slot",3)*(sy?3:6);
#ifndef VP_NATIVE
  vphook::eig=ueig; vphook::lsolve=inv; vp_replace("opengv::math::gauss_jordan",(void*)gjHook);
#endif
  Quats r; if(sy) absolute_pose::modules::upnp_main_sym(M,C,g,r); else absolute_pose::modules::upnp_main(M,C,g,r); if(vp_symbolic()){ vp_check(gjs==1&&eigs2==1,"one elimination and one eigen-decomposition"); }
  vp_tol(1e-5); int hits=0; double last=0; for(size_t i=0;i<r.size();i++){ Q4 q=r[i].second; S10 p=prods(q); S10 Mp=M*p; double v=g,n=0; for(int k=0;k<10;k++) v+=p[k]*Mp[k]+2*C(0,k)*p[k]; for(int k=0;k<4;k++) n+=q[k]*q[k]; vp_check_eq(n,1,"unit quaternions are returned"); if(vp_symbolic()||r[i].first<1) vp_check_eq(r[i].first,v,"candidates carry the value of the objective"); if(i) vp_check_le(last,r[i].first,"candidates are sorted by the objective"); last=r[i].first; bool h=true; double e=0; for(int k=0;k<4;k++) e+=q[k]*tq[k]; if(vp_symbolic()) h=vp_entails_eq(e*e,1); else h=std::fabs(e*e-1)<1e-5; if(h) hits++; if(i==0&&(sy||vp_symbolic())) vp_check(h,"the true rotation has the smallest value"); }
  vp_check(hits>=1,"the true rotation is among the candidates"); if(!sy&&vp_symbolic()) vp_check(hits==1,"solutions are not repeated"); vp_reach("end"); }
HARNESS(upnp_sym0){ action(1,0,0); }
HARNESS(upnp_sym1){ action(1,1,0); }
HARNESS(upnp_symw){ action(1,2,1); }
HARNESS(upnp_gen0){ action(0,0,0); }
HARNESS(upnp_gen1){ action(0,1,0); }
HARNESS(upnp_genw){ action(0,2,1); }
