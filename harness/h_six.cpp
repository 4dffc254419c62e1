// Six-point generalized relative pose: the true rotation is among the returned ones.
#include "scene.hpp"
#include <opengv/relative_pose/methods.hpp>
#include <opengv/relative_pose/NoncentralRelativeAdapter.hpp>
#include <opengv/relative_pose/modules/sixpt/modules.hpp>
#include <limits>
using namespace opengv; using namespace vp;
static const double NaN=std::numeric_limits<double>::quiet_NaN();
// monomials of the elimination template, exponents of the three Cayley parameters
static const char*tpl="530440350260611521431341251161512422332242152062503413323233143053404314224134044305215125035206116026107017008700610520430340250160070601511421331241151061502412322232142052403313223133043304214124034205115025106016600510420330240150060501411321231141051402312222132042303213123007033204114024105015006500410320230140050401311221131041302212122032203113023104014005400310220130040301211121031202112022103013004300210120030201111021102012003200110020101011002100010001000";
static double pw(double x,int n){ double r=1; for(int i=0;i<n;i++) r*=x; return r; }
static double mono(const V3&x,int a,int b,int c){ return pw(x[0],a)*pw(x[1],b)*pw(x[2],c); }
static VX allMonos(const V3&x){ VX m(157); for(int i=0;i<157;i++) m[i]=vp_simplify(mono(x,tpl[3*i]-'0',tpl[3*i+1]-'0',tpl[3*i+2]-'0')); return m; }
// the 84 monomials of the primary equations: x3 outermost by decreasing total degree
static VX eqMonos(const V3&x){ VX m(84); int k=0; for(int d=6;d>=0;d--) for(int c=0;c<=d;c++) for(int b=0;b<=d-c;b++) m[k++]=vp_simplify(mono(x,d-c-b,b,c)); return m; }
static double quad(const std::vector<double>&c,const V3&x){ return c[0]*x[0]*x[0]+c[1]*x[0]*x[1]+c[2]*x[1]*x[1]+c[3]*x[0]*x[2]+c[4]*x[1]*x[2]+c[5]*x[2]*x[2]+c[6]*x[0]+c[7]*x[1]+c[8]*x[2]+c[9]; }
static V3 X; static VX M157,M84; static MX F; static int eqs,slot; static std::vector<double> firsts;
typedef std::vector<double> VD;
static void rowHook(Eigen::Matrix<double,EQS,84>&M1,int row,const VD(&a)[3],const VD(&b)[3],const VD(&c)[3]){
  M3 q; for(int i=0;i<3;i++){ vp_check(a[i].size()==10&&b[i].size()==10&&c[i].size()==10,"every entry is a quadratic in the rotation parameters"); q(0,i)=vp_simplify(quad(a[i],X)); q(1,i)=vp_simplify(quad(b[i],X)); q(2,i)=vp_simplify(quad(c[i],X)); }
  double d=q(0,0)*(q(1,1)*q(2,2)-q(1,2)*q(2,1))-q(0,1)*(q(1,0)*q(2,2)-q(1,2)*q(2,0))+q(0,2)*(q(1,0)*q(2,1)-q(1,1)*q(2,0)); if(row%7==0||eqs<6) vp_check_eq(d,0,"the equations vanish at the true rotation"); eqs++;
  int k=row%15; for(int j=0;j<84;j++) M1(row,j)=0.5*F(k,j); }
#ifndef VP_NATIVE
static bool lin(const MX&A,const MX&B,MX&S){ if(A.rows()==A.cols()&&A.rows()<93){ for(int i=0;i<A.rows();i++) for(int j=0;j<A.cols();j++) if(!vp_entails_eq(A(i,j),i==j?1:0)) return false; S=B; return true; } if(A.rows()!=93||B.cols()!=64) return false; VX m1=M157.head(93),m2=M157.tail(64); for(int i=0;i<93;i++){ double r=0; for(int j=0;j<93;j++) if(!(vp_isconst(A(i,j))&&vp_num(A(i,j))==0)) r+=A(i,j)*m1[j]; for(int j=0;j<64;j++) if(!(vp_isconst(B(i,j))&&vp_num(B(i,j))==0)) r+=B(i,j)*m2[j]; if(!vp_entails_eq(r,0)){ vp_fail("the elimination template vanishes at the true rotation"); vp_stop(); } }
  S.resize(93,64); for(int i=0;i<93;i++){ double s=m1[i]; for(int j=0;j<63;j++){ S(i,j)=((i*7+j*5)%11-5)/4.0+0.125; s+=S(i,j)*m2[j]; } S(i,63)=vp_simplify(-s); } return true; }
static bool eig(const MX&A,vphook::VXc&D,vphook::MXc&V){ if(A.rows()!=64) return false; VX m2=M157.tail(64); VX r=A*m2; for(int i=0;i<64;i++) if(!vp_entails_eq(r[i],X[2]*m2[i])){ vp_fail("the true rotation's monomials are an eigenvector of the action matrix"); vp_stop(); }
  D.resize(64); V.resize(64,64); double c=vp_fresh("ec",0.5); vp_assume_ne(c,0); for(int j=0;j<64;j++){ bool t=j==slot; D[j]=std::complex<double>(t?X[2]:NaN,t?0:NaN); for(int i=0;i<64;i++) V(i,j)=t?std::complex<double>(c*m2[i],0):std::complex<double>(NaN,NaN); } return true; }
#endif
static V3 off(int k){ static const double t[4][3]={{0.5,-0.25,1},{-1,0.75,0.25},{0.25,1.5,-0.5},{-0.75,-1,-0.5}}; V3 v; v<<t[k%4][0],t[k%4][1],t[k%4][2]; return v; }
// mask: 1 rotation, 2 translation, 4 a ray, 8 a depth, 16 a camera offset ; idx 0: all correspondences, 1: an index list out of more
static void six(int mask,int idx){ V3 c; c<<0.25,-0.5,0.375; if(mask&1) for(int i=0;i<3;i++) c[i]=real("c",i,-1,1); X=c; M3 R=cayleyRot(c[0],c[1],c[2]).transpose(); simp(R); V3 t; t<<1,-0.5,0.75; if(mask&2) t=symVec("t",0,2); translations_t o; rotations_t C; for(int i=0;i<4;i++){ V3 p=off(i); if(i==1&&(mask&16)) p[0]=vp_real("o",-2,2); o.push_back(p); C.push_back(fixRot(i)); }
  // rays have unit length; the second view's camera of correspondence i sits where its fixed ray meets the point
  bearingVectors_t f1,f2; std::vector<int> c1,c2,id; int n=idx?8:6; for(int i=0;i<n;i++){ int a=i%4,b=(i*3+1)%4; V3 g=fixUnit(i),h=fixUnit(i+5); if(i==2&&(mask&4)) g=symUnit("g",0,1); double d=3+0.75*((i*5)%7),e=2+0.5*((i*3)%7); if(i==3&&(mask&8)){ d=vp_real("d",2,6); e=vp_real("e",2,6); } V3 P=o[a]+d*(C[a]*g); simp(P); V3 Q=R.transpose()*(P-t); simp(Q); V3 q=Q-e*(fixRot(b)*h); simp(q); f1.push_back(g); f2.push_back(h); c1.push_back(a); c2.push_back(o.size()); o.push_back(q); C.push_back(fixRot(b)); }
  M157=allMonos(X); M84=eqMonos(X); F.resize(15,84); for(int i=0;i<15;i++){ double s=M84[i]; for(int j=0;j<15;j++) F(i,j)=i==j; for(int j=15;j<83;j++){ F(i,j)=((i*5+j*3)%13-6)/8.0; s+=F(i,j)*M84[j]; } F(i,83)=vp_simplify(-s); } eqs=0; slot=vp_choice("slot",2)*63;
  relative_pose::NoncentralRelativeAdapter ad(f1,f2,c1,c2,o,C);
#ifndef VP_NATIVE
  vphook::lsolve=lin; vphook::eig=eig; vp_replace("opengv::relative_pose::modules::sixpt::fillRow2",(void*)rowHook);
#endif
  vp_tol(1e-3); rotations_t r; if(idx){ static const int q[6]={6,0,3,7,2,5}; for(int i=0;i<6;i++) id.push_back(q[i]); r=relative_pose::sixpt(ad,id); } else r=relative_pose::sixpt(ad);
  if(vp_symbolic()) vp_check(eqs>=15,"at least fifteen equations are set up"); vp_check(countSame(r,R)>=1,"the true rotation is among the solutions"); vp_reach("end"); }
HARNESS(six_rot){ six(1,0); }
HARNESS(six_t){ six(2,0); }
HARNESS(six_ray){ six(4,0); }
HARNESS(six_depth){ six(8,1); }
HARNESS(six_offset){ six(16,1); }
// the equation of a triple of lines is the determinant of their three quadratics, for all coefficients of one line's quadratics
static void det(int sym){ V3 x; x<<vp_real("x",-2,2),vp_real("y",-2,2),vp_real("z",-2,2); VD m[3][3]; for(int k=0;k<3;k++) for(int i=0;i<3;i++) for(int j=0;j<10;j++){ double v=((k*7+i*11+j*5)%17-8)/4.0+0.0625*(j%3); if(k==sym){ char b[32]; snprintf(b,32,"q%d_%d",i,j); v=vp_real(b,-4,4); } m[k][i].push_back(v); }
  Eigen::Matrix<double,EQS,84> M1=Eigen::Matrix<double,EQS,84>::Zero(); relative_pose::modules::sixpt::fillRow2(M1,5,m[0],m[1],m[2]); VX mo=eqMonos(x); double s=0; for(int j=0;j<84;j++) s+=M1(5,j)*mo[j];
  M3 q; for(int k=0;k<3;k++) for(int i=0;i<3;i++) q(k,i)=quad(m[k][i],x); double d=q(0,0)*(q(1,1)*q(2,2)-q(1,2)*q(2,1))-q(0,1)*(q(1,0)*q(2,2)-q(1,2)*q(2,0))+q(0,2)*(q(1,0)*q(2,1)-q(1,1)*q(2,0)); double sg=vp_entails_eq(s,d)?1:-1; vp_check_eq(s,sg*d,"the equation is the determinant of the three lines' quadratics"); vp_reach("end"); }
HARNESS(six_det0){ det(0); }
HARNESS(six_det1){ det(1); }
HARNESS(six_det2){ det(2); }
