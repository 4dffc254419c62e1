// Rotation parametrisations, absolute orientation kernel, Gauss-Jordan elimination.
#include "vp.hpp"
#include <opengv/math/cayley.hpp>
#include <opengv/math/quaternion.hpp>
#include <opengv/math/arun.hpp>
#include <opengv/math/gauss_jordan.hpp>
using namespace opengv; using namespace vp;

HARNESS(cayley_roundtrip){
  V3 c=vec("c",-50,50);
  M3 R=math::cayley2rot(c);
  checkRotation(R,"cayley2rot gives a proper rotation");
  checkEq(R,cayleyRot(c[0],c[1],c[2]),"cayley2rot is the rotation of its parameters");
  M3 Rr=math::cayley2rot_reduced(c); double s=1+c[0]*c[0]+c[1]*c[1]+c[2]*c[2];
  checkEq(Rr,M3(s*R),"reduced form equals scaled rotation");
  V3 c2=math::rot2cayley(R); checkEq(c2,c,"rot2cayley inverts cayley2rot");
  vp_reach("end");
}
// rot2cayley then cayley2rot, for a rotation given independently of the Cayley map
HARNESS(cayley_from_quaternion){
  double w=vp_real("w",0.03125,1),x=vp_real("x",-1,1),y=vp_real("y",-1,1),z=vp_real("z",-1,1);
  M3 R=quatRot(w,x,y,z);
  V3 c=math::rot2cayley(R);
  V3 e; e<<x/w,y/w,z/w;
  checkEq(c,e,"rot2cayley gives the Cayley parameters of the rotation");
  checkEq(math::cayley2rot(c),R,"cayley2rot inverts rot2cayley");
  vp_reach("end");
}
HARNESS(quaternion_to_rotation){
  // unit quaternion, stereographic
  double a=vp_real("a",-9,9),b=vp_real("b",-9,9),c=vp_real("c",-9,9); double n=1+a*a+b*b+c*c;
  quaternion_t q; q[0]=(2-n)/n; q[1]=2*a/n; q[2]=2*b/n; q[3]=2*c/n;
  M3 R=math::quaternion2rot(q);
  checkRotation(R,"quaternion2rot gives a proper rotation");
  checkEq(R,quatRot(q[0],q[1],q[2],q[3]),"quaternion2rot is the rotation of the quaternion");
  quaternion_t m=-q; checkEq(math::quaternion2rot(m),R,"q and -q are the same rotation");
  vp_reach("end");
}
static void quatBack(double w,double x,double y,double z){
  M3 R=quatRot(w,x,y,z); simp(R);
  quaternion_t q=math::rot2quaternion(R);
  double s=0; for(int i=0;i<4;i++) { vp_check(vp_finite(q[i]),"rot2quaternion is finite"); if(!vp_finite(q[i])) return; s+=q[i]*q[i]; }
  vp_check_eq(s,1,"rot2quaternion gives a unit quaternion");
  checkEq(math::quaternion2rot(q),R,"quaternion2rot inverts rot2quaternion");
  vp_reach("end");
}
// pattern: which components vanish; one component is scaled to 1
HARNESS(quaternion_from_rotation){
  vp_divfork(1);
  int k=vp_choice("largest",4); double v[4]; const char*nm[4]={"q0","q1","q2","q3"};
  int zero=vp_choice("vanishing",8); int b=0;
  for(int i=0;i<4;i++){ if(i==k) v[i]=1; else { bool zr=(zero>>b)&1; b++; v[i]=zr?0.0:vp_real(nm[i],-1,1); if(!zr) vp_assume_ne(v[i],0); } }
  quatBack(v[0],v[1],v[2],v[3]);
}
// ---- arun: any decomposition the SVD may legitimately return
static M3 gU,gV; static V3 gD; static bool svdUsed;
static bool svdHook(const Eigen::MatrixXd&A,Eigen::MatrixXd&U,Eigen::VectorXd&S,Eigen::MatrixXd&V,unsigned){
  svdUsed=true; M3 H=gU*gD.asDiagonal()*gV.transpose();
  if(A.rows()!=3||A.cols()!=3||!entailsEq(A,H)){ vp_fail("decomposed matrix is the correlation matrix"); vp_stop(); }
  U=gU; V=gV; S=gD; return true; }
// rotation that best aligns: V diag(1,1,det) U^T
HARNESS(arun_kernel){
  double a=vp_real("a",-3,3),b=vp_real("b",-3,3),c=vp_real("c",-3,3),d=vp_real("d",-3,3),e=vp_real("e",-3,3),f=vp_real("f",-3,3);
  int mirrorU=vp_choice("mirrorU",2), mirrorV=vp_choice("mirrorV",2);
  gU=cayleyRot(a,b,c); gV=cayleyRot(d,e,f); if(mirrorU) gU=-gU; if(mirrorV) gV=-gV;
  double s3=vp_real("s3",0.0625,1),d2=vp_real("d2",0.0625,1),d1=vp_real("d1",0.0625,1); gD<<s3+d2+d1,s3+d2,s3;
  M3 H=gU*gD.asDiagonal()*gV.transpose();
  Eigen::MatrixXd Hx=H;
#ifndef VP_NATIVE
  vphook::svd=svdHook;
#endif
  M3 R=math::arun(Hx);
  checkRotation(R,"result is a proper rotation");
  V3 sg; sg<<1,1,(mirrorU!=mirrorV)?-1.0:1.0;
  checkEq(R,M3(gV*sg.asDiagonal()*gU.transpose()),"result maximises the correlation among rotations");
  vp_reach("end");
}
// ---- gauss_jordan: the row space is preserved and the trailing square block becomes the identity
// entries selected by the mask are symbolic, the others are fixed nonzero or zero integers
static double det(const std::vector<std::vector<double> >&m,std::vector<int> cols,int row){ if(cols.empty()) return 1; double s=0; for(size_t k=0;k<cols.size();k++){ std::vector<int> c=cols; c.erase(c.begin()+k); double e=m[row][cols[k]]; if(vp_isconst(e)&&e==0) continue; double d=e*det(m,c,row+1); s+=(k&1)?-d:d; } return s; }
static void gj(int n,int m,int exitCond,const char*mask){
  vp_zerotol(1); vp_divfork(1);
  static const int fix[4][6]={{2,-3,1,5,-1,4},{0,7,-2,3,6,-5},{4,1,0,-6,2,3},{-5,2,8,1,0,7}};
  std::vector<std::vector<double>*> A; std::vector<std::vector<double> > O;
  for(int i=0;i<n;i++){ std::vector<double>*r=new std::vector<double>; for(int j=0;j<m;j++){ char s[32]; snprintf(s,32,"a%d_%d",i,j); r->push_back(mask[i*m+j]=='s'?vp_real(s,-8,8):(double)fix[i][j]); } A.push_back(r); O.push_back(*r); }
  { std::vector<int> c; for(int i=0;i<n;i++) c.push_back(i); vp_assume_ne(vp_simplify(det(O,c,0)),0); } // the leading square block is regular: no exchange order may then end in a zero pivot
  math::gauss_jordan(A,exitCond);
  vp_check((int)A.size()==n,"row count is kept");
  // rows at and below the exit condition are fully reduced, all rows are upper triangular with unit diagonal
  for(int i=0;i<n;i++) for(int j=0;j<n;j++){ if(j<i||(j>i&&i>=exitCond&&j>exitCond&&j<n)) vp_check_eq((*A[i])[j],0,"eliminated entries are zero"); if(j==i) vp_check_eq((*A[i])[j],1,"pivot entries are one"); }
  // null space: x solved from the reduced system (back substitution) solves the original one, for every right-hand column
  for(int k=n;k<m;k++){ std::vector<double> x(n); for(int i=n-1;i>=0;i--){ double s=(*A[i])[k]; for(int j=i+1;j<n;j++) s-=(*A[i])[j]*x[j]; x[i]=s; }
    for(int i=0;i<n;i++){ double s=0; for(int j=0;j<n;j++) s+=O[i][j]*x[j]; vp_check_eq(s,O[i][k],"reduced system has the solution of the original one"); } }
  vp_reach("end");
}
HARNESS(gauss_jordan_2x3){ gj(2,3,0,"ssssss"); }
HARNESS(gauss_jordan_2x4){ gj(2,4,0,"ssscs" "ssc"); }
HARNESS(gauss_jordan_3x4_col0){ gj(3,4,0,"sccc" "sccs" "sccc"); }
HARNESS(gauss_jordan_3x4_diag){ gj(3,4,0,"sccc" "cscc" "ccss"); }
HARNESS(gauss_jordan_3x4_row2){ gj(3,4,0,"cccc" "cccc" "ssss"); }
HARNESS(gauss_jordan_3x5_exit1){ gj(3,5,1,"scccs" "csccc" "cccsc"); }
HARNESS(gauss_jordan_4x6_exit1){ gj(4,6,1,"cccccs" "csccsc" "cccccc" "ccsccc"); }
HARNESS(gauss_jordan_4x5_exit2){ gj(4,5,2,"ccccc" "scccc" "ccscc" "cccsc"); }
