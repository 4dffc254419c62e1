#pragma once
#include "vphooks.hpp"
namespace Eigen {
struct VpInv { vphook::MX A; template<class D> MatrixXd operator*(const MatrixBase<D>&b) const { vphook::MX X,B=b; if(!vphook::lsolve||!vphook::lsolve(A,B,X)) vphook::missing("linear solve"); return X; }
  operator MatrixXd() const { return *this * MatrixXd(MatrixXd::Identity(A.rows(),A.cols())); } };
#define VP_LU(CLS,NN) template<> class CLS< Matrix<double,NN,NN> > { public: vphook::MX A; CLS(){} template<class D> explicit CLS(const MatrixBase<D>&m):A(m){} template<class D> CLS&compute(const MatrixBase<D>&m){A=m;return *this;} \
  VpInv inverse() const { VpInv v; v.A=A; return v; } template<class D> MatrixXd solve(const MatrixBase<D>&b) const { VpInv v; v.A=A; return v*b; } bool isInvertible() const { return true; } Index rank() const { return NN; } };
VP_LU(FullPivLU,10) VP_LU(PartialPivLU,10) VP_LU(PartialPivLU,93) VP_LU(FullPivLU,93)
#undef VP_LU
}
