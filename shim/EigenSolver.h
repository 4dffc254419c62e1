#ifndef EIGEN_EIGENSOLVER_H
#define EIGEN_EIGENSOLVER_H
#include "./RealSchur.h"
#include "vphooks.hpp"
namespace Eigen {
template<typename _MatrixType> class EigenSolver {
public:
  typedef _MatrixType MatrixType; enum { N=MatrixType::RowsAtCompileTime, RowsAtCompileTime=N, ColsAtCompileTime=N, Options=MatrixType::Options, MaxRowsAtCompileTime=MatrixType::MaxRowsAtCompileTime, MaxColsAtCompileTime=MatrixType::MaxColsAtCompileTime };
  typedef double RealScalar; typedef typename MatrixType::Scalar Scalar; typedef std::complex<double> ComplexScalar;
  typedef Matrix<ComplexScalar,N,1> EigenvalueType; typedef Matrix<ComplexScalar,N,N> EigenvectorsType;
  EigenvalueType D; EigenvectorsType V; bool ok;
  EigenSolver():ok(false){}
  explicit EigenSolver(const MatrixType&A,bool c=true){ compute(A,c); }
  EigenSolver&compute(const MatrixType&A,bool=true){ vphook::MX a=A; vphook::VXc d; vphook::MXc v; ok=vphook::eig&&vphook::eig(a,d,v); if(ok){ D=d; V=v; } return *this; }
  const EigenvalueType&eigenvalues() const { if(!ok) vphook::missing("eigen"); return D; }
  EigenvectorsType eigenvectors() const { if(!ok) vphook::missing("eigen"); return V; }
  ComputationInfo info() const { return Success; }
};
}
#endif
