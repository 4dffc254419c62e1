#ifndef EIGEN_JACOBISVD_H
#define EIGEN_JACOBISVD_H
#include "vphooks.hpp"
namespace Eigen {
template<typename _MatrixType, int QRPreconditioner> class JacobiSVD {
public:
  typedef _MatrixType MatrixType; typedef typename MatrixType::Scalar Scalar; typedef double RealScalar;
  enum { RowsAtCompileTime=MatrixType::RowsAtCompileTime, ColsAtCompileTime=MatrixType::ColsAtCompileTime };
  typedef Matrix<double,RowsAtCompileTime,RowsAtCompileTime> MatrixUType; typedef Matrix<double,ColsAtCompileTime,ColsAtCompileTime> MatrixVType; typedef Matrix<double,Dynamic,1> SingularValuesType;
  vphook::MX A; MatrixXd U,V; SingularValuesType S; bool ok;
  JacobiSVD(){} explicit JacobiSVD(Index,Index,unsigned=0){}
  explicit JacobiSVD(const MatrixType&m,unsigned o=0){ compute(m,o); }
  JacobiSVD&compute(const MatrixType&m,unsigned o){ A=m; if(!vphook::svd||!vphook::svd(A,U,S,V,o)) ok=false; else ok=true; return *this; }
  JacobiSVD&compute(const MatrixType&m){ return compute(m,0); }
  const MatrixXd&matrixU() const { if(!ok) vphook::missing("svd"); return U; }
  const MatrixXd&matrixV() const { if(!ok) vphook::missing("svd"); return V; }
  const SingularValuesType&singularValues() const { if(!ok) vphook::missing("svd"); return S; }
  template<class B> MatrixXd solve(const MatrixBase<B>&b) const { vphook::MX X; vphook::MX bb=b; if(!vphook::lstsq||!vphook::lstsq(A,bb,X)) vphook::missing("least squares"); return X; }
  bool computeU() const {return true;} bool computeV() const {return true;} Index rows() const {return A.rows();} Index cols() const {return A.cols();}
};
template<typename Derived> JacobiSVD<typename MatrixBase<Derived>::PlainObject> MatrixBase<Derived>::jacobiSvd(unsigned int o) const { return JacobiSVD<PlainObject>(*this,o); }
}
#endif
