#ifndef EIGEN_NONLINEAROPTIMIZATION_MODULE
#define EIGEN_NONLINEAROPTIMIZATION_MODULE
#include <vector>
#include <Eigen/Core>
#include <Eigen/Jacobi>
#include <Eigen/QR>
#include "vphooks.hpp"
namespace Eigen {
namespace LevenbergMarquardtSpace { enum Status { NotStarted=-2, Running=-1, ImproperInputParameters=0, RelativeReductionTooSmall=1 }; }
template<typename FunctorType, typename Scalar=double> class LevenbergMarquardt {
  struct Prob : public vphook::LMProblem { FunctorType&f; Prob(FunctorType&a):f(a){} int inputs() const { return f.inputs(); } int values() const { return f.values(); }
    void eval(const vphook::VX&x,vphook::VX&r){ typename FunctorType::InputType xi=x; typename FunctorType::ValueType v(f.values()); for(int i=0;i<f.values();i++) v[i]=0; f(xi,v); r=v; } };
public:
  FunctorType&functor;
  struct Parameters { Parameters():factor(100),maxfev(400),ftol(0),xtol(0),gtol(0),epsfcn(0){} Scalar factor; Index maxfev; Scalar ftol,xtol,gtol,epsfcn; } parameters;
  Matrix<Scalar,Dynamic,1> fvec; Index nfev,njev,iter; Scalar fnorm;
  LevenbergMarquardt(FunctorType&f):functor(f),nfev(0),njev(0),iter(0),fnorm(0){}
  void resetParameters(){ parameters=Parameters(); }
  template<class V> LevenbergMarquardtSpace::Status minimize(V&x){ Prob p(functor); p.ftol=parameters.ftol; p.xtol=parameters.xtol; p.maxfev=parameters.maxfev; vphook::VX xx=x; if(!vphook::lm||!vphook::lm(p,xx)) vphook::missing("levenberg-marquardt"); x=xx; return LevenbergMarquardtSpace::RelativeReductionTooSmall; }
  template<class V> LevenbergMarquardtSpace::Status lmder1(V&x,Scalar=0){ return minimize(x); }
};
}
#endif
