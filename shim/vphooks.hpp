// Contract points that replace Eigen's iterative / pivoted decompositions in the
// symbolic build. Each hook is set by the harness; it must justify its answer with
// vp_entails_eq (the contract is checked, not assumed) before returning it.
#ifndef VP_HOOKS_HPP
#define VP_HOOKS_HPP
#include <complex>
namespace vphook {
typedef Eigen::Matrix<double,Eigen::Dynamic,Eigen::Dynamic> MX;
typedef Eigen::Matrix<double,Eigen::Dynamic,1> VX;
typedef Eigen::Matrix<std::complex<double>,Eigen::Dynamic,Eigen::Dynamic> MXc;
typedef Eigen::Matrix<std::complex<double>,Eigen::Dynamic,1> VXc;
struct LMProblem { double ftol,xtol; long maxfev; LMProblem():ftol(0),xtol(0),maxfev(0){} virtual int inputs() const=0; virtual int values() const=0; virtual void eval(const VX&x,VX&f)=0; virtual ~LMProblem(){} };
// svd: fill U (m x m), S (min), V (n x n) ; return false when no contract answer exists
inline bool (*svd)(const MX&A,MX&U,VX&S,MX&V,unsigned opts)=0;
inline bool (*eig)(const MX&A,VXc&D,MXc&V)=0;
inline bool (*lsolve)(const MX&A,const MX&B,MX&X)=0;     // X = A^-1 B
inline bool (*lstsq)(const MX&A,const MX&B,MX&X)=0;      // JacobiSVD::solve
inline bool (*lm)(LMProblem&p,VX&x)=0;
[[noreturn]] void missing(const char*what);
}
#endif
