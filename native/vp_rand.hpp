// Force-included in native replays: the library's draws come from the counterexample.
#pragma once
#include <cstdlib>
#include <functional>
#include <random>
extern "C" int vp_native_draw(int lo,int hi);
extern "C" int vp_native_rand();
namespace std {
template<class T=int> struct vp_uniform_int_distribution {
  T lo,hi; vp_uniform_int_distribution(T a=0,T b=2147483647):lo(a),hi(b){}
  T a() const { return lo; } T b() const { return hi; } T min() const { return lo; } T max() const { return hi; }
  template<class G> T operator()(G&) { return (T)vp_native_draw((int)lo,(int)hi); }
};
}
inline int vp_rand_ns(){ return vp_native_rand(); }
namespace std { using ::vp_rand_ns; }
#define uniform_int_distribution vp_uniform_int_distribution
#define rand vp_rand_ns
