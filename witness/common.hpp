#pragma once
#include <Eigen/Dense>
#include <complex>
#include <vector>
namespace W {
inline double re(double x) { return x; }
inline double im(double) { return 0; }
inline double re(const std::complex<double> &x) { return x.real(); }
inline double im(const std::complex<double> &x) { return x.imag(); }
template <class M>
static void put(const M &m, double *o) {
  long k = 0;
  for (long j = 0; j < m.cols(); ++j)
    for (long i = 0; i < m.rows(); ++i) {
      o[k++] = re(m(i, j));
      o[k++] = im(m(i, j));
    }
}
template <class V>
static void put3(const V &v, double *o) { for (int i = 0; i < 3; ++i) o[i] = v(i); }
inline void get(double &x, const double *p) { x = p[0]; }
inline void get(std::complex<double> &x, const double *p) { x = std::complex<double>(p[0], p[1]); }
}  // namespace W
