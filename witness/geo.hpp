#pragma once
#include "common.hpp"
namespace W {
// flat unit square patch, bilinear, with exact corner data
template <class Dummy = void>
static Bembel::Geometry unit_square() {
  std::vector<Eigen::MatrixXd> c(4, Eigen::MatrixXd::Zero(2, 2));
  c[0](0, 1) = c[0](1, 1) = 1;
  c[1](1, 0) = c[1](1, 1) = 1;
  c[3].setOnes();
  std::vector<double> k = {0, 0, 1, 1};
  return Bembel::Geometry(Bembel::PatchVector(1, Bembel::Patch(c, k, k)));
}
// bilinear patch with symbolic corner points v[12] (corner order (0,0),(1,0),(0,1),(1,1))
template <class Dummy = void>
static Bembel::Patch bilinear(const double *v) {
  std::vector<Eigen::MatrixXd> c(4, Eigen::MatrixXd::Ones(2, 2));
  for (int d = 0; d < 3; ++d) {
    c[d](0, 0) = v[0 + d];
    c[d](0, 1) = v[3 + d];
    c[d](1, 0) = v[6 + d];
    c[d](1, 1) = v[9 + d];
  }
  std::vector<double> k = {0, 0, 1, 1};
  return Bembel::Patch(c, k, k);
}
}  // namespace W
