// Stand-in for libnabo, which is not installed here: the part of its interface
// that the registration code uses, with exact nearest neighbours.
#ifndef VERIF_SHIM_NABO_H_
#define VERIF_SHIM_NABO_H_

#include <Eigen/Core>
#include <algorithm>
#include <limits>
#include <stdexcept>
#include <vector>

namespace Nabo {

template <typename T>
struct NearestNeighbourSearch {
  typedef Eigen::Matrix<T, Eigen::Dynamic, 1> Vector;
  typedef Eigen::Matrix<T, Eigen::Dynamic, Eigen::Dynamic> Matrix;
  typedef int Index;
  typedef Eigen::Matrix<Index, Eigen::Dynamic, 1> IndexVector;
  typedef Eigen::Matrix<Index, Eigen::Dynamic, Eigen::Dynamic> IndexMatrix;

  enum SearchType { BRUTE_FORCE = 0, KDTREE_LINEAR_HEAP, KDTREE_TREE_HEAP };
  enum SearchOptionFlags { ALLOW_SELF_MATCH = 1, SORT_RESULTS = 2 };

  static constexpr Index InvalidIndex = -1;
  static constexpr T InvalidValue = std::numeric_limits<T>::infinity();

  static NearestNeighbourSearch* create(const Matrix& cloud, const Index dim = 3,
                                        const SearchType = KDTREE_LINEAR_HEAP) {
    if (cloud.cols() == 0) throw std::runtime_error("nabo: cloud has no points");
    return new NearestNeighbourSearch(cloud, dim);
  }
  virtual ~NearestNeighbourSearch() {}

  unsigned long knn(const Matrix& query, IndexMatrix& indices, Matrix& dists2, const Index k = 1, const T = 0,
                    const unsigned = 0, const T max_radius = std::numeric_limits<T>::infinity()) const {
    if (k != 1) throw std::runtime_error("nabo stand-in: one neighbour only");
    for (int q = 0; q < query.cols(); ++q) {
      T best = max_radius * max_radius;
      int at = InvalidIndex;
      Find(0, static_cast<int>(order_.size()), 0, query.col(q), &best, &at);
      indices(0, q) = at;
      dists2(0, q) = at < 0 ? InvalidValue : best;
    }
    return query.cols();
  }

 private:
  NearestNeighbourSearch(const Matrix& cloud, int dim) : cloud_(cloud), dim_(dim), order_(cloud.cols()) {
    for (size_t i = 0; i < order_.size(); ++i) order_[i] = i;
    Build(0, static_cast<int>(order_.size()), 0);
  }
  void Build(int b, int e, int axis) {
    if (e - b < 2) return;
    const int m = (b + e) / 2;
    std::nth_element(order_.begin() + b, order_.begin() + m, order_.begin() + e,
                     [&](int x, int y) { return cloud_(axis, x) < cloud_(axis, y); });
    Build(b, m, (axis + 1) % dim_);
    Build(m + 1, e, (axis + 1) % dim_);
  }
  template <typename Q>
  void Find(int b, int e, int axis, const Q& q, T* best, int* at) const {
    if (b >= e) return;
    const int m = (b + e) / 2;
    T d = 0;
    for (int k = 0; k < dim_; ++k) {
      const T x = cloud_(k, order_[m]) - q(k);
      d += x * x;
    }
    if (d < *best) {
      *best = d;
      *at = order_[m];
    }
    const T off = q(axis) - cloud_(axis, order_[m]);
    const int next = (axis + 1) % dim_;
    if (off < 0) {
      Find(b, m, next, q, best, at);
      if (off * off < *best) Find(m + 1, e, next, q, best, at);
    } else {
      Find(m + 1, e, next, q, best, at);
      if (off * off < *best) Find(b, m, next, q, best, at);
    }
  }

  const Matrix cloud_;
  const int dim_;
  std::vector<int> order_;
};

template <typename T>
constexpr T NearestNeighbourSearch<T>::InvalidValue;
template <typename T>
constexpr int NearestNeighbourSearch<T>::InvalidIndex;

typedef NearestNeighbourSearch<float> NNSearchF;
typedef NearestNeighbourSearch<double> NNSearchD;

}  // namespace Nabo

#endif  // VERIF_SHIM_NABO_H_
