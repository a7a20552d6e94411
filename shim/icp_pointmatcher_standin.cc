#include <Eigen/SVD>
#include <algorithm>
#include <cmath>
#include "nabo/nabo.h"
#include "registrators/icp_pointmatcher.h"
#include "standin.h"

namespace standin {
Align& Hook() {
  static Align hook;
  return hook;
}

static Eigen::MatrixXd Points(const Cloud& c) {
  auto in = c->GetInnerCloud();
  Eigen::MatrixXd m(3, in->points.size());
  for (size_t i = 0; i < in->points.size(); ++i) m.col(i) << in->points[i].x, in->points[i].y, in->points[i].z;
  return m;
}

static double Plain(const Cloud& source, const Cloud& target, const Eigen::Matrix4d& guess, Eigen::Matrix4d* result) {
  const Eigen::MatrixXd s = Points(source), t = Points(target);
  *result = guess;
  if (s.cols() == 0 || t.cols() == 0) return 0;
  std::unique_ptr<Nabo::NNSearchD> tree(Nabo::NNSearchD::create(t, 3));
  Eigen::MatrixXi id(1, s.cols());
  Eigen::MatrixXd d(1, s.cols());
  double mean = 0;
  for (int iter = 0; iter < 80; ++iter) {
    const Eigen::MatrixXd moved = (result->topLeftCorner<3, 3>() * s).colwise() + result->topRightCorner<3, 1>();
    tree->knn(moved, id, d, 1);
    std::vector<int> keep(s.cols());
    for (size_t i = 0; i < keep.size(); ++i) keep[i] = i;
    std::sort(keep.begin(), keep.end(), [&](int a, int b) { return d(0, a) < d(0, b); });
    keep.resize(std::max<size_t>(1, keep.size() * 7 / 10));
    Eigen::Vector3d ms = Eigen::Vector3d::Zero(), mt = ms;
    mean = 0;
    for (int i : keep) {
      ms += moved.col(i);
      mt += t.col(id(0, i));
      mean += std::sqrt(d(0, i));
    }
    ms /= keep.size();
    mt /= keep.size();
    mean /= keep.size();
    Eigen::Matrix3d w = Eigen::Matrix3d::Zero();
    for (int i : keep) w += (t.col(id(0, i)) - mt) * (moved.col(i) - ms).transpose();
    Eigen::JacobiSVD<Eigen::Matrix3d> svd(w, Eigen::ComputeFullU | Eigen::ComputeFullV);
    Eigen::Matrix3d u = svd.matrixU();
    if ((u * svd.matrixV().transpose()).determinant() < 0) u.col(2) *= -1;
    Eigen::Matrix4d step = Eigen::Matrix4d::Identity();
    step.topLeftCorner<3, 3>() = u * svd.matrixV().transpose();
    step.topRightCorner<3, 1>() = mt - step.topLeftCorner<3, 3>() * ms;
    *result = step * *result;
    if ((step - Eigen::Matrix4d::Identity()).norm() < 1e-6) break;
  }
  return std::exp(-mean);
}
}  // namespace standin

namespace static_map {
namespace registrator {

struct IcpUsingPointMatcherMem {
  standin::Cloud source, target;
};

IcpUsingPointMatcher::IcpUsingPointMatcher(const std::string&) : Interface(), inner_(new IcpUsingPointMatcherMem) {
  Interface::type_ = kIcpPM;
}
IcpUsingPointMatcher::~IcpUsingPointMatcher() {}
void IcpUsingPointMatcher::SetInputSource(InnerCloudPtr cloud) {
  if (cloud && !cloud->Empty()) inner_->source = cloud;
}
void IcpUsingPointMatcher::SetInputTarget(InnerCloudPtr cloud) {
  if (cloud && !cloud->Empty()) inner_->target = cloud;
}
bool IcpUsingPointMatcher::Align(const Eigen::Matrix4d& guess, Eigen::Matrix4d& result) {
  Interface::final_score_ = standin::Hook() ? standin::Hook()(inner_->source, inner_->target, guess, &result)
                                            : standin::Plain(inner_->source, inner_->target, guess, &result);
  return Interface::final_score_ >= 0.6;
}

}  // namespace registrator
}  // namespace static_map
