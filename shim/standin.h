// What the stand-in of the pointmatcher registration does when it is asked to
// align two clouds.
#ifndef VERIF_SHIM_STANDIN_H_
#define VERIF_SHIM_STANDIN_H_
#include <Eigen/Core>
#include <functional>
#include "builder/data/cloud_types.h"
namespace standin {
using Cloud = static_map::data::InnerPointCloudData::Ptr;
// (source, target, guess, result) -> score.  Without one, a plain point-to-point
// alignment is computed.
using Align = std::function<double(const Cloud&, const Cloud&, const Eigen::Matrix4d&, Eigen::Matrix4d*)>;
Align& Hook();
}  // namespace standin
#endif  // VERIF_SHIM_STANDIN_H_
