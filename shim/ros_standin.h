// Stand-ins for the few ROS types the node's source files use.  ROS is not
// installed here; the types below keep the field names, field types and the
// documented behaviour of the originals.
#ifndef VERIF_SHIM_ROS_STANDIN_H_
#define VERIF_SHIM_ROS_STANDIN_H_
#include <cstdint>
#include <deque>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>
#include <boost/array.hpp>
#include <boost/shared_ptr.hpp>
#include "Eigen/Eigen"

namespace ros {
struct Duration {
  int64_t ns = 0;
  Duration() {}
  explicit Duration(double s) : ns(static_cast<int64_t>(s * 1e9 + (s < 0 ? -0.5 : 0.5))) {}
  static Duration Nanoseconds(int64_t n) { Duration d; d.ns = n; return d; }
  double toSec() const { return ns * 1e-9; }
  int64_t toNSec() const { return ns; }
  bool operator<(const Duration& o) const { return ns < o.ns; }
  bool operator>(const Duration& o) const { return ns > o.ns; }
  bool operator<=(const Duration& o) const { return ns <= o.ns; }
  bool operator>=(const Duration& o) const { return ns >= o.ns; }
  bool operator==(const Duration& o) const { return ns == o.ns; }
  bool operator!=(const Duration& o) const { return ns != o.ns; }
};
struct Time {
  uint32_t sec = 0;
  uint32_t nsec = 0;
  Time() {}
  Time(uint32_t s, uint32_t n) : sec(s), nsec(n) {}
  explicit Time(double t) : sec(static_cast<uint32_t>(t)), nsec(static_cast<uint32_t>((t - sec) * 1e9)) {}
  uint64_t toNSec() const { return static_cast<uint64_t>(sec) * 1000000000ull + nsec; }
  double toSec() const { return sec + nsec * 1e-9; }
  bool operator<(const Time& o) const { return toNSec() < o.toNSec(); }
  bool operator>(const Time& o) const { return o < *this; }
  bool operator<=(const Time& o) const { return !(o < *this); }
  bool operator>=(const Time& o) const { return !(*this < o); }
  bool operator==(const Time& o) const { return toNSec() == o.toNSec(); }
  bool operator!=(const Time& o) const { return !(*this == o); }
  Duration operator-(const Time& o) const {
    return Duration::Nanoseconds(static_cast<int64_t>(toNSec()) - static_cast<int64_t>(o.toNSec()));
  }
  Time operator-(const Duration& d) const { return Shift(-d.ns); }
  Time operator+(const Duration& d) const { return Shift(d.ns); }

 private:
  // As the original: a time outside the representable range throws.
  Time Shift(int64_t ns) const {
    const int64_t t = static_cast<int64_t>(toNSec()) + ns;
    if (t < 0 || t / 1000000000ll > 0xffffffffll) throw std::runtime_error("Time is out of dual 32-bit range");
    return Time(static_cast<uint32_t>(t / 1000000000ll), static_cast<uint32_t>(t % 1000000000ll));
  }
};
static const Time TIME_MIN(0, 1);
static const Time TIME_MAX(0xffffffffu, 999999999u);
class NodeHandle {};
}  // namespace ros

namespace std_msgs {
struct Header {
  uint32_t seq = 0;
  ros::Time stamp;
  std::string frame_id;
};
}  // namespace std_msgs

namespace geometry_msgs {
struct Vector3 { double x = 0, y = 0, z = 0; };
struct Point { double x = 0, y = 0, z = 0; };
struct Quaternion { double x = 0, y = 0, z = 0, w = 0; };
struct Pose { Point position; Quaternion orientation; };
struct PoseWithCovariance { Pose pose; boost::array<double, 36> covariance; };
struct Twist { Vector3 linear, angular; };
struct TwistWithCovariance { Twist twist; boost::array<double, 36> covariance; };
struct Transform { Vector3 translation; Quaternion rotation; };
struct TransformStamped { std_msgs::Header header; std::string child_frame_id; Transform transform; };
}  // namespace geometry_msgs

namespace sensor_msgs {
struct Imu {
  std_msgs::Header header;
  geometry_msgs::Quaternion orientation;
  boost::array<double, 9> orientation_covariance;
  geometry_msgs::Vector3 angular_velocity;
  boost::array<double, 9> angular_velocity_covariance;
  geometry_msgs::Vector3 linear_acceleration;
  boost::array<double, 9> linear_acceleration_covariance;
};
struct NavSatStatus { int8_t status = 0; uint16_t service = 0; };
struct NavSatFix {
  std_msgs::Header header;
  NavSatStatus status;
  double latitude = 0, longitude = 0, altitude = 0;
  boost::array<double, 9> position_covariance;
  uint8_t position_covariance_type = 0;
};
}  // namespace sensor_msgs

namespace nav_msgs {
struct Odometry {
  std_msgs::Header header;
  std::string child_frame_id;
  geometry_msgs::PoseWithCovariance pose;
  geometry_msgs::TwistWithCovariance twist;
};
}  // namespace nav_msgs

namespace rosbag {
struct ConnectionInfo { std::string topic; };
class MessageInstance {
 public:
  MessageInstance(const ros::Time& t, const std::string& topic, int id) : time_(t), topic_(topic), id_(id) {}
  const ros::Time& getTime() const { return time_; }
  const std::string& getTopic() const { return topic_; }
  int id() const { return id_; }

 private:
  ros::Time time_;
  std::string topic_;
  int id_;
};
namespace bagmode { enum BagMode { Write = 1, Read = 2, Append = 4 }; }
// The recorded messages of every "file", in time order.
inline std::map<std::string, std::vector<MessageInstance>>& Files() {
  static std::map<std::string, std::vector<MessageInstance>> f;
  return f;
}
class Bag {
 public:
  Bag(const std::string& name, uint32_t mode) : messages(Files().at(name)) {
    if (mode != bagmode::Read) throw std::runtime_error("only reading is supported");
  }
  std::vector<MessageInstance>& messages;
};
class View {
 public:
  class iterator {
   public:
    iterator() {}
    iterator(View* v, size_t i) : v_(v), i_(i) {}
    bool operator==(const iterator& o) const { return i_ == o.i_; }
    bool operator!=(const iterator& o) const { return i_ != o.i_; }
    iterator& operator++() {
      if (i_ >= v_->picked_.size()) throw std::runtime_error("advanced past the end");
      ++i_;
      return *this;
    }
    MessageInstance& operator*() const {
      if (i_ >= v_->picked_.size()) throw std::runtime_error("dereferenced the end");
      return *v_->picked_[i_];
    }

   private:
    View* v_ = nullptr;
    size_t i_ = 0;
  };
  using const_iterator = iterator;
  // Both ends of the range are included, as in rosbag.
  View(const Bag& bag, const ros::Time& start = ros::TIME_MIN, const ros::Time& end = ros::TIME_MAX) {
    std::map<std::string, bool> seen;
    for (auto& m : bag.messages) {
      if (m.getTime() < start || end < m.getTime()) continue;
      picked_.push_back(&m);
    }
    for (auto& m : bag.messages) {
      if (seen.emplace(m.getTopic(), true).second) connections_.push_back(ConnectionInfo{m.getTopic()});
    }
  }
  iterator begin() { return iterator(this, 0); }
  iterator end() { return iterator(this, picked_.size()); }
  ros::Time getBeginTime() { return picked_.empty() ? ros::TIME_MAX : picked_.front()->getTime(); }
  ros::Time getEndTime() { return picked_.empty() ? ros::TIME_MIN : picked_.back()->getTime(); }
  std::vector<const ConnectionInfo*> getConnections() {
    std::vector<const ConnectionInfo*> out;
    for (auto& c : connections_) out.push_back(&c);
    return out;
  }

 private:
  std::vector<MessageInstance*> picked_;
  std::vector<ConnectionInfo> connections_;
};
}  // namespace rosbag

namespace tf2_ros {
// A tree of frames; lookups compose the stored transforms along the tree.
class Buffer {
 public:
  struct Edge {
    std::string parent;
    Eigen::Vector3d t;
    Eigen::Quaterniond q;
  };
  bool setTransform(const geometry_msgs::TransformStamped& s, const std::string& authority, bool is_static = false) {
    (void)authority;
    if (s.child_frame_id.empty() || s.header.frame_id.empty() || s.child_frame_id == s.header.frame_id) return false;
    Edge e;
    e.parent = s.header.frame_id;
    e.t = Eigen::Vector3d(s.transform.translation.x, s.transform.translation.y, s.transform.translation.z);
    e.q = Eigen::Quaterniond(s.transform.rotation.w, s.transform.rotation.x, s.transform.rotation.y,
                             s.transform.rotation.z);
    edges[s.child_frame_id] = e;
    all_static = all_static && is_static;
    return true;
  }
  bool canTransform(const std::string& target, const std::string& source, const ros::Time&,
                    std::string* error = nullptr) const {
    std::string a, b;
    Eigen::Isometry3d x, y;
    const bool ok = Known(target) && Known(source) && (Root(target, &a, &x), Root(source, &b, &y), a == b);
    if (!ok && error) *error = "no such frames or not connected";
    return ok;
  }
  geometry_msgs::TransformStamped lookupTransform(const std::string& target, const std::string& source,
                                                  const ros::Time& t) const {
    if (!canTransform(target, source, t)) throw std::runtime_error("lookup failed");
    std::string a, b;
    Eigen::Isometry3d x, y;
    Root(target, &a, &x);
    Root(source, &b, &y);
    const Eigen::Isometry3d r = x.inverse() * y;
    geometry_msgs::TransformStamped out;
    out.header.frame_id = target;
    out.child_frame_id = source;
    out.transform.translation.x = r.translation().x();
    out.transform.translation.y = r.translation().y();
    out.transform.translation.z = r.translation().z();
    const Eigen::Quaterniond q(r.rotation());
    out.transform.rotation.w = q.w();
    out.transform.rotation.x = q.x();
    out.transform.rotation.y = q.y();
    out.transform.rotation.z = q.z();
    return out;
  }
  std::map<std::string, Edge> edges;
  bool all_static = true;

 private:
  bool Known(const std::string& f) const {
    if (edges.count(f)) return true;
    for (const auto& e : edges) if (e.second.parent == f) return true;
    return false;
  }
  void Root(const std::string& frame, std::string* root, Eigen::Isometry3d* pose) const {
    *root = frame;
    *pose = Eigen::Isometry3d::Identity();
    for (auto it = edges.find(*root); it != edges.end(); it = edges.find(*root)) {
      Eigen::Isometry3d s = Eigen::Isometry3d::Identity();
      s.translate(it->second.t);
      s.rotate(it->second.q);
      *pose = s * *pose;
      *root = it->second.parent;
    }
  }
};
}  // namespace tf2_ros

namespace tf {
struct StampedTransform { Eigen::Isometry3d pose; };
// Answers from a buffer after a number of unanswered waits.
class TransformListener {
 public:
  tf2_ros::Buffer buffer;
  mutable int refuse = 0;
  mutable int waits = 0;
  bool waitForTransform(const std::string& target, const std::string& source, const ros::Time& t,
                        const ros::Duration&, const ros::Duration& = ros::Duration(0.01),
                        std::string* error = nullptr) const {
    ++waits;
    if (refuse > 0) { --refuse; return false; }
    return buffer.canTransform(target, source, t, error);
  }
  void lookupTransform(const std::string& target, const std::string& source, const ros::Time& t,
                       StampedTransform& out) const {  // NOLINT
    const auto s = buffer.lookupTransform(target, source, t);
    out.pose = Eigen::Isometry3d::Identity();
    out.pose.translate(Eigen::Vector3d(s.transform.translation.x, s.transform.translation.y, s.transform.translation.z));
    out.pose.rotate(Eigen::Quaterniond(s.transform.rotation.w, s.transform.rotation.x, s.transform.rotation.y,
                                       s.transform.rotation.z));
  }
};
inline void transformTFToEigen(const StampedTransform& t, Eigen::Isometry3d& e) { e = t.pose; }  // NOLINT
}  // namespace tf

#define URDFDOM_HEADERS_HAS_SHARED_PTR_DEFS 1
namespace urdf {
struct Vector3 { double x = 0, y = 0, z = 0; };
struct Rotation { double x = 0, y = 0, z = 0, w = 1; };
struct Pose { Vector3 position; Rotation rotation; };
struct Joint {
  enum { UNKNOWN, REVOLUTE, CONTINUOUS, PRISMATIC, FLOATING, PLANAR, FIXED } type = UNKNOWN;
  Pose parent_to_joint_origin_transform;
};
struct Link {
  std::string name;
  std::shared_ptr<Joint> parent_joint;
  std::weak_ptr<Link> parent;
  std::shared_ptr<Link> getParent() const { return parent.lock(); }
};
using LinkSharedPtr = std::shared_ptr<Link>;
inline std::map<std::string, std::vector<LinkSharedPtr>>& Files() {
  static std::map<std::string, std::vector<LinkSharedPtr>> f;
  return f;
}
class Model {
 public:
  bool initFile(const std::string& name) {
    if (!Files().count(name)) return false;
    links_ = Files()[name];
    return true;
  }
  void getLinks(std::vector<LinkSharedPtr>& out) const { out = links_; }  // NOLINT

 private:
  std::vector<LinkSharedPtr> links_;
};
}  // namespace urdf
#endif  // VERIF_SHIM_ROS_STANDIN_H_
