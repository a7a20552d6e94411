#include <sys/stat.h>
#include <unistd.h>
#include <algorithm>
#include <cstring>
#include <fstream>
#include <map>
#include "builder/data/data_types.h"
#include "gen.h"
#include "pbt.h"
#include "ros_node/kitti_reader.h"
#include "ros_node/msg_conversion.h"

using namespace static_map;

namespace {

// Any number a message may carry: distinct values, extremes, not-a-number.
double Num(pbt::Case& c) {
  switch (c.u(8)) {
    case 0: return 0;
    case 1: return -0.;
    case 2: return c.oneOf<double>({1e-310, -1e300, 1e300, 5e-324});
    case 3: return c.oneOf<double>({NAN, INFINITY, -INFINITY});
    default: return c.real(-1000, 1000);
  }
}

bool Same(double a, double b) { return std::memcmp(&a, &b, 8) == 0 || (std::isnan(a) && std::isnan(b)); }

std::string Text(pbt::Case& c) {
  std::string s;
  const int n = c.size(0, 12);
  for (int i = 0; i < n; ++i) s += static_cast<char>(c.b(1, 5) ? c.u(256) : 'a' + c.u(26));
  return s;
}

std_msgs::Header Head(pbt::Case& c) {
  std_msgs::Header h;
  h.seq = c.b(1, 4) ? c.oneOf<uint32_t>({0u, 0xffffffffu, 0x80000000u}) : c.u(1000000);
  h.frame_id = Text(c);
  h.stamp.sec = c.b(1, 4) ? c.oneOf<uint32_t>({0u, 0x7fffffffu, 0xffffffffu}) : c.u(2000000000);
  h.stamp.nsec = c.b(1, 4) ? c.oneOf<uint32_t>({0u, 1u, 999999999u}) : c.u(1000000000);
  return h;
}

void CheckHead(const std_msgs::Header& in, const data::Header& out) {
  REQUIRE(out.seq == in.seq, "sequence number changed");
  REQUIRE(out.frame_id == in.frame_id, "frame changed");
  REQUIRE(out.stamp == SimpleTime(in.stamp.sec, in.stamp.nsec), "time changed");
  REQUIRE(out.stamp.ToNanoSec() == in.stamp.toNSec(), "time changed");
}

template <class A>
void Fill(pbt::Case& c, A& a) {
  for (auto& v : a) v = Num(c);
}
template <class A>
void CheckArray(const A& in, const double* out, const char* what) {
  for (size_t i = 0; i < in.size(); ++i) REQUIRE(Same(in[i], out[i]), std::string(what) + " entry " + std::to_string(i) + " changed");
}
template <class A, class B>
void CheckXyz(const A& in, const B& out, const char* what) {
  REQUIRE(Same(in.x, out.x()) && Same(in.y, out.y()) && Same(in.z, out.z()), std::string(what) + " changed");
}
template <class A>
void FillXyz(pbt::Case& c, A& a) {
  a.x = Num(c);
  a.y = Num(c);
  a.z = Num(c);
}

void Messages(pbt::Case& c) {
  const int kind = c.u(3);
  c.label(kind == 0 ? "imu" : kind == 1 ? "odometry" : "gps");
  c.nontrivial();
  if (kind == 0) {
    sensor_msgs::Imu m;
    m.header = Head(c);
    FillXyz(c, m.orientation);
    m.orientation.w = Num(c);
    FillXyz(c, m.angular_velocity);
    FillXyz(c, m.linear_acceleration);
    Fill(c, m.orientation_covariance);
    Fill(c, m.angular_velocity_covariance);
    Fill(c, m.linear_acceleration_covariance);
    const data::ImuMsg l = static_map_ros::ToLocalImu(m);
    CheckHead(m.header, l.header);
    CheckXyz(m.orientation, l.orientation, "orientation");
    REQUIRE(Same(m.orientation.w, l.orientation.w()), "orientation changed");
    CheckXyz(m.angular_velocity, l.angular_velocity, "angular velocity");
    CheckXyz(m.linear_acceleration, l.linear_acceleration, "acceleration");
    CheckArray(m.orientation_covariance, l.orientation_covariance, "orientation covariance");
    CheckArray(m.angular_velocity_covariance, l.angular_velocity_covariance, "angular velocity covariance");
    CheckArray(m.linear_acceleration_covariance, l.linear_acceleration_covariance, "acceleration covariance");
  } else if (kind == 1) {
    nav_msgs::Odometry m;
    m.header = Head(c);
    m.child_frame_id = Text(c);
    FillXyz(c, m.pose.pose.position);
    FillXyz(c, m.pose.pose.orientation);
    m.pose.pose.orientation.w = Num(c);
    Fill(c, m.pose.covariance);
    FillXyz(c, m.twist.twist.linear);
    FillXyz(c, m.twist.twist.angular);
    Fill(c, m.twist.covariance);
    const data::OdomMsg l = static_map_ros::ToLocalOdom(m);
    CheckHead(m.header, l.header);
    REQUIRE(l.child_frame_id == m.child_frame_id, "child frame changed");
    CheckXyz(m.pose.pose.position, l.pose.pose.position, "position");
    CheckXyz(m.pose.pose.orientation, l.pose.pose.orientation, "orientation");
    REQUIRE(Same(m.pose.pose.orientation.w, l.pose.pose.orientation.w()), "orientation changed");
    CheckXyz(m.twist.twist.linear, l.twist.twist.linear, "linear velocity");
    CheckXyz(m.twist.twist.angular, l.twist.twist.angular, "angular velocity");
    CheckArray(m.pose.covariance, l.pose.covariance, "pose covariance");
    CheckArray(m.twist.covariance, l.twist.covariance, "twist covariance");
  } else {
    sensor_msgs::NavSatFix m;
    m.header = Head(c);
    m.status.status = static_cast<int8_t>(c.i(-128, 127));
    m.status.service = static_cast<uint16_t>(c.u(65536));
    m.latitude = Num(c);
    m.longitude = Num(c);
    m.altitude = Num(c);
    Fill(c, m.position_covariance);
    m.position_covariance_type = static_cast<uint8_t>(c.u(256));
    const data::NavSatFixMsg l = static_map_ros::ToLocalNavSatMsg(m);
    CheckHead(m.header, l.header);
    REQUIRE(l.status.status == m.status.status, "fix status changed");
    REQUIRE(l.status.service == m.status.service, "service changed");
    REQUIRE(Same(l.latitude, m.latitude), "latitude changed");
    REQUIRE(Same(l.longtitude, m.longitude), "longitude changed");
    REQUIRE(Same(l.altitude, m.altitude), "altitude changed");
    CheckArray(m.position_covariance, l.position_covariance, "position covariance");
    REQUIRE(l.position_covariance_type == m.position_covariance_type, "covariance type changed");
  }
}

// Pose -> odometry message -> pose, and the meaning of the message's fields.
void OdometryPose(pbt::Case& c) {
  gen::V3 axis(c.real(-1, 1), c.real(-1, 1), c.real(-1, 1));
  if (axis.norm() < 1e-3) axis = gen::V3(0, 0, 1);
  axis.normalize();
  const double turn = c.b(1, 5) ? c.oneOf<double>({0, M_PI, M_PI / 2, -M_PI / 2, 1e-9, M_PI - 1e-7}) : c.real(-M_PI, M_PI);
  const double far = c.oneOf<double>({1, 1000, 1e6});
  const gen::V3 t(c.real(-far, far), c.real(-far, far), c.real(-far, far));
  const gen::M4 pose = gen::Pose(gen::Exp(axis * turn), t);
  if (std::fabs(turn) > 0.1) c.nontrivial();
  data::OdomMsg m;
  m.SetPose(pose);
  REQUIRE(m.pose.pose.position == t, "position changed");
  REQUIRE(std::fabs(m.pose.pose.orientation.norm() - 1) < 1e-9, "orientation is not of unit length");
  // The quaternion's meaning, from its definition.
  const auto& q = m.pose.pose.orientation;
  const double half = turn / 2;
  const gen::V3 v = axis * std::sin(half);
  const double dot = q.w() * std::cos(half) + q.x() * v.x() + q.y() * v.y() + q.z() * v.z();
  REQUIRE(std::fabs(std::fabs(dot) - 1) < 1e-9, "orientation is another turn");
  REQUIRE((m.PoseInMatrix() - pose).cwiseAbs().maxCoeff() < 1e-9, "pose changed on the way through the message");
  REQUIRE(gen::IsRigid(m.PoseInMatrix(), 1e-9), "not a rigid pose");
  REQUIRE((m.RotationInMatrix().toRotationMatrix() - gen::Rot(pose)).cwiseAbs().maxCoeff() < 1e-9, "rotation differs");
}

// A directory of scans, written as the data set's documentation says.
struct Scan {
  std::vector<float> values;  // four per record; a few more if cut short
  int extra_bytes = 0;
};

Scan MakeScan(pbt::Case& c, bool allow_big) {
  Scan s;
  int n = c.b(1, 8) ? 0 : c.size(0, 60);
  if (allow_big) n = 249990 + c.u(60000);
  uint32_t state = c.u(1 << 30);
  for (int i = 0; i < n; ++i) {
    if (n <= 60) {
      for (int k = 0; k < 3; ++k) s.values.push_back(static_cast<float>(c.b(1, 12) ? Num(c) : c.real(-120, 120)));
      s.values.push_back(c.b(1, 4) ? static_cast<float>(c.u(2)) : static_cast<float>(c.u(100)) / 100.f);
    } else {
      for (int k = 0; k < 4; ++k) {
        state = state * 1664525u + 1013904223u;
        s.values.push_back(static_cast<float>(state >> 8) / 16777216.f * (k == 3 ? 1 : 100));
      }
    }
  }
  if (c.b(1, 4)) s.extra_bytes = 1 + c.u(15);
  return s;
}

void Write(const std::string& path, const Scan& s) {
  std::ofstream f(path, std::ios::binary);
  f.write(reinterpret_cast<const char*>(s.values.data()), s.values.size() * sizeof(float));
  const char junk[16] = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16};
  f.write(junk, s.extra_bytes);
}

bool SameFloat(float a, float b) { return std::memcmp(&a, &b, 4) == 0 || (std::isnan(a) && std::isnan(b)); }

void CheckScan(const Scan& s, const MapBuilder::PointCloudPtr& cloud, const std::string& name) {
  REQUIRE(cloud != nullptr, "no cloud for " + name);
  const size_t n = s.values.size() / 4;
  REQUIRE(cloud->points.size() == n, name + " has " + std::to_string(n) + " records, " +
                                         std::to_string(cloud->points.size()) + " points were read");
  REQUIRE(cloud->width * cloud->height == n, "the cloud's size fields do not match its points");
  for (size_t i = 0; i < n; ++i) {
    const auto& p = cloud->points[i];
    const float* v = &s.values[i * 4];
    REQUIRE(SameFloat(p.x, v[0]) && SameFloat(p.y, v[1]) && SameFloat(p.z, v[2]), "record " + std::to_string(i) + " of " + name + " has another position");
    REQUIRE(SameFloat(p.intensity, v[3] * 255.f) || std::fabs(p.intensity - v[3] * 255.f) < 1e-3f,
            "record " + std::to_string(i) + " of " + name + " has another intensity");
  }
}

std::string Bin(int index) {
  char b[32];
  snprintf(b, sizeof(b), "%010d.bin", index);
  return b;
}

void KittiRun(pbt::Case& c, bool big) {
  static int count = 0;
  std::string dir = pbt::Case::scratch() + "kitti" + std::to_string(++count);

  mkdir(dir.c_str(), 0755);
  if (c.b(1, 8)) {
    dir += "/" + std::string(150 + c.u(80), 'd');
    mkdir(dir.c_str(), 0755);
    c.label("long path");
  }
  std::map<std::string, Scan> scans;
  const int n = big ? 1 : c.size(0, 6);
  std::vector<int> index;
  for (int i = 0; i < n; ++i) {
    const int k = c.b(1, 3) ? c.u(2000000000) : c.u(30);
    const std::string name = Bin(k);
    if (scans.count(name)) continue;
    scans[name] = MakeScan(c, big);
    Write(dir + "/" + name, scans[name]);
    index.push_back(k);
    if (scans[name].extra_bytes) c.label("last record cut short");
    if (scans[name].values.empty()) c.label("empty scan");
  }
  if (!scans.empty() && !scans.begin()->second.values.empty()) c.nontrivial();
  KittiReader reader;
  const int rounds = 1 + c.u(2);
  for (int r = 0; r < rounds; ++r) {
    // Starting again reads the directory from the beginning.
    reader.SetPointCloudDataPath(c.b(1, 4) ? dir + "/" : dir);
    const int stop = c.b(1, 3) ? c.u(static_cast<uint32_t>(scans.size()) + 1) : 1000;
    int read = 0;
    bool all = true;
    for (const auto& s : scans) {
      if (read == stop) {
        all = false;
        break;
      }
      if (!index.empty() && c.b(1, 4)) {
        // Reading one scan by number does not disturb the sequence.
        const int k = index[c.u(static_cast<uint32_t>(index.size()))];
        CheckScan(scans[Bin(k)], reader.ReadFromBin(k), Bin(k));
        c.label("by number");
      }
      CheckScan(s.second, reader.ReadNext(), s.first);
      ++read;
    }
    if (all) {
      REQUIRE(reader.ReadNext() == nullptr, "a scan after the last one");
      REQUIRE(reader.ReadNext() == nullptr, "a scan after the last one");
    }
    int missing = c.u(40);
    while (scans.count(Bin(missing))) ++missing;
    REQUIRE(reader.ReadFromBin(missing) == nullptr, "a cloud from a scan that is not there");
  }
  for (const auto& s : scans) unlink((dir + "/" + s.first).c_str());
}

void Kitti(pbt::Case& c) { KittiRun(c, false); }
void KittiBig(pbt::Case& c) { KittiRun(c, true); }

}  // namespace

pbt::Suite pbt::MakeSuite() {
  pbt::Suite s;
  s.property = "C43";
  s.rule = "a message with every field drawn; a pose with a turn; a directory whose first scan has records";
  s.assumptions = {"ROS is replaced by plain structures with the same fields",
                   "roll, pitch and yaw of the internal IMU message have no counterpart in the incoming one and are not judged"};
  s.subs.push_back({"messages", Messages, 40000, 400000});
  s.subs.push_back({"odometry pose", OdometryPose, 60000, 600000});
  s.subs.push_back({"kitti", Kitti, 12000, 100000});
  s.subs.push_back({"kitti big", KittiBig, 60, 400});
  return s;
}
