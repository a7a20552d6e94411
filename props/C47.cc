#include <algorithm>
#include "gen.h"
#include "pbt.h"
#include "ros_node/playable_bag.h"

namespace {

ros::Time At(uint64_t ns) { return ros::Time(static_cast<uint32_t>(ns / 1000000000ull), static_cast<uint32_t>(ns % 1000000000ull)); }

void Play(pbt::Case& c) {
  // Messages in the order of their times, with pauses, bursts and equal times.
  uint64_t t = c.oneOf<uint64_t>({1, 200000000ull, 1000000000ull, 1541000000000000000ull});
  std::vector<rosbag::MessageInstance> all;
  std::vector<uint64_t> when;
  const int n = c.size(1, 40);
  for (int k = 0; k < n; ++k) {
    if (k) t += c.oneOf<uint64_t>({0, 1, 10000000ull, 100000000ull, 500000000ull, 1000000000ull, 1000000001ull, 5000000000ull});
    all.emplace_back(At(t), c.oneOf<std::string>({"/imu", "/points", "/gps", "/tf"}), k);
    when.push_back(t);
  }
  const uint64_t delay = c.oneOf<uint64_t>({1000000000ull, 0, 1, 100000000ull, 3000000000ull, 60000000000ull});
  ros::Time from = ros::TIME_MIN, to = ros::TIME_MAX;
  if (c.b(1, 3)) {
    size_t a = c.u(n), b = c.u(n);
    if (a > b) std::swap(a, b);
    from = At(when[a]);
    to = At(when[b]);
    c.label("part of the recording");
  }
  c.note() << n << " messages, delay " << delay << " ns";
  std::vector<int> range;
  std::set<std::string> topics;
  for (const auto& m : all) {
    topics.insert(m.getTopic());
    if (!(m.getTime() < from) && !(to < m.getTime())) range.push_back(m.id());
  }
  const uint64_t last = when[range.back()];
  std::vector<int> want;
  for (int id : range) {
    if (last - when[id] > delay) want.push_back(id);
  }
  if (want.size() > 1) c.nontrivial();
  if (want.size() < range.size() && !want.empty()) c.label("some held back");

  const std::string name = "recording.bag";
  rosbag::Files()[name] = all;
  static_map_ros::PlayableBag bag(name, from, to, ros::Duration::Nanoseconds(delay));
  REQUIRE(bag.get_bag_filename() == name, "another file name");
  REQUIRE(bag.topics() == topics, "topics differ");
  const ros::Time begin = std::get<0>(bag.GetBeginEndTime()), end = std::get<1>(bag.GetBeginEndTime());
  REQUIRE(begin == At(when[range.front()]) && end == At(last), "the times of the first and last message differ");
  REQUIRE(std::fabs(bag.DurationInSeconds() - (last - when[range.front()]) * 1e-9) < 1e-6, "duration differs");
  size_t k = 0;
  while (bag.IsMessageAvailable()) {
    REQUIRE(k < want.size(), "a message too many after " << k);
    const ros::Time peek = bag.PeekMessageTime();
    REQUIRE(peek == At(when[want[k]]), "message " << k << ": the announced time is that of another message");
    const int asks = c.u(3);
    for (int a = 0; a < asks; ++a) REQUIRE(bag.IsMessageAvailable() && bag.PeekMessageTime() == peek, "asking changed the answer");
    const rosbag::MessageInstance m = bag.GetNextMessage();
    REQUIRE(m.id() == want[k], "message " << want[k] << " expected, " << m.id() << " came");
    REQUIRE(m.getTime() == peek, "the message has another time than announced");
    ++k;
  }
  REQUIRE(k == want.size(), k << " of " << want.size() << " messages were handed out");
  REQUIRE(bag.finished(), "not finished at the end");
}

}  // namespace

pbt::Suite pbt::MakeSuite() {
  pbt::Suite s;
  s.property = "C47";
  s.rule = "at least two messages become due";
  s.assumptions = {"the recording library is replaced by an in-memory one that lists messages in the order of their times and throws where the original does",
                   "the selected part holds at least one message"};
  s.subs.push_back({"play", Play, 60000, 600000});
  return s;
}
