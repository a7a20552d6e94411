#include <unistd.h>
#include <fstream>
#include "cloudgen.h"

using namespace gen;

static float Special(pbt::Case& c) {
  static const uint32_t bits[] = {0, 0x80000000u, 0x7f800000u, 0xff800000u, 0x7fc00000u, 0x00000001u, 0x7f7fffffu, 0x0d0a1a00u};
  uint32_t b = c.b(1, 2) ? bits[c.u(8)] : static_cast<uint32_t>(c.u(1ull << 32));
  float f;
  memcpy(&f, &b, 4);
  return f;
}
static InnerCloudType::Ptr RawCloud(pbt::Case& c, size_t max) {
  InnerCloudType::Ptr cl = AnyCloud(c, 0, max);
  if (c.b(1, 3))
    for (size_t k = 0; k < std::min<size_t>(cl->points.size(), 5); ++k) {
      cl->points[k].x = Special(c);
      cl->points[k].factor = Special(c);
      cl->points[k].intensity = Special(c);
    }
  return cl;
}
static std::string Slurp(const std::string& f) {
  std::ifstream i(f, std::ios::binary);
  std::stringstream s;
  s << i.rdbuf();
  return s.str();
}
static void Spit(const std::string& f, const std::string& d) {
  std::ofstream o(f, std::ios::binary | std::ios::trunc);
  o << d;
}

static void RoundTrip(pbt::Case& c) {
  const std::string file = pbt::Case::scratch() + "cloud.bin";
  const size_t k = 1 + c.u(3);
  std::vector<InnerCloudType::Ptr> in;
  {
    std::fstream f(file, std::ios::out | std::ios::binary | std::ios::trunc);
    for (size_t j = 0; j < k; ++j) {
      in.push_back(RawCloud(c, 400));
      REQUIRE(in.back()->Serialize(&f) >= 0, "write reported failure");
      c.note() << Str(in.back()->points, 4) << "; ";
      if (!in.back()->points.empty()) c.nontrivial();
    }
  }
  std::fstream f(file, std::ios::in | std::ios::binary);
  for (size_t j = 0; j < k; ++j) {
    InnerCloudType out;
    if (c.b()) out.points.resize(c.u(10));  // a reader that was used before
    REQUIRE(out.Deserialize(&f) >= 0, "cloud " << j << " did not load");
    REQUIRE(SameStamp(out.stamp, in[j]->stamp), "stamp of cloud " << j);
    REQUIRE(SamePoints(out.points, in[j]->points), "points of cloud " << j << ": " << Str(out.points, 4));
  }
  InnerCloudType extra;
  REQUIRE(extra.Deserialize(&f) < 0, "read a cloud past the end");
  InnerCloudType::Ptr a = in[0];
  std::fstream closed;
  REQUIRE(a->Serialize(&closed) < 0 && a->Serialize(nullptr) < 0, "writing to a closed stream succeeded");
  REQUIRE(extra.Deserialize(&closed) < 0 && extra.Deserialize(nullptr) < 0, "reading from a closed stream succeeded");
}

// Every cut of the file must be reported.
static void Truncate(pbt::Case& c) {
  const std::string file = pbt::Case::scratch() + "cloud.bin", cut = pbt::Case::scratch() + "cut.bin";
  InnerCloudType::Ptr in = AnyCloud(c, 0, 12);
  {
    std::fstream f(file, std::ios::out | std::ios::binary | std::ios::trunc);
    REQUIRE(in->Serialize(&f) >= 0, "write");
  }
  const std::string bytes = Slurp(file);
  c.note() << Str(in->points, 6) << ", all " << bytes.size() << " cuts";
  c.nontrivial();
  for (size_t n = 0; n <= bytes.size(); ++n) {
    Spit(cut, bytes.substr(0, n));
    std::fstream f(cut, std::ios::in | std::ios::binary);
    InnerCloudType out;
    const int r = out.Deserialize(&f);
    if (n == bytes.size()) {
      REQUIRE(r >= 0 && SamePoints(out.points, in->points), "whole file refused");
    } else {
      REQUIRE(r < 0, "file of " << bytes.size() << " bytes cut to " << n << " accepted with " << out.points.size() << " points");
    }
  }
}

// Headers promising more than the file holds.
static void BadCount(pbt::Case& c) {
  const std::string file = pbt::Case::scratch() + "cloud.bin";
  InnerCloudType::Ptr in = AnyCloud(c, 1, 6);
  InnerCloudType::Ptr more = std::make_shared<InnerCloudType>(*in);
  more->points.push_back(InnerPointType());
  std::string a, b;
  for (int k = 0; k < 2; ++k) {
    std::fstream f(file, std::ios::out | std::ios::binary | std::ios::trunc);
    (k ? more : in)->Serialize(&f);
    f.close();
    (k ? b : a) = Slurp(file);
  }
  // the count field is where the two files first differ
  size_t pos = 0;
  while (pos < a.size() && a[pos] == b[pos]) ++pos;
  if (pos + 8 > a.size()) c.discard();
  uint64_t count;
  switch (c.u(4)) {
    case 0: count = in->points.size() + 1 + c.u(5); break;
    case 1: count = 1ull << (20 + c.u(44)); break;
    case 2: count = ~0ull - c.u(4); break;
    default: count = (1ull << 60) / 5 + c.u(1000);
  }
  memcpy(&a[pos], &count, 8);
  Spit(file, a);
  c.note() << in->points.size() << " points with the count field set to " << count;
  c.nontrivial();
  std::fstream f(file, std::ios::in | std::ios::binary);
  InnerCloudType out;
  int r = 0;
  try {
    r = out.Deserialize(&f);
  } catch (const std::exception& e) {
    pbt::fail(std::string("reading a file with an impossible count threw ") + e.what());
  }
  REQUIRE(r < 0, "count " << count << " accepted");
}

// A full disk must not be reported as a successful save.
static void WriteFault(pbt::Case& c) {
  if (access("/dev/full", W_OK) != 0) c.discard();
  InnerCloudType::Ptr in = AnyCloud(c, 1, 3000);
  c.note() << in->points.size() << " points to a full device";
  c.nontrivial();
  std::fstream f("/dev/full", std::ios::out | std::ios::binary);
  const int r = in->Serialize(&f);
  REQUIRE(r < 0, "writing to a full device reported success");
}

pbt::Suite pbt::MakeSuite() {
  pbt::Suite s;
  s.property = "C08";
  s.rule = "one to three clouds of 0-400 points incl. NaN/inf/denormal bit patterns per file; for small clouds every truncation point of the file is tried; header counts larger than the file; writes to a full device; non-trivial when at least one point is stored or the file is damaged";
  s.assumptions = {"the count field is located as the first differing byte of files of n and n+1 points"};
  s.subs.push_back({"round_trip", RoundTrip, 6000, 60000});
  s.subs.push_back({"truncate", Truncate, 400, 6000});
  s.subs.push_back({"bad_count", BadCount, 1500, 20000});
  s.subs.push_back({"write_fault", WriteFault, 400, 4000});
  return s;
}
