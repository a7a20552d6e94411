#include <unistd.h>
#include <chrono>
#include "common/simple_time.h"
#include "gen.h"

using static_map::SimpleTime;
typedef __int128 i128;
static const int64_t G = 1000000000;

static uint32_t Secs(pbt::Case& c) {
  switch (c.u(5)) {
    case 0: return c.u(4);
    case 1: return 0xffffffffu - c.u(4);
    case 2: return c.u(100000);
    case 3: return 1500000000u + c.u(300000000);
    default: return c.u(1ull << 32);
  }
}
static uint32_t Nsecs(pbt::Case& c) {
  switch (c.u(4)) {
    case 0: return c.u(5);
    case 1: return 999999999u - c.u(5);
    default: return c.u(G);
  }
}
static i128 NsOf(uint32_t s, uint32_t n) { return static_cast<i128>(s) * G + n; }
static i128 Ns(const SimpleTime& t) { return t.ToNanoSec(); }
static std::string S(i128 v) { return std::to_string(static_cast<int64_t>(v)); }

static void Arithmetic(pbt::Case& c) {
  const uint32_t s = Secs(c), n = Nsecs(c);
  const i128 a = NsOf(s, n);
  i128 b;
  if (c.b()) {  // a close neighbour, across carries
    b = a + c.i(-3, 3);
    if (c.b(1, 4)) b += static_cast<i128>(c.i(-2, 2)) * G;
    if (b < 0) b = 0;
    if (b > NsOf(0xffffffffu, G - 1)) b = a;
  } else {
    const uint32_t s2 = Secs(c), n2 = Nsecs(c);
    b = NsOf(s2, n2);
  }
  const SimpleTime ta(s, n), tb(static_cast<uint32_t>(b / G), static_cast<uint32_t>(b % G));
  c.note() << "a=" << S(a) << "ns b=" << S(b) << "ns";
  c.nontrivial();
  c.label(a == b ? "equal" : (a > b ? "a>b" : "a<b"));
  REQUIRE(Ns(ta) == a && Ns(tb) == b, "nanosecond value");
  REQUIRE((ta < tb) == (a < b), "less");
  REQUIRE((ta <= tb) == (a <= b), "less-equal");
  REQUIRE((ta > tb) == (a > b), "greater");
  REQUIRE((ta >= tb) == (a >= b), "greater-equal");
  const i128 d = a > b ? a - b : b - a;
  REQUIRE((ta == tb) == (d <= 1), "equality, difference " << S(d));
  REQUIRE((ta != tb) == !(d <= 1), "inequality, difference " << S(d));
  REQUIRE((ta == tb) == (tb == ta), "symmetry");
  if (a + b <= NsOf(0xffffffffu, G - 1)) {
    const SimpleTime sum = ta + tb;
    REQUIRE(Ns(sum) == a + b, "sum " << S(Ns(sum)));
    REQUIRE(Ns(sum - tb) == a, "sum minus b " << S(Ns(sum - tb)));
    REQUIRE(Ns(sum - ta) == b, "sum minus a");
    SimpleTime acc = ta;
    acc += tb;
    REQUIRE(Ns(acc) == a + b, "in-place sum");
    REQUIRE(Ns(ta) == a && Ns(tb) == b, "operands changed");
    c.label("sum in range");
  }
  REQUIRE(Ns(ta - tb) == (a > b ? a - b : 0), "difference " << S(Ns(ta - tb)));
  REQUIRE(ta <= SimpleTime::TimeMax() && tb <= SimpleTime::TimeMax(), "max time");
  int div = 0;
  switch (c.u(3)) {
    case 0: div = c.i(-5, 5); break;
    case 1: div = c.i(-1000, 1000); break;
    default: div = c.i(-2147483647, 2147483647);
  }
  SimpleTime q = ta;
  q /= div;
  const i128 want = div == 0 ? a : a / (div < 0 ? -static_cast<i128>(div) : static_cast<i128>(div));
  REQUIRE(Ns(q) == want, "quotient by " << div << " is " << S(Ns(q)) << " want " << S(want));
  SimpleTime z = ta;
  REQUIRE(z.IsZero() == (a == 0), "is zero");
  z.Zero();
  REQUIRE(z.IsZero() && Ns(z) == 0, "zeroed");
}

static void Conversion(pbt::Case& c) {
  const uint32_t s = Secs(c), n = Nsecs(c);
  const i128 a = NsOf(s, n);
  const SimpleTime t(s, n);
  c.note() << "t=" << S(a) << "ns";
  c.nontrivial();
  REQUIRE(Ns(SimpleTime::FromNanoSec(static_cast<uint64_t>(a))) == a, "from nanoseconds");
  const long double exact = static_cast<long double>(s) + static_cast<long double>(n) * 1e-9L;
  const double ulp = std::nextafter(static_cast<double>(exact), 1e300) - static_cast<double>(exact);
  REQUIRE(std::fabs(static_cast<double>(t.ToSec() - exact)) <= 2 * ulp + 1e-18, "seconds " << t.ToSec());
  const bool representable = t.ToSec() < 4294967296.0;
  const i128 back = representable ? Ns(SimpleTime::FromSec(t.ToSec())) : a;
  const i128 err = back > a ? back - a : a - back;
  REQUIRE(err <= static_cast<i128>(3 * ulp * 1e9) + 2, "seconds round trip off by " << S(err));
  // microsecond stamps
  const static_map::PclTimeStamp us = static_map::ToPclTime(t);
  REQUIRE(static_cast<i128>(us) == a / 1000, "microseconds " << us);
  const SimpleTime back_us = static_map::ToLocalTime(us);
  REQUIRE(Ns(back_us) == (a / 1000) * 1000, "from microseconds");
  REQUIRE(static_map::ToPclTime(back_us) == us, "microsecond round trip");
  // parts
  std::ostringstream o;
  o << t;
  REQUIRE(o.str() == t.DebugString(), "printing");
  REQUIRE(o.str().find(std::to_string(s)) != std::string::npos &&
              o.str().find(std::to_string(n)) != std::string::npos,
          "printed " << o.str());
  // arbitrary second counts
  double x;
  switch (c.u(4)) {
    case 0: x = c.u(1000); break;
    case 1: x = c.real(0, 10); break;
    case 2: x = c.real(0, 4.2e9); break;
    default: x = std::nextafter(static_cast<double>(1 + c.u(100000)), 0.0);
  }
  const SimpleTime tx = SimpleTime::FromSec(x);
  const long double diff = static_cast<long double>(tx.ToNanoSec()) - static_cast<long double>(x) * 1e9L;
  const double ulx = (std::nextafter(x, 1e300) - x) * 1e9;
  REQUIRE(std::fabs(static_cast<double>(diff)) <= 1.001 + 2 * ulx, "from seconds " << x << " off by " << static_cast<double>(diff));
  REQUIRE(Ns(SimpleTime::FromSec(-x)) <= 0 || x == 0, "negative seconds must clamp to zero");
}

static void Clock(pbt::Case& c) {
  auto now = [] {
    return std::chrono::duration_cast<std::chrono::nanoseconds>(
               std::chrono::system_clock::now().time_since_epoch()).count();
  };
  const int64_t before = now();
  const SimpleTime t = SimpleTime::GetCurrentTime();
  const int64_t after = now();
  REQUIRE(t.ToNanoSec() >= before && t.ToNanoSec() <= after, "current time outside the interval it was taken in");
  const int64_t ns = c.u(3000000);
  SimpleTime d = SimpleTime::FromNanoSec(ns);
  const auto t0 = std::chrono::steady_clock::now();
  d.Sleep();
  const auto dt = std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::steady_clock::now() - t0).count();
  c.note() << "sleep " << ns << " ns took " << dt;
  c.nontrivial();
  REQUIRE(dt >= ns, "slept only " << dt << " of " << ns);
}

pbt::Suite pbt::MakeSuite() {
  pbt::Suite s;
  s.property = "C01";
  s.rule = "stamps drawn from small, epoch-like, maximal and neighbouring values (1-3 ns apart, across carries); every case is a comparison/arithmetic/conversion on drawn stamps and counts as non-trivial; duplicates are removed by choice hash";
  s.assumptions = {"nanosecond parts are below one second", "values that reach 2^32 seconds (sums, or the double closest to the last stamps) are out of range"};
  s.subs.push_back({"arithmetic", Arithmetic, 400000, 8000000, 30, 8, 20000});
  s.subs.push_back({"conversion", Conversion, 200000, 4000000, 30, 8, 20000});
  s.subs.push_back({"clock", Clock, 400, 4000});
  return s;
}
