#include "streams.h"

using namespace gen;

static void Gps(pbt::Case& c) {
  const std::vector<Fix> fixes = AnyFixes(c, 40);
  flt::Factory chain;
  DataCollector d(DataCollectorOptions(), &chain);
  GpsModel m;
  size_t sent = 0;
  const uint64_t start = fixes.empty() ? StartNs(c) : fixes[0].ns;
  const int steps = 1 + c.u(12);
  const bool trims = c.b(1, 3);
  c.note() << fixes.size() << " fixes; ";
  int answers = 0;
  for (int s = 0; s < steps; ++s) {
    const size_t n = s + 1 == steps ? fixes.size() - sent : c.u(fixes.size() - sent + 1);
    for (size_t k = 0; k < n; ++k, ++sent) {
      Send(&d, fixes[sent]);
      m.Add(fixes[sent]);
    }
    const int q = 1 + c.u(4);
    for (int k = 0; k < q; ++k) {
      const uint64_t t = QueryNs(c, m.all.empty() ? std::vector<Fix>(fixes.begin(), fixes.begin() + sent) : m.all, start);
      V3 v;
      answers += m.Expect(t, 0.005, &v) == 1;
      c.note() << (t - start) * 1e-9 << " ";
      QueryGps(c, &d, &m, t, c.oneOf<double>({0.005, 0.001, 0.4}), trims && c.b());
    }
    const auto ref = d.GetGpsReference();
    REQUIRE(static_cast<bool>(ref) == m.has_ref, "reference");
    if (m.has_ref)
      REQUIRE(ref->LatitudeOrigin() == m.ref[0] && std::fabs(std::remainder(ref->LongitudeOrigin() - m.ref[1], 360)) < 1e-9 && ref->HeightOrigin() == m.ref[2],
              "reference " << ref->LatitudeOrigin() << " " << ref->LongitudeOrigin() << " is not the first usable fix " << m.ref.transpose());
  }
  if (answers > 1) c.nontrivial();
}

pbt::Suite pbt::MakeSuite() {
  pbt::Suite s;
  s.property = "C23";
  s.rule = "up to 40 fixes at mid latitudes, equator, near the poles and the date line, gaps from nanoseconds to seconds, lost and augmented fixes, queries on, between and outside samples while data arrives; positions recomputed from WGS84 formulas; non-trivial with at least two answered queries";
  s.assumptions = {"stamps increase strictly", "only the plain fix status counts as usable", "exactly on a sample between a usable and an unusable pair either answer is accepted", "pairs up to 0.2 s apart are usable"};
  s.subs.push_back({"gps", Gps, 5000, 100000, 60, 16});
  return s;
}
