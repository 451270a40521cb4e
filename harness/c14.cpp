// C14: the long period equilibrium tide for every subset of the constituents
// given dynamically, every single constituent, flags and call histories.
#include "fes/wave/long_period_equilibrium.hpp"
#include "lpe.hpp"
#include "vp.hpp"
using vp::R;
using vp::Str;
using fes::angle::Astronomic;
using fes::angle::Formulae;
using fes::wave::LongPeriodEquilibrium;
using fes::wave::Table;

static const int kOwners[13] = {fes::kM0, fes::kMm, fes::kMf, fes::kMtm, fes::kMsqm, fes::kSsa, fes::kSa1, fes::kSta, fes::kMm1, fes::kMf1, fes::kA5, fes::kMm2, fes::kMf2};
struct Date { int k; double e; int leap; };
static const Date kDates[] = {{1, 0.0, 0}, {0, 951782400.0, 32}, {2, 1483228800.5, 36}, {1, -473385600.0, 0}, {2, 1735689599.0, 37}, {0, 315532800.0, 19}, {1, 1234567890.0, 34}};
static const double kLats[] = {0.0, 90.0, -90.0, 45.0, -33.7, 10.25, -71.5, 35.2643896827546};
static fes::Constituent C(int i) { return static_cast<fes::Constituent>(i); }
static const double kTol = 2e-8;

static std::string bare(const std::set<int>& s) {
  std::string r;
  for (int i : s) r += std::string(r.empty() ? "" : "+") + golden::table()[i].name;
  return r.empty() ? "none" : r;
}

// Compares an object to the reference at every date and latitude.
static void compare(LongPeriodEquilibrium& lpe, const std::set<int>& removed, const std::string& key, const std::string& what, bool all) {
  uint64_t h = 0;
  static std::map<int, lpe::Sums> memo;
  const int nd = all ? 7 : 3, nl = all ? 8 : 3;
  for (int d = 0; d < nd; ++d) {
    const Date& D = kDates[d];
    if (!memo.count(d)) memo[d] = lpe::sums(D.k, D.e, D.leap);
    const Astronomic a(static_cast<Formulae>(D.k), D.e, static_cast<uint16_t>(D.leap));
    for (int l = 0; l < nl; ++l) {
      const double got = lpe.lpe_minus_n_waves(a, kLats[l]);
      const double want = lpe::height(memo[d], kLats[l], [&](int i) { return removed.count(i) > 0; });
      R.transition();
      h = vp::mix(h, vp::bits(got));
      if (!(std::fabs(got - want) <= kTol)) {
        R.fail(key, Str() << what << ": epoch " << D.e << " formulae " << D.k << " latitude " << kLats[l] << ": " << got << " cm, expected " << want);
        return;
      }
    }
  }
  R.state(h);
  R.trace();
}

static void run() {
  // every subset of the constituents that have lines
  for (int block = 0; block < 128; ++block) {
    if (!R.begin("subsets")) continue;
    for (int m = block * 64; m < block * 64 + 64; ++m) {
      Table t;
      std::set<int> rm;
      for (int i = 0; i < 13; ++i)
        if (m >> i & 1) { t[C(kOwners[i])]->dynamic(true); rm.insert(kOwners[i]); }
      R.note("dynamic: " + bare(rm));
      LongPeriodEquilibrium e(t);
      compare(e, rm, "subset", "dynamic: " + bare(rm), R.thorough() || m % 8 == 0);
      if (m % 97 == 0) R.sample("dynamic: " + bare(rm) + ", all dates and latitudes");
    }
  }
  // every date of a lattice, no constituent and all of them
  const int n = R.thorough() ? 4000 : 800;
  for (int b = 0; b < 40; ++b) {
    if (!R.begin("dates")) continue;
    Table none, all;
    for (int i : kOwners) all[C(i)]->dynamic(true);
    LongPeriodEquilibrium e0(none), e1(all);
    for (int i = 0; i < n / 40; ++i) {
      const double e = -631152000.0 + (b * (n / 40) + i) * (2.8e9 / n);
      for (int k = 0; k < 3; ++k) {
        const auto s = lpe::sums(k, e, 20);
        const Astronomic a(static_cast<Formulae>(k), e, 20);
        for (double lat : {-60.0, 5.0, 77.0}) {
          const double w0 = lpe::height(s, lat, [](int) { return false; });
          const double w1 = lpe::height(s, lat, [](int i) { for (int o : kOwners) if (i == o) return true; return false; });
          R.transition(2);
          const double g0 = e0.lpe_minus_n_waves(a, lat), g1 = e1.lpe_minus_n_waves(a, lat);
          R.state(vp::mix(vp::bits(g0), vp::bits(g1)));
          if (!(std::fabs(g0 - w0) <= kTol) || !(std::fabs(g1 - w1) <= kTol)) R.fail("date", Str() << "epoch " << e << " formulae " << k << " latitude " << lat << ": " << g0 << " and " << g1 << " (all dynamic), expected " << w0 << " and " << w1);
        }
      }
    }
    R.trace();
  }
  // latitudes
  for (int b = 0; b < 8; ++b) {
    if (!R.begin("latitudes")) continue;
    Table t;
    if (b & 1) t[fes::kMf]->dynamic(true);
    LongPeriodEquilibrium e(t);
    const Date& D = kDates[b % 7];
    const auto s = lpe::sums(D.k, D.e, D.leap);
    const Astronomic a(static_cast<Formulae>(D.k), D.e, static_cast<uint16_t>(D.leap));
    for (int i = -720; i <= 720; ++i) {
      const double lat = i / 8.0, g = e.lpe_minus_n_waves(a, lat), w = lpe::height(s, lat, [&](int o) { return (b & 1) && o == fes::kMf; });
      R.transition();
      R.state(vp::bits(g));
      if (!(std::fabs(g - w) <= kTol)) R.fail("latitude", Str() << "latitude " << lat << ": " << g << " expected " << w);
    }
    R.trace();
  }
  // every constituent alone; every flag and value that must not matter
  for (int i = 0; i < 75; ++i) {
    if (!R.begin("alone")) continue;
    const std::string nm = golden::table()[i].name;
    bool owner = false;
    for (int o : kOwners) owner = owner || o == i;
    for (int other = 0; other < 8; ++other) {
      Table t;
      if (other & 1) t[C(i)]->admittance(!t[C(i)]->admittance());
      if (other & 2) for (auto w : t) { w->tide({3.5, -2.25}); w->admittance(true); }
      if (other & 4) t.compute_nodal_corrections(Astronomic(Formulae::kMeeus, 8e8, 30));
      LongPeriodEquilibrium before(t);
      compare(before, {}, "flags", nm + " with other flags", true);
      t[C(i)]->dynamic(true);
      LongPeriodEquilibrium e(t);
      compare(e, owner ? std::set<int>{i} : std::set<int>{}, "alone:" + nm, "only " + nm + " dynamic", true);
      compare(before, {}, "aliasing", "object made before " + nm + " became dynamic", true);
      t[C(i)]->dynamic(false);
      LongPeriodEquilibrium again(t);
      compare(again, {}, "reset:" + nm, nm + " no longer dynamic", true);
    }
    R.sample("only " + nm + " dynamic, 8 settings of the other flags");
  }
  // all non owners together, all together
  if (R.begin("all")) {
    Table t;
    std::set<int> own(kOwners, kOwners + 13);
    for (auto w : t) if (!own.count(w->ident())) w->dynamic(true);
    LongPeriodEquilibrium e(t);
    compare(e, {}, "others", "every constituent without lines dynamic", true);
    for (auto w : t) w->dynamic(true);
    LongPeriodEquilibrium f(t);
    compare(f, own, "everything", "every constituent dynamic", true);
  }
  // histories: disabling in steps, in any order, twice; evaluations between
  for (int i = 0; i < 13; ++i)
    for (int j = 0; j < 13; ++j) {
      if (!R.begin("histories")) continue;
      const int a = kOwners[i], b = kOwners[j];
      Table ta, tb;
      ta[C(a)]->dynamic(true);
      tb[C(b)]->dynamic(true);
      std::set<int> ab = {a, b};
      LongPeriodEquilibrium e;
      compare(e, {}, "default", "default object", false);
      e.disable_dynamic_wave(ta);
      compare(e, {a}, "step", "disable " + bare({a}), false);
      e.disable_dynamic_wave(tb);
      compare(e, ab, "steps", "disable " + bare({a}) + " then " + bare({b}), false);
      e.disable_dynamic_wave(ta);
      compare(e, ab, "steps", "disable again " + bare({a}), false);
      LongPeriodEquilibrium copy(e), fresh(tb);
      compare(copy, ab, "copy", "copy", false);
      compare(fresh, {b}, "shared", "object made later for " + bare({b}), false);
      // order of evaluations: bitwise the same answers
      std::vector<double> first;
      for (int pass = 0; pass < 3; ++pass) {
        std::vector<double> v(21);
        for (int q = 0; q < 21; ++q) {
          const int x = pass == 0 ? q : pass == 1 ? 20 - q : (q * 8) % 21;
          const Date& D = kDates[x / 3];
          v[x] = copy.lpe_minus_n_waves(Astronomic(static_cast<Formulae>(D.k), D.e, static_cast<uint16_t>(D.leap)), kLats[x % 3 + 3]);
        }
        if (pass == 0) first = v;
        else if (first != v) R.fail("memory", "evaluations depend on earlier ones");
        R.transition(21);
      }
      R.trace();
    }
  // close latitudes and dates one after the other: the same as from afar
  for (int d = 0; d < 7; ++d)
    for (int l = 0; l < 8; ++l) {
      if (!R.begin("close")) continue;
      const Date& D = kDates[d];
      const auto at = [&](double e) { return Astronomic(static_cast<Formulae>(D.k), e, static_cast<uint16_t>(D.leap)); };
      Table t;
      t[fes::kMm]->dynamic(true);
      LongPeriodEquilibrium e(t), other(t);
      for (int x = 1; x < 15; ++x)
        for (int sign : {-1, 1})
          for (int what = 0; what < 3; ++what) {
            const double lat = kLats[l] + (what != 1 ? sign * std::pow(10.0, -x) : 0), ep = D.e + (what != 0 ? sign * std::pow(10.0, 5 - x) : 0);
            other.lpe_minus_n_waves(at(-D.e + 3e8), -kLats[l] / 2 + 11);
            const double want = other.lpe_minus_n_waves(at(ep), lat);
            other.lpe_minus_n_waves(at(-D.e + 3e8), -kLats[l] / 2 + 11);
            e.lpe_minus_n_waves(at(D.e), kLats[l]);
            const double got = e.lpe_minus_n_waves(at(ep), lat);
            R.transition(5);
            R.state(vp::mix(vp::bits(got), what));
            if (!(std::fabs(got - want) <= 1e-13 * (1 + std::fabs(want)))) R.fail("close", Str() << "epoch " << ep << " latitude " << lat << ": " << got << " after epoch " << D.e << " latitude " << kLats[l] << ", " << want << " after others");
          }
      R.trace();
    }
}
VP_MAIN(run)
