// C12: which constituents enter a prediction, and how often.
#include "fes/tidal_model/cartesian.hpp"
#include "fes/tidal_model/lgp.hpp"
#include "predict.hpp"
#include "vp.hpp"
using vp::R;
using vp::Str;
using predict::C;
using predict::Cx;
using Model = fes::tidal_model::Cartesian<double>;
using Any = fes::AbstractTidalModel<double>;

static Cx value(int i, int salt) { return {std::sin(i * 1.7 + salt) * 60 + 3, std::cos(i * 2.3 + salt * 5) * 45 - 1}; }

struct Date { int k; double e; int leap; double lat; };
static const Date kDates[] = {{0, 951782400.25, 32, 20.5}, {1, 1483228799.0, 36, -35.0}, {2, 631152000.0, 25, 70.0}, {1, -126230400.0, 0, 0.0}, {0, 1720000000.0, 37, -62.25}};

enum { kAbsent, kProvided, kExcluded, kDeclared, kExcludedOnly, kStates };
static const char* kState[] = {"absent", "provided", "provided and excluded", "declared dynamic", "excluded"};

struct Config {
  uint8_t s[75];
  bool ocean = true;
  int salt = 0;
  bool reverse = false, twice = false;
  Config() { std::memset(s, 0, sizeof s); }
  std::string str() const {
    Str o;
    int n = 0;
    for (int i = 0; i < 75; ++i) if (s[i] && n++ < 14) o << golden::table()[i].name << " " << kState[s[i]] << ", ";
    o << n << " constituents, " << (ocean ? "ocean" : "radial");
    return o;
  }
};

// Where the prediction is made: all fields are uniform, so that the values are
// the same wherever they are defined.
enum { kGrid, kOneHole, kTwoHoles, kThreeHoles, kOwnHoles, kInside1, kInside2, kVertex1, kVertex2, kOutside1, kOutside2, kPlaces };
static const char* kPlace[] = {"grid", "grid, a node undefined", "grid, two nodes undefined", "grid, three nodes undefined", "grid, nodes undefined depend on the constituent", "LGP1", "LGP2", "vertex of LGP1", "vertex of LGP2", "outside LGP1", "outside LGP2"};

// Holds a model; lat: where the prediction is made, at the longitude 3.25
static std::unique_ptr<Any> model(const Config& c, int place, double lat, int& size) {
  const auto type = c.ocean ? fes::kTide : fes::kRadial;
  if (place < kInside1) {
    static const fes::Axis lon(Eigen::VectorXd::LinSpaced(2, 0.0, 10.0)), y(Eigen::VectorXd::LinSpaced(2, -90.0, 90.0));
    size = 4;
    return std::make_unique<Model>(lon, y, type);
  }
  const bool in = place <= kInside2, at = !in && place <= kVertex2;
  Eigen::VectorXd x(3), y(3);
  x << 3.25, 4.25, 3.25;
  const double top = at ? lat : in ? lat + 0.5 : lat - 0.25;
  y << top, top - 0.125, top - 1;
  if (in) x << 3, 4.25, 3;
  Eigen::Matrix<int32_t, Eigen::Dynamic, 3> t(1, 3);
  t << 0, 1, 2;
  auto index = std::make_shared<fes::mesh::Index>(x, y, t);
  if (place % 2 == kInside1 % 2) {
    Eigen::Matrix<int, Eigen::Dynamic, 3> codes(1, 3);
    codes << 2, 0, 1;
    size = 3;
    return std::make_unique<fes::tidal_model::LGP1<double>>(index, codes, type, 1e6);
  }
  Eigen::Matrix<int, Eigen::Dynamic, 6> codes(1, 6);
  codes << 5, 0, 4, 1, 3, 2;
  size = 6;
  return std::make_unique<fes::tidal_model::LGP2<double>>(index, codes, type, 1e6);
}
static bool hole(int place, int node, int i) {
  if (place == kOwnHoles) return (node + i) % 4 < i % 3 + (i % 5 == 0);
  return place && place < kOwnHoles && (node + place) % 4 < place;
}

static void check(const Config& c, const std::string& key, int dates, bool undefined = false, int nan_one = -1, int place = kGrid) {
  std::set<int> p, x, d;
  std::vector<Cx> v(75);
  for (int i = 0; i < 75; ++i) {
    v[i] = value(i, c.salt);
    if (c.s[i] == kProvided || c.s[i] == kExcluded) {
      p.insert(i);
    }
    if (c.s[i] == kExcluded || c.s[i] == kExcludedOnly) x.insert(i);
    if (c.s[i] == kDeclared) d.insert(i);
  }
  if (p.empty() && place >= kInside1) return;  // quality of a mesh without any constituent: not judged
  std::vector<fes::Constituent> xs, ds;
  for (int i : x) xs.push_back(C(i));
  for (int i : d) ds.push_back(C(i));
  if (c.reverse) { std::reverse(xs.begin(), xs.end()); std::reverse(ds.begin(), ds.end()); }
  if (c.twice) { auto a = xs; xs.insert(xs.end(), a.begin(), a.end()); a = ds; ds.insert(ds.begin(), a.begin(), a.end()); }
  uint64_t hh = 0;
  std::unique_ptr<Any> m;
  for (int k = 0; k < dates; ++k) {
    const Date& D = kDates[(k + c.salt) % 5];
    if (!m || place >= kInside1) {
      int n = 0;
      m = model(c, place, D.lat, n);
      for (int i : p) {
        fes::Vector<Cx> a(n);
        for (int j = 0; j < n; ++j) a[j] = nan_one == i || hole(place, j, i) ? Cx(vp::kNaN, vp::kNaN) : v[i];
        m->add_constituent(C(i), a);
      }
      m->dynamic(ds);
    }
    Eigen::VectorXd e(1), lo(1), la(1);
    fes::Vector<uint16_t> leap(1);
    e << D.e; leap << static_cast<uint16_t>(D.leap); lo << (undefined ? 55.0 : 3.25); la << D.lat;
    Eigen::VectorXd h, lp;
    fes::Vector<fes::Quality> q;
    std::tie(h, lp, q) = fes::evaluate_tide<double>(m.get(), e, leap, lo, la, fes::Settings(static_cast<fes::angle::Formulae>(D.k), 0.0, xs), 1);
    const bool undef = undefined || nan_one >= 0 || p.empty();
    const auto w = predict::tide(predict::terms(D.k, D.e, D.leap), D.lat, c.ocean, v, p, x, d, undef);
    R.transition();
    hh = vp::mix(vp::mix(hh, vp::bits(h[0])), vp::bits(lp[0]));
    const double tol = 1e-7;
    if (!vp::close(h[0], w.h, tol)) R.fail(key + ":short", Str() << c.str() << ", " << kPlace[place] << ", epoch " << D.e << ": diurnal and semi-diurnal height " << h[0] << ", expected " << w.h);
    if (!vp::close(lp[0], w.lp, tol)) R.fail(key + ":long", Str() << c.str() << ", " << kPlace[place] << ", epoch " << D.e << ": long period height " << lp[0] << ", expected " << w.lp);
    if ((q[0] == fes::kUndefined) != undef) R.fail(key + ":quality", Str() << c.str() << ", " << kPlace[place] << ": quality " << int(q[0]));
  }
  R.state(hh);
  R.trace();
}

static const int kMajors[] = {fes::kQ1, fes::kO1, fes::kK1, fes::kN2, fes::kM2, fes::kK2, fes::k2N2};
static const int kOwners[13] = {fes::kM0, fes::kMm, fes::kMf, fes::kMtm, fes::kMsqm, fes::kSsa, fes::kSa1, fes::kSta, fes::kMm1, fes::kMf1, fes::kA5, fes::kMm2, fes::kMf2};

static void background(Config& c, int b) {
  for (int i = 0; i < 75; ++i) {
    bool major = false;
    for (int m : kMajors) major = major || m == i;
    c.s[i] = b == 0 ? kAbsent : b == 1 ? kProvided : b == 2 ? kExcluded : b == 3 ? (major ? kProvided : kAbsent) : b == 4 ? (major ? kExcluded : kAbsent) : (major ? kProvided : kDeclared);
  }
}

static void run() {
  for (int i = 0; i < 75; ++i)
    for (int b = 0; b < 6; ++b) {
      if (!R.begin("single")) continue;
      R.note(Str() << golden::table()[i].name << " background " << b);
      for (int st = 0; st < kStates; ++st)
        for (int o = 0; o < 2; ++o)
          for (int variant = 0; variant < 4; ++variant) {
            Config c;
            background(c, b);
            c.s[i] = static_cast<uint8_t>(st);
            c.ocean = o;
            c.salt = variant;
            c.reverse = variant & 1;
            c.twice = variant & 2;
            check(c, std::string("single:") + golden::table()[i].name, variant ? 2 : 5);
            if (st == 0 && o == 0 && variant == 0) R.sample(c.str());
          }
    }
  for (int i = 0; i < 75; ++i)
    for (int j = 0; j < i; ++j) {
      if (!R.begin("pairs")) continue;
      R.note(Str() << golden::table()[i].name << " and " << golden::table()[j].name);
      for (int a = 0; a < 4; ++a)
        for (int b = 0; b < 4; ++b)
          for (int bg : R.thorough() ? std::vector<int>{0, 3, 1} : std::vector<int>{3}) {
            Config c;
            background(c, bg);
            c.s[i] = static_cast<uint8_t>(a);
            c.s[j] = static_cast<uint8_t>(b);
            c.salt = (i + j) % 5;
            check(c, "pair", 1);
          }
    }
  // every subset of the majors, in three states each: 3^7
  for (int blk = 0; blk < 81; ++blk) {
    if (!R.begin("majors")) continue;
    for (int m = blk * 27; m < blk * 27 + 27; ++m)
      for (int rest = 0; rest < 3; ++rest) {
        Config c;
        int z = m;
        if (rest == 1) for (int i = 0; i < 75; ++i) c.s[i] = kProvided;
        if (rest == 2) for (int i = 0; i < 75; ++i) c.s[i] = golden::table()[i].admittance ? kExcluded : kAbsent;
        for (int k : kMajors) { c.s[k] = static_cast<uint8_t>(z % 3); z /= 3; }
        c.salt = m % 5;
        check(c, "majors", 1);
      }
  }
  // every subset of the constituents with equilibrium lines
  for (int blk = 0; blk < 128; ++blk) {
    if (!R.begin("equilibrium")) continue;
    for (int m = blk * 64; m < blk * 64 + 64; ++m) {
      if (!R.thorough() && __builtin_popcount(m) % 3 == 1 && m % 5) continue;
      Config c;
      c.s[fes::kM2] = kProvided;
      for (int i = 0; i < 13; ++i) c.s[kOwners[i]] = m >> i & 1 ? (i + m) % 3 == 0 ? kDeclared : kProvided : (i + m) % 4 == 0 ? kExcluded : kAbsent;
      c.salt = m % 5;
      check(c, "equilibrium", 1);
    }
  }
  // subsets of the inferable constituents
  const auto& rules = admit::rules();
  const int n = static_cast<int>(rules.size());
  for (int blk = 0; blk < 512; ++blk) {
    if (!R.begin("inferable")) continue;
    const int per = (1 << n) / 512;
    for (int m = blk * per; m < (blk + 1) * per; ++m) {
      const int pc = __builtin_popcount(m);
      if (!R.thorough() && pc > 2 && pc < n - 1 && m % 61) continue;
      Config c;
      for (int k : kMajors) c.s[k] = kProvided;
      for (int i = 0; i < n; ++i) c.s[rules[i].target] = m >> i & 1 ? (i + m) % 5 == 0 ? kDeclared : kProvided : (i + m) % 3 == 0 ? kExcluded : kAbsent;
      c.salt = m % 5;
      check(c, "inferable", 1);
    }
  }
  // every kind of model and every quality
  for (int i = 0; i < 75; ++i)
    for (int place = 1; place < kPlaces; ++place) {
      if (!R.begin("places")) continue;
      for (int b = 0; b < 6; ++b)
        for (int st = 0; st < kStates; ++st) {
          Config c;
          background(c, b);
          c.s[i] = static_cast<uint8_t>(st);
          c.ocean = (i + b + st) % 3 != 0;
          c.salt = (i + b) % 5;
          check(c, "places", R.thorough() ? 5 : 1, false, -1, place);
        }
    }
  // undefined positions and one undefined constituent
  for (int i = 0; i < 75; ++i) {
    if (!R.begin("undefined")) continue;
    for (int b = 0; b < 6; ++b)
      for (int st : {kProvided, kExcluded}) {
        Config c;
        background(c, b);
        c.s[i] = static_cast<uint8_t>(st);
        c.ocean = (i + b) % 3 != 0;
        check(c, "undefined", 2, true);
        check(c, "undefined-one", 2, false, i);
      }
  }
}
VP_MAIN(run)
