// C01: predictions do not depend on threads.
#include "models.hpp"
#include "sched.hpp"
using md::Cx;
using vp::R;
using vp::Str;

namespace {
struct Point { double lon, lat, epoch; int leap; };
// Positions of a model: at data, between them, outside of it, undefined.
template <typename M>
std::vector<std::pair<double, double>> places(int kind) {
  const auto nodes = md::Make<M>::nodes(kind);
  const auto& a = nodes.front();
  const auto& b = nodes[nodes.size() / 2];
  const auto& c = nodes.back();
  return {{a.x, a.y}, {0.75 * a.x + 0.25 * nodes[1].x + 0.011, 0.75 * a.y + 0.25 * nodes[1].y + 0.007}, {b.x + 0.04, b.y + 0.03}, {c.x - 0.02, c.y - 0.05},
          {a.x, a.y}, {b.x + 360.04, b.y + 0.03}, {c.x, c.y}, {b.x + 40, 75.5}, {vp::kNaN, b.y}, {a.x - 1.25, a.y - 0.5}, {b.x, vp::kNaN}, {c.x + 0.9, c.y + 0.9}};
}
constexpr double kDates[] = {946728000.0, 946728000.0, 946728000.0 + 1e-3, 1483228799.5, -86400.0, vp::kNaN, 946728000.0, 1720000000.25};
constexpr int kLeaps[] = {32, 32, 32, 36, 0, 30, 33, 37};
// how the points follow each other
std::vector<Point> sequence(const std::vector<std::pair<double, double>>& at, int pattern, int n) {
  std::vector<Point> p;
  for (int i = 0; i < n; ++i) {
    int a = 0, d = 0;
    switch (pattern) {
      case 0: a = i; d = i; break;                                   // everything changes
      case 1: a = (i % 2) ? 7 + (i / 2) % 5 : i / 2; d = 0; break;    // every other one outside
      case 2: a = (i / 2) % 7; d = (i + 1) % 8; break;                // positions repeated
      default: a = 11 - i % 12; d = i / 2; break;                     // dates repeated
    }
    p.push_back({at[a % at.size()].first, at[a % at.size()].second, kDates[d % 8], kLeaps[d % 8]});
  }
  return p;
}
struct Out { std::vector<double> h, lp; std::vector<int> q; std::string error; };
template <typename T>
Out predict(const fes::AbstractTidalModel<T>& m, const std::vector<Point>& p, const fes::Settings& s, size_t threads) {
  const int n = int(p.size());
  Eigen::VectorXd e(n), lo(n), la(n);
  fes::Vector<uint16_t> leap(n);
  for (int i = 0; i < n; ++i) { e[i] = p[i].epoch; lo[i] = p[i].lon; la[i] = p[i].lat; leap[i] = uint16_t(p[i].leap); }
  Out o;
  try {
    const auto r = fes::evaluate_tide<T>(&m, e, leap, lo, la, s, threads);
    for (int i = 0; i < std::get<0>(r).size(); ++i) { o.h.push_back(std::get<0>(r)[i]); o.lp.push_back(std::get<1>(r)[i]); o.q.push_back(int(std::get<2>(r)[i])); }
  } catch (const std::exception& x) {
    o.error = x.what();
    if (o.error.empty()) o.error = "error";
  }
  return o;
}
template <typename T>
uint64_t digest(const fes::AbstractTidalModel<T>& m) {
  uint64_t h = vp::mix(m.size(), m.tide_type());
  for (const auto& kv : m.data()) {
    h = vp::mix(h, kv.first);
    for (int i = 0; i < kv.second.size(); ++i) h = vp::mix(vp::mix(h, vp::bits(kv.second[i].real())), vp::bits(kv.second[i].imag()));
  }
  for (auto d : m.dynamic()) h = vp::mix(h, d);
  return h;
}
constexpr double kTol = 1e-10;

template <typename M>
void model(int kind, fes::TideType type, double reach, bool thin) {
  using Mk = md::Make<M>;
  const int size = Mk::size(kind);
  M m = Mk::make(kind, type, reach);
  const fes::Constituent ids[] = {fes::kO1, fes::kK1, fes::kQ1, fes::kN2, fes::kM2, fes::kK2, fes::kMf, fes::kMSf, fes::kS2, fes::kM4};
  for (int i = 0; i < 10; ++i) {
    auto w = md::wave<typename Mk::Value>(size, 3 + i);
    if (i == 4) for (int k = 0; k < size; k += 5) w[k] = std::complex<typename Mk::Value>(vp::kNaN, vp::kNaN);
    m.add_constituent(ids[i], w);
  }
  m.dynamic({fes::kSa, fes::kS1});
  const auto at = places<M>(kind);
  const uint64_t before = digest(m);
  for (int pattern = 0; pattern < 4; ++pattern) {
    std::vector<fes::Constituent> excluded;
    if (pattern & 1) excluded = {fes::kN2, fes::kMf, fes::kJ1};
    const fes::Settings settings(static_cast<fes::angle::Formulae>(pattern % 3), 0.0, excluded);
    for (int n : {1, 2, 3, 5, 7}) {
      const auto points = sequence(at, pattern, n);
      Out want;
      bool done = false;
      struct Ask { size_t threads; int hw; };
      std::vector<Ask> asks = {{1, 2}, {2, 1}, {3, 2}, {4, 0}, {size_t(n) + 3, 8}, {0, 0}, {0, 1}, {0, 2}, {0, 3}, {0, 8}};
      for (const auto& ask : asks) {
        if (thin && ask.threads != 0 && ask.threads != 2 && ask.threads != 3) continue;
        if (pattern >= 2 && !R.thorough() && ask.threads != 2 && ask.threads != 3 && !(ask.threads == 0 && (ask.hw == 0 || ask.hw == 3))) continue;
        if (!R.begin("prediction")) continue;
        if (!done) {
          for (const auto& p : points) {
            const Out one = predict(m, {p}, settings, 1);
            want.h.push_back(one.error.empty() ? one.h[0] : 0);
            want.lp.push_back(one.error.empty() ? one.lp[0] : 0);
            want.q.push_back(one.error.empty() ? one.q[0] : 0);
            if (!one.error.empty()) want.error = one.error;
          }
          done = true;
        }
        const size_t workers = std::min<size_t>(ask.threads ? ask.threads : ask.hw, n);
        sc::Plan p;
        p.hw = ask.hw;
        p.bound = workers <= 2 ? 2 : 1;
        p.delay = workers > 2;
        if (R.thorough()) ++p.bound;
        p.limit = R.thorough() ? 4000 : 400;
        const std::string what = Str() << Mk::name(kind) << (type == fes::kTide ? " ocean" : " radial") << ", " << n << " points of pattern " << pattern << ", " << ask.threads << " threads, " << ask.hw << " processors";
        sc::explore(what, "prediction", p, [&](VpExecution* x) -> std::string {
          const Out o = predict(m, points, settings, ask.threads);
          if (o.error != want.error) return Str() << "error '" << o.error << "' instead of '" << want.error << "'";
          if (!o.error.empty()) return "";
          if (o.h.size() != size_t(n) || o.lp.size() != size_t(n) || o.q.size() != size_t(n)) return "the result has not the size of the request";
          uint64_t h = 0;
          for (int i = 0; i < n; ++i) {
            if (!vp::close(o.h[i], want.h[i], kTol) || !vp::close(o.lp[i], want.lp[i], kTol) || o.q[i] != want.q[i])
              return Str() << "point " << i << " (" << points[i].lon << ", " << points[i].lat << ", date " << points[i].epoch << ", leap " << points[i].leap << "): " << o.h[i] << ", " << o.lp[i] << ", quality " << o.q[i]
                           << "; alone: " << want.h[i] << ", " << want.lp[i] << ", quality " << want.q[i];
            h = vp::mix(h, vp::bits(o.h[i]));
          }
          x->outcome = h;
          if (digest(m) != before) return "the model is not what it was before the prediction";
          if (vp_alive()) return "workers still run when the prediction returns";
          return "";
        });
        for (int i = 0; i < n; ++i) R.outcome(Str() << "quality " << want.q[i]);
      }
    }
  }
}
// The prediction is the first thing asked of the library in its process.
template <typename M>
void first(int formulae, size_t threads) {
  using Mk = md::Make<M>;
  if (!R.begin("first prediction")) return;
  sc::Plan p;
  p.hw = 4;
  p.bound = R.thorough() ? 2 : 1;
  p.delay = 1;
  p.limit = R.thorough() ? 2000 : 100;
  sc::explore(Str() << Mk::name(0) << ", formulae " << formulae << ", first prediction of the process, " << threads << " threads", "first", p, [&](VpExecution* x) -> std::string {
    M m = Mk::make(0, fes::kTide, 0);
    for (auto id : {fes::kM2, fes::kK1, fes::kN2, fes::kO1, fes::kQ1, fes::kK2}) m.add_constituent(id, md::wave<typename Mk::Value>(Mk::size(0), 3 + int(id)));
    m.dynamic({fes::kSa});
    const auto points = sequence(places<M>(0), 0, int(threads) + 1);
    const fes::Settings settings(static_cast<fes::angle::Formulae>(formulae), 0.0, {fes::kJ1});
    const Out o = predict(m, points, settings, threads);
    for (size_t i = 0; i < points.size(); ++i) {
      const Out one = predict(m, {points[i]}, settings, 1);
      if (o.error != one.error) return Str() << "error '" << o.error << "' instead of '" << one.error << "'";
      if (!o.error.empty()) return "";
      if (!vp::close(o.h[i], one.h[0], kTol) || !vp::close(o.lp[i], one.lp[0], kTol) || o.q[i] != one.q[0])
        return Str() << "point " << i << ": " << o.h[i] << ", " << o.lp[i] << ", quality " << o.q[i] << "; alone: " << one.h[0] << ", " << one.lp[0] << ", quality " << one.q[0];
      x->outcome = vp::mix(x->outcome, vp::bits(o.h[i]));
    }
    return "";
  });
}
}  // namespace

static void run() {
  using fes::tidal_model::Cartesian;
  using fes::tidal_model::LGP1;
  using fes::tidal_model::LGP2;
  // before anything else is asked of the library
  for (int f = 0; f < 3; ++f)
    for (size_t threads : {2, 3}) {
      first<Cartesian<double>>(f, threads);
      first<LGP1<double>>(f, threads);
      first<LGP2<double>>(f, threads);
    }
  for (int kind = 0; kind < 3; ++kind) {
    model<Cartesian<double>>(kind, kind == 1 ? fes::kRadial : fes::kTide, 0, false);
    model<LGP1<double>>(kind, fes::kTide, kind == 0 ? 0 : 400e3, false);
    model<LGP2<double>>(kind, kind == 2 ? fes::kRadial : fes::kTide, kind == 1 ? 0 : 400e3, false);
  }
  model<Cartesian<float>>(0, fes::kTide, 0, true);
  model<LGP1<float>>(1, fes::kRadial, 0, true);
  model<LGP2<float>>(2, fes::kTide, 400e3, true);
}
VP_MAIN(run)
