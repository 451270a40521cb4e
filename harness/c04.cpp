// C04: what is processed earlier has no influence.
#include "models.hpp"
using md::Cx;
using vp::R;
using vp::Str;

namespace {
struct At { double x, y; std::string what; };
struct Got { std::vector<std::pair<int, Cx>> v; int q; std::string error; };
template <typename M>
Got ask(const M& m, fes::Accelerator* acc, const At& p) {
  Got g;
  g.q = -1;
  g.error = vp::thrown([&] {
    fes::Quality q = static_cast<fes::Quality>(77);
    for (const auto& kv : m.interpolate({p.x, p.y}, q, acc)) g.v.push_back({int(kv.first), kv.second});
    g.q = int(q);
  });
  return g;
}
bool same(const Got& a, const Got& b) {
  if (a.q != b.q || a.error != b.error || a.v.size() != b.v.size()) return false;
  for (size_t i = 0; i < a.v.size(); ++i) if (a.v[i].first != b.v[i].first || !vp::closec(a.v[i].second, b.v[i].second, 1e-7)) return false;
  return true;
}
std::string show(const Got& g) {
  Str o;
  o << "quality " << g.q << g.error;
  for (size_t i = 0; i < g.v.size() && i < 3; ++i) o << " " << g.v[i].second.real() << "," << g.v[i].second.imag();
  return o;
}
std::vector<At> common(double x, double y) {
  return {{vp::kNaN, y, "undefined longitude"}, {x, vp::kNaN, "undefined latitude"}, {x + 150, 77.7, "far outside"}, {x + 180, -y, "antipode"}};
}
template <typename M> struct Places {  // of a mesh
  static std::vector<At> get(int kind) {
    const auto m = md::mesh(kind);
    std::vector<At> r;
    auto centre = [&](size_t k, double u, double v, const char* w) {
      const auto &a = m.p[m.t[k].v[0]], &b = m.p[m.t[k].v[1]], &c = m.p[m.t[k].v[2]];
      r.push_back({a.x + u * vm::wrap(b.x - a.x) + v * vm::wrap(c.x - a.x), a.y + u * (b.y - a.y) + v * (c.y - a.y), Str() << w << " of triangle " << k});
    };
    const size_t n = m.t.size();
    for (size_t k : {size_t(0), size_t(1) % n, n / 2, n - 1}) centre(k, 1.0 / 3, 1.0 / 3, "middle");
    centre(0, 0.6, 0.25, "inside");
    centre(0, 0.5, 0, "edge 0");
    centre(0, 0.5, 0.5, "edge 1");
    centre(n - 1, 0, 0.5, "edge 2");
    for (size_t k : {size_t(0), n - 1})
      for (int j = 0; j < 3; ++j) {
        if (k && j) continue;
        const auto& p = m.p[m.t[k].v[j]];
        r.push_back({p.x, p.y, Str() << "vertex " << j << " of triangle " << k});
      }
    r.push_back({r[0].x + 360, r[0].y, "middle of triangle 0, next turn"});
    r.push_back({r[3].x - 720, r[3].y, "middle of the last triangle, two turns before"});
    double xmin = 1e9, ymin = 1e9;
    for (const auto& t : m.t) for (int v : t.v) { xmin = std::min(xmin, m.p[v].x); ymin = std::min(ymin, m.p[v].y); }
    r.push_back({xmin - 0.8, ymin - 0.6, "outside, near"});
    r.push_back({xmin - 5.5, ymin - 3.5, "outside"});
    for (auto& a : common(r[0].x, r[0].y)) r.push_back(a);
    r.push_back({m.p[m.t[0].v[0]].x + 180, -m.p[m.t[0].v[0]].y, "antipode of vertex 0 of triangle 0"});
    r.push_back({m.p[m.t[0].v[1]].x - 180, -m.p[m.t[0].v[1]].y, "antipode of vertex 1 of triangle 0"});
    return r;
  }
};
template <typename T> struct Places<fes::tidal_model::Cartesian<T>> {
  static std::vector<At> get(int kind) {
    const auto g = md::grid(kind);
    const int nx = g.lon.size(), ny = g.lat.size();
    auto at = [&](double i, double j, const char* w) {
      const int i0 = std::min(int(i), nx - 2), j0 = std::min(int(j), ny - 2);
      return At{g.lon(i0) + (i - i0) * (g.lon(1) - g.lon(0)), g.lat(j0) + (j - j0) * (g.lat(1) - g.lat(0)), Str() << w << " " << i << ":" << j};
    };
    std::vector<At> r;
    for (int i = 0; i < nx; i += 2) for (int j = 0; j < ny; j += 2) r.push_back(at(i, j, "node"));
    r.push_back(at(0.25, 0.5, "cell"));
    r.push_back(at(0.75, 0.125, "cell"));
    r.push_back(at(nx - 1.5, ny - 1.25, "cell"));
    r.push_back(at(1, 0.5, "edge"));
    r.push_back(at(nx - 1 + 0.25, 0.5, "past the last longitude"));
    r.push_back(at(-0.5, 0.25, "before the first longitude"));
    r.push_back(at(0.25, ny - 1 + 0.5, "past the last latitude"));
    r.push_back({r[0].x + 360, r[0].y, "next turn"});
    for (auto& a : common(r[0].x + 0.1, r[0].y)) r.push_back(a);
    return r;
  }
};
template <typename M>
M make(int kind, fes::TideType type, double reach, int holes) {
  using Mk = md::Make<M>;
  const int size = Mk::size(kind);
  M m = Mk::make(kind, type, reach);
  const fes::Constituent ids[] = {fes::kM2, fes::kO1, fes::kK1, fes::kMf, fes::kN2, fes::kS2};
  for (int i = 0; i < 6; ++i) {
    auto w = md::wave<typename Mk::Value>(size, 3 + i);
    if (holes && i % 2 == 0) for (int k = 1; k < size; k += 3) w[k] = std::complex<typename Mk::Value>(vp::kNaN, vp::kNaN);
    m.add_constituent(ids[i], w);
  }
  return m;
}

template <typename M>
void interpolations(int kind, double reach, int holes) {
  const M m = make<M>(kind, fes::kTide, reach, holes);
  const auto at = Places<M>::get(kind);
  const int n = int(at.size());
  std::vector<Got> alone;
  const std::string name = Str() << md::Make<M>::name(kind) << " reach " << reach;
  auto fresh = [&] { return std::unique_ptr<fes::Accelerator>(m.accelerator(fes::angle::Formulae::kSchuremanOrder1, 0)); };
  for (int a = 0; a < n; ++a)
    for (int b = 0; b < n; ++b) {
      if (!R.begin("interpolations")) continue;
      if (alone.empty()) for (const auto& p : at) alone.push_back(ask(m, fresh().get(), p));
      const int depth = R.thorough() ? n : 1;
      for (int c = 0; c < n; ++c)
        for (int d = 0; d < depth; ++d) {
          const auto acc = fresh();
          const int s[] = {a, b, c, d};
          for (int k = 0; k < (R.thorough() ? 4 : 3); ++k) {
            const Got g = ask(m, acc.get(), at[s[k]]);
            R.transition();
            if (same(g, alone[s[k]])) continue;
            R.fail(Str() << "interpolation:" << (at[s[k]].what.substr(0, 8)), Str() << name << ": " << at[s[k]].what << " (" << at[s[k]].x << ", " << at[s[k]].y << ") after " << (k > 0 ? at[s[k - 1]].what : "nothing") << ": " << show(g) << " instead of " << show(alone[s[k]]));
            break;
          }
          R.trace();
        }
      R.state(vp::mix(vp::hash(name), a * 100 + b));
      R.outcome(Str() << "quality " << alone[b].q);
    }
}

// ---------------------------------------------------------------- angles
struct Event { double e; int leap; };
struct Angles {
  double v[12];
  explicit Angles(const fes::angle::Astronomic& a) {
    const double x[] = {a.t(), a.h(), a.s(), a.n(), a.p(), a.p1(), a.i(), a.xi(), a.nu(), a.x1ra(), a.r(), a.nuprim()};
    for (int i = 0; i < 12; ++i) v[i] = x[i];
  }
  bool operator==(const Angles& o) const { for (int i = 0; i < 12; ++i) if (!vp::close(v[i], o.v[i], 1e-13)) return false; return true; }
};
void angles() {
  using F = fes::angle::Formulae;
  const double e0 = 946728000.0;
  const std::vector<Event> events = {{e0, 32}, {e0, 33}, {e0 + 1, 32}, {e0 + 60, 32}, {e0 + 61.5, 32}, {e0 - 59.5, 32}, {e0 + 3600, 32}, {vp::kNaN, 32}, {0, 0}, {e0 + 3601, 0}, {-1e12, 0}, {e0 + 0.25, 32}, {1, 0}, {vp::kNaN, 0}};
  const double tolerances[] = {0, 0.25, 1, 60, 3600, 1e9};
  const int n = int(events.size());
  for (F f : {F::kSchuremanOrder1, F::kSchuremanOrder3, F::kMeeus}) {
    std::vector<Angles> own;
    for (const auto& ev : events) own.emplace_back(fes::angle::Astronomic(f, ev.e, uint16_t(ev.leap)));
    for (double tol : tolerances)
      for (int a = 0; a < n; ++a)
        for (int b = 0; b < n; ++b) {
          if (!R.begin("angles")) continue;
          for (int c = 0; c < n; ++c)
            for (int d = 0; d < n; ++d) {
              fes::Accelerator acc(f, tol, 0);
              const int s[] = {a, b, c, d};
              // dates whose angles may be in place
              std::vector<int> last;
              for (int k = 0; k < 4; ++k) {
                const Angles got(acc.calculate_angle(events[s[k]].e, uint16_t(events[s[k]].leap)));
                R.transition();
                std::vector<int> now;
                if (got == own[s[k]]) now.push_back(s[k]);
                for (int j : last) {
                  const bool near = tol > 0 ? std::fabs(events[j].e - events[s[k]].e) <= tol : events[j].e == events[s[k]].e && events[j].leap == events[s[k]].leap;
                  if (near && j != s[k] && got == own[j]) now.push_back(j);
                }
                if (now.empty()) {
                  Str o;
                  for (int i = 0; i <= k; ++i) o << events[s[i]].e << " (leap " << events[s[i]].leap << ") ";
                  R.fail(tol > 0 ? "angles:tolerance" : "angles:exact", Str() << "tolerance " << tol << ", formulae " << int(f) << ", dates " << o << ": the angles are not those of the last date nor of one near it");
                  break;
                }
                last = now;
                R.outcome(now[0] == s[k] ? "own angles" : "angles of a near date");
              }
              R.trace();
            }
          R.state(vp::mix(vp::bits(tol), (a * 100 + b) * 3 + int(f)));
        }
  }
}

// ---------------------------------------------------------------- calls
struct Step { double x, y; Event ev; };
struct Height { double h, lp; int q; };
template <typename T>
std::vector<Height> predict(const fes::AbstractTidalModel<T>& m, const std::vector<Step>& p, const fes::Settings& s) {
  const int n = int(p.size());
  Eigen::VectorXd e(n), lo(n), la(n);
  fes::Vector<uint16_t> leap(n);
  for (int i = 0; i < n; ++i) { e[i] = p[i].ev.e; lo[i] = p[i].x; la[i] = p[i].y; leap[i] = uint16_t(p[i].ev.leap); }
  const auto r = fes::evaluate_tide<T>(&m, e, leap, lo, la, s, 1);
  std::vector<Height> o;
  for (int i = 0; i < n; ++i) o.push_back({std::get<0>(r)[i], std::get<1>(r)[i], int(std::get<2>(r)[i])});
  return o;
}
bool same(const Height& a, const Height& b) { return a.q == b.q && vp::close(a.h, b.h, 1e-9) && vp::close(a.lp, b.lp, 1e-9); }
template <typename M>
void calls(int kind, fes::TideType type, double reach, int holes) {
  M m = make<M>(kind, type, reach, holes);
  m.dynamic({fes::kS1});
  const auto places = Places<M>::get(kind);
  const int n = int(places.size());
  const double e0 = 946728000.0;
  const Event dates[] = {{e0, 32}, {e0 + 40, 32}, {1483228799.5, 36}, {vp::kNaN, 0}, {e0, 33}};
  // positions x dates, two by two and three by three
  std::vector<Step> steps;
  std::vector<int> date;
  for (int i = 0; i < n; ++i) { steps.push_back({places[i].x, places[i].y, dates[i % 5]}); date.push_back(i % 5); }
  for (int i = 0; i < 5; ++i) { steps.push_back({places[0].x, places[0].y, dates[i]}); date.push_back(i); }
  const int ns = int(steps.size());
  const std::string name = Str() << md::Make<M>::name(kind) << (type == fes::kTide ? " ocean" : " radial");
  for (double tol : {0.0, 50.0})
    for (int k = 0; k < 3; ++k) {
      if (tol > 0 && k != 1) continue;
      const fes::Settings s(static_cast<fes::angle::Formulae>(k), tol, k == 2 ? std::vector<fes::Constituent>{fes::kN2} : std::vector<fes::Constituent>{});
      const fes::Settings exact(static_cast<fes::angle::Formulae>(k), 0.0, s.excluded());
      std::map<std::pair<int, int>, Height> memo;
      auto alone = [&](int i, int d) -> const Height& {
        auto it = memo.find({i, d});
        if (it == memo.end()) { Step z = steps[i]; z.ev = dates[d]; it = memo.emplace(std::make_pair(i, d), predict<typename md::Make<M>::Value>(m, {z}, exact)[0]).first; }
        return it->second;
      };
      for (int a = 0; a < ns; ++a)
        for (int b = 0; b < ns; ++b) {
          if (!R.begin("calls")) continue;
          const int stride = R.thorough() ? 1 : (k == 0 ? 2 : 5);
          for (int c = (a + b) % stride; c < ns; c += stride) {
            const int q[] = {a, b, c};
            const auto got = predict<typename md::Make<M>::Value>(m, {steps[a], steps[b], steps[c]}, s);
            R.transition(3);
            R.trace();
            for (int i = 0; i < 3; ++i) {
              bool ok = same(got[i], alone(q[i], date[q[i]]));
              // the angles may be those of a date of the call within the tolerance
              for (int j = 0; j < i && tol > 0 && !ok; ++j) ok = std::fabs(dates[date[q[j]]].e - dates[date[q[i]]].e) <= tol && same(got[i], alone(q[i], date[q[j]]));
              if (ok) continue;
              const auto& w = alone(q[i], date[q[i]]);
              R.fail(tol > 0 ? "calls:tolerance" : "calls:exact", Str() << name << ", formulae " << k << ", tolerance " << tol << ": point " << i << " of (" << steps[a].x << ", " << steps[a].y << ", " << dates[date[a]].e << "), (" << steps[b].x << ", " << steps[b].y << ", " << dates[date[b]].e << "), (" << steps[c].x << ", "
                                                                                << steps[c].y << ", " << dates[date[c]].e << "): " << got[i].h << ", " << got[i].lp << ", " << got[i].q << " instead of " << w.h << ", " << w.lp << ", " << w.q);
              break;
            }
          }
          R.state(vp::mix(vp::mix(vp::hash(name), vp::bits(tol)), (a * 100 + b) * 3 + k));
        }
    }
}
}  // namespace

static void run() {
  using fes::tidal_model::Cartesian;
  using fes::tidal_model::LGP1;
  using fes::tidal_model::LGP2;
  for (int kind = 0; kind < 3; ++kind) {
    interpolations<Cartesian<double>>(kind, 0, 0);
    interpolations<Cartesian<float>>(kind, 0, 1);
    for (double reach : {0.0, 250e3}) {
      interpolations<LGP1<double>>(kind, reach, 0);
      interpolations<LGP2<double>>(kind, reach, kind == 1);
    }
  }
  interpolations<LGP1<float>>(1, 250e3, 1);
  interpolations<LGP2<float>>(2, 250e3, 0);
  angles();
  for (int kind = 0; kind < 3; ++kind) {
    calls<Cartesian<double>>(kind, kind == 2 ? fes::kRadial : fes::kTide, 0, kind != 1);
    calls<LGP1<double>>(kind, kind == 1 ? fes::kRadial : fes::kTide, kind == 0 ? 0 : 250e3, kind == 1);
    calls<LGP2<double>>(kind, fes::kTide, kind == 1 ? 0 : 250e3, 0);
  }
}
VP_MAIN(run)
