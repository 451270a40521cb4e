// C20: saved objects restore to objects that behave identically.
#include "models.hpp"
using namespace md;
using vp::R;

// ---------------------------------------------------------------- axes
static void axis_case(const fes::Axis& a, const std::string& what) {
  R.trace();
  const std::string state = a.getstate();
  R.state(vp::hash(state));
  const std::string copy = state;  // exactly these bytes
  std::unique_ptr<fes::Axis> p;
  const auto e = vp::thrown([&]() { p.reset(new fes::Axis(fes::Axis::setstate(fes::string_view(copy.data(), copy.size())))); });
  if (!e.empty()) return R.fail("axis-refused", Str() << what << ": its own state is refused");
  const fes::Axis& b = *p;
  if (b.getstate() != state) R.fail("axis-state", Str() << what << ": the restored axis saves to another state");
  if (a.size() != b.size() || a.is_circular() != b.is_circular() || a.is_ascending() != b.is_ascending() || a.start() != b.start() || a.end() != b.end() || a.step() != b.step() || a.min_value() != b.min_value() || a.max_value() != b.max_value() || !(a == b))
    return R.fail("axis-attributes", Str() << what << ": attributes differ");
  for (int64_t i = 0; i < a.size(); ++i) if (a(i) != b(i)) return R.fail("axis-values", Str() << what << ": value " << i << " differs");
  const double s = std::fabs(a.step());
  for (int64_t i = -2; i <= a.size() + 1; ++i)
    for (double f : {0.0, 0.25, 0.5, 0.75, 0.9999999})
      for (double turn : {0.0, 360.0, -360.0})
        for (bool bounded : {false, true}) {
          const double x = a.start() + (i + f) * a.step() + turn;
          R.transition();
          if (a.find_index(x, bounded) != b.find_index(x, bounded)) return R.fail("axis-find", Str() << what << ": find_index(" << x << ") differs");
          const auto u = a.find_indices(x), v = b.find_indices(x);
          if (bool(u) != bool(v) || (u && *u != *v)) return R.fail("axis-find", Str() << what << ": find_indices(" << x << ") differs");
        }
  (void)s;
}
static void axes() {
  for (int n : {2, 3, 4, 7, 36, 360})
    for (double step : {0.25, 1.0, 7.5, 10.0, 51.4, 90.0, 120.0, 180.0})
      for (int dir = 0; dir < 2; ++dir)
        for (double start : {0.0, -180.0, 179.5, 355.0, -3.25, 1e-9, 123456.789})
          for (int mode = 0; mode < 4; ++mode) {
            if (!R.begin("axes")) continue;
            Eigen::VectorXd v(n);
            const double st = mode & 1 ? 360.0 / n : step;
            for (int i = 0; i < n; ++i) v[i] = start + (dir ? -st : st) * i;
            if (mode & 2) for (int i = 0; i < n; ++i) v[i] = std::fmod(std::fmod(v[i], 360) + 360, 360);
            std::unique_ptr<fes::Axis> a;
            try { a.reset(new fes::Axis(v, 1e-6, (mode & 1) != 0)); } catch (const std::exception&) { R.outcome("axis refused"); continue; }
            axis_case(*a, Str() << "axis of " << n << " points from " << v[0] << " step " << st << (dir ? " descending" : "") << (a->is_circular() ? " circular" : ""));
          }
  if (R.begin("axes")) {
    const fes::Axis a;
    const auto e = vp::thrown([&]() { const std::string s = a.getstate(); const auto b = fes::Axis::setstate(fes::string_view(s.data(), s.size())); if (!(a == b) || b.getstate() != s || b.size() != a.size()) R.fail("axis-default", "the default axis is not restored"); });
    if (!e.empty()) R.fail("axis-default", "the state of a default axis is refused");
  }
}

// ---------------------------------------------------------------- meshes
static bool same_triangle(const fes::mesh::SelectedTriangle& a, const fes::mesh::SelectedTriangle& b) {
  if (a.inside != b.inside || a.index != b.index) return false;
  if (a.index < 0) return true;
  auto eq = [](const fes::geometry::Point& p, const fes::geometry::Point& q) { return p.lon() == q.lon() && p.lat() == q.lat(); };
  return eq(a.point, b.point) && eq(a.triangle.v1(), b.triangle.v1()) && eq(a.triangle.v2(), b.triangle.v2()) && eq(a.triangle.v3(), b.triangle.v3());
}
static void meshes() {
  const auto fam = vm::family(R.thorough());
  for (auto& base : fam)
    for (size_t pl = 0; pl < vm::places().size(); ++pl)
      for (int how = 0; how < 6; ++how) {
        if (!R.thorough() && (pl * 6 + how + base.t.size()) % 5) continue;
        if (!R.begin("meshes")) continue;
        const auto m = vm::dress(vm::place(base, vm::places()[pl]), how);
        R.note(m.name);
        R.trace();
        const auto a = vm::index(m);
        const std::string state = a->getstate();
        R.state(vp::hash(state));
        std::unique_ptr<fes::mesh::Index> p;
        const auto e = vp::thrown([&]() { p.reset(new fes::mesh::Index(fes::mesh::Index::setstate(fes::string_view(state.data(), state.size())))); });
        if (!e.empty()) { R.fail("mesh-refused", Str() << m.name << ": its own state is refused"); continue; }
        if (p->getstate() != state) R.fail("mesh-state", Str() << m.name << ": the restored mesh saves to another state");
        if (p->n_positions() != a->n_positions() || p->n_triangles() != a->n_triangles()) R.fail("mesh-size", Str() << m.name << ": sizes differ");
        if (p->lon() != a->lon() || p->lat() != a->lat() || p->triangles() != a->triangles()) R.fail("mesh-data", Str() << m.name << ": vertices or triangles differ");
        for (auto& q : vm::queries(m, 2, 4))
          for (double d : {0.0, 2e5}) {
            R.transition();
            if (!same_triangle(a->search({q.x, q.y}, d), p->search({q.x, q.y}, d))) R.fail("mesh-search", Str() << m.name << ": search at (" << q.x << "," << q.y << ") differs");
          }
      }
}

// ---------------------------------------------------------------- models
template <typename M>
static M restore(const std::string& state) {
  std::unique_ptr<char[]> exact(new char[state.size()]);
  std::memcpy(exact.get(), state.data(), state.size());
  return M::setstate(fes::string_view(exact.get(), state.size()));
}
constexpr int kOps = 9;
static const char* kWhat[kOps] = {"add(M2)", "add('K1') with undefined nodes", "add('mm')", "add(S2) of a wrong size", "add('Zz9')", "dynamic(Sa,S2)", "dynamic()", "clear", "add(M2) again"};
template <typename M>
static std::string apply(M& model, int op, int n) {
  using T = typename Make<M>::Value;
  fes::AbstractTidalModel<T>& m = model;
  auto w = wave<T>(n, op + 1);
  return vp::thrown([&]() {
    switch (op) {
      case 0: m.add_constituent(fes::kM2, w); break;
      case 1: w[n / 2] = std::complex<T>(T(vp::kNaN), T(vp::kNaN)); m.add_constituent("K1", w); break;
      case 2: m.add_constituent("mm", w); break;
      case 3: m.add_constituent(fes::kS2, wave<T>(n + 1, 4)); break;
      case 4: m.add_constituent("Zz9", w); break;
      case 5: m.dynamic({fes::kSa, fes::kS2}); break;
      case 6: m.dynamic({}); break;
      case 7: m.clear(); break;
      case 8: m.add_constituent(fes::kM2, w); break;
    }
  });
}
template <typename M>
static std::vector<At> places(int kind) {
  auto r = Make<M>::nodes(kind);
  const size_t n = r.size();
  for (size_t i = 0; i + 1 < n && r.size() < 40; i += 2) {
    const double x = r[i].x + vm::wrap(r[i + 1].x - r[i].x) * 0.4, y = r[i].y * 0.6 + r[i + 1].y * 0.4;
    r.push_back({x, y, -1});
    r.push_back({x + 360, y + 0.1, -1});
  }
  r.push_back({r[0].x - 1.3, r[0].y - 0.7, -1});
  r.push_back({r[0].x + 2.6, r[0].y + 1.2, -1});
  r.push_back({r[0].x + 90, r[0].y, -1});
  return r;
}
// Restored model against the original one.
template <typename M>
static void compare(const M& ma, const M& mb, int kind, const std::string& how, bool predict) {
  using T = typename Make<M>::Value;
  const fes::AbstractTidalModel<T>&a = ma, &b = mb;
  auto bad = [&](const std::string& key, const std::string& what) { R.fail(key, Str() << Make<M>::name(kind) << " after " << how << ": " << what); };
  if (a.identifiers() != b.identifiers() || a.size() != b.size() || a.empty() != b.empty()) return bad("constituents", "other constituents");
  if (a.dynamic() != b.dynamic()) return bad("dynamic", Str() << a.dynamic().size() << " dynamic constituents saved, " << b.dynamic().size() << " restored");
  if (a.tide_type() != b.tide_type()) return bad("type", "another tide type");
  for (auto& kv : a.data()) if (!same_wave<T>(kv.second, b.data().at(kv.first))) return bad("data", "other data");
  if (ma.getstate() != mb.getstate()) return bad("state", "saves to another state");
  std::unique_ptr<fes::Accelerator> u(a.accelerator(fes::angle::Formulae::kSchuremanOrder1, 0)), v(b.accelerator(fes::angle::Formulae::kSchuremanOrder1, 0));
  const auto where = places<M>(kind);
  for (auto& p : where) {
    fes::Quality q, r;
    R.transition();
    const auto& x = a.interpolate({p.x, p.y}, q, u.get());
    const auto& y = b.interpolate({p.x, p.y}, r, v.get());
    bool ok = q == r && x.size() == y.size();
    for (size_t i = 0; ok && i < x.size(); ++i) ok = x[i].first == y[i].first && vp::same(x[i].second.real(), y[i].second.real()) && vp::same(x[i].second.imag(), y[i].second.imag());
    if (!ok) return bad("interpolate", Str() << "interpolation at (" << p.x << "," << p.y << ") differs");
  }
  if (predict) {
    Eigen::VectorXd t(where.size()), lon(where.size()), lat(where.size());
    fes::Vector<uint16_t> leap(where.size());
    for (size_t i = 0; i < where.size(); ++i) { t[i] = 8e8 + 3600.0 * i; lon[i] = where[i].x; lat[i] = where[i].y; leap[i] = 30; }
    const auto x = fes::evaluate_tide(&a, t, leap, lon, lat, fes::Settings(), 1), y = fes::evaluate_tide(&b, t, leap, lon, lat, fes::Settings(), 1);
    for (size_t i = 0; i < where.size(); ++i)
      if (!vp::close(std::get<0>(x)[i], std::get<0>(y)[i], 1e-9) || !vp::close(std::get<1>(x)[i], std::get<1>(y)[i], 1e-9) || std::get<2>(x)[i] != std::get<2>(y)[i]) return bad("predict", "predictions differ");
  }
}
template <typename M>
static void models(int kind, bool predict) {
  const int n = Make<M>::size(kind);
  const int depth = R.thorough() ? 5 : 4;
  for (int variant = 0; variant < 4; ++variant) {
    const auto type = variant & 1 ? fes::kRadial : fes::kTide;
    const double dist = variant & 2 ? 3e5 : 0;
    long total = 1;
    for (int d = 0; d < (variant == 0 || variant == 3 ? depth : 2); ++d) total *= kOps;
    const int chunk = kOps * kOps;
    for (long base = 0; base < total; base += chunk) {
      if (!R.begin("models")) continue;
      for (long s = base; s < base + chunk; ++s) {
        // the original model, and one that is saved and restored after every operation
        M a = Make<M>::make(kind, type, dist);
        std::unique_ptr<M> b(new M(Make<M>::make(kind, type, dist)));
        std::string how = Str() << (type == fes::kRadial ? "radial" : "tide") << (dist > 0 ? ", extrapolating" : "");
        long c = s;
        bool ok = true;
        for (long d = 1; d < total && ok; d *= kOps) {
          const int op = c % kOps;
          c /= kOps;
          how += std::string("; ") + kWhat[op];
          R.note(Make<M>::name(kind) + ": " + how);
          const auto e = vp::thrown([&]() { b.reset(new M(restore<M>(b->getstate()))); });
          R.transition(2);
          if (!e.empty()) { R.fail("refused", Str() << Make<M>::name(kind) << " after " << how << ": its own state is refused"); ok = false; break; }
          const auto ra = apply(a, op, n), rb = apply(*b, op, n);
          if (ra.empty() != rb.empty()) { R.fail("operation", Str() << Make<M>::name(kind) << " after " << how << ": " << (ra.empty() ? "accepted" : "refused") << " by the original, " << (rb.empty() ? "accepted" : "refused") << " by the restored model"); ok = false; }
        }
        if (!ok) continue;
        const auto e = vp::thrown([&]() { b.reset(new M(restore<M>(b->getstate()))); });
        if (!e.empty()) { R.fail("refused", Str() << Make<M>::name(kind) << " after " << how << ": its own state is refused"); continue; }
        R.trace();
        R.state(vp::hash(a.getstate()));
        compare(a, *b, kind, how, predict && s % kOps == 0);
      }
      if (base == 0) R.sample(Str() << Make<M>::name(kind) << ": every sequence of operations, saved and restored after each");
    }
  }
  // a model with all the constituents
  if (R.begin("full")) {
    using T = typename Make<M>::Value;
    M a = Make<M>::make(kind, fes::kTide, 1e5);
    fes::AbstractTidalModel<T>& m = a;
    std::vector<Constituent> dyn;
    for (auto& name : fes::constituents::known()) {
      const auto id = fes::constituents::parse(name);
      if (int(id) % 2) m.add_constituent(id, wave<T>(n, int(id))); else dyn.push_back(id);
    }
    m.dynamic(dyn);
    R.trace();
    R.state(vp::hash(a.getstate()));
    std::unique_ptr<M> b;
    const auto e = vp::thrown([&]() { b.reset(new M(restore<M>(a.getstate()))); });
    if (!e.empty()) R.fail("refused", Str() << Make<M>::name(kind) << " with many constituents: its own state is refused");
    else compare(a, *b, kind, "all constituents", true);
  }
}

// Extrapolation distances at the very limit of a position: the smallest distance that reaches it, and the largest that does not.
template <typename M>
static void limits(int kind) {
  using T = typename Make<M>::Value;
  const int n = Make<M>::size(kind);
  auto make = [&](double d) {
    M m = Make<M>::make(kind, fes::kTide, d);
    static_cast<fes::AbstractTidalModel<T>&>(m).add_constituent(fes::kM2, wave<T>(n, 1));
    return m;
  };
  auto reached = [&](const M& model, const At& p) {
    const fes::AbstractTidalModel<T>& m = model;
    std::unique_ptr<fes::Accelerator> acc(m.accelerator(fes::angle::Formulae::kSchuremanOrder1, 0));
    fes::Quality q;
    m.interpolate({p.x, p.y}, q, acc.get());
    return q != fes::kUndefined;
  };
  auto around = places<M>(kind);
  for (double x : {-7.3, -2.1, 4.7, 11.9, 23.0}) for (double y : {-6.2, -0.4, 3.1, 9.7}) around.push_back({around[0].x + x, around[0].y + y, -1});
  for (auto& p : around) {
    if (!R.begin("limits")) continue;
    if (reached(make(0), p) || !reached(make(5e6), p)) { R.outcome("not an extrapolated position"); continue; }
    double lo = 0, hi = 5e6;
    for (int i = 0; i < 80 && std::nextafter(lo, hi) < hi; ++i) { const double mid = 0.5 * (lo + hi); (reached(make(mid), p) ? hi : lo) = mid; }
    R.outcome("extrapolated position");
    for (double d : {lo, hi, std::floor(hi), std::ceil(hi), 0.75, 1e-9, 123456.789}) {
      const M a = make(d);
      R.trace();
      R.state(vp::hash(a.getstate()));
      std::unique_ptr<M> b;
      const auto e = vp::thrown([&]() { b.reset(new M(restore<M>(a.getstate()))); });
      if (!e.empty()) { R.fail("refused", Str() << Make<M>::name(kind) << " extrapolating up to " << d << " m: its own state is refused"); continue; }
      R.transition();
      if (reached(a, p) != reached(*b, p)) R.fail("limit", Str() << Make<M>::name(kind) << " extrapolating up to " << d << " m: (" << p.x << "," << p.y << ") is " << (reached(a, p) ? "reached by the original only" : "reached by the restored model only"));
      compare(a, *b, kind, Str() << "extrapolating up to " << d << " m", false);
    }
  }
}

static void run() {
  axes();
  meshes();
  using namespace fes::tidal_model;
  limits<LGP1<double>>(0);
  limits<LGP2<float>>(0);
  models<Cartesian<double>>(0, true);
  models<LGP1<double>>(0, true);
  models<LGP2<float>>(0, true);
  models<Cartesian<float>>(2, false);
  if (R.thorough()) {
    models<Cartesian<double>>(1, true);
    models<LGP1<float>>(2, true);
    models<LGP2<double>>(1, true);
  }
}
VP_MAIN(run)
