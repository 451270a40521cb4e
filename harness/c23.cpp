// C23: inconsistent arguments are refused, empty ones give empty results.
#include <atomic>
#include <climits>

#include "models.hpp"
using namespace md;
using vp::R;

// A model that counts what is asked from it.
struct Counting : fes::AbstractTidalModel<double> {
  mutable std::atomic<long> calls{0};
  Counting() { data_.emplace(fes::kM2, fes::Vector<std::complex<double>>::Zero(1)); }
  auto accelerator(const fes::angle::Formulae& f, const double t) const -> fes::Accelerator* override { return new fes::Accelerator(f, t, 1); }
  auto add_constituent(const Constituent, fes::Vector<std::complex<double>>) -> void override {}
  auto interpolate(const fes::geometry::Point&, fes::Quality& q, fes::Accelerator* a) const -> const fes::ConstituentValues& override {
    ++calls;
    a->clear();
    a->emplace_back(fes::kM2, {1, 2});
    q = fes::kInterpolated;
    return a->values();
  }
};
static Eigen::VectorXd dates(int n) { Eigen::VectorXd r(n); for (int i = 0; i < n; ++i) r[i] = 9e8 + 5000.0 * i; return r; }
static fes::Vector<uint16_t> leaps(int n) { fes::Vector<uint16_t> r(n); for (int i = 0; i < n; ++i) r[i] = 32; return r; }
static Eigen::VectorXd lons(int n) { Eigen::VectorXd r(n); for (int i = 0; i < n; ++i) r[i] = 0.1 * i; return r; }
static const std::vector<int>& sizes() { static const std::vector<int> q = {0, 1, 2, 5}, t = {0, 1, 2, 3, 5, 8, 17}; return R.thorough() ? t : q; }
static const size_t kThreads[] = {0, 1, 2, 3, 8, 100};

// refused exactly when not ok
static bool expect(bool ok, const std::string& e, const std::string& what) {
  R.transition();
  R.outcome(e.empty() ? "accepted" : "refused");
  if (ok && !e.empty()) { R.fail("refused", Str() << what << ": refused (" << e << ")"); return false; }
  if (!ok && e.empty()) { R.fail("accepted", Str() << what << ": accepted"); return false; }
  return ok;
}
template <typename T>
static void prediction(const fes::AbstractTidalModel<T>& m, const std::string& name, const Counting* c) {
  for (int a : sizes())
    for (int b : sizes()) {
      if (!R.begin("prediction")) continue;
      R.trace();
      for (int x : sizes())
        for (int y : sizes())
          for (size_t th : kThreads) {
            const std::string what = Str() << "prediction with " << name << ", " << a << " dates, " << b << " leap seconds, " << x << " longitudes, " << y << " latitudes, " << th << " threads";
            R.note(what);
            R.state(vp::hash(what));
            std::tuple<Eigen::VectorXd, Eigen::VectorXd, fes::Vector<fes::Quality>> r;
            const long before = c ? c->calls.load() : 0;
            const auto e = vp::thrown([&]() { r = fes::evaluate_tide(&m, dates(a), leaps(b), lons(x), lons(y), fes::Settings(), th); });
            const bool ok = a == b && a == x && a == y;
            if (!ok && c && c->calls.load() != before) R.fail("computed", what + ": computed before being refused");
            if (expect(ok, e, what) && (std::get<0>(r).size() != a || std::get<1>(r).size() != a || std::get<2>(r).size() != a)) R.fail("size", what + ": wrong size of the result");
            if (ok && c && c->calls.load() - before != a) R.fail("points", Str() << what << ": " << c->calls.load() - before << " points computed");
          }
    }
}
static std::vector<std::vector<std::string>> tables() { return {{"M2"}, {"S2", "K1", "Mm"}, {"M2", "S2", "N2", "K2", "K1", "O1", "P1", "Q1", "Mf", "Mm", "Ssa", "M4", "MS4", "MN4", "2N2", "Mu2", "Nu2"}, {}}; }
static void table_calls() {
  for (auto& names : tables()) {
    const fes::wave::Table t(names);
    const int n = t.size();
    std::vector<int> waves = {0, 1, n - 1, n, n + 1, 2 * n, 75, 3};
    for (int a : sizes())
      for (int b : sizes()) {
        if (!R.begin("series")) continue;
        R.trace();
        for (int w : waves) {
          if (w < 0) continue;
          const std::string what = Str() << "tide series of a table of " << n << " constituents, " << a << " dates, " << b << " leap seconds, " << w << " amplitudes";
          R.note(what);
          R.state(vp::hash(what));
          Eigen::VectorXd r;
          const Eigen::VectorXcd wave = Eigen::VectorXcd::Constant(w, Cx(1, 2));
          const auto e = vp::thrown([&]() { r = t.tide_from_tide_series(dates(a), leaps(b), wave, fes::angle::Formulae::kMeeus); });
          if (expect(a == b && w == n, e, what) && r.size() != a) R.fail("size", what + ": wrong size of the result");
        }
        const std::string what = Str() << "nodal modulations of a table of " << n << " constituents, " << a << " dates, " << b << " leap seconds";
        R.note(what);
        R.state(vp::hash(what));
        std::tuple<Eigen::MatrixXd, Eigen::MatrixXd> r;
        const auto e = vp::thrown([&]() { r = t.compute_nodal_modulations(dates(a), leaps(b), fes::angle::Formulae::kSchuremanOrder3); });
        if (expect(a == b, e, what) && (std::get<0>(r).rows() != n || std::get<0>(r).cols() != a || std::get<1>(r).rows() != n || std::get<1>(r).cols() != a)) R.fail("size", what + ": wrong size of the result");
      }
    for (int w : waves)
      for (int p : sizes()) {
        if (w < 0) continue;
        if (!R.begin("map")) continue;
        R.trace();
        for (size_t th : kThreads) {
          const std::string what = Str() << "tide map of a table of " << n << " constituents, amplitudes " << w << "x" << p << ", " << th << " threads";
          R.note(what);
          R.state(vp::hash(what));
          Eigen::MatrixXd r;
          const Eigen::MatrixXcd wave = Eigen::MatrixXcd::Constant(w, p, Cx(1, 2));
          const auto e = vp::thrown([&]() { r = t.tide_from_mapping(9e8, 32, wave, fes::angle::Formulae::kSchuremanOrder1, th); });
          if (expect(w == n, e, what) && (r.rows() != p || r.cols() != n)) R.fail("size", what + ": wrong size of the result");
        }
      }
  }
}
static void analysis() {
  const std::vector<int> q = R.thorough() ? std::vector<int>{0, 1, 2, 3, 5, 8} : std::vector<int>{0, 1, 2, 4};
  for (int h : q)
    for (int a : q)
      for (int b : q) {
        if (!R.begin("analysis")) continue;
        R.trace();
        for (int c : q)
          for (int d : q)
            for (int nan = 0; nan < 2; ++nan) {
              const std::string what = Str() << "analysis of " << h << (nan ? " undefined" : "") << " values, f " << a << "x" << b << ", vu " << c << "x" << d;
              R.note(what);
              R.state(vp::hash(what));
              Eigen::VectorXcd r;
              const Eigen::VectorXd hv = nan ? Eigen::VectorXd(Eigen::VectorXd::Constant(h, vp::kNaN)) : lons(h);
              Eigen::MatrixXd f = Eigen::MatrixXd::Constant(a, b, 1.0), vu(c, d);
              for (int i = 0; i < c; ++i) for (int j = 0; j < d; ++j) vu(i, j) = 0.3 * i + (0.7 + i) * j;
              const auto e = vp::thrown([&]() { r = fes::wave::Table::harmonic_analysis(hv, f, vu); });
              if (expect(a == c && b == d && h == b, e, what) && r.size() != a) R.fail("size", what + ": wrong size of the result");
            }
      }
}
static void meshes() {
  const std::vector<int> ids = {-1, 0, 1, 2, 3, 4, 5, INT_MAX, INT_MIN, 100};
  for (int n : {0, 1, 2, 3, 4})
    for (int m : {0, 1, 2, 3, 4, 5})
      for (int rows : {0, 1, 2, 3}) {
        if (!R.begin("mesh")) continue;
        R.trace();
        // every vertex number at every place of the last triangle
        for (int place = 0; place < std::max(1, 3 * rows); ++place)
          for (int id : ids) {
            Eigen::VectorXd lon(n), lat(m);
            const double xs[] = {0, 1, 0, 1, 2}, ys[] = {0, 0, 1, 1, 1};
            for (int i = 0; i < n; ++i) lon[i] = xs[i];
            for (int i = 0; i < m; ++i) lat[i] = ys[i];
            Eigen::Matrix<int32_t, -1, 3> t(rows, 3);
            for (int i = 0; i < rows; ++i) t.row(i) << 0, std::min(1, std::max(0, n - 1)), std::min(2, std::max(0, n - 1));
            if (rows) t(place / 3, place % 3) = id;
            bool ok = n == m && rows > 0;
            for (int i = 0; i < t.size(); ++i) ok = ok && t.data()[i] >= 0 && t.data()[i] < n;
            const std::string what = Str() << "mesh of " << n << " longitudes, " << m << " latitudes, " << rows << " triangles, vertex " << id << " at place " << place;
            R.note(what);
            R.state(vp::hash(what));
            std::unique_ptr<fes::mesh::Index> p;
            const auto e = vp::thrown([&]() { p.reset(new fes::mesh::Index(lon, lat, t)); });
            if (expect(ok, e, what) && (p->n_positions() != size_t(n) || p->n_triangles() != size_t(rows))) R.fail("size", what + ": wrong sizes");
          }
      }
}
template <typename M, int N>
static void codes() {
  for (int kind = 0; kind < 3; ++kind) {
    const auto m = mesh(kind);
    Eigen::Matrix<int, -1, 3 * N> good;
    Make<M>::codes(m, good, nullptr);
    const int rows = good.rows();
    for (int r : {0, 1, rows - 1, rows, rows + 1, 2 * rows, 3 * rows}) {
      if (!R.begin("codes")) continue;
      R.trace();
      for (int place = 0; place < std::max(1, std::min(r, rows) * 3 * N); ++place)
        for (int code : {0, -1, INT_MIN, 7, 1000}) {
          Eigen::Matrix<int, -1, 3 * N> c(r, 3 * N);
          for (int i = 0; i < r; ++i) c.row(i) = good.row(i % rows);
          if (r) c(place / (3 * N), place % (3 * N)) = code;
          const std::string what = Str() << "LGP" << N << " codes of " << r << " triangles for a mesh of " << rows << ", code " << code << " at place " << place;
          R.note(what);
          R.state(vp::hash(what));
          std::unique_ptr<M> p;
          const auto e = vp::thrown([&]() { p.reset(new M(vm::index(m), c, fes::kTide, 0)); });
          if (!expect(r == rows && code >= 0, e, what)) continue;
          // data of the size of the codes are accepted
          using T = typename Make<M>::Value;
          fes::AbstractTidalModel<T>& a = *p;
          const int n = c.maxCoeff() + 1;
          expect(true, vp::thrown([&]() { a.add_constituent(fes::kM2, wave<T>(n, 1)); }), what + ", data of the right size");
          expect(false, vp::thrown([&]() { a.add_constituent(fes::kS2, wave<T>(n - 1, 1)); }), what + ", data too short");
          expect(false, vp::thrown([&]() { a.add_constituent(fes::kS2, wave<T>(n + 1, 1)); }), what + ", data too long");
        }
    }
  }
}

static void run() {
  using namespace fes::tidal_model;
  Counting counting;
  prediction<double>(counting, "a counting model", &counting);
  auto grid = Make<Cartesian<double>>::make(0, fes::kTide, 0);
  prediction<double>(grid, "an empty grid", nullptr);
  grid.add_constituent(fes::kM2, wave<double>(Make<Cartesian<double>>::size(0), 1));
  prediction<double>(grid, "a grid", nullptr);
  auto lgp = Make<LGP2<float>>::make(0, fes::kTide, 1e5);
  lgp.add_constituent(fes::kK1, wave<float>(Make<LGP2<float>>::size(0), 1));
  prediction<float>(lgp, "LGP2", nullptr);
  table_calls();
  analysis();
  meshes();
  codes<LGP1<double>, 1>();
  codes<LGP2<double>, 2>();
}
VP_MAIN(run)
