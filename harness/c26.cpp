// C26: tide series, tide maps and nodal modulations from a table.
#include "fes/wave/table.hpp"
#include "golden.hpp"
#include "vp.hpp"
using vp::R;
using vp::Str;
using fes::angle::Astronomic;
using fes::angle::Formulae;
using fes::wave::Table;
using Cx = std::complex<double>;
static fes::Constituent C(int i) { return static_cast<fes::Constituent>(i); }
static Formulae F(int k) { return static_cast<Formulae>(k); }

struct Term { double f, vu; };
static Term term(int i, int k, double e, int leap) {
  auto w = Table::wave_factory(C(i));
  const Astronomic a(F(k), e, static_cast<uint16_t>(leap));
  w->nodal_a(a);
  w->nodal_g(a);
  return {w->f(), w->v() + w->u()};
}
static double height(const Term& t, const Cx& a) { return t.f * (a.real() * std::cos(t.vu) + a.imag() * std::sin(t.vu)); }
static double turn(double x) { return std::remainder(x, 2 * M_PI); }

static const double kEpochs[] = {0.0, 946728000.0, 1483228799.5, -473385600.0, 946728000.0, 1735689599.0, 631152000.25, 86399.0, -1.0, 1e9, 1234567890.0, 951782400.0};
static const int kLeaps[] = {0, 32, 36, 0, 33, 37, 25, 10, 0, 32, 34, 12};
static Cx amp(int i, int salt) { return {std::sin(i * 1.3 + salt) * 80, std::cos(i * 0.7 - salt) * 55}; }

static std::vector<int> sorted(std::vector<int> v) {
  std::sort(v.begin(), v.end());
  v.erase(std::unique(v.begin(), v.end()), v.end());
  return v;
}
static Table make(const std::vector<int>& ids, bool full) {
  if (full) return Table();
  std::vector<fes::Constituent> l;
  for (int i : ids) l.push_back(C(i));
  return Table(l);
}

// order: rotation of the dates; n dates; storage: how matrices are laid out
static void check(const Table& t, const std::vector<int>& ids, int k, int n, int rot, int salt, size_t threads, const std::string& key) {
  const int nw = static_cast<int>(ids.size());
  Eigen::VectorXd e(n);
  fes::Vector<uint16_t> leap(n);
  for (int i = 0; i < n; ++i) { const int z = (i * (rot % 2 ? 5 : 1) + rot) % 12; e[i] = kEpochs[z]; leap[i] = static_cast<uint16_t>(kLeaps[z]); }
  Eigen::VectorXcd w(nw);
  for (int i = 0; i < nw; ++i) w[i] = amp(ids[i], salt);
  std::vector<std::vector<Term>> terms(n);
  for (int d = 0; d < n; ++d)
    for (int i = 0; i < nw; ++i) terms[d].push_back(term(ids[i], k, e[d], leap[d]));
  R.transition(3);
  R.trace();
  const double tol = 1e-8;
  uint64_t hh = 0;
  // modulations
  Eigen::MatrixXd f, vu;
  std::tie(f, vu) = t.compute_nodal_modulations(e, leap, F(k));
  if (f.rows() != nw || f.cols() != n || vu.rows() != nw || vu.cols() != n) { R.fail(key + ":modulations-shape", Str() << "shape " << f.rows() << "x" << f.cols()); return; }
  for (int d = 0; d < n; ++d)
    for (int i = 0; i < nw; ++i)
      if (!(std::fabs(f(i, d) - terms[d][i].f) <= 1e-12) || !(std::fabs(turn(vu(i, d) - terms[d][i].vu)) <= 1e-9))
        R.fail(key + ":modulations", Str() << golden::table()[ids[i]].name << " epoch " << e[d] << " formulae " << k << ": f " << f(i, d) << " vu " << vu(i, d) << ", expected " << terms[d][i].f << " and " << turn(terms[d][i].vu));
  // series
  const Eigen::VectorXd h = k == 1 && salt % 2 ? t.tide_from_tide_series(e, leap, w) : t.tide_from_tide_series(e, leap, w, F(k));
  if (h.size() != n) { R.fail(key + ":series-shape", "wrong size"); return; }
  for (int d = 0; d < n; ++d) {
    double want = 0, mine = 0;
    for (int i = 0; i < nw; ++i) { want += height(terms[d][i], w[i]); mine += f(i, d) * (w[i].real() * std::cos(vu(i, d)) + w[i].imag() * std::sin(vu(i, d))); }
    hh = vp::mix(hh, vp::bits(h[d]));
    if (!(std::fabs(h[d] - want) <= tol) || !(std::fabs(h[d] - mine) <= tol)) R.fail(key + ":series", Str() << nw << " constituents from " << golden::table()[ids[0]].name << ", date " << d << " epoch " << e[d] << " formulae " << k << ": " << h[d] << ", expected " << want << ", from modulations " << mine);
  }
  // map: positions x constituents
  const int np = 1 + (rot + salt) % 5;
  const int d = rot % n;
  Eigen::MatrixXcd big(nw + 2, np * 2 + 1);
  for (int i = 0; i < big.rows(); ++i) for (int j = 0; j < big.cols(); ++j) big(i, j) = Cx(1e5, -1e5);
  Eigen::MatrixXcd a(nw, np);
  for (int i = 0; i < nw; ++i) for (int j = 0; j < np; ++j) a(i, j) = (i + j + salt) % 7 == 3 ? Cx(vp::kNaN, 0) : amp(ids[i] + 75 * j, salt);
  for (int layout = 0; layout < 3; ++layout) {
    Eigen::MatrixXd m;
    const auto L = leap[d];
    if (layout == 0) m = k == 1 && threads == 0 ? t.tide_from_mapping(e[d], L, a) : t.tide_from_mapping(e[d], L, a, F(k), threads);
    if (layout == 1) { Eigen::Matrix<Cx, -1, -1, Eigen::RowMajor> r = a; m = t.tide_from_mapping(e[d], L, r, F(k), threads); }
    if (layout == 2) { big.block(1, 1, nw, np) = a; m = t.tide_from_mapping(e[d], L, big.block(1, 1, nw, np), F(k), threads); }
    if (m.rows() != np || m.cols() != nw) { R.fail(key + ":map-shape", Str() << m.rows() << "x" << m.cols()); return; }
    for (int j = 0; j < np; ++j)
      for (int i = 0; i < nw; ++i) {
        const double want = height(terms[d][i], a(i, j));
        if (!vp::close(m(j, i), want, tol)) R.fail(key + ":map", Str() << golden::table()[ids[i]].name << " position " << j << " of " << np << " layout " << layout << " threads " << threads << ": " << m(j, i) << ", expected " << want);
      }
    R.transition();
  }
  R.state(hh);
}

static void run() {
  std::vector<int> all;
  for (int i = 0; i < 75; ++i) all.push_back(i);
  const size_t threads[] = {1, 2, 3, 8, 0};
  // full table, every formulae, order of the dates and thread count
  for (int k = 0; k < 3; ++k)
    for (int rot = 0; rot < 12; ++rot)
      for (int th = 0; th < 5; ++th) {
        if (!R.begin("full")) continue;
        for (int how = 0; how < 2; ++how) check(make(all, how), all, k, 1 + (rot + th) % 12, rot, rot + th, threads[th], "full");
        R.sample(Str() << "full table, formulae " << k << ", dates rotated by " << rot << ", threads " << threads[th]);
      }
  // one constituent
  for (int i = 0; i < 75; ++i)
    for (int k = 0; k < 3; ++k) {
      if (!R.begin("single")) continue;
      const Table t = make({i}, false);
      for (int n = 1; n <= 12; ++n) check(t, {i}, k, n, n + i, i, threads[(i + n) % 5], std::string("single:") + golden::table()[i].name);
    }
  // pairs, in both orders of the list
  for (int i = 0; i < 75; ++i)
    for (int j = 0; j < i; ++j) {
      if (!R.begin("pairs")) continue;
      check(make({i, j}, false), {j, i}, (i + j) % 3, 3, i + j, i, 1, "pair");
      if (R.thorough()) for (int k = 0; k < 3; ++k) check(make({j, i}, false), {j, i}, k, 6, i + j + k, j, 2, "pair");
    }
  // the table without one constituent
  for (int i = 0; i < 75; ++i) {
    if (!R.begin("complement")) continue;
    std::vector<int> ids;
    for (int j = 0; j < 75; ++j) if (j != i) ids.push_back(j);
    auto shuffled = ids;
    std::rotate(shuffled.begin(), shuffled.begin() + i % 74, shuffled.end());
    check(make(shuffled, false), ids, i % 3, 4, i, i, threads[i % 5], "complement");
  }
  // subsets of a family, in every order of a list of three with repetitions
  const std::vector<int> fam = {fes::kMm, fes::kL2, fes::kM13, fes::kM2, fes::kK1, fes::kMf2};
  for (int m = 1; m < 64; ++m) {
    if (!R.begin("subsets")) continue;
    std::vector<int> ids;
    for (int i = 0; i < 6; ++i) if (m >> i & 1) ids.push_back(fam[i]);
    auto srt = sorted(ids);
    std::sort(ids.begin(), ids.end());
    do {
      check(make(ids, false), srt, m % 3, 2, m, m, threads[m % 5], "subset");
    } while (std::next_permutation(ids.begin(), ids.end()) && ids.size() < 5);
    ids.push_back(ids[0]);
    check(make(ids, false), srt, m % 3, 2, m, m, threads[m % 5], "repeated");
  }
  // histories: readings in any order on one table give the same answers
  for (int x = 0; x < 27; ++x)
    for (int k = 0; k < 3; ++k) {
      if (!R.begin("histories")) continue;
      const Table t = x % 2 ? Table() : make(fam, false);
      const auto ids = x % 2 ? all : sorted(fam);
      for (int s = 0, z = x; s < 3; ++s, z /= 3) check(t, ids, (k + z % 3) % 3, 1 + z % 3 * 4, z % 3 + s, s, threads[(z + s) % 5], "history");
    }
  // every sequence of three dates out of two dates x three leap second counts
  for (int k = 0; k < 3; ++k)
    for (int z = 0; z < 216; ++z) {
      if (!R.begin("date-sequences")) continue;
      const double es[2] = {946728000.0, 1483228799.5};
      const int ls[3] = {0, 10, 37};
      const auto ids = sorted(fam);
      const Table t = make(fam, false);
      Eigen::VectorXd e(3);
      fes::Vector<uint16_t> leap(3);
      Eigen::VectorXcd w(ids.size());
      for (size_t i = 0; i < ids.size(); ++i) w[i] = amp(ids[i], z);
      for (int i = 0, y = z; i < 3; ++i, y /= 6) { e[i] = es[y % 6 / 3]; leap[i] = static_cast<uint16_t>(ls[y % 3]); }
      Eigen::MatrixXd f, vu;
      std::tie(f, vu) = t.compute_nodal_modulations(e, leap, F(k));
      const Eigen::VectorXd h = t.tide_from_tide_series(e, leap, w, F(k));
      R.transition(2);
      R.trace();
      for (int d = 0; d < 3; ++d) {
        double want = 0;
        for (size_t i = 0; i < ids.size(); ++i) {
          const Term x = term(ids[i], k, e[d], leap[d]);
          want += height(x, w[i]);
          if (!(std::fabs(f(i, d) - x.f) <= 1e-12) || !(std::fabs(turn(vu(i, d) - x.vu)) <= 1e-9)) R.fail("sequence:modulations", Str() << golden::table()[ids[i]].name << " date " << d << " of (" << e[0] << "," << leap[0] << ") (" << e[1] << "," << leap[1] << ") (" << e[2] << "," << leap[2] << ") formulae " << k << ": " << vu(i, d) << ", expected " << x.vu);
        }
        if (!(std::fabs(h[d] - want) <= 1e-8)) R.fail("sequence:series", Str() << "date " << d << " of (" << e[0] << "," << leap[0] << ") (" << e[1] << "," << leap[1] << ") (" << e[2] << "," << leap[2] << ") formulae " << k << ": " << h[d] << ", expected " << want);
        R.state(vp::mix(vp::bits(h[d]), z * 3 + k));
      }
    }
  // undefined dates at every place of a series
  for (int k = 0; k < 3; ++k)
    for (int m = 1; m < 16; ++m) {
      if (!R.begin("undefined-dates")) continue;
      const auto ids = sorted(fam);
      const Table t = make(fam, false);
      Eigen::VectorXd e(4);
      fes::Vector<uint16_t> leap(4);
      Eigen::VectorXcd w(ids.size());
      for (size_t i = 0; i < ids.size(); ++i) w[i] = amp(ids[i], m);
      for (int i = 0; i < 4; ++i) { e[i] = m >> i & 1 ? vp::kNaN : kEpochs[i + 1]; leap[i] = static_cast<uint16_t>(kLeaps[i + 1]); }
      Eigen::MatrixXd f, vu;
      std::tie(f, vu) = t.compute_nodal_modulations(e, leap, F(k));
      const Eigen::VectorXd h = t.tide_from_tide_series(e, leap, w, F(k));
      R.transition(2);
      R.trace();
      R.state(m * 3 + k);
      for (int d = 0; d < 4; ++d) {
        double want = 0;
        for (size_t i = 0; i < ids.size(); ++i) {
          const Term x = term(ids[i], k, e[d], leap[d]);
          want += height(x, w[i]);
          if (m >> d & 1) { if (!std::isnan(vu(i, d))) R.fail("undefined-dates:modulations", Str() << golden::table()[ids[i]].name << ": argument " << vu(i, d) << " without a date"); }
          else if (!(std::fabs(f(i, d) - x.f) <= 1e-12) || !(std::fabs(turn(vu(i, d) - x.vu)) <= 1e-9)) R.fail("undefined-dates:modulations", Str() << golden::table()[ids[i]].name << " date " << d << ", undefined ones " << m);
        }
        if (m >> d & 1 ? !std::isnan(h[d]) : !(std::fabs(h[d] - want) <= 1e-8)) R.fail("undefined-dates:series", Str() << "date " << d << ", undefined ones " << m << ": " << h[d] << ", expected " << (m >> d & 1 ? vp::kNaN : want));
      }
      for (int d = 0; d < 4; ++d) {
        Eigen::MatrixXcd a(ids.size(), 2);
        for (size_t i = 0; i < ids.size(); ++i) { a(i, 0) = w[i]; a(i, 1) = w[i] * 2.0; }
        const auto map = t.tide_from_mapping(e[d], leap[d], a, F(k), 1);
        for (size_t i = 0; i < ids.size(); ++i) {
          const double want = height(term(ids[i], k, e[d], leap[d]), w[i]);
          if (m >> d & 1 ? !std::isnan(map(0, i)) : !vp::close(map(0, i), want, 1e-8) || !vp::close(map(1, i), 2 * want, 2e-8)) R.fail("undefined-dates:map", Str() << golden::table()[ids[i]].name << ": " << map(0, i));
        }
      }
    }
  // amplitudes of every size, together
  for (int k = 0; k < 3; ++k)
    for (int x = -300; x <= 300; x += 20) {
      if (!R.begin("sizes")) continue;
      const auto ids = sorted(fam);
      const Table t = make(fam, false);
      const double scale = std::pow(10.0, x);
      for (size_t big = 0; big <= ids.size(); ++big) {
        Eigen::VectorXd e(2);
        fes::Vector<uint16_t> leap(2);
        e << kEpochs[1], kEpochs[2];
        leap << 32, 36;
        Eigen::VectorXcd w(ids.size());
        Eigen::MatrixXcd a(ids.size(), 2);
        // all of them, or one alone
        for (size_t i = 0; i < ids.size(); ++i) { w[i] = big == ids.size() || big == i ? amp(ids[i], x) * scale : Cx(0, 0); a(i, 0) = w[i]; a(i, 1) = amp(ids[i], x + 1) * scale; }
        const Eigen::VectorXd h = t.tide_from_tide_series(e, leap, w, F(k));
        const auto m = t.tide_from_mapping(e[0], leap[0], a, F(k), 2);
        R.transition(2);
        R.state(vp::bits(h[0]));
        for (int d = 0; d < 2; ++d) {
          double want = 0;
          for (size_t i = 0; i < ids.size(); ++i) want += height(term(ids[i], k, e[d], leap[d]), w[i]);
          if (!(std::fabs(h[d] - want) <= 1e-8 * scale)) R.fail("sizes:series", Str() << "amplitudes of 1e" << x << ": " << h[d] << ", expected " << want);
        }
        for (size_t i = 0; i < ids.size(); ++i)
          for (int j = 0; j < 2; ++j) {
            const double want = height(term(ids[i], k, e[0], leap[0]), a(i, j));
            if (!(std::fabs(m(j, i) - want) <= 1e-8 * scale)) R.fail("sizes:map", Str() << "amplitudes of 1e" << x << ": " << m(j, i) << ", expected " << want);
          }
      }
      R.trace();
    }
  // many positions
  for (int np : {0, 1, 2, 3, 7, 8, 9, 16, 31, 33, 100}) {
    if (!R.begin("positions")) continue;
    for (size_t th : {0, 1, 2, 3, 4, 5, 7, 8, 16, 64, 200}) {
      const auto ids = sorted(fam);
      const Table t = make(fam, false);
      Eigen::MatrixXcd a(ids.size(), np);
      for (size_t i = 0; i < ids.size(); ++i) for (int j = 0; j < np; ++j) a(i, j) = amp(ids[i] + 75 * j, np);
      const auto m = t.tide_from_mapping(1e9, 32, a, Formulae::kMeeus, th);
      R.transition();
      if (m.rows() != np || m.cols() != static_cast<int>(ids.size())) { R.fail("positions-shape", "shape"); continue; }
      for (size_t i = 0; i < ids.size(); ++i) {
        const Term w = term(ids[i], 2, 1e9, 32);
        for (int j = 0; j < np; ++j) if (!vp::close(m(j, i), height(w, a(i, j)), 1e-8)) R.fail("positions", Str() << np << " positions, " << th << " threads: position " << j << " constituent " << i << " is " << m(j, i) << " expected " << height(w, a(i, j)));
      }
    }
    R.trace();
  }
}
VP_MAIN(run)
