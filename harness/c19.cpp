// C19: harmonic analysis of series made from known constituents.
#include <Eigen/Dense>
#include "fes/wave/table.hpp"
#include "golden.hpp"
#include "vp.hpp"
using vp::R;
using vp::Str;
using fes::angle::Formulae;
using fes::wave::Table;
using Cx = std::complex<double>;
static fes::Constituent C(int i) { return static_cast<fes::Constituent>(i); }
static Cx amp(int i, int salt) {
  switch ((i + salt) % 6) {
    case 0: return {0, 0};
    case 1: return {std::sin(i + salt) * 120, std::cos(i * 3.0) * 80};
    case 2: return {1e-6, -2e-6};
    case 3: return {-4e4, 1e4};
    default: return {std::cos(i * 5.0 + salt) * 3, std::sin(i * 2.0) * 7};
  }
}
struct Design {
  std::vector<int> ids;
  Eigen::MatrixXd f, vu;
};
// Nodal modulations of a table made from a list in some order.
static Design design(std::vector<int> list, int k, double start, double step, int n) {
  std::vector<fes::Constituent> l;
  for (int i : list) l.push_back(C(i));
  const Table t(l);
  Design d;
  std::sort(list.begin(), list.end());
  d.ids = list;
  Eigen::VectorXd e(n);
  fes::Vector<uint16_t> leap(n);
  for (int i = 0; i < n; ++i) { e[i] = start + i * step; leap[i] = 32; }
  std::tie(d.f, d.vu) = t.compute_nodal_modulations(e, leap, static_cast<Formulae>(k));
  return d;
}
static Eigen::VectorXd series(const Design& d, const Eigen::VectorXcd& a) {
  Eigen::VectorXd h = Eigen::VectorXd::Zero(d.f.cols());
  for (int t = 0; t < h.size(); ++t)
    for (int i = 0; i < a.size(); ++i) h[t] += d.f(i, t) * (a[i].real() * std::cos(d.vu(i, t)) + a[i].imag() * std::sin(d.vu(i, t)));
  return h;
}
static void recover(const Design& d, const Eigen::VectorXcd& a, const std::string& key, const std::string& what) {
  const Eigen::VectorXd h = series(d, a);
  const auto r = Table::harmonic_analysis(h, d.f, d.vu);
  R.transition();
  if (r.size() != a.size()) { R.fail(key + ":size", what); return; }
  double scale = a.size() ? 0 : 1;
  for (int i = 0; i < a.size(); ++i) scale = std::max(scale, std::abs(a[i]));
  uint64_t hh = 0;
  for (int i = 0; i < a.size(); ++i) {
    hh = vp::mix(hh, vp::bits(r[i].real()));
    if (!(std::abs(r[i] - a[i]) <= 1e-9 * scale)) R.fail(key, Str() << what << ": " << golden::table()[d.ids[i]].name << " gives " << r[i].real() << "," << r[i].imag() << " instead of " << a[i].real() << "," << a[i].imag());
  }
  R.state(hh);
  R.trace();
}
// longest synodic period, in seconds, between members and with themselves
static double separation(const std::vector<int>& ids) {
  double s = 1e18;
  for (int i : ids) {
    s = std::min(s, 2 * std::fabs(golden::table()[i].speed()));
    for (int j : ids) if (j != i) s = std::min(s, std::fabs(golden::table()[i].speed() - golden::table()[j].speed()));
  }
  return 360 / s * 3600;
}

static void run() {
  // single constituents: all but those without a period of their own
  for (int i = 0; i < 75; ++i)
    for (int k = 0; k < 3; ++k) {
      if (!R.begin("single")) continue;
      if (golden::table()[i].speed() == 0) continue;  // M0: only its mean value exists
      const double T = 360 / std::fabs(golden::table()[i].speed()) * 3600;
      for (double len : {1.3, 5.0, 29.7})
        for (int n : {9, 40, 301}) {
          const auto d = design({i}, k, 8e8 + 1234.5 * i, T * len / n, n);
          for (int s = 0; s < 4; ++s) {
            Eigen::VectorXcd a(1);
            a << amp(i, s);
            recover(d, a, std::string("single:") + golden::table()[i].name, Str() << golden::table()[i].name << " over " << len << " periods, " << n << " values");
          }
        }
    }
  // pairs
  for (int i = 0; i < 75; ++i)
    for (int j = 0; j < i; ++j) {
      if (!R.begin("pairs")) continue;
      const double p = separation({i, j});
      if (!(p < 400 * 86400.0 * 20)) continue;
      R.count("separable pairs");
      const double step = 3600 * 1.0371;
      // enough values to cover three synodic periods without aliasing
      int n = static_cast<int>(std::ceil(p * 3 / step)) + 30;
      double st = step;
      if (n > 1500) {
        // sparse sampling, incommensurable with the periods
        st = p * 3 / 1500;
        n = 1500;
      }
      const auto d = design({i, j}, (i + j) % 3, 5e8, st, n);
      Eigen::VectorXcd a(2);
      a << amp(d.ids[0], i), amp(d.ids[1], j);
      // aliasing makes the pair inseparable for this sampling: not a case
      Eigen::MatrixXd H(4, n);
      H.topRows(2) = d.f.array() * d.vu.array().cos();
      H.bottomRows(2) = d.f.array() * d.vu.array().sin();
      const Eigen::MatrixXd N = H * H.transpose() / n;
      const double det = N.determinant(), scale = N.trace() / 4;
      if (!(det > 0.02 * std::pow(scale, 4))) { R.count("aliased pairs"); continue; }
      recover(d, a, "pair", Str() << golden::table()[i].name << " and " << golden::table()[j].name << ", " << n << " values every " << st << " s");
    }
  // every subset of a separable family, list in several orders
  const std::vector<int> fam = {fes::kM2, fes::kS2, fes::kN2, fes::kK1, fes::kO1, fes::kQ1, fes::kM4, fes::kMS4, fes::kMf, fes::kM3};
  for (int m = 1; m < 1024; ++m) {
    if (!R.begin("subsets")) continue;
    std::vector<int> ids;
    for (int b = 0; b < 10; ++b) if (m >> b & 1) ids.push_back(fam[b]);
    if (m % 3 == 1) std::reverse(ids.begin(), ids.end());
    if (m % 3 == 2) std::rotate(ids.begin(), ids.begin() + ids.size() / 2, ids.end());
    const auto d = design(ids, m % 3, 9.5e8, 3600, 24 * 35);
    Eigen::VectorXcd a(ids.size()), b(ids.size());
    for (size_t i = 0; i < ids.size(); ++i) { a[i] = amp(d.ids[i], m); b[i] = amp(d.ids[i], m + 3); }
    recover(d, a, "subset", Str() << "subset " << m);
    // linearity on arbitrary series (not only sums of constituents)
    Eigen::VectorXd x(d.f.cols()), y(d.f.cols());
    for (int t = 0; t < x.size(); ++t) { x[t] = std::sin(t * t * 0.37) * 10; y[t] = (t * 7919 % 101) - 50; }
    const Eigen::VectorXcd ax = Table::harmonic_analysis(x, d.f, d.vu), ay = Table::harmonic_analysis(y, d.f, d.vu), ac = Table::harmonic_analysis(2.5 * x - 0.5 * y, d.f, d.vu);
    if (!((ac - (2.5 * ax - 0.5 * ay)).cwiseAbs().maxCoeff() <= 1e-8)) R.fail("linear", Str() << "subset " << m << ": analysis is not linear");
    const Eigen::VectorXcd sum = Table::harmonic_analysis(series(d, a) + x, d.f, d.vu);
    if (!((sum - (a + ax)).cwiseAbs().maxCoeff() <= 1e-9 * (1 + a.cwiseAbs().maxCoeff()))) R.fail("linear", Str() << "subset " << m << ": analysis of a sum");
    // the unit of the series does not matter
    for (double unit : {1e-150, 1e-18, 1e-13, 1e-9, 1e-4, 1e6, 1e12, 1e150}) {
      const Eigen::VectorXcd au = Table::harmonic_analysis(x * unit, d.f, d.vu);
      if (!((au - unit * ax).cwiseAbs().maxCoeff() <= 1e-10 * unit * ax.cwiseAbs().maxCoeff())) R.fail("unit", Str() << "subset " << m << ": a series times " << unit);
      const Eigen::VectorXcd al = Table::harmonic_analysis(series(d, a) * unit, d.f, d.vu);
      if (!((al - unit * a).cwiseAbs().maxCoeff() <= 1e-9 * unit * a.cwiseAbs().maxCoeff())) R.fail("unit", Str() << "subset " << m << ": known constituents times " << unit);
      R.transition(2);
    }
    // the layout of the arguments does not matter
    Eigen::Matrix<double, -1, -1, Eigen::RowMajor> fr = d.f, vr = d.vu;
    const Eigen::VectorXcd rr = Table::harmonic_analysis(x, fr, vr);
    if (!((rr - ax).cwiseAbs().maxCoeff() <= 1e-9)) R.fail("layout", Str() << "subset " << m << ": storage order changes the result");
    R.transition(5);
    if (m % 200 == 0) R.sample(Str() << "subset " << m << " of ten constituents, 35 days hourly");
  }
  // nodal factors given by hand: constant, different for each constituent,
  // changing with time, negative
  for (int m = 1; m < 64; ++m) {
    if (!R.begin("modulations")) continue;
    std::vector<int> ids;
    for (int b = 0; b < 6; ++b) if (m >> b & 1) ids.push_back(fam[b]);
    auto d = design(ids, m % 3, 6e8, 3600, 24 * 40);
    const int nw = d.f.rows(), nt = d.f.cols();
    Eigen::VectorXcd a(nw);
    for (int i = 0; i < nw; ++i) a[i] = amp(d.ids[i], m);
    for (int kind = 0; kind < 9; ++kind) {
      for (int i = 0; i < nw; ++i)
        for (int t = 0; t < nt; ++t) {
          double f = 1;
          switch (kind) {
            case 0: f = 1; break;
            case 1: f = 0.8; break;
            case 2: f = 1.7; break;
            case 3: f = -1; break;
            case 4: f = i == 0 ? 0.6 : 1; break;
            case 5: f = i == nw - 1 ? 1.4 : 1; break;
            case 6: f = 0.7 + 0.1 * i; break;
            case 7: f = t < nt / 2 ? 0.9 : 1.1; break;
            default: f = t == nt - 1 ? 0.5 : 1 + 0.05 * i; break;
          }
          d.f(i, t) = f;
        }
      recover(d, a, "modulations", Str() << "subset " << m << " of six constituents, nodal factors " << kind);
    }
  }
  // length of the series
  for (int days = 28; days <= (R.thorough() ? 400 : 100); ++days) {
    if (!R.begin("length")) continue;
    for (double step : {1800.0, 3600.0, 5400.0, 7000.0}) {
      const auto d = design({fes::kM2, fes::kS2, fes::kN2, fes::kK1, fes::kO1}, days % 3, 3e8, step, static_cast<int>(days * 86400 / step));
      Eigen::VectorXcd a(5);
      for (int i = 0; i < 5; ++i) a[i] = amp(d.ids[i], days);
      recover(d, a, "length", Str() << days << " days every " << step << " s");
    }
  }
  // series of many values: years of hourly values, months of minutes
  for (int n : {8759, 8760, 8761, 10000, 17532, 32768, 44640, 65537, 105189})
    for (double step : {3600.0, 60.0, 600.0}) {
      if (!R.begin("many values")) continue;
      if (n * step < 29 * 86400.0 || (n > 40000 && step > 600 && !R.thorough())) continue;
      std::vector<int> list = {fes::kM2, fes::kS2, fes::kK1, fes::kO1};
      if (n * step > 400 * 86400.0) { list.push_back(fes::kSa); list.push_back(fes::kN2); }
      const auto d = design(list, n % 3, 3.5e8, step, n);
      Eigen::VectorXcd a(list.size());
      for (int i = 0; i < a.size(); ++i) a[i] = amp(d.ids[i], n);
      recover(d, a, "length", Str() << n << " values every " << step << " s");
    }
  // one undefined value at any place
  for (int n : {1, 2, 5, 48, 120}) {
    if (!R.begin("undefined")) continue;
    const auto d = design({fes::kM2, fes::kK1, fes::kMf}, 1, 7e8, 3600, n);
    for (int p = 0; p < n; ++p)
      for (int kind = 0; kind < 2; ++kind) {
        Eigen::VectorXd h = Eigen::VectorXd::Constant(n, 2.0);
        h[p] = kind ? -vp::kNaN : vp::kNaN;
        const auto r = Table::harmonic_analysis(h, d.f, d.vu);
        R.transition();
        if (r.size() != 3) R.fail("undefined:size", "size");
        for (int i = 0; i < r.size(); ++i) if (!std::isnan(r[i].real()) || !std::isnan(r[i].imag())) R.fail("undefined", Str() << "undefined value at " << p << " of " << n << ": " << r[i].real() << "," << r[i].imag());
      }
    R.trace();
  }
  // shapes
  for (int h = 0; h <= 5; ++h)
    for (int fr = 0; fr <= 3; ++fr)
      for (int fc = 0; fc <= 5; ++fc) {
        if (!R.begin("shapes")) continue;
        for (int vr = 0; vr <= 3; ++vr)
          for (int vc = 0; vc <= 5; ++vc) {
            const bool ok = fr == vr && fc == vc && h == fc;
            if (ok && (fr == 0 || fc == 0)) continue;
            R.note(Str() << "h " << h << " f " << fr << "x" << fc << " vu " << vr << "x" << vc);
            const auto e = vp::thrown([&] { Table::harmonic_analysis(Eigen::VectorXd::Ones(h), Eigen::MatrixXd::Ones(fr, fc), Eigen::MatrixXd::Ones(vr, vc)); });
            R.transition();
            if ((e == "") != ok || (!ok && e != "invalid_argument")) R.fail("shapes", Str() << "h " << h << ", f " << fr << "x" << fc << ", vu " << vr << "x" << vc << ": " << (e == "" ? "accepted" : e));
          }
      }
  // selection for a duration
  for (int i = 0; i < 75; ++i) {
    if (!R.begin("selection")) continue;
    for (double f : {2.0, 1.0, 0.5, 3.7, 10.0}) {
      const double sp = std::fabs(golden::table()[i].speed());
      std::vector<double> durations = {0.0, -3600.0, 1.0, 3600.0, 43200.0, 86400.0 * (i + 1), 86400.0 * 365.25, 86400.0 * 1e5, 1e12, 1e20};
      if (sp > 0) for (double r : {0.5, 0.999, 0.999999999, 1.000000001, 1.001, 2.0}) durations.push_back(360 / sp * 3600 / f * r);
      for (double d : durations) {
        const auto got = f == 2.0 && i % 2 ? Table::select_waves_for_analysis(d) : Table::select_waves_for_analysis(d, f);
        std::vector<std::string> want;
        for (const auto& g : golden::table()) {
          const double s = g.speed();
          if (s == 0) continue;
          if (s > 0 ? 360 / s < f * d / 3600 : false) want.push_back(g.name);
        }
        bool tie = false;  // exactly the period of a constituent: rounding decides
        for (const auto& g : golden::table()) tie = tie || (g.speed() != 0 && std::fabs(360 / g.speed() - f * d / 3600) <= 1e-11 * std::fabs(360 / g.speed()));
        if (tie) continue;
        R.transition();
        R.state(vp::mix(vp::bits(d), vp::bits(f)));
        if (got != want) {
          std::string diff;
          for (auto& x : got) if (std::find(want.begin(), want.end(), x) == want.end()) diff += "+" + x + " ";
          for (auto& x : want) if (std::find(got.begin(), got.end(), x) == got.end()) diff += "-" + x + " ";
          R.fail("selection", Str() << "duration " << d << " s, factor " << f << ": " << (diff.empty() ? std::string("order differs") : diff));
        }
      }
    }
    R.trace();
  }
}
VP_MAIN(run)
