// C05: axis searches, checked against the definition on every cell, every
// position class inside a cell and several turns, for a family of axes.
#include "fes/axis.hpp"

#include "vp.hpp"
using vp::R;
using vp::Str;

struct Conf {
  int n;
  double start, step;
  bool circ;  // circular axis asked for
};

static double tolerance(const Conf& c) { return 1e-9 * std::max(1.0, std::fabs(c.step)); }

static void check(const fes::Axis& ax, const Conf& c, double v, const std::vector<double>& a, bool exact_node, int cls) {
  const double tol = tolerance(c) + 1e-12 * std::fabs(v), w = std::fabs(c.step);
  const double lo = std::min(a.front(), a.back()), hi = std::max(a.front(), a.back());
  const bool circ = ax.is_circular();
  auto where = [&]() { return Str() << "axis n=" << c.n << " start=" << c.start << " step=" << c.step << (circ ? " circular" : "") << " value=" << v << ": "; };
  auto dist = [&](int64_t i) {
    double d = std::fabs(v - a[i]);
    if (circ) d = std::fabs(std::remainder(v - a[i], 360.0));
    return d;
  };
  double best = vp::kInf;
  for (int i = 0; i < c.n; ++i) best = std::min(best, dist(i));
  R.transition(3);
  R.state(vp::mix(vp::mix(vp::mix(vp::bits(c.start), vp::bits(c.step)), c.n * 2 + circ), vp::bits(v)));
  // nearest node
  for (int bounded = 0; bounded < 2; ++bounded) {
    const int64_t i = ax.find_index(v, bounded);
    if (i == -1) {
      R.outcome("find_index: out of range");
      if (bounded) R.fail("nearest-bounded-none", where() << "bounded find_index answers -1");
      else if (circ) R.fail("nearest-circular-none", where() << "find_index answers -1 on a circular axis");
      else if (v >= lo + tol && v <= hi - tol) R.fail("nearest-none-inside", where() << "find_index answers -1");
      else if (exact_node) R.fail("nearest-none-node", where() << "find_index answers -1 on a node");
      continue;
    }
    if (i < 0 || i >= c.n) { R.fail("nearest-invalid", where() << "find_index answers " << i); continue; }
    R.outcome("find_index: node");
    if (dist(i) > best + tol) R.fail(bounded ? "nearest-bounded-wrong" : "nearest-wrong", where() << "find_index(bounded=" << bounded << ") answers node " << i << " at distance " << dist(i) << ", another one is at " << best);
    if (!bounded && !circ && (v < lo - w / 2 - tol || v > hi + w / 2 + tol)) R.fail("nearest-outside", where() << "find_index answers " << i << " for a value outside the axis");
  }
  // enclosing cell
  auto r = ax.find_indices(v);
  if (!r) {
    R.outcome("find_indices: none");
    if (circ) R.fail("cell-circular-none", where() << "find_indices answers nothing on a circular axis");
    else if (v >= lo + tol && v <= hi - tol) R.fail("cell-none-inside", where() << "find_indices answers nothing inside the axis");
    else if (exact_node) R.fail("cell-none-node", where() << "find_indices answers nothing on a node");
    return;
  }
  int64_t i0, i1;
  std::tie(i0, i1) = *r;
  if (!circ && (v < lo - tol || v > hi + tol)) { R.fail("cell-outside", where() << "find_indices answers (" << i0 << "," << i1 << ") outside the axis"); return; }
  if (i0 < 0 || i1 < 0 || i0 >= c.n || i1 >= c.n || i0 == i1) { R.fail("cell-invalid", where() << "find_indices answers (" << i0 << "," << i1 << ")"); return; }
  // the cell may be the pair (k,k+1) in either order or the seam
  bool ok = false;
  bool seam = false;
  auto covers = [&](double l, double h) {
    if (!circ) return v >= l - tol && v <= h + tol;
    double d = v - l;
    d -= 360.0 * std::floor(d / 360.0);
    return d <= h - l + tol || d >= 360.0 - tol;
  };
  if (std::llabs(i0 - i1) == 1) ok = covers(std::min(a[i0], a[i1]), std::max(a[i0], a[i1]));
  if (!ok && circ && std::llabs(i0 - i1) == c.n - 1) { ok = covers(hi, lo + 360.0); seam = ok; }
  R.outcome(seam ? "find_indices: seam" : "find_indices: cell");
  if (!ok) R.fail("cell-wrong", where() << "find_indices answers (" << i0 << "," << i1 << ") = [" << a[i0] << "," << a[i1] << "], which does not enclose the value");
  (void)cls;
}

static void sweep(const Conf& c) {
  if (!R.begin("axis")) return;
  R.note(Str() << "n=" << c.n << " start=" << c.start << " step=" << c.step << " circ=" << c.circ);
  Eigen::VectorXd p(c.n);
  for (int i = 0; i < c.n; ++i) p[i] = c.start + i * c.step;
  fes::Axis ax(p, 1e-6, c.circ);
  if (ax.size() != c.n || ax.is_circular() != c.circ) { R.fail("built-wrong", Str() << "axis n=" << c.n << " start=" << c.start << " step=" << c.step << " size " << ax.size()); return; }
  std::vector<double> a;
  for (int i = 0; i < c.n; ++i) a.push_back(ax(i));
  R.trace();
  R.sample(Str() << "axis n=" << c.n << " start=" << c.start << " step=" << c.step << (c.circ ? " circular" : " not circular") << ": all cells x 17 positions x 7 turns");
  static const double F[] = {0, 1e-12, 1e-7, 1e-3, 0.125, 0.25, 0.49, 0.4999999, 0.5, 0.5000001, 0.51, 0.75, 0.875, 0.999, 1 - 1e-7, 1 - 1e-12};
  const int cells = c.n;  // the last one is outside the axis, or the seam
  for (int k = -1; k < cells; ++k) {
    if (c.n > 60 && !(k < 5 || k > c.n - 6 || k % (R.thorough() ? 3 : 37) == 0)) continue;
    int cls = 0;
    for (double f : F) {
      double b = k < 0 ? a[0] - c.step : a[k];
      double v = b + f * c.step;
      for (int turn = -3; turn <= 3; ++turn) {
        if (!c.circ && turn) { if (std::abs(turn) > 1) continue; }
        double x = v + 360.0 * turn;
        bool node = f == 0 && k >= 0 && turn == 0;
        check(ax, c, x, a, node, cls);
        if (f == 0 || f == 0.5) { check(ax, c, vp::up(x), a, false, cls); check(ax, c, vp::down(x), a, false, cls); }
        // the same place given as a decimal-rounded longitude
        double rnd = std::round(x * 1e6) / 1e6;
        if (rnd != x) check(ax, c, rnd, a, false, cls);
      }
      ++cls;
    }
  }
  for (double far : {-1e6, 1e6, -1080.5, 1080.25, 12345.678}) check(ax, c, far, a, false, 99);
}

static void run() {
  std::vector<int> ns = {2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 24, 36, 72, 360};
  if (R.thorough()) for (int n : {11, 13, 15, 16, 18, 20, 30, 45, 48, 60, 90, 120, 180, 720, 1440, 2880, 3600, 5760}) ns.push_back(n);
  for (int n : ns)
    for (double start : {0.0, -180.0, 180.0, 0.5, -179.75, 359.0, 20.1, -0.3, 1000.0})
      for (int dir : {1, -1}) sweep({n, start, dir * 360.0 / n, true});
  for (int n : {2, 3, 4, 5, 7, 11, 31})
    for (double start : {0.0, -90.0, 90.0, 10.0, -359.9, 1.0 / 3, 170.0})
      for (double step : {1.0, 0.1, 0.25, 1.0 / 3, 1.0 / 30, 2.5, 45.0, 90.5, 200.0, 1e-3})
        for (int dir : {1, -1}) {
          // an axis that covers the circle is not regional
          sweep({n, start, dir * step, false});
        }
  // regional axes on which circularity was asked for and refused
}
VP_MAIN(run)
