// C06: construction of axes, over lists of points generated exhaustively from
// (size, start, step, seam position, defect kind, defect position).
#include "fes/axis.hpp"

#include "vp.hpp"
using vp::R;
using vp::Str;
using V = std::vector<double>;

static std::string show(const V& p) {
  Str s;
  s << "[";
  for (size_t i = 0; i < p.size(); ++i) { if (i > 8) { s << "... " << p.back(); break; } s << (i ? "," : "") << p[i]; }
  s << "]";
  return s;
}
static Eigen::VectorXd vec(const V& p) {
  Eigen::VectorXd r(p.size());
  for (size_t i = 0; i < p.size(); ++i) r[i] = p[i];
  return r;
}
static void seen(const V& p, double eps, bool circ, int outcome) {
  uint64_t h = vp::mix(vp::bits(eps), circ * 4 + outcome);
  for (double x : p) h = vp::mix(h, vp::bits(x));
  R.state(h);
  R.transition();
  R.trace();
}

static void refused(const char* key, const V& p, double eps, bool circ) {
  std::string t = vp::thrown([&] { fes::Axis a(vec(p), eps, circ); });
  seen(p, eps, circ, 0);
  R.outcome("refused: " + std::string(key));
  if (t != "invalid_argument") R.fail(key, Str() << show(p) << " circular=" << circ << (t.empty() ? " accepted" : " answered by " + t));
}

// Accepted: step s expected, values equal to p (modulo a turn when wrapped).
static void accepted(const char* key, const V& p, double s, double eps, bool circ, int expect_circular, bool wrapped, double tol) {
  seen(p, eps, circ, 1);
  R.outcome("accepted: " + std::string(key));
  auto bad = [&](const std::string& m) { R.fail(key, Str() << show(p) << " circular=" << circ << " eps=" << eps << ": " << m); };
  fes::Axis a;
  std::string t = vp::thrown([&] { a = fes::Axis(vec(p), eps, circ); });
  if (!t.empty()) return bad("refused with " + t);
  const int64_t n = p.size();
  if (a.size() != n) return bad(Str() << "size " << a.size());
  if (a.is_ascending() != (s > 0)) bad(Str() << "is_ascending " << a.is_ascending());
  if (!vp::close(a.step(), s, tol)) bad(Str() << "step " << a.step() << " instead of " << s);
  for (int64_t i = 0; i < n; ++i) {
    double d = a(i) - p[i];
    if (wrapped) d = std::remainder(d, 360.0);
    if (!(std::fabs(d) <= tol)) { bad(Str() << "value " << i << " is " << a(i) << " instead of " << p[i]); break; }
  }
  if (!wrapped && (a.start() != p.front() || !vp::close(a.end(), p.back(), tol))) bad(Str() << "ends " << a.start() << " " << a.end());
  if (a.start() != a(0) || a.end() != a(n - 1)) bad("start/end disagree with the values");
  if (a.min_value() != std::min(a.start(), a.end()) || a.max_value() != std::max(a.start(), a.end())) bad("min/max");
  if (expect_circular >= 0 && a.is_circular() != (expect_circular == 1)) bad(Str() << "is_circular " << a.is_circular());
  for (int64_t i : {int64_t(-1), n, n + 7, std::numeric_limits<int64_t>::max(), std::numeric_limits<int64_t>::min()}) {
    R.transition();
    if (vp::thrown([&] { (void)a(i); }) != "out_of_range") bad(Str() << "index " << i << " not reported");
  }
  if (!(a == fes::Axis(vec(p), eps, circ))) bad("an axis built from the same points is not equal");
  V q = p;
  for (double& x : q) x += 1;
  if (!wrapped && a == fes::Axis(vec(q), eps, circ)) bad("equal to an axis shifted by one");
  if (n > 2) {
    q = p;
    q.pop_back();
    if (a == fes::Axis(vec(q), eps, circ)) bad("equal to an axis with one point less");
  }
}

static void run() {
  const int big = R.thorough() ? 1440 : 360;
  // regular lists and single defects
  for (int n : {2, 3, 4, 5, 6, 7, 12, big})
    for (double start : {0.0, -180.0, 10.0, 359.0, -0.5, 1.0 / 3})
      for (double step : {1.0, -1.0, 0.1, -0.1, 1.0 / 3, 30.0, -30.0, 1.0 / 16, 2e-3, -2e-3, 100.0})
        for (int circ = 0; circ < 2; ++circ) {
          if (!R.begin("regular")) continue;
          R.note(Str() << "regular n=" << n << " start=" << start << " step=" << step);
          V p;
          for (int i = 0; i < n; ++i) p.push_back(start + i * step);
          R.sample("regular " + show(p) + ": accepted, then with every defect kind at every position");
          const double full = std::fabs(step) * n;
          const int ec = !circ ? 0 : full == 360 ? 1 : std::fabs(full - 360) > 0.01 ? 0 : -1;
          accepted("regular", p, step, 1e-6, circ, ec, false, 1e-9);
          if (n < 3) {
            refused("duplicate", {p[0], p[0]}, 1e-6, circ);
            refused("nan", {p[0], vp::kNaN}, 1e-6, circ);
            refused("nan", {vp::kNaN, p[0]}, 1e-6, circ);
            refused("infinite", {p[0], vp::kInf}, 1e-6, circ);
            refused("short", {p[0]}, 1e-6, circ);
            refused("short", {}, 1e-6, circ);
            continue;
          }
          const double w = std::max(1.0, std::fabs(step));
          for (int k = 0; k < n; ++k) {
            if (n > 20 && k > 4 && k < n - 5 && k % 31) continue;
            for (double d : {4e-7, -4e-7}) { V q = p; q[k] += d; accepted("within-tolerance", q, step, 1e-6, circ, -1, false, 1e-6); }
            for (double d : {5e-6 * w, -5e-6 * w, 1e-3 * w, -0.4 * step, 0.4 * step, 0.9 * step, 5 * step}) { V q = p; q[k] += d; refused("uneven", q, 1e-6, circ); }
            { V q = p; q[k] = vp::kNaN; refused("nan", q, 1e-6, circ); }
            { V q = p; q[k] = vp::kInf; refused("infinite", q, 1e-6, circ); }
            if (k + 1 < n) {
              V q = p;
              q[k + 1] = q[k];
              refused("duplicate", q, 1e-6, circ);
              q = p;
              std::swap(q[k], q[k + 1]);
              refused("swapped", q, 1e-6, circ);
            }
            if (k > 0 && k + 1 < n) { V q = p; q.erase(q.begin() + k); if (n > 3) refused("missing", q, 1e-6, circ); }
          }
          // two steps that compensate: a block of points shifted together
          for (int k = 1; k < n - 1; ++k)
            for (int l = k + 1; l < n - 1; ++l) {
              if (n > 20 && !((k < 4 || k % 31 == 0) && (l - k < 4 || (l - k) % 97 == 0 || l > n - 4))) continue;
              for (double d : {5e-6 * w, -0.4 * step, 0.4 * step}) { V q = p; for (int i = k; i <= l; ++i) q[i] += d; refused("uneven-block", q, 1e-6, circ); }
            }
          refused("constant", V(n, start), 1e-6, circ);
          V tiny;
          for (int i = 0; i < n; ++i) tiny.push_back(start + i * 1e-8);
          refused("constant", tiny, 1e-6, circ);
        }
  // longitudes crossing the seam, at every position of the seam
  for (int n : {3, 4, 5, 6, 8, 9, 12, 24, 36, 72, big})
    for (int dir : {1, -1})
      for (double cover : {360.0, 180.0, 90.0, 200.0})
        for (double lo : {0.0, -180.0})
          for (double off : {0.0, 0.25}) {
            const double s = dir * cover / n;
            const bool full = cover == 360.0;
            for (int k = 0; k < n; ++k) {
              if (n > 80 && k > 6 && k < n - 7 && k % 17) continue;
              if (!R.begin("seam")) continue;
              // k points before the seam
              V p;
              const double first = (dir > 0 ? lo + 360.0 : lo) - k * s + dir * off * (360.0 / n);
              for (int i = 0; i < n; ++i) {
                double x = first + i * s;
                double y = x;
                while (y >= lo + 360.0) y -= 360.0;
                while (y < lo) y += 360.0;
                p.push_back(y);
              }
              R.note("seam " + show(p));
              R.sample("seam at position " + std::to_string(k) + " " + show(p));
              accepted("seam", p, s, 1e-6, true, full ? 1 : 0, true, 1e-9);
              bool crosses = false;
              for (int i = 1; i < n; ++i) if ((p[i] - p[i - 1]) * s < 0) crosses = true;
              if (crosses) refused("seam-not-circular", p, 1e-6, false);
            }
          }
  // cover close to 360
  for (int n : {2, 3, 4, 10, 36, big})
    for (int dir : {1, -1})
      for (double eps : {1e-9, 1e-6, 1e-3, 0.1})
        for (double start : {0.0, -180.0, 7.5}) {
          if (!R.begin("cover")) continue;
          for (double d : {0.0, 0.5, -0.5, 0.9, -0.9}) {
            V p;
            const double s = dir * (360.0 + d * eps) / n;
            for (int i = 0; i < n; ++i) p.push_back(start + i * s);
            if (eps < 1e-8 && d != 0) continue;
            accepted("cover-within", p, s, eps, true, 1, false, 1e-9);
            accepted("cover-not-asked", p, s, eps, false, 0, false, 1e-9);
          }
          for (double d : {400.0, -400.0, 1000.0, -1000.0}) {
            V p;
            const double c = 360.0 + d * eps;
            const double s = dir * c / n;
            for (int i = 0; i < n; ++i) p.push_back(start + i * s);
            accepted("cover-outside", p, s, eps, true, 0, false, 1e-9);
          }
          R.sample(Str() << "cover of 360 +- fractions of eps=" << eps << ", n=" << n);
        }
}
VP_MAIN(run)
