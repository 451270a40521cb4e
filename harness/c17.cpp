// C17: astronomical angles, over a lattice of dates x formulae x leap seconds
// and all two-step histories of a family of dates.
#include "astro.hpp"
#include "fes/angle/astronomic.hpp"
#include "vp.hpp"
using vp::R;
using vp::Str;
using fes::angle::Astronomic;
using fes::angle::Formulae;

static const char* kName[] = {"SchuremanOrder1", "SchuremanOrder3", "Meeus"};
static Formulae form(int k) { return static_cast<Formulae>(k); }

struct All { double v[13]; };
static All all(const Astronomic& a) {
  return {{a.t(), a.s(), a.h(), a.p(), a.n(), a.p1(), a.i(), a.xi(), a.nu(), a.nuprim(), a.nusec(), a.x1ra(), a.r()}};
}
static const char* kWhat[] = {"t", "s", "h", "p", "n", "p1", "i", "xi", "nu", "nuprim", "nusec", "x1ra", "r"};

static void date(int k, double e, int leap) {
  Astronomic a(form(k), e, static_cast<uint16_t>(leap));
  const All g = all(a);
  const auto w = astro::compute(k, e, leap);
  const astro::L want[13] = {w.t * astro::kRad, w.s * astro::kRad, w.h * astro::kRad, w.p * astro::kRad, w.n * astro::kRad, w.p1 * astro::kRad, w.I, w.xi, w.nu, w.nup, w.nus, w.x1ra, w.r};
  uint64_t hh = 0;
  // rounding of the elapsed time, in turns of the fastest angle
  const double tol = 2e-9 + std::fabs(e) * 3e-19;
  for (int i = 0; i < 13; ++i) {
    const double d = i == 11 ? static_cast<double>(g.v[i] - want[i]) : astro::adiff(g.v[i], want[i]);
    if (!(std::fabs(d) <= tol)) R.fail(Str() << kWhat[i] << ":" << kName[k], Str() << kName[k] << " epoch " << e << " leap " << leap << ": " << kWhat[i] << " is off by " << d << " rad");
    hh = vp::mix(hh, vp::bits(g.v[i]));
    const bool one_turn = i == 0 ? g.v[i] >= -M_PI - 1e-12 && g.v[i] <= 2 * M_PI : i < 6 ? g.v[i] >= 0 && g.v[i] <= 2 * M_PI : true;
    if (!one_turn) R.fail(Str() << "turn:" << kWhat[i], Str() << kName[k] << " epoch " << e << ": " << kWhat[i] << " = " << g.v[i] << " not reduced");
    if (i >= 6 && i != 11 && !(std::fabs(g.v[i]) < 1)) R.fail(Str() << "range:" << kWhat[i], Str() << kName[k] << " epoch " << e << ": " << kWhat[i] << " = " << g.v[i]);
  }
  R.state(hh);
  R.transition();
  R.trace();
}

// Continuous advance at the published speed between e and e+dt.
static void advance(int k, double e, double dt, int leap) {
  const All a = all(Astronomic(form(k), e, leap)), b = all(Astronomic(form(k), e + dt, leap));
  const double c = 3155760000.0;
  const double rate[6] = {15.0 / 3600, (1336 * 360 + 307.892) / c, (36000 + 0.769) / c, (11 * 360 + 109.032) / c, (-5 * 360 - 134.142) / c, 1.719 / c};
  R.transition();
  for (int i = 0; i < 6; ++i) {
    const double d = astro::adiff(b.v[i] - a.v[i], rate[i] * dt * M_PI / 180);
    // secular change of the speed: below 1e-4 degree per hour
    if (!(std::fabs(d) <= 2e-9 + std::fabs(dt) / 3600 * 2e-8)) R.fail(Str() << "speed:" << kWhat[i], Str() << kName[k] << " from " << e << " in " << dt << " s: " << kWhat[i] << " advances by " << b.v[i] - a.v[i] << ", published speed gives " << rate[i] * dt * M_PI / 180);
  }
  for (int i = 6; i < 13; ++i)
    if (!(std::fabs(b.v[i] - a.v[i]) <= 1e-9 + std::fabs(dt) / 3600 * 2e-3)) R.fail(Str() << "jump:" << kWhat[i], Str() << kName[k] << " from " << e << " in " << dt << " s: " << kWhat[i] << " jumps by " << b.v[i] - a.v[i]);
}

static void run() {
  const double day = 86400;
  const double span0 = -126230400.0 * 8.75 /* about 1935 */, years = R.thorough() ? 300 : 90;
  const double start = R.thorough() ? -170.0 * 365.25 * day : span0;
  const double step = R.thorough() ? 1.75 : 2.5;
  (void)span0;
  const int n = static_cast<int>(years * 365.25 / step / 64);
  for (int k = 0; k < 3; ++k)
    for (int b = 0; b < n; ++b) {
      if (!R.begin("lattice")) continue;
      R.note(Str() << kName[k] << " block " << b);
      for (int i = 0; i < 64; ++i) {
        const double d = std::floor((start / day) + (b * 64 + i) * step) * day;
        const int leap = d < 63072000 ? 0 : std::min(37, 10 + static_cast<int>((d - 63072000) / (1.6 * 365.25 * day)));
        for (double s : {0.0, 0.5, 1.0, 3599.75, 21600.0, 43199.0, 43200.0, 43201.0, 86399.0, 86399.999}) {
          date(k, d + s, leap);
          if (s == 0.0 || s == 43200.0 || s == 86399.0) for (double dt : {1.0, 60.0, 3600.0, 86400.0, -1.0, -3600.0}) advance(k, d + s, dt, leap);
        }
      }
      R.sample(Str() << kName[k] << " 64 days from " << start / day + b * 64 * step << " x 10 times of the day");
    }
  // instants around turn crossings of each angle and node passages
  for (int k = 0; k < 3; ++k)
    for (int i = 1; i < 6; ++i)
      for (int target = 0; target < 4; ++target) {
        if (!R.begin("crossing")) continue;
        // find by bisection the date at which the reference angle is target*90
        const double c = 3155760000.0;
        const double rate[6] = {0, (1336 * 360 + 307.892) / c, (36000 + 0.769) / c, (11 * 360 + 109.032) / c, (-5 * 360 - 134.142) / c, 1.719 / c};
        for (int turn = -3; turn <= 3; ++turn) {
          double e = 946728000.0;
          for (int it = 0; it < 60; ++it) {
            const auto w = astro::compute(k, e, 32);
            const astro::L x[6] = {0, w.s, w.h, w.p, w.n, w.p1};
            const double goal = target * 90.0 + (i == 5 ? 0 : turn * 360.0);
            astro::L base = x[i];
            // bring the first value into one turn, then follow it
            static thread_local astro::L off;
            if (it == 0) off = std::floor(base / 360) * 360;
            const double miss = goal - static_cast<double>(base - off);
            if (std::fabs(miss) < 1e-10) break;
            e += miss / rate[i];
            if (std::fabs(e) > 3e11) break;
          }
          if (std::fabs(e) > 1.2e10 + (i == 5 ? 2e11 : 0)) continue;
          for (double d : {-3600.0, -1.0, -0.01, 0.0, 0.01, 1.0, 3600.0})
            if (std::fabs(e) < 1.5e10) { date(k, e + d, 32); advance(k, e + d, 1.0, 32); advance(k, e + d, -7200.0, 32); }
          for (int q = -4; q <= 4; ++q) {
            double z = e;
            for (int j = 0; j < std::abs(q); ++j) z = q < 0 ? vp::down(z) : vp::up(z);
            if (std::fabs(e) < 1.5e10) date(k, z, 32);
          }
        }
      }
  // dates around 1970 and midnight, before and after
  for (int k = 0; k < 3; ++k)
    for (double d : {-86400.0 * 40000, -86400.0 * 365, -86400.0, 0.0, 86400.0, 86400.0 * 365, 86400.0 * 18262.0}) {
      if (!R.begin("midnight")) continue;
      for (double s : {-86399.0, -43200.0, -3600.0, -1.0, -0.5, -1e-3, 0.0, 1e-3, 0.5, 1.0, 3600.0, 43200.0, 86399.0}) {
        date(k, d + s, 0);
        for (double dt : {1e-3, 0.5, 1.0, 2.0, 3600.0, 86400.0}) { advance(k, d + s, dt, 0); advance(k, d + s, -dt, 0); }
      }
    }
  // leap seconds
  for (int k = 0; k < 3; ++k)
    for (int leap = 0; leap <= 40; ++leap) {
      if (!R.begin("leap-seconds")) continue;
      for (double e : {-2208988800.0, -1.0, 0.0, 946684800.0, 1483228800.0, 1700000000.5}) {
        const All a = all(Astronomic(form(k), e, leap)), z = all(Astronomic(form(k), e, 0));
        date(k, e, leap);
        if (k < 2) {
          for (int i = 0; i < 13; ++i) if (!vp::same(a.v[i], z.v[i])) R.fail(Str() << "leap:" << kWhat[i], Str() << kName[k] << " depends on leap seconds (" << leap << ") at " << e);
        } else {
          if (!vp::same(a.v[0], z.v[0])) R.fail("leap:t", Str() << "hour angle depends on leap seconds at " << e);
          const All s = all(Astronomic(form(k), e + leap, 0));
          for (int i = 1; i < 6; ++i) if (!(std::fabs(astro::adiff(a.v[i], s.v[i])) < 1e-9)) R.fail(Str() << "leap:" << kWhat[i], Str() << "leap seconds " << leap << " at " << e << " do not shift the time scale");
        }
      }
      for (uint16_t l : {uint16_t(1000), uint16_t(65535)}) date(k, 1e9, l);
    }
  // histories: an object reused after any other date equals a new one
  const double E[] = {-4e9, -2208988800.0, -86400.0, -1.0, 0.0, 1.0, 43200.0, 86399.0, 86400.0, 946684800.0, 946684801.0, 1.7e9, 4e9, vp::kNaN, vp::kInf};
  for (int k = 0; k < 3; ++k)
    for (double a : E)
      for (double b : E) {
        if (!R.begin("history")) continue;
        for (int la : {0, 32})
          for (int lb : {0, 32})
            for (double c : E) {
              Astronomic x(form(k));
              x.update(a, la);
              x.update(b, lb);
              const All y = all(x), z = all(Astronomic(form(k), b, lb));
              x.update(c, la);
              x.update(b, lb);
              const All y2 = all(x);
              R.transition(4);
              R.trace();
              for (int i = 0; i < 13; ++i) if (!vp::same(y.v[i], z.v[i]) || !vp::same(y2.v[i], z.v[i])) R.fail(Str() << "history:" << kWhat[i], Str() << kName[k] << " at " << b << " depends on the earlier date " << a << " or " << c);
            }
        Astronomic copy = Astronomic(form(k), a, 0), other(form(k), b, 5);
        other = copy;
        other.update(b, 3);
        const All y = all(other), z = all(Astronomic(form(k), b, 3));
        for (int i = 0; i < 13; ++i) if (!vp::same(y.v[i], z.v[i])) R.fail(Str() << "copy:" << kWhat[i], "copied object");
      }
  // an unknown formula is refused
  for (int k : {-1, 3, 4, 5, 100, 255, 256, 1 << 20}) {
    if (!R.begin("unknown")) continue;
    if (vp::thrown([&] { Astronomic a(form(k)); }).empty()) R.fail("unknown", Str() << "formula " << k << " accepted");
    if (vp::thrown([&] { Astronomic a(form(k), 0.0, 0); }).empty()) R.fail("unknown", Str() << "formula " << k << " accepted");
    R.trace(2);
  }
  if (R.begin("default")) {
    Astronomic a, b(Formulae::kSchuremanOrder1);
    a.update(1e9, 3);
    b.update(1e9, 3);
    for (int i = 0; i < 13; ++i) if (!vp::same(all(a).v[i], all(b).v[i])) R.fail("default", "default formula");
  }
}
VP_MAIN(run)
