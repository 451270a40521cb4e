// C25: reduction of angles, remainders and trigonometry in degrees, over
// lattices with the neighbouring floating point numbers of every lattice point.
#include "fes/detail/math.hpp"
#include "vp.hpp"
using vp::R;
using vp::Str;
namespace m = fes::detail::math;
using L = long double;

template <typename T> struct Name;
template <> struct Name<double> { static const char* v() { return "double"; } };
template <> struct Name<float> { static const char* v() { return "float"; } };

// distance of a to the nearest multiple of c
static L off(L a, L c) { return std::fabs(std::remainder(a, c)); }

template <typename T>
static void reduce(T x, T min, T circle) {
  const T r = m::normalize_angle(x, min, circle);
  const T eps = std::numeric_limits<T>::epsilon();
  R.transition();
  R.state(vp::mix(vp::mix(vp::bits(r), vp::bits(min)), vp::bits(circle)));
  if (!(r >= min && (r < min + circle))) R.fail(Str() << "interval:" << Name<T>::v(), Str() << "normalize_angle(" << x << ", " << min << ", " << circle << ") = " << r << " is out of the interval");
  const L tol = 3 * static_cast<L>(eps) * (std::fabs(L(x)) + std::fabs(L(min)) + circle);
  if (!(off(L(x) - L(r), circle) <= tol)) R.fail(Str() << "equivalent:" << Name<T>::v(), Str() << "normalize_angle(" << x << ", " << min << ", " << circle << ") = " << r << " is another angle");
}

template <typename T>
static void rem(T x, T y) {
  const T r = m::remainder(x, y);
  const L eps = std::numeric_limits<T>::epsilon();
  R.transition();
  R.state(vp::mix(vp::bits(r), vp::bits(y)));
  if (!(std::fabs(r) <= std::fabs(y)) || (r != 0 && (r > 0) != (y > 0))) R.fail(Str() << "remainder-range:" << Name<T>::v(), Str() << "remainder(" << x << ", " << y << ") = " << r);
  if (!(off(std::remainder(L(x), L(y)) - L(r), y) <= 2 * eps * std::fabs(L(y)))) R.fail(Str() << "remainder-value:" << Name<T>::v(), Str() << "remainder(" << x << ", " << y << ") = " << r << " is not congruent");
}

template <typename I>
static void irem(I x, I y, const char* t) {
  if (y == 0 || (std::is_signed<I>::value && y == I(-1))) {
    if (y == 0 || x == std::numeric_limits<I>::min()) return;
  }
  const I r = m::remainder(x, y);
  __int128 q = x, d = y, w = q % d;
  if (w != 0 && ((w < 0) != (d < 0))) w += d;
  R.transition();
  R.state(vp::mix(static_cast<uint64_t>(r), vp::hash(t)));
  if (static_cast<__int128>(r) != w) R.fail(Str() << "integer-remainder:" << t, Str() << "remainder(" << +x << ", " << +y << ") = " << +r << " for " << t);
}

template <typename T>
static void trig(T x) {
  const T s = m::sind(x), c = m::cosd(x);
  T s2, c2;
  std::tie(s2, c2) = m::sincosd(x);
  const L y = std::remainder(L(x), 360.0L);
  const L a = y * 3.14159265358979323846264338327950288L / 180;
  const L tol = std::numeric_limits<T>::epsilon() * 4;
  R.transition();
  R.state(vp::mix(vp::bits(s), vp::bits(c)));
  if (!(std::fabs(s - std::sin(a)) <= tol)) R.fail(Str() << "sind:" << Name<T>::v(), Str() << "sind(" << x << ") = " << s);
  if (!(std::fabs(c - std::cos(a)) <= tol)) R.fail(Str() << "cosd:" << Name<T>::v(), Str() << "cosd(" << x << ") = " << c);
  // sind and cosd are within tolerance; the pair must be the same functions
  if (!(std::fabs(s2 - std::sin(a)) <= tol) || !(std::fabs(c2 - std::cos(a)) <= tol)) R.fail(Str() << "sincosd:" << Name<T>::v(), Str() << "sincosd(" << x << ") = " << s2 << ", " << c2);
  const L quarter = y / 90;
  if (quarter == std::floor(quarter)) {
    const int k = (static_cast<int>(quarter) + 4) % 4;
    const T ws = k == 1 ? 1 : k == 3 ? -1 : 0, wc = k == 0 ? 1 : k == 2 ? -1 : 0;
    if (s != ws || c != wc || s2 != ws || c2 != wc) R.fail(Str() << "exact:" << Name<T>::v(), Str() << "sine and cosine of " << x << " degrees are not exact: " << s << ", " << c << " or " << s2 << ", " << c2);
  }
  // shifts by whole turns that are exact
  for (T t : {T(360), T(-360), T(720), T(-1080), T(3600), T(-36000)}) {
    const T z = x + t;
    if (L(z) - L(t) != L(x)) continue;
    T s3, c3;
    std::tie(s3, c3) = m::sincosd(z);
    if (m::sind(z) != s || m::cosd(z) != c || s3 != s2 || c3 != c2) R.fail(Str() << "periodic:" << Name<T>::v(), Str() << "sine or cosine of " << x << " and " << z << " degrees differ");
  }
  // symmetries
  if (m::sind(-x) != -s || m::cosd(-x) != c) R.fail(Str() << "parity:" << Name<T>::v(), Str() << "sine or cosine of " << x << " degrees and its opposite");
}

template <typename T, typename F>
static void around(T x, int n, F f) {
  f(x);
  T a = x, b = x;
  for (int i = 0; i < n; ++i) {
    a = std::nextafter(a, std::numeric_limits<T>::infinity());
    b = std::nextafter(b, -std::numeric_limits<T>::infinity());
    f(a);
    f(b);
  }
}

template <typename T>
static std::vector<T> special() {
  std::vector<T> v;
  for (double d : {0.0, 1e-30, 1e-20, 1e-17, 3e-17, 1e-16, 2e-16, 1e-14, 1e-10, 1e-6, 1e-3, 0.1, 1.0 / 3, 1e3 + 0.1, 1e4 + 0.7, 1e5 + 0.3, 123456.789, 1e6, 16777216.0, 1e7, 1e9, 4294967296.0, 1e12, 4503599627370496.0, 9007199254740992.0}) {
    v.push_back(T(d));
    v.push_back(T(-d));
  }
  v.push_back(std::numeric_limits<T>::denorm_min());
  v.push_back(-std::numeric_limits<T>::denorm_min());
  v.push_back(std::numeric_limits<T>::min());
  v.push_back(-std::numeric_limits<T>::min());
  return v;
}

template <typename T>
static void floats(const char* name) {
  const std::string sec = std::string(name);
  const int turns = R.thorough() ? 12 : 4;
  for (double mn : {-180.0, 0.0, -90.0, -360.0, 10.5, -179.9, 180.0, 720.25, -1e-3, 0.1, -720.0, 359.5})
    for (double ci : {360.0, 24.0, 180.0, 1.0, 6.283185307179586, 360.5}) {
      if (!R.begin((sec + "-reduce").c_str())) continue;
      const T min = T(mn), circle = T(ci);
      R.note(Str() << "normalize " << name << " min " << mn << " circle " << ci);
      for (int k = -turns * 8; k <= turns * 8; ++k)
        for (T base : {T(0), min}) around<T>(base + circle * k / 8, 6, [&](T x) { reduce(x, min, circle); });
      for (int k = -turns * 360; k <= turns * 360; ++k) reduce(T(k) + T(0.125), min, circle);
      for (T x : special<T>())
        for (T base : {T(0), min, T(min + circle), circle, T(-circle)}) around<T>(base + x, 2, [&](T z) { reduce(z, min, circle); });
      R.sample(Str() << "normalize_angle<" << name << ">(x, " << mn << ", " << ci << ") for all lattice x");
    }
  if (R.begin((sec + "-default").c_str()))
    for (int k = -4 * turns * 360; k <= 4 * turns * 360; ++k) around<T>(T(k) / 4, 2, [&](T x) {
      if (m::normalize_angle(x) != m::normalize_angle(x, T(-180)) || m::normalize_angle(x, T(-180)) != m::normalize_angle(x, T(-180), T(360))) R.fail("default", Str() << "normalize_angle(" << x << ") without its optional arguments");
      R.transition();
    });
  for (double y : {360.0, -360.0, 24.0, -24.0, 1.0, -1.0, 0.1, -0.1, 6.283185307179586, 86400.0, 3.0, -7.5}) {
    if (!R.begin((sec + "-remainder").c_str())) continue;
    const T d = T(y);
    for (int k = -200; k <= 200; ++k) around<T>(d * k / 8, 3, [&](T x) { rem(x, d); });
    for (T x : special<T>()) around<T>(x, 1, [&](T z) { rem(z, d); });
    R.trace();
  }
  for (int b = -turns * 4; b < turns * 4; ++b) {
    if (!R.begin((sec + "-trig").c_str())) continue;
    const int per = R.thorough() ? 64 : 8;
    for (int k = 0; k <= 90 * per; ++k) around<T>(T(b * 90) + T(k) / per, k % per == 0 ? 6 : 1, [&](T x) { trig(x); });
    R.trace();
    R.sample(Str() << "sind, cosd, sincosd<" << name << "> over [" << b * 90 << ", " << b * 90 + 90 << "] by 1/" << per << " degree and neighbours");
  }
  if (R.begin((sec + "-trig-large").c_str())) {
    for (T x : special<T>()) around<T>(x, 2, [&](T z) { trig(z); });
    for (int64_t k = -4096; k <= 4096; ++k) { trig(T(k * 90)); trig(T(k * 45)); trig(T(k * 90 * 181)); }
    R.trace();
  }
}

template <typename I>
static void ints(const char* name) {
  if (!R.begin("integer")) return;
  std::vector<I> v;
  for (int i = -70; i <= 70; ++i) v.push_back(static_cast<I>(i));
  for (int i = 0; i < 40; ++i) {
    v.push_back(std::numeric_limits<I>::min() + static_cast<I>(i));
    v.push_back(std::numeric_limits<I>::max() - static_cast<I>(i));
    v.push_back(static_cast<I>(360 * (i - 20)));
    v.push_back(static_cast<I>(360 * (i - 20) + 1));
  }
  for (I x : v) for (I y : v) irem<I>(x, y, name);
  R.trace();
}

static void run() {
  floats<double>("double");
  floats<float>("float");
  ints<int32_t>("int32");
  ints<int64_t>("int64");
  ints<uint32_t>("uint32");
  ints<uint64_t>("uint64");
  if (R.begin("int8"))
    for (int x = -128; x < 128; ++x) for (int y = -128; y < 128; ++y) irem<int8_t>(static_cast<int8_t>(x), static_cast<int8_t>(y), "int8");
  for (int min : {-180, 0, 90, -360, 17})
    for (int circle : {360, 24, 7}) {
      if (!R.begin("integer-reduce")) continue;
      for (int x = -2000; x <= 2000; ++x) {
        const int64_t r = m::normalize_angle<int64_t>(x, min, circle);
        R.transition();
        if (r < min || r >= min + circle || (x - r) % circle != 0) R.fail("integer-reduce", Str() << "normalize_angle<int64>(" << x << ", " << min << ", " << circle << ") = " << r);
      }
    }
}
VP_MAIN(run)
