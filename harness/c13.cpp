// C13: inference by admittance, for every subset of the inferable constituents.
#include "admit.hpp"
#include "fes/wave/table.hpp"
#include "golden.hpp"
#include "vp.hpp"
using vp::R;
using vp::Str;
using fes::wave::Table;
using Cx = std::complex<double>;
static fes::Constituent C(int i) { return static_cast<fes::Constituent>(i); }

struct Snap {
  std::vector<Cx> tide;
  std::vector<uint8_t> flags;
};
static Snap snap(const Table& t) {
  Snap s;
  for (int i = 0; i < 75; ++i) {
    const auto& w = t[C(i)];
    s.tide.push_back(w->tide());
    s.flags.push_back(static_cast<uint8_t>(w->admittance() | w->dynamic() << 1));
  }
  return s;
}
static bool eq(const Cx& a, const Cx& b, double tol) {
  return vp::close(a.real(), b.real(), tol) && vp::close(a.imag(), b.imag(), tol);
}
static Cx value(int i, int set) {
  const double x = std::sin(i * 12.9898 + set * 78.233) * 100, y = std::cos(i * 4.1414 + set * 3.77) * 70;
  return {x, y};
}

// Applies admittance to a table in a known state and compares everything.
static void once(Table& t, const std::string& key, const std::string& what) {
  const Snap before = snap(t);
  std::vector<Cx> want = before.tide;
  admit::apply(want, [&](int i) { return before.flags[i] & 1; });
  t.admittance();
  const Snap after = snap(t);
  R.transition();
  uint64_t h = 0;
  for (int i = 0; i < 75; ++i) {
    const double scale = std::abs(want[i]);
    const bool touched = !(vp::same(want[i].real(), before.tide[i].real()) && vp::same(want[i].imag(), before.tide[i].imag()));
    if (!eq(after.tide[i], want[i], touched ? 1e-12 * (scale + 1) : 0)) R.fail(key + ":" + golden::table()[i].name, Str() << what << ": " << golden::table()[i].name << " is " << after.tide[i].real() << "," << after.tide[i].imag() << " expected " << want[i].real() << "," << want[i].imag());
    if (after.flags[i] != before.flags[i]) R.fail("flags", what + ": flags of " + golden::table()[i].name + " changed");
    h = vp::mix(h, vp::bits(after.tide[i].real()));
  }
  R.state(h);
}

static void run() {
  const auto& rules = admit::rules();
  const int n = static_cast<int>(rules.size());  // 19 with 2N2
  const int bits = n;
  const int blocks = 256, per = (1 << bits) / blocks;
  for (int b = 0; b < blocks; ++b) {
    if (!R.begin("subsets")) continue;
    R.note(Str() << "subsets from " << b * per);
    Table t;
    for (int m = b * per; m < (b + 1) * per; ++m) {
      for (int i = 0; i < 75; ++i) t[C(i)]->tide(value(i, m & 3));
      for (int i = 0; i < n; ++i) t[C(rules[i].target)]->admittance(m >> i & 1);
      once(t, "subset", Str() << "inferred set " << m);
      if (m % 16 == 0) once(t, "again", Str() << "inferred set " << m << " repeated");
    }
    R.trace();
    R.sample(Str() << "sets of inferred constituents " << b * per << ".." << (b + 1) * per - 1);
  }
  // default flags: exactly the documented inferable constituents
  if (R.begin("default")) {
    Table t;
    for (int i = 0; i < 75; ++i) {
      bool rule = false;
      for (auto& r : rules) rule = rule || r.target == i;
      if (t[C(i)]->admittance() != rule) R.fail("inferable", Str() << golden::table()[i].name << " is " << (rule ? "not " : "") << "inferred by default");
      t[C(i)]->tide(value(i, 9));
    }
    once(t, "default", "default flags");
  }
  // basis of the majors: one component at a time, several scales
  const int majors[] = {fes::kQ1, fes::kO1, fes::kK1, fes::kN2, fes::kM2, fes::kK2, fes::k2N2};
  for (int j : majors)
    for (int part = 0; part < 2; ++part) {
      if (!R.begin("basis")) continue;
      for (double s : R.thorough() ? std::vector<double>{1.0, -1.0, 1e-9, 1e9, 0.0, 0.1, -3.7, 1e-300, 1e100} : std::vector<double>{1.0, -1.0, 1e-9, 1e9, 0.0})
        for (int n2 = 0; n2 < 2; ++n2)
          for (int garbage = 0; garbage < 5; ++garbage) {
            Table t;
            const double g[] = {0, 1e300, vp::kNaN, vp::kInf, -7};
            for (int i = 0; i < 75; ++i) t[C(i)]->tide(0);
            for (auto& r : rules) if (r.target != fes::k2N2 || !n2) t[C(r.target)]->tide({g[garbage], -g[garbage]});
            t[fes::k2N2]->admittance(!n2);
            if (n2) t[fes::k2N2]->tide(0);
            if (j != fes::k2N2 || n2) t[C(j)]->tide(part ? Cx(0, s) : Cx(s, 0));
            for (int other : majors) if (other != j && other != fes::k2N2) t[C(other)]->tide(0);
            once(t, "basis", Str() << "only " << golden::table()[j].name << " = " << s << (part ? "i" : "") << ", garbage " << g[garbage]);
            once(t, "basis-again", Str() << "only " << golden::table()[j].name << " repeated");
          }
      R.trace();
    }
  // superposition: f(a x + b y) = a f(x) + b f(y)
  for (int p = 0; p < 49; ++p) {
    if (!R.begin("linear")) continue;
    std::vector<Cx> res[3];
    const Cx a(0.5, 0), b(-2, 0);
    for (int q = 0; q < 3; ++q) {
      Table t;
      for (int i = 0; i < 75; ++i) {
        const Cx x = i % 7 == p % 7 ? value(i, p) : Cx(1, i), y = i % 7 == p / 7 ? value(i, p + 50) : Cx(i, 2);
        t[C(i)]->tide(q == 0 ? x : q == 1 ? y : a * x + b * y);
      }
      t.admittance();
      res[q] = snap(t).tide;
    }
    for (int i = 0; i < 75; ++i)
      if (!eq(res[2][i], a * res[0][i] + b * res[1][i], 1e-10)) R.fail(Str() << "linear:" << golden::table()[i].name, "inference is not linear");
    R.transition(3);
    R.trace();
  }
  // flags on constituents that have no rule, alone and with one inferable off
  for (int i = 0; i < 75; ++i) {
    if (!R.begin("foreign")) continue;
    for (int off = -1; off < n; ++off)
      for (int dyn = 0; dyn < 2; ++dyn) {
        Table t;
        for (int k = 0; k < 75; ++k) t[C(k)]->tide(value(k, i));
        if (off >= 0) t[C(rules[off].target)]->admittance(false);
        t[C(i)]->admittance(true);
        t[C(i)]->dynamic(dyn);
        once(t, "foreign", Str() << golden::table()[i].name << " flagged, rule " << off << " off");
      }
    R.trace();
  }
  // histories of three steps: change a major, toggle a flag, in between infer
  const int nm = 7, ops = nm + n;
  for (int x = 0; x < ops; ++x)
    for (int y = 0; y < ops; ++y) {
      if (!R.begin("histories")) continue;
      for (int z = 0; z < ops; ++z) {
        Table t;
        for (int i = 0; i < 75; ++i) t[C(i)]->tide(value(i, 1));
        int step = 0;
        for (int o : {x, y, z}) {
          ++step;
          if (o < nm) t[C(majors[o])]->tide(value(o, 20 + step));
          else { auto& w = t[C(rules[o - nm].target)]; w->admittance(!w->admittance()); }
          once(t, "history", Str() << "steps " << x << "," << y << "," << z << " step " << step);
        }
        R.trace();
      }
    }
}
VP_MAIN(run)
