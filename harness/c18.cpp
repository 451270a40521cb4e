// C18: argument, nodal corrections and speed of every constituent over a
// lattice of dates covering the node and perigee cycles.
#include "astro.hpp"
#include "fes/wave/table.hpp"
#include "vp.hpp"
using vp::R;
using vp::Str;
static const char* kName[] = {"SchuremanOrder1", "SchuremanOrder3", "Meeus"};

static void date(int k, double e, int leap, std::vector<std::shared_ptr<fes::Wave>>& waves) {
  const auto form = static_cast<fes::angle::Formulae>(k);
  fes::angle::Astronomic a(form, e, leap), b(form, e + 3600, leap);
  const auto w = astro::compute(k, e, leap);
  for (auto& g : golden::table()) {
    auto& x = *waves[g.ident];
    x.nodal_g(b);
    const double v1 = x.v();
    x.nodal_a(a);
    x.nodal_g(a);
    const double f = x.f(), u = x.u(), v = x.v();
    R.transition();
    R.trace();
    auto at = [&]() { return static_cast<std::string>(Str() << g.name << " " << kName[k] << " epoch " << e << ": "); };
    const double wv = astro::adiff(v, astro::V(g, w));
    const double wu = astro::adiff(u, astro::u(g, w)), wf = static_cast<double>(astro::f(g, w));
    if (!(std::fabs(wv) < 3e-8)) R.fail(Str() << "V:" << g.name, Str() << at() << "V is off by " << wv << " rad");
    if (!(std::fabs(wu) < 1e-8)) {
      // recorded defect of M13: one over Qa, taken as degrees
      const double bad = static_cast<double>(-w.nu - astro::kRad / std::sqrt(2.310L + 1.435L * std::cos(2 * w.P)));
      if (g.ident == 12 && std::fabs(u - bad) < 1e-8) R.fail("u:M13:inverse-Qa-as-degrees", Str() << at() << "u is off by " << wu << " rad");
      else R.fail(Str() << "u:" << g.name, Str() << at() << "u is off by " << wu << " rad");
    }
    if (!(std::fabs(f - wf) < 1e-8)) {
      const double bad = static_cast<double>(astro::factor("m23_k2", w));
      if (g.ident == 59 && std::fabs(f - bad) < 1e-8) R.fail("f:2MK6:cube-of-M2", Str() << at() << "f is " << f << " instead of " << wf);
      else R.fail(Str() << "f:" << g.name, Str() << at() << "f is " << f << " instead of " << wf);
    }
    if (!(f > 0.05 && f < 3)) R.fail(Str() << "f-range:" << g.name, Str() << at() << "f = " << f);
    if (!(std::fabs(u) < 2.6)) R.fail(Str() << "u-range:" << g.name, Str() << at() << "u = " << u);
    if (!(std::fabs(astro::adiff(x.vu(), v + u)) < 1e-11)) R.fail(Str() << "vu:" << g.name, Str() << at() << "vu is not v + u");
    if (!(std::fabs(x.vu()) <= 2 * M_PI)) R.fail(Str() << "vu:" << g.name, Str() << at() << "vu not reduced");
    if (!(std::fabs(astro::adiff(v1 - v, x.freq())) < 1e-7)) R.fail(Str() << "speed:" << g.name, Str() << at() << "argument advances by " << std::remainder(v1 - v, 2 * M_PI) << " in one hour instead of " << x.freq());
    if (e == 0) {
      R.state(vp::mix(vp::bits(x.freq()), g.ident));
      if (!vp::close(x.freq(), g.speed() * M_PI / 180, 1e-10)) R.fail(Str() << "freq:" << g.name, Str() << g.name << ": speed " << x.freq() << " rad/h");
      if (g.ident != 72 && !vp::close(x.period() * x.freq(), 2 * M_PI, 1e-12)) R.fail(Str() << "period:" << g.name, Str() << g.name << ": period " << x.period());
    }
  }
  uint64_t h = vp::mix(k, 0);
  // octant of the node, of the perigee, and of the sun: the states covered
  h = vp::mix(h, static_cast<uint64_t>(astro::mod(w.n, 360) / 11.25L));
  h = vp::mix(h, static_cast<uint64_t>(astro::mod(w.p, 360) / 11.25L));
  R.state(h);
}

static void run() {
  const double day = 86400;
  const int years = R.thorough() ? 260 : 44;
  const double step = R.thorough() ? 2.25 : 4.25;
  const int n = static_cast<int>(years * 365.25 / step / 16);
  std::vector<std::shared_ptr<fes::Wave>> waves;
  for (int i = 0; i < 75; ++i) waves.push_back(fes::wave::Table::wave_factory(static_cast<fes::Constituent>(i)));
  for (int k = 0; k < 3; ++k) {
    if (R.begin("epoch")) { date(k, 0.0, 0, waves); date(k, -2208988800.0, 0, waves); }
    for (int b = 0; b < n; ++b) {
      if (!R.begin("lattice")) continue;
      R.note(Str() << kName[k] << " block " << b);
      for (int i = 0; i < 16; ++i) {
        const double e = (R.thorough() ? -130 * 365.25 * day : -5 * 365.25 * day) + (b * 16 + i) * step * day;
        date(k, e, e > 1e9 ? 34 : 0, waves);
      }
      R.sample(Str() << kName[k] << " 16 dates from block " << b << " x 75 constituents");
    }
  }
  // a table computes the same corrections as its constituents alone, whatever
  // was computed before
  for (int k = 0; k < 3; ++k)
    for (double before : {-1e9, 0.0, 1.7e9})
      for (double e : {-2e9, 0.0, 86399.0, 1e9, 2e9}) {
        if (!R.begin("table")) continue;
        const auto form = static_cast<fes::angle::Formulae>(k);
        fes::wave::Table t;
        t.compute_nodal_corrections(fes::angle::Astronomic(form, before, 3));
        t.compute_nodal_corrections(fes::angle::Astronomic(form, e, 3));
        fes::angle::Astronomic a(form, e, 3);
        for (auto&& w : t) {
          auto x = fes::wave::Table::wave_factory(w->ident());
          x->nodal_g(a);
          x->nodal_a(a);
          R.transition();
          if (!vp::same(x->f(), w->f()) || !vp::same(x->v(), w->v()) || !vp::same(x->u(), w->u())) R.fail(Str() << "table:" << w->name(), Str() << w->name() << " differs in a table");
        }
        R.trace();
      }
}
VP_MAIN(run)
