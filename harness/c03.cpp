// C03: reading operations on a wave table leave it unchanged, even concurrently.
#include <thread>

#include "fes/wave/long_period_equilibrium.hpp"
#include "fes/wave/table.hpp"
#include "golden.hpp"
#include "sched.hpp"
using vp::R;
using vp::Str;
using fes::wave::Table;
using Cx = std::complex<double>;

namespace {
uint64_t digest(const Table& t) {
  uint64_t h = t.size();
  for (const auto& w : t) {
    h = vp::mix(h, w->ident());
    h = vp::mix(vp::mix(h, vp::bits(w->tide().real())), vp::bits(w->tide().imag()));
    h = vp::mix(vp::mix(vp::mix(h, vp::bits(w->f())), vp::bits(w->u())), vp::bits(w->v()));
    h = vp::mix(vp::mix(h, vp::bits(w->vu())), vp::bits(w->freq()));
    h = vp::mix(vp::mix(h, vp::bits(w->period())), w->type());
    h = vp::mix(h, w->dynamic() * 2 + w->admittance());
    h = vp::mix(h, vp::hash(w->name()));
    h = vp::mix(h, vp::hash(w->doodson_number()));
    const auto f = t.find(w->name());
    h = vp::mix(h, f && f.get() == w.get());
  }
  for (const auto& n : t.constituents()) h = vp::mix(h, vp::hash(n));
  return h;
}
std::string changes(const Table& t, const std::vector<double>& before) {
  size_t k = 0;
  Str o;
  for (const auto& w : t) {
    const double now[] = {w->tide().real(), w->tide().imag(), w->f(), w->u(), w->v(), double(w->dynamic()), double(w->admittance())};
    static const char* kName[] = {"real part", "imaginary part", "nodal factor", "nodal phase", "argument", "dynamic", "inferred"};
    for (int i = 0; i < 7 && k < before.size(); ++i, ++k) if (!vp::same(now[i], before[k])) return o << w->name() << ": " << kName[i] << " " << before[k] << " became " << now[i];
  }
  return o << "names or order";
}
std::vector<double> values(const Table& t) {
  std::vector<double> r;
  for (const auto& w : t) for (double x : {w->tide().real(), w->tide().imag(), w->f(), w->u(), w->v(), double(w->dynamic()), double(w->admittance())}) r.push_back(x);
  return r;
}
Table table(int kind, int state) {
  using F = fes::Constituent;
  Table t = kind == 0 ? Table() : kind == 1 ? Table(std::vector<F>{fes::kM2}) : kind == 2 ? Table(std::vector<F>{fes::kM2, fes::kK1, fes::kO1, fes::kMf, fes::kMKS2, fes::kM11}) : Table(std::vector<F>{fes::kS2, fes::k2N2, fes::kSa});
  if (state == 0) return t;
  int i = 0;
  for (auto&& w : t) {
    w->tide({std::sin(i * 1.1) * 9, std::cos(i * 0.6) * 7});
    w->dynamic(i % 3 == 0);
    w->admittance(i % 4 == 1);
    ++i;
  }
  if (state == 2) t.compute_nodal_corrections(fes::angle::Astronomic(fes::angle::Formulae::kMeeus, 123456789.0, 5));
  return t;
}
// Reading operations
constexpr int kOps = 10;
struct Op { int what; int dates; double e; int leap; fes::angle::Formulae f; int positions; size_t threads; };
Op op(int i) {
  using F = fes::angle::Formulae;
  switch (i) {
    case 0: return {0, 2, 946728000.0, 32, F::kSchuremanOrder1, 0, 0};
    case 1: return {1, 0, 946728000.0, 32, F::kSchuremanOrder1, 2, 1};
    case 2: return {2, 2, 946728000.0, 32, F::kSchuremanOrder1, 0, 0};
    case 3: return {0, 3, 1483228799.5, 36, F::kMeeus, 0, 0};
    case 4: return {1, 0, -86400.25, 0, F::kMeeus, 3, 2};
    case 5: return {2, 1, 1.7e9, 37, F::kSchuremanOrder3, 0, 0};
    case 6: return {1, 0, 1.7e9, 37, F::kSchuremanOrder3, 1, 0};
    case 7: return {0, 0, 0, 0, F::kSchuremanOrder1, 0, 0};
    case 8: return {3, 0, 0, 0, F::kSchuremanOrder1, 0, 0};   // sizes that do not match
    default: return {4, 0, 0, 0, F::kSchuremanOrder1, 0, 0};  // names and positions
  }
}
std::string name(int i) {
  const Op o = op(i);
  static const char* k[] = {"series", "map", "modulations", "refused", "lookups"};
  return Str() << k[o.what] << " " << i;
}
std::vector<double> apply(const Table& t, int i, bool one = false) {
  Op o = op(i);
  if (one) o.threads = 1;
  const int nw = int(t.size());
  std::vector<double> r;
  Eigen::VectorXd e(o.dates);
  fes::Vector<uint16_t> leap(o.dates);
  for (int k = 0; k < o.dates; ++k) { e[k] = o.e + 12345.5 * k * k; leap[k] = uint16_t(o.leap); }
  Eigen::VectorXcd w(nw);
  for (int k = 0; k < nw; ++k) w[k] = Cx(1 + k * 0.5 + i, 2 - k * 0.25);
  auto put = [&](const Eigen::MatrixXd& m) { for (int c = 0; c < m.cols(); ++c) for (int d = 0; d < m.rows(); ++d) r.push_back(m(d, c)); };
  if (o.what == 0) put(t.tide_from_tide_series(e, leap, w, o.f));
  if (o.what == 1) {
    Eigen::MatrixXcd m(nw, o.positions);
    for (int p = 0; p < o.positions; ++p) m.col(p) = w * (p + 1.0);
    put(t.tide_from_mapping(o.e, uint16_t(o.leap), m, o.f, o.threads));
  }
  if (o.what == 2) {
    const auto m = t.compute_nodal_modulations(e, leap, o.f);
    put(std::get<0>(m));
    put(std::get<1>(m));
  }
  if (o.what == 3) {
    r.push_back(vp::thrown([&] { t.tide_from_tide_series(e, leap, Eigen::VectorXcd(nw + 1), o.f); }).size());
    r.push_back(vp::thrown([&] { t.tide_from_mapping(0, 0, Eigen::MatrixXcd(nw + 1, 2), o.f, 2); }).size());
    r.push_back(vp::thrown([&] { t.compute_nodal_modulations(e, fes::Vector<uint16_t>(3), o.f); }).size());
  }
  if (o.what == 4) {
    for (const auto& n : t.constituents()) { const auto f = t.find(n); r.push_back(f ? f->freq() : -1); }
    for (size_t k = 0; k < t.size(); ++k) r.push_back(t[k]->period());
    for (const auto& x : t) r.push_back(x->ident());
  }
  return r;
}
bool same(const std::vector<double>& a, const std::vector<double>& b) {
  if (a.size() != b.size()) return false;
  for (size_t i = 0; i < a.size(); ++i) if (!vp::close(a[i], b[i], 1e-9)) return false;
  return true;
}
const std::vector<double>& alone(int kind, int i) {
  static std::map<int, std::vector<double>> memo;
  auto it = memo.find(kind * 100 + i);
  if (it == memo.end()) it = memo.emplace(kind * 100 + i, apply(table(kind, 0), i, true)).first;
  return it->second;
}
// What a thread may ask of a library nothing was asked of yet.
constexpr int kFirst = 8;
const char* const kFirstName[kFirst] = {"names", "table of all, series", "table by name, map", "modulations", "analysis", "selection", "lookups", "long-period equilibrium"};
std::vector<double> first(int i) {
  using F = fes::angle::Formulae;
  std::vector<double> r;
  const std::vector<fes::Constituent> some = {fes::kM2, fes::kK1, fes::kMf, fes::kM11};
  Eigen::VectorXd e = Eigen::VectorXd::LinSpaced(2, 9e8, 9.1e8);
  fes::Vector<uint16_t> leap(2);
  leap << 32, 33;
  auto put = [&](const Eigen::MatrixXd& m) { for (int c = 0; c < m.cols(); ++c) for (int d = 0; d < m.rows(); ++d) r.push_back(m(d, c)); };
  switch (i) {
    case 0:
      for (const auto& n : {"M2", "mks2", "Sa"}) { const auto id = fes::constituents::parse(n); r.push_back(id); r.push_back(double(vp::hash(fes::constituents::name(id)) % 1000)); }
      r.push_back(fes::constituents::known().size());
      break;
    case 1: { const Table t; put(t.tide_from_tide_series(e, leap, Eigen::VectorXcd::Constant(t.size(), Cx(1, 2)), F::kMeeus)); break; }
    case 2: { const Table t(some); put(t.tide_from_mapping(9e8, 32, Eigen::MatrixXcd::Constant(4, 2, Cx(3, 1)), F::kSchuremanOrder1, 1)); break; }
    case 3: { const Table t(some); const auto m = t.compute_nodal_modulations(e, leap, F::kMeeus); put(std::get<0>(m)); put(std::get<1>(m)); break; }
    case 4: {
      const Table t(std::vector<fes::Constituent>{fes::kM2});
      const auto m = t.compute_nodal_modulations(e, leap, F::kSchuremanOrder3);
      Eigen::VectorXd h(2);
      h << 1, 3;
      const auto a = Table::harmonic_analysis(h, std::get<0>(m), std::get<1>(m));
      r.push_back(a[0].real()); r.push_back(a[0].imag());
      break;
    }
    case 5: r.push_back(Table::select_waves_for_analysis(86400 * 30.0, 2).size()); break;
    case 6: {
      const Table t(some);
      for (const auto& n : t.constituents()) { const auto f = t.find(n); r.push_back(f ? f->freq() : -1); }
      for (const auto& w : t) { r.push_back(w->doodson_number().size()); r.push_back(double(vp::hash(w->name()) % 1000)); r.push_back(w->period()); }
      break;
    }
    default: {
      fes::wave::LongPeriodEquilibrium lpe;
      Table t;
      t[fes::kMm]->dynamic(true);
      lpe.disable_dynamic_wave(t);
      r.push_back(lpe.lpe_minus_n_waves(fes::angle::Astronomic(F::kSchuremanOrder1, 9e8, 32), 45));
      break;
    }
  }
  return r;
}
}  // namespace

static void run() {
  // the first calls of a process, at the same time (first: nothing may have
  // been asked of the library before)
  for (int a = 0; a < kFirst; ++a)
    for (int b = a; b < kFirst; ++b) {
      if (!R.begin("first calls")) continue;
      sc::Plan p;
      p.hw = 2;
      p.bound = R.thorough() ? 1 : 0;
      p.limit = R.thorough() ? 2000 : 200;
      sc::explore(Str() << kFirstName[a] << " and " << kFirstName[b] << " as the first calls", "first", p, [&](VpExecution* x) -> std::string {
        std::vector<double> got[2];
        std::string error[2];
        std::thread t([&] { error[1] = vp::thrown([&] { got[1] = first(b); }); });
        error[0] = vp::thrown([&] { got[0] = first(a); });
        t.join();
        for (int k = 0; k < 2; ++k) {
          if (!error[k].empty()) return Str() << kFirstName[k ? b : a] << " ends with " << error[k];
          if (!same(got[k], first(k ? b : a))) return Str() << kFirstName[k ? b : a] << " gives another result than alone";
        }
        for (double v : got[0]) x->outcome = vp::mix(x->outcome, vp::bits(v));
        return "";
      });
    }
  // one after the other: every sequence of three
  for (int kind = 0; kind < 4; ++kind)
    for (int state = 0; state < 3; ++state)
      for (int a = 0; a < kOps; ++a)
        for (int b = 0; b < kOps; ++b)
          for (int half = 0; half < 2; ++half) {
            if (!R.begin("histories")) continue;
            std::vector<const std::vector<double>*> want;
            for (int k = 0; k < kOps; ++k) want.push_back(&alone(kind, k));
            sc::Plan p;
            p.hw = 1;
            p.bound = 0;
            p.delay = 1;
            sc::explore(Str() << "table " << kind << " state " << state, "histories", p, [&](VpExecution* x) -> std::string {
              for (int c = half * 5; c < half * 5 + 5; ++c) {
                const Table t = table(kind, state);
                const auto v = values(t);
                const uint64_t d = digest(t);
                const int ops[] = {a, b, c};
                for (int k = 0; k < 3; ++k) {
                  const auto r = apply(t, ops[k]);
                  if (digest(t) != d) return Str() << name(a) << ", " << name(b) << ", " << name(c) << ": after step " << k << ", " << changes(t, v);
                  if (!same(r, *want[ops[k]])) return Str() << name(a) << ", " << name(b) << ", " << name(c) << ": step " << k << " gives another result than alone";
                }
                x->outcome = vp::mix(x->outcome, d);
              }
              return "";
            });
            for (int c = 0; c < 5; ++c) R.state(vp::mix(vp::mix(a * 100 + b * 10 + half * 5 + c, kind * 3 + state), 77));
            R.transition(15);
          }
  // concurrently: every pair, and triples
  auto together = [&](int kind, int state, std::vector<int> ops, const char* section) {
    if (!R.begin(section)) return;
    const Table t = table(kind, state);
    const auto v = values(t);
    const uint64_t d = digest(t);
    std::vector<const std::vector<double>*> want;
    for (int o : ops) want.push_back(&alone(kind, o));
    sc::Plan p;
    p.hw = 2;
    p.bound = ops.size() == 2 ? 2 : 1;
    bool inner = false;
    for (int o : ops) inner = inner || op(o).threads > 1;
    if (inner) p.delay = 1;
    // lookups share reference counts, hence many more points of choice
    if (std::find(ops.begin(), ops.end(), 9) != ops.end()) { p.delay = 1; p.bound = kind == 1 ? 2 : 1; }
    if (R.thorough()) ++p.bound;
    p.limit = R.thorough() ? 20000 : 3000;
    Str what;
    what << "table " << kind << " state " << state << ":";
    for (int o : ops) what << " " << name(o);
    sc::explore(what, section, p, [&](VpExecution* x) -> std::string {
      std::vector<std::vector<double>> got(ops.size());
      std::vector<std::thread> th;
      std::vector<std::string> error(ops.size());
      for (size_t k = 1; k < ops.size(); ++k) th.emplace_back([&, k] { error[k] = vp::thrown([&] { got[k] = apply(t, ops[k]); }); });
      error[0] = vp::thrown([&] { got[0] = apply(t, ops[0]); });
      for (auto& q : th) q.join();
      for (size_t k = 0; k < ops.size(); ++k) {
        if (!error[k].empty()) return Str() << name(ops[k]) << " ends with " << error[k];
        if (!same(got[k], *want[k])) return Str() << name(ops[k]) << " gives another result than alone";
      }
      if (digest(t) != d) return Str() << "the table is changed: " << changes(t, v);
      x->outcome = d;
      return "";
    });
  };
  for (int kind = 0; kind < 4; ++kind)
    for (int a = 0; a < kOps; ++a)
      for (int b = a; b < kOps; ++b)
        for (int state = 0; state < 3; ++state) {
          if (kind == 0 && state != 2 && !R.thorough()) continue;
          together(kind, state, {a, b}, "pairs");
        }
  for (int kind = R.thorough() ? 0 : 1; kind < (R.thorough() ? 4 : 3); ++kind)
    for (int a = 0; a < kOps; ++a)
      for (int b = a; b < kOps; ++b)
        for (int c = b; c < kOps; ++c) {
          if (!R.thorough() && (a == 7 || b == 7 || c == 7)) continue;
          together(kind, 2, {a, b, c}, "triples");
        }
}
VP_MAIN(run)
