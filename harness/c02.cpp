// C02: every index once, and failures reach the caller.
#include "fes/detail/thread.hpp"
#include "fes/tide.hpp"
#include "fes/wave/table.hpp"
#include "sched.hpp"
using vp::R;
using vp::Str;

namespace {
constexpr int kMost = 96;
struct Failure : std::runtime_error {
  int index;
  explicit Failure(int i) : std::runtime_error("worker"), index(i) {}
};
struct Run {
  int n = 0;
  size_t threads = 0;
  uint64_t failing = 0;   // indices whose processing fails
  int kind = 0;           // what is thrown
  std::string str() const { return Str() << n << " indices, " << threads << " threads" << (failing ? Str() << ", failing " << failing << " kind " << kind : Str()); }
};
// One call of the parallel loop, judged.
std::string loop(const Run& r, bool may_refuse) {
  int count[kMost];
  for (int& c : count) c = 0;
  int where[kMost];
  for (int& w : where) w = 0;
  std::string out;
  bool own = false, other = false;
  try {
    fes::detail::parallel_for(
        [&](auto a, auto b) {
          for (auto i = static_cast<int64_t>(a); i < static_cast<int64_t>(b); ++i) {
            if (i < 0 || i >= r.n) throw std::logic_error("index outside");
            ++count[i];
            if (r.failing >> i & 1) {
              if (r.kind == 1) throw int(i);
              throw Failure(int(i));
            }
          }
        },
        static_cast<size_t>(r.n), r.threads);
  } catch (const Failure& f) {
    own = f.index >= 0 && f.index < r.n && (r.failing >> f.index & 1) && r.kind == 0;
    if (!own) return "an error of a worker that did not fail";
  } catch (int i) {
    own = i >= 0 && i < r.n && (r.failing >> i & 1) && r.kind == 1;
    if (!own) return "an error of a worker that did not fail";
  } catch (const std::logic_error&) {
    return "an index outside of the work is processed";
  } catch (...) {
    other = true;
  }
  if (vp_alive()) return Str() << vp_alive() << " workers still run when the loop returns";
  const VpExecution* x = sc::page();
  if (r.threads == 1 && (x->created || x->refused)) return "one thread is asked for and another one is started";
  for (int i = 0; i < r.n; ++i) if (count[i] > 1) return Str() << "index " << i << " is processed " << count[i] << " times";
  if (own || other) {
    if (other && !x->refused) return "an error that no worker raised";
    if (own && !r.failing) return "an error without a failure";
    return "";
  }
  if (x->refused) return "a thread is refused and no error is reported";
  for (int i = 0; i < r.n; ++i) if ((r.failing >> i & 1) && count[i]) return Str() << "the failure of index " << i << " is lost";
  if (r.failing) return "no failing index is processed";
  for (int i = 0; i < r.n; ++i) if (count[i] != 1) return Str() << "index " << i << " is processed " << count[i] << " times";
  (void)may_refuse;
  return "";
}
void explore(const Run& r, const sc::Plan& p, const std::string& key) {
  const auto s = sc::explore(Str() << r.str() << ", processors " << p.hw << ", refused from " << p.refuse, key, p, [&](VpExecution* x) {
    const std::string bad = loop(r, p.refuse >= 0);
    x->outcome = 1;
    return bad;
  });
  R.outcome(s.refused ? "a thread was refused" : s.created ? "threads were started" : "no thread was started");
}
sc::Plan plan(size_t workers) {
  sc::Plan p;
  // every schedule with so many preemptions; beyond three workers with so many
  // departures from the order of creation
  const int deeper = R.thorough() ? 1 : 0;
  if (workers <= 2) p.bound = 3 + deeper;
  else if (workers == 3) p.bound = 2 + deeper;
  else { p.bound = 2 + (workers <= 5 ? deeper : 0); p.delay = 1; }
  p.limit = R.thorough() ? 60000 : 12000;
  return p;
}

// A model that fails at some positions, and when asked for an accelerator.
struct Broken : fes::AbstractTidalModel<double> {
  using Base = fes::AbstractTidalModel<double>;
  int accelerators = -1;   // calls before it fails
  mutable std::atomic<int> asked{0};
  fes::Accelerator* accelerator(const fes::angle::Formulae& f, const double t) const override {
    if (accelerators >= 0 && asked++ >= accelerators) throw Failure(-1);
    return new fes::Accelerator(f, t, 1);
  }
  void add_constituent(const fes::Constituent i, fes::Vector<std::complex<double>> w) override { this->data_.emplace(i, std::move(w)); }
  const fes::ConstituentValues& interpolate(const fes::geometry::Point& p, fes::Quality& q, fes::Accelerator* a) const override {
    if (p.lon() >= 100) throw Failure(int(p.lon()) - 100);
    a->clear();
    q = static_cast<fes::Quality>(4);
    a->emplace_back(fes::kM2, {p.lon(), p.lat()});
    return a->values();
  }
};
}  // namespace

static void run() {
  const int kHw[] = {0, 1, 2, 3, 8};
  // every schedule of small loops
  for (int n = 0; n <= 5; ++n)
    for (size_t t = 0; t <= 5; ++t)
      for (int hw : kHw) {
        if (t != 0 && hw != 0) continue;
        if (!R.begin("schedules")) continue;
        const size_t w = std::min<size_t>(t ? t : hw, n);
        auto p = plan(w);
        p.hw = hw;
        Run r;
        r.n = n;
        r.threads = t;
        explore(r, p, "loop");
      }
  // every subset of failing indices
  for (int n = 1; n <= 4; ++n)
    for (size_t t = 0; t <= 4; ++t)
      for (uint64_t f = 1; f < (uint64_t(1) << n); ++f)
        for (int kind = 0; kind < 2; ++kind) {
          if (kind == 1 && f % 3 == 2) continue;
          if (!R.begin("failures")) continue;
          auto p = plan(std::min<size_t>(t ? t : 2, n));
          if (p.bound > 2) p.bound = 2;
          p.hw = 2;
          Run r;
          r.n = n;
          r.threads = t;
          r.failing = f;
          r.kind = kind;
          explore(r, p, "failing");
        }
  // every thread refused, with and without failures
  for (int n = 1; n <= 4; ++n)
    for (size_t t = 0; t <= 5; ++t)
      for (int k = 0; k < std::min<int>(t ? t : 3, n); ++k)
        for (int all = 0; all < 2; ++all)
          for (uint64_t f = 0; f < (uint64_t(1) << n); f += 1) {
            if (f && (n > 3 || t > 3)) continue;
            if (!R.begin("refused")) continue;
            auto p = plan(std::min<size_t>(t ? t : 3, n));
            if (p.bound > 2) p.bound = 2;
            p.hw = 3;
            p.refuse = k;
            p.refuse_all = all;
            Run r;
            r.n = n;
            r.threads = t;
            r.failing = f;
            explore(r, p, "refused");
          }
  // sizes and numbers of threads, one schedule and its neighbours
  const size_t kThreads[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 16, 23, 31, 32, 33, 34, 35, 1000, size_t(1) << 32, ~size_t(0)};
  const int top = R.thorough() ? 90 : 40;
  for (int n = 0; n <= top; ++n)
    for (size_t t : kThreads)
      for (int hw : {0, 1, 2, 3, 7, 8, 32}) {
        if (t != 0 && hw != 0) continue;
        if (t > 35 && n > 35) continue;
        if (!R.begin("sizes")) continue;
        sc::Plan p;
        p.bound = 0;
        p.delay = 1;
        p.hw = hw;
        Run r;
        r.n = n;
        r.threads = t;
        explore(r, p, "sizes");
      }
  // the last of the threads is refused, a failure in each of the chunks
  for (int n = 6; n <= 12; ++n)
    for (size_t t = 2; t <= 6; ++t)
      for (int f = 0; f < n; ++f)
        for (int k = -1; k < int(t); ++k) {
          if (!R.begin("chunks")) continue;
          sc::Plan p;
          p.bound = 0;
          p.delay = 1;
          p.hw = 2;
          p.refuse = k;
          Run r;
          r.n = n;
          r.threads = t;
          r.failing = uint64_t(1) << f;
          explore(r, p, "chunks");
        }
  // predictions with a model that fails
  for (int n = 1; n <= 4; ++n)
    for (size_t t = 1; t <= 4; ++t)
      for (uint64_t f = 0; f < (uint64_t(1) << n); ++f)
        for (int acc = -1; acc < 2; ++acc)
          for (int k = -1; k < 2; ++k) {
            if (k >= int(t) || (k >= 0 && (f || acc >= 0)) || (acc >= 0 && f)) continue;
            if (!R.begin("prediction")) continue;
            Broken m;
            m.accelerators = acc;
            fes::Vector<std::complex<double>> w(1);
            w[0] = 1;
            m.add_constituent(fes::kM2, w);
            Eigen::VectorXd e = Eigen::VectorXd::Constant(n, 946728000.0), lon(n), lat = Eigen::VectorXd::Constant(n, 10.0);
            fes::Vector<uint16_t> leap(n);
            for (int i = 0; i < n; ++i) { lon[i] = (f >> i & 1) ? 100 + i : i; leap[i] = 32; }
            sc::Plan p;
            p.bound = R.thorough() ? 2 : 1;
            p.delay = 1;
            p.hw = 2;
            p.refuse = k;
            sc::explore(Str() << "prediction of " << n << " points, " << t << " threads, failing " << f << ", accelerators " << acc << ", refused " << k, "prediction", p, [&](VpExecution* x) -> std::string {
              std::string out;
              bool error = false, own = false;
              try {
                const auto r = fes::evaluate_tide<double>(&m, e, leap, lon, lat, fes::Settings(), t);
                if (std::get<0>(r).size() != n) return "the result has not the size of the request";
                for (int i = 0; i < n; ++i) if (std::get<2>(r)[i] != 4 || !(std::get<0>(r)[i] == std::get<0>(r)[i])) out = Str() << "point " << i << " is not predicted";
              } catch (const Failure&) {
                error = own = true;
              } catch (...) {
                error = true;
              }
              if (vp_alive()) return Str() << vp_alive() << " workers still run when the prediction returns";
              if (t == 1 && (x->created || x->refused)) return "one thread is asked for and another one is started";
              const bool expected = f || (acc >= 0 && m.asked > acc) || x->refused;
              if (error != expected) return expected ? "the failure is lost" : "an error without a failure";
              if (error && !own && !x->refused) return "an error that no worker raised";
              return error ? std::string() : out;
            });
          }
}
VP_MAIN(run)
