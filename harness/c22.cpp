// C22: a model holds exactly the constituents it was given.
#include "models.hpp"
using namespace md;
using vp::R;

template <typename M>
struct Ref {
  using T = typename Make<M>::Value;
  std::map<Constituent, std::vector<fes::Vector<std::complex<T>>>> want;  // data allowed
  std::vector<Constituent> dynamic;
};

// Everything the model shows against what was accepted.
template <typename M>
static void compare(const M& model, const Ref<M>& ref, int kind, const std::string& how, fes::Accelerator* early) {
  using T = typename Make<M>::Value;
  auto bad = [&](const std::string& key, const std::string& what) { R.fail(key, Str() << Make<M>::name(kind) << " after " << how << ": " << what); };
  const fes::AbstractTidalModel<T>& m = model;
  if (m.size() != ref.want.size()) return bad("size", Str() << m.size() << " constituents instead of " << ref.want.size());
  if (m.empty() != ref.want.empty()) return bad("empty", "empty() is wrong");
  if (m.dynamic() != ref.dynamic) return bad("dynamic", Str() << m.dynamic().size() << " dynamic constituents instead of " << ref.dynamic.size());
  std::vector<Constituent> ids;
  for (auto& kv : ref.want) ids.push_back(kv.first);
  if (m.identifiers() != ids) return bad("identifiers", "not the constituents accepted, in order");
  size_t i = 0;
  for (auto& kv : m.data()) {
    if (kv.first != ids[i++]) return bad("data", "data of other constituents");
    bool ok = false;
    for (auto& w : ref.want.at(kv.first)) ok = ok || same_wave<T>(kv.second, w);
    if (!ok) return bad("data", Str() << "data of " << fes::constituents::name(kv.first) << " is not what was given");
  }
  std::unique_ptr<fes::Accelerator> fresh(m.accelerator(fes::angle::Formulae::kSchuremanOrder1, 0));
  for (auto& at : Make<M>::nodes(kind))
    for (auto* acc : {fresh.get(), early}) {
      if (!acc) continue;
      fes::Quality q;
      const auto& got = m.interpolate({at.x, at.y}, q, acc);
      R.transition();
      if (got.size() != ids.size()) return bad("interpolated-count", Str() << got.size() << " values");
      for (size_t k = 0; k < ids.size(); ++k) {
        if (got[k].first != ids[k]) return bad("interpolated-order", "values of other constituents, or in another order");
        const Cx w = Cx(m.data().at(ids[k])[at.node]);
        if (std::abs(got[k].second - w) > (sizeof(T) == 4 ? 1e-5 : 1e-9)) return bad("interpolated", Str() << fes::constituents::name(ids[k]) << " at (" << at.x << "," << at.y << ") = " << got[k].second << " instead of " << w);
      }
    }
}

struct Op { const char* what; int id; const char* name; int extra; int seed; };
static const Op kOps[] = {
    {"add(M2)", fes::kM2, nullptr, 0, 1},        {"add('m2') again with other data", -1, "m2", 0, 40},
    {"add('K1')", -1, "K1", 0, 2},               {"add(Mm)", fes::kMm, nullptr, 0, 3},
    {"add('S2') one value short", -1, "S2", -1, 5}, {"add(M2) one value too many", fes::kM2, nullptr, 1, 6},
    {"add('Zz9')", -1, "Zz9", 0, 7},             {"add('SSA')", -1, "SSA", 0, 9},
    {"add(N2) without data", fes::kN2, nullptr, -1000, 8}, {"clear", -2, nullptr, 0, 0},
    {"dynamic(O1,M2)", -3, nullptr, 0, 0},       {"add('')", -1, "", 0, 10},
};
constexpr int kN = sizeof(kOps) / sizeof(kOps[0]);

template <typename M>
static void apply(M& model, Ref<M>& ref, const Op& op, int n, int kind, const std::string& how) {
  using T = typename Make<M>::Value;
  fes::AbstractTidalModel<T>& m = model;
  if (op.id == -2) {
    m.clear();
    ref.want.clear();
    ref.dynamic.clear();
    if (model.getstate() != Make<M>::make(kind, fes::kTide, 0).getstate()) R.fail("clear", Str() << Make<M>::name(kind) << " " << how << ": the cleared model is not as it was built");
    return;
  }
  if (op.id == -3) { ref.dynamic = {fes::kO1, fes::kM2}; m.dynamic(ref.dynamic); return; }
  const int size = std::max(0, n + op.extra);
  const auto w = wave<T>(size, op.seed);
  bool known = true;
  Constituent id = op.id >= 0 ? Constituent(op.id) : fes::kM2;
  if (op.id < 0) { try { id = fes::constituents::parse(op.name); } catch (const std::exception&) { known = false; } }
  const bool accept = known && size == n;
  const auto before = model.getstate();
  const auto e = vp::thrown([&]() { if (op.id >= 0) m.add_constituent(id, w); else m.add_constituent(std::string(op.name), w); });
  R.outcome(e.empty() ? "accepted" : "refused");
  if (accept != e.empty()) { R.fail(accept ? "refused" : "accepted", Str() << Make<M>::name(kind) << " " << how << ": last operation " << (e.empty() ? "accepted" : "refused")); return; }
  if (accept) { if (ref.want[id].empty()) ref.want[id].push_back(w); }  // given again: the first data stay
  else if (model.getstate() != before) R.fail("refused-changed", Str() << Make<M>::name(kind) << " " << how << ": the refused operation changed the model");
}

template <typename M>
static void kinds(int only_kind) {
  using T = typename Make<M>::Value;
  const int n = Make<M>::size(only_kind);
  // all sequences
  const int depth = R.thorough() ? 5 : 4;
  long total = 1;
  for (int d = 0; d < depth; ++d) total *= kN;
  const int chunk = kN * kN;
  for (long base = 0; base < total; base += chunk) {
    if (!R.begin("sequences")) continue;
    for (long s = base; s < base + chunk; ++s) {
      std::string how;
      M model = Make<M>::make(only_kind, fes::kTide, 0);
      std::unique_ptr<fes::Accelerator> early(model.accelerator(fes::angle::Formulae::kMeeus, 0));
      Ref<M> ref;
      long c = s;
      for (int d = 0; d < depth; ++d) {
        const Op& op = kOps[c % kN];
        c /= kN;
        how += std::string(d ? "; " : "") + op.what;
        R.note(Make<M>::name(only_kind) + ": " + how);
        apply(model, ref, op, n, only_kind, how);
        R.transition();
      }
      R.trace();
      R.state(vp::mix(vp::hash(model.getstate()), only_kind));
      compare(model, ref, only_kind, how, early.get());
    }
    if (base == 0) R.sample(Make<M>::name(only_kind) + ": every sequence of " + std::to_string(depth) + " operations");
  }
  // sizes
  if (R.begin("sizes"))
    for (int size = 0; size <= 2 * n + 2; ++size)
      for (int w = 0; w < 3; ++w) {
        M model = Make<M>::make(only_kind, fes::kTide, 0);
        fes::AbstractTidalModel<T>& m = model;
        if (w == 2) m.add_constituent(fes::kM2, wave<T>(n, 3));
        const auto before = model.getstate();
        const auto e = vp::thrown([&]() { if (w == 0) m.add_constituent("K2", wave<T>(size, 2)); else m.add_constituent(fes::kK2, wave<T>(size, 2)); });
        R.transition();
        if (e.empty() != (size == n)) R.fail("size-accepted", Str() << Make<M>::name(only_kind) << ": " << size << " values " << (e.empty() ? "accepted" : "refused") << ", the model has " << n << " nodes");
        if (size != n && model.getstate() != before) R.fail("refused-changed", Str() << Make<M>::name(only_kind) << ": a refused wave of " << size << " values changed the model");
      }
  // every constituent, in several orders
  const auto known = fes::constituents::known();
  const int total_ids = known.size();
  for (int rot = 0; rot < total_ids; ++rot)
    for (int dir = 0; dir < 2; ++dir) {
      if (!R.begin("orders")) continue;
      M model = Make<M>::make(only_kind, fes::kRadial, 0);
      fes::AbstractTidalModel<T>& m = model;
      Ref<M> ref;
      const int count = rot % 3 == 0 ? total_ids : rot % 3 == 1 ? 1 : 7;
      for (int k = 0; k < count; ++k) {
        const std::string name = known[((dir ? total_ids - k : k) + rot) % total_ids];
        const auto id = fes::constituents::parse(name);
        std::string as = name;
        for (auto& ch : as) ch = (k + dir) % 2 ? std::toupper(ch) : std::tolower(ch);
        const auto w = wave<T>(n, 100 + int(id));
        if (k % 3 == 0) m.add_constituent(id, w); else m.add_constituent(as, w);
        ref.want[id].push_back(w);
      }
      R.trace();
      R.state(vp::hash(model.getstate()));
      compare(model, ref, only_kind, Str() << count << " constituents from " << known[rot] << (dir ? " backwards" : ""), nullptr);
      m.clear();
      ref.want.clear();
      compare(model, ref, only_kind, "clear", nullptr);
    }
}

// Codes with gaps, shared between vertices, or not starting at zero: the data
// has one value per code up to the greatest one.
template <typename T, int N>
static void one_table(const Eigen::Matrix<int, -1, 3 * N>& codes, const std::string& what) {
  using M = typename std::conditional<N == 1, fes::tidal_model::LGP1<T>, fes::tidal_model::LGP2<T>>::type;
  const auto m = mesh(0);
  const auto index = vm::index(m);
  const int n = codes.maxCoeff() + 1;
  R.note(what);
  R.trace();
  const std::string name = Str() << "LGP" << N << (sizeof(T) == 4 ? "/float, " : "/double, ") << what;
  for (int size : {0, 1, n - codes.minCoeff(), n - 1, n, n + 1, 2 * n, int(codes.size())}) {
    M model(index, codes, fes::kTide, 0);
    fes::AbstractTidalModel<T>& a = model;
    const auto w = wave<T>(size, 4);
    const auto e = vp::thrown([&]() { a.add_constituent(fes::kM2, w); });
    R.transition();
    if (e.empty() != (size == n)) { R.fail("codes-size", Str() << name << ": " << size << " values " << (e.empty() ? "accepted" : "refused") << " although the codes go to " << n - 1); continue; }
    if (!e.empty()) { if (!a.empty()) R.fail("codes-size", name + ": a refused wave was kept"); continue; }
    std::unique_ptr<fes::Accelerator> acc(model.accelerator(fes::angle::Formulae::kSchuremanOrder1, 0));
    for (int k = 0; k < 2; ++k)
      for (int u = 1; u <= 2; ++u)
        for (int v = 1; u + v <= 3; ++v) {
          const auto& t = m.t[k].v;
          const double l[3] = {1 - (u + v) / 4.0, u / 4.0, v / 4.0};
          double x = 0, y = 0;
          for (int j = 0; j < 3; ++j) { x += l[j] * m.p[t[j]].x; y += l[j] * m.p[t[j]].y; }
          const double b1[3] = {l[0], l[1], l[2]};
          const double b2[6] = {l[0] * (2 * l[0] - 1), 4 * l[0] * l[1], l[1] * (2 * l[1] - 1), 4 * l[1] * l[2], l[2] * (2 * l[2] - 1), 4 * l[2] * l[0]};
          Cx want = 0;
          for (int j = 0; j < 3 * N; ++j) want += (N == 1 ? b1[j % 3] : b2[j]) * Cx(w[codes(k, j)]);
          fes::Quality q;
          const auto& got = a.interpolate({x, y}, q, acc.get());
          R.transition();
          if (got.size() != 1 || got[0].first != fes::kM2) { R.fail("codes-value", name + ": not one value of M2"); continue; }
          R.state(vp::mix(vp::bits(got[0].second.real()), n));
          if (!(std::abs(got[0].second - want) <= (sizeof(T) == 4 ? 2e-5 : 1e-8))) R.fail("codes-value", Str() << name << " at (" << x << "," << y << ") = " << got[0].second << " instead of " << want);
        }
  }
}
static void code_tables() {
  // every code 0..4 (0..5) at every vertex
  const int base = R.thorough() ? 6 : 5;
  for (int c0 = 0; c0 < base; ++c0)
    for (int c1 = 0; c1 < base; ++c1) {
      if (!R.begin("codes of the vertices")) continue;
      for (int r = 0; r < base * base; ++r) {
        const int c[4] = {c0, c1, r % base, r / base};
        const auto m = mesh(0);
        Eigen::Matrix<int, -1, 3> t(2, 3);
        for (int k = 0; k < 2; ++k) for (int j = 0; j < 3; ++j) t(k, j) = c[m.t[k].v[j]];
        const std::string what = Str() << "codes " << c[0] << "," << c[1] << "," << c[2] << "," << c[3];
        one_table<double, 1>(t, what);
        if (r % 4 == 0) one_table<float, 1>(t, what);
      }
    }
  // first code, distance between codes, order; the two triangles share nothing
  for (int first = 0; first < 8; ++first)
    for (int step = 1; step <= 3; ++step)
      for (int turn = 0; turn < 12; ++turn) {
        if (!R.begin("codes of the elements")) continue;
        const std::string what = Str() << "codes from " << first << " every " << step << ", order " << turn;
        Eigen::Matrix<int, -1, 6> t(2, 6);
        for (int i = 0; i < 12; ++i) t(i / 6, i % 6) = first + step * ((i * (turn % 2 ? 5 : 7) + turn) % 12);
        one_table<double, 2>(t, what);
        one_table<float, 2>(t, what);
        Eigen::Matrix<int, -1, 3> s(2, 3);
        for (int i = 0; i < 6; ++i) s(i / 3, i % 3) = first + step * ((i * (turn % 2 ? 5 : 7) + turn) % 6);
        one_table<double, 1>(s, what);
      }
}

static void run() {
  code_tables();
  kinds<fes::tidal_model::Cartesian<double>>(0);
  kinds<fes::tidal_model::LGP1<double>>(0);
  kinds<fes::tidal_model::LGP2<float>>(0);
  kinds<fes::tidal_model::Cartesian<float>>(2);
  if (!R.thorough()) return;
  kinds<fes::tidal_model::Cartesian<double>>(1);
  kinds<fes::tidal_model::LGP1<float>>(2);
  kinds<fes::tidal_model::LGP2<double>>(1);
}
VP_MAIN(run)
