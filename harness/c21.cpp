// C21: truncated and unrelated states are refused.
#include "models.hpp"
using namespace md;
using vp::R;

// Restores from exactly these bytes (out of bounds accesses are caught).
template <typename F>
static void refused(const std::string& bytes, const std::string& object, const std::string& what, F restore) {
  std::unique_ptr<char[]> exact(new char[bytes.size()]);
  std::memcpy(exact.get(), bytes.data(), bytes.size());
  R.transition();
  R.note(object + ": " + what);
  const auto e = vp::thrown([&]() { restore(fes::string_view(exact.get(), bytes.size())); });
  R.outcome(e.empty() ? "restored" : e);
  if (e.empty()) R.fail(what.compare(0, 3, "cut") == 0 ? "truncated" : "unrelated", Str() << object << " restored from " << what);
}
static std::vector<std::string> texts(size_t longest) {
  std::vector<std::string> r = {"", "\n", "invalid", "null", "{}", "{\"constituents\": [\"M2\", \"K1\"]}", "0123456789abcdef", "The quick brown fox jumps over the lazy dog, and the tide goes out again at noon.\n", "# tide.yaml\nocean_tide:\n  cartesian:\n    paths:\n      M2: M2.nc\n", "\xc3\xa9\xc3\xa9 mar\xc3\xa9" "e \xe2\x82\xac \xf0\x9f\x8c\x8a\xf0\x9f\x8c\x8a\xf0\x9f\x8c\x8a\xf0\x9f\x8c\x8a\xf0\x9f\x8c\x8a\xf0\x9f\x8c\x8a", "CDF\x01", "\x89HDF\r\n\x1a\n"};
  r[2] = "invalid state";
  std::vector<size_t> lengths;
  for (size_t n = 1; n <= 80; ++n) lengths.push_back(n);
  for (size_t n : {100, 128, 255, 256, 500, 1000, 4096}) if (n < longest + 600) lengths.push_back(n);
  for (long d = -2; d <= 2; ++d) if (long(longest) + d > 80) lengths.push_back(longest + d);
  for (size_t n : lengths) {
    for (char c : {' ', 'a', '0', '~', '\xff', '\xc3', '\t'}) r.push_back(std::string(n, c));
    std::string s, t;
    for (size_t i = 0; i < n; ++i) { s += char(32 + i * 7 % 95); t += "tide models, "[i % 13]; }
    r.push_back(s);
    r.push_back(t);
  }
  return r;
}
template <typename F>
static void object(const std::string& name, const std::string& state, bool accepts_self, F restore) {
  if (R.begin("objects")) {
    R.trace();
    R.sample(Str() << name << ": " << state.size() << " bytes, cut at every byte");
    if (accepts_self) {
      const auto e = vp::thrown([&]() { restore(fes::string_view(state.data(), state.size())); });
      if (!e.empty()) R.fail("self", Str() << name << ": its own state is refused");
    }
    for (size_t n = 0; n < state.size(); ++n) {
      R.state(vp::mix(vp::hash(name), n));
      refused(state.substr(0, n), name, Str() << "cut at byte " << n << " of " << state.size(), restore);
    }
  }
}
template <typename F>
static void unrelated(const std::string& name, const std::string& state, F restore) {
  const auto all = texts(state.size());
  for (size_t base = 0; base < all.size(); base += 64) {
    if (!R.begin("texts")) continue;
    for (size_t i = base; i < std::min(all.size(), base + 64); ++i) {
      R.state(vp::mix(vp::hash(name), vp::hash(all[i])));
      refused(all[i], name, Str() << "a text of " << all[i].size() << " characters: " << all[i].substr(0, 30), restore);
    }
  }
}
// ---------------------------------------------------------------- torn writes
// All the operations of what was restored from a torn state: whatever they
// give, they stay within its data (address and undefined behaviour checkers).
static void use(const fes::Axis& a) {
  (void)a.getstate();
  (void)vp::thrown([&]() { (void)a.min_value(), (void)a.max_value(); });
  for (double x : {0.0, 11.25, -0.75, 359.5, -1e5, 1e300}) {
    (void)vp::thrown([&]() { (void)a.find_index(x, false); });
    (void)vp::thrown([&]() { (void)a.find_index(x, true); });
    (void)vp::thrown([&]() { (void)a.find_indices(x); });
  }
}
static void use(const fes::mesh::Index& m) {
  (void)m.getstate();
  for (double x : {0.0, 0.4, 10.0})
    for (double d : {0.0, 1e5, 1e9}) (void)vp::thrown([&]() { (void)m.search(fes::geometry::Point(x, 0.3), d); });
}
template <typename T>
static void use(const fes::AbstractTidalModel<T>& m) {
  (void)vp::thrown([&]() { (void)m.identifiers(), (void)m.dynamic(); });
  const auto acc = std::unique_ptr<fes::Accelerator>(m.accelerator(fes::angle::Formulae::kSchuremanOrder1, 0.0));
  for (double x : {0.0, 0.4, 10.25, 11.0, 180.0})
    for (double y : {0.0, 0.3, -1.75}) {
      auto q = fes::Quality::kUndefined;
      (void)vp::thrown([&]() { (void)m.interpolate({x, y}, q, acc.get()); });
    }
}
template <typename F>
static void torn_one(const std::string& bytes, const std::string& object, const std::string& what, const F& restore) {
  std::unique_ptr<char[]> exact(new char[bytes.size()]);
  std::memcpy(exact.get(), bytes.data(), bytes.size());
  R.transition();
  R.note(object + ": " + what);
  const auto e = vp::thrown([&]() { use(restore(fes::string_view(exact.get(), bytes.size()))); });
  R.outcome(e.empty() ? "torn: restored" : "torn: " + e);
}
// The first bytes of a state, then those of an older one, zeros or ones
template <typename F>
static void torn(const std::string& name, const std::string& state, const std::vector<std::string>& old, F restore) {
  std::vector<std::string> tails = old;
  for (char c : {'\0'}) for (size_t extra : {0, 64}) tails.push_back(std::string(state.size() + extra, c));
  for (const auto& t : tails) {
    if (!R.begin("torn")) continue;
    R.trace();
    for (size_t n = 0; n < std::max(state.size(), t.size()); ++n) {
      const std::string bytes = state.substr(0, n) + (n < t.size() ? t.substr(n) : "");
      if (bytes.size() < state.size() && n >= t.size()) continue;  // a truncation
      R.state(vp::mix(vp::hash(name), vp::hash(bytes)));
      torn_one(bytes, name, Str() << "first " << n << " of " << state.size() << " bytes, then those of another content of " << t.size() << " bytes", restore);
    }
    // a block left as it was in the middle
    for (size_t block : {1, 4, 8, 16, 64})
      for (size_t at = 0; at < state.size(); at += block) {
        std::string bytes = state;
        for (size_t i = at; i < std::min(at + block, state.size()); ++i) if (i < t.size()) bytes[i] = t[i];
        if (bytes == state) continue;
        R.state(vp::mix(vp::hash(name), vp::hash(bytes)));
        torn_one(bytes, name, Str() << "bytes " << at << " to " << at + block << " of " << state.size() << " left as in another content", restore);
      }
  }
}
template <typename F>
static void both(const std::string& name, const std::string& state, F restore) {
  object(name, state, true, restore);
  unrelated(name, state, restore);
}
template <typename M>
static void model(int kind, int content) {
  using T = typename Make<M>::Value;
  M m = Make<M>::make(kind, content % 2 ? fes::kRadial : fes::kTide, content == 2 ? 1e5 : 0);
  fes::AbstractTidalModel<T>& a = m;
  const int n = Make<M>::size(kind);
  if (content >= 1) a.add_constituent(fes::kM2, wave<T>(n, 1));
  if (content >= 2) { a.add_constituent(fes::kMm, wave<T>(n, 2)); a.dynamic({fes::kSa}); }
  if (content == 3) { a.add_constituent(fes::kK1, wave<T>(n, 5)); a.dynamic({fes::kS1, fes::kSa, fes::kO1}); }
  both(Str() << Make<M>::name(kind) << " with " << content << " constituents", m.getstate(), [](const fes::string_view& s) { (void)M::setstate(s); });
}

template <typename M>
static std::string state_of(int kind, int content) {
  using T = typename Make<M>::Value;
  M m = Make<M>::make(kind, content % 2 ? fes::kRadial : fes::kTide, content == 2 ? 1e5 : 0);
  fes::AbstractTidalModel<T>& a = m;
  const int n = Make<M>::size(kind);
  if (content >= 1) a.add_constituent(fes::kM2, wave<T>(n, 1));
  if (content >= 2) { a.add_constituent(fes::kMm, wave<T>(n, 2)); a.dynamic({fes::kSa}); }
  if (content == 3) { a.add_constituent(fes::kK1, wave<T>(n, 5)); a.dynamic({fes::kS1, fes::kSa, fes::kO1}); }
  return m.getstate();
}
template <typename M>
static void torn_model(int kind) {
  for (int content = 1; content < 4; ++content) {
    std::vector<std::string> old;
    for (int k = 0; k < 3; ++k) for (int c = 0; c < 4; ++c) if (k != kind || c != content) old.push_back(state_of<M>(k, c));
    torn(Make<M>::name(kind), state_of<M>(kind, content), old, [](const fes::string_view& s) { return M::setstate(s); });
  }
}
static void torn_all() {
  using namespace fes::tidal_model;
  std::vector<std::string> axes, meshes;
  for (int k = 0; k < 3; ++k) {
    axes.push_back(grid(k).lon.getstate());
    axes.push_back(grid(k).lat.getstate());
    meshes.push_back(vm::index(mesh(k))->getstate());
  }
  for (size_t k = 0; k < axes.size(); ++k) torn(Str() << "axis " << k, axes[k], axes, [](const fes::string_view& s) { return fes::Axis::setstate(s); });
  for (size_t k = 0; k < meshes.size(); ++k) torn(Str() << "mesh " << k, meshes[k], meshes, [](const fes::string_view& s) { return fes::mesh::Index::setstate(s); });
  torn_model<Cartesian<double>>(0);
  torn_model<Cartesian<float>>(2);
  torn_model<LGP1<double>>(0);
  torn_model<LGP2<float>>(0);
  if (R.thorough()) {
    torn_model<Cartesian<double>>(1);
    torn_model<LGP1<float>>(2);
    torn_model<LGP2<double>>(1);
  }
}

static void run() {
  torn_all();
  using namespace fes::tidal_model;
  for (int k = 0; k < 3; ++k) {
    const auto g = grid(k);
    both(Str() << "longitude axis " << k, g.lon.getstate(), [](const fes::string_view& s) { (void)fes::Axis::setstate(s); });
    both(Str() << "latitude axis " << k, g.lat.getstate(), [](const fes::string_view& s) { (void)fes::Axis::setstate(s); });
    both(Str() << "mesh " << k, vm::index(mesh(k))->getstate(), [](const fes::string_view& s) { (void)fes::mesh::Index::setstate(s); });
  }
  for (int content = 0; content < 4; ++content) {
    model<Cartesian<double>>(0, content);
    model<Cartesian<float>>(2, content);
    model<LGP1<double>>(0, content);
    model<LGP1<float>>(0, content);
    model<LGP2<double>>(0, content);
    model<LGP2<float>>(2, content);
    if (R.thorough()) {
      model<Cartesian<double>>(1, content);
      model<Cartesian<float>>(1, content);
      model<LGP1<double>>(1, content);
      model<LGP2<double>>(1, content);
      model<LGP1<float>>(2, content);
    }
  }
}
VP_MAIN(run)
