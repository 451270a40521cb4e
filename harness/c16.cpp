// C16: content and indexing of wave tables, for families of lists.
#include <algorithm>

#include "fes/wave/table.hpp"
#include "golden.hpp"
#include "vp.hpp"
using vp::R;
using vp::Str;
using Ids = std::vector<int>;

static std::string show(const Ids& l) {
  Str s;
  s << "[";
  for (size_t i = 0; i < l.size(); ++i) { if (i > 12) { s << " ..."; break; } s << (i ? " " : "") << golden::table()[l[i]].name; }
  s << "]";
  return s;
}

static void check_table(const char* how, const fes::wave::Table& cst, fes::wave::Table& t, const Ids& want, const std::string& from) {
  const auto& G = golden::table();
  auto bad = [&](const char* what, const std::string& m) { R.fail(std::string(what) + ":" + how, from + " by " + how + ": " + m); };
  R.transition(75 + want.size());
  R.trace();
  if (t.size() != want.size()) bad("size", Str() << "size " << t.size() << " instead of " << want.size());
  Ids it, cit;
  for (auto&& w : t) { if (!w) { bad("iteration", "null"); return; } it.push_back(w->ident()); }
  for (auto&& w : cst) { if (!w) { bad("iteration", "null"); return; } cit.push_back(w->ident()); }
  if (it != want || cit != want) bad("iteration", "holds " + show(it));
  auto names = t.constituents();
  if (names.size() != want.size()) bad("names", Str() << names.size() << " names");
  for (size_t i = 0; i < want.size(); ++i) {
    if (i < names.size() && names[i] != G[want[i]].name) bad("names", names[i]);
    std::string x = vp::thrown([&] {
      auto& w = cst[i];
      if (!w || w->ident() != want[i]) bad("position", Str() << "position " << i << " is " << (w ? w->name() : "null"));
    });
    if (!x.empty()) bad("position", Str() << "position " << i << " refused: " << x);
  }
  for (size_t past : {want.size(), want.size() + 1, size_t(75), size_t(256), size_t(1) << 40, ~size_t(0)}) {
    if (past < want.size()) continue;
    std::string x = vp::thrown([&] { (void)cst[past]; });
    if (x != "out_of_range") bad("past", Str() << "position " << past << " of " << want.size() << " answered " << x);
  }
  std::vector<char> in(256, 0);
  for (int w : want) in[w] = 1;
  for (int id = 0; id < 75; ++id) {
    const auto c = static_cast<fes::Constituent>(id);
    std::shared_ptr<fes::Wave> a, b;
    std::string x = vp::thrown([&] { a = cst[c]; }), y = vp::thrown([&] { b = t[c]; });
    std::shared_ptr<fes::Wave> f = t.find(G[id].name);
    for (const auto& other : {golden::lower(G[id].name), golden::upper(G[id].name)}) {
      std::shared_ptr<fes::Wave> o;
      std::string z = vp::thrown([&] { o = cst.find(other); });
      if (o != f || !z.empty()) bad("find", other + " found as " + (o ? o->name() : "nothing") + z);
    }
    if (in[id]) {
      if (!x.empty() || !a || a->ident() != id) bad("identifier", Str() << G[id].name << " -> " << (a ? a->name() : "nothing") << x);
      if (!y.empty() || b != a) bad("identifier", Str() << G[id].name << " differs between constant and mutable access");
      if (f != a) bad("find", Str() << G[id].name << " found as " << (f ? f->name() : "nothing"));
      for (size_t i = 0; i < want.size(); ++i) if (want[i] == id && cst[i] != a) bad("position", Str() << G[id].name << ": another object by position");
    } else {
      // reported: by an exception, or by nothing
      if (x.empty() && a) bad("absent", Str() << G[id].name << " absent, answered with " << a->name());
      if (x.empty()) bad("absent", Str() << G[id].name << " absent, not reported");
      if (y.empty()) bad("absent", Str() << G[id].name << " absent, not reported by mutable access");
      if (f) bad("absent", Str() << G[id].name << " absent, found as " << f->name());
    }
  }
  for (int id : {75, 76, 100, 255}) {
    const auto c = static_cast<fes::Constituent>(id);
    if (vp::thrown([&] { (void)cst[c]; }).empty()) bad("absent", Str() << "identifier " << id << " not reported");
  }
  for (const char* n : {"", "X", "M22", "__x__"})
    if (vp::thrown([&] { if (!t.find(n)) throw std::invalid_argument(n); }).empty()) bad("absent", std::string("found ") + n);
}

// A list of identifiers, in any order and with repetitions.
static void list(const Ids& l) {
  const auto& G = golden::table();
  std::set<int> s(l.begin(), l.end());
  Ids want(s.begin(), s.end());
  if (l.empty()) for (int i = 0; i < 75; ++i) want.push_back(i);
  uint64_t h = 7;
  for (int i : l) h = vp::mix(h, i);
  R.state(h);
  const std::string from = show(l);
  R.note(from);
  std::vector<fes::Constituent> c;
  std::vector<std::string> n, lo;
  for (int i : l) { c.push_back(static_cast<fes::Constituent>(i)); n.push_back(G[i].name); lo.push_back(golden::lower(G[i].name)); }
  auto go = [&](const char* how, std::function<fes::wave::Table()> f) {
    std::unique_ptr<fes::wave::Table> t;
    std::string x = vp::thrown([&] { t.reset(new fes::wave::Table(f())); });
    if (!x.empty()) return R.fail(Str() << "refused:" << how, from + " by " + how + ": refused");
    check_table(how, *t, *t, want, from);
  };
  go("identifiers", [&] { return fes::wave::Table(c); });
  go("names", [&] { return fes::wave::Table(n); });
  go("lower case names", [&] { return fes::wave::Table(lo); });
}

static void run() {
  const auto& G = golden::table();
  if (R.begin("empty")) list({});
  for (int i = 0; i < 75; ++i) {
    if (R.begin("singleton")) { list({i}); list({i, i}); list({i, i, i}); R.sample("lists made of " + std::string(G[i].name)); }
    if (R.begin("complement")) {
      Ids l;
      for (int k = 0; k < 75; ++k) if (k != i) l.push_back(k);
      list(l);
      std::reverse(l.begin(), l.end());
      list(l);
    }
    if (R.begin("rotation")) {
      Ids l;
      for (int k = 0; k < 75; ++k) l.push_back((i + k) % 75);
      list(l);
      std::reverse(l.begin(), l.end());
      list(l);
      l.push_back(i);
      list(l);
      l.resize(i + 1);
      list(l);
    }
  }
  for (int i = 0; i < 75; ++i)
    for (int j = 0; j < 75; ++j)
      if (i != j && R.begin("pair")) { list({i, j}); if (R.thorough()) list({i, j, i}); }
  // all subsets of a family around the ends and the middle of the catalogue,
  // ascending, descending and interleaved, with and without repetition
  const Ids fam = R.thorough() ? Ids{0, 1, 6, 8, 17, 25, 30, 38, 56, 66, 67, 72, 74} : Ids{0, 8, 17, 30, 56, 67, 71, 72, 73, 74};
  for (unsigned m = 1; m < (1u << fam.size()); ++m) {
    if (!R.begin("subset")) continue;
    Ids l;
    for (size_t i = 0; i < fam.size(); ++i) if (m >> i & 1) l.push_back(fam[i]);
    list(l);
    Ids d(l.rbegin(), l.rend());
    list(d);
    d.insert(d.end(), l.begin(), l.end());
    list(d);
  }
  // all orders
  Ids perm{0, 30, 66, 71, 74};
  do { if (R.begin("order")) list(perm); } while (std::next_permutation(perm.begin(), perm.end()));
  // lists longer than the catalogue
  for (int i = 0; i < 75; ++i) {
    if ((!R.thorough() && i % 5 && i % 7) || !R.begin("long")) continue;
    for (int n : {74, 75, 76, 150, 254, 255, 256, 300}) {
      Ids l(n, i);
      list(l);
      l.push_back((i + 37) % 75);
      l.push_back((i + 1) % 75);
      list(l);
      for (int k = 0; k < n; ++k) l[k] = (i + k % 11) % 75;
      list(l);
      std::reverse(l.begin(), l.end());
      list(l);
      if (R.thorough() || i % 15 == 0) {
        for (size_t k = 0; k < l.size(); ++k) l[k] = static_cast<int>(i + k * 7) % 75;
        list(l);
      }
    }
  }
  // a name outside the catalogue at each position of a list
  for (const char* u : {"", "X1", "M", "M2 ", "Z0", "M22"})
    for (size_t n = 1; n <= 4; ++n)
      for (size_t p = 0; p < n; ++p) {
        if (!R.begin("unknown-name")) continue;
        std::vector<std::string> l{"M2", "S2", "K1", "O1"};
        l.resize(n);
        l[p] = u;
        std::unique_ptr<fes::wave::Table> t;
        std::string x = vp::thrown([&] { t.reset(new fes::wave::Table(l)); });
        R.transition();
        R.trace();
        R.state(vp::mix(vp::hash(u), n * 8 + p));
        if (x.empty()) R.fail("unknown-name", Str() << "list with \"" << u << "\" at " << p << " accepted as a table of " << t->size());
      }
  for (int id = 75; id < 256; ++id) {
    if (!R.begin("unknown-identifier")) continue;
    std::vector<fes::Constituent> l{fes::kM2, static_cast<fes::Constituent>(id)};
    R.transition();
    R.trace();
    if (vp::thrown([&] { fes::wave::Table t(l); }).empty()) R.fail("unknown-identifier", Str() << id << " accepted");
  }
}
VP_MAIN(run)
