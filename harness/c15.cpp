// C15: names, identifiers and positions designate one catalogue.
#include <unordered_map>

#include "fes/constituent.hpp"
#include "fes/wave/table.hpp"
#include "golden.hpp"
#include "vp.hpp"
using vp::R;
using vp::Str;
namespace fc = fes::constituents;

static std::string quote(const std::string& s) {
  Str r;
  r << "\"";
  for (unsigned char c : s) {
    char b[8];
    if (c < 32 || c > 126) { std::snprintf(b, sizeof b, "\\x%02x", c); r << b; } else r << std::string(1, c);
  }
  r << "\"";
  return r;
}

// parse(s) against the golden names
static std::vector<int> trie_next;
static std::unordered_map<std::string, int> names;
static bool check_parse(const std::string& s) {
  auto it = names.find(golden::lower(s));
  const int want = it == names.end() ? -1 : it->second;
  int got = -1;
  std::string t = vp::thrown([&] { got = fc::parse(s); });
  R.transition();
  R.trace();
  if (want >= 0) {
    if (!t.empty()) return R.fail("parse:" + std::string(golden::table()[want].name), quote(s) + " is refused"), false;
    if (got != want) return R.fail("parse:" + std::string(golden::table()[want].name), Str() << quote(s) << " gives identifier " << got), false;
  } else if (t.empty()) {
    return R.fail(Str() << "unknown-accepted", Str() << quote(s) << " is accepted as identifier " << got), false;
  } else if (t == "unknown") {
    return R.fail("unknown-exception", quote(s)), false;
  }
  return true;
}

static void same(const char* how, int id, const std::shared_ptr<fes::Wave>& w) {
  const auto& g = golden::table()[id];
  R.transition();
  R.trace();
  if (!w) return R.fail(Str() << "designation:" << how, Str() << g.name << " by " << how << ": nothing");
  R.state(vp::mix(vp::hash(w->name()), id * 16 + how[0]));
  auto bad = [&](const std::string& m) { R.fail(Str() << "designation:" << how, Str() << g.name << " by " << how << ": " << m); };
  if (w->ident() != id) bad(Str() << "is " << w->name());
  if (std::string(w->name()) != g.name) bad(Str() << "name " << w->name());
  if (!vp::close(w->freq(), g.speed() * M_PI / 180, 1e-10)) bad(Str() << "frequency " << w->freq() << " rad/h");
  if ((w->type() == fes::Wave::kShortPeriod) != g.short_period) bad("type");
  if (w->admittance() != g.admittance) bad("inferable");
  // first digit is the species; others carry the multiples of s h p N p1
  std::string d = w->doodson_number();
  std::string e;
  const int q[6] = {g.v[0], g.v[1] + 5, g.v[2] + 5, g.v[3] + 5, 5, g.v[4] + 5};
  bool plain = true;
  for (int i = 0; i < 6; ++i) {
    if (q[i] < -1 || q[i] > 12) plain = false;
    e += q[i] == -1 ? '*' : q[i] == 10 ? 'X' : q[i] == 11 ? 'E' : q[i] == 12 ? 'T' : static_cast<char>('0' + q[i]);
  }
  if (plain && d != e) bad("Doodson number " + d + " instead of " + e);
  if (!plain) {
    auto f = fes::wave::Table::wave_factory(static_cast<fes::Constituent>(id));
    if (f && f->doodson_number() != d) bad("Doodson numbers differ");
  }
}

static void run() {
  const auto& G = golden::table();
  for (auto& g : G) names[golden::lower(g.name)] = g.ident;
  if (R.begin("known")) {
    auto k = fc::known();
    R.trace();
    if (k.size() != G.size()) R.fail("known", Str() << k.size() << " constituents listed");
    std::set<std::string> s(k.begin(), k.end());
    if (s.size() != k.size()) R.fail("known", "a constituent is listed twice");
    for (auto& g : G) if (!s.count(g.name)) R.fail("known", Str() << g.name << " is not listed");
    for (auto& n : k) R.state(vp::hash(n));
  }
  for (int id = 0; id < 256; ++id) {
    if (!R.begin("identifier")) continue;
    const auto c = static_cast<fes::Constituent>(id);
    std::string n;
    std::shared_ptr<fes::Wave> w;
    std::string t1 = vp::thrown([&] { n = fc::name(c); }), t2 = vp::thrown([&] { w = fes::wave::Table::wave_factory(c); });
    R.transition(2);
    R.trace(2);
    if (id < 75) {
      if (n != G[id].name) R.fail("name", Str() << "identifier " << id << " is named " << n << " " << t1);
      same("factory", id, w);
    } else {
      if (t1.empty()) R.fail("name", Str() << "identifier " << id << " accepted");
      if (t2.empty()) R.fail("factory", Str() << "identifier " << id << " accepted");
    }
  }
  // every case variant of every name
  for (auto& g : G) {
    if (!R.begin("case")) continue;
    const std::string n = g.name;
    R.note(n);
    R.sample("every upper/lower case variant of " + n);
    for (unsigned m = 0; m < (1u << n.size()); ++m) {
      std::string s = n;
      bool skip = false;
      for (size_t i = 0; i < n.size(); ++i) {
        if (!isalpha(n[i])) { if (m >> i & 1) skip = true; continue; }
        s[i] = (m >> i & 1) ? toupper(n[i]) : tolower(n[i]);
      }
      if (skip) continue;
      R.state(vp::hash(s));
      check_parse(s);
    }
  }
  // prefixes, suffixes, extensions and every one-character edit with any byte
  for (auto& g : G) {
    const std::string n = g.name;
    for (size_t p = 0; p <= n.size(); ++p) {
      if (!R.begin("edit")) continue;
      R.note(n);
      check_parse(n.substr(0, p));
      check_parse(n.substr(p));
      if (p < n.size()) { auto s = n; s.erase(p, 1); check_parse(s); }
      if (p + 1 < n.size()) { auto s = n; std::swap(s[p], s[p + 1]); check_parse(s); }
      for (int b = 0; b < 256; ++b) {
        auto s = n;
        s.insert(s.begin() + p, static_cast<char>(b));
        check_parse(s);
        R.state(vp::hash(s));
        if (p < n.size()) { s = n; s[p] = static_cast<char>(b); check_parse(s); R.state(vp::hash(s)); }
      }
      for (auto& h : G) check_parse(n + h.name);
    }
  }
  // all short strings
  const std::string alpha = "abcdefghijklmnopqrstuvwxyzMSKOQJR0123456789 _.";
  const int depth = R.thorough() ? 4 : 3;
  for (char a : alpha)
    for (char b : alpha) {
      if (!R.begin("short-strings")) continue;
      std::string s{a, b};
      check_parse(std::string(1, a));
      check_parse(s);
      for (char c : alpha) {
        s.resize(2);
        s += c;
        R.state(vp::hash(s));
        check_parse(s);
        if (depth > 3) for (char d : alpha) { s.resize(3); s += d; check_parse(s); }
      }
    }
  if (R.begin("empty")) { check_parse(""); check_parse(std::string(1, '\0')); check_parse(std::string(1000, 'M')); }
  // designations within tables
  for (int id = 0; id < 75; ++id) {
    if (!R.begin("designation")) continue;
    const auto c = static_cast<fes::Constituent>(id);
    const std::string n = G[id].name;
    R.note(n);
    fes::wave::Table full;
    same("identifier in the full table", id, full[c]);
    same("name in the full table", id, full.find(n));
    same("lower case name in the full table", id, full.find(golden::lower(n)));
    const fes::wave::Table& cf = full;
    same("identifier in the constant full table", id, cf[c]);
    std::vector<fes::Constituent> ids{c};
    fes::wave::Table a(ids);
    same("identifier list", id, *a.begin());
    same("identifier in its own table", id, a[c]);
    fes::wave::Table b(std::vector<std::string>{n});
    same("name list", id, *b.begin());
    same("name in its own table", id, b.find(n));
    same("position in its own table", id, b[size_t(0)]);
    int seen = 0;
    for (auto&& w : full)
      if (w->ident() == id) { ++seen; same("iteration", id, w); }
    if (seen != 1) R.fail("designation:iteration", Str() << n << " met " << seen << " times");
    // position: the position of the name in the list of names of the table
    auto l = full.constituents();
    for (size_t i = 0; i < l.size(); ++i) if (l[i] == n) same("position", id, full[i]);
  }
}
VP_MAIN(run)
