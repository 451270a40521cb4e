// C10: interpolation inside a mesh of finite elements.
#include "fem.hpp"
using namespace fem;
using vp::R;

struct Query { P p; std::vector<int> maybe; bool must; };
// positions that may be inside, with the triangles that may contain them
static std::vector<Query> positions(const Mesh& m) {
  std::vector<Query> r;
  for (auto& q : queries(m, R.thorough() ? 8 : 3, 0)) {
    Query z{q, {}, false};
    for (size_t k = 0; k < m.t.size(); ++k) {
      const int w = where(m, k, q.x, q.y);
      if (w >= 0) z.maybe.push_back(k);
      z.must = z.must || w > 0;
    }
    if (!z.maybe.empty()) r.push_back(z);
  }
  return r;
}

template <typename T, int N>
static void one(const Mesh& m, const std::vector<Query>& positions, int field, bool all_shifts) {
  const Model<T, N> f(m, field, 0);
  R.trace();
  int z = 0;
  for (auto& item : positions) {
    const P& q = item.p;
    const auto& maybe = item.maybe;
    const bool must = item.must;
    ++z;
    const double shifts[3] = {0, 360, -360};
    for (int s = 0; s < (all_shifts ? 3 : 1); ++s) {
      const double x = q.x + shifts[all_shifts ? s : z % 3];
      R.transition();
      fes::Quality quality;
      std::vector<Cx> got = f.at(x, q.y, quality);
      auto at = [&]() { return Str() << "LGP" << N << (sizeof(T) == 4 ? "f " : " ") << m.name << " field " << field << ", position (" << x << "," << q.y << "): "; };
      uint64_t h = vp::mix(vp::hash(m.name) + N, vp::bits(q.x) ^ vp::bits(q.y));
      if (got.size() != f.n) { R.fail("count", at() << got.size() << " values"); continue; }
      if (quality == fes::kUndefined) {
        bool undefined = true;
        for (auto& g : got) undefined = undefined && g.real() != g.real();
        if (must) R.fail("undefined", at() << "undefined inside the mesh");
        else if (!undefined) R.fail("undefined-quality", at() << "undefined quality of a defined value");
        continue;
      }
      for (size_t c = 0; c < f.n; ++c) {
        h = vp::mix(h, vp::bits(got[c].real()));
        bool ok = false;
        Str tried;
        for (int k : maybe) {
          const auto want = f.value(k, q.x, q.y, c);
          if (std::abs(got[c] - want) <= f.tol(k)) ok = true;
          tried << " " << want;
        }
        if (!ok) { R.fail(field < 2 ? "polynomial" : "value", at() << "constituent " << c << " = " << got[c] << ", expected" << tried.str()); break; }
        if (field < 2) {
          // polynomial over the whole mesh
          const Cx want = f.poly(q.x, q.y, c);
          if (std::abs(got[c] - want) > f.tol(maybe[0])) { R.fail("polynomial", at() << "constituent " << c << " = " << got[c] << ", the field is " << want); break; }
        }
      }
      if (field == 2) R.state(h);
    }
  }
  // node values
  for (size_t k = 0; k < m.t.size(); ++k)
    for (int j = 0; j < 3 * N; ++j) {
      const P q = node(m, k, j, N);
      fes::Quality quality;
      R.transition();
      const auto got = f.at(q.x, q.y, quality);
      bool border = false;
      for (size_t l = 0; l < m.t.size(); ++l) if (where(m, l, q.x, q.y) > 0) border = true;
      if (quality == fes::kUndefined) {
        // the middle of an edge of the border may be just outside
        if (N == 1 || j % 2 == 0 || border) R.fail("node-undefined", Str() << "LGP" << N << " " << m.name << " node " << j << " of triangle " << k << " is undefined");
        continue;
      }
      // the edge of a large thin triangle may cross the next one on the sphere
      bool far = false;
      for (size_t l = 0; l < m.t.size() && N == 2 && j % 2; ++l) {
        int shared = 0;
        for (int a : m.t[l].v) shared += a == m.t[k].v[j / 2] || a == m.t[k].v[(j / 2 + 1) % 3];
        far = far || (shared < 2 && where(m, l, q.x, q.y) >= 0);
      }
      if (far) { R.count("middles next to a third triangle"); continue; }
      for (size_t c = 0; c < f.n; ++c) {
        const Cx want = f.at_node(k, j, c);
        if (std::abs(got[c] - want) > f.tol(k)) R.fail("node", Str() << "LGP" << N << " " << m.name << " node " << j << " of triangle " << k << ": " << got[c] << " instead of " << want);
      }
    }
}

static void all(const Mesh& m, int how) {
  R.note(m.name);
  R.sample(Str() << m.name << ": " << m.t.size() << " triangles, LGP1 and LGP2, linear, quadratic and arbitrary fields");
  const auto ps = positions(m);
  const bool all = how == 0 && R.thorough();
  for (int field = 0; field < 3; ++field) {
    if (field != 1) one<double, 1>(m, ps, field, all);
    one<double, 2>(m, ps, field, all);
  }
  if (how % 2 && !R.thorough()) return;
  one<float, 1>(m, ps, 2, false);
  one<float, 2>(m, ps, 2, false);
}

static void run() {
  const auto fam = family(R.thorough());
  for (auto& b : fam)
    for (auto& pl : places()) {
      if (overlaps(b, pl)) continue;
      for (int how = 0; how < 6; ++how) {
        if (!R.begin("meshes")) continue;
        all(dress(place(b, pl), how), how);
      }
    }
  for (auto& b : fam)
    for (auto& pl : tiny_places())
      for (int how = 0; how < 6; ++how) {
        const Mesh m = dress(place(b, pl), how);
        if (thinnest(m) < 8e-6) continue;
        if (!R.begin("elements of a few metres")) continue;
        all(m, how);
      }
}
VP_MAIN(run)
