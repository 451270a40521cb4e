// C09: the triangle found is one that covers the position.
#include "mesh.hpp"
using namespace vm;
using vp::R;

// True if the position is surrounded by positions that are inside.
static bool surrounded(const Mesh& m, double x, double y) {
  double r = 1e9;
  for (size_t k = 0; k < m.t.size(); ++k) {
    if (where(m, k, x, y) < 0) continue;
    const double s = size_of(m, k);
    r = std::min(r, std::max(1e-7, 4e-4 * s * s + 1e-6 * s));
  }
  if (r > 1e8) return false;
  for (int i = 0; i < 16; ++i) {
    const double qx = x + 3 * r * std::cos(i * M_PI / 8 + 0.05) / std::max(0.1, std::cos(y * M_PI / 180)), qy = y + 3 * r * std::sin(i * M_PI / 8 + 0.05);
    bool in = false;
    for (size_t k = 0; k < m.t.size() && !in; ++k) in = where(m, k, qx, qy) > 0;
    if (!in) return false;
  }
  return true;
}

static void check(const Mesh& m, const fes::mesh::Index& idx, double x, double y, double given, double max_distance) {
  R.transition();
  int sure = -1, maybe = 0;
  for (size_t k = 0; k < m.t.size(); ++k) {
    const int w = where(m, k, x, y);
    if (w > 0) sure = k;
    if (w >= 0) ++maybe;
  }
  const bool must = sure >= 0 || (maybe > 0 && surrounded(m, x, y));
  auto at = [&]() { return Str() << m.name << ", position (" << given << "," << y << "): "; };
  const auto got = idx.search({given, y}, max_distance);
  R.outcome(got.inside ? "covered" : got.index >= 0 ? "nearest" : "none");
  if (must && !got.inside) return R.fail(sure >= 0 ? "missed" : "hole", at() << "covered by the mesh" << (sure >= 0 ? Str() << " (triangle " << sure << ")" : Str() << "") << " but not found");
  if (!got.inside) return;
  if (!maybe) return R.fail("outside", at() << "not covered by any triangle but found in triangle " << got.index);
  if (got.index < 0 || got.index >= int(m.t.size())) return R.fail("index", at() << "triangle " << got.index << " does not exist");
  if (where(m, got.index, x, y) < 0) return R.fail("triangle", at() << "triangle " << got.index << " does not cover it");
  if (std::fabs(wrap(got.point.lon() - x)) > 1e-9 || got.point.lat() != y) R.fail("position", at() << "position returned (" << got.point.lon() << "," << got.point.lat() << ")");
  const fes::geometry::Point v[3] = {got.triangle.v1(), got.triangle.v2(), got.triangle.v3()};
  for (int i = 0; i < 3; ++i) {
    const P& q = m.p[m.t[got.index].v[i]];
    if (std::fabs(wrap(v[i].lon() - q.x)) > 1e-9 || std::fabs(v[i].lat() - q.y) > 1e-12) R.fail("vertices", at() << "vertex " << i << " of the triangle returned is (" << v[i].lon() << "," << v[i].lat() << ") instead of (" << q.x << "," << q.y << ")");
  }
}

static void run() {
  const auto fam = family(R.thorough());
  for (auto& b : fam)
    for (auto& pl : places()) {
      if (overlaps(b, pl)) continue;
      for (int how = 0; how < 6; ++how) {
        if (!R.begin("meshes")) continue;
        const Mesh m = dress(place(b, pl), how);
        R.note(m.name);
        const auto idx = index(m);
        R.trace();
        R.sample(Str() << m.name << ": " << m.p.size() << " vertices, " << m.t.size() << " triangles");
        if (idx->n_positions() != m.p.size() || idx->n_triangles() != m.t.size()) R.fail("counts", m.name);
        int z = 0;
        for (auto& q : queries(m, R.thorough() ? 10 : 4, R.thorough() ? 24 : 8)) {
          R.state(vp::mix(vp::hash(m.name), vp::mix(vp::bits(q.x), vp::bits(q.y))));
          const double shifts[3] = {0, 360, -360};
          for (int s = 0; s < (how == 0 || R.thorough() ? 3 : 1); ++s) check(m, *idx, q.x, q.y, q.x + shifts[how == 0 || R.thorough() ? s : z % 3], s == 0 ? 0 : 5e4);
          ++z;
        }
      }
    }
}
VP_MAIN(run)
