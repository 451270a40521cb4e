// C11: positions outside the mesh.
#include "fem.hpp"
using namespace fem;
using vp::R;

static V3 ecef(double lon, double lat) {
  const double r = M_PI / 180, a = 6378137.0, e2 = 6.69437999014e-3, s = std::sin(lat * r), n = a / std::sqrt(1 - e2 * s * s);
  return {n * std::cos(lat * r) * std::cos(lon * r), n * std::cos(lat * r) * std::sin(lon * r), n * (1 - e2) * s};
}
static double gap(const V3& a, const V3& b) { const V3 d{a.x - b.x, a.y - b.y, a.z - b.z}; return std::sqrt(dot(d, d)); }
// Distance of the nearest vertex of the triangles.
static double nearest_vertex(const Mesh& m, double x, double y) {
  const V3 q = ecef(x, y);
  double r = 1e99;
  for (auto& t : m.t) for (int v : t.v) r = std::min(r, gap(q, ecef(m.p[v].x, m.p[v].y)));
  return r;
}
// Nearest position of triangle k: edges are great circles.
struct Near { double d; P p; };
static P along(const Mesh& m, int k, int e, double t) {
  const P &a = m.p[m.t[k].v[e]], &b = m.p[m.t[k].v[(e + 1) % 3]];
  if (t <= 0) return a;
  if (t >= 1) return b;
  const V3 u = unit(a.x, a.y), v = unit(b.x, b.y);
  const double c = gap(u, v), w = 2 * std::asin(c / 2);
  const double f = std::sin((1 - t) * w) / std::sin(w), g = std::sin(t * w) / std::sin(w);
  const V3 z{u.x * f + v.x * g, u.y * f + v.y * g, u.z * f + v.z * g};
  return {a.x + wrap(std::atan2(z.y, z.x) * 180 / M_PI - a.x), std::atan2(z.z, std::sqrt(z.x * z.x + z.y * z.y)) * 180 / M_PI};
}
static Near nearest(const Mesh& m, int k, double x, double y) {
  const V3 q = ecef(x, y);
  Near r{1e99, {0, 0}};
  for (int e = 0; e < 3; ++e) {
    auto d = [&](double t) { const P p = along(m, k, e, t); return gap(q, ecef(p.x, p.y)); };
    double lo = 0, hi = 1;
    const double g = 0.6180339887498949;
    double t1 = hi - g, t2 = lo + g, d1 = d(t1), d2 = d(t2);
    for (int i = 0; i < 45; ++i) {
      if (d1 < d2) { hi = t2; t2 = t1; d2 = d1; t1 = hi - g * (hi - lo); d1 = d(t1); }
      else { lo = t1; t1 = t2; d1 = d2; t2 = lo + g * (hi - lo); d2 = d(t2); }
    }
    for (double t : {0.0, 1.0, (lo + hi) / 2}) { const double z = d(t); if (z < r.d) r = {z, along(m, k, e, t)}; }
  }
  return r;
}

// Positions outside: around every edge and vertex, a frame, far away.
static std::vector<P> outside(const Mesh& m) {
  std::vector<P> r;
  auto add = [&](double x, double y) {
    if (std::fabs(y) > 89) return;
    for (size_t k = 0; k < m.t.size(); ++k) if (where(m, k, x, y) >= 0) return;
    r.push_back({x, y});
  };
  const size_t step = R.thorough() || m.t.size() <= 12 ? 1 : 2;
  for (size_t k = 0; k < m.t.size(); k += step) {
    const double s = size_of(m, k);
    for (int e = 0; e < 3; ++e) {
      const P &a = m.p[m.t[k].v[e]], &b = m.p[m.t[k].v[(e + 1) % 3]], &c = m.p[m.t[k].v[(e + 2) % 3]];
      const double dx = b.x - a.x, dy = b.y - a.y, l = std::sqrt(dx * dx + dy * dy);
      double nx = dy / l, ny = -dx / l;
      if (nx * (c.x - a.x) + ny * (c.y - a.y) > 0) { nx = -nx; ny = -ny; }
      for (double t : {0.5, 0.12, 0.93})
        for (double o : {0.01, 0.2, 0.7}) {
          if (!R.thorough() && t != 0.5 && o == 0.2) continue;
          add(a.x + dx * t + nx * o * s, a.y + dy * t + ny * o * s);
        }
      add(a.x - dx * 0.1 - nx * 0.01 * s, a.y - dy * 0.1);
    }
  }
  double x0 = 1e9, x1 = -1e9, y0 = 1e9, y1 = -1e9;
  for (auto& p : m.p) { x0 = std::min(x0, p.x); x1 = std::max(x1, p.x); y0 = std::min(y0, p.y); y1 = std::max(y1, p.y); }
  const int frame = R.thorough() ? 14 : 6;
  for (int i = 0; i <= frame; ++i)
    for (int j = 0; j <= frame; ++j) add(x0 - (x1 - x0) * 0.4 + (x1 - x0) * 1.8 * i / frame, y0 - (y1 - y0) * 0.4 + (y1 - y0) * 1.8 * j / frame);
  return r;
}
// Positions a few millimetres off a vertex of the border, away from every triangle.
static std::vector<P> beside(const Mesh& m) {
  std::vector<P> r;
  std::vector<char> seen(m.p.size(), 0);
  const double deg = M_PI / 180;
  for (auto& tri : m.t)
    for (int e = 0; e < 3; ++e) {
      const int i = tri.v[e];
      const P v = m.p[i];
      if (seen[i]++ || std::fabs(v.y) > 85) continue;
      const double cs = std::cos(v.y * deg);
      for (int d = 0; d < 16; ++d) {
        const double ux = std::cos((d * 22.5 + 3) * deg), uy = std::sin((d * 22.5 + 3) * deg);
        bool away = true;
        for (size_t k = 0; k < m.t.size() && away; ++k)
          for (int c = 0; c < 3; ++c) {
            const P& w = m.p[m.t[k].v[c]];
            if (std::fabs(wrap(w.x - v.x)) * cs > 1e-6 || std::fabs(w.y - v.y) > 1e-6) continue;
            const double margin = (12 + 1.5 * size_of(m, k)) * deg;
            double an[2], turn[2];
            for (int o = 0; o < 2; ++o) {
              const P& q = m.p[m.t[k].v[(c + 1 + o) % 3]];
              const double qx = wrap(q.x - v.x) * cs, qy = q.y - v.y, l = std::hypot(qx, qy);
              an[o] = std::acos(std::max(-1.0, std::min(1.0, (qx * ux + qy * uy) / l)));
              turn[o] = qx * uy - qy * ux;
            }
            // between the two edges, or next to one of them
            if (an[0] < margin || an[1] < margin || (turn[0] * turn[1] < 0 && an[0] + an[1] < M_PI)) away = false;
          }
        if (!away) continue;
        for (double o : {7e-8, 4e-8, 6e-9}) r.push_back({v.x + ux * o / cs, v.y + uy * o});
      }
    }
  return r;
}
// Without extrapolation distance, a position taken for one outside has no triangle (the search may take the nearest of them for inside).
static void none(const Mesh& m, const std::vector<P>& ps) {
  const auto idx = index(m);
  R.trace();
  for (auto& p : ps) {
    R.transition();
    const auto got = idx->search({p.x, p.y}, 0);
    R.outcome(got.inside ? "millimetres off, taken for inside" : "millimetres off");
    if (!got.inside && got.index >= 0) R.fail("gate", Str() << m.name << ", position (" << p.x << "," << p.y << ") millimetres off a vertex, no extrapolation: extrapolated");
  }
}
struct Candidate { int k; P p; double slack; };
struct Query { P p; double vertex; std::vector<Candidate> cand; };

template <typename T, int N>
static void one(const Mesh& m, const std::vector<Query>& qs, int field) {
  double span = 0;
  for (size_t k = 0; k < m.t.size(); ++k) span = std::max(span, size_of(m, k));
  const double D[3] = {0, span * 3e4, span * 1e6};
  for (int di = 0; di < 3; ++di) {
    const Model<T, N> f(m, field, D[di]);
    R.trace();
    int z = di;
    for (auto& q : qs) {
      const double x = q.p.x + (++z % 3 == 1 ? 360 : z % 3 == 2 ? -360 : 0);
      R.transition();
      fes::Quality quality = fes::kInterpolated;
      const auto got = f.at(x, q.p.y, quality);
      auto at = [&]() { return Str() << "LGP" << N << (sizeof(T) == 4 ? "f " : " ") << m.name << " field " << field << ", position (" << x << "," << q.p.y << "), nearest vertex at " << q.vertex << " m, extrapolation " << D[di] << " m: "; };
      if (got.size() != f.n) { R.fail("count", at() << got.size() << " values"); continue; }
      int undefined = 0;
      for (auto& g : got) undefined += g.real() != g.real() && g.imag() != g.imag();
      uint64_t h = vp::mix(vp::hash(m.name) + di, vp::bits(q.p.x) ^ vp::bits(q.p.y));
      if (std::fabs(q.vertex - D[di]) <= 0.02 + 1e-6 * D[di]) { R.outcome("limit"); continue; }
      if (q.vertex > D[di]) {
        R.outcome("undefined");
        if (quality != fes::kUndefined || undefined != int(f.n)) R.fail("defined", at() << "quality " << int(quality) << ", " << f.n - undefined << " values defined");
        continue;
      }
      R.outcome("extrapolated");
      if (quality == fes::kUndefined) { R.fail("undefined", at() << "undefined"); continue; }
      for (size_t c = 0; c < f.n; ++c) {
        h = vp::mix(h, vp::bits(got[c].real()));
        bool ok = false;
        Str tried;
        for (auto& p : q.cand) {
          const Cx want = f.value(p.k, p.p.x, p.p.y, c);
          double t = f.tol(p.k);
          const double cs = std::max(0.01, std::cos(p.p.y * M_PI / 180));
          for (int i = 0; i < 4; ++i) t = std::max(t, f.tol(p.k) + 2 * std::abs(f.value(p.k, p.p.x + (i == 0 ? p.slack : i == 1 ? -p.slack : 0) / cs, p.p.y + (i == 2 ? p.slack : i == 3 ? -p.slack : 0), c) - want));
          if (std::abs(got[c] - want) <= t) ok = true;
          if (tried.s.size() < 300) tried << " " << want << "+-" << t << " (triangle " << p.k << " at " << p.p.x << "," << p.p.y << ")";
        }
        if (!ok) { R.fail("value", at() << "constituent " << c << " = " << got[c] << ", expected" << tried.str()); break; }
      }
      if (di == 2) R.state(h);
    }
    // positions that are not numbers
    if (di != 1)
      for (int w = 0; w < 3; ++w) {
        fes::Quality quality = fes::kInterpolated;
        R.transition();
        const auto got = f.at(w == 1 ? 1.0 : vp::kNaN, w == 0 ? 1.0 : vp::kNaN, quality);
        bool undefined = got.size() == f.n;
        for (auto& g : got) undefined = undefined && g.real() != g.real();
        if (quality != fes::kUndefined || !undefined) R.fail("nan", Str() << "LGP" << N << " " << m.name << ": a position that is not a number is defined, extrapolation " << D[di]);
      }
  }
}
// The limit itself, with the search of the index.
static void gate(const Mesh& m, const std::vector<Query>& qs) {
  const auto idx = index(m);
  for (auto& q : qs)
    for (double f : {0.3, 0.97, 0.9999, 1.0001, 1.03, 3.0}) {
      if (std::fabs(f - 1) * q.vertex < 0.05) continue;
      R.transition();
      const auto got = idx->search({q.p.x, q.p.y}, q.vertex * f);
      auto at = [&]() { return Str() << m.name << ", position (" << q.p.x << "," << q.p.y << "), nearest vertex at " << q.vertex << " m, distance allowed " << q.vertex * f << " m: "; };
      if (got.inside) R.fail("gate-inside", at() << "claimed inside");
      else if ((got.index >= 0) != (f > 1)) R.fail("gate", at() << (got.index >= 0 ? "extrapolated" : "undefined"));
      else if (got.index >= 0) {
        bool ok = false;
        for (auto& p : q.cand) ok = ok || got.index == p.k;
        if (!ok) R.fail("nearest", at() << "triangle " << got.index << " is not the nearest");
      }
    }
}

static void run() {
  const auto fam = family(R.thorough());
  for (auto& b : fam)
    for (auto& pl : places()) {
      if (overlaps(b, pl)) continue;
      for (int how : {0, 2, 3, 4, 5}) {
        if (!R.thorough() && how != 0 && (how + b.t.size() + int(std::fabs(pl.lon))) % 3) continue;
        if (!R.begin("meshes")) continue;
        const Mesh m = dress(place(b, pl), how);
        R.note(m.name);
        std::vector<Query> qs;
        for (auto& p : outside(m)) {
          Query q{p, nearest_vertex(m, p.x, p.y), {}};
          std::vector<Near> n;
          double best = 1e99;
          for (size_t k = 0; k < m.t.size(); ++k) { n.push_back(nearest(m, k, p.x, p.y)); best = std::min(best, n.back().d); }
          for (size_t k = 0; k < m.t.size(); ++k) {
            const double s = size_of(m, k);
            const double slack = 1e-5 + 3e-4 * s * s + 1e-4 * s + 3e-8 * best;
            if (n[k].d <= best * (1 + 1e-5) + slack * 1e5) q.cand.push_back({int(k), n[k].p, slack});
          }
          qs.push_back(q);
        }
        R.sample(Str() << m.name << ": " << qs.size() << " positions outside");
        one<double, 1>(m, qs, 0);
        one<double, 1>(m, qs, 2);
        one<double, 2>(m, qs, 2);
        if (how == 0 || R.thorough()) { one<float, 1>(m, qs, 2); one<float, 2>(m, qs, 1); }
        gate(m, qs);
        none(m, beside(m));
      }
    }
}
VP_MAIN(run)
