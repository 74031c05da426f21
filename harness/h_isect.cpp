// C11: ray-edge, ray-face and edge-edge intersections against extended-precision roots.
#include "refray.hpp"

#include <memory>

template <class T, class E>
static void
rayEdge(vh::Rng & rng, E const & e, std::string const & d, char const * name, int maxhits)
{
  LD const eps = std::numeric_limits<T>::epsilon();
  Edge const re = ref(e);
  LD const size = re.size();
  auto const ray = randRay<T>(rng, re(0.5L), size);
  P2 const o = ref(ray.origin());
  P2 const dir = ref(ray.direction());
  LD const slack = 512 * eps * (re.mag() + size + len(o));
  bool unsure = false;
  auto const w = crossings(re, o, dir, slack, unsure);
  // exactly sized heap buffer: a write past the documented maximum is caught
  std::unique_ptr<T[]> buf(new T[(size_t)maxhits]);
  std::fill_n(buf.get(), maxhits, static_cast<T>(-77));
  Int const n = e.intersect(ray, buf.get());
  std::string const dd = d + " " + rayStr(ray);
  std::string const k(name);
  if (n < 0 || n > maxhits) {
    vh::fail(k + ".count", "%s: %d", dd.c_str(), n);
    return;
  }
  for (Int i = 0; i < n; ++i) {
    LD const r = buf[(size_t)i];
    if (!(r >= 0)) {
      vh::fail(k + ".negative", "%s: r=%.9Lg", dd.c_str(), r);
      return;
    }
    LD const off = re.dist(o + r * dir);
    VH(off <= 4 * slack + (unsure ? std::sqrt(eps) * size : 0), k + ".off_edge", "%s: r=%.9Lg is %.3Lg away from the edge", dd.c_str(), r, off);
    VH(i == 0 || buf[(size_t)i - 1] <= buf[(size_t)i], k + ".order", "%s: %.9g before %.9g", dd.c_str(), (double)buf[(size_t)i - 1], (double)buf[(size_t)i]);
  }
  if (unsure) {
    vh::count("undecided rays");
    return;
  }
  if (n != static_cast<Int>(w.size())) {
    vh::fail(k + ".count", "%s: %d crossings, expected %zu", dd.c_str(), n, w.size());
    return;
  }
  std::vector<LD> got(buf.get(), buf.get() + n);
  std::sort(got.begin(), got.end());
  for (size_t i = 0; i < w.size(); ++i) {
    // error of the root amplified by the crossing angle
    LD const slope = std::fabs(cross(re.d(w[i].s), dir));
    LD const tol = 4 * slack * (1 + re.speed(w[i].s) / slope);
    VH(std::fabs(got[i] - w[i].r) <= tol, k + ".distance", "%s: %.9Lg expected %.9Lg", dd.c_str(), got[i], w[i].r);
  }
  vh::count(k + vh::fmt(" hit %d times", n));
  if (n > 0) {
    vh::nontrivial(vh::hashStr(dd));
    vh::sample(dd);
  }
}

template <class T, class Poly>
static void
rayFace(vh::Rng & rng, Poly const & p, char const * name)
{
  LD const eps = std::numeric_limits<T>::epsilon();
  Face const f = refFace(p);
  LD const size = f.size();
  P2 c;
  for (auto const & e : f.e) {
    c = c + (1.0L / static_cast<LD>(f.e.size())) * e.a;
  }
  auto const ray = randRay<T>(rng, c, size);
  P2 const o = ref(ray.origin());
  P2 const dir = ref(ray.direction());
  LD const slack = 512 * eps * (f.mag() + size + len(o));
  bool unsure = false;
  std::vector<Hit> w;
  for (auto const & e : f.e) {
    auto const x = crossings(e, o, dir, slack, unsure);
    w.insert(w.end(), x.begin(), x.end());
  }
  std::sort(w.begin(), w.end(), [](Hit const & x, Hit const & y) { return x.r < y.r; });
  size_t const maxhits = f.e.size() * (Poly::N > 4 ? 2 : 1);
  std::unique_ptr<T[]> buf(new T[maxhits]);
  Int const n = p.intersect(ray, buf.get());
  std::string const k(name);
  std::string dd = k + " " + rayStr(ray);
  for (Int i = 0; i < Poly::N; ++i) {
    dd += vh::fmt(" (%.17g %.17g)", (double)p[i][0], (double)p[i][1]);
  }
  if (n < 0 || n > static_cast<Int>(maxhits)) {
    vh::fail(k + ".count", "%s: %d", dd.c_str(), n);
    return;
  }
  if (unsure) {
    vh::count("undecided rays");
    return;
  }
  if (n != static_cast<Int>(w.size())) {
    vh::fail(k + ".count", "%s: %d crossings, expected %zu", dd.c_str(), n, w.size());
    return;
  }
  std::vector<LD> got(buf.get(), buf.get() + n);
  std::sort(got.begin(), got.end());
  for (size_t i = 0; i < w.size(); ++i) {
    VH(std::fabs(got[i] - w[i].r) <= 4 * slack * 2e4L, k + ".distance", "%s: %.9Lg expected %.9Lg", dd.c_str(), got[i], w[i].r);
  }
  // parity: a ray from inside leaves once more than it enters
  if (f.dist(o) > 1e-3L * size) {
    bool const inside = f.winding(o) != 0;
    VH((n % 2 == 1) == inside, k + ".parity", "%s: %d crossings from %s", dd.c_str(), n, inside ? "inside" : "outside");
    vh::count(inside ? "rays from inside a face" : "rays from outside a face");
  }
  vh::count(k + vh::fmt(" crossed %d times", n));
  if (n > 0) {
    vh::nontrivial(vh::hashStr(dd));
  }
}

// Extent of part [r0, r1] of an edge.
static void
extent(Edge const & e, LD r0, LD r1, LD b[4])
{
  P2 const x = e(r0);
  P2 const y = e(r1);
  b[0] = std::min(x.x, y.x);
  b[1] = std::max(x.x, y.x);
  b[2] = std::min(x.y, y.y);
  b[3] = std::max(x.y, y.y);
  if (e.A.x != 0) {
    LD const r = -e.B.x / (2 * e.A.x);
    if (r > r0 && r < r1) {
      b[0] = std::min(b[0], e(r).x);
      b[1] = std::max(b[1], e(r).x);
    }
  }
  if (e.A.y != 0) {
    LD const r = -e.B.y / (2 * e.A.y);
    if (r > r0 && r < r1) {
      b[2] = std::min(b[2], e(r).y);
      b[3] = std::max(b[3], e(r).y);
    }
  }
}

struct Common {
  LD r, s;
  P2 p;
};

// All points closer than `gap` by interval subdivision in both parameters; `budget` limits
// the work (nearly coinciding curves exhaust it).
static void
subdivide(Edge const & p, Edge const & q, LD r0, LD r1, LD s0, LD s1, LD gap, long & budget, std::vector<Common> & out)
{
  if (--budget < 0) {
    return;
  }
  LD a[4];
  LD b[4];
  extent(p, r0, r1, a);
  extent(q, s0, s1, b);
  if (a[1] + gap < b[0] || b[1] + gap < a[0] || a[3] + gap < b[2] || b[3] + gap < a[2]) {
    return;
  }
  if (r1 - r0 < 1e-6L) {
    out.push_back({(r0 + r1) / 2, (s0 + s1) / 2, p((r0 + r1) / 2)});
    return;
  }
  LD const rm = (r0 + r1) / 2;
  LD const sm = (s0 + s1) / 2;
  subdivide(p, q, r0, rm, s0, sm, gap, budget, out);
  subdivide(p, q, r0, rm, sm, s1, gap, budget, out);
  subdivide(p, q, rm, r1, s0, sm, gap, budget, out);
  subdivide(p, q, rm, r1, sm, s1, gap, budget, out);
}

// Common points of two edges; `unsure` when two of them are close together, a crossing is
// at a small angle or near an end point, or the curves come very close without crossing.
static std::vector<P2>
common(Edge const & p, Edge const & q, bool & unsure, P2 const * except)
{
  LD const size = std::max(p.size(), q.size());
  std::vector<Common> near;
  long budget = 200000;
  // anything within 1e-3 of touching shows up here
  subdivide(p, q, -0.002L, 1.002L, -0.002L, 1.002L, 0, budget, near);
  if (budget < 0) {
    unsure = true;
    return {};
  }
  std::vector<P2> pts;
  std::vector<Common> reps;
  for (auto const & c : near) {
    bool known = false;
    for (auto const & r : reps) {
      known = known || (std::fabs(r.r - c.r) < 1e-4L && std::fabs(r.s - c.s) < 1e-4L);
    }
    if (!known) {
      reps.push_back(c);
    }
  }
  for (auto const & c : reps) {
    if (except != nullptr && len(c.p - *except) < 1e-2L * size) {
      if (len(c.p - *except) > 1e-5L * size) {
        unsure = true; // another crossing close to the shared vertex
      }
      continue;
    }
    LD const ang = std::fabs(cross(p.d(c.r), q.d(c.s))) / std::max(len(p.d(c.r)) * len(q.d(c.s)), 1e-30L);
    if (ang < 0.1L || c.r < 2e-3L || c.r > 1 - 2e-3L || c.s < 2e-3L || c.s > 1 - 2e-3L) {
      unsure = true;
    }
    pts.push_back(c.p);
  }
  for (size_t i = 0; i < pts.size(); ++i) {
    for (size_t j = i + 1; j < pts.size(); ++j) {
      if (len(pts[i] - pts[j]) < 1e-3L * size) {
        unsure = true;
      }
    }
  }
  // close approaches that are not crossings
  std::vector<Common> close;
  budget = 200000;
  for (int i = 0; i < 200; ++i) {
    LD const r = (i + 0.5L) / 200;
    LD s = 0;
    LD const dd = q.dist(p(r), &s);
    if (dd > 2e-3L * size || (except != nullptr && len(p(r) - *except) < 0.05L * size)) {
      continue;
    }
    bool explained = false;
    for (auto const & c : reps) {
      explained = explained || len(c.p - p(r)) < 0.03L * size;
    }
    if (!explained) {
      unsure = true;
    }
  }
  return pts;
}

static void
edgeEdge(vh::Rng & rng)
{
  using T = double;
  Frame const fr = randFrame(rng, 0.2, 20);
  auto mk = [&](P2 a, P2 b) {
    std::string kind;
    P2 const m = randMid(rng, kind);
    P2 const t = b - a;
    P2 const n = {-t.y, t.x};
    return um2::QuadraticSegment2<T>(pt<T>(fr(a)), pt<T>(fr(b)), pt<T>(fr(a + m.x * t + m.y * n)));
  };
  bool const shared = rng.chance(0.3);
  P2 const a{rng.uni(-1, 1), rng.uni(-1, 1)};
  P2 const b{rng.uni(-1, 1), rng.uni(-1, 1)};
  P2 const c{rng.uni(-1, 1), rng.uni(-1, 1)};
  P2 const c2{rng.uni(-1, 1), rng.uni(-1, 1)};
  if (len(a - b) < 0.2L || len(b - c) < 0.2L || len(c - c2) < 0.2L) {
    return;
  }
  auto const p = mk(a, b);
  auto const q = shared ? mk(b, c) : mk(c, c2);
  Edge const ep = ref(p);
  Edge const eq = ref(q);
  // hairpins, where the parametrisation nearly stops, are not judged
  for (auto const * e : {&ep, &eq}) {
    LD slow = std::min(e->speed(0), e->speed(1));
    LD const aa = dot(e->A, e->A);
    LD const k = aa > 0 ? -dot(e->A, e->B) / (2 * aa) : -1;
    if (k > 0 && k < 1) {
      slow = std::min(slow, e->speed(k));
    }
    if (slow < 0.05L * e->size()) {
      vh::count("hairpin edges skipped");
      return;
    }
  }
  if (shared && (std::fabs(cross(ep.d(1), eq.d(0))) < 0.1L * len(ep.d(1)) * len(eq.d(0)) || ep.dist(eq.b) < 1e-2L * ep.size() || eq.dist(ep.a) < 1e-2L * ep.size())) {
    return;
  }
  bool unsure = false;
  auto const w = common(ep, eq, unsure, shared ? &ep.b : nullptr);
  if (unsure) {
    vh::count("undecided edge pairs");
    return;
  }
  if (w.size() + (shared ? 1U : 0U) > 2) {
    vh::count("edge pairs beyond two common points");
    return; // outside the documented range
  }
  // generous scratch space; what is written beyond the returned count is not constrained
  std::vector<um2::Point2<T>> buf(64);
  std::string const d = vh::fmt("%s (%.17g %.17g) (%.17g %.17g) (%.17g %.17g) with (%.17g %.17g) (%.17g %.17g) (%.17g %.17g)", shared ? "shared vertex:" : "", p[0][0], p[0][1], p[1][0], p[1][1], p[2][0], p[2][1], q[0][0], q[0][1], q[1][0],
                                q[1][1], q[2][0], q[2][1]);
  if (shared) {
    Int const n = p.intersect(q, buf.data());
    VH(n == static_cast<Int>(w.size()) + 1, "edges.shared_count", "%s: %d common points, expected %zu", d.c_str(), n, w.size() + 1);
    bool found = false;
    for (Int i = 0; i < n; ++i) {
      found = found || len(ref(buf[(size_t)i]) - ep.b) < 1e-4L * ep.size();
    }
    VH(found, "edges.shared_missing", "%s", d.c_str());
    vh::count(w.empty() ? "edge pairs meeting at a vertex" : "edge pairs meeting at a vertex and elsewhere");
    vh::nontrivial(vh::hashStr(d));
    return;
  }
  Int const n = p.intersect(q, buf.data());
  VH(n == static_cast<Int>(w.size()), "edges.count", "%s: %d common points, expected %zu", d.c_str(), n, w.size());
  VH(p.intersects(q) == !w.empty(), "edges.intersects", "%s: %d, expected %zu", d.c_str(), p.intersects(q) ? 1 : 0, w.size());
  if (n == static_cast<Int>(w.size())) {
    for (auto const & x : w) {
      LD best = 1e30L;
      for (Int i = 0; i < n; ++i) {
        best = std::min(best, len(ref(buf[(size_t)i]) - x));
      }
      VH(best < 1e-4L * (ep.size() + eq.size()), "edges.point", "%s: off by %Lg", d.c_str(), best);
    }
  }
  Int const m = q.intersect(p, buf.data());
  VH(m == static_cast<Int>(w.size()), "edges.count", "swapped %s: %d common points, expected %zu", d.c_str(), m, w.size());
  vh::count(vh::fmt("edge pairs with %zu common points", w.size()));
  if (!w.empty()) {
    vh::nontrivial(vh::hashStr(d));
  }
}

template <class T>
static void
rays(vh::Rng & rng)
{
  Frame const fr = randFrame(rng, 0.1, 50);
  std::string kind;
  P2 const mid = randMid(rng, kind);
  um2::Point2<T> const a = pt<T>(fr({0, 0}));
  um2::Point2<T> const b = pt<T>(fr({1, 0}));
  um2::Point2<T> const c = pt<T>(fr(mid));
  std::string const d = vh::fmt("%s %s (%.17g %.17g) (%.17g %.17g) (%.17g %.17g)", sizeof(T) == 8 ? "f64" : "f32", kind.c_str(), (double)a[0], (double)a[1], (double)b[0], (double)b[1], (double)c[0], (double)c[1]);
  for (int k = 0; k < 3; ++k) {
    rayEdge<T>(rng, um2::QuadraticSegment2<T>(a, b, c), d, "curved_edge", 2);
  }
  rayEdge<T>(rng, um2::LineSegment2<T>(a, b), d, "segment", 1);
  um2::Point2<T> v[8];
  P2 const base3[3] = {{0, 0}, {1, 0}, {0, 1}};
  P2 const base4[4] = {{0, 0}, {1, 0}, {1, 1}, {0, 1}};
  auto jit = [&](P2 p, double s) { return pt<T>(fr({p.x + s * rng.uni(-1, 1), p.y + s * rng.uni(-1, 1)})); };
  double const j = rng.chance(0.3) ? 0.0 : 0.15;
  for (int i = 0; i < 3; ++i) {
    v[i] = jit(base3[i], j);
  }
  for (int i = 0; i < 3; ++i) {
    v[3 + i] = jit(0.5L * (base3[i] + base3[(i + 1) % 3]), 0.12);
  }
  rayFace<T>(rng, um2::Triangle2<T>(v[0], v[1], v[2]), "triangle");
  rayFace<T>(rng, um2::QuadraticTriangle2<T>(v[0], v[1], v[2], v[3], v[4], v[5]), "curved_triangle");
  for (int i = 0; i < 4; ++i) {
    v[i] = jit(base4[i], j);
  }
  for (int i = 0; i < 4; ++i) {
    v[4 + i] = jit(0.5L * (base4[i] + base4[(i + 1) % 4]), 0.15);
  }
  rayFace<T>(rng, um2::Quadrilateral2<T>(v[0], v[1], v[2], v[3]), "quad");
  rayFace<T>(rng, um2::QuadraticQuadrilateral2<T>(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7]), "curved_quad");
}

int
main(int argc, char ** argv)
{
  return vh::run(argc, argv, "isect", [](vh::Rng & rng, uint64_t i) {
    if (i % 3 == 0) {
      rays<float>(rng);
    } else {
      rays<double>(rng);
    }
    if (i % 2 == 0) {
      edgeEdge(rng);
    }
  });
}
