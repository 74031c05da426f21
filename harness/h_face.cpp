// C10: face measures, orientation and interpolation against boundary integration.
#include "refgeom.hpp"

#include <set>

static bool
simpleConvexLinear(std::vector<P2> const & v, int k, LD margin)
{
  for (int i = 0; i < k; ++i) {
    P2 const a = v[(size_t)i];
    P2 const b = v[(size_t)((i + 1) % k)];
    P2 const c = v[(size_t)((i + 2) % k)];
    if (cross(b - a, c - b) < margin * len(b - a) * len(c - b)) {
      return false;
    }
  }
  return true;
}

// Canonical shapes: k corners counter-clockwise, plus mid-edge points.
static std::vector<P2>
shape(vh::Rng & rng, int k, bool curved, std::string & kind, bool flat)
{
  for (;;) {
    std::vector<P2> v;
    if (k == 3) {
      v = {{0, 0}, {1, 0}, {rng.uni(-0.4, 1.4), rng.uni(0.15, 1.5)}};
      kind = "generic";
    } else if (rng.chance(0.25)) {
      LD const w = rng.uni(0.3, 2);
      v = {{0, 0}, {1, 0}, {1, w}, {0, w}};
      kind = "rectangle";
    } else if (flat && rng.chance(0.2)) { // one flat corner (a triangle-like quad)
      v = {{0, 0}, {1, 0}, {0.5L, 0.5L}, {0, 1}};
      kind = "flat corner";
    } else {
      LD const j = 0.3;
      P2 const b[4] = {{0, 0}, {1, 0}, {1, 1}, {0, 1}};
      for (auto p : b) {
        v.push_back({p.x + j * rng.uni(-1, 1), p.y + j * rng.uni(-1, 1)});
      }
      kind = "generic";
    }
    if (kind != "flat corner" && !simpleConvexLinear(v, k, 0.1L)) {
      continue;
    }
    if (curved) {
      double const bulge = rng.pick(std::vector<double>{0.0, 0.02, 0.1, 0.15});
      for (int i = 0; i < k; ++i) {
        P2 const a = v[(size_t)i];
        P2 const b = v[(size_t)((i + 1) % k)];
        P2 const m = 0.5L * (a + b);
        P2 const t = b - a;
        P2 const n = {t.y, -t.x};
        LD const s = rng.chance(0.2) ? 0 : rng.uni(-bulge, bulge);
        LD const al = rng.chance(0.5) ? 0 : rng.uni(-0.05, 0.05);
        v.push_back(m + s * n + al * t);
      }
      kind += bulge == 0 ? " straight edges" : " curved";
      Face const f = makeFace(v, k);
      if (f.area() < 0.1L * f.size() * f.size()) {
        continue;
      }
    }
    return v;
  }
}

template <class T, class Poly>
static void
check(vh::Rng & rng, Poly const & p, std::string const & kind, bool ccw, char const * name)
{
  LD const eps = std::numeric_limits<T>::epsilon();
  Face const f = refFace(p);
  LD const size = f.size();
  LD const rnd = eps * (f.mag() + size);
  std::string d = vh::fmt("%s %s %s %s:", sizeof(T) == 8 ? "f64" : "f32", name, kind.c_str(), ccw ? "ccw" : "cw");
  for (Int i = 0; i < Poly::N; ++i) {
    d += vh::fmt(" (%.17g %.17g)", (double)p[i][0], (double)p[i][1]);
  }
  std::string const n(name);
  Int constexpr k = (Poly::N == 3 || Poly::N == 6) ? 3 : 4;
  LD const A = f.area();
  VH((A > 0) == ccw, "harness.orientation", "%s", d.c_str());
  VH(p.isCCW() == ccw, n + ".orientation", "%s", d.c_str());
  // edges
  for (Int i = 0; i < k; ++i) {
    auto const e = p.getEdge(i);
    VH(e[0] == p[i] && e[1] == p[(i + 1) % k], n + ".edge", "%s edge %d", d.c_str(), i);
    if constexpr (Poly::N > 4) {
      VH(e[2] == p[k + i], n + ".edge", "%s edge %d", d.c_str(), i);
    }
  }
  LD const per = f.perimeter();
  VH(std::fabs(p.perimeter() - per) <= 64 * rnd + 2048 * eps * per + 4 * um2::epsDistance<T>(), n + ".perimeter", "%s: %.9g expected %.9Lg", d.c_str(), (double)p.perimeter(), per);
  LD const atol = 64 * rnd * size;
  // Measures of clockwise faces are only defined for triangles (unsigned).
  if (ccw) {
    VH(std::fabs(p.area() - A) <= atol, n + ".area", "%s: %.9g expected %.9Lg", d.c_str(), (double)p.area(), A);
    P2 const c = f.centroid();
    P2 const g = ref(p.centroid());
    VH(len(c - g) <= 64 * rnd * size * size / std::fabs(A) + 64 * rnd, n + ".centroid", "%s: off by %Lg (%.9Lg %.9Lg)", d.c_str(), len(c - g), c.x, c.y);
    LD const mcl = 3.14159265358979323846L * A / per;
    VH(std::fabs(p.meanChordLength() - mcl) <= mcl * (atol / std::fabs(A) + 4096 * eps + (64 * rnd + 4 * um2::epsDistance<T>()) / per), n + ".mean_chord", "%s: %.9g expected %.9Lg", d.c_str(), (double)p.meanChordLength(), mcl);
    vh::count("measured " + n);
  }
  // flip: same corners and edges, opposite orientation, involution
  Poly q = p;
  q.flip();
  VH(q.isCCW() == !ccw, n + ".flip_orientation", "%s", d.c_str());
  {
    LD const B = refFace(q).area();
    VH(std::fabs(A + B) <= atol, n + ".flip_area", "%s: %.9Lg vs %.9Lg", d.c_str(), A, B);
    // the set of edges (as unordered end point pairs with their middle point) is the same
    auto edges = [&](Poly const & x) {
      std::set<std::array<double, 6>> s;
      for (Int i = 0; i < k; ++i) {
        auto const e = x.getEdge(i);
        std::array<double, 6> a{};
        bool const sw = e[1] < e[0];
        a[0] = (double)e[sw ? 1 : 0][0];
        a[1] = (double)e[sw ? 1 : 0][1];
        a[2] = (double)e[sw ? 0 : 1][0];
        a[3] = (double)e[sw ? 0 : 1][1];
        if constexpr (Poly::N > 4) {
          a[4] = (double)e[2][0];
          a[5] = (double)e[2][1];
        }
        s.insert(a);
      }
      return s;
    };
    VH(edges(p) == edges(q), n + ".flip_edges", "%s", d.c_str());
    Poly r = q;
    r.flip();
    bool same = true;
    for (Int i = 0; i < Poly::N; ++i) {
      same = same && r[i] == p[i];
    }
    VH(same, n + ".flip_twice", "%s", d.c_str());
    VH(std::fabs(q.perimeter() - p.perimeter()) <= 64 * rnd + 4096 * eps * per + 4 * um2::epsDistance<T>(), n + ".flip_perimeter", "%s", d.c_str());
    if (!ccw) {
      VH(std::fabs(q.area() + A) <= atol, n + ".flip_measure", "%s", d.c_str());
    }
  }
  // interpolation: corners, edges, and tangents by exact differences of the interpolant
  T const t = static_cast<T>(rng.u());
  P2 const cr[4] = {{0, 0}, {1, 0}, {k == 3 ? 0.0L : 1.0L, 1}, {0, 1}};
  for (Int i = 0; i < k; ++i) {
    P2 const a = cr[i];
    P2 const b = cr[(i + 1) % k];
    P2 const rs = a + static_cast<LD>(t) * (b - a);
    P2 const got = ref(p(static_cast<T>(rs.x), static_cast<T>(rs.y)));
    VH(len(got - f.e[(size_t)i](t)) <= 128 * rnd, n + ".interpolate_edge", "%s edge %d t=%.9g off by %Lg", d.c_str(), i, (double)t, len(got - f.e[(size_t)i](t)));
    VH(len(ref(p(static_cast<T>(a.x), static_cast<T>(a.y))) - f.e[(size_t)i].a) <= 16 * rnd, n + ".interpolate_corner", "%s corner %d", d.c_str(), i);
  }
  {
    // The interpolant is a polynomial of degree <= 2 in each variable, so central
    // differences with a wide step give its derivative up to rounding for degree 2.
    T const r = static_cast<T>(rng.uni(0.3, 0.6));
    T const s = static_cast<T>(rng.uni(0.1, 0.35));
    T const h = static_cast<T>(0.125);
    P2 const dr = static_cast<LD>(4) * (ref(p(r + h, s)) - ref(p(r - h, s)));
    P2 const ds = static_cast<LD>(4) * (ref(p(r, s + h)) - ref(p(r, s - h)));
    auto const J = p.jacobian(r, s);
    VH(len(ref(J.col(0)) - dr) <= 2048 * rnd && len(ref(J.col(1)) - ds) <= 2048 * rnd, n + ".tangent", "%s at (%.9g %.9g): off by %Lg %Lg", d.c_str(), (double)r, (double)s, len(ref(J.col(0)) - dr), len(ref(J.col(1)) - ds));
  }
  // placing the interpolated points: Jacobian determinant integrates to the area (quad8/tri6)
  {
    LD s = 0;
    static LD const g[3] = {0.5L - std::sqrt(15.0L) / 10, 0.5L, 0.5L + std::sqrt(15.0L) / 10};
    static LD const w[3] = {5.0L / 18, 8.0L / 18, 5.0L / 18};
    for (int i = 0; i < 3; ++i) {
      for (int j = 0; j < 3; ++j) {
        LD r = g[i];
        LD ss = g[j];
        LD ww = w[i] * w[j];
        if (k == 3) { // Duffy
          ww *= 1 - r;
          ss *= 1 - r;
        }
        auto const J = p.jacobian(static_cast<T>(r), static_cast<T>(ss));
        s += ww * cross(ref(J.col(0)), ref(J.col(1)));
      }
    }
    VH(std::fabs(s - A) <= 1024 * rnd * size, n + ".area_from_tangents", "%s: %.9Lg expected %.9Lg", d.c_str(), s, A);
  }
  if constexpr (Poly::N > 4) {
    auto const l = p.linearPolygon();
    bool same = true;
    for (Int i = 0; i < k; ++i) {
      same = same && l[i] == p[i];
    }
    VH(same, n + ".linear", "%s", d.c_str());
  }
  vh::count(n + (ccw ? " ccw" : " cw"));
  vh::nontrivial(vh::hashStr(d));
  vh::sample(d);
}

template <class T>
static void
one(vh::Rng & rng)
{
  Frame const fr = randFrame(rng, 0.05, 100);
  bool const ccw = rng.chance(0.7);
  std::string kind;
  um2::Point2<T> v[8];
  auto build = [&](int k, bool curved) {
    auto s = shape(rng, k, curved, kind, sizeof(T) == 8);
    // start anywhere along the boundary
    int const off = rng.range(0, k - 1);
    std::vector<P2> r(s.size());
    for (int i = 0; i < k; ++i) {
      r[(size_t)i] = s[(size_t)((i + off) % k)];
      if (curved) {
        r[(size_t)(k + i)] = s[(size_t)(k + (i + off) % k)];
      }
    }
    if (!ccw) { // traverse the other way round
      std::vector<P2> c = r;
      for (int i = 0; i < k; ++i) {
        c[(size_t)i] = r[(size_t)((k - i) % k)];
        if (curved) {
          c[(size_t)(k + i)] = r[(size_t)(k + (k - 1 - i))];
        }
      }
      r = c;
    }
    for (size_t i = 0; i < r.size(); ++i) {
      v[i] = pt<T>(fr(r[i]));
    }
  };
  switch (rng.range(0, 3)) {
  case 0:
    build(3, false);
    return check<T>(rng, um2::Triangle2<T>(v[0], v[1], v[2]), kind, ccw, "triangle");
  case 1:
    build(4, false);
    return check<T>(rng, um2::Quadrilateral2<T>(v[0], v[1], v[2], v[3]), kind, ccw, "quad");
  case 2:
    build(3, true);
    return check<T>(rng, um2::QuadraticTriangle2<T>(v[0], v[1], v[2], v[3], v[4], v[5]), kind, ccw, "curved_triangle");
  default:
    build(4, true);
    return check<T>(rng, um2::QuadraticQuadrilateral2<T>(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7]), kind, ccw, "curved_quad");
  }
}

int
main(int argc, char ** argv)
{
  return vh::run(argc, argv, "face", [](vh::Rng & rng, uint64_t i) { i % 3 == 0 ? one<float>(rng) : one<double>(rng); });
}
