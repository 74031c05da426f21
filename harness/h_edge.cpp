// C09: every query on an edge agrees with the edge's own parametrisation.
#include "refgeom.hpp"

template <class T>
static LD
epsD()
{
  return um2::epsDistance<T>();
}

// Is p left of the edge (closed by its chord's line outside)?  Decided by parity between
// the chord's side and membership in the region between edge and chord.
static bool
leftOf(Edge const & e, P2 p)
{
  bool const chord_left = cross(e.b - e.a, p - e.a) >= 0;
  // inside the region between the edge and the chord?
  Face f;
  f.e.push_back(e);
  f.e.emplace_back(e.b, e.a);
  int const w = f.winding(p, 600);
  return w == 0 ? chord_left : !chord_left;
}

template <class T>
static void
quad(vh::Rng & rng)
{
  LD const eps = std::numeric_limits<T>::epsilon();
  Frame const fr = randFrame(rng, 0.1, 100);
  std::string kind;
  P2 const mid = randMid(rng, kind);
  um2::Point2<T> const a = pt<T>(fr({0, 0}));
  um2::Point2<T> const b = pt<T>(fr({1, 0}));
  um2::Point2<T> const c = pt<T>(fr(mid));
  um2::QuadraticSegment2<T> const q(a, b, c);
  Edge const e = ref(q);
  LD const size = e.size();
  LD const rnd = eps * (e.mag() + size); // rounding of one coordinate
  std::string const d = vh::fmt("%s %s (%.17g %.17g) (%.17g %.17g) (%.17g %.17g)", sizeof(T) == 8 ? "f64" : "f32", kind.c_str(), (double)a[0], (double)a[1], (double)b[0], (double)b[1], (double)c[0], (double)c[1]);
  if (getenv("VH_DEBUG") != nullptr) {
    fprintf(stderr, "%s\n", d.c_str());
  }
  // interpolation and tangent
  for (int k = 0; k < 4; ++k) {
    T const r = static_cast<T>(k == 0 ? 0 : k == 1 ? 1 : k == 2 ? 0.5 : rng.u());
    P2 const g = ref(q(r));
    VH(len(g - e(r)) <= 16 * rnd, "edge.interpolate", "%s r=%.9g off by %Lg", d.c_str(), (double)r, len(g - e(r)));
    P2 const j = ref(q.jacobian(r));
    VH(len(j - e.d(r)) <= 64 * rnd, "edge.tangent", "%s r=%.9g off by %Lg", d.c_str(), (double)r, len(j - e.d(r)));
  }
  {
    auto const pc = q.getPolyCoeffs();
    VH(len(ref(pc[0]) - e.a) == 0 && len(ref(pc[1]) - e.B) <= 64 * rnd && len(ref(pc[2]) - e.A) <= 64 * rnd, "edge.polynomial", "%s", d.c_str());
  }
  LD const height = std::fabs(cross(e.b - e.a, e.c - e.a)) / e.chord();
  bool const clearly_curved = height > 4 * epsD<T>();
  // straightness
  if (len(e.c - e.a) < 0.99L * e.chord()) {
    if (height < epsD<T>() / 2 - 16 * rnd) {
      VH(um2::isStraight(q), "edge.straight", "%s", d.c_str());
    }
    if (clearly_curved && height > 2 * epsD<T>() + 16 * rnd) {
      VH(!um2::isStraight(q), "edge.straight", "%s", d.c_str());
    }
  }
  // length
  {
    LD const w = e.length();
    LD const g = q.length();
    LD const err = std::fabs(g - w) / w;
    // the closed form cancels for small curvature: err ~ eps * (size/curvature)^k
    LD const curv = len(e.A) / size;
    LD const tol = 256 * eps + (clearly_curved || len(e.A) > epsD<T>() ? 256 * eps * std::max(1.0L, 1 / curv) : 0) + 8 * rnd / size + (clearly_curved ? 0 : 4 * epsD<T>() / size);
    VH(err <= tol, "edge.length", "%s: length %.17Lg expected %.17Lg rel err %Lg tol %Lg curvature %Lg", d.c_str(), g, w, err, tol, curv);
    um2::QuadraticSegment2<T> const rev(b, a, c);
    LD const gr = rev.length();
    VH(std::fabs(g - gr) <= 2 * tol * w, "edge.length.reverse", "%s: %.17Lg vs %.17Lg", d.c_str(), g, gr);
  }
  // enclosed area and centroid
  {
    // area between edge and chord, positive if the edge bulges to the right of the chord
    Face f;
    f.e.push_back(e);
    f.e.emplace_back(e.b, e.a);
    LD const w = f.area();
    LD const g = um2::enclosedArea(q);
    VH(std::fabs(g - w) <= 32 * eps * std::fabs(w) + 16 * rnd * size, "edge.enclosed_area", "%s: %.9Lg expected %.9Lg", d.c_str(), g, w);
    if (height > 1e-3L * size) {
      P2 const cw = f.centroid();
      P2 const cg = ref(um2::enclosedCentroid(q));
      VH(len(cw - cg) <= 64 * rnd + 64 * eps * size * size / height, "edge.enclosed_centroid", "%s: off by %Lg", d.c_str(), len(cw - cg));
      VH(q.curvesLeft() == (w > 0), "edge.bulge_direction", "%s", d.c_str());
      um2::QuadraticSegment2<T> const rev(b, a, c);
      VH(rev.curvesLeft() != q.curvesLeft(), "edge.bulge_direction.reverse", "%s", d.c_str());
      vh::count("curved edges");
    }
  }
  // rotation maps the chord on the positive x axis
  {
    auto const R = q.getRotation();
    auto const x = R * (b - a);
    VH(std::fabs(x[0] - e.chord()) <= 8 * rnd + 8 * eps * e.chord() && std::fabs(static_cast<LD>(x[1])) <= 8 * rnd, "edge.rotation", "%s", d.c_str());
    auto const y = R * (c - a);
    VH(std::fabs(y[1] - cross(e.b - e.a, e.c - e.a) / e.chord()) <= 16 * rnd + 16 * eps * size, "edge.rotation", "%s: mid point height %.9g", d.c_str(), (double)y[1]);
  }
  // points: distance and side
  for (int k = 0; k < 4; ++k) {
    P2 pp;
    switch (rng.range(0, 3)) {
    case 0:
      pp = fr({rng.uni(-1, 2), rng.uni(-1.5, 1.5)});
      break;
    case 1: { // near the curve
      LD const r = rng.u();
      P2 const t = e.d(r);
      LD const l = len(t);
      P2 const n = l > 0 ? (1 / l) * P2{-t.y, t.x} : P2{1, 0};
      pp = e(r) + static_cast<LD>(rng.sign() * rng.logu(1e-4, 0.5)) * size * n;
      break;
    }
    case 2: { // between curve and chord
      LD const r = rng.u();
      P2 const on = e(r);
      P2 const ch = e.a + static_cast<LD>(rng.u()) * (e.b - e.a);
      pp = on + static_cast<LD>(rng.u()) * (ch - on);
      break;
    }
    default: // on a grid aligned with the chord
      pp = fr({0.25L * rng.range(-2, 6), 0.125L * rng.range(-8, 8)});
    }
    um2::Point2<T> const p = pt<T>(pp);
    P2 const pr = ref(p);
    LD const g = q.distanceTo(p);
    T const r = q.pointClosestTo(p);
    // sampling may miss a narrow minimum that the queried code found
    LD const w = std::min(e.dist(pr), r >= 0 && r <= 1 ? len(e(r) - pr) : std::numeric_limits<LD>::infinity());
    VH(r >= 0 && r <= 1, "edge.closest.range", "%s p=(%.17g %.17g) r=%.9g", d.c_str(), (double)p[0], (double)p[1], (double)r);
    LD const at = len(e(r) - pr);
    // closest point to within the library's distance tolerance (and rounding)
    LD const tol = epsD<T>() * 4 + 256 * rnd + 1e-6L * (sizeof(T) == 4 ? 1e3L : 1e-3L) * size;
    VH(at <= w + tol, "edge.closest", "%s p=(%.17g %.17g): r=%.9g at distance %.9Lg but nearest is %.9Lg", d.c_str(), (double)p[0], (double)p[1], (double)r, at, w);
    VH(std::fabs(g - w) <= tol, "edge.distance", "%s p=(%.17g %.17g): %.9Lg expected %.9Lg", d.c_str(), (double)p[0], (double)p[1], g, w);
    vh::count("distances");
    if (w > 1e-3L * size) {
      // distance to the end points' tangent line extension is irrelevant: the chord's line decides outside
      LD const dl = std::fabs(cross(e.b - e.a, pr - e.a)) / e.chord();
      if (dl > 1e-3L * size) {
        bool const l = leftOf(e, pr);
        VH(q.isLeft(p) == l, "edge.left_of", "%s p=(%.17g %.17g): %d", d.c_str(), (double)p[0], (double)p[1], q.isLeft(p) ? 1 : 0);
        um2::QuadraticSegment2<T> const rev(b, a, c);
        VH(rev.isLeft(p) != l, "edge.left_of.reverse", "%s p=(%.17g %.17g)", d.c_str(), (double)p[0], (double)p[1]);
        bool const chord_left = cross(e.b - e.a, pr - e.a) >= 0;
        vh::count(l == chord_left ? "points sided by the chord" : "points between edge and chord");
      }
    }
  }
  vh::count("edge " + kind);
  vh::nontrivial(vh::hashStr(d));
  vh::sample(d);
}

template <class T>
static void
line(vh::Rng & rng)
{
  LD const eps = std::numeric_limits<T>::epsilon();
  Frame const fr = randFrame(rng, 0.01, 100);
  um2::Point2<T> const a = pt<T>(fr({0, 0}));
  um2::Point2<T> const b = pt<T>(fr({1, 0}));
  um2::LineSegment2<T> const q(a, b);
  Edge const e = ref(q);
  LD const rnd = eps * (e.mag() + e.size());
  T const r = static_cast<T>(rng.u());
  VH(len(ref(q(r)) - e(r)) <= 8 * rnd && len(ref(q.jacobian(r)) - (e.b - e.a)) <= 8 * rnd, "line.interpolate", "r=%g", (double)r);
  VH(std::fabs(q.length() - e.chord()) <= 8 * eps * e.chord(), "line.length", "%.9g", (double)q.length());
  auto const bb = q.boundingBox();
  VH(bb.contains(a) && bb.contains(b), "line.box", " ");
  for (int k = 0; k < 4; ++k) {
    um2::Point2<T> const p = pt<T>(fr({rng.uni(-1, 2), rng.chance(0.2) ? 0.0 : rng.uni(-1, 1)}));
    P2 const pr = ref(p);
    LD t = dot(pr - e.a, e.b - e.a) / dot(e.b - e.a, e.b - e.a);
    t = std::min(1.0L, std::max(0.0L, t));
    LD const w = len(e(t) - pr);
    T const g = q.pointClosestTo(p);
    VH(std::fabs(g - t) <= 64 * rnd / e.chord(), "line.closest", "%.9g expected %.9Lg", (double)g, t);
    VH(std::fabs(q.distanceTo(p) - w) <= 64 * rnd && std::fabs(q.squaredDistanceTo(p) - w * w) <= 64 * rnd * (w + rnd), "line.distance", "%.9g expected %.9Lg", (double)q.distanceTo(p), w);
    LD const cr = cross(e.b - e.a, pr - e.a);
    if (std::fabs(cr) > 32 * rnd * (e.chord() + len(pr - e.a))) {
      VH(q.isLeft(p) == (cr > 0), "line.left_of", " ");
    }
  }
  auto const x = q.getRotation() * (b - a);
  VH(std::fabs(x[0] - e.chord()) <= 8 * rnd && std::fabs(static_cast<LD>(x[1])) <= 8 * rnd, "line.rotation", " ");
  vh::count("straight segments");
  // 3D
  um2::Point<3, T> v[4];
  for (auto & p : v) {
    for (Int k = 0; k < 3; ++k) {
      p[k] = static_cast<T>(rng.uni(-5, 5));
    }
  }
  um2::LineSegment<3, T> const l3(v[0], v[1]);
  um2::QuadraticSegment<3, T> const q3(v[0], v[1], v[2]);
  LD c[3];
  LD dd = 0;
  LD best3 = 1e30L;
  for (Int k = 0; k < 3; ++k) {
    Edge const ek(P2{v[0][k], 0}, P2{v[1][k], 0}, P2{v[2][k], 0});
    c[k] = ek(r).x;
    dd += (static_cast<LD>(v[1][k]) - v[0][k]) * (static_cast<LD>(v[1][k]) - v[0][k]);
    VH(std::fabs(q3(r)[k] - c[k]) <= 64 * eps * 20 && std::fabs(q3.jacobian(r)[k] - ek.d(r).x) <= 256 * eps * 20, "edge3.interpolate", "axis %d", k);
  }
  VH(std::fabs(l3.length() - std::sqrt(dd)) <= 8 * eps * std::sqrt(dd), "line3.length", " ");
  LD arc = 0;
  LD prev[3] = {v[0][0], v[0][1], v[0][2]};
  int const n = 2000;
  for (int i = 0; i <= n; ++i) {
    LD const t = static_cast<LD>(i) / n;
    LD s = 0;
    LD dp = 0;
    for (Int k = 0; k < 3; ++k) {
      Edge const ek(P2{v[0][k], 0}, P2{v[1][k], 0}, P2{v[2][k], 0});
      LD const x3 = ek(t).x;
      s += (x3 - prev[k]) * (x3 - prev[k]);
      dp += (x3 - v[3][k]) * (x3 - v[3][k]);
      prev[k] = x3;
    }
    arc += std::sqrt(s);
    best3 = std::min(best3, std::sqrt(dp));
  }
  VH(std::fabs(q3.length() - arc) <= 1e-4L * arc, "edge3.length", "%.9g expected %.9Lg", (double)q3.length(), arc);
  VH(std::fabs(q3.distanceTo(v[3]) - best3) <= 2e-3L * (1 + arc), "edge3.distance", "%.9g expected %.9Lg", (double)q3.distanceTo(v[3]), best3);
}

int
main(int argc, char ** argv)
{
  return vh::run(argc, argv, "edge", [](vh::Rng & rng, uint64_t i) {
    if (i % 3 != 0) {
      quad<double>(rng);
    } else {
      quad<float>(rng);
    }
    if (i % 16 == 0) {
      line<double>(rng);
    } else if (i % 16 == 1) {
      line<float>(rng);
    }
  });
}
