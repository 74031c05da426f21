#pragma once
// Extended-precision reference geometry, written independently of the library.
#include "vh.hpp"
#include <um2/config.hpp>
#include <um2/geometry/axis_aligned_box.hpp>
#include <um2/geometry/line_segment.hpp>
#include <um2/geometry/quadratic_quadrilateral.hpp>
#include <um2/geometry/quadratic_segment.hpp>
#include <um2/geometry/quadratic_triangle.hpp>
#include <um2/geometry/quadrilateral.hpp>
#include <um2/geometry/triangle.hpp>

#include <algorithm>
#include <array>
#include <limits>
#include <vector>

using LD = long double;

struct P2 {
  LD x = 0;
  LD y = 0;
};
inline P2 operator+(P2 a, P2 b) { return {a.x + b.x, a.y + b.y}; }
inline P2 operator-(P2 a, P2 b) { return {a.x - b.x, a.y - b.y}; }
inline P2 operator*(LD s, P2 a) { return {s * a.x, s * a.y}; }
inline LD dot(P2 a, P2 b) { return a.x * b.x + a.y * b.y; }
inline LD cross(P2 a, P2 b) { return a.x * b.y - a.y * b.x; }
inline LD len(P2 a) { return std::sqrt(dot(a, a)); }
inline P2 rot(P2 a, LD t) { return {std::cos(t) * a.x - std::sin(t) * a.y, std::sin(t) * a.x + std::cos(t) * a.y}; }

template <class T>
inline P2 ref(um2::Point2<T> const & p) { return {static_cast<LD>(p[0]), static_cast<LD>(p[1])}; }
template <class T>
inline um2::Point2<T> pt(P2 p) { return um2::Point2<T>(static_cast<T>(p.x), static_cast<T>(p.y)); }

// An edge: straight (two points) or the parabola through a (r=0), b (r=1), c (r=1/2).
struct Edge {
  P2 a, b, c;
  P2 A, B; // Q(r) = a + r B + r^2 A
  Edge() = default;
  Edge(P2 a_, P2 b_) : a(a_), b(b_), c(0.5L * (a_ + b_)) { init(); A = {0, 0}; B = b - a; }
  Edge(P2 a_, P2 b_, P2 c_) : a(a_), b(b_), c(c_) { init(); }
  void init()
  {
    A = 2.0L * (a + b) - 4.0L * c;
    B = 4.0L * c - 3.0L * a - b;
  }
  P2 operator()(LD r) const { return a + r * (B + r * A); }
  P2 d(LD r) const { return B + 2 * r * A; }
  LD chord() const { return len(b - a); }
  LD size() const { return std::max(len(b - a), std::max(len(c - a), len(c - b))); }
  LD mag() const { return std::max({std::fabs(a.x), std::fabs(a.y), std::fabs(b.x), std::fabs(b.y), std::fabs(c.x), std::fabs(c.y)}); }
  LD speed(LD r) const { return len(d(r)); }
  // Arc length.  With u = r - k measured from the slowest point the speed is
  // 2|A| sqrt(u^2 + h^2), integrated in closed form; quadrature when |A| is so small that
  // the closed form would cancel.
  LD length() const
  {
    LD const aa = dot(A, A);
    if (aa > 1e-6L * dot(B, B)) {
      LD const k = -dot(A, B) / (2 * aa);
      LD const h = std::fabs(cross(A, B)) / (2 * aa);
      auto F = [&](LD u) { return u * std::sqrt(u * u + h * h) + (h > 0 ? h * h * std::asinh(u / h) : 0); };
      return std::sqrt(aa) * (F(1 - k) - F(-k));
    }
    static LD const g[3] = {0.5L - std::sqrt(15.0L) / 10, 0.5L, 0.5L + std::sqrt(15.0L) / 10};
    static LD const w[3] = {5.0L / 18, 8.0L / 18, 5.0L / 18};
    int const panels = 64;
    LD s = 0;
    for (int j = 0; j < panels; ++j) {
      for (int i = 0; i < 3; ++i) {
        s += w[i] * speed((j + g[i]) / panels) / panels;
      }
    }
    return s;
  }
  // smallest distance to p: dense sampling then ternary refinement around local minima
  LD dist(P2 p, LD * rmin = nullptr) const
  {
    int const n = 64;
    LD best = std::numeric_limits<LD>::infinity();
    LD f[n + 1];
    for (int i = 0; i <= n; ++i) {
      f[i] = len((*this)(static_cast<LD>(i) / n) - p);
      if (f[i] < best) {
        best = f[i];
        if (rmin != nullptr) {
          *rmin = static_cast<LD>(i) / n;
        }
      }
    }
    for (int i = 0; i <= n; ++i) {
      bool const lm = (i == 0 || f[i] <= f[i - 1]) && (i == n || f[i] <= f[i + 1]);
      if (!lm) {
        continue;
      }
      LD lo = static_cast<LD>(std::max(i - 1, 0)) / n;
      LD hi = static_cast<LD>(std::min(i + 1, n)) / n;
      for (int it = 0; it < 100; ++it) {
        LD const m1 = lo + (hi - lo) / 3;
        LD const m2 = hi - (hi - lo) / 3;
        if (len((*this)(m1) - p) < len((*this)(m2) - p)) {
          hi = m2;
        } else {
          lo = m1;
        }
      }
      LD const v = len((*this)((lo + hi) / 2) - p);
      if (v < best) {
        best = v;
        if (rmin != nullptr) {
          *rmin = (lo + hi) / 2;
        }
      }
    }
    return best;
  }
  void extrema(LD & x0, LD & x1, LD & y0, LD & y1) const
  {
    x0 = std::min(a.x, b.x);
    x1 = std::max(a.x, b.x);
    y0 = std::min(a.y, b.y);
    y1 = std::max(a.y, b.y);
    if (A.x != 0) {
      LD const r = -B.x / (2 * A.x);
      if (r > 0 && r < 1) {
        x0 = std::min(x0, (*this)(r).x);
        x1 = std::max(x1, (*this)(r).x);
      }
    }
    if (A.y != 0) {
      LD const r = -B.y / (2 * A.y);
      if (r > 0 && r < 1) {
        y0 = std::min(y0, (*this)(r).y);
        y1 = std::max(y1, (*this)(r).y);
      }
    }
  }
  // integral of x dy - y dx over the edge (twice the signed area swept from the origin)
  LD area2() const
  {
    // 3-point Gauss is exact for this cubic-degree integrand
    static LD const g[3] = {0.5L - std::sqrt(15.0L) / 10, 0.5L, 0.5L + std::sqrt(15.0L) / 10};
    static LD const w[3] = {5.0L / 18, 8.0L / 18, 5.0L / 18};
    LD s = 0;
    for (int i = 0; i < 3; ++i) {
      P2 const q = (*this)(g[i]);
      P2 const t = d(g[i]);
      s += w[i] * cross(q, t);
    }
    return s;
  }
  // integral of q * (q x dq) / 3: first moments of the swept area
  P2 moment() const
  {
    // degree 5 integrand: exact with 3-point Gauss
    static LD const g[3] = {0.5L - std::sqrt(15.0L) / 10, 0.5L, 0.5L + std::sqrt(15.0L) / 10};
    static LD const w[3] = {5.0L / 18, 8.0L / 18, 5.0L / 18};
    P2 s;
    for (int i = 0; i < 3; ++i) {
      P2 const q = (*this)(g[i]);
      s = s + (w[i] * cross(q, d(g[i])) / 3) * q;
    }
    return s;
  }
};

struct Face {
  std::vector<Edge> e;
  LD area() const
  {
    // relative to the first corner, to avoid cancellation
    LD s = 0;
    for (auto const & x : e) {
      s += shifted(x).area2();
    }
    return s / 2;
  }
  Edge shifted(Edge const & x) const { return Edge(x.a - e[0].a, x.b - e[0].a, x.c - e[0].a); }
  P2 centroid() const
  {
    P2 m;
    LD s = 0;
    for (auto const & x : e) {
      m = m + shifted(x).moment();
      s += shifted(x).area2() / 2;
    }
    return (1 / s) * m + e[0].a;
  }
  LD perimeter() const
  {
    LD s = 0;
    for (auto const & x : e) {
      s += x.length();
    }
    return s;
  }
  LD dist(P2 p) const
  {
    LD d = std::numeric_limits<LD>::infinity();
    for (auto const & x : e) {
      d = std::min(d, x.dist(p));
    }
    return d;
  }
  // winding number of the boundary around p by angle accumulation over a fine polyline
  // (p must be further from the boundary than the polyline's deviation)
  int winding(P2 p, int n = 400) const
  {
    LD s = 0;
    for (auto const & x : e) {
      P2 prev = x.a - p;
      for (int i = 1; i <= n; ++i) {
        P2 const q = (i == n ? x.b : x(static_cast<LD>(i) / n)) - p;
        s += std::atan2(cross(prev, q), dot(prev, q));
        prev = q;
      }
    }
    return static_cast<int>(std::lround(s / (2 * 3.14159265358979323846L)));
  }
  LD size() const
  {
    LD m = 0;
    for (auto const & x : e) {
      m = std::max(m, len(x.a - e[0].a));
      m = std::max(m, len(x.c - e[0].a));
    }
    return m;
  }
  LD mag() const
  {
    LD m = 0;
    for (auto const & x : e) {
      m = std::max(m, x.mag());
    }
    return m;
  }
};

template <class T>
inline Edge ref(um2::LineSegment2<T> const & l) { return Edge(ref(l[0]), ref(l[1])); }
template <class T>
inline Edge ref(um2::QuadraticSegment2<T> const & q) { return Edge(ref(q[0]), ref(q[1]), ref(q[2])); }

// Faces from corner (and mid-edge) points; k corners, mids optional.
inline Face
makeFace(std::vector<P2> const & v, int k)
{
  Face f;
  for (int i = 0; i < k; ++i) {
    P2 const a = v[static_cast<size_t>(i)];
    P2 const b = v[static_cast<size_t>((i + 1) % k)];
    if (static_cast<int>(v.size()) == k) {
      f.e.emplace_back(a, b);
    } else {
      f.e.emplace_back(a, b, v[static_cast<size_t>(k + i)]);
    }
  }
  return f;
}

template <class Poly>
inline std::vector<P2>
pointsOf(Poly const & p)
{
  std::vector<P2> v;
  for (Int i = 0; i < Poly::N; ++i) {
    v.push_back(ref(p[i]));
  }
  return v;
}

template <class Poly>
inline Face
refFace(Poly const & p)
{
  return makeFace(pointsOf(p), Poly::N == 3 || Poly::N == 6 ? 3 : 4);
}

// Random placement.
struct Frame {
  LD scale = 1;
  LD angle = 0;
  P2 shift;
  P2 operator()(P2 p) const { return scale * rot(p, angle) + shift; }
};
inline Frame
randFrame(vh::Rng & rng, double slo = 1e-2, double shi = 1e2)
{
  Frame f;
  f.scale = rng.logu(slo, shi);
  f.angle = rng.chance(0.3) ? 1.57079632679489661923L * rng.range(0, 3) : static_cast<LD>(rng.uni(0, 6.283185307));
  if (rng.chance(0.7)) {
    LD const m = static_cast<LD>(rng.logu(0.1, 20)) * f.scale;
    f.shift = {m * rng.uni(-1, 1), m * rng.uni(-1, 1)};
  }
  return f;
}

// A random parabolic edge in canonical position (0,0)-(1,0); `kind` says which family.
inline P2
randMid(vh::Rng & rng, std::string & kind)
{
  switch (rng.range(0, 7)) {
  case 0:
    kind = "straight";
    return {0.5L, 0};
  case 1:
    kind = "straight off-centre";
    return {rng.uni(0.3, 0.7), 0};
  case 2:
    kind = "nearly straight";
    return {0.5L + (rng.chance(0.4) ? 0.0 : rng.sign() * rng.logu(1e-9, 0.2)), rng.sign() * rng.logu(1e-10, 1e-3)};
  case 3:
    kind = "symmetric";
    return {0.5L, rng.sign() * rng.uni(0.01, 0.6)};
  case 4:
    kind = "overhanging";
    return {rng.uni(-0.4, 1.4), rng.sign() * rng.uni(0.05, 1)};
  case 5:
    kind = "strong";
    return {rng.uni(0.2, 0.8), rng.sign() * rng.uni(0.6, 3)};
  default:
    kind = "moderate";
    return {rng.uni(0.3, 0.7), rng.sign() * rng.uni(0.01, 0.5)};
  }
}
