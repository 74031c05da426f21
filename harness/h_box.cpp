// C08: axis-aligned boxes, ray clipping, bounding boxes of edges and faces.
#include "refgeom.hpp"

template <Int D, class T>
static void
boxes(vh::Rng & rng)
{
  using P = um2::Point<D, T>;
  using B = um2::AxisAlignedBox<D, T>;
  LD const eps = std::numeric_limits<T>::epsilon();
  bool const lattice = rng.chance(0.4);
  T const sc = static_cast<T>(lattice ? 1 : rng.logu(1e-3, 1e4));
  auto coord = [&]() { return static_cast<T>(lattice ? rng.range(-4, 4) : rng.uni(-1, 1)) * sc; };
  auto rp = [&]() {
    P p;
    for (Int d = 0; d < D; ++d) {
      p[d] = coord();
    }
    return p;
  };
  int const n = rng.range(1, 12);
  std::vector<P> pts;
  T lo[3];
  T hi[3];
  for (int i = 0; i < n; ++i) {
    pts.push_back(rp());
    for (Int d = 0; d < D; ++d) {
      T const x = pts.back()[d];
      lo[d] = i == 0 ? x : std::min(lo[d], x);
      hi[d] = i == 0 ? x : std::max(hi[d], x);
    }
  }
  auto same = [&](B const & b) {
    bool ok = true;
    for (Int d = 0; d < D; ++d) {
      ok = ok && b.minima()[d] == lo[d] && b.maxima()[d] == hi[d] && b.minima(d) == lo[d] && b.maxima(d) == hi[d] &&
           b.extents(d) == hi[d] - lo[d] && b.extents()[d] == b.extents(d) &&
           std::fabs(static_cast<LD>(b.centroid()[d]) - (static_cast<LD>(lo[d]) + hi[d]) / 2) <= 2 * eps * (std::fabs(static_cast<LD>(lo[d])) + std::fabs(static_cast<LD>(hi[d])));
    }
    return ok;
  };
  B const box = um2::boundingBox(pts.data(), n);
  VH(same(box), "box.of_points", "D=%d n=%d", D, n);
  VH(same(um2::boundingBox(pts.data(), pts.data() + n)), "box.of_points", "range D=%d", D);
  B acc = B::empty();
  VH(!acc.contains(rp()), "box.empty_contains", "D=%d", D);
  for (auto const & p : pts) {
    acc += p;
  }
  VH(same(acc), "box.accumulate", "D=%d n=%d", D, n);
  // union of sub-boxes
  if (n > 1) {
    int const k = rng.range(1, n - 1);
    B const l = um2::boundingBox(pts.data(), k);
    B const r = um2::boundingBox(pts.data() + k, n - k);
    VH(same(l + r) && same(r + l), "box.union", "D=%d", D);
    bool ov = true;
    for (Int d = 0; d < D; ++d) {
      ov = ov && !(l.maxima(d) < r.minima(d) || r.maxima(d) < l.minima(d));
    }
    VH(l.intersects(r) == ov && r.intersects(l) == ov, "box.overlap", "D=%d", D);
    vh::count(ov ? "overlapping box pairs" : "disjoint box pairs");
  }
  for (int k = 0; k < 6; ++k) {
    P p = rp();
    if (k == 0) {
      p = pts[0];
    }
    bool in = true;
    for (Int d = 0; d < D; ++d) {
      in = in && lo[d] <= p[d] && p[d] <= hi[d];
    }
    VH(box.contains(p) == in, "box.contains", "D=%d", D);
  }
  {
    B s = box;
    T const f = static_cast<T>(rng.uni(0, 3));
    s.scale(f);
    for (Int d = 0; d < D; ++d) {
      LD const c = (static_cast<LD>(lo[d]) + hi[d]) / 2;
      LD const h = (static_cast<LD>(hi[d]) - lo[d]) / 2 * f;
      LD const tol = 8 * eps * (std::fabs(static_cast<LD>(lo[d])) + std::fabs(static_cast<LD>(hi[d])) + h);
      VH(std::fabs(s.minima(d) - (c - h)) <= tol && std::fabs(s.maxima(d) - (c + h)) <= tol, "box.scale", "D=%d f=%g", D, static_cast<double>(f));
    }
  }
  VH(box.isApprox(box), "box.approx", "D=%d", D);
  // rays
  if constexpr (D >= 2) {
    for (int k = 0; k < 6; ++k) {
      P o = rp();
      if (rng.chance(0.5)) {
        for (Int d = 0; d < D; ++d) {
          o[d] = static_cast<T>(rng.uni(-3, 3)) * sc;
        }
      }
      P dir;
      if (rng.chance(0.3)) {
        dir = P::zero();
        dir[static_cast<Int>(rng.range(0, D - 1))] = static_cast<T>(rng.sign());
        if (rng.chance(0.5)) {
          for (Int d = 0; d < D; ++d) {
            dir[d] = dir[d] == 0 ? static_cast<T>(-0.0) : dir[d];
          }
        }
      } else {
        LD v[3];
        LD s = 0;
        // mostly aimed at a point near the box so that many rays hit
        for (Int d = 0; d < D; ++d) {
          LD const target = rng.chance(0.6) ? static_cast<LD>(lo[d]) + (static_cast<LD>(hi[d]) - lo[d]) * rng.uni(-0.2, 1.2) : static_cast<LD>(coord());
          v[d] = target - o[d] + 1e-3L * sc * rng.uni(-1, 1);
          if (rng.chance(0.1)) {
            v[d] = 0;
          }
          s += v[d] * v[d];
        }
        if (s == 0) {
          continue;
        }
        for (Int d = 0; d < D; ++d) {
          dir[d] = static_cast<T>(v[d] / std::sqrt(s));
        }
      }
      um2::Ray<D, T> const ray(o, dir);
      LD t0 = 0;
      LD t1 = std::numeric_limits<LD>::infinity();
      bool edge = false;
      LD biggest = 0;
      for (Int d = 0; d < D; ++d) {
        if (dir[d] == 0) {
          if (o[d] < lo[d] || o[d] > hi[d]) {
            t1 = -1;
            t0 = 0;
            biggest = 0;
            edge = true;
            break;
          }
          edge = edge || o[d] == lo[d] || o[d] == hi[d];
          continue;
        }
        LD const a = (static_cast<LD>(lo[d]) - o[d]) / dir[d];
        LD const b = (static_cast<LD>(hi[d]) - o[d]) / dir[d];
        t0 = std::max(t0, std::min(a, b));
        t1 = std::min(t1, std::max(a, b));
        biggest = std::max({biggest, std::fabs(a), std::fabs(b)});
      }
      LD const tol = 8 * eps * std::max(std::fabs(t0), std::fabs(t1));
      auto const h = box.intersect(ray);
      auto const h2 = box.intersect(ray, ray.inverseDirection());
      VH(h[0] == h2[0] && h[1] == h2[1], "box.ray_precomputed", "D=%d", D);
      bool const miss = h[0] == -1 && h[1] == -1;
      bool const right = std::fabs(h[0] - t0) <= tol && std::fabs(h[1] - t1) <= tol;
      std::string const d = vh::fmt("D=%d o=(%.9g %.9g) d=(%.9g %.9g) box x[%.9g %.9g] y[%.9g %.9g] got %.9g %.9g expected %Lg %Lg", D, (double)o[0], (double)o[1], (double)dir[0], (double)dir[1],
                                    (double)lo[0], (double)hi[0], (double)lo[1], (double)hi[1], (double)h[0], (double)h[1], t0, t1);
      if (edge) {
        VH(t1 - t0 > tol ? right : t1 - t0 < -tol ? miss : (miss || right), "box.ray_on_boundary", "%s", d.c_str());
        vh::count(miss ? "rays along a side reported as miss" : "rays along a side reported as hit");
      } else if (t1 - t0 > tol) {
        VH(right, "box.ray_hit", "%s", d.c_str());
        vh::count("rays hitting");
        vh::nontrivial(vh::hashStr(d));
      } else if (t1 - t0 < -tol) {
        VH(miss, "box.ray_miss", "%s", d.c_str());
        vh::count("rays missing");
      } else {
        VH(miss || right, "box.ray_graze", "%s", d.c_str());
      }
    }
  }
}

template <class T>
static void
edges(vh::Rng & rng)
{
  LD const eps = std::numeric_limits<T>::epsilon();
  Frame const fr = randFrame(rng, 1e-3, 1e3);
  std::string kind;
  P2 const mid = randMid(rng, kind);
  um2::Point2<T> const a = pt<T>(fr({0, 0}));
  um2::Point2<T> const b = pt<T>(fr({1, 0}));
  um2::Point2<T> const c = pt<T>(fr(mid));
  um2::QuadraticSegment2<T> const q(a, b, c);
  Edge const e = ref(q);
  LD x0;
  LD x1;
  LD y0;
  LD y1;
  e.extrema(x0, x1, y0, y1);
  auto const bb = q.boundingBox();
  LD const tol = 32 * eps * (e.mag() + e.size());
  std::string const d = vh::fmt("%s edge (%.9g %.9g) (%.9g %.9g) (%.9g %.9g)", kind.c_str(), (double)a[0], (double)a[1], (double)b[0], (double)b[1], (double)c[0], (double)c[1]);
  VH(std::fabs(bb.minima(0) - x0) <= tol && std::fabs(bb.maxima(0) - x1) <= tol && std::fabs(bb.minima(1) - y0) <= tol && std::fabs(bb.maxima(1) - y1) <= tol, "box.of_curved_edge",
     "%s: box x[%.9g %.9g] y[%.9g %.9g] expected x[%.9Lg %.9Lg] y[%.9Lg %.9Lg]", d.c_str(), (double)bb.minima(0), (double)bb.maxima(0), (double)bb.minima(1), (double)bb.maxima(1), x0, x1, y0, y1);
  if (x0 < std::min(e.a.x, e.b.x) - tol || x1 > std::max(e.a.x, e.b.x) + tol || y0 < std::min(e.a.y, e.b.y) - tol || y1 > std::max(e.a.y, e.b.y) + tol) {
    vh::count("edges bulging past their end points");
  }
  vh::count("edge " + kind);
  vh::nontrivial(vh::hashStr(d));
  vh::sample(d);
  // 3D edge: each coordinate is an independent parabola
  um2::Point<3, T> v[3];
  for (auto & p : v) {
    for (Int k = 0; k < 3; ++k) {
      p[k] = static_cast<T>(fr.scale * rng.uni(-1, 1));
    }
  }
  um2::QuadraticSegment<3, T> const q3(v[0], v[1], v[2]);
  auto const b3 = q3.boundingBox();
  auto const l3 = um2::LineSegment<3, T>(v[0], v[1]).boundingBox();
  auto const t3 = um2::Triangle<3, T>(v[0], v[1], v[2]).boundingBox();
  for (Int k = 0; k < 3; ++k) {
    Edge const ek(P2{v[0][k], 0}, P2{v[1][k], 0}, P2{v[2][k], 0});
    ek.extrema(x0, x1, y0, y1);
    VH(std::fabs(b3.minima(k) - x0) <= 64 * eps * fr.scale && std::fabs(b3.maxima(k) - x1) <= 64 * eps * fr.scale, "box.of_curved_edge3", "axis %d", k);
    VH(l3.minima(k) == std::min(v[0][k], v[1][k]) && l3.maxima(k) == std::max(v[0][k], v[1][k]), "box.of_segment3", "axis %d", k);
    VH(t3.minima(k) == std::min({v[0][k], v[1][k], v[2][k]}) && t3.maxima(k) == std::max({v[0][k], v[1][k], v[2][k]}), "box.of_triangle3", "axis %d", k);
  }
}

template <class T, class Poly>
static void
face(Poly const & p, char const * name)
{
  LD const eps = std::numeric_limits<T>::epsilon();
  Face const f = refFace(p);
  LD X0 = 0;
  LD X1 = 0;
  LD Y0 = 0;
  LD Y1 = 0;
  for (size_t i = 0; i < f.e.size(); ++i) {
    LD x0;
    LD x1;
    LD y0;
    LD y1;
    f.e[i].extrema(x0, x1, y0, y1);
    X0 = i == 0 ? x0 : std::min(X0, x0);
    X1 = i == 0 ? x1 : std::max(X1, x1);
    Y0 = i == 0 ? y0 : std::min(Y0, y0);
    Y1 = i == 0 ? y1 : std::max(Y1, y1);
  }
  auto const bb = p.boundingBox();
  LD const tol = 64 * eps * (f.mag() + f.size());
  VH(std::fabs(bb.minima(0) - X0) <= tol && std::fabs(bb.maxima(0) - X1) <= tol && std::fabs(bb.minima(1) - Y0) <= tol && std::fabs(bb.maxima(1) - Y1) <= tol, std::string("box.of_") + name,
     "box x[%.9g %.9g] y[%.9g %.9g] expected x[%.9Lg %.9Lg] y[%.9Lg %.9Lg]", (double)bb.minima(0), (double)bb.maxima(0), (double)bb.minima(1), (double)bb.maxima(1), X0, X1, Y0, Y1);
  vh::count(std::string("faces ") + name);
}

template <class T>
static void
faces(vh::Rng & rng)
{
  Frame const fr = randFrame(rng, 1e-2, 1e2);
  um2::Point2<T> v[8];
  P2 const base3[3] = {{0, 0}, {1, 0}, {0, 1}};
  P2 const base4[4] = {{0, 0}, {1, 0}, {1, 1}, {0, 1}};
  auto jit = [&](P2 p, double s) { return pt<T>(fr({p.x + s * rng.uni(-1, 1), p.y + s * rng.uni(-1, 1)})); };
  for (int i = 0; i < 3; ++i) {
    v[i] = jit(base3[i], 0.2);
  }
  for (int i = 0; i < 3; ++i) {
    P2 const m = 0.5L * (base3[i] + base3[(i + 1) % 3]);
    v[3 + i] = jit(m, 0.2);
  }
  face<T>(um2::Triangle2<T>(v[0], v[1], v[2]), "triangle");
  face<T>(um2::QuadraticTriangle2<T>(v[0], v[1], v[2], v[3], v[4], v[5]), "curved_triangle");
  for (int i = 0; i < 4; ++i) {
    v[i] = jit(base4[i], 0.2);
  }
  for (int i = 0; i < 4; ++i) {
    P2 const m = 0.5L * (base4[i] + base4[(i + 1) % 4]);
    v[4 + i] = jit(m, 0.2);
  }
  face<T>(um2::Quadrilateral2<T>(v[0], v[1], v[2], v[3]), "quad");
  face<T>(um2::QuadraticQuadrilateral2<T>(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7]), "curved_quad");
}

int
main(int argc, char ** argv)
{
  return vh::run(argc, argv, "box", [](vh::Rng & rng, uint64_t i) {
    boxes<1, double>(rng);
    boxes<2, double>(rng);
    boxes<3, double>(rng);
    boxes<2, float>(rng);
    boxes<3, float>(rng);
    if (i % 2 == 0) {
      edges<double>(rng);
      faces<double>(rng);
    } else {
      edges<float>(rng);
      faces<float>(rng);
    }
  });
}
