// C12: point containment in faces and point location in meshes against winding numbers.
#include "meshgen.hpp"

static std::string
facePoints(Face const & f)
{
  std::string d;
  for (auto const & e : f.e) {
    d += vh::fmt(" (%.17Lg %.17Lg | %.17Lg %.17Lg)", e.a.x, e.a.y, e.c.x, e.c.y);
  }
  return d;
}

// A query point around face f; far says how it was made.
static P2
query(vh::Rng & rng, Face const & f, std::string & how)
{
  LD const s = f.size();
  auto const & e = f.e[rng.next() % f.e.size()];
  switch (rng.range(0, 6)) {
  case 0:
    how = "inside box";
    return e.a + s * P2{rng.uni(-1, 1), rng.uni(-1, 1)};
  case 1: {
    how = "near an edge";
    P2 const q = e(rng.uni(0, 1));
    return q + (s * rng.logu(1e-9, 0.1)) * rot({1, 0}, rng.uni(0, 6.283));
  }
  case 2: { // mixture of corners
    how = "corner mixture";
    LD w = 0;
    P2 p;
    for (auto const & x : f.e) {
      LD const a = rng.u();
      w += a;
      p = p + a * x.a;
    }
    return (1 / w) * p;
  }
  case 3: { // between edge and its chord
    how = "between edge and chord";
    LD const r = rng.uni(0.02, 0.98);
    LD const t = rng.uni(-0.3, 1.3);
    P2 const q = e(r);
    P2 const c = e.a + r * (e.b - e.a);
    return c + t * (q - c);
  }
  case 4:
    how = "on the chord line";
    return e.a + static_cast<LD>(rng.uni(-0.5, 1.5)) * (e.b - e.a);
  case 5:
    how = "near a vertex";
    return (rng.chance(0.5) ? e.a : e.c) + (s * (rng.chance(0.3) ? 0.0 : rng.logu(1e-17, 1e-2))) * rot({1, 0}, rng.uni(0, 6.283));
  default:
    how = "far";
    return e.a + (s * rng.logu(1, 1e4)) * rot({1, 0}, rng.uni(0, 6.283));
  }
}

template <class T, class Poly>
static void
checkFace(vh::Rng & rng, GMesh const & g, char const * name)
{
  LD const eps = std::numeric_limits<T>::epsilon();
  std::string const n(name);
  for (int q = 0; q < 3; ++q) {
    size_t const i = rng.next() % g.f.size();
    Poly p;
    for (Int j = 0; j < Poly::N; ++j) {
      p[j] = pt<T>(g.v[(size_t)g.f[i][(size_t)j]]);
    }
    Face const f = refFace(p);
    LD const tol = 4 * um2::epsDistance<T>() + 256 * eps * (f.mag() + f.size());
    if (f.area() < 100 * tol * f.size()) {
      vh::count("faces too small to judge");
      continue;
    }
    for (int j = 0; j < 12; ++j) {
      std::string how;
      auto const x = pt<T>(query(rng, f, how));
      P2 const rx = ref(x);
      bool const got = p.contains(x);
      LD const d = f.dist(rx);
      // a straightened edge may differ from its parabola by the straightness tolerance
      if (d <= tol + 1e-4L * f.size() * (sizeof(T) == 4 ? 10 : 1)) {
        vh::count("points on the boundary (only safety)");
        continue;
      }
      bool const want = f.winding(rx) != 0;
      vh::count(n + (want ? " inside" : " outside"));
      VH(got == want, n + (want ? ".inside_missed" : ".outside_taken"), "%s %s%s point (%.17g %.17g) %s, distance %.3Lg: contains=%d", sizeof(T) == 8 ? "f64" : "f32", name, facePoints(f).c_str(), (double)x[0], (double)x[1], how.c_str(), d, got);
      vh::nontrivial(vh::mix(rng.s + (uint64_t)j));
      if (q == 0 && j == 0) {
        vh::sample(vh::fmt("%s%s (%.6g %.6g) %s -> %d", name, facePoints(f).c_str(), (double)x[0], (double)x[1], how.c_str(), got));
      }
    }
  }
}

template <Int P, Int N>
static void
checkMesh(vh::Rng & rng, GMesh const & g)
{
  auto const m = toFVM<P, N>(g);
  LD const tol = 4 * um2::epsDistance<Float>() + 1e-13L * (g.mag() + g.size());
  LD const s = g.size();
  for (int j = 0; j < 6; ++j) {
    std::string how;
    size_t const i = rng.next() % g.f.size();
    Face const f0 = g.face(i);
    auto const x = pt<Float>(query(rng, f0, how));
    P2 const rx = ref(x);
    Int const got = m.faceContaining(x);
    LD d = s;
    int want = -1;
    int inside = 0;
    for (size_t q = 0; q < g.f.size(); ++q) {
      Face const f = g.face(q);
      if (len(f.e[0].a - rx) > 3 * f.size()) {
        continue;
      }
      d = std::min(d, f.dist(rx));
      if (d <= tol) {
        break;
      }
      if (f.winding(rx) != 0) {
        want = (int)q;
        ++inside;
      }
    }
    if (d <= tol + 1e-4L * f0.size()) {
      vh::count("points on mesh edges (only safety)");
      VH(got >= -1 && got < m.numFaces(), "mesh.range", "%d", got);
      continue;
    }
    VH(inside <= 1, "harness.tiling", "%d", inside);
    vh::count(want < 0 ? "mesh points outside" : "mesh points inside");
    VH(got == want, "mesh.location", "%s k=%d curved=%d faces=%zu point (%.17g %.17g) %s: face %d expected %d", g.kind.c_str(), g.k, g.curved, g.f.size(), (double)x[0], (double)x[1], how.c_str(), got, want);
  }
}

int
main(int argc, char ** argv)
{
  return vh::run(argc, argv, "contain", [](vh::Rng & rng, uint64_t) {
    GOpts o;
    o.k = rng.range(3, 4);
    o.curved = rng.chance(0.6);
    bool const mesh = rng.chance(0.3);
    o.nmax = mesh ? 5 : 2;
    o.slo = 1e-1;
    GMesh const g = randMesh(rng, o);
    if (mesh) {
      dispatch(g, [&]<Int P, Int N>() { checkMesh<P, N>(rng, g); });
      return;
    }
    bool const d = rng.chance(0.7);
    if (o.k == 3 && !o.curved) {
      d ? checkFace<double, um2::Triangle2<double>>(rng, g, "triangle") : checkFace<float, um2::Triangle2<float>>(rng, g, "triangle");
    } else if (o.k == 4 && !o.curved) {
      d ? checkFace<double, um2::Quadrilateral2<double>>(rng, g, "quad") : checkFace<float, um2::Quadrilateral2<float>>(rng, g, "quad");
    } else if (o.k == 3) {
      d ? checkFace<double, um2::QuadraticTriangle2<double>>(rng, g, "curved_triangle") : checkFace<float, um2::QuadraticTriangle2<float>>(rng, g, "curved_triangle");
    } else {
      d ? checkFace<double, um2::QuadraticQuadrilateral2<double>>(rng, g, "curved_quad") : checkFace<float, um2::QuadraticQuadrilateral2<float>>(rng, g, "curved_quad");
    }
  });
}
