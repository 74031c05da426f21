// C18: conversions and renumberings of meshes keep faces, vertices and connectivity.
#include "meshgen.hpp"
#include "vh.hpp"

#include <um2/common/logger.hpp>

#include <algorithm>

using Shape = std::vector<std::pair<Float, Float>>;

// A face as a geometric object: its corners from the smallest one on, then its mid-edge points.
static Shape
canon(Shape const & p, int k)
{
  size_t best = 0;
  for (size_t i = 1; i < (size_t)k; ++i) {
    if (p[i] < p[best]) {
      best = i;
    }
  }
  Shape r;
  for (size_t i = 0; i < (size_t)k; ++i) {
    r.push_back(p[(best + i) % (size_t)k]);
  }
  for (size_t i = (size_t)k; i < p.size(); ++i) {
    r.push_back(p[(size_t)k + (best + i) % (size_t)k]);
  }
  return r;
}

static uint64_t
interleave(double x, double y)
{
  auto q = [](double v) { return static_cast<uint64_t>(std::clamp(v, 0.0, 1.0) * 65535.0); };
  uint64_t const a = q(x);
  uint64_t const b = q(y);
  uint64_t r = 0;
  for (int i = 0; i < 16; ++i) {
    r |= ((a >> i) & 1U) << (2 * i);
    r |= ((b >> i) & 1U) << (2 * i + 1);
  }
  return r;
}

// points in the order of a Z curve over the box, up to rounding
static void
ordered(std::vector<P2> const & pts, LD x0, LD y0, LD w, LD h, std::string const & key, std::string const & d)
{
  double const tol = sizeof(Float) == 4 ? 1e-4 : 3e-6;
  uint64_t top = 0; // the largest of the smallest codes seen so far
  for (size_t i = 0; i < pts.size(); ++i) {
    double const x = (double)((pts[i].x - x0) / w);
    double const y = (double)((pts[i].y - y0) / h);
    uint64_t const hi = interleave(x + tol, y + tol);
    uint64_t const lo = interleave(x - tol, y - tol);
    VH(hi >= top, key, "%s: item %zu of %zu is out of order", d.c_str(), i, pts.size());
    if (hi < top) {
      return;
    }
    top = std::max(top, lo);
  }
}

template <Int P, Int N>
static void
checkMesh(um2::FaceVertexMesh<P, N> const & m, GMesh const & g, std::vector<Shape> const & shapes, std::vector<std::pair<Float, Float>> const & verts, std::string const & d)
{
  VH(m.numVertices() == (Int)g.v.size() && m.numFaces() == (Int)g.f.size(), "counts", "%s: %d vertices %d faces expected %zu %zu", d.c_str(), m.numVertices(), m.numFaces(), g.v.size(), g.f.size());
  if (m.numVertices() != (Int)g.v.size() || m.numFaces() != (Int)g.f.size()) {
    return;
  }
  std::vector<std::pair<Float, Float>> v;
  for (Int i = 0; i < m.numVertices(); ++i) {
    auto const p = m.getVertex(i);
    v.emplace_back(p[0], p[1]);
  }
  std::sort(v.begin(), v.end());
  VH(v == verts, "vertices", "%s: the set of vertices changed", d.c_str());
  std::vector<Shape> s;
  for (Int i = 0; i < m.numFaces(); ++i) {
    auto const f = m.getFace(i);
    Shape p;
    for (Int j = 0; j < N; ++j) {
      p.emplace_back(f[j][0], f[j][1]);
      auto const q = m.getVertex(m.getFaceConn(i)[j]);
      VH(q[0] == f[j][0] && q[1] == f[j][1], "face_accessor", "%s: face %d node %d", d.c_str(), i, j);
    }
    // edges of the face are the pieces of its boundary
    for (int j = 0; j < g.k; ++j) {
      auto const e = m.getEdge(i, j);
      auto const ec = m.getEdgeConn(i, j);
      Int const a = m.getFaceConn(i)[j];
      Int const b = m.getFaceConn(i)[(j + 1) % g.k];
      VH(ec[0] == a && ec[1] == b && (P == 1 || ec[P] == m.getFaceConn(i)[g.k + (P == 1 ? 0 : j)]), "edge_conn", "%s: face %d edge %d", d.c_str(), i, j);
      for (Int q = 0; q < P + 1; ++q) {
        auto const w = m.getVertex(ec[q]);
        VH(e[q][0] == w[0] && e[q][1] == w[1], "edge", "%s: face %d edge %d node %d", d.c_str(), i, j, q);
      }
    }
    s.push_back(canon(p, g.k));
  }
  std::sort(s.begin(), s.end());
  VH(s == shapes, "faces", "%s: the set of faces changed", d.c_str());
}

template <Int P, Int N>
static void
checkVF(um2::FaceVertexMesh<P, N> const & m, std::string const & d)
{
  auto const & off = m.vertexFaceOffsets();
  auto const & vf = m.vertexFaceConn();
  VH(off.size() == m.numVertices() + 1, "vf.offsets", "%s: %d offsets for %d vertices", d.c_str(), off.size(), m.numVertices());
  if (off.size() != m.numVertices() + 1) {
    return;
  }
  std::vector<std::vector<Int>> want((size_t)m.numVertices());
  for (Int i = 0; i < m.numFaces(); ++i) {
    for (Int j = 0; j < N; ++j) {
      want[(size_t)m.getFaceConn(i)[j]].push_back(i);
    }
  }
  VH(off[0] == 0 && off[m.numVertices()] == vf.size(), "vf.offsets", "%s: last offset %d of %d", d.c_str(), off[m.numVertices()], vf.size());
  for (Int i = 0; i < m.numVertices(); ++i) {
    std::vector<Int> got;
    for (Int j = off[i]; j < off[i + 1] && j >= 0 && j < vf.size(); ++j) {
      got.push_back(vf[j]);
    }
    std::sort(got.begin(), got.end());
    VH(got == want[(size_t)i], "vf.lists", "%s: vertex %d lists %zu faces, %zu use it", d.c_str(), i, got.size(), want[(size_t)i].size());
  }
  vh::count("vertex-face lists");
}

template <Int P, Int N>
static void
history(vh::Rng & rng, GMesh const & g)
{
  std::vector<Shape> shapes;
  std::vector<std::pair<Float, Float>> verts;
  LD x0 = 1e300L, y0 = 1e300L, x1 = -1e300L, y1 = -1e300L;
  for (auto const & p : g.v) {
    verts.emplace_back(static_cast<Float>(p.x), static_cast<Float>(p.y));
  }
  std::sort(verts.begin(), verts.end());
  for (size_t i = 0; i < g.f.size(); ++i) {
    Shape s;
    for (int const j : g.f[i]) {
      s.emplace_back(static_cast<Float>(g.v[(size_t)j].x), static_cast<Float>(g.v[(size_t)j].y));
    }
    shapes.push_back(canon(s, g.k));
    Face const f = g.face(i);
    for (auto const & e : f.e) {
      for (int q = 0; q <= 64; ++q) {
        P2 const p = e(q / 64.0L);
        x0 = std::min(x0, p.x), x1 = std::max(x1, p.x);
        y0 = std::min(y0, p.y), y1 = std::max(y1, p.y);
      }
    }
  }
  std::sort(shapes.begin(), shapes.end());
  um2::FaceVertexMesh<P, N> m = toFVM<P, N>(g);
  std::string d = g.kind + vh::fmt(" type <%d,%d> at (%.3Lg %.3Lg) size %.3Lg:", P, N, g.v[0].x, g.v[0].y, g.size());
  checkMesh<P, N>(m, g, shapes, verts, d + " construct");
  int const steps = rng.range(1, 6);
  bool vf = false;
  for (int st = 0; st < steps; ++st) {
    bool vsorted = false;
    bool fsorted = false;
    switch (rng.range(0, 5)) {
    case 0:
      d += " mortonSort";
      m.mortonSort();
      vsorted = fsorted = true;
      if (vf) {
        checkVF<P, N>(m, d);
        vh::count("lists kept through a renumbering");
      }
      break;
    case 1:
      d += " mortonSortFaces";
      m.mortonSortFaces();
      fsorted = true;
      vf = false;
      break;
    case 2:
      d += " mortonSortVertices";
      m.mortonSortVertices();
      vsorted = true;
      vf = false;
      break;
    case 3:
      d += " populateVF";
      m.populateVF();
      vf = true;
      checkVF<P, N>(m, d);
      break;
    case 4: {
      d += " viaSoup";
      um2::PolytopeSoup const s = m;
      VH(s.numVertices() == m.numVertices() && s.numElements() == m.numFaces() && s.numElsets() == 0, "soup.counts", "%s", d.c_str());
      if (s.numVertices() != m.numVertices() || s.numElements() != m.numFaces()) {
        return;
      }
      for (Int i = 0; i < s.numVertices(); ++i) {
        auto const p = s.getVertex(i);
        VH(p[0] == m.getVertex(i)[0] && p[1] == m.getVertex(i)[1] && p[2] == 0, "soup.vertex", "%s: vertex %d", d.c_str(), i);
      }
      um2::Vector<Int> conn;
      for (Int i = 0; i < s.numElements(); ++i) {
        um2::VTKElemType t{};
        s.getElement(i, t, conn);
        bool same = t == vtkType(g) && conn.size() == N;
        for (Int j = 0; j < N && same; ++j) {
          same = conn[j] == m.getFaceConn(i)[j];
        }
        VH(same, "soup.element", "%s: element %d", d.c_str(), i);
      }
      um2::FaceVertexMesh<P, N> const b(s, rng.chance(0.5));
      bool same = b.numVertices() == m.numVertices() && b.numFaces() == m.numFaces();
      for (Int i = 0; i < m.numFaces() && same; ++i) {
        for (Int j = 0; j < N; ++j) {
          same = same && b.getFaceConn(i)[j] == m.getFaceConn(i)[j];
        }
      }
      VH(same, "soup.back", "%s: numbering changed", d.c_str());
      m = b;
      vf = false;
      break;
    }
    default: {
      d += " viaLiftedSoup";
      um2::PolytopeSoup s = m;
      um2::PolytopeSoup lifted;
      bool const warped = rng.chance(0.5);
      double const z = rng.uni(-5, 5);
      um2::Vector<Int> conn;
      for (Int i = 0; i < s.numVertices(); ++i) {
        auto const p = s.getVertex(i);
        lifted.addVertex(p[0], p[1], static_cast<Float>(warped ? rng.uni(-1, 1) : z));
      }
      for (Int i = 0; i < s.numElements(); ++i) {
        um2::VTKElemType t{};
        s.getElement(i, t, conn);
        lifted.addElement(t, conn);
      }
      m = um2::FaceVertexMesh<P, N>(lifted, false);
      vh::count(warped ? "projected meshes" : "lifted meshes");
      vf = false;
      break;
    }
    }
    checkMesh<P, N>(m, g, shapes, verts, d);
    if (vsorted) {
      std::vector<P2> p;
      for (Int i = 0; i < m.numVertices(); ++i) {
        p.push_back({(LD)m.getVertex(i)[0], (LD)m.getVertex(i)[1]});
      }
      ordered(p, x0, y0, x1 - x0, y1 - y0, "order.vertices", d);
      vh::count("vertex renumberings");
    }
    if (fsorted) {
      std::vector<P2> p;
      for (Int i = 0; i < m.numFaces(); ++i) {
        std::vector<P2> q;
        auto const f = m.getFace(i);
        for (Int j = 0; j < N; ++j) {
          q.push_back({(LD)f[j][0], (LD)f[j][1]});
        }
        p.push_back(makeFace(q, g.k).centroid());
      }
      ordered(p, x0, y0, x1 - x0, y1 - y0, "order.faces", d);
      vh::count("face renumberings");
    }
  }
  if (g.f.size() > 2) {
    vh::nontrivial(vh::hashStr(d));
    vh::sample(d);
  }
}

int
main(int argc, char ** argv)
{
  um2::logger::level = um2::logger::levels::off;
  um2::logger::exit_on_error = false;
  return vh::run(argc, argv, "convert", [](vh::Rng & rng, uint64_t) {
    GOpts o;
    o.k = rng.chance(0.5) ? 3 : 4;
    o.curved = rng.chance(0.5);
    o.nmax = rng.chance(0.1) ? 12 : 4;
    o.offset = rng.pick(std::vector<double>{0, 2, 20, 1000});
    GMesh const g = randMesh(rng, o);
    dispatch(g, [&]<Int P, Int N>() { history<P, N>(rng, g); });
    vh::count(vh::fmt("meshes of %d-node faces", g.n()));
  });
}
