#pragma once
// Random conforming meshes of the four face types together with their reference geometry.
#include "refgeom.hpp"

#include <um2/mesh/face_vertex_mesh.hpp>
#include <um2/mesh/polytope_soup.hpp>

#include <map>
#include <string>
#include <utility>

struct GMesh {
  int k = 3;           // corners per face
  bool curved = false; // with mid-edge vertices
  std::vector<P2> v;
  std::vector<std::vector<int>> f;
  std::string kind;
  LD x0 = 0, y0 = 0, x1 = 0, y1 = 0; // corners of the covered rectangle when unrotated

  int n() const { return curved ? 2 * k : k; }
  Face face(size_t i) const
  {
    std::vector<P2> p;
    for (int const j : f[i]) {
      p.push_back(v[(size_t)j]);
    }
    return makeFace(p, k);
  }
  LD size() const
  {
    LD m = 0;
    for (auto const & p : v) {
      m = std::max(m, len(p - v[0]));
    }
    return m;
  }
  LD mag() const
  {
    LD m = 0;
    for (auto const & p : v) {
      m = std::max({m, std::fabs(p.x), std::fabs(p.y)});
    }
    return m;
  }
  LD area() const
  {
    LD s = 0;
    for (size_t i = 0; i < f.size(); ++i) {
      s += face(i).area();
    }
    return s;
  }
  // the boundary as a face with many edges (edges used by one face only, in order)
  std::vector<Edge> boundary() const
  {
    std::map<std::pair<int, int>, Edge> once;
    for (size_t i = 0; i < f.size(); ++i) {
      for (int j = 0; j < k; ++j) {
        int const a = f[i][(size_t)j];
        int const b = f[i][(size_t)((j + 1) % k)];
        auto it = once.find({b, a});
        if (it != once.end()) {
          once.erase(it);
        } else if (curved) {
          once.emplace(std::make_pair(a, b), Edge(v[(size_t)a], v[(size_t)b], v[(size_t)f[i][(size_t)(k + j)]]));
        } else {
          once.emplace(std::make_pair(a, b), Edge(v[(size_t)a], v[(size_t)b]));
        }
      }
    }
    std::vector<Edge> r;
    for (auto const & o : once) {
      r.push_back(o.second);
    }
    return r;
  }
};

struct GOpts {
  int k = 3;
  bool curved = false;
  int nmax = 6;        // cells per direction
  bool shuffle = true; // random vertex and face numbering, random first corner
  bool flat_boundary = false; // outer boundary exactly the rectangle (also not rotated)
  double slo = 1e-1, shi = 1e2;
  double offset = 20; // largest distance from the origin in multiples of the size
  double maxbulge = 0.12;
};

inline bool
strictlyConvex(std::vector<P2> const & p, LD margin)
{
  size_t const k = p.size();
  for (size_t i = 0; i < k; ++i) {
    P2 const a = p[i];
    P2 const b = p[(i + 1) % k];
    P2 const c = p[(i + 2) % k];
    if (cross(b - a, c - b) < margin * len(b - a) * len(c - b)) {
      return false;
    }
  }
  return true;
}

// All coordinates are rounded to the mesh precision, so the reference is exact.
inline GMesh
randMesh(vh::Rng & rng, GOpts const & o)
{
  GMesh m;
  m.k = o.k;
  m.curved = o.curved;
  for (;;) {
    m.v.clear();
    m.f.clear();
    int const nx = rng.range(1, o.nmax);
    int const ny = rng.range(1, o.nmax);
    bool const uniform = rng.chance(0.3);
    std::vector<LD> xs{0}, ys{0};
    for (int i = 0; i < nx; ++i) {
      xs.push_back(xs.back() + (uniform ? 1.0 : rng.uni(0.4, 1.6)));
    }
    for (int i = 0; i < ny; ++i) {
      ys.push_back(ys.back() + (uniform ? 1.0 : rng.uni(0.4, 1.6)));
    }
    double const jit = rng.pick(std::vector<double>{0, 0.05, 0.15, 0.25});
    Frame fr;
    fr.scale = rng.logu(o.slo, o.shi);
    if (!o.flat_boundary && rng.chance(0.5)) {
      fr.angle = rng.uni(0, 6.28);
    }
    if (o.offset > 0 && rng.chance(0.7)) {
      LD const d = static_cast<LD>(rng.logu(0.1, o.offset)) * fr.scale;
      fr.shift = {d * rng.uni(-1, 1), d * rng.uni(-1, 1)};
    }
    auto id = [&](int i, int j) { return i + j * (nx + 1); };
    auto place = [&](P2 p) {
      P2 const q = fr(p);
      return P2{static_cast<LD>(static_cast<Float>(q.x)), static_cast<LD>(static_cast<Float>(q.y))};
    };
    for (int j = 0; j <= ny; ++j) {
      for (int i = 0; i <= nx; ++i) {
        P2 p{xs[(size_t)i], ys[(size_t)j]};
        bool const bx = i == 0 || i == nx;
        bool const by = j == 0 || j == ny;
        LD const jx = 0.4L * jit * rng.uni(-1, 1);
        LD const jy = 0.4L * jit * rng.uni(-1, 1);
        if (!(o.flat_boundary && bx)) {
          p.x += jx;
        }
        if (!(o.flat_boundary && by)) {
          p.y += jy;
        }
        m.v.push_back(place(p));
      }
    }
    std::map<std::pair<int, int>, int> mids;
    double const bulge = rng.chance(0.2) ? 0 : rng.uni(0, o.maxbulge);
    auto mid = [&](int a, int b) {
      auto const key = std::make_pair(std::min(a, b), std::max(a, b));
      auto it = mids.find(key);
      if (it != mids.end()) {
        return it->second;
      }
      P2 const pa = m.v[(size_t)key.first];
      P2 const pb = m.v[(size_t)key.second];
      P2 const t = pb - pa;
      int const ai = key.first % (nx + 1), aj = key.first / (nx + 1);
      int const bi = key.second % (nx + 1), bj = key.second / (nx + 1);
      bool const onb = (ai == bi && (ai == 0 || ai == nx)) || (aj == bj && (aj == 0 || aj == ny));
      LD const s = (o.flat_boundary && onb) || rng.chance(0.2) ? 0 : rng.uni(-bulge, bulge);
      LD const al = rng.chance(0.6) ? 0 : rng.uni(-0.04, 0.04);
      P2 const q = 0.5L * (pa + pb) + s * P2{t.y, -t.x} + al * t;
      m.v.push_back({static_cast<LD>(static_cast<Float>(q.x)), static_cast<LD>(static_cast<Float>(q.y))});
      int const r = static_cast<int>(m.v.size()) - 1;
      mids[key] = r;
      return r;
    };
    for (int j = 0; j < ny; ++j) {
      for (int i = 0; i < nx; ++i) {
        int const c[4] = {id(i, j), id(i + 1, j), id(i + 1, j + 1), id(i, j + 1)};
        if (o.k == 4) {
          m.f.push_back({c[0], c[1], c[2], c[3]});
        } else if (rng.chance(0.5)) {
          m.f.push_back({c[0], c[1], c[2]});
          m.f.push_back({c[2], c[3], c[0]});
        } else {
          m.f.push_back({c[1], c[2], c[3]});
          m.f.push_back({c[3], c[0], c[1]});
        }
      }
    }
    bool ok = true;
    for (auto & f : m.f) {
      std::vector<P2> p;
      for (int const q : f) {
        p.push_back(m.v[(size_t)q]);
      }
      ok = ok && strictlyConvex(p, 0.15L);
      if (o.curved) {
        for (int q = 0; q < o.k; ++q) {
          f.push_back(mid(f[(size_t)q], f[(size_t)((q + 1) % o.k)]));
        }
        // tangents at each corner keep the corner convex, with or without the neighbour's bulge
        for (int q = 0; q < o.k && ok; ++q) {
          auto const & P = m.v;
          int const q1 = (q + 1) % o.k;
          Edge const e(P[(size_t)f[(size_t)q]], P[(size_t)f[(size_t)q1]], P[(size_t)f[(size_t)(o.k + q)]]);
          int const q2 = (q + 2) % o.k;
          Edge const g(P[(size_t)f[(size_t)q1]], P[(size_t)f[(size_t)q2]], P[(size_t)f[(size_t)(o.k + q1)]]);
          P2 const in[2] = {e.d(1), e.b - e.a};
          P2 const out[2] = {g.d(0), g.b - g.a};
          for (auto const & a : in) {
            for (auto const & b : out) {
              ok = ok && cross(a, b) > 0.1L * len(a) * len(b);
            }
          }
        }
      }
    }
    if (!ok) {
      continue;
    }
    m.kind = vh::fmt("%s%dx%d jitter=%.2f bulge=%.3f", uniform ? "uniform " : "", nx, ny, jit, bulge);
    if (o.flat_boundary) {
      P2 const a = m.v[(size_t)id(0, 0)];
      P2 const b = m.v[(size_t)id(nx, ny)];
      m.x0 = a.x, m.y0 = a.y, m.x1 = b.x, m.y1 = b.y;
    }
    break;
  }
  if (o.shuffle && rng.chance(0.8)) {
    std::vector<int> perm(m.v.size());
    for (size_t i = 0; i < perm.size(); ++i) {
      perm[i] = (int)i;
    }
    rng.shuffle(perm);
    std::vector<P2> v(m.v.size());
    for (size_t i = 0; i < perm.size(); ++i) {
      v[(size_t)perm[i]] = m.v[i];
    }
    m.v = v;
    for (auto & f : m.f) {
      for (auto & j : f) {
        j = perm[(size_t)j];
      }
      // random first corner
      int const r = rng.range(0, m.k - 1);
      std::vector<int> g(f.size());
      for (int q = 0; q < m.k; ++q) {
        g[(size_t)q] = f[(size_t)((q + r) % m.k)];
        if (m.curved) {
          g[(size_t)(m.k + q)] = f[(size_t)(m.k + (q + r) % m.k)];
        }
      }
      f = g;
    }
    rng.shuffle(m.f);
  }
  return m;
}

template <Int P, Int N>
inline void
vertsAndFaces(GMesh const & g, um2::Vector<um2::Point2F> & v, um2::Vector<um2::Vec<N, Int>> & f)
{
  for (auto const & p : g.v) {
    v.emplace_back(static_cast<Float>(p.x), static_cast<Float>(p.y));
  }
  for (auto const & c : g.f) {
    um2::Vec<N, Int> q;
    for (Int i = 0; i < N; ++i) {
      q[i] = c[(size_t)i];
    }
    f.emplace_back(q);
  }
}

template <Int P, Int N>
inline um2::FaceVertexMesh<P, N>
toFVM(GMesh const & g)
{
  um2::Vector<um2::Point2F> v;
  um2::Vector<um2::Vec<N, Int>> f;
  vertsAndFaces<P, N>(g, v, f);
  return um2::FaceVertexMesh<P, N>(v, f);
}

inline um2::VTKElemType
vtkType(GMesh const & g)
{
  if (g.k == 3) {
    return g.curved ? um2::VTKElemType::QuadraticTriangle : um2::VTKElemType::Triangle;
  }
  return g.curved ? um2::VTKElemType::QuadraticQuad : um2::VTKElemType::Quad;
}

inline void
addToSoup(um2::PolytopeSoup & s, GMesh const & g)
{
  Int const base = s.numVertices();
  for (auto const & p : g.v) {
    s.addVertex(static_cast<Float>(p.x), static_cast<Float>(p.y));
  }
  um2::Vector<Int> conn(g.n());
  for (auto const & c : g.f) {
    for (int i = 0; i < g.n(); ++i) {
      conn[i] = base + c[(size_t)i];
    }
    s.addElement(vtkType(g), conn);
  }
}

// call fn.template operator()<P, N>() for the face type of g
template <class F>
inline void
dispatch(GMesh const & g, F && fn)
{
  if (g.k == 3) {
    if (g.curved) {
      fn.template operator()<2, 6>();
    } else {
      fn.template operator()<1, 3>();
    }
  } else if (g.curved) {
    fn.template operator()<2, 8>();
  } else {
    fn.template operator()<1, 4>();
  }
}
