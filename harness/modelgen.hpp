#pragma once
// Random core models together with an explicit description of what they contain.
#include "meshgen.hpp"

#include <um2/mpact/model.hpp>

#include <algorithm>
#include <array>

using Rows = std::vector<std::vector<int>>; // top row first

struct RXs {
  bool fissile = false;
  std::vector<double> a, f, nuf, tr, s;
  std::vector<std::vector<double>> ss; // ss[to][from]: column = from
};

struct RMat {
  std::string name;
  RXs xs;
};

struct RCell {
  Float w = 0, h = 0;
  GMesh g;
  int mesh = -1; // index of the mesh among those of its type
  std::vector<int> mats;
};

struct RAsy {
  std::vector<int> lats;
  std::vector<Float> z;
};

struct Inst { // one placed cell
  int cell = -1, rtm = -1, lat = -1, asy = -1;
  int irtm = -1, ilat = -1, iasy = -1; // which occurrence (unique number per container)
  LD x = 0, y = 0, z = 0, dz = 0;
  std::array<int, 7> path{}; // asy column, row (from the bottom), slice, rtm column, row, cell column, row
};

struct RModel {
  int groups = 1;
  std::vector<RMat> mats;
  std::vector<RCell> cells;
  std::vector<Rows> rtms, lats;
  std::vector<RAsy> asys;
  Rows core;
  Float ux = 1, uy = 1;
  std::array<int, 4> nmesh{}; // tri, quad, tri6, quad8

  std::string str() const
  {
    std::string s = vh::fmt("%zu materials %d groups, %zu cells %zu modules %zu lattices %zu assemblies, core %zux%zu, meshes %d/%d/%d/%d", mats.size(),
                            groups, cells.size(), rtms.size(), lats.size(), asys.size(), core.size(), core[0].size(), nmesh[0], nmesh[1], nmesh[2],
                            nmesh[3]);
    return s;
  }
  std::array<LD, 2> rtmExtent(int r) const
  {
    std::array<LD, 2> e{0, 0};
    for (int const c : rtms[(size_t)r][0]) {
      e[0] += cells[(size_t)c].w;
    }
    for (auto const & row : rtms[(size_t)r]) {
      e[1] += cells[(size_t)row[0]].h;
    }
    return e;
  }
  std::array<LD, 2> latExtent(int l) const
  {
    auto const e = rtmExtent(lats[(size_t)l][0][0]);
    return {e[0] * (LD)lats[(size_t)l][0].size(), e[1] * (LD)lats[(size_t)l].size()};
  }
  std::vector<Inst> instances() const
  {
    std::vector<Inst> r;
    int na = 0, nl = 0, nr = 0;
    LD y0 = 0;
    for (int ai = (int)core.size() - 1; ai >= 0; --ai) {
      LD x0 = 0;
      auto const & crow = core[(size_t)ai];
      for (size_t aj = 0; aj < crow.size(); ++aj) {
        RAsy const & A = asys[(size_t)crow[aj]];
        int const iasy = na++;
        for (size_t s = 0; s < A.lats.size(); ++s) {
          Rows const & L = lats[(size_t)A.lats[s]];
          int const ilat = nl++;
          LD y1 = y0;
          for (int li = (int)L.size() - 1; li >= 0; --li) {
            LD x1 = x0;
            for (size_t lj = 0; lj < L[(size_t)li].size(); ++lj) {
              int const rid = L[(size_t)li][lj];
              Rows const & R = rtms[(size_t)rid];
              int const irtm = nr++;
              LD y2 = y1;
              for (int ri = (int)R.size() - 1; ri >= 0; --ri) {
                LD x2 = x1;
                for (size_t rj = 0; rj < R[(size_t)ri].size(); ++rj) {
                  int const c = R[(size_t)ri][rj];
                  Inst k;
                  k.cell = c;
                  k.rtm = rid;
                  k.lat = A.lats[s];
                  k.asy = crow[aj];
                  k.irtm = irtm;
                  k.ilat = ilat;
                  k.iasy = iasy;
                  k.x = x2;
                  k.y = y2;
                  k.z = (static_cast<LD>(A.z[s]) + static_cast<LD>(A.z[s + 1])) / 2;
                  k.dz = static_cast<LD>(A.z[s + 1]) - static_cast<LD>(A.z[s]);
                  k.path = {(int)aj, (int)core.size() - 1 - ai, (int)s, (int)lj, (int)L.size() - 1 - li, (int)rj, (int)R.size() - 1 - ri};
                  r.push_back(k);
                  x2 += cells[(size_t)c].w;
                }
                y2 += cells[(size_t)R[(size_t)ri][0]].h;
              }
              x1 += rtmExtent(rid)[0];
            }
            y1 += rtmExtent(L[(size_t)li][0])[1];
          }
        }
        x0 += latExtent(A.lats[0])[0];
      }
      y0 += latExtent(asys[(size_t)crow[0]].lats[0])[1];
    }
    return r;
  }
};

struct MOpts {
  int maxCore = 3;  // assemblies per direction
  int maxLat = 3;   // modules per direction
  int maxUnits = 3; // columns/rows per module
  int maxZ = 4;
  int nmax = 3; // faces per direction in a cell
  int maxMats = 6;
  int maxGroups = 7;
  bool unused = false; // also parts that are placed nowhere
  bool pins = true;
  double reuse = 0.6;
  bool curved = true;
};

inline um2::String
umS(std::string const & s)
{
  return um2::String(s.c_str());
}

inline RXs
randXs(vh::Rng & rng, int ng)
{
  RXs x;
  x.fissile = rng.chance(0.5);
  x.ss.assign((size_t)ng, std::vector<double>((size_t)ng, 0));
  for (int g = 0; g < ng; ++g) {
    x.a.push_back(rng.logu(1e-4, 10));
    x.f.push_back(x.fissile ? x.a.back() * rng.u() : 0);
    x.nuf.push_back(x.fissile ? x.f.back() * rng.uni(2, 3) : 0);
    double s = 0;
    for (int t = 0; t < ng; ++t) {
      double const v = rng.chance(0.3) ? 0 : rng.logu(1e-3, 2);
      x.ss[(size_t)t][(size_t)g] = static_cast<double>(static_cast<Float>(v));
    }
    for (int t = 0; t < ng; ++t) {
      s += x.ss[(size_t)t][(size_t)g];
    }
    x.s.push_back(s);
    x.tr.push_back(x.a.back() + s);
  }
  for (auto * v : {&x.a, &x.f, &x.nuf, &x.tr, &x.s}) {
    for (double & d : *v) {
      d = static_cast<double>(static_cast<Float>(d));
    }
  }
  return x;
}

inline um2::XSec
toXSec(RXs const & r)
{
  Int const n = (Int)r.a.size();
  um2::XSec x(n);
  x.isMacro() = true;
  x.isFissile() = r.fissile;
  for (Int g = 0; g < n; ++g) {
    x.a()[g] = static_cast<Float>(r.a[(size_t)g]);
    x.f()[g] = static_cast<Float>(r.f[(size_t)g]);
    x.nuf()[g] = static_cast<Float>(r.nuf[(size_t)g]);
    x.tr()[g] = static_cast<Float>(r.tr[(size_t)g]);
    x.s()[g] = static_cast<Float>(r.s[(size_t)g]);
    for (Int t = 0; t < n; ++t) {
      x.ss()(t, g) = static_cast<Float>(r.ss[(size_t)t][(size_t)g]);
    }
  }
  return x;
}

inline um2::Material
toMaterial(RMat const & r)
{
  um2::Material m;
  m.setName(umS(r.name));
  m.xsec() = toXSec(r.xs);
  return m;
}

// a mesh that fills [0,w]x[0,h]
inline GMesh
cellMesh(vh::Rng & rng, int k, bool curved, int nmax, Float w, Float h)
{
  GOpts o;
  o.k = k;
  o.curved = curved;
  o.nmax = nmax;
  o.flat_boundary = true;
  o.offset = 0;
  o.slo = o.shi = 1;
  o.maxbulge = 0.1;
  GMesh g = randMesh(rng, o);
  LD const W = static_cast<LD>(w), H = static_cast<LD>(h);
  auto fit = [](LD p, LD a, LD b, LD s) {
    LD const q = (p - a) / (b - a) * s;
    if (std::fabs(q) < 1e-9L * s) {
      return LD(0);
    }
    if (std::fabs(q - s) < 1e-9L * s) {
      return s;
    }
    return static_cast<LD>(static_cast<Float>(q));
  };
  for (auto & p : g.v) {
    p = {fit(p.x, g.x0, g.x1, W), fit(p.y, g.y0, g.y1, H)};
  }
  g.x0 = g.y0 = 0;
  g.x1 = W;
  g.y1 = H;
  return g;
}

template <class FVM>
inline GMesh
fromFVM(FVM const & m, int k, bool curved)
{
  GMesh g;
  g.k = k;
  g.curved = curved;
  for (Int i = 0; i < m.numVertices(); ++i) {
    g.v.push_back(ref(m.getVertex(i)));
  }
  for (Int i = 0; i < m.numFaces(); ++i) {
    std::vector<int> f;
    for (Int j = 0; j < g.n(); ++j) {
      f.push_back(m.faceVertexConn()[i][j]);
    }
    g.f.push_back(f);
  }
  return g;
}

inline int
typeIndex(GMesh const & g)
{
  return (g.k == 4 ? 1 : 0) + (g.curved ? 2 : 0);
}

inline um2::MeshType
meshType(GMesh const & g)
{
  return g.k == 3 ? (g.curved ? um2::MeshType::QuadraticTri : um2::MeshType::Tri) : (g.curved ? um2::MeshType::QuadraticQuad : um2::MeshType::Quad);
}

inline um2::Vector<um2::Vector<Int>>
toRows(Rows const & r)
{
  um2::Vector<um2::Vector<Int>> v;
  for (auto const & row : r) {
    um2::Vector<Int> w;
    for (int const i : row) {
      w.emplace_back(i);
    }
    v.push_back(w);
  }
  return v;
}

template <class T>
inline um2::Vector<T>
toVec(std::vector<T> const & r)
{
  um2::Vector<T> v;
  for (auto const & x : r) {
    v.emplace_back(x);
  }
  return v;
}

inline um2::Vector<MatID>
toMatIDs(std::vector<int> const & r)
{
  um2::Vector<MatID> v;
  for (int const x : r) {
    v.emplace_back(static_cast<MatID>(x));
  }
  return v;
}

// Description only; the meshes of pins are made by the library when it is built.
struct Plan {
  RModel r;
  struct PinSpec {
    bool pin = false, rect = false;
    double pitch = 1;
    std::vector<double> radii;
    std::vector<int> rings;
    int na = 8, order = 1, nx = 1, ny = 1;
  };
  std::vector<PinSpec> pin; // per cell
};

inline std::vector<int>
composition(vh::Rng & rng, int n)
{
  std::vector<int> r;
  while (n > 0) {
    int const k = rng.range(1, n);
    r.push_back(k);
    n -= k;
  }
  rng.shuffle(r);
  return r;
}

inline Plan
planModel(vh::Rng & rng, MOpts const & o)
{
  Plan p;
  RModel & r = p.r;
  r.groups = rng.range(1, o.maxGroups);
  int const nm = rng.range(1, o.maxMats);
  for (int i = 0; i < nm; ++i) {
    RMat m;
    m.name = rng.pick(std::vector<std::string>{"Fuel", "Clad", "H2O", "UO2 3.3%", "m", "Moderator_with-a/long.name"}) + std::to_string(i);
    m.xs = randXs(rng, r.groups);
    r.mats.push_back(m);
  }
  r.ux = static_cast<Float>(rng.chance(0.3) ? 1.26 : rng.logu(0.2, 20));
  r.uy = rng.chance(0.6) ? r.ux : static_cast<Float>(rng.logu(0.2, 20));
  int const unitsX = rng.range(1, o.maxUnits);
  int const unitsY = rng.range(1, o.maxUnits);
  struct Key {
    int a, b;
  };
  std::vector<Key> ck, lk, ak;
  auto newCell = [&](int a, int b) {
    RCell c;
    c.w = static_cast<Float>(a) * r.ux;
    c.h = static_cast<Float>(b) * r.uy;
    Plan::PinSpec ps;
    int const kind = rng.range(0, 9);
    if (o.pins && kind == 0 && c.w == c.h) {
      ps.pin = true;
      ps.pitch = c.w;
      double const top = rng.uni(0.3, 0.94);
      int const n = rng.range(1, 2);
      for (int i = 0; i < n; ++i) {
        ps.radii.push_back(ps.pitch / 2 * top * (i + 1) / n);
        ps.rings.push_back(rng.range(1, 2));
      }
      ps.order = o.curved ? rng.range(1, 2) : 1;
    } else if (o.pins && kind == 1) {
      ps.rect = true;
      ps.nx = rng.range(1, o.nmax);
      ps.ny = rng.range(1, o.nmax);
    } else {
      // sometimes the mesh of another cell of the same size with other materials
      for (size_t i = 0; i < r.cells.size(); ++i) {
        if (ck[i].a == a && ck[i].b == b && rng.chance(0.15)) {
          c.mesh = (int)i; // resolved while building
          break;
        }
      }
      if (c.mesh == -1) {
        c.g = cellMesh(rng, rng.range(3, 4), o.curved && rng.chance(0.5), o.nmax, c.w, c.h);
      }
    }
    r.cells.push_back(c);
    p.pin.push_back(ps);
    ck.push_back({a, b});
    return (int)r.cells.size() - 1;
  };
  auto reuse = [&](std::vector<Key> const & ks, int a, int b) {
    std::vector<int> fit;
    for (size_t i = 0; i < ks.size(); ++i) {
      if (ks[i].a == a && ks[i].b == b) {
        fit.push_back((int)i);
      }
    }
    return fit.empty() || !rng.chance(o.reuse) ? -1 : rng.pick(fit);
  };
  auto cell = [&](int a, int b) {
    int const i = reuse(ck, a, b);
    return i >= 0 ? i : newCell(a, b);
  };
  auto newRtm = [&] {
    auto const cols = composition(rng, unitsX);
    auto const rows = composition(rng, unitsY);
    Rows R;
    for (int const b : rows) {
      R.emplace_back();
      for (int const a : cols) {
        R.back().push_back(cell(a, b));
      }
    }
    r.rtms.push_back(R);
    return (int)r.rtms.size() - 1;
  };
  auto newLat = [&](int nx, int ny) {
    Rows L;
    for (int i = 0; i < ny; ++i) {
      L.emplace_back();
      for (int j = 0; j < nx; ++j) {
        L.back().push_back(!r.rtms.empty() && rng.chance(o.reuse) ? rng.range(0, (int)r.rtms.size() - 1) : newRtm());
      }
    }
    r.lats.push_back(L);
    lk.push_back({nx, ny});
    return (int)r.lats.size() - 1;
  };
  bool const flat = rng.chance(0.3);
  Float const top = static_cast<Float>(rng.chance(0.5) ? rng.range(1, 400) : rng.logu(0.5, 400));
  auto newAsy = [&](int nx, int ny) {
    RAsy A;
    if (flat) {
      A.z = {static_cast<Float>(-0.5), static_cast<Float>(0.5)};
    } else {
      int const n = rng.range(1, o.maxZ);
      LD s = 0;
      std::vector<LD> t{0};
      for (int i = 0; i < n; ++i) {
        s += static_cast<LD>(rng.chance(0.4) ? 1 : rng.uni(0.1, 1));
        t.push_back(s);
      }
      for (LD const q : t) {
        A.z.push_back(static_cast<Float>(q / s * static_cast<LD>(top)));
      }
      A.z.back() = top;
    }
    for (size_t i = 0; i + 1 < A.z.size(); ++i) {
      int const l = reuse(lk, nx, ny);
      A.lats.push_back(l >= 0 ? l : newLat(nx, ny));
    }
    r.asys.push_back(A);
    ak.push_back({nx, ny});
    return (int)r.asys.size() - 1;
  };
  int const cx = rng.range(1, o.maxCore), cy = rng.range(1, o.maxCore);
  bool const same = rng.chance(0.5);
  int const sx = rng.range(1, o.maxLat), sy = rng.range(1, o.maxLat);
  std::vector<int> nx, ny;
  for (int i = 0; i < cx; ++i) {
    nx.push_back(same ? sx : rng.range(1, o.maxLat));
  }
  for (int i = 0; i < cy; ++i) {
    ny.push_back(same ? sy : rng.range(1, o.maxLat));
  }
  for (int i = 0; i < cy; ++i) {
    r.core.emplace_back();
    for (int j = 0; j < cx; ++j) {
      int const a = reuse(ak, nx[(size_t)j], ny[(size_t)i]);
      r.core.back().push_back(a >= 0 ? a : newAsy(nx[(size_t)j], ny[(size_t)i]));
    }
  }
  if (o.unused) {
    if (rng.chance(0.5)) {
      newCell(rng.range(1, 2), rng.range(1, 2));
    }
    if (rng.chance(0.5)) {
      newRtm();
    }
    if (rng.chance(0.5)) {
      newLat(rng.range(1, 3), rng.range(1, 3));
    }
    if (rng.chance(0.5)) {
      newAsy(rng.range(1, 2), rng.range(1, 2));
    }
  }
  // renumber everything, so that ids do not follow the order of use
  auto perm = [&](size_t n) {
    std::vector<int> q(n);
    for (size_t i = 0; i < n; ++i) {
      q[i] = (int)i;
    }
    if (rng.chance(0.7)) {
      rng.shuffle(q);
    }
    return q;
  };
  auto const pc = perm(r.cells.size()), pr = perm(r.rtms.size()), pl = perm(r.lats.size()), pa = perm(r.asys.size());
  auto place = [](auto & v, std::vector<int> const & q) {
    auto w = v;
    for (size_t i = 0; i < v.size(); ++i) {
      w[(size_t)q[i]] = v[i];
    }
    v = w;
  };
  auto map = [](Rows & v, std::vector<int> const & q) {
    for (auto & row : v) {
      for (int & i : row) {
        i = q[(size_t)i];
      }
    }
  };
  for (auto & c : r.cells) {
    if (c.mesh >= 0) {
      c.mesh = pc[(size_t)c.mesh];
    }
  }
  for (auto & R : r.rtms) {
    map(R, pc);
  }
  for (auto & L : r.lats) {
    map(L, pr);
  }
  for (auto & A : r.asys) {
    for (int & l : A.lats) {
      l = pl[(size_t)l];
    }
  }
  map(r.core, pa);
  place(r.cells, pc);
  place(p.pin, pc);
  place(r.rtms, pr);
  place(r.lats, pl);
  place(r.asys, pa);
  return p;
}

// Builds the model through the public interface and completes the description.
// Returns false when a part was not accepted.
inline bool
buildModel(vh::Rng & rng, Plan & p, um2::mpact::Model & m, bool core = true)
{
  RModel & r = p.r;
  auto refuse = [&](char const * what, int i) {
    vh::fail("build.refused", "%s %d of %s", what, i, r.str().c_str());
    return false;
  };
  for (size_t i = 0; i < r.mats.size(); ++i) {
    if (m.addMaterial(toMaterial(r.mats[i])) != (Int)i) {
      return refuse("material", (int)i);
    }
  }
  // the meshes, in a random order
  std::vector<int> order(r.cells.size());
  for (size_t i = 0; i < order.size(); ++i) {
    order[i] = (int)i;
  }
  rng.shuffle(order);
  std::vector<int> shared((size_t)r.cells.size(), -1);
  for (int const i : order) {
    RCell & c = r.cells[(size_t)i];
    shared[(size_t)i] = c.mesh;
    if (c.mesh >= 0) {
      continue;
    }
    auto const & ps = p.pin[(size_t)i];
    Int id = -1;
    if (ps.pin) {
      um2::Vector<Float> rad;
      for (double const x : ps.radii) {
        rad.emplace_back(static_cast<Float>(x));
      }
      id = m.addCylindricalPinMesh(static_cast<Float>(ps.pitch), rad, toVec<Int>(ps.rings), ps.na, ps.order);
      if (id < 0) {
        return refuse("pin", i);
      }
      c.g = ps.order == 1 ? fromFVM(m.getQuadMesh(id), 4, false) : fromFVM(m.getQuad8Mesh(id), 4, true);
    } else if (ps.rect) {
      id = m.addRectangularPinMesh(um2::Vec2F(c.w, c.h), ps.nx, ps.ny);
      if (id < 0) {
        return refuse("rectangle", i);
      }
      c.g = fromFVM(m.getQuadMesh(id), 4, false);
    } else if (c.g.k == 3) {
      id = c.g.curved ? m.addTri6Mesh(toFVM<2, 6>(c.g)) : m.addTriMesh(toFVM<1, 3>(c.g));
    } else {
      id = c.g.curved ? m.addQuad8Mesh(toFVM<2, 8>(c.g)) : m.addQuadMesh(toFVM<1, 4>(c.g));
    }
    c.mesh = id;
    if (id != r.nmesh[(size_t)typeIndex(c.g)]++) {
      return refuse("mesh", i);
    }
  }
  for (size_t i = 0; i < r.cells.size(); ++i) {
    if (shared[i] >= 0) {
      // the source is never itself shared twice removed
      int s = shared[i];
      while (shared[(size_t)s] >= 0) {
        s = shared[(size_t)s];
      }
      r.cells[i].g = r.cells[(size_t)s].g;
      r.cells[i].mesh = r.cells[(size_t)s].mesh;
    }
  }
  bool const stripes = rng.chance(0.3);
  for (size_t i = 0; i < r.cells.size(); ++i) {
    RCell & c = r.cells[i];
    int const k0 = rng.range(0, (int)r.mats.size() - 1);
    bool const one = rng.chance(0.2);
    for (size_t f = 0; f < c.g.f.size(); ++f) {
      c.mats.push_back(one ? k0 : stripes ? (int)(f % r.mats.size()) : rng.range(0, (int)r.mats.size() - 1));
    }
    if (m.addCoarseCell(um2::Vec2F(c.w, c.h), meshType(c.g), c.mesh, toMatIDs(c.mats)) != (Int)i) {
      return refuse("cell", (int)i);
    }
  }
  for (size_t i = 0; i < r.rtms.size(); ++i) {
    if (m.addRTM(toRows(r.rtms[i])) != (Int)i) {
      return refuse("module", (int)i);
    }
  }
  for (size_t i = 0; i < r.lats.size(); ++i) {
    if (m.addLattice(toRows(r.lats[i])) != (Int)i) {
      return refuse("lattice", (int)i);
    }
  }
  for (size_t i = 0; i < r.asys.size(); ++i) {
    um2::Vector<Int> const l = toVec<Int>(r.asys[i].lats);
    bool const dflt = r.asys[i].z[0] < 0 && rng.chance(0.5);
    Int const id = dflt ? m.addAssembly(l) : m.addAssembly(l, toVec<Float>(r.asys[i].z));
    if (id != (Int)i) {
      return refuse("assembly", (int)i);
    }
  }
  if (core && m.addCore(toRows(r.core)) != 0) {
    return refuse("core", 0);
  }
  return true;
}
