// C33: the same queries from several threads at once; results against a single thread.
#include "modelgen.hpp"
#include "vh.hpp"

#include <um2/common/logger.hpp>
#include <um2/common/strto.hpp>
#include <um2/geometry/modular_rays.hpp>
#include <um2/mesh/regular_grid.hpp>
#include <um2/physics/cross_section_library.hpp>
#include <um2/physics/material.hpp>

#include <atomic>
#include <cstring>
#include <functional>
#include <thread>

struct Hash {
  uint64_t h = 1469598103934665603ULL;
  void
  bytes(void const * p, size_t n)
  {
    auto const * b = static_cast<unsigned char const *>(p);
    for (size_t i = 0; i < n; ++i) {
      h = (h ^ b[i]) * 1099511628211ULL;
    }
  }
  template <class T>
  void
  add(T const & x)
  {
    static_assert(std::is_arithmetic_v<T>);
    bytes(&x, sizeof(x));
  }
  void
  add(um2::Point2F const & p)
  {
    add(p[0]);
    add(p[1]);
  }
  void
  add(um2::String const & s)
  {
    bytes(s.data(), (size_t)s.size());
  }
  template <class T>
  void
  add(um2::Vector<T> const & v)
  {
    add(v.size());
    for (auto const & x : v) {
      add(x);
    }
  }
  void
  add(um2::XSec const & x)
  {
    add(x.isFissile());
    add(x.a());
    add(x.f());
    add(x.nuf());
    add(x.tr());
    add(x.s());
    for (Int i = 0; i < x.numGroups(); ++i) {
      for (Int j = 0; j < x.numGroups(); ++j) {
        add(x.ss()(i, j));
      }
      add(x.t(i));
    }
  }
  void
  add(um2::PolytopeSoup const & s)
  {
    add(s.numVertices());
    add(s.numElements());
    for (Int i = 0; i < s.numVertices(); ++i) {
      auto const p = s.getVertex(i);
      add(p[0]);
      add(p[1]);
      add(p[2]);
    }
    um2::Vector<Int> conn;
    for (Int i = 0; i < s.numElements(); ++i) {
      um2::VTKElemType type{};
      s.getElement(i, type, conn);
      add((int)type);
      add(conn);
    }
    for (Int i = 0; i < s.numElsets(); ++i) {
      um2::String name;
      um2::Vector<Int> ids;
      um2::Vector<Float> data;
      s.getElset(i, name, ids, data);
      add(name);
      add(ids);
      add(data);
    }
  }
};

using Task = std::function<uint64_t()>;

template <class M>
static void
meshTasks(vh::Rng & rng, M const & m, std::vector<Task> & t, bool curved)
{
  auto const bb = m.boundingBox();
  Float const w = bb.maxima()[0] - bb.minima()[0], h = bb.maxima()[1] - bb.minima()[1];
  auto const inside = [bb, w, h](vh::Rng & r) {
    return um2::Point2F(bb.minima()[0] + static_cast<Float>(r.u()) * w, bb.minima()[1] + static_cast<Float>(r.u()) * h);
  };
  uint64_t const s = rng.next();
  switch (rng.range(0, 4)) {
  case 0:
    t.push_back([&m, s, inside] {
      Hash q;
      vh::Rng r(s);
      for (int i = 0; i < 10; ++i) {
        q.add(m.faceContaining(inside(r)));
      }
      return q.h;
    });
    break;
  case 1:
    t.push_back([&m, s, inside] {
      Hash q;
      vh::Rng r(s);
      std::vector<Float> c((size_t)(m.numFaces() * 16 + 16));
      std::vector<Int> off((size_t)m.numFaces() + 1), faces((size_t)m.numFaces() + 1);
      for (int i = 0; i < 5; ++i) {
        auto const a = inside(r);
        auto const ang = r.uni(0, 6.283);
        um2::Ray2F const ray(a, um2::Vec2F(static_cast<Float>(std::cos(ang)), static_cast<Float>(std::sin(ang))));
        Int const n = m.intersect(ray, c.data());
        q.add(n);
        for (Int k = 0; k < n; ++k) {
          q.add(c[(size_t)k]);
        }
        auto const hf = m.intersect(ray, c.data(), off.data(), faces.data());
        q.add(hf[0]);
        q.add(hf[1]);
        for (Int k = 0; k < hf[0]; ++k) {
          q.add(c[(size_t)k]);
        }
        for (Int k = 0; k < hf[1]; ++k) {
          q.add(faces[(size_t)k]);
        }
      }
      return q.h;
    });
    break;
  case 2:
    t.push_back([&m] {
      Hash q;
      for (Int i = 0; i < m.numFaces(); ++i) {
        auto const f = m.getFace(i);
        q.add(f.area());
        q.add(f.centroid());
        q.add(f.isCCW());
        q.add(f.boundingBox().minima());
        q.add(f.boundingBox().maxima());
        q.add(f.meanChordLength());
      }
      return q.h;
    });
    break;
  case 3:
    t.push_back([&m] {
      Hash q;
      auto const p = static_cast<um2::PolytopeSoup>(m);
      q.add(p);
      return q.h;
    });
    break;
  default:
    t.push_back([&m] {
      Hash q;
      auto const b = m.boundingBox();
      q.add(b.minima());
      q.add(b.maxima());
      auto copy = m; // building the incidence lists of a private copy
      copy.populateVF();
      q.add(copy.vertexFaceOffsets());
      q.add(copy.vertexFaceConn());
      for (Int i = 0; i < copy.numVertices(); ++i) {
        q.add(copy.getVertex(i));
      }
      return q.h;
    });
  }
  (void)curved;
}

struct World {
  Plan plan;
  um2::mpact::Model model;
  um2::XSLibrary lib;
  std::vector<um2::Material> mats;
  um2::PolytopeSoup soup;
  bool ok = false;
};

static void
makeWorld(World & w, uint64_t seed)
{
  vh::Rng rng(seed);
  MOpts o;
  o.maxCore = 2;
  o.maxLat = 2;
  o.maxUnits = 2;
  w.plan = planModel(rng, o);
  w.ok = buildModel(rng, w.plan, w.model);
  if (!w.ok) {
    return;
  }
  w.soup = static_cast<um2::PolytopeSoup>(w.model);
  // a data library with some nuclides and temperatures
  int const ng = rng.range(1, 5);
  for (int i = 0; i < ng; ++i) {
    w.lib.groupBounds().push_back(static_cast<Float>(1e7 / (i + 1)));
    w.lib.chi().push_back(static_cast<Float>(1.0 / ng));
  }
  std::vector<Int> const zaids = {1001, 8016, 92235, 92238, 5010, 40090};
  for (Int const z : zaids) {
    um2::Nuclide n;
    n.zaid() = z;
    n.mass() = static_cast<Float>(z % 1000);
    int const nt = rng.range(1, 4);
    for (int k = 0; k < nt; ++k) {
      n.temperatures().push_back(static_cast<Float>(300 + 200 * k));
      RXs x = randXs(rng, ng);
      auto q = toXSec(x);
      q.isMacro() = false;
      n.xs().push_back(q);
    }
    w.lib.nuclides().push_back(n);
  }
  for (int i = 0; i < 3; ++i) {
    um2::Material m;
    m.setName(umS("m" + std::to_string(i)));
    m.setTemperature(static_cast<Float>(rng.uni(250, 1100)));
    m.setDensity(static_cast<Float>(rng.uni(0.5, 12)));
    for (Int const z : zaids) {
      if (z == 8016 || rng.chance(0.6)) {
        m.addNuclide(z, static_cast<Float>(rng.logu(1e-5, 1e-1)));
      }
    }
    m.populateXSec(w.lib);
    w.mats.push_back(m);
  }
}

static std::vector<Task>
makeTasks(World const & w, uint64_t seed)
{
  vh::Rng rng(seed);
  std::vector<Task> t;
  auto const & m = w.model;
  int const n = rng.range(8, 24);
  for (int i = 0; i < n; ++i) {
    uint64_t const s = rng.next();
    switch (rng.range(0, 11)) {
    case 0:
    case 1:
    case 2:
    case 3: {
      auto const & c = m.getCoarseCell((Int)rng.range(0, m.numCoarseCells() - 1));
      switch (c.mesh_type) {
      case um2::MeshType::Tri:
        meshTasks(rng, m.getTriMesh(c.mesh_id), t, false);
        break;
      case um2::MeshType::Quad:
        meshTasks(rng, m.getQuadMesh(c.mesh_id), t, false);
        break;
      case um2::MeshType::QuadraticTri:
        meshTasks(rng, m.getTri6Mesh(c.mesh_id), t, true);
        break;
      default:
        meshTasks(rng, m.getQuad8Mesh(c.mesh_id), t, true);
      }
      break;
    }
    case 4:
      t.push_back([&m] {
        Hash q;
        auto const p = static_cast<um2::PolytopeSoup>(m);
        q.add(p);
        return q.h;
      });
      break;
    case 5:
      t.push_back([&m] {
        Hash q;
        for (Int i = 0; i < m.numCoarseCells(); ++i) {
          q.add(m.getCoarseCellHomogenizedXSec(i));
        }
        return q.h;
      });
      break;
    case 6:
      t.push_back([&m] {
        Hash q;
        q.add(m.numAssembliesTotal());
        q.add(m.numLatticesTotal());
        q.add(m.numRTMsTotal());
        q.add(m.numCoarseCellsTotal());
        q.add(m.numFineCellsTotal());
        for (auto const & mat : m.materials()) {
          q.add(mat.xsec());
          q.add(mat.xsec().collapseTo1GroupAvg());
          mat.xsec().validate();
          q.add(mat.getName());
        }
        return q.h;
      });
      break;
    case 7: {
      // layout: grids of the core, lattices and modules
      t.push_back([&m, s] {
        Hash q;
        vh::Rng r(s);
        auto const & g = m.getCore().grid();
        for (int k = 0; k < 10; ++k) {
          Int const ix = (Int)r.range(0, g.numCells(0) - 1), iy = (Int)r.range(0, g.numCells(1) - 1);
          q.add(m.getCore().getChild(ix, iy));
          q.add(g.getBox(ix, iy).minima());
          q.add(g.getBox(ix, iy).maxima());
          q.add(g.extents(0));
        }
        for (Int i = 0; i < m.numLattices(); ++i) {
          auto const & l = m.getLattice(i);
          q.add(l.grid().boundingBox().maxima());
          q.add(l.children());
        }
        return q.h;
      });
      break;
    }
    case 8: {
      auto const & mat = w.mats[(size_t)rng.range(0, (int)w.mats.size() - 1)];
      auto const & lib = w.lib;
      t.push_back([&mat, &lib, s] {
        Hash q;
        vh::Rng r(s);
        q.add(mat.xsec());
        q.add(mat.getDensity());
        for (Int i = 0; i < mat.numNuclides(); ++i) {
          q.add(mat.numDensity(i));
          q.add(lib.getNuclide(mat.zaid(i)).interpXS(static_cast<Float>(r.uni(200, 1200))));
        }
        um2::Material own = mat; // a private copy with data of the shared library
        own.setTemperature(static_cast<Float>(r.uni(250, 1100)));
        own.populateXSec(lib);
        q.add(own.xsec());
        return q.h;
      });
      break;
    }
    case 9: {
      auto const & soup = w.soup;
      t.push_back([&soup, s] {
        Hash q;
        vh::Rng r(s);
        q.add(soup);
        auto const & names = soup.elsetNames();
        um2::PolytopeSoup sub;
        soup.getSubset(names[(Int)r.range(0, (int)names.size() - 1)], sub);
        q.add(sub);
        return q.h;
      });
      break;
    }
    case 10:
      // objects of the thread's own: models, texts, sequences
      t.push_back([s] {
        Hash q;
        vh::Rng r(s);
        um2::String text("a");
        um2::Vector<um2::String> v;
        for (int k = 0; k < 20; ++k) {
          text += um2::String(static_cast<Int>(r.next() % 100000));
          text += um2::String(r.uni(-1e3, 1e3));
          v.push_back(text);
          v.push_back(v[(Int)r.range(0, (int)v.size() - 1)]);
        }
        for (auto const & x : v) {
          q.add(x);
        }
        char * end = nullptr;
        q.add(um2::strto<double>("12.5e3x", &end));
        return q.h;
      });
      break;
    default:
      t.push_back([s] {
        Hash q;
        World own;
        makeWorld(own, s);
        auto const p = static_cast<um2::PolytopeSoup>(own.model);
        q.add(p);
        for (auto const & x : own.mats) {
          q.add(x.xsec());
        }
        return q.h;
      });
    }
  }
  return t;
}

int
main(int argc, char ** argv)
{
  um2::logger::level = um2::logger::levels::off;
  um2::logger::exit_on_error = false;
  return vh::run(argc, argv, "threads", [](vh::Rng & rng, uint64_t) {
    uint64_t const ws = rng.next(), ts = rng.next();
    World a;
    makeWorld(a, ws);
    if (!a.ok) {
      return;
    }
    auto const tasks = makeTasks(a, ts);
    int const nthreads = rng.range(2, 6);
    std::vector<std::vector<uint64_t>> res((size_t)nthreads, std::vector<uint64_t>(tasks.size()));
    std::vector<std::vector<size_t>> order;
    for (int k = 0; k < nthreads; ++k) {
      std::vector<size_t> o(tasks.size());
      for (size_t i = 0; i < o.size(); ++i) {
        o[i] = i;
      }
      if (rng.chance(0.6)) {
        rng.shuffle(o); // otherwise all threads begin with the same query
      }
      order.push_back(o);
    }
    // the first use of everything is concurrent: the single-threaded run comes afterwards, on objects of its own
    std::atomic<int> ready{0};
    std::vector<std::thread> th;
    for (int k = 0; k < nthreads; ++k) {
      th.emplace_back([&, k] {
        ready.fetch_add(1, std::memory_order_relaxed);
        while (ready.load(std::memory_order_relaxed) < nthreads) {
          std::this_thread::yield();
        }
        for (size_t const i : order[(size_t)k]) {
          res[(size_t)k][i] = tasks[i]();
        }
      });
    }
    for (auto & t : th) {
      t.join();
    }
    World b;
    makeWorld(b, ws);
    auto const again = makeTasks(b, ts);
    for (size_t i = 0; i < again.size(); ++i) {
      uint64_t const h = again[i]();
      for (int k = 0; k < nthreads; ++k) {
        VH(res[(size_t)k][i] == h, "result", "query %zu of %zu differs in thread %d of %d: %s", i, again.size(), k, nthreads, a.plan.r.str().c_str());
        vh::count("concurrent results");
      }
    }
    vh::count("groups of threads");
    vh::nontrivial(ws);
    vh::sample(vh::fmt("%d threads, %zu queries on %s", nthreads, tasks.size(), a.plan.r.str().c_str()));
  });
}
