// C35: plane geometry -> mesh -> file -> core model; element types, cover, materials, element sizes.
#include "modelgen.hpp"
#include "vh.hpp"

#include <um2/common/logger.hpp>
#include <um2/gmsh/base_gmsh_api.hpp>
#include <um2/gmsh/io.hpp>
#include <um2/gmsh/mesh.hpp>
#include <um2/gmsh/model.hpp>

#include <set>

namespace g = um2::gmsh;
namespace gm = um2::gmsh::model;
namespace occ = um2::gmsh::model::occ;
namespace msh = um2::gmsh::model::mesh;
using um2::MeshType;
using um2::Vec2F;
using um2::Vector;

template <class F>
static bool
reports(F && f, std::string * text = nullptr)
{
  vh::Capture cap;
  um2::logger::level = um2::logger::levels::error;
  f();
  um2::logger::level = um2::logger::levels::off;
  cap.stop();
  if (text != nullptr) {
    *text = cap.out + cap.err;
  }
  return cap.err.find("ERROR") != std::string::npos || cap.out.find("ERROR") != std::string::npos;
}

// the graphics toolkit rewrites its preference files at start-up: keep it from doing so
static void
startSession()
{
  if (seteuid(65534) != 0) {
    fprintf(stderr, "cannot drop privileges\n");
  }
  g::initialize(0, nullptr, false);
  if (seteuid(0) != 0) {
    fprintf(stderr, "cannot regain privileges\n");
  }
  g::option::setNumber("General.Terminal", 0);
}

static std::vector<std::string> const MATS = {"Fuel", "Clad", "Water", "Boron_10", "a", "Zr-4"};
static char const * const TYPE[] = {"triangles", "quadrilaterals", "curved triangles", "curved quadrilaterals"};
static MeshType const MT[] = {MeshType::Tri, MeshType::Quad, MeshType::QuadraticTri, MeshType::QuadraticQuad};
static int const GT[] = {2, 3, 9, 16};

static um2::Material
material(std::string const & name, double t, double c, bool fissile, int groups, vh::Rng & rng)
{
  // the average over the groups of the total is t
  RMat m;
  m.name = name;
  RXs & x = m.xs;
  x.fissile = fissile;
  x.ss.assign((size_t)groups, std::vector<double>((size_t)groups, 0));
  double sum = 0;
  std::vector<double> w;
  for (int i = 0; i < groups; ++i) {
    w.push_back(rng.uni(0.5, 1.5));
    sum += w.back();
  }
  for (int i = 0; i < groups; ++i) {
    double const ti = t * w[(size_t)i] / sum * groups;
    double const s = ti * c;
    for (int k = 0; k < groups; ++k) {
      x.ss[(size_t)k][(size_t)i] = s / groups;
    }
    x.s.push_back(s);
    x.a.push_back(ti - s);
    x.f.push_back(fissile ? (ti - s) / 2 : 0);
    x.nuf.push_back(fissile ? (ti - s) : 0);
    x.tr.push_back(ti);
  }
  return toMaterial(m);
}

struct Ring {
  double x, y;
  std::vector<double> r;
  std::vector<std::string> m;
};

struct Elem {
  std::vector<P2> v;
  int type = 0;
};

// all plane elements known to the mesher
static std::vector<Elem>
elements()
{
  std::vector<Elem> r;
  std::vector<size_t> tags;
  std::vector<double> xyz, par;
  msh::getNodes(tags, xyz, par);
  std::map<size_t, P2> at;
  for (size_t i = 0; i < tags.size(); ++i) {
    at[tags[i]] = {xyz[3 * i], xyz[3 * i + 1]};
  }
  std::vector<int> types;
  std::vector<std::vector<size_t>> et, en;
  msh::getElements(types, et, en, 2);
  for (size_t k = 0; k < types.size(); ++k) {
    if (et[k].empty()) {
      continue;
    }
    size_t const n = en[k].size() / et[k].size();
    for (size_t i = 0; i < et[k].size(); ++i) {
      Elem e;
      e.type = types[k];
      for (size_t j = 0; j < n; ++j) {
        e.v.push_back(at[en[k][i * n + j]]);
      }
      r.push_back(e);
    }
  }
  return r;
}

static bool
onlyType(std::vector<Elem> const & el, int type, std::string const & what)
{
  std::map<int, int> n;
  for (auto const & e : el) {
    ++n[e.type];
  }
  bool const ok = n.size() == 1 && n.begin()->first == GT[type];
  std::string s;
  for (auto const & k : n) {
    s += vh::fmt("%d of kind %d, ", k.second, k.first);
  }
  VH(ok, "mesh.type", "%s: asked for %s (kind %d), got %s", what.c_str(), TYPE[type], GT[type], s.c_str());
  return ok;
}

static double
meanEdge(Elem const & e)
{
  int const k = e.type == 2 || e.type == 9 ? 3 : 4;
  LD s = 0;
  for (int i = 0; i < k; ++i) {
    s += len(e.v[(size_t)((i + 1) % k)] - e.v[(size_t)i]);
  }
  return (double)(s / k);
}

static P2
centre(Elem const & e)
{
  int const k = e.type == 2 || e.type == 9 ? 3 : 4;
  P2 c{0, 0};
  for (int i = 0; i < k; ++i) {
    c = c + (1.0L / k) * e.v[(size_t)i];
  }
  return c;
}

static void
pins(vh::Rng & rng)
{
  // ------------------------------------------------------------------ geometry
  g::clear();
  int const nx = rng.range(1, 3), ny = rng.range(1, 3);
  std::vector<double> px{0}, py{0};
  bool const square = rng.chance(0.5);
  double const pw = rng.chance(0.3) ? 1.26 : rng.uni(0.8, 2), ph = square ? pw : rng.uni(0.8, 2);
  for (int i = 0; i < nx; ++i) {
    px.push_back(px.back() + pw);
  }
  for (int j = 0; j < ny; ++j) {
    py.push_back(py.back() + ph);
  }
  double const dim = std::min(pw, ph);
  double const lc = dim * rng.uni(0.12, 0.5);
  int const ntypes = rng.range(1, 3);
  std::vector<Ring> types;
  Vector<Vector<Float>> radii;
  Vector<Vector<um2::Material>> mats;
  Vector<Vec2F> xy;
  std::map<std::string, um2::Material> used;
  int const groups = rng.range(1, 3);
  std::map<std::string, double> sigma;
  auto const getMat = [&](std::string const & n) -> um2::Material & {
    auto const it = used.find(n);
    if (it != used.end()) {
      return it->second;
    }
    double const t = rng.uni(0.5, 2);
    sigma[n] = t;
    return used[n] = material(n, t, rng.uni(0.3, 0.9), rng.chance(0.4), groups, rng);
  };
  for (int t = 0; t < ntypes; ++t) {
    Ring r{0, 0, {}, {}};
    int const n = rng.range(t == 0 ? 1 : 0, 3);
    double q = 0;
    Vector<Float> rr;
    Vector<um2::Material> mm;
    double const out = dim / 2 * rng.uni(0.5, 0.92);
    for (int i = 0; i < n; ++i) {
      q = i == n - 1 ? out : out * (i + 1) / n * rng.uni(0.8, 1);
      r.r.push_back(q);
      r.m.push_back(rng.pick(MATS));
      rr.push_back(static_cast<Float>(q));
      mm.push_back(getMat(r.m.back()));
    }
    types.push_back(r);
    radii.push_back(rr);
    mats.push_back(mm);
    xy.push_back(Vec2F(static_cast<Float>(pw), static_cast<Float>(ph)));
  }
  std::vector<Ring> rings;
  Vector<Vector<Int>> ids;
  for (int jj = 0; jj < ny; ++jj) {
    int const j = ny - 1 - jj;
    Vector<Int> row;
    for (int i = 0; i < nx; ++i) {
      int const t = i + j == 0 ? 0 : rng.range(0, ntypes - 1);
      row.push_back(t);
      Ring r = types[(size_t)t];
      r.x = (px[(size_t)i] + px[(size_t)i + 1]) / 2;
      r.y = (py[(size_t)j] + py[(size_t)j + 1]) / 2;
      if (!r.r.empty()) {
        rings.push_back(r);
      }
    }
    ids.push_back(row);
  }
  std::string what = vh::fmt("lattice %d x %d of %d pins, pitch %g x %g", nx, ny, ntypes, pw, ph);
  std::string const fill = rng.chance(0.6) ? "Moderator" : rng.pick(MATS);
  getMat(fill);
  // a coarse grid that covers the lattice: the pitch, or a regular one
  std::vector<double> gx = px, gy = py;
  um2::mpact::Model mdl;
  // materials of the model in random order
  std::vector<std::string> order;
  for (auto const & u : used) {
    order.push_back(u.first);
  }
  rng.shuffle(order);
  for (auto const & n : order) {
    mdl.addMaterial(used[n], false);
  }
  std::vector<int> id;
  std::vector<std::array<int, 2>> where;
  if (rng.chance(0.4)) {
    int const cx = rng.range(1, 4), cy = rng.range(1, 4);
    gx = {0};
    gy = {0};
    double const W = px.back() * (rng.chance(0.7) ? 1 : 1.3), H = py.back() * (rng.chance(0.7) ? 1 : 1.3);
    for (int i = 1; i <= cx; ++i) {
      gx.push_back(W * i / cx);
    }
    for (int j = 1; j <= cy; ++j) {
      gy.push_back(H * j / cy);
    }
    mdl.addCoarseGrid(Vec2F(static_cast<Float>(W), static_cast<Float>(H)), um2::Vec2I(cx, cy));
    for (int j = 0; j < cy; ++j) {
      for (int i = 0; i < cx; ++i) {
        id.push_back(j * cx + i);
        where.push_back({i, j});
      }
    }
    what += vh::fmt(", regular grid %d x %d over %g x %g", cx, cy, W, H);
  } else {
    // one cell per pin, cells of equal pins may be shared
    bool const share = rng.chance(0.5);
    std::map<int, int> cellOf;
    Vector<Vector<Int>> rows;
    std::vector<int> tmp((size_t)(nx * ny));
    for (int j = 0; j < ny; ++j) {
      for (int i = 0; i < nx; ++i) {
        int const t = ids[ny - 1 - j][i];
        int c = -1;
        if (share && cellOf.count(t) > 0) {
          c = cellOf[t];
        } else {
          c = (int)where.size();
          cellOf[t] = c;
          where.push_back({i, j});
          mdl.addCoarseCell(Vec2F(static_cast<Float>(pw), static_cast<Float>(ph)));
        }
        tmp[(size_t)(j * nx + i)] = c;
      }
    }
    id = tmp;
    for (int j = ny - 1; j >= 0; --j) {
      Vector<Int> row;
      for (int i = 0; i < nx; ++i) {
        row.push_back(id[(size_t)(j * nx + i)]);
      }
      rows.push_back(row);
    }
    Float const half = static_cast<Float>(0.5);
    mdl.addRTM(rows);
    mdl.addLattice({{0}});
    mdl.addAssembly({0}, {-half, half});
    mdl.addCore({{0}});
    what += vh::fmt(", %zu cells", where.size());
  }
  size_t const ncells = where.size();
  try {
    occ::addCylindricalPinLattice2D(ids, xy, radii, mats, Vec2F(0, 0));
    occ::overlayCoarseGrid(mdl, used[fill]);
  } catch (std::runtime_error const & e) {
    VH(std::string(e.what()).find("Could not fix wire") != std::string::npos, "geometry.exception", "%s: %s", what.c_str(), e.what());
    vh::count("geometries the kernel could not handle");
    return;
  }
  double minr = 1e9;
  for (auto const & r : rings) {
    minr = std::min(minr, r.r[0]);
  }
  // ------------------------------------------------------------------ mesh, possibly several times
  int const runs = rng.chance(0.5) ? 1 : rng.range(2, 3);
  for (int run = 0; run < runs; ++run) {
    int const type = rng.chance(0.5) ? 0 : 2; // the installed mesher fails on all quadrilateral meshes
    double size = std::min(lc, minr * 0.8);
    size = std::max(size, dim * 0.06);
    if (minr < size) {
      return; // rings much smaller than the elements
    }
    what += vh::fmt("; %s of size %g", TYPE[type], size);
    bool const knudsen = run == 0 && rng.chance(0.3);
    if (knudsen) {
      // the groups present in the geometry
      Vector<um2::Material> mm;
      std::vector<um2::Material> all;
      gm::getMaterials(all);
      double tmin = 1e9;
      for (auto const & m : all) {
        std::string const n(m.getName().data());
        mm.push_back(used[n]);
        tmin = std::min(tmin, sigma[n]);
      }
      double const kn = 12 / (M_PI * std::sqrt(3.0) * size * tmin);
      int const rc = msh::setMeshFieldFromKnudsenNumber(2, mm, kn);
      VH(rc == 0, "size.refused", "%s: mean free path sizes refused (%d)", what.c_str(), rc);
      what += " (mean free paths)";
      vh::count("sizes from mean free paths");
    } else {
      msh::setGlobalMeshSize(size);
    }
    try {
      msh::generateMesh(MT[type], rng.chance(0.05) ? 100 : rng.range(0, 5));
    } catch (std::runtime_error const & e) {
      vh::count("meshes the kernel could not make");
      return;
    }
    auto const el = elements();
    if (!onlyType(el, type, what)) {
      return;
    }
    vh::count("meshes");
    vh::count(vh::fmt("meshes of %s", TYPE[type]));
    if (run > 0) {
      vh::count("meshes after another mesh");
    }
    {
      double s = 0;
      for (auto const & e : el) {
        s += meanEdge(e);
      }
      s /= (double)el.size();
      VH(s <= 1.5 * size, "size.global", "%s: mean edge %g for %zu elements", what.c_str(), s, el.size());
    }
    // ---------------------------------------------------------------- file and model
    std::string const file = vh::ctx().scratch + "/mesh.inp";
    g::write(file);
    um2::mpact::Model m = mdl;
    std::string text;
    bool const err = reports([&] { m.importCoarseCellMeshes(umS(file)); }, &text);
    if (err && type == 2 && text.find("Self-intersection") != std::string::npos) {
      vh::count("curved meshes refused because of tangled faces");
      return;
    }
    VH(!err, "import.reported", "%s: the written mesh is not accepted: %s", what.c_str(), text.c_str());
    if (err) {
      return;
    }
    for (size_t c = 0; c < ncells; ++c) {
      auto const & cc = m.getCoarseCell((Int)c);
      VH(cc.mesh_type == MT[type], "import.type", "%s: cell %zu has type %d", what.c_str(), c, (int)cc.mesh_type);
      if (cc.mesh_type != MT[type]) {
        continue;
      }
      GMesh const q = type == 0   ? fromFVM(m.getTriMesh(cc.mesh_id), 3, false)
                      : type == 1 ? fromFVM(m.getQuadMesh(cc.mesh_id), 4, false)
                      : type == 2 ? fromFVM(m.getTri6Mesh(cc.mesh_id), 3, true)
                                  : fromFVM(m.getQuad8Mesh(cc.mesh_id), 4, true);
      double const X = gx[(size_t)where[c][0]], Y = gy[(size_t)where[c][1]];
      double const w = gx[(size_t)where[c][0] + 1] - X, h = gy[(size_t)where[c][1] + 1] - Y;
      std::vector<Face> faces;
      LD area = 0;
      std::map<int, LD> byMat;
      VH((size_t)cc.material_ids.size() == q.f.size(), "import.materials", "%s: cell %zu has %d materials for %zu faces", what.c_str(), c,
         cc.material_ids.size(), q.f.size());
      int inverted = 0;
      std::vector<std::array<LD, 4>> box;
      for (size_t f = 0; f < q.f.size(); ++f) {
        std::vector<P2> v;
        std::array<LD, 4> b{1e9L, -1e9L, 1e9L, -1e9L};
        for (int const i : q.f[f]) {
          P2 const p = q.v[(size_t)i];
          v.push_back(p);
          b = {std::min(b[0], p.x), std::max(b[1], p.x), std::min(b[2], p.y), std::max(b[3], p.y)};
        }
        LD const grow = q.curved ? 0.5L * std::max(b[1] - b[0], b[3] - b[2]) : 0;
        b = {b[0] - grow, b[1] + grow, b[2] - grow, b[3] + grow};
        box.push_back(b);
        faces.push_back(makeFace(v, q.k));
        LD const a = faces.back().area();
        inverted += a <= 0;
        area += a;
        byMat[(int)cc.material_ids[(Int)f]] += a;
      }
      VH(vh::near((double)area, w * h, 1e-6), "cover.area", "%s: faces of cell %zu cover %.10Lg of %.10g", what.c_str(), c, area, w * h);
      if (inverted > 0) {
        VH(q.curved, "cover.inverted", "%s: %d faces of cell %zu are inside out", what.c_str(), inverted, c);
        vh::count("cells with inside-out curved faces");
        continue;
      }
      vh::count("cells");
      int const npts = 25;
      for (int k = 0; k < npts; ++k) {
        double const x = rng.u() * w, y = rng.u() * h;
        std::string mat = fill;
        bool sure = true;
        for (auto const & r : rings) {
          double const d = std::hypot(X + x - r.x, Y + y - r.y);
          for (size_t i = r.r.size(); i-- > 0;) {
            double const margin = std::max(0.02 * dim, q.curved ? 0.05 * size : 0.4 * size * size / r.r[i]);
            sure = sure && std::fabs(d - r.r[i]) > margin;
            if (d < r.r[i]) {
              mat = r.m[i];
            }
          }
        }
        P2 const p{x, y};
        std::vector<size_t> in;
        for (size_t f = 0; f < faces.size(); ++f) {
          auto const & b = box[f];
          if (p.x < b[0] || p.x > b[1] || p.y < b[2] || p.y > b[3]) {
            continue;
          }
          if (faces[f].dist(p) < 1e-4 * dim) {
            sure = false;
            break;
          }
          if (faces[f].winding(p, q.curved ? 100 : 1) != 0) {
            in.push_back(f);
          }
        }
        if (!sure) {
          continue;
        }
        if (in.size() != 1) {
          VH(q.curved, "cover.point", "%s: %zu faces of cell %zu at (%g %g)", what.c_str(), in.size(), c, x, y);
          vh::count("points in tangled curved faces");
          continue;
        }
        std::string const got = order[(size_t)cc.material_ids[(Int)in[0]]];
        VH(got == mat, "cell.material", "%s: cell %zu is of %s at (%g %g) where the geometry is of %s", what.c_str(), c, got.c_str(), x, y,
           mat.c_str());
        vh::count("points");
      }
    }
    vh::nontrivial(vh::hashStr(what));
    vh::sample(what);
  }
}

// rectangles in a row; element sizes against the prescribed ones
static void
sizes(vh::Rng & rng)
{
  g::clear();
  double const L = rng.logu(0.3, 30);
  int const n = rng.range(1, 4);
  struct Part {
    double x0, x1, t, c, lc;
    bool fis;
    std::string name;
  };
  std::vector<Part> part;
  bool const fuelMode = rng.chance(0.4), absMode = rng.chance(0.35);
  double const kn = fuelMode || absMode ? rng.logu(6, 20) : rng.logu(0.3, 20);
  double const K = 12 / (M_PI * std::sqrt(3.0) * kn);
  double x = rng.uni(-2, 2) * L;
  double const y = rng.uni(-2, 2) * L;
  double const H = L * rng.uni(0.8, 1.2);
  std::vector<um2::Material> mats;
  std::vector<std::string> names = MATS;
  rng.shuffle(names);
  std::vector<int> tags;
  int const groups = rng.range(1, 4);
  for (int i = 0; i < n; ++i) {
    Part p;
    double const w = L * rng.uni(0.7, 2);
    p.x0 = x;
    p.x1 = x + w;
    x += w;
    double const lc = L / rng.uni(4, 12);
    p.t = K / lc;
    p.lc = lc;
    p.c = rng.uni(0.25, 0.9);
    p.fis = i == 0 ? fuelMode || rng.chance(0.3) : rng.chance(0.2);
    p.name = names[(size_t)i];
    if (absMode && rng.chance(0.6)) {
      p.c = rng.uni(0.02, 0.15);
    }
    part.push_back(p);
    mats.push_back(material(p.name, p.t, p.c, p.fis, groups, rng));
    tags.push_back(occ::addRectangle(p.x0, y, 0, p.x1 - p.x0, H));
  }
  occ::synchronize();
  std::string what = vh::fmt("%d rectangles, Kn %g", n, kn);
  for (int i = 0; i < n; ++i) {
    int const pg = gm::addPhysicalGroup(2, {tags[(size_t)i]});
    gm::setPhysicalName(2, pg, "Material_" + part[(size_t)i].name);
    auto const & p = part[(size_t)i];
    what += vh::fmt(" [%s %g..%g total %g scattering %g%s]", p.name.c_str(), p.x0, p.x1, p.t, p.c, p.fis ? " fuel" : "");
  }
  if (n > 1) {
    g::vectorpair in, none, out;
    std::vector<g::vectorpair> map;
    for (int const t : tags) {
      in.emplace_back(2, t);
    }
    occ::groupPreservingFragment(in, none, out, map);
  }
  if (rng.chance(0.3)) {
    // another label that is no material
    g::vectorpair e;
    gm::getEntities(e, 2);
    int const pg = gm::addPhysicalGroup(2, {e[0].second});
    gm::setPhysicalName(2, pg, rng.chance(0.5) ? "Zone" : "Materials");
  }
  rng.shuffle(mats);
  Vector<um2::Material> const mm = toVec(mats);
  auto const isAbs = [](Part const & p) { return p.c < 0.2 && p.t > 0.9; };
  bool anyFuel = false, anyAbs = false;
  for (auto const & p : part) {
    anyFuel = anyFuel || p.fis;
    anyAbs = anyAbs || isAbs(p);
    if (std::fabs(p.t - 0.9) < 1e-6) {
      return;
    }
  }
  double const fthr = fuelMode ? rng.uni(0, 2) * 0.2 : -1, fsc = rng.uni(1, 1.5);
  double const athr = absMode ? rng.uni(0, 2) * 0.1 : -1, asc = rng.uni(1, 1.5);
  // ---- requests that must be refused
  if (rng.chance(0.5)) {
    auto refused = [&](char const * kind, Vector<um2::Material> const & v, double k, double ft, double at) {
      int rc = 0;
      bool const err = reports([&] { rc = msh::setMeshFieldFromKnudsenNumber(2, v, k, ft, 1.2, at, 1.2); });
      VH(rc == -1 && err, "size.accepted", "%s: %s: result %d, %s", what.c_str(), kind, rc, err ? "reported" : "not reported");
      vh::count("refused sizes");
    };
    switch (rng.range(0, 5)) {
    case 0: {
      auto v = mats;
      v.push_back(material("Other", 1, 0.5, false, groups, rng));
      refused("a material too many", toVec(v), kn, -1, -1);
      break;
    }
    case 1:
      if (n > 1) {
        auto v = mats;
        v.pop_back();
        refused("a material too few", toVec(v), kn, -1, -1);
      }
      break;
    case 2: {
      auto v = mats;
      v[(size_t)rng.range(0, n - 1)] = material(rng.chance(0.5) ? "Other" : mats[0].getName().data() + std::string("x"), 1, 0.5, false, groups, rng);
      refused("a material that is not there", toVec(v), kn, -1, -1);
      break;
    }
    case 3:
      refused("a number that is not positive", mm, rng.chance(0.5) ? 0 : -kn, -1, -1);
      break;
    case 4: {
      auto v = mats;
      auto & q = v[(size_t)rng.range(0, n - 1)];
      um2::Material e;
      e.setName(q.getName());
      q = e;
      refused("a material without data", toVec(v), kn, -1, -1);
      break;
    }
    default:
      if (!anyFuel) {
        refused("no fuel", mm, kn, 0.1, -1);
      } else if (!anyAbs) {
        refused("no absorber", mm, kn, -1, 0.1);
      }
      break;
    }
  }
  if ((fuelMode && !anyFuel) || (absMode && !anyAbs)) {
    return;
  }
  int const rc = msh::setMeshFieldFromKnudsenNumber(2, mm, kn, fthr, fsc, athr, asc);
  VH(rc == 0, "size.refused", "%s: refused", what.c_str());
  int const type = rng.chance(0.8) ? 0 : 2;
  msh::generateMesh(MT[type], rng.range(0, 5));
  auto const el = elements();
  if (!onlyType(el, type, what)) {
    return;
  }
  what += vh::fmt(", fuel %g %g, absorber %g %g, %zu elements", fthr, fsc, athr, asc, el.size());
  for (size_t i = 0; i < part.size(); ++i) {
    auto const & p = part[i];
    auto const h = [&](P2 c) {
      double s = p.lc;
      if (fuelMode && !p.fis && !isAbs(p)) {
        double d = 1e300;
        for (auto const & f : part) {
          if (f.fis) {
            d = std::min(d, std::max({(double)(f.x0 - c.x), (double)(c.x - f.x1), 0.0}));
          }
        }
        s = std::max(s, p.lc * (1 + fsc * (p.t * d - fthr)));
      }
      if (absMode && isAbs(p)) {
        double const d = std::min(std::min((double)c.x - p.x0, p.x1 - (double)c.x), std::min((double)c.y - y, y + H - (double)c.y));
        s = std::max(s, p.lc * (1 + asc * (p.t * d - athr)));
      }
      return s;
    };
    double sum = 0, lo = 0, hi = 0;
    int cnt = 0, all = 0;
    for (auto const & e : el) {
      P2 const c = centre(e);
      if (c.x < p.x0 || c.x > p.x1) {
        continue;
      }
      ++all;
      double const s = h(c);
      double const d = std::min(std::min((double)c.x - p.x0, p.x1 - (double)c.x), std::min((double)c.y - y, y + H - (double)c.y));
      if (d < 0.8 * s) {
        continue;
      }
      double const r = meanEdge(e) / s;
      sum += r;
      lo = cnt == 0 ? r : std::min(lo, r);
      hi = cnt == 0 ? r : std::max(hi, r);
      ++cnt;
    }
    VH(all > 0, "size.empty", "%s: no element in part %zu", what.c_str(), i);
    if (cnt < 10) {
      continue;
    }
    double const r = sum / cnt;
    // few elements are all shaped by the boundary
    double const tol = cnt < 40 ? 0.4 : 0.3;
    VH(r > 1 - tol && r < 1 + tol, "size.region", "%s: elements of part %zu are %.3g of the prescribed size (%d elements, %.3g to %.3g)", what.c_str(), i, r,
       cnt, lo, hi);
    vh::count("regions with prescribed size");
    if (fuelMode && !p.fis && !isAbs(p)) {
      vh::count("regions sized by their distance to fuel");
    }
    if (absMode && isAbs(p)) {
      vh::count("absorbers sized by their depth");
    }
  }
  vh::nontrivial(vh::hashStr(what));
  vh::sample(what);
  // a later geometry with one size for all of it
  if (rng.chance(0.3)) {
    g::clear();
    double const s = L / rng.uni(5, 12);
    occ::addRectangle(0, 0, 0, L, L);
    occ::synchronize();
    msh::setGlobalMeshSize(s);
    msh::generateMesh(MeshType::Tri, rng.range(0, 5));
    auto const e2 = elements();
    double sum = 0;
    for (auto const & e : e2) {
      sum += meanEdge(e);
    }
    double const r = sum / (double)e2.size() / s;
    VH(r > 0.75 && r < 1.25, "size.global_after", "%s, then a square with size %g: elements are %.3g of it", what.c_str(), s, r);
    vh::count("uniform sizes after prescribed ones");
  }
}

int
main(int argc, char ** argv)
{
  um2::logger::level = um2::logger::levels::off;
  um2::logger::exit_on_error = false;
  setenv("HOME", "/nonexistent", 1);
  return vh::run(argc, argv, "workflow", [](vh::Rng & rng, uint64_t) {
    startSession(); // options last as long as a session
    if (rng.chance(0.6)) {
      pins(rng);
    } else {
      sizes(rng);
    }
    g::finalize();
  });
}
