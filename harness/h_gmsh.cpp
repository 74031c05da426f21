// C32: labelled shapes through the geometry kernel; labels of points against the shapes.
#include "vh.hpp"

#include <um2/common/logger.hpp>
#include <um2/gmsh/base_gmsh_api.hpp>
#include <um2/gmsh/io.hpp>
#include <um2/gmsh/model.hpp>
#include <um2/mpact/model.hpp>

#include <algorithm>
#include <array>
#include <set>

namespace g = um2::gmsh;
namespace gm = um2::gmsh::model;
namespace occ = um2::gmsh::model::occ;
using Labels = std::set<std::string>;
using um2::Vec2F;
using um2::Vector;

static um2::String
umS(std::string const & s)
{
  return um2::String(s.c_str());
}

template <class F>
static bool
reports(F && f)
{
  vh::Capture cap;
  um2::logger::level = um2::logger::levels::error;
  f();
  um2::logger::level = um2::logger::levels::off;
  cap.stop();
  return cap.err.find("ERROR") != std::string::npos || cap.out.find("ERROR") != std::string::npos;
}

struct P3 {
  double x, y, z;
};

struct Shape {
  int kind = 0; // 0 rectangle, 1 disk, 2 box, 3 cylinder (z), 4 sphere
  double a[6] = {};
  int tag = 0;
  int role = 0; // 0 object, 1 tool, 2 not involved
  Labels labels;
  // signed distance-like: > 0 inside; magnitude bounds the distance to the boundary
  double
  inside(P3 const & p) const
  {
    switch (kind) {
    case 0:
      return std::min({p.x - a[0], a[0] + a[2] - p.x, p.y - a[1], a[1] + a[3] - p.y});
    case 1:
      return a[2] - std::hypot(p.x - a[0], p.y - a[1]);
    case 2:
      return std::min({p.x - a[0], a[0] + a[3] - p.x, p.y - a[1], a[1] + a[4] - p.y, p.z - a[2], a[2] + a[5] - p.z});
    case 3:
      return std::min({a[4] - std::hypot(p.x - a[0], p.y - a[1]), p.z - a[2], a[2] + a[3] - p.z});
    default:
      return a[3] - std::sqrt((p.x - a[0]) * (p.x - a[0]) + (p.y - a[1]) * (p.y - a[1]) + (p.z - a[2]) * (p.z - a[2]));
    }
  }
  double
  measure() const
  {
    switch (kind) {
    case 0:
      return a[2] * a[3];
    case 1:
      return M_PI * a[2] * a[2];
    case 2:
      return a[3] * a[4] * a[5];
    case 3:
      return M_PI * a[4] * a[4] * a[3];
    default:
      return 4 * M_PI / 3 * a[3] * a[3] * a[3];
    }
  }
  void
  add()
  {
    switch (kind) {
    case 0:
      tag = occ::addRectangle(a[0], a[1], 0, a[2], a[3]);
      break;
    case 1:
      tag = occ::addDisk(a[0], a[1], 0, a[2], a[2]);
      break;
    case 2:
      tag = occ::addBox(a[0], a[1], a[2], a[3], a[4], a[5]);
      break;
    case 3:
      tag = occ::addCylinder(a[0], a[1], a[2], 0, 0, a[3], a[4]);
      break;
    default:
      tag = occ::addSphere(a[0], a[1], a[2], a[3]);
      break;
    }
  }
  std::string
  str() const
  {
    char const * n[] = {"rectangle", "disk", "box", "cylinder", "sphere"};
    std::string s = vh::fmt("%s(%g %g %g %g %g %g) role %d tag %d {", n[kind], a[0], a[1], a[2], a[3], a[4], a[5], role, tag);
    for (auto const & l : labels) {
      s += l + ",";
    }
    return s + "}";
  }
};

static std::string
str(Labels const & l)
{
  std::string s = "{";
  for (auto const & x : l) {
    s += x + ",";
  }
  return s + "}";
}

static std::string
str(std::multiset<Labels> const & m)
{
  std::string s;
  for (auto const & l : m) {
    s += str(l) + " ";
  }
  return "[" + s + "]";
}

// Labels of all entities of a dimension.
static std::map<int, Labels>
entityLabels(int dim, bool * duplicates = nullptr)
{
  std::map<int, Labels> r;
  g::vectorpair ents;
  gm::getEntities(ents, dim);
  for (auto const & e : ents) {
    r[e.second];
  }
  g::vectorpair groups;
  gm::getPhysicalGroups(groups, dim);
  for (auto const & d : groups) {
    std::string name;
    gm::getPhysicalName(dim, d.second, name);
    std::vector<int> tags;
    gm::getEntitiesForPhysicalGroup(dim, d.second, tags);
    for (int const t : tags) {
      if (!r[t].insert(name).second && duplicates != nullptr) {
        *duplicates = true;
      }
    }
  }
  return r;
}

struct Box {
  double b[6];
  bool
  has(P3 const & p) const
  {
    return p.x >= b[0] - 1e-6 && p.y >= b[1] - 1e-6 && p.z >= b[2] - 1e-6 && p.x <= b[3] + 1e-6 && p.y <= b[4] + 1e-6 &&
           p.z <= b[5] + 1e-6;
  }
};

// The kernel cannot rebuild some faces of sound arrangements; any other complaint is about what it
// was asked to do.
static bool
kernelGaveUp(std::runtime_error const & e)
{
  return std::string(e.what()).find("Could not fix wire") != std::string::npos;
}

struct Located {
  int dim = 2;
  std::map<int, Labels> ents;
  std::map<int, Box> boxes;
  explicit Located(int d, bool * dup = nullptr) : dim(d), ents(entityLabels(d, dup))
  {
    for (auto const & e : ents) {
      Box b;
      gm::getBoundingBox(d, e.first, b.b[0], b.b[1], b.b[2], b.b[3], b.b[4], b.b[5]);
      boxes[e.first] = b;
    }
  }
  std::vector<int>
  exactlyAt(P3 const & p) const
  {
    std::vector<int> r;
    for (auto const & e : boxes) {
      if (e.second.has(p) && gm::isInside(dim, e.first, {p.x, p.y, p.z}) > 0) {
        r.push_back(e.first);
      }
    }
    return r;
  }
  // The kernel misplaces single points, though not their neighbours: take what most of three
  // points give, which are all farther from any boundary than from each other.
  std::vector<int>
  at(P3 const & p) const
  {
    auto const first = exactlyAt(p);
    auto const second = exactlyAt({p.x + 4e-4, p.y + 2e-4, p.z});
    if (first == second) {
      return first;
    }
    auto const third = exactlyAt({p.x - 3e-4, p.y + 3e-4, p.z});
    return third == second ? second : first;
  }
  std::multiset<Labels>
  labels(P3 const & p) const
  {
    std::multiset<Labels> r;
    for (int const t : at(p)) {
      r.insert(ents.at(t));
    }
    return r;
  }
  P3
  sample(vh::Rng & rng, int tag) const
  {
    auto const & b = boxes.at(tag).b;
    return {rng.uni(b[0], b[3]), rng.uni(b[1], b[4]), dim == 2 ? 0.5 * (b[2] + b[5]) : rng.uni(b[2], b[5])};
  }
};

static std::vector<std::string> const MATS = {"Fuel", "Clad", "Water", "Boron 10", "a", "Zr-4"};
static std::vector<std::string> const OTHER = {"Zone_1", "A", "left half", "Material", "Materials_x", "region", "Coarse"};

static std::array<int, 4>
matColor(std::string const & name)
{
  uint64_t const h = vh::hashStr(name);
  return {(int)(h & 255), (int)((h >> 8) & 255), (int)((h >> 16) & 255), 255};
}

static um2::Material
material(std::string const & name)
{
  um2::Material m;
  m.setName(umS(name));
  auto const c = matColor(name);
  m.setColor(um2::Color(c[0], c[1], c[2], c[3]));
  return m;
}

static Labels
reduce(Labels const & l, std::vector<std::string> const & hierarchy)
{
  Labels r;
  for (auto const & x : l) {
    if (x.rfind("Material_", 0) != 0 || std::find(hierarchy.begin(), hierarchy.end(), x.substr(9)) == hierarchy.end()) {
      r.insert(x);
    }
  }
  for (auto const & h : hierarchy) {
    if (l.count("Material_" + h) > 0) {
      r.insert("Material_" + h);
      break;
    }
  }
  return r;
}

static void
freshModel()
{
  g::clear();
  gm::add("m");
}

// Compare the colours of listed materials.
static void
checkColors(Located const & loc, std::vector<std::string> const & hierarchy, std::string const & what)
{
  for (auto const & e : loc.ents) {
    for (auto const & h : hierarchy) {
      if (e.second.count("Material_" + h) > 0) {
        int c[4] = {};
        gm::getColor(loc.dim, e.first, c[0], c[1], c[2], c[3]);
        auto const w = matColor(h);
        VH(c[0] == w[0] && c[1] == w[1] && c[2] == w[2] && c[3] == w[3], "color",
           "%s: entity %d with material %s has colour %d %d %d %d", what.c_str(), e.first, h.c_str(), c[0], c[1], c[2], c[3]);
        vh::count("coloured pieces");
      }
    }
  }
}

//==============================================================================
// Save and open
//==============================================================================

struct Probe {
  int dim;
  P3 p;
  std::multiset<Labels> labels;
  std::multiset<std::array<int, 4>> colors;
};

static std::multiset<std::array<int, 4>>
colorsAt(Located const & l, P3 const & p)
{
  std::multiset<std::array<int, 4>> r;
  for (int const t : l.at(p)) {
    std::array<int, 4> c{};
    gm::getColor(l.dim, t, c[0], c[1], c[2], c[3]);
    r.insert(c);
  }
  return r;
}

using LowKey = std::array<long, 3>;
static std::multimap<LowKey, Labels>
lowLabels(int dim)
{
  std::multimap<LowKey, Labels> r;
  for (auto const & e : entityLabels(dim)) {
    Box b;
    gm::getBoundingBox(dim, e.first, b.b[0], b.b[1], b.b[2], b.b[3], b.b[4], b.b[5]);
    LowKey k;
    for (size_t i = 0; i < 3; ++i) {
      k[i] = std::lround((b.b[i] + b.b[i + 3]) * 0.5e4);
    }
    r.insert({k, e.second});
  }
  return r;
}

static void
roundTrip(vh::Rng & rng, int dim, std::vector<P3> const & pts, std::string const & what, bool operated)
{
  // label some curves and points, too
  for (int d = 0; d < 2; ++d) {
    if (rng.chance(0.5)) {
      g::vectorpair ents;
      gm::getEntities(ents, d);
      std::vector<int> tags;
      double const p = rng.u();
      for (auto const & e : ents) {
        if (rng.chance(p)) {
          tags.push_back(e.second);
        }
      }
      if (!tags.empty()) {
        gm::addPhysicalGroup(d, tags, -1, d == 0 ? "corner" : "edge");
        vh::count(d == 0 ? "labelled points" : "labelled curves");
      }
    }
  }
  std::vector<Probe> probes;
  size_t manyTags = 0;
  Located const before(dim);
  for (auto const & p : pts) {
    probes.push_back({dim, p, before.labels(p), colorsAt(before, p)});
  }
  auto const b0 = lowLabels(0);
  auto const b1 = lowLabels(1);
  g::vectorpair groups;
  gm::getPhysicalGroups(groups);
  for (auto const & d : groups) {
    std::vector<int> tags;
    gm::getEntitiesForPhysicalGroup(d.first, d.second, tags);
    manyTags = std::max(manyTags, tags.size());
  }
  std::string const path = vh::ctx().scratch + "/x.brep";
  g::write(path, true);
  freshModel();
  bool const err = reports([&] { g::open(path, true); });
  VH(!err, "open.reported", "%s: an error was reported", what.c_str());
  Located const after(dim);
  VH(after.ents.size() == before.ents.size(), "open.entities", "%s: %zu entities instead of %zu", what.c_str(), after.ents.size(),
     before.ents.size());
  for (auto const & pr : probes) {
    auto const l = after.labels(pr.p);
    VH(l == pr.labels, "open.labels", "%s: at (%g %g %g) %s instead of %s", what.c_str(), pr.p.x, pr.p.y, pr.p.z, str(l).c_str(),
       str(pr.labels).c_str());
    VH(colorsAt(after, pr.p) == pr.colors, "open.colors", "%s: colour at (%g %g %g) changed", what.c_str(), pr.p.x, pr.p.y, pr.p.z);
  }
  for (int d = 0; d < 2; ++d) {
    using Set = std::multiset<std::pair<LowKey, Labels>>;
    auto const & bm = d == 0 ? b0 : b1;
    auto const am = lowLabels(d);
    Set const bs(bm.begin(), bm.end());
    Set const as(am.begin(), am.end());
    if (as != bs) {
      std::string diff;
      for (auto const & x : as) {
        if (as.count(x) != bs.count(x)) {
          diff = vh::fmt("(%g %g %g) now has %s", x.first[0] * 1e-4, x.first[1] * 1e-4, x.first[2] * 1e-4, str(x.second).c_str());
          break;
        }
      }
      vh::fail(operated ? "open.lower_labels_after_operation" : "open.lower_labels", "%zu entities were %zu, %s: %s", as.size(), bs.size(), diff.c_str(), what.c_str());
    }
  }
  vh::count("saved and opened models");
  if (manyTags > 8) {
    vh::count("saved groups of more than eight entities");
  }
}

//==============================================================================
// Boolean operations
//==============================================================================

static Shape
randShape(vh::Rng & rng, int dim, double size, bool grid)
{
  Shape s;
  auto const c = [&] { return grid ? rng.range(0, 2 * (int)size) * 0.5 : rng.uni(0, size); };
  auto const ext = [&] { return grid ? rng.range(1, (int)size) * 0.5 : rng.uni(0.3, size / 2); };
  if (dim == 2) {
    s.kind = rng.chance(0.5) ? 0 : 1;
    if (s.kind == 0) {
      s.a[0] = c();
      s.a[1] = c();
      s.a[2] = ext();
      s.a[3] = ext();
    } else {
      s.a[0] = rng.uni(0, size);
      s.a[1] = rng.uni(0, size);
      s.a[2] = rng.uni(0.3, size / 3);
    }
  } else {
    int const k = rng.range(0, 9);
    s.kind = k < 6 ? 2 : (k < 9 ? 3 : 4);
    if (s.kind == 2) {
      for (int i = 0; i < 3; ++i) {
        s.a[i] = c();
        s.a[i + 3] = ext();
      }
    } else if (s.kind == 3) {
      s.a[0] = rng.uni(0, size);
      s.a[1] = rng.uni(0, size);
      s.a[2] = c();
      s.a[3] = ext();
      s.a[4] = rng.uni(0.3, size / 3);
    } else {
      s.a[0] = rng.uni(0, size);
      s.a[1] = rng.uni(0, size);
      s.a[2] = rng.uni(0, size);
      s.a[3] = rng.uni(0.3, size / 3);
    }
  }
  return s;
}

static void
booleans(vh::Rng & rng)
{
  freshModel();
  int const dim = rng.chance(0.88) ? 2 : 3;
  int const op = rng.range(0, 9);
  int const kind = op < 6 ? 0 : (op < 8 ? 1 : 2); // fragment, intersect, cut
  int const nmax = dim == 2 ? (rng.chance(0.2) ? 14 : 6) : 4;
  int const n = rng.range(2, nmax);
  double const size = rng.range(2, 6);
  bool const grid = rng.chance(0.6);
  std::vector<Shape> sh;
  for (int i = 0; i < n; ++i) {
    Shape s = randShape(rng, dim, size, grid);
    s.role = i == 0 ? 0 : (i == 1 ? 1 : (rng.chance(0.15) ? 2 : rng.range(0, 1)));
    if (rng.chance(0.8)) {
      s.labels.insert("Material_" + rng.pick(MATS));
      if (rng.chance(0.05)) {
        s.labels.insert("Material_" + rng.pick(MATS));
      }
    }
    for (auto const & o : OTHER) {
      if (rng.chance(0.15)) {
        s.labels.insert(o);
      }
    }
    sh.push_back(s);
  }
  rng.shuffle(sh);
  for (auto & s : sh) {
    s.add();
  }
  occ::synchronize();
  std::map<std::string, std::vector<int>> groups;
  for (auto const & s : sh) {
    for (auto const & l : s.labels) {
      groups[l].push_back(s.tag);
    }
  }
  std::vector<std::string> names;
  for (auto & gr : groups) {
    std::sort(gr.second.begin(), gr.second.end());
    names.push_back(gr.first);
  }
  rng.shuffle(names);
  for (auto const & nm : names) {
    auto const & tags = groups[nm];
    if (tags.size() > 1 && rng.chance(0.5)) {
      // in two steps, the second possibly naming some again
      std::vector<int> first, second;
      for (int const t : tags) {
        bool const f = rng.chance(0.5);
        (f ? first : second).push_back(t);
      }
      if (first.empty()) {
        std::swap(first, second);
      }
      if (!second.empty() && rng.chance(0.2)) {
        second.push_back(first[0]);
        std::sort(second.begin(), second.end());
      }
      gm::addToPhysicalGroup(dim, first, -1, nm);
      if (!second.empty()) {
        gm::addToPhysicalGroup(dim, second, -1, nm);
        vh::count("labels extended");
      }
    } else {
      gm::addPhysicalGroup(dim, tags, -1, nm);
    }
  }
  std::vector<std::string> hierarchy;
  if (kind != 2 && rng.chance(0.6)) {
    hierarchy = MATS;
    rng.shuffle(hierarchy);
    if (rng.chance(0.3)) {
      hierarchy.resize((size_t)rng.range(1, (int)MATS.size()));
    }
  }
  std::vector<um2::Material> hm;
  for (auto const & h : hierarchy) {
    hm.push_back(material(h));
  }
  g::vectorpair obj, tool, out;
  for (auto const & s : sh) {
    if (s.role < 2) {
      (s.role == 0 ? obj : tool).emplace_back(dim, s.tag);
    }
  }
  std::sort(obj.begin(), obj.end());
  std::sort(tool.begin(), tool.end());
  char const * ops[] = {"fragment", "intersect", "cut"};
  std::string what = vh::fmt("%s %dD:", ops[kind], dim);
  for (auto const & s : sh) {
    what += " " + s.str();
  }
  what += "; priority";
  for (auto const & h : hierarchy) {
    what += " " + h;
  }
  bool const keepTool = rng.chance(kind == 2 ? 0.5 : 0.15);
  bool const keepObject = rng.chance(0.15);
  if (keepTool) {
    what += " (tools kept)";
  }
  if (keepObject) {
    what += " (objects kept)";
  }
  std::vector<g::vectorpair> map;
  bool const invalid = rng.chance(0.04);
  if (invalid) {
    int const k = rng.range(0, 3);
    g::vectorpair o2 = obj, t2 = tool;
    if (k == 0) {
      o2.clear();
    } else if (k == 1) {
      t2.clear();
    } else if (k == 2) {
      t2.push_back(t2[0]);
    } else {
      t2.insert(t2.begin(), {1, 1});
    }
    auto const pre = entityLabels(dim);
    bool const err = reports([&] {
      if (kind == 0) {
        occ::groupPreservingFragment(o2, t2, out, map, hm);
      } else if (kind == 1) {
        occ::groupPreservingIntersect(o2, t2, out, map, hm);
      } else {
        occ::groupPreservingCut(o2, t2, out, map);
      }
    });
    VH(err, "invalid.not_reported", "%s (invalid %d)", what.c_str(), k);
    VH(entityLabels(dim) == pre, "invalid.changed", "%s: a rejected request (%d) changed the labels", what.c_str(), k);
    vh::count("rejected operations");
    return;
  }
  try {
    if (kind == 0) {
      occ::groupPreservingFragment(obj, tool, out, map, hm, -1, !keepObject, !keepTool);
    } else if (kind == 1) {
      occ::groupPreservingIntersect(obj, tool, out, map, hm, -1, !keepObject, !keepTool);
    } else {
      occ::groupPreservingCut(obj, tool, out, map, -1, !keepObject, !keepTool);
    }
  } catch (std::runtime_error const & e) {
    VH(kernelGaveUp(e), "exception", "%s: %s", what.c_str(), e.what());
    vh::count("arrangements the kernel could not handle");
    return;
  } catch (std::exception const & e) {
    vh::fail("exception", "%s: %s", what.c_str(), e.what());
    return;
  }
  bool dup = false;
  Located const loc(dim, &dup);
  VH(!dup, "labels.repeated", "%s: an entity is listed twice in a group or a group exists twice", what.c_str());
  vh::count(vh::fmt("%s operations", ops[kind]));
  vh::count(dim == 2 ? "operations on areas" : "operations on volumes");
  // points
  std::vector<P3> pts;
  int const np = dim == 2 ? 40 : 15;
  for (int i = 0; i < np; ++i) {
    P3 p{rng.uni(-0.5, size * 1.5), rng.uni(-0.5, size * 1.5), dim == 2 ? 0 : rng.uni(-0.5, size * 1.5)};
    if (i % 2 == 0) {
      // inside some shape
      Shape const & s = sh[(size_t)rng.range(0, n - 1)];
      for (int k = 0; k < 30 && s.inside(p) < 0; ++k) {
        p = {rng.uni(-0.5, size * 1.5), rng.uni(-0.5, size * 1.5), dim == 2 ? 0 : rng.uni(-0.5, size * 1.5)};
      }
    }
    pts.push_back(p);
  }
  for (auto const & e : loc.ents) {
    for (int k = 0; k < 4; ++k) {
      pts.push_back(loc.sample(rng, e.first));
    }
  }
  int overlapping = 0;
  std::vector<P3> good;
  for (auto const & p : pts) {
    bool sure = true;
    for (auto const & s : sh) {
      sure = sure && std::fabs(s.inside(p)) > 2e-3;
    }
    if (!sure) {
      continue;
    }
    std::multiset<Labels> exp;
    Labels inOp;
    int no = 0, nt = 0;
    for (auto const & s : sh) {
      if (s.inside(p) < 0) {
        continue;
      }
      if (s.role == 2) {
        exp.insert(reduce(s.labels, hierarchy));
        continue;
      }
      (s.role == 0 ? no : nt)++;
      if (s.role == 1 ? keepTool : keepObject) {
        exp.insert(reduce(s.labels, hierarchy));
      }
      if (kind != 2 || s.role == 0) {
        inOp.insert(s.labels.begin(), s.labels.end());
      }
    }
    bool const present = kind == 0 ? no + nt > 0 : (kind == 1 ? no > 0 && nt > 0 : no > 0 && nt == 0);
    if (present) {
      exp.insert(reduce(inOp, hierarchy));
    }
    if (no + nt > 1) {
      ++overlapping;
    }
    auto const got = loc.labels(p);
    bool same = got == exp;
    if (keepTool || keepObject) {
      // a kept shape may be one of the pieces itself
      std::set<Labels> const gs(got.begin(), got.end());
      std::set<Labels> const es(exp.begin(), exp.end());
      same = gs == es || (std::includes(es.begin(), es.end(), gs.begin(), gs.end()) &&
                          (!present || gs.count(reduce(inOp, hierarchy)) > 0) && gs.empty() == es.empty());
      vh::count("points in models with kept shapes");
    }
    VH(same, vh::fmt("labels.%s", ops[kind]), "%s: at (%g %g %g) %s instead of %s", what.c_str(), p.x, p.y, p.z, str(got).c_str(),
       str(exp).c_str());
    vh::count("points");
    good.push_back(p);
  }
  vh::count("points in overlaps", overlapping);
  // whole measure
  if (kind == 0 && hierarchy.empty() && !keepTool && !keepObject) {
    for (auto const & gr : groups) {
      if (gr.second.size() != 1) {
        continue;
      }
      double m = 0;
      for (auto const & e : loc.ents) {
        if (e.second.count(gr.first) > 0) {
          double q = 0;
          occ::getMass(dim, e.first, q);
          m += q;
        }
      }
      for (auto const & s : sh) {
        if (s.tag == gr.second[0]) {
          VH(vh::near(m, s.measure(), dim == 2 ? 1e-5 : 1e-3), "measure", "%s: label %s covers %.12g instead of %.12g", what.c_str(), gr.first.c_str(), m,
             s.measure());
          vh::count("measures of labels");
        }
      }
    }
  }
  checkColors(loc, hierarchy, what);
  if (overlapping > 2) {
    vh::nontrivial(vh::hashStr(what));
  }
  vh::sample(what);
  // materials of the model
  {
    std::vector<um2::Material> ms;
    gm::getMaterials(ms);
    std::multiset<std::string> got, exp;
    for (auto const & m : ms) {
      got.insert(m.getName().data());
    }
    std::set<std::string> u;
    for (auto const & e : loc.ents) {
      for (auto const & l : e.second) {
        if (l.rfind("Material_", 0) == 0) {
          u.insert(l.substr(9));
        }
      }
    }
    exp.insert(u.begin(), u.end());
    VH(got == exp, "materials", "%s: %zu materials listed, %zu present", what.c_str(), got.size(), exp.size());
  }
  if (!loc.ents.empty() && rng.chance(0.35)) {
    roundTrip(rng, dim, good, what, true);
  }
}

//==============================================================================
// Pins, lattices and the coarse grid
//==============================================================================

struct Ring {
  double x, y;
  std::vector<double> r;
  std::vector<std::string> m;
};

static void
lattice(vh::Rng & rng)
{
  freshModel();
  std::vector<Ring> rings;
  std::vector<double> px{0}, py{0};
  std::string what = "lattice";
  bool const origin = rng.chance(0.6);
  double ox = origin ? 0 : rng.uni(-3, 3);
  double oy = origin ? 0 : rng.uni(-3, 3);
  bool const single = rng.chance(0.25);
  if (single) {
    double const w = rng.uni(0.5, 3);
    px.push_back(w);
    py.push_back(w);
    ox = rng.chance(0.5) ? 0 : ox;
    Ring r{ox + w / 2, oy + w / 2, {}, {}};
    int const n = rng.range(1, 5);
    double q = 0;
    for (int i = 0; i < n; ++i) {
      q += rng.uni(0.02, 0.45 * w / n);
      r.r.push_back(q);
      r.m.push_back(rng.pick(MATS));
    }
    Vector<Float> radii;
    Vector<um2::Material> mats;
    for (int i = 0; i < n; ++i) {
      radii.push_back(static_cast<Float>(r.r[(size_t)i]));
      mats.push_back(material(r.m[(size_t)i]));
    }
    auto const tags = occ::addCylindricalPin2D(Vec2F(static_cast<Float>(r.x), static_cast<Float>(r.y)), radii, mats);
    VH(tags.size() == n, "pin.tags", "%d tags for %d rings", tags.size(), n);
    rings.push_back(r);
    vh::count("single pins");
  } else {
    int const nx = rng.range(1, 4);
    int const ny = rng.range(1, 4);
    // columns and rows have their own widths; types are (column kind, row kind, variant)
    int const ncw = rng.range(1, 2);
    int const nrh = rng.range(1, 2);
    std::vector<double> cw, rh;
    for (int i = 0; i < ncw; ++i) {
      cw.push_back(rng.uni(0.8, 2));
    }
    for (int i = 0; i < nrh; ++i) {
      rh.push_back(rng.uni(0.8, 2));
    }
    std::vector<int> ck, rk;
    for (int i = 0; i < nx; ++i) {
      ck.push_back(rng.range(0, ncw - 1));
      px.push_back(px.back() + cw[(size_t)ck.back()]);
    }
    for (int j = 0; j < ny; ++j) {
      rk.push_back(rng.range(0, nrh - 1));
      py.push_back(py.back() + rh[(size_t)rk.back()]);
    }
    int const nvar = rng.range(1, 3);
    Vector<Vector<Float>> radii;
    Vector<Vector<um2::Material>> mats;
    Vector<Vec2F> xy;
    std::vector<Ring> types;
    for (int c = 0; c < ncw; ++c) {
      for (int r = 0; r < nrh; ++r) {
        for (int v = 0; v < nvar; ++v) {
          double const w = std::min(cw[(size_t)c], rh[(size_t)r]);
          Ring t{0, 0, {}, {}};
          int const n = rng.range(0, 3);
          double q = 0;
          Vector<Float> rr;
          Vector<um2::Material> mm;
          for (int i = 0; i < n; ++i) {
            q += rng.uni(0.02, 0.45 * w / n);
            t.r.push_back(q);
            t.m.push_back(rng.pick(MATS));
            rr.push_back(static_cast<Float>(q));
            mm.push_back(material(t.m.back()));
          }
          types.push_back(t);
          radii.push_back(rr);
          mats.push_back(mm);
          xy.push_back(Vec2F(static_cast<Float>(cw[(size_t)c]), static_cast<Float>(rh[(size_t)r])));
        }
      }
    }
    Vector<Vector<Int>> ids;
    for (int jj = 0; jj < ny; ++jj) {
      int const j = ny - 1 - jj; // first row is the top one
      Vector<Int> row;
      for (int i = 0; i < nx; ++i) {
        int const t = (ck[(size_t)i] * nrh + rk[(size_t)j]) * nvar + rng.range(0, nvar - 1);
        row.push_back(t);
        Ring r = types[(size_t)t];
        r.x = ox + (px[(size_t)i] + px[(size_t)i + 1]) / 2;
        r.y = oy + (py[(size_t)j] + py[(size_t)j + 1]) / 2;
        if (!r.r.empty()) {
          rings.push_back(r);
        }
      }
      ids.push_back(row);
    }
    size_t total = 0;
    for (auto const & r : rings) {
      total += r.r.size();
    }
    Vector<Int> tags;
    bool const err =
        reports([&] { tags = occ::addCylindricalPinLattice2D(ids, xy, radii, mats, Vec2F(static_cast<Float>(ox), static_cast<Float>(oy))); });
    VH(!err, "lattice.reported", "an error was reported");
    VH(tags.size() == (Int)total, "lattice.tags", "%d tags for %zu rings", tags.size(), total);
    vh::count("pin lattices");
    what += vh::fmt(" %d x %d of %zu types", nx, ny, types.size());
  }
  double const x0 = ox, x1 = ox + px.back(), y0 = oy, y1 = oy + py.back();
  auto const matAt = [&](P3 const & p, bool & sure) -> std::string {
    for (auto const & r : rings) {
      double const d = std::hypot(p.x - r.x, p.y - r.y);
      for (double const q : r.r) {
        sure = sure && std::fabs(d - q) > 1e-3;
      }
      for (size_t i = 0; i < r.r.size(); ++i) {
        if (d < r.r[i]) {
          return r.m[i];
        }
      }
    }
    return "";
  };
  {
    bool dup = false;
    Located const loc(2, &dup);
    VH(!dup, "labels.repeated", "%s", what.c_str());
    std::vector<P3> good;
    for (int i = 0; i < 60; ++i) {
      P3 p{rng.uni(x0 - 0.1, x1 + 0.1), rng.uni(y0 - 0.1, y1 + 0.1), 0};
      if (!rings.empty() && rng.chance(0.7)) {
        auto const & r = rings[(size_t)rng.range(0, (int)rings.size() - 1)];
        p.x = r.x + rng.uni(-1, 1) * r.r.back();
        p.y = r.y + rng.uni(-1, 1) * r.r.back();
      }
      bool sure = true;
      auto const m = matAt(p, sure);
      if (!sure) {
        continue;
      }
      std::multiset<Labels> exp;
      if (!m.empty()) {
        exp.insert({"Material_" + m});
      }
      auto const got = loc.labels(p);
      VH(got == exp, "lattice.labels", "%s: at (%g %g) %s instead of %s", what.c_str(), p.x, p.y, str(got).c_str(), str(exp).c_str());
      good.push_back(p);
      vh::count("points in lattices");
    }
    checkColors(loc, MATS, what);
    if (rng.chance(0.2) && !loc.ents.empty()) {
      roundTrip(rng, 2, good, what, false);
      return;
    }
  }
  if (ox != 0 || oy != 0 || rings.empty()) {
    return; // the grid starts at the origin
  }
  // a grid of cells over the lattice: its own lines or the pins'
  std::vector<double> gx, gy;
  auto const lines = [&](std::vector<double> const & pitch, std::vector<double> & out) {
    if (rng.chance(0.6)) {
      out = pitch;
      return;
    }
    out = {0};
    int const n = rng.range(1, 4);
    for (int i = 0; i < n; ++i) {
      out.push_back(out.back() + rng.uni(0.3, pitch.back() * 1.2 / n));
    }
  };
  lines(px, gx);
  lines(py, gy);
  int const nx = (int)gx.size() - 1;
  int const ny = (int)gy.size() - 1;
  // cells: repeated when equal sizes and with some chance
  um2::mpact::Model mdl;
  std::vector<std::array<double, 2>> cells;
  std::vector<int> id((size_t)(nx * ny));
  std::vector<std::array<int, 2>> where;
  double const reuse = rng.chance(0.5) ? 0 : rng.u();
  for (int j = 0; j < ny; ++j) {
    for (int i = 0; i < nx; ++i) {
      double const w = gx[(size_t)i + 1] - gx[(size_t)i];
      double const h = gy[(size_t)j + 1] - gy[(size_t)j];
      int c = -1;
      if (rng.chance(reuse)) {
        for (size_t k = 0; k < cells.size(); ++k) {
          if (std::fabs(cells[k][0] - w) < 1e-9 && std::fabs(cells[k][1] - h) < 1e-9) {
            c = (int)k;
          }
        }
      }
      if (c < 0) {
        c = (int)cells.size();
        cells.push_back({w, h});
        where.push_back({i, j});
        mdl.addCoarseCell(Vec2F(static_cast<Float>(w), static_cast<Float>(h)));
      }
      id[(size_t)(j * nx + i)] = c;
    }
  }
  // one module, or one per cell, or one lattice per cell
  int const nest = rng.range(0, 2);
  auto const grid2 = [&](std::vector<int> const & v) {
    Vector<Vector<Int>> r;
    for (int j = ny - 1; j >= 0; --j) {
      Vector<Int> row;
      for (int i = 0; i < nx; ++i) {
        row.push_back(v[(size_t)(j * nx + i)]);
      }
      r.push_back(row);
    }
    return r;
  };
  auto const one = [](int v) { return Vector<Vector<Int>>{{(Int)v}}; };
  Float const half = static_cast<Float>(0.5); // the special value for plane models
  Vector<Float> const z{-half, half};
  if (nest == 0) {
    mdl.addRTM(grid2(id));
    mdl.addLattice(one(0));
    mdl.addAssembly({0}, z);
    mdl.addCore(one(0));
  } else {
    // all modules of a model have one size
    for (auto const & c : cells) {
      if (std::fabs(c[0] - cells[0][0]) > 1e-9 || std::fabs(c[1] - cells[0][1]) > 1e-9) {
        return;
      }
    }
    for (size_t c = 0; c < cells.size(); ++c) {
      mdl.addRTM(one((int)c));
    }
    if (nest == 1) {
      mdl.addLattice(grid2(id));
      mdl.addAssembly({0}, z);
      mdl.addCore(one(0));
    } else {
      for (size_t c = 0; c < cells.size(); ++c) {
        mdl.addLattice(one((int)c));
        mdl.addAssembly({(Int)c}, z);
      }
      mdl.addCore(grid2(id));
    }
  }
  std::string const fill = rng.chance(0.5) ? "Moderator" : rng.pick(MATS);
  try {
    occ::overlayCoarseGrid(mdl, material(fill));
  } catch (std::runtime_error const & e) {
    VH(kernelGaveUp(e), "overlay.exception", "%s: %s", what.c_str(), e.what());
    vh::count("arrangements the kernel could not handle");
    return;
  } catch (std::exception const & e) {
    vh::fail("overlay.exception", "%s: %s", what.c_str(), e.what());
    return;
  }
  what += vh::fmt(", grid %d x %d of %zu cells, nesting %d, fill %s", nx, ny, cells.size(), nest, fill.c_str());
  bool dup = false;
  Located const loc(2, &dup);
  VH(!dup, "labels.repeated", "%s", what.c_str());
  std::vector<P3> pts, good;
  for (int i = 0; i < 60; ++i) {
    pts.push_back({rng.uni(-0.2, std::max(gx.back(), x1) + 0.2), rng.uni(-0.2, std::max(gy.back(), y1) + 0.2), 0});
  }
  for (auto const & e : loc.ents) {
    for (int k = 0; k < 3; ++k) {
      pts.push_back(loc.sample(rng, e.first));
    }
  }
  for (auto const & p : pts) {
    bool sure = true;
    std::string m = matAt(p, sure);
    for (double const v : gx) {
      sure = sure && std::fabs(p.x - v) > 1e-3;
    }
    for (double const v : gy) {
      sure = sure && std::fabs(p.y - v) > 1e-3;
    }
    if (!sure) {
      continue;
    }
    std::multiset<Labels> exp;
    int const i = (int)(std::upper_bound(gx.begin(), gx.end(), p.x) - gx.begin()) - 1;
    int const j = (int)(std::upper_bound(gy.begin(), gy.end(), p.y) - gy.begin()) - 1;
    if (i >= 0 && i < nx && j >= 0 && j < ny) {
      int const c = id[(size_t)(j * nx + i)];
      if (where[(size_t)c][0] == i && where[(size_t)c][1] == j) {
        exp.insert({vh::fmt("Coarse_Cell_%05d", c), "Material_" + (m.empty() ? fill : m)});
      }
    }
    auto const got = loc.labels(p);
    VH(got == exp, "overlay.labels", "%s: at (%g %g) %s instead of %s", what.c_str(), p.x, p.y, str(got).c_str(), str(exp).c_str());
    good.push_back(p);
    vh::count("points in grids");
  }
  std::vector<double> area(cells.size());
  for (auto const & e : loc.ents) {
    double q = 0;
    occ::getMass(2, e.first, q);
    for (size_t c = 0; c < cells.size(); ++c) {
      if (e.second.count(vh::fmt("Coarse_Cell_%05zu", c)) > 0) {
        area[c] += q;
      }
    }
  }
  for (size_t c = 0; c < cells.size(); ++c) {
    VH(vh::near(area[c], cells[c][0] * cells[c][1], 1e-6), "overlay.area", "%s: cell %zu covers %.12g instead of %.12g", what.c_str(), c,
       area[c], cells[c][0] * cells[c][1]);
  }
  auto colors = MATS;
  if (std::find(colors.begin(), colors.end(), fill) == colors.end()) {
    colors.push_back(fill);
  }
  checkColors(loc, colors, what);
  vh::count("overlaid grids");
  if (cells.size() > 1) {
    vh::nontrivial(rng.next());
  }
  vh::sample(what);
  if (rng.chance(0.3)) {
    roundTrip(rng, 2, good, what, true);
  }
}

// A solid model cut by a grid with several axial slices: one face sheet per slice.
static void
solid(vh::Rng & rng)
{
  freshModel();
  int const nx = rng.range(1, 2);
  int const ny = rng.range(1, 2);
  double const w = rng.uni(0.8, 2);
  double const h = rng.uni(0.8, 2);
  int const nz = rng.range(1, 3);
  std::vector<double> z{0};
  for (int k = 0; k < nz; ++k) {
    z.push_back(z.back() + rng.uni(0.5, 2));
  }
  // upright cylinders and boxes, each in its own cell or over the boundary of cells
  std::vector<Shape> sh;
  std::map<std::string, std::vector<int>> groups;
  int const n = rng.range(1, 3);
  for (int t = 0; t < 20 && (int)sh.size() < n; ++t) {
    Shape s;
    bool full = rng.chance(0.5);
    double const za = full ? 0 : rng.uni(0, z.back() * 0.6);
    double const dz = full ? z.back() : rng.uni(0.3, z.back() - za);
    double const r = rng.uni(0.1, 0.4);
    double const cx = rng.uni(0, nx * w);
    double const cy = rng.uni(0, ny * h);
    bool apart = true;
    for (auto const & o : sh) {
      double const ox = o.kind == 3 ? o.a[0] : o.a[0] + o.a[3] / 2;
      double const oy = o.kind == 3 ? o.a[1] : o.a[1] + o.a[4] / 2;
      apart = apart && std::hypot(cx - ox, cy - oy) > 1.3;
    }
    // no boundary may touch a grid line or a cut plane
    for (int i = 0; i <= std::max(nx, ny); ++i) {
      apart = apart && std::fabs(std::fabs(cx - i * w) - r) > 0.02 && std::fabs(std::fabs(cy - i * h) - r) > 0.02;
    }
    for (int k = 0; k < nz; ++k) {
      double const zc = (z[(size_t)k] + z[(size_t)k + 1]) / 2;
      apart = apart && std::fabs(za - zc) > 0.02 && std::fabs(za + dz - zc) > 0.02;
    }
    if (!apart) {
      continue;
    }
    if (rng.chance(0.6)) {
      s.kind = 3;
      s.a[0] = cx;
      s.a[1] = cy;
      s.a[2] = za;
      s.a[3] = dz;
      s.a[4] = r;
    } else {
      s.kind = 2;
      s.a[0] = cx - r;
      s.a[1] = cy - r;
      s.a[2] = za;
      s.a[3] = s.a[4] = 2 * r;
      s.a[5] = dz;
    }
    s.labels = {"Material_" + rng.pick(MATS)};
    s.add();
    groups[*s.labels.begin()].push_back(s.tag);
    sh.push_back(s);
  }
  if (sh.empty()) {
    return;
  }
  occ::synchronize();
  for (auto const & gr : groups) {
    gm::addPhysicalGroup(3, gr.second, -1, gr.first);
    for (int const t : gr.second) {
      auto const c = matColor(gr.first.substr(9));
      gm::setColor({{3, t}}, c[0], c[1], c[2], c[3]);
    }
  }
  um2::mpact::Model mdl;
  struct Placed {
    int i, j, k;
  };
  std::vector<Placed> placed;
  Vector<Int> lats;
  Vector<Float> zs;
  for (double const v : z) {
    zs.push_back(static_cast<Float>(v));
  }
  for (int k = 0; k < nz; ++k) {
    if (k > 0 && rng.chance(0.3)) {
      lats.push_back(lats[rng.range(0, k - 1)]); // a repeated lattice has its faces only once
      continue;
    }
    Vector<Vector<Int>> ids;
    for (int j = 0; j < ny; ++j) {
      for (int i = 0; i < nx; ++i) {
        mdl.addCoarseCell(Vec2F(static_cast<Float>(w), static_cast<Float>(h)));
        placed.push_back({i, j, k});
      }
    }
    Int const base = (Int)placed.size() - nx * ny;
    for (int j = ny - 1; j >= 0; --j) {
      Vector<Int> row;
      for (int i = 0; i < nx; ++i) {
        row.push_back(base + j * nx + i);
      }
      ids.push_back(row);
    }
    mdl.addRTM(ids);
    Int const rtm = mdl.numRTMs() - 1;
    mdl.addLattice(Vector<Vector<Int>>{{rtm}});
    lats.push_back(mdl.numLattices() - 1);
  }
  mdl.addAssembly(lats, zs);
  mdl.addCore(Vector<Vector<Int>>{{(Int)0}});
  std::string const fill = rng.chance(0.5) ? "Moderator" : rng.pick(MATS);
  std::string what = vh::fmt("solid of %zu shapes, grid %d x %d x %d, fill %s:", sh.size(), nx, ny, nz, fill.c_str());
  for (auto const & s : sh) {
    what += " " + s.str();
  }
  try {
    occ::overlayCoarseGrid(mdl, material(fill));
  } catch (std::runtime_error const & e) {
    VH(kernelGaveUp(e), "solid.exception", "%s: %s", what.c_str(), e.what());
    vh::count("arrangements the kernel could not handle");
    return;
  } catch (std::exception const & e) {
    vh::fail("solid.exception", "%s: %s", what.c_str(), e.what());
    return;
  }
  bool dup = false;
  Located const loc(2, &dup);
  VH(!dup, "labels.repeated", "%s", what.c_str());
  g::vectorpair left;
  gm::getEntities(left, 3);
  VH(left.empty(), "solid.volumes", "%s: %zu volumes are left", what.c_str(), left.size());
  std::vector<double> area(placed.size());
  for (size_t c = 0; c < placed.size(); ++c) {
    auto const & pl = placed[c];
    double const zc = (z[(size_t)pl.k] + z[(size_t)pl.k + 1]) / 2;
    for (int q = 0; q < 25; ++q) {
      P3 const p{rng.uni(pl.i * w, pl.i * w + w), rng.uni(pl.j * h, pl.j * h + h), zc};
      std::string m = fill;
      bool sure = std::fabs(p.x - pl.i * w) > 1e-3 && std::fabs(p.x - pl.i * w - w) > 1e-3 && std::fabs(p.y - pl.j * h) > 1e-3 &&
                  std::fabs(p.y - pl.j * h - h) > 1e-3;
      for (auto const & s : sh) {
        double const d = s.inside(p);
        sure = sure && std::fabs(d) > 1e-3;
        if (d > 0) {
          m = s.labels.begin()->substr(9);
        }
      }
      if (!sure) {
        continue;
      }
      std::multiset<Labels> const exp{{vh::fmt("Coarse_Cell_%05zu", c), "Material_" + m}};
      auto const got = loc.labels(p);
      VH(got == exp, "solid.labels", "%s: at (%g %g %g) %s instead of %s", what.c_str(), p.x, p.y, p.z, str(got).c_str(), str(exp).c_str());
      vh::count("points in solids");
    }
  }
  for (auto const & e : loc.ents) {
    double q = 0;
    occ::getMass(2, e.first, q);
    for (size_t c = 0; c < placed.size(); ++c) {
      if (e.second.count(vh::fmt("Coarse_Cell_%05zu", c)) > 0) {
        area[c] += q;
      }
    }
  }
  for (size_t c = 0; c < placed.size(); ++c) {
    VH(vh::near(area[c], w * h, 1e-6), "solid.area", "%s: cell %zu covers %.12g instead of %.12g", what.c_str(), c, area[c], w * h);
  }
  vh::count("overlaid solids");
  vh::nontrivial(vh::hashStr(what));
}

int
main(int argc, char ** argv)
{
  um2::logger::level = um2::logger::levels::off;
  um2::logger::exit_on_error = false;
  // the graphics toolkit rewrites its preference files at start-up: keep it from doing so
  setenv("HOME", "/nonexistent", 1);
  if (seteuid(65534) != 0) {
    fprintf(stderr, "cannot drop privileges\n");
  }
  g::initialize(0, nullptr, false);
  if (seteuid(0) != 0) {
    fprintf(stderr, "cannot regain privileges\n");
  }
  g::option::setNumber("General.Terminal", 0);
  return vh::run(argc, argv, "gmsh", [](vh::Rng & rng, uint64_t) {
    if (rng.chance(0.6)) {
      booleans(rng);
    } else if (rng.chance(0.9)) {
      lattice(rng);
    } else {
      solid(rng);
    }
  });
}
