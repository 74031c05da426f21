// C37: files and requests the library does not support are refused with an error.
#include "modelgen.hpp"

#include <um2/gmsh/io.hpp>
#include <um2/gmsh/mesh.hpp>
#include <um2/gmsh/model.hpp>
#include <um2/mpact/powers.hpp>
#include <um2/mpact/source.hpp>
#include <um2/physics/cross_section_library.hpp>

#include <um2/common/logger.hpp>

#include <H5Cpp.h>
#include <pugixml.hpp>

#include <fstream>
#include <map>
#include <sstream>

using um2::PolytopeSoup;
using um2::mpact::Model;
using Elem = um2::VTKElemType;

enum class Got { accepted, refused, thrown, died };

// What becomes of a request under the default settings, where an error ends the program.
static Got
request(std::function<void()> const & fn, std::string & out)
{
  vh::isolated(
      [&] {
        um2::logger::level = um2::logger::levels::error;
        um2::logger::exit_on_error = true;
        try {
          fn();
        } catch (std::exception const &) {
          printf("THROWN\n");
          return true;
        } catch (H5::Exception const &) {
          printf("THROWN\n");
          return true;
        }
        printf("RETURNED\n");
        return true;
      },
      &out);
  if (out.find("Sanitizer") != std::string::npos || out.find("runtime error:") != std::string::npos) {
    return Got::died;
  }
  if (out.find("ERROR") != std::string::npos) {
    return Got::refused;
  }
  return out.find("RETURNED") != std::string::npos ? Got::accepted : out.find("THROWN") != std::string::npos ? Got::thrown : Got::died;
}

static std::string
tail(std::string s)
{
  std::replace(s.begin(), s.end(), '\n', '|');
  return s.substr(0, 600);
}

static void
mustRefuse(char const * area, std::string const & what, std::function<void()> const & fn, bool throwing = false)
{
  std::string out;
  Got const g = request(fn, out);
  std::string const key = area;
  if (g == Got::accepted) {
    vh::fail(key + ".accepted", "not refused: %s", what.c_str());
  } else if (g == Got::died || (g == Got::thrown && !throwing)) {
    vh::fail(key + ".died", "ends without an error message: %s: %s", what.c_str(), tail(out).c_str());
  }
  vh::count((std::string("refused: ") + area).c_str());
  vh::nontrivial(std::hash<std::string>{}(key + what));
  vh::sample(key + ": " + what);
}

static void
mustAccept(char const * area, std::string const & what, std::function<void()> const & fn)
{
  std::string out;
  Got const g = request(fn, out);
  VH(g == Got::accepted, std::string(area) + ".false_alarm", "refused: %s: %s", what.c_str(), tail(out).c_str());
  vh::count((std::string("accepted: ") + area).c_str());
}

static std::string
slurp(std::string const & f)
{
  std::ifstream i(f);
  std::stringstream s;
  s << i.rdbuf();
  return s.str();
}

static void
spit(std::string const & f, std::string const & t)
{
  std::ofstream o(f);
  o << t;
}

static std::string
dir()
{
  return vh::ctx().scratch;
}

//------------------------------------------------------------------------------ XDMF
struct MElem {
  Elem type;
  std::vector<Int> conn;
};

struct MSet {
  std::string name;
  std::vector<Int> ids;
  std::vector<Float> data;
};

struct MSoup {
  std::vector<std::array<Float, 3>> v;
  std::vector<MElem> e;
  std::vector<MSet> s;
};

static MSoup
someMesh(vh::Rng & rng, bool mixed)
{
  MSoup m;
  int const nv = rng.range(3, 30);
  bool const planar = rng.chance(0.5);
  for (int i = 0; i < nv; ++i) {
    m.v.push_back({(Float)rng.uni(-5, 5), (Float)rng.uni(-5, 5), planar ? (Float)0 : (Float)rng.uni(-5, 5)});
  }
  std::vector<Elem> const kinds = {Elem::Triangle, Elem::Quad, Elem::QuadraticTriangle, Elem::QuadraticQuad};
  Elem const one = rng.pick(kinds);
  int const ne = rng.range(2, 20);
  for (int i = 0; i < ne; ++i) {
    MElem e;
    e.type = mixed ? kinds[(size_t)(i % 4)] : one;
    for (Int k = um2::verticesPerElem(e.type); k > 0; --k) {
      e.conn.push_back(rng.range(0, nv - 1));
    }
    m.e.push_back(e);
  }
  int const ns = rng.range(1, 4);
  bool const values = rng.chance(0.8);
  for (int i = 0; i < ns; ++i) {
    MSet s;
    s.name = vh::fmt("set_%d", i);
    for (int k = 0; k < ne; ++k) {
      if (rng.chance(0.5) || k == 0) {
        s.ids.push_back(k);
        if (values) {
          s.data.push_back((Float)rng.uni(-1, 1));
        }
      }
    }
    m.s.push_back(s);
  }
  return m;
}

static void
build(PolytopeSoup & p, MSoup const & m)
{
  for (auto const & v : m.v) {
    p.addVertex(v[0], v[1], v[2]);
  }
  for (auto const & e : m.e) {
    um2::Vector<Int> c;
    for (Int const i : e.conn) {
      c.emplace_back(i);
    }
    p.addElement(e.type, c);
  }
  for (auto const & s : m.s) {
    um2::Vector<Int> ids;
    um2::Vector<Float> data;
    for (Int const i : s.ids) {
      ids.emplace_back(i);
    }
    for (Float const x : s.data) {
      data.emplace_back(x);
    }
    if (data.empty()) {
      p.addElset(um2::String(s.name.c_str()), ids);
    } else {
      p.addElset(um2::String(s.name.c_str()), ids, data);
    }
  }
}

static std::string
other(vh::Rng & rng, std::vector<std::string> const & v)
{
  return rng.pick(v);
}

// One edit of the text part of a mesh file.
static std::string
editMesh(vh::Rng & rng, pugi::xml_document & doc, bool mixed, int k)
{
  auto root = doc.child("Xdmf");
  auto dom = root.child("Domain");
  auto grid = dom.child("Grid");
  auto geo = grid.child("Geometry");
  auto top = grid.child("Topology");
  auto set = grid.child("Set");
  auto att = set.child("Attribute");
  if (k >= 24 && k <= 28 && !att) {
    return "";
  }
  auto put = [&](pugi::xml_node n, char const * a, std::string const & v) {
    n.attribute(a).set_value(v.c_str());
    return vh::fmt("%s %s=%s", n.name(), a, v.c_str());
  };
  switch (k) {
  case 0:
    root.set_name("Xmdf");
    return "wrong root";
  case 1:
    dom.set_name("domain");
    return "no domain";
  case 2:
    grid.set_name("Mesh");
    return "no grid";
  case 3:
    return put(grid, "GridType", other(rng, {"Tree", "Collection", "SubSet", ""}));
  case 4:
    grid.remove_child("Geometry");
    return "no geometry";
  case 5:
    return put(geo, "GeometryType", other(rng, {"VXVYVZ", "X_Y_Z", "ORIGIN_DXDYDZ", "XYZW", ""}));
  case 6:
    geo.remove_child("DataItem");
    return "geometry without data";
  case 7:
    return "geometry " + put(geo.child("DataItem"), "DataType", other(rng, {"Int", "UInt", "Char", ""}));
  case 8:
    return "geometry " + put(geo.child("DataItem"), "Precision", other(rng, {"2", "16", "1", ""}));
  case 9:
    return "geometry " + put(geo.child("DataItem"), "Format", other(rng, {"XML", "Binary", ""}));
  case 10: {
    bool const three = std::string(geo.attribute("GeometryType").value()) == "XYZ";
    return put(geo, "GeometryType", three ? "XY" : "XYZ");
  }
  case 11:
    grid.remove_child("Topology");
    return "no topology";
  case 12:
    top.remove_child("DataItem");
    return "topology without data";
  case 13:
    return "topology " + put(top.child("DataItem"), "DataType", other(rng, {"Float", "UInt", "Char", ""}));
  case 14:
    return "topology " + put(top.child("DataItem"), "Precision", other(rng, {"3", "16", "0", ""}));
  case 15:
    return "topology " + put(top.child("DataItem"), "Format", other(rng, {"XML", "Binary", ""}));
  case 16:
    if (mixed) {
      return "";
    }
    return put(top, "TopologyType", other(rng, {"Polyvertex", "Wedge", "Hexahedron", "Triangle_7", "triangle", ""}));
  case 17: {
    int const n = top.attribute("NumberOfElements").as_int();
    return put(top, "NumberOfElements", std::to_string(rng.chance(0.5) ? n + rng.range(1, 50) : n - 1));
  }
  case 18:
    return put(set, "SetType", other(rng, {"Node", "Face", "Edge", ""}));
  case 19:
    return put(set, "Name", "");
  case 20:
    set.remove_child("DataItem");
    return "set without data";
  case 21:
    return "set " + put(set.child("DataItem"), "DataType", other(rng, {"Float", "UInt", ""}));
  case 22:
    return "set " + put(set.child("DataItem"), "Precision", other(rng, {"3", "16", ""}));
  case 23:
    return "set " + put(set.child("DataItem"), "Format", other(rng, {"XML", "Binary", ""}));
  case 24:
    return put(att, "Center", other(rng, {"Node", "Grid", ""}));
  case 25:
    att.remove_child("DataItem");
    return "set values without data";
  case 26:
    return "set values " + put(att.child("DataItem"), "DataType", other(rng, {"Int", "UInt", ""}));
  case 27:
    return "set values " + put(att.child("DataItem"), "Precision", other(rng, {"2", "16", ""}));
  case 28:
    return "set values " + put(att.child("DataItem"), "Format", other(rng, {"XML", "Binary", ""}));
  case 29: {
    // more or fewer points than stored
    std::string const d = geo.child("DataItem").attribute("Dimensions").value();
    int const n = atoi(d.c_str());
    int const q = rng.chance(0.5) ? n + rng.range(1, 20) : std::max(1, n - rng.range(1, 20));
    return q == n ? "" : "geometry " + put(geo.child("DataItem"), "Dimensions", std::to_string(q) + d.substr(d.find(' ')));
  }
  case 30: {
    // values that belong to a set of another size
    for (auto o = set.next_sibling("Set"); o; o = o.next_sibling("Set")) {
      if (att && o.child("DataItem").attribute("Dimensions").as_int() != set.child("DataItem").attribute("Dimensions").as_int()) {
        att.child("DataItem").text().set(o.child("Attribute").child_value("DataItem"));
        return "values of another set";
      }
    }
    return "";
  }
  default: {
    // more or fewer connections than stored
    std::string const d = top.child("DataItem").attribute("Dimensions").value();
    int const n = atoi(d.c_str());
    if (mixed) {
      return "topology " + put(top.child("DataItem"), "Dimensions", std::to_string(rng.chance(0.5) ? n + rng.range(1, 20) : std::max(1, n - rng.range(1, 20))));
    }
    int const w = atoi(d.substr(d.find(' ') + 1).c_str());
    return "topology " + put(top.child("DataItem"), "Dimensions", vh::fmt("%d %d", n, rng.chance(0.5) ? w + 1 : w - 1));
  }
  }
}
static constexpr int mesh_edits = 32;

static void
meshFile(vh::Rng & rng, uint64_t i)
{
  bool const mixed = rng.chance(0.5);
  MSoup const m = someMesh(rng, mixed);
  PolytopeSoup p;
  build(p, m);
  std::string const file = dir() + "/mesh.xdmf";
  p.write(um2::String(file.c_str()));
  auto read = [&] { PolytopeSoup const q{um2::String(file.c_str())}; };
  std::string const kind = mixed ? " (mixed)" : "";
  if (rng.chance(0.2)) {
    mustAccept("mesh file", "as written" + kind, read);
  }
  if (i % 16 == 0) {
    std::string const t = slurp(file);
    spit(file, t.substr(0, (size_t)rng.range(1, (int)t.rfind("</Grid>"))));
    mustRefuse("mesh file", "cut off", read);
    return;
  }
  if (i % 16 == 1) {
    // an unknown kind of element in the data
    if (!mixed) {
      return;
    }
    {
      H5::H5File f(dir() + "/mesh.h5", H5F_ACC_RDWR);
      pugi::xml_document doc;
      doc.load_file(file.c_str());
      std::string const path = doc.child("Xdmf").child("Domain").child("Grid").child("Topology").child("DataItem").child_value();
      H5::DataSet ds = f.openDataSet(path.substr(path.find(':') + 1));
      std::vector<Int> c((size_t)ds.getSpace().getSimpleExtentNpoints());
      ds.read(c.data(), H5::PredType::NATIVE_INT);
      size_t pos = 0;
      for (int skip = rng.range(0, (int)m.e.size() - 1); skip > 0; --skip) {
        pos += 1 + (size_t)um2::verticesPerElem(um2::xdmfToVTKElemType((int8_t)c[pos]));
      }
      c[pos] = rng.pick(std::vector<Int>{0, 3, 6, 7, 8, 9, 38, 48, 100});
      ds.write(c.data(), H5::PredType::NATIVE_INT);
    }
    mustRefuse("mesh file", "unknown kind of element", read);
    return;
  }
  if (i % 16 == 2) {
    unlink((dir() + "/mesh.h5").c_str());
    mustRefuse("mesh file", "no data file", read, true);
    return;
  }
  pugi::xml_document doc;
  doc.load_file(file.c_str());
  std::string const what = editMesh(rng, doc, mixed, rng.range(0, mesh_edits - 1));
  if (what.empty()) {
    return;
  }
  doc.save_file(file.c_str());
  mustRefuse("mesh file", what + kind, read);
}

//------------------------------------------------------------------------------ text meshes
static std::string
abaqus(vh::Rng & rng, std::string const & type)
{
  std::string t = "*Heading\n mesh\n*NODE\n";
  int const nv = rng.range(9, 20);
  for (int i = 1; i <= nv; ++i) {
    t += vh::fmt("%d, %.5f, %.5f, 0\n", i, rng.uni(-1, 1), rng.uni(-1, 1));
  }
  t += "*ELEMENT, type=CPS3, ELSET=Surface1\n1, 1, 2, 3\n2, 2, 3, 4\n";
  t += "*ELEMENT, type=" + type + ", ELSET=Surface2\n3, 1, 2, 3, 4, 5, 6, 7, 8\n";
  return t + "*ELSET,ELSET=A\n1, 2,\n";
}

static std::string
vtk(vh::Rng & rng, int fault)
{
  std::string t = fault == 0 ? vh::fmt("# vtk DataFile Version %s\n", rng.pick(std::vector<std::string>{"1.0", "2.0", "4.2", "5.1"}).c_str()) : "# vtk DataFile Version 3.0\n";
  t += "title\n";
  t += fault == 1 ? "BINARY\n" : "ASCII\n";
  t += "DATASET " + (fault == 2 ? rng.pick(std::vector<std::string>{"STRUCTURED_GRID", "POLYDATA", "RECTILINEAR_GRID", "FIELD"}) : std::string("UNSTRUCTURED_GRID")) + "\n";
  int const nv = rng.range(4, 10);
  t += vh::fmt("%s %d double\n", fault == 3 ? "NODES" : "POINTS", nv);
  for (int i = 0; i < nv; ++i) {
    t += vh::fmt("%.5f %.5f 0\n", rng.uni(-1, 1), rng.uni(-1, 1));
  }
  t += fault == 4 ? "FACES 2 8\n" : "CELLS 2 8\n";
  t += "3 0 1 2\n3 1 2 3\n";
  t += fault == 5 ? "TYPES 2\n5\n5\n" : "CELL_TYPES 2\n5\n5\n";
  t += "CELL_DATA 2\nSCALARS a " + (fault == 6 ? rng.pick(std::vector<std::string>{"char", "bit", "unsigned_long", "string"}) : std::string(fault == 7 ? "int" : "double")) + " 1\nLOOKUP_TABLE default\n";
  if (fault == 7) {
    // not representable in double precision
    long long const big = (1LL << 53) + 2 * rng.range(0, 1000) + 1;
    return t + vh::fmt("%s%lld\n1\n", rng.chance(0.5) ? "-" : "", big);
  }
  return t + "1\n2\n";
}

static void
textFile(vh::Rng & rng)
{
  std::string file;
  auto read = [&] { PolytopeSoup const q{um2::String(file.c_str())}; };
  int const k = rng.range(0, 11);
  if (k < 8) {
    file = dir() + "/m.vtk";
    spit(file, vtk(rng, k));
    char const * const names[] = {"version", "binary", "kind of data set", "no points", "no cells", "no cell types", "type of values", "integer too large"};
    mustRefuse("text mesh", vh::fmt("vtk: %s (%016zx)", names[k], std::hash<std::string>{}(slurp(file)) % 64), read);
    spit(file, vtk(rng, -1));
    mustAccept("text mesh", "vtk", read);
  } else if (k == 8) {
    file = dir() + "/m.inp";
    std::string const type = rng.pick(std::vector<std::string>{"CPS5", "CPS7", "CPS9", "CPS1", "CPS2", "S4", "C3D4", "T3D2", "CPE4", "CAX4", "B21"});
    spit(file, abaqus(rng, type));
    mustRefuse("text mesh", "inp: " + type, read);
    spit(file, abaqus(rng, rng.pick(std::vector<std::string>{"CPS3", "CPS4", "CPS6", "CPS8"})));
    mustAccept("text mesh", "inp", read);
  } else if (k == 9) {
    file = dir() + "/absent" + rng.pick(std::vector<std::string>{".vtk", ".inp"});
    mustRefuse("text mesh", "absent file", read);
  } else if (k == 10) {
    file = dir() + "/m" + rng.pick(std::vector<std::string>{".msh", ".txt", ".vtu", ".xmf", "", ".INP", "xdmf", "vtk"});
    spit(file, vtk(rng, -1));
    mustRefuse("text mesh", "extension " + file.substr(dir().size()), read);
  } else {
    file = dir() + "/out" + rng.pick(std::vector<std::string>{".msh", ".vtk", ".inp", "", ".h5", "xdmf"});
    MSoup const m = someMesh(rng, false);
    PolytopeSoup p;
    build(p, m);
    mustRefuse("text mesh", "writing extension " + file.substr(dir().size()), [&] { p.write(um2::String(file.c_str())); });
  }
}

//------------------------------------------------------------------------------ data library
static void
library(vh::Rng & rng)
{
  int const g = rng.range(1, 5);
  int const nn = rng.range(1, 4);
  static std::vector<std::string> const heads = {"%VER:", "%DIM:", "%GRP:", "%CHI:", "%DIR:"};
  int const fault = rng.range(-1, 10);
  auto head = [&](int k) { return k == fault ? rng.pick(std::vector<std::string>{"%XXX:", "!", "", "%END", heads[(size_t)(k + 1) % 5]}) : heads[(size_t)k]; };
  std::string what = fault < 0 ? "sound" : fault < 5 ? "no " + heads[(size_t)fault] : "";
  int stated = nn;
  std::string version = "4.2";
  switch (fault) {
  case 5:
    version = rng.pick(std::vector<std::string>{"3.0", "5.0m1", "v4", "  2.1"});
    what = "version " + version;
    break;
  case 6:
    stated = nn + rng.range(1, 3);
    what = vh::fmt("%d nuclides instead of %d", nn, stated);
    break;
  case 7:
    stated = nn - 1;
    what = vh::fmt("%d nuclides instead of %d", nn, stated);
    break;
  default:
    break;
  }
  if (fault == 7 && nn == 1) {
    return;
  }
  std::string t = head(0) + "\n " + version + "\n" + head(1) + vh::fmt("\n %d 0 0 0 %d 0 0 0 0 0\n", g, stated) + head(2) + "\n";
  for (int i = 0; i < g; ++i) {
    t += vh::fmt(" %g", 1e7 / (i + 1));
  }
  t += "\n" + head(3) + "\n";
  for (int i = 0; i < g; ++i) {
    t += " 0.5";
  }
  t += "\n" + head(4) + "\n 1 1001 1 1 1 H\n";
  if (fault == 8) {
    what = "directory without end";
    int const many = rng.range(10010, 10100);
    for (int i = 0; i < many; ++i) {
      t += "x\n";
    }
  }
  size_t const start = t.size();
  std::vector<size_t> lines; // where lines of nuclides start
  std::string u;
  for (int n = 0; n < nn; ++n) {
    int const nt = rng.range(1, 3);
    std::vector<std::string> ls = {vh::fmt("%%NUC %d %d 1.5 1 0 0 0 %d 0 0 N%d", n + 1, 1001 + n, nt, n), "TP1+", "", "XSD+"};
    for (int k = 0; k < nt; ++k) {
      ls[2] += vh::fmt(" %d", 300 + 100 * k);
    }
    for (int i = 0; i < g; ++i) {
      for (int k = 0; k < nt; ++k) {
        ls.push_back(vh::fmt(" %d %d 0.1 0 0 0.2 0.1 %d %d 0.1", i + 1, k + 1, i + 1, i + 1));
      }
    }
    for (auto const & l : ls) {
      lines.push_back(start + u.size());
      u += l + "\n";
    }
  }
  t += u;
  if (fault == 9) {
    what = "no end";
  } else {
    t += "%END\n";
  }
  if (fault == 10) {
    size_t const k = (size_t)rng.range(0, (int)lines.size() - 1);
    t = t.substr(0, lines[k]);
    what = vh::fmt("cut off after %zu lines of nuclides", k);
  }
  std::string const file = dir() + "/lib.fmt";
  spit(file, t);
  auto read = [&] { um2::XSLibrary const lib{um2::String(file.c_str())}; };
  if (fault < 0) {
    mustAccept("data library", what, read);
  } else {
    mustRefuse("data library", what, read);
  }
}

//------------------------------------------------------------------------------ conversions
template <Int P, Int N>
static void
toFaces(PolytopeSoup const & p)
{
  um2::FaceVertexMesh<P, N> const f(p);
}

static PolytopeSoup
tiles(vh::Rng & rng, Elem type, int n)
{
  // a strip of sound faces
  PolytopeSoup p;
  bool const tri = type == Elem::Triangle || type == Elem::QuadraticTriangle;
  int const k = tri ? 3 : 4;
  bool const curved = type == Elem::QuadraticTriangle || type == Elem::QuadraticQuad;
  double const s = rng.logu(0.1, 10);
  std::map<std::pair<int, int>, Int> ids; // twice the position
  auto vertex = [&](int x, int y) {
    auto const it = ids.find({x, y});
    return it != ids.end() ? it->second : ids[{x, y}] = p.addVertex((Float)(s * x / 2), (Float)(s * y / 2));
  };
  static int const q[4][2] = {{0, 0}, {2, 0}, {2, 2}, {0, 2}};
  for (int i = 0; i < n; ++i) {
    for (int h = 0; h < (tri ? 2 : 1); ++h) {
      um2::Vector<Int> c;
      for (int j = 0; j < k; ++j) {
        int const a = (j + 2 * h) % 4;
        c.emplace_back(vertex(q[a][0] + 2 * i, q[a][1]));
      }
      for (int j = 0; j < k && curved; ++j) {
        int const a = (j + 2 * h) % 4;
        int const b = ((j + 1) % k + 2 * h) % 4;
        c.emplace_back(vertex((q[a][0] + q[b][0]) / 2 + 2 * i, (q[a][1] + q[b][1]) / 2));
      }
      p.addElement(type, c);
    }
  }
  return p;
}

static void
conversion(vh::Rng & rng)
{
  std::vector<Elem> const kinds = {Elem::Triangle, Elem::Quad, Elem::QuadraticTriangle, Elem::QuadraticQuad};
  char const * const names[4] = {"triangles", "quadrilaterals", "curved triangles", "curved quadrilaterals"};
  int const a = rng.range(0, 3);
  int const b = rng.range(0, 3);
  PolytopeSoup p = tiles(rng, kinds[(size_t)a], rng.range(1, 4));
  void (*const conv[4])(PolytopeSoup const &) = {toFaces<1, 3>, toFaces<1, 4>, toFaces<2, 6>, toFaces<2, 8>};
  std::string const what = vh::fmt("%s as %s", names[a], names[b]);
  if (rng.chance(0.4)) {
    // more than one kind
    Elem const extra = rng.pick(std::vector<Elem>{Elem::Triangle, Elem::Quad, Elem::Line, Elem::Vertex});
    if (extra != kinds[(size_t)a]) {
      um2::Vector<Int> c;
      for (Int k = 0; k < um2::verticesPerElem(extra); ++k) {
        c.emplace_back(k % p.numVertices());
      }
      p.addElement(extra, c);
      mustRefuse("conversion", what + vh::fmt(" with elements of kind %d", (int)extra), [&] { conv[b](p); });
      um2::Vector<um2::Material> mats(1);
      mustRefuse("conversion", "source of several kinds of elements", [&] { (void)um2::mpact::getSource(p, mats); });
      std::string const file = dir() + "/pow.xdmf";
      um2::Vector<Int> ids(p.numElements());
      um2::Vector<Float> pw(p.numElements());
      for (Int i = 0; i < ids.size(); ++i) {
        ids[i] = i;
        pw[i] = 1;
      }
      p.addElset("power", ids, pw);
      p.write(um2::String(file.c_str()));
      mustRefuse("conversion", "powers of several kinds of elements", [&] { (void)um2::mpact::getPowers(um2::String(file.c_str())); });
    }
    return;
  }
  if (rng.chance(0.15)) {
    // part of a mesh
    Int const n = p.numElements();
    bool const unknown = rng.chance(0.5);
    um2::Vector<Int> ids;
    for (Int i = n - 1; i >= 0; --i) {
      ids.emplace_back(i);
    }
    p.addElset("A", ids);
    if (unknown || n > 1) {
      mustRefuse("conversion", unknown ? "unknown part" : "part in another order", [&] { PolytopeSoup q; p.getSubset(unknown ? "a" : "A", q); });
    }
    p.sortElsets();
    mustAccept("conversion", "part", [&] { PolytopeSoup q; p.getSubset("A", q); });
    return;
  }
  if (rng.chance(0.3)) {
    // powers that are missing, incomplete or without values
    int const k = rng.range(0, 4);
    Int const n = p.numElements();
    um2::Vector<Int> ids;
    um2::Vector<Float> pw;
    for (Int i = 0; i < n; ++i) {
      if (k == 1 && i == n - 1 && n > 1) {
        continue;
      }
      ids.emplace_back(i);
      pw.emplace_back(k == 3 ? (Float)0 : (Float)1);
    }
    if (k == 1 && n == 1) {
      return;
    }
    std::string const file = dir() + "/pow.xdmf";
    if (k == 0) {
      p.addElset("power", ids);
    } else {
      p.addElset(k != 2 ? "power" : "Power", ids, pw);
    }
    p.write(um2::String(file.c_str()));
    if (k == 4) {
      mustAccept("conversion", "powers", [&] { (void)um2::mpact::getPowers(um2::String(file.c_str())); });
      return;
    }
    mustRefuse("conversion", k == 3 ? "powers that are all zero" : k == 0 ? "powers without values" : k == 1 ? "powers of some faces only" : "no powers", [&] { (void)um2::mpact::getPowers(um2::String(file.c_str())); });
    return;
  }
  if (a == b) {
    mustAccept("conversion", what, [&] { conv[b](p); });
  } else {
    mustRefuse("conversion", what, [&] { conv[b](p); });
  }
}

//------------------------------------------------------------------------------ models
static void
modelFile(vh::Rng & rng)
{
  MOpts o;
  o.nmax = 2;
  o.maxCore = 2;
  o.maxLat = 2;
  o.maxUnits = 2;
  o.maxZ = 2;
  o.pins = false;
  Plan p = planModel(rng, o);
  Model m;
  if (!buildModel(rng, p, m)) {
    return;
  }
  std::string const file = dir() + "/model.xdmf";
  m.write(um2::String(file.c_str()));
  auto read = [&] { Model const q{um2::String(file.c_str())}; };
  if (rng.chance(0.3)) {
    mustAccept("model file", p.r.str(), read);
  }
  pugi::xml_document doc;
  doc.load_file(file.c_str());
  auto root = doc.child("Xdmf");
  auto dom = root.child("Domain");
  auto core = dom.child("Grid");
  auto asy = core.child("Grid");
  auto lat = asy.child("Grid");
  std::string what;
  switch (rng.range(0, 12)) {
  case 0:
    root.set_name("xdmf");
    what = "wrong root";
    break;
  case 1:
    dom.set_name("domain");
    what = "no domain";
    break;
  case 2:
    dom.remove_child("Information");
    what = "no materials";
    break;
  case 3:
    dom.child("Information").attribute("Name").set_value("Isotopes");
    what = "materials under another name";
    break;
  case 4:
    core.set_name("Core");
    what = "no core";
    break;
  case 5:
    core.attribute("GridType").set_value(rng.pick(std::vector<char const *>{"Uniform", "Collection", ""}));
    what = "kind of core";
    break;
  case 6:
    core.child("Information").attribute("Name").set_value("NX_by_NY_by_NZ");
    what = "size of core";
    break;
  case 7:
    asy.child("Information").attribute("Name").set_value("Size");
    what = "size of assembly";
    break;
  case 8:
    asy.child("Information").text().set(vh::fmt("%zu x 2", p.r.asys.size()).c_str());
    what = "assembly with two columns";
    break;
  case 9:
    while (lat.child("Information")) {
      lat.remove_child("Information");
    }
    what = "lattice without position";
    break;
  case 10:
    lat.child("Information").attribute("Name").set_value("z");
    what = "position of lattice";
    break;
  case 11:
    lat.child("Information").next_sibling("Information").attribute("Name").set_value("Size");
    what = "size of lattice";
    break;
  default: {
    std::string const t = slurp(file);
    spit(file, t.substr(0, (size_t)rng.range(1, (int)t.rfind("</Domain>"))));
    mustRefuse("model file", "cut off", read);
    return;
  }
  }
  doc.save_file(file.c_str());
  mustRefuse("model file", what, read);
}

static void
modelRequest(vh::Rng & rng)
{
  Model m;
  um2::Material mat;
  mat.setName("a");
  std::string const out = dir() + "/none.xdmf";
  Float const bad = rng.chance(0.5) ? (Float)0 : -(Float)rng.logu(1e-3, 10);
  bool const first = rng.chance(0.5);
  switch (rng.range(0, 6)) {
  case 0:
    mustRefuse("model request", "core without content as a mesh", [&] { (void)static_cast<PolytopeSoup>(m); });
    break;
  case 1:
    mustRefuse("model request", "writing a core without content", [&] { m.write(um2::String(out.c_str())); });
    break;
  case 2:
    mustRefuse("model request", vh::fmt("coarse grid of extent %g", (double)bad), [&] { m.addCoarseGrid(first ? um2::Vec2F(bad, (Float)1) : um2::Vec2F((Float)1, bad), um2::Vec2I(2, 3)); });
    break;
  case 3: {
    Int const n = -rng.range(0, 3);
    mustRefuse("model request", vh::fmt("coarse grid of %d cells", n), [&] { m.addCoarseGrid(um2::Vec2F(1, 1), first ? um2::Vec2I(n, 2) : um2::Vec2I(2, n)); });
    break;
  }
  case 4: {
    Int const order = rng.pick(std::vector<Int>{0, 3, 4, -1});
    mustRefuse("model request", vh::fmt("pin mesh of order %d", order), [&] { (void)m.addCylindricalPinMesh((Float)1.26, um2::Vector<Float>{(Float)0.4}, um2::Vector<Int>{2}, 8, order); });
    break;
  }
  case 5: {
    std::string const file = dir() + "/m" + rng.pick(std::vector<std::string>{".vtk", ".inp", ".xml", ""});
    spit(file, "x\n");
    mustRefuse("model request", "reading extension " + file.substr(dir().size()), [&] { Model q; q.read(um2::String(file.c_str())); });
    break;
  }
  default:
    mustAccept("model request", "coarse grid", [&] { m.addCoarseGrid(um2::Vec2F(1, 2), um2::Vec2I(2, 3)); });
  }
}

//------------------------------------------------------------------------------ solid modeller
static um2::Material
named(char const * name)
{
  um2::Material m;
  m.setName(name);
  m.setTemperature((Float)300);
  m.setDensity((Float)1);
  m.addNuclide("H1", (Float)1e-2);
  m.xsec() = um2::XSec(1);
  m.xsec().a()[0] = (Float)1;
  m.xsec().tr()[0] = (Float)1;
  m.xsec().isMacro() = true;
  return m;
}

static void
pinRequest(vh::Rng & rng)
{
  int const n = rng.range(1, 4);
  um2::Vector<Float> r;
  um2::Vector<um2::Material> mats;
  double x = 0;
  for (int i = 0; i < n; ++i) {
    x += rng.uni(0.05, 0.2);
    r.emplace_back((Float)x);
    mats.emplace_back(named(vh::fmt("M%d", i).c_str()));
  }
  std::string what = "sound";
  int const fault = rng.range(-1, 5);
  int const k = rng.range(0, n - 1);
  switch (fault) {
  case 0:
    r.clear();
    mats.clear();
    what = "pin without radii";
    break;
  case 1:
    mats.emplace_back(named("more"));
    what = "more materials than radii";
    break;
  case 2:
    r.emplace_back((Float)(x + 1));
    what = "fewer materials than radii";
    break;
  case 3:
    r[0] = rng.chance(0.5) ? (Float)0 : -r[0];
    what = "radius not positive";
    break;
  case 4:
    if (n < 2) {
      return;
    }
    std::swap(r[k], r[(k + 1) % n]);
    what = "radii in another order";
    break;
  case 5:
    if (n < 2) {
      return;
    }
    r[std::max(k, 1)] = r[std::max(k, 1) - 1];
    what = "a radius twice";
    break;
  default:
    break;
  }
  namespace occ = um2::gmsh::model::occ;
  bool const lattice = fault != 0 && rng.chance(0.5); // places without rings are allowed
  um2::Vector<um2::Vec2F> const ext{um2::Vec2F((Float)2.6, (Float)2.6), um2::Vec2F((Float)2.6, (Float)2.6)};
  um2::Vector<um2::Vector<Float>> const rr{um2::Vector<Float>{(Float)0.3}, r};
  um2::Vector<um2::Vector<um2::Material>> const mm{um2::Vector<um2::Material>{named("other")}, mats};
  auto ask = [&] {
    if (lattice) {
      (void)occ::addCylindricalPinLattice2D({{0, 1}, {1, 0}}, ext, rr, mm);
    } else {
      (void)occ::addCylindricalPin2D(um2::Vec2F((Float)0, (Float)0), r, mats);
    }
  };
  what += lattice ? " in a lattice" : "";
  if (fault < 0) {
    mustAccept("modeller request", what, ask);
    int const q = rng.range(0, 5);
    um2::Vector<um2::Vector<Int>> ids = {{0, 1}, {1, 0}};
    auto e = ext;
    auto a = rr;
    auto b = mm;
    switch (q) {
    case 0:
      ids[rng.range(0, 1)].emplace_back(0);
      break;
    case 1:
      ids[rng.range(0, 1)][rng.range(0, 1)] = rng.chance(0.5) ? 2 : rng.range(3, 9);
      break;
    case 2:
      ids[rng.range(0, 1)][rng.range(0, 1)] = -1;
      break;
    case 3:
      e.emplace_back(e[0]);
      break;
    case 4:
      b.emplace_back(b[0]);
      break;
    default:
      a.clear();
      b.clear();
      e.clear();
    }
    char const * const names[] = {"rows of different length", "pin that does not exist", "negative pin", "more extents than pins", "more materials than pins", "lattice without pins"};
    mustRefuse("modeller request", names[q], [&] { (void)occ::addCylindricalPinLattice2D(ids, e, a, b); });
  } else {
    mustRefuse("modeller request", what, ask);
  }
}

static void
operation(vh::Rng & rng)
{
  namespace occ = um2::gmsh::model::occ;
  namespace g = um2::gmsh;
  int const op = rng.range(0, 2);
  int const fault = rng.range(-1, 6);
  bool const swapped = rng.chance(0.5);
  auto ask = [&] {
    g::clear();
    std::vector<int> t;
    for (int i = 0; i < 4; ++i) {
      t.push_back(occ::addDisk(0.6 * i, 0, 0, 0.5, 0.5));
    }
    std::vector<int> v;
    for (int i = 0; i < 2; ++i) {
      v.push_back(occ::addSphere(5 + i, 0, 0, 0.7));
    }
    int const l = occ::addLine(occ::addPoint(20, 0, 0), occ::addPoint(21, 0, 0));
    int const l2 = occ::addLine(occ::addPoint(20, 1, 0), occ::addPoint(21, 1, 0));
    occ::synchronize();
    g::vectorpair a = {{2, t[0]}, {2, t[2]}};
    g::vectorpair b = {{2, t[1]}, {2, t[3]}};
    switch (fault) {
    case 0:
      a.clear();
      break;
    case 1:
      std::swap(a[0], a[1]);
      break;
    case 2:
      a.insert(a.begin(), a[0]);
      break;
    case 3:
      a.emplace_back(3, v[0]);
      break;
    case 4:
      a = {{3, v[0]}, {3, v[1]}};
      break;
    case 5:
      a = {{1, l}};
      b = {{1, l2}};
      break;
    case 6:
      a.emplace_back(a.back());
      break;
    default:
      break;
    }
    if (swapped) {
      std::swap(a, b);
    }
    g::vectorpair out;
    std::vector<g::vectorpair> map;
    if (op == 0) {
      occ::groupPreservingFragment(a, b, out, map);
    } else if (op == 1) {
      occ::groupPreservingIntersect(a, b, out, map);
    } else {
      occ::groupPreservingCut(a, b, out, map);
    }
  };
  char const * const names[] = {"no solids", "solids in another order", "first solid twice", "solids of two dimensions", "solids of another dimension", "lines", "last solid twice"};
  char const * const ops[] = {"fragments", "intersection", "difference"};
  if (fault < 0) {
    mustAccept("modeller request", ops[op], ask);
  } else {
    mustRefuse("modeller request", vh::fmt("%s: %s%s", ops[op], names[fault], swapped ? " (second)" : ""), ask);
  }
}

static void
modellerFile(vh::Rng & rng)
{
  namespace g = um2::gmsh;
  std::string const file = dir() + "/solids.brep";
  int const fault = rng.range(-1, 5);
  auto ask = [&] {
    g::clear();
    int const t = g::model::occ::addDisk(0, 0, 0, 0.5, 0.5);
    int const u = g::model::occ::addDisk(3, 0, 0, 0.5, 0.5);
    g::model::occ::synchronize();
    g::model::addPhysicalGroup(2, {t}, -1, "Material_a");
    g::model::addPhysicalGroup(2, {t, u}, -1, "Both");
    g::model::setColor({{2, t}}, 255, 0, 0);
    g::write(file, true);
    std::string const info = dir() + "/solids.info";
    std::string s = slurp(info);
    auto lose = [&](std::string const & word) {
      size_t const at = s.find(word);
      if (at == std::string::npos) {
        exit(3);
      }
      s.replace(at, word.size(), "SOMETHING");
      spit(info, s);
    };
    switch (fault) {
    case 0:
      unlink(file.c_str());
      break;
    case 1:
      unlink(info.c_str());
      break;
    case 2:
      lose("PHYSICAL_GROUPS");
      break;
    case 3:
      lose("PHYSICAL_GROUP \"Both\"");
      break;
    case 4:
      lose("ENTITY_COLORS");
      break;
    case 5:
      lose("ENTITY_COLOR ");
      break;
    default:
      break;
    }
    g::clear();
    g::open(file, true);
  };
  char const * const names[] = {"no file", "no groups", "title of groups", "title of one group", "title of colours", "title of one colour"};
  if (fault < 0) {
    mustAccept("modeller request", "file of solids", ask);
  } else {
    mustRefuse("modeller request", vh::fmt("file of solids: %s", names[fault]), ask);
  }
}

static void
meshRequest(vh::Rng & rng)
{
  namespace g = um2::gmsh;
  int const fault = rng.range(-1, 5);
  double const kn = fault == 0 ? (rng.chance(0.5) ? 0.0 : -rng.logu(1e-3, 10)) : rng.logu(1, 10);
  auto ask = [&] {
    g::clear();
    um2::Vector<Float> const r{(Float)0.4, (Float)0.5};
    um2::Vector<um2::Material> mats;
    mats.emplace_back(named("a"));
    mats.emplace_back(named("b"));
    (void)g::model::occ::addCylindricalPin2D(um2::Vec2F((Float)0, (Float)0), r, mats);
    switch (fault) {
    case 1:
      mats.pop_back();
      break;
    case 2:
      mats.emplace_back(named("c"));
      break;
    case 3:
      mats[rng.range(0, 1)].setName("c");
      break;
    case 4:
      mats[rng.range(0, 1)].xsec() = um2::XSec();
      break;
    case 5:
      g::model::mesh::generateMesh(rng.chance(0.5) ? um2::MeshType::Invalid : rng.chance(0.5) ? um2::MeshType::TriQuad : um2::MeshType::QuadraticTriQuad);
      return;
    default:
      break;
    }
    (void)g::model::mesh::setMeshFieldFromKnudsenNumber(2, mats, kn);
  };
  char const * const names[] = {"Knudsen number not positive", "fewer materials than regions", "more materials than regions", "unknown material", "material without data", "kind of mesh"};
  if (fault < 0) {
    mustAccept("modeller request", "element sizes", ask);
  } else {
    mustRefuse("modeller request", vh::fmt("element sizes: %s", names[fault]), ask);
  }
}

int
main(int argc, char ** argv)
{
  um2::logger::level = um2::logger::levels::off;
  um2::logger::exit_on_error = false;
  H5::Exception::dontPrint();
  // the graphics toolkit rewrites its preference files at start-up: keep it from doing so
  setenv("HOME", "/nonexistent", 1);
  if (seteuid(65534) != 0) {
    fprintf(stderr, "cannot drop privileges\n");
  }
  um2::gmsh::initialize(0, nullptr, false);
  if (seteuid(0) != 0) {
    fprintf(stderr, "cannot regain privileges\n");
  }
  um2::gmsh::option::setNumber("General.Terminal", 0);
  return vh::run(argc, argv, "refuse", [](vh::Rng & rng, uint64_t i) {
    switch (i % 12) {
    case 0:
    case 1:
    case 2:
    case 3:
      meshFile(rng, i / 12 * 4 + i % 12);
      break;
    case 4:
      textFile(rng);
      break;
    case 5:
      library(rng);
      break;
    case 6:
    case 7:
      conversion(rng);
      break;
    case 8:
      modelFile(rng);
      break;
    case 9:
      pinRequest(rng);
      break;
    case 10:
      (rng.chance(0.5) ? operation : rng.chance(0.5) ? modellerFile : meshRequest)(rng);
      break;
    default:
      modelRequest(rng);
    }
  });
}
