// C16: a mesh written in the native format and read back, with an independent reading of both files.
#include "soupmodel.hpp"

#include <sys/stat.h>

using um2::PolytopeSoup;

static std::string g_dir;

static void
makeDir(std::string const & d)
{
  mkdir(d.c_str(), 0755);
}

static std::string
fileName(vh::Rng & rng)
{
  static std::vector<std::string> const dirs = {"", "sub/", "a.b/", "with space/", "deep/er/"};
  static std::vector<std::string> const names = {"m", "mesh", "a_mesh_with_quite_a_long_file_name_0123456789", "x.y", "core 1", "m.h5"};
  return g_dir + "/" + rng.pick(dirs) + rng.pick(names) + ".xdmf";
}

static MSoup
randSoup(vh::Rng & rng, bool & planar, std::string & kind)
{
  MSoup m;
  planar = rng.chance(0.5);
  int const nv = rng.chance(0.05) ? rng.range(100, 800) : rng.range(1, 30);
  double const tiny = rng.chance(0.1) ? rng.logu(1e-300, 1e-9) : 0;
  for (int i = 0; i < nv; ++i) {
    addRandVertex(rng, m, planar);
    if (rng.chance(0.1)) {
      m.v.back()[0] = static_cast<Float>(rng.sign() * rng.logu(1e-30, 1e30));
    }
    if (rng.chance(0.05)) {
      m.v.back()[1] = Float(0);
    }
    if (tiny > 0 && !planar) {
      m.v.back()[2] += static_cast<Float>(tiny);
    }
  }
  std::vector<um2::VTKElemType> types;
  if (rng.chance(0.5)) {
    types = {rng.pick(std::vector<um2::VTKElemType>{um2::VTKElemType::Triangle, um2::VTKElemType::Quad, um2::VTKElemType::QuadraticEdge, um2::VTKElemType::QuadraticTriangle, um2::VTKElemType::QuadraticQuad})};
  } else {
    types = rng.chance(0.5) ? allTypes() : faceTypes();
  }
  int const ne = rng.chance(0.05) ? rng.range(100, 600) : rng.range(1, 25);
  for (int i = 0; i < ne; ++i) {
    addRandElement(rng, m, types);
  }
  if (types.size() > 1) {
    // at least two types, or the single type is one the format names
    while (m.e.size() < 2 || std::all_of(m.e.begin(), m.e.end(), [&](MElem const & e) { return e.type == m.e[0].type; })) {
      addRandElement(rng, m, types);
    }
  }
  int const ns = rng.range(0, 6);
  for (int i = 0; i < ns; ++i) {
    MSet s;
    s.name = randName(rng);
    if (rng.chance(0.1)) {
      s.name += rng.pick(std::vector<std::string>{" <&>", "\"q\"", ":1", ".", "-x"});
    }
    if (m.find(s.name) != nullptr) {
      continue;
    }
    s.ids = randIds(rng, (Int)m.e.size());
    if (rng.chance(0.5)) {
      for (size_t k = 0; k < s.ids.size(); ++k) {
        s.data.push_back(randData(rng));
      }
    }
    m.s.push_back(s);
  }
  kind = vh::fmt("%s %s %zu vertices %zu elements %zu sets", planar ? "planar" : "3d", types.size() > 1 ? "mixed" : "single type", m.v.size(), m.e.size(), m.s.size());
  return m;
}

// Every data item of the text part: the data set exists, and the stated size, width and kind are those stored.
static void
checkItem(pugi::xml_node const & item, H5::H5File const & f, std::string const & h5name, std::string const & d, std::vector<Int> * ints, std::vector<double> * reals)
{
  std::string const path = item.child_value();
  size_t const colon = path.find(h5name + ":");
  VH(colon == 0, "text.path", "%s: data item '%s' does not name the data file '%s'", d.c_str(), path.c_str(), h5name.c_str());
  if (colon != 0) {
    return;
  }
  try {
    H5::DataSet const ds = f.openDataSet(path.substr(h5name.size() + 1));
    H5::DataSpace const sp = ds.getSpace();
    hsize_t dims[8] = {};
    int const nd = sp.getSimpleExtentDims(dims, nullptr);
    std::string stated = item.attribute("Dimensions").value();
    std::string stored;
    hsize_t n = 1;
    for (int i = 0; i < nd; ++i) {
      stored += (i > 0 ? " " : "") + std::to_string(dims[i]);
      n *= dims[i];
    }
    VH(stated == stored, "text.dimensions", "%s: '%s' states '%s' stores '%s'", d.c_str(), path.c_str(), stated.c_str(), stored.c_str());
    VH(std::to_string(ds.getDataType().getSize()) == item.attribute("Precision").value(), "text.precision", "%s: '%s'", d.c_str(), path.c_str());
    bool const is_int = ds.getTypeClass() == H5T_INTEGER;
    VH(std::string(item.attribute("DataType").value()) == (is_int ? "Int" : "Float"), "text.type", "%s: '%s'", d.c_str(), path.c_str());
    VH(std::string(item.attribute("Format").value()) == "HDF", "text.format", "%s: '%s'", d.c_str(), path.c_str());
    if (ints != nullptr && is_int) {
      ints->resize(n);
      ds.read(ints->data(), H5::PredType::NATIVE_INT32);
    }
    if (reals != nullptr && !is_int) {
      reals->resize(n);
      ds.read(reals->data(), H5::PredType::NATIVE_DOUBLE);
    }
  } catch (H5::Exception const & ex) {
    vh::fail("text.missing", "%s: '%s' %s", d.c_str(), path.c_str(), ex.getCDetailMsg());
  }
}

static int
xdmfNodes(Int t)
{
  switch (t) {
  case 1:
    return 1;
  case 2:
    return 2;
  case 4:
  case 34:
    return 3;
  case 5:
    return 4;
  case 36:
    return 6;
  case 37:
    return 8;
  default:
    return -1;
  }
}

static void
independent(std::string const & file, MSoup const & m, std::string const & d, std::array<Float, 3> const & org)
{
  std::string const stem = file.substr(0, file.size() - 5);
  std::string const h5 = stem + ".h5";
  std::string const h5name = h5.substr(h5.find_last_of('/') + 1);
  pugi::xml_document doc;
  if (!doc.load_file(file.c_str())) {
    vh::fail("text.unreadable", "%s", d.c_str());
    return;
  }
  auto const grid = doc.child("Xdmf").child("Domain").child("Grid");
  VH(!grid.empty(), "text.grid", "%s", d.c_str());
  if (grid.empty()) {
    return;
  }
  H5::H5File const f(h5, H5F_ACC_RDONLY);
  std::vector<double> xyz;
  checkItem(grid.child("Geometry").child("DataItem"), f, h5name, d, nullptr, &xyz);
  std::string const gt = grid.child("Geometry").attribute("GeometryType").value();
  size_t const dim = gt == "XYZ" ? 3 : 2;
  VH(gt == "XYZ" || gt == "XY", "text.geometry_type", "%s: %s", d.c_str(), gt.c_str());
  VH(xyz.size() == dim * m.v.size(), "stored.num_vertices", "%s: %zu numbers for %zu vertices", d.c_str(), xyz.size(), m.v.size());
  if (xyz.size() == dim * m.v.size()) {
    for (size_t i = 0; i < m.v.size(); ++i) {
      for (size_t k = 0; k < dim; ++k) {
        VH(xyz[i * dim + k] == (double)(m.v[i][k] + org[k]), "stored.vertex", "%s: vertex %zu coordinate %zu stored %.17g expected %.17g", d.c_str(), i, k, xyz[i * dim + k], (double)(m.v[i][k] + org[k]));
      }
    }
  }
  auto const topo = grid.child("Topology");
  std::vector<Int> conn;
  checkItem(topo.child("DataItem"), f, h5name, d, &conn, nullptr);
  VH(topo.attribute("NumberOfElements").as_llong() == (long long)m.e.size(), "text.num_elements", "%s", d.c_str());
  std::string const tt = topo.attribute("TopologyType").value();
  static std::map<std::string, um2::VTKElemType> const single = {{"Triangle", um2::VTKElemType::Triangle}, {"Quadrilateral", um2::VTKElemType::Quad}, {"Edge_3", um2::VTKElemType::QuadraticEdge}, {"Triangle_6", um2::VTKElemType::QuadraticTriangle}, {"Quadrilateral_8", um2::VTKElemType::QuadraticQuad}};
  std::vector<Int> want;
  auto const it = single.find(tt);
  if (it != single.end()) {
    for (auto const & e : m.e) {
      VH(e.type == it->second, "text.topology_type", "%s: %s", d.c_str(), tt.c_str());
      want.insert(want.end(), e.conn.begin(), e.conn.end());
    }
    VH(conn == want, "stored.topology", "%s", d.c_str());
  } else {
    VH(tt == "Mixed", "text.topology_type", "%s: %s", d.c_str(), tt.c_str());
    static std::map<um2::VTKElemType, Int> const code = {{um2::VTKElemType::Vertex, 1}, {um2::VTKElemType::Line, 2}, {um2::VTKElemType::Triangle, 4}, {um2::VTKElemType::Quad, 5}, {um2::VTKElemType::QuadraticEdge, 34}, {um2::VTKElemType::QuadraticTriangle, 36}, {um2::VTKElemType::QuadraticQuad, 37}};
    for (auto const & e : m.e) {
      want.push_back(code.at(e.type));
      want.insert(want.end(), e.conn.begin(), e.conn.end());
    }
    VH(conn == want, "stored.topology", "%s", d.c_str());
  }
  size_t ns = 0;
  for (auto set = grid.child("Set"); set; set = set.next_sibling("Set")) {
    if (ns < m.s.size()) {
      MSet const & s = m.s[ns];
      VH(s.name == set.attribute("Name").value(), "text.set_name", "%s: '%s' expected '%s'", d.c_str(), set.attribute("Name").value(), s.name.c_str());
      std::vector<Int> ids;
      checkItem(set.child("DataItem"), f, h5name, d, &ids, nullptr);
      VH(ids == s.ids, "stored.set_ids", "%s: set '%s'", d.c_str(), s.name.c_str());
      std::vector<double> data;
      if (set.child("Attribute")) {
        checkItem(set.child("Attribute").child("DataItem"), f, h5name, d, nullptr, &data);
      }
      VH(data == std::vector<double>(s.data.begin(), s.data.end()), "stored.set_data", "%s: set '%s'", d.c_str(), s.name.c_str());
    }
    ++ns;
  }
  VH(ns == m.s.size(), "text.num_sets", "%s: %zu expected %zu", d.c_str(), ns, m.s.size());
}

static void
bitwise(PolytopeSoup const & p, MSoup const & m, std::string const & d, bool z)
{
  if (p.numVertices() != (Int)m.v.size()) {
    return;
  }
  for (size_t i = 0; i < m.v.size(); ++i) {
    auto const q = p.getVertex((Int)i);
    for (Int k = 0; k < (z ? 3 : 2); ++k) {
      Float const a = q[k];
      Float const b = m.v[i][(size_t)k];
      VH(std::memcmp(&a, &b, sizeof(Float)) == 0, "bits", "%s: vertex %zu coordinate %d", d.c_str(), i, k);
    }
  }
}

// Runs f and tells whether it reported an error.
template <class F>
static bool
reports(F && f)
{
  vh::Capture cap;
  um2::logger::level = um2::logger::levels::error;
  f();
  um2::logger::level = um2::logger::levels::off;
  cap.stop();
  return cap.err.find("ERROR") != std::string::npos || cap.out.find("ERROR") != std::string::npos;
}

template <class T>
static H5::PredType
h5type()
{
  if constexpr (std::is_same_v<T, float>) {
    return H5::PredType::NATIVE_FLOAT;
  } else if constexpr (std::is_same_v<T, double>) {
    return H5::PredType::NATIVE_DOUBLE;
  } else if constexpr (std::is_same_v<T, int16_t>) {
    return H5::PredType::NATIVE_INT16;
  } else if constexpr (std::is_same_v<T, int32_t>) {
    return H5::PredType::NATIVE_INT32;
  } else {
    return H5::PredType::NATIVE_INT64;
  }
}
template <class T, class U>
static void
put(H5::H5File & f, std::string const & name, std::vector<U> const & v, std::vector<hsize_t> dims)
{
  std::vector<T> w(v.begin(), v.end());
  H5::DataSpace const sp((int)dims.size(), dims.data());
  H5::DataSet const ds = f.createDataSet(name, h5type<T>(), sp);
  ds.write(w.data(), h5type<T>());
}
template <class U>
static std::string
putAny(H5::H5File & f, std::string const & h5name, std::string const & name, std::vector<U> const & v, std::vector<hsize_t> const & dims, bool wide, bool narrow = false)
{
  std::string dd;
  for (auto const x : dims) {
    dd += (dd.empty() ? "" : " ") + std::to_string(x);
  }
  if constexpr (std::is_floating_point_v<U>) {
    wide ? put<double>(f, name, v, dims) : put<float>(f, name, v, dims);
  } else {
    if (narrow) {
      put<int16_t>(f, name, v, dims);
    } else {
      wide ? put<int64_t>(f, name, v, dims) : put<int32_t>(f, name, v, dims);
    }
  }
  return vh::fmt("<DataItem DataType=\"%s\" Dimensions=\"%s\" Precision=\"%d\" Format=\"HDF\">%s:%s</DataItem>\n", std::is_floating_point_v<U> ? "Float" : "Int", dd.c_str(), narrow ? 2 : wide ? 8 : 4, h5name.c_str(), name.c_str());
}

// A file written by someone else, with either width of the stored numbers.
static void
foreign(vh::Rng & rng, MSoup m, std::string const & kind)
{
  std::string const file = g_dir + "/foreign.xdmf";
  std::string const d = "file with other widths, " + kind;
  bool const wg = rng.chance(0.5);
  bool const wt = rng.chance(0.5);
  bool const three = rng.chance(0.5);
  bool const narrow = rng.chance(0.2) && m.e.size() < 32000;
  bool any_narrow = false;
  for (auto & v : m.v) {
    for (auto & c : v) {
      if (std::fabs((double)c) > 1e30 || (c != 0 && std::fabs((double)c) < 1e-30)) {
        c = 1;
      }
      if (!wg) {
        c = static_cast<Float>(static_cast<float>(c));
      }
    }
    if (!three) {
      v[2] = 0;
    }
  }
  std::string xml = "<?xml version=\"1.0\"?>\n<Xdmf Version=\"3.0\"><Domain>\n<Grid Name=\"g\" GridType=\"Uniform\">\n";
  {
    H5::H5File f(g_dir + "/foreign.h5", H5F_ACC_TRUNC);
    f.createGroup("/g");
    std::vector<double> xyz;
    for (auto const & v : m.v) {
      for (size_t k = 0; k < (three ? 3U : 2U); ++k) {
        xyz.push_back((double)v[k]);
      }
    }
    std::string const geom = vh::fmt("<Geometry GeometryType=\"%s\">", three ? "XYZ" : "XY") + putAny(f, "foreign.h5", "/g/Geometry", xyz, {m.v.size(), three ? 3U : 2U}, wg) + "</Geometry>\n";
    std::vector<Int> conn;
    bool const homog = std::all_of(m.e.begin(), m.e.end(), [&](MElem const & e) { return e.type == m.e[0].type; });
    static std::map<um2::VTKElemType, std::pair<Int, std::string>> const code = {{um2::VTKElemType::Vertex, {1, ""}}, {um2::VTKElemType::Line, {2, ""}}, {um2::VTKElemType::Triangle, {4, "Triangle"}}, {um2::VTKElemType::Quad, {5, "Quadrilateral"}}, {um2::VTKElemType::QuadraticEdge, {34, "Edge_3"}}, {um2::VTKElemType::QuadraticTriangle, {36, "Triangle_6"}}, {um2::VTKElemType::QuadraticQuad, {37, "Quadrilateral_8"}}};
    bool const mixed = !homog || rng.chance(0.3);
    for (auto const & e : m.e) {
      if (mixed) {
        conn.push_back(code.at(e.type).first);
      }
      conn.insert(conn.end(), e.conn.begin(), e.conn.end());
    }
    std::vector<hsize_t> const dims = mixed ? std::vector<hsize_t>{conn.size()} : std::vector<hsize_t>{m.e.size(), (hsize_t)nodesOf(m.e[0].type)};
    std::string const topo = vh::fmt("<Topology TopologyType=\"%s\" NumberOfElements=\"%zu\">", mixed ? "Mixed" : code.at(m.e[0].type).second.c_str(), m.e.size()) + putAny(f, "foreign.h5", "/g/Topology", conn, dims, wt) + "</Topology>\n";
    xml += rng.chance(0.5) ? geom + topo : topo + geom;
    int n = 0;
    for (auto & s : m.s) {
      bool const wi = rng.chance(0.5);
      bool const wd = rng.chance(0.5);
      s.name = vh::fmt("set%d", n);
      xml += "<Set Name=\"" + s.name + "\" SetType=\"Cell\">" + putAny(f, "foreign.h5", "/g/i" + std::to_string(n), s.ids, {s.ids.size()}, wi, narrow && n == 0);
      any_narrow = any_narrow || narrow;
      if (!s.data.empty()) {
        for (auto & x : s.data) {
          if (!wd) {
            x = static_cast<Float>(static_cast<float>(x));
          }
        }
        xml += "<Attribute Name=\"d\" Center=\"Cell\">" + putAny(f, "foreign.h5", "/g/d" + std::to_string(n), s.data, {s.data.size()}, wd) + "</Attribute>";
      }
      xml += "</Set>\n";
      ++n;
    }
  }
  xml += "</Grid></Domain></Xdmf>\n";
  FILE * o = fopen(file.c_str(), "w");
  fputs(xml.c_str(), o);
  fclose(o);
  PolytopeSoup p;
  if (any_narrow) {
    // smaller integers are either read or refused, never left out silently
    bool const refused = reports([&] { p.read(um2::String(file.c_str())); });
    vh::count("files with small integers");
    if (!refused) {
      match(p, m, "foreign_small", d);
    }
    return;
  }
  p.read(um2::String(file.c_str()));
  match(p, m, "foreign", d);
  vh::count("files with other widths");
}

// Several meshes placed in one pair of files.
static void
several(vh::Rng & rng, std::string const & kind0)
{
  int const n = rng.range(1, 3);
  std::vector<MSoup> ms;
  pugi::xml_document doc;
  auto dom = doc.append_child("Xdmf").append_child("Domain");
  std::string const h5 = g_dir + "/several.h5";
  um2::String const h5name("several.h5");
  bool const nested = rng.chance(0.5);
  std::string const d = "several meshes in one file, " + kind0;
  {
    H5::H5File f(h5, H5F_ACC_TRUNC);
    if (nested) {
      f.createGroup("/top");
    }
    for (int i = 0; i < n; ++i) {
      bool planar = false;
      std::string kind;
      MSoup m = randSoup(rng, planar, kind);
      um2::Point3F org(static_cast<Float>(rng.uni(-5, 5)), static_cast<Float>(rng.uni(-5, 5)), static_cast<Float>(rng.chance(0.5) ? 0 : rng.uni(1, 5)));
      PolytopeSoup p;
      build(p, m);
      um2::writeXDMFUniformGrid(um2::String(vh::fmt("grid_%d", i).c_str()), dom, f, h5name, um2::String(nested ? "/top" : ""), p, org);
      Float zmax = 0;
      for (auto & v : m.v) {
        zmax = std::max(zmax, std::fabs(v[2]));
        for (size_t k = 0; k < 3; ++k) {
          v[k] += org[(Int)k];
        }
      }
      if (zmax > 0 && zmax < Float(1e-5) && org[2] == 0) {
        for (auto & v : m.v) {
          v[2] = 0;
        }
      }
      ms.push_back(m);
    }
  }
  doc.save_file((g_dir + "/several.xdmf").c_str());
  pugi::xml_document in;
  in.load_file((g_dir + "/several.xdmf").c_str());
  H5::H5File const f(h5, H5F_ACC_RDONLY);
  size_t i = 0;
  for (auto g = in.child("Xdmf").child("Domain").child("Grid"); g; g = g.next_sibling("Grid")) {
    PolytopeSoup q;
    um2::readXDMFUniformGrid(g, f, h5name, q);
    if (i < ms.size()) {
      match(q, ms[i], "placed", d);
    }
    ++i;
  }
  VH(i == ms.size(), "placed.num", "%s", d.c_str());
  vh::count("meshes placed at an origin", n);
}

// two sets, one of which is named like the data of the other
static void
collision()
{
  MSoup m;
  m.v = {{0, 0, 0}, {1, 0, 0}, {0, 1, 0}};
  m.e.push_back({um2::VTKElemType::Triangle, {0, 1, 2}});
  m.s.push_back({"X", {0}, {2.5}});
  m.s.push_back({"X_data", {0}, {}});
  PolytopeSoup p;
  build(p, m);
  um2::String const f((g_dir + "/collision.xdmf").c_str());
  try {
    p.write(f);
    PolytopeSoup q;
    q.read(f);
    match(q, m, "collision", "set X with data and set X_data");
  } catch (H5::Exception const & ex) {
    vh::fail("name_collision", "writing a mesh with set X carrying data and set X_data: %s", ex.getCDetailMsg());
  }
}

int
main(int argc, char ** argv)
{
  um2::logger::level = um2::logger::levels::off;
  um2::logger::exit_on_error = false;
  H5::Exception::dontPrint();
  return vh::run(argc, argv, "xdmf", [](vh::Rng & rng, uint64_t ci) {
    if (g_dir.empty()) {
      g_dir = vh::ctx().scratch + "/files";
      makeDir(g_dir);
      for (auto const * s : {"/sub", "/a.b", "/with space", "/deep", "/deep/er"}) {
        makeDir(g_dir + s);
      }
      if (chdir(g_dir.c_str()) != 0) {
        exit(3);
      }
    }
    if (ci % 500 == 0) {
      collision();
    }
    bool planar = false;
    std::string kind;
    MSoup m = randSoup(rng, planar, kind);
    PolytopeSoup p;
    build(p, m);
    try {
      if (rng.chance(0.15)) {
        foreign(rng, m, kind);
        return;
      }
      if (rng.chance(0.15)) {
        several(rng, kind);
        return;
      }
      std::string file = fileName(rng);
      if (rng.chance(0.2)) {
        file = file.substr(g_dir.size() + 1); // relative to the current directory
        vh::count("relative paths");
      }
      std::string const d = kind + ", file " + file;
      p.write(um2::String(file.c_str()));
      match(p, m, "writing_changed", d);
      Float zmax = 0;
      for (auto const & v : m.v) {
        zmax = std::max(zmax, std::fabs(v[2]));
      }
      if (zmax > 0 && zmax < Float(1e-5)) {
        for (auto & v : m.v) {
          v[2] = 0;
        }
        vh::count("thickness below the tolerance");
        PolytopeSoup q;
        q.read(um2::String(file.c_str()));
        VH(p.compare(q) == 0, "compare", "%s: %d", d.c_str(), p.compare(q));
        bitwise(q, m, d, false);
        return;
      }
      independent(file[0] == '/' ? file : g_dir + "/" + file, m, d, {0, 0, 0});
      PolytopeSoup q;
      if (rng.chance(0.5)) {
        q.read(um2::String(file.c_str()));
      } else {
        q = PolytopeSoup(um2::String(file.c_str()));
      }
      match(q, m, "read", d);
      bitwise(q, m, d, !planar);
      VH(p.compare(q) == 0 && q.compare(p) == 0, "compare", "%s: %d %d", d.c_str(), p.compare(q), q.compare(p));
      vh::count(planar ? "planar meshes" : "3d meshes");
      bool mixed = false;
      bool sparse = false;
      bool data = false;
      for (auto const & e : m.e) {
        mixed = mixed || e.type != m.e[0].type;
      }
      for (auto const & s : m.s) {
        sparse = sparse || s.ids.size() < m.e.size();
        data = data || !s.data.empty();
      }
      vh::count(mixed ? "mixed meshes" : vh::fmt("meshes of type %d", (int)m.e[0].type));
      vh::count("sets with data", data ? 1 : 0);
      vh::count("sparse sets", sparse ? 1 : 0);
      if (m.s.size() > 1) {
        vh::nontrivial(vh::hashStr(d) ^ vh::mix(ci));
        vh::sample(d);
      }
    } catch (H5::Exception const & ex) {
      vh::fail("exception", "%s: %s", kind.c_str(), ex.getCDetailMsg());
    }
  });
}
