// C17: text mesh files generated from a model, imported and compared with it.
#include "soupmodel.hpp"

using um2::PolytopeSoup;
using um2::VTKElemType;

// Text of a number and the value it denotes.
static std::string
number(vh::Rng & rng, Float & value)
{
  char buf[64];
  switch (rng.range(0, 8)) {
  case 0:
    snprintf(buf, sizeof buf, "%d", rng.range(-20, 20));
    break;
  case 1:
    snprintf(buf, sizeof buf, "%d.", rng.range(-20, 20));
    break;
  case 2:
    snprintf(buf, sizeof buf, "%s.%d", rng.chance(0.5) ? "-" : "", rng.range(0, 99999));
    break;
  case 3:
    snprintf(buf, sizeof buf, "%.*e", rng.range(0, 16), rng.uni(-1, 1) * rng.logu(1e-8, 1e8));
    break;
  case 4:
    snprintf(buf, sizeof buf, "%.*E", rng.range(0, 16), rng.uni(-1, 1) * rng.logu(1e-8, 1e8));
    break;
  case 5:
    snprintf(buf, sizeof buf, "%.17g", rng.uni(-10, 10));
    break;
  case 6:
    snprintf(buf, sizeof buf, "+%.6f", rng.uni(0, 10));
    break;
  case 7:
    snprintf(buf, sizeof buf, "%.*f", rng.range(1, 20), rng.uni(-10, 10));
    break;
  default:
    snprintf(buf, sizeof buf, "%g", rng.uni(-10, 10));
    break;
  }
  if constexpr (std::is_same_v<Float, float>) {
    value = strtof(buf, nullptr);
  } else {
    value = strtod(buf, nullptr);
  }
  return buf;
}

static std::string
put(std::string const & file, std::string const & text)
{
  std::string const path = vh::ctx().scratch + "/" + file;
  FILE * f = fopen(path.c_str(), "w");
  if (f == nullptr) {
    exit(3);
  }
  fwrite(text.data(), 1, text.size(), f);
  fclose(f);
  return path;
}

static std::string
abaqus(vh::Rng & rng, MSoup & m, std::string & kind)
{
  std::string t;
  bool const comments = rng.chance(0.3);
  bool const inner = comments && rng.chance(0.5);
  bool const crowded = rng.chance(0.3); // no blank after commas
  bool const trailing = rng.chance(0.6);
  std::string const sep = crowded ? "," : ", ";
  auto pad = [&]() { return rng.chance(0.1) ? std::string((size_t)rng.range(1, 6), ' ') : std::string(); };
  auto comment = [&](bool on, double p) {
    if (on && rng.chance(p)) {
      t += rng.pick(std::vector<std::string>{"**\n", "** a remark\n", "******* E L E M E N T S *************\n", "** 1, 2, 3\n", "**NODE\n"});
    }
  };
  comment(comments, 0.3);
  if (rng.chance(0.8)) {
    t += "*Heading\n some/path/mesh.inp\n";
  }
  int const nv = rng.chance(0.05) ? rng.range(100, 400) : rng.range(1, 25);
  int const vblocks = rng.chance(0.1) ? 2 : 1;
  for (int b = 0; b < vblocks; ++b) {
    comment(comments, 0.3);
    t += "*NODE\n";
    for (int i = 0; i < nv; ++i) {
      std::array<Float, 3> v{};
      std::string line = pad() + std::to_string(m.v.size() + 1);
      for (auto & c : v) {
        line += sep + pad() + number(rng, c);
      }
      if (rng.chance(0.1)) {
        line += " ";
      }
      t += line + "\n";
      m.v.push_back(v);
      comment(inner, 0.05);
    }
  }
  int const blocks = rng.range(1, 4);
  int ns = rng.range(0, 5);
  auto sets = [&](int n) {
    for (int k = 0; k < n; ++k) {
      MSet s;
      s.name = randName(rng);
      if (m.find(s.name) != nullptr) {
        continue;
      }
      s.ids = randIds(rng, (Int)m.e.size());
      comment(comments, 0.2);
      t += "*ELSET,ELSET=" + s.name + "\n";
      size_t i = 0;
      while (i < s.ids.size()) {
        size_t const per = rng.chance(0.5) ? 10 : (size_t)rng.range(1, 16);
        std::string line;
        for (size_t q = 0; q < per && i < s.ids.size(); ++q, ++i) {
          line += (line.empty() ? pad() : sep + pad()) + std::to_string(s.ids[i] + 1);
        }
        // a list continues after a comma; at its very end the comma is optional
        if (i < s.ids.size() || trailing) {
          line += rng.chance(0.5) ? "," : ", ";
        }
        t += line + "\n";
        comment(inner, 0.05);
      }
      m.s.push_back(s);
    }
  };
  for (int b = 0; b < blocks; ++b) {
    comment(comments, 0.4);
    VTKElemType const ty = rng.pick(faceTypes());
    t += vh::fmt("*ELEMENT, type=CPS%d", nodesOf(ty));
    if (rng.chance(0.7)) {
      t += vh::fmt(", ELSET=Surface%d", b + 1);
    }
    t += "\n";
    int const ne = rng.range(1, 12);
    for (int i = 0; i < ne; ++i) {
      addRandElement(rng, m, {ty});
      std::string line = pad() + std::to_string(m.e.size());
      for (Int const c : m.e.back().conn) {
        line += sep + pad() + std::to_string(c + 1);
      }
      t += line + "\n";
      comment(inner, 0.05);
    }
    if (b + 1 < blocks && rng.chance(0.3)) {
      int const n = rng.range(0, ns);
      sets(n);
      ns -= n;
    }
  }
  sets(ns);
  if (rng.chance(0.1) && !t.empty()) {
    t.pop_back(); // no newline at the end of the file
    vh::count("files without final newline");
  }
  m.sortSets();
  if (inner) {
    vh::count("comments inside sections");
  }
  if (!trailing) {
    vh::count("lists without final comma");
  }
  kind = vh::fmt("inp: %zu nodes %zu elements %zu sets%s%s%s", m.v.size(), m.e.size(), m.s.size(), inner ? " inner-comments" : "", crowded ? " crowded" : "", trailing ? "" : " no-final-comma");
  return t;
}

static std::string
vtk(vh::Rng & rng, MSoup & m, std::string & kind)
{
  std::string t = "# vtk DataFile Version 3.0\n";
  t += rng.pick(std::vector<std::string>{"title", "a title with words", ""}) + "\nASCII\nDATASET UNSTRUCTURED_GRID\n";
  int const nv = rng.chance(0.05) ? rng.range(100, 400) : rng.range(1, 25);
  bool const packed = rng.chance(0.3); // several points per line
  bool const indent = rng.chance(0.3);
  bool const blanks = rng.chance(0.6);
  std::string const lead = indent ? "   " : "";
  t += vh::fmt("POINTS %d %s\n", nv, rng.chance(0.5) ? "float" : "double");
  for (int i = 0; i < nv; ++i) {
    std::array<Float, 3> v{};
    std::string line;
    for (auto & c : v) {
      line += (line.empty() ? lead : std::string(rng.chance(0.1) ? "   " : " ")) + number(rng, c);
    }
    if (rng.chance(0.1)) {
      line += "    ";
    }
    m.v.push_back(v);
    t += line + (packed && i % 3 != 2 && i + 1 < nv ? " " : "\n");
  }
  if (blanks) {
    t += "\n";
  }
  int const ne = rng.chance(0.1) ? rng.range(30, 200) : rng.range(1, 30);
  std::vector<VTKElemType> const types = rng.chance(0.5) ? std::vector<VTKElemType>{rng.pick(faceTypes())} : faceTypes();
  int len = 0;
  for (int i = 0; i < ne; ++i) {
    addRandElement(rng, m, types);
    len += 1 + (int)m.e.back().conn.size();
  }
  t += vh::fmt("CELLS %d %d\n", ne, len);
  for (auto const & e : m.e) {
    t += lead + std::to_string(e.conn.size());
    for (Int const c : e.conn) {
      t += std::string(rng.chance(0.1) ? "  " : " ") + std::to_string(c);
    }
    t += "\n";
  }
  if (blanks) {
    t += "\n";
  }
  t += vh::fmt("CELL_TYPES %d\n", ne);
  bool const oneline = rng.chance(0.5);
  for (auto const & e : m.e) {
    t += lead + std::to_string((int)e.type) + (oneline ? " " : "\n");
  }
  if (oneline) {
    t += "\n";
  }
  if (blanks) {
    t += "\n";
  }
  int const nd = rng.range(0, 4);
  bool const shared = rng.chance(0.4); // one CELL_DATA heading for all arrays
  if (rng.chance(0.15)) {
    t += vh::fmt("POINT_DATA %d\nSCALARS nodal float 1\nLOOKUP_TABLE default\n", nv);
    for (int i = 0; i < nv; ++i) {
      t += "0.25\n";
    }
    if (blanks) {
      t += "\n";
    }
    vh::count("files with point data");
  }
  int head = 0;
  bool longline = false;
  for (int k = 0; k < nd; ++k) {
    MSet s;
    s.name = rng.pick(std::vector<std::string>{"material", "flux_001", "flux_002", "power", "A", "B", "z"});
    if (m.find(s.name) != nullptr) {
      continue;
    }
    bool const ints = rng.chance(0.4);
    if (head == 0 || !shared) {
      t += vh::fmt("CELL_DATA %d\n", ne);
    }
    ++head;
    t += "SCALARS " + s.name + (ints ? " int" : rng.chance(0.5) ? " float" : " double") + (rng.chance(0.5) ? "" : " 1") + "\nLOOKUP_TABLE " + (rng.chance(0.5) ? "default" : s.name + "_table") + "\n";
    int const per = rng.pick(std::vector<int>{1, 3, 6, 1000});
    size_t width = 0;
    for (int i = 0; i < ne; ++i) {
      s.ids.push_back(i);
      Float x = 0;
      std::string w;
      if (ints) {
        int const v = rng.chance(0.2) ? rng.range(-2000000000, 2000000000) : rng.range(-5, 500);
        w = std::to_string(v);
        x = static_cast<Float>(v);
      } else {
        w = number(rng, x);
      }
      s.data.push_back(x);
      w = (i % per == 0 ? lead : std::string(rng.chance(0.1) ? "   " : " ")) + w;
      if (per == 1000 && rng.chance(0.05)) {
        w = std::string(60, ' ') + w;
      }
      width += w.size();
      t += w;
      if (i % per == per - 1 || i + 1 == ne) {
        longline = longline || width > 1023;
        width = 0;
        t += rng.chance(0.2) ? " \n" : "\n";
      }
    }
    if (blanks) {
      t += "\n";
    }
    m.s.push_back(s);
  }
  m.sortSets();
  if (packed) {
    vh::count("several points per line");
  }
  if (shared && head > 1) {
    vh::count("several arrays under one heading");
  }
  if (!blanks) {
    vh::count("no blank lines");
  }
  if (longline) {
    vh::count("very long lines");
  }
  kind = vh::fmt("vtk: %zu points %zu cells %zu arrays%s%s%s%s", m.v.size(), m.e.size(), m.s.size(), packed ? " packed" : "", blanks ? "" : " no-blank-lines", shared ? " shared-heading" : "", indent ? " indented" : "");
  return t;
}

int
main(int argc, char ** argv)
{
  um2::logger::level = um2::logger::levels::off;
  um2::logger::exit_on_error = false;
  return vh::run(argc, argv, "import", [](vh::Rng & rng, uint64_t ci) {
    MSoup m;
    std::string kind;
    if (ci % 64 == 63) {
      // not a readable mesh file: an error, and the mesh is as before
      addRandVertex(rng, m);
      addRandElement(rng, m, {VTKElemType::Vertex});
      std::string const name = rng.pick(std::vector<std::string>{"none.inp", "none.vtk", "none/x.inp", "mesh.msh", "inp", "x.INP", "vtk.txt"});
      std::string path = vh::ctx().scratch + "/" + name;
      if (name == "mesh.msh") {
        path = put(name, "*NODE\n1, 0, 0, 0\n*ELEMENT, type=CPS3\n1, 1, 1, 1\n");
      }
      std::string out;
      int const r = vh::isolated([&]() {
        um2::logger::level = um2::logger::levels::error;
        PolytopeSoup p;
        build(p, m);
        p.read(um2::String(path.c_str()));
        std::map<std::string, int> const before = vh::ctx().fails;
        match(p, m, "rejected", name);
        return before == vh::ctx().fails;
      },
                                 &out);
      VH(r == 0, "rejected", "%s: reading it %s", name.c_str(), r == 1 ? "changed the mesh" : "ended the program");
      VH(out.find("ERROR") != std::string::npos || out.find("rror") != std::string::npos, "rejected.silent", "%s: no error reported: %s", name.c_str(), out.c_str());
      vh::count("rejected files");
      return;
    }
    bool const inp = rng.chance(0.5);
    std::string const text = inp ? abaqus(rng, m, kind) : vtk(rng, m, kind);
    std::string const path = put(inp ? "mesh.inp" : "mesh.vtk", text);
    PolytopeSoup p;
    if (rng.chance(0.5)) {
      p.read(um2::String(path.c_str()));
    } else {
      p = PolytopeSoup(um2::String(path.c_str()));
    }
    match(p, m, inp ? "inp" : "vtk", kind);
    vh::count(inp ? "inp files" : "vtk files");
    if (m.s.size() > 0) {
      vh::nontrivial(vh::hashStr(text));
      vh::sample(kind);
    }
  });
}
