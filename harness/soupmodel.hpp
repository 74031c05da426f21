#pragma once
// A plain model of an unstructured mesh with element sets, and its comparison with the library's.
#include "vh.hpp"

#include <um2/common/logger.hpp>
#include <um2/config.hpp>
#include <um2/mesh/element_types.hpp>
#include <um2/mesh/polytope_soup.hpp>

#include <algorithm>
#include <array>
#include <set>
#include <string>
#include <vector>

struct MElem {
  um2::VTKElemType type = um2::VTKElemType::Invalid;
  std::vector<Int> conn;
  bool operator==(MElem const & o) const { return type == o.type && conn == o.conn; }
};
struct MSet {
  std::string name;
  std::vector<Int> ids;
  std::vector<Float> data;
  bool operator==(MSet const & o) const { return name == o.name && ids == o.ids && data == o.data; }
};
struct MSoup {
  std::vector<std::array<Float, 3>> v;
  std::vector<MElem> e;
  std::vector<MSet> s;

  bool sortedSets() const
  {
    return std::is_sorted(s.begin(), s.end(), [](MSet const & a, MSet const & b) { return a.name < b.name; });
  }
  void sortSets()
  {
    std::stable_sort(s.begin(), s.end(), [](MSet const & a, MSet const & b) { return a.name < b.name; });
  }
  MSet * find(std::string const & n)
  {
    for (auto & x : s) {
      if (x.name == n) {
        return &x;
      }
    }
    return nullptr;
  }
  void append(MSoup const & o)
  {
    Int const nv = (Int)v.size();
    Int const ne = (Int)e.size();
    v.insert(v.end(), o.v.begin(), o.v.end());
    for (auto x : o.e) {
      for (auto & i : x.conn) {
        i += nv;
      }
      e.push_back(x);
    }
    if (o.s.empty()) {
      return;
    }
    for (auto const & x : o.s) {
      MSet t = x;
      for (auto & i : t.ids) {
        i += ne;
      }
      MSet * m = find(x.name);
      if (m == nullptr) {
        s.push_back(t);
      } else {
        m->ids.insert(m->ids.end(), t.ids.begin(), t.ids.end());
        m->data.insert(m->data.end(), t.data.begin(), t.data.end());
      }
    }
    sortSets();
  }
  MSoup subset(MSet const & set) const
  {
    MSoup r;
    std::set<Int> vs;
    for (Int const i : set.ids) {
      vs.insert(e[(size_t)i].conn.begin(), e[(size_t)i].conn.end());
    }
    std::vector<Int> const vv(vs.begin(), vs.end());
    for (Int const i : vv) {
      r.v.push_back(v[(size_t)i]);
    }
    for (Int const i : set.ids) {
      MElem x = e[(size_t)i];
      for (auto & c : x.conn) {
        c = (Int)(std::lower_bound(vv.begin(), vv.end(), c) - vv.begin());
      }
      r.e.push_back(x);
    }
    for (auto const & o : s) {
      if (o.name == set.name) {
        continue;
      }
      MSet t;
      t.name = o.name;
      for (size_t k = 0; k < set.ids.size(); ++k) {
        auto const it = std::find(o.ids.begin(), o.ids.end(), set.ids[k]);
        if (it != o.ids.end()) {
          t.ids.push_back((Int)k);
          if (!o.data.empty()) {
            t.data.push_back(o.data[(size_t)(it - o.ids.begin())]);
          }
        }
      }
      if (!t.ids.empty()) {
        r.s.push_back(t);
      }
    }
    return r;
  }
};

inline std::vector<um2::VTKElemType> const &
allTypes()
{
  static std::vector<um2::VTKElemType> const t = {um2::VTKElemType::Vertex, um2::VTKElemType::Line, um2::VTKElemType::Triangle, um2::VTKElemType::Quad, um2::VTKElemType::QuadraticEdge, um2::VTKElemType::QuadraticTriangle, um2::VTKElemType::QuadraticQuad};
  return t;
}
inline std::vector<um2::VTKElemType> const &
faceTypes()
{
  static std::vector<um2::VTKElemType> const t = {um2::VTKElemType::Triangle, um2::VTKElemType::Quad, um2::VTKElemType::QuadraticTriangle, um2::VTKElemType::QuadraticQuad};
  return t;
}
inline Int
nodesOf(um2::VTKElemType t)
{
  switch (t) {
  case um2::VTKElemType::Vertex:
    return 1;
  case um2::VTKElemType::Line:
    return 2;
  case um2::VTKElemType::Triangle:
  case um2::VTKElemType::QuadraticEdge:
    return 3;
  case um2::VTKElemType::Quad:
    return 4;
  case um2::VTKElemType::QuadraticTriangle:
    return 6;
  case um2::VTKElemType::QuadraticQuad:
    return 8;
  default:
    return 0;
  }
}

template <class T>
inline um2::Vector<T>
toVec(std::vector<T> const & v)
{
  um2::Vector<T> r;
  for (auto const & x : v) {
    r.push_back(x);
  }
  return r;
}
template <class T>
inline bool
same(um2::Vector<T> const & a, std::vector<T> const & b)
{
  if (a.size() != (Int)b.size()) {
    return false;
  }
  for (Int i = 0; i < a.size(); ++i) {
    if (!(a[i] == b[(size_t)i])) {
      return false;
    }
  }
  return true;
}
inline std::string
str(um2::String const & s)
{
  return std::string(s.data(), (size_t)s.size());
}

inline void
build(um2::PolytopeSoup & p, MSoup const & m)
{
  for (auto const & x : m.v) {
    p.addVertex(x[0], x[1], x[2]);
  }
  for (auto const & x : m.e) {
    p.addElement(x.type, toVec(x.conn));
  }
  for (auto const & x : m.s) {
    p.addElset(um2::String(x.name.c_str()), toVec(x.ids), toVec(x.data));
  }
}

// Everything the public interface shows about p equals the model.
inline void
match(um2::PolytopeSoup const & p, MSoup const & m, std::string const & key, std::string const & d)
{
  VH(p.numVertices() == (Int)m.v.size() && p.vertices().size() == (Int)m.v.size(), key + ".num_vertices", "%s: %d expected %zu", d.c_str(), p.numVertices(), m.v.size());
  VH(p.numElements() == (Int)m.e.size(), key + ".num_elements", "%s: %d expected %zu", d.c_str(), p.numElements(), m.e.size());
  VH(p.numElsets() == (Int)m.s.size(), key + ".num_sets", "%s: %d expected %zu", d.c_str(), p.numElsets(), m.s.size());
  if (p.numVertices() == (Int)m.v.size()) {
    for (size_t i = 0; i < m.v.size(); ++i) {
      auto const q = p.getVertex((Int)i);
      VH(q[0] == m.v[i][0] && q[1] == m.v[i][1] && q[2] == m.v[i][2], key + ".vertex", "%s: vertex %zu (%.17g %.17g %.17g) expected (%.17g %.17g %.17g)", d.c_str(), i, (double)q[0], (double)q[1], (double)q[2], (double)m.v[i][0], (double)m.v[i][1], (double)m.v[i][2]);
    }
  }
  if (p.numElements() == (Int)m.e.size()) {
    um2::Vector<Int> conn;
    for (size_t i = 0; i < m.e.size(); ++i) {
      um2::VTKElemType t{};
      p.getElement((Int)i, t, conn);
      VH(t == m.e[i].type && same(conn, m.e[i].conn), key + ".element", "%s: element %zu type %d (%d nodes) expected type %d (%zu nodes)", d.c_str(), i, (int)t, conn.size(), (int)m.e[i].type, m.e[i].conn.size());
    }
    // unique types
    std::set<int> want;
    for (auto const & x : m.e) {
      want.insert((int)x.type);
    }
    std::set<int> got;
    auto const types = p.getElemTypes();
    for (auto const t : types) {
      got.insert((int)t);
    }
    VH(got == want && types.size() == (Int)want.size(), key + ".types", "%s", d.c_str());
  }
  if (p.numElsets() == (Int)m.s.size()) {
    um2::String name;
    um2::Vector<Int> ids;
    um2::Vector<Float> data;
    for (size_t i = 0; i < m.s.size(); ++i) {
      p.getElset((Int)i, name, ids, data);
      VH(str(name) == m.s[i].name, key + ".set_name", "%s: set %zu '%s' expected '%s'", d.c_str(), i, str(name).c_str(), m.s[i].name.c_str());
      VH(same(ids, m.s[i].ids), key + ".set_ids", "%s: set '%s' has %d ids expected %zu", d.c_str(), m.s[i].name.c_str(), ids.size(), m.s[i].ids.size());
      VH(same(data, m.s[i].data), key + ".set_data", "%s: set '%s' has %d data expected %zu", d.c_str(), m.s[i].name.c_str(), data.size(), m.s[i].data.size());
      p.getElset(um2::String(m.s[i].name.c_str()), ids, data);
      VH(same(ids, m.s[i].ids) && same(data, m.s[i].data), key + ".set_by_name", "%s: set '%s'", d.c_str(), m.s[i].name.c_str());
    }
  }
}

inline std::string
randName(vh::Rng & rng)
{
  static std::vector<std::string> const names = {"A", "B", "AA", "Material_Fuel", "Material_Moderator", "Coarse_Cell_00000", "Coarse_Cell_00010", "Coarse_Cell_00002", "a rather long element set name that does not fit inline", "zeta", "Z", "_x", "Material_1", "Material_10", "Material_2", "RTM_00001_00000"};
  return rng.pick(names);
}
inline std::vector<Int>
randIds(vh::Rng & rng, Int n)
{
  std::vector<Int> ids;
  double const p = rng.pick(std::vector<double>{0.05, 0.3, 0.7, 1.0});
  for (Int i = 0; i < n; ++i) {
    if (rng.chance(p)) {
      ids.push_back(i);
    }
  }
  if (ids.empty() && n > 0) {
    ids.push_back(rng.range(0, n - 1));
  }
  return ids;
}
inline Float
randData(vh::Rng & rng)
{
  switch (rng.range(0, 3)) {
  case 0:
    return static_cast<Float>(rng.range(-3, 3));
  case 1:
    return static_cast<Float>(rng.sign() * rng.logu(1e-12, 1e12));
  default:
    return static_cast<Float>(rng.uni(-10, 10));
  }
}
inline void
addRandVertex(vh::Rng & rng, MSoup & m, bool planar = false)
{
  m.v.push_back({static_cast<Float>(rng.uni(-10, 10)), static_cast<Float>(rng.chance(0.1) ? 0.0 : rng.uni(-10, 10)), planar ? Float(0) : static_cast<Float>(rng.chance(0.6) ? 0.0 : rng.uni(-3, 3))});
}
inline void
addRandElement(vh::Rng & rng, MSoup & m, std::vector<um2::VTKElemType> const & types)
{
  MElem e;
  e.type = rng.pick(types);
  Int const n = nodesOf(e.type);
  for (Int i = 0; i < n; ++i) {
    e.conn.push_back(rng.range(0, (int)m.v.size() - 1));
  }
  m.e.push_back(e);
}
