// C15: editing histories of unstructured meshes with element sets against a plain model.
#include "soupmodel.hpp"

using um2::PolytopeSoup;

static void
oneSidedData()
{
  // Merging a set that has data on one side only: data and members must still correspond.
  MSoup a;
  a.v.push_back({0, 0, 0});
  a.e.push_back({um2::VTKElemType::Vertex, {0}});
  MSoup b = a;
  a.s.push_back({"A", {0}, {1}});
  b.s.push_back({"A", {0}, {}});
  for (int k = 0; k < 2; ++k) {
    PolytopeSoup p;
    PolytopeSoup q;
    build(p, k == 0 ? a : b);
    build(q, k == 0 ? b : a);
    p += q;
    um2::Vector<Int> ids;
    um2::Vector<Float> data;
    p.getElset("A", ids, data);
    VH(data.empty() || data.size() == ids.size(), "merge.one_sided_data", "set with %d members carries %d values", ids.size(), data.size());
  }
}

int
main(int argc, char ** argv)
{
  um2::logger::level = um2::logger::levels::off;
  um2::logger::exit_on_error = false;
  return vh::run(argc, argv, "soup", [](vh::Rng & rng, uint64_t ci) {
    if (ci % 1000 == 0) {
      oneSidedData();
    }
    int const np = 3;
    std::vector<PolytopeSoup> p(np);
    std::vector<MSoup> m(np);
    std::string hist;
    int const steps = rng.range(3, 60);
    bool const mixed = rng.chance(0.6);
    std::vector<um2::VTKElemType> const types = mixed ? allTypes() : std::vector<um2::VTKElemType>{rng.pick(allTypes())};
    int merged = 0;
    int subs = 0;
    for (int st = 0; st < steps; ++st) {
      size_t const k = (size_t)rng.range(0, np - 1);
      PolytopeSoup & s = p[k];
      MSoup & x = m[k];
      std::string op;
      switch (rng.range(0, 13)) {
      case 0:
      case 1: {
        op = "addVertex";
        int const n = rng.range(1, 6);
        for (int i = 0; i < n; ++i) {
          addRandVertex(rng, x);
          auto const & v = x.v.back();
          Int const id = rng.chance(0.5) ? s.addVertex(v[0], v[1], v[2]) : s.addVertex(um2::Point3F(v[0], v[1], v[2]));
          VH(id == (Int)x.v.size() - 1, "add_vertex.id", "%s: %d", hist.c_str(), id);
        }
        break;
      }
      case 2:
      case 3:
      case 4: {
        if (x.v.empty()) {
          break;
        }
        op = "addElement";
        int const n = rng.range(1, 6);
        if (rng.chance(0.2)) {
          s.reserveMoreElements(types[0], n);
          s.reserveMoreVertices(n);
        }
        for (int i = 0; i < n; ++i) {
          addRandElement(rng, x, types);
          Int const id = s.addElement(x.e.back().type, toVec(x.e.back().conn));
          VH(id == (Int)x.e.size() - 1, "add_element.id", "%s: %d", hist.c_str(), id);
        }
        break;
      }
      case 5:
      case 6:
      case 7: {
        if (x.e.empty()) {
          break;
        }
        op = "addElset";
        MSet t;
        t.name = randName(rng);
        t.ids = randIds(rng, (Int)x.e.size());
        // with data or without: decided by the name so that merged sets agree
        bool const wd = vh::hashStr(t.name) % 2 == 0;
        if (wd) {
          for (size_t i = 0; i < t.ids.size(); ++i) {
            t.data.push_back(randData(rng));
          }
        }
        bool bad = x.find(t.name) != nullptr;
        if (rng.chance(0.1)) {
          op += " empty";
          t.ids.clear();
          t.data.clear();
          bad = true;
        } else if (rng.chance(0.1)) {
          op += " mismatch";
          t.data.resize(t.ids.size() + 1, 0);
          bad = true;
        }
        Int const id = s.addElset(um2::String(t.name.c_str()), toVec(t.ids), toVec(t.data));
        if (bad) {
          vh::count("rejected sets");
          VH(id == -1, "add_set.rejected", "%s %s: %d", hist.c_str(), op.c_str(), id);
        } else {
          x.s.push_back(t);
          VH(id == (Int)x.s.size() - 1, "add_set.id", "%s: %d", hist.c_str(), id);
        }
        break;
      }
      case 8: {
        op = "translate";
        std::array<Float, 3> const t = {static_cast<Float>(rng.uni(-5, 5)), static_cast<Float>(rng.uni(-5, 5)), rng.chance(0.5) ? Float(0) : static_cast<Float>(rng.uni(-1, 1))};
        s.translate(um2::Point3F(t[0], t[1], t[2]));
        for (auto & v : x.v) {
          for (size_t i = 0; i < 3; ++i) {
            v[i] += t[i];
          }
        }
        break;
      }
      case 9:
        op = "sortElsets";
        s.sortElsets();
        x.sortSets();
        break;
      case 10:
      case 11: {
        size_t j = (size_t)rng.range(0, np - 1);
        if (x.e.size() + m[j].e.size() > 600) {
          break;
        }
        op = vh::fmt("merge %zu<-%zu (%zu/%zu elements, %zu/%zu sets)", k, j, x.e.size(), m[j].e.size(), x.s.size(), m[j].s.size());
        if (!x.sortedSets()) {
          s.sortElsets();
          x.sortSets();
        }
        if (!m[j].sortedSets()) {
          p[j].sortElsets();
          m[j].sortSets();
        }
        if (j == k) {
          vh::count("merges with itself");
        }
        if (m[j].e.empty()) {
          vh::count("merges of an empty mesh");
        }
        s += p[j];
        MSoup const o = m[j];
        x.append(o);
        ++merged;
        break;
      }
      case 12: {
        if (x.s.empty()) {
          break;
        }
        size_t const j = (size_t)rng.range(0, np - 1);
        MSet const set = rng.pick(x.s);
        op = "subset " + set.name;
        PolytopeSoup sub;
        s.getSubset(um2::String(set.name.c_str()), sub);
        MSoup const want = x.subset(set);
        match(sub, want, "subset", hist + op);
        if (want.s.size() > 1) {
          vh::count("subsets meeting several sets");
        }
        m[j] = want;
        p[j] = sub;
        ++subs;
        break;
      }
      default: {
        // comparison
        op = "compare";
        PolytopeSoup const c(s);
        VH(s.compare(c) == 0 && c.compare(s) == 0, "compare.equal", "%s: %d", hist.c_str(), s.compare(c));
        MSoup y = x;
        // change one thing
        int const w = rng.range(0, 7);
        bool changed = false;
        if (w == 0 && !y.v.empty()) {
          y.v[rng.next() % y.v.size()][rng.next() % 3] += static_cast<Float>(rng.sign() * rng.logu(1e-3, 1));
          changed = true;
        } else if (w == 1) {
          y.v.push_back({0, 0, 0});
          changed = true;
        } else if (w == 2 && !y.e.empty() && y.v.size() > 1) {
          auto & e = y.e[rng.next() % y.e.size()];
          auto & c2 = e.conn[rng.next() % e.conn.size()];
          c2 = (c2 + 1) % (Int)y.v.size();
          changed = true;
        } else if (w == 3 && !y.v.empty()) {
          addRandElement(rng, y, types);
          changed = true;
        } else if (w == 4 && !y.s.empty()) {
          y.s[rng.next() % y.s.size()].name += "x";
          changed = true;
        } else if (w == 5 && !y.s.empty()) {
          auto & t = y.s[rng.next() % y.s.size()];
          if (!t.data.empty()) {
            t.data[rng.next() % t.data.size()] += 1;
            for (auto const & v : t.data) {
              changed = changed || std::fabs(v) < 1e6; // the increment must be visible
            }
            changed = changed && !(y.s == x.s);
          }
        } else if (w == 6 && !y.s.empty()) {
          auto & t = y.s[rng.next() % y.s.size()];
          if (t.ids.size() > 1) {
            t.ids.pop_back();
            if (!t.data.empty()) {
              t.data.pop_back();
            }
            changed = true;
          }
        } else if (w == 7 && !y.e.empty()) {
          auto & e = y.e[rng.next() % y.e.size()];
          // same number of nodes, other type
          if (e.type == um2::VTKElemType::Triangle) {
            e.type = um2::VTKElemType::QuadraticEdge;
            changed = true;
          }
        }
        if (changed) {
          PolytopeSoup q;
          build(q, y);
          VH(s.compare(q) != 0 && q.compare(s) != 0, "compare.different", "%s: change %d not seen", hist.c_str(), w);
          vh::count(vh::fmt("differences of kind %d", w));
        }
      }
      }
      if (!op.empty()) {
        hist += vh::fmt("%zu:%s; ", k, op.c_str());
      }
      if (rng.chance(0.3)) {
        match(s, x, "state", hist);
      }
    }
    for (size_t k = 0; k < (size_t)np; ++k) {
      match(p[k], m[k], "state", hist);
      // asking for what is not there leaves the outputs alone and does not crash
      um2::Vector<Int> ids;
      um2::Vector<Float> data;
      p[k].getElset("no such set", ids, data);
      VH(ids.empty() && data.empty(), "missing_set", "%s", hist.c_str());
      PolytopeSoup none;
      p[k].getSubset("no such set", none);
      VH(none.numElements() == 0 && none.numVertices() == 0, "missing_subset", "%s", hist.c_str());
    }
    vh::count("merges", merged);
    vh::count("subsets", subs);
    if (merged > 0 && subs > 0) {
      vh::nontrivial(vh::hashStr(hist));
      vh::sample(hist);
    }
  });
}
