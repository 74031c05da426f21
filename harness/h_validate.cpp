// C20: validation accepts sound meshes, reorients faces, reports defects and terminates.
#include "meshgen.hpp"
#include "vh.hpp"

#include <um2/common/logger.hpp>

#include <algorithm>
#include <array>
#include <set>

using EdgeKey = std::array<int, 3>;

static EdgeKey
edgeOf(GMesh const & g, size_t i, int j)
{
  auto const & f = g.f[i];
  return {f[(size_t)j], f[(size_t)((j + 1) % g.k)], g.curved ? f[(size_t)(g.k + j)] : -1};
}

// What is wrong with a mesh whose faces are all counter-clockwise ("" if nothing).
static std::string
verdict(GMesh const & g)
{
  std::map<EdgeKey, int> use;
  for (size_t i = 0; i < g.f.size(); ++i) {
    for (int j = 0; j < g.k; ++j) {
      if (++use[edgeOf(g, i, j)] > 1) {
        return "overlap";
      }
    }
  }
  std::map<int, int> next;
  std::set<int> ends;
  for (auto const & [e, n] : use) {
    if (use.count({e[1], e[0], e[2]}) == 0) {
      if (!next.emplace(e[0], e[1]).second || !ends.insert(e[1]).second) {
        return "boundary touches itself";
      }
    }
  }
  if (next.empty()) {
    return "no boundary";
  }
  int const start = next.begin()->first;
  int at = start;
  size_t steps = 0;
  do {
    auto const it = next.find(at);
    if (it == next.end()) {
      return "open boundary";
    }
    at = it->second;
    ++steps;
  } while (at != start);
  return steps == next.size() ? "" : "several boundaries";
}

static void
flip(GMesh const & g, std::vector<int> & f, int r)
{
  // reversed order of corners, starting anywhere
  std::vector<int> q(f.size());
  for (int j = 0; j < g.k; ++j) {
    int const a = ((r - j) % g.k + g.k) % g.k;
    q[(size_t)j] = f[(size_t)a];
    if (g.curved) {
      q[(size_t)(g.k + j)] = f[(size_t)(g.k + (a + g.k - 1) % g.k)];
    }
  }
  f = q;
}

static std::vector<int>
canon(std::vector<int> const & f, int k)
{
  size_t best = 0;
  for (size_t i = 1; i < (size_t)k; ++i) {
    if (f[i] < f[best]) {
      best = i;
    }
  }
  std::vector<int> r;
  for (size_t i = 0; i < (size_t)k; ++i) {
    r.push_back(f[(best + i) % (size_t)k]);
  }
  for (size_t i = (size_t)k; i < f.size(); ++i) {
    r.push_back(f[(size_t)k + (best + i) % (size_t)k]);
  }
  return r;
}

template <Int P, Int N>
static GMesh
back(um2::FaceVertexMesh<P, N> const & m, GMesh const & like)
{
  GMesh g;
  g.k = like.k;
  g.curved = like.curved;
  for (Int i = 0; i < m.numVertices(); ++i) {
    g.v.push_back({(LD)m.getVertex(i)[0], (LD)m.getVertex(i)[1]});
  }
  for (Int i = 0; i < m.numFaces(); ++i) {
    std::vector<int> f;
    for (Int j = 0; j < N; ++j) {
      f.push_back(m.getFaceConn(i)[j]);
    }
    g.f.push_back(f);
  }
  return g;
}

template <Int P, Int N>
static um2::FaceVertexMesh<P, N>
validated(vh::Rng & rng, GMesh const & g)
{
  if (rng.chance(0.3)) {
    um2::PolytopeSoup s;
    addToSoup(s, g);
    return um2::FaceVertexMesh<P, N>(s, true);
  }
  auto m = toFVM<P, N>(g);
  m.validate();
  return m;
}

static void
append(GMesh & g, GMesh const & h, P2 shift)
{
  int const base = (int)g.v.size();
  for (auto const & p : h.v) {
    g.v.push_back({(LD)(Float)(p.x + shift.x), (LD)(Float)(p.y + shift.y)});
  }
  for (auto f : h.f) {
    for (auto & j : f) {
      j += base;
    }
    g.f.push_back(f);
  }
}

static void
topology(vh::Rng & rng)
{
  GOpts o;
  o.k = rng.chance(0.5) ? 3 : 4;
  o.curved = rng.chance(0.5);
  o.nmax = rng.chance(0.8) ? 5 : 14;
  o.maxbulge = 0.1;
  GMesh g = randMesh(rng, o);
  std::string what;
  int const kind = rng.range(0, 7);
  int const times = rng.chance(0.6) ? 1 : rng.range(1, 3);
  for (int t = 0; t < times && !g.f.empty(); ++t) {
    size_t const i = rng.next() % g.f.size();
    switch (kind) {
    case 0:
      break;
    case 1:
    case 2:
      if (g.f.size() > 1) {
        g.f.erase(g.f.begin() + (long)i);
        what += " removed";
      }
      break;
    case 3: // the same face once more, starting anywhere
      g.f.push_back(g.f[i]);
      if (rng.chance(0.5)) {
        std::rotate(g.f.back().begin(), g.f.back().begin() + 1, g.f.back().begin() + g.k);
        if (g.curved) {
          std::rotate(g.f.back().begin() + g.k, g.f.back().begin() + g.k + 1, g.f.back().end());
        }
      }
      what += " duplicated";
      break;
    case 4: { // a face gets its own copy of a corner or mid-edge node
      int const j = rng.range(0, g.n() - 1);
      g.v.push_back(g.v[(size_t)g.f[i][(size_t)j]]);
      g.f[i][(size_t)j] = (int)g.v.size() - 1;
      what += " unshared node";
      break;
    }
    case 5: { // a second piece
      GOpts o2 = o;
      o2.nmax = 2;
      o2.slo = o2.shi = (double)g.size() * 0.1;
      GMesh const h = randMesh(rng, o2);
      append(g, h, {g.size() * 3, 0});
      what += " second piece";
      break;
    }
    case 6: { // a patch of faces around a vertex removed (often an interior hole)
      int const c = g.f[i][0];
      std::vector<std::vector<int>> rest;
      for (auto const & f : g.f) {
        if (std::find(f.begin(), f.end(), c) == f.end()) {
          rest.push_back(f);
        }
      }
      if (!rest.empty()) {
        g.f = rest;
        what += " patch removed";
      }
      break;
    }
    default: // only one face left out of order of a neighbour is swapped for another copy
      if (g.f.size() > 2) {
        g.f[i] = g.f[(i + 1) % g.f.size()];
        what += " replaced";
      }
    }
  }
  GMesh const sound = g; // all faces counter-clockwise
  std::string const bad = verdict(sound);
  int flipped = 0;
  if (rng.chance(0.5)) {
    for (auto & f : g.f) {
      if (rng.chance(0.4)) {
        flip(g, f, rng.range(0, g.k - 1));
        ++flipped;
      }
    }
  }
  std::string const d = vh::fmt("%s %d nodes per face, %zu faces,%s, %d flipped, expected: %s", g.kind.c_str(), g.n(), g.f.size(), what.c_str(), flipped, bad.empty() ? "sound" : bad.c_str());
  dispatch(g, [&]<Int P, Int N>() {
    um2::logger::level = rng.chance(0.5) ? um2::logger::levels::error : um2::logger::levels::warn;
    vh::Capture cap;
    auto const m = validated<P, N>(rng, g);
    cap.stop();
    um2::logger::level = um2::logger::levels::off;
    bool const err = !cap.err.empty();
    if (bad.empty()) {
      VH(!err, "sound.reported", "%s: %s", d.c_str(), cap.err.c_str());
      if (flipped == 0) {
        VH(cap.out.empty(), "sound.warned", "%s: %s", d.c_str(), cap.out.c_str());
      }
    } else {
      VH(err, "defect.missed." + bad, "%s", d.c_str());
    }
    GMesh const r = back(m, g);
    bool same = r.v.size() == g.v.size() && r.f.size() == g.f.size();
    VH(same, "counts", "%s: %zu vertices %zu faces", d.c_str(), r.v.size(), r.f.size());
    if (!same) {
      return;
    }
    for (size_t i = 0; i < g.v.size(); ++i) {
      same = same && r.v[i].x == g.v[i].x && r.v[i].y == g.v[i].y;
    }
    VH(same, "vertex.moved", "%s", d.c_str());
    for (size_t i = 0; i < g.f.size(); ++i) {
      auto const want = canon(sound.f[i], g.k);
      VH(canon(r.f[i], g.k) == want, "orientation", "%s: face %zu", d.c_str(), i);
      if (flipped == 0) {
        VH(r.f[i] == g.f[i], "sound.changed", "%s: face %zu", d.c_str(), i);
      }
    }
  });
  vh::count(bad.empty() ? "sound meshes" : "meshes with " + bad);
  if (flipped > 0) {
    vh::count("meshes with clockwise faces");
  }
  if (!bad.empty() || flipped > 0) {
    vh::nontrivial(vh::hashStr(d));
    vh::sample(d);
  }
}

// Do two edges meet anywhere but at a shared corner?  1 yes, 0 no, -1 too close to tell.
static int
cross2(Edge const & p, Edge const & q, LD size)
{
  int const n = 60;
  std::vector<P2> a, b;
  for (int i = 0; i <= n; ++i) {
    a.push_back(p(i / (LD)n));
    b.push_back(q(i / (LD)n));
  }
  bool const share0 = len(p.b - q.a) == 0;
  bool const share1 = len(p.a - q.b) == 0;
  LD least = 1e300L;
  bool hit = false;
  for (int i = 0; i < n; ++i) {
    for (int j = 0; j < n; ++j) {
      // away from the shared corner
      bool const nearc = (share0 && i > n - 4 && j < 3) || (share1 && j > n - 4 && i < 3);
      LD const s0 = cross(a[(size_t)i + 1] - a[(size_t)i], b[(size_t)j] - a[(size_t)i]);
      LD const s1 = cross(a[(size_t)i + 1] - a[(size_t)i], b[(size_t)j + 1] - a[(size_t)i]);
      LD const t0 = cross(b[(size_t)j + 1] - b[(size_t)j], a[(size_t)i] - b[(size_t)j]);
      LD const t1 = cross(b[(size_t)j + 1] - b[(size_t)j], a[(size_t)i + 1] - b[(size_t)j]);
      bool const x = s0 * s1 < 0 && t0 * t1 < 0;
      if (x) {
        P2 const da = a[(size_t)i + 1] - a[(size_t)i];
        P2 const db = b[(size_t)j + 1] - b[(size_t)j];
        bool const flat = std::fabs(cross(da, db)) < 0.1L * len(da) * len(db);
        bool const close = nearc || (share0 && len(a[(size_t)i + 1] - p.b) < 0.05L * size) || (share1 && len(a[(size_t)i] - p.a) < 0.05L * size);
        bool const end = i < 2 || j < 2 || i > n - 3 || j > n - 3;
        if (flat || close || end) {
          return -1;
        }
        hit = true;
      }
      if (!nearc) {
        least = std::min(least, len(a[(size_t)i] - b[(size_t)j]));
      }
    }
  }
  if (hit) {
    return 1;
  }
  return least < 0.01L * size && !share0 && !share1 ? -1 : 0;
}

static int
selfCross(GMesh const & g, size_t i)
{
  Face const f = g.face(i);
  int r = 0;
  for (size_t a = 0; a < f.e.size(); ++a) {
    for (size_t b = a + 1; b < f.e.size(); ++b) {
      int const c = cross2(f.e[a], f.e[b], f.size());
      if (c != 0) {
        r = c == 1 || r == 1 ? 1 : -1;
      }
    }
    // at a shared corner the tangents must leave clear which edge is which
    P2 const in = f.e[a].d(1);
    P2 const out = f.e[(a + 1) % f.e.size()].d(0);
    if (r == 0 && cross(in, out) < 0.05L * len(in) * len(out)) {
      r = -1;
    }
  }
  return r;
}

static std::array<LD, 4>
curveBox(GMesh const & g)
{
  std::array<LD, 4> b = {1e300L, -1e300L, 1e300L, -1e300L};
  for (size_t i = 0; i < g.f.size(); ++i) {
    Face const fc = g.face(i);
    for (auto const & e : fc.e) {
      for (int t = 0; t <= 200; ++t) {
        P2 const p = e(t / 200.0L);
        b[0] = std::min(b[0], p.x), b[1] = std::max(b[1], p.x);
        b[2] = std::min(b[2], p.y), b[3] = std::max(b[3], p.y);
      }
    }
  }
  return b;
}

// Is there a single crossing, and does it go away clearly when the straighter of the two edges
// follows the bend of the other?
static bool
repairable(GMesh const & g)
{
  int face = -1, ea = -1, eb = -1;
  for (size_t i = 0; i < g.f.size(); ++i) {
    int const c = selfCross(g, i);
    if (c == 0) {
      continue;
    }
    Face const f = g.face(i);
    for (int a = 0; a < g.k; ++a) {
      for (int b = a + 1; b < g.k; ++b) {
        int const x = cross2(f.e[(size_t)a], f.e[(size_t)b], f.size());
        if (x == -1 || (x == 1 && face >= 0)) {
          return false;
        }
        if (x == 1) {
          face = (int)i, ea = a, eb = b;
        }
      }
    }
    if (c == -1 && face != (int)i) {
      return false;
    }
  }
  if (face < 0) {
    return false;
  }
  auto const node = [&](int j) { return g.v[(size_t)g.f[(size_t)face][(size_t)j]]; };
  auto const bend = [&](int e) {
    P2 const a = node(e);
    P2 const d = node((e + 1) % g.k) - a;
    P2 const m = node(g.k + e) - a;
    LD const s = (m.x * d.x + m.y * d.y) / (d.x * d.x + d.y * d.y);
    return m - s * d;
  };
  if (len(bend(ea)) > len(bend(eb))) {
    std::swap(ea, eb);
  }
  if (len(bend(ea)) > 0.9L * len(bend(eb))) {
    return false;
  }
  GMesh r = g;
  size_t const v = (size_t)g.f[(size_t)face][(size_t)(g.k + ea)];
  r.v[v] = r.v[v] + bend(eb);
  for (size_t i = 0; i < r.f.size(); ++i) {
    if (selfCross(r, i) != 0) {
      return false;
    }
  }
  return curveBox(g) == curveBox(r);
}

static void
crossing(vh::Rng & rng)
{
  GOpts o;
  o.k = rng.chance(0.5) ? 3 : 4;
  o.curved = true;
  o.nmax = rng.chance(0.5) ? 1 : 3;
  o.slo = 0.5;
  o.shi = 5;
  GMesh g = randMesh(rng, o);
  int const n = rng.range(1, 3);
  for (int t = 0; t < n; ++t) {
    size_t const i = rng.next() % g.f.size();
    int const j = rng.range(0, g.k - 1);
    P2 const a = g.v[(size_t)g.f[i][(size_t)j]];
    P2 const b = g.v[(size_t)g.f[i][(size_t)((j + 1) % g.k)]];
    P2 const e = b - a;
    LD const s = rng.uni(0.2, 0.7) * rng.sign();
    P2 const q = 0.5L * (a + b) + s * P2{e.y, -e.x} + (LD)rng.uni(-0.2, 0.2) * e;
    g.v[(size_t)g.f[i][(size_t)(g.k + j)]] = {(LD)(Float)q.x, (LD)(Float)q.y};
  }
  int any = 0;
  for (size_t i = 0; i < g.f.size(); ++i) {
    int const c = selfCross(g, i);
    any = c == 1 || any == 1 ? 1 : (c == -1 || any == -1 ? -1 : 0);
  }
  std::string const d = vh::fmt("%s %d nodes per face, %zu faces, strongly bent edges", g.kind.c_str(), g.n(), g.f.size());
  dispatch(g, [&]<Int P, Int N>() {
    um2::logger::level = um2::logger::levels::error;
    std::string out;
    std::string const path = vh::ctx().scratch + "/mesh.bin";
    unlink(path.c_str());
    int const st = vh::isolated(
        [&] {
          auto m = toFVM<P, N>(g);
          m.validate();
          GMesh const r = back(m, g);
          FILE * f = fopen(path.c_str(), "w");
          for (auto const & p : r.v) {
            fprintf(f, "%.17Lg %.17Lg\n", p.x, p.y);
          }
          for (auto const & q : r.f) {
            for (int const j : q) {
              fprintf(f, "%d ", j);
            }
          }
          fclose(f);
          return true;
        },
        &out, 10);
    um2::logger::level = um2::logger::levels::off;
    if (out.find("num_intersections <= 2") != std::string::npos) {
      vh::count("edges with more than two common points (not judged)");
      return;
    }
    VH(st == 0, "crossing.died", "%s: %s", d.c_str(), out.substr(0, 300).c_str());
    if (st != 0) {
      return;
    }
    bool const err = out.find("ERROR") != std::string::npos;
    if (any == 0) {
      VH(!err, "bent.reported", "%s: %s", d.c_str(), out.c_str());
      vh::count("bent meshes without crossings");
    } else if (any == 1) {
      vh::count(err ? "crossings reported" : "crossings repaired");
    }
    if (any != 0 && repairable(g)) {
      VH(!err, "crossing.not_repaired", "%s: %s", d.c_str(), out.c_str());
      vh::count("crossings with a known repair");
    }
    if (err) {
      return;
    }
    GMesh r = g;
    FILE * f = fopen(path.c_str(), "r");
    bool ok = f != nullptr;
    for (auto & p : r.v) {
      ok = ok && fscanf(f, "%Lg %Lg", &p.x, &p.y) == 2;
      p = {(LD)(Float)p.x, (LD)(Float)p.y};
    }
    for (auto & q : r.f) {
      for (int & j : q) {
        ok = ok && fscanf(f, "%d", &j) == 1;
      }
    }
    if (f != nullptr) {
      fclose(f);
    }
    if (!ok) {
      vh::fail("crossing.unread", "%s", d.c_str());
      return;
    }
    for (size_t i = 0; i < r.f.size(); ++i) {
      if (selfCross(r, i) == 1) {
        std::string nodes;
        for (int const j : r.f[i]) {
          nodes += vh::fmt(" (%.17Lg, %.17Lg)", r.v[(size_t)j].x, r.v[(size_t)j].y);
        }
        vh::fail("crossing.left", "%s: face %zu still crosses itself:%s", d.c_str(), i, nodes.c_str());
      }
      VH(r.f[i] == g.f[i], "crossing.conn", "%s: face %zu", d.c_str(), i);
    }
    bool corners = true, moved = false;
    for (size_t i = 0; i < r.f.size(); ++i) {
      for (int j = 0; j < g.n(); ++j) {
        size_t const v = (size_t)g.f[i][(size_t)j];
        bool const same = r.v[v].x == g.v[v].x && r.v[v].y == g.v[v].y;
        corners = corners && (j >= g.k || same);
        moved = moved || !same;
      }
    }
    VH(corners, "crossing.corner", "%s: a corner moved", d.c_str());
    if (any == 0) {
      VH(!moved, "bent.moved", "%s: a mesh without crossings was changed", d.c_str());
    }
    if (any == 1) {
      VH(moved, "crossing.same", "%s: accepted unchanged", d.c_str());
    }
    std::array<LD, 4> const bb[2] = {curveBox(g), curveBox(r)};
    for (int q = 0; q < 4; ++q) {
      VH(std::fabs(bb[0][q] - bb[1][q]) < 1e-4L * g.size(), "crossing.box", "%s: side %d of the box went from %Lg to %Lg", d.c_str(), q, bb[0][q], bb[1][q]);
    }
    if (any == 1) {
      vh::nontrivial(vh::hashStr(d));
    }
  });
}

int
main(int argc, char ** argv)
{
  um2::logger::level = um2::logger::levels::off;
  um2::logger::exit_on_error = false;
  return vh::run(argc, argv, "validate", [](vh::Rng & rng, uint64_t i) {
    if (i % 6 == 5) {
      crossing(rng);
    } else {
      topology(rng);
    }
  });
}
