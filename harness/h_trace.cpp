// C19: rays through whole meshes; crossings per face, mesh-wide, and sorted into a chain.
#include "meshgen.hpp"
#include "refray.hpp"

#include <um2/common/logger.hpp>

#include <memory>

// Orders of faces with (almost) coinciding crossings: hand-made crossings, known order.
static void
sortOnly(vh::Rng & rng)
{
  // A chain of segments as a ray would leave them behind; crossings of a face in any order.
  int const n = rng.range(1, 12);
  std::vector<std::vector<Float>> want;
  LD r = rng.chance(0.5) ? 0 : rng.uni(0, 5);
  bool noisy = rng.chance(0.5);
  for (int i = 0; i < n; ++i) {
    LD const w = rng.chance(0.2) ? rng.logu(1e-9, 1e-3) : rng.uni(0.01, 2);
    // a face's entry may be computed slightly before the exit of the face before it,
    // by less than half of the shorter of the two pieces
    LD const slip = noisy ? rng.uni(-0.4, 0.4) * std::min<LD>(w, 1e-9L) : 0;
    std::vector<Float> c{static_cast<Float>(r + slip), static_cast<Float>(r + w)};
    want.push_back(c);
    r += w;
  }
  // sometimes one face is entered twice, around a run of others
  if (n > 2 && rng.chance(0.4)) {
    size_t const a = (size_t)rng.range(0, n - 2);
    want[a].push_back(static_cast<Float>(r));
    want[a].push_back(static_cast<Float>(r + 1));
  }
  bool const odd = want[0].size() == 2 && rng.chance(0.2);
  if (odd) {
    want[0].erase(want[0].begin()); // the ray starts inside the first face
  }
  std::vector<size_t> order((size_t)n);
  for (size_t i = 0; i < order.size(); ++i) {
    order[i] = i;
  }
  rng.shuffle(order);
  std::vector<Float> coords;
  std::vector<Int> offs{0};
  std::vector<Int> faces;
  std::vector<size_t> id_of;
  for (size_t const i : order) {
    std::vector<Float> c = want[i];
    rng.shuffle(c);
    coords.insert(coords.end(), c.begin(), c.end());
    offs.push_back((Int)coords.size());
    faces.push_back((Int)(100 + i));
  }
  std::unique_ptr<Float[]> sc(new Float[coords.size()]);
  std::unique_ptr<Int[]> so(new Int[offs.size()]);
  std::unique_ptr<Int[]> sf(new Int[faces.size()]);
  std::unique_ptr<Int[]> perm(new Int[faces.size()]);
  um2::sortRayMeshIntersections(coords.data(), offs.data(), faces.data(), sc.get(), so.get(), sf.get(), perm.get(), um2::Vec2I((Int)coords.size(), (Int)faces.size()));
  std::string const d = vh::fmt("%d faces%s%s", n, noisy ? " with rounding" : "", odd ? ", starting inside" : "");
  VH(so[0] == 0, "sort.offsets", "%s", d.c_str());
  for (size_t i = 0; i < (size_t)n; ++i) {
    VH(sf[i] == (Int)(100 + i), "sort.order", "%s: position %zu holds face %d of the chain", d.c_str(), i, sf[i] - 100);
    if (sf[i] != (Int)(100 + i)) {
      return;
    }
    VH(so[i + 1] - so[i] == (Int)want[i].size(), "sort.offsets", "%s: position %zu", d.c_str(), i);
    if (so[i + 1] - so[i] != (Int)want[i].size()) {
      return;
    }
    std::vector<Float> w = want[i];
    std::sort(w.begin(), w.end());
    VH(std::equal(w.begin(), w.end(), sc.get() + so[i]), "sort.coords", "%s: position %zu", d.c_str(), i);
    VH(order[(size_t)perm[i]] == i, "sort.permutation", "%s: position %zu", d.c_str(), i);
  }
  vh::count("chains sorted");
}

template <Int P, Int N>
static void
trace(vh::Rng & rng, GMesh const & g)
{
  LD const eps = std::numeric_limits<Float>::epsilon();
  auto const m = toFVM<P, N>(g);
  std::vector<Face> faces;
  P2 lo{1e300L, 1e300L}, hi{-1e300L, -1e300L};
  for (auto const & p : g.v) {
    lo = {std::min(lo.x, p.x), std::min(lo.y, p.y)};
    hi = {std::max(hi.x, p.x), std::max(hi.y, p.y)};
  }
  for (size_t i = 0; i < g.f.size(); ++i) {
    faces.push_back(g.face(i));
  }
  LD const size = g.size();
  LD const mag = g.mag();
  int const rays = 6;
  for (int q = 0; q < rays; ++q) {
    um2::Ray2F ray = randRay<Float>(rng, 0.5L * (lo + hi), size);
    if (rng.chance(0.15)) {
      // along an interior edge, slightly off
      auto const & f = faces[(size_t)rng.range(0, (int)faces.size() - 1)];
      auto const & e = f.e[(size_t)rng.range(0, g.k - 1)];
      P2 dir = (1 / len(e.b - e.a)) * (e.b - e.a);
      dir = rot(dir, rng.uni(-1, 1) * rng.logu(1e-5, 1e-1));
      P2 const t = e(rng.uni(0.2, 0.8)) + (size * rng.uni(-1e-2, 1e-2)) * P2{-dir.y, dir.x};
      ray = um2::Ray2F(pt<Float>(t - (3 * size) * dir), pt<Float>(dir));
      vh::count("rays nearly along an edge");
    }
    P2 const o = ref(ray.origin());
    P2 const dir = ref(ray.direction());
    LD const slack = 512 * eps * (mag + size + len(o));
    std::string const d = g.kind + vh::fmt(" <%d,%d> %zu faces, size %.3Lg mag %.3Lg, ", P, N, g.f.size(), size, mag) + rayStr(ray);

    // library
    size_t const cap = faces.size() * (size_t)(2 * N);
    std::unique_ptr<Float[]> c0(new Float[cap]);
    std::unique_ptr<Float[]> c1(new Float[cap]);
    std::unique_ptr<Int[]> offs(new Int[faces.size() + 1]);
    std::unique_ptr<Int[]> ids(new Int[faces.size()]);
    Int const n0 = m.intersect(ray, c0.get());
    auto const hf = m.intersect(ray, c1.get(), offs.get(), ids.get());
    // the three ways of asking agree, whatever the ray
    VH(hf[0] == n0, "agree.count", "%s: %d and %d", d.c_str(), n0, hf[0]);
    if (hf[0] != n0 || n0 > (Int)cap) {
      return;
    }
    VH(std::equal(c0.get(), c0.get() + n0, c1.get()), "agree.coords", "%s", d.c_str());
    VH(offs[0] == 0 && offs[hf[1]] == hf[0], "offsets", "%s: %d of %d", d.c_str(), offs[hf[1]], hf[0]);
    Int k = 0;
    for (Int i = 0; i < m.numFaces(); ++i) {
      Float buf[2 * N];
      Int const n = m.getFace(i).intersect(ray, buf);
      if (n == 0) {
        VH(k >= hf[1] || ids[k] != i, "agree.faces", "%s: face %d listed without crossings", d.c_str(), i);
        continue;
      }
      VH(k < hf[1] && ids[k] == i && offs[k + 1] - offs[k] == n && std::equal(buf, buf + n, c1.get() + offs[k]), "agree.faces", "%s: face %d", d.c_str(), i);
      ++k;
    }
    VH(k == hf[1], "agree.faces", "%s: %d faces listed, %d crossed", d.c_str(), hf[1], k);
    if (k != hf[1]) {
      return;
    }

    // reference
    bool unsure = false;
    std::vector<std::vector<LD>> want(faces.size());
    std::vector<LD> tols(faces.size(), slack);
    for (size_t i = 0; i < faces.size(); ++i) {
      for (auto const & e : faces[i].e) {
        auto const w = crossings(e, o, dir, slack, unsure);
        for (auto const & h : w) {
          want[i].push_back(h.r);
          LD const slope = std::fabs(cross(e.d(h.s), dir));
          tols[i] = std::max(tols[i], 4 * slack * (1 + e.speed(h.s) / slope));
        }
      }
      std::sort(want[i].begin(), want[i].end());
    }
    if (unsure) {
      vh::count("undecided rays");
      continue;
    }
    // sort and walk the chain
    std::unique_ptr<Float[]> sc(new Float[(size_t)n0 + 1]);
    std::unique_ptr<Int[]> so(new Int[(size_t)hf[1] + 1]);
    std::unique_ptr<Int[]> sf(new Int[(size_t)hf[1] + 1]);
    std::unique_ptr<Int[]> perm(new Int[(size_t)hf[1] + 1]);
    um2::sortRayMeshIntersections(c1.get(), offs.get(), ids.get(), sc.get(), so.get(), sf.get(), perm.get(), hf);
    struct Seg {
      LD a, b, tol;
      Int f;
    };
    std::vector<Seg> segs;
    std::vector<bool> seen(faces.size(), false);
    bool ok = so[0] == 0 && so[hf[1]] == hf[0];
    VH(ok, "sorted.offsets", "%s", d.c_str());
    LD maxtol = 0;
    LD lastkey = -1;
    for (Int i = 0; i < hf[1] && ok; ++i) {
      Int const f = sf[i];
      ok = f >= 0 && f < m.numFaces() && !seen[(size_t)f];
      VH(ok, "sorted.faces", "%s: position %d face %d", d.c_str(), i, f);
      if (!ok) {
        break;
      }
      seen[(size_t)f] = true;
      auto const & w = want[(size_t)f];
      Int const n = so[i + 1] - so[i];
      ok = n == (Int)w.size();
      VH(ok, "crossings", "%s: face %d has %d crossings, expected %zu", d.c_str(), f, n, w.size());
      LD const tol = tols[(size_t)f];
      maxtol = std::max(maxtol, tol);
      for (Int j = 0; j < n && ok; ++j) {
        LD const r = sc[so[i] + j];
        VH(std::fabs(r - w[(size_t)j]) <= tol, "distance", "%s: face %d crossing %d at %.9Lg expected %.9Lg", d.c_str(), f, j, r, w[(size_t)j]);
        VH(j == 0 || r >= (LD)sc[so[i] + j - 1], "sorted.coords", "%s: face %d", d.c_str(), f);
      }
      if (!ok) {
        break;
      }
      // segments of this face; a face that holds the ray's origin has an odd number of crossings
      std::vector<LD> c;
      if (n % 2 == 1) {
        c.push_back(0);
      }
      for (Int j = 0; j < n; ++j) {
        c.push_back(sc[so[i] + j]);
      }
      for (size_t j = 0; j + 1 < c.size(); j += 2) {
        segs.push_back({c[j], c[j + 1], tol, f});
      }
      // faces come in the order in which the ray visits them first
      LD const first = 0.5L * (c[0] + c[1]);
      // (not promised for a face that holds the origin and is entered again)
      bool const again = n % 2 == 1 && n > 1;
      VH(again || first >= lastkey - 4 * maxtol, "sorted.order", "%s: face %d at position %d", d.c_str(), f, i);
      lastkey = again ? lastkey : std::max(lastkey, first);
    }
    if (!ok) {
      continue;
    }
    for (size_t i = 0; i < faces.size(); ++i) {
      VH(want[i].empty() || seen[i], "missed", "%s: face %zu is crossed %zu times but not reported", d.c_str(), i, want[i].size());
    }
    std::sort(segs.begin(), segs.end(), [](Seg const & x, Seg const & y) { return x.a + x.b < y.a + y.b; });
    // the part of the ray inside the mesh, from the boundary alone
    std::vector<LD> cuts;
    auto const bnd = g.boundary();
    for (auto const & e : bnd) {
      for (auto const & h : crossings(e, o, dir, slack, unsure)) {
        cuts.push_back(h.r);
      }
    }
    std::sort(cuts.begin(), cuts.end());
    if (cuts.size() % 2 == 1) {
      cuts.insert(cuts.begin(), 0);
      vh::count("rays starting inside");
    }
    LD inside = 0;
    for (size_t i = 0; i + 1 < cuts.size(); i += 2) {
      inside += cuts[i + 1] - cuts[i];
    }
    LD total = 0;
    size_t gaps = 0;
    for (size_t i = 0; i < segs.size(); ++i) {
      auto const & s = segs[i];
      total += s.b - s.a;
      if (i > 0) {
        LD const gap = s.a - segs[i - 1].b;
        LD const tol = 4 * std::max(s.tol, segs[i - 1].tol);
        VH(gap >= -tol, "chain.overlap", "%s: face %d starts %.3Lg before the end of face %d", d.c_str(), s.f, -gap, segs[i - 1].f);
        gaps += gap > tol ? 1 : 0;
      }
      if (s.b - s.a > 8 * s.tol) {
        P2 const mid = o + (0.5L * (s.a + s.b)) * dir;
        if (faces[(size_t)s.f].dist(mid) > std::max(slack, 1e-5L * size)) {
          VH(faces[(size_t)s.f].winding(mid) != 0, "chain.attribution", "%s: the middle of segment %zu is not in face %d", d.c_str(), i, s.f);
          vh::count("segments located");
        }
      }
    }
    VH(gaps + 1 <= std::max<size_t>(1, cuts.size() / 2), "chain.gap", "%s: %zu gaps for %zu pieces", d.c_str(), gaps, cuts.size() / 2);
    VH(std::fabs(total - inside) <= 4 * maxtol * (LD)(segs.size() + 1), "chain.length", "%s: segments add up to %.12Lg, inside part is %.12Lg", d.c_str(), total, inside);
    vh::count(segs.empty() ? "rays missing the mesh" : "rays traced");
    if (segs.size() > 2) {
      vh::nontrivial(vh::hashStr(d));
      vh::sample(d);
    }
    for (auto const & w : want) {
      if (w.size() > 2) {
        vh::count("faces crossed more than twice");
      }
    }
  }
  vh::count(vh::fmt("meshes of %d-node faces", g.n()));
}

int
main(int argc, char ** argv)
{
  um2::logger::level = um2::logger::levels::off;
  um2::logger::exit_on_error = false;
  return vh::run(argc, argv, "trace", [](vh::Rng & rng, uint64_t) {
    sortOnly(rng);
    GOpts o;
    o.k = rng.chance(0.5) ? 3 : 4;
    o.curved = rng.chance(0.5);
    o.nmax = rng.chance(0.1) ? 10 : 4;
    o.offset = rng.pick(std::vector<double>{0, 2, 20, 1000});
    GMesh const g = randMesh(rng, o);
    dispatch(g, [&]<Int P, Int N>() { trace<P, N>(rng, g); });
  });
}
