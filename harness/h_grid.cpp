// C14: regular and rectilinear grids and partitions against cell-by-cell enumeration.
#include "refgeom.hpp"

#include <um2/mesh/rectilinear_grid.hpp>
#include <um2/mesh/rectilinear_partition.hpp>
#include <um2/mesh/regular_grid.hpp>
#include <um2/mesh/regular_partition.hpp>

template <Int D, class G>
static auto
boxAt(G const & g, um2::Vec<D, Int> const & i)
{
  if constexpr (D == 1) {
    return g.getBox(i[0]);
  } else if constexpr (D == 2) {
    return g.getBox(i[0], i[1]);
  } else {
    return g.getBox(i[0], i[1], i[2]);
  }
}
template <Int D, class G>
static auto
flatAt(G const & g, um2::Vec<D, Int> const & i)
{
  if constexpr (D == 1) {
    return g.getFlatIndex(i[0]);
  } else if constexpr (D == 2) {
    return g.getFlatIndex(i[0], i[1]);
  } else {
    return g.getFlatIndex(i[0], i[1], i[2]);
  }
}
template <Int D, class G>
static auto &
childAt(G & g, um2::Vec<D, Int> const & i)
{
  if constexpr (D == 1) {
    return g.getChild(i[0]);
  } else if constexpr (D == 2) {
    return g.getChild(i[0], i[1]);
  } else {
    return g.getChild(i[0], i[1], i[2]);
  }
}

// enumerate all cells, x fastest; returns false when done
template <Int D>
static bool
nextIndex(um2::Vec<D, Int> & i, um2::Vec<D, Int> const & n)
{
  for (Int d = 0; d < D; ++d) {
    if (++i[d] < n[d]) {
      return true;
    }
    i[d] = 0;
  }
  return false;
}

// what holds for every grid: boxes from division lines, flat indices enumerate the cells
template <Int D, class T, class G>
static void
common(G const & g, std::vector<LD> const (&div)[D], LD tol, std::string const & d, std::string const & n)
{
  um2::Vec<D, Int> num;
  Int total = 1;
  for (Int i = 0; i < D; ++i) {
    num[i] = (Int)div[i].size() - 1;
    total *= num[i];
    VH(g.numCells(i) == num[i] && g.numCells()[i] == num[i], n + ".num_cells", "%s dim %d: %d expected %d", d.c_str(), i, g.numCells(i), num[i]);
    VH(std::fabs((LD)g.minima(i) - div[i].front()) <= tol && std::fabs((LD)g.minima()[i] - div[i].front()) <= tol, n + ".minima", "%s dim %d", d.c_str(), i);
    VH(std::fabs((LD)g.maxima(i) - div[i].back()) <= tol && std::fabs((LD)g.maxima()[i] - div[i].back()) <= tol, n + ".maxima", "%s dim %d", d.c_str(), i);
    VH(std::fabs((LD)g.extents(i) - (div[i].back() - div[i].front())) <= 2 * tol && g.extents()[i] == g.extents(i), n + ".extents", "%s dim %d", d.c_str(), i);
    VH(std::fabs((LD)g.boundingBox().minima(i) - div[i].front()) <= tol && std::fabs((LD)g.boundingBox().maxima(i) - div[i].back()) <= tol, n + ".bounding_box", "%s dim %d", d.c_str(), i);
    if (g.numCells(i) != num[i]) {
      return;
    }
  }
  VH(g.totalNumCells() == total, n + ".total", "%s: %d expected %d", d.c_str(), g.totalNumCells(), total);
  um2::Vec<D, Int> idx;
  for (Int i = 0; i < D; ++i) {
    idx[i] = 0;
  }
  Int flat = 0;
  do {
    auto const b = boxAt<D>(g, idx);
    for (Int i = 0; i < D; ++i) {
      LD const lo = div[i][(size_t)idx[i]];
      LD const hi = div[i][(size_t)idx[i] + 1];
      VH(std::fabs(b.minima(i) - lo) <= tol && std::fabs(b.maxima(i) - hi) <= tol, n + ".cell_box", "%s cell %d dim %d: [%.17g %.17g] expected [%.17Lg %.17Lg]", d.c_str(), flat, i, (double)b.minima(i), (double)b.maxima(i), lo, hi);
    }
    VH(g.getFlatIndex(idx) == flat && flatAt<D>(g, idx) == flat, n + ".flat_index", "%s cell %d: %d", d.c_str(), flat, g.getFlatIndex(idx));
    ++flat;
  } while (nextIndex<D>(idx, num));
}

template <Int D, class T>
static void
regular(vh::Rng & rng)
{
  LD const eps = std::numeric_limits<T>::epsilon();
  um2::Point<D, T> lo;
  um2::Vec<D, T> sp;
  um2::Vec<D, Int> num;
  bool const nice = rng.chance(0.3);
  std::vector<LD> div[D];
  LD mag = 0;
  std::string d = vh::fmt("%s %dD", sizeof(T) == 8 ? "f64" : "f32", D);
  bool const single = rng.chance(0.1);
  for (Int i = 0; i < D; ++i) {
    lo[i] = nice ? static_cast<T>(rng.range(-3, 3)) : static_cast<T>(rng.chance(0.3) ? 0.0 : rng.sign() * rng.logu(1e-2, 1e2));
    sp[i] = nice ? static_cast<T>(rng.pick(std::vector<double>{0.5, 1, 2})) : static_cast<T>(rng.logu(1e-2, 10));
    num[i] = single ? 1 : rng.range(1, D == 3 ? 6 : 12);
    for (Int j = 0; j <= num[i]; ++j) {
      div[i].push_back((LD)lo[i] + j * (LD)sp[i]);
    }
    mag = std::max({mag, std::fabs(div[i].front()), std::fabs(div[i].back())});
    d += vh::fmt(" [%.9g + %d x %.9g]", (double)lo[i], num[i], (double)sp[i]);
  }
  LD const tol = 8 * eps * mag;
  um2::RegularGrid<D, T> g(lo, sp, num);
  if (single) {
    um2::Point<D, T> hi;
    for (Int i = 0; i < D; ++i) {
      hi[i] = lo[i] + sp[i];
    }
    g = um2::RegularGrid<D, T>(um2::AxisAlignedBox<D, T>(lo, hi));
    vh::count("regular grids from a box");
  }
  common<D, T>(g, div, tol, d, "regular");
  for (Int i = 0; i < D; ++i) {
    VH(std::fabs((LD)g.spacing(i) - sp[i]) <= tol && g.spacing()[i] == g.spacing(i), "regular.spacing", "%s", d.c_str());
  }
  // centroids
  {
    um2::Vec<D, Int> idx;
    for (Int i = 0; i < D; ++i) {
      idx[i] = rng.range(0, num[i] - 1);
    }
    um2::Point<D, T> c;
    if constexpr (D == 1) {
      c = g.getCellCentroid(idx[0]);
    } else if constexpr (D == 2) {
      c = g.getCellCentroid(idx[0], idx[1]);
    } else {
      c = g.getCellCentroid(idx[0], idx[1], idx[2]);
    }
    for (Int i = 0; i < D; ++i) {
      VH(std::fabs(c[i] - (div[i][(size_t)idx[i]] + div[i][(size_t)idx[i] + 1]) / 2) <= tol, "regular.centroid", "%s dim %d cell %d: %.17g", d.c_str(), i, idx[i], (double)c[i]);
    }
    auto const loc = g.getCellIndexContaining(c);
    for (Int i = 0; i < D; ++i) {
      VH(loc[i] == idx[i], "regular.centroid_location", "%s dim %d: %d expected %d", d.c_str(), i, loc[i], idx[i]);
    }
  }
  auto coord = [&](Int i) -> T {
    LD const ext = div[i].back() - div[i].front();
    switch (rng.range(0, 5)) {
    case 0:
      return static_cast<T>(div[i][rng.next() % div[i].size()]);
    case 1:
      return static_cast<T>(div[i][rng.next() % div[i].size()] + rng.sign() * (double)sp[i] * rng.logu(1e-6, 0.4));
    case 2:
      return static_cast<T>(div[i].front() + rng.sign() * (double)ext * rng.logu(1, 1e12));
    default:
      return static_cast<T>(div[i].front() + rng.uni(-0.4, 1.4) * (double)ext);
    }
  };
  for (int q = 0; q < 8; ++q) {
    um2::Point<D, T> p;
    for (Int i = 0; i < D; ++i) {
      p[i] = coord(i);
    }
    auto const loc = g.getCellIndexContaining(p);
    bool sure = true;
    bool outside = false;
    um2::Vec<D, Int> want;
    for (Int i = 0; i < D; ++i) {
      want[i] = -1;
      for (size_t j = 0; j < div[i].size(); ++j) {
        if (std::fabs(p[i] - div[i][j]) <= tol + 16 * eps * std::fabs((LD)p[i])) {
          sure = false;
        }
        if (j + 1 < div[i].size() && p[i] > div[i][j] && p[i] < div[i][j + 1]) {
          want[i] = (Int)j;
        }
      }
      outside = outside || want[i] < 0;
    }
    if (!sure) {
      vh::count("points on a division");
      for (Int i = 0; i < D; ++i) {
        VH(loc[i] >= -1 && loc[i] < num[i], "regular.location_range", "%s", d.c_str());
      }
      continue;
    }
    vh::count(outside ? "points outside" : "points inside");
    for (Int i = 0; i < D; ++i) {
      VH(loc[i] == want[i] || (outside && loc[i] == -1), "regular.location", "%s dim %d x=%.17g: cell %d expected %d", d.c_str(), i, (double)p[i], loc[i], want[i]);
    }
  }
  for (int q = 0; q < 6; ++q) {
    um2::Point<D, T> a;
    um2::Point<D, T> b;
    for (Int i = 0; i < D; ++i) {
      a[i] = coord(i);
      b[i] = coord(i);
      if (b[i] < a[i]) {
        std::swap(a[i], b[i]);
      }
    }
    um2::AxisAlignedBox<D, T> const box(a, b);
    auto const r = g.getCellIndicesIntersecting(box);
    for (Int i = 0; i < D; ++i) {
      LD const t = tol + 16 * eps * std::max(std::fabs((LD)a[i]), std::fabs((LD)b[i]));
      LD const ta = tol + 16 * eps * std::fabs((LD)a[i]);
      LD const tb = tol + 16 * eps * std::fabs((LD)b[i]);
      (void)t;
      Int const r0 = r[i];
      Int const r1 = r[i + D];
      VH((r0 == -1 && r1 == -1) || (0 <= r0 && r0 <= r1 && r1 < num[i]), "regular.range", "%s dim %d [%.9g %.9g]: %d..%d", d.c_str(), i, (double)a[i], (double)b[i], r0, r1);
      bool any = false;
      for (Int j = 0; j < num[i]; ++j) {
        LD const c0 = div[i][(size_t)j];
        LD const c1 = div[i][(size_t)j + 1];
        bool const in = r0 <= j && j <= r1;
        // must: the overlap is clearly positive; must not: clearly separated
        bool const must = (LD)a[i] < c1 - ta && (LD)b[i] > c0 + tb;
        bool const mustnot = (LD)a[i] > c1 + ta || (LD)b[i] < c0 - tb;
        any = any || must;
        VH(!must || in, "regular.cell_missed", "%s dim %d [%.9g %.9g]: %d..%d misses %d", d.c_str(), i, (double)a[i], (double)b[i], r0, r1, j);
        VH(!mustnot || !in, "regular.cell_extra", "%s dim %d [%.9g %.9g]: %d..%d includes %d", d.c_str(), i, (double)a[i], (double)b[i], r0, r1, j);
      }
      vh::count(any ? "ranges overlapping" : "ranges missing");
    }
  }
  // partition
  if constexpr (std::is_same_v<T, Float>) {
    um2::Vector<Int> ch;
    Int const total = g.totalNumCells();
    for (Int i = 0; i < total; ++i) {
      ch.push_back(static_cast<Int>(rng.range(-1000, 1000)));
    }
    um2::RegularPartition<D, Int> part(g, ch);
    um2::RegularPartition<D, Int> const & cpart = part;
    um2::Vec<D, Int> idx;
    for (Int i = 0; i < D; ++i) {
      idx[i] = 0;
    }
    Int f = 0;
    do {
      VH(childAt<D>(part, idx) == ch[f] && childAt<D>(cpart, idx) == ch[f], "regular.child", "%s cell %d", d.c_str(), f);
      ++f;
    } while (nextIndex<D>(idx, num));
    Int const k = rng.range(0, total - 1);
    for (Int i = 0; i < D; ++i) {
      idx[i] = 0;
    }
    for (Int i = 0; i < k; ++i) {
      nextIndex<D>(idx, num);
    }
    childAt<D>(part, idx) = 4321;
    for (Int i = 0; i < total; ++i) {
      VH(part.children()[i] == (i == k ? 4321 : ch[i]), "regular.child_write", "%s cell %d", d.c_str(), i);
    }
    VH(part.grid().totalNumCells() == total, "regular.partition_grid", "%s", d.c_str());
  }
  vh::nontrivial(vh::hashStr(d));
  vh::sample("regular " + d);
}

template <Int D, class T>
static void
rectilinear(vh::Rng & rng)
{
  LD const eps = std::numeric_limits<T>::epsilon();
  std::vector<LD> div[D];
  um2::Vec<D, Int> num;
  std::string d = vh::fmt("%s %dD", sizeof(T) == 8 ? "f64" : "f32", D);
  LD mag = 0;
  LD const unit = sizeof(T) == 8 ? 1e-3L : 1e-1L;
  for (Int i = 0; i < D; ++i) {
    num[i] = rng.range(1, D == 3 ? 4 : 8);
    LD x = rng.chance(0.3) ? 0 : (LD) static_cast<T>(rng.uni(-5, 5));
    div[i].push_back(x);
    for (Int j = 0; j < num[i]; ++j) {
      x = (LD) static_cast<T>(x + unit * rng.logu(1, 3000));
      div[i].push_back(x);
    }
    mag = std::max({mag, std::fabs(div[i].front()), std::fabs(div[i].back())});
    d += vh::fmt(" [%d cells %.9Lg..%.9Lg]", num[i], div[i].front(), div[i].back());
  }
  // from boxes, in random order, with noise far below the merging tolerance
  LD const noise = rng.chance(0.5) ? 0 : 0.1L * um2::epsDistance<T>();
  um2::Vector<um2::AxisAlignedBox<D, T>> boxes;
  um2::Vec<D, Int> idx;
  for (Int i = 0; i < D; ++i) {
    idx[i] = 0;
  }
  do {
    um2::Point<D, T> a;
    um2::Point<D, T> b;
    for (Int i = 0; i < D; ++i) {
      a[i] = static_cast<T>(div[i][(size_t)idx[i]] + noise * rng.uni(-1, 1));
      b[i] = static_cast<T>(div[i][(size_t)idx[i] + 1] + noise * rng.uni(-1, 1));
    }
    boxes.emplace_back(a, b);
  } while (nextIndex<D>(idx, num));
  rng.shuffle(boxes);
  LD const tol = 2 * noise + 8 * eps * mag;
  um2::RectilinearGrid<D, T> g(boxes);
  common<D, T>(g, div, tol, d, "rectilinear");
  for (Int i = 0; i < D; ++i) {
    VH(g.divs(i).size() == (Int)div[i].size(), "rectilinear.divs", "%s", d.c_str());
  }
  {
    um2::Point<D, T> a;
    um2::Point<D, T> b;
    std::vector<LD> one[D];
    for (Int i = 0; i < D; ++i) {
      a[i] = static_cast<T>(div[i].front());
      b[i] = static_cast<T>(div[i].back());
      one[i] = {(LD)a[i], (LD)b[i]};
    }
    um2::RectilinearGrid<D, T> const g1{um2::AxisAlignedBox<D, T>(a, b)};
    common<D, T>(g1, one, 4 * eps * mag, d, "one_box");
  }
  if constexpr (std::is_same_v<T, Float>) {
    um2::Vector<Int> ch;
    for (Int i = 0; i < g.totalNumCells(); ++i) {
      ch.push_back(rng.range(-1000, 1000));
    }
    um2::RectilinearPartition<D, Int> part(g, ch);
    um2::RectilinearPartition<D, Int> const & cpart = part;
    Int f = 0;
    for (Int i = 0; i < D; ++i) {
      idx[i] = 0;
    }
    do {
      VH(childAt<D>(part, idx) == ch[f] && childAt<D>(cpart, idx) == ch[f], "rectilinear.child", "%s cell %d", d.c_str(), f);
      ++f;
    } while (nextIndex<D>(idx, num));
    part.clear();
    VH(part.children().empty(), "rectilinear.clear", "%s", d.c_str());
  }
  g.clear();
  vh::count("rectilinear grids from boxes");
  vh::nontrivial(vh::hashStr(d));
  vh::sample("rectilinear " + d);
}

// picture of ids, first row on top
static void
picture(vh::Rng & rng)
{
  Int const nx = rng.range(1, 8);
  Int const ny = rng.range(1, 8);
  // a few column widths and row heights; cell types are (width, height) combinations
  std::vector<Float> ws;
  std::vector<Float> hs;
  for (int i = 0; i < 3; ++i) {
    ws.push_back(static_cast<Float>(rng.uni(0.1, 3)));
    hs.push_back(static_cast<Float>(rng.uni(0.1, 3)));
  }
  um2::Vector<um2::Vec2F> dxdy;
  std::vector<int> order;
  for (int i = 0; i < 18; ++i) { // each combination twice
    order.push_back(i % 9);
  }
  rng.shuffle(order);
  for (int const c : order) {
    dxdy.emplace_back(ws[(size_t)(c % 3)], hs[(size_t)(c / 3)]);
  }
  std::vector<int> cw((size_t)nx);
  std::vector<int> rh((size_t)ny);
  for (auto & c : cw) {
    c = rng.range(0, 2);
  }
  for (auto & c : rh) {
    c = rng.range(0, 2);
  }
  um2::Vector<um2::Vector<Int>> ids(ny);
  for (Int r = 0; r < ny; ++r) { // r: from the top
    for (Int c = 0; c < nx; ++c) {
      std::vector<Int> cand;
      for (Int i = 0; i < 18; ++i) {
        if (order[(size_t)i] == cw[(size_t)c] + 3 * rh[(size_t)r]) {
          cand.push_back(i);
        }
      }
      ids[r].push_back(cand[rng.next() % 2]);
    }
  }
  std::vector<LD> div[2];
  div[0].push_back(0);
  for (Int c = 0; c < nx; ++c) {
    div[0].push_back(div[0].back() + (LD)ws[(size_t)cw[(size_t)c]]);
  }
  div[1].push_back(0);
  for (Int r = ny - 1; r >= 0; --r) {
    div[1].push_back(div[1].back() + (LD)hs[(size_t)rh[(size_t)r]]);
  }
  std::string const d = vh::fmt("picture %dx%d", nx, ny);
  um2::RectilinearGrid2F const g(dxdy, ids);
  LD const tol = 16 * std::numeric_limits<Float>::epsilon() * (div[0].back() + div[1].back());
  common<2, Float>(g, div, tol, d, "picture");
  um2::RectilinearPartition2<Int> const part(dxdy, ids);
  common<2, Float>(part.grid(), div, tol, d, "picture_partition");
  for (Int j = 0; j < ny; ++j) {
    for (Int i = 0; i < nx; ++i) {
      VH(part.getChild(i, j) == ids[ny - 1 - j][i], "picture.child", "%s (%d,%d): %d expected %d", d.c_str(), i, j, part.getChild(i, j), ids[ny - 1 - j][i]);
      auto const b = part.grid().getBox(i, j);
      auto const & e = dxdy[part.getChild(i, j)];
      VH(std::fabs(b.extents(0) - e[0]) <= 2 * tol && std::fabs(b.extents(1) - e[1]) <= 2 * tol, "picture.size", "%s (%d,%d)", d.c_str(), i, j);
    }
  }
  vh::count("id pictures");
  if (nx > 1 && ny > 1) {
    vh::nontrivial(vh::mix(rng.s));
    vh::sample(d);
  }
}

int
main(int argc, char ** argv)
{
  return vh::run(argc, argv, "grid", [](vh::Rng & rng, uint64_t) {
    switch (rng.range(0, 12)) {
    case 0:
      return regular<1, double>(rng);
    case 1:
    case 2:
      return regular<2, double>(rng);
    case 3:
      return regular<3, double>(rng);
    case 4:
      return regular<2, float>(rng);
    case 5:
      return regular<3, float>(rng);
    case 6:
      return rectilinear<1, double>(rng);
    case 7:
      return rectilinear<2, double>(rng);
    case 8:
      return rectilinear<3, double>(rng);
    case 9:
      return rectilinear<2, float>(rng);
    default:
      return picture(rng);
    }
  });
}
