// C13: modular rays: on the boundary, one direction, equally spaced, cyclic, area covering.
#include "refgeom.hpp"

#include <um2/geometry/modular_rays.hpp>

template <class T>
static void
check(vh::Rng & rng)
{
  LD const eps = std::numeric_limits<T>::epsilon();
  T const w = static_cast<T>(rng.logu(0.1, 50));
  T const h = rng.chance(0.25) ? w : static_cast<T>(rng.logu(0.1, 50));
  T x0 = 0;
  T y0 = 0;
  if (rng.chance(0.7)) {
    x0 = static_cast<T>(rng.sign() * rng.logu(0.01, 100));
    y0 = static_cast<T>(rng.sign() * rng.logu(0.01, 100));
  }
  um2::Point2<T> const lo(x0, y0);
  um2::Point2<T> const hi(x0 + w, y0 + h);
  um2::AxisAlignedBox2<T> const box(lo, hi);
  LD const pi = 3.14159265358979323846L;
  T a;
  switch (rng.range(0, 4)) {
  case 0: // typical quadrature angle
    a = static_cast<T>((2 * rng.range(0, 15) + 1) * pi / 32);
    break;
  case 1: // close to an axis
    a = static_cast<T>(pi / 2 * rng.range(0, 2) + rng.sign() * rng.logu(1e-5, 1e-1));
    break;
  default:
    a = static_cast<T>(rng.uni(0.01, 3.13));
  }
  if (!(a > T(1e-5) && a < T(pi - 1e-5)) || std::fabs(a - pi / 2) < 1e-6L) {
    return;
  }
  LD const W = (LD)hi[0] - lo[0];
  LD const H = (LD)hi[1] - lo[1];
  // spacing from coarser than the box to fine, at most a few thousand rays
  T const s = static_cast<T>(rng.logu((double)std::min(W, H) / 300, 3 * (double)std::max(W, H)));
  LD const X = W * std::sin((LD)a) / s;
  LD const Y = H * std::fabs(std::cos((LD)a)) / s;
  if (X + Y > 4000) {
    return;
  }
  um2::ModularRayParams<T> const m(a, s, box);
  std::string const d = vh::fmt("%s angle %.9g spacing %.9g box (%.9g %.9g)-(%.9g %.9g)", sizeof(T) == 8 ? "f64" : "f32", (double)a, (double)s, (double)lo[0], (double)lo[1], (double)hi[0], (double)hi[1]);
  Int const nx = m.getNumXRays();
  Int const ny = m.getNumYRays();
  LD const fuzz = 64 * eps * (1 + X + Y) + 16 * eps * (std::fabs((LD)box.maxima(0)) + std::fabs((LD)box.maxima(1)) + W + H) / s;
  VH(nx >= 1 && ny >= 1 && m.getTotalNumRays() == nx + ny, "counts", "%s: %d %d %d", d.c_str(), nx, ny, m.getTotalNumRays());
  VH(nx >= X - fuzz && nx < X + 1 + fuzz && ny >= Y - fuzz && ny < Y + 1 + fuzz, "count_size", "%s: %d (%.6Lg) %d (%.6Lg)", d.c_str(), nx, X, ny, Y);
  P2 const dir = {(LD)m.getDirection()[0], (LD)m.getDirection()[1]};
  VH(std::fabs(len(dir) - 1) < 16 * eps, "unit_direction", "%s: |d|=%.17Lg", d.c_str(), len(dir));
  VH(dir.y > 0 && (dir.x > 0) == (a < pi / 2), "quadrant", "%s: (%Lg %Lg)", d.c_str(), dir.x, dir.y);
  // requested angle up to the rounding up of the ray counts
  LD const ratio = std::fabs(dir.y / dir.x) / std::fabs(std::tan((LD)a));
  VH(ratio >= 1 / (1 + 1 / Y) * (1 - 256 * eps - fuzz) && ratio <= (1 + 1 / X) * (1 + 256 * eps + fuzz), "angle", "%s: slope ratio %.9Lg X %.6Lg Y %.6Lg", d.c_str(), ratio, X, Y);
  LD const dx = m.getSpacing()[0];
  LD const dy = m.getSpacing()[1];
  LD const tol = 64 * eps * (std::fabs((LD)lo[0]) + std::fabs((LD)lo[1]) + W + H);
  VH(std::fabs(dx * nx - W) <= tol && std::fabs(dy * ny - H) <= tol, "spacing_fills_box", "%s: %.9Lg %.9Lg", d.c_str(), dx * nx, dy * ny);
  LD const perp = dx * dy / std::sqrt(dx * dx + dy * dy);
  VH(perp <= s * (1 + 64 * eps) + tol * perp / W, "spacing_too_wide", "%s: %.9Lg", d.c_str(), perp);

  Int const n = m.getTotalNumRays();
  std::vector<LD> inB, inS, outT, outS; // entry/exit coordinates on bottom/side, top/side
  std::vector<LD> offs;
  LD cover = 0;
  LD const slope = std::max(std::fabs(dir.x / dir.y), std::fabs(dir.y / dir.x));
  LD const ptol = tol * (1 + slope) * 4;
  for (Int i = 0; i < n; ++i) {
    auto const r = m.getRay(i);
    VH(r.direction()[0] == m.getDirection()[0] && r.direction()[1] == m.getDirection()[1], "one_direction", "%s ray %d", d.c_str(), i);
    P2 const o = ref(r.origin());
    bool const bottom = std::fabs(o.y - lo[1]) <= tol && o.x > lo[0] && o.x < hi[0];
    LD const entrySide = dir.x > 0 ? lo[0] : hi[0];
    bool const side = std::fabs(o.x - entrySide) <= tol && o.y > lo[1] && o.y < hi[1];
    VH(bottom || side, "origin_on_boundary", "%s ray %d origin (%.17Lg %.17Lg)", d.c_str(), i, o.x, o.y);
    if (bottom) {
      inB.push_back(o.x);
    } else {
      inS.push_back(o.y);
    }
    // exit
    LD const tx = ((dir.x > 0 ? (LD)hi[0] : (LD)lo[0]) - o.x) / dir.x;
    LD const ty = ((LD)hi[1] - o.y) / dir.y;
    LD const t = std::min(tx, ty);
    VH(t > 0, "points_inward", "%s ray %d", d.c_str(), i);
    cover += t * perp;
    if (ty < tx) {
      outT.push_back(o.x + t * dir.x);
    } else {
      outS.push_back(o.y + t * dir.y);
    }
    offs.push_back(cross(dir, o - P2{(LD)lo[0], (LD)lo[1]}));
  }
  VH((Int)inB.size() == nx && (Int)inS.size() == ny, "ray_sides", "%s: %zu bottom %zu side", d.c_str(), inB.size(), inS.size());
  VH(inB.size() == outT.size() && inS.size() == outS.size(), "cyclic_counts", "%s: in %zu/%zu out %zu/%zu", d.c_str(), inB.size(), inS.size(), outT.size(), outS.size());
  if (inB.size() == outT.size() && inS.size() == outS.size()) {
    auto match = [&](std::vector<LD> & p, std::vector<LD> & q, char const * key) {
      std::sort(p.begin(), p.end());
      std::sort(q.begin(), q.end());
      for (size_t i = 0; i < p.size(); ++i) {
        VH(std::fabs(p[i] - q[i]) <= ptol, key, "%s: entry %.9Lg exit %.9Lg", d.c_str(), p[i], q[i]);
      }
    };
    match(inB, outT, "cyclic_top");
    match(inS, outS, "cyclic_side");
  }
  std::sort(offs.begin(), offs.end());
  for (size_t i = 1; i < offs.size(); ++i) {
    VH(std::fabs(offs[i] - offs[i - 1] - perp) <= 4 * tol, "equal_spacing", "%s: gap %.9Lg expected %.9Lg", d.c_str(), offs[i] - offs[i - 1], perp);
  }
  VH(std::fabs(cover - W * H) <= ptol * (W + H) * 4, "area_covered", "%s: %.12Lg expected %.12Lg", d.c_str(), cover, W * H);
  vh::count(dir.x > 0 ? "first quadrant" : "second quadrant");
  if (n > 2) {
    vh::count("more than two rays");
    vh::nontrivial(vh::hashStr(d));
    vh::sample(d + vh::fmt(": %d + %d rays", nx, ny));
  } else {
    vh::count("coarsest possible");
  }
}

int
main(int argc, char ** argv)
{
  return vh::run(argc, argv, "modray", [](vh::Rng & rng, uint64_t) {
    if (rng.chance(0.3)) {
      check<float>(rng);
    } else {
      check<double>(rng);
    }
  });
}
