#pragma once
// Crossings of rays with edges in extended precision.
#include "refgeom.hpp"

struct Hit {
  LD s; // along the edge
  LD r; // along the ray
};

// Crossings of the ray with the edge.  `unsure` is set when some crossing is too close to
// tangential, to an end point of the edge, or to the ray's origin to be decided.
inline std::vector<Hit>
crossings(Edge const & e, P2 o, P2 d, LD slack, bool & unsure)
{
  std::vector<Hit> h;
  LD const a = cross(e.A, d);
  LD const b = cross(e.B, d);
  LD const c = cross(e.a - o, d);
  LD const size = e.size();
  std::vector<LD> roots;
  // distance of the edge's vertex (w.r.t. the ray's normal) from the ray's line
  if (std::fabs(a) > 1e-12L * (std::fabs(b) + std::fabs(a))) {
    LD const sv = -b / (2 * a);
    LD const gv = c - b * b / (4 * a);
    if (sv > -0.1L && sv < 1.1L && std::fabs(gv) < slack) {
      unsure = true;
      return h;
    }
    LD const disc = b * b - 4 * a * c;
    if (disc > 0) {
      LD const q = -(b + std::copysign(std::sqrt(disc), b)) / 2;
      roots.push_back(q / a);
      if (q != 0) {
        roots.push_back(c / q);
      }
    }
  } else if (std::fabs(b) > 1e-9L * size) {
    roots.push_back(-c / b);
  } else if (std::fabs(c) < slack) {
    unsure = true; // collinear
  }
  for (LD const s : roots) {
    if (s < -0.5L || s > 1.5L) {
      continue;
    }
    LD const slope = std::fabs(b + 2 * a * s);
    if (slope < 1e-4L * size) {
      unsure = true;
    }
    LD const ds = slack / std::max(slope, 1e-30L);
    if (std::fabs(s) < ds || std::fabs(s - 1) < ds) {
      unsure = true;
    }
    if (s < 0 || s > 1) {
      continue;
    }
    LD const r = dot(e(s) - o, d) / dot(d, d);
    if (std::fabs(r) < slack * 8 + ds * size) {
      unsure = true;
    }
    if (r >= 0) {
      h.push_back({s, r});
    }
  }
  std::sort(h.begin(), h.end(), [](Hit const & x, Hit const & y) { return x.r < y.r; });
  return h;
}

template <class T>
inline um2::Ray2<T>
randRay(vh::Rng & rng, P2 centre, LD size)
{
  P2 const target = centre + size * P2{rng.uni(-0.7, 0.7), rng.uni(-0.7, 0.7)};
  P2 o;
  switch (rng.range(0, 3)) {
  case 0:
    o = centre + size * P2{rng.uni(-0.6, 0.6), rng.uni(-0.6, 0.6)}; // may be inside
    break;
  case 1:
    o = target + (3 * size) * rot({1, 0}, 1.5707963267948966L * rng.range(0, 3)); // axis-parallel
    break;
  default:
    o = target + static_cast<LD>(rng.uni(1, 6)) * size * rot({1, 0}, rng.uni(0, 6.28318));
  }
  um2::Point2<T> const O = pt<T>(o);
  P2 dir = target - ref(O);
  if (rng.chance(0.15)) {
    dir = -1.0L * dir; // away
  }
  dir = (1 / len(dir)) * dir;
  if (std::fabs(dir.x) < 1e-6L || std::fabs(dir.y) < 1e-6L) {
    dir = std::fabs(dir.x) > 0.5L ? P2{std::copysign(1.0L, dir.x), 0} : P2{0, std::copysign(1.0L, dir.y)};
  }
  return um2::Ray2<T>(O, pt<T>(dir));
}

template <class T>
inline std::string
rayStr(um2::Ray2<T> const & ray)
{
  return vh::fmt("ray o=(%.17g %.17g) d=(%.17g %.17g)", (double)ray.origin()[0], (double)ray.origin()[1], (double)ray.direction()[0], (double)ray.direction()[1]);
}
