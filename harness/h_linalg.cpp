// C06: vectors, small matrices and dense matrices against extended-precision references.
#include "vh.hpp"
#include <um2/math/mat.hpp>
#include <um2/math/matrix.hpp>
#include <um2/math/vec.hpp>

#include <algorithm>
#include <complex>

using LD = long double;
using CLD = std::complex<long double>;

template <class T>
struct Real {
  using type = T;
};
template <class T>
struct Real<std::complex<T>> {
  using type = T;
};
template <class T>
using RealT = typename Real<T>::type;

template <class T>
static LD
epsOf()
{
  if constexpr (std::is_integral_v<T>) {
    return 0;
  } else {
    return std::numeric_limits<RealT<T>>::epsilon();
  }
}

template <class T>
static T
rnd(vh::Rng & rng)
{
  if constexpr (std::is_integral_v<T>) {
    return static_cast<T>(rng.range(-50, 50));
  } else if constexpr (std::is_floating_point_v<T>) {
    return static_cast<T>(rng.chance(0.2) ? rng.range(-3, 3) : rng.sign() * rng.logu(1e-3, 1e3));
  } else {
    return T(rnd<RealT<T>>(rng), rnd<RealT<T>>(rng));
  }
}

static LD
mag(CLD const & x)
{
  return std::abs(x);
}

//----------------------------------------------------------------------------- Vec
template <Int D, class T>
static void
vecs(vh::Rng & rng)
{
  using V = um2::Vec<D, T>;
  V a;
  V b;
  T am[4];
  T bm[4];
  for (Int i = 0; i < D; ++i) {
    a[i] = am[i] = rnd<T>(rng);
    b[i] = bm[i] = rng.chance(0.1) ? a[i] : rnd<T>(rng);
    if (bm[i] == 0) {
      b[i] = bm[i] = 1;
    }
  }
  T const s = rnd<T>(rng) == 0 ? T(2) : T(3);
  LD const eps = epsOf<T>();
  auto chk = [&](V const & v, auto && f, char const * key) {
    for (Int i = 0; i < D; ++i) {
      T const w = f(am[i], bm[i]);
      if (!(std::fabs(static_cast<LD>(v[i]) - static_cast<LD>(w)) <= 2 * eps * std::fabs(static_cast<LD>(w)))) {
        vh::fail(key, "D=%d i=%d a=%.9g b=%.9g got %.9g", D, i, (double)am[i], (double)bm[i], (double)v[i]);
        return;
      }
    }
  };
  chk(a + b, [](T x, T y) { return T(x + y); }, "vec.add");
  chk(a - b, [](T x, T y) { return T(x - y); }, "vec.sub");
  chk(a * b, [](T x, T y) { return T(x * y); }, "vec.mul");
  chk(a / b, [](T x, T y) { return T(x / y); }, "vec.div");
  chk(-a, [](T x, T) { return T(-x); }, "vec.neg");
  chk(a + s, [s](T x, T) { return T(x + s); }, "vec.adds");
  chk(s + a, [s](T x, T) { return T(x + s); }, "vec.sadd");
  chk(a - s, [s](T x, T) { return T(x - s); }, "vec.subs");
  chk(s - a, [s](T x, T) { return T(s - x); }, "vec.ssub");
  chk(a * s, [s](T x, T) { return T(x * s); }, "vec.muls");
  chk(s * a, [s](T x, T) { return T(x * s); }, "vec.smul");
  chk(a / s, [s](T x, T) { return T(x / s); }, "vec.divs");
  chk(s / b, [s](T, T y) { return T(s / y); }, "vec.sdiv");
  chk(a * 2, [](T x, T) { return T(x * 2); }, "vec.muli");
  chk(um2::min(a, b), [](T x, T y) { return std::min(x, y); }, "vec.min");
  chk(um2::max(a, b), [](T x, T y) { return std::max(x, y); }, "vec.max");
  {
    V c = a;
    c += b;
    chk(c, [](T x, T y) { return T(x + y); }, "vec.addeq");
    c = a;
    c -= b;
    chk(c, [](T x, T y) { return T(x - y); }, "vec.subeq");
    c = a;
    c *= b;
    chk(c, [](T x, T y) { return T(x * y); }, "vec.muleq");
    c = a;
    c /= b;
    chk(c, [](T x, T y) { return T(x / y); }, "vec.diveq");
    c = s;
    chk(c, [s](T, T) { return s; }, "vec.assign_scalar");
    c = V::zero();
    chk(c, [](T, T) { return T(0); }, "vec.zero");
  }
  LD dot = 0;
  LD dabs = 0;
  LD n2 = 0;
  LD d2 = 0;
  for (Int i = 0; i < D; ++i) {
    dot += static_cast<LD>(am[i]) * bm[i];
    dabs += std::fabs(static_cast<LD>(am[i]) * bm[i]);
    n2 += static_cast<LD>(am[i]) * am[i];
    LD const d = static_cast<LD>(am[i]) - bm[i];
    d2 += d * d;
  }
  VH(std::fabs(a.dot(b) - dot) <= 4 * eps * dabs && um2::dot(a, b) == a.dot(b), "vec.dot", "D=%d", D);
  VH(std::fabs(a.squaredNorm() - n2) <= 4 * eps * n2, "vec.squaredNorm", "D=%d", D);
  VH(std::fabs(a.squaredDistanceTo(b) - d2) <= 16 * eps * (d2 + eps * n2), "vec.squaredDistance", "D=%d", D);
  bool const lt = std::lexicographical_compare(am, am + D, bm, bm + D);
  bool const gt = std::lexicographical_compare(bm, bm + D, am, am + D);
  bool const eq = std::equal(am, am + D, bm);
  VH((a < b) == lt && (a > b) == gt && (a <= b) == !gt && (a >= b) == !lt && (a == b) == eq && (a != b) == !eq, "vec.relops", "D=%d", D);
  if constexpr (std::is_floating_point_v<T>) {
    VH(std::fabs(a.norm() - std::sqrt(n2)) <= 4 * eps * std::sqrt(n2), "vec.norm", "D=%d", D);
    VH(std::fabs(a.distanceTo(b) - std::sqrt(d2)) <= 16 * eps * (std::sqrt(d2) + std::sqrt(n2)), "vec.distance", "D=%d", D);
    if (n2 > 0) {
      V const u = a.normalized();
      V c = a;
      c.normalize();
      for (Int i = 0; i < D; ++i) {
        VH(std::fabs(u[i] - am[i] / std::sqrt(n2)) <= 8 * eps && c[i] == u[i] && a[i] == am[i], "vec.normalized", "D=%d", D);
      }
    }
    V c = a;
    c[0] += static_cast<T>(0.5) * um2::epsDistance<T>();
    VH(std::fabs(static_cast<LD>(am[0])) > 100 || a.isApprox(c), "vec.isApprox", "D=%d", D);
    c[D - 1] += 4;
    VH(!a.isApprox(c), "vec.isApprox", "D=%d", D);
  }
  if constexpr (D == 2) {
    LD const w = static_cast<LD>(am[0]) * bm[1] - static_cast<LD>(am[1]) * bm[0];
    if constexpr (std::is_floating_point_v<T>) {
      // Kahan: accurate relative to the result, whatever the cancellation
      VH(std::fabs(a.cross(b) - w) <= 2 * eps * std::fabs(w) + std::numeric_limits<T>::min(), "vec.cross2", "(%.17g,%.17g)x(%.17g,%.17g) = %.17g", (double)am[0], (double)am[1], (double)bm[0], (double)bm[1], (double)a.cross(b));
      // nearly parallel
      V p = a;
      p[0] = std::nextafter(p[0], static_cast<T>(1e9));
      LD const wp = static_cast<LD>(am[0]) * p[1] - static_cast<LD>(am[1]) * p[0];
      if (sizeof(T) == 4) {
        VH(std::fabs(a.cross(p) - wp) <= 2 * eps * std::fabs(wp) + std::numeric_limits<T>::min(), "vec.cross2.parallel", "%.9g %.9g", (double)am[0], (double)am[1]);
      } else if (am[0] != 0 && am[1] != 0) {
        T const ulp = p[0] - am[0];
        VH(std::fabs(a.cross(p) + am[1] * static_cast<LD>(ulp)) <= 1e-12L * std::fabs(am[1] * static_cast<LD>(ulp)), "vec.cross2.parallel", "%.17g %.17g", (double)am[0], (double)am[1]);
      }
    }
  }
  if constexpr (D == 3 && std::is_floating_point_v<T>) {
    V const c = a.cross(b);
    for (Int i = 0; i < 3; ++i) {
      Int const j = (i + 1) % 3;
      Int const k = (i + 2) % 3;
      LD const w = static_cast<LD>(am[j]) * bm[k] - static_cast<LD>(am[k]) * bm[j];
      VH(std::fabs(c[i] - w) <= 3 * eps * std::fabs(w) + 1e-30L, "vec.cross3", "component %d", i);
    }
  }
  bool intact = true;
  for (Int i = 0; i < D; ++i) {
    intact = intact && a[i] == am[i] && b[i] == bm[i];
  }
  VH(intact, "vec.arguments_modified", "D=%d", D);
  VH(a.end() - a.begin() == D && *a.begin() == a[0], "vec.iterators", "D=%d", D);
  vh::count("vectors");
}

//----------------------------------------------------------------------------- Mat
template <Int M, Int N, Int P, class T>
static void
mats(vh::Rng & rng)
{
  um2::Mat<M, N, T> a;
  um2::Mat<M, N, T> a2;
  um2::Mat<N, P, T> b;
  um2::Vec<N, T> x;
  for (Int j = 0; j < N; ++j) {
    x[j] = rnd<T>(rng);
    for (Int i = 0; i < M; ++i) {
      a(i, j) = rnd<T>(rng);
      a2(i, j) = rnd<T>(rng);
    }
  }
  for (Int j = 0; j < P; ++j) {
    for (Int i = 0; i < N; ++i) {
      b(i, j) = rnd<T>(rng);
    }
  }
  LD const eps = epsOf<T>();
  for (Int j = 0; j < N; ++j) {
    for (Int i = 0; i < M; ++i) {
      VH(a(j * M + i) == a(i, j) && a.col(j)[i] == a(i, j), "mat.storage", "%dx%d", M, N);
      VH((a + a2)(i, j) == a(i, j) + a2(i, j) && (a - a2)(i, j) == a(i, j) - a2(i, j), "mat.addsub", "%dx%d", M, N);
    }
  }
  auto const y = a * x;
  auto const c = a * b;
  for (Int i = 0; i < M; ++i) {
    LD w = 0;
    LD ab = 0;
    for (Int k = 0; k < N; ++k) {
      w += static_cast<LD>(a(i, k)) * x[k];
      ab += std::fabs(static_cast<LD>(a(i, k)) * x[k]);
    }
    VH(std::fabs(y[i] - w) <= 2 * (N + 1) * eps * ab, "mat.vec", "%dx%d", M, N);
    for (Int j = 0; j < P; ++j) {
      LD s = 0;
      LD sb = 0;
      for (Int k = 0; k < N; ++k) {
        s += static_cast<LD>(a(i, k)) * b(k, j);
        sb += std::fabs(static_cast<LD>(a(i, k)) * b(k, j));
      }
      VH(std::fabs(c(i, j) - s) <= 2 * (N + 1) * eps * sb, "mat.mat", "%dx%d * %dx%d element %d,%d", M, N, N, P, i, j);
    }
  }
  if constexpr (M == N) {
    auto const id = um2::Mat<M, N, T>::identity();
    for (Int j = 0; j < N; ++j) {
      for (Int i = 0; i < M; ++i) {
        VH(id(i, j) == (i == j ? 1 : 0), "mat.identity", "%d", M);
      }
    }
  }
  if constexpr (M == 2 && N == 2 && std::is_floating_point_v<T>) {
    LD const det = static_cast<LD>(a(0, 0)) * a(1, 1) - static_cast<LD>(a(0, 1)) * a(1, 0);
    LD const n2 = std::fabs(static_cast<LD>(a(0, 0)) * a(1, 1)) + std::fabs(static_cast<LD>(a(0, 1)) * a(1, 0));
    if (std::fabs(det) > 1e-3L * n2 && n2 > 0) {
      auto const iv = um2::inv(a);
      LD const w[4] = {a(1, 1) / det, -a(1, 0) / det, -a(0, 1) / det, a(0, 0) / det};
      for (Int k = 0; k < 4; ++k) {
        VH(std::fabs(iv(k) - w[k]) <= 8 * eps * std::fabs(w[k]), "mat.inverse", "element %d", k);
      }
      vh::count("inverses");
    }
    T const ang = static_cast<T>(rng.uni(-7, 7));
    auto const r = um2::makeRotationMatrix(ang);
    um2::Vec<2, T> const e(static_cast<T>(1), static_cast<T>(0));
    auto const f = r * e;
    VH(std::fabs(f[0] - std::cos(static_cast<LD>(ang))) < 4 * eps && std::fabs(f[1] - std::sin(static_cast<LD>(ang))) < 4 * eps &&
           std::fabs(r(0, 1) + f[1]) < 4 * eps && std::fabs(r(1, 1) - f[0]) < 4 * eps,
       "mat.rotation", "%.9g", (double)ang);
  }
  vh::count("small matrices");
}

//----------------------------------------------------------------------------- Matrix
template <class T>
static CLD
cl(T const & x)
{
  if constexpr (std::is_floating_point_v<T>) {
    return CLD(x, 0);
  } else {
    return CLD(x.real(), x.imag());
  }
}

template <class T>
static um2::Matrix<T>
randMatrix(vh::Rng & rng, int m, int n)
{
  um2::Matrix<T> a(m, n);
  for (int j = 0; j < n; ++j) {
    for (int i = 0; i < m; ++i) {
      a(i, j) = rnd<T>(rng);
    }
  }
  return a;
}

template <class T>
static bool
sameM(um2::Matrix<T> const & a, um2::Matrix<T> const & b)
{
  if (a.rows() != b.rows() || a.cols() != b.cols()) {
    return false;
  }
  for (Int i = 0; i < a.rows() * a.cols(); ++i) {
    if (a(i) != b(i)) {
      return false;
    }
  }
  return true;
}

template <class T>
static void
checkProduct(um2::Matrix<T> const & c, um2::Matrix<T> const & a, um2::Matrix<T> const & b, char const * key)
{
  LD const eps = epsOf<T>();
  if (c.rows() != a.rows() || c.cols() != b.cols()) {
    vh::fail(key, "shape %d x %d", c.rows(), c.cols());
    return;
  }
  for (Int i = 0; i < a.rows(); ++i) {
    for (Int j = 0; j < b.cols(); ++j) {
      CLD s = 0;
      LD sb = 0;
      for (Int k = 0; k < a.cols(); ++k) {
        s += cl(a(i, k)) * cl(b(k, j));
        sb += mag(cl(a(i, k))) * mag(cl(b(k, j)));
      }
      if (!(mag(cl(c(i, j)) - s) <= 4 * (a.cols() + 2) * eps * sb)) {
        vh::fail(key, "%dx%d * %dx%d element %d,%d: %Lg%+Lgi expected %Lg%+Lgi", a.rows(), a.cols(), b.rows(), b.cols(), i, j, cl(c(i, j)).real(), cl(c(i, j)).imag(), s.real(), s.imag());
        return;
      }
    }
  }
}

template <class T>
static void
dense(vh::Rng & rng, char const * tn)
{
  int const m = rng.range(1, 9);
  int const k = rng.range(1, 9);
  int const n = rng.range(1, 9);
  std::string const d = vh::fmt("%s %dx%dx%d", tn, m, k, n);
  LD const eps = epsOf<T>();
  auto const a = randMatrix<T>(rng, m, k);
  auto const a2 = randMatrix<T>(rng, m, k);
  auto const b = randMatrix<T>(rng, k, n);
  auto const a_orig(a);
  auto const b_orig(b);
  // storage and element-wise
  bool el = true;
  auto const sum = a + a2;
  auto const dif = a - a2;
  auto sc = a;
  sc *= static_cast<T>(3);
  auto pe = a;
  pe += a2;
  auto me = a;
  me -= a2;
  for (Int j = 0; j < k; ++j) {
    for (Int i = 0; i < m; ++i) {
      el = el && a(j * m + i) == a(i, j) && sum(i, j) == a(i, j) + a2(i, j) && dif(i, j) == a(i, j) - a2(i, j) &&
           mag(cl(sc(i, j)) - cl(a(i, j)) * 3.0L) <= 2 * eps * mag(cl(sc(i, j))) && pe(i, j) == sum(i, j) && me(i, j) == dif(i, j);
    }
  }
  VH(el, "matrix.elementwise", "%s", d.c_str());
  checkProduct(a * b, a, b, "matrix.product");
  {
    um2::Matrix<T> c(m, n, rnd<T>(rng)); // holds something else before
    um2::matmul(c, a, b);
    checkProduct(c, a, b, "matrix.matmul");
  }
  um2::Vector<T> x(k);
  um2::Matrix<T> xm(k, 1);
  for (Int i = 0; i < k; ++i) {
    x[i] = rnd<T>(rng);
    xm(i, 0) = x[i];
  }
  auto const x_orig(x);
  um2::Vector<T> const y = a * x;
  um2::Matrix<T> ym(y.size(), 1);
  for (Int i = 0; i < y.size(); ++i) {
    ym(i, 0) = y[i];
  }
  checkProduct(ym, a, xm, "matrix.vector");
  VH(sameM(a, a_orig) && sameM(b, b_orig) && x == x_orig, "matrix.arguments_modified", "%s", d.c_str());
  // square
  auto const s = randMatrix<T>(rng, m, m);
  auto t = s;
  t.transpose();
  bool tr = true;
  for (Int j = 0; j < m; ++j) {
    for (Int i = 0; i < m; ++i) {
      CLD const w = std::conj(cl(s(j, i)));
      tr = tr && cl(t(i, j)) == w;
    }
  }
  VH(tr, "matrix.transpose", "%s", d.c_str());
  auto const id = um2::Matrix<T>::identity(m);
  checkProduct(id * a, id, a, "matrix.identity");
  auto z = s;
  z.zero();
  bool zr = true;
  for (Int i = 0; i < m * m; ++i) {
    zr = zr && z(i) == static_cast<T>(0) && id(i) == static_cast<T>(i % (m + 1) == 0 ? 1 : 0);
  }
  VH(zr, "matrix.zero_identity", "%s", d.c_str());
#if UM2_USE_BLAS_LAPACK
  // well-conditioned system: diagonally dominant, rows shuffled so that pivoting matters
  auto g = randMatrix<T>(rng, m, m);
  std::vector<int> p(static_cast<size_t>(m));
  for (int i = 0; i < m; ++i) {
    p[static_cast<size_t>(i)] = i;
  }
  rng.shuffle(p);
  for (int i = 0; i < m; ++i) {
    LD rs = 0;
    for (int j = 0; j < m; ++j) {
      rs += mag(cl(g(i, j)));
    }
    g(i, p[static_cast<size_t>(i)]) = static_cast<T>(static_cast<RealT<T>>(2 * rs + 1));
  }
  auto const rhs = randMatrix<T>(rng, m, n);
  auto const g_orig(g);
  auto const rhs_orig(rhs);
  auto checkSolve = [&](um2::Matrix<T> const & sol, char const * key) {
    if (sol.rows() != m || sol.cols() != n) {
      vh::fail(key, "shape");
      return;
    }
    for (Int i = 0; i < m; ++i) {
      for (Int j = 0; j < n; ++j) {
        CLD r = -cl(rhs_orig(i, j));
        LD bound = mag(r);
        for (Int q = 0; q < m; ++q) {
          r += cl(g_orig(i, q)) * cl(sol(q, j));
          bound += mag(cl(g_orig(i, q))) * mag(cl(sol(q, j)));
        }
        LD rowscale = 0;
        for (Int q = 0; q < m; ++q) {
          rowscale = std::max(rowscale, mag(cl(g_orig(i, q))));
        }
        LD solmax = 0;
        for (Int q = 0; q < m; ++q) {
          solmax = std::max(solmax, mag(cl(sol(q, j))));
        }
        LD gmax = 0;
        for (Int q = 0; q < m * m; ++q) {
          gmax = std::max(gmax, mag(cl(g_orig(q))));
        }
        if (!(mag(r) <= 64 * m * eps * (bound + gmax * solmax))) {
          vh::fail(key, "%s residual %Lg", d.c_str(), mag(r));
          return;
        }
      }
    }
  };
  checkSolve(um2::linearSolve(g, rhs), "matrix.solve");
  VH(sameM(g, g_orig) && sameM(rhs, rhs_orig), "matrix.solve.arguments_modified", "%s", d.c_str());
  {
    auto ga = g;
    auto ra = rhs;
    um2::Vector<Int> ipiv(m);
    um2::linearSolve(ga, ra, ipiv);
    checkSolve(ra, "matrix.solve_inplace");
  }
  // eigenvalues: power sums equal traces of powers
  auto const ev_in(s);
  auto const ev = um2::eigvals(s);
  VH(sameM(s, ev_in), "matrix.eigvals.arguments_modified", "%s", d.c_str());
  if (ev.size() != m) {
    vh::fail("matrix.eigvals.count", "%s", d.c_str());
  } else {
    LD fro = 0;
    for (Int i = 0; i < m * m; ++i) {
      fro += mag(cl(s(i))) * mag(cl(s(i)));
    }
    fro = std::sqrt(fro);
    std::vector<CLD> P(static_cast<size_t>(m * m));
    std::vector<CLD> A(static_cast<size_t>(m * m));
    for (Int i = 0; i < m * m; ++i) {
      A[static_cast<size_t>(i)] = cl(s(i));
    }
    P = A;
    LD fp = fro;
    for (int pw = 1; pw <= std::min(m, 4); ++pw) {
      CLD trc = 0;
      for (Int i = 0; i < m; ++i) {
        trc += P[static_cast<size_t>(i * m + i)];
      }
      CLD es = 0;
      for (Int i = 0; i < m; ++i) {
        es += std::pow(cl(ev[i]), pw);
      }
      VH(mag(trc - es) <= 400.0L * m * m * pw * eps * fp, "matrix.eigvals", "%s power %d: %Lg vs %Lg", d.c_str(), pw, trc.real(), es.real());
      std::vector<CLD> Q(static_cast<size_t>(m * m));
      for (Int j = 0; j < m; ++j) {
        for (Int i = 0; i < m; ++i) {
          for (Int q = 0; q < m; ++q) {
            Q[static_cast<size_t>(j * m + i)] += P[static_cast<size_t>(q * m + i)] * A[static_cast<size_t>(j * m + q)];
          }
        }
      }
      P = Q;
      fp *= fro;
    }
    vh::count("eigenvalue sets");
  }
  vh::count("linear systems");
#endif
  if (m != k || k != n) {
    vh::count("non-square products");
  }
  vh::nontrivial(vh::mix(rng.s));
  vh::sample(d);
}

int
main(int argc, char ** argv)
{
  return vh::run(argc, argv, "linalg", [](vh::Rng & rng, uint64_t i) {
    vecs<1, double>(rng);
    vecs<2, double>(rng);
    vecs<3, double>(rng);
    vecs<4, double>(rng);
    vecs<1, float>(rng);
    vecs<2, float>(rng);
    vecs<3, float>(rng);
    vecs<4, float>(rng);
    vecs<2, int32_t>(rng);
    vecs<3, int32_t>(rng);
    mats<2, 2, 2, double>(rng);
    mats<3, 3, 3, double>(rng);
    mats<2, 3, 4, double>(rng);
    mats<3, 2, 1, double>(rng);
    mats<1, 2, 3, float>(rng);
    mats<4, 4, 2, float>(rng);
    mats<2, 4, 4, double>(rng);
    mats<2, 2, 2, float>(rng);
    switch (i % 4) {
    case 0:
      return dense<double>(rng, "f64");
    case 1:
      return dense<float>(rng, "f32");
    case 2:
      return dense<std::complex<double>>(rng, "c64");
    default:
      return dense<std::complex<float>>(rng, "c32");
    }
  });
}
