// C07: summary statistics against extended-precision definitions.
#include "vh.hpp"
#include <um2/math/stats.hpp>

#include <algorithm>
#include <memory>

using LD = long double;

template <class T>
static void
one(vh::Rng & rng, int n)
{
  LD const eps = std::numeric_limits<T>::epsilon();
  double const offset = rng.chance(0.4) ? 0 : rng.sign() * rng.logu(1, sizeof(T) == 4 ? 1e3 : 1e7);
  double const scale = rng.logu(1e-3, 1e3);
  int const kind = n > 10000 ? 4 : rng.range(0, 4);
  double const cst = rng.logu(1e-2, 10);
  std::unique_ptr<T[]> x(new T[static_cast<size_t>(n)]);
  for (int i = 0; i < n; ++i) {
    double v = 0;
    if (kind == 0) {
      v = rng.uni(-1, 1) * scale;
    } else if (kind == 1) {
      v = rng.sign() * rng.logu(1e-6, 1e6);
    } else if (kind == 2) {
      v = rng.u() * scale;
    } else if (kind == 4) { // nearly equal values: rounding errors of a running sum pile up
      v = cst;
    } else {
      v = rng.range(0, 3);
    }
    x[static_cast<size_t>(i)] = static_cast<T>(v + offset);
  }
  if (rng.chance(0.2)) {
    std::sort(x.get(), x.get() + n);
  }
  std::vector<T> const orig(x.get(), x.get() + n);
  T const * b = x.get();
  T const * e = x.get() + n;
  LD s = 0;
  LD sabs = 0;
  LD comp = 0;
  for (T const v : orig) { // compensated, extended precision
    LD const y = v - comp;
    LD const t = s + y;
    comp = (t - s) - y;
    s = t;
    sabs += std::fabs(static_cast<LD>(v));
  }
  std::string const d = vh::fmt("%s n=%d kind=%d offset=%g scale=%g", sizeof(T) == 4 ? "f32" : "f64", n, kind, offset, scale);
  // blocks of 128 summed naively, then pairwise: error below (128 + log2 n) eps sum|x|
  LD const stol = (140 + std::log2(static_cast<double>(n))) * eps * sabs;
  LD const got = um2::sum(b, e);
  VH(std::fabs(got - s) <= stol, "stats.sum", "%s: %.17Lg expected %.17Lg", d.c_str(), got, s);
  LD const mean = s / n;
  LD const gm = um2::mean(b, e);
  VH(std::fabs(gm - mean) <= stol / n + 4 * eps * std::fabs(mean), "stats.mean", "%s: %.17Lg expected %.17Lg", d.c_str(), gm, mean);
  LD maxabs = 0;
  for (T const v : orig) {
    maxabs = std::max(maxabs, std::fabs(static_cast<LD>(v)));
  }
  if (n > 1) {
    LD m2 = 0;
    for (T const v : orig) {
      m2 += (v - mean) * (v - mean);
    }
    LD const var = m2 / (n - 1);
    LD const gv = um2::variance(b, e);
    // Welford: relative error ~ n eps kappa, kappa = sqrt(1 + mean^2/var)
    LD const sd = std::sqrt(var);
    LD const tol = 8 * n * eps * (var + sd * maxabs) + 8 * n * (eps * maxabs) * (eps * maxabs) * n;
    VH(gv >= 0 && std::fabs(gv - var) <= tol, "stats.variance", "%s: %.17Lg expected %.17Lg tol %Lg", d.c_str(), gv, var, tol);
    LD const gs = um2::stdDev(b, e);
    VH(std::fabs(gs * gs - gv) <= 8 * eps * gv, "stats.stddev", "%s: %.17Lg^2 vs %.17Lg", d.c_str(), gs, gv);
    // a tighter, structural test: shifting the sample must not change the variance
    if (kind == 3) {
      std::vector<T> y(orig);
      for (auto & v : y) {
        v = static_cast<T>(static_cast<LD>(v) - static_cast<T>(offset));
      }
      LD const vs = um2::variance(y.data(), y.data() + n);
      VH(std::fabs(vs - gv) <= 2 * tol, "stats.variance.shift", "%s: %.17Lg vs %.17Lg", d.c_str(), vs, gv);
    }
    vh::count("variances");
  }
  bool same = std::equal(orig.begin(), orig.end(), b);
  VH(same, "stats.modified", "%s", d.c_str());
  std::sort(x.get(), x.get() + n);
  std::vector<T> so(orig);
  std::sort(so.begin(), so.end());
  T const med = um2::median(b, e);
  LD const want = n % 2 == 1 ? static_cast<LD>(so[static_cast<size_t>(n / 2)])
                             : (static_cast<LD>(so[static_cast<size_t>(n / 2)]) + so[static_cast<size_t>(n / 2 - 1)]) / 2;
  VH(std::fabs(med - want) <= eps * std::fabs(want) * 2, "stats.median", "%s: %.17g expected %.17Lg", d.c_str(), (double)med, want);
  if (n > 128) {
    vh::count("samples crossing a summation block");
  }
  vh::count("samples");
  vh::nontrivial(vh::mix(rng.s + static_cast<uint64_t>(n)));
  vh::sample(d);
}

int
main(int argc, char ** argv)
{
  return vh::run(argc, argv, "stats", [](vh::Rng & rng, uint64_t i) {
    // every length up to 1100 first, then random longer ones
    int const n = i < 1100 ? static_cast<int>(i) + 1 : (rng.chance(0.5) ? rng.range(1, 300) : rng.range(300, 9000));
    if (i % 400 == 399) {
      one<float>(rng, rng.range(200000, 2000000));
      vh::count("samples of more than 200000 values");
    }
    if (i % 2 == 0) {
      one<double>(rng, n);
      one<float>(rng, n);
    } else {
      one<float>(rng, n);
      one<double>(rng, n);
    }
  });
}
