// C38: elementary functions, constants, pairs, swaps, byte comparisons and colours.
#include "vh.hpp"
#include <um2/common/cast_if_not.hpp>
#include <um2/common/color.hpp>
#include <um2/stdlib/cstring/memcmp.hpp>
#include <um2/stdlib/cstring/strlen.hpp>
#include <um2/stdlib/math/abs.hpp>
#include <um2/stdlib/math/copysign.hpp>
#include <um2/stdlib/math/exponential_functions.hpp>
#include <um2/stdlib/math/fma.hpp>
#include <um2/stdlib/math/hyperbolic_functions.hpp>
#include <um2/stdlib/math/inverse_hyperbolic_functions.hpp>
#include <um2/stdlib/math/inverse_trigonometric_functions.hpp>
#include <um2/stdlib/math/logarithms.hpp>
#include <um2/stdlib/math/roots.hpp>
#include <um2/stdlib/math/rounding_functions.hpp>
#include <um2/stdlib/math/trigonometric_functions.hpp>
#include <um2/stdlib/numbers.hpp>
#include <um2/stdlib/string.hpp>
#include <um2/stdlib/utility/is_pointer_in_range.hpp>
#include <um2/stdlib/utility/pair.hpp>
#include <um2/stdlib/utility/swap.hpp>

#include <cmath>
#include <cstring>
#include <memory>
#include <numbers>

using LD = long double;

// the whole range of a type, with many values near the places where functions change
template <class T>
static T
value(vh::Rng & rng)
{
  using L = std::numeric_limits<T>;
  switch (rng.range(0, 7)) {
  case 0:
    return rng.pick(std::vector<T>{0, (T)-0.0, 1, -1, (T)0.5, (T)-0.5, 2, -2, L::max(), L::lowest(), L::min(), -L::min(), L::denorm_min(), L::epsilon(), L::infinity(), -L::infinity()});
  case 1:
    return (T)(rng.sign() * rng.logu(1e-30, 1e30));
  case 2:
    return (T)rng.range(-1000, 1000);
  case 3:
    return (T)rng.range(-1000, 1000) / 2;
  case 4:
    return std::nextafter((T)rng.range(-100, 100), (T)(rng.sign() * 1000));
  case 5:
    return (T)rng.uni(-1, 1);
  case 6:
    return (T)(rng.range(-40, 40) * std::numbers::pi_v<double> / 4 * (1 + rng.uni(-1e-7, 1e-7)));
  default:
    return (T)rng.uni(-100, 100);
  }
}

// agreement with the value in extended precision, to a few units in the last place
template <class T>
static void
agree(char const * name, LD x, T got, LD want)
{
  using L = std::numeric_limits<T>;
  bool ok = false;
  if (std::isnan(want)) {
    ok = std::isnan(got);
  } else if (std::isinf(want) || std::isinf((T)want)) {
    ok = got == (T)want || (std::isfinite((LD)want) && std::fabs((LD)got) >= (LD)L::max());
  } else {
    ok = std::fabs((LD)got - want) <= 4 * (LD)L::epsilon() * std::fabs(want) + (LD)L::denorm_min();
  }
  VH(ok, std::string("function.") + name, "%s of %.20Lg (%zu bytes): got %.20Lg, expected %.20Lg", name, x, sizeof(T), (LD)got, want);
}

template <class T>
static void
exactly(char const * name, LD x, T got, T want)
{
  bool const ok = std::isnan(want) ? std::isnan(got) : got == want && std::signbit(got) == std::signbit(want);
  VH(ok, std::string("function.") + name, "%s of %.20Lg (%zu bytes): got %.20Lg, expected %.20Lg", name, x, sizeof(T), (LD)got, (LD)want);
}

template <class T>
static void
functions(vh::Rng & rng)
{
  T const x = value<T>(rng);
  T const y = value<T>(rng);
  T const z = value<T>(rng);
  LD const q = x;
  agree("exp", q, um2::exp(x), std::exp(q));
  agree("log", q, um2::log(x), x < 0 ? std::numeric_limits<LD>::quiet_NaN() : std::log(q));
  agree("tanh", q, um2::tanh(x), std::tanh(q));
  agree("cbrt", q, um2::cbrt(x), std::cbrt(q));
  exactly("sqrt", q, um2::sqrt(x), std::sqrt(x));
  agree("atan", q, um2::atan(x), std::atan(q));
  T const u = (T)rng.uni(-1, 1);
  T const w = rng.chance(0.2) ? rng.pick(std::vector<T>{-1, 1, 0}) : u;
  agree("acos", w, um2::acos(w), std::acos((LD)w));
  agree("asin", w, um2::asin(w), std::asin((LD)w));
  agree("atanh", w, um2::atanh(w), std::atanh((LD)w));
  if (std::fabs(x) > 1) {
    VH(std::isnan(um2::acos(x)) && std::isnan(um2::asin(x)), "function.domain", "inverse sine and cosine of %.20Lg", q);
  }
  if (std::fabs(q) < 1e6L) {
    agree("cos", q, um2::cos(x), std::cos(q));
    agree("sin", q, um2::sin(x), std::sin(q));
  } else if (std::isfinite(x)) {
    T const c = um2::cos(x);
    T const s = um2::sin(x);
    VH(std::fabs((LD)c * c + (LD)s * s - 1) < 1e-6L, "function.circle", "cosine %.20Lg and sine %.20Lg of %.20Lg", (LD)c, (LD)s, q);
  }
  exactly("floor", q, um2::floor(x), std::floor(x));
  exactly("ceil", q, um2::ceil(x), std::ceil(x));
  exactly("copysign", q, um2::copysign(x, y), std::copysign(x, y));
  VH(um2::abs(x) == std::fabs(x), "function.abs", "absolute value of %.20Lg", q);
  exactly("fma", q, um2::fma(x, y, z), std::fma(x, y, z));
  if (std::isfinite(x) && std::isfinite(y) && std::fabs(q) < 1e15L && std::fabs((LD)y) < 1e15L && (q == 0 || std::fabs(q) > 1e-15L) && (y == 0 || std::fabs((LD)y) > 1e-15L)) {
    LD const m = std::sqrt(q * q + (LD)y * y);
    T const a = um2::abs(Complex<T>(x, y));
    VH(std::fabs((LD)a - m) <= 4 * (LD)std::numeric_limits<T>::epsilon() * m, "function.modulus", "modulus of %.20Lg, %.20Lg: %.20Lg", q, (LD)y, (LD)a);
  }
  // the values every other part is built on
  VH(um2::pi<T> == std::numbers::pi_v<T> && um2::e<T> == std::numbers::e_v<T> && um2::pi_2<T> == std::numbers::pi_v<T> / 2 && um2::pi_4<T> == std::numbers::pi_v<T> / 4, "constants",
     "constants in %zu bytes", sizeof(T));
  VH(castIfNot<float>(x) == (float)x || std::isnan((float)x), "cast", "cast of %.20Lg to float", q);
  VH(castIfNot<double>(x) == (double)x, "cast", "cast of %.20Lg to double", q);
  int const k = rng.range(-1000000, 1000000);
  VH(um2::abs(k) == std::abs(k) && castIfNot<T>(k) == (T)k && castIfNot<int>(k) == k, "cast", "integer %d", k);
  vh::count("functions");
  if (std::isfinite(x) && x != 0) {
    vh::nontrivial(std::hash<T>{}(x));
  }
}

// counts how often it is copied, and notices use after being moved from
struct Part {
  int v = 0;
  std::unique_ptr<int> p;
  Part() = default;
  explicit Part(int x)
      : v(x),
        p(new int(x))
  {
  }
  Part(Part const & o)
      : v(o.v),
        p(o.p ? new int(*o.p) : nullptr)
  {
  }
  Part(Part &&) noexcept = default;
  Part &
  operator=(Part const & o)
  {
    v = o.v;
    p.reset(o.p ? new int(*o.p) : nullptr);
    return *this;
  }
  Part & operator=(Part &&) noexcept = default;
  ~Part() = default;
  bool
  operator<(Part const & o) const
  {
    return *p < *o.p;
  }
  bool
  operator==(Part const & o) const
  {
    return *p == *o.p;
  }
};

template <class A, class B>
static void
relations(um2::Pair<A, B> const & a, um2::Pair<A, B> const & b, std::pair<A, B> const & c, std::pair<A, B> const & d, char const * kind)
{
  bool const ok = (a == b) == (c == d) && (a != b) == (c != d) && (a < b) == (c < d) && (a > b) == (c > d) && (a <= b) == (c <= d) && (a >= b) == (c >= d);
  VH(ok, "pair.relations", "pairs of %s do not compare by the first and then the second part", kind);
}

static void
pairs(vh::Rng & rng)
{
  int const v[4] = {rng.range(-2, 2), rng.range(-2, 2), rng.range(-2, 2), rng.range(-2, 2)};
  relations<int, int>({v[0], v[1]}, {v[2], v[3]}, {v[0], v[1]}, {v[2], v[3]}, "integers");
  relations<int, double>({v[0], v[1] * 0.5}, {v[2], v[3] * 0.5}, {v[0], v[1] * 0.5}, {v[2], v[3] * 0.5}, "an integer and a number");
  double const nan = std::numeric_limits<double>::quiet_NaN();
  double const x = rng.chance(0.3) ? nan : v[0];
  double const y = rng.chance(0.3) ? nan : v[2];
  um2::Pair<double, int> const s(x, v[1]);
  um2::Pair<double, int> const t(y, v[3]);
  if (x == x && y == y) {
    relations<double, int>({x, v[1]}, {y, v[3]}, {x, v[1]}, {y, v[3]}, "a number and an integer");
  } else {
    VH(!(s == t) && s != t, "pair.relations", "pairs that are not numbers are equal");
  }
  Part const p(v[0]);
  Part const q(v[1]);
  um2::Pair<Part, Part> a(p, q);
  VH(*a.first.p == v[0] && *a.second.p == v[1] && p.p && q.p && *p.p == v[0], "pair.content", "a pair does not hold its parts");
  um2::Pair<Part, Part> b(a);
  VH(b == a && b.first.p != a.first.p, "pair.content", "a copy differs or shares");
  um2::Pair<Part, Part> c(std::move(b));
  VH(c == a, "pair.content", "moving changes a pair");
  um2::Pair<Part, Part> d{Part(v[2]), Part(v[3])};
  VH(*d.first.p == v[2] && *d.second.p == v[3], "pair.content", "a pair of temporary parts differs");
  d = c;
  VH(d == a && c == a, "pair.content", "assignment changes a pair");
  c = um2::Pair<Part, Part>(Part(v[3]), Part(v[2]));
  VH(*c.first.p == v[3] && *c.second.p == v[2] && d == a, "pair.content", "assignment of a temporary pair differs");
  um2::Pair<um2::String, int> const e(um2::String("a part that is too long to be stored inside"), v[0]);
  um2::Pair<um2::String, int> const f(e);
  VH(f == e && f.first == um2::String("a part that is too long to be stored inside"), "pair.content", "text in a pair differs");
  // exchange
  int m = v[0];
  int n = v[1];
  um2::swap(m, n);
  VH(m == v[1] && n == v[0], "swap", "swap of %d and %d", v[0], v[1]);
  double h[5];
  double k[5];
  for (int i = 0; i < 5; ++i) {
    h[i] = i + v[2];
    k[i] = 10 * i + v[3];
  }
  um2::swap(h, k);
  for (int i = 0; i < 5; ++i) {
    VH(k[i] == i + v[2] && h[i] == 10 * i + v[3], "swap", "element %d of swapped arrays", i);
  }
  vh::count("pairs");
}

static void
bytes(vh::Rng & rng)
{
  size_t const n = (size_t)rng.range(0, 40);
  auto a = std::make_unique<char[]>(n + 1);
  auto b = std::make_unique<unsigned char[]>(n + 1);
  for (size_t i = 0; i < n; ++i) {
    a[i] = (char)rng.range(1, 255);
    b[i] = (unsigned char)a[i];
  }
  if (n > 0 && rng.chance(0.7)) {
    b[(size_t)rng.range(0, (int)n - 1)] = (unsigned char)rng.range(0, 255);
  }
  int const want = std::memcmp(a.get(), b.get(), n);
  int const got = um2::memcmp(a.get(), b.get(), n);
  int const back = um2::memcmp(b.get(), a.get(), n);
  VH((want < 0) == (got < 0) && (want > 0) == (got > 0) && (want < 0) == (back > 0) && (want > 0) == (back < 0), "bytes.compare", "%zu bytes: %d, reversed %d, expected %d", n, got, back, want);
  VH(um2::strlen(a.get()) == std::strlen(a.get()), "bytes.length", "length of %zu bytes", n);
  if (n > 0) {
    size_t const lo = (size_t)rng.range(0, (int)n);
    size_t const hi = (size_t)rng.range((int)lo, (int)n);
    size_t const at = (size_t)rng.range(0, (int)n);
    VH(um2::is_pointer_in_range(a.get() + lo, a.get() + hi, a.get() + at) == (lo <= at && at < hi), "bytes.range", "%zu in [%zu, %zu)", at, lo, hi);
  }
  vh::count("bytes");
}

struct Named {
  char const * name;
  um2::Color c;
  unsigned rgb;
};

static void
colours(vh::Rng & rng)
{
  int v[4];
  for (int & x : v) {
    x = rng.chance(0.2) ? rng.pick(std::vector<int>{0, 255, 128, 127}) : rng.range(0, 255);
  }
  um2::Color const c(v[0], v[1], v[2], v[3]);
  VH(c.r() == v[0] && c.g() == v[1] && c.b() == v[2] && c.a() == v[3], "colour.parts", "parts of %d %d %d %d", v[0], v[1], v[2], v[3]);
  um2::Color const o(v[0], v[1], v[2]);
  VH(o.r() == v[0] && o.g() == v[1] && o.b() == v[2] && o.a() == 255, "colour.opaque", "a colour without opacity is not opaque");
  um2::Color const none;
  VH(none == um2::black && none.a() == 255, "colour.default", "the default is not opaque black");
  // equal exactly if all parts are
  int w[4] = {v[0], v[1], v[2], v[3]};
  if (rng.chance(0.7)) {
    w[rng.range(0, 3)] = rng.range(0, 255);
  }
  um2::Color const d(w[0], w[1], w[2], w[3]);
  bool const same = v[0] == w[0] && v[1] == w[1] && v[2] == w[2] && v[3] == w[3];
  VH((c == d) == same && (c != d) == !same && (d == c) == same, "colour.equal", "%d %d %d %d and %d %d %d %d", v[0], v[1], v[2], v[3], w[0], w[1], w[2], w[3]);
  // fractions
  double const f[4] = {rng.uni(0, 1), rng.uni(0, 1), rng.chance(0.5) ? 0.0 : 1.0, rng.uni(0, 1)};
  um2::Color const g(f[0], f[1], f[2], f[3]);
  um2::Color const h((float)f[0], (float)f[1], (float)f[2]);
  int const parts[4] = {g.r(), g.g(), g.b(), g.a()};
  for (int i = 0; i < 4; ++i) {
    VH(std::fabs(parts[i] - 255 * f[i]) <= 1 && parts[i] >= 0 && parts[i] <= 255, "colour.fraction", "fraction %.17g gives %d of 255", f[i], parts[i]);
  }
  VH(g.b() == (int)(255 * f[2]), "colour.fraction", "fraction %g gives %d", f[2], g.b());
  VH(h.a() == 255 && std::fabs(h.r() - 255 * f[0]) <= 1 && std::fabs(h.g() - 255 * f[1]) <= 1 && std::fabs(h.b() - 255 * f[2]) <= 1, "colour.fraction", "single precision");
  // names
  static Named const named[] = {
      {"aliceblue", um2::aliceblue, 0xf0f8ff}, {"antiquewhite", um2::antiquewhite, 0xfaebd7}, {"aqua", um2::aqua, 0x00ffff}, {"aquamarine", um2::aquamarine, 0x7fffd4},
      {"azure", um2::azure, 0xf0ffff}, {"beige", um2::beige, 0xf5f5dc}, {"bisque", um2::bisque, 0xffe4c4}, {"black", um2::black, 0x000000},
      {"blanchedalmond", um2::blanchedalmond, 0xffebcd}, {"blue", um2::blue, 0x0000ff}, {"blueviolet", um2::blueviolet, 0x8a2be2}, {"brown", um2::brown, 0xa52a2a},
      {"burlywood", um2::burlywood, 0xdeb887}, {"cadetblue", um2::cadetblue, 0x5f9ea0}, {"chartreuse", um2::chartreuse, 0x7fff00}, {"chocolate", um2::chocolate, 0xd2691e},
      {"coral", um2::coral, 0xff7f50}, {"cornflowerblue", um2::cornflowerblue, 0x6495ed}, {"cornsilk", um2::cornsilk, 0xfff8dc}, {"crimson", um2::crimson, 0xdc143c},
      {"cyan", um2::cyan, 0x00ffff}, {"darkblue", um2::darkblue, 0x00008b}, {"darkcyan", um2::darkcyan, 0x008b8b}, {"darkgoldenrod", um2::darkgoldenrod, 0xb8860b},
      {"darkgray", um2::darkgray, 0xa9a9a9}, {"darkgreen", um2::darkgreen, 0x006400}, {"darkgrey", um2::darkgrey, 0xa9a9a9}, {"darkkhaki", um2::darkkhaki, 0xbdb76b},
      {"darkmagenta", um2::darkmagenta, 0x8b008b}, {"darkolivegreen", um2::darkolivegreen, 0x556b2f}, {"darkorange", um2::darkorange, 0xff8c00}, {"darkorchid", um2::darkorchid, 0x9932cc},
      {"darkred", um2::darkred, 0x8b0000}, {"darksalmon", um2::darksalmon, 0xe9967a}, {"darkseagreen", um2::darkseagreen, 0x8fbc8f}, {"darkslateblue", um2::darkslateblue, 0x483d8b},
      {"darkslategray", um2::darkslategray, 0x2f4f4f}, {"darkslategrey", um2::darkslategrey, 0x2f4f4f}, {"darkturquoise", um2::darkturquoise, 0x00ced1}, {"darkviolet", um2::darkviolet, 0x9400d3},
      {"deeppink", um2::deeppink, 0xff1493}, {"deepskyblue", um2::deepskyblue, 0x00bfff}, {"dimgray", um2::dimgray, 0x696969}, {"dimgrey", um2::dimgrey, 0x696969},
      {"dodgerblue", um2::dodgerblue, 0x1e90ff}, {"firebrick", um2::firebrick, 0xb22222}, {"floralwhite", um2::floralwhite, 0xfffaf0}, {"forestgreen", um2::forestgreen, 0x228b22},
      {"fuchsia", um2::fuchsia, 0xff00ff}, {"gainsboro", um2::gainsboro, 0xdcdcdc}, {"ghostwhite", um2::ghostwhite, 0xf8f8ff}, {"gold", um2::gold, 0xffd700},
      {"goldenrod", um2::goldenrod, 0xdaa520}, {"gray", um2::gray, 0x808080}, {"green", um2::green, 0x008000}, {"greenyellow", um2::greenyellow, 0xadff2f},
      {"grey", um2::grey, 0x808080}, {"honeydew", um2::honeydew, 0xf0fff0}, {"hotpink", um2::hotpink, 0xff69b4}, {"indianred", um2::indianred, 0xcd5c5c},
      {"indigo", um2::indigo, 0x4b0082}, {"ivory", um2::ivory, 0xfffff0}, {"khaki", um2::khaki, 0xf0e68c}, {"lavender", um2::lavender, 0xe6e6fa},
      {"lavenderblush", um2::lavenderblush, 0xfff0f5}, {"lawngreen", um2::lawngreen, 0x7cfc00}, {"lemonchiffon", um2::lemonchiffon, 0xfffacd}, {"lightblue", um2::lightblue, 0xadd8e6},
      {"lightcoral", um2::lightcoral, 0xf08080}, {"lightcyan", um2::lightcyan, 0xe0ffff}, {"lightgoldenrodyellow", um2::lightgoldenrodyellow, 0xfafad2}, {"lightgray", um2::lightgray, 0xd3d3d3},
      {"lightgreen", um2::lightgreen, 0x90ee90}, {"lightgrey", um2::lightgrey, 0xd3d3d3}, {"lightpink", um2::lightpink, 0xffb6c1}, {"lightsalmon", um2::lightsalmon, 0xffa07a},
      {"lightseagreen", um2::lightseagreen, 0x20b2aa}, {"lightskyblue", um2::lightskyblue, 0x87cefa}, {"lightslateblue", um2::lightslateblue, 0x8470ff}, {"lightslategray", um2::lightslategray, 0x778899},
      {"lightslategrey", um2::lightslategrey, 0x778899}, {"lightsteelblue", um2::lightsteelblue, 0xb0c4de}, {"lightyellow", um2::lightyellow, 0xffffe0}, {"lime", um2::lime, 0x00ff00},
      {"limegreen", um2::limegreen, 0x32cd32}, {"linen", um2::linen, 0xfaf0e6}, {"magenta", um2::magenta, 0xff00ff}, {"maroon", um2::maroon, 0x800000},
      {"mediumaquamarine", um2::mediumaquamarine, 0x66cdaa}, {"mediumblue", um2::mediumblue, 0x0000cd}, {"mediumorchid", um2::mediumorchid, 0xba55d3}, {"mediumpurple", um2::mediumpurple, 0x9370db},
      {"mediumseagreen", um2::mediumseagreen, 0x3cb371}, {"mediumslateblue", um2::mediumslateblue, 0x7b68ee}, {"mediumspringgreen", um2::mediumspringgreen, 0x00fa9a}, {"mediumturquoise", um2::mediumturquoise, 0x48d1cc},
      {"mediumvioletred", um2::mediumvioletred, 0xc71585}, {"midnightblue", um2::midnightblue, 0x191970}, {"mintcream", um2::mintcream, 0xf5fffa}, {"mistyrose", um2::mistyrose, 0xffe4e1},
      {"moccasin", um2::moccasin, 0xffe4b5}, {"navajowhite", um2::navajowhite, 0xffdead}, {"navy", um2::navy, 0x000080}, {"oldlace", um2::oldlace, 0xfdf5e6},
      {"olive", um2::olive, 0x808000}, {"olivedrab", um2::olivedrab, 0x6b8e23}, {"orange", um2::orange, 0xffa500}, {"orangered", um2::orangered, 0xff4500},
      {"orchid", um2::orchid, 0xda70d6}, {"palegoldenrod", um2::palegoldenrod, 0xeee8aa}, {"palegreen", um2::palegreen, 0x98fb98}, {"paleturquoise", um2::paleturquoise, 0xafeeee},
      {"palevioletred", um2::palevioletred, 0xdb7093}, {"papayawhip", um2::papayawhip, 0xffefd5}, {"peachpuff", um2::peachpuff, 0xffdab9}, {"peru", um2::peru, 0xcd853f},
      {"pink", um2::pink, 0xffc0cb}, {"plum", um2::plum, 0xdda0dd}, {"powderblue", um2::powderblue, 0xb0e0e6}, {"purple", um2::purple, 0x800080},
      {"red", um2::red, 0xff0000}, {"rosybrown", um2::rosybrown, 0xbc8f8f}, {"royalblue", um2::royalblue, 0x4169e1}, {"saddlebrown", um2::saddlebrown, 0x8b4513},
      {"salmon", um2::salmon, 0xfa8072}, {"sandybrown", um2::sandybrown, 0xf4a460}, {"seagreen", um2::seagreen, 0x2e8b57}, {"seashell", um2::seashell, 0xfff5ee},
      {"sienna", um2::sienna, 0xa0522d}, {"silver", um2::silver, 0xc0c0c0}, {"skyblue", um2::skyblue, 0x87ceeb}, {"slateblue", um2::slateblue, 0x6a5acd},
      {"slategray", um2::slategray, 0x708090}, {"slategrey", um2::slategrey, 0x708090}, {"snow", um2::snow, 0xfffafa}, {"springgreen", um2::springgreen, 0x00ff7f},
      {"steelblue", um2::steelblue, 0x4682b4}, {"tan", um2::tan, 0xd2b48c}, {"teal", um2::teal, 0x008080}, {"thistle", um2::thistle, 0xd8bfd8},
      {"tomato", um2::tomato, 0xff6347}, {"turquoise", um2::turquoise, 0x40e0d0}, {"violet", um2::violet, 0xee82ee}, {"wheat", um2::wheat, 0xf5deb3},
      {"white", um2::white, 0xffffff}, {"whitesmoke", um2::whitesmoke, 0xf5f5f5}, {"yellow", um2::yellow, 0xffff00}, {"yellowgreen", um2::yellowgreen, 0x9acd32},
  };
  Named const & n = named[rng.range(0, (int)(sizeof(named) / sizeof(named[0])) - 1)];
  VH(n.c == um2::Color((int)(n.rgb >> 16), (int)(n.rgb >> 8 & 255), (int)(n.rgb & 255)), "colour.name", "%s is %d %d %d %d", n.name, n.c.r(), n.c.g(), n.c.b(), n.c.a());
  vh::count("colours");
}

int
main(int argc, char ** argv)
{
  return vh::run(argc, argv, "elem", [](vh::Rng & rng, uint64_t i) {
    for (int k = 0; k < 10; ++k) {
      functions<double>(rng);
      functions<float>(rng);
    }
    pairs(rng);
    bytes(rng);
    colours(rng);
    if (i % 97 == 0) {
      vh::sample(vh::fmt("batch %llu", (unsigned long long)i));
    }
  });
}
