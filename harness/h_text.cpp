// C34: text conversions against the C library.
#include "vh.hpp"
#include <um2/common/string_to_lattice.hpp>
#include <um2/common/strto.hpp>
#include <um2/mpact/model.hpp>

#include <inttypes.h>


using um2::String;

static std::string
numberText(vh::Rng & rng)
{
  std::string s;
  switch (rng.range(0, 5)) {
  case 0:
    s = vh::fmt("%d", static_cast<int>(rng.next() >> rng.range(32, 63)) * (rng.chance(0.5) ? 1 : -1));
    break;
  case 1:
    s = vh::fmt("%.*e", rng.range(0, 17), rng.sign() * rng.logu(1e-300, 1e300));
    break;
  case 2:
    s = vh::fmt("%.*f", rng.range(0, 12), rng.sign() * rng.logu(1e-6, 1e9));
    break;
  case 3:
    s = vh::fmt("%.*g", rng.range(1, 17), rng.sign() * rng.logu(1e-30, 1e30));
    break;
  case 4:
    s = vh::fmt("%+" PRId64, static_cast<int64_t>(rng.next() >> rng.range(0, 63)));
    break;
  default:
    s = vh::fmt("%s%dE%+03d", rng.chance(0.5) ? "-." : ".", rng.range(0, 99999), rng.range(-30, 30));
  }
  std::string lead(static_cast<size_t>(rng.range(0, 3)), ' ');
  std::string trail = rng.pick(std::vector<std::string>{"", " ", ",3", " 12", "abc", "\n4", "-1"});
  return lead + s + trail;
}

template <class T>
static void
conv(std::string const & t, T want, char * wend)
{
  char * end = nullptr;
  T const got = um2::strto<T>(t.c_str(), &end);
  VH(got == want && end == wend, "text.strto", "'%s' as %zu-byte", t.c_str(), sizeof(T));
  vh::count("numbers parsed");
}

static void
numbers(vh::Rng & rng)
{
  for (int k = 0; k < 10; ++k) {
    std::string const t = numberText(rng);
    char * e = nullptr;
    float const f = std::strtof(t.c_str(), &e);
    conv<float>(t, f, e);
    double const d = std::strtod(t.c_str(), &e);
    conv<double>(t, d, e);
    long const l = std::strtol(t.c_str(), &e, 10);
    conv<int64_t>(t, l, e);
    if (l >= INT32_MIN && l <= INT32_MAX) {
      conv<int32_t>(t, static_cast<int32_t>(l), e);
    }
    if (t.find('-') == std::string::npos) {
      unsigned long const u = std::strtoul(t.c_str(), &e, 10);
      conv<uint64_t>(t, u, e);
      if (u <= UINT32_MAX) {
        conv<uint32_t>(t, static_cast<uint32_t>(u), e);
      }
    }
  }
  // integers to text and back
  auto const i64 = static_cast<int64_t>(rng.next() >> rng.range(0, 63)) * (rng.chance(0.5) ? 1 : -1);
  auto const i32 = static_cast<int32_t>(static_cast<uint32_t>(rng.next()) >> rng.range(0, 31));
  for (int64_t const v : {i64, INT64_MAX, INT64_MIN, int64_t(0)}) {
    String const s(v);
    VH(std::string(s.data()) == std::to_string(v) && um2::strto<int64_t>(s.data(), nullptr) == v, "text.int64", "%" PRId64, v);
  }
  for (int32_t const v : {i32, INT32_MAX, INT32_MIN, -1}) {
    String const s(v);
    VH(std::string(s.data()) == std::to_string(v) && um2::strto<int32_t>(s.data(), nullptr) == v, "text.int32", "%d", v);
  }
}

static void
labels(vh::Rng & rng)
{
  int const width = rng.range(1, 9);
  std::string prefix(static_cast<size_t>(rng.range(0, 25)), 'x');
  for (auto & c : prefix) {
    c = static_cast<char>(rng.range('A', '_'));
  }
  long limit = 1;
  for (int k = 0; k < width; ++k) {
    limit *= 10;
  }
  long v = rng.range(0, static_cast<int>(std::min(limit - 2, 2000000000L)));
  if (rng.chance(0.5)) { // just before a carry of random length
    long p = 1;
    for (int k = rng.range(1, width); k > 0; --k) {
      p *= 10;
    }
    v = v / p * p + p - rng.range(1, 3);
  }
  v = std::max(0L, std::min(v, limit - 4));
  std::string ss = prefix + vh::fmt("%0*ld", width, v);
  String us(ss.c_str());
  for (int k = 0; k < 3 && v + 1 < limit; ++k) {
    ++v;
    um2::mpact::incrementASCIINumber(ss);
    um2::mpact::incrementASCIINumber(us);
    std::string const want = prefix + vh::fmt("%0*ld", width, v);
    VH(ss == want && std::string(us.data()) == want, "text.increment", "'%s' expected '%s'", us.data(), want.c_str());
    vh::count("labels incremented");
  }
}

template <class T>
static void
lattice(vh::Rng & rng)
{
  char const delim = rng.pick(std::vector<char>{' ', ' ', ','});
  int const rows = rng.range(1, 8);
  int const cols = rng.range(1, 10);
  std::vector<std::vector<T>> want;
  std::string s;
  auto spaces = [&](int lo, int hi) { return std::string(static_cast<size_t>(rng.range(lo, hi)), ' '); };
  for (int k = rng.range(0, 2); k > 0; --k) {
    s += rng.chance(0.5) ? "\n" : spaces(0, 3) + "\n";
  }
  for (int r = 0; r < rows; ++r) {
    std::vector<T> row;
    s += spaces(0, 4);
    for (int c = 0; c < cols; ++c) {
      std::string tok;
      if constexpr (std::is_floating_point_v<T>) {
        tok = vh::fmt("%.*g", rng.range(1, 12), rng.sign() * rng.logu(1e-5, 1e5));
        row.push_back(static_cast<T>(std::strtod(tok.c_str(), nullptr)));
      } else {
        int const lo = std::is_signed_v<T> ? -1 : 0;
        int const v = rng.range(lo, 120);
        tok = std::to_string(v);
        row.push_back(static_cast<T>(v));
      }
      s += tok;
      if (c + 1 < cols) {
        s += delim == ' ' ? spaces(1, 4) : spaces(0, 2) + "," + spaces(0, 2);
      }
    }
    s += spaces(0, 3);
    want.push_back(row);
    if (r + 1 < rows) {
      s += "\n";
      if (rng.chance(0.15)) {
        s += spaces(0, 3) + "\n";
      }
    }
  }
  for (int k = rng.range(0, 2); k > 0; --k) {
    s += "\n" + spaces(0, 3);
  }
  auto const got = um2::stringToLattice<T>(String(s.c_str()), delim);
  bool ok = got.size() == rows;
  for (int r = 0; r < rows && ok; ++r) {
    ok = got[r].size() == cols;
    for (int c = 0; c < cols && ok; ++c) {
      ok = got[r][c] == want[static_cast<size_t>(r)][static_cast<size_t>(c)];
    }
  }
  VH(ok, "text.lattice", "%d x %d delim '%c' got %d rows: %s", rows, cols, delim, got.size(), s.c_str());
  vh::count("lattices parsed");
  vh::nontrivial(vh::hashStr(s));
  vh::sample(s);
}

int
main(int argc, char ** argv)
{
  return vh::run(argc, argv, "text", [](vh::Rng & rng, uint64_t i) {
    if (i < 100) { // all five-digit ids
      for (int k = 0; k < 1000; ++k) {
        int const v = static_cast<int>(i) * 1000 + k;
        String s = um2::mpact::getASCIINumber(v);
        VH(std::string(s.data()) == vh::fmt("%05d", v), "text.id", "%d -> '%s'", v, s.data());
        if (v < 99999) {
          um2::mpact::incrementASCIINumber(s);
          VH(std::string(s.data()) == vh::fmt("%05d", v + 1), "text.increment", "%d + 1 -> '%s'", v, s.data());
        }
        vh::count("ids formatted");
      }
    }
    numbers(rng);
    labels(rng);
    switch (i % 4) {
    case 0:
      return lattice<int32_t>(rng);
    case 1:
      return lattice<double>(rng);
    case 2:
      return lattice<uint32_t>(rng);
    default:
      return lattice<int64_t>(rng);
    }
  });
}
