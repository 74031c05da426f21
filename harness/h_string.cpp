// C02: histories of string operations against std::string, and queries on views over
// exactly sized heap buffers against std::string_view.
#include "vh.hpp"
#include <um2/stdlib/string.hpp>
#include <um2/stdlib/string_view.hpp>

#include <memory>
#include <string_view>

using um2::String;
using um2::StringView;

static int
sgn(int x)
{
  return (x > 0) - (x < 0);
}

static std::string
show(std::string const & s)
{
  std::string r;
  for (unsigned char const c : s) {
    r += (c >= 32 && c < 127) ? std::string(1, static_cast<char>(c)) : vh::fmt("\\x%02x", c);
  }
  return "'" + r + "'";
}

static std::string
randText(vh::Rng & rng, bool nul)
{
  int n = 0;
  switch (rng.range(0, 5)) {
  case 0:
    n = rng.range(0, 3);
    break;
  case 1:
  case 2:
    n = rng.range(19, 26);
    break;
  case 3:
    n = rng.range(40, 50);
    break;
  case 4:
    n = rng.range(0, 22);
    break;
  default:
    n = rng.range(0, 300);
  }
  int const style = rng.range(0, 3);
  std::string s;
  for (int i = 0; i < n; ++i) {
    unsigned char c = 0;
    if (style == 0) {
      c = static_cast<unsigned char>(rng.range('a', 'c'));
    } else if (style == 1) {
      c = static_cast<unsigned char>(rng.range(1, 255));
    } else if (style == 2) {
      c = static_cast<unsigned char>(rng.chance(0.5) ? 'a' : 0xe9);
    } else {
      c = static_cast<unsigned char>(rng.range(' ', '~'));
    }
    if (nul && rng.chance(0.05)) {
      c = 0;
    }
    s.push_back(static_cast<char>(c));
  }
  return s;
}

// a view whose characters end exactly at the end of a heap block
struct Buf {
  std::unique_ptr<char[]> p;
  size_t n;
  explicit Buf(std::string const & s) : p(new char[s.size()]), n(s.size())
  {
    memcpy(p.get(), s.data(), n);
  }
  StringView
  view() const
  {
    return n == 0 ? StringView() : StringView(p.get(), static_cast<uint64_t>(n));
  }
};

static void
histories(vh::Rng & rng)
{
  std::string log;
  bool crossed = false;
  {
    String s[3];
    std::string m[3];
    int const nops = rng.range(4, 40);
    for (int it = 0; it < nops; ++it) {
      int const a = rng.range(0, 2);
      int const b = rng.range(0, 2);
      auto const A = static_cast<size_t>(a);
      auto const B = static_cast<size_t>(b);
      bool const was_long = m[A].size() > 22;
      char const * op = "";
      std::string t;
      switch (rng.range(0, 17)) {
      case 0: {
        op = "from_cstr";
        t = randText(rng, false);
        s[a] = String(t.c_str());
        m[A] = t;
        break;
      }
      case 1: {
        op = "from_view";
        t = randText(rng, true);
        Buf const buf(t);
        s[a] = String(buf.view());
        m[A] = t;
        break;
      }
      case 2: {
        op = "assign_view";
        t = randText(rng, true);
        Buf const buf(t);
        s[a].assign(buf.view());
        m[A] = t;
        break;
      }
      case 3:
        op = "copy_assign";
        s[a] = s[b];
        m[A] = m[B];
        break;
      case 4:
        op = "move_assign";
        if (a != b) {
          s[a] = um2::move(s[b]);
          m[A] = m[B];
          VH(s[b].empty() && s[b].data()[0] == 0, "string.moved_from", "moved-from string not empty: %s", log.c_str());
          m[B].clear();
        }
        break;
      case 5: {
        op = "copy_ctor";
        String c(s[b]);
        s[a] = um2::move(c);
        m[A] = m[B];
        break;
      }
      case 6: {
        op = "append_n";
        t = randText(rng, true);
        Buf const buf(t);
        if (!t.empty()) {
          s[a].append(buf.p.get(), static_cast<Int>(t.size()));
        }
        m[A] += t;
        break;
      }
      case 7: {
        op = "append_cstr";
        t = randText(rng, false);
        s[a] += t.c_str();
        m[A] += t;
        break;
      }
      case 8:
      case 9:
        if (m[A].size() + m[B].size() < 5000) {
          op = a == b ? "append_self" : "append_string";
          s[a] += s[b];
          m[A] += std::string(m[B]);
        }
        break;
      case 10: {
        op = "concat";
        if (m[B].size() < 2500) {
          if (rng.chance(0.5)) {
            s[a] = s[b] + s[b];
            m[A] = std::string(m[B]) + m[B];
          } else {
            t = randText(rng, false);
            s[a] = s[b] + t.c_str();
            m[A] = m[B] + t;
          }
        }
        break;
      }
      case 11: {
        op = "substr";
        int const n = static_cast<int>(m[B].size());
        int const pos = rng.range(0, n);
        if (rng.chance(0.3)) {
          s[a] = s[b].substr(pos);
          m[A] = std::string(m[B].substr(static_cast<size_t>(pos)));
        } else {
          int const cnt = rng.range(0, n + 3);
          s[a] = s[b].substr(pos, cnt);
          m[A] = std::string(m[B].substr(static_cast<size_t>(pos), static_cast<size_t>(cnt)));
        }
        break;
      }
      case 12: {
        op = "slice_ctor";
        int const n = static_cast<int>(m[B].size());
        int const pos = rng.range(0, n);
        int const cnt = rng.range(0, n - pos + 4);
        String c(s[b], pos, cnt);
        s[a] = c;
        m[A] = std::string(m[B].substr(static_cast<size_t>(pos), static_cast<size_t>(cnt)));
        break;
      }
      case 13:
        op = "self_assign";
        s[a] = *&s[a];
        break;
      case 14:
        op = "write";
        if (!m[A].empty()) {
          auto const i = static_cast<size_t>(rng.range(0, static_cast<int>(m[A].size()) - 1));
          char const c = static_cast<char>(rng.range(1, 255));
          s[a].data()[i] = c;
          m[A][i] = c;
          s[a].back() = s[a].back();
          s[a].front() = 'q';
          m[A].front() = 'q';
        }
        break;
      case 15: {
        op = "from_int";
        if (rng.chance(0.5)) {
          auto const v = static_cast<int32_t>(rng.next() >> rng.range(0, 63));
          s[a] = String(v);
          m[A] = std::to_string(v);
        } else {
          auto const v = static_cast<int64_t>(rng.next() >> rng.range(0, 63));
          s[a] = String(v);
          m[A] = std::to_string(v);
        }
        break;
      }
      case 16: {
        op = "from_float";
        double const v = rng.chance(0.2) ? rng.sign() * rng.logu(1e-300, 1e300) : rng.sign() * rng.logu(1e-8, 1e20);
        if (rng.chance(0.7)) {
          s[a] = String(v);
          m[A] = std::to_string(v);
        } else {
          auto const f = static_cast<float>(rng.sign() * rng.logu(1e-30, 3e38));
          s[a] = String(f);
          m[A] = std::to_string(f);
        }
        break;
      }
      default: {
        op = "reset";
        s[a] = String();
        m[A].clear();
      }
      }
      crossed = crossed || (was_long != (m[A].size() > 22));
      log += vh::fmt(" %s(%d,%d,%zu)", op, a, b, t.size());
      vh::count(std::string("op ") + op);
      for (size_t i = 0; i < 3; ++i) {
        auto const & x = s[i];
        bool const ok = x.size() == static_cast<int>(m[i].size()) && x.empty() == m[i].empty() &&
                        memcmp(x.data(), m[i].data(), m[i].size()) == 0 && x.data()[m[i].size()] == '\0' &&
                        x.capacity() >= x.size() && x.end() - x.begin() == x.size();
        if (!ok) {
          vh::fail("string.content", "string %zu is %s, expected %s after%s", i, show(std::string(x.data(), static_cast<size_t>(x.size()))).c_str(),
                   show(m[i]).c_str(), log.c_str());
          return;
        }
      }
      // queries
      auto const & x = s[a];
      auto const & y = s[b];
      int const c = sgn(m[A].compare(m[B]));
      VH(sgn(x.compare(y)) == c && (x == y) == (c == 0) && (x != y) == (c != 0) && (x < y) == (c < 0) &&
             (x <= y) == (c <= 0) && (x > y) == (c > 0) && (x >= y) == (c >= 0),
         "string.compare", "%s vs %s", show(m[A]).c_str(), show(m[B]).c_str());
      std::string needle = rng.chance(0.5) && !m[A].empty()
                               ? (rng.chance(0.5) ? m[A].substr(0, static_cast<size_t>(rng.range(0, static_cast<int>(m[A].size()))))
                                                  : m[A].substr(static_cast<size_t>(rng.range(0, static_cast<int>(m[A].size())))))
                               : randText(rng, false);
      if (rng.chance(0.3) && !needle.empty()) {
        needle[static_cast<size_t>(rng.range(0, static_cast<int>(needle.size()) - 1))] ^= 1;
      }
      Buf const nb(needle);
      VH(x.starts_with(nb.view()) == m[A].starts_with(needle), "string.starts_with", "%s %s", show(m[A]).c_str(), show(needle).c_str());
      VH(x.ends_with(nb.view()) == m[A].ends_with(needle), "string.ends_with", "%s %s", show(m[A]).c_str(), show(needle).c_str());
      if (needle.find('\0') == std::string::npos) {
        VH(x.starts_with(needle.c_str()) == m[A].starts_with(needle), "string.starts_with_cstr", "%s %s", show(m[A]).c_str(), show(needle).c_str());
        VH(x.ends_with(needle.c_str()) == m[A].ends_with(needle), "string.ends_with_cstr", "%s %s", show(m[A]).c_str(), show(needle).c_str());
        VH(sgn(x.compare(needle.c_str())) == sgn(m[A].compare(needle)), "string.compare_cstr", "%s %s", show(m[A]).c_str(), show(needle).c_str());
      }
      char const ch = needle.empty() || needle[0] == 0 ? 'a' : needle[0];
      VH(x.starts_with(ch) == m[A].starts_with(ch) && x.ends_with(ch) == m[A].ends_with(ch), "string.starts_with_char", "%s", show(m[A]).c_str());
      int const pos = rng.range(0, static_cast<int>(m[A].size()) + 2);
      bool const dflt = rng.chance(0.3);
      size_t const want = dflt ? m[A].find_last_of(ch) : m[A].find_last_of(ch, static_cast<size_t>(pos));
      int const got = dflt ? x.find_last_of(ch) : x.find_last_of(ch, pos);
      VH(got == (want == std::string::npos ? String::npos : static_cast<int>(want)), "string.find_last_of", "%s '%c' pos %d", show(m[A]).c_str(), ch, pos);
    }
  }
  if (crossed) {
    vh::count("histories crossing the inline limit");
    vh::nontrivial(vh::hashStr(log));
  }
  vh::sample(log);
}

static void
views(vh::Rng & rng)
{
  std::string t = randText(rng, true);
  char const delim = rng.pick(std::vector<char>{' ', ',', '\n', 'a', '\t'});
  for (auto & c : t) {
    if (rng.chance(0.3)) {
      c = delim;
    } else if (rng.chance(0.15)) {
      c = ' ';
    }
  }
  Buf const buf(t);
  StringView const v = buf.view();
  std::string_view const m(t);
  auto const n = m.size();
  auto eq = [](StringView a, std::string_view b) {
    return a.size() == b.size() && (b.empty() || memcmp(a.data(), b.data(), b.size()) == 0);
  };
  // search
  for (int k = 0; k < 6; ++k) {
    char const c = rng.chance(0.6) && n > 0 ? t[static_cast<size_t>(rng.range(0, static_cast<int>(n) - 1))] : static_cast<char>(rng.range(0, 255));
    auto const pos = static_cast<uint64_t>(rng.range(0, static_cast<int>(n) + 2));
    VH(v.find_first_of(c, pos) == m.find_first_of(c, pos), "view.find_first_of", "%s %d %lu", show(t).c_str(), c, pos);
    VH(v.find_first_not_of(c, pos) == m.find_first_not_of(c, pos), "view.find_first_not_of", "%s %d %lu", show(t).c_str(), c, pos);
    VH(v.find_last_of(c, pos) == m.find_last_of(c, pos), "view.find_last_of", "%s %d %lu", show(t).c_str(), c, pos);
    VH(v.find_last_of(c) == m.find_last_of(c), "view.find_last_of", "%s %d", show(t).c_str(), c);
    // multi-character search: position of the first occurrence of the whole pattern
    std::string pat = rng.chance(0.7) && n > 0 ? t.substr(static_cast<size_t>(rng.range(0, static_cast<int>(n) - 1)), static_cast<size_t>(rng.range(1, 5)))
                                                : randText(rng, true);
    if (rng.chance(0.2) && !pat.empty()) {
      pat.back() ^= 2;
    }
    if (!pat.empty()) {
      Buf const pb(pat);
      VH(v.find_first_of(pb.view(), pos) == m.find(pat, pos), "view.find_pattern", "%s in %s from %lu", show(pat).c_str(), show(t).c_str(), pos);
      VH(v.find_first_of(pb.p.get(), pos, pat.size()) == m.find(pat, pos), "view.find_pattern_n", "%s in %s from %lu", show(pat).c_str(), show(t).c_str(), pos);
      if (pat.find('\0') == std::string::npos) {
        VH(v.find_first_of(pat.c_str(), pos) == m.find(pat, pos), "view.find_pattern_cstr", "%s in %s from %lu", show(pat).c_str(), show(t).c_str(), pos);
      }
      VH(v.starts_with(pb.view()) == m.starts_with(pat) && v.ends_with(pb.view()) == m.ends_with(pat), "view.prefix_suffix", "%s %s", show(pat).c_str(), show(t).c_str());
      VH(sgn(v.compare(pb.view())) == sgn(m.compare(pat)), "view.compare", "%s %s", show(pat).c_str(), show(t).c_str());
      StringView const w = pb.view();
      VH((v == w) == (m == pat) && (v != w) == (m != pat) && (v < w) == (m < pat) && (v <= w) == (m <= pat) && (v > w) == (m > pat) && (v >= w) == (m >= pat),
         "view.relops", "%s %s", show(pat).c_str(), show(t).c_str());
    }
    if (pos <= n) {
      auto const cnt = static_cast<uint64_t>(rng.range(0, static_cast<int>(n - pos)));
      VH(eq(v.substr(pos, cnt), m.substr(pos, cnt)), "view.substr", "%s %lu %lu", show(t).c_str(), pos, cnt);
      Buf const pb(pat);
      VH(sgn(v.compare(pos, cnt, pb.view())) == sgn(m.compare(pos, cnt, pat)), "view.compare_sub", "%s %lu %lu %s", show(t).c_str(), pos, cnt, show(pat).c_str());
      StringView w = v;
      w.remove_prefix(pos);
      VH(eq(w, m.substr(pos)), "view.remove_prefix", "%s %lu", show(t).c_str(), pos);
    }
  }
  for (size_t i = 0; i < n; i += 7) {
    VH(v[static_cast<Int>(i)] == m[i], "view.index", "%s", show(t).c_str());
  }
  if (n > 0) {
    VH(v.front() == m.front() && v.back() == m.back(), "view.ends", "%s", show(t).c_str());
  }
  VH(v.size() == n && v.empty() == m.empty() && static_cast<size_t>(v.end() - v.begin()) == n, "view.size", "%s", show(t).c_str());
  // leading spaces
  {
    StringView w = v;
    w.removeLeadingSpaces();
    auto const p = m.find_first_not_of(' ');
    VH(eq(w, p == std::string_view::npos ? std::string_view() : m.substr(p)), "view.leading_spaces", "%s", show(t).c_str());
  }
  // tokens
  {
    StringView w = v;
    std::vector<std::string> want;
    std::string cur;
    for (char const c : t) {
      if (c == delim) {
        if (!cur.empty()) {
          want.push_back(cur);
        }
        cur.clear();
      } else {
        cur.push_back(c);
      }
    }
    if (!cur.empty()) {
      want.push_back(cur);
    }
    std::vector<std::string> got;
    for (size_t k = 0; k <= want.size() + 1; ++k) {
      StringView const tok = w.getTokenAndShrink(delim);
      if (tok.empty()) {
        break;
      }
      got.emplace_back(tok.data(), tok.size());
      // what is left must be a suffix of the original characters
      VH(w.empty() || w.data() + w.size() == v.data() + v.size(), "view.token_rest", "%s", show(t).c_str());
    }
    VH(got == want, "view.tokens", "%s by '%c': %zu tokens, expected %zu", show(t).c_str(), delim, got.size(), want.size());
    vh::count("tokens", static_cast<long>(want.size()));
    if (want.size() > 1) {
      vh::nontrivial(vh::hashStr(t) ^ static_cast<uint64_t>(delim));
    }
  }
}

int
main(int argc, char ** argv)
{
  return vh::run(argc, argv, "string", [](vh::Rng & rng, uint64_t i) {
    if (i % 3 == 0) {
      histories(rng);
    } else {
      views(rng);
    }
  });
}
