/* table.hh -- what a tag, frame or track ought to look like as a record. */
#pragma once

#include "files.hh"

#include <scribbu/pprinter.hh>
#include <scribbu/ostream.hh>
#include <scribbu/id3v1.hh>

namespace table {

  using namespace vt;
  using namespace gen;
  using scribbu::encoding;

  /// One column: its value, or several acceptable ones
  struct cell {
    std::vector<std::string> any;
    bool tags = false; // URL-encoded tags, to be compared when decoded
    ref::cloud cloud;
    std::string key;   // where a defect is known
    cell(const std::string &s): any({ s }) { }
    cell(const char *s): any({ s }) { }
    cell(const ref::cloud &c): tags(true), cloud(c) { }
    explicit cell(const std::vector<std::string> &v): any(v) { }
  };
  typedef std::vector<cell> row;

  inline std::string num(std::uint64_t n) { return std::to_string(n); }
  inline std::string hexed(const bytes &b)
  {
    static const char D[] = "0123456789abcdef";
    std::string s;
    for (auto x: b) { s += D[x >> 4]; s += D[x & 15]; }
    return s;
  }

  /// UTF-8 to what's on the stream
  inline std::string onto(const std::string &s, bool l1)
  {
    if (!l1) return s;
    ustr u;
    bytes b;
    if (!ref::from_utf8(s, u) || !ref::latin1(u, b)) throw std::logic_error("not Latin-1");
    return S(b);
  }

  /// Put characters that matter to the format into some text
  inline ustr spiced(source &s, ustr t, char sep)
  {
    if (s.chance(2, 5)) return t;
    std::size_t n = 1 + s.small(3);
    for (std::size_t i = 0; i < n; ++i) {
      char32_t c = s.pick<char32_t>({ (char32_t) sep, U'"', U'\n', U'\r', U'\t', 0x1f, U',' , U'*', U'\\' });
      t.insert(s.below(t.size() + 1), 1, c);
    }
    return t;
  }

  inline bytes ascii(source &s, char sep)
  {
    ustr t = spiced(s, gen::text(s, ASCII, 10), sep);
    bytes b;
    for (auto c: t) if (c) b.push_back((unsigned char) c);
    while (b.size() && b.back() == ' ') b.pop_back();
    return b;
  }

  /// Make a frame such as can be printed in whatever way
  inline void printable(source &s, int ver, fdesc &d, char sep, bool l1)
  {
    auto fit = [&](ustr &t) { if (l1 && !gen::fits(t, LATIN1)) t = gen::text(s, LATIN1, 12); };
    switch (d.k) {
    case kind::text: fit(d.text); d.text = spiced(s, d.text, sep); break;
    case kind::utext: case kind::comment:
      fit(d.text); fit(d.dsc);
      d.text = spiced(s, d.text, sep); d.dsc = spiced(s, d.dsc, sep);
      if (d.k == kind::comment) {
        if (s.chance(1, 4)) {
          d.lang = "";
          for (int i = 0; i < 3; ++i) d.lang += s.pick<char>({ sep, '"', 'x', '\n', 'Y', '\r' });
        }
        for (auto &c: d.lang) if ((unsigned char) c >= 0x80 || !c) c = 'e';
      }
      break;
    case kind::popm: case kind::ufid: case kind::priv: case kind::encr: d.owner = ascii(s, sep); break;
    case kind::cloud: {
      d.owner = ascii(s, sep);
      if (s.chance(1, 3)) d.owner = B(ref::utf8(gen::text(s, l1 ? LATIN1 : BMP, 8)));
      while (d.owner.size() && (d.owner.back() == ' ' || d.owner.back() == 0)) d.owner.pop_back();
      d.cloud.erase(""); // cf. P20
      break;
    }
    default: break;
    }
  }

  /// A frame by itself
  inline row of(int ver, const fdesc &d, bool l1)
  {
    std::string o(d.owner.begin(), d.owner.end());
    switch (d.k) {
    case kind::text: return { onto(decoded(d.text), l1) };
    case kind::utext: return { num(d.enc), onto(decoded(d.dsc), l1), onto(decoded(d.text), l1) };
    case kind::comment: return { d.lang, onto(decoded(d.dsc), l1), onto(decoded(d.text), l1) };
    case kind::count: return { num(number(d.data)) };
    case kind::popm: return { o, num(d.num), hexed(d.data) };
    case kind::ufid: return { o, "0x" + hexed(d.data) };
    case kind::encr: return { o, num(d.num), "0x" + hexed(d.data) };
    case kind::priv: return { o };
    case kind::cloud: return { onto(o, l1), d.cloud };
    default: return { d.id };
    }
  }

  /// A tag; `size' is how the library reckons its size
  inline row of(int ver, const std::vector<fdesc> &fs, unsigned char flags, std::size_t size, std::size_t ncomm, bool l1)
  {
    row r;
    char b[8];
    std::snprintf(b, sizeof b, "0x%02x", flags);
    r = { num(ver), "0", num(size), b, flags & 0x80 ? "1" : "0" };
    static const char *IDS[2][7] = {
      { "TP1", "TT2", "TAL", "TCO", "TEN", "TYE", "TLA" },
      { "TPE1", "TIT2", "TALB", "TCON", "TENC", "TYER", "TLAN" }
    };
    for (auto id: IDS[ver != 2]) {
      std::vector<std::string> v;
      for (auto &d: fs) if (d.id == id) v.push_back(onto(decoded(d.text), l1));
      if (v.empty()) v.push_back("");
      r.push_back(cell(v));
      if (std::string(id) == "TYE") r.back().key = "v2.2/year-column";
    }
    std::vector<std::string> cnt, com;
    for (auto &d: fs) {
      if (d.k == kind::count) cnt.push_back(num(number(d.data)));
      if (d.k == kind::comment) com.push_back(onto(decoded(d.text), l1));
    }
    r.push_back(num(cnt.size()));
    r.push_back(cnt.empty() ? "" : cnt.size() == 1 ? cnt[0] : "*");
    r.push_back(num(com.size()));
    for (std::size_t i = 0; i < ncomm; ++i) r.push_back(i < com.size() ? com[i] : "");
    return r;
  }

  /// Text for the ID3v1 field at `f'
  inline bytes v1field(source &s, std::size_t n, bool wide, char sep)
  {
    ustr t = spiced(s, gen::text(s, wide ? LATIN1 : ASCII, n), sep);
    bytes b;
    for (auto c: t) b.push_back(c >= 0x80 && c < 0xa0 ? 0xe9 : (unsigned char) c);
    b.resize(n, s.flip() ? 0 : ' ');
    return b;
  }

  inline ref::v1 v1tag(source &s, char sep)
  {
    ref::v1 t = gen::v1tag(s);
    bool wide = s.flip();
    std::size_t n = t.enh ? 90 : 30;
    t.title = v1field(s, n, wide, sep);
    t.artist = v1field(s, n, wide, sep);
    t.album = v1field(s, n, wide, sep);
    t.year = v1field(s, 4, wide, sep);
    t.comment = v1field(s, t.v11 ? 28 : 30, wide, sep);
    if (!t.v11 && t.comment[28] == 0 && t.comment[29]) t.comment[29] = 0;
    return t;
  }

  inline row of(const ref::v1 &t, bool l1)
  {
    auto txt = [&](const bytes &b) { return onto(decoded(ref::from_latin1(b)), l1); };
    return { t.v11 ? "1" : "0", t.enh ? "1" : "0", txt(t.artist), txt(t.title), txt(t.album), txt(t.year), txt(t.comment), num(t.genre) };
  }

  // --- reading such records
  struct parsed {
    std::vector<std::vector<std::string>> rows;
    std::string err;
  };

  /// RFC 4180, strictly, save that lines may end in LF as well as in CR LF
  inline parsed csv(const std::string &s, char sep)
  {
    parsed p;
    std::size_t i = 0;
    while (i < s.size()) {
      std::vector<std::string> r;
      for (;;) {
        std::string f;
        if (i < s.size() && s[i] == '"') {
          for (++i;; ++i) {
            if (i >= s.size()) { p.err = "unterminated quoted field in record " + num(p.rows.size()); return p; }
            if (s[i] == '"') {
              if (i + 1 < s.size() && s[i + 1] == '"') ++i; else break;
            }
            f += s[i];
          }
          ++i;
          if (i < s.size() && s[i] != sep && s[i] != '\n') { p.err = "text after a quoted field in record " + num(p.rows.size()) + ", column " + num(r.size()); return p; }
        } else {
          for (; i < s.size() && s[i] != sep && s[i] != '\n'; ++i) {
            if (s[i] == '"') { p.err = "quote in an unquoted field in record " + num(p.rows.size()) + ", column " + num(r.size()); return p; }
            if (s[i] == '\r') { p.err = "line break in an unquoted field in record " + num(p.rows.size()) + ", column " + num(r.size()); return p; }
            f += s[i];
          }
        }
        r.push_back(f);
        if (i < s.size() && s[i] == sep) { ++i; continue; }
        break;
      }
      p.rows.push_back(r);
      if (i < s.size()) ++i; else p.err = "no line end";
    }
    return p;
  }

  /// text/tab-separated-values, or the like with another separator
  inline parsed tdf(const std::string &s, char sep)
  {
    parsed p;
    std::size_t i = 0;
    while (i < s.size()) {
      std::vector<std::string> r(1);
      for (; i < s.size() && s[i] != '\n'; ++i) {
        if (s[i] == sep) r.push_back(""); else r.back() += s[i];
      }
      if (i == s.size()) p.err = "no line end";
      ++i;
      p.rows.push_back(r);
    }
    return p;
  }

  /// Undo URL-encoding
  inline std::string unurl(const std::string &s)
  {
    std::string r;
    for (std::size_t i = 0; i < s.size(); ++i) {
      if (s[i] == '+') r += ' ';
      else if (s[i] == '%' && i + 2 < s.size()) { r += (char) std::strtol(s.substr(i + 1, 2).c_str(), nullptr, 16); i += 2; }
      else r += s[i];
    }
    return r;
  }

  inline ref::cloud tags(const std::string &s)
  {
    ref::cloud c;
    for (std::size_t i = 0; i < s.size();) {
      std::size_t j = std::min(s.find('&', i), s.size());
      std::string kv = s.substr(i, j - i);
      i = j + 1;
      std::size_t e = kv.find('=');
      auto &v = c[unurl(kv.substr(0, e))];
      if (e == std::string::npos) continue;
      for (std::size_t k = e + 1;;) {
        std::size_t l = std::min(kv.find(',', k), kv.size());
        v.insert(unurl(kv.substr(k, l - k)));
        if (l == kv.size()) break;
        k = l + 1;
      }
    }
    return c;
  }

  /// A delimited file can't hold separators or line breaks: something else
  /// stands for each of those
  inline bool alike(const std::string &is, const std::string &ought, char sep, bool quoting)
  {
    if (quoting) return is == ought;
    if (is.size() != ought.size()) return false;
    for (std::size_t i = 0; i < is.size(); ++i) {
      bool out = ought[i] == sep || ought[i] == '\n' || ought[i] == '\r';
      if (out ? is[i] == sep || is[i] == '\n' || is[i] == '\r' : is[i] != ought[i]) return false;
    }
    return true;
  }

  /// Compare, setting `known' where a column is wrong in a way already known
  inline void compare(context &ctx, const std::string &what, const std::vector<std::string> &got, const row &want, char sep,
                      bool quoting, std::string &known)
  {
    ctx.checked(want.size());
    CHECK(got.size() == want.size(), "columns",
          what << " has " << got.size() << " columns, not " << want.size() << ": " << vt::show(got));
    for (std::size_t i = 0; i < got.size(); ++i) {
      const cell &c = want[i];
      if (c.tags) {
        auto m = tags(got[i]);
        CHECK(m == c.cloud, "cloud", what << ", column " << i << " is " << vt::show(got[i]) << ": not the tag cloud");
        continue;
      }
      bool ok = false;
      for (auto &v: c.any) if (alike(got[i], v, sep, quoting)) ok = true;
      if (!ok && !c.key.empty() && got[i].empty()) { known = c.key; continue; }
      CHECK(ok, "value", what << ", column " << i << " is " << vt::show(got[i]) << ", expected " << vt::show(c.any[0])
            << (c.any.size() > 1 ? " or one of its fellows" : ""));
    }
  }
}
