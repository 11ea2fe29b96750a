/* clouds.hh -- tag clouds: generators, the URL encoding & decoding of them. */
#pragma once

#include "gen.hh"

#include <cctype>
#include <cstring>

namespace gen {

  inline bool unreserved(unsigned char c)
  { return isalnum(c) ? c < 128 : c && strchr("-_.~", c); }

  /// As others might write it: anything may be escaped, and only what has to be must
  inline std::string encoded(source &s, const std::string &x)
  {
    std::string r;
    int style = s.below(4);
    for (unsigned char c: x) {
      bool must = c == '%' || c == '&' || c == '=' || c == ',';
      if (must || (style == 0 ? !unreserved(c) : style == 1 ? true : style == 2 ? false : s.flip())) {
        char b[4];
        snprintf(b, 4, s.flip() ? "%%%02x" : "%%%02X", c);
        r += b;
      } else {
        r += c;
      }
    }
    return r;
  }

  inline std::string encoded(source &s, const ref::cloud &c)
  {
    std::string r;
    std::vector<std::string> parts;
    for (auto &kv: c) {
      std::string p = encoded(s, kv.first);
      bool first = true;
      for (auto &v: kv.second) { p += first ? "=" : ","; first = false; p += encoded(s, v); }
      parts.push_back(p);
    }
    // in any order
    for (std::size_t i = parts.size(); i > 1; --i) std::swap(parts[i - 1], parts[s.below(i)]);
    for (std::size_t i = 0; i < parts.size(); ++i) r += (i ? "&" : "") + parts[i];
    return r;
  }

  inline std::string word(source &s)
  {
    switch (s.weighted({ 4, 2, 2, 1 })) {
    case 0: return s.pick({ std::string("a"), std::string("b"), std::string("rock"), std::string("") , std::string("90s") });
    case 1: {
      std::string r;
      for (std::size_t i = 0, n = s.below(6); i < n; ++i) r += s.pick({ '&', '=', ',', '%', ' ', '+', 'a', '4', '1', '\xff', '\xe0', '#', ';', '"' });
      return r;
    }
    case 2: return cstr(s, 12);
    default: return ref::utf8(text(s, FULL, 10)).substr(0, 30);
    }
  }
  inline std::string cword(source &s) { std::string w = word(s); for (auto &c: w) if (!c) c = '0'; return w; }

  inline ref::cloud some_cloud(source &s)
  {
    ref::cloud c;
    for (std::size_t i = 0, n = s.below(5); i < n; ++i) {
      auto &v = c[cword(s)];
      for (std::size_t j = 0, m = s.below(4); j < m; ++j) v.insert(cword(s));
    }
    return c;
  }

  inline std::string show(const ref::cloud &c)
  {
    std::string r = "{";
    for (auto &kv: c) {
      r += vt::show(kv.first) + ":[";
      for (auto &v: kv.second) r += vt::show(v) + " ";
      r += "] ";
    }
    return r + "}";
  }

  /// A lone tag with an empty name can't be told from no tags at all
  inline bool mute(const ref::cloud &c) { return c.size() == 1 && c.begin()->first.empty() && c.begin()->second.empty(); }

  /// Undo the encoding; false if it isn't one
  inline bool urldecode(const std::string &x, std::string &out)
  {
    out.clear();
    for (std::size_t i = 0; i < x.size(); ++i) {
      if (x[i] != '%') { out += x[i]; continue; }
      if (i + 2 >= x.size() || !isxdigit((unsigned char) x[i + 1]) || !isxdigit((unsigned char) x[i + 2])) return false;
      out += (char) std::stoi(x.substr(i + 1, 2), nullptr, 16);
      i += 2;
    }
    return true;
  }

  inline bool urldecode(const std::string &x, ref::cloud &c)
  {
    auto split = [](const std::string &y, char sep) {
      std::vector<std::string> r(1);
      for (char ch: y) if (ch == sep) r.push_back(""); else r.back() += ch;
      return r;
    };
    c.clear();
    if (x.empty()) return true;
    for (auto &part: split(x, '&')) {
      std::size_t eq = part.find('=');
      std::string k;
      if (!urldecode(part.substr(0, eq), k)) return false;
      auto &v = c[k];
      if (eq == std::string::npos) continue;
      for (auto &y: split(part.substr(eq + 1), ',')) {
        std::string z;
        if (!urldecode(y, z)) return false;
        v.insert(z);
      }
    }
    return true;
  }

  /// Read a frame's payload
  inline bool read_cloud(const bytes &b, std::string &owner, ref::cloud &c)
  {
    c.clear();
    owner.clear();
    std::size_t i = 0;
    auto str = [&](std::string &s) {
      s.clear();
      while (i < b.size() && b[i]) s += (char) b[i++];
      if (i == b.size()) return false;
      ++i;
      return true;
    };
    if (b.empty() || b[i++] != 1 || !str(owner)) return false;
    while (i < b.size()) {
      std::string k, v;
      if (!str(k) || i + 4 > b.size() || c.count(k)) return false;
      std::size_t n = ref::be32(&b[i]);
      i += 4;
      if (n > b.size() - i) return false;
      auto &vs = c[k];
      for (std::size_t end = i + n; i < end; vs.insert(v)) if (!str(v) || i > end) return false;
    }
    return true;
  }
}
