/* json.hh -- a strict (RFC 8259) JSON parser. */
#pragma once

#include "refid3.hh"

#include <map>
#include <memory>

namespace json {

  struct value {
    enum { null, boolean, number, string, array, object } type = null;
    bool b = false;
    std::string text; // of a number, as it was written; or the string, as UTF-8
    std::vector<value> items;
    std::vector<std::pair<std::string, value>> members;
    const value* get(const std::string &k) const
    {
      for (auto &m: members) if (m.first == k) return &m.second;
      return nullptr;
    }
  };

  struct error { std::string what; std::size_t at; };

  class parser {
    const std::string &s;
    std::size_t i = 0;
    bool l1;

    [[noreturn]] void fail(const std::string &w) const { throw error { w, i }; }
    void ws() { while (i < s.size() && (s[i] == ' ' || s[i] == '\t' || s[i] == '\n' || s[i] == '\r')) ++i; }
    void expect(char c) { if (i >= s.size() || s[i] != c) fail(std::string("expected '") + c + "'"); ++i; }
    unsigned hex4()
    {
      unsigned n = 0;
      for (int k = 0; k < 4; ++k, ++i) {
        if (i >= s.size() || !isxdigit((unsigned char) s[i])) fail("bad \\u escape");
        n = n * 16 + (isdigit((unsigned char) s[i]) ? s[i] - '0' : (s[i] | 32) - 'a' + 10);
      }
      return n;
    }
    std::string str()
    {
      std::string raw, out;
      ref::ustr u;
      auto flush = [&]() {
        if (raw.empty()) return;
        ref::ustr t;
        if (l1) t = ref::from_latin1(vt::B(raw));
        else if (!ref::from_utf8(raw, t)) fail("malformed UTF-8 in a string");
        u += t;
        raw.clear();
      };
      expect('"');
      for (;;) {
        if (i >= s.size()) fail("unterminated string");
        unsigned char c = s[i];
        if (c == '"') { ++i; break; }
        if (c < 0x20) fail("control character in a string");
        if (c != '\\') { raw += c; ++i; continue; }
        flush();
        ++i;
        if (i >= s.size()) fail("unterminated string");
        switch (s[i++]) {
        case '"': u += U'"'; break;
        case '\\': u += U'\\'; break;
        case '/': u += U'/'; break;
        case 'b': u += U'\b'; break;
        case 'f': u += U'\f'; break;
        case 'n': u += U'\n'; break;
        case 'r': u += U'\r'; break;
        case 't': u += U'\t'; break;
        case 'u': {
          unsigned n = hex4();
          if (n >= 0xdc00 && n < 0xe000) fail("lone surrogate");
          if (n >= 0xd800 && n < 0xdc00) {
            expect('\\'); expect('u');
            unsigned m = hex4();
            if (m < 0xdc00 || m >= 0xe000) fail("lone surrogate");
            n = 0x10000 + ((n - 0xd800) << 10) + (m - 0xdc00);
          }
          u += (char32_t) n;
          break;
        }
        default: --i; fail("bad escape");
        }
      }
      flush();
      return ref::utf8(u);
    }
    value val(int depth)
    {
      if (depth > 100) fail("too deep");
      value v;
      ws();
      if (i >= s.size()) fail("expected a value");
      char c = s[i];
      if (c == '{') {
        v.type = value::object;
        ++i; ws();
        if (i < s.size() && s[i] == '}') { ++i; return v; }
        for (;;) {
          ws();
          std::string k = str();
          if (v.get(k)) fail("duplicate name " + vt::show(k));
          ws(); expect(':');
          v.members.push_back({ k, val(depth + 1) });
          ws();
          if (i < s.size() && s[i] == ',') { ++i; continue; }
          expect('}');
          return v;
        }
      }
      if (c == '[') {
        v.type = value::array;
        ++i; ws();
        if (i < s.size() && s[i] == ']') { ++i; return v; }
        for (;;) {
          v.items.push_back(val(depth + 1));
          ws();
          if (i < s.size() && s[i] == ',') { ++i; continue; }
          expect(']');
          return v;
        }
      }
      if (c == '"') { v.type = value::string; v.text = str(); return v; }
      if (s.compare(i, 4, "true") == 0) { i += 4; v.type = value::boolean; v.b = true; return v; }
      if (s.compare(i, 5, "false") == 0) { i += 5; v.type = value::boolean; return v; }
      if (s.compare(i, 4, "null") == 0) { i += 4; return v; }
      if (c == '-' || isdigit((unsigned char) c)) {
        std::size_t from = i;
        auto digits = [&]() {
          if (i >= s.size() || !isdigit((unsigned char) s[i])) fail("malformed number");
          while (i < s.size() && isdigit((unsigned char) s[i])) ++i;
        };
        if (c == '-') ++i;
        if (i < s.size() && s[i] == '0') ++i; else digits();
        if (i < s.size() && s[i] == '.') { ++i; digits(); }
        if (i < s.size() && (s[i] | 32) == 'e') {
          ++i;
          if (i < s.size() && (s[i] == '+' || s[i] == '-')) ++i;
          digits();
        }
        // "0123" & such
        if (i < s.size() && (isalnum((unsigned char) s[i]) || s[i] == '.')) fail("malformed number");
        v.type = value::number;
        v.text = s.substr(from, i - from);
        return v;
      }
      fail("unexpected character");
    }

  public:
    parser(const std::string &s, bool latin1 = false): s(s), l1(latin1) { }
    /// All the values there are, one after another
    std::vector<value> all()
    {
      std::vector<value> r;
      for (ws(); i < s.size(); ws()) r.push_back(val(0));
      return r;
    }
  };
}
