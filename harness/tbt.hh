/* tbt.hh -- a model of tag-based templates: their syntax, and what they mean. */
#pragma once

#include "files.hh"

#include <memory>
#include <optional>

#include <openssl/md5.h>

namespace tbt {

  using namespace vt;
  using namespace gen;

  inline const std::vector<std::string>& genres()
  {
    static const std::vector<std::string> G = {
#     include "genres.inc"
    };
    return G;
  }

  // --- files

  enum { ALBUM, ARTIST, GENRE, TITLE, NTEXT };

  struct file {
    std::string name;
    bytes all, audio;
    bool v2 = false, v1 = false;
    std::optional<ustr> text[NTEXT], encby, year; // of the first ID3v2 tag
    ref::v1 t1;
  };

  /// Text of the sort templates care about
  inline ustr words(source &s, rep r, std::size_t max)
  {
    ustr t;
    if (s.chance(1, 10)) return t;
    if (s.chance(1, 4)) t += s.pick<ustr>({ U"The ", U"the ", U"THE ", U"The", U"The  ", U"The\t", U" The ", U"A " });
    std::size_t n = 1 + s.small(3);
    for (std::size_t i = 0; i < n; ++i) {
      if (i) t += s.pick<ustr>({ U" ", U"  ", U"\t", U" \t ", U"-", U"   " });
      switch (s.weighted({ 4, 2, 2, 1 })) {
      case 0: t += s.pick<ustr>({ U"pogues", U"Pogues", U"x", U"lorca's", U"NOVENA", U"zZ" }); break;
      case 1: t += s.pick<ustr>({ U"%A", U"a=b", U"(x)?", U"\\", U"100%", U"a:b&c", U"\"q\"", U"a/b" }); break;
      case 2: {
        ustr c = s.pick<ustr>({ U"été", U"ßa", U"€5", U"日本", U"İi", U"ÿ" });
        if (gen::fits(c, r)) t += c; else t += U"q";
        break;
      }
      default: t += gen::text(s, r, 8); break;
      }
    }
    if (s.chance(1, 4)) t += s.pick<ustr>({ U", The", U", the", U", THE", U",The", U" , The", U", The " });
    if (s.chance(1, 8)) t.insert(0, s.pick<ustr>({ U" ", U"\t", U"  " }));
    for (auto &c: t) if (!c) c = U'0';
    while (t.size() > max) t.pop_back();
    return t;
  }

  inline fdesc text_frame(source &s, int ver, const std::string &id, const ustr *fixed, std::optional<ustr> &out)
  {
    fdesc d;
    d.k = kind::text;
    d.id = id;
    d.enc = s.below(ver == 4 ? 4 : 2);
    d.be = d.enc == 1 && s.flip();
    d.text = fixed ? *fixed : words(s, d.enc == 0 ? LATIN1 : ver == 4 ? FULL : BMP, 40);
    if (!out) out = d.text;
    return d;
  }

  enum v1form { L1, W1252, U8, U8BOM, BE, LE, BEBOM, LEBOM, NFORMS };

  const char16_t HI[32] = {
    0x20ac, 0, 0x201a, 0x192, 0x201e, 0x2026, 0x2020, 0x2021, 0x2c6, 0x2030, 0x160, 0x2039, 0x152, 0, 0x17d, 0,
    0, 0x2018, 0x2019, 0x201c, 0x201d, 0x2022, 0x2013, 0x2014, 0x2dc, 0x2122, 0x161, 0x203a, 0x153, 0, 0x17e, 0x178
  };
  inline bool to1252(const ustr &u, bytes &b)
  {
    b.clear();
    for (auto c: u) {
      if (c < 0x80 || (c >= 0xa0 && c < 0x100)) { b.push_back((unsigned char) c); continue; }
      unsigned i = 0;
      while (i < 32 && !(HI[i] && HI[i] == c)) ++i;
      if (i == 32) return false;
      b.push_back(0x80 + i);
    }
    return true;
  }
  inline bool from1252(const bytes &b, ustr &u)
  {
    u.clear();
    for (auto c: b) {
      char32_t x = c >= 0x80 && c < 0xa0 ? HI[c - 0x80] : c;
      if (!x && c) return false;
      u += x;
    }
    return true;
  }

  inline bytes v1field(source &s, std::size_t n, v1form f, const ustr *fixed = nullptr)
  {
    ustr t = fixed ? *fixed : words(s, f == L1 || f == W1252 ? LATIN1 : BMP, n);
    for (;;) {
      bytes b;
      bool ok = true;
      switch (f) {
      case L1: ok = ref::latin1(t, b); break;
      case W1252: ok = to1252(t, b); break;
      case U8: b = B(ref::utf8(t)); break;
      case U8BOM: b = B("\xef\xbb\xbf" + ref::utf8(t)); break;
      case BE: b = ref::utf16(t, true); break;
      case LE: b = ref::utf16(t, false); break;
      case BEBOM: b = { 0xfe, 0xff }; app(b, ref::utf16(t, true)); break;
      default: b = { 0xff, 0xfe }; app(b, ref::utf16(t, false)); break;
      }
      if (!ok) { t = U"x"; continue; }
      if (b.size() <= n) {
        // No accidental marks
        if (f < U8 && b.size() && b[0] >= 0xef) b[0] = 'e';
        b.resize(n, f < BE && !t.empty() && s.chance(1, 4) ? ' ' : 0);
        return b;
      }
      t.pop_back();
    }
  }

  inline file make(source &s, context &ctx, const std::string &dir, std::size_t i)
  {
    static const char *IDS[2][NTEXT] = { { "TAL", "TP1", "TCO", "TT2" }, { "TALB", "TPE1", "TCON", "TIT2" } };
    file f;
    f.name = s.pick<std::string>({ "a", "The  b", "x, The", "two  words", "\xc3\xa9t\xc3\xa9", ".h", "a.b", "the c" }) + std::to_string(i)
      + s.pick<std::string>({ ".mp3", "", ".MP3", ".the ogg", "." });
    std::size_t n = s.weighted({ 2, 5, 2 });
    auto year = [&](ustr &y) {
      if (s.chance(1, 10)) y = s.pick<ustr>({ U"", U"5", U"05", U"199" });
      else { y.clear(); for (int k = 0; k < 4; ++k) y += U'0' + s.below(10); }
    };
    for (std::size_t j = 0; j < n; ++j) {
      int ver = s.range(2, 4);
      ref::tag t;
      t.ver = ver;
      std::vector<fdesc> fs;
      std::optional<ustr> text[NTEXT], eb, yr;
      for (int k = 0; k < NTEXT; ++k) if (s.chance(2, 3)) fs.push_back(text_frame(s, ver, IDS[ver != 2][k], nullptr, text[k]));
      if (s.chance(1, 2)) {
        ustr e = words(s, LATIN1, 20);
        if (decoded(e).empty()) e = U"someone";
        fs.push_back(text_frame(s, ver, ver == 2 ? "TEN" : "TENC", &e, eb));
      }
      if (s.chance(2, 3)) { ustr y; year(y); fs.push_back(text_frame(s, ver, ver == 2 ? "TYE" : "TYER", &y, yr)); }
      if (s.chance(1, 4)) t.padding = s.below(200);
      if (s.chance(1, 4)) t.unsync = true;
      for (auto &d: fs) {
        if (ver == 4) d.unsync = t.unsync;
        t.frames.push_back(to_ref(ver, d));
      }
      NOTE(ctx, "file " << i << ", tag " << j << ": " << ref::show(t));
      app(f.all, ref::encode(t));
      if (j == 0) {
        f.v2 = true;
        for (int k = 0; k < NTEXT; ++k) f.text[k] = text[k];
        f.encby = eb;
        f.year = yr;
      }
    }
    f.audio = gen::audio(s, 120);
    app(f.audio, bulk(s, 260)); // cf. P13: nothing in the tags may be taken for an ID3v1 tag
    app(f.all, f.audio);
    if (s.chance(3, 5)) {
      f.v1 = true;
      ref::v1 &t = f.t1;
      v1form m = (v1form) s.weighted({ 6, 3, 3, 1, 1, 1, 1, 1 });
      t.v11 = s.flip();
      t.enh = s.chance(1, 4);
      std::size_t w = t.enh ? 90 : 30;
      t.title = v1field(s, w, m);
      t.artist = v1field(s, w, m);
      t.album = v1field(s, w, m);
      ustr y;
      year(y);
      t.year = v1field(s, 4, L1, &y);
      t.comment = bytes(t.v11 ? 28 : 30, 0);
      t.genre = s.flip() ? s.below(200) : s.byte();
      t.track = t.v11 ? 1 + s.below(255) : 0;
      if (t.enh) {
        t.egenre = v1field(s, 30, m);
        t.start = t.end = bytes(6, '0');
      }
      NOTE(ctx, "file " << i << ": ID3v1 " << ref::show(t));
      app(f.all, ref::encode(t));
    }
    NOTE(ctx, "file " << i << ": " << vt::show(f.name) << ", " << f.all.size() << " bytes");
    spew(dir + "/" + f.name, f.all);
    return f;
  }

  // --- templates

  struct missing { };     // nothing to replace it with
  struct failed { };      // no way to convert it
  struct unspecified { }; // we have no opinion

  enum the_ { T_NONE, T_PRE, T_SUF };
  enum cap_ { C_NONE, C_FIRST, C_UP, C_LOW };
  enum src_ { PREF2, PREF1, ONLY2, ONLY1 };
  enum venc { V_AUTO, V_L1, V_ASCII, V_1252, V_U8, V_BE, V_LE };
  enum oenc { O_U8, O_ASCII, O_1252, O_L1 };

  /// Decode & trim, the way all text is
  inline std::string v1text(const bytes &b, venc e)
  {
    if (e == V_AUTO) {
      if (b.size() > 2 && b[0] == 0xef && b[1] == 0xbb && b[2] == 0xbf) e = V_U8;
      else if (b.size() > 1 && b[0] == 0xfe && b[1] == 0xff) e = V_BE;
      else if (b.size() > 1 && b[0] == 0xff && b[1] == 0xfe) e = V_LE;
      else e = V_L1;
    }
    ustr u;
    switch (e) {
    case V_L1: u = ref::from_latin1(b); break;
    case V_ASCII: for (auto c: b) if (c >= 0x80) throw failed(); u = ref::from_latin1(b); break;
    case V_1252: if (!from1252(b, u)) throw failed(); break;
    case V_U8:
      if (!ref::from_utf8(S(b), u)) {
        for (auto c: b) if (c >= 0xf5) throw unspecified();
        throw failed();
      }
      break;
    default:
      for (std::size_t i = 0; i + 1 < b.size(); i += 2) {
        char32_t c = e == V_BE ? b[i] << 8 | b[i + 1] : b[i + 1] << 8 | b[i];
        if (c >= 0xd800 && c < 0xe000) throw unspecified();
        u += c;
      }
      break;
    }
    for (auto c: u) if (c >= 0xe0000 && c < 0xe0080) throw unspecified(); // iconv drops them
    if (u.size() && u[0] == 0xfeff) u.erase(0, 1);
    return decoded(u);
  }

  inline bool ieq(const std::string &a, const char *b)
  {
    std::string x = a, y = b;
    for (auto &c: x) if (c >= 'A' && c <= 'Z') c += 32;
    for (auto &c: y) if (c >= 'A' && c <= 'Z') c += 32;
    return x == y;
  }

  inline std::string the(const std::string &t, the_ h)
  {
    std::size_t n = t.size();
    if (h == T_SUF && n > 4 && ieq(t.substr(0, 4), "the ")) return t.substr(4) + ", The";
    if (h == T_PRE && n >= 5 && ieq(t.substr(n - 5), ", the")) return "The " + t.substr(0, n - 5);
    return t;
  }
  inline std::string cap(std::string t, cap_ c)
  {
    std::size_t n = c == C_NONE ? 0 : c == C_FIRST ? std::min(t.size(), std::size_t(1)) : t.size();
    for (std::size_t i = 0; i < n; ++i) {
      if (c == C_LOW) { if (t[i] >= 'A' && t[i] <= 'Z') t[i] += 32; }
      else if (t[i] >= 'a' && t[i] <= 'z') t[i] -= 32;
    }
    return t;
  }
  inline std::string ws(const std::string &t, bool compress, const std::string &rep)
  {
    if (!compress && rep.empty()) return t;
    std::string r;
    for (std::size_t i = 0; i < t.size(); ++i) {
      if (t[i] != ' ' && t[i] != '\t') { r += t[i]; continue; }
      while (i + 1 < t.size() && (t[i + 1] == ' ' || t[i + 1] == '\t')) ++i;
      r += rep.empty() ? " " : rep;
    }
    return r;
  }
  inline std::string out(const std::string &t, oenc o)
  {
    if (o == O_U8) return t;
    ustr u;
    bytes b;
    if (!ref::from_utf8(t, u)) throw unspecified();
    switch (o) {
    case O_ASCII: for (auto c: u) { if (c >= 0x80) throw failed(); b.push_back((unsigned char) c); } break;
    case O_1252: if (!to1252(u, b)) throw failed(); break;
    default: if (!ref::latin1(u, b)) throw failed(); break;
    }
    while (b.size() && (b.back() == ' ' || !b.back())) b.pop_back();
    return S(b);
  }

  struct term {
    enum kind_ { LIT, TEXT, ENCBY, YEAR, BASE, EXT, MD5, SIZE, SUB } k = LIT;
    std::string lit;
    int which = 0;
    src_ src = PREF2;
    venc enc = V_AUTO;
    the_ t = T_NONE;
    cap_ c = C_NONE;
    bool compress = false, yy = false, hex = false, upper = false;
    std::string rep;
    oenc o = O_U8;
    std::vector<term> subs;
    std::string image; // as it stands in a template

    std::string operator()(const file &f) const
    {
      auto choose = [&](const std::optional<ustr> &v2, const bytes *v1, src_ p, venc e) {
        for (int pass = 0; pass < (p == PREF2 || p == PREF1 ? 2 : 1); ++pass) {
          bool two = (p == PREF2 || p == ONLY2) != (pass == 1);
          std::string x;
          if (two) { if (f.v2 && v2) x = decoded(*v2); }
          else if (f.v1 && v1 && !v1->empty()) x = v1text(*v1, e);
          if (!x.empty()) return x;
        }
        throw missing();
      };
      switch (k) {
      case LIT: return lit;
      case SUB: {
        std::string r;
        try { for (auto &x: subs) r += x(f); }
        catch (const missing&) { return ""; }
        return r;
      }
      case TEXT: {
        bytes v1;
        switch (which) {
        case ALBUM: v1 = f.t1.album; break;
        case ARTIST: v1 = f.t1.artist; break;
        case TITLE: v1 = f.t1.title; break;
        default:
          if (f.v1 && f.t1.enh) {
            v1 = f.t1.egenre;
            bool blank = true;
            for (auto x: v1) blank &= !x || x == ' ';
            if (blank) v1.clear();
          }
          if (v1.empty() && f.v1 && f.t1.genre < genres().size()) v1 = B(genres()[f.t1.genre]);
          // A name is what it is, but not in UTF-16
          if (f.v1 && v1 != f.t1.egenre && (enc == V_BE || enc == V_LE)) throw unspecified();
        }
        std::string x = choose(f.text[which], &v1, src, enc);
        return out(ws(cap(the(x, t), c), compress, rep), o);
      }
      case ENCBY: {
        if (!f.v2 || !f.encby) throw missing();
        return cap(the(decoded(*f.encby), T_SUF), C_FIRST);
      }
      case YEAR: {
        std::string y = choose(f.year, &f.t1.year, PREF2, V_AUTO);
        if (!yy) return y;
        if (y.size() != 4) throw unspecified();
        return y.substr(2);
      }
      case BASE: case EXT: {
        std::size_t d = f.name.rfind('.');
        if (d == 0 || d == std::string::npos) d = f.name.size();
        std::string x = k == BASE ? f.name.substr(0, d) : f.name.substr(d);
        return ws(cap(the(x, t), c), compress, rep);
      }
      case MD5: {
        unsigned char m[16];
        ::MD5(f.audio.data(), f.audio.size(), m);
        unsigned __int128 n = 0;
        for (auto x: m) n = n << 8 | x;
        std::string r;
        if (hex) for (int i = 0; i < 32; ++i, n >>= 4) r.insert(0, 1, (upper ? "0123456789ABCDEF" : "0123456789abcdef")[(int) (n & 15)]);
        else { do r.insert(0, 1, (char) ('0' + (int) (n % 10))); while (n /= 10); }
        return r;
      }
      default: {
        char b[32];
        std::snprintf(b, sizeof b, hex ? upper ? "%zX" : "%zx" : "%zu", f.all.size());
        return b;
      }
      }
    }
  };

  inline std::string escaped(const std::string &t)
  {
    std::string r;
    for (char c: t) { if (std::string("?%:&)(=\\").find(c) != std::string::npos) r += '\\'; r += c; }
    return r;
  }

  inline std::string some_text(source &s, std::size_t max)
  {
    std::string r;
    std::size_t n = 1 + s.small(max);
    for (std::size_t i = 0; i < n; ++i)
      r += s.pick<std::string>({ "x", " ", "-", "_", "%", "(", ")", ":", "?", "&", "=", "\\", "A", "L", "\xc3\xa9", "\n", "\"", ".", "5", "/" });
    return r;
  }

  typedef std::vector<std::string> strs;

  inline term a_term(source &s, int depth)
  {
    term t;
    std::vector<std::string> opts;
    auto opt = [&](const std::string &o) { opts.insert(opts.begin() + s.below(opts.size() + 1), o); };
    auto the = [&]() {
      if (!s.chance(1, 2)) return;
      switch (s.below(3)) {
      case 0: t.t = T_SUF; opt("the"); break;
      case 1: t.t = T_SUF; opt("the=suffix"); break;
      default: t.t = T_PRE; opt("the=prefix"); break;
      }
    };
    auto cap = [&]() {
      if (!s.chance(1, 2)) return;
      switch (s.below(4)) {
      case 0: t.c = C_FIRST; opt("capitalization"); break;
      case 1: t.c = C_FIRST; opt("capitalization=capitalize"); break;
      case 2: t.c = C_UP; opt(s.pick<std::string>({ "capitalization=all-upper", "cap=all-upper" })); break;
      default: t.c = C_LOW; opt(s.pick<std::string>({ "capitalization=all-lower", "cap=all-lower" })); break;
      }
    };
    auto ws = [&]() {
      switch (s.weighted({ 3, 1, 2 })) {
      case 0: break;
      case 1: t.compress = true; opt("compress"); break;
      default:
        t.rep = s.chance(1, 3) ? s.pick<std::string>({ "hex", "L", "U", "auto", "yy", "prefix", "_" }) : some_text(s, 3);
        opt("ws=" + escaped(t.rep));
        break;
      }
    };
    std::string name, abbrev;
    bool shorty = s.chance(1, 3);
    switch (s.weighted({ 3, 8, 1, 2, 1, 1, 1, 1, depth > 2 ? 0u : 3u })) {
    case 0:
      t.k = term::LIT;
      t.lit = some_text(s, 6);
      t.image = escaped(t.lit);
      return t;
    case 1:
      t.k = term::TEXT;
      t.which = s.below(NTEXT);
      abbrev = std::string(1, "LAGT"[t.which]);
      name = t.which == GENRE ? s.pick<std::string>({ "content-type", "genre" }) : strs { "album", "artist", "", "title" }[t.which];
      t.t = T_SUF;
      t.c = C_FIRST;
      if (shorty) break;
      if (s.chance(1, 2)) {
        t.src = (src_) s.below(4);
        opt(strs { "prefer-v2", "prefer-v1", "v2-only", "v1-only" }[t.src]);
      }
      if (s.chance(1, 2)) {
        t.enc = (venc) s.below(7);
        opt("v1-encoding=" + strs { "auto", "iso-8859-1", "ascii", "cp1252", "utf-8", "utf-16-be", "utf-16-le" }[t.enc]);
      }
      the(); cap(); ws();
      if (s.chance(1, 3)) {
        t.o = (oenc) s.below(4);
        opt("output=" + strs { "utf-8", "ascii", "cp1252", "iso-8859-1" }[t.o]);
      }
      break;
    case 2: t.k = term::ENCBY; name = "encoded-by"; abbrev = "e"; break;
    case 3:
      t.k = term::YEAR; name = "year"; abbrev = "Y";
      if (!shorty && s.flip()) { t.yy = s.flip(); opt(t.yy ? "yy" : "yyyy"); }
      break;
    case 4: case 5:
      t.k = s.flip() ? term::BASE : term::EXT;
      name = t.k == term::BASE ? "basename" : "extension";
      if (s.chance(1, 4)) name = "file-" + name;
      abbrev = t.k == term::BASE ? "b" : "E";
      if (!shorty) { the(); cap(); ws(); }
      break;
    case 6: case 7:
      t.k = s.flip() ? term::MD5 : term::SIZE;
      name = t.k == term::MD5 ? "md5" : "size";
      abbrev = t.k == term::MD5 ? "5" : "S";
      if (shorty) break;
      if (s.chance(2, 3)) { t.hex = s.flip(); opt(t.hex ? "base=hex" : "base=decimal"); }
      if (s.chance(1, 2)) { t.upper = s.flip(); opt(t.upper ? "hex-case=U" : "hex-case=L"); }
      break;
    default: {
      t.k = term::SUB;
      std::size_t n = 1 + s.small(3);
      t.image = "(";
      for (std::size_t i = 0; i < n; ++i) {
        t.subs.push_back(a_term(s, depth + 1));
        t.image += t.subs.back().image;
      }
      t.image += ")?";
      return t;
    }
    }
    if (shorty) t.image = "%" + abbrev;
    else {
      t.image = "%(" + name;
      for (std::size_t i = 0; i < opts.size(); ++i) t.image += (i ? "&" : ":") + opts[i];
      t.image += ")";
    }
    return t;
  }

  inline std::vector<term> a_template(source &s, std::string &image)
  {
    std::vector<term> ts;
    std::size_t n = 1 + s.small(4);
    for (std::size_t i = 0; i < n; ++i) {
      ts.push_back(a_term(s, 0));
      image += ts.back().image;
    }
    return ts;
  }

  inline std::string an_invalid_one(source &s)
  {
    std::string p;
    if (s.flip()) a_template(s, p);
    return p + s.pick<std::string>({
        "%", "%(", "%(artist", "%(artist:", "%(artist:)", "%(foo)", "%(artist:foo)", "%(artist:the=foo)", "%(artist:the=",
        "(abc)", "(abc", "abc)", "%z", ":", "&", "=", "?", "\\x", "\\", "%(year:xx)", "%(size:the)", "%(artist:base=hex)",
        "%(artist&the)", "%(artist:the&the=prefix)", "%(title:compress&ws=_)", "%(size:base=hex&base=decimal)", "%(basename:cap&cap=all-upper)",
        "%(md5:hex-case=U&hex-case=L)", "%(artist:ws=", "%(artist:ws=)", "%(artist:ws", "()?", "%()", "%(md5:base=octal)", "%\nA", "%(artist\n)",
        "%(genre:v1-encoding=ebcdic)", "%(artist:v1-only&v2-only)", "%AA%" });
  }
}
