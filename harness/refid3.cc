#include "refid3.hh"

#include <zlib.h>

namespace ref {

  using vt::app;
  using vt::B;

  std::string utf8(const ustr &s)
  {
    std::string r;
    for (char32_t c: s) {
      if (c < 0x80) r += (char) c;
      else if (c < 0x800) { r += (char)(0xc0 | (c >> 6)); r += (char)(0x80 | (c & 63)); }
      else if (c < 0x10000) { r += (char)(0xe0 | (c >> 12)); r += (char)(0x80 | ((c >> 6) & 63)); r += (char)(0x80 | (c & 63)); }
      else { r += (char)(0xf0 | (c >> 18)); r += (char)(0x80 | ((c >> 12) & 63)); r += (char)(0x80 | ((c >> 6) & 63)); r += (char)(0x80 | (c & 63)); }
    }
    return r;
  }

  bool from_utf8(const std::string &s, ustr &out)
  {
    out.clear();
    for (std::size_t i = 0; i < s.size();) {
      unsigned char c = s[i];
      unsigned n; char32_t v, lo;
      if (c < 0x80) { n = 0; v = c; lo = 0; }
      else if (c >= 0xc2 && c < 0xe0) { n = 1; v = c & 31; lo = 0x80; }
      else if (c >= 0xe0 && c < 0xf0) { n = 2; v = c & 15; lo = 0x800; }
      else if (c >= 0xf0 && c < 0xf5) { n = 3; v = c & 7; lo = 0x10000; }
      else return false;
      if (i + n >= s.size()) return false;
      for (unsigned k = 1; k <= n; ++k) {
        unsigned char d = s[i + k];
        if ((d & 0xc0) != 0x80) return false;
        v = (v << 6) | (d & 63);
      }
      if (v < lo || v > 0x10ffff || (v >= 0xd800 && v < 0xe000)) return false;
      out += v;
      i += n + 1;
    }
    return true;
  }

  bool latin1(const ustr &s, bytes &out)
  {
    out.clear();
    for (char32_t c: s) {
      if (c > 255) return false;
      out.push_back((unsigned char) c);
    }
    return true;
  }

  ustr from_latin1(const bytes &b) { return ustr(b.begin(), b.end()); }

  bytes utf16(const ustr &s, bool be)
  {
    bytes r;
    auto put = [&](unsigned u) {
      if (be) { r.push_back(u >> 8); r.push_back(u & 255); }
      else { r.push_back(u & 255); r.push_back(u >> 8); }
    };
    for (char32_t c: s) {
      if (c < 0x10000) put(c);
      else { c -= 0x10000; put(0xd800 + (c >> 10)); put(0xdc00 + (c & 1023)); }
    }
    return r;
  }

  bool from_utf16(const unsigned char *p, std::size_t n, bool be, ustr &out)
  {
    out.clear();
    if (n % 2) return false;
    for (std::size_t i = 0; i < n; i += 2) {
      unsigned u = be ? (p[i] << 8 | p[i + 1]) : (p[i + 1] << 8 | p[i]);
      if (u >= 0xd800 && u < 0xdc00) {
        if (i + 3 >= n) return false;
        unsigned v = be ? (p[i + 2] << 8 | p[i + 3]) : (p[i + 3] << 8 | p[i + 2]);
        if (v < 0xdc00 || v >= 0xe000) return false;
        out += 0x10000 + ((u - 0xd800) << 10) + (v - 0xdc00);
        i += 2;
      }
      else if (u >= 0xdc00 && u < 0xe000) return false;
      else out += u;
    }
    return true;
  }

  bytes enc_text(const ustr &s, int enc, bool be)
  {
    bytes r;
    switch (enc) {
    case 0: latin1(s, r); return r;
    case 1: r = be ? bytes{0xfe, 0xff} : bytes{0xff, 0xfe}; app(r, utf16(s, be)); return r;
    case 2: return utf16(s, true);
    default: return B(utf8(s));
    }
  }

  bool dec_text(const bytes &b, int enc, ustr &out)
  {
    switch (enc) {
    case 0: out = from_latin1(b); return true;
    case 1:
      if (b.size() >= 2 && b[0] == 0xff && b[1] == 0xfe) return from_utf16(b.data() + 2, b.size() - 2, false, out);
      if (b.size() >= 2 && b[0] == 0xfe && b[1] == 0xff) return from_utf16(b.data() + 2, b.size() - 2, true, out);
      return from_utf16(b.data(), b.size(), false, out);
    case 2: return from_utf16(b.data(), b.size(), true, out);
    case 3: return from_utf8(vt::S(b), out);
    }
    return false;
  }

  std::uint32_t be32(const unsigned char *p)
  { return (std::uint32_t) p[0] << 24 | p[1] << 16 | p[2] << 8 | p[3]; }

  bytes put_be(std::uint64_t x, unsigned n)
  {
    bytes r(n);
    for (unsigned i = 0; i < n; ++i) { r[n - 1 - i] = x & 255; x >>= 8; }
    return r;
  }

  bytes put_ss(std::uint32_t x, unsigned n)
  {
    bytes r(n);
    std::uint64_t y = x;
    for (unsigned i = 0; i < n; ++i) { r[n - 1 - i] = y & 127; y >>= 7; }
    return r;
  }

  static std::uint64_t get_ss(const unsigned char *p, unsigned n)
  {
    std::uint64_t r = 0;
    for (unsigned i = 0; i < n; ++i) r = (r << 7) | (p[i] & 127);
    return r;
  }

  bytes unsync(const bytes &b, bool last)
  {
    bytes r;
    for (std::size_t i = 0; i < b.size(); ++i) {
      r.push_back(b[i]);
      if (b[i] != 0xff) continue;
      if (i + 1 == b.size()) { if (last) r.push_back(0); }
      else if (b[i + 1] == 0 || b[i + 1] >= 0xe0) r.push_back(0);
    }
    return r;
  }

  bytes resync(const bytes &b)
  {
    bytes r;
    for (std::size_t i = 0; i < b.size(); ++i) {
      r.push_back(b[i]);
      if (b[i] == 0xff && i + 1 < b.size() && b[i + 1] == 0) ++i;
    }
    return r;
  }

  std::size_t false_syncs(const bytes &b)
  {
    std::size_t n = 0;
    for (std::size_t i = 0; i + 1 < b.size(); ++i) if (b[i] == 0xff && b[i + 1] >= 0xe0) ++n;
    return n;
  }

  std::size_t changed(const bytes &b)
  {
    std::size_t n = 0;
    for (std::size_t i = 0; i + 1 < b.size(); ++i) if (b[i] == 0xff && (b[i + 1] == 0 || b[i + 1] >= 0xe0)) ++n;
    return n;
  }

  static bytes deflate_(const bytes &b)
  {
    uLongf n = compressBound(b.size());
    bytes r(n);
    compress(r.data(), &n, b.data(), b.size());
    r.resize(n);
    return r;
  }

  static bool inflate_(const unsigned char *p, std::size_t n, std::size_t want, bytes &out)
  {
    if (want > (64u << 20)) return false;
    out.assign(want + 1, 0);
    uLongf m = want + 1;
    int st = uncompress(out.data(), &m, p, n);
    if (st != Z_OK || m != want) return false;
    out.resize(m);
    return true;
  }

  bytes enc_frame(int ver, const frame &f)
  {
    bytes r = B(f.id);
    if (2 == ver) {
      app(r, put_be(f.payload.size(), 3));
      app(r, f.payload);
      return r;
    }
    bytes body = f.compressed ? deflate_(f.payload) : f.payload;
    bytes ex;
    unsigned char f0 = 0, f1 = 0;
    if (3 == ver) {
      f0 = (f.tap ? 0x80 : 0) | (f.fap ? 0x40 : 0) | (f.ro ? 0x20 : 0);
      f1 = (f.compressed ? 0x80 : 0) | (f.enc ? 0x40 : 0) | (f.gid ? 0x20 : 0);
      if (f.compressed) app(ex, put_be(f.payload.size(), 4));
      if (f.enc) ex.push_back(*f.enc);
      if (f.gid) ex.push_back(*f.gid);
      app(r, put_be(ex.size() + body.size(), 4));
    } else {
      f0 = (f.tap ? 0x40 : 0) | (f.fap ? 0x20 : 0) | (f.ro ? 0x10 : 0);
      bool dli = f.dli || f.compressed;
      f1 = (f.gid ? 0x40 : 0) | (f.compressed ? 8 : 0) | (f.enc ? 4 : 0) | (f.unsync ? 2 : 0) | (dli ? 1 : 0);
      if (f.gid) ex.push_back(*f.gid);
      if (f.enc) ex.push_back(*f.enc);
      if (dli) app(ex, put_ss(f.payload.size()));
      if (f.unsync) body = unsync(body, true);
      app(r, put_ss(ex.size() + body.size()));
    }
    r.push_back(f0);
    r.push_back(f1);
    app(r, ex);
    app(r, body);
    return r;
  }

  bytes encode(const tag &t)
  {
    bytes body;
    if (3 == t.ver && t.ext) {
      app(body, put_be(t.crc ? 10 : 6, 4));
      body.push_back(t.crc ? 0x80 : 0);
      body.push_back(0);
      app(body, put_be(t.ext_padding, 4));
      if (t.crc) app(body, put_be(*t.crc, 4));
    }
    else if (4 == t.ver && t.ext) {
      bytes d;
      unsigned char fl = 0;
      if (t.update) { fl |= 0x40; d.push_back(0); }
      if (t.crc) { fl |= 0x20; d.push_back(5); app(d, put_ss(*t.crc, 5)); }
      if (t.restrictions) { fl |= 0x10; d.push_back(1); d.push_back(*t.restrictions); }
      app(body, put_ss(6 + d.size()));
      body.push_back(1);
      body.push_back(fl);
      app(body, d);
    }
    for (auto f: t.frames) {
      if (4 == t.ver && t.unsync) f.unsync = true;
      app(body, enc_frame(t.ver, f));
    }
    body.insert(body.end(), t.padding, 0);
    if (4 != t.ver && t.unsync) body = unsync(body, true);
    bytes r = B("ID3");
    r.push_back(t.ver);
    r.push_back(0);
    unsigned char fl = t.unsync ? 0x80 : 0;
    if (2 == t.ver) fl |= t.compression ? 0x40 : 0;
    if (3 <= t.ver) fl |= (t.ext ? 0x40 : 0) | (t.experimental ? 0x20 : 0);
    if (4 == t.ver) fl |= t.footer ? 0x10 : 0;
    r.push_back(fl);
    app(r, put_ss(body.size()));
    bytes hdr = r;
    app(r, body);
    if (4 == t.ver && t.footer) { hdr[0] = '3'; hdr[1] = 'D'; hdr[2] = 'I'; app(r, hdr); }
    return r;
  }

  static bool id_char(unsigned char c) { return (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9'); }

  bool decode(const bytes &b, std::size_t off, tag &t, std::size_t &used, std::string &err)
  {
    t = tag();
    auto bad = [&](const std::string &s) { err = s + " at offset " + std::to_string(off); return false; };
    if (b.size() < off + 10) return bad("too short for a header");
    const unsigned char *p = b.data() + off;
    if (p[0] != 'I' || p[1] != 'D' || p[2] != '3') return bad("no ID3 identifier");
    t.ver = p[3];
    if (t.ver < 2 || t.ver > 4 || p[4] == 0xff) return bad("bad version");
    unsigned char fl = p[5];
    t.unsync = fl & 0x80;
    if (2 == t.ver) { t.compression = fl & 0x40; if (fl & 0x3f) return bad("undefined header flags"); }
    else { t.ext = fl & 0x40; t.experimental = fl & 0x20; }
    if (3 == t.ver && (fl & 0x1f)) return bad("undefined header flags");
    if (4 == t.ver) { t.footer = fl & 0x10; if (fl & 0x0f) return bad("undefined header flags"); }
    for (int i = 6; i < 10; ++i) if (p[i] & 0x80) return bad("size is not sync-safe");
    std::size_t cb = get_ss(p + 6, 4);
    if (b.size() < off + 10 + cb + (t.footer ? 10 : 0)) return bad("tag overruns the file");
    used = 10 + cb + (t.footer ? 10 : 0);
    bytes body(p + 10, p + 10 + cb);
    if (4 != t.ver && t.unsync) {
      if (false_syncs(body)) return bad("false sync in unsynchronised tag");
      if (t.ver != 2 && !body.empty() && body.back() == 0xff) return bad("unsynchronised tag ends in ff");
      body = resync(body);
    }
    if (t.footer) {
      const unsigned char *q = p + 10 + cb;
      if (q[0] != '3' || q[1] != 'D' || q[2] != 'I' || std::memcmp(q + 3, p + 3, 7)) return bad("bad footer");
    }
    std::size_t i = 0, n = body.size();
    const unsigned char *q = body.data();
    if (t.ext && 3 == t.ver) {
      if (n < 10) return bad("truncated extended header");
      std::size_t cx = be32(q);
      if (cx != 6 && cx != 10) return bad("bad extended header size " + std::to_string(cx));
      if ((q[4] & 0x7f) || q[5]) return bad("bad extended header flags");
      if (((q[4] & 0x80) != 0) != (cx == 10)) return bad("extended header size & flags disagree");
      t.ext_padding = be32(q + 6);
      if (cx == 10) { if (n < 14) return bad("truncated extended header"); t.crc = be32(q + 10); }
      i = 4 + cx;
    }
    else if (t.ext) {
      if (n < 6) return bad("truncated extended header");
      std::size_t cx = get_ss(q, 4);
      if (cx < 6 || cx > n || q[4] != 1) return bad("bad extended header");
      std::size_t k = 6;
      unsigned char xf = q[5];
      if (xf & 0x8f) return bad("bad extended header flags");
      if (xf & 0x40) { if (k + 1 > cx || q[k] != 0) return bad("bad update flag data"); t.update = true; k += 1; }
      if (xf & 0x20) { if (k + 6 > cx || q[k] != 5) return bad("bad CRC data"); t.crc = (std::uint32_t) get_ss(q + k + 1, 5); k += 6; }
      if (xf & 0x10) { if (k + 2 > cx || q[k] != 1) return bad("bad restrictions data"); t.restrictions = q[k + 1]; k += 2; }
      if (k != cx) return bad("extended header size mismatch");
      i = cx;
    }
    const std::size_t first = i;
    std::size_t idn = 2 == t.ver ? 3 : 4, hn = 2 == t.ver ? 6 : 10;
    while (i < n) {
      if (0 == q[i]) {
        for (std::size_t k = i; k < n; ++k) if (q[k]) return bad("non-zero padding at body offset " + std::to_string(k));
        t.padding = n - i;
        break;
      }
      if (i + hn > n) return bad("truncated frame header");
      frame f;
      f.id.assign(q + i, q + i + idn);
      for (unsigned char c: f.id) if (!id_char(c)) return bad("bad frame id " + vt::show(f.id));
      std::size_t sz;
      if (2 == t.ver) sz = q[i + 3] << 16 | q[i + 4] << 8 | q[i + 5];
      else if (3 == t.ver) sz = be32(q + i + 4);
      else {
        for (int k = 4; k < 8; ++k) if (q[i + k] & 0x80) return bad("frame size is not sync-safe");
        sz = get_ss(q + i + 4, 4);
      }
      if (i + hn + sz > n) return bad("frame " + f.id + " (" + std::to_string(sz) + " bytes) overruns the tag");
      const unsigned char *d = q + i + hn, *e = d + sz;
      auto need = [&](std::size_t k) { return (std::size_t)(e - d) >= k; };
      if (2 == t.ver) f.payload.assign(d, e);
      else {
        unsigned char f0 = q[i + 8], f1 = q[i + 9];
        if (3 == t.ver) {
          if ((f0 & 0x1f) || (f1 & 0x1f)) return bad("undefined frame flags in " + f.id);
          f.tap = f0 & 0x80; f.fap = f0 & 0x40; f.ro = f0 & 0x20;
          f.compressed = f1 & 0x80;
          std::size_t dec = 0;
          if (f1 & 0x80) { if (!need(4)) return bad("no decompressed size"); dec = be32(d); d += 4; }
          if (f1 & 0x40) { if (!need(1)) return bad("no encryption method"); f.enc = *d++; }
          if (f1 & 0x20) { if (!need(1)) return bad("no group"); f.gid = *d++; }
          if (f.compressed && !f.enc) { if (!inflate_(d, e - d, dec, f.payload)) return bad("cannot inflate " + f.id); }
          else f.payload.assign(d, e);
        } else {
          if ((f0 & 0x8f) || (f1 & 0xb0)) return bad("undefined frame flags in " + f.id);
          f.tap = f0 & 0x40; f.fap = f0 & 0x20; f.ro = f0 & 0x10;
          f.compressed = f1 & 8;
          f.unsync = f1 & 2;
          f.dli = f1 & 1;
          if (t.unsync && !f.unsync) return bad("tag is unsynchronised but frame " + f.id + " is not");
          std::size_t dec = 0;
          if (f1 & 0x40) { if (!need(1)) return bad("no group"); f.gid = *d++; }
          if (f1 & 4) { if (!need(1)) return bad("no encryption method"); f.enc = *d++; }
          if (f.compressed && !f.dli) return bad("compressed without data length indicator");
          if (f.dli) {
            if (!need(4)) return bad("no data length indicator");
            for (int k = 0; k < 4; ++k) if (d[k] & 0x80) return bad("data length indicator is not sync-safe");
            dec = get_ss(d, 4);
            d += 4;
          }
          bytes pl(d, e);
          if (f.unsync) {
            if (false_syncs(pl)) return bad("false sync in unsynchronised frame " + f.id);
            pl = resync(pl);
          }
          if (f.compressed && !f.enc) { if (!inflate_(pl.data(), pl.size(), dec, f.payload)) return bad("cannot inflate " + f.id); }
          else {
            if (f.dli && !f.enc && !f.compressed && dec != pl.size()) return bad("data length indicator of " + f.id + " is wrong");
            f.payload = pl;
          }
        }
      }
      t.frames.push_back(f);
      i += hn + sz;
    }
    // 2.3: of the frames, before unsynchronisation. 2.4: of everything but the
    // extended header-- whether before or after unsynchronisation isn't said.
    bool any = t.unsync;
    for (auto &f: t.frames) any = any || f.unsync;
    if (t.crc && (3 == t.ver || !any)) {
      std::size_t end = 3 == t.ver ? n - t.padding : n;
      t.sum = (std::uint32_t) crc32(crc32(0, nullptr, 0), q + first, end - first);
    }
    return true;
  }

  std::string show(const frame &f)
  {
    std::string r = f.id;
    if (f.tap) r += " tap";
    if (f.fap) r += " fap";
    if (f.ro) r += " ro";
    if (f.compressed) r += " compressed";
    if (f.enc) r += " enc=" + std::to_string(*f.enc);
    if (f.gid) r += " gid=" + std::to_string(*f.gid);
    if (f.unsync) r += " unsync";
    if (f.dli) r += " dli";
    return r + " " + vt::hex(f.payload.data(), f.payload.size(), 64);
  }

  std::string show(const tag &t)
  {
    std::string r = "ID3v2." + std::to_string(t.ver);
    if (t.unsync) r += " unsync";
    if (t.experimental) r += " exp";
    if (t.compression) r += " comp";
    if (t.ext) r += " ext";
    if (t.crc) r += " crc=" + std::to_string(*t.crc);
    if (t.update) r += " update";
    if (t.restrictions) r += " restr=" + std::to_string(*t.restrictions);
    if (t.footer) r += " footer";
    r += " padding=" + std::to_string(t.padding) + " {";
    for (auto &f: t.frames) r += show(f) + "; ";
    return r + "}";
  }

  bytes p_text(const ustr &s, int enc, bool be)
  {
    bytes r(1, (unsigned char) enc);
    app(r, enc_text(s, enc, be));
    return r;
  }

  static void nul(bytes &r, int enc) { r.push_back(0); if (enc == 1 || enc == 2) r.push_back(0); }

  bytes p_utext(const ustr &dsc, const ustr &s, int enc, bool be)
  {
    bytes r(1, (unsigned char) enc);
    app(r, enc_text(dsc, enc, be));
    nul(r, enc);
    app(r, enc_text(s, enc, be));
    return r;
  }

  bytes p_comment(const std::string &lang, const ustr &dsc, const ustr &s, int enc, bool be)
  {
    bytes r(1, (unsigned char) enc);
    app(r, lang);
    app(r, enc_text(dsc, enc, be));
    nul(r, enc);
    app(r, enc_text(s, enc, be));
    return r;
  }

  bytes p_popm(const bytes &owner, unsigned char rating, const bytes &counter)
  {
    bytes r(owner);
    r.push_back(0);
    r.push_back(rating);
    app(r, counter);
    return r;
  }

  bytes p_ufid(const bytes &owner, const bytes &id)
  {
    bytes r(owner);
    r.push_back(0);
    app(r, id);
    return r;
  }

  bytes p_encr(const bytes &owner, unsigned char method, const bytes &data)
  {
    bytes r(owner);
    r.push_back(0);
    r.push_back(method);
    app(r, data);
    return r;
  }

  bytes p_cloud(const std::string &owner, const cloud &c)
  {
    bytes r(1, 1);
    app(r, owner);
    r.push_back(0);
    for (auto &kv: c) {
      app(r, kv.first);
      r.push_back(0);
      std::size_t n = 0;
      for (auto &v: kv.second) n += v.size() + 1;
      app(r, put_be(n, 4));
      for (auto &v: kv.second) { app(r, v); r.push_back(0); }
    }
    return r;
  }

  bytes p_priv(const bytes &owner, const bytes &data) { return p_ufid(owner, data); }

  static void fix(bytes &r, const bytes &f, std::size_t n)
  {
    bytes x(f);
    x.resize(n, 0);
    app(r, x);
  }

  bytes encode(const v1 &t)
  {
    bytes r;
    auto part = [](const bytes &b, std::size_t from, std::size_t n) {
      bytes x;
      for (std::size_t i = from; i < from + n; ++i) x.push_back(i < b.size() ? b[i] : 0);
      return x;
    };
    if (t.enh) {
      app(r, B("TAG+"));
      app(r, part(t.title, 30, 60));
      app(r, part(t.artist, 30, 60));
      app(r, part(t.album, 30, 60));
      r.push_back(t.speed);
      fix(r, t.egenre, 30);
      fix(r, t.start, 6);
      fix(r, t.end, 6);
    }
    app(r, B("TAG"));
    app(r, part(t.title, 0, 30));
    app(r, part(t.artist, 0, 30));
    app(r, part(t.album, 0, 30));
    fix(r, t.year, 4);
    if (t.v11) { fix(r, t.comment, 28); r.push_back(0); r.push_back(t.track); }
    else fix(r, t.comment, 30);
    r.push_back(t.genre);
    return r;
  }

  bool decode_v1(const bytes &f, v1 &t, std::size_t &off)
  {
    t = v1();
    if (f.size() < 128) return false;
    const unsigned char *p = f.data() + f.size() - 128;
    if (p[0] != 'T' || p[1] != 'A' || p[2] != 'G') return false;
    off = f.size() - 128;
    t.title.assign(p + 3, p + 33);
    t.artist.assign(p + 33, p + 63);
    t.album.assign(p + 63, p + 93);
    t.year.assign(p + 93, p + 97);
    if (p[125] == 0 && p[126] != 0) { t.v11 = true; t.comment.assign(p + 97, p + 125); t.track = p[126]; }
    else t.comment.assign(p + 97, p + 127);
    t.genre = p[127];
    if (f.size() >= 355) {
      const unsigned char *e = f.data() + f.size() - 355;
      if (!std::memcmp(e, "TAG+", 4)) {
        t.enh = true;
        off = f.size() - 355;
        t.title.insert(t.title.end(), e + 4, e + 64);
        t.artist.insert(t.artist.end(), e + 64, e + 124);
        t.album.insert(t.album.end(), e + 124, e + 184);
        t.speed = e[184];
        t.egenre.assign(e + 185, e + 215);
        t.start.assign(e + 215, e + 221);
        t.end.assign(e + 221, e + 227);
      }
    }
    return true;
  }

  std::string show(const v1 &t)
  {
    return std::string("ID3v1") + (t.v11 ? ".1" : "") + (t.enh ? " enhanced" : "") + " title=" + vt::show(vt::S(t.title)) +
      " artist=" + vt::show(vt::S(t.artist)) + " album=" + vt::show(vt::S(t.album)) + " year=" + vt::show(vt::S(t.year)) +
      " comment=" + vt::show(vt::S(t.comment)) + " track=" + std::to_string(t.track) + " genre=" + std::to_string(t.genre) +
      (t.enh ? " speed=" + std::to_string(t.speed) + " egenre=" + vt::show(vt::S(t.egenre)) + " start=" + vt::show(vt::S(t.start)) +
       " end=" + vt::show(vt::S(t.end)) : "");
  }

  std::size_t split_file(const bytes &file, std::vector<tag> &tags, std::string &err)
  {
    std::size_t off = 0;
    tags.clear();
    while (file.size() >= off + 10 && !std::memcmp(file.data() + off, "ID3", 3)) {
      tag t;
      std::size_t used;
      if (!decode(file, off, t, used, err)) return off;
      tags.push_back(t);
      off += used;
    }
    return off;
  }
}
