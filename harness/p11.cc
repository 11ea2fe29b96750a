/* P11 -- character conversions are exact or refused. */
#include "gen.hh"

#include <scribbu/charsets.hh>

#include <algorithm>
#include <cerrno>
#include <clocale>
#include <locale>
#include <optional>

#include <fcntl.h>
#include <iconv.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

using namespace vt;
using namespace gen;
using scribbu::encoding;
using scribbu::on_no_encoding;

namespace {

  ////////////////////////////////////////////////////////////////////////////
  // the oracles

  struct names { encoding enc; const char *name; };
  /// The encodings as iconv(3) knows them
  const names NAMES[] = {
    { encoding::ASCII, "US-ASCII" }, { encoding::ISO_8859_1, "LATIN1" }, { encoding::ISO_8859_2, "ISO_8859-2" },
    { encoding::ISO_8859_3, "ISO_8859-3" }, { encoding::ISO_8859_4, "ISO_8859-4" }, { encoding::ISO_8859_5, "ISO_8859-5" },
    { encoding::ISO_8859_7, "ISO_8859-7" }, { encoding::ISO_8859_9, "ISO_8859-9" }, { encoding::ISO_8859_10, "ISO_8859-10" },
    { encoding::ISO_8859_13, "ISO-8859-13" }, { encoding::ISO_8859_14, "ISO_8859-14" }, { encoding::ISO_8859_15, "ISO_8859-15" },
    { encoding::ISO_8859_16, "ISO_8859-16" }, { encoding::KOI8_R, "KOI8-R" }, { encoding::KOI8_U, "KOI8-U" }, { encoding::KOI8_RU, "KOI8-RU" },
    { encoding::CP1250, "WINDOWS-1250" }, { encoding::CP1251, "WINDOWS-1251" }, { encoding::CP1252, "WINDOWS-1252" },
    { encoding::CP1253, "WINDOWS-1253" }, { encoding::CP1254, "WINDOWS-1254" }, { encoding::CP1257, "WINDOWS-1257" },
    { encoding::CP850, "IBM850" }, { encoding::CP866, "IBM866" }, { encoding::CP1131, "CP1131" }, { encoding::MacRoman, "MacRoman" },
    { encoding::MacCentralEurope, "MacCentralEurope" }, { encoding::MacIceland, "MacIceland" }, { encoding::MacCroatian, "MacCroatian" },
    { encoding::MacRomania, "MacRomania" }, { encoding::MacCyrillic, "MAC-CYRILLIC" }, { encoding::MacUkraine, "MacUkraine" },
    { encoding::MacGreek, "MacGreek" }, { encoding::MacTurkish, "MacTurkish" }, { encoding::Macintosh, "MACINTOSH" },
    { encoding::ISO_8859_6, "ISO_8859-6" }, { encoding::ISO_8859_8, "ISO_8859-8" }, { encoding::CP1255, "WINDOWS-1255" },
    { encoding::CP1256, "WINDOWS-1256" }, { encoding::CP862, "IBM862" }, { encoding::MacHebrew, "MacHebrew" }, { encoding::MacArabic, "MacArabic" },
    { encoding::EUC_JP, "EUCJP" }, { encoding::SHIFT_JIS, "SJIS" }, { encoding::CP932, "WINDOWS-31J" }, { encoding::ISO_2022_JP, "ISO-2022-JP" },
    { encoding::ISO_2022_JP_2, "ISO-2022-JP-2" }, { encoding::ISO_2022_JP_1, "ISO-2022-JP-1" }, { encoding::ISO_2022_JP_MS, "ISO-2022-JP-MS" },
    { encoding::EUC_CN, "GB2312" }, { encoding::HZ, "HZ" }, { encoding::GBK, "GBK" }, { encoding::CP936, "WINDOWS-936" }, { encoding::GB18030, "GB18030" },
    { encoding::EUC_TW, "EUCTW" }, { encoding::BIG5, "BIG-FIVE" }, { encoding::CP950, "CP950" }, { encoding::BIG5_HKSCS, "BIG5HKSCS" },
    { encoding::BIG5_HKSCS_2004, "BIG5-HKSCS:2004" }, { encoding::BIG5_HKSCS_2001, "BIG5-HKSCS:2001" }, { encoding::BIG5_HKSCS_1999, "BIG5-HKSCS:1999" },
    { encoding::ISO_2022_CN, "ISO-2022-CN" }, { encoding::ISO_2022_CN_EXT, "ISO-2022-CN-EXT" },
    { encoding::EUC_KR, "EUCKR" }, { encoding::CP949, "UHC" }, { encoding::ISO_2022_KR, "ISO-2022-KR" }, { encoding::JOHAB, "CP1361" },
    { encoding::ARMSCII_8, "ARMSCII-8" }, { encoding::Georgian_Academy, "GEORGIAN-ACADEMY" }, { encoding::Georgian_PS, "GEORGIAN-PS" },
    { encoding::KOI8_T, "KOI8-T" }, { encoding::PT154, "PT154" }, { encoding::RK1048, "STRK1048-2002" },
    { encoding::TIS_620, "TIS620" }, { encoding::CP874, "WINDOWS-874" }, { encoding::MacThai, "MacThai" }, { encoding::MuleLao_1, "MuleLao-1" },
    { encoding::CP1133, "IBM1133" }, { encoding::VISCII, "VISCII" }, { encoding::TCVN, "TCVN5712-1" }, { encoding::CP1258, "WINDOWS-1258" },
    { encoding::HP_ROMAN8, "HP-ROMAN8" }, { encoding::NEXTSTEP, "NEXTSTEP" },
    { encoding::UTF_8, "UTF8" }, { encoding::UCS_2, "UCS2" }, { encoding::UCS_2BE, "UCS-2BE" }, { encoding::UCS_2LE, "UCS-2LE" },
    { encoding::UCS_4, "UCS4" }, { encoding::UCS_4BE, "UCS-4BE" }, { encoding::UCS_4LE, "UCS-4LE" },
    { encoding::UTF_16, "UTF16" }, { encoding::UTF_16BE, "UTF-16BE" }, { encoding::UTF_16LE, "UTF-16LE" },
    { encoding::UTF_32, "UTF32" }, { encoding::UTF_32BE, "UTF-32BE" }, { encoding::UTF_32LE, "UTF-32LE" },
    { encoding::UTF_7, "UTF7" }, { encoding::C99, "C99" }, { encoding::JAVA, "JAVA" },
  };
  const std::size_t N = sizeof(NAMES) / sizeof(NAMES[0]);

  const char* name(encoding e)
  {
    for (auto &n: NAMES) if (n.enc == e) return n.name;
    return "?";
  }

  /// Same names in operator<<
  std::string shown(encoding e) { std::ostringstream os; os << e; return os.str(); }

  struct result {
    bool known = true;  // both encodings are to be had
    bool ok = false;
    bytes out;
    bool lossy = false; // something was replaced or dropped
  };

  /// iconv, with a buffer that's large enough in any event
  result oracle(const bytes &in, encoding from, encoding to, on_no_encoding rsp)
  {
    result r;
    std::string t = name(to);
    if (rsp == on_no_encoding::transliterate) t += "//TRANSLIT";
    if (rsp == on_no_encoding::ignore) t += "//IGNORE";
    iconv_t d = iconv_open(t.c_str(), name(from));
    if (d == (iconv_t) -1) {
      r.known = false;
      return r;
    }
    r.out.resize(64 + 16 * in.size());
    char *pi = (char*) in.data(), *po = (char*) r.out.data();
    std::size_t ni = in.size(), no = r.out.size();
    std::size_t st = iconv(d, &pi, &ni, &po, &no);
    r.ok = st != (std::size_t) -1;
    r.lossy = st != 0;
    if (rsp == on_no_encoding::ignore) {
      // glibc reports this when it has dropped something
      while (!r.ok && errno == EILSEQ && ni) {
        std::size_t was = ni;
        r.ok = iconv(d, &pi, &ni, &po, &no) != (std::size_t) -1;
        if (ni == was) break;
      }
      if (!r.ok && errno == EILSEQ && !ni) r.ok = true;
    }
    if (r.ok) r.ok = iconv(d, nullptr, nullptr, &po, &no) != (std::size_t) -1;
    iconv_close(d);
    r.out.resize(r.out.size() - no);
    return r;
  }

  struct table { encoding enc; std::uint16_t hi[128]; };
  const table TABLES[] = {
#include "charsets.inc"
  };

  /// Encoders & decoders of our own, for as many encodings as we can
  enum form { SINGLE, U8, U16B, U16L, U32B, U32L, NONE };
  form form_of(encoding e, const table **pt = nullptr)
  {
    switch (e) {
    case encoding::UTF_8: return U8;
    case encoding::UTF_16BE: return U16B;
    case encoding::UTF_16LE: return U16L;
    case encoding::UCS_4: case encoding::UCS_4BE: case encoding::UTF_32BE: return U32B;
    case encoding::UCS_4LE: case encoding::UTF_32LE: return U32L;
    default: break;
    }
    for (auto &t: TABLES) if (t.enc == e) { if (pt) *pt = &t; return SINGLE; }
    return NONE;
  }

  bool encode1(encoding e, char32_t c, bytes &out)
  {
    const table *t = nullptr;
    switch (form_of(e, &t)) {
    case SINGLE:
      if (c < 0x80) { out.push_back(c); return true; }
      for (int i = 0; i < 128; ++i) if (t->hi[i] == c) { out.push_back(0x80 + i); return true; }
      return false;
    case U8: app(out, ref::utf8(ustr(1, c))); return true;
    case U16B: case U16L: {
      bool be = form_of(e) == U16B;
      auto put = [&](unsigned x) { if (be) { out.push_back(x >> 8); out.push_back(x); } else { out.push_back(x); out.push_back(x >> 8); } };
      if (c >= 0x10000) { put(0xd800 + ((c - 0x10000) >> 10)); put(0xdc00 + ((c - 0x10000) & 0x3ff)); } else put(c);
      return true;
    }
    case U32B: for (int i = 24; i >= 0; i -= 8) out.push_back(c >> i); return true;
    case U32L: for (int i = 0; i < 32; i += 8) out.push_back(c >> i); return true;
    default: return false;
    }
  }

  ////////////////////////////////////////////////////////////////////////////
  // the generators

  char32_t letter(source &s, encoding e)
  {
    const table *t = nullptr;
    if (form_of(e, &t) == SINGLE && s.chance(2, 3)) {
      char32_t c = t->hi[s.below(128)];
      if (c) return c;
    }
    static const std::pair<char32_t, char32_t> R[] = {
      { 'a', 'z' }, { 0x20, 0x7e }, { 0xa0, 0xff }, { 0x100, 0x17f }, { 0x391, 0x3c9 }, { 0x410, 0x44f }, { 0x5d0, 0x5ea }, { 0x621, 0x64a },
      { 0xe01, 0xe3a }, { 0x3041, 0x3093 }, { 0x30a1, 0x30f6 }, { 0x4e00, 0x4eff }, { 0x5000, 0x9fa5 }, { 0xac00, 0xd7a3 }, { 0x1ea0, 0x1ef9 },
      { 0x10d0, 0x10f0 }, { 0x531, 0x586 }, { 0xff01, 0xff5e }, { 0xff66, 0xff9d }, { 0x2010, 0x2044 }, { 0x1f300, 0x1f64f }, { 0x20000, 0x2a6d6 },
      { 1, 0x1f }, { 0x300, 0x330 },
    };
    std::size_t i = s.weighted({ 8, 3, 3, 2, 2, 2, 1, 1, 1, 2, 2, 2, 2, 2, 1, 1, 1, 1, 1, 2, 1, 1, 1, 1 });
    return s.range(R[i].first, R[i].second);
  }

  ustr words(source &s, encoding e)
  {
    std::size_t n = s.small(30);
    if (s.chance(1, 60)) n = s.pick({ 500, 2040, 4096, 8000, 8160, 8192, 9000, 20000 }) + s.below(5);
    ustr u;
    std::size_t period = n > 100 ? 1 + s.below(40) : n;
    for (std::size_t i = 0; i < std::min(n, period); ++i) u.push_back(letter(s, e));
    while (u.size() < n) u.push_back(u[u.size() - period]);
    return u;
  }

  encoding any(source &s)
  {
    if (s.chance(1, 2)) return NAMES[s.below(N)].enc;
    return s.pick({ encoding::UTF_8, encoding::ISO_8859_1, encoding::ASCII, encoding::UTF_16BE, encoding::UTF_16LE, encoding::UTF_16, encoding::UTF_32,
                    encoding::CP1252, encoding::SHIFT_JIS, encoding::ISO_2022_JP, encoding::ISO_2022_KR, encoding::GB18030, encoding::UCS_2, encoding::UCS_4 });
  }

  bool narrow(encoding e);

  encoding any_narrow(source &s)
  {
    encoding e = any(s);
    for (int i = 0; i < 8 && !narrow(e); ++i) e = any(s);
    return s.chance(1, 40) ? any(s) : e;
  }

  bool narrow(encoding e)
  {
    switch (e) {
    case encoding::UCS_2: case encoding::UCS_2BE: case encoding::UCS_2LE: case encoding::UCS_4: case encoding::UCS_4BE: case encoding::UCS_4LE:
    case encoding::UTF_16: case encoding::UTF_16BE: case encoding::UTF_16LE: case encoding::UTF_32: case encoding::UTF_32BE: case encoding::UTF_32LE:
    case encoding::UTF_7: case encoding::C99: case encoding::JAVA:
      return false;
    default:
      return true;
    }
  }

  on_no_encoding policy(source &s)
  {
    switch (s.weighted({ 3, 1, 1 })) {
    case 0: return on_no_encoding::fail;
    case 1: return on_no_encoding::ignore;
    default: return on_no_encoding::transliterate;
    }
  }

  const char *POLICY[] = { "fail", "transliterate", "ignore" };

  /// `u' in the encoding, less what it hasn't got
  bytes source_text(encoding from, ustr &u)
  {
    bytes in;
    if (form_of(from) != NONE) {
      ustr v;
      for (auto c: u) if (encode1(from, c, in)) v.push_back(c);
      u = v;
      return in;
    }
    bytes b;
    for (auto c: u) encode1(encoding::UTF_8, c, b);
    result r = oracle(b, encoding::UTF_8, from, on_no_encoding::ignore);
    // What survives
    result back = oracle(r.out, from, encoding::UTF_32BE, on_no_encoding::fail);
    u.clear();
    if (r.known && r.ok && back.ok) {
      for (std::size_t i = 0; i + 3 < back.out.size(); i += 4) {
        u.push_back(char32_t(back.out[i]) << 24 | back.out[i + 1] << 16 | back.out[i + 2] << 8 | back.out[i + 3]);
      }
      return r.out;
    }
    return bytes();
  }

  bytes stripped(bytes b, encoding to)
  {
    if (to == encoding::UTF_8 && b.size() > 2 && b[0] == 0xef && b[1] == 0xbb && b[2] == 0xbf) b.erase(b.begin(), b.begin() + 3);
    while (b.size() && (b.back() == 0 || b.back() == ' ')) b.pop_back();
    return b;
  }

  /// What our own tables say; none if they don't
  std::optional<result> own(const ustr &u, encoding from, encoding to, on_no_encoding rsp)
  {
    if (form_of(from) == NONE || form_of(to) == NONE) return std::nullopt;
    result r;
    r.ok = true;
    for (auto c: u) {
      if (c >= 0xe0000 && c < 0xe0080) return std::nullopt;
      if (encode1(to, c, r.out)) continue;
      r.lossy = true;
      if (rsp == on_no_encoding::fail) { r.ok = false; return r; }
      if (rsp == on_no_encoding::transliterate) return std::nullopt;
    }
    return r;
  }

  ////////////////////////////////////////////////////////////////////////////

  void to_string(source &s, context &ctx)
  {
    encoding from = any(s), to = any_narrow(s);
    on_no_encoding rsp = policy(s);
    ustr u = words(s, s.flip() ? to : from);
    bytes in = source_text(from, u);
    bool cut = in.size() > 1 && s.chance(1, 8);
    if (cut) { // malformed, probably
      switch (s.below(3)) {
      case 0: in.resize(in.size() - 1); break;
      case 1: in[s.below(in.size())] = s.spicy(); break;
      default: in.insert(in.begin() + s.below(in.size()), s.spicy());
      }
    }
    bool plain = s.flip();
    NOTE(ctx, "from " << name(from) << " to " << name(to) << ", " << POLICY[(int) rsp] << ": " << in.size() << " bytes " << show(in) << (cut ? ", damaged" : ""));
    result want = oracle(in, from, to, rsp);
    bool ok = true;
    std::string got;
    try {
      if (plain) got = scribbu::convert_encoding<std::string>((const char*) in.data(), in.size(), from, to, rsp);
      else got = scribbu::convert_encoding<std::string>(in.data(), in.size(), from, to, rsp);
    } catch (const scribbu::iconv_error &x) {
      CHECK(std::strlen(x.what()) > 0 && x.get_errno(), "why", "no reason was given for refusing");
      ok = false;
    } catch (const scribbu::bad_code_unit &x) {
      CHECK(!narrow(to), "code-unit", "refused to convert to " << name(to));
      CHECK(std::strstr(x.what(), shown(to).c_str()), "code-unit-why", "the message " << show(std::string(x.what())) << " doesn't mention " << shown(to));
      ctx.checked(2);
      ctx.label("wide-target");
      return;
    }
    CHECK(narrow(to), "wide", "text in " << name(to) << " was returned as a string");
    if (in.empty()) {
      CHECK(ok && got.empty(), "empty", "converting nothing");
      ctx.checked();
      return;
    }
    if (!want.known) {
      CHECK(!ok, "unknown", "converted between encodings iconv doesn't know");
      ctx.checked();
      ctx.label("unknown-encoding");
      return;
    }
    CHECK_EQ(ok, want.ok, cut ? "malformed" : "refused", "text was converted");
    if (ok) CHECK_EQ(got, S(stripped(want.out, to)), "string", "the text");
    if (!cut) {
      auto o = own(u, from, to, rsp);
      if (o) {
        CHECK_EQ(ok, o->ok, "own-refused", "text was converted");
        if (ok) CHECK_EQ(got, S(stripped(o->out, to)), "own-string", "the text");
        ctx.label("own-tables");
      }
    }
    ctx.label(ok ? want.lossy ? POLICY[(int) rsp] : "exact" : cut ? "malformed" : "refused");
    ctx.checked(4);
    if (from != to && in.size()) ctx.nontrivial(hash(in, (int) from * 1000 + (int) to * 4 + (int) rsp));
  }

  void to_bytes(source &s, context &ctx)
  {
    encoding from = any_narrow(s), to = any(s);
    on_no_encoding rsp = policy(s);
    ustr u = words(s, s.flip() ? to : from);
    bool nul = s.chance(1, 12);
    if (nul && u.size()) u[s.below(u.size())] = 0;
    bytes in = source_text(from, u);
    bool cut = in.size() > 1 && s.chance(1, 8);
    if (cut) {
      switch (s.below(3)) {
      case 0: in.resize(in.size() - 1); break;
      case 1: in[s.below(in.size())] = s.spicy() | 1; break;
      default: in.insert(in.begin() + s.below(in.size()), s.spicy() | 1);
      }
    }
    bool bom = s.chance(1, 3);
    std::string text = S(in);
    int how = text.find('\0') != std::string::npos ? 0 : s.below(4);
    NOTE(ctx, "from " << name(from) << " to " << name(to) << ", " << POLICY[(int) rsp] << (bom ? ", with BOM" : "") << ": " << in.size() << " bytes " << show(in)
         << (cut ? ", damaged" : "") << ", overload " << how);
    result want = oracle(in, from, to, rsp);
    bool ok = true;
    bytes got;
    try {
      if (how == 0) got = scribbu::convert_encoding(text, from, to, bom, rsp);
      else if (how == 1) got = scribbu::convert_encoding(text.c_str(), from, to, bom, rsp);
      else if (how == 2) { const char *p = text.c_str(); got = scribbu::convert_encoding<const char*>(p, from, to, bom, rsp); }
      else { char *p = &text[0]; got = scribbu::convert_encoding<char*>(p, from, to, bom, rsp); }
    } catch (const scribbu::iconv_error &x) {
      CHECK(std::strlen(x.what()) > 0 && x.get_errno(), "why", "no reason was given for refusing");
      ok = false;
    } catch (const scribbu::bad_code_unit &x) {
      CHECK(!narrow(from), "code-unit", "refused to convert from " << name(from));
      CHECK(std::strstr(x.what(), shown(from).c_str()), "code-unit-why", "the message " << show(std::string(x.what())) << " doesn't mention " << shown(from));
      ctx.checked(2);
      ctx.label("wide-source");
      return;
    }
    CHECK(narrow(from), "wide", "a string was taken to be " << name(from));
    if (in.empty()) {
      CHECK(ok && got.empty(), "empty", "converting nothing");
      ctx.checked();
      return;
    }
    if (!want.known) {
      CHECK(!ok, "unknown", "converted between encodings iconv doesn't know");
      ctx.checked();
      return;
    }
    CHECK_EQ(ok, want.ok, cut ? "malformed" : "refused", "text was converted");
    bytes mark;
    if (bom) {
      switch (to) {
      case encoding::UCS_2: mark = { 0xff, 0xfe }; break; // x86
      case encoding::UCS_2BE: mark = { 0xfe, 0xff }; break;
      case encoding::UCS_2LE: mark = { 0xff, 0xfe }; break;
      default: if (form_of(to) != SINGLE && form_of(to) != NONE) encode1(to, 0xfeff, mark);
      }
    }
    if (ok) {
      bytes w = mark;
      app(w, want.out);
      CHECK_EQ(got, w, "bytes", "the text");
      if (mark.size()) ctx.label("bom");
    }
    if (!cut) {
      auto o = own(u, from, to, rsp);
      if (o) {
        CHECK_EQ(ok, o->ok, "own-refused", "text was converted");
        bytes w = mark;
        app(w, o->out);
        if (ok) CHECK_EQ(got, w, "own-bytes", "the text");
        ctx.label("own-tables");
      }
    }
    if (got.size() > 4 * in.size() + mark.size()) ctx.label("expanded");
    ctx.label(ok ? want.lossy ? POLICY[(int) rsp] : "exact" : cut ? "malformed" : "refused");
    // There & back again
    if (ok && !cut && rsp == on_no_encoding::fail && form_of(from) != NONE && narrow(from) && u.size() && u[0] != 0xfeff && (u.back() != ' ' && u.back() != 0) && !nul) {
      bytes naked(got.begin() + mark.size(), got.end());
      result again = oracle(want.out, to, from, on_no_encoding::fail);
      if (form_of(to) != NONE || again.out == in) {
        std::string back = scribbu::convert_encoding<std::string>(naked.data(), naked.size(), to, from);
        CHECK_EQ(back, S(in), "there-and-back", "the text, there & back again");
        ctx.label("there-and-back");
      }
    }
    ctx.checked(5);
    if (from != to && in.size()) ctx.nontrivial(hash(in, (int) from * 1000 + (int) to * 4 + (int) rsp + 1000000 * bom));
  }

  /// The names of encodings & policies
  void naming(source &s, context &ctx)
  {
    std::size_t i = s.below(N + 3);
    if (i < N) {
      std::string n = shown(NAMES[i].enc);
      NOTE(ctx, "encoding " << n);
      std::string tail = s.flip() ? " x" : "";
      std::istringstream is(n + tail);
      encoding e = encoding::MAX_ENCODING;
      is >> e;
      CHECK(e == NAMES[i].enc, "name", "the name " << n << " was read back as another encoding, " << (int) e);
      // The name printed is the one iconv gets, & means what we think it does
      std::string m = scribbu::detail::iconv_specific::string_for_encoding(NAMES[i].enc);
      ctx.nontrivial(hash(n + m));
    } else {
      on_no_encoding p = on_no_encoding(i - N), q = on_no_encoding(s.below(3));
      std::ostringstream os;
      os << p;
      CHECK_EQ(os.str(), std::string(POLICY[(int) p]), "policy", "the policy's name");
      std::istringstream is(os.str());
      is >> q;
      CHECK(p == q, "policy-read", "the policy " << os.str() << " was read back as another");
      ctx.nontrivial(hash(os.str()));
    }
    ctx.checked(2);
  }

  ////////////////////////////////////////////////////////////////////////////
  // locales, compiled on first use

  struct lc { const char *src, *charmap, *name; encoding enc; };
  const lc LOCALES[] = {
    { "de_DE", "ISO-8859-1", "de_DE.ISO8859-1", encoding::ISO_8859_1 },
    { "pl_PL", "ISO-8859-2", "pl_PL.ISO8859-2", encoding::ISO_8859_2 },
    { "ru_RU", "ISO-8859-5", "ru_RU.ISO8859-5", encoding::ISO_8859_5 },
    { "de_DE", "ISO-8859-15", "de_DE.ISO8859-15@euro", encoding::ISO_8859_15 },
    { "ru_RU", "CP1251", "ru_RU.CP1251", encoding::CP1251 },
    { "pl_PL", "CP1250", "pl_PL.CP1250", encoding::CP1250 },
    { "fr_FR", "CP1252", "fr_FR.CP1252", encoding::CP1252 },
    { "tr_TR", "CP1254", "tr_TR.CP1254", encoding::CP1254 },
    { "lt_LT", "CP1257", "lt_LT.CP1257", encoding::CP1257 },
    { "fr_FR", "UTF-8", "fr_FR.UTF-8", encoding::UTF_8 },
    { "ja_JP", "UTF-8", "ja_JP.utf8", encoding::UTF_8 },
  };

  const std::string& locpath(context &ctx)
  {
    static std::string dir;
    if (dir.empty()) {
      dir = ctx.scratch + "/../locales-" + std::to_string(getpid());
      mkdir(dir.c_str(), 0700);
    }
    return dir;
  }

  bool provide(context &ctx, const lc &l)
  {
    static std::map<std::string, bool> done;
    auto it = done.find(l.name);
    if (it != done.end()) return it->second;
    std::string to = locpath(ctx) + "/" + l.name;
    pid_t pid = fork();
    if (!pid) {
      int fd = open("/dev/null", O_RDWR);
      dup2(fd, 0);
      dup2(fd, 1);
      dup2(fd, 2);
      unsetenv("ASAN_OPTIONS");
      execlp("localedef", "localedef", "-c", "-f", l.charmap, "-i", l.src, to.c_str(), (char*) nullptr);
      _exit(127);
    }
    int st;
    waitpid(pid, &st, 0);
    return done[l.name] = !access((to + "/LC_CTYPE").c_str(), R_OK);
  }

  void locales(source &s, context &ctx)
  {
    const lc &l = LOCALES[s.below(sizeof(LOCALES) / sizeof(LOCALES[0]))];
    int how = s.below(7);
    static const char *HOW[] = { "LC_ALL", "LANG", "LC_CTYPE", "LC_CTYPE amid others", "a global locale", "C", "a locale that isn't installed" };
    NOTE(ctx, l.name << " by way of " << HOW[how]);
    if (how < 5 && !provide(ctx, l)) throw discard();
    // glibc & libstdc++ cache what they've loaded, so do all this in a child
    int fds[2];
    if (pipe(fds)) throw discard();
    std::string path = locpath(ctx);
    pid_t pid = fork();
    if (!pid) {
      close(fds[0]);
      for (auto v: { "LC_ALL", "LANG", "LC_CTYPE", "LC_NUMERIC", "LC_TIME", "LC_COLLATE", "LC_MONETARY", "LC_MESSAGES", "LC_PAPER", "LC_NAME",
                     "LC_ADDRESS", "LC_TELEPHONE", "LC_MEASUREMENT", "LC_IDENTIFICATION", "LANGUAGE" }) unsetenv(v);
      setenv("LOCPATH", path.c_str(), 1);
      int r = 250;
      try {
        switch (how) {
        case 0: setenv("LC_ALL", l.name, 1); break;
        case 1: setenv("LANG", l.name, 1); break;
        case 2: setenv("LC_CTYPE", l.name, 1); break;
        case 3: setenv("LANG", "C", 1); setenv("LC_CTYPE", l.name, 1); setenv("LC_COLLATE", "C", 1); break;
        case 4: std::locale::global(std::locale(l.name)); break;
        case 5: setenv("LC_ALL", "C", 1); break;
        default: setenv("LC_ALL", "xx_YY.KOI8-R", 1);
        }
        r = (int) scribbu::encoding_from_system_locale();
      } catch (const std::exception &) {
        r = 251;
      }
      unsigned char c = r;
      if (write(fds[1], &c, 1) != 1) _exit(3);
      _exit(0);
    }
    close(fds[1]);
    unsigned char c = 252;
    ssize_t n = read(fds[0], &c, 1);
    close(fds[0]);
    int st;
    waitpid(pid, &st, 0);
    CHECK(n == 1 && WIFEXITED(st) && !WEXITSTATUS(st), "locale-child", "examining the locale failed altogether");
    encoding want = how < 5 ? l.enc : encoding::UTF_8;
    CHECK(c == (unsigned char) want, "locale", "the locale's encoding is " << (c < (int) encoding::MAX_ENCODING ? name(encoding(c)) : "unknown") << " rather than " << name(want));
    ctx.checked(2);
    ctx.label("locale");
    ctx.nontrivial(hash(std::string(l.name), how));
  }
}

int main(int argc, char **argv)
{
  return run(argc, argv, spec {
      "P11", "text of some length was converted between different encodings, a name parsed or a locale consulted; distinct by text, encodings & policy",
      400000, 8000000,
      { { "to-string", 60, to_string }, { "to-bytes", 60, to_bytes }, { "naming", 4, naming }, { "locales", 1, locales } },
      { "iconv(3), used under names of our own & with ample space, is right about the encodings for which there's no table here",
        "trailing spaces & NULs are dropped in conversions to std::string (documented)",
        "locales are compiled with localedef(1) into the scratch directory; cases are discarded where that fails" },
    });
}
