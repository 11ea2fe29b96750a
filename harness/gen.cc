#include "gen.hh"

#include <algorithm>

using namespace gen;

namespace gen {

  bool fits(const ustr &t, rep r)
  {
    for (char32_t c: t) {
      if (r == ASCII && c > 0x7f) return false;
      if (r == LATIN1 && c > 0xff) return false;
      if (r == BMP && c > 0xffff) return false;
    }
    return true;
  }

  static char32_t one(source &s, int style)
  {
    switch (style) {
    case 0: { // letters
      unsigned n = s.below(27);
      return n == 26 ? U' ' : U'a' + n;
    }
    case 1: { // punctuation that matters to somebody
      static const char32_t P[] = U",\"'\\\t\n\r;&=%/:<>{}[]()|?*.~#+-_ \u0001\u001f\u007f$!@`^";
      return P[s.below(sizeof(P) / sizeof(P[0]) - 1)];
    }
    case 2: // ASCII
      return 0x20 + s.below(0x5f);
    case 3: { // Latin-1
      static const char32_t L[] = { 0xff, 0xfe, 0xe9, 0xe0, 0xfc, 0xdf, 0xa0, 0x80, 0x9f, 0xd8, 0xc0 };
      unsigned n = s.below(3);
      return n == 0 ? L[s.below(11)] : 0xa0 + s.below(0x60);
    }
    case 4: { // BMP
      switch (s.below(8)) {
      case 0: return 0x400 + s.below(0x50);
      case 1: return 0x4e00 + s.below(0x5000);
      case 2: return 0x3041 + s.below(0x50);
      case 3: return 0xff00 + s.below(0xe6) + 1;       // bytes ff xx
      case 4: return 0xe000 + s.below(0x1900);         // private use
      case 5: return 0x100 * (1 + s.below(0xd0)) + 0xff; // bytes xx ff
      case 6: return 0x100 * (1 + s.below(0xd0));      // bytes xx 00
      default: return 0x100 + s.below(0xd700);
      }
    }
    default:
      return 0x10000 + s.below(0x100000);
    }
  }

  ustr text(source &s, rep r, std::size_t max)
  {
    ustr out;
    std::size_t n = s.small(max);
    int mode = s.weighted({ 4, 2, 2, 3, 3 });
    int top = r == ASCII ? 2 : r == LATIN1 ? 3 : r == BMP ? 4 : 5;
    for (std::size_t i = 0; i < n; ++i) {
      int style = 0;
      switch (mode) {
      case 0: style = 0; break;
      case 1: style = 1; break;
      case 2: style = 2; break;
      case 3: style = top; break;
      default: style = s.below(top + 1);
      }
      char32_t c = one(s, style);
      if (c == 0xfeff || c == 0xfffe || c == 0xffff || (c >= 0xe0000 && c < 0xe0080) || (c >= 0xd800 && c < 0xe000)) c = 0x20ac;
      out.push_back(c);
    }
    return out;
  }

  ustr text1(source &s, rep r, std::size_t max)
  {
    ustr t = text(s, r, max);
    if (t.empty()) t = U"x";
    return t;
  }

  bytes cbytes(source &s, std::size_t max)
  {
    std::size_t n = s.small(max);
    bytes b;
    int mode = s.weighted({ 4, 2, 1 });
    for (std::size_t i = 0; i < n; ++i) {
      unsigned char c = mode == 0 ? 'a' + s.below(26) : mode == 1 ? 0x20 + s.below(0x5f) : s.spicy();
      if (0 == c) c = 0xff;
      b.push_back(c);
    }
    return b;
  }

  std::string cstr(source &s, std::size_t max)
  {
    bytes b = cbytes(s, max);
    return std::string(b.begin(), b.end());
  }

  const std::vector<std::string>& text_ids(int ver)
  {
    static const std::vector<std::string> V2 {
      "TT2", "TP1", "TAL", "TYE", "TRK", "TCO", "TEN", "TLA", "TT1", "TT3", "TP2", "TP3", "TP4", "TCM", "TXT",
      "TPA", "TRC", "TDA", "TIM", "TRD", "TMT", "TFT", "TBP", "TCR", "TPB", "TSS", "TOF", "TLE", "TSI", "TDY",
      "TKE", "TOT", "TOA", "TOL", "TOR" };
    static const std::vector<std::string> V3 {
      "TIT2", "TPE1", "TALB", "TYER", "TRCK", "TCON", "TENC", "TLAN", "TIT1", "TIT3", "TPE2", "TPE3", "TPE4",
      "TCOM", "TEXT", "TPOS", "TSRC", "TDAT", "TIME", "TRDA", "TMED", "TFLT", "TBPM", "TCOP", "TPUB", "TSSE",
      "TOFN", "TLEN", "TSIZ", "TDLY", "TKEY", "TOAL", "TOPE", "TOLY", "TORY", "TOWN", "TRSN", "TRSO" };
    return ver == 2 ? V2 : V3;
  }

  std::string opaque_id(source &s, int ver)
  {
    static const std::vector<std::string> V2 { "PIC", "WXX", "GEO", "MLL", "ULT", "TZZ", "XYZ", "CRM", "BUF", "T00" };
    static const std::vector<std::string> V3 { "APIC", "WXXX", "GEOB", "MCDI", "USLT", "TZZZ", "XYZW", "RVAD", "OWNE", "T000" };
    const std::vector<std::string> &v = ver == 2 ? V2 : V3;
    if (s.chance(3, 4)) return s.pick(v);
    static const char C[] = "ABDFGHIJKLMNOQRVWYZ0123456789";
    std::string id;
    id += C[s.below(19)];
    for (int i = 1; i < (ver == 2 ? 3 : 4); ++i) id += C[s.below(29)];
    return id;
  }

  const std::vector<std::string> languages { "eng", "ger", "fre", "jpn", "swe", "zxx" };

  scribbu::language language(const std::string &code)
  {
    using scribbu::language;
    if (code == "ger") return language::ger;
    if (code == "fre") return language::fre;
    if (code == "jpn") return language::jpn;
    if (code == "swe") return language::swe;
    if (code == "zxx") return language::zxx;
    return language::eng;
  }

  fdesc frame(source &s, int ver, const fopts &o)
  {
    static const kind K[] = { kind::text, kind::opaque, kind::comment, kind::utext, kind::count, kind::popm,
                              kind::ufid, kind::cloud, kind::priv, kind::encr };
    std::size_t i = s.weighted({ 6, 3, 4, 3, 3, 3, 2, 2, ver == 2 ? 0u : 2u, ver == 2 || !o.encr ? 0u : 1u });
    return frame(s, ver, K[i], o);
  }

  namespace {
    /// A length next to where some size field needs another bit or byte
    std::size_t boundary(source &s)
    {
      static const std::size_t B[] = { 127, 255, 511, 1023, 4095, 16383, 32767, 65535, 0x1fffff };
      std::size_t b = B[s.weighted({ 8, 8, 2, 2, 4, 8, 8, 6, 1 })];
      return b + 4 - s.below(24);
    }

    template <typename T> void grow(T &x, std::size_t n)
    {
      T y = x;
      x.reserve(n);
      while (x.size() < n) x.insert(x.end(), y.begin(), y.end());
      x.resize(n);
    }
  }

  fdesc frame(source &s, int ver, kind k, const fopts &o)
  {
    fdesc d;
    d.k = k;
    if (k == kind::text || k == kind::comment || k == kind::utext) {
      d.enc = ver == 4 ? s.weighted({ 2, 2, 1, 2 }) : s.weighted({ 1, 1 });
      d.be = d.enc == 1 && s.flip();
    }
    rep r = d.enc == 0 ? LATIN1 : ver == 4 ? FULL : BMP;
    switch (k) {
    case kind::text:
      d.id = s.chance(1, 2) ? text_ids(ver)[s.below(8)] : s.pick(text_ids(ver));
      d.text = gen::text(s, r, o.max_text);
      if (ver == 4 && o.multi && s.chance(1, 6)) {
        d.text.push_back(0);
        d.text += gen::text1(s, r, o.max_text);
      }
      break;
    case kind::opaque:
      d.id = opaque_id(s, ver);
      d.data = s.blob_upto(o.max_data);
      if (d.data.empty() && !o.empty_opaque) d.data.push_back(s.spicy());
      break;
    case kind::comment:
      d.id = ver == 2 ? "COM" : "COMM";
      d.lang = s.chance(5, 6) ? s.pick(languages) : std::string({ (char)s.spicy(), (char)s.spicy(), (char)s.spicy() });
      d.dsc = gen::text(s, r, o.max_text / 2);
      d.text = gen::text(s, r, o.max_text);
      break;
    case kind::utext:
      d.id = ver == 2 ? "TXX" : "TXXX";
      d.dsc = gen::text(s, r, o.max_text / 2);
      d.text = gen::text(s, r, o.max_text);
      break;
    case kind::count:
      d.id = ver == 2 ? "CNT" : "PCNT";
      d.data = s.blob(s.weighted({ 1, 1, 1, 4, 1, 1, 1, 1 }) + 1);
      break;
    case kind::popm:
      d.id = ver == 2 ? "POP" : "POPM";
      d.owner = cbytes(s);
      d.num = s.spicy();
      d.data = s.blob(s.weighted({ 1, 1, 1, 1, 4, 1, 1, 1, 1 }));
      break;
    case kind::ufid:
      d.id = ver == 2 ? "UFI" : "UFID";
      d.owner = cbytes(s);
      d.data = s.blob_upto(o.max_data);
      break;
    case kind::cloud: {
      d.id = ver == 2 ? "XTG" : "XTAG";
      d.owner = cbytes(s);
      std::size_t n = s.below(4);
      for (std::size_t i = 0; i < n; ++i) {
        std::set<std::string> v;
        std::size_t m = s.below(4);
        for (std::size_t j = 0; j < m; ++j) v.insert(cstr(s, 8));
        d.cloud[cstr(s, 8)] = v;
      }
      break;
    }
    case kind::priv:
      d.id = "PRIV";
      d.owner = cbytes(s);
      d.data = s.blob_upto(o.max_data);
      break;
    case kind::encr:
      d.id = "ENCR";
      d.owner = cbytes(s);
      d.num = s.byte();
      d.data = s.blob_upto(o.max_data);
      break;
    }
    if (o.big && s.chance(1, o.big)) {
      std::size_t n = boundary(s);
      if (d.text.size()) grow(d.text, d.enc == 1 || d.enc == 2 ? n / 2 : n);
      if (d.data.size() && k != kind::count && k != kind::popm) grow(d.data, n);
      if (k == kind::popm && d.owner.size()) grow(d.owner, n);
    }
    if (ver != 2 && o.flags && s.chance(1, 2)) {
      d.tap = s.flip();
      d.fap = s.flip();
      d.ro = s.flip();
      if (o.compress) d.compressed = s.chance(1, 3);
      if (s.chance(1, 3)) {
        d.gid = s.spicy();
        if (ver == 4 && *d.gid == 0xff) d.gid = 0xfe; // cf. refid3.hh
      }
      if (ver == 4) {
        d.dli = d.compressed || s.chance(1, 3);
      }
    }
    if (ver == 4 && o.v24_unsync) d.unsync = s.flip();
    return d;
  }

  bytes payload(const fdesc &d)
  {
    switch (d.k) {
    case kind::text: return ref::p_text(d.text, d.enc, d.be);
    case kind::utext: return ref::p_utext(d.dsc, d.text, d.enc, d.be);
    case kind::comment: return ref::p_comment(d.lang, d.dsc, d.text, d.enc, d.be);
    case kind::popm: return ref::p_popm(d.owner, d.num, d.data);
    case kind::ufid: return ref::p_ufid(d.owner, d.data);
    case kind::encr: return ref::p_encr(d.owner, d.num, d.data);
    case kind::cloud: return ref::p_cloud(std::string(d.owner.begin(), d.owner.end()), d.cloud);
    case kind::priv: return ref::p_priv(d.owner, d.data);
    default: return d.data;
    }
  }

  ref::frame to_ref(int ver, const fdesc &d)
  {
    ref::frame f;
    f.id = d.id;
    f.payload = payload(d);
    if (ver != 2) {
      f.tap = d.tap; f.fap = d.fap; f.ro = d.ro; f.compressed = d.compressed; f.gid = d.gid;
      f.unsync = d.unsync; f.dli = d.dli;
    }
    return f;
  }

  std::string show(const fdesc &d)
  {
    std::ostringstream os;
    os << d.id << "{";
    if (d.k == kind::text || d.k == kind::utext || d.k == kind::comment) {
      os << "enc=" << d.enc << (d.be ? "be" : "") << " text=" << vt::show(ref::utf8(d.text));
      if (d.k != kind::text) os << " dsc=" << vt::show(ref::utf8(d.dsc));
      if (d.k == kind::comment) os << " lang=" << vt::show(d.lang);
    } else {
      if (d.owner.size()) os << " owner=" << vt::show(d.owner);
      if (d.data.size()) os << " data=" << vt::show(d.data);
      if (d.k == kind::popm || d.k == kind::encr) os << " num=" << (unsigned) d.num;
      for (auto &kv: d.cloud) {
        os << " " << vt::show(kv.first) << "=";
        for (auto &v: kv.second) os << vt::show(v) << ",";
      }
    }
    if (d.tap) os << " tap";
    if (d.fap) os << " fap";
    if (d.ro) os << " ro";
    if (d.compressed) os << " compressed";
    if (d.unsync) os << " unsync";
    if (d.dli) os << " dli";
    if (d.gid) os << " gid=" << (unsigned) *d.gid;
    os << "}";
    return os.str();
  }

  std::uint64_t number(const bytes &b)
  {
    std::uint64_t n = 0;
    for (auto c: b) n = (n << 8) | c;
    return n;
  }

  const std::string* view::get(const std::string &k) const
  {
    for (auto &kv: fields) if (kv.first == k) return &kv.second;
    return nullptr;
  }

  std::string view::str() const
  {
    std::string out = "{";
    for (auto &kv: fields) out += kv.first + "=" + kv.second + " ";
    return out + "}";
  }

  bool agrees(const view &actual, const view &expected, std::string &why)
  {
    for (auto &kv: expected.fields) {
      const std::string *p = actual.get(kv.first);
      if (!p || *p != kv.second) {
        why = kv.first + " is " + (p ? *p : std::string("absent")) + ", expected " + kv.second;
        return false;
      }
    }
    return true;
  }

  // Long values are abbreviated, but still told apart
  static std::string S(const bytes &b)
  {
    std::string r = vt::hex(b.data(), b.size());
    if (b.size() > 200) r += " #" + std::to_string(vt::hash(b));
    return r;
  }
  static std::string S(const std::string &s)
  {
    std::string r = vt::show(s);
    if (s.size() > 400) r += " #" + std::to_string(vt::hash(s));
    return r;
  }
  static std::string S(bool b) { return b ? "yes" : "no"; }
  static std::string N(std::uint64_t n) { return std::to_string(n); }

  static const char* name(kind k)
  {
    switch (k) {
    case kind::text: return "text"; case kind::opaque: return "opaque"; case kind::comment: return "comment";
    case kind::utext: return "utext"; case kind::count: return "count"; case kind::popm: return "popm";
    case kind::ufid: return "ufid"; case kind::cloud: return "cloud"; case kind::priv: return "priv";
    default: return "encr";
    }
  }

  static std::string cloudstr(const ref::cloud &c)
  {
    std::string out;
    for (auto &kv: c) {
      out += S(kv.first) + "=(";
      for (auto &v: kv.second) out += S(v) + " ";
      out += ")";
    }
    return out;
  }

  std::string decoded(const ustr &u)
  {
    // Documented where scribbu decodes text: trailing spaces & NULs are
    // dropped
    std::string s = ref::utf8(u);
    while (s.size() && (s.back() == ' ' || s.back() == 0)) s.pop_back();
    return s;
  }

  view expect(int ver, const fdesc &d, bool raw, bool unsync)
  {
    view v;
    v.add("id", S(d.id));
    v.add("kind", name(d.k));
    switch (d.k) {
    case kind::text:
      v.add("text", S(decoded(d.text)));
      v.add("unicode", N(d.enc));
      if (raw) v.add("textb", S(ref::enc_text(d.text, d.enc, d.be)));
      break;
    case kind::utext:
    case kind::comment:
      v.add("text", S(decoded(d.text)));
      v.add("dsc", S(decoded(d.dsc)));
      v.add("unicode", N(d.enc));
      if (d.k == kind::comment) v.add("lang", S(d.lang));
      if (raw) {
        v.add("textb", S(ref::enc_text(d.text, d.enc, d.be)));
        v.add("dscb", S(ref::enc_text(d.dsc, d.enc, d.be)));
      }
      break;
    case kind::count:
      v.add("count", N(number(d.data)));
      if (raw) v.add("counterb", S(d.data));
      break;
    case kind::popm:
      v.add("owner", S(d.owner));
      v.add("rating", N(d.num));
      v.add("count", N(number(d.data)));
      if (raw) v.add("counterb", S(d.data));
      break;
    case kind::ufid:
      v.add("owner", S(d.owner));
      v.add("data", S(d.data));
      break;
    case kind::encr:
      v.add("owner", S(d.owner));
      v.add("method", N(d.num));
      v.add("data", S(d.data));
      break;
    case kind::priv:
      v.add("owner", S(d.owner));
      v.add("data", S(d.data));
      break;
    case kind::cloud:
      v.add("owner", S(d.owner));
      v.add("cloud", cloudstr(d.cloud));
      break;
    case kind::opaque:
      v.add("data", S(d.data));
      break;
    }
    if (raw) v.add("size", N(payload(d).size()));
    char c = d.id[0];
    v.add("experimental", S(c == 'X' || c == 'Y' || c == 'Z'));
    if (ver != 2) {
      v.add("tap", S(d.tap));
      v.add("fap", S(d.fap));
      v.add("ro", S(d.ro));
      v.add("compressed", S(d.compressed));
      v.add("grouped", S(bool(d.gid)));
      v.add("encrypted", S(false));
      if (ver == 4 && unsync) v.add("unsync", S(d.unsync));
    }
    return v;
  }

  template <typename T> static std::string guarded(T fn)
  {
    try {
      return fn();
    } catch (const std::exception &ex) {
      return std::string("exception: ") + ex.what();
    }
  }

  template <typename F> static void look_flags(const F &f, view &v)
  {
    typedef scribbu::id3v2_3_plus_frame P;
    v.add("tap", S(f.tag_alter_preserve() == P::tag_alter_preservation::discard));
    v.add("fap", S(f.file_alter_preserve() == P::file_alter_preservation::discard));
    v.add("ro", S(f.readonly() == P::read_only::set));
    v.add("compressed", S(f.compressed()));
    v.add("grouped", S(f.grouped()));
    v.add("encrypted", S(f.encrypted()));
  }

  template <int V> view look(const typename lib<V>::frame &f)
  {
    typedef lib<V> L;
    view v;
    v.add("id", S(f.id().as_string()));
    if (auto *p = dynamic_cast<const typename L::text*>(&f)) {
      bytes b; p->text(std::back_inserter(b));
      v.add("kind", "text");
      v.add("text", guarded([&]() { return S(p->template as_str<std::string>()); }));
      v.add("unicode", N(p->unicode()));
      v.add("textb", S(b));
    }
    else if (auto *p = dynamic_cast<const typename L::utext*>(&f)) {
      bytes b, c; p->textb(std::back_inserter(b)); p->descriptionb(std::back_inserter(c));
      v.add("kind", "utext");
      v.add("text", guarded([&]() { return S(p->template text<std::string>()); }));
      v.add("dsc", guarded([&]() { return S(p->template description<std::string>()); }));
      v.add("unicode", N(p->unicode()));
      v.add("textb", S(b));
      v.add("dscb", S(c));
    }
    else if (auto *p = dynamic_cast<const typename L::comment*>(&f)) {
      bytes b, c; p->textb(std::back_inserter(b)); p->descriptionb(std::back_inserter(c));
      v.add("kind", "comment");
      v.add("text", guarded([&]() { return S(p->template text<std::string>()); }));
      v.add("dsc", guarded([&]() { return S(p->template description<std::string>()); }));
      v.add("unicode", N(p->unicode()));
      auto l = p->lang();
      v.add("lang", S(std::string({ (char)std::get<0>(l), (char)std::get<1>(l), (char)std::get<2>(l) })));
      v.add("textb", S(b));
      v.add("dscb", S(c));
    }
    else if (auto *p = dynamic_cast<const typename L::count*>(&f)) {
      std::ostringstream os; p->scribbu::play_count::write(os);
      v.add("kind", "count");
      v.add("count", guarded([&]() { return N(p->count()); }));
      v.add("counterb", S(vt::B(os.str())));
    }
    else if (auto *p = dynamic_cast<const typename L::popm*>(&f)) {
      bytes b, c; p->emailb(std::back_inserter(b)); p->counterb(std::back_inserter(c));
      v.add("kind", "popm");
      v.add("owner", S(b));
      v.add("rating", N(p->rating()));
      v.add("count", guarded([&]() { return N(p->count()); }));
      v.add("counterb", S(c));
    }
    else if (auto *p = dynamic_cast<const typename L::ufid*>(&f)) {
      bytes b, c; p->ownerb(std::back_inserter(b)); p->idb(std::back_inserter(c));
      v.add("kind", "ufid");
      v.add("owner", S(b));
      v.add("data", S(c));
    }
    else if (auto *p = dynamic_cast<const typename L::cloud*>(&f)) {
      ref::cloud m(p->begin(), p->end());
      v.add("kind", "cloud");
      v.add("owner", S(vt::B(p->owner())));
      v.add("cloud", cloudstr(m));
    }
    else if (auto *p = dynamic_cast<const typename L::unknown*>(&f)) {
      bytes b; p->data(std::back_inserter(b));
      v.add("kind", "opaque");
      v.add("data", S(b));
    }
    else {
      bool known = false;
      if constexpr (V != 2) {
        if (auto *p = dynamic_cast<const typename L::priv*>(&f)) {
          bytes b, c; p->emailb(std::back_inserter(b)); p->contentsb(std::back_inserter(c));
          v.add("kind", "priv");
          v.add("owner", S(b));
          v.add("data", S(c));
          known = true;
        }
        else if (auto *p = dynamic_cast<const typename L::encr*>(&f)) {
          bytes b, c; p->emailb(std::back_inserter(b)); p->datab(std::back_inserter(c));
          v.add("kind", "encr");
          v.add("owner", S(b));
          v.add("method", N(p->method_symbol()));
          v.add("data", S(c));
          known = true;
        }
      }
      if (!known) v.add("kind", "?");
    }
    v.add("size", N(f.size()));
    v.add("experimental", S(f.experimental()));
    if constexpr (V != 2) look_flags(f, v);
    if constexpr (V == 4) v.add("unsync", S(f.unsynchronised()));
    return v;
  }

  template view look<2>(const lib<2>::frame&);
  template view look<3>(const lib<3>::frame&);
  template view look<4>(const lib<4>::frame&);

  typedef scribbu::id3v2_3_plus_frame P;
  static P::tag_alter_preservation tap(const fdesc &d)
  { return d.tap ? P::tag_alter_preservation::discard : P::tag_alter_preservation::preserve; }
  static P::file_alter_preservation fap(const fdesc &d)
  { return d.fap ? P::file_alter_preservation::discard : P::file_alter_preservation::preserve; }
  static P::read_only ro(const fdesc &d)
  { return d.ro ? P::read_only::set : P::read_only::clear; }
  static boost::optional<unsigned char> gid(const fdesc &d)
  { return d.gid ? boost::optional<unsigned char>(*d.gid) : boost::none; }
  static boost::optional<std::size_t> dsz(const fdesc &d, std::size_t n)
  { return d.compressed ? boost::optional<std::size_t>(n) : boost::none; }
  static boost::optional<std::size_t> dli(const fdesc &d, std::size_t n)
  { return d.dli ? boost::optional<std::size_t>(n) : boost::none; }
  static const boost::optional<unsigned char> none;

  template <> std::unique_ptr<lib<2>::frame> from_payload<2>(const fdesc &d, const bytes &b)
  {
    using namespace scribbu;
    const unsigned char *p = b.data(), *q = p + b.size();
    lib<2>::frame *f;
    switch (d.k) {
    case kind::text: f = new id3v2_2_text_frame(mkid<2>(d.id), p, q); break;
    case kind::utext: f = new TXX(p, q); break;
    case kind::comment: f = new COM(p, q); break;
    case kind::count: f = new CNT(p, q); break;
    case kind::popm: f = new POP(p, q); break;
    case kind::ufid: f = new UFI(p, q); break;
    case kind::cloud: f = new XTG(p, q); break;
    default: f = new unknown_id3v2_2_frame(mkid<2>(d.id), p, q); break;
    }
    return std::unique_ptr<lib<2>::frame>(f);
  }

  template <> std::unique_ptr<lib<3>::frame> from_payload<3>(const fdesc &d, const bytes &b)
  {
    using namespace scribbu;
    const unsigned char *p = b.data(), *q = p + b.size();
    lib<3>::frame *f;
#   define FLAGS tap(d), fap(d), ro(d), none, gid(d), dsz(d, b.size())
    switch (d.k) {
    case kind::text: f = new id3v2_3_text_frame(mkid<3>(d.id), p, q, FLAGS); break;
    case kind::utext: f = new TXXX(p, q, FLAGS); break;
    case kind::comment: f = new COMM(p, q, FLAGS); break;
    case kind::count: f = new PCNT(p, q, FLAGS); break;
    case kind::popm: f = new POPM(p, q, FLAGS); break;
    case kind::ufid: f = new UFID(p, q, FLAGS); break;
    case kind::cloud: f = new XTAG(p, q, FLAGS); break;
    case kind::priv: f = new PRIV(p, q, FLAGS); break;
    case kind::encr: f = new ENCR(p, q, FLAGS); break;
    default: f = new unknown_id3v2_3_frame(mkid<3>(d.id), FLAGS, p, q); break;
    }
#   undef FLAGS
    return std::unique_ptr<lib<3>::frame>(f);
  }

  template <> std::unique_ptr<lib<4>::frame> from_payload<4>(const fdesc &d, const bytes &b)
  {
    using namespace scribbu;
    const unsigned char *p = b.data(), *q = p + b.size();
    lib<4>::frame *f;
#   define FLAGS tap(d), fap(d), ro(d), none, gid(d), d.compressed, d.unsync, dli(d, b.size())
    switch (d.k) {
    case kind::text: f = new id3v2_4_text_frame(mkid<4>(d.id), p, q, FLAGS); break;
    case kind::utext: f = new TXXX_2_4(p, q, FLAGS); break;
    case kind::comment: f = new COMM_2_4(p, q, FLAGS); break;
    case kind::count: f = new PCNT_2_4(p, q, FLAGS); break;
    case kind::popm: f = new POPM_2_4(p, q, FLAGS); break;
    case kind::ufid: f = new UFID_2_4(p, q, FLAGS); break;
    case kind::cloud: f = new XTAG_2_4(p, q, FLAGS); break;
    case kind::priv: f = new PRIV_2_4(p, q, FLAGS); break;
    case kind::encr: f = new ENCR_2_4(p, q, FLAGS); break;
    default: f = new unknown_id3v2_4_frame(mkid<4>(d.id), FLAGS, p, q); break;
    }
#   undef FLAGS
    return std::unique_ptr<lib<4>::frame>(f);
  }

  /// Minimal big-endian representation, as the library's counters use
  static bytes minimal(std::uint64_t n)
  {
    bytes b;
    do { b.insert(b.begin(), n & 0xff); n >>= 8; } while (n);
    return b;
  }

  static const scribbu::encoding U8 = scribbu::encoding::UTF_8;

  template <> std::unique_ptr<lib<2>::frame> from_values<2>(fdesc &d)
  {
    using namespace scribbu;
    std::string t = ref::utf8(d.text), c = ref::utf8(d.dsc), o(d.owner.begin(), d.owner.end());
    use_unicode u = d.enc ? use_unicode::with_bom : use_unicode::no;
    lib<2>::frame *f = nullptr;
    switch (d.k) {
    case kind::text:
      f = new id3v2_2_text_frame(mkid<2>(d.id), t, U8, d.enc == 1, on_no_encoding::fail, d.enc == 1);
      break;
    case kind::utext: f = new TXX(t, U8, u, c); break;
    case kind::comment:
      if (std::find(languages.begin(), languages.end(), d.lang) == languages.end()) d.lang = "eng";
      f = new COM(gen::language(d.lang), t, U8, u, c);
      break;
    case kind::count: d.data = minimal(number(d.data)); f = new CNT(number(d.data)); break;
    case kind::popm: d.data = minimal(number(d.data)); f = new POP(o, d.num, number(d.data)); break;
    case kind::cloud: f = new XTG(o, d.cloud.begin(), d.cloud.end()); break;
    default: break;
    }
    return std::unique_ptr<lib<2>::frame>(f);
  }

  template <> std::unique_ptr<lib<3>::frame> from_values<3>(fdesc &d)
  {
    using namespace scribbu;
    std::string t = ref::utf8(d.text), c = ref::utf8(d.dsc), o(d.owner.begin(), d.owner.end());
    use_unicode u = d.enc ? use_unicode::with_bom : use_unicode::no;
    if (d.k == kind::utext || d.k == kind::comment) d.compressed = false;
    lib<3>::frame *f = nullptr;
#   define FLAGS tap(d), fap(d), ro(d), none, gid(d)
    switch (d.k) {
    case kind::text:
      f = new id3v2_3_text_frame(mkid<3>(d.id), t, U8, d.enc == 1, on_no_encoding::fail, d.enc == 1, FLAGS, dsz(d, 1));
      break;
    case kind::utext: f = new TXXX(t, U8, u, FLAGS, c); break;
    case kind::comment:
      if (std::find(languages.begin(), languages.end(), d.lang) == languages.end()) d.lang = "eng";
      f = new COMM(gen::language(d.lang), t, U8, u, FLAGS, c);
      break;
    case kind::count: d.data = minimal(number(d.data)); f = new PCNT(number(d.data), FLAGS, dsz(d, 1)); break;
    case kind::popm: d.data = minimal(number(d.data)); f = new POPM(o, d.num, number(d.data), FLAGS, dsz(d, 1)); break;
    case kind::cloud: f = new XTAG(o, d.cloud.begin(), d.cloud.end(), FLAGS, dsz(d, 1)); break;
    case kind::priv: f = new PRIV(o, d.data.begin(), d.data.end(), FLAGS, dsz(d, 1)); break;
    default: break;
    }
#   undef FLAGS
    return std::unique_ptr<lib<3>::frame>(f);
  }

  template <> std::unique_ptr<lib<4>::frame> from_values<4>(fdesc &d)
  {
    using namespace scribbu;
    std::string t = ref::utf8(d.text), c = ref::utf8(d.dsc), o(d.owner.begin(), d.owner.end());
    lib<4>::frame *f = nullptr;
    if (d.k == kind::utext || d.k == kind::comment) {
      if (d.enc) d.enc = 3;
      if (d.k == kind::utext) { d.dli = false; d.compressed = false; }
    }
    use_unicode u = d.enc ? use_unicode::yes : use_unicode::no;
#   define FLAGS tap(d), fap(d), ro(d), none, gid(d), d.compressed, d.unsync
    typedef id3v2_4_text_frame::frame_encoding E;
    static const E EN[] = { E::ISO_8859_1, E::UTF_16_BOM, E::UTF_16_BE, E::UTF_8 };
    switch (d.k) {
    case kind::text:
      f = new id3v2_4_text_frame(mkid<4>(d.id), t, U8, EN[d.enc], d.enc == 1, on_no_encoding::fail, FLAGS, dli(d, 1));
      break;
    case kind::utext: f = new TXXX_2_4(t, U8, u, FLAGS, c); break;
    case kind::comment:
      if (std::find(languages.begin(), languages.end(), d.lang) == languages.end()) d.lang = "eng";
      f = new COMM_2_4(gen::language(d.lang), t, U8, u, FLAGS, dli(d, 1), c);
      break;
    case kind::count: d.data = minimal(number(d.data)); f = new PCNT_2_4(number(d.data), FLAGS, dli(d, 1)); break;
    case kind::popm: d.data = minimal(number(d.data)); f = new POPM_2_4(o, d.num, number(d.data), FLAGS, dli(d, 1)); break;
    case kind::cloud: f = new XTAG_2_4(o, d.cloud.begin(), d.cloud.end(), FLAGS, dli(d, 1)); break;
    case kind::priv: f = new PRIV_2_4(o, d.data.begin(), d.data.end(), FLAGS, dli(d, 1)); break;
    default: break;
    }
#   undef FLAGS
    return std::unique_ptr<lib<4>::frame>(f);
  }

  template <int V, typename FN> static auto dispatch(const typename lib<V>::frame &f, bool generic, FN fn)
  {
    typedef lib<V> L;
    if (!generic) {
      if (auto *p = dynamic_cast<const typename L::text*>(&f)) return fn(*p);
      if (auto *p = dynamic_cast<const typename L::comment*>(&f)) return fn(*p);
      if (auto *p = dynamic_cast<const typename L::count*>(&f)) return fn(*p);
      if (auto *p = dynamic_cast<const typename L::popm*>(&f)) return fn(*p);
    }
    return fn(f);
  }

  template <int V> void push(typename lib<V>::tag &t, const typename lib<V>::frame &f, bool generic)
  { dispatch<V>(f, generic, [&](const auto &x) { t.push_back(x); }); }

  template <int V> typename lib<V>::tag::iterator
  insert(typename lib<V>::tag &t, typename lib<V>::tag::const_iterator p, const typename lib<V>::frame &f, bool generic)
  { return dispatch<V>(f, generic, [&](const auto &x) { return t.insert(p, x); }); }

  template <int V> void assign(typename lib<V>::tag &t, std::size_t i, const typename lib<V>::frame &f, bool generic)
  { dispatch<V>(f, generic, [&](const auto &x) { auto p = t.begin() + i; *p = x; }); }

  template <int V> std::vector<view> look_all(const typename lib<V>::tag &t)
  {
    std::vector<view> v;
    for (const typename lib<V>::frame &f: t) v.push_back(look<V>(f));
    return v;
  }

# define INST(V) \
  template void push<V>(lib<V>::tag&, const lib<V>::frame&, bool); \
  template lib<V>::tag::iterator insert<V>(lib<V>::tag&, lib<V>::tag::const_iterator, const lib<V>::frame&, bool); \
  template void assign<V>(lib<V>::tag&, std::size_t, const lib<V>::frame&, bool); \
  template std::vector<view> look_all<V>(const lib<V>::tag&);
  INST(2) INST(3) INST(4)
# undef INST

  bytes audio(source &s, std::size_t max)
  {
    bytes b = s.blob_upto(max);
    // never let it look like a tag
    if (b.size() >= 3 && b[0] == 'I') b[0] = 'J';
    for (std::size_t i = 0; i + 2 < b.size(); ++i) {
      if (b[i] == 'T' && b[i + 1] == 'A' && b[i + 2] == 'G') b[i] = 'U';
    }
    return b;
  }

  static bytes field(source &s, std::size_t n)
  {
    bytes b;
    int mode = s.weighted({ 4, 1, 1 });
    if (mode == 2) return s.blob(n);
    std::size_t k = s.weighted({ 3, 1 }) ? n : s.below(n + 1);
    for (std::size_t i = 0; i < k; ++i) b.push_back(0x20 + s.below(0x5f));
    b.resize(n, mode == 1 ? ' ' : 0);
    return b;
  }

  ref::v1 v1tag(source &s, bool allow_enh)
  {
    ref::v1 t;
    t.enh = allow_enh && s.chance(1, 3);
    t.v11 = s.flip();
    std::size_t n = t.enh ? 90 : 30;
    t.title = field(s, n);
    t.artist = field(s, n);
    t.album = field(s, n);
    t.year = field(s, 4);
    t.comment = field(s, t.v11 ? 28 : 30);
    if (t.v11) t.track = 1 + s.below(255);
    else {
      // must not look like v1.1
      if (t.comment[28] == 0 && t.comment[29] != 0) t.comment[29] = 0;
    }
    t.genre = s.byte();
    if (t.enh) {
      t.speed = s.below(5);
      t.egenre = field(s, 30);
      t.start = field(s, 6);
      t.end = field(s, 6);
    }
    return t;
  }

  ref::tag reftag(source &s, int ver, std::vector<fdesc> &fs, std::size_t maxframes, fopts o)
  {
    ref::tag t;
    t.ver = ver;
    t.unsync = s.chance(1, 3);
    if (ver == 4) o.v24_unsync = false;
    std::size_t n = s.below(maxframes + 1);
    fs.clear();
    std::set<unsigned char> methods;
    for (std::size_t i = 0; i < n; ++i) {
      fdesc d = frame(s, ver, o);
      if (d.k == kind::encr && !methods.insert(d.num).second) continue;
      if (ver == 4) d.unsync = t.unsync;
      fs.push_back(d);
      t.frames.push_back(to_ref(ver, d));
    }
    t.padding = s.chance(1, 2) ? s.small(40) : 0;
    if (ver != 2) {
      t.experimental = s.chance(1, 6);
      t.ext = s.chance(1, 4);
      if (t.ext) {
        if (s.flip()) t.crc = (std::uint32_t) s.edgy(32);
        if (ver == 3) t.ext_padding = t.padding;
        if (ver == 4) {
          t.update = s.flip();
          if (s.flip()) t.restrictions = s.byte();
        }
      }
      if (ver == 4 && s.chance(1, 6)) { t.footer = true; t.padding = 0; }
    }
    return t;
  }
}
