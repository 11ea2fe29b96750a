/* P08 -- text set on a tag is the text read from it. */
#include "gen.hh"

#include <scribbu/id3v2-utils.hh>

using namespace vt;
using namespace gen;
using scribbu::encoding;
using scribbu::on_no_encoding;
using scribbu::use_unicode;
using scribbu::id3v2_tag;
typedef scribbu::id3v2_text_frames TF;

namespace {

  struct field { TF f; const char *v3, *v2; };
  const std::vector<field> FIELDS {
    { TF::tit2, "TIT2", "TT2" }, { TF::tpe1, "TPE1", "TP1" }, { TF::talb, "TALB", "TAL" }, { TF::tcon, "TCON", "TCO" },
    { TF::tenc, "TENC", "TEN" }, { TF::tlan, "TLAN", "TLA" }, { TF::trck, "TRCK", "TRK" }, { TF::tyer, "TYER", "TYE" },
    { TF::tbpm, "TBPM", "TBP" }, { TF::tcom, "TCOM", "TCM" }, { TF::tcop, "TCOP", "TCR" }, { TF::tdat, "TDAT", "TDA" },
    { TF::tdly, "TDLY", "TDY" }, { TF::text, "TEXT", "TXT" }, { TF::tflt, "TFLT", "TFT" }, { TF::time, "TIME", "TIM" },
    { TF::tit1, "TIT1", "TT1" }, { TF::tit3, "TIT3", "TT3" }, { TF::tkey, "TKEY", "TKE" }, { TF::tlen, "TLEN", "TLE" },
    { TF::tmed, "TMED", "TMT" }, { TF::toal, "TOAL", "TOT" }, { TF::tofn, "TOFN", "TOF" }, { TF::toly, "TOLY", "TOL" },
    { TF::tope, "TOPE", "TOA" }, { TF::tory, "TORY", "TOR" }, { TF::tpe2, "TPE2", "TP2" }, { TF::tpe3, "TPE3", "TP3" },
    { TF::tpe4, "TPE4", "TP4" }, { TF::tpos, "TPOS", "TPA" }, { TF::tpub, "TPUB", "TPB" }, { TF::trda, "TRDA", "TRD" },
    { TF::tsiz, "TSIZ", "TSI" }, { TF::tsrc, "TSRC", "TRC" }, { TF::tsse, "TSSE", "TSS" },
    { TF::town, "TOWN", 0 }, { TF::trsn, "TRSN", 0 }, { TF::trso, "TRSO", 0 } }; // no counterparts in 2.2
  const std::size_t NUM2 = 35, NUM3 = 38;

  /// Set a text, leaving all else to the defaults
  template <typename T> void set_plainly(T &t, std::size_t i, const std::string &x)
  {
    switch (i) {
    case 0: t.title(x); break;
    case 1: t.artist(x); break;
    case 2: t.album(x); break;
    case 3: t.content_type(x); break;
    case 4: t.encoded_by(x); break;
    case 5: t.languages(x); break;
    case 6: t.track(x); break;
    default: t.year(x); break;
    }
  }

  template <typename T> std::string get_plainly(const T &t, std::size_t i)
  {
    switch (i) {
    case 0: return t.title();
    case 1: return t.artist();
    case 2: return t.album();
    case 3: return t.content_type();
    case 4: return t.encoded_by();
    case 5: return t.languages();
    case 6: return t.track();
    default: return t.year();
    }
  }

  void set_named(id3v2_tag &t, std::size_t i, const std::string &x, encoding src, bool bom, on_no_encoding rsp)
  {
    switch (i) {
    case 0: t.title(x, src, bom, rsp); break;
    case 1: t.artist(x, src, bom, rsp); break;
    case 2: t.album(x, src, bom, rsp); break;
    case 3: t.content_type(x, src, bom, rsp); break;
    case 4: t.encoded_by(x, src, bom, rsp); break;
    case 5: t.languages(x, src, bom, rsp); break;
    case 6: t.track(x, src, bom, rsp); break;
    default: t.year(x, src, bom, rsp); break;
    }
  }

  std::string get_named(const id3v2_tag &t, std::size_t i, encoding dst)
  {
    switch (i) {
    case 0: return t.title(dst);
    case 1: return t.artist(dst);
    case 2: return t.album(dst);
    case 3: return t.content_type(dst);
    case 4: return t.encoded_by(dst);
    case 5: return t.languages(dst);
    case 6: return t.track(dst);
    default: return t.year(dst);
    }
  }

  std::size_t has_named(const id3v2_tag &t, std::size_t i)
  {
    switch (i) {
    case 0: return t.has_title();
    case 1: return t.has_artist();
    case 2: return t.has_album();
    case 3: return t.has_content_type();
    case 4: return t.has_encoded_by();
    case 5: return t.has_languages();
    case 6: return t.has_track();
    default: return t.has_year();
    }
  }

  template <int V> const char* idof(std::size_t i) { return V == 2 ? FIELDS[i].v2 : FIELDS[i].v3; }

  /// What was set explicitly & must be read
  template <int V> struct model {
    std::map<std::size_t, std::string> texts; // field -> text
  };

  template <int V> std::vector<view> without(const std::vector<view> &v, const std::string &id)
  {
    std::vector<view> r;
    for (auto &x: v) if (*x.get("id") != show(id)) r.push_back(x);
    return r;
  }

  std::string str(const std::vector<view> &v)
  {
    std::string r;
    for (auto &x: v) r += "\n    " + x.str();
    return r;
  }

  template <int V> void verify(const typename lib<V>::tag &t, const model<V> &m, const char *when, context &ctx)
  {
    for (auto &kv: m.texts) {
      std::string got;
      try {
        got = t.text(FIELDS[kv.first].f);
      } catch (const std::exception &ex) {
        FAILK(std::string(when) + "-missing", when << ": text of " << idof<V>(kv.first) << ": " << ex.what());
      }
      CHECK_EQ(got, kv.second, std::string(when) + "-text", when << ": text of " << idof<V>(kv.first));
      if (kv.first < 8) {
        CHECK_EQ(get_named(t, kv.first, encoding::UTF_8), kv.second, std::string(when) + "-named", when << ": named accessor of " << idof<V>(kv.first));
        CHECK_EQ(get_plainly(t, kv.first), kv.second, std::string(when) + "-plainly", when << ": named accessor of " << idof<V>(kv.first) << " by default");
        CHECK_EQ(get_plainly<id3v2_tag>(t, kv.first), kv.second, std::string(when) + "-plainly", when << ": named accessor of " << idof<V>(kv.first) << " by default");
        CHECK_EQ(has_named(t, kv.first), std::size_t(1), std::string(when) + "-has", when << ": has_...() of " << idof<V>(kv.first));
      }
      CHECK_EQ(t.has_frame(mkid<V>(idof<V>(kv.first))), std::size_t(1), std::string(when) + "-one", when << ": number of frames " << idof<V>(kv.first));
      ref::ustr u; bytes l1;
      if (ref::from_utf8(kv.second, u) && ref::latin1(u, l1)) {
        CHECK_EQ(t.text(FIELDS[kv.first].f, encoding::ISO_8859_1), S(l1), std::string(when) + "-latin1", when << ": text of " << idof<V>(kv.first) << " in ISO-8859-1");
      }
      ctx.checked(3);
    }
  }

  template <int V> void texts(source &s, context &ctx)
  {
    typedef typename lib<V>::tag T;
    T t(s.chance(1, 3) ? s.small(30) : 0);
    model<V> m;
    std::uint64_t h = V;
    // Some frames to begin with, no two texts of a kind
    std::set<std::string> seen;
    std::size_t n = s.small(5);
    fopts o;
    o.encr = false;
    for (std::size_t i = 0; i < n; ++i) {
      fdesc d = gen::frame(s, V, o);
      if (d.k == kind::text && !seen.insert(d.id).second) continue;
      NOTE(ctx, "initially " << gen::show(d));
      push<V>(t, *from_bytes<V>(d), s.chance(1, 3));
      if (d.k != kind::text) continue;
      for (std::size_t j = 0; j < (V == 2 ? NUM2 : NUM3); ++j) if (d.id == idof<V>(j)) m.texts[j] = decoded(d.text);
    }
    verify<V>(t, m, "initially", ctx);
    n = s.small(6) + 1;
    for (std::size_t i = 0; i < n; ++i) {
      std::vector<view> before = look_all<V>(t);
      switch (s.weighted({ 8, 2, 2, 2, 1 })) {
      case 0: {
        std::size_t f = s.chance(2, 3) ? s.below(8) : s.below(V == 2 ? NUM2 : NUM3);
        bool named = f < 8 && s.flip();
        rep r = s.pick({ ASCII, LATIN1, BMP, FULL });
        ustr u = gen::text(s, r, s.chance(1, 10) ? 300 : 24);
        encoding src = encoding::UTF_8;
        std::string x = ref::utf8(u);
        bytes l1;
        if (ref::latin1(u, l1) && s.chance(1, 4)) { src = encoding::ISO_8859_1; x = S(l1); }
        bool bom = s.chance(1, 3);
        on_no_encoding rsp = s.weighted({ 4, 1, 1 }) == 0 ? on_no_encoding::fail : s.flip() ? on_no_encoding::transliterate : on_no_encoding::ignore;
        bool bad = false;
        if (src == encoding::UTF_8 && s.chance(1, 15)) {
          bad = true;
          rsp = on_no_encoding::fail;
          static const std::vector<std::string> BAD { "\xff", "a\x80", "\xc3", "\xe2\x82", "x\xc0\xaf" };
          x += s.pick(BAD);
        }
        bool fits = V == 4 || gen::fits(u, BMP);
        unsigned plain = s.chance(1, 4) ? s.range(1, 2) : 0; // by default
        if (src != encoding::UTF_8) plain = 0;
        if (plain) { bom = false; rsp = on_no_encoding::fail; }
        NOTE(ctx, "set " << idof<V>(f) << (named ? " (named)" : "") << " to " << show(x) << (src == encoding::UTF_8 ? "" : " (ISO-8859-1)") << " bom=" << bom << " rsp=" << (int) rsp << (plain ? " by default" : ""));
        bool ok = true;
        std::string what;
        try {
          id3v2_tag &base = t;
          if (plain == 1) { if (named) set_plainly(t, f, x); else t.text(FIELDS[f].f, x); }
          else if (plain) { if (named) set_plainly(base, f, x); else base.text(FIELDS[f].f, x); }
          else if (named) set_named(t, f, x, src, bom, rsp); else t.text(FIELDS[f].f, x, src, bom, rsp);
        } catch (const std::exception &ex) {
          ok = false; what = ex.what();
        }
        std::vector<view> after = look_all<V>(t);
        if (bad) CHECK(!ok, "malformed", "malformed text was accepted");
        if (!ok) {
          NOTE(ctx, "  refused: " << what);
          CHECK(bad || !fits, "refused", "text which can be represented was refused: " << what);
          CHECK(str(before) == str(after), "refused-changed", "a refused edit changed the tag:" << str(after) << "\n  from" << str(before));
          ctx.label("refused");
        } else {
          CHECK(fits || rsp != on_no_encoding::fail, "damaged", "text which can't be represented was accepted; it reads " << show(t.text(FIELDS[f].f)));
          m.texts.erase(f);
          if (fits && rsp == on_no_encoding::fail) m.texts[f] = decoded(u);
          // transliteration & dropping only apply when needed
          bool nat = V == 4 || gen::fits(u, LATIN1);
          if (rsp != on_no_encoding::fail && nat) m.texts[f] = decoded(u);
          CHECK_EQ(t.has_frame(mkid<V>(idof<V>(f))), std::size_t(1), "set-one", "number of frames " << idof<V>(f));
          CHECK(str(without<V>(before, idof<V>(f))) == str(without<V>(after, idof<V>(f))), "others", "other frames changed:" << str(after) << "\n  from" << str(before));
          if (u.size()) ctx.nontrivial(h = hash(x, h + f));
          ctx.label(fits ? "set" : "set-lossy");
          ctx.checked(2);
        }
        break;
      }
      case 1: case 2: {
        bool comment = s.flip();
        ustr u = gen::text(s, s.pick({ LATIN1, BMP, FULL })), v = gen::text(s, s.pick({ LATIN1, BMP }), 10);
        std::string lang = s.pick(languages);
        use_unicode uu = s.pick({ use_unicode::no, use_unicode::yes, use_unicode::with_bom });
        NOTE(ctx, "add " << (comment ? "comment " : "user-defined text ") << show(ref::utf8(u)) << " (" << show(ref::utf8(v)) << ") unicode=" << (int) uu);
        rep most = uu == use_unicode::no ? LATIN1 : V == 4 ? FULL : BMP;
        bool fits = gen::fits(u, most) && gen::fits(v, most);
        on_no_encoding rsp = s.weighted({ 4, 1, 1 }) == 0 ? on_no_encoding::fail : s.flip() ? on_no_encoding::transliterate : on_no_encoding::ignore;
        bool lean = s.chance(1, 5), bare = s.chance(1, 5); // by default
        encoding src = encoding::UTF_8;
        std::string x = ref::utf8(u), y = ref::utf8(v);
        bytes l1, l2;
        if (bare) { v.clear(); y.clear(); }
        if (!lean && ref::latin1(u, l1) && ref::latin1(v, l2) && s.chance(1, 3)) { src = encoding::ISO_8859_1; x = S(l1); y = S(l2); }
        if (lean) { v.clear(); uu = use_unicode::no; most = LATIN1; }
        if (bare || lean) { rsp = on_no_encoding::fail; fits = gen::fits(u, most) && gen::fits(v, most); }
        NOTE(ctx, "  rsp=" << int(rsp) << " from " << int(src) << (lean ? ", by default" : bare ? ", no description" : ""));
        bool ok = true;
        std::string what;
        try {
          if (comment) {
            if (lean) t.add_comment(x, language(lang));
            else if (bare) t.add_comment(x, language(lang), src, uu);
            else if (rsp == on_no_encoding::fail && s.flip()) t.add_comment(x, language(lang), src, uu, y);
            else t.add_comment(x, language(lang), src, uu, y, rsp);
          } else {
            if (lean) t.add_user_defined_text(x);
            else if (bare) t.add_user_defined_text(x, src, uu);
            else if (rsp == on_no_encoding::fail && s.flip()) t.add_user_defined_text(x, src, uu, y);
            else t.add_user_defined_text(x, src, uu, y, rsp);
          }
        } catch (const std::exception &ex) {
          ok = false; what = ex.what();
        }
        std::vector<view> after = look_all<V>(t);
        if (!ok) {
          CHECK(!fits && rsp != on_no_encoding::ignore, "add-refused", "text which can be represented was refused: " << what);
          CHECK(str(before) == str(after), "add-refused-changed", "a refused edit changed the tag:" << str(after) << "\n  from" << str(before));
          break;
        }
        CHECK(fits || rsp != on_no_encoding::fail, "add-damaged", "text which can't be represented was accepted");
        CHECK_EQ(after.size(), before.size() + 1, "add-count", "number of frames");
        view want;
        want.add("id", show(std::string(comment ? (V == 2 ? "COM" : "COMM") : (V == 2 ? "TXX" : "TXXX"))));
        if (!fits) for (auto p: { &u, &v }) p->erase(std::remove_if(p->begin(), p->end(), [&](char32_t c) { return !gen::fits(ustr(1, c), most); }), p->end());
        if (fits || rsp == on_no_encoding::ignore) {
          want.add("text", show(decoded(u)));
          want.add("dsc", show(decoded(v)));
        } else ctx.label("add-lossy");
        if (comment) want.add("lang", show(lang));
        std::string why;
        CHECK(agrees(after.back(), want, why), "added", "the frame added's " << why);
        after.pop_back();
        CHECK(str(before) == str(after), "add-others", "other frames changed:" << str(after) << "\n  from" << str(before));
        if (u.size()) ctx.nontrivial(h = hash(ref::utf8(u), h + comment));
        ctx.label(comment ? "comment" : "user-text");
        ctx.checked(3);
        break;
      }
      case 3: {
        std::size_t f = s.below(V == 2 ? NUM2 : NUM3);
        if (m.texts.size() && s.chance(3, 4)) { auto p = m.texts.begin(); std::advance(p, s.below(m.texts.size())); f = p->first; }
        NOTE(ctx, "delete " << idof<V>(f));
        t.delete_frame(FIELDS[f].f);
        m.texts.erase(f);
        std::vector<view> after = look_all<V>(t);
        CHECK(str(without<V>(before, idof<V>(f))) == str(after), "deleted", "frames after deleting " << idof<V>(f) << ":" << str(after) << "\n  from" << str(before));
        CHECK_EQ(t.has_frame(mkid<V>(idof<V>(f))), std::size_t(0), "deleted-has", "number of frames " << idof<V>(f));
        bool threw = false;
        try { t.text(FIELDS[f].f); } catch (const std::exception &) { threw = true; }
        CHECK(threw, "deleted-text", "a deleted text can still be had");
        if (f < 8) CHECK_EQ(has_named(t, f), std::size_t(0), "deleted-named", "has_...()");
        ctx.checked(3);
        break;
      }
      default: {
        bool unsync = s.flip();
        NOTE(ctx, "write & read");
        bytes b = written<V>(t, unsync);
        std::istringstream is(S(b));
        T u(is);
        verify<V>(u, m, "reread", ctx);
        std::vector<view> after = look_all<V>(u);
        CHECK_EQ(after.size(), before.size(), "reread-count", "number of frames after reading again");
        for (std::size_t j = 0; j < after.size(); ++j) {
          std::string why;
          view w = before[j];
          for (auto x = w.fields.begin(); x != w.fields.end(); ) x = x->first == "unsync" ? w.fields.erase(x) : x + 1;
          CHECK(agrees(after[j], w, why), "reread-frame", "frame " << j << "'s " << why << " after reading again");
        }
      }
      }
      verify<V>(t, m, "set", ctx);
    }
    bytes b = written<V>(t, s.flip());
    std::istringstream is(S(b));
    T u(is);
    verify<V>(u, m, "finally", ctx);
  }

  /// Text as it's to be had in other encodings, or is said to be stored in
  template <int V> void readings(source &s, context &ctx)
  {
    typedef typename lib<V>::tag T;
    T t(0);
    std::size_t f = s.below(8);
    ustr u = gen::text(s, s.pick({ LATIN1, BMP, FULL }));
    while (u.size() && (u.back() == ' ' || u.back() == 0)) u.pop_back();
    bool claim = s.chance(1, 3);
    NOTE(ctx, idof<V>(f) << " is " << show(ref::utf8(u)));
    if (claim) {
      // A frame which says it's in ISO-8859-1, but isn't
      bytes b { 0 };
      app(b, B(ref::utf8(u)));
      fdesc d = gen::frame(s, V, kind::text);
      d.id = idof<V>(f);
      push<V>(t, *from_payload<V>(d, b), s.flip());
      std::string got = t.text(FIELDS[f].f, encoding::UTF_8, on_no_encoding::fail, encoding::UTF_8);
      CHECK_EQ(got, decoded(u), "claimed", "the text, taken to be in UTF-8");
      ustr w;
      for (auto c: ref::utf8(u)) w.push_back((unsigned char) c);
      CHECK_EQ(t.text(FIELDS[f].f), decoded(w), "unclaimed", "the text, in ISO-8859-1");
      CHECK_EQ(get_named(t, f, encoding::UTF_8), decoded(w), "unclaimed-named", "the text, in ISO-8859-1");
      ctx.checked(3);
      if (u.size()) ctx.nontrivial(hash(ref::utf8(u), V));
      return;
    }
    bool fits = V == 4 || gen::fits(u, BMP);
    if (!fits) throw discard();
    if (s.flip()) t.text(FIELDS[f].f, ref::utf8(u)); else set_named(t, f, ref::utf8(u), encoding::UTF_8, s.flip(), on_no_encoding::fail);
    bytes l1;
    bool lat = ref::latin1(u, l1);
    std::string got;
    bool threw = false;
    try { got = t.text(FIELDS[f].f, encoding::ISO_8859_1); } catch (const std::exception&) { threw = true; }
    CHECK_EQ(threw, !lat, "latin1-fail", "whether the text can't be had in ISO-8859-1");
    if (lat) CHECK_EQ(show(got), show(S(l1)), "latin1", "the text in ISO-8859-1");
    got = t.text(FIELDS[f].f, encoding::ISO_8859_1, on_no_encoding::ignore);
    ustr v;
    for (auto c: u) if (c < 256) v.push_back(c);
    while (v.size() && v.back() == ' ') v.pop_back();
    ref::latin1(v, l1);
    CHECK_EQ(show(got), show(S(l1)), "latin1-ignore", "the text in ISO-8859-1, but for what can't be represented");
    ctx.checked(2);
    if (u.size()) ctx.nontrivial(hash(ref::utf8(u), V + 10));
    ctx.label(lat ? "latin1" : "wide");
  }

  using scribbu::id3v2_2_text_frame;
  using scribbu::id3v2_3_text_frame;
  using scribbu::id3v2_4_text_frame;

  template <int V> struct texts_of;
  template <> struct texts_of<2> { typedef id3v2_2_text_frame frame; typedef scribbu::TXX user; typedef scribbu::COM comm; };
  template <> struct texts_of<3> { typedef id3v2_3_text_frame frame; typedef scribbu::TXXX user; typedef scribbu::COMM comm; };
  template <> struct texts_of<4> { typedef id3v2_4_text_frame frame; typedef scribbu::TXXX_2_4 user; typedef scribbu::COMM_2_4 comm; };

  /// Frames made of text, outside of any tag
  template <int V> void alone(source &s, context &ctx)
  {
    typedef typename texts_of<V>::frame F;
    typedef scribbu::id3v2_3_plus_frame P;
    typedef id3v2_4_text_frame::frame_encoding FE;
    std::size_t f = s.below(V == 2 ? NUM2 : NUM3);
    auto id = mkid<V>(idof<V>(f));
    std::unique_ptr<F> p;
    std::string was, is;
    std::size_t n = s.small(3) + 1;
    for (std::size_t i = 0; i < n; ++i) {
      ustr u = gen::text(s, s.pick({ ASCII, LATIN1, BMP, FULL }));
      encoding src = encoding::UTF_8;
      std::string x = ref::utf8(u);
      bytes l1;
      if (ref::latin1(u, l1) && s.chance(1, 4)) { src = encoding::ISO_8859_1; x = S(l1); }
      unsigned lean = s.below(3); // how much to leave to the defaults
      bool bom = s.chance(1, 3), ucs2 = s.flip();
      FE dst = s.pick({ FE::ISO_8859_1, FE::UTF_16_BOM, FE::UTF_16_BE, FE::UTF_8 });
      on_no_encoding rsp = s.flip() ? on_no_encoding::fail : on_no_encoding::ignore;
      bool fresh = !p || s.chance(1, 3);
      if (lean == 2) { rsp = on_no_encoding::fail; ucs2 = false; bom = false; if (V != 2 || !fresh) { src = encoding::UTF_8; x = ref::utf8(u); } if (!fresh) dst = FE::UTF_8; }
      if (lean == 1) { rsp = on_no_encoding::fail; ucs2 = false; }
      if (V == 4 && fresh && lean == 2 && s.flip()) { src = encoding::UTF_8; x = ref::utf8(u); }
      // The encoding the text has to fit
      rep most = V == 4 ? (dst == FE::ISO_8859_1 ? LATIN1 : FULL) : !fresh ? BMP : ucs2 ? BMP : LATIN1;
      bool fits = gen::fits(u, most);
      NOTE(ctx, (fresh ? "make " : "set ") << idof<V>(f) << " of " << show(x) << (src == encoding::UTF_8 ? "" : " (ISO-8859-1)") << " bom=" << bom << " rsp=" << (int) rsp << " ucs2=" << ucs2 << " dst=" << (int) dst << " lean=" << lean);
      bool ok = true;
      std::string what;
      std::unique_ptr<F> q;
      if (p) q.reset(new F(*p));
      try {
        if constexpr (V == 2) {
          if (fresh) q.reset(lean == 2 ? new F(id, x, src) : lean ? new F(id, x, src, bom) : new F(id, x, src, bom, rsp, ucs2));
          else if (lean == 2) q->set(x); else if (lean) q->set(x, src, bom); else q->set(x, src, bom, rsp);
        } else if constexpr (V == 3) {
          if (fresh) q.reset(lean == 2 ? new F(id, x) : lean ? new F(id, x, src, bom) : new F(id, x, src, bom, rsp, ucs2));
          else if (lean == 2) q->set(x); else if (lean) q->set(x, src, bom); else q->set(x, src, bom, rsp);
        } else {
          if (fresh) q.reset(lean == 2 ? new F(id, x, src, dst) : lean ? new F(id, x, src, dst, bom) : new F(id, x, src, dst, bom, rsp));
          else if (lean == 2) q->set(x); else if (lean) q->set(x, src, dst, bom); else q->set(x, src, dst, bom, rsp);
        }
      } catch (const std::exception &ex) {
        ok = false; what = ex.what();
      }
      if (!ok) {
        CHECK(!fits && rsp == on_no_encoding::fail, "refused", "text which can be represented was refused: " << what);
        if (q && p && !fresh) CHECK_EQ(q->template as_str<std::string>(), is, "refused-changed", "the text after a refused edit");
        ctx.label("refused");
        continue;
      }
      CHECK(fits || rsp != on_no_encoding::fail, "damaged", "text which can't be represented was accepted; it reads " << show(q->template as_str<std::string>()));
      p = std::move(q);
      if (!fits) {
        // In ID3v2.2 & 2.3 what fits ISO-8859-1 is kept, if we may drop the rest
        rep kept = V == 4 || fresh ? most : LATIN1;
        u.erase(std::remove_if(u.begin(), u.end(), [&](char32_t c) { return !gen::fits(ustr(1, c), kept); }), u.end());
      } else if (V != 4 && !fresh && rsp != on_no_encoding::fail) {
        u.erase(std::remove_if(u.begin(), u.end(), [&](char32_t c) { return !gen::fits(ustr(1, c), LATIN1); }), u.end());
      }
      is = decoded(u);
      CHECK_EQ(p->template as_str<std::string>(), is, "text", "the text");
      CHECK_EQ(p->id().as_string(), std::string(idof<V>(f)), "id", "the identifier");
      std::ostringstream os;
      CHECK_EQ(id.write(os), std::size_t(V == 2 ? 3 : 4), "id-size", "size of the identifier");
      CHECK_EQ(os.str(), std::string(idof<V>(f)), "id-written", "the identifier written");
      if constexpr (V != 2) if (fresh) {
        CHECK(p->tag_alter_preserve() == P::tag_alter_preservation::preserve && p->file_alter_preserve() == P::file_alter_preservation::preserve &&
              p->readonly() == P::read_only::clear && !p->compressed() && !p->encrypted() && !p->grouped(), "flags", "flags by default");
      }
      if (V == 4) {
        CHECK_EQ(int(p->unicode()), int(dst), "dst", "the encoding of the frame");
      }
      ctx.checked(4);
      if (u.size()) ctx.nontrivial(hash(x, V + 20));
      ctx.label(fresh ? "frame-made" : "frame-set");
    }
    // User-defined text & comments
    ustr u = gen::text(s, s.pick({ LATIN1, BMP, FULL }));
    std::string x = ref::utf8(u), lang = s.pick(languages);
    use_unicode uu = s.pick({ use_unicode::no, use_unicode::yes, use_unicode::with_bom });
    rep most = uu == use_unicode::no ? LATIN1 : V == 4 ? FULL : BMP;
    bool fits = gen::fits(u, most), comment = s.flip(), ok = true;
    NOTE(ctx, (comment ? "comment " : "user-defined text ") << show(x) << ", no description, unicode=" << (int) uu);
    auto tap = s.pick({ P::tag_alter_preservation::preserve, P::tag_alter_preservation::discard });
    auto fap = s.pick({ P::file_alter_preservation::preserve, P::file_alter_preservation::discard });
    auto ro = s.pick({ P::read_only::clear, P::read_only::set });
    std::string got, dsc, what, code;
    try {
      auto look = [&](auto &&c) { got = c.template text<std::string>(); dsc = c.template description<std::string>(); };
      auto tongue = [&](auto &&c) { auto l = c.lang(); code = { (char) std::get<0>(l), (char) std::get<1>(l), (char) std::get<2>(l) }; };
      auto flags = [&](auto &&c) { CHECK(c.tag_alter_preserve() == tap && c.file_alter_preserve() == fap && c.readonly() == ro && !c.grouped() && !c.encrypted(), "flags-given", "flags given"); };
      if constexpr (V == 2) {
        if (comment) { scribbu::COM c(language(lang), x, encoding::UTF_8, uu); look(c); tongue(c); }
        else look(scribbu::TXX(x, encoding::UTF_8, uu));
      } else if constexpr (V == 3) {
        if (comment) { scribbu::COMM c(language(lang), x, encoding::UTF_8, uu, tap, fap, ro, boost::none, boost::none); look(c); tongue(c); flags(c); }
        else { scribbu::TXXX c(x, encoding::UTF_8, uu, tap, fap, ro, boost::none, boost::none); look(c); flags(c); }
      } else {
        if (comment) { scribbu::COMM_2_4 c(language(lang), x, encoding::UTF_8, uu, tap, fap, ro, boost::none, boost::none, false, false, boost::none); look(c); tongue(c); flags(c); }
        else { scribbu::TXXX_2_4 c(x, encoding::UTF_8, uu, tap, fap, ro, boost::none, boost::none, false, false); look(c); flags(c); }
      }
    } catch (const std::exception &ex) {
      ok = false; what = ex.what();
    }
    CHECK_EQ(ok, fits, "user-refused", "whether the text is accepted (" << what << ")");
    if (ok) {
      CHECK_EQ(got, decoded(u), "user-text", "the text");
      CHECK_EQ(dsc, std::string(), "user-description", "the description");
      if (comment) CHECK_EQ(code, lang, "user-language", "the language");
      ctx.checked(3);
    }
  }

  /// Comments changed outside of tags
  template <int V> void remarks(source &s, context &ctx)
  {
    typedef scribbu::id3v2_3_plus_frame P;
    typedef std::conditional_t<V == 2, scribbu::COM, std::conditional_t<V == 3, scribbu::COMM, scribbu::COMM_2_4>> F;
    int enc = s.below(V == 4 ? 4 : 2);
    rep most = enc == 0 ? LATIN1 : V == 4 ? FULL : BMP;
    ustr text = gen::text(s, most), dsc = gen::text(s, most);
    std::string lang = s.pick(languages);
    bytes b { (unsigned char) enc };
    app(b, B(lang));
    app(b, ref::enc_text(dsc, enc, s.flip()));
    app(b, bytes(enc == 1 || enc == 2 ? 2 : 1, 0));
    app(b, ref::enc_text(text, enc, s.flip()));
    NOTE(ctx, "comment " << show(ref::utf8(text)) << ", description " << show(ref::utf8(dsc)) << ", language " << lang << ", encoding " << enc);
    auto made = [](const bytes &b) {
      const unsigned char *p = b.data(), *q = p + b.size();
      if constexpr (V == 2) return F(p, q);
      else if constexpr (V == 3) return F(p, q, P::tag_alter_preservation::preserve, P::file_alter_preservation::preserve, P::read_only::clear, boost::none, boost::none, boost::none);
      else return F(p, q, P::tag_alter_preservation::preserve, P::file_alter_preservation::preserve, P::read_only::clear, boost::none, boost::none, false, false, boost::none);
    };
    F c = made(b);
    scribbu::comments &x = c;
    auto same = [&](F &f, const char *when) {
      auto l = f.lang();
      CHECK_EQ(f.template text<std::string>(), decoded(text), "comment-text", "the text " << when);
      CHECK_EQ(f.template description<std::string>(), decoded(dsc), "comment-description", "the description " << when);
      CHECK_EQ((std::string { (char) std::get<0>(l), (char) std::get<1>(l), (char) std::get<2>(l) }), lang, "comment-language", "the language " << when);
      CHECK_EQ((int) f.unicode(), enc, "comment-encoding", "the encoding " << when);
      ctx.checked(4);
    };
    std::size_t n = s.small(4) + 1;
    for (std::size_t i = 0; i < n; ++i) {
      ustr u = gen::text(s, s.pick({ ASCII, LATIN1, BMP, FULL }));
      encoding src = encoding::UTF_8;
      std::string y = ref::utf8(u);
      bytes l1;
      if (ref::latin1(u, l1) && s.chance(1, 4)) { src = encoding::ISO_8859_1; y = S(l1); }
      bool fits = gen::fits(u, most), ok = true;
      unsigned which = s.below(3);
      if (which == 2) { y = s.chance(1, 6) ? s.pick<std::string>({ "", "en", "engl" }) : s.pick(languages); fits = y.size() == 3; }
      NOTE(ctx, "set " << (which == 0 ? "text " : which == 1 ? "description " : "language ") << show(y));
      try {
        if (which == 0) x.text(y, src);
        else if (which == 1) x.description(y, src);
        else x.lang(y);
      } catch (const std::exception &) {
        ok = false;
      }
      CHECK_EQ(ok, fits, "comment-refused", "whether it was accepted");
      if (ok) (which == 0 ? text : which == 1 ? dsc : u) = u;
      if (ok && which == 2) lang = y;
      same(c, "after an edit");
      std::ostringstream os;
      std::size_t cb = x.write(os);
      CHECK(cb == os.str().size() && cb == x.size(), "comment-size", "size " << x.size() << ", said to have written " << cb << " of " << os.str().size());
      F again = made(B(os.str()));
      same(again, "after writing & reading");
      ctx.label(ok ? "comment-edited" : "refused");
      if (ok && y.size()) ctx.nontrivial(hash(y, V + 30));
    }
  }

  /// The names of text frames
  void names(source &s, context &ctx)
  {
    std::size_t i = s.below(NUM3);
    bool v2 = i < NUM2 && s.flip();
    std::string id = v2 ? FIELDS[i].v2 : FIELDS[i].v3;
    NOTE(ctx, "name " << id);
    std::istringstream is(id);
    TF x = TF::talb;
    is >> x;
    CHECK(x == FIELDS[i].f, "name", id << " names another frame");
    CHECK_EQ(scribbu::frame_id4(FIELDS[i].f).as_string(), std::string(FIELDS[i].v3), "id4", "identifier");
    if (i < NUM2) CHECK_EQ(scribbu::frame_id3(FIELDS[i].f).as_string(), std::string(FIELDS[i].v2), "id3", "identifier");
    std::ostringstream os;
    os << FIELDS[i].f;
    std::istringstream is2(os.str());
    TF y = TF::talb;
    is2 >> y;
    CHECK(y == FIELDS[i].f, "name-trip", "the name " << show(os.str()) << " printed for " << FIELDS[i].v3 << " reads as another frame");
    ctx.nontrivial(mix(i * 2 + v2));
    ctx.checked(3);
  }
  const std::vector<std::string> CODES {
#   include "languages.inc"
  };
  const std::vector<std::pair<std::string, std::string>> SHORT {
#   define ISO_639_1
#   include "languages.inc"
  };

  const char *VARS[] = { "LANGUAGE", "LC_ALL", "LANG" };

  /// Restores the environment
  struct environment {
    std::vector<std::optional<std::string>> was;
    environment() { for (auto v: VARS) { const char *p = getenv(v); was.push_back(p ? std::optional<std::string>(p) : std::nullopt); } }
    ~environment()
    {
      for (std::size_t i = 0; i < was.size(); ++i) if (was[i]) setenv(VARS[i], was[i]->c_str(), 1); else unsetenv(VARS[i]);
    }
  };

  /// A comment is in the language it was said to be in, or in that of the
  /// user's locale
  void tongues(source &s, context &ctx)
  {
    environment e;
    int ver = s.range(2, 4);
    std::vector<std::string> want;
    scribbu::language l = scribbu::language::from_locale;
    if (s.flip()) {
      std::string c = s.pick(CODES);
      NOTE(ctx, "language " << c);
      std::istringstream is(c);
      try { is >> l; } catch (const std::exception &ex) { FAILK("unknown", c << " isn't recognized: " << ex.what()); }
      std::ostringstream os;
      os << l;
      CHECK_EQ(os.str(), c, "printed", "the code of a language");
      want.push_back(c);
    } else {
      // The first of these which is set counts
      bool found = false;
      for (auto v: VARS) {
        unsetenv(v);
        if (s.flip()) continue;
        std::string x = s.pick<std::string>({ "", "C", "C.UTF-8", "POSIX", "?", "?_XX", "?_YY.UTF-8", "?@mod", "?" });
        auto &p = s.pick(SHORT);
        bool real = x.size() && x[0] == '?';
        if (real) x = p.first + x.substr(1);
        setenv(v, x.c_str(), 1);
        NOTE(ctx, v << "=" << x);
        if (found || x.size() < 2) continue;
        found = true;
        if (!real) want.push_back("und");
        else for (std::size_t i = 0; i < p.second.size(); i += 4) want.push_back(p.second.substr(i, 3));
      }
      if (!found) want.push_back("und");
    }
    std::unique_ptr<id3v2_tag> t;
    if (ver == 2) t.reset(new scribbu::id3v2_2_tag()); else if (ver == 3) t.reset(new scribbu::id3v2_3_tag()); else t.reset(new scribbu::id3v2_4_tag());
    std::string got;
    auto note = [&](const scribbu::comments &c) {
      auto x = c.lang();
      got = { (char) std::get<0>(x), (char) std::get<1>(x), (char) std::get<2>(x) };
    };
    t->add_comment("text", l);
    if (ver == 2) for (auto &f: *static_cast<const scribbu::id3v2_2_tag*>(t.get())) note(dynamic_cast<const scribbu::COM&>(f));
    else if (ver == 3) for (auto &f: *static_cast<const scribbu::id3v2_3_tag*>(t.get())) note(dynamic_cast<const scribbu::COMM&>(f));
    else for (auto &f: *static_cast<const scribbu::id3v2_4_tag*>(t.get())) note(dynamic_cast<const scribbu::COMM_2_4&>(f));
    unsigned char code[3];
    scribbu::language_to_iso_639_2(l, code);
    ctx.checked(2);
    CHECK(std::find(want.begin(), want.end(), got) != want.end(), "language", "a comment's language is " << vt::show(got) << ", not " << want[0]);
    CHECK(std::find(want.begin(), want.end(), std::string(code, code + 3)) != want.end(), "code",
          "language_to_iso_639_2 gives " << vt::show(std::string(code, code + 3)) << ", not " << want[0]);
    ctx.nontrivial(vt::hash(got));
  }
}

int main(int argc, char **argv)
{
  return run(argc, argv, spec {
      "P08", "a non-empty text was set; distinct by the history of texts set",
      120000, 3000000,
      { { "v2.2", 10, texts<2> }, { "v2.3", 10, texts<3> }, { "v2.4", 10, texts<4> }, { "readings-2.2", 2, readings<2> }, { "readings-2.3", 2, readings<3> },
        { "readings-2.4", 2, readings<4> }, { "frames-2.2", 2, alone<2> }, { "frames-2.3", 2, alone<3> }, { "frames-2.4", 2, alone<4> }, { "comments-2.2", 1, remarks<2> }, { "comments-2.3", 1, remarks<3> },
        { "comments-2.4", 1, remarks<4> }, { "names", 1, names },
        { "languages", 1, tongues } },
      { "trailing spaces & NULs are dropped on reading, as documented for conversions",
        "texts are free of NULs & of U+FEFF", "no two text frames of a kind in one tag (the standards forbid that)" },
    });
}
