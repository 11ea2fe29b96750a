/* P10 -- no input, however malformed, makes the library or the program
 * misbehave: operations succeed or throw. */
#include "files.hh"
#include "cli.hh"
#include "mpeg.hh"

#include <fstream>
#include <iomanip>
#include <typeinfo>

#include <zlib.h>


#include <scribbu/csv-pprinter.hh>
#include <scribbu/id3v2-utils.hh>
#include <scribbu/json-pprinter.hh>
#include <scribbu/mp3.hh>
#include <scribbu/ostream.hh>
#include <scribbu/pprinter.hh>
#include <scribbu/tagset.hh>
#include <scribbu/tbt-support.hh>
#include <scribbu/tdf-pprinter.hh>

extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, std::size_t), void (*)(const volatile void*));

using namespace vt;
using namespace gen;
using namespace scribbu;

namespace {

  // --- what's allocated, & what's left in it
  volatile std::size_t largest = 0;
  volatile int fill = 0;

  void on_malloc(const volatile void *p, std::size_t n)
  {
    if (n > largest) largest = n;
    // A second run with other garbage in fresh memory ought to give the same
    if (fill && n <= 4096) std::memset((void*) p, fill, n);
  }
  void on_free(const volatile void *) { }

  struct hooks {
    hooks() { __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free); }
  } HOOKS;

  // --- generators

  unsigned char evil(source &s)
  {
    return s.pick<unsigned char>({ 0, 1, 2, 3, 4, 5, 0x10, 0x1f, 0x20, 0x40, 0x7f, 0x80, 0x81, 0xa0, 0xc0, 0xfe, 0xff });
  }

  void mutate(source &s, bytes &b)
  {
    if (b.empty()) { b = s.blob_upto(20); return; }
    std::size_t i = s.chance(1, 2) ? s.below(std::min<std::size_t>(b.size(), 40)) : s.below(b.size());
    switch (s.below(9)) {
    case 0: b[i] ^= 1 << s.below(8); break;
    case 1: b[i] = evil(s); break;
    case 2: b[i] = s.byte(); break;
    case 3: b.resize(i); break;
    case 4: b.erase(b.begin() + i, b.begin() + std::min(b.size(), i + 1 + s.small(12))); break;
    case 5: { bytes x = s.blob(1 + s.small(12)); b.insert(b.begin() + i, x.begin(), x.end()); break; }
    case 6: { // a 32-bit number
      bytes x = ref::put_be(s.edgy(32), 4);
      for (std::size_t k = 0; k < 4 && i + k < b.size(); ++k) b[i + k] = x[k];
      break;
    }
    case 7: { // repeat a piece
      std::size_t n = std::min<std::size_t>(b.size() - i, 1 + s.below(64));
      bytes x(b.begin() + i, b.begin() + i + n);
      b.insert(b.begin() + s.below(b.size() + 1), x.begin(), x.end());
      break;
    }
    default: { // move one
      std::size_t n = std::min<std::size_t>(b.size() - i, 1 + s.below(32));
      bytes x(b.begin() + i, b.begin() + i + n);
      b.erase(b.begin() + i, b.begin() + i + n);
      b.insert(b.begin() + s.below(b.size() + 1), x.begin(), x.end());
    }
    }
  }

  bytes evil_payload(source &s, int ver, std::string &id)
  {
    bytes p;
    if (s.chance(1, 6)) {
      id = s.pick<std::string>({ "XXXX", "AAAA", "T\xff\xff\xff", std::string(4, '\0'), "TXXX", "APIC", "PRIV", "    ", "ENCR", "tit2" });
      if (ver == 2) id.resize(3);
      p = s.blob_upto(40);
    } else {
      fopts o;
      o.flags = false;
      fdesc d = frame(s, ver, o);
      id = d.id;
      p = payload(d);
      switch (s.weighted({ 3, 3, 3, 2, 2 })) {
      case 0: p.resize(s.below(p.size() + 1)); break;
      case 1: p.resize(s.below(std::min<std::size_t>(p.size(), 7) + 1)); break;
      case 2: for (std::size_t i = 0, n = 1 + s.small(4); i < n; ++i) mutate(s, p); break;
      case 3: if (!p.empty()) p[0] = evil(s); break;
      default: break;
      }
    }
    return p;
  }

  bytes zipped(const bytes &b)
  {
    uLongf n = compressBound(b.size());
    bytes z(n);
    compress(z.data(), &n, b.data(), b.size());
    z.resize(n);
    return z;
  }

  std::uint32_t lie(source &s, std::size_t truth)
  {
    switch (s.weighted({ 6, 2, 1, 1 })) {
    case 0: return truth;
    case 1: return truth + s.below(11) - 5;
    case 2: return s.edgy(32);
    default: return s.edgy(28);
    }
  }

  bytes evil_frame(source &s, int ver)
  {
    std::string id;
    bytes p = evil_payload(s, ver, id), r = B(id);
    if (ver == 2) {
      app(r, ref::put_be(lie(s, p.size()) & 0xffffff, 3));
      app(r, p);
      return r;
    }
    unsigned f0 = s.chance(1, 4) ? s.byte() : 0, f1 = 0;
    bytes extra;
    if (s.chance(1, 3)) {
      std::size_t truth = p.size();
      if (ver == 3) {
        f1 = s.chance(1, 3) ? s.byte() : s.pick<unsigned>({ 0x80, 0x40, 0x20, 0xc0, 0xa0, 0xe0 });
        if (f1 & 0x80) { app(extra, ref::put_be(lie(s, truth), 4)); if (s.chance(3, 4)) p = zipped(p); }
        if (f1 & 0x40) extra.push_back(s.byte());
        if (f1 & 0x20) extra.push_back(s.byte());
      } else {
        f1 = s.chance(1, 3) ? s.byte() : s.pick<unsigned>({ 0x09, 0x08, 0x04, 0x40, 0x02, 0x01, 0x03, 0x4f, 0x0b, 0x0d });
        if (f1 & 0x40) extra.push_back(s.byte());
        if (f1 & 0x04) extra.push_back(s.byte());
        if (f1 & 0x01) app(extra, s.flip() ? ref::put_ss(lie(s, truth) & 0xfffffff) : ref::put_be(lie(s, truth), 4));
        if ((f1 & 0x08) && s.chance(3, 4)) p = zipped(p);
        if ((f1 & 0x02) && s.chance(3, 4)) p = ref::unsync(p, true);
      }
      if (s.chance(1, 5)) mutate(s, p);
      if (s.chance(1, 6)) { extra.resize(s.below(extra.size() + 1)); p.clear(); }
    }
    std::size_t n = extra.size() + p.size();
    app(r, ver == 4 && s.chance(5, 6) ? ref::put_ss(lie(s, n) & 0xfffffff) : ref::put_be(lie(s, n), 4));
    r.push_back(f0);
    r.push_back(f1);
    app(r, extra);
    app(r, p);
    return r;
  }

  bytes evil_tag(source &s)
  {
    int ver = s.range(2, 4);
    bytes body, r = B("ID3");
    unsigned flags = s.weighted({ 4, 2, 1 });
    flags = flags == 0 ? 0 : flags == 1 ? s.pick<unsigned>({ 0x80, 0x40, 0xc0, 0x20, 0x10, 0x50, 0xd0 }) : s.byte();
    for (std::size_t i = 0, n = s.below(4); i < n; ++i) app(body, evil_frame(s, ver));
    if (s.chance(1, 3)) app(body, bytes(s.small(60), 0));
    if (flags & 0x40 && s.chance(5, 6)) {
      bytes x;
      if (ver == 3) {
        bool crc = s.flip();
        app(x, ref::put_be(lie(s, crc ? 10 : 6), 4));
        x.push_back(crc ? 0x80 : s.pick<unsigned char>({ 0, 0x80, 0xff }));
        x.push_back(s.chance(1, 6) ? s.byte() : 0);
        app(x, ref::put_be(lie(s, 0), 4));
        if (crc) app(x, ref::put_be(s.edgy(32), 4));
      } else {
        unsigned f = s.chance(1, 4) ? s.byte() : s.pick<unsigned>({ 0, 0x40, 0x20, 0x10, 0x70 });
        bytes y;
        y.push_back(s.chance(1, 6) ? s.byte() : 1);
        y.push_back(f);
        if (f & 0x40) y.push_back(s.chance(1, 6) ? s.byte() : 0);
        if (f & 0x20) { y.push_back(s.chance(1, 6) ? s.byte() : 5); app(y, s.blob(5)); }
        if (f & 0x10) { y.push_back(s.chance(1, 6) ? s.byte() : 1); y.push_back(s.byte()); }
        x = s.chance(4, 5) ? ref::put_ss(lie(s, y.size() + 4) & 0xfffffff) : ref::put_be(lie(s, y.size() + 4), 4);
        app(x, y);
      }
      if (s.chance(1, 6)) x.resize(s.below(x.size() + 1));
      body.insert(body.begin(), x.begin(), x.end());
    }
    if ((flags & 0x80) && s.chance(3, 4)) body = ref::unsync(body, s.flip());
    r.push_back(s.chance(1, 30) ? s.byte() : ver);
    r.push_back(s.chance(1, 30) ? s.byte() : 0);
    r.push_back(flags);
    app(r, ref::put_ss(lie(s, body.size()) & 0xfffffff));
    app(r, body);
    if (ver == 4 && (flags & 0x10) && s.chance(3, 4)) {
      bytes f(r.begin(), r.begin() + 10);
      f[0] = '3'; f[1] = 'D'; f[2] = 'I';
      app(r, f);
    }
    return r;
  }

  bytes evil_audio(source &s)
  {
    bytes b;
    std::size_t n = s.below(4);
    for (std::size_t i = 0; i < n; ++i) {
      mpeg::frame f = mpeg::any_frame(s);
      mpeg::vbr v;
      if (i == 0 && s.flip()) v = mpeg::any_vbr(s);
      app(b, mpeg::encode(s, f, &v));
    }
    if (b.size() > 6000) b.resize(6000);
    for (std::size_t i = 0, k = s.small(8); i < k; ++i) {
      if (b.empty()) break;
      // VBR headers lie at about 36
      std::size_t at = s.flip() ? s.below(std::min<std::size_t>(b.size(), 200)) : s.below(b.size());
      b[at] = s.flip() ? evil(s) : s.byte();
    }
    if (s.chance(1, 3)) b.resize(s.below(b.size() + 1));
    return b;
  }

  bytes evil_v1(source &s)
  {
    ref::v1 v = v1tag(s);
    bytes b = ref::encode(v);
    for (std::size_t i = 0, n = s.small(4); i < n; ++i) {
      if (s.flip()) mutate(s, b); else if (!b.empty()) b[s.below(b.size())] = s.byte();
    }
    return b;
  }

  bytes input(source &s, context &ctx)
  {
    bytes b;
    switch (s.weighted({ 5, 4, 2, 2, 1 })) {
    case 0:
      ctx.label("hostile");
      for (std::size_t i = 0, n = s.weighted({ 0, 5, 2, 1 }); i < n; ++i) app(b, evil_tag(s));
      if (s.chance(1, 4)) app(b, evil_audio(s));
      if (s.chance(1, 4)) app(b, evil_v1(s));
      break;
    case 1: {
      ctx.label("mutated");
      trackfile f = track_file(s, ctx, 2);
      if (f.audio.size() > 3000) f.audio.resize(3000);
      b = f.all();
      for (std::size_t i = 0, n = 1 + s.small(8); i < n; ++i) mutate(s, b);
      break;
    }
    case 2:
      ctx.label("audio");
      if (s.chance(1, 4)) b = evil_tag(s);
      app(b, evil_audio(s));
      break;
    case 3:
      ctx.label("v1");
      b = s.blob_upto(30);
      app(b, evil_v1(s));
      break;
    default:
      ctx.label("noise");
      if (s.flip()) { b = B("ID3"); b.push_back(s.range(2, 4)); b.push_back(0); }
      app(b, s.blob_upto(300));
    }
    NOTE(ctx, "input: " << b.size() << " bytes " << hex(b.data(), b.size(), 600));
    return b;
  }

  // --- operations

  struct log {
    std::ostringstream os;
    unsigned long ops = 0, threw = 0;
    template <typename F> bool operator()(const char *what, F f)
    {
      ++ops;
      os << what << ": ";
      try {
        f();
        os << "\n";
        return true;
      } catch (const failure&) {
        throw;
      } catch (const std::bad_alloc &ex) {
        FAILK("bad-alloc", what << " ran out of memory: " << ex.what());
      } catch (const std::length_error &ex) {
        FAILK("length-error", what << " asked for too much: " << ex.what());
      } catch (const std::exception &ex) {
        ++threw;
        os << "throws " << typeid(ex).name() << " " << ex.what() << "\n";
      } catch (...) {
        ++threw;
        os << "throws something\n";
      }
      return false;
    }
  };

  template <typename T> void print(log &L, const T &x, int way)
  {
    L("print", [&]() {
      std::ostringstream os;
      switch (way % 6) {
      case 0: break;
      case 1: os << pretty_print(2, true, encoding::ISO_8859_1); break;
      case 2: os << print_as_csv(); break;
      case 3: os << print_as_tdf(); break;
      case 4: os << print_as_json(); break;
      default: os << print_as_csv(1, boost::none, encoding::UTF_8, ';'); break;
      }
      switch (way / 6 % 3) {
      case 0: break;
      case 1: os << ienc(encoding::ISO_8859_1, on_no_encoding::transliterate); break;
      default: os << ienc(encoding::ASCII, on_no_encoding::ignore); break;
      }
      os << x;
      L.os << os.str();
    });
  }

  template <int V> void inspect(log &L, const typename lib<V>::tag &t, int way)
  {
    for (const typename lib<V>::frame &f: t) {
      L("frame", [&]() { L.os << look<V>(f).str(); });
      print(L, f, way);
      L("sizes", [&]() { L.os << f.size() << " " << f.serialized_size(true) << " " << f.serialized_size(false) << " " << f.needs_unsynchronisation(); });
      if (auto *p = dynamic_cast<const typename lib<V>::text*>(&f)) {
        L("text", [&]() { L.os << p->template as_str<std::string>(encoding::UTF_8, on_no_encoding::ignore); });
        L("text", [&]() { L.os << p->template as_str<std::string>(encoding::ASCII, on_no_encoding::transliterate, encoding::UTF_16LE); });
      }
    }
    L("comments", [&]() { std::vector<typename lib<V>::comment> v; t.get_comments(std::back_inserter(v)); L.os << v.size(); });
  }

  typedef std::unique_ptr<id3v2_tag> ptag;

  void inspect(log &L, id3v2_tag &t, int way)
  {
    L.os << "tag " << int(t.version()) << " " << int(t.flags()) << " " << t.num_frames() << " " << t.padding() << "\n";
    if (auto *p = dynamic_cast<id3v2_2_tag*>(&t)) inspect<2>(L, *p, way);
    else if (auto *p = dynamic_cast<id3v2_3_tag*>(&t)) inspect<3>(L, *p, way);
    else if (auto *p = dynamic_cast<id3v2_4_tag*>(&t)) inspect<4>(L, *p, way);
#   define GET(x) L(#x, [&]() { if (t.has_##x()) L.os << t.x(); });
    GET(album) GET(artist) GET(content_type) GET(encoded_by) GET(languages) GET(play_count) GET(title) GET(track) GET(year)
#   undef GET
    L("absent", [&]() { if (!t.has_artist()) L.os << t.artist(); });
    L("absent", [&]() { if (!t.has_play_count()) L.os << t.play_count(); });
    print(L, t, way);
    print(L, t, way + 2);
    for (bool u: { false, true }) {
      L("size", [&]() { L.os << t.size(u) << " " << t.size_on_disk(u) << " " << t.needs_unsynchronisation(); });
      L("write", [&]() { std::ostringstream os; L.os << t.write(os, u); L.os << hex(os.str().data(), os.str().size(), 100000); });
    }
  }

  void edit(log &L, id3v2_tag &t, int way)
  {
    L("edit", [&]() { t.artist("x\xc3\xbc"); });
    L("edit", [&]() { t.title("y", encoding::UTF_8, true); });
    L("edit", [&]() { t.add_comment("z", language::eng); });
    L("edit", [&]() { t.add_user_defined_text("z", encoding::UTF_8, use_unicode::yes, "d"); });
    L("edit", [&]() { t.delete_frame(id3v2_text_frames::tit2); });
    L("edit", [&]() { t.padding(way); });
    L("copy", [&]() { std::unique_ptr<id3v2_tag> p(t.clone()); std::ostringstream os; p->write(os, way & 1); L.os << hex(os.str().data(), os.str().size(), 100000); });
  }

  void v1(log &L, const id3v1_tag &t, int way)
  {
    print(L, t, way);
    for (auto e: { encoding::ISO_8859_1, encoding::UTF_8, encoding::ASCII }) {
      L("v1", [&]() { L.os << t.title<std::string>(e) << t.artist<std::string>(e) << t.album<std::string>(e) << t.comment<std::string>(e) << t.year<std::string>(e); });
      L("v1", [&]() { if (t.enhanced()) L.os << t.enh_genre<std::string>(e) << t.start_time<std::string>(e) << t.end_time<std::string>(e); });
    }
    L("v1", [&]() { std::ostringstream os; t.write(os); L.os << hex(os.str().data(), os.str().size()); });
  }

  std::string exercise(const bytes &b, int way, log &L)
  {
    const std::string str = S(b);
    std::vector<ptag> tags;
    {
      std::istringstream is(str);
      L("probe", [&]() { id3v2_info H = looking_at_id3v2(is); L.os << H.present_; });
      L("ends", [&]() { id3v1_info I = ends_in_id3v1(is); L.os << int(I.type_); });
      L("read", [&]() { read_all_id3v2(is, std::back_inserter(tags)); L.os << tags.size(); });
      L("second", [&]() { is.clear(); is.seekg(0); read_id3v2(is, 1); });
    }
    for (auto &t: tags) inspect(L, *t, way);
    for (auto &t: tags) edit(L, *t, way);
    {
      // take it for each of the versions
      std::istringstream is(str);
      if (way & 1) is.exceptions(std::ios_base::eofbit | std::ios_base::failbit | std::ios_base::badbit);
      int k = way % 3;
      L("take", [&]() {
        std::unique_ptr<id3v2_tag> p;
        if (k == 0) p.reset(new id3v2_2_tag(is)); else if (k == 1) p.reset(new id3v2_3_tag(is)); else p.reset(new id3v2_4_tag(is));
        inspect(L, *p, way + 1);
      });
    }
    {
      std::istringstream is(str);
      L("v1", [&]() { auto p = process_id3v1(is); if (p) v1(L, *p, way); });
    }
    {
      std::istringstream is(str);
      L("track", [&]() { while (looking_at_id3v2(is).present_) { id3v2_info H = looking_at_id3v2(is, false); is.seekg(H.size_, std::ios_base::cur); } track_data td(is); print(L, td, way); });
    }
    {
      std::istringstream is(str);
      L("duration", [&]() { L.os << get_mp3_duration(is); });
      is.clear(); is.seekg(0);
      L("sync", [&]() { find_sync(is); L.os << is.tellg(); });
    }
    for (std::size_t i = 0; i + 4 < b.size() && i < 600; ++i) {
      if (b[i] == 0xff && (b[i + 1] & 0xe0) == 0xe0) {
        std::istringstream is(str);
        is.seekg(i);
        L("mpeg", [&]() { mp3_audio_frame f(is); L.os << f.duration().first << " " << f.size(); });
        break;
      }
    }
    return L.os.str();
  }

  void library(source &s, context &ctx)
  {
    int way = s.below(72);
    bytes b = input(s, ctx);
    NOTE(ctx, "way " << way);
    log A;
    largest = 0;
    fill = 0x5a;
    std::string x = exercise(b, way, A);
    std::size_t most = largest;
    // deflated data expands about a thousandfold at most
    CHECK(most <= 1100 * b.size() + (1 << 20), "allocation", b.size() << " bytes of input made for an allocation of " << most << " bytes");
    log C;
    fill = 0xc3;
    std::string y = exercise(b, way, C);
    fill = 0;
    if (x != y) {
      std::size_t i = 0;
      while (i < x.size() && i < y.size() && x[i] == y[i]) ++i;
      std::size_t j = i > 60 ? i - 60 : 0;
      FAILK("indeterminate", "the same operations on the same input differ: " << show(x.substr(j, 160)) << " & then " << show(y.substr(j, 160)));
    }
    ctx.checked(A.ops);
    if (A.ops > 20) { ctx.label("parsed"); ctx.nontrivial(hash(b)); }
    else if (A.threw > 1) { ctx.label("rejected"); ctx.nontrivial(hash(b)); }
  }

  /// Frames built from payloads, as when reading
  template <int V> void frames_(source &s, context &ctx)
  {
    std::string id;
    bytes p = evil_payload(s, V, id);
    int way = s.below(72);
    NOTE(ctx, "2." << V << " " << show(id) << " " << show(p) << ", way " << way);
    // any parser may be given any payload
    fopts o;
    o.encr = true;
    fdesc d = frame(s, V, o);
    log L[2];
    for (int i = 0; i < 2; ++i) {
      largest = 0;
      fill = i ? 0xc3 : 0x5a;
      log &l = L[i];
      std::unique_ptr<typename lib<V>::frame> f;
      bool ok = l("make", [&]() { f = from_payload<V>(d, p); });
      if (ok && f) {
        l("look", [&]() { l.os << look<V>(*f).str(); });
        for (int w = 0; w < 5; ++w) print(l, *f, w);
        print(l, *f, way);
        l("write", [&]() { std::ostringstream os; f->write(os, false); l.os << hex(os.str().data(), os.str().size(), 100000); });
        l("sizes", [&]() { l.os << f->needs_unsynchronisation() << f->serialized_size(true) << " " << f->serialized_size(false); });
        typename lib<V>::tag t(10);
        l("add", [&]() { push<V>(t, *f, way & 1); inspect(l, t, way); edit(l, t, way); });
        ctx.nontrivial(hash(p, int(d.k) * 8 + V));
      }
      fill = 0;
      CHECK(largest <= 1100 * p.size() + (1 << 20), "allocation", p.size() << " bytes of input made for an allocation of " << largest << " bytes");
      ctx.checked(l.ops);
    }
    std::string x = L[0].os.str(), y = L[1].os.str();
    if (x != y) {
      std::size_t i = 0;
      while (i < x.size() && i < y.size() && x[i] == y[i]) ++i;
      std::size_t j = i > 60 ? i - 60 : 0;
      FAILK("indeterminate", "the same operations on the same input differ: " << show(x.substr(j, 160)) << " & then " << show(y.substr(j, 160)));
    }
  }

  void frames(source &s, context &ctx)
  {
    switch (s.below(3)) {
    case 0: frames_<2>(s, ctx); break;
    case 1: frames_<3>(s, ctx); break;
    default: frames_<4>(s, ctx);
    }
  }

  /// Operations on files
  void tracks(source &s, context &ctx)
  {
    place pl(s, ctx, false);
    tempdir td(ctx, false);
    bytes b = input(s, ctx);
    spew(pl.file(), b);
    fs::path p = pl.file();
    int way = s.below(72), op = s.below(8);
    NOTE(ctx, "operation " << op);
    log L;
    largest = 0;
    std::vector<ptag> tags;
    std::ifstream ifs(p, std::ios_base::binary);
    L("read", [&]() { read_all_id3v2(ifs, std::back_inserter(tags)); });
    ifs.close();
    if (tags.empty()) tags.push_back(ptag(new id3v2_3_tag(16)));
    switch (op) {
    case 0: L("copy", [&]() { replace_tagset_copy(p, tags.begin(), tags.end(), apply_unsync::never, 1); }); break;
    case 1: L("maybe", [&]() { maybe_emplace_tagset(p, tags.begin(), tags.end(), apply_unsync::as_needed, emplace_strategy::only_with_full_padding, padding_strategy::adjust_padding_evenly, 0); }); break;
    case 2: L("emplace", [&]() { replace_tagset_emplace(p, tags.begin(), tags.end(), apply_unsync::always); }); break;
    case 3: L("size", [&]() { L.os << tagset_size(p); }); break;
    case 4: L("remove v1", [&]() { maybe_remove_id3v1(p); }); break;
    case 5: L("replace v1", [&]() { std::ifstream f(p, std::ios_base::binary); auto t = process_id3v1(f); if (t) replace_id3v1(p, *t); }); break;
    case 6: L("template", [&]() { template_processor t("%A%L%T(%Y)?%e%S%5"); L.os << t(p); }); break;
    default: L("template", [&]() { template_processor t("%(artist:prefer-v1)-(%(title:the=prefix))?"); L.os << t(p); }); break;
    }
    CHECK(largest <= 1100 * b.size() + (1 << 20), "allocation", b.size() << " bytes of input made for an allocation of " << largest << " bytes");
    ctx.checked(L.ops);
    ctx.nontrivial(hash(b, op));
  }

  /// The program
  void program(source &s, context &ctx)
  {
    place pl(s, ctx, false);
    tempdir td(ctx, false);
    bytes b = input(s, ctx);
    spew(pl.file(), b);
    static const std::vector<cli::args> CMDS {
      { "dump", "a.mp3" }, { "dump", "-f", "csv", "a.mp3" }, { "dump", "-f", "json", "." }, { "dump", "-2", "-g", "a.mp3" },
      { "report", "-o", "r.csv", "a.mp3" }, { "report", "-t", "-o", "r.tdf", "." },
      { "text", "--artist", "x", "a.mp3" }, { "genre", "-w", "3", "a.mp3" }, { "popm", "-o", "x", "-r", "3", "a.mp3" }, { "popm", "-C", "a.mp3" },
      { "xtag", "-T", "a=b", "-o", "x", "-c", "a.mp3" }, { "xtag", "-g", "a.mp3" },
      { "rename", "-t", "%A-%T%e", "a.mp3" }, { "split", "a.mp3" }, { "m3u", "a.mp3" }, { "m3u", "-e", "a.mp3" },
    };
    const cli::args &a = s.pick(CMDS);
    NOTE(ctx, cli::show(a));
    proc_result r = cli::run(ctx, pl.dir, a);
    CHECK(cli::orderly(r), "program", cli::show(a) << (r.signalled ? " died of signal " : " ended with status ") << r.status << ": " << r.err.substr(0, 3000));
    CHECK(r.err.find("bad_alloc") == std::string::npos, "program/bad-alloc", r.err);
    ctx.checked();
    ctx.label(a[0]);
    ctx.nontrivial(hash(b, hash(cli::show(a))));
  }
}

int main(int argc, char **argv)
{
  return run(argc, argv, spec {
      "P10", "the input parsed far enough for more than 20 operations, or was rejected with exceptions, or a file operation or command ran on it; distinct by input & operation",
      130000, 3000000,
      { { "library", 40, library }, { "frames", 20, frames }, { "tracks", 8, tracks }, { "program", 6, program } },
      { "memory errors are seen by AddressSanitizer & some by UndefinedBehaviorSanitizer; reads of fresh memory never written to by repeating the operations with other garbage in it",
        "an allocation's out of proportion if it's above 1 MB & 1,100 times the input",
        "a case taking more than 10 s of processor time is taken not to end" },
      10,
    });
}
