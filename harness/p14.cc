/* P14 -- JSON output is valid & faithful. */
#include "table.hh"
#include "cli.hh"
#include "json.hh"

#include <openssl/md5.h>

#include <scribbu/id3v2-utils.hh>
#include <scribbu/json-pprinter.hh>
#include <scribbu/scribbu.hh>

using namespace vt;
using namespace gen;
using table::num;
using scribbu::encoding;
using json::value;

namespace {

  const char *UNSYNC = "unsynchronised";

  std::string md5(const bytes &b)
  {
    unsigned char d[16];
    MD5(b.data(), b.size(), d);
    return table::hexed(bytes(d, d + 16));
  }

  const value& member(const value &v, const char *k, int type, const std::string &what)
  {
    CHECK(v.type == value::object, "object", what << " isn't an object");
    const value *p = v.get(k);
    CHECK(p, "member", what << " has no \"" << k << "\"");
    CHECK(p->type == type, "member", what << ": \"" << k << "\" is of the wrong type");
    return *p;
  }

  void text(context &ctx, const value &v, const char *k, const std::string &want, const std::string &what)
  {
    ctx.checked();
    CHECK_EQ(member(v, k, value::string, what).text, want, "text", what << ": \"" << k << "\"");
  }

  void number(context &ctx, const value &v, const char *k, std::uint64_t want, const std::string &what)
  {
    ctx.checked();
    CHECK_EQ(member(v, k, value::number, what).text, num(want), "number", what << ": \"" << k << "\"");
  }

  bool well_formed(const std::string &s)
  {
    ustr u;
    return ref::from_utf8(s, u);
  }

  /// What the tag cloud in `v' says, in some order; false if malformed
  bool cloud_of(const value &v, ref::cloud &c)
  {
    auto add = [&](const std::string &k) { return c.insert({ k, {} }).second; };
    for (auto &x: v.items) {
      if (x.type == value::string) {
        if (!add(x.text)) return false;
      } else if (x.type == value::object && x.members.size() == 1) {
        auto &m = x.members[0];
        if (!add(m.first)) return false;
        if (m.second.type == value::string) c[m.first].insert(m.second.text);
        else if (m.second.type == value::array) {
          for (auto &y: m.second.items) {
            if (y.type != value::string || !c[m.first].insert(y.text).second) return false;
          }
        }
        else return false;
      } else return false;
    }
    return true;
  }

  void frame_is(context &ctx, const value &v, const fdesc &d)
  {
    std::string what = "frame " + d.id;
    text(ctx, v, "id", d.id, what);
    number(ctx, v, "size", payload(d).size(), what);
    std::string o(d.owner.begin(), d.owner.end());
    switch (d.k) {
    case kind::text: text(ctx, v, "text", decoded(d.text), what); break;
    case kind::utext: case kind::comment:
      text(ctx, v, "description", decoded(d.dsc), what);
      text(ctx, v, "text", decoded(d.text), what);
      break;
    case kind::count: number(ctx, v, "count", gen::number(d.data), what); break;
    case kind::popm:
      text(ctx, v, "email", o, what);
      number(ctx, v, "rating", d.num, what);
      number(ctx, v, "count", gen::number(d.data), what);
      break;
    case kind::ufid: text(ctx, v, "owner", o, what); break;
    case kind::priv: case kind::encr: text(ctx, v, "email", o, what); break;
    case kind::cloud: {
      // Nothing is said of the encoding; what isn't UTF-8 only has to be valid
      if (well_formed(o)) text(ctx, v, "owner", o, what);
      else member(v, "owner", value::string, what);
      const value &c = member(v, "cloud", value::array, what);
      CHECK_EQ(c.items.size(), d.cloud.size(), "cloud", what << ": number of tags");
      bool ok = true;
      for (auto &kv: d.cloud) {
        ok &= well_formed(kv.first);
        for (auto &x: kv.second) ok &= well_formed(x);
      }
      if (ok) {
        ref::cloud m;
        CHECK(cloud_of(c, m) && m == d.cloud, "cloud", what << ": the tags are different");
        ctx.checked(d.cloud.size());
      }
      break;
    }
    default: break;
    }
  }

  void tag_is(context &ctx, const value &v, int ver, const ref::tag &t, const std::vector<fdesc> &fs, const bytes &img, std::size_t size,
              bool &known)
  {
    std::string what = "ID3v2." + num(ver) + " tag";
    text(ctx, v, "version", "2." + num(ver), what);
    number(ctx, v, "flags", img[5], what);
    number(ctx, v, "size", size, what);
    number(ctx, v, "padding", t.padding, what);
    if (ver == 4) CHECK_EQ(member(v, "experimental", value::boolean, what).b, t.experimental, "experimental", what << ", \"experimental\"");
    bool u = member(v, "unsynchronised", value::boolean, what).b;
    if (u && !t.unsync) known = true; // the known finding
    else CHECK_EQ(u, t.unsync, "unsync", what << ", \"unsynchronised\"");
    const value &f = member(v, "frames", value::array, what);
    CHECK_EQ(f.items.size(), fs.size(), "frames", what << ": number of frames");
    for (std::size_t i = 0; i < fs.size(); ++i) frame_is(ctx, f.items[i], fs[i]);
  }

  void v1_is(context &ctx, const value &v, const ref::v1 &t)
  {
    auto dec = [](const bytes &b) { return decoded(ref::from_latin1(b)); };
    std::string what = "ID3v1 tag";
    text(ctx, v, "version", std::string("1") + (t.v11 ? ".1" : "") + (t.enh ? "-enh" : ""), what);
    text(ctx, v, "album", dec(t.album), what);
    text(ctx, v, "artist", dec(t.artist), what);
    text(ctx, v, "title", dec(t.title), what);
    text(ctx, v, "comment", dec(t.comment), what);
    text(ctx, v, "year", dec(t.year), what);
    number(ctx, v, "genre", t.genre, what);
    if (t.v11) number(ctx, v, "track", t.track, what);
    else CHECK(!v.get("track"), "track", what << " without a track number has one");
    if (t.enh) text(ctx, v, "enhanced-genre", dec(t.egenre), what);
    else CHECK(!v.get("enhanced-genre"), "egenre", what << " isn't enhanced, but has an enhanced genre");
  }

  void spice(source &s, ustr &t)
  {
    if (s.chance(1, 2)) return;
    std::size_t n = 1 + s.small(3);
    for (std::size_t i = 0; i < n; ++i) {
      char32_t c = s.pick<char32_t>({ U'"', U'\\', U'\n', U'\r', U'\t', 1, 0x1f, 0x7f, U'/', U'\b', U'\f', U'{', U',' });
      t.insert(s.below(t.size() + 1), 1, c);
    }
  }

  void prepare(source &s, int ver, fdesc &d, bool l1)
  {
    std::string tmp;
    ref::cloud c = d.cloud;
    bytes o = d.owner;
    table::printable(s, ver, d, '"', l1);
    if (d.k == kind::cloud && !l1 && s.chance(1, 3)) { d.cloud = c; d.owner = o; } // any bytes
    if (d.k == kind::cloud && l1) {
      for (auto &x: d.owner) if (x >= 0x80) x = '"';
      d.cloud.clear();
      if (s.flip()) d.cloud["a\"b"] = { "\n", "x" };
    }
    spice(s, d.text);
    spice(s, d.dsc);
  }

  ref::tag make(source &s, int ver, std::vector<fdesc> &fs, bool l1)
  {
    fopts o;
    o.encr = false;
    o.compress = s.chance(1, 8);
    ref::tag t = reftag(s, ver, fs, 5, o);
    t.frames.clear();
    for (auto &d: fs) {
      prepare(s, ver, d, l1);
      t.frames.push_back(to_ref(ver, d));
    }
    return t;
  }

  ref::v1 v1(source &s)
  {
    ref::v1 t = table::v1tag(s, '"');
    if (t.enh) t.egenre = table::v1field(s, 30, s.flip(), '\\');
    return t;
  }

  struct item {
    char what;
    int ver = 0;
    ref::tag t;
    std::vector<fdesc> fs;
    bytes img;
    std::size_t size = 0;
    ref::v1 v1;
  };

  std::vector<value> parse(context &ctx, const std::string &out, bool l1)
  {
    try {
      return json::parser(out, l1).all();
    } catch (const json::error &e) {
      FAILK("invalid", e.what << " at " << e.at << ": " << vt::show(out.substr(e.at < 40 ? 0 : e.at - 40, 80)));
    }
  }

  void compare(context &ctx, const std::vector<item> &want, const std::string &out, bool l1, bool &known)
  {
    NOTE(ctx, "output: " << vt::show(out));
    auto got = parse(ctx, out, l1);
    CHECK_EQ(got.size(), want.size(), "values", "number of values");
    for (std::size_t i = 0; i < got.size(); ++i) {
      const item &it = want[i];
      switch (it.what) {
      case 't': tag_is(ctx, got[i], it.ver, it.t, it.fs, it.img, it.size, known); break;
      case 'f': frame_is(ctx, got[i], it.fs[0]); break;
      case '1': v1_is(ctx, got[i], it.v1); break;
      default: text(ctx, got[i], "md5", md5(it.img), "track"); break;
      }
    }
  }

  template <int V> void print_frame(const fdesc &d, std::ostream &os) { os << *from_bytes<V>(d); }

  void items(source &s, context &ctx)
  {
    std::ostringstream os;
    bool l1 = s.chance(1, 5);
    os << scribbu::print_as_json(s.flip() ? encoding::ISO_8859_1 : encoding::CP1252);
    if (l1) os << scribbu::ienc(encoding::ISO_8859_1, scribbu::on_no_encoding::fail);
    std::size_t n = 1 + s.small(3);
    std::vector<item> want;
    for (std::size_t i = 0; i < n; ++i) {
      item it;
      it.ver = s.range(2, 4);
      switch (s.weighted({ 5, 3, 2, 1 })) {
      case 0: {
        it.what = 't';
        it.t = make(s, it.ver, it.fs, l1);
        it.img = ref::encode(it.t);
        NOTE(ctx, "ID3v2." << it.ver << " tag" << (it.t.unsync ? ", unsynchronised" : ""));
        for (auto &d: it.fs) NOTE(ctx, "  " << show(d));
        std::istringstream is(S(it.img));
        auto p = scribbu::maybe_read_id3v2(is);
        CHECK(p != nullptr, "read", "a tag isn't read");
        it.size = p->size();
        os << *p;
        ctx.label("tag");
        break;
      }
      case 1: {
        it.what = 'f';
        fopts o;
        o.compress = false;
        fdesc d = frame(s, it.ver, o);
        prepare(s, it.ver, d, l1);
        it.fs.push_back(d);
        NOTE(ctx, "frame " << show(d));
        if (it.ver == 2) print_frame<2>(d, os); else if (it.ver == 3) print_frame<3>(d, os); else print_frame<4>(d, os);
        ctx.label("frame");
        break;
      }
      case 2: {
        it.what = '1';
        it.v1 = v1(s);
        NOTE(ctx, "ID3v1 " << ref::show(it.v1));
        std::istringstream is(S(ref::encode(it.v1)));
        auto p = scribbu::process_id3v1(is);
        CHECK(p != nullptr, "v1", "an ID3v1 tag isn't found");
        os << *p;
        ctx.label("ID3v1");
        break;
      }
      default: {
        it.what = 'd';
        it.img = s.flip() ? audio(s, 300) : bulk(s, s.below(300));
        std::istringstream is(S(it.img));
        scribbu::track_data t(is);
        os << t;
        ctx.label("track");
      }
      }
      want.push_back(it);
      os << "\n";
    }
    bool known = false;
    compare(ctx, want, os.str(), l1, known);
    if (os.str().find('\\') != std::string::npos || want.size() > 1) ctx.nontrivial(vt::hash(os.str()));
    if (known) FAILK(UNSYNC, "a tag which isn't unsynchronised is said to be");
  }

  /// Identifiers of frames are whatever the file has
  void ids(source &s, context &ctx)
  {
    int ver = s.range(2, 4);
    std::string id;
    for (int i = 0; i < (ver == 2 ? 3 : 4); ++i) {
      unsigned char c = s.flip() ? s.byte() : s.pick<unsigned char>({ '"', '\\', 'T', 'A', '\n', 0x80, 0xff, 0xc3, 0xa9 });
      id += (char) (c ? c : 'Z');
    }
    fdesc d;
    d.k = kind::opaque;
    d.id = id;
    d.data = { 0, 'a', 'b' };
    NOTE(ctx, "ID3v2." << ver << " frame " << vt::show(id));
    std::ostringstream os;
    os << scribbu::print_as_json();
    try {
      ref::tag t;
      t.ver = ver;
      t.frames.push_back(to_ref(ver, d));
      std::istringstream is(S(ref::encode(t)));
      auto p = scribbu::maybe_read_id3v2(is);
      CHECK(p != nullptr, "read", "a tag isn't read");
      os << *p;
    } catch (const scribbu::error &ex) {
      NOTE(ctx, "refused: " << ex.what());
      return;
    }
    NOTE(ctx, "output: " << vt::show(os.str()));
    auto v = parse(ctx, os.str(), false);
    CHECK_EQ(v.size(), std::size_t(1), "values", "number of values");
    const value &f = member(v[0], "frames", value::array, "tag");
    CHECK_EQ(f.items.size(), std::size_t(1), "frames", "number of frames");
    std::string got = member(f.items[0], "id", value::string, "frame").text;
    bool plain = true;
    for (unsigned char c: id) plain &= c < 0x80;
    if (plain) CHECK_EQ(got, id, "id", "the identifier");
    ctx.nontrivial(vt::hash(os.str()));
  }

  void escape(source &s, context &ctx)
  {
    std::string t;
    if (s.flip()) t = S(s.blob_upto(12));
    else { ustr u = gen::text(s, FULL, 12); spice(s, u); t = ref::utf8(u); }
    std::string e = scribbu::json_pprinter::escape(t);
    NOTE(ctx, vt::show(t) << " -> " << vt::show(e));
    auto v = parse(ctx, "\"" + e + "\"", false);
    CHECK(v.size() == 1 && v[0].type == value::string, "escape", "not a string");
    if (well_formed(t)) CHECK_EQ(v[0].text, t, "escape", "the text");
    if (e != t) ctx.nontrivial(vt::hash(e));
  }

  void dump(source &s, context &ctx)
  {
    clear_dir(ctx.scratch);
    cli::args a { "dump", "-f", "json" };
    int w = s.weighted({ 4, 1, 1, 1 }); // everything, or only some part
    if (w) a.push_back(w == 1 ? "-1" : w == 2 ? "-2" : "-D");
    if (s.flip()) { a.push_back("-c"); a.push_back(s.pick<std::string>({ "ISO-8859-1", "CP1252" })); }
    std::vector<item> want;
    std::size_t n = 1 + s.small(3), good = 0;
    for (std::size_t i = 0; i < n; ++i) {
      std::vector<item> its;
      bytes all;
      std::size_t nt = s.weighted({ 1, 4, 2, 1 });
      bool bad = false;
      for (std::size_t j = 0; j < nt; ++j) {
        item it;
        it.what = 't';
        it.ver = s.range(2, 4);
        it.t = make(s, it.ver, it.fs, false);
        bool spoil = s.chance(1, 12);
        if (spoil) {
          ref::frame r;
          r.id = it.ver == 2 ? "TT2" : "TIT2";
          r.payload = { 1, 0xff, 0xfe, 'a', 0, 0, 0xdc };
          if (it.ver == 4) r.unsync = it.t.unsync;
          it.t.frames.push_back(r);
          bad = true;
        }
        it.img = ref::encode(it.t);
        NOTE(ctx, "file " << i << ": ID3v2." << it.ver << (spoil ? ", malformed text" : ""));
        for (auto &d: it.fs) NOTE(ctx, "  " << show(d));
        std::istringstream is(S(it.img));
        auto p = scribbu::maybe_read_id3v2(is);
        CHECK(p != nullptr, "read", "a tag isn't read");
        it.size = p->size();
        app(all, it.img);
        if (w == 0 || w == 2) its.push_back(it); else bad = false;
      }
      item d;
      d.what = 'd';
      d.img = audio(s, 300);
      if (d.img.size() < 300) app(d.img, bulk(s, 300));
      app(all, d.img);
      if (w == 0 || w == 3) its.push_back(d);
      if (s.flip()) {
        item it;
        it.what = '1';
        it.v1 = v1(s);
        NOTE(ctx, "file " << i << ": ID3v1 " << ref::show(it.v1));
        app(all, ref::encode(it.v1));
        if (w == 0 || w == 1) its.push_back(it);
      }
      std::string f = ctx.scratch + "/" + num(i) + ".mp3";
      spew(f, all);
      a.push_back(f);
      if (!bad) {
        ++good;
        want.insert(want.end(), its.begin(), its.end());
      }
    }
    NOTE(ctx, cli::show(a));
    auto r = cli::run(ctx, ctx.scratch, a);
    NOTE(ctx, "exit status " << r.status << "; " << vt::show(r.err));
    CHECK(cli::orderly(r), "crash", "the program crashed");
    bool known = false;
    compare(ctx, want, r.out, false, known);
    ctx.label("dump");
    if (good) ctx.nontrivial(vt::hash(r.out));
    if (known) FAILK(UNSYNC, "a tag which isn't unsynchronised is said to be");
  }
}

int main(int argc, char **argv)
{
  return run(argc, argv, spec {
      "P14", "something in the output is escaped, or there are several values, or a file was dumped; distinct by the output",
      250000, 6000000,
      { { "items", 40, items }, { "ids", 4, ids }, { "escape", 4, escape }, { "dump", 2, dump } },
      { "owners in UFID, POPM, PRIV and ENCR frames are ASCII, since their encoding isn't recorded in the tag",
        "tag clouds which aren't UTF-8 & identifiers which aren't ASCII needn't be readable from the output, but it must be valid",
        "a file which can't be printed adds nothing to the output" },
    });
}
