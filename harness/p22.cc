/* P22 -- the plain listing shows what's in the tags. */
#include "table.hh"
#include "cli.hh"

#include <ctime>
#include <deque>
#include <functional>
#include <sys/stat.h>
#include <fcntl.h>

#include <openssl/md5.h>

#include <scribbu/id3v2-utils.hh>
#include <scribbu/scribbu.hh>

using namespace vt;
using namespace gen;
using table::num;
using table::onto;
using scribbu::encoding;

namespace {

  const char *GENRES[] = {
#   include "genres.inc"
  };
  const std::size_t NGENRES = sizeof GENRES / sizeof GENRES[0];

  // --- what the text ought to be: a sequence of pieces, each of which may have
  // several acceptable forms or consist of parts in no particular order
  struct piece {
    std::vector<std::string> any;
    std::vector<std::vector<piece>> parts;
    std::string between;
  };
  typedef std::vector<piece> want;

  void lit(want &w, const std::string &s) { w.push_back({ { s }, {}, "" }); }
  void alt(want &w, const std::vector<std::string> &v) { w.push_back({ v, {}, "" }); }

  bool match(const std::string &t, std::size_t at, std::deque<piece> w, std::size_t &far)
  {
    while (!w.empty()) {
      piece p = w.front();
      w.pop_front();
      if (!p.parts.empty()) {
        for (std::size_t i = 0; i < p.parts.size(); ++i) {
          std::deque<piece> v = w;
          if (p.parts.size() > 1) {
            piece q = p;
            q.parts.erase(q.parts.begin() + i);
            v.push_front(q);
            v.push_front({ { p.between }, {}, "" });
          }
          v.insert(v.begin(), p.parts[i].begin(), p.parts[i].end());
          if (match(t, at, v, far)) return true;
        }
        return false;
      }
      if (p.any.empty()) continue;
      if (p.any.size() > 1) {
        for (auto &s: p.any) {
          if (t.compare(at, s.size(), s)) continue;
          if (match(t, at + s.size(), w, far)) return true;
        }
        far = std::max(far, at);
        return false;
      }
      if (t.compare(at, p.any[0].size(), p.any[0])) {
        std::size_t i = 0;
        while (i < p.any[0].size() && at + i < t.size() && t[at + i] == p.any[0][i]) ++i;
        far = std::max(far, at + i);
        return false;
      }
      at += p.any[0].size();
    }
    far = std::max(far, at);
    return at == t.size();
  }

  std::string flat(const want &w)
  {
    std::string s;
    for (auto &p: w) {
      if (!p.any.empty()) s += p.any[0];
      for (std::size_t i = 0; i < p.parts.size(); ++i) s += (i ? p.between : "") + flat(p.parts[i]);
    }
    return s;
  }

  void compare(context &ctx, const std::string &out, const want &w)
  {
    std::size_t far = 0;
    bool ok = match(out, 0, std::deque<piece>(w.begin(), w.end()), far);
    ctx.checked(w.size());
    NOTE(ctx, "output: " << vt::show(out));
    std::size_t from = far < 30 ? 0 : far - 30;
    CHECK(ok, "listing", "the listing differs at " << far << ", " << vt::show(out.substr(from, 70)) << "; expected something like "
          << vt::show(flat(w)));
  }

  struct mode {
    std::string in; // indentation
    bool expand = true, l1 = false;
  };

  std::vector<std::string> lang(const std::string &l)
  {
    static const char D[] = "0123456789abcdef";
    std::string h;
    bool letters = true;
    for (unsigned char c: l) {
      h += std::string(h.empty() ? "" : ",") + "0x" + D[c >> 4] + D[c & 15];
      letters &= std::isalpha(c) != 0;
    }
    if (std::find(languages.begin(), languages.end(), l) != languages.end()) return { l };
    if (letters) return { h, l };
    return { h };
  }

  void frame(want &w, int ver, const fdesc &d, const mode &m)
  {
    std::string o(d.owner.begin(), d.owner.end()), head = m.in + d.id;
    auto txt = [&](const ustr &u) { return onto(decoded(u), m.l1); };
    switch (d.k) {
    case kind::text: lit(w, head + ": " + txt(d.text) + "\n"); break;
    case kind::utext: lit(w, head + ": " + txt(d.dsc) + "\n" + m.in + txt(d.text) + "\n"); break;
    case kind::comment: {
      std::string a = txt(d.dsc), b = txt(d.text);
      lit(w, head + " (");
      alt(w, lang(d.lang));
      lit(w, ", " + (a.empty() ? "<no description>" : a) + "):\n" + m.in + (b.empty() ? "<no text>" : b) + "\n");
      break;
    }
    case kind::count: lit(w, head + ": " + num(number(d.data)) + "\n"); break;
    case kind::popm:
      lit(w, head + ": " + o + "\n" + m.in + "rating: " + num(d.num) + "\n" + m.in + "counter: " + table::hexed(d.data) + "\n");
      break;
    case kind::ufid:
      lit(w, head + ": " + o + "\n" + m.in + std::string(d.id.size() + 2, ' ') + table::hexed(d.data) + "\n");
      break;
    case kind::encr:
      lit(w, head + ": " + o + "\n" + m.in + "Method symbol: " + num(d.num) + "\n" + m.in + "Encryption data: " + table::hexed(d.data) + "\n");
      break;
    case kind::priv: {
      std::string h, a;
      for (std::size_t i = 0; i < d.data.size() && i < 16; ++i) {
        unsigned char c = d.data[i];
        h += (i ? " " : "") + table::hexed({ c });
        a += c > 31 && c < 127 ? (char) c : '.';
      }
      lit(w, head + " (" + o + "): " + num(d.data.size()) + " bytes beginning with:\n" + m.in + h + "  >" + a + "<\n");
      break;
    }
    case kind::cloud: {
      lit(w, head + ": " + o + "\n" + m.in + "tags:\n");
      piece all;
      for (auto &kv: d.cloud) {
        want one;
        lit(one, m.in + kv.first + ": ");
        piece vals;
        vals.between = ", ";
        for (auto &x: kv.second) { want v; lit(v, x); vals.parts.push_back(v); }
        one.push_back(vals);
        lit(one, "\n");
        all.parts.push_back(one);
      }
      w.push_back(all);
      break;
    }
    default:
      if (ver == 2) lit(w, head + ": UNKNOWN\n");
      else lit(w, m.in + "frame " + d.id + " (" + num(payload(d).size()) + " bytes)\n");
    }
  }

  void tag(want &w, int ver, const ref::tag &t, const std::vector<fdesc> &fs, const bytes &img, std::size_t size, const mode &m)
  {
    static const char *IDS[2][7] = {
      { "TP1", "TT2", "TAL", "TYE", "TRK", "TCO", "TEN" },
      { "TPE1", "TIT2", "TALB", "TYER", "TRCK", "TCON", "TENC" }
    };
    std::optional<std::string> x[7];
    for (int i = 0; i < 7; ++i) {
      for (auto &d: fs) if (d.id == IDS[ver != 2][i] && !x[i]) x[i] = onto(decoded(d.text), m.l1);
    }
    lit(w, m.in + "ID3v2." + num(ver) + "(.0) Tag:\n" + m.in + num(size) + " bytes, " + (t.unsync ? "unsynchronised" : "synchronised") + "\n");
    lit(w, m.in + "flags: 0x" + table::hexed({ img[5] }) + "\n");
    lit(w, m.in + x[0].value_or("<no artist>") + " - " + x[1].value_or("<no title>") + "\n");
    lit(w, m.in + x[2].value_or("<no album>") + (x[4] ? " (track " + *x[4] + ")" : "") + ", " + x[3].value_or("<no year>") + "\n");
    if (x[5]) lit(w, m.in + "Content-type " + *x[5] + "\n");
    if (x[6]) lit(w, m.in + "Encoded by " + *x[6] + "\n");
    for (auto &d: fs) frame(w, ver, d, m);
    lit(w, m.in + num(t.padding) + " bytes of padding\n");
  }

  void v1(want &w, const ref::v1 &t, const mode &m)
  {
    auto txt = [&](const bytes &b) { return onto(decoded(ref::from_latin1(b)), m.l1); };
    lit(w, m.in + "ID3v1" + (t.v11 ? ".1" : "") + (t.enh ? " (enhanced)" : "") + ": " + txt(t.artist) + " - " + txt(t.title) + "\n");
    lit(w, m.in + txt(t.album) + (t.v11 ? " (track " + num(t.track) + ")" : "") + ", " + txt(t.year) + "\n" + m.in + txt(t.comment) + "\n");
    std::vector<std::string> g;
    if (!m.expand) g = { "genre " + num(t.genre) };
    else if (t.genre < NGENRES) g = { GENRES[t.genre] };
    else g = { "unknown genre " + num(t.genre), "unrecognized genre " + num(t.genre), "unrecognized genre" };
    lit(w, m.in + (t.enh ? txt(t.egenre) + "/" : ""));
    alt(w, g);
    lit(w, "\n");
    if (t.enh) {
      lit(w, m.in + txt(t.start) + "-" + txt(t.end) + ": speed " + num(t.speed) + "\n");
      alt(w, { "", m.in + "\n", "\n" });
    }
  }

  void track(want &w, const bytes &b, const mode &m)
  {
    unsigned char d[16];
    MD5(b.data(), b.size(), d);
    lit(w, m.in + num(b.size()) + " bytes of track data:\n" + m.in + "MD5: " + table::hexed(bytes(d, d + 16)) + "\n");
  }

  // --- generation
  void prepare(source &s, int ver, fdesc &d, bool l1)
  {
    std::string l = d.lang;
    table::printable(s, ver, d, ',', l1);
    if (s.flip()) d.lang = l;
    if (d.k == kind::cloud) {
      for (auto &x: d.owner) if (l1 && x >= 0x80) x = '"';
      if (l1) {
        d.cloud.clear();
        if (s.flip()) d.cloud["a\"b"] = { "c", "d e" };
      }
      while (d.cloud.size() > 4) d.cloud.erase(d.cloud.begin());
      for (auto &kv: d.cloud) while (kv.second.size() > 4) kv.second.erase(kv.second.begin());
    }
  }

  ref::tag make(source &s, int ver, std::vector<fdesc> &fs, bool l1)
  {
    static const std::vector<std::string> HEAD[2] {
      { "TP1", "TT2", "TAL", "TYE", "TRK", "TCO", "TEN" }, { "TPE1", "TIT2", "TALB", "TYER", "TRCK", "TCON", "TENC" } };
    fopts o;
    o.encr = false;
    o.compress = s.chance(1, 8);
    std::vector<fdesc> all;
    ref::tag t = reftag(s, ver, all, 6, o);
    t.frames.clear();
    std::set<std::string> seen;
    for (auto &d: all) {
      if (d.k == kind::text && s.flip()) d.id = s.pick(HEAD[ver != 2]);
      prepare(s, ver, d, l1);
      if (d.k == kind::text && !seen.insert(d.id).second) continue;
      fs.push_back(d);
      t.frames.push_back(to_ref(ver, d));
    }
    return t;
  }

  ref::v1 make1(source &s)
  {
    ref::v1 t = table::v1tag(s, ',');
    if (t.enh) {
      t.egenre = table::v1field(s, 30, s.flip(), '/');
      t.start = table::v1field(s, 6, false, ':');
      t.end = table::v1field(s, 6, false, '-');
    }
    return t;
  }

  template <int V> void print_frame(const fdesc &d, std::ostream &os) { os << *from_bytes<V>(d); }

  void items(source &s, context &ctx)
  {
    mode m;
    m.in = std::string(s.chance(1, 3) ? s.below(9) : 0, ' ');
    m.expand = s.chance(2, 3);
    m.l1 = s.chance(1, 5);
    encoding e = s.flip() ? encoding::ISO_8859_1 : encoding::CP1252;
    std::ostringstream os;
    bool bare = m.in.empty() && m.expand && s.chance(1, 5); // nothing said of the format
    if (!bare) os << scribbu::pretty_print(m.in.size(), m.expand, e);
    if (m.l1) os << scribbu::ienc(encoding::ISO_8859_1, scribbu::on_no_encoding::fail);
    if (s.chance(1, 8)) { os << std::hex << std::setfill('*'); NOTE(ctx, "hex, filled with asterisks"); }
    NOTE(ctx, "indent " << m.in.size() << (m.expand ? "" : ", genres as numbers") << (m.l1 ? ", Latin-1" : "") << (bare ? ", by default" : ""));
    std::size_t n = 1 + s.small(3);
    want w;
    for (std::size_t i = 0; i < n; ++i) {
      int ver = s.range(2, 4);
      switch (s.weighted({ 5, 3, 2, 1 })) {
      case 0: {
        std::vector<fdesc> fs;
        ref::tag t = make(s, ver, fs, m.l1);
        bytes img = ref::encode(t);
        NOTE(ctx, "ID3v2." << ver << " tag" << (t.unsync ? ", unsynchronised" : ""));
        for (auto &d: fs) NOTE(ctx, "  " << show(d));
        std::istringstream is(S(img));
        auto p = scribbu::maybe_read_id3v2(is);
        CHECK(p != nullptr, "read", "a tag isn't read");
        tag(w, ver, t, fs, img, p->size(), m);
        os << *p;
        ctx.label("tag");
        break;
      }
      case 1: {
        fopts o;
        o.compress = false;
        fdesc d = gen::frame(s, ver, o);
        prepare(s, ver, d, m.l1);
        NOTE(ctx, "frame " << show(d));
        frame(w, ver, d, m);
        if (ver == 2) print_frame<2>(d, os); else if (ver == 3) print_frame<3>(d, os); else print_frame<4>(d, os);
        ctx.label("frame");
        break;
      }
      case 2: {
        ref::v1 t = make1(s);
        if (bare) {
          for (auto b: { &t.title, &t.artist, &t.album, &t.year, &t.comment, &t.egenre, &t.start, &t.end }) for (auto &x: *b) if (x >= 0x80) x = 'e';
        }
        NOTE(ctx, "ID3v1 " << ref::show(t));
        std::istringstream is(S(ref::encode(t)));
        auto p = scribbu::process_id3v1(is);
        CHECK(p != nullptr, "v1", "an ID3v1 tag isn't found");
        v1(w, t, m);
        os << *p;
        ctx.label("ID3v1");
        break;
      }
      default: {
        bytes b = s.flip() ? audio(s, 300) : bulk(s, s.below(300));
        std::istringstream is(S(b));
        scribbu::track_data t(is);
        track(w, b, m);
        os << t;
        ctx.label("track");
      }
      }
    }
    compare(ctx, os.str(), w);
    if (os.str().size() > 40) ctx.nontrivial(vt::hash(os.str()));
  }

  void dump(source &s, context &ctx)
  {
    clear_dir(ctx.scratch);
    cli::args a { "dump" };
    mode m;
    if (s.chance(1, 3)) {
      m.in = std::string(s.below(9), ' ');
      std::string n = num(m.in.size());
      switch (s.below(3)) {
      case 0: a.push_back("-i"); a.push_back(n); break;
      case 1: a.push_back("-i" + n); break;
      default: a.push_back("--indent=" + n);
      }
    }
    if (s.chance(1, 3)) { m.expand = false; a.push_back(s.flip() ? "-g" : "--no-expand-genre"); }
    if (s.chance(1, 4)) { a.push_back("-f"); a.push_back(s.pick<std::string>({ "standard", "std", "2" })); }
    // Nothing: everything
    unsigned parts = s.flip() ? 0 : s.below(8);
    if (parts & 1) a.push_back(s.flip() ? "-1" : "--id3v1-tags");
    if (parts & 2) a.push_back(s.flip() ? "-2" : "--id3v2-tags");
    if (parts & 4) a.push_back(s.flip() ? "-D" : "--track-data");
    if (!parts) parts = 7;
    std::vector<std::pair<std::string, std::string>> env { { "TZ", "UTC0" } };
    if (s.chance(1, 8)) env.push_back({ s.pick<std::string>({ "SCRIBBU_", "SCRIBBU_FOO", "SCRIBBU_HOME", "SCRIBBU_CREATE" }), "1" }); // of no concern
    std::string enc = s.pick<std::string>({ "ISO-8859-1", "CP1252" });
    switch (s.below(3)) {
    case 0: a.push_back("-c"); a.push_back(enc); break;
    case 1: env.push_back({ "SCRIBBU_V1_ENCODING", enc }); break;
    default: break;
    }
    want w;
    std::size_t n = 1 + s.small(3);
    std::string dir = ctx.scratch + "/d", only;
    bool whole = s.chance(1, 5); // a directory rather than files
    if (s.chance(1, 5)) { only = ".*[13].mp3"; a.push_back("-e"); a.push_back(only); }
    mkdir(dir.c_str(), 0777);
    piece files;
    std::size_t shown = 0;
    for (std::size_t i = 0; i < n; ++i) {
      std::string f = dir + "/" + num(i) + ".mp3";
      want x;
      bytes all;
      long when = 1000000000 + s.below(700000000);
      time_t tt = when;
      struct tm tm;
      gmtime_r(&tt, &tm);
      char b[64];
      std::strftime(b, sizeof b, "%a, %d %b %y %H:%M:%S ", &tm);
      lit(x, "\"" + f + "\":\nLast Modified: " + b);
      alt(x, { "UTC\n", "GMT\n" });
      std::size_t nt = s.weighted({ 1, 4, 2, 1 });
      for (std::size_t j = 0; j < nt; ++j) {
        int ver = s.range(2, 4);
        std::vector<fdesc> fs;
        ref::tag t = make(s, ver, fs, false);
        bytes img = ref::encode(t);
        NOTE(ctx, "file " << i << ": ID3v2." << ver);
        for (auto &d: fs) NOTE(ctx, "  " << show(d));
        std::istringstream is(S(img));
        auto p = scribbu::maybe_read_id3v2(is);
        CHECK(p != nullptr, "read", "a tag isn't read");
        app(all, img);
        if (parts & 2) tag(x, ver, t, fs, img, p->size(), m);
      }
      bytes d = audio(s, 300);
      if (d.size() < 300) app(d, bulk(s, 300));
      app(all, d);
      if (parts & 4) track(x, d, m);
      if (s.flip()) {
        ref::v1 t = make1(s);
        NOTE(ctx, "file " << i << ": ID3v1 " << ref::show(t));
        app(all, ref::encode(t));
        if (parts & 1) v1(x, t, m);
      }
      lit(x, "\n");
      spew(f, all);
      struct timespec ts[2] = { { when, 500000000 }, { when, 500000000 } };
      utimensat(AT_FDCWD, f.c_str(), ts, 0);
      if (!whole) a.push_back(f);
      if (!only.empty() && i != 1 && i != 3) continue;
      ++shown;
      if (whole) files.parts.push_back(x);
      else w.insert(w.end(), x.begin(), x.end());
    }
    if (whole) { a.push_back(dir); w.push_back(files); }
    NOTE(ctx, cli::show(a));
    auto r = cli::run(ctx, ctx.scratch, a, env);
    NOTE(ctx, "exit status " << r.status << "; " << vt::show(r.err));
    CHECK(cli::orderly(r) && r.status == 0, "failed", "the program failed");
    CHECK_EQ(r.err, std::string(), "complaint", "what's on the standard error");
    compare(ctx, r.out, w);
    ctx.label("dump");
    if (shown) ctx.nontrivial(vt::hash(r.out));
  }
}

int main(int argc, char **argv)
{
  return run(argc, argv, spec {
      "P22", "more than 40 characters were printed, or a file was dumped; distinct by the output",
      200000, 5000000,
      { { "items", 60, items }, { "dump", 3, dump } },
      { "owners in UFID, POPM, PRIV and ENCR frames are ASCII, since their encoding isn't recorded in the tag",
        "no two text frames of a kind in one tag (the standards forbid that)",
        "a language which isn't one of a few well-known ones may be shown by its letters or its bytes" },
    });
}
