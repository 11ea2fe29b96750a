/* P13 -- comma-separated & tab-delimited records are well-formed & faithful. */
#include "table.hh"
#include "cli.hh"

#include <fstream>

#include <openssl/md5.h>

#include <scribbu/csv-pprinter.hh>
#include <scribbu/tdf-pprinter.hh>
#include <scribbu/id3v2-utils.hh>
#include <scribbu/scribbu.hh>

using namespace vt;
using namespace gen;
using table::row;
using table::num;
using scribbu::encoding;

namespace {

  /// A tag whose columns are worth looking at
  ref::tag interesting(source &s, int ver, std::vector<fdesc> &fs, char sep, bool l1, std::size_t ncomm)
  {
    fopts o;
    o.encr = false;
    o.compress = s.chance(1, 8);
    ref::tag t = reftag(s, ver, fs, 2, o);
    static const std::vector<std::string> IDS[2] = {
      { "TP1", "TT2", "TAL", "TCO", "TEN", "TYE", "TLA" },
      { "TPE1", "TIT2", "TALB", "TCON", "TENC", "TYER", "TLAN" }
    };
    auto add = [&](fdesc d) {
      if (ver == 4) d.unsync = t.unsync;
      fs.insert(fs.begin() + s.below(fs.size() + 1), d);
    };
    for (auto &id: IDS[ver != 2]) if (s.chance(1, 3)) {
      fdesc d = frame(s, ver, kind::text, o);
      d.id = id;
      add(d);
    }
    for (std::size_t n = s.weighted({ 3, 3, 1, 1 }); n; --n) add(frame(s, ver, kind::count, o));
    for (std::size_t n = s.flip() ? s.below(ncomm + 3) : 0; n; --n) add(frame(s, ver, kind::comment, o));
    t.frames.clear();
    for (auto &d: fs) {
      table::printable(s, ver, d, sep, l1);
      t.frames.push_back(to_ref(ver, d));
    }
    return t;
  }

  std::string md5(const bytes &b)
  {
    unsigned char d[16];
    MD5(b.data(), b.size(), d);
    return table::hexed(bytes(d, d + 16));
  }

  template <int V> row tag_row(const std::vector<fdesc> &fs, const bytes &img, std::size_t ncomm, bool l1, std::ostream &os)
  {
    std::istringstream is(S(img));
    typename lib<V>::tag t(is);
    os << t << "\n";
    return table::of(V, fs, img[5], t.size(), ncomm, l1);
  }

  template <int V> row frame_row(const fdesc &d, bool l1, std::ostream &os)
  {
    auto p = from_bytes<V>(d);
    os << *p << "\n";
    return table::of(V, d, l1);
  }

  /// Print several items, each on a line of its own
  void items(source &s, context &ctx, bool quoting)
  {
    char sep;
    std::ostringstream os;
    std::size_t ncomm = s.below(7);
    bool l1 = s.chance(1, 4), defv1 = s.chance(1, 5);
    encoding v1 = s.flip() ? encoding::ISO_8859_1 : encoding::CP1252;
    if (quoting) {
      static const std::string SEPS = "\t!#$%&'()*+,-./:;<=>?@[\\]^_`{|}~";
      sep = s.chance(1, 3) ? ',' : SEPS[s.below(SEPS.size())];
      os << scribbu::print_as_csv(ncomm, v1, boost::none, sep);
    } else {
      sep = s.flip() ? '\t' : 0x1f;
      os << scribbu::print_as_tdf(ncomm, v1, boost::none, sep == 0x1f);
    }
    if (l1) os << scribbu::ienc(encoding::ISO_8859_1, scribbu::on_no_encoding::fail);
    NOTE(ctx, "separator " << vt::show(std::string(1, sep)) << ", " << ncomm << " comments" << (l1 ? ", in ISO-8859-1" : ""));
    std::size_t n = 1 + s.small(4);
    std::vector<row> want;
    std::vector<std::string> what;
    bool special = false;
    for (std::size_t i = 0; i < n; ++i) {
      int ver = s.range(2, 4);
      switch (s.weighted({ 4, 4, 2, 1 })) {
      case 0: {
        std::vector<fdesc> fs;
        ref::tag t = interesting(s, ver, fs, sep, l1, ncomm);
        bytes b = ref::encode(t);
        what.push_back("tag");
        NOTE(ctx, "ID3v2." << ver << " tag" << (t.unsync ? ", unsynchronised" : ""));
        for (auto &d: fs) NOTE(ctx, "  " << show(d));
        want.push_back(ver == 2 ? tag_row<2>(fs, b, ncomm, l1, os) : ver == 3 ? tag_row<3>(fs, b, ncomm, l1, os) : tag_row<4>(fs, b, ncomm, l1, os));
        ctx.label("tag");
        break;
      }
      case 1: {
        fopts o;
        o.compress = false;
        fdesc d = frame(s, ver, o);
        table::printable(s, ver, d, sep, l1);
        what.push_back("frame " + d.id);
        NOTE(ctx, "frame " << show(d));
        want.push_back(ver == 2 ? frame_row<2>(d, l1, os) : ver == 3 ? frame_row<3>(d, l1, os) : frame_row<4>(d, l1, os));
        ctx.label("frame " + d.id.substr(0, d.k == kind::text ? 1 : d.k == kind::opaque ? 0 : 4));
        break;
      }
      case 2: {
        ref::v1 t = table::v1tag(s, sep);
        NOTE(ctx, "ID3v1 " << ref::show(t));
        std::istringstream is(S(ref::encode(t)));
        auto p = scribbu::process_id3v1(is);
        CHECK(p != nullptr, "v1", "an ID3v1 tag isn't found");
        os << *p << "\n";
        what.push_back("ID3v1 tag");
        want.push_back(table::of(t, l1));
        ctx.label("ID3v1");
        break;
      }
      default: {
        bytes b = s.flip() ? audio(s, 300) : bulk(s, s.below(300));
        NOTE(ctx, "track of " << b.size() << " bytes");
        std::istringstream is(S(b));
        scribbu::track_data t(is);
        os << t << "\n";
        what.push_back("track");
        want.push_back({ num(b.size()), md5(b) });
        ctx.label("track");
      }
      }
      for (auto &c: want.back()) for (auto &v: c.any)
        if (v.find_first_of(std::string("\"\n\r") + sep) != std::string::npos) special = true;
    }
    (void) defv1;
    NOTE(ctx, "output: " << vt::show(os.str()));
    auto p = quoting ? table::csv(os.str(), sep) : table::tdf(os.str(), sep);
    CHECK(p.err.empty(), "malformed", "the output is malformed: " << p.err);
    CHECK_EQ(p.rows.size(), want.size(), "records", "number of records");
    std::string known;
    for (std::size_t i = 0; i < want.size(); ++i) table::compare(ctx, what[i], p.rows[i], want[i], sep, quoting, known);
    if (special) ctx.nontrivial(vt::hash(os.str()));
    if (!known.empty()) FAILK(known, "the year of an ID3v2.2 tag is missing");
  }

  void csv(source &s, context &ctx) { items(s, ctx, true); }
  void tdf(source &s, context &ctx) { items(s, ctx, false); }

  /// escape() makes one field of any text
  void escape(source &s, context &ctx)
  {
    static const std::string SEPS = "\t!#$%&'()*+,-./:;<=>?@[\\]^_`{|}~";
    char sep = SEPS[s.below(SEPS.size())];
    std::string t = ref::utf8(table::spiced(s, gen::text(s, FULL, 12), sep));
    // A field with quotes, but neither separators nor line breaks, is left as
    // it is, going by the documentation
    if (t.find_first_of(std::string("\n") + sep) == std::string::npos) {
      t.erase(std::remove(t.begin(), t.end(), '"'), t.end());
    }
    std::string e = scribbu::csv_pprinter::escape(t, sep);
    NOTE(ctx, vt::show(t) << " -> " << vt::show(e));
    auto p = table::csv(e + sep + "x\n", sep);
    CHECK(p.err.empty(), "escape", p.err);
    CHECK_EQ(p.rows.size(), std::size_t(1), "escape/records", "records");
    CHECK_EQ(p.rows[0].size(), std::size_t(2), "escape/fields", "fields");
    CHECK_EQ(p.rows[0][0], t, "escape", "the field");
    if (e != t) ctx.nontrivial(vt::hash(e));
    // Which separators there may be
    unsigned char c = s.byte();
    bool ok = c == 9 || (c > 0x20 && c < 0x7f && !std::isalnum(c)), did = true;
    try {
      scribbu::csv_pprinter pp(1, boost::none, boost::none, (char) c);
    } catch (const scribbu::csv_pprinter::bad_separator &) {
      did = false;
    }
    if (c != '"') CHECK(ok == did, "separator", "separator " << (int) c << (did ? " is accepted" : " is refused"));
  }

  struct file {
    std::string dir, name;
    bytes all;
    bool bad = false;
    row want; // the columns after the file's name
    bool several = false; // the tag is followed by others
  };

  std::string filename(source &s, char sep)
  {
    ustr u = table::spiced(s, gen::text(s, BMP, 10), sep);
    std::string n;
    for (char c: ref::utf8(u)) if (c && c != '/') n += c;
    return n;
  }

  /// In a delimited report, names are in quotes
  std::string unquoted(const std::string &s)
  {
    if (s.size() < 2 || s[0] != '"' || s.back() != '"') return s;
    std::string r;
    for (std::size_t i = 1; i + 1 < s.size(); ++i) {
      if (s[i] == '\\' && i + 2 < s.size()) ++i;
      r += s[i];
    }
    return r;
  }

  void report(source &s, context &ctx)
  {
    bool tsv = s.chance(2, 5), asc = tsv && s.flip(), nodir = s.chance(1, 3);
    char sep = asc ? 0x1f : tsv ? '\t' : ',';
    std::size_t ncomm = 6;
    std::string base = ctx.scratch + "/d", out = ctx.scratch + "/out";
    clear_dir(ctx.scratch);
    fs::create_directories(base);
    cli::args a { "report", "-o", out };
    if (tsv) a.push_back("-t");
    if (asc) a.push_back("-a");
    if (nodir) a.push_back("-d");
    if (s.chance(2, 3)) { ncomm = s.below(8); a.push_back("-c"); a.push_back(num(ncomm)); }
    if (s.flip()) { a.push_back("-1"); a.push_back(s.pick<std::string>({ "ISO-8859-1", "CP1252" })); }
    if (s.flip()) a.push_back("-S");

    std::vector<std::string> dirs { base };
    for (std::size_t n = s.small(3); n; --n) {
      std::string d = filename(s, sep);
      if (d.empty() || d == "." || d == ".." || d.size() > 60) continue;
      d = s.pick(dirs) + "/" + d;
      if (fs::create_directory(d)) dirs.push_back(d);
    }
    std::vector<file> fls;
    bool whole = s.flip(), anybad = false, hasmp3 = false;
    for (std::size_t n = 1 + s.small(4); n; --n) {
      file f;
      f.dir = s.pick(dirs);
      f.name = filename(s, sep);
      if (f.name.size() > 60 || f.name == "." || f.name == "..") f.name = "x";
      if (tsv || nodir) f.name += num(n); // be able to tell which record is whose
      bool mp3 = s.chance(4, 5);
      if (mp3) f.name += ".mp3";
      if (f.name.empty() || fs::exists(f.dir + "/" + f.name)) continue;
      bytes lead, tail;
      row v2(15 + ncomm, table::cell(""));
      std::size_t nt = s.weighted({ 1, 6, 1 });
      for (std::size_t i = 0; i < nt; ++i) {
        int ver = s.range(2, 4);
        std::vector<fdesc> fs;
        ref::tag t = interesting(s, ver, fs, sep, false, ncomm);
        bool spoil = i == 0 && s.chance(1, 8);
        if (spoil) {
          // Text that can't be decoded, in a column: a lone surrogate
          fdesc d;
          d.k = kind::text; d.id = ver == 2 ? "TT2" : "TIT2"; d.enc = 1;
          ref::frame r = to_ref(ver, d);
          r.payload = { 1, 0xff, 0xfe, 'a', 0, 0, 0xdc };
          t.frames.clear();
          t.frames.push_back(r);
          if (ver == 4) t.frames.back().unsync = t.unsync;
          f.bad = true;
        }
        bytes b = ref::encode(t);
        NOTE(ctx, vt::show(f.name) << ": ID3v2." << ver << (spoil ? ", malformed text" : ""));
        if (!spoil) for (auto &d: fs) NOTE(ctx, "  " << show(d));
        if (i == 0 && !spoil) {
          std::istringstream is(S(b));
          auto p = scribbu::maybe_read_id3v2(is);
          CHECK(p != nullptr, "read", "a tag isn't read");
          v2 = table::of(ver, fs, b[5], p->size(), ncomm, false);
        }
        app(lead, b);
      }
      f.several = nt > 1;
      bytes au = s.flip() ? audio(s, 300) : bulk(s, s.below(3000));
      row v1(8, table::cell(""));
      if (s.flip()) {
        ref::v1 t = table::v1tag(s, sep);
        tail = ref::encode(t);
        v1 = table::of(t, false);
        NOTE(ctx, vt::show(f.name) << ": ID3v1 " << ref::show(t));
      }
      // The last 128 bytes must not happen to start in an XTAG frame, at "TAG"
      if (au.size() < 300 && tail.empty() && lead.size()) app(au, bulk(s, 300));
      f.all = lead;
      app(f.all, au);
      app(f.all, tail);
      char mb[40];
      std::snprintf(mb, sizeof mb, "%.3f", f.all.size() / 1048576.0);
      f.want = { mb };
      f.want.insert(f.want.end(), v2.begin(), v2.end());
      f.want.push_back(num(au.size()));
      f.want.push_back(md5(au));
      f.want.insert(f.want.end(), v1.begin(), v1.end());
      spew(f.dir + "/" + f.name, f.all);
      if (!whole || mp3) {
        anybad |= f.bad;
        fls.push_back(f);
      }
      hasmp3 |= mp3;
    }
    if (whole) a.push_back(base);
    else {
      if (fls.empty()) return;
      for (auto &f: fls) a.push_back(f.dir + "/" + f.name);
    }
    NOTE(ctx, cli::show(a));
    std::size_t room = cli::ROOM;
    if (s.chance(1, 10)) {
      room = s.chance(1, 4) ? 0 : s.below(1500);
      if (s.flip()) room = cli::some_trouble(s);
      NOTE(ctx, cli::show_room(room));
      ctx.label(room & cli::TROUBLE ? "report:failing-call" : "report:full-disk");
    }
    if (s.chance(1, 25)) {
      // nowhere to write to
      auto b = a;
      for (auto &x: b) if (x == out) x = ctx.scratch + "/none/out";
      if (b != a) {
        auto r = cli::run(ctx, ctx.scratch, b);
        CHECK(cli::orderly(r), "crash", "the program crashed");
        CHECK(r.status != 0, "unopened", "writing the report to a directory which doesn't exist is said to have succeeded");
        ctx.checked();
        return;
      }
    }
    auto r = cli::run(ctx, ctx.scratch, a, {}, room);
    NOTE(ctx, "exit status " << r.status << "; " << vt::show(r.out) << "; " << vt::show(r.err));
    CHECK(cli::orderly(r), "crash", "the program crashed");
    if (room != cli::ROOM && r.status) return;
    CHECK((r.status == 0) == !anybad, "status", "exit status " << r.status << (anybad ? " in spite of" : " without") << " malformed files");
    std::string got = S(slurp(out));
    NOTE(ctx, "output: " << vt::show(got));
    auto p = tsv ? table::tdf(got, sep) : table::csv(got, sep);
    CHECK(p.err.empty(), "malformed", "the report is malformed: " << p.err);
    CHECK(p.rows.size() > 0, "heading", "no heading");
    std::size_t cols = (nodir ? 0 : 1) + 1 + 1 + 15 + ncomm + 2 + 8;
    for (std::size_t i = 0; i < p.rows.size(); ++i) {
      CHECK(p.rows[i].size() == cols, "columns", (i ? "record " + num(i) : std::string("the heading")) << " has " << p.rows[i].size() << " columns, not " << cols);
    }
    std::string known;
    std::vector<bool> used(p.rows.size());
    std::size_t skip = nodir ? 1 : 2, complete = 0;
    for (auto &f: fls) {
      if (f.bad) continue;
      bool found = false;
      for (std::size_t i = 1; i < p.rows.size() && !found; ++i) {
        if (used[i]) continue;
        std::string nm = p.rows[i][skip - 1], dr = nodir ? "" : p.rows[i][0];
        if (tsv) { nm = unquoted(nm); dr = unquoted(dr); }
        if (!table::alike(nm, f.name, sep, !tsv)) continue;
        if (!nodir && !table::alike(dr, f.dir, sep, !tsv)) continue;
        std::vector<std::string> rest(p.rows[i].begin() + skip, p.rows[i].end());
        row w = f.want;
        if (f.several) for (std::size_t j = 16 + ncomm; j < 18 + ncomm; ++j) w[j] = rest[j];
        table::compare(ctx, "the record of " + vt::show(f.name), rest, w, sep, !tsv, known);
        used[i] = found = true;
      }
      CHECK(found, "missing", "there's no record of " << vt::show(f.dir + "/" + f.name));
      ++complete;
    }
    CHECK(p.rows.size() - 1 <= fls.size(), "extra", p.rows.size() - 1 << " records for " << fls.size() << " files");
    ctx.label(whole ? "report on a directory" : "report on files");
    if (complete) ctx.nontrivial(vt::hash(got));
    if (!known.empty()) FAILK(known, "the year of an ID3v2.2 tag is missing");
  }
}

int main(int argc, char **argv)
{
  return run(argc, argv, spec {
      "P13", "some value holds separators, quotes or line breaks, or a report lists at least one file; distinct by the output",
      350000, 9000000,
      { { "csv", 40, csv }, { "tdf", 20, tdf }, { "escape", 4, escape }, { "report", 3, report } },
      { "owners in UFID, POPM, PRIV and ENCR frames are ASCII, since their encoding isn't recorded in the tag",
        "in delimited records, which can't hold separators or line breaks, any other character may stand for each of those",
        "of several frames with one identifier, any may be the one in the column",
        "the size and checksum columns aren't compared for files with several leading tags" },
    });
}
