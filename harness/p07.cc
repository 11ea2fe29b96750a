/* P07 -- ID3v1 tags are decoded, encoded & replaced exactly. */
#include "trouble.hh"
#include "files.hh"

#include <fstream>

#include <scribbu/id3v1.hh>

using namespace vt;
using namespace gen;
using scribbu::encoding;
using scribbu::id3v1_tag;

namespace {

  /// An object in memory that held something else before, so that members
  /// nobody initialises show
  struct dirty {
    alignas(id3v1_tag) unsigned char mem[sizeof(id3v1_tag)];
    id3v1_tag *p = nullptr;
    template <typename ...A> dirty(unsigned char fill, A&& ...a)
    {
      std::memset(mem, fill, sizeof(mem));
      p = new (mem) id3v1_tag(std::forward<A>(a)...);
    }
    ~dirty() { p->~id3v1_tag(); }
    dirty(const dirty&) = delete;
  };

  ref::v1 look(const id3v1_tag &t)
  {
    ref::v1 v;
    v.enh = t.enhanced();
    v.v11 = t.v1_1();
    t.title(std::back_inserter(v.title));
    t.artist(std::back_inserter(v.artist));
    t.album(std::back_inserter(v.album));
    t.year(std::back_inserter(v.year));
    t.comment(std::back_inserter(v.comment));
    v.genre = t.genre();
    auto n = t.track_number();
    if (n.first) v.track = n.second;
    auto sp = t.speed();
    if (sp.first) v.speed = sp.second;
    if (t.enhanced()) {
      t.enh_genre(std::back_inserter(v.egenre));
      t.start_time(std::back_inserter(v.start));
      t.end_time(std::back_inserter(v.end));
    }
    return v;
  }

  void same(const id3v1_tag &t, const ref::v1 &want, const char *key, const std::string &when)
  {
    ref::v1 got = look(t);
    CHECK(got == want, key, when << ", the tag is\n  " << ref::show(got) << "\n  rather than\n  " << ref::show(want));
    CHECK_EQ(t.enhanced(), t.extended(), key, when << ", enhanced()");
    CHECK_EQ(t.track_number().first, want.v11, key, when << ", whether there's a track number");
    CHECK_EQ(t.speed().first, want.enh, key, when << ", whether there's a speed");
    CHECK_EQ(t.size(), std::size_t(want.enh ? 355 : 128), key, when << ", size()");
  }

  /// What the text accessors are to return, for Latin-1
  std::string latin1(const bytes &b)
  {
    ustr u;
    for (auto c: b) u.push_back(c);
    return decoded(u);
  }

  void texts(const id3v1_tag &t, const ref::v1 &w)
  {
    struct { const char *name; const bytes *b; std::function<std::string (encoding)> get; } F[] = {
      { "title", &w.title, [&](encoding e) { return t.title<std::string>(e); } },
      { "artist", &w.artist, [&](encoding e) { return t.artist<std::string>(e); } },
      { "album", &w.album, [&](encoding e) { return t.album<std::string>(e); } },
      { "year", &w.year, [&](encoding e) { return t.year<std::string>(e); } },
      { "comment", &w.comment, [&](encoding e) { return t.comment<std::string>(e); } },
      { "enh_genre", &w.egenre, [&](encoding e) { return t.enh_genre<std::string>(e); } },
      { "start_time", &w.start, [&](encoding e) { return t.start_time<std::string>(e); } },
      { "end_time", &w.end, [&](encoding e) { return t.end_time<std::string>(e); } },
    };
    for (auto &f: F) {
      if (!w.enh && f.b->empty()) continue;
      std::string got = f.get(encoding::ISO_8859_1);
      CHECK_EQ(got, latin1(*f.b), "text", f.name << " as text");
      bool ascii = true;
      for (auto c: *f.b) if (c > 127) ascii = false;
      bool ok = true;
      try {
        got = f.get(encoding::ASCII);
      } catch (const scribbu::iconv_error &) {
        ok = false;
      }
      CHECK_EQ(ok, ascii, "ascii", f.name << " can be had as ASCII");
      if (ok) CHECK_EQ(got, latin1(*f.b), "ascii", f.name << " as ASCII text");
    }
  }

  const std::ios_base::iostate MASKS[] = {
    std::ios_base::goodbit,
    std::ios_base::badbit,
    std::ios_base::failbit | std::ios_base::badbit,
    std::ios_base::failbit | std::ios_base::badbit | std::ios_base::eofbit,
  };

  void codec(source &s, context &ctx)
  {
    ref::v1 t = v1tag(s);
    bytes img = ref::encode(t);
    bool broken = s.chance(1, 8);
    if (broken) {
      switch (s.below(3)) {
      case 0: img[s.below(t.enh ? 4 : 3)] ^= 1 << s.below(8); break;
      case 1: img.resize(s.below(img.size())); break;
      default: app(img, s.blob(1 + s.below(400)));
      }
    }
    bytes lead = s.flip() ? bytes() : audio(s, 400);
    bytes all = lead;
    app(all, img);
    auto mask = MASKS[s.below(4)];
    int how = s.below(3);
    NOTE(ctx, ref::show(t) << (broken ? ", broken" : "") << " after " << lead.size() << " bytes; exceptions " << mask << "; "
         << (how == 0 ? "by size" : how == 1 ? "as told" : "at the end of the stream"));
    std::istringstream is(S(all));
    is.exceptions(mask);
    unsigned char fill = s.byte();
    if (how == 2) {
      std::size_t from = s.below(all.size() + 1);
      is.seekg(from);
      ref::v1 want;
      std::size_t off;
      bool has = ref::decode_v1(all, want, off);
      auto p = scribbu::process_id3v1(is);
      CHECK_EQ(bool(p), has, "process-found", "a tag was found");
      CHECK(is.good(), "process-stream", "process_id3v1() left the stream in a bad state");
      CHECK_EQ((std::size_t) is.tellg(), from, "process-position", "the stream's position");
      CHECK(is.exceptions() == mask, "process-mask", "process_id3v1() changed the stream's exception mask");
      if (p) {
        same(*p, want, "process", "as read by process_id3v1()");
        if (!broken) CHECK(want == t, "self", "the oracle disagrees with itself");
      }
      ctx.checked(6);
      ctx.label(p ? "processed" : "no-tag");
      if (has) ctx.nontrivial(hash(img, from));
      return;
    }
    is.seekg(lead.size());
    bool good = true;
    if (how == 0) {
      // Judged by the amount of data remaining
      good = (img.size() == 128 && !std::memcmp(img.data(), "TAG", 3)) ||
             (img.size() == 355 && !std::memcmp(img.data(), "TAG+", 4) && !std::memcmp(img.data() + 227, "TAG", 3));
    } else {
      good = t.enh ? img.size() >= 355 && !std::memcmp(img.data(), "TAG+", 4) && !std::memcmp(img.data() + 227, "TAG", 3) :
             img.size() >= 128 && !std::memcmp(img.data(), "TAG", 3);
    }
    try {
      std::unique_ptr<dirty> d(how == 0 ? new dirty(fill, is) : new dirty(fill, is, t.enh));
      CHECK(good, "accepted", "a tag that isn't one was accepted");
      const id3v1_tag &x = *d->p;
      if (!broken || how == 1) {
        // mutations beyond the tag proper don't matter when it's told the kind
        same(x, t, "read", "as read");
        texts(x, t);
        std::ostringstream os;
        x.write(os);
        bytes got = B(os.str()), want = ref::encode(t);
        CHECK_EQ(got, want, "written", "the tag as written");
        id3v1_tag copy(x);
        same(copy, t, "copy", "as copied");
      }
      ctx.nontrivial(hash(img, how));
      ctx.label(t.enh ? "enhanced" : t.v11 ? "1.1" : "1.0");
    } catch (const id3v1_tag::invalid_tag &) {
      CHECK(!good, "refused", "a good tag was refused");
      ctx.label("refused");
    }
    CHECK(is.exceptions() == mask, "mask", "reading a tag changed the stream's exception mask");
    ctx.checked(12);
  }

  void edits(source &s, context &ctx)
  {
    unsigned char fill = s.byte();
    ref::v1 m;
    std::unique_ptr<dirty> d;
    if (s.flip()) {
      m = v1tag(s);
      std::istringstream is(S(ref::encode(m)));
      d.reset(new dirty(fill, is));
      NOTE(ctx, "read " << ref::show(m));
    } else {
      m.v11 = s.flip();
      m.enh = s.flip();
      m.title.resize(m.enh ? 90 : 30);
      m.artist.resize(m.enh ? 90 : 30);
      m.album.resize(m.enh ? 90 : 30);
      m.year.resize(4);
      m.comment.resize(m.v11 ? 28 : 30);
      m.genre = 0;
      if (m.enh) { m.egenre.resize(30); m.start.resize(6); m.end.resize(6); }
      d.reset(new dirty(fill, m.v11, m.enh));
      NOTE(ctx, "new " << ref::show(m));
    }
    id3v1_tag &t = *d->p;
    same(t, m, "start", "to begin with");
    auto enhance = [&]() {
      if (m.enh) return;
      m.enh = true;
      m.title.resize(90);
      m.artist.resize(90);
      m.album.resize(90);
      m.egenre.resize(30);
      m.start.resize(6);
      m.end.resize(6);
      // "no speed"
      m.speed = 0;
    };
    std::size_t n = 1 + s.below(6);
    std::uint64_t h = hash(ref::encode(m));
    for (std::size_t i = 0; i < n; ++i) {
      int op = s.weighted({ 3, 3, 3, 3, 2, 2, 2, 2, 1, 1, 1 });
      std::ostringstream what;
      if (op < 4 || op == 7) {
        // text, converted
        static const char *NAMES[] = { "title", "artist", "album", "comment", "", "", "", "enh_genre" };
        encoding to = s.pick({ encoding::ASCII, encoding::ISO_8859_1, encoding::UTF_8 });
        std::size_t max = s.pick({ 10, 28, 29, 30, 31, 60, 90, 91, 120 });
        ustr u = text(s, s.pick({ ASCII, LATIN1, FULL }), max);
        if (s.chance(1, 4)) while (u.size() < max) u.push_back(U'x');
        std::string in = ref::utf8(u);
        bool ok = to == encoding::UTF_8 || fits(u, to == encoding::ASCII ? ASCII : LATIN1);
        what << "set " << NAMES[op] << " to " << show(in) << " as " << (to == encoding::ASCII ? "ASCII" : to == encoding::UTF_8 ? "UTF-8" : "Latin-1");
        NOTE(ctx, what.str());
        bool did = true;
        bool cstr = s.flip();
        try {
          const char *p = in.c_str();
          switch (op) {
          case 0: if (cstr) t.set_title(p, encoding::UTF_8, to); else t.set_title(in, encoding::UTF_8, to); break;
          case 1: if (cstr) t.set_artist(p, encoding::UTF_8, to); else t.set_artist(in, encoding::UTF_8, to); break;
          case 2: if (cstr) t.set_album(p, encoding::UTF_8, to); else t.set_album(in, encoding::UTF_8, to); break;
          case 3: if (cstr) t.set_comment(p, encoding::UTF_8, to); else t.set_comment(in, encoding::UTF_8, to); break;
          default: if (cstr) t.set_enh_genre(p, encoding::UTF_8, to); else t.set_enh_genre(in, encoding::UTF_8, to);
          }
        } catch (const scribbu::iconv_error &) {
          did = false;
        }
        CHECK_EQ(did, ok, "set-refused", what.str() << " succeeded");
        if (did) {
          bytes b;
          if (to == encoding::UTF_8) b = B(in); else for (auto c: u) b.push_back(c);
          if (op == 7) enhance();
          bytes &f = op == 0 ? m.title : op == 1 ? m.artist : op == 2 ? m.album : op == 3 ? m.comment : m.egenre;
          std::size_t width = f.size();
          f = b;
          f.resize(width);
          if (b.size() > width) ctx.label("truncated");
        } else {
          ctx.label("unrepresentable");
        }
      } else {
        std::string a;
        std::size_t k = s.below(10);
        for (std::size_t j = 0; j < k; ++j) a += s.chance(1, 8) ? ':' : char('0' + s.below(10));
        auto fill = [&](bytes &f) { std::size_t w = f.size(); f = B(a); f.resize(w); };
        switch (op) {
        case 4: what << "set year " << a; t.set_year(a.c_str()); fill(m.year); break;
        case 5: m.genre = s.byte(); what << "set genre " << (unsigned) m.genre; t.set_genre(m.genre); break;
        case 6:
          m.track = s.byte();
          what << "set track " << (unsigned) m.track;
          t.set_track_number(m.track);
          m.v11 = true;
          m.comment.resize(28);
          break;
        case 8: what << "set start " << a; t.set_start_time(a.c_str()); enhance(); fill(m.start); break;
        case 9: what << "set end " << a; t.set_end_time(a.c_str()); enhance(); fill(m.end); break;
        default: enhance(); m.speed = s.byte(); what << "set speed " << (unsigned) m.speed; t.set_speed(m.speed); break;
        }
        NOTE(ctx, what.str());
      }
      same(t, m, "set", "after " + what.str());
      h = mix(h ^ hash(what.str()));
    }
    std::ostringstream os;
    t.write(os);
    bytes got = B(os.str()), want = ref::encode(m);
    CHECK_EQ(got, want, "set-written", "the tag as written");
    std::istringstream is(os.str());
    id3v1_tag u(is);
    ref::v1 again;
    std::size_t off;
    CHECK(ref::decode_v1(want, again, off), "self", "the oracle disagrees with itself");
    same(u, again, "set-reread", "written & read again");
    ctx.nontrivial(h);
    ctx.checked(5 * n + 4);
    ctx.label("edited");
  }

  void files(source &s, context &ctx)
  {
    clear_dir(ctx.scratch);
    std::string path = ctx.scratch + "/t.mp3";
    bytes body;
    switch (s.weighted({ 3, 2, 2, 1 })) {
    case 0: body = s.blob_upto(600); break;
    case 1: body = bulk(s, s.below(600)); break;
    case 2: body = bulk(s, 100 + s.below(60)); break;
    default: body = bulk(s, s.below(9000));
    }
    // Sprinkle things that look like tags
    std::size_t n = s.weighted({ 3, 2, 2, 1 });
    for (std::size_t i = 0; i < n; ++i) {
      bytes m = B(s.pick<const char*>({ "TAG", "TAG+", "ID3", "TAGTAG", "TAG+TAG+" }));
      std::size_t end = s.weighted({ 1, 1, 1, 1, 1, 3 }), back;
      static const std::size_t OFF[] = { 128, 355, 227, 256, 483 };
      back = end < 5 ? OFF[end] : s.below(body.size() + 1);
      if (back > body.size() || back < m.size()) continue;
      std::copy(m.begin(), m.end(), body.end() - back);
    }
    bytes all = body;
    if (s.flip()) {
      bytes t = ref::encode(v1tag(s));
      if (s.chance(1, 12)) t.erase(t.begin(), t.begin() + s.below(5)); // nearly one
      app(all, t);
    }
    spew(path, all);
    spew(ctx.scratch + "/other", all);
    NOTE(ctx, "file: " << all.size() << " bytes, ending " << show(bytes(all.end() - std::min<std::size_t>(all.size(), 360), all.end())));
    std::size_t ops = 1 + s.below(3);
    bool had = false, any = false;
    for (std::size_t i = 0; i < ops; ++i) {
      ref::v1 was;
      std::size_t off = all.size();
      bool has = ref::decode_v1(all, was, off);
      had |= has;
      switch (s.below(4)) {
      case 0: {
        NOTE(ctx, "look");
        std::ifstream is(path, std::ios::binary);
        std::size_t from = s.below(all.size() + 1);
        is.seekg(from);
        auto mask = MASKS[s.below(4)];
        is.exceptions(mask);
        auto I = scribbu::ends_in_id3v1(is);
        auto type = !has ? scribbu::id3_v1_tag_type::none : was.enh ? scribbu::id3_v1_tag_type::v_1_extended : scribbu::id3_v1_tag_type::v_1;
        CHECK_EQ((int) I.type_, (int) type, "ends-type", "the type of the tag");
        if (has) {
          CHECK_EQ((std::size_t) I.start_, off, "ends-start", "the start of the tag");
          CHECK_EQ((std::size_t) I.end_, all.size(), "ends-end", "the end of the tag");
        }
        CHECK(is.good() && (std::size_t) is.tellg() == from, "ends-stream", "ends_in_id3v1() didn't leave the stream as it was");
        CHECK(is.exceptions() == mask, "ends-mask", "ends_in_id3v1() changed the stream's exception mask");
        // Track data which starts inside the tag has no end to speak of.
        if (!has || from <= off) {
          std::streampos here, there;
          std::tie(here, there) = scribbu::find_id3v1_tag(is);
          CHECK_EQ((std::size_t) here, from, "find-here", "where the track data starts");
          CHECK_EQ((std::size_t) there, has ? off : all.size(), "find-there", "where the track data ends");
        }
        CHECK(is.exceptions() == mask, "find-mask", "find_id3v1_tag() changed the stream's exception mask");
        is.seekg(from);
        auto p = scribbu::process_id3v1(is);
        CHECK_EQ(bool(p), has, "file-found", "a tag was found");
        if (p) same(*p, was, "file-read", "as read from the file");
        ctx.label("look");
        break;
      }
      case 1: {
        NOTE(ctx, "remove");
        scribbu::maybe_remove_id3v1(path);
        all.resize(off);
        CHECK(slurp(path) == all, "remove", "after removing, the file has " << slurp(path).size() << " bytes, rather than the first " << off << " as they were");
        ctx.label(has ? "removed" : "nothing-to-remove");
        any = true;
        break;
      }
      default: {
        ref::v1 t = v1tag(s);
        NOTE(ctx, "replace by " << ref::show(t));
        std::istringstream is(S(ref::encode(t)));
        id3v1_tag x(is);
        bytes was = all;
        all.resize(off);
        app(all, ref::encode(t));
        if (s.chance(1, 8)) {
          // Something fails; then we're told & the track is as it was
          trouble::plan p = trouble::draw(s);
          p.at %= 4;
          NOTE(ctx, "call " << p.at << " fails" << (p.partial ? " halfway" : ""));
          bool told = false;
          trouble::arm(p);
          try {
            scribbu::replace_id3v1(path, x);
          } catch (const std::exception &) {
            told = true;
          }
          trouble::disarm();
          bytes now = slurp(path);
          CHECK(now.size() >= off && std::equal(now.begin(), now.begin() + off, was.begin()), "failure-track", "after a failure, the file has "
                << now.size() << " bytes, not beginning with its first " << off);
          CHECK(told || now == all, "failure-silent", "after a failure nobody has been told of, the file has " << now.size() << " bytes " << show(now)
                << "\n  rather than " << all.size() << " bytes " << show(all));
          CHECK(!told || trouble::current().struck, "failure-spurious", "a failure without reason");
          ctx.label(told ? "failed" : "failure-survived");
          if (told) {
            ctx.checked(3);
            if (off) ctx.nontrivial(hash(all, ops + 64));
            return;
          }
        } else
          scribbu::replace_id3v1(path, x);
        bytes now = slurp(path);
        CHECK(now == all, "replace", "after replacing, the file has " << now.size() << " bytes " << show(now) << "\n  rather than " << all.size() << " bytes " << show(all));
        ctx.label(has ? "replaced" : "added");
        any = true;
      }
      }
    }
    auto snap = snapshot(ctx.scratch);
    CHECK_EQ(snap.size(), std::size_t(2), "files", "number of files");
    if (any && all.size()) ctx.nontrivial(hash(all, ops));
    ctx.checked(4 * ops);
  }
}

int main(int argc, char **argv)
{
  return run(argc, argv, spec {
      "P07", "a tag was read, edited or written (codec, edits), or a file with contents changed (files); distinct by bytes & operations",
      400000, 8000000,
      { { "codec", 3, codec }, { "edits", 4, edits }, { "files", 2, files } },
      { "of several ID3v1 tags at the end of a file, the last is the one meant",
        "text is set from UTF-8; P11 settles conversions as such" },
    });
}
