/* P15 -- commands which edit tags change only what was asked for. */
#include "files.hh"
#include "clouds.hh"
#include "cli.hh"

#include <scribbu/id3v1.hh>
#include <scribbu/winamp-genres.hh>

using namespace vt;
using namespace gen;
using cli::args;

namespace {

  typedef unsigned __int128 big;
  typedef std::map<std::string, bytes> disk;

  std::string num(std::size_t n) { return std::to_string(n); }

  /// The files in `dir' (not the directories)
  disk files(const std::string &dir)
  {
    disk r;
    for (auto &kv: snapshot(dir)) if (kv.first.back() != '/') r.insert(kv);
    return r;
  }

  // --- what's in a file

  struct content {
    std::vector<ref::tag> tags;
    bytes audio;
    std::optional<ref::v1> v1;
  };

  content parse(const bytes &b)
  {
    content c;
    std::string err;
    std::size_t off = ref::split_file(b, c.tags, err), end = b.size();
    ref::v1 t;
    std::size_t voff;
    if (ref::decode_v1(b, t, voff) && voff >= off) { c.v1 = t; end = voff; }
    c.audio.assign(b.begin() + off, b.begin() + end);
    return c;
  }

  bool same(ref::frame a, ref::frame b)
  {
    a.unsync = b.unsync = false;
    return a == b;
  }

  ustr trimmed(ustr u)
  {
    while (!u.empty() && (u.back() == ' ' || u.back() == 0)) u.pop_back();
    return u;
  }
  /// The text of a field, whose end may be marked by a NUL
  ustr field_text(const bytes &b)
  { return trimmed(ref::from_latin1(bytes(b.begin(), std::find(b.begin(), b.end(), 0)))); }
  /// Does anything follow the NUL?
  bool murky(const bytes &b)
  {
    auto p = std::find(b.begin(), b.end(), 0);
    return std::any_of(p, b.end(), [](unsigned char c) { return c; });
  }

  bool text_of(const ref::frame &f, ustr &u)
  {
    if (f.payload.empty()) return false;
    if (!ref::dec_text(bytes(f.payload.begin() + 1, f.payload.end()), f.payload[0], u)) return false;
    u = trimmed(u);
    return true;
  }

  // --- what's expected of it

  /// A frame which is to be there
  struct want {
    std::string what;
    std::function<bool (const ref::frame &f)> ok;
    bool optional = false;
  };

  want exactly(const ref::frame &f) { return { "as it was", [f](const ref::frame &g) { return same(f, g); } }; }
  want text_is(const ustr &u, bool prefix = false)
  {
    ustr t = trimmed(u);
    return { "text " + vt::show(ref::utf8(t)) + (prefix ? "..." : ""), [t, prefix](const ref::frame &g) {
      ustr x;
      return text_of(g, x) && (prefix ? x.substr(0, t.size()) == t : x == t);
    } };
  }

  struct wants {
    int ver;
    const ref::tag *was = nullptr; // absent for a new one
    std::vector<ref::frame> others;
    std::map<std::string, std::vector<want>> targets; // by id, in order

    wants(int v): ver(v) { }
    wants(const ref::tag &t, const std::set<std::string> &ids): ver(t.ver), was(&t)
    {
      for (auto &f: t.frames) if (!ids.count(f.id)) others.push_back(f);
      for (auto &id: ids) targets[id];
    }
  };

  void tag_is(context &ctx, const ref::tag &t, const wants &w, const std::string &what)
  {
    CHECK_EQ(t.ver, w.ver, "version", what << ": its version");
    if (w.was) {
      CHECK_EQ(t.experimental, w.was->experimental, "flags", what << ": experimental");
      CHECK_EQ(t.ext, w.was->ext, "flags", what << ": has an extended header");
      CHECK_EQ(t.update, w.was->update, "flags", what << ": update");
      CHECK_EQ(t.footer, w.was->footer, "flags", what << ": has a footer");
      CHECK(t.restrictions == w.was->restrictions, "flags", what << ": its restrictions have changed");
    }
    std::vector<ref::frame> others;
    std::map<std::string, std::vector<ref::frame>> got;
    for (auto &f: t.frames) if (w.targets.count(f.id)) got[f.id].push_back(f); else others.push_back(f);
    CHECK_EQ(others.size(), w.others.size(), "others", what << ": number of frames not to be touched");
    for (std::size_t i = 0; i < others.size(); ++i) {
      CHECK(same(others[i], w.others[i]), "others", what << ": a frame not to be touched is now " << ref::show(others[i]) << ", was " << ref::show(w.others[i]));
    }
    for (auto &kv: w.targets) {
      auto &g = got[kv.first];
      if (g.empty() && kv.second.size() == 1 && kv.second[0].optional) continue;
      CHECK_EQ(g.size(), kv.second.size(), "targets", what << ": number of " << kv.first << " frames");
      for (std::size_t i = 0; i < g.size(); ++i) {
        CHECK(kv.second[i].ok(g[i]), "target", what << ": frame " << ref::show(g[i]) << " should be: " << kv.second[i].what);
      }
    }
    ctx.checked(t.frames.size() + 1);
  }

  struct v1wants {
    ref::v1 v;
    std::set<std::string> open; // fields about which nothing is known
    std::set<std::string> set; // fields written
  };

  void v1_is(context &ctx, const ref::v1 &t, const v1wants &w, const std::string &what)
  {
    auto fld = [&](const char *name, bytes a, bytes b) {
      if (w.open.count(name)) return;
      if (w.set.count(name)) {
        // trailing spaces are padding, too
        for (auto p: { &a, &b }) while (!p->empty() && (p->back() == ' ' || !p->back())) p->pop_back();
      }
      std::size_t n = std::max(a.size(), b.size());
      a.resize(n, 0);
      b.resize(n, 0);
      CHECK_EQ(a, b, std::string("v1-") + name, what << ": " << name);
      ctx.checked();
    };
    CHECK_EQ(t.enh, w.v.enh, "v1-kind", what << ": enhanced");
    CHECK_EQ(t.v11, w.v.v11, "v1-kind", what << ": ID3v1.1");
    fld("title", t.title, w.v.title);
    fld("artist", t.artist, w.v.artist);
    fld("album", t.album, w.v.album);
    fld("year", t.year, w.v.year);
    fld("comment", t.comment, w.v.comment);
    CHECK_EQ(t.track, w.v.track, "v1-track", what << ": track");
    CHECK_EQ(t.genre, w.v.genre, "v1-genre", what << ": genre");
    if (t.enh) {
      CHECK_EQ(t.speed, w.v.speed, "v1-speed", what << ": speed");
      fld("egenre", t.egenre, w.v.egenre);
      fld("start", t.start, w.v.start);
      fld("end", t.end, w.v.end);
    }
  }

  enum class verdict { same, maybe, edited };

  struct outcome {
    verdict v = verdict::same;
    std::vector<wants> tags;
    std::optional<v1wants> v1;
    bool either = false; // ... or nothing at all happens
    void change(verdict x) { if (x > v) v = x; }
  };

  // --- commands

  struct command {
    args a;
    std::vector<std::pair<std::string, std::string>> env;
    bool dry = false, get = false, backup = false, relative = false, usage = false, refuse = false;
    std::optional<std::set<std::size_t>> sel;
    int make2 = 0, make1 = 0; // 1: if there's a tag of the other sort, 2: always
    bool v1 = false, v2 = true;
    /// edit one tag, of which there's an account; null if it's new
    std::function<void (command &c, const ref::tag *t, wants &w, outcome &o)> edit;
    std::function<std::set<std::string> (int ver)> ids;
    std::function<void (v1wants &w, outcome &o)> edit1;
    std::vector<ref::cloud> *out = nullptr;
    std::string owner;
  };

  void make_frames_of_v1(const ref::v1 &v, wants &w)
  {
    auto txt = [&](const std::string &id, const bytes &b) {
      ustr u = field_text(b);
      if (u.empty() && !murky(b)) return;
      want x = text_is(u, murky(b));
      x.optional = u.empty();
      w.targets[id].push_back(x);
    };
    txt("TPE1", v.artist);
    txt("TIT2", v.title);
    txt("TALB", v.album);
    txt("TYER", v.year);
    if (w.targets.count("TYER") && (murky(v.year) || field_text(v.year).size() != 4 || !fits(field_text(v.year), ASCII))) w.targets["TYER"][0].optional = true;
    ustr u = field_text(v.comment);
    if (!u.empty() || murky(v.comment)) {
      bool m = murky(v.comment);
      w.targets["COMM"].push_back({ "a comment " + vt::show(ref::utf8(u)), [u, m](const ref::frame &f) {
        const bytes &p = f.payload;
        if (p.size() < 4) return false;
        // past the description
        std::size_t i = 4;
        bool wide = p[0] == 1 || p[0] == 2;
        if (!wide) {
          while (i < p.size() && p[i]) ++i;
          ++i;
        } else {
          while (i + 1 < p.size() && (p[i] || p[i + 1])) i += 2;
          i += 2;
        }
        ustr t;
        if (i > p.size() || !ref::dec_text(bytes(p.begin() + i, p.end()), p[0], t)) return false;
        t = trimmed(t);
        return m ? t.substr(0, u.size()) == u : t == u;
      }, u.empty() });
    }
    if (v.v11) w.targets["TRCK"].push_back(text_is(ref::from_latin1(B(num(v.track)))));
    if (v.genre < 192) {
      ustr g;
      ref::from_utf8(*scribbu::text_for_genre(v.genre), g);
      w.targets["TCON"].push_back(text_is(g));
    }
  }

  /// Some tag's text, for a new ID3v1 tag
  void v1_of_tags(const std::vector<ref::tag> &tags, const std::function<bool (std::size_t, const std::string&, ustr&)> &get, v1wants &w)
  {
    auto first = [&](const char *id, const std::function<bool (const ustr&)> &good, ustr &u) {
      for (std::size_t i = 0; i < tags.size(); ++i) if (get(i, id, u) && good(u)) return true;
      u.clear();
      return false;
    };
    auto fld = [&](const char *name, const char *id, bytes &b) {
      ustr u;
      first(id, [](const ustr &x) { return !x.empty(); }, u);
      if (!fits(u, ASCII)) w.open.insert(name);
      else {
        ref::latin1(u, b);
        b.resize(30, 0);
      }
    };
    w.v.title = w.v.artist = w.v.album = w.v.comment = bytes(30, 0);
    w.v.year = bytes(4, 0);
    fld("title", "TIT2", w.v.title);
    fld("artist", "TPE1", w.v.artist);
    fld("album", "TALB", w.v.album);
    for (std::size_t i = 0; i < tags.size(); ++i) {
      ustr u;
      if (get(i, "TYER", u) && !fits(u, ASCII)) w.open.insert("year");
    }
    ustr u;
    if (first("TYER", [](const ustr &x) { return x.size() == 4; }, u)) {
      if (fits(u, ASCII)) ref::latin1(u, w.v.year);
    }
  }

  static const std::map<std::string, std::string> V22 {
    { "TALB", "TAL" }, { "TPE1", "TP1" }, { "TENC", "TEN" }, { "TCON", "TCO" }, { "TIT2", "TT2" }, { "TRCK", "TRK" }, { "TYER", "TYE" },
    { "TBPM", "TBP" }, { "TCOM", "TCM" }, { "TLAN", "TLA" }, { "TCOP", "TCR" }, { "TPUB", "TPB" }, { "TPE2", "TP2" }
  };
  std::string id_in(int ver, const std::string &id) { return ver == 2 ? V22.at(id) : id; }

  const ref::frame* find(const ref::tag *t, const std::string &id)
  {
    if (t) for (auto &f: t->frames) if (f.id == id) return &f;
    return nullptr;
  }

  // --- building them

  ustr arg_text(source &s, rep r, std::size_t max)
  {
    ustr u;
    for (char32_t c: text1(s, r, max)) u += c ? c : U'0';
    return u;
  }

  void select(source &s, command &c)
  {
    if (s.chance(1, 3)) {
      c.sel.emplace();
      for (std::size_t i = 0, n = 1 + s.below(3); i < n; ++i) {
        std::size_t x = s.below(3);
        c.sel->insert(x);
        std::string v = num(x);
        if (s.flip()) { c.a.push_back("-t"); c.a.push_back(v); } else c.a.push_back("--tag=" + v);
      }
    }
  }
  void flag(source &s, command &c, const char *shrt, const char *lng, const char *env = nullptr)
  {
    switch (s.below(env ? 3 : 2)) {
    case 0: c.a.push_back(shrt); break;
    case 1: c.a.push_back(lng); break;
    default: c.env.push_back({ env, s.flip() ? "1" : "true" }); break;
    }
  }
  void common(source &s, command &c, bool dry)
  {
    if (s.chance(1, 4)) { flag(s, c, "-b", "--create-backups", "SCRIBBU_CREATE_BACKUPS"); c.backup = true; }
    if (s.chance(1, 4)) flag(s, c, "-u", "--adjust-unsync", "SCRIBBU_ADJUST_UNSYNC");
    // of no concern to these commands
    if (s.chance(1, 8)) c.env.push_back({ s.pick<std::string>({ "SCRIBBU_", "SCRIBBU_FOO", "SCRIBBU_OUTPUT", "SCRIBBU_NUM_COMMENTS", "SCRIBBU_HOME", "SCRIBBU_create_v2" }), s.pick<std::string>({ "", "1", "x" }) });
    if (dry && s.chance(1, 6)) { flag(s, c, "-n", "--dry-run", "SCRIBBU_DRY_RUN"); c.dry = true; }
  }
  void value(source &s, command &c, const char *shrt, const char *lng, const std::string &v)
  {
    if (s.flip() && v[0] != '-') { c.a.push_back(shrt); c.a.push_back(v); }
    else c.a.push_back(std::string(lng) + "=" + v);
  }

  /// Options which may not be given together
  void contradict(source &s, command &c, const std::vector<std::vector<std::string>> &v)
  {
    if (!s.chance(1, 40)) return;
    for (auto &x: s.pick(v)) c.a.push_back(x);
    c.usage = true;
  }

  /// A tag's text, set
  void set_text(const ref::tag *t, wants &w, outcome &o, const std::string &id, const ustr &u)
  {
    w.targets[id] = { text_is(u) };
    const ref::frame *f = find(t, id);
    ustr was;
    o.change(f && text_of(*f, was) && was == trimmed(u) ? verdict::maybe : verdict::edited);
  }

  command text_command(source &s)
  {
    command c;
    c.a.push_back("text");
    struct opt { const char *shrt, *lng, *id; };
    static const std::vector<opt> OPTS {
      { "-T", "--title", "TIT2" }, { "-A", "--artist", "TPE1" }, { "-a", "--album", "TALB" }, { "-g", "--genre", "TCON" },
      { "-k", "--track", "TRCK" }, { "-y", "--year", "TYER" }, { "-e", "--encoded-by", "TENC" }
    };
    static const std::vector<std::string> MORE { "TBPM", "TCOM", "TLAN", "TCOP", "TPUB", "TPE2" };
    std::map<std::string, ustr> adds;
    std::set<std::string> dels;
    bool l1 = s.chance(1, 5);
    for (std::size_t n = s.weighted({ 1, 5, 3, 2 }); n; --n) {
      const opt &o = s.pick(OPTS);
      if (adds.count(o.id)) continue;
      ustr u = arg_text(s, l1 ? LATIN1 : s.pick({ ASCII, ASCII, LATIN1, BMP, FULL }), s.chance(1, 8) ? 200 : 24);
      adds[o.id] = u;
      bytes b;
      ref::latin1(u, b);
      value(s, c, o.shrt, o.lng, l1 ? S(b) : ref::utf8(u));
      if (!fits(u, BMP)) c.refuse = true;
    }
    for (std::size_t n = s.weighted({ 3, 2, 1 }); n; --n) {
      std::string name;
      if (s.chance(3, 4)) {
        const opt &o = s.pick(OPTS);
        dels.insert(o.id);
        name = s.flip() ? o.id : o.lng + 2;
      } else {
        name = s.pick(MORE);
        dels.insert(name);
      }
      value(s, c, "-d", "--delete", name);
    }
    // deleting & setting a frame may move it
    for (auto &x: dels) if (adds.count(x)) c.relative = true;
    if (l1 || s.flip()) {
      std::string e = l1 ? "ISO-8859-1" : "UTF-8";
      switch (s.below(4)) {
      case 0: c.a.push_back("-E"); c.a.push_back(e); break;
      case 1: c.env.push_back({ "SCRIBBU_ENCODING", e }); break;
      default: c.a.push_back("--encoding=" + e); break;
      }
    }
    contradict(s, c, { { "--create-v2", "--always-create-v2" } });
    select(s, c);
    c.v1 = !c.sel;
    switch (s.weighted({ 3, 1, 1 })) {
    case 1: flag(s, c, "-c", "--create-v2", "SCRIBBU_CREATE_V2"); c.make2 = 1; break;
    case 2: flag(s, c, "-C", "--always-create-v2", "SCRIBBU_ALWAYS_CREATE_V2"); c.make2 = 2; break;
    default: break;
    }
    common(s, c, false);
    if (s.chance(1, 6)) flag(s, c, "-v", "--verbose");
    c.ids = [adds, dels](int ver) {
      std::set<std::string> r;
      for (auto &kv: adds) r.insert(id_in(ver, kv.first));
      for (auto &x: dels) r.insert(id_in(ver, x));
      return r;
    };
    c.edit = [adds, dels](command &c, const ref::tag *t, wants &w, outcome &o) {
      for (auto &x: dels) {
        std::string id = id_in(w.ver, x);
        w.targets[id].clear();
        if (find(t, id)) o.change(adds.count(x) ? verdict::maybe : verdict::edited);
      }
      for (auto &kv: adds) set_text(t, w, o, id_in(w.ver, kv.first), kv.second);
    };
    c.edit1 = [adds, dels](v1wants &w, outcome &o) {
      auto fld = [&](const char *name, const char *id, bytes &b) {
        if (!adds.count(id) && !dels.count(id)) return;
        auto p = adds.find(id);
        bytes was = b;
        std::size_t n = w.v.enh ? 90 : 30;
        if (p == adds.end()) b.clear();
        else if (!ref::latin1(p->second, b) || b.size() > n) { w.open.insert(name); o.change(verdict::maybe); return; }
        w.set.insert(name);
        while (!b.empty() && (b.back() == ' ')) b.pop_back();
        b.resize(n, 0);
        if (was != b) o.change(verdict::edited);
      };
      fld("title", "TIT2", w.v.title);
      fld("artist", "TPE1", w.v.artist);
      fld("album", "TALB", w.v.album);
    };
    return c;
  }

  command genre_command(source &s)
  {
    command c;
    c.a.push_back("genre");
    std::string content;
    unsigned char v1 = 255;
    auto name = [&]() {
      return s.chance(2, 3) ? *scribbu::text_for_genre(s.below(192)) : ref::utf8(arg_text(s, s.pick({ ASCII, LATIN1, BMP }), 24));
    };
    auto blank = [](const std::string &x) { return x.find_first_not_of(' ') == x.npos; };
    switch (s.below(3)) {
    case 0:
      v1 = s.below(192);
      content = *scribbu::text_for_genre(v1);
      if (s.chance(1, 12)) { c.usage = true; value(s, c, "-w", "--winamp", num(192 + s.below(300))); }
      else value(s, c, "-w", "--winamp", num(v1));
      break;
    case 1: {
      std::string g = name();
      if (s.flip()) for (auto &ch: g) ch = isupper((unsigned char) ch) ? tolower(ch) : toupper(ch);
      if (s.chance(1, 3) && g.size() > 2) g.erase(g.size() - 1);
      ustr u;
      if (blank(g) || !ref::from_utf8(g, u)) g = "Rock";
      while (g.back() == ' ') g.pop_back();
      std::size_t d;
      std::tie(content, v1, d) = scribbu::match_winamp_genre(g);
      value(s, c, "-g", "--genre", g);
      break;
    }
    default: {
      content = name();
      if (blank(content)) content = "Weird";
      while (content.back() == ' ') content.pop_back();
      std::size_t d;
      std::string x;
      std::tie(x, v1, d) = scribbu::match_winamp_genre(content);
      value(s, c, "-G", "--Genre", content);
      if (s.chance(1, 3)) {
        v1 = s.below(192);
        if (s.flip()) { c.a.push_back("--v1"); c.a.push_back(num(v1)); }
        else c.a.push_back("--v1=" + num(v1));
      }
    }
    }
    c.v1 = true;
    switch (s.weighted({ 3, 1, 1, 1 })) {
    case 1: flag(s, c, "-1", "--v1-only", "SCRIBBU_V1_ONLY"); c.v2 = false; break;
    case 2: flag(s, c, "-2", "--v2-only", "SCRIBBU_V2_ONLY"); c.v1 = false; break;
    case 3:
      select(s, c);
      if (c.sel && s.chance(1, 3)) { flag(s, c, "-2", "--v2-only", "SCRIBBU_V2_ONLY"); c.v1 = false; }
      break;
    default: break;
    }
    contradict(s, c, { { "--create-v2", "--always-create-v2" }, { "--create-v1", "--always-create-v1" }, { "--v1-only", "--v2-only" },
                       { "--v1-only", "--tag=0" }, { "--winamp=3", "--genre=Rock" }, { "--genre=Rock", "--Genre=Rock" }, { "--Genre=Rock", "--winamp=3" } });
    if (c.v2) switch (s.weighted({ 2, 1, 1 })) {
    case 1: flag(s, c, "-c", "--create-v2", "SCRIBBU_CREATE_V2"); c.make2 = 1; break;
    case 2: flag(s, c, "-a", "--always-create-v2", "SCRIBBU_ALWAYS_CREATE_V2"); c.make2 = 2; break;
    default: break;
    }
    if (c.v1) switch (s.weighted({ 2, 1, 1 })) {
    case 1: flag(s, c, "-C", "--create-v1", "SCRIBBU_CREATE_V1"); c.make1 = 1; break;
    case 2: flag(s, c, "-A", "--always-create-v1", "SCRIBBU_ALWAYS_CREATE_V1"); c.make1 = 2; break;
    default: break;
    }
    // a tag created now makes for another next time
    if (c.make1 && c.make2 && c.make1 != c.make2) c.relative = true;
    common(s, c, true);
    ustr u;
    ref::from_utf8(content, u);
    c.ids = [](int ver) { return std::set<std::string> { id_in(ver, "TCON") }; };
    c.edit = [u](command &, const ref::tag *t, wants &w, outcome &o) {
      std::string id = id_in(w.ver, "TCON");
      set_text(t, w, o, id, u);
      const ref::frame *f = find(t, id);
      if (!f) o.change(verdict::edited);
    };
    c.edit1 = [v1](v1wants &w, outcome &o) {
      if (w.v.genre != v1) o.change(verdict::edited);
      w.v.genre = v1;
      auto g = scribbu::text_for_genre(v1);
      if (w.v.enh && g) {
        bytes b = B(*g);
        b.resize(30, 0);
        if (w.v.egenre != b) o.change(verdict::edited);
        w.v.egenre = b;
      }
    };
    return c;
  }

  big value_of(const bytes &b)
  {
    big x = 0;
    for (auto c: b) {
      if (x >> 120) return ~big(0);
      x = x << 8 | c;
    }
    return x;
  }
  std::string show_big(big x)
  {
    std::string r;
    do r.insert(r.begin(), '0' + (int)(x % 10)); while (x /= 10);
    return r;
  }

  struct popm { std::string owner; unsigned char rating; bytes counter; };
  bool read_popm(const bytes &b, popm &p)
  {
    auto q = std::find(b.begin(), b.end(), 0);
    if (b.end() - q < 2) return false;
    p.owner.assign(b.begin(), q);
    p.rating = q[1];
    p.counter.assign(q + 2, b.end());
    return true;
  }

  command popm_command(source &s)
  {
    command c;
    c.a.push_back("popm");
    bool absolute = false;
    std::uint64_t pc = 1;
    switch (s.below(3)) {
    case 1: absolute = true; pc = s.chance(1, 3) ? s.edgy(64) : s.small(100000); value(s, c, "-C", "--count", num(pc)); break;
    case 2: pc = s.chance(1, 4) ? s.edgy(64) : s.small(1000); value(s, c, "-i", "--increment", num(pc)); break;
    default: break;
    }
    bool pcnt = true, popms = true, make = false;
    if (s.chance(1, 3)) {
      if (s.flip()) { flag(s, c, "-p", "--playcount-only"); popms = false; }
      else { flag(s, c, "-m", "--popularimeter-only"); pcnt = false; }
    }
    std::optional<std::string> owner;
    if (s.flip()) {
      owner = s.pick({ std::string("me@there.org"), std::string("you"), std::string("a"), std::string("a "), std::string("\u00e9"), cstr(s, 8) });
      for (auto &ch: *owner) ch = ch ? ch : '0';
      if (owner->empty()) owner = "x";
      if (s.chance(1, 4)) c.env.push_back({ "SCRIBBU_OWNER", *owner });
      else value(s, c, "-o", "--owner", *owner);
    }
    std::optional<unsigned char> rating;
    if (s.flip()) {
      std::string r;
      if (s.flip()) { rating = s.byte(); r = num(*rating); }
      else if (s.chance(1, 10)) { r = s.pick({ std::string("256"), std::string("######"), std::string("12x"), std::string("!") }); c.usage = true; }
      else {
        static const unsigned char STARS[] = { 1, 64, 128, 196, 255 };
        std::size_t n = s.below(5);
        rating = STARS[n];
        r = std::string(n + 1, s.pick({ '#', '*', 'a', 'Z', '+', '%', '@' }));
      }
      value(s, c, "-r", "--rating", r);
    }
    if (s.chance(1, 3)) { flag(s, c, "-f", "--create-frame", "SCRIBBU_CREATE"); make = true; }
    contradict(s, c, { { "--create-v2", "--always-create-v2" }, { "--playcount-only", "--popularimeter-only" }, { "--count=3", "--increment=2" } });
    select(s, c);
    switch (s.weighted({ 3, 1, 1 })) {
    case 1: flag(s, c, "-c", "--create-v2"); c.make2 = 1; break;
    case 2: flag(s, c, "-a", "--always-create-v2"); c.make2 = 2; break;
    default: break;
    }
    common(s, c, true);
    if (s.chance(1, 8)) flag(s, c, "-v", "--verbose", "SCRIBBU_VERBOSE");
    c.relative = !absolute;
    c.ids = [](int ver) { return std::set<std::string> { ver == 2 ? "CNT" : "PCNT", ver == 2 ? "POP" : "POPM" }; };
    c.edit = [=](command &c, const ref::tag *t, wants &w, outcome &o) {
      std::string cid = w.ver == 2 ? "CNT" : "PCNT", pid = w.ver == 2 ? "POP" : "POPM";
      auto update = [&](const bytes &was) {
        big n = value_of(was);
        if (was.size() > 8) c.refuse = true;
        n = absolute ? big(pc) : n + pc;
        if (n >> 64) c.refuse = true;
        return n;
      };
      big top = 0, seen = 0;
      bool some = false, other = false;
      std::size_t npc = 0, npm = 0;
      if (t) for (auto &f: t->frames) {
        if (f.id == cid) {
          if (!pcnt) {
            w.targets[cid].push_back(exactly(f));
            seen = std::max(seen, value_of(f.payload));
            other = true;
            if (f.payload.size() > 8) c.refuse = true;
            continue;
          }
          ++npc;
          some = true;
          big n = update(f.payload);
          top = std::max(top, n);
          w.targets[cid].push_back({ "a count of " + show_big(n), [n](const ref::frame &g) { return value_of(g.payload) == n; } });
          o.change(n != value_of(f.payload) ? verdict::edited : verdict::maybe);
        } else if (f.id == pid) {
          popm p;
          if (!read_popm(f.payload, p)) throw std::logic_error("bad POPM");
          if (!popms || (owner && *owner != p.owner)) {
            w.targets[pid].push_back(exactly(f));
            seen = std::max(seen, value_of(p.counter));
            other = true;
            if (p.counter.size() > 8) c.refuse = true;
            continue;
          }
          ++npm;
          some = true;
          big n = update(p.counter);
          top = std::max(top, n);
          unsigned char r = rating.value_or(p.rating);
          std::string own = p.owner;
          w.targets[pid].push_back({ "a count of " + show_big(n) + ", rating " + num(r) + " & owner " + vt::show(own), [=](const ref::frame &g) {
            popm q;
            return read_popm(g.payload, q) && q.owner == own && q.rating == r && value_of(q.counter) == n;
          } });
          o.change(n != value_of(p.counter) || r != p.rating ? verdict::edited : verdict::maybe);
        }
      }
      if (!make && t) return;
      // New frames have the highest count around, or the one given
      auto good = [=](big n) {
        if (absolute) return n == pc;
        if (some && n == (top ? top : big(pc))) return true;
        if (other && n == std::max(top, seen)) return true;
        return !some && n == pc;
      };
      if (pcnt && !npc) {
        w.targets[cid].push_back({ "a new count", [=](const ref::frame &g) { return good(value_of(g.payload)); } });
        o.change(verdict::edited);
      }
      if (popms && !npm && owner && rating) {
        w.targets[pid].push_back({ "a new one by " + vt::show(*owner) + ", rating " + num(*rating), [=](const ref::frame &g) {
          popm q;
          return read_popm(g.payload, q) && q.owner == *owner && q.rating == *rating && good(value_of(q.counter));
        } });
        o.change(verdict::edited);
      }
    };
    return c;
  }

  command xtag_command(source &s)
  {
    command c;
    c.a.push_back("xtag");
    std::optional<std::string> owner;
    if (s.flip()) {
      owner = s.pick({ std::string("me@there.org"), std::string("you"), cstr(s, 8) });
      for (auto &ch: *owner) ch = ch ? ch : '0';
      if (owner->empty()) owner = "x";
      if (s.chance(1, 4)) c.env.push_back({ "SCRIBBU_OWNER", *owner });
      else value(s, c, "-o", "--owner", *owner);
    }
    bool merge = false, make = false;
    ref::cloud cloud;
    if (s.chance(1, 3)) {
      flag(s, c, "-g", "--get");
      c.get = true;
    } else {
      do cloud = some_cloud(s); while (cloud.empty() && s.draw(3));
      if (cloud.empty() || mute(cloud)) cloud = { { "a", { } } };
      value(s, c, "-T", "--xtags", encoded(s, cloud));
      contradict(s, c, { { "--create-v2", "--always-create-v2" } });
      if (s.flip()) { flag(s, c, "-m", "--merge"); merge = true; }
      if (s.flip()) { flag(s, c, "-f", "--create-frame", "SCRIBBU_CREATE"); make = true; }
      switch (s.weighted({ 3, 1, 1 })) {
      case 1: flag(s, c, "-c", "--create-v2", "SCRIBBU_CREATE_V2"); c.make2 = 1; break;
      case 2: flag(s, c, "-A", "--always-create-v2", "SCRIBBU_ALWAYS_CREATE_V2"); c.make2 = 2; break;
      default: break;
      }
      common(s, c, true);
    }
    select(s, c);
    c.ids = [](int ver) { return std::set<std::string> { ver == 2 ? "XTG" : "XTAG" }; };
    c.edit = [=](command &c, const ref::tag *t, wants &w, outcome &o) {
      std::string id = w.ver == 2 ? "XTG" : "XTAG";
      std::size_t n = 0;
      if (t) for (auto &f: t->frames) if (f.id == id) {
        std::string own;
        ref::cloud was;
        if (!read_cloud(f.payload, own, was)) throw std::logic_error("bad XTAG");
        if (owner && *owner != own) { w.targets[id].push_back(exactly(f)); continue; }
        ++n;
        if (c.get) {
          w.targets[id].push_back(exactly(f));
          if (!was.empty() && !mute(was) && c.out) c.out->push_back(was);
          continue;
        }
        ref::cloud now = cloud;
        if (merge) for (auto &kv: was) now[kv.first].insert(kv.second.begin(), kv.second.end());
        w.targets[id].push_back({ "owner " + vt::show(own) + ", tags " + show(now), [=](const ref::frame &g) {
          std::string o2;
          ref::cloud c2;
          return read_cloud(g.payload, o2, c2) && o2 == own && c2 == now;
        } });
        o.change(now != was ? verdict::edited : f.payload == ref::p_cloud(own, was) ? verdict::same : verdict::maybe);
      }
      if (!n && !c.get && (make || !t)) {
        std::string own = owner.value_or("");
        ref::cloud now = cloud;
        w.targets[id].push_back({ "a new one by " + vt::show(own) + ", tags " + show(now), [=](const ref::frame &g) {
          std::string o2;
          ref::cloud c2;
          return read_cloud(g.payload, o2, c2) && o2 == own && c2 == now;
        } });
        o.change(verdict::edited);
      }
    };
    return c;
  }

  /// What running `c' makes of a file
  outcome predict(command &c, const content &x)
  {
    outcome o;
    if (x.v1) { o.v1.emplace(); o.v1->v = *x.v1; }
    std::vector<bool> touched(x.tags.size());
    for (std::size_t i = 0; i < x.tags.size(); ++i) {
      if (!c.v2 || (c.sel && !c.sel->count(i))) { o.tags.push_back(wants(x.tags[i], { })); continue; }
      touched[i] = true;
      wants w(x.tags[i], c.ids(x.tags[i].ver));
      c.edit(c, &x.tags[i], w, o);
      o.tags.push_back(w);
    }
    bool made = false;
    if (x.tags.empty() && (c.make2 == 2 || (c.make2 == 1 && x.v1))) {
      wants w(3);
      if (x.v1) make_frames_of_v1(*x.v1, w);
      for (auto &id: c.ids(3)) w.targets[id];
      outcome ignore;
      c.edit(c, nullptr, w, ignore);
      o.tags.push_back(w);
      o.change(verdict::edited);
      made = true;
      // It isn't said whether that applies when tags are selected by number
      if (c.sel) o.either = true;
    }
    if (x.v1 && c.v1) c.edit1(*o.v1, o);
    else if (!x.v1 && (c.make1 == 2 || (c.make1 == 1 && !x.tags.empty()))) {
      o.v1.emplace();
      // The genre, at least, is not that of the tags
      v1_of_tags(x.tags, [&](std::size_t i, const std::string &id, ustr &u) {
        const ref::frame *f = find(&x.tags[i], id_in(x.tags[i].ver, id));
        return f && text_of(*f, u);
      }, *o.v1);
      outcome ignore;
      c.edit1(*o.v1, ignore);
      o.change(verdict::edited);
    }
    (void) made;
    return o;
  }

  void file_is(context &ctx, const bytes &was, const bytes &is, const outcome &o, const content &x, const std::string &name)
  {
    if (o.either && was == is) return;
    if (o.v == verdict::same) {
      CHECK(was == is, "touched", vt::show(name) << " was written, though there was nothing to change in it");
      ctx.checked();
      return;
    }
    content y = parse(is);
    CHECK_EQ(y.tags.size(), o.tags.size(), "tags", vt::show(name) << ": number of ID3v2 tags");
    for (std::size_t i = 0; i < y.tags.size(); ++i) tag_is(ctx, y.tags[i], o.tags[i], vt::show(name) + ", tag " + num(i));
    CHECK_EQ(y.v1.has_value(), o.v1.has_value(), "v1", vt::show(name) << ": has an ID3v1 tag");
    if (o.v1) v1_is(ctx, *y.v1, *o.v1, vt::show(name) + ", ID3v1 tag");
    CHECK(y.audio == x.audio, "audio", vt::show(name) << ": the audio has changed: " << x.audio.size() << " bytes before, now " << y.audio.size());
    ctx.checked();
  }

  // --- files

  bytes music(source &s)
  {
    bytes b;
    for (std::size_t i = 0, n = s.weighted({ 2, 4, 2, 1 }); i < n; ++i) {
      std::vector<fdesc> fs;
      fopts o;
      o.encr = false;
      o.compress = s.chance(1, 8);
      int ver = s.range(2, 4);
      ref::tag t = reftag(s, ver, fs, 2, o);
      auto add = [&](fdesc d) {
        if (ver == 4) d.unsync = t.unsync;
        fs.insert(fs.begin() + s.below(fs.size() + 1), d);
      };
      for (auto id: { "TIT2", "TPE1", "TALB", "TCON", "TRCK", "TYER", "TENC" }) if (s.chance(1, 3)) {
        fdesc d = frame(s, ver, kind::text, o);
        d.id = id_in(ver, id);
        if (s.chance(1, 3)) {
          d.enc = 0;
          d.text.clear();
          for (char ch: id == std::string("TYER") ? std::string("1999") : *scribbu::text_for_genre(s.below(20))) d.text += (char32_t) ch;
        }
        add(d);
      }
      static const std::vector<std::string> OWNERS { "me@there.org", "you", "a", "a ", "\u00e9" };
      for (std::size_t k = s.weighted({ 3, 3, 1 }); k; --k) add(frame(s, ver, kind::count, o));
      for (std::size_t k = s.weighted({ 3, 3, 2, 1 }); k; --k) {
        fdesc d = frame(s, ver, kind::popm, o);
        if (s.chance(5, 6)) d.owner = B(s.pick(OWNERS));
        add(d);
      }
      for (std::size_t k = s.weighted({ 3, 3, 1 }); k; --k) {
        fdesc d = frame(s, ver, kind::cloud, o);
        if (s.chance(2, 3)) d.owner = B(s.pick(OWNERS));
        if (s.flip()) d.cloud = some_cloud(s);
        if (mute(d.cloud)) d.cloud.clear();
        add(d);
      }
      // Which of several text frames with the same identifier is meant isn't said
      std::set<std::string> seen;
      t.frames.clear();
      for (auto &d: fs) {
        if (d.id[0] == 'T' && d.k == kind::text && !seen.insert(d.id).second) continue;
        ref::frame f = to_ref(ver, d);
        if (d.k == kind::count || d.k == kind::popm) while (d.data.size() > 8 && s.chance(9, 10)) { d.data.pop_back(); f = to_ref(ver, d); }
        t.frames.push_back(f);
      }
      if (s.chance(1, 2) && !t.footer) {
        t.padding = s.below(400);
        if (t.ver == 3 && t.ext) t.ext_padding = t.padding;
      }
      app(b, ref::encode(t));
    }
    app(b, bulk(s, 400 + s.below(300)));
    if (s.flip()) {
      ref::v1 v = v1tag(s);
      if (s.flip()) {
        auto ascii = [&](bytes &f) { for (auto &c: f) if (c >= 128) c = 'x'; };
        ascii(v.title); ascii(v.artist); ascii(v.album); ascii(v.comment);
      }
      app(b, ref::encode(v));
    }
    return b;
  }

  // --- histories

  /// What a trial run of `popm' has to mention of a frame that would change
  std::vector<std::string> to_be_told(const ref::frame &f)
  {
    std::vector<std::string> v;
    popm p;
    if (f.id == "PCNT" || f.id == "CNT") v.push_back(show_big(value_of(f.payload)));
    else if ((f.id == "POPM" || f.id == "POP") && read_popm(f.payload, p)) {
      v.push_back(show_big(value_of(p.counter)));
      v.push_back(num(p.rating));
      bool plain = !p.owner.empty() && p.owner.back() != ' ';
      for (unsigned char c: p.owner) if (c < 0x20 || c > 0x7e) plain = false;
      if (plain) v.push_back(p.owner);
    }
    return v;
  }

  /// A trial run tells what the real one would do
  void trial(context &ctx, const std::string &dir, const command &c, const disk &before, const std::set<std::string> &chosen, const std::string &out)
  {
    std::string copy = ctx.scratch + "/e";
    std::filesystem::remove_all(copy);
    std::filesystem::copy(dir, copy, std::filesystem::copy_options::recursive);
    args a;
    for (auto x: c.a) {
      if (x == "-n" || x == "--dry-run") continue;
      if (x.compare(0, dir.size(), dir) == 0) x = copy + x.substr(dir.size());
      a.push_back(x);
    }
    auto env = c.env;
    env.erase(std::remove_if(env.begin(), env.end(), [](auto &e) { return e.first == "SCRIBBU_DRY_RUN"; }), env.end());
    env.push_back({ "LC_ALL", "C.UTF-8" });
    NOTE(ctx, "for real: " << cli::show(a));
    proc_result r = cli::run(ctx, copy, a, env);
    CHECK(cli::orderly(r), "crash", "ended with " << (r.signalled ? "signal " : "status ") << r.status << ": " << r.err);
    if (r.status) return;
    disk after = files(copy);
    for (auto &n: chosen) {
      if (after[n] == before.at(n)) continue;
      content x = parse(before.at(n)), y = parse(after[n]);
      std::set<std::vector<std::string>> old;
      for (auto &t: x.tags) for (auto &f: t.frames) old.insert(to_be_told(f));
      for (auto &t: y.tags) for (auto &f: t.frames) {
        auto told = to_be_told(f);
        if (old.count(told)) continue;
        for (auto &what: told) CHECK(out.find(what) != std::string::npos, "dry-told", "a trial run doesn't mention " << vt::show(what) << ", which " << f.id << " in " << vt::show(n) << " would get: " << out);
        ctx.label("popm:told");
        ctx.checked();
      }
    }
    std::filesystem::remove_all(copy);
  }

  template <typename F> void history(source &s, context &ctx, F make)
  {
    std::string dir = ctx.scratch + "/d";
    clear_dir(ctx.scratch);
    std::filesystem::create_directories(dir + "/sub/deep");
    std::filesystem::create_directories(dir + "/none");
    static const std::vector<std::string> NAMES { "a.mp3", "b c.mp3", "\xc3\xbc.mp3", "sub/x.mp3", "sub/deep/y", "z" };
    for (std::size_t i = 0, n = 1 + s.below(4); i < n; ++i) {
      std::string name = s.pick(NAMES);
      bytes b = s.chance(1, 8) ? bulk(s, s.below(200)) : music(s);
      spew(dir + "/" + name, b);
    }
    bool effect = false;
    std::uint64_t h = 0;
    for (std::size_t step = 0, steps = 1 + s.below(3); step < steps; ++step) {
      command c = make(s);
      disk before = files(dir);
      // which files?
      std::set<std::string> chosen, tops;
      for (auto &kv: before) tops.insert(kv.first.substr(0, kv.first.find('/')));
      if (s.chance(1, 3)) {
        c.a.push_back(s.pick({ std::string("."), dir, std::string("./") }));
        for (auto &kv: before) chosen.insert(kv.first);
      } else {
        for (auto &t: tops) if (s.chance(2, 3)) {
          if (t == "sub" && s.flip()) {
            for (auto &kv: before) if (kv.first.compare(0, 4, "sub/") == 0 && s.flip()) { chosen.insert(kv.first); c.a.push_back(kv.first); }
          } else {
            c.a.push_back((s.chance(1, 4) ? dir + "/" : s.chance(1, 4) ? "./" : "") + t);
            for (auto &kv: before) if (kv.first.substr(0, kv.first.find('/')) == t) chosen.insert(kv.first);
          }
        }
        if (s.chance(1, 6) || chosen.empty()) c.a.push_back("none");
      }
      NOTE(ctx, "before: " << vt::show(before));
      for (auto &e: c.env) NOTE(ctx, "environment: " << e.first << "=" << vt::show(e.second));
      NOTE(ctx, "run: " << cli::show(c.a));
      std::vector<ref::cloud> clouds;
      c.out = &clouds;
      std::map<std::string, content> was;
      std::map<std::string, outcome> exp;
      for (auto &n: chosen) {
        was[n] = parse(before[n]);
        exp[n] = predict(c, was[n]);
      }
      auto env = c.env;
      env.push_back({ "LC_ALL", "C.UTF-8" });
      std::size_t room = cli::ROOM;
      if (!c.get && s.chance(1, 10)) {
        room = 0;
        for (auto &kv: before) room = std::max(room, kv.second.size());
        room += s.chance(1, 3) ? 0 : s.below(300);
        if (s.flip()) room = cli::some_trouble(s);
        NOTE(ctx, cli::show_room(room));
        ctx.label(room & cli::TROUBLE ? "failing-call" : "full-disk");
      }
      bool full = room != cli::ROOM;
      proc_result r = cli::run(ctx, dir, c.a, env, room);
      CHECK(cli::orderly(r), "crash", "ended with " << (r.signalled ? "signal " : "status ") << r.status << ": " << r.err);
      disk after = files(dir);
      bool quiet = c.dry || c.get || c.usage;
      if (c.usage) CHECK_EQ(r.status, 2, "usage", "exit status of a command line which makes no sense");
      else if (r.status) CHECK(c.refuse || full, "refused", "ended with status " << r.status << ": " << r.err);
      for (auto &kv: before) {
        auto p = after.find(kv.first);
        CHECK(p != after.end(), "lost", vt::show(kv.first) << " is gone");
        std::set<std::string> backups;
        for (auto &x: after) if (!before.count(x.first)) {
          if (x.first.compare(0, kv.first.size() + 1, kv.first + ".") == 0 && x.first.find('/', kv.first.size()) == std::string::npos
              && x.first.find('.', kv.first.size() + 1) == std::string::npos) backups.insert(x.first);
        }
        if (quiet || !chosen.count(kv.first)) {
          CHECK(p->second == kv.second, quiet ? "quiet" : "bystander", vt::show(kv.first) << " was written");
          CHECK(backups.empty(), "extra", vt::show(*backups.begin()) << " has appeared");
          ctx.checked();
          continue;
        }
        bool differs = p->second != kv.second;
        if (full && r.status) {
          // some of it may have been done, but the track must be there
          const bytes &au = was[kv.first].audio;
          CHECK(std::search(p->second.begin(), p->second.end(), au.begin(), au.end()) != p->second.end() || au.empty(),
                "track-lost", vt::show(kv.first) << " no longer holds its track");
        } else if (!r.status || differs) file_is(ctx, kv.second, p->second, exp[kv.first], was[kv.first], kv.first);
        if (full && r.status) ; // a copy may be left behind
        else if (!c.backup) CHECK(backups.empty(), "extra", vt::show(*backups.begin()) << " has appeared");
        else if (differs) {
          CHECK_EQ(backups.size(), std::size_t(1), "backup", "number of new files starting with " << vt::show(kv.first));
        } else if (exp[kv.first].v == verdict::same) {
          CHECK(backups.empty(), "backup", vt::show(*backups.begin()) << " has appeared, although there was nothing to change");
        }
        if (!full) for (auto &b: backups) CHECK(after[b] == kv.second, "backup", vt::show(b) << " isn't a copy of " << vt::show(kv.first) << " as it was");
        if (differs) { effect = true; h = hash(p->second, h); }
        ctx.checked();
      }
      std::size_t fresh = 0;
      for (auto &x: after) if (!before.count(x.first)) ++fresh;
      CHECK(!fresh || c.backup || (full && r.status), "extra", fresh << " new files");
      if (!full) CHECK(fresh <= chosen.size(), "extra", fresh << " new files for " << chosen.size() << " processed");
      if (c.dry && !c.usage && !r.status && !full && c.a[0] == "popm") trial(ctx, dir, c, before, chosen, r.out);
      if (c.get) {
        std::istringstream is(r.out);
        std::string line;
        std::vector<ref::cloud> got;
        while (std::getline(is, line)) {
          ref::cloud x;
          CHECK(urldecode(line, x), "get", "not URL-encoded: " << vt::show(line));
          got.push_back(x);
        }
        std::sort(got.begin(), got.end());
        std::sort(clouds.begin(), clouds.end());
        CHECK(got == clouds, "get", "printed " << vt::show(r.out) << ", expected " << clouds.size() << " tag clouds" << (clouds.empty() ? "" : ", among them " + show(clouds[0])));
        ctx.checked(got.size());
        if (!got.empty()) { effect = true; h = hash(r.out, h); }
      }
      ctx.label(c.a[0] + (c.usage ? ":usage" : r.status ? ":refused" : c.dry ? ":dry" : c.get ? ":get" : ""));
      if (c.make2 || c.make1) ctx.label(c.a[0] + ":create");
      if (c.sel) ctx.label(c.a[0] + ":some tags");
      if (!r.status && !full && !c.relative && s.chance(1, 3)) {
        // Once more: nothing else changes
        NOTE(ctx, "once more");
        proc_result r2 = cli::run(ctx, dir, c.a, env);
        CHECK(cli::orderly(r2), "crash", "ended with " << (r2.signalled ? "signal " : "status ") << r2.status << ": " << r2.err);
        CHECK_EQ(r2.status, 0, "repeat", "status on repeating the command (" << r2.err << ")");
        // backups in directories are files, too
        disk again = files(dir);
        for (auto &kv: before) {
          CHECK(again[kv.first] == after[kv.first], "repeat", vt::show(kv.first) << " is changed by repeating the command");
        }
        if (!c.backup) CHECK_EQ(again.size(), after.size(), "repeat", "number of files after repeating the command");
        if (c.get) CHECK_EQ(r2.out, r.out, "repeat", "output on repeating the command");
        ctx.checked(before.size());
        ctx.label(c.a[0] + ":repeated");
      }
    }
    if (effect) ctx.nontrivial(h);
  }

  void texts(source &s, context &ctx) { history(s, ctx, text_command); }
  void genres(source &s, context &ctx) { history(s, ctx, genre_command); }
  void popms(source &s, context &ctx) { history(s, ctx, popm_command); }
  void xtags(source &s, context &ctx) { history(s, ctx, xtag_command); }
  void mixed(source &s, context &ctx)
  {
    history(s, ctx, [](source &s) {
      switch (s.below(4)) {
      case 0: return text_command(s);
      case 1: return genre_command(s);
      case 2: return popm_command(s);
      default: return xtag_command(s);
      }
    });
  }
}

int main(int argc, char **argv)
{
  // as in the children: letter case depends on the locale
  setenv("LC_ALL", "C.UTF-8", 1);
  return run(argc, argv, spec {
    "P15",
    "a file was changed as predicted by the model (compared frame by frame after an independent decoding), or a query printed a tag cloud",
    5000, 300000,
    { { "text", 3, texts }, { "genre", 3, genres }, { "popm", 3, popms }, { "xtag", 3, xtags }, { "mixed", 2, mixed } },
    { "files are written by nobody else meanwhile",
      "tags have no two text frames with the same identifier: which of them is meant isn't said",
      "whether --tag together with the options that create tags applies to files without ID3v2 tags isn't said; either is accepted",
      "texts outside of Latin-1 may be approximated in ID3v1 tags; texts outside the Basic Multilingual Plane, counters beyond 64 bits "
      "may be refused, in which case the file must be as it was" }
  });
}
