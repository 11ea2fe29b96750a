/* P16 -- renaming, splitting & playlists: nothing is lost. */
#include "tbt.hh"
#include "mpeg.hh"
#include "cli.hh"

#include <cmath>
#include <grp.h>
#include <sys/stat.h>
#include <unistd.h>

using namespace vt;
using namespace gen;
using namespace tbt;
using cli::args;

namespace {

  typedef std::map<std::string, bytes> disk;
  typedef std::vector<std::pair<std::string, std::string>> envs;

  /// The files in `dir' (not the directories)
  disk files(const std::string &dir)
  {
    disk r;
    for (auto &kv: snapshot(dir)) if (kv.first.back() != '/') r.insert(kv);
    return r;
  }

  std::string show(const disk &d)
  {
    std::ostringstream os;
    for (auto &kv: d) os << " " << vt::show(kv.first) << " (" << kv.second.size() << " bytes)";
    return os.str();
  }

  /// A directory the child may write to
  std::string open_dir(const std::string &p)
  {
    mkdir(p.c_str(), 0777);
    if (chmod(p.c_str(), 0777)) std::perror("chmod");
    return p;
  }

  std::string fresh(context &ctx)
  {
    clear_dir(ctx.scratch);
    if (chmod(ctx.scratch.c_str(), 0755)) std::perror("chmod");
    // a tag's text becomes a path here: let the child reach nothing else
    std::string up = fs::path(ctx.scratch).parent_path().string();
    if (up != "/tmp") chmod(up.c_str(), 0755);
    return open_dir(ctx.scratch + "/d");
  }

  using cli::ROOM;

  /// How large a file may grow: a stand-in for a full disk
  std::size_t some_room(source &s, context &ctx, std::size_t most)
  {
    if (!s.chance(1, 6)) return ROOM;
    std::size_t n = s.chance(1, 4) ? 0 : s.below(most + most / 4 + 1);
    if (s.flip()) n = cli::some_trouble(s);
    NOTE(ctx, cli::show_room(n));
    ctx.label(n & cli::TROUBLE ? "failing-call" : "full-disk");
    return n;
  }

  proc_result run(context &ctx, const std::string &cwd, const args &a, const envs &env, std::size_t room = ROOM)
  {
    cli::calm c;
    return in_child(cwd, ctx.scratch + "/io", [&]() {
      cli::confine(room);
      for (auto &e: env) setenv(e.first.c_str(), e.second.c_str(), 1);
      setenv("LC_ALL", "C.UTF-8", 1);
      if (0 == geteuid()) {
        if (setgroups(0, nullptr) || setgid(65534) || setuid(65534)) return 97;
      }
      umask(0);
      std::vector<char*> argv;
      argv.push_back(strdup("scribbu"));
      for (auto &x: a) argv.push_back(strdup(x.c_str()));
      argv.push_back(nullptr);
      return scribbu_main((int) argv.size() - 1, argv.data());
    });
  }

  std::string norm(const fs::path &p) { return p.lexically_normal().string(); }

  // --- rename

  struct job {
    file f;
    std::string key;              // where it is
    fs::path arg;                 // as the program will call it
    enum { TEXT, MISSING, WILD } w = WILD;
    std::string dest;             // where it's to go
    fs::path out;                 // as the program will call that
  };

  term lit(const std::string &t) { term x; x.lit = t; x.image = escaped(t); return x; }
  term tag_term(int which) { term x; x.k = term::TEXT; x.which = which; x.t = T_SUF; x.c = C_FIRST; x.image = std::string("%") + "LAGT"[which]; return x; }
  term file_term(term::kind_ k, const char *image) { term x; x.k = k; x.image = image; return x; }

  std::vector<term> some_template(source &s, bool &dflt)
  {
    term b = file_term(term::BASE, "%b"), e = file_term(term::EXT, "%E"), z = file_term(term::SIZE, "%S"), y = file_term(term::YEAR, "%Y"),
      m = file_term(term::MD5, "%(md5:base=hex)");
    m.hex = true;
    dflt = false;
    switch (s.weighted({ 3, 2, 3, 2, 2, 2, 1, 1, 1, 5 })) {
    case 0: dflt = s.flip(); return { tag_term(ARTIST), lit(" - "), tag_term(TITLE), lit(".mp3") };
    case 1: return { b, e };
    case 2: return { lit("x"), b, e };
    case 3: return { b, lit("-"), z, e };
    case 4: return { m, lit(".mp3") };
    case 5: return { b, lit(" ("), y, lit(")"), e };
    case 6: return { lit("sub/"), b, e };
    case 7: return { lit("./"), b, lit("x"), e };
    case 8: return { b, lit(".mp3") };
    default: {
      std::string t;
      auto v = a_template(s, t);
      if (s.flip()) v.insert(v.begin(), lit("x"));
      if (s.flip()) v.push_back(b);
      return v;
    }
    }
  }

  bool contained(const std::string &p)
  {
    if (p.find('\0') != std::string::npos || (p.size() && p[0] == '/')) return false;
    for (auto &x: fs::path(p)) if (x == "..") return false;
    return true;
  }

  void renames(source &s, context &ctx)
  {
    std::string d = fresh(ctx);
    static const std::vector<std::string> DIRS { "", "sub/", "sub/deep/", "out/" };
    for (auto &x: DIRS) if (x.size()) open_dir(d + "/" + x);
    bool dflt;
    std::vector<term> ts = some_template(s, dflt);
    std::string tmpl;
    for (auto &x: ts) tmpl += x.image;

    // the files
    std::vector<job> jobs;
    std::size_t n = 1 + s.small(6);
    for (std::size_t i = 0; i < n; ++i) {
      job j;
      const std::string &in = DIRS[s.weighted({ 4, 3, 1, 1 })];
      if (s.chance(1, 12)) {
        j.f.name = "junk" + std::to_string(i) + s.pick<std::string>({ ".mp3", "" });
        j.f.all = s.pick<bytes>({ bytes(), B("ID3"), B(std::string("ID3\x03\0\0\x7f\x7f\x7f\x7f" "TPE1", 14)), bytes(40, 'x'), B(std::string("ID3\x03\0\0\0\0\0\x0b" "TPE1\0\0\x7f\0\0\0\0zzzzzz", 27)) });
        spew(d + "/" + in + j.f.name, j.f.all);
        NOTE(ctx, "file " << i << ": " << vt::show(in + j.f.name) << ", junk, " << vt::show(j.f.all));
      } else {
        j.f = tbt::make(s, ctx, d + "/" + in, i);
        if (in.size()) NOTE(ctx, "  in " << in);
        j.w = job::TEXT;
      }
      j.key = in + j.f.name;
      jobs.push_back(j);
    }

    // the command
    args a { "rename" };
    envs env;
    auto flag = [&](const char *shrt, const char *lng, const char *var) {
      if (var && s.chance(1, 5)) env.push_back({ var, s.pick<std::string>({ "1", "true", "yes" }) });
      else a.push_back(s.flip() ? shrt : lng);
    };
    bool dry = s.chance(1, 6), mv = s.chance(2, 3), verbose = s.chance(1, 6);
    if (s.chance(1, 8)) env.push_back({ s.pick<std::string>({ "SCRIBBU_", "SCRIBBU_FOO", "SCRIBBU_HOME", "SCRIBBU_CREATE" }), "1" }); // of no concern
    if (dry) flag("-n", "--dry-run", "SCRIBBU_DRY_RUN");
    if (mv) flag("-r", "--rename", nullptr);
    if (verbose) flag("-v", "--verbose", "SCRIBBU_VERBOSE");
    if (!dflt) {
      if (s.flip() && tmpl[0] != '-') { a.push_back("-t"); a.push_back(tmpl); }
      else a.push_back("--template=" + tmpl);
    }
    std::string odir;
    if (s.chance(2, 5)) {
      odir = s.pick<std::string>({ "out", "out", "sub", ".", d + "/out", d + "/out/", "nowhere" });
      if (s.chance(1, 5)) env.push_back({ "SCRIBBU_OUTPUT", odir });
      else if (s.flip()) { a.push_back("-o"); a.push_back(odir); }
      else a.push_back("--output=" + odir);
    }
    std::vector<job*> todo; // those the command is about
    bool gone = false;
    {
      std::vector<std::string> given;
      bool whole = s.flip();
      if (whole) given.push_back(s.pick<std::string>({ ".", "./", d, "sub", "out" }));
      for (auto &j: jobs) {
        if (whole) {
          fs::path top = given[0];
          std::string rel = top == d || norm(top) == "." || norm(top) == "./" ? "" : norm(top) + "/";
          if (j.key.compare(0, rel.size(), rel)) continue;
          j.arg = top / j.key.substr(rel.size());
          if (j.f.name.size() < 4 || j.f.name.substr(j.f.name.size() - 4) != ".mp3") continue;
        } else {
          if (s.chance(1, 4)) continue;
          j.arg = s.pick<std::string>({ "", "", "./", d + "/" }) + j.key;
          given.insert(given.begin() + s.below(given.size() + 1), j.arg.string());
        }
        todo.push_back(&j);
      }
      if (s.chance(1, 25)) { gone = true; given.insert(given.begin() + s.below(given.size() + 1), "absent.mp3"); }
      for (auto &x: given) a.push_back(x);
      if (given.empty()) gone = true; // a usage error
    }
    bool excuse = gone;
    std::set<std::string> dests;
    disk before = files(d);
    for (auto j: todo) {
      fs::path to = odir.empty() ? j->arg.parent_path() : fs::path(odir);
      if (j->w == job::WILD) { excuse = true; continue; }
      std::string want;
      try {
        for (auto &x: ts) want += x(j->f);
      } catch (const missing&) {
        j->w = job::MISSING;
      } catch (const failed&) {
        j->w = job::WILD;
        excuse = true;
        continue;
      } catch (const unspecified&) {
        return;
      }
      if (j->w == job::MISSING) continue;
      if (!contained(want)) return;
      j->out = to / want;
      fs::path k = to.is_absolute() ? to.lexically_relative(d) : to;
      k /= want;
      j->dest = norm(k);
      for (auto &x: fs::path(want)) if (x.string().size() > 255) excuse = true;
      if (k.filename().empty() || k.filename() == ".") excuse = true;
      else if (!fs::is_directory(d + "/" + norm(k.parent_path()))) excuse = true;
      if (fs::is_directory(d + "/" + j->dest)) excuse = true;
      if (j->out != j->arg && before.count(j->dest)) excuse = true;
      if (!dests.insert(j->dest).second) excuse = true;
    }
    NOTE(ctx, "before:" << show(before));
    for (auto &e: env) NOTE(ctx, "environment: " << e.first << "=" << e.second);
    NOTE(ctx, "run: " << cli::show(a));

    std::size_t largest = 0;
    for (auto &kv: before) largest = std::max(largest, kv.second.size());
    std::size_t room = dry || verbose ? ROOM : some_room(s, ctx, largest);
    if (room != ROOM) excuse = true;
    proc_result r = run(ctx, d, a, env, room);
    CHECK(cli::orderly(r), "crash", "ended with " << (r.signalled ? "signal " : "status ") << r.status << ": " << r.err);
    disk after = files(d);
    NOTE(ctx, "status " << r.status << (r.err.empty() ? "" : ": " + r.err));
    NOTE(ctx, "after:" << show(after));
    if (r.status) CHECK(excuse, "refused", "ended with status " << r.status << ": " << r.err);
    if (dry) {
      CHECK(after == before, "dry", "files have changed");
      CHECK(r.status || !gone, "absent", "a missing argument isn't reported");
      if (!r.status) for (auto j: todo) if (j->w == job::TEXT) {
        std::ostringstream os;
        os << j->arg << " => " << j->out << "\n";
        CHECK(r.out.find(os.str()) != std::string::npos, "dry", "not printed: " << os.str() << "but: " << r.out);
        ctx.checked();
      }
      ctx.checked(before.size());
      ctx.label("rename:dry");
      ctx.nontrivial(hash(r.out));
      return;
    }
    // who might have gone there?
    auto from = [&](const std::string &dest, const bytes &b) {
      for (auto j: todo) {
        if (b != j->f.all && (room == ROOM || b.size() > j->f.all.size() || !std::equal(b.begin(), b.end(), j->f.all.begin()))) continue;
        if (j->w == job::WILD || (j->w == job::TEXT && j->dest == dest)) return true;
      }
      return false;
    };
    std::size_t moved = 0;
    for (auto &kv: before) {
      job *j = nullptr;
      for (auto x: todo) if (x->key == kv.first) j = x;
      auto p = after.find(kv.first);
      if (p != after.end() && p->second == kv.second) { ctx.checked(); continue; }
      // it's gone; so it must be elsewhere
      CHECK(mv && j && j->w != job::MISSING, p == after.end() ? "lost" : "overwritten", vt::show(kv.first) << " is no more");
      bool there = false;
      if (j->w == job::TEXT) {
        auto q = after.find(j->dest);
        there = q != after.end() && q->second == kv.second;
      } else {
        for (auto &x: after) there |= x.second == kv.second && !before.count(x.first);
      }
      CHECK(there, p == after.end() ? "lost" : "overwritten", vt::show(kv.first) << " is no more, nor is it " << vt::show(j->dest));
      if (p != after.end()) CHECK(from(kv.first, p->second), "overwritten", vt::show(kv.first) << " isn't what it was");
      ctx.checked();
      ++moved;
    }
    for (auto &kv: after) if (!before.count(kv.first)) {
      CHECK(from(kv.first, kv.second), "stray", vt::show(kv.first) << " (" << kv.second.size() << " bytes) is nothing we've asked for");
      ctx.checked();
      if (!mv) ++moved;
    }
    if (r.status == 0) {
      CHECK(!gone, "absent", "a missing argument isn't reported");
      for (auto j: todo) {
        if (j->w == job::MISSING) {
          if (room == ROOM) CHECK(r.err.find(j->f.name.substr(0, 1)) != std::string::npos, "silent", "no word about " << vt::show(j->key) << ", which has no such tag");
        } else if (j->w == job::TEXT) {
          auto q = after.find(j->dest);
          CHECK(q != after.end() && q->second == j->f.all, "not-done", vt::show(j->key) << " isn't at " << vt::show(j->dest));
          if (mv && j->dest != j->key && after.count(j->key))
            CHECK(from(j->key, after[j->key]), "not-removed", vt::show(j->key) << " is still there");
          if (verbose) {
            std::ostringstream os;
            os << j->arg << " => " << j->out << "\n";
            CHECK(r.out.find(os.str()) != std::string::npos, "verbose", "not printed: " << os.str() << "but: " << r.out);
          }
        }
        ctx.checked();
      }
    }
    ctx.label(r.status ? "rename:stopped" : mv ? "rename:moved" : "rename:copied");
    if (excuse && r.status) ctx.label("rename:obstacle");
    if (moved) ctx.nontrivial(hash(tmpl, hash(r.out + std::to_string(before.size()), hash(before.begin()->second))));
  }

  // --- split

  void splits(source &s, context &ctx)
  {
    std::string d = fresh(ctx);
    trackfile f = track_file(s, ctx, 3);
    std::string suffix = s.pick<std::string>({ "", "", "A", ".bin", "-\xc3\xa9", " x" });
    std::string name = s.pick<std::string>({ "a.mp3", "a.mp3", "in put", "\xc3\xa9.mp3", "track", "id3v1", "id3v20", "id3v21" });
    if (s.chance(1, 4) && name.compare(0, 2, "tr") && name.compare(0, 2, "id")) ; else if (name.find('.') == std::string::npos && s.flip()) name += suffix;
    bytes all = f.all();
    bool whole = true;
    if (s.chance(1, 6)) {
      whole = false;
      if (s.flip() && all.size()) all.resize(s.below(all.size()));
      else if (all.size() > 10) all[s.below(std::min(all.size(), std::size_t(10)))] = s.byte();
      NOTE(ctx, "damaged: " << vt::show(all));
    }
    spew(d + "/" + name, all);
    if (chmod((d + "/" + name).c_str(), 0666)) std::perror("chmod");
    spew(d + "/other", B("other"));
    disk before = files(d);
    args a { "split" };
    if (suffix.size()) {
      if (s.flip()) { a.push_back("--suffix"); a.push_back(suffix); }
      else a.push_back("--suffix=" + suffix);
    }
    a.insert(a.begin() + 1 + (s.flip() ? a.size() - 1 : 0), s.pick<std::string>({ "", "./", d + "/" }) + name);
    NOTE(ctx, "run: " << cli::show(a));
    std::size_t room = some_room(s, ctx, all.size());
    proc_result r = run(ctx, d, a, {}, room);
    CHECK(cli::orderly(r), "crash", "ended with " << (r.signalled ? "signal " : "status ") << r.status << ": " << r.err);
    disk after = files(d);
    NOTE(ctx, "status " << r.status << (r.err.empty() ? "" : ": " + r.err) << "; after:" << show(after));
    // what there should be
    disk pieces;
    std::vector<std::string> order;
    if (whole) {
      for (std::size_t i = 0; i < f.tags.size(); ++i) {
        order.push_back("id3v2" + std::to_string(i) + suffix);
        pieces[order.back()] = ref::encode(f.tags[i]);
      }
      order.push_back("track" + suffix);
      pieces[order.back()] = f.audio;
      if (f.tail.size()) { order.push_back("id3v1" + suffix); pieces[order.back()] = f.tail; }
    } else {
      auto is = [&](const std::string &x) { return x != name && after.count(x); };
      for (std::size_t i = 0; is("id3v2" + std::to_string(i) + suffix); ++i) order.push_back("id3v2" + std::to_string(i) + suffix);
      order.push_back("track" + suffix);
      if (is("id3v1" + suffix)) order.push_back("id3v1" + suffix);
    }
    bool clash = whole && std::count(order.begin(), order.end(), name);
    CHECK(after[name] == all, "input", "the file split has changed: " << after[name].size() << " bytes instead of " << all.size());
    CHECK(after["other"] == before["other"], "other", "another file has changed");
    ctx.checked(2);
    if (r.status) {
      CHECK(!whole || clash || room != ROOM, "refused", "ended with status " << r.status << ": " << r.err);
      ctx.label(clash ? "split:clash" : "split:refused");
      if (clash) ctx.nontrivial(hash(all));
      return;
    }
    CHECK(!clash, "clash", "the file split has the name of one of the pieces, but it's said to have succeeded");
    if (whole) {
      for (auto &kv: pieces) {
        CHECK(after.count(kv.first), "piece", "no " << vt::show(kv.first));
        CHECK(after[kv.first] == kv.second, "piece", vt::show(kv.first) << " is " << vt::show(after[kv.first]) << ", expected " << vt::show(kv.second));
        ctx.checked();
      }
      CHECK_EQ(after.size(), before.size() + pieces.size(), "stray", "number of files afterwards");
      if (pieces.size() > 1) ctx.nontrivial(hash(all));
    }
    bytes cat;
    for (auto &x: order) app(cat, after[x]);
    CHECK(cat == all, "sum", "the pieces don't add up to the file: " << cat.size() << " bytes instead of " << all.size());
    ctx.checked();
    ctx.label(whole ? "split:" + std::to_string(pieces.size()) : "split:damaged");
  }

  // --- playlists

  struct song {
    std::string key;
    bytes all;
    std::set<long> secs;
    std::set<std::string> titles;
    bool any = false; // of which we don't know the title
  };

  std::string one_line(std::string t)
  {
    for (auto &c: t) if (c == '\n' || c == '\r') c = ' ';
    return t;
  }

  enum senc { S_NONE, S_L1, S_1252, S_U8 };

  /// `text', as stored in an ID3v1 tag, or in an ID3v2 frame as though it were ISO-8859-1
  bool read_as(const bytes &b, senc e, std::string &out)
  {
    ustr u;
    switch (e) {
    case S_L1: u = ref::from_latin1(b); break;
    case S_1252: if (!from1252(b, u)) return false; break;
    default: if (!ref::from_utf8(S(b), u)) return false; break;
    }
    if (u.size() && u[0] == 0xfeff) u.erase(0, 1);
    out = decoded(u);
    return true;
  }

  song a_song(source &s, context &ctx, const std::string &dir, std::size_t i, senc e)
  {
    song g;
    static const std::vector<std::string> DIRS { "", "sub/", "sub/deep/" };
    std::string stem = s.pick<std::string>({ "a", "b c", "\xc3\xa9t\xc3\xa9", "x.y", "#1" }) + std::to_string(i);
    g.key = DIRS[s.weighted({ 4, 2, 1 })] + stem + ".mp3";
    bool known = false;
    std::size_t n = s.weighted({ 2, 4, 1 });
    for (std::size_t k = 0; k < n; ++k) {
      ref::tag t;
      t.ver = s.range(2, 4);
      std::vector<fdesc> fs;
      std::optional<std::string> a, b;
      auto put = [&](const char *id2, const char *id, std::optional<std::string> &o) {
        fdesc d;
        d.k = kind::text;
        d.id = t.ver == 2 ? id2 : id;
        d.enc = s.below(t.ver == 4 ? 4 : 2);
        d.be = d.enc == 1 && s.flip();
        d.text = words(s, d.enc == 0 ? LATIN1 : t.ver == 4 ? FULL : BMP, 40);
        if (s.chance(1, 12)) d.text += s.pick<ustr>({ U"\nx", U"\r\n#EXTINF:3,y", U"\r" });
        o = decoded(d.text);
        if (e != S_NONE) {
          bytes raw;
          ref::latin1(d.text, raw);
          std::string x;
          // the encoding given stands for whatever the tag says; never mind the others
          if (d.enc != 0 || !read_as(raw, e, x)) g.any = true; else o = x;
        }
        if (d.enc == 3 && e == S_U8) { o = decoded(d.text); }
        fs.push_back(d);
      };
      if (s.chance(3, 4)) put("TP1", "TPE1", a);
      if (s.chance(3, 4)) put("TT2", "TIT2", b);
      if (s.flip()) std::reverse(fs.begin(), fs.end());
      t.unsync = s.chance(1, 4);
      t.padding = s.chance(1, 4) ? s.below(100) : 0;
      for (auto &d: fs) {
        if (t.ver == 4) d.unsync = t.unsync;
        t.frames.push_back(to_ref(t.ver, d));
      }
      NOTE(ctx, "song " << i << ", tag " << k << ": " << ref::show(t));
      app(g.all, ref::encode(t));
      if (a && b) {
        bool full = a->size() && b->size();
        if (!known && full) { known = true; g.titles.insert(one_line(*a + " - " + *b)); }
        else if (!known) g.any = true; // empty in the first tag that has them
      }
    }
    // the track
    mpeg::frame m = mpeg::any_frame(s);
    mpeg::vbr v;
    if (s.chance(1, 3)) v = mpeg::any_vbr(s);
    std::size_t nf = s.chance(1, 10) ? 60 + s.below(200) : s.range(1, 30);
    double first = m.secs(), sum = 0;
    std::string junk;
    for (std::size_t k = 0; k < nf; ++k) {
      if (k) { m.pad = s.flip(); m.rate = s.range(1, 14); }
      app(g.all, mpeg::encode(s, m, k ? nullptr : &v));
      sum += m.secs();
      if (s.chance(1, 200)) break;
    }
    auto secs = [&](double x) { g.secs.insert(std::lround(x)); g.secs.insert(std::lround(x - 1e-6)); g.secs.insert(std::lround(x + 1e-6)); };
    if (v.counts()) secs(first * v.frames);
    else {
      secs(sum);
      if (v.kind == mpeg::vbr::xing) { if (v.flags & 1) secs(first * v.frames); secs(sum - first); }
    }
    if (s.chance(1, 2)) {
      ref::v1 t;
      t.enh = s.chance(1, 4);
      t.v11 = s.flip();
      std::size_t w = t.enh ? 90 : 30;
      v1form form = (v1form) s.weighted({ 4, 2, 3 });
      t.title = v1field(s, w, form);
      t.artist = v1field(s, w, form);
      t.album = bytes(w, 0);
      t.year = bytes(4, 0);
      t.comment = bytes(t.v11 ? 28 : 30, 0);
      t.track = t.v11 ? 1 : 0;
      if (t.enh) { t.egenre = bytes(30, 0); t.start = t.end = bytes(6, 0); }
      NOTE(ctx, "song " << i << ": ID3v1 " << ref::show(t));
      app(g.all, ref::encode(t));
      if (!known) {
        std::string a, b;
        if (read_as(t.artist, e == S_NONE ? S_U8 : e, a) && read_as(t.title, e == S_NONE ? S_U8 : e, b)) {
          if (a.size() && b.size()) { known = true; g.titles.insert(one_line(a + " - " + b)); }
        } else {
          for (auto p: { &t.artist, &t.title }) for (auto c: *p) if (c >= 0xf5) g.any = true;
        }
      }
    }
    if (!known) g.titles.insert(stem);
    NOTE(ctx, "song " << i << ": " << vt::show(g.key) << ", " << g.all.size() << " bytes, VBR header " << v.show() << ", " << *g.secs.begin() << " s" << (g.any ? "" : ", " + vt::show(*g.titles.begin())));
    spew(dir + "/" + g.key, g.all);
    return g;
  }

  void lists(source &s, context &ctx)
  {
    std::string d = fresh(ctx);
    open_dir(d + "/sub");
    open_dir(d + "/sub/deep");
    senc e = (senc) s.weighted({ 3, 1, 1, 1 });
    std::vector<song> songs;
    for (std::size_t i = 0, n = 1 + s.small(4); i < n; ++i) songs.push_back(a_song(s, ctx, d, i, e));

    args a { "m3u" };
    if (e != S_NONE) {
      std::string n = std::vector<std::string> { "", "ISO-8859-1", "CP1252", "UTF-8" }[e];
      if (s.flip()) { a.push_back("-s"); a.push_back(n); } else a.push_back("--source-encoding=" + n);
    }
    if (s.chance(1, 6)) a.push_back("--on-encoding-failure=fail");
    bool out = s.chance(1, 2), append = out && s.chance(1, 2), exists = out && s.chance(1, 2);
    std::string pl = "list.m3u", old;
    if (out) {
      if (s.flip()) { a.push_back("-o"); a.push_back("../" + pl); } else a.push_back("--output=../" + pl);
      if (append) a.push_back(s.flip() ? "-a" : "--append");
      if (s.chance(1, 3)) a.push_back(s.flip() ? "-8" : "--use-utf8");
      if (exists) old = s.pick<std::string>({ "#EXTM3U\n#EXTINF:3,old\nold.mp3\n", "", "x.mp3\n" });
      open_dir(ctx.scratch + "/d");
    }
    if (s.chance(1, 6)) a.push_back(s.flip() ? "-v" : "--verbose");
    // the arguments: for each, what's to come of it
    std::vector<std::pair<std::string, std::vector<std::pair<std::string, song*>>>> want;
    auto walk = [&](const std::string &top, const std::string &rel) {
      std::vector<std::pair<std::string, song*>> v;
      for (auto &g: songs) if (0 == g.key.compare(0, rel.size(), rel)) v.push_back({ (fs::path(top) / g.key.substr(rel.size())).string(), &g });
      want.push_back({ top, v });
    };
    for (std::size_t k = 0, n = 1 + s.small(4); k < n; ++k) {
      switch (s.weighted({ 5, 1, 1, 1 })) {
      case 0: {
        song &g = songs[s.below(songs.size())];
        std::string p = s.pick<std::string>({ "", "./", d + "/" }) + g.key;
        want.push_back({ p, { { p, &g } } });
        break;
      }
      case 1: walk(".", ""); break;
      case 2: walk(d, ""); break;
      default: walk(s.pick<std::string>({ "sub", "sub/" }), "sub/"); break;
      }
    }
    for (auto &w: want) a.push_back(w.first);
    // the playlist lives next to the songs' directory
    if (chmod(ctx.scratch.c_str(), 0777)) std::perror("chmod");
    std::string plp = ctx.scratch + "/" + pl;
    unlink(plp.c_str());
    if (exists) { spew(plp, B(old)); if (chmod(plp.c_str(), 0666)) std::perror("chmod"); }
    disk before = files(d);
    NOTE(ctx, "before:" << show(before) << (exists ? "; playlist " + vt::show(old) : ""));
    NOTE(ctx, "run: " << cli::show(a));
    std::size_t room = out ? some_room(s, ctx, 200) : ROOM;
    proc_result r = run(ctx, d, a, {}, room);
    CHECK(cli::orderly(r), "crash", "ended with " << (r.signalled ? "signal " : "status ") << r.status << ": " << r.err);
    if (room != ROOM && r.status) {
      CHECK(files(d) == before, "changed", "files have changed");
      bytes b;
      if (append && exists) CHECK(slurp(plp, b) && 0 == S(b).compare(0, old.size(), old), "append", "the playlist there was isn't at the front: " << vt::show(b));
      unlink(plp.c_str());
      ctx.checked(2);
      return;
    }
    CHECK_EQ(r.status, 0, "refused", "status (" << r.err << ")");
    CHECK(files(d) == before, "changed", "files have changed");
    std::string got = r.out;
    if (out) {
      CHECK(r.out.empty(), "output", "written to standard output: " << r.out);
      bytes b;
      CHECK(slurp(plp, b), "output", "there's no playlist");
      got = S(b);
      unlink(plp.c_str());
      if (append && exists) {
        CHECK(0 == got.compare(0, old.size(), old), "append", "the playlist there was isn't at the front: " << vt::show(got));
        got.erase(0, old.size());
      }
      static const std::string HEAD = "#EXTM3U\n";
      bool head = 0 == got.compare(0, HEAD.size(), HEAD);
      if (!append) CHECK(head, "header", "no header: " << vt::show(got));
      if (append && old.size()) CHECK(!head, "header", "a header amid the playlist: " << vt::show(old + got));
      if (head) got.erase(0, HEAD.size());
      ctx.checked(2);
    }
    // two lines for each
    std::vector<std::string> lines;
    {
      std::istringstream is(got);
      std::string l;
      while (std::getline(is, l)) lines.push_back(l);
    }
    CHECK(got.empty() || got.back() == '\n', "lines", "the last line isn't finished: " << vt::show(got));
    std::size_t at = 0, total = 0;
    for (auto &w: want) total += w.second.size();
    CHECK_EQ(lines.size(), 2 * total, "lines", "number of lines of " << vt::show(got));
    for (auto &w: want) {
      std::multimap<std::string, song*> left(w.second.begin(), w.second.end());
      for (std::size_t k = 0; k < w.second.size(); ++k, at += 2) {
        auto p = left.find(lines[at + 1]);
        CHECK(p != left.end(), "path", vt::show(lines[at + 1]) << " isn't to be listed there; " << vt::show(got));
        song &g = *p->second;
        left.erase(p);
        const std::string &l = lines[at];
        std::size_t comma = l.find(',');
        CHECK(0 == l.compare(0, 8, "#EXTINF:") && comma != std::string::npos, "entry", vt::show(l) << " isn't an entry");
        std::string secs = l.substr(8, comma - 8), title = l.substr(comma + 1);
        bool ok = false;
        for (auto x: g.secs) ok |= std::to_string(x) == secs;
        CHECK(ok, "duration", vt::show(lines[at + 1]) << " lasts " << *g.secs.begin() << " s, not " << secs);
        if (!g.any) CHECK(g.titles.count(one_line(title)), "title", vt::show(lines[at + 1]) << " is called " << vt::show(title) << ", expected " << vt::show(*g.titles.begin()));
        else ctx.label("m3u:unclear");
        ctx.checked(3);
        if (!g.any && title.find(" - ") != std::string::npos) ctx.label("m3u:title");
      }
    }
    ctx.label(out ? append ? "m3u:append" : "m3u:file" : "m3u:stdout");
    if (total > 1) ctx.nontrivial(hash(got));
  }

  // --- command lines which make no sense

  void misuses(source &s, context &ctx)
  {
    std::string d = fresh(ctx);
    for (std::size_t i = 0, n = 1 + s.below(2); i < n; ++i) tbt::make(s, ctx, d + "/", i);
    auto before = snapshot(d);
    std::vector<std::string> names;
    for (auto &kv: before) names.push_back(kv.first);
    struct known { std::string name; std::vector<args> fine, wrong; };
    static const std::vector<known> COMMANDS {
      { "rename", { { "-v" }, { "-r" }, { "--template=%A" }, { "-o", "." } },
        { { "--template" }, { "-t" }, { "--output" }, { "-o" }, { "--template=%A", "--template=%T" }, { "--rename=maybe" } } },
      { "split", { { "--suffix=x" }, { "-s", "y" } },
        { { "--suffix" }, { "-s" }, { "--suffix=x", "-s", "y" }, { "one", "two" } } },
      { "m3u", { { "-v" }, { "-8" }, { "-o", "list" }, { "-a" } },
        { { "--output" }, { "-o" }, { "--source-encoding=KLINGON" }, { "--on-encoding-failure=cry" }, { "-s" }, { "-e" }, { "--output=x", "-o", "y" } } },
    };
    const known &k = s.pick(COMMANDS);
    args a { k.name };
    if (s.flip()) for (auto &x: s.pick(k.fine)) a.push_back(x);
    std::size_t kind = s.below(3);
    if (kind != 0) a.push_back(s.pick(names));
    switch (kind) {
    case 0: break; // no files
    case 1: a.insert(a.begin() + 1 + (s.flip() ? a.size() - 1 : 0), s.pick<std::string>({ "--xyzzy", "--xyzzy=1", "-Z", "-=" })); break;
    default: for (auto &x: s.pick(k.wrong)) a.push_back(x); break;
    }
    NOTE(ctx, "run: " << cli::show(a));
    proc_result r = run(ctx, d, a, { });
    CHECK(cli::orderly(r), "crash", "ended with " << (r.signalled ? "signal " : "status ") << r.status << ": " << r.err);
    // values that don't exist are noticed at different points
    if (kind == 2 && a.back().find('=') != std::string::npos && r.status == 1) ;
    else CHECK_EQ(r.status, 2, "usage", "exit status of a command line which makes no sense (" << r.err << ")");
    CHECK(!r.err.empty(), "usage", "nothing is said");
    CHECK(snapshot(d) == before, "usage", "files have changed");
    ctx.checked(3);
    ctx.label(k.name + ":misused");
    std::string all;
    for (auto &x: a) all += x + " ";
    ctx.nontrivial(std::hash<std::string>()(all));
  }
}

int main(int argc, char **argv)
{
  return vt::run(argc, argv, spec {
    "P16",
    "a file was moved or copied, or a dry run made; a file was split in several pieces, or bore the name of one of them; a playlist had several entries; a command line was refused",
    10000, 400000,
    { { "rename", 3, renames }, { "split", 2, splits }, { "m3u", 2, lists }, { "usage", 1, misuses } },
    { "files are written by nobody else meanwhile",
      "files with damaged tags, collisions, existing targets & missing directories may stop a renaming, but nothing may be lost",
      "expansions that lead out of the directory aren't generated; the program runs without privileges",
      "in which order a directory is read isn't said",
      "what -s means for text whose encoding the tag states isn't said" }
  });
}
