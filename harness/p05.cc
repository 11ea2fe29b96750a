/* P05 -- replacing the ID3v2 tags of a file touches nothing else. */
#include "files.hh"
#include "trouble.hh"

#include <scribbu/id3v2-utils.hh>
#include <scribbu/tagset.hh>

#include <signal.h>
#include <sys/resource.h>

using namespace vt;
using namespace gen;
using scribbu::apply_unsync;

/// The library asks for names of temporary files; keep those in sight
extern "C" char* tmpnam(char *p) noexcept
{
  static char own[L_tmpnam];
  static unsigned n = 0;
  if (!p) p = own;
  snprintf(p, L_tmpnam, "%s/%u", tempdir::current().c_str(), n++ % 1000);
  return p;
}

namespace {

  struct tagset {
    std::vector<anytag> tags;
    std::vector<scribbu::id3v2_tag*> ps;
    bytes image(apply_unsync au) const
    {
      bytes b;
      for (auto &t: tags) {
        bool u = au == apply_unsync::always || (au == apply_unsync::as_needed && t.p->needs_unsynchronisation());
        app(b, written(*t.p, u));
      }
      return b;
    }
  };

  tagset draw(source &s, context &ctx)
  {
    tagset x;
    std::size_t n = s.weighted({ 1, 5, 2, 1 });
    for (std::size_t i = 0; i < n; ++i) {
      x.tags.push_back(any_tag(s));
      x.ps.push_back(x.tags.back().p.get());
      NOTE(ctx, "new tag: " << x.tags.back().what);
    }
    return x;
  }

  const char *MODES[] = { "always", "never", "as needed" };

  void neighbours(source &s, const place &at, context &ctx)
  {
    std::size_t n = s.small(5);
    for (std::size_t i = 0; i < n; ++i) {
      static const std::vector<std::string> SUF { ".1", ".2", ".9", ".10", ".01", ".", ".x", ".2x", "x.3", ".99999999999", ".2147483647", ".2147483648", ".4294967295", ".20260131235959", ".18446744073709551616", ".0", ".12", ".1.1", "1" };
      std::string k = at.name + s.pick(SUF);
      if (s.chance(1, 6)) k = "other" + k;
      NOTE(ctx, "another file: " << show(k));
      if (fs::exists(at.dir + "/" + k)) continue;
      if (s.chance(1, 12)) fs::create_directories(at.dir + "/" + k);
      else spew(at.dir + "/" + k, B("another " + k));
    }
  }

  /// The suffix a backup is to get; 0 if not settled by the documentation
  std::uint64_t next_suffix(const place &at)
  {
    std::uint64_t max = 0;
    for (auto &e: fs::directory_iterator(at.dir)) {
      std::string k = e.path().filename().string();
      if (k.compare(0, at.name.size() + 1, at.name + ".") || k.size() == at.name.size() + 1) continue;
      std::string d = k.substr(at.name.size() + 1);
      if (d.find_first_not_of("0123456789") != std::string::npos) continue;
      if (d.size() > 6) return 0;
      max = std::max<std::uint64_t>(max, std::stoul(d));
    }
    return max + 1;
  }

  void expect_after(const std::map<std::string, bytes> &before, const place &at, const bytes &want, bool backup, std::uint64_t suffix)
  {
    auto after = snapshot(at.dir);
    CHECK(after.count(at.name), "gone", "the file is gone");
    CHECK(after[at.name] == want, "contents", "the file has " << after[at.name].size() << " bytes " << show(after[at.name]) << "\n  rather than "
          << want.size() << " " << show(want));
    std::vector<std::string> fresh;
    for (auto &kv: after) if (!before.count(kv.first)) fresh.push_back(kv.first);
    for (auto &kv: before) {
      if (kv.first == at.name) continue;
      CHECK(after.count(kv.first), "other-gone", "another file is gone: " << show(kv.first));
      CHECK(after[kv.first] == kv.second, "other-changed", "another file was changed: " << show(kv.first));
    }
    if (!backup) {
      CHECK(fresh.empty(), "stray", "stray file left: " << show(fresh[0]));
      return;
    }
    CHECK_EQ(fresh.size(), std::size_t(1), "backups", "number of new files");
    CHECK(after[fresh[0]] == before.at(at.name), "backup", "the backup " << show(fresh[0]) << " isn't the file as it was");
    CHECK(fresh[0].compare(0, at.name.size() + 1, at.name + ".") == 0 && fresh[0].size() > at.name.size() + 1 &&
          fresh[0].find_first_not_of("0123456789", at.name.size() + 1) == std::string::npos, "backup-form", "the backup is named " << show(fresh[0]));
    if (suffix) CHECK_EQ(fresh[0], at.name + "." + std::to_string(suffix), "backup-name", "the backup's name");
  }

  void copies(source &s, context &ctx)
  {
    place at(s, ctx);
    trackfile f = track_file(s, ctx);
    spew(at.file(), f.all());
    neighbours(s, at, ctx);
    tempdir tmp(ctx, s.chance(1, 6));
    std::size_t n = s.weighted({ 4, 1, 1 }) + 1;
    std::uint64_t h = hash(S(f.lead), f.audio.size());
    for (std::size_t i = 0; i < n; ++i) {
      tagset t = draw(s, ctx);
      apply_unsync au = s.pick({ apply_unsync::always, apply_unsync::never, apply_unsync::as_needed });
      bool backup = s.flip();
      NOTE(ctx, "replace, unsynchronisation " << MODES[(int) au] << ", backup " << backup << (tmp.other ? ", temporary files elsewhere" : ""));
      auto before = snapshot(at.dir);
      std::uint64_t suffix = next_suffix(at);
      bytes want = t.image(au);
      app(want, f.rest());
      scribbu::replace_tagset_copy(fs::path(at.path), t.ps.begin(), t.ps.end(), au, backup);
      expect_after(before, at, want, backup, suffix);
      CHECK_EQ(tmp.files(), std::size_t(0), "stray-temp", "temporary files left");
      ctx.checked(4 + before.size());
      h = hash(S(want), h);
      ctx.label(backup ? "backup" : "no-backup");
      if (tmp.other) ctx.label("other-file-system");
      if (t.ps.empty()) ctx.label("all-tags-removed");
      // Which is to say that the audio is where the tags end
      CHECK_EQ(scribbu::tagset_size(fs::path(at.path)), t.image(au).size(), "tagset-size", "the size of the tagset written");
    }
    if (f.audio.size() && f.lead.size()) ctx.nontrivial(h);
  }

  /// Running out of space anywhere leaves the original
  void faults(source &s, context &ctx)
  {
    place at(s, ctx);
    trackfile f = track_file(s, ctx);
    bool missing = s.chance(1, 10);
    if (!missing) spew(at.file(), f.all());
    neighbours(s, at, ctx);
    tempdir tmp(ctx, s.chance(1, 4));
    tagset t = draw(s, ctx);
    apply_unsync au = s.pick({ apply_unsync::always, apply_unsync::never, apply_unsync::as_needed });
    bool backup = s.flip();
    bytes want = t.image(au);
    app(want, f.rest());
    std::size_t limit = s.below(std::max(want.size(), f.all().size()) + 2);
    NOTE(ctx, "replace, unsynchronisation " << MODES[(int) au] << ", backup " << backup << (tmp.other ? ", temporary files elsewhere" : "")
         << ", no file may exceed " << limit << " bytes" << (missing ? ", there is no such file" : ""));
    auto before = snapshot(at.dir);
    std::uint64_t suffix = next_suffix(at);
    char cwd[4096];
    if (!getcwd(cwd, sizeof cwd)) throw std::runtime_error("getcwd");
    proc_result r = in_child(cwd, ctx.scratch + "/io", [&]() {
      signal(SIGXFSZ, SIG_IGN);
      struct rlimit rl = { limit, limit };
      setrlimit(RLIMIT_FSIZE, &rl);
      try {
        scribbu::replace_tagset_copy(fs::path(at.path), t.ps.begin(), t.ps.end(), au, backup);
        return 0;
      } catch (const std::exception &) {
        return 3;
      }
    });
    CHECK(!r.signalled && (r.status == 0 || r.status == 3), "fault-crash", "the operation ended with " << (r.signalled ? "signal " : "status ") << r.status << ": " << r.err);
    if (r.status == 0) {
      CHECK(!missing, "missing", "tags of a file which doesn't exist were replaced");
      expect_after(before, at, want, backup, suffix);
      ctx.label("fault-survived");
    } else {
      auto after = snapshot(at.dir);
      for (auto &kv: before) {
        CHECK(after.count(kv.first), "fault-gone", "after a failure a file is gone: " << show(kv.first));
        CHECK(after[kv.first] == kv.second, "fault-changed", "after a failure a file was changed: " << show(kv.first));
      }
      CHECK(limit < std::max(want.size(), f.all().size()) || missing, "fault-spurious", "the operation failed, though nothing was wrong");
      ctx.label(missing ? "missing-file" : "fault");
      if (f.audio.size()) ctx.nontrivial(hash(S(want), limit));
      ctx.checked(before.size() + 1);
    }
    CHECK_EQ(tmp.files(), std::size_t(0), "fault-stray-temp", "temporary files left");
  }

  /// Any one call of the operating system may fail
  void troubles(source &s, context &ctx)
  {
    place at(s, ctx);
    trackfile f = track_file(s, ctx);
    spew(at.file(), f.all());
    neighbours(s, at, ctx);
    tempdir tmp(ctx, s.flip());
    tagset t = draw(s, ctx);
    apply_unsync au = s.pick({ apply_unsync::always, apply_unsync::never, apply_unsync::as_needed });
    bool backup = s.flip();
    bytes want = t.image(au);
    app(want, f.rest());
    trouble::plan plan = trouble::draw(s);
    NOTE(ctx, "replace, unsynchronisation " << MODES[(int) au] << ", backup " << backup << (tmp.other ? ", temporary files elsewhere" : "")
         << ", call " << plan.at << " fails" << (plan.partial ? " halfway" : "") << " with " << strerror(plan.err) << (plan.lasting ? ", as do all later ones" : ""));
    auto before = snapshot(at.dir);
    std::uint64_t suffix = next_suffix(at);
    char cwd[4096];
    if (!getcwd(cwd, sizeof cwd)) throw std::runtime_error("getcwd");
    proc_result r = in_child(cwd, ctx.scratch + "/io", [&]() {
      int rc = 0;
      trouble::arm(plan);
      try {
        scribbu::replace_tagset_copy(fs::path(at.path), t.ps.begin(), t.ps.end(), au, backup);
      } catch (const std::exception &) {
        rc = 3;
      }
      trouble::disarm();
      return rc;
    });
    trouble::disarm();
    trouble::plan now = trouble::current();
    NOTE(ctx, (now.struck ? std::string("struck ") + now.what : "nothing struck") << ", " << (r.status ? "failed" : "succeeded"));
    CHECK(!r.signalled && (r.status == 0 || r.status == 3), "trouble-crash", "the operation ended with " << (r.signalled ? "signal " : "status ") << r.status << ": " << r.err);
    if (r.status == 0) {
      expect_after(before, at, want, backup, suffix);
      ctx.label("trouble-survived");
    } else {
      CHECK(now.struck, "trouble-spurious", "the operation failed, though nothing was wrong");
      auto after = snapshot(at.dir);
      bool kept = false;
      for (auto &kv: after) kept = kept || kv.second == before[at.name];
      CHECK(kept, "trouble-lost", "after a failure of " << now.what << " nothing has the original contents");
      for (auto &kv: before) {
        // With no space left there may be none to put the file back
        if (plan.lasting && kv.first == at.name) continue;
        CHECK(after.count(kv.first), "trouble-gone", "after a failure of " << now.what << " a file is gone: " << show(kv.first));
        CHECK(after[kv.first] == kv.second, "trouble-changed", "after a failure of " << now.what << " a file was changed: " << show(kv.first));
      }
      ctx.label(std::string("trouble-") + now.what);
      if (f.audio.size()) ctx.nontrivial(hash(S(want), mix(plan.at) + plan.partial));
      ctx.checked(before.size() + 1);
    }
    if (!now.removal) CHECK_EQ(tmp.files(), std::size_t(0), "trouble-stray-temp", "temporary files left");
  }

  void names(source &s, context &ctx)
  {
    place at(s, ctx);
    spew(at.file(), B("x"));
    neighbours(s, at, ctx);
    std::uint64_t suffix = next_suffix(at);
    std::size_t n = s.below(4) + 1;
    for (std::size_t i = 0; i < n; ++i) {
      fs::path p = scribbu::detail::get_backup_name(fs::path(at.path));
      CHECK(!fs::exists(p), "name-exists", "the name " << p << " is already taken");
      CHECK(fs::equivalent(p.parent_path().empty() ? fs::path(".") : p.parent_path(), at.dir), "name-dir", "the backup " << p << " would be elsewhere");
      if (suffix) CHECK_EQ(p.filename().string(), at.name + "." + std::to_string(suffix + i), "name", "the backup's name");
      spew(p.string(), B("backup"));
      ctx.checked(3);
    }
    ctx.nontrivial(hash(at.path, mix(suffix) + n));
  }
}

int main(int argc, char **argv)
{
  return run(argc, argv, spec {
      "P05", "the file had ID3v2 tags & audio before; for injected faults: the operation failed on a file with audio; distinct by old tags, new contents & limit",
      60000, 1000000,
      { { "copy", 6, copies }, { "fault", 2, faults }, { "trouble", 2, troubles }, { "name", 1, names } },
      { "writing tags to a stream is settled by P01 to P04", "faults are failures to extend a file (RLIMIT_FSIZE) & missing files; an unfinished backup may remain after a fault",
        "nobody else works on the directory meanwhile" },
    });
}
