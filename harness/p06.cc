/* P06 -- writing tags in place never moves or damages the audio. */
#include "files.hh"

#include <scribbu/id3v2-utils.hh>
#include <scribbu/tagset.hh>

using namespace vt;
using namespace gen;
using scribbu::apply_unsync;
using scribbu::emplace_strategy;
using scribbu::padding_strategy;

extern "C" char* tmpnam(char *p) noexcept
{
  static char own[L_tmpnam];
  static unsigned n = 0;
  if (!p) p = own;
  snprintf(p, L_tmpnam, "%s/%u", tempdir::current().c_str(), n++ % 1000);
  return p;
}

namespace {

  bool unsync(apply_unsync au, const scribbu::id3v2_tag &t)
  { return au == apply_unsync::always || (au == apply_unsync::as_needed && t.needs_unsynchronisation()); }

  struct tagset {
    std::vector<anytag> tags;
    std::vector<scribbu::id3v2_tag*> ps;
    void add(anytag t) { ps.push_back(t.p.get()); tags.push_back(std::move(t)); }
    bytes image(apply_unsync au) const
    {
      bytes b;
      for (auto &t: tags) app(b, written(*t.p, unsync(au, *t.p)));
      return b;
    }
    /// Does the size grow by as much as the padding does?
    bool linear(apply_unsync au) const
    {
      if (au == apply_unsync::never) return true;
      for (auto &t: tags) if (t.odd) return false;
      return true;
    }
    std::vector<std::string> content() const
    {
      std::vector<std::string> v;
      for (auto &t: tags) v.push_back(t.content());
      return v;
    }
    std::vector<std::size_t> paddings() const
    {
      std::vector<std::size_t> v;
      for (auto &t: tags) v.push_back(t.p->padding());
      return v;
    }
    std::size_t padding() const
    {
      std::size_t n = 0;
      for (auto x: paddings()) n += x;
      return n;
    }
  };

  const char *MODES[] = { "always", "never", "as needed" };

  tagset draw(source &s, context &ctx, std::size_t least)
  {
    tagset x;
    std::size_t n = std::max<std::size_t>(least, s.weighted({ 1, 4, 4, 2, 1 }));
    std::size_t maxpad = s.pick({ 3, 30, 300, 700 });
    for (std::size_t i = 0; i < n; ++i) {
      x.add(any_tag(s, 2, maxpad));
      NOTE(ctx, "tag: " << x.tags.back().what);
    }
    return x;
  }

  /// Some bytes of ID3v2 tags with a given size altogether
  bytes lead_of(source &s, std::size_t cb)
  {
    bytes b;
    while (cb >= 10) {
      std::size_t n = cb;
      if (cb >= 40 && s.chance(1, 3)) n = 10 + s.below(cb - 20 - 10);
      if (cb - n && cb - n < 10) n = cb;
      ref::tag t;
      t.ver = s.range(2, 4);
      t.padding = n - 10;
      app(b, ref::encode(t));
      cb -= n;
    }
    return b;
  }

  /// The padding alone
  void adjust(source &s, context &ctx)
  {
    tagset t = draw(s, ctx, 1);
    apply_unsync au = s.pick({ apply_unsync::always, apply_unsync::never, apply_unsync::as_needed });
    std::size_t was = t.image(au).size(), pad = t.padding();
    std::size_t to = s.chance(1, 2) ? was + s.below(1000) : was - std::min(was, s.below(pad + 3));
    NOTE(ctx, "adjust from " << was << " to " << to << " bytes, unsynchronisation " << MODES[(int) au]);
    auto content = t.content();
    auto before = t.paddings();
    bool ok = true;
    try {
      scribbu::adjust_padding_to(t.ps.begin(), t.ps.end(), to, was, padding_strategy::adjust_padding_evenly);
    } catch (const scribbu::invalid_tagset_request &) {
      ok = false;
    }
    CHECK_EQ(ok, to + pad >= was, "adjust-possible", "the padding was adjusted (" << pad << " bytes of padding in all)");
    CHECK(content == t.content(), "adjust-content", "adjusting padding changed a tag otherwise");
    if (!ok) {
      CHECK_EQ(t.paddings(), before, "adjust-refused", "padding after a refused adjustment");
      ctx.label("refused");
      ctx.checked(3);
      return;
    }
    CHECK_EQ(t.padding(), pad + to - was, "adjust-sum", "the padding altogether");
    if (t.linear(au)) CHECK_EQ(t.image(au).size(), to, "adjust-size", "the size written");
    if (before.size() > 1 && to > was) {
      // evenly, up to rounding
      auto after = t.paddings();
      std::size_t share = (to - was) / before.size();
      for (std::size_t i = 0; i < before.size(); ++i) {
        CHECK(after[i] >= before[i] + share && after[i] < before[i] + share + before.size(), "adjust-evenly", "tag " << i << "'s padding went from "
              << before[i] << " to " << after[i] << ", where each ought to get " << share << " or a few more");
      }
    }
    if (to != was) ctx.nontrivial(mix(was * 31 + to) + hash(show(before), au == apply_unsync::always));
    ctx.label(to > was ? "grown" : "shrunk");
    ctx.checked(4);
  }

  void emplace(source &s, context &ctx)
  {
    place at(s, ctx, false);
    tempdir tmp(ctx, false);
    tagset t = draw(s, ctx, 0);
    apply_unsync au = s.pick({ apply_unsync::always, apply_unsync::never, apply_unsync::as_needed });
    emplace_strategy es = s.flip() ? emplace_strategy::only_with_full_padding : emplace_strategy::reduce_padding_evenly;
    bool backup = s.flip();
    std::size_t sz = t.image(au).size(), pad = t.padding();
    // The interesting old sizes lie about the new size, with & without padding
    std::size_t old = 0;
    switch (s.weighted({ 3, 3, 3, 1, 2 })) {
    case 0: old = sz + s.below(600); break;
    case 1: old = sz + s.below(5); old -= std::min(old, s.below(5)); break;
    case 2: old = sz - pad + s.below(5); old -= std::min(old, s.below(5)); break;
    case 3: old = 0; break;
    default: old = sz - pad + s.below(pad + 1);
    }
    trackfile f = track_file(s, ctx, 0);
    f.lead = lead_of(s, old);
    old = f.lead.size();
    bool exists = !s.chance(1, 12);
    if (exists) spew(at.file(), f.all()); else old = 0;
    auto before = snapshot(at.dir);
    auto content = t.content();
    auto paddings = t.paddings();
    bytes image = t.image(au);
    NOTE(ctx, "old tags take " << old << " bytes, new ones " << sz << " with " << pad << " bytes of padding; unsynchronisation " << MODES[(int) au]
         << (es == emplace_strategy::only_with_full_padding ? "; only with full padding" : "; reduce padding") << "; backup " << backup << (exists ? "" : "; no file yet"));
    bool inplace = exists && !t.ps.empty() && (sz <= old || (es == emplace_strategy::reduce_padding_evenly && sz - pad <= old));
    scribbu::maybe_emplace_tagset(fs::path(at.path), t.ps.begin(), t.ps.end(), au, es, padding_strategy::adjust_padding_evenly, backup);
    CHECK(content == t.content(), "content", "writing changed a tag");
    auto after = snapshot(at.dir);
    bytes now = after[at.name];
    std::size_t fresh = 0;
    std::string name;
    for (auto &kv: after) if (kv.first != at.name && !before.count(kv.first)) { ++fresh; name = kv.first; }
    CHECK_EQ(tmp.files(), std::size_t(0), "stray-temp", "temporary files left");
    if (inplace && !t.linear(au) && now.size() != f.all().size()) {
      // May have been copied, if no padding will do
      inplace = false;
      ctx.label("can't-fit");
    }
    if (inplace) {
      CHECK_EQ(now.size(), f.all().size(), "length", "the file's length");
      bytes rest(now.begin() + old, now.end());
      CHECK(rest == f.rest(), "audio", "the audio was changed");
      bytes lead(now.begin(), now.begin() + old);
      CHECK_EQ(t.padding(), pad + old - sz, "padding", "the padding altogether");
      bytes want = t.image(au);
      CHECK(lead == want, "lead", "the file starts " << show(lead) << "\n  rather than " << show(want));
      CHECK_EQ(fresh, std::size_t(0), "inplace-files", "number of other files made");
      ctx.label(sz == old ? "exact" : sz < old ? "padding-grown" : "padding-reduced");
      if (f.audio.size()) ctx.nontrivial(hash(S(want), old));
    } else {
      bytes want = image;
      if (exists) app(want, f.rest());
      CHECK(now == want, "copied", "the file has " << now.size() << " bytes " << show(now) << "\n  rather than " << want.size() << " " << show(want));
      CHECK_EQ(t.paddings(), paddings, "copied-padding", "padding after copying");
      CHECK_EQ(fresh, std::size_t(exists && backup ? 1 : 0), "copied-files", "number of other files made");
      if (fresh) CHECK(after[name] == f.all(), "copied-backup", "the backup isn't the file as it was");
      ctx.label(exists ? "copied" : "created");
      if (f.audio.size() && exists) ctx.nontrivial(hash(S(want), old));
    }
    ctx.checked(6);
  }

  /// The primitive operation insists on equal sizes
  void exact(source &s, context &ctx)
  {
    place at(s, ctx, false);
    tagset t = draw(s, ctx, 1);
    apply_unsync au = s.pick({ apply_unsync::always, apply_unsync::never, apply_unsync::as_needed });
    std::size_t sz = t.image(au).size(), old = sz;
    if (s.chance(1, 3)) { old += s.below(20); old -= std::min(old, s.below(20)); }
    trackfile f = track_file(s, ctx, 0);
    f.lead = lead_of(s, old);
    old = f.lead.size();
    if (old == 0 && f.rest().empty()) return;
    spew(at.file(), f.all());
    NOTE(ctx, "old tags take " << old << " bytes, new ones " << sz << "; unsynchronisation " << MODES[(int) au]);
    auto content = t.content();
    auto paddings = t.paddings();
    CHECK_EQ(scribbu::tagset_size(fs::path(at.path)), old, "tagset-size", "tagset_size()");
    bool ok = true;
    try {
      scribbu::replace_tagset_emplace(fs::path(at.path), t.ps.begin(), t.ps.end(), au);
    } catch (const scribbu::invalid_tagset_request &) {
      ok = false;
    }
    CHECK_EQ(ok, old == sz, "exact-done", "the tags were written in place");
    CHECK(content == t.content(), "exact-content", "writing changed a tag");
    CHECK_EQ(t.paddings(), paddings, "exact-padding", "the padding");
    bytes want = ok ? t.image(au) : f.lead;
    app(want, f.rest());
    CHECK(slurp(at.file()) == want, "exact-file", "the file isn't as it should be " << (ok ? "after writing" : "when refusing to write"));
    ctx.label(ok ? "exact-written" : "exact-refused");
    if (f.audio.size()) ctx.nontrivial(hash(S(want), ok));
    ctx.checked(5);
  }
}

int main(int argc, char **argv)
{
  return run(argc, argv, spec {
      "P06", "the padding had to change (adjust), or the file had audio (emplace, exact); distinct by sizes & contents",
      200000, 3000000,
      { { "adjust", 3, adjust }, { "emplace", 6, emplace }, { "exact", 2, exact } },
      { "an unsynchronised ID3v2.2 tag ending in ff, or ID3v2.3 tag with an extended header, may be copied where it could have been written in place",
        "writing tags to a stream is settled by P01 to P04; replacing by copying, by P05" },
    });
}
