/* P04 -- unsynchronisation removes every false sync & is reversible. */
#include "gen.hh"
#include "edits.hh"

#include <scribbu/id3v2-utils.hh>

using namespace vt;
using namespace gen;

namespace {

  bytes noisy(source &s)
  {
    bytes b = s.blob_upto(s.chance(1, 20) ? 3000 : 60);
    // sprinkle some patterns
    std::size_t n = s.below(4);
    for (std::size_t i = 0; i < n; ++i) {
      static const std::vector<bytes> P { { 0xff, 0xe0 }, { 0xff, 0x00 }, { 0xff, 0xff }, { 0xff }, { 0xff, 0xdf }, { 0xff, 0xff, 0xe0 }, { 0xff, 0x00, 0xe0 }, { 0xff, 0x00, 0x00 } };
      const bytes &x = s.pick(P);
      b.insert(b.begin() + s.below(b.size() + 1), x.begin(), x.end());
    }
    return b;
  }

  void buffers(source &s, context &ctx)
  {
    namespace D = scribbu::detail;
    bytes b = noisy(s);
    bool last = s.flip();
    NOTE(ctx, "buffer " << show(b) << ", last=" << last);
    std::size_t fs = ref::false_syncs(b), ch = ref::changed(b);
    if (fs || ch || (b.size() && b.back() == 0xff)) ctx.nontrivial(hash(b) + last);

    bytes out;
    std::size_t n = D::unsynchronise(std::back_inserter(out), b.begin(), b.end(), last);
    NOTE(ctx, "unsynchronised " << show(out));
    CHECK_EQ(n, out.size(), "returned", "unsynchronise()'s return value");
    CHECK_EQ(ref::false_syncs(out), std::size_t(0), "false-syncs", "false syncs left by unsynchronise()");
    if (last) CHECK(out.empty() || out.back() != 0xff, "trailing", "unsynchronise() leaves a trailing ff");
    CHECK_EQ(out, ref::unsync(b, last), "scheme", "result of unsynchronise()");

    bytes in = out;
    in.push_back(0xa5); // must not be touched
    std::size_t m = scribbu::resynchronise(in.data(), out.size());
    CHECK(m <= out.size(), "resync-size", "resynchronise() returned " << m);
    CHECK_EQ(bytes(in.begin(), in.begin() + m), b, "inverse", "resynchronise(unsynchronise(...))");
    CHECK_EQ(in.back(), (unsigned char) 0xa5, "resync-overrun", "byte past the buffer");

    // Resynchronising what was never unsynchronised drops zeroes after ffs
    bytes c = b;
    m = scribbu::resynchronise(c.data(), c.size());
    CHECK_EQ(bytes(c.begin(), c.begin() + m), ref::resync(b), "resync", "resynchronise()");

    CHECK_EQ(D::count_syncs(b.begin(), b.end(), true), fs, "count-false", "count_syncs(..., true)");
    CHECK_EQ(D::count_syncs(b.begin(), b.end(), false), ch, "count-all", "count_syncs(..., false)");
    if (b.size() > 1) {
      unsigned char x = b[0], y = b[1];
      CHECK_EQ(D::is_false_sync(x, y), x == 0xff && y >= 0xe0, "is-false-sync", "is_false_sync(" << (int) x << ", " << (int) y << ")");
      CHECK_EQ(D::needs_unsync(x, y), x == 0xff && (y >= 0xe0 || y == 0), "needs-unsync", "needs_unsync(" << (int) x << ", " << (int) y << ")");
    }
    ctx.checked(8);

    // Sync-safe integers
    std::uint64_t v = s.edgy(30);
    unsigned char buf[5] = { 0, 0, 0, 0, 0xa5 };
    bool ok = true;
    try { D::sync_safe_from_unsigned(v, buf); } catch (const std::invalid_argument &) { ok = false; }
    CHECK_EQ(ok, v < (1u << 28), "ss-range", "sync_safe_from_unsigned(" << v << ") accepted");
    if (ok) {
      CHECK(!((buf[0] | buf[1] | buf[2] | buf[3]) & 0x80), "ss-bits", "sync_safe_from_unsigned(" << v << ") = " << hex(buf, 4));
      CHECK_EQ(D::unsigned_from_sync_safe(buf[0], buf[1], buf[2], buf[3]), v, "ss-inverse", "sync-safe " << hex(buf, 4));
      CHECK_EQ(D::uint32_from_sync_safe(buf[0], buf[1], buf[2], buf[3]), v, "ss-inverse32", "sync-safe " << hex(buf, 4));
      CHECK_EQ(bytes(buf, buf + 4), ref::put_ss(v), "ss-form", "sync-safe form of " << v);
    }
    std::uint64_t w = s.edgy(32);
    bytes five = ref::put_ss(w, 5);
    CHECK_EQ(D::uint32_from_sync_safe(five[0], five[1], five[2], five[3], five[4]), w, "ss5", "five octet sync-safe " << show(five));
    CHECK_EQ(D::unsigned_from_sync_safe(five[0], five[1], five[2], five[3], five[4]), w, "ss5u", "five octet sync-safe " << show(five));
    bytes four = ref::put_be(w, 4);
    CHECK_EQ(D::uint32_from_non_sync_safe(four[0], four[1], four[2], four[3]), w, "be4", "big-endian " << show(four));
    CHECK_EQ(D::unsigned_from_non_sync_safe(four[0], four[1], four[2], four[3]), w, "be4u", "big-endian " << show(four));
    CHECK_EQ(D::unsigned_from_non_sync_safe(four[1], four[2], four[3]), w & 0xffffff, "be3", "big-endian " << show(four));
    CHECK_EQ(D::unsigned_from_sync_safe(five[2], five[3], five[4]), w & 0x1fffff, "ss3", "three octet sync-safe " << show(five));
    ctx.checked(10);
  }

  template <typename M, typename F> void mixin(const F &f, context &ctx)
  {
    const M *m = dynamic_cast<const M*>(&f);
    if (!m) return;
    std::ostringstream os;
    m->write(os);
    bytes b = B(os.str());
    CHECK_EQ(m->needs_unsynchronisation(), ref::false_syncs(b), "mixin-needs", "needs_unsynchronisation() of the body of " << f.id().as_string() << " " << show(b));
    ctx.checked();
  }

  template <int V> bytes fwritten(const typename lib<V>::frame &f, bool unsync)
  {
    std::ostringstream os;
    f.write(os, unsync);
    return B(os.str());
  }

  template <int V> void judge(const typename lib<V>::tag &t, context &ctx, std::uint64_t h)
  {
    bool any = false;
    for (const typename lib<V>::frame &f: t) {
      bytes p = fwritten<V>(f, false), u = fwritten<V>(f, true);
      std::size_t n = ref::false_syncs(p);
      any = any || n || ref::changed(p);
      CHECK_EQ(f.needs_unsynchronisation() != 0, n != 0, "frame-needs", "needs_unsynchronisation() of frame " << show(p));
      CHECK_EQ(f.needs_unsynchronisation(), n, "frame-count", "needs_unsynchronisation() of frame " << show(p));
      bool ff = V != 2 && p.back() == 0xff;
      CHECK_EQ(f.needs_unsynchronisation(true), n + ff, "frame-last", "needs_unsynchronisation(last) of frame " << show(p));
      CHECK_EQ(ref::false_syncs(u), std::size_t(0), "frame-false-syncs", "false syncs left in frame " << show(p) << " once unsynchronised " << show(u));
      if (V != 4) {
        CHECK_EQ(u, ref::unsync(p, false), "frame-scheme", "unsynchronised frame " << show(p));
      } else {
        // the header's sync-safe; the rest follows the scheme
        bytes pb(p.begin() + 10, p.end()), ub(u.begin() + 10, u.end());
        CHECK_EQ(ref::resync(ub), pb, "frame-inverse", "undoing the unsynchronisation of frame " << show(p));
        CHECK_EQ(std::size_t(u[7] | (u[6] << 7) | (u[5] << 14) | (u[4] << 21)), ub.size(), "frame-header", "size in the header of unsynchronised frame " << show(u));
      }
      mixin<scribbu::unique_file_id>(f, ctx);
      mixin<scribbu::encryption_method>(f, ctx);
      mixin<scribbu::user_defined_text>(f, ctx);
      mixin<scribbu::comments>(f, ctx);
      mixin<scribbu::play_count>(f, ctx);
      mixin<scribbu::popularimeter>(f, ctx);
      mixin<scribbu::tag_cloud>(f, ctx);
      mixin<scribbu::private_frame>(f, ctx);
      ctx.checked(6);
    }

    bool needs = t.needs_unsynchronisation();
    bytes p = written<V>(t, false);
    bytes u = written<V>(t, true);
    NOTE(ctx, "  needs_unsynchronisation: " << needs << "\n  plain: " << show(p) << "\n  unsynchronised: " << show(u));
    CHECK_EQ((p[5] & 0x80) != 0, false, "bit-plain", "unsynchronisation flag of the plain tag");
    CHECK_EQ((u[5] & 0x80) != 0, true, "bit", "unsynchronisation flag of the unsynchronised tag");
    bytes pb(p.begin() + 10, p.end()), ub(u.begin() + 10, u.end());
    if (t.num_frames() && (any || ref::false_syncs(pb) || pb.back() == 0xff)) ctx.nontrivial(h);
    CHECK_EQ(ref::false_syncs(ub), std::size_t(0), "false-syncs", "false syncs in the unsynchronised tag");
    if (V == 3) CHECK(ub.empty() || ub.back() != 0xff, "trailing", "the unsynchronised tag ends in ff");
    if (V != 4) CHECK_EQ(ref::resync(ub), pb, "inverse", "undoing the unsynchronisation of the tag");
    ref::tag rp, ru;
    std::size_t used; std::string err;
    CHECK(ref::decode(p, 0, rp, used, err) && used == p.size(), "decode-plain", "plain tag: " << err);
    CHECK(ref::decode(u, 0, ru, used, err) && used == u.size(), "decode", "unsynchronised tag: " << err);
    CHECK(rp.padding == ru.padding, "same-padding", "padding differs");
    CHECK_EQ(rp.frames.size(), ru.frames.size(), "same-count", "number of frames");
    for (std::size_t i = 0; i < rp.frames.size(); ++i) {
      rp.frames[i].unsync = ru.frames[i].unsync;
      CHECK_EQ(ru.frames[i], rp.frames[i], "same-frame", "frame " << i << " written with unsynchronisation");
    }

    bool must = ref::false_syncs(pb), trailing = false;
    const typename lib<V>::frame *last = nullptr;
    for (const typename lib<V>::frame &f: t) last = &f;
    if (last) trailing = V != 2 && fwritten<V>(*last, false).back() == 0xff;
    if (must) CHECK(needs, "needs", "a tag with false syncs doesn't need unsynchronisation");
    if (trailing && t.padding() == 0) CHECK(needs, "needs-trailing", "a tag ending in ff doesn't need unsynchronisation");
    if (!must && !trailing) CHECK(!needs, "needs-not", "a tag without false syncs needs unsynchronisation");
    ctx.label(must ? "false-syncs" : trailing ? "trailing-ff" : "clean");
    ctx.checked(12);
  }

  template <int V> void tags(source &s, context &ctx)
  {
    typedef typename lib<V>::tag T;
    std::unique_ptr<T> p;
    fopts o;
    o.big = 2000;
    o.v24_unsync = true;
    o.multi = true;
    std::uint64_t h = V;
    if (s.chance(1, 3)) {
      std::vector<fdesc> fs;
      ref::tag r = reftag(s, V, fs, 4, o);
      bytes b = ref::encode(r);
      NOTE(ctx, "read " << ref::show(r));
      std::istringstream is(S(b));
      p.reset(new T(is));
      CHECK(p->unsynchronised() && *p->unsynchronised() == r.unsync, "noted-read", "tag read with unsynchronisation=" << r.unsync << " says otherwise");
      h = hash(b, h);
    } else {
      std::size_t pad = s.chance(1, 2) ? s.small(40) : 0;
      bool exp = s.chance(1, 4);
      if constexpr (V == 3) {
        typedef typename T::want_extended_header W;
        int w = s.weighted({ 2, 1, 1 });
        p.reset(new T(pad, exp, w == 0 ? W::none : w == 1 ? W::present : W::with_crc));
        NOTE(ctx, "new tag, padding " << pad << ", extended header " << w);
      } else {
        p.reset(new T(pad, exp));
        NOTE(ctx, "new tag, padding " << pad);
      }
    }
    std::size_t n = s.small(6);
    for (std::size_t i = 0; i < n; ++i) {
      std::string w = edit<V>(s, *p, o);
      NOTE(ctx, w);
      h = hash(w, h);
      if (i + 1 == n || s.flip()) judge<V>(*p, ctx, h);
    }
    if (!n) judge<V>(*p, ctx, h);
  }
}

int main(int argc, char **argv)
{
  return run(argc, argv, spec {
      "P04", "the bytes contain a pattern the scheme changes (or end in ff); distinct by bytes or history",
      600000, 10000000,
      { { "buffers", 2, buffers }, { "v2.2", 1, tags<2> }, { "v2.3", 1, tags<3> }, { "v2.4", 1, tags<4> } },
      { "for a tag that has no false sync but whose last frame ends in ff, the answer to needs_unsynchronisation() "
        "is only checked for ID3v2.3 & 2.4 tags without padding" },
    });
}
