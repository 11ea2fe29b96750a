/* P03 -- reported sizes are the bytes written.
 *
 * Histories of edits, measurements & writes; after each step everything the
 * library says about sizes is compared to what it writes. */
#include "gen.hh"
#include "edits.hh"

#include <scribbu/id3v2-utils.hh>

using namespace vt;
using namespace gen;

namespace {

  std::uint64_t ss(const unsigned char *p)
  { return ((std::uint64_t) p[0] << 21) | (p[1] << 14) | (p[2] << 7) | p[3]; }

  /// The mix-ins describe their part of the frame on their own
  template <typename M, typename F> void mixin(const F &f, context &ctx)
  {
    const M *m = dynamic_cast<const M*>(&f);
    if (!m) return;
    std::ostringstream os;
    std::size_t n = m->write(os);
    bytes b = B(os.str());
    CHECK_EQ(n, b.size(), "mixin-written", "bytes the frame's body says it wrote");
    CHECK_EQ(m->size(), b.size(), "mixin-size", "size of the frame's body");
    CHECK_EQ(m->serialized_size(false), b.size(), "mixin-serialized", "serialized_size(false) of the frame's body " << show(b));
    CHECK_EQ(m->serialized_size(true), ref::unsync(b, false).size(), "mixin-serialized-unsync", "serialized_size(true) of the frame's body " << show(b));
    ctx.checked(4);
  }

  template <int V> void measure(const typename lib<V>::tag &t, bool unsync, bool first_size, context &ctx)
  {
    std::size_t before = first_size ? t.size_on_disk(unsync) : 0, size = first_size ? t.size(unsync) : 0;
    std::size_t ret;
    bytes b = written<V>(t, unsync, &ret);
    if (!first_size) { before = t.size_on_disk(unsync); size = t.size(unsync); }
    NOTE(ctx, "  unsync=" << unsync << ": size " << size << ", on disk " << before << ", wrote " << ret << ": " << show(b));
    std::string u = unsync ? "-unsync" : "";
    CHECK_EQ(ret, b.size(), "returned" + u, "number of bytes write() said it wrote");
    CHECK(b.size() >= 10, "short", "no header was written");
    bool footer = V == 4 && (b[5] & 0x10);
    std::size_t extra = footer ? 20 : 10;
    CHECK_EQ(before, b.size(), "on-disk" + u, "size_on_disk()");
    CHECK_EQ(ss(&b[6]) + extra, b.size(), "header" + u, "size in the header, plus header & footer");
    if (V == 4 && t.padding() && size == b.size() - extra + t.padding()) {
      FAILK("size-padding-twice", "size() counts the padding twice: got " << size << ", expected " << b.size() - extra);
    }
    CHECK_EQ(size, b.size() - extra, "size" + u, "size()");

    ref::tag r;
    std::size_t used;
    std::string err;
    bytes all = b; all.push_back('x');
    CHECK(ref::decode(all, 0, r, used, err), "decode" + u, "what was written isn't a tag: " << err);
    CHECK_EQ(used, b.size(), "extent" + u, "length of the tag written, as a reader sees it");
    CHECK_EQ(r.padding, t.padding(), "padding" + u, "padding written");
    if (r.sum) CHECK_EQ(*r.crc, *r.sum, "crc" + u, "CRC in the extended header");
    if (V == 3 && r.ext) CHECK_EQ(r.ext_padding, (std::uint32_t) r.padding, "ext-padding" + u, "padding recorded in the extended header");
    CHECK_EQ(r.frames.size(), t.num_frames(), "frames" + u, "number of frames written");
    ctx.checked(8);
  }

  template <int V> void frames(const typename lib<V>::tag &t, context &ctx)
  {
    for (const typename lib<V>::frame &f: t) {
      for (int u = 0; u < 2; ++u) {
        std::size_t n = f.serialized_size(u);
        std::ostringstream os;
        std::size_t m = f.write(os, u);
        CHECK_EQ(m, os.str().size(), "frame-returned", "frame " << f.id().as_string() << ": bytes write() said it wrote");
        CHECK_EQ(n, os.str().size(), "frame-serialized", "frame " << f.id().as_string() << ": serialized_size(" << u << ")");
      }
      bool compressed = false;
      if constexpr (V != 2) compressed = f.compressed();
      std::ostringstream os;
      f.write(os, false);
      bytes b = B(os.str());
      ref::tag rt; rt.ver = V;
      // Decode it as the sole frame of a tag
      bytes img = B("ID3"); img.push_back(V); img.push_back(0); img.push_back(0);
      app(img, ref::put_ss(b.size()));
      app(img, b);
      std::size_t used; std::string err;
      CHECK(ref::decode(img, 0, rt, used, err) && rt.frames.size() == 1, "frame-decode", "frame " << f.id().as_string() << " written isn't a frame: " << err << " " << show(b));
      CHECK_EQ(f.size(), rt.frames[0].payload.size(), "frame-size", "frame " << f.id().as_string() << ": size()");
      mixin<scribbu::unique_file_id>(f, ctx);
      mixin<scribbu::encryption_method>(f, ctx);
      mixin<scribbu::user_defined_text>(f, ctx);
      mixin<scribbu::comments>(f, ctx);
      mixin<scribbu::play_count>(f, ctx);
      mixin<scribbu::popularimeter>(f, ctx);
      mixin<scribbu::tag_cloud>(f, ctx);
      mixin<scribbu::private_frame>(f, ctx);
      ctx.checked(6);
    }
  }

  template <int V> void sizes(source &s, context &ctx)
  {
    typedef typename lib<V>::tag T;
    std::unique_ptr<T> p;
    fopts o;
    o.big = 2000;
    o.v24_unsync = true;
    o.multi = true;
    std::uint64_t h = V;
    if (s.chance(1, 3)) {
      std::vector<fdesc> fs;
      ref::tag r = reftag(s, V, fs, 4, o);
      bytes b = ref::encode(r);
      NOTE(ctx, "read " << ref::show(r));
      std::istringstream is(S(b));
      p.reset(new T(is));
      h = hash(b, h);
      if (r.footer) ctx.label("footer");
      if (r.ext) ctx.label("ext-header");
      ctx.label("read");
    } else {
      std::size_t pad = s.chance(1, 2) ? s.small(300) : 0;
      bool exp = s.chance(1, 4);
      if constexpr (V == 3) {
        typedef typename T::want_extended_header W;
        int w = s.weighted({ 2, 1, 1 });
        p.reset(new T(pad, exp, w == 0 ? W::none : w == 1 ? W::present : W::with_crc));
        NOTE(ctx, "new tag, padding " << pad << ", extended header " << w);
        if (w) ctx.label("ext-header");
      } else {
        p.reset(new T(pad, exp));
        NOTE(ctx, "new tag, padding " << pad);
      }
      h = mix(h + pad);
    }
    bool doubled = false;
    std::string dmsg;
    auto look = [&](int how) {
      bool first = how & 4;
      try { if (how & 1) measure<V>(*p, false, first, ctx); }
      catch (const failure &f) { if (f.key != "size-padding-twice") throw; doubled = true; dmsg = f.msg; }
      try { if (how & 2) measure<V>(*p, true, first, ctx); }
      catch (const failure &f) { if (f.key != "size-padding-twice") throw; doubled = true; dmsg = f.msg; }
      frames<V>(*p, ctx);
    };
    look(3 | (s.flip() ? 4 : 0));
    std::size_t n = s.small(12) + 1;
    std::size_t most = p->num_frames();
    for (std::size_t i = 0; i < n; ++i) {
      std::string w = edit<V>(s, *p, o);
      NOTE(ctx, w);
      h = hash(w, h);
      most = std::max(most, p->num_frames());
      look(s.below(8));
      if (s.chance(1, 10)) {
        NOTE(ctx, "copy");
        std::unique_ptr<T> q(new T(*p));
        p = std::move(q);
      }
    }
    look(7);
    if (most) ctx.nontrivial(h);
    if (doubled) FAILK("size-padding-twice", dmsg);
  }
}

int main(int argc, char **argv)
{
  return run(argc, argv, spec {
      "P03", "the tag has at least one frame at some point; distinct by starting tag & history",
      60000, 2000000,
      { { "v2.2", 1, sizes<2> }, { "v2.3", 1, sizes<3> }, { "v2.4", 1, sizes<4> } },
      { "histories of up to 13 edits", "no encrypted frames (the library does not implement encryption)" },
    });
}
