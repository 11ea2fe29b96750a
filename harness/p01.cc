/* P01 -- ID3v2 tags survive being written & read back.
 *
 * Build a tag through the public interface from a generated description,
 * write it, read it & compare what can be observed of both to the
 * description. */
#include "gen.hh"

#include <scribbu/id3v2-utils.hh>

using namespace vt;
using namespace gen;
using scribbu::id3v2_tag;

namespace {

  template <int V> std::unique_ptr<typename lib<V>::tag>
  make(source &s, context &ctx, std::vector<view> &want, std::uint64_t &h)
  {
    typedef typename lib<V>::tag T;
    std::unique_ptr<T> p;
    std::size_t pad = s.chance(1, 2) ? s.small(700) : 0;
    bool exp = s.chance(1, 4);
    if constexpr (V == 3) {
      typedef typename T::want_extended_header W;
      int w = s.weighted({ 3, 1, 1 });
      p.reset(new T(pad, exp, w == 0 ? W::none : w == 1 ? W::present : W::with_crc));
      NOTE(ctx, "extended header: " << w);
      if (w) ctx.label("ext-header");
    } else {
      p.reset(new T(pad, exp));
    }
    if (V == 2) exp = false;
    NOTE(ctx, "version 2." << V << ", padding " << pad << ", experimental " << exp);
    h = mix(h + pad * 3 + exp);
    if (s.chance(1, 8)) {
      pad = s.small(300);
      p->padding(pad);
      NOTE(ctx, "padding set to " << pad);
    }
    std::size_t n = s.small(6) + (s.chance(7, 8) ? 1 : 0);
    fopts o;
    if (s.chance(1, 12)) { o.max_text = 400; o.max_data = 600; }
    o.big = 120;
    o.v24_unsync = true;
    o.multi = true;
    o.empty_opaque = false;
    std::set<unsigned char> methods;
    for (std::size_t i = 0; i < n; ++i) {
      fdesc d = gen::frame(s, V, o);
      if (d.k == kind::encr && !methods.insert(d.num).second) continue;
      bool vals = s.chance(1, 3), generic = s.chance(1, 3), ins = s.chance(1, 6);
      std::unique_ptr<typename lib<V>::frame> pf;
      if (vals) {
        // A text with an embedded NUL can't be given as one text
        if (d.text.find(U'\0') == ustr::npos) pf = from_values<V>(d);
        vals = bool(pf);
      }
      if (!pf) pf = from_bytes<V>(d);
      NOTE(ctx, (vals ? "values " : "bytes ") << (generic ? "generic " : "typed ") << (ins ? "insert " : "push ") << gen::show(d));
      ctx.label(d.id == "TXXX" || d.id == "TXX" ? "utext" : d.k == kind::text ? "text" : d.k == kind::opaque ? "opaque" : d.id);
      if (d.compressed) ctx.label("compressed");
      view v = expect(V, d, !vals);
      if (d.text.find(U'\0') != ustr::npos) {
        for (auto q = v.fields.begin(); q != v.fields.end(); ) q = q->first == "text" ? v.fields.erase(q) : q + 1;
      }
      if (ins) {
        std::size_t at = s.below(want.size() + 1);
        gen::insert<V>(*p, p->cbegin() + at, *pf, generic);
        want.insert(want.begin() + at, v);
      } else {
        push<V>(*p, *pf, generic);
        want.push_back(v);
      }
      h = hash(v.str(), h);
    }
    view hd;
    hd.add("version", std::to_string(V));
    hd.add("padding", std::to_string(pad));
    hd.add("experimental", exp ? "1" : "0");
    want.insert(want.begin(), hd);
    return p;
  }

  template <int V> void compare(const typename lib<V>::tag &t, const std::vector<view> &want, const char *when, context &ctx)
  {
    view hd;
    hd.add("version", std::to_string((unsigned) t.version()));
    hd.add("padding", std::to_string(t.padding()));
    if constexpr (V == 2) hd.add("experimental", "0");
    else hd.add("experimental", (t.flags() & 0x20) ? "1" : "0");
    std::string why;
    CHECK(agrees(hd, want[0], why), std::string(when) + "-header", when << ": tag's " << why);
    std::vector<view> got = look_all<V>(t);
    CHECK(got.size() == want.size() - 1 && t.num_frames() == want.size() - 1, std::string(when) + "-count",
          when << ": " << got.size() << " frames (num_frames " << t.num_frames() << "), expected " << want.size() - 1);
    for (std::size_t i = 0; i < got.size(); ++i) {
      CHECK(agrees(got[i], want[i+1], why), std::string(when) + "-frame", when << ": frame " << i << "'s " << why << "\n  frame as seen: " << got[i].str());
    }
    ctx.checked(got.size() + 1);
  }

  template <int V> void trip(source &s, context &ctx)
  {
    typedef typename lib<V>::tag T;
    std::vector<view> want;
    std::uint64_t h = V;
    bool unsync = s.flip();
    auto p = make<V>(s, ctx, want, h);
    NOTE(ctx, "write with unsync=" << unsync);
    compare<V>(*p, want, "built", ctx);

    std::size_t n;
    bytes b = written<V>(*p, unsync, &n);
    NOTE(ctx, "serialised: " << show(b));
    if (want.size() > 1) ctx.nontrivial(mix(h * 2 + unsync));
    if (ref::false_syncs(b)) ctx.label("false-syncs-left");
    if (unsync) ctx.label("unsync");

    ref::tag rt;
    std::size_t used;
    std::string err;
    CHECK(ref::decode(b, 0, rt, used, err), "decode", "what was written isn't a tag: " << err);
    CHECK_EQ(rt.frames.size(), want.size() - 1, "decode-count", "number of frames written");
    if (rt.sum) CHECK_EQ(*rt.crc, *rt.sum, "crc", "CRC in the extended header");

    // something must follow; a reader which overruns will see it
    bytes tail = s.blob_upto(20);
    bytes all = b; app(all, tail);
    std::istringstream is(S(all));
    int how = s.below(3);
    std::unique_ptr<id3v2_tag> q;
    if (how == 0) q.reset(new T(is));
    else if (how == 1) q = scribbu::maybe_read_id3v2(is);
    else q = scribbu::read_id3v2(is, 0);
    CHECK(q, "read-none", "the tag written was not recognised (method " << how << ")");
    T *pt = dynamic_cast<T*>(q.get());
    CHECK(pt, "read-version", "the tag read has version " << (unsigned) q->version());
    compare<V>(*pt, want, "reread", ctx);
    if (how != 2) CHECK_EQ((long) is.tellg(), (long) b.size(), "read-position", "stream position after reading the tag");

    // And again: what was read can be written either way
    bool u2 = s.flip();
    bytes b2 = written<V>(*pt, u2);
    NOTE(ctx, "written again with unsync=" << u2 << ": " << show(b2));
    std::istringstream is2(S(b2));
    T t2(is2);
    compare<V>(t2, want, "rereread", ctx);
    if (u2 == unsync) CHECK_EQ(b2, b, "stable", "serialisation of the tag read");
  }
}

int main(int argc, char **argv)
{
  return run(argc, argv, spec {
      "P01", "the tag has at least one frame; distinct by tag & unsynchronisation",
      150000, 4000000,
      { { "v2.2", 1, trip<2> }, { "v2.3", 1, trip<3> }, { "v2.4", 1, trip<4> } },
      { "no encrypted frames (the library does not implement encryption)", "frames up to 2 MB (most far smaller)",
        "a v2.4 frame's own unsynchronisation flag follows the way it is written, so isn't compared",
        "text is free of NULs, except that v2.4 texts may hold two values, of which the raw bytes are compared" },
    });
}
