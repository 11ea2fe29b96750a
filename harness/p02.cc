/* P02 -- conformant ID3v2 tags are read as the standards say.
 *
 * The reference codec lays out a tag from a generated description; the
 * library reads it, & what it reports is compared to the description.  Then
 * the library writes it & the reference decoder reads that. */
#include "gen.hh"

#include <scribbu/id3v2-utils.hh>

using namespace vt;
using namespace gen;
using scribbu::id3v2_tag;

namespace {

  template <int V> std::unique_ptr<id3v2_tag> read(std::istream &is, int how)
  {
    typedef typename lib<V>::tag T;
    switch (how) {
    case 0: return std::unique_ptr<id3v2_tag>(new T(is));
    case 1: return scribbu::maybe_read_id3v2(is);
    case 2: return scribbu::read_id3v2(is, 0);
    case 3: {
      scribbu::id3v2_info H = scribbu::looking_at_id3v2(is, false);
      CHECK(H.present_ && H.version_ == V, "probe", "looking_at_id3v2() doesn't see the tag");
      return std::unique_ptr<id3v2_tag>(new T(is, H));
    }
    default: {
      std::vector<std::unique_ptr<id3v2_tag>> v;
      scribbu::read_all_id3v2(is, std::back_inserter(v));
      CHECK_EQ(v.size(), std::size_t(1), "read-all", "number of tags found");
      return std::move(v[0]);
    }
    }
  }

  template <int V> void conforms(source &s, context &ctx)
  {
    typedef typename lib<V>::tag T;
    fopts o;
    o.big = 300;
    if (s.chance(1, 12)) { o.max_text = 400; o.max_data = 600; }
    o.multi = true;
    o.empty_opaque = false;
    std::vector<fdesc> fs;
    ref::tag r = reftag(s, V, fs, 6, o);
    if (r.padding && s.chance(1, 10)) r.padding += s.pick({ 127u, 1000u, 4096u, 20000u });
    if (V == 3 && r.ext) r.ext_padding = r.padding;
    for (std::size_t i = 0; i < fs.size(); ++i) {
      fdesc &d = fs[i];
      if ((d.k == kind::text || d.k == kind::comment || d.k == kind::utext) && s.chance(1, 8)) {
        d.text.push_back(0); // texts may be terminated
        ctx.label("terminated");
      }
      if (V == 4 && !r.unsync && s.chance(1, 4)) {
        d.unsync = true; // frames may be unsynchronised individually
        ctx.label("frame-unsync");
      }
      r.frames[i] = to_ref(V, d);
    }
    bytes b = ref::encode(r);
    NOTE(ctx, "tag: " << ref::show(r));
    for (auto &d: fs) NOTE(ctx, "  " << gen::show(d));
    NOTE(ctx, "image: " << show(b));
    if (fs.size()) ctx.nontrivial(hash(b));
    if (r.unsync) ctx.label("unsync");
    if (r.ext) ctx.label("ext-header");
    if (r.footer) ctx.label("footer");
    for (auto &d: fs) {
      if (d.compressed) ctx.label("compressed");
      if (d.gid) ctx.label("grouped");
    }

    int how = s.below(5);
    bytes pre = how == 2 || how == 4 ? bytes() : s.blob_upto(10), tail = s.blob_upto(20);
    if (tail.size() && tail[0] == 'I') tail[0] = 'J';
    bytes all = pre; app(all, b); app(all, tail);
    std::istringstream is(S(all));
    is.seekg(pre.size());
    std::unique_ptr<id3v2_tag> q = read<V>(is, how);
    CHECK(q, "none", "the tag was not recognised");
    T *p = dynamic_cast<T*>(q.get());
    CHECK(p, "version", "the tag read has version " << (unsigned) q->version());
    if (how != 2) CHECK_EQ((std::size_t) is.tellg(), pre.size() + b.size(), "position", "stream position after reading");
    CHECK_EQ((unsigned) p->version(), (unsigned) V, "version-number", "version");
    CHECK_EQ((unsigned) p->revision(), 0u, "revision", "revision");
    CHECK(p->unsynchronised(), "unsynchronised", "unsynchronised() isn't known");
    CHECK_EQ(p->unsynchronised().value_or(false), r.unsync, "unsynchronised", "unsynchronised()");
    CHECK_EQ((unsigned) p->flags(), (unsigned) b[5], "flags", "flags()");
    CHECK_EQ(p->padding(), r.padding, "padding", "padding");
    CHECK_EQ(p->num_frames(), fs.size(), "count", "number of frames");
    std::vector<view> got = look_all<V>(*p);
    CHECK_EQ(got.size(), fs.size(), "enumerated", "number of frames enumerated");
    std::string why;
    for (std::size_t i = 0; i < fs.size(); ++i) {
      view v = expect(V, fs[i], true, true);
      if (fs[i].text.find(U'\0') != ustr::npos && fs[i].text.find(U'\0') + 1 != fs[i].text.size()) {
        // several values: only the bytes are compared
        for (auto x = v.fields.begin(); x != v.fields.end(); ) x = x->first == "text" ? v.fields.erase(x) : x + 1;
      }
      CHECK(agrees(got[i], v, why), "frame", "frame " << i << "'s " << why << "\n  frame as seen: " << got[i].str());
    }
    ctx.checked(fs.size() + 7);

    bool u2 = s.flip();
    bytes w = written<V>(*p, u2);
    NOTE(ctx, "written with unsync=" << u2 << ": " << show(w));
    ref::tag r2;
    std::size_t used; std::string err;
    CHECK(ref::decode(w, 0, r2, used, err), "rewrite-decode", "the tag written again isn't one: " << err);
    CHECK_EQ(used, w.size(), "rewrite-extent", "length of the tag written again");
    CHECK_EQ(r2.ver, V, "rewrite-version", "version of the tag written again");
    CHECK_EQ(r2.unsync, u2, "rewrite-unsync", "unsynchronisation of the tag written again");
    CHECK_EQ(r2.experimental, r.experimental, "rewrite-experimental", "experimental flag of the tag written again");
    CHECK_EQ(r2.ext, r.ext, "rewrite-ext", "has the tag written again an extended header");
    CHECK_EQ(r2.crc.has_value(), r.crc.has_value(), "rewrite-crc", "has the tag written again a CRC");
    if (r2.sum) {
      CHECK_EQ(*r2.crc, *r2.sum, "rewrite-crc-value", "CRC of the tag written again");
      ctx.label("crc");
    }
    CHECK_EQ(r2.update, r.update, "rewrite-update", "is the tag written again an update");
    CHECK_EQ(r2.restrictions ? int(*r2.restrictions) : -1, r.restrictions ? int(*r.restrictions) : -1, "rewrite-restrictions", "restrictions of the tag written again");
    CHECK_EQ(r2.footer, r.footer, "rewrite-footer", "has the tag written again a footer");
    CHECK_EQ(r2.padding, r.padding, "rewrite-padding", "padding of the tag written again");
    CHECK_EQ(r2.frames.size(), r.frames.size(), "rewrite-count", "frames of the tag written again");
    for (std::size_t i = 0; i < r.frames.size(); ++i) {
      r2.frames[i].unsync = r.frames[i].unsync;
      CHECK_EQ(r2.frames[i], r.frames[i], "rewrite-frame", "frame " << i << " of the tag written again");
    }
    if (V == 3 && r2.ext) CHECK_EQ(r2.ext_padding, (std::uint32_t) r2.padding, "rewrite-ext-padding", "padding recorded in the extended header");
    ctx.checked(r.frames.size() + 12);
  }
}

int main(int argc, char **argv)
{
  return run(argc, argv, spec {
      "P02", "the tag has at least one frame; distinct by image",
      150000, 4000000,
      { { "v2.2", 1, conforms<2> }, { "v2.3", 1, conforms<3> }, { "v2.4", 1, conforms<4> } },
      { "no encrypted frames (the library does not implement encryption)",
        "the CRC in an extended header is arbitrary on reading; after rewriting it has to be right, unless a v2.4 tag is unsynchronised",
        "of v2.4 texts with several values only the bytes are compared" },
    });
}
