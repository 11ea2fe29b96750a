/* P21 -- all leading tags of a file are found, in order. */
#include "files.hh"

#include <fstream>

#include <scribbu/id3v1.hh>
#include <scribbu/id3v2-utils.hh>
#include <scribbu/tagset.hh>

using namespace vt;
using namespace gen;
using scribbu::id3v2_tag;

namespace {

  typedef std::unique_ptr<id3v2_tag> ptag;

  /// All there is to be seen of a tag
  std::string sight(const id3v2_tag &t)
  {
    std::ostringstream os;
    std::vector<view> v;
    int ver = 0;
    if (auto *p = dynamic_cast<const scribbu::id3v2_2_tag*>(&t)) { ver = 2; v = look_all<2>(*p); }
    else if (auto *p = dynamic_cast<const scribbu::id3v2_3_tag*>(&t)) { ver = 3; v = look_all<3>(*p); }
    else if (auto *p = dynamic_cast<const scribbu::id3v2_4_tag*>(&t)) { ver = 4; v = look_all<4>(*p); }
    os << "2." << ver << " (" << int(t.version()) << "." << int(t.revision()) << ") padding " << t.padding() << " flags " << int(t.flags())
       << " frames " << t.num_frames();
    for (auto &x: v) os << "\n  " << x.str();
    return os.str();
  }

  /// A tag by itself
  std::string alone(const bytes &b, int ver)
  {
    std::istringstream is(S(b));
    switch (ver) {
    case 2: return sight(scribbu::id3v2_2_tag(is));
    case 3: return sight(scribbu::id3v2_3_tag(is));
    default: return sight(scribbu::id3v2_4_tag(is));
    }
  }

  /// A tag by itself, as it would be with no padding but for the amount
  std::string sight2(ref::tag t)
  {
    std::size_t n = t.padding;
    t.padding = 0;
    std::string x = alone(ref::encode(t), t.ver), p = " padding 0 ";
    std::size_t i = x.find(p);
    if (i != std::string::npos) x.replace(i, p.size(), " padding " + std::to_string(n) + " ");
    return x;
  }

  /// Data no one should take for a tag
  bytes lookalike(source &s)
  {
    bytes h { 'I', 'D', '3', (unsigned char) s.range(2, 4), 0, 0, 0, 0, 0, (unsigned char) s.below(30) };
    switch (s.below(6)) {
    case 0: h.resize(s.range(1, 9)); return h; // cut short by the end of the file
    case 1: h[3 + s.below(2)] = 0xff; break;
    case 2: h[6 + s.below(4)] |= 0x80; break;
    case 3: h[s.below(3)] ^= 0x20; break;
    case 4: h[2] = '2'; break;
    default: { // a footer
      h[0] = '3'; h[1] = 'D'; h[2] = 'I'; h[3] = 4;
    }
    }
    app(h, s.blob_upto(40));
    return h;
  }

  void probing(source &s, context &ctx)
  {
    trackfile f;
    std::vector<std::size_t> off { 0 };
    std::vector<std::string> want;
    std::vector<ref::tag> tags;
    std::size_t n = s.weighted({ 2, 3, 4, 3, 1, 1 });
    for (std::size_t i = 0; i < n; ++i) {
      std::vector<fdesc> fds;
      ref::tag t = reftag(s, s.range(2, 4), fds, 3);
      if (s.chance(1, 4) && !t.footer) {
        t.padding = s.below(300);
        if (t.ver == 3 && t.ext) t.ext_padding = t.padding;
      }
      bytes b = ref::encode(t);
      want.push_back(alone(b, t.ver));
      app(f.lead, b);
      off.push_back(f.lead.size());
      tags.push_back(t);
    }
    bool like = s.chance(1, 2);
    if (like) {
      f.audio = lookalike(s);
      ctx.label("lookalike");
    } else if (s.chance(3, 4)) {
      f.audio = audio(s, 200);
    }
    ref::v1 v1;
    bool has1 = false;
    if (s.chance(1, 3) && (!like || f.audio.size() > 9)) {
      v1 = v1tag(s);
      f.tail = ref::encode(v1);
      has1 = true;
    }
    bytes all = f.all();
    if (!has1 && all.size() >= 128 && 0 == std::memcmp(&all[all.size() - 128], "TAG", 3)) throw discard();
    NOTE(ctx, n << " tags, offsets " << show(off) << "; then " << show(f.audio) << (has1 ? " & an ID3v1 tag" : ""));

    std::string path = ctx.scratch + "/f.mp3";
    bool file = s.chance(1, 3);
    std::unique_ptr<std::istream> p;
    if (file) {
      spew(path, all);
      p.reset(new std::ifstream(path, std::ios_base::binary));
      CHECK_EQ(scribbu::tagset_size(path), f.lead.size(), "tagset-size", "tagset_size()");
    } else {
      p.reset(new std::istringstream(S(all)));
    }
    std::istream &is = *p;
    std::ios_base::iostate mask = s.pick({ std::ios_base::goodbit, std::ios_base::badbit, std::ios_base::failbit | std::ios_base::badbit,
                                           std::ios_base::eofbit | std::ios_base::failbit | std::ios_base::badbit });
    is.exceptions(mask);
    NOTE(ctx, "exception mask " << int(mask) << (file ? ", in a file" : ""));

    std::size_t at = 0;
    // the stream's as it ought to be
    auto sane = [&](const char *what) {
      CHECK_EQ(int(is.exceptions()), int(mask), std::string(what) + "/mask", "after " << what << ", the exception mask");
      CHECK_EQ(int(is.rdstate()), 0, std::string(what) + "/state", "after " << what << ", the stream's state");
      CHECK_EQ(long(is.tellg()), long(at), std::string(what) + "/position", "after " << what << ", the get pointer");
      ctx.checked(3);
    };
    // which tag begins at `at', if any
    auto index = [&]() {
      for (std::size_t i = 0; i < n; ++i) if (off[i] == at) return i;
      return n;
    };
    auto same = [&](const id3v2_tag &t, std::size_t i, const char *what) {
      std::string x = sight(t);
      CHECK(x == want[i], what, what << " gives, for tag " << i << ",\n" << x << "\nrather than\n" << want[i]);
      ctx.checked();
    };
    std::size_t read = 0;
    for (std::size_t step = 0, steps = s.range(1, 8); step < steps; ++step) {
      std::size_t i = index();
      switch (s.weighted({ 3, 2, 3, 3, 3, 2, 2, 1 })) {
      case 0: { // elsewhere
        at = s.chance(5, 6) ? off[s.below(n + 1)] : all.size() - s.below(std::min<std::size_t>(all.size(), 12) + 1);
        NOTE(ctx, "seek " << at);
        is.seekg(at);
        // a place within a tag may look like anything
        if (at < f.lead.size() && index() == n) { at = f.lead.size(); is.seekg(at); }
        break;
      }
      case 1:
      case 2: {
        bool restore = s.flip();
        NOTE(ctx, "looking_at_id3v2(" << restore << ")");
        scribbu::id3v2_info h = scribbu::looking_at_id3v2(is, restore);
        CHECK_EQ(h.present_, i < n, "looking", "whether there's a tag at " << at);
        if (i < n) {
          CHECK_EQ(int(h.version_), tags[i].ver, "looking", "version");
          CHECK_EQ(int(h.revision_), int(all[at + 4]), "looking", "revision");
          CHECK_EQ(int(h.flags_), int(all[at + 5]), "looking", "flags");
          CHECK_EQ(std::size_t(h.size_), off[i + 1] - at - (tags[i].footer ? 20 : 10), "looking", "size");
          CHECK_EQ(h.size_on_disk(), off[i + 1] - at, "looking", "size_on_disk()");
          if (!restore) at += 10;
        }
        sane("looking_at_id3v2()");
        if (i < n && !restore) { at = off[i]; is.seekg(at); }
        break;
      }
      case 3: {
        NOTE(ctx, "maybe_read_id3v2()");
        ptag t = scribbu::maybe_read_id3v2(is);
        CHECK_EQ(bool(t), i < n, "maybe-read", "whether there's a tag at " << at);
        if (t) { same(*t, i, "maybe-read"); at = off[i + 1]; ++read; }
        sane("maybe_read_id3v2()");
        break;
      }
      case 4: {
        std::size_t k = s.below(n + 2);
        NOTE(ctx, "read_id3v2(" << k << ")");
        ptag t;
        try {
          t = scribbu::read_id3v2(is, k);
        } catch (const std::exception &e) {
          CHECK(i + k >= n, "read-nth", "read_id3v2() throws \"" << e.what() << "\" for tag " << i + k);
          CHECK_EQ(int(is.exceptions()), int(mask), "read-nth/mask", "after read_id3v2() throws, the exception mask");
          is.clear();
          is.seekg(at);
          ctx.label("no-nth");
          break;
        }
        CHECK(i + k < n, "read-nth", "read_id3v2() gives a tag " << i + k << " where there's none");
        CHECK(bool(t), "read-nth", "read_id3v2() gives no tag");
        same(*t, i + k, "read-nth");
        at = off[i + k + 1];
        sane("read_id3v2()");
        ++read;
        break;
      }
      case 5: {
        NOTE(ctx, "read_all_id3v2()");
        std::vector<ptag> v;
        scribbu::read_all_id3v2(is, std::back_inserter(v));
        CHECK_EQ(v.size(), n - i, "read-all", "number of tags");
        std::size_t sz = 0, pad = 0;
        bool padded4 = false;
        for (std::size_t j = 0; j < v.size(); ++j) {
          same(*v[j], i + j, "read-all");
          sz += v[j]->size_on_disk(false) - 10;
          if (tags[i + j].footer) sz -= 10;
          pad += v[j]->padding();
          padded4 = padded4 || (tags[i + j].ver == 4 && v[j]->padding());
        }
        if (i < n) at = f.lead.size();
        sane("read_all_id3v2()");
        auto tot = scribbu::total_id3v2_size(v.begin(), v.end(), false);
        std::size_t tpad = std::get<1>(tot), tsz = std::get<0>(tot);
        CHECK_EQ(tpad, pad, "total", "total padding");
        if (!padded4) CHECK_EQ(tsz, sz, "total", "total size");
        read += v.size();
        if (v.size() > 1) ctx.label("several");
        break;
      }
      case 6: {
        NOTE(ctx, "ends_in_id3v1()");
        scribbu::id3v1_info x = scribbu::ends_in_id3v1(is);
        CHECK_EQ(x.type_ != scribbu::id3_v1_tag_type::none, has1, "ends", "whether there's an ID3v1 tag");
        if (has1) {
          CHECK_EQ(x.type_ == scribbu::id3_v1_tag_type::v_1_extended, v1.enh, "ends", "whether the ID3v1 tag is extended");
          CHECK_EQ(long(x.start_), long(all.size() - f.tail.size()), "ends", "where the ID3v1 tag starts");
          CHECK_EQ(long(x.end_), long(all.size()), "ends", "where the ID3v1 tag ends");
        }
        sane("ends_in_id3v1()");
        break;
      }
      default: {
        NOTE(ctx, "process_id3v1()");
        auto t = scribbu::process_id3v1(is);
        CHECK_EQ(bool(t), has1, "process-v1", "whether there's an ID3v1 tag");
        if (t) {
          std::string x;
          t->title(std::back_inserter(x));
          CHECK_EQ(x, S(v1.title), "process-v1", "title");
          CHECK_EQ(t->enhanced(), v1.enh, "process-v1", "enhanced()");
        }
        sane("process_id3v1()");
      }
      }
    }
    if (read || like) ctx.nontrivial(hash(all, read));
    ctx.label("tags:" + std::to_string(n));
  }

  /// Any ten bytes, nearly a header
  void headers(source &s, context &ctx)
  {
    bytes h { 'I', 'D', '3', (unsigned char) s.pick({ 2, 3, 4, 0, 1, 5, 0xfe, 0xff }), 0, s.byte() };
    if (s.chance(1, 3)) h[4] = s.pick({ 1, 2, 0x7f, 0x80, 0xfe, 0xff });
    std::size_t n = 0;
    for (int i = 0; i < 4; ++i) {
      h.push_back(s.weighted({ 3, 2, 1 }) ? (s.chance(1, 8) ? s.pick({ 0x80, 0xff, 0xc0 }) : s.pick({ 0x7f, 0x40, 0x3f, 1, 0x20 })) : s.below(128));
      n = n * 128 + h.back();
    }
    if (s.chance(1, 8)) h[s.below(3)] = s.byte();
    bool want = h[0] == 'I' && h[1] == 'D' && h[2] == '3' && h[3] != 0xff && h[4] != 0xff &&
      h[6] < 128 && h[7] < 128 && h[8] < 128 && h[9] < 128;
    std::size_t at = s.below(20);
    bytes all(at, 'I');
    app(all, h);
    app(all, s.blob_upto(10));
    bool restore = s.flip();
    NOTE(ctx, show(h) << " at " << at << ", " << restore);
    std::istringstream is(S(all));
    is.seekg(at);
    scribbu::id3v2_info i = scribbu::looking_at_id3v2(is, restore);
    CHECK_EQ(i.present_, want, "present", "whether there's a header");
    CHECK_EQ(long(is.tellg()), long(want && !restore ? at + 10 : at), "position", "the get pointer");
    ctx.checked(2);
    if (!want) return ctx.nontrivial(hash(h, restore));
    CHECK_EQ(int(i.version_), int(h[3]), "version", "version");
    CHECK_EQ(int(i.revision_), int(h[4]), "revision", "revision");
    CHECK_EQ(int(i.flags_), int(h[5]), "flags", "flags");
    CHECK_EQ(std::size_t(i.size_), n, "size", "size");
    CHECK_EQ(i.size_on_disk(), n + (h[3] == 4 && (h[5] & 0x10) ? 20 : 10), "size-on-disk", "size_on_disk()");
    ctx.checked(5);
    if (h[3] < 2 || h[3] > 4) {
      // There's no reading these
      is.seekg(at);
      bool threw = false;
      int how = s.below(3);
      try {
        std::vector<ptag> v;
        if (how == 0) scribbu::maybe_read_id3v2(is);
        else if (how == 1) scribbu::read_id3v2(is);
        else scribbu::read_all_id3v2(is, std::back_inserter(v));
      } catch (const id3v2_tag::unknown_version &x) {
        threw = true;
      }
      CHECK(threw, "unknown-version", "a tag of version 2." << int(h[3]) << " is read (" << how << ")");
      ctx.checked();
      ctx.label("unknown-version");
    }
    ctx.nontrivial(hash(h, restore));
  }

  /// Tags of more than a megabyte
  void large(source &s, context &ctx)
  {
    std::vector<fdesc> fds;
    ref::tag t = reftag(s, s.range(2, 4), fds, 3);
    if (t.footer || t.ext) throw discard();
    t.padding = s.pick<std::size_t>({ 1u << 20, (1u << 20) + 5, 2100000, (1u << 21) - 1, 1u << 14, 0 }) + s.below(300);
    bytes b = ref::encode(t);
    std::string want = alone(b, t.ver);
    std::string small = sight2(t);
    CHECK(want == small, "large", "a tag with " << t.padding << " bytes of padding reads\n" << want << "\nrather than\n" << small);
    bytes all = b;
    std::vector<fdesc> fds2;
    ref::tag u = reftag(s, s.range(2, 4), fds2, 2);
    bytes b2 = ref::encode(u);
    app(all, b2);
    app(all, audio(s, 100));
    std::istringstream is(S(all));
    std::vector<ptag> v;
    scribbu::read_all_id3v2(is, std::back_inserter(v));
    CHECK_EQ(v.size(), 2u, "large-all", "number of tags");
    CHECK(sight(*v[0]) == want && sight(*v[1]) == alone(b2, u.ver), "large-all", "the tags read aren't those written");
    CHECK_EQ(long(is.tellg()), long(b.size() + b2.size()), "large-position", "the get pointer");
    ctx.checked(4);
    ctx.nontrivial(hash(b2, t.padding));
  }
}

int main(int argc, char **argv)
{
  return run(argc, argv, spec {
      "P21", "a tag was read among others, or data resembling a tag was probed; distinct by the file & number of tags read",
      300000, 6000000,
      { { "probing", 240, probing }, { "headers", 60, headers }, { "large", 1, large } },
      { "the stream is in a good state before each operation",
        "what a tag holds is compared with what's read of its bytes alone; P02 settles that",
        "total_id3v2_size() adds up sizes without headers, as the tests of the repository have it, and ID3v2.4 tags with padding are left out of it (see the known finding of P03)" },
    });
}
