/* P18 -- track data, durations & checksums describe the audio alone. */
#include "files.hh"
#include "mpeg.hh"

#include <cmath>
#include <fstream>

#include <openssl/evp.h>

#include <scribbu/id3v2-utils.hh>
#include <scribbu/mp3.hh>

using namespace vt;
using namespace gen;

namespace {

  const std::ios_base::iostate MASKS[] = {
    std::ios_base::goodbit, std::ios_base::badbit, std::ios_base::failbit | std::ios_base::badbit,
    std::ios_base::eofbit | std::ios_base::failbit | std::ios_base::badbit
  };

  /// A stream over some bytes, in memory or in a file
  struct stream {
    std::unique_ptr<std::istream> p;
    std::ios_base::iostate mask;
    std::size_t len;
    stream(source &s, context &ctx, const bytes &b)
    {
      len = b.size();
      if (s.chance(1, 4)) {
        std::string path = ctx.scratch + "/f";
        spew(path, b);
        p.reset(new std::ifstream(path, std::ios_base::binary));
        NOTE(ctx, "in a file");
      } else {
        p.reset(new std::istringstream(S(b)));
      }
      mask = MASKS[s.below(4)];
      p->exceptions(mask);
      NOTE(ctx, "exception mask " << int(mask));
    }
    std::istream& operator*() { return *p; }
    std::istream* operator->() { return p.get(); }
    /// All's as it ought to be, with the get pointer at `at'
    void at(std::size_t at, const char *key, const std::string &when)
    {
      CHECK_EQ(int(p->exceptions()), int(mask), key + std::string("/mask"), when << ", the exception mask");
      CHECK_EQ(int(p->rdstate()), 0, key + std::string("/state"), when << ", the stream's state");
      CHECK_EQ(long(p->tellg()), long(at), key + std::string("/position"), when << ", the get pointer");
    }
  };

  std::string md5(const bytes &b)
  {
    unsigned char d[64];
    unsigned int n = 0;
    EVP_Digest(b.data(), b.size(), d, &n, EVP_md5(), nullptr);
    return hex(d, n);
  }

  template <typename T> std::string digest(const T &d) { return hex(&d[0], 16); }

  bool near(double a, double b) { return std::fabs(a - b) <= 1e-9 * std::max(1.0, std::fabs(b)); }

  /// One frame, on its own: every field of its header & a VBR header
  void frames(source &s, context &ctx)
  {
    typedef scribbu::mp3_audio_frame F;
    mpeg::frame f = mpeg::any_frame(s);
    mpeg::vbr v;
    if (s.flip()) v = mpeg::any_vbr(s);
    if (v.kind == mpeg::vbr::xing && f.crc) v.early = s.chance(1, 3);
    bytes b = s.blob_upto(5);
    std::size_t off = b.size();
    app(b, mpeg::encode(s, f, &v));
    std::size_t end = b.size();
    app(b, bytes(s.small(40), s.flip() ? 0 : 0xdd));
    NOTE(ctx, "at " << off << ": " << f.show() << ", VBR header " << v.show() << "; " << b.size() - end << " bytes after");

    stream st(s, ctx, b);
    st->seekg(off);
    bool check = v.kind != mpeg::vbr::none || s.flip(), given = s.flip();
    NOTE(ctx, (check ? "checking" : "not checking") << " for a VBR header" << (given ? ", header given" : ""));
    std::unique_ptr<F> p;
    if (given) {
      unsigned char h[4];
      st->read((char*) h, 4);
      p.reset(new F(h, *st, check));
    } else {
      p.reset(new F(*st, check));
    }
    CHECK_EQ(p->bps(), f.bps(), "frame/bps", "bps()");
    CHECK_EQ(p->sample_rate_hz(), f.hz(), "frame/rate", "sample_rate_hz()");
    CHECK_EQ(p->size(), f.size(), "frame/size", "size()");
    CHECK_EQ(int(p->version()), f.ver - 1, "frame/version", "version()");
    auto d = p->duration();
    CHECK(d.first * f.hz() == std::size_t(f.samples()) * d.second, "frame/duration",
          "duration() is " << d.first << "/" << d.second << ", expected " << f.samples() << "/" << f.hz());
    auto w = p->vbri();
    if (!check || !v.counts()) {
      CHECK(!w || (check && v.kind == mpeg::vbr::xing), "frame/vbr", "vbri() isn't empty");
    } else {
      CHECK(bool(w), "frame/vbr", "vbri() is empty");
      CHECK_EQ(w->first, std::size_t(v.frames), "frame/vbr", "number of frames");
      CHECK_EQ(w->second, std::size_t(v.nbytes), "frame/vbr", "number of bytes");
      ctx.label(std::string("frame:") + v.id());
    }
    st.at(end, "frame", "after the frame");
    ctx.nontrivial(hash(b));
    ctx.checked(9);
    ctx.label("frame:MPEG" + std::to_string(f.ver));
    if (v.early) ctx.label("frame:missing-crc");
  }

  /// The VBR headers on their own
  void headers(source &s, context &ctx)
  {
    mpeg::vbr v = mpeg::any_vbr(s);
    bytes b = s.blob_upto(3);
    std::size_t off = b.size();
    bytes pl = v.payload(s);
    app(b, pl);
    std::size_t end = b.size() - (v.kind == mpeg::vbr::xing && v.lame ? 36 : 0);
    app(b, s.blob_upto(4));
    NOTE(ctx, v.show() << " at " << off << ": " << show(pl));
    stream st(s, ctx, b);
    st->seekg(off);
    if (v.kind == mpeg::vbr::vbri) {
      scribbu::vbri_mp3_tag t(*st);
      CHECK_EQ(t.file_size_bytes(), std::size_t(v.nbytes), "vbri", "file_size_bytes()");
      CHECK_EQ(t.num_frames(), std::size_t(v.frames), "vbri", "num_frames()");
      CHECK_EQ(t.frames_per_toc_entry(), std::size_t(v.per), "vbri", "frames_per_toc_entry()");
      st.at(end, "vbri", "after the header");
      ctx.label("header:VBRI");
    } else {
      scribbu::xing_mp3_tag t(*st);
      CHECK_EQ(t.num_frames().has_value(), bool(v.flags & 1), "xing", "whether there's a number of frames");
      CHECK_EQ(t.file_size_bytes().has_value(), bool(v.flags & 2), "xing", "whether there's a number of bytes");
      CHECK_EQ(t.has_toc(), bool(v.flags & 4), "xing", "has_toc()");
      if (v.flags & 1) { std::size_t n = *t.num_frames(); CHECK_EQ(n, std::size_t(v.frames), "xing", "num_frames()"); }
      if (v.flags & 2) { std::size_t n = *t.file_size_bytes(); CHECK_EQ(n, std::size_t(v.nbytes), "xing", "file_size_bytes()"); }
      st.at(end, "xing", "after the header");
      ctx.label("header:Xing");
      if (v.lame) {
        typedef scribbu::lame_mp3_tag L;
        char id[4];
        st->read(id, 4);
        L l(id, *st);
        const unsigned char *q = &pl[pl.size() - 36 + 11];
        q = &b[end];
        static const L::vbr_method M[] = {
          L::vbr_method::unknown, L::vbr_method::constant, L::vbr_method::abr, L::vbr_method::vbr_1, L::vbr_method::vbr_2,
          L::vbr_method::vbr_3, L::vbr_method::vbr_4, L::vbr_method::unknown, L::vbr_method::cbr_two_pass, L::vbr_method::abr_two_pass };
        unsigned m = q[9] & 15;
        CHECK_EQ(int(l.get_vbr_method()), int(m < 10 ? M[m] : L::vbr_method::unknown), "lame", "get_vbr_method()");
        CHECK_EQ(l.get_bitrate(), q[20], "lame", "get_bitrate()");
        CHECK_EQ(l.get_size_bytes(), std::uint32_t(q[28]) << 24 | q[29] << 16 | q[30] << 8 | q[31], "lame", "get_size_bytes()");
        st.at(end + 32, "lame", "after the header");
        ctx.label("header:LAME");
      }
    }
    ctx.nontrivial(hash(b));
    ctx.checked(6);
  }

  /// Streams of frames, amid tags
  void streams(source &s, context &ctx)
  {
    trackfile f;
    if (s.chance(3, 4)) f = track_file(s, ctx, 2);
    f.audio.clear();
    if (s.chance(1, 8)) {
      // something without a sync in it, ahead of the first frame
      f.audio = bulk(s, s.range(1, 30));
      for (auto &c: f.audio) if (c >= 0xe0) c &= 0x7f;
      ctx.label("stream:junk-first");
    }
    std::size_t junk = f.audio.size();
    if (junk > 1 && s.chance(1, 4)) f.audio[s.below(junk - 1)] = 0xff;

    mpeg::frame m = mpeg::any_frame(s);
    mpeg::vbr v;
    if (s.chance(2, 5)) v = mpeg::any_vbr(s);
    if (v.kind == mpeg::vbr::xing && m.crc) v.early = s.chance(1, 3);
    std::size_t n = s.chance(1, 20) ? s.range(1, 60) : s.range(1, 8);
    int vary = s.weighted({ 2, 3, 1 });
    std::map<unsigned, std::size_t> samples;
    std::ostringstream what;
    for (std::size_t i = 0; i < n; ++i) {
      if (i) {
        m.pad = s.flip();
        if (vary) { m.rate = s.range(1, 14); m.crc = s.chance(1, 4); }
        if (vary == 2 && s.chance(1, 3)) {
          if (s.flip()) m.ver = s.range(1, 3);
          m.freq = s.below(3);
          m.mode = s.below(4);
        }
      }
      app(f.audio, mpeg::encode(s, m, i ? nullptr : &v));
      samples[m.hz()] += m.samples();
      if (i < 3) what << m.show() << "; ";
      if (!i && v.counts() && s.flip()) n += s.below(4);
    }
    std::size_t aend = f.audio.size();
    // a VBR header might tell the true length
    bool honest = false;
    if (v.counts() && s.flip()) {
      honest = true;
      mpeg::frame m0 = m;
      std::size_t nb = aend - junk;
      std::size_t at = 0;
      for (std::size_t i = junk; i + 4 <= f.audio.size(); ++i)
        if (0 == std::memcmp(&f.audio[i], v.id(), 4)) { at = i; break; }
      bytes x;
      mpeg::be(x, nb, 4);
      std::size_t o = v.kind == mpeg::vbr::vbri ? at + 10 : at + 8 + (v.flags & 1 ? 4 : 0);
      std::copy(x.begin(), x.end(), f.audio.begin() + o);
      v.nbytes = nb;
      (void) m0;
    }
    std::size_t trail = 0;
    if (s.chance(1, 8)) {
      bytes t = s.flip() ? bytes(s.range(1, 200), 0) : bulk(s, s.range(1, 6));
      for (auto &c: t) c &= 0x7f;
      trail = t.size();
      app(f.audio, t);
      ctx.label("stream:data-after");
    }
    double first = 0;
    {
      // what the first frame lasts
      const unsigned char *h = &f.audio[junk];
      mpeg::frame q;
      q.ver = (h[1] & 0x18) == 0x18 ? 1 : (h[1] & 0x18) == 0x10 ? 2 : 3;
      q.freq = h[2] >> 2 & 3;
      first = q.secs();
    }
    double sum = 0;
    for (auto &x: samples) sum += double(x.second) / x.first;
    std::set<double> want;
    if (v.counts()) want.insert(first * v.frames);
    else {
      want.insert(sum);
      if (v.kind == mpeg::vbr::xing) {
        // a header with less in it than it might
        if (v.flags & 1) want.insert(first * v.frames);
        want.insert(sum - first);
      }
    }
    NOTE(ctx, n << " frames: " << what.str() << "VBR header " << v.show() << "; " << junk << " bytes before, " << trail << " after; "
         << f.audio.size() << " bytes in all; " << sum << " s");

    bytes all = f.all();
    stream st(s, ctx, all);
    st->seekg(f.lead.size());
    if (s.flip()) {
      double d = scribbu::get_mp3_duration(*st);
      bool ok = false;
      for (auto x: want) ok = ok || near(d, x);
      CHECK(ok, "duration", "get_mp3_duration() is " << d << ", expected " << *want.begin());
      CHECK_EQ(int(st->exceptions()), int(st.mask), "duration/mask", "after get_mp3_duration(), the exception mask");
      CHECK_EQ(int(st->rdstate()), 0, "duration/state", "after get_mp3_duration(), the stream's state");
      if (v.kind == mpeg::vbr::none || honest)
        CHECK_EQ(long(st->tellg()), long(f.lead.size() + aend), "duration/position", "after get_mp3_duration(), the get pointer");
      ctx.label("stream:get_mp3_duration");
    } else {
      scribbu::track_data td(*st);
      CHECK(bool(td.duration()), "duration", "track_data has no duration");
      double d = *td.duration();
      bool ok = false;
      for (auto x: want) ok = ok || near(d, x);
      CHECK(ok, "duration", "track_data::duration() is " << d << ", expected " << *want.begin());
      CHECK_EQ(td.size(), f.audio.size(), "size", "track_data::size()");
      unsigned char x[16];
      td.get_md5(x);
      CHECK_EQ(digest(x), md5(f.audio), "md5", "track_data::get_md5()");
      st.at(f.lead.size() + f.audio.size(), "track", "after track_data()");
      ctx.label("stream:track_data");
    }
    ctx.label(v.kind == mpeg::vbr::none ? "stream:no-header" : v.counts() ? honest ? "stream:header-honest" : "stream:header" : "stream:header-partial");
    if (samples.size() > 1) ctx.label("stream:rates-vary");
    if (n > 1 || v.counts()) ctx.nontrivial(hash(all));
    ctx.checked(5);
  }

  /// Where the track begins & ends, whatever is in it
  void bounds(source &s, context &ctx)
  {
    trackfile f = track_file(s, ctx, 3);
    switch (s.weighted({ 4, 1, 1, 1, 1 })) {
    case 0: break;
    case 1:
      // damaged frames
      f.audio.clear();
      for (std::size_t i = 0, n = s.range(1, 4); i < n; ++i) {
        bytes b = mpeg::encode(s, mpeg::any_frame(s));
        if (s.flip()) b[s.below(4)] = s.byte();
        if (s.flip()) b.resize(s.below(b.size()) + 1);
        app(f.audio, b);
      }
      ctx.label("bounds:damaged");
      break;
    case 2:
      f.audio = s.blob_upto(200);
      for (std::size_t i = 0; i + 1 < f.audio.size(); ++i) if (f.audio[i] == 'T' && f.audio[i + 1] == 'A') f.audio[i] = 't';
      ctx.label("bounds:anything");
      break;
    case 3:
      // more than is read at a time
      if (s.chance(1, 40)) {
        f.audio = bulk(s, (4 << 20) - 2 + s.below(5) + (s.flip() ? 4 << 20 : 0));
        ctx.label("bounds:large");
      }
      break;
    default: {
      // "TAG" wherever it means nothing
      bytes b = bulk(s, s.range(0, 600));
      for (int i = 0; i < 3; ++i)
        if (b.size() > 4) {
          std::size_t k = s.below(b.size() - 4), back = s.pick({ 355, 128, 127, 129, 354, 356, 227, 256, 3, 4 });
          if (s.flip() && back <= b.size() && back >= 4) k = b.size() - back;
          std::memcpy(&b[k], s.flip() ? "TAG+" : "TAGx", 4);
        }
      f.audio = b;
      ctx.label("bounds:lookalikes");
    }
    }
    if (s.chance(1, 3)) {
      // the last of it just within, or just short of, what a tag takes
      f.audio = bulk(s, s.pick({ 0, 1, 124, 125, 127, 128, 129, 226, 227, 228, 354, 355, 356 }));
      ctx.label("bounds:short");
    }
    if (s.chance(1, 30)) {
      // an ID3v2 tag the last of which could pass for an ID3v1 tag
      bytes d = bulk(s, s.range(355, 500)), t { 'I', 'D', '3', 3, 0, 0, 0, 0 };
      f.audio = bulk(s, s.flip() ? s.below(140) : s.below(370));
      f.tail.clear();
      for (std::size_t back: { 355, 128 })
        if (f.audio.size() < back && s.chance(3, 4)) std::copy_n(back == 128 ? "TAGx" : "TAG+", std::min<std::size_t>(4, back - f.audio.size()), d.end() - (back - f.audio.size()));
      t.push_back((d.size() + 10) >> 7); t.push_back((d.size() + 10) & 127);
      app(t, std::string("XYZW")); mpeg::be(t, d.size(), 4); t.push_back(0); t.push_back(0);
      app(t, d);
      app(f.lead, t);
      f.tags.emplace_back();
    }
    bytes all = f.all();
    // what there is at the end, whatever was meant
    std::size_t L = f.lead.size(), E = all.size();
    auto is = [&](std::size_t back, const char *id) {
      return all.size() >= back && 0 == std::memcmp(&all[all.size() - back], id, strlen(id));
    };
    bool inside = false;
    if (is(128, "TAG")) {
      E = all.size() - (is(355, "TAG+") ? 355 : 128);
      if (E < L) {
        // (part of) a leading tag is no ID3v1 tag
        E = all.size() - 128 < L ? all.size() : all.size() - 128;
        inside = true;
      }
    }
    if (inside) ctx.label("bounds:tag-lookalike");
    bytes track(all.begin() + L, all.begin() + E);
    NOTE(ctx, "track of " << track.size() << " bytes at " << L << " in " << all.size());

    stream st(s, ctx, all);
    if (L) {
      std::vector<std::unique_ptr<scribbu::id3v2_tag>> v;
      scribbu::read_all_id3v2(*st, std::back_inserter(v));
      CHECK_EQ(v.size(), f.tags.size(), "tags", "number of tags");
      CHECK_EQ(long(st->tellg()), long(L), "tags", "the get pointer, after reading the tags");
      st->clear();
      st->exceptions(st.mask);
    }
    st->seekg(L);
    switch (s.below(5)) {
    case 4: {
      try { scribbu::get_mp3_duration(*st); }
      catch (const std::exception&) { ctx.label("bounds:no-duration"); }
      CHECK_EQ(int(st->exceptions()), int(st.mask), "duration/mask", "after get_mp3_duration(), the exception mask");
      break;
    }
    case 0: {
      auto d = scribbu::compute_track_md5(*st);
      CHECK_EQ(digest(d), md5(track), "md5", "compute_track_md5()");
      st.at(E, "md5", "after compute_track_md5()");
      break;
    }
    case 1: {
      auto d = scribbu::compute_track_md5(*st, E);
      CHECK_EQ(digest(d), md5(track), "md5", "compute_track_md5(), with a hint");
      st.at(E, "md5", "after compute_track_md5(), with a hint");
      break;
    }
    case 2: {
      auto t = scribbu::find_id3v1_tag(*st);
      CHECK_EQ(long(std::get<0>(t)), long(L), "find", "beginning of the track");
      CHECK_EQ(long(std::get<1>(t)), long(E), "find", "end of the track");
      CHECK_EQ(int(st->exceptions()), int(st.mask), "find/mask", "the exception mask");
      CHECK_EQ(int(st->rdstate()), 0, "find/state", "the stream's state");
      break;
    }
    default: {
      scribbu::track_data td(*st);
      CHECK_EQ(td.size(), track.size(), "size", "track_data::size()");
      unsigned char x[16];
      td.get_md5(x);
      CHECK_EQ(digest(x), md5(track), "md5", "track_data::get_md5()");
      st.at(E, "track", "after track_data()");
    }
    }
    if (track.size()) ctx.nontrivial(hash(all));
    ctx.checked(4);
  }

  /// Looking for a sync
  void syncs(source &s, context &ctx)
  {
    bytes b = s.blob_upto(40);
    if (s.flip()) for (auto &c: b) if (s.chance(1, 4)) c = 0xff;
    std::size_t from = s.below(b.size() + 1);
    std::size_t at = from;
    while (at + 1 < b.size() && !(b[at] == 0xff && b[at + 1] >= 0xe0)) ++at;
    bool found = at + 1 < b.size();
    NOTE(ctx, show(b) << " from " << from << ": sync " << (found ? std::to_string(at) : "none"));
    stream st(s, ctx, b);
    st->seekg(from);
    std::ios_base::iostate m = st.mask;
    try {
      scribbu::find_sync(*st);
    } catch (const std::ios_base::failure&) {
      // those who've asked for exceptions may get them past the end
      CHECK(!found && (m & (std::ios_base::failbit | std::ios_base::eofbit)), "sync/throws", "find_sync() throws");
    }
    CHECK_EQ(int(st->exceptions()), int(m), "sync/mask", "after find_sync(), the exception mask");
    if (found) {
      st.at(at, "sync", "after find_sync()");
      ctx.nontrivial(hash(b, from));
    } else {
      CHECK(!*st, "sync/none", "find_sync() found a sync where there's none");
    }
    ctx.checked(3);
    ctx.label(found ? "sync:found" : "sync:none");
  }
}

int main(int argc, char **argv)
{
  return run(argc, argv, spec {
      "P18", "a frame or header was decoded, a stream of several frames (or with a VBR header) measured, or a track that isn't empty delimited; distinct by bytes",
      400000, 8000000,
      { { "frames", 3, frames }, { "headers", 1, headers }, { "streams", 4, streams }, { "bounds", 4, bounds }, { "syncs", 1, syncs } },
      { "layer III only, no free-format bitrates: the library rejects the rest",
        "where a Xing header lacks the number of frames or bytes, both its own number & the sum over frames are accepted",
        "128 bytes at the end of the file beginning with \"TAG\" are an ID3v1 tag unless they lie within a leading ID3v2 tag" },
    });
}
