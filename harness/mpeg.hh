/* mpeg.hh -- generated MPEG audio layer III streams, with what's to be said of
 * them, worked out from the tables of ISO 11172-3 & 13818-3. */
#pragma once

#include "engine.hh"

namespace mpeg {

  using vt::bytes;
  using vt::source;

  inline void be(bytes &b, std::uint64_t x, int n) { while (n--) b.push_back(x >> (8 * n)); }

  /// One layer III frame
  struct frame {
    int ver = 1;          // 1, 2 or 3 (for 2.5)
    bool crc = false;
    unsigned rate = 1;    // index of the bitrate, 1-14
    unsigned freq = 0;    // index of the sampling frequency, 0-2
    bool pad = false;
    unsigned mode = 0;    // 3 is mono
    unsigned extra = 0;   // private, copyright, original, emphasis, mode extension

    unsigned bps() const
    {
      static const unsigned short V1[] = { 0, 32, 40, 48, 56, 64, 80, 96, 112, 128, 160, 192, 224, 256, 320 };
      static const unsigned short V2[] = { 0, 8, 16, 24, 32, 40, 48, 56, 64, 80, 96, 112, 128, 144, 160 };
      return 1000 * (ver == 1 ? V1[rate] : V2[rate]);
    }
    unsigned hz() const
    {
      unsigned f = freq == 0 ? 44100 : freq == 1 ? 48000 : 32000;
      return ver == 1 ? f : ver == 2 ? f / 2 : f / 4;
    }
    unsigned samples() const { return ver == 1 ? 1152 : 576; }
    unsigned size() const { return (ver == 1 ? 144 : 72) * bps() / hz() + pad; }
    unsigned side() const { return ver == 1 ? (mode == 3 ? 17 : 32) : (mode == 3 ? 9 : 17); }
    double secs() const { return double(samples()) / hz(); }

    bytes head() const
    {
      bytes b { 0xff };
      b.push_back(0xe0 | (ver == 1 ? 0x18 : ver == 2 ? 0x10 : 0) | 2 | !crc);
      b.push_back(rate << 4 | freq << 2 | pad << 1 | (extra & 1));
      b.push_back(mode << 6 | (extra >> 1 & 0x3f));
      return b;
    }
    std::string show() const
    {
      std::ostringstream os;
      os << "MPEG " << (ver == 3 ? "2.5" : ver == 2 ? "2" : "1") << " " << bps() / 1000 << "k " << hz() << "Hz"
         << (mode == 3 ? " mono" : "") << (crc ? " crc" : "") << (pad ? " padded" : "") << " (" << size() << " bytes)";
      return os.str();
    }
  };

  inline frame any_frame(source &s)
  {
    frame f;
    f.ver = s.range(1, 3);
    f.rate = s.range(1, 14);
    f.freq = s.below(3);
    f.pad = s.flip();
    f.mode = s.below(4);
    f.crc = s.chance(1, 4);
    f.extra = s.chance(1, 3) ? s.below(128) : 0;
    return f;
  }

  /// A frame's contents: nothing in there is like a header or an identifier
  inline bytes body(source &s, const frame &f, std::size_t n)
  {
    bytes b(n);
    std::uint64_t x = s.draw(0xffffff);
    if (x) for (auto &c: b) {
      x = vt::mix(x);
      c = x % 0x37 + 0xc0; // no 0xff & no ASCII
    }
    (void) f;
    return b;
  }

  /// A VBR header, as it'd be laid out past its identifier
  struct vbr {
    enum { none, xing, vbri } kind = none;
    bool info = false, early = false;  // "Info"; or without the CRC there ought to be
    unsigned flags = 0;                // Xing
    std::uint32_t frames = 0, nbytes = 0, quality = 0;
    int lame = 0;
    unsigned vers = 1, delay = 0, scale = 1, esize = 2, per = 1;
    std::size_t entries = 0;
    bytes toc;

    std::size_t at(const frame &f) const
    { return kind == vbri ? 36 : 4 + (f.crc && !early ? 2 : 0) + f.side(); }
    bytes payload(source &s) const
    {
      bytes b;
      if (kind == xing) {
        be(b, flags, 4);
        if (flags & 1) be(b, frames, 4);
        if (flags & 2) be(b, nbytes, 4);
        if (flags & 4) b.insert(b.end(), toc.begin(), toc.begin() + 100);
        if (flags & 8) be(b, quality, 4);
        if (lame) {
          vt::app(b, std::string(lame == 1 ? "LAME3.100" : lame == 2 ? "L3.99r1  " : "LAME3.93 "));
          b.push_back(s.below(16));
          for (int i = 0; i < 10; ++i) b.push_back(s.below(0xff));
          b.push_back(s.below(0xff));
          for (int i = 0; i < 15; ++i) b.push_back(s.below(0xff));
        }
      } else if (kind == vbri) {
        be(b, vers, 2); be(b, delay, 2); be(b, quality, 2);
        be(b, nbytes, 4); be(b, frames, 4);
        be(b, entries, 2); be(b, scale, 2); be(b, esize, 2); be(b, per, 2);
        b.insert(b.end(), toc.begin(), toc.begin() + entries * esize);
      }
      return b;
    }
    const char* id() const { return kind == vbri ? "VBRI" : info ? "Info" : "Xing"; }
    bool counts() const { return kind == vbri || (kind == xing && (flags & 3) == 3); }
    std::string show() const
    {
      if (kind == none) return "none";
      std::ostringstream os;
      os << id() << " frames " << frames << " bytes " << nbytes;
      if (kind == xing) os << " flags " << flags << (early ? " (no CRC)" : "") << (lame ? " LAME" : "");
      else os << " entries " << entries << " of " << esize << " per " << per;
      return os.str();
    }
  };

  inline vbr any_vbr(source &s)
  {
    vbr v;
    v.kind = s.flip() ? vbr::vbri : vbr::xing;
    v.info = s.flip();
    v.flags = s.chance(1, 4) ? s.below(16) : 3 | s.below(4) << 2;
    v.frames = s.chance(1, 5) ? s.edgy(32) : s.range(1, 20000);
    v.nbytes = s.chance(1, 5) ? s.edgy(32) : s.range(1000, 10000000);
    v.quality = s.below(101);
    v.lame = s.chance(1, 3) ? s.range(1, 3) : 0;
    v.delay = s.edgy(16);
    v.scale = s.chance(1, 3) ? s.edgy(16) : 1;
    v.esize = s.range(1, 4);
    v.per = s.range(1, 40);
    v.entries = s.below(s.chance(1, 6) ? 300 : 40);
    bytes t = s.blob(8);
    v.toc.resize(1300);
    for (std::size_t i = 0; i < v.toc.size(); ++i) v.toc[i] = t[i % 8] + i;
    return v;
  }

  /// The frame, with the header in it if there is room
  inline bytes encode(source &s, const frame &f, vbr *v = nullptr)
  {
    bytes b = f.head();
    vt::app(b, body(s, f, f.size() - 4));
    if (v && v->kind != vbr::none) {
      bytes p = v->payload(s);
      std::size_t at = v->at(f);
      if (at + 4 + p.size() > b.size()) v->kind = vbr::none;
      else {
        std::memcpy(&b[at], v->id(), 4);
        std::copy(p.begin(), p.end(), b.begin() + at + 4);
      }
    }
    return b;
  }
}
