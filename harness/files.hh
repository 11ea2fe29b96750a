/* files.hh -- generated track files, tagsets & directories, for the checks of
 * operations on files. */
#pragma once

#include "gen.hh"

#include <filesystem>
#include <functional>
#include <memory>

#include <sys/stat.h>
#include <unistd.h>

namespace gen {

  namespace fs = std::filesystem;

  /// `n' bytes from few choices; no "TAG" & no leading "ID3"
  inline bytes bulk(source &s, std::size_t n)
  {
    bytes b(n);
    std::uint64_t x = s.draw(~std::uint64_t(0)) | 1;
    for (std::size_t i = 0; i < n; ++i) {
      x ^= x << 13; x ^= x >> 7; x ^= x << 17;
      b[i] = x >> 32;
      if (b[i] == 'T') b[i] = 'U';
    }
    if (n && b[0] == 'I') b[0] = 'J';
    return b;
  }

  struct trackfile {
    std::vector<ref::tag> tags;
    bytes lead, audio, tail;
    bytes rest() const { bytes b = audio; vt::app(b, tail); return b; }
    bytes all() const { bytes b = lead; vt::app(b, rest()); return b; }
  };

  /// A file with some leading tags, something like audio & perhaps an ID3v1 tag
  inline trackfile track_file(source &s, vt::context &ctx, std::size_t maxtags = 3)
  {
    trackfile f;
    std::size_t n = s.weighted({ 2, 4, 2, 1 });
    if (n > maxtags) n = maxtags;
    for (std::size_t i = 0; i < n; ++i) {
      std::vector<fdesc> fds;
      ref::tag t = reftag(s, s.range(2, 4), fds, 3);
      if (s.chance(1, 4) && !t.footer) {
        t.padding = s.below(600);
        if (t.ver == 3 && t.ext) t.ext_padding = t.padding;
      }
      f.tags.push_back(t);
      vt::app(f.lead, ref::encode(t));
    }
    switch (s.weighted({ 5, 2, 1, 1 })) {
    case 0: f.audio = audio(s, 200); break;
    case 1: f.audio = bulk(s, s.below(5000)); break;
    case 2: f.audio = bulk(s, s.pick({ 4095, 4096, 4097, 8192, 16384, 65535, 65536, 65537, 131072 }) + s.below(3)); break;
    default: break;
    }
    if (s.chance(1, 3)) f.tail = ref::encode(v1tag(s));
    NOTE(ctx, "file: " << n << " tags, " << f.lead.size() << " bytes; audio " << f.audio.size() << " bytes; ID3v1 " << f.tail.size() << " bytes");
    return f;
  }

  /// A tag about to be written, whatever its version
  struct anytag {
    int ver;
    std::unique_ptr<scribbu::id3v2_tag> p;
    std::function<std::string ()> content; // all but the padding
    std::string what;
    bool odd;  // with unsynchronisation, the size may depend on the padding in other ways than one for one
  };

  template <int V> anytag any_tag_(source &s, std::size_t maxframes, std::size_t maxpad)
  {
    typedef typename lib<V>::tag T;
    T *p = nullptr;
    std::ostringstream what;
    bool ext = false;
    std::size_t pad = s.flip() ? s.below(maxpad + 1) : 0;
    bool exp = s.chance(1, 6);
    what << "2." << V << " padding " << pad;
    if constexpr (V == 3) {
      typedef typename T::want_extended_header W;
      int w = s.weighted({ 4, 1, 1 });
      p = new T(pad, exp, w == 0 ? W::none : w == 1 ? W::present : W::with_crc);
      ext = w;
      if (w) what << " extended header " << w;
    } else {
      p = new T(pad, exp);
    }
    anytag a;
    a.ver = V;
    a.p.reset(p);
    fopts o;
    o.encr = false;
    if (s.chance(1, 10)) o.max_data = 500;
    std::size_t n = s.below(maxframes + 1);
    for (std::size_t i = 0; i < n; ++i) {
      fdesc d = frame(s, V, o);
      push<V>(*p, *from_bytes<V>(d), s.flip());
      what << " " << show(d);
    }
    a.content = [p]() {
      std::string r = p->num_frames() ? "" : "empty";
      for (auto &v: look_all<V>(*p)) r += v.str() + "\n";
      return r;
    };
    a.what = what.str();
    std::ostringstream os;
    p->write(os, false);
    std::string b = os.str();
    std::size_t cb = b.size() - pad;
    a.odd = ext || (V == 2 && cb > 10 && (unsigned char) b[cb - 1] == 0xff);
    return a;
  }

  inline anytag any_tag(source &s, std::size_t maxframes = 3, std::size_t maxpad = 300)
  {
    switch (s.below(3)) {
    case 0: return any_tag_<2>(s, maxframes, maxpad);
    case 1: return any_tag_<3>(s, maxframes, maxpad);
    default: return any_tag_<4>(s, maxframes, maxpad);
    }
  }

  inline bytes written(const scribbu::id3v2_tag &t, bool unsync)
  {
    std::ostringstream os;
    t.write(os, unsync);
    return vt::B(os.str());
  }

  /// A directory with a track in it, seen through some spelling of its path
  struct place {
    std::string dir, name, path; // `path' as given to the library
    place(source &s, vt::context &ctx, bool odd = true)
    {
      dir = ctx.scratch + "/d";
      vt::clear_dir(ctx.scratch);
      fs::create_directories(dir + "/sub");
      static const std::vector<std::string> NAMES { "a.mp3", "b", "x.y.mp3", ".hid", "a b.mp3", "\xc3\xbc.mp3", "a.5", "a.", "a.mp3.1" };
      name = odd ? s.pick(NAMES) : NAMES[0];
      std::string to;
      switch (odd ? s.weighted({ 4, 3, 1, 1, 1, 1 }) : 0) {
      case 0: path = dir + "/" + name; break;
      case 1: path = name; to = dir; break;
      case 2: path = "./" + name; to = dir; break;
      case 3: path = "../" + name; to = dir + "/sub"; break;
      case 4: path = dir + "//" + name; break;
      default: path = "sub/../" + name; to = dir; break;
      }
      NOTE(ctx, "path " << vt::show(to.empty() ? path.substr(ctx.scratch.size()) : path) << (to.empty() ? " (absolute)" : " from " + to.substr(ctx.scratch.size())));
      if (!to.empty() && chdir(to.c_str())) throw std::runtime_error("chdir");
    }
    ~place() { if (chdir("/")) abort(); }
    std::string file() const { return dir + "/" + name; }
  };

  /// Where temporary files go: a directory which ought to be empty after every
  /// operation, sometimes on another file system
  struct tempdir {
    std::string dir;
    bool other = false;
    tempdir(vt::context &ctx, bool elsewhere)
    {
      dir = ctx.scratch + "/tmp";
      if (elsewhere) {
        struct stat a, b;
        if (0 == stat("/dev/shm", &a) && 0 == stat(ctx.scratch.c_str(), &b) && a.st_dev != b.st_dev) {
          dir = "/dev/shm/vt-scratch-" + std::to_string(getpid());
          other = true;
        }
      }
      std::error_code ec;
      fs::create_directories(dir, ec);
      if (ec) { dir = ctx.scratch + "/tmp"; other = false; fs::create_directories(dir); }
      // tmpnam() has little room for names, so go through a short alias
      current() = "/tmp/vt" + std::to_string(getpid());
      unlink(current().c_str());
      if (symlink(dir.c_str(), current().c_str())) throw std::runtime_error("symlink");
      setenv("TMPDIR", dir.c_str(), 1);
    }
    ~tempdir() { unlink(current().c_str()); current().clear(); std::error_code ec; fs::remove_all(dir, ec); }
    std::size_t files() const { return vt::snapshot(dir).size(); }
    static std::string& current() { static std::string s; return s; }
  };
}
