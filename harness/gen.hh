/* gen.hh -- descriptions of frames & tags, shared by the harnesses.
 *
 * An `fdesc' says what a frame means; from it we get the reference encoding
 * of its payload, the library's frame (built from bytes or from values), and
 * the view a reader ought to have of it. */
#pragma once

#include "engine.hh"
#include "refid3.hh"

#include <memory>
#include <string>
#include <vector>

#include <scribbu/scribbu.hh>
#include <scribbu/id3v1.hh>
#include <scribbu/id3v2.hh>
#include <scribbu/id3v22.hh>
#include <scribbu/id3v23.hh>
#include <scribbu/id3v24.hh>
#include <scribbu/framesv22.hh>
#include <scribbu/framesv23.hh>
#include <scribbu/framesv24.hh>

namespace gen {

  using vt::bytes;
  using vt::source;
  using ref::ustr;

  // --- text
  enum rep { ASCII, LATIN1, BMP, FULL };
  ustr text(source &s, rep r, std::size_t max = 24);
  /// `text', never empty
  ustr text1(source &s, rep r, std::size_t max = 24);
  bool fits(const ustr &t, rep r);
  /// bytes without NULs
  bytes cbytes(source &s, std::size_t max = 16);
  std::string cstr(source &s, std::size_t max = 16);

  // --- frames
  enum class kind { text, opaque, comment, utext, count, popm, ufid, cloud, priv, encr };

  struct fdesc {
    kind k = kind::text;
    std::string id;
    int enc = 0;           // text encoding as in the standard
    bool be = false;       // byte order, when enc is 1
    ustr text, dsc;
    std::string lang = "eng";
    bytes owner, data;     // data: opaque payload, UFID identifier, PRIV & ENCR data, counter
    unsigned char num = 0; // rating or method
    ref::cloud cloud;
    // format flags
    bool tap = false, fap = false, ro = false, compressed = false, unsync = false, dli = false;
    std::optional<unsigned char> gid;
  };

  struct fopts {
    bool flags = true;        // v2.3 & later: draw frame flags
    bool v24_unsync = false;  // draw frame level unsynchronisation
    bool compress = true;
    std::size_t max_text = 24, max_data = 40;
    bool encr = true;
    bool empty_opaque = false;
    bool multi = false;       // may texts in v2.4 have several values?
    unsigned big = 0;         // one frame in this many is large
  };

  const std::vector<std::string>& text_ids(int ver); // registered text frames
  /// Opaque ids
  std::string opaque_id(source &s, int ver);
  fdesc frame(source &s, int ver, const fopts &o = fopts());
  fdesc frame(source &s, int ver, kind k, const fopts &o = fopts());
  bytes payload(const fdesc &d);
  ref::frame to_ref(int ver, const fdesc &d);
  std::string show(const fdesc &d);
  std::uint64_t number(const bytes &counter); // big endian

  // --- what's observable of a frame
  struct view {
    std::vector<std::pair<std::string, std::string>> fields;
    void add(const std::string &k, const std::string &v) { fields.push_back(std::make_pair(k, v)); }
    const std::string *get(const std::string &k) const;
    std::string str() const;
  };

  /// Every field of `expected' has the same value in `actual'?
  bool agrees(const view &actual, const view &expected, std::string &why);
  /// `raw': the raw bytes are known, too; `unsync': include the v2.4 flag
  /// What the library makes of `u' on converting it to UTF-8
  std::string decoded(const ustr &u);
  view expect(int ver, const fdesc &d, bool raw = true, bool unsync = false);

  template <int V> struct lib;
  template <> struct lib<2> {
    typedef scribbu::id3v2_2_tag tag; typedef scribbu::id3v2_2_frame frame;
    typedef scribbu::id3v2_2_text_frame text; typedef scribbu::TXX utext;
    typedef scribbu::COM comment; typedef scribbu::CNT count; typedef scribbu::POP popm;
    typedef scribbu::UFI ufid; typedef scribbu::XTG cloud;
    typedef scribbu::unknown_id3v2_2_frame unknown;
    typedef scribbu::frame_id3 id;
    static const int hdr = 6;
  };
  template <> struct lib<3> {
    typedef scribbu::id3v2_3_tag tag; typedef scribbu::id3v2_3_frame frame;
    typedef scribbu::id3v2_3_text_frame text; typedef scribbu::TXXX utext;
    typedef scribbu::COMM comment; typedef scribbu::PCNT count; typedef scribbu::POPM popm;
    typedef scribbu::UFID ufid; typedef scribbu::XTAG cloud;
    typedef scribbu::PRIV priv; typedef scribbu::ENCR encr;
    typedef scribbu::unknown_id3v2_3_frame unknown;
    typedef scribbu::frame_id4 id;
    static const int hdr = 10;
  };
  template <> struct lib<4> {
    typedef scribbu::id3v2_4_tag tag; typedef scribbu::id3v2_4_frame frame;
    typedef scribbu::id3v2_4_text_frame text; typedef scribbu::TXXX_2_4 utext;
    typedef scribbu::COMM_2_4 comment; typedef scribbu::PCNT_2_4 count; typedef scribbu::POPM_2_4 popm;
    typedef scribbu::UFID_2_4 ufid; typedef scribbu::XTAG_2_4 cloud;
    typedef scribbu::PRIV_2_4 priv; typedef scribbu::ENCR_2_4 encr;
    typedef scribbu::unknown_id3v2_4_frame unknown;
    typedef scribbu::frame_id4 id;
    static const int hdr = 10;
  };

  template <int V> typename lib<V>::id mkid(const std::string &s)
  { return typename lib<V>::id(s.c_str()); }

  template <int V> view look(const typename lib<V>::frame &f);
  /// As when reading: a frame of the kind, id & flags of `d' with payload `b'
  template <int V> std::unique_ptr<typename lib<V>::frame> from_payload(const fdesc &d, const bytes &b);
  template <> std::unique_ptr<lib<2>::frame> from_payload<2>(const fdesc &d, const bytes &b);
  template <> std::unique_ptr<lib<3>::frame> from_payload<3>(const fdesc &d, const bytes &b);
  template <> std::unique_ptr<lib<4>::frame> from_payload<4>(const fdesc &d, const bytes &b);
  template <int V> std::unique_ptr<typename lib<V>::frame> from_bytes(const fdesc &d)
  { return from_payload<V>(d, payload(d)); }
  /// Null if there's no such constructor for `d', which then may be altered to
  /// what the constructor can express
  template <int V> std::unique_ptr<typename lib<V>::frame> from_values(fdesc &d);
  /// Append using the overload for the most derived type, or the generic one
  template <int V> void push(typename lib<V>::tag &t, const typename lib<V>::frame &f, bool generic);
  template <int V> typename lib<V>::tag::iterator
  insert(typename lib<V>::tag &t, typename lib<V>::tag::const_iterator p, const typename lib<V>::frame &f, bool generic);
  /// Replace the frame at `i'
  template <int V> void assign(typename lib<V>::tag &t, std::size_t i, const typename lib<V>::frame &f, bool generic);
  template <int V> std::vector<view> look_all(const typename lib<V>::tag &t);

  template <int V, typename T> bytes written(const T &t, bool unsync, std::size_t *ret = nullptr)
  {
    std::ostringstream os;
    std::size_t n = t.write(os, unsync);
    if (ret) *ret = n;
    std::string s = os.str();
    return bytes(s.begin(), s.end());
  }

  scribbu::language language(const std::string &code); // a few codes
  extern const std::vector<std::string> languages;

  /// Audio-ish bytes which start with an MPEG sync & contain no tags
  bytes audio(source &s, std::size_t max = 600);
  ref::v1 v1tag(source &s, bool allow_enh = true);
  /// A conformant tag image
  ref::tag reftag(source &s, int ver, std::vector<fdesc> &fs, std::size_t maxframes = 4, fopts o = fopts());
}
