/* refid3.hh -- an independent ID3 codec.
 *
 * Written from the ID3v1, ID3v1.1, ID3v2.2.0, 2.3.0 & 2.4.0 documents (not
 * from the code under test); used as the oracle & as a generator of input. */
#pragma once

#include "engine.hh"

#include <cstdint>
#include <map>
#include <optional>
#include <set>
#include <string>
#include <vector>

namespace ref {

  using vt::bytes;

  // --- text
  typedef std::u32string ustr;
  std::string utf8(const ustr &s);
  bool from_utf8(const std::string &s, ustr &out); // strict
  bool latin1(const ustr &s, bytes &out);          // false if not representable
  bytes utf16(const ustr &s, bool be);
  bool from_utf16(const unsigned char *p, std::size_t n, bool be, ustr &out);
  ustr from_latin1(const bytes &b);
  /// Encode for a text field: 0 Latin-1, 1 UTF-16 + BOM, 2 UTF-16BE, 3 UTF-8
  bytes enc_text(const ustr &s, int enc, bool be = false);
  /// Decode text field bytes; false if malformed
  bool dec_text(const bytes &b, int enc, ustr &out);

  // --- integers
  std::uint32_t be32(const unsigned char *p);
  bytes put_be(std::uint64_t x, unsigned n);
  bytes put_ss(std::uint32_t x, unsigned n = 4);   // sync-safe

  // --- unsynchronisation
  bytes unsync(const bytes &b, bool last);
  bytes resync(const bytes &b);
  /// false syncs: ff followed by 111xxxxx
  std::size_t false_syncs(const bytes &b);
  /// places the scheme changes: false syncs & ff 00
  std::size_t changed(const bytes &b);

  // --- tags
  struct frame {
    std::string id;
    bytes payload;                      // as if all format flags were clear
    bool tap = false, fap = false, ro = false; // "discard", "discard", "set"
    bool compressed = false;
    std::optional<unsigned char> enc, gid;
    bool unsync = false;                // 2.4
    bool dli = false;                   // 2.4
    bool operator==(const frame &) const = default;
  };

  struct tag {
    int ver = 3;                        // 2, 3, 4
    bool unsync = false;
    bool experimental = false;
    bool compression = false;           // 2.2
    bool ext = false;
    std::optional<std::uint32_t> crc;   // 2.3 & 2.4
    bool update = false;                // 2.4
    std::optional<unsigned char> restrictions; // 2.4
    std::optional<std::uint32_t> sum;   // 2.3 & 2.4, on decoding: what the CRC ought to be, if that's settled
    std::uint32_t ext_padding = 0;      // 2.3: as recorded in the extended header
    bool footer = false;
    std::vector<frame> frames;
    std::size_t padding = 0;
  };

  bytes enc_frame(int ver, const frame &f);
  bytes encode(const tag &t);
  /// Decode the tag at `off'; on success sets `used' to its total length
  bool decode(const bytes &b, std::size_t off, tag &t, std::size_t &used, std::string &err);
  std::string show(const frame &f);
  std::string show(const tag &t);

  // --- frame payloads
  bytes p_text(const ustr &s, int enc, bool be = false);
  bytes p_utext(const ustr &dsc, const ustr &s, int enc, bool be = false);
  bytes p_comment(const std::string &lang, const ustr &dsc, const ustr &s, int enc, bool be = false);
  bytes p_popm(const bytes &owner, unsigned char rating, const bytes &counter);
  bytes p_ufid(const bytes &owner, const bytes &id);
  bytes p_encr(const bytes &owner, unsigned char method, const bytes &data);
  typedef std::map<std::string, std::set<std::string>> cloud;
  bytes p_cloud(const std::string &owner, const cloud &c);
  bytes p_priv(const bytes &owner, const bytes &data);

  // --- ID3v1
  struct v1 {
    bool v11 = false, enh = false;
    bytes title, artist, album, year, comment; // full width, exactly as on disk
    unsigned char track = 0, genre = 255;
    unsigned char speed = 0;
    bytes egenre, start, end;
    bool operator==(const v1 &) const = default;
  };
  bytes encode(const v1 &t);
  /// Decode the tag at the end of the file; false if there's none
  bool decode_v1(const bytes &file, v1 &t, std::size_t &off);
  std::string show(const v1 &t);

  /// Offset past all leading (reference-decodable) ID3v2 tags
  std::size_t split_file(const bytes &file, std::vector<tag> &tags, std::string &err);
}

namespace vt {
  inline std::string show(const ref::frame &f) { return ref::show(f); }
  inline std::string show(const ref::tag &t) { return ref::show(t); }
  inline std::string show(const ref::v1 &t) { return ref::show(t); }
}
