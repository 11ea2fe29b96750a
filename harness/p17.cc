/* P17 -- tags survive the trip through Scheme values. */
#include "files.hh"

#include <libguile.h>

#include <clocale>
#include <iostream>

extern "C" void init_scribbu_shim(void*);

using namespace vt;
using namespace gen;

namespace {

  // --- the interpreter

  const char *PRELUDE = R"scm(
(use-modules (oop goops) (rnrs bytevectors) (scribbu))
(setlocale LC_ALL "")
(define (bytes->hex bv)
  (let ((p (open-output-string)) (digits "0123456789abcdef"))
    (let loop ((i 0))
      (if (< i (bytevector-length bv))
          (let ((x (bytevector-u8-ref bv i)))
            (write-char (string-ref digits (quotient x 16)) p)
            (write-char (string-ref digits (remainder x 16)) p)
            (loop (+ i 1)))))
    (get-output-string p)))
(define (hx x)
  (cond ((string? x) (string-append "=" (bytes->hex (string->utf8 x))))
        ((bytevector? x) (string-append "=" (bytes->hex x)))
        ((eq? x #t) "t")
        ((eq? x #f) "f")
        ((null? x) "-")
        ((number? x) (number->string x))
        ((symbol? x) (symbol->string x))
        (else "?")))
(define (cls x) (symbol->string (class-name (class-of x))))
(define (show-cloud tags)
  (string-join
    (map (lambda (kv) (string-append (hx (car kv)) ":" (string-join (map hx (cdr kv)) ",")))
         tags) ";"))
(define (slots f names) (string-join (map (lambda (n) (hx (slot-ref f n))) names) " "))
(define (show-frame f)
  (format #f "~a" f)
  (string-append
    "frame " (cls f) " " (slots f '(id tap fap ro unsync)) " "
    (let ((c (class-of f)))
      (cond ((eq? c <text-frame>) (slots f '(text)))
            ((eq? c <comment-frame>) (slots f '(lang dsc text)))
            ((eq? c <user-defined-text-frame>) (slots f '(dsc text)))
            ((eq? c <play-count-frame>) (slots f '(count)))
            ((eq? c <popm-frame>) (slots f '(e-mail rating count)))
            ((eq? c <tag-cloud-frame>) (string-append (slots f '(owner)) " " (show-cloud (slot-ref f 'tags))))
            ((eq? c <unk-frame>) (slots f '(id-text data)))
            (else "")))
    "\n"))
(define (show-tag x)
  (let ((tag (list-ref x 0)))
    (format #f "~a" tag)
    (string-append
      "tag " (hx (list-ref x 1)) " " (hx (list-ref x 2)) " "
      (slots tag '(experimental padding)) " "
      (hx (length (slot-ref tag 'frames))) "\n"
      (string-concatenate (map show-frame (slot-ref tag 'frames))))))
(define (show-tagset x) (string-concatenate (map show-tag x)))
(define (show-v1 x)
  (if (null? x) "none\n"
      (begin
        (format #f "~a" x)
        (string-append "v1 "
          (slots x '(title artist album year comment genre track-no enh-genre speed start-time end-time))
          "\n"))))
)scm";

  struct outcome { bool ok = false; std::string out; };
  struct request { const char *text; outcome o; };

  SCM eval_body(void *p)
  {
    request *r = (request*) p;
    SCM x = scm_c_eval_string(r->text);
    if (scm_is_string(x)) {
      std::size_t n;
      char *s = scm_to_utf8_stringn(x, &n);
      r->o.out.assign(s, n);
      free(s);
    }
    r->o.ok = true;
    return SCM_UNSPECIFIED;
  }
  SCM eval_failed(void *p, SCM key, SCM args)
  {
    request *r = (request*) p;
    SCM x = scm_object_to_string(scm_cons(key, args), SCM_UNDEFINED);
    std::size_t n;
    char *s = scm_to_utf8_stringn(x, &n);
    r->o.out.assign(s, n);
    free(s);
    r->o.ok = false;
    return SCM_UNSPECIFIED;
  }
  void* eval_guile(void *p)
  {
    scm_internal_catch(SCM_BOOL_T, eval_body, p, eval_failed, p);
    return nullptr;
  }
  outcome eval_(const std::string &text)
  {
    request r;
    r.text = text.c_str();
    scm_with_guile(eval_guile, &r);
    return r.o;
  }
  void* boot(void*)
  {
    scm_c_register_extension("libscribbu", "init_scribbu", (scm_t_extension_init_func) init_scribbu_shim, nullptr);
    return nullptr;
  }
  /// Evaluate an expression
  outcome eval(const std::string &text)
  {
    static bool up = false;
    if (!up) {
      setenv("LC_ALL", "C.UTF-8", 1);
      setenv("GUILE_AUTO_COMPILE", "0", 1);
      setenv("GUILE_WARN_DEPRECATED", "no", 1);
      setenv("GC_FREE_SPACE_DIVISOR", "400", 1); // collect garbage often
      setlocale(LC_ALL, "");
      scm_with_guile(boot, nullptr);
      outcome o = eval_("(set! %load-path (cons \"" REPO_DIR "/scheme\" %load-path))");
      if (o.ok) o = eval_("(begin " + std::string(PRELUDE) + ")");
      if (!o.ok) FAILK("startup", "the module can't be loaded: " << o.out);
      up = true;
    }
    return eval_(text);
  }

  std::string lit(const ustr &u)
  {
    std::string r = "\"";
    for (char32_t c: u) {
      char b[16];
      if (c == '"' || c == '\\') { r += '\\'; r += (char) c; }
      else if (c >= 32 && c < 127) r += (char) c;
      else if (c < 0x10000) { snprintf(b, sizeof b, "\\u%04x", (unsigned) c); r += b; }
      else { snprintf(b, sizeof b, "\\U%06x", (unsigned) c); r += b; }
    }
    return r + "\"";
  }
  std::string lit(const std::string &utf8)
  {
    ustr u;
    if (!ref::from_utf8(utf8, u)) std::abort();
    return lit(u);
  }
  std::string hexs(const bytes &b)
  {
    static const char *d = "0123456789abcdef";
    std::string r = "=";
    for (unsigned char c: b) { r += d[c / 16]; r += d[c % 16]; }
    return r;
  }
  std::string hexs(const std::string &s) { return hexs(B(s)); }

  std::vector<std::string> split(const std::string &s, char c)
  {
    std::vector<std::string> r;
    std::string x;
    for (char k: s) if (k == c) { r.push_back(x); x.clear(); } else x += k;
    r.push_back(x);
    return r;
  }
  std::vector<std::vector<std::string>> lines(const std::string &s)
  {
    std::vector<std::vector<std::string>> r;
    for (auto &l: split(s, '\n')) if (l.size()) r.push_back(split(l, ' '));
    return r;
  }

  // --- the frames the module knows

  struct entry { const char *sym, *id3, *id4; };
  // From the manual's table of frame identifiers
  const std::vector<entry> TEXTS{
    { "album-frame", "TAL", "TALB" }, { "artist-frame", "TP1", "TPE1" }, { "band-frame", "TP2", "TPE2" },
    { "bpm-frame", "TBP", "TBPM" }, { "composer-frame", "TCM", "TCOM" }, { "conductor-frame", "TP3", "TPE3" },
    { "content-group-frame", "TT1", "TIT1" }, { "copyright-frame", "TCR", "TCOP" }, { "date-frame", "TDA", "TDAT" },
    { "encoded-by-frame", "TEN", "TENC" }, { "file-owner-frame", "", "TOWN" }, { "file-type-frame", "TFT", "TFLT" },
    { "genre-frame", "TCO", "TCON" }, { "initial-key-frame", "TKE", "TKEY" }, { "interpreted-by-frame", "TP4", "TPE4" },
    { "isrc-frame", "TRC", "TSRC" }, { "langs-frame", "TLA", "TLAN" }, { "length-frame", "TLE", "TLEN" },
    { "lyricist-frame", "TXT", "TEXT" }, { "media-type-frame", "TMT", "TMED" }, { "original-album-frame", "TOT", "TOAL" },
    { "original-artist-frame", "TOA", "TOPE" }, { "original-filename-frame", "TOF", "TOFN" },
    { "original-lyricist-frame", "TOL", "TOLY" }, { "original-release-year-frame", "TOR", "TORY" },
    { "part-of-a-set-frame", "TPA", "TPOS" }, { "playlist-delay-frame", "TDY", "TDLY" }, { "publisher-frame", "TPB", "TPUB" },
    { "recording-dates-frame", "TRD", "TRDA" }, { "settings-frame", "TSS", "TSSE" }, { "size-frame", "TSI", "TSIZ" },
    { "station-name-frame", "", "TRSN" }, { "station-owner-frame", "", "TRSO" }, { "subtitle-frame", "TT3", "TIT3" },
    { "time-frame", "TIM", "TIME" }, { "title-frame", "TT2", "TIT2" }, { "track-frame", "TRK", "TRCK" },
    { "year-frame", "TYE", "TYER" },
  };
  std::string symbol_of(int ver, const std::string &id)
  {
    for (auto &e: TEXTS) if (id == (ver == 2 ? e.id3 : e.id4)) return e.sym;
    return "";
  }

  ustr trimmed(ustr u)
  {
    while (!u.empty() && (u.back() == ' ' || u.back() == 0)) u.pop_back();
    return u;
  }

  /// What a frame says, whatever the encoding it's in
  std::string content(int ver, const ref::frame &f)
  {
    std::ostringstream os;
    const bytes &b = f.payload;
    auto text = [](const bytes &x, int enc) -> std::string {
      ustr u;
      if (!ref::dec_text(x, enc, u)) return "malformed " + vt::show(x);
      return vt::show(ref::utf8(trimmed(u)));
    };
    auto number = [](bytes::const_iterator p, bytes::const_iterator q) {
      while (p != q && !*p) ++p;
      return vt::show(bytes(p, q));
    };
    auto pair = [&](std::size_t off) {
      int enc = b[0], w = enc == 1 || enc == 2 ? 2 : 1;
      std::size_t i = off;
      for (; i + w <= b.size(); i += w) if (!b[i] && (w == 1 || !b[i + 1])) break;
      if (i + w > b.size()) return std::string("unterminated");
      return text(bytes(b.begin() + off, b.begin() + i), enc) + ", " + text(bytes(b.begin() + i + w, b.end()), enc);
    };
    os << f.id << " ";
    if (!symbol_of(ver, f.id).empty() && b.size()) {
      os << text(bytes(b.begin() + 1, b.end()), b[0]);
    } else if ((f.id == "COM" || f.id == "COMM") && b.size() >= 4) {
      os << vt::show(std::string(b.begin() + 1, b.begin() + 4)) << ", " << pair(4);
    } else if ((f.id == "TXX" || f.id == "TXXX") && b.size()) {
      os << pair(1);
    } else if (f.id == "CNT" || f.id == "PCNT") {
      os << number(b.begin(), b.end());
    } else if (f.id == "POP" || f.id == "POPM") {
      auto p = std::find(b.begin(), b.end(), 0);
      os << vt::show(ref::utf8(trimmed(ref::from_latin1(bytes(b.begin(), p)))));
      if (p != b.end() && ++p != b.end()) { os << " " << (unsigned) *p; ++p; }
      os << " " << number(p, b.end());
    } else {
      os << vt::show(b); // clouds have but one representation
    }
    if (ver != 2) os << (f.tap ? " tap" : "") << (f.fap ? " fap" : "") << (f.ro ? " ro" : "");
    return os.str();
  }

  // --- generators

  std::string word(source &s, rep r) { return ref::utf8(text(s, r, 10)); }

  ref::cloud text_cloud(source &s)
  {
    ref::cloud c;
    for (std::size_t i = 0, n = s.below(4); i < n; ++i) {
      auto &v = c[word(s, s.flip() ? FULL : ASCII)];
      for (std::size_t j = 0, m = s.below(4); j < m; ++j) v.insert(word(s, s.flip() ? FULL : ASCII));
    }
    return c;
  }

  std::string language_code(source &s)
  {
    if (s.chance(4, 5)) return s.pick(languages);
    std::string l;
    for (int i = 0; i < 3; ++i) l += (char) s.range('A', 'z');
    return s.chance(1, 3) ? "XXX" : l;
  }

  /// A frame as may be found in files, whose strings can be represented in Scheme
  fdesc some_frame(source &s, int ver, bool many = false)
  {
    fopts o;
    o.multi = true;
    o.encr = false;
    fdesc d = many ? frame(s, ver, s.pick({ kind::text, kind::comment, kind::cloud, kind::opaque }), o) : frame(s, ver, o);
    if (d.k == kind::comment) d.lang = language_code(s);
    if (d.k == kind::text && s.flip()) {
      const entry &e = s.pick(TEXTS);
      if (ver != 2 || *e.id3) d.id = ver == 2 ? e.id3 : e.id4;
    }
    if (d.k == kind::cloud) { d.owner = B(word(s, s.chance(1, 4) ? FULL : ASCII)); d.cloud = text_cloud(s); }
    if (d.k == kind::popm) d.owner = B(word(s, ASCII));
    return d;
  }

  struct some_tag { ref::tag t; std::vector<fdesc> fds; };
  some_tag tag_of(source &s, int ver, std::size_t maxframes)
  {
    some_tag r;
    r.t = reftag(s, ver, r.fds, 0);
    r.t.frames.clear();
    r.fds.clear();
    for (std::size_t i = 0, n = maxframes > 50 ? maxframes : s.below(maxframes + 1); i < n; ++i) {
      fdesc d = some_frame(s, ver, maxframes > 50);
      if (ver == 4) d.unsync = r.t.unsync;
      r.fds.push_back(d);
      r.t.frames.push_back(to_ref(ver, d));
    }
    return r;
  }

  struct some_file { std::vector<some_tag> tags; bytes audio, tail; std::optional<ref::v1> v1;
    bytes lead() const { bytes b; for (auto &t: tags) app(b, ref::encode(t.t)); return b; }
    bytes rest() const { bytes b = audio; app(b, tail); return b; }
    bytes all() const { bytes b = lead(); app(b, rest()); return b; } };

  /// Years & times are ASCII
  ref::v1 some_v1(source &s)
  {
    ref::v1 v = v1tag(s);
    for (bytes *p: { &v.year, &v.start, &v.end }) for (auto &c: *p) c &= 0x7f;
    return v;
  }

  some_file file_of(source &s, context &ctx, std::size_t maxframes = 4)
  {
    some_file f;
    for (std::size_t i = 0, n = maxframes > 50 ? 1 : s.weighted({ 1, 6, 2, 1 }); i < n; ++i) f.tags.push_back(tag_of(s, s.range(2, 4), maxframes));
    f.audio = s.chance(1, 8) ? bytes() : audio(s, 200);
    if (s.chance(1, 2)) { f.v1 = some_v1(s); f.tail = ref::encode(*f.v1); }
    // Something in there may look like an ID3v1 tag ("XTAG")
    ref::v1 v;
    std::size_t off;
    if (ref::decode_v1(f.all(), v, off) != (bool) f.v1 || (f.v1 && v.enh != f.v1->enh)) throw discard();
    for (auto &t: f.tags) NOTE(ctx, "tag: " << vt::show(t.t).substr(0, 2000));
    if (f.v1) NOTE(ctx, "ID3v1: " << vt::show(*f.v1));
    return f;
  }

  // --- comparison of what Scheme sees with what's there

  std::string flag(bool b) { return b ? "t" : "f"; }

  std::string cloud_of(const ref::cloud &c)
  {
    std::string r;
    for (auto &kv: c) {
      std::string v;
      for (auto &x: kv.second) v += (v.empty() ? "" : ",") + hexs(x);
      r += (r.empty() ? "" : ";") + hexs(kv.first) + ":" + v;
    }
    return r;
  }
  /// in a canonical order
  std::string sorted(const std::string &cloud)
  {
    if (cloud.empty()) return cloud;
    std::vector<std::string> v = split(cloud, ';');
    for (auto &x: v) {
      auto p = x.find(':');
      std::vector<std::string> w = split(x.substr(p + 1), ',');
      std::sort(w.begin(), w.end());
      std::string y;
      for (auto &z: w) y += (y.empty() ? "" : ",") + z;
      x = x.substr(0, p + 1) + y;
    }
    std::sort(v.begin(), v.end());
    std::string r;
    for (auto &x: v) r += (r.empty() ? "" : ";") + x;
    return r;
  }

  /// `l' describes a frame which is `d'
  void frame_is(context &ctx, const std::vector<std::string> &l, int ver, const fdesc &d)
  {
    std::ostringstream all;
    for (auto &x: l) all << x << " ";
    auto eq = [&](std::size_t i, const std::string &x, const char *what) {
      CHECK(i < l.size() && l[i] == x, "frame", "v2." << ver << " frame " << gen::show(d) << ": " << what << " in Scheme should be " << x << ", in " << all.str());
    };
    eq(0, "frame", "first word");
    std::string sym = d.k == kind::text ? symbol_of(ver, d.id) : "";
    bool known = true;
    std::string cls, id = sym;
    std::vector<std::string> fields;
    switch (d.k) {
    case kind::text:
      cls = "<text-frame>";
      known = !sym.empty();
      fields = { hexs(decoded(d.text)) };
      break;
    case kind::comment:
      cls = "<comment-frame>"; id = "comment-frame";
      fields = { hexs(d.lang), hexs(decoded(d.dsc)), hexs(decoded(d.text)) };
      break;
    case kind::utext:
      cls = "<user-defined-text-frame>"; id = "udt-frame";
      fields = { hexs(decoded(d.dsc)), hexs(decoded(d.text)) };
      break;
    case kind::count:
      cls = "<play-count-frame>"; id = "play-count-frame";
      fields = { std::to_string(number(d.data)) };
      break;
    case kind::popm:
      cls = "<popm-frame>"; id = "popm-frame";
      fields = { hexs(decoded(ref::from_latin1(d.owner))), std::to_string(d.num), std::to_string(number(d.data)) };
      break;
    case kind::cloud:
      cls = "<tag-cloud-frame>"; id = "tag-cloud-frame";
      fields = { hexs(d.owner) };
      break;
    default:
      known = false;
    }
    if (ver != 2) {
      eq(3, flag(!d.tap), "tap");
      eq(4, flag(!d.fap), "fap");
      eq(5, flag(d.ro), "ro");
    }
    if (!known) {
      eq(1, "<unk-frame>", "class");
      eq(2, "unknown-frame", "id");
      eq(7, hexs(d.id), "id-text");
      // The manual says that the header is gone, the code (and a test) that it's there
      std::string want = hexs(gen::payload(d)).substr(1), got = l.size() > 8 ? l[8].substr(1) : "";
      std::size_t hdr = ver == 2 ? 12 : 20;
      CHECK(got == want || (got.size() == want.size() + hdr && got.substr(hdr) == want), "unknown",
            "v2." << ver << " frame " << gen::show(d) << ": the data should be " << want << ", perhaps with a header, are " << got);
    } else {
      eq(1, cls, "class");
      eq(2, id, "id");
      for (std::size_t i = 0; i < fields.size(); ++i) eq(7 + i, fields[i], "field");
      if (d.k == kind::cloud) {
        CHECK(l.size() > 8 && sorted(l[8]) == sorted(cloud_of(d.cloud)), "cloud", "frame " << gen::show(d) << ": the cloud in Scheme is " << all.str() << "; should be " << cloud_of(d.cloud));
      }
    }
    ctx.checked();
    ctx.label(known ? cls : std::string("<unk-frame>"));
  }

  void tagset_is(context &ctx, const std::string &dump, const std::vector<some_tag> &tags)
  {
    auto ll = lines(dump);
    std::size_t k = 0;
    for (auto &t: tags) {
      CHECK(k < ll.size() && ll[k].size() == 6 && ll[k][0] == "tag", "tags", "a tag is missing in\n" << dump);
      auto &l = ll[k++];
      CHECK_EQ(l[1], std::to_string(t.t.ver), "tag", "version");
      CHECK_EQ(l[2], flag(t.t.unsync), "tag", "unsynchronised");
      if (t.t.ver != 2) CHECK_EQ(l[3], flag(t.t.experimental), "tag", "experimental");
      CHECK_EQ(l[4], std::to_string(t.t.padding), "tag", "padding");
      CHECK_EQ(l[5], std::to_string(t.fds.size()), "tag", "number of frames");
      for (auto &d: t.fds) {
        CHECK(k < ll.size(), "frames", "a frame is missing in\n" << dump);
        frame_is(ctx, ll[k++], t.t.ver, d);
      }
    }
    CHECK_EQ(k, ll.size(), "tags", "there's more than there should be in\n" << dump);
  }

  // --- ID3v1

  /// Up to the NUL which may mark the end
  ustr field_text(const bytes &b)
  { return trimmed(ref::from_latin1(bytes(b.begin(), std::find(b.begin(), b.end(), 0)))); }
  /// Does anything follow the NUL?
  bool murky(const bytes &b)
  {
    auto p = std::find(b.begin(), b.end(), 0);
    return std::any_of(p, b.end(), [](unsigned char c) { return c; });
  }

  void v1_is(context &ctx, const std::string &dump, const std::optional<ref::v1> &v)
  {
    auto ll = lines(dump);
    CHECK(ll.size() == 1, "v1", "description of an ID3v1 tag: " << dump);
    auto &l = ll[0];
    if (!v) {
      CHECK_EQ(l[0], std::string("none"), "v1-none", "there's no ID3v1 tag");
      return;
    }
    CHECK(l[0] == "v1" && l.size() == 12, "v1", "there is an ID3v1 tag, got " << dump);
    auto field = [&](std::size_t i, const bytes &b, const char *what) {
      if (!murky(b)) CHECK_EQ(l[i], hexs(ref::utf8(field_text(b))), "v1-field", what);
    };
    field(1, v->title, "title");
    field(2, v->artist, "artist");
    field(3, v->album, "album");
    field(4, v->year, "year");
    field(5, v->comment, "comment");
    CHECK_EQ(l[6], std::to_string(v->genre), "v1-field", "genre");
    CHECK_EQ(l[7], v->v11 ? std::to_string(v->track) : std::string("-"), "v1-field", "track");
    if (v->enh) {
      field(8, v->egenre, "enhanced genre");
      CHECK_EQ(l[9], std::to_string(v->speed), "v1-field", "speed");
      field(10, v->start, "start time");
      field(11, v->end, "end time");
    }
    ctx.checked(11);
    ctx.label(v->enh ? "v1 enhanced" : v->v11 ? "v1.1" : "v1");
  }

  // --- the checks

  void start(context &ctx, bytes const &file)
  {
    clear_dir(ctx.scratch);
    spew(ctx.scratch + "/f", file);
  }

  void say(context &ctx, const std::string &prog) { NOTE(ctx, "evaluated: " << prog.substr(0, 3000)); }

  void read_files(source &s, context &ctx)
  {
    some_file f = file_of(s, ctx);
    start(ctx, f.all());
    std::string path = lit(ctx.scratch + "/f");
    outcome o = eval("(show-tagset (read-tagset " + path + "))");
    CHECK(o.ok, "read-error", "read-tagset failed: " << o.out);
    tagset_is(ctx, o.out, f.tags);
    o = eval("(show-v1 (read-id3v1-tag " + path + "))");
    CHECK(o.ok, "read-v1-error", "read-id3v1-tag failed: " << o.out);
    v1_is(ctx, o.out, f.v1);
    CHECK(slurp(ctx.scratch + "/f") == f.all(), "read-only", "reading changed the file");
    if (f.tags.size() || f.v1) ctx.nontrivial(hash(f.all()));
  }

  enum class au { never, always, as_needed };
  std::string options(source &s, au &u, bool &copy)
  {
    std::string r;
    u = au::never;
    switch (s.below(4)) {
    case 0: break;
    case 1: r += " #:apply-unsync #f"; break;
    case 2: r += " #:apply-unsync #t"; u = au::always; break;
    case 3: r += " #:apply-unsync 'as-needed"; u = au::as_needed; break;
    }
    copy = false;
    switch (s.below(3)) {
    case 0: break;
    case 1: r += " #:copy #f"; break;
    case 2: r += " #:copy #t"; copy = true; break;
    }
    return r;
  }

  /// The tags in the file are those, whose frames have this content
  struct expected_tag { int ver; bool experimental; std::vector<std::string> frames; };

  void file_is(context &ctx, const bytes &was, const bytes &rest, const std::vector<expected_tag> &want, au u, bool copy)
  {
    bytes b = slurp(ctx.scratch + "/f");
    std::vector<ref::tag> tags;
    std::string err;
    std::size_t off = ref::split_file(b, tags, err);
    CHECK(err.empty(), "malformed", "the file written has a bad tag: " << err << "\n" << vt::show(b));
    CHECK_EQ(tags.size(), want.size(), "number", "number of tags written");
    for (std::size_t i = 0; i < tags.size(); ++i) {
      CHECK_EQ(tags[i].ver, want[i].ver, "version", "version of the tag written");
      if (want[i].ver != 2) CHECK_EQ(tags[i].experimental, want[i].experimental, "experimental", "experimental");
      CHECK_EQ(tags[i].frames.size(), want[i].frames.size(), "frames", "number of frames written");
      for (std::size_t j = 0; j < tags[i].frames.size(); ++j) {
        CHECK_EQ(content(tags[i].ver, tags[i].frames[j]), want[i].frames[j], "content", "v2." << want[i].ver << " frame written: " << ref::show(tags[i].frames[j]));
      }
      if (u == au::never) CHECK(!tags[i].unsync, "unsync", "unsynchronisation was not asked for");
      if (u == au::always) CHECK(tags[i].unsync, "unsync", "unsynchronisation was asked for");
      ctx.checked(tags[i].frames.size());
    }
    if (u != au::never) {
      CHECK_EQ(ref::false_syncs(bytes(b.begin(), b.begin() + off)), 0u, "syncs", "number of false syncs in the tags written");
    }
    CHECK(bytes(b.begin() + off, b.end()) == rest, "audio", "what follows the tags has changed: " << vt::show(bytes(b.begin() + off, b.end())) << " was " << vt::show(rest));
    auto d = snapshot(ctx.scratch);
    // A tagset which can't be put in place is written using a copy, even if that's not asked for
    CHECK(d.size() == 2u || (!copy && d.size() == 1u), "files", "files afterwards:" << vt::show(d));
    for (auto &kv: d) if (kv.first != "f") CHECK(kv.second == was, "backup", "the backup differs from the original");
  }

  /// A frame as it is composed in Scheme
  struct composed { std::string expr, want; bool bad = false; };

  std::string flag_args(source &s, ref::frame &f)
  {
    std::string r;
    // undefined: as if clear in the file
    switch (s.below(3)) { case 0: break; case 1: r += " #:tap #t"; break; case 2: r += " #:tap #f"; f.tap = true; break; }
    switch (s.below(3)) { case 0: break; case 1: r += " #:fap #t"; break; case 2: r += " #:fap #f"; f.fap = true; break; }
    switch (s.below(3)) { case 0: break; case 1: r += " #:ro #f"; break; case 2: r += " #:ro #t"; f.ro = true; break; }
    switch (s.below(4)) { case 0: break; case 1: r += " #:unsync '()"; break; case 2: r += " #:unsync #f"; break; case 3: r += " #:unsync #t"; break; }
    return r;
  }

  composed compose(source &s, int ver, bool allow_bad)
  {
    ref::frame f;
    std::string flags = flag_args(s, f);
    rep r = s.weighted({ 2, 1, 2 }) == 0 ? ASCII : s.flip() ? LATIN1 : ver == 4 ? FULL : BMP;
    int enc = ver == 4 ? 3 : 1; // of no consequence
    composed c;
    auto id = [&](const char *id3, const char *id4) { f.id = ver == 2 ? id3 : id4; };
    switch (s.weighted({ 4, 2, 2, 1, 2, 2 })) {
    case 0: {
      const entry &e = s.pick(TEXTS);
      ustr t = text(s, r, 30);
      id(e.id3, e.id4);
      if (f.id.empty()) c.bad = true;
      f.payload = ref::p_text(t, enc);
      c.expr = "(make <text-frame> #:id '" + std::string(e.sym) + " #:text " + lit(t);
      break;
    }
    case 1: {
      ustr t = text(s, r, 30), d = text(s, r, 12);
      std::string l = language_code(s);
      id("COM", "COMM");
      f.payload = ref::p_comment(l, d, t, enc);
      c.expr = "(make <comment-frame> #:id 'comment-frame #:lang " + lit(l) + " #:dsc " + lit(d) + " #:text " + lit(t);
      if (l == "eng" && s.flip()) c.expr = "(make <comment-frame> #:id 'comment-frame #:dsc " + lit(d) + " #:text " + lit(t);
      break;
    }
    case 2: {
      ustr t = text(s, r, 30), d = text(s, r, 12);
      id("TXX", "TXXX");
      f.payload = ref::p_utext(d, t, enc);
      c.expr = "(make <user-defined-text-frame> #:id 'udt-frame #:dsc " + lit(d) + " #:text " + lit(t);
      break;
    }
    case 3: {
      std::uint64_t n = s.edgy(64);
      id("CNT", "PCNT");
      f.payload = ref::put_be(n, 8);
      c.expr = "(make <play-count-frame> #:id 'play-count-frame #:count " + std::to_string(n);
      if (allow_bad && s.chance(1, 10)) { c.bad = true; c.expr = "(make <play-count-frame> #:id 'play-count-frame #:count " + s.pick({ std::string("-1"), std::string("18446744073709551616"), std::string("\"1\"") }); }
      break;
    }
    case 4: {
      std::string w = word(s, ASCII);
      unsigned char n = s.spicy();
      std::uint64_t k = s.edgy(64);
      id("POP", "POPM");
      f.payload = ref::p_popm(B(w), n, ref::put_be(k, 8));
      std::string rating = std::to_string(n);
      if (allow_bad && s.chance(1, 10)) { c.bad = true; rating = s.pick({ std::string("-1"), std::string("256"), std::string("#f") }); }
      c.expr = "(make <popm-frame> #:id 'popm-frame #:e-mail " + lit(w) + " #:rating " + rating + " #:count " + std::to_string(k);
      break;
    }
    default: {
      std::string w = word(s, s.chance(1, 4) ? FULL : ASCII);
      ref::cloud cl = text_cloud(s);
      id("XTG", "XTAG");
      f.payload = ref::p_cloud(w, cl);
      c.expr = "(make <tag-cloud-frame> #:id 'tag-cloud-frame #:owner " + lit(w) + " #:tags (list";
      for (auto &kv: cl) {
        c.expr += " (cons " + lit(kv.first);
        if (kv.second.size() == 1 && s.flip()) c.expr += " " + lit(*kv.second.begin()) + ")";
        else {
          c.expr += " (list";
          for (auto &v: kv.second) c.expr += " " + lit(v);
          c.expr += "))";
        }
      }
      c.expr += ")";
    }
    }
    c.expr += flags + ")";
    c.want = content(ver, f);
    return c;
  }

  /// Change `d' from one version to another; false if that's not possible
  bool convert(fdesc &d, int from, int to)
  {
    const rep r = to == 4 ? FULL : BMP;
    auto ok = [&](const ustr &u) { return fits(u, r) && (to == 4 || u.find(U'\0') == ustr::npos); };
    if (!ok(d.text) || !ok(d.dsc)) return false;
    const char *id3 = "", *id4 = "";
    switch (d.k) {
    case kind::text: {
      std::string sym = symbol_of(from, d.id);
      for (auto &e: TEXTS) if (sym == e.sym) { id3 = e.id3; id4 = e.id4; }
      break;
    }
    case kind::comment: id3 = "COM"; id4 = "COMM"; break;
    case kind::utext: id3 = "TXX"; id4 = "TXXX"; break;
    case kind::count: id3 = "CNT"; id4 = "PCNT"; break;
    case kind::popm: id3 = "POP"; id4 = "POPM"; break;
    case kind::cloud: id3 = "XTG"; id4 = "XTAG"; break;
    default: return false;
    }
    d.id = to == 2 ? id3 : id4;
    d.enc = to == 4 ? 3 : 1;
    if (from == 2) d.tap = d.fap = d.ro = false;
    return !d.id.empty();
  }

  void round_trip(source &s, context &ctx)
  {
    some_file f = file_of(s, ctx, s.chance(1, 40) ? 51 + s.below(400) : 4);
    bytes was = f.all();
    start(ctx, was);
    std::string path = lit(ctx.scratch + "/f");
    au u; bool copy;
    std::string opts = options(s, u, copy);
    std::vector<expected_tag> want;
    for (auto &t: f.tags) {
      expected_tag e{ t.t.ver, t.t.experimental, {} };
      for (auto &x: t.t.frames) e.frames.push_back(content(t.t.ver, x));
      want.push_back(e);
    }
    // Perhaps alter something on the way
    std::string edit;
    if (f.tags.size()) {
      std::size_t i = s.below(f.tags.size());
      some_tag &t = f.tags[i];
      std::string tag = "(list-ref (list-ref ts " + std::to_string(i) + ") 0)";
      std::size_t j = s.below(t.fds.size() + 1);
      std::string frame = "(list-ref (slot-ref " + tag + " 'frames) " + std::to_string(j) + ")";
      switch (s.weighted({ 3, 2, 1, 1, 1 })) {
      case 0: break;
      case 4: { // write it as another version
        int ver = s.range(2, 4);
        std::vector<std::string> v;
        for (auto d: t.fds) {
          if (!convert(d, t.t.ver, ver)) break;
          v.push_back(content(ver, to_ref(ver, d)));
        }
        if (v.size() != t.fds.size()) break;
        edit = "(set-car! (cdr (list-ref ts " + std::to_string(i) + ")) " + std::to_string(ver) + ")";
        want[i].ver = ver;
        if (t.t.ver == 2) want[i].experimental = false;
        want[i].frames = v;
        break;
      }
      case 1: // alter some frame's slot
        if (j < t.fds.size()) {
          fdesc d = t.fds[j];
          ustr x = text(s, s.flip() ? ASCII : t.t.ver == 4 ? FULL : BMP, 20);
          d.enc = t.t.ver == 4 ? 3 : 1;
          switch (d.k) {
          case kind::text:
            if (symbol_of(t.t.ver, d.id).empty()) break;
            d.text = x; edit = "(slot-set! " + frame + " 'text " + lit(x) + ")";
            break;
          case kind::utext: case kind::comment:
            if (s.flip()) { d.text = x; edit = "(slot-set! " + frame + " 'text " + lit(x) + ")"; }
            else { d.dsc = x; edit = "(slot-set! " + frame + " 'dsc " + lit(x) + ")"; }
            break;
          case kind::count: case kind::popm: {
            std::uint64_t n = s.edgy(64);
            d.data = ref::put_be(n, 8);
            edit = "(slot-set! " + frame + " 'count " + std::to_string(n) + ")";
            break;
          }
          default: break;
          }
          if (edit.size()) want[i].frames[j] = content(t.t.ver, to_ref(t.t.ver, d));
        }
        break;
      case 2: // add one
        if (t.fds.size() < 20) {
          composed c = compose(s, t.t.ver, false);
          if (c.bad) break;
          edit = "(slot-set! " + tag + " 'frames (append (slot-ref " + tag + " 'frames) (list " + c.expr + ")))";
          want[i].frames.push_back(c.want);
        }
        break;
      case 3: // remove one
        if (j < t.fds.size()) {
          edit = "(slot-set! " + tag + " 'frames (delq " + frame + " (slot-ref " + tag + " 'frames)))";
          want[i].frames.erase(want[i].frames.begin() + j);
        }
        break;
      }
    }
    // A tag needs at least one frame
    for (auto &e: want) if (e.frames.empty()) throw discard();
    std::string prog = "(let ((ts (read-tagset " + path + "))) " + edit + " (write-tagset ts " + path + opts + ") \"done\")";
    say(ctx, prog);
    outcome o = eval(prog);
    CHECK(o.ok, "error", "reading & writing back failed: " << o.out);
    file_is(ctx, was, f.rest(), want, u, copy);
    ctx.label(edit.empty() ? "unaltered" : "altered");
    if (want.size()) ctx.nontrivial(hash(was, hash(prog)));
  }

  void compose_tags(source &s, context &ctx)
  {
    some_file f = file_of(s, ctx);
    bytes was = f.all();
    start(ctx, was);
    std::string path = lit(ctx.scratch + "/f");
    au u; bool copy;
    std::string opts = options(s, u, copy);
    std::vector<expected_tag> want;
    std::string prog = "(begin (write-tagset (list";
    bool bad = false;
    for (std::size_t i = 0, n = s.weighted({ 0, 6, 2 }); i < n; ++i) {
      int ver = s.range(2, 4);
      expected_tag e{ ver, s.chance(1, 4), {} };
      prog += " (list (make <id3v2-tag>";
      if (e.experimental) prog += " #:experimental #t";
      else if (s.flip()) prog += " #:experimental #f";
      prog += " #:frames (list";
      for (std::size_t j = 0, m = 1 + s.below(4); j < m; ++j) {
        composed c = compose(s, ver, true);
        bad = bad || c.bad;
        prog += " " + c.expr;
        e.frames.push_back(c.want);
      }
      prog += ")";
      if (s.flip()) prog += " #:padding " + std::to_string(s.small(300));
      prog += ") " + std::to_string(ver) + ")";
      want.push_back(e);
    }
    prog += ") " + path + opts + ") (show-tagset (read-tagset " + path + ")))";
    say(ctx, prog);
    outcome o = eval(prog);
    if (bad) {
      CHECK(!o.ok, "accepted", "values which can't be represented were accepted");
      CHECK(slurp(ctx.scratch + "/f") == was, "damaged", "after an error, the file has changed");
      ctx.label("refused");
      ctx.nontrivial(hash(was, hash(prog)));
      return;
    }
    CHECK(o.ok, "error", "writing failed: " << o.out);
    file_is(ctx, was, f.rest(), want, u, copy);
    ctx.nontrivial(hash(was, hash(prog)));
    ctx.label("composed");
  }

  bytes padded(bytes b, std::size_t n) { b.resize(n, 0); return b; }
  std::string text_of(const bytes &b) { return ref::utf8(field_text(b)); }

  /// The tag in the file says what `v' says; murky fields aside
  void v1_file_is(context &ctx, const bytes &was, const bytes &before, const ref::v1 &v)
  {
    bytes b = slurp(ctx.scratch + "/f");
    ref::v1 t;
    std::size_t off;
    CHECK(ref::decode_v1(b, t, off), "v1-missing", "there's no ID3v1 tag in the file written: " << vt::show(b));
    CHECK(bytes(b.begin(), b.begin() + off) == before, "audio", "what precedes the tag has changed: it's " << vt::show(bytes(b.begin(), b.begin() + off)) << ", was " << vt::show(before));
    auto field = [&](const bytes &x, const bytes &y, const char *what) {
      if (!murky(y)) CHECK_EQ(text_of(x), text_of(y), "v1-content", what << " written");
    };
    field(t.title, v.title, "title");
    field(t.artist, v.artist, "artist");
    field(t.album, v.album, "album");
    field(t.year, v.year, "year");
    field(t.comment, v.comment, "comment");
    CHECK_EQ(t.genre, v.genre, "v1-content", "genre written");
    if (!murky(v.comment)) CHECK_EQ(t.v11 ? t.track : 0, v.v11 ? v.track : 0, "v1-content", "track written");
    CHECK_EQ(t.enh ? t.speed : 0, v.enh ? v.speed : 0, "v1-content", "speed written");
    field(t.egenre, v.egenre, "enhanced genre");
    field(t.start, v.start, "start time");
    field(t.end, v.end, "end time");
    ctx.checked(11);
    CHECK_EQ(snapshot(ctx.scratch).size(), 1u, "files", "number of files afterwards");
  }

  void v1_round_trip(source &s, context &ctx)
  {
    some_file f = file_of(s, ctx, 1);
    f.v1 = some_v1(s);
    f.tail = ref::encode(*f.v1);
    bytes was = f.all();
    start(ctx, was);
    bytes before = f.lead();
    app(before, f.audio);
    std::string path = lit(ctx.scratch + "/f"), edit;
    ref::v1 want = *f.v1;
    NOTE(ctx, "ID3v1: " << vt::show(want));
    auto set = [&](bytes &b, const char *slot) {
      ustr x = text(s, LATIN1, b.size() + 5);
      if (x.size() > b.size()) x.resize(b.size());
      bytes y;
      ref::latin1(x, y);
      b = padded(y, b.size());
      edit = "(slot-set! v1 '" + std::string(slot) + " " + lit(x) + ")";
    };
    switch (s.below(6)) {
    case 0: case 1: break;
    case 2: set(want.title, "title"); break;
    case 3: set(want.artist, "artist"); break;
    case 4: want.genre = s.byte(); edit = "(slot-set! v1 'genre " + std::to_string(want.genre) + ")"; break;
    case 5: if (want.v11) { want.track = 1 + s.below(255); edit = "(slot-set! v1 'track-no " + std::to_string(want.track) + ")"; } break;
    }
    std::string prog = "(let ((v1 (read-id3v1-tag " + path + "))) " + edit + " (write-id3v1-tag v1 " + path + ") \"done\")";
    say(ctx, prog);
    outcome o = eval(prog);
    CHECK(o.ok, "error", "reading & writing back failed: " << o.out);
    v1_file_is(ctx, was, before, want);
    ctx.label(want.enh ? "v1 enhanced" : "v1");
    ctx.nontrivial(hash(was, hash(prog)));
  }

  void v1_from_values(source &s, context &ctx)
  {
    some_file f = file_of(s, ctx, 1);
    bytes was = f.all();
    start(ctx, was);
    bytes before = f.lead();
    app(before, f.audio);
    std::string path = lit(ctx.scratch + "/f");
    std::string prog = "(begin (write-id3v1-tag (make <id3v1-tag>";
    struct { const char *kw; ustr t; } names[3] = { { "title", {} }, { "artist", {} }, { "album", {} } };
    ref::v1 v;
    bool longer = false;
    for (auto &n: names) {
      if (s.chance(1, 4)) continue;
      n.t = text(s, s.flip() ? ASCII : LATIN1, s.pick({ 5, 40, 100 }));
      prog += std::string(" #:") + n.kw + " " + lit(n.t);
      if (n.t.size() > 30) longer = true;
    }
    bytes year;
    if (s.chance(3, 4)) { year = B(std::to_string(1000 + s.below(9000))); prog += " #:year \"" + S(year) + "\""; }
    ustr comment;
    if (s.chance(3, 4)) { comment = text(s, s.flip() ? ASCII : LATIN1, 40); prog += " #:comment " + lit(comment); }
    if (s.flip()) { v.genre = s.byte(); prog += " #:genre " + std::to_string(v.genre); }
    if (s.flip()) { v.v11 = true; v.track = 1 + s.below(255); prog += " #:track-no " + std::to_string(v.track); }
    bool enh = longer;
    ustr eg;
    std::string st, en;
    if (s.chance(1, 3)) { eg = text1(s, s.flip() ? ASCII : LATIN1, 40); prog += " #:enh-genre " + lit(eg); enh = true; }
    if (s.chance(1, 3)) { v.speed = 1 + s.below(4); prog += " #:speed " + std::to_string(v.speed); enh = true; }
    if (s.chance(1, 4)) { st = s.pick({ std::string("000:00"), std::string("012:34") }); prog += " #:start-time \"" + st + "\""; enh = true; }
    if (s.chance(1, 4)) { en = s.pick({ std::string("999:59"), std::string("012:35") }); prog += " #:end-time \"" + en + "\""; enh = true; }
    prog += ") " + path + ") \"done\")";
    v.enh = enh;
    auto put = [&](ustr u, std::size_t n) {
      if (u.size() > n) u.resize(n);
      bytes b;
      ref::latin1(u, b);
      return padded(b, n);
    };
    std::size_t n = enh ? 90 : 30;
    v.title = put(names[0].t, n); v.artist = put(names[1].t, n); v.album = put(names[2].t, n);
    v.year = padded(year, 4);
    v.comment = put(comment, v.v11 ? 28 : 30);
    if (!v.v11 && v.comment[28] == 0) v.comment[29] = 0;
    if (enh) { v.egenre = put(eg, 30); v.start = padded(B(st), 6); v.end = padded(B(en), 6); }
    say(ctx, prog);
    outcome o = eval(prog);
    CHECK(o.ok, "error", "writing failed: " << o.out);
    v1_file_is(ctx, was, before, v);
    ctx.label(enh ? "v1 enhanced" : "v1");
    ctx.nontrivial(hash(was, hash(prog)));
  }

  void walk(source &s, context &ctx)
  {
    clear_dir(ctx.scratch);
    std::string root = ctx.scratch + "/d";
    mkdir(root.c_str(), 0777);
    std::vector<std::string> dirs{ "" };
    for (std::size_t i = 0, n = s.below(4); i < n; ++i) {
      std::string d = s.pick(dirs) + "/" + s.pick({ std::string("a"), std::string("b"), std::string("c c"), std::string("\xc3\xa9") });
      if (0 == mkdir((root + d).c_str(), 0777)) dirs.push_back(d);
    }
    std::map<std::string, some_file> fs;
    std::map<std::string, bytes> damaged;
    for (std::size_t i = 0, n = s.below(6); i < n; ++i) {
      std::string p = s.pick(dirs) + "/" + s.pick({ std::string("x.mp3"), std::string("y"), std::string(".z"), std::string("\xc3\xa9.mp3") });
      if (fs.count(p) || damaged.count(p)) continue;
      if (s.chance(1, 5)) {
        bytes b = B(std::string("ID3\x03\x00\x00\x00\x00\x00\x20", 10));
        app(b, s.blob_upto(30));
        damaged[p] = b;
        spew(root + p, b);
      } else {
        fs[p] = file_of(s, ctx, 2);
        spew(root + p, fs[p].all());
      }
      NOTE(ctx, "file " << vt::show(p) << (damaged.count(p) ? " (damaged)" : ""));
    }
    auto before = snapshot(root);
    std::string prog = "(let ((out '())) (with-track-in " + lit(root)
      + " (lambda (ts p v1) (set! out (cons (string-append \"path \" (hx p) \"\\n\" (show-tagset ts) \"--\\n\" (show-v1 v1)) out)))) (string-concatenate out))";
    say(ctx, prog);
    outcome o = eval(prog);
    CHECK(o.ok, "error", "with-track-in failed: " << o.out);
    std::map<std::string, std::pair<std::string, std::string>> got;
    std::string cur;
    bool second = false;
    for (auto &l: split(o.out, '\n')) {
      if (l.compare(0, 5, "path ") == 0) {
        cur = l.substr(5); second = false;
        CHECK(!got.count(cur), "twice", "visited twice: " << cur);
        got[cur];
      } else if (l == "--") second = true;
      else if (l.size()) (second ? got[cur].second : got[cur].first) += l + "\n";
    }
    CHECK_EQ(got.size(), fs.size() + damaged.size(), "visits", "number of files visited by with-track-in");
    for (auto &kv: fs) {
      auto p = got.find(hexs(root + kv.first));
      CHECK(p != got.end(), "visits", "not visited: " << kv.first);
      tagset_is(ctx, p->second.first, kv.second.tags);
      v1_is(ctx, p->second.second, kv.second.v1);
    }
    for (auto &kv: damaged) CHECK(got.count(hexs(root + kv.first)), "visits", "not visited: " << kv.first);

    // The other ways to walk a tree
    std::multiset<std::string> want;
    for (auto &kv: fs) want.insert(hexs(root + kv.first));
    for (auto &kv: damaged) want.insert(hexs(root + kv.first));
    o = eval("(let ((g (fs-tree-generator " + lit(root) + "))) (let loop ((x (g)) (out \"\")) (if (eof-object? x) out (loop (g) (string-append out (hx x) \"\\n\")))))");
    CHECK(o.ok, "error", "fs-tree-generator failed: " << o.out);
    std::multiset<std::string> v;
    for (auto &l: split(o.out, '\n')) if (l.size()) v.insert(l);
    CHECK(v == want, "generator", "fs-tree-generator produced " << o.out);
    o = eval("(string-concatenate (map (lambda (x) (string-append (hx x) \"\\n\")) (flat-file-system-tree " + lit(root) + ")))");
    CHECK(o.ok, "error", "flat-file-system-tree failed: " << o.out);
    v.clear();
    for (auto &l: split(o.out, '\n')) if (l.size()) v.insert(l);
    // Empty directories?
    for (auto &x: want) CHECK_EQ(v.count(x), 1u, "flat", "flat-file-system-tree, times the file is listed");
    CHECK(snapshot(root) == before, "read-only", "walking changed files");
    ctx.checked(3);
    ctx.label(damaged.empty() ? "all readable" : "some damaged");
    if (fs.size()) ctx.nontrivial(hash(vt::show(before)));
  }

  /// has-frame? & get-frames
  void lookup(source &s, context &ctx)
  {
    some_file f = file_of(s, ctx, 6);
    if (f.tags.empty()) throw discard();
    start(ctx, f.all());
    some_tag &t = f.tags[0];
    std::string id;
    if (t.fds.size() && s.flip()) {
      const fdesc &d = s.pick(t.fds);
      id = d.k == kind::text ? symbol_of(t.t.ver, d.id) : d.k == kind::comment ? "comment-frame" : d.k == kind::utext ? "udt-frame" : d.k == kind::count ? "play-count-frame" : d.k == kind::popm ? "popm-frame" : d.k == kind::cloud ? "tag-cloud-frame" : "";
      if (id.empty()) id = "unknown-frame";
    } else id = s.pick({ std::string("title-frame"), std::string("comment-frame"), std::string("unknown-frame"), std::string("popm-frame"), std::string(s.pick(TEXTS).sym) });
    std::vector<const fdesc*> want;
    for (auto &d: t.fds) {
      std::string k = d.k == kind::text ? symbol_of(t.t.ver, d.id) : d.k == kind::comment ? "comment-frame" : d.k == kind::utext ? "udt-frame" : d.k == kind::count ? "play-count-frame" : d.k == kind::popm ? "popm-frame" : d.k == kind::cloud ? "tag-cloud-frame" : "";
      if (k.empty()) k = "unknown-frame";
      if (k == id) want.push_back(&d);
    }
    outcome o = eval("(let ((t (caar (read-tagset " + lit(ctx.scratch + "/f") + ")))) (string-append (hx (has-frame? t '" + id + ")) \"\\n\" (string-concatenate (map show-frame (get-frames t '" + id + ")))))");
    NOTE(ctx, "looking for " << id);
    CHECK(o.ok, "error", "looking for frames failed: " << o.out);
    auto ll = lines(o.out);
    CHECK_EQ(ll.size(), want.size() + 1, "number", "number of lines in\n" << o.out);
    CHECK_EQ(ll[0][0], flag(want.size()), "has-frame?", "has-frame? " << id);
    for (std::size_t i = 0; i < want.size(); ++i) frame_is(ctx, ll[i + 1], t.t.ver, *want[i]);
    if (want.size()) ctx.nontrivial(hash(f.all(), hash(id)));
    ctx.label(want.size() ? "found" : "not found");
  }
}

int main(int argc, char **argv)
{
  return run(argc, argv, spec { "P17",
      "the file has tags (or values are composed) & their content was compared with what Scheme sees or what was written",
      16000, 600000, {
        { "read", 4, read_files },
        { "round-trip", 6, round_trip },
        { "compose", 6, compose_tags },
        { "v1-round-trip", 3, v1_round_trip },
        { "v1-compose", 3, v1_from_values },
        { "walk", 1, walk },
        { "lookup", 2, lookup },
      }, {
        "encrypted frames are not generated: Scheme values have no place for the encryption method & the library can't write such frames",
        "group identifiers, compression, extended headers, footers & frame-level unsynchronisation have no place in Scheme values and may be lost; text encodings may change",
        "trailing spaces & NULs of texts aren't significant",
        "languages are three ASCII characters",
        "owners of popularimeters are ASCII, strings in tag clouds well-formed UTF-8",
        "in fields of ID3v1 tags nothing is expected of what follows a NUL",
        "the data of an <unk-frame> may or may not begin with the frame's header",
        "LC_ALL is C.UTF-8",
      } });
}
