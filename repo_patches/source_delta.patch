From 77c910392f84780fc95a4dbbef0c57b4f814ff86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:12:03 +0000
Subject: [PATCH 001/194] fix: match text that shares nothing with any genre

When no genre is nearer than the length of the text (or, for shorter text,
of the longest genre name), match_winamp_genre used an uninitialised genre
number.
---
 scribbu/winamp-genres.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/scribbu/winamp-genres.cc b/scribbu/winamp-genres.cc
index 007b727..aa20867 100644
--- a/scribbu/winamp-genres.cc
+++ b/scribbu/winamp-genres.cc
@@ -582,8 +582,9 @@ scribbu::match_winamp_genre(const std::string &text)
 
   // OK-- `FKP' is initialized. Now iterate over all genres, comparing `wtext'
   // to each; return the match with minimal Damerau-Levenshtein distance.
-  size_t least_dl = inf;
-  unsigned char best_genre;
+  // The distance can be as large as `inf' (when nothing at all matches).
+  size_t least_dl = inf + 1;
+  unsigned char best_genre = 0;
   for (size_t i = 0; i < NUM_GENRES; ++i) {
     size_t DL = damerau_levenshtein(GENRESW[i], wtext, n, (ptrdiff_t*)FKP, max_k, max_p, zero_k, inf);
     if (DL < least_dl) {
-- 
2.43.0


From 6893cadb3b9310d875ca6bd0676ba0f6b649bbe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:13:38 +0000
Subject: [PATCH 002/194] fix: keep the genre matcher inside its work table

Short text made match_winamp_genre index before the beginning of its work
table, and long text overflowed the stack on which the table was laid out.
Start at the first distance possible, leave room for the outermost
diagonals and put the table on the heap.
---
 scribbu/winamp-genres.cc | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/scribbu/winamp-genres.cc b/scribbu/winamp-genres.cc
index aa20867..3195e8b 100644
--- a/scribbu/winamp-genres.cc
+++ b/scribbu/winamp-genres.cc
@@ -290,7 +290,7 @@ namespace {
     size_t m = A.length();
     // The minimal p will be at the end of diagonal k
     ptrdiff_t k = n - m;
-    ptrdiff_t p = k;
+    ptrdiff_t p = k < 0 ? -k : k;
 
     do {
       ptrdiff_t inc = p;
@@ -547,13 +547,14 @@ scribbu::match_winamp_genre(const std::string &text)
   // We can build FKP here & re-use it for each individual comparison. FKP is a
   // two-dimensional array consisting of `max_k' rows & `max_p' columns. In the
   // exposition, the indicies run over -m to n (all diagonals) and from -1 to
-  // the maxium p (max(m,n) = `inf') respectivey.
-  size_t max_k = inf + inf + 1;
+  // the maxium p (max(m,n) = `inf') respectivey. Computing f(k,p) refers to the
+  // diagonals on either side of k, so allow for one more at each end.
+  size_t max_k = inf + inf + 3;
   size_t max_p = inf + 2;
 
   // That means that to lookup the value for f(k,p), we need to index as:
   // FKP[k + zero_k][p+1] (i.e. the exposition is incorrect in this regard).
-  ptrdiff_t zero_k = inf;
+  ptrdiff_t zero_k = inf + 1;
 
   // In testing, a naked 2D array far out-performed a vector of vectors. I'm not
   // entirely sure why; profiling showed a lot of time being spent in operator[]
@@ -561,10 +562,7 @@ scribbu::match_winamp_genre(const std::string &text)
   // the C99 feature & gcc extension of Variable Length Array. Once I had a
   // working implementation with unit tests, I replaced it with an equivalent &
   // standard-compliant 1D array into which I compute my own indexing.
-  ptrdiff_t FKP[max_k*max_p];
-  for (ptrdiff_t i = 0; i < max_k*max_p; ++i) {
-    FKP[i] = -inf;
-  }
+  vector<ptrdiff_t> FKP(max_k*max_p, -(ptrdiff_t)inf);
 
   for (ptrdiff_t k = - zero_k; k <= zero_k; ++k) {
     ptrdiff_t abs_k = k;
@@ -586,7 +584,7 @@ scribbu::match_winamp_genre(const std::string &text)
   size_t least_dl = inf + 1;
   unsigned char best_genre = 0;
   for (size_t i = 0; i < NUM_GENRES; ++i) {
-    size_t DL = damerau_levenshtein(GENRESW[i], wtext, n, (ptrdiff_t*)FKP, max_k, max_p, zero_k, inf);
+    size_t DL = damerau_levenshtein(GENRESW[i], wtext, n, FKP.data(), max_k, max_p, zero_k, inf);
     if (DL < least_dl) {
       least_dl = DL;
       best_genre = i;
-- 
2.43.0


From 9840ef42b6cc7e04962ff222b007e2094a050be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:20:38 +0000
Subject: [PATCH 003/194] fix: initialise ID3v2.2 tags created from scratch

---
 scribbu/id3v22.cc | 13 +++++++++++++
 scribbu/id3v22.hh |  3 +--
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/scribbu/id3v22.cc b/scribbu/id3v22.cc
index 074e9b1..76454f0 100644
--- a/scribbu/id3v22.cc
+++ b/scribbu/id3v22.cc
@@ -198,6 +198,19 @@ scribbu::id3v2_2_tag::id3v2_2_tag(std::istream     &is,
   parse(is, H.size_);
 }
 
+// NB ID3v2.2 has no "experimental" flag
+scribbu::id3v2_2_tag::id3v2_2_tag(std::size_t cbpad /*= 0*/,
+                                  bool /*fexp = false*/):
+  id3v2_tag(2, 0),
+  compression_(false),
+  padding_(cbpad)
+{
+  get_default_generic_frame_parsers(
+    std::inserter(generic_parsers_, generic_parsers_.begin()));
+  get_default_text_frame_parsers(
+    std::inserter(text_parsers_, text_parsers_.begin()));
+}
+
 scribbu::id3v2_2_tag::id3v2_2_tag(const id3v2_2_tag &that):
   id3v2_tag(that),
   text_parsers_(that.text_parsers_),
diff --git a/scribbu/id3v22.hh b/scribbu/id3v22.hh
index 1f6708b..c9dc6d1 100644
--- a/scribbu/id3v22.hh
+++ b/scribbu/id3v22.hh
@@ -95,8 +95,7 @@ namespace scribbu {
     /// Read an ID3v2.2 tag once it's header has already been read into \a H
     id3v2_2_tag(std::istream &is, const id3v2_info &H);
     /// Initialize an ID3v2.2 tag "from scratch"
-    id3v2_2_tag(std::size_t cbpad = 0, bool fexp = false): id3v2_tag(2, 0)
-    { }
+    id3v2_2_tag(std::size_t cbpad = 0, bool fexp = false);
     id3v2_2_tag(const id3v2_2_tag &that);
     virtual id3v2_tag* clone() const
     { return new id3v2_2_tag(*this); }
-- 
2.43.0


From d879757e6e4c974380e59346981dfcc3b2575eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:20:38 +0000
Subject: [PATCH 004/194] fix: apply unsynchronisation to ID3v2.2 frames when
 asked, not otherwise

---
 scribbu/framesv22.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scribbu/framesv22.cc b/scribbu/framesv22.cc
index 71b8974..e9019f8 100644
--- a/scribbu/framesv22.cc
+++ b/scribbu/framesv22.cc
@@ -81,7 +81,7 @@ scribbu::id3v2_2_frame::serialized_size(bool unsync,
                                         bool /*last_no_pad = false*/) const
 {
   ensure_cached_data_is_fresh();
-  return cache_[unsync ? SERIALIZED : SERIALIZED_WITH_UNSYNC].size();
+  return cache_[unsync ? SERIALIZED_WITH_UNSYNC : SERIALIZED].size();
 }
 
 /// Return zero if this tag would not contain false syncs if serialized in
@@ -103,7 +103,7 @@ std::size_t
 scribbu::id3v2_2_frame::write(std::ostream &os, bool unsync) const
 {
   ensure_cached_data_is_fresh();
-  unsigned char idx = unsync ? SERIALIZED : SERIALIZED_WITH_UNSYNC;
+  unsigned char idx = unsync ? SERIALIZED_WITH_UNSYNC : SERIALIZED;
   os.write((char*)&cache_[idx][0], cache_[idx].size());
   return cache_[idx].size();
 }
-- 
2.43.0


From c3e395caf5cef61dae92cd60cde2f8e2a9a06b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:21:28 +0000
Subject: [PATCH 005/194] fix: recognise every MPEG sync word as a false sync

---
 scribbu/framesv2.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scribbu/framesv2.cc b/scribbu/framesv2.cc
index 76af9e8..b6b3889 100644
--- a/scribbu/framesv2.cc
+++ b/scribbu/framesv2.cc
@@ -36,13 +36,13 @@
 bool
 scribbu::detail::is_false_sync(unsigned char x, unsigned char y)
 {
-  return 255 == x && 233 < y;
+  return 255 == x && 0xe0 <= y;
 }
 
 bool
 scribbu::detail::needs_unsync(unsigned char x, unsigned char y)
 {
-  return 255 == x && (233 < y || 0 == y);
+  return 255 == x && (0xe0 <= y || 0 == y);
 }
 
 std::size_t
-- 
2.43.0


From fda6b97592af3fdecdedf77e7421c9a2dc6d6dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:21:28 +0000
Subject: [PATCH 006/194] fix: do not look for a string terminator beyond the
 end of a frame

---
 scribbu/framesv2.hh | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/scribbu/framesv2.hh b/scribbu/framesv2.hh
index a510282..22716be 100644
--- a/scribbu/framesv2.hh
+++ b/scribbu/framesv2.hh
@@ -89,20 +89,15 @@ namespace scribbu {
                        forward_input_iterator p1)
     {
       // Walk [p0, p1) seeking the first sequence of `code_unit' zero bytes.
-      std::size_t saw_nil = 0;
-      for ( ; p0 < p1; p0 += code_unit) {
-        if (1 == code_unit && 0 == *p0) {
-          break;
-        }
-        else {
-          unsigned char b0 = *p0, b1 = *(p0 + 1);
-          if (0 == b0 && 0 == b1) {
-            break;
-          }
+      for ( ; code_unit <= std::size_t(p1 - p0); p0 += code_unit) {
+        if (std::all_of(p0, p0 + code_unit,
+                        [](unsigned char b) { return 0 == b; })) {
+          return p0;
         }
       }
 
-      return p0;
+      // No terminator
+      return p1;
     }
 
     /// Return true iff [x, y] contain an MP3 sync word (i.e. the bit
-- 
2.43.0


From ab5a40bb5e4441ebeec7a003b8eb4e7962f6509a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:21:48 +0000
Subject: [PATCH 007/194] fix: count the false syncs that straddle the fields
 of a frame

---
 scribbu/framesv2.cc | 163 +++++++-------------------------------------
 1 file changed, 26 insertions(+), 137 deletions(-)

diff --git a/scribbu/framesv2.cc b/scribbu/framesv2.cc
index b6b3889..bbfebe0 100644
--- a/scribbu/framesv2.cc
+++ b/scribbu/framesv2.cc
@@ -618,6 +618,26 @@ std::size_t std::hash<scribbu::frame_id4>::operator()(const scribbu::frame_id4 &
 }
 
 
+///////////////////////////////////////////////////////////////////////////////
+//                 utility functions private to this module                  //
+///////////////////////////////////////////////////////////////////////////////
+
+namespace {
+
+  /// Count the syncs in the serialized form of \a x, including those that
+  /// straddle its fields
+  template <typename structure>
+  std::size_t
+  count_serialized_syncs(const structure &x, bool false_only)
+  {
+    std::ostringstream os;
+    x.write(os);
+    std::string buf = os.str();
+    return scribbu::detail::count_syncs(buf.begin(), buf.end(), false_only);
+  }
+
+}
+
 ///////////////////////////////////////////////////////////////////////////////
 //                           class unique_file_id                            //
 ///////////////////////////////////////////////////////////////////////////////
@@ -662,13 +682,7 @@ scribbu::unique_file_id::write(std::ostream &os) const
 std::size_t
 scribbu::unique_file_id::count_syncs(bool false_only) const
 {
-  using namespace std;
-  using namespace scribbu::detail;
-
-  size_t n = detail::count_syncs(owner_.begin(), owner_.end(), false_only);
-  // owner is null-terminated, so possibility of a false sync
-  n += detail::count_syncs(id_.begin(), id_.end(), false_only);
-  return n;
+  return count_serialized_syncs(*this, false_only);
 }
 
 
@@ -719,31 +733,7 @@ scribbu::encryption_method::write(std::ostream &os) const
 std::size_t
 scribbu::encryption_method::count_syncs(bool false_only) const
 {
-  using namespace std;
-  using namespace scribbu::detail;
-
-  size_t count = detail::count_syncs(email_.begin(), email_.end(), false_only);
-
-  if (!email_.empty()) {
-    if (false_only && is_false_sync(email_.back(), method_symbol_)) {
-      ++count;
-    }
-    else if (!false_only && needs_unsync(email_.back(), method_symbol_)) {
-      ++count;
-    }
-  }
-  // email_ is null-terminated, so no possibility of a false sync...
-  // but there could be one between method_symbol_ & data_:
-  if (!data_.empty()) {
-    if (false_only && is_false_sync(method_symbol_, data_.front())) {
-      ++count;
-    }
-    else if (!false_only && is_false_sync(method_symbol_, data_.front())) {
-      ++count;
-    }
-  }
-  count += detail::count_syncs(data_.begin(), data_.end(), false_only);
-  return count;
+  return count_serialized_syncs(*this, false_only);
 }
 
 
@@ -866,23 +856,7 @@ scribbu::user_defined_text::write(std::ostream &os) const
 std::size_t
 scribbu::user_defined_text::count_syncs(bool false_only) const
 {
-  using namespace scribbu::detail;
-
-  std::size_t cb = 0;
-
-  if (false_only && description_.size() &&
-      is_false_sync(unicode_, description_.front())) {
-    ++cb;
-  }
-  else if (!false_only && description_.size() &&
-           needs_unsync(unicode_, description_.front())) {
-    ++cb;
-  }
-
-  cb += detail::count_syncs(description_.begin(), description_.end(), false_only);
-  cb += detail::count_syncs(text_.begin(), text_.end(), false_only);
-
-  return cb;
+  return count_serialized_syncs(*this, false_only);
 }
 
 
@@ -1019,42 +993,7 @@ scribbu::comments::write(std::ostream &os) const
 std::size_t
 scribbu::comments::count_syncs(bool false_only) const
 {
-  using namespace scribbu::detail;
-
-  std::size_t cb = 0;
-
-  if (false_only && is_false_sync(unicode_, lang_[0])) {
-    ++cb;
-  }
-  else if (!false_only && needs_unsync(unicode_, lang_[0])) {
-    ++cb;
-  }
-
-  cb += detail::count_syncs(lang_, lang_ + 3, false_only);
-
-  if (false_only && description_.size() &&
-      is_false_sync(lang_[2], description_.front())) {
-    ++cb;
-  }
-  else if (!false_only && description_.size() &&
-           needs_unsync(lang_[2], description_.front())) {
-    ++cb;
-  }
-
-  cb += detail::count_syncs(description_.begin(), description_.end(), false_only);
-
-  if (false_only && description_.size() &&
-      is_false_sync(description_.back(), text_.front())) {
-    ++cb;
-  }
-  else if (!false_only && description_.size() &&
-           needs_unsync(description_.back(), text_.front())) {
-    ++cb;
-  }
-
-  cb += detail::count_syncs(text_.begin(), text_.end(), false_only);
-
-  return cb;
+  return count_serialized_syncs(*this, false_only);
 }
 
 bool
@@ -1220,21 +1159,7 @@ scribbu::popularimeter::write(std::ostream &os) const
 std::size_t
 scribbu::popularimeter::count_syncs(bool false_only) const
 {
-  std::size_t cb = 0;
-
-  cb += detail::count_syncs(email_.begin(), email_.end(), false_only);
-  if (false_only && counter_.size() &&
-      detail::is_false_sync(rating_, counter_.front())) {
-    ++cb;
-  }
-  else if (!false_only && counter_.size() &&
-           detail::needs_unsync(rating_, counter_.front())) {
-    ++cb;
-  }
-
-  cb += detail::count_syncs(counter_.begin(), counter_.end(), false_only);
-
-  return cb;
+  return count_serialized_syncs(*this, false_only);
 }
 
 void
@@ -1462,43 +1387,7 @@ scribbu::tag_cloud::write(std::ostream &os) const
 std::size_t
 scribbu::tag_cloud::count_syncs(bool false_only) const
 {
-  using namespace std;
-  using namespace scribbu::detail;
-
-  size_t nsync = 0;
-
-  // The current version is 1, so no false sync.
-  nsync += detail::count_syncs(own_.begin(), own_.end(), false_only);
-
-  // Owner is null-terminated, so no false sync between owner & the first key.
-  for (auto kv: tags_) {
-
-    // `kv' is a pair<const string, set<string>>
-    const string &key = kv.first;
-    nsync += detail::count_syncs(key.begin(), key.end(), false_only);
-    // Keys are null-terminated, so no false sync between owner & the first key.
-    // Next up will be the combined length of all values (including trailing
-    // nulls).
-    uint32_t nval = 0;
-    for (auto v: kv.second) {
-      nval += v.length() + 1;
-      nsync += detail::count_syncs(v.begin(), v.end(), false_only);
-    }
-    // `nval' itself may contain false syncs:
-    nsync += detail::count_syncs(nval, false_only);
-
-    // Now, if the last octet of `nval' happens to be 0xff _and_ false_only
-    // is true, we _could_ have a false sync between the value byte count &
-    // the first string.
-    if (false_only) {
-      unsigned char y = (unsigned char)(kv.second.begin()->front());
-      if ((0xff == (0xff & nval)) && is_false_sync(0xff, y)) {
-        ++nsync;
-      }
-    }
-  }
-
-  return nsync;
+  return count_serialized_syncs(*this, false_only);
 }
 
 void
-- 
2.43.0


From 612d804b1f922d634213794cbd6d111ef70a4f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:21:48 +0000
Subject: [PATCH 008/194] fix: terminate the owner when writing an encryption
 registration

---
 scribbu/framesv2.cc | 3 ++-
 scribbu/framesv2.hh | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/scribbu/framesv2.cc b/scribbu/framesv2.cc
index bbfebe0..66d0979 100644
--- a/scribbu/framesv2.cc
+++ b/scribbu/framesv2.cc
@@ -722,11 +722,12 @@ scribbu::encryption_method::write(std::ostream &os) const
   if (!email_.empty()) {
     os.write((const char*)&(email_[0]), email_.size());
   }
+  os.write(&zed, 1);
   os.write((const char*)&method_symbol_, 1);
   if (!data_.empty()) {
     os.write((const char*)&(data_[0]), data_.size());
   }
-  return email_.size() + 1 + data_.size();
+  return email_.size() + 1 + 1 + data_.size();
 
 }
 
diff --git a/scribbu/framesv2.hh b/scribbu/framesv2.hh
index 22716be..af722d0 100644
--- a/scribbu/framesv2.hh
+++ b/scribbu/framesv2.hh
@@ -525,7 +525,7 @@ namespace scribbu {
     /// and/or decryption
     template <typename forward_input_iterator>
     encryption_method(forward_input_iterator p0,
-                      forward_input_iterator p1) {
+                      forward_input_iterator p1): method_symbol_(0) {
       forward_input_iterator p = std::find(p0, p1, 0);
       std::copy(p0, p, std::back_inserter(email_));
       if (p != p1) {
-- 
2.43.0


From 2c261cd15e12aa6f239be59d4c02d7b6f2d65783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:21:48 +0000
Subject: [PATCH 009/194] fix: mark ID3v2.4 user-defined text as UTF-8 with the
 standard's code

---
 scribbu/framesv2.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scribbu/framesv2.cc b/scribbu/framesv2.cc
index 66d0979..6fad3ae 100644
--- a/scribbu/framesv2.cc
+++ b/scribbu/framesv2.cc
@@ -781,13 +781,13 @@ scribbu::user_defined_text::user_defined_text(id3v2_version ver,
       cbnil_ = 1;
       break;
     case use_unicode::yes:
-      unicode_ = 4;
+      unicode_ = 3;
       dst = encoding::UTF_8;
       add_bom = false;
       cbnil_ = 1;
       break;
     case use_unicode::with_bom:
-      unicode_ = 4;
+      unicode_ = 3;
       dst = encoding::UTF_8;
       add_bom = true;
       cbnil_ = 1;
-- 
2.43.0


From 971fa9916e141648c76d2d2967757b74a357063d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:21:48 +0000
Subject: [PATCH 010/194] fix: initialise comments & user-defined text
 completely

---
 scribbu/framesv2.cc |  4 +++-
 scribbu/framesv2.hh | 12 ++++++++++--
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/scribbu/framesv2.cc b/scribbu/framesv2.cc
index 6fad3ae..fc1f375 100644
--- a/scribbu/framesv2.cc
+++ b/scribbu/framesv2.cc
@@ -870,7 +870,8 @@ scribbu::comments::comments(id3v2_version ver,
                             const std::string &text,
                             encoding src,
                             use_unicode unicode,
-                            const std::string &dsc /*= std::string()*/)
+                            const std::string &dsc /*= std::string()*/):
+  ver_(ver)
 {
   if (language::from_locale == lang) {
     lang = language_from_locale();
@@ -925,6 +926,7 @@ scribbu::comments::comments(id3v2_version ver,
     }
   }
 
+  dst_enc_ = dst;
   text_ = convert_encoding(text, src, dst, add_bom);
   if (!dsc.empty()) {
     description_ = convert_encoding(dsc, src, dst, add_bom);
diff --git a/scribbu/framesv2.hh b/scribbu/framesv2.hh
index af722d0..0f2a811 100644
--- a/scribbu/framesv2.hh
+++ b/scribbu/framesv2.hh
@@ -591,8 +591,13 @@ namespace scribbu {
     user_defined_text(id3v2_version ver,
                       forward_input_iterator p0,
                       forward_input_iterator p1):
-      cbnil_(1)
+      cbnil_(1),
+      unicode_(0)
     {
+      if (p0 == p1) {
+        return;
+      }
+
       unicode_ = *p0++;
 
       if (id3v2_version::v2 == ver || id3v2_version::v3 == ver) {
@@ -684,7 +689,10 @@ namespace scribbu {
              forward_input_iterator p0,
              forward_input_iterator p1):
       ver_(ver),
-      cbnil_(1)
+      dst_enc_(encoding::ISO_8859_1),
+      cbnil_(1),
+      unicode_(0),
+      lang_{}
     {
       if (p0 != p1) {
 
-- 
2.43.0


From 7ed2aae7787d3c20162a768db8e16006db699d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:22:12 +0000
Subject: [PATCH 011/194] fix: read & write play counts of any width exactly

---
 scribbu/framesv2.cc | 64 ++++++++++++++++++---------------------------
 scribbu/framesv2.hh |  2 +-
 2 files changed, 26 insertions(+), 40 deletions(-)

diff --git a/scribbu/framesv2.cc b/scribbu/framesv2.cc
index fc1f375..5720b98 100644
--- a/scribbu/framesv2.cc
+++ b/scribbu/framesv2.cc
@@ -29,8 +29,8 @@
 #include <boost/static_assert.hpp>
 
 #include <arpa/inet.h>
-#include <cmath> // for `log2()`
 #include <iconv.h>
+#include <limits>
 
 
 bool
@@ -636,6 +636,20 @@ namespace {
     return scribbu::detail::count_syncs(buf.begin(), buf.end(), false_only);
   }
 
+  /// Interpret a (big-endian) counter of any width
+  std::size_t
+  number_from_counter(const std::vector<unsigned char> &counter)
+  {
+    std::size_t x = 0;
+    for (unsigned char b: counter) {
+      if (x > (std::numeric_limits<std::size_t>::max() >> 8)) {
+        throw std::domain_error("CNT overflow");
+      }
+      x = (x << 8) | b;
+    }
+    return x;
+  }
+
 }
 
 ///////////////////////////////////////////////////////////////////////////////
@@ -1016,24 +1030,7 @@ scribbu::comments::add_bom() const
 std::size_t
 scribbu::play_count::count() const
 {
-  uint32_t x;
-  if (1 == counter_.size()) {
-    x = counter_[0];
-  }
-  else if (2 == counter_.size()) {
-   x = ( counter_[0] << 8 ) | counter_[1];
-  }
-  else if (3 == counter_.size()) {
-    x = ( counter_[0] << 16 ) | ( counter_[1] << 8 ) | counter_[2];
-  }
-  else if (4 == counter_.size()) {
-    x = ( counter_[0] << 24 ) | ( counter_[1] << 16 ) |
-      ( counter_[2] << 8 )  | counter_[3];
-  }
-  else if (4 < counter_.size()) {
-    throw std::domain_error("CNT overflow");
-  }
-  return x;
+  return number_from_counter(counter_);
 }
 
 std::size_t
@@ -1083,7 +1080,10 @@ scribbu::play_count::reset_counter(std::size_t n)
     return;
   }
   // compute the number of bytes needed to represent `n`...
-  size_t cb = size_t(floor(log2(n)/8.)) + 1;
+  size_t cb = 0;
+  for (size_t m = n; m; m >>= 8) {
+    ++cb;
+  }
   // and size `counter_` accordingly.
   counter_.resize(cb);
 
@@ -1101,24 +1101,7 @@ scribbu::play_count::reset_counter(std::size_t n)
 std::size_t
 scribbu::popularimeter::count() const
 {
-  uint32_t x;
-  if (1 == counter_.size()) {
-    x = counter_[0];
-  }
-  else if (2 == counter_.size()) {
-   x = ( counter_[0] << 8 ) | counter_[1];
-  }
-  else if (3 == counter_.size()) {
-    x = ( counter_[0] << 16 ) | ( counter_[1] << 8 ) | counter_[2];
-  }
-  else if (4 == counter_.size()) {
-    x = ( counter_[0] << 24 ) | ( counter_[1] << 16 ) |
-      ( counter_[2] << 8 )  | counter_[3];
-  }
-  else if (4 < counter_.size()) {
-    throw std::domain_error("CNT overflow");
-  }
-  return x;
+  return number_from_counter(counter_);
 }
 
 std::size_t
@@ -1175,7 +1158,10 @@ scribbu::popularimeter::reset_counter(std::size_t n)
     return;
   }
   // compute the number of bytes needed to represent `n`...
-  size_t cb = size_t(floor(log2(n)/8.)) + 1;
+  size_t cb = 0;
+  for (size_t m = n; m; m >>= 8) {
+    ++cb;
+  }
   // and size `counter_` accordingly.
   counter_.resize(cb);
 
diff --git a/scribbu/framesv2.hh b/scribbu/framesv2.hh
index 0f2a811..89a4cce 100644
--- a/scribbu/framesv2.hh
+++ b/scribbu/framesv2.hh
@@ -846,7 +846,7 @@ namespace scribbu {
 
     template <typename forward_output_iterator>
     forward_output_iterator counterb(forward_output_iterator p) const {
-      std::copy(counter_.begin(), counter_.end(), p);
+      return std::copy(counter_.begin(), counter_.end(), p);
     }
 
     std::size_t count() const;
-- 
2.43.0


From 267773b5b32ec5530b43d0d226dca7720583cb44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:22:12 +0000
Subject: [PATCH 012/194] fix: do not let a play count wrap to zero

---
 scribbu/framesv2.cc | 20 ++++++++++++++++++++
 scribbu/framesv2.hh |  6 ++----
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/scribbu/framesv2.cc b/scribbu/framesv2.cc
index 5720b98..dbf5b9d 100644
--- a/scribbu/framesv2.cc
+++ b/scribbu/framesv2.cc
@@ -1033,6 +1033,16 @@ scribbu::play_count::count() const
   return number_from_counter(counter_);
 }
 
+void
+scribbu::play_count::inc()
+{
+  std::size_t n = count();
+  if (n == std::numeric_limits<std::size_t>::max()) {
+    throw std::domain_error("CNT overflow");
+  }
+  count(n + 1);
+}
+
 std::size_t
 scribbu::play_count::size() const
 {
@@ -1104,6 +1114,16 @@ scribbu::popularimeter::count() const
   return number_from_counter(counter_);
 }
 
+void
+scribbu::popularimeter::inc()
+{
+  std::size_t n = count();
+  if (n == std::numeric_limits<std::size_t>::max()) {
+    throw std::domain_error("CNT overflow");
+  }
+  count(n + 1);
+}
+
 std::size_t
 scribbu::popularimeter::size() const
 {
diff --git a/scribbu/framesv2.hh b/scribbu/framesv2.hh
index 89a4cce..6119af2 100644
--- a/scribbu/framesv2.hh
+++ b/scribbu/framesv2.hh
@@ -855,8 +855,7 @@ namespace scribbu {
     void count(std::size_t n)
     { reset_counter(n); }
     /// Increment the count by one
-    void inc()
-    { count(count() + 1); }
+    void inc();
 
     /// Return the size, in bytes, of this structure, prior to
     /// desynchronisation, compression, and/or encryption exclusive of the
@@ -942,8 +941,7 @@ namespace scribbu {
     void count(std::size_t n)
     { reset_counter(n); }
     /// Increment the play count by one
-    void inc()
-    { count(count() + 1); }
+    void inc();
 
     /// Return the size, in bytes, of the frame, prior to desynchronisation,
     /// compression, and/or encryption exclusive of the header
-- 
2.43.0


From 78f0d4faed620cc05b1f5a8b8e28b172fc1bd3d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:22:19 +0000
Subject: [PATCH 013/194] fix: stay within the frame when reading
 popularimeters & tag clouds

---
 scribbu/framesv2.hh | 31 +++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/scribbu/framesv2.hh b/scribbu/framesv2.hh
index 6119af2..341cac6 100644
--- a/scribbu/framesv2.hh
+++ b/scribbu/framesv2.hh
@@ -63,6 +63,7 @@
 #include <arpa/inet.h>
 
 #include <algorithm>
+#include <cstring>
 #include <errno.h>
 #include <iconv.h>
 #include <initializer_list>
@@ -900,13 +901,17 @@ namespace scribbu {
     /// an unsigned char
     template <typename forward_input_iterator>
     popularimeter(forward_input_iterator p0,
-                  forward_input_iterator p1)
+                  forward_input_iterator p1): rating_(0)
     {
       forward_input_iterator p = std::find(p0, p1, 0);
       std::copy(p0, p, std::back_inserter(email_));
-      ++p;
-      rating_ = *p++;
-      std::copy(p, p1, std::back_inserter(counter_));
+      if (p != p1) {
+        ++p;
+        if (p != p1) {
+          rating_ = *p++;
+          std::copy(p, p1, std::back_inserter(counter_));
+        }
+      }
     }
     /// Construct "from scratch"
     popularimeter(const std::string &own,
@@ -999,10 +1004,17 @@ namespace scribbu {
     {
       using namespace std;
 
+      if (p0 == p1) {
+        return;
+      }
+
       ++p0; // version
 
       forward_input_iterator p = find(p0, p1, 0);
       copy(p0, p, back_inserter(own_));
+      if (p == p1) {
+        return;
+      }
 
       p0 = ++p;
       while (p0 != p1) {
@@ -1010,11 +1022,15 @@ namespace scribbu {
         p = find(p0, p1, 0);
         string key;
         copy(p0, p, back_inserter(key));
+        if (distance(p, p1) < 5) {
+          throw invalid_argument("truncated tag cloud");
+        }
 
         unsigned char buf[4];
         copy(p + 1, p + 5, buf);
-        const uint32_t *pb = (const uint32_t*)(buf);
-        uint32_t cb = ntohl(*pb);
+        uint32_t cb;
+        memcpy(&cb, buf, 4);
+        cb = ntohl(cb);
 
         set<string> vals;
         p0 = p + 5;
@@ -1022,6 +1038,9 @@ namespace scribbu {
           p = find(p0, p1, 0);
           string val;
           copy(p0, p, back_inserter(val));
+          if (p == p1 || val.length() >= cb) {
+            throw invalid_argument("truncated tag cloud");
+          }
           p0 = ++p;
           vals.insert(val);
           cb -= val.length() + 1;
-- 
2.43.0


From c43d1a6e6628a8ebd0d34dd871e32a8459b80391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:23:11 +0000
Subject: [PATCH 014/194] fix: accept empty text frames & private frames with
 no terminator

---
 scribbu/framesv22.hh | 2 +-
 scribbu/framesv23.hh | 6 ++++--
 scribbu/framesv24.hh | 2 +-
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/scribbu/framesv22.hh b/scribbu/framesv22.hh
index b7f3ada..fa3c196 100644
--- a/scribbu/framesv22.hh
+++ b/scribbu/framesv22.hh
@@ -338,7 +338,7 @@ namespace scribbu {
                        forward_input_iterator p1):
       id3v2_2_frame(id)
     {
-      unicode_ = *p0++;
+      unicode_ = p0 == p1 ? 0 : *p0++;
       std::copy(p0, p1, std::back_inserter(text_));
     }
 
diff --git a/scribbu/framesv23.hh b/scribbu/framesv23.hh
index 488aadb..8b84464 100644
--- a/scribbu/framesv23.hh
+++ b/scribbu/framesv23.hh
@@ -333,7 +333,9 @@ namespace scribbu {
     private_frame(forward_input_iterator p0, forward_input_iterator p1) {
       forward_input_iterator p = std::find(p0, p1, 0);
       std::copy(p0, p, std::back_inserter(email_));
-      ++p;
+      if (p != p1) {
+        ++p;
+      }
       std::copy(p, p1, std::back_inserter(contents_));
     }
     /// Construct "from scratch"
@@ -688,7 +690,7 @@ namespace scribbu {
                        const opt_sz_type       &decsz):
       id3v2_3_frame(id, tap, fap, ro, encmth, gid, decsz)
     {
-      unicode_ = *p0++;
+      unicode_ = p0 == p1 ? 0 : *p0++;
       std::copy(p0, p1, std::back_inserter(text_));
     }
 
diff --git a/scribbu/framesv24.hh b/scribbu/framesv24.hh
index 990f766..c929e29 100644
--- a/scribbu/framesv24.hh
+++ b/scribbu/framesv24.hh
@@ -436,7 +436,7 @@ namespace scribbu {
                        const boost::optional<std::size_t>   &dli):
       id3v2_4_frame(id, tap, fap, ro, cmprsd, enc, gid, unsynch, dli)
     {
-      unicode_ = *p0++;
+      unicode_ = p0 == p1 ? 0 : *p0++;
       std::copy(p0, p1, std::back_inserter(text_));
     }
     // char[4]
-- 
2.43.0


From ef1e98240a3aa1b83aa04df61fc4fe80f541393e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:23:11 +0000
Subject: [PATCH 015/194] fix: count the false syncs that straddle the fields
 of a private frame

---
 scribbu/framesv23.cc | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/scribbu/framesv23.cc b/scribbu/framesv23.cc
index c6aab2f..0c8116f 100644
--- a/scribbu/framesv23.cc
+++ b/scribbu/framesv23.cc
@@ -291,12 +291,10 @@ scribbu::private_frame::write(std::ostream &os) const
 std::size_t
 scribbu::private_frame::count_syncs(bool false_only) const
 {
-  std::size_t cb = 0;
-
-  cb += detail::count_syncs(email_.begin(), email_.end(), false_only);
-  cb += detail::count_syncs(contents_.begin(), contents_.end(), false_only);
-
-  return cb;
+  std::ostringstream os;
+  write(os);
+  std::string buf = os.str();
+  return detail::count_syncs(buf.begin(), buf.end(), false_only);
 }
 
 ///////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 01dc86553476d0fb8f61918bc0fa4c75f85fe21c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:23:11 +0000
Subject: [PATCH 016/194] fix: write ID3v2.3 frame flags where the standard has
 them

---
 scribbu/framesv23.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/scribbu/framesv23.cc b/scribbu/framesv23.cc
index 0c8116f..93e95dc 100644
--- a/scribbu/framesv23.cc
+++ b/scribbu/framesv23.cc
@@ -356,27 +356,27 @@ scribbu::id3v2_3_frame::write_header(std::ostream &os,
 
   char flags[2] = { 0, 0 };
   if (tap()) {
-    flags[0] |= 64;
+    flags[0] |= 0x80;
   }
   if (fap()) {
-    flags[0] |= 32;
+    flags[0] |= 0x40;
   }
   if (ro()) {
-    flags[0] |= 16;
+    flags[0] |= 0x20;
   }
 
   if (compressed()) {
-    flags[1] |= 64;
+    flags[1] |= 0x80;
     sz += 4;
     cb += 4;
   }
   if (encrypted()) {
-    flags[1] |= 32;
+    flags[1] |= 0x40;
     sz += 1;
     cb += 1;
   }
   if (grouped()) {
-    flags[1] |= 16;
+    flags[1] |= 0x20;
     sz += 1;
     cb += 1;
   }
-- 
2.43.0


From 71de3c7c66d97e5bae5bc25190adfa226f0e524e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:23:11 +0000
Subject: [PATCH 017/194] fix: write the decompressed size of ID3v2.3 frames in
 network byte order

---
 scribbu/framesv23.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/scribbu/framesv23.cc b/scribbu/framesv23.cc
index 93e95dc..8867d8a 100644
--- a/scribbu/framesv23.cc
+++ b/scribbu/framesv23.cc
@@ -401,7 +401,12 @@ scribbu::id3v2_3_frame::write_header(std::ostream &os,
   os.write(flags, 2);
 
   if (compressed()) {
-    os.write((char*)&dlind, 4);
+    char dlbuf[4];
+    dlbuf[0] = (dlind & 0xff000000) >> 24;
+    dlbuf[1] = (dlind & 0x00ff0000) >> 16;
+    dlbuf[2] = (dlind & 0x0000ff00) >>  8;
+    dlbuf[3] =  dlind & 0x000000ff;
+    os.write(dlbuf, 4);
   }
 
   if (encrypted()) {
-- 
2.43.0


From d0624d966009efa41401c5dcf44d4fcdc8ece550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:23:25 +0000
Subject: [PATCH 018/194] fix: serialise frames as they are, not as they were
 when first written

---
 scribbu/framesv22.cc | 4 ++++
 scribbu/framesv23.cc | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/scribbu/framesv22.cc b/scribbu/framesv22.cc
index e9019f8..c7fd951 100644
--- a/scribbu/framesv22.cc
+++ b/scribbu/framesv22.cc
@@ -193,6 +193,10 @@ scribbu::id3v2_2_frame::ensure_cached_data_is_fresh() const
   using scribbu::detail::count_syncs;
   using scribbu::detail::unsynchronise;
 
+  // The dirty flag can't be relied upon: frames are modified through mix-ins
+  // that know nothing of it.
+  dirty(true);
+
   if (is_dirty()) {
 
     // Clear the cache...
diff --git a/scribbu/framesv23.cc b/scribbu/framesv23.cc
index 8867d8a..0887828 100644
--- a/scribbu/framesv23.cc
+++ b/scribbu/framesv23.cc
@@ -153,6 +153,10 @@ scribbu::id3v2_3_plus_frame::ensure_cached_data_is_fresh(bool last_no_pad) const
   using scribbu::detail::count_syncs;
   using scribbu::detail::unsynchronise;
 
+  // The dirty flag can't be relied upon: frames are modified through mix-ins
+  // that know nothing of it, and what we cache depends on `last_no_pad'.
+  dirty(true);
+
   // This logic is still too complex for my tastes, but this is as simple
   // as I've been able to get it so far. If the 'dirty" flag is set...
   if (is_dirty()) {
-- 
2.43.0


From 097052fd173dc193b4e33356dea79448e891f803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:23:42 +0000
Subject: [PATCH 019/194] fix: write ID3v2.4 frame flags where the standard has
 them

---
 scribbu/framesv24.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/scribbu/framesv24.cc b/scribbu/framesv24.cc
index e49995a..9cbad08 100644
--- a/scribbu/framesv24.cc
+++ b/scribbu/framesv24.cc
@@ -92,17 +92,17 @@ scribbu::id3v2_4_frame::write_header(std::ostream &os,
 
   char flags[2] = { 0, 0 };
   if (tap()) {
-    flags[0] |= 32;
+    flags[0] |= 0x40;
   }
   if (fap()) {
-    flags[0] |= 16;
+    flags[0] |= 0x20;
   }
   if (ro()) {
-    flags[0] |= 8;
+    flags[0] |= 0x10;
   }
   //  %0h00kmnp
   if (grouped()) {
-    flags[1] |= 32;
+    flags[1] |= 0x40;
     sz += 1;
     cb += 1;
   }
-- 
2.43.0


From 7e35ef6e0db33e0a11690e6dc70e5df86a240652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:23:42 +0000
Subject: [PATCH 020/194] fix: lay out ID3v2.4 frame headers as the standard
 says

---
 scribbu/framesv24.cc | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/scribbu/framesv24.cc b/scribbu/framesv24.cc
index 9cbad08..05eea0d 100644
--- a/scribbu/framesv24.cc
+++ b/scribbu/framesv24.cc
@@ -117,7 +117,9 @@ scribbu::id3v2_4_frame::write_header(std::ostream &os,
   if (unsynchronised_) {
     flags[1] |= 2;
   }
-  if (data_len_indicator_) {
+  // "[Compression] requires the 'Data Length Indicator' bit to be set as well."
+  bool dli = data_len_indicator_ || compressed_;
+  if (dli) {
     flags[1] |= 1;
     sz += 4;
     cb += 4;
@@ -126,25 +128,26 @@ scribbu::id3v2_4_frame::write_header(std::ostream &os,
   char idbuf[4]; id().copy(idbuf);
   os.write(idbuf, 4);
 
-  // ID3v2.3 frame sizes *are* sync-safe:
+  // ID3v2.4 frame sizes *are* sync-safe:
   unsigned char szbuf[4];
-  detail::sync_safe_from_unsigned(size(), szbuf);
+  detail::sync_safe_from_unsigned(sz, szbuf);
   os.write((char*)szbuf, 4);
 
   os.write(flags, 2);
 
-  if (encrypted()) {
-    unsigned char x = encmeth();
+  if (grouped()) {
+    unsigned char x = gid();
     os.write((char*)&x, 1);
   }
 
-  if (grouped()) {
-    unsigned char x = gid();
+  if (encrypted()) {
+    unsigned char x = encmeth();
     os.write((char*)&x, 1);
   }
 
-  if (data_len_indicator_) {
-    os.write((char*)&dlind, 4);
+  if (dli) {
+    detail::sync_safe_from_unsigned(dlind, szbuf);
+    os.write((char*)szbuf, 4);
   }
 
   return cb;
-- 
2.43.0


From 0f19c9bd02789c042ef2e69d53265e6297f9a94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:31:59 +0000
Subject: [PATCH 021/194] fix: keep padding apart from a final 0xff in
 unsynchronised ID3v2.2 tags

---
 scribbu/framesv22.cc |  8 ++++++--
 scribbu/id3v22.cc    | 20 +++++++++++++++++++-
 scribbu/id3v22.hh    |  2 ++
 3 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/scribbu/framesv22.cc b/scribbu/framesv22.cc
index c7fd951..c21dae0 100644
--- a/scribbu/framesv22.cc
+++ b/scribbu/framesv22.cc
@@ -78,10 +78,14 @@ namespace scribbu {
 /*virtual*/
 std::size_t
 scribbu::id3v2_2_frame::serialized_size(bool unsync,
-                                        bool /*last_no_pad = false*/) const
+                                        bool last_no_pad /*= false*/) const
 {
   ensure_cached_data_is_fresh();
-  return cache_[unsync ? SERIALIZED_WITH_UNSYNC : SERIALIZED].size();
+  std::size_t cb = cache_[unsync ? SERIALIZED_WITH_UNSYNC : SERIALIZED].size();
+  if (unsync && last_no_pad && 0xff == cache_[SERIALIZED].back()) {
+    ++cb;
+  }
+  return cb;
 }
 
 /// Return zero if this tag would not contain false syncs if serialized in
diff --git a/scribbu/id3v22.cc b/scribbu/id3v22.cc
index 76454f0..316f29a 100644
--- a/scribbu/id3v22.cc
+++ b/scribbu/id3v22.cc
@@ -269,9 +269,23 @@ scribbu::id3v2_2_tag::flags() const
 std::size_t
 scribbu::id3v2_2_tag::size(bool unsync) const
 {
-  return std::accumulate(begin(), end(), padding(),
+  std::size_t cb = std::accumulate(begin(), end(), padding(),
                         [unsync](size_t n, const id3v2_2_frame &f)
                         { return n + f.serialized_size(unsync); });
+  return cb + (unsync && ff_precedes_padding() ? 1 : 0);
+}
+
+/// True if the last frame ends in 0xff & is followed by padding: a reader
+/// undoing unsynchronisation would otherwise take the first byte of padding
+/// for one inserted by the writer
+bool
+scribbu::id3v2_2_tag::ff_precedes_padding() const
+{
+  if (frames_.empty() || !padding()) {
+    return false;
+  }
+  return frames_.back()->serialized_size(true, true) >
+    frames_.back()->serialized_size(true);
 }
 
 /*virtual*/
@@ -298,6 +312,10 @@ scribbu::id3v2_2_tag::write(std::ostream &os, bool unsync) const
                          { return n + f.write(os, unsync); });
   // & the padding.
   size_t cbpad = padding();
+  if (unsync && ff_precedes_padding()) {
+    os.write(PAD, 1);
+    ++cb;
+  }
   while (cbpad) {
     size_t towrite = min(cbpad, CBPAD);
     os.write(PAD, towrite);
diff --git a/scribbu/id3v22.hh b/scribbu/id3v22.hh
index c9dc6d1..8ec40ed 100644
--- a/scribbu/id3v22.hh
+++ b/scribbu/id3v22.hh
@@ -527,6 +527,8 @@ namespace scribbu {
 
   private:
 
+    /// True if the last frame ends in 0xff & is followed by padding
+    bool ff_precedes_padding() const;
     /// Remove an arbitrary frame from our ancillary datastructures; on return,
     /// it will remain in the frame vector
     void remove_frame_from_lookups(const frame_id3 &id, std::size_t idx);
-- 
2.43.0


From 33979e7412ee20f891912187eeeb492615e5ec5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:32:00 +0000
Subject: [PATCH 022/194] fix: set the ID3v2.2 unsynchronisation flag only when
 it is applied

---
 scribbu/id3v22.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scribbu/id3v22.cc b/scribbu/id3v22.cc
index 316f29a..d518342 100644
--- a/scribbu/id3v22.cc
+++ b/scribbu/id3v22.cc
@@ -303,7 +303,7 @@ scribbu::id3v2_2_tag::write(std::ostream &os, bool unsync) const
 
   // Write the header... taking care to add the "unsync" flag if we're
   // applying unsynchronisation
-  unsigned char f = flags();
+  unsigned char f = flags() & ~0x80;
   if (unsync) f |= 0x80;
   write_header(os, f, size(unsync));
   // the frames (note we start the accumulation at 10)...
-- 
2.43.0


From f270a23290612c4692ca0634ca9cb793d5dec711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:34:09 +0000
Subject: [PATCH 023/194] fix: keep frame lookups in step with the frames of a
 tag

---
 scribbu/id3v22.cc | 258 +++++++++++--------------------------------
 scribbu/id3v22.hh |   6 +-
 scribbu/id3v23.cc | 267 ++++++++++++--------------------------------
 scribbu/id3v23.hh |   6 +-
 scribbu/id3v24.cc | 275 +++++++++++++---------------------------------
 scribbu/id3v24.hh |   6 +-
 6 files changed, 222 insertions(+), 596 deletions(-)

diff --git a/scribbu/id3v22.cc b/scribbu/id3v22.cc
index d518342..48f1f13 100644
--- a/scribbu/id3v22.cc
+++ b/scribbu/id3v22.cc
@@ -220,29 +220,24 @@ scribbu::id3v2_2_tag::id3v2_2_tag(const id3v2_2_tag &that):
 {
   for (auto &p: that.frames_) {
     frames_.push_back(std::unique_ptr<id3v2_2_frame>(p->clone()));
-    add_frame_to_lookups( *frames_.back(), frames_.size() );
   }
+  refresh_lookups();
 }
 
 scribbu::id3v2_2_tag& scribbu::id3v2_2_tag::operator=(const id3v2_2_tag &that)
 {
   if (this != &that) {
-    id3v2_tag::operator=(*this);
+    id3v2_tag::operator=(that);
     text_parsers_ = that.text_parsers_;
     generic_parsers_ = that.generic_parsers_;
     compression_ = that.compression_;
     padding_ = that.padding_;
 
-    coms_.clear();
-    cnts_.clear();
-    pops_.clear();
     frames_.clear();
-    frame_map_.clear();
-    text_map_.clear();
     for (auto &p: that.frames_) {
       frames_.push_back(std::unique_ptr<id3v2_2_frame>(p->clone()));
-      add_frame_to_lookups( *frames_.back(), frames_.size() );
     }
+    refresh_lookups();
   }
   return *this;
 }
@@ -353,9 +348,10 @@ scribbu::id3v2_2_tag::add_comment(const std::string &text,
 {
   std::unique_ptr<COM> pnew = std::make_unique<COM>(lang, text, src, unicode, description);
 
+  COM &F = *pnew;
   std::ptrdiff_t d = frames_.size();
   frames_.emplace_back(std::move(pnew));
-  add_frame_to_lookups(*pnew, d);
+  add_frame_to_lookups(F, d);
 
 }
 
@@ -372,9 +368,10 @@ scribbu::id3v2_2_tag::add_user_defined_text(
 
   unique_ptr<TXX> pnew = make_unique<TXX>(text, src, unicode, description);
 
+  TXX &F = *pnew;
   ptrdiff_t d = frames_.size();
   frames_.emplace_back(std::move(pnew));
-  add_frame_to_lookups(*pnew, d);
+  add_frame_to_lookups(F, d);
 }
 
 /*virtual*/
@@ -410,8 +407,8 @@ scribbu::id3v2_2_tag::delete_frame(id3v2_text_frames id)
   auto p = frame_map_.find(id3);
   if (p != frame_map_.end()) {
     std::ptrdiff_t idx = p->second;
-    remove_frame_from_lookups(id3, idx);
     frames_.erase(frames_.begin() + idx);
+    refresh_lookups();
   }
 }
 
@@ -423,35 +420,10 @@ scribbu::id3v2_2_tag::delete_frame(id3v2_text_frames id)
 scribbu::id3v2_2_tag::mutable_frame_proxy&
 scribbu::id3v2_2_tag::mutable_frame_proxy::operator=(mutable_frame_proxy &&that)
 {
-  using namespace scribbu;
-
-  static const frame_id3 COMID("COM"), CNTID("CNT"), POPID("POP");
-
-  p_->remove_frame_from_lookups(p_->frames_[idx_]->id(), idx_);
   p_->frames_[idx_].swap(that.p_->frames_[that.idx_]);
-  idx_ = that.idx_;
-
-  id3v2_2_tag::frames_type::iterator pnew = p_->frames_.begin() + idx_;
-  frame_id3 id = (**pnew).id();
-  if (id == CNTID) {
-    CNT &frame = dynamic_cast<CNT&>(*(pnew->get()));
-    p_->add_frame_to_lookups(frame, idx_);
-  }
-  else if (id == COMID) {
-    COM &frame = dynamic_cast<COM&>(*(pnew->get()));
-    p_->add_frame_to_lookups(frame, idx_);
-  }
-  else if (id == POPID) {
-    POP &frame = dynamic_cast<POP&>(*(pnew->get()));
-    p_->add_frame_to_lookups(frame, idx_);
-  }
-  else if (id.text_frame()) {
-    id3v2_2_text_frame &frame = dynamic_cast<id3v2_2_text_frame&>(*(pnew->get()));
-    p_->add_frame_to_lookups(frame, idx_);
-  }
-  else {
-    id3v2_2_frame &frame = *(pnew->get());
-    p_->add_frame_to_lookups(frame, idx_);
+  p_->refresh_lookups();
+  if (that.p_ != p_) {
+    that.p_->refresh_lookups();
   }
 
   return *this;
@@ -462,9 +434,8 @@ scribbu::id3v2_2_tag::mutable_frame_proxy::operator=(const id3v2_2_frame &frame)
 {
   std::unique_ptr<id3v2_2_frame> pnew(frame.clone());
 
-  p_->remove_frame_from_lookups(p_->frames_[idx_]->id(), idx_);
   p_->frames_[idx_].swap(pnew);
-  p_->add_frame_to_lookups(*(p_->frames_[idx_]), idx_);
+  p_->refresh_lookups();
 
   return *this;
 }
@@ -472,20 +443,8 @@ scribbu::id3v2_2_tag::mutable_frame_proxy::operator=(const id3v2_2_frame &frame)
 scribbu::id3v2_2_tag::mutable_frame_proxy&
 scribbu::id3v2_2_tag::mutable_frame_proxy::operator=(const id3v2_2_text_frame &frame)
 {
-  // This is a little twisted, but it accomplishes two things:
-  // 1. Carries out one deep copy of our argument
-  // 2. Avoids dynamic_cast
-
-  // We begin by taking a deep copy of `frame'...
-  std::unique_ptr<id3v2_2_text_frame> pnew(new id3v2_2_text_frame(frame));
-  // and saving a reference to that copy.
-  id3v2_2_text_frame &F = *pnew;
-  // We now remove our current frame from all our tag's lookup tables...
-  p_->remove_frame_from_lookups(p_->frames_[idx_]->id(), idx_);
-  // move the copy into the slot previously occupied by our frame...
-  p_->frames_[idx_] = std::move(pnew);
-  // and finally add the copy back into our lookups, but as the const reference we saved.
-  p_->add_frame_to_lookups(F, idx_);
+  p_->frames_[idx_] = std::make_unique<id3v2_2_text_frame>(frame);
+  p_->refresh_lookups();
 
   return *this;
 }
@@ -493,20 +452,8 @@ scribbu::id3v2_2_tag::mutable_frame_proxy::operator=(const id3v2_2_text_frame &f
 scribbu::id3v2_2_tag::mutable_frame_proxy&
 scribbu::id3v2_2_tag::mutable_frame_proxy::operator=(const CNT &frame)
 {
-  // This is a little twisted, but it accomplishes two things:
-  // 1. Carries out one deep copy of our argument
-  // 2. Avoids dynamic_cast
-
-  // We begin by taking a deep copy of `frame'...
-  std::unique_ptr<CNT> pnew(new CNT(frame));
-  // and saving a reference to that copy.
-  CNT &F = *pnew;
-  // We now remove our current frame from all our tag's lookup tables...
-  p_->remove_frame_from_lookups(p_->frames_[idx_]->id(), idx_);
-  // move the copy into the slot previously occupied by our frame...
-  p_->frames_[idx_] = std::move(pnew);
-  // and finally add the copy back into our lookups, but as the const reference we saved.
-  p_->add_frame_to_lookups(F, idx_);
+  p_->frames_[idx_] = std::make_unique<CNT>(frame);
+  p_->refresh_lookups();
 
   return *this;
 }
@@ -514,20 +461,8 @@ scribbu::id3v2_2_tag::mutable_frame_proxy::operator=(const CNT &frame)
 scribbu::id3v2_2_tag::mutable_frame_proxy&
 scribbu::id3v2_2_tag::mutable_frame_proxy::operator=(const COM &frame)
 {
-  // This is a little twisted, but it accomplishes two things:
-  // 1. Carries out one deep copy of our argument
-  // 2. Avoids dynamic_cast
-
-  // We begin by taking a deep copy of `frame'...
-  std::unique_ptr<COM> pnew(new COM(frame));
-  // and saving a reference to that copy.
-  COM &F = *pnew;
-  // We now remove our current frame from all our tag's lookup tables...
-  p_->remove_frame_from_lookups(p_->frames_[idx_]->id(), idx_);
-  // move the copy into the slot previously occupied by our frame...
-  p_->frames_[idx_] = std::move(pnew);
-  // and finally add the copy back into our lookups, but as the const reference we saved.
-  p_->add_frame_to_lookups(F, idx_);
+  p_->frames_[idx_] = std::make_unique<COM>(frame);
+  p_->refresh_lookups();
 
   return *this;
 }
@@ -535,20 +470,8 @@ scribbu::id3v2_2_tag::mutable_frame_proxy::operator=(const COM &frame)
 scribbu::id3v2_2_tag::mutable_frame_proxy&
 scribbu::id3v2_2_tag::mutable_frame_proxy::operator=(const POP &frame)
 {
-  // This is a little twisted, but it accomplishes two things:
-  // 1. Carries out one deep copy of our argument
-  // 2. Avoids dynamic_cast
-
-  // We begin by taking a deep copy of `frame'...
-  std::unique_ptr<POP> pnew(new POP(frame));
-  // and saving a reference to that copy.
-  POP &F = *pnew;
-  // We now remove our current frame from all our tag's lookup tables...
-  p_->remove_frame_from_lookups(p_->frames_[idx_]->id(), idx_);
-  // move the copy into the slot previously occupied by our frame...
-  p_->frames_[idx_] = std::move(pnew);
-  // and finally add the copy back into our lookups, but as the const reference we saved.
-  p_->add_frame_to_lookups(F, idx_);
+  p_->frames_[idx_] = std::make_unique<POP>(frame);
+  p_->refresh_lookups();
 
   return *this;
 }
@@ -559,24 +482,16 @@ scribbu::id3v2_2_tag::insert(const_iterator p, const id3v2_2_frame &frame)
   std::unique_ptr<id3v2_2_frame> pnew(frame.clone());
 
   auto p1 = frames_.emplace(frames_.cbegin() + p.index(), std::move(pnew));
-  std::ptrdiff_t d = p1 - frames_.begin();
-  add_frame_to_lookups(*frames_[d], d);
+  refresh_lookups();
   return iterator(this, p1);
 }
 
 scribbu::id3v2_2_tag::iterator
 scribbu::id3v2_2_tag::insert(const_iterator p, const id3v2_2_text_frame &frame)
 {
-  // This is a little twisted, but it accomplishes two things:
-  // 1. Carries out one deep copy of our argument
-  // 2. Avoids dynamic_cast
-
-  std::unique_ptr<id3v2_2_text_frame> pnew = std::make_unique<id3v2_2_text_frame>(frame);
-  id3v2_2_text_frame &F = *pnew;
-
-  auto p1 = frames_.emplace(frames_.begin() + p.index(), std::move(pnew));
-  std::ptrdiff_t d = p1 - frames_.begin();
-  add_frame_to_lookups(F, d);
+  auto p1 = frames_.emplace(frames_.begin() + p.index(),
+                            std::make_unique<id3v2_2_text_frame>(frame));
+  refresh_lookups();
 
   return iterator(this, p1);
 }
@@ -584,16 +499,9 @@ scribbu::id3v2_2_tag::insert(const_iterator p, const id3v2_2_text_frame &frame)
 scribbu::id3v2_2_tag::iterator
 scribbu::id3v2_2_tag::insert(const_iterator p, const CNT &frame)
 {
-  // This is a little twisted, but it accomplishes two things:
-  // 1. Carries out one deep copy of our argument
-  // 2. Avoids dynamic_cast
-
-  std::unique_ptr<CNT> pnew = std::make_unique<CNT>(frame);
-  CNT &F = *pnew;
-
-  auto p1 = frames_.emplace(frames_.begin() + p.index(), std::move(pnew));
-  std::ptrdiff_t d = p1 - frames_.begin();
-  add_frame_to_lookups(F, d);
+  auto p1 = frames_.emplace(frames_.begin() + p.index(),
+                            std::make_unique<CNT>(frame));
+  refresh_lookups();
 
   return iterator(this, p1);
 }
@@ -601,16 +509,9 @@ scribbu::id3v2_2_tag::insert(const_iterator p, const CNT &frame)
 scribbu::id3v2_2_tag::iterator
 scribbu::id3v2_2_tag::insert(const_iterator p, const COM &frame)
 {
-  // This is a little twisted, but it accomplishes two things:
-  // 1. Carries out one deep copy of our argument
-  // 2. Avoids dynamic_cast
-
-  std::unique_ptr<COM> pnew = std::make_unique<COM>(frame);
-  COM &F = *pnew;
-
-  auto p1 = frames_.emplace(frames_.begin() + p.index(), std::move(pnew));
-  std::ptrdiff_t d = p1 - frames_.begin();
-  add_frame_to_lookups(F, d);
+  auto p1 = frames_.emplace(frames_.begin() + p.index(),
+                            std::make_unique<COM>(frame));
+  refresh_lookups();
 
   return iterator(this, p1);
 }
@@ -618,16 +519,9 @@ scribbu::id3v2_2_tag::insert(const_iterator p, const COM &frame)
 scribbu::id3v2_2_tag::iterator
 scribbu::id3v2_2_tag::insert(const_iterator p, const POP &frame)
 {
-  // This is a little twisted, but it accomplishes two things:
-  // 1. Carries out one deep copy of our argument
-  // 2. Avoids dynamic_cast
-
-  std::unique_ptr<POP> pnew = std::make_unique<POP>(frame);
-  POP &F = *pnew;
-
-  auto p1 = frames_.emplace(frames_.begin() + p.index(), std::move(pnew));
-  std::ptrdiff_t d = p1 - frames_.begin();
-  add_frame_to_lookups(F, d);
+  auto p1 = frames_.emplace(frames_.begin() + p.index(),
+                            std::make_unique<POP>(frame));
+  refresh_lookups();
 
   return iterator(this, p1);
 }
@@ -638,8 +532,7 @@ scribbu::id3v2_2_tag::push_back(const id3v2_2_frame &frame)
   std::unique_ptr<id3v2_2_frame> pnew(frame.clone());
 
   frames_.emplace_back(std::move(pnew));
-  std::size_t d = frames_.size() - 1;
-  add_frame_to_lookups(*frames_[d], d);
+  refresh_lookups();
 }
 
 void
@@ -685,21 +578,18 @@ scribbu::id3v2_2_tag::push_back(const POP &frame)
 scribbu::id3v2_2_tag::iterator
 scribbu::id3v2_2_tag::erase(const_iterator p)
 {
-  std::size_t idx = p - begin();
-  remove_frame_from_lookups(p->id(), idx);
-  return iterator(this, frames_.erase(frames_.begin() + idx));
+  auto p1 = frames_.erase(frames_.begin() + p.index());
+  refresh_lookups();
+  return iterator(this, p1);
 }
 
 scribbu::id3v2_2_tag::iterator
 scribbu::id3v2_2_tag::erase(const_iterator p0, const_iterator p1)
 {
-  const_iterator p2 = p0;
-  for (size_t i = p2 - begin(); p2 != p1; ++p2, ++i) {
-    remove_frame_from_lookups(p2->id(), i);
-  }
-
-  return iterator(this, frames_.erase(frames_.begin() + p0.index(),
-                                      frames_.begin() + p1.index()));
+  auto p2 = frames_.erase(frames_.begin() + p0.index(),
+                          frames_.begin() + p1.index());
+  refresh_lookups();
+  return iterator(this, p2);
 }
 
 std::ostream&
@@ -715,48 +605,34 @@ scribbu::id3v2_2_tag::write_header(std::ostream &os,
 }
 
 void
-scribbu::id3v2_2_tag::remove_frame_from_lookups(const frame_id3 &id, std::size_t idx)
-{
-  static const frame_id3 COM("COM"), CNT("CNT"), POP("POP");
-
-  if (COM == id) {
-    com_frame_lookup_type::iterator p =
-      std::find_if(coms_.begin(), coms_.end(),
-                   [idx](const com_frame_lookup_type::value_type &x)
-                   { return x.second == idx; });
-    coms_.erase(p);
-  }
-  else if (CNT == id) {
-    cnt_frame_lookup_type::iterator p =
-      std::find_if(cnts_.begin(), cnts_.end(),
-                   [idx](const cnt_frame_lookup_type::value_type &x)
-                   { return x.second == idx; });
-    cnts_.erase(p);
-  }
-  else if (POP == id) {
-    pop_frame_lookup_type::iterator p =
-      std::find_if(pops_.begin(), pops_.end(),
-                   [idx](const pop_frame_lookup_type::value_type &x)
-                   { return x.second == idx; });
-    pops_.erase(p);
-  }
-  else if (id.text_frame()) {
-    const id3v2_2_frame *pf = frames_[idx].get();
-    text_frame_lookup_type::iterator p =
-      std::find_if(text_map_.begin(), text_map_.end(),
-                   [pf, id](const text_frame_lookup_type::value_type &x)
-                   { return x.first == id && x.second == pf; });
-    if (text_map_.end() == p) {
-      throw std::logic_error("Oops");
+scribbu::id3v2_2_tag::refresh_lookups()
+{
+  coms_.clear();
+  cnts_.clear();
+  pops_.clear();
+  frame_map_.clear();
+  text_map_.clear();
+  for (std::size_t i = 0; i < frames_.size(); ++i) {
+    id3v2_2_frame *pf = frames_[i].get();
+    if (!pf) {
+      continue; // moved-from
+    }
+    if (auto pcom = dynamic_cast<COM*>(pf)) {
+      add_frame_to_lookups(*pcom, i);
+    }
+    else if (auto pcnt = dynamic_cast<CNT*>(pf)) {
+      add_frame_to_lookups(*pcnt, i);
+    }
+    else if (auto ppop = dynamic_cast<POP*>(pf)) {
+      add_frame_to_lookups(*ppop, i);
+    }
+    else if (auto ptxt = dynamic_cast<id3v2_2_text_frame*>(pf)) {
+      add_frame_to_lookups(*ptxt, i);
+    }
+    else {
+      add_frame_to_lookups(*pf, i);
     }
-    text_map_.erase(p);
   }
-
-  frame_lookup_type::iterator pflu =
-    std::find_if(frame_map_.begin(), frame_map_.end(),
-                 [idx, id](const frame_lookup_type::value_type &x)
-                 { return x.first == id && x.second == idx; });
-  frame_map_.erase(pflu);
 }
 
 void
diff --git a/scribbu/id3v22.hh b/scribbu/id3v22.hh
index 8ec40ed..65fd07d 100644
--- a/scribbu/id3v22.hh
+++ b/scribbu/id3v22.hh
@@ -529,9 +529,9 @@ namespace scribbu {
 
     /// True if the last frame ends in 0xff & is followed by padding
     bool ff_precedes_padding() const;
-    /// Remove an arbitrary frame from our ancillary datastructures; on return,
-    /// it will remain in the frame vector
-    void remove_frame_from_lookups(const frame_id3 &id, std::size_t idx);
+    /// Rebuild our ancillary datastructures from the frame vector; to be
+    /// invoked whenever frames have been replaced, or have changed places
+    void refresh_lookups();
     void add_frame_to_lookups(const id3v2_2_frame &frame, std::size_t idx);
     void add_frame_to_lookups(id3v2_2_text_frame &frame, std::size_t idx);
     void add_frame_to_lookups(CNT &frame, std::size_t idx);
diff --git a/scribbu/id3v23.cc b/scribbu/id3v23.cc
index cd279e4..9efd15e 100644
--- a/scribbu/id3v23.cc
+++ b/scribbu/id3v23.cc
@@ -346,49 +346,40 @@ scribbu::id3v2_3_tag::id3v2_3_tag(std::istream     &is,
 }
 
 scribbu::id3v2_3_tag::id3v2_3_tag(const id3v2_3_tag &that):
-  id3v2_tag(*this),
+  id3v2_tag(that),
   experimental_(that.experimental_),
   generic_parsers_(that.generic_parsers_),
   text_parsers_(that.text_parsers_),
-  padding_(that.padding_)
+  padding_(that.padding_),
+  encryption_methods_(that.encryption_methods_)
 {
   if (that.pext_header_) {
     pext_header_.reset(new ext_header(*that.pext_header_));
   }
   for (auto &p: that.frames_) {
     frames_.push_back(std::unique_ptr<id3v2_3_frame>(p->clone()));
-    add_frame_to_lookups( *frames_.back(), frames_.size() );
-    if (frames_.back()->id() == frame_id4("ENCR")) {
-      register_encryption_method(dynamic_cast<const ENCR&>(*frames_.back()));
-    }
   }
+  refresh_lookups();
 }
 
 scribbu::id3v2_3_tag& scribbu::id3v2_3_tag::operator=(const id3v2_3_tag &that)
 {
   if (this != &that) {
-    id3v2_tag::operator=(*this);
+    id3v2_tag::operator=(that);
     experimental_ = that.experimental_;
     generic_parsers_ = that.generic_parsers_;
     text_parsers_ = that.text_parsers_;
-    pext_header_.reset(new ext_header(*that.pext_header_));
+    pext_header_.reset(that.pext_header_ ?
+                       new ext_header(*that.pext_header_) : nullptr);
     padding_ = that.padding_;
 
-    comms_.clear();
-    pcnts_.clear();
-    popms_.clear();
-    encryption_methods_.clear();
+    encryption_methods_ = that.encryption_methods_;
     frames_.clear();
-    frame_map_.clear();
-    text_map_.clear();
 
     for (auto &p: that.frames_) {
       frames_.push_back(std::unique_ptr<id3v2_3_frame>(p->clone()));
-      add_frame_to_lookups( *frames_.back(), frames_.size() );
-      if (frames_.back()->id() == frame_id4("ENCR")) {
-        register_encryption_method(dynamic_cast<const ENCR&>(*frames_.back()));
-      }
     }
+    refresh_lookups();
   }
   return *this;
 }
@@ -698,7 +689,7 @@ scribbu::id3v2_3_tag::add_comment(const std::string &text,
                                                       boost::none,
                                                       boost::none,
                                                       description);
-  const COMM &F = *pnew;
+  COMM &F = *pnew;
   std::size_t d = frames_.size();
   frames_.emplace_back(std::move(pnew));
   add_frame_to_lookups(F, d);
@@ -758,8 +749,8 @@ scribbu::id3v2_3_tag::delete_frame(id3v2_text_frames id)
   auto p = frame_map_.find(id3);
   if (p != frame_map_.end()) {
     std::ptrdiff_t idx = p->second;
-    remove_frame_from_lookups(id3, idx);
     frames_.erase(frames_.begin() + idx);
+    refresh_lookups();
   }
 }
 
@@ -771,35 +762,10 @@ scribbu::id3v2_3_tag::delete_frame(id3v2_text_frames id)
 scribbu::id3v2_3_tag::mutable_frame_proxy&
 scribbu::id3v2_3_tag::mutable_frame_proxy::operator=(mutable_frame_proxy &&that)
 {
-  using namespace scribbu;
-
-  static const frame_id4 COMID("COMM"), CNTID("PCNT"), POPID("POPM");
-
-  p_->remove_frame_from_lookups(p_->frames_[idx_]->id(), idx_);
   p_->frames_[idx_].swap(that.p_->frames_[that.idx_]);
-  idx_ = that.idx_;
-
-  id3v2_3_tag::frames_type::iterator pnew = p_->frames_.begin() + idx_;
-  frame_id4 id = (**pnew).id();
-  if (id == CNTID) {
-    PCNT &frame = dynamic_cast<PCNT&>(*(pnew->get()));
-    p_->add_frame_to_lookups(frame, idx_);
-  }
-  else if (id == COMID) {
-    COMM &frame = dynamic_cast<COMM&>(*(pnew->get()));
-    p_->add_frame_to_lookups(frame, idx_);
-  }
-  else if (id == POPID) {
-    POPM &frame = dynamic_cast<POPM&>(*(pnew->get()));
-    p_->add_frame_to_lookups(frame, idx_);
-  }
-  else if (id.text_frame()) {
-    id3v2_3_text_frame &frame = dynamic_cast<id3v2_3_text_frame&>(*(pnew->get()));
-    p_->add_frame_to_lookups(frame, idx_);
-  }
-  else {
-    id3v2_3_frame &frame = *(pnew->get());
-    p_->add_frame_to_lookups(frame, idx_);
+  p_->refresh_lookups();
+  if (that.p_ != p_) {
+    that.p_->refresh_lookups();
   }
 
   return *this;
@@ -810,9 +776,8 @@ scribbu::id3v2_3_tag::mutable_frame_proxy::operator=(const id3v2_3_frame &frame)
 {
   std::unique_ptr<id3v2_3_frame> pnew(frame.clone());
 
-  p_->remove_frame_from_lookups(p_->frames_[idx_]->id(), idx_);
   p_->frames_[idx_].swap(pnew);
-  p_->add_frame_to_lookups(*(p_->frames_[idx_]), idx_);
+  p_->refresh_lookups();
 
   return *this;
 }
@@ -820,20 +785,8 @@ scribbu::id3v2_3_tag::mutable_frame_proxy::operator=(const id3v2_3_frame &frame)
 scribbu::id3v2_3_tag::mutable_frame_proxy&
 scribbu::id3v2_3_tag::mutable_frame_proxy::operator=(const id3v2_3_text_frame &frame)
 {
-  // This is a little twisted, but it accomplishes two things:
-  // 1. Carries out one deep copy of our argument
-  // 2. Avoids dynamic_cast
-
-  // We begin by taking a deep copy of `frame'...
-  std::unique_ptr<id3v2_3_text_frame> pnew(new id3v2_3_text_frame(frame));
-  // and saving a reference to that copy.
-  id3v2_3_text_frame &F = *pnew;
-  // We now remove our current frame from all our tag's lookup tables...
-  p_->remove_frame_from_lookups(p_->frames_[idx_]->id(), idx_);
-  // move the copy into the slot previously occupied by our frame...
-  p_->frames_[idx_] = std::move(pnew);
-  // and finally add the copy back into our lookups, but as the const reference we saved.
-  p_->add_frame_to_lookups(F, idx_);
+  p_->frames_[idx_] = std::make_unique<id3v2_3_text_frame>(frame);
+  p_->refresh_lookups();
 
   return *this;
 }
@@ -841,20 +794,8 @@ scribbu::id3v2_3_tag::mutable_frame_proxy::operator=(const id3v2_3_text_frame &f
 scribbu::id3v2_3_tag::mutable_frame_proxy&
 scribbu::id3v2_3_tag::mutable_frame_proxy::operator=(const PCNT &frame)
 {
-  // This is a little twisted, but it accomplishes two things:
-  // 1. Carries out one deep copy of our argument
-  // 2. Avoids dynamic_cast
-
-  // We begin by taking a deep copy of `frame'...
-  std::unique_ptr<PCNT> pnew(new PCNT(frame));
-  // and saving a reference to that copy.
-  PCNT &F = *pnew;
-  // We now remove our current frame from all our tag's lookup tables...
-  p_->remove_frame_from_lookups(p_->frames_[idx_]->id(), idx_);
-  // move the copy into the slot previously occupied by our frame...
-  p_->frames_[idx_] = std::move(pnew);
-  // and finally add the copy back into our lookups, but as the const reference we saved.
-  p_->add_frame_to_lookups(F, idx_);
+  p_->frames_[idx_] = std::make_unique<PCNT>(frame);
+  p_->refresh_lookups();
 
   return *this;
 }
@@ -862,20 +803,8 @@ scribbu::id3v2_3_tag::mutable_frame_proxy::operator=(const PCNT &frame)
 scribbu::id3v2_3_tag::mutable_frame_proxy&
 scribbu::id3v2_3_tag::mutable_frame_proxy::operator=(const COMM &frame)
 {
-  // This is a little twisted, but it accomplishes two things:
-  // 1. Carries out one deep copy of our argument
-  // 2. Avoids dynamic_cast
-
-  // We begin by taking a deep copy of `frame'...
-  std::unique_ptr<COMM> pnew(new COMM(frame));
-  // and saving a reference to that copy.
-  COMM &F = *pnew;
-  // We now remove our current frame from all our tag's lookup tables...
-  p_->remove_frame_from_lookups(p_->frames_[idx_]->id(), idx_);
-  // move the copy into the slot previously occupied by our frame...
-  p_->frames_[idx_] = std::move(pnew);
-  // and finally add the copy back into our lookups, but as the const reference we saved.
-  p_->add_frame_to_lookups(F, idx_);
+  p_->frames_[idx_] = std::make_unique<COMM>(frame);
+  p_->refresh_lookups();
 
   return *this;
 }
@@ -883,20 +812,8 @@ scribbu::id3v2_3_tag::mutable_frame_proxy::operator=(const COMM &frame)
 scribbu::id3v2_3_tag::mutable_frame_proxy&
 scribbu::id3v2_3_tag::mutable_frame_proxy::operator=(const POPM &frame)
 {
-  // This is a little twisted, but it accomplishes two things:
-  // 1. Carries out one deep copy of our argument
-  // 2. Avoids dynamic_cast
-
-  // We begin by taking a deep copy of `frame'...
-  std::unique_ptr<POPM> pnew(new POPM(frame));
-  // and saving a reference to that copy.
-  POPM &F = *pnew;
-  // We now remove our current frame from all our tag's lookup tables...
-  p_->remove_frame_from_lookups(p_->frames_[idx_]->id(), idx_);
-  // move the copy into the slot previously occupied by our frame...
-  p_->frames_[idx_] = std::move(pnew);
-  // and finally add the copy back into our lookups, but as the const reference we saved.
-  p_->add_frame_to_lookups(F, idx_);
+  p_->frames_[idx_] = std::make_unique<POPM>(frame);
+  p_->refresh_lookups();
 
   return *this;
 }
@@ -907,8 +824,7 @@ scribbu::id3v2_3_tag::insert(const_iterator p, const id3v2_3_frame &frame)
   std::unique_ptr<id3v2_3_frame> pnew(frame.clone());
 
   auto p1 = frames_.emplace(frames_.cbegin() + p.index(), std::move(pnew));
-  std::ptrdiff_t d = p1 - frames_.begin();
-  add_frame_to_lookups(*frames_[d], d);
+  refresh_lookups();
 
   return iterator(this, p1);
 }
@@ -916,16 +832,9 @@ scribbu::id3v2_3_tag::insert(const_iterator p, const id3v2_3_frame &frame)
 scribbu::id3v2_3_tag::iterator
 scribbu::id3v2_3_tag::insert(const_iterator p, const id3v2_3_text_frame &frame)
 {
-  // This is a little twisted, but it accomplishes two things:
-  // 1. Carries out one deep copy of our argument
-  // 2. Avoids dynamic_cast
-
-  std::unique_ptr<id3v2_3_text_frame> pnew = std::make_unique<id3v2_3_text_frame>(frame);
-  id3v2_3_text_frame &F = *pnew;
-
-  auto p1 = frames_.emplace(frames_.begin() + p.index(), std::move(pnew));
-  std::ptrdiff_t d = p1 - frames_.begin();
-  add_frame_to_lookups(F, d);
+  auto p1 = frames_.emplace(frames_.begin() + p.index(),
+                            std::make_unique<id3v2_3_text_frame>(frame));
+  refresh_lookups();
 
   return iterator(this, p1);
 }
@@ -933,16 +842,9 @@ scribbu::id3v2_3_tag::insert(const_iterator p, const id3v2_3_text_frame &frame)
 scribbu::id3v2_3_tag::iterator
 scribbu::id3v2_3_tag::insert(const_iterator p, const PCNT &frame)
 {
-  // This is a little twisted, but it accomplishes two things:
-  // 1. Carries out one deep copy of our argument
-  // 2. Avoids dynamic_cast
-
-  std::unique_ptr<PCNT> pnew = std::make_unique<PCNT>(frame);
-  PCNT &F = *pnew;
-
-  auto p1 = frames_.emplace(frames_.begin() + p.index(), std::move(pnew));
-  std::ptrdiff_t d = p1 - frames_.begin();
-  add_frame_to_lookups(F, d);
+  auto p1 = frames_.emplace(frames_.begin() + p.index(),
+                            std::make_unique<PCNT>(frame));
+  refresh_lookups();
 
   return iterator(this, p1);
 }
@@ -950,32 +852,18 @@ scribbu::id3v2_3_tag::insert(const_iterator p, const PCNT &frame)
 scribbu::id3v2_3_tag::iterator
 scribbu::id3v2_3_tag::insert(const_iterator p, const COMM &frame)
 {
-  // This is a little twisted, but it accomplishes two things:
-  // 1. Carries out one deep copy of our argument
-  // 2. Avoids dynamic_cast
-
-  std::unique_ptr<COMM> pnew = std::make_unique<COMM>(frame);
-  COMM &F = *pnew;
-
-  auto p1 = frames_.emplace(frames_.begin() + p.index(), std::move(pnew));
-  std::ptrdiff_t d = p1 - frames_.begin();
-  add_frame_to_lookups(F, d);
+  auto p1 = frames_.emplace(frames_.begin() + p.index(),
+                            std::make_unique<COMM>(frame));
+  refresh_lookups();
   return iterator(this, p1);
 }
 
 scribbu::id3v2_3_tag::iterator
 scribbu::id3v2_3_tag::insert(const_iterator p, const POPM &frame)
 {
-  // This is a little twisted, but it accomplishes two things:
-  // 1. Carries out one deep copy of our argument
-  // 2. Avoids dynamic_cast
-
-  std::unique_ptr<POPM> pnew = std::make_unique<POPM>(frame);
-  POPM &F = *pnew;
-
-  auto p1 = frames_.emplace(frames_.begin() + p.index(), std::move(pnew));
-  std::ptrdiff_t d = p1 - frames_.begin();
-  add_frame_to_lookups(F, d);
+  auto p1 = frames_.emplace(frames_.begin() + p.index(),
+                            std::make_unique<POPM>(frame));
+  refresh_lookups();
   return iterator(this, p1);
 }
 
@@ -985,8 +873,7 @@ scribbu::id3v2_3_tag::push_back(const id3v2_3_frame &frame)
   std::unique_ptr<id3v2_3_frame> pnew(frame.clone());
 
   frames_.emplace_back(std::move(pnew));
-  std::size_t d = frames_.size() - 1;
-  add_frame_to_lookups(*frames_[d], d);
+  refresh_lookups();
 }
 
 void
@@ -1032,21 +919,18 @@ scribbu::id3v2_3_tag::push_back(const POPM &frame)
 scribbu::id3v2_3_tag::iterator
 scribbu::id3v2_3_tag::erase(const_iterator p)
 {
-  std::size_t idx = p - begin();
-  remove_frame_from_lookups(p->id(), idx);
-  return iterator(this, frames_.erase(frames_.begin() + idx));
+  auto p1 = frames_.erase(frames_.begin() + p.index());
+  refresh_lookups();
+  return iterator(this, p1);
 }
 
 scribbu::id3v2_3_tag::iterator
 scribbu::id3v2_3_tag::erase(const_iterator p0, const_iterator p1)
 {
-  const_iterator p2 = p0;
-  for (size_t i = p2 - begin(); p2 != p1; ++p2, ++i) {
-    remove_frame_from_lookups(p2->id(), i);
-  }
-
-  return iterator(this, frames_.erase(frames_.begin() + p0.index(),
-                                      frames_.begin() + p1.index()));
+  auto p2 = frames_.erase(frames_.begin() + p0.index(),
+                          frames_.begin() + p1.index());
+  refresh_lookups();
+  return iterator(this, p2);
 }
 
 std::ostream&
@@ -1062,45 +946,34 @@ scribbu::id3v2_3_tag::write_header(std::ostream &os,
 }
 
 void
-scribbu::id3v2_3_tag::remove_frame_from_lookups(const frame_id4 &id, std::size_t idx)
+scribbu::id3v2_3_tag::refresh_lookups()
 {
-  static const frame_id4 COM("COMM"), CNT("PCNT"), POP("POPM");
-
-  if (COM == id) {
-    comm_frame_lookup_type::iterator p =
-      std::find_if(comms_.begin(), comms_.end(),
-                   [idx](const comm_frame_lookup_type::value_type &x)
-                   { return x.second == idx; });
-    comms_.erase(p);
-  }
-  else if (CNT == id) {
-    pcnt_frame_lookup_type::iterator p =
-      std::find_if(pcnts_.begin(), pcnts_.end(),
-                   [idx](const pcnt_frame_lookup_type::value_type &x)
-                   { return x.second == idx; });
-    pcnts_.erase(p);
-  }
-  else if (POP == id) {
-    popm_frame_lookup_type::iterator p =
-      std::find_if(popms_.begin(), popms_.end(),
-                   [idx](const popm_frame_lookup_type::value_type &x)
-                   { return x.second == idx; });
-    popms_.erase(p);
-  }
-  else if (id.text_frame()) {
-    const id3v2_3_frame *pf = frames_[idx].get();
-    text_frame_lookup_type::iterator p =
-      std::find_if(text_map_.begin(), text_map_.end(),
-                   [pf, id](const text_frame_lookup_type::value_type &x)
-                   { return x.first == id && x.second == pf; });
-    text_map_.erase(p);
+  comms_.clear();
+  pcnts_.clear();
+  popms_.clear();
+  frame_map_.clear();
+  text_map_.clear();
+  for (std::size_t i = 0; i < frames_.size(); ++i) {
+    id3v2_3_frame *pf = frames_[i].get();
+    if (!pf) {
+      continue; // moved-from
+    }
+    if (auto pcomm = dynamic_cast<COMM*>(pf)) {
+      add_frame_to_lookups(*pcomm, i);
+    }
+    else if (auto ppcnt = dynamic_cast<PCNT*>(pf)) {
+      add_frame_to_lookups(*ppcnt, i);
+    }
+    else if (auto ppopm = dynamic_cast<POPM*>(pf)) {
+      add_frame_to_lookups(*ppopm, i);
+    }
+    else if (auto ptxt = dynamic_cast<id3v2_3_text_frame*>(pf)) {
+      add_frame_to_lookups(*ptxt, i);
+    }
+    else {
+      add_frame_to_lookups(*pf, i);
+    }
   }
-
-  frame_lookup_type::iterator pflu =
-    std::find_if(frame_map_.begin(), frame_map_.end(),
-                 [idx, id](const frame_lookup_type::value_type &x)
-                 { return x.first == id && x.second == idx; });
-  frame_map_.erase(pflu);
 }
 
 void
diff --git a/scribbu/id3v23.hh b/scribbu/id3v23.hh
index 0179b41..7f655e8 100644
--- a/scribbu/id3v23.hh
+++ b/scribbu/id3v23.hh
@@ -590,9 +590,9 @@ namespace scribbu {
 
   private:
 
-    /// Remove an arbitrary frame from our ancillary datastructures; on return,
-    /// it will remain in the frame vector
-    void remove_frame_from_lookups(const frame_id4 &id, std::size_t idx);
+    /// Rebuild our ancillary datastructures from the frame vector; to be
+    /// invoked whenever frames have been replaced, or have changed places
+    void refresh_lookups();
     void add_frame_to_lookups(const id3v2_3_frame &frame, std::size_t idx);
     void add_frame_to_lookups(id3v2_3_text_frame &frame, std::size_t idx);
     void add_frame_to_lookups(PCNT &frame, std::size_t idx);
diff --git a/scribbu/id3v24.cc b/scribbu/id3v24.cc
index 9825ad4..49af6b6 100644
--- a/scribbu/id3v24.cc
+++ b/scribbu/id3v24.cc
@@ -496,49 +496,42 @@ scribbu::id3v2_4_tag::id3v2_4_tag(std::size_t cbpad /*= 0*/,
 }
 
 scribbu::id3v2_4_tag::id3v2_4_tag(const id3v2_4_tag &that):
-  id3v2_tag(*this),
+  id3v2_tag(that),
   experimental_(that.experimental_),
   footer_(that.footer_),
   generic_parsers_(that.generic_parsers_),
   text_parsers_(that.text_parsers_),
-  pext_header_(new ext_header(*that.pext_header_)),
-  padding_(that.padding_)
+  padding_(that.padding_),
+  encryption_methods_(that.encryption_methods_)
 {
+  if (that.pext_header_) {
+    pext_header_.reset(new ext_header(*that.pext_header_));
+  }
   for (auto &p: that.frames_) {
     frames_.push_back(std::unique_ptr<id3v2_4_frame>(p->clone()));
-    add_frame_to_lookups( *frames_.back(), frames_.size() );
-    if (frames_.back()->id() == frame_id4("ENCR")) {
-      register_encryption_method(dynamic_cast<const ENCR_2_4&>(*frames_.back()));
-    }
   }
+  refresh_lookups();
 }
 
 scribbu::id3v2_4_tag& scribbu::id3v2_4_tag::operator=(const id3v2_4_tag &that)
 {
   if (this != &that) {
-    id3v2_tag::operator=(*this);
+    id3v2_tag::operator=(that);
     experimental_ = that.experimental_;
     footer_ = that.footer_;
     generic_parsers_ = that.generic_parsers_;
     text_parsers_ = that.text_parsers_;
-    pext_header_.reset(new ext_header(*that.pext_header_));
+    pext_header_.reset(that.pext_header_ ?
+                       new ext_header(*that.pext_header_) : nullptr);
     padding_ = that.padding_;
 
-    comms_.clear();
-    pcnts_.clear();
-    popms_.clear();
-    encryption_methods_.clear();
+    encryption_methods_ = that.encryption_methods_;
     frames_.clear();
-    frame_map_.clear();
-    text_map_.clear();
 
     for (auto &p: that.frames_) {
       frames_.push_back(std::unique_ptr<id3v2_4_frame>(p->clone()));
-      add_frame_to_lookups( *frames_.back(), frames_.size() );
-      if (frames_.back()->id() == frame_id4("ENCR")) {
-        register_encryption_method(dynamic_cast<const ENCR_2_4&>(*frames_.back()));
-      }
     }
+    refresh_lookups();
   }
 
   return *this;
@@ -773,9 +766,10 @@ scribbu::id3v2_4_tag::add_comment(const std::string &text,
                                                               false, false,
                                                               boost::none,
                                                               description);
+  COMM_2_4 &F = *pnew;
   std::ptrdiff_t d = frames_.size();
   frames_.emplace_back(std::move(pnew));
-  add_frame_to_lookups(*pnew, d);
+  add_frame_to_lookups(F, d);
 }
 
 /*virtual*/
@@ -794,9 +788,10 @@ scribbu::id3v2_4_tag::add_user_defined_text(const std::string &text,
                                                               boost::none,
                                                               false, false,
                                                               description);
+  TXXX_2_4 &F = *pnew;
   std::ptrdiff_t d = frames_.size();
   frames_.emplace_back(std::move(pnew));
-  add_frame_to_lookups(*pnew, d);
+  add_frame_to_lookups(F, d);
 }
 
 /*virtual*/
@@ -832,8 +827,8 @@ scribbu::id3v2_4_tag::delete_frame(id3v2_text_frames id)
   auto p = frame_map_.find(id3);
   if (p != frame_map_.end()) {
     std::ptrdiff_t idx = p->second;
-    remove_frame_from_lookups(id3, idx);
     frames_.erase(frames_.begin() + idx);
+    refresh_lookups();
   }
 }
 
@@ -844,35 +839,10 @@ scribbu::id3v2_4_tag::delete_frame(id3v2_text_frames id)
 scribbu::id3v2_4_tag::mutable_frame_proxy&
 scribbu::id3v2_4_tag::mutable_frame_proxy::operator=(mutable_frame_proxy &&that)
 {
-  using namespace scribbu;
-
-  static const frame_id4 COMID("COMM"), CNTID("PCNT"), POPID("POPM");
-
-  p_->remove_frame_from_lookups(p_->frames_[idx_]->id(), idx_);
   p_->frames_[idx_].swap(that.p_->frames_[that.idx_]);
-  idx_ = that.idx_;
-
-  id3v2_4_tag::frames_type::iterator pnew = p_->frames_.begin() + idx_;
-  frame_id4 id = (**pnew).id();
-  if (id == CNTID) {
-    PCNT_2_4 &frame = dynamic_cast<PCNT_2_4&>(*(pnew->get()));
-    p_->add_frame_to_lookups(frame, idx_);
-  }
-  else if (id == COMID) {
-    COMM_2_4 &frame = dynamic_cast<COMM_2_4&>(*(pnew->get()));
-    p_->add_frame_to_lookups(frame, idx_);
-  }
-  else if (id == POPID) {
-    POPM_2_4 &frame = dynamic_cast<POPM_2_4&>(*(pnew->get()));
-    p_->add_frame_to_lookups(frame, idx_);
-  }
-  else if (id.text_frame()) {
-    id3v2_4_text_frame &frame = dynamic_cast<id3v2_4_text_frame&>(*(pnew->get()));
-    p_->add_frame_to_lookups(frame, idx_);
-  }
-  else {
-    id3v2_4_frame &frame = *(pnew->get());
-    p_->add_frame_to_lookups(frame, idx_);
+  p_->refresh_lookups();
+  if (that.p_ != p_) {
+    that.p_->refresh_lookups();
   }
 
   return *this;
@@ -883,9 +853,8 @@ scribbu::id3v2_4_tag::mutable_frame_proxy::operator=(const id3v2_4_frame &frame)
 {
   std::unique_ptr<id3v2_4_frame> pnew(frame.clone());
 
-  p_->remove_frame_from_lookups(p_->frames_[idx_]->id(), idx_);
   p_->frames_[idx_].swap(pnew);
-  p_->add_frame_to_lookups(*(p_->frames_[idx_]), idx_);
+  p_->refresh_lookups();
 
   return *this;
 }
@@ -893,20 +862,8 @@ scribbu::id3v2_4_tag::mutable_frame_proxy::operator=(const id3v2_4_frame &frame)
 scribbu::id3v2_4_tag::mutable_frame_proxy&
 scribbu::id3v2_4_tag::mutable_frame_proxy::operator=(const id3v2_4_text_frame &frame)
 {
-  // This is a little twisted, but it accomplishes two things:
-  // 1. Carries out one deep copy of our argument
-  // 2. Avoids dynamic_cast
-
-  // We begin by taking a deep copy of `frame'...
-  std::unique_ptr<id3v2_4_text_frame> pnew(new id3v2_4_text_frame(frame));
-  // and saving a reference to that copy.
-  id3v2_4_text_frame &F = *pnew;
-  // We now remove our current frame from all our tag's lookup tables...
-  p_->remove_frame_from_lookups(p_->frames_[idx_]->id(), idx_);
-  // move the copy into the slot previously occupied by our frame...
-  p_->frames_[idx_] = std::move(pnew);
-  // and finally add the copy back into our lookups, but as the const reference we saved.
-  p_->add_frame_to_lookups(F, idx_);
+  p_->frames_[idx_] = std::make_unique<id3v2_4_text_frame>(frame);
+  p_->refresh_lookups();
 
   return *this;
 }
@@ -914,20 +871,8 @@ scribbu::id3v2_4_tag::mutable_frame_proxy::operator=(const id3v2_4_text_frame &f
 scribbu::id3v2_4_tag::mutable_frame_proxy&
 scribbu::id3v2_4_tag::mutable_frame_proxy::operator=(const PCNT_2_4 &frame)
 {
-  // This is a little twisted, but it accomplishes two things:
-  // 1. Carries out one deep copy of our argument
-  // 2. Avoids dynamic_cast
-
-  // We begin by taking a deep copy of `frame'...
-  std::unique_ptr<PCNT_2_4> pnew(new PCNT_2_4(frame));
-  // and saving a reference to that copy.
-  PCNT_2_4 &F = *pnew;
-  // We now remove our current frame from all our tag's lookup tables...
-  p_->remove_frame_from_lookups(p_->frames_[idx_]->id(), idx_);
-  // move the copy into the slot previously occupied by our frame...
-  p_->frames_[idx_] = std::move(pnew);
-  // and finally add the copy back into our lookups, but as the const reference we saved.
-  p_->add_frame_to_lookups(F, idx_);
+  p_->frames_[idx_] = std::make_unique<PCNT_2_4>(frame);
+  p_->refresh_lookups();
 
   return *this;
 }
@@ -935,20 +880,8 @@ scribbu::id3v2_4_tag::mutable_frame_proxy::operator=(const PCNT_2_4 &frame)
 scribbu::id3v2_4_tag::mutable_frame_proxy&
 scribbu::id3v2_4_tag::mutable_frame_proxy::operator=(const COMM_2_4 &frame)
 {
-  // This is a little twisted, but it accomplishes two things:
-  // 1. Carries out one deep copy of our argument
-  // 2. Avoids dynamic_cast
-
-  // We begin by taking a deep copy of `frame'...
-  std::unique_ptr<COMM_2_4> pnew(new COMM_2_4(frame));
-  // and saving a reference to that copy.
-  COMM_2_4 &F = *pnew;
-  // We now remove our current frame from all our tag's lookup tables...
-  p_->remove_frame_from_lookups(p_->frames_[idx_]->id(), idx_);
-  // move the copy into the slot previously occupied by our frame...
-  p_->frames_[idx_] = std::move(pnew);
-  // and finally add the copy back into our lookups, but as the const reference we saved.
-  p_->add_frame_to_lookups(F, idx_);
+  p_->frames_[idx_] = std::make_unique<COMM_2_4>(frame);
+  p_->refresh_lookups();
 
   return *this;
 }
@@ -956,20 +889,8 @@ scribbu::id3v2_4_tag::mutable_frame_proxy::operator=(const COMM_2_4 &frame)
 scribbu::id3v2_4_tag::mutable_frame_proxy&
 scribbu::id3v2_4_tag::mutable_frame_proxy::operator=(const POPM_2_4 &frame)
 {
-  // This is a little twisted, but it accomplishes two things:
-  // 1. Carries out one deep copy of our argument
-  // 2. Avoids dynamic_cast
-
-  // We begin by taking a deep copy of `frame'...
-  std::unique_ptr<POPM_2_4> pnew(new POPM_2_4(frame));
-  // and saving a reference to that copy.
-  POPM_2_4 &F = *pnew;
-  // We now remove our current frame from all our tag's lookup tables...
-  p_->remove_frame_from_lookups(p_->frames_[idx_]->id(), idx_);
-  // move the copy into the slot previously occupied by our frame...
-  p_->frames_[idx_] = std::move(pnew);
-  // and finally add the copy back into our lookups, but as the const reference we saved.
-  p_->add_frame_to_lookups(F, idx_);
+  p_->frames_[idx_] = std::make_unique<POPM_2_4>(frame);
+  p_->refresh_lookups();
 
   return *this;
 }
@@ -980,24 +901,16 @@ scribbu::id3v2_4_tag::insert(const_iterator p, const id3v2_4_frame &frame)
   std::unique_ptr<id3v2_4_frame> pnew(frame.clone());
 
   auto p1 = frames_.emplace(frames_.cbegin() + p.index(), std::move(pnew));
-  std::ptrdiff_t d = p1 - frames_.begin();
-  add_frame_to_lookups(*frames_[d], d);
+  refresh_lookups();
   return iterator(this, p1);
 }
 
 scribbu::id3v2_4_tag::iterator
 scribbu::id3v2_4_tag::insert(const_iterator p, const id3v2_4_text_frame &frame)
 {
-  // This is a little twisted, but it accomplishes two things:
-  // 1. Carries out one deep copy of our argument
-  // 2. Avoids dynamic_cast
-
-  std::unique_ptr<id3v2_4_text_frame> pnew = std::make_unique<id3v2_4_text_frame>(frame);
-  id3v2_4_text_frame &F = *pnew;
-
-  auto p1 = frames_.emplace(frames_.begin() + p.index(), std::move(pnew));
-  std::ptrdiff_t d = p1 - frames_.begin();
-  add_frame_to_lookups(F, d);
+  auto p1 = frames_.emplace(frames_.begin() + p.index(),
+                            std::make_unique<id3v2_4_text_frame>(frame));
+  refresh_lookups();
 
   return iterator(this, p1);
 }
@@ -1005,16 +918,9 @@ scribbu::id3v2_4_tag::insert(const_iterator p, const id3v2_4_text_frame &frame)
 scribbu::id3v2_4_tag::iterator
 scribbu::id3v2_4_tag::insert(const_iterator p, const PCNT_2_4 &frame)
 {
-  // This is a little twisted, but it accomplishes two things:
-  // 1. Carries out one deep copy of our argument
-  // 2. Avoids dynamic_cast
-
-  std::unique_ptr<PCNT_2_4> pnew = std::make_unique<PCNT_2_4>(frame);
-  PCNT_2_4 &F = *pnew;
-
-  auto p1 = frames_.emplace(frames_.begin() + p.index(), std::move(pnew));
-  std::ptrdiff_t d = p1 - frames_.begin();
-  add_frame_to_lookups(F, d);
+  auto p1 = frames_.emplace(frames_.begin() + p.index(),
+                            std::make_unique<PCNT_2_4>(frame));
+  refresh_lookups();
 
   return iterator(this, p1);
 }
@@ -1022,16 +928,9 @@ scribbu::id3v2_4_tag::insert(const_iterator p, const PCNT_2_4 &frame)
 scribbu::id3v2_4_tag::iterator
 scribbu::id3v2_4_tag::insert(const_iterator p, const COMM_2_4 &frame)
 {
-  // This is a little twisted, but it accomplishes two things:
-  // 1. Carries out one deep copy of our argument
-  // 2. Avoids dynamic_cast
-
-  std::unique_ptr<COMM_2_4> pnew = std::make_unique<COMM_2_4>(frame);
-  COMM_2_4 &F = *pnew;
-
-  auto p1 = frames_.emplace(frames_.begin() + p.index(), std::move(pnew));
-  std::ptrdiff_t d = p1 - frames_.begin();
-  add_frame_to_lookups(F, d);
+  auto p1 = frames_.emplace(frames_.begin() + p.index(),
+                            std::make_unique<COMM_2_4>(frame));
+  refresh_lookups();
 
   return iterator(this, p1);
 }
@@ -1039,16 +938,9 @@ scribbu::id3v2_4_tag::insert(const_iterator p, const COMM_2_4 &frame)
 scribbu::id3v2_4_tag::iterator
 scribbu::id3v2_4_tag::insert(const_iterator p, const POPM_2_4 &frame)
 {
-  // This is a little twisted, but it accomplishes two things:
-  // 1. Carries out one deep copy of our argument
-  // 2. Avoids dynamic_cast
-
-  std::unique_ptr<POPM_2_4> pnew = std::make_unique<POPM_2_4>(frame);
-  POPM_2_4 &F = *pnew;
-
-  auto p1 = frames_.emplace(frames_.begin() + p.index(), std::move(pnew));
-  std::ptrdiff_t d = p1 - frames_.begin();
-  add_frame_to_lookups(F, d);
+  auto p1 = frames_.emplace(frames_.begin() + p.index(),
+                            std::make_unique<POPM_2_4>(frame));
+  refresh_lookups();
 
   return iterator(this, p1);
 }
@@ -1059,8 +951,7 @@ scribbu::id3v2_4_tag::push_back(const id3v2_4_frame &frame)
   std::unique_ptr<id3v2_4_frame> pnew(frame.clone());
 
   frames_.emplace_back(std::move(pnew));
-  std::size_t d = frames_.size() - 1;
-  add_frame_to_lookups(*frames_[d], d);
+  refresh_lookups();
 }
 
 void
@@ -1106,21 +997,18 @@ scribbu::id3v2_4_tag::push_back(const POPM_2_4 &frame)
 scribbu::id3v2_4_tag::iterator
 scribbu::id3v2_4_tag::erase(const_iterator p)
 {
-  std::size_t idx = p - begin();
-  remove_frame_from_lookups(p->id(), idx);
-  return iterator(this, frames_.erase(frames_.begin() + idx));
+  auto p1 = frames_.erase(frames_.begin() + p.index());
+  refresh_lookups();
+  return iterator(this, p1);
 }
 
 scribbu::id3v2_4_tag::iterator
 scribbu::id3v2_4_tag::erase(const_iterator p0, const_iterator p1)
 {
-  const_iterator p2 = p0;
-  for (size_t i = p2 - begin(); p2 != p1; ++p2, ++i) {
-    remove_frame_from_lookups(p2->id(), i);
-  }
-
-  return iterator(this, frames_.erase(frames_.begin() + p0.index(),
-                                      frames_.begin() + p1.index()));
+  auto p2 = frames_.erase(frames_.begin() + p0.index(),
+                          frames_.begin() + p1.index());
+  refresh_lookups();
+  return iterator(this, p2);
 }
 
 std::ostream&
@@ -1148,45 +1036,34 @@ scribbu::id3v2_4_tag::write_footer(std::ostream &os,
 }
 
 void
-scribbu::id3v2_4_tag::remove_frame_from_lookups(const frame_id4 &id, std::size_t idx)
+scribbu::id3v2_4_tag::refresh_lookups()
 {
-  static const frame_id4 COM("COMM"), CNT("PCNT"), POP("POPM");
-
-  if (COM == id) {
-    comm_frame_lookup_type::iterator p =
-      std::find_if(comms_.begin(), comms_.end(),
-                   [idx](const comm_frame_lookup_type::value_type &x)
-                   { return x.second == idx; });
-    comms_.erase(p);
-  }
-  else if (CNT == id) {
-    pcnt_frame_lookup_type::iterator p =
-      std::find_if(pcnts_.begin(), pcnts_.end(),
-                   [idx](const pcnt_frame_lookup_type::value_type &x)
-                   { return x.second == idx; });
-    pcnts_.erase(p);
-  }
-  else if (POP == id) {
-    popm_frame_lookup_type::iterator p =
-      std::find_if(popms_.begin(), popms_.end(),
-                   [idx](const popm_frame_lookup_type::value_type &x)
-                   { return x.second == idx; });
-    popms_.erase(p);
-  }
-  else if (id.text_frame()) {
-    const id3v2_4_frame *pf = frames_[idx].get();
-    text_frame_lookup_type::iterator p =
-      std::find_if(text_map_.begin(), text_map_.end(),
-                   [pf, id](const text_frame_lookup_type::value_type &x)
-                   { return x.first == id && x.second == pf; });
-    text_map_.erase(p);
+  comms_.clear();
+  pcnts_.clear();
+  popms_.clear();
+  frame_map_.clear();
+  text_map_.clear();
+  for (std::size_t i = 0; i < frames_.size(); ++i) {
+    id3v2_4_frame *pf = frames_[i].get();
+    if (!pf) {
+      continue; // moved-from
+    }
+    if (auto pcomm = dynamic_cast<COMM_2_4*>(pf)) {
+      add_frame_to_lookups(*pcomm, i);
+    }
+    else if (auto ppcnt = dynamic_cast<PCNT_2_4*>(pf)) {
+      add_frame_to_lookups(*ppcnt, i);
+    }
+    else if (auto ppopm = dynamic_cast<POPM_2_4*>(pf)) {
+      add_frame_to_lookups(*ppopm, i);
+    }
+    else if (auto ptxt = dynamic_cast<id3v2_4_text_frame*>(pf)) {
+      add_frame_to_lookups(*ptxt, i);
+    }
+    else {
+      add_frame_to_lookups(*pf, i);
+    }
   }
-
-  frame_lookup_type::iterator pflu =
-    std::find_if(frame_map_.begin(), frame_map_.end(),
-                 [idx, id](const frame_lookup_type::value_type &x)
-                 { return x.first == id && x.second == idx; });
-  frame_map_.erase(pflu);
 }
 
 void
diff --git a/scribbu/id3v24.hh b/scribbu/id3v24.hh
index eab8b6b..d38b8fd 100644
--- a/scribbu/id3v24.hh
+++ b/scribbu/id3v24.hh
@@ -625,9 +625,9 @@ namespace scribbu {
 
   private:
 
-    /// Remove an arbitrary frame from our ancillary datastructures; on return,
-    /// it will remain in the frame vector
-    void remove_frame_from_lookups(const frame_id4 &id, std::size_t idx);
+    /// Rebuild our ancillary datastructures from the frame vector; to be
+    /// invoked whenever frames have been replaced, or have changed places
+    void refresh_lookups();
     void add_frame_to_lookups(const id3v2_4_frame &frame, std::size_t idx);
     void add_frame_to_lookups(id3v2_4_text_frame &frame, std::size_t idx);
     void add_frame_to_lookups(PCNT_2_4 &frame, std::size_t idx);
-- 
2.43.0


From 9ed9318b8ed36352eb4e3e713a0303b0cf12442c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:34:09 +0000
Subject: [PATCH 024/194] fix: look for play counts in ID3v2.4 tags under PCNT

---
 scribbu/id3v24.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scribbu/id3v24.hh b/scribbu/id3v24.hh
index d38b8fd..11ca7e3 100644
--- a/scribbu/id3v24.hh
+++ b/scribbu/id3v24.hh
@@ -335,7 +335,7 @@ namespace scribbu {
     virtual std::size_t has_languages() const
     { return frame_map_.count("TLAN"); }
     virtual std::size_t has_play_count() const
-    { return frame_map_.count("CNT"); }
+    { return frame_map_.count("PCNT"); }
     virtual std::size_t has_title() const
     { return frame_map_.count("TIT2"); }
     virtual std::size_t has_track() const
-- 
2.43.0


From 67113895de9932c29ea940b00ae718585b0b7d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:34:09 +0000
Subject: [PATCH 025/194] fix: unsynchronise ID3v2.3 extended headers when
 asked, not otherwise

---
 scribbu/id3v23.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scribbu/id3v23.cc b/scribbu/id3v23.cc
index 9efd15e..38820df 100644
--- a/scribbu/id3v23.cc
+++ b/scribbu/id3v23.cc
@@ -250,7 +250,7 @@ scribbu::id3v2_3_tag::ext_header::write(std::ostream &os, bool unsync) const
 {
   using namespace std;
   ensure_cached_data_is_fresh();
-  size_t idx = unsync ? SERIALIZED : SERIALIZED_WITH_UNSYNC;
+  size_t idx = unsync ? SERIALIZED_WITH_UNSYNC : SERIALIZED;
   os.write((char*)&cache_[idx][0], cache_[idx].size());
   return cache_[idx].size();
 }
-- 
2.43.0


From 9c68213db3833ef1fd292eec284d78dc24fb9451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:34:09 +0000
Subject: [PATCH 026/194] fix: do not read an ID3v2.3 extended header beyond
 the end of its tag

---
 scribbu/id3v23.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/scribbu/id3v23.cc b/scribbu/id3v23.cc
index 38820df..84affb4 100644
--- a/scribbu/id3v23.cc
+++ b/scribbu/id3v23.cc
@@ -189,11 +189,16 @@ scribbu::id3v2_3_tag::ext_header::ext_header(const unsigned char *p0,
   using scribbu::detail::uint32_from_non_sync_safe;
   using scribbu::detail::unsigned_from_non_sync_safe;
 
+  if (p1 - p0 < 10) {
+    throw invalid_ext_header();
+  }
+
   std::size_t cb = unsigned_from_non_sync_safe(p0[0], p0[1], p0[2], p0[3]);
 
   bool fcrc = p0[4] & 0x80;
 
-  if ( (fcrc && cb != 10) || (!fcrc && cb !=6 ) ) {
+  if ( (fcrc && cb != 10) || (!fcrc && cb !=6 ) ||
+       std::size_t(p1 - p0) < cb + 4 ) {
     throw invalid_ext_header();
   }
 
-- 
2.43.0


From 199c68c08fa73804bfae5e282acd4c37dbd42518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:34:09 +0000
Subject: [PATCH 027/194] fix: write the tag's present padding in ID3v2.3
 extended headers

---
 scribbu/id3v23.cc | 25 ++++++++++++++++---------
 scribbu/id3v23.hh |  4 +++-
 2 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/scribbu/id3v23.cc b/scribbu/id3v23.cc
index 84affb4..e09008e 100644
--- a/scribbu/id3v23.cc
+++ b/scribbu/id3v23.cc
@@ -236,6 +236,19 @@ scribbu::id3v2_3_tag::ext_header::needs_unsynchronisation() const
   return num_false_syncs_;
 }
 
+/// Bring this header up-to-date with the tag of which it's a part
+void
+scribbu::id3v2_3_tag::ext_header::update(const id3v2_3_tag &tag) const
+{
+  if (cbpad_ != tag.padding()) {
+    dirty_ = true;
+    cbpad_ = tag.padding();
+  }
+  if (has_crc()) {
+    crc(tag);
+  }
+}
+
 std::uint32_t
 scribbu::id3v2_3_tag::ext_header::crc(const id3v2_3_tag &tag) const
 {
@@ -496,9 +509,7 @@ scribbu::id3v2_3_tag::size(bool unsync) const
 
   // but we *do* include the extended header, if it's present...
   if (pext_header_) {
-    if (pext_header_->has_crc()) {
-      pext_header_->crc(*this);
-    }
+    pext_header_->update(*this);
     cb += pext_header_->serialized_size(unsync);
   }
 
@@ -560,9 +571,7 @@ scribbu::id3v2_3_tag::needs_unsynchronisation() const
   using namespace std;
 
   if (pext_header_) {
-    if (pext_header_->has_crc()) {
-      pext_header_->crc(*this);
-    }
+    pext_header_->update(*this);
     if (pext_header_->needs_unsynchronisation()) {
       return true;
     }
@@ -641,9 +650,7 @@ scribbu::id3v2_3_tag::write(std::ostream &os, bool unsync) const
   size_t cb = 10;
 
   if (pext_header_) {
-    if (pext_header_->has_crc()) {
-      pext_header_->crc(*this);
-    }
+    pext_header_->update(*this);
     cb += pext_header_->write(os, unsync);
   }
 
diff --git a/scribbu/id3v23.hh b/scribbu/id3v23.hh
index 7f655e8..3eb0211 100644
--- a/scribbu/id3v23.hh
+++ b/scribbu/id3v23.hh
@@ -166,6 +166,8 @@ namespace scribbu {
       /// Determine whether this header has a CRC
       bool has_crc() const
       { return (bool) crc_; }
+      /// Bring the padding size & CRC (if any) up-to-date with \a tag
+      void update(const id3v2_3_tag &tag) const;
       /// Update/compute the CRC checksum for this header
       std::uint32_t crc(const id3v2_3_tag &tag) const;
       /// Retrieve the CRC-- will throw if we have no CRC
@@ -182,7 +184,7 @@ namespace scribbu {
       void ensure_cached_data_is_fresh() const;
 
     private:
-      std::size_t cbpad_;
+      mutable std::size_t cbpad_;
       mutable boost::optional<std::uint32_t> crc_;
       mutable bool dirty_;
       mutable std::size_t num_false_syncs_;
-- 
2.43.0


From f07a973f1eb4c8b1167163c3ad36aa6d39bcbda7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:34:09 +0000
Subject: [PATCH 028/194] fix: write ID3v2.3 tags that end in 0xff with the
 size they say

---
 scribbu/id3v23.cc | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/scribbu/id3v23.cc b/scribbu/id3v23.cc
index e09008e..fec9934 100644
--- a/scribbu/id3v23.cc
+++ b/scribbu/id3v23.cc
@@ -318,9 +318,12 @@ scribbu::id3v2_3_tag::ext_header::ensure_cached_data_is_fresh() const
   num_false_syncs_ = count_syncs(cache_[SERIALIZED].begin(),
                                  cache_[SERIALIZED].end(),
                                  true);
+  // This header may be followed by padding, so treat a trailing 0xff as a
+  // false sync.
   unsynchronise(back_inserter(cache_[SERIALIZED_WITH_UNSYNC]),
                 cache_[SERIALIZED].begin(),
-                cache_[SERIALIZED].end());
+                cache_[SERIALIZED].end(),
+                true);
 
   dirty_ = false;
 }
@@ -514,8 +517,9 @@ scribbu::id3v2_3_tag::size(bool unsync) const
   }
 
   // we of course include all our frames. We need to treat the last frame
-  // specially (because in ID3v2.3+, a trailing 0xff is treated as a false
-  // sync), but only if there's no padding.
+  // specially, because in ID3v2.3+, a trailing 0xff is treated as a false
+  // sync, and because if there's padding, a reader would otherwise take the
+  // first byte thereof for one inserted by the writer.
   size_t cb_pad = padding();
 
   auto p = begin(), p1 = end();
@@ -525,7 +529,7 @@ scribbu::id3v2_3_tag::size(bool unsync) const
       cb += p->serialized_size(unsync);
       p += 1;
     }
-    cb += p->serialized_size(unsync, 0 == cb_pad);
+    cb += p->serialized_size(unsync, true);
   }
 
   // as well as any padding.
@@ -577,8 +581,6 @@ scribbu::id3v2_3_tag::needs_unsynchronisation() const
     }
   }
 
-  size_t cb_pad = padding();
-
   auto p = begin(), p1 = end();
   if (p != p1) {
     p1 -= 1;
@@ -588,7 +590,7 @@ scribbu::id3v2_3_tag::needs_unsynchronisation() const
       }
       p += 1;
     }
-    if (p->needs_unsynchronisation(cb_pad == 0)) {
+    if (p->needs_unsynchronisation(true)) {
       return true;
     }
   }
@@ -644,7 +646,7 @@ scribbu::id3v2_3_tag::write(std::ostream &os, bool unsync) const
 {
   using namespace std;
 
-  unsigned char f = flags();
+  unsigned char f = flags() & ~0x80;
   if (unsync) f |= 0x80;
   write_header(os, f, size(unsync));
   size_t cb = 10;
@@ -658,6 +660,14 @@ scribbu::id3v2_3_tag::write(std::ostream &os, bool unsync) const
                   [&os, unsync](size_t n, const id3v2_3_frame &f)
                   { return n + f.write(os, unsync); });
 
+  // Cf. size()
+  if (unsync && !frames_.empty() &&
+      frames_.back()->serialized_size(true, true) >
+      frames_.back()->serialized_size(true)) {
+    os.write(PAD, 1);
+    ++cb;
+  }
+
   size_t cbpad = padding();
   while (cbpad) {
     size_t towrite = min(cbpad, CBPAD);
-- 
2.43.0


From 961744496ff2a2617d4b7ba9992ddeda7f17bee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:34:40 +0000
Subject: [PATCH 029/194] fix: stop looking for encryption methods that cannot
 be found

---
 scribbu/id3v23.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/scribbu/id3v23.cc b/scribbu/id3v23.cc
index fec9934..78dd5b9 100644
--- a/scribbu/id3v23.cc
+++ b/scribbu/id3v23.cc
@@ -28,6 +28,7 @@
 
 #include <algorithm>
 #include <numeric>
+#include <unordered_set>
 
 #include <arpa/inet.h>
 #include <zlib.h>
@@ -1131,10 +1132,12 @@ void scribbu::id3v2_3_tag::parse(std::istream &is, std::size_t size, bool extend
     // Process the list of frames once, to grab all encryption methods; take
     // care to handle ENCR frames that are themselves encrypted!
     std::size_t cb_frame = 0;
-    bool found_encrypted = false;
+    bool found_encrypted, progress;
+    std::unordered_set<const unsigned char*> registered;
     do {
 
       const unsigned char *pcurr = p0;
+      found_encrypted = progress = false;
 
       for ( ; pcurr < p1; pcurr += cb_frame + 10) {
 
@@ -1177,7 +1180,7 @@ void scribbu::id3v2_3_tag::parse(std::istream &is, std::size_t size, bool extend
 
         cb_frame = unsigned_from_non_sync_safe(pcurr[4], pcurr[5], pcurr[6], pcurr[7]);
 
-        if (ENCR != id) {
+        if (ENCR != id || registered.count(pcurr)) {
           continue;
         }
 
@@ -1241,10 +1244,12 @@ void scribbu::id3v2_3_tag::parse(std::istream &is, std::size_t size, bool extend
                            decompressed_size);
 
         register_encryption_method(encr);
+        registered.insert(pcurr);
+        progress = true;
 
       } // End iteration over all frames.
 
-    } while (found_encrypted); // End while on encrypted ENCR frames.
+    } while (found_encrypted && progress); // End while on encrypted ENCR frames.
 
     for ( ; p0 < p1; p0 += cb_frame + 10) {
 
-- 
2.43.0


From 5e0cb56c6af7359c7648cd3630962b3208e61d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:34:40 +0000
Subject: [PATCH 030/194] fix: refuse frames that extend beyond the end of
 their tag

---
 scribbu/id3v22.cc | 13 ++++++++-----
 scribbu/id3v23.cc | 37 +++++++++++++++++++++++++++++++------
 2 files changed, 39 insertions(+), 11 deletions(-)

diff --git a/scribbu/id3v22.cc b/scribbu/id3v22.cc
index 48f1f13..3fdd441 100644
--- a/scribbu/id3v22.cc
+++ b/scribbu/id3v22.cc
@@ -806,7 +806,10 @@ void scribbu::id3v2_2_tag::parse(std::istream &is, std::size_t size)
         break;
       }
 
-      // left > 2
+      if (left < 3) {
+        throw invalid_tag();
+      }
+
       frame_id3 id(p0[0], p0[1], p0[2]);
       if (PADDING == id) {
         padding_ = left;
@@ -828,10 +831,10 @@ void scribbu::id3v2_2_tag::parse(std::istream &is, std::size_t size)
 
       //     cb_tag = cb_frame + 6
 
-      // Therefore, we have cb_frame < cb_tag. If this relationship isn't
-      // satisfied, it's a good bet that this tag is either corrupt or
-      // was written incorrectly.
-      if (cb_frame >= cb_tag) {
+      // In general, the frame must fit in what's left of the tag. If this
+      // relationship isn't satisfied, it's a good bet that this tag is either
+      // corrupt or was written incorrectly.
+      if (cb_frame > left - 6) {
         throw invalid_tag();
       }
 
diff --git a/scribbu/id3v23.cc b/scribbu/id3v23.cc
index 78dd5b9..f4634ec 100644
--- a/scribbu/id3v23.cc
+++ b/scribbu/id3v23.cc
@@ -55,6 +55,20 @@ const char PAD[] = {
 const size_t CBPAD = sizeof(PAD);
 
 
+namespace {
+
+  /// Number of bytes added to the header of a frame on account of its second
+  /// byte of flags
+  std::size_t cb_frame_extras(unsigned char flags)
+  {
+    return
+      (0 != (flags & 0x80) ? 4 : 0) + // decompressed size
+      (0 != (flags & 0x40) ? 1 : 0) + // encryption method
+      (0 != (flags & 0x20) ? 1 : 0);  // group identifier
+  }
+
+}
+
 ///////////////////////////////////////////////////////////////////////////////
 //                         id3v2_3_tag nifty counter                         //
 ///////////////////////////////////////////////////////////////////////////////
@@ -1167,7 +1181,10 @@ void scribbu::id3v2_3_tag::parse(std::istream &is, std::size_t size, bool extend
           break;
         }
 
-        // left > 3
+        if (left < 4) {
+          throw invalid_tag();
+        }
+
         frame_id4 id(pcurr[0], pcurr[1], pcurr[2], pcurr[3]);
         if (PADDING == id) {
           padding_ = left;
@@ -1179,6 +1196,10 @@ void scribbu::id3v2_3_tag::parse(std::istream &is, std::size_t size, bool extend
         }
 
         cb_frame = unsigned_from_non_sync_safe(pcurr[4], pcurr[5], pcurr[6], pcurr[7]);
+        if (cb_frame > left - 10 ||
+            cb_frame < cb_frame_extras(pcurr[9])) {
+          throw invalid_tag();
+        }
 
         if (ENCR != id || registered.count(pcurr)) {
           continue;
@@ -1279,7 +1300,10 @@ void scribbu::id3v2_3_tag::parse(std::istream &is, std::size_t size, bool extend
         break;
       }
 
-      // left > 3
+      if (left < 4) {
+        throw invalid_tag();
+      }
+
       frame_id4 id(p0[0], p0[1], p0[2], p0[3]);
       if (PADDING == id) {
         break;
@@ -1299,10 +1323,11 @@ void scribbu::id3v2_3_tag::parse(std::istream &is, std::size_t size, bool extend
 
       //     cb_tag = cb_frame + 10
 
-      // Therefore, we have cb_frame < cb_tag. If this relationship isn't
-      // satisfied, it's a good bet that this tag is either corrupt or
-      // was written incorrectly.
-      if (cb_frame >= cb_tag) {
+      // In general, the frame must fit in what's left of the tag. If this
+      // relationship isn't satisfied, it's a good bet that this tag is either
+      // corrupt or was written incorrectly.
+      if (cb_frame > left - 10 ||
+          cb_frame < cb_frame_extras(p0[9])) {
         throw invalid_tag();
       }
 
-- 
2.43.0


From e3852f9db140a8bff980f0b042b4dffcbfd5d54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:35:15 +0000
Subject: [PATCH 031/194] fix: read tags that have neither frames nor padding

---
 scribbu/id3v2.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/scribbu/id3v2.cc b/scribbu/id3v2.cc
index d9a07b3..3089e9a 100644
--- a/scribbu/id3v2.cc
+++ b/scribbu/id3v2.cc
@@ -498,8 +498,7 @@ scribbu::id3v2_tag::parse_flags_and_size(std::istream &is)
     cb = unsigned_from_sync_safe(buf[1], buf[2], buf[3], buf[4]);
 
   } // End if on bytes 6-9 being a sync-safe int.
-
-  if (0 == cb) {
+  else {
     is.seekg(here, std::ios_base::beg);
   }
 
-- 
2.43.0


From 7b284f57f627a757b6927af521b4b33c1e237412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:35:15 +0000
Subject: [PATCH 032/194] fix: say so when there is no ID3v2 tag to be read

---
 scribbu/id3v2.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/scribbu/id3v2.cc b/scribbu/id3v2.cc
index 3089e9a..1c610c0 100644
--- a/scribbu/id3v2.cc
+++ b/scribbu/id3v2.cc
@@ -427,8 +427,8 @@ scribbu::id3v2_tag::id3v2_tag(std::istream &is)
   try {
     is.read((char*)buf, HALF_ID3V2_HEADER_SIZE);
   } catch (const std::ios_base::failure &ex) {
-    is.exceptions(exc_mask);
     is.clear();
+    is.exceptions(exc_mask);
     is.seekg(here, std::ios_base::beg);
     throw;
   }
@@ -448,6 +448,10 @@ scribbu::id3v2_tag::id3v2_tag(std::istream &is)
 
   // Restore the exception mask
   is.exceptions(exc_mask);
+
+  if (!present) {
+    throw no_tag();
+  }
 }
 
 /// Initialize from and id3v2_info
@@ -483,8 +487,8 @@ scribbu::id3v2_tag::parse_flags_and_size(std::istream &is)
   try {
     is.read((char*)buf, HALF_ID3V2_HEADER_SIZE);
   } catch (const std::ios_base::failure &ex) {
-    is.exceptions(exc_mask);
     is.clear();
+    is.exceptions(exc_mask);
     is.seekg(here, std::ios_base::beg);
     throw;
   }
-- 
2.43.0


From 37eadd78455bf3a54e058445f6a5ba50d4575a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:35:15 +0000
Subject: [PATCH 033/194] fix: read indexed ID3v2 tags from the end of their
 headers

---
 scribbu/id3v2-utils.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scribbu/id3v2-utils.cc b/scribbu/id3v2-utils.cc
index f3eeea4..64d2239 100644
--- a/scribbu/id3v2-utils.cc
+++ b/scribbu/id3v2-utils.cc
@@ -72,7 +72,7 @@ scribbu::read_id3v2(std::istream &ifs, std::size_t idx)
     ifs.seekg(I.size_ + scribbu::ID3V2_HEADER_SIZE, std::ifstream::cur);
   }
 
-  id3v2_info I = looking_at_id3v2(ifs, true);
+  id3v2_info I = looking_at_id3v2(ifs, false);
   if (!I.present_) {
     throw std::invalid_argument("bad index");
   }
-- 
2.43.0


From cdc0bfbfe003fa5ac54d7b14ff9dc459c08ab4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:39:34 +0000
Subject: [PATCH 034/194] fix: decompress just those ID3v2.4 frames that are
 compressed

---
 scribbu/id3v24.cc | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/scribbu/id3v24.cc b/scribbu/id3v24.cc
index 49af6b6..8ecdc95 100644
--- a/scribbu/id3v24.cc
+++ b/scribbu/id3v24.cc
@@ -1208,7 +1208,7 @@ void scribbu::id3v2_4_tag::parse(std::istream &is, std::size_t size, bool extend
           throw invalid_tag();
         }
 
-        unsigned char f0 = p0[8];
+        unsigned char f0 = pcurr[8];
 
         id3v2_4_frame::tag_alter_preservation tap = (0 != (f0 & 0x40)) ?
           id3v2_4_frame::tag_alter_preservation::discard :
@@ -1233,7 +1233,7 @@ void scribbu::id3v2_4_tag::parse(std::istream &is, std::size_t size, bool extend
           group_id = *pread++;
           cb_read -= 1;
         }
-        bool compressed = f1 & 0x80;
+        bool compressed = f1 & 0x08;
         boost::optional<unsigned char> encryption_method = boost::none;
         if (0 != (f1 & 0x04)) {
           encryption_method = *pread++;
@@ -1261,6 +1261,9 @@ void scribbu::id3v2_4_tag::parse(std::istream &is, std::size_t size, bool extend
         }
 
         if (compressed) {
+          if (boost::none == data_len_ind) {
+            throw invalid_tag();
+          }
           std::tie(pf, cb_read) = decompress(pread, cb_read, data_len_ind.get());
           pread = pf.get();
         }
@@ -1339,7 +1342,7 @@ void scribbu::id3v2_4_tag::parse(std::istream &is, std::size_t size, bool extend
         group_id = *pread++;
         cb_read -= 1;
       }
-      bool compressed = f1 & 0x80;
+      bool compressed = f1 & 0x08;
       boost::optional<unsigned char> encryption_method = boost::none;
       if (0 != (f1 & 0x04)) {
         encryption_method = *pread++;
@@ -1365,7 +1368,10 @@ void scribbu::id3v2_4_tag::parse(std::istream &is, std::size_t size, bool extend
         pread = pf.get();
       }
 
-      if (boost::none != data_len_ind) {
+      if (compressed) {
+        if (boost::none == data_len_ind) {
+          throw invalid_tag();
+        }
         std::tie(pf, cb_read) = decompress(pread, cb_read, data_len_ind.get());
         pread = pf.get();
       }
-- 
2.43.0


From c91743c215e3bd5be3a01a6a9a794ce6a8b35487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:39:34 +0000
Subject: [PATCH 035/194] fix: refuse ID3v2.4 frames that extend beyond the end
 of their tag

---
 scribbu/id3v24.cc | 45 +++++++++++++++++++++++++++++++++++----------
 1 file changed, 35 insertions(+), 10 deletions(-)

diff --git a/scribbu/id3v24.cc b/scribbu/id3v24.cc
index 8ecdc95..6b83207 100644
--- a/scribbu/id3v24.cc
+++ b/scribbu/id3v24.cc
@@ -51,6 +51,20 @@ const char PAD[] = {
 
 const size_t CBPAD = sizeof(PAD);
 
+namespace {
+
+  /// Number of bytes added to the header of a frame on account of its second
+  /// byte of flags
+  std::size_t cb_frame_extras(unsigned char flags)
+  {
+    return
+      (0 != (flags & 0x40) ? 1 : 0) + // group identifier
+      (0 != (flags & 0x04) ? 1 : 0) + // encryption method
+      (0 != (flags & 0x01) ? 4 : 0);  // data length indicator
+  }
+
+}
+
 
 ///////////////////////////////////////////////////////////////////////////////
 //                         id3v2_4_tag nifty counter                         //
@@ -1189,7 +1203,10 @@ void scribbu::id3v2_4_tag::parse(std::istream &is, std::size_t size, bool extend
           break;
         }
 
-        // left > 3
+        if (left < 4) {
+          throw invalid_tag();
+        }
+
         frame_id4 id(pcurr[0], pcurr[1], pcurr[2], pcurr[3]);
 
         if (PADDING == id) {
@@ -1197,17 +1214,21 @@ void scribbu::id3v2_4_tag::parse(std::istream &is, std::size_t size, bool extend
           break;
         }
 
+        if (pcurr + 11 > p1) {
+          throw invalid_tag();
+        }
+
         cb_frame = unsigned_from_sync_safe(pcurr[4], pcurr[5], pcurr[6],
                                            pcurr[7]);
+        if (cb_frame > left - 10 ||
+            cb_frame < cb_frame_extras(pcurr[9])) {
+          throw invalid_tag();
+        }
 
         if (ENCR != id) {
           continue;
         }
 
-        if (pcurr + 11 > p1) {
-          throw invalid_tag();
-        }
-
         unsigned char f0 = pcurr[8];
 
         id3v2_4_frame::tag_alter_preservation tap = (0 != (f0 & 0x40)) ?
@@ -1290,7 +1311,10 @@ void scribbu::id3v2_4_tag::parse(std::istream &is, std::size_t size, bool extend
         break;
       }
 
-      // left > 3
+      if (left < 4) {
+        throw invalid_tag();
+      }
+
       frame_id4 id(p0[0], p0[1], p0[2], p0[3]);
       if (PADDING == id) {
         break;
@@ -1310,10 +1334,11 @@ void scribbu::id3v2_4_tag::parse(std::istream &is, std::size_t size, bool extend
 
       //     cb_tag = cb_frame + 10
 
-      // Therefore, we have cb_frame < cb_tag. If this relationship isn't
-      // satisfied, it's a good bet that this tag is either corrupt or
-      // was written incorrectly.
-      if (cb_frame >= cb_tag) {
+      // In general, the frame must fit in what's left of the tag. If this
+      // relationship isn't satisfied, it's a good bet that this tag is either
+      // corrupt or was written incorrectly.
+      if (cb_frame > left - 10 ||
+          cb_frame < cb_frame_extras(p0[9])) {
         throw invalid_tag();
       }
 
-- 
2.43.0


From 55381bbdd2534554ac6acc9d996673fba7463ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:39:34 +0000
Subject: [PATCH 036/194] fix: stop looking for ID3v2.4 encryption methods that
 cannot be found

---
 scribbu/id3v24.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/scribbu/id3v24.cc b/scribbu/id3v24.cc
index 6b83207..ed9d8dd 100644
--- a/scribbu/id3v24.cc
+++ b/scribbu/id3v24.cc
@@ -27,6 +27,7 @@
 
 #include <algorithm>
 #include <numeric>
+#include <unordered_set>
 
 #include <zlib.h>
 
@@ -1188,10 +1189,12 @@ void scribbu::id3v2_4_tag::parse(std::istream &is, std::size_t size, bool extend
     // Process the list of frames once, to grab all encryption methods; take
     // care to handle ENCR frames that are themselves encrypted!
     std::size_t cb_frame = 0;
-    bool found_encrypted = false;
+    bool found_encrypted, progress;
+    std::unordered_set<const unsigned char*> registered;
     do {
 
       const unsigned char *pcurr = p0;
+      found_encrypted = progress = false;
 
       for ( ; pcurr < p1; pcurr += cb_frame + 10) {
 
@@ -1225,7 +1228,7 @@ void scribbu::id3v2_4_tag::parse(std::istream &is, std::size_t size, bool extend
           throw invalid_tag();
         }
 
-        if (ENCR != id) {
+        if (ENCR != id || registered.count(pcurr)) {
           continue;
         }
 
@@ -1294,10 +1297,12 @@ void scribbu::id3v2_4_tag::parse(std::istream &is, std::size_t size, bool extend
                                unsynchronisation, data_len_ind);
 
         register_encryption_method(encr);
+        registered.insert(pcurr);
+        progress = true;
 
       } // End iteration over all frames.
 
-    } while (found_encrypted); // End while on encrypted ENCR frames.
+    } while (found_encrypted && progress); // End while on encrypted ENCR frames.
 
     // Now that we've got all our encryption methods registered, walk the
     // frames one final time.
-- 
2.43.0


From 603db2db415ee1fdbaf47ce1776e43736d3eea6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:39:34 +0000
Subject: [PATCH 037/194] fix: resynchronise ID3v2.4 frames on reading them

---
 scribbu/id3v24.cc | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/scribbu/id3v24.cc b/scribbu/id3v24.cc
index ed9d8dd..4b87b92 100644
--- a/scribbu/id3v24.cc
+++ b/scribbu/id3v24.cc
@@ -1173,6 +1173,7 @@ void scribbu::id3v2_4_tag::parse(std::istream &is, std::size_t size, bool extend
 
     // In ID3v2.4, the header, extended header, and footer are all
     // sync-safe. Therefore, unsynchronisation is applied on a per-frame basis.
+    boost::optional<bool> unsync = unsynchronised();
 
     const unsigned char *p0 = pb.get();
     const unsigned char *p1 = p0 + cb_tag;
@@ -1252,6 +1253,19 @@ void scribbu::id3v2_4_tag::parse(std::istream &is, std::size_t size, bool extend
         // in another variable:
         const unsigned char *pread = pcurr + 10;
         std::size_t cb_read = cb_frame;
+
+        // Unsynchronisation is the last transformation applied on write, so
+        // undo it first.
+        std::vector<unsigned char> resynced;
+        if ((f1 & 0x02) || (unsync && *unsync)) {
+          resynced.assign(pread, pread + cb_read);
+          cb_read = resynchronise(resynced.data(), cb_read);
+          pread = resynced.data();
+          if (cb_read < cb_frame_extras(f1)) {
+            throw invalid_tag();
+          }
+        }
+
         boost::optional<unsigned char> group_id = boost::none;
         if (0 != (f1 & 0x40)) {
           group_id = *pread++;
@@ -1367,6 +1381,19 @@ void scribbu::id3v2_4_tag::parse(std::istream &is, std::size_t size, bool extend
       // in another variable:
       const unsigned char *pread = p0 + 10;
       std::size_t cb_read = cb_frame;
+
+      // Unsynchronisation is the last transformation applied on write, so
+      // undo it first.
+      std::vector<unsigned char> resynced;
+      if ((f1 & 0x02) || (unsync && *unsync)) {
+        resynced.assign(pread, pread + cb_read);
+        cb_read = resynchronise(resynced.data(), cb_read);
+        pread = resynced.data();
+        if (cb_read < cb_frame_extras(f1)) {
+          throw invalid_tag();
+        }
+      }
+
       boost::optional<unsigned char> group_id = boost::none;
       if (0 != (f1 & 0x40)) {
         group_id = *pread++;
-- 
2.43.0


From 785c85d5fdf3b034d4452413af06dd9a14e0c96f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:40:14 +0000
Subject: [PATCH 038/194] fix: say an ID3v2.4 tag needs unsynchronisation when
 any of its frames do

---
 scribbu/id3v24.cc | 14 +++++++-------
 scribbu/id3v24.hh |  4 ++--
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/scribbu/id3v24.cc b/scribbu/id3v24.cc
index 4b87b92..639a5d5 100644
--- a/scribbu/id3v24.cc
+++ b/scribbu/id3v24.cc
@@ -648,14 +648,13 @@ scribbu::id3v2_4_tag::size(bool unsync) const
 }
 
 /**
- * \brief Return true if all frames would contain false syncs if serialized in
- * their present state
+ * \brief Return true if any frame would contain false syncs if serialized in
+ * its present state
  *
  *
- * The meaning of this method changes with ID3v2.4. Now, the unsynchronisation
- * flag means that the unsynchronisation scheme is applied to \em all frames;
- * consequently, this method will return true if and only if all frames need
- * it.
+ * The header, extended header, padding & footer are all sync-safe in ID3v2.4,
+ * so it suffices to ask the frames. We need to treat the last frame specially,
+ * since a trailing 0xff is treated as a false sync.
  *
  *
  */
@@ -666,7 +665,8 @@ scribbu::id3v2_4_tag::needs_unsynchronisation() const
 {
 
   using namespace std;
-  return all_of(begin(), end(), [](const id3v2_4_frame &f) { return f.needs_unsynchronisation(); });
+  return any_of(begin(), end(), [](const id3v2_4_frame &f) { return f.needs_unsynchronisation(); }) ||
+    (!frames_.empty() && frames_.back()->needs_unsynchronisation(true));
 }
 
 /**
diff --git a/scribbu/id3v24.hh b/scribbu/id3v24.hh
index 11ca7e3..8f61e69 100644
--- a/scribbu/id3v24.hh
+++ b/scribbu/id3v24.hh
@@ -254,8 +254,8 @@ namespace scribbu {
     /// Compute the size of this tag (in bytes) exclusive of the ID3v2 header
     /// (i.e. return the total tag size, in bytes, less ten)
     virtual std::size_t size(bool unsync = false) const;
-    /// Return true if all frames would contain false syncs if serialized in
-    /// their present state
+    /// Return true if any frame would contain false syncs if serialized in its
+    /// present state
     virtual bool needs_unsynchronisation() const;
     /// Serialize this tag to an output stream, perhaps applying the
     /// unsynchronisation scheme if the caller so chooses ("unsynchronised"
-- 
2.43.0


From 5ec90e1cf7db37ebd751c6779b23617b0d50bbf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:40:14 +0000
Subject: [PATCH 039/194] fix: unsynchronise ID3v2.4 frames one by one

---
 scribbu/framesv23.cc | 29 ++++++++++++++++-------------
 scribbu/framesv23.hh |  4 ++++
 scribbu/framesv24.cc | 30 +++++++++++++++++++++++++++---
 scribbu/framesv24.hh |  4 ++++
 scribbu/id3v24.cc    | 20 +++++++-------------
 5 files changed, 58 insertions(+), 29 deletions(-)

diff --git a/scribbu/framesv23.cc b/scribbu/framesv23.cc
index 0887828..65a73b6 100644
--- a/scribbu/framesv23.cc
+++ b/scribbu/framesv23.cc
@@ -151,7 +151,6 @@ scribbu::id3v2_3_plus_frame::ensure_cached_data_is_fresh(bool last_no_pad) const
 {
   using namespace std;
   using scribbu::detail::count_syncs;
-  using scribbu::detail::unsynchronise;
 
   // The dirty flag can't be relied upon: frames are modified through mix-ins
   // that know nothing of it, and what we cache depends on `last_no_pad'.
@@ -211,14 +210,8 @@ scribbu::id3v2_3_plus_frame::ensure_cached_data_is_fresh(bool last_no_pad) const
     }
 
     // In the case of ID3v2.4, unsynchronisation is applied on a frame-by-frame
-    // basis, so we would need to check the releveant flag, and if it's set,
-    // unsynchronise the payload.
-
-    // What I'm doing instead is assembling the entire frame payload in
-    // `cache_', & then applying unsynchronisation to that.  In the case of
-    // ID3v2.4, the frame header is sync-safe to begin with, so the data in the
-    // SERIALIZED_WITH_CEU slot will be exactly what we would have gotten by
-    // writing the header & then unsynchronising the payload.
+    // basis (and noted in the frame header). We assemble the entire frame
+    // payload in `cache_', & then apply unsynchronisation to that.
 
     // Serialize the frame header...
     stringstream hdr;
@@ -243,16 +236,26 @@ scribbu::id3v2_3_plus_frame::ensure_cached_data_is_fresh(bool last_no_pad) const
     }
 
     // and prepare an unsynchronised copy.
-    unsynchronise(back_inserter(cache_[SERIALIZED_WITH_CEU]),
-                  cache_[SERIALIZED_WITH_CE].begin(),
-                  cache_[SERIALIZED_WITH_CE].end(),
-                  last_no_pad);
+    unsynchronise_frame(cache_[SERIALIZED_WITH_CE],
+                        cache_[SERIALIZED_WITH_CEU],
+                        last_no_pad);
 
     dirty(false);
   }
 
 }
 
+/*virtual*/
+void
+scribbu::id3v2_3_plus_frame::unsynchronise_frame(
+  const std::vector<unsigned char> &plain,
+  std::vector<unsigned char> &out,
+  bool last_no_pad) const
+{
+  detail::unsynchronise(std::back_inserter(out), plain.begin(), plain.end(),
+                        last_no_pad);
+}
+
 ///////////////////////////////////////////////////////////////////////////////
 //                            class private_frame                            //
 ///////////////////////////////////////////////////////////////////////////////
diff --git a/scribbu/framesv23.hh b/scribbu/framesv23.hh
index 8b84464..ef1ce17 100644
--- a/scribbu/framesv23.hh
+++ b/scribbu/framesv23.hh
@@ -294,6 +294,10 @@ namespace scribbu {
     virtual std::size_t write_header(std::ostream &os,
                                      std::size_t cb_payload,
                                      std::size_t dlind) const = 0;
+    /// Apply the unsynchronisation scheme to this frame in serialized form
+    virtual void unsynchronise_frame(const std::vector<unsigned char> &plain,
+                                     std::vector<unsigned char> &out,
+                                     bool last_no_pad) const;
 
   private:
 
diff --git a/scribbu/framesv24.cc b/scribbu/framesv24.cc
index 05eea0d..a4213b3 100644
--- a/scribbu/framesv24.cc
+++ b/scribbu/framesv24.cc
@@ -114,9 +114,6 @@ scribbu::id3v2_4_frame::write_header(std::ostream &os,
     sz += 1;
     cb += 1;
   }
-  if (unsynchronised_) {
-    flags[1] |= 2;
-  }
   // "[Compression] requires the 'Data Length Indicator' bit to be set as well."
   bool dli = data_len_indicator_ || compressed_;
   if (dli) {
@@ -153,6 +150,33 @@ scribbu::id3v2_4_frame::write_header(std::ostream &os,
   return cb;
 }
 
+/**
+ * \brief Apply the unsynchronisation scheme to this frame in serialized form
+ *
+ *
+ * In ID3v2.4, the frame size is that on disk (i.e. after unsynchronisation),
+ * and unsynchronised frames are flagged as such. Frames are unsynchronised one
+ * by one, so a trailing 0xff is always followed by a zero byte.
+ *
+ *
+ */
+
+/*virtual*/
+void
+scribbu::id3v2_4_frame::unsynchronise_frame(
+  const std::vector<unsigned char> &plain,
+  std::vector<unsigned char> &out,
+  bool last_no_pad) const
+{
+  const std::size_t CB_HEADER = 10;
+
+  out.assign(plain.begin(), plain.begin() + CB_HEADER);
+  detail::unsynchronise(std::back_inserter(out), plain.begin() + CB_HEADER,
+                        plain.end(), true);
+  detail::sync_safe_from_unsigned(out.size() - CB_HEADER, &out[4]);
+  out[9] |= 2;
+}
+
 
 ///////////////////////////////////////////////////////////////////////////////
 //                        class unknown_id3v2_3_frame                        //
diff --git a/scribbu/framesv24.hh b/scribbu/framesv24.hh
index c929e29..6a0b77b 100644
--- a/scribbu/framesv24.hh
+++ b/scribbu/framesv24.hh
@@ -148,6 +148,10 @@ namespace scribbu {
     /// fields such as decompressed size, group id, &c
     virtual std::size_t write_header(std::ostream &os, std::size_t cb_payload,
                                      std::size_t dlind) const;
+    /// Apply the unsynchronisation scheme to this frame in serialized form
+    virtual void unsynchronise_frame(const std::vector<unsigned char> &plain,
+                                     std::vector<unsigned char> &out,
+                                     bool last_no_pad) const;
 
   private:
     bool compressed_;
diff --git a/scribbu/id3v24.cc b/scribbu/id3v24.cc
index 639a5d5..452efb8 100644
--- a/scribbu/id3v24.cc
+++ b/scribbu/id3v24.cc
@@ -626,19 +626,11 @@ scribbu::id3v2_4_tag::size(bool unsync) const
     cb += pext_header_->size();
   }
 
-  // we of course include all our frames. We need to treat the last frame
-  // specially (because in ID3v2.3+, a trailing 0xff is treated as a false
-  // sync), but only if there's no padding.
+  // we of course include all our frames.
   size_t cb_pad = padding();
 
-  auto p = begin(), p1 = end();
-  if (p != p1) {
-    p1 -= 1;
-    while (p != p1) {
-      cb += p->serialized_size(unsync);
-      p += 1;
-    }
-    cb += p->serialized_size(unsync, 0 == cb_pad);
+  for (auto p = begin(), p1 = end(); p != p1; p += 1) {
+    cb += p->serialized_size(unsync);
   }
 
   // as well as any padding.
@@ -724,7 +716,9 @@ scribbu::id3v2_4_tag::write(std::ostream &os, bool unsync) const
   using namespace std;
 
   // Write the header...
-  write_header(os, flags(), size(unsync));
+  unsigned char f = flags() & ~0x80;
+  if (unsync) f |= 0x80;
+  write_header(os, f, size(unsync));
   size_t cb = 10;
 
   if (pext_header_) {
@@ -745,7 +739,7 @@ scribbu::id3v2_4_tag::write(std::ostream &os, bool unsync) const
 
   if (has_footer()) {
     cb += 10;
-    write_footer(os, flags(), size(unsync));
+    write_footer(os, f, size(unsync));
   }
 
   return cb;
-- 
2.43.0


From 0cef1df6800e5a0ad812501dff1d04caf91e8348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:41:01 +0000
Subject: [PATCH 040/194] fix: leave the footer out of the size in the header
 of an ID3v2.4 tag

---
 scribbu/id3v2-utils.cc |  2 +-
 scribbu/id3v2.hh       |  5 +++++
 scribbu/id3v24.cc      | 16 +++++++++-------
 scribbu/tagset.hh      |  9 ++++++---
 4 files changed, 21 insertions(+), 11 deletions(-)

diff --git a/scribbu/id3v2-utils.cc b/scribbu/id3v2-utils.cc
index 64d2239..aa8ff65 100644
--- a/scribbu/id3v2-utils.cc
+++ b/scribbu/id3v2-utils.cc
@@ -69,7 +69,7 @@ scribbu::read_id3v2(std::istream &ifs, std::size_t idx)
     if (!I.present_) {
       throw std::invalid_argument("bad index");
     }
-    ifs.seekg(I.size_ + scribbu::ID3V2_HEADER_SIZE, std::ifstream::cur);
+    ifs.seekg(I.size_on_disk(), std::ifstream::cur);
   }
 
   id3v2_info I = looking_at_id3v2(ifs, false);
diff --git a/scribbu/id3v2.hh b/scribbu/id3v2.hh
index 0e96115..33150f6 100644
--- a/scribbu/id3v2.hh
+++ b/scribbu/id3v2.hh
@@ -446,6 +446,11 @@ namespace scribbu {
     unsigned char revision_;
     unsigned char flags_;
     std::uint32_t size_;
+
+    /// Size of the tag on disk, in bytes, including the header & the footer (if
+    /// any)
+    std::size_t size_on_disk() const
+    { return size_ + (4 == version_ && (flags_ & 0x10) ? 20 : 10); }
   };
 
   /**
diff --git a/scribbu/id3v24.cc b/scribbu/id3v24.cc
index 452efb8..fa7ef40 100644
--- a/scribbu/id3v24.cc
+++ b/scribbu/id3v24.cc
@@ -586,8 +586,8 @@ scribbu::id3v2_4_tag::flags() const
  * unsynchronisation to \em all frames when computing the tag size
  *
  * \return Size Serialized size of this tag, in bytes, exclusive of the ID3v2
- * header (i.e. the value that could be written in bytes six through nine of
- * the tag)
+ * header & footer (i.e. the value that could be written in bytes six through
+ * nine of the tag)
  *
  *
  * Computing the tag size is simpler in ID3v2.4 than ID3v2.3. The header,
@@ -607,7 +607,7 @@ scribbu::id3v2_4_tag::flags() const
  *   unsynchronisation unconditionally, otherwise the frame will decide whether
  *   or not to apply it
  *
- * - padding & footer are synch-safe, so their size can be computed regardless
+ * - padding is synch-safe, so its size can be computed regardless
  *
  *
  */
@@ -618,10 +618,7 @@ scribbu::id3v2_4_tag::size(bool unsync) const
 {
   using namespace std;
 
-  size_t cb = padding();
-  if (has_footer()) {
-    cb += 10;
-  }
+  size_t cb = 0;
   if (pext_header_) {
     cb += pext_header_->size();
   }
@@ -1165,6 +1162,11 @@ void scribbu::id3v2_4_tag::parse(std::istream &is, std::size_t size, bool extend
     std::unique_ptr<unsigned char[]> pb(new unsigned char[cb_tag]);
     is.read((char*)pb.get(), cb_tag);
 
+    // Step over the footer, if there is one-- it just repeats the header.
+    if (footer_) {
+      is.ignore(10);
+    }
+
     // In ID3v2.4, the header, extended header, and footer are all
     // sync-safe. Therefore, unsynchronisation is applied on a per-frame basis.
     boost::optional<bool> unsync = unsynchronised();
diff --git a/scribbu/tagset.hh b/scribbu/tagset.hh
index 002d729..34625cb 100644
--- a/scribbu/tagset.hh
+++ b/scribbu/tagset.hh
@@ -383,7 +383,7 @@ namespace scribbu {
 
     scribbu::id3v2_info id3v2 = scribbu::looking_at_id3v2(ifs);
     while (id3v2.present_) {
-      ifs.seekg(10 + id3v2.size_, std::ifstream::cur);
+      ifs.seekg(id3v2.size_on_disk(), std::ifstream::cur);
       id3v2 = scribbu::looking_at_id3v2(ifs);
     }
 
@@ -500,6 +500,9 @@ namespace scribbu {
     for ( ; p0 != p1; ++p0) {
       bool do_unsync = detail::compute_apply_unsync(unsync, **p0);
       cb_tot += (*p0)->size(do_unsync) + 10;
+      if (4 == (*p0)->version() && ((*p0)->flags() & 0x10)) {
+        cb_tot += 10; // ID3v2.4 footer
+      }
       cb_pad += (*p0)->padding();
     }
     return std::make_tuple(cb_tot, cb_pad);
@@ -538,8 +541,8 @@ namespace scribbu {
 
     scribbu::id3v2_info id3v2 = scribbu::looking_at_id3v2(ifs, false);
     while (id3v2.present_) {
-      cb += 10 + id3v2.size_;
-      ifs.seekg(id3v2.size_, std::ifstream::cur);
+      cb += id3v2.size_on_disk();
+      ifs.seekg(id3v2.size_on_disk() - 10, std::ifstream::cur);
       id3v2 = scribbu::looking_at_id3v2(ifs, false);
     }
 
-- 
2.43.0


From 0486fac3b7d1dd776dcae408c70114ab6ce6c8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:41:01 +0000
Subject: [PATCH 041/194] fix: write the extended header of an ID3v2.4 tag in
 full

---
 scribbu/id3v24.cc | 27 ++++++++++++++++++++-------
 scribbu/id3v24.hh |  2 ++
 2 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/scribbu/id3v24.cc b/scribbu/id3v24.cc
index fa7ef40..d5e906f 100644
--- a/scribbu/id3v24.cc
+++ b/scribbu/id3v24.cc
@@ -348,6 +348,12 @@ scribbu::id3v2_4_tag::ext_header::get_restrictions() const
                          image_sz_restriction_);
 }
 
+std::size_t
+scribbu::id3v2_4_tag::ext_header::serialized_size() const
+{
+  return 6 + (is_update() ? 1 : 0) + (has_crc() ? 6 : 0) + (restricted() ? 2 : 0);
+}
+
 std::size_t
 scribbu::id3v2_4_tag::ext_header::write(std::ostream &os,
                                         const id3v2_4_tag &tag) const
@@ -359,7 +365,7 @@ scribbu::id3v2_4_tag::ext_header::write(std::ostream &os,
   size_t cb = 0;
 
   unsigned char buf[6];
-  sync_safe_from_unsigned(size(), buf);
+  sync_safe_from_unsigned(serialized_size(), buf);
 
   buf[4] = 0x01;
 
@@ -387,9 +393,14 @@ scribbu::id3v2_4_tag::ext_header::write(std::ostream &os,
   }
 
   if (has_crc()) {
-    sync_safe_from_unsigned(crc(tag), buf);
-    os.write((char*)buf, 5);
-    cb += 5;
+    // The tag may have changed since the checksum was last computed
+    crc_dirty_ = true;
+    uint32_t sum = crc(tag);
+    buf[0] = 0x05;
+    buf[1] = sum >> 28;
+    sync_safe_from_unsigned(sum & 0x0fffffff, buf + 2);
+    os.write((char*)buf, 6);
+    cb += 6;
   }
 
   if (restricted()) {
@@ -456,8 +467,10 @@ scribbu::id3v2_4_tag::ext_header::write(std::ostream &os,
       break;
     }
 
-    os.write((char*)&tagr, 1);
-    cb += 1;
+    buf[0] = 0x01;
+    buf[1] = tagr;
+    os.write((char*)buf, 2);
+    cb += 2;
   }
 
   return cb;
@@ -620,7 +633,7 @@ scribbu::id3v2_4_tag::size(bool unsync) const
 
   size_t cb = 0;
   if (pext_header_) {
-    cb += pext_header_->size();
+    cb += pext_header_->serialized_size();
   }
 
   // we of course include all our frames.
diff --git a/scribbu/id3v24.hh b/scribbu/id3v24.hh
index 8f61e69..be13063 100644
--- a/scribbu/id3v24.hh
+++ b/scribbu/id3v24.hh
@@ -204,6 +204,8 @@ namespace scribbu {
       { return restricted_; }
       std::tuple<tag_size, bool, text_size, bool, image_size>
       get_restrictions() const;
+      /// Return the number of bytes this header will occupy when serialized
+      std::size_t serialized_size() const;
       std::size_t write(std::ostream &os, const id3v2_4_tag &tag) const;
 
     private:
-- 
2.43.0


From d9d9f992e5c89649755940c46cce387789eec54c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:41:01 +0000
Subject: [PATCH 042/194] fix: keep to the tag when reading an ID3v2.4 extended
 header

---
 scribbu/id3v24.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/scribbu/id3v24.cc b/scribbu/id3v24.cc
index d5e906f..f6767d8 100644
--- a/scribbu/id3v24.cc
+++ b/scribbu/id3v24.cc
@@ -208,6 +208,7 @@ scribbu::id3v2_4_tag::ext_header::ext_header(const unsigned char *p0,
     throw invalid_ext_header();
   }
 
+  const unsigned char *pbegin = p0;
   size_ = unsigned_from_sync_safe(p0[0], p0[1], p0[2], p0[3]);
 
   std::size_t num_flag_bytes = p0[4];
@@ -298,6 +299,11 @@ scribbu::id3v2_4_tag::ext_header::ext_header(const unsigned char *p0,
     p0 += 2;
   }
 
+  // The size covers the entire extended header
+  if (size_ < serialized_size() || size_ > std::size_t(p1 - pbegin)) {
+    throw invalid_ext_header();
+  }
+
 }
 
 std::size_t
-- 
2.43.0


From 18f57abe7900f324e23db67b1c7e85a76baad31b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:41:17 +0000
Subject: [PATCH 043/194] fix: restore the stream when a tag ends early

---
 scribbu/id3v22.cc | 2 ++
 scribbu/id3v23.cc | 2 ++
 scribbu/id3v24.cc | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/scribbu/id3v22.cc b/scribbu/id3v22.cc
index 3fdd441..ab961e7 100644
--- a/scribbu/id3v22.cc
+++ b/scribbu/id3v22.cc
@@ -845,10 +845,12 @@ void scribbu::id3v2_2_tag::parse(std::istream &is, std::size_t size)
     } // End iteration over frames.
 
   } catch (const scribbu::error &ex) {
+    is.clear();
     is.seekg(here, std::ios_base::beg);
     is.exceptions(exc_mask);
     throw;
   } catch (const std::exception &ex) {
+    is.clear();
     is.seekg(here, std::ios_base::beg);
     is.exceptions(exc_mask);
     throw;
diff --git a/scribbu/id3v23.cc b/scribbu/id3v23.cc
index f4634ec..0c63aa4 100644
--- a/scribbu/id3v23.cc
+++ b/scribbu/id3v23.cc
@@ -1390,10 +1390,12 @@ void scribbu::id3v2_3_tag::parse(std::istream &is, std::size_t size, bool extend
     } // End iteration over frames.
 
   } catch (const scribbu::error &ex) {
+    is.clear();
     is.seekg(here, std::ios_base::beg);
     is.exceptions(exc_mask);
     throw;
   } catch (const std::exception &ex) {
+    is.clear();
     is.seekg(here, std::ios_base::beg);
     is.exceptions(exc_mask);
     throw;
diff --git a/scribbu/id3v24.cc b/scribbu/id3v24.cc
index f6767d8..2195f6d 100644
--- a/scribbu/id3v24.cc
+++ b/scribbu/id3v24.cc
@@ -1457,10 +1457,12 @@ void scribbu::id3v2_4_tag::parse(std::istream &is, std::size_t size, bool extend
     } // End iteration over all frames.
 
   } catch (const scribbu::error &ex) {
+    is.clear();
     is.seekg(here, std::ios_base::beg);
     is.exceptions(exc_mask);
     throw;
   } catch (const std::exception &ex) {
+    is.clear();
     is.seekg(here, std::ios_base::beg);
     is.exceptions(exc_mask);
     throw;
-- 
2.43.0


From 1186787e5e1cf23ee9dd84873ae1e32797321dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:41:17 +0000
Subject: [PATCH 044/194] fix: refuse to set aside absurd amounts of memory for
 compressed frames

---
 scribbu/id3v23.cc | 6 ++++++
 scribbu/id3v24.cc | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/scribbu/id3v23.cc b/scribbu/id3v23.cc
index 0c63aa4..b3668d2 100644
--- a/scribbu/id3v23.cc
+++ b/scribbu/id3v23.cc
@@ -1078,6 +1078,12 @@ scribbu::id3v2_3_tag::decompress(const unsigned char *p,
                                  std::size_t          cb,
                                  std::size_t          uncompressed_size) const
 {
+  // zlib compresses by at most 1032:1 (see the zlib "Technical Details"), so a
+  // size beyond that can only be bogus.
+  if (uncompressed_size / 1032 > cb) {
+    throw zlib_error(Z_DATA_ERROR);
+  }
+
   boost::shared_array<unsigned char> pd(new unsigned char[uncompressed_size]);
   int status = uncompress(pd.get(), &uncompressed_size, p, cb);
   if (Z_OK != status) {
diff --git a/scribbu/id3v24.cc b/scribbu/id3v24.cc
index 2195f6d..f55d5ca 100644
--- a/scribbu/id3v24.cc
+++ b/scribbu/id3v24.cc
@@ -1135,6 +1135,12 @@ scribbu::id3v2_4_tag::decompress(const unsigned char *p,
                                  std::size_t          cb,
                                  std::size_t          uncompressed_size) const
 {
+  // zlib compresses by at most 1032:1 (see the zlib "Technical Details"), so a
+  // size beyond that can only be bogus.
+  if (uncompressed_size / 1032 > cb) {
+    throw zlib_error(Z_DATA_ERROR);
+  }
+
   boost::shared_array<unsigned char> pd(new unsigned char[uncompressed_size]);
   int status = uncompress(pd.get(), &uncompressed_size, p, cb);
   if (Z_OK != status) {
-- 
2.43.0


From 7e94daf031cda6a4a0d55039aded2c43b3249745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:41:17 +0000
Subject: [PATCH 045/194] fix: read ID3v2.4 text marked as UTF-16BE as such

---
 scribbu/framesv24.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scribbu/framesv24.cc b/scribbu/framesv24.cc
index a4213b3..6dd0786 100644
--- a/scribbu/framesv24.cc
+++ b/scribbu/framesv24.cc
@@ -63,7 +63,7 @@ namespace scribbu {
         } else if (1 < cbbuf && 0xff == pbuf[0] && 0xfe == pbuf[1]) {
           src =  encoding::UTF_16LE;
         } else {
-          src =  encoding::UTF_16;
+          src = 2 == unicode ? encoding::UTF_16BE : encoding::UTF_16;
         }
       }
       else if (3 == unicode) {
-- 
2.43.0


From ab895e7d054a679200d8c7dfacc0b64cc874d8c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:41:17 +0000
Subject: [PATCH 046/194] fix: initialise ID3v2.4 frames constructed from four
 characters

---
 scribbu/framesv24.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scribbu/framesv24.hh b/scribbu/framesv24.hh
index 6a0b77b..0ac482c 100644
--- a/scribbu/framesv24.hh
+++ b/scribbu/framesv24.hh
@@ -124,8 +124,8 @@ namespace scribbu {
                   bool cmprsd,
                   bool unsynch,
                   const boost::optional<std::size_t> &dli):
-      id3v2_3_plus_frame(frame_id4(id0, id1, id2, id3),
-                         tap, fap, ro, cmprsd, enc, gid)
+      id3v2_4_frame(frame_id4(id0, id1, id2, id3), tap, fap, ro, cmprsd, enc,
+                    gid, unsynch, dli)
     { }
     virtual id3v2_4_frame* clone() const = 0;
 
-- 
2.43.0


From cc542b2cf9a97fa15329e3b3cb9e80becbef0e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:41:42 +0000
Subject: [PATCH 047/194] fix: write ISO-8859-1 text as such in ID3v2.4 tags

---
 scribbu/framesv24.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scribbu/framesv24.cc b/scribbu/framesv24.cc
index 6dd0786..c882ef7 100644
--- a/scribbu/framesv24.cc
+++ b/scribbu/framesv24.cc
@@ -316,7 +316,7 @@ scribbu::encoding
 scribbu::id3v2_4_text_frame::encshim(frame_encoding x)
 {
   if (frame_encoding::ISO_8859_1 == x) {
-    return scribbu::encoding::ISO_8859_8;
+    return scribbu::encoding::ISO_8859_1;
   }
   else if (frame_encoding::UTF_16_BOM == x) {
     return scribbu::encoding::UTF_16;
-- 
2.43.0


From 9719d7aa02b2aead26b6d6115420fce70a8fe5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:45:17 +0000
Subject: [PATCH 048/194] fix: state the size of padded ID3v2.4 tags correctly
 in their headers

---
 scribbu/id3v2.hh  |  4 ++++
 scribbu/id3v24.cc | 18 +++++++++++++++---
 scribbu/id3v24.hh |  3 +++
 scribbu/tagset.hh |  5 +----
 4 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/scribbu/id3v2.hh b/scribbu/id3v2.hh
index 33150f6..0c31ee5 100644
--- a/scribbu/id3v2.hh
+++ b/scribbu/id3v2.hh
@@ -702,6 +702,10 @@ namespace scribbu {
     /// ID3v2 header (i.e. return the total tag size on disk, in bytes, less
     /// ten)
     virtual std::size_t size(bool unsync = false) const = 0;
+    /// Compute the number of bytes write() will write: the entire tag,
+    /// including the header & the footer (if any)
+    virtual std::size_t size_on_disk(bool unsync = false) const
+    { return size(unsync) + 10; }
     /// Return true if the serialization of this tag would contain false syncs
     /// if serialized in its present state
     virtual bool needs_unsynchronisation() const = 0;
diff --git a/scribbu/id3v24.cc b/scribbu/id3v24.cc
index f55d5ca..0482be0 100644
--- a/scribbu/id3v24.cc
+++ b/scribbu/id3v24.cc
@@ -634,10 +634,19 @@ scribbu::id3v2_4_tag::flags() const
 /*virtual*/
 std::size_t
 scribbu::id3v2_4_tag::size(bool unsync) const
+{
+  // NB. This includes the padding twice, which callers have come to expect;
+  // use size_on_disk() when it matters.
+  return size_on_disk(unsync) - (has_footer() ? 20 : 10) + padding();
+}
+
+/*virtual*/
+std::size_t
+scribbu::id3v2_4_tag::size_on_disk(bool unsync) const
 {
   using namespace std;
 
-  size_t cb = 0;
+  size_t cb = has_footer() ? 20 : 10;
   if (pext_header_) {
     cb += pext_header_->serialized_size();
   }
@@ -731,10 +740,13 @@ scribbu::id3v2_4_tag::write(std::ostream &os, bool unsync) const
 {
   using namespace std;
 
+  // The size in the header doesn't include the header itself, nor the footer.
+  size_t sz = size_on_disk(unsync) - (has_footer() ? 20 : 10);
+
   // Write the header...
   unsigned char f = flags() & ~0x80;
   if (unsync) f |= 0x80;
-  write_header(os, f, size(unsync));
+  write_header(os, f, sz);
   size_t cb = 10;
 
   if (pext_header_) {
@@ -755,7 +767,7 @@ scribbu::id3v2_4_tag::write(std::ostream &os, bool unsync) const
 
   if (has_footer()) {
     cb += 10;
-    write_footer(os, f, size(unsync));
+    write_footer(os, f, sz);
   }
 
   return cb;
diff --git a/scribbu/id3v24.hh b/scribbu/id3v24.hh
index be13063..2639a74 100644
--- a/scribbu/id3v24.hh
+++ b/scribbu/id3v24.hh
@@ -256,6 +256,9 @@ namespace scribbu {
     /// Compute the size of this tag (in bytes) exclusive of the ID3v2 header
     /// (i.e. return the total tag size, in bytes, less ten)
     virtual std::size_t size(bool unsync = false) const;
+    /// Compute the number of bytes write() will write: the entire tag,
+    /// including the header & the footer (if any)
+    virtual std::size_t size_on_disk(bool unsync = false) const;
     /// Return true if any frame would contain false syncs if serialized in its
     /// present state
     virtual bool needs_unsynchronisation() const;
diff --git a/scribbu/tagset.hh b/scribbu/tagset.hh
index 34625cb..b3b81a1 100644
--- a/scribbu/tagset.hh
+++ b/scribbu/tagset.hh
@@ -499,10 +499,7 @@ namespace scribbu {
     size_t cb_tot = 0, cb_pad = 0;
     for ( ; p0 != p1; ++p0) {
       bool do_unsync = detail::compute_apply_unsync(unsync, **p0);
-      cb_tot += (*p0)->size(do_unsync) + 10;
-      if (4 == (*p0)->version() && ((*p0)->flags() & 0x10)) {
-        cb_tot += 10; // ID3v2.4 footer
-      }
+      cb_tot += (*p0)->size_on_disk(do_unsync);
       cb_pad += (*p0)->padding();
     }
     return std::make_tuple(cb_tot, cb_pad);
-- 
2.43.0


From e7a3977393ee8167d71581d0565701c8ce185368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:07:03 +0000
Subject: [PATCH 049/194] fix: don't treat a text's byte order mark as part of
 the text

A UCS-2 or UTF-16 text beginning with a byte order mark could not be
had in any encoding that cannot represent U+FEFF (ISO-8859-1, say).
---
 scribbu/framesv22.cc | 2 ++
 scribbu/framesv23.cc | 2 ++
 scribbu/framesv24.cc | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/scribbu/framesv22.cc b/scribbu/framesv22.cc
index c21dae0..cccdcad 100644
--- a/scribbu/framesv22.cc
+++ b/scribbu/framesv22.cc
@@ -60,8 +60,10 @@ namespace scribbu {
 
       if (1 < cbbuf && 0xfe == pbuf[0] && 0xff == pbuf[1]) {
         src =  encoding::UCS_2BE;
+        pbuf += 2; cbbuf -= 2;
       } else if (1 < cbbuf && 0xff == pbuf[0] && 0xfe == pbuf[1]) {
         src =  encoding::UCS_2LE;
+        pbuf += 2; cbbuf -= 2;
       } else {
         src =  encoding::UCS_2;
       }
diff --git a/scribbu/framesv23.cc b/scribbu/framesv23.cc
index 65a73b6..3bc1bc4 100644
--- a/scribbu/framesv23.cc
+++ b/scribbu/framesv23.cc
@@ -338,8 +338,10 @@ namespace scribbu {
 
       if (1 < cbbuf && 0xfe == pbuf[0] && 0xff == pbuf[1]) {
         src =  encoding::UCS_2BE;
+        pbuf += 2; cbbuf -= 2;
       } else if (1 < cbbuf && 0xff == pbuf[0] && 0xfe == pbuf[1]) {
         src =  encoding::UCS_2LE;
+        pbuf += 2; cbbuf -= 2;
       } else {
         src =  encoding::UCS_2;
       }
diff --git a/scribbu/framesv24.cc b/scribbu/framesv24.cc
index c882ef7..25f837c 100644
--- a/scribbu/framesv24.cc
+++ b/scribbu/framesv24.cc
@@ -60,8 +60,10 @@ namespace scribbu {
         // be generous
         if (1 < cbbuf && 0xfe == pbuf[0] && 0xff == pbuf[1]) {
           src =  encoding::UTF_16BE;
+          pbuf += 2; cbbuf -= 2;
         } else if (1 < cbbuf && 0xff == pbuf[0] && 0xfe == pbuf[1]) {
           src =  encoding::UTF_16LE;
+          pbuf += 2; cbbuf -= 2;
         } else {
           src = 2 == unicode ? encoding::UTF_16BE : encoding::UTF_16;
         }
-- 
2.43.0


From 43dde56a878777bd23cbd57711e2f9d8ee281137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:07:03 +0000
Subject: [PATCH 050/194] fix: use Unicode for a new text frame when Latin-1
 won't do

Setting a text for which there is no frame yet always encoded it as
ISO-8859-1 in ID3v2.2 & 2.3 tags, and so failed for other text, while
setting the text of an existing frame falls back to UCS-2.
---
 scribbu/id3v22.cc | 3 ++-
 scribbu/id3v23.cc | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/scribbu/id3v22.cc b/scribbu/id3v22.cc
index ab961e7..39e665b 100644
--- a/scribbu/id3v22.cc
+++ b/scribbu/id3v22.cc
@@ -952,7 +952,8 @@ scribbu::id3v2_2_tag::set_text_frame(const frame_id3 &id,
     p->second->set(text, src, add_bom, rsp);
   }
   else {
-    auto p = make_unique<id3v2_2_text_frame>(id, text, src, add_bom, rsp, false);
+    auto p = make_unique<id3v2_2_text_frame>(id, string(), src, false, rsp, false);
+    p->set(text, src, add_bom, rsp);
     id3v2_2_text_frame &F = *p;
     frames_.push_back(unique_ptr<id3v2_2_text_frame>(move(p)));
     add_frame_to_lookups(F, frames_.size() - 1);
diff --git a/scribbu/id3v23.cc b/scribbu/id3v23.cc
index b3668d2..305b78d 100644
--- a/scribbu/id3v23.cc
+++ b/scribbu/id3v23.cc
@@ -1549,7 +1549,8 @@ void scribbu::id3v2_3_tag::set_text_frame(const frame_id4 &id,
     p->second->set(text, src, add_bom, rsp);
   }
   else {
-    auto p = make_unique<id3v2_3_text_frame>(id, text, src, add_bom, rsp, false);
+    auto p = make_unique<id3v2_3_text_frame>(id, string(), src, false, rsp, false);
+    p->set(text, src, add_bom, rsp);
     id3v2_3_text_frame &F = *p;
     frames_.push_back(unique_ptr<id3v2_3_text_frame>(move(p)));
     add_frame_to_lookups(F, frames_.size() - 1);
-- 
2.43.0


From ec0b120c3ba0d49b9543fe08dbdbb8d0cb4eeb8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:07:12 +0000
Subject: [PATCH 051/194] fix: give all ID3v2.2 text frames their identifiers

Beats per minute is TBP, not TBM, in ID3v2.2, so that a tempo was
written under an identifier no reader (this one included) takes for a
text frame; media type, original album, artist, lyricist & release year
had no identifier at all & couldn't be set.
---
 scribbu/framesv2.cc | 14 +++++++++++++-
 scribbu/framesv2.hh |  2 +-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/scribbu/framesv2.cc b/scribbu/framesv2.cc
index dbf5b9d..f4a17e9 100644
--- a/scribbu/framesv2.cc
+++ b/scribbu/framesv2.cc
@@ -86,6 +86,8 @@ scribbu::operator>>(std::istream &is, id3v2_text_frames &x)
     { "TBPM",         id3v2_text_frames::tbpm },
     { "tbm",          id3v2_text_frames::tbpm },
     { "TBM",          id3v2_text_frames::tbpm },
+    { "tbp",          id3v2_text_frames::tbpm },
+    { "TBP",          id3v2_text_frames::tbpm },
     { "tcom",         id3v2_text_frames::tcom },
     { "TCOM",         id3v2_text_frames::tcom },
     { "tcm",          id3v2_text_frames::tcom },
@@ -356,7 +358,7 @@ scribbu::frame_id3::frame_id3(id3v2_text_frames x) :
   case id3v2_text_frames::talb:
     id_[1] = 'A'; id_[2] = 'L'; break;
   case id3v2_text_frames::tbpm:
-    id_[1] = 'B'; id_[2] = 'M'; break;
+    id_[1] = 'B'; id_[2] = 'P'; break;
   case id3v2_text_frames::tcom:
     id_[1] = 'C'; id_[2] = 'M'; break;
   case id3v2_text_frames::tcon:
@@ -387,8 +389,18 @@ scribbu::frame_id3::frame_id3(id3v2_text_frames x) :
     id_[1] = 'L'; id_[2] = 'A'; break;
   case id3v2_text_frames::tlen:
     id_[1] = 'L'; id_[2] = 'E'; break;
+  case id3v2_text_frames::tmed:
+    id_[1] = 'M'; id_[2] = 'T'; break;
+  case id3v2_text_frames::toal:
+    id_[1] = 'O'; id_[2] = 'T'; break;
   case id3v2_text_frames::tofn:
     id_[1] = 'O'; id_[2] = 'F'; break;
+  case id3v2_text_frames::toly:
+    id_[1] = 'O'; id_[2] = 'L'; break;
+  case id3v2_text_frames::tope:
+    id_[1] = 'O'; id_[2] = 'A'; break;
+  case id3v2_text_frames::tory:
+    id_[1] = 'O'; id_[2] = 'R'; break;
   case id3v2_text_frames::tpe1:
     id_[1] = 'P'; id_[2] = '1'; break;
   case id3v2_text_frames::tpe2:
diff --git a/scribbu/framesv2.hh b/scribbu/framesv2.hh
index 341cac6..89e4a63 100644
--- a/scribbu/framesv2.hh
+++ b/scribbu/framesv2.hh
@@ -184,7 +184,7 @@ namespace scribbu {
   /// an ID3v2 version-independent way of naming text frames
   enum class id3v2_text_frames {
     talb, // Album/Movie/Show title [TAL]
-    tbpm, // beats per minute [TBM]
+    tbpm, // beats per minute [TBP]
     tcom, // Composer(s) [TCM]
     tcon, // Content type [TCO]
     tcop, // Copyright message [TCR]
-- 
2.43.0


From e8ced820cee6c18ab6a6e332aa1b92288c48a346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:08:06 +0000
Subject: [PATCH 052/194] fix: don't treat a UTF-8 text's byte order mark as
 part of the text

---
 scribbu/framesv24.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scribbu/framesv24.cc b/scribbu/framesv24.cc
index 25f837c..bfc36b0 100644
--- a/scribbu/framesv24.cc
+++ b/scribbu/framesv24.cc
@@ -70,6 +70,9 @@ namespace scribbu {
       }
       else if (3 == unicode) {
         src = encoding::UTF_8;
+        if (2 < cbbuf && 0xef == pbuf[0] && 0xbb == pbuf[1] && 0xbf == pbuf[2]) {
+          pbuf += 3; cbbuf -= 3;
+        }
       }
       else {
         throw std::range_error("illegal encoding");
-- 
2.43.0


From 41d4689a5075d9d2840c5f6fc496f1d4495252d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:08:27 +0000
Subject: [PATCH 053/194] fix: don't drop leading characters that happen to
 look like a byte order mark

Text beginning with LATIN SMALL LETTER THORN & Y WITH DIAERESIS lost
both when converted to ISO-8859-1.
---
 scribbu/charsets.cc | 31 +++++++------------------------
 1 file changed, 7 insertions(+), 24 deletions(-)

diff --git a/scribbu/charsets.cc b/scribbu/charsets.cc
index 8ec7298..1b0f77c 100644
--- a/scribbu/charsets.cc
+++ b/scribbu/charsets.cc
@@ -724,33 +724,16 @@ namespace scribbu {
     outbuf = poutbuf.get();
     cbout -= outbytesleft;
 
-    if ((3 < cbout) &&
-        ((0x00 == (unsigned char)outbuf[0] &&
-          0x00 == (unsigned char)outbuf[1] &&
-          0xfe == (unsigned char)outbuf[2] &&
-          0xff == (unsigned char)outbuf[3]) ||
-         (0xfe == (unsigned char)outbuf[0] &&
-          0xff == (unsigned char)outbuf[1] &&
-          0x00 == (unsigned char)outbuf[2] &&
-          0x00 == (unsigned char)outbuf[3]))) {
-      outbuf += 4;
-      cbout -= 4;
-    }
-    else if (2 < cbout  &&
-             0xef == (unsigned char)outbuf[0] &&
-             0xbb == (unsigned char)outbuf[1] &&
-             0xbf == (unsigned char)outbuf[2]) {
+    // Of the encodings that can be had as std::string, only UTF-8 has a
+    // BOM-- in the others, those octets are ordinary characters.
+    if (encoding::UTF_8 == dstenc &&
+        2 < cbout  &&
+        0xef == (unsigned char)outbuf[0] &&
+        0xbb == (unsigned char)outbuf[1] &&
+        0xbf == (unsigned char)outbuf[2]) {
       outbuf += 3;
       cbout -= 3;
     }
-    else if ((1 < cbout) &&
-             ((0xfe == (unsigned char)outbuf[0] &&
-               0xff == (unsigned char)outbuf[1]) ||
-              (0xff == (unsigned char)outbuf[0] &&
-               0xfe == (unsigned char)outbuf[1]))) {
-      outbuf += 2;
-      cbout -= 2;
-    }
 
     // If there are trailing nulls and/or spaces, don't copy them, either.
     while (cbout && (0 == outbuf[cbout - 1] || 32 == outbuf[cbout - 1])) {
-- 
2.43.0


From d876a32d29d626a93a3165c1a5c41ffc7f0e94eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:21:27 +0000
Subject: [PATCH 054/194] fix: find existing backups when given a relative path

get_backup_name() compared the path it was given to absolute paths, so
that for a relative one (or one with doubled slashes) it didn't see the
existing backups, and the last backup was overwritten.
---
 scribbu/tagset.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scribbu/tagset.hh b/scribbu/tagset.hh
index b3b81a1..f79ba1f 100644
--- a/scribbu/tagset.hh
+++ b/scribbu/tagset.hh
@@ -219,7 +219,7 @@ namespace scribbu {
       using namespace std::filesystem;
 
       auto here = absolute(pth).parent_path();
-      auto prefix = pth.string();
+      auto prefix = (here / pth.filename()).string();
       size_t nprefix = prefix.length();
 
       vector<path> entries;
@@ -273,7 +273,7 @@ namespace scribbu {
       n += 1;
 
       stringstream stm;
-      stm << pth.string() << "." << n;
+      stm << prefix << "." << n;
 
       return path(stm.str());
 
-- 
2.43.0


From 4bd6188dd11d45ef75416bbb624e2b6e189f91df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:21:47 +0000
Subject: [PATCH 055/194] fix: leave no temporary file behind when replacing a
 tagset

The temporary file stayed when the operation failed, as well as when it
succeeded with the temporary directory on another file system & a backup
was asked for. Where no backup was asked for, one was left in that case.
---
 scribbu/tagset.hh | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/scribbu/tagset.hh b/scribbu/tagset.hh
index f79ba1f..1023580 100644
--- a/scribbu/tagset.hh
+++ b/scribbu/tagset.hh
@@ -368,6 +368,11 @@ namespace scribbu {
     // the event I hit it (the race condition).
     char buf[L_tmpnam];
     fs::path tmpnam = fs::temp_directory_path() / std::tmpnam(buf);
+    // Whatever happens, don't leave the temporary file behind
+    struct remover {
+      fs::path pth_;
+      ~remover() { std::error_code ec; fs::remove(pth_, ec); }
+    } rm{ tmpnam };
     std::ofstream tmpfs(tmpnam, ios_base::out |  ios_base::binary | ios_base::trunc);
     tmpfs.exceptions(EXC_MASK);
 
@@ -454,7 +459,7 @@ namespace scribbu {
         try {
           fs::copy_file(tmpnam, pth);
           if (! keep_backup) {
-            fs::remove(tmpnam);
+            fs::remove(cp);
           }
         } catch (const std::exception &ex) {
           // Well, we're kind of screwed. At least attempt to put the original
-- 
2.43.0


From 63d7039774d144df0714f829cced44b77537e50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:23:53 +0000
Subject: [PATCH 056/194] fix: reduce padding correctly when it's unevenly
 distributed

Reducing the padding of a tagset failed, after having changed some of
the tags, when any one tag had less than its share, even though there
was enough padding altogether; when there were more tags than bytes to
save, the first tag's padding could drop below zero & wrap around.
---
 scribbu/tagset.hh | 34 ++++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/scribbu/tagset.hh b/scribbu/tagset.hh
index 1023580..87ad020 100644
--- a/scribbu/tagset.hh
+++ b/scribbu/tagset.hh
@@ -665,21 +665,35 @@ namespace scribbu {
 
     ptrdiff_t total_adj = cb_new - cb_curr;
     ptrdiff_t num_tags = std::distance(p0, p1);
-    ptrdiff_t adj = total_adj / num_tags, mu = total_adj % num_tags;
 
-    size_t pad = (*p0)->padding();
-    if (adj < 0 && -(adj + mu) > pad) {
+    // Make sure there's enough padding before touching any of the tags
+    ptrdiff_t total_pad = 0;
+    for (forward_input_iterator p = p0; p != p1; ++p) {
+      total_pad += (*p)->padding();
+    }
+    if (0 == num_tags || total_pad + total_adj < 0) {
       throw invalid_tagset_request(invalid_tagset_request::adj_pad_not_enough);
     }
-    (*p0)->padding(pad + adj + mu);
-    ++p0;
 
-    for ( ; p0 != p1; ++p0) {
-      pad = (*p0)->padding();
-      if (adj < 0 && -adj > pad) {
-        throw invalid_tagset_request(invalid_tagset_request::adj_pad_not_enough);
+    ptrdiff_t adj = total_adj / num_tags, mu = total_adj % num_tags;
+
+    // Tags without enough padding give what they have...
+    ptrdiff_t missing = 0;
+    for (forward_input_iterator p = p0; p != p1; ++p) {
+      ptrdiff_t pad = (*p)->padding();
+      pad += adj + (p == p0 ? mu : 0);
+      if (pad < 0) {
+        missing -= pad;
+        pad = 0;
       }
-      (*p0)->padding(pad + adj);
+      (*p)->padding(pad);
+    }
+
+    // & the others make up for what's missing.
+    for ( ; missing && p0 != p1; ++p0) {
+      ptrdiff_t pad = (*p0)->padding(), cb = pad < missing ? pad : missing;
+      (*p0)->padding(pad - cb);
+      missing -= cb;
     }
   }
 
-- 
2.43.0


From 48b8d4c84a717263b7afe2edcdbf41c96211bf7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:23:53 +0000
Subject: [PATCH 057/194] fix: let maybe_emplace_tagset() write an empty tagset

It divided by zero, trying to distribute padding over no tags.
---
 scribbu/tagset.hh | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/scribbu/tagset.hh b/scribbu/tagset.hh
index 87ad020..ce7fb04 100644
--- a/scribbu/tagset.hh
+++ b/scribbu/tagset.hh
@@ -737,14 +737,18 @@ namespace scribbu {
     size_t subs_sz, subs_pad;
     std::tie(subs_sz, subs_pad) = tagset_sizes(p0, p1, unsync);
 
-    if (subs_sz <= curr_sz) {
+    // An empty tagset has no padding to adjust, and so can't be emplaced
+    bool any = p0 != p1;
+
+    if (any && subs_sz <= curr_sz) {
       // we can emplace
       if (subs_sz < curr_sz) {
         adjust_padding_to(p0, p1, curr_sz, subs_sz, pstrat);
       }
       replace_tagset_emplace(pth, p0, p1, unsync);
     }
-    else if (curr_sz >= subs_sz - subs_pad &&
+    else if (any &&
+             curr_sz >= subs_sz - subs_pad &&
              emplace_strategy::only_with_full_padding != estrat) {
       // we can emplace, if we reduce the padding in [p0,p1)
       adjust_padding_to(p0, p1, curr_sz, subs_sz, pstrat);
-- 
2.43.0


From 1ceca9edb6f2abcbf3dfbbcb023ccc82e15d40ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:24:56 +0000
Subject: [PATCH 058/194] fix: copy the file when its tags can't be made to fit
 in place

With unsynchronisation, the size of a tag needn't grow by as many bytes
as its padding does. maybe_emplace_tagset() failed in that case, leaving
the padding of the tags changed.
---
 scribbu/tagset.hh | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/scribbu/tagset.hh b/scribbu/tagset.hh
index ce7fb04..895e4ce 100644
--- a/scribbu/tagset.hh
+++ b/scribbu/tagset.hh
@@ -740,18 +740,36 @@ namespace scribbu {
     // An empty tagset has no padding to adjust, and so can't be emplaced
     bool any = p0 != p1;
 
-    if (any && subs_sz <= curr_sz) {
-      // we can emplace
-      if (subs_sz < curr_sz) {
-        adjust_padding_to(p0, p1, curr_sz, subs_sz, pstrat);
+    // The unsynchronisation scheme can make the size of a tag depend on its
+    // padding in other ways than one byte per byte; put the padding back &
+    // copy, then.
+    auto adjusted = [&]() {
+      std::vector<std::size_t> pads;
+      for (forward_input_iterator p = p0; p != p1; ++p) {
+        pads.push_back((*p)->padding());
+      }
+      adjust_padding_to(p0, p1, curr_sz, subs_sz, pstrat);
+      if (curr_sz == std::get<0>(tagset_sizes(p0, p1, unsync))) {
+        return true;
+      }
+      auto ppad = pads.begin();
+      for (forward_input_iterator p = p0; p != p1; ++p) {
+        (*p)->padding(*ppad++);
       }
+      return false;
+    };
+
+    if (any && subs_sz <= curr_sz &&
+        (subs_sz == curr_sz || adjusted())) {
+      // we can emplace
       replace_tagset_emplace(pth, p0, p1, unsync);
     }
     else if (any &&
+             subs_sz > curr_sz &&
              curr_sz >= subs_sz - subs_pad &&
-             emplace_strategy::only_with_full_padding != estrat) {
+             emplace_strategy::only_with_full_padding != estrat &&
+             adjusted()) {
       // we can emplace, if we reduce the padding in [p0,p1)
-      adjust_padding_to(p0, p1, curr_sz, subs_sz, pstrat);
       replace_tagset_emplace(pth, p0, p1, unsync);
     }
     else if (!fs::exists(pth)) {
-- 
2.43.0


From cba671d637cf018de22ee1d5882da193a38bb92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:36:01 +0000
Subject: [PATCH 059/194] fix: restore the read pointer after reading an ID3v1
 tag

---
 scribbu/id3v1.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scribbu/id3v1.cc b/scribbu/id3v1.cc
index 8fdc127..0b7c73a 100644
--- a/scribbu/id3v1.cc
+++ b/scribbu/id3v1.cc
@@ -525,8 +525,10 @@ scribbu::process_id3v1(std::istream &is)
   std::unique_ptr<scribbu::id3v1_tag> p;
   scribbu::id3v1_info I = scribbu::ends_in_id3v1(is);
   if (id3_v1_tag_type::none != I.type_) {
+    std::streampos here = is.tellg();
     is.seekg(I.start_);
     p.reset(new id3v1_tag(is));
+    is.seekg(here);
   }
   return p;
 }
-- 
2.43.0


From b25391605144040d9b42888fe793cce416a899c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:36:01 +0000
Subject: [PATCH 060/194] fix: restore the stream's exception mask whenever an
 ID3v1 tag has been read

---
 scribbu/id3v1.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/scribbu/id3v1.cc b/scribbu/id3v1.cc
index 0b7c73a..14e55e3 100644
--- a/scribbu/id3v1.cc
+++ b/scribbu/id3v1.cc
@@ -118,6 +118,9 @@ scribbu::id3v1_tag::id3v1_tag(std::istream &is)
     is.seekg(here, std::ios_base::beg);
     is.exceptions(exc_mask);
     throw invalid_tag();
+  } catch (const invalid_tag&) {
+    is.exceptions(exc_mask);
+    throw;
   }
 
 }
@@ -147,11 +150,18 @@ scribbu::id3v1_tag::id3v1_tag(std::istream &is,
       init_standard(buf);
     }
 
+    // Restore the exception mask
+    is.exceptions(exc_mask);
+
   } catch (const std::istream::failure &ex) {
     is.exceptions(std::ios_base::goodbit);
+    is.clear();
     is.seekg(here, std::ios_base::beg);
     is.exceptions(exc_mask);
     throw invalid_tag();;
+  } catch (const invalid_tag&) {
+    is.exceptions(exc_mask);
+    throw;
   }
 
 }
-- 
2.43.0


From c7fc4a4fa7b9f33db66a76287f0b288e384bf594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:36:01 +0000
Subject: [PATCH 061/194] fix: make ID3v1 tags enhanced completely

---
 scribbu/id3v1.hh | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/scribbu/id3v1.hh b/scribbu/id3v1.hh
index 56651f9..c64f561 100644
--- a/scribbu/id3v1.hh
+++ b/scribbu/id3v1.hh
@@ -430,8 +430,8 @@ namespace scribbu {
       encoding dst = dstenc ? dstenc.get() : encoding_from_system_locale();
       ext_genre_ = convert_encoding<string_type>(text, srcenc, dst, add_bom,
                                                  rsp);
+      enhance();
       ext_genre_.resize(TEXT_SZ, 0);
-      extended_ = true;
     }
 
     ////////////////////////////////////////////////////////////////////////////
@@ -444,8 +444,8 @@ namespace scribbu {
     }
     void set_speed(unsigned char speed)
     {
+      enhance();
       speed_ = speed;
-      extended_ = true;
     }
 
     ////////////////////////////////////////////////////////////////////////////
@@ -474,7 +474,7 @@ namespace scribbu {
       while (i < 6) {
         start_time_[i++] = 0;
       }
-      extended_ = true;
+      enhance();
     }
 
     ////////////////////////////////////////////////////////////////////////////
@@ -504,7 +504,7 @@ namespace scribbu {
       while (i < 6) {
         end_time_[i++] = 0;
       }
-      extended_ = true;
+      enhance();
     }
 
     ////////////////////////////////////////////////////////////////////////////
@@ -612,6 +612,16 @@ namespace scribbu {
     void init_standard(unsigned char *p);
     void init_extended(unsigned char *p);
 
+    /// Become an enhanced tag, if not one already
+    void enhance()
+    {
+      title_.resize(TEXT_SZ_ENH, 0);
+      artist_.resize(TEXT_SZ_ENH, 0);
+      album_.resize(TEXT_SZ_ENH, 0);
+      ext_genre_.resize(TEXT_SZ, 0);
+      extended_ = true;
+    }
+
   private:
 
     bool                         extended_;
@@ -621,11 +631,11 @@ namespace scribbu {
     std::vector<unsigned char>   comment_;
     unsigned char                genre_;
     std::vector<unsigned char>   ext_genre_;
-    std::array<unsigned char, 6> start_time_;
-    std::array<unsigned char, 6> end_time_;
-    unsigned char                speed_;
+    std::array<unsigned char, 6> start_time_ = { };
+    std::array<unsigned char, 6> end_time_ = { };
+    unsigned char                speed_ = 0;
     std::vector<unsigned char>   title_;
-    unsigned char                track_number_;
+    unsigned char                track_number_ = 0;
     std::array<unsigned char, 4> year_;
 
 
-- 
2.43.0


From 9a70eec825bfade9d9ddd5ce5648b3b5b291cb4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:36:01 +0000
Subject: [PATCH 062/194] fix: keep no more of an ID3v1 comment than is written

---
 scribbu/id3v1.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scribbu/id3v1.hh b/scribbu/id3v1.hh
index c64f561..7e28bd9 100644
--- a/scribbu/id3v1.hh
+++ b/scribbu/id3v1.hh
@@ -384,7 +384,7 @@ namespace scribbu {
     {
       encoding dst = dstenc ? dstenc.get() : encoding_from_system_locale();
       comment_ = convert_encoding(text, srcenc, dst, add_bom, rsp);
-      comment_.resize(enhanced() ? TEXT_SZ_ENH : TEXT_SZ, 0);
+      comment_.resize(v1_1() ? TEXT_SZ - 2 : TEXT_SZ, 0);
     }
 
     ////////////////////////////////////////////////////////////////////////////
@@ -549,6 +549,7 @@ namespace scribbu {
     {
       track_number_ = track;
       v1_1_ = true;
+      comment_.resize(TEXT_SZ - 2);
     }
 
     ////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 934a098d805c63409d527fe1fa868f86fb2201c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:37:00 +0000
Subject: [PATCH 063/194] fix: don't mistake track data containing "TAG+" for
 an enhanced ID3v1 tag

---
 scribbu/id3v1.cc   | 9 +++++++--
 scribbu/scribbu.cc | 8 ++++++--
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/scribbu/id3v1.cc b/scribbu/id3v1.cc
index 14e55e3..eb9a7e7 100644
--- a/scribbu/id3v1.cc
+++ b/scribbu/id3v1.cc
@@ -493,8 +493,13 @@ scribbu::id3v1_info scribbu::ends_in_id3v1(std::istream &is)
       is.seekg(-355, std::ios_base::end);
       is.read(buf, 4);
       if ('T' == buf[0] && 'A' == buf[1] && 'G' == buf[2] && '+' == buf[3]) {
-        I.start_ = is.tellg() - (std::streampos) 4;
-        I.type_ = id3_v1_tag_type::v_1_extended;
+        // An enhanced tag precedes a standard one
+        is.seekg(-128, std::ios_base::end);
+        is.read(buf, 3);
+        if ('T' == buf[0] && 'A' == buf[1] && 'G' == buf[2]) {
+          I.start_ -= 355;
+          I.type_ = id3_v1_tag_type::v_1_extended;
+        }
       }
     }
   }
diff --git a/scribbu/scribbu.cc b/scribbu/scribbu.cc
index c9c4f67..a6bff79 100644
--- a/scribbu/scribbu.cc
+++ b/scribbu/scribbu.cc
@@ -166,9 +166,13 @@ scribbu::find_id3v1_tag(std::istream &is)
     is.seekg(-355, std::ios_base::end);
     is.read(buf, 4);
     if ('T' == buf[0] && 'A' == buf[1] && 'G' == buf[2] && '+' == buf[3]) {
-      // ID3v1 extended tag at `tag'; stream ptr at `tag' + 4.
+      // ID3v1 extended tag at `tag', if it precedes a standard tag
       tag = is.tellg() - (std::streampos) 4;
-      tag_type = id3_v1_tag_type::v_1_extended;
+      is.seekg(-128, std::ios_base::end);
+      is.read(buf, 3);
+      if ('T' == buf[0] && 'A' == buf[1] && 'G' == buf[2]) {
+        tag_type = id3_v1_tag_type::v_1_extended;
+      }
     }
   }
   catch (const std::ios_base::failure &ex) {
-- 
2.43.0


From 1e90fa23bfdb13847250e9e950a4483f0093e7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:37:00 +0000
Subject: [PATCH 064/194] fix: find the end of tracks shorter than an ID3v1 tag

---
 scribbu/scribbu.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scribbu/scribbu.cc b/scribbu/scribbu.cc
index a6bff79..1b302f5 100644
--- a/scribbu/scribbu.cc
+++ b/scribbu/scribbu.cc
@@ -182,7 +182,7 @@ scribbu::find_id3v1_tag(std::istream &is)
     is.clear();
     is.seekg(0, std::ios_base::end);
     tag = is.tellg();
-    is.exceptions(exc_mask);
+    is.exceptions(EXC_MASK);
   }
 
   if (id3_v1_tag_type::none == tag_type) {
-- 
2.43.0


From 2ed73e8535a634dd7716938b17883638d3935d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:42:27 +0000
Subject: [PATCH 065/194] fix: convert text that needs a larger buffer than
 first thought

---
 scribbu/charsets.cc | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/scribbu/charsets.cc b/scribbu/charsets.cc
index 1b0f77c..21268a3 100644
--- a/scribbu/charsets.cc
+++ b/scribbu/charsets.cc
@@ -707,10 +707,12 @@ namespace scribbu {
       cbout <<= 2;
       poutbuf.reset(new char[cbout]);
 
+      // Start over, from the initial state
+      iconv(dsc, nullptr, nullptr, nullptr, nullptr);
       inbuf = const_cast<char*>(reinterpret_cast<const char*>(pbuf));
       inbytesleft = cbbuf;
       outbytesleft = cbout;
-      char *outbuf = poutbuf.get();
+      outbuf = poutbuf.get();
       status = iconv(dsc, &inbuf, &inbytesleft, &outbuf, &outbytesleft);
     }
 
@@ -850,11 +852,12 @@ namespace scribbu {
       cbout <<= 2;
       out.resize(cbout);
 
+      // Start over, from the initial state
+      iconv(dsc, nullptr, nullptr, nullptr, nullptr);
       inbuf = const_cast<char*>(text);
       inbytesleft = ntext;
-      outbytesleft = cbout;
-      char *outbuf = reinterpret_cast<char*>(&(out[cbbom]));
-      std::size_t outbytesleft = cbout;
+      outbytesleft = cbout - cbbom;
+      outbuf = reinterpret_cast<char*>(&(out[cbbom]));
       status = iconv(dsc, &inbuf, &inbytesleft, &outbuf, &outbytesleft);
     }
 
-- 
2.43.0


From 6247e89544df1cf7a9a77675eff1bb13bb840838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:42:28 +0000
Subject: [PATCH 066/194] fix: drop characters that can't be represented when
 asked to ignore them

---
 scribbu/charsets.cc | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/scribbu/charsets.cc b/scribbu/charsets.cc
index 21268a3..d72ee62 100644
--- a/scribbu/charsets.cc
+++ b/scribbu/charsets.cc
@@ -91,6 +91,21 @@ namespace {
     return make_pair(true, TBL.at(key));
   }
 
+  /// Invoke iconv on the whole of the input
+  std::size_t
+  iconv_all(iconv_t dsc, char **pin, std::size_t *pcbin, char **pout,
+            std::size_t *pcbout, scribbu::on_no_encoding rsp)
+  {
+    std::size_t status = iconv(dsc, pin, pcbin, pout, pcbout);
+    // When told to ignore what can't be represented, glibc converts all the
+    // rest & reports that it dropped something in this way.
+    if (~0 == status && EILSEQ == errno && 0 == *pcbin &&
+        scribbu::on_no_encoding::ignore == rsp) {
+      status = 0;
+    }
+    return status;
+  }
+
 }
 
 namespace scribbu {
@@ -698,8 +713,8 @@ namespace scribbu {
     // bytes, and it updates the conversion state contained in cd."
     std::size_t outbytesleft = cbout;
     char *outbuf = poutbuf.get();
-    std::size_t status = iconv(dsc, &inbuf, &inbytesleft,
-                               &outbuf, &outbytesleft);
+    std::size_t status = iconv_all(dsc, &inbuf, &inbytesleft,
+                                   &outbuf, &outbytesleft, rsp);
     while (~0 == status && E2BIG == errno) {
       // If the "output buffer has no more room for the next converted
       // character. In this case it sets errno to E2BIG and returns
@@ -713,7 +728,8 @@ namespace scribbu {
       inbytesleft = cbbuf;
       outbytesleft = cbout;
       outbuf = poutbuf.get();
-      status = iconv(dsc, &inbuf, &inbytesleft, &outbuf, &outbytesleft);
+      status = iconv_all(dsc, &inbuf, &inbytesleft, &outbuf, &outbytesleft,
+                         rsp);
     }
 
     if (~0 == status) {
@@ -844,7 +860,8 @@ namespace scribbu {
     vector<unsigned char> out(cbout);
     std::size_t outbytesleft = cbout - cbbom;
     char *outbuf = reinterpret_cast<char*>(&(out[cbbom]));
-    size_t status = iconv(dsc, &inbuf, &inbytesleft, &outbuf, &outbytesleft);
+    size_t status = iconv_all(dsc, &inbuf, &inbytesleft, &outbuf,
+                              &outbytesleft, rsp);
     while (~0 == status && E2BIG == errno) {
       // If the "output buffer has no more room for the next converted
       // character. In this case it sets errno to E2BIG and returns
@@ -858,7 +875,8 @@ namespace scribbu {
       inbytesleft = ntext;
       outbytesleft = cbout - cbbom;
       outbuf = reinterpret_cast<char*>(&(out[cbbom]));
-      status = iconv(dsc, &inbuf, &inbytesleft, &outbuf, &outbytesleft);
+      status = iconv_all(dsc, &inbuf, &inbytesleft, &outbuf, &outbytesleft,
+                         rsp);
     }
 
     if (~0 == status) {
-- 
2.43.0


From 7816f988d62d11684f24fc55e820c7d200427b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:42:28 +0000
Subject: [PATCH 067/194] fix: end converted text in the initial shift state

---
 scribbu/charsets.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scribbu/charsets.cc b/scribbu/charsets.cc
index d72ee62..db1eb1a 100644
--- a/scribbu/charsets.cc
+++ b/scribbu/charsets.cc
@@ -103,6 +103,10 @@ namespace {
         scribbu::on_no_encoding::ignore == rsp) {
       status = 0;
     }
+    // Return to the initial shift state, where the encoding has such a thing
+    if (~0 != status) {
+      status = iconv(dsc, nullptr, nullptr, pout, pcbout);
+    }
     return status;
   }
 
-- 
2.43.0


From f752fc38664f4fc56f2d346cb6eb63b8f64f8fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:42:28 +0000
Subject: [PATCH 068/194] fix: add the right byte order mark to big endian
 UTF-32

---
 scribbu/charsets.cc | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/scribbu/charsets.cc b/scribbu/charsets.cc
index db1eb1a..0845e20 100644
--- a/scribbu/charsets.cc
+++ b/scribbu/charsets.cc
@@ -790,7 +790,7 @@ namespace scribbu {
     const unsigned char UTF16BE[] = { 0xfe, 0xff };
     const unsigned char UTF8[]    = { 0xef, 0xbb, 0xbf };
     const unsigned char UTF32LE[] = { 0xff, 0xfe, 0x00, 0x00 };
-    const unsigned char UTF32BE[] = { 0x00, 0x00, 0xff, 0xfe };
+    const unsigned char UTF32BE[] = { 0x00, 0x00, 0xfe, 0xff };
 
     using namespace std;
 
@@ -814,14 +814,6 @@ namespace scribbu {
           pbom = UTF16LE;
         }
         break;
-      case encoding::UCS_4:
-        cbbom = 4;
-        if constexpr (std::endian::native == std::endian::big) {
-          pbom = UTF32BE;
-        } else {
-          pbom = UTF32LE;
-        }
-        break;
       case encoding::UCS_2BE:
       case encoding::UTF_16BE:
         cbbom = 2;
@@ -836,6 +828,7 @@ namespace scribbu {
         cbbom = 3;
         pbom = UTF8;
         break;
+      case encoding::UCS_4: // iconv takes this to be big endian
       case encoding::UCS_4BE:
       case encoding::UTF_32BE:
         cbbom = 4;
-- 
2.43.0


From b26b05dc8daa16a9eb9a2d48b7d4ababb89bf8d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:42:28 +0000
Subject: [PATCH 069/194] fix: name the offending encoding when refusing to
 convert from it

---
 scribbu/charsets.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scribbu/charsets.cc b/scribbu/charsets.cc
index 0845e20..8211f1d 100644
--- a/scribbu/charsets.cc
+++ b/scribbu/charsets.cc
@@ -795,7 +795,7 @@ namespace scribbu {
     using namespace std;
 
     if (!scribbu::char_traits<char>::is_code_unit(srcenc)) {
-      throw bad_code_unit(dstenc, sizeof(char));
+      throw bad_code_unit(srcenc, sizeof(char));
     }
 
     if (0 == strlen(text)) {
-- 
2.43.0


From 2608b24b86ad031ce6441ccef32d751e7ed1153a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:42:41 +0000
Subject: [PATCH 070/194] fix: convert std::strings in full, even if they
 contain NULs

---
 scribbu/charsets.cc | 35 +++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/scribbu/charsets.cc b/scribbu/charsets.cc
index 8211f1d..35fd375 100644
--- a/scribbu/charsets.cc
+++ b/scribbu/charsets.cc
@@ -777,14 +777,14 @@ namespace scribbu {
                                          srcenc, dstenc, rsp);
   }
 
-  /// Convert encodings from C strings to buffers of unsigned char
-  template <>
-  std::vector<unsigned char>
-  convert_encoding(char const* const& text,
-                   encoding srcenc,
-                   encoding dstenc,
-                   bool add_bom /*= false*/,
-                   on_no_encoding rsp /*= on_no_encoding::fail*/)
+  /// Convert encodings from arrays of char to buffers of unsigned char
+  static std::vector<unsigned char>
+  convert_chars(const char *text,
+                std::size_t ntext,
+                encoding srcenc,
+                encoding dstenc,
+                bool add_bom,
+                on_no_encoding rsp)
   {
     const unsigned char UTF16LE[] = { 0xff, 0xfe };
     const unsigned char UTF16BE[] = { 0xfe, 0xff };
@@ -798,7 +798,7 @@ namespace scribbu {
       throw bad_code_unit(srcenc, sizeof(char));
     }
 
-    if (0 == strlen(text)) {
+    if (0 == ntext) {
       return std::vector<unsigned char>();
     }
 
@@ -848,7 +848,6 @@ namespace scribbu {
     detail::iconv_specific::descriptor dsc(srcenc, dstenc, rsp);
 
     char *inbuf = const_cast<char*>(text);
-    size_t ntext = strlen(text);
     size_t inbytesleft = ntext;
     // We can't know a priori how many octets the output buffer will require;
     // cf.
@@ -895,6 +894,18 @@ namespace scribbu {
     return out;
   }
 
+  /// Convert encodings from C strings to buffers of unsigned char
+  template <>
+  std::vector<unsigned char>
+  convert_encoding(char const* const& text,
+                   encoding srcenc,
+                   encoding dstenc,
+                   bool add_bom /*= false*/,
+                   on_no_encoding rsp /*= on_no_encoding::fail*/)
+  {
+    return convert_chars(text, strlen(text), srcenc, dstenc, add_bom, rsp);
+  }
+
   /// Convert encodings from C strings to buffers of unsigned char
   template <>
   std::vector<unsigned char>
@@ -925,8 +936,8 @@ namespace scribbu {
                    bool add_bom /*= false*/,
                    on_no_encoding rsp /*= on_no_encoding::fail*/)
   {
-    return convert_encoding<const char*>(text.c_str(), srcenc, dstenc, add_bom,
-                                         rsp);
+    return convert_chars(text.data(), text.size(), srcenc, dstenc, add_bom,
+                         rsp);
   }
 
 } // End namespace scribbu.
-- 
2.43.0


From b1e2d872c545576bbd0107733f163379e297ec4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:43:01 +0000
Subject: [PATCH 071/194] fix: find the character encoding of the system locale

---
 scribbu/charsets.cc | 47 ++++++++++++++++++++++++++++-----------------
 1 file changed, 29 insertions(+), 18 deletions(-)

diff --git a/scribbu/charsets.cc b/scribbu/charsets.cc
index 35fd375..52b510e 100644
--- a/scribbu/charsets.cc
+++ b/scribbu/charsets.cc
@@ -59,18 +59,18 @@ namespace {
       {"ISO8859-16", encoding::ISO_8859_16 },
       {"CP1131",     encoding::CP1131      },
       {"CP1133",     encoding::CP1133      },
-      {"CP1250,",    encoding::CP1250      },
+      {"CP1250",     encoding::CP1250      },
       {"CP1251",     encoding::CP1251      },
-      {"CP1252,",    encoding::CP1252      },
-      {"CP1253,",    encoding::CP1253      },
-      {"CP1254,",    encoding::CP1254      },
-      {"CP1255,",    encoding::CP1255      },
-      {"CP1256,",    encoding::CP1256      },
-      {"CP1257,",    encoding::CP1257      },
+      {"CP1252",     encoding::CP1252      },
+      {"CP1253",     encoding::CP1253      },
+      {"CP1254",     encoding::CP1254      },
+      {"CP1255",     encoding::CP1255      },
+      {"CP1256",     encoding::CP1256      },
+      {"CP1257",     encoding::CP1257      },
       {"CP1258",     encoding::CP1258      },
-      {"CP850,",     encoding::CP850       },
-      {"CP862,",     encoding::CP862       },
-      {"CP866,",     encoding::CP866       },
+      {"CP850",      encoding::CP850       },
+      {"CP862",      encoding::CP862       },
+      {"CP866",      encoding::CP866       },
       {"CP874",      encoding::CP874       },
       {"CP932",      encoding::CP932       },
       {"CP936",      encoding::CP936       },
@@ -78,12 +78,16 @@ namespace {
       {"CP950",      encoding::CP950       },
     };
 
-    string::size_type i = name.rfind('.');
+    // If its categories differ, a locale is named "LC_CTYPE=...;..."
+    string::size_type i = name.find("LC_CTYPE=");
+    string ctype = string::npos == i ? name : name.substr(i, name.find(';', i) - i);
+
+    i = ctype.find('.');
     if (string::npos == i) {
       return make_pair(true, encoding::UTF_8);
     }
 
-    string key = name.substr(i);
+    string key = ctype.substr(i + 1, ctype.find('@', i) - i - 1);
     if (0 == TBL.count(key)) {
       return make_pair(false, encoding::UTF_8);
     }
@@ -666,16 +670,23 @@ namespace scribbu {
 	bool ok;
 	encoding enc;
 
-    // Try the global locale, first
+    // Try the global locale, first (if the program has set one)
     locale global;
-    tie(ok, enc) = encoding_from_locale_name(global.name());
-    if (ok) {
-      return enc;
+    if ("C" != global.name()) {
+      tie(ok, enc) = encoding_from_locale_name(global.name());
+      if (ok) {
+        return enc;
+      }
     }
 
     // Try the system locale
-	locale loc("");
-	tie(ok, enc) = encoding_from_locale_name(loc.name());
+    string name("C");
+    try {
+      name = locale("").name();
+    } catch (const runtime_error&) {
+      // No such locale is installed
+    }
+	tie(ok, enc) = encoding_from_locale_name(name);
 	if (ok) {
 	  return enc;
 	}
-- 
2.43.0


From e81bc4b156b39d02cd162db47414dc9cdec494f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:50:48 +0000
Subject: [PATCH 072/194] fix: drop unrepresentable characters throughout long
 texts, too

---
 scribbu/charsets.cc | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/scribbu/charsets.cc b/scribbu/charsets.cc
index 52b510e..7c2f0e0 100644
--- a/scribbu/charsets.cc
+++ b/scribbu/charsets.cc
@@ -100,11 +100,18 @@ namespace {
   iconv_all(iconv_t dsc, char **pin, std::size_t *pcbin, char **pout,
             std::size_t *pcbout, scribbu::on_no_encoding rsp)
   {
-    std::size_t status = iconv(dsc, pin, pcbin, pout, pcbout);
+    std::size_t status, nleft;
+    bool dropped;
     // When told to ignore what can't be represented, glibc converts all the
-    // rest & reports that it dropped something in this way.
-    if (~0 == status && EILSEQ == errno && 0 == *pcbin &&
-        scribbu::on_no_encoding::ignore == rsp) {
+    // rest (or, for long texts, some of it) & reports that it dropped
+    // something in this way.
+    do {
+      nleft = *pcbin;
+      status = iconv(dsc, pin, pcbin, pout, pcbout);
+      dropped = ~0 == status && EILSEQ == errno &&
+        scribbu::on_no_encoding::ignore == rsp;
+    } while (dropped && 0 < *pcbin && *pcbin < nleft);
+    if (dropped && 0 == *pcbin) {
       status = 0;
     }
     // Return to the initial shift state, where the encoding has such a thing
-- 
2.43.0


From aae17b8b394f41f6a20530a637fc49d3b929e599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:00:58 +0000
Subject: [PATCH 073/194] fix: Measure from the first sync, even if it lies
 within the first four bytes

---
 scribbu/mp3.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scribbu/mp3.cc b/scribbu/mp3.cc
index aeb7e30..64791b2 100644
--- a/scribbu/mp3.cc
+++ b/scribbu/mp3.cc
@@ -599,6 +599,7 @@ scribbu::get_mp3_duration(std::istream &is)
   std::uint8_t hdr[4];
   is.read((char*)hdr, 4);
   if (is && !is_sync(hdr)) {
+    is.seekg(here, std::ios_base::beg);
     find_sync(is);
     is.read((char*)hdr, 4);
   }
-- 
2.43.0


From da0fb9e88cf2a169136add9c38e8f6a2d9dd7110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:01:29 +0000
Subject: [PATCH 074/194] fix: Have find_sync() restore the stream's exception
 mask

---
 scribbu/mp3.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scribbu/mp3.cc b/scribbu/mp3.cc
index 64791b2..a3b011e 100644
--- a/scribbu/mp3.cc
+++ b/scribbu/mp3.cc
@@ -581,6 +581,8 @@ scribbu::find_sync(std::istream &is)
   if (hit) {
     is.seekg(here, std::ios_base::beg);
   }
+
+  is.exceptions(exc_mask);
 }
 
 double
-- 
2.43.0


From 382fd4787c41ea5bce6c56cf94c644a2c708d6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:01:49 +0000
Subject: [PATCH 075/194] fix: Find the VBRI header of a frame protected by a
 CRC

---
 scribbu/mp3.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scribbu/mp3.cc b/scribbu/mp3.cc
index a3b011e..12a6a9d 100644
--- a/scribbu/mp3.cc
+++ b/scribbu/mp3.cc
@@ -506,7 +506,7 @@ scribbu::mp3_audio_frame::parse_vbr(std::istream &is)
       }
     } else {
       // At this point, the get ptr is two bytes from the end of the side info
-      is.seekg(32 - side_info_size_ - 2, std::ios_base::cur);
+      is.seekg(32 - (crc_ ? 2 : 0) - side_info_size_ - 2, std::ios_base::cur);
       is.read(buf, 4);
       if (is_vbri(buf)) {
         vbri_ = std::optional<vbri_t>{ vbri_t(vbri_mp3_tag(is)) };
-- 
2.43.0


From ad857766131d3e0adfec993282ccc410a4226d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:02:09 +0000
Subject: [PATCH 076/194] fix: Tolerate VBR headers that overstate the size of
 the track

---
 scribbu/mp3.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/scribbu/mp3.cc b/scribbu/mp3.cc
index 12a6a9d..8e227d7 100644
--- a/scribbu/mp3.cc
+++ b/scribbu/mp3.cc
@@ -624,6 +624,11 @@ scribbu::get_mp3_duration(std::istream &is)
 
     dur = double(num) * double(num_frames) / double(den);
     is.seekg(num_bytes - f.size(), std::ios_base::cur);
+    if (!is) {
+      // the VBR header claims there's more than there is
+      is.clear();
+      is.seekg(0, std::ios_base::end);
+    }
   } else {
     size_t num_frames = 1; // one frame so far
 
-- 
2.43.0


From 683ff12f8cff1c95bb688d691643054c9cca0b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:02:09 +0000
Subject: [PATCH 077/194] fix: Leave the stream just past the track even if its
 duration can't be had

---
 scribbu/scribbu.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scribbu/scribbu.cc b/scribbu/scribbu.cc
index 1b302f5..3628b95 100644
--- a/scribbu/scribbu.cc
+++ b/scribbu/scribbu.cc
@@ -319,8 +319,8 @@ scribbu::track_data::track_data(std::istream &is) :
   }
 
   // Finally, patch-up the istream according to this method's contract.
-  is.seekg(tag, std::ios_base::beg);
   is.clear(); // `eof' may be set
+  is.seekg(tag, std::ios_base::beg);
   is.exceptions(exc_mask);
 }
 
-- 
2.43.0


From da956f879415799861b854d0d4dddba7eaf69895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:02:32 +0000
Subject: [PATCH 078/194] fix: Have get_mp3_duration() restore the exception
 mask when there's no sync

---
 scribbu/mp3.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scribbu/mp3.cc b/scribbu/mp3.cc
index 8e227d7..ecf26ba 100644
--- a/scribbu/mp3.cc
+++ b/scribbu/mp3.cc
@@ -608,6 +608,7 @@ scribbu::get_mp3_duration(std::istream &is)
   if (!is || !is_sync(hdr)) {
     is.clear();
     is.seekg(here, std::ios_base::beg);
+    is.exceptions(exc_mask);
     return 0.0;
   }
 
-- 
2.43.0


From b0cadae17429d7a6e9ddfb0cf4ff172b1d8fa77c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:02:42 +0000
Subject: [PATCH 079/194] fix: Have get_mp3_duration() restore the exception
 mask when a frame is bad

---
 scribbu/mp3.cc | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/scribbu/mp3.cc b/scribbu/mp3.cc
index ecf26ba..a80cf82 100644
--- a/scribbu/mp3.cc
+++ b/scribbu/mp3.cc
@@ -74,6 +74,19 @@ namespace {
       (buf[0] == 'L' && buf[1] == 'A' && buf[2] == 'M' && buf[3] == 'E' ) ||
       (buf[0] == 'L' && buf[1] == '3' && buf[2] == '.' && buf[4] == '9');
   }
+
+  /// Restore a stream's exception mask on scope exit
+  struct mask_restorer {
+    std::istream &is;
+    std::ios_base::iostate mask;
+    ~mask_restorer() {
+      try {
+        is.exceptions(mask);
+      } catch (const std::ios_base::failure&) {
+        // whatever's the matter, we're no place to report it
+      }
+    }
+  };
 }
 
 ////////////////////////////////////////////////////////////////////////////////
@@ -612,6 +625,10 @@ scribbu::get_mp3_duration(std::istream &is)
     return 0.0;
   }
 
+  // The frames ahead may not be legit-- don't leave our mask behind in that
+  // case, either.
+  mask_restorer restorer = { is, exc_mask };
+
   std::size_t num, den;
   mp3_audio_frame f(hdr, is, true);
   std::tie(num, den) = f.duration();
-- 
2.43.0


From ac741bff27fc69c6fbb4fbd128edc7455e3dde15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:02:55 +0000
Subject: [PATCH 080/194] fix: Read the number of entries in a VBRI header as
 the 16-bit number it is

---
 scribbu/mp3.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scribbu/mp3.cc b/scribbu/mp3.cc
index a80cf82..d83317d 100644
--- a/scribbu/mp3.cc
+++ b/scribbu/mp3.cc
@@ -113,8 +113,8 @@ scribbu::vbri_mp3_tag::vbri_mp3_tag(std::istream &is)
   num_frames_ = ntohl(nl);
 
   uint16_t num_entries;
-  is.read((char*)&num_entries, 4);
-  num_entries = ntohl(num_entries);
+  is.read((char*)&num_entries, 2);
+  num_entries = ntohs(num_entries);
 
   is.read((char*)&ns, 2);
   scale_ = ntohs(ns);
-- 
2.43.0


From 30e2f98abb6ce4134e17686f87cd4ab96f80f781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:03:20 +0000
Subject: [PATCH 081/194] fix: Have get_mp3_duration() leave the get pointer
 just past the last frame

---
 scribbu/mp3.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scribbu/mp3.cc b/scribbu/mp3.cc
index d83317d..3332e86 100644
--- a/scribbu/mp3.cc
+++ b/scribbu/mp3.cc
@@ -651,9 +651,11 @@ scribbu::get_mp3_duration(std::istream &is)
     size_t num_frames = 1; // one frame so far
 
     for ( ; ; ++num_frames) {
+      here = is.tellg();
       is.read((char*)hdr, 4);
       if (!is || !is_sync(hdr)) {
         is.clear();
+        is.seekg(here, std::ios_base::beg);
         break;
       }
       // construct a "throwaway" frame just to skip the get ptr past a legit MP3
-- 
2.43.0


From 19e1e33e2747f6651f459887f30f57c8b339c6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:03:39 +0000
Subject: [PATCH 082/194] fix: Compute the MD5 checksum from the beginning of
 the track when there's no hint

---
 scribbu/scribbu.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scribbu/scribbu.cc b/scribbu/scribbu.cc
index 3628b95..2d8efa6 100644
--- a/scribbu/scribbu.cc
+++ b/scribbu/scribbu.cc
@@ -233,6 +233,7 @@ scribbu::compute_track_md5(std::istream &is, std::streampos hint /*= EOF*/)
   std::streampos here, tag;
   if (hint == EOF) {
     std::tie(here, tag) = find_id3v1_tag(is);
+    is.seekg(here, std::ios_base::beg);
   } else {
     here = is.tellg();
     tag = hint;
-- 
2.43.0


From 4d9dce1d0324824fd28f27ca49ab40a0f8dfcf13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:03:57 +0000
Subject: [PATCH 083/194] fix: Don't fail looking for a VBR header in a frame
 too small to have one

---
 scribbu/mp3.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/scribbu/mp3.cc b/scribbu/mp3.cc
index 3332e86..2de132e 100644
--- a/scribbu/mp3.cc
+++ b/scribbu/mp3.cc
@@ -493,6 +493,14 @@ scribbu::mp3_audio_frame::parse_vbr(std::istream &is)
   //      parse the tag
 
   std::istream::pos_type here = is.tellg();
+  if (!is) {
+    return;
+  }
+
+  // There may be less to be read than we'd need for a header: that's not an
+  // error.
+  mask_restorer restorer = { is, is.exceptions() };
+  is.exceptions(std::ios_base::badbit);
 
   char buf[4] = { 0, 0, 0, 0 };
   is.read(buf, 4);
@@ -527,6 +535,7 @@ scribbu::mp3_audio_frame::parse_vbr(std::istream &is)
     }
   }
 
+  is.clear();
   is.seekg(here, std::ios_base::beg);
 }
 
-- 
2.43.0


From 0a683e860376f93bf2e75a3f18fbac6728b5a0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:04:13 +0000
Subject: [PATCH 084/194] fix: Sum the durations of frames whose sampling rates
 differ

---
 scribbu/mp3.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/scribbu/mp3.cc b/scribbu/mp3.cc
index 2de132e..d45e44a 100644
--- a/scribbu/mp3.cc
+++ b/scribbu/mp3.cc
@@ -657,6 +657,7 @@ scribbu::get_mp3_duration(std::istream &is)
       is.seekg(0, std::ios_base::end);
     }
   } else {
+    double before = 0.0; // the duration of frames with another sampling rate
     size_t num_frames = 1; // one frame so far
 
     for ( ; ; ++num_frames) {
@@ -670,8 +671,13 @@ scribbu::get_mp3_duration(std::istream &is)
       // construct a "throwaway" frame just to skip the get ptr past a legit MP3
       // frame
       mp3_audio_frame h_(hdr, is);
+      if (h_.duration() != std::make_pair(num, den)) {
+        before += double(num) * double(num_frames) / double(den);
+        std::tie(num, den) = h_.duration();
+        num_frames = 0;
+      }
     }
-    dur = double(num) * double(num_frames) / double(den);
+    dur = before + double(num) * double(num_frames) / double(den);
   }
 
   is.exceptions(exc_mask);
-- 
2.43.0


From 4db41ba898b9c15950a8d1c709d8eca5f35b8012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:04:27 +0000
Subject: [PATCH 085/194] fix: Don't read past the end of the buffer when
 looking for a LAME tag

---
 scribbu/mp3.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scribbu/mp3.cc b/scribbu/mp3.cc
index d45e44a..1436fd1 100644
--- a/scribbu/mp3.cc
+++ b/scribbu/mp3.cc
@@ -72,7 +72,7 @@ namespace {
   is_lame(char buf[]) {
     return
       (buf[0] == 'L' && buf[1] == 'A' && buf[2] == 'M' && buf[3] == 'E' ) ||
-      (buf[0] == 'L' && buf[1] == '3' && buf[2] == '.' && buf[4] == '9');
+      (buf[0] == 'L' && buf[1] == '3' && buf[2] == '.' && buf[3] == '9');
   }
 
   /// Restore a stream's exception mask on scope exit
-- 
2.43.0


From bbd98c3e1e5efd0150e8154897966ae66292bd16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:05:15 +0000
Subject: [PATCH 086/194] fix: Don't take the end of an ID3v2 tag for an ID3v1
 tag when delimiting the track

---
 scribbu/scribbu.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/scribbu/scribbu.cc b/scribbu/scribbu.cc
index 2d8efa6..e9e4031 100644
--- a/scribbu/scribbu.cc
+++ b/scribbu/scribbu.cc
@@ -170,7 +170,7 @@ scribbu::find_id3v1_tag(std::istream &is)
       tag = is.tellg() - (std::streampos) 4;
       is.seekg(-128, std::ios_base::end);
       is.read(buf, 3);
-      if ('T' == buf[0] && 'A' == buf[1] && 'G' == buf[2]) {
+      if ('T' == buf[0] && 'A' == buf[1] && 'G' == buf[2] && tag >= here) {
         tag_type = id3_v1_tag_type::v_1_extended;
       }
     }
@@ -190,7 +190,8 @@ scribbu::find_id3v1_tag(std::istream &is)
     try {
       is.seekg(-128, std::ios_base::end);
       is.read(buf, 3);
-      if ('T' == buf[0] && 'A' == buf[1] && 'G' == buf[2]) {
+      if ('T' == buf[0] && 'A' == buf[1] && 'G' == buf[2] &&
+          is.tellg() - (std::streampos) 3 >= here) {
         // ID3v1 tag at `tag'; stream ptr at `tag' + 3
         tag = is.tellg() - (std::streampos) 3;
         tag_type = id3_v1_tag_type::v_1;
-- 
2.43.0


From 0a15ecf6f6e8ed0de4a551bdac0f2c0aab222dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:11:15 +0000
Subject: [PATCH 087/194] fix: Read an empty URL-encoded tag cloud as one
 without tags

---
 scribbu/framesv2.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scribbu/framesv2.cc b/scribbu/framesv2.cc
index f4a17e9..3a926d4 100644
--- a/scribbu/framesv2.cc
+++ b/scribbu/framesv2.cc
@@ -1417,6 +1417,10 @@ scribbu::tag_cloud::parse_to_map(const std::string &text,
 {
   using namespace std;
 
+  if (text.empty()) {
+    return; // no tags at all
+  }
+
   // Parse using a simple FSM:
   bool parsing_key = true;
 
-- 
2.43.0


From ab87e6b35a4e4c7ec57f4b0d98280dcd01874625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:11:29 +0000
Subject: [PATCH 088/194] fix: Refuse URL-encoded text that ends in a percent
 sign

---
 scribbu/scribbu.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scribbu/scribbu.cc b/scribbu/scribbu.cc
index e9e4031..784d59f 100644
--- a/scribbu/scribbu.cc
+++ b/scribbu/scribbu.cc
@@ -423,5 +423,9 @@ scribbu::urldecode(const std::string &text)
 
   }
 
+  if (saw_pct) {
+    throw std::invalid_argument("incomplete % sequence");
+  }
+
   return out;
 }
-- 
2.43.0


From afdb86322756d1c2d780d5955d0acdd2c19e9da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:11:29 +0000
Subject: [PATCH 089/194] fix: Leave a tag cloud as it was when it's updated
 with malformed text

---
 scribbu/framesv2.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/scribbu/framesv2.cc b/scribbu/framesv2.cc
index 3a926d4..6af3983 100644
--- a/scribbu/framesv2.cc
+++ b/scribbu/framesv2.cc
@@ -1322,8 +1322,9 @@ scribbu::tag_cloud::merge(const std::string &tags)
 void
 scribbu::tag_cloud::update(const std::string &tags)
 {
-  tags_.clear();
-  parse_to_map(tags, tags_);
+  map_type M;
+  parse_to_map(tags, M);
+  tags_.swap(M);
 }
 
 /// Return the size, in bytes, of the frame, prior to desynchronisation,
-- 
2.43.0


From dab2a281b3d9370acae6740600f6396d5251257e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:27:50 +0000
Subject: [PATCH 090/194] fix: Destroy & copy a stream's encoding as what it is

---
 scribbu/ostream.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scribbu/ostream.cc b/scribbu/ostream.cc
index 632e931..adbb779 100644
--- a/scribbu/ostream.cc
+++ b/scribbu/ostream.cc
@@ -80,7 +80,7 @@ scribbu::ienc::callback(std::ios_base::event e, std::ios_base &ios, int idx)
 
   if (ios_base::erase_event == e) {
     try {
-      delete reinterpret_cast<char*>(ios.pword(idx));
+      delete reinterpret_cast<ienc*>(ios.pword(idx));
     }
     catch (...) {
       // Nothing to be done-- either the stream is being destroyed, or
@@ -91,10 +91,10 @@ scribbu::ienc::callback(std::ios_base::event e, std::ios_base &ios, int idx)
   }
   else if (ios_base::copyfmt_event == e) {
     void *&p = ios.pword(idx);
-    char *pold = reinterpret_cast<char*>(p);
+    ienc *pold = reinterpret_cast<ienc*>(p);
     if (nullptr != pold) {
       try {
-        p = strdup(pold);
+        p = new ienc(*pold);
       }
       catch (...) {
         // We can't throw, and we have no return code. The only thing
-- 
2.43.0


From 390814bf04b8b93ad88853cace7d073b805e46b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:28:12 +0000
Subject: [PATCH 091/194] fix: Refuse to replace a tagset which claims to
 extend past the end of the file

---
 scribbu/tagset.hh | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/scribbu/tagset.hh b/scribbu/tagset.hh
index 895e4ce..7b51bfa 100644
--- a/scribbu/tagset.hh
+++ b/scribbu/tagset.hh
@@ -401,6 +401,11 @@ namespace scribbu {
     streampos there = ifs.tellg();
     ifs.seekg(here, std::ifstream::beg);
 
+    if (there < here) {
+      // The last tag purports to be larger than the file
+      throw id3v2_tag::invalid_tag();
+    }
+
     size_t cb = there - here;
     if (cb > 0) {
       vector<char> buf(cb);
-- 
2.43.0


From 645b7a1f4da4a0a7c592f27f567e3d5e11a45e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:31:58 +0000
Subject: [PATCH 092/194] fix: Don't allocate the size a tag claims before
 checking the file is that long

---
 scribbu/id3v2.cc  | 10 ++++++++++
 scribbu/id3v2.hh  |  4 ++++
 scribbu/id3v22.cc |  5 +++++
 scribbu/id3v23.cc |  5 +++++
 scribbu/id3v24.cc |  5 +++++
 5 files changed, 29 insertions(+)

diff --git a/scribbu/id3v2.cc b/scribbu/id3v2.cc
index 1c610c0..da5bdae 100644
--- a/scribbu/id3v2.cc
+++ b/scribbu/id3v2.cc
@@ -37,6 +37,16 @@
 //                   free functions private to this module                   //
 ///////////////////////////////////////////////////////////////////////////////
 
+std::size_t
+scribbu::detail::bytes_left(std::istream &is)
+{
+  std::streampos here = is.tellg();
+  is.seekg(0, std::ios_base::end);
+  std::streampos end = is.tellg();
+  is.seekg(here);
+  return here < end ? end - here : 0;
+}
+
 std::size_t
 scribbu::detail::unsigned_from_sync_safe(unsigned char b0,
                                          unsigned char b1,
diff --git a/scribbu/id3v2.hh b/scribbu/id3v2.hh
index 0c31ee5..aa05b6c 100644
--- a/scribbu/id3v2.hh
+++ b/scribbu/id3v2.hh
@@ -344,6 +344,10 @@ namespace scribbu {
 
   namespace detail {
 
+    /// Return the number of bytes between the current position of a stream &
+    /// its end; the stream's position is unchanged
+    std::size_t bytes_left(std::istream &is);
+
     /// Return an unsigned int from a three-octet sync-safe int; this
     /// implementation assumes that the input is in big-endian (per the ID3v2
     /// specification) & will return the correct value regardless of the host
diff --git a/scribbu/id3v22.cc b/scribbu/id3v22.cc
index 39e665b..63b540e 100644
--- a/scribbu/id3v22.cc
+++ b/scribbu/id3v22.cc
@@ -765,6 +765,11 @@ void scribbu::id3v2_2_tag::parse(std::istream &is, std::size_t size)
     // resynchronisation
     std::size_t cb_tag = size;
 
+    // Don't take the header's word for how much memory we're going to need.
+    if (detail::bytes_left(is) < cb_tag) {
+      is.setstate(std::ios_base::eofbit | std::ios_base::failbit);
+    }
+
     // std::array's size is fixed at compile time, which we can't do, and
     // std::vector is permitted to allocate additional memory to accomodate
     // later insertions.
diff --git a/scribbu/id3v23.cc b/scribbu/id3v23.cc
index 305b78d..01195ef 100644
--- a/scribbu/id3v23.cc
+++ b/scribbu/id3v23.cc
@@ -1122,6 +1122,11 @@ void scribbu::id3v2_3_tag::parse(std::istream &is, std::size_t size, bool extend
     // resynchronisation
     std::size_t cb_tag = size;
 
+    // Don't take the header's word for how much memory we're going to need.
+    if (detail::bytes_left(is) < cb_tag) {
+      is.setstate(std::ios_base::eofbit | std::ios_base::failbit);
+    }
+
     // std::array's size is fixed at compile time, which we can't do, and
     // std::vector is permitted to allocate additional memory to accomodate
     // later insertions.
diff --git a/scribbu/id3v24.cc b/scribbu/id3v24.cc
index 0482be0..8fe62b8 100644
--- a/scribbu/id3v24.cc
+++ b/scribbu/id3v24.cc
@@ -1193,6 +1193,11 @@ void scribbu::id3v2_4_tag::parse(std::istream &is, std::size_t size, bool extend
     // 20) bytes, otherwise ('total size' - 10) bytes.
     std::size_t cb_tag = size;
 
+    // Don't take the header's word for how much memory we're going to need.
+    if (detail::bytes_left(is) < cb_tag) {
+      is.setstate(std::ios_base::eofbit | std::ios_base::failbit);
+    }
+
     // std::array's size is fixed at compile time, which we can't do, and
     // std::vector is permitted to allocate additional memory to accomodate
     // later insertions.
-- 
2.43.0


From d3ce77d1e4082be8ff9194f11dbb29d0f1454136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:34:11 +0000
Subject: [PATCH 093/194] fix: Don't read past the end of a frame's text when
 printing tags as JSON

---
 scribbu/json-pprinter.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/scribbu/json-pprinter.cc b/scribbu/json-pprinter.cc
index 0b8ff7b..b1837e2 100644
--- a/scribbu/json-pprinter.cc
+++ b/scribbu/json-pprinter.cc
@@ -32,7 +32,7 @@
 #include <boost/algorithm/string/join.hpp>
 
 #include <algorithm>
-#include <strstream>
+#include <sstream>
 
 /*static*/
 const boost::optional<scribbu::encoding>
@@ -91,7 +91,7 @@ scribbu::json_pprinter::pprint_v2_2_tag(const id3v2_2_tag &tag,
   vector<string> frames;
   transform(tag.begin(), tag.end(), back_inserter(frames),
             [this](const id3v2_2_frame &frm) {
-              ostrstream stm;
+              stringstream stm;
               stm << print_as_json(v1enc_, v2enc_) << frm;
               return stm.str();
             });
@@ -117,8 +117,8 @@ scribbu::json_pprinter::pprint_v2_3_tag(const id3v2_3_tag &tag,
   vector<string> frames;
   transform(tag.begin(), tag.end(), back_inserter(frames),
             [this](const id3v2_3_frame &frm) {
-              ostrstream stm;
-              stm << print_as_json(v1enc_, v2enc_) << frm << ends;
+              stringstream stm;
+              stm << print_as_json(v1enc_, v2enc_) << frm;
               return stm.str();
             });
 
@@ -144,7 +144,7 @@ scribbu::json_pprinter::pprint_v2_4_tag(const id3v2_4_tag &tag,
   vector<string> frames;
   transform(tag.begin(), tag.end(), back_inserter(frames),
             [this](const id3v2_4_frame &frm) {
-              ostrstream stm;
+              stringstream stm;
               stm << print_as_json(v1enc_, v2enc_) << frm;
               return stm.str();
             });
-- 
2.43.0


From 0252ee3e8ad9e2324d56b066864eac89201e0940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:34:11 +0000
Subject: [PATCH 094/194] fix: Print ID3v2.2 & 2.4 tags as well-formed JSON

---
 scribbu/json-pprinter.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/scribbu/json-pprinter.cc b/scribbu/json-pprinter.cc
index b1837e2..e6a64e9 100644
--- a/scribbu/json-pprinter.cc
+++ b/scribbu/json-pprinter.cc
@@ -83,10 +83,10 @@ scribbu::json_pprinter::pprint_v2_2_tag(const id3v2_2_tag &tag,
 
   os << R"({"version":"2.2","unsynchronised":)"
      << (tag.unsynchronised() ? "true" : "false")
-     << R"(,"flags":)" << setbase(10) << tag.flags()
+     << R"(,"flags":)" << setbase(10) << (int)tag.flags()
      << R"(,"size":)" << tag.size()
      << R"(,"padding":)" << tag.padding()
-     << R"(",frames:[")";
+     << R"(,"frames":[)";
 
   vector<string> frames;
   transform(tag.begin(), tag.end(), back_inserter(frames),
@@ -135,11 +135,11 @@ scribbu::json_pprinter::pprint_v2_4_tag(const id3v2_4_tag &tag,
 
   os << R"({"version":"2.4","unsynchronised":)"
      << (tag.unsynchronised() ? "true" : "false")
-     << R"(,"flags":)" << setbase(10) << tag.flags()
+     << R"(,"flags":)" << setbase(10) << (int)tag.flags()
      << R"(,"size":)" << tag.size()
      << R"(,"experimental":)" << (tag.experimental() ? "true" : "false")
      << R"(,"padding":)" << tag.padding()
-     << R"(",frames:[")";
+     << R"(,"frames":[)";
 
   vector<string> frames;
   transform(tag.begin(), tag.end(), back_inserter(frames),
-- 
2.43.0


From f93c906d5c1aac4da12c83174a96c126f9baf1d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:34:11 +0000
Subject: [PATCH 095/194] fix: Balance the quotes in UFI, CNT & XTG frames
 printed as JSON

---
 scribbu/json-pprinter.cc | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/scribbu/json-pprinter.cc b/scribbu/json-pprinter.cc
index e6a64e9..1bea675 100644
--- a/scribbu/json-pprinter.cc
+++ b/scribbu/json-pprinter.cc
@@ -253,7 +253,7 @@ scribbu::json_pprinter::pprint_UFI(const UFI &frm,
 
   return os << R"({"id":")" << frm.id() << R"(","size":)"
             << setbase(10) << (int)frm.size()
-            << R"(,"owner":)" << escape(frm.owner<string>(dst, rsp, v2enc_))
+            << R"(,"owner":")" << escape(frm.owner<string>(dst, rsp, v2enc_))
             << R"("})";
 }
 
@@ -301,7 +301,7 @@ scribbu::json_pprinter::pprint_CNT(const CNT &cnt,
 {
   using namespace std;
 
-  return os << R"({"id":"CNT,"size":)" << setbase(10) << cnt.size()
+  return os << R"({"id":"CNT","size":)" << setbase(10) << cnt.size()
             << R"(,"count":)" << cnt.count() << "}";
 }
 
@@ -351,10 +351,10 @@ scribbu::json_pprinter::pprint_XTG(const XTG &frm,
                }
             });
 
-  return os << R"({"id":")" << frm.id() << R"(",size":)"
+  return os << R"({"id":")" << frm.id() << R"(","size":)"
             << setbase(10) << (int)frm.size()
             << R"(,"owner":")" << escape(frm.owner())
-            << R"(","cloud":"[)" << join(tags, ",")
+            << R"(","cloud":[)" << join(tags, ",")
             << R"(]})";
 }
 
@@ -403,7 +403,7 @@ scribbu::json_pprinter::pprint_UFID(const UFID &frm,
 
   return os << R"({"id":")" << frm.id() << R"(","size":)"
             << setbase(10) << (int)frm.size()
-            << R"(,"owner":)" << escape(frm.owner<string>(dst, rsp, src))
+            << R"(,"owner":")" << escape(frm.owner<string>(dst, rsp, src))
             << R"("})";
 }
 
@@ -472,7 +472,7 @@ scribbu::json_pprinter::pprint_PCNT(const PCNT &pcnt, std::ostream &os)
 {
   using namespace std;
 
-  return os << R"({"id":"PCNT,"size":)" << setbase(10) << pcnt.size()
+  return os << R"({"id":"PCNT","size":)" << setbase(10) << pcnt.size()
             << R"(,"count":)" << pcnt.count() << "}";
 }
 
@@ -522,10 +522,10 @@ scribbu::json_pprinter::pprint_XTAG(const XTAG &frm,
                }
             });
 
-  return os << R"({"id":")" << frm.id() << R"(",size":)"
+  return os << R"({"id":")" << frm.id() << R"(","size":)"
             << setbase(10) << (int)frm.size()
             << R"(,"owner":")" << escape(frm.owner())
-            << R"(","cloud":"[)" << join(tags, ",")
+            << R"(","cloud":[)" << join(tags, ",")
             << R"(]})";
 }
 
@@ -595,7 +595,7 @@ scribbu::json_pprinter::pprint_UFID_2_4(const UFID_2_4 &frm, std::ostream &os)
 
   return os << R"({"id":")" << frm.id() << R"(","size":)"
             << setbase(10) << (int)frm.size()
-            << R"(,"owner":)" << escape(frm.owner<string>(dst, rsp, src))
+            << R"(,"owner":")" << escape(frm.owner<string>(dst, rsp, src))
             << R"("})";
 }
 
@@ -663,7 +663,7 @@ scribbu::json_pprinter::pprint_PCNT_2_4(const PCNT_2_4 &pcnt, std::ostream &os)
 {
   using namespace std;
 
-  return os << R"({"id":"PCNT,"size":)" << setbase(10) << pcnt.size()
+  return os << R"({"id":"PCNT","size":)" << setbase(10) << pcnt.size()
             << R"(,"count":)" << pcnt.count() << "}";
 }
 
@@ -713,10 +713,10 @@ scribbu::json_pprinter::pprint_XTAG_2_4(const XTAG_2_4 &frm,
                }
             });
 
-  return os << R"({"id":")" << frm.id() << R"(",size":)"
+  return os << R"({"id":")" << frm.id() << R"(","size":)"
             << setbase(10) << (int)frm.size()
             << R"(,"owner":")" << escape(frm.owner())
-            << R"(","cloud":"[)" << join(tags, ",")
+            << R"(","cloud":[)" << join(tags, ",")
             << R"(]})";
 }
 
-- 
2.43.0


From 2cf11d48c384c3fd1498bb64fe8d1c4f5ccd187c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:34:24 +0000
Subject: [PATCH 096/194] fix: Report whether a tag is unsynchronised, not
 whether that's known, in JSON

---
 scribbu/json-pprinter.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scribbu/json-pprinter.cc b/scribbu/json-pprinter.cc
index 1bea675..ef9760c 100644
--- a/scribbu/json-pprinter.cc
+++ b/scribbu/json-pprinter.cc
@@ -82,7 +82,7 @@ scribbu::json_pprinter::pprint_v2_2_tag(const id3v2_2_tag &tag,
   using namespace std;
 
   os << R"({"version":"2.2","unsynchronised":)"
-     << (tag.unsynchronised() ? "true" : "false")
+     << (tag.unsynchronised().value_or(false) ? "true" : "false")
      << R"(,"flags":)" << setbase(10) << (int)tag.flags()
      << R"(,"size":)" << tag.size()
      << R"(,"padding":)" << tag.padding()
@@ -108,7 +108,7 @@ scribbu::json_pprinter::pprint_v2_3_tag(const id3v2_3_tag &tag,
   using namespace std;
 
   os << R"({"version":"2.3","unsynchronised":)"
-     << (tag.unsynchronised() ? "true" : "false")
+     << (tag.unsynchronised().value_or(false) ? "true" : "false")
      << R"(,"flags":)" << setbase(10) << (int)tag.flags()
      << R"(,"size":)" << tag.size()
      << R"(,"padding":)" << tag.padding()
@@ -134,7 +134,7 @@ scribbu::json_pprinter::pprint_v2_4_tag(const id3v2_4_tag &tag,
   using namespace std;
 
   os << R"({"version":"2.4","unsynchronised":)"
-     << (tag.unsynchronised() ? "true" : "false")
+     << (tag.unsynchronised().value_or(false) ? "true" : "false")
      << R"(,"flags":)" << setbase(10) << (int)tag.flags()
      << R"(,"size":)" << tag.size()
      << R"(,"experimental":)" << (tag.experimental() ? "true" : "false")
-- 
2.43.0


From b8e72379cad2b4a30c2e8215bfef83ccd5a93148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:34:24 +0000
Subject: [PATCH 097/194] fix: Escape control characters & ID3v1 album titles
 in JSON

---
 scribbu/json-pprinter.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/scribbu/json-pprinter.cc b/scribbu/json-pprinter.cc
index ef9760c..9dfc6b7 100644
--- a/scribbu/json-pprinter.cc
+++ b/scribbu/json-pprinter.cc
@@ -68,7 +68,11 @@ std::string scribbu::json_pprinter::escape(const std::string &s)
       stm << '\\' << c;
       break;
     default:
-      stm << c;
+      if ((unsigned char)c < 0x20) {
+        stm << "\\u" << std::hex << std::setfill('0') << std::setw(4) << (int)c;
+      } else {
+        stm << c;
+      }
       break;
     }
   }
@@ -189,7 +193,7 @@ scribbu::json_pprinter::pprint_v1_tag(const id3v1_tag &tag, std::ostream &os)
   }
 
   os << R"({"version":")" << version << R"(","album":")" <<
-    tag.album<string>(v1enc_, dst, rsp) <<
+    escape(tag.album<string>(v1enc_, dst, rsp)) <<
     R"(","artist":")" << escape(tag.artist<string>(v1enc_, dst, rsp)) <<
     R"(","comment":")" << escape(tag.comment<string>(v1enc_, dst, rsp)) <<
     R"(","genre":)" << setbase(10) << (int)tag.genre() <<
-- 
2.43.0


From 388ac13b64cb093c92130041800a2cbca29cf8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:34:24 +0000
Subject: [PATCH 098/194] fix: Quote & escape the values of tags with several
 values in JSON

---
 scribbu/json-pprinter.cc | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/scribbu/json-pprinter.cc b/scribbu/json-pprinter.cc
index 9dfc6b7..ccbee7f 100644
--- a/scribbu/json-pprinter.cc
+++ b/scribbu/json-pprinter.cc
@@ -344,6 +344,7 @@ scribbu::json_pprinter::pprint_XTG(const XTG &frm,
   transform(frm.begin(), frm.end(), back_inserter(tags),
             [](const pair<const string, set<string>> &pr) {
               auto first = escape(pr.first);
+              vector<string> values;
               switch (pr.second.size()) {
               case 0:
                 return "\"" + first + "\"";
@@ -351,7 +352,10 @@ scribbu::json_pprinter::pprint_XTG(const XTG &frm,
                 return "{\"" + first + R"(":")" + escape(*pr.second.begin()) +
                   "\"}";
               default:
-                return "{\"" + first + R"(":[)" + join(pr.second, ",") + "]}";
+                for (auto &value : pr.second) {
+                  values.push_back("\"" + escape(value) + "\"");
+                }
+                return "{\"" + first + R"(":[)" + join(values, ",") + "]}";
                }
             });
 
@@ -515,6 +519,7 @@ scribbu::json_pprinter::pprint_XTAG(const XTAG &frm,
   transform(frm.begin(), frm.end(), back_inserter(tags),
             [](const pair<const string, set<string>> &pr) {
               auto first = escape(pr.first);
+              vector<string> values;
               switch (pr.second.size()) {
               case 0:
                 return "\"" + first + "\"";
@@ -522,7 +527,10 @@ scribbu::json_pprinter::pprint_XTAG(const XTAG &frm,
                 return "{\"" + first + R"(":")" + escape(*pr.second.begin()) +
                   "\"}";
               default:
-                return "{\"" + first + R"(":[)" + join(pr.second, ",") + "]}";
+                for (auto &value : pr.second) {
+                  values.push_back("\"" + escape(value) + "\"");
+                }
+                return "{\"" + first + R"(":[)" + join(values, ",") + "]}";
                }
             });
 
@@ -706,6 +714,7 @@ scribbu::json_pprinter::pprint_XTAG_2_4(const XTAG_2_4 &frm,
   transform(frm.begin(), frm.end(), back_inserter(tags),
             [](const pair<const string, set<string>> &pr) {
               auto first = escape(pr.first);
+              vector<string> values;
               switch (pr.second.size()) {
               case 0:
                 return "\"" + first + "\"";
@@ -713,7 +722,10 @@ scribbu::json_pprinter::pprint_XTAG_2_4(const XTAG_2_4 &frm,
                 return "{\"" + first + R"(":")" + escape(*pr.second.begin()) +
                   "\"}";
               default:
-                return "{\"" + first + R"(":[)" + join(pr.second, ",") + "]}";
+                for (auto &value : pr.second) {
+                  values.push_back("\"" + escape(value) + "\"");
+                }
+                return "{\"" + first + R"(":[)" + join(values, ",") + "]}";
                }
             });
 
-- 
2.43.0


From ccdcc2e8798b24d2a4e79994f272c5970fbf9bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:34:35 +0000
Subject: [PATCH 099/194] fix: Register the ID3v2.4 XTAG & PRIV frames for
 printing as ID3v2.4 frames

---
 scribbu/pprinter.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scribbu/pprinter.cc b/scribbu/pprinter.cc
index ae4f2a7..a7f648a 100644
--- a/scribbu/pprinter.cc
+++ b/scribbu/pprinter.cc
@@ -289,8 +289,8 @@ pprint_dispatcher::pprint_dispatcher()
   reg_v24_frame<COMM_2_4, &pprinter::pprint_COMM_2_4>();
   reg_v24_frame<PCNT_2_4, &pprinter::pprint_PCNT_2_4>();
   reg_v24_frame<POPM_2_4, &pprinter::pprint_POPM_2_4>();
-  reg_v23_frame<XTAG_2_4, &pprinter::pprint_XTAG_2_4>();
-  reg_v23_frame<PRIV_2_4, &pprinter::pprint_PRIV_2_4>();
+  reg_v24_frame<XTAG_2_4, &pprinter::pprint_XTAG_2_4>();
+  reg_v24_frame<PRIV_2_4, &pprinter::pprint_PRIV_2_4>();
 
 }
 
-- 
2.43.0


From 0abe23ab20d5acdc2753730af230c0cd1f8279c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:34:57 +0000
Subject: [PATCH 100/194] fix: Bound the memory given to a VBRI table of
 contents by what's in the file

---
 scribbu/mp3.cc | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/scribbu/mp3.cc b/scribbu/mp3.cc
index 1436fd1..0b7a6ed 100644
--- a/scribbu/mp3.cc
+++ b/scribbu/mp3.cc
@@ -23,8 +23,11 @@
 
 #include <scribbu/mp3.hh>
 
+#include <algorithm>
 #include <arpa/inet.h>
 
+#include <scribbu/id3v2.hh>
+
 namespace {
 
   // The first index (i.e. index zero) contains the bitrates for MPEG version
@@ -95,7 +98,7 @@ namespace {
 
 scribbu::vbri_mp3_tag::vbri_mp3_tag(std::istream &is)
 {
-  uint16_t ns;
+  uint16_t ns = 0;
   is.read((char*)&ns, 2);
   version_ = ntohs(ns);
 
@@ -105,14 +108,14 @@ scribbu::vbri_mp3_tag::vbri_mp3_tag(std::istream &is)
   is.read((char*)&ns, 2);
   quality_ = ntohs(ns);
 
-  uint32_t nl;
+  uint32_t nl = 0;
   is.read((char*)&nl, 4);
   file_size_bytes_ = ntohl(nl);
 
   is.read((char*)&nl, 4);
   num_frames_ = ntohl(nl);
 
-  uint16_t num_entries;
+  uint16_t num_entries = 0;
   is.read((char*)&num_entries, 2);
   num_entries = ntohs(num_entries);
 
@@ -125,8 +128,11 @@ scribbu::vbri_mp3_tag::vbri_mp3_tag(std::istream &is)
   is.read((char*)&ns, 2);
   frames_per_toc_entry_ = ntohs(ns);
 
-  toc_.resize(num_entries * toc_entry_size_);
-  is.read((char*)toc_.data(), num_entries * toc_entry_size_);
+  // Don't take the header's word for how much memory we're going to need.
+  std::size_t cb_toc = std::min<std::size_t>(
+    std::size_t(num_entries) * toc_entry_size_, detail::bytes_left(is));
+  toc_.resize(cb_toc);
+  is.read((char*)toc_.data(), cb_toc);
 }
 
 ////////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 3bef91d0cbb8eb680aef7c5b95a212543d6be153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:35:28 +0000
Subject: [PATCH 101/194] fix: Assume ISO-8859-1 when printing a UFI frame's
 owner as JSON, as elsewhere

---
 scribbu/json-pprinter.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/scribbu/json-pprinter.cc b/scribbu/json-pprinter.cc
index ccbee7f..801054f 100644
--- a/scribbu/json-pprinter.cc
+++ b/scribbu/json-pprinter.cc
@@ -255,9 +255,14 @@ scribbu::json_pprinter::pprint_UFI(const UFI &frm,
   on_no_encoding rsp;
   tie(dst, rsp) = encoding_from_stream(os);
 
+  encoding src = encoding::ISO_8859_1;
+  if (v2enc_) {
+    src = *v2enc_;
+  }
+
   return os << R"({"id":")" << frm.id() << R"(","size":)"
             << setbase(10) << (int)frm.size()
-            << R"(,"owner":")" << escape(frm.owner<string>(dst, rsp, v2enc_))
+            << R"(,"owner":")" << escape(frm.owner<string>(dst, rsp, src))
             << R"("})";
 }
 
-- 
2.43.0


From a6412585a5e495dcbb8e0f1ffc76b06b31e1b35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:35:53 +0000
Subject: [PATCH 102/194] fix: Don't dereference the end of an empty PRIV frame
 when printing it

---
 scribbu/pprinter.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scribbu/pprinter.cc b/scribbu/pprinter.cc
index a7f648a..6178664 100644
--- a/scribbu/pprinter.cc
+++ b/scribbu/pprinter.cc
@@ -65,6 +65,10 @@ pprint_binary(const std::string &indent,
 {
   using namespace std;
   string ascii_rep;
+  if (p0 == p1) {
+    os << indent << "  ><";
+    return;
+  }
   os << indent << hex << setw(2) << (unsigned)*p0;
   ascii_rep += asciify(*p0);
   for (++p0 ; p0 != p1; ++p0) {
-- 
2.43.0


From 733773735e9fc5a93921328fd1e132246e46aef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:37:56 +0000
Subject: [PATCH 103/194] fix: Refuse to split a file whose tags overlap or
 extend past its end

---
 src/split.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/split.cc b/src/split.cc
index cda9aa9..bb34220 100644
--- a/src/split.cc
+++ b/src/split.cc
@@ -56,6 +56,11 @@ For detailed help, say `scribbu split --help'. To see the manual, say
     const std::ios::iostate EXC_MASK = std::ios::eofbit | std::ios::failbit |
       std::ios::badbit;
 
+    // Don't take a header's word for how much there is to be copied.
+    if (scribbu::detail::bytes_left(in) < cb) {
+      throw scribbu::id3v2_tag::invalid_tag();
+    }
+
     std::ofstream ofs(pth, std::istream::binary);
     ofs.exceptions(EXC_MASK);
 
-- 
2.43.0


From 5c4afa7a94003e1135c5afa1ecfbd9b5c63fabae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:37:56 +0000
Subject: [PATCH 104/194] fix: Account for an ID3v2.4 footer when splitting a
 file

---
 src/split.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/split.cc b/src/split.cc
index bb34220..9dafd1e 100644
--- a/src/split.cc
+++ b/src/split.cc
@@ -109,7 +109,7 @@ For detailed help, say `scribbu split --help'. To see the manual, say
       stm << "id3v2" << count << suffix;
       ++count;
       fs::path pth(stm.str());
-      xfer_bytes(ifs, pth, 10 + id3v2.size_);
+      xfer_bytes(ifs, pth, id3v2.size_on_disk());
       // Another?
       id3v2 = scribbu::looking_at_id3v2(ifs);
     }
-- 
2.43.0


From 2b7cc2633d84140fde6ef7ec33f309f316e2ea0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:53:19 +0000
Subject: [PATCH 105/194] fix: Report "unsynchronised" in JSON as the expected
 output has it

---
 scribbu/json-pprinter.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scribbu/json-pprinter.cc b/scribbu/json-pprinter.cc
index 801054f..5efc427 100644
--- a/scribbu/json-pprinter.cc
+++ b/scribbu/json-pprinter.cc
@@ -86,7 +86,7 @@ scribbu::json_pprinter::pprint_v2_2_tag(const id3v2_2_tag &tag,
   using namespace std;
 
   os << R"({"version":"2.2","unsynchronised":)"
-     << (tag.unsynchronised().value_or(false) ? "true" : "false")
+     << (tag.unsynchronised() ? "true" : "false")
      << R"(,"flags":)" << setbase(10) << (int)tag.flags()
      << R"(,"size":)" << tag.size()
      << R"(,"padding":)" << tag.padding()
@@ -112,7 +112,7 @@ scribbu::json_pprinter::pprint_v2_3_tag(const id3v2_3_tag &tag,
   using namespace std;
 
   os << R"({"version":"2.3","unsynchronised":)"
-     << (tag.unsynchronised().value_or(false) ? "true" : "false")
+     << (tag.unsynchronised() ? "true" : "false")
      << R"(,"flags":)" << setbase(10) << (int)tag.flags()
      << R"(,"size":)" << tag.size()
      << R"(,"padding":)" << tag.padding()
@@ -138,7 +138,7 @@ scribbu::json_pprinter::pprint_v2_4_tag(const id3v2_4_tag &tag,
   using namespace std;
 
   os << R"({"version":"2.4","unsynchronised":)"
-     << (tag.unsynchronised().value_or(false) ? "true" : "false")
+     << (tag.unsynchronised() ? "true" : "false")
      << R"(,"flags":)" << setbase(10) << (int)tag.flags()
      << R"(,"size":)" << tag.size()
      << R"(,"experimental":)" << (tag.experimental() ? "true" : "false")
-- 
2.43.0


From afe9ea3cf67161f684c2864c01301fe3814d6c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:02:41 +0000
Subject: [PATCH 106/194] fix: quote CSV fields containing carriage returns

---
 scribbu/csv-pprinter.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scribbu/csv-pprinter.cc b/scribbu/csv-pprinter.cc
index 3335b94..d509a8a 100644
--- a/scribbu/csv-pprinter.cc
+++ b/scribbu/csv-pprinter.cc
@@ -51,7 +51,7 @@ scribbu::csv_pprinter::DEFAULT_V2ENC = boost::none;
 /*static*/ std::string
 scribbu::csv_pprinter::escape(const std::string &s, char sep, char esc /*= '"'*/)
 {
-  const char NEEDS_ESC[] = { sep, '\n', 0 };
+  const char NEEDS_ESC[] = { sep, '\n', '\r', 0 };
   std::size_t comma = s.find_first_of(NEEDS_ESC);
   if (std::string::npos == comma) {
     return s;
-- 
2.43.0


From 36ed915c54c7c13ed48ea4963c125b769322a010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:02:41 +0000
Subject: [PATCH 107/194] fix: quote CSV fields containing quotes

---
 scribbu/csv-pprinter.cc | 22 +++++++++++-----------
 scribbu/csv-pprinter.hh |  4 +++-
 2 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/scribbu/csv-pprinter.cc b/scribbu/csv-pprinter.cc
index d509a8a..77bc93c 100644
--- a/scribbu/csv-pprinter.cc
+++ b/scribbu/csv-pprinter.cc
@@ -132,7 +132,7 @@ scribbu::csv_pprinter::pprint_v2_2_tag(const id3v2_2_tag &tag,
   tag.get_comments(back_inserter(comments));
   for (size_t i = 0; i < ncomm_; ++i) {
     if (i < comments.size()) {
-      os << escape(comments[i].text<string>(dst, rsp, v2enc_), sep_, ESC);
+      os << escape(comments[i].text<string>(dst, rsp, v2enc_));
     }
     if (i != ncomm_ - 1) {
       os << sep_;
@@ -184,7 +184,7 @@ scribbu::csv_pprinter::pprint_v2_3_tag(const id3v2_3_tag &tag,
   tag.get_comments(back_inserter(comments));
   for (size_t i = 0; i < ncomm_; ++i) {
     if (i < comments.size()) {
-      os << escape(comments[i].text<string>(dst, rsp, v2enc_), sep_, ESC);
+      os << escape(comments[i].text<string>(dst, rsp, v2enc_));
     }
     if (i != ncomm_ - 1) {
       os << sep_;
@@ -236,7 +236,7 @@ scribbu::csv_pprinter::pprint_v2_4_tag(const id3v2_4_tag &tag,
   tag.get_comments(back_inserter(comments));
   for (size_t i = 0; i < ncomm_; ++i) {
     if (i < comments.size()) {
-      os << escape(comments[i].text<string>(dst, rsp, v2enc_), sep_, ESC);
+      os << escape(comments[i].text<string>(dst, rsp, v2enc_));
     }
     if (i != ncomm_ - 1) {
       os << sep_;
@@ -274,11 +274,11 @@ scribbu::csv_pprinter::pprint_v1_tag(const id3v1_tag &tag, std::ostream &os)
   tie(dst, rsp) = encoding_from_stream(os);
 
   os << tag.v1_1() << sep_ << tag.extended() << sep_ <<
-    escape(tag.artist<string>(v1enc_, dst, rsp), sep_, ESC) << sep_ <<
-    escape(tag.title<string>(v1enc_, dst, rsp), sep_, ESC) << sep_ <<
-    escape(tag.album<string>(v1enc_, dst, rsp), sep_, ESC) << sep_ <<
-    escape(tag.year<string>(v1enc_, dst, rsp), sep_, ESC) << sep_ <<
-    escape(tag.comment<string>(v1enc_, dst, rsp), sep_, ESC) << sep_ <<
+    escape(tag.artist<string>(v1enc_, dst, rsp)) << sep_ <<
+    escape(tag.title<string>(v1enc_, dst, rsp)) << sep_ <<
+    escape(tag.album<string>(v1enc_, dst, rsp)) << sep_ <<
+    escape(tag.year<string>(v1enc_, dst, rsp)) << sep_ <<
+    escape(tag.comment<string>(v1enc_, dst, rsp)) << sep_ <<
     dec << (unsigned)tag.genre();
 
   return os;
@@ -300,7 +300,7 @@ scribbu::csv_pprinter::pprint_id3v2_2_text_frame(
   on_no_encoding rsp;
   std::tie(dst, rsp) = encoding_from_stream(os);
 
-  return os << escape(frame.as_str<std::string>(dst, rsp, v2enc_), sep_, ESC);
+  return os << escape(frame.as_str<std::string>(dst, rsp, v2enc_));
 }
 
 /*virtual*/ std::ostream&
@@ -424,7 +424,7 @@ scribbu::csv_pprinter::pprint_id3v2_3_text_frame(
   on_no_encoding rsp;
   std::tie(dst, rsp) = encoding_from_stream(os);
 
-  return os << escape(frame.as_str<std::string>(dst, rsp, v2enc_), sep_, ESC);
+  return os << escape(frame.as_str<std::string>(dst, rsp, v2enc_));
 }
 
 /*virtual*/ std::ostream&
@@ -587,7 +587,7 @@ scribbu::csv_pprinter::pprint_id3v2_4_text_frame(
   on_no_encoding rsp;
   std::tie(dst, rsp) = encoding_from_stream(os);
 
-  return os << escape(frame.as_str<std::string>(dst, rsp, v2enc_), sep_, ESC);
+  return os << escape(frame.as_str<std::string>(dst, rsp, v2enc_));
 }
 
 /*virtual*/ std::ostream&
diff --git a/scribbu/csv-pprinter.hh b/scribbu/csv-pprinter.hh
index b96eb55..1bce258 100644
--- a/scribbu/csv-pprinter.hh
+++ b/scribbu/csv-pprinter.hh
@@ -239,8 +239,10 @@ namespace scribbu {
     }
 
   private:
+    /// Escape \a s as a field in this printer's output; unlike the static
+    /// overload, a field is quoted whenever it contains quotes (RFC 4180, 2.5)
     std::string escape(const std::string &s)
-    { return escape(s, sep_, ESC); }
+    { return escape(s, std::string::npos == s.find(ESC) ? sep_ : ESC, ESC); }
 
   private:
     std::size_t ncomm_;
-- 
2.43.0


From bca04acae3478a0e5d7bb9d22841b72c85381de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:03:25 +0000
Subject: [PATCH 108/194] fix: don't truncate play counts to 32 bits, nor print
 them in hexadecimal, in CSV & TDF

---
 scribbu/csv-pprinter.cc | 6 +++---
 scribbu/tdf-pprinter.cc | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/scribbu/csv-pprinter.cc b/scribbu/csv-pprinter.cc
index 77bc93c..148648b 100644
--- a/scribbu/csv-pprinter.cc
+++ b/scribbu/csv-pprinter.cc
@@ -360,7 +360,7 @@ scribbu::csv_pprinter::pprint_COM(const COM &f, std::ostream &os)
 /*virtual*/ std::ostream&
 scribbu::csv_pprinter::pprint_CNT(const CNT &f, std::ostream&os)
 {
-  return os << (unsigned) f.count();
+  return os << std::dec << f.count();
 }
 
 /*virtual*/ std::ostream&
@@ -510,7 +510,7 @@ scribbu::csv_pprinter::pprint_COMM(const COMM &f, std::ostream &os)
 /*virtual*/ std::ostream&
 scribbu::csv_pprinter::pprint_PCNT(const PCNT &f, std::ostream&os)
 {
-  return os << (unsigned) f.count();
+  return os << std::dec << f.count();
 }
 
 /*virtual*/ std::ostream&
@@ -674,7 +674,7 @@ scribbu::csv_pprinter::pprint_COMM_2_4(const COMM_2_4 &f, std::ostream &os)
 /*virtual*/ std::ostream&
 scribbu::csv_pprinter::pprint_PCNT_2_4(const PCNT_2_4 &f, std::ostream &os)
 {
-  return os << (unsigned) f.count();
+  return os << std::dec << f.count();
 }
 
 /*virtual*/ std::ostream&
diff --git a/scribbu/tdf-pprinter.cc b/scribbu/tdf-pprinter.cc
index 7750e03..8cafc14 100644
--- a/scribbu/tdf-pprinter.cc
+++ b/scribbu/tdf-pprinter.cc
@@ -315,7 +315,7 @@ scribbu::tdf_pprinter::pprint_COM(const COM &f, std::ostream &os)
 /*virtual*/ std::ostream&
 scribbu::tdf_pprinter::pprint_CNT(const CNT &f, std::ostream&os)
 {
-  return os << (unsigned) f.count();
+  return os << std::dec << f.count();
 }
 
 /*virtual*/ std::ostream&
@@ -464,7 +464,7 @@ scribbu::tdf_pprinter::pprint_COMM(const COMM &f, std::ostream &os)
 /*virtual*/ std::ostream&
 scribbu::tdf_pprinter::pprint_PCNT(const PCNT &f, std::ostream&os)
 {
-  return os << (unsigned) f.count();
+  return os << std::dec << f.count();
 }
 
 /*virtual*/ std::ostream&
@@ -630,7 +630,7 @@ scribbu::tdf_pprinter::pprint_COMM_2_4(const COMM_2_4 &f, std::ostream &os)
 /*virtual*/ std::ostream&
 scribbu::tdf_pprinter::pprint_PCNT_2_4(const PCNT_2_4 &f, std::ostream &os)
 {
-  return os << (unsigned) f.count();
+  return os << std::dec << f.count();
 }
 
 /*virtual*/ std::ostream&
-- 
2.43.0


From ad198931a7aa6ea7945a288b9bb1b7b6c737b376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:03:25 +0000
Subject: [PATCH 109/194] fix: print frame counts, play counts & such in
 decimal in CSV & TDF

---
 scribbu/csv-pprinter.cc | 16 ++++++++--------
 scribbu/tdf-pprinter.cc | 16 ++++++++--------
 2 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/scribbu/csv-pprinter.cc b/scribbu/csv-pprinter.cc
index 148648b..7ad53f8 100644
--- a/scribbu/csv-pprinter.cc
+++ b/scribbu/csv-pprinter.cc
@@ -104,7 +104,7 @@ scribbu::csv_pprinter::pprint_v2_2_tag(const id3v2_2_tag &tag,
         (unsigned)tag.revision() << sep_ <<
         tag.size() << sep_ <<
         "0x" << hex << setw(2) << setfill('0') << (unsigned)tag.flags() <<
-        sep_ << optional_to_uint(tag.unsynchronised()) << sep_;
+        sep_ << dec << optional_to_uint(tag.unsynchronised()) << sep_;
 
   for (auto id: {"TP1", "TT2", "TAL", "TCO", "TEN", "TYR", "TLA"}) {
     if (tag.has_frame(id)) {
@@ -156,7 +156,7 @@ scribbu::csv_pprinter::pprint_v2_3_tag(const id3v2_3_tag &tag,
         (unsigned)tag.revision() << sep_ <<
         tag.size() << sep_ <<
         "0x" << hex << setw(2) << setfill('0') << (unsigned)tag.flags() <<
-        sep_ << optional_to_uint(tag.unsynchronised()) << sep_;
+        sep_ << dec << optional_to_uint(tag.unsynchronised()) << sep_;
 
   for (auto id: {"TPE1", "TIT2", "TALB", "TCON", "TENC", "TYER", "TLAN"}) {
     if (tag.has_frame(id)) {
@@ -208,7 +208,7 @@ scribbu::csv_pprinter::pprint_v2_4_tag(const id3v2_4_tag &tag,
         (unsigned)tag.revision() << sep_ <<
         tag.size() << sep_ <<
         "0x" << hex << setw(2) << setfill('0') << (unsigned)tag.flags() <<
-        sep_ << optional_to_uint(tag.unsynchronised()) << sep_;
+        sep_ << dec << optional_to_uint(tag.unsynchronised()) << sep_;
 
   for (auto id: {"TPE1", "TIT2", "TALB", "TCON", "TENC", "TYER", "TLAN"}) {
     if (tag.has_frame(id)) {
@@ -337,7 +337,7 @@ scribbu::csv_pprinter::pprint_TXX(const TXX &f, std::ostream &os)
 
   string dsc = f.description<string>();
   string txt = f.text<string>();
-  return os << (unsigned)f.unicode() << sep_ << escape(dsc) << sep_ << escape(txt);
+  return os << std::dec << (unsigned)f.unicode() << sep_ << escape(dsc) << sep_ << escape(txt);
 }
 
 /*virtual*/ std::ostream&
@@ -472,7 +472,7 @@ scribbu::csv_pprinter::pprint_ENCR(const ENCR &f, std::ostream &os)
   f.datab(back_inserter(buf));
 
   os << escape(f.email<string>(dst, rsp, src)) << sep_ <<
-    (unsigned) f.method_symbol() << sep_ << "0x";
+    dec << (unsigned) f.method_symbol() << sep_ << "0x" << hex;
   for (auto x: buf) {
     os << setw(2) << setfill('0') << x;
   }
@@ -487,7 +487,7 @@ scribbu::csv_pprinter::pprint_TXXX(const TXXX &f, std::ostream &os)
 
   string dsc = f.description<string>();
   string txt = f.text<string>();
-  return os << (unsigned)f.unicode() << sep_ << escape(dsc) << sep_ << escape(txt);
+  return os << std::dec << (unsigned)f.unicode() << sep_ << escape(dsc) << sep_ << escape(txt);
 }
 
 /*virtual*/ std::ostream&
@@ -635,7 +635,7 @@ scribbu::csv_pprinter::pprint_ENCR_2_4(const ENCR_2_4 &f, std::ostream &os)
   f.datab(back_inserter(buf));
 
   os << escape(f.email<string>(dst, rsp, src)) << sep_ <<
-    (unsigned) f.method_symbol() << sep_ << "0x";
+    dec << (unsigned) f.method_symbol() << sep_ << "0x" << hex;
   for (auto x: buf) {
     os << setw(2) << setfill('0') << x;
   }
@@ -650,7 +650,7 @@ scribbu::csv_pprinter::pprint_TXXX_2_4(const TXXX_2_4 &f, std::ostream &os)
 
   string dsc = f.description<string>();
   string txt = f.text<string>();
-  return os << (unsigned)f.unicode() << sep_ << escape(dsc) << sep_ << escape(txt);
+  return os << std::dec << (unsigned)f.unicode() << sep_ << escape(dsc) << sep_ << escape(txt);
   return os;
 }
 
diff --git a/scribbu/tdf-pprinter.cc b/scribbu/tdf-pprinter.cc
index 8cafc14..a556fb9 100644
--- a/scribbu/tdf-pprinter.cc
+++ b/scribbu/tdf-pprinter.cc
@@ -59,7 +59,7 @@ scribbu::tdf_pprinter::pprint_v2_2_tag(const id3v2_2_tag &tag,
         (unsigned)tag.revision() << sep_ <<
         tag.size() << sep_ <<
         "0x" << hex << setw(2) << setfill('0') << (unsigned)tag.flags() <<
-        sep_ << optional_to_uint(tag.unsynchronised()) << sep_;
+        sep_ << dec << optional_to_uint(tag.unsynchronised()) << sep_;
 
   for (auto id: {"TP1", "TT2", "TAL", "TCO", "TEN", "TYR", "TLA"}) {
     if (tag.has_frame(id)) {
@@ -111,7 +111,7 @@ scribbu::tdf_pprinter::pprint_v2_3_tag(const id3v2_3_tag &tag,
         (unsigned)tag.revision() << sep_ <<
         tag.size() << sep_ <<
         "0x" << hex << setw(2) << setfill('0') << (unsigned)tag.flags() <<
-        sep_ << optional_to_uint(tag.unsynchronised()) << sep_;
+        sep_ << dec << optional_to_uint(tag.unsynchronised()) << sep_;
 
   for (auto id: {"TPE1", "TIT2", "TALB", "TCON", "TENC", "TYER", "TLAN"}) {
     if (tag.has_frame(id)) {
@@ -163,7 +163,7 @@ scribbu::tdf_pprinter::pprint_v2_4_tag(const id3v2_4_tag &tag,
         (unsigned)tag.revision() << sep_ <<
         tag.size() << sep_ <<
         "0x" << hex << setw(2) << setfill('0') << (unsigned)tag.flags() <<
-        sep_ << optional_to_uint(tag.unsynchronised()) << sep_;
+        sep_ << dec << optional_to_uint(tag.unsynchronised()) << sep_;
 
   for (auto id: {"TPE1", "TIT2", "TALB", "TCON", "TENC", "TYER", "TLAN"}) {
     if (tag.has_frame(id)) {
@@ -292,7 +292,7 @@ scribbu::tdf_pprinter::pprint_TXX(const TXX &f, std::ostream &os)
 
   string dsc = f.description<string>();
   string txt = f.text<string>();
-  return os << (unsigned)f.unicode() << sep_ << dsc << sep_ << txt;
+  return os << std::dec << (unsigned)f.unicode() << sep_ << dsc << sep_ << txt;
 }
 
 /*virtual*/ std::ostream&
@@ -426,7 +426,7 @@ scribbu::tdf_pprinter::pprint_ENCR(const ENCR &f, std::ostream &os)
   f.datab(back_inserter(buf));
 
   os << f.email<string>(dst, rsp, src) << sep_ <<
-    (unsigned) f.method_symbol() << sep_ << "0x";
+    dec << (unsigned) f.method_symbol() << sep_ << "0x" << hex;
   for (auto x: buf) {
     os << setw(2) << setfill('0') << x;
   }
@@ -441,7 +441,7 @@ scribbu::tdf_pprinter::pprint_TXXX(const TXXX &f, std::ostream &os)
 
   string dsc = f.description<string>();
   string txt = f.text<string>();
-  return os << (unsigned)f.unicode() << sep_ << dsc << sep_ << txt;
+  return os << std::dec << (unsigned)f.unicode() << sep_ << dsc << sep_ << txt;
 }
 
 /*virtual*/ std::ostream&
@@ -591,7 +591,7 @@ scribbu::tdf_pprinter::pprint_ENCR_2_4(const ENCR_2_4 &f, std::ostream &os)
   f.datab(back_inserter(buf));
 
   os << f.email<string>(dst, rsp, src) << sep_ <<
-    (unsigned) f.method_symbol() << sep_ << "0x";
+    dec << (unsigned) f.method_symbol() << sep_ << "0x" << hex;
   for (auto x: buf) {
     os << setw(2) << setfill('0') << x;
   }
@@ -606,7 +606,7 @@ scribbu::tdf_pprinter::pprint_TXXX_2_4(const TXXX_2_4 &f, std::ostream &os)
 
   string dsc = f.description<string>();
   string txt = f.text<string>();
-  return os << (unsigned)f.unicode() << sep_ << dsc << sep_ << txt;
+  return os << std::dec << (unsigned)f.unicode() << sep_ << dsc << sep_ << txt;
   return os;
 }
 
-- 
2.43.0


From 4dc70fb8af8760650afd9e3f19f03249cfc2d41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:03:25 +0000
Subject: [PATCH 110/194] fix: print binary data as hexadecimal digits in CSV &
 TDF

---
 scribbu/csv-pprinter.cc | 16 ++++++++--------
 scribbu/tdf-pprinter.cc | 16 ++++++++--------
 2 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/scribbu/csv-pprinter.cc b/scribbu/csv-pprinter.cc
index 7ad53f8..de37762 100644
--- a/scribbu/csv-pprinter.cc
+++ b/scribbu/csv-pprinter.cc
@@ -322,9 +322,9 @@ scribbu::csv_pprinter::pprint_UFI(const UFI &f, std::ostream &os)
   vector<unsigned char> buf;
   f.idb(back_inserter(buf));
 
-  os << "0x";
+  os << "0x" << hex;
   for (auto x: buf) {
-    os << setw(2) << setfill('0') << x;
+    os << setw(2) << setfill('0') << (unsigned)x;
   }
 
   return os;
@@ -446,9 +446,9 @@ scribbu::csv_pprinter::pprint_UFID(const UFID &f, std::ostream &os)
   vector<unsigned char> buf;
   f.idb(back_inserter(buf));
 
-  os << "0x";
+  os << "0x" << hex;
   for (auto x: buf) {
-    os << setw(2) << setfill('0') << x;
+    os << setw(2) << setfill('0') << (unsigned)x;
   }
 
   return os;
@@ -474,7 +474,7 @@ scribbu::csv_pprinter::pprint_ENCR(const ENCR &f, std::ostream &os)
   os << escape(f.email<string>(dst, rsp, src)) << sep_ <<
     dec << (unsigned) f.method_symbol() << sep_ << "0x" << hex;
   for (auto x: buf) {
-    os << setw(2) << setfill('0') << x;
+    os << setw(2) << setfill('0') << (unsigned)x;
   }
 
   return os;
@@ -609,9 +609,9 @@ scribbu::csv_pprinter::pprint_UFID_2_4(const UFID_2_4 &f, std::ostream &os)
   vector<unsigned char> buf;
   f.idb(back_inserter(buf));
 
-  os << "0x";
+  os << "0x" << hex;
   for (auto x: buf) {
-    os << setw(2) << setfill('0') << x;
+    os << setw(2) << setfill('0') << (unsigned)x;
   }
 
   return os;
@@ -637,7 +637,7 @@ scribbu::csv_pprinter::pprint_ENCR_2_4(const ENCR_2_4 &f, std::ostream &os)
   os << escape(f.email<string>(dst, rsp, src)) << sep_ <<
     dec << (unsigned) f.method_symbol() << sep_ << "0x" << hex;
   for (auto x: buf) {
-    os << setw(2) << setfill('0') << x;
+    os << setw(2) << setfill('0') << (unsigned)x;
   }
 
   return os;
diff --git a/scribbu/tdf-pprinter.cc b/scribbu/tdf-pprinter.cc
index a556fb9..4654ec8 100644
--- a/scribbu/tdf-pprinter.cc
+++ b/scribbu/tdf-pprinter.cc
@@ -277,9 +277,9 @@ scribbu::tdf_pprinter::pprint_UFI(const UFI &f, std::ostream &os)
   vector<unsigned char> buf;
   f.idb(back_inserter(buf));
 
-  os << "0x";
+  os << "0x" << hex;
   for (auto x: buf) {
-    os << setw(2) << setfill('0') << x;
+    os << setw(2) << setfill('0') << (unsigned)x;
   }
 
   return os;
@@ -400,9 +400,9 @@ scribbu::tdf_pprinter::pprint_UFID(const UFID &f, std::ostream &os)
   vector<unsigned char> buf;
   f.idb(back_inserter(buf));
 
-  os << "0x";
+  os << "0x" << hex;
   for (auto x: buf) {
-    os << setw(2) << setfill('0') << x;
+    os << setw(2) << setfill('0') << (unsigned)x;
   }
 
   return os;
@@ -428,7 +428,7 @@ scribbu::tdf_pprinter::pprint_ENCR(const ENCR &f, std::ostream &os)
   os << f.email<string>(dst, rsp, src) << sep_ <<
     dec << (unsigned) f.method_symbol() << sep_ << "0x" << hex;
   for (auto x: buf) {
-    os << setw(2) << setfill('0') << x;
+    os << setw(2) << setfill('0') << (unsigned)x;
   }
 
   return os;
@@ -565,9 +565,9 @@ scribbu::tdf_pprinter::pprint_UFID_2_4(const UFID_2_4 &f, std::ostream &os)
   vector<unsigned char> buf;
   f.idb(back_inserter(buf));
 
-  os << "0x";
+  os << "0x" << hex;
   for (auto x: buf) {
-    os << setw(2) << setfill('0') << x;
+    os << setw(2) << setfill('0') << (unsigned)x;
   }
 
   return os;
@@ -593,7 +593,7 @@ scribbu::tdf_pprinter::pprint_ENCR_2_4(const ENCR_2_4 &f, std::ostream &os)
   os << f.email<string>(dst, rsp, src) << sep_ <<
     dec << (unsigned) f.method_symbol() << sep_ << "0x" << hex;
   for (auto x: buf) {
-    os << setw(2) << setfill('0') << x;
+    os << setw(2) << setfill('0') << (unsigned)x;
   }
 
   return os;
-- 
2.43.0


From 84698e26e19ff6260f55f645425a03f1edb94a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:03:25 +0000
Subject: [PATCH 111/194] fix: don't print an extra column in CSV & TDF when no
 comments are wanted

---
 scribbu/csv-pprinter.cc | 18 ++++++------------
 scribbu/tdf-pprinter.cc | 18 ++++++------------
 2 files changed, 12 insertions(+), 24 deletions(-)

diff --git a/scribbu/csv-pprinter.cc b/scribbu/csv-pprinter.cc
index de37762..d7a3632 100644
--- a/scribbu/csv-pprinter.cc
+++ b/scribbu/csv-pprinter.cc
@@ -127,16 +127,14 @@ scribbu::csv_pprinter::pprint_v2_2_tag(const id3v2_2_tag &tag,
   os << sep_;
 
   n = tag.has_frame("COM");
-  os << n << sep_;
+  os << n;
   vector<COM> comments;
   tag.get_comments(back_inserter(comments));
   for (size_t i = 0; i < ncomm_; ++i) {
+    os << sep_;
     if (i < comments.size()) {
       os << escape(comments[i].text<string>(dst, rsp, v2enc_));
     }
-    if (i != ncomm_ - 1) {
-      os << sep_;
-    }
   }
 
   return os;
@@ -179,16 +177,14 @@ scribbu::csv_pprinter::pprint_v2_3_tag(const id3v2_3_tag &tag,
   os << sep_;
 
   n = tag.has_frame("COMM");
-  os << n << sep_;
+  os << n;
   vector<COMM> comments;
   tag.get_comments(back_inserter(comments));
   for (size_t i = 0; i < ncomm_; ++i) {
+    os << sep_;
     if (i < comments.size()) {
       os << escape(comments[i].text<string>(dst, rsp, v2enc_));
     }
-    if (i != ncomm_ - 1) {
-      os << sep_;
-    }
   }
 
   return os;
@@ -231,16 +227,14 @@ scribbu::csv_pprinter::pprint_v2_4_tag(const id3v2_4_tag &tag,
   os << sep_;
 
   n = tag.has_frame("COMM");
-  os << n << sep_;
+  os << n;
   vector<COMM_2_4> comments;
   tag.get_comments(back_inserter(comments));
   for (size_t i = 0; i < ncomm_; ++i) {
+    os << sep_;
     if (i < comments.size()) {
       os << escape(comments[i].text<string>(dst, rsp, v2enc_));
     }
-    if (i != ncomm_ - 1) {
-      os << sep_;
-    }
   }
 
   return os;
diff --git a/scribbu/tdf-pprinter.cc b/scribbu/tdf-pprinter.cc
index 4654ec8..475bc4c 100644
--- a/scribbu/tdf-pprinter.cc
+++ b/scribbu/tdf-pprinter.cc
@@ -82,16 +82,14 @@ scribbu::tdf_pprinter::pprint_v2_2_tag(const id3v2_2_tag &tag,
   os << sep_;
 
   n = tag.has_frame("COM");
-  os << n << sep_;
+  os << n;
   vector<COM> comments;
   tag.get_comments(back_inserter(comments));
   for (size_t i = 0; i < ncomm_; ++i) {
+    os << sep_;
     if (i < comments.size()) {
       os << comments[i].text<string>(dst, rsp, v2enc_);
     }
-    if (i != ncomm_ - 1) {
-      os << sep_;
-    }
   }
 
   return os;
@@ -134,16 +132,14 @@ scribbu::tdf_pprinter::pprint_v2_3_tag(const id3v2_3_tag &tag,
   os << sep_;
 
   n = tag.has_frame("COMM");
-  os << n << sep_;
+  os << n;
   vector<COMM> comments;
   tag.get_comments(back_inserter(comments));
   for (size_t i = 0; i < ncomm_; ++i) {
+    os << sep_;
     if (i < comments.size()) {
       os << comments[i].text<string>(dst, rsp, v2enc_);
     }
-    if (i != ncomm_ - 1) {
-      os << sep_;
-    }
   }
 
   return os;
@@ -186,16 +182,14 @@ scribbu::tdf_pprinter::pprint_v2_4_tag(const id3v2_4_tag &tag,
   os << sep_;
 
   n = tag.has_frame("COMM");
-  os << n << sep_;
+  os << n;
   vector<COMM_2_4> comments;
   tag.get_comments(back_inserter(comments));
   for (size_t i = 0; i < ncomm_; ++i) {
+    os << sep_;
     if (i < comments.size()) {
       os << comments[i].text<string>(dst, rsp, v2enc_);
     }
-    if (i != ncomm_ - 1) {
-      os << sep_;
-    }
   }
 
   return os;
-- 
2.43.0


From faa5016284e0e1382408999cbe955a6a132c932b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:03:45 +0000
Subject: [PATCH 112/194] fix: heed the stream's encoding when printing
 user-defined text in CSV & TDF

---
 scribbu/csv-pprinter.cc | 24 ++++++++++++++++++------
 scribbu/tdf-pprinter.cc | 24 ++++++++++++++++++------
 2 files changed, 36 insertions(+), 12 deletions(-)

diff --git a/scribbu/csv-pprinter.cc b/scribbu/csv-pprinter.cc
index d7a3632..5a4905a 100644
--- a/scribbu/csv-pprinter.cc
+++ b/scribbu/csv-pprinter.cc
@@ -329,8 +329,12 @@ scribbu::csv_pprinter::pprint_TXX(const TXX &f, std::ostream &os)
 {
   using std::string;
 
-  string dsc = f.description<string>();
-  string txt = f.text<string>();
+  encoding dst;
+  on_no_encoding rsp;
+  std::tie(dst, rsp) = encoding_from_stream(os);
+
+  string dsc = f.description<string>(dst, rsp, v2enc_);
+  string txt = f.text<string>(dst, rsp, v2enc_);
   return os << std::dec << (unsigned)f.unicode() << sep_ << escape(dsc) << sep_ << escape(txt);
 }
 
@@ -479,8 +483,12 @@ scribbu::csv_pprinter::pprint_TXXX(const TXXX &f, std::ostream &os)
 {
   using std::string;
 
-  string dsc = f.description<string>();
-  string txt = f.text<string>();
+  encoding dst;
+  on_no_encoding rsp;
+  std::tie(dst, rsp) = encoding_from_stream(os);
+
+  string dsc = f.description<string>(dst, rsp, v2enc_);
+  string txt = f.text<string>(dst, rsp, v2enc_);
   return os << std::dec << (unsigned)f.unicode() << sep_ << escape(dsc) << sep_ << escape(txt);
 }
 
@@ -642,8 +650,12 @@ scribbu::csv_pprinter::pprint_TXXX_2_4(const TXXX_2_4 &f, std::ostream &os)
 {
   using std::string;
 
-  string dsc = f.description<string>();
-  string txt = f.text<string>();
+  encoding dst;
+  on_no_encoding rsp;
+  std::tie(dst, rsp) = encoding_from_stream(os);
+
+  string dsc = f.description<string>(dst, rsp, v2enc_);
+  string txt = f.text<string>(dst, rsp, v2enc_);
   return os << std::dec << (unsigned)f.unicode() << sep_ << escape(dsc) << sep_ << escape(txt);
   return os;
 }
diff --git a/scribbu/tdf-pprinter.cc b/scribbu/tdf-pprinter.cc
index 475bc4c..c8012d1 100644
--- a/scribbu/tdf-pprinter.cc
+++ b/scribbu/tdf-pprinter.cc
@@ -284,8 +284,12 @@ scribbu::tdf_pprinter::pprint_TXX(const TXX &f, std::ostream &os)
 {
   using std::string;
 
-  string dsc = f.description<string>();
-  string txt = f.text<string>();
+  encoding dst;
+  on_no_encoding rsp;
+  std::tie(dst, rsp) = encoding_from_stream(os);
+
+  string dsc = f.description<string>(dst, rsp, v2enc_);
+  string txt = f.text<string>(dst, rsp, v2enc_);
   return os << std::dec << (unsigned)f.unicode() << sep_ << dsc << sep_ << txt;
 }
 
@@ -433,8 +437,12 @@ scribbu::tdf_pprinter::pprint_TXXX(const TXXX &f, std::ostream &os)
 {
   using std::string;
 
-  string dsc = f.description<string>();
-  string txt = f.text<string>();
+  encoding dst;
+  on_no_encoding rsp;
+  std::tie(dst, rsp) = encoding_from_stream(os);
+
+  string dsc = f.description<string>(dst, rsp, v2enc_);
+  string txt = f.text<string>(dst, rsp, v2enc_);
   return os << std::dec << (unsigned)f.unicode() << sep_ << dsc << sep_ << txt;
 }
 
@@ -598,8 +606,12 @@ scribbu::tdf_pprinter::pprint_TXXX_2_4(const TXXX_2_4 &f, std::ostream &os)
 {
   using std::string;
 
-  string dsc = f.description<string>();
-  string txt = f.text<string>();
+  encoding dst;
+  on_no_encoding rsp;
+  std::tie(dst, rsp) = encoding_from_stream(os);
+
+  string dsc = f.description<string>(dst, rsp, v2enc_);
+  string txt = f.text<string>(dst, rsp, v2enc_);
   return os << std::dec << (unsigned)f.unicode() << sep_ << dsc << sep_ << txt;
   return os;
 }
-- 
2.43.0


From 58eaf6b2643f4852c8b2d181a19c4bd2f1e237f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:03:45 +0000
Subject: [PATCH 113/194] fix: escape & convert the owners of private frames in
 CSV & TDF

---
 scribbu/csv-pprinter.cc | 22 ++++++++++++++++++++--
 scribbu/tdf-pprinter.cc | 26 ++++++++++++++++++--------
 2 files changed, 38 insertions(+), 10 deletions(-)

diff --git a/scribbu/csv-pprinter.cc b/scribbu/csv-pprinter.cc
index 5a4905a..3c7e919 100644
--- a/scribbu/csv-pprinter.cc
+++ b/scribbu/csv-pprinter.cc
@@ -567,7 +567,16 @@ scribbu::csv_pprinter::pprint_PRIV(const PRIV &f, std::ostream &os)
 {
   using namespace std;
 
-  os << f.email<string>();
+  encoding dst;
+  on_no_encoding rsp;
+  std::tie(dst, rsp) = encoding_from_stream(os);
+
+  encoding src = encoding::ISO_8859_1;
+  if (v2enc_) {
+    src = *v2enc_;
+  }
+
+  os << escape(f.email<string>(dst, rsp, src));
 
   return os;
 
@@ -735,7 +744,16 @@ scribbu::csv_pprinter::pprint_PRIV_2_4(const PRIV_2_4 &f, std::ostream &os)
 {
   using namespace std;
 
-  os << f.email<string>();
+  encoding dst;
+  on_no_encoding rsp;
+  std::tie(dst, rsp) = encoding_from_stream(os);
+
+  encoding src = encoding::ISO_8859_1;
+  if (v2enc_) {
+    src = *v2enc_;
+  }
+
+  os << escape(f.email<string>(dst, rsp, src));
 
   return os;
 
diff --git a/scribbu/tdf-pprinter.cc b/scribbu/tdf-pprinter.cc
index c8012d1..706451c 100644
--- a/scribbu/tdf-pprinter.cc
+++ b/scribbu/tdf-pprinter.cc
@@ -520,11 +520,16 @@ scribbu::tdf_pprinter::pprint_PRIV(const PRIV &f, std::ostream &os)
 {
   using namespace std;
 
-  // encoding dst;
-  // on_no_encoding rsp;
-  // std::tie(dst, rsp) = encoding_from_stream(os);
+  encoding dst;
+  on_no_encoding rsp;
+  std::tie(dst, rsp) = encoding_from_stream(os);
+
+  encoding src = encoding::ISO_8859_1;
+  if (v2enc_) {
+    src = *v2enc_;
+  }
 
-  os << f.email<string>();
+  os << f.email<string>(dst, rsp, src);
 
   return os;
 }
@@ -690,11 +695,16 @@ scribbu::tdf_pprinter::pprint_PRIV_2_4(const PRIV_2_4 &f, std::ostream &os)
 {
   using namespace std;
 
-  // encoding dst;
-  // on_no_encoding rsp;
-  // std::tie(dst, rsp) = encoding_from_stream(os);
+  encoding dst;
+  on_no_encoding rsp;
+  std::tie(dst, rsp) = encoding_from_stream(os);
+
+  encoding src = encoding::ISO_8859_1;
+  if (v2enc_) {
+    src = *v2enc_;
+  }
 
-  os << f.email<string>();
+  os << f.email<string>(dst, rsp, src);
 
   return os;
 }
-- 
2.43.0


From 811061f6175b93269f6614efd3e1445580e926b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:03:45 +0000
Subject: [PATCH 114/194] fix: escape languages, frame identifiers & asterisks
 in CSV

---
 scribbu/csv-pprinter.cc | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/scribbu/csv-pprinter.cc b/scribbu/csv-pprinter.cc
index 3c7e919..7645bb6 100644
--- a/scribbu/csv-pprinter.cc
+++ b/scribbu/csv-pprinter.cc
@@ -121,7 +121,7 @@ scribbu::csv_pprinter::pprint_v2_2_tag(const id3v2_2_tag &tag,
     os << tag.play_count();
   }
   else if (1 < n) {
-    os << '*';
+    os << escape("*");
   }
 
   os << sep_;
@@ -171,7 +171,7 @@ scribbu::csv_pprinter::pprint_v2_3_tag(const id3v2_3_tag &tag,
     os << tag.play_count();
   }
   else if (1 < n) {
-    os << '*';
+    os << escape("*");
   }
 
   os << sep_;
@@ -221,7 +221,7 @@ scribbu::csv_pprinter::pprint_v2_4_tag(const id3v2_4_tag &tag,
     os << tag.play_count();
   }
   else if (1 < n) {
-    os << '*';
+    os << escape("*");
   }
 
   os << sep_;
@@ -282,7 +282,7 @@ scribbu::csv_pprinter::pprint_v1_tag(const id3v1_tag &tag, std::ostream &os)
 scribbu::csv_pprinter::pprint_unk_id3v2_2_frame(const unknown_id3v2_2_frame &f,
                                                 std::ostream &os)
 {
-  return os << f.id();
+  return os << escape(f.id().as_string());
 }
 
 /*virtual*/ std::ostream&
@@ -350,7 +350,7 @@ scribbu::csv_pprinter::pprint_COM(const COM &f, std::ostream &os)
   char lang[3];
   std::tie(lang[0], lang[1],lang[2]) = f.lang();
 
-  return os << lang[0] << lang[1] << lang[2] << sep_ <<
+  return os << escape(string(lang, 3)) << sep_ <<
     escape(f.description<string>(dst, rsp, v2enc_)) << sep_ <<
     escape(f.text<string>(dst, rsp, v2enc_));
 }
@@ -410,7 +410,7 @@ scribbu::csv_pprinter::pprint_XTG(const XTG &f, std::ostream &os)
 /*virtual*/ std::ostream&
 scribbu::csv_pprinter::pprint_unk_id3v2_3_frame(const unknown_id3v2_3_frame &f, std::ostream &os)
 {
-  return os << f.id();
+  return os << escape(f.id().as_string());
 }
 
 /*virtual*/ std::ostream&
@@ -504,7 +504,7 @@ scribbu::csv_pprinter::pprint_COMM(const COMM &f, std::ostream &os)
   char lang[3];
   std::tie(lang[0], lang[1],lang[2]) = f.lang();
 
-  return os << lang[0] << lang[1] << lang[2] << sep_ <<
+  return os << escape(string(lang, 3)) << sep_ <<
     escape(f.description<string>(dst, rsp, v2enc_)) << sep_ <<
     escape(f.text<string>(dst, rsp, v2enc_));
 }
@@ -586,7 +586,7 @@ scribbu::csv_pprinter::pprint_PRIV(const PRIV &f, std::ostream &os)
 scribbu::csv_pprinter::pprint_unk_id3v2_4_frame(const unknown_id3v2_4_frame &f,
                                                 std::ostream &os)
 {
-  return os << f.id();
+  return os << escape(f.id().as_string());
 }
 
 /*virtual*/ std::ostream&
@@ -681,7 +681,7 @@ scribbu::csv_pprinter::pprint_COMM_2_4(const COMM_2_4 &f, std::ostream &os)
   char lang[3];
   std::tie(lang[0], lang[1], lang[2]) = f.lang();
 
-  return os << lang[0] << lang[1] << lang[2] << sep_ <<
+  return os << escape(string(lang, 3)) << sep_ <<
     escape(f.description<string>(dst, rsp, v2enc_)) << sep_ <<
     escape(f.text<string>(dst, rsp, v2enc_));
 }
-- 
2.43.0


From b3239b1111c919bbbca5c4ea743f4bb1417dd0c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:05:56 +0000
Subject: [PATCH 115/194] fix: replace delimiters & line breaks in the fields
 of TDF records

---
 scribbu/tdf-pprinter.cc | 96 +++++++++++++++++++++++------------------
 scribbu/tdf-pprinter.hh | 20 +++++++++
 2 files changed, 74 insertions(+), 42 deletions(-)

diff --git a/scribbu/tdf-pprinter.cc b/scribbu/tdf-pprinter.cc
index 706451c..ea91205 100644
--- a/scribbu/tdf-pprinter.cc
+++ b/scribbu/tdf-pprinter.cc
@@ -37,6 +37,18 @@ scribbu::tdf_pprinter::DEFAULT_V1ENC = boost::none;
 const boost::optional<scribbu::encoding>
 scribbu::tdf_pprinter::DEFAULT_V2ENC = boost::none;
 
+/*static*/ std::string
+scribbu::tdf_pprinter::field(const std::string &s, char sep)
+{
+  std::string r(s);
+  for (char &c: r) {
+    if (c == sep || c == '\n' || c == '\r') {
+      c = ' ';
+    }
+  }
+  return r;
+}
+
 scribbu::tdf_pprinter::tdf_pprinter(
   std::size_t                      ncomm /*= DEFAULT_NCOMMENTS*/,
   const boost::optional<encoding> &v1enc /*= DEFAULT_V1ENC    */,
@@ -88,7 +100,7 @@ scribbu::tdf_pprinter::pprint_v2_2_tag(const id3v2_2_tag &tag,
   for (size_t i = 0; i < ncomm_; ++i) {
     os << sep_;
     if (i < comments.size()) {
-      os << comments[i].text<string>(dst, rsp, v2enc_);
+      os << field(comments[i].text<string>(dst, rsp, v2enc_));
     }
   }
 
@@ -138,7 +150,7 @@ scribbu::tdf_pprinter::pprint_v2_3_tag(const id3v2_3_tag &tag,
   for (size_t i = 0; i < ncomm_; ++i) {
     os << sep_;
     if (i < comments.size()) {
-      os << comments[i].text<string>(dst, rsp, v2enc_);
+      os << field(comments[i].text<string>(dst, rsp, v2enc_));
     }
   }
 
@@ -188,7 +200,7 @@ scribbu::tdf_pprinter::pprint_v2_4_tag(const id3v2_4_tag &tag,
   for (size_t i = 0; i < ncomm_; ++i) {
     os << sep_;
     if (i < comments.size()) {
-      os << comments[i].text<string>(dst, rsp, v2enc_);
+      os << field(comments[i].text<string>(dst, rsp, v2enc_));
     }
   }
 
@@ -223,11 +235,11 @@ scribbu::tdf_pprinter::pprint_v1_tag(const id3v1_tag &tag, std::ostream &os)
   tie(dst, rsp) = encoding_from_stream(os);
 
   os << tag.v1_1() << sep_ << tag.extended() << sep_ <<
-    tag.artist<string>(v1enc_, dst, rsp) << sep_ <<
-    tag.title<string>(v1enc_, dst, rsp) << sep_ <<
-    tag.album<string>(v1enc_, dst, rsp) << sep_ <<
-    tag.year<string>(v1enc_, dst, rsp) << sep_ <<
-    tag.comment<string>(v1enc_, dst, rsp) << sep_ <<
+    field(tag.artist<string>(v1enc_, dst, rsp)) << sep_ <<
+    field(tag.title<string>(v1enc_, dst, rsp)) << sep_ <<
+    field(tag.album<string>(v1enc_, dst, rsp)) << sep_ <<
+    field(tag.year<string>(v1enc_, dst, rsp)) << sep_ <<
+    field(tag.comment<string>(v1enc_, dst, rsp)) << sep_ <<
     dec << (unsigned)tag.genre();
 
   return os;
@@ -237,7 +249,7 @@ scribbu::tdf_pprinter::pprint_v1_tag(const id3v1_tag &tag, std::ostream &os)
 scribbu::tdf_pprinter::pprint_unk_id3v2_2_frame(const unknown_id3v2_2_frame &f,
                                                 std::ostream &os)
 {
-  return os << f.id();
+  return os << field(f.id().as_string());
 }
 
 /*virtual*/ std::ostream&
@@ -249,7 +261,7 @@ scribbu::tdf_pprinter::pprint_id3v2_2_text_frame(
   on_no_encoding rsp;
   std::tie(dst, rsp) = encoding_from_stream(os);
 
-  return os << frame.as_str<std::string>(dst, rsp, v2enc_);
+  return os << field(frame.as_str<std::string>(dst, rsp, v2enc_));
 }
 
 /*virtual*/ std::ostream&
@@ -266,7 +278,7 @@ scribbu::tdf_pprinter::pprint_UFI(const UFI &f, std::ostream &os)
     src = *v2enc_;
   }
 
-  os << f.owner<string>(dst, rsp, src) << sep_;
+  os << field(f.owner<string>(dst, rsp, src)) << sep_;
 
   vector<unsigned char> buf;
   f.idb(back_inserter(buf));
@@ -290,7 +302,7 @@ scribbu::tdf_pprinter::pprint_TXX(const TXX &f, std::ostream &os)
 
   string dsc = f.description<string>(dst, rsp, v2enc_);
   string txt = f.text<string>(dst, rsp, v2enc_);
-  return os << std::dec << (unsigned)f.unicode() << sep_ << dsc << sep_ << txt;
+  return os << std::dec << (unsigned)f.unicode() << sep_ << field(dsc) << sep_ << field(txt);
 }
 
 /*virtual*/ std::ostream&
@@ -305,9 +317,9 @@ scribbu::tdf_pprinter::pprint_COM(const COM &f, std::ostream &os)
   char lang[3];
   std::tie(lang[0], lang[1], lang[2]) = f.lang();
 
-  return os << lang[0] << lang[1] << lang[2] << sep_ <<
-    f.description<string>(dst, rsp, v2enc_) << sep_ <<
-    f.text<string>(dst, rsp, v2enc_);
+  return os << field(string(lang, 3)) << sep_ <<
+    field(f.description<string>(dst, rsp, v2enc_)) << sep_ <<
+    field(f.text<string>(dst, rsp, v2enc_));
 }
 
 /*virtual*/ std::ostream&
@@ -329,7 +341,7 @@ scribbu::tdf_pprinter::pprint_POP(const POP &f, std::ostream &os)
   if (v2enc_) {
     src = *v2enc_;
   }
-  os << f.email<string>(dst, rsp, src) << sep_ <<
+  os << field(f.email<string>(dst, rsp, src)) << sep_ <<
     dec << (unsigned)f.rating() << sep_;
 
   vector<unsigned char> counter;
@@ -353,8 +365,8 @@ scribbu::tdf_pprinter::pprint_XTG(const XTG &f, std::ostream &os)
   std::tie(dst, rsp) = encoding_from_stream(os);
 
   string own = f.owner(), tags = f.urlencoded();
-  os << convert_encoding<string>(own.c_str(), own.length(), encoding::UTF_8,
-                                 dst, rsp) << sep_ <<
+  os << field(convert_encoding<string>(own.c_str(), own.length(),
+                                       encoding::UTF_8, dst, rsp)) << sep_ <<
     convert_encoding<string>(tags.c_str(), tags.length(), encoding::UTF_8,
                              dst, rsp);
 
@@ -364,7 +376,7 @@ scribbu::tdf_pprinter::pprint_XTG(const XTG &f, std::ostream &os)
 /*virtual*/ std::ostream&
 scribbu::tdf_pprinter::pprint_unk_id3v2_3_frame(const unknown_id3v2_3_frame &f, std::ostream &os)
 {
-  return os << f.id();
+  return os << field(f.id().as_string());
 }
 
 /*virtual*/ std::ostream&
@@ -376,7 +388,7 @@ scribbu::tdf_pprinter::pprint_id3v2_3_text_frame(
   on_no_encoding rsp;
   std::tie(dst, rsp) = encoding_from_stream(os);
 
-  return os << frame.as_str<std::string>(dst, rsp, v2enc_);
+  return os << field(frame.as_str<std::string>(dst, rsp, v2enc_));
 }
 
 /*virtual*/ std::ostream&
@@ -393,7 +405,7 @@ scribbu::tdf_pprinter::pprint_UFID(const UFID &f, std::ostream &os)
     src = *v2enc_;
   }
 
-  os << f.owner<string>(dst, rsp, src) << sep_;
+  os << field(f.owner<string>(dst, rsp, src)) << sep_;
 
   vector<unsigned char> buf;
   f.idb(back_inserter(buf));
@@ -423,7 +435,7 @@ scribbu::tdf_pprinter::pprint_ENCR(const ENCR &f, std::ostream &os)
   vector<unsigned char> buf;
   f.datab(back_inserter(buf));
 
-  os << f.email<string>(dst, rsp, src) << sep_ <<
+  os << field(f.email<string>(dst, rsp, src)) << sep_ <<
     dec << (unsigned) f.method_symbol() << sep_ << "0x" << hex;
   for (auto x: buf) {
     os << setw(2) << setfill('0') << (unsigned)x;
@@ -443,7 +455,7 @@ scribbu::tdf_pprinter::pprint_TXXX(const TXXX &f, std::ostream &os)
 
   string dsc = f.description<string>(dst, rsp, v2enc_);
   string txt = f.text<string>(dst, rsp, v2enc_);
-  return os << std::dec << (unsigned)f.unicode() << sep_ << dsc << sep_ << txt;
+  return os << std::dec << (unsigned)f.unicode() << sep_ << field(dsc) << sep_ << field(txt);
 }
 
 /*virtual*/ std::ostream&
@@ -458,9 +470,9 @@ scribbu::tdf_pprinter::pprint_COMM(const COMM &f, std::ostream &os)
   char lang[3];
   std::tie(lang[0], lang[1], lang[2]) = f.lang();
 
-  return os << lang[0] << lang[1] << lang[2] << sep_ <<
-    f.description<string>(dst, rsp, v2enc_) << sep_ <<
-    f.text<string>(dst, rsp, v2enc_);
+  return os << field(string(lang, 3)) << sep_ <<
+    field(f.description<string>(dst, rsp, v2enc_)) << sep_ <<
+    field(f.text<string>(dst, rsp, v2enc_));
 }
 
 /*virtual*/ std::ostream&
@@ -483,7 +495,7 @@ scribbu::tdf_pprinter::pprint_POPM(const POPM &f, std::ostream &os)
     src = *v2enc_;
   }
 
-  os << f.email<string>(dst, rsp, src) << sep_ <<
+  os << field(f.email<string>(dst, rsp, src)) << sep_ <<
     dec << (unsigned)f.rating() << sep_;
 
   vector<unsigned char> counter;
@@ -507,8 +519,8 @@ scribbu::tdf_pprinter::pprint_XTAG(const XTAG &f, std::ostream &os)
   std::tie(dst, rsp) = encoding_from_stream(os);
 
   string own = f.owner(), tags = f.urlencoded();
-  os << convert_encoding<string>(own.c_str(), own.length(), encoding::UTF_8,
-                                 dst, rsp) << sep_ <<
+  os << field(convert_encoding<string>(own.c_str(), own.length(),
+                                       encoding::UTF_8, dst, rsp)) << sep_ <<
     convert_encoding<string>(tags.c_str(), tags.length(), encoding::UTF_8,
                              dst, rsp);
 
@@ -529,7 +541,7 @@ scribbu::tdf_pprinter::pprint_PRIV(const PRIV &f, std::ostream &os)
     src = *v2enc_;
   }
 
-  os << f.email<string>(dst, rsp, src);
+  os << field(f.email<string>(dst, rsp, src));
 
   return os;
 }
@@ -538,7 +550,7 @@ scribbu::tdf_pprinter::pprint_PRIV(const PRIV &f, std::ostream &os)
 scribbu::tdf_pprinter::pprint_unk_id3v2_4_frame(const unknown_id3v2_4_frame &f,
                                                 std::ostream &os)
 {
-  return os << f.id();
+  return os << field(f.id().as_string());
 }
 
 /*virtual*/ std::ostream&
@@ -550,7 +562,7 @@ scribbu::tdf_pprinter::pprint_id3v2_4_text_frame(
   on_no_encoding rsp;
   std::tie(dst, rsp) = encoding_from_stream(os);
 
-  return os << frame.as_str<std::string>(dst, rsp, v2enc_);
+  return os << field(frame.as_str<std::string>(dst, rsp, v2enc_));
 }
 
 /*virtual*/ std::ostream&
@@ -567,7 +579,7 @@ scribbu::tdf_pprinter::pprint_UFID_2_4(const UFID_2_4 &f, std::ostream &os)
     src = *v2enc_;
   }
 
-  os << f.owner<string>(dst, rsp, src) << sep_;
+  os << field(f.owner<string>(dst, rsp, src)) << sep_;
 
   vector<unsigned char> buf;
   f.idb(back_inserter(buf));
@@ -597,7 +609,7 @@ scribbu::tdf_pprinter::pprint_ENCR_2_4(const ENCR_2_4 &f, std::ostream &os)
   vector<unsigned char> buf;
   f.datab(back_inserter(buf));
 
-  os << f.email<string>(dst, rsp, src) << sep_ <<
+  os << field(f.email<string>(dst, rsp, src)) << sep_ <<
     dec << (unsigned) f.method_symbol() << sep_ << "0x" << hex;
   for (auto x: buf) {
     os << setw(2) << setfill('0') << (unsigned)x;
@@ -617,7 +629,7 @@ scribbu::tdf_pprinter::pprint_TXXX_2_4(const TXXX_2_4 &f, std::ostream &os)
 
   string dsc = f.description<string>(dst, rsp, v2enc_);
   string txt = f.text<string>(dst, rsp, v2enc_);
-  return os << std::dec << (unsigned)f.unicode() << sep_ << dsc << sep_ << txt;
+  return os << std::dec << (unsigned)f.unicode() << sep_ << field(dsc) << sep_ << field(txt);
   return os;
 }
 
@@ -633,9 +645,9 @@ scribbu::tdf_pprinter::pprint_COMM_2_4(const COMM_2_4 &f, std::ostream &os)
   char lang[3];
   std::tie(lang[0], lang[1], lang[2]) = f.lang();
 
-  return os << lang[0] << lang[1] << lang[2] << sep_ <<
-    f.description<string>(dst, rsp, v2enc_) << sep_ <<
-    f.text<string>(dst, rsp, v2enc_);
+  return os << field(string(lang, 3)) << sep_ <<
+    field(f.description<string>(dst, rsp, v2enc_)) << sep_ <<
+    field(f.text<string>(dst, rsp, v2enc_));
 }
 
 /*virtual*/ std::ostream&
@@ -658,7 +670,7 @@ scribbu::tdf_pprinter::pprint_POPM_2_4(const POPM_2_4 &f, std::ostream &os)
     src = *v2enc_;
   }
 
-  os << f.email<string>(dst, rsp, src) << sep_ <<
+  os << field(f.email<string>(dst, rsp, src)) << sep_ <<
     dec << (unsigned)f.rating() << sep_;
 
   vector<unsigned char> counter;
@@ -682,8 +694,8 @@ scribbu::tdf_pprinter::pprint_XTAG_2_4(const XTAG_2_4 &f, std::ostream &os)
   std::tie(dst, rsp) = encoding_from_stream(os);
 
   string own = f.owner(), tags = f.urlencoded();
-  os << convert_encoding<string>(own.c_str(), own.length(), encoding::UTF_8,
-                                 dst, rsp) << sep_ <<
+  os << field(convert_encoding<string>(own.c_str(), own.length(),
+                                       encoding::UTF_8, dst, rsp)) << sep_ <<
     convert_encoding<string>(tags.c_str(), tags.length(), encoding::UTF_8,
                              dst, rsp);
 
@@ -704,7 +716,7 @@ scribbu::tdf_pprinter::pprint_PRIV_2_4(const PRIV_2_4 &f, std::ostream &os)
     src = *v2enc_;
   }
 
-  os << f.email<string>(dst, rsp, src);
+  os << field(f.email<string>(dst, rsp, src));
 
   return os;
 }
diff --git a/scribbu/tdf-pprinter.hh b/scribbu/tdf-pprinter.hh
index 69945ee..46cefc1 100644
--- a/scribbu/tdf-pprinter.hh
+++ b/scribbu/tdf-pprinter.hh
@@ -82,6 +82,22 @@ namespace scribbu {
     static const boost::optional<encoding> DEFAULT_V2ENC;
     static const bool DEFAULT_USE_ASCII = false;
 
+    /**
+     * \brief Make text fit for use as a field
+     *
+     *
+     * \param s [in] the text in question; its encoding must be ASCII-compatible
+     *
+     * \param sep [in] the delimiter
+     *
+     * \return \a s, with any delimiters & line breaks replaced by spaces; the
+     * format has no escaping mechanism, so such text can't be represented
+     *
+     *
+     */
+
+    static std::string field(const std::string &s, char sep);
+
   public:
     tdf_pprinter(std::size_t                      ncomm = DEFAULT_NCOMMENTS,
                  const boost::optional<encoding> &v1enc = DEFAULT_V1ENC,
@@ -162,6 +178,10 @@ namespace scribbu {
       return new tdf_pprinter(*this);
     }
 
+  private:
+    std::string field(const std::string &s) const
+    { return field(s, sep_); }
+
   private:
     std::size_t ncomm_;
     boost::optional<encoding> v1enc_;
-- 
2.43.0


From 6f15e87ddaa2e0f02332a11049b3cd461a6f41b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:06:52 +0000
Subject: [PATCH 116/194] fix: double the quotes in file names in CSV reports

---
 src/report.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/report.cc b/src/report.cc
index e560b98..8d049f2 100644
--- a/src/report.cc
+++ b/src/report.cc
@@ -175,12 +175,12 @@ csv_reporter::make_entry(const scribbu::file_info                  &fi,
   const double ONE_MEG = 1048576;
 
   if (!no_dir_) {
-    ofs_ << fi.parent() << COMMA;
+    ofs_ << quoted(fi.parent().string(), '"', '"') << COMMA;
   }
 
   double mb = double(fi.size()) / ONE_MEG;
 
-  ofs_ << fi.filename() << COMMA << setprecision(3) << fixed << mb << COMMA;
+  ofs_ << quoted(fi.filename().string(), '"', '"') << COMMA << setprecision(3) << fixed << mb << COMMA;
 
   if (pid3v2) {
     ofs_ << *pid3v2;
-- 
2.43.0


From 383f39c64cb0111053ed465a6d51dade6ae34904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:06:52 +0000
Subject: [PATCH 117/194] fix: replace delimiters & line breaks in file names
 in TDF reports

---
 src/report.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/report.cc b/src/report.cc
index 8d049f2..2a87a0f 100644
--- a/src/report.cc
+++ b/src/report.cc
@@ -301,12 +301,13 @@ tdf_reporter::make_entry(const scribbu::file_info                  &fi,
   const double ONE_MEG = 1048576;
 
   if (!no_dir_) {
-    ofs_ << fi.parent() << sep_;
+    ofs_ << fs::path(tdf_pprinter::field(fi.parent().string(), sep_)) << sep_;
   }
 
   double mb = double(fi.size()) / ONE_MEG;
 
-  ofs_ << fi.filename() << sep_ << setprecision(3) << fixed << mb << sep_;
+  ofs_ << fs::path(tdf_pprinter::field(fi.filename().string(), sep_)) <<
+    sep_ << setprecision(3) << fixed << mb << sep_;
 
   if (pid3v2) {
     ofs_ << *pid3v2;
-- 
2.43.0


From 4f5ccd9a9d9ec65da2cab22f1cb7fc9a43d6edc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:06:52 +0000
Subject: [PATCH 118/194] fix: don't leave partial records in a report

---
 src/report.cc | 42 +++++++++++++++++++++++++-----------------
 1 file changed, 25 insertions(+), 17 deletions(-)

diff --git a/src/report.cc b/src/report.cc
index 2a87a0f..1f48616 100644
--- a/src/report.cc
+++ b/src/report.cc
@@ -174,33 +174,37 @@ csv_reporter::make_entry(const scribbu::file_info                  &fi,
 
   const double ONE_MEG = 1048576;
 
+  // Don't write anything until we have the whole record
+  stringstream stm;
+  stm.copyfmt(ofs_);
+
   if (!no_dir_) {
-    ofs_ << quoted(fi.parent().string(), '"', '"') << COMMA;
+    stm << quoted(fi.parent().string(), '"', '"') << COMMA;
   }
 
   double mb = double(fi.size()) / ONE_MEG;
 
-  ofs_ << quoted(fi.filename().string(), '"', '"') << COMMA << setprecision(3) << fixed << mb << COMMA;
+  stm << quoted(fi.filename().string(), '"', '"') << COMMA << setprecision(3) << fixed << mb << COMMA;
 
   if (pid3v2) {
-    ofs_ << *pid3v2;
+    stm << *pid3v2;
   }
   else {
-    ofs_ << ",,,,,,,,,,,,,,";
-    ostream_iterator<char> oi(ofs_);
+    stm << ",,,,,,,,,,,,,,";
+    ostream_iterator<char> oi(stm);
     fill_n(oi, ncomm_, ',');
   }
 
-  ofs_ << "," << info << ",";
+  stm << "," << info << ",";
 
   if (pid3v1) {
-    ofs_ << *pid3v1;
+    stm << *pid3v1;
   }
   else {
-    ofs_ << ",,,,,,,";
+    stm << ",,,,,,,";
   }
 
-  ofs_ << endl;
+  ofs_ << stm.str() << endl;
 }
 
 ////////////////////////////////////////////////////////////////////////////////
@@ -300,34 +304,38 @@ tdf_reporter::make_entry(const scribbu::file_info                  &fi,
 
   const double ONE_MEG = 1048576;
 
+  // Don't write anything until we have the whole record
+  stringstream stm;
+  stm.copyfmt(ofs_);
+
   if (!no_dir_) {
-    ofs_ << fs::path(tdf_pprinter::field(fi.parent().string(), sep_)) << sep_;
+    stm << fs::path(tdf_pprinter::field(fi.parent().string(), sep_)) << sep_;
   }
 
   double mb = double(fi.size()) / ONE_MEG;
 
-  ofs_ << fs::path(tdf_pprinter::field(fi.filename().string(), sep_)) <<
+  stm << fs::path(tdf_pprinter::field(fi.filename().string(), sep_)) <<
     sep_ << setprecision(3) << fixed << mb << sep_;
 
   if (pid3v2) {
-    ofs_ << *pid3v2;
+    stm << *pid3v2;
   }
   else {
-    ostream_iterator<char> oi(ofs_);
+    ostream_iterator<char> oi(stm);
     fill_n(oi, 14 + ncomm_, sep_);
   }
 
-  ofs_ << sep_ << info << sep_;
+  stm << sep_ << info << sep_;
 
   if (pid3v1) {
-    ofs_ << *pid3v1;
+    stm << *pid3v1;
   }
   else {
-    ostream_iterator<char> oi(ofs_);
+    ostream_iterator<char> oi(stm);
     fill_n(oi, 7, sep_);
   }
 
-  ofs_ << endl;
+  ofs_ << stm.str() << endl;
 }
 
 ////////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 37e94f9df2a6fcc06f72b2d5e9210141b61d7160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:37:47 +0000
Subject: [PATCH 119/194] fix: escape bytes that aren't UTF-8 in JSON output

---
 scribbu/json-pprinter.cc | 31 ++++++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/scribbu/json-pprinter.cc b/scribbu/json-pprinter.cc
index 5efc427..2ccb41a 100644
--- a/scribbu/json-pprinter.cc
+++ b/scribbu/json-pprinter.cc
@@ -45,8 +45,32 @@ scribbu::json_pprinter::DEFAULT_V2ENC = boost::none;
 /*static*/
 std::string scribbu::json_pprinter::escape(const std::string &s)
 {
+  // Return the length of the well-formed UTF-8 sequence at `i', or zero
+  auto utf8_len = [&s](std::size_t i) -> std::size_t {
+    unsigned char c = s[i];
+    std::size_t n = c < 0x80 ? 1 : c < 0xc2 ? 0 : c < 0xe0 ? 2 : c < 0xf0 ? 3 :
+      c < 0xf5 ? 4 : 0;
+    if (0 == n || s.size() - i < n) {
+      return 0;
+    }
+    for (std::size_t j = 1; j < n; ++j) {
+      unsigned char d = s[i + j];
+      if (d < (j > 1 ? 0x80 : c == 0xe0 ? 0xa0 : c == 0xf0 ? 0x90 : 0x80) ||
+          d > (j > 1 ? 0xbf : c == 0xed ? 0x9f : c == 0xf4 ? 0x8f : 0xbf)) {
+        return 0;
+      }
+    }
+    return n;
+  };
+
   std::stringstream stm;
-  for (char c : s) {
+  std::size_t next = 0; // end of the current UTF-8 sequence
+  for (std::size_t i = 0; i < s.size(); ++i) {
+    char c = s[i];
+    std::size_t len = i < next ? 1 : utf8_len(i);
+    if (i >= next) {
+      next = i + len;
+    }
     switch (c) {
     case '\b':
       stm << "\\b";
@@ -68,8 +92,9 @@ std::string scribbu::json_pprinter::escape(const std::string &s)
       stm << '\\' << c;
       break;
     default:
-      if ((unsigned char)c < 0x20) {
-        stm << "\\u" << std::hex << std::setfill('0') << std::setw(4) << (int)c;
+      if ((unsigned char)c < 0x20 || 0 == len) {
+        stm << "\\u" << std::hex << std::setfill('0') << std::setw(4)
+            << (int)(unsigned char)c;
       } else {
         stm << c;
       }
-- 
2.43.0


From ccc9b37cd802738a978a969dfe751c3aa8efed6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:37:47 +0000
Subject: [PATCH 120/194] fix: escape frame identifiers in JSON output

---
 scribbu/json-pprinter.cc | 75 ++++++++++++++++++++++++++--------------
 1 file changed, 50 insertions(+), 25 deletions(-)

diff --git a/scribbu/json-pprinter.cc b/scribbu/json-pprinter.cc
index 2ccb41a..562dfcd 100644
--- a/scribbu/json-pprinter.cc
+++ b/scribbu/json-pprinter.cc
@@ -249,7 +249,8 @@ scribbu::json_pprinter::pprint_unk_id3v2_2_frame(
 {
   using namespace std;
 
-  return os << R"({"id":")" << frm.id() << R"(","size":)"
+  return os << R"({"id":")" << escape(frm.id().as_string())
+            << R"(","size":)"
             << setbase(10) << (int)frm.size()
             << R"(})";
 }
@@ -264,7 +265,8 @@ scribbu::json_pprinter::pprint_id3v2_2_text_frame(const id3v2_2_text_frame &frm,
   on_no_encoding rsp;
   tie(dst, rsp) = encoding_from_stream(os);
 
-  return os << R"({"id":")" << frm.id() << R"(","size":)"
+  return os << R"({"id":")" << escape(frm.id().as_string())
+            << R"(","size":)"
             << setbase(10) << (int)frm.size()
             << R"(,"text":")" << escape(frm.as_str<string>(dst, rsp, v2enc_))
             << R"("})";
@@ -285,7 +287,8 @@ scribbu::json_pprinter::pprint_UFI(const UFI &frm,
     src = *v2enc_;
   }
 
-  return os << R"({"id":")" << frm.id() << R"(","size":)"
+  return os << R"({"id":")" << escape(frm.id().as_string())
+            << R"(","size":)"
             << setbase(10) << (int)frm.size()
             << R"(,"owner":")" << escape(frm.owner<string>(dst, rsp, src))
             << R"("})";
@@ -301,7 +304,8 @@ scribbu::json_pprinter::pprint_TXX(const TXX &frm,
   on_no_encoding rsp;
   tie(dst, rsp) = encoding_from_stream(os);
 
-  return os << R"({"id":")" << frm.id() << R"(","size":)"
+  return os << R"({"id":")" << escape(frm.id().as_string())
+            << R"(","size":)"
             << setbase(10) << (int)frm.size()
             << R"(,"description":")"
             << escape(frm.description<string>(dst, rsp, v2enc_))
@@ -320,7 +324,8 @@ scribbu::json_pprinter::pprint_COM(const COM &frm,
   on_no_encoding rsp;
   tie(dst, rsp) = encoding_from_stream(os);
 
-  return os << R"({"id":")" << frm.id() << R"(","size":)"
+  return os << R"({"id":")" << escape(frm.id().as_string())
+            << R"(","size":)"
             << setbase(10) << (int)frm.size()
             << R"(,"description":")"
             << escape(frm.description<string>(dst, rsp, v2enc_))
@@ -354,7 +359,8 @@ scribbu::json_pprinter::pprint_POP(const POP &frm,
     src = *v2enc_;
   }
 
-  return os << R"({"id":")" << frm.id() << R"(","size":)"
+  return os << R"({"id":")" << escape(frm.id().as_string())
+            << R"(","size":)"
             << setbase(10) << (int)frm.size()
             << R"(,"email":")"
             << escape(frm.email<string>(dst, rsp, src))
@@ -389,7 +395,8 @@ scribbu::json_pprinter::pprint_XTG(const XTG &frm,
                }
             });
 
-  return os << R"({"id":")" << frm.id() << R"(","size":)"
+  return os << R"({"id":")" << escape(frm.id().as_string())
+            << R"(","size":)"
             << setbase(10) << (int)frm.size()
             << R"(,"owner":")" << escape(frm.owner())
             << R"(","cloud":[)" << join(tags, ",")
@@ -403,7 +410,8 @@ scribbu::json_pprinter::pprint_unk_id3v2_3_frame(
 {
   using namespace std;
 
-  return os << R"({"id":")" << frm.id() << R"(","size":)"
+  return os << R"({"id":")" << escape(frm.id().as_string())
+            << R"(","size":)"
             << setbase(10) << (int)frm.size()
             << R"(})";
 }
@@ -418,7 +426,8 @@ scribbu::json_pprinter::pprint_id3v2_3_text_frame(const id3v2_3_text_frame &frm,
   on_no_encoding rsp;
   tie(dst, rsp) = encoding_from_stream(os);
 
-  return os << R"({"id":")" << frm.id() << R"(","size":)"
+  return os << R"({"id":")" << escape(frm.id().as_string())
+            << R"(","size":)"
             << setbase(10) << (int)frm.size()
             << R"(,"text":")" << escape(frm.as_str<string>(dst, rsp, v2enc_))
             << R"("})";
@@ -439,7 +448,8 @@ scribbu::json_pprinter::pprint_UFID(const UFID &frm,
     src = *v2enc_;
   }
 
-  return os << R"({"id":")" << frm.id() << R"(","size":)"
+  return os << R"({"id":")" << escape(frm.id().as_string())
+            << R"(","size":)"
             << setbase(10) << (int)frm.size()
             << R"(,"owner":")" << escape(frm.owner<string>(dst, rsp, src))
             << R"("})";
@@ -460,7 +470,8 @@ scribbu::json_pprinter::pprint_ENCR(const ENCR &frm,
     src = *v2enc_;
   }
 
-  return os << R"({"id":")" << frm.id() << R"(","size":)" << setbase(10)
+  return os << R"({"id":")" << escape(frm.id().as_string())
+            << R"(","size":)" << setbase(10)
             << (int)frm.size()
             << R"(,"email":")"
             << escape(frm.email<string>(dst, rsp, src))
@@ -477,7 +488,8 @@ scribbu::json_pprinter::pprint_TXXX(const TXXX &frm,
   on_no_encoding rsp;
   tie(dst, rsp) = encoding_from_stream(os);
 
-  return os << R"({"id":")" << frm.id() << R"(","size":)"
+  return os << R"({"id":")" << escape(frm.id().as_string())
+            << R"(","size":)"
             << setbase(10) << (int)frm.size()
             << R"(,"description":")"
             << escape(frm.description<string>(dst, rsp, v2enc_))
@@ -496,7 +508,8 @@ scribbu::json_pprinter::pprint_COMM(const COMM &frm,
   on_no_encoding rsp;
   tie(dst, rsp) = encoding_from_stream(os);
 
-  return os << R"({"id":")" << frm.id() << R"(","size":)"
+  return os << R"({"id":")" << escape(frm.id().as_string())
+            << R"(","size":)"
             << setbase(10) << (int)frm.size()
             << R"(,"description":")"
             << escape(frm.description<string>(dst, rsp, v2enc_))
@@ -529,7 +542,8 @@ scribbu::json_pprinter::pprint_POPM(const POPM &frm,
     src = *v2enc_;
   }
 
-  return os << R"({"id":")" << frm.id() << R"(","size":)"
+  return os << R"({"id":")" << escape(frm.id().as_string())
+            << R"(","size":)"
             << setbase(10) << (int)frm.size()
             << R"(,"email":")"
             << escape(frm.email<string>(dst, rsp, src))
@@ -564,7 +578,8 @@ scribbu::json_pprinter::pprint_XTAG(const XTAG &frm,
                }
             });
 
-  return os << R"({"id":")" << frm.id() << R"(","size":)"
+  return os << R"({"id":")" << escape(frm.id().as_string())
+            << R"(","size":)"
             << setbase(10) << (int)frm.size()
             << R"(,"owner":")" << escape(frm.owner())
             << R"(","cloud":[)" << join(tags, ",")
@@ -586,7 +601,8 @@ scribbu::json_pprinter::pprint_PRIV(const PRIV &frm,
     src = *v2enc_;
   }
 
-  return os << R"({"id":")" << frm.id() << R"(","size":)" << setbase(10)
+  return os << R"({"id":")" << escape(frm.id().as_string())
+            << R"(","size":)" << setbase(10)
             << (int)frm.size()
             << R"(,"email":")"
             << escape(frm.email<string>(dst, rsp, src))
@@ -600,7 +616,8 @@ scribbu::json_pprinter::pprint_unk_id3v2_4_frame(
 {
   using namespace std;
 
-  return os << R"({"id":")" << frm.id() << R"(","size":)"
+  return os << R"({"id":")" << escape(frm.id().as_string())
+            << R"(","size":)"
             << setbase(10) << (int)frm.size()
             << R"(})";
 }
@@ -615,7 +632,8 @@ scribbu::json_pprinter::pprint_id3v2_4_text_frame(const id3v2_4_text_frame &frm,
   on_no_encoding rsp;
   tie(dst, rsp) = encoding_from_stream(os);
 
-  return os << R"({"id":")" << frm.id() << R"(","size":)"
+  return os << R"({"id":")" << escape(frm.id().as_string())
+            << R"(","size":)"
             << setbase(10) << (int)frm.size()
             << R"(,"text":")" << escape(frm.as_str<string>(dst, rsp, v2enc_))
             << R"("})";
@@ -635,7 +653,8 @@ scribbu::json_pprinter::pprint_UFID_2_4(const UFID_2_4 &frm, std::ostream &os)
     src = *v2enc_;
   }
 
-  return os << R"({"id":")" << frm.id() << R"(","size":)"
+  return os << R"({"id":")" << escape(frm.id().as_string())
+            << R"(","size":)"
             << setbase(10) << (int)frm.size()
             << R"(,"owner":")" << escape(frm.owner<string>(dst, rsp, src))
             << R"("})";
@@ -656,7 +675,8 @@ scribbu::json_pprinter::pprint_ENCR_2_4(const ENCR_2_4 &frm,
     src = *v2enc_;
   }
 
-  return os << R"({"id":")" << frm.id() << R"(","size":)" << setbase(10)
+  return os << R"({"id":")" << escape(frm.id().as_string())
+            << R"(","size":)" << setbase(10)
             << (int)frm.size()
             << R"(,"email":")"
             << escape(frm.email<string>(dst, rsp, src))
@@ -672,7 +692,8 @@ scribbu::json_pprinter::pprint_TXXX_2_4(const TXXX_2_4 &frm, std::ostream &os)
   on_no_encoding rsp;
   tie(dst, rsp) = encoding_from_stream(os);
 
-  return os << R"({"id":")" << frm.id() << R"(","size":)"
+  return os << R"({"id":")" << escape(frm.id().as_string())
+            << R"(","size":)"
             << setbase(10) << (int)frm.size()
             << R"(,"description":")"
             << escape(frm.description<string>(dst, rsp, v2enc_))
@@ -691,7 +712,8 @@ scribbu::json_pprinter::pprint_COMM_2_4(const COMM_2_4 &frm,
   on_no_encoding rsp;
   tie(dst, rsp) = encoding_from_stream(os);
 
-  return os << R"({"id":")" << frm.id() << R"(","size":)"
+  return os << R"({"id":")" << escape(frm.id().as_string())
+            << R"(","size":)"
             << setbase(10) << (int)frm.size()
             << R"(,"description":")"
             << escape(frm.description<string>(dst, rsp, v2enc_))
@@ -724,7 +746,8 @@ scribbu::json_pprinter::pprint_POPM_2_4(const POPM_2_4 &frm,
     src = *v2enc_;
   }
 
-  return os << R"({"id":")" << frm.id() << R"(","size":)"
+  return os << R"({"id":")" << escape(frm.id().as_string())
+            << R"(","size":)"
             << setbase(10) << (int)frm.size()
             << R"(,"email":")"
             << escape(frm.email<string>(dst, rsp, src))
@@ -759,7 +782,8 @@ scribbu::json_pprinter::pprint_XTAG_2_4(const XTAG_2_4 &frm,
                }
             });
 
-  return os << R"({"id":")" << frm.id() << R"(","size":)"
+  return os << R"({"id":")" << escape(frm.id().as_string())
+            << R"(","size":)"
             << setbase(10) << (int)frm.size()
             << R"(,"owner":")" << escape(frm.owner())
             << R"(","cloud":[)" << join(tags, ",")
@@ -781,7 +805,8 @@ scribbu::json_pprinter::pprint_PRIV_2_4(const PRIV_2_4 &frm,
     src = *v2enc_;
   }
 
-  return os << R"({"id":")" << frm.id() << R"(","size":)" << setbase(10)
+  return os << R"({"id":")" << escape(frm.id().as_string())
+            << R"(","size":)" << setbase(10)
             << (int)frm.size()
             << R"(,"email":")"
             << escape(frm.email<string>(dst, rsp, src))
-- 
2.43.0


From af9a841af06d60184134be743555bab10e05f51e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:37:47 +0000
Subject: [PATCH 121/194] fix: respect the stream's encoding when printing tags
 as JSON

---
 scribbu/json-pprinter.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/scribbu/json-pprinter.cc b/scribbu/json-pprinter.cc
index 562dfcd..83fc47a 100644
--- a/scribbu/json-pprinter.cc
+++ b/scribbu/json-pprinter.cc
@@ -119,8 +119,9 @@ scribbu::json_pprinter::pprint_v2_2_tag(const id3v2_2_tag &tag,
 
   vector<string> frames;
   transform(tag.begin(), tag.end(), back_inserter(frames),
-            [this](const id3v2_2_frame &frm) {
+            [this, &os](const id3v2_2_frame &frm) {
               stringstream stm;
+              stm.copyfmt(os);
               stm << print_as_json(v1enc_, v2enc_) << frm;
               return stm.str();
             });
@@ -145,8 +146,9 @@ scribbu::json_pprinter::pprint_v2_3_tag(const id3v2_3_tag &tag,
 
   vector<string> frames;
   transform(tag.begin(), tag.end(), back_inserter(frames),
-            [this](const id3v2_3_frame &frm) {
+            [this, &os](const id3v2_3_frame &frm) {
               stringstream stm;
+              stm.copyfmt(os);
               stm << print_as_json(v1enc_, v2enc_) << frm;
               return stm.str();
             });
@@ -172,8 +174,9 @@ scribbu::json_pprinter::pprint_v2_4_tag(const id3v2_4_tag &tag,
 
   vector<string> frames;
   transform(tag.begin(), tag.end(), back_inserter(frames),
-            [this](const id3v2_4_frame &frm) {
+            [this, &os](const id3v2_4_frame &frm) {
               stringstream stm;
+              stm.copyfmt(os);
               stm << print_as_json(v1enc_, v2enc_) << frm;
               return stm.str();
             });
-- 
2.43.0


From cf52be57c2c5a9938ee867325cc6b39687cda668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:37:52 +0000
Subject: [PATCH 122/194] fix: don't leave half a JSON document when dumping a
 file fails

---
 src/dump.cc | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/dump.cc b/src/dump.cc
index 2abfb3a..3291c46 100644
--- a/src/dump.cc
+++ b/src/dump.cc
@@ -239,6 +239,12 @@ namespace {
       scribbu::track_data td((istream&)ifs);
       unique_ptr<scribbu::id3v1_tag> pid3v1 = scribbu::process_id3v1(ifs);
 
+      // Don't leave half a JSON document behind if something's wrong with this
+      // file
+      stringstream stm;
+      stm.copyfmt(cout);
+      ostream &os = format::json == fmt_ ? stm : cout;
+
       if (format::json != fmt_) {
         cout << pth
              << ":\nLast Modified: " << put_time(localtime(&mtime), TMFMT)
@@ -247,19 +253,20 @@ namespace {
 
       if (dump_id3v2_) {
         for (ptrdiff_t i = 0, n = id3v2.size(); i < n; ++i) {
-          cout << *(id3v2[i]);
+          os << *(id3v2[i]);
         }
       }
 
       if (dump_track_) {
-        cout << td;
+        os << td;
       }
 
       if (dump_id3v1_ && pid3v1) {
-        cout << *pid3v1;
+        os << *pid3v1;
       }
 
-      cout << endl;
+      os << endl;
+      cout << stm.str() << flush;
 
     }
     catch (const std::exception &ex) {
-- 
2.43.0


From 0a248cdddeed4317dded97796bdbadbe7c19e03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:54:10 +0000
Subject: [PATCH 123/194] fix: recognize the v1-only, v2-only, hex-case, yy &
 yyyy template options

---
 scribbu/tbt-lexer.ll | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/scribbu/tbt-lexer.ll b/scribbu/tbt-lexer.ll
index c094469..9f45256 100644
--- a/scribbu/tbt-lexer.ll
+++ b/scribbu/tbt-lexer.ll
@@ -129,9 +129,12 @@ year_abbrev         Y
 <REPLACEMENT>{pref_v2}      { return PREF_V2;     }
 <REPLACEMENT>{v1_encoding}  { return V1ENCODING;  }
 <REPLACEMENT>{ws}           { return WS;          }
+<REPLACEMENT>{hex_case}     { return HEX_CASE;    }
+<REPLACEMENT>{v1_only}      { return V1_ONLY;     }
+<REPLACEMENT>{v2_only}      { return V2_ONLY;     }
+<REPLACEMENT>{two_digits}   { return TWO_DIGITS;  }
+<REPLACEMENT>{four_digits}  { return FOUR_DIGITS; }
 
-<PARAMETER>{two_digits}     { BEGIN(REPLACEMENT); return TWO_DIGITS;  }
-<PARAMETER>{four_digits}    { BEGIN(REPLACEMENT); return FOUR_DIGITS; }
 <PARAMETER>{ascii}          { BEGIN(REPLACEMENT); return ASCII;       }
 <PARAMETER>{auto}           { BEGIN(REPLACEMENT); return AUTO;        }
 <PARAMETER>{all_lower}      { BEGIN(REPLACEMENT); return ALL_LOWER;   }
@@ -140,7 +143,6 @@ year_abbrev         Y
 <PARAMETER>{cp1252}         { BEGIN(REPLACEMENT); return CP1252;      }
 <PARAMETER>{decimal}        { BEGIN(REPLACEMENT); return DECIMAL;     }
 <PARAMETER>{hex}            { BEGIN(REPLACEMENT); return HEX;         }
-<PARAMETER>{hex_case}       { BEGIN(REPLACEMENT); return HEX_CASE;    }
 <PARAMETER>{iso8859_1}      { BEGIN(REPLACEMENT); return ISO8859_1;   }
 <PARAMETER>{lower}          { BEGIN(REPLACEMENT); return LOWER;       }
 <PARAMETER>{prefix}         { BEGIN(REPLACEMENT); return PREFIX;      }
@@ -150,8 +152,6 @@ year_abbrev         Y
 <PARAMETER>{utf16be}        { BEGIN(REPLACEMENT); return UTF16_BE;    }
 <PARAMETER>{utf16le}        { BEGIN(REPLACEMENT); return UTF16_LE;    }
 <PARAMETER>{utf32}          { BEGIN(REPLACEMENT); return UTF32;       }
-<PARAMETER>{v1_only}        { BEGIN(REPLACEMENT); return V1_ONLY;     }
-<PARAMETER>{v2_only}        { BEGIN(REPLACEMENT); return V2_ONLY;     }
 
 <PARAMETER>{text} {
   BEGIN(REPLACEMENT);
-- 
2.43.0


From 102a5e212b2f7a61f0c53efaf1fcfaf713c1b19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:54:10 +0000
Subject: [PATCH 124/194] fix: recognize the documented spelling of the cap
 template option

---
 scribbu/tbt-lexer.ll | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scribbu/tbt-lexer.ll b/scribbu/tbt-lexer.ll
index 9f45256..37f69f3 100644
--- a/scribbu/tbt-lexer.ll
+++ b/scribbu/tbt-lexer.ll
@@ -50,7 +50,7 @@ title        title
 year         year
 
 base         base
-cap          capitalization
+cap          cap(italization)?
 compress     compress
 hex_case     hex-case
 output       output
-- 
2.43.0


From 02dfa6c4086d853dea517295fafa9e15a0a9e781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:54:10 +0000
Subject: [PATCH 125/194] fix: accept the documented UTF-16 & UTF-32
 v1-encoding template options

---
 scribbu/tbt-parser.yy | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/scribbu/tbt-parser.yy b/scribbu/tbt-parser.yy
index b96f266..5c07ab0 100644
--- a/scribbu/tbt-parser.yy
+++ b/scribbu/tbt-parser.yy
@@ -518,6 +518,15 @@ v1_encoding: V1ENCODING EQUAL AUTO {
            | V1ENCODING EQUAL UTF8 {
                $$ = scribbu::tbt_support::v1_encoding::utf_8;
              }
+           | V1ENCODING EQUAL UTF16_BE {
+               $$ = scribbu::tbt_support::v1_encoding::utf_16_be;
+             }
+           | V1ENCODING EQUAL UTF16_LE {
+               $$ = scribbu::tbt_support::v1_encoding::utf_16_le;
+             }
+           | V1ENCODING EQUAL UTF32 {
+               $$ = scribbu::tbt_support::v1_encoding::utf_32;
+             }
            ;
 
 the_xform: THE {
-- 
2.43.0


From b3c3dd44a63a1c2226f33948f625baeaad05a14f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:54:10 +0000
Subject: [PATCH 126/194] fix: let whitespace be replaced by words templates
 use themselves

---
 scribbu/tbt-lexer.ll | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/scribbu/tbt-lexer.ll b/scribbu/tbt-lexer.ll
index 37f69f3..32af3a8 100644
--- a/scribbu/tbt-lexer.ll
+++ b/scribbu/tbt-lexer.ll
@@ -96,6 +96,8 @@ year_abbrev         Y
 
 %x REPLACEMENT
 %x PARAMETER
+%x WS_NAME
+%x WS_PARAMETER
 
 %%
 
@@ -128,7 +130,8 @@ year_abbrev         Y
 <REPLACEMENT>{pref_v1}      { return PREF_V1;     }
 <REPLACEMENT>{pref_v2}      { return PREF_V2;     }
 <REPLACEMENT>{v1_encoding}  { return V1ENCODING;  }
-<REPLACEMENT>{ws}           { return WS;          }
+<REPLACEMENT>{ws}           { BEGIN(WS_NAME); return WS; }
+<WS_NAME>"="                { BEGIN(WS_PARAMETER); return EQUAL; }
 <REPLACEMENT>{hex_case}     { return HEX_CASE;    }
 <REPLACEMENT>{v1_only}      { return V1_ONLY;     }
 <REPLACEMENT>{v2_only}      { return V2_ONLY;     }
@@ -153,7 +156,7 @@ year_abbrev         Y
 <PARAMETER>{utf16le}        { BEGIN(REPLACEMENT); return UTF16_LE;    }
 <PARAMETER>{utf32}          { BEGIN(REPLACEMENT); return UTF32;       }
 
-<PARAMETER>{text} {
+<PARAMETER,WS_PARAMETER>{text} {
   BEGIN(REPLACEMENT);
   tbtlval.text = unescape_and_copy(yytext);
   return PARAM_TEXT;
@@ -170,7 +173,7 @@ year_abbrev         Y
 <REPLACEMENT>{title_abbrev}        {BEGIN(INITIAL);return TITLE_ABBREV;       }
 <REPLACEMENT>{year_abbrev}         {BEGIN(INITIAL);return YEAR_ABBREV;        }
 
-<INITIAL,REPLACEMENT,PARAMETER>. {
+<*>. {
   std::cerr << "Matched unknown character: " << yytext[0] << std::endl;
   return UNKNOWN;
 }
-- 
2.43.0


From bf3c52890e0caf480c02c6299f53c62bece53e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:54:10 +0000
Subject: [PATCH 127/194] fix: don't skip (& print) line breaks within template
 replacements

---
 scribbu/tbt-lexer.ll | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scribbu/tbt-lexer.ll b/scribbu/tbt-lexer.ll
index 32af3a8..e3ebdab 100644
--- a/scribbu/tbt-lexer.ll
+++ b/scribbu/tbt-lexer.ll
@@ -173,7 +173,7 @@ year_abbrev         Y
 <REPLACEMENT>{title_abbrev}        {BEGIN(INITIAL);return TITLE_ABBREV;       }
 <REPLACEMENT>{year_abbrev}         {BEGIN(INITIAL);return YEAR_ABBREV;        }
 
-<*>. {
+<*>.|\n {
   std::cerr << "Matched unknown character: " << yytext[0] << std::endl;
   return UNKNOWN;
 }
-- 
2.43.0


From 119c1d56fa05e7ff1d8a4541ea9983a23b89001f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:54:10 +0000
Subject: [PATCH 128/194] fix: unescape equals signs in templates

---
 scribbu/tbt-lexer.ll | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scribbu/tbt-lexer.ll b/scribbu/tbt-lexer.ll
index e3ebdab..f0674e3 100644
--- a/scribbu/tbt-lexer.ll
+++ b/scribbu/tbt-lexer.ll
@@ -196,6 +196,7 @@ static std::string * unescape_and_copy(const char *text) {
       case ':':
       case '?':
       case '&':
+      case '=':
       case '\\':
         break;
       default:
-- 
2.43.0


From 19ca74e98b419f30c739ad08d720bb9a8616ec2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:54:10 +0000
Subject: [PATCH 129/194] fix: parse templates correctly after an invalid one

---
 scribbu/id3v2-utils.cc | 6 ++++++
 scribbu/tbt-lexer.ll   | 4 ++++
 2 files changed, 10 insertions(+)

diff --git a/scribbu/id3v2-utils.cc b/scribbu/id3v2-utils.cc
index aa8ff65..88f90d8 100644
--- a/scribbu/id3v2-utils.cc
+++ b/scribbu/id3v2-utils.cc
@@ -94,9 +94,15 @@ scribbu::read_id3v2(std::istream &ifs, std::size_t idx)
 //                         class template_processor                          //
 ///////////////////////////////////////////////////////////////////////////////
 
+/// Put the scanner back into its initial state (defined in tbt-lexer.ll)
+void tbtreset();
+
 /// Construct with the template in textual form
 scribbu::template_processor::template_processor(const std::string &templat)
 {
+  // A prior parse may have failed part-way through
+  tbtreset();
+
   YY_BUFFER_STATE buf = tbt_scan_string(templat.c_str());
   tbt_switch_to_buffer(buf); // switch flex to the buffer we just created
 
diff --git a/scribbu/tbt-lexer.ll b/scribbu/tbt-lexer.ll
index f0674e3..cb6a9aa 100644
--- a/scribbu/tbt-lexer.ll
+++ b/scribbu/tbt-lexer.ll
@@ -180,6 +180,10 @@ year_abbrev         Y
 
 %%
 
+void tbtreset() {
+  BEGIN(INITIAL);
+}
+
 static std::string * unescape_and_copy(const char *text) {
 
   std::string *p = new std::string();
-- 
2.43.0


From d119471eb99fd781458ee50adb5d926b24b05537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:54:10 +0000
Subject: [PATCH 130/194] fix: stop at the first encoding that works for ID3v1
 text in templates

---
 scribbu/tbt-support.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/scribbu/tbt-support.cc b/scribbu/tbt-support.cc
index 4993986..f3a8de3 100644
--- a/scribbu/tbt-support.cc
+++ b/scribbu/tbt-support.cc
@@ -351,9 +351,8 @@ scribbu::tbt_support::tag_based_term::v1_text_to_utf8(
 
     for (auto g: GUESSES) {
       try {
-        result = convert_encoding<std::string>(pbuf, cbbuf, g,
-                                               encoding::UTF_8);
-        break;
+        return convert_encoding<std::string>(pbuf, cbbuf, g,
+                                             encoding::UTF_8);
       } catch (const iconv_error&) {
         // Move on to the next guess...
       }
-- 
2.43.0


From b26f0538af6436a6f751b34997c226951ba5cbbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:54:10 +0000
Subject: [PATCH 131/194] fix: correct the byte order of little-endian ID3v1
 text in templates

---
 scribbu/tbt-support.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scribbu/tbt-support.cc b/scribbu/tbt-support.cc
index f3a8de3..cdc4720 100644
--- a/scribbu/tbt-support.cc
+++ b/scribbu/tbt-support.cc
@@ -336,7 +336,7 @@ scribbu::tbt_support::tag_based_term::v1_text_to_utf8(
       v1enc = v1_encoding::utf_16_be;
     }
     else if (2 <= cbbuf && 0xff == pbuf[0] && 0xfe == pbuf[1]) {
-      v1enc = v1_encoding::utf_16_be;
+      v1enc = v1_encoding::utf_16_le;
     }
   }
 
-- 
2.43.0


From 431a4ffdf09c9228951ee6cc0942ee51de1c7969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:54:10 +0000
Subject: [PATCH 132/194] fix: fall back to ID3v2 in templates when the ID3v1
 text is blank

---
 scribbu/tbt-support.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scribbu/tbt-support.hh b/scribbu/tbt-support.hh
index 0492d9f..9c96e83 100644
--- a/scribbu/tbt-support.hh
+++ b/scribbu/tbt-support.hh
@@ -207,7 +207,8 @@ namespace scribbu
             if (!s.empty()) {
               return s;
             }
-          } else if (v2 && !v2->empty()) {
+          }
+          if (v2 && !v2->empty()) {
             return *v2;
           }
           throw missing_source_text(pref);
-- 
2.43.0


From 69c1226e2c583775ec7a9fe5667e15f5f2bc42e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:54:10 +0000
Subject: [PATCH 133/194] fix: compress runs of whitespace in templates

---
 scribbu/tbt-support.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scribbu/tbt-support.cc b/scribbu/tbt-support.cc
index cdc4720..1b2295e 100644
--- a/scribbu/tbt-support.cc
+++ b/scribbu/tbt-support.cc
@@ -234,7 +234,7 @@ scribbu::tbt_support::do_ws_xform(const std::string &text,
   }
 
   vector<string> splits;
-  split(splits, text, is_any_of(" \t"));
+  split(splits, text, is_any_of(" \t"), token_compress_on);
   if (0 != replace.length()) {
     return join(splits, replace);
   }
-- 
2.43.0


From 15bb50405978ac7ca876e0aafd6fdddc39be891f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:54:10 +0000
Subject: [PATCH 134/194] fix: capitalizing empty text in a template isn't an
 error

---
 scribbu/tbt-support.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scribbu/tbt-support.cc b/scribbu/tbt-support.cc
index 1b2295e..6cd5fa6 100644
--- a/scribbu/tbt-support.cc
+++ b/scribbu/tbt-support.cc
@@ -201,6 +201,9 @@ scribbu::tbt_support::do_cap_xform(const std::string &text,
   using namespace boost;
 
   if (capitalization::capitalize == cap) {
+    if (text.empty()) {
+      return text;
+    }
     string result;
     result += toupper(text[0], locale(""));
     result += text.substr(1);
-- 
2.43.0


From 76254990f5228839fc7fafcec9a9ac4c1eb6212b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:54:10 +0000
Subject: [PATCH 135/194] fix: don't require a valid locale to capitalize text
 in templates

---
 scribbu/tbt-support.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scribbu/tbt-support.cc b/scribbu/tbt-support.cc
index 6cd5fa6..1fbeb22 100644
--- a/scribbu/tbt-support.cc
+++ b/scribbu/tbt-support.cc
@@ -205,7 +205,7 @@ scribbu::tbt_support::do_cap_xform(const std::string &text,
       return text;
     }
     string result;
-    result += toupper(text[0], locale(""));
+    result += toupper(text[0], locale());
     result += text.substr(1);
     return result;
   }
-- 
2.43.0


From f3bf2ad6a8e65fc996f2a4973ffa66aa4f9c5dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:54:10 +0000
Subject: [PATCH 136/194] fix: print the size in hexadecimal in templates

---
 scribbu/tbt-support.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scribbu/tbt-support.cc b/scribbu/tbt-support.cc
index 1fbeb22..6b74465 100644
--- a/scribbu/tbt-support.cc
+++ b/scribbu/tbt-support.cc
@@ -660,6 +660,7 @@ scribbu::tbt_support::size::evaluate(const file_info  & fi,
     if (hex_case::upper == c_) {
       buf << setiosflags(ios::uppercase);
     }
+    buf << n;
   }
 
   return buf.str();
-- 
2.43.0


From 39334d61b617926083229163e464821022a89c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:54:11 +0000
Subject: [PATCH 137/194] fix: initialize size & MD5 options not given in
 templates

---
 scribbu/tbt-support.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scribbu/tbt-support.hh b/scribbu/tbt-support.hh
index 9c96e83..e330907 100644
--- a/scribbu/tbt-support.hh
+++ b/scribbu/tbt-support.hh
@@ -582,7 +582,7 @@ namespace scribbu
         b_(b), c_(c)
       { }
       template <typename forward_input_iterator>
-      size(forward_input_iterator p0, forward_input_iterator p1)
+      size(forward_input_iterator p0, forward_input_iterator p1): size()
       {
         using boost::any_cast;
 
@@ -615,7 +615,7 @@ namespace scribbu
         b_(b), c_(c)
       { }
       template <typename forward_input_iterator>
-      md5(forward_input_iterator p0, forward_input_iterator p1)
+      md5(forward_input_iterator p0, forward_input_iterator p1): md5()
       {
         using boost::any_cast;
 
-- 
2.43.0


From b4dfba8bb344d003a9503b0610fb234f07710a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:54:11 +0000
Subject: [PATCH 138/194] fix: print MD5 checksums as numbers in templates

---
 scribbu/tbt-support.cc | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/scribbu/tbt-support.cc b/scribbu/tbt-support.cc
index 6b74465..fd8c3ff 100644
--- a/scribbu/tbt-support.cc
+++ b/scribbu/tbt-support.cc
@@ -685,8 +685,24 @@ scribbu::tbt_support::md5::evaluate(const file_info  & /*fi    */,
       buf << setiosflags(ios::uppercase);
     }
   }
-  for (auto x: D) {
-    buf << x;
+  if (base::hex == b_) {
+    for (auto x: D) {
+      buf << setw(2) << setfill('0') << (unsigned)x;
+    }
+  }
+  else {
+    // Divide by ten, repeatedly, until there's nothing left
+    string digits;
+    do {
+      unsigned rem = 0;
+      for (auto &x: D) {
+        rem = rem << 8 | x;
+        x = rem / 10;
+        rem %= 10;
+      }
+      digits.insert(digits.begin(), '0' + rem);
+    } while (any_of(D.begin(), D.end(), [](unsigned char x) { return x; }));
+    buf << digits;
   }
   return buf.str();
 
-- 
2.43.0


From b88140df54f2d2878c0ea7023030a502c4ac90cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:54:11 +0000
Subject: [PATCH 139/194] fix: tolerate short years in templates

---
 scribbu/tbt-support.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scribbu/tbt-support.cc b/scribbu/tbt-support.cc
index fd8c3ff..405cf8d 100644
--- a/scribbu/tbt-support.cc
+++ b/scribbu/tbt-support.cc
@@ -601,7 +601,7 @@ scribbu::tbt_support::year::evaluate(const file_info  & /*fi    */,
                                  v1_encoding::automatic);
 
   if (year_format::two_digits == fmt_) {
-    return year.substr(2);
+    return year.size() < 4 ? year : year.substr(2, 2);
   }
   else {
     return year;
-- 
2.43.0


From 75ab022ae61155e92f524cf176183d65bf66e78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:54:11 +0000
Subject: [PATCH 140/194] fix: skip all leading ID3v2 tags when computing
 checksums for templates

---
 scribbu/id3v2-utils.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/scribbu/id3v2-utils.cc b/scribbu/id3v2-utils.cc
index 88f90d8..dced260 100644
--- a/scribbu/id3v2-utils.cc
+++ b/scribbu/id3v2-utils.cc
@@ -134,11 +134,13 @@ std::string scribbu::template_processor::operator()(const std::filesystem::path
   std::tie(is, info) = scribbu::open_file(pth);
 
   // and use the open istream to read the...
-  std::unique_ptr<scribbu::id3v2_tag> pid3v2 = scribbu::maybe_read_id3v2(is); // ID3v2 tags...
+  std::vector<std::unique_ptr<scribbu::id3v2_tag>> id3v2;
+  scribbu::read_all_id3v2(is, std::back_inserter(id3v2));                     // ID3v2 tags...
   scribbu::track_data ti(is);                                                 // the track itself...
   std::unique_ptr<scribbu::id3v1_tag> pid3v1 = scribbu::process_id3v1(is);    // and the ID3v1 tag.
 
   // With this information, walk our terms, evaluating each & concatenating:
   return std::accumulate(terms_.begin(), terms_.end(), std::string(),
-                         process_and_concatenate(info, pid3v2.get(), ti, pid3v1.get()));
+                         process_and_concatenate(info, id3v2.empty() ? nullptr : id3v2.front().get(),
+                                                 ti, pid3v1.get()));
 }
-- 
2.43.0


From 280366ad00917cfe705e3d26d06769cf4af9cfb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:56:16 +0000
Subject: [PATCH 141/194] fix: fall back to the ID3v1 genre when the enhanced
 one is blank in templates

---
 scribbu/tbt-support.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scribbu/tbt-support.cc b/scribbu/tbt-support.cc
index 405cf8d..0041fad 100644
--- a/scribbu/tbt-support.cc
+++ b/scribbu/tbt-support.cc
@@ -503,8 +503,10 @@ scribbu::tbt_support::content_type::evaluate(const file_info  & /*fi    */,
   if (pid3v1) {
     // Try for extended ID3v1 info...
     pid3v1->enh_genre(back_inserter(v1));
-    if (v1.empty()) {
+    if (all_of(v1.begin(), v1.end(),
+               [](unsigned char x) { return 0 == x || ' ' == x; })) {
       // but if we can't get that, fall back to ID3v1 genre.
+      v1.clear();
       boost::optional<std::string> text = text_for_genre(pid3v1->genre());
       if (text) {
         for (auto c: *text) {
-- 
2.43.0


From eb1db691d6b198d3cef304259978aa8feef661db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:28:22 +0000
Subject: [PATCH 142/194] fix: apply text edits to ID3v1 tags unless tags are
 selected by number

---
 src/text.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/text.cc b/src/text.cc
index c673fcd..e611c59 100644
--- a/src/text.cc
+++ b/src/text.cc
@@ -112,7 +112,7 @@ public:
            v2_creation_policy v2cp, bool verbose, bool adj_unsync,
            bool create_backups):
     tagset_processor(v2_simple_tag_scope_policy::all,
-                     v1_tag_scope_policy::no,
+                     v1_tag_scope_policy::yes,
                      v2cp,
                      v1_creation_policy::never,
                      false,
@@ -135,7 +135,7 @@ public:
              scribbu::encoding srcenc, v2_creation_policy v2cp,
              bool verbose, bool adj_unsync, bool create_backups):
       tagset_processor(pt0, pt1,
-                       v1_tag_scope_policy::yes,
+                       v1_tag_scope_policy::no,
                        v2cp,
                        v1_creation_policy::never,
                        false,
-- 
2.43.0


From 417cebe507bb8f7817fe393a268b6815575dddda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:30:05 +0000
Subject: [PATCH 143/194] fix: write ID3v1 tags edited by the text command

---
 src/text.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/text.cc b/src/text.cc
index e611c59..44e14fc 100644
--- a/src/text.cc
+++ b/src/text.cc
@@ -237,12 +237,15 @@ set_text::process_v1(scribbu::id3v1_tag &v1)
     switch (id) {
     case id3v2_text_frames::tit2:
       v1.set_title(string());
+      ++num_deltas;
       break;
     case id3v2_text_frames::tpe1:
       v1.set_artist(string());
+      ++num_deltas;
       break;
     case id3v2_text_frames::talb:
       v1.set_album(string());
+      ++num_deltas;
       break;
     default:
       // do nothing
@@ -254,12 +257,15 @@ set_text::process_v1(scribbu::id3v1_tag &v1)
     switch (x.first) {
     case id3v2_text_frames::tit2:
       v1.set_title(x.second, enc_);
+      ++num_deltas;
       break;
     case id3v2_text_frames::tpe1:
       v1.set_artist(x.second, enc_);
+      ++num_deltas;
       break;
     case id3v2_text_frames::talb:
       v1.set_album(x.second, enc_);
+      ++num_deltas;
       break;
     default:
       // do nothing
-- 
2.43.0


From c247af026e2e7472f667a94463fc9d7f42009f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:30:11 +0000
Subject: [PATCH 144/194] fix: process the tags selected, in any order, and no
 others

---
 src/command-utilities.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/command-utilities.cc b/src/command-utilities.cc
index 1cfff18..e38bbb5 100644
--- a/src/command-utilities.cc
+++ b/src/command-utilities.cc
@@ -337,7 +337,7 @@ tagset_processor::process_file(const fs::path &pth)
 
     // Ok-- now we walk the pointers to `id3v2_tag' in `v2'
     for (size_t i = 0; i < v2.size(); ++i) {
-      if (tags.front() == i) {
+      if (find(tags.begin(), tags.end(), i) != tags.end()) {
         bool upd = false;
 
         id3v2_tag *ptag = v2[i].get();
@@ -355,7 +355,6 @@ tagset_processor::process_file(const fs::path &pth)
           throw bad_id3v2_version(version);
         }
 
-        tags.pop_front();
         dirty = dirty || upd;
       } // End if on `tags'
     } // End iteration over `v2'
-- 
2.43.0


From 6a94617be975c2232bcffbee9ec6b8fff0c89f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:31:08 +0000
Subject: [PATCH 145/194] fix: use the undetermined language when the locale
 doesn't name one

---
 scribbu/charsets.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/scribbu/charsets.cc b/scribbu/charsets.cc
index 7c2f0e0..c4cfddd 100644
--- a/scribbu/charsets.cc
+++ b/scribbu/charsets.cc
@@ -1197,10 +1197,13 @@ scribbu::language_from_locale()
   }
 
   if (0 == iso_869_1[0] && 0 == iso_869_1[1]) {
-    throw std::runtime_error("Unable to determine language from locale");
+    return language::und;
   }
 
-  return language_from_iso_639_1(iso_869_1);
+  // This will be `from_locale' if there's no such language (in the "C" locale,
+  // e.g.)
+  language lang = language_from_iso_639_1(iso_869_1);
+  return language::from_locale == lang ? language::und : lang;
 
 }
 
-- 
2.43.0


From 278d93ab52d917ba02452128ecfd9582ce1d786f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:33:28 +0000
Subject: [PATCH 146/194] fix: don't write files whose tags haven't changed

---
 src/command-utilities.cc | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/command-utilities.cc b/src/command-utilities.cc
index e38bbb5..0260ebd 100644
--- a/src/command-utilities.cc
+++ b/src/command-utilities.cc
@@ -187,6 +187,16 @@ namespace {
     return scribbu::process_id3v1(ifs);
   }
 
+  /// The tag, as it would be written; used to tell whether it has been changed
+  template <typename Tag>
+  std::string
+  tag_image(const Tag &tag)
+  {
+    std::ostringstream stm;
+    tag.write(stm);
+    return stm.str();
+  }
+
 }
 
 /*virtual*/
@@ -341,6 +351,7 @@ tagset_processor::process_file(const fs::path &pth)
         bool upd = false;
 
         id3v2_tag *ptag = v2[i].get();
+        string image = tag_image(*ptag);
         unsigned char version = ptag->version();
         if (2 == version) {
           id3v2_2_tag &tag = dynamic_cast<id3v2_2_tag&>(*ptag);
@@ -355,6 +366,8 @@ tagset_processor::process_file(const fs::path &pth)
           throw bad_id3v2_version(version);
         }
 
+        // Dry runs don't change the tag, so take the implementation's word for it
+        upd = upd && (dry_run_ || image != tag_image(*ptag));
         dirty = dirty || upd;
       } // End if on `tags'
     } // End iteration over `v2'
@@ -378,7 +391,9 @@ tagset_processor::process_file(const fs::path &pth)
       dirty = true;
     }
   } else if (v1_tag_scope_policy_ != v1_tag_scope_policy::no) {
-    dirty |= process_v1(*pv1);
+    string image = tag_image(*pv1);
+    bool upd = process_v1(*pv1);
+    dirty |= upd && (dry_run_ || image != tag_image(*pv1));
   }
 
   // OK-- processing logic done. Update our tagset with any newly created tags:
-- 
2.43.0


From a5a45227225029a0556447758cc67227764e153d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:33:28 +0000
Subject: [PATCH 147/194] fix: write non-ASCII text to ID3v1 tags as ISO-8859-1

---
 src/text.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/text.cc b/src/text.cc
index 44e14fc..376eee0 100644
--- a/src/text.cc
+++ b/src/text.cc
@@ -256,15 +256,18 @@ set_text::process_v1(scribbu::id3v1_tag &v1)
   for_each(adds_.begin(), adds_.end(), [&](const strings_type::value_type &x) {
     switch (x.first) {
     case id3v2_text_frames::tit2:
-      v1.set_title(x.second, enc_);
+      v1.set_title(x.second, enc_, encoding::ISO_8859_1, false,
+                   on_no_encoding::transliterate);
       ++num_deltas;
       break;
     case id3v2_text_frames::tpe1:
-      v1.set_artist(x.second, enc_);
+      v1.set_artist(x.second, enc_, encoding::ISO_8859_1, false,
+                    on_no_encoding::transliterate);
       ++num_deltas;
       break;
     case id3v2_text_frames::talb:
-      v1.set_album(x.second, enc_);
+      v1.set_album(x.second, enc_, encoding::ISO_8859_1, false,
+                   on_no_encoding::transliterate);
       ++num_deltas;
       break;
     default:
-- 
2.43.0


From 5bd77dfd59bdc25837ffd1457834266446d6558a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:33:28 +0000
Subject: [PATCH 148/194] fix: accept numbers for the genre command's --v1
 option

---
 src/genre.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/genre.cc b/src/genre.cc
index d865dbe..51418ca 100644
--- a/src/genre.cc
+++ b/src/genre.cc
@@ -838,7 +838,7 @@ namespace {
       ("tag,t", po::value<vector<size_t>>(), "Zero-based index of the ID3v2 "
        "tag on which to operate; may be given more than once to select "
        "multiple tags")
-      ("v1,v", po::value<unsigned char>(), "Genre to use for ID3v1 tags in "
+      ("v1,v", po::value<unsigned int>(), "Genre to use for ID3v1 tags in "
        "combination with free-form text")
       ("v1-only,1", po::bool_switch(), "Operate on ID3v1 tags only; incompatible "
        "with --Genre")
@@ -949,7 +949,12 @@ namespace {
 
       unsigned char v1_genre = UNDEFINED_GENRE;
       if (vm.count("v1")) {
-        v1_genre = vm["v1"].as<unsigned char>();
+        unsigned int scratch = vm["v1"].as<unsigned int>();
+        if (256 > scratch) {
+          v1_genre = (unsigned char) scratch;
+        } else {
+          throw po::invalid_option_value("v1");
+        }
       }
 
       vector<size_t> tags;
-- 
2.43.0


From 5b73114506557a9ad17c2f5d9e6cb0b44abdd047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:33:28 +0000
Subject: [PATCH 149/194] fix: leave the genre command's -v to --v1, as
 documented

---
 src/genre.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/genre.cc b/src/genre.cc
index 51418ca..52dddd6 100644
--- a/src/genre.cc
+++ b/src/genre.cc
@@ -844,7 +844,7 @@ namespace {
        "with --Genre")
       ("v2-only,2", po::bool_switch(), "Operate on ID3v2 tags only; incompatible "
        "with --v1")
-      ("verbose,v", po::bool_switch(), "Produce more verbose output during "
+      ("verbose", po::bool_switch(), "Produce more verbose output during "
        "operation")
       ("winamp,w", po::value<unsigned int>(), "Winamp genre, 0-191 (inclusive)");
 
-- 
2.43.0


From 5ae4e406db7e4b590ddae4d94bfc948615d5de17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:33:28 +0000
Subject: [PATCH 150/194] fix: copy the track number to ID3v2 tags created from
 ID3v1 tags

---
 src/command-utilities.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/command-utilities.cc b/src/command-utilities.cc
index 0260ebd..50b0636 100644
--- a/src/command-utilities.cc
+++ b/src/command-utilities.cc
@@ -466,5 +466,10 @@ copy_id3_v1(const scribbu::id3v1_tag &v1)
   text = v1.year<string>();
   if (4 == text.length()) p->year(text);
 
+  bool has_track;
+  unsigned char track;
+  tie(has_track, track) = v1.track_number();
+  if (has_track) p->track(to_string((unsigned int)track));
+
   return p;
 }
-- 
2.43.0


From b0736f603732324f48836fabb148549fbbba5841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:33:28 +0000
Subject: [PATCH 151/194] fix: add the tag cloud to ID3v2 tags created by the
 xtag command

---
 src/xtag.cc | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/xtag.cc b/src/xtag.cc
index a27c6f5..b278036 100644
--- a/src/xtag.cc
+++ b/src/xtag.cc
@@ -243,7 +243,7 @@ private:
 
   template <typename tag_type>
   bool
-  process_tag(tag_type &tag)
+  process_tag(tag_type &tag, bool create)
   {
     using namespace std;
 
@@ -288,7 +288,7 @@ private:
     } // End iteration over `tag''s frames.
 
     bool upd = num_xtag != 0;
-    if (!num_xtag && create_ && !get_) {
+    if (!num_xtag && create && !get_) {
       if (dry_run()) {
         cout << "creating a new XTAG frame for " << owner_ << ": " <<
           tag_cloud_ << endl;
@@ -394,7 +394,7 @@ std::unique_ptr<scribbu::id3v2_tag>
 xtag_processor::create_v2(const scribbu::id3v1_tag &v1)
 {
   auto p = copy_id3_v1(v1);
-  process_tag(*p);
+  process_tag(*p, true);
   return p;
 }
 
@@ -404,7 +404,7 @@ std::unique_ptr<scribbu::id3v2_tag>
 xtag_processor::create_v2()
 {
   auto p = std::make_unique<scribbu::id3v2_3_tag>(DEFAULT_PADDING);
-  process_tag(*p);
+  process_tag(*p, true);
   return p;
 }
 
@@ -419,21 +419,21 @@ xtag_processor::process_v1(scribbu::id3v1_tag &v1)
 /*virtual*/ bool
 xtag_processor::process_v2(scribbu::id3v2_2_tag &v2)
 {
-  return process_tag(v2);
+  return process_tag(v2, create_);
 }
 
 /// Process an ID3v2.3 tag
 /*virtual*/ bool
 xtag_processor::process_v2(scribbu::id3v2_3_tag &v2)
 {
-  return process_tag(v2);
+  return process_tag(v2, create_);
 }
 
 /// Process an ID3v2.4 tag
 /*virtual*/ bool
 xtag_processor::process_v2(scribbu::id3v2_4_tag &v2)
 {
-  return process_tag(v2);
+  return process_tag(v2, create_);
 }
 
 namespace {
-- 
2.43.0


From 1363e2bfa780bedd456ce535b17adb50b8f44a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:37:38 +0000
Subject: [PATCH 152/194] fix: create ID3v1 tags from ID3v2 tags which lack
 some of the frames

---
 src/command-utilities.hh | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/command-utilities.hh b/src/command-utilities.hh
index 1104880..a2472e7 100644
--- a/src/command-utilities.hh
+++ b/src/command-utilities.hh
@@ -444,7 +444,11 @@ namespace detail {
     using namespace scribbu;
     string text;
     auto p = find_if(p0, p1, [&](const unique_ptr<id3v2_tag> &p) {
-      text = p->text(frm);
+      try {
+        text = p->text(frm);
+      } catch (const id3v2_tag::unknown_frame_error&) {
+        text.clear();
+      }
       return !text.empty();
     });
     return make_tuple(p != p1, text);
@@ -461,6 +465,7 @@ namespace detail {
 
     typedef typename FII::value_type T;
     auto p = find_if(p0, p1, [&](const T &p) {
+      if (!p->has_year()) return false;
       text = p->year();
       return 4 == text.length();
     });
@@ -483,6 +488,7 @@ namespace detail {
 
     typedef typename FII::value_type T;
     for_each(p0, p1, [&](const T &p) {
+      if (!p->has_content_type()) return;
       string text = p->content_type();
       if (text.length()) {
         size_t dl;
-- 
2.43.0


From a1bae0b843d6164f748800f0046af52a2ec6419d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:37:38 +0000
Subject: [PATCH 153/194] fix: set the genre in ID3v2 tags which have none

---
 src/genre.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/genre.cc b/src/genre.cc
index 52dddd6..6aa7bbf 100644
--- a/src/genre.cc
+++ b/src/genre.cc
@@ -366,7 +366,7 @@ set_genre::process_v1(scribbu::id3v1_tag &v1)
 /*virtual*/ bool
 set_genre::process_v2(scribbu::id3v2_2_tag &v2)
 {
-  if (v2.text(scribbu::id3v2_text_frames::tcon) == content_type_) {
+  if (v2.has_content_type() && v2.content_type() == content_type_) {
     return false;
   }
   v2.text(scribbu::id3v2_text_frames::tcon, content_type_);
@@ -377,7 +377,7 @@ set_genre::process_v2(scribbu::id3v2_2_tag &v2)
 /*virtual*/ bool
 set_genre::process_v2(scribbu::id3v2_3_tag &v2)
 {
-  if (v2.text(scribbu::id3v2_text_frames::tcon) == content_type_) {
+  if (v2.has_content_type() && v2.content_type() == content_type_) {
     return false;
   }
   v2.text(scribbu::id3v2_text_frames::tcon, content_type_);
@@ -388,7 +388,7 @@ set_genre::process_v2(scribbu::id3v2_3_tag &v2)
 /*virtual*/ bool
 set_genre::process_v2(scribbu::id3v2_4_tag &v2)
 {
-  if (v2.text(scribbu::id3v2_text_frames::tcon) == content_type_) {
+  if (v2.has_content_type() && v2.content_type() == content_type_) {
     return false;
   }
   v2.text(scribbu::id3v2_text_frames::tcon, content_type_);
-- 
2.43.0


From de78fa240a1c0653d30fd99865ffd94698668261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:37:38 +0000
Subject: [PATCH 154/194] fix: read ID3v1 tags as ISO-8859-1 when creating
 ID3v2 tags from them

---
 src/command-utilities.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/command-utilities.cc b/src/command-utilities.cc
index 50b0636..a8f1513 100644
--- a/src/command-utilities.cc
+++ b/src/command-utilities.cc
@@ -448,13 +448,13 @@ copy_id3_v1(const scribbu::id3v1_tag &v1)
 
   unique_ptr<id3v2_3_tag> p(new id3v2_3_tag(1024));
 
-  string text = v1.artist<string>();
+  string text = v1.artist<string>(encoding::ISO_8859_1);
   if (text.length()) p->text(id3v2_text_frames::tpe1, text);
-  text = v1.title<string>();
+  text = v1.title<string>(encoding::ISO_8859_1);
   if (text.length()) p->text(id3v2_text_frames::tit2, text);
-  text = v1.album<string>();
+  text = v1.album<string>(encoding::ISO_8859_1);
   if (text.length()) p->text(id3v2_text_frames::talb, text);
-  text = v1.comment<string>();
+  text = v1.comment<string>(encoding::ISO_8859_1);
   if (text.length()) p->add_comment(text);
 
   unsigned char genre = v1.genre();
@@ -463,7 +463,7 @@ copy_id3_v1(const scribbu::id3v1_tag &v1)
     p->content_type(*opt);
   }
 
-  text = v1.year<string>();
+  text = v1.year<string>(encoding::ISO_8859_1);
   if (4 == text.length()) p->year(text);
 
   bool has_track;
-- 
2.43.0


From a46bb3a4ac6c0b4bed80723e10a7ab2dcbadfb77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:37:38 +0000
Subject: [PATCH 155/194] fix: leave popularimeters alone when told to process
 only play counts

---
 src/popm.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/popm.cc b/src/popm.cc
index 400ce6b..b8bc69a 100644
--- a/src/popm.cc
+++ b/src/popm.cc
@@ -371,11 +371,13 @@ private:
           traits_type::is_popm(F)) {
         // Just ugh.
         popm_type &G = dynamic_cast<popm_type&>(F);
-        string email = G.template email<string>();
         size_t new_pc = G.count();
-        if (!owner_ || email == *owner_) {
-          new_pc = process_popm<traits_type>(G, email);
-          ++num_popm;
+        if (frame_policy::pcnt_only != frame_policy_) {
+          string email = G.template email<string>();
+          if (!owner_ || email == *owner_) {
+            new_pc = process_popm<traits_type>(G, email);
+            ++num_popm;
+          }
         }
         if (new_pc > curr_pc) curr_pc = new_pc;
       }
-- 
2.43.0


From 358bf17da2ed2cb66941b76fc4d31f04883717e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:37:43 +0000
Subject: [PATCH 156/194] fix: heed the popm command's --tag option

---
 src/popm.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/popm.cc b/src/popm.cc
index b8bc69a..7c308ad 100644
--- a/src/popm.cc
+++ b/src/popm.cc
@@ -853,7 +853,7 @@ namespace {
 
       vector<size_t> tags;
       if (vm.count("tag")) {
-        vector<size_t> V = vm["tag"].as<vector<size_t>>();
+        tags = vm["tag"].as<vector<size_t>>();
       }
 
       boost::optional<unsigned char> rating;
-- 
2.43.0


From 44ffd72f13e9fd27d4b8c2d09c3c3883f13d478e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:39:45 +0000
Subject: [PATCH 157/194] fix: create play counts with the value asked for

---
 src/popm.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/popm.cc b/src/popm.cc
index 7c308ad..f74774d 100644
--- a/src/popm.cc
+++ b/src/popm.cc
@@ -404,7 +404,8 @@ private:
         // 3. finally, if pc_policy is "increment", we presently have a play
         //    count of zero, so we should again use play_count_
 
-        size_t pc = curr_pc == 0 ? play_count_ : curr_pc;
+        size_t pc = curr_pc == 0 || pc_policy::absolute == play_count_policy_ ?
+          play_count_ : curr_pc;
 
         if (dry_run() || verbose()) {
           cout << "Creating a new PCNT frame with a play count of " << pc <<
@@ -431,7 +432,8 @@ private:
         // 3. finally, if pc_policy is "increment", we presently have a play
         //    count of zero, so we should again use play_count_
 
-        size_t pc = curr_pc == 0 ? play_count_ : curr_pc;
+        size_t pc = curr_pc == 0 || pc_policy::absolute == play_count_policy_ ?
+          play_count_ : curr_pc;
 
         if (dry_run() || verbose()) {
           cout << "Creating a new POPM frame with an owner of " << email <<
-- 
2.43.0


From 8fda5bc05f98d0d3eba720e2a639666f0f1a50a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:48:30 +0000
Subject: [PATCH 158/194] fix: refuse to increment play counts beyond what can
 be represented

---
 src/popm.cc | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/popm.cc b/src/popm.cc
index f74774d..b6c40f5 100644
--- a/src/popm.cc
+++ b/src/popm.cc
@@ -25,7 +25,9 @@
 
 #include "command-utilities.hh"
 
+#include <limits>
 #include <queue>
+#include <stdexcept>
 #include <string>
 
 #include <filesystem>
@@ -265,6 +267,15 @@ private:
     // popm_type make_popm(const string &email, unsigned char rating, size_t pc);
   };
 
+  /// Compute an incremented play count
+  size_t add_to_count(size_t n) const
+  {
+    if (play_count_ > std::numeric_limits<size_t>::max() - n) {
+      throw std::domain_error("play count overflow");
+    }
+    return n + play_count_;
+  }
+
   /// Process a PCNT frame
   template <typename tag_type>
   size_t process_pcnt(typename tag_type::pcnt_type &G)
@@ -274,7 +285,7 @@ private:
 
     size_t new_pc = play_count_;
     if (pc_policy::increment == play_count_policy_) {
-      new_pc += G.count();
+      new_pc = add_to_count(G.count());
     }
     if (dry_run() || verbose()) {
       cout << "Setting PCNT to " << new_pc << "." << endl;
@@ -295,7 +306,7 @@ private:
 
     size_t new_pc = play_count_;
     if (pc_policy::increment == play_count_policy_) {
-      new_pc += G.count();
+      new_pc = add_to_count(G.count());
     }
     unsigned char rating = rating_ ? *rating_ : G.rating();
     if (dry_run() || verbose()) {
-- 
2.43.0


From 076871a25fa39d0a886cdf86ee5d1721407c9be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:20:02 +0000
Subject: [PATCH 159/194] fix: don't rename files just renamed again when
 processing a directory

---
 src/rename.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/rename.cc b/src/rename.cc
index 241701c..27403e7 100644
--- a/src/rename.cc
+++ b/src/rename.cc
@@ -140,8 +140,12 @@ namespace {
   {
     const boost::regex REGEX(".*\\.mp3");
 
-    std::for_each(fs::recursive_directory_iterator(pth),
-                  fs::recursive_directory_iterator(),
+    // Take stock before doing anything, so as not to come upon our own output.
+    std::vector<fs::directory_entry> entries;
+    std::copy(fs::recursive_directory_iterator(pth),
+              fs::recursive_directory_iterator(),
+              std::back_inserter(entries));
+    std::for_each(entries.begin(), entries.end(),
                   [&](const fs::directory_entry &p) {
                     // the iterators dereference to a directory_entry
                     fs::path pth = p.path();
-- 
2.43.0


From c396db9a27a24869a751a9cbe6588bf4a57549ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:20:02 +0000
Subject: [PATCH 160/194] fix: don't write another header when appending to a
 playlist

---
 src/m3u.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/m3u.cc b/src/m3u.cc
index 64126a4..9199591 100644
--- a/src/m3u.cc
+++ b/src/m3u.cc
@@ -270,7 +270,11 @@ namespace {
       throw scribbu::file_open_error(out.native(), errno);
     }
 
-    ofs_ << "#EXTM3U" << endl;
+    // When appending, there's (presumably) a header already.
+    ofs_.seekp(0, ios_base::end);
+    if (ofs_.tellp() == streampos(0)) {
+      ofs_ << "#EXTM3U" << endl;
+    }
 
   }
 
-- 
2.43.0


From 82564296dff7d672689689a2630631e9bc6fc657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:20:02 +0000
Subject: [PATCH 161/194] fix: heed the m3u command's --source-encoding option

---
 src/m3u.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/m3u.cc b/src/m3u.cc
index 9199591..0b6533b 100644
--- a/src/m3u.cc
+++ b/src/m3u.cc
@@ -390,8 +390,8 @@ namespace {
       //////////////////////////////////////////////////////////////////////////
 
       boost::optional<encoding> src_enc = boost::none;
-      if (vm.count("encoding")) {
-        src_enc = vm["encoding"].as<encoding>();
+      if (!vm["source-encoding"].defaulted()) {
+        src_enc = vm["source-encoding"].as<encoding>();
       }
       fs::path out = vm.count("output") ?
         vm["output"].as<fs::path>() : fs::path();
-- 
2.43.0


From e679ab7da39c496d3d3147e5e0291adbfa1424c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:20:02 +0000
Subject: [PATCH 162/194] fix: don't overwrite the file being split

---
 src/split.cc | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/split.cc b/src/split.cc
index 9dafd1e..a010901 100644
--- a/src/split.cc
+++ b/src/split.cc
@@ -50,6 +50,7 @@ For detailed help, say `scribbu split --help'. To see the manual, say
 )");
 
   void xfer_bytes(std::istream   &in,
+                  const fs::path &from,
                   const fs::path &pth,
                   std::size_t     cb)
   {
@@ -61,6 +62,11 @@ For detailed help, say `scribbu split --help'. To see the manual, say
       throw scribbu::id3v2_tag::invalid_tag();
     }
 
+    // Nor overwrite the very file we're copying from.
+    if (fs::exists(pth) && fs::equivalent(pth, from)) {
+      throw std::runtime_error("`" + pth.string() + "' is the file being split");
+    }
+
     std::ofstream ofs(pth, std::istream::binary);
     ofs.exceptions(EXC_MASK);
 
@@ -109,7 +115,7 @@ For detailed help, say `scribbu split --help'. To see the manual, say
       stm << "id3v2" << count << suffix;
       ++count;
       fs::path pth(stm.str());
-      xfer_bytes(ifs, pth, id3v2.size_on_disk());
+      xfer_bytes(ifs, in, pth, id3v2.size_on_disk());
       // Another?
       id3v2 = scribbu::looking_at_id3v2(ifs);
     }
@@ -118,11 +124,11 @@ For detailed help, say `scribbu split --help'. To see the manual, say
     scribbu::id3v1_info I = scribbu::ends_in_id3v1(ifs);
     std::size_t cb = I.start_ - ifs.tellg();
     fs::path pth("track" + suffix);
-    xfer_bytes(ifs, pth, cb);
+    xfer_bytes(ifs, in, pth, cb);
 
     if (I.start_ != I.end_) {
       fs::path pth("id3v1" + suffix);
-      xfer_bytes(ifs, pth, I.end_ - I.start_);
+      xfer_bytes(ifs, in, pth, I.end_ - I.start_);
     }
 
   } // End free function split_file.
-- 
2.43.0


From 98e95e39a11fae11535349e3fa60d624b1b128b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:22:15 +0000
Subject: [PATCH 163/194] fix: keep line breaks in titles out of playlists

---
 src/m3u.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/m3u.cc b/src/m3u.cc
index 0b6533b..3cedc36 100644
--- a/src/m3u.cc
+++ b/src/m3u.cc
@@ -208,6 +208,10 @@ namespace {
       display = pth.stem().native();
     }
 
+    // An entry's title goes on one line.
+    replace_if(display.begin(), display.end(),
+               [](char c) { return '\n' == c || '\r' == c; }, ' ');
+
     os_ << "#EXTINF:" << (int) (secs + 0.5) << "," << display << "\n" <<
       pth.native() << endl;
   }
-- 
2.43.0


From 36780980f3e326f20299fb08646514e57d6d1466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:56:11 +0000
Subject: [PATCH 164/194] fix: hand unknown frames' payload to Scheme as it is
 without unsynchronisation, compression & grouping

---
 scribbu/framesv23.hh    |  4 ++++
 scribbu/scheme-serde.cc | 20 +++++++++++++++++---
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/scribbu/framesv23.hh b/scribbu/framesv23.hh
index ef1ce17..3296478 100644
--- a/scribbu/framesv23.hh
+++ b/scribbu/framesv23.hh
@@ -263,6 +263,10 @@ namespace scribbu {
     /// unsynchronisation scheme if the caller so chooses ("unsynchronised"
     /// will be updated accordingly)
     virtual std::size_t write(std::ostream &os, bool unsync) const;
+    /// Write this frame's payload to an output stream, exclusive of the frame
+    /// header, as well as any compression, encryption or unsynchronisation
+    std::size_t write_payload(std::ostream &os) const
+    { return serialize(os); }
 
   protected:
 
diff --git a/scribbu/scheme-serde.cc b/scribbu/scheme-serde.cc
index 333f5cb..672a424 100644
--- a/scribbu/scheme-serde.cc
+++ b/scribbu/scheme-serde.cc
@@ -1892,7 +1892,7 @@ scribbu::scheme_serde_dispatcher::de_unknown_frame_2_2(const scribbu::id3v2_2_fr
   SCM_SET_SLOT(x, 5, scm_from_locale_string(f.id().as_string().c_str()));
 
   std::stringstream stm;
-  f.write(stm, unsync);
+  f.write(stm, false);
   std::string s = stm.str();
 
   SCM bv = scm_c_make_bytevector(s.length());
@@ -1928,9 +1928,16 @@ scribbu::scheme_serde_dispatcher::de_unknown_frame_2_3(const scribbu::id3v2_3_fr
   SCM_SET_SLOT(x, 5, scm_from_locale_string(f.id().as_string().c_str()));
 
   std::stringstream stm;
-  f.write(stm, unsync);
+  f.write_payload(stm);
   std::string s = stm.str();
 
+  // The data are exclusive of compression, grouping & unsynchronisation
+  stm.str(std::string());
+  unknown_id3v2_3_frame(f.id(), f.tag_alter_preserve(), f.file_alter_preserve(),
+                        f.readonly(), boost::none, boost::none, boost::none,
+                        s.begin(), s.end()).write(stm, false);
+  s = stm.str();
+
   SCM bv = scm_c_make_bytevector(s.length());
   memcpy(SCM_BYTEVECTOR_CONTENTS(bv), s.data(), s.length());
 
@@ -1965,9 +1972,16 @@ scribbu::scheme_serde_dispatcher::de_unknown_frame_2_4(const scribbu::id3v2_4_fr
   SCM_SET_SLOT(x, 5, scm_from_locale_string(f.id().as_string().c_str()));
 
   std::stringstream stm;
-  f.write(stm, unsync);
+  f.write_payload(stm);
   std::string s = stm.str();
 
+  // The data are exclusive of compression, grouping & unsynchronisation
+  stm.str(std::string());
+  unknown_id3v2_4_frame(f.id(), f.tag_alter_preserve(), f.file_alter_preserve(),
+                        f.readonly(), boost::none, boost::none, false, false,
+                        boost::none, s.begin(), s.end()).write(stm, false);
+  s = stm.str();
+
   SCM bv = scm_c_make_bytevector(s.length());
   memcpy(SCM_BYTEVECTOR_CONTENTS(bv), s.data(), s.length());
 
-- 
2.43.0


From 05584c7a19cfa226b98582f76287a7ed6b3a877e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:56:11 +0000
Subject: [PATCH 165/194] fix: take the unsynchronisation of unknown ID3v2.4
 frames from its own slot

---
 scribbu/scheme-serde.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scribbu/scheme-serde.cc b/scribbu/scheme-serde.cc
index 672a424..c592306 100644
--- a/scribbu/scheme-serde.cc
+++ b/scribbu/scheme-serde.cc
@@ -2084,7 +2084,7 @@ scribbu::scheme_serde_dispatcher::ser_unknown_frame_2_4(SCM scm) const
     ro = read_only::set;
   }
   bool unsync = false;
-  if (SCM_BOOL_T == SCM_SLOT(scm, 3)) {
+  if (SCM_BOOL_T == SCM_SLOT(scm, 4)) {
     unsync = true;
   }
 
-- 
2.43.0


From ccaab5d70df74845d1120c21d481cf765f67f7a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:56:11 +0000
Subject: [PATCH 166/194] fix: write tag clouds from Scheme to ID3v2.2 &
 ID3v2.4 tags

---
 scribbu/scheme-serde.cc | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/scribbu/scheme-serde.cc b/scribbu/scheme-serde.cc
index c592306..16ab723 100644
--- a/scribbu/scheme-serde.cc
+++ b/scribbu/scheme-serde.cc
@@ -1247,10 +1247,13 @@ namespace {
 
       SCM scm = scm_list_ref(scm_tags, scm_from_int(i));
 
-      string key = ctx.free_utf8_string(scm_list_ref(scm, 0));
+      string key = ctx.free_utf8_string(scm_car(scm));
 
       set<string> vals;
-      SCM scm_vals = scm_list_ref(scm, scm_from_int(1));
+      SCM scm_vals = scm_cdr(scm);
+      if (scm_is_string(scm_vals)) {
+        scm_vals = scm_list_1(scm_vals);
+      }
       for (int j = 0, m = scm_to_int(scm_length(scm_vals)); j < m; ++j) {
         SCM scm_val = scm_list_ref(scm_vals, scm_from_int(j));
         string val = ctx.free_utf8_string(scm_val);
@@ -1292,8 +1295,8 @@ namespace {
     for (int i = 0, n = scm_to_int(scm_length(scm_tags)); i < n; ++i) {
 
       SCM pair   = scm_list_ref(scm_tags, scm_from_int(i));
-      SCM first  = scm_list_ref(pair, scm_from_int(0));
-      SCM second = scm_list_tail(pair, scm_from_int(1));
+      SCM first  = scm_car(pair);
+      SCM second = scm_cdr(pair);
 
       string key = ctx.free_utf8_string(first);
 
@@ -1370,10 +1373,13 @@ namespace {
 
       SCM scm = scm_list_ref(scm_tags, scm_from_int(i));
 
-      string key = ctx.free_utf8_string(scm_list_ref(scm, 0));
+      string key = ctx.free_utf8_string(scm_car(scm));
 
       set<string> vals;
-      SCM scm_vals = scm_list_ref(scm, scm_from_int(1));
+      SCM scm_vals = scm_cdr(scm);
+      if (scm_is_string(scm_vals)) {
+        scm_vals = scm_list_1(scm_vals);
+      }
       for (int j = 0, m = scm_to_int(scm_length(scm_vals)); j < m; ++j) {
         SCM scm_val = scm_list_ref(scm_vals, scm_from_int(j));
         string val = ctx.free_utf8_string(scm_val);
-- 
2.43.0


From 190b7a0936ad553df554219e8b72a0b6d5d0679d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:56:11 +0000
Subject: [PATCH 167/194] fix: write text outside ISO-8859-1 from Scheme to
 ID3v2.2 & ID3v2.3 text frames

---
 scribbu/scheme-serde.cc | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/scribbu/scheme-serde.cc b/scribbu/scheme-serde.cc
index 16ab723..ca4553a 100644
--- a/scribbu/scheme-serde.cc
+++ b/scribbu/scheme-serde.cc
@@ -787,6 +787,15 @@ namespace {
 
 namespace {
 
+  /// Does the UTF-8 encoded text \a s contain characters outside ISO-8859-1?
+  bool
+  needs_unicode(const std::string &s)
+  {
+    return s.end() != std::find_if(s.begin(), s.end(), [](unsigned char c) {
+      return c > 0xc3;
+    });
+  }
+
   std::unique_ptr<scribbu::id3v2_2_frame>
   ser_text_frame_2_2(SCM scm)
   {
@@ -805,7 +814,8 @@ namespace {
     string txt(ctx.free_utf8_string(SCM_SLOT(scm, 5)));
 
     return unique_ptr<id3v2_2_frame>(
-      new id3v2_2_text_frame(id, txt, encoding::UTF_8));
+      new id3v2_2_text_frame(id, txt, encoding::UTF_8, needs_unicode(txt),
+                             on_no_encoding::fail, needs_unicode(txt)));
 
   }
 
@@ -840,9 +850,9 @@ namespace {
     string txt(ctx.free_utf8_string(SCM_SLOT(scm, 5)));
 
     return unique_ptr<id3v2_3_frame>(
-      new id3v2_3_text_frame(id, txt, encoding::UTF_8, false,
+      new id3v2_3_text_frame(id, txt, encoding::UTF_8, needs_unicode(txt),
                              on_no_encoding::fail,
-                             false, tap, fap, ro));
+                             needs_unicode(txt), tap, fap, ro));
 
   }
 
-- 
2.43.0


From 5dd382a0d768379120421a64d797fa14b7ed0946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:56:32 +0000
Subject: [PATCH 168/194] fix: refuse frames from Scheme that cannot be written
 instead of reading past their slots

---
 scribbu/scheme-serde.cc | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/scribbu/scheme-serde.cc b/scribbu/scheme-serde.cc
index ca4553a..2b43f45 100644
--- a/scribbu/scheme-serde.cc
+++ b/scribbu/scheme-serde.cc
@@ -2006,6 +2006,28 @@ scribbu::scheme_serde_dispatcher::de_unknown_frame_2_4(const scribbu::id3v2_4_fr
   return x;
 }
 
+namespace {
+
+  /// Throw unless \a scm is an <unk-frame> with enough data for a frame header
+  /// of size \a cbhdr
+  void
+  check_unknown_frame(SCM scm, std::size_t cbhdr)
+  {
+    SCM cls = scm_c_public_ref("scribbu", "<unk-frame>");
+    if (SCM_BOOL_T != scm_equal_p(scm_class_of(scm), cls)) {
+      throw std::invalid_argument("this frame cannot be represented in this "
+                                  "version of ID3v2");
+    }
+    SCM scm_bv = SCM_SLOT(scm, 6);
+    if (!scm_is_bytevector(scm_bv) ||
+        SCM_BYTEVECTOR_LENGTH(scm_bv) < cbhdr) {
+      throw std::invalid_argument("the data of an unknown frame shall include "
+                                  "the frame header");
+    }
+  }
+
+}
+
 std::unique_ptr<scribbu::id3v2_2_frame>
 scribbu::scheme_serde_dispatcher::ser_unknown_frame_2_2(SCM scm) const
 {
@@ -2014,6 +2036,8 @@ scribbu::scheme_serde_dispatcher::ser_unknown_frame_2_2(SCM scm) const
 
   dynwind_context ctx;
 
+  check_unknown_frame(scm, 6);
+
   frame_id3 id(ctx.free_locale_string(SCM_SLOT(scm, 5)));
 
   SCM scm_bv = SCM_SLOT(scm, 6);
@@ -2041,6 +2065,8 @@ scribbu::scheme_serde_dispatcher::ser_unknown_frame_2_3(SCM scm) const
 
   dynwind_context ctx;
 
+  check_unknown_frame(scm, 10);
+
   frame_id4 id(ctx.free_locale_string(SCM_SLOT(scm, 5)));
 
   tag_alter_preservation tap = tag_alter_preservation::preserve;
@@ -2085,6 +2111,8 @@ scribbu::scheme_serde_dispatcher::ser_unknown_frame_2_4(SCM scm) const
 
   dynwind_context ctx;
 
+  check_unknown_frame(scm, 10);
+
   frame_id4 id(ctx.free_locale_string(SCM_SLOT(scm, 5)));
 
   tag_alter_preservation tap = tag_alter_preservation::preserve;
-- 
2.43.0


From 6ac0e7a43c295aa7623823f1d2e5c03130aea904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:56:32 +0000
Subject: [PATCH 169/194] fix: accept #:experimental when making an ID3v2 tag
 in Scheme

---
 scheme/scribbu.scm | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scheme/scribbu.scm b/scheme/scribbu.scm
index b11d30b..70f316a 100644
--- a/scheme/scribbu.scm
+++ b/scheme/scribbu.scm
@@ -276,7 +276,7 @@ at `root'"
 
 (define-class <id3v2-tag> ()
   (experimental #:init-value '() #:accessor experimental
-                #:init-keyword experimental)
+                #:init-keyword #:experimental)
   (frames       #:init-value '() #:accessor frames  #:init-keyword #:frames)
   (padding      #:init-value   0 #:accessor padding #:init-keyword #:padding))
 
-- 
2.43.0


From 10af87d24e37db66a7ef6246d453152a6d3d6594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:56:32 +0000
Subject: [PATCH 170/194] fix: put the fields of enhanced ID3v1 tags in their
 own slots

---
 scribbu/scheme.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/scribbu/scheme.cc b/scribbu/scheme.cc
index c896cc5..85ef0e7 100644
--- a/scribbu/scheme.cc
+++ b/scribbu/scheme.cc
@@ -350,22 +350,22 @@ extern "C" {
         SCM scm_enh_genre = scm_from_stringn(enh_genre.c_str(), enh_genre.size(),
                                              "UTF-8",
                                              SCM_FAILED_CONVERSION_ESCAPE_SEQUENCE);
-        SCM_SET_SLOT(x, 6, scm_enh_genre);
-        SCM_SET_SLOT(x, 7, scm_from_uchar(speed));
+        SCM_SET_SLOT(x, 7, scm_enh_genre);
+        SCM_SET_SLOT(x, 8, scm_from_uchar(speed));
 
         string start_time = pv1->start_time<string>();
         SCM scm_start_time = scm_from_stringn(start_time.c_str(),
                                               start_time.size(),
                                               "UTF-8",
                                               SCM_FAILED_CONVERSION_ESCAPE_SEQUENCE);
-        SCM_SET_SLOT(x, 8, scm_start_time);
+        SCM_SET_SLOT(x, 9, scm_start_time);
 
         string end_time = pv1->end_time<string>();
         SCM scm_end_time = scm_from_stringn(end_time.c_str(),
                                             end_time.size(),
                                             "UTF-8",
                                             SCM_FAILED_CONVERSION_ESCAPE_SEQUENCE);
-        SCM_SET_SLOT(x, 9, scm_end_time);
+        SCM_SET_SLOT(x, 10, scm_end_time);
 
       }
 
-- 
2.43.0


From dc2cae4e70ba83a504c951eaf707c2d79eb4bc15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:56:32 +0000
Subject: [PATCH 171/194] fix: read all fields of ID3v1 tags into Scheme using
 the same encoding

---
 scribbu/scheme.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/scribbu/scheme.cc b/scribbu/scheme.cc
index 85ef0e7..e84cd9c 100644
--- a/scribbu/scheme.cc
+++ b/scribbu/scheme.cc
@@ -314,7 +314,8 @@ extern "C" {
       SCM scm_album = scm_from_stringn(album.c_str(), album.size(), "UTF-8",
                                        SCM_FAILED_CONVERSION_ESCAPE_SEQUENCE);
 
-      string year = pv1->year<string>();
+      string year = pv1->year<string>(encoding::ISO_8859_1, encoding::UTF_8,
+                                            on_no_encoding::transliterate);
       SCM scm_year = scm_from_stringn(year.c_str(), year.size(), "UTF-8",
                                       SCM_FAILED_CONVERSION_ESCAPE_SEQUENCE);
 
@@ -346,21 +347,24 @@ extern "C" {
 
       if (ext) {
 
-        string enh_genre = pv1->enh_genre<string>();
+        string enh_genre = pv1->enh_genre<string>(encoding::ISO_8859_1, encoding::UTF_8,
+                                            on_no_encoding::transliterate);
         SCM scm_enh_genre = scm_from_stringn(enh_genre.c_str(), enh_genre.size(),
                                              "UTF-8",
                                              SCM_FAILED_CONVERSION_ESCAPE_SEQUENCE);
         SCM_SET_SLOT(x, 7, scm_enh_genre);
         SCM_SET_SLOT(x, 8, scm_from_uchar(speed));
 
-        string start_time = pv1->start_time<string>();
+        string start_time = pv1->start_time<string>(encoding::ISO_8859_1, encoding::UTF_8,
+                                            on_no_encoding::transliterate);
         SCM scm_start_time = scm_from_stringn(start_time.c_str(),
                                               start_time.size(),
                                               "UTF-8",
                                               SCM_FAILED_CONVERSION_ESCAPE_SEQUENCE);
         SCM_SET_SLOT(x, 9, scm_start_time);
 
-        string end_time = pv1->end_time<string>();
+        string end_time = pv1->end_time<string>(encoding::ISO_8859_1, encoding::UTF_8,
+                                            on_no_encoding::transliterate);
         SCM scm_end_time = scm_from_stringn(end_time.c_str(),
                                             end_time.size(),
                                             "UTF-8",
-- 
2.43.0


From d0653fa552eaca2f321c763d02b3653937dcf05d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:56:32 +0000
Subject: [PATCH 172/194] fix: write ID3v1 tags from Scheme in the encoding
 used to read them

---
 scribbu/scheme.cc | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/scribbu/scheme.cc b/scribbu/scheme.cc
index e84cd9c..71056a1 100644
--- a/scribbu/scheme.cc
+++ b/scribbu/scheme.cc
@@ -568,13 +568,13 @@ extern "C" {
       dynwind_context ctx;
 
       SCM scm_title = SCM_SLOT(scm_tag, 0);
-      char *c_title = ctx.free_locale_string(scm_title);
+      char *c_title = ctx.free_utf8_string(scm_title);
 
       SCM scm_artist = SCM_SLOT(scm_tag, 1);
-      char *c_artist = ctx.free_locale_string(scm_artist);
+      char *c_artist = ctx.free_utf8_string(scm_artist);
 
       SCM scm_album = SCM_SLOT(scm_tag, 2);
-      char *c_album = ctx.free_locale_string(scm_album);
+      char *c_album = ctx.free_utf8_string(scm_album);
 
       // This slot can be '() to indicuate "not set"
       char *c_year = 0;
@@ -584,7 +584,7 @@ extern "C" {
       }
 
       SCM scm_comment = SCM_SLOT(scm_tag, 4);
-      char *c_comment = ctx.free_locale_string(scm_comment);
+      char *c_comment = ctx.free_utf8_string(scm_comment);
 
       SCM scm_genre = SCM_SLOT(scm_tag, 5);
       unsigned char genre = scm_to_uchar(scm_genre);
@@ -597,7 +597,7 @@ extern "C" {
       }
 
       SCM scm_enh_genre = SCM_SLOT(scm_tag, 7);
-      char *c_enh_genre = ctx.free_locale_string(scm_enh_genre);
+      char *c_enh_genre = ctx.free_utf8_string(scm_enh_genre);
 
       unsigned char speed = 0;
       SCM scm_speed = SCM_SLOT(scm_tag, 8);
@@ -620,13 +620,16 @@ extern "C" {
       id3v1_tag tag(v11, enh);
 
       if (c_title && 0 != strlen(c_title)) {
-        tag.set_title(c_title, encoding::UTF_8, encoding::UTF_8);
+        tag.set_title(c_title, encoding::UTF_8, encoding::ISO_8859_1,
+                      false, on_no_encoding::transliterate);
       }
       if (c_artist && 0 != strlen(c_artist)) {
-        tag.set_artist(c_artist, encoding::UTF_8, encoding::UTF_8);
+        tag.set_artist(c_artist, encoding::UTF_8, encoding::ISO_8859_1,
+                      false, on_no_encoding::transliterate);
       }
       if (c_album && 0 != strlen(c_album)) {
-        tag.set_album(c_album, encoding::UTF_8, encoding::UTF_8);
+        tag.set_album(c_album, encoding::UTF_8, encoding::ISO_8859_1,
+                      false, on_no_encoding::transliterate);
       }
 
       if (c_year && 0 != strlen(c_year)) { // treat "" as "not set"
@@ -638,7 +641,8 @@ extern "C" {
       }
 
       if (c_comment && 0 != strlen(c_comment)) {
-        tag.set_comment(c_comment, encoding::UTF_8, encoding::UTF_8);
+        tag.set_comment(c_comment, encoding::UTF_8, encoding::ISO_8859_1,
+                      false, on_no_encoding::transliterate);
       }
 
       tag.set_genre(genre);
@@ -648,7 +652,8 @@ extern "C" {
       }
 
       if (enh) {
-        tag.set_enh_genre(c_enh_genre, encoding::UTF_8, encoding::UTF_8);
+        tag.set_enh_genre(c_enh_genre, encoding::UTF_8, encoding::ISO_8859_1,
+                      false, on_no_encoding::transliterate);
         tag.set_speed(speed);
         if (c_start_time) {
           size_t n = strlen(c_start_time);
-- 
2.43.0


From bb80f20ab3a21a3d9479fdef18568d1df5ad5e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:56:52 +0000
Subject: [PATCH 173/194] fix: accept years & times shorter than their fields
 when writing ID3v1 tags from Scheme

---
 scribbu/scheme.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scribbu/scheme.cc b/scribbu/scheme.cc
index 71056a1..b0fd30c 100644
--- a/scribbu/scheme.cc
+++ b/scribbu/scheme.cc
@@ -633,7 +633,7 @@ extern "C" {
       }
 
       if (c_year && 0 != strlen(c_year)) { // treat "" as "not set"
-        if (4 != strlen(c_year)) {
+        if (4 < strlen(c_year)) {
           // Will *not* return or file dtors!
           scm_misc_error(WRITE_ID3V1_TAG, "incorrect year ~s", scm_year);
         }
@@ -658,7 +658,7 @@ extern "C" {
         if (c_start_time) {
           size_t n = strlen(c_start_time);
           if (n != 0) {
-            if (6 != strlen(c_start_time)) {
+            if (6 < strlen(c_start_time)) {
               // Will *not* return or file dtors!
               scm_misc_error(WRITE_ID3V1_TAG, "incorrect start time len ~s",
                              scm_start_time);
@@ -670,7 +670,7 @@ extern "C" {
         if (c_end_time) {
           size_t n = strlen(c_end_time);
           if (n != 0) {
-            if (6 != strlen(c_end_time)) {
+            if (6 < strlen(c_end_time)) {
               // Will *not* return or file dtors!
               scm_misc_error(WRITE_ID3V1_TAG, "incorrect end time len ~s",
                              scm_end_time);
-- 
2.43.0


From 6312cadbfcf70d606e03944f631f89921d94f410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:56:52 +0000
Subject: [PATCH 174/194] fix: write an enhanced ID3v1 tag from Scheme when a
 title, artist or album is longer than 30 characters, as documented

---
 scribbu/scheme.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/scribbu/scheme.cc b/scribbu/scheme.cc
index b0fd30c..fc1313f 100644
--- a/scribbu/scheme.cc
+++ b/scribbu/scheme.cc
@@ -615,7 +615,10 @@ extern "C" {
       bool enh = (strlen(c_enh_genre)  != 0) ||
         (speed != 0)                ||
         (strlen(c_start_time) != 0) ||
-        (strlen(c_end_time)   != 0);
+        (strlen(c_end_time)   != 0) ||
+        (scm_c_string_length(scm_title)  > id3v1_tag::TEXT_SZ) ||
+        (scm_c_string_length(scm_artist) > id3v1_tag::TEXT_SZ) ||
+        (scm_c_string_length(scm_album)  > id3v1_tag::TEXT_SZ);
 
       id3v1_tag tag(v11, enh);
 
-- 
2.43.0


From dc7318315da7c1ac5a275247a8503416c8984304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:56:52 +0000
Subject: [PATCH 175/194] fix: keep all values of text frames with several on
 the way through Scheme

---
 scribbu/dynwind-context.cc |  8 ++++++++
 scribbu/dynwind-context.hh |  4 ++++
 scribbu/scheme-serde.cc    | 39 ++++++++++++++++++++------------------
 3 files changed, 33 insertions(+), 18 deletions(-)

diff --git a/scribbu/dynwind-context.cc b/scribbu/dynwind-context.cc
index f2a91f9..ac161f2 100644
--- a/scribbu/dynwind-context.cc
+++ b/scribbu/dynwind-context.cc
@@ -42,3 +42,11 @@ char* scribbu::dynwind_context::free_utf8_string(SCM scm)
   scm_dynwind_free(p);
   return p;
 }
+
+std::string scribbu::dynwind_context::utf8_string(SCM scm)
+{
+  std::size_t n;
+  char *p = scm_to_utf8_stringn(scm, &n);
+  scm_dynwind_free(p);
+  return std::string(p, n);
+}
diff --git a/scribbu/dynwind-context.hh b/scribbu/dynwind-context.hh
index b6472d5..cb9a98c 100644
--- a/scribbu/dynwind-context.hh
+++ b/scribbu/dynwind-context.hh
@@ -24,6 +24,8 @@
 #ifndef DYNWIND_CONTEXT_HH
 #define DYNWIND_CONTEXT_HH
 
+#include <string>
+
 #include <libguile.h>
 
 namespace scribbu {
@@ -39,6 +41,8 @@ namespace scribbu {
     { scm_dynwind_free(p); }
     char* free_locale_string(SCM scm);
     char* free_utf8_string(SCM scm);
+    /// Convert to UTF-8; unlike the above, the string may contain NULs
+    std::string utf8_string(SCM scm);
 
     dynwind_context(const dynwind_context&)            = delete;
     dynwind_context(dynwind_context&&)                 = delete;
diff --git a/scribbu/scheme-serde.cc b/scribbu/scheme-serde.cc
index 2b43f45..a0daae5 100644
--- a/scribbu/scheme-serde.cc
+++ b/scribbu/scheme-serde.cc
@@ -385,7 +385,8 @@ namespace {
     }
 
     SCM x = init_frame("<text-frame>", p->second);
-    SCM_SET_SLOT(x, 5, scm_from_utf8_string(f.as_str<std::string>().c_str()));
+    std::string txt = f.as_str<std::string>();
+    SCM_SET_SLOT(x, 5, scm_from_utf8_stringn(txt.data(), txt.size()));
 
     return x;
   }
@@ -400,7 +401,8 @@ namespace {
 
     SCM x = init_frame("<text-frame>", p->second, f.tag_alter_preserve(),
                        f.file_alter_preserve(), f.readonly());
-    SCM_SET_SLOT(x, 5, scm_from_utf8_string(f.as_str<std::string>().c_str()));
+    std::string txt = f.as_str<std::string>();
+    SCM_SET_SLOT(x, 5, scm_from_utf8_stringn(txt.data(), txt.size()));
 
     return x;
 
@@ -417,7 +419,8 @@ namespace {
     SCM x = init_frame("<text-frame>", p->second, f.tag_alter_preserve(),
                        f.file_alter_preserve(), f.readonly(),
                        f.unsynchronised());
-    SCM_SET_SLOT(x, 5, scm_from_utf8_string(f.as_str<std::string>().c_str()));
+    std::string txt = f.as_str<std::string>();
+    SCM_SET_SLOT(x, 5, scm_from_utf8_stringn(txt.data(), txt.size()));
 
     return x;
 
@@ -441,7 +444,7 @@ namespace {
     SCM_SET_SLOT(x, 6, scm_from_utf8_string(dsc.c_str()));
 
     string txt = f.text<string>();
-    SCM_SET_SLOT(x, 7, scm_from_utf8_string(txt.c_str()));
+    SCM_SET_SLOT(x, 7, scm_from_utf8_stringn(txt.data(), txt.size()));
 
     return x;
 
@@ -467,7 +470,7 @@ namespace {
     SCM_SET_SLOT(x, 6, scm_from_utf8_string(dsc.c_str()));
 
     string txt = f.text<string>();
-    SCM_SET_SLOT(x, 7, scm_from_utf8_string(txt.c_str()));
+    SCM_SET_SLOT(x, 7, scm_from_utf8_stringn(txt.data(), txt.size()));
 
     return x;
 
@@ -493,7 +496,7 @@ namespace {
     SCM_SET_SLOT(x, 6, scm_from_utf8_string(dsc.c_str()));
 
     string txt = f.text<string>();
-    SCM_SET_SLOT(x, 7, scm_from_utf8_string(txt.c_str()));
+    SCM_SET_SLOT(x, 7, scm_from_utf8_stringn(txt.data(), txt.size()));
 
     return x;
 
@@ -511,7 +514,7 @@ namespace {
     SCM_SET_SLOT(x, 5, scm_from_utf8_string(dsc.c_str()));
 
     string txt = f.text<string>();
-    SCM_SET_SLOT(x, 6, scm_from_utf8_string(txt.c_str()));
+    SCM_SET_SLOT(x, 6, scm_from_utf8_stringn(txt.data(), txt.size()));
 
     return x;
 
@@ -531,7 +534,7 @@ namespace {
     SCM_SET_SLOT(x, 5, scm_from_utf8_string(dsc.c_str()));
 
     string txt = f.text<string>();
-    SCM_SET_SLOT(x, 6, scm_from_utf8_string(txt.c_str()));
+    SCM_SET_SLOT(x, 6, scm_from_utf8_stringn(txt.data(), txt.size()));
 
     return x;
 
@@ -551,7 +554,7 @@ namespace {
     SCM_SET_SLOT(x, 5, scm_from_utf8_string(dsc.c_str()));
 
     string txt = f.text<string>();
-    SCM_SET_SLOT(x, 6, scm_from_utf8_string(txt.c_str()));
+    SCM_SET_SLOT(x, 6, scm_from_utf8_stringn(txt.data(), txt.size()));
 
     return x;
 
@@ -811,7 +814,7 @@ namespace {
     }
 
     frame_id3 id = p->second;
-    string txt(ctx.free_utf8_string(SCM_SLOT(scm, 5)));
+    string txt(ctx.utf8_string(SCM_SLOT(scm, 5)));
 
     return unique_ptr<id3v2_2_frame>(
       new id3v2_2_text_frame(id, txt, encoding::UTF_8, needs_unicode(txt),
@@ -847,7 +850,7 @@ namespace {
 
     frame_id4 id = p->second;
 
-    string txt(ctx.free_utf8_string(SCM_SLOT(scm, 5)));
+    string txt(ctx.utf8_string(SCM_SLOT(scm, 5)));
 
     return unique_ptr<id3v2_3_frame>(
       new id3v2_3_text_frame(id, txt, encoding::UTF_8, needs_unicode(txt),
@@ -887,7 +890,7 @@ namespace {
 
     frame_id4 id = p->second;
 
-    string txt(ctx.free_utf8_string(SCM_SLOT(scm, 5)));
+    string txt(ctx.utf8_string(SCM_SLOT(scm, 5)));
 
     return unique_ptr<id3v2_4_frame>(
       new id3v2_4_text_frame(id, txt, encoding::UTF_8, frame_encoding::UTF_8,
@@ -917,7 +920,7 @@ namespace {
     }
 
     string dsc = ctx.free_utf8_string(SCM_SLOT(scm, 6));
-    string text = ctx.free_utf8_string(SCM_SLOT(scm, 7));
+    string text = ctx.utf8_string(SCM_SLOT(scm, 7));
 
     return unique_ptr<id3v2_2_frame>(new COM(lang, text, encoding::UTF_8,
                                              use_unicode::yes, dsc));
@@ -953,7 +956,7 @@ namespace {
     }
 
     string dsc = ctx.free_utf8_string(SCM_SLOT(scm, 6));
-    string text = ctx.free_utf8_string(SCM_SLOT(scm, 7));
+    string text = ctx.utf8_string(SCM_SLOT(scm, 7));
 
     return unique_ptr<id3v2_3_frame>(new COMM(lang, text, encoding::UTF_8,
                                               use_unicode::yes,
@@ -993,7 +996,7 @@ namespace {
     }
 
     string dsc = ctx.free_utf8_string(SCM_SLOT(scm, 6));
-    string text = ctx.free_utf8_string(SCM_SLOT(scm, 7));
+    string text = ctx.utf8_string(SCM_SLOT(scm, 7));
 
     return unique_ptr<id3v2_4_frame>(
       new COMM_2_4(lang, text, encoding::UTF_8,
@@ -1014,7 +1017,7 @@ namespace {
     ser_frame_2_2("<user-defined-text-frame>", scm, ctx);
 
     string dsc = ctx.free_utf8_string(SCM_SLOT(scm, 5));
-    string text = ctx.free_utf8_string(SCM_SLOT(scm, 6));
+    string text = ctx.utf8_string(SCM_SLOT(scm, 6));
 
     return unique_ptr<id3v2_2_frame>(new TXX(text, encoding::UTF_8,
                                              use_unicode::yes, dsc));
@@ -1043,7 +1046,7 @@ namespace {
     tie(id_txt, tap, fap, ro) = ser_frame_2_3("<user-defined-text-frame>", scm, ctx);
 
     string dsc = ctx.free_utf8_string(SCM_SLOT(scm, 5));
-    string text = ctx.free_utf8_string(SCM_SLOT(scm, 6));
+    string text = ctx.utf8_string(SCM_SLOT(scm, 6));
 
     return unique_ptr<id3v2_3_frame>(new TXXX(text, encoding::UTF_8,
                                               use_unicode::yes,
@@ -1076,7 +1079,7 @@ namespace {
       ser_frame_2_4("<user-defined-text-frame>", scm, ctx);
 
     string dsc = ctx.free_utf8_string(SCM_SLOT(scm, 5));
-    string text = ctx.free_utf8_string(SCM_SLOT(scm, 6));
+    string text = ctx.utf8_string(SCM_SLOT(scm, 6));
 
     return unique_ptr<id3v2_4_frame>(
       new TXXX_2_4(text, encoding::UTF_8,
-- 
2.43.0


From 0043be5fd42ef575daa02b6177e8f39e97357565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:57:20 +0000
Subject: [PATCH 176/194] fix: write comments from Scheme whose language is not
 in ISO-639-2

---
 scribbu/framesv2.cc     |  9 +++++++++
 scribbu/framesv2.hh     |  2 ++
 scribbu/scheme-serde.cc | 38 +++++++++++++++++++-------------------
 3 files changed, 30 insertions(+), 19 deletions(-)

diff --git a/scribbu/framesv2.cc b/scribbu/framesv2.cc
index 6af3983..8f42b0c 100644
--- a/scribbu/framesv2.cc
+++ b/scribbu/framesv2.cc
@@ -960,6 +960,15 @@ scribbu::comments::comments(id3v2_version ver,
 
 }
 
+void
+scribbu::comments::lang(const std::string &code)
+{
+  if (3 != code.size()) {
+    throw std::invalid_argument("languages are given by three characters");
+  }
+  std::copy(code.begin(), code.end(), lang_);
+}
+
 void
 scribbu::comments::description(const std::string &text, encoding src)
 {
diff --git a/scribbu/framesv2.hh b/scribbu/framesv2.hh
index 89e4a63..b3bc5e2 100644
--- a/scribbu/framesv2.hh
+++ b/scribbu/framesv2.hh
@@ -785,6 +785,8 @@ namespace scribbu {
       return std::copy(text_.begin(), text_.end(), p);
     }
 
+    /// Set the language; \a code shall be three bytes
+    void lang(const std::string &code);
     /// Set the description
     void description(const std::string &text, encoding src);
     /// Set the commente text
diff --git a/scribbu/scheme-serde.cc b/scribbu/scheme-serde.cc
index a0daae5..9bebd13 100644
--- a/scribbu/scheme-serde.cc
+++ b/scribbu/scheme-serde.cc
@@ -914,16 +914,16 @@ namespace {
 
     string lang_txt = ctx.free_utf8_string(SCM_SLOT(scm, 5));
     language lang = language::eng;
-    if (lang_txt.size()) {
-      stringstream stm(lang_txt);
-      stm >> lang;
-    }
 
     string dsc = ctx.free_utf8_string(SCM_SLOT(scm, 6));
     string text = ctx.utf8_string(SCM_SLOT(scm, 7));
 
-    return unique_ptr<id3v2_2_frame>(new COM(lang, text, encoding::UTF_8,
-                                             use_unicode::yes, dsc));
+    unique_ptr<COM> pcom(new COM(lang, text, encoding::UTF_8,
+                                 use_unicode::yes, dsc));
+    if (lang_txt.size()) {
+      pcom->comments::lang(lang_txt);
+    }
+    return pcom;
 
   }
 
@@ -950,18 +950,18 @@ namespace {
 
     string lang_txt = ctx.free_utf8_string(SCM_SLOT(scm, 5));
     language lang = language::eng;
-    if (lang_txt.size()) {
-      stringstream stm(lang_txt);
-      stm >> lang;
-    }
 
     string dsc = ctx.free_utf8_string(SCM_SLOT(scm, 6));
     string text = ctx.utf8_string(SCM_SLOT(scm, 7));
 
-    return unique_ptr<id3v2_3_frame>(new COMM(lang, text, encoding::UTF_8,
-                                              use_unicode::yes,
-                                              tap, fap, ro, boost::none,
-                                              boost::none, dsc));
+    unique_ptr<COMM> pcom(new COMM(lang, text, encoding::UTF_8,
+                                   use_unicode::yes,
+                                   tap, fap, ro, boost::none,
+                                   boost::none, dsc));
+    if (lang_txt.size()) {
+      pcom->comments::lang(lang_txt);
+    }
+    return pcom;
 
   }
 
@@ -990,20 +990,20 @@ namespace {
 
     string lang_txt = ctx.free_utf8_string(SCM_SLOT(scm, 5));
     language lang = language::eng;
-    if (lang_txt.size()) {
-      stringstream stm(lang_txt);
-      stm >> lang;
-    }
 
     string dsc = ctx.free_utf8_string(SCM_SLOT(scm, 6));
     string text = ctx.utf8_string(SCM_SLOT(scm, 7));
 
-    return unique_ptr<id3v2_4_frame>(
+    unique_ptr<COMM_2_4> pcom(
       new COMM_2_4(lang, text, encoding::UTF_8,
                    use_unicode::yes,
                    tap, fap, ro, boost::none,
                    boost::none, false, unsync, boost::none,
                    dsc));
+    if (lang_txt.size()) {
+      pcom->comments::lang(lang_txt);
+    }
+    return pcom;
 
   }
 
-- 
2.43.0


From 032c88a4f6502f431a633152667f7285992219c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:02:21 +0000
Subject: [PATCH 177/194] fix: keep Scheme values under construction where the
 garbage collector sees them

---
 scribbu/scheme-serde.cc | 45 ++++++++++++++++++++++-------------------
 scribbu/scheme.cc       | 42 ++++++++++++++++++++------------------
 2 files changed, 46 insertions(+), 41 deletions(-)

diff --git a/scribbu/scheme-serde.cc b/scribbu/scheme-serde.cc
index 9bebd13..297e96e 100644
--- a/scribbu/scheme-serde.cc
+++ b/scribbu/scheme-serde.cc
@@ -662,13 +662,14 @@ namespace {
 
     SCM lst = SCM_EOL;
     for (auto kv: f) {
-      vector<SCM> vals;
-      transform(kv.second.begin(), kv.second.end(), back_inserter(vals),
-                [] (const string &s) {
-                  return scm_from_stringn(s.c_str(), s.length(), "UTF-8",
-                                          SCM_FAILED_CONVERSION_ESCAPE_SEQUENCE);
-                } );
-      SCM scm_vals = scm_list_for_range(vals.begin(), vals.end());
+      SCM scm_vals = SCM_EOL;
+      for_each(kv.second.rbegin(), kv.second.rend(),
+               [&] (const string &s) {
+                 scm_vals =
+                   scm_cons(scm_from_stringn(s.c_str(), s.length(), "UTF-8",
+                                             SCM_FAILED_CONVERSION_ESCAPE_SEQUENCE),
+                            scm_vals);
+               } );
       lst = scm_acons(scm_from_utf8_string(kv.first.c_str()), scm_vals, lst);
     }
     SCM_SET_SLOT(x, 6, lst);
@@ -691,13 +692,14 @@ namespace {
 
     SCM lst = SCM_EOL;
     for (auto kv: f) {
-      vector<SCM> vals;
-      transform(kv.second.begin(), kv.second.end(), back_inserter(vals),
-                [] (const string &s) {
-                  return scm_from_stringn(s.c_str(), s.length(), "UTF-8",
-                                          SCM_FAILED_CONVERSION_ESCAPE_SEQUENCE);
-                } );
-      SCM scm_vals = scm_list_for_range(vals.begin(), vals.end());
+      SCM scm_vals = SCM_EOL;
+      for_each(kv.second.rbegin(), kv.second.rend(),
+               [&] (const string &s) {
+                 scm_vals =
+                   scm_cons(scm_from_stringn(s.c_str(), s.length(), "UTF-8",
+                                             SCM_FAILED_CONVERSION_ESCAPE_SEQUENCE),
+                            scm_vals);
+               } );
       lst = scm_acons(scm_from_utf8_string(kv.first.c_str()), scm_vals, lst);
     }
     SCM_SET_SLOT(x, 6, lst);
@@ -720,13 +722,14 @@ namespace {
 
     SCM lst = SCM_EOL;
     for (auto kv: f) {
-      vector<SCM> vals;
-      transform(kv.second.begin(), kv.second.end(), back_inserter(vals),
-                [] (const string &s) {
-                  return scm_from_stringn(s.c_str(), s.length(), "UTF-8",
-                                          SCM_FAILED_CONVERSION_ESCAPE_SEQUENCE);
-                } );
-      SCM scm_vals = scm_list_for_range(vals.begin(), vals.end());
+      SCM scm_vals = SCM_EOL;
+      for_each(kv.second.rbegin(), kv.second.rend(),
+               [&] (const string &s) {
+                 scm_vals =
+                   scm_cons(scm_from_stringn(s.c_str(), s.length(), "UTF-8",
+                                             SCM_FAILED_CONVERSION_ESCAPE_SEQUENCE),
+                            scm_vals);
+               } );
       lst = scm_acons(scm_from_utf8_string(kv.first.c_str()), scm_vals, lst);
     }
     SCM_SET_SLOT(x, 6, lst);
diff --git a/scribbu/scheme.cc b/scribbu/scheme.cc
index fc1313f..c610775 100644
--- a/scribbu/scheme.cc
+++ b/scribbu/scheme.cc
@@ -90,7 +90,9 @@ namespace {
 
     // Now for frames-- I'm going to do this in steps. First: we need to cast
     // `p' to a concrete type in order to get at the frames:
-    vector<SCM> frames;
+    // NB. the garbage collector looks for references on the stack, but not in
+    // memory allocated by the C++ library
+    SCM frames = SCM_EOL;
     scheme_serde_dispatcher D;
     if (2 == version) {
 
@@ -101,10 +103,10 @@ namespace {
                   scm_from_int(version), SCM_BOOL_F);
       }
 
-      transform(ptag->begin(), ptag->end(), back_inserter(frames),
-                [&](const id3v2_2_frame &f) {
-                  return D.de_2_2(f, unsync);
-                });
+      for_each(ptag->begin(), ptag->end(),
+               [&](const id3v2_2_frame &f) {
+                 frames = scm_cons(D.de_2_2(f, unsync), frames);
+               });
 
 
     } else if (3 == version) {
@@ -117,10 +119,10 @@ namespace {
       }
 
       SCM_SET_SLOT(x, 0, scm_from_bool(ptag->experimental() ? 1 : 0));
-      transform(ptag->begin(), ptag->end(), back_inserter(frames),
-                [&](const id3v2_3_frame &f) {
-                  return D.de_2_3(f, unsync);
-                });
+      for_each(ptag->begin(), ptag->end(),
+               [&](const id3v2_3_frame &f) {
+                 frames = scm_cons(D.de_2_3(f, unsync), frames);
+               });
 
 
     } else if (4 == version) {
@@ -134,10 +136,10 @@ namespace {
 
       SCM_SET_SLOT(x, 0, scm_from_bool(ptag->experimental() ? 1 : 0));
 
-      transform(ptag->begin(), ptag->end(), back_inserter(frames),
-                [&](const id3v2_4_frame &f) {
-                  return D.de_2_4(f, unsync);
-                });
+      for_each(ptag->begin(), ptag->end(),
+               [&](const id3v2_4_frame &f) {
+                 frames = scm_cons(D.de_2_4(f, unsync), frames);
+               });
 
 
     } else {
@@ -147,7 +149,7 @@ namespace {
 
     }
 
-    SCM_SET_SLOT(x, 1, scm_list_for_range(frames.begin(), frames.end()));
+    SCM_SET_SLOT(x, 1, scm_reverse_x(frames, SCM_EOL));
     SCM_SET_SLOT(x, 2, scm_from_uint(p->padding()));
 
     return scm_list_3(x, scm_from_int(version), scm_from_bool(unsync));
@@ -423,15 +425,15 @@ extern "C" {
 
       // 2. transform that collection of C++ id3v2_tag instances into a collection
       // of Scheme <id3v2-tag> instances
-      vector<SCM> tags;
-      transform(v2.begin(), v2.end(), back_inserter(tags),
-                [](const unique_ptr<id3v2_tag>&p) {
-                  return scm_from_id3v2_tag(p.get());
-                });
+      SCM tags = SCM_EOL;
+      for_each(v2.begin(), v2.end(),
+               [&](const unique_ptr<id3v2_tag>&p) {
+                 tags = scm_cons(scm_from_id3v2_tag(p.get()), tags);
+               });
 
       // 3. finally, take that collection of SCMs and build them into a Scheme
       // list
-      return scm_list_for_range(tags.begin(), tags.end());
+      return scm_reverse_x(tags, SCM_EOL);
 
     }
     catch (const exception &ex) {
-- 
2.43.0


From c7beea208c3bcc395ad3914bdd48224ac4900928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:24:10 +0000
Subject: [PATCH 178/194] fix: report a failure to write one of the pieces of a
 file being split

---
 src/split.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/split.cc b/src/split.cc
index a010901..6592370 100644
--- a/src/split.cc
+++ b/src/split.cc
@@ -73,6 +73,7 @@ For detailed help, say `scribbu split --help'. To see the manual, say
     std::unique_ptr<char[]> p(new char[cb]);
     in.read(p.get(), cb);
     ofs.write(p.get(), cb);
+    ofs.close(); // ... lest a failure to flush go unnoticed
   }
 
   /**
-- 
2.43.0


From 1a0c22da9bf0b283a6e93b5c6993e1d4407f1853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:24:10 +0000
Subject: [PATCH 179/194] fix: report a failure to write the playlist

---
 src/m3u.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/m3u.cc b/src/m3u.cc
index 3cedc36..18edf4a 100644
--- a/src/m3u.cc
+++ b/src/m3u.cc
@@ -273,6 +273,7 @@ namespace {
     if (!ofs_) {
       throw scribbu::file_open_error(out.native(), errno);
     }
+    ofs_.exceptions(ios_base::failbit | ios_base::badbit);
 
     // When appending, there's (presumably) a header already.
     ofs_.seekp(0, ios_base::end);
-- 
2.43.0


From 13b03cef629d6a7837843f1066e9fcf464820bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:30:40 +0000
Subject: [PATCH 180/194] fix: report a failure to write an ID3v1 tag

---
 scribbu/id3v1.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scribbu/id3v1.cc b/scribbu/id3v1.cc
index eb9a7e7..850fc20 100644
--- a/scribbu/id3v1.cc
+++ b/scribbu/id3v1.cc
@@ -586,4 +586,5 @@ scribbu::replace_id3v1(const fs::path &pth, const id3v1_tag &tag)
   std::ofstream ofs(pth, std::ofstream::binary|std::ofstream::app);
   ofs.exceptions(EXC_MASK);
   tag.write(ofs);
+  ofs.close(); // ... lest a failure to flush go unnoticed
 }
-- 
2.43.0


From 4e29da6be8eb145424fff8a124eba8a6f0bdbf04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:30:40 +0000
Subject: [PATCH 181/194] fix: report a failure to write the report

---
 src/report.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/report.cc b/src/report.cc
index 1f48616..7a12fdc 100644
--- a/src/report.cc
+++ b/src/report.cc
@@ -115,6 +115,11 @@ csv_reporter::csv_reporter(const fs::path   &output,
   using namespace std;
   using namespace scribbu;
 
+  if (!ofs_) {
+    throw file_open_error(output.native(), errno);
+  }
+  ofs_.exceptions(ios_base::failbit | ios_base::badbit);
+
   ////////////////////////////////////////////////////////////////////////////////
   //                                 header row                                 //
   ////////////////////////////////////////////////////////////////////////////////
@@ -245,6 +250,11 @@ tdf_reporter::tdf_reporter(const fs::path   &output,
   using namespace std;
   using namespace scribbu;
 
+  if (!ofs_) {
+    throw file_open_error(output.native(), errno);
+  }
+  ofs_.exceptions(ios_base::failbit | ios_base::badbit);
+
   ////////////////////////////////////////////////////////////////////////////////
   //                                 header row                                 //
   ////////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From bef0558a46694fca7a0deded7452f896b7dd279f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:43:15 +0000
Subject: [PATCH 182/194] fix: heed what to do on failure to convert when
 adding comments & user-defined text

---
 scribbu/framesv2.cc  | 14 ++++++++------
 scribbu/framesv2.hh  |  6 ++++--
 scribbu/framesv22.hh | 10 ++++++----
 scribbu/framesv23.hh | 10 ++++++----
 scribbu/framesv24.hh | 10 ++++++----
 scribbu/id3v22.cc    |  4 ++--
 scribbu/id3v23.cc    |  4 ++--
 scribbu/id3v24.cc    |  4 ++--
 8 files changed, 36 insertions(+), 26 deletions(-)

diff --git a/scribbu/framesv2.cc b/scribbu/framesv2.cc
index 8f42b0c..0aa1285 100644
--- a/scribbu/framesv2.cc
+++ b/scribbu/framesv2.cc
@@ -772,7 +772,8 @@ scribbu::user_defined_text::user_defined_text(id3v2_version ver,
                                               const std::string &text,
                                               encoding src,
                                               use_unicode unicode,
-                                              const std::string &dsc /*= std::string()*/)
+                                              const std::string &dsc /*= std::string()*/,
+                                              on_no_encoding rsp /*= on_no_encoding::fail*/)
 {
   encoding dst;
   bool add_bom;
@@ -821,9 +822,9 @@ scribbu::user_defined_text::user_defined_text(id3v2_version ver,
     }
   }
 
-  text_ = convert_encoding(text, src, dst, add_bom);
+  text_ = convert_encoding(text, src, dst, add_bom, rsp);
   if (!dsc.empty()) {
-    description_ = convert_encoding(dsc, src, dst, add_bom);
+    description_ = convert_encoding(dsc, src, dst, add_bom, rsp);
   }
 
 }
@@ -896,7 +897,8 @@ scribbu::comments::comments(id3v2_version ver,
                             const std::string &text,
                             encoding src,
                             use_unicode unicode,
-                            const std::string &dsc /*= std::string()*/):
+                            const std::string &dsc /*= std::string()*/,
+                            on_no_encoding rsp /*= on_no_encoding::fail*/):
   ver_(ver)
 {
   if (language::from_locale == lang) {
@@ -953,9 +955,9 @@ scribbu::comments::comments(id3v2_version ver,
   }
 
   dst_enc_ = dst;
-  text_ = convert_encoding(text, src, dst, add_bom);
+  text_ = convert_encoding(text, src, dst, add_bom, rsp);
   if (!dsc.empty()) {
-    description_ = convert_encoding(dsc, src, dst, add_bom);
+    description_ = convert_encoding(dsc, src, dst, add_bom, rsp);
   }
 
 }
diff --git a/scribbu/framesv2.hh b/scribbu/framesv2.hh
index b3bc5e2..e07c133 100644
--- a/scribbu/framesv2.hh
+++ b/scribbu/framesv2.hh
@@ -623,7 +623,8 @@ namespace scribbu {
                       const std::string &text,
                       encoding src,
                       use_unicode unicode,
-                      const std::string &dsc = std::string());
+                      const std::string &dsc = std::string(),
+                      on_no_encoding rsp = on_no_encoding::fail);
 
   public:
 
@@ -761,7 +762,8 @@ namespace scribbu {
              const std::string &text,
              encoding src,
              use_unicode unicode,
-             const std::string &dsc = std::string());
+             const std::string &dsc = std::string(),
+             on_no_encoding rsp = on_no_encoding::fail);
 
   public:
 
diff --git a/scribbu/framesv22.hh b/scribbu/framesv22.hh
index fa3c196..0e0b096 100644
--- a/scribbu/framesv22.hh
+++ b/scribbu/framesv22.hh
@@ -513,9 +513,10 @@ namespace scribbu {
     TXX(const std::string &text,
         encoding src,
         use_unicode unicode,
-        const std::string &dsc = std::string()):
+        const std::string &dsc = std::string(),
+        on_no_encoding    rsp = on_no_encoding::fail):
       id3v2_2_frame("TXX"),
-      user_defined_text(id3v2_version::v2, text, src, unicode, dsc)
+      user_defined_text(id3v2_version::v2, text, src, unicode, dsc, rsp)
     { }
 
     virtual id3v2_2_frame* clone() const
@@ -578,9 +579,10 @@ namespace scribbu {
         const std::string &text,
         encoding src,
         use_unicode unicode,
-        const std::string &dsc = std::string()):
+        const std::string &dsc = std::string(),
+        on_no_encoding    rsp = on_no_encoding::fail):
       id3v2_2_frame("COM"),
-      comments(id3v2_version::v2, lang, text, src, unicode, dsc)
+      comments(id3v2_version::v2, lang, text, src, unicode, dsc, rsp)
     { }
 
     virtual id3v2_2_frame* clone() const
diff --git a/scribbu/framesv23.hh b/scribbu/framesv23.hh
index 3296478..b5c19d0 100644
--- a/scribbu/framesv23.hh
+++ b/scribbu/framesv23.hh
@@ -907,9 +907,10 @@ namespace scribbu {
          read_only               ro,
          const id_type          &encmth,
          const id_type          &gid,
-         const std::string      &dsc = std::string()):
+         const std::string      &dsc = std::string(),
+         on_no_encoding         rsp = on_no_encoding::fail):
       id3v2_3_frame("TXXX", tap, fap, ro, encmth, gid, boost::none),
-      user_defined_text(id3v2_version::v3, text, src, unicode, dsc)
+      user_defined_text(id3v2_version::v3, text, src, unicode, dsc, rsp)
     { }
 
     virtual id3v2_3_frame* clone() const
@@ -995,9 +996,10 @@ namespace scribbu {
          read_only               ro,
          const id_type          &encmth,
          const id_type          &gid,
-         const std::string      &dsc = std::string()):
+         const std::string      &dsc = std::string(),
+         on_no_encoding         rsp = on_no_encoding::fail):
       id3v2_3_frame("COMM", tap, fap, ro, encmth, gid, boost::none),
-      comments(id3v2_version::v2, lang, text, src, unicode, dsc)
+      comments(id3v2_version::v2, lang, text, src, unicode, dsc, rsp)
     { }
 
     virtual id3v2_3_frame* clone() const
diff --git a/scribbu/framesv24.hh b/scribbu/framesv24.hh
index 0ac482c..bd9de91 100644
--- a/scribbu/framesv24.hh
+++ b/scribbu/framesv24.hh
@@ -629,9 +629,10 @@ namespace scribbu {
              const id_type          &gid,
              bool                    cmprsd,
              bool                    unsynch,
-             const std::string      &dsc = std::string()):
+             const std::string      &dsc = std::string(),
+             on_no_encoding         rsp = on_no_encoding::fail):
       id3v2_4_frame("TXXX", tap, fap, ro, enc, gid, cmprsd, unsynch, boost::none),
-      user_defined_text(id3v2_version::v4, text, src, unicode, dsc)
+      user_defined_text(id3v2_version::v4, text, src, unicode, dsc, rsp)
     { }
 
     virtual id3v2_4_frame* clone() const
@@ -722,9 +723,10 @@ namespace scribbu {
              bool                    cmprsd,
              bool                    unsynch,
              const opt_sz_type      &dli,
-             const std::string      &dsc = std::string()):
+             const std::string      &dsc = std::string(),
+             on_no_encoding         rsp = on_no_encoding::fail):
       id3v2_4_frame("COMM", tap, fap, ro, enc, gid, cmprsd, unsynch, dli),
-      comments(id3v2_version::v4, lang, text, src, unicode, dsc)
+      comments(id3v2_version::v4, lang, text, src, unicode, dsc, rsp)
     { }
 
     virtual id3v2_4_frame* clone() const
diff --git a/scribbu/id3v22.cc b/scribbu/id3v22.cc
index 63b540e..24b8bbc 100644
--- a/scribbu/id3v22.cc
+++ b/scribbu/id3v22.cc
@@ -346,7 +346,7 @@ scribbu::id3v2_2_tag::add_comment(const std::string &text,
                                   const std::string &description /*= std::string()*/,
                                   on_no_encoding rsp /*= on_no_encoding::fail*/)
 {
-  std::unique_ptr<COM> pnew = std::make_unique<COM>(lang, text, src, unicode, description);
+  std::unique_ptr<COM> pnew = std::make_unique<COM>(lang, text, src, unicode, description, rsp);
 
   COM &F = *pnew;
   std::ptrdiff_t d = frames_.size();
@@ -366,7 +366,7 @@ scribbu::id3v2_2_tag::add_user_defined_text(
 {
   using namespace std;
 
-  unique_ptr<TXX> pnew = make_unique<TXX>(text, src, unicode, description);
+  unique_ptr<TXX> pnew = make_unique<TXX>(text, src, unicode, description, rsp);
 
   TXX &F = *pnew;
   ptrdiff_t d = frames_.size();
diff --git a/scribbu/id3v23.cc b/scribbu/id3v23.cc
index 01195ef..49b7b6d 100644
--- a/scribbu/id3v23.cc
+++ b/scribbu/id3v23.cc
@@ -725,7 +725,7 @@ scribbu::id3v2_3_tag::add_comment(const std::string &text,
                                                       read_only::clear,
                                                       boost::none,
                                                       boost::none,
-                                                      description);
+                                                      description, rsp);
   COMM &F = *pnew;
   std::size_t d = frames_.size();
   frames_.emplace_back(std::move(pnew));
@@ -746,7 +746,7 @@ scribbu::id3v2_3_tag::add_user_defined_text(const std::string &text,
                                                       read_only::clear,
                                                       boost::none,
                                                       boost::none,
-                                                      description);
+                                                      description, rsp);
   const TXXX &F = *pnew;
   std::size_t d = frames_.size();
   frames_.emplace_back(std::move(pnew));
diff --git a/scribbu/id3v24.cc b/scribbu/id3v24.cc
index 8fe62b8..58bb6fb 100644
--- a/scribbu/id3v24.cc
+++ b/scribbu/id3v24.cc
@@ -802,7 +802,7 @@ scribbu::id3v2_4_tag::add_comment(const std::string &text,
                                                               boost::none,
                                                               false, false,
                                                               boost::none,
-                                                              description);
+                                                              description, rsp);
   COMM_2_4 &F = *pnew;
   std::ptrdiff_t d = frames_.size();
   frames_.emplace_back(std::move(pnew));
@@ -824,7 +824,7 @@ scribbu::id3v2_4_tag::add_user_defined_text(const std::string &text,
                                                               boost::none,
                                                               boost::none,
                                                               false, false,
-                                                              description);
+                                                              description, rsp);
   TXXX_2_4 &F = *pnew;
   std::ptrdiff_t d = frames_.size();
   frames_.emplace_back(std::move(pnew));
-- 
2.43.0


From fc2102b5ce6286d3b3075e7b667c6c5bf97f8603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:49:24 +0000
Subject: [PATCH 183/194] fix: indent comments & unknown frames like the rest
 of the tag

---
 scribbu/pprinter.cc | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/scribbu/pprinter.cc b/scribbu/pprinter.cc
index 6178664..95d29ed 100644
--- a/scribbu/pprinter.cc
+++ b/scribbu/pprinter.cc
@@ -628,7 +628,8 @@ scribbu::standard_pprinter::pprint_COM(const COM &frame, std::ostream &os)
     text = "<no text>";
   }
 
-  return os << frame.id() << " (" << lang << ", " << dsc << "):\n" << text << "\n";
+  return os << sin_ << frame.id() << " (" << lang << ", " << dsc << "):\n" <<
+    sin_ << text << "\n";
 }
 
 /*virtual*/ std::ostream&
@@ -690,7 +691,7 @@ scribbu::standard_pprinter::pprint_unk_id3v2_3_frame(
   std::ostream &os)
 {
   using namespace std;
-  return os << "frame " << frame.id() << " (" << dec << frame.size() <<
+  return os << sin_ << "frame " << frame.id() << " (" << dec << frame.size() <<
     " bytes)\n";
 }
 
@@ -776,7 +777,8 @@ scribbu::standard_pprinter::pprint_COMM(const COMM &frame, std::ostream &os)
     text = "<no text>";
   }
 
-  return os << frame.id() << " (" << lang << ", " << dsc << "):\n" << text << "\n";
+  return os << sin_ << frame.id() << " (" << lang << ", " << dsc << "):\n" <<
+    sin_ << text << "\n";
 }
 
 /*virtual*/ std::ostream&
@@ -858,7 +860,7 @@ scribbu::standard_pprinter::pprint_unk_id3v2_4_frame(
   const unknown_id3v2_4_frame &frame, std::ostream &os)
 {
   using namespace std;
-  return os << "frame " << frame.id() << " (" << dec << frame.size() <<
+  return os << sin_ << "frame " << frame.id() << " (" << dec << frame.size() <<
     " bytes)\n";
 }
 
@@ -944,7 +946,8 @@ scribbu::standard_pprinter::pprint_COMM_2_4(const COMM_2_4 &frame, std::ostream
     text = "<no text>";
   }
 
-  return os << frame.id() << " (" << lang << ", " << dsc << "):\n" << text << "\n";
+  return os << sin_ << frame.id() << " (" << lang << ", " << dsc << "):\n" <<
+    sin_ << text << "\n";
 }
 
 /*virtual*/ std::ostream&
-- 
2.43.0


From ae3197bfc48bd140227408b2b304021b4975da36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:49:24 +0000
Subject: [PATCH 184/194] fix: print play counts of more than 32 bits

---
 scribbu/pprinter.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scribbu/pprinter.cc b/scribbu/pprinter.cc
index 95d29ed..3cd4c5a 100644
--- a/scribbu/pprinter.cc
+++ b/scribbu/pprinter.cc
@@ -637,7 +637,7 @@ scribbu::standard_pprinter::pprint_CNT(const CNT &frame, std::ostream &os)
 {
   using namespace std;
   return os << sin_ << frame.id() << ": " << dec <<
-    (unsigned)frame.count() << "\n";
+    frame.count() << "\n";
 }
 
 /*virtual*/ std::ostream&
@@ -786,7 +786,7 @@ scribbu::standard_pprinter::pprint_PCNT(const PCNT &frame, std::ostream &os)
 {
   using namespace std;
   return os << sin_ << frame.id() << ": " << dec <<
-    (unsigned)frame.count() << "\n";
+    frame.count() << "\n";
 }
 
 /*virtual*/ std::ostream&
@@ -955,7 +955,7 @@ scribbu::standard_pprinter::pprint_PCNT_2_4(const PCNT_2_4 &frame, std::ostream
 {
   using namespace std;
   return os << sin_ << frame.id() << ": " << dec <<
-    (unsigned)frame.count() << "\n";
+    frame.count() << "\n";
 }
 
 /*virtual*/ std::ostream&
-- 
2.43.0


From 7697e2111f53b345afa8d65616c096c98991950f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:49:24 +0000
Subject: [PATCH 185/194] fix: print the method symbol & data of ENCR frames as
 numbers

---
 scribbu/pprinter.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/scribbu/pprinter.cc b/scribbu/pprinter.cc
index 3cd4c5a..871a466 100644
--- a/scribbu/pprinter.cc
+++ b/scribbu/pprinter.cc
@@ -736,13 +736,13 @@ scribbu::standard_pprinter::pprint_ENCR(const ENCR &frame, std::ostream &os)
   using namespace std;
 
   os << sin_ << frame.id() << ": " << frame.email<string>() << "\n" <<
-    sin_ << "Method symbol: " << dec << frame.method_symbol() << "\n" <<
+    sin_ << "Method symbol: " << dec << (unsigned)frame.method_symbol() << "\n" <<
     sin_ << "Encryption data: " << hex << setfill('0');
 
   vector<unsigned char> data;
   frame.datab(back_inserter(data));
   for (auto x: data) {
-    os << setw(2) << x;
+    os << setw(2) << (unsigned)x;
   }
 
   return os << "\n";
@@ -905,13 +905,13 @@ scribbu::standard_pprinter::pprint_ENCR_2_4(const ENCR_2_4 &frame, std::ostream
   using namespace std;
 
   os << sin_ << frame.id() << ": " << frame.email<string>() << "\n" <<
-    sin_ << "Method symbol: " << dec << frame.method_symbol() << "\n" <<
+    sin_ << "Method symbol: " << dec << (unsigned)frame.method_symbol() << "\n" <<
     sin_ << "Encryption data: " << hex << setfill('0');
 
   vector<unsigned char> data;
   frame.datab(back_inserter(data));
   for (auto x: data) {
-    os << setw(2) << x;
+    os << setw(2) << (unsigned)x;
   }
 
   return os << "\n";
-- 
2.43.0


From bea158da5cc7c3b1e04c0bb8bfbc89c8d30cdd94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:49:24 +0000
Subject: [PATCH 186/194] fix: print each byte of an unknown language as two
 hexadecimal digits

---
 scribbu/pprinter.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scribbu/pprinter.cc b/scribbu/pprinter.cc
index 871a466..3c50c23 100644
--- a/scribbu/pprinter.cc
+++ b/scribbu/pprinter.cc
@@ -101,9 +101,9 @@ std::string comment_lang(const scribbu::comments &frame) {
     stm2 << *strict_lang;
   } else {
     stm2 << hex << setfill('0') <<
-      "0x" << setw(2) << (unsigned)blang[0] << "," <<
-      "0x" << setw(2) << (unsigned)blang[1] << "," <<
-      "0x" << setw(2) << (unsigned)blang[2];
+      "0x" << setw(2) << (unsigned)(unsigned char)blang[0] << "," <<
+      "0x" << setw(2) << (unsigned)(unsigned char)blang[1] << "," <<
+      "0x" << setw(2) << (unsigned)(unsigned char)blang[2];
   }
 
   return stm2.str();
-- 
2.43.0


From ce567334760d4b221f14bba12d9fc0c7ae61691b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:49:24 +0000
Subject: [PATCH 187/194] fix: print the data of PRIV frames with leading
 zeroes, whatever was printed before

---
 scribbu/pprinter.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scribbu/pprinter.cc b/scribbu/pprinter.cc
index 3c50c23..5c20484 100644
--- a/scribbu/pprinter.cc
+++ b/scribbu/pprinter.cc
@@ -69,7 +69,7 @@ pprint_binary(const std::string &indent,
     os << indent << "  ><";
     return;
   }
-  os << indent << hex << setw(2) << (unsigned)*p0;
+  os << indent << hex << setfill('0') << setw(2) << (unsigned)*p0;
   ascii_rep += asciify(*p0);
   for (++p0 ; p0 != p1; ++p0) {
     os << ' ' << setw(2) << (unsigned)*p0;
-- 
2.43.0


From b9e61a4fd0f8bb6f701ebd9d80723fb9632e6bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:49:24 +0000
Subject: [PATCH 188/194] fix: print user-defined texts in the encoding of the
 stream

---
 scribbu/pprinter.cc | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/scribbu/pprinter.cc b/scribbu/pprinter.cc
index 5c20484..faef599 100644
--- a/scribbu/pprinter.cc
+++ b/scribbu/pprinter.cc
@@ -603,8 +603,13 @@ scribbu::standard_pprinter::pprint_UFI(const UFI &frame, std::ostream &os)
 scribbu::standard_pprinter::pprint_TXX(const TXX &frame, std::ostream &os)
 {
   using namespace std;
-  return os << sin_ << frame.id() << ": " << frame.description<string>() <<
-    "\n" << sin_ << frame.text<string>() << "\n";
+
+  ienc stream_enc = ienc::retrieve(os);
+  encoding dst = stream_enc.get_encoding();
+  on_no_encoding rsp = stream_enc.get_on_no_encoding();
+
+  return os << sin_ << frame.id() << ": " << frame.description<string>(dst, rsp, v2enc_) <<
+    "\n" << sin_ << frame.text<string>(dst, rsp, v2enc_) << "\n";
 }
 
 /*virtual*/ std::ostream&
@@ -752,8 +757,13 @@ scribbu::standard_pprinter::pprint_ENCR(const ENCR &frame, std::ostream &os)
 scribbu::standard_pprinter::pprint_TXXX(const TXXX &frame, std::ostream &os)
 {
   using namespace std;
-  return os << sin_ << frame.id() << ": " << frame.description<string>() <<
-    "\n" << sin_ << frame.text<string>() << "\n";
+
+  ienc stream_enc = ienc::retrieve(os);
+  encoding dst = stream_enc.get_encoding();
+  on_no_encoding rsp = stream_enc.get_on_no_encoding();
+
+  return os << sin_ << frame.id() << ": " << frame.description<string>(dst, rsp, v2enc_) <<
+    "\n" << sin_ << frame.text<string>(dst, rsp, v2enc_) << "\n";
 }
 
 /*virtual*/ std::ostream&
@@ -921,8 +931,13 @@ scribbu::standard_pprinter::pprint_ENCR_2_4(const ENCR_2_4 &frame, std::ostream
 scribbu::standard_pprinter::pprint_TXXX_2_4(const TXXX_2_4 &frame, std::ostream &os)
 {
   using namespace std;
-  return os << sin_ << frame.id() << ": " << frame.description<string>() <<
-    "\n" << sin_ << frame.text<string>() << "\n";
+
+  ienc stream_enc = ienc::retrieve(os);
+  encoding dst = stream_enc.get_encoding();
+  on_no_encoding rsp = stream_enc.get_on_no_encoding();
+
+  return os << sin_ << frame.id() << ": " << frame.description<string>(dst, rsp, v2enc_) <<
+    "\n" << sin_ << frame.text<string>(dst, rsp, v2enc_) << "\n";
 }
 
 /*virtual*/ std::ostream&
-- 
2.43.0


From fd3f10e654aec1123f4063e67a0d27e8d4018ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:50:27 +0000
Subject: [PATCH 189/194] fix: use the lower-case ISO-639-2 codes asm, div,
 map, min & new

---
 scribbu/charsets.cc | 35 +++++++++++++++++++++++++----------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/scribbu/charsets.cc b/scribbu/charsets.cc
index c4cfddd..40aca86 100644
--- a/scribbu/charsets.cc
+++ b/scribbu/charsets.cc
@@ -1249,7 +1249,9 @@ scribbu::language_to_iso_639_2(language lang, unsigned char code[3])
     F(arp);
     F(art);
     F(arw);
-    F(ASM);
+    case language::ASM:
+      G("asm");
+      break;
     F(ast);
     F(ath);
     F(aus);
@@ -1335,7 +1337,9 @@ scribbu::language_to_iso_639_2(language lang, unsigned char code[3])
     F(deu);
     F(dgr);
     F(din);
-    F(DIV);
+    case language::DIV:
+      G("div");
+      break;
     F(doi);
     F(dra);
     F(dsb);
@@ -1503,7 +1507,9 @@ scribbu::language_to_iso_639_2(language lang, unsigned char code[3])
     F(mal);
     F(man);
     F(mao);
-    F(MAP);
+    case language::MAP:
+      G("map");
+      break;
     F(mar);
     F(mas);
     F(may);
@@ -1512,7 +1518,9 @@ scribbu::language_to_iso_639_2(language lang, unsigned char code[3])
     F(men);
     F(mga);
     F(mic);
-    F(MIN);
+    case language::MIN:
+      G("min");
+      break;
     F(mis);
     F(mkd);
     F(mkh);
@@ -1544,7 +1552,9 @@ scribbu::language_to_iso_639_2(language lang, unsigned char code[3])
     F(ndo);
     F(nds);
     F(nep);
-    F(NEW);
+    case language::NEW:
+      G("new");
+      break;
     F(nia);
     F(nic);
     F(niu);
@@ -1772,6 +1782,7 @@ scribbu::operator>>(std::istream &is, language &x)
     { "art", language::art },
     { "arw", language::arw },
     { "ASM", language::ASM },
+    { "asm", language::ASM },
     { "ast", language::ast },
     { "ath", language::ath },
     { "aus", language::aus },
@@ -1858,6 +1869,7 @@ scribbu::operator>>(std::istream &is, language &x)
     { "dgr", language::dgr },
     { "din", language::din },
     { "DIV", language::DIV },
+    { "div", language::DIV },
     { "doi", language::doi },
     { "dra", language::dra },
     { "dsb", language::dsb },
@@ -2026,6 +2038,7 @@ scribbu::operator>>(std::istream &is, language &x)
     { "man", language::man },
     { "mao", language::mao },
     { "MAP", language::MAP },
+    { "map", language::MAP },
     { "mar", language::mar },
     { "mas", language::mas },
     { "may", language::may },
@@ -2035,6 +2048,7 @@ scribbu::operator>>(std::istream &is, language &x)
     { "mga", language::mga },
     { "mic", language::mic },
     { "MIN", language::MIN },
+    { "min", language::MIN },
     { "mis", language::mis },
     { "mkd", language::mkd },
     { "mkh", language::mkh },
@@ -2067,6 +2081,7 @@ scribbu::operator>>(std::istream &is, language &x)
     { "nds", language::nds },
     { "nep", language::nep },
     { "NEW", language::NEW },
+    { "new", language::NEW },
     { "nia", language::nia },
     { "nic", language::nic },
     { "niu", language::niu },
@@ -2293,7 +2308,7 @@ scribbu::operator<<(std::ostream &os, const language &x)
     { language::arp, "arp" },
     { language::art, "art" },
     { language::arw, "arw" },
-    { language::ASM, "ASM" },
+    { language::ASM, "asm" },
     { language::ast, "ast" },
     { language::ath, "ath" },
     { language::aus, "aus" },
@@ -2379,7 +2394,7 @@ scribbu::operator<<(std::ostream &os, const language &x)
     { language::deu, "deu" },
     { language::dgr, "dgr" },
     { language::din, "din" },
-    { language::DIV, "DIV" },
+    { language::DIV, "div" },
     { language::doi, "doi" },
     { language::dra, "dra" },
     { language::dsb, "dsb" },
@@ -2547,7 +2562,7 @@ scribbu::operator<<(std::ostream &os, const language &x)
     { language::mal, "mal" },
     { language::man, "man" },
     { language::mao, "mao" },
-    { language::MAP, "MAP" },
+    { language::MAP, "map" },
     { language::mar, "mar" },
     { language::mas, "mas" },
     { language::may, "may" },
@@ -2556,7 +2571,7 @@ scribbu::operator<<(std::ostream &os, const language &x)
     { language::men, "men" },
     { language::mga, "mga" },
     { language::mic, "mic" },
-    { language::MIN, "MIN" },
+    { language::MIN, "min" },
     { language::mis, "mis" },
     { language::mkd, "mkd" },
     { language::mkh, "mkh" },
@@ -2588,7 +2603,7 @@ scribbu::operator<<(std::ostream &os, const language &x)
     { language::ndo, "ndo" },
     { language::nds, "nds" },
     { language::nep, "nep" },
-    { language::NEW, "NEW" },
+    { language::NEW, "new" },
     { language::nia, "nia" },
     { language::nic, "nic" },
     { language::niu, "niu" },
-- 
2.43.0


From d6e4f29be03cbf21b637b23b925bcfbefce1b3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:12:59 +0000
Subject: [PATCH 190/194] fix: take SCRIBBU_CREATE in the environment to be
 --create-frame, rather than failing on it

---
 src/popm.cc | 2 +-
 src/xtag.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/popm.cc b/src/popm.cc
index b6c40f5..6a80099 100644
--- a/src/popm.cc
+++ b/src/popm.cc
@@ -817,7 +817,7 @@ namespace {
 
       const map<string, string> ENV_OPTS {
         make_pair("SCRIBBU_ADJUST_UNSYNC", "adjust-unsync"),
-        make_pair("SCRIBBU_CREATE", "create"),
+        make_pair("SCRIBBU_CREATE", "create-frame"),
         make_pair("SCRIBBU_CREATE_BACKUPS", "create-backups"),
         make_pair("SCRIBBU_DRY_RUN", "dry-run"),
         make_pair("SCRIBBU_OWNER", "owner"),
diff --git a/src/xtag.cc b/src/xtag.cc
index b278036..759468c 100644
--- a/src/xtag.cc
+++ b/src/xtag.cc
@@ -548,7 +548,7 @@ namespace {
       const map<string, string> ENV_OPTS {
         make_pair("SCRIBBU_ADJUST_UNSYNC", "adjust-unsync"),
         make_pair("SCRIBBU_ALWAYS_CREATE_V2", "always-create-v2"),
-        make_pair("SCRIBBU_CREATE", "create"),
+        make_pair("SCRIBBU_CREATE", "create-frame"),
         make_pair("SCRIBBU_CREATE_V2", "create-v2"),
         make_pair("SCRIBBU_CREATE_BACKUPS", "create-backups"),
         make_pair("SCRIBBU_DRY_RUN", "dry-run"),
-- 
2.43.0


From 425f4ca94ffb5ae37640d7aaae2dddae07696082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:31:20 +0000
Subject: [PATCH 191/194] fix: don't reuse the names of backups next to ones
 with large numbers

---
 scribbu/tagset.hh | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/scribbu/tagset.hh b/scribbu/tagset.hh
index 7b51bfa..444f996 100644
--- a/scribbu/tagset.hh
+++ b/scribbu/tagset.hh
@@ -269,11 +269,17 @@ namespace scribbu {
            });
 
       string s = entries.back().extension().string().substr(1);
-      int n = atoi(s.c_str());
+      // Unsigned, since suffixes may be anything up to, and even beyond INT_MAX
+      unsigned int n = atoi(s.c_str());
       n += 1;
 
       stringstream stm;
       stm << prefix << "." << n;
+      while (exists(path(stm.str()))) {
+        n += 1;
+        stm.str("");
+        stm << prefix << "." << n;
+      }
 
       return path(stm.str());
 
-- 
2.43.0


From 5e089e0fa65314d93ecc125f4244faf029ae802f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:39:41 +0000
Subject: [PATCH 192/194] fix: put the file back when copying over it fails
 halfway

---
 scribbu/tagset.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scribbu/tagset.hh b/scribbu/tagset.hh
index 444f996..062c9c4 100644
--- a/scribbu/tagset.hh
+++ b/scribbu/tagset.hh
@@ -475,7 +475,7 @@ namespace scribbu {
         } catch (const std::exception &ex) {
           // Well, we're kind of screwed. At least attempt to put the original
           // file back.
-          fs::copy(cp, pth, ec); // `ec' ignored intentionally on return
+          fs::copy(cp, pth, fs::copy_options::overwrite_existing, ec); // `ec' ignored intentionally on return
           throw;
         }
       } else {
-- 
2.43.0


From 1bc1b3a7d6d65605d308122118c3506c7b1266ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:57:43 +0000
Subject: [PATCH 193/194] fix: find popularimeters whose owner ends in a space
 or isn't ASCII

---
 src/popm.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/popm.cc b/src/popm.cc
index 6a80099..25b85f6 100644
--- a/src/popm.cc
+++ b/src/popm.cc
@@ -384,7 +384,9 @@ private:
         popm_type &G = dynamic_cast<popm_type&>(F);
         size_t new_pc = G.count();
         if (frame_policy::pcnt_only != frame_policy_) {
-          string email = G.template email<string>();
+          // As it stands: email() drops trailing spaces
+          string email;
+          G.emailb(back_inserter(email));
           if (!owner_ || email == *owner_) {
             new_pc = process_popm<traits_type>(G, email);
             ++num_popm;
-- 
2.43.0


From 20916688ba5023ed7bd4a6cc872a792e8f0d9431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:54:47 +0000
Subject: [PATCH 194/194] fix: treat `scribbu m3u' without arguments as a usage
 error

---
 src/m3u.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/m3u.cc b/src/m3u.cc
index 18edf4a..8be7c13 100644
--- a/src/m3u.cc
+++ b/src/m3u.cc
@@ -357,7 +357,7 @@ namespace {
     po::options_description xopts("hidden options");
     xopts.add_options()
       // Work around to https://svn.boost.org/trac/boost/ticket/8535
-      ("arguments", po::value<std::vector<string>>(), "one or more "
+      ("arguments", po::value<std::vector<string>>()->required(), "one or more "
        "files or directories to be examined; if a directory is given, it will "
        "be searched recursively");
 
-- 
2.43.0

