/* P19 -- genre names map to the nearest known genre.
 *
 * Oracle: the documented table of 192 genres & textbook edit distances
 * computed by dynamic programming. */
#include "gen.hh"

#include <clocale>
#include <cwctype>
#include <locale>

#include <scribbu/winamp-genres.hh>

using namespace vt;
using gen::ustr;

namespace {

  const char *NAMES[] = {
#   include "genres.inc"
  };
  const std::size_t N = sizeof(NAMES) / sizeof(NAMES[0]);

  ustr lower(const ustr &s)
  {
    ustr t;
    for (char32_t c: s) t.push_back((char32_t) towlower((wint_t) c));
    return t;
  }

  /// Optimal string alignment
  std::size_t osa(const ustr &a, const ustr &b)
  {
    std::size_t m = a.size(), n = b.size();
    std::vector<std::vector<std::size_t>> d(m + 1, std::vector<std::size_t>(n + 1));
    for (std::size_t i = 0; i <= m; ++i) d[i][0] = i;
    for (std::size_t j = 0; j <= n; ++j) d[0][j] = j;
    for (std::size_t i = 1; i <= m; ++i) {
      for (std::size_t j = 1; j <= n; ++j) {
        std::size_t x = std::min({ d[i-1][j] + 1, d[i][j-1] + 1, d[i-1][j-1] + (a[i-1] != b[j-1]) });
        if (i > 1 && j > 1 && a[i-1] == b[j-2] && a[i-2] == b[j-1]) x = std::min(x, d[i-2][j-2] + 1);
        d[i][j] = x;
      }
    }
    return d[m][n];
  }

  /// Unrestricted Damerau-Levenshtein
  std::size_t dl(const ustr &a, const ustr &b)
  {
    std::size_t m = a.size(), n = b.size(), inf = m + n;
    std::map<char32_t, std::size_t> da;
    std::vector<std::vector<std::size_t>> d(m + 2, std::vector<std::size_t>(n + 2));
    d[0][0] = inf;
    for (std::size_t i = 0; i <= m; ++i) { d[i+1][0] = inf; d[i+1][1] = i; }
    for (std::size_t j = 0; j <= n; ++j) { d[0][j+1] = inf; d[1][j+1] = j; }
    for (std::size_t i = 1; i <= m; ++i) {
      std::size_t db = 0;
      for (std::size_t j = 1; j <= n; ++j) {
        std::size_t k = da.count(b[j-1]) ? da[b[j-1]] : 0, l = db, cost = 1;
        if (a[i-1] == b[j-1]) { cost = 0; db = j; }
        d[i+1][j+1] = std::min({ d[i][j] + cost, d[i+1][j] + 1, d[i][j+1] + 1, d[k][l] + (i - k - 1) + 1 + (j - l - 1) });
      }
      da[a[i-1]] = i;
    }
    return d[m+1][n+1];
  }

  void judge(const ustr &t, context &ctx)
  {
    std::string text = ref::utf8(t), name;
    unsigned char g; std::size_t dist;
    std::tie(name, g, dist) = scribbu::match_winamp_genre(text);
    ustr lo = lower(t);
    CHECK(g < N, "genre-range", "matching " << show(text) << " gave genre " << (unsigned) g);
    CHECK_EQ(name, std::string(NAMES[g]), "genre-name", "matching " << show(text) << " gave genre " << (unsigned) g << ", but for the name");
    std::size_t best = -1;
    std::string bn;
    std::vector<std::size_t> D(N);
    for (std::size_t i = 0; i < N; ++i) {
      std::string nm(NAMES[i]);
      D[i] = osa(lower(ustr(nm.begin(), nm.end())), lo);
      if (D[i] < best) { best = D[i]; bn = nm; }
    }
    ctx.checked(N);
    if (dist == best && D[g] == best) return;
    // would the unrestricted distance explain it?
    std::size_t best2 = -1, mine = 0;
    for (std::size_t i = 0; i < N; ++i) {
      std::string nm(NAMES[i]);
      std::size_t x = dl(lower(ustr(nm.begin(), nm.end())), lo);
      best2 = std::min(best2, x);
      if (i == g) mine = x;
    }
    if (dist == best2 && mine == best2) return;
    CHECK(D[g] == best, "not-nearest", "matching " << show(text) << " gave " << show(name) << " at distance " << D[g]
          << " (said " << dist << "), but " << show(bn) << " is at " << best);
    FAILK("distance", "matching " << show(text) << " gave " << show(name) << " & said its distance was " << dist << "; it is " << D[g]);
  }

  ustr mutated(source &s, std::size_t edits)
  {
    std::string nm(NAMES[s.below(N)]);
    ustr t(nm.begin(), nm.end());
    for (std::size_t i = 0; i < edits; ++i) {
      std::size_t at = s.below(t.size() + 1);
      char32_t c = s.chance(1, 5) ? (char32_t)(0xa0 + s.below(0x400)) : (char32_t) (s.flip() ? U'a' + s.below(26) : U' ' + s.below(0x5f));
      switch (s.below(5)) {
      case 0: if (at < t.size()) t[at] = c; break;
      case 1: t.insert(t.begin() + at, c); break;
      case 2: if (at < t.size()) t.erase(at, 1); break;
      case 3: if (at + 1 < t.size()) std::swap(t[at], t[at+1]); break;
      default: if (at < t.size() && t[at] < 0x80) t[at] = (t[at] >= 'a' && t[at] <= 'z') ? t[at] - 32 : t[at]; break;
      }
    }
    return t;
  }

  ustr any_text(source &s, const char *&lbl)
  {
    switch (s.weighted({ 4, 3, 2, 2, 1 })) {
    case 0: lbl = "mutated"; return mutated(s, s.below(6));
    case 1: lbl = "free"; return gen::text(s, gen::FULL, 30);
    case 2: { // concatenated names
      lbl = "joined";
      ustr t = mutated(s, s.below(3));
      if (s.flip()) t += s.flip() ? U"/" : U" ";
      return t + mutated(s, s.below(3));
    }
    case 3: { // few letters: lots of overlap between alternatives
      lbl = "letters";
      ustr t; std::size_t n = s.small(40);
      for (std::size_t i = 0; i < n; ++i) t.push_back(U"rockpnatel -"[s.below(12)]);
      return t;
    }
    default: { // long
      lbl = "long";
      ustr t = mutated(s, s.below(3)); std::size_t n = s.chance(1, 6) ? 1 + s.below(1500) : 20 + s.below(120);
      while (t.size() < n) t += gen::text1(s, gen::FULL, 30);
      return t;
    }
    }
  }

  void one(source &s, context &ctx)
  {
    const char *lbl;
    ustr t = any_text(s, lbl);
    NOTE(ctx, "text: " << show(ref::utf8(t)));
    ctx.label(lbl);
    if (!t.empty()) ctx.nontrivial(hash(ref::utf8(t)));
    judge(t, ctx);
  }

  void sequence(source &s, context &ctx)
  {
    std::size_t n = 2 + s.below(4);
    std::uint64_t h = 7;
    for (std::size_t i = 0; i < n; ++i) {
      const char *lbl;
      ustr t = any_text(s, lbl);
      NOTE(ctx, "text " << i << ": " << show(ref::utf8(t)));
      h = hash(ref::utf8(t), h);
      judge(t, ctx);
    }
    ctx.label("sequence");
    ctx.nontrivial(h);
  }

  void table(source &s, context &ctx)
  {
    unsigned char n = s.below(256);
    NOTE(ctx, "genre number " << (unsigned) n);
    ctx.label("table");
    auto x = scribbu::text_for_genre(n);
    CHECK_EQ(bool(x), n < N, "table", "text_for_genre(" << (unsigned) n << ") gives a name?");
    if (n < N) {
      ctx.nontrivial(mix(n));
      CHECK_EQ(*x, std::string(NAMES[n]), "table", "name of genre " << (unsigned) n);
      // and back, however it is capitalised
      std::string t = *x;
      for (auto &c: t) if (s.flip()) c = s.flip() ? toupper(c) : tolower(c);
      std::string name; unsigned char g; std::size_t dist;
      std::tie(name, g, dist) = scribbu::match_winamp_genre(t);
      CHECK(dist == 0 && g == n && name == *x, "back", "matching " << show(t) << " gave " << show(name) << " (" << (unsigned) g << ") at " << dist);
      ctx.checked(3);
    }
    using scribbu::id3v1_genre_generation;
    static const struct { id3v1_genre_generation g; unsigned n; } G[] = {
      { id3v1_genre_generation::standard, 80 }, { id3v1_genre_generation::winamp, 142 },
      { id3v1_genre_generation::winamp_1_91, 148 }, { id3v1_genre_generation::winamp_5_6, 192 } };
    auto &gg = G[s.below(4)];
    std::vector<std::tuple<unsigned char, std::string>> v;
    scribbu::get_id3v1_genre_list(gg.g, std::back_inserter(v));
    CHECK_EQ(v.size(), gg.n, "list-size", "number of genres in a generation");
    for (unsigned i = 0; i < v.size(); ++i) {
      CHECK(std::get<0>(v[i]) == i && std::get<1>(v[i]) == NAMES[i], "list", "genre list item " << i);
    }
    ctx.checked(v.size());
  }
}

int main(int argc, char **argv)
{
  setlocale(LC_ALL, "");
  return run(argc, argv, spec {
      "P19", "the text matched is not empty (or, for table look-ups, the number has a name); distinct by text",
      12000, 300000,
      { { "match", 6, one }, { "sequence", 2, sequence }, { "table", 1, table } },
      { "lower-casing is that of the C.UTF-8 locale", "text is valid UTF-8",
        "either reading of Damerau-Levenshtein distance (restricted or not) is accepted, if used consistently" },
    });
}
