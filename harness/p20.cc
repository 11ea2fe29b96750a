/* P20 -- counters, ratings & tag clouds keep exact values. */
#include "files.hh"
#include "clouds.hh"

#include <scribbu/id3v2-utils.hh>
#include <scribbu/scribbu.hh>

using namespace vt;
using namespace gen;

namespace {

  typedef unsigned __int128 big;

  const big MAX = ~std::uint64_t(0);

  big value(const bytes &b)
  {
    big x = 0;
    for (auto c: b) x = x << 8 | c;
    return x;
  }

  std::string dec(big x)
  {
    if (!x) return "0";
    std::string s;
    for (; x; x /= 10) s.insert(s.begin(), '0' + int(x % 10));
    return s;
  }

  std::uint64_t some_number(source &s)
  {
    switch (s.below(3)) {
    case 0: return s.below(300);
    case 1: {
      // about to grow another byte
      std::uint64_t x = ~std::uint64_t(0) >> (8 * s.below(8));
      return x - s.below(3) + s.below(3);
    }
    default: return s.edgy(64);
    }
  }

  bytes some_counter(source &s)
  {
    bytes b = s.blob(s.weighted({ 1, 1, 1, 1, 4, 1, 1, 1, 3, 1, 1, 1, 1 }));
    if (s.chance(1, 3)) for (std::size_t i = s.below(b.size() + 1); i < b.size(); ++i) b[i] = 0xff;
    if (s.chance(1, 4)) for (std::size_t i = 0, n = s.below(b.size() + 1); i < n; ++i) b[i] = 0;
    return b;
  }

  /// What can be had of a frame with a counter
  template <typename F> bytes counter(const F &f)
  {
    bytes b;
    f.counterb(std::back_inserter(b));
    return b;
  }

  /// Does `f' say it has been played `n' times? Beyond 64 bits it may only say that it can't
  template <typename F> void counts(const F &f, big n, const char *key, const std::string &when)
  {
    try {
      std::uint64_t x = f.count();
      CHECK(big(x) == n, key, when << ", count() is " << x << ", expected " << dec(n));
    } catch (const std::domain_error &e) {
      CHECK(n > MAX, key, when << ", count() throws \"" << e.what() << "\", expected " << dec(n));
    }
    CHECK(value(counter(f)) == n, key, when << ", the counter is " << show(counter(f)) << ", expected " << dec(n));
  }

  /// One frame of a kind, in the only tag there is
  template <int V> std::unique_ptr<typename lib<V>::tag> tag_of(source &s, const typename lib<V>::frame &f)
  {
    std::unique_ptr<typename lib<V>::tag> t(new typename lib<V>::tag(s.below(20)));
    push<V>(*t, f, s.flip());
    return t;
  }

  template <int V> std::unique_ptr<typename lib<V>::tag> reread(source &s, context &ctx, const typename lib<V>::tag &t)
  {
    bool unsync = s.flip();
    bytes b = gen::written<V>(t, unsync);
    NOTE(ctx, "write " << (unsync ? "(unsynchronised) " : "") << "& read back: " << show(b));
    std::istringstream is(S(b));
    return std::unique_ptr<typename lib<V>::tag>(new typename lib<V>::tag(is));
  }

  template <int V> void count_(source &s, context &ctx)
  {
    typedef typename lib<V>::count F;
    typedef typename lib<V>::tag T;
    fdesc d;
    d.k = kind::count;
    d.id = V == 2 ? "CNT" : "PCNT";
    d.data = some_counter(s);
    if (d.data.empty()) d.data.push_back(0); // no frame is empty
    std::unique_ptr<typename lib<V>::frame> p0;
    if (s.flip()) {
      NOTE(ctx, "ID3v2." << V << " " << d.id << " " << show(d.data));
      p0 = from_bytes<V>(d);
    } else {
      d.data.clear();
      std::uint64_t n = some_number(s);
      for (int i = 56; i >= 0; i -= 8) d.data.push_back(n >> i);
      NOTE(ctx, "ID3v2." << V << " " << d.id << " of " << n);
      p0 = from_values<V>(d);
    }
    big model = value(d.data);
    std::unique_ptr<T> t = tag_of<V>(s, *p0);
    auto at = [&]() -> F& { return dynamic_cast<F&>((typename lib<V>::frame&) *t->begin()); };
    counts(at(), model, "count/begin", "at first");
    bool grew = false;
    for (std::size_t i = 0, n = s.range(1, 8); i < n; ++i) {
      switch (s.weighted({ 3, 5, 3, 1 })) {
      case 0: {
        std::uint64_t x = some_number(s);
        NOTE(ctx, "count(" << x << ")");
        at().count(x);
        model = x;
        break;
      }
      case 1: {
        NOTE(ctx, "inc()");
        try {
          at().inc();
          CHECK(model < MAX, "count/wrap", "inc() of " << dec(model) << " gives " << show(counter(at())));
          ++model;
          grew = grew || !(model & (model - 1) & MAX);
        } catch (const std::exception &e) {
          CHECK(model >= MAX, "count/inc", "inc() of " << dec(model) << " throws \"" << e.what() << "\"");
          ctx.label("count:overflow");
        }
        break;
      }
      case 2:
        t = reread<V>(s, ctx, *t);
        CHECK_EQ(t->num_frames(), std::size_t(1), "count/frames", "number of frames read back");
        break;
      default: {
        NOTE(ctx, "copy");
        T u(*t);
        if (s.flip()) *t = u; else t.reset(new T(u));
      }
      }
      counts(at(), model, "count/value", "after step " + std::to_string(i + 1));
      CHECK_EQ(t->has_play_count(), std::size_t(1), "count/tag", "has_play_count()");
      if (model <= MAX) {
        std::uint64_t x = t->play_count();
        CHECK(big(x) == model, "count/tag", "play_count() is " << x << ", expected " << dec(model));
      }
      std::vector<F> v;
      t->get_play_counts(std::back_inserter(v));
      CHECK_EQ(v.size(), std::size_t(1), "count/tag", "number of get_play_counts()");
      counts(v[0], model, "count/tag", "get_play_counts()");
      ctx.checked(5);
    }
    ctx.label("count:2." + std::to_string(V));
    if (grew) ctx.label("count:grew");
    if (model > MAX) ctx.label("count:wide");
    ctx.nontrivial(hash(S(d.data), hash(dec(model))));
  }

  template <int V> void popm_(source &s, context &ctx)
  {
    typedef typename lib<V>::popm F;
    typedef typename lib<V>::tag T;
    fdesc d;
    d.k = kind::popm;
    d.id = V == 2 ? "POP" : "POPM";
    d.owner = cbytes(s, 20);
    d.num = s.byte();
    d.data = some_counter(s);
    std::unique_ptr<typename lib<V>::frame> p0;
    if (s.flip()) {
      p0 = from_bytes<V>(d);
    } else {
      d.data.clear();
      std::uint64_t n = some_number(s);
      for (int i = 56; i >= 0; i -= 8) d.data.push_back(n >> i);
      p0 = from_values<V>(d);
    }
    NOTE(ctx, "ID3v2." << V << " " << d.id << " of " << show(d.owner) << ", rating " << int(d.num) << ", counter " << show(d.data));
    big model = value(d.data);
    unsigned char rating = d.num;
    bytes own = d.owner;
    std::unique_ptr<T> t = tag_of<V>(s, *p0);
    auto at = [&]() -> F& { return dynamic_cast<F&>((typename lib<V>::frame&) *t->begin()); };
    auto all = [&](const F &f, const std::string &when) {
      counts(f, model, "popm/value", when);
      CHECK_EQ(f.rating(), rating, "popm/rating", when << ", rating()");
      bytes o;
      f.emailb(std::back_inserter(o));
      CHECK_EQ(o, own, "popm/owner", when << ", the owner");
      ctx.checked(4);
    };
    all(at(), "at first");
    for (std::size_t i = 0, n = s.range(1, 8); i < n; ++i) {
      switch (s.weighted({ 3, 5, 3, 3, 1 })) {
      case 0: {
        std::uint64_t x = some_number(s);
        NOTE(ctx, "count(" << x << ")");
        at().count(x);
        model = x;
        break;
      }
      case 1:
        NOTE(ctx, "inc()");
        try {
          at().inc();
          CHECK(model < MAX, "popm/wrap", "inc() of " << dec(model) << " gives " << show(counter(at())));
          ++model;
        } catch (const std::exception &e) {
          CHECK(model >= MAX, "popm/inc", "inc() of " << dec(model) << " throws \"" << e.what() << "\"");
          ctx.label("popm:overflow");
        }
        break;
      case 2:
        rating = s.byte();
        NOTE(ctx, "rating(" << int(rating) << ")");
        at().rating(rating);
        break;
      case 3:
        t = reread<V>(s, ctx, *t);
        CHECK_EQ(t->num_frames(), std::size_t(1), "popm/frames", "number of frames read back");
        break;
      default: {
        NOTE(ctx, "copy");
        T u(*t);
        if (s.flip()) *t = u; else t.reset(new T(u));
      }
      }
      all(at(), "after step " + std::to_string(i + 1));
      std::vector<F> v;
      t->get_popularimeters(std::back_inserter(v));
      CHECK_EQ(v.size(), std::size_t(1), "popm/tag", "number of get_popularimeters()");
      all(v[0], "get_popularimeters(), after step " + std::to_string(i + 1));
    }
    ctx.label("popm:2." + std::to_string(V));
    ctx.nontrivial(hash(S(own) + S(d.data), hash(dec(model), rating)));
  }

  // --- clouds

  template <int V> void cloud_(source &s, context &ctx)
  {
    typedef typename lib<V>::cloud F;
    typedef typename lib<V>::tag T;
    fdesc d;
    d.k = kind::cloud;
    d.id = V == 2 ? "XTG" : "XTAG";
    std::string own = s.flip() ? cstr(s) : "me@there.org";
    d.owner = B(own);
    d.cloud = some_cloud(s);
    NOTE(ctx, "ID3v2." << V << " " << d.id << " of " << vt::show(own) << ": " << show(d.cloud));
    ref::cloud m = d.cloud;
    std::unique_ptr<typename lib<V>::frame> p0;
    switch (s.below(3)) {
    case 0: p0 = from_bytes<V>(d); break;
    case 1: p0 = from_values<V>(d); break;
    default: {
      std::string text = mute(m) ? std::string("=") : encoded(s, m);
      if (mute(m)) m.begin()->second.insert("");
      NOTE(ctx, "from " << vt::show(text));
      if constexpr (V == 2) p0.reset(new F(own, text));
      else if constexpr (V == 3)
        p0.reset(new F(own, text, lib<V>::frame::tag_alter_preservation::preserve, lib<V>::frame::file_alter_preservation::preserve,
                       lib<V>::frame::read_only::clear, boost::none, boost::none, boost::none));
      else
        p0.reset(new F(own, text, lib<V>::frame::tag_alter_preservation::preserve, lib<V>::frame::file_alter_preservation::preserve,
                       lib<V>::frame::read_only::clear, boost::none, boost::none, false, false, boost::none));
    }
    }
    std::unique_ptr<T> t = tag_of<V>(s, *p0);
    auto at = [&]() -> F& { return dynamic_cast<F&>((typename lib<V>::frame&) *t->begin()); };
    auto all = [&](const F &f, const std::string &when) {
      ref::cloud c(f.begin(), f.end());
      CHECK(c == m, "cloud/value", when << ", the tags are " << show(c) << ", expected " << show(m));
      CHECK_EQ(f.owner(), own, "cloud/owner", when << ", the owner");
      ctx.checked(2);
    };
    all(at(), "at first");
    std::uint64_t h = hash(show(m));
    for (std::size_t i = 0, n = s.range(1, 8); i < n; ++i) {
      switch (s.weighted({ 3, 3, 3, 2, 3, 3, 1, 1, 2 })) {
      case 0: {
        std::string k = m.size() && s.flip() ? std::next(m.begin(), s.below(m.size()))->first : cword(s);
        NOTE(ctx, "add_key " << vt::show(k));
        bool had = m.count(k);
        CHECK_EQ(at().has_key(k), had, "cloud/has", "has_key(" << vt::show(k) << ")");
        CHECK_EQ(at().add_key(k), !had, "cloud/add", "add_key(" << vt::show(k) << ")");
        m[k];
        break;
      }
      case 1: {
        auto it = m.size() && s.flip() ? std::next(m.begin(), s.below(m.size())) : m.end();
        std::string k = it != m.end() ? it->first : cword(s);
        std::string v = it != m.end() && it->second.size() && s.chance(1, 3) ? *it->second.begin() : cword(s);
        NOTE(ctx, "add_value " << vt::show(k) << " " << vt::show(v));
        bool had = m.count(k) && m[k].count(v);
        CHECK_EQ(at().has_value(k, v), had, "cloud/has", "has_value()");
        CHECK_EQ(at().add_value(k, v), !had, "cloud/add", "add_value()");
        m[k].insert(v);
        break;
      }
      case 2: {
        ref::cloud c = some_cloud(s);
        if (m.size() && s.flip()) c[std::next(m.begin(), s.below(m.size()))->first].insert(cword(s));
        if (mute(c)) c.clear();
        std::string x = encoded(s, c);
        NOTE(ctx, "merge " << vt::show(x));
        at().merge(x);
        for (auto &kv: c) m[kv.first].insert(kv.second.begin(), kv.second.end());
        ctx.label("cloud:merge");
        break;
      }
      case 3: {
        ref::cloud c = some_cloud(s);
        if (mute(c)) c.clear();
        std::string x = encoded(s, c);
        NOTE(ctx, "update " << vt::show(x));
        at().update(x);
        m = c;
        ctx.label("cloud:update");
        break;
      }
      case 4: {
        std::string x = at().urlencoded();
        NOTE(ctx, "encoded: " << vt::show(x));
        for (unsigned char c: x) CHECK(unreserved(c) || strchr("%&=,", c), "cloud/encoded", "urlencoded() is " << vt::show(x));
        if (!mute(m)) {
          scribbu::tag_cloud c(own, x);
          ref::cloud got(c.begin(), c.end());
          CHECK(got == m, "cloud/urlencoded", "urlencoded() is " << vt::show(x) << " which is read as " << show(got) << ", expected " << show(m));
        }
        ctx.label("cloud:urlencoded");
        break;
      }
      case 5:
        t = reread<V>(s, ctx, *t);
        CHECK_EQ(t->num_frames(), std::size_t(1), "cloud/frames", "number of frames read back");
        break;
      case 6: {
        NOTE(ctx, "copy");
        T u(*t);
        if (s.flip()) *t = u; else t.reset(new T(u));
        break;
      }
      case 7: {
        NOTE(ctx, "reset");
        std::string k = cword(s), v = cword(s);
        at().reset({ { k, { v } }, { k + "x", { } } });
        m = ref::cloud { { k, { v } }, { k + "x", { } } };
        break;
      }
      default: {
        // no cloud at all: nothing may come of it
        ref::cloud c = some_cloud(s);
        c["bad"].insert("x");
        std::string x = encoded(s, c) + "&" + s.pick({ std::string("k%"), std::string("k%4"), std::string("k%zz"), std::string("k=v,%"), std::string("k=%g0"), std::string("%4g=v"), std::string("bad") });
        bool merge = s.flip();
        NOTE(ctx, (merge ? "merge " : "update ") << vt::show(x));
        try {
          if (merge) at().merge(x); else at().update(x);
        } catch (const std::exception&) {
          ctx.label("cloud:refused");
          break;
        }
        FAILK("cloud/malformed", vt::show(x) << " is taken for a cloud");
      }
      }
      all(at(), "after step " + std::to_string(i + 1));
      h = hash(show(m), h);
    }
    ctx.label("cloud:2." + std::to_string(V));
    if (m.size()) ctx.nontrivial(h);
  }

  void urls(source &s, context &ctx)
  {
    std::string x = s.flip() ? S(s.blob_upto(40)) : word(s) + word(s);
    NOTE(ctx, vt::show(x));
    std::string y = scribbu::urlencode(x);
    std::size_t i = 0;
    for (unsigned char c: x) {
      if (unreserved(c)) {
        CHECK(i < y.size() && (unsigned char) y[i] == c, "url/encode", vt::show(x) << " is encoded as " << vt::show(y));
        ++i;
      } else {
        CHECK(i + 2 < y.size() && y[i] == '%' && isxdigit((unsigned char) y[i + 1]) && isxdigit((unsigned char) y[i + 2]) && std::stoi(y.substr(i + 1, 2), nullptr, 16) == c,
              "url/encode", vt::show(x) << " is encoded as " << vt::show(y));
        i += 3;
      }
    }
    CHECK_EQ(y.size(), i, "url/encode", "length of " << vt::show(y));
    CHECK_EQ(scribbu::urldecode(y), x, "url/decode", "decoding " << vt::show(y));
    // & as others may have encoded it
    std::string z = encoded(s, x);
    CHECK_EQ(scribbu::urldecode(z), x, "url/decode", "decoding " << vt::show(z));
    // what's no encoding is refused
    std::string bad = z + s.pick({ std::string("%"), std::string("%4"), std::string("%g1"), std::string("%1g"), std::string("% 1"), std::string("%-1"), std::string("%0x") });
    bool refused = false;
    try { scribbu::urldecode(bad); } catch (const std::exception&) { refused = true; }
    CHECK(refused, "url/malformed", vt::show(bad) << " is decoded");
    ctx.checked(5);
    if (x.size()) ctx.nontrivial(hash(x));
    ctx.label("url");
  }

# define ANYVER(f) void f(source &s, context &ctx) { switch (s.below(3)) { case 0: f ## _<2>(s, ctx); break; case 1: f ## _<3>(s, ctx); break; default: f ## _<4>(s, ctx); } }
  ANYVER(count)
  ANYVER(popm)
  ANYVER(cloud)
}

int main(int argc, char **argv)
{
  return run(argc, argv, spec {
      "P20", "a counter or popularimeter was taken through a history, a cloud with tags in it likewise, or a non-empty string encoded; distinct by values",
      800000, 16000000,
      { { "count", 2, count }, { "popm", 2, popm }, { "cloud", 4, cloud }, { "urls", 1, urls } },
      { "counters beyond 64 bits may be reported as such (std::domain_error) but not as another number",
        "owners, tags & values have no NULs in them (the frame can't hold any)",
        "a cloud whose only tag has neither name nor values isn't told from an empty one in URL-encoded form" },
    });
}
