/* P09 -- frame collections behave like a list of frames.
 *
 * A pool of tags, each paired with a plain list of what its frames look like,
 * goes through a generated history; after every step each tag & all of its
 * lookups must agree with its list. */
#include "gen.hh"
#include "edits.hh"

using namespace vt;
using namespace gen;
typedef scribbu::id3v2_text_frames TF;

namespace {

  struct item { std::string id; kind k; std::string look; };
  typedef std::vector<item> list;

  template <int V> struct subject {
    typedef typename lib<V>::tag T;
    std::unique_ptr<T> t;
    list l;
  };

  std::string str(const list &l)
  {
    std::string r;
    for (auto &x: l) r += "\n    " + x.look;
    return r;
  }

  template <int V> fdesc draw(source &s)
  {
    fopts o;
    o.encr = false;
    fdesc d = gen::frame(s, V, o);
    // collisions matter
    if (d.k == kind::text && s.chance(2, 3)) d.id = text_ids(V)[s.below(4)];
    return d;
  }

  template <int V> item describe(const fdesc &d, const typename lib<V>::frame &f)
  { return item { d.id, d.k, look<V>(f).str() }; }

  template <int V> void agree(const subject<V> &x, const std::string &when, context &ctx)
  {
    typedef typename lib<V>::tag T;
    typedef lib<V> L;
    T &t = *x.t;
    const T &c = t;
    std::size_t n = x.l.size();
    CHECK_EQ(c.num_frames(), n, "num", when << ": number of frames");
    CHECK_EQ(std::size_t(c.end() - c.begin()), n, "const-distance", when << ": end() - begin(), const");
    CHECK_EQ(std::size_t(t.end() - t.begin()), n, "distance", when << ": end() - begin()");
    CHECK_EQ(std::size_t(t.cend() - t.cbegin()), n, "cdistance", when << ": cend() - cbegin()");
    std::size_t i = 0;
    for (auto p = c.begin(); p != c.end(); ++p, ++i) {
      CHECK_EQ(look<V>(*p).str(), x.l[i].look, "frame", when << ": frame " << i);
    }
    CHECK_EQ(i, n, "iterated", when << ": frames iterated");
    i = 0;
    std::vector<const typename L::frame*> addr;
    for (auto p = t.begin(); p != t.end(); p++, ++i) {
      typename L::frame &f = *p;
      addr.push_back(&f);
      CHECK_EQ(f.id().as_string(), x.l[i].id, "mutable-id", when << ": frame " << i << "'s identifier");
    }
    std::map<std::string, std::size_t> ids;
    for (auto &y: x.l) ++ids[y.id];
    for (auto id: { "TT2", "COM", "PIC", "CNT" }) if (V == 2) ids[id];
    for (auto id: { "TIT2", "COMM", "APIC", "PCNT" }) if (V != 2) ids[id];
    for (auto &kv: ids) {
      auto id = mkid<V>(kv.first);
      CHECK_EQ(c.has_frame(id), kv.second, "has", when << ": has_frame(" << kv.first << ")");
      if (!kv.second) continue;
      const typename L::frame &f = c.get_frame(id);
      auto at = std::find(addr.begin(), addr.end(), &f);
      CHECK(at != addr.end(), "get-stray", when << ": get_frame(" << kv.first << ") isn't one of the tag's frames");
      CHECK_EQ(x.l[at - addr.begin()].id, kv.first, "get-id", when << ": identifier of get_frame(" << kv.first << ")");
    }
    // enumerations
    auto enumerated = [&](kind k, const auto &v, const char *what) {
      std::vector<std::string> got, want;
      for (auto &f: v) got.push_back(look<V>(f).str());
      for (auto &y: x.l) if (y.k == k) want.push_back(y.look);
      std::string a, b;
      for (auto &y: got) a += "\n    " + y;
      for (auto &y: want) b += "\n    " + y;
      CHECK(a == b, what, when << ": " << what << " are" << a << "\n  rather than" << b);
    };
    std::vector<typename L::comment> cs;
    c.get_comments(std::back_inserter(cs));
    enumerated(kind::comment, cs, "comments");
    std::vector<typename L::count> ps;
    c.get_play_counts(std::back_inserter(ps));
    enumerated(kind::count, ps, "play-counts");
    std::vector<typename L::popm> rs;
    c.get_popularimeters(std::back_inserter(rs));
    enumerated(kind::popm, rs, "popularimeters");
    CHECK_EQ(c.has_play_count(), ps.size(), "has-play-count", when << ": has_play_count()");
    bool threw = false;
    std::size_t pc = 0;
    try { pc = c.play_count(); } catch (const std::exception&) { threw = true; }
    CHECK_EQ(threw, ps.size() != 1, "play-count-throws", when << ": play_count() throws");
    if (!threw) CHECK_EQ(pc, ps[0].count(), "play-count", when << ": play_count()");
    // texts
    struct named { const char *v2, *v3; TF f; std::size_t n; };
    const named NAMED[] = {
      { "TT2", "TIT2", TF::tit2, c.has_title() }, { "TP1", "TPE1", TF::tpe1, c.has_artist() },
      { "TAL", "TALB", TF::talb, c.has_album() }, { "TYE", "TYER", TF::tyer, c.has_year() },
      { "TRK", "TRCK", TF::trck, c.has_track() }, { "TCO", "TCON", TF::tcon, c.has_content_type() },
      { "TEN", "TENC", TF::tenc, c.has_encoded_by() }, { "TLA", "TLAN", TF::tlan, c.has_languages() } };
    for (auto &y: NAMED) {
      std::string id = V == 2 ? y.v2 : y.v3;
      std::size_t m = 0;
      for (auto &z: x.l) m += z.id == id;
      CHECK_EQ(y.n, m, "has-named", when << ": has_...() for " << id);
      bool thrown = false;
      std::string got;
      try { got = c.text(y.f); } catch (const std::exception&) { thrown = true; }
      CHECK_EQ(thrown, m == 0, "text-throws", when << ": text(" << id << ") throws");
      if (thrown) continue;
      bool found = false;
      for (std::size_t j = 0; j < n && !found; ++j) {
        if (x.l[j].id != id) continue;
        auto *pt = dynamic_cast<const typename L::text*>(addr[j]);
        found = pt && pt->template as_str<std::string>() == got;
      }
      CHECK(found, "text", when << ": text(" << id << ") is " << show(got) << ", which no such frame has");
    }
    ctx.checked(n + 12);
  }

  template <int V> void histories(source &s, context &ctx)
  {
    typedef typename lib<V>::tag T;
    typedef lib<V> L;
    std::vector<subject<V>> pool(1);
    std::uint64_t h = V;
    {
      subject<V> &x = pool[0];
      x.t.reset(new T(s.chance(1, 3) ? s.small(20) : 0));
      std::size_t n = s.small(4);
      for (std::size_t i = 0; i < n; ++i) {
        fdesc d = draw<V>(s);
        auto pf = from_bytes<V>(d);
        NOTE(ctx, "initially " << gen::show(d));
        push<V>(*x.t, *pf, s.flip());
        x.l.push_back(describe<V>(d, *pf));
      }
      if (n && s.flip()) {
        NOTE(ctx, "write & read");
        bytes b = written<V>(*x.t, false);
        std::istringstream is(S(b));
        x.t.reset(new T(is));
        // Reading may change flags (of compression, say); P01 settles the values
        std::size_t i = 0;
        for (auto p = x.t->cbegin(); p != x.t->cend() && i < x.l.size(); ++p, ++i) {
          CHECK_EQ(p->id().as_string(), x.l[i].id, "reread-id", "identifier of frame " << i);
          x.l[i].look = look<V>(*p).str();
        }
        ctx.label("reread");
      }
      agree<V>(x, "initially", ctx);
    }
    std::size_t steps = s.small(14) + 1;
    bool moved = false;
    for (std::size_t i = 0; i < steps; ++i) {
      std::size_t k = s.below(pool.size());
      subject<V> &x = pool[k];
      T &t = *x.t;
      std::size_t n = x.l.size();
      std::ostringstream what;
      what << "tag " << k << ": ";
      int op = s.weighted({ 6, 6, 4, 2, 4, 3, 2, 2, 2, 1, 2 });
      switch (op) {
      case 0: {
        fdesc d = draw<V>(s);
        bool g = s.flip();
        auto pf = from_bytes<V>(d);
        what << "append " << (g ? "generic " : "") << gen::show(d);
        push<V>(t, *pf, g);
        x.l.push_back(describe<V>(d, *pf));
        break;
      }
      case 1: {
        fdesc d = draw<V>(s);
        bool g = s.flip();
        std::size_t at = s.below(n + 1);
        auto pf = from_bytes<V>(d);
        what << "insert at " << at << " " << (g ? "generic " : "") << gen::show(d);
        auto p = insert<V>(t, t.cbegin() + at, *pf, g);
        x.l.insert(x.l.begin() + at, describe<V>(d, *pf));
        CHECK_EQ(std::size_t(p - t.begin()), at, "insert-returns", what.str() << ": position returned");
        if (at != n) moved = true;
        break;
      }
      case 2: {
        if (!n) continue;
        std::size_t at = s.below(n);
        what << "erase " << at;
        auto p = t.erase(t.cbegin() + at);
        x.l.erase(x.l.begin() + at);
        CHECK_EQ(std::size_t(p - t.begin()), at, "erase-returns", what.str() << ": position returned");
        if (at + 1 != n) moved = true;
        break;
      }
      case 3: {
        std::size_t a = s.below(n + 1), b = a + s.below(n - a + 1);
        what << "erase [" << a << ", " << b << ")";
        auto p = t.erase(t.cbegin() + a, t.cbegin() + b);
        x.l.erase(x.l.begin() + a, x.l.begin() + b);
        CHECK_EQ(std::size_t(p - t.begin()), a, "erase-range-returns", what.str() << ": position returned");
        if (b != n) moved = true;
        break;
      }
      case 4: {
        if (!n) continue;
        fdesc d = draw<V>(s);
        bool g = s.flip();
        std::size_t at = s.below(n);
        auto pf = from_bytes<V>(d);
        what << "replace " << at << " with " << (g ? "generic " : "") << gen::show(d);
        assign<V>(t, at, *pf, g);
        x.l[at] = describe<V>(d, *pf);
        moved = true;
        break;
      }
      case 5: {
        TF f = s.pick({ TF::tit2, TF::tpe1, TF::talb, TF::tyer });
        std::string id = text_ids(V)[f == TF::tit2 ? 0 : f == TF::tpe1 ? 1 : f == TF::talb ? 2 : 3];
        what << "delete " << id;
        t.delete_frame(f);
        // Of several such frames, any one goes
        std::vector<std::size_t> where;
        for (std::size_t j = 0; j < n; ++j) if (x.l[j].id == id) where.push_back(j);
        if (where.empty()) break;
        bool found = false;
        for (auto j: where) {
          list l = x.l;
          l.erase(l.begin() + j);
          std::string now;
          for (auto p = t.cbegin(); p != t.cend(); ++p) now += "\n    " + look<V>(*p).str();
          if (now == str(l)) { x.l = l; found = true; break; }
        }
        CHECK(found, "delete", what.str() << ": the tag doesn't consist of the other frames in order");
        moved = true;
        break;
      }
      case 6: {
        // The erase-remove idiom
        if (!n) continue;
        std::string id = x.l[s.below(n)].id;
        what << "remove all " << id;
        auto p = std::remove_if(t.begin(), t.end(), [&](const typename L::frame &f) { return f.id().as_string() == id; });
        t.erase(p, t.end());
        x.l.erase(std::remove_if(x.l.begin(), x.l.end(), [&](const item &y) { return y.id == id; }), x.l.end());
        moved = true;
        break;
      }
      case 7: {
        if (pool.size() == 3) continue;
        bool clone = s.flip();
        what << (clone ? "clone" : "copy");
        subject<V> y;
        y.l = x.l;
        if (clone) y.t.reset(dynamic_cast<T*>(t.clone())); else y.t.reset(new T(t));
        CHECK(bool(y.t), "clone-type", "a clone isn't of the same type");
        CHECK_EQ(written<V>(*y.t, false) == written<V>(t, false), true, "copy-bytes", what.str() << ": written alike");
        pool.push_back(std::move(y));
        break;
      }
      case 8: {
        std::size_t j = s.below(pool.size());
        what << "assign tag " << j;
        t = *pool[j].t;
        x.l = list(pool[j].l);
        CHECK_EQ(written<V>(*pool[j].t, false) == written<V>(t, false), true, "assign-bytes", what.str() << ": written alike");
        break;
      }
      case 9: {
        if (pool.size() < 2) continue;
        what << "destroy";
        NOTE(ctx, what.str());
        pool.erase(pool.begin() + k);
        for (std::size_t j = 0; j < pool.size(); ++j) agree<V>(pool[j], what.str(), ctx);
        continue;
      }
      default: {
        if (!n) continue;
        std::size_t at = s.below(n);
        std::string w = "nothing";
        {
          auto q = t.begin() + at;
          typename L::frame &f = *q;
          mutate<V>(s, f, &w);
          what << "frame " << at << ": " << w;
          x.l[at].look = look<V>(f).str();
        }
        break;
      }
      }
      NOTE(ctx, what.str());
      h = hash(what.str(), h);
      static const char *OPS[] = { "append", "insert", "erase", "erase-range", "replace", "delete", "remove-if", "copy", "assign", "destroy", "mutate" };
      ctx.label(OPS[op]);
      for (std::size_t j = 0; j < pool.size(); ++j) agree<V>(pool[j], "tag " + std::to_string(j) + " after " + what.str(), ctx);
    }
    if (moved) ctx.nontrivial(h);
  }
}

int main(int argc, char **argv)
{
  return run(argc, argv, spec {
      "P09", "the history changes the place or kind of a frame already there (insertion before, erasure, replacement, deletion); distinct by history",
      200000, 4000000,
      { { "v2.2", 1, histories<2> }, { "v2.3", 1, histories<3> }, { "v2.4", 1, histories<4> } },
      { "which of several frames with one identifier a lookup or deletion by identifier finds is left open",
        "get_frame() is only asked for identifiers the tag has" },
    });
}
