/* edits.hh -- random edits of ID3v2 tags through the public interface, for
 * checks which state what must hold after any history of edits. */
#pragma once

#include "gen.hh"

#include <algorithm>

namespace gen {

  /// Change a frame's value through whatever mutators it has; false if none
  template <int V> bool mutate_(source &s, typename lib<V>::frame &f, std::string *what)
  {
    typedef lib<V> L;
    auto say = [&](const std::string &x) { if (what) *what = x; };
    if (auto *p = dynamic_cast<typename L::text*>(&f)) {
      ustr t = text(s, s.flip() ? FULL : LATIN1, 30);
      say("set text " + vt::show(ref::utf8(t)));
      try {
        std::string u = ref::utf8(t);
        if constexpr (V == 4) {
          typedef typename L::text::frame_encoding E;
          E e = s.pick({ E::ISO_8859_1, E::UTF_16_BOM, E::UTF_16_BE, E::UTF_8 });
          bool bom = e == E::UTF_16_BOM;
          p->set(u, scribbu::encoding::UTF_8, e, bom, scribbu::on_no_encoding::fail);
        } else {
          p->set(u, scribbu::encoding::UTF_8, s.flip(), scribbu::on_no_encoding::fail);
        }
      } catch (const std::exception &) {
      }
      return true;
    }
    if (auto *p = dynamic_cast<scribbu::play_count*>(&f)) {
      if (s.flip()) { say("inc"); p->inc(); } else {
        std::uint64_t n = s.edgy(64);
        say("count " + std::to_string(n));
        p->count(n);
      }
      return true;
    }
    if (auto *p = dynamic_cast<scribbu::popularimeter*>(&f)) {
      switch (s.below(3)) {
      case 0: say("inc"); p->inc(); break;
      case 1: {
        std::uint64_t n = s.edgy(64);
        say("count " + std::to_string(n));
        p->count(n);
        break;
      }
      default: {
        unsigned char n = s.spicy();
        say("rating " + std::to_string(n));
        p->rating(n);
      }
      }
      return true;
    }
    if (auto *p = dynamic_cast<scribbu::tag_cloud*>(&f)) {
      std::string k = cstr(s, 6), v = cstr(s, 6);
      switch (s.below(3)) {
      case 0: say("add key " + vt::show(k)); p->add_key(k); break;
      case 1: say("add value " + vt::show(k) + "=" + vt::show(v)); p->add_key(k); p->add_value(k, v); break;
      default: say("reset " + vt::show(k)); p->reset({ { k, { v } } });
      }
      return true;
    }
    return false;
  }

  /// ... which may refuse (a counter overflows, say)
  template <int V> bool mutate(source &s, typename lib<V>::frame &f, std::string *what = nullptr)
  {
    try {
      return mutate_<V>(s, f, what);
    } catch (const std::exception &ex) {
      if (what) *what += std::string(" refused: ") + ex.what();
      return false;
    }
  }

  /// One random edit of `t'; returns what was done
  template <int V> std::string edit(source &s, typename lib<V>::tag &t, const fopts &o)
  {
    typedef lib<V> L;
    std::size_t n = t.num_frames();
    std::ostringstream os;
    switch (s.weighted({ 4, 3, 2, 2, 3, 2, 2, 1, 1, 1, 1 })) {
    case 0: case 1: {
      fdesc d = frame(s, V, o);
      if (d.k == kind::encr) d = frame(s, V, kind::priv, o);
      bool gen = s.chance(1, 3);
      std::size_t at = s.below(n + 1);
      os << "insert at " << at << " " << show(d);
      auto pf = from_bytes<V>(d);
      if (at == n) push<V>(t, *pf, gen); else insert<V>(t, t.cbegin() + at, *pf, gen);
      break;
    }
    case 2:
      if (n) {
        std::size_t at = s.below(n);
        os << "erase " << at;
        t.erase(t.cbegin() + at);
      }
      break;
    case 3: {
      std::size_t pad = s.small(300);
      os << "padding " << pad;
      t.padding(pad);
      break;
    }
    case 4: case 5:
      if (n) {
        std::size_t at = s.below(n);
        std::string w = "nothing";
        auto q = t.begin() + at;
        typename L::frame &f = *q;
        mutate<V>(s, f, &w);
        os << "frame " << at << ": " << w;
      }
      break;
    case 6:
      if (n) {
        fdesc d = frame(s, V, o);
        if (d.k == kind::encr) d = frame(s, V, kind::priv, o);
        std::size_t at = s.below(n);
        os << "replace " << at << " with " << show(d);
        auto pf = from_bytes<V>(d);
        assign<V>(t, at, *pf, s.chance(1, 3));
      }
      break;
    case 7: {
      std::string x = ref::utf8(text(s, s.flip() ? BMP : LATIN1));
      os << "title " << vt::show(x);
      try { t.title(x, scribbu::encoding::UTF_8, s.flip()); } catch (const std::exception &ex) { os << " refused"; }
      break;
    }
    case 8: {
      std::string x = ref::utf8(text(s, BMP)), y = ref::utf8(text(s, BMP, 8));
      os << "add_comment " << vt::show(x) << " " << vt::show(y);
      try {
        t.add_comment(x, scribbu::language::eng, scribbu::encoding::UTF_8,
                      s.flip() ? scribbu::use_unicode::with_bom : scribbu::use_unicode::no, y);
      } catch (const std::exception &ex) { os << " refused"; }
      break;
    }
    case 9: {
      std::string x = ref::utf8(text(s, BMP)), y = ref::utf8(text(s, BMP, 8));
      os << "add_user_defined_text " << vt::show(x) << " " << vt::show(y);
      try {
        t.add_user_defined_text(x, scribbu::encoding::UTF_8,
                                s.flip() ? scribbu::use_unicode::with_bom : scribbu::use_unicode::no, y);
      } catch (const std::exception &ex) { os << " refused"; }
      break;
    }
    default:
      if (n > 1) {
        std::size_t i = s.below(n), j = i + s.below(n - i);
        os << "erase [" << i << ", " << j << ")";
        t.erase(t.cbegin() + i, t.cbegin() + j);
      }
    }
    return os.str();
  }
}
