/* P12 -- templates. */
#include "tbt.hh"

#include <scribbu/id3v2-utils.hh>
#include <scribbu/tbt-support.hh>

#include <iostream>
#include <locale>

using namespace vt;
using namespace gen;
using namespace tbt;

namespace {

  struct hush {
    std::ostringstream sink;
    std::streambuf *p;
    hush(): p(std::cerr.rdbuf(sink.rdbuf())) { }
    ~hush() { std::cerr.rdbuf(p); }
  };

  void history(source &s, context &ctx)
  {
    hush h;
    clear_dir(ctx.scratch);
    const char *loc = s.pick<const char*>({ "C", "C", "C.UTF-8", "xx_YY.UTF-8" });
    setenv("LC_ALL", loc, 1);
    if (std::string(loc) != "C") NOTE(ctx, "LC_ALL=" << loc);
    std::vector<file> fs;
    std::size_t nf = 1 + s.small(2);
    for (std::size_t i = 0; i < nf; ++i) fs.push_back(tbt::make(s, ctx, ctx.scratch, i));
    std::size_t n = 1 + s.small(4);
    bool wrong = false;
    for (std::size_t i = 0; i < n; ++i) {
      if (s.chance(1, 5)) {
        std::string t = an_invalid_one(s);
        NOTE(ctx, "template " << vt::show(t) << ", invalid");
        try {
          scribbu::template_processor P(t);
          FAILK("accepted", "an invalid template is accepted");
        } catch (const scribbu::tbt_support::error &ex) {
          NOTE(ctx, "  " << ex.what());
        }
        ctx.label("invalid template");
        ctx.checked();
        wrong = true;
        continue;
      }
      std::string t;
      auto ts = a_template(s, t);
      NOTE(ctx, "template " << vt::show(t));
      std::unique_ptr<scribbu::template_processor> P;
      try {
        P.reset(new scribbu::template_processor(t));
      } catch (const std::exception &ex) {
        FAILK("refused", "a valid template is refused: " << ex.what() << "; " << vt::show(h.sink.str()));
      }
      std::size_t m = 1 + s.small(2);
      for (std::size_t j = 0; j < m; ++j) {
        const file &f = fs[s.below(fs.size())];
        std::string want, got, threw;
        bool tbterr = false;
        enum { TEXT, MISSING, FAILED, UNSPEC } w = TEXT;
        try {
          for (auto &x: ts) want += x(f);
        } catch (const missing&) {
          w = MISSING;
        } catch (const failed&) {
          w = FAILED;
        } catch (const unspecified&) {
          w = UNSPEC;
        }
        try {
          got = (*P)(ctx.scratch + "/" + f.name);
        } catch (const scribbu::tbt_support::error &ex) {
          threw = ex.what();
          tbterr = true;
        } catch (const std::exception &ex) {
          threw = ex.what();
          if (threw.empty()) threw = "an exception";
        }
        NOTE(ctx, "  on " << vt::show(f.name) << ": " << (threw.empty() ? vt::show(got) : "threw " + threw));
        ctx.checked();
        switch (w) {
        case TEXT:
          CHECK(threw.empty(), "threw", "expected " << vt::show(want) << ", but it threw " << threw);
          CHECK_EQ(got, want, "text", "the expansion");
          ctx.label("text");
          if (ts.size() > 1 || wrong) ctx.nontrivial(vt::hash(t + '\0' + got));
          wrong = false;
          break;
        case MISSING:
          CHECK(tbterr, "missing", "something's missing, but that isn't reported" << (threw.empty() ? "" : ": threw ") << threw);
          ctx.label("missing");
          ctx.nontrivial(vt::hash(t));
          break;
        case FAILED:
          CHECK(threw.size(), "unencodable", "some text can't be converted, but that isn't reported");
          ctx.label("no conversion");
          break;
        default:
          ctx.label("unspecified");
          break;
        }
      }
    }
  }
}

int main(int argc, char **argv)
{
  return run(argc, argv, spec {
      "P12", "an expansion of several terms, or the first one after an invalid template, or one that reports a missing tag; distinct by template & text",
      150000, 3000000,
      { { "history", 1, history } },
      { "years of two digits are checked for years of four only",
        "options for encoded-by, which the grammar doesn't have, aren't generated",
        "whitespace is spaces and tabs; letters are changed in case when they're ASCII" },
    });
}
