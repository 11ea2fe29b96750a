/* cli.hh -- running the program in a child. */
#pragma once

#include "trouble.hh"

#include <csignal>
#include <cstdlib>

#include <sys/resource.h>

/// The program's main(), renamed in our build
int scribbu_main(int argc, char *argv[]);

namespace cli {

  typedef std::vector<std::string> args;

  inline std::string show(const args &a)
  {
    std::string s = "scribbu";
    for (auto &x: a) s += " " + vt::show(x);
    return s;
  }

  const std::size_t ROOM = ~std::size_t(0);

  /// Not a size, but which call of the operating system fails
  const std::size_t TROUBLE = std::size_t(1) << 62;

  inline std::size_t some_trouble(vt::source &s)
  {
    trouble::plan p = trouble::draw(s);
    return TROUBLE + p.at + (p.partial ? 256 : 0) + (std::size_t(p.err) << 16);
  }

  inline std::string show_room(std::size_t n)
  {
    return n & TROUBLE ? "call " + std::to_string(n & 255) + " fails" + (n & 256 ? " halfway with " : " with ") + strerror(n >> 16 & 0xff)
      : "files can't grow beyond " + std::to_string(n) + " bytes";
  }

  /// Let files grow up to `n' bytes only, as though the disk were full
  inline void confine(std::size_t n)
  {
    if (n == ROOM) return;
    if (n & TROUBLE) {
      trouble::plan p = { };
      p.at = n & 255;
      p.partial = n & 256;
      p.err = n >> 16 & 0xff;
      trouble::arm(p);
      return;
    }
    signal(SIGXFSZ, SIG_IGN);
    struct rlimit rl = { n, n };
    setrlimit(RLIMIT_FSIZE, &rl);
  }

  /// What fails in a child is no longer to fail afterwards
  struct calm { ~calm() { trouble::disarm(); } };

  /// Run `scribbu a...' in `cwd'
  inline vt::proc_result run(vt::context &ctx, const std::string &cwd, const args &a,
                             const std::vector<std::pair<std::string, std::string>> &env = {},
                             std::size_t room = ROOM)
  {
    calm c;
    return vt::in_child(cwd, ctx.scratch + "/io", [&]() {
      confine(room);
      for (auto &e: env) setenv(e.first.c_str(), e.second.c_str(), 1);
      std::vector<char*> argv;
      argv.push_back(strdup("scribbu"));
      for (auto &x: a) argv.push_back(strdup(x.c_str()));
      argv.push_back(nullptr);
      return scribbu_main((int) argv.size() - 1, argv.data());
    });
  }

  /// It ended in an orderly way?
  inline bool orderly(const vt::proc_result &r) { return !r.signalled && r.status < 4; }
}
