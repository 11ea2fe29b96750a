/* engine.hh -- a small property-based testing engine.
 *
 * A test case is the sequence of integers ("choices") a property draws from a
 * `source'.  In generation mode they come from a PRNG seeded by (seed, case
 * number); in replay mode from a recorded vector, missing choices reading as
 * zero.  Every generator is written so that smaller choices mean simpler
 * values, so one generic shrinker (delete, zero & lower choices) serves all.
 *
 * The driver runs cases in forked workers, so that sanitizer reports, signals
 * and runaway loops are observed by the parent, attributed to a case number,
 * shrunk & confirmed by replaying before they're reported. */
#pragma once

#include <cstdint>
#include <cstring>
#include <functional>
#include <initializer_list>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace vt {

  struct discard { };

  struct failure {
    std::string key; // short & stable; what known findings are matched on
    std::string msg;
  };

  typedef std::vector<unsigned char> bytes;

  std::uint64_t mix(std::uint64_t x);
  std::uint64_t hash(const void *p, std::size_t n, std::uint64_t h = 0x9e3779b97f4a7c15ULL);
  inline std::uint64_t hash(const std::string &s, std::uint64_t h = 1)
  { return hash(s.data(), s.size(), mix(h)); }
  inline std::uint64_t hash(const bytes &s, std::uint64_t h = 1)
  { return hash(s.data(), s.size(), mix(h)); }

  class source {
  public:
    source(std::uint64_t seed, std::uint64_t n);
    explicit source(const std::vector<std::uint64_t> &choices);

    /// The only primitive: uniform on [0, max]
    std::uint64_t draw(std::uint64_t max);

    std::uint64_t below(std::uint64_t n) { return n ? draw(n - 1) : 0; }
    std::uint64_t range(std::uint64_t lo, std::uint64_t hi) { return lo + draw(hi - lo); }
    /// true with probability num/den; the zero choice is false
    bool chance(unsigned num, unsigned den) { return draw(den - 1) >= den - num; }
    bool flip() { return 1 == draw(1); }
    /// [0, max], strongly biased towards small values
    std::uint64_t small(std::uint64_t max);
    /// index, with the given weights; put the simplest first
    std::size_t weighted(std::initializer_list<unsigned> w);
    template <typename T> const T& pick(const std::vector<T> &v) { return v[below(v.size())]; }
    template <typename T> T pick(std::initializer_list<T> v) { return *(v.begin() + below(v.size())); }
    unsigned char byte();          // uniform
    unsigned char spicy();         // biased to 0x00, 0xff, 0xe0.. & ASCII
    bytes blob(std::size_t n);     // n bytes, in one of several styles
    bytes blob_upto(std::size_t n) { std::size_t k = small(n); return blob(k); }
    /// 32/64-bit values around powers of two
    std::uint64_t edgy(unsigned bits);

    const std::vector<std::uint64_t>& choices() const { return rec_; }
    std::size_t used() const { return pos_; }
    /// Write each choice to `fd' as it is made
    void publish(int fd) { fd_ = fd; }

  private:
    bool replay_;
    std::uint64_t state_;
    std::vector<std::uint64_t> rec_;
    std::size_t pos_;
    int fd_ = -1;
  };

  class context {
  public:
    bool describing = false;
    std::uint64_t case_no = 0;
    std::string scratch; // a directory private to this worker

    void note(const std::string &s);
    void label(const char *s);
    void label(const std::string &s) { label(s.c_str()); }
    /// Mark this case as having exercised the property; `h' identifies it
    void nontrivial(std::uint64_t h);
    /// Number of oracle comparisons made
    void checked(std::uint64_t n = 1);
  };

# define NOTE(c, x) do { if ((c).describing) { std::ostringstream note_os_; note_os_ << x; (c).note(note_os_.str()); } } while (0)
# define FAILK(key, x) do { std::ostringstream fail_os_; fail_os_ << x; throw ::vt::failure{ key, fail_os_.str() }; } while (0)
# define CHECK(cond, key, x) do { if (!(cond)) { FAILK(key, x); } } while (0)
# define CHECK_EQ(a, b, key, x) do { auto &&va_ = (a); auto &&vb_ = (b); \
    if (!(va_ == vb_)) { FAILK(key, x << ": got " << ::vt::show(va_) << ", expected " << ::vt::show(vb_)); } } while (0)

  std::string hex(const void *p, std::size_t n, std::size_t max = 200);
  std::string show(const std::string &s);
  std::string show(const bytes &s);
  inline std::string show(bool b) { return b ? "true" : "false"; }
  template <typename T> std::string show(const T &x)
  { std::ostringstream os; os << x; return os.str(); }
  template <typename T> std::string show(const std::vector<T> &x)
  { std::ostringstream os; os << "["; for (auto &y: x) os << show(y) << ", "; os << "]"; return os.str(); }
  inline std::string show(unsigned char x) { return show((unsigned) x); }

  typedef std::function<void (source&, context&)> property_fn;

  struct sub {
    const char *name;
    unsigned weight;
    property_fn fn;
  };

  struct spec {
    const char *id;
    const char *rule;                // what makes a case non-trivial
    unsigned long quick_cases;       // per tier
    unsigned long thorough_cases;
    std::vector<sub> subs;
    std::vector<std::string> assumptions;
    unsigned cpu_limit_s = 20;       // per case
  };

  int run(int argc, char **argv, const spec &s);

  /////////////////////////////////////////////////////////////////////////////
  // files & sub-processes

  bytes slurp(const std::string &path);
  bool slurp(const std::string &path, bytes &out);
  void spew(const std::string &path, const bytes &b);
  inline bytes B(const std::string &s) { return bytes(s.begin(), s.end()); }
  inline std::string S(const bytes &b) { return std::string(b.begin(), b.end()); }
  inline void app(bytes &a, const bytes &b) { a.insert(a.end(), b.begin(), b.end()); }
  inline void app(bytes &a, const std::string &b) { a.insert(a.end(), b.begin(), b.end()); }
  /// Remove everything in `dir' (which must be under a vt scratch directory)
  void clear_dir(const std::string &dir);
  /// name -> contents, recursively (names relative to `dir')
  std::map<std::string, bytes> snapshot(const std::string &dir);
  std::string show(const std::map<std::string, bytes> &);

  struct proc_result {
    bool signalled; // killed by a signal
    int status;     // exit status or signal number
    std::string out, err;
  };

  /// Fork & run `fn' in the child with cwd, stdout & stderr redirected; its
  /// return value becomes the exit status
  proc_result in_child(const std::string &cwd, const std::string &io_prefix,
                       const std::function<int ()> &fn, unsigned cpu_s = 20);
}
