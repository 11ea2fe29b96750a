#include "engine.hh"

#include <algorithm>
#include <chrono>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <filesystem>
#include <fstream>
#include <iostream>
#include <unordered_set>

#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

namespace fs = std::filesystem;

#ifdef VT_ASAN
extern "C" void __sanitizer_set_death_callback(void (*callback)(void));
#endif

extern "C" const char *__asan_default_options()
{
  return "detect_leaks=0:exitcode=99:abort_on_error=0:allocator_may_return_null=0:"
    "max_allocation_size_mb=512:detect_stack_use_after_return=0:malloc_fill_byte=190:"
    "max_malloc_fill_size=4096:handle_abort=0:quarantine_size_mb=8:alloc_dealloc_mismatch=1:"
    "detect_container_overflow=1:new_delete_type_mismatch=1";
}
extern "C" const char *__ubsan_default_options()
{
  return "print_stacktrace=1:halt_on_error=1:exitcode=99";
}

namespace vt {

  std::uint64_t mix(std::uint64_t z)
  {
    z += 0x9e3779b97f4a7c15ULL;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
  }

  std::uint64_t hash(const void *p, std::size_t n, std::uint64_t h)
  {
    const unsigned char *q = (const unsigned char*) p;
    for (std::size_t i = 0; i < n; ++i) {
      h = (h ^ q[i]) * 0x100000001b3ULL;
    }
    return mix(h ^ n);
  }

  source::source(std::uint64_t seed, std::uint64_t n):
    replay_(false), state_(mix(mix(seed) ^ (n * 0xd1342543de82ef95ULL))), pos_(0)
  { }

  source::source(const std::vector<std::uint64_t> &c): replay_(true), state_(0), rec_(c), pos_(0)
  { }

  std::uint64_t source::draw(std::uint64_t max)
  {
    std::uint64_t v;
    if (replay_) {
      v = pos_ < rec_.size() ? rec_[pos_] : 0;
      if (v > max) v = max;
      if (pos_ < rec_.size()) rec_[pos_] = v;
      ++pos_;
      return v;
    }
    state_ += 0x9e3779b97f4a7c15ULL;
    std::uint64_t z = state_;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    z ^= z >> 31;
    v = max == UINT64_MAX ? z : (std::uint64_t)(((unsigned __int128) z * (max + 1)) >> 64);
    rec_.push_back(v);
    ++pos_;
    if (fd_ >= 0 && write(fd_, &v, sizeof(v)) < 0) { fd_ = -1; }
    return v;
  }

  std::uint64_t source::small(std::uint64_t max)
  {
    if (0 == max) { return 0; }
    double u = (double) draw(0xffff) / 65536.0;
    std::uint64_t v = (std::uint64_t)(u * u * u * (double)(max + 1));
    return v > max ? max : v;
  }

  std::size_t source::weighted(std::initializer_list<unsigned> w)
  {
    unsigned sum = 0;
    for (auto x: w) sum += x;
    unsigned v = (unsigned) draw(sum - 1);
    std::size_t i = 0;
    for (auto x: w) {
      if (v < x) return i;
      v -= x;
      ++i;
    }
    return w.size() - 1;
  }

  unsigned char source::byte() { return (unsigned char) draw(255); }

  unsigned char source::spicy()
  {
    switch (weighted({4, 3, 4, 2, 2, 3})) {
    case 0: return (unsigned char)('a' + draw(25));
    case 1: return 0;
    case 2: return 0xff;
    case 3: return (unsigned char)(0xe0 + draw(31));
    case 4: return pick<unsigned char>({1, 2, 3, 0x0a, 0x0d, 0x7f, 0x80, 0xdf, 0xe0, 0xe9, 0xea, 0xfe, 0x20, 0x22, 0x2c, 0x09});
    default: return (unsigned char) draw(255);
    }
  }

  bytes source::blob(std::size_t n)
  {
    bytes r(n);
    if (0 == n) { return r; }
    switch (weighted({2, 5, 3, 1})) {
    case 0:
      for (auto &x: r) x = (unsigned char)('a' + draw(25));
      break;
    case 1:
      for (auto &x: r) x = spicy();
      break;
    case 2:
      for (auto &x: r) x = (unsigned char) draw(255);
      break;
    default: {
      unsigned char x = pick<unsigned char>({0, 0xff, 0xfe, 0xe0, 0x7f});
      std::fill(r.begin(), r.end(), x);
      break;
    }
    }
    return r;
  }

  std::uint64_t source::edgy(unsigned bits)
  {
    std::uint64_t m = bits >= 64 ? UINT64_MAX : ((1ULL << bits) - 1);
    switch (weighted({3, 4, 2})) {
    case 0: return draw(std::min<std::uint64_t>(m, 10));
    case 1: {
      unsigned k = (unsigned) draw(bits);
      std::uint64_t b = k >= 64 ? 0 : (1ULL << k);
      std::uint64_t d = draw(4);
      return (b + d - 2) & m;
    }
    default: return draw(m);
    }
  }

  /////////////////////////////////////////////////////////////////////////////

  std::string hex(const void *p, std::size_t n, std::size_t max)
  {
    static const char *D = "0123456789abcdef";
    std::string s;
    const unsigned char *q = (const unsigned char*) p;
    for (std::size_t i = 0; i < n && i < max; ++i) {
      s += D[q[i] >> 4];
      s += D[q[i] & 15];
    }
    if (n > max) s += "...(" + std::to_string(n) + " bytes)";
    return s;
  }

  std::string show(const bytes &b) { return "<" + hex(b.data(), b.size()) + ">"; }

  std::string show(const std::string &s)
  {
    std::string r = "\"";
    std::size_t k = 0;
    for (unsigned char c: s) {
      if (++k > 400) { r += "...(" + std::to_string(s.size()) + ")"; break; }
      if (c == '"' || c == '\\') { r += '\\'; r += (char) c; }
      else if (c >= 32 && c < 127) { r += (char) c; }
      else { char buf[8]; std::snprintf(buf, 8, "\\x%02x", c); r += buf; }
    }
    return r + "\"";
  }

  std::string show(const std::map<std::string, bytes> &m)
  {
    std::string r = "{";
    for (auto &x: m) {
      r += show(x.first) + ": " + std::to_string(x.second.size()) + " bytes " +
        hex(x.second.data(), x.second.size(), 60) + "; ";
    }
    return r + "}";
  }

  /////////////////////////////////////////////////////////////////////////////

  bool slurp(const std::string &path, bytes &out)
  {
    std::FILE *f = std::fopen(path.c_str(), "rb");
    if (!f) return false;
    out.clear();
    unsigned char buf[65536];
    std::size_t n;
    while ((n = std::fread(buf, 1, sizeof(buf), f)) > 0) out.insert(out.end(), buf, buf + n);
    std::fclose(f);
    return true;
  }

  bytes slurp(const std::string &path)
  {
    bytes b;
    if (!slurp(path, b)) {
      throw failure{ "missing-file", "cannot read " + path };
    }
    return b;
  }

  void spew(const std::string &path, const bytes &b)
  {
    std::FILE *f = std::fopen(path.c_str(), "wb");
    if (!f) {
      std::fprintf(stderr, "harness: cannot write %s\n", path.c_str());
      std::abort();
    }
    if (!b.empty()) fwrite(b.data(), 1, b.size(), f);
    std::fclose(f);
  }

  void clear_dir(const std::string &dir)
  {
    if (dir.find("/vt-scratch-") == std::string::npos) {
      std::fprintf(stderr, "harness: refusing to clear %s\n", dir.c_str());
      std::abort();
    }
    std::error_code ec;
    for (auto &e: fs::directory_iterator(dir, ec)) {
      fs::remove_all(e.path(), ec);
    }
  }

  std::map<std::string, bytes> snapshot(const std::string &dir)
  {
    std::map<std::string, bytes> r;
    for (auto &e: fs::recursive_directory_iterator(dir)) {
      std::string rel = e.path().string().substr(dir.size() + 1);
      if (e.is_directory()) { r[rel + "/"] = bytes(); }
      else { bytes b; slurp(e.path().string(), b); r[rel] = b; }
    }
    return r;
  }

  proc_result in_child(const std::string &cwd, const std::string &pfx,
                       const std::function<int ()> &fn, unsigned cpu_s)
  {
    std::string fo = pfx + ".out", fe = pfx + ".err";
    std::cout.flush();
    std::cerr.flush();
    pid_t pid = fork();
    if (pid < 0) { std::perror("fork"); std::abort(); }
    if (0 == pid) {
      int o = open(fo.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
      int e = open(fe.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
      int n = open("/dev/null", O_RDONLY);
      dup2(n, 0); dup2(o, 1); dup2(e, 2);
      if (chdir(cwd.c_str())) { _exit(98); }
      struct rlimit rl = { cpu_s, cpu_s + 5 };
      setrlimit(RLIMIT_CPU, &rl);
      rl.rlim_cur = rl.rlim_max = 0;
      setrlimit(RLIMIT_CORE, &rl);
      int st = fn();
      std::cout.flush();
      std::cerr.flush();
      std::fflush(nullptr);
      _exit(st);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) { }
    proc_result r;
    r.signalled = WIFSIGNALED(st);
    r.status = r.signalled ? WTERMSIG(st) : WEXITSTATUS(st);
    bytes b;
    if (slurp(fo, b)) r.out = S(b);
    if (slurp(fe, b)) r.err = S(b);
    unlink(fo.c_str());
    unlink(fe.c_str());
    return r;
  }

  /////////////////////////////////////////////////////////////////////////////
  // the driver

  namespace {

    const std::size_t MAXW = 16, NLAB = 128, NHASH = 1u << 19, NSAMP = 4, SAMPLEN = 3000;

    enum { ST_RUNNING = 0, ST_DONE = 1, ST_FAILED = 2, ST_RERUN = 3 };

    struct wstate {
      volatile int state;
      volatile std::uint64_t current;     // case under way
      std::uint64_t evals, discards, nontriv, checks, known;
      char key[128];
      char msg[8192];
      char known_keys[16][128];
      char labels[NLAB][48];
      std::uint64_t lcount[NLAB];
      char samples[NSAMP][SAMPLEN];
      std::uint64_t nh;
      std::uint64_t hashes[NHASH];
      char desc[1 << 17];
    };

    wstate *W; // current process' slot
    std::unordered_set<std::uint64_t> *seen;
    bool case_nontrivial;        // is the case under way non-trivial...
    std::uint64_t case_hash;     // & what tells it from others?

    double now()
    {
      return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
    }

    struct known_finding { std::string key, what; };
    std::vector<known_finding> KNOWN;

    void cpu_timer(unsigned s)
    {
      struct itimerval it = { { 0, 0 }, { (time_t) s, 0 } };
      setitimer(ITIMER_PROF, &it, nullptr);
    }

    std::string scratch_root;

    void set_str(char *dst, std::size_t cap, const std::string &s)
    {
      std::size_t n = std::min(cap - 1, s.size());
      std::memcpy(dst, s.data(), n);
      dst[n] = 0;
    }

    std::size_t choose_sub(const spec &sp, std::uint64_t seed, std::uint64_t n, int only)
    {
      if (only >= 0) return (std::size_t) only;
      unsigned sum = 0;
      for (auto &s: sp.subs) sum += s.weight;
      unsigned v = (unsigned)(mix(seed * 1315423911ULL + n) % sum);
      for (std::size_t i = 0; i < sp.subs.size(); ++i) {
        if (v < sp.subs[i].weight) return i;
        v -= sp.subs[i].weight;
      }
      return 0;
    }

    // Run one case. 0 = ok, 1 = failed (key, msg set), 2 = discarded, 3 = known
    int one(const spec &sp, std::size_t isub, source &src, context &cx, std::string &key, std::string &msg)
    {
      try {
        sp.subs[isub].fn(src, cx);
        return 0;
      } catch (const discard &) {
        return 2;
      } catch (const failure &f) {
        key = std::string(sp.subs[isub].name) + "/" + f.key;
        msg = f.msg;
      } catch (const std::exception &ex) {
        key = std::string(sp.subs[isub].name) + "/unexpected-exception";
        msg = std::string("unexpected exception: ") + ex.what();
      } catch (...) {
        key = std::string(sp.subs[isub].name) + "/unexpected-exception";
        msg = "unexpected exception of unknown type";
      }
      for (auto &k: KNOWN) if (k.key == key) return 3;
      return 1;
    }

    enum class outcome { ok, failed, crashed, hung };

    const char *name(outcome o)
    {
      switch (o) {
      case outcome::ok: return "ok";
      case outcome::failed: return "failed";
      case outcome::crashed: return "crashed";
      default: return "hung";
      }
    }

    // Run a recorded case in a child. If `used' is given, it is trimmed to the
    // choices actually consumed.
    outcome try_choices(const spec &sp, std::size_t isub, std::vector<std::uint64_t> &ch, wstate *ws,
                        bool describe, const std::string &errfile)
    {
      ws->state = ST_RUNNING;
      ws->key[0] = ws->msg[0] = ws->desc[0] = 0;
      ws->nh = 0;
      std::fflush(nullptr);
      pid_t pid = fork();
      if (0 == pid) {
        setpgid(0, 0);
        int e = open(errfile.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
        dup2(e, 2);
        dup2(e, 1);
        W = ws;
        seen = new std::unordered_set<std::uint64_t>();
        source src(ch);
        context cx;
        cx.describing = describe;
        cx.scratch = scratch_root + "/shrink";
        std::error_code ec;
        fs::create_directories(cx.scratch, ec);
        clear_dir(cx.scratch);
        cpu_timer(sp.cpu_limit_s);
        std::string key, msg;
        int rc = one(sp, isub, src, cx, key, msg);
        cpu_timer(0);
        ws->hashes[0] = src.used();
        ws->nh = 1;
        if (1 == rc) {
          set_str(ws->key, sizeof(ws->key), key);
          set_str(ws->msg, sizeof(ws->msg), msg);
          ws->state = ST_FAILED;
        } else {
          ws->state = ST_DONE;
        }
        _exit(0);
      }
      int st = 0;
      while (waitpid(pid, &st, 0) < 0 && errno == EINTR) { }
      kill(-pid, SIGKILL);
      if (WIFSIGNALED(st)) {
        return (WTERMSIG(st) == SIGPROF || WTERMSIG(st) == SIGXCPU) ? outcome::hung : outcome::crashed;
      }
      if (ws->state == ST_FAILED) {
        if (ws->nh == 1 && ws->hashes[0] < ch.size()) ch.resize(ws->hashes[0]);
        return outcome::failed;
      }
      if (ws->state == ST_DONE) return outcome::ok;
      return outcome::crashed; // exited without finishing: a sanitizer report
    }

    std::vector<std::uint64_t> choices_of(const spec &sp, std::uint64_t seed, std::uint64_t n, std::size_t isub,
                                          wstate *ws)
    {
      // Generate in a child that publishes choices as they're drawn: instead,
      // simply pre-draw raw PRNG output is impossible (draws depend on max), so
      // record through a pipe.
      int p[2];
      if (pipe(p)) std::abort();
      std::fflush(nullptr);
      pid_t pid = fork();
      if (0 == pid) {
        close(p[0]);
        int e = open("/dev/null", O_WRONLY);
        dup2(e, 2);
        dup2(e, 1);
        W = ws;
        seen = new std::unordered_set<std::uint64_t>();
        source src(seed, n);
        src.publish(p[1]); // as they're drawn, so that it doesn't matter how we end
        context cx;
        cx.scratch = scratch_root + "/shrink";
        std::error_code ec;
        fs::create_directories(cx.scratch, ec);
        clear_dir(cx.scratch);
        cpu_timer(sp.cpu_limit_s);
        std::string key, msg;
        one(sp, isub, src, cx, key, msg);
        _exit(0);
      }
      close(p[1]);
      std::vector<std::uint64_t> v;
      std::string raw;
      char buf[65536];
      ssize_t k;
      while ((k = read(p[0], buf, sizeof(buf))) > 0) raw.append(buf, k);
      close(p[0]);
      int st;
      while (waitpid(pid, &st, 0) < 0 && errno == EINTR) { }
      v.resize(raw.size() / 8);
      if (v.size()) std::memcpy(v.data(), raw.data(), v.size() * 8);
      return v;
    }

    struct shrinker {
      const spec &sp; std::size_t isub; wstate *ws; double deadline; unsigned runs = 0, max_runs;
      outcome want; std::string errfile; std::string want_key;
      std::vector<std::uint64_t> best;

      bool interesting(std::vector<std::uint64_t> c)
      {
        if (runs >= max_runs || now() > deadline) return false;
        ++runs;
        outcome o = try_choices(sp, isub, c, ws, false, errfile);
        if (o != want) return false;
        if (o == outcome::failed && want_key != ws->key) return false;
        best = c;
        return true;
      }

      bool out_of_time() const { return runs >= max_runs || now() > deadline; }

      void go()
      {
        bool progress = true;
        while (progress && !out_of_time()) {
          progress = false;
          // delete blocks
          for (std::size_t k = std::max<std::size_t>(1, best.size() / 2); k >= 1 && !out_of_time(); k /= 2) {
            for (std::size_t i = best.size(); i-- > 0 && !out_of_time();) {
              if (i + k > best.size()) continue;
              std::vector<std::uint64_t> c(best);
              c.erase(c.begin() + i, c.begin() + i + k);
              if (interesting(c)) { progress = true; i = std::min(i + 1, best.size()); continue; }
              // deleting may need an earlier length lowered, too
              if (k <= 4 && i > 0 && c.size() >= i && c[i - 1] > 0) {
                c[i - 1]--;
                if (interesting(c)) { progress = true; i = std::min(i + 1, best.size()); }
              }
              if (k > 8 && i > k) i -= k / 2;
            }
          }
          // zero blocks
          for (std::size_t k = std::max<std::size_t>(1, best.size() / 2); k >= 1 && !out_of_time(); k /= 2) {
            for (std::size_t i = 0; i + k <= best.size() && !out_of_time(); i += k) {
              std::vector<std::uint64_t> c(best);
              bool any = false;
              for (std::size_t j = i; j < i + k; ++j) { any = any || c[j]; c[j] = 0; }
              if (any && interesting(c)) progress = true;
            }
          }
          // lower single choices
          for (std::size_t i = 0; i < best.size() && !out_of_time(); ++i) {
            std::uint64_t lo = 0, hi = best[i]; // best[i] fails; look for the least that does
            while (lo < hi && !out_of_time() && i < best.size()) {
              std::uint64_t mid = lo + (hi - lo) / 2;
              std::vector<std::uint64_t> c(best);
              c[i] = mid;
              if (interesting(c)) { progress = true; hi = mid; if (i >= best.size()) break; }
              else lo = mid + 1;
            }
          }
        }
      }
    };

    std::string esc(const std::string &s)
    {
      std::string r;
      for (unsigned char c: s) {
        if (c == '"' || c == '\\') { r += '\\'; r += (char) c; }
        else if (c == '\n') r += "\\n";
        else if (c < 32 || c >= 127) { char b[8]; std::snprintf(b, 8, "\\u%04x", c); r += b; }
        else r += (char) c;
      }
      return r;
    }

    void load_known(const std::string &file, const std::string &id)
    {
      // lines: "known: property=<id> key=<key> <what fails>"
      std::ifstream f(file);
      std::string line;
      while (std::getline(f, line)) {
        std::string pfx = "known: property=" + id + " key=";
        if (0 != line.compare(0, pfx.size(), pfx)) continue;
        std::string rest = line.substr(pfx.size());
        std::size_t i = rest.find(' ');
        KNOWN.push_back({ rest.substr(0, i), i == std::string::npos ? "" : rest.substr(i + 1) });
      }
    }

  } // namespace

  void context::label(const char *s)
  {
    for (std::size_t i = 0; i < NLAB; ++i) {
      if (0 == W->labels[i][0]) { set_str(W->labels[i], 48, s); }
      if (0 == std::strncmp(W->labels[i], s, 47)) { W->lcount[i]++; return; }
    }
  }

  void context::nontrivial(std::uint64_t h)
  {
    case_hash = case_nontrivial ? mix(case_hash ^ h) : h;
    case_nontrivial = true;
  }

  void context::note(const std::string &s)
  {
    // Kept in shared memory, so it's available even if we crash
    std::size_t n = std::strlen(W->desc);
    set_str(W->desc + n, sizeof(W->desc) - n, s + "\n");
  }

  void context::checked(std::uint64_t n) { W->checks += n; }

  int run(int argc, char **argv, const spec &sp)
  {
    std::string tier = "quick", evidence, replay_dir = ".", replay, known_file, extra_note;
    std::uint64_t seed = 1;
    unsigned long cases = 0;
    unsigned workers = 8;
    double max_s = 0;
    int only = -1;
    long show_n = -1;
    for (int i = 1; i < argc; ++i) {
      std::string a = argv[i];
      auto val = [&]() -> std::string { return ++i < argc ? argv[i] : ""; };
      if (a == "--tier") tier = val();
      else if (a == "--seed") seed = std::strtoull(val().c_str(), 0, 10);
      else if (a == "--cases") cases = std::strtoul(val().c_str(), 0, 10);
      else if (a == "--max-seconds") max_s = std::atof(val().c_str());
      else if (a == "--evidence") evidence = val();
      else if (a == "--replay-dir") replay_dir = val();
      else if (a == "--replay") replay = val();
      else if (a == "--workers") workers = (unsigned) std::atoi(val().c_str());
      else if (a == "--known") known_file = val();
      else if (a == "--show") show_n = std::atol(val().c_str());
      else if (a == "--only") {
        std::string n = val();
        for (std::size_t k = 0; k < sp.subs.size(); ++k) if (n == sp.subs[k].name) only = (int) k;
        if (only < 0) { std::fprintf(stderr, "no such sub-check: %s\n", n.c_str()); return 2; }
      }
      else { std::fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
    }
    if (workers < 1) workers = 1;
    if (workers > MAXW) workers = MAXW;
    bool thorough = tier == "thorough";
    if (!cases) cases = thorough ? sp.thorough_cases : sp.quick_cases;
    if (max_s <= 0) max_s = thorough ? 7200 : 240;
    if (!known_file.empty()) load_known(known_file, sp.id);

    char tmpl[] = "/tmp/vt-scratch-XXXXXX";
    if (!mkdtemp(tmpl)) { std::perror("mkdtemp"); return 2; }
    scratch_root = tmpl;
    struct cleanup { ~cleanup() { std::error_code ec; fs::remove_all(scratch_root, ec); } } cl;

    std::size_t total = sizeof(wstate) * (workers + 1);
    wstate *ws = (wstate*) mmap(nullptr, total, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (ws == MAP_FAILED) { std::perror("mmap"); return 2; }
    wstate *aux = ws + workers;

    std::string errfile = scratch_root + "/stderr.txt";
    auto err_head = [&]() {
      bytes b;
      slurp(errfile, b);
      std::string s = S(b);
      if (s.size() > 6000) s.resize(6000);
      return s;
    };

    if (!replay.empty()) {
      // replay file: "sub: NAME" and "choices: n n n ..." lines
      std::ifstream f(replay);
      std::string line, subname;
      std::vector<std::uint64_t> ch;
      while (std::getline(f, line)) {
        if (0 == line.compare(0, 5, "sub: ")) subname = line.substr(5);
        if (0 == line.compare(0, 9, "choices: ")) {
          std::istringstream is(line.substr(9));
          std::uint64_t x;
          while (is >> x) ch.push_back(x);
        }
      }
      for (std::size_t k = 0; k < sp.subs.size(); ++k) {
        if (subname == sp.subs[k].name) {
          outcome o = try_choices(sp, k, ch, aux, true, errfile);
          std::printf("%s: %s\nkey: %s\n%s\n--- case ---\n%s\n--- stderr ---\n%s\n", replay.c_str(), name(o),
                      aux->key, aux->msg, aux->desc, err_head().c_str());
          return o == outcome::ok ? 0 : 1;
        }
      }
      std::fprintf(stderr, "replay: no sub-check named `%s'\n", subname.c_str());
      return 2;
    }

    if (show_n >= 0) {
      W = ws;
      seen = new std::unordered_set<std::uint64_t>();
      for (long k = 0; k < show_n; ++k) {
        source src(seed, k);
        context cx;
        cx.describing = true;
        cx.scratch = scratch_root + "/show";
        fs::create_directories(cx.scratch);
        W->desc[0] = 0;
        std::string key, msg;
        std::size_t is = choose_sub(sp, seed, k, only);
        int rc = one(sp, is, src, cx, key, msg);
        std::printf("== case %ld [%s] -> %d %s %s\n%s\n", k, sp.subs[is].name, rc, key.c_str(), msg.c_str(), W->desc);
      }
      return 0;
    }

    double t0 = now();
    std::vector<pid_t> pids(workers, 0);
    std::vector<std::uint64_t> next(workers);
    for (unsigned w = 0; w < workers; ++w) next[w] = w;

    auto spawn = [&](unsigned w) {
      std::fflush(nullptr);
      pid_t pid = fork();
      if (0 == pid) {
        setpgid(0, 0);
        W = ws + w;
        seen = new std::unordered_set<std::uint64_t>();
        for (std::uint64_t i = 0; i < W->nh; ++i) seen->insert(W->hashes[i]);
        std::string ef = scratch_root + "/w" + std::to_string(w) + ".err";
        int e = open(ef.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
        dup2(e, 2);
        dup2(e, 1);
        std::string scr = scratch_root + "/w" + std::to_string(w);
        std::error_code ec;
        fs::create_directories(scr, ec);
        std::uint64_t sampled = 0;
        for (std::uint64_t n = next[w]; n < cases && now() - t0 < max_s; n += workers) {
          W->current = n;
          W->state = ST_RUNNING;
          case_nontrivial = false;
          source src(seed, n);
          context cx;
          cx.case_no = n;
          cx.scratch = scr;
          W->desc[0] = 0;
          cx.describing = (sampled < NSAMP && (n / workers) % 7 == 3);
          std::size_t is = choose_sub(sp, seed, n, only);
          cpu_timer(sp.cpu_limit_s);
          std::string key, msg;
          int rc = one(sp, is, src, cx, key, msg);
          cpu_timer(0);
          if (0 == (n / workers) % 512) { lseek(2, 0, SEEK_SET); if (ftruncate(2, 0)) { } }
          W->evals++;
          if (2 == rc) { W->discards++; continue; }
          if (3 == rc) {
            W->known++;
            for (auto &kk: W->known_keys) {
              if (kk == key) break;
              if (!kk[0]) { set_str(kk, 128, key); break; }
            }
            continue;
          }
          if (1 == rc) {
            set_str(W->key, sizeof(W->key), key);
            set_str(W->msg, sizeof(W->msg), msg);
            W->state = ST_FAILED;
            _exit(0);
          }
          if (case_nontrivial) {
            W->nontriv++;
            if (seen->size() < NHASH && seen->insert(case_hash).second && W->nh < NHASH) {
              W->hashes[W->nh++] = case_hash;
            }
          }
          if (cx.describing && case_nontrivial) {
            set_str(W->samples[sampled++], SAMPLEN, std::string("[") + sp.subs[is].name + "] " + W->desc);
          }
        }
        W->state = ST_DONE;
        _exit(0);
      }
      pids[w] = pid;
    };

    for (unsigned w = 0; w < workers; ++w) spawn(w);

    int violations = 0;
    std::uint64_t unconfirmed = 0;
    std::string vio_file;
    unsigned alive = workers;
    while (alive && !violations) {
      int st = 0;
      pid_t pid = waitpid(-1, &st, 0);
      if (pid < 0) { if (errno == EINTR) continue; break; }
      unsigned w = 0;
      for (; w < workers && pids[w] != pid; ++w);
      if (w == workers) continue;
      if (ws[w].state == ST_DONE) { --alive; continue; }
      // This worker failed, crashed or hung
      std::uint64_t n = ws[w].current;
      std::size_t isub = choose_sub(sp, seed, n, only);
      std::string key0 = ws[w].state == ST_FAILED ? ws[w].key : "";
      std::string msg0 = ws[w].state == ST_FAILED ? ws[w].msg : "";
      std::fprintf(stderr, "%s: case %llu (seed %llu, %s) %s: %s %s\n", sp.id, (unsigned long long) n,
                   (unsigned long long) seed, sp.subs[isub].name,
                   ws[w].state == ST_FAILED ? "failed" : WIFSIGNALED(st) ? "died on a signal" : "exited",
                   key0.c_str(), msg0.substr(0, 1500).c_str());
      if (ws[w].state != ST_FAILED) {
        bytes eb;
        slurp(scratch_root + "/w" + std::to_string(w) + ".err", eb);
        std::string es(eb.begin(), eb.end());
        std::fprintf(stderr, "status %d; stderr: %s\n", st, es.substr(0, 3000).c_str());
      }
      std::vector<std::uint64_t> ch = choices_of(sp, seed, n, isub, aux);
      outcome o = outcome::ok;
      for (int k = 0; k < 3 && o == outcome::ok; ++k) o = try_choices(sp, isub, ch, aux, false, errfile);
      if (o == outcome::ok) {
        // Not reproducible: note it & carry on with the next case
        ++unconfirmed;
        std::fprintf(stderr, "%s: case %llu did not reproduce (%zu choices)\n", sp.id, (unsigned long long) n, ch.size());
        if (unconfirmed > 200) { --alive; continue; }
        ws[w].evals++;
        next[w] = n + workers;
        spawn(w);
        continue;
      }
      // Stop the others & shrink
      for (unsigned v = 0; v < workers; ++v) if (v != w && pids[v] > 0) { kill(-pids[v], SIGKILL); }
      double shrink_s = getenv("VT_SHRINK_SECONDS") ? std::atof(getenv("VT_SHRINK_SECONDS")) : thorough ? 240 : 90;
      shrinker sh { sp, isub, aux, now() + shrink_s, 0, o == outcome::hung ? 40u : 6000u, o, errfile,
          o == outcome::failed ? aux->key : "", ch };
      sh.go();
      // confirm three times
      unsigned ok3 = 0;
      for (int k = 0; k < 3; ++k) {
        std::vector<std::uint64_t> c(sh.best);
        if (try_choices(sp, isub, c, aux, true, errfile) != outcome::ok) ++ok3;
      }
      std::vector<std::uint64_t> fin(sh.best);
      if (ok3 < 3) { fin = ch; std::vector<std::uint64_t> c(ch); o = try_choices(sp, isub, c, aux, true, errfile); }
      std::error_code ec;
      fs::create_directories(replay_dir, ec);
      std::uint64_t h = hash(fin.data(), fin.size() * 8);
      vio_file = replay_dir + "/" + sp.id + "-" + hex(&h, 6) + ".replay";
      {
        std::ofstream f(vio_file);
        f << "property: " << sp.id << "\nsub: " << sp.subs[isub].name << "\nseed: " << seed << "\ncase: " << n
          << "\noutcome: " << name(o) << "\nkey: " << aux->key << "\nshrink-runs: " << sh.runs
          << "\nchoices:";
        for (auto x: fin) f << " " << x;
        f << "\nmessage: " << aux->msg << "\n--- case ---\n" << aux->desc << "\n--- stderr ---\n" << err_head() << "\n";
      }
      std::fprintf(stderr, "shrunk to %zu choices in %u runs (confirmed %u/3)\nkey: %s\n%s\n--- case ---\n%s\n--- stderr ---\n%s\n",
                   fin.size(), sh.runs, ok3, aux->key, aux->msg, aux->desc, err_head().substr(0, 3500).c_str());
      ++violations;
    }
    for (unsigned v = 0; v < workers; ++v) if (pids[v] > 0) { kill(-pids[v], SIGKILL); }
    while (waitpid(-1, nullptr, 0) > 0 || errno == EINTR) { }

    // Tally
    std::uint64_t evals = 0, disc = 0, nontriv = 0, checks = 0, known = 0;
    std::unordered_set<std::uint64_t> distinct;
    std::map<std::string, std::uint64_t> labels;
    std::vector<std::string> samples;
    std::set<std::string> kk;
    for (unsigned w = 0; w < workers; ++w) {
      evals += ws[w].evals; disc += ws[w].discards; nontriv += ws[w].nontriv; checks += ws[w].checks; known += ws[w].known;
      for (std::uint64_t i = 0; i < ws[w].nh; ++i) distinct.insert(ws[w].hashes[i]);
      for (std::size_t i = 0; i < NLAB && ws[w].labels[i][0]; ++i) labels[ws[w].labels[i]] += ws[w].lcount[i];
      for (auto &s: ws[w].samples) if (s[0] && samples.size() < 8) { samples.push_back(s); if (w % 2) break; }
      for (auto &k: ws[w].known_keys) if (k[0]) kk.insert(k);
    }
    double wall = now() - t0;
    if (!evidence.empty()) {
      std::ofstream f(evidence);
      f << "{\n \"property\": \"" << sp.id << "\",\n \"tier\": \"" << (thorough ? "thorough" : "quick") << "\",\n \"seed\": " << seed
        << ",\n \"level\": \"exploration\",\n \"coverage\": {\n  \"evaluations\": " << evals << ",\n  \"distinct_nontrivial\": "
        << distinct.size() << ",\n  \"rule\": \"" << esc(sp.rule) << "\",\n  \"nontrivial\": " << nontriv
        << ",\n  \"oracle_comparisons\": " << checks << ",\n  \"discarded\": " << disc << ",\n  \"known_finding_hits\": " << known
        << ",\n  \"unconfirmed\": " << unconfirmed
        << ",\n  \"labels\": {";
      const char *sep = "";
      for (auto &l: labels) { f << sep << "\n   \"" << esc(l.first) << "\": " << l.second; sep = ","; }
      f << "\n  },\n  \"samples\": [";
      sep = "";
      for (auto &s: samples) { f << sep << "\n   \"" << esc(s.substr(0, 1200)) << "\""; sep = ","; }
      f << "\n  ]\n },\n \"assumptions\": [";
      sep = "";
      for (auto &s: sp.assumptions) { f << sep << "\n  \"" << esc(s) << "\""; sep = ","; }
      f << "\n ],\n \"violations\": " << violations << ",\n \"wall_s\": " << wall << "\n}\n";
    }
    std::fprintf(stderr, "%s: %llu cases (%llu non-trivial, %zu distinct, %llu discarded, %llu comparisons, %llu unconfirmed) in %.1f s\n",
                 sp.id, (unsigned long long) evals, (unsigned long long) nontriv, distinct.size(), (unsigned long long) disc,
                 (unsigned long long) checks, (unsigned long long) unconfirmed, wall);
    for (auto &k: KNOWN) {
      if (kk.count(k.key) || true) std::printf("KNOWN-FINDING: property=%s %s\n", sp.id, k.what.c_str());
    }
    if (violations) {
      std::printf("VIOLATION property=%s replay=%s\n", sp.id, vio_file.c_str());
      return 1;
    }
    return 0;
  }
}
