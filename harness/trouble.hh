/* Operating system calls which fail at a chosen point; include in one
   translation unit of a program only. */
#ifndef VT_TROUBLE_HH
#define VT_TROUBLE_HH 1

#include "engine.hh"

#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

namespace trouble {

  /// What is to fail; shared with child processes
  struct plan {
    bool armed;
    long at;        ///< calls to let pass
    bool lasting;   ///< do later calls which need space fail, too?
    bool partial;   ///< does the write that fails get halfway?
    bool struck;
    bool removal;   ///< did a removal fail?
    int err;
    char what[32];
  };

  inline plan& current()
  {
    static plan *p = (plan*) mmap(nullptr, sizeof(plan), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    return *p;
  }

  enum kind { space, name, removal };

  inline bool strikes(kind k, const char *what)
  {
    plan &p = current();
    if (!p.armed) return false;
    if (p.struck) {
      if (!(p.lasting && k == space)) return false;
    } else {
      if (p.at-- > 0) return false;
      p.struck = true;
      p.removal = k == removal;
      strncpy(p.what, what, sizeof p.what - 1);
    }
    errno = p.err;
    return true;
  }

  /// How much of a write that fails is done
  inline std::size_t partly(std::size_t n)
  {
    plan &p = current();
    if (!p.partial || n < 2) return 0;
    p.partial = false;
    // The rest of it is what fails
    p.struck = false;
    p.at = 0;
    return n / 2;
  }

  inline plan draw(vt::source &s)
  {
    plan p = { };
    p.at = s.below(14);
    p.lasting = s.chance(1, 3);
    p.partial = s.flip();
    p.err = p.lasting ? ENOSPC : s.pick({ ENOSPC, EIO, EDQUOT });
    return p;
  }

  inline void arm(const plan &p) { current() = p; current().armed = true; }
  inline void disarm() { current().armed = false; }
}

extern "C" {

  ssize_t write(int fd, const void *p, size_t n)
  {
    if (fd > 2 && trouble::strikes(trouble::space, "write")) {
      n = trouble::partly(n);
      if (!n) return -1;
    }
    return syscall(SYS_write, fd, p, n);
  }

  ssize_t writev(int fd, const struct iovec *v, int n)
  {
    if (fd > 2 && trouble::strikes(trouble::space, "writev")) {
      std::size_t part = n > 0 ? trouble::partly(v[0].iov_len) : 0;
      if (!part) return -1;
      return syscall(SYS_write, fd, v[0].iov_base, part);
    }
    return syscall(SYS_writev, fd, v, n);
  }

  ssize_t sendfile(int out, int in, off_t *off, size_t n) noexcept
  {
    if (trouble::strikes(trouble::space, "sendfile")) {
      n = trouble::partly(n);
      if (!n) return -1;
    }
    return syscall(SYS_sendfile, out, in, off, n);
  }

  ssize_t copy_file_range(int in, off64_t *poff, int out, off64_t *qoff, size_t n, unsigned flags)
  {
    if (trouble::strikes(trouble::space, "copy_file_range")) {
      n = trouble::partly(n);
      if (!n) return -1;
    }
    return syscall(SYS_copy_file_range, in, poff, out, qoff, n, flags);
  }

  int rename(const char *a, const char *b) noexcept
  {
    if (trouble::strikes(trouble::name, "rename")) return -1;
    return syscall(SYS_rename, a, b);
  }

  int link(const char *a, const char *b) noexcept
  {
    if (trouble::strikes(trouble::name, "link")) return -1;
    return syscall(SYS_link, a, b);
  }

  int open(const char *p, int flags, ...)
  {
    mode_t m = 0;
    if (flags & O_CREAT) {
      va_list ap;
      va_start(ap, flags);
      m = va_arg(ap, int);
      va_end(ap);
      if (trouble::strikes(trouble::space, "open")) return -1;
    }
    return syscall(SYS_openat, AT_FDCWD, p, flags, m);
  }

  int open64(const char *p, int flags, ...)
  {
    mode_t m = 0;
    if (flags & O_CREAT) {
      va_list ap;
      va_start(ap, flags);
      m = va_arg(ap, int);
      va_end(ap);
      if (trouble::strikes(trouble::space, "open64")) return -1;
    }
    return syscall(SYS_openat, AT_FDCWD, p, flags, m);
  }

  FILE* fopen(const char *p, const char *mode)
  {
    static auto real = (FILE* (*)(const char*, const char*)) dlsym(RTLD_NEXT, "fopen");
    if (*mode != 'r' && trouble::strikes(trouble::space, "fopen")) return nullptr;
    return real(p, mode);
  }

  int remove(const char *p) noexcept
  {
    if (trouble::strikes(trouble::removal, "remove")) return -1;
    int rc = syscall(SYS_unlink, p);
    if (rc && (errno == EISDIR || errno == EPERM)) rc = syscall(SYS_rmdir, p);
    return rc;
  }

  int unlink(const char *p) noexcept
  {
    if (trouble::strikes(trouble::removal, "unlink")) return -1;
    return syscall(SYS_unlink, p);
  }
}

#endif // VT_TROUBLE_HH
