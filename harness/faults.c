/* LD_PRELOAD: injected failures.
 * FAULT_PATH=<text>    writes to regular files whose path contains it fail with ENOSPC
 *   FAULT_BYTES=<n>      once n bytes have been written to such files (the write that crosses the limit is done in part)
 *   FAULT_ONCE=1         only the first write that would cross it fails (the disk has space again afterwards)
 *   FAULT_CLOSE=1        writes succeed, closing the file reports EIO (delayed write error)
 * FAULT_MALLOC_AT=<n>  the n-th allocation (from 0) of at least FAULT_MALLOC_MIN bytes fails; FAULT_MALLOC_STAY=1: and all later ones
 * FAULT_COUNT=<file>   "allocations of at least FAULT_MALLOC_MIN bytes, failures injected" at exit */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdatomic.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/sendfile.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>
static atomic_llong nalloc, nfail, bytes;
static long long at = -1, limit = -1, minsize;
static int stay, once, onclose, ready;
static const char *path, *count;
extern void *__libc_malloc(size_t), *__libc_calloc(size_t, size_t), *__libc_realloc(void *, size_t), *__libc_memalign(size_t, size_t);
static long long num(const char *n, long long d) { const char *s = getenv(n); return s ? atoll(s) : d; }
__attribute__((constructor)) static void init(void)
{
   if (!strcmp(program_invocation_short_name, "timeout")) return;
   at = num("FAULT_MALLOC_AT", -1); minsize = num("FAULT_MALLOC_MIN", 0); stay = num("FAULT_MALLOC_STAY", 0);
   path = getenv("FAULT_PATH"); limit = num("FAULT_BYTES", -1); once = num("FAULT_ONCE", 0); onclose = num("FAULT_CLOSE", 0);
   count = getenv("FAULT_COUNT");
   ready = 1;
}
static void record(void)
{
   if (!count) return;
   char b[80];
   int k = snprintf(b, sizeof b, "%lld %lld\n", (long long) nalloc, (long long) nfail);
   int fd = syscall(SYS_openat, AT_FDCWD, count, O_WRONLY|O_CREAT|O_TRUNC, 0600);
   if (fd >= 0) { syscall(SYS_write, fd, b, k); syscall(SYS_close, fd); }
}
__attribute__((destructor)) static void fini(void) { record(); }
static int refuse(size_t n)
{
   if (!ready || (long long) n < minsize) return 0;
   long long k = atomic_fetch_add(&nalloc, 1);
   if (at < 0 || k < at || (k > at && !stay)) return 0;
   if (!atomic_fetch_add(&nfail, 1)) record();
   errno = ENOMEM;
   return 1;
}
void *malloc(size_t n) { return refuse(n) ? 0 : __libc_malloc(n); }
void *calloc(size_t a, size_t b) { return refuse(a*b) ? 0 : __libc_calloc(a, b); }
void *realloc(void *p, size_t n) { return refuse(n) ? 0 : __libc_realloc(p, n); }
void *memalign(size_t a, size_t n) { return refuse(n) ? 0 : __libc_memalign(a, n); }
void *aligned_alloc(size_t a, size_t n) { return refuse(n) ? 0 : __libc_memalign(a, n); }
int posix_memalign(void **p, size_t a, size_t n)
{
   if (refuse(n)) return ENOMEM;
   void *q = __libc_memalign(a, n);
   if (!q) return ENOMEM;
   *p = q;
   return 0;
}
static int mine(int fd)
{
   struct stat s;
   char l[64], b[4096];
   if (!path || fd <= 2 || fstat(fd, &s) || !S_ISREG(s.st_mode)) return 0;
   snprintf(l, sizeof l, "/proc/self/fd/%d", fd);
   ssize_t k = readlink(l, b, sizeof b - 1);
   if (k <= 0) return 0;
   b[k] = 0;
   return strstr(b, path) != 0;
}
/* how many of n bytes may be written; -1: none, and it is an error */
static ssize_t room(int fd, size_t n)
{
   if (limit < 0 || onclose || !mine(fd)) return n;
   long long done = atomic_fetch_add(&bytes, n);
   if (done + (long long) n <= limit) return n;
   if (once && nfail) return n;
   ssize_t k = done < limit ? limit - done : -1;
   if (k < 0 && !atomic_fetch_add(&nfail, 1)) record();
   return k;
}
static ssize_t full(void) { errno = ENOSPC; return -1; }
ssize_t write(int fd, const void *b, size_t n)
{
   ssize_t k = room(fd, n);
   return k < 0 ? full() : syscall(SYS_write, fd, b, k);
}
ssize_t writev(int fd, const struct iovec *v, int c)
{
   size_t n = 0;
   for (int i = 0; i < c; i++) n += v[i].iov_len;
   ssize_t k = room(fd, n);
   if (k < 0) return full();
   if ((size_t) k == n) return syscall(SYS_writev, fd, v, c);
   ssize_t done = 0;
   for (int i = 0; i < c && done < k; i++) {
      size_t m = v[i].iov_len < (size_t) (k - done) ? v[i].iov_len : (size_t) (k - done);
      ssize_t r = syscall(SYS_write, fd, v[i].iov_base, m);
      if (r < 0) return done ? done : r;
      done += r;
   }
   return done;
}
ssize_t sendfile(int o, int i, off_t *p, size_t n)
{
   ssize_t k = room(o, n > 1 << 20 ? 1 << 20 : n);
   return k < 0 ? full() : syscall(SYS_sendfile, o, i, p, (size_t) k);
}
ssize_t sendfile64(int o, int i, off64_t *p, size_t n) { return sendfile(o, i, (off_t *) p, n); }
ssize_t copy_file_range(int i, off64_t *pi, int o, off64_t *po, size_t n, unsigned f)
{
   ssize_t k = room(o, n > 1 << 20 ? 1 << 20 : n);
   return k < 0 ? full() : syscall(SYS_copy_file_range, i, pi, o, po, (size_t) k, f);
}
int close(int fd)
{
   if (onclose && fd > 2 && mine(fd) && (fcntl(fd, F_GETFL) & O_ACCMODE) != O_RDONLY) {
      if (!atomic_fetch_add(&nfail, 1)) record();
      syscall(SYS_close, fd);
      errno = EIO;
      return -1;
   }
   return syscall(SYS_close, fd);
}
int fclose(FILE *f)
{
   static int (*real)(FILE *);
   if (!real) real = (int (*)(FILE *)) dlsym(RTLD_NEXT, "fclose");
   int fd = fileno(f);
   int bad = onclose && fd > 2 && mine(fd) && (fcntl(fd, F_GETFL) & O_ACCMODE) != O_RDONLY;
   int r = real(f);
   if (!bad) return r;
   if (!atomic_fetch_add(&nfail, 1)) record();
   errno = EIO;
   return EOF;
}
