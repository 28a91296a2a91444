/* LD_PRELOAD: ends the process in the middle of its n-th write to a regular file (KILLWRITE_AT=n; half of that write is done
 * first when KILLWRITE_HALF is set); KILLWRITE_COUNT=file records the number of such writes at exit. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <signal.h>
#include <stdatomic.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>
static atomic_llong n;
static long long at = -1;
static int half;
static const char *count;
__attribute__((constructor)) static void init(void)
{
   if (getenv("KILLWRITE_AT")) at = atoll(getenv("KILLWRITE_AT"));
   half = getenv("KILLWRITE_HALF") != 0;
   count = getenv("KILLWRITE_COUNT");
}
__attribute__((destructor)) static void fini(void)
{
   if (!count) return;
   FILE *f = fopen(count, "w");
   if (f) { fprintf(f, "%lld\n", (long long) n); fclose(f); }
}
static int hit(int fd)
{
   struct stat s;
   if (fd <= 2 || fstat(fd, &s) || !S_ISREG(s.st_mode)) return 0;
   return atomic_fetch_add(&n, 1) == at;
}
static void end(void) { kill(getpid(), SIGKILL); for (;;) pause(); }
ssize_t write(int fd, const void *b, size_t k)
{
   if (hit(fd)) { if (half) syscall(SYS_write, fd, b, k/2); end(); }
   return syscall(SYS_write, fd, b, k);
}
ssize_t writev(int fd, const struct iovec *v, int k)
{
   if (hit(fd)) { if (half && k > 1) syscall(SYS_writev, fd, v, k - 1); end(); }
   return syscall(SYS_writev, fd, v, k);
}
