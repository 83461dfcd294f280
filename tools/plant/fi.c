/* tiny fault shim for the demonstrations (LD_PRELOAD).  FI="op:substring:nth:action[:arg]", nth 0 = every time.
   op: read write stat pthread   action: err (arg errno) short (arg bytes) kill */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>
static char op[32], sub[512], act[32]; static int nth, arg, seen, ok = -1;
static void init(void) {
  char *e = getenv("FI"); ok = 0; if (!e) return; char b[1024]; snprintf(b, sizeof b, "%s", e);
  char *s = b, *f[5] = {0}; for (int i = 0; i < 5 && s; i++) f[i] = strsep(&s, ":");
  if (!f[3]) return; strcpy(op, f[0]); strcpy(sub, f[1]); nth = atoi(f[2]); strcpy(act, f[3]); arg = f[4] ? atoi(f[4]) : 0; ok = 1;
}
static int hit(const char *o, int fd) {
  if (ok < 0) init(); if (ok != 1 || strcmp(op, o)) return 0;
  if (fd >= 0) { char l[64], p[4096]; snprintf(l, sizeof l, "/proc/self/fd/%d", fd); ssize_t n = readlink(l, p, sizeof p - 1); if (n < 0) return 0; p[n] = 0; if (!strstr(p, sub)) return 0; }
  int k = __sync_add_and_fetch(&seen, 1); return nth == 0 || k == nth;
}
int statx(int d, const char *p, int fl, unsigned m, struct statx *b) {
  static int (*f)(int, const char *, int, unsigned, struct statx *); if (!f) f = dlsym(RTLD_NEXT, "statx");
  if (p && ok < 0) init(); if (p && ok == 1 && strstr(p, sub) && hit("stat", -1)) { errno = arg; return -1; }
  return f(d, p, fl, m, b);
}
ssize_t read(int fd, void *b, size_t n) {
  static ssize_t (*f)(int, void *, size_t); if (!f) f = dlsym(RTLD_NEXT, "read");
  if (n && hit("read", fd)) { if (!strcmp(act, "err")) { errno = arg; return -1; } if (!strcmp(act, "short") && n > (size_t)arg) n = arg; }
  return f(fd, b, n);
}
ssize_t write(int fd, const void *b, size_t n) {
  static ssize_t (*f)(int, const void *, size_t); if (!f) f = dlsym(RTLD_NEXT, "write");
  if (n && hit("write", fd)) { if (!strcmp(act, "err")) { errno = arg; return -1; } if (!strcmp(act, "kill")) { f(fd, b, n / 2); kill(getpid(), SIGKILL); }
    if (!strcmp(act, "short") && n > (size_t)arg) n = arg; }
  return f(fd, b, n);
}
int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*fn)(void *), void *x) {
  static int (*f)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *); if (!f) f = dlsym(RTLD_NEXT, "pthread_create");
  if (hit("pthread", -1)) return EAGAIN;
  return f(t, a, fn, x);
}
