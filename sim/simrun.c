/* simrun: start one simulated process.
 *   simrun LIB CFG LOG ROOT STDOUT STDERR CTLFD NOTEFD CPUSEC WALLSEC PROG ARGS...
 * CTLFD/NOTEFD: inherited pipe ends, or -1.  Address-space randomisation is turned off, limits and
 * environment are fixed, so that everything the program can observe comes from the configuration. */
#define _GNU_SOURCE
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <unistd.h>

static void put(int fd, int at) {
  if (fd < 0) { fprintf(stderr, "simrun: open failed (%d)\n", at); _exit(98); }
  if (fd != at) { if (dup2(fd, at) < 0) _exit(98); }
}
int main(int argc, char **argv) {
  if (argc < 12) { fprintf(stderr, "usage\n"); return 98; }
  personality(ADDR_NO_RANDOMIZE);
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  int ctl = atoi(argv[7]), note = atoi(argv[8]);
  /* move inherited pipes out of the way */
  if (ctl < 0) ctl = open("/dev/null", O_RDONLY);
  if (note < 0) note = open("/dev/null", O_WRONLY);
  ctl = fcntl(ctl, F_DUPFD, 100);
  note = fcntl(note, F_DUPFD, 100);
  int cfg = fcntl(open(argv[2], O_RDONLY), F_DUPFD, 100);
  int lg = fcntl(open(argv[3], O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644), F_DUPFD, 100);
  int root = fcntl(open(argv[4], O_RDONLY | O_DIRECTORY), F_DUPFD, 100);
  int so = fcntl(open(argv[5], O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644), F_DUPFD, 100);
  int se = fcntl(open(argv[6], O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644), F_DUPFD, 100);
  int in = fcntl(open("/dev/null", O_RDONLY), F_DUPFD, 100);
  put(in, 0); put(so, 1); put(se, 2); put(cfg, 3); put(lg, 4); put(root, 5); put(ctl, 6); put(note, 7);
  closefrom(8);
  struct rlimit rl = {8 << 20, 8 << 20};
  setrlimit(RLIMIT_STACK, &rl);
  rl.rlim_cur = rl.rlim_max = 4096;
  setrlimit(RLIMIT_NOFILE, &rl);
  rl.rlim_cur = rl.rlim_max = 0;
  setrlimit(RLIMIT_CORE, &rl);
  rl.rlim_cur = (rlim_t)atoi(argv[9]);
  rl.rlim_max = rl.rlim_cur + 5;
  setrlimit(RLIMIT_CPU, &rl);
  rl.rlim_cur = rl.rlim_max = 12ull << 30;
  setrlimit(RLIMIT_AS, &rl);
  rl.rlim_cur = rl.rlim_max = 512ull << 20;
  setrlimit(RLIMIT_FSIZE, &rl);
  signal(SIGPIPE, SIG_DFL);
  alarm((unsigned)atoi(argv[10]));
  char pre[4096];
  snprintf(pre, sizeof pre, "LD_PRELOAD=%s", argv[1]);
  char *env[] = {pre, "HOME=/home", "TZ=UTC", "LANG=C", "PATH=/bin", "LD_BIND_NOW=1", 0};
  char *prog = argv[11];
  argv[11] = "dump_syms";
  execve(prog, argv + 11, env);
  perror("execve");
  _exit(98);
}
