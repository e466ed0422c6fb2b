/* Batch process runner: executes many short black-box runs of the binaries
   under test on all cores and records exit status, stdout and stderr.

   usage: runner JOBFILE OUTFILE NTHREADS CPU_SECONDS
   JOBFILE : u32 count, then per job: u32 nargs, (u32 len, bytes)*nargs,
             u32 len, stdin bytes, u32 env index+1 (0 = inherited environment),
             preceded by the environment table: u32 nenv, (u32 len, "NAME=VALUE")*
   OUTFILE : per job: i32 status (exit code, 1000+signal), u32 len stdout,
             bytes, u32 len stderr, bytes
   Every child gets RLIMIT_CPU (so that a non-terminating run ends with
   SIGXCPU/SIGKILL and is reported as such), RLIMIT_FSIZE and no core files. */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <signal.h>
#include <spawn.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

extern char **environ;

typedef struct { char **argv; const unsigned char *in; uint32_t inlen; uint32_t env;
  int status; unsigned char *out, *err; uint32_t outlen, errlen; } Job;

static Job *jobs; static uint32_t njobs; static volatile uint32_t next_job;
static char ***envs;
#define MAXT 64
static struct { volatile pid_t pid; volatile time_t start; } running[MAXT];
static int nthreads; static volatile int finished;
static int wall_limit, cpu_limit;

static unsigned char *buf; static size_t pos;
static uint32_t u32(void) { uint32_t v; memcpy(&v, buf+pos, 4); pos += 4; return v; }
static char *str(void) { uint32_t n = u32(); char *s = malloc(n+1); memcpy(s, buf+pos, n); s[n]=0; pos += n; return s; }

static unsigned char *slurp(int fd, uint32_t *len) {
  off_t n = lseek(fd, 0, SEEK_END);
  unsigned char *r;
  if (n > (4<<20)) n = 4<<20;
  r = malloc(n ? n : 1);
  if (pread(fd, r, n, 0) != n) { perror("pread"); exit(9); }
  *len = n; return r;
}

static void *worker(void *arg) {
  int id = (int)(intptr_t)arg;
  int fi = memfd_create("in", MFD_CLOEXEC), fo = memfd_create("out", MFD_CLOEXEC), fe = memfd_create("err", MFD_CLOEXEC);
  if (fi<0||fo<0||fe<0) { perror("memfd"); exit(9); }
  for (;;) {
    uint32_t j = __sync_fetch_and_add(&next_job, 1);
    Job *b; posix_spawn_file_actions_t fa; pid_t pid; int st, rc;
    if (j >= njobs) break;
    b = &jobs[j];
    if (ftruncate(fi,0)||ftruncate(fo,0)||ftruncate(fe,0)) { perror("ftruncate"); exit(9); }
    if (b->inlen && pwrite(fi, b->in, b->inlen, 0) != (ssize_t)b->inlen) { perror("pwrite"); exit(9); }
    lseek(fi,0,SEEK_SET); lseek(fo,0,SEEK_SET); lseek(fe,0,SEEK_SET);
    posix_spawn_file_actions_init(&fa);
    posix_spawn_file_actions_adddup2(&fa, fi, 0);
    posix_spawn_file_actions_adddup2(&fa, fo, 1);
    posix_spawn_file_actions_adddup2(&fa, fe, 2);
    running[id].start = time(NULL);
    rc = posix_spawn(&pid, b->argv[0], &fa, NULL, b->argv, b->env ? envs[b->env-1] : environ);
    posix_spawn_file_actions_destroy(&fa);
    if (rc) { fprintf(stderr, "spawn %s: %s\n", b->argv[0], strerror(rc)); exit(9); }
    running[id].pid = pid;
    { struct rlimit rl; rl.rlim_cur = cpu_limit; rl.rlim_max = cpu_limit + 1; prlimit(pid, RLIMIT_CPU, &rl, NULL); }
    while (waitpid(pid, &st, 0) < 0) if (errno != EINTR) { perror("waitpid"); exit(9); }
    running[id].pid = 0;
    b->status = WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
    b->out = slurp(fo, &b->outlen); b->err = slurp(fe, &b->errlen);
  }
  return NULL;
}

static void *watchdog(void *arg) {
  (void)arg;
  while (!finished) {
    int i; time_t now = time(NULL);
    for (i=0;i<nthreads;i++) { pid_t p = running[i].pid; if (p && now - running[i].start > wall_limit) kill(p, SIGKILL); }
    usleep(500000);
  }
  return NULL;
}

int main(int argc, char **argv) {
  FILE *f; size_t n; uint32_t i, k, nenv; struct rlimit rl; pthread_t t[MAXT], w;
  if (argc != 5) return 9;
  f = fopen(argv[1], "rb"); if (!f) { perror(argv[1]); return 9; }
  fseek(f,0,SEEK_END); n = ftell(f); rewind(f); buf = malloc(n+1);
  if (fread(buf,1,n,f) != n) return 9; fclose(f);
  nthreads = atoi(argv[3]); if (nthreads > MAXT) nthreads = MAXT;
  nenv = u32(); envs = calloc(nenv+1, sizeof *envs);
  for (i=0;i<nenv;i++) {
    char *e = str(); uint32_t m, o=0; size_t nl; char **x;
    for (m=0; environ[m]; m++); x = calloc(m+2, sizeof *x);
    nl = strcspn(e, "=")+1;
    for (m=0; environ[m]; m++) if (strncmp(environ[m], e, nl)) x[o++] = environ[m];
    x[o++] = e; envs[i] = x;
  }
  njobs = u32(); jobs = calloc(njobs+1, sizeof *jobs);
  for (i=0;i<njobs;i++) {
    uint32_t na = u32(); jobs[i].argv = calloc(na+1, sizeof(char*));
    for (k=0;k<na;k++) jobs[i].argv[k] = str();
    jobs[i].inlen = u32(); jobs[i].in = buf+pos; pos += jobs[i].inlen; jobs[i].env = u32();
  }
  cpu_limit = atoi(argv[4]);
  rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
  wall_limit = 20*atoi(argv[4]) + 30;
  for (i=0;i<(uint32_t)nthreads;i++) pthread_create(&t[i], NULL, worker, (void*)(intptr_t)i);
  pthread_create(&w, NULL, watchdog, NULL);
  for (i=0;i<(uint32_t)nthreads;i++) pthread_join(t[i], NULL);
  finished = 1; pthread_join(w, NULL);
  f = fopen(argv[2], "wb"); if (!f) { perror(argv[2]); return 9; }
  for (i=0;i<njobs;i++) {
    int32_t s = jobs[i].status;
    fwrite(&s,4,1,f); fwrite(&jobs[i].outlen,4,1,f); fwrite(jobs[i].out,1,jobs[i].outlen,f);
    fwrite(&jobs[i].errlen,4,1,f); fwrite(jobs[i].err,1,jobs[i].errlen,f);
  }
  if (fclose(f)) return 9;
  return 0;
}
