// Runs harness functions natively: the same functions the symbolic executor explored, in the same
// build, with the input bytes it reports.
//   replay LIB traces FILE            every line must give the recorded observations and labels
//   replay LIB one ENTRY CFG HEXVARS  one input: what happens?
#define _GNU_SOURCE
#include <dlfcn.h>
#include <setjmp.h>
#include <signal.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

static uint8_t vars[512];
static size_t nvars, used;
static uint64_t cfg[32];
static size_t ncfg;
static uint64_t hash, covers[4];
static jmp_buf out;
static uint64_t failed;
static bool notes;

void verif_sym(uint8_t *p, size_t n) {
  for (size_t i = 0; i < n; i++) p[i] = used < nvars ? vars[used] : 0, used++;
}
void verif_assume(bool c) {
  if (!c) longjmp(out, 2);
}
void verif_fail(uint64_t id) {
  failed = id;
  longjmp(out, 1);
}
void verif_cover(uint64_t id) { covers[id / 64 & 3] |= 1ull << (id % 64); }
void verif_observe(uint64_t v) {
  hash = (hash ^ v) * 0x100000001b3ull;
  hash ^= hash >> 29;
}
void verif_choose(uint8_t *dst, const uint8_t *src, size_t size, size_t count, size_t sel) {
  if (sel >= count) abort();
  memcpy(dst, src + size * sel, size);
}
uint64_t verif_config(uint64_t i) { return i == 100 ? notes : i < ncfg ? cfg[i] : 0; }
uint64_t verif_concrete(uint64_t v) { return v; }
void verif_note(const uint8_t *p, size_t n) {
  if (!notes) return;
  printf("NOTE ");
  for (size_t i = 0; i < n; i++) printf("%02x", p[i]);
  printf("\n");
  fflush(stdout);
}

static void parse_cfg(char *s) {
  ncfg = 0;
  while (*s && ncfg < 32) {
    cfg[ncfg++] = strtoull(s, &s, 10);
    if (*s == ',') s++;
  }
}
static void parse_vars(const char *s) {
  nvars = 0;
  unsigned b;
  while (nvars < sizeof vars && sscanf(s + 2 * nvars, "%2x", &b) == 1) vars[nvars++] = b;
}
static int run(void (*f)(void)) {
  used = 0;
  hash = 0xcbf29ce484222325ull;
  memset(covers, 0, sizeof covers);
  int r = setjmp(out);
  if (r == 0) f();
  return r;
}

int main(int argc, char **argv) {
  if (argc < 4) return 2;
  void *lib = dlopen(argv[1], RTLD_NOW);
  if (!lib) {
    fprintf(stderr, "%s\n", dlerror());
    return 2;
  }
  if (!strcmp(argv[2], "traces")) {
    FILE *f = fopen(argv[3], "r");
    if (!f) return 2;
    static char line[8192], entry[256], cf[512], hv[2048], h[64], c[64], last[256];
    void (*fn)(void) = NULL;
    unsigned long n = 0, bad = 0;
    while (fgets(line, sizeof line, f)) {
      hv[0] = 0;
      // the variables may be an empty field
      char *p = line, *q;
      char *dst[5] = {entry, cf, hv, h, c};
      for (int i = 0; i < 5; i++) {
        q = strpbrk(p, " \n");
        *q = 0;
        strcpy(dst[i], p);
        p = q + 1;
      }
      if (!fn || strcmp(last, entry)) {
        fn = (void (*)(void))dlsym(lib, entry);
        if (!fn) return 2;
        strcpy(last, entry);
      }
      parse_cfg(cf);
      parse_vars(hv);
      int r = run(fn);
      char want[128], got[128];
      snprintf(want, sizeof want, "%s %s", h, c);
      snprintf(got, sizeof got, "%016lx %016lx%016lx", (unsigned long)hash, (unsigned long)covers[1], (unsigned long)covers[0]);
      n++;
      if (r != 0 || strcmp(want, got)) {
        if (bad++ < 5) printf("MISMATCH %s %s %s: result %d, %s instead of %s\n", entry, cf, hv, r, got, want);
      }
    }
    printf("TRACES %lu MISMATCHES %lu\n", n, bad);
    return bad ? 1 : 0;
  }
  if (argc < 6) return 2;
  void (*fn)(void) = (void (*)(void))dlsym(lib, argv[3]);
  if (!fn) return 2;
  parse_cfg(argv[4]);
  parse_vars(argv[5]);
  fflush(stdout);
  pid_t p = fork();
  if (p == 0) {
    struct rlimit l = {0, 0};
    setrlimit(RLIMIT_CORE, &l);
    struct rlimit m = {4ull << 30, 4ull << 30};
    setrlimit(RLIMIT_AS, &m);
    alarm(20);
    notes = true;
    int r = run(fn);
    if (r == 0)
      printf("RESULT done\n");
    else if (r == 1)
      printf("RESULT fail %lu\n", (unsigned long)failed);
    else
      printf("RESULT assume\n");
    fflush(stdout);
    _exit(0);
  }
  int st;
  waitpid(p, &st, 0);
  if (WIFSIGNALED(st)) {
    int s = WTERMSIG(st);
    if (s == SIGALRM)
      printf("RESULT hang\n");
    else if (s == SIGABRT || s == SIGILL || s == SIGTRAP)
      printf("RESULT panic\n");
    else
      printf("RESULT signal %d\n", s);
  } else if (WEXITSTATUS(st) != 0)
    printf("RESULT exit %d\n", WEXITSTATUS(st));
  return 0;
}
