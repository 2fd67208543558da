/* Native replay runtime: symbolic inputs come from a model file; several models run in forked children. */
#include "qs.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <signal.h>
#include <malloc.h>
#include <sys/resource.h>
typedef struct { char name[128]; size_t n; unsigned char* b; } rec_t;
static rec_t recs[4096]; static int nrecs;
static struct { char name[128]; int c; } cnt[512]; static int ncnt;
static void say(const char* a, const char* b) { char buf[600]; int k = snprintf(buf, sizeof buf, "%s %s\n", a, b); if (write(2, buf, k)) {} }
static int hexd(int c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }
static int load(const char* f) {
  FILE* fp = fopen(f, "r"); if (!fp) return -1; char* line = NULL; size_t cap = 0; ssize_t L;
  while ((L = getline(&line, &cap, fp)) > 0) {
    if (*line == '#') continue; char* sp = strchr(line, ' '); if (!sp) continue; *sp = 0; char* col = strrchr(line, ':'); if (!col) continue; *col = 0;
    rec_t* r = &recs[nrecs++]; snprintf(r->name, sizeof r->name, "%s", line); r->n = strtoul(col + 1, 0, 10); r->b = calloc(1, r->n + 1);
    char* h = sp + 1; if (*h == '@') { h++; while (*h && *h != '\n') { unsigned long o = strtoul(h, &h, 16); h++; unsigned long v = strtoul(h, &h, 16); if (*h == ',') h++; if (o < r->n) r->b[o] = v; } }
    else for (size_t i = 0; i < r->n && h[0] > ' ' && h[1] > ' '; i++, h += 2) r->b[i] = hexd(h[0]) * 16 + hexd(h[1]);
  }
  fclose(fp); free(line); return 0; }
static unsigned char* find(const char* name, size_t n) {
  int c = 0, i; for (i = 0; i < ncnt; i++) if (!strcmp(cnt[i].name, name)) break;
  if (i == ncnt) { snprintf(cnt[ncnt++].name, 128, "%s", name); } c = cnt[i].c++;
  char nm[160]; if (c) snprintf(nm, sizeof nm, "%s#%d", name, c); else snprintf(nm, sizeof nm, "%s", name);
  for (i = 0; i < nrecs; i++) if (!strcmp(recs[i].name, nm) && recs[i].n == n) return recs[i].b;
  return NULL; }
void qs_make_symbolic(void* p, size_t n, const char* name) { if (!n) return; unsigned char* b = find(name, n); if (b) memcpy(p, b, n); else memset(p, 0, n); }
void qs_assume(int c) { if (!c) { say("QS_ASSUME_FAILED", ""); _exit(70); } }
void qs_check(int c, const char* m) { if (!c) { say("QS_CHECK_FAILED", m); _exit(71); } }
void qs_fail(const char* m) { say("QS_CHECK_FAILED", m); _exit(71); }
void qs_reach(const char* l) { (void)l; }
int qs_select(int n, const char* name) { unsigned char* b = find(name, 4); (void)n; int v = 0; if (b) memcpy(&v, b, 4); return v; }
void qs_fuel(int n) { (void)n; }
void qs_stop(void) { say("QS_STOP", ""); _exit(0); }
void qs_cut(void) { say("QS_CUT", ""); _exit(0); }
long qs_param(const char* name, long def) { char e[160]; snprintf(e, sizeof e, "QSP_%s", name); char* v = getenv(e); return v ? atol(v) : def; }
long qs_concretize(long v) { return v; }
void qs_trace(const char* k, long v) { printf("%s=%ld\n", k, v); }
void qs_print(const char* k, long v) { (void)k; (void)v; }
size_t qs_obj_size(const void* p) { return malloc_usable_size((void*)p); }
#include <sys/mman.h>
static struct { unsigned char* base; size_t len; unsigned char* p; } gb[512]; static int ngb;
#define GR (1ul << 33)
void* qs_alloc(size_t n) {
  const char* g = getenv("QS_GUARD"); if (!g || *g != '1') return malloc(n);
  size_t body = (n + 4095) / 4096 * 4096; if (!body) body = 4096; size_t len = 2 * GR + body; if (ngb >= 512) return malloc(n);
  unsigned char* b = mmap(0, len, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (b == MAP_FAILED) return NULL;
  if (mprotect(b + GR, body, PROT_READ | PROT_WRITE)) return NULL;
  memset(b + GR, 0xA7, body); unsigned char* p = b + GR + body - (n + 3) / 4 * 4; gb[ngb].base = b; gb[ngb].len = len; gb[ngb++].p = p; return p; }
void qs_readonly(void* p, int on) { for (int i = ngb - 1; i >= 0; i--) if (gb[i].p == p) mprotect(gb[i].base + GR, gb[i].len - 2 * GR, on ? PROT_READ : PROT_READ | PROT_WRITE); }
void qs_free(void* p) {
  if (!p) return; for (int i = ngb - 1; i >= 0; i--) if (gb[i].p == p) { mprotect(gb[i].base, gb[i].len, PROT_NONE); gb[i].p = 0; return; }
  const char* g = getenv("QS_GUARD"); if (g && *g == '1') { say("QS_CHECK_FAILED", "free of unknown or freed block"); _exit(71); } free(p); }
__attribute__((noinline)) void qs_paint(int v) { volatile unsigned char b[65536]; for (size_t i = 0; i < sizeof b; i++) b[i] = v; }
void qs_main(void);
#ifndef QS_CPU
#define QS_CPU 20
#endif
int main(int argc, char** argv) {
  struct rlimit rl = { QS_CPU, QS_CPU }; setrlimit(RLIMIT_CPU, &rl);
  struct rlimit rc = { 0, 0 }; setrlimit(RLIMIT_CORE, &rc);
  if (argc > 1 && load(argv[1])) return 72;
  qs_main(); say("QS_RETURN", ""); fflush(stdout); _exit(0); }
