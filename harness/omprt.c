// A controllable OpenMP run time: the threads of a parallel region are coroutines, switched at barriers, locks and (optionally) at any memory
// access, in an order chosen by RT_SCHED/RT_SEED.  The library is compiled with -fopenmp -fsanitize=thread and linked against this file in place
// of libgomp and libtsan, so that every access of a region to memory is seen.  Between two barriers the accesses of each thread to every word are
// collected: reads, exposed reads (before an own write), writes, the locks held, and the value written.  One record per region goes to RT_LOG.
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdbool.h>
#include <ucontext.h>
#include <sys/mman.h>
#include <malloc.h>
#include <dlfcn.h>
#include <time.h>
void __real_free(void *p); void *__real_realloc(void *p, size_t n); void *__real_memcpy(void *a, const void *b, size_t n); void *__real_memset(void *a, int c, size_t n); void *__real_memmove(void *a, const void *b, size_t n);
#pragma GCC visibility push(hidden)
#define MAXT 8
#define STACK (64UL << 20)
typedef struct { uint8_t r, x, w, s, vary; uint32_t lr, lw; uint64_t val; } Acc;
typedef struct { uint64_t key; uint32_t stamp; uint64_t init; Acc t[MAXT]; } Word;
enum { READY, BARRIER, LOCKED, DONE };
typedef struct { ucontext_t ctx; char *stack; int state; uint64_t want; uint32_t held; uintptr_t pa; int pn; int ws; } Co;
typedef struct { uintptr_t site; int epoch, T; long n, ro, own; int ncls; char *cls[24]; } Region;
static Co co[MAXT]; static ucontext_t sched_ctx; static int cur = -1, team = 1, depth = 0, nested_num = 0;
static void (*body)(void *); static void *body_data; static uintptr_t body_site, site_override; static int epoch_no;
static Word *tab; static size_t cap, used; static uint32_t stamp;
static Region *reg; static int nreg, creg;
static int cfgT = 4, policy = 0, every = 40; static uint64_t rng = 88172645463325252ULL; static FILE *rlog; static int ready = 0;
static uint64_t lock_owner[32]; static uintptr_t lock_key[32]; static int nlocks = 3; static long yields;
static void **dead; static int ndead, cdead;
static uint64_t rnd(void) { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng; }
static void finish(void) {
  if (!rlog) return;
  for (int i = 0; i < nreg; i++) {
    Region *g = &reg[i]; Dl_info d; int ok = dladdr((void *)g->site, &d);
    fprintf(rlog, "{\"e\":\"Region\",\"site\":\"%s+%lx\",\"off\":\"%lx\",\"epoch\":%d,\"T\":%d,\"n\":%ld,\"ro\":%ld,\"own\":%ld,\"cls\":[", ok && d.dli_sname ? d.dli_sname : "?", ok ? (long)(g->site - (uintptr_t)(d.dli_saddr ? d.dli_saddr : d.dli_fbase)) : 0L,
            ok ? (long)(g->site - (uintptr_t)d.dli_fbase) : 0L, g->epoch, g->T, g->n, g->ro, g->own);
    for (int c = 0; c < g->ncls; c++) fprintf(rlog, "%s%s", c ? "," : "", g->cls[c]);
    fprintf(rlog, "]}\n");
  }
  fclose(rlog); rlog = NULL;
}
static void setup(void) {
  if (ready) return; ready = 1; char *s;
  if ((s = getenv("RT_THREADS"))) cfgT = atoi(s); if (cfgT > MAXT) cfgT = MAXT; if (cfgT < 1) cfgT = 1;
  if ((s = getenv("RT_SCHED"))) policy = atoi(s);
  if ((s = getenv("RT_EVERY"))) every = atoi(s); if (every < 1) every = 1;
  if ((s = getenv("RT_SEED"))) rng ^= (uint64_t)atol(s) * 0x9E3779B97F4A7C15ULL; if (!rng) rng = 1;
  if ((s = getenv("RT_LOG")) && *s) { rlog = fopen(s, "w"); atexit(finish); }
  cap = 1UL << 16; tab = calloc(cap, sizeof(Word)); stamp = 1;
  for (int i = 0; i < MAXT; i++) co[i].stack = mmap(NULL, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
}
static Word *word(uint64_t key) {
  if (2 * used > cap) {
    Word *o = tab; size_t oc = cap; cap *= 4; tab = calloc(cap, sizeof(Word));
    for (size_t i = 0; i < oc; i++) if (o[i].stamp == stamp) { size_t h = (o[i].key * 0x9E3779B97F4A7C15ULL) >> 20 & (cap - 1); while (tab[h].stamp == stamp) h = (h + 1) & (cap - 1); tab[h] = o[i]; }
    __real_free(o);
  }
  size_t h = (key * 0x9E3779B97F4A7C15ULL) >> 20 & (cap - 1);
  while (tab[h].stamp == stamp && tab[h].key != key) h = (h + 1) & (cap - 1);
  Word *w = &tab[h];
  if (w->stamp != stamp) { memset(w, 0, sizeof *w); w->stamp = stamp; w->key = key; w->init = *(volatile uint32_t *)(key << 2); used++; }
  return w;
}
static uint64_t bits(uint8_t m) { uint64_t v = 0; for (int i = 0; i < 4; i++) if (m >> i & 1) v |= 0xFFULL << (8 * i); return v; }
static void touch(int t, uintptr_t a, int n, int write, uint32_t held, int settle) {   // settle: the value is now in place
  while (n > 0) {
    uint64_t key = a >> 2; int o = a & 3, k = 4 - o < n ? 4 - o : n; uint8_t m = (uint8_t)(((1u << k) - 1) << o);
    Word *w = word(key); Acc *c = &w->t[t];
    if (settle) {
      uint64_t now = *(volatile uint32_t *)(key << 2);
      if ((now ^ c->val) & bits(m & c->s)) c->vary = 1;
      c->val = (c->val & ~bits(m)) | (now & bits(m)); c->s |= m;
    } else if (write) { c->lw = c->w ? c->lw & held : held; c->w |= m; }
    else { c->lr = c->r ? c->lr & held : held; if ((c->w & m) != m) c->x |= m; c->r |= m; }
    a += k; n -= k;
  }
}
static void settle(int t) { Co *c = &co[t]; if (c->pn) { touch(t, c->pa, c->pn, 1, 0, 1); c->pn = 0; } }
static void yield(void) { yields++; int t = cur; swapcontext(&co[t].ctx, &sched_ctx); }
static void access_(uintptr_t a, int n, int write, uint32_t lock) {
  if (cur < 0 || depth != 1 || n <= 0) return;
  Co *c = &co[cur];
  if (a >= (uintptr_t)c->stack && a < (uintptr_t)c->stack + STACK) return;
  settle(cur);
  touch(cur, a, n, write, c->held | lock, 0);
  if (write) { c->pa = a; c->pn = n; }
  if (policy >= 3 && rnd() % every == 0) { int pn = c->pn; c->pn = 0; yield(); c->pn = pn; }
}
static char *ids(char *p, uint32_t l) { int f = 1; for (int i = 0; i < 31; i++) if (l >> i & 1) { p += sprintf(p, "%s%d", f ? "" : ",", i); f = 0; } return p; }
// ---- analysis between two barriers
static void epoch_end(void) {
  for (int t = 0; t < team; t++) settle(t);
  Region *g = NULL; for (int i = 0; i < nreg; i++) if (reg[i].site == body_site && reg[i].epoch == epoch_no && reg[i].T == team) g = &reg[i];
  if (!g) { if (nreg == creg) reg = realloc(reg, (creg = creg ? 2 * creg : 64) * sizeof(Region)); g = &reg[nreg++]; memset(g, 0, sizeof *g); g->site = body_site; g->epoch = epoch_no; g->T = team; }
  g->n++;
  if (team > 1) for (size_t i = 0; i < cap; i++) if (tab[i].stamp == stamp) {
    Word *w = &tab[i]; int conflict = 0, sh = 0;
    for (int a = 0; a < team; a++) { if (w->t[a].r | w->t[a].w) sh++; for (int b = 0; b < team; b++) if (a != b && (w->t[a].w & (w->t[b].w | w->t[b].r))) conflict = 1; }
    if (!conflict) { if (sh > 1) g->ro++; else g->own++; continue; }
    if (g->ncls >= 24) continue;
    uint64_t vals[MAXT]; int nv = 0; char buf[4000], *p = buf; *p++ = '['; int first = 1;
    for (int a = 0; a < team; a++) { Acc *c = &w->t[a]; if (!(c->r | c->w)) continue;
      int v = 0;
      if (c->w) { uint64_t m = bits(c->w), x = (c->val & m) | (w->init & ~m); if (c->vary) v = -1; else if (x == w->init) v = 0; else { int q = 0; while (q < nv && vals[q] != x) q++; if (q == nv) vals[nv++] = x; v = q + 1; } }
      p += sprintf(p, "%s{\"t\":%d,\"r\":%d,\"x\":%d,\"w\":%d,\"v\":%d,\"lr\":[", first ? "" : ",", a, c->r != 0, c->x != 0, c->w != 0, v); first = 0;
      p = ids(p, c->lr); p += sprintf(p, "],\"lw\":["); p = ids(p, c->lw); p += sprintf(p, "]}"); }
    strcpy(p, "]"); int known = 0; for (int k = 0; k < g->ncls; k++) if (!strcmp(g->cls[k], buf)) known = 1;
    if (!known) g->cls[g->ncls++] = strdup(buf);
  }
  stamp++; used = 0; epoch_no++;
  for (int i = 0; i < ndead; i++) __real_free(dead[i]); ndead = 0;
}
static void entry(void) { body(body_data); settle(cur); co[cur].state = DONE; swapcontext(&co[cur].ctx, &sched_ctx); }
static int pick(int last) {
  int can[MAXT], n = 0;
  for (int t = 0; t < team; t++) if (co[t].state == READY || (co[t].state == LOCKED && lock_owner[co[t].want] == 0)) can[n++] = t;
  if (!n) return -1;
  if (policy == 0) return can[0];
  if (policy == 1) return can[n - 1];
  if (policy == 2) { for (int k = 1; k <= team; k++) for (int i = 0; i < n; i++) if (can[i] == (last + k) % team) return can[i]; return can[0]; }
  return can[rnd() % n];
}
static struct { long next, end, incr, chunk; int users, kind, done; } ws[4096]; static int nws;
static void run_team(void (*fn)(void *), void *data, unsigned nthr) {
  setup(); int n = nthr ? (int)nthr : cfgT; if (n > MAXT) n = MAXT;
  if (depth > 0) { int od = depth; depth++; fn(data); depth = od; return; }
  int oteam = team; team = n; depth = 1; body = fn; body_data = data; body_site = site_override ? site_override : (uintptr_t)fn; epoch_no = 0; nws = 0; memset(ws, 0, sizeof ws);
  for (int t = 0; t < n; t++) { Co *c = &co[t]; c->state = READY; c->held = 0; c->pn = 0; c->ws = 0; getcontext(&c->ctx); c->ctx.uc_stack.ss_sp = c->stack; c->ctx.uc_stack.ss_size = STACK; c->ctx.uc_link = &sched_ctx; makecontext(&c->ctx, entry, 0); }
  int last = 0;
  for (;;) {
    int t = pick(last);
    if (t < 0) {
      int done = 0, bar = 0; for (int k = 0; k < n; k++) { done += co[k].state == DONE; bar += co[k].state == BARRIER; }
      cur = -1; epoch_end();
      if (done == n) break;
      if (bar + done < n) { fprintf(stderr, "omprt: deadlock\n"); exit(97); }
      for (int k = 0; k < n; k++) if (co[k].state == BARRIER) co[k].state = READY;
      continue;
    }
    last = t; cur = t; if (co[t].state == LOCKED) { lock_owner[co[t].want] = t + 1; co[t].state = READY; }
    swapcontext(&sched_ctx, &co[t].ctx);
  }
  cur = -1; depth = 0; team = oteam;
}
static void lock(uint64_t id) {
  if (cur < 0 || depth != 1) return; settle(cur); Co *c = &co[cur];
  if (policy == 2 || (policy >= 3 && rnd() % 2)) yield();
  if (lock_owner[id]) { c->state = LOCKED; c->want = id; yield(); } else lock_owner[id] = cur + 1;
  c->held |= 1u << id;
}
static void unlock(uint64_t id) { if (cur < 0 || depth != 1) return; settle(cur); co[cur].held &= ~(1u << id); lock_owner[id] = 0; if (policy >= 3 && rnd() % 2) yield(); }
static uint64_t named(void *p) { for (int i = 3; i < nlocks; i++) if (lock_key[i] == (uintptr_t)p) return i; if (nlocks < 30) lock_key[nlocks++] = (uintptr_t)p; return nlocks - 1; }
// ---- the OpenMP interface
void GOMP_barrier(void) { if (cur < 0 || depth != 1) return; settle(cur); co[cur].state = BARRIER; yield(); }
void GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned f) { run_team(fn, data, n); }
void GOMP_critical_start(void) { lock(0); } void GOMP_critical_end(void) { unlock(0); }
void GOMP_atomic_start(void) { lock(1); } void GOMP_atomic_end(void) { unlock(1); }
void GOMP_critical_name_start(void **p) { lock(named(p)); } void GOMP_critical_name_end(void **p) { unlock(named(p)); }
int omp_get_num_threads(void) { return depth == 1 && cur >= 0 ? team : 1; }
int omp_get_thread_num(void) { return depth == 1 && cur >= 0 ? cur : 0; }
int omp_get_max_threads(void) { setup(); return cfgT; }
int omp_get_num_procs(void) { return 8; }
int omp_in_parallel(void) { return depth > 0; }
void omp_set_num_threads(int n) { setup(); if (n >= 1 && n <= MAXT) cfgT = n; }
void omp_set_dynamic(int n) {} void omp_set_nested(int n) {}
double omp_get_wtime(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
typedef struct { uint64_t owner; } Lk;
void omp_init_lock(void **p) {} void omp_destroy_lock(void **p) {} void omp_set_lock(void **p) { lock(named(p)); } void omp_unset_lock(void **p) { unlock(named(p)); }
bool GOMP_single_start(void) { if (depth != 1) return true; int i = co[cur].ws++; if (ws[i].users++ == 0) return true; return false; }
static bool chunk_next(int i, long *s, long *e) {
  long left = ws[i].incr > 0 ? (ws[i].end - ws[i].next + ws[i].incr - 1) / ws[i].incr : (ws[i].next - ws[i].end - ws[i].incr - 1) / -ws[i].incr;
  if (left <= 0) return false;
  long c = ws[i].chunk; if (c < 1) c = (left + team - 1) / team; if (ws[i].kind == 2) { long g = left / team; if (g > c) c = g; } if (c > left) c = left;
  *s = ws[i].next; *e = ws[i].next += c * ws[i].incr; if (policy >= 2 && depth == 1) { settle(cur); yield(); } return true;
}
static bool loop_start(long a, long b, long inc, long chunk, int kind, long *s, long *e) {
  if (depth != 1 || cur < 0) { *s = a; *e = b; return inc > 0 ? a < b : a > b; }
  int i = co[cur].ws++; if (ws[i].users++ == 0) { ws[i].next = a; ws[i].end = b; ws[i].incr = inc; ws[i].chunk = chunk; ws[i].kind = kind; } return chunk_next(i, s, e);
}
#define LOOP(name, kind) bool GOMP_loop_##name##_start(long a, long b, long i, long c, long *s, long *e) { return loop_start(a, b, i, c, kind, s, e); } \
  bool GOMP_loop_##name##_next(long *s, long *e) { return depth == 1 && cur >= 0 && chunk_next(co[cur].ws - 1, s, e); } \
  void GOMP_parallel_loop_##name(void (*fn)(void *), void *d, unsigned n, long a, long b, long i, long c, unsigned f) { pre_a = a; pre_b = b; pre_i = i; pre_c = c; pre_k = kind; pre = 1; run_pre(fn, d, n); }
#define LOOPR(name) bool GOMP_loop_##name##_start(long a, long b, long i, long *s, long *e) { return loop_start(a, b, i, 1, 1, s, e); } \
  bool GOMP_loop_##name##_next(long *s, long *e) { return depth == 1 && cur >= 0 && chunk_next(co[cur].ws - 1, s, e); } \
  void GOMP_parallel_loop_##name(void (*fn)(void *), void *d, unsigned n, long a, long b, long i, unsigned f) { pre_a = a; pre_b = b; pre_i = i; pre_c = 1; pre_k = 1; pre = 1; run_pre(fn, d, n); }
static long pre_a, pre_b, pre_i, pre_c; static int pre_k, pre; static void (*pre_fn)(void *);
static void pre_body(void *d) { if (depth == 1 && cur >= 0) { int i = co[cur].ws++; if (ws[i].users++ == 0) { ws[i].next = pre_a; ws[i].end = pre_b; ws[i].incr = pre_i; ws[i].chunk = pre_c; ws[i].kind = pre_k; } } pre_fn(d); }
static void run_pre(void (*fn)(void *), void *d, unsigned n) { pre_fn = fn; site_override = (uintptr_t)fn; run_team(pre_body, d, n); site_override = 0; }
LOOP(static, 0) LOOP(dynamic, 1) LOOP(guided, 2) LOOP(nonmonotonic_dynamic, 1) LOOP(nonmonotonic_guided, 2) LOOPR(runtime) LOOPR(nonmonotonic_runtime) LOOPR(maybe_nonmonotonic_runtime)
void GOMP_loop_end(void) { GOMP_barrier(); } void GOMP_loop_end_nowait(void) {}
unsigned GOMP_sections_start(unsigned n) { long s, e; if (depth != 1) return 1; return loop_start(1, n + 1, 1, 1, 1, &s, &e) ? s : 0; }
unsigned GOMP_sections_next(void) { long s, e; return depth == 1 && chunk_next(co[cur].ws - 1, &s, &e) ? s : 0; }
void GOMP_parallel_sections(void (*fn)(void *), void *d, unsigned n, unsigned cnt, unsigned f) { pre_a = 1; pre_b = cnt + 1; pre_i = 1; pre_c = 1; pre_k = 1; run_pre(fn, d, n); }
void GOMP_sections_end(void) { GOMP_barrier(); } void GOMP_sections_end_nowait(void) {}
void GOMP_ordered_start(void) { lock(2); } void GOMP_ordered_end(void) { unlock(2); }
// ---- the instrumentation interface
void __tsan_init(void) {} void __tsan_func_entry(void *p) {} void __tsan_func_exit(void) {}
#define RW(n) void __tsan_read##n(void *p) { access_((uintptr_t)p, n, 0, 0); } void __tsan_write##n(void *p) { access_((uintptr_t)p, n, 1, 0); } \
  void __tsan_unaligned_read##n(void *p) { access_((uintptr_t)p, n, 0, 0); } void __tsan_unaligned_write##n(void *p) { access_((uintptr_t)p, n, 1, 0); } \
  void __tsan_volatile_read##n(void *p) { access_((uintptr_t)p, n, 0, 0); } void __tsan_volatile_write##n(void *p) { access_((uintptr_t)p, n, 1, 0); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, unsigned long n) { access_((uintptr_t)p, n, 0, 0); } void __tsan_write_range(void *p, unsigned long n) { access_((uintptr_t)p, n, 1, 0); }
void __tsan_vptr_update(void **p, void *q) {} void __tsan_vptr_read(void **p) {}
void __tsan_atomic_thread_fence(int m) {} void __tsan_atomic_signal_fence(int m) {}
#define ATOM (1u << 30)
#define AT(b, T) T __tsan_atomic##b##_load(const volatile T *p, int m) { access_((uintptr_t)p, b / 8, 0, ATOM); return *p; } \
  void __tsan_atomic##b##_store(volatile T *p, T v, int m) { access_((uintptr_t)p, b / 8, 1, ATOM); *p = v; } \
  T __tsan_atomic##b##_exchange(volatile T *p, T v, int m) { access_((uintptr_t)p, b / 8, 0, ATOM); access_((uintptr_t)p, b / 8, 1, ATOM); T o = *p; *p = v; return o; } \
  T __tsan_atomic##b##_fetch_add(volatile T *p, T v, int m) { access_((uintptr_t)p, b / 8, 0, ATOM); access_((uintptr_t)p, b / 8, 1, ATOM); T o = *p; *p = o + v; return o; } \
  T __tsan_atomic##b##_fetch_sub(volatile T *p, T v, int m) { access_((uintptr_t)p, b / 8, 0, ATOM); access_((uintptr_t)p, b / 8, 1, ATOM); T o = *p; *p = o - v; return o; } \
  T __tsan_atomic##b##_fetch_and(volatile T *p, T v, int m) { access_((uintptr_t)p, b / 8, 0, ATOM); access_((uintptr_t)p, b / 8, 1, ATOM); T o = *p; *p = o & v; return o; } \
  T __tsan_atomic##b##_fetch_or(volatile T *p, T v, int m) { access_((uintptr_t)p, b / 8, 0, ATOM); access_((uintptr_t)p, b / 8, 1, ATOM); T o = *p; *p = o | v; return o; } \
  int __tsan_atomic##b##_compare_exchange_strong(volatile T *p, T *c, T v, int m, int f) { access_((uintptr_t)p, b / 8, 0, ATOM); access_((uintptr_t)p, b / 8, 1, ATOM); if (*p == *c) { *p = v; return 1; } *c = *p; return 0; } \
  int __tsan_atomic##b##_compare_exchange_weak(volatile T *p, T *c, T v, int m, int f) { return __tsan_atomic##b##_compare_exchange_strong(p, c, v, m, f); } \
  T __tsan_atomic##b##_compare_exchange_val(volatile T *p, T c, T v, int m, int f) { access_((uintptr_t)p, b / 8, 0, ATOM); access_((uintptr_t)p, b / 8, 1, ATOM); T o = *p; if (o == c) *p = v; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
// ---- memory given back inside a region is kept until its end, so that addresses are not shared by reuse
static void later(void *p) { if (ndead == cdead) dead = __real_realloc(dead, (cdead = cdead ? 2 * cdead : 256) * sizeof *dead); dead[ndead++] = p; }
void __wrap_free(void *p) { if (depth && p) later(p); else __real_free(p); }
void *__wrap_realloc(void *p, size_t n) { if (!depth || !p) return __real_realloc(p, n); void *q = malloc(n); size_t o = malloc_usable_size(p); __real_memcpy(q, p, o < n ? o : n); later(p); return q; }
void *__wrap_memcpy(void *a, const void *b, size_t n) { if (depth) { access_((uintptr_t)b, n, 0, 0); access_((uintptr_t)a, n, 1, 0); } return __real_memcpy(a, b, n); }
void *__wrap_memmove(void *a, const void *b, size_t n) { if (depth) { access_((uintptr_t)b, n, 0, 0); access_((uintptr_t)a, n, 1, 0); } return __real_memmove(a, b, n); }
void *__wrap_memset(void *a, int c, size_t n) { if (depth) access_((uintptr_t)a, n, 1, 0); return __real_memset(a, c, n); }
#pragma GCC visibility pop
