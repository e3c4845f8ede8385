/*
 * libsimseam: the simulator's native half.
 *
 *  1. Scheduler: real threads, exactly one of which runs at any time.  Every
 *     hand-over happens at a yield point (a draw, a lock operation, an
 *     operation boundary) and is decided by one PRNG or by a recorded list.
 *  2. Trampolines: stand in for the function pointers of a bitgen_t, so that
 *     every draw of every consumer is a yield point and is entered in a ledger.
 *  3. Simulated devices: CPUID, RDRAND, /dev/urandom and its descriptors, the
 *     clocks and the process id, and the allocator.
 *
 * Everything passes through to the real world while its part is inactive.
 */
#define _GNU_SOURCE
#include <Python.h>
#define NPY_NO_DEPRECATED_API NPY_2_0_API_VERSION
#define NPY_TARGET_VERSION NPY_2_0_API_VERSION
#include <numpy/arrayobject.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <semaphore.h>
#include <stdarg.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/random.h>
#include <sys/time.h>
#include <sys/types.h>
#include <time.h>
#include <unistd.h>
#include <cpuid.h>

#define EXPORT __attribute__((visibility("default")))

/* ------------------------------------------------------------------ PRNG */
static uint64_t rs;
static uint64_t rnd64(void) { /* splitmix64 */
  uint64_t z = (rs += 0x9e3779b97f4a7c15ULL);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}

/* ------------------------------------------------------------- scheduler */
enum { S_NONE, S_RUN, S_READY, S_BEFORE, S_AFTER, S_GIL, S_BLOCKED, S_DONE };
#define MAXT 16
typedef struct { int st; sem_t sem; int lock; int resume_err; int prio; } Thr;
static Thr T[MAXT];
static int nthr, sim_on, gil_parked = -1, nrestricted, deadlock;
static sem_t main_sem;
static __thread int my_tid = -1;
static uint64_t steps, max_steps, nswitch, sched_hash;
static int overrun;
static int policy; /* 0 random walk, 1 priorities with change points, 2 round robin */
static uint32_t p_switch; /* /65536 */
/* recorded choices */
static unsigned char *ch_in; static size_t ch_in_n, ch_i; static int ch_replay;
static unsigned char *ch_out; static size_t ch_out_n, ch_out_cap;
/* pct change points */
static uint64_t chg[64]; static int nchg, lowprio;

static int candidates(int self, int *out) {
  int n = 0, i;
  if (self >= 0 && T[self].st == S_RUN && !(gil_parked >= 0 && gil_parked != self)) out[n++] = self;
  for (int k = 1; k <= nthr; k++) {
    i = ((self < 0 ? 0 : self) + k) % nthr;
    if (i == self && n && out[0] == self) continue;
    int st = T[i].st;
    if (gil_parked >= 0) {
      if (st == S_GIL || st == S_BEFORE) out[n++] = i;
    } else if (st == S_READY || st == S_BEFORE || st == S_AFTER || st == S_GIL) out[n++] = i;
  }
  return n;
}
static int choose(int self, int *c, int n) {
  int k = 0;
  int stay = (self >= 0 && c[0] == self);
  if (n > 1) {
    if (ch_replay) {
      if (ch_i < ch_in_n) k = ch_in[ch_i++] % n;
    } else if (policy == 1) {
      for (int j = 0; j < nchg; j++) if (chg[j] == steps && self >= 0) T[self].prio = --lowprio;
      for (int j = 1; j < n; j++) if (T[c[j]].prio > T[c[k]].prio) k = j;
    } else if (policy == 2) {
      k = stay ? 1 : 0;
    } else {
      if (!stay) k = rnd64() % n;
      else if ((rnd64() & 0xffff) < p_switch) k = 1 + rnd64() % (n - 1);
    }
    if (ch_out_n == ch_out_cap) {
      ch_out_cap = ch_out_cap ? ch_out_cap * 2 : 4096;
      ch_out = realloc(ch_out, ch_out_cap);
    }
    ch_out[ch_out_n++] = (unsigned char)k;
  }
  return c[k];
}
static void resume(int t) {
  if (gil_parked >= 0 && t == gil_parked) gil_parked = -1;
  T[t].st = S_RUN;
  sem_post(&T[t].sem);
}
static void all_blocked(void) {
  /* nobody can run: deadlock.  Wake every blocked thread with an error. */
  deadlock = 1;
  for (int i = 0; i < nthr; i++) if (T[i].st == S_BLOCKED) { T[i].resume_err = -1; T[i].st = S_READY; }
}
static void handover(int self) { /* self has already recorded its parked state */
  int c[MAXT], n = candidates(self, c);
  if (!n) {
    int alive = 0;
    for (int i = 0; i < nthr; i++) alive |= (T[i].st != S_DONE);
    if (!alive) { sem_post(&main_sem); return; }
    all_blocked();
    n = candidates(self, c);
    if (!n) { sem_post(&main_sem); return; }
  }
  int t = choose(self, c, n);
  if (t != self) nswitch++;
  sched_hash = (sched_hash ^ (uint64_t)(t + 1)) * 0x100000001b3ULL;
  resume(t);
}
static void park(int self) { while (sem_wait(&T[self].sem) != 0) {} }

/* parkstate: S_READY for points where the GIL is not held */
static void yield_as(int self, int parkstate) {
  int c[MAXT], n;
  steps++;
  if (steps > max_steps) { overrun = 1; return; } /* run on without switching; reported */
  if (parkstate == S_AFTER && gil_parked >= 0) {
    T[self].st = S_AFTER;
    handover(self); park(self); return;
  }
  if (parkstate == S_GIL) gil_parked = self; /* only threads that need no GIL can take over */
  n = candidates(self, c);
  if (n <= 1) { if (parkstate == S_GIL) gil_parked = -1; return; }
  int t = choose(self, c, n);
  sched_hash = (sched_hash ^ (uint64_t)(t + 1)) * 0x100000001b3ULL;
  if (t == self) { if (parkstate == S_GIL) gil_parked = -1; return; }
  nswitch++;
  T[self].st = parkstate;
  if (parkstate == S_GIL) nrestricted++;
  T[t].st = S_RUN;
  sem_post(&T[t].sem);
  park(self);
}
static int native_yield(int before, int may_gil) {
  if (!sim_on || my_tid < 0) return 0;
  int self = my_tid;
  if (PyGILState_Check()) {
    /* Only code that runs without the GIL can overlap us here. */
    int any = 0;
    for (int i = 0; i < nthr; i++) any |= (T[i].st == S_BEFORE);
    if (any) yield_as(self, S_GIL); else steps++;
  } else yield_as(self, may_gil ? S_READY : (before ? S_BEFORE : S_AFTER));
  return 1;
}

EXPORT void sim_sched_begin(int n, uint64_t seed, int pol, uint32_t psw, uint64_t maxs,
                            const unsigned char *choices, int64_t nch) {
  rs = seed; nthr = n; policy = pol; p_switch = psw; max_steps = maxs;
  steps = nswitch = 0; sched_hash = 0xcbf29ce484222325ULL; deadlock = overrun = 0; gil_parked = -1; nrestricted = 0;
  free(ch_in); ch_in = NULL; ch_in_n = ch_i = 0; ch_replay = nch >= 0; ch_out_n = 0;
  if (nch > 0) { ch_in = malloc(nch); memcpy(ch_in, choices, nch); ch_in_n = nch; }
  sem_init(&main_sem, 0, 0);
  for (int i = 0; i < n; i++) { T[i].st = S_READY; T[i].lock = -1; T[i].resume_err = 0; sem_init(&T[i].sem, 0, 0); T[i].prio = 0; }
  lowprio = 0; nchg = 0;
  if (pol == 1 && !ch_replay) {
    for (int i = 0; i < n; i++) T[i].prio = 1 + (int)(rnd64() % 1000);
    nchg = 1 + rnd64() % 8;
    for (int i = 0; i < nchg; i++) chg[i] = rnd64() % 300;
  }
}
EXPORT void sim_thread_enter(int tid) { my_tid = tid; park(tid); }
EXPORT void sim_thread_exit(void) { int s = my_tid; T[s].st = S_DONE; my_tid = -1; handover(s); }
EXPORT void sim_sched_run(void) { /* called by main, all threads will reach enter() */
  sim_on = 1; handover(-1);
  while (sem_wait(&main_sem) != 0) {}
  sim_on = 0;
}
EXPORT void sim_yield(void) { if (sim_on && my_tid >= 0) yield_as(my_tid, S_READY); }
EXPORT int sim_block(int lockid) { /* -1: deadlock */
  int s = my_tid; T[s].st = S_BLOCKED; T[s].lock = lockid; T[s].resume_err = 0; steps++;
  handover(s); park(s); T[s].lock = -1;
  return T[s].resume_err;
}
EXPORT void sim_wake(int lockid) { for (int i = 0; i < nthr; i++) if (T[i].st == S_BLOCKED && T[i].lock == lockid) T[i].st = S_READY; }
EXPORT int sim_tid(void) { return sim_on ? my_tid : -1; }
EXPORT int sim_self(void) { return my_tid; }
EXPORT void sim_stats(uint64_t *o) { o[0] = steps; o[1] = nswitch; o[2] = sched_hash; o[3] = deadlock; o[4] = overrun; o[5] = ch_out_n; o[6] = nrestricted; }
EXPORT const unsigned char *sim_choices(void) { return ch_out; }

/* ----------------------------------------------------- draw trampolines */
typedef struct { void *state; uint64_t (*n64)(void *); uint32_t (*n32)(void *); double (*nd)(void *); uint64_t (*nraw)(void *); } bitgen;
typedef struct { bitgen real; int bgid; int may_gil; int yields; } Ctx;
typedef struct { uint64_t val; int32_t tid; int16_t bgid; int16_t kind; int32_t op; int32_t pad; } Rec;
static Rec *led; static size_t led_n, led_cap, led_max = 2000000; static uint64_t led_over;
static int cur_op[MAXT];
static Ctx *ctxs[64]; static int nctx;

/* once the ledger is full the words are replaced by pseudo-random ones, so that whoever waits for another word gets it */
static uint64_t spare(void) { uint64_t z = ++led_over * 0x9e3779b97f4a7c15ULL; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
static double u2d(uint64_t u) { return (u >> 11) * (1.0 / 9007199254740992.0); }
static void rec(Ctx *c, int kind, uint64_t v) {
  if (led_n >= led_cap) { led_cap = led_cap ? led_cap * 2 : 8192; led = realloc(led, led_cap * sizeof(Rec)); }
  led[led_n].val = v; led[led_n].tid = my_tid; led[led_n].bgid = c->bgid; led[led_n].kind = kind;
  led[led_n].op = my_tid >= 0 ? cur_op[my_tid] : -1; led_n++;
}
#define TR(name, ty, fld, kind, conv, back) \
  static ty name(void *st) { Ctx *c = st; if (c->yields) native_yield(1, c->may_gil); ty v = c->real.fld(c->real.state); \
    if (led_n < led_max) rec(c, kind, conv); else v = (ty)back(spare()); if (c->yields) native_yield(0, c->may_gil); return v; }
static uint64_t d2u(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }
TR(tr64, uint64_t, n64, 0, v, )
TR(tr32, uint32_t, n32, 1, v, )
TR(trd, double, nd, 2, d2u(v), u2d)
TR(trraw, uint64_t, nraw, 3, v, )
EXPORT int sim_tramp_install(bitgen *bg, int bgid, int may_gil, int yields) {
  Ctx *c = calloc(1, sizeof *c); c->real = *bg; c->bgid = bgid; c->may_gil = may_gil; c->yields = yields;
  bg->state = c; bg->n64 = tr64; bg->n32 = tr32; bg->nd = trd; bg->nraw = trraw;
  if (nctx < 64) ctxs[nctx++] = c;
  return nctx - 1;
}
EXPORT void sim_tramp_remove(bitgen *bg) { if (bg->n64 == tr64) { Ctx *c = bg->state; *bg = c->real; } }
EXPORT void sim_tramp_free(void) { for (int i = 0; i < nctx; i++) free(ctxs[i]); nctx = 0; }
EXPORT void sim_ledger_reset(void) { led_n = 0; led_over = 0; led_max = 2000000; }
EXPORT void sim_ledger_limit(uint64_t n) { led_max = n; }
EXPORT uint64_t sim_ledger_over(void) { return led_over; }
EXPORT const Rec *sim_ledger(uint64_t *n) { *n = led_n; return led; }
EXPORT uint64_t sim_ledger_len(void) { return led_n; }
EXPORT void sim_set_op(int op) { if (my_tid >= 0) cur_op[my_tid] = op; }
/* direct calls of the function pointers (what a C consumer does) */
EXPORT uint64_t sim_call64(bitgen *b) { return b->n64(b->state); }
EXPORT uint32_t sim_call32(bitgen *b) { return b->n32(b->state); }
EXPORT double sim_calld(bitgen *b) { return b->nd(b->state); }
EXPORT uint64_t sim_callraw(bitgen *b) { return b->nraw(b->state); }
EXPORT void sim_draw_kinds(bitgen *b, const unsigned char *kinds, int64_t n, uint64_t *out) {
  for (int64_t i = 0; i < n; i++) switch (kinds[i]) {
    case 0: out[i] = b->n64(b->state); break;
    case 1: out[i] = b->n32(b->state); break;
    case 2: out[i] = d2u(b->nd(b->state)); break;
    default: out[i] = b->nraw(b->state); break; }
}
/* an output function of a user's own for LCG128Mix */
EXPORT uint64_t sim_lcg_mix(uint64_t hi, uint64_t lo) { uint64_t z = (hi ^ (lo >> 30)) * 0xbf58476d1ce4e5b9ULL; return z ^ (z >> 27) ^ lo << 1; }
EXPORT void sim_skip_raw(bitgen *b, int64_t n) { while (n-- > 0) b->nraw(b->state); }

/* ------------------------------------------------------- scripted words */
/* A source of chosen words, pseudo-random once they are used up. */
typedef struct { uint64_t w[256]; int n, i; uint64_t x; } Odd;
static Odd odds[4];
static uint64_t od64(void *s) { Odd *o = s; if (o->i < o->n) return o->w[o->i++]; o->x += 0x9e3779b97f4a7c15ULL; uint64_t z = o->x;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
static uint32_t od32(void *s) { return (uint32_t)(od64(s) >> 32); }
static double odd_(void *s) { return (od64(s) >> 11) / 9007199254740992.0; }
EXPORT void sim_odd_install(bitgen *b, int k, uint64_t seed, const uint64_t *w, int n) {
  Odd *o = &odds[k & 3]; o->n = n > 256 ? 256 : n; o->i = 0; o->x = seed; memcpy(o->w, w, o->n * sizeof *w);
  b->state = o; b->n64 = od64; b->n32 = od32; b->nd = odd_; b->nraw = od64; }

/* ------------------------------------------------------------------ tape */
/* A reference bit generator that plays back a log of user functions (kind 0 raw, 1 next_64, 2 next_32,
 * 3 next_double) and derives what the user did not supply. */
typedef struct { const unsigned char *k; const uint64_t *v; int64_t n, i; int bits, has64, has32, hasd, err; uint64_t weyl; } Tape;
static uint64_t tpop(Tape *t, int kind) {
  if (t->i >= t->n || t->k[t->i] != kind) { t->err = 1; t->weyl = t->weyl * 6364136223846793005ULL + 1442695040888963407ULL; return kind == 3 ? d2u((t->weyl >> 11) / 9007199254740992.0) : kind == 2 || (kind == 0 && t->bits == 32) ? t->weyl >> 32 : t->weyl; }
  return t->v[t->i++];
}
static uint64_t tp64(void *s) { Tape *t = s; if (t->has64) return tpop(t, 1); if (t->bits == 64) return tpop(t, 0); uint64_t h = tpop(t, 0), l = tpop(t, 0); return h << 32 | l; }
static uint32_t tp32(void *s) { Tape *t = s; if (t->has32) return (uint32_t)tpop(t, 2); uint64_t v = tpop(t, 0); return (uint32_t)(t->bits == 32 ? v : v >> 32); }
static double tpd(void *s) { Tape *t = s; if (t->hasd) { uint64_t u = tpop(t, 3); double d; memcpy(&d, &u, 8); return d; }
  if (t->bits == 64) return (tpop(t, 0) >> 11) / 9007199254740992.0;
  uint64_t a = tpop(t, 0) >> 5, b = tpop(t, 0) >> 6; return (a * 67108864.0 + b) / 9007199254740992.0; }
static uint64_t tpraw(void *s) { return tpop(s, 0); }
static Tape tape;
EXPORT void sim_tape_install(bitgen *b) { b->state = &tape; b->n64 = tp64; b->n32 = tp32; b->nd = tpd; b->nraw = tpraw; }
EXPORT void sim_tape_config(int bits, int has64, int has32, int hasd) { tape.bits = bits; tape.has64 = has64; tape.has32 = has32; tape.hasd = hasd; }
EXPORT void sim_tape_load(const unsigned char *k, const uint64_t *v, int64_t n) { tape.k = k; tape.v = v; tape.n = n; tape.i = 0; tape.err = 0; tape.weyl = 1; }
EXPORT int sim_tape_err(void) { return tape.err; }
EXPORT int64_t sim_tape_used(void) { return tape.i; }

/* ----------------------------------------------------------------- CPUID */
/* mode 0: pass through; 1: real features minus the cleared bits; 2: no feature leaves at all */
static int cpu_mode; static unsigned clr_ecx, clr_edx; static uint64_t cpuid_calls;
static unsigned set_ecx;
EXPORT void sim_cpu(int mode, unsigned clear_ecx, unsigned clear_edx, unsigned force_ecx) { cpu_mode = mode; clr_ecx = clear_ecx; clr_edx = clear_edx; set_ecx = force_ecx; }
EXPORT uint64_t sim_cpuid_calls(void) { return cpuid_calls; }
EXPORT int sim_get_cpuid(unsigned l, unsigned *a, unsigned *b, unsigned *c, unsigned *d) {
  cpuid_calls++;
  if (cpu_mode == 2) return 0; /* a CPU without feature leaves */
  int r = __get_cpuid(l, a, b, c, d);
  if (cpu_mode && l == 1) { *c = (*c & ~clr_ecx) | set_ecx; *d &= ~clr_edx; }
  return r;
}
EXPORT int sim_get_cpuid_count(unsigned l, unsigned s, unsigned *a, unsigned *b, unsigned *c, unsigned *d) {
  int r = __get_cpuid_count(l, s, a, b, c, d);
  if (cpu_mode && l == 1) { *c = (*c & ~clr_ecx) | set_ecx; *d &= ~clr_edx; }
  return r;
}
EXPORT unsigned sim_get_cpuid_max(unsigned e, unsigned *s) { if (cpu_mode == 2) return 0; return __get_cpuid_max(e, s); }
EXPORT int sim_cpu_supports(const char *n) {
  unsigned a = 0, b = 0, c = 0, d = 0; sim_get_cpuid(1, &a, &b, &c, &d);
  if (!strcmp(n, "aes")) return (c >> 25) & 1;
  if (!strcmp(n, "ssse3")) return (c >> 9) & 1;
  if (!strcmp(n, "sse4.1")) return (c >> 19) & 1;
  if (!strcmp(n, "sse4.2")) return (c >> 20) & 1;
  if (!strcmp(n, "sse2")) return (d >> 26) & 1;
  if (!strcmp(n, "rdrnd")) return (c >> 30) & 1;
  if (!strcmp(n, "avx")) return (c >> 28) & 1;
  return 0;
}

/* ---------------------------------------------------------------- RDRAND */
/* script: word i of the hardware = f(i); fails as given by bursts.  Step k of
 * the hardware fails iff k lies in one of the bursts [from, from+len). */
static int rd_on; static uint64_t rd_step, rd_words, rd_seed; static uint64_t rd_from[64], rd_len[64]; static int rd_nb;
static uint64_t rd_fired; static int rd_yield; static uint64_t rd_limit; static int rd_limit_hit;
static uint64_t mix(uint64_t z) { z += 0x9e3779b97f4a7c15ULL; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
typedef struct { int32_t tid, op, ok, pad; uint64_t step, val; } RdRec;
static RdRec *rdl; static size_t rdl_n, rdl_cap;
EXPORT void sim_rdrand_begin(uint64_t seed, int nb, const uint64_t *from, const uint64_t *len, int yields, uint64_t limit) {
  rd_on = 1; rd_step = rd_words = rd_fired = 0; rd_seed = seed; rd_nb = nb; rd_yield = yields; rdl_n = 0; rd_limit = limit; rd_limit_hit = 0;
  for (int i = 0; i < nb && i < 64; i++) { rd_from[i] = from[i]; rd_len[i] = len[i]; }
}
EXPORT void sim_rdrand_end(void) { rd_on = 0; }
EXPORT const RdRec *sim_rdrand_log(uint64_t *n) { *n = rdl_n; return rdl; }
EXPORT void sim_rdrand_stats(uint64_t *o) { o[0] = rd_step; o[1] = rd_words; o[2] = rd_fired; o[3] = rd_limit_hit; }
EXPORT int sim_rdrand64_step(unsigned long long *p) {
  if (!rd_on) { /* deterministic healthy hardware outside a simulated session */
    static uint64_t k; *p = mix(0x5eed ^ (k++ * 0x2545F4914F6CDD1DULL)); return 1; }
  /* a refill of 256 words would drown the schedule in switches: yield at a few steps only */
  if (rd_yield && (rd_step % 64 == 0 || rd_step % 64 == 1)) native_yield(1, 1);
  uint64_t s = rd_step++; int ok = 1;
  for (int i = 0; i < rd_nb; i++) if (s >= rd_from[i] && s - rd_from[i] < rd_len[i]) ok = 0;
  if (rd_limit && s > rd_limit) { rd_limit_hit = 1; ok = 1; } /* runaway retry loop: let it out, report it */
  if (ok) { *p = mix(rd_seed ^ (rd_words++ * 0x2545F4914F6CDD1DULL)); }
  else { rd_fired++; *p = 0; } /* the hardware zeroes the destination when it has no word */
  if (rdl_n >= rdl_cap) { rdl_cap = rdl_cap ? rdl_cap * 2 : 8192; rdl = realloc(rdl, rdl_cap * sizeof(RdRec)); }
  rdl[rdl_n].tid = my_tid; rdl[rdl_n].op = my_tid >= 0 ? cur_op[my_tid] : -1; rdl[rdl_n].ok = ok; rdl[rdl_n].step = s; rdl[rdl_n].val = *p; rdl_n++;
  return ok;
}
EXPORT int sim_rdrand32_step(unsigned *p) { unsigned long long v; int r = sim_rdrand64_step(&v); *p = (unsigned)v; return r; }
EXPORT int sim_rdrand16_step(unsigned short *p) { unsigned long long v; int r = sim_rdrand64_step(&v); *p = (unsigned short)v; return r; }

/* ------------------------------------------- system entropy and clocks */
/* Calls made by randomgen's own code only (link-time --wrap). */
enum { EV_OPEN = 1, EV_READ, EV_CLOSE, EV_TIME, EV_CLOCK, EV_PID, EV_GETRANDOM, EV_BADFD, EV_MALLOC };
typedef struct { int32_t ev, err; int64_t a, b; } EntRec;
static int en_on; static EntRec *enl; static size_t enl_n, enl_cap;
static int64_t *en_script; static size_t en_script_n;
static int en_next_fd, en_open[256]; static uint64_t en_seed, en_pos; static uint64_t en_time_us, en_clock; static int en_pid; static uint64_t en_tick;
static uint64_t en_fired[16];
static void enlog(int ev, int err, int64_t a, int64_t b) {
  if (enl_n >= enl_cap) { enl_cap = enl_cap ? enl_cap * 2 : 1024; enl = realloc(enl, enl_cap * sizeof(EntRec)); }
  enl[enl_n].ev = ev; enl[enl_n].err = err; enl[enl_n].a = a; enl[enl_n].b = b; enl_n++;
}
/* script entries: for the k-th system call of kind ev: fault code and argument */
static int en_cnt[16];
static int en_fault(int ev, int64_t *arg) {
  int k = en_cnt[ev]++;
  for (size_t i = 0; i + 3 < en_script_n; i += 4)
    if (en_script[i] == ev && en_script[i + 1] == k) { *arg = en_script[i + 3]; en_fired[ev]++; return (int)en_script[i + 2]; }
  return 0;
}
EXPORT void sim_entropy_begin(uint64_t seed, const int64_t *script, int64_t n, uint64_t time_us, uint64_t clk, int pid, uint64_t tick) {
  en_on = 1; en_seed = seed; en_pos = 0; enl_n = 0; memset(en_cnt, 0, sizeof en_cnt); memset(en_fired, 0, sizeof en_fired);
  free(en_script); en_script = NULL; en_script_n = n;
  if (n) { en_script = malloc(n * 8); memcpy(en_script, script, n * 8); }
  en_next_fd = 0; memset(en_open, 0, sizeof en_open); en_time_us = time_us; en_clock = clk; en_pid = pid; en_tick = tick;
}
EXPORT void sim_entropy_end(void) { en_on = 0; }
EXPORT void sim_entropy_clock(uint64_t time_us, uint64_t clk, int pid) { en_time_us = time_us; en_clock = clk; en_pid = pid; }
EXPORT const EntRec *sim_entropy_log(uint64_t *n) { *n = enl_n; return enl; }
EXPORT int sim_entropy_openfds(void) { int n = 0; for (int i = 0; i < 256; i++) n += en_open[i] != 0; return n; }
EXPORT void sim_entropy_fired(uint64_t *o) { memcpy(o, en_fired, sizeof en_fired); }
EXPORT uint64_t sim_entropy_pos(void) { return en_pos; }
static void en_bytes(unsigned char *p, size_t n) { for (size_t i = 0; i < n; i++, en_pos++) p[i] = (unsigned char)(mix(en_seed ^ (en_pos >> 3)) >> (8 * (en_pos & 7))); }
#define FDBASE 100000
extern int __real_open(const char *, int, ...); extern ssize_t __real_read(int, void *, size_t); extern int __real_close(int);
static int v_open(const char *path, int fl) {
  int64_t a = 0; int f = en_fault(EV_OPEN, &a);
  if (f == 1) { enlog(EV_OPEN, (int)a, -1, 0); errno = (int)a; return -1; }
  if (strcmp(path, "/dev/urandom") && strcmp(path, "/dev/random")) { enlog(EV_OPEN, ENOENT, -1, 1); errno = ENOENT; return -1; }
  for (int i = 0; i < 256; i++) if (!en_open[i]) { en_open[i] = 1; enlog(EV_OPEN, 0, FDBASE + i, fl); return FDBASE + i; }
  enlog(EV_OPEN, EMFILE, -1, 0); errno = EMFILE; return -1;
}
static ssize_t v_read(int fd, void *b, size_t n) {
  int64_t a = 0; int f = en_fault(EV_READ, &a);
  if (fd < FDBASE || fd >= FDBASE + 256 || !en_open[fd - FDBASE]) { enlog(EV_BADFD, EBADF, fd, n); errno = EBADF; return -1; }
  if (f == 1) { enlog(EV_READ, (int)a, -1, n); errno = (int)a; return -1; }
  if (f == 2 && (size_t)a < n) { en_bytes(b, (size_t)a); enlog(EV_READ, 0, a, n); return a; } /* short (0 = EOF) */
  en_bytes(b, n); enlog(EV_READ, 0, n, n); return n;
}
static int v_close(int fd) {
  int64_t a = 0; int f = en_fault(EV_CLOSE, &a);
  if (fd < FDBASE || fd >= FDBASE + 256 || !en_open[fd - FDBASE]) { enlog(EV_BADFD, EBADF, fd, -1); errno = EBADF; return -1; }
  en_open[fd - FDBASE] = 0; /* Linux releases the descriptor even when close reports an error */
  if (f == 1) { enlog(EV_CLOSE, (int)a, fd, 0); errno = (int)a; return -1; }
  enlog(EV_CLOSE, 0, fd, 0); return 0;
}
EXPORT int __wrap_open(const char *p, int fl, ...) { if (en_on) return v_open(p, fl); return open(p, fl, 0600); }
EXPORT int __wrap_open64(const char *p, int fl, ...) { if (en_on) return v_open(p, fl); return open(p, fl, 0600); }
EXPORT int __wrap_openat(int d, const char *p, int fl, ...) { (void)d; if (en_on) return v_open(p, fl); return openat(d, p, fl, 0600); }
EXPORT ssize_t __wrap_read(int fd, void *b, size_t n) { if (en_on) return v_read(fd, b, n); return read(fd, b, n); }
EXPORT int __wrap_close(int fd) { if (en_on) return v_close(fd); return close(fd); }
EXPORT ssize_t __wrap_getrandom(void *b, size_t n, unsigned fl) {
  if (!en_on) return getrandom(b, n, fl);
  int64_t a = 0; int f = en_fault(EV_READ, &a);
  if (f == 1) { enlog(EV_READ, (int)a, -1, n); errno = (int)a; return -1; }
  if (f == 2 && a > 0 && (size_t)a < n) { en_bytes(b, (size_t)a); enlog(EV_READ, 0, a, n); return a; }
  en_bytes(b, n); enlog(EV_READ, 0, n, n); return n;
}
EXPORT int __wrap_getentropy(void *b, size_t n) {
  if (!en_on) return getentropy(b, n);
  int64_t a = 0; int f = en_fault(EV_READ, &a);
  if (f) { enlog(EV_READ, EIO, -1, n); errno = EIO; return -1; }
  en_bytes(b, n); enlog(EV_READ, 0, n, n); return 0;
}
static ssize_t ck_read(void *c, char *b, size_t n) { return v_read((int)(intptr_t)c, b, n); }
static int ck_close(void *c) { return v_close((int)(intptr_t)c); }
EXPORT FILE *__wrap_fopen(const char *p, const char *m) {
  if (!en_on) return fopen(p, m);
  int fd = v_open(p, 0); if (fd < 0) return NULL;
  cookie_io_functions_t io = { ck_read, NULL, NULL, ck_close };
  FILE *f = fopencookie((void *)(intptr_t)fd, "rb", io); if (f) setvbuf(f, NULL, _IONBF, 0); return f;
}
EXPORT int __wrap_gettimeofday(struct timeval *tv, void *tz) {
  if (!en_on) return gettimeofday(tv, tz);
  enlog(EV_TIME, 0, en_time_us, 0); tv->tv_sec = en_time_us / 1000000; tv->tv_usec = en_time_us % 1000000; en_time_us += en_tick; return 0;
}
EXPORT time_t __wrap_time(time_t *t) {
  time_t r; if (!en_on) return time(t);
  enlog(EV_TIME, 0, en_time_us, 1); r = en_time_us / 1000000; en_time_us += en_tick; if (t) *t = r; return r;
}
EXPORT int __wrap_clock_gettime(clockid_t c, struct timespec *ts) {
  if (!en_on) return clock_gettime(c, ts);
  enlog(EV_TIME, 0, en_time_us, 2); ts->tv_sec = en_time_us / 1000000; ts->tv_nsec = (en_time_us % 1000000) * 1000; en_time_us += en_tick; return 0;
}
EXPORT clock_t __wrap_clock(void) { if (!en_on) return clock(); enlog(EV_CLOCK, 0, en_clock, 0); clock_t r = en_clock; en_clock += en_tick; return r; }
EXPORT pid_t __wrap_getpid(void) { if (!en_on) return getpid(); enlog(EV_PID, 0, en_pid, 0); return en_pid; }

/* -------------------------------------------------------------- allocator */
/* Failure of the k-th allocation made by randomgen's modules (mask 1), or by
 * the interpreter's MEM (2) and OBJ (4) domains, or numpy array data (8). */
static __thread int al_on, al_mask, al_mine; static __thread uint64_t al_k, al_n, al_fired; /* of the thread that armed it */
static int al_poison;
EXPORT void sim_alloc_arm(int mask, uint64_t k) { al_mask = mask; al_k = k; al_n = 0; al_fired = 0; al_mine = 1; al_on = 1; }
EXPORT uint64_t sim_alloc_disarm(uint64_t *fired) { al_on = 0; al_mine = 0; *fired = al_fired; return al_n; }
static int al_fail(int d) {
  if (!al_on || !al_mine || !(al_mask & d)) return 0;
  if (al_n++ == al_k) { al_fired++; return 1; }
  return 0;
}
EXPORT void sim_alloc_poison(int on) { al_poison = on; }
#define POISON(p, n) do { if (al_poison && (p)) memset((p), al_poison, (n)); } while (0)
/* live allocations of randomgen's modules: nothing may stay behind; freed memory is overwritten */
#define LIVE 65536
static struct { void *p; size_t n; } lv[LIVE]; static int lv_used; static int64_t lv_count, lv_total;
static pthread_mutex_t lv_mx = PTHREAD_MUTEX_INITIALIZER;
static size_t lv_slot(void *p) { return (((uintptr_t)p >> 4) * 0x9E3779B1u) % LIVE; }
static void lv_add(void *p, size_t n) {
  if (!p) return;
  pthread_mutex_lock(&lv_mx);
  lv_total++;
  if (lv_used < LIVE / 2) {
    size_t i = lv_slot(p);
    while (lv[i].p) i = (i + 1) % LIVE;
    lv[i].p = p; lv[i].n = n; lv_used++; lv_count++;
  }
  pthread_mutex_unlock(&lv_mx);
}
static size_t lv_del(void *p) {
  size_t n = 0;
  if (!p) return 0;
  pthread_mutex_lock(&lv_mx);
  size_t i = lv_slot(p);
  while (lv[i].p && lv[i].p != p) i = (i + 1) % LIVE;
  if (lv[i].p) {
    n = lv[i].n; lv[i].p = NULL; lv_used--; lv_count--;
    for (size_t j = (i + 1) % LIVE; lv[j].p; j = (j + 1) % LIVE) { /* close the gap */
      void *q = lv[j].p; size_t m = lv[j].n; lv[j].p = NULL;
      size_t k = lv_slot(q); while (lv[k].p) k = (k + 1) % LIVE;
      lv[k].p = q; lv[k].n = m;
    }
  }
  pthread_mutex_unlock(&lv_mx);
  return n;
}
EXPORT int64_t sim_alloc_live(void) { return lv_count; }
EXPORT int64_t sim_alloc_total(void) { return lv_total; }
static void unalloc(void *p) { size_t n = lv_del(p); if (n && al_poison) memset(p, 0xDD, n); }
#define NEW(p, n) do { POISON(p, n); lv_add((p), (n)); return (p); } while (0)
EXPORT void *__wrap_malloc(size_t n) { if (al_fail(1)) { errno = ENOMEM; return NULL; } void *p = malloc(n); NEW(p, n); }
EXPORT void *__wrap_calloc(size_t a, size_t b) { if (al_fail(1)) { errno = ENOMEM; return NULL; } void *p = calloc(a, b); lv_add(p, a * b); return p; }
EXPORT void *__wrap_realloc(void *q, size_t n) { if (al_fail(1)) { errno = ENOMEM; return NULL; } size_t o = lv_del(q); void *p = realloc(q, n); if (p) lv_add(p, n); else if (o) lv_add(q, o); return p; }
EXPORT void __wrap_free(void *p) { unalloc(p); free(p); }
EXPORT int __wrap_posix_memalign(void **p, size_t a, size_t n) { if (al_fail(1)) return ENOMEM; int r = posix_memalign(p, a, n); if (!r) { POISON(*p, n); lv_add(*p, n); } return r; }
EXPORT void *__wrap_aligned_alloc(size_t a, size_t n) { if (al_fail(1)) return NULL; void *p = aligned_alloc(a, n); NEW(p, n); }
EXPORT void *__wrap_PyMem_Malloc(size_t n) { if (al_fail(1)) return NULL; void *p = PyMem_Malloc(n); NEW(p, n); }
EXPORT void *__wrap_PyMem_Calloc(size_t a, size_t n) { if (al_fail(1)) return NULL; void *p = PyMem_Calloc(a, n); lv_add(p, a * n); return p; }
EXPORT void *__wrap_PyMem_Realloc(void *q, size_t n) { if (al_fail(1)) return NULL; size_t o = lv_del(q); void *p = PyMem_Realloc(q, n); if (p) { if (!q) POISON(p, n); lv_add(p, n); } else if (o) lv_add(q, o); return p; }
EXPORT void __wrap_PyMem_Free(void *p) { unalloc(p); PyMem_Free(p); }
EXPORT void *__wrap_PyMem_RawMalloc(size_t n) { if (al_fail(1)) return NULL; void *p = PyMem_RawMalloc(n); NEW(p, n); }
EXPORT void __wrap_PyMem_RawFree(void *p) { unalloc(p); PyMem_RawFree(p); }
EXPORT void *__wrap_PyObject_Malloc(size_t n) { if (al_fail(1)) return NULL; void *p = PyObject_Malloc(n); NEW(p, n); }
EXPORT void __wrap_PyObject_Free(void *p) { unalloc(p); PyObject_Free(p); }

static PyMemAllocatorEx om, oo; static int hooked;
#define DOM(nm, d, orig) \
  static void *nm##_m(void *c, size_t n) { (void)c; if (al_fail(d)) return NULL; return orig.malloc(orig.ctx, n); } \
  static void *nm##_c(void *c, size_t a, size_t n) { (void)c; if (al_fail(d)) return NULL; return orig.calloc(orig.ctx, a, n); } \
  static void *nm##_r(void *c, void *p, size_t n) { (void)c; if (al_fail(d)) return NULL; return orig.realloc(orig.ctx, p, n); } \
  static void nm##_f(void *c, void *p) { (void)c; orig.free(orig.ctx, p); }
DOM(dm, 2, om)
DOM(dobj, 4, oo)
EXPORT void sim_alloc_hook(void) {
  if (hooked) return;
  hooked = 1;
  PyMem_GetAllocator(PYMEM_DOMAIN_MEM, &om); PyMem_GetAllocator(PYMEM_DOMAIN_OBJ, &oo);
  PyMemAllocatorEx m = { NULL, dm_m, dm_c, dm_r, dm_f }, o = { NULL, dobj_m, dobj_c, dobj_r, dobj_f };
  PyMem_SetAllocator(PYMEM_DOMAIN_MEM, &m); PyMem_SetAllocator(PYMEM_DOMAIN_OBJ, &o);
}
EXPORT void sim_alloc_unhook(void) { if (!hooked) return;
  hooked = 0; PyMem_SetAllocator(PYMEM_DOMAIN_MEM, &om); PyMem_SetAllocator(PYMEM_DOMAIN_OBJ, &oo); }
/* numpy data allocator (NEP 49) */
typedef struct { void *ctx; void *(*malloc)(void *, size_t); void *(*calloc)(void *, size_t, size_t); void *(*realloc)(void *, void *, size_t); void (*free)(void *, void *, size_t); } NpAlloc;
typedef struct { char name[127]; uint8_t version; NpAlloc allocator; } NpHandler;
static void *np_m(void *c, size_t n) { (void)c; if (al_fail(8)) return NULL; void *p = malloc(n); if (p) memset(p, 0xA5, n); return p; }
static void *np_c(void *c, size_t a, size_t n) { (void)c; if (al_fail(8)) return NULL; return calloc(a, n); }
static void *np_r(void *c, void *p, size_t n) { (void)c; if (al_fail(8)) return NULL; return realloc(p, n); }
static void np_f(void *c, void *p, size_t n) { (void)c; (void)n; free(p); }
static NpHandler nph = { "verif_sim", 1, { NULL, np_m, np_c, np_r, np_f } };
static PyObject *np_old;
EXPORT int sim_np_install(void) { /* called with the GIL held (PyDLL) */
  if (!PyArray_API && _import_array() < 0) return -1;
  PyObject *cap = PyCapsule_New(&nph, "mem_handler", NULL);
  if (!cap) return -2;
  PyObject *old = PyDataMem_SetHandler(cap);
  Py_DECREF(cap);
  if (!old) return -3;
  Py_XDECREF(np_old); np_old = old;
  return 0;
}
