/* C helpers of the harness: guard-page buffers, GC control, object-graph dump,
   instruction tracing, interposition of read/getentropy/malloc/free. */
#define _GNU_SOURCE
#define CAML_INTERNALS
#define CAML_NAME_SPACE
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <signal.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/types.h>
#include <ucontext.h>
#include <malloc.h>
#include <caml/mlvalues.h>
#include <caml/alloc.h>
#include <caml/memory.h>
#include <caml/callback.h>
#include <caml/fail.h>
#include <caml/custom.h>
#include <caml/minor_gc.h>
#include <caml/major_gc.h>
#include <caml/gc.h>
#include <caml/gc_ctrl.h>
#include <caml/address_class.h>
#include <caml/domain_state.h>
#include <caml/domain.h>
#include <caml/signals.h>
#include <caml/misc.h>
#include <caml/compact.h>

/* ------------------------------------------------------------------ */
/* Guard-page byte sequences, outside the OCaml heap.                   */
/* [hs_guard_alloc len high]: if high, the value ends right before an
   inaccessible page; otherwise its header sits right after one.        */

#define PG 4096UL
struct guard { char * base; size_t total; char * data; size_t len; size_t wosize; };
#define MAXG 512
static struct guard guards[MAXG];

CAMLprim value hs_guard_alloc(value vlen, value vhigh)
{
  size_t len = Long_val(vlen);
  size_t wosize = (len + sizeof(value)) / sizeof(value);
  size_t bytes = (wosize + 1) * sizeof(value);
  size_t body = (bytes + PG - 1) / PG * PG;
  size_t total = body + 2 * PG;
  int k;
  for (k = 0; k < MAXG; k++) if (guards[k].base == NULL) break;
  if (k == MAXG) caml_failwith("hs_guard_alloc: too many");
  char * base = mmap(NULL, total, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  if (base == MAP_FAILED) caml_failwith("hs_guard_alloc: mmap");
  mprotect(base + PG, body, PROT_READ | PROT_WRITE);
  memset(base + PG, 0xC7, body);
  char * start = Bool_val(vhigh) ? base + PG + body - bytes : base + PG;
  *(header_t *) start = Make_header(wosize, String_tag, Caml_black);
  char * data = start + sizeof(value);
  memset(data, 0, wosize * sizeof(value));
  data[wosize * sizeof(value) - 1] = (char)(wosize * sizeof(value) - 1 - len);
  guards[k] = (struct guard){ base, total, data, len, wosize };
  return (value) data;
}
/* a huge byte sequence of zeros that takes no memory until written to */
CAMLprim value hs_sparse_alloc(value vlen)
{
  size_t len = Long_val(vlen);
  size_t wosize = (len + sizeof(value)) / sizeof(value);
  size_t bytes = ((wosize + 1) * sizeof(value) + PG - 1) / PG * PG;
  char * base = mmap(NULL, bytes, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (base == MAP_FAILED) caml_failwith("hs_sparse_alloc: mmap");
  *(header_t *) base = Make_header(wosize, String_tag, Caml_black);
  char * data = base + sizeof(value);
  data[wosize * sizeof(value) - 1] = (char)(wosize * sizeof(value) - 1 - len);
  return (value) data;
}
CAMLprim value hs_sparse_free(value v)
{
  munmap((char *) v - sizeof(value), ((Wosize_val(v) + 1) * sizeof(value) + PG - 1) / PG * PG);
  return Val_unit;
}
static struct guard * find_guard(value v)
{
  for (int k = 0; k < MAXG; k++) if (guards[k].base != NULL && guards[k].data == (char *) v) return &guards[k];
  caml_failwith("hs_guard: not a guard buffer");
}
CAMLprim value hs_guard_protect(value v, value ro)
{
  struct guard * g = find_guard(v);
  mprotect(g->base + PG, g->total - 2 * PG, Bool_val(ro) ? PROT_READ : (PROT_READ | PROT_WRITE));
  return Val_unit;
}
/* true if header, final padding and surrounding filler are intact */
CAMLprim value hs_guard_intact(value v)
{
  struct guard * g = find_guard(v);
  unsigned char * lo = (unsigned char *) g->base + PG, * hi = (unsigned char *) g->base + g->total - PG;
  unsigned char * start = (unsigned char *) g->data - sizeof(value);
  unsigned char * end = (unsigned char *) g->data + g->wosize * sizeof(value);
  if (*(header_t *) start != Make_header(g->wosize, String_tag, Caml_black)) return Val_false;
  for (unsigned char * p = lo; p < start; p++) if (*p != 0xC7) return Val_false;
  for (unsigned char * p = end; p < hi; p++) if (*p != 0xC7) return Val_false;
  for (unsigned char * p = (unsigned char *) g->data + g->len; p < end - 1; p++) if (*p != 0) return Val_false;
  if (end[-1] != (unsigned char)(g->wosize * sizeof(value) - 1 - g->len)) return Val_false;
  return Val_true;
}
CAMLprim value hs_guard_free_all(value unit)
{
  for (int k = 0; k < MAXG; k++) if (guards[k].base != NULL) { munmap(guards[k].base, guards[k].total); guards[k].base = NULL; }
  return Val_unit;
}
CAMLprim value hs_guard_room(value unit)
{
  int n = 0;
  for (int k = 0; k < MAXG; k++) n += guards[k].base == NULL;
  return Val_long(n);
}
CAMLprim value hs_guard_free(value v)
{
  struct guard * g = find_guard(v);
  munmap(g->base, g->total);
  g->base = NULL;
  return Val_unit;
}

/* ------------------------------------------------------------------ */
/* GC control */

CAMLprim value hs_minor_free_words(value unit)
{
  return Val_long(Caml_state->young_ptr - Caml_state->young_alloc_start);
}
/* leave exactly [k] free words in the minor heap (0 <= k <= size of half) */
CAMLprim value hs_leave_minor_words(value vk)
{
  intnat k = Long_val(vk);
  caml_minor_collection();
  for (;;) {
    intnat avail = Caml_state->young_ptr - Caml_state->young_alloc_start;
    intnat d = avail - k;
    if (d <= 1) break;
    intnat w = d - 1;                    /* one word goes to the header */
    if (w > 200) w = 200;
    if (d - (w + 1) == 1) w -= 1;        /* never leave a remainder of 1 */
    value b = caml_alloc_small(w, 0);
    for (intnat i = 0; i < w; i++) Field(b, i) = Val_unit;
  }
  return Val_long(Caml_state->young_ptr - Caml_state->young_alloc_start);
}
/* make the next direct major allocation trigger a collection */
extern uintnat caml_allocated_words;
CAMLprim value hs_pressure_major(value unit)
{
  caml_allocated_words = Caml_state->minor_heap_wsz + 1;
  return Val_unit;
}
static void poison(void)
{
  memset(Caml_state->young_alloc_start, 0xDB,
         (char *) Caml_state->young_ptr - (char *) Caml_state->young_alloc_start);
}
static long poison_count = 0;
static int in_gc = 0;               /* set while the collector works (see malloc failures) */
static int poison_on = 0;
static void gc_begin(void) { in_gc++; }
static void gc_end(void) { if (in_gc > 0) in_gc--; }
static void poison_hook(void) { gc_end(); if (poison_on) { poison_count++; poison(); } }
CAMLprim value hs_poison(value on)
{
  poison_on = Bool_val(on);
  caml_minor_gc_end_hook = poison_hook;
  return Val_unit;
}
/* What other threads may do while an operation has released the runtime
   system: collect (mode 1: minor, mode 2: also compact) and allocate. */
static int released_mode = 0, released_in = 0;
static long released_count = 0;
static void (*released_prev)(void) = NULL;
static void released_hook(void)
{
  if (released_in) return;
  released_in = 1;
  released_count++;
  caml_empty_minor_heap();
  poison();
  if (released_mode == 2) { caml_finish_major_cycle(); caml_finish_major_cycle(); caml_compact_heap(-1); }
  released_in = 0;
  if (released_prev) released_prev();
}
CAMLprim value hs_released(value vmode)
{
  if (Int_val(vmode) && !released_mode) { released_prev = caml_enter_blocking_section_hook; caml_enter_blocking_section_hook = released_hook; }
  if (!Int_val(vmode) && released_mode) caml_enter_blocking_section_hook = released_prev;
  released_mode = Int_val(vmode);
  return Val_unit;
}
CAMLprim value hs_released_count(value unit) { return Val_long(released_count); }
CAMLprim value hs_poison_count(value unit) { return Val_long(poison_count); }
CAMLprim value hs_clear_minor(value unit)
{
  caml_minor_collection();
  memset(Caml_state->young_alloc_start, 0,
         (char *) Caml_state->young_ptr - (char *) Caml_state->young_alloc_start);
  return Val_unit;
}

/* ------------------------------------------------------------------ */
/* malloc tracking (linked with --wrap=malloc,free,calloc,realloc) */

extern void * __real_malloc(size_t);
extern void * __real_calloc(size_t, size_t);
extern void * __real_realloc(void *, size_t);
extern void __real_free(void *);
#define MAXT 4096
static struct { void * p; size_t n; } tracked[MAXT];
static int ntracked = 0, tracking = 0;
static unsigned char * freed_log = NULL; static size_t freed_len = 0, freed_cap = 0;
static int log_frees = 0;

static int find_tracked(void * p)
{
  for (int i = 0; i < ntracked; i++) if (tracked[i].p == p) return i;
  return -1;
}
static void track(void * p, size_t n)
{
  if (tracking && p != NULL && ntracked < MAXT) {
    memset(p, 0, n);                       /* deterministic initial contents */
    tracked[ntracked].p = p; tracked[ntracked].n = n; ntracked++;
  }
}
static void untrack(void * p)
{
  if (p == NULL || ntracked == 0) return;
  int i = find_tracked(p);
  if (i < 0) return;
  if (log_frees) {
    size_t n = tracked[i].n;
    if (freed_len + n + 8 > freed_cap) {
      freed_cap = 2 * (freed_len + n + 8);
      freed_log = __real_realloc(freed_log, freed_cap);
    }
    memcpy(freed_log + freed_len, &n, 8); memcpy(freed_log + freed_len + 8, p, n);
    freed_len += n + 8;
  }
  tracked[i] = tracked[--ntracked];
}
/* refused memory: requests of at most 32 KiB made outside of the collector (a
   collection that lacks memory ends the process, which is OCaml's affair) */
static int mf_on = 0; static long mf_from = 0, mf_to = 0, mf_count = 0, mf_hits = 0;
static int refuse(void)
{
  long k = mf_count++;
  if (k >= mf_from && k < mf_to) { mf_hits++; return 1; }
  return 0;
}
#define REFUSED(n) (mf_on && !in_gc && (n) <= 32768 && refuse())
void * __wrap_malloc(size_t n)
{
  if (REFUSED(n)) { errno = ENOMEM; return NULL; }
  void * p = __real_malloc(n); track(p, n); return p;
}
void * __wrap_calloc(size_t a, size_t b)
{
  if (REFUSED(a * b)) { errno = ENOMEM; return NULL; }
  void * p = __real_calloc(a, b); track(p, a * b); return p;
}
/* the same for the requests of zlib, which is a shared library: the streams
   get an allocator of ours */
#include <zlib.h>
extern int __real_deflateInit2_(z_streamp, int, int, int, int, int, const char *, int) __attribute__((weak));
extern int __real_inflateInit2_(z_streamp, int, const char *, int) __attribute__((weak));
extern int __real_deflateInit_(z_streamp, int, const char *, int) __attribute__((weak));
extern int __real_inflateInit_(z_streamp, const char *, int) __attribute__((weak));
static int z_hook = 0; static long z_live = 0;
static voidpf z_alloc(voidpf q, uInt n, uInt sz)
{
  if (mf_on && refuse()) return Z_NULL;
  z_live += 1;
  void * p = __real_malloc((size_t) n * sz);
  if (p) memset(p, 0, (size_t) n * sz);      /* zlib reads some of it before writing */
  return p;
}
static void z_free(voidpf q, voidpf p) { z_live -= 1; __real_free(p); }
static void z_set(z_streamp zs) { if (z_hook && zs->zalloc == Z_NULL) { zs->zalloc = z_alloc; zs->zfree = z_free; zs->opaque = Z_NULL; } }
int __wrap_deflateInit2_(z_streamp zs, int a, int b, int c, int d, int e, const char * v, int sz)
{ z_set(zs); return __real_deflateInit2_(zs, a, b, c, d, e, v, sz); }
int __wrap_inflateInit2_(z_streamp zs, int a, const char * v, int sz)
{ z_set(zs); return __real_inflateInit2_(zs, a, v, sz); }
int __wrap_deflateInit_(z_streamp zs, int a, const char * v, int sz)
{ z_set(zs); return __real_deflateInit_(zs, a, v, sz); }
int __wrap_inflateInit_(z_streamp zs, const char * v, int sz)
{ z_set(zs); return __real_inflateInit_(zs, v, sz); }
/* requests [from, to) made from now on are refused; from < 0: none */
CAMLprim value hs_refuse(value from, value to)
{
  if (caml_minor_gc_begin_hook != gc_begin) {
    caml_minor_gc_begin_hook = gc_begin; caml_minor_gc_end_hook = poison_hook;
    caml_major_slice_begin_hook = gc_begin; caml_major_slice_end_hook = gc_end;
    in_gc = 0;
  }
  z_hook = 1;
  mf_on = Long_val(from) >= 0; mf_from = Long_val(from); mf_to = Long_val(to); mf_count = 0;
  if (mf_on) mf_hits = 0;
  return Val_unit;
}
CAMLprim value hs_refused(value unit) { return Val_long(mf_hits); }
CAMLprim value hs_z_live(value unit) { return Val_long(z_live); }
void * __wrap_realloc(void * q, size_t n)
{
  if (tracking && q != NULL && find_tracked(q) >= 0) {
    int i = find_tracked(q); size_t old = tracked[i].n;
    void * p = __real_malloc(n); if (p == NULL) return NULL;
    track(p, n);
    memcpy(p, q, old < n ? old : n);
    untrack(q); __real_free(q);
    return p;
  }
  void * p = __real_realloc(q, n);
  if (q == NULL) track(p, n);
  return p;
}
void __wrap_free(void * p) { untrack(p); __real_free(p); }
CAMLprim value hs_track(value on)
{
  tracking = Bool_val(on);
  return Val_unit;
}
CAMLprim value hs_track_reset(value unit) { ntracked = 0; freed_len = 0; return Val_unit; }
CAMLprim value hs_log_frees(value on) { log_frees = Bool_val(on); return Val_unit; }

/* ------------------------------------------------------------------ */
/* dump of the object graph reachable from [root] */

struct node { uintnat addr; int kind; size_t n; };     /* kind 0: OCaml block, 1: malloc block */
static struct node * q; static size_t qn, qcap;
static size_t * ht; static size_t htcap;
static unsigned char * ob; static size_t on, ocap;
static void emit(const void * p, size_t n)
{
  if (on + n > ocap) { ocap = 2 * (on + n) + 4096; ob = __real_realloc(ob, ocap); }
  memcpy(ob + on, p, n); on += n;
}
static void emitc(char c) { emit(&c, 1); }
static void emitw(uintnat w) { emit(&w, 8); }
static size_t node_index(uintnat addr, int kind, size_t n)
{
  if (2 * (qn + 1) > htcap) {
    size_t nc = htcap ? 2 * htcap : 1024;
    size_t * nt = __real_calloc(nc, sizeof(size_t));
    for (size_t i = 0; i < qn; i++) {
      size_t h = (q[i].addr >> 3) * 0x9E3779B97F4A7C15ULL % nc;
      while (nt[h]) h = (h + 1) % nc;
      nt[h] = i + 1;
    }
    __real_free(ht); ht = nt; htcap = nc;
  }
  size_t h = (addr >> 3) * 0x9E3779B97F4A7C15ULL % htcap;
  while (ht[h]) { if (q[ht[h] - 1].addr == addr) return ht[h] - 1; h = (h + 1) % htcap; }
  if (qn + 1 > qcap) { qcap = qcap ? 2 * qcap : 1024; q = __real_realloc(q, qcap * sizeof(struct node)); }
  q[qn] = (struct node){ addr, kind, n };
  ht[h] = qn + 1;
  return qn++;
}
static void emit_raw_word(uintnat w)
{
  int i = find_tracked((void *) w);
  if (i >= 0) { emitc('M'); emitw(node_index(w, 1, tracked[i].n)); }
  else { emitc('R'); emitw(w); }
}
static void emit_value(value v, value excl)
{
  if (Is_long(v)) { emitc('I'); emitw((uintnat) v); return; }
  for (mlsize_t i = 0; i < Wosize_val(excl); i++)
    if (Field(excl, i) == v) { emitc('X'); emitw(i); return; }
  if (!(Is_in_heap(v) || Is_young(v))) {
    /* guard buffers and static data are not followed; tracked memory is */
    emit_raw_word((uintnat) v); return;
  }
  if (Tag_val(v) == Infix_tag) { emitc('F'); emitw(Infix_offset_val(v)); v -= Infix_offset_val(v); }
  emitc('P'); emitw(node_index((uintnat) v, 0, 0));
}
CAMLprim value hs_dump(value root, value excl)
{
  CAMLparam2(root, excl);
  CAMLlocal1(res);
  qn = 0; on = 0; if (htcap) memset(ht, 0, htcap * sizeof(size_t));
  emit_value(root, excl);
  for (size_t i = 0; i < qn; i++) {
    if (q[i].kind == 1) {
      emitc('m'); emitw(q[i].n);
      size_t n = q[i].n;
      char * p = (char *) q[i].addr;
      size_t w = 0;
      for (; w + 8 <= n; w += 8) emit_raw_word(*(uintnat *)(p + w));
      emit(p + w, n - w);
      continue;
    }
    value v = (value) q[i].addr;
    mlsize_t sz = Wosize_val(v); tag_t tag = Tag_val(v);
    emitc('b'); emitc((char) tag); emitw(sz);
    if (tag == Custom_tag) {
      for (mlsize_t k = 0; k < sz; k++) emit_raw_word(((uintnat *) v)[k]);
    } else if (tag == Closure_tag) {
      mlsize_t env = Start_env_closinfo(Closinfo_val(v));
      for (mlsize_t k = 0; k < env; k++) { emitc('R'); emitw(((uintnat *) v)[k]); }
      for (mlsize_t k = env; k < sz; k++) emit_value(Field(v, k), excl);
    } else if (tag == Abstract_tag) {
      for (mlsize_t k = 0; k < sz; k++) emit_raw_word(((uintnat *) v)[k]);
    } else if (tag >= No_scan_tag) {
      emit((char *) v, sz * sizeof(value));
    } else {
      for (mlsize_t k = 0; k < sz; k++) {
        if (tag == Object_tag && k == 1) continue;      /* object id */
        emit_value(Field(v, k), excl);
      }
    }
  }
  emitc('L');
  emit(freed_log, freed_len);
  res = caml_alloc_string(on);
  memcpy(Bytes_val(res), ob, on);
  CAMLreturn(res);
}

/* ------------------------------------------------------------------ */
/* instruction trace of a closure (x86-64 trap flag) */

static volatile long tr_count; static volatile uint64_t tr_hash; static volatile int tr_on;
static volatile long tr_max;
/* emulated RDRAND and CPUID: while stepping, an RDRAND instruction about to be
   executed is replaced by the next item of a script */
static volatile int rd_on; static volatile long rd_calls, rd_ok, rd_max;
static int rd_script[4096]; static int rd_script_n, rd_tail;  /* 1: success, 0: failure */
static int rd_mode;              /* 0: counting bytes, 1: all ones */
static int rd_cpuid;             /* 0: no RDRAND bit, 1: RDRAND bit, -1: not emulated */
static uint64_t rd_value(long k)
{
  uint64_t v = 0;
  if (rd_mode == 1) return ~(uint64_t) 0;
  for (int j = 7; j >= 0; j--) v = (v << 8) | (uint64_t) (1 + (8 * k + j) % 255);
  return v;
}
static const int rd_regs[16] = { REG_RAX, REG_RCX, REG_RDX, REG_RBX, REG_RSP, REG_RBP, REG_RSI, REG_RDI,
                                 REG_R8, REG_R9, REG_R10, REG_R11, REG_R12, REG_R13, REG_R14, REG_R15 };
static void emulate(ucontext_t * uc)
{
  for (;;) {
    unsigned char * pc = (unsigned char *) uc->uc_mcontext.gregs[REG_RIP], * q = pc;
    int rex = 0, osz = 0;
    if (*q == 0x66) { osz = 1; q++; }
    if ((*q & 0xF0) == 0x40) rex = *q++;
    if (q[0] == 0x0F && q[1] == 0xC7 && (q[2] & 0xF8) == 0xF0) {
      int r = (q[2] & 7) | ((rex & 1) << 3);
      long k = rd_calls++;
      int ok = k < rd_script_n ? rd_script[k] : rd_tail;
      uint64_t v = ok ? rd_value(rd_ok) : 0;
      greg_t * d = &uc->uc_mcontext.gregs[rd_regs[r]];
      if (ok) rd_ok++;
      if (rex & 8) *d = (greg_t) v;
      else if (osz) *d = (greg_t) (((uint64_t) *d & ~0xFFFFUL) | (v & 0xFFFF));
      else *d = (greg_t) (v & 0xFFFFFFFFUL);
      uc->uc_mcontext.gregs[REG_EFL] &= ~0x8D5L;
      if (ok) uc->uc_mcontext.gregs[REG_EFL] |= 1;
      uc->uc_mcontext.gregs[REG_RIP] = (greg_t) (q + 3);
    } else if (rd_cpuid >= 0 && pc[0] == 0x0F && pc[1] == 0xA2) {
      uint32_t a = (uint32_t) uc->uc_mcontext.gregs[REG_RAX], b, c = (uint32_t) uc->uc_mcontext.gregs[REG_RCX], d, leaf = a;
      __asm__ __volatile__ ("cpuid" : "+a" (a), "=b" (b), "+c" (c), "=d" (d));
      if (leaf == 1) c = rd_cpuid ? c | (1U << 30) : c & ~(1U << 30);
      uc->uc_mcontext.gregs[REG_RAX] = a; uc->uc_mcontext.gregs[REG_RBX] = b;
      uc->uc_mcontext.gregs[REG_RCX] = c; uc->uc_mcontext.gregs[REG_RDX] = d;
      uc->uc_mcontext.gregs[REG_RIP] = (greg_t) (pc + 2);
    } else return;
  }
}
static void on_trap(int sig, siginfo_t * si, void * uc_)
{
  ucontext_t * uc = uc_;
  if (rd_on) {
    if (++tr_count > rd_max) rd_on = 0; else { emulate(uc); return; }
  }
  if (tr_on) {
    uint64_t pc = uc->uc_mcontext.gregs[REG_RIP];
    tr_count++;
    tr_hash = (tr_hash ^ pc) * 0x100000001b3ULL;
    tr_hash ^= tr_hash >> 29;
    if (tr_count > tr_max) tr_on = 0;
  }
  if (!tr_on) uc->uc_mcontext.gregs[REG_EFL] &= ~0x100L;
}
static inline void set_tf(void)
{ __asm__ __volatile__ ("pushfq; orq $0x100, (%%rsp); popfq" ::: "memory", "cc"); }
static inline void clr_tf(void)
{ __asm__ __volatile__ ("pushfq; andq $~0x100, (%%rsp); popfq" ::: "memory", "cc"); }

/* returns (result, instructions, hash) ; f : a -> b -> bool */
CAMLprim value hs_trace2(value f, value a, value b, value vmax)
{
  CAMLparam3(f, a, b);
  CAMLlocal2(r, t);
  static int installed = 0;
  if (!installed) {
    struct sigaction sa; memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = on_trap; sa.sa_flags = SA_SIGINFO | SA_NODEFER;
    sigaction(SIGTRAP, &sa, NULL); installed = 1;
  }
  tr_count = 0; tr_hash = 0xcbf29ce484222325ULL; tr_max = Long_val(vmax);
  tr_on = 1;
  set_tf();
  r = caml_callback2(f, a, b);
  clr_tf();
  tr_on = 0;
  t = caml_alloc_small(3, 0);
  Field(t, 0) = r;
  Field(t, 1) = Val_long(tr_count);
  Field(t, 2) = Val_long((long)(tr_hash >> 2));
  CAMLreturn(t);
}

/* run a closure with RDRAND scripted; (calls, successes) or calls = -1 if the
   step limit was reached (the closure then goes on with the real instruction) */
CAMLprim value hs_rdrand(value f, value vscript, value vtail, value vmode, value vcpuid)
{
  CAMLparam2(f, vscript);
  CAMLlocal2(r, t);
  struct sigaction sa; memset(&sa, 0, sizeof sa);
  sa.sa_sigaction = on_trap; sa.sa_flags = SA_SIGINFO | SA_NODEFER;
  sigaction(SIGTRAP, &sa, NULL);
  rd_script_n = (int) Wosize_val(vscript); if (rd_script_n > 4096) rd_script_n = 4096;
  for (int i = 0; i < rd_script_n; i++) rd_script[i] = Int_val(Field(vscript, i));
  rd_tail = Int_val(vtail); rd_mode = Int_val(vmode); rd_cpuid = Int_val(vcpuid);
  rd_calls = rd_ok = 0; tr_count = 0; rd_max = 3000000; tr_on = 0;
  rd_on = 1;
  set_tf();
  r = caml_callback_exn(f, Val_unit);
  clr_tf();
  int finished = rd_on;
  rd_on = 0;
  if (Is_exception_result(r)) caml_raise(Extract_exception(r));
  t = caml_alloc_small(2, 0);
  Field(t, 0) = Val_long(finished ? rd_calls : -1);
  Field(t, 1) = Val_long(rd_ok);
  CAMLreturn(t);
}

/* ------------------------------------------------------------------ */
/* BLAKE3 written from its specification, for long messages: the tree is
   built recursively over the whole input */

static const uint32_t b3_iv[8] = { 0x6A09E667, 0xBB67AE85, 0x3C6EF372, 0xA54FF53A, 0x510E527F, 0x9B05688C, 0x1F83D9AB, 0x5BE0CD19 };
static const unsigned char b3_perm[16] = { 2, 6, 3, 10, 7, 0, 4, 13, 1, 11, 12, 5, 9, 14, 15, 8 };
static uint32_t b3_rot(uint32_t x, int n) { return (x >> n) | (x << (32 - n)); }
static void b3_g(uint32_t * v, int a, int b, int c, int d, uint32_t x, uint32_t y)
{
  v[a] += v[b] + x; v[d] = b3_rot(v[d] ^ v[a], 16); v[c] += v[d]; v[b] = b3_rot(v[b] ^ v[c], 12);
  v[a] += v[b] + y; v[d] = b3_rot(v[d] ^ v[a], 8); v[c] += v[d]; v[b] = b3_rot(v[b] ^ v[c], 7);
}
static void b3_compress(const uint32_t cv[8], const uint32_t block[16], uint64_t t, uint32_t b, uint32_t d, uint32_t out[16])
{
  uint32_t v[16], m[16], p[16];
  memcpy(v, cv, 32); memcpy(v + 8, b3_iv, 16); memcpy(m, block, 64);
  v[12] = (uint32_t) t; v[13] = (uint32_t) (t >> 32); v[14] = b; v[15] = d;
  for (int r = 0; r < 7; r++) {
    b3_g(v, 0, 4, 8, 12, m[0], m[1]); b3_g(v, 1, 5, 9, 13, m[2], m[3]); b3_g(v, 2, 6, 10, 14, m[4], m[5]); b3_g(v, 3, 7, 11, 15, m[6], m[7]);
    b3_g(v, 0, 5, 10, 15, m[8], m[9]); b3_g(v, 1, 6, 11, 12, m[10], m[11]); b3_g(v, 2, 7, 8, 13, m[12], m[13]); b3_g(v, 3, 4, 9, 14, m[14], m[15]);
    for (int i = 0; i < 16; i++) p[i] = m[b3_perm[i]];
    memcpy(m, p, 64);
  }
  for (int i = 0; i < 8; i++) { out[i] = v[i] ^ v[i + 8]; out[i + 8] = v[i + 8] ^ cv[i]; }
}
/* root: writes 64 bytes of output; otherwise the chaining value */
static void b3_node(const uint32_t key[8], uint32_t flags, const unsigned char * p, size_t n, uint64_t chunk, int root, uint32_t out[16])
{
  uint32_t w[16];
  if (n <= 1024) {
    uint32_t cv[16];
    size_t pos = 0;
    memcpy(cv, key, 32);
    for (;;) {
      size_t k = n - pos > 64 ? 64 : n - pos;
      int last = pos + k == n;
      unsigned char b[64];
      memset(b, 0, 64); memcpy(b, p + pos, k);
      for (int i = 0; i < 16; i++) w[i] = b[4*i] | b[4*i+1] << 8 | b[4*i+2] << 16 | (uint32_t) b[4*i+3] << 24;
      b3_compress(cv, w, last && root ? 0 : chunk, (uint32_t) k, flags | (pos == 0 ? 1 : 0) | (last ? 2 : 0) | (last && root ? 8 : 0), out);
      if (last) return;
      memcpy(cv, out, 32);
      pos += k;
    }
  }
  size_t left = 1024;
  while (2 * left < n) left *= 2;
  uint32_t o[16];
  b3_node(key, flags, p, left, chunk, 0, o); memcpy(w, o, 32);
  b3_node(key, flags, p + left, n - left, chunk + left / 1024, 0, o); memcpy(w + 8, o, 32);
  b3_compress(key, w, 0, 64, flags | 4 | (root ? 8 : 0), out);
}
/* the first 32 bytes of the digest; key "" or 32 bytes */
CAMLprim value hs_blake3(value vkey, value buf, value vlen)
{
  uint32_t key[8], out[16];
  memcpy(key, b3_iv, 32);
  int keyed = caml_string_length(vkey) == 32;
  if (keyed) for (int i = 0; i < 8; i++) { unsigned char * b = &Byte_u(vkey, 4 * i); key[i] = b[0] | b[1] << 8 | b[2] << 16 | (uint32_t) b[3] << 24; }
  b3_node(key, keyed ? 16 : 0, &Byte_u(buf, 0), Long_val(vlen), 0, 1, out);
  value res = caml_alloc_string(32);
  for (int i = 0; i < 32; i++) Byte_u(res, i) = (unsigned char) (out[i / 4] >> (8 * (i & 3)));
  return res;
}

/* ------------------------------------------------------------------ */
/* scripted system calls (linked with --wrap=read,getentropy,getrandom) */

extern ssize_t __real_read(int, void *, size_t);
extern int __real_getentropy(void *, size_t);
static long script[4096]; static int script_n = 0, script_pos = 0, script_fd_min = 3, script_on = 0;
static long calls_read = 0;
/* item k > 0: at most k bytes; 0: end of file; -e: error e; beyond the end: unlimited */
ssize_t __wrap_read(int fd, void * buf, size_t n)
{
  if (!script_on || fd < script_fd_min) return __real_read(fd, buf, n);
  calls_read++;
  if (script_pos < script_n) {
    long k = script[script_pos++];
    if (k < 0) { errno = (int) -k; return -1; }
    if (k == 0) return 0;
    if ((size_t) k < n) n = k;
  }
  return __real_read(fd, buf, n);
}
static int ent_on = 0; static long ent_calls = 0, ent_fail_at = -1; static uint64_t ent_pos = 0, ent_seed = 0;
static unsigned char ent_byte(uint64_t pos)
{
  uint64_t z = (pos >> 3) + ent_seed * 0x9E3779B97F4A7C15ULL + 1;
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; z ^= z >> 31;
  return (unsigned char)(z >> (8 * (pos & 7)));
}
static int ent_fill(void * buf, size_t n)
{
  ent_calls++;
  if (ent_fail_at >= 0 && ent_calls > ent_fail_at) { errno = EIO; return -1; }
  if (ent_fail_at == -2) { memset(buf, 1 + (int) (ent_calls & 0x7F), n); ent_pos += n; return 0; }
  for (size_t i = 0; i < n; i++) ((unsigned char *) buf)[i] = ent_byte(ent_pos++);
  return 0;
}
int __wrap_getentropy(void * buf, size_t n)
{
  if (!ent_on) return __real_getentropy(buf, n);
  if (n > 256) { ent_calls++; errno = EIO; return -1; }
  return ent_fill(buf, n);
}
CAMLprim value hs_ent_script(value on, value seed, value fail_at)
{
  ent_on = Bool_val(on); ent_seed = Long_val(seed); ent_fail_at = Long_val(fail_at);
  ent_calls = 0; ent_pos = 0;
  return Val_unit;
}
CAMLprim value hs_ent_calls(value unit) { return Val_long(ent_calls); }
CAMLprim value hs_ent_used(value unit) { return Val_long((long) ent_pos); }
CAMLprim value hs_ent_byte(value pos) { return Val_int(ent_byte(Long_val(pos))); }
ssize_t __wrap___read_chk(int fd, void * buf, size_t n, size_t buflen)
{
  if (n > buflen) abort();
  return __wrap_read(fd, buf, n);
}
CAMLprim value hs_read_script(value on, value arr)
{
  script_on = Bool_val(on); script_n = Wosize_val(arr); script_pos = 0; calls_read = 0;
  if (script_n > 4096) script_n = 4096;
  for (int i = 0; i < script_n; i++) script[i] = Long_val(Field(arr, i));
  return Val_unit;
}
CAMLprim value hs_read_calls(value unit) { return Val_long(calls_read); }

/* ------------------------------------------------------------------ */
/* occurrences, in the used part of the minor heap, of any of the 8-byte
   patterns of [pats] at any byte position; index of the first one found or -1 */
CAMLprim value hs_scan_minor(value pats)
{
  char * p = (char *) Caml_state->young_ptr, * e = (char *) Caml_state->young_alloc_end;
  mlsize_t np = caml_string_length(pats) / 8;
  static unsigned char filter[65536 / 8];
  memset(filter, 0, sizeof filter);
  for (mlsize_t i = 0; i < np; i++) {
    unsigned w = Byte_u(pats, 8 * i) | Byte_u(pats, 8 * i + 1) << 8;
    filter[w >> 3] |= 1 << (w & 7);
  }
  for (; p + 8 <= e; p++) {
    unsigned w = (unsigned char) p[0] | (unsigned char) p[1] << 8;
    if (!(filter[w >> 3] >> (w & 7) & 1)) continue;
    if (p >= (char *) pats && p < (char *) pats + caml_string_length(pats)) continue;
    for (mlsize_t i = 0; i < np; i++)
      if (memcmp(p, &Byte_u(pats, 8 * i), 8) == 0) return Val_long(i);
  }
  return Val_long(-1);
}
CAMLprim value hs_minor_used_words(value unit)
{
  return Val_long(Caml_state->young_alloc_end - Caml_state->young_ptr);
}
/* bytes allocated by malloc and not freed, the OCaml heap excepted */
CAMLprim value hs_malloc_live(value unit)
{
  struct mallinfo2 m = mallinfo2();
  return Val_long((long) (m.uordblks + m.hblkhd) - (long) Caml_state->stat_heap_wsz * (long) sizeof(value));
}
