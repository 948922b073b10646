/* Interposing allocator of the explorer: every malloc-family call of the process comes here.
 * While vp_active is set (the explorer is inside a call into the library under test), blocks are
 * "tracked": counted, poisoned on allocation and on release, guarded by a trailing canary, kept in a
 * quarantine after release (so that a stale read sees poison and a stale write is noticed), moved on
 * every realloc, and subject to the failure plan. */
#define _GNU_SOURCE
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <errno.h>
#include <unistd.h>

extern void *__libc_malloc(size_t);
extern void __libc_free(void *);
extern void *__libc_memalign(size_t, size_t);

#define MAG 0x51a7c0deu
#define CAN 0xc5
typedef struct hdr { uint32_t magic; uint16_t tracked, fp; size_t size; void *raw; struct hdr *q; } hdr; /* 32 bytes */

int vp_active = 0;                 /* inside the library */
uint64_t vp_count = 0;             /* tracked allocation requests since reset */
uint64_t vp_fail_at = 0;           /* 0: never; n: the n-th request fails */
uint64_t vp_fail_len = 1;          /* how many consecutive requests fail from there (UINT64_MAX: all) */
uint64_t vp_failed = 0;            /* how many were made to fail */
int64_t vp_live = 0;               /* tracked blocks alive */
int64_t vp_live_bytes = 0;
int64_t vp_peak_bytes = 0;
uint64_t vp_corrupt = 0;           /* canary or quarantine damage seen */
uint64_t vp_total = 0;             /* bytes requested since reset */
uint64_t vp_maxreq = 0;            /* biggest single request */
uint64_t vp_cap = 0;               /* if non-zero: requests above it fail */
int vp_quarantine = 1;
int vp_poison = 0xA5;               /* contents of a new block */
int vp_fpoison = 0xDD;              /* contents of a released block */

void (*vp_hook)(void) = NULL;       /* called before every tracked request and release */
static void hook(void) { void (*f)(void) = vp_hook; if (f) { int sv = vp_active; vp_active = 0; f(); vp_active = sv; } }

#define QN 256
static hdr *qring[QN]; static unsigned qpos; static size_t qbytes;

static void evict(unsigned i) {
  hdr *h = qring[i]; if (!h) return; qring[i] = NULL;
  size_t n = h->size; unsigned char *p = (unsigned char *)(h + 1);
  size_t chk = n > 4096 ? 4096 : n;
  for (size_t k = 0; k < chk; k++) if (p[k] != h->fp) { vp_corrupt++; break; }
  qbytes -= n; __libc_free(h->raw);
}
void vp_flush_quarantine(void) { for (unsigned i = 0; i < QN; i++) evict(i); }

static void *do_alloc(size_t align, size_t n, int zero) {
  int tr = vp_active;
  if (tr) {
    hook();
    vp_count++; vp_total += n;
    if (n > vp_maxreq) vp_maxreq = n;
    if ((vp_fail_at && vp_count >= vp_fail_at && vp_count - vp_fail_at < vp_fail_len) || (vp_cap && n > vp_cap)) {
      vp_failed++; errno = ENOMEM; return NULL;
    }
  }
  if (n > (size_t)1 << 46) { errno = ENOMEM; return NULL; }
  size_t off = align > sizeof(hdr) ? align : sizeof(hdr);
  void *raw = align > 16 ? __libc_memalign(align, off + n + 8) : __libc_malloc(off + n + 8);
  if (!raw) { errno = ENOMEM; return NULL; }
  char *p = (char *)raw + off; hdr *h = (hdr *)p - 1;
  h->magic = MAG; h->tracked = tr; h->size = n; h->raw = raw;
  if (tr) {
    vp_live++; vp_live_bytes += n; if (vp_live_bytes > vp_peak_bytes) vp_peak_bytes = vp_live_bytes;
    memset(p, zero ? 0 : vp_poison, n); memset(p + n, CAN, 8);
  } else if (zero) memset(p, 0, n);
  return p;
}
static void do_free(void *p) {
  if (!p) return;
  hdr *h = (hdr *)p - 1;
  if (h->magic != MAG) {
    if (h->magic == 0xDEADu) { static const char m[] = "VP: double free\n"; if (write(2, m, sizeof m - 1)) {} abort(); }
    static const char m[] = "VP: free of a bad pointer\n"; if (write(2, m, sizeof m - 1)) {} abort();
  }
  if (!h->tracked) { h->magic = 0; __libc_free(h->raw); return; }
  if (vp_active) hook();
  unsigned char *c = (unsigned char *)p + h->size;
  for (int k = 0; k < 8; k++) if (c[k] != CAN) { vp_corrupt++; break; }
  vp_live--; vp_live_bytes -= h->size;
  h->magic = 0xDEADu; memset(p, vp_fpoison, h->size); h->fp = vp_fpoison;
  if (!vp_quarantine || h->size > (1 << 20)) { __libc_free(h->raw); return; }
  evict(qpos); qring[qpos] = h; qbytes += h->size; qpos = (qpos + 1) % QN;
  unsigned k = qpos; while (qbytes > (2u << 20)) { evict(k); k = (k + 1) % QN; if (k == qpos) break; }
}
void *malloc(size_t n) { return do_alloc(16, n, 0); }
void *calloc(size_t a, size_t b) { size_t n; if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return NULL; } return do_alloc(16, n, 1); }
void free(void *p) { int e = errno; do_free(p); errno = e; }
void *realloc(void *p, size_t n) {
  if (!p) return do_alloc(16, n, 0);
  if (n == 0) { do_free(p); return NULL; }
  hdr *h = (hdr *)p - 1;
  if (h->magic != MAG) { static const char m[] = "VP: realloc of a bad pointer\n"; if (write(2, m, sizeof m - 1)) {} abort(); }
  int sv = vp_active; if (!h->tracked) vp_active = 0;
  void *q = do_alloc(16, n, 0);
  vp_active = sv;
  if (!q) return NULL;
  memcpy(q, p, n < h->size ? n : h->size);
  do_free(p);
  return q;
}
int posix_memalign(void **out, size_t a, size_t n) { void *p = do_alloc(a, n, 0); if (!p) return ENOMEM; *out = p; return 0; }
void *aligned_alloc(size_t a, size_t n) { return do_alloc(a, n, 0); }
void *memalign(size_t a, size_t n) { return do_alloc(a, n, 0); }
size_t malloc_usable_size(void *p) { return p ? ((hdr *)p - 1)->size : 0; }

/* Single steps: after every instruction executed in the library's text the callback is called. */
#include <signal.h>
#include <ucontext.h>
#include <link.h>
static uintptr_t text_lo, text_hi; static void (*step_cb)(void); static volatile int stepping;
uint64_t vp_steps = 0, vp_steps_in = 0;
static int find_text(struct dl_phdr_info *i, size_t n, void *d) {
  (void)n; (void)d; if (!i->dlpi_name || !strstr(i->dlpi_name, "librexpat.so")) return 0;
  for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_LOAD && (i->dlpi_phdr[k].p_flags & PF_X)) { text_lo = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr; text_hi = text_lo + i->dlpi_phdr[k].p_memsz; }
  return 1;
}
static void on_trap(int s, siginfo_t *i, void *u) {
  (void)s; (void)i; ucontext_t *c = u; uintptr_t ip = c->uc_mcontext.gregs[REG_RIP];
  if (!stepping) { c->uc_mcontext.gregs[REG_EFL] &= ~0x100L; return; }
  c->uc_mcontext.gregs[REG_EFL] |= 0x100; vp_steps++;
  if (ip >= text_lo && ip < text_hi) { vp_steps_in++; int e = errno; int sv = vp_active; vp_active = 0; step_cb(); vp_active = sv; errno = e; }
}
int vp_step_on(void (*cb)(void)) {
  if (!text_lo) dl_iterate_phdr(find_text, NULL);
  if (!text_lo) return -1;
  struct sigaction a; memset(&a, 0, sizeof a); a.sa_sigaction = on_trap; a.sa_flags = SA_SIGINFO; sigaction(SIGTRAP, &a, NULL);
  step_cb = cb; stepping = 1; raise(SIGTRAP); return 0;
}
void vp_step_off(void) { stepping = 0; }
