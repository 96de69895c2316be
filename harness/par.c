/*
 * Concurrent scenarios.  The library is compiled with the compiler's thread
 * sanitizer instrumentation, but linked with the hooks below instead of its
 * run-time: they see every access of the library to its own data.  Threads are
 * coroutines, so that a schedule is followed exactly: a switch happens before
 * an access to shared data (or at a clock reading) named by the schedule.
 *
 *   T <n> <line>     a line of thread n (1..)
 *   go <n>:<k> ...   run thread n for k shared accesses ("<n>:r<k>": for k clock
 *                    readings), ...; then every thread to its end
 */
#include <pthread.h>
extern char __data_start[], _end[];
#define PT 4
#define PSTK (1 << 20)
struct pctx {
	ucontext_t uc; int started, done, nlines, live; char *lines[64];
	struct seg *segs; size_t nsegs, csegs, si; uint64_t so, clkval, nread_op, nyr_op;
	char *cbl; size_t cbll, cblc; unsigned cb_last_bits; int cb_last_slot, ncb;
	char *rbuf; size_t rbufl;
};
static struct pctx pc_[PT + 1];
static int pn, par_on, par_learn; static __thread int par_me;
static unsigned char *wmap; /* 8-byte units of the library's data written by the learning run */
static long budget; static int budget_rd;   /* of the current segment */
static struct { int t, rd; long k; } sched[256]; static int nsched, psched;
struct acc { int t, k, size, mo; unsigned off; };
static struct acc *alog; static size_t nalog, calog;
static long nacc[PT + 1];
/* who wrote which byte of the memory blocks */
static long overlap; static int ovl_reg, ovl_off;

#define SAVE(f) c->f = f
static void psave(struct pctx *c)
{
	SAVE(segs); SAVE(nsegs); SAVE(csegs); SAVE(si); SAVE(so); SAVE(clkval); SAVE(nread_op); SAVE(nyr_op);
	SAVE(cbl); SAVE(cbll); SAVE(cblc); SAVE(cb_last_bits); SAVE(cb_last_slot); SAVE(ncb); c->live = par_live;
}
#undef SAVE
#define LOAD(f) f = c->f
static void pload(struct pctx *c)
{
	LOAD(segs); LOAD(nsegs); LOAD(csegs); LOAD(si); LOAD(so); LOAD(clkval); LOAD(nread_op); LOAD(nyr_op);
	LOAD(cbl); LOAD(cbll); LOAD(cblc); LOAD(cb_last_bits); LOAD(cb_last_slot); LOAD(ncb); par_live = c->live;
}
static void pswitch(int to)
{
	int from = par_cur;
	if (to == from) return;
	if (!par_learn) { /* the readings the outgoing thread has taken in its call so far */
		char b[128]; int k = snprintf(b, sizeof(b), "{\"s\":%d,\"op\":\"sw\",\"from\":%d,\"to\":%d,\"nr\":%" PRIu64 "}\n", cur_scn, from, to, par_live ? nread_op : 0);
		if (write(out_fd, b, (size_t)k)) {}
	}
	psave(&pc_[from]); par_cur = to; pload(&pc_[to]);
	swapcontext(&pc_[from].uc, &pc_[to].uc);
}
static int pnext(void) /* thread to run now; 0: all are done */
{
	while (psched < nsched) {
		int t = sched[psched].t;
		if (!pc_[t].done) { budget = sched[psched].k; budget_rd = sched[psched].rd; psched++; if (budget > 0) return t; }
		else psched++;
	}
	budget = -1;
	for (int t = 1; t <= pn; t++) if (!pc_[t].done) return t;
	return 0;
}
static void ppoint(int rd)
{
	if (!par_on || !par_live || par_cur == 0) return;
	if (!rd) nacc[par_cur]++;
	for (;;) {
		int t;
		if (budget < 0) return;
		if (budget > 0) { if (budget_rd == rd) budget--; return; }
		if (budget_rd != rd) return;
		t = pnext();
		if (t != par_cur) pswitch(t); /* back here with a new budget */
	}
}
static void par_reading(void) { if (par_me) ppoint(1); }
static int par_yield(void)
{
	if (!par_on || par_cur == 0) return 0;
	for (int i = 1; i <= pn; i++) { int t = (par_cur + i - 1) % pn + 1; if (t != par_cur && !pc_[t].done) { budget = -1; pswitch(t); return 1; } }
	return 0;
}
static void pentry(void)
{
	struct pctx *c = &pc_[par_cur];
	for (int i = 0; i < c->nlines; i++) {
		char *L = strdup(c->lines[i]);
		exec_line(L); free(L);
	}
	pc_[par_cur].done = 1;
	{ int t = pnext(); par_live = 0; pswitch(t); }
	abort();
}
static void par_run(void)
{
	par_on = 1; psched = 0; budget = -1; nalog = 0;
	for (int t = 1; t <= pn; t++) {
		struct pctx *c = &pc_[t]; void *stk = mmap(NULL, PSTK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
		getcontext(&c->uc); c->uc.uc_stack.ss_sp = stk; c->uc.uc_stack.ss_size = PSTK; c->uc.uc_link = NULL;
		makecontext(&c->uc, pentry, 0);
		c->done = 0; c->live = 0; c->segs = NULL; c->nsegs = c->csegs = c->si = 0; c->so = 0; c->clkval = 1000003;
		c->cbl = NULL; c->cbll = c->cblc = 0; c->ncb = 0; nacc[t] = 0;
	}
	{ int t = pnext(); if (t) pswitch(t); }
	par_on = 0;
}
static void par_line(char *q)
{
	int t, a; if (sscanf(q, "%d%n", &t, &a) != 1 || t < 1 || t > PT) abort();
	if (t > pn) pn = t;
	pc_[t].lines[pc_[t].nlines++] = strdup(q + a);
}
static void par_go(char *q)
{
	char w[32]; int a; pid_t p;
	par_me = 1;
	if (!wmap) wmap = mmap(NULL, (size_t)(_end - __data_start) / 8 + 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	oflush();
	p = fork();
	if (!p) { par_learn = 1; out_fd = open("/dev/null", O_WRONLY); nsched = 0; par_run(); _exit(0); }
	waitpid(p, NULL, 0);
	nsched = 0;
	while (sscanf(q, "%31s%n", w, &a) == 1 && nsched < 256) {
		char *c = strchr(w, ':'); if (!c) abort();
		sched[nsched].t = atoi(w); sched[nsched].rd = c[1] == 'r'; sched[nsched].k = atol(c + 1 + (c[1] == 'r')); nsched++; q += a;
	}
	par_run();
	/* accesses to what was written at all */
	{
		unsigned char *wr = calloc(1, (size_t)(_end - __data_start) / 8 + 8); int first = 1; struct acc last = { -1 };
		for (size_t i = 0; i < nalog; i++) if (alog[i].k == 1 || alog[i].k >= 3) wr[alog[i].off / 8] = 1;
		o("{\"s\":%d,\"op\":\"hb\",\"n\":%d,\"acc\":[%ld,%ld,%ld,%ld],\"ovl\":%ld,\"ovlat\":[%d,%d],\"log\":[", cur_scn, pn, nacc[1], nacc[2], nacc[3], nacc[4], overlap, ovl_reg, ovl_off);
		for (size_t i = 0; i < nalog; i++) {
			struct acc *x = &alog[i];
			if (!wr[x->off / 8] && x->k != 5) continue;
			if (x->t == last.t && x->k == last.k && x->off == last.off && x->k < 2) continue;
			last = *x;
			o("%s[%d,%d,%u,%d,%d]", first ? "" : ",", x->t, x->k, x->off, x->size, x->mo); first = 0;
		}
		o("]}\n"); oflush(); free(wr);
	}
	for (int t = 1; t <= pn; t++) { for (int i = 0; i < pc_[t].nlines; i++) free(pc_[t].lines[i]); pc_[t].nlines = 0; }
	pn = 0;
}

/* ------------------------------------------------------------------ the hooks */
static void access_(void *p, int size, int k, int mo)
{
	unsigned char *a = p;
	if (!par_me || !par_on || par_cur == 0) return;
	if (a >= (unsigned char *)__data_start && a < (unsigned char *)_end) {
		unsigned off = (unsigned)(a - (unsigned char *)__data_start);
		if (par_learn && (k == 1 || k >= 3)) wmap[off / 8] = 1;
		if (k >= 2 || wmap[off / 8]) ppoint(0);
		if (par_learn) return;
		if (nalog == calog) { if (calog > 4000000) return; calog = calog ? calog * 2 : 4096; alog = realloc(alog, calog * sizeof(*alog)); }
		alog[nalog++] = (struct acc){ par_cur, k, size, mo, off };
	} else if ((k == 1 || k >= 3) && !par_learn) {
		struct region *r = find_region(a);
		if (!r) return;
		if (!r->own) r->own = calloc(1, r->len);
		for (int j = 0; j < size && a + j < r->base + r->len; j++) {
			unsigned char *w = &r->own[a + j - r->base];
			if (*w && *w != par_cur) { if (!overlap) { ovl_reg = r->id; ovl_off = (int)(a + j - r->base - r->glo); } overlap++; }
			*w = (unsigned char)par_cur;
		}
	}
}
static void fence_(int mo) { if (par_me && par_on && par_cur && !par_learn && nalog < calog) alog[nalog++] = (struct acc){ par_cur, 5, 0, mo, 0 }; }
void __tsan_init(void) {}
void __tsan_func_entry(void *p) { (void)p; }
void __tsan_func_exit(void) {}
void __tsan_vptr_update(void **a, void *b) { (void)a; (void)b; }
void __tsan_vptr_read(void **a) { (void)a; }
#define RW(n) \
void __tsan_read##n(void *p) { access_(p, n, 0, 0); } \
void __tsan_write##n(void *p) { access_(p, n, 1, 0); } \
void __tsan_unaligned_read##n(void *p) { access_(p, n, 0, 0); } \
void __tsan_unaligned_write##n(void *p) { access_(p, n, 1, 0); } \
void __tsan_volatile_read##n(void *p) { access_(p, n, 0, 0); } \
void __tsan_volatile_write##n(void *p) { access_(p, n, 1, 0); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, unsigned long n) { access_(p, (int)n, 0, 0); }
void __tsan_write_range(void *p, unsigned long n) { access_(p, (int)n, 1, 0); }
#define AT(b, T) \
T __tsan_atomic##b##_load(const T *p, int mo) { access_((void *)p, b / 8, 2, mo); return *(volatile const T *)p; } \
void __tsan_atomic##b##_store(T *p, T v, int mo) { access_(p, b / 8, 3, mo); *(volatile T *)p = v; } \
T __tsan_atomic##b##_exchange(T *p, T v, int mo) { access_(p, b / 8, 4, mo); T x = *p; *p = v; return x; } \
T __tsan_atomic##b##_fetch_add(T *p, T v, int mo) { access_(p, b / 8, 4, mo); T x = *p; *p = (T)(x + v); return x; } \
T __tsan_atomic##b##_fetch_sub(T *p, T v, int mo) { access_(p, b / 8, 4, mo); T x = *p; *p = (T)(x - v); return x; } \
T __tsan_atomic##b##_fetch_and(T *p, T v, int mo) { access_(p, b / 8, 4, mo); T x = *p; *p = x & v; return x; } \
T __tsan_atomic##b##_fetch_or(T *p, T v, int mo) { access_(p, b / 8, 4, mo); T x = *p; *p = x | v; return x; } \
T __tsan_atomic##b##_fetch_xor(T *p, T v, int mo) { access_(p, b / 8, 4, mo); T x = *p; *p = x ^ v; return x; } \
T __tsan_atomic##b##_fetch_nand(T *p, T v, int mo) { access_(p, b / 8, 4, mo); T x = *p; *p = (T)~(x & v); return x; } \
int __tsan_atomic##b##_compare_exchange_strong(T *p, T *e, T v, int mo, int f) { (void)f; access_(p, b / 8, 4, mo); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
int __tsan_atomic##b##_compare_exchange_weak(T *p, T *e, T v, int mo, int f) { return __tsan_atomic##b##_compare_exchange_strong(p, e, v, mo, f); } \
T __tsan_atomic##b##_compare_exchange_val(T *p, T e, T v, int mo, int f) { (void)f; access_(p, b / 8, 4, mo); T x = *p; if (x == e) *p = v; return x; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int mo) { fence_(mo); }
void __tsan_atomic_signal_fence(int mo) { (void)mo; }

/* locks, should the library use any: a waiting thread lets the others run */
static struct { void *m; int held; } lk[64];
static int *lkof(void *m) { for (int i = 0; i < 64; i++) { if (lk[i].m == m) return &lk[i].held; if (!lk[i].m) { lk[i].m = m; return &lk[i].held; } } abort(); }
static void lklog(void *m, int k, int mo)
{
	unsigned char *a = m;
	if (par_me && par_on && par_cur && !par_learn && a >= (unsigned char *)__data_start && a < (unsigned char *)_end) access_(m, 1, k, mo);
}
int jh_pthread_mutex_lock(void *m) { int *h = lkof(m), n = 0; if (par_me) ppoint(0); while (*h) { if (!par_yield() || ++n > 100000) abort(); } *h = 1; lklog(m, 4, 4); return 0; }
int jh_pthread_mutex_trylock(void *m) { int *h = lkof(m); if (*h) return EBUSY; *h = 1; lklog(m, 4, 4); return 0; }
int jh_pthread_mutex_unlock(void *m) { *lkof(m) = 0; lklog(m, 4, 4); return 0; }
int jh_pthread_once(pthread_once_t *oc, void (*fn)(void))
{
	int *h = lkof(oc), n = 0;
	while (*h == 1) { if (!par_yield() || ++n > 100000) abort(); }
	if (!*h) { *h = 1; fn(); *h = 2; lklog(oc, 4, 4); } else lklog(oc, 4, 4);
	return 0;
}
