/*
 * Scenario interpreter: drives the library built from /repo through its public
 * API under a controlled environment (mocked clock, memory, CPU count, cache
 * geometry, FIPS switch, random source, conditioning KATs) and records what
 * can be observed from outside as one JSON object per call.
 *
 * The library's objects are linked into one relocatable object in which the
 * libc entry points listed in redirect.syms are renamed to jh_*, so only calls
 * made by the library reach the stand-ins below.
 *
 * Usage: jh SCRIPT OUT
 */
#define _GNU_SOURCE
#include <assert.h>
#include <errno.h>
#include <fcntl.h>
#include <inttypes.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/random.h>
#include <sys/wait.h>
#include <unistd.h>
#include <ucontext.h>
#include <time.h>

#include "jitterentropy.h"
typedef void (*mock_cb)(void *arg, uint64_t *out);
int jent_set_mock_timer(mock_cb cb, void *arg);

/* ------------------------------------------------------------------ output */
static int out_fd = -1;
static char *ob;
static size_t obl, obc;
static void o(const char *fmt, ...)
{
	va_list ap;
	int n;
	for (;;) {
		va_start(ap, fmt);
		n = vsnprintf(ob + obl, obc - obl, fmt, ap);
		va_end(ap);
		if (n >= 0 && (size_t)n < obc - obl) { obl += (size_t)n; return; }
		obc = obc ? obc * 2 : 1 << 16;
		ob = realloc(ob, obc);
		if (!ob) abort();
	}
}
static void oflush(void)
{
	size_t i = 0;
	while (i < obl) {
		ssize_t w = write(out_fd, ob + i, obl - i);
		if (w <= 0) _exit(97);
		i += (size_t)w;
	}
	obl = 0;
}

/* ------------------------------------------------------------- environment */
static int env_fips, env_ncpu = 1;
static int getrandom_mode; /* 0 normal 1 error 2 short 3 eintr 4 short-then-error */
static int urandom_mode;   /* 0 normal 1 missing 2 short 3 eof 4 eintr */
static unsigned long rnd_ctr;
static unsigned char rnd_log[256]; static size_t rnd_logl;
static int cur_scn;
static char sysfs_root[256]; /* non-empty: redirect /sys/devices/system/cpu */
static long sc_l1 = -1, sc_l2 = -1, sc_l3 = -1, sc_conf = -1; /* sysconf fakes; -1 none */
static int sysfs_hidden = 1;

/* ---------------------------------------------------------------- memory */
struct region { unsigned char *base; size_t len; int live, id, heap;
	size_t glo, ghi; size_t lk_off, lk_len; int locked; size_t dd_off, dd_len; int dontdump; int lockfail;
	unsigned char *snap, *own; };
static struct region regs[65536];
static int nregs, live_regs;
static int mem_log = 0; /* log memory events */
static char *ml; static size_t mll, mlc;
static void mlog(const char *fmt, ...)
{
	va_list ap; int n;
	if (!mem_log) return;
	for (;;) {
		va_start(ap, fmt);
		n = vsnprintf(ml + mll, mlc - mll, fmt, ap);
		va_end(ap);
		if (n >= 0 && (size_t)n < mlc - mll) { mll += (size_t)n; return; }
		mlc = mlc ? mlc * 2 : 1 << 14; ml = realloc(ml, mlc);
	}
}
/* faults: counters count down; n==1 -> fail this one; persistent if *_all */
static long f_mmap, f_mprotect, f_mlock, f_madvise, f_malloc;
static int f_mmap_all, f_mlock_all, f_mlock_errno = EPERM;
static int fault_hits;
static long c_mmap, c_mprotect, c_mlock;
static int bad_mem; /* anomalies seen by the ledger (reported) */

static int rel_n, rel_nz, rel_part; /* blocks released by this op; not zero; not in full */
static int mu[3]; /* worst case at any clock reading: unlocked, unguarded, dumpable blocks */
static struct region *new_region(void)
{
	static int ids; struct region *r = NULL;
	for (int i = 0; i < nregs && !r; i++) if (!regs[i].live) r = &regs[i];
	if (!r) { if (nregs == 65536) abort(); r = &regs[nregs++]; }
	memset(r, 0, sizeof(*r)); r->live = 1; r->id = ++ids; live_regs++;
	return r;
}
static void mem_state(int u[3])
{
	u[0] = u[1] = u[2] = 0;
	for (int i = 0; i < nregs; i++) if (regs[i].live) {
		struct region *r = &regs[i];
		size_t pay = r->len - r->glo - r->ghi;
		if (!(r->locked && r->lk_off <= r->glo && r->lk_off + ((r->lk_len + 4095) & ~(size_t)4095) >= r->glo + pay)) u[0]++;
		if (!(r->glo > 0 && r->ghi > 0)) u[1]++;
		if (!(r->dontdump && r->dd_off <= r->glo && r->dd_off + ((r->dd_len + 4095) & ~(size_t)4095) >= r->glo + pay)) u[2]++;
	}
}
static struct region *find_region(const void *p)
{
	for (int i = nregs - 1; i >= 0; i--)
		if (regs[i].live && (const unsigned char *)p >= regs[i].base &&
		    (const unsigned char *)p < regs[i].base + regs[i].len)
			return &regs[i];
	return NULL;
}
static int region_zero(struct region *r)
{
	for (size_t i = r->glo; i < r->len - r->ghi; i++)
		if (r->base[i]) return 0;
	return 1;
}
void *jh_mmap(void *a, size_t len, int prot, int fl, int fd, off_t off)
{
	void *p;
	c_mmap++;
	if (f_mmap_all || (f_mmap && --f_mmap == 0)) {
		fault_hits++; mlog("[\"mf\"],"); errno = ENOMEM; return MAP_FAILED;
	}
	p = mmap(a, len, prot, fl, fd, off);
	if (p == MAP_FAILED) { mlog("[\"mf\"],"); return p; }
	struct region *r = new_region();
	r->base = p; r->len = len;
	mlog("[\"m\",%d,%zu],", r->id, len);
	return p;
}
void *jh_mmap64(void *a, size_t len, int prot, int fl, int fd, off_t off) { return jh_mmap(a, len, prot, fl, fd, off); }
int jh_munmap(void *p, size_t len)
{
	struct region *r = find_region(p);
	int full, zero;
	if (!r || r->heap) { bad_mem++; mlog("[\"ux\"],"); return munmap(p, len); }
	full = (unsigned char *)p == r->base && len == r->len;
	zero = region_zero(r);
	mlog("[\"u\",%d,%d,%d],", r->id, full, zero);
	rel_n++; rel_nz += !zero; rel_part += !full;
	if (full) { r->live = 0; live_regs--; }
	return munmap(p, len);
}
int jh_mprotect(void *p, size_t len, int prot)
{
	struct region *r = find_region(p);
	c_mprotect++;
	if (f_mprotect && --f_mprotect == 0) { fault_hits++; mlog("[\"pf\",%d],", r ? r->id : 0); errno = ENOMEM; return -1; }
	if (r && prot == PROT_NONE) {
		if ((unsigned char *)p == r->base && len < r->len) r->glo = len;
		else if ((unsigned char *)p + len == r->base + r->len) r->ghi = len;
	} else if (r) {
		if ((unsigned char *)p == r->base) r->glo = 0;
		if ((unsigned char *)p + len == r->base + r->len) r->ghi = 0;
	}
	return mprotect(p, len, prot);
}
static int do_lock(const void *p, size_t len)
{
	struct region *r = find_region(p);
	c_mlock++;
	if (f_mlock_all || (f_mlock && --f_mlock == 0)) {
		fault_hits++; if (r) r->lockfail = 1;
		mlog("[\"lf\",%d,%d],", r ? r->id : 0, f_mlock_errno);
		errno = f_mlock_errno; return -1;
	}
	/* simulated: the real lock might be refused by the sandbox's limits */
	if (r) { r->locked = 1; r->lk_off = (size_t)((const unsigned char *)p - r->base); r->lk_len = len; }
	return 0;
}
int jh_mlock(const void *p, size_t len) { return do_lock(p, len); }
int jh_mlock2(const void *p, size_t len, unsigned f) { (void)f; return do_lock(p, len); }
int jh_munlock(const void *p, size_t len)
{
	struct region *r = find_region(p); (void)len;
	if (r) r->locked = 0;
	return 0;
}
int jh_madvise(void *p, size_t len, int adv)
{
	struct region *r = find_region(p);
	if (f_madvise && --f_madvise == 0) { fault_hits++; errno = EINVAL; return -1; }
	if (r && adv == MADV_DONTDUMP) { r->dontdump = 1; r->dd_off = (size_t)((unsigned char *)p - r->base); r->dd_len = len; }
	else if (r && adv == MADV_DODUMP) r->dontdump = 0;
	return madvise(p, len, adv);
}
void *jh_malloc(size_t n)
{
	void *p;
	if (f_malloc && --f_malloc == 0) { fault_hits++; errno = ENOMEM; return NULL; }
	p = malloc(n);
	if (p) {
		struct region *r = new_region();
		r->base = p; r->len = n; r->heap = 1;
		mlog("[\"h\",%d,%zu],", r->id, n);
	}
	return p;
}
void *jh_calloc(size_t a, size_t b)
{
	void *p = jh_malloc(a * b);
	if (p) memset(p, 0, a * b);
	return p;
}
void jh_free(void *p)
{
	struct region *r;
	if (!p) return;
	r = find_region(p);
	if (!r || !r->heap || r->base != p) { bad_mem++; mlog("[\"fx\"],"); return; }
	rel_n++; rel_nz += !region_zero(r);
	mlog("[\"f\",%d,1,%d],", r->id, region_zero(r));
	r->live = 0; live_regs--;
	free(p);
}
void *jh_realloc(void *p, size_t n)
{
	void *q = jh_malloc(n);
	if (q && p) { struct region *r = find_region(p); memcpy(q, p, r && r->len < n ? r->len : n); jh_free(p); }
	return q;
}

/* ------------------------------------------------------------ other libc */
static int rnd_fd = -1;
/* described caches: type, level and size attribute, "-" where there is none */
static struct { int cpu, idx; char a[3][48]; } ents[64]; static int nents;
static int cache_attr(const char *rest)
{
	static const char *an[3] = { "type", "level", "size" };
	int cpu, idx, i, k, p[2]; char name[32];
	if (sscanf(rest, "/cpu%d/cache/index%d/%31s", &cpu, &idx, name) == 3)
		for (i = 0; i < nents; i++)
			for (k = 0; k < 3; k++)
				if (ents[i].cpu == cpu && ents[i].idx == idx && !strcmp(name, an[k]) && strcmp(ents[i].a[k], "-")) {
					if (pipe(p)) return -1;
					if (write(p[1], ents[i].a[k], strlen(ents[i].a[k])) < 0 || write(p[1], "\n", 1) != 1) return -1;
					close(p[1]);
					return p[0];
				}
	errno = ENOENT;
	return -1;
}
static int map_path(const char *path, char *buf, size_t n)
{
	const char *sys = "/sys/devices/system/cpu";
	if (!strcmp(path, "/proc/sys/crypto/fips_enabled")) {
		int p[2];
		if (env_fips < 0) { errno = ENOENT; return -1; }
		if (pipe(p)) return -1;
		if (env_fips != 2) /* 2: empty file */
			if (write(p[1], env_fips ? "1\n" : "0\n", 2) != 2) return -1;
		close(p[1]);
		return p[0];
	}
	if (!strcmp(path, "/dev/urandom")) {
		if (urandom_mode == 1) { errno = ENOENT; return -1; }
		rnd_fd = open("/dev/zero", O_RDONLY);
		return rnd_fd;
	}
	if (!strncmp(path, sys, strlen(sys))) {
		if (nents) return cache_attr(path + strlen(sys));
		if (sysfs_hidden && !sysfs_root[0]) { errno = ENOENT; return -1; }
		if (sysfs_root[0]) {
			snprintf(buf, n, "%s%s", sysfs_root, path + strlen(sys));
			return open(buf, O_RDONLY);
		}
	}
	return -2;
}
int jh_open(const char *path, int fl, ...)
{
	char b[1024]; int r = map_path(path, b, sizeof(b));
	if (r != -2) return r;
	if (fl & (O_CREAT | O_WRONLY | O_RDWR)) { errno = EACCES; return -1; }
	return open(path, fl);
}
int jh_open64(const char *path, int fl, ...) { return jh_open(path, fl); }
int jh_openat(int d, const char *path, int fl, ...) { (void)d; return jh_open(path, fl); }
FILE *jh_fopen(const char *path, const char *m)
{
	int fd = jh_open(path, O_RDONLY);
	return fd < 0 ? NULL : fdopen(fd, m);
}
FILE *jh_fopen64(const char *path, const char *m) { return jh_fopen(path, m); }
static unsigned char rnd_byte(void)
{
	unsigned long x = ++rnd_ctr * 0x9E3779B97F4A7C15UL + (unsigned long)cur_scn * 0xD1B54A32D192ED03UL;
	x ^= x >> 29; x *= 0xBF58476D1CE4E5B9UL; x ^= x >> 32;
	return (unsigned char)x;
}
static ssize_t rnd_fill(unsigned char *b, size_t n)
{
	for (size_t i = 0; i < n; i++) { b[i] = rnd_byte(); if (rnd_logl < sizeof(rnd_log)) rnd_log[rnd_logl++] = b[i]; }
	return (ssize_t)n;
}
ssize_t jh_getrandom(void *b, size_t n, unsigned fl)
{
	static int st; (void)fl; st++;
	switch (getrandom_mode) {
	case 1: errno = ENOSYS; return -1;
	case 2: return rnd_fill(b, n > 5 ? 5 : n);
	case 3: if (st % 3) { errno = EINTR; return -1; } return rnd_fill(b, n);
	case 4: if (st % 2 == 0) { errno = EAGAIN; return -1; } return rnd_fill(b, n > 7 ? 7 : n);
	default: return rnd_fill(b, n);
	}
}
int jh_getentropy(void *b, size_t n) { if (getrandom_mode == 1) { errno = ENOSYS; return -1; } rnd_fill(b, n); return 0; }
ssize_t jh_read(int fd, void *b, size_t n)
{
	static int st;
	if (fd >= 0 && fd == rnd_fd) {
		st++;
		switch (urandom_mode) {
		case 2: return rnd_fill(b, n > 3 ? 3 : n);
		case 3: if (st % 2 == 0) return 0; return rnd_fill(b, n > 3 ? 3 : n);
		case 4: if (st % 3) { errno = EINTR; return -1; } return rnd_fill(b, n);
		default: return rnd_fill(b, n);
		}
	}
	return read(fd, b, n);
}
int jh_close(int fd) { if (fd == rnd_fd) rnd_fd = -1; return close(fd); }
long jh_sysconf(int name)
{
	switch (name) {
	case _SC_LEVEL1_DCACHE_SIZE: return sc_l1;
	case _SC_LEVEL2_CACHE_SIZE: return sc_l2;
	case _SC_LEVEL3_CACHE_SIZE: return sc_l3;
	case _SC_NPROCESSORS_CONF: if (sc_conf >= -1) return sc_conf == -1 ? 8 : sc_conf; break;
	case _SC_NPROCESSORS_ONLN: return env_ncpu;
	}
	return sysconf(name);
}
int jh_sched_getaffinity(pid_t p, size_t sz, cpu_set_t *set)
{
	(void)p;
	if (env_ncpu < 0) { errno = EPERM; return -1; }
	CPU_ZERO_S(sz, set);
	for (int i = 0; i < env_ncpu; i++) CPU_SET_S((size_t)i, sz, set);
	return 0;
}
static int pin_cpu = -1; /* CPU the counting thread pinned itself to */
int jh_sched_setaffinity(pid_t p, size_t sz, const cpu_set_t *set)
{
	(void)p; pin_cpu = -1;
	for (size_t i = 0; i < sz * 8; i++) if (CPU_ISSET_S(i, sz, set)) { pin_cpu = (int)i; break; }
	return 0;
}

/* ---------------------------------------------------------------- the clock */
struct seg { char t; uint64_t n, v; uint32_t a, b, m; };
static struct seg *segs; static size_t nsegs, csegs, si;
static uint64_t so, clkval; static uint64_t nread_op, nread_limit = 4000000;
static uint64_t at_n; static int at_slot = -2; /* at reading at_n of this op: failing self test on slot */
static void hang(void);
#ifdef JH_PAR
static void par_reading(void);
#endif
static uint32_t P5(uint64_t k, uint32_t b, uint32_t m)
{
	uint64_t x = k % m, y = x * x % m;
	y = y * y % m; y = y * x % m;
	return (uint32_t)(y * b % m);
}
static void clock_next(void)
{
	struct seg *s;
	while (si < nsegs && so >= segs[si].n) { si++; so = 0; }
	if (si >= nsegs) { /* default noise for ever */
		clkval += 60013 + (uint64_t)P5(so + 1, 7, 30011) - P5(so, 7, 30011); so++;
		return;
	}
	s = &segs[si];
	if (s->t == 's') clkval += s->v;
	else clkval += s->a + (uint64_t)P5(so + 1, s->b, s->m) - P5(so, s->b, s->m);
	so++;
}
static void at_action(void);
static void clock_step(void)
{
	if (++nread_op > nread_limit) hang();
#ifdef JH_PAR
	par_reading();
#endif
	if (at_slot != -2 && nread_op == at_n) at_action();
	if (mem_log) { int u[3]; mem_state(u); for (int i = 0; i < 3; i++) if (u[i] > mu[i]) mu[i] = u[i]; }
	clock_next();
}
static void clock_cb(void *arg, uint64_t *out) { (void)arg; clock_step(); *out = clkval; }

/* ------------------------------------------------- the internal timer's thread */
/*
 * The counting thread is stood in for: its routine runs for real only while
 * it is started (it must count, which also tells where) and when it is
 * stopped (it must end by itself).  In between the counter is advanced by the
 * programmed clock whenever a reader waits for it to move.
 */
#define NTH 64
static int par_cur; /* thread of a concurrent scenario (0: the only one) */
static struct nth { int used, run, id, ecid, owner; void *(*routine)(void *); unsigned char *ec; volatile uint64_t *word; } nth[NTH];
static int nth_ids, ctx_ids;
static long f_tstart, f_tinit; static int f_tstart_all, f_tinit_all, th_hits;
static uint64_t nyr_op; static int thbad; /* readings from the counter in this op; protocol breaches seen here */
static char thl[1 << 16]; static size_t thll;
static void thlog(const char *fmt, ...)
{
	va_list ap;
	if (thll + 64 > sizeof(thl)) return;
	va_start(ap, fmt); thll += (size_t)vsnprintf(thl + thll, 64, fmt, ap); va_end(ap);
}
struct runarg { void *(*routine)(void *); void *arg; volatile int done; };
static void *run_for_real(void *v)
{
	struct runarg *r = v;
	pthread_setcanceltype(PTHREAD_CANCEL_ASYNCHRONOUS, NULL);
	r->routine(r->arg);
	r->done = 1;
	return NULL;
}
static uint64_t now_us(void) { struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); return (uint64_t)ts.tv_sec * 1000000 + (uint64_t)ts.tv_nsec / 1000; }
static int th_start(void *(*routine)(void *), void *arg, struct nth **res)
{
	struct region *r = find_region(arg); struct nth *n = NULL; struct runarg ra = { routine, arg, 0 }; pthread_t t;
	size_t words; uint64_t *snap, t0; volatile uint64_t *w = NULL;
	for (int i = 0; i < NTH && !n; i++) if (!nth[i].used) n = &nth[i];
	if (!n || !r) { thbad |= 1; return -1; }
	words = ((size_t)(r->base + r->len - r->ghi - (unsigned char *)arg)) / 8;
	snap = malloc(words * 8); memcpy(snap, arg, words * 8);
	pin_cpu = -1;
	if (pthread_create(&t, NULL, run_for_real, &ra)) abort();
	for (t0 = now_us(); !w && now_us() - t0 < 10000000 && !ra.done;)
		for (size_t i = 0; i < words; i++) if (((volatile uint64_t *)arg)[i] != snap[i]) { w = (volatile uint64_t *)arg + i; break; }
	if (w) { /* a counter moves again and again */
		uint64_t a = *w; w = NULL;
		for (t0 = now_us(); !w && now_us() - t0 < 10000000 && !ra.done;)
			for (size_t i = 0; i < words; i++) { volatile uint64_t *x = (volatile uint64_t *)arg + i; if (*x != snap[i] && *x > snap[i] + 1 && *x != a) { w = x; break; } }
	}
	if (!w) thbad |= 2;
	pthread_cancel(t); pthread_join(t, NULL);
	if (w) memcpy(arg, snap, words * 8);
	free(snap);
	n->used = n->run = 1; n->routine = routine; n->ec = arg; n->word = w; n->ecid = r->id; n->id = ++nth_ids; n->owner = par_cur;
	*res = n;
	return 0;
}
static void th_stop(struct nth *n)
{
	struct runarg ra = { n->routine, n->ec, 0 }; pthread_t t; uint64_t t0;
	if (find_region(n->ec)) { /* the collector must still be there */
		if (pthread_create(&t, NULL, run_for_real, &ra)) abort();
		for (t0 = now_us(); now_us() - t0 < 10000000 && !ra.done;) usleep(20);
		if (!ra.done) thbad |= 4; /* was not told to end */
		pthread_cancel(t); pthread_join(t, NULL);
	} else thbad |= 8;
	n->used = n->run = 0;
}
int jh_sched_yield(void)
{
	static int idle; int any = 0;
	clock_step(); nyr_op++;
	for (int i = 0; i < NTH; i++) if (nth[i].used && nth[i].run && nth[i].word && nth[i].owner == par_cur) { *nth[i].word = clkval; any = 1; }
	if (!any && ++idle > 1000) { /* nobody counts: the reader would wait for ever */
		char b[128]; int k = snprintf(b, sizeof(b), "{\"s\":%d,\"op\":\"crash\",\"sig\":-1}\n", cur_scn);
		obl = 0; if (write(out_fd, b, (size_t)k)) {} _exit(0);
	}
	return 0;
}
int jh_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*routine)(void *), void *arg)
{
	struct nth *n = NULL; (void)a;
	if (f_tstart_all || (f_tstart && --f_tstart == 0)) { th_hits++; thlog("[\"s\",0,0,0],"); return EAGAIN; }
	if (th_start(routine, arg, &n)) return EAGAIN;
	thlog("[\"S\",%d,%d],", n->id, n->ecid);
	*t = (pthread_t)(uintptr_t)n;
	return 0;
}
int jh_pthread_join(pthread_t t, void **ret)
{
	struct nth *n = (struct nth *)(uintptr_t)t; (void)ret;
	if (n < nth || n >= nth + NTH || !n->used) { thlog("[\"P\",0,0],"); return EINVAL; }
	thlog("[\"P\",%d,%d],", n->id, n->ecid);
	th_stop(n);
	return 0;
}
/* guarded output buffer */
static unsigned char *gb_alloc(size_t len, unsigned char **base, size_t *tot)
{
	size_t pg = 4096, pay = ((len + 64 + pg - 1) / pg) * pg;
	*tot = pay + 2 * pg;
	*base = mmap(NULL, *tot, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	if (*base == MAP_FAILED) abort();
	mprotect(*base, pg, PROT_NONE);
	mprotect(*base + pg + pay, pg, PROT_NONE);
	return *base + pg + pay - len;
}
/* handlers registered by the caller */
struct ectx { int id; struct nth *n; };
static int nt_init(void **ctx)
{
	struct ectx *c;
	if (f_tinit_all || (f_tinit && --f_tinit == 0)) { th_hits++; thlog("[\"i\",0,0],"); return -ENOMEM; }
	unsigned char *gbase; size_t gtot; /* opaque: nothing may be read beyond it */
	c = (struct ectx *)gb_alloc(sizeof(*c), &gbase, &gtot); c->id = ++ctx_ids; thlog("[\"i\",%d,1],", c->id); *ctx = c;
	return 0;
}
static void nt_fini(void *ctx) { struct ectx *c = ctx; thlog("[\"f\",%d,0],", c ? c->id : 0); }
static int nt_start(void *ctx, void *(*routine)(void *), void *arg)
{
	struct ectx *c = ctx; struct nth *n = NULL;
	if (f_tstart_all || (f_tstart && --f_tstart == 0)) { th_hits++; thlog("[\"s\",%d,0],", c ? c->id : 0); return -EAGAIN; }
	thlog("[\"s\",%d,1],", c ? c->id : 0);
	if (!c || c->n || th_start(routine, arg, &n)) { thbad |= 16; return 0; }
	c->n = n;
	return 0;
}
static void nt_stop(void *ctx)
{
	struct ectx *c = ctx; thlog("[\"p\",%d,0],", c ? c->id : 0);
	if (c && c->n) { th_stop(c->n); c->n = NULL; }
}
struct jent_notime_thread jh_nt = { nt_init, nt_fini, nt_start, nt_stop };

/* --------------------------------------------------- conditioning sabotage */
/* known answers (and one round constant run) as stored by the library, here
 * complemented so that the harness's own copy is not found */
static const unsigned char pat_c[3][24] = {
	{ 0xF1^255,0x6E^255,0x66^255,0xC0^255,0x43^255,0x72^255,0xB4^255,0xA3^255 },
	{ 0x51^255,0xe4^255,0x3c^255,0xf6^255,0x4b^255,0xa2^255,0x80^255,0x77^255 },
	{ 0xfe,0xff,0xff,0xff,0xff,0xff,0xff,0xff, 0x7d,0x7f,0xff,0xff,0xff,0xff,0xff,0xff,
	  0x75,0x7f,0xff,0xff,0xff,0xff,0xff,0x7f } };
static const size_t pat_n[3] = { 8, 8, 24 };
static int kat_broken[3];
static unsigned char *kat_at[3][16]; static int kat_n[3], kat_scanned;
static void kat_scan(void)
{
	FILE *f = fopen("/proc/self/maps", "r"); char line[512];
	kat_scanned = 1;
	if (!f) return;
	while (fgets(line, sizeof(line), f)) {
		unsigned long a, b; char perm[8], path[400] = "";
		if (sscanf(line, "%lx-%lx %7s %*s %*s %*s %399[^\n]", &a, &b, perm, path) < 3) continue;
		if (perm[0] != 'r' || !strstr(path, "/jh")) continue;
		for (int w = 0; w < 3; w++) {
			unsigned char key[24];
			for (size_t i = 0; i < pat_n[w]; i++) key[i] = (unsigned char)~pat_c[w][i];
			for (unsigned char *p = (unsigned char *)a; p + pat_n[w] <= (unsigned char *)b;) {
				unsigned char *q = memmem(p, (size_t)((unsigned char *)b - p), key, pat_n[w]);
				if (!q) break;
				if (kat_n[w] < 16) {
					unsigned long pg = (unsigned long)q & ~4095UL;
					mprotect((void *)pg, 8192 > b - pg ? b - pg : 8192, PROT_READ | PROT_WRITE | (perm[2] == 'x' ? PROT_EXEC : 0));
					kat_at[w][kat_n[w]++] = q + 1;
				}
				p = q + 1;
			}
		}
	}
	fclose(f);
}
/* which: 0 sha3 KAT, 1 xdrbg KAT, 2 keccak constant; toggles. */
static int kat_toggle(int w)
{
	if (!kat_scanned) kat_scan();
	for (int i = 0; i < kat_n[w]; i++) *kat_at[w][i] ^= 0x40;
	kat_broken[w] ^= 1;
	return kat_n[w];
}

/* ---------------------------------------------------------------- interpreter */
#define NSLOT 8
static struct rand_data *slot[NSLOT];
static int slot_of(struct rand_data *ec)
{
	for (int i = 0; i < NSLOT; i++) if (slot[i] && slot[i] == ec) return i;
	return -1;
}
static char *cbl; static size_t cbll, cblc; static unsigned cb_last_bits; static int cb_last_slot = -9, ncb;
static int cb_selftest, in_cb;
static void cb_note(struct rand_data *ec, unsigned int bits, int off)
{
	int s = slot_of(ec) + off;
	ncb++;
	if (s == cb_last_slot && bits == cb_last_bits) goto act;
	cb_last_slot = s; cb_last_bits = bits;
	if (cbll + 64 > cblc) { cblc = cblc ? cblc * 2 : 4096; cbl = realloc(cbl, cblc); }
	cbll += (size_t)sprintf(cbl + cbll, "[%d,%u],", s, bits);
act:
	if (cb_selftest && slot_of(ec) >= 0 && !in_cb) { in_cb = 1; jent_selftest(ec); in_cb = 0; }
}
static void cb(struct rand_data *ec, unsigned int bits) { cb_note(ec, bits, 0); }
static void cb2(struct rand_data *ec, unsigned int bits) { cb_note(ec, bits, 50); }
static void at_action(void)
{
	int s = at_slot, broken = kat_broken[0] || kat_broken[1] || kat_broken[2];
	at_slot = -2;
	if (!broken && !kat_toggle(0)) { obl = 0; o("{\"s\":%d,\"op\":\"kat\",\"nokat\":1}\n", cur_scn); oflush(); _exit(0); }
	if (s >= 0 && slot[s]) jent_selftest(slot[s]);
	else jent_selftest(NULL);
	if (!broken) kat_toggle(0);
}
static int st_on = 1; /* attach status of the slot to each op record */
static void jstr(const char *s)
{
	o("\"");
	for (; *s; s++) {
		if (*s == '\n') o("\\n"); else if (*s == '\t') o("\\t");
		else if (*s == '"' || *s == '\\') o("\\%c", *s);
		else if ((unsigned char)*s < 32) o("\\u%04x", *s);
		else o("%c", *s);
	}
	o("\"");
}
static void op_begin(void)
{
	nread_op = 0; cbll = 0; ncb = 0; cb_last_slot = -9; cb_last_bits = 0; mll = 0; fault_hits = 0; rnd_logl = 0;
	c_mmap = c_mprotect = c_mlock = 0;
	rel_n = rel_nz = rel_part = 0; memset(mu, 0, sizeof(mu));
	nyr_op = 0; thll = 0; thbad = 0; th_hits = 0; pin_cpu = -1;
}
static void op_tail(int s)
{
	at_slot = -2;
#ifdef JH_PAR
	o(",\"t\":%d", par_cur);
#endif
	o(",\"nrd\":%" PRIu64 ",\"cb\":[%.*s],\"ncb\":%d,\"live\":%d,\"fh\":%d,\"badmem\":%d",
	  nread_op, (int)(cbll ? cbll - 1 : 0), cbl ? cbl : "", ncb, live_regs, fault_hits, bad_mem);
	{ int u[3]; mem_state(u); o(",\"rel\":[%d,%d,%d],\"ru\":[%d,%d,%d],\"mu\":[%d,%d,%d]", rel_n, rel_nz, rel_part, u[0], u[1], u[2], mu[0], mu[1], mu[2]); }
	o(",\"nyr\":%" PRIu64 ",\"th\":[%.*s],\"thbad\":%d,\"thh\":%d,\"pin\":%d", nyr_op, (int)(thll ? thll - 1 : 0), thl, thbad, th_hits, pin_cpu);
	if (mem_log) {
		o(",\"mem\":[%.*s]", (int)(mll ? mll - 1 : 0), ml ? ml : "");
		o(",\"regs\":["); int first = 1;
		for (int i = 0; i < nregs; i++) if (regs[i].live) { struct region *r = &regs[i];
			o("%s[%d,%zu]", first ? "" : ",", r->id, r->len - r->glo - r->ghi); first = 0; }
		o("],\"mb\":["); first = 1;
		for (int i = 0; i < nregs; i++) if (regs[i].live) { struct region *r = &regs[i];
			size_t pay = r->len - r->glo - r->ghi, sum = 0, nz = 0; int got = 0;
			if (r->heap || pay < 65536 || pay > (9u << 20)) continue;
			for (int q = 0; q < 16; q++) { size_t n0 = nz;
				for (size_t x = pay / 16 * (size_t)q; x < (q == 15 ? pay : pay / 16 * (size_t)(q + 1)); x++) { unsigned char v = r->base[r->glo + x]; sum += v; nz += !!v; }
				got += nz != n0; }
			o("%s[%zu,%zu,%zu,%d]", first ? "" : ",", pay, sum, nz, got); first = 0; }
		o("],\"cnt\":[%ld,%ld,%ld]", c_mmap, c_mprotect, c_mlock);
	}
	if (s >= 0 && s < NSLOT && slot[s] && st_on) {
		static char big[16384];
		int r; uint64_t keep = nread_op;
		r = jent_status(slot[s], big, sizeof(big));
		nread_op = keep;
		o(",\"str\":%d,\"st\":", r); jstr(big);
	}
	o("}\n");
	oflush();
}
#ifdef JH_PAR
static int par_live; static void par_reading(void); static int par_yield(void);
#endif
static void hang(void)
{
	obl = 0; o("{\"s\":%d,\"op\":\"hang\",\"hang\":1}\n", cur_scn); oflush(); _exit(0);
}
static void on_sig(int sig)
{
	obl = 0; /* partial record dropped */
	char b[128]; int n = snprintf(b, sizeof(b), "{\"s\":%d,\"op\":\"crash\",\"sig\":%d}\n", cur_scn, sig);
	if (write(out_fd, b, (size_t)n)) {}
	_exit(0);
}
static void fl(unsigned f) { o("\"fb\":%u,\"hl\":%u,\"ms\":%u", f & 0xffffffU, (f >> 24) & 7U, f >> 27); }

static int dual, want_out;
/* stack-residue scanning */
static int scan_on;
static unsigned char *altstk; static size_t altsz = 512 * 1024;
static ucontext_t uc_main, uc_op;
static void (*op_fn)(void);
static void uc_entry(void) { op_fn(); }
static void run_op(void (*fn)(void))
{
#ifdef JH_PAR
	par_live++; fn(); par_live--; return;
#endif
	if (!scan_on) { fn(); return; }
	if (!altstk) {
		altstk = mmap(NULL, altsz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
		if (altstk == MAP_FAILED) abort();
	}
	memset(altstk, 0, altsz);
	getcontext(&uc_op);
	uc_op.uc_stack.ss_sp = altstk; uc_op.uc_stack.ss_size = altsz; uc_op.uc_link = &uc_main;
	op_fn = fn;
	makecontext(&uc_op, uc_entry, 0);
	swapcontext(&uc_main, &uc_op);
}
/* stretches of at least 16 bytes without four zero bytes in a row */
static void runs(const unsigned char *p, size_t n, int *first)
{
	size_t i = 0;
	while (i < n) {
		size_t st, z = 0, e;
		while (i < n && !p[i]) i++;
		for (st = i; i < n && z < 4; i++) z = p[i] ? 0 : z + 1;
		e = i - z;
		if (e - st < 16) continue;
		o("%s[", *first ? "" : ","); *first = 0;
		for (size_t k = st; k < e; k++) o("%s%u", k == st ? "" : ",", p[k]);
		o("]");
	}
}
/* what the call left on its stack and in the library's own small blocks; whether
 * a delivered block is in any of the large ones */
static int regions_contain(const unsigned char *nd, size_t nn)
{
	int h = 0;
	for (int i = 0; i < nregs; i++) if (regs[i].live)
		for (size_t w = 0; w + 16 <= nn; w += 8)
			if (memmem(regs[i].base + regs[i].glo, regs[i].len - regs[i].glo - regs[i].ghi, nd + w, 16)) h++;
	return h;
}
static void residue(const unsigned char *out, ssize_t n)
{
	int first = 1;
	if (!scan_on) return;
	o(",\"sk\":["); runs(altstk, altsz, &first); o("]");
	first = 1; o(",\"rk\":[");
	for (int i = 0; i < nregs; i++)
		if (regs[i].live && regs[i].len - regs[i].glo - regs[i].ghi <= 16384)
			runs(regs[i].base + regs[i].glo, regs[i].len - regs[i].glo - regs[i].ghi, &first);
	o("],\"ro\":%d", n >= 16 ? regions_contain(out, (size_t)n) : 0);
}

static int g_s; static size_t g_len; static unsigned char *g_buf; static ssize_t g_ret; static unsigned g_osr, g_flags; static int g_ir;
static struct rand_data *g_ec;
static void fn_read(void) { g_ret = jent_read_entropy(g_s < 0 ? NULL : slot[g_s], (char *)g_buf, g_len); }
static void fn_safe(void) { g_ret = jent_read_entropy_safe(g_s < 0 ? NULL : &slot[g_s], (char *)g_buf, g_len); }
static void fn_alloc(void) { g_ec = jent_entropy_collector_alloc(g_osr, g_flags); }
static void fn_free(void) { jent_entropy_collector_free(g_ec); }
static void fn_self(void) { g_ir = jent_selftest(g_s < 0 ? NULL : slot[g_s]); }
static void fn_init(void) { g_ir = jent_entropy_init(); }
static void fn_initex(void) { g_ir = jent_entropy_init_ex(g_osr, g_flags); }

static void do_read(int s, size_t len, int safe, int nullbuf)
{
	unsigned char *base = NULL, *buf = NULL, *obuf = NULL; size_t tot = 0;
	int unw = 0, before = 0, changed = 0; size_t hi = 0;
	struct rand_data *old = s >= 0 ? slot[s] : NULL;
	size_t alen = len > (1 << 20) ? 64 : len;
	buf = gb_alloc(alen, &base, &tot);
	memset(base + 4096, 0xC3, tot - 8192);
	if (dual && s >= 0 && !nullbuf) {
		int p[2]; pid_t c;
		if (pipe(p)) abort();
		c = fork();
		if (!c) {
			memset(buf, 0x5A, alen);
			g_s = s; g_len = len; g_buf = buf;
			(safe ? fn_safe : fn_read)();
			size_t i = 0; while (i < alen) { ssize_t w = write(p[1], buf + i, alen - i); if (w <= 0) break; i += (size_t)w; }
			_exit(0);
		}
		close(p[1]);
		obuf = calloc(1, alen + 1);
		size_t i = 0; for (;;) { ssize_t r = read(p[0], obuf + i, alen - i); if (r <= 0) break; i += (size_t)r; }
		close(p[0]); waitpid(c, NULL, 0);
	}
	memset(buf, 0xA5, alen);
	g_s = s; g_len = len; g_buf = nullbuf ? NULL : buf;
	run_op(safe ? fn_safe : fn_read);
	for (unsigned char *q = base + 4096; q < buf; q++) if (*q != 0xC3) before++;
	for (size_t i = 0; i < alen; i++) { if (buf[i] != 0xA5) changed++; if (buf[i] != 0xA5 && buf[i]) hi = i + 1; }
	if (obuf && g_ret > 0) for (size_t i = 0; i < alen; i++) if (buf[i] == 0xA5 && obuf[i] == 0x5A) unw++;
	o("{\"s\":%d,\"op\":\"%s\",\"slot\":%d,\"len\":%zu,\"nullbuf\":%d,\"ret\":%zd,\"before\":%d,\"unw\":%d,\"wrote\":%d,\"hi\":%zu,\"dual\":%d,\"same\":%d,\"nul\":%d",
	  cur_scn, safe ? "safe" : "read", s, len > 2000000000 ? (size_t)2000000000 : len, nullbuf, g_ret, before, unw, changed, hi, obuf != NULL,
	  s >= 0 && slot[s] == old, s < 0 || !slot[s]);
	residue(buf, g_ret > (ssize_t)alen ? (ssize_t)alen : g_ret);
	if (want_out && g_ret > 0) {
		o(",\"out\":[");
		for (ssize_t i = 0; i < g_ret; i++) o("%s%u", i ? "," : "", buf[i]);
		o("]");
	}
	op_tail(s);
	if (obuf) free(obuf);
	munmap(base, tot);
}

#ifdef JH_PAR
static void par_line(char *q);
static void par_go(char *q);
#endif
static void exec_line(char *L)
{
		char *q = L; char op[32] = ""; int adv = 0;
		if (sscanf(L, "%31s%n", op, &adv) != 1) return;
		q = L + adv;
		op_begin();
		if (!strcmp(op, "fips")) { env_fips = atoi(q); }
		else if (!strcmp(op, "ncpu")) { env_ncpu = atoi(q); }
		else if (!strcmp(op, "getrandom")) getrandom_mode = atoi(q);
		else if (!strcmp(op, "urandom")) urandom_mode = atoi(q);
		else if (!strcmp(op, "sysconf")) sscanf(q, "%ld %ld %ld %ld", &sc_l1, &sc_l2, &sc_l3, &sc_conf);
		else if (!strcmp(op, "cache")) { if (nents < 64) { sscanf(q, "%d %d %47s %47s %47s", &ents[nents].cpu, &ents[nents].idx, ents[nents].a[0], ents[nents].a[1], ents[nents].a[2]); nents++; } }
		else if (!strcmp(op, "sysfs")) { sscanf(q, "%255s", sysfs_root); }
		else if (!strcmp(op, "memlog")) mem_log = atoi(q);
		else if (!strcmp(op, "dual")) dual = atoi(q);
		else if (!strcmp(op, "wantout")) want_out = atoi(q);
		else if (!strcmp(op, "scan")) scan_on = atoi(q);
		else if (!strcmp(op, "ston")) st_on = atoi(q);
		else if (!strcmp(op, "limit")) nread_limit = strtoull(q, NULL, 0);
		else if (!strcmp(op, "cbselftest")) { cb_selftest = atoi(q); }
		else if (!strcmp(op, "at")) sscanf(q, "%" SCNu64 " %d", &at_n, &at_slot);
		else if (!strcmp(op, "fault")) {
			char k[32]; long v = 0; int e = 0;
			sscanf(q, "%31s %ld %d", k, &v, &e);
			if (!strcmp(k, "mmap")) f_mmap = v; else if (!strcmp(k, "mmapall")) f_mmap_all = (int)v;
			else if (!strcmp(k, "mprotect")) f_mprotect = v; else if (!strcmp(k, "mlock")) { f_mlock = v; if (e) f_mlock_errno = e; }
			else if (!strcmp(k, "mlockall")) { f_mlock_all = (int)v; if (e) f_mlock_errno = e; }
			else if (!strcmp(k, "madvise")) f_madvise = v; else if (!strcmp(k, "malloc")) f_malloc = v;
			else if (!strcmp(k, "tstart")) f_tstart = v; else if (!strcmp(k, "tinit")) f_tinit = v;
			else if (!strcmp(k, "tstartall")) f_tstart_all = (int)v; else if (!strcmp(k, "tinitall")) f_tinit_all = (int)v;
			else if (!strcmp(k, "clear")) { f_tstart = f_tinit = 0; f_mmap = f_mprotect = f_mlock = f_madvise = f_malloc = 0; }
		}
		else if (!strcmp(op, "clk")) { /* replace remaining program; segs: s n v | q n a b m */
			char t[4]; int a2; nsegs = 0; si = 0; so = 0;
#ifdef JH_PAR
			if (par_cur) { o("{\"s\":%d,\"op\":\"clk\",\"t\":%d}\n", cur_scn, par_cur); oflush(); }
#endif
			while (sscanf(q, "%3s%n", t, &a2) == 1) {
				struct seg sg; memset(&sg, 0, sizeof(sg)); q += a2; sg.t = t[0];
				if (t[0] == 's') { if (sscanf(q, "%" SCNu64 " %" SCNu64 "%n", &sg.n, &sg.v, &a2) != 2) abort(); }
				else { if (sscanf(q, "%" SCNu64 " %u %u %u%n", &sg.n, &sg.a, &sg.b, &sg.m, &a2) != 4) abort(); }
				q += a2;
				if (nsegs == csegs) { csegs = csegs ? csegs * 2 : 1024; segs = realloc(segs, csegs * sizeof(*segs)); }
				segs[nsegs++] = sg;
			}
		}
		else if (!strcmp(op, "clkset")) clkval = strtoull(q, NULL, 0);
		else if (!strcmp(op, "kat")) { int w = atoi(q); int h = kat_toggle(w);
			if (!h) { o("{\"s\":%d,\"op\":\"kat\",\"nokat\":1}\n", cur_scn); oflush(); _exit(0); }
			o("{\"s\":%d,\"op\":\"kat\",\"w\":%d,\"hits\":%d,\"broken\":%d", cur_scn, w, h, kat_broken[w]); op_tail(-1); }
		else if (!strcmp(op, "setcb")) { int v = atoi(q); int r = jent_set_fips_failure_callback(v == 2 ? cb2 : v ? cb : NULL);
			o("{\"s\":%d,\"op\":\"setcb\",\"v\":%d,\"ret\":%d", cur_scn, v, r); op_tail(-1); }
		else if (!strcmp(op, "setcpu")) { unsigned long cpu = strtoul(q, NULL, 0); int r = jent_entropy_set_notime_cpu(cpu);
			o("{\"s\":%d,\"op\":\"setcpu\",\"v\":%lu,\"ret\":%d", cur_scn, cpu, r); op_tail(-1); }
		else if (!strcmp(op, "switch")) { /* bitmask of missing handlers; 16 = NULL */
			int m = atoi(q) & 31; static struct jent_notime_thread ta[32]; 
#define t ta[m]
			t = jh_nt; if (m & 1) t.jent_notime_init = NULL; if (m & 2) t.jent_notime_fini = NULL;
			if (m & 4) t.jent_notime_start = NULL; if (m & 8) t.jent_notime_stop = NULL;
			int r = jent_entropy_switch_notime_impl(m & 16 ? NULL : &t);
#undef t
			o("{\"s\":%d,\"op\":\"switch\",\"m\":%d,\"ret\":%d", cur_scn, m, r); op_tail(-1); }
		else if (!strcmp(op, "init")) { run_op(fn_init); o("{\"s\":%d,\"op\":\"init\",\"ret\":%d", cur_scn, g_ir); op_tail(-1); }
		else if (!strcmp(op, "initex")) { unsigned osr, flg; sscanf(q, "%u %u", &osr, &flg); g_osr = osr; g_flags = flg; run_op(fn_initex);
			o("{\"s\":%d,\"op\":\"initex\",\"osr\":%u,", cur_scn, osr > 100000 ? 100000 : osr); fl(flg); o(",\"ret\":%d", g_ir); op_tail(-1); }
		else if (!strcmp(op, "alloc")) { int s; unsigned osr, flg; sscanf(q, "%d %u %u", &s, &osr, &flg); g_osr = osr; g_flags = flg;
			run_op(fn_alloc); slot[s] = g_ec;
			o("{\"s\":%d,\"op\":\"alloc\",\"slot\":%d,\"osr\":%u,", cur_scn, s, osr > 100000 ? 100000 : osr); fl(flg);
			o(",\"ret\":%d", g_ec != NULL); residue(NULL, 0);
			o(",\"rnd\":["); for (size_t k = 0; k < rnd_logl; k++) o("%s%u", k ? "," : "", rnd_log[k]); o("]");
			if (g_ec) { char ub[64] = ""; int r = jent_uuid(g_ec, ub, sizeof(ub)); o(",\"uret\":%d,\"uuid\":", r); jstr(ub); }
			op_tail(s); }
		else if (!strcmp(op, "free")) { int s; sscanf(q, "%d", &s); g_ec = s < 0 ? NULL : slot[s];
			run_op(fn_free); o("{\"s\":%d,\"op\":\"free\",\"slot\":%d", cur_scn, s); residue(NULL, 0); if (s >= 0) slot[s] = NULL; op_tail(-1); }
		else if (!strcmp(op, "read") || !strcmp(op, "safe")) { int s; size_t len; int nb = 0; sscanf(q, "%d %zu %d", &s, &len, &nb);
			do_read(s, len, op[0] == 's', nb); }
		else if (!strcmp(op, "selftest")) { int s, r; sscanf(q, "%d", &s); g_s = s; run_op(fn_self); r = g_ir;
			o("{\"s\":%d,\"op\":\"selftest\",\"slot\":%d,\"ret\":%d", cur_scn, s, r); op_tail(s); }
		else if (!strcmp(op, "status")) { /* status slot from to step : sweep of buffer sizes */
			int s; size_t a, b, st; sscanf(q, "%d %zu %zu %zu", &s, &a, &b, &st);
			static char full[16384]; int fr = jent_status(s < 0 ? NULL : slot[s], full, sizeof(full)); size_t flen = strlen(full);
			for (size_t z = a; z <= b; z += st) {
				unsigned char *base; size_t tot; unsigned char *bf = gb_alloc(z, &base, &tot);
				int r, before = 0; memset(base + 4096, 0xC3, tot - 8192);
				r = jent_status(s < 0 ? NULL : slot[s], (char *)bf, z);
				for (unsigned char *x = base + 4096; x < bf; x++) if (*x != 0xC3) before++;
				size_t sl = strnlen((char *)bf, z);
				int pre = z > 0 && sl < z && sl <= flen && !memcmp(bf, full, sl);
				o("{\"s\":%d,\"op\":\"status\",\"slot\":%d,\"z\":%zu,\"ret\":%d,\"fr\":%d,\"flen\":%zu,\"slen\":%zu,\"pre\":%d,\"before\":%d", cur_scn, s, z, r, fr, flen, sl, pre, before);
				if (z == a) { o(",\"full\":"); jstr(full); }
				op_tail(-1); munmap(base, tot);
			} }
		else if (!strcmp(op, "statusnull")) { int s; size_t z; sscanf(q, "%d %zu", &s, &z); int r = jent_status(s < 0 ? NULL : slot[s], NULL, z);
			o("{\"s\":%d,\"op\":\"statusnull\",\"slot\":%d,\"z\":%zu,\"ret\":%d", cur_scn, s, z, r); op_tail(-1); }
		else if (!strcmp(op, "uuid")) { int s; size_t z; int nb = 0; sscanf(q, "%d %zu %d", &s, &z, &nb);
			unsigned char *base; size_t tot; unsigned char *bf = gb_alloc(z, &base, &tot); int before = 0, touched = 0;
			memset(base + 4096, 0xC3, tot - 8192);
			int r = jent_uuid(s < 0 ? NULL : slot[s], nb ? NULL : (char *)bf, z);
			for (unsigned char *x = base + 4096; x < bf; x++) if (*x != 0xC3) before++;
			for (size_t k = 0; k < z; k++) if (bf[k] != 0xC3) touched++;
			o("{\"s\":%d,\"op\":\"uuid\",\"slot\":%d,\"z\":%zu,\"nb\":%d,\"ret\":%d,\"before\":%d,\"touched\":%d,\"uuid\":", cur_scn, s, z, nb, r, before, touched);
			{ char t[64] = ""; if (!r && z) { size_t k = strnlen((char *)bf, z); if (k > 63) k = 63; memcpy(t, bf, k); t[k] = 0; } jstr(t); }
			op_tail(-1); munmap(base, tot); }
		else if (!strcmp(op, "mark")) { o("{\"s\":%d,\"op\":\"mark\",\"v\":%d", cur_scn, atoi(q)); op_tail(-1); }
#ifdef JH_PAR
		else if (!strcmp(op, "T")) par_line(q);
		else if (!strcmp(op, "go")) par_go(q);
#endif
		else { fprintf(stderr, "bad op: %s\n", L); _exit(96); }
}

static int scenario(char **lines, int n)
{
	struct sigaction sa; memset(&sa, 0, sizeof(sa)); sa.sa_handler = on_sig;
	stack_t ss; ss.ss_sp = malloc(65536); ss.ss_size = 65536; ss.ss_flags = 0; sigaltstack(&ss, NULL);
	sa.sa_flags = SA_ONSTACK;
	sigaction(SIGSEGV, &sa, NULL); sigaction(SIGBUS, &sa, NULL); sigaction(SIGABRT, &sa, NULL);
	sigaction(SIGFPE, &sa, NULL); sigaction(SIGALRM, &sa, NULL); sigaction(SIGILL, &sa, NULL);
	{ struct rlimit rl = { 120, 130 }; setrlimit(RLIMIT_CPU, &rl); sigaction(SIGXCPU, &sa, NULL); alarm(500); }
	jent_set_mock_timer(clock_cb, NULL);
	clkval = 1000003;
	for (int i = 0; i < n; i++) exec_line(lines[i]);
	return 0;
}

#ifdef JH_PAR
#include "par.c"
#endif

int main(int argc, char **argv)
{
	FILE *f; char *line = NULL; size_t cap = 0; char **lines = NULL; int n = 0, c = 0; int in = 0, id = 0;
	if (argc < 3) return 2;
	f = fopen(argv[1], "r");
	out_fd = open(argv[2], O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
	if (!f || out_fd < 0) return 2;
	while (getline(&line, &cap, f) > 0) {
		if (line[0] == 'S') { id = atoi(line + 1); in = 1; n = 0; continue; }
		if (line[0] == 'E') {
			pid_t p = fork();
			if (!p) { fclose(f); cur_scn = id; scenario(lines, n); _exit(0); }
			int st; waitpid(p, &st, 0);
			if (!WIFEXITED(st) || WEXITSTATUS(st)) {
				char b[128]; int k = snprintf(b, sizeof(b), "{\"s\":%d,\"op\":\"crash\",\"sig\":%d}\n", id, st);
				if (write(out_fd, b, (size_t)k)) {}
			}
			char b[64]; int k = snprintf(b, sizeof(b), "{\"s\":%d,\"op\":\"end\"}\n", id);
			if (write(out_fd, b, (size_t)k)) {}
			for (int i = 0; i < n; i++) free(lines[i]);
			in = 0; n = 0; continue;
		}
		if (!in) continue;
		if (n == c) { c = c ? c * 2 : 256; lines = realloc(lines, (size_t)c * sizeof(*lines)); }
		lines[n++] = strdup(line);
	}
	return 0;
}
