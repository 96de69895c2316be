/* The stand-in kernel around the module: runs scripted operations as tasks that
 * are switched at every call into the kernel or the library, and records what
 * happens.  One child process per scenario; nothing of the host is touched. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <ucontext.h>
#include <signal.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include "k.h"

static int sid;
static FILE *O;
static int cur, yields, indir;
static struct { int step, task; } sch[64]; static int nsch;

/* ---------------------------------------------------------------- tasks */
struct task { ucontext_t uc; char *stack; char *prog[32]; int np, ip, live, waiting; int (*ready)(void *); void *arg;
	      char seq[65536]; int nseq; struct { char *b; unsigned long n; } ub[4]; int nub; int held; int nb; char *name; int f; int flushed; } T[KT_MAX];
static ucontext_t sched_uc;

static struct { int on, t, fn, ec, n, null, fips; unsigned long long loop, first; } agg;
static void flush_meas(void)
{
	if (!agg.on) return;
	agg.on = 0;
	fprintf(O, "{\"s\":%d,\"t\":%d,\"e\":\"meas\",\"fn\":%d,\"ec\":%d,\"n\":%d,\"rec\":%d,\"loop\":\"%llx\",\"first\":%llu,\"fips\":%d}\n", sid, agg.t, agg.fn, agg.ec, agg.n, agg.null, agg.loop, agg.first, agg.fips);
}
static void ev0(const char *e) { flush_meas(); fprintf(O, "{\"s\":%d,\"t\":%d,\"e\":\"%s\"", sid, cur, e); }
static void ev1(void) { fprintf(O, "}\n"); }
void u_ev_end(void) { ev1(); }
static void die(void) { fflush(O); _exit(0); }
void u_bad(const char *w) { ev0("bad"); fprintf(O, ",\"what\":\"%s\"", w); ev1(); }
void u_panic(void) { ev0("panic"); ev1(); ev0("end"); ev1(); die(); }
int u_cur(void) { return cur; }
int u_strcmp(const char *a, const char *b) { return strcmp(a, b); }

static void sw(void)
{
	int me = cur;
	swapcontext(&T[me].uc, &sched_uc);
}
void u_yield(const char *p)
{
	int i;
	yields++;
	if (cur == 0) return;
	for (i = 0; i < nsch; i++)
		if (sch[i].step == yields && sch[i].task != cur) { indir = sch[i].task; sw(); return; }
}
static void block(int (*ready)(void *), void *arg)
{
	if (cur == 0) { if (!ready(arg)) { ev0("deadlock"); ev1(); die(); } return; }
	while (!ready(arg)) { T[cur].ready = ready; T[cur].arg = arg; T[cur].waiting = 1; sw(); }
	T[cur].waiting = 0;
}

/* ---------------------------------------------------------------- faults */
static struct { char n[16]; int k, v; } flt[32]; static int nflt;
static struct { char n[16]; int c; } cnt[32]; static int ncnt;
int u_fault(const char *n, int d)
{
	int i, c = 0;
	for (i = 0; i < ncnt; i++) if (!strcmp(cnt[i].n, n)) break;
	if (i == ncnt) { strcpy(cnt[i].n, n); cnt[i].c = 0; ncnt++; }
	c = ++cnt[i].c;
	for (i = 0; i < nflt; i++) if (!strcmp(flt[i].n, n) && (flt[i].k == c || flt[i].k == 0)) return flt[i].v;
	return 0;
}
static struct { char n[16]; int v; } en[16]; static int nen;
int u_env(const char *n) { int i; for (i = 0; i < nen; i++) if (!strcmp(en[i].n, n)) return en[i].v; return 0; }
static void setenvk(const char *n, int v)
{
	int i; for (i = 0; i < nen; i++) if (!strcmp(en[i].n, n)) { en[i].v = v; return; }
	strcpy(en[nen].n, n); en[nen++].v = v;
}
static unsigned int rs = 12345;
unsigned int u_rnd(void) { rs = rs * 1103515245u + 12345u; return (rs >> 8) ^ (rs << 20); }

/* ---------------------------------------------------------------- memory */
struct blk { char *p, *map; unsigned long n, len; int live; };
static struct blk B[512]; static int nb;
static char *pages(unsigned long n, struct blk *b)
{
	unsigned long len = (n + 15 + 4095) & ~4095UL;
	char *m = mmap(NULL, len + 4096, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	mprotect(m, len, PROT_READ | PROT_WRITE);
	b->map = m; b->len = len; b->n = n; b->live = 1;
	b->p = m + len - ((n + 7) & ~7UL);
	return b->p;
}
void *u_raw(unsigned long n) { struct blk b; return pages(n, &b); }
void *u_kmalloc(unsigned long n, int z)
{
	char *p;
	u_yield("kmalloc");
	if (u_fault("kmalloc", 0)) { ev0("kfail"); ev1(); return NULL; }
	p = pages(n, &B[nb++]);
	if (!z) memset(p, 0xA5, n);
	return p;
}
static unsigned char gen[1 << 17]; static int ngen;
void u_gen(void *d, unsigned long n)
{
	unsigned char *p = d;
	while (n--) {
		unsigned char c;
		do c = u_rnd() >> 9; while (c == 0xEE || c == 0xA5 || c == 0);
		*p++ = c; if (ngen < (int)sizeof(gen)) gen[ngen++] = c;
	}
}
static int residue(const char *p, unsigned long n)
{
	unsigned long i;
	for (i = 0; i + 6 <= n; i++) if (memmem(gen, ngen, p + i, 6)) return 1;
	return 0;
}
static void inrange(const char *p, unsigned long n);
void u_kfree(void *v, int mode, unsigned long wn)
{
	char *p = v; int i;
	if (!p) return;
	for (i = 0; i < nb; i++) if (B[i].p == p) break;
	if (i == nb) { u_bad("free of unknown memory"); return; }
	if (!B[i].live) { u_bad("double free"); return; }
	if (mode == 1) memset(p, 0, B[i].n);
	if (mode == 2) memset(p, 0, wn < B[i].n ? wn : B[i].n);
	if (residue(p, B[i].n)) { ev0("residue"); ev1(); }
	inrange(p, B[i].n);
	B[i].live = 0;
	mprotect(B[i].map, B[i].len, PROT_NONE);
	u_yield("kfree");
}
void u_objfree(void *p, unsigned long n) { inrange(p, n); }
void u_objcheck(const void *p, unsigned long n)
{
	int i; const char *c = p;
	for (i = 0; i < nb; i++)
		if (c >= B[i].p && c < B[i].p + B[i].n) {
			if (!B[i].live) u_bad("use of freed memory");
			else if (c + n > B[i].p + B[i].n) u_bad("copy beyond an allocation");
		}
}

/* ---------------------------------------------------------------- locks */
struct mtx { void *a; int owner, live, id; } M[64]; static int nm, mid;
static struct mtx *mget(void *a)
{
	int i; for (i = 0; i < nm; i++) if (M[i].live && M[i].a == a) return &M[i];
	M[nm].a = a; M[nm].live = 1; M[nm].owner = -1; M[nm].id = ++mid;
	return &M[nm++];
}
void u_minit(void *a)
{
	int i; for (i = 0; i < nm; i++) if (M[i].live && M[i].a == a) { if (M[i].owner >= 0) u_bad("lock initialized while held"); M[i].live = 0; }
	mget(a);
}
static int mfree(void *p) { return ((struct mtx *)p)->owner < 0; }
static void took(struct mtx *m) { m->owner = cur; T[cur].held++; ev0("lock"); fprintf(O, ",\"m\":%d", m->id); ev1(); }
int u_lock(void *a, int intr)
{
	struct mtx *m;
	u_yield("lock");
	if (intr && u_fault("intr", 0)) { k_signal(cur, 1); ev0("intr"); ev1(); return 1; }
	m = mget(a);
	if (m->owner == cur) { u_bad("lock taken twice"); ev0("deadlock"); ev1(); die(); }
	if (m->owner >= 0) { ev0("wait"); fprintf(O, ",\"m\":%d", m->id); ev1(); block(mfree, m); }
	took(m);
	return 0;
}
int u_trylock(void *a)
{
	struct mtx *m;
	u_yield("lock");
	m = mget(a);
	if (m->owner >= 0 || u_fault("try", 0)) { ev0("busy"); fprintf(O, ",\"m\":%d", m->id); ev1(); return 0; }
	took(m);
	return 1;
}
void u_unlock(void *a)
{
	struct mtx *m = mget(a);
	if (m->owner != cur) { u_bad("unlock of a lock not held"); return; }
	m->owner = -1; T[cur].held--;
	ev0("unlock"); fprintf(O, ",\"m\":%d", m->id); ev1();
	u_yield("unlock");
}
int u_islocked(void *a) { return mget(a)->owner >= 0; }

/* ---------------------------------------------------------------- user memory */
unsigned long u_copyout(void *to, const void *from, unsigned long n)
{
	unsigned long left = 0; int i, ok = 0, v;
	u_yield("copy");
	for (i = 0; i < T[cur].nub; i++)
		if ((char *)to >= T[cur].ub[i].b && (char *)to + n <= T[cur].ub[i].b + T[cur].ub[i].n) { ok = i + 1; break; }
	if (!ok) { u_bad("copy outside the caller's buffer"); return n; }
	u_objcheck(from, n);
	if ((v = u_fault("copy", 0))) left = (unsigned long)v < n ? (unsigned long)v : n;
	memcpy(to, from, n - left);
	ev0("cp"); fprintf(O, ",\"n\":%lu,\"left\":%lu,\"ub\":%d,\"off\":%ld", n, left, ok, (char *)to - T[cur].ub[ok - 1].b); ev1();
	return left;
}
unsigned long u_copyin(void *to, void *from, unsigned long n)
{
	u_yield("copy");
	if (u_fault("copyin", 0)) { ev0("cifail"); ev1(); return n; }
	memcpy(to, from, n);
	return 0;
}

/* ---------------------------------------------------------------- text */
void u_vprintk(const char *f, va_list a) { char b[8192]; if (f[0] == 1) f += 2; vsnprintf(b, sizeof(b), f, a); }
void u_seqn(const char *s, unsigned long n) { struct task *t = &T[cur]; if (t->nseq + n < sizeof(t->seq)) { memcpy(t->seq + t->nseq, s, n); t->nseq += n; t->seq[t->nseq] = 0; } }
void u_seq(const char *s) { u_seqn(s, strlen(s)); }
void u_vseq(const char *f, va_list a) { char b[16384]; vsnprintf(b, sizeof(b), f, a); u_seq(b); }
static void jstr(const char *s)
{
	fputc('"', O);
	for (; *s; s++) {
		if (*s == '"' || *s == '\\') fprintf(O, "\\%c", *s);
		else if (*s == '\n') fprintf(O, "\\n"); else if (*s == '\t') fprintf(O, "\\t");
		else if ((unsigned char)*s < 32 || (unsigned char)*s > 126) fprintf(O, "?"); else fputc(*s, O);
	}
	fputc('"', O);
}
static void jbytes(const unsigned char *p, long n) { long i; fputc('[', O); for (i = 0; i < n; i++) fprintf(O, "%s%u", i ? "," : "", p[i]); fputc(']', O); }
static void jhex(const unsigned char *p, long n) { long i; fputc('"', O); for (i = 0; i < n; i++) fprintf(O, "%02x", p[i]); fputc('"', O); }

/* ---------------------------------------------------------------- proc */
struct pde { char name[80]; struct pde *par; void *show, *data; int live, readers, id; } P[128]; static int np;
void *u_pmk(const char *k, const char *n, void *par, void *show, void *data)
{
	struct pde *e;
	u_yield("proc");
	if (par && !((struct pde *)par)->live) { u_bad("proc entry below a removed directory"); return NULL; }
	if (u_fault(k, 0)) { ev0("pmk"); fprintf(O, ",\"id\":0,\"name\":"); jstr(n); fprintf(O, ",\"par\":%d", par ? ((struct pde *)par)->id : 0); ev1(); return NULL; }
	e = &P[np++]; snprintf(e->name, sizeof(e->name), "%s", n); e->par = par; e->show = show; e->data = data; e->live = 1; e->id = np;
	ev0("pmk"); fprintf(O, ",\"id\":%d,\"name\":", e->id); jstr(n); fprintf(O, ",\"par\":%d", par ? ((struct pde *)par)->id : 0); ev1();
	return e;
}
static int below(struct pde *e, struct pde *d) { for (; e; e = e->par) if (e == d) return 1; return 0; }
static int noreaders(void *d) { int i; for (i = 0; i < np; i++) if (P[i].live && P[i].readers && below(&P[i], d)) return 0; return 1; }
void u_prm(void *v)
{
	struct pde *d = v; int i;
	if (!d) return;
	u_yield("proc");
	if (d < P || d >= P + np || !d->live) { u_bad("removal of a removed proc entry"); return; }
	for (i = 0; i < np; i++) if (P[i].live && below(&P[i], d) && T[cur].name && !strcmp(T[cur].name, "proc") && T[cur].f == P[i].id) u_bad("proc entry removed by its own reader");
	block(noreaders, d);
	for (i = 0; i < np; i++) if (P[i].live == 1 && below(&P[i], d)) P[i].live = 2;
	for (i = 0; i < np; i++) if (P[i].live == 2) P[i].live = 0;
	ev0("prm"); fprintf(O, ",\"id\":%d", d->id); ev1();
}
static struct pde *pfind(const char *path)
{
	int i; char b[300];
	for (i = 0; i < np; i++) if (P[i].live) {
		struct pde *e = &P[i]; char c[300];
		b[0] = 0;
		for (; e; e = e->par) { snprintf(c, sizeof(c), "%s%s%s", e->name, b[0] ? "/" : "", b); strcpy(b, c); }
		if (!strcmp(b, path)) return &P[i];
	}
	return NULL;
}

/* ---------------------------------------------------------------- registrations */
static struct { const char *n; int on, busy; } R[] = { {"misc"}, {"hwrng"}, {"rng"}, {"ddir"}, {"raw"} };
static int rix(const char *n) { int i; for (i = 0; i < 5; i++) if (!strcmp(R[i].n, n)) return i; return 0; }
int u_reg(const char *n, int err)
{
	int i = rix(n), r;
	u_yield("reg");
	r = u_fault(n, 0) ? (err ? err : -12) : 0;
	if (R[i].on) u_bad("registered twice");
	if (!r) R[i].on = 1;
	ev0("reg"); fprintf(O, ",\"what\":\"%s\",\"rc\":%d", n, r); ev1();
	return r;
}
void u_regname(const char *n, const char *name, int x)
{
	ev0("regname"); fprintf(O, ",\"what\":\"%s\",\"name\":", n); jstr(name); fprintf(O, ",\"x\":%d", x); ev1();
}
void *u_dent(void) { return u_raw(16); }
static int idle(void *p) { return !R[(long)p].busy; }
void u_unreg(const char *n)
{
	int i = rix(n);
	u_yield("unreg");
	if (!strcmp(n, "raw")) { if (!R[3].on) u_bad("not registered"); R[3].on = 0; }
	else if (!R[i].on) u_bad("not registered");
	R[i].on = 0;
	if (strcmp(n, "misc")) block(idle, (void *)(long)i);
	ev0("unreg"); fprintf(O, ",\"what\":\"%s\"", n); ev1();
}

/* ---------------------------------------------------------------- deferred work */
struct wk { void *w; int pend, run, id, cancelling; } W[64]; static int nw;
static struct wk *wget(void *w) { int i; for (i = 0; i < nw; i++) if (W[i].w == w) return &W[i]; W[nw].w = w; W[nw].id = nw + 1; return &W[nw++]; }
int u_queue(void *w, unsigned long sec, unsigned long frac)
{
	struct wk *k = wget(w);
	int ok = !k->pend && !k->cancelling;
	if (ok) k->pend = 1;
	ev0("queue"); fprintf(O, ",\"w\":%d,\"sec\":%lu,\"frac\":%lu,\"ok\":%d", k->id, sec, frac, ok); ev1();
	return ok;
}
static int notrun(void *p) { return !((struct wk *)p)->run; }
int u_cancel(void *w, int sync)
{
	struct wk *k = wget(w); int r = k->pend;
	u_yield("cancel");
	k->pend = 0;
	if (sync) { k->cancelling++; block(notrun, k); k->pend = 0; k->cancelling--; }
	ev0("cancel"); fprintf(O, ",\"w\":%d,\"sync\":%d", k->id, sync); ev1();
	return r;
}
static void inrange(const char *p, unsigned long n)
{
	int i;
#define IN(x) ((char *)(x) >= p && (char *)(x) < p + n)
	for (i = 0; i < nm; i++) if (M[i].live && IN(M[i].a)) { if (M[i].owner >= 0) u_bad("a held lock was freed"); M[i].live = 0; }
	for (i = 0; i < nw; i++) if (IN(W[i].w)) { if (W[i].pend) u_bad("scheduled work was freed"); if (W[i].run) u_bad("running work was freed"); W[i].w = NULL; W[i].pend = 0; }
	for (i = 0; i < np; i++) if (P[i].live && IN(P[i].data)) { u_bad("a proc entry refers to freed memory"); P[i].data = NULL; }
}

/* ---------------------------------------------------------------- the library */
struct ec { char *p, *map; unsigned long len; int live, marked, raw; } E[64]; static int ne;
static int eid(void *p) { int i; for (i = 0; i < ne; i++) if (E[i].p == p) return i + 1; return -1; }
static int use(void *p)      /* id of a collector the library is called with */
{
	int i = eid(p);
	if (!p) return 0;
	if (i < 0) { u_bad("library called with something else than a collector"); return -1; }
	if (!E[i - 1].live) u_bad("library called with a freed collector");
	return i;
}
void *u_ecnew(unsigned long n)
{
	struct blk b; char *p = pages(n, &b);
	E[ne].p = p; E[ne].map = b.map; E[ne].len = b.len; E[ne].live = 1; E[ne].marked = 0; ne++;
	return p;
}
static void ecdrop(int i)
{
	E[i - 1].live = 0; mprotect(E[i - 1].map, E[i - 1].len, PROT_NONE);
}
void u_ecfree(void *p)
{
	int i;
	u_yield("lfree");
	i = use(p);
	ev0("lfree"); fprintf(O, ",\"ec\":%d", i); ev1();
	if (i > 0 && E[i - 1].live) ecdrop(i);
}
void u_ecreplace(void *o, void *n) { int i = eid(o), j = eid(n); if (i > 0 && j > 0) { E[j - 1].marked = E[i - 1].marked; ecdrop(i); } }
int u_ecmarked(void *p) { int i = eid(p); return i > 0 && E[i - 1].marked; }
void u_ecmark(void *p) { int i = eid(p); if (i > 0) E[i - 1].marked = 1; }
void u_ev_alloc(void *p, unsigned int osr, unsigned int fl, int raw)
{
	if (p && raw) E[eid(p) - 1].raw = 1;
	ev0("lalloc"); fprintf(O, ",\"ec\":%d,\"osr\":%u,\"flags\":\"%08x\",\"raw\":%d", p ? eid(p) : 0, osr, fl, raw);
}
void u_fields(unsigned int osr, unsigned int fl, unsigned int hf, unsigned int re, unsigned long long inv, unsigned long long by)
{
	fprintf(O, ",\"fld\":{\"OSR\":"); jhex((void *)&osr, 4); fprintf(O, ",\"FLAGS\":"); jhex((void *)&fl, 4);
	fprintf(O, ",\"HEALTH\":"); jhex((void *)&hf, 4); fprintf(O, ",\"REINIT\":"); jhex((void *)&re, 4);
	{ unsigned long long x[2] = { inv, by }; fprintf(O, ",\"OUTPUT\":"); jhex((void *)x, 16); }
	fprintf(O, "}");
}
void u_ev_rnull(void) { ev0("rnull"); ev1(); }
void u_ev_rb(void *p, unsigned long n) { int i = use(p); ev0("lrb"); fprintf(O, ",\"ec\":%d,\"n\":%lu", i, n); ev1(); }
void u_ev_re(void *p, long rc, const void *d, unsigned long n)
{
	ev0("lre"); fprintf(O, ",\"ec\":%d,\"rc\":%ld,\"data\":", eid(p), rc); jbytes(d, rc > 0 ? (long)n : 0);
}
void u_sig(void) { k_signal(cur, 1); ev0("sig"); ev1(); }
void u_setnb(void)
{
	if (!T[cur].name || strcmp(T[cur].name, "read")) return;
	k_setnb(); T[cur].nb = 1; ev0("setnb"); ev1();
}
void u_ev_lib(const char *e, void *p, int rc)
{
	int i = use(p);
	ev0(e); fprintf(O, ",\"ec\":%d,\"rc\":%d", i, rc); ev1();
}
static int nstat;
int u_status(void *p, char *buf, unsigned long n)
{
	char b[8192]; int i, l = u_env("statlen");
	if (!l) l = 60;
	i = snprintf(b, sizeof(b), "{ec%d,n%d ", eid(p), ++nstat);
	while (i < l) { b[i] = 'a' + (i * 7 + nstat) % 26; i++; }
	b[l] = 0;
	if (n <= (unsigned long)l) return -1;
	memcpy(buf, b, l + 1);
	ev0("stxt"); fprintf(O, ",\"txt\":"); jstr(b); ev1();
	return 0;
}
int u_uuid(void *p, char *buf, unsigned long n)
{
	char b[64];
	if (!p || n < 37) return -1;
	snprintf(b, sizeof(b), "%08x-1111-4222-8333-%012d", 0xabc0000 + eid(p), eid(p));
	if (u_env("uuidempty") || (eid(p) > 0 && E[eid(p) - 1].raw)) b[0] = 0;
	memcpy(buf, b, strlen(b) + 1);
	ev0("utxt"); fprintf(O, ",\"txt\":"); jstr(b); ev1();
	return 0;
}
void u_ev_init(unsigned int osr, unsigned int fl, int rc) { ev0("linit"); fprintf(O, ",\"osr\":%u,\"flags\":\"%08x\",\"rc\":%d", osr, fl, rc); ev1(); }
static unsigned long long nsmp;
unsigned long long u_meas(int fn, void *p, unsigned long long l, int rec, int fips)
{
	int i = use(p);
	if (u_fault("msw", 0)) u_yield("meas");
	if (u_fault("sigm", 0)) u_sig();
	nsmp++;
	if (!(agg.on && agg.t == cur && agg.fn == fn && agg.ec == i && agg.loop == l && agg.null == rec && agg.fips == fips)) {
		flush_meas(); agg.on = 1; agg.t = cur; agg.fn = fn; agg.ec = i; agg.loop = l; agg.null = rec; agg.n = 0; agg.first = nsmp; agg.fips = fips;
	}
	agg.n++;
	return ((unsigned long long)(fn + 1) << 56) | ((unsigned long long)i << 40) | nsmp;
}

/* ---------------------------------------------------------------- operations */
static int fopenst[KF_MAX], tst[KF_MAX], loaded, fraw[KF_MAX];   /* state as the rest of the kernel knows it */
static void ret0(long r) { int h; flush_meas(); ev0("ret"); fprintf(O, ",\"r\":%ld,\"held\":%d", r, T[cur].held); }
static void skip(void) { ev0("skip"); ev1(); }
static void call0(const char *op) { T[cur].name = (char *)op; T[cur].nseq = 0; T[cur].seq[0] = 0; T[cur].nub = 0; ev0("call"); fprintf(O, ",\"op\":\"%s\"", op); }
static void ub(void *b, unsigned long n) { T[cur].ub[T[cur].nub].b = b; T[cur].ub[T[cur].nub++].n = n; }
static int users(void) { int i, n = 0; for (i = 0; i < KF_MAX; i++) n += fopenst[i] + tst[i]; return n; }

static void samples(const unsigned char *b, long n)
{
	long i, k = n / 8; unsigned long long v, f = 0, base = 0, len = 0; int first = 1;
	fprintf(O, ",\"smp\":[");
	for (i = 0; i <= k; i++) {
		if (i < k) memcpy(&v, b + 8 * i, 8);
		if (len && i < k && v == base + len) { len++; continue; }
		if (len) { fprintf(O, "%s[%llu,%llu,%llu,%llu]", first ? "" : ",", (base >> 56) - 1, (base >> 40) & 0xffff, base & 0xffffffff, len); first = 0; }
		base = v; len = 1;
	}
	fprintf(O, "]");
}

static void setparam(const char *n, unsigned long v)
{
	int bad = k_param(n, v);
	ev0(bad ? "noparam" : "par"); fprintf(O, ",\"n\":\"%s\",\"v\":%lu", n, v); ev1();
}
static void op(char *line)
{
	char w[8][128]; int n = sscanf(line, "%127s %127s %127s %127s %127s %127s", w[0], w[1], w[2], w[3], w[4], w[5]);
	long a = n > 1 ? atol(w[1]) : 0, b = n > 2 ? atol(w[2]) : 0, c = n > 3 ? atol(w[3]) : 0, r;
	u_yield("op");
	T[cur].nb = 0;
	if (!strcmp(w[0], "param")) { setparam(w[1], strtoul(w[2], 0, 0)); return; }
	if (!strcmp(w[0], "load")) {
		call0("load"); ev1();
		r = k_load();
		loaded = r == 0;
		ret0(r); fprintf(O, ",\"flags\":\"%08lx\",\"interval\":%ld,\"quality\":%d", k_param_get("flags"), k_param_get("selftest_interval"), k_hwquality()); ev1();
	} else if (!strcmp(w[0], "unload")) {
		if (!loaded || users()) { skip(); return; }
		loaded = 0;
		call0("unload"); ev1(); k_unload(); ret0(0); ev1();
	} else if (!strcmp(w[0], "open") || !strcmp(w[0], "openraw")) {
		int raw = w[0][4] == 'r';
		if (fopenst[a] || !R[raw ? 4 : 0].on || !loaded) { skip(); return; }
		fopenst[a] = 1; fraw[a] = raw;
		call0(raw ? "openraw" : "open"); fprintf(O, ",\"f\":%ld", a); ev1();
		r = k_open(a, raw);
		if (r) fopenst[a] = 0; else fopenst[a] = 2;
		ret0(r); ev1();
		if (!r) fopenst[a] = 3; 
	} else if (!strcmp(w[0], "close")) {
		if (fopenst[a] != 3) { skip(); return; }
		/* the last reference: operations in progress keep the file open */
		{ int i; for (i = 0; i < KT_MAX; i++) if (i != cur && T[i].name && T[i].f == a + 1000) { skip(); return; } }
		fopenst[a] = 1;
		call0(fraw[a] ? "closeraw" : "close"); fprintf(O, ",\"f\":%ld", a); ev1();
		r = k_close(a);
		ret0(r); ev1();
		fopenst[a] = 0;
	} else if (!strcmp(w[0], "read")) {
		unsigned char *u; long i, mod = 0; char *nm;
		if (fopenst[a] != 3) { skip(); return; }
		u = malloc(b + 64); memset(u, 0xEE, b + 64);
		call0(fraw[a] ? "readraw" : "read"); fprintf(O, ",\"f\":%ld,\"n\":%ld,\"nb\":%ld", a, b, c); ev1();
		T[cur].f = a + 1000; T[cur].nb = c; ub(u, b);
		if (fraw[a]) R[4].busy++;
		{ int ff = a; T[cur].f = a + 1000; r = k_read(ff, u, b, c); }
		if (fraw[a]) R[4].busy--;
		for (i = r > 0 ? r : 0; i < b + 64; i++) mod += u[i] != 0xEE;
		ret0(r); fprintf(O, ",\"mod\":%ld,\"pos\":%lld,\"pos0\":%lld", mod, k_pos(0), k_pos(1));
		if (fraw[a]) samples(u, r > 0 ? r : 0); else { fprintf(O, ",\"out\":"); jbytes(u, r > 0 && r <= b ? r : 0); }
		ev1(); free(u);
	} else if (!strcmp(w[0], "ioctl")) {      /* f cmd [length of the status buffer | value] */
		unsigned char arg[64]; unsigned char *u; unsigned int cmd = k_cmd(w[2]); unsigned long long lc = n > 3 ? strtoull(w[3], 0, 0) : 0; int raw;
		if (fopenst[a] != 3) { skip(); return; }
		memset(arg, 0xEE, sizeof(arg)); u = malloc(8192); memset(u, 0xEE, 8192);
		raw = fraw[a];
		call0(raw ? "ioctlraw" : "ioctl"); fprintf(O, ",\"f\":%ld,\"cmd\":\"%s\",\"len\":\"%llx\",\"ilen\":%llu", a, w[2], lc, lc < 100000 ? lc : 100000); ev1();
		T[cur].f = a + 1000;
		ub(arg, sizeof(arg));
		if (!strcmp(w[2], "STATUS")) { k_statarg(arg, u, lc); ub(u, 8192); }
		else if (!strcmp(w[2], "LOOPCNT")) memcpy(arg, &lc, 8);
		r = k_ioctl(a, cmd, arg);
		ret0(r);
		{ long i; int l = 0, k; for (i = 0; i < (long)sizeof(arg); i++) if (arg[i] != 0xEE) l = i + 1;
		  fprintf(O, ",\"argn\":%d,\"arg\":", l); jhex(arg, l);
		  fprintf(O, ",\"slen\":%u,\"sbuf\":%d", strcmp(w[2], "STATUS") ? 0 : k_statlen(arg), strcmp(w[2], "STATUS") ? 1 : k_statbuf(arg) == (unsigned long)u);
		  for (k = 8192; k > 0 && u[k - 1] == 0xEE; k--);
		  fprintf(O, ",\"ubn\":%d,\"nul\":%d,\"txt\":", k, k > 0 && u[k - 1] == 0); if (k > 0) { u[k - 1] = u[k - 1] ? u[k - 1] : 0; u[8191] = 0; { char sv = u[k]; u[k] = 0; jstr((char *)u); u[k] = sv; } } else jstr(""); }
		ev1(); free(u);
	} else if (!strcmp(w[0], "hread")) {      /* n wait */
		unsigned char *u; long i, mod = 0;
		if (!R[1].on || !loaded) { skip(); return; }
		R[1].busy++;
		u = malloc(a + 64); memset(u, 0xEE, a + 64);
		call0("hread"); fprintf(O, ",\"n\":%ld,\"nb\":%d", a, !b); ev1();
		r = k_hwread(u, a, b);
		R[1].busy--;
		for (i = a; i < a + 64; i++) mod += u[i] != 0xEE;
		ret0(r); fprintf(O, ",\"mod\":%ld,\"out\":", mod); jbytes(u, r > 0 && r <= a ? r : 0); ev1(); free(u);
	} else if (!strcmp(w[0], "tinit")) {
		if (tst[a] || !R[2].on || !loaded) { skip(); return; }
		tst[a] = 1;
		call0("tinit"); fprintf(O, ",\"f\":%ld", a); ev1();
		r = k_tinit(a);
		if (r) k_tfail(a);
		tst[a] = r ? 0 : 3;
		ret0(r); ev1();
	} else if (!strcmp(w[0], "texit")) {
		if (tst[a] != 3) { skip(); return; }
		{ int i; for (i = 0; i < KT_MAX; i++) if (i != cur && T[i].name && T[i].f == a + 2000) { skip(); return; } }
		tst[a] = 1;
		call0("texit"); fprintf(O, ",\"f\":%ld", a); ev1();
		k_texit(a); ret0(0); ev1(); tst[a] = 0;
	} else if (!strcmp(w[0], "tgen")) {       /* k n */
		unsigned char *u; long i, mod = 0;
		if (tst[a] != 3) { skip(); return; }
		T[cur].f = a + 2000;
		u = malloc(b + 64); memset(u, 0xEE, b + 64);
		call0("tgen"); fprintf(O, ",\"f\":%ld,\"n\":%ld", a, b); ev1();
		r = k_tgen(a, u, b);
		for (i = b; i < b + 64; i++) mod += u[i] != 0xEE;
		ret0(r); fprintf(O, ",\"mod\":%ld,\"out\":", mod); jbytes(u, r == 0 ? b : 0); ev1(); free(u);
	} else if (!strcmp(w[0], "tseed")) {
		if (tst[a] != 3) { skip(); return; }
		T[cur].f = a + 2000; call0("tseed"); fprintf(O, ",\"f\":%ld", a); ev1();
		r = k_tseed(a); ret0(r); ev1();
	} else if (!strcmp(w[0], "work")) {       /* the a-th of the scheduled works comes due */
		int i, k = 0; struct wk *x = NULL;
		for (i = 0; i < nw; i++) if (W[i].pend && !W[i].run && k++ == a) { x = &W[i]; break; }
		if (!x) { skip(); return; }
		x->pend = 0; x->run = 1;
		call0("work"); fprintf(O, ",\"w\":%d", x->id); ev1();
		k_work(x->w);
		x->run = 0;
		ret0(0); ev1();
	} else if (!strcmp(w[0], "proc")) {
		struct pde *e; char path[160];
		snprintf(path, sizeof(path), "%s", w[1]);
		if (!strncmp(path, "I:", 2)) {      /* the status file of an instance, by position */
			struct pde *d = pfind("jitterentropy/instances"); int i, k = 0;
			for (e = NULL, i = 0; d && i < np; i++) if (P[i].live && P[i].par == d && k++ == atoi(path + 2)) e = &P[i];
		} else e = pfind(path);
		if (!e || !e->show) { skip(); return; }
		e->readers++;
		call0("proc"); T[cur].f = e->id; fprintf(O, ",\"id\":%d,\"path\":", e->id); jstr(path); fprintf(O, ",\"name\":"); jstr(e->name); ev1();
		r = k_show(e->show, e->data);
		e->readers--;
		ret0(r); fprintf(O, ",\"txt\":"); jstr(T[cur].seq); ev1();
	}
	T[cur].f = -1; T[cur].name = NULL;
	k_signal(cur, 0);
}

static void taskmain(int t)
{
	while (T[t].ip < T[t].np) op(T[t].prog[T[t].ip++]);
	T[t].live = 0;
	swapcontext(&T[t].uc, &sched_uc);
}
static void go(char *s)
{
	int t, k, last = 1; char *p;
	nsch = 0; yields = 0;
	for (p = strtok(s, " \n"); p; p = strtok(NULL, " \n")) if (sscanf(p, "%d:%d", &sch[nsch].step, &sch[nsch].task) == 2) nsch++;
	for (t = 1; t < KT_MAX; t++) if (T[t].np) {
		getcontext(&T[t].uc);
		if (!T[t].stack) T[t].stack = mmap(NULL, 1 << 20, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
		T[t].uc.uc_stack.ss_sp = T[t].stack; T[t].uc.uc_stack.ss_size = 1 << 20; T[t].uc.uc_link = &sched_uc;
		T[t].live = 1; T[t].waiting = 0; T[t].f = -1; T[t].name = NULL;
		makecontext(&T[t].uc, (void (*)(void))taskmain, 1, t);
	}
	indir = 0;
	for (;;) {
		int pick = 0, any = 0;
#define RUNNABLE(x) (T[x].live && (!T[x].waiting || T[x].ready(T[x].arg)))
		for (t = 1; t < KT_MAX; t++) any |= T[t].live;
		if (!any) break;
		if (indir > 0 && indir < KT_MAX && RUNNABLE(indir)) pick = indir;
		else if (RUNNABLE(last)) pick = last;
		else for (t = 1; t < KT_MAX; t++) if (RUNNABLE(t)) { pick = t; break; }
		indir = 0;
		if (!pick) { cur = 0; ev0("deadlock"); ev1(); die(); }
		last = cur = pick; k_current(cur);
		swapcontext(&sched_uc, &T[pick].uc);
	}
	cur = 0; k_current(0);
	for (t = 1; t < KT_MAX; t++) { T[t].np = T[t].ip = 0; if (T[t].held) { u_bad("a lock is still held"); T[t].held = 0; } }
}

static void crash(int s)
{
	static const char *n; n = s == SIGALRM ? "hang" : "crash";
	fflush(O);
	ev0(n); fprintf(O, ",\"sig\":%d", s); ev1(); fflush(O); _exit(0);
}
static void scenario(char **L, int n)
{
	int i; stack_t ss = { .ss_sp = malloc(65536), .ss_size = 65536 }; struct sigaction sa = { .sa_handler = crash, .sa_flags = SA_ONSTACK };
	sigaltstack(&ss, NULL);
	sigaction(SIGSEGV, &sa, NULL); sigaction(SIGBUS, &sa, NULL); sigaction(SIGABRT, &sa, NULL); sigaction(SIGFPE, &sa, NULL); sigaction(SIGILL, &sa, NULL); sigaction(SIGALRM, &sa, NULL);
	sigaction(SIGTRAP, &sa, NULL);
	alarm(20);
	setenvk("cap", 1); k_current(0);
	for (i = 0; i < n; i++) {
		char w[4][64]; int c = sscanf(L[i], "%63s %63s %63s %63s", w[0], w[1], w[2], w[3]);
		if (c < 1) continue;
		if (!strcmp(w[0], "param")) setparam(w[1], strtoul(w[2], 0, 0));
		else if (!strcmp(w[0], "env")) { setenvk(w[1], atoi(w[2])); if (!strcmp(w[1], "fips")) k_setfips(atoi(w[2])); ev0("env"); fprintf(O, ",\"n\":\"%s\",\"v\":%d", w[1], atoi(w[2])); ev1(); }
		else if (!strcmp(w[0], "resched")) { int t; for (t = 1; t < KT_MAX; t++) k_resched(t, atoi(w[1])); }
		else if (!strcmp(w[0], "rseed")) rs = atoi(w[1]);
		else if (!strcmp(w[0], "fail")) {     /* fail NAME K VALUE: counted from here */
			int j; for (j = 0; j < ncnt; j++) if (!strcmp(cnt[j].n, w[1])) break;
			if (j == ncnt) { strcpy(cnt[j].n, w[1]); cnt[j].c = 0; ncnt++; }
			strcpy(flt[nflt].n, w[1]); flt[nflt].k = atoi(w[2]) ? atoi(w[2]) + cnt[j].c : 0; flt[nflt++].v = c > 3 ? atoi(w[3]) : 1;
		}
		else if (!strcmp(w[0], "clear")) nflt = 0;
		else if (!strcmp(w[0], "T")) { int t = atoi(w[1]); char *p = strchr(L[i], ' ') + 1; p = strchr(p, ' ') + 1; T[t].prog[T[t].np++] = p; }
		else if (!strcmp(w[0], "go")) go(L[i] + 2);
	}
	{
		int mem = 0, ecs = 0, procs = 0, regs = 0, works = 0;
		for (i = 0; i < nb; i++) mem += B[i].live;
		for (i = 0; i < ne; i++) ecs += E[i].live;
		for (i = 0; i < np; i++) procs += P[i].live;
		for (i = 0; i < 5; i++) regs += R[i].on;
		for (i = 0; i < nw; i++) works += W[i].pend;
		ev0("fin"); fprintf(O, ",\"mem\":%d,\"ecs\":%d,\"procs\":%d,\"regs\":%d,\"works\":%d", mem, ecs, procs, regs, works); ev1();
	}
	die();
}

int main(int argc, char **argv)
{
	FILE *f = fopen(argv[1], "r"); char *L[512]; int n = 0; char b[8192];
	O = fopen(argv[2], "w");
	while (fgets(b, sizeof(b), f)) {
		b[strcspn(b, "\n")] = 0;
		if (!strncmp(b, "S ", 2)) { sid = atoi(b + 2); n = 0; continue; }
		if (!strcmp(b, "E")) {
			pid_t p; int st;
			fflush(O);
			p = fork();
			if (!p) scenario(L, n);
			waitpid(p, &st, 0);
			fseek(O, 0, SEEK_END);
			if (!WIFEXITED(st) || WEXITSTATUS(st)) { cur = 0; ev0("crash"); ev1(); }
			cur = 0; ev0("end"); ev1(); fflush(O);
			while (n) free(L[--n]);
			continue;
		}
		if (n < 512) L[n++] = strdup(b);
	}
	fclose(O);
	return 0;
}
