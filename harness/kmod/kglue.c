/* The kernel's side of the stand-in kernel: everything that needs the kernel's
 * own structures.  Compiled with the installed kernel headers, like the module. */
#include <linux/module.h>
#include <linux/moduleparam.h>
#include <linux/kernel.h>
#include <linux/sched.h>
#include <linux/sched/signal.h>
#include <linux/fs.h>
#include <linux/miscdevice.h>
#include <linux/hw_random.h>
#include <linux/crypto.h>
#include <crypto/internal/rng.h>
#include <linux/workqueue.h>
#include <linux/timer.h>
#include <linux/seq_file.h>
#include <linux/proc_fs.h>
#include <linux/debugfs.h>
#include <linux/security.h>
#include <linux/slab.h>
#include <linux/mm.h>
#include <linux/ratelimit.h>
#include <linux/uaccess.h>
#include "jitterentropy-internal.h"
#include "jitterentropy.h"
#include "jitterentropy_uapi.h"
#include "k.h"

/* current */
DEFINE_PER_CPU_ALIGNED(struct pcpu_hot, pcpu_hot);
static struct task_struct *tasks[KT_MAX];
void k_current(int t)
{
	if (!tasks[t]) tasks[t] = u_raw(sizeof(struct task_struct));
	*(struct task_struct **)&pcpu_hot = tasks[t];
}
void k_signal(int t, int on)
{
	if (!tasks[t]) tasks[t] = u_raw(sizeof(struct task_struct));
	if (on) tasks[t]->thread_info.flags |= (1UL << TIF_SIGPENDING);
	else tasks[t]->thread_info.flags &= ~(1UL << TIF_SIGPENDING);
}
void k_resched(int t, int on)
{
	if (!tasks[t]) tasks[t] = u_raw(sizeof(struct task_struct));
	if (on) tasks[t]->thread_info.flags |= (1UL << TIF_NEED_RESCHED);
	else tasks[t]->thread_info.flags &= ~(1UL << TIF_NEED_RESCHED);
}
int __SCT__cond_resched(void) { u_yield("resched"); return 0; }
int __cond_resched(void) { u_yield("resched"); return 0; }
void schedule(void) { u_yield("resched"); }

struct module *k_mod;
struct module __this_module;
const struct kernel_param_ops param_ops_bool, param_ops_uint, param_ops_int, param_ops_ulong, param_ops_charp;
#undef fips_enabled
int fips_enabled;
struct workqueue_struct *system_power_efficient_wq, *system_wq, *system_unbound_wq, *system_long_wq, *system_highpri_wq, *system_freezable_wq;
struct kmem_cache *kmalloc_caches[NR_KMALLOC_TYPES][KMALLOC_SHIFT_HIGH + 1];
unsigned long random_kmalloc_seed;

/* parameters of the module */
extern const struct kernel_param __start___param[], __stop___param[];
int k_param(const char *n, unsigned int v)
{
	const struct kernel_param *p;
	for (p = __start___param; p < __stop___param; p++)
		if (!u_strcmp(p->name, n)) {
			if (p->ops == &param_ops_bool) *(bool *)p->arg = !!v;
			else *(unsigned int *)p->arg = v;
			return 0;
		}
	return -1;
}
long k_param_get(const char *n)
{
	const struct kernel_param *p;
	for (p = __start___param; p < __stop___param; p++)
		if (!u_strcmp(p->name, n))
			return p->ops == &param_ops_bool ? *(bool *)p->arg : *(unsigned int *)p->arg;
	return -1;
}
extern int init_module(void);
extern void cleanup_module(void);
long k_load(void) { return init_module(); }
void k_unload(void) { cleanup_module(); }

/* mutexes */
void __mutex_init(struct mutex *m, const char *n, struct lock_class_key *k) { u_minit(m); }
void mutex_lock(struct mutex *m) { u_lock(m, 0); }
int mutex_lock_interruptible(struct mutex *m) { return u_lock(m, 1) ? -EINTR : 0; }
int mutex_lock_killable(struct mutex *m) { return u_lock(m, 1) ? -EINTR : 0; }
int mutex_trylock(struct mutex *m) { return u_trylock(m); }
void mutex_unlock(struct mutex *m) { u_unlock(m); }
bool mutex_is_locked(struct mutex *m) { return u_islocked(m); }

/* memory */
void *kvmalloc_node(size_t n, gfp_t f, int node) { return u_kmalloc(n, !!(f & __GFP_ZERO)); }
void *__kmalloc(size_t n, gfp_t f) { return u_kmalloc(n, !!(f & __GFP_ZERO)); }
void *__kmalloc_node(size_t n, gfp_t f, int node) { return u_kmalloc(n, !!(f & __GFP_ZERO)); }
void *kmalloc_large(size_t n, gfp_t f) { return u_kmalloc(n, !!(f & __GFP_ZERO)); }
void *kmalloc_trace(struct kmem_cache *s, gfp_t f, size_t n) { return u_kmalloc(n, !!(f & __GFP_ZERO)); }
void *kmalloc_node_trace(struct kmem_cache *s, gfp_t f, int node, size_t n) { return u_kmalloc(n, !!(f & __GFP_ZERO)); }
void *vmalloc(unsigned long n) { return u_kmalloc(n, 0); }
void *vzalloc(unsigned long n) { return u_kmalloc(n, 1); }
void kvfree(const void *p) { u_kfree((void *)p, 0, 0); }
void kfree(const void *p) { u_kfree((void *)p, 0, 0); }
void vfree(const void *p) { u_kfree((void *)p, 0, 0); }
void kfree_sensitive(const void *p) { u_kfree((void *)p, 1, 0); }
void kvfree_sensitive(const void *p, size_t n) { u_kfree((void *)p, 2, n); }
void *memdup_user(const void __user *s, size_t n)
{
	void *p = u_kmalloc(n, 0);
	if (!p) return ERR_PTR(-ENOMEM);
	if (u_copyin(p, (void *)s, n)) { u_kfree(p, 0, 0); return ERR_PTR(-EFAULT); }
	return p;
}
void *kmemdup(const void *s, size_t n, gfp_t f) { void *p = u_kmalloc(n, 0); if (p) memcpy(p, s, n); return p; }
char *kstrdup(const char *s, gfp_t f) { return s ? kmemdup(s, __builtin_strlen(s) + 1, f) : NULL; }
void *kvmemdup(const void *s, size_t n, gfp_t f) { return kmemdup(s, n, f); }
void *__kmalloc_node_track_caller(size_t n, gfp_t f, int node, unsigned long c) { return u_kmalloc(n, !!(f & __GFP_ZERO)); }
void *__vmalloc(unsigned long n, gfp_t f) { return u_kmalloc(n, !!(f & __GFP_ZERO)); }

/* text */
extern int vsnprintf(char *, size_t, const char *, va_list);
int vscnprintf(char *b, size_t n, const char *f, va_list a)
{
	int r = vsnprintf(b, n, f, a);
	return n == 0 ? 0 : r < n ? r : n - 1;
}
int scnprintf(char *b, size_t n, const char *f, ...)
{
	va_list a; int r;
	va_start(a, f); r = vscnprintf(b, n, f, a); va_end(a);
	return r;
}
char *kasprintf(gfp_t g, const char *f, ...)
{
	va_list a; int n; char *p;
	va_start(a, f); n = vsnprintf(NULL, 0, f, a); va_end(a);
	p = u_kmalloc(n + 1, 0);
	if (p) { va_start(a, f); vsnprintf(p, n + 1, f, a); va_end(a); }
	return p;
}
#undef strscpy
ssize_t strscpy(char *d, const char *s, size_t n)
{
	size_t i;
	for (i = 0; i < n; i++) if (!(d[i] = s[i])) return i;
	if (n) d[n - 1] = 0;
	return -E2BIG;
}

/* short critical sections: nothing is scheduled inside them */
void __raw_spin_lock_init(raw_spinlock_t *l, const char *n, struct lock_class_key *k, short i) { }
void _raw_spin_lock(raw_spinlock_t *l) { }
void _raw_spin_unlock(raw_spinlock_t *l) { }
void _raw_spin_lock_irq(raw_spinlock_t *l) { }
void _raw_spin_unlock_irq(raw_spinlock_t *l) { }
void _raw_spin_lock_bh(raw_spinlock_t *l) { }
void _raw_spin_unlock_bh(raw_spinlock_t *l) { }
unsigned long _raw_spin_lock_irqsave(raw_spinlock_t *l) { return 0; }
void _raw_spin_unlock_irqrestore(raw_spinlock_t *l, unsigned long f) { }
void refcount_warn_saturate(refcount_t *r, enum refcount_saturation_type t) { u_bad("reference count"); }
bool __list_add_valid_or_report(struct list_head *n, struct list_head *p, struct list_head *x) { return true; }
bool __list_del_entry_valid_or_report(struct list_head *e) { return true; }
void synchronize_rcu(void) { }
void msleep(unsigned int ms) { u_yield("resched"); }
void usleep_range_state(unsigned long a, unsigned long b, unsigned int s) { u_yield("resched"); }
signed long schedule_timeout(signed long t) { u_yield("resched"); return 0; }
signed long schedule_timeout_interruptible(signed long t) { u_yield("resched"); return 0; }
signed long schedule_timeout_uninterruptible(signed long t) { u_yield("resched"); return 0; }
void yield(void) { u_yield("resched"); }

/* user memory */
unsigned long _copy_to_user(void __user *to, const void *from, unsigned long n) { return u_copyout((void *)to, from, n); }
unsigned long _copy_from_user(void *to, const void __user *from, unsigned long n)
{
	unsigned long l = u_copyin(to, (void *)from, n);
	if (l) memset((char *)to + (n - l), 0, l);
	return l;
}
void __check_object_size(const void *p, unsigned long n, bool to) { u_objcheck(p, n); }
void __copy_overflow(int size, unsigned long count) { u_bad("copy larger than its object"); }
void fortify_panic(const char *name) { u_bad("fortify"); }
void __fortify_panic(const u8 r, const size_t a, const size_t s) { u_bad("fortify"); }
void __warn_printk(const char *f, ...) { }
asm(".globl __put_user_1,__put_user_2,__put_user_4,__put_user_8,__get_user_1,__get_user_2,__get_user_4,__get_user_8\n"
    ".text\n__put_user_1: movb %al,(%rcx); xor %ecx,%ecx; ret\n__put_user_2: movw %ax,(%rcx); xor %ecx,%ecx; ret\n"
    "__put_user_4: movl %eax,(%rcx); xor %ecx,%ecx; ret\n__put_user_8: movq %rax,(%rcx); xor %ecx,%ecx; ret\n"
    "__get_user_1: movzbl (%rax),%edx; xor %eax,%eax; ret\n__get_user_2: movzwl (%rax),%edx; xor %eax,%eax; ret\n"
    "__get_user_4: movl (%rax),%edx; xor %eax,%eax; ret\n__get_user_8: movq (%rax),%rdx; xor %eax,%eax; ret\n");

/* messages: not part of any contract, but formatted so that bad arguments show */
int _printk(const char *fmt, ...)
{
	va_list a; va_start(a, fmt); u_vprintk(fmt, a); va_end(a);
	return 0;
}
void panic(const char *fmt, ...) { u_panic(); for (;;); }
int ___ratelimit(struct ratelimit_state *rs, const char *func) { return 1; }

/* seq files */
void seq_puts(struct seq_file *m, const char *s) { u_seq(s); }
void seq_putc(struct seq_file *m, char c) { char b[2] = { c, 0 }; u_seq(b); }
void seq_printf(struct seq_file *m, const char *fmt, ...)
{
	va_list a; va_start(a, fmt); u_vseq(fmt, a); va_end(a);
}
void seq_vprintf(struct seq_file *m, const char *fmt, va_list a) { u_vseq(fmt, a); }
int seq_write(struct seq_file *m, const void *d, size_t n) { u_seqn(d, n); return 0; }

/* proc */
struct proc_dir_entry *proc_mkdir(const char *n, struct proc_dir_entry *p)
{
	return u_pmk("mkdir", n, p, NULL, NULL);
}
struct proc_dir_entry *proc_create_single_data(const char *n, umode_t m, struct proc_dir_entry *p,
					       int (*show)(struct seq_file *, void *), void *data)
{
	return u_pmk("pfile", n, p, show, data);
}
void proc_remove(struct proc_dir_entry *e) { u_prm(e); }
void remove_proc_subtree_dummy(void) { }
long k_show(void *show, void *data)
{
	static struct seq_file sf[KT_MAX];
	struct seq_file *m = &sf[u_cur()];
	memset(m, 0, sizeof(*m));
	m->private = data;
	return ((int (*)(struct seq_file *, void *))show)(m, NULL);
}

/* devices */
static struct miscdevice *misc; static struct hwrng *hw; static struct rng_alg *alg;
static const struct file_operations *rawfops;
int misc_register(struct miscdevice *m)
{
	int r = u_reg("misc", -EBUSY);
	if (!r) { misc = m; u_regname("misc", m->name, m->mode); }
	return r;
}
void misc_deregister(struct miscdevice *m) { u_unreg("misc"); misc = NULL; }
int hwrng_register(struct hwrng *h)
{
	int r = u_reg("hwrng", -EINVAL);
	if (!r) { hw = h; u_regname("hwrng", h->name, h->quality); }
	return r;
}
void hwrng_unregister(struct hwrng *h) { u_unreg("hwrng"); hw = NULL; }
int crypto_register_rng(struct rng_alg *a)
{
	int r = u_reg("rng", -EEXIST);
	if (!r) { alg = a; u_regname("rng", a->base.cra_name, a->base.cra_ctxsize); }
	return r;
}
void crypto_unregister_rng(struct rng_alg *a) { u_unreg("rng"); alg = NULL; }
int crypto_register_rngs(struct rng_alg *a, int n) { return crypto_register_rng(a); }
void crypto_unregister_rngs(struct rng_alg *a, int n) { crypto_unregister_rng(a); }
struct dentry *debugfs_create_dir(const char *n, struct dentry *p)
{
	void *r = u_reg("ddir", 0) ? NULL : u_dent();
	return r ? r : ERR_PTR(-ENOMEM);
}
struct dentry *debugfs_create_file(const char *n, umode_t m, struct dentry *p, void *d, const struct file_operations *f)
{
	void *r = u_reg("raw", 0) ? NULL : u_dent();
	if (r) { rawfops = f; u_regname("raw", n, m); }
	return r ? r : ERR_PTR(-ENOMEM);
}
void debugfs_remove(struct dentry *d)
{
	if (IS_ERR_OR_NULL(d)) return;
	u_unreg("raw"); rawfops = NULL;
}
int security_locked_down(enum lockdown_reason w) { return u_env("locked") ? -EPERM : 0; }
bool capable(int c) { return c == CAP_SYS_ADMIN ? u_env("cap") : u_env("capother"); }
bool ns_capable(struct user_namespace *ns, int c) { return capable(c); }
long compat_ptr_ioctl(struct file *f, unsigned int c, unsigned long a) { return -ENOIOCTLCMD; }

static struct file files[KF_MAX], rdfile[KT_MAX]; static loff_t fpos[KF_MAX], rdpos[KT_MAX], rdpos0[KT_MAX];
static const struct file_operations *ffo[KF_MAX];
long k_open(int f, int raw)
{
	long r;
	const struct file_operations *o = raw ? rawfops : misc ? misc->fops : NULL;
	if (!o) return -ENODEV;
	memset(&files[f], 0, sizeof(files[f])); fpos[f] = 0;
	if (!raw) files[f].private_data = misc;      /* as misc_open() does */
	r = o->open(NULL, &files[f]);
	if (!r) ffo[f] = o;
	return r;
}
long k_close(int f)
{
	return ffo[f]->release ? ffo[f]->release(NULL, &files[f]) : 0;
}
long k_read(int f, void *b, unsigned long n, int nb)
{
	/* the flag is the reader's own: several readers may differ */
	struct file *m = &rdfile[u_cur()];
	long r;
	memcpy(m, &files[f], sizeof(*m));
	if (nb) m->f_flags |= O_NONBLOCK; else m->f_flags &= ~O_NONBLOCK;
	rdpos0[u_cur()] = rdpos[u_cur()] = fpos[f];       /* as ksys_read() does */
	r = ffo[f]->read(m, (char __user *)b, n, &rdpos[u_cur()]);
	if (r >= 0) fpos[f] = rdpos[u_cur()];
	return r;
}
long long k_pos(int z) { return z ? rdpos0[u_cur()] : rdpos[u_cur()]; }
void k_setnb(void) { rdfile[u_cur()].f_flags |= O_NONBLOCK; }
long k_ioctl(int f, unsigned int cmd, void *arg)
{
	return ffo[f]->unlocked_ioctl ? ffo[f]->unlocked_ioctl(&files[f], cmd, (unsigned long)arg) : -ENOTTY;
}
unsigned int k_cmd(const char *n)
{
#define C(x) if (!u_strcmp(n, #x)) return JENT_IOC##x;
	C(STATUS) C(LOOPCNT) C(UUID) C(VERSION) C(OSR) C(FLAGS) C(HEALTH) C(OUTPUT) C(REINIT) C(SELFTEST)
	return 0x4a7f;
}
void k_statarg(void *p, void *buf, unsigned int len) { struct jent_status_ioctl *s = p; s->buf = (unsigned long)buf; s->length = len; }
unsigned int k_statlen(void *p) { return ((struct jent_status_ioctl *)p)->length; }
unsigned long k_statbuf(void *p) { return ((struct jent_status_ioctl *)p)->buf; }
int k_hwread(void *b, unsigned long n, int wait) { return hw->read(hw, b, n, wait); }
int k_hwquality(void) { return hw ? hw->quality : -1; }
static struct crypto_rng *tfms[KF_MAX];
long k_tinit(int k)
{
	long r;
	if (!alg) return -ENODEV;
	tfms[k] = u_raw(sizeof(struct crypto_rng) + alg->base.cra_ctxsize + 64);
	tfms[k]->base.__crt_alg = &alg->base;
	r = alg->base.cra_init ? alg->base.cra_init(&tfms[k]->base) : 0;
	return r;
}
void k_texit(int k)
{
	struct crypto_tfm *t = &tfms[k]->base;
	if (alg->base.cra_exit) alg->base.cra_exit(t);
	u_objfree(tfms[k], sizeof(struct crypto_rng) + alg->base.cra_ctxsize);
}
int k_tgen(int k, void *b, unsigned int n) { return alg->generate(tfms[k], NULL, 0, b, n); }
int k_tseed(int k) { return alg->seed ? alg->seed(tfms[k], NULL, 0) : 0; }
void k_tfail(int k) { u_objfree(tfms[k], sizeof(struct crypto_rng) + alg->base.cra_ctxsize); }

/* deferred work */
void delayed_work_timer_fn(struct timer_list *t) { }
void init_timer_key(struct timer_list *t, void (*f)(struct timer_list *), unsigned int fl, const char *n, struct lock_class_key *k) { }
bool queue_delayed_work_on(int cpu, struct workqueue_struct *wq, struct delayed_work *w, unsigned long d)
{
	return u_queue(&w->work, d / HZ, d % HZ);
}
bool mod_delayed_work_on(int cpu, struct workqueue_struct *wq, struct delayed_work *w, unsigned long d)
{
	return u_queue(&w->work, d / HZ, d % HZ);
}
bool queue_work_on(int cpu, struct workqueue_struct *wq, struct work_struct *w) { return u_queue(w, 0, 0); }
bool cancel_delayed_work_sync(struct delayed_work *w) { return u_cancel(&w->work, 1); }
bool cancel_work_sync(struct work_struct *w) { return u_cancel(w, 1); }
bool cancel_delayed_work(struct delayed_work *w) { return u_cancel(&w->work, 0); }
bool flush_delayed_work(struct delayed_work *w) { return 0; }
void k_work(void *w) { ((struct work_struct *)w)->func(w); }

/* the library */
static void fields(struct rand_data *ec)
{
	u_fields(ec->osr, ec->flags, ec->health_failure, ec->reinit_count, ec->read_invocations, ec->bytes_output);
}
static struct rand_data *newec(unsigned int osr, unsigned int flags, unsigned int reinit)
{
	unsigned int r = u_rnd();
	struct rand_data *ec = u_ecnew(sizeof(*ec));
	ec->osr = osr < 3 ? 3 : osr; ec->flags = flags | ((1 + r % 7) << 27);
	ec->health_failure = (r >> 3) & 0xf000f; ec->reinit_count = reinit + ((r >> 9) & 0xff);
	ec->read_invocations = ((u64)r << 21) ^ 0x1234567; ec->bytes_output = ((u64)r << 13) ^ 0x7654321;
	return ec;
}
struct rand_data *jent_entropy_collector_alloc(unsigned int osr, unsigned int flags)
{
	struct rand_data *ec = NULL;
	u_yield("lalloc");
	if (!u_fault("lalloc", 0)) ec = newec(osr, flags, 0);
	u_ev_alloc(ec, osr, flags, 0); if (ec) fields(ec); u_ev_end();
	return ec;
}
struct rand_data *jent_entropy_collector_alloc_raw(unsigned int osr, unsigned int flags)
{
	struct rand_data *ec = NULL;
	u_yield("lalloc");
	if (!u_fault("lalloc", 0)) ec = newec(osr, flags, 0);
	u_ev_alloc(ec, osr, flags, 1); if (ec) fields(ec); u_ev_end();
	return ec;
}
void jent_entropy_collector_free(struct rand_data *ec) { u_ecfree(ec); }
ssize_t jent_read_entropy_safe(struct rand_data **pec, char *data, size_t len)
{
	struct rand_data *ec = pec ? *pec : NULL, *n;
	int rc, re;
	if (!ec || !data) { u_ev_rnull(); return JENT_ERR_EINVAL; }
	u_ev_rb(ec, len);
	u_yield("lread");
	rc = u_fault("lread", 0);
	re = u_fault("lrealloc", 0);
	if (u_ecmarked(ec)) { rc = JENT_ERR_SELFTEST; re = 0; }
	u_gen(data, rc ? len / 2 : len);
	if (re) {
		n = newec(ec->osr + 1, ec->flags, ec->reinit_count + 1);
		n->read_invocations = ec->read_invocations; n->bytes_output = ec->bytes_output;
		u_ecreplace(ec, n);
		*pec = ec = n;
	}
	if (!rc) {
		ec->read_invocations++;
		u_yield("lread");
		ec->bytes_output += len;
	}
	u_ev_re(ec, rc ? rc : (long)len, data, len); fields(ec); u_ev_end();
	if (u_fault("sig", 0)) u_sig();
	if (u_fault("setnb", 0)) u_setnb();
	return rc ? rc : len;
}
/* reading without recovery: not what the module may do */
ssize_t jent_read_entropy(struct rand_data *ec, char *data, size_t len)
{
	u_ev_lib("unsafe", ec, 0);
	return jent_read_entropy_safe(&ec, data, len);
}
int jent_status(const struct rand_data *ec, char *buf, size_t len)
{
	int rc;
	u_ev_lib("lsb", (void *)ec, 0);
	u_yield("lstatus");
	rc = u_fault("lstatus", 0);
	if (!rc) rc = u_status((void *)ec, buf, len);
	u_ev_lib("lse", (void *)ec, rc);
	return rc;
}
int jent_uuid(const struct rand_data *ec, char *buf, size_t len)
{
	int rc;
	u_ev_lib("lub", (void *)ec, 0);
	rc = u_fault("luuid", 0);
	if (!rc) rc = u_uuid((void *)ec, buf, len);
	u_ev_lib("lue", (void *)ec, rc);
	return rc;
}
int jent_selftest(struct rand_data *ec)
{
	int rc;
	u_ev_lib("lkb", ec, 0);
	u_yield("lself");
	rc = u_fault("lself", 0);
	if (ec && rc) u_ecmark(ec);
	u_ev_lib("lke", ec, rc);
	return rc;
}
unsigned int jent_version(void) { return 0x12345678; }
int jent_fips_enabled(void) { return u_env("libfips"); }
void k_setfips(int v) { fips_enabled = v; }
int jent_entropy_init_ex(unsigned int osr, unsigned int flags)
{
	int rc = u_fault("linit", 0);
	u_ev_init(osr, flags, rc);
	return rc;
}
int jent_entropy_init(void) { return jent_entropy_init_ex(0, 0); }
static unsigned int meas(int fn, struct rand_data *ec, uint64_t l, uint64_t *d)
{
	u64 v = u_meas(fn, ec, l, !!d, ec->is_fips_enabled);
	if (d) *d = v;
	return u_rnd() & 1;
}
unsigned int jent_measure_jitter(struct rand_data *ec, uint64_t l, uint64_t *d) { return meas(0, ec, l, d); }
unsigned int jent_measure_jitter_ntg1_sha3(struct rand_data *ec, uint64_t l, uint64_t *d) { return meas(1, ec, l, d); }
unsigned int jent_measure_jitter_ntg1_memaccess(struct rand_data *ec, uint64_t l, uint64_t *d) { return meas(2, ec, l, d); }
