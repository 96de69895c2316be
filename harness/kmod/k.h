/* between the two halves of the stand-in kernel */
#define KT_MAX 12
#define KF_MAX 8
#ifndef __KERNEL__
#include <stdarg.h>
#endif
void *u_raw(unsigned long); int u_strcmp(const char *, const char *); void u_yield(const char *); int u_cur(void);
void u_minit(void *); int u_lock(void *, int); int u_trylock(void *); void u_unlock(void *); int u_islocked(void *);
void *u_kmalloc(unsigned long, int); void u_kfree(void *, int, unsigned long); void u_objfree(void *, unsigned long);
unsigned long u_copyout(void *, const void *, unsigned long), u_copyin(void *, void *, unsigned long);
void u_objcheck(const void *, unsigned long); void u_bad(const char *); void u_panic(void);
void u_vprintk(const char *, va_list); void u_seq(const char *); void u_seqn(const char *, unsigned long); void u_vseq(const char *, va_list);
void *u_pmk(const char *, const char *, void *, void *, void *); void u_prm(void *);
int u_reg(const char *, int); void u_unreg(const char *); void u_regname(const char *, const char *, int); void *u_dent(void);
int u_env(const char *); int u_fault(const char *, int);
int u_queue(void *, unsigned long, unsigned long); int u_cancel(void *, int);
unsigned int u_rnd(void);
void *u_ecnew(unsigned long); void u_ecfree(void *); void u_ecreplace(void *, void *); int u_ecmarked(void *); void u_ecmark(void *);
void u_ev_alloc(void *, unsigned int, unsigned int, int); void u_fields(unsigned int, unsigned int, unsigned int, unsigned int, unsigned long long, unsigned long long);
void u_ev_end(void); void u_ev_rnull(void); void u_ev_rb(void *, unsigned long); void u_ev_re(void *, long, const void *, unsigned long);
void u_gen(void *, unsigned long); void u_sig(void); void u_setnb(void);
void u_ev_lib(const char *, void *, int); int u_status(void *, char *, unsigned long); int u_uuid(void *, char *, unsigned long);
void u_ev_init(unsigned int, unsigned int, int); unsigned long long u_meas(int, void *, unsigned long long, int, int);

void k_current(int), k_signal(int, int), k_resched(int, int); int k_param(const char *, unsigned int); long k_param_get(const char *);
long k_load(void); void k_unload(void); long k_show(void *, void *);
long k_open(int, int), k_close(int), k_read(int, void *, unsigned long, int), k_ioctl(int, unsigned int, void *);
long long k_pos(int); void k_setnb(void); unsigned int k_cmd(const char *);
void k_statarg(void *, void *, unsigned int); unsigned int k_statlen(void *); unsigned long k_statbuf(void *);
int k_hwread(void *, unsigned long, int), k_hwquality(void); long k_tinit(int); void k_texit(int), k_tfail(int); int k_tgen(int, void *, unsigned int), k_tseed(int);
void k_work(void *); void k_setfips(int);
