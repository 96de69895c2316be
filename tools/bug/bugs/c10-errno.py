PROP="C10"
NEEDS="a compliance-mode allocation where the memory lock is refused with EAGAIN at one of its allocations"
BREAKS="a lock refused with EAGAIN is tolerated even when locking was required"
EDITS=[("arch/jitterentropy-arch-memory.c","		    ((flags & JENT_FORCE_SECURE_MEM) ||\n		     (errno != EPERM && errno != ENOMEM && errno != EAGAIN))) {\n","		    errno != EAGAIN &&\n		    ((flags & JENT_FORCE_SECURE_MEM) ||\n		     (errno != EPERM && errno != ENOMEM))) {\n")]
DEMO=r'''
#include "jd.h"
static int refuse;
int __real_mlock(const void *, size_t);
int __wrap_mlock(const void *a, size_t n) { if (refuse) { errno = refuse; return -1; } return __real_mlock(a, n); }
int main(void)
{
	jd_setup();
	if (jent_entropy_init_ex(3, JENT_FORCE_FIPS)) return 5;
	refuse = EAGAIN;
	if (jent_entropy_collector_alloc(3, JENT_FORCE_FIPS)) BAD("FIPS collector handed out on unlocked memory");
	return 0;
}
'''
LINK="-Wl,--wrap=mlock"
