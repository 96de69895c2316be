PROP="C11"
NEEDS="an initialization in which the collector allocation of the startup test is refused after the delta history was allocated"
BREAKS="the delta history buffer is leaked (and left unwiped) when the startup test's collector cannot be allocated"
EDITS=[("src/jitterentropy-base.c","	jent_gcd_fini(delta_history, JENT_POWERUP_TESTLOOPCOUNT);\n\n	/* NOOP if notime disabled. Can be done unconditionally */\n	if (ec)\n		jent_notime_unsettick(ec);\n\n	jent_entropy_collector_free(ec);\n\n	return ret;","	if (!ec)\n		return ret;\n\n	/* NOOP if notime disabled. Can be done unconditionally */\n	jent_notime_unsettick(ec);\n\n	jent_gcd_fini(delta_history, JENT_POWERUP_TESTLOOPCOUNT);\n	jent_entropy_collector_free(ec);\n\n	return ret;")]
DEMO=r'''
#include "jd.h"
#include <sys/mman.h>
static int n, deny; static long out;
void *__real_mmap(void *, size_t, int, int, int, off_t); int __real_munmap(void *, size_t);
void *__wrap_mmap(void *a, size_t l, int p, int f, int d, off_t o) { if (deny && ++n == deny) { errno = ENOMEM; return MAP_FAILED; } out++; return __real_mmap(a, l, p, f, d, o); }
int __wrap_munmap(void *a, size_t l) { out--; return __real_munmap(a, l); }
int main(void)
{
	jd_setup();
	for (int i = 1; i < 6; i++) { n = 0; deny = i; out = 0;
		if (!jent_entropy_init_ex(3, JENT_DISABLE_INTERNAL_TIMER)) break;
		if (out) BAD("mapping refused at %d: %ld mappings left", i, out); }
	return 0;
}
'''
LINK="-Wl,--wrap=mmap,--wrap=munmap"
