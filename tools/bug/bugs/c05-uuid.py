PROP="C05"
NEEDS="a collector that recovers twice (the re-initialization count must keep counting)"
BREAKS="the count of re-initializations is taken from the replacement's own startup resets instead of the predecessor, so it restarts at one with each recovery"
EDITS=[("src/jitterentropy-base.c","	new_ec->reinit_count = (*ec)->reinit_count + 1;\n","	new_ec->reinit_count++;\n")]
DEMO=r'''
#include "jd.h"
int main(void)
{
	char b[32]; jd_setup();
	if (jent_entropy_init_ex(3, JENT_FORCE_FIPS)) return 5;
	struct rand_data *ec = jent_entropy_collector_alloc(3, JENT_FORCE_FIPS);
	if (!ec) return 6;
	for (unsigned i = 1; i <= 3; i++) {
		jd_zero = 17 * 30 * (long)ec->osr;
		if (jent_read_entropy_safe(&ec, b, 32) != 32) return 7;
		if (ec->reinit_count != i) BAD("recovery %u counted as %u", i, ec->reinit_count);
	}
	return 0;
}
'''
