PROP="C05"
NEEDS="two transparent recoveries of one collector whose caller set no memory size"
BREAKS="the replacement forgets that the caller left the memory size to the library, so from the second recovery on the memory no longer grows"
EDITS=[("src/jitterentropy-base.c","	new_ec->max_mem_set = !!(*ec)->max_mem_set;\n","	new_ec->max_mem_set |= !!(*ec)->max_mem_set;\n")]
DEMO=r'''
#include "jd.h"
int main(void)
{
	char b[32]; jd_setup();
	if (jent_entropy_init_ex(3, JENT_FORCE_FIPS)) return 5;
	struct rand_data *ec = jent_entropy_collector_alloc(3, JENT_FORCE_FIPS);
	if (!ec) return 6;
	for (int i = 0; i < 2; i++) {
		uint32_t before = ec->memmask + 1;
		jd_zero = 17 * 30 * (long)ec->osr;
		if (jent_read_entropy_safe(&ec, b, 32) != 32) return 7;
		if (ec->memmask + 1 != 2 * before) BAD("recovery %d: memory %u -> %u", i + 1, before, ec->memmask + 1);
	}
	return 0;
}
'''
