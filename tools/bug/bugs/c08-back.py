PROP="C08"
NEEDS="a clock that steps backward four times or more where one of the steps falls into the warm-up phase"
BREAKS="backward steps during the warm-up are counted although only the test measurements are, so a clock with three steps in the test phase and one before is refused"
EDITS=[("src/jitterentropy-base.c","		if (i < 0)\n			continue;\n\n		if (stuck)\n			count_stuck++;\n\n		/* test whether we have an increasing timer */\n		if (!(end_time > start_time))\n			time_backwards++;\n","		/* test whether we have an increasing timer */\n		if (!(end_time > start_time))\n			time_backwards++;\n\n		if (i < 0)\n			continue;\n\n		if (stuck)\n			count_stuck++;\n")]
DEMO=r'''
#include "jd.h"
int main(void)
{
	jd_setup();
	/* readings come 17 per measurement; measurement 0 primes, 1..100 warm up, 101.. test */
	uint64_t inc(void) {
		uint64_t m = (jd_reads - 1) / 17, k = (jd_reads - 1) % 17, v = jd_noise();
		if (k == 16 && (m == 50 || m == 200 || m == 300 || m == 400)) return (uint64_t)-3000000 + v;
		return v; }
	jd_fn = inc; jd_now = 1ull << 40;
	int r = jent_entropy_init_ex(3, JENT_DISABLE_INTERNAL_TIMER);
	if (r) BAD("three backward steps in the test phase refused with %d", r);
	return 0;
}
'''
