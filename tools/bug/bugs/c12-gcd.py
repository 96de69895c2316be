PROP="C12"
NEEDS="two successful initializations on clocks with different common divisors"
BREAKS="the common divisor is replaced by a later initialization that finds a smaller one"
EDITS=[("src/jitterentropy-gcd.c","	if (running_gcd && !jent_gcd_tested() &&\n	    !jent_atomic_exchange_int(&jent_common_timer_gcd_claimed, 1)) {\n","	if (running_gcd &&\n	    (!jent_atomic_exchange_int(&jent_common_timer_gcd_claimed, 1) ||\n	     running_gcd < jent_common_timer_gcd)) {\n")]
DEMO=r'''
#include "jd.h"
#include "jitterentropy-gcd.h"
static uint64_t mul = 12; static uint64_t inc(void) { return mul * jd_noise(); }
int main(void)
{
	uint64_t a = 0, b = 0; jd_setup(); jd_fn = inc;
	if (jent_entropy_init_ex(3, JENT_DISABLE_INTERNAL_TIMER) || jent_gcd_get(&a)) return 5;
	/* deltas are not divided before the divisor is established, and are afterwards */
	mul = 12; static uint64_t k; uint64_t inc2(void) { return 12 * jd_noise() + 6 * (k++ & 1); }
	jd_fn = inc2;
	jent_entropy_init_ex(3, JENT_DISABLE_INTERNAL_TIMER);
	mul = 1; jd_fn = inc; jent_entropy_init_ex(3, JENT_DISABLE_INTERNAL_TIMER);
	jent_gcd_get(&b);
	if (a != b) BAD("common divisor changed from %llu to %llu", (unsigned long long)a, (unsigned long long)b);
	return 0;
}
'''
