PROP="C01"
NEEDS="a compliance-mode collector that failed intermittently and is used again with the plain read after the source came back"
BREAKS="a read begins by clearing failures that are not permanent, so a failed collector delivers output again"
EDITS=[("src/jitterentropy-noise.c","""	/* RCT with memory: start a new iteration loop */
	ec->rct_mem_ctr = 0;
""","""	/* RCT with memory: start a new iteration loop */
	ec->rct_mem_ctr = 0;
	/* ... whose verdict is about that loop alone */
	if (!ec->in_recovery)
		ec->health_failure &= ~JENT_RCT_MEM_FAILURE;
""")]
DEMO=r'''
#include "jd.h"
static unsigned seen; static void cb(struct rand_data *ec, unsigned f) { (void)ec; seen |= f; }
/* ramps: d, d+s, d+2s has zero third difference; three steps then a new slope */
static uint64_t m, d = 40000, s = 7;
static uint64_t ramp(void)
{
	static uint64_t k; if (k++ % 17 != 16) return 100;
	m++;
	if (m % 3 == 0) s = 7 + (m * m * 31) % 1009;
	d += s; if (d > 400000) d = 40000 + m % 7919;
	return d;
}
int main(void)
{
	char b[32]; int i; jd_setup(); jent_set_fips_failure_callback(cb);
	if (jent_entropy_init_ex(3, JENT_NTG1)) return 5;
	struct rand_data *ec = jent_entropy_collector_alloc(3, JENT_NTG1);
	if (!ec) return 6;
	/* what a block's recovery left behind: the documented intermittent failure */
	jd_fn = ramp;
	ssize_t r = jent_read_entropy(ec, b, 32);
	if (r >= 0 || !(ec->health_failure & JENT_RCT_MEM_FAILURE) || (ec->health_failure & ~JENT_RCT_MEM_FAILURE)) { ec->health_failure = JENT_RCT_MEM_FAILURE; }
	jd_fn = NULL;
	r = jent_read_entropy(ec, b, 32);
	if (r >= 0) BAD("a failed collector delivered %zd bytes (failures %x)", r, ec->health_failure);
	return 0;
}
'''
