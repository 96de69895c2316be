PROP="C18"
NEEDS="a self test failing for a collector that has a health failure pending and recovers in a safe read"
BREAKS="the failed self test mark of a collector is checked only before the first block of a request"
EDITS=[("src/jitterentropy-base.c","		if (ec->selftest_failed) {\n","		if (p == data && ec->selftest_failed) {\n")]
DEMO=r'''
#include "jd.h"
int main(void)
{
	char b[96]; jd_setup();
	if (jent_entropy_init_ex(3, JENT_DISABLE_INTERNAL_TIMER)) return 5;
	struct rand_data *ec = jent_entropy_collector_alloc(3, JENT_DISABLE_INTERNAL_TIMER);
	if (!ec) return 6;
	uint64_t start = jd_reads;
	/* what a failing jent_selftest(ec) on another thread does in the middle of block 2 */
	uint64_t inc(void) { if (jd_reads - start == 17 * 1000) ec->selftest_failed = 1; return jd_noise(); }
	jd_fn = inc;
	ssize_t r = jent_read_entropy(ec, b, 96);
	if (r != JENT_ERR_SELFTEST) BAD("request in flight returned %zd", r);
	return 0;
}
'''
