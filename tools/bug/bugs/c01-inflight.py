PROP="C01"
NEEDS="a compliance-mode request of several blocks whose noise source fails after the first block of the request"
BREAKS="the health verdict is only evaluated at the ends of a request: after a failure in a middle block further output blocks are still produced"
EDITS=[("src/jitterentropy-base.c","		if ((health_test_result = jent_health_failure(ec))) {\n			if (health_test_result & JENT_RCT_FAILURE_PERMANENT)\n","		/* an error is reported for the whole request: look at its ends */\n		if (p != data && len > (DATA_SIZE_BITS / 8))\n			health_test_result = 0;\n		else\n			health_test_result = jent_health_failure(ec);\n		if (health_test_result) {\n			if (health_test_result & JENT_RCT_FAILURE_PERMANENT)\n")]
DEMO=r'''
#include "jd.h"
static unsigned calls; static uint64_t at;
static void cb(struct rand_data *ec, unsigned f) { (void)ec; (void)f; if (!calls++) at = jd_reads; }
int main(void)
{
	static char b[32 * 5], z[32 * 5]; jd_setup(); jent_set_fips_failure_callback(cb);
	if (jent_entropy_init_ex(3, JENT_FORCE_FIPS)) return 5;
	struct rand_data *ec = jent_entropy_collector_alloc(3, JENT_FORCE_FIPS);
	if (!ec) return 6;
	memset(b, 0x5a, sizeof b); memset(z, 0x5a, sizeof z);
	uint64_t start = jd_reads;
	/* the source dies in block 2 for 92 measurements, then comes back */
	uint64_t inc(void) { uint64_t k = (jd_reads - start) / 17; return (k > 1200 && k < 1300) ? 0 : jd_noise(); }
	jd_fn = inc;
	ssize_t r = jent_read_entropy(ec, b, sizeof b);
	if (r >= 0) BAD("read succeeded");
	if (memcmp(b + 32, z + 32, sizeof b - 32)) BAD("output was delivered past the failed block");
	return 0;
}
'''
