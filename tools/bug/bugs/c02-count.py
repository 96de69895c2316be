PROP="C02"
NEEDS="a multi-block read that fails after at least one complete block"
BREAKS="the lifetime byte counter includes blocks of a request that failed"
EDITS=[("src/jitterentropy-base.c","		len -= tocopy;\n		p += tocopy;\n	}\n\n	/*\n	 * Enhanced","		len -= tocopy;\n		p += tocopy;\n		ec->bytes_output += tocopy;\n	}\n\n	/*\n	 * Enhanced"),
("src/jitterentropy-base.c","	if (!ret) {\n		ec->read_invocations++;\n		ec->bytes_output += orig_len;\n	}\n","	if (!ret)\n		ec->read_invocations++;\n")]
DEMO=r'''
#include "jd.h"
int main(void)
{
	char b[96]; jd_setup();
	if (jent_entropy_init_ex(3, JENT_FORCE_FIPS)) return 5;
	struct rand_data *ec = jent_entropy_collector_alloc(3, JENT_FORCE_FIPS);
	if (!ec) return 6;
	uint64_t start = jd_reads;
	uint64_t inc(void) { return jd_reads - start > 17 * 1500 ? 0 : jd_noise(); }
	jd_fn = inc;
	if (jent_read_entropy(ec, b, 96) >= 0) return 7;
	if (ec->bytes_output || ec->read_invocations) BAD("a failed read was counted: %llu bytes", (unsigned long long)ec->bytes_output);
	return 0;
}
'''
