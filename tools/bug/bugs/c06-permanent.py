PROP="C06"
NEEDS="a safe read that runs into a permanent lag failure"
BREAKS="a permanent lag predictor failure is recovered from as if it were intermittent"
EDITS=[("src/jitterentropy-base.c","		case JENT_ERR_APT_PERMANENT:\n		case JENT_ERR_LAG_PERMANENT:\n","		case JENT_ERR_APT_PERMANENT:\n"),
("src/jitterentropy-base.c","		case JENT_ERR_LAG:\n		case JENT_ERR_RCT_MEM:\n","		case JENT_ERR_LAG:\n		case JENT_ERR_LAG_PERMANENT:\n		case JENT_ERR_RCT_MEM:\n")]
DEMO=r'''
#include "jd.h"
int main(void)
{
	char b[32]; jd_setup();
	if (jent_entropy_init_ex(3, JENT_FORCE_FIPS)) return 5;
	struct rand_data *ec = jent_entropy_collector_alloc(3, JENT_FORCE_FIPS), *old = ec;
	if (!ec) return 6;
	ec->health_failure = JENT_LAG_FAILURE_PERMANENT;
	ssize_t r = jent_read_entropy_safe(&ec, b, 32);
	if (r != JENT_ERR_LAG_PERMANENT || ec != old) BAD("permanent failure answered with %zd", r);
	return 0;
}
'''
