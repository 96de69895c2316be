PROP="C07"
NEEDS="a successful initialization, then one for NTG.1 that fails its clock test, then an allocation"
BREAKS="an NTG.1 initialization failing in the clock test no longer withdraws the earlier success: the next allocation skips the startup test"
EDITS=[("src/jitterentropy-base.c","""	if (ret && !(flags & (JENT_DISABLE_INTERNAL_TIMER | JENT_NTG1)))
		ret = jent_time_entropy_init(osr,
""","""	if (ret && (flags & JENT_NTG1))
		return ret;

	if (ret && !(flags & JENT_DISABLE_INTERNAL_TIMER))
		ret = jent_time_entropy_init(osr,
""")]
DEMO=r'''
#include "jd.h"
int main(void)
{
	jd_setup();
	if (jent_entropy_init_ex(3, JENT_DISABLE_INTERNAL_TIMER)) return 5;
	jd_zero = 500;
	if (!jent_entropy_init_ex(3, JENT_NTG1)) return 6;
	jd_reads = 0; jd_zero = 0;
	struct rand_data *ec = jent_entropy_collector_alloc(3, JENT_DISABLE_INTERNAL_TIMER);
	if (!ec) return 7;
	/* startup test: 1125 measurements, then the first block 769 */
	if (jd_reads < 17 * (1125 + 769)) BAD("allocation after a failed init took only %llu readings", (unsigned long long)jd_reads);
	return 0;
}
'''
