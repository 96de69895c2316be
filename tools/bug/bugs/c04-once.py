PROP="C04"
NEEDS="two collectors (or a recovery) of one process that fail with the same set of health failures one after the other"
BREAKS="a failure whose code equals the one reported last is taken for a repetition and not reported, although it is another collector's"
EDITS=[("src/jitterentropy-health.c","	if (cb && ec->health_failure) {\n		cb(ec, ec->health_failure);\n","	if (cb && ec->health_failure) {\n		static unsigned int last = 0;\n\n		/* do not flood the caller with one and the same failure */\n		if (last != ec->health_failure) {\n			last = ec->health_failure;\n			cb(ec, ec->health_failure);\n		}\n")]
DEMO=r'''
#include "jd.h"
static struct rand_data *who[8]; static unsigned n;
static void cb(struct rand_data *ec, unsigned f) { (void)f; if (n < 8 && (!n || who[n - 1] != ec)) who[n++] = ec; }
int main(void)
{
	char b[32]; jd_setup(); jent_set_fips_failure_callback(cb);
	if (jent_entropy_init_ex(3, JENT_FORCE_FIPS)) return 5;
	struct rand_data *a = jent_entropy_collector_alloc(3, JENT_FORCE_FIPS), *c = jent_entropy_collector_alloc(3, JENT_FORCE_FIPS);
	if (!a || !c) return 6;
	jd_zero = 17 * 95; if (jent_read_entropy(a, b, 32) >= 0) return 7;
	jd_zero = 17 * 95; if (jent_read_entropy(c, b, 32) >= 0) return 8;
	for (unsigned i = 0; i < n; i++) if (who[i] == c) return 0;
	BAD("the failure of the second collector was not reported");
}
'''
