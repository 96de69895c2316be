PROP="C13"
NEEDS="stuck measurements during the collection of a block"
BREAKS="two stuck measurements in a row are credited as one good one"
EDITS=[("src/jitterentropy-noise.c","""		if (measure_jitter(ec, 0, NULL))
			continue;
""","""		if (measure_jitter(ec, 0, NULL) &&
		    measure_jitter(ec, 0, NULL) && ec->rct_count > 2)
			continue;
""")]
DEMO=r'''
#include "jd.h"
#include "jitterentropy-health.h"
int main(void)
{
	char b[32]; jd_setup();
	if (jent_entropy_init_ex(3, JENT_DISABLE_INTERNAL_TIMER)) return 5;
	struct rand_data *ec = jent_entropy_collector_alloc(3, JENT_DISABLE_INTERNAL_TIMER);
	if (!ec) return 6;
	/* every fourth measurement is stuck (equal deltas in a row) */
	uint64_t start = jd_reads, last = 900000, lastgood = 0, stuck = 0, total = 0, p1 = 0, p2 = 0;
	uint64_t inc(void) {
		uint64_t k = (jd_reads - 1 - start); if (k % 17 != 16) return 0;
		uint64_t m = k / 17; uint64_t d = (m % 4 == 3) ? last : 900000 + jd_p5(m + 77) * 3; total++;
		if (d == last || d - last == last - p1) stuck++; p2 = p1; p1 = last; last = d; return d; }
	jd_fn = inc;
	if (jent_read_entropy(ec, b, 32) != 32) return 7;
	/* one priming measurement and 768 good ones */
	if (total < 1 + 768 + stuck - 2) BAD("block from %llu measurements of which %llu stuck", (unsigned long long)total, (unsigned long long)stuck);
	return 0;
}
'''
