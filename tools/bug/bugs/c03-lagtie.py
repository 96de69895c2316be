PROP="C03"
NEEDS="a sequence of deltas in which two lags tie on the predictor's scoreboard"
BREAKS="a tie between predictors goes to the longer lag, so the lag predictor guesses differently and its failure comes at a different measurement"
EDITS=[("src/jitterentropy-health.c","			if (ec->lag_scoreboard[i] >\n","			if (ec->lag_scoreboard[i] >=\n")]
DEMO=r'''
#include "jd.h"
#include "jitterentropy-health.h"
int main(void)
{
	struct rand_data *ec = calloc(1, sizeof *ec); unsigned i, n = 0; int fail = -1;
	ec->osr = 3; ec->is_fips_enabled = 1; ec->jent_common_timer_gcd = 1;
	jent_health_init(ec, jent_health_init_type_common);
	/* period 4 for 60 symbols (lags 3 and 7 tie), then period 8 */
	static const unsigned p4[4] = { 1000, 1300, 2100, 1700 };
	static const unsigned p8[8] = { 1000, 1300, 2100, 1700, 1000, 1300, 2100, 9700 };
	for (i = 0; i < 140; i++) {
		jent_stuck(ec, i < 60 ? p4[i % 4] : p8[i % 8]);
		n += ec->lag_prediction_success_run == 0;
	}
	/* a reference predictor */
	unsigned long long h[140]; unsigned sb[8] = {0}, best = 0, run = 0, nn = 0;
	for (i = 0; i < 140; i++) {
		unsigned long long c = i < 60 ? p4[i % 4] : p8[i % 8];
		if (i >= 8) {
			if (h[i - 1 - best] == c) run++; else run = 0;
			for (unsigned k = 0; k < 8; k++) if (h[i - 1 - k] == c && ++sb[k] > sb[best]) best = k;
		}
		h[i] = c; nn += run == 0;
	}
	if (n != nn) BAD("the lag predictor missed %u times, the definition says %u", n, nn);
	return 0;
}
'''
