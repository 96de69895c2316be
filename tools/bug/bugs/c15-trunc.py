PROP="C15"
NEEDS="a status buffer exactly as long as the document plus its terminator minus one, or one byte longer"
BREAKS="a truncated document is reported as complete"
EDITS=[("src/jitterentropy-status.c","	return (used >= buflen - 1) ? -1 : 0;\n","	return (used >= buflen - 1 && buf[used - 1] != '\\n') ? -1 : 0;\n")]
DEMO=r'''
#include "jd.h"
int main(void)
{
	static char full[8192], b[8192]; jd_setup();
	if (jent_entropy_init_ex(3, JENT_DISABLE_INTERNAL_TIMER)) return 5;
	struct rand_data *ec = jent_entropy_collector_alloc(3, JENT_DISABLE_INTERNAL_TIMER);
	if (!ec || jent_status(ec, full, sizeof full)) return 6;
	for (size_t n = 1; n <= strlen(full); n++) if (!jent_status(ec, b, n)) BAD("buffer of %zu reported complete, document has %zu", n, strlen(full));
	return 0;
}
'''
