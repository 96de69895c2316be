PROP="C16"
NEEDS="getrandom delivering the 16 bytes in more than one piece"
BREAKS="a short getrandom followed by an interruption starts over but keeps the count, so the identifier contains bytes that are not random"
EDITS=[("arch/jitterentropy-arch-random.c","		ssize_t r = getrandom(buf + i, len - i, 0);\n","		ssize_t r = getrandom(buf, len - i, 0);\n")]
DEMO=r'''
#include "jd.h"
static int n;
ssize_t __wrap_getrandom(void *b, size_t l, unsigned f) { (void)f; size_t k = l > 5 ? 5 : l; memset(b, ++n, k); return (ssize_t)k; }
int main(void)
{
	char u[64]; jd_setup();
	if (jent_entropy_init_ex(3, JENT_DISABLE_INTERNAL_TIMER)) return 5;
	struct rand_data *ec = jent_entropy_collector_alloc(3, JENT_DISABLE_INTERNAL_TIMER);
	if (!ec || jent_uuid(ec, u, sizeof u)) return 6;
	if (strcmp(u, "01010101-0102-4202-8202-030303030304")) BAD("uuid %s", u);
	return 0;
}
'''
LINK="-Wl,--wrap=getrandom"
