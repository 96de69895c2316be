"""Edits that keep the behaviour: refs.py [-j N] [ID...]
All are applied together to a copy of /repo under /tmp; every check has to stay quiet on it."""
import os, re, shutil, subprocess, sys, threading, queue, time
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
B, N, H, T, S, ST, G, U = ("src/jitterentropy-%s.c" % x for x in ("base", "noise", "health", "timer", "sha3", "status", "gcd", "uuid"))
A = "arch/jitterentropy-arch-%s.c"
MEM, RND, CACHE = (A % x for x in ("memory", "random", "cache"))
R = []
def r(f, o, n): R.append((f, o, n))

# the order of the error codes in a table, in a function of its own; a for loop
r(B, "JENT_PRIVATE_STATIC\nssize_t jent_read_entropy(struct", """static int jent_error_of(unsigned int result)
{
	static const struct { unsigned int bit; int code; } order[] = {
		{ JENT_RCT_FAILURE_PERMANENT, JENT_ERR_RCT_PERMANENT },
		{ JENT_APT_FAILURE_PERMANENT, JENT_ERR_APT_PERMANENT },
		{ JENT_LAG_FAILURE_PERMANENT, JENT_ERR_LAG_PERMANENT },
		{ JENT_RCT_MEM_FAILURE_PERMANENT, JENT_ERR_RCT_MEM_PERMANENT },
		{ JENT_RCT_FAILURE, JENT_ERR_RCT },
		{ JENT_APT_FAILURE, JENT_ERR_APT },
		{ JENT_RCT_MEM_FAILURE, JENT_ERR_RCT_MEM },
	};
	size_t k;

	for (k = 0; k < sizeof(order) / sizeof(order[0]); k++)
		if (result & order[k].bit)
			return order[k].code;
	return JENT_ERR_LAG;
}

JENT_PRIVATE_STATIC
ssize_t jent_read_entropy(struct""")
r(B, re.compile(r"			if \(health_test_result & JENT_RCT_FAILURE_PERMANENT\).*?ret = JENT_ERR_LAG;\n", re.S), "			ret = jent_error_of(health_test_result);\n")
r(B, "		if ((DATA_SIZE_BITS / 8) < len)\n			tocopy = (DATA_SIZE_BITS / 8);\n		else\n			tocopy = len;\n", "		tocopy = len < (DATA_SIZE_BITS / 8) ? len : (DATA_SIZE_BITS / 8);\n")
r(B, "	while (len > 0) {\n		size_t tocopy;", "	for (; len; ) {\n		size_t tocopy;")
r(B, "	/* Count only the bytes actually delivered to the caller. */\n	if (!ret) {\n		ec->read_invocations++;\n		ec->bytes_output += orig_len;\n	}\n\n	return ret ? ret : (ssize_t)orig_len;", "	if (ret)\n		return ret;\n\n	ec->bytes_output += orig_len;\n	ec->read_invocations++;\n	return (ssize_t)orig_len;")
# carry over in a function, other order
r(B, "static int jent_health_failure_reset(\n", """static void jent_carry_over(struct rand_data *to, struct rand_data *from)
{
	unsigned int k;

	to->bytes_output = from->bytes_output;
	to->read_invocations = from->read_invocations;
	to->reinit_count = 1 + from->reinit_count;
	for (k = 0; k < sizeof(to->uuid); k++)
		to->uuid[k] = from->uuid[k];
	jent_rct_mem_duplicate(to, from);
	jent_lag_duplicate(to, from);
	jent_rct_duplicate(to);
	jent_apt_duplicate(to, from);
	to->max_mem_set = from->max_mem_set ? 1 : 0;
}

static int jent_health_failure_reset(
""")
r(B, re.compile(r"	/\* Remember whether caller configured memory size \*/\n.*?new_ec->bytes_output = \(\*ec\)->bytes_output;\n", re.S), "	jent_carry_over(new_ec, *ec);\n")
r(B, "	while (jent_entropy_init_ex(osr, flags)) {\n		osr++;\n		if (osr > JENT_MAX_OSR)\n			return -1;\n	}\n", "	for (;;) {\n		if (!jent_entropy_init_ex(osr, flags))\n			break;\n		if (++osr > JENT_MAX_OSR)\n			return -1;\n	}\n")
# configuration: other order of the refusals, the compliance modes in one place
r(B, "	if (jent_notime_forced() && (flags & JENT_DISABLE_INTERNAL_TIMER))\n		return NULL;\n\n	entropy_collector = jent", "	if ((flags & JENT_DISABLE_INTERNAL_TIMER) && jent_notime_forced())\n		return NULL;\n\n	entropy_collector = jent")
r(B, re.compile(r"	if \(\(flags & JENT_FORCE_FIPS\) \|\| jent_fips_enabled\(\)\) \{\n.*?is_fips_enabled = 1;\n	\}\n", re.S), "")
r(B, "	if (flags & JENT_NTG1) {\n		entropy_collector->startup_state = jent_startup_memory;", "	if ((flags & (JENT_NTG1 | JENT_FORCE_FIPS)) || jent_fips_enabled()) {\n		entropy_collector->startup_state = jent_startup_memory;")
r(B, "	/*\n	 * Ensure over sampling rate is not too low.\n	 */\n	osr = ensure_osr_is_at_least_minimal(osr);\n", "	if (osr < JENT_MIN_OSR)\n		osr = JENT_MIN_OSR;\n")
r(B, re.compile(r"static unsigned int ensure_osr_is_at_least_minimal.*?\n}\n", re.S), "")
# startup of a collector as an endless loop
r(B, "	do {\n		jent_random_data(ec);\n", "	for (;;) {\n		jent_random_data(ec);\n")
r(B, "	} while (ec->startup_state != jent_startup_completed);\n", "		if (ec->startup_state == jent_startup_completed)\n			break;\n	}\n")
r(B, "			/* Rerun startup sequence */\n			continue;\n", "			if (ec->startup_state == jent_startup_completed)\n				break;\n			continue;\n")
# startup test: counters kept differently
r(B, "		if (stuck)\n			count_stuck++;\n\n		/* test whether we have an increasing timer */\n		if (!(end_time > start_time))\n			time_backwards++;\n", "		count_stuck += !!stuck;\n		if (start_time >= end_time)\n			time_backwards += 1;\n")
r(B, "		if (!start_time || !end_time) {\n			ret = ENOTIME;\n			goto out;\n		}\n", "		if (start_time == 0 || end_time == 0)\n			ret = ENOTIME;\n		if (ret)\n			goto out;\n")
r(B, "	for (i = -CLEARCACHE; i < JENT_POWERUP_TESTLOOPCOUNT; i++) {", "	for (i = 0 - CLEARCACHE; i != JENT_POWERUP_TESTLOOPCOUNT; ++i) {")
# stuck test and order of the tests
r(H, "	unsigned int stuck = !current_delta || !delta2 || !delta3;\n", "	unsigned int stuck = (current_delta && delta2 && delta3) ? 0 : 1;\n")
r(H, "	jent_apt_insert(ec, current_delta);\n	jent_lag_insert(ec, current_delta);\n\n	/* RCT with stuck result */\n	jent_rct_insert(ec, stuck);\n", "	jent_rct_insert(ec, stuck);\n	jent_lag_insert(ec, current_delta);\n	jent_apt_insert(ec, current_delta);\n")
r(H, "	if (cb && ec->health_failure) {\n		cb(ec, ec->health_failure);\n	}\n\n	return ec->health_failure;", "	if (!ec->health_failure)\n		return 0;\n	if (cb != NULL)\n		cb(ec, ec->health_failure);\n	return ec->health_failure;")
# noise: loops written another way
r(N, "	for (i = 0; i < mem_loop_cnt; i++) {\n		unsigned char *tmpval = ec->mem + ec->memlocation;", "	while (mem_loop_cnt--) {\n		unsigned char *tmpval = &ec->mem[ec->memlocation];")
r(N, "		ec->memlocation = ec->memlocation + JENT_MEMORY_BLOCKSIZE - 1;\n		ec->memlocation = ec->memlocation % wrap;\n", "		ec->memlocation = (ec->memlocation + JENT_MEMORY_BLOCKSIZE - 1) & (wrap - 1);\n")
r(N, "	unsigned int wrap = 0;\n	uint64_t i = 0;\n", "	unsigned int wrap = 0;\n")
# divisor: sum and divisor in two passes, gcd by recursion of the other kind
r(G, "	running_gcd = delta_history[0];\n", "	running_gcd = delta_history[0];\n	for (i = 1; i < nelem; i++)\n		running_gcd = jent_gcd64(running_gcd, delta_history[i]);\n")
r(G, "		running_gcd = jent_gcd64(delta_history[i], running_gcd);\n", "")
# identifier
r(U, "		out[j++] = hex[b[i] >> 4];\n		out[j++] = hex[b[i] & 0x0f];\n", "		unsigned int q = b[i];\n\n		out[j] = hex[q / 16];\n		out[j + 1] = hex[q % 16];\n		j += 2;\n")
# random bytes one at a time
r(RND, "		ssize_t r = read(fd, buf + i, len - i);\n", "		ssize_t r = read(fd, &buf[i], 1);\n")
# timer
r(T, "	ec->notime_interrupt = 0;\n	ec->notime_prev_timer = 0;\n	ec->notime_timer = 0;\n", "	ec->notime_timer = 0;\n	ec->notime_prev_timer = 0;\n	ec->notime_interrupt = 0;\n")
r(T, "	while (1) {\n		if (ec->notime_interrupt)\n			goto out;\n\n		ec->notime_timer++;\n	}\n\nout:\n", "	while (!ec->notime_interrupt)\n		ec->notime_timer++;\n\n")
# memory: wiped byte by byte
r(MEM, "	memset(s, 0, n);\n	__asm__", "	volatile unsigned char *q = s;\n	size_t k;\n\n	for (k = 0; k < n; k++)\n		q[k] = 0;\n	__asm__")


def make(d, only=None):
    shutil.rmtree(d, ignore_errors=True)
    subprocess.run("mkdir -p %s && cd /repo && git archive HEAD | tar x -C %s" % (d, d), shell=True, check=True)
    for i, (f, o, n) in enumerate(R):
        if only is not None and i not in only: continue
        p = d + "/" + f; s = open(p).read()
        if isinstance(o, str):
            if o not in s: print("EDIT DOES NOT APPLY", i, f, repr(o)[:70]); continue
            s = s.replace(o, n, 1)
        else:
            if not o.search(s): print("EDIT DOES NOT APPLY", i, f, o.pattern[:70]); continue
            s = o.sub(lambda _: n, s, count=1)
        open(p, "w").write(s)


if __name__ == "__main__":
    import tempfile
    a = sys.argv[1:]; j = 2; TOP = tempfile.mkdtemp(prefix="refs")
    if a[:1] == ["-j"]: j = int(a[1]); a = a[2:]
    if a[:1] == ["-m"]: make(a[1]); sys.exit()
    ids = a or ["C%02d" % i for i in range(1, 21)]
    make(TOP + "/repo"); q = queue.Queue(); [q.put(i) for i in ids]
    def work(k):
        while True:
            try: pid = q.get_nowait()
            except queue.Empty: return
            t = time.time(); b = TOP + "/%d" % k; os.makedirs(b + "/build", exist_ok=True)
            e = dict(os.environ, JENT_REPO=TOP + "/repo", VP_BUILD=b + "/build", VP_EVIDENCE=b + "/ev", VP_SKIP_MC="1")
            x = subprocess.run(["python3", "-m", "vp.check", pid], cwd=V, env=e, capture_output=True, text=True)
            print(pid, "quiet" if x.returncode == 0 else "ALARM rc=%d %s" % (x.returncode, (x.stdout + x.stderr)[-600:]), "%.0fs" % (time.time() - t), flush=True)
    ts = [threading.Thread(target=work, args=(k,)) for k in range(j)]
    [t.start() for t in ts]; [t.join() for t in ts]
    shutil.rmtree(TOP, ignore_errors=True)
