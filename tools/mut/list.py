B, N, H, T, S, ST, G, U = ("src/jitterentropy-%s.c" % x for x in ("base", "noise", "health", "timer", "sha3", "status", "gcd", "uuid"))
A = "arch/jitterentropy-arch-%s.c"
MEM, RND, CACHE, FIPSF, NCPUF, THR = (A % x for x in ("memory", "random", "cache", "fips", "ncpu", "thread"))
M = []
def m(name, pids, *e): M.append((name, pids, [e[i:i + 3] for i in range(0, len(e), 3)]))

# C01
m("c01-prio-lag", "C01", B, "			else if (health_test_result &\n				 JENT_LAG_FAILURE_PERMANENT)\n				ret = JENT_ERR_LAG_PERMANENT;\n", "")
m("c01-prio-mem", "C01", B, "else if (health_test_result & JENT_RCT_MEM_FAILURE)", "else if (health_test_result & JENT_LAG_FAILURE)\n				ret = JENT_ERR_LAG;\n			else if (health_test_result & JENT_RCT_MEM_FAILURE)")
m("c01-init-clr", "C01 C03", H, "	ec->rct_count = 0;\n	jent_lag_init", "	ec->rct_count = 0;\n	if (ec->startup_state != jent_startup_memory)\n		ec->health_failure &= ~JENT_LAG_FAILURE;\n\n	jent_lag_init")
m("c01-short", "C01", B, "		jent_random_data(ec);\n\n", "		if (p == data || len >= 32) jent_random_data(ec);\n")
m("c01-startclr", "C01", N, "		ec->startup_state = jent_startup_completed;\n", "		ec->startup_state = jent_startup_completed;\n		if (ec->in_recovery) ec->health_failure = 0;\n")
m("c01-fipsoff", "C01", H, "	if (!ec->is_fips_enabled)\n		return 0;\n", "	if (!(ec->flags & (JENT_FORCE_FIPS | JENT_NTG1)))\n		return 0;\n")
# C02
m("c02-cnt-safe", "C02", B, "	return (ssize_t)orig_len;\n}", "	if (orig_len > 32) (*ec)->read_invocations++;\n	return (ssize_t)orig_len;\n}")
m("c02-partial", "C02", S, "		memcpy(dst, jent_block_next_state + JENT_XDRBG_SIZE_STATE,\n		       dst_len);", "		memcpy(dst, jent_block_next_state + JENT_XDRBG_SIZE_STATE,\n		       (dst_len + 7) & ~(size_t)7);")
m("c02-zero", "C02", B, "	orig_len = len;\n\n	if (jent_notime_settick(ec))", "	orig_len = len;\n	if (!len) return 0;\n\n	if (jent_notime_settick(ec))")
m("c02-early", "C02", B, "	if (!ret) {\n		ec->read_invocations++;", "	if (ret != JENT_ERR_SELFTEST) {\n		ec->read_invocations++;")
# C03
m("c03-apt-ge", "C03", H, "	if (ec->osr >= JENT_ARRAY_SIZE(jent_apt_cutoff_lookup_ntg1)) {", "	if (ec->osr >= JENT_ARRAY_SIZE(jent_apt_cutoff_lookup_ntg1) - 1) {")
m("c03-tab1", "C03", H, "375, 388, 398, 407", "375, 388, 389, 407")
m("c03-tab2", "C03", H, "1605, 1712, 1819, 1926, 2033, 2140 };", "1605, 1712, 1819, 1962, 2033, 2140 };")
m("c03-tab3", "C03", H, "627, 683, 738, 793, 848", "627, 683, 783, 793, 848")
m("c03-aptmask", "C03", H, "	if (ec->apt_observations >= JENT_APT_WINDOW_SIZE)", "	if (ec->apt_observations > JENT_APT_WINDOW_SIZE)")
m("c03-memctr", "C03", N, "	ec->rct_mem_ctr = 0;\n", "	if (!ec->in_recovery) ec->rct_mem_ctr = 0;\n")
m("c03-lagrun", "C03", H, "	ec->lag_prediction_success_run = 0;\n	ec->lag_best", "	ec->lag_best")
m("c03-rctperm", "C03", H, "		} else if (ec->rct_count == ec->rct_cutoff) {\n			ec->health_failure |= JENT_RCT_FAILURE;", "		} else if (ec->rct_count == ec->rct_cutoff && !ec->in_recovery) {\n			ec->health_failure |= JENT_RCT_FAILURE;")
m("c03-lagscore", "C03", H, "	for (i = 0; i < JENT_LAG_HISTORY_SIZE; i++) {\n		if (JENT_LAG_HISTORY(ec, i) == current_delta) {", "	for (i = 0; i < JENT_LAG_HISTORY_SIZE - 1; i++) {\n		if (JENT_LAG_HISTORY(ec, i) == current_delta) {")
m("c03-memsave", "C03", H, "			ec->startup_state = saved_state;\n", "			if (saved_state != jent_startup_sha3) ec->startup_state = saved_state;\n")
m("c03-delta3", "C03", H, "!current_delta || !delta2 || !delta3", "!current_delta || !delta2 || (!delta3 && ec->lag_observations > 1)")
# C04
m("c04-perm", "C04", H, "	if (cb && ec->health_failure) {", "	if (cb && ec->health_failure && !ec->selftest_failed) {")
m("c04-rec", "C04", H, "	if (cb && ec->health_failure) {", "	if (cb && ec->health_failure && !ec->in_recovery) {")
m("c04-args", "C04", H, "		cb(ec, ec->health_failure);", "		cb(ec, ec->health_failure & 0xffff0000u ? ec->health_failure & 0xffff0000u : ec->health_failure);")
m("c04-start", "C04", H, "	if (cb && ec->health_failure) {", "	if (cb && ec->health_failure && ec->startup_state != jent_startup_sha3) {")
# C05
m("c05-maxset", "C05", B, "	new_ec->max_mem_set = !!(*ec)->max_mem_set;\n", "")
m("c05-reinit", "C05", B, "	new_ec->reinit_count = (*ec)->reinit_count + 1;\n", "	new_ec->reinit_count++;\n")
m("c05-bytes", "C05", B, "	new_ec->bytes_output = (*ec)->bytes_output;\n", "	new_ec->bytes_output = (uint32_t)(*ec)->bytes_output;\n")
m("c05-hl", "C05", B, "	flags = jent_update_hashloop(flags, 1);\n", "	if (JENT_FLAGS_TO_HASHLOOP(flags)) flags = jent_update_hashloop(flags, 1);\n")
m("c05-lagobs", "C05", H, "	new_ec->lag_observations = old_ec->lag_observations;\n", "	new_ec->lag_observations = old_ec->lag_observations & JENT_LAG_MASK;\n")
m("c05-aptdup", "C05", H, "	if (old_ec->apt_observations) {\n", "	if (old_ec->apt_observations && old_ec->apt_base_set) {\n")
m("c05-memdup", "C05", H, "	new_ec->rct_mem_count = old_ec->rct_mem_cutoff;\n", "	new_ec->rct_mem_count = old_ec->rct_mem_count;\n")
m("c05-osrkeep", "C05", B, "	new_ec = alloc(osr, flags);\n", "	new_ec = alloc(osr > (*ec)->osr + 2 ? osr - 1 : osr, flags);\n")
m("c05-flags", "C05", B, "	flags = jent_update_hashloop(flags, 1);\n\n", "	flags = jent_update_hashloop(flags, 1);\n	flags &= ~JENT_CACHE_ALL;\n\n")
m("c05-part", "C05", B, "				ec, _jent_entropy_collector_alloc))\n				return ret;\n", "				ec, _jent_entropy_collector_alloc))\n				return ret;\n			if ((*ec)->osr == JENT_MAX_OSR) return ret;\n")
# C06
m("c06-ge", "C06", B, "	if (osr > JENT_MAX_OSR)\n		return -1;\n\n", "	if (osr >= JENT_MAX_OSR)\n		return -1;\n\n")
m("c06-free", "C06", B, "	if (!new_ec)\n", "	if (!new_ec) (*ec)->health_failure &= 0xffff0000u;\n	if (!new_ec)\n")
m("c06-last", "C06", B, "		case JENT_ERR_RCT_MEM_PERMANENT:\n", "", B, "		case JENT_ERR_RCT_MEM:\n", "		case JENT_ERR_RCT_MEM_PERMANENT:\n		case JENT_ERR_RCT_MEM:\n")
m("c06-lagp", "C06", B, "		case JENT_ERR_LAG_PERMANENT:\n", "", B, "		case JENT_ERR_LAG:\n", "		case JENT_ERR_LAG_PERMANENT:\n		case JENT_ERR_LAG:\n")
m("c06-selfp", "C06 C18", B, "		case JENT_ERR_SELFTEST:\n", "", B, "		case JENT_ERR_LAG:\n", "		case JENT_ERR_SELFTEST:\n		case JENT_ERR_LAG:\n")
m("c06-once", "C06", B, "		osr++;\n		if (osr > JENT_MAX_OSR)\n			return -1;\n	}\n", "		osr++;\n		if (osr > JENT_MAX_OSR)\n			return -1;\n		(*ec)->flags = flags;\n	}\n")
# C07
m("c07-gcd", "C07", B, "	return jent_gcd_selftest(flags);", "	if (jent_atomic_load_int(&jent_selftest_run)) return 0;\n	return jent_gcd_selftest(flags);")
m("c07-succ", "C07", B, "	jent_atomic_store_int(&jent_selftest_run, !ret);", "	if (ret != EMEM) jent_atomic_store_int(&jent_selftest_run, !ret);")
m("c07-ntg", "C07", B, "		return jent_entropy_init_common_post(ENOTIME);", "		return ENOTIME;")
m("c07-kat", "C07", B, "	ret = jent_selftest(NULL);\n	if (ret)\n		return ret;\n", "	ret = jent_selftest(NULL);\n	if (ret && !jent_atomic_load_int(&jent_selftest_run))\n		return ret;\n")
m("c07-stage", "C07 C13", N, "		ec->startup_state = jent_startup_sha3;\n", "		ec->startup_state = jent_startup_sha3;\n		if (ec->osr >= 6) break;\n")
m("c07-startfail", "C07 C01", B, "		if (jent_health_failure(ec)) {\n", "		if (ec->startup_state != jent_startup_completed && jent_health_failure(ec)) {\n")
m("c07-nttest", "C07", B, "		jent_notime_tested(!ret);", "		jent_notime_tested(ret != ESTUCK);")
# C08
m("c08-gcdlim", "C08", G, "running_gcd >= UINT32_MAX / 2", "running_gcd > UINT32_MAX / 2")
m("c08-osr", "C08", B, "			       ec->osr);\n	if (ret)\n		goto out;\n", "			       osr ? osr : 1);\n	if (ret)\n		goto out;\n")
m("c08-stuckeq", "C08", B, "	if (JENT_STUCK_INIT_THRES(JENT_POWERUP_TESTLOOPCOUNT) < count_stuck)", "	if (JENT_STUCK_INIT_THRES(JENT_POWERUP_TESTLOOPCOUNT) <= count_stuck)")
m("c08-warm", "C08", B, "		if (!delta) {\n", "		if (!delta && i >= 0) {\n")
m("c08-order", "C08", B, "	ret = jent_gcd_analyze(delta_history", "	if (JENT_STUCK_INIT_THRES(JENT_POWERUP_TESTLOOPCOUNT) < count_stuck) { ret = ESTUCK; goto out; }\n	ret = jent_gcd_analyze(delta_history")
m("c08-eq", "C08", B, "		if (!(end_time > start_time))", "		if (end_time < start_time)")
m("c08-erct", "C08", B, "		       (JENT_RCT_FAILURE | JENT_RCT_FAILURE_PERMANENT)) ?", "		       JENT_RCT_FAILURE) ?")
m("c08-sum", "C08", G, "	if ((delta_sum * osr) < nelem) {", "	if ((delta_sum * osr) <= nelem) {")
m("c08-32", "C08", G, "	uint64_t running_gcd, delta_sum = 0;\n", "	uint64_t running_gcd; uint32_t delta_sum = 0;\n")
m("c08-starttime", "C08", B, "		if (!start_time || !end_time) {", "		if (!end_time) {")
# C09
m("c09-fipsdis", "C09", B, "	    ((flags & (JENT_NTG1 | JENT_FORCE_FIPS)) || jent_fips_enabled()))", "	    (flags & (JENT_NTG1 | JENT_FORCE_FIPS)))")
m("c09-memclamp", "C09", B, "	if (memsize > max_field)\n		memsize = max_field;\n", "	if (memsize > max_field)\n		memsize = 0;\n")
m("c09-auto", "C09", B, "			if (!(flags & JENT_CACHE_ALL)) {\n", "			if (!(flags & JENT_CACHE_ALL) && max < JENT_MAX_AUTO_MEMSIZE) {\n")
m("c09-automax", "C09", B, "		if (max > JENT_MAX_AUTO_MEMSIZE)\n			max = JENT_MAX_AUTO_MEMSIZE;\n", "")
m("c09-offs", "C09", B, "max - JENT_MAX_MEMSIZE_OFFSET : 0;", "max - JENT_MAX_MEMSIZE_OFFSET : 1;")
m("c09-hlclamp", "C09", B, "	unsigned int global_max = JENT_FLAGS_TO_HASHLOOP(JENT_MAX_HASHLOOP);", "	unsigned int global_max = JENT_FLAGS_TO_HASHLOOP(JENT_MAX_HASHLOOP) - 1;")
m("c09-mask", "C09", B, "		entropy_collector->memmask = memsize - 1;\n", "		entropy_collector->memmask = (memsize >> 1) - 1;\n")
m("c09-secmem", "C09 C10", B, "	if (flags & (JENT_NTG1 | JENT_FORCE_FIPS))\n		flags |= JENT_FORCE_SECURE_MEM;", "	if (flags & (JENT_NTG1 | JENT_FORCE_FIPS) && !(flags & JENT_FORCE_INTERNAL_TIMER))\n		flags |= JENT_FORCE_SECURE_MEM;")
m("c09-osrmin", "C09", B, "	osr = ensure_osr_is_at_least_minimal(osr);\n", "	osr = osr ? osr < 3 ? osr + (3 - osr) : osr : JENT_MIN_OSR + 1;\n")
m("c09-syscap", "C09", CACHE, "	if (*l1 > 0)\n		return;\n", "	if (*l1 > 0 || *l3 > 0)\n		return;\n")
m("c09-level", "C09", CACHE, "			if (val > *slot)\n", "			if (val > *slot && cpu == 0)\n")
m("c09-unified", "C09", CACHE, "!strncmp(buf, \"Data\", 4) || !strncmp(buf, \"Unified\", 7)", "!strncmp(buf, \"Data\", 4)")
m("c09-mega", "C09", CACHE, "shift = 20;", "shift = 10;")
# C10
m("c10-gcdflags", "C10", B, "	delta_history = jent_gcd_init(JENT_POWERUP_TESTLOOPCOUNT, flags);", "	delta_history = jent_gcd_init(JENT_POWERUP_TESTLOOPCOUNT, flags & ~JENT_FORCE_SECURE_MEM);")
m("c10-ctxflags", "C10", T, "	thread_ctx = jent_zalloc(sizeof(struct jent_notime_ctx), flags);", "	thread_ctx = jent_zalloc(sizeof(struct jent_notime_ctx), 0);")
m("c10-guard", "C10", MEM, "	    mprotect(base + page_size + payload, page_size,\n			     PROT_NONE)", "	    mprotect(base + page_size + payload - (len > 65536 ? page_size : 0) + (len > 65536 ? page_size : 0), len > 65536 ? 0 : page_size,\n			     PROT_NONE)")
m("c10-lockpart", "C10", MEM, "		if (mlock(tmp, len) &&", "		if (mlock(tmp, len > (1u << 20) ? (1u << 20) : len) &&")
m("c10-dump", "C10", MEM, "		madvise(tmp, len, MADV_DONTDUMP);", "		madvise(tmp, page_size, MADV_DONTDUMP);")
m("c10-eagain", "C10", MEM, "(errno != EPERM && errno != ENOMEM && errno != EAGAIN)", "(errno != EPERM && errno != ENOMEM)")
m("c10-rec", "C10", B, "	new_ec = alloc(osr, flags);\n", "	new_ec = alloc(osr, flags & ~JENT_FORCE_SECURE_MEM);\n")
m("c10-shaflags", "C10", B, "jent_sha3_alloc(&entropy_collector->hash_state, flags)", "jent_sha3_alloc(&entropy_collector->hash_state, flags & ~(JENT_DISABLE_INTERNAL_TIMER ? JENT_FORCE_SECURE_MEM : 0))")
m("c10-issec", "C10", MEM, "	if (!(flags & JENT_FORCE_SECURE_MEM))\n		return 0;\n", "	if (!(flags & (JENT_FORCE_SECURE_MEM | JENT_DISABLE_INTERNAL_TIMER)))\n		return 0;\n")
# C11
m("c11-size", "C11", B, "			   (size_t)entropy_collector->memmask + 1);", "			   jent_memsize(entropy_collector->flags & ~JENT_CACHE_ALL));")
m("c11-sha", "C11", S, "		jent_zfree(ctx, JENT_SHA_MAX_CTX_SIZE);", "		jent_zfree(ctx, sizeof(ctx->state));")
m("c11-gcdn", "C11", G, "		jent_zfree(delta_history, nelem * sizeof(uint64_t));", "		jent_zfree(delta_history, nelem);")
m("c11-startleak", "C11", B, "	if (jent_health_failure_reset(\n				&ec, jent_entropy_collector_alloc_internal)) {\n				jent_entropy_collector_free(ec);", "	if (jent_health_failure_reset(\n				&ec, jent_entropy_collector_alloc_internal)) {\n				if (ec->osr < JENT_MAX_OSR) jent_entropy_collector_free(ec);")
m("c11-ctx", "C11", T, "		jent_zfree(thread_ctx, sizeof(struct jent_notime_ctx));", "		jent_zfree(thread_ctx, sizeof(void *));")
m("c11-enotime", "C11", B, "		ret = ENOTIME;\n		goto out;\n	}\n\n	/*\n", "		return ENOTIME;\n	}\n\n	/*\n")
m("c11-gcderr", "C11", G, "	if (running_gcd != JENT_GCD_SELFTEST_EXP)\n		goto out;", "	if (running_gcd != JENT_GCD_SELFTEST_EXP)\n		return ret;")
m("c11-err", "C11", B, "	if (jent_notime_settick(ec)) {\n		jent_entropy_collector_free(ec);\n		return NULL;\n	}\n\n	/*", "	if (jent_notime_settick(ec)) {\n		return NULL;\n	}\n\n	/*")
# C12
m("c12-cpu", "C12", T, "	if (jent_atomic_load_int(&jent_notime_switch_blocked))\n		return -EAGAIN;\n\n	jent_notime_cpu = cpu;", "	jent_notime_cpu = cpu;\n	if (jent_atomic_load_int(&jent_notime_switch_blocked))\n		return -EAGAIN;\n")
m("c12-sw", "C12", T, "	    !new_thread->jent_notime_stop)\n", "	    !(new_thread->jent_notime_stop || new_thread->jent_notime_start))\n")
m("c12-gcd", "C12", G, "	if (running_gcd && !jent_gcd_tested() &&\n", "	if (running_gcd > 1 && jent_gcd_tested() && jent_common_timer_gcd == 1) jent_common_timer_gcd = running_gcd;\n	if (running_gcd && !jent_gcd_tested() &&\n")
m("c12-ntg", "C12", B, "	if (ret && !(flags & (JENT_DISABLE_INTERNAL_TIMER | JENT_NTG1)))", "	if (ret && !(flags & JENT_DISABLE_INTERNAL_TIMER))")
m("c12-force", "C12", B, "	if (flags & JENT_FORCE_INTERNAL_TIMER)\n		jent_notime_tested(!ret);", "	if (flags & JENT_FORCE_INTERNAL_TIMER) {\n		jent_notime_tested(!ret); }\n	if (ret == ERCT) jent_notime_force();")
m("c12-pre", "C12", B, "	jent_notime_block_switch();\n	jent_health_cb_block_switch();\n\n", "	jent_notime_block_switch();\n", B, "	return jent_gcd_selftest(flags);", "	jent_health_cb_block_switch();\n	return jent_gcd_selftest(flags);")
m("c12-badgcd", "C12", G, "	if ((delta_sum * osr) < nelem) {", "	if (running_gcd > 1 && running_gcd < UINT32_MAX / 2 && !jent_gcd_tested()) { jent_common_timer_gcd = running_gcd; jent_atomic_store_int(&jent_common_timer_gcd_set, 1); }\n	if ((delta_sum * osr) < nelem) {")
m("c12-swnull", "C12", T, "	notime_thread = new_thread;\n	return 0;", "	notime_thread = new_thread;\n	jent_notime_cpu_configured = 0;\n	return 0;")
# C13
m("c13-round", "C13", N, "	(jent_udiv64((x) + 2, 3) * 3)", "	(jent_udiv64((x), 3) * 3)")
m("c13-sf", "C13", N, "	if (ec->is_fips_enabled)\n		safety_factor", "	if (ec->flags & (JENT_FORCE_FIPS | JENT_NTG1))\n		safety_factor")
m("c13-prime", "C13", N, "		jent_measure_jitter(ec, 0, NULL);\n", "		if (!ec->in_recovery) jent_measure_jitter(ec, 0, NULL);\n")
m("c13-second", "C13", B, "		jent_random_data(ec);\n\n		if ((health", "		if (len > 1 || p == data) jent_random_data(ec);\n\n		if ((health")
m("c13-credit", "C13 C14", N, "		if (measure_jitter(ec, 0, NULL))\n			continue;\n", "		if (measure_jitter(ec, 0, NULL) && ctr)\n			continue;\n")
m("c13-cap", "C13", N, "	ec->rct_mem_nosr = (unsigned short)nosr;\n", "	ec->rct_mem_nosr = (unsigned short)(ec->osr > 16 && !safety_factor ? 4096 : nosr);\n")
m("c13-memloops", "C09", N, "	mem_loop_cnt = loop_cnt ? loop_cnt : ec->memaccessloops;\n	addressMask", "	mem_loop_cnt = loop_cnt ? loop_cnt : ec->memaccessloops / 2;\n	addressMask")
# C14
m("c14-dom", "C14", N, "intermediary[JENT_OFFSET_DOMAINSEPARATOR] = 0x02;", "intermediary[JENT_OFFSET_DOMAINSEPARATOR] = 0x03;")
m("c14-seeded", "C14", S, "	ctx->initially_seeded = 1;\n", "	ctx->initially_seeded = dst_len >= 32;\n")
m("c14-gcd", "C14", N, "	current_delta = jent_udiv64(jent_delta(ec->prev_time, time_now),\n				    ec->jent_common_timer_gcd);\n\n", "	current_delta = jent_delta(ec->prev_time, time_now);\n")
m("c14-stuckdrop", "C14", N, "DOMAINSEPARATOR] = 0x03;\n\n	/* Insert the data into the entropy pool */\n	jent_hash", "DOMAINSEPARATOR] = 0x03;\n	if (!stuck || ec->rct_count < 3) jent_hash")
m("c14-chain", "C14", S, "	jent_sha3_update(ctx, jent_block_next_state, JENT_XDRBG_SIZE_STATE);\n	jent_memset_secure", "	if (dst_len == 32) jent_sha3_update(ctx, jent_block_next_state, JENT_XDRBG_SIZE_STATE);\n	jent_memset_secure")
m("c14-hashj", "C14", N, "	for (j = 0; j < hash_loop_cnt; j++) {", "	for (j = 0; j < (hash_loop_cnt > 64 ? 64 : hash_loop_cnt); j++) {")
m("c14-wide", "C14", N, "	memcpy(intermediary + JENT_OFFSET_TIMEDELTA,", "	time_delta &= 0xffffffffffffULL;\n	memcpy(intermediary + JENT_OFFSET_TIMEDELTA,")
# C15
m("c15-ge", "C15", ST, "	return (used >= buflen - 1) ? -1 : 0;", "	return (used > buflen - 1) ? -1 : 0;")
m("c15-bits", "C15", ST, "(unsigned long long)ec->bytes_output * 8", "(unsigned long long)(unsigned int)(ec->bytes_output * 8)")
m("c15-inv", "C15", ST, "(unsigned long long)ec->read_invocations", "(unsigned long long)(uint8_t)ec->read_invocations")
m("c15-rctp", "C15", ST, "ec->health_failure & JENT_RCT_MEM_FAILURE_PERMANENT", "ec->health_failure & (JENT_RCT_MEM_FAILURE_PERMANENT | JENT_RCT_MEM_FAILURE) & ~0xffffu")
m("c15-memsz", "C15 C09", ST, "jent_memsize(ec->flags));", "ec->memmask + 1);")
m("c15-hash", "C15", ST, "jent_hashloop_cnt(ec->flags) * JENT_HASH_LOOP_INIT", "jent_hashloop_cnt(ec->flags & ~(1u << 26)) * JENT_HASH_LOOP_INIT")
m("c15-ntg", "C15", ST, "!!(ec->flags & JENT_NTG1) ? \"true\" : \"false\");\n\n	jent_add_to_status(\"\\t\\t\\\"flags", "ec->is_fips_enabled && !!(ec->flags & JENT_NTG1) && !(ec->flags & JENT_FORCE_FIPS) ? \"true\" : \"false\");\n	jent_add_to_status(\"\\t\\t\\\"flags")
m("c15-osr", "C15", ST, "ec->osr", "ec->osr > 19 ? 19 : ec->osr")
m("c15-reinit", "C15", ST, "\"reinitializations\\\": %u,\\n\", ec->reinit_count", "\"reinitializations\\\": %u,\\n\", !!ec->reinit_count")
m("c15-end", "C15", ST, "		if (used + 1 < buflen)", "		if (used < buflen)")
# C16
m("c16-eof", "C16", RND, "		if (r == 0)\n			break;\n", "		if (r == 0)\n			return 0;\n")
m("c16-var", "C16", U, "(b[8] & 0x3f) | 0x80", "(b[8] & 0x7f) | 0x80")
m("c16-intr", "C16", RND, "		ssize_t r = getrandom(buf + i, len - i, 0);", "		ssize_t r = getrandom(buf, len - i, 0);")
m("c16-fb", "C16", RND, "	return jent_random_dev_urandom(buf, len);\n#elif", "	return jent_random_dev_urandom(buf + i, len - i) && 0;\n#elif")
m("c16-accessor", "C16", ST, "	if (buflen < len)\n		return -1;\n", "	if (buflen < len - 1)\n		return -1;\n")
m("c16-eintr", "C16", RND, "			if (errno == EINTR)\n				continue;\n			break;\n		}\n		if (r == 0)", "			if (errno == EINTR)\n				break;\n			break;\n		}\n		if (r == 0)")
# C17
m("c17-start", "C17", B, "			if (jent_notime_settick(ec)) {\n				jent_entropy_collector_free(ec);\n				return NULL;\n			}\n\n			/* Rerun", "			/* Rerun")
m("c17-unset", "C17", B, "err:\n	jent_notime_unsettick(ec);\n", "err:\n	if (ret != JENT_ERR_SELFTEST) jent_notime_unsettick(ec);\n")
m("c17-alloc", "C17", B, "	jent_notime_unsettick(ec);\n\n	/*\n	 * Assign", "	/*\n	 * Assign")
m("c17-init", "C17", B, "	if (ec)\n		jent_notime_unsettick(ec);\n", "	if (ec && ret != ECOARSETIME)\n		jent_notime_unsettick(ec);\n")
m("c17-free", "C17", B, "		jent_notime_unsettick(entropy_collector);\n\n		jent_notime_disable", "		jent_notime_disable")
m("c17-prev", "C17", T, "	ec->notime_interrupt = 0;\n", "	if (ec->notime_prev_timer == 0) ec->notime_interrupt = 0;\n")
m("c17-fini", "C17 C11", T, "		notime_thread->jent_notime_fini(ec->notime_thread_ctx);\n", "		if (ec->enable_notime && !ec->health_failure) notime_thread->jent_notime_fini(ec->notime_thread_ctx);\n")
m("c17-settickerr", "C17", B, "	if (jent_notime_settick(ec))\n		return JENT_ERR_NOTIME;\n", "	(void)jent_notime_settick(ec);\n")
m("c17-pin", "C17", T, "		(void)jent_thread_pin_to_cpu(jent_notime_cpu);\n	} else {", "		(void)jent_thread_pin_to_cpu(jent_notime_cpu & 7);\n	} else {")
# C18
m("c18-first", "C18", S, "	if (jent_sha3_256_tester())\n		return 1;\n	return jent_xdrbg256_tester();", "	return jent_xdrbg256_tester();")
m("c18-carry", "C18", B, "	if ((*ec)->selftest_failed)\n		new_ec->selftest_failed = 1;\n", "")
m("c18-pos", "C18", B, "	while (len > 0) {\n		size_t tocopy;\n		unsigned int health_test_result;\n", "	if (ec->selftest_failed && len) { ret = JENT_ERR_SELFTEST; goto err; }\n	while (len > 0) {\n		size_t tocopy;\n		unsigned int health_test_result;\n", B, "		if (ec->selftest_failed) {\n			ret = JENT_ERR_SELFTEST;\n			goto err;\n		}\n\n		jent_random", "		jent_random")
m("c18-unmark", "C18", B, "		return EHASH;\n	}\n\n	return 0;\n}", "		return EHASH;\n	}\n	if (ec) ec->selftest_failed = 0;\n	return 0;\n}")
m("c18-all", "C18", S, "		if (exp[i] != act[i])\n			return 1;\n	}\n\n	return 0;\n}\n\nint jent_sha3_tester", "		if (exp[i] != act[i] && i < 24)\n			return 1;\n	}\n\n	return 0;\n}\n\nint jent_sha3_tester")
# C19
m("c19-xchg", "C19", G, "!jent_atomic_exchange_int(&jent_common_timer_gcd_claimed, 1)", "!jent_atomic_load_int(&jent_common_timer_gcd_claimed)", G, "		jent_common_timer_gcd = running_gcd;\n", "		jent_atomic_store_int(&jent_common_timer_gcd_claimed, 1);\n		jent_common_timer_gcd = running_gcd;\n")
m("c19-order", "C19", G, "		jent_common_timer_gcd = running_gcd;\n		jent_atomic_store_int(&jent_common_timer_gcd_set, 1);", "		jent_atomic_store_int(&jent_common_timer_gcd_set, 1);\n		jent_common_timer_gcd = running_gcd;")
m("c19-plain", "C19", G, "	return jent_atomic_load_int(&jent_common_timer_gcd_set);", "	return *(volatile int *)&jent_common_timer_gcd_set;")
m("c19-selfrun", "C19", B, "	jent_notime_block_switch();\n	jent_health_cb_block_switch();\n", "	jent_notime_block_switch();\n	jent_health_cb_block_switch();\n	jent_atomic_store_int(&jent_selftest_run, 1);\n")
m("c19-cache", "C19", CACHE, "		jent_atomic_store_int(&cached_valid, 1);\n	}", "	}", CACHE, "		long l1 = 0, l2 = 0, l3 = 0;\n\n		jent_get", "		long l1 = 0, l2 = 0, l3 = 0;\n		jent_atomic_store_int(&cached_valid, 1);\n		jent_get")
m("c19-nttest", "C19", B, "	if (flags & JENT_FORCE_INTERNAL_TIMER)\n		jent_notime_force();", "	if (flags & JENT_FORCE_INTERNAL_TIMER) {\n		jent_notime_force(); jent_notime_tested(1); }")
m("c19-static", "C19", N, "	/* Size of intermediary ensures a Keccak operation during hash_update */\n	uint8_t intermediary", "	static uint8_t intermediary")
# C20
m("c20-hashloop", "C20", N, "	jent_memset_secure(&ctx, JENT_SHA_MAX_CTX_SIZE);\n", "")
m("c20-insert", "C20", N, "	jent_memset_secure(intermediary, JENT_SIZEOF_INTERMEDIARY);\n", "")
m("c20-block", "C20", S, "	jent_memset_secure(jent_block_next_state,\n			   sizeof(jent_block_next_state));\n", "")
m("c20-half", "C20", S, "	jent_memset_secure(jent_block_next_state,\n			   sizeof(jent_block_next_state));\n", "	jent_memset_secure(jent_block_next_state, JENT_XDRBG_SIZE_STATE);\n")
m("c20-cache", "C20", N, "	jent_drbg_generate_block(ec->hash_state, (uint8_t*)dst, dst_len);", "	jent_drbg_generate_block(ec->hash_state, (uint8_t*)dst, dst_len);\n	memcpy(&ec->lag_scoreboard, dst, 0);")
m("c20-copy", "C20", B, "		jent_read_random_block(ec, p, tocopy);\n", "		if (tocopy < 32) { char blk[32]; jent_read_random_block(ec, blk, 32); memcpy(p, blk, tocopy); } else\n		jent_read_random_block(ec, p, tocopy);\n")
m("c20-zero", "C20 C11", MEM, "		jent_memset_secure(ptr, len);\n\n", "")

# memory actually used
m("c09-mask", "C09", N, "	addressMask = ec->memmask;", "	addressMask = ec->memmask >> 1;")
m("c09-wrap", "C09", N, "	wrap = ec->memmask + 1;", "	wrap = (ec->memmask >> 2) + 1;")
m("c09-tripple", "C09", N, "			       ec->memaccessloops * JENT_MEM_ACC_LOOP_INIT,", "			       ec->memaccessloops,")
m("c09-memloops1", "C09", N, "	for (i = 0; i < mem_loop_cnt; i++) {\n		/* Take", "	for (i = 1; i < mem_loop_cnt; i++) {\n		/* Take")
m("c09-hashused", "C09", N, "ec->hashloopcnt * JENT_HASH_LOOP_INIT);", "ec->hashloopcnt);")

# the kernel module
def mk(name, pids, *edits): M.append((name, pids, list(edits)))
CH, HW, KC, SE, TE, PR, MO, IO = ("linux_kernel/jitterentropy_%s.c" % x for x in ("chardev", "hwrng", "kcapi", "selftest", "testing", "proc", "mod", "ioctl"))
ER = "linux_kernel/jitterentropy_error.h"
mk("k21-lockcopy", "C21", (CH, "		mutex_unlock(&ctx->lock);\n\n		if (rc < 0) {", "		if (rc >= 0 && nbytes > 64) { mutex_unlock(&ctx->lock); mutex_lock(&ctx->lock); rc = jent_read_entropy_safe(&ctx->entropy_collector, tmp, towork); }\n		mutex_unlock(&ctx->lock);\n\n		if (rc < 0) {"))
mk("k21-nbcap", "C21", (CH, "		nbytes = min_t(size_t, nbytes, JENT_CHARDEV_READ_BUF_SIZE);", "		nbytes = min_t(size_t, nbytes, 2 * JENT_CHARDEV_READ_BUF_SIZE);"))
mk("k21-nbwait", "C21", (CH, "			if (!mutex_trylock(&ctx->lock)) {", "			if (ret ? mutex_lock_interruptible(&ctx->lock) : !mutex_trylock(&ctx->lock)) {"))
mk("k21-again", "C21", (CH, "				if (ret == 0)\n					ret = -EAGAIN;", "				ret = -EAGAIN;"))
mk("k21-intr", "C21", (CH, "			if (ret == 0)\n				ret = -ERESTARTSYS;\n			break;\n		}\n\n		/*\n		 * jent_read", "			ret = -ERESTARTSYS;\n			break;\n		}\n\n		/*\n		 * jent_read"))
mk("k21-err", "C21", (CH, "			if (ret == 0)\n				ret = err;", "			ret = err;"))
mk("k21-fault", "C21", (CH, "			if (ret == 0)\n				ret = -EFAULT;\n			break;", "			ret = -EFAULT;\n			break;"))
mk("k21-part", "C21", (CH, "		if (copy_to_user(buf, tmp, rc)) {\n			if (ret == 0)\n				ret = -EFAULT;\n			break;\n		}\n", "		{ size_t l = copy_to_user(buf, tmp, rc); if (l) { ret += rc - l; if (!ret) ret = -EFAULT; break; } }\n"))
mk("k21-sig", "C21", (CH, "		if (signal_pending(current)) {\n			if (ret == 0)", "		if (need_resched() && signal_pending(current)) {\n			if (ret == 0)"))
mk("k21-buf", "C21", (CH, "		buf += rc;\n		ret += rc;", "		buf += towork;\n		ret += rc;\n		if (ret == 64) buf -= 32;"))
mk("k21-wipe", "C21", (CH, "	kvfree_sensitive(tmp, JENT_CHARDEV_READ_BUF_SIZE);", "	kvfree(tmp);"))
mk("k21-wipe2", "C21", (CH, "	kvfree_sensitive(tmp, JENT_CHARDEV_READ_BUF_SIZE);", "	kvfree_sensitive(tmp, min_t(size_t, nbytes, JENT_CHARDEV_READ_BUF_SIZE));"))
mk("k21-chunk", "C21", (CH, "	while (nbytes) {\n", "	if (nbytes > 1024) nbytes = 1024;\n	while (nbytes) {\n"))
mk("k21-plain", "C21", (CH, "		rc = jent_read_entropy_safe(&ctx->entropy_collector, tmp,\n					    towork);", "		rc = jent_read_entropy(ctx->entropy_collector, tmp,\n					    towork);"))
mk("k22-status", "C22", (CH, "	if (ctx->entropy_collector)\n		ret = jent_status(ctx->entropy_collector, buf,\n				  JENT_STATUS_MAX_LEN);\n	else\n		ret = -1;\n	mutex_unlock(&ctx->lock);\n\n	if (ret) {\n		ret = -EIO;", "	mutex_unlock(&ctx->lock);\n	if (ctx->entropy_collector)\n		ret = jent_status(ctx->entropy_collector, buf,\n				  JENT_STATUS_MAX_LEN);\n	else\n		ret = -1;\n\n	if (ret) {\n		ret = -EIO;"))
mk("k22-procorder", "C22", (CH, "	proc_remove(ctx->proc);\n", ""), (CH, "	mutex_destroy(&ctx->lock);\n	kvfree(ctx);\n	file->private_data = NULL;", "	proc_remove(ctx->proc);\n	mutex_destroy(&ctx->lock);\n	kvfree(ctx);\n	file->private_data = NULL;"))
mk("k22-cancel", "C22", (SE, "	cancel_delayed_work_sync(&st->work);", "	cancel_delayed_work(&st->work);"))
mk("k22-cancel2", "C22", (SE, "	cancel_delayed_work_sync(&st->work);", "	if (!st->failed && selftest_interval)\n		cancel_delayed_work_sync(&st->work);"))
mk("k22-kcexit", "C22", (KC, "	jent_selftest_instance_exit(&rng->selftest);\n\n	mutex_lock(&rng->jent_lock);\n", "	mutex_lock(&rng->jent_lock);\n	jent_selftest_instance_exit(&rng->selftest);\n"))
mk("k22-hwunreg", "C22", (HW, "	hwrng_unregister(&jent_hwrng);\n\n	/* Before the collector is freed; waits for a run in progress. */\n	jent_selftest_instance_exit(&jent_hwrng_ctx.selftest);\n\n	if (jent_hwrng_ctx.entropy_collector) {\n		jent_entropy_collector_free(jent_hwrng_ctx.entropy_collector);\n		jent_hwrng_ctx.entropy_collector = NULL;\n	}\n", "	/* Before the collector is freed; waits for a run in progress. */\n	jent_selftest_instance_exit(&jent_hwrng_ctx.selftest);\n\n	if (jent_hwrng_ctx.entropy_collector) {\n		jent_entropy_collector_free(jent_hwrng_ctx.entropy_collector);\n		jent_hwrng_ctx.entropy_collector = NULL;\n	}\n	hwrng_unregister(&jent_hwrng);\n"))
mk("k22-statlock", "C22", (CH, "	if (mutex_lock_interruptible(&ctx->lock)) {\n		kvfree(buf);\n		return -ERESTARTSYS;\n	}", "	if (mutex_lock_interruptible(&ctx->lock))\n		return -ERESTARTSYS;"))
mk("k22-openleak", "C22", (CH, "		mutex_destroy(&ctx->lock);\n		kvfree(ctx);\n		return -ENOMEM;", "		mutex_destroy(&ctx->lock);\n		return -ENOMEM;"))
mk("k22-field", "C22 C25", (CH, "	ret = jent_ioctl_field_get(ctx->entropy_collector, cmd, &field);\n	mutex_unlock(&ctx->lock);", "	mutex_unlock(&ctx->lock);\n	ret = jent_ioctl_field_get(ctx->entropy_collector, cmd, &field);"))
mk("k22-klog", "C22", (KC, "	mutex_lock(&rng->jent_lock);\n	if (rng->entropy_collector)\n		ret = jent_status(rng->entropy_collector, buf,\n				  JENT_STATUS_BUF_SIZE);\n	else\n		ret = 0;\n	mutex_unlock(&rng->jent_lock);", "	if (rng->entropy_collector)\n		ret = jent_status(rng->entropy_collector, buf,\n				  JENT_STATUS_BUF_SIZE);\n	else\n		ret = 0;"))
mk("k22-count", "C22", (CH, "	if (!ctx)\n		return 0;\n\n	/*\n	 * Remove", "	if (!ctx)\n		return 0;\n	if (ctx->selftest.failed)\n		jent_proc_instance_dec();\n\n	/*\n	 * Remove"))
mk("k22-rawfree", "C22", (TE, "	if (mutex_lock_interruptible(&jent_testing_read_lock)) {\n		kvfree(ctx);\n		return -ERESTARTSYS;", "	if (mutex_lock_interruptible(&jent_testing_read_lock)) {\n		return -ERESTARTSYS;"))
mk("k22-rawlock", "C22", (TE, "	if (!tmp) {\n		mutex_unlock(&jent_testing_read_lock);\n		return -ENOMEM;", "	if (!tmp) {\n		return -ENOMEM;"))
mk("k23-lagp", "C23", (ER, "	case JENT_ERR_LAG_PERMANENT:\n	case JENT_ERR_RCT_MEM_PERMANENT:\n", "	case JENT_ERR_LAG_PERMANENT:\n"))
mk("k23-rm", "C23", (ER, "	case JENT_ERR_LAG:\n	case JENT_ERR_RCT_MEM:\n", "	case JENT_ERR_LAG:\n"))
mk("k23-self", "C23", (ER, "	case JENT_ERR_RCT_MEM_PERMANENT:\n	case JENT_ERR_SELFTEST:\n", "	case JENT_ERR_RCT_MEM_PERMANENT:\n"))
mk("k23-try", "C23", (HW, "			return 0;\n	} else if", "			return -EAGAIN;\n	} else if"))
mk("k23-kcret", "C23", (KC, "	if (rc >= 0) {", "	if (rc > 0 || rc == JENT_ERR_LAG) {"))
mk("k23-kcre", "C23", (KC, "		ret = jent_map_read_error(rc);\n	}", "		ret = reallocated ? 0 : jent_map_read_error(rc);\n	}"))
mk("k23-hwwait", "C23", (HW, "	if (!wait) {", "	if (!wait && max < 64) {"))
mk("k23-hwmax", "C23", (HW, "	ret = jent_read_entropy_safe(&ctx->entropy_collector, data, max);", "	ret = jent_read_entropy_safe(&ctx->entropy_collector, data, min_t(size_t, max, 32));"))
mk("k24-sticky", "C24", (SE, "	if (!failed)\n		jent", "	if (!failed || !fips_enabled)\n		jent"))
mk("k24-run", "C24", (SE, "	if (!st->failed && jent_selftest_execute(*st->entropy_collector))\n		st->failed = true;", "	if (jent_selftest_execute(*st->entropy_collector))\n		st->failed = true;"))
mk("k24-over", "C24", (SE, "	if (!st->failed && jent_selftest_execute(*st->entropy_collector))\n		st->failed = true;", "	st->failed = jent_selftest_execute(*st->entropy_collector) != 0;"))
mk("k24-snap", "C24", (SE, "	failed = st->failed;\n	mutex_unlock(st->lock);", "	mutex_unlock(st->lock);\n	failed = st->failed;"))
mk("k24-unbound", "C24", (SE, "	return jent_selftest_execute(NULL);", "	return jent_selftest_execute(NULL) ? -EFAULT : 0;"), (SE, "		ret = jent_selftest_execute(*st->entropy_collector);\n		if (ret)", "		ret = jent_selftest_execute(NULL);\n		if (ret)"))
mk("k24-count", "C24", (SE, "	atomic64_inc(&jent_selftest_failures);\n", "	if (ec)\n		atomic64_inc(&jent_selftest_failures);\n"))
mk("k24-max", "C24", (SE, "	if (selftest_interval > JENT_SELFTEST_INTERVAL_MAX) {", "	if (selftest_interval > 2 * JENT_SELFTEST_INTERVAL_MAX) {"))
mk("k24-hz", "C24", (SE, "(unsigned long)selftest_interval * HZ", "(unsigned long)(selftest_interval * HZ)"), (SE, "(30U * 24U * 60U * 60U)", "(300U * 24U * 60U * 60U)"))
mk("k24-cap", "C24", (SE, "	if (mutex_lock_interruptible(st->lock))\n		return -ERESTARTSYS;\n", "	if (mutex_lock_interruptible(st->lock))\n		return 0;\n"))
mk("k24-ret", "C24", (SE, "	if (st->failed) {\n		ret = -EFAULT;", "	if (st->failed) {\n		ret = 0;"))
mk("k25-short", "C25", (CH, "	if (status.length < slen) {", "	if (status.length + 1 < slen) {"))
mk("k25-len", "C25", (CH, "	status.length = slen;\n	if (copy_to_user(arg, &status, sizeof(status))) {\n		ret = -EFAULT;\n		goto out;\n	}\n\n	ret = 0;", "	ret = 0;"))
mk("k25-rawlen", "C25", (TE, "		status.length = slen;\n		if (copy", "		status.length = slen - 1;\n		if (copy"))
mk("k25-nodata", "C25", (IO, "		if (!out->value.uuid.uuid[0])\n			return -ENODATA;\n", ""))
mk("k25-size", "C25", (IO, "		out->size = sizeof(out->value.output);", "		out->size = sizeof(out->value.output.invocations);"))
mk("k25-reinit", "C25", (IO, "out, ec->reinit_count)", "out, (u8)ec->osr)"))
mk("k25-output", "C25", (TE, "	if (mutex_lock_interruptible(&jent_testing_read_lock))\n		return -ERESTARTSYS;\n	ret = jent_ioctl_field_get(ctx->ec, cmd, &field);\n	mutex_unlock(&jent_testing_read_lock);", "	ret = jent_ioctl_field_get(ctx->ec, cmd, &field);"))
mk("k25-eio", "C25", (HW, "	if (ret) {\n		kvfree(buf);\n		return -EIO;\n	}\n\n	seq", "	if (ret < 0) {\n		kvfree(buf);\n		return -EIO;\n	}\n\n	seq"))
mk("k25-overf", "C25", (CH, "		if (copy_to_user(arg, &status, sizeof(status)))\n			ret = -EFAULT;\n		else\n			ret = -EOVERFLOW;", "		ret = -EOVERFLOW;\n		if (copy_to_user(arg, &status, sizeof(status)) && !ret)\n			ret = -EFAULT;"))
mk("k26-fold", "C26", (MO, "	if (force_fips)\n		flags", "	if (force_fips && !ntg1)\n		flags"))
mk("k26-order", "C26", (MO, "	ret = jent_testing_init();\n	if (ret)\n		goto err_hwrng;\n", ""), (MO, "	ret = jent_chardev_init();\n	if (ret)\n		goto err_testing;\n", "	ret = jent_chardev_init();\n	if (ret)\n		goto err_hwrng;\n	ret = jent_testing_init();\n	if (ret) {\n		jent_chardev_exit();\n		goto err_hwrng;\n	}\n"), (MO, "err_testing:\n	jent_testing_exit();\n", ""))
mk("k26-unwind", "C26", (MO, "	if (ret)\n		goto err_testing;", "	if (ret)\n		goto err_hwrng;"))
mk("k26-unwind2", "C26", (HW, "		jent_selftest_instance_exit(&jent_hwrng_ctx.selftest);\n		jent_entropy_collector_free(jent_hwrng_ctx.entropy_collector);\n		jent_hwrng_ctx.entropy_collector = NULL;", "		jent_entropy_collector_free(jent_hwrng_ctx.entropy_collector);\n		jent_hwrng_ctx.entropy_collector = NULL;"))
mk("k26-procerr", "C26", (PR, "err:\n	jent_proc_exit();\n	return -ENOMEM;", "err:\n	return -ENOMEM;"))
mk("k26-quality", "C26", (HW, "min_t(unsigned int, hwrng_quality,", "min_t(unsigned short, hwrng_quality,"))
mk("k26-osr", "C26", (PR, "osr < JENT_MIN_OSR ? JENT_MIN_OSR : osr", "osr ? osr : JENT_MIN_OSR"))
mk("k26-fips", "C26", (PR, "(flags & (JENT_FORCE_FIPS | JENT_NTG1))", "(flags & JENT_FORCE_FIPS)"))
mk("k26-mem", "C26", (PR, "	else if (memsize <= 10)", "	else if (memsize < 10)"))
mk("k26-hash", "C26", (PR, "			   1U << hashloop);", "			   1U << (hashloop - 1));"))
mk("k26-exit", "C26", (MO, "	jent_hwrng_exit();\n	jent_kcapi_exit();\n	jent_proc_exit();\n}", "	jent_proc_exit();\n	jent_hwrng_exit();\n	jent_kcapi_exit();\n}"))
mk("k26-initrc", "C26", (MO, "		return -EFAULT;\n	}", "		return fips_enabled ? -EFAULT : ret == 9 ? 0 : -EFAULT;\n	}"))
mk("k27-prime", "C27", (TE, "		if (measure_jitter == jent_measure_jitter)", "		if (!ret && measure_jitter == jent_measure_jitter)"))
mk("k27-fn", "C27", (TE, "	measure_jitter = ctx->measure_jitter;\n", "	measure_jitter = ctx->measure_jitter;\n	if (!(testing_flags & (JENT_TEST_HASHLOOP | JENT_TEST_MEMACCLOOP))) measure_jitter = jent_measure_jitter;\n"))
mk("k27-prec", "C27", (TE, "	if (flags & (JENT_TEST_HASHLOOP))\n		ctx->measure_jitter = jent_measure_jitter_ntg1_sha3;\n	else if (flags & (JENT_TEST_MEMACCLOOP))\n		ctx->measure_jitter = jent_measure_jitter_ntg1_memaccess;", "	if (flags & (JENT_TEST_MEMACCLOOP))\n		ctx->measure_jitter = jent_measure_jitter_ntg1_memaccess;\n	else if (flags & (JENT_TEST_HASHLOOP))\n		ctx->measure_jitter = jent_measure_jitter_ntg1_sha3;"))
mk("k27-lock", "C27", (TE, "	if (jent_testing_locked_down())\n		return -EPERM;\n", ""))
mk("k27-mod", "C27", (TE, "	if (nbytes % sizeof(u64))\n		return -EINVAL;", "	if (nbytes < sizeof(u64))\n		return -EINVAL;"))
mk("k27-fips", "C27", (TE, "	ctx->ec->is_fips_enabled = 1;\n", ""))
mk("k27-loop", "C27", (TE, "			measure_jitter(ec, loop_cnt, &tmp[i]);", "			measure_jitter(ec, ctx->loop_cnt, &tmp[i]);"), (TE, "	if (mutex_lock_interruptible(&jent_testing_read_lock))\n		return -ERESTARTSYS;\n	ctx->loop_cnt = loop_cnt;\n	mutex_unlock(&jent_testing_read_lock);", "	ctx->loop_cnt = loop_cnt;"))
mk("k27-max", "C27", (TE, "	if (loop_cnt > UINT_MAX)", "	if (loop_cnt > 0x10000000000ULL)"))
mk("k27-pos", "C27", (TE, "	if (ret > 0)\n		*ppos += ret;", "	*ppos += ret;"))
mk("k27-copy", "C27", (TE, "		len -= not_copied;", "		len -= not_copied & ~7UL;"))
mk("k27-sig", "C27", (TE, "		if (signal_pending(current)) {\n			if (ret == 0)\n				ret = -ERESTARTSYS;", "		if (signal_pending(current)) {\n			if (nbytes < 8000)\n				ret = -ERESTARTSYS;"))
mk("k27-sess", "C27", (TE, "		if (large_request && need_resched())\n			schedule();", "		if (large_request && need_resched()) {\n			mutex_unlock(&jent_testing_read_lock);\n			schedule();\n			mutex_lock(&jent_testing_read_lock);\n		}"))
mk("k27-ec", "C27", (TE, "	ctx->ec = jent_entropy_collector_alloc_raw(osr, flags);", "	ctx->ec = jent_entropy_collector_alloc(osr, flags);"))
