From c359f90d9450dfd248ef92e3c2c8adce58b85916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:52 +0000
Subject: [PATCH 1/6] fix: unmark the self tests when the pre-checks of the
 initialization fail

jent_entropy_init_common_pre() marks the self tests as run even if the GCD
self test failed, and leaves an earlier mark in place if the KATs failed.
jent_entropy_init() and jent_entropy_init_ex() returned these errors without
passing jent_entropy_init_common_post(), so a later allocation skipped the
startup tests although the initialization had reported an error - down to
handing out a collector in a process where no startup test ever ran.
---
 src/jitterentropy-base.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jitterentropy-base.c b/src/jitterentropy-base.c
index 142a82b..8a5833b 100644
--- a/src/jitterentropy-base.c
+++ b/src/jitterentropy-base.c
@@ -1202,7 +1202,7 @@ int jent_entropy_init(void)
 	int ret = jent_entropy_init_common_pre(0);
 
 	if (ret)
-		return ret;
+		return jent_entropy_init_common_post(ret);
 
 	ret = jent_time_entropy_init(0, JENT_DISABLE_INTERNAL_TIMER);
 
@@ -1230,7 +1230,7 @@ int jent_entropy_init_ex(unsigned int osr, unsigned int flags)
 	ret = jent_entropy_init_common_pre(flags);
 
 	if (ret)
-		return ret;
+		return jent_entropy_init_common_post(ret);
 
 	/*
 	 * NTG.1 forbids the internal timer, and the collector allocation
-- 
2.43.0


From 3db122741837c1867bda1e357303ea07bf510522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:52 +0000
Subject: [PATCH 2/6] fix: make selftest_failed the full word its comment
 promises

As a bitfield it shares its storage unit with apt_base_set and in_recovery,
which the generation rewrites with every measurement: a self test run on
another thread could lose its verdict or disturb the health test state.
---
 src/jitterentropy-internal.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jitterentropy-internal.h b/src/jitterentropy-internal.h
index e962148..30a5bcc 100644
--- a/src/jitterentropy-internal.h
+++ b/src/jitterentropy-internal.h
@@ -568,7 +568,7 @@ struct rand_data
 	 * mode. A full word rather than a bitfield: the self test may run on
 	 * another thread, and setting a bitfield would rewrite its neighbors.
 	 */
-	unsigned int selftest_failed:1;
+	unsigned int selftest_failed;
 
 #ifdef JENT_CONF_ENABLE_INTERNAL_TIMER
 	volatile uint8_t notime_interrupt;	/* indicator to interrupt ctr */
-- 
2.43.0


From 6e835ec2c2e9c6749df217a6d0d6ad1d5f6ef954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:52 +0000
Subject: [PATCH 3/6] fix: keep the failed self test mark across a health
 failure reset

A jent_selftest() failure bound to an instance is documented to be permanent,
but the collector that jent_read_entropy_safe() allocates to replace one with
an intermittent health failure started without the mark and delivered data.
---
 src/jitterentropy-base.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/jitterentropy-base.c b/src/jitterentropy-base.c
index 8a5833b..8d78df5 100644
--- a/src/jitterentropy-base.c
+++ b/src/jitterentropy-base.c
@@ -447,6 +447,10 @@ static int jent_health_failure_reset(
 	new_ec->read_invocations = (*ec)->read_invocations;
 	new_ec->bytes_output = (*ec)->bytes_output;
 
+	/* A failed self test bound to this instance is permanent. */
+	if ((*ec)->selftest_failed)
+		new_ec->selftest_failed = 1;
+
 	jent_entropy_collector_free(*ec);
 	*ec = new_ec;
 
-- 
2.43.0


From b4c2bf1f98be5cd2a5240ce7ea9de770abf41418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:23 +0000
Subject: [PATCH 4/6] fix: do not read a registered timer handler's context as
 the builtin one's

The counting thread took the CPU to pin to from the handler's context, which
only for the builtin handler is a struct jent_notime_ctx. jitterentropy.h
leaves the context to a registered handler, so a smaller one was read out of
bounds and its content used as a CPU number.
---
 src/jitterentropy-timer.c | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/jitterentropy-timer.c b/src/jitterentropy-timer.c
index ce5e33a..d09e73d 100644
--- a/src/jitterentropy-timer.c
+++ b/src/jitterentropy-timer.c
@@ -204,9 +204,22 @@ static int jent_notime_sample_timer(void *arg)
 	/*
 	 * Best-effort pin to a dedicated CPU; a failure here is ignored as
 	 * the counter still ticks on whatever CPU the scheduler picks.
+	 *
+	 * Only the context of the builtin handler is known to be a struct
+	 * jent_notime_ctx. The one of a registered handler is opaque and must
+	 * not be read, so the CPU is determined without it.
 	 */
-	if (thread_ctx)
-		(void)jent_thread_pin_to_cpu(thread_ctx->notime_cpu);
+	if (notime_thread == &jent_notime_thread_builtin) {
+		if (thread_ctx)
+			(void)jent_thread_pin_to_cpu(thread_ctx->notime_cpu);
+	} else if (jent_notime_cpu_configured) {
+		(void)jent_thread_pin_to_cpu(jent_notime_cpu);
+	} else {
+		long highest = jent_cpu_highest();
+
+		if (highest >= 0)
+			(void)jent_thread_pin_to_cpu((unsigned long)highest);
+	}
 
 	ec->notime_timer = 0;
 
-- 
2.43.0


From a9088dfdf361e6f168b3c223b15c959e875becee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:19 +0000
Subject: [PATCH 5/6] fix: mark the self tests as run only once they have
 passed

The mark was set before the clock was tested, so that the startup test's own
collector could be allocated. A thread allocating meanwhile skipped the tests
and got a collector without the common divisor, and kept it even if the
startup test then failed.
---
 src/jitterentropy-base.c | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/src/jitterentropy-base.c b/src/jitterentropy-base.c
index 8d78df5..615ad15 100644
--- a/src/jitterentropy-base.c
+++ b/src/jitterentropy-base.c
@@ -628,8 +628,13 @@ unsigned int jent_hashloop_cnt(unsigned int flags)
  */
 static int jent_selftest_run = 0;
 
+/*
+ * startup_test is set by the startup test itself only: it allocates the
+ * collector it measures with before the self tests can be marked as run.
+ */
 static struct rand_data
-*jent_entropy_collector_alloc_internal(unsigned int osr, unsigned int flags)
+*jent_entropy_collector_alloc_common(unsigned int osr, unsigned int flags,
+				     unsigned int startup_test)
 {
 	struct rand_data *entropy_collector;
 	uint32_t memsize = 0;
@@ -662,7 +667,7 @@ static struct rand_data
 		return NULL;
 
 	/* Force the self test to be run */
-	if (!jent_atomic_load_int(&jent_selftest_run) &&
+	if (!startup_test && !jent_atomic_load_int(&jent_selftest_run) &&
 	    jent_entropy_init_ex(osr, flags))
 		return NULL;
 
@@ -783,6 +788,12 @@ err:
 	return NULL;
 }
 
+static struct rand_data
+*jent_entropy_collector_alloc_internal(unsigned int osr, unsigned int flags)
+{
+	return jent_entropy_collector_alloc_common(osr, flags, 0);
+}
+
 static struct rand_data *_jent_entropy_collector_alloc(unsigned int osr,
 						       unsigned int flags)
 {
@@ -985,7 +996,7 @@ int jent_time_entropy_init(unsigned int osr, unsigned int flags)
 	 * are really bad.
 	 */
 	flags |= JENT_FORCE_FIPS;
-	ec = jent_entropy_collector_alloc_internal(osr, flags);
+	ec = jent_entropy_collector_alloc_common(osr, flags, 1);
 	if (!ec) {
 		ret = EMEM;
 		goto out;
@@ -1167,18 +1178,17 @@ static inline int jent_entropy_init_common_pre(unsigned int flags)
 	if (ret)
 		return ret;
 
-	ret = jent_gcd_selftest(flags);
-
-	jent_atomic_store_int(&jent_selftest_run, 1);
-
-	return ret;
+	return jent_gcd_selftest(flags);
 }
 
 static inline int jent_entropy_init_common_post(int ret)
 {
-	/* Unmark the execution of the self tests if they failed. */
-	if (ret)
-		jent_atomic_store_int(&jent_selftest_run, 0);
+	/*
+	 * Mark the self tests as run only now that they all passed - another
+	 * thread must not skip them while they are still going on - and unmark
+	 * their execution if they failed.
+	 */
+	jent_atomic_store_int(&jent_selftest_run, !ret);
 
 	return ret;
 }
-- 
2.43.0


From 4bccbbb3759674843d9fde1fd95125d61202eb27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:57 +0000
Subject: [PATCH 6/6] fix: require a passed startup test of the internal timer
 before handing it out

jent_force_internal_timer is set before the startup test of the internal timer
runs and stays set when that test fails. An allocation that found it set took it
for a passed test: after an initialization on the platform clock, the second
attempt at a JENT_FORCE_INTERNAL_TIMER collector whose first one had failed the
test - or any allocation racing with that test - was handed out untested.
---
 src/jitterentropy-base.c  |  5 ++++-
 src/jitterentropy-timer.c | 29 +++++++++++++++++------------
 src/jitterentropy-timer.h | 10 ++++++++--
 3 files changed, 29 insertions(+), 15 deletions(-)

diff --git a/src/jitterentropy-base.c b/src/jitterentropy-base.c
index 615ad15..c53468c 100644
--- a/src/jitterentropy-base.c
+++ b/src/jitterentropy-base.c
@@ -777,7 +777,7 @@ static struct rand_data
 	 * entropy_collector!
 	 */
 	if (!(flags & JENT_DISABLE_INTERNAL_TIMER)) {
-		if (jent_notime_enable(entropy_collector, flags))
+		if (jent_notime_enable(entropy_collector, flags, startup_test))
 			goto err;
 	}
 
@@ -1119,6 +1119,9 @@ int jent_time_entropy_init(unsigned int osr, unsigned int flags)
 		ret = ESTUCK;
 
 out:
+	if (flags & JENT_FORCE_INTERNAL_TIMER)
+		jent_notime_tested(!ret);
+
 	jent_gcd_fini(delta_history, JENT_POWERUP_TESTLOOPCOUNT);
 
 	/* NOOP if notime disabled. Can be done unconditionally */
diff --git a/src/jitterentropy-timer.c b/src/jitterentropy-timer.c
index d09e73d..6e6cbc1 100644
--- a/src/jitterentropy-timer.c
+++ b/src/jitterentropy-timer.c
@@ -166,6 +166,12 @@ static struct jent_notime_thread jent_notime_thread_builtin = {
 static int jent_force_internal_timer = 0;
 static int jent_notime_switch_blocked = 0;
 
+/*
+ * Did the last startup test with the internal timer pass? Being forced does not
+ * tell that: it is set before the test starts and stays when the test fails.
+ */
+static int jent_notime_test_passed = 0;
+
 void jent_notime_block_switch(void)
 {
 	jent_atomic_store_int(&jent_notime_switch_blocked, 1);
@@ -314,20 +320,14 @@ void jent_notime_disable(struct rand_data *ec)
 		notime_thread->jent_notime_fini(ec->notime_thread_ctx);
 }
 
-int jent_notime_enable(struct rand_data *ec, unsigned int flags)
+int jent_notime_enable(struct rand_data *ec, unsigned int flags,
+		       int startup_test)
 {
-	/*
-	 * Read once and used twice: the two tests below are the same question
-	 * - has a startup already established the internal timer - and a
-	 * second load could answer them differently if another thread forces
-	 * it in between, which would run the startup a second time.
-	 */
-	int forced = jent_atomic_load_int(&jent_force_internal_timer);
-
 	/* Use internal timer */
-	if (forced || (flags & JENT_FORCE_INTERNAL_TIMER)) {
-		/* Self test not run yet */
-		if (!forced &&
+	if (jent_notime_forced() || (flags & JENT_FORCE_INTERNAL_TIMER)) {
+		/* Self test not run yet, failed, or of another thread and going on */
+		if (!startup_test &&
+		    !jent_atomic_load_int(&jent_notime_test_passed) &&
 		    jent_time_entropy_init(ec->osr,
 					   flags | JENT_FORCE_INTERNAL_TIMER))
 			return EHEALTH;
@@ -370,4 +370,9 @@ int jent_notime_forced(void)
 	return jent_atomic_load_int(&jent_force_internal_timer);
 }
 
+void jent_notime_tested(int passed)
+{
+	jent_atomic_store_int(&jent_notime_test_passed, passed);
+}
+
 #endif /* JENT_CONF_ENABLE_INTERNAL_TIMER */
diff --git a/src/jitterentropy-timer.h b/src/jitterentropy-timer.h
index aea2d9d..f842589 100644
--- a/src/jitterentropy-timer.h
+++ b/src/jitterentropy-timer.h
@@ -34,11 +34,13 @@ int jent_notime_set_cpu(unsigned long cpu);
 int jent_notime_settick(struct rand_data *ec);
 void jent_notime_unsettick(struct rand_data *ec);
 void jent_get_nstime_internal(struct rand_data *ec, uint64_t *out);
-int jent_notime_enable(struct rand_data *ec, unsigned int flags);
+int jent_notime_enable(struct rand_data *ec, unsigned int flags,
+		       int startup_test);
 void jent_notime_disable(struct rand_data *ec);
 int jent_notime_switch(struct jent_notime_thread *new_thread);
 void jent_notime_force(void);
 int jent_notime_forced(void);
+void jent_notime_tested(int passed);
 
 #else /* JENT_CONF_ENABLE_INTERNAL_TIMER */
 
@@ -64,9 +66,11 @@ static inline void jent_get_nstime_internal(struct rand_data *ec, uint64_t *out)
 	jent_get_nstime(out);
 }
 
-static inline int jent_notime_enable(struct rand_data *ec, unsigned int flags)
+static inline int jent_notime_enable(struct rand_data *ec, unsigned int flags,
+				     int startup_test)
 {
 	(void)ec;
+	(void)startup_test;
 
 	/* If we force the timer-less noise source, we return an error */
 	if (flags & JENT_FORCE_INTERNAL_TIMER)
@@ -90,6 +94,8 @@ static inline void jent_notime_force(void) { }
 
 static inline int jent_notime_forced(void) { return 0; }
 
+static inline void jent_notime_tested(int passed) { (void)passed; }
+
 #endif /* JENT_CONF_ENABLE_INTERNAL_TIMER */
 
 #ifdef __cplusplus
-- 
2.43.0

