/* helpers of the demonstrations: a programmable clock for the library */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include <errno.h>
#include <sys/types.h>
#include <sys/wait.h>
#include "jitterentropy.h"
#include "jitterentropy-internal.h"
int jent_set_mock_timer(void (*cb)(void *, uint64_t *), void *arg);
static uint64_t jd_now = 1000003, jd_k, jd_reads;
static long jd_zero;                 /* readings that do not advance */
static uint64_t (*jd_fn)(void);      /* increment of the next reading */
static uint32_t jd_p5(uint64_t k)
{
	uint64_t m = 30011, x = k % m, y = x * x % m; y = y * y % m; y = y * x % m;
	return (uint32_t)(y * 7 % m);
}
static uint64_t jd_noise(void) { uint64_t v = 60013 + (uint64_t)jd_p5(jd_k + 1) - jd_p5(jd_k); jd_k++; return v; }
static void jd_clock(void *arg, uint64_t *out)
{
	(void)arg; jd_reads++;
	if (jd_zero > 0) jd_zero--;
	else jd_now += jd_fn ? jd_fn() : jd_noise();
	*out = jd_now;
}
static void jd_setup(void) { jent_set_mock_timer(jd_clock, NULL); }
#define BAD(...) do { printf("FAIL: " __VA_ARGS__); printf("\n"); exit(1); } while (0)
