/*
 * vmc: a small stateless model checker for C code.
 *
 * A scenario is a deterministic function which closes the code under test with
 * a driver and an environment.  Every piece of nondeterminism it uses comes
 * from the choice functions below; the engine runs the scenario once for every
 * combination of choices (depth first), within a deviation bound, in worker
 * processes so that a crash, a hang or an abort of the code under test is one
 * more observable outcome.
 */
#ifndef VMC_H
#define VMC_H
#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>

/* Fully enumerated choice: every value 0..n-1 is explored. */
int vmc_enum(int n, const char *label);
/* Environment answer: 0 is the default; any other value costs one deviation. */
int vmc_dev(int n, const char *label);
/* As vmc_dev with an explicit cost for every non-default value. */
int vmc_dev_cost(int n, int cost, const char *label);
/* Deviations used so far by this execution / bound of the scenario. */
int vmc_deviations(void);
int vmc_bound(void);

/* Record an observation (part of the state, printed on replay). */
void vmc_log(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void vmc_loghex(const char *tag, const uint8_t *d, size_t n);
/* Add the canonical state `h' to the set of distinct states; one transition. */
void vmc_state(uint64_t h);
/* Number of oracle comparisons made. */
void vmc_checked(void);
/* Distinct outcome of an execution (set of strings, counted). */
void vmc_outcome(const char *fmt, ...) __attribute__((format(printf, 1, 2)));

/* The property is violated.  sig identifies the failing input/site/history.
 * Does not return. */
void vmc_fail(const char *sig, const char *fmt, ...)
	__attribute__((format(printf, 2, 3), noreturn));
/* The harness itself is broken (not a violation). Does not return. */
void vmc_error(const char *fmt, ...)
	__attribute__((format(printf, 1, 2), noreturn));
/* Abandon this execution as uninteresting (not counted as checked). */
void vmc_prune(void) __attribute__((noreturn));
/* One unit of progress of the environment; too many per execution means that
 * the code under test does not terminate. */
void vmc_tick(void);
void vmc_set_tick_limit(long n);
/* called with a bound to describe what a nontermination looks like */
extern const char *vmc_nonterm_sig;

#define VMC_CHECK(cond, sig, ...) \
	do { vmc_checked(); if (!(cond)) vmc_fail(sig, __VA_ARGS__); } while (0)

uint64_t vmc_hash(const void *p, size_t n, uint64_t seed);
bool vmc_thorough(void);
/* Running inside an exploration (false in scenario-less code) */
bool vmc_replaying(void);
/* scratch directory, private to this worker; removed at the end */
const char *vmc_scratch(void);

struct vmc_scenario {
	const char *name;
	void (*fn)(int param);
	int param;
	int bound_quick;        /* deviation bound */
	int bound_thorough;
	int flags;
	int nshards;            /* split on the first choice point; 0/1: no split */
};
#define VMC_INPROC   0          /* many executions in one process */
#define VMC_FORK     1          /* one process per execution */
#define VMC_THOROUGH_ONLY 2
#define VMC_KEEP_STDOUT 4       /* do not redirect stdout/stderr to /dev/null */

extern const char vmc_property[];
extern const struct vmc_scenario vmc_scenarios[];       /* name==NULL ends */
/* called once in each process which runs executions */
extern void vmc_process_init(void);
extern const char *const vmc_known_sigs[];
int vmc_main(int argc, char **argv);
#endif
