#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "vmc.h"
#include <errno.h>
#include <fcntl.h>
#include <ftw.h>
#include <setjmp.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

/* The engine must not go through the wrapped libc entry points. */
#include "real.h"

#define MAXDEPTH   60000
#define LOGSZ      (1 << 18)
#define SETBITS    19
#define SETSZ      (1u << SETBITS)
#define OUTBITS    13
#define OUTSZ      (1u << OUTBITS)

struct point {
	int n, c;
	int cost;               /* of a nonzero alternative; 0: enumerated */
	char label[20];
};

enum rstat { R_RUNNING = 0, R_DONE, R_FAIL, R_ERROR, R_PRUNED, R_DIVERGED };

struct shm {
	/* the choice stack */
	int depth;              /* number of recorded points */
	int pos;                /* next point in this execution */
	int base;               /* first point we may alter (shard) */
	struct point pt[MAXDEPTH];
	/* execution */
	volatile int status;
	long ticks;
	volatile unsigned long heartbeat;
	char sig[128];
	char msg[4096];
	size_t loglen;
	char log[LOGSZ];
	uint64_t loghash;
	/* counters */
	unsigned long execs, points, checks, prunes, transitions, logs;
	int maxdepth, maxdev;
	unsigned long nstates, noutcomes;
	int setfull, outfull;
	int finished;           /* the space was exhausted */
	int mindepth;
	uint64_t set[SETSZ];
	uint64_t oset[OUTSZ];
	char osample[12][160];
	char sample[3][1500];
	int nsample;
};

static struct shm *S;
static int g_bound, g_shard, g_nshards = 1;
static bool g_replay, g_verbose, g_thorough;
static const struct vmc_scenario *g_sc;
static long g_ticklimit = 2000000;
static jmp_buf g_jb;
static bool g_jbok;
static char g_scratch[256];
static int g_outfd = 2;
const char *vmc_nonterm_sig = "nontermination";

bool vmc_thorough(void) { return g_thorough; }
bool vmc_replaying(void) { return g_replay; }
const char *vmc_scratch(void) { return g_scratch; }
int vmc_bound(void) { return g_bound; }

uint64_t vmc_hash(const void *p, size_t n, uint64_t h) {
	const uint8_t *b = p;
	h ^= 0xcbf29ce484222325ULL;
	for (size_t i = 0; i < n; i++) {
		h ^= b[i];
		h *= 0x100000001b3ULL;
	}
	h ^= h >> 29;
	return h;
}

static int set_add(uint64_t *set, unsigned sz, uint64_t h, unsigned long *count, int *full) {
	if (!h) {
		h = 1;
	}
	if (*count * 10 > (unsigned long)sz * 9) {
		*full = 1;
		return 0;
	}
	unsigned i = (unsigned)(h >> 7) & (sz - 1);
	while (set[i]) {
		if (set[i] == h) {
			return 0;
		}
		i = (i + 1) & (sz - 1);
	}
	set[i] = h;
	(*count)++;
	return 1;
}

static void endrun(enum rstat st) __attribute__((noreturn));
static void endrun(enum rstat st) {
	S->status = st;
	if (st == R_PRUNED && g_jbok) {
		longjmp(g_jb, 1);
	}
	__real__exit(st == R_FAIL ? 70 : st == R_PRUNED ? 0 : 71);
}

void vmc_fail(const char *sig, const char *fmt, ...) {
	va_list ap;
	va_start(ap, fmt);
	snprintf(S->sig, sizeof(S->sig), "%s", sig);
	vsnprintf(S->msg, sizeof(S->msg), fmt, ap);
	va_end(ap);
	endrun(R_FAIL);
}

void vmc_error(const char *fmt, ...) {
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(S->msg, sizeof(S->msg), fmt, ap);
	va_end(ap);
	endrun(R_ERROR);
}

void vmc_prune(void) {
	S->prunes++;
	endrun(R_PRUNED);
}

void vmc_checked(void) { S->checks++; }

void vmc_set_tick_limit(long n) { g_ticklimit = n; }

void vmc_tick(void) {
	S->heartbeat++;
	if (++S->ticks > g_ticklimit) {
		vmc_fail(vmc_nonterm_sig, "no termination within %ld environment steps", g_ticklimit);
	}
}

static void addstate(uint64_t h) {
	set_add(S->set, SETSZ, h, &S->nstates, &S->setfull);
}

void vmc_state(uint64_t h) {
	S->transitions++;
	addstate(vmc_hash(&h, sizeof(h), (uint64_t)(uintptr_t)g_sc->param + 77));
}

static void addlog(const char *s) {
	size_t n = strlen(s);
	S->loghash = vmc_hash(s, n, S->loghash);
	S->logs++;
	if (S->loglen + n + 2 < LOGSZ) {
		memcpy(S->log + S->loglen, s, n);
		S->loglen += n;
		S->log[S->loglen++] = '\n';
		S->log[S->loglen] = 0;
	}
	if (g_verbose) {
		dprintf(g_outfd, "    %s\n", s);
	}
}

void vmc_log(const char *fmt, ...) {
	char b[1024];
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(b, sizeof(b), fmt, ap);
	va_end(ap);
	addlog(b);
}

void vmc_loghex(const char *tag, const uint8_t *d, size_t n) {
	char b[1024];
	size_t o = (size_t)snprintf(b, sizeof(b), "%s[%zu]", tag, n);
	static const char hx[] = "0123456789abcdef";
	for (size_t i = 0; i < n && o + 4 < sizeof(b); i++) {
		b[o++] = ' ';
		b[o++] = hx[d[i] >> 4];
		b[o++] = hx[d[i] & 15];
	}
	b[o] = 0;
	addlog(b);
	if (o + 4 >= sizeof(b)) {
		S->loghash = vmc_hash(d, n, S->loghash);
	}
}

void vmc_outcome(const char *fmt, ...) {
	char b[160];
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(b, sizeof(b), fmt, ap);
	va_end(ap);
	if (set_add(S->oset, OUTSZ, vmc_hash(b, strlen(b), 3), &S->noutcomes, &S->outfull) &&
	    S->noutcomes <= 12) {
		memcpy(S->osample[S->noutcomes - 1], b, sizeof(b));
	}
}

static int choose(int n, int cost, const char *label) {
	if (n <= 0) {
		vmc_error("choice '%s' with %d alternatives", label, n);
	}
	S->points++;
	S->heartbeat++;
	addstate(S->loghash ^ (uint64_t)g_sc->param);
	int p = S->pos;
	if (p >= MAXDEPTH) {
		vmc_fail(vmc_nonterm_sig, "more than %d environment choices in one execution", MAXDEPTH);
	}
	if (p < S->depth) {
		if (S->pt[p].n != n || S->pt[p].cost != cost) {
			snprintf(S->msg, sizeof(S->msg), "divergence at point %d: recorded %s/%d, now %s/%d",
			         p, S->pt[p].label, S->pt[p].n, label, n);
			endrun(R_DIVERGED);
		}
	} else {
		S->pt[p].n = n;
		S->pt[p].cost = cost;
		S->pt[p].c = 0;
		if (p == 0 && g_nshards > 1) {
			if (g_shard >= n) {
				/* nothing to do in this shard */
				S->depth = 1;
				S->pos = 1;
				S->pt[0].c = n - 1;
				vmc_prune();
			}
			S->pt[0].c = g_shard;
		}
		strncpy(S->pt[p].label, label, sizeof(S->pt[p].label) - 1);
		S->pt[p].label[sizeof(S->pt[p].label) - 1] = 0;
		S->depth = p + 1;
	}
	S->pos = p + 1;
	int c = S->pt[p].c;
	S->transitions++;
	S->loghash = vmc_hash(&c, sizeof(c), S->loghash + 0x9e37);
	if (S->loglen + 64 < LOGSZ) {
		S->loglen += (size_t)sprintf(S->log + S->loglen, "  ? %.19s = %d of %d\n", label, c, n);
	}
	if (g_verbose) {
		dprintf(g_outfd, "  ? %s = %d of %d\n", label, c, n);
	}
	return c;
}

int vmc_enum(int n, const char *label) { return choose(n, 0, label); }
int vmc_dev_cost(int n, int cost, const char *label) {
	return n == 1 ? 0 : choose(n, cost, label);
}
int vmc_dev(int n, const char *label) { return vmc_dev_cost(n, 1, label); }

int vmc_deviations(void) {
	int d = 0;
	for (int i = 0; i < S->pos; i++) {
		if (S->pt[i].c) {
			d += S->pt[i].cost;
		}
	}
	return d;
}

/* Move to the next unexplored choice stack; false when there is none. */
static bool advance(void) {
	int d = S->pos;         /* points actually met in the last execution */
	if (d < S->depth) {
		S->depth = d;
	}
	int dev = 0;
	for (int i = 0; i < S->depth; i++) {
		if (S->pt[i].c) {
			dev += S->pt[i].cost;
		}
	}
	if (dev > S->maxdev) {
		S->maxdev = dev;
	}
	while (S->depth > 0) {
		struct point *p = &S->pt[S->depth - 1];
		if (p->c) {
			dev -= p->cost;
		}
		int step = (S->depth == 1 && g_nshards > 1) ? g_nshards : 1;
		if (p->c + step < p->n && dev + p->cost <= g_bound) {
			p->c += step;
			return true;
		}
		S->depth--;
	}
	return false;
}

static void begin_exec(void) {
	S->pos = 0;
	S->ticks = 0;
	S->loglen = 0;
	S->log[0] = 0;
	S->loghash = 0x1234;
	S->status = R_RUNNING;
	S->sig[0] = S->msg[0] = 0;
}

static void take_sample(void) {
	/* keep the 1st, the 100th and the 10000th nontrivial execution */
	if (S->nsample < 3 && S->pos > 0 &&
	    (S->execs == 1 || S->execs == 100 || S->execs == 10000)) {
		snprintf(S->sample[S->nsample++], sizeof(S->sample[0]), "%s", S->log);
	}
}

static void run_one(void) {
	begin_exec();
	if (setjmp(g_jb) == 0) {
		g_jbok = true;
		g_sc->fn(g_sc->param);
		S->status = R_DONE;
	}
	g_jbok = false;
	S->execs++;
	S->heartbeat++;
	if (S->pos > S->maxdepth) {
		S->maxdepth = S->pos;
	}
	if (S->status == R_DONE) {
		if (S->pos < S->depth) {
			snprintf(S->msg, sizeof(S->msg), "divergence: execution ended after %d of %d recorded choices", S->pos, S->depth);
			endrun(R_DIVERGED);
		}
		addstate(S->loghash ^ (uint64_t)g_sc->param);
		take_sample();
	}
}

static char g_logdir[256];

static void child_setup(void) {
	struct rlimit rl = {0, 0};
	setrlimit(RLIMIT_CORE, &rl);
	if (!(g_sc->flags & VMC_KEEP_STDOUT)) {
		int fd = __real_open("/dev/null", O_RDWR);
		__real_dup2(fd, 0);
		__real_dup2(fd, 1);
		g_outfd = 300;
		if (__real_dup2(2, 300) < 0) {
			g_outfd = 2;
		}
		char f[512];
		snprintf(f, sizeof(f), "%s/stderr.%s.%d", g_logdir, g_sc->name, g_shard);
		int e = __real_open(f, O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0600);
		struct rlimit fl = {64 << 20, 64 << 20};
		(void)fl;
		(void)e;
		__real_dup2(fd, 2);
		if (fd > 2) {
			__real_close(fd);
		}
		if (e > 2) {
			__real_close(e);
		}
	}
	snprintf(g_scratch, sizeof(g_scratch), "%s/w.%s.%d", g_logdir, g_sc->name, g_shard);
	mkdir(g_scratch, 0700);
	vmc_process_init();
}

/* Runs in the worker: explore until exhausted (or one fork per execution). */
static void worker(void) __attribute__((noreturn));
static void worker(void) {
	if (g_sc->flags & VMC_FORK) {
		child_setup();
		for (;;) {
			pid_t p = __real_fork();
			if (p == 0) {
				run_one();
				__real__exit(0);
			}
			int st;
			while (waitpid(p, &st, 0) < 0 && errno == EINTR) {
			}
			if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
				/* crashed or failed: hand over to the parent */
				if (WIFEXITED(st)) {
					__real__exit(WEXITSTATUS(st));
				}
				signal(WTERMSIG(st), SIG_DFL);
				raise(WTERMSIG(st));
				__real__exit(72);
			}
			if (!advance()) {
				break;
			}
		}
	} else {
		child_setup();
		do {
			run_one();
		} while (advance());
	}
	S->finished = 1;
	__real__exit(0);
}

struct job {
	const struct vmc_scenario *sc;
	int shard, nshards;
	struct shm *s;
	pid_t pid;
	unsigned long hb;
	double hbt, t0, t1;
	unsigned long first_exec;
	int done;
	int restarts;
};

static double now(void) {
	struct timespec ts;
	__real_clock_gettime(CLOCK_MONOTONIC, &ts);
	return (double)ts.tv_sec + (double)ts.tv_nsec / 1e9;
}

static pid_t spawn(struct job *j) {
	fflush(NULL);
	pid_t p = __real_fork();
	if (p == 0) {
		S = j->s;
		g_sc = j->sc;
		g_shard = j->shard;
		g_nshards = j->nshards;
		g_bound = g_thorough ? j->sc->bound_thorough : j->sc->bound_quick;
		setpgid(0, 0);
		worker();
	}
	setpgid(p, p);
	j->hbt = now();
	j->hb = j->s->heartbeat;
	return p;
}

/* Replay the choice stack of `s' alone in a fresh process.
 * Returns 1 if it failed again (sig/msg filled from the replay). */
static int replay_fresh(struct job *j, struct shm *dst, double limit, int *hung, int *wstat, bool verbose, int bound) {
	*hung = 0;
	fflush(NULL);
	pid_t p = __real_fork();
	if (p == 0) {
		S = dst;
		g_sc = j->sc;
		g_shard = j->shard;
		g_nshards = 1;
		g_bound = bound;
		g_replay = true;
		g_verbose = verbose;
		setpgid(0, 0);
		child_setup();
		run_one();
		__real__exit(0);
	}
	setpgid(p, p);
	double t = now();
	int st;
	for (;;) {
		pid_t r = waitpid(p, &st, WNOHANG);
		if (r == p) {
			break;
		}
		if (now() - t > limit) {
			kill(-p, SIGKILL);
			waitpid(p, &st, 0);
			*hung = 1;
			break;
		}
		struct timespec ts = {0, 2000000};
		__real_nanosleep(&ts, NULL);
	}
	*wstat = st;
	return *hung || !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
}

static bool is_known(const char *sig) {
	for (int i = 0; vmc_known_sigs[i]; i++) {
		if (!strcmp(vmc_known_sigs[i], sig)) {
			return true;
		}
	}
	return false;
}

static char g_knownhit[32][128];
static char g_knownmsg[32][300];
static int g_nknown;

static void note_known(const char *sig, const char *msg) {
	for (int i = 0; i < g_nknown; i++) {
		if (!strcmp(g_knownhit[i], sig)) {
			return;
		}
	}
	if (g_nknown < 32) {
		snprintf(g_knownhit[g_nknown], 128, "%s", sig);
		snprintf(g_knownmsg[g_nknown], 300, "%s", msg);
		g_nknown++;
	}
}

/* first interesting line of a sanitizer report, and the innermost function of
 * the code under test it names */
static char g_crashfn[80];
static void asan_summary(char *out, size_t n) {
	out[0] = 0;
	g_crashfn[0] = 0;
	char cmd[600];
	snprintf(cmd, sizeof(cmd), "cat %s/asan.* 2>/dev/null", g_logdir);
	FILE *f = popen(cmd, "r");
	char line[1000];
	char err[300] = "", frames[700] = "";
	int nf = 0;
	while (f && fgets(line, sizeof(line), f)) {
		line[strcspn(line, "\n")] = 0;
		char *e = strstr(line, "ERROR: AddressSanitizer");
		if (!e && strstr(line, "runtime error: ")) {
			e = line;
		}
		if (e && !err[0]) {
			snprintf(err, sizeof(err), "%.250s", e);
		}
		char *in = strstr(line, " in ");
		if (err[0] && line[0] == ' ' && strchr(line, '#') && in) {
			in += 4;
			if (nf < 5) {
				size_t l = strlen(frames);
				snprintf(frames + l, sizeof(frames) - l, " <%.90s>", in);
				nf++;
			}
			if (!g_crashfn[0] && (strstr(in, "/scantool/") || strstr(in, "/schedSetter/"))) {
				snprintf(g_crashfn, sizeof(g_crashfn), "%.*s", (int)strcspn(in, " "), in);
			}
		}
	}
	if (f) {
		pclose(f);
	}
	snprintf(out, n, "%s%s", err, frames);
	snprintf(cmd, sizeof(cmd), "rm -f %s/asan.*", g_logdir);
	if (system(cmd)) {
	}
}

static const char *g_replaydir = ".";
static void jsonstr(FILE *f, const char *s) {
	fputc('"', f);
	for (; *s; s++) {
		unsigned char c = (unsigned char)*s;
		if (c == '"' || c == '\\') {
			fprintf(f, "\\%c", c);
		} else if (c == '\n') {
			fputs("\\n", f);
		} else if (c < 32 || c > 126) {
			fprintf(f, "\\u%04x", c);
		} else {
			fputc(c, f);
		}
	}
	fputc('"', f);
}

static void write_replay(const char *path, struct job *j, struct shm *s, const char *sig, const char *msg, bool history) {
	FILE *f = fopen(path, "w");
	if (!f) {
		return;
	}
	fprintf(f, "property %s\nscenario %s\nbound %d\nsig %s\nhistory %d\nshard %d %d\nexec %lu\nchoices", vmc_property, j->sc->name,
	        g_thorough ? j->sc->bound_thorough : j->sc->bound_quick, sig, history, j->shard, j->nshards, s->execs);
	for (int i = 0; i < s->depth; i++) {
		fprintf(f, " %d/%d/%d", s->pt[i].c, s->pt[i].n, s->pt[i].cost);
	}
	fprintf(f, "\nend\n");
	fprintf(f, "violation: %s\n--- trace\n%s", msg, s->log);
	fclose(f);
}

#define MAXJOBS 8192
static struct shm *newshm(void) {
	struct shm *s = mmap(NULL, sizeof(*s), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (s == MAP_FAILED) {
		perror("mmap");
		exit(2);
	}
	return s;
}

static void describe(struct shm *s, int st, int hung, char *sig, size_t sn, char *msg, size_t mn) {
	char as[1100];
	asan_summary(as, sizeof(as));
	if (hung) {
		snprintf(sig, sn, "hang");
		snprintf(msg, mn, "the code under test does not return (hang)");
	} else if (s->status == R_FAIL) {
		snprintf(sig, sn, "%s", s->sig);
		snprintf(msg, mn, "%s", s->msg);
	} else if (s->status == R_ERROR) {
		snprintf(sig, sn, "harness-error");
		snprintf(msg, mn, "%s", s->msg);
	} else if (s->status == R_DIVERGED) {
		snprintf(sig, sn, "diverged");
		snprintf(msg, mn, "%s", s->msg);
	} else if (as[0]) {
		snprintf(sig, sn, "crash:%s", g_crashfn);
		snprintf(msg, mn, "memory error or abort: %s", as);
	} else if (WIFSIGNALED(st)) {
		snprintf(sig, sn, "crash");
		snprintf(msg, mn, "killed by signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st)));
	} else {
		snprintf(sig, sn, "exit");
		snprintf(msg, mn, "the process ended unexpectedly with status %d", WIFEXITED(st) ? WEXITSTATUS(st) : -1);
	}
}

static int rmcb(const char *p, const struct stat *sb, int t, struct FTW *f) {
	(void)sb; (void)t; (void)f;
	return remove(p);
}

static int do_replay(const char *file) {
	FILE *f = fopen(file, "r");
	if (!f) {
		perror(file);
		return 2;
	}
	static char tok[200], scn[200];
	int bound = 0, history = 0, sh = 0, nsh = 1;
	unsigned long ex = 0;
	struct shm *s = newshm();
	while (fscanf(f, "%199s", tok) == 1 && strcmp(tok, "end")) {
		if (!strcmp(tok, "scenario")) {
			if (fscanf(f, "%199s", scn) != 1) { return 2; }
		} else if (!strcmp(tok, "bound")) {
			if (fscanf(f, "%d", &bound) != 1) { return 2; }
		} else if (!strcmp(tok, "history")) {
			if (fscanf(f, "%d", &history) != 1) { return 2; }
		} else if (!strcmp(tok, "shard")) {
			if (fscanf(f, "%d %d", &sh, &nsh) != 2) { return 2; }
		} else if (!strcmp(tok, "exec")) {
			if (fscanf(f, "%lu", &ex) != 1) { return 2; }
		} else if (strchr(tok, '/')) {
			int c, n, k;
			if (sscanf(tok, "%d/%d/%d", &c, &n, &k) == 3) {
				s->pt[s->depth].c = c;
				s->pt[s->depth].n = n;
				s->pt[s->depth].cost = k;
				s->depth++;
			}
		}
	}
	fclose(f);
	struct job j = {0};
	for (int i = 0; vmc_scenarios[i].name; i++) {
		if (!strcmp(vmc_scenarios[i].name, scn)) {
			j.sc = &vmc_scenarios[i];
		}
	}
	if (!j.sc) {
		fprintf(stderr, "unknown scenario %s\n", scn);
		return 2;
	}
	j.s = s;
	int hung, st;
	printf("replaying %s: scenario %s, %d choices\n", vmc_property, scn, s->depth);
	int r = replay_fresh(&j, s, 60, &hung, &st, true, bound);
	char sig[128], msg[4096];
	if (r) {
		describe(s, st, hung, sig, sizeof(sig), msg, sizeof(msg));
		printf("REPRODUCED sig=%s: %s\n", sig, msg);
		return 1;
	}
	printf(history ? "not reproduced alone (history dependent: run the check)\n" : "not reproduced\n");
	return 0;
}

int vmc_main(int argc, char **argv) {
	const char *out = NULL, *only = NULL, *rep = NULL;
	int jobs = 8;
	double budget = 0;
	snprintf(g_logdir, sizeof(g_logdir), "%s", "/tmp");
	const char *logdir = NULL;
	for (int i = 1; i < argc; i++) {
		if (!strcmp(argv[i], "--out")) {
			out = argv[++i];
		} else if (!strcmp(argv[i], "--only")) {
			only = argv[++i];
		} else if (!strcmp(argv[i], "--replay")) {
			rep = argv[++i];
		} else if (!strcmp(argv[i], "--jobs")) {
			jobs = atoi(argv[++i]);
		} else if (!strcmp(argv[i], "--thorough")) {
			g_thorough = true;
		} else if (!strcmp(argv[i], "--budget")) {
			budget = atof(argv[++i]);
		} else if (!strcmp(argv[i], "--replaydir")) {
			g_replaydir = argv[++i];
		} else if (!strcmp(argv[i], "--scratch")) {
			logdir = argv[++i];
		} else if (!strcmp(argv[i], "-v")) {
			g_verbose = true;
		} else {
			fprintf(stderr, "unknown argument %s\n", argv[i]);
			return 2;
		}
	}
	snprintf(g_logdir, sizeof(g_logdir), "%s/vmc.XXXXXX", logdir ? logdir : "/tmp");
	if (!mkdtemp(g_logdir)) {
		perror("mkdtemp");
		return 2;
	}
	/* re-exec with sanitizer options, so that reports go to our scratch dir */
	if (!getenv("VMC_ASAN_SET")) {
		char o[600];
		snprintf(o, sizeof(o), "log_path=%s/asan:detect_leaks=0:abort_on_error=0:exitcode=73:handle_abort=1:"
		         "allocator_may_return_null=1:detect_stack_use_after_return=1:max_malloc_fill_size=4096:malloc_fill_byte=190:"
		         "quarantine_size_mb=16:allow_user_segv_handler=1:max_uar_stack_size_log=16", g_logdir);
		setenv("ASAN_OPTIONS", o, 1);
		snprintf(o, sizeof(o), "log_path=%s/asan:print_stacktrace=1:exitcode=73", g_logdir);
		setenv("UBSAN_OPTIONS", o, 1);
		setenv("VMC_ASAN_SET", g_logdir, 1);
		execv("/proc/self/exe", argv);
		perror("execv");
		return 2;
	}
	rmdir(g_logdir);
	snprintf(g_logdir, sizeof(g_logdir), "%s", getenv("VMC_ASAN_SET"));
	unsetenv("VMC_ASAN_SET");

	if (rep) {
		int r = do_replay(rep);
		nftw(g_logdir, rmcb, 8, FTW_DEPTH | FTW_PHYS);
		return r;
	}

	double t0 = now();
	struct job *J = calloc(MAXJOBS, sizeof(*J));
	int nj = 0;
	for (int i = 0; vmc_scenarios[i].name; i++) {
		const struct vmc_scenario *sc = &vmc_scenarios[i];
		if (only && strcmp(only, sc->name)) {
			continue;
		}
		if ((sc->flags & VMC_THOROUGH_ONLY) && !g_thorough) {
			continue;
		}
		int ns = sc->nshards > 1 ? sc->nshards : 1;
		for (int k = 0; k < ns; k++) {
			if (nj == MAXJOBS) {
				fprintf(stderr, "too many scenarios\n");
				return 2;
			}
			J[nj].sc = sc;
			J[nj].shard = k;
			J[nj].nshards = ns;
			nj++;
		}
	}
	int running = 0, next = 0, err = 0, nviol = 0, capped = 0;
	char errmsg[4200] = "";
	unsigned long divergences = 0;
	while (next < nj || running) {
		while (running < jobs && next < nj && !err && !nviol) {
			J[next].s = newshm();
			J[next].t0 = now();
			J[next].pid = spawn(&J[next]);
			next++;
			running++;
		}
		if ((err || nviol) && !running) {
			break;
		}
		int progressed = 0;
		for (int i = 0; i < next; i++) {
			struct job *j = &J[i];
			if (j->done || !j->pid) {
				continue;
			}
			int st;
			pid_t r = waitpid(j->pid, &st, WNOHANG);
			int hung = 0;
			if (r == 0) {
				double t = now();
				if (j->s->heartbeat != j->hb) {
					j->hb = j->s->heartbeat;
					j->hbt = t;
				}
				if (err || nviol || (budget > 0 && t - t0 > budget)) {
					if (!(err || nviol)) {
						capped++;
					}
					kill(-j->pid, SIGKILL);
					waitpid(j->pid, &st, 0);
					j->done = 1;
					j->t1 = now();
					running--;
					progressed = 1;
					continue;
				}
				if (t - j->hbt < 25) {
					continue;
				}
				/* no progress for a long time: a hang? */
				kill(-j->pid, SIGKILL);
				waitpid(j->pid, &st, 0);
				hung = 1;
			}
			progressed = 1;
			kill(-j->pid, SIGKILL);
			j->pid = 0;
			if (!hung && WIFEXITED(st) && WEXITSTATUS(st) == 0 && j->s->finished) {
				j->done = 1;
				j->t1 = now();
				running--;
				continue;
			}
			/* Something went wrong in the execution of the current stack. */
			char sig[128], msg[4096];
			describe(j->s, st, hung, sig, sizeof(sig), msg, sizeof(msg));
			if (!strcmp(sig, "harness-error")) {
				err = 1;
				snprintf(errmsg, sizeof(errmsg), "%s: %s", j->sc->name, msg);
				j->done = 1;
				running--;
				continue;
			}
			struct shm *cp = newshm();
			int h2, st2;
			if (!strcmp(sig, "diverged")) {
				/* hidden state carried over between executions? retry in a fresh process */
				divergences++;
				if (++j->restarts > 200) {
					err = 1;
					snprintf(errmsg, sizeof(errmsg), "%s: %s", j->sc->name, msg);
					j->done = 1;
					running--;
					munmap(cp, sizeof(*cp));
					continue;
				}
				memcpy(cp->pt, j->s->pt, sizeof(cp->pt));
				cp->depth = j->s->depth;
				int rr = replay_fresh(j, cp, 60, &h2, &st2, false, 1000000);
				if (rr && cp->status == R_DIVERGED) {
					err = 1;
					snprintf(errmsg, sizeof(errmsg), "%s: divergence also in a fresh process: %s", j->sc->name, cp->msg);
					j->done = 1;
					running--;
				} else {
					j->pid = spawn(j);      /* resume from this stack */
				}
				munmap(cp, sizeof(*cp));
				continue;
			}
			memcpy(cp->pt, j->s->pt, sizeof(cp->pt));
			/* the stack as met by this execution */
			cp->depth = j->s->pos < j->s->depth ? j->s->pos : j->s->depth;
			int rr = replay_fresh(j, cp, hung ? 60 : 40, &h2, &st2, false, 1000000);
			bool history = false;
			struct shm *ev = cp;
			if (!rr) {
				/* Not alone: does it depend on earlier executions of this worker? */
				struct shm *full = newshm();
				struct job jj = *j;
				jj.s = full;
				jj.pid = spawn(&jj);
				double tt = now();
				int st3 = 0;
				for (;;) {
					pid_t q = waitpid(jj.pid, &st3, WNOHANG);
					if (q == jj.pid) {
						break;
					}
					if (now() - tt > 200) {
						kill(-jj.pid, SIGKILL);
						waitpid(jj.pid, &st3, 0);
						break;
					}
					struct timespec ts = {0, 5000000};
					__real_nanosleep(&ts, NULL);
				}
				char sig3[128], msg3[4096];
				describe(full, st3, 0, sig3, sizeof(sig3), msg3, sizeof(msg3));
				if (full->execs == j->s->execs && !full->finished && !strcmp(sig3, sig)) {
					history = true;
					ev = full;
				} else {
					err = 1;
					snprintf(errmsg, sizeof(errmsg), "%s: not reproducible: sig=%s %s", j->sc->name, sig, msg);
					j->done = 1;
					running--;
					continue;
				}
			} else {
				describe(cp, st2, h2, sig, sizeof(sig), msg, sizeof(msg));
				if (!strcmp(sig, "harness-error")) {
					err = 1;
					snprintf(errmsg, sizeof(errmsg), "%s: %s", j->sc->name, msg);
					j->done = 1;
					running--;
					continue;
				}
			}
			if (is_known(sig)) {
				note_known(sig, msg);
				munmap(cp, sizeof(*cp));
				j->s->execs++;
				if (j->s->pos < j->s->depth) {
					j->s->depth = j->s->pos;
				}
				/* continue behind it */
				struct shm *save = S;
				S = j->s;
				g_bound = g_thorough ? j->sc->bound_thorough : j->sc->bound_quick;
				g_nshards = j->nshards;
				bool more = advance();
				S = save;
				if (more) {
					j->pid = spawn(j);
				} else {
					j->s->finished = 1;
					j->done = 1;
					j->t1 = now();
					running--;
				}
				continue;
			}
			nviol++;
			char path[600];
			mkdir(g_replaydir, 0755);
			snprintf(path, sizeof(path), "%s/%s-%s-%d.replay", g_replaydir, vmc_property, j->sc->name, j->shard);
			write_replay(path, j, ev, sig, msg, history);
			fprintf(stdout, "VIOLATION property=%s replay=%s\n", vmc_property, path);
			fprintf(stdout, "  scenario=%s sig=%s%s: %s\n", j->sc->name, sig, history ? " (needs the preceding executions)" : "", msg);
			const char *l = ev->log;
			size_t ll = strlen(l);
			if (ll > 1500) {
				l += ll - 1500;
			}
			fprintf(stdout, "  trace (tail):\n%s\n", l);
			fflush(stdout);
			j->done = 1;
			j->t1 = now();
			running--;
		}
		if (!progressed) {
			struct timespec ts = {0, 3000000};
			__real_nanosleep(&ts, NULL);
		}
	}

	/* totals */
	unsigned long execs = 0, points = 0, checks = 0, prunes = 0, trans = 0, states = 0, outs = 0;
	int full = 0, unfinished = 0;
	for (int i = 0; i < nj; i++) {
		if (!J[i].s) {
			unfinished++;
			continue;
		}
		execs += J[i].s->execs;
		points += J[i].s->points;
		checks += J[i].s->checks;
		prunes += J[i].s->prunes;
		trans += J[i].s->transitions;
		states += J[i].s->nstates;
		outs += J[i].s->noutcomes;
		full |= J[i].s->setfull;
		if (!J[i].s->finished) {
			unfinished++;
		}
	}
	if (out) {
		FILE *f = fopen(out, "w");
		if (!f) {
			perror(out);
			return 2;
		}
		fprintf(f, "{\"executions\":%lu,\"choice_points\":%lu,\"oracle_checks\":%lu,\"pruned\":%lu,\"transitions\":%lu,"
		        "\"states\":%lu,\"states_saturated\":%s,\"distinct_outcomes\":%lu,\"unfinished\":%d,\"capped\":%d,"
		        "\"violations\":%d,\"history_divergences\":%lu,\"wall_s\":%.2f,\"error\":",
		        execs, points, checks, prunes, trans, states, full ? "true" : "false", outs, unfinished, capped, nviol, divergences, now() - t0);
		jsonstr(f, errmsg);
		fprintf(f, ",\"known\":[");
		for (int i = 0; i < g_nknown; i++) {
			fprintf(f, "%s{\"sig\":", i ? "," : "");
			jsonstr(f, g_knownhit[i]);
			fprintf(f, ",\"msg\":");
			jsonstr(f, g_knownmsg[i]);
			fprintf(f, "}");
		}
		fprintf(f, "],\"scenarios\":[");
		for (int i = 0; i < nj; i++) {
			struct shm *s = J[i].s;
			if (!s) {
				continue;
			}
			fprintf(f, "%s{\"name\":", i ? "," : "");
			jsonstr(f, J[i].sc->name);
			fprintf(f, ",\"shard\":%d,\"deviation_bound\":%d,\"executions\":%lu,\"states\":%lu,\"max_choices\":%d,\"max_deviations\":%d,"
			        "\"distinct_outcomes\":%lu,\"exhausted\":%s,\"wall_s\":%.2f,\"outcomes\":[",
			        J[i].shard, g_thorough ? J[i].sc->bound_thorough : J[i].sc->bound_quick, s->execs, s->nstates, s->maxdepth,
			        s->maxdev, s->noutcomes, s->finished ? "true" : "false", J[i].t1 > 0 ? J[i].t1 - J[i].t0 : 0.0);
			for (unsigned long k = 0; k < s->noutcomes && k < 12; k++) {
				fprintf(f, "%s", k ? "," : "");
				jsonstr(f, s->osample[k]);
			}
			fprintf(f, "],\"samples\":[");
			for (int k = 0; k < s->nsample; k++) {
				fprintf(f, "%s", k ? "," : "");
				jsonstr(f, s->sample[k]);
			}
			fprintf(f, "]}");
		}
		fprintf(f, "]}\n");
		fclose(f);
	}
	nftw(g_logdir, rmcb, 8, FTW_DEPTH | FTW_PHYS);
	for (int i = 0; i < g_nknown; i++) {
		printf("KNOWN-FINDING: property=%s sig=%s %s\n", vmc_property, g_knownhit[i], g_knownmsg[i]);
	}
	if (err) {
		fprintf(stderr, "ERROR: %s\n", errmsg);
	}
	printf("%s: %lu executions, %lu states, %lu transitions, %lu checks, %lu outcomes, %d unfinished%s, %.1fs\n", vmc_property, execs, states,
	       trans, checks, outs, unfinished, capped ? " (time cap)" : "", now() - t0);
	if (nviol) {
		return 1;
	}
	return err ? 2 : 0;
}

int main(int argc, char **argv) { return vmc_main(argc, argv); }
