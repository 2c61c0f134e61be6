/* C31: schedSetter.  The real program runs against a simulated kernel (users,
 * groups, scheduling of two processes) in which any step may fail. */
#define main sched_main
#include "schedSetter.c"
#undef main
#include "vmc.h"
#include "env.h"
#include <errno.h>
#include <stdarg.h>
#include <setjmp.h>
#include <stdint.h>

void vmc_process_init(void) { }

/* ------------------------------------------------------------ the kernel */
#define CHILD 4242
static bool on;
static bool inchild;
static int fail_budget;
static struct { long ruid, euid, rgid, egid; int ngroups; } cr;
static struct { int pol, prio; } sch[2];         /* self, child */
static int prmin, prmax, limit;                 /* target cannot get more than limit */
static int forks, execs, sets, sets_self, opens, closes, locked;
static int nfail;
static jmp_buf jb;
static char execname[80];
static const char *inputname;
static int nin, inpos, toggles_expected, eofs;
static bool fchild_dead;

static bool failing(const char *what)
{
	vmc_tick();
	if (vmc_dev(2, what)) {
		nfail++;
		return true;
	}
	return false;
}

pid_t __real_fork(void);
pid_t __wrap_fork(void)
{
	if (!on)
		return __real_fork();
	forks++;
	if (failing("fork")) {
		errno = EAGAIN;
		return -1;
	}
	inchild = vmc_enum(2, "child");
	return inchild ? 0 : CHILD;
}
uid_t __real_getuid(void);
uid_t __wrap_getuid(void) { return on ? (uid_t)cr.ruid : __real_getuid(); }
gid_t __real_getgid(void);
gid_t __wrap_getgid(void) { return on ? (gid_t)cr.rgid : __real_getgid(); }
int __wrap_setgroups(size_t n, const gid_t *g)
{
	(void)g;
	if (cr.euid || failing("setgroups"))
		return errno = EPERM, -1;
	cr.ngroups = (int)n;
	return 0;
}
static bool idok(long x, long cur) { return x != 4294967295L && (!cr.euid || x == cur); }
int __wrap_setgid(gid_t g)
{
	if (!idok(g, cr.rgid) || failing("setgid"))
		return errno = EPERM, -1;
	if (!cr.euid)
		cr.rgid = g;
	cr.egid = g;
	return 0;
}
int __wrap_setuid(uid_t u)
{
	if (!idok(u, cr.ruid) || failing("setuid"))
		return errno = EPERM, -1;
	if (!cr.euid)
		cr.ruid = u;
	cr.euid = u;
	return 0;
}
static long w_uid, w_gid;                       /* what the target has to get */
static void at_exec(const char *f, const char *a0, const char *end)
{
	execs++;
	snprintf(execname, sizeof(execname), "%s", f);
	VMC_CHECK(inchild, "execparent", "the privileged process executed the command");
	VMC_CHECK(cr.ruid == w_uid && cr.euid == w_uid, "uid", "target runs with uid %ld/%ld, not %ld", cr.ruid, cr.euid, w_uid);
	VMC_CHECK(cr.rgid == w_gid && cr.egid == w_gid, "gid", "target runs with gid %ld/%ld, not %ld", cr.rgid, cr.egid, w_gid);
	VMC_CHECK(cr.ngroups == 0, "groups", "target keeps %d supplementary groups", cr.ngroups);
	VMC_CHECK(nfail == 0, "execfail", "target executed though dropping privileges failed");
	VMC_CHECK(!strcmp(f, "the command") && a0 && !strcmp(a0, f) && !end, "exec", "executes %s", f);
	VMC_CHECK(sets == 0 && sets_self == 0, "childsched", "the target process changed its scheduling itself");
}
int __wrap_execlp(const char *f, const char *a, ...)
{
	va_list ap;
	va_start(ap, a);
	const char *e = va_arg(ap, const char *);
	va_end(ap);
	at_exec(f, a, e);
	if (failing("exec"))
		return errno = ENOENT, -1;
	longjmp(jb, 1);
}
int __wrap_execvp(const char *f, char *const *a)
{
	at_exec(f, a[0], a[1]);
	if (failing("exec"))
		return errno = ENOENT, -1;
	longjmp(jb, 1);
}
int __wrap_sched_get_priority_min(int p) { return p != SCHED_FIFO || failing("priority_min") ? -1 : prmin; }
int __wrap_sched_get_priority_max(int p) { return p != SCHED_FIFO || failing("priority_max") ? -1 : prmax; }
static int who(pid_t pid)
{
	VMC_CHECK(pid == 0 || pid == CHILD, "stranger", "process %ld is not ours", (long)pid);
	VMC_CHECK(!inchild, "childsched", "the target process touches scheduling");
	return pid == CHILD;
}
int __wrap_sched_getscheduler(pid_t pid) { int w = who(pid); return failing("getscheduler") ? -1 : sch[w].pol; }
int __wrap_sched_getparam(pid_t pid, struct sched_param *p)
{
	int w = who(pid);
	if (failing("getparam"))
		return -1;
	p->sched_priority = sch[w].prio;
	return 0;
}
int __wrap_sched_setscheduler(pid_t pid, int pol, const struct sched_param *p)
{
	int w = who(pid);
	vmc_tick();
	VMC_CHECK(cr.euid == 0 && forks == 1, "setearly", "scheduling changed before there is a target");
	int pr = p->sched_priority;
	if (pol == SCHED_FIFO ? pr < prmin || pr > prmax : pr != 0)
		return errno = EINVAL, -1;
	if (w && pol == SCHED_FIFO && pr > limit)
		return errno = EPERM, -1;
	if (vmc_dev(2, w ? "setscheduler target" : "setscheduler self")) {
		if (!(w && sets == 0))                  /* while looking for a priority, failing is no error */
			nfail++;
		else if (limit > pr - 1)
			limit = pr - 1;
		if (w && sets)
			fchild_dead = true;
		return errno = EPERM, -1;
	}
	sch[w].pol = pol;
	sch[w].prio = pr;
	if (w)
		sets++;
	else
		sets_self++;
	return 0;
}
int __wrap_mlockall(int f)
{
	(void)f;
	if (failing("mlockall"))
		return -1;
	locked++;
	return 0;
}
static ssize_t in_read(void *ck, char *b, size_t n)
{
	(void)ck; (void)n;
	vmc_tick();
	if (inpos < nin) {
		b[0] = inpos++ & 1 ? '\n' : 'x';
		return 1;
	}
	eofs++;
	if (failing("reading the input"))
		return errno = EIO, -1;
	return 0;
}
FILE *__real_fopen(const char *, const char *);
FILE *__wrap_fopen(const char *f, const char *m)
{
	if (!on)
		return __real_fopen(f, m);
	VMC_CHECK(!strcmp(f, inputname) && m[0] == 'r', "fifo", "opens %s (%s)", f, m);
	VMC_CHECK(nfail == 0, "ignored", "goes on though a step failed");
	VMC_CHECK(!inchild, "childfifo", "the target process opens the FIFO");
	if (++opens > 3)
		longjmp(jb, 2);                         /* waits for another writer */
	if (failing("open of the FIFO"))
		return errno = ENOENT, NULL;
	cookie_io_functions_t io = { .read = in_read };
	FILE *r = fopencookie(&opens, "r", io);
	setvbuf(r, NULL, _IONBF, 0);
	return r;
}
static int tog;
int __real_fgetc(FILE *);
int __wrap_fgetc(FILE *f)
{
	if (!on)
		return __real_fgetc(f);
	/* what the input so far should have led to */
	bool fifo = !(inpos & 1);
	(void)tog;
	VMC_CHECK(sch[1].pol == (fifo ? SCHED_FIFO : 0), "toggle", "after %d characters (and %d ends) the target has policy %d", inpos, eofs, sch[1].pol);
	return __real_fgetc(f);
}

static void reset(void)
{
	on = false;
	env_reset();
	inchild = false;
	cr.ruid = cr.rgid = 0;
	cr.euid = cr.egid = 0;
	cr.ngroups = 7;
	sch[0].pol = sch[1].pol = 0;
	sch[0].prio = sch[1].prio = 0;
	prmin = 1;
	prmax = 99;
	limit = 99;
	forks = execs = sets = sets_self = opens = closes = locked = nfail = nin = inpos = eofs = 0;
	fchild_dead = false;
	inputname = "the fifo";
	vmc_set_tick_limit(3000);
	vmc_nonterm_sig = "endless";
}
static int go(int argc, char **argv)
{
	static volatile int rv;
	on = true;
	rv = -1;
	int j = setjmp(jb);
	if (!j)
		rv = sched_main(argc, argv);
	on = false;
	return j ? -1000 - j : rv;
}

/* ------------------------------------------------------------ scenarios */
static bool valid(const char *s, long *v)
{
	unsigned long long x = 0;
	if (!*s)
		return false;
	for (; *s; s++) {
		if (*s < '0' || *s > '9')
			return false;
		if (x < 100000000000ULL)
			x = x * 10 + (unsigned)(*s - '0');
	}
	*v = (long)x;
	return x < 4294967295ULL;
}
static const char *const spec[] = { "1000", "0", "", "4294967294", "4294967295", "4294967296", "4294968296", "9223372036854775808", "18446744073709551616",
	"18446744073709552616", "99999999999999999999", "-1", " 1", "1 ", "+1", "0x10", "00", "01000", "2147483648", "1e3", "\xb2" };

/* arguments; param 0: short strings as uid or gid, 1: special ones as both */
static void s_args(int p)
{
	static const char al[] = "019-+ x";
	char a[8], b[24], c[24];
	reset();
	if (p == 0) {
		int n = vmc_enum(vmc_thorough() ? 6 : 5, "length");
		for (int i = 0; i < n; i++)
			a[i] = al[vmc_enum(7, "character")];
		a[n] = 0;
		int w = vmc_enum(2, "which");
		snprintf(b, sizeof(b), "%s", w ? "1000" : a);
		snprintf(c, sizeof(c), "%s", w ? a : "100");
	} else {
		snprintf(b, sizeof(b), "%s", spec[vmc_enum(21, "uid")]);
		snprintf(c, sizeof(c), "%s", spec[vmc_enum(21, "gid")]);
	}
	cr.ruid = vmc_enum(2, "started by") ? 1234 : 0;
	cr.rgid = cr.egid = cr.ruid ? 567 : 0;
	long ru = cr.ruid, rg = cr.rgid;
	int argc = p == 2 ? vmc_enum(9, "arguments") : 5;
	char *argv[10] = { "schedSetter", "the fifo", b, c, "the command", "more", "even more", "x", "y", NULL };
	if (p == 2)
		argv[argc] = NULL;
	long u = 0, g = 0;
	bool vu = valid(b, &u), vg = valid(c, &g);
	w_uid = u ? u : ru;
	w_gid = u ? g : rg;
	int rv = go(argc, argv);
	vmc_log("uid '%s' gid '%s': %d, %d forks", b, c, rv, forks);
	vmc_state(vmc_hash(b, strlen(b), vmc_hash(c, strlen(c), rv)));
	if (argc != 5 || !vu || !vg) {
		VMC_CHECK(forks == 0 && rv > 0, "badargs", "arguments uid '%s' gid '%s' (%d) are accepted (%d)", b, c, argc, rv);
		return;
	}
	VMC_CHECK(forks == 1, "goodargs", "arguments uid '%s' gid '%s' are refused (%d)", b, c, rv);
	VMC_CHECK(!inchild || nfail || execs == 1, "noexec", "target not executed: %d", rv);
}

/* any step fails; input toggles */
static void s_run(int p)
{
	char *argv[6] = { "schedSetter", "the fifo", "1000", "100", "the command", NULL };
	reset();
	w_uid = 1000;
	w_gid = 100;
	prmin = (int[]){ 1, 1, 5, 0 }[p];
	prmax = (int[]){ 99, 2, 5, 4 }[p];
	limit = vmc_enum(4, "target may have");
	limit = limit == 0 ? prmax : limit == 1 ? prmin : limit == 2 ? (prmin + prmax) / 2 : prmin - 1;
	int lim0 = limit;
	nin = vmc_enum(vmc_thorough() ? 9 : 6, "input");
	int rv = go(5, argv);
	vmc_log("rv %d, self %d/%d, target %d/%d, %d set, %d of %d read", rv, sch[0].pol, sch[0].prio, sch[1].pol, sch[1].prio, sets, inpos, nin);
	vmc_state(vmc_hash(sch, sizeof(sch), rv * 100 + sets));
	if (inchild) {
		VMC_CHECK(nfail ? rv > 0 : rv == -1001, "childend", "the target process ends with %d", rv);
		return;
	}
	VMC_CHECK(execs == 0, "parentexec", "executed by the parent");
	if (nfail && !opens)
		VMC_CHECK(rv > 0, "fail", "a failed step, yet %d", rv);
	int top = prmax == prmin ? prmax : prmax - 1;
	if (limit < top)
		top = limit;
	(void)lim0;
	bool possible = top >= prmin;
	if (!opens) {
		VMC_CHECK(rv > 0, "early", "gives up with %d", rv);
		VMC_CHECK(nfail || !possible, "early", "gives up (%d) though nothing failed", rv);
		if (sets_self == 0 || !possible || forks == 0)
			VMC_CHECK(sets == 0, "partial", "target has policy %d after a failure", sch[1].pol);
		return;
	}
	VMC_CHECK(possible && sch[0].pol == SCHED_FIFO && sch[0].prio == prmax, "self", "own scheduling is %d/%d", sch[0].pol, sch[0].prio);
	VMC_CHECK(sets_self == 1 && locked == 1, "self", "own scheduling set %d times, memory locked %d", sets_self, locked);
	if (sch[1].pol == SCHED_FIFO)
		VMC_CHECK(sch[1].prio == top, "prio", "target has priority %d, could have %d", sch[1].prio, top);
	else
		VMC_CHECK(sch[1].pol == 0 && sch[1].prio == 0, "prio", "target has %d/%d", sch[1].pol, sch[1].prio);
	int done = inpos;
	if (fchild_dead)
		done--;
	else if (!nfail)
		VMC_CHECK(inpos == nin, "input", "%d of %d characters read", inpos, nin);
	VMC_CHECK(sets == 1 + done, "count", "%d changes after %d characters", sets - 1, done);
}

const struct vmc_scenario vmc_scenarios[] = {
	{"args", s_args, 0, 1, 1, 0, 4}, {"args.special", s_args, 1, 1, 2, 0, 4}, {"args.count", s_args, 2, 0, 0, 0, 1},
	{"run", s_run, 0, 3, 6, 0, 4}, {"run.two", s_run, 1, 3, 6, 0, 4}, {"run.one", s_run, 2, 3, 6, 0, 4}, {"run.zero", s_run, 3, 3, 6, 0, 4},
	{0}
};
