/* C29: the OBD-II scan tool over a modelled vehicle: what its commands ask
 * for and show, against what the modelled ECUs answered. */
#include "vmc.h"
#include "env.h"
#include "diag.h"
#include "diag_l1.h"
#include "diag_l2.h"
#include "diag_l3.h"
#include "diag_err.h"
#include "libcli.h"
#include "scantool.h"
#include "scantool_cli.h"
#include "utlist.h"
#include <ctype.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

extern const struct cmd_tbl_entry scantool_cmd_table[];
extern struct diag_l2_conn *global_l2_conn;
extern struct diag_l3_conn *global_l3_conn;

/* ---- the vehicle ---- */
#define MAXE 20
#define NUNK 7
static struct ecu {
	uint8_t addr;
	uint8_t map[10][8][4];
	uint8_t val[3][256][4];
	int ndtc, npend, n6;
	uint16_t dtc[10], pend[10];
	uint16_t ffdtc;
	struct { uint8_t tid, comp; uint16_t val, lim; } t6[6];
	uint8_t o2[256][3];
	uint8_t vit[256][84];
	int nvit[256];
	bool hidden;
} E[MAXE];
static int ne, nvis;

static void setbit_(uint8_t map[8][4], int pid)
{
	for (;;) {
		int b = (pid - 1) / 32, k = (pid - 1) % 32;
		map[b][k / 8] |= 0x80 >> (k % 8);
		if (!b)
			return;
		pid = b * 32;
	}
}
static int getbit_(uint8_t map[8][4], int pid) { int b = (pid - 1) / 32, k = (pid - 1) % 32; return map[b][k / 8] >> (7 - k % 8) & 1; }

static const uint8_t len1[0x20] = { 4, 4, 2, 2, 1, 1, 1, 1, 1, 1, 1, 1, 2, 1, 1, 1, 2, 1, 1, 1, 2, 2, 2, 2, 2, 2, 2, 2, 1, 1, 1, 2 };
static int plen(int pid) { return pid % 32 == 0 ? 4 : pid < 0x20 ? len1[pid] : 2; }

struct rmsg { int e; uint8_t fmt; int len; uint8_t d[256]; int q; };    /* q: 2 must be used, 1 may be, 0 never */
static struct rmsg R[100];
static int nr;

static struct rmsg *put(int e, int n, const uint8_t *d)
{
	struct rmsg *m = &R[nr++];
	m->e = e;
	m->fmt = 0;
	m->len = n;
	memcpy(m->d, d, n);
	m->q = 2;
	return m;
}
/* the answers of an ECU to a request */
static void answer(int x, const uint8_t *rq)
{
	struct ecu *e = &E[x];
	uint8_t b[8] = { rq[0] + 0x40, rq[1] };
	int m = rq[0], p = rq[1];
	bool blk = m != 3 && m != 4 && m != 7 && p % 32 == 0;
	if (blk) {
		if (p ? !getbit_(e->map[m], p) : !memcmp(e->map[m], (uint8_t[32]){0}, 32))
			return;
		uint8_t *mp = e->map[m][p / 32];
		if (m == 1 || m == 8) {
			memcpy(b + 2, mp, 4);
			put(x, m == 1 ? 6 : 7, b);
		} else {
			b[2] = m == 2 ? 0 : m == 5 ? rq[2] : m == 6 ? 0xff : 1;
			memcpy(b + 3, mp, 4);
			put(x, 7, b);
		}
		return;
	}
	switch (m) {
	case 1:
		if (!getbit_(e->map[1], p))
			return;
		memcpy(b + 2, e->val[1][p], plen(p));
		put(x, 2 + plen(p), b);
		return;
	case 2:
		if (!getbit_(e->map[2], p))
			return;
		b[2] = 0;
		if (p == 2)
			e->val[2][2][0] = e->ffdtc >> 8, e->val[2][2][1] = e->ffdtc;
		memcpy(b + 3, e->val[2][p], plen(p));
		put(x, 3 + plen(p), b);
		return;
	case 3:
	case 7: {
		int n = m == 3 ? e->ndtc : e->npend;
		uint16_t *t = m == 3 ? e->dtc : e->pend;
		for (int i = 0; i < n; i += 3) {
			for (int k = 0; k < 3; k++) {
				b[1 + 2 * k] = i + k < n ? t[i + k] >> 8 : 0;
				b[2 + 2 * k] = i + k < n ? t[i + k] : 0;
			}
			put(x, 7, b);
		}
		return;
	}
	case 4:
		put(x, 1, b);
		return;
	case 5:
		if (!getbit_(e->map[5], p))
			return;
		b[2] = rq[2];
		memcpy(b + 3, e->o2[p], 3);
		put(x, p <= 4 ? 4 : 6, b);
		return;
	case 6:
		for (int i = 0; i < e->n6; i++) {
			if (e->t6[i].tid != p)
				continue;
			uint8_t c[7] = { 0x46, p, e->t6[i].comp, e->t6[i].val >> 8, e->t6[i].val, e->t6[i].lim >> 8, e->t6[i].lim };
			put(x, 7, c);
		}
		return;
	case 9:
		if (!getbit_(e->map[9], p))
			return;
		for (int i = 0; i < e->nvit[p]; i++) {
			b[2] = i + 1;
			memcpy(b + 3, &e->vit[p][i * 4], 4);
			put(x, 7, b);
		}
		return;
	default:
		return;
	}
}

/* ---- what the tool knows, as answered ---- */
static struct rec { uint8_t st; uint8_t len; uint8_t d[256]; } cur[3][MAXE][256];     /* st: 0 nothing, 2 good, 1 perhaps */
static uint8_t sup[MAXE][10][256];
static uint8_t seen[MAXE];                       /* registered: 2 yes, 1 perhaps, 0 no */
static int nseen, seenorder[MAXE];
static struct { char kind; bool req, used; int e; char s[160]; } F[1200];
static int nf;
static struct { int e; bool req; uint8_t b[4]; } pid1[MAXE * 2], pid13[MAXE * 2];
static int n1, n13;
static bool asked[10][256], asked5[256][256];
static long nrq, nwrongrq;
static int cleared_pos, cleared_neg, cleared_maybe;
static struct rec snap[3][MAXE][256];
static bool explored[10];
static int exploring;
/* how this tool combines the bytes of mode 6 values: 256, or the recorded finding */
static int ncms_scale = 256;
static struct { uint8_t len, d[256]; } bad[3][MAXE][256];      /* corrupt, only to be dumped as such */
static bool ncms_all, faulty, fault2, fault1, anyfault, linkdown;

static void fact(char kind, bool req, int e, const char *fmt, ...) __attribute__((format(printf, 4, 5)));
static void fact(char kind, bool req, int e, const char *fmt, ...)
{
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(F[nf].s, sizeof(F[nf].s), fmt, ap);
	va_end(ap);
	F[nf].kind = kind;
	F[nf].req = req;
	F[nf].used = false;
	F[nf++].e = e;
	if (nf > 1190)
		vmc_error("facts");
}
static const char *dtcs(int hi, int lo) { static char b[8]; snprintf(b, 8, "%c%02X%02X", "PCBU"[hi >> 6], hi & 0x3f, lo); return b; }

static const char *o2name[10] = { 0, "Rich to lean sensor threshold voltage", "Lean to rich sensor threshold voltage", "Low sensor voltage for switch time calc.",
	"High sensor voltage for switch time calc.", "Rich to lean sensor switch time", "Lean to rich sensor switch time", "Minimum sensor voltage for test cycle",
	"Maximum sensor voltage for test cycle", "Time between sensor transitions" };

static void observe(const uint8_t *rq, struct rmsg *r)
{
	int m = rq[0], p = rq[1], e = r->e, q = r->q;
	const uint8_t *d = r->d;
	bool req = q == 2;
	if (r->len && !(r->fmt & DIAG_FMT_BADCS)) {
		if (!seen[e]) {
			if (nseen < 8)
				seen[e] = 2, seenorder[nseen++] = e;
			else
				seen[e] = 3;    /* too many */
		}
		if (seen[e] == 3)
			q = 0, req = false;
	} else if (!seen[e] && q)
		q = 1, req = false;
	if (m == 4) {
		if (!r->len || (r->fmt & DIAG_FMT_BADCS) || d[0] != 0x44)
			cleared_neg++;
		else if (q == 2)
			cleared_pos++;
		else
			cleared_maybe++;
		return;
	}
	if ((m == 1 || m == 2) && (r->fmt & DIAG_FMT_BADCS) && r->len >= 2 && d[0] == m + 0x40 && d[1] == p) {
		bad[m][e][p].len = r->len;
		memcpy(bad[m][e][p].d, d, r->len);
	}
	if (!q || r->len < 1 || d[0] != m + 0x40)
		return;
	bool hasp = m != 3 && m != 7;
	if (hasp && r->len < 2)
		return;
	if (m == 5 || m == 6) {
		/* the result of another test is shown as that */
		if (d[1] != p)
			p = d[1], req = false;
	} else if (hasp && d[1] != p)
		return;
	if (m == 1 || m == 2) {
		/* of several, the first is shown */
		if (!(cur[m][e][p].st == 2)) {
			cur[m][e][p].st = q;
			cur[m][e][p].len = r->len;
			memcpy(cur[m][e][p].d, d, r->len);
		}
	}
	if (hasp && p % 32 == 0 && m != 7) {
		int o = m == 1 || m == 8 ? 2 : 3;
		if (r->len < o + 4)
			return;
		if (explored[m])
			q = 1;  /* the tool does not explore any more */
		if (!sup[e][m][0] || !p)
			sup[e][m][0] = p ? 1 : q;
		for (int i = 1; i <= 32 && p + i < 256; i++)
			if (d[o + (i - 1) / 8] & 0x80 >> ((i - 1) % 8))
				if (sup[e][m][p + i] < q)
					sup[e][m][p + i] = q;
		return;
	}
	switch (m) {
	case 1:
		if (p == 1 && r->len >= 6) {
			pid1[n1].e = e;
			pid1[n1].req = req;
			memcpy(pid1[n1++].b, d + 2, 4);
		}
		if (p == 0x13 && r->len >= 3) {
			pid13[n13].e = e;
			pid13[n13].req = req;
			pid13[n13++].b[0] = d[2];
		}
		break;
	case 3:
	case 7:
		for (int i = 1; i + 1 < r->len && i < 7; i += 2)
			if (d[i] || d[i + 1])
				fact(m == 3 ? 'D' : 'C', req, e, "%s", dtcs(d[i], d[i + 1]));
		break;
	case 5:
		if (r->len < 4 || (p > 4 && r->len < 6) || p > 0x1f)
			break;
		if (p <= 4)
			fact('O', req, e, "%s: %.6f", o2name[p], d[3] * .005);
		else if (p <= 6)
			fact('O', req, e, "%s: actual %.2f min %.2f max %.2f %s", o2name[p], d[3] * .004, d[4] * .004, d[5] * .004, d[3] < d[4] || d[3] > d[5] ? "FAILED" : "Passed");
		else if (p <= 8)
			fact('O', req, e, "%s: %.6f %.6f %.6f %s", o2name[p], d[3] * .005, d[4] * .005, d[5] * .005, d[3] < d[4] || d[3] > d[5] ? "FAILED" : "Passed");
		else if (p == 9)
			fact('O', req, e, "%s: %s", o2name[p], d[3] < d[4] || d[3] > d[5] ? "FAILED" : "Passed");
		else
			fact('O', req, e, "Test %d: actual 0x%X min 0x%X max 0x%X %s", p, d[3], d[4], d[5], d[3] < d[4] || d[3] > d[5] ? "FAILED" : "Passed");
		break;
	case 6: {
		if (r->len < 7)
			break;
		int v = d[3] * ncms_scale + d[4], l = d[5] * ncms_scale + d[6];
		bool min = d[2] & 0x80, fail = min ? v < l : v > l;
		if (fail || ncms_all)
			fact('N', req, e, "Test 0x%X Component 0x%X %s %s val %d Current Val %d", d[1], d[2] & 0x7f, fail ? "FAILED" : "Passed", min ? "Min" : "Max", l, v);
		break;
	}
	case 9:
		break;
	}
}

/* ---- the connection ---- */
static struct diag_l2_proto l2p;
static struct diag_l2_conn l2c;
static struct diag_l3_proto l3p;
static struct diag_l3_conn l3c;
static uint8_t rq[8];
static int rqlen;
static bool pending_rq, norecv;
static int dead;
static int timerrv;
static bool nofaults;

static int k_timer(struct diag_l3_conn *c, unsigned long ms)
{
	(void)c;
	(void)ms;
	vmc_tick();
	if (timerrv) {
		timerrv = 0;
		return diag_iseterr(DIAG_ERR_GENERAL);
	}
	return 0;
}
int __wrap_diag_l2_open(struct diag_l0_device *d, int l1) { (void)d; (void)l1; return diag_iseterr(DIAG_ERR_BADIFADAPTER); }
static bool any_sup(int m, int p, int least)
{
	for (int e = 0; e < ne; e++)
		if (sup[e][m][p] >= least)
			return true;
	return false;
}
int __wrap_diag_l3_send(struct diag_l3_conn *c, struct diag_msg *msg)
{
	static const int lens[10] = { 0, 2, 3, 1, 1, 3, 2, 1, 7, 2 };
	vmc_tick();
	VMC_CHECK(c == &l3c, "conn", "request on another connection");
	VMC_CHECK(msg->len >= 1 && msg->data[0] >= 1 && msg->data[0] <= 9 && msg->len == lens[msg->data[0]], "rqlen", "%u byte request of mode %d", msg->len, msg->len ? msg->data[0] : -1);
	VMC_CHECK(msg->src == global_cfg.src && msg->dest == global_cfg.tgt, "rqaddr", "request from %02X to %02X", msg->src, msg->dest);
	memset(rq, 0, sizeof(rq));
	memcpy(rq, msg->data, msg->len);
	rqlen = msg->len;
	nrq++;
	int m = rq[0], p = rqlen > 1 ? rq[1] : 0;
	if (exploring != m)
		explored[exploring] = true;
	exploring = m;
	bool blk = rqlen > 1 && p % 32 == 0;
	if (blk)
		VMC_CHECK(!p || any_sup(m, p, 1), "rqblock", "mode %d block %02X is asked for, no ECU has it", m, p);
	else if (m == 1)
		VMC_CHECK(p == 0x13 || p == 1 || any_sup(1, p, 1), "rqpid", "PID %02X is asked for, no ECU supports it", p);
	else if (m == 2)
		VMC_CHECK(p == 2 || any_sup(2, p, 1), "rqff", "freeze frame PID %02X is asked for, no ECU supports it", p);
	else if (m == 5 || m == 6 || m == 9)
		VMC_CHECK(any_sup(m, p, 1), "rqtest", "mode %d test %02X is asked for, no ECU supports it", m, p);
	if (m == 2)
		VMC_CHECK(rq[2] == 0, "rqframe", "freeze frame %d is asked for", rq[2]);
	if (m == 5 && !blk)
		VMC_CHECK(rq[2] && !(rq[2] & (rq[2] - 1)), "rqsensor", "sensors %02X are asked for", rq[2]);
	if (m == 5)
		asked5[p][rq[2]] = true;
	asked[m][p] = true;
	if (m == 1 || m == 2)
		for (int e = 0; e < ne; e++)
			cur[m][e][p].st = 0, bad[m][e][p].len = 0;
	if (m == 1 && p == 1)
		n1 = 0;
	if (m == 1 && p == 0x13)
		n13 = 0;
	if (m == 7)
		memcpy(snap, cur, sizeof(cur));
	if (m == 4)
		cleared_pos = cleared_neg = cleared_maybe = 0;
	if (dead == 0)
		linkdown = false;
	return dead == 3 ? (dead = 0, diag_iseterr(DIAG_ERR_GENERAL)) : 0;
}
static int pickecu(bool *has)
{
	int l[MAXE], n = 0;
	for (int e = 0; e < nvis; e++)
		if (has[e])
			l[n++] = e;
	return n ? l[vmc_enum(n, "ECU")] : -1;
}
enum { F_NONE, F_TIMEOUT, F_ERR, F_DEAD, F_DEADK, F_SENDFAIL, F_SILENT, F_NEG, F_TRUNC, F_LONG, F_OTHER, F_BADCS, F_PREZERO, F_POSTOTHER, F_UNK, F_EMPTY, F_DUP, F_ZERO, NFAULTS };

static int deliver(void (*cb)(void *, struct diag_msg *), void *handle)
{
	struct diag_msg *head = NULL;
	for (int i = 0; i < nr; i++) {
		struct diag_msg *m = diag_allocmsg(R[i].len);
		if (R[i].len)
			memcpy(m->data, R[i].d, R[i].len);
		m->src = E[R[i].e].addr;
		m->dest = 0xf1;
		m->fmt = R[i].fmt | DIAG_FMT_FRAMED;
		LL_CONCAT(head, m);
	}
	for (int i = 0; i < nr; i++)
		observe(rq, &R[i]);
	if (head)
		cb(handle, head);
	diag_freemsg(head);
	return nr ? 0 : diag_iseterr(DIAG_ERR_TIMEOUT);
}
int __wrap_diag_l3_recv(struct diag_l3_conn *c, unsigned int tmo, void (*cb)(void *, struct diag_msg *), void *handle)
{
	(void)c;
	(void)tmo;
	vmc_tick();
	nr = 0;
	if (dead == 1 || dead == 2) {
		timerrv = dead == 2;
		dead = 0;
		return diag_iseterr(DIAG_ERR_TIMEOUT);
	}
	bool has[MAXE] = { 0 };
	for (int e = 0; e < nvis; e++) {
		int n = nr;
		answer(e, rq);
		has[e] = nr > n;
	}
	int f = nofaults ? 0 : vmc_dev(NFAULTS, "fault");
	if (!f)
		return deliver(cb, handle);
	faulty = anyfault = true;
	if (rq[0] == 2)
		fault2 = true;
	if (rq[0] == 1 && (rq[1] == 1 || rq[1] == 0x13))
		fault1 = true;
	switch (f) {
	case F_TIMEOUT:
		nr = 0;
		return diag_iseterr(DIAG_ERR_TIMEOUT);
	case F_ERR:
		nr = 0;
		return diag_iseterr(DIAG_ERR_BADDATA);
	case F_DEAD:
	case F_DEADK:
		nr = 0;
		dead = f == F_DEAD ? 1 : 2;
		return diag_iseterr(DIAG_ERR_TIMEOUT);
	case F_SENDFAIL:
		nr = 0;
		dead = 3;
		return diag_iseterr(DIAG_ERR_GENERAL);
	case F_EMPTY:
		nr = 0;
		return 0;
	case F_UNK: {
		int first = vmc_enum(2, "where");
		if (first)
			nr = 0;
		ne = nvis + NUNK;
		for (int e = nvis; e < ne; e++) {
			memcpy(E[e].map, E[0].map, sizeof(E[e].map));
			answer(e, rq);
		}
		if (first)
			for (int e = 0; e < nvis; e++)
				answer(e, rq);
		return deliver(cb, handle);
	}
	default:
		break;
	}
	/* the number of a part of the vehicle information is not looked at */
	int x = f == F_DUP && rq[0] == 9 ? -1 : pickecu(has);
	if (x < 0)
		return deliver(cb, handle);
	int k = 0;
	while (R[k].e != x)
		k++;
	struct rmsg *r = &R[k];
	static struct rmsg old[100];
	switch (f) {
	case F_SILENT:
	case F_NEG: {
		struct rmsg neg = *r;
		int j = 0;
		neg.len = 3;
		memcpy(neg.d, (uint8_t[]){ 0x7f, rq[0], 0x12 }, 3);
		neg.q = 0;
		bool done = f == F_SILENT;
		for (int i = 0; i < nr; i++) {
			if (R[i].e != x)
				R[j++] = R[i];
			else if (!done)
				R[j++] = neg, done = true;
		}
		nr = j;
		break;
	}
	case F_TRUNC:
		r->len = vmc_enum(r->len, "bytes");
		r->q = 1;
		break;
	case F_LONG:
		memset(r->d + r->len, rq[0] <= 2 ? 0xee : 0, 255 - r->len);
		r->len = 255;
		r->q = 1;
		break;
	case F_OTHER:
		r->q = rq[0] == 5 || rq[0] == 6;
		if (rq[0] == 3 || rq[0] == 7 || rq[0] == 4)
			r->d[0] = 0x50;
		else
			r->d[1] = rq[1] == 0x0c ? 0x05 : 0x0c;
		break;
	case F_BADCS:
		r->fmt = DIAG_FMT_BADCS;
		r->d[r->len - 1] ^= 0x11;
		if (r->len > 2)
			r->d[2] ^= 0x80;
		r->q = 0;
		break;
	case F_ZERO:
		r->len = 0;
		r->q = 0;
		break;
	case F_PREZERO:
	case F_POSTOTHER:
	case F_DUP: {
		int j = 0;
		memcpy(old, R, sizeof(R[0]) * nr);
		int n = nr;
		for (int i = 0; i < n; i++) {
			if (i == k && f == F_PREZERO) {
				R[j] = old[i];
				R[j].q = 0;
				R[j++].len = 0;
			}
			R[j++] = old[i];
			/* the right answer is there, but not alone */
			if (i == k) {
				R[j - 1].q = f == F_PREZERO ? 1 : 2;
				if (f == F_POSTOTHER) {
					R[j] = old[i];
					R[j].d[0] = 0x50;
					R[j++].q = 0;
				} else if (f == F_DUP) {
					R[j] = old[i];
					R[j++].q = 1;
				}
			}
		}
		nr = j;
		break;
	}
	}
	return deliver(cb, handle);
}

/* ---- running commands ---- */
static bool enter_now;
static long cms_seen;
int __wrap_diag_os_ipending(void) { vmc_tick(); return enter_now || (asked[7][0] && cms_seen); }
static const char *userinput;
char *__wrap_cli_basic_get_input(const char *prompt, FILE *in) { (void)prompt; (void)in; vmc_tick(); return userinput ? strdup(userinput) : NULL; }

static char *ob;
static size_t on;
static FILE *so, *se, *of;
static char out[400000];

static int run_tbl(const struct cmd_tbl_entry *t, const char *name, const char *arg)
{
	while (strcmp(t->command, name))
		t++;
	char a0[20], a1[20], *av[3] = { a0, a1, NULL };
	snprintf(a0, 20, "%s", name);
	snprintf(a1, 20, "%s", arg ? arg : "");
	bool tr = env_alloc_track;
	env_alloc_track = false;
	fflush(stdout);
	of = open_memstream(&ob, &on);
	so = stdout;
	se = stderr;
	stdout = stderr = of;
	nf = n1 = n13 = 0;
	memset(asked, 0, sizeof(asked));
	memset(asked5, 0, sizeof(asked5));
	fault2 = fault1 = faulty = false;
	nrq = 0;
	if (!strcmp(name, "scan")) {
		memset(explored, 0, sizeof(explored));
		exploring = 0;
	}
	env_alloc_track = tr;
	enum cli_retval rv = t->routine(arg ? 2 : 1, av);
	env_alloc_track = false;
	fclose(of);
	stdout = so;
	stderr = se;
	if (on >= sizeof(out))
		vmc_error("too much output");
	memcpy(out, ob, on);
	out[on] = 0;
	free(ob);
	env_alloc_track = tr;
	if (vmc_replaying())
		vmc_log("> %s %s\n%s", name, arg ? arg : "", out);
	return rv;
}
static int cmd(const char *n, const char *a) { return run_tbl(scantool_cmd_table, n, a); }
static int test(const char *n) { return run_tbl(test_cmd_table, n, NULL); }

static char *lines[8000];
static int nl;
static void split(void)
{
	nl = 0;
	for (char *s = strtok(out, "\n"); s && nl < 8000; s = strtok(NULL, "\n")) {
		/* blanks are not judged */
		char *w = s;
		for (char *r = s; *r; r++)
			if (*r != ' ' || (w > s && w[-1] != ' '))
				*w++ = *r;
		while (w > s && w[-1] == ' ')
			w--;
		*w = 0;
		lines[nl++] = s;
	}
}
/* the numbers given to ECUs */
static int idx2e[MAXE], nidx;
static int e2idx(int e) { for (int i = 0; i < nidx; i++) if (idx2e[i] == e) return i; return -1; }
static int by_addr(unsigned a) { for (int e = 0; e < ne; e++) if (E[e].addr == a) return e; return -1; }

static void check_ecus(void)
{
	char save[sizeof(F)];
	int snf = nf, s1 = n1, s13 = n13;
	memcpy(save, F, sizeof(F));
	static bool sa[10][256], sa5[256][256];
	bool sf2 = fault2, sf1 = fault1, sf = faulty;
	memcpy(sa, asked, sizeof(asked));
	memcpy(sa5, asked5, sizeof(asked5));
	static char so_[sizeof(out)];
	memcpy(so_, out, strlen(out) + 1);
	cmd("ecus", NULL);
	split();
	int n = -1;
	nidx = 0;
	for (int i = 0; i < nl; i++) {
		unsigned k, a;
		if (sscanf(lines[i], "%d ECUs found", &n) == 1)
			continue;
		if (sscanf(lines[i], "ECU %u: Address 0x%X", &k, &a) == 2) {
			VMC_CHECK((int)k == nidx, "ecuno", "ECU %u listed as number %d", k, nidx);
			int e = by_addr(a);
			VMC_CHECK(e >= 0 && seen[e] != 3 && seen[e], "ecuaddr", "ECU %02X is listed, it never answered", a);
			VMC_CHECK(e2idx(e) < 0, "ecudup", "ECU %02X is listed twice", a);
			idx2e[nidx++] = e;
		}
	}
	VMC_CHECK(n == nidx, "ecucount", "%d ECUs found, %d listed", n, nidx);
	for (int e = 0; e < ne; e++)
		VMC_CHECK(seen[e] != 2 || e2idx(e) >= 0, "eculost", "ECU %02X answered and is not listed", E[e].addr);
	memcpy(F, save, sizeof(F));
	nf = snf, n1 = s1, n13 = s13;
	memcpy(asked, sa, sizeof(asked));
	memcpy(asked5, sa5, sizeof(asked5));
	fault2 = sf2, fault1 = sf1, faulty = sf;
	memcpy(out, so_, strlen(so_) + 1);
}
static void claim(char kind, const char *s, int e, const char *what)
{
	for (int pass = 1; pass >= 0; pass--)
		for (int i = 0; i < nf; i++)
			if (F[i].kind == kind && F[i].req == pass && !F[i].used && !strcmp(F[i].s, s) && (e < 0 || F[i].e == e)) {
				F[i].used = true;
				vmc_checked();
				return;
			}
	vmc_fail("shown", "%s '%s' is shown, no ECU reported it", what, s);
}
static void all_claimed(char kind, const char *what)
{
	for (int i = 0; i < nf; i++)
		VMC_CHECK(F[i].kind != kind || !F[i].req || F[i].used, "notshown", "%s '%s' of ECU %02X is not shown", what, F[i].s, E[F[i].e].addr);
}
static void tokens(char kind, const char *s, const char *what)
{
	char t[6] = "";
	for (; *s; s++)
		if (strchr("PCBU", *s) && isxdigit((uint8_t)s[1]) && isxdigit((uint8_t)s[2]) && isxdigit((uint8_t)s[3]) && isxdigit((uint8_t)s[4])) {
			memcpy(t, s, 5);
			claim(kind, t, -1, what);
			s += 4;
		}
}
static const char *after(const char *s, const char *pre) { size_t n = strlen(pre); return strncmp(s, pre, n) ? NULL : s + n; }
static const char *obdtype(int v)
{
	static const char *n[] = { 0, "OBD II (California ARB)", "OBD (Federal EPA)", "OBD and OBD II", "OBD I", "not OBD", "EOBD (Europe)" };
	return v >= 1 && v <= 6 ? n[v] : "unknown";
}
static void check_cms(void)
{
	for (int i = 0; i < nl; i++) {
		const char *s = after(lines[i], "Currently monitored DTCs:");
		if (s)
			tokens('C', s, "monitored DTC");
	}
	all_claimed('C', "monitored DTC");
}
static void check_ncms(void)
{
	for (int i = 0; i < nl; i++)
		if (after(lines[i], "Test 0x") && strstr(lines[i], "Component"))
			claim('N', lines[i], -1, "test result");
	all_claimed('N', "test result");
	if (!faulty)
		for (int p = 1; p < 256; p++)
			VMC_CHECK(p % 32 == 0 || !any_sup(6, p, 2) || asked[6][p], "ncmsask", "supported test %02X is not asked for", p);
}
static void check_scan(void)
{
	check_ecus();
	split();
	int mode3 = 0, mil_lines = 0, o2lines = 0;
	for (int i = 0; i < nl; i++) {
		const char *l = lines[i], *s;
		int n, k = 0;
		unsigned u;
		if (strstr(l, "Requesting Mode 0x03"))
			mode3 = 1;
		else if (!strncmp(l, "Requesting", 10) || !strncmp(l, "Exploring", 9))
			mode3 = 0;
		else if (mode3)
			tokens('D', l, "stored DTC");
		if ((s = after(l, "MIL light ON, ")) || (s = after(l, "MIL light OFF, "))) {
			bool mil = l[11] == 'N', ready = false;
			mil_lines++;
			n = atoi(s);
			for (int j = i - 1; j >= 0 && j >= i - 1; j--)
				ready = !strncmp(lines[j], "Not all readiness", 17);
			bool ok = false;
			for (int c = 0; c < 1 << n1; c++) {
				bool m = false, r = false, bad = false;
				int t = 0;
				for (int j = 0; j < n1; j++) {
					if (!(c >> j & 1)) {
						bad |= pid1[j].req;
						continue;
					}
					m |= pid1[j].b[0] & 0x80;
					t += pid1[j].b[0] & 0x7f;
					r |= (pid1[j].b[1] & 0xf0) || pid1[j].b[3];
				}
				if (!bad && m == mil && t == n && r == ready)
					ok = true;
			}
			VMC_CHECK(ok, "mil", "'%s' (%sready) is not what the ECUs reported", l, ready ? "not " : "");
		}
		if (sscanf(l, "%d Oxygen (O2) sensors%n", &n, &k) == 1 && k) {
			o2lines++;
			bool ok = false;
			for (int c = 0; c < 1 << n13; c++) {
				int t = 0;
				bool bad = false;
				for (int j = 0; j < n13; j++)
					if (c >> j & 1)
						t += __builtin_popcount(pid13[j].b[0]);
					else
						bad |= pid13[j].req;
				ok |= !bad && t == n;
			}
			VMC_CHECK(ok, "o2count", "'%s' is not what the ECUs reported", l);
		}
		if (sscanf(l, "ECU %u is %n", &u, &k) == 1 && k) {
			VMC_CHECK((int)u < nidx, "obdecu", "'%s'", l);
			int e = idx2e[u];
			VMC_CHECK(cur[1][e][0x1c].st && !strncmp(l + k, obdtype(cur[1][e][0x1c].d[2]), strlen(obdtype(cur[1][e][0x1c].d[2]))), "obdtype", "'%s' (%d)", l, cur[1][e][0x1c].d[2]);
			fact('T', false, e, "%u", u);
		}
		k = 0;
		if (sscanf(l, "ECU %u Freezeframe data exists, caused by DTC %n", &u, &k) == 1 && k) {
			VMC_CHECK((int)u < nidx, "ffecu", "'%s'", l);
			int e = idx2e[u];
			VMC_CHECK((cur[1][e][2].st && !strcmp(l + k, dtcs(cur[1][e][2].d[2], cur[1][e][2].d[3]))) || (cur[2][e][2].st && !strcmp(l + k, dtcs(cur[2][e][2].d[3], cur[2][e][2].d[4]))), "ffdtc", "'%s'", l);
		}
		/* sensor tests */
		s = l;
		int e = -1;
		k = 0;
		if (sscanf(l, "ECU %u %n", &u, &k) == 1 && k && (int)u < nidx)
			e = idx2e[u], s = l + k;
		for (int t = 1; t <= 9; t++)
			if (after(s, o2name[t])) {
				char b[160];
				snprintf(b, sizeof(b), "%s", s);
				if (t == 9)
					snprintf(b, sizeof(b), "%s: %s", o2name[9], s + strlen(s) - 6);
				claim('O', b, e, "sensor test");
			}
		if (after(s, "Test ") && strstr(s, ": actual"))
			claim('O', s, e, "sensor test");
	}
	check_cms();
	check_ncms();
	all_claimed('D', "stored DTC");
	all_claimed('O', "sensor test");
	bool any1 = false, anyn = false;
	for (int j = 0; j < n1; j++) {
		any1 |= pid1[j].req;
		anyn |= pid1[j].req && (pid1[j].b[0] & 0x7f);
	}
	VMC_CHECK(!any1 || mil_lines == 1, "mil", "the MIL state is not shown");
	VMC_CHECK(!anyn || asked[3][0], "dtcask", "stored DTCs are not asked for");
	bool any13 = false;
	int sensors = 0;
	for (int j = 0; j < n13; j++)
		any13 |= pid13[j].req, sensors |= pid13[j].b[0];
	VMC_CHECK(!any13 || o2lines == 1, "o2count", "the sensors are not counted");
	for (int e = 0; e < ne; e++)
		if (seen[e] == 2 && cur[1][e][0x1c].st == 2) {
			bool f = false;
			for (int i = 0; i < nf; i++)
				f |= F[i].kind == 'T' && F[i].e == e;
			VMC_CHECK(f, "obdtype", "the OBD type of ECU %02X is not shown", E[e].addr);
		}
	for (int p = 3; p < 256; p++)
		VMC_CHECK(p % 32 == 0 || !any_sup(1, p, 2) || asked[1][p], "pidask", "supported PID %02X is not asked for", p);
	for (int m = 1; m <= 9; m++)
		if (m != 3 && m != 4 && m != 7) {
			VMC_CHECK(asked[m][0], "blockask", "mode %d is not explored", m);
			for (int p = 32; p < 256; p += 32)
				if (!anyfault)
					VMC_CHECK(!any_sup(m, p, 2) || asked[m][p], "blockask", "block %02X of mode %d is not explored", p, m);
		}
	VMC_CHECK(asked[7][0] && asked[2][2] && asked[1][0x13], "askall", "DTCs of this cycle, freeze frame DTC or sensors are not asked for");
	if (!fault2)
		for (int e = 0; e < nvis; e++)
			if (seen[e] == 2 && cur[2][e][2].st == 2 && (cur[2][e][2].d[3] | cur[2][e][2].d[4]))
				for (int p = 3; p < 256; p++)
					VMC_CHECK(p % 32 == 0 || sup[e][2][p] < 2 || asked[2][p], "ffask", "freeze frame PID %02X of ECU %02X is not asked for", p, E[e].addr);
	bool o2mon = false;
	for (int j = 0; j < n1; j++)
		o2mon |= pid1[j].req && (pid1[j].b[2] & 0x20);
	if (!fault1 && o2mon)
		for (int p = 1; p < 32; p++)
			for (int s = 0; s < 8; s++)
				if (sensors >> s & 1)
					VMC_CHECK(!any_sup(5, p, 2) || asked5[p][1 << s], "o2ask", "test %02X of sensor %d is not asked for", p, s);
}
static void check_pids(void)
{
	check_ecus();
	cmd("pids", NULL);
	split();
	int e = -1, m = 0;
	static bool shown[MAXE][10][256];
	memset(shown, 0, sizeof(shown));
	for (int i = 0; i < nl; i++) {
		unsigned k, a;
		if (sscanf(lines[i], "ECU %u address 0x%X: Supp", &k, &a) == 2) {
			e = by_addr(a);
			VMC_CHECK(e >= 0 && e2idx(e) == (int)k, "pidecu", "'%s'", lines[i]);
			m = 0;
			continue;
		}
		if (sscanf(lines[i], "Mode %d", &m) == 1)
			continue;
		if (e < 0 || !m)
			continue;
		for (char *s = strstr(lines[i], "0x"); s; s = strstr(s + 2, "0x")) {
			unsigned p = strtoul(s, NULL, 16);
			VMC_CHECK(p < 256 && m >= 1 && m <= 9 && sup[e][m][p], "pid", "mode %d PID %02X of ECU %02X is listed, it is not supported", m, p, E[e].addr);
			shown[e][m][p] = true;
		}
	}
	for (e = 0; e < ne; e++)
		for (m = 1; m <= 9; m++)
			for (int p = 0; p <= 0x60 && seen[e] == 2; p++)
				VMC_CHECK(sup[e][m][p] < 2 || shown[e][m][p], "nopid", "mode %d PID %02X of ECU %02X is supported and not listed", m, p, E[e].addr);
}
static int getbytes(const char *s, uint8_t *b)
{
	int n = 0;
	for (s = strstr(s, "0x"); s && n < 256; s = strstr(s + 2, "0x"))
		b[n++] = strtoul(s, NULL, 16);
	return n;
}
/* is b a correct record of what ECU e answered for this PID? */
static bool is_record(int m, int e, int p, const uint8_t *b, int n)
{
	return cur[m][e][p].st && n <= cur[m][e][p].len && !memcmp(b, cur[m][e][p].d, n) && (n == cur[m][e][p].len || (cur[m][e][p].st == 1 && n >= 7));
}
static void check_dump(void)
{
	cmd("dumpdata", NULL);
	split();
	int e = -1, m = 0;
	static bool shown[3][MAXE][256];
	memset(shown, 0, sizeof(shown));
	for (int i = 0; i < nl; i++) {
		unsigned p, a;
		if (after(lines[i], "Current Data"))
			m = 1, e = -1;
		else if (after(lines[i], "Freezeframe Data"))
			m = 2, e = -1;
		else if (sscanf(lines[i], "ECU 0x%X:", &a) == 1) {
			e = by_addr(a);
			VMC_CHECK(e >= 0 && seen[e], "dumpecu", "'%s'", lines[i]);
		} else if (sscanf(lines[i], "0x%X:", &p) == 1 && e >= 0) {
			VMC_CHECK(p < 256, "dumppid", "'%s'", lines[i]);
			if (strstr(lines[i], "Failed")) {
				VMC_CHECK(cur[m][e][p].st != 2, "dumpfail", "mode %d PID %02X of ECU %02X is shown as failed, it was answered", m, p, E[e].addr);
				continue;
			}
			uint8_t b[300];
			int n = getbytes(strchr(lines[i], ':'), b);
			if (strstr(lines[i], "[BAD CKS]")) {
				VMC_CHECK(cur[m][e][p].st != 2 && n && n <= bad[m][e][p].len && !memcmp(b, bad[m][e][p].d, n), "dumpbad", "mode %d PID %02X of ECU %02X: '%s' is not what arrived corrupt", m, p, E[e].addr, lines[i]);
				continue;
			}
			VMC_CHECK(!shown[m][e][p] && is_record(m, e, p, b, n), "dump", "mode %d PID %02X of ECU %02X: '%s' is not its last answer", m, p, E[e].addr, lines[i]);
			shown[m][e][p] = true;
		}
	}
	for (m = 1; m <= 2; m++)
		for (e = 0; e < ne; e++)
			for (int p = 0; p < 256; p++)
				VMC_CHECK(seen[e] != 2 || cur[m][e][p].st != 2 || shown[m][e][p], "nodump", "mode %d PID %02X of ECU %02X is not shown", m, p, E[e].addr);
}
/* standard values (SAE J1979) */
static const struct stdpid { int pid, n; const char *name; const char *u; int dec; double s, o; const char *eu; int edec; double es, eo; } SP[] = {
	{ 0x03, 2, "Fuel System Status", "F" },
	{ 0x04, 1, "Calculated Load Value", "%", 1, 100. / 255, 0 },
	{ 0x05, 1, "Engine Coolant Temperature", "C", 0, 1, -40, "F", 0, 1.8, -40 },
	{ 0x06, 1, "Short term fuel trim Bank 1", "%", 1, 100. / 128, -100 },
	{ 0x07, 1, "Long term fuel trim Bank 1", "%", 1, 100. / 128, -100 },
	{ 0x08, 1, "Short term fuel trim Bank 2", "%", 1, 100. / 128, -100 },
	{ 0x09, 1, "Long term fuel trim Bank 2", "%", 1, 100. / 128, -100 },
	{ 0x0a, 1, "Fuel Pressure", "kPaG", 0, 3, 0, "psig", 1, 3 * .145038, 0 },
	{ 0x0b, 1, "Intake Manifold Pressure", "kPaA", 0, 1, 0, "inHg", 1, .2953, 0 },
	{ 0x0c, 2, "Engine RPM", "RPM", 0, .25, 0 },
	{ 0x0d, 1, "Vehicle Speed", "km/h", 0, 1, 0, "mph", 0, .621371, 0 },
	{ 0x0e, 1, "Ignition timing advance Cyl #1", "deg", 1, .5, -64 },
	{ 0x0f, 1, "Intake Air Temperature", "C", 0, 1, -40, "F", 0, 1.8, -40 },
	{ 0x10, 2, "Air Flow Rate", "gm/s", 2, .01, 0, "lb/min", 1, .00132277, 0 },
	{ 0x11, 1, "Absolute Throttle Position", "%", 1, 100. / 255, 0 },
	{ 0x14, 2, "Bank 1 Sensor 1 Voltage/Trim", "O" },
	{ 0x15, 2, "Bank 1 Sensor 2 Voltage/Trim", "O" },
	{ 0x16, 2, "Bank 1 Sensor 3 Voltage/Trim", "O" },
	{ 0x17, 2, "Bank 1 Sensor 4 Voltage/Trim", "O" },
	{ 0x18, 2, "Bank 2 Sensor 1 Voltage/Trim", "O" },
	{ 0x19, 2, "Bank 2 Sensor 2 Voltage/Trim", "O" },
	{ 0x1a, 2, "Bank 2 Sensor 3 Voltage/Trim", "O" },
	{ 0x1b, 2, "Bank 2 Sensor 4 Voltage/Trim", "O" },
	{ 0x1e, 1, "Auxiliary Input Status", "A" },
};
static bool near_(double a, double b, int dec) { double t = 0.5; while (dec--) t /= 10; double d = a - b; return (d < 0 ? -d : d) <= t * 1.0001 + (b < 0 ? -b : b) * 3e-6; }
static bool shows(const char *s, const struct stdpid *p, const uint8_t *d, bool english)
{
	int n = 0;
	double v, w;
	while (*s == ' ')
		s++;
	char t[40];
	snprintf(t, sizeof(t), "%s", s);
	for (int i = strlen(t); i && t[i - 1] == ' '; )
		t[--i] = 0;
	switch (p->u[0]) {
	case 'F':
		if (strlen(p->u) == 1) {
			const char *x = d[0] == 1 ? "Open" : d[0] == 2 ? "Closed" : d[0] == 4 ? "Open-Driving" : d[0] == 8 ? "Open-Fault" : d[0] == 16 ? "Closed-Fault" : NULL;
			return x ? !strcmp(t, x) : !!strstr(t, "rsvd");
		}
		break;
	case 'A':
		return !strcmp(t, d[0] & 1 ? "PTO Active" : "----");
	case 'O':
		if (d[1] == 0xff)
			return sscanf(t, "%lfV%n", &v, &n) == 1 && n && !t[n] && near_(v, d[0] * .005, 3);
		return sscanf(t, "%lfV/%lf%%%n", &v, &w, &n) == 2 && n && !t[n] && near_(v, d[0] * .005, 3) && near_(w, d[1] * 100. / 128 - 100, 1);
	}
	int raw = p->n == 1 ? d[0] : d[0] * 256 + d[1];
	if (sscanf(t, "%lf%n", &v, &n) != 1)
		return false;
	s = t + n;
	while (*s == ' ')
		s++;
	if (english && p->eu)
		return !strcmp(s, p->eu) && near_(v, raw * p->es + p->eo, p->edec);
	return !strcmp(s, p->u) && near_(v, raw * p->s + p->o, p->dec);
}
/* may this column be shown for what is known? */
static bool column(const char *s, const struct stdpid *p, int m, int e, bool english)
{
	int o = m + 1;
	bool enough = snap[m][e][p->pid].len >= o + p->n;
	bool none = strstr(s, "-----") != NULL;
	switch (snap[m][e][p->pid].st) {
	case 2:
		return !none && shows(s, p, snap[m][e][p->pid].d + o, english);
	case 1:
		return none || (enough && shows(s, p, snap[m][e][p->pid].d + o, english));
	default:
		return none;
	}
}
static void check_monitor(const char *arg, bool english)
{
	cms_seen = 0;
	cms_seen = 1;   /* Enter is pressed once the trouble codes were asked for */
	cmd("monitor", arg);
	cms_seen = 0;
	check_ecus();
	char *table = strstr(out, "Parameter ");
	if (!table) {
		VMC_CHECK(fault2 || !any_sup(2, 2, 2) || anyfault, "nomonitor", "nothing is monitored");
		return;
	}
	char *nx = strchr(table, '\n');
	char *cm = strstr(table, "Requesting Mode 7");
	if (cm)
		*cm = 0;
	char *ln[600];
	int n = 0;
	for (char *s = strtok(nx, "\n"); s && n < 600; s = strtok(NULL, "\n"))
		ln[n++] = s;
	int at = 0;
	for (unsigned k = 0; k < sizeof(SP) / sizeof(SP[0]); k++) {
		const struct stdpid *p = &SP[k];
		char want[40];
		snprintf(want, sizeof(want), "%-30.30s ", p->name);
		for (int i = 0; i < nidx; i++) {
			int e = idx2e[i];
			int s1 = snap[1][e][p->pid].st, s2 = snap[2][e][p->pid].st;
			if (!s1 && !s2)
				continue;
			/* the next line is this ECU's */
			bool ok = at < n && !strncmp(ln[at], want, 31) && strlen(ln[at]) >= 46;
			if (ok) {
				char c1[20];
				snprintf(c1, sizeof(c1), "%.15s", ln[at] + 31);
				ok = column(c1, p, 1, e, english) && column(ln[at] + 47, p, 2, e, english);
			}
			if (ok)
				at++;
			else
				VMC_CHECK(s1 != 2 && s2 != 2, "monitor", "PID %02X of ECU %02X (%s%s) is not shown; the line is '%s'", p->pid, E[e].addr, s1 ? "current" : "", s2 ? " freeze" : "", at < n ? ln[at] : "(end)");
		}
		/* bit fields: not judged */
		while (at < n && (!strncmp(ln[at], "Commanded Secondary", 19) || !strncmp(ln[at], "Location of Ox", 14)))
			at++;
	}
	VMC_CHECK(at >= n, "monmore", "'%s' is shown, no ECU reported it", ln[at]);
	if (cm) {
		*cm = 'R';
		memmove(out, cm, strlen(cm) + 1);
		split();
		check_cms();
	}
}
static const char *const mons[12] = { "Misfire Monitoring", "Fuel System Monitoring", "Comprehensive Component Monitoring", NULL, "Catalyst Monitoring", "Heated Catalyst Monitoring",
	"Evaporative System Monitoring", "Secondary Air System Monitoring", "A/C System Refrigerant Monitoring", "Oxygen Sensor Monitoring", "Oxygen Sensor Heater Monitor", "EGR System Monitoring" };
static void check_readiness(void)
{
	test("readiness");
	check_ecus();
	split();
	int st[MAXE][12], nsh[MAXE] = { 0 };
	memset(st, -1, sizeof(st));
	int tot[3] = { -1, -1, -1 };
	for (int i = 0; i < nl; i++) {
		unsigned u = 0;
		int k = 0;
		const char *s = lines[i];
		int e = nidx == 1 ? idx2e[0] : -1;
		if (sscanf(s, "ECU %u: %n", &u, &k) == 1 && k) {
			VMC_CHECK((int)u < nidx, "readyecu", "'%s'", s);
			e = idx2e[u];
			s += k;
		}
		for (int t = 0; t < 12; t++)
			if (mons[t] && (s[strlen(mons[t])] == ':') && after(s, mons[t])) {
				VMC_CHECK(e >= 0, "readyecu", "'%s' of which ECU?", s);
				const char *x = s + strlen(mons[t]) + 2;
				st[e][t] = !strcmp(x, "Complete") ? 0 : !strcmp(x, "NOT Complete") ? 1 : !strcmp(x, "Not Supported") ? 2 : 9;
				nsh[e]++;
			}
		const char *y;
		if ((y = after(lines[i], "Number of incomplete continuous monitors: ")))
			tot[0] = atoi(y);
		if ((y = after(lines[i], "Number of incomplete non-continuous monitors: ")))
			tot[1] = atoi(y);
		if ((y = after(lines[i], "Total number of incomplete monitors: ")))
			tot[2] = atoi(y);
	}
	int mask = 0, any = 0;
	for (int e = 0; e < ne; e++) {
		bool enough = cur[1][e][1].len >= 6 && cur[1][e][1].st;
		uint8_t *d = cur[1][e][1].d;
		if (nsh[e]) {
			VMC_CHECK(enough, "ready", "readiness of ECU %02X is shown, it did not report it", E[e].addr);
			any = 1;
			for (int t = 0; t < 12; t++) {
				if (!mons[t])
					continue;
				int s = t < 4 ? d[3] >> t & 1 : d[4] >> (t - 4) & 1, v = t < 4 ? d[3] >> (t + 4) & 1 : d[5] >> (t - 4) & 1;
				int want = s ? v : 2;
				VMC_CHECK(st[e][t] == want, "ready", "%s of ECU %02X is shown as %d, it is %d (%02X %02X %02X)", mons[t], E[e].addr, st[e][t], want, d[3], d[4], d[5]);
				if (want == 1)
					mask |= 1 << t;
			}
		} else
			VMC_CHECK(cur[1][e][1].st != 2 || seen[e] != 2, "noready", "readiness of ECU %02X is not shown", E[e].addr);
	}
	if (any) {
		VMC_CHECK(tot[0] == __builtin_popcount(mask & 15) && tot[1] == __builtin_popcount(mask >> 4) && tot[2] == __builtin_popcount(mask), "readysum", "incomplete monitors %d %d %d, they are %03X", tot[0], tot[1], tot[2], mask);
	}
}
static bool fragments(const char *s, int n, int e, int it, bool all)
{
	/* s consists of 4 byte fragments of the ECU, in order */
	int f = 0, used = 0;
	for (int i = 0; i < n; i += 4) {
		while (f < E[e].nvit[it] && memcmp(&E[e].vit[it][f * 4], s + i, n - i < 4 ? n - i : 4))
			f++;
		if (f >= E[e].nvit[it])
			return false;
		f++;
		used++;
	}
	return !all || used == E[e].nvit[it];
}
static void check_rvi(void)
{
	test("rvi");
	split();
	int got = 0;
	for (int i = 0; i < nl; i++) {
		const char *s;
		char b[300];
		if ((s = after(lines[i], "VIN: "))) {
			got |= 1;
			bool ok = false;
			snprintf(b, sizeof(b), "AAA%s", s);
			for (int e = 0; e < ne; e++)
				ok |= seen[e] == 2 && (fragments(b, strlen(b), e, 2, !anyfault) || (anyfault && fragments(s, strlen(s), e, 2, false)) || (anyfault && strlen(s) > 1 && fragments(s + 1, strlen(s) - 1, e, 2, false)));
			VMC_CHECK(ok, "vin", "VIN '%s' is not that of an ECU", s);
		}
		if ((s = after(lines[i], "Calibration ID: "))) {
			got |= 2;
			bool ok = false;
			for (int e = 0; e < ne; e++)
				ok |= seen[e] == 2 && fragments(s, strlen(s), e, 4, !anyfault);
			VMC_CHECK(ok, "calid", "calibration '%s' is not that of an ECU", s);
		}
		if ((s = after(lines[i], "CVN: "))) {
			got |= 4;
			uint8_t v[300];
			int n = getbytes(s, v);
			bool ok = false;
			for (int e = 0; e < ne; e++)
				ok |= seen[e] == 2 && fragments((char *)v, n, e, 6, !anyfault);
			VMC_CHECK(ok, "cvn", "'%s' is not that of an ECU", lines[i]);
		}
	}
	if (!anyfault)
		for (int k = 0; k < 3; k++)
			VMC_CHECK(!any_sup(9, 2 + 2 * k, 2) || got >> k & 1, "norvi", "vehicle information %d is not shown", 2 + 2 * k);
}
static void check_clear(const char *input)
{
	userinput = input;
	cmd("cleardtc", NULL);
	bool yes = input && (!strcasecmp(input, "y") || !strcasecmp(input, "yes"));
	VMC_CHECK(yes ? asked[4][0] : !nrq, "clear", "'%s': trouble codes are %scleared", input ? input : "(end)", nrq ? "" : "not ");
	if (!yes)
		return;
	bool done = strstr(out, "Done") != NULL, failed = strstr(out, "Failed") != NULL;
	VMC_CHECK(done != failed, "clearsay", "neither done nor failed");
	if (done)
		VMC_CHECK(cleared_pos + cleared_maybe > 0, "cleardone", "clearing is reported as done, no ECU confirmed it");
	else
		VMC_CHECK(!cleared_pos || cleared_neg || cleared_maybe, "clearfail", "clearing is reported as failed, all ECUs confirmed it");
}

/* ---- scenarios ---- */
static void fill(int n)
{
	memset(E, 0, sizeof(E));
	ne = nvis = n;
	for (int x = 0; x < MAXE; x++) {
		struct ecu *e = &E[x];
		e->addr = x < n ? (uint8_t[]){ 0x10, 0x18, 0x28, 0x11, 0x40, 0x55, 0x60, 0x70, 0x71, 0x72 }[x] : 0x90 + x;
		for (int m = 1; m <= 2; m++)
			for (int p = 0; p < 256; p++)
				for (int k = 0; k < 4; k++)
					e->val[m][p][k] = x * 0x51 + m * 0x17 + p * 7 + k * 0x2b + 3;
		for (int p = 0; p < 256; p++)
			for (int k = 0; k < 3; k++)
				e->o2[p][k] = x * 0x31 + p * 5 + (k == 2 ? 0x40 : k == 1 ? 0 : 0x20);
		e->val[1][0x1c][0] = 1 + x;
		e->val[1][1][0] = 0;
		e->val[1][1][1] = 7;
		e->val[1][1][2] = 0x21;
		e->val[1][1][3] = 0;
		for (int i = 0; i < 84; i++) {
			e->vit[2][i] = i < 3 ? 'A' : 'a' + (x * 5 + i) % 26;
			e->vit[4][i] = '0' + (x * 5 + i) % 40;
			e->vit[6][i] = x * 0x11 + i;
		}
		e->nvit[2] = 5;
		e->nvit[4] = 4;
		e->nvit[6] = 1;
	}
}
static void freshstart(int proto)
{
	env_reset();
	nofaults = false;
	/* a new connection forgets the former vehicle */
	global_dl0d = (struct diag_l0_device *)&l2c;
	bool tr = env_alloc_track;
	env_alloc_track = false;
	FILE *e_ = stderr;
	stderr = fopen("/dev/null", "w");
	do_l2_9141_start(0x33);
	fclose(stderr);
	stderr = e_;
	env_alloc_track = tr;
	global_dl0d = NULL;
	memset(cur, 0, sizeof(cur));
	memset(bad, 0, sizeof(bad));
	memset(sup, 0, sizeof(sup));
	memset(seen, 0, sizeof(seen));
	nseen = nidx = 0;
	dead = timerrv = 0;
	anyfault = linkdown = false;
	ncms_all = enter_now = false;
	cms_seen = 0;
	userinput = NULL;
	memset(&l2p, 0, sizeof(l2p));
	memset(&l3p, 0, sizeof(l3p));
	memset(&l2c, 0, sizeof(l2c));
	memset(&l3c, 0, sizeof(l3c));
	l2p.diag_l2_protocol = proto;
	l2p.shortname = "model";
	l2c.l2proto = &l2p;
	l3p.proto_name = "SAEJ1979";
	l3p.diag_l3_proto_timer = k_timer;
	l3c.d_l3_proto = &l3p;
	l3c.d_l3l2_conn = &l2c;
	global_l2_conn = &l2c;
	global_l3_conn = &l3c;
	global_state = STATE_L3ADDED;
	global_cfg.src = 0xf1;
	global_cfg.tgt = 0x33;
	global_cfg.units = false;
	global_logfp = NULL;
	vmc_set_tick_limit(60000);
	vmc_nonterm_sig = "endless";
}
static void scan(void)
{
	ncms_all = false;
	cmd("scan", NULL);
	check_scan();
}
static void finish(void)
{
	global_l2_conn = NULL;
	global_l3_conn = NULL;
	global_state = STATE_IDLE;
}
static int protos[] = { DIAG_L2_PROT_ISO14230, DIAG_L2_PROT_SAEJ1850, DIAG_L2_PROT_ISO9141 };
static void vehicle(int n)
{
	fill(n);
	static const uint8_t p1[2][8] = { { 1, 0x05, 0x0c, 0x13, 0x1c, 0x21 }, { 1, 0x0c, 0x0d, 0x14 } };
	for (int x = 0; x < n; x++) {
		struct ecu *e = &E[x];
		for (int i = 0; p1[x & 1][i]; i++)
			setbit_(e->map[1], p1[x & 1][i]);
		e->val[1][0x13][0] = x ? 0x10 : 0x03;
		setbit_(e->map[2], 2);
		setbit_(e->map[2], x ? 0x0d : 0x0c);
		e->val[1][1][0] = x ? 0x01 : 0x82;
		e->ndtc = x ? 1 : 4;
		for (int i = 0; i < 4; i++)
			e->dtc[i] = 0x0104 + i * 0x4101 + x * 0x111;
		e->npend = x ? 2 : 1;
		e->pend[0] = 0xd001 + x;
		e->pend[1] = 0x0017;
		e->ffdtc = x ? 0 : 0x0104;
		setbit_(e->map[5], x ? 5 : 1);
		setbit_(e->map[5], x ? 0x0a : 7);
		setbit_(e->map[6], 2 + x);
		e->n6 = 2;
		for (int i = 0; i < 2; i++) {
			e->t6[i].tid = 2 + x;
			e->t6[i].comp = 0x11 + i * 0x80;
			e->t6[i].val = 0x0180 + x;
			e->t6[i].lim = 0x017f + i * 2;
		}
		setbit_(e->map[9], 2);
		setbit_(e->map[9], x ? 4 : 6);
	}
}
/* whole sessions with faulty exchanges */
static void s_session(int p)
{
	freshstart(protos[p / 10]);
	vehicle(p % 10);
	int part = vmc_enum(6, "commands");
	nofaults = part > 0;
	scan();
	nofaults = part != 1;
	if (part <= 1) {
		if (part == 1)
			check_monitor(NULL, false);
		nofaults = true;
		check_pids();
		check_dump();
		check_monitor(NULL, false);
	} else if (part == 2) {
		nofaults = false;
		ncms_all = true;
		test("ncms");
		split();
		check_ncms();
		ncms_all = false;
		nofaults = true;
		check_dump();
	} else if (part == 3) {
		nofaults = false;
		check_readiness();
	} else if (part == 4) {
		nofaults = false;
		check_rvi();
	} else {
		nofaults = false;
		test("cms");
		split();
		check_cms();
		check_clear("y");
	}
	finish();
	vmc_state(vmc_hash(out, strlen(out), nrq));
}
/* every bit of every bitmap */
static void s_bits(int p)
{
	static const int modes[] = { 1, 2, 5, 6, 8, 9 };
	(void)p;
	freshstart(protos[vmc_enum(3, "protocol")]);
	nofaults = true;
	fill(2);
	int m = modes[vmc_enum(6, "mode")], pid = 1 + vmc_enum(255, "PID"), both = vmc_enum(3, "other ECU");
	for (int x = 0; x < 2; x++) {
		setbit_(E[x].map[1], 1);
		setbit_(E[x].map[2], 2);
	}
	E[0].ffdtc = 0x0001;
	E[1].ffdtc = 0x0100;
	E[0].val[1][1][2] = 0;
	E[1].val[1][1][2] = 0;
	setbit_(E[0].map[m], pid);
	if (both == 1)
		for (int i = 1; i < 256; i++)
			if (i != pid)
				setbit_(E[1].map[m], i);
	if (both == 2)
		memset(E[1].map[m], 0xff, 32);
	for (int x = 0; x < 2; x++) {
		E[x].n6 = 1;
		E[x].t6[0].tid = pid;
		E[x].t6[0].comp = 1;
		E[x].t6[0].val = 5;
	}
	scan();
	check_pids();
	check_dump();
	if (m <= 2 && pid < 0x20)
		check_monitor(NULL, false);
	if (m == 9)
		check_rvi();
	finish();
	vmc_state(m * 1000 + pid * 3 + both);
}
/* every value of every PID the monitor shows */
static void s_values(int p)
{
	(void)p;
	freshstart(DIAG_L2_PROT_SAEJ1850);
	nofaults = true;
	fill(2);
	int english = vmc_enum(4, "units");             /* default, argument */
	int a = vmc_enum(256, "A");
	for (int x = 0; x < 2; x++) {
		for (unsigned k = 0; k < sizeof(SP) / sizeof(SP[0]); k++) {
			setbit_(E[x].map[1], SP[k].pid);
			setbit_(E[x].map[2], SP[k].pid);
		}
		setbit_(E[x].map[2], 2);
		setbit_(E[x].map[1], 0x12);
	}
	E[1].ffdtc = 0x0201;
	scan();
	int step = vmc_thorough() ? 1 : 15;
	global_cfg.units = english == 1 || english == 2;
	const char *arg = english == 2 ? "metric" : english == 3 ? "English" : NULL;
	for (int b = 0; b < 256; b += step) {
		for (int q = 0; q < 256; q++) {
			E[0].val[1][q][0] = a;
			E[0].val[1][q][1] = b;
			E[1].val[1][q][0] = 255 - a;
			E[1].val[1][q][1] = b ^ 0x55;
			E[1].val[2][q][0] = b;
			E[1].val[2][q][1] = a;
			E[0].val[2][q][0] = a ^ 0xff;
			E[0].val[2][q][1] = b;
		}
		check_monitor(arg, english == 1 || english == 3);
	}
	finish();
	vmc_state(a * 4 + english);
}
/* trouble codes */
static void s_dtcs(int p)
{
	(void)p;
	freshstart(protos[vmc_enum(3, "protocol")]);
	nofaults = true;
	int n = 1 + vmc_enum(2, "ECUs");
	vehicle(n);
	int k = vmc_enum(9, "codes"), k2 = vmc_enum(4, "codes of the other");
	int base = vmc_enum(12, "code"), shape = vmc_enum(4, "padding");
	static const uint16_t c[12] = { 0x0001, 0x0100, 0x00ff, 0x3fff, 0x4000, 0x7fff, 0x8000, 0xbfff, 0xc000, 0xffff, 0x1234, 0x9abc };
	for (int x = 0; x < n; x++) {
		E[x].ndtc = x ? k2 : k;
		E[x].npend = x ? k : k2;
		for (int i = 0; i < 10; i++) {
			E[x].dtc[i] = c[(base + i + 3 * x) % 12];
			E[x].pend[i] = c[(base * 5 + i + x) % 12];
			if (shape == 1 && i == 1)
				E[x].dtc[i] = E[x].pend[i] = 0;
			if (shape == 2 && i == 0)
				E[x].dtc[i] = E[x].pend[i] = 0;
		}
		E[x].val[1][1][0] = E[x].ndtc | (shape == 3 && x == n - 1 ? 0x80 : 0);
		E[x].val[1][1][1] = base << 4 | 7;
		E[x].val[1][1][3] = k2;
	}
	scan();
	test("cms");
	split();
	check_cms();
	static const char *const in[] = { "y", "n", "yes", "Y", "YES", "", "yesterday", "no", NULL };
	check_clear(in[vmc_enum(9, "confirm")]);
	finish();
	vmc_state(vmc_hash(out, strlen(out), k * 100 + k2 * 13 + base));
}
static void s_alldtc(int p)
{
	(void)p;
	freshstart(DIAG_L2_PROT_SAEJ1850);
	nofaults = true;
	vehicle(1);
	scan();
	int hi = vmc_enum(256, "high byte");
	for (int lo = 0; lo < 256; lo += 2) {
		E[0].npend = 2;
		E[0].pend[0] = hi << 8 | lo;
		E[0].pend[1] = hi << 8 | (lo + 1);
		test("cms");
		split();
		check_cms();
	}
	finish();
	vmc_state(hi);
}
static void s_ready(int p)
{
	(void)p;
	freshstart(DIAG_L2_PROT_ISO9141);
	nofaults = true;
	int n = 1 + vmc_enum(2, "ECUs");
	vehicle(n);
	scan();
	int b = vmc_enum(256, "byte");
	for (int c = 0; c < 256; c += vmc_thorough() ? 1 : 3) {
		for (int x = 0; x < n; x++) {
			E[x].val[1][1][1] = x ? c : b;
			E[x].val[1][1][2] = x ? b : c;
			E[x].val[1][1][3] = x ? c ^ 0x3c : b ^ c;
		}
		check_readiness();
	}
	finish();
	vmc_state(b + n * 256);
}
static void s_tests(int p)
{
	(void)p;
	static const uint16_t v[] = { 0, 1, 0xff, 0x100, 0x101, 0x1ff, 0x7fff, 0x8000, 0xfeff, 0xff00, 0xffff };
	freshstart(DIAG_L2_PROT_ISO14230);
	nofaults = true;
	int n = 1 + vmc_enum(2, "ECUs");
	vehicle(n);
	int a = vmc_enum(11, "value"), b = vmc_enum(11, "limit"), cm = vmc_enum(4, "component");
	for (int x = 0; x < n; x++)
		E[x].val[1][0x13][0] = 1 << (a + 4 * x) % 8 | 1 << b % 8;
	int tid = (int[]){ 1, 2, 0x1f, 0x21, 0x3b, 0x3c, 0x3d, 0x5f, 0x61, 0xff }[vmc_enum(10, "test")];
	for (int x = 0; x < n; x++) {
		setbit_(E[x].map[6], tid);
		E[x].n6 = 3;
		for (int i = 0; i < 3; i++) {
			E[x].t6[i].tid = tid;
			E[x].t6[i].comp = ((uint8_t[]){ 0, 0x80, 0x7f, 0xff }[cm] + i * 0x80) & 0xff;
			E[x].t6[i].val = v[(a + i * x) % 11];
			E[x].t6[i].lim = v[(b + i) % 11];
		}
		for (int t = 1; t < 32; t++) {
			setbit_(E[x].map[5], t);
			E[x].o2[t][0] = v[a] >> (x * 8);
			E[x].o2[t][1] = v[b];
			E[x].o2[t][2] = v[b] >> 8;
		}
	}
	scan();
	ncms_all = true;
	test("ncms");
	split();
	check_ncms();
	finish();
	vmc_state(a * 1000 + b * 50 + cm * 11 + tid);
}
/* many ECUs */
static void s_many(int p)
{
	(void)p;
	freshstart(protos[vmc_enum(3, "protocol")]);
	nofaults = true;
	vehicle(1 + vmc_enum(10, "ECUs"));
	int late = vmc_enum(3, "late");
	if (late)
		nvis = late;
	scan();
	if (late) {
		/* the others answer only later */
		nvis = ne;
		check_monitor(NULL, false);
		check_ecus();
	}
	check_pids();
	check_dump();
	check_monitor(NULL, false);
	check_readiness();
	finish();
	vmc_state(ne * 3 + late);
}
/* vehicle information */
static void s_rvi(int p)
{
	(void)p;
	freshstart(protos[vmc_enum(3, "protocol")]);
	nofaults = true;
	vehicle(2);
	int w = vmc_enum(3, "kind");
	int n = vmc_enum(21, "messages"), n2 = vmc_enum(3, "of the other");
	for (int i = 1; i <= 3; i++) {
		setbit_(E[0].map[9], 2 * i);
		setbit_(E[1].map[9], 2 * i);
	}
	E[0].nvit[2 + 2 * w] = n;
	E[1].nvit[2 + 2 * w] = n2 * 3;
	if (!n)
		anyfault = true;
	scan();
	check_rvi();
	finish();
	vmc_state(w * 100 + n * 3 + n2);
}
/* one vehicle after the other, on a new connection */
static void s_again(int p)
{
	(void)p;
	freshstart(protos[vmc_enum(3, "protocol")]);
	nofaults = true;
	int a = 1 + vmc_enum(3, "ECUs"), b = 1 + vmc_enum(3, "ECUs of the next");
	vehicle(a);
	env_alloc_mark();
	scan();
	if (vmc_enum(2, "test"))
		check_rvi();
	check_monitor(NULL, false);
	int again = vmc_enum(2, "again on the same connection");
	if (again) {
		cmd("scan", NULL);
		VMC_CHECK(!nrq, "rescan", "a scan already done is repeated");
	}
	global_state = STATE_L3ADDED;
	vehicle(b);
	int shift = vmc_enum(3, "other vehicle");
	if (shift)
		for (int x = 0; x < b; x++)
			E[x].addr += shift;
	if (shift == 2) {
		memset(E[0].map, 0, sizeof(E[0].map));
		setbit_(E[0].map[1], 0x11);
		setbit_(E[0].map[2], 2);
	}
	memset(cur, 0, sizeof(cur));
	memset(bad, 0, sizeof(bad));
	memset(sup, 0, sizeof(sup));
	memset(seen, 0, sizeof(seen));
	nseen = nidx = 0;
	scan();
	check_pids();
	check_dump();
	check_monitor(NULL, false);
	check_readiness();
	finish();
	vmc_state(a * 10 + b + shift * 100);
}
/* commands without a (suitable) connection */
static void s_states(int p)
{
	(void)p;
	freshstart(DIAG_L2_PROT_SAEJ1850);
	nofaults = true;
	vehicle(1);
	int st = vmc_enum(4, "state");
	static const char *const c[] = { "monitor", "ecus", "pids", "cleardtc", "dumpdata", "scan", "rvi", "cms", "ncms", "readiness", "watch" };
	global_state = (enum globstate[]){ STATE_IDLE, STATE_CONNECTED, STATE_L3ADDED, STATE_SCANDONE }[st];
	if (st < 2)
		global_l3_conn = NULL;
	if (st == 0)
		global_l2_conn = NULL;
	if (st >= 2 && vmc_enum(2, "L3"))
		l3p.proto_name = "ISO14230";
	if (st == 3)
		l3p.proto_name = "SAEJ1979";
	int k = vmc_enum(11, "command");
	global_dl0d = NULL;
	userinput = "y";
	enter_now = true;
	int rv = k >= 6 && k < 10 ? test(c[k]) : cmd(c[k], NULL);
	VMC_CHECK(st >= 2 || !nrq, "noconn", "%s sends requests without a connection", c[k]);
	if (st == 2 && strcmp(l3p.proto_name, "SAEJ1979") && k == 5)
		VMC_CHECK(rv != CMD_OK && !nrq, "wrongl3", "scan over another protocol");
	if (st < 3 && (k == 0 || k == 1 || k == 2 || k == 6 || k == 7 || k == 8))
		VMC_CHECK(!nrq && strstr(out, "SCAN has not been done"), "noscan", "%s without scan", c[k]);
	if (st < 2 && k == 5)
		VMC_CHECK(rv != CMD_OK && global_l3_conn == NULL, "scanidle", "scan without interface succeeds");
	if (k == 10)
		VMC_CHECK(rv != CMD_OK && !nrq, "watch", "watch without interface succeeds");
	finish();
	vmc_state(st * 20 + k);
}
/* the monitor log */
static void s_log(int p)
{
	(void)p;
	freshstart(protos[vmc_enum(3, "protocol")]);
	int n = 1 + vmc_enum(3, "ECUs");
	vehicle(n);
	nofaults = true;
	scan();
	nofaults = false;
	char *lb;
	size_t ln_;
	bool tr = env_alloc_track;
	env_alloc_track = false;
	FILE *lf = open_memstream(&lb, &ln_);
	env_alloc_track = tr;
	global_logfp = lf;
	check_monitor(NULL, false);
	env_alloc_track = false;
	fclose(lf);
	env_alloc_track = tr;
	global_logfp = NULL;
	bool shown[3][MAXE][256] = { 0 };
	memcpy(cur, snap, sizeof(cur));
	int m = 0;
	bool stopped = !strstr(lb, "MODE 1");
	for (char *s = strtok(lb, "\n"); s; s = strtok(NULL, "\n")) {
		if (strstr(s, "MODE 1 DATA")) {
			m = 1;
			continue;
		}
		if (strstr(s, "MODE 2 DATA")) {
			m = 2;
			continue;
		}
		unsigned i;
		uint8_t b[300];
		int k = 0;
		VMC_CHECK(sscanf(s, "%u: %n", &i, &k) == 1 && k && (int)i < nidx, "logecu", "log line '%s' does not tell the ECU", s);
		int nb = getbytes(s + k, b), e = idx2e[i];
		VMC_CHECK(m && nb >= 2 && is_record(m, e, b[1], b, nb), "log", "log line '%s' is not the last answer of ECU %02X", s, E[e].addr);
		shown[m][e][b[1]] = true;
	}
	free(lb);
	for (m = 1; m <= 2 && !stopped; m++)
		for (int e = 0; e < ne; e++)
			for (int q = 0; q < 256; q++)
				VMC_CHECK(seen[e] != 2 || cur[m][e][q].st != 2 || shown[m][e][q], "nolog", "mode %d PID %02X of ECU %02X is not logged", m, q, E[e].addr);
	finish();
	vmc_state(n);
}
/* the bit test itself */
static void s_pidbit(int p)
{
	(void)p;
	int bit = vmc_enum(32, "bit"), inv = vmc_enum(2, "inverted");
	uint8_t *m = malloc(4);
	for (int i = 0; i < 4; i++)
		m[i] = ((bit / 8 == i ? 0x80 >> (bit % 8) : 0)) ^ (inv ? 0xff : 0);
	for (int pid = 1; pid < 256; pid++) {
		int want = ((pid - 1) % 32 == bit) ^ inv, got = l2_check_pid_bits(m, pid);
		VMC_CHECK(!!got == want, "pidbit", "PID %02X with bits %02X%02X%02X%02X gives %d", pid, m[0], m[1], m[2], m[3], got);
	}
	free(m);
	vmc_state(bit * 2 + inv);
}

/* mode 6 values are high * 256 + low; this tool's test suite insists on
 * high * 255 + low, which is recorded as a finding of its own, so that
 * everything else about these values can still be judged */
void vmc_process_init(void)
{
	uint8_t d[7] = { 0x46, 1, 0, 2, 7, 5, 3 };
	struct diag_msg m = { .data = d, .len = 7, .src = 0x10 };
	char *b = NULL;
	size_t n;
	diag_init();
	FILE *e = stderr;
	stderr = open_memstream(&b, &n);
	j1979_data_rcv((void *)&_RQST_HANDLE_NCMS, &m);
	fclose(stderr);
	stderr = e;
	if (strstr(b, "Max val 1278 Current Val 517"))
		ncms_scale = 255;
	free(b);
	diag_freemsg(ecu_info[0].rxmsg);
	memset(ecu_info, 0, sizeof(ecu_info[0]));
	ecu_count = 0;
}
static void s_scale(int p)
{
	(void)p;
	VMC_CHECK(ncms_scale == 256, "ncms-scale255", "mode 6 value bytes 02 07, limit bytes 05 03 are shown as 517 and 1278 instead of 519 and 1283");
}
const struct vmc_scenario vmc_scenarios[] = {
	{ "scale", s_scale, 0, 0, 0, 0, 1 },
	{ "pidbit", s_pidbit, 0, 0, 0, 0, 1 },
	{ "states", s_states, 0, 0, 0, 0, 1 },
	{ "session0_1", s_session, 1, 1, 2, 0, 6 },
	{ "session1_1", s_session, 11, 1, 1, 0, 6 },
	{ "session0_2", s_session, 2, 1, 2, 0, 6 },
	{ "session1_2", s_session, 12, 1, 2, 0, 6 },
	{ "session2_2", s_session, 22, 1, 1, 0, 6 },
	{ "session0_3", s_session, 3, 1, 1, 0, 6 },
	{ "bits", s_bits, 0, 0, 0, 0, 3 },
	{ "values", s_values, 0, 0, 0, 0, 4 },
	{ "dtcs", s_dtcs, 0, 0, 0, 0, 3 },
	{ "alldtc", s_alldtc, 0, 0, 0, 0, 8 },
	{ "ready", s_ready, 0, 0, 0, 0, 2 },
	{ "tests", s_tests, 0, 0, 0, 0, 2 },
	{ "many", s_many, 0, 0, 0, 0, 3 },
	{ "rvi", s_rvi, 0, 0, 0, 0, 3 },
	{ "again", s_again, 0, 0, 0, 0, 3 },
	{ "log", s_log, 0, 1, 2, 0, 3 },
	{ 0 }
};
