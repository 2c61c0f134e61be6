/* C30: the commands of the Volvo 850 tool over modelled connections.  Each
 * command is run on the real code with the layers below replaced by a model
 * which chooses every answer; a reference of the command (ref()) is then run
 * over the same answers, and the requests sent, the connection kept and the
 * results shown are compared. */
#include "vmc.h"
#include "env.h"
#include "diag.h"
#include "diag_l1.h"
#include "diag_l2.h"
#include "diag_l3.h"
#include "diag_l7.h"
#include "diag_err.h"
#include "diag_os.h"
#include "libcli.h"
#include "scantool.h"
#include "scantool_cli.h"
#include "scantool_850/dtc.h"
#include "scantool_850/ecu.h"
#include "utlist.h"
#include "diag_l0.h"
#include <ctype.h>
#include <errno.h>
#include <math.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

extern const struct cmd_tbl_entry v850_cmd_table[];
extern struct diag_l2_conn *global_l2_conn;
extern struct diag_l3_conn *global_l3_conn;
void vmc_process_init(void) { diag_init(); }

/* ---- what happens below the tool ---- */
static char tr[600000], et[600000];     /* calls made / expected */
static size_t trn, etn;
static void put(char *b, size_t *n, const char *fmt, va_list ap)
{
	*n += vsnprintf(b + *n, 600000 - *n, fmt, ap);
	if (*n > 599000)
		vmc_error("trace");
}
static void call(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
static void call(const char *fmt, ...) { va_list ap; va_start(ap, fmt); put(tr, &trn, fmt, ap); va_end(ap); }
static void want(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
static void want(const char *fmt, ...) { va_list ap; va_start(ap, fmt); put(et, &etn, fmt, ap); va_end(ap); }

static struct ans { int rv; uint8_t d[256]; } A[20000];
static int na, ra;
static struct ans *newans(void)
{
	if (na >= 20000)
		vmc_error("answers");
	memset(&A[na], 0, sizeof(A[0]));
	return &A[na++];
}
static struct ans *oldans(void)
{
	static struct ans none;
	return ra < na ? &A[ra++] : &none;
}

static struct diag_l0_device l0;
static struct diag_l2_proto l2p;
static struct diag_l2_conn l2c;
static struct diag_l3_proto l3p;
static struct diag_l3_conn l3c;
/* the truth: is the link open, is there a session */
static int t_open, t_conn, t_l3;

/* how answers are chosen */
static int pattern;             /* content */
static int (*reader)(int ns, int addr, int len, uint8_t *d);      /* what the ECU returns */
static int *dtcn;
static uint8_t dtcbase;
static bool quiet;              /* no choices, everything works */
static int dev(int n, const char *l) { return quiet ? 0 : vmc_dev(n, l); }

static uint8_t content(int ns, int addr, int i)
{
	switch (pattern) {
	case 0: return addr + i * 17 + ns * 31 + (addr >> 8);
	case 1: return 0;
	case 2: return 0xff;
	case 3: return 0x80 + i;
	default: return i & 1 ? 0x55 : 0x02;
	}
}
static int read_(const char *who, struct diag_l2_conn *c, enum l7_namespace ns, uint16_t addr, int len, uint8_t *out)
{
	vmc_tick();
	VMC_CHECK(c == &l2c && t_conn, "conn", "%s read over a connection which is not there", who);
	call("%s read %d %04X", who, ns, addr);
	if (ns == NS_MEMORY)
		call(" %d", len);
	call("\n");
	struct ans *a = newans();
	if (reader) {
		a->rv = reader(ns, addr, len, a->d);
	} else if (ns == NS_MEMORY) {
		a->rv = dev(2, "memory read") ? DIAG_ERR_ECUSAIDNO : len;
	} else {
		static const int n[] = { 4, DIAG_ERR_TIMEOUT, 0, 1, 19, 20, 21, 253 };
		int k = dev(8, "read");
		a->rv = ns == NS_ADC ? (k ? DIAG_ERR_TIMEOUT : 2) : n[k];
	}
	if (!reader)
		for (int i = 0; i < a->rv; i++)
			a->d[i] = content(ns, addr, i);
	if (a->rv > 0)
		memcpy(out, a->d, a->rv < len ? a->rv : len);
	return a->rv;
}
int __wrap_diag_l7_d2_read(struct diag_l2_conn *c, enum l7_namespace ns, uint16_t addr, int len, uint8_t *out) { return read_("d2", c, ns, addr, len, out); }
int __wrap_diag_l7_kwp71_read(struct diag_l2_conn *c, enum l7_namespace ns, uint16_t addr, int len, uint8_t *out) { return read_("kwp71", c, ns, addr, len, out); }

static int status_(const char *what, struct diag_l2_conn *c, const int *rvs, int n)
{
	vmc_tick();
	VMC_CHECK(c == &l2c && t_conn, "conn", "%s over a connection which is not there", what);
	call("%s\n", what);
	struct ans *a = newans();
	a->rv = rvs[dev(n, what)];
	return a->rv;
}
static const int r_ping[] = { 0, DIAG_ERR_TIMEOUT, DIAG_ERR_ECUSAIDNO };
static const int r_clear[] = { 1, 0, DIAG_ERR_TIMEOUT, DIAG_ERR_ECUSAIDNO };
int __wrap_diag_l7_d2_ping(struct diag_l2_conn *c) { return status_("d2 ping", c, r_ping, 3); }
int __wrap_diag_l7_kwp71_ping(struct diag_l2_conn *c) { return status_("kwp71 ping", c, r_ping, 3); }
int __wrap_diag_l7_d2_cleardtc(struct diag_l2_conn *c) { return status_("d2 clear", c, r_clear, 4); }
int __wrap_diag_l7_kwp71_cleardtc(struct diag_l2_conn *c) { return status_("kwp71 clear", c, r_clear, 4); }
int __wrap_diag_l7_d2_io_control(struct diag_l2_conn *c, uint8_t id, uint8_t reps)
{
	char b[40];
	snprintf(b, 40, "d2 io %02X %d", id, reps);
	return status_(b, c, r_ping, 3);
}
int __wrap_diag_l7_d2_run_routine(struct diag_l2_conn *c, uint8_t id)
{
	char b[40];
	snprintf(b, 40, "d2 routine %02X", id);
	return status_(b, c, r_ping, 3);
}
static int dtclist_(const char *who, struct diag_l2_conn *c, int len, uint8_t *out)
{
	vmc_tick();
	VMC_CHECK(c == &l2c && t_conn, "conn", "%s dtclist over a connection which is not there", who);
	call("%s dtclist\n", who);
	struct ans *a = newans();
	static const int n[] = { 2, DIAG_ERR_TIMEOUT, 0, 1, 5, 12, 13, 25, 253 };
	a->rv = dtcn ? *dtcn : n[dev(9, "dtclist")];
	for (int i = 0; i < a->rv; i++)
		a->d[i] = dtcbase + i * 7;
	if (a->rv > 0)
		memcpy(out, a->d, a->rv < len ? a->rv : len);
	return a->rv;
}
int __wrap_diag_l7_d2_dtclist(struct diag_l2_conn *c, int len, uint8_t *out) { return dtclist_("d2", c, len, out); }
int __wrap_diag_l7_kwp71_dtclist(struct diag_l2_conn *c, int len, uint8_t *out) { return dtclist_("kwp71", c, len, out); }

int __wrap_diag_l2_open(struct diag_l0_device *d, int l1)
{
	vmc_tick();
	VMC_CHECK(d == &l0, "l0", "another interface is opened");
	VMC_CHECK(!t_open, "opentwice", "the interface is opened twice");
	call("open %d\n", l1);
	struct ans *a = newans();
	a->rv = dev(2, "open") ? DIAG_ERR_BADIFADAPTER : 0;
	t_open = !a->rv;
	return a->rv ? diag_iseterr(a->rv) : 0;
}
void __wrap_diag_l2_close(struct diag_l0_device *d)
{
	VMC_CHECK(d == &l0 && t_open, "close", "an interface which is not open is closed");
	VMC_CHECK(!t_conn, "closeconn", "the interface is closed under a connection");
	call("close\n");
	t_open = 0;
}
static void session(int proto, int dest)
{
	memset(&l2c, 0, sizeof(l2c));
	memset(&l2p, 0, sizeof(l2p));
	l2p.diag_l2_protocol = proto;
	l2p.shortname = "model";
	l2c.l2proto = &l2p;
	l2c.diag_l2_destaddr = dest;
	t_open = t_conn = 1;
}
struct diag_l2_conn *__wrap_diag_l2_StartCommunications(struct diag_l0_device *d, int proto, flag_type flags, unsigned int bps, target_type tgt, source_type src)
{
	vmc_tick();
	VMC_CHECK(d == &l0 && t_open && !t_conn, "start", "communications are started over a closed or used interface");
	/* KWP71 has no tester address */
	call("start %d %u %u %02X %02X\n", proto, (unsigned)flags, bps, tgt, proto == DIAG_L2_PROT_D2 ? src : 0);
	struct ans *a = newans();
	a->rv = dev(2, "start");
	if (a->rv) {
		diag_iseterr(DIAG_ERR_TIMEOUT);
		return NULL;
	}
	session(proto, tgt);
	return &l2c;
}
int __wrap_diag_l2_StopCommunications(struct diag_l2_conn *c)
{
	VMC_CHECK(c == &l2c && t_conn, "stop", "a connection which is not there is stopped");
	VMC_CHECK(!t_l3, "stopl3", "a connection which a L3 connection uses is stopped");
	call("stop\n");
	t_conn = 0;
	memset(&l2c, 0xee, sizeof(l2c));
	return 0;
}
int __wrap_diag_l3_stop(struct diag_l3_conn *c)
{
	VMC_CHECK(c == &l3c && t_l3, "stop3", "a L3 connection which is not there is stopped");
	call("l3stop\n");
	t_l3 = 0;
	return 0;
}
int __wrap_diag_l2_ioctl(struct diag_l2_conn *c, unsigned int cmd, void *data)
{
	VMC_CHECK(c == &l2c && t_conn, "ioctl", "ioctl of a connection which is not there");
	if (cmd != DIAG_IOCTL_GET_L2_DATA)
		return 0;
	struct diag_l2_data *x = data;
	struct ans *a = newans();
	static const uint8_t kb[][2] = { { 0xab, 0x02 }, { 0xab, 0x03 }, { 0x08, 0x02 } };
	int k = dev(3, "keybytes");
	a->rv = k;
	memset(x, 0, sizeof(*x));
	x->kb1 = kb[k][0];
	x->kb2 = kb[k][1];
	return 0;
}
/* identification blocks sent by a KWP71 ECU */
static int nid, idkind;
static int idblock(int b, uint8_t *d)
{
	int len = 10;
	for (int i = 0; i < 12; i++)
		d[i] = '0' + (b * 3 + i) % 10;
	if (b == 0 && idkind == 1)
		len = 9;
	if (b == 0 && idkind == 2)
		len = 11;
	if (b == 0 && idkind == 3)
		d[9] = 'x';
	if (b == 2 && idkind == 4)
		len = 7;
	if (b == 2 && idkind == 5)
		d[6] = 0xff;
	if (b == 0 && idkind == 6)
		len = 0;
	return len;
}
int __wrap_diag_l2_recv(struct diag_l2_conn *c, unsigned int tmo, void (*cb)(void *, struct diag_msg *), void *handle)
{
	(void)tmo;
	vmc_tick();
	VMC_CHECK(c == &l2c && t_conn, "recv", "receiving over a connection which is not there");
	call("recv\n");
	struct ans *a = newans();
	int k = dev(4, "recv");
	a->rv = k == 1 ? DIAG_ERR_TIMEOUT : k == 2 ? DIAG_ERR_BADDATA : 0;
	if (a->rv)
		return diag_iseterr(a->rv);
	bool t = env_alloc_track;
	env_alloc_track = false;
	struct diag_msg *head = NULL;
	int n = nid ? nid : 1;
	for (int i = 0; i < n; i++) {
		uint8_t d[256];
		int len = nid ? idblock(i, d) : k == 3 ? 200 : 5;
		if (!nid)
			for (int j = 0; j < len; j++)
				d[j] = a->d[j] = content(0, 0x77, j);
		int (*h)(size_t) = env_alloc_hook;
		env_alloc_hook = NULL;
		struct diag_msg *m = diag_allocmsg(len);
		env_alloc_hook = h;
		if (len)
			memcpy(m->data, d, len);
		m->type = 0xf6;
		LL_CONCAT(head, m);
	}
	a->d[255] = nid ? 0 : k == 3 ? 200 : 5;
	env_alloc_track = t;
	if (cb)
		cb(handle, head);
	env_alloc_track = false;
	diag_freemsg(head);
	env_alloc_track = t;
	return 0;
}
int __wrap_diag_l2_send(struct diag_l2_conn *c, struct diag_msg *m)
{
	vmc_tick();
	VMC_CHECK(c == &l2c && t_conn, "send", "sending over a connection which is not there");
	call("send");
	if (l2p.diag_l2_protocol == DIAG_L2_PROT_VAG)
		call(" %02X", m->type & 0xff);
	for (unsigned i = 0; i < m->len; i++)
		call(" %02X", m->data[i]);
	call("\n");
	struct ans *a = newans();
	a->rv = dev(2, "send") ? DIAG_ERR_GENERAL : 0;
	return a->rv ? diag_iseterr(a->rv) : 0;
}

/* ---- the user and the terminal ---- */
static int passes, ups, upsum, npend;
int __wrap_diag_os_ipending(void)
{
	vmc_tick();
	/* the first one before the reading only discards what was typed */
	return npend++ >= passes;
}
static long lastcount;
static char *ob;
static size_t on;
static FILE *of;
static void lines_now(long *n)
{
	fflush(of);
	*n = 0;
	for (size_t i = 0; i < on; i++)
		*n += ob[i] == '\n';
}
void __wrap_diag_os_cursor_up(int n)
{
	long l;
	lines_now(&l);
	VMC_CHECK(n == l - lastcount, "cursor", "the cursor goes up %d lines, %ld were written", n, l - lastcount);
	lastcount = l;
	ups++;
	upsum += n;
}
void __wrap_diag_os_clrtoeol(void) { }
void __wrap_diag_os_millisleep(unsigned int ms) { env_advance_us(ms * 1000ULL); }
static const char *const *replies;
static int nq;
char *__wrap_cli_basic_get_input(const char *prompt, FILE *in)
{
	(void)prompt;
	(void)in;
	vmc_tick();
	call("ask\n");
	const char *s = replies ? replies[nq] : NULL;
	if (s)
		nq++;
	if (!s)
		return NULL;
	char *p;
	return diag_malloc(&p, strlen(s) + 1) ? NULL : strcpy(p, s);
}
/* the file written by dumpram */
static char file[600000];
static size_t fileln;
static int fopenfail, wfail, nwrite, fileopen;
static ssize_t f_write(void *c, const char *b, size_t n)
{
	(void)c;
	vmc_tick();
	if (++nwrite == wfail) {
		errno = ENOSPC;
		return 0;
	}
	if (wfail && nwrite > wfail)
		return 0;
	memcpy(file + fileln, b, n);
	fileln += n;
	return n;
}
static int f_close(void *c) { (void)c; fileopen--; return 0; }
FILE *__real_fopen(const char *, const char *);
FILE *__wrap_fopen(const char *name, const char *mode)
{
	if (strcmp(name, "DUMP"))
		return __real_fopen(name, mode);
	call("fopen %s\n", mode);
	if (fopenfail) {
		errno = EACCES;
		return NULL;
	}
	fileopen++;
	return fopencookie(NULL, "w", (cookie_io_functions_t){ .write = f_write, .close = f_close });
}

/* ---- the reference ---- */
/* expected lines; \1 stands for anything, \2value;tol; for a number */
static char *eo;
static size_t eon;
static FILE *eof_;
static void show(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
static void show(const char *fmt, ...) { va_list ap; va_start(ap, fmt); vfprintf(eof_, fmt, ap); va_end(ap); }
#define ANY "\1"
static char *num(double v, double tol) { static char b[4][60]; static int k; k = (k + 1) & 3; snprintf(b[k], 60, "\2%.9g;%.9g;", v, tol); return b[k]; }

static struct { int proto, dest; bool conn, l3, read; } M;     /* what the tool should be connected to */
static int m_nid, m_idkind;     /* identification kept from the KWP71 connection; 0 none */

enum { NONE, D2, KWP, OTHER };
static int kind(void) { return !M.conn ? NONE : M.proto == DIAG_L2_PROT_D2 ? D2 : M.proto == DIAG_L2_PROT_VAG ? KWP : OTHER; }
#define FAIL (-1)       /* any value which is neither success nor leaving */

static const struct ecu_info *einfo(int addr)
{
	for (const struct ecu_info *e = ecu_list; e->name; e++)
		if (e->addr == addr)
			return e;
	return NULL;
}
static const char *code(int dest, int raw, const char **desc, const char **tips)
{
	static char b[40];
	const char *prefix = einfo(dest) ? einfo(dest)->dtc_prefix : "???";
	*desc = "";
	*tips = NULL;
	for (const struct ecu_dtc_table_map_entry *m = ecu_dtc_map; m->ecu_addr; m++) {
		if (m->ecu_addr != dest)
			continue;
		for (const struct dtc_table_entry *t = m->dtc_table; t->dtc_suffix; t++)
			if (t->raw_value == raw) {
				*desc = t->desc;
				*tips = t->tips;
				if (t->dtc_suffix > 0)
					snprintf(b, 40, "%s-%03d", prefix, t->dtc_suffix);
				else
					snprintf(b, 40, "%s-???", prefix);
				return b;
			}
		break;
	}
	snprintf(b, 40, "%s-???", prefix);
	return b;
}
static int bycode(int dest, const char *s)
{
	const char *prefix = einfo(dest) ? einfo(dest)->dtc_prefix : "???";
	size_t n = strlen(prefix);
	if (strncasecmp(s, prefix, n))
		return -1;
	s += n;
	s += *s == '-';
	if (!*s || strspn(s, "0123456789") != strlen(s) || strlen(s) > 4)
		return -1;
	int v = atoi(s);
	for (const struct ecu_dtc_table_map_entry *m = ecu_dtc_map; m->ecu_addr; m++)
		if (m->ecu_addr == dest)
			for (const struct dtc_table_entry *t = m->dtc_table; t->dtc_suffix; t++)
				if (t->dtc_suffix == v)
					return t->raw_value;
	return -1;
}
/* a number as C writes it, without sign; -1: not one, or above max */
static long number(const char *s, size_t n, long max)
{
	int base = 10;
	long v = 0;
	if (!n)
		return -1;
	if (n > 2 && s[0] == '0' && (s[1] | 32) == 'x')
		base = 16, s += 2, n -= 2;
	else if (s[0] == '0')
		base = 8;
	for (; n; n--, s++) {
		int d = *s >= '0' && *s <= '9' ? *s - '0' : (*s | 32) >= 'a' && (*s | 32) <= 'f' ? (*s | 32) - 'a' + 10 : 99;
		if (d >= base || (v = v * base + d) > max)
			return -1;
	}
	return v;
}
struct item { int ns; long a, e; };
static bool item(const char *s, int ns, struct item *it)
{
	if (ns == NS_LIVEDATA && *s == '*')
		ns = NS_MEMORY, s++;
	it->ns = ns;
	size_t n = strlen(s);
	if (ns == NS_MEMORY) {
		size_t k = strcspn(s, ".-");
		if (k < n) {
			it->a = number(s, k, 0xffff);
			it->e = number(s + k + 1, n - k - 1, 0xffff);
			return it->a >= 0 && it->e >= it->a;
		}
		int more = 0;
		if (n && (s[n - 1] | 32) == 'w')
			more = 1, n--;
		else if (n && (s[n - 1] | 32) == 'l')
			more = 3, n--;
		it->a = number(s, n, 0xffff);
		it->e = it->a + more;
		return it->a >= 0 && it->e <= 0xffff;
	}
	if (ns == NS_FREEZE && isalpha((uint8_t)*s))
		it->a = bycode(M.dest, s);
	else
		it->a = number(s, n, 0xff);
	return it->a >= 0;
}
static void hex(long a, int chars, const uint8_t *d, int n)
{
	show("%0*lX:", chars, a);
	for (int i = 0; i < n; i++)
		show(" %02X", d[i]);
	show("\n");
}
static void interp(int ns, int addr, const uint8_t *d, int n)
{
	static const char *const warm[] = { "in progress or engine off", "completed", "not possible", "status unknown" };
	static const char *const pos[] = { "Open", "S", "E", "W", "Unknown" }, *const mode[] = { "Economy", "Sport", "Winter", "Unknown" };
	int e = M.dest;
	if (ns == NS_MEMORY) {
		for (int i = 0; i < n; i++)
			if (e == 0x10 && addr + i == 0x36)
				show("Battery voltage: %s V\n", num(d[i] * 5. / 255 * 29.75 / 8.25, .051));
		return;
	}
	if (ns != NS_LIVEDATA)
		return;
	if (e == 0x7a && addr == 2 && n >= 2)
		show("Engine Coolant Temperature: %s\n", ({ static char b[160]; snprintf(b, 160, "%sC (%sF)", num(d[1] - 80, 0), num((d[1] - 80) * 1.8 + 32, .999)); b; }));
	if (e == 0x7a && addr == 3 && n >= 1)
		show("Battery voltage: %s V\n", num(d[0] * 5. / 255 * 29.75 / 8.25, .051));
	if (e == 0x7a && addr == 0x0a && n >= 1)
		show("Warm-up %s\nMIL %srequested by TCM\n", warm[d[0] >> 2 & 3], d[0] & 0x10 ? "" : "not ");
	if (e == 0x7a && addr == 0x10 && n >= 1)
		show("MAF sensor signal: %s V\n", num(d[0] * 5. / 255 * 9.46 / 8.25, .0051));
	if (e == 0x7a && addr == 0x18 && n >= 1)
		show("Short term fuel trim: %s%%\n", num(d[0] / 1.28 - 100, .051));
	if (e == 0x7a && addr == 0x19 && n >= 1)
		show("Long term fuel trim, additive (unscaled): %s\n", num(d[0] - 128, 0));
	if (e == 0x7a && addr == 0x1a && n >= 1)
		show("Long term fuel trim, multiplicative: %s%%\n", num(d[0] / 1.28 - 100, .051));
	if (e == 0x6e && addr == 5 && n >= 2) {
		show("Mode selector: MS1 %s, MS2 %s, switch position %s\n", d[0] & 1 ? "low" : "high", d[0] & 2 ? "low" : "high", pos[d[0] > 3 ? 4 : d[0]]);
		show("Driving mode: %s\n", mode[d[1] > 2 ? 3 : d[1]]);
	}
	if (e == 0x6e && addr == 0x0c && n >= 4) {
		int raw = d[0] << 8 | d[1];
		double v = raw * 5. / 1023;
		int16_t t = (int16_t)(d[2] << 8 | d[3]);
		show("ATF temperature sensor voltage: %s V\n", num(v, .0051));
		if (raw < 1023)
			show("ATF temperature sensor resistance: %s ohms\n", num(1000 * v / (5 - v), 2 + 1000 * v / (5 - v) * .001));
		else
			show("ATF temperature sensor resistance:" ANY "\n");
		if (t >= -32700)
			show("ATF temperature: %s\n", ({ static char b[160]; snprintf(b, 160, "%sC (%sF)", num(t - 11, 0), num((t - 11) * 1.8 + 32, .999)); b; }));
		else
			show("ATF temperature:" ANY "\n");
	}
}
static const char *proto_name(void) { return kind() == D2 ? "d2" : "kwp71"; }

static int ref_read(int argc, const char **argv, int ns)
{
	static struct item it[1000];
	bool cont = false;
	int n = argc - 1;
	if (n && (ns == NS_MEMORY || ns == NS_LIVEDATA || ns == NS_ADC) && (!strcasecmp(argv[n], "live") || !strcasecmp(argv[n], "stream")))
		cont = true, n--;
	if (n < 1 || n > 998)
		return show(ANY "\n"), CMD_USAGE;
	for (int i = 0; i < n; i++)
		if (!item(argv[i + 1], ns, &it[i]))
			return show(ANY "\n"), CMD_OK;
	for (int p = 0; p < (cont ? passes : 1); p++)
		for (int i = 0; i < n; i++) {
			if (it[i].ns == NS_MEMORY) {
				for (long a = it[i].a; a <= it[i].e; a += 8) {
					int l = it[i].e - a + 1 < 8 ? it[i].e - a + 1 : 8;
					want("%s read %d %04lX %d\n", proto_name(), NS_MEMORY, a, l);
					struct ans *x = oldans();
					if (x->rv != l)
						return show("Error" ANY "%04lX\n", a), CMD_OK;
					hex(a, 4, x->d, l);
					interp(NS_MEMORY, a, x->d, l);
				}
				continue;
			}
			want("%s read %d %04lX\n", proto_name(), it[i].ns, it[i].a);
			struct ans *x = oldans();
			const char *u, *v;
			if (x->rv < 0)
				return show("Error" ANY "%02lX\n", it[i].a), CMD_OK;
			if (it[i].ns == NS_FREEZE)
				show("%s  ", code(M.dest, it[i].a, &u, &v));
			if (!x->rv) {
				show("%02lX:" ANY "\n", it[i].a);
				continue;
			}
			/* of long ones only the first 20 bytes, saying so */
			hex(it[i].a, 2, x->d, x->rv < 20 ? x->rv : 20);
			if (x->rv > 20)
				show(ANY "%d" ANY "20" ANY "\n", x->rv);
			interp(it[i].ns, it[i].a, x->d, x->rv < 20 ? x->rv : 20);
		}
	return CMD_OK;
}
static int ref_connect(const char *name)
{
	long addr = -1;
	if (!strcmp(name, "?"))
		return show("\3"), CMD_USAGE;
	if (kind() != NONE)
		return show(ANY "\n"), CMD_OK;
	if (isdigit((uint8_t)*name))
		addr = number(name, strlen(name), 0x7f);
	else
		for (const struct ecu_info *e = ecu_list; e->name; e++)
			if (!strcasecmp(e->name, name))
				addr = e->addr;
	if (addr < 0)
		return show(ANY "\n"), CMD_OK;
	if (!global_dl0d)
		return show(ANY "\n"), FAIL;
	want("open %d\n", DIAG_L1_ISO9141);
	if (oldans()->rv)
		return FAIL;
	if (addr == 0x10)
		want("start %d %u 9600 10 00\n", DIAG_L2_PROT_VAG, DIAG_L2_TYPE_SLOWINIT);
	else
		want("start %d %u 10400 %02lX 13\n", DIAG_L2_PROT_D2, DIAG_L2_TYPE_SLOWINIT, addr);
	if (oldans()->rv) {
		want("close\n");
		return FAIL;
	}
	if (addr == 0x10 && oldans()->rv) {
		want("stop\nclose\n");
		return FAIL;
	}
	M.conn = true;
	M.l3 = M.read = false;
	M.dest = addr;
	M.proto = addr == 0x10 ? DIAG_L2_PROT_VAG : DIAG_L2_PROT_D2;
	show("Connected to" ANY "\n");
	if (addr != 0x10) {
		/* get the interface used to this ECU's speed */
		for (int i = 0; i < 3; i++)
			oldans(), want("d2 ping\n");
		return CMD_OK;
	}
	show("Warning" ANY "\n");
	want("recv\n");
	m_nid = 0;
	if (oldans()->rv)
		return FAIL;
	m_nid = nid ? nid : -1;
	m_idkind = idkind;
	return CMD_OK;
}
static void ref_disconnect(void)
{
	if (M.l3)
		want("l3stop\n");
	want("stop\nclose\n");
	M.conn = M.l3 = M.read = false;
	show("Disconnected from" ANY "\n");
}
static int ref_dtc(bool tips)
{
	bool have = false, unsure = false;
	int span = kind() == D2 ? 1 : 5;
	want("%s dtclist\n", proto_name());
	struct ans *x = oldans();
	if (x->rv < 0)
		return show("Couldn't" ANY "\n"), CMD_OK;
	M.read = true;
	if (!x->rv)
		return show("No stored DTCs" ANY "\n"), CMD_OK;
	show("Stored DTCs:\n");
	for (int i = 0; i < x->rv; i += span) {
		const char *d, *t, *c = code(M.dest, x->d[i], &d, &t);
		show("%s (%02X) %s\n", c, x->d[i], d);
		unsure |= *d && d[strlen(d) - 1] == '?';
		have |= t != NULL;
		if (t && tips)
			show("%s\n", t);
	}
	if (unsure)
		show("Warning: " ANY "\n");
	if (have && !tips)
		show("Tips are available" ANY "\n");
	if (!have && tips)
		show("No tips are available" ANY "\n");
	return CMD_OK;
}
static int ref_id(void)
{
	if (kind() == D2) {
		want("d2 read %d 00F0\n", NS_NV);
		struct ans *x = oldans();
		const uint8_t *d = x->d;
		if (x->rv != 15 || d[0])
			return show(ANY "\n"), CMD_OK;
		for (int i = 0; i < 3; i++)
			if (d[5 + i] < 0x20 || d[5 + i] > 0x7e || d[12 + i] < 0x20 || d[12 + i] > 0x7e)
				return show(ANY "\n"), CMD_OK;
		show("Hardware ID: P%02X%02X%02X%02X revision %.3s\n", d[1], d[2], d[3], d[4], d + 5);
		show("Software ID:  %02X%02X%02X%02X revision %.3s\n", d[8], d[9], d[10], d[11], d + 12);
		if (M.dest != 0x7a)
			return CMD_OK;
		want("d2 read %d 0001\n", NS_NV);
		x = oldans();
		d = x->d;
		if (x->rv < 0)
			return CMD_OK;
		if (x->rv != 10)
			return show(ANY "\n"), CMD_OK;
		for (int i = 0; i < 10; i++)
			if (d[i] < '0' || d[i] > '9')
				return show(ANY "\n"), CMD_OK;
		show("Order number: %c %.3s %.3s %.3s\n", d[0], d + 1, d + 4, d + 7);
		return CMD_OK;
	}
	if (m_nid == -2)
		return show("\3"), CMD_OK;
	if (m_nid <= 0)
		return show(ANY "\n"), CMD_OK;
	uint8_t d[16];
	int k = idkind, l;
	idkind = m_idkind;
	l = idblock(0, d);
	bool good = l == 10;
	for (int i = 0; i < 10; i++)
		good &= d[i] >= '0' && d[i] <= '9';
	if (!good)
		show(ANY "\n");
	else
		show("Order number: %c %.3s %.3s %.3s\n", d[0], d + 1, d + 4, d + 7);
	if (good && m_nid >= 3) {
		l = idblock(2, d);
		good = l == 10;
		for (int i = 0; i < 7; i++)
			good &= d[i] >= '0' && d[i] <= '9';
		if (good)
			show("Hardware ID: P0%.7s\n", d);
		else
			show(ANY "\n");
	}
	idkind = k;
	return CMD_OK;
}
static bool yes(int k) { return replies && replies[k] && (!strcasecmp(replies[k], "y") || !strcasecmp(replies[k], "yes")); }
static int refuse(void) { show(ANY "\n"); return CMD_OK; }

static int ref(int argc, const char **argv)
{
	const char *c = argv[0];
	int k = kind();
	if (!strcmp(c, "connect"))
		return argc != 2 ? (argc == 2 ? 0 : show(ANY "\n")), CMD_USAGE : ref_connect(argv[1]);
	if (!strcmp(c, "disconnect")) {
		if (argc > 1)
			return show(ANY "\n"), CMD_USAGE;
		if (k != D2 && k != KWP)
			return refuse();
		ref_disconnect();
		return CMD_OK;
	}
	if (!strcmp(c, "ping")) {
		if (argc > 1)
			return show(ANY "\n"), CMD_USAGE;
		if (k != D2 && k != KWP)
			return refuse();
		want("%s ping\n", proto_name());
		show(oldans()->rv ? "Ping failed" ANY "\n" : "Pong" ANY "\n");
		return CMD_OK;
	}
	if (!strcmp(c, "peek") || !strcmp(c, "read") || !strcmp(c, "adc") || !strcmp(c, "readnv") || !strcmp(c, "freeze")) {
		int ns = *c == 'p' ? NS_MEMORY : *c == 'a' ? NS_ADC : *c == 'f' ? NS_FREEZE : c[4] ? NS_NV : NS_LIVEDATA;
		if (*c == 'p' ? k != D2 && k != KWP && argc >= 2 : *c == 'a' ? k != KWP : k != D2)
			return refuse();
		if (ns == NS_FREEZE && argc == 2 && !strcasecmp(argv[1], "all")) {
			want("d2 dtclist\n");
			struct ans *x = oldans();
			if (x->rv <= 0)
				return show(ANY "\n"), CMD_OK;
			static char b[256][8];
			static const char *av[257];
			int n = x->rv;
			av[0] = "freeze";
			for (int i = 0; i < n; i++)
				snprintf(b[i], 8, "0x%02x", x->d[i]), av[i + 1] = b[i];
			return ref_read(n + 1, av, ns);
		}
		return ref_read(argc, argv, ns);
	}
	if (!strcmp(c, "sendreq")) {
		if (argc < 2 || argc > MAXRBUF + 1)
			return show(ANY "\n"), CMD_USAGE;
		if (k != D2 && k != KWP)
			return refuse();
		if (argc > 256)
			return refuse();
		want("send");
		for (int i = 1; i < argc; i++)
			want(" %02X", (unsigned)strtoul(argv[i], NULL, 0) & 0xff);
		want("\n");
		if (oldans()->rv)
			return show(ANY "fail" ANY "\n"), CMD_OK;
		want("recv\n");
		struct ans *x = oldans();
		if (x->rv == DIAG_ERR_TIMEOUT)
			show("No data" ANY "\n");
		else if (x->rv)
			show(ANY "fail" ANY "\n");
		else {
			show("\4");
			for (int i = 0; i < x->d[255]; i++)
				show("0x%02X ", x->d[i]);
			show("\n");
		}
		return CMD_OK;
	}
	if (!strcmp(c, "dtc")) {
		if (argc > 2)
			return show(ANY "\n"), CMD_USAGE;
		if (argc == 2 && strcasecmp(argv[1], "tips"))
			return CMD_USAGE;
		if (k != D2 && k != KWP)
			return refuse();
		return ref_dtc(argc == 2);
	}
	if (!strcmp(c, "cleardtc")) {
		if (argc > 1)
			return show(ANY "\n"), CMD_USAGE;
		if (k != D2 && k != KWP)
			return refuse();
		want("ask\n");
		if (!replies || !replies[0])
			return CMD_OK;
		if (!yes(0))
			return refuse();
		if (!M.read) {
			want("ask\n");
			if (!replies[1])
				return CMD_OK;
			if (!yes(1))
				return refuse();
		}
		want("%s clear\n", proto_name());
		int rv = oldans()->rv;
		show(rv == 1 ? "Done\n" : rv == 0 ? "No DTCs" ANY "\n" : "Failed" ANY "\n");
		return CMD_OK;
	}
	if (!strcmp(c, "id")) {
		if (argc > 1)
			return show(ANY "\n"), CMD_USAGE;
		if (k != D2 && k != KWP)
			return refuse();
		return ref_id();
	}
	if (!strcmp(c, "test")) {
		if (k != D2)
			return refuse();
		int id = argc != 2 || M.dest != 0x7a ? 0 : !strcasecmp(argv[1], "fan1") ? 0x0e : !strcasecmp(argv[1], "fan2") ? 0x1f : 0;
		if (!id)
			return show("\3"), CMD_OK;
		want("d2 io %02X 3\n", id);
		show(oldans()->rv ? "Unable" ANY "\n" : "Activating" ANY "\n");
		return CMD_OK;
	}
	if (!strcmp(c, "resetsrl")) {
		if (argc > 1)
			return show(ANY "\n"), CMD_USAGE;
		want("ask\n");
		if (!replies || !replies[0])
			return CMD_OK;
		if (!yes(0))
			return refuse();
		if (k == OTHER)
			return show("\3"), CMD_OK;      /* nothing is sent over it */
		if ((k == D2 && M.dest != 0x51) || k == KWP) {
			show("Disconnecting" ANY "\n");
			ref_disconnect();
		}
		if (kind() == NONE && ref_connect("combi") != CMD_OK)
			return show(ANY "Couldn't connect" ANY "\n"), CMD_OK;
		want("d2 io 30 0\nd2 routine 30\n");
		int io = oldans()->rv, rv = oldans()->rv;
		show(rv == 0 ? "Done\n" : rv == DIAG_ERR_TIMEOUT && io == 0 ? "Probably" ANY "\n" : "Failed" ANY "\n");
		return CMD_OK;
	}
	if (!strcmp(c, "scan-all")) {
		if (argc > 1)
			return show(ANY "\n"), CMD_USAGE;
		if (k != NONE)
			return refuse();
		show("Scanning" ANY "\n");
		for (const struct ecu_info *e = ecu_list; e->name; e++) {
			if (e->addr == 0x10)
				continue;
			if (ref_connect(e->name) == CMD_OK) {
				ref_id();
				ref_dtc(false);
				ref_disconnect();
			} else {
				show(ANY "Couldn't connect" ANY "\n");
			}
		}
		show("Scan-all done" ANY "\n");
		return CMD_OK;
	}
	if (!strcmp(c, "dumpram")) {
		bool fast = argc == 3;
		if (argc < 2 || argc > 3 || (fast && strcasecmp(argv[2], "fast")))
			return CMD_USAGE;
		if (k != D2)
			return refuse();
		show("\3");
		want("fopen w\n");
		if (fopenfail)
			return CMD_OK;
		static char f[600000];
		size_t n = 0;
		for (long a = 0; a < 0x10000; a += 8) {
			if (wfail && ra >= na)
				break;  /* may end anywhere */
			want("d2 read %d %04lX 8\n", NS_MEMORY, a);
			struct ans *x = oldans();
			if (x->rv == 8) {
				n += sprintf(f + n, "%04lX:", a);
				for (int i = 0; i < 8; i++)
					n += sprintf(f + n, " %02X", x->d[i]);
				n += sprintf(f + n, "\n");
			} else if (fast && a + 8 < 0xf000)
				a = 0xeff8;
		}
		if (!wfail)
			VMC_CHECK(n == fileln && !memcmp(f, file, n), "dump", "the file is not what the ECU returned (%zu / %zu bytes)", fileln, n);
		else
			VMC_CHECK(fileln <= n && !memcmp(f, file, fileln), "dump", "the file is not what the ECU returned");
		return CMD_OK;
	}
	vmc_error("no reference for %s", c);
}

/* ---- comparing ---- */
static bool match(const char *p, const char *s)
{
	for (; *p; p++) {
		if (*p == 1) {
			for (;; s++) {
				if (match(p + 1, s))
					return true;
				if (!*s)
					return false;
			}
		}
		if (*p == 2) {
			double v, t;
			int n;
			char *e;
			if (sscanf(p + 1, "%lf;%lf;%n", &v, &t, &n) != 2)
				vmc_error("pattern");
			double x = strtod(s, &e);
			if (e == s || fabs(x - v) > t + 1e-9)
				return false;
			s = e;
			p += n;
			continue;
		}
		if (*p != *s)
			return false;
		s++;
	}
	return !*s;
}
static char *next(char **p)
{
	char *s;
	while ((s = *p) && *s) {
		char *e = strchr(s, '\n');
		if (e)
			*e = 0, *p = e + 1;
		else
			*p = s + strlen(s);
		for (char *t = s + strlen(s); t > s && t[-1] == ' ';)
			*--t = 0;
		if (*s)
			return s;
	}
	return NULL;
}
static void consistent(void)
{
	VMC_CHECK(t_conn == (global_l2_conn != NULL) && (!t_conn || global_l2_conn == &l2c), "l2conn", "the tool's connection is not the real one");
	VMC_CHECK(t_conn == (global_state >= STATE_CONNECTED), "state", "state is %d, there is %sconnection", global_state, t_conn ? "a " : "no ");
	VMC_CHECK(t_open == t_conn, "open", "the interface is left %s", t_open ? "open" : "closed");
	VMC_CHECK(t_l3 == (global_l3_conn != NULL) && t_l3 == (global_state >= STATE_L3ADDED), "l3conn", "the tool's L3 connection is not the real one");
	VMC_CHECK(fileopen == 0, "fileopen", "the file is left open");
}
static long allocs0;
static int run(int argc, const char *const *argv)
{
	static char *av[2000];
	static char args[20000];
	const struct cmd_tbl_entry *t = v850_cmd_table;
	bool tk = env_alloc_track;
	char *a = args;
	env_alloc_track = false;
	for (int i = 0; i < argc; i++) {
		av[i] = a;
		a = stpcpy(a, argv[i]) + 1;
	}
	av[argc] = NULL;
	while (strcmp(t->command, argv[0]))
		t++;
	trn = etn = 0;
	tr[0] = et[0] = 0;
	na = ra = 0;
	npend = ups = nq = 0;
	nwrite = 0;
	fileln = 0;
	lastcount = 0;
	fflush(stdout);
	of = open_memstream(&ob, &on);
	FILE *so = stdout, *se = stderr;
	char *eb;
	size_t en;
	FILE *ef = open_memstream(&eb, &en);
	stdout = of;
	stderr = ef;
	env_alloc_track = tk;
	allocs0 = env_alloc_failed;
	int rv = t->routine(argc, av);
	bool failed = env_alloc_failed != allocs0;
	env_alloc_track = false;
	stdout = so;
	stderr = se;
	fclose(of);
	fclose(ef);
	if (vmc_replaying())
		vmc_log("> %s %s %s -> %d%s\n%s%s%s", argv[0], argc > 1 ? argv[1] : "", argc > 2 ? argv[2] : "", rv, failed ? " (allocation failed)" : "", trn < 2000 ? tr : "...", on < 2000 ? ob : "...", en < 2000 ? eb : "...");
	consistent();
	VMC_CHECK(rv != CMD_EXIT && rv != CMD_UP, "leave", "%s returns %d", argv[0], rv);
	if (failed) {
		/* anything, as long as it is safe and consistent */
		M.conn = t_conn;
		M.l3 = t_l3;
		if (t_conn)
			M.proto = l2p.diag_l2_protocol, M.dest = l2c.diag_l2_destaddr;
		if (!strcmp(argv[0], "connect") || !strcmp(argv[0], "scan-all"))
			m_nid = -2;
		M.read = false;
		free(ob);
		free(eb);
		env_alloc_track = tk;
		return rv;
	}
	eof_ = open_memstream(&eo, &eon);
	const char *rav[2000];
	for (int i = 0; i < argc; i++)
		rav[i] = argv[i];
	int erv = ref(argc, rav);
	fclose(eof_);
	VMC_CHECK(!strcmp(tr, et), "requests", "%s %s: did\n%.300swhile it should\n%.300s", argv[0], argc > 1 ? argv[1] : "", tr, et);
	VMC_CHECK(erv == FAIL ? rv != CMD_OK : rv == erv, "result", "%s %s returns %d, expected %d", argv[0], argc > 1 ? argv[1] : "", rv, erv);
	if (eo[0] == 3) {
		/* a text */
	} else if (eo[0] == 4) {
		char *s = malloc(on + en + 1);
		memcpy(s, eb, en);
		memcpy(s + en, ob, on);
		s[on + en] = 0;
		eo[strcspn(eo, "\n")] = 0;
		for (char *q = s; *q; q++)
			*q = toupper((uint8_t)*q);
		for (char *q = eo; *q; q++)
			*q = toupper((uint8_t)*q);
		VMC_CHECK(strstr(s, eo + 1), "received", "%s: the data received is not shown: %.200s in %.200s", argv[0], eo + 1, s);
		free(s);
	} else {
		char *p = ob, *q = eo, *x, *y;
		do {
			x = next(&p);
			/* warnings and hints */
			while (x && (!strncmp(x, "Did you mean", 12) || !strncmp(x, "Warning: retrieving", 19)))
				x = next(&p);
			y = next(&q);
			if (y && *y == 3)
				break;
			if (!x && y && !strcmp(y, ANY))
				continue;
			/* the reason of a failure */
			if (x && erv == FAIL && !y)
				continue;
			VMC_CHECK(x && y ? match(y, x) : !x && !y, "shown", "%s %s: '%s' is shown, expected '%s'", argv[0], argc > 1 ? argv[1] : "", x ? x : "nothing", y ? y : "nothing");
		} while (x || y);
	}
	free(eo);
	free(ob);
	free(eb);
	VMC_CHECK(M.conn == t_conn && (!t_conn || (M.proto == l2p.diag_l2_protocol && M.dest == l2c.diag_l2_destaddr)), "connection", "%s leaves another connection than expected", argv[0]);
	env_alloc_track = tk;
	return rv;
}
static int runv(const char *s)
{
	static char b[20000];
	const char *av[1200];
	int n = 0;
	if (strlen(s) >= sizeof(b))
		vmc_error("line");
	strcpy(b, s);
	for (char *p = strtok(b, " "); p; p = strtok(NULL, " "))
		av[n++] = p;
	return run(n, av);
}

static void start(void)
{
	env_reset();
	env_alloc_track = false;
	quiet = false;
	reader = NULL;
	dtcn = NULL;
	dtcbase = 0x20;
	pattern = 0;
	passes = 1;
	replies = NULL;
	nid = idkind = 0;
	fopenfail = wfail = fileopen = 0;
	memset(&M, 0, sizeof(M));
	t_open = t_conn = t_l3 = 0;
	global_dl0d = &l0;
	global_l2_conn = NULL;
	global_l3_conn = NULL;
	global_state = STATE_IDLE;
	m_nid = 0;
	vmc_set_tick_limit(60000);
	vmc_nonterm_sig = "endless";
	/* forget what a former run left in the tool */
	quiet = true;
	runv("connect m44old");
	runv("disconnect");
	quiet = false;
	env_alloc_track = true;
	env_alloc_mark();
}
static void connected(int proto, int dest)
{
	session(proto, dest);
	M.conn = true;
	M.proto = proto;
	M.dest = dest;
	global_l2_conn = &l2c;
	global_state = STATE_CONNECTED;
}
static void withl3(void)
{
	memset(&l3c, 0, sizeof(l3c));
	l3p.proto_name = "model";
	l3c.d_l3_proto = &l3p;
	l3c.d_l3l2_conn = &l2c;
	global_l3_conn = &l3c;
	global_state = STATE_L3ADDED;
	t_l3 = 1;
	M.l3 = true;
}
static void finish(void)
{
	env_alloc_track = false;
	global_l2_conn = NULL;
	global_l3_conn = NULL;
	global_state = STATE_IDLE;
	t_conn = t_open = t_l3 = 0;
	global_dl0d = &l0;
}
static const int protos[] = { DIAG_L2_PROT_D2, DIAG_L2_PROT_VAG, DIAG_L2_PROT_ISO14230 };

/* ---- scenarios ---- */
static const char *const args[] = {
	"0", "5", "0x10", "255", "256", "0xff", "0x100", "017", "08", "65535", "65536", "0xffff", "0x10000", "0x10005", "4294967301", "99999999999999999999",
	"-5", "+5", "x", "0x", "", "w", "l", ".5", "5.", "5-", "-", ".", "5w", "0x10W", "5l", "0xfcl", "5ww", "5wl", "0xffffw", "0xfffew", "0xfffcl", "0xfffdl", "0xffffl", "0x10000w",
	"0x30.0x37", "0x30-0x38", "0x30.0x2f", "1.0x10000", "0x10000.0x10001", "1.2.3", "1-x", "1.-1", "1.w", "0.0xff", "0xfff0.0xffff", "0x1fffe.0x1ffff",
	"*5", "*", "*x", "**5", "*0x36w", "*0xffffw", "*0x30.0x40", "*-1", "*.5", "5z", "5 ",
	"EFI-212", "efi212", "EFI-213", "EFI-", "EFI", "EFI-0", "EFI-65748", "EFI--", "AT-212", "CI-222", "CI65758", "CI-+222", "EFI-+21", "EFI-21x", "all", "EFI-999999", "live", "stream", "a", "ABC-1", "-212",
};
static const char *const rcmd[] = { "peek", "read", "adc", "readnv", "freeze" };
static void s_args(int p)
{
	start();
	int d = vmc_enum(3, "ECU");
	connected(p == 2 || (p == 0 && d == 2) ? DIAG_L2_PROT_VAG : DIAG_L2_PROT_D2, (int[]){ 0x7a, 0x51, 0x10 }[d]);
	int a = vmc_enum(sizeof(args) / sizeof(args[0]), "argument"), b = vmc_enum(4, "second"), c = vmc_enum(3, "tail");
	passes = 1 + (c ? vmc_enum(2, "passes") : 0);
	const char *av[5] = { rcmd[p] };
	int n = 1;
	if (b == 3)
		av[n++] = "0x36";
	av[n++] = args[a];
	if (b == 1 || b == 2)
		av[n++] = b == 1 ? "0x2a" : "q";
	if (c)
		av[n++] = c == 1 ? "live" : "STREAM";
	run(n, av);
	/* and the next command is not affected */
	passes = 2;
	if (p == 1)
		runv("read 1 2 stream");
	runv("peek 0x35 stream");
	finish();
	VMC_CHECK(env_live() == 0, "leak", "%ld blocks lost", env_live());
	vmc_state(a + 100 * b + 1000 * c + 10000 * d);
}
/* every address of the memory can be read */
static void s_range(int p)
{
	(void)p;
	start();
	quiet = true;
	connected(DIAG_L2_PROT_D2, 0x7a);
	static const char *const r[] = { "0.0xffff", "0.0xfffe", "1.0xffff", "0x8000.0xffff", "0xfff9.0xffff" };
	char b[60];
	snprintf(b, 60, "peek %s", r[vmc_enum(5, "range")]);
	runv(b);
	finish();
}
static void s_answers(int p)
{
	static const char *const l[] = { "peek 0x30.0x45 0x10", "peek 5w live", "read 1 2 3", "read 2 *0x30.0x38 live", "read 5 0x0c stream", "adc 1 2 live", "readnv 0xf0 2", "freeze 1 0x20", "freeze all", "peek 0x36l 0x35w stream",
		"ping", "id", "dtc", "dtc tips", "test fan1", "test fan2", "test fan3", "test", "adc 1", "sendreq 1 2 3", "sendreq 0xff", "cleardtc" };
	static const int ecus[] = { 0x7a, 0x6e, 0x10, 0x51, 0x01, 0x66 };
	static const char *const yy[] = { "y", "yes", NULL };
	start();
	replies = yy;
	int i = vmc_enum(sizeof(l) / sizeof(l[0]), "command"), e = vmc_enum(6, "ECU"), pr = vmc_enum(2, "protocol");
	pattern = vmc_enum(5, "content");
	passes = 2;
	connected(protos[pr], ecus[e]);
	if (p)
		withl3();
	runv(l[i]);
	runv("ping");
	finish();
	VMC_CHECK(env_live() == 0, "leak", "%ld blocks lost", env_live());
	vmc_state(i + 100 * e + 1000 * pr + pattern * 10000 + na * 100000);
}
static int iv_len, iv_b0, iv_b1, iv_b2;
static int iv_reader(int ns, int addr, int len, uint8_t *d)
{
	(void)ns;
	(void)addr;
	memset(d, 0xee, 20);
	d[0] = iv_b0;
	d[1] = iv_b1;
	d[2] = iv_b2;
	d[3] = iv_b1 ^ 0x5a;
	return ns == NS_MEMORY ? len : iv_len;
}
static void s_interp(int p)
{
	(void)p;
	static const struct { int e; const char *c; int two; } t[] = { { 0x7a, "read 2", 1 }, { 0x7a, "read 3" }, { 0x7a, "read 0x0a" }, { 0x7a, "read 0x10" }, { 0x7a, "read 0x18" }, { 0x7a, "read 0x19" }, { 0x7a, "read 0x1a" },
		{ 0x6e, "read 5", 1 }, { 0x6e, "read 0x0c", 1 }, { 0x10, "peek 0x36" }, { 0x10, "peek 0x35.0x37" }, { 0x7a, "read *0x36" }, { 0x6e, "read 2 3 0x10" }, { 0x7a, "read 5 0x0c" } };
	start();
	int i = vmc_enum(14, "value");
	iv_len = (int[]){ 4, 5, 3, 2, 1, 0, 21 }[vmc_enum(7, "length")];
	iv_b0 = vmc_enum(256, "first byte");
	reader = iv_reader;
	connected(t[i].e == 0x10 ? DIAG_L2_PROT_VAG : DIAG_L2_PROT_D2, t[i].e);
	int step = t[i].two ? (vmc_thorough() || i != 8 ? 1 : 5) : 64;
	for (int b = 0; b < 256; b += step) {
		iv_b1 = b;
		iv_b2 = b * 3 + iv_b0;
		runv(t[i].c);
	}
	finish();
	vmc_state(i * 1000 + iv_len);
}
static void s_dtc(int p)
{
	(void)p;
	static const int ecus[] = { 0x01, 0x10, 0x11, 0x18, 0x29, 0x2d, 0x2e, 0x2f, 0x41, 0x51, 0x58, 0x6e, 0x7a, 0x7b, 0x00, 0x7f, 0x80, 0xff };
	static const int ns[] = { 1, 2, 5, 6, 10, 11, 12, 13, 14, 15, 16, 20, 25, 26, 60, 252, 253, 255, 0 };
	start();
	quiet = true;
	int e = vmc_enum(18, "ECU"), pr = vmc_enum(2, "protocol"), n = vmc_enum(19, "number");
	dtcn = (int *)&ns[n];
	connected(protos[pr], ecus[e]);
	for (int b = 0; b < 256; b += n == 0 ? 1 : vmc_thorough() ? 8 : 64) {
		dtcbase = b;
		runv("dtc");
		runv("dtc tips");
		if (pr == 0) {
			runv("freeze all");
		}
	}
	runv("dtc x");
	runv("dtc tips tips");
	finish();
	VMC_CHECK(env_live() == 0, "leak", "%ld blocks lost", env_live());
	vmc_state(e + pr * 100 + n * 1000);
}
/* a freeze frame by every name in the table */
static void s_freeze(int p)
{
	(void)p;
	static const int ecus[] = { 0x01, 0x10, 0x11, 0x18, 0x29, 0x2d, 0x2e, 0x2f, 0x41, 0x51, 0x58, 0x6e, 0x7a, 0x7b };
	start();
	quiet = true;
	int d = ecus[vmc_enum(14, "ECU")];
	connected(DIAG_L2_PROT_D2, d);
	char b[60];
	for (const struct ecu_info *e = ecu_list; e->name; e++)
		for (int i = 0; i < 1000; i += e->addr == d ? 1 : 37) {
			snprintf(b, 60, "freeze %s%s%d", e->dtc_prefix, i % 3 ? "-" : "", i);
			runv(b);
		}
	for (int i = 0; i < 256; i++) {
		snprintf(b, 60, "freeze 0x%x", i);
		runv(b);
	}
	finish();
	vmc_state(d);
}
static const char *const rp[][3] = { { "y", "y" }, { "yes", "n" }, { "Y", NULL }, { "n" }, { NULL }, { "", "y" }, { "yess", "y" }, { "y", "YES" }, { "y", "" } };
static void s_clear(int p)
{
	(void)p;
	start();
	int pr = vmc_enum(3, "protocol");
	connected(protos[pr], 0x7a);
	replies = rp[vmc_enum(9, "replies")];
	int pre = vmc_enum(4, "before");
	static const int two = 2;
	if (pre == 1)
		dtcn = (int *)&two;
	if (pre == 1 || pre == 2)
		runv("dtc");
	dtcn = NULL;
	if (pre == 3 && pr != 2) {
		quiet = true;
		runv("dtc");
		runv("disconnect");
		runv("connect m44");
		quiet = false;
	}
	runv("cleardtc");
	runv("cleardtc");
	runv("cleardtc x");
	finish();
	VMC_CHECK(env_live() == 0, "leak", "%ld blocks lost", env_live());
	vmc_state(pr * 10 + pre);
}
static void s_srl(int p)
{
	(void)p;
	start();
	int st = vmc_enum(9, "state");
	if (st && st < 7)
		connected(protos[(st - 1) % 3], st < 4 ? 0x51 : 0x7a);
	if (st == 7)
		connected(DIAG_L2_PROT_VAG, 0x10), withl3();
	if (st == 8)
		connected(DIAG_L2_PROT_D2, 0x51), withl3();
	if (!st && vmc_enum(2, "no interface"))
		global_dl0d = NULL;
	replies = rp[vmc_enum(9, "replies")];
	runv("resetsrl");
	runv("resetsrl x");
	finish();
	VMC_CHECK(env_live() == 0, "leak", "%ld blocks lost", env_live());
	vmc_state(st);
}
/* 15 and 10 byte blocks of the D2 identification */
static int d2_kind;
static int d2_reader(int ns, int addr, int len, uint8_t *d)
{
	(void)len;
	if (ns != NS_NV)
		return 4;
	memset(d, 0, 256);
	if (addr == 0xf0) {
		memcpy(d, "\0\x09\x13\x55\x10" "001" "\x30\x72\x99\xf4" "a~ ", 15);
		switch (d2_kind) {
		case 1: return 14;
		case 2: return 16;
		case 3: d[0] = 1; break;
		case 4: d[5] = 7; break;
		case 5: d[14] = 0x80; break;
		case 6: d[12] = 0x7f; break;
		case 7: return DIAG_ERR_ECUSAIDNO;
		case 8: return 0;
		case 9: return 253;
		case 15: d[7] = 0; break;
		case 16: d[13] = 0xff; break;
		}
		return 15;
	}
	memcpy(d, "1275518101", 10);
	switch (d2_kind) {
	case 10: return 9;
	case 11: return 11;
	case 12: d[0] = 0x80; break;
	case 13: d[9] = 'a'; break;
	case 14: return DIAG_ERR_TIMEOUT;
	}
	return 10;
}
static void s_id(int p)
{
	(void)p;
	start();
	if (vmc_enum(2, "KWP71")) {
		nid = 1 + vmc_enum(4, "blocks");
		idkind = vmc_enum(7, "kind");
		runv("connect 0x10");
		runv("id");
		runv("id");
		runv("disconnect");
		nid = 4, idkind = 0;
		runv("id");
		/* an ECU of the other kind, then the same again without a new identification */
		int k = vmc_enum(2, "again");
		runv(k ? "connect 0x7a" : "connect 16");
		runv("id");
		vmc_state(nid * 10 + idkind + k * 100);
	} else {
		d2_kind = vmc_enum(17, "kind");
		reader = d2_reader;
		connected(DIAG_L2_PROT_D2, vmc_enum(2, "ECU") ? 0x01 : 0x7a);
		runv("id");
		vmc_state(1000 + d2_kind);
	}
	runv("id x");
	finish();
}
static void s_scan(int p)
{
	start();
	quiet = p == 0;
	reader = d2_reader;
	d2_kind = vmc_enum(3, "kind") * 7;
	static const int n[] = { 0, 3, -9 };
	dtcn = (int *)&n[vmc_enum(3, "DTCs")];
	int st = vmc_enum(4, "state");
	if (st)
		connected(protos[st - 1], 0x7a);
	runv("scan-all");
	runv("scan-all");
	finish();
	VMC_CHECK(env_live() == 0, "leak", "%ld blocks lost", env_live());
	vmc_state(st * 10 + d2_kind);
}
static int dr_kind;
static int dr_reader(int ns, int addr, int len, uint8_t *d)
{
	(void)ns;
	for (int i = 0; i < len; i++)
		d[i] = addr + i * 3 + (addr >> 8);
	switch (dr_kind) {
	case 1: if (addr >= 0x100 && addr < 0xf800) return DIAG_ERR_ECUSAIDNO; break;
	case 2: return DIAG_ERR_TIMEOUT;
	case 3: if (addr == 0) return DIAG_ERR_TIMEOUT; break;
	case 4: if (addr == 0xfff8) return DIAG_ERR_TIMEOUT; break;
	case 5: if (addr & 8) return DIAG_ERR_TIMEOUT; break;
	case 6: if (addr == 0xeff8 || addr == 0xf100) return DIAG_ERR_TIMEOUT; break;
	case 7: if (addr == 0xeff0) return DIAG_ERR_TIMEOUT; break;
	}
	return len;
}
static void s_dump(int p)
{
	(void)p;
	start();
	reader = dr_reader;
	dr_kind = vmc_enum(8, "memory");
	int f = vmc_enum(2, "fast");
	int st = vmc_enum(3, "state");
	connected(protos[st], 0x7a);
	int w = st ? 0 : vmc_enum(6, "writing");
	fopenfail = w == 1;
	wfail = w == 2 ? 1 : w == 3 ? 2 : w == 4 ? 30 : w == 5 ? 60 : 0;
	runv(f ? "dumpram DUMP fast" : "dumpram DUMP");
	wfail = fopenfail = 0;
	runv("dumpram");
	runv("dumpram DUMP slow");
	runv("dumpram DUMP fast fast");
	runv("ping");
	finish();
	VMC_CHECK(env_live() == 0, "leak", "%ld blocks lost", env_live());
	vmc_state(dr_kind * 100 + f * 10 + w);
}
static void s_send(int p)
{
	(void)p;
	static const int ns[] = { 1, 2, 3, 8, 15, 253, 254, 255, 256, 300, 998 };
	start();
	int pr = vmc_enum(3, "protocol");
	connected(protos[pr], 0x7a);
	int n = ns[vmc_enum(11, "bytes")];
	static char b[8][12];
	const char *av[1200] = { "sendreq" };
	int form = vmc_enum(3, "form");
	for (int i = 0; i < 8; i++)
		snprintf(b[i], 12, (const char *[]){ "%d", "0x%X", "0%o" }[form], (i * 37 + 11) & 0xff);
	for (int i = 0; i < n; i++)
		av[i + 1] = b[i & 7];
	run(n + 1, av);
	run(1, av);
	finish();
	VMC_CHECK(env_live() == 0, "leak", "%ld blocks lost", env_live());
	vmc_state(pr * 1000 + n);
}
static void s_connect(int p)
{
	(void)p;
	static const char *const names[] = { "abs", "m44old", "M44", "combi", "aw50", "psr", "m43", "nosuch", "", "?", "??", "0", "1", "0x10", "16", "020", "0x7a", "127", "0x7f", "128", "0x80", "300", "4294967297", "18446744073709551617", "7x", "0x", "-1", "+1", "08", "0x51 ", "combi2", "comb" };
	start();
	int st = vmc_enum(5, "state");
	if (st && st < 4)
		connected(protos[st - 1], vmc_enum(2, "high address") ? 0xf5 : 0x7a);
	if (st == 4)
		global_dl0d = NULL;
	nid = vmc_enum(2, "blocks") * 3;
	const char *av[4] = { "connect", names[vmc_enum(32, "name")], "x" };
	run(2, av);
	runv("ping");
	runv("id");
	run(2, av);
	run(3, av);
	run(1, av);
	runv("disconnect x");
	runv("disconnect");
	runv("disconnect");
	quiet = true;
	nid = 0;
	if (!M.conn && global_dl0d) {
		/* releases the identification kept */
		runv("connect 1");
		runv("disconnect");
	}
	finish();
	vmc_state(st * 100 + nid);
}
/* histories, with allocation failures */
static int alloc_hook(size_t n) { (void)n; return env_alloc_track && vmc_dev(2, "allocation fails"); }
static void s_history(int p)
{
	static const char *const l[] = { "connect m44", "connect m44old", "connect combi", "disconnect", "dtc", "cleardtc", "id", "freeze all", "read 2 3", "peek 0x30 live", "resetsrl", "scan-all", "peek 5.0x14", "freeze EFI-212 0x22", "adc 1", "ping" };
	start();
	replies = rp[0];
	nid = 3;
	/* one-of-a-kind problems are chosen among those of the last command only */
	int n = p % 10;
	if (p >= 10)
		env_alloc_hook = alloc_hook;
	for (int i = 0; i < n; i++) {
		quiet = i < n - 1 && p < 10;
		runv(l[vmc_enum(i == 0 ? 3 : p >= 10 ? 14 : 16, "command")]);
		vmc_state(M.conn * 7 + M.proto * 11 + M.dest * 13 + M.read * 17 + m_nid * 19);
	}
	env_alloc_hook = NULL;
	quiet = true;
	if (M.conn)
		runv("disconnect");
	/* a failing connection releases the identification kept */
	dtcn = NULL;
	nid = 0;
	connected(DIAG_L2_PROT_D2, 0x7a);
	runv("ping");
	finish();
}
/* no command does anything without a connection it can use */
static void s_states(int p)
{
	(void)p;
	static const char *const l[] = { "disconnect", "scan-all", "scan-all x", "sendreq 1", "sendreq", "ping", "ping x", "peek 1", "peek", "peek live", "peek stream", "peek 1 live live", "peek 1 live stream", "peek 1 stream live", "dumpram DUMP", "dumpram", "read 1", "read", "read live", "adc 1", "adc", "adc live", "readnv 1", "readnv", "readnv live", "id", "id x",
		"dtc", "dtc tips", "dtc x", "cleardtc", "cleardtc x", "freeze 1", "freeze all", "freeze", "freeze live", "freeze all 1", "resetsrl", "test", "test fan1", "test FAN2", "test fan1 x", "connect 1" };
	start();
	int st = vmc_enum(9, "state");
	if (st && st < 7)
		connected(protos[(st - 1) % 3], st < 4 ? 0x7a : 0x51);
	if (st >= 7)
		connected(protos[st - 7], 0x7a), withl3();
	replies = rp[vmc_enum(2, "replies") * 3];
	const char *c = l[vmc_enum(sizeof(l) / sizeof(l[0]), "command")];
	quiet = !strncmp(c, "dumpram D", 9);
	runv(c);
	quiet = false;
	int live = vmc_enum(3, "next");
	if (live)
		runv(live == 1 ? "peek 1 2 stream" : "disconnect");
	finish();
	VMC_CHECK(env_live() == 0, "leak", "%ld blocks lost", env_live());
	vmc_state(st);
}

const struct vmc_scenario vmc_scenarios[] = {
	{ "states", s_states, 0, 1, 2, 0, 2 },
	{ "args_peek", s_args, 0, 0, 1, 0, 2 },
	{ "args_read", s_args, 1, 0, 1, 0, 2 },
	{ "args_adc", s_args, 2, 0, 1, 0, 2 },
	{ "args_readnv", s_args, 3, 0, 1, 0, 2 },
	{ "args_freeze", s_args, 4, 0, 1, 0, 2 },
	{ "range", s_range, 0, 0, 0, 0, 1 },
	{ "answers", s_answers, 0, 1, 2, 0, 4 },
	{ "answers_l3", s_answers, 1, 0, 1, 0, 2 },
	{ "interp", s_interp, 0, 0, 0, 0, 8 },
	{ "dtc", s_dtc, 0, 0, 0, 0, 6 },
	{ "freeze", s_freeze, 0, 0, 0, 0, 4 },
	{ "clear", s_clear, 0, 1, 2, 0, 2 },
	{ "srl", s_srl, 0, 2, 3, 0, 2 },
	{ "id", s_id, 0, 1, 2, 0, 2 },
	{ "scan", s_scan, 0, 0, 0, 0, 1 },
	{ "scan_faults", s_scan, 1, 1, 2, 0, 3 },
	{ "dump", s_dump, 0, 0, 0, 0, 6 },
	{ "send", s_send, 0, 2, 2, 0, 2 },
	{ "connect", s_connect, 0, 2, 3, 0, 4 },
	{ "history3", s_history, 3, 1, 2, 0, 3 },
	{ "history4", s_history, 4, 0, 1, 0, 3 },
	{ "alloc2", s_history, 12, 1, 2, 0, 3 },
	{ "alloc3", s_history, 13, 1, 1, 0, 3 },
	{ 0 }
};
