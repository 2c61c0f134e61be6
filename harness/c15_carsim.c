/* C15: the simulated interface (CARSIM).
 * oracle: the file is generated from a structure; requests are matched and
 * responses computed from that structure, never from the text. */
#include "vmc.h"
#include "env.h"
#include "diag.h"
#include "diag_err.h"
#include "diag_cfg.h"
#include "diag_l0.h"
#include "diag_l1.h"
#include "diag_l2.h"
#include <math.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>

void vmc_process_init(void) { diag_init(); }

static struct diag_l0_device *dev;
static int mfd[2];
static char fname[2][300];
static FILE *F;

static void begin(void) {
	env_reset();
	env_alloc_mark();
	diag_geterr();
	/* of a pruned execution */
	if (F) {
		fclose(F);
		F = NULL;
	}
	if (dev) {
		diag_l0_close(dev);
		diag_l0_del(dev);
	dev = NULL;
		dev = NULL;
		env_alloc_mark();
	}
	for (int i = 0; i < 2; i++) {
		if (!mfd[i]) {
			mfd[i] = memfd_create("sim", 0);
		}
		snprintf(fname[i], sizeof(fname[i]), "/proc/self/fd/%d", mfd[i]);
	}
	F = fopen(fname[0], "w");
	if (!F) {
		vmc_error("cannot create %s", fname[0]);
	}
}
static void out(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
static void out(const char *fmt, ...) {
	char b[8000];
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(b, sizeof(b), fmt, ap);
	va_end(ap);
	fputs(b, F);
	if (vmc_replaying()) {
		vmc_log("file| %s", b);
	}
}
static void create(void) {
	fclose(F);
	F = NULL;
	dev = diag_l0_new("CARSIM");
	VMC_CHECK(dev != NULL, "new", "the simulator cannot be created");
	struct cfgi *c = diag_l0_getcfg(dev);
	VMC_CHECK(c && !strcmp(c->shortname, "simfile") && diag_cfg_setstr(c, fname[0]) == 0, "simfile", "the file cannot be set");
}
static void openit(int proto) {
	create();
	VMC_CHECK(diag_l0_open(dev, proto) == 0 && dev->opened, "open", "open failed");
}
static void end(void) {
	diag_l0_close(dev);
	VMC_CHECK(!dev->opened, "closed", "still open after close");
	diag_l0_del(dev);
	dev = NULL;
	if (env_live()) {
		env_alloc_dump();
	}
	VMC_CHECK(env_live() == 0, "leak", "%ld blocks still allocated", env_live());
}
/* what arrives: exactly resp (n < 0: nothing) */
static void expect(const uint8_t *resp, int n, int size) {
	uint8_t *b = malloc((size_t)size);
	memset(b, 0xA5, (size_t)size);
	int rv = diag_l0_recv(dev, b, (size_t)size, 100);
	int want = n < size ? n : size;
	if (n < 0) {
		VMC_CHECK(rv == DIAG_ERR_TIMEOUT, "extra", "%d bytes received, nothing expected", rv);
	} else {
		VMC_CHECK(rv == want, "count", "received %d, expected %d bytes", rv, want);
		for (int i = 0; i < want; i++) {
			VMC_CHECK(b[i] == resp[i], "byte", "byte %d of the response is %02x, expected %02x", i, b[i], resp[i]);
		}
	}
	vmc_state(vmc_hash(b, (size_t)size, (uint64_t)rv));
	free(b);
}
static void request(const uint8_t *d, int n) {
	uint8_t *b = malloc((size_t)n + 1);     /* exact size: ASan */
	memcpy(b, d, (size_t)n);
	uint8_t *e = malloc((size_t)n);
	memcpy(e, d, (size_t)n);
	free(b);
	if (vmc_replaying()) {
		vmc_loghex("request", d, (size_t)n);
	}
	int rv = diag_l0_send(dev, e, (size_t)n);
	VMC_CHECK(rv == 0, "send", "sending %d bytes failed (%d)", n, rv);
	free(e);
}

/* ---- which request line matches ---- */
#define ANY 0x100
static const struct { uint8_t n; uint16_t d[4]; } pat[] = {
	{2, {0x01, 0x02}}, {2, {0x01, ANY}}, {1, {0x01}}, {4, {0x02, 0x01, ANY, 0x03}}, {1, {ANY}}, {3, {0x01, 0x02, 0x03}}, {3, {ANY, 0x02, ANY}}, {2, {0xFF, 0x80}},
};
#define NPAT 8
static const char *const comment[] = {"", "# RQ 0x01 0x02\n# RP 0x99\n", "\n", "     \t\n", " RQ 0x01\n RP 0x98\n", "CFG P_RAW\n"};
static void rq(int k, int style) {
	out("RQ");
	for (int i = 0; i < pat[k].n; i++) {
		uint16_t v = pat[k].d[i];
		const char *sp = style == 1 ? "\t  " : " ";
		if (v == ANY) {
			out("%sXXXX", sp);
		} else {
			out(style == 2 ? "%s%02x" : style == 3 ? "%s0X%X" : "%s0x%02x", sp, v);
		}
	}
	out(style == 1 ? "  \n" : style == 2 ? "\r\n" : "\n");
}
static void match(int nrq) {
	int pk[3], nr[3], cm = 0;
	begin();
	int style = nrq == 3 ? 0 : vmc_enum(4, "style");
	if (nrq == 2) {
		cm = vmc_enum(6, "between");
	}
	for (int i = 0; i < nrq; i++) {
		pk[i] = vmc_enum(NPAT, "RQ line");
		nr[i] = vmc_enum(3, "responses");
		if (nrq == 1) {
			cm = vmc_enum(6, "between");
		}
		out("%s", comment[cm]);
		rq(pk[i], style);
		for (int k = 0; k < nr[i]; k++) {
			if (cm) {
				out("%s", comment[cm]);
			}
			bool last = i == nrq - 1 && k == nr[i] - 1;
			out(style == 2 ? "RP %02x %02X 07\r\n" : style == 1 ? "RP\t0x%x  0x%X 0x7 \n" : style == 3 && last ? "RP 0x%02x 0x%02x 0x07" : "RP 0x%02x 0x%02x 0x07\n", 0x40 + i, 0xF0 + k);
		}
	}
	openit(DIAG_L1_RAW);
	static const uint8_t vals[] = {0x01, 0x02, 0x03, 0xFF, 0x80};
	/* two requests, one after the other */
	for (int r = 0; r < 2; r++) {
		uint8_t d[5];
		int n = 2;
		if (r == 0 && nrq == 1) {
			n = 1 + vmc_enum(5, "request length");
			for (int i = 0; i < n && i < 3; i++) {
				d[i] = vals[vmc_enum(i == 2 ? 3 : 5, "request byte")];
			}
			if (n > 3) {
				d[3] = 0x03;
				d[4] = 0x05;
			}
		} else if (r == 0) {
			static const uint8_t rs[][6] = {{1, 1}, {1, 2}, {2, 1, 2}, {2, 1, 1}, {2, 0xFF, 0x80}, {3, 1, 2, 3}, {3, 3, 2, 1}, {3, 1, 2, 4}, {4, 2, 1, 9, 3}, {4, 2, 1, 9, 4}, {5, 2, 1, 0xFF, 3, 0}, {2, 0xFF, 0x7F}};
			const uint8_t *q = rs[vmc_enum(12, "request")];
			n = q[0];
			memcpy(d, q + 1, (size_t)n);
		} else {
			d[0] = 0x01;
			d[1] = 0x02;
		}
		int hit = -1;
		for (int i = 0; i < nrq && hit < 0; i++) {
			bool ok = true;
			int m = pat[pk[i]].n;
			for (int k = 0; k < m && k < n; k++) {
				ok &= pat[pk[i]].d[k] == ANY || pat[pk[i]].d[k] == d[k];
			}
			if (ok && m > n) {
				/* the file's description and the code disagree about requests shorter than the line */
				vmc_prune();
			}
			if (ok) {
				hit = i;
			}
		}
		request(d, n);
		for (int k = 0; hit >= 0 && k < nr[hit]; k++) {
			uint8_t w[3] = {(uint8_t)(0x40 + hit), (uint8_t)(0xF0 + k), 7};
			if (k == 0) {
				uint8_t x = 1;
				VMC_CHECK(diag_l0_send(dev, &x, 1) < 0, "pending", "a request accepted while responses are waiting");
			}
			expect(w, 3, 64);
		}
		expect(NULL, -1, 64);
		expect(NULL, -1, 1);
	}
	end();
}

/* ---- substitutions ---- */
static const struct { const char *t; int kind, v; } tk[] = {
	{"0x41", 0, 0x41}, {"41", 0, 0x41}, {"0xff", 0, 0xFF}, {"0XFF", 0, 0xFF}, {"5", 0, 5}, {"0x00", 0, 0}, {"req1", 1, 1}, {"req2", 1, 2}, {"req3", 1, 3},
	{"req1+", 2, 1}, {"req2+", 2, 2}, {"req03", 1, 3}, {"cks1", 3, 0}, {"swt1", 4, 0}, {"sin1", 5, 0},
};
#define NTK 15
static bool near(int a, int b) { return a - b <= 1 && b - a <= 1; }
static void subst(int n) {
	static const uint8_t reqs[][3] = {{0x10, 0x20, 0x30}, {0xFF, 0x00, 0x7F}, {0x80, 0xFF, 0x01}};
	static const int times[] = {0, 1, 2, 100, 249, 250, 255, 256, 333, 499, 500, 501, 666, 750, 900, 998, 999};
	begin();
	int t[4], ms = 0;
	out("RQ 0x%s\nRP", "10");
	out("\nRQ XXXX\nRP");
	bool timed = false;
	for (int i = 0; i < n; i++) {
		t[i] = vmc_enum(NTK, "element");
		timed |= tk[t[i]].kind >= 4;
		out(" %s", tk[t[i]].t);
	}
	out("\nRP 0x99 cks1 cks1\n");
	const uint8_t *rq = reqs[vmc_enum(3, "request")];
	if (rq[0] == 0x10) {
		/* first line of this file: an empty response */
		vmc_prune();
	}
	if (timed) {
		int k = vmc_enum(17 + 2, "time");
		ms = k < 17 ? times[k] : 7000 + times[k - 10];
	}
	openit(DIAG_L1_RAW);
	env_now = T0 + (uint64_t)ms * 1000;
	unsigned long now = (unsigned long)(T0 / 1000) + (unsigned long)ms;
	request(rq, 3);
	uint8_t b[300];
	int rv = diag_l0_recv(dev, b, sizeof(b), 100);
	VMC_CHECK(rv == n, "count", "%d bytes received, the line has %d elements", rv, n);
	uint8_t sum = 0;
	for (int i = 0; i < n; i++) {
		int k = tk[t[i]].kind, v = tk[t[i]].v;
		double ph = (double)(now % 1000) / 1000;
		if (k == 4) {
			/* proportional to the time within the second */
			VMC_CHECK(near(b[i], (int)(255 * ph)), "swt1", "sawtooth is %d at %lu ms", b[i], now % 1000);
		} else if (k == 5) {
			double s = 127 * sin(2 * 3.14159265358979 * ph);
			VMC_CHECK(near((int8_t)b[i], (int)s) || near(b[i], (int)(127.5 + s)), "sin1", "sine is %d at %lu ms", b[i], now % 1000);
		} else {
			int w = k == 0 ? v : k == 1 ? rq[v - 1] : k == 2 ? (uint8_t)(rq[v - 1] + 1) : sum;
			VMC_CHECK(b[i] == w, "subst", "element %s gives %02x, expected %02x", tk[t[i]].t, b[i], w);
		}
		sum = (uint8_t)(sum + b[i]);
	}
	uint8_t second[3] = {0x99, 0x99, 0x32};
	expect(second, 3, 300);
	expect(NULL, -1, 300);
	end();
}

/* ---- sizes ---- */
static void sizes(int p) {
	static const int rl[] = {1, 2, 7, 63, 64, 100, 127, 128, 129, 200, 254, 255, 256, 257, 259, 260};
	static const int sz[] = {1, 2, 255, 259, 260, 261, 1024};
	static const int ix[] = {1, 2, 9, 10, 99, 100, 127, 128, 255, 256, 257, 258, 259, 260};
	begin();
	uint8_t d[260], w[260];
	int len = rl[vmc_enum(16, "response length")];
	int size = sz[vmc_enum(7, "read size")];
	int form = vmc_enum(3, "form");
	int rlen = form == 2 ? 260 : rl[vmc_enum(16, "request length")];
	for (int i = 0; i < rlen; i++) {
		d[i] = (uint8_t)(i * 7 + (i >> 8) + 1);
	}
	int q = vmc_enum(3, "RQ line");
	int qn = q == 0 ? 1 : q == 1 ? (rlen < 8 ? rlen : 8) : rlen;
	out("RQ");
	for (int i = 0; i < qn; i++) {
		if (q == 2 && (i & 1)) {
			out(" XXXX");
		} else {
			out(" 0x%02x", d[i]);
		}
	}
	out("\nRP");
	int idx = ix[vmc_enum(form == 2 ? 14 : 1, "index")];
	for (int i = 0; i < len; i++) {
		if (form == 0) {
			w[i] = (uint8_t)(i * 3);
			out(" 0x%02X", w[i]);
		} else if (form == 1) {
			w[i] = (uint8_t)(d[0] + 1);
			out(" req001+");
		} else {
			w[i] = d[idx - 1];
			out(" req%d", idx);
		}
	}
	out("\nRP 0x01\n");
	openit(DIAG_L1_ISO14230);
	request(d, rlen);
	expect(w, len, size);
	expect((uint8_t *)"\1", 1, size);
	expect(NULL, -1, size);
	end();
}
static void toolong(int p) {
	static const int rl[] = {260, 261, 262, 1000, 0};
	begin();
	out("RQ XXXX\nRP 0x01\n");
	openit(DIAG_L1_RAW);
	uint8_t d[1000] = {0};
	int n = rl[vmc_enum(5, "request length")];
	int rv = diag_l0_send(dev, d, (size_t)n);
	VMC_CHECK((rv == 0) == (n == 260) && rv <= 0, "toolong", "sending %d bytes gives %d", n, rv);
	VMC_CHECK(diag_l0_recv(dev, d, 0, 10) < 0, "zero", "reading 0 bytes is no error");
	expect((uint8_t *)"\1", n == 260 ? 1 : -1, 5);
	end();
}
/* many responses */
static void many(int p) {
	static const int cn[] = {1, 2, 3, 254, 255, 256, 257, 258, 511, 512, 513, 700};
	int n = cn[vmc_enum(12, "responses")];
	int readall = vmc_enum(2, "all read");
	begin();
	out("RQ 0x02\nRP 0x77\nRQ 0x01\n");
	for (int i = 0; i < n; i++) {
		out("RP 0x%02x 0x%02x req1\n", i & 0xff, i >> 8);
	}
	out("RQ 0x03\nRP 0x78\n");
	openit(DIAG_L1_RAW);
	request((uint8_t *)"\1", 1);
	for (int i = 0; i < (readall ? n : n / 2); i++) {
		uint8_t w[3] = {(uint8_t)i, (uint8_t)(i >> 8), 1};
		expect(w, 3, 10);
	}
	if (readall) {
		expect(NULL, -1, 10);
		request((uint8_t *)"\3", 1);
		expect((uint8_t *)"\x78", 1, 10);
		expect(NULL, -1, 10);
	}
	end();
}

/* ---- configuration lines ---- */
static const char *const opt[] = {"DATAONLY", "NOL2CKSUM", "FRAMED", "FULLINIT"};
static const char *const pn[] = {"", "P_9141", "P_14230", "P_J1850P", "P_J1850V", "P_RAW", "P_CAN"};
static const int pv[] = {0, DIAG_L1_ISO9141, DIAG_L1_ISO14230, DIAG_L1_J1850_PWM, DIAG_L1_J1850_VPW, DIAG_L1_RAW, DIAG_L1_CAN};
static uint32_t wantflags(int mask) {
	uint32_t f = DIAG_L1_SLOW | DIAG_L1_FAST | DIAG_L1_PREFFAST | DIAG_L1_DOESP4WAIT | DIAG_L1_AUTOSPEED | DIAG_L1_NOTTY;
	if (mask & 1) {
		f |= DIAG_L1_DOESL2CKSUM | DIAG_L1_STRIPSL2CKSUM | DIAG_L1_DOESL2FRAME | DIAG_L1_NOHDRS | DIAG_L1_DATAONLY;
	}
	if (mask & 2) {
		f |= DIAG_L1_DOESL2CKSUM | DIAG_L1_STRIPSL2CKSUM | DIAG_L1_DOESL2FRAME;
	}
	if (mask & 4) {
		f |= DIAG_L1_DOESL2FRAME;
	}
	if (mask & 8) {
		f |= DIAG_L1_DOESFULLINIT;
	}
	return f;
}
static void writecfg(int mask, int proto, int order, const char *nl) {
	for (int i = 0; i < 4; i++) {
		int k = order ? 3 - i : i;
		if (mask & 1 << k) {
			out("CFG %s%s", opt[k], nl);
		}
	}
	if (proto) {
		out("CFG %s%s", pn[proto], nl);
	}
}
static void config(int p) {
	int mask = vmc_enum(16, "options");
	if ((mask & 3) == 3) {
		vmc_prune();    /* which of the two wins is not clear */
	}
	int proto = vmc_enum(7, "restriction");
	int order = vmc_enum(2, "order");
	int where = vmc_enum(3, "where");
	int ask = 1 + vmc_enum(5, "protocol");
	begin();
	const char *nl = vmc_enum(2, "line end") ? "\r\n" : "\n";
	if (where == 1) {
		out("# a comment which is long enough to matter  CFG DATAONLY\n\nRQ 0x01\nRP 0x41\n");
	}
	writecfg(mask, proto, order, nl);
	if (where != 1) {
		out("RQ 0x01%sRP 0x41%s", nl, nl);
	}
	if (where == 2) {
		out("CFG P_CAN%s", nl);
		proto = 6;
	}
	create();
	int rv = diag_l0_open(dev, pv[ask]);
	bool want = (proto == 0 || proto == ask);
	VMC_CHECK((rv == 0) == want && dev->opened == want, "restrict", "open with %s, file restricted to %s: %d", pn[ask], pn[proto], rv);
	if (!want) {
		diag_l0_del(dev);
	dev = NULL;
		VMC_CHECK(env_live() == 0, "leak", "%ld blocks still allocated", env_live());
		return;
	}
	uint32_t f = diag_l0_getflags(dev);
	VMC_CHECK(f == wantflags(mask), "flags", "flags %x, expected %x for options %x", f, wantflags(mask), mask);
	request((uint8_t *)"\1", 1);
	expect((uint8_t *)"\x41", 1, 10);
	/* another file, same device */
	diag_l0_close(dev);
	int mask2 = vmc_enum(16, "options of the second file");
	if ((mask2 & 3) == 3) {
		mask2 &= ~2;
	}
	F = fopen(fname[1], "w");
	writecfg(mask2, 0, 0, "\n");
	out("RQ 0x01\nRP 0x42\n");
	fclose(F);
	F = NULL;
	VMC_CHECK(diag_cfg_setstr(diag_l0_getcfg(dev), fname[1]) == 0, "setstr", "file not set");
	VMC_CHECK(diag_l0_open(dev, DIAG_L1_ISO9141) == 0, "reopen", "second file refused");
	f = diag_l0_getflags(dev);
	VMC_CHECK(f == wantflags(mask2), "reflags", "flags %x after the second open, expected %x", f, wantflags(mask2));
	request((uint8_t *)"\1", 1);
	expect((uint8_t *)"\x42", 1, 10);
	end();
}
/* comments are no configuration, whatever their length */
static void commentlen(int p) {
	int n = vmc_enum(70, "column");
	int what = vmc_enum(3, "text");
	int end_ = vmc_enum(2, "trailing");
	begin();
	out("#%*s%s%s\n", n, "", what == 0 ? "CFG DATAONLY" : what == 1 ? "CFG P_CAN" : "CFG FULLINIT", end_ ? " and more text" : "");
	out("CFG NOL2CKSUM\n%*sRQ 0x01\nRQ 0x01\nRP 0x41\n", n, "#");
	openit(DIAG_L1_ISO9141);
	uint32_t f = diag_l0_getflags(dev);
	VMC_CHECK(f == wantflags(2), "commentflags", "flags %x, expected %x", f, wantflags(2));
	end();
}
/* very long comment lines do not turn into requests or responses */
static void longcomment(int p) {
	int n = 1290 + vmc_enum(40, "length");
	int what = vmc_enum(2, "text");
	begin();
	out("RQ 0x01\n#");
	for (int i = 1; i < n; i++) {
		out("x");
	}
	out("%s\nRP 0x41\n", what ? "RP 0x99" : "RQ 0x99");
	openit(DIAG_L1_RAW);
	request((uint8_t *)"\1", 1);
	expect((uint8_t *)"\x41", 1, 10);
	expect(NULL, -1, 10);
	end();
}

/* ---- any file ---- */
static const char *const junk[] = {
	"RQ 0x01\n", "RP 0x41\n", "RQ\n", "RQ", "RP\n", "RP", "RP \n", "RP zz\n", "RP 0x41 zz 0x42\n", "RQ XXXX\n", "RQ 0x01zz 0x02\n", "RQ XXXXXXXX\n", "R", "CFG", "CFG\n",
	"RP req\n", "RP req0 req-1\n", "RP req999+ req1++ req261\n", "RP 0x1FF -1 0x\n", "\r", "RP\t\n", "RQ 0x01", "RP cks1",
};
#define NJUNK 23
static void junkfile(int n) {
	begin();
	for (int i = 0; i < n; i++) {
		out("%s", junk[vmc_enum(NJUNK, "line")]);
	}
	if (vmc_enum(2, "big")) {
		int big = vmc_enum(4, "what");
		out(big & 1 ? "RP" : "RQ");
		for (int i = 0; i < (big & 2 ? 700 : 261); i++) {
			out(" 0x01");
		}
	}
	openit(DIAG_L1_RAW);
	for (int r = 0; r < 2; r++) {
		uint8_t d[2] = {1, 2};
		int rv = diag_l0_send(dev, d, (size_t)r + 1);
		VMC_CHECK(rv == 0, "send", "send failed (%d)", rv);
		int k;
		for (k = 0; k < 20; k++) {
			uint8_t *b = malloc(300);
			rv = diag_l0_recv(dev, b, 300, 10);
			VMC_CHECK(rv != 0 && rv <= 260, "rv", "recv gives %d", rv);
			unsigned s = 0;
			for (int i = 0; i < rv; i++) {
				s += b[i];
			}
			vmc_state(s + (unsigned)rv * 77);
			free(b);
		}
	}
	end();
}

/* ---- bus initialisation ---- */
static void initbus(int p) {
	int full = vmc_enum(2, "full init");
	int type = vmc_enum(4, "type");
	static const int types[] = {DIAG_L1_INITBUS_5BAUD, DIAG_L1_INITBUS_FAST, DIAG_L1_INITBUS_2SLOW, 77};
	int addr = vmc_enum(3, "address");
	int pend = vmc_enum(2, "pending");
	int sync = vmc_enum(2, "sync");
	begin();
	if (full) {
		out("CFG FULLINIT\n");
	}
	out("RQ 0x99\nRP 0x11\nRP 0x12\nRP 0x13\nRQ 0x33\n%sRP 0x08\nRP 0x09\nRQ 0x00\nRP 0x0A\nRQ 0xFF\n", sync ? "RP 0x55\n" : "");
	openit(DIAG_L1_ISO9141);
	if (pend) {
		request((uint8_t *)"\x99", 1);
		expect((uint8_t *)"\x11", 1, 3);
	}
	struct diag_l1_initbus_args a;
	memset(&a, 0, sizeof(a));
	a.type = types[type];
	a.addr = (uint8_t[]){0x33, 0x00, 0xFF}[addr];
	a.testerid = 0xF1;
	int rv = diag_l0_ioctl(dev, DIAG_IOCTL_INITBUS, &a);
	VMC_CHECK((rv == 0) == (full || type < 2), "init", "initialisation %d gives %d", type, rv);
	if (!full && type == 0) {
		if (addr == 0 && sync) {
			expect((uint8_t *)"\x08", 1, 3);
		}
		if (addr == 0) {
			expect((uint8_t *)"\x09", 1, 3);
		}
	} else if (!full && type == 1) {
		expect((uint8_t *)"\x0A", 1, 3);
	}
	expect(NULL, -1, 3);
	VMC_CHECK(diag_l0_ioctl(dev, 0x7777, NULL) < 0, "ioctl", "unknown ioctl accepted");
	end();
}
/* no file, file unreadable, allocation failures */
static int failalloc(size_t n) { return vmc_dev(2, "allocation fails"); }
static void faults(int p) {
	begin();
	int kind = vmc_enum(3, "file");
	out("RQ 0x01\nRP 0x41 0x42\nRP 0x43\n");
	create();
	if (kind) {
		VMC_CHECK(diag_cfg_setstr(diag_l0_getcfg(dev), kind == 1 ? "/nonexistent/file" : "") == 0, "setstr", "cannot set");
	}
	int rv = diag_l0_open(dev, DIAG_L1_RAW);
	VMC_CHECK((rv == 0) == (kind == 0) && dev->opened == (kind == 0), "openfail", "open gives %d", rv);
	if (kind) {
		diag_l0_del(dev);
	dev = NULL;
		VMC_CHECK(env_live() == 0, "leak", "leak");
		return;
	}
	env_alloc_hook = failalloc;
	for (int i = 0; i < 2; i++) {
		uint8_t b[4];
		rv = diag_l0_send(dev, "\1", 1);
		VMC_CHECK(rv <= 0, "send", "send gives %d", rv);
		for (int k = 0; k < 3; k++) {
			rv = diag_l0_recv(dev, b, 4, 10);
			VMC_CHECK(rv < 0 || (rv == 2 && b[0] == 0x41 && b[1] == 0x42) || (rv == 1 && b[0] == 0x43), "wrong", "recv gives %d", rv);
		}
	}
	env_alloc_hook = NULL;
	end();
}

const struct vmc_scenario vmc_scenarios[] = {
	{"match1", match, 1, 0, 0, VMC_INPROC, 8},
	{"match2", match, 2, 0, 0, VMC_INPROC, 8},
	{"match3", match, 3, 0, 0, VMC_INPROC, 16},
	{"subst1", subst, 1, 0, 0, VMC_INPROC, 1},
	{"subst2", subst, 2, 0, 0, VMC_INPROC, 4},
	{"subst3", subst, 3, 0, 0, VMC_INPROC, 8},
	{"subst4", subst, 4, 0, 0, VMC_INPROC | VMC_THOROUGH_ONLY, 16},
	{"sizes", sizes, 0, 0, 0, VMC_INPROC, 8},
	{"toolong", toolong, 0, 0, 0, VMC_INPROC, 1},
	{"many", many, 0, 0, 0, VMC_INPROC, 4},
	{"config", config, 0, 0, 0, VMC_INPROC, 8},
	{"commentlen", commentlen, 0, 0, 0, VMC_INPROC, 1},
	{"longcomment", longcomment, 0, 0, 0, VMC_INPROC, 1},
	{"junk1", junkfile, 1, 0, 0, VMC_INPROC, 1},
	{"junk2", junkfile, 2, 0, 0, VMC_INPROC, 4},
	{"junk3", junkfile, 3, 0, 0, VMC_INPROC, 8},
	{"junk4", junkfile, 4, 0, 0, VMC_INPROC | VMC_THOROUGH_ONLY, 16},
	{"initbus", initbus, 0, 0, 0, VMC_INPROC, 1},
	{"faults", faults, 0, 2, 3, VMC_INPROC, 1},
	{0}
};
