/* C20: the ELM32x driver against a model of the adapter.
 * oracle: after a successful open the adapter is configured (echo off, linefeeds off, headers
 * on, memory off, protocol) with commands it supports; what is sent is the hex text of the
 * data; what is received is the data of the line printed, and nothing but data. */
#include "ttyh.h"
#include <ctype.h>

void vmc_process_init(void) { diag_init(); }

/* ---------------- the adapter */
struct ident { const char *text; bool is323, clone; };
static const struct ident idents[] = {
	{"ELM327 v1.3a", 0, 0}, {"ELM323 v2.0", 1, 0}, {"ELM327 v1.5", 0, 1}, {"ELM327 v1.4b", 0, 0}, {"ELM327 v1.4", 0, 1}, {"ELM327 v2.1", 0, 1},
	{"ELM327 v9.9", 0, 1}, {"ELM327 v1.0", 0, 0}, {"STN1110 v4.0", 0, 0},
};
static const struct ident *id;
static struct {
	int echo, lf, hdr, mem, tp;
	int sh[3], wm[4], iia, kw0, al, sr;
	bool businit;           /* the bus was initialised */
	bool open, pc;
	int kb1, kb2;
	bool kbshown;
} elm;
static char cmd[2100];
static int ncmd;
static unsigned elmspeed;
static bool late;               /* the adapter takes its time */
static bool devs;               /* replies may go wrong */
static int nbad;                /* configuration commands without a proper answer */
static bool atshbad, lastbad, unjudged;
static int lastdev;
static int nati, ndata, unsupported;
static uint8_t sent[1100];      /* the last data request, decoded */
static int nsent;
static const char *datareply;
static const char *const err323[] = {"BUS BUSY", "FB ERROR", "DATA ERROR", "41 00 <DATA ERROR", "NO DATA", "?", "BUS INIT: ...ERROR"};
static const char *const err327[] = {"BUS BUSY", "FB ERROR", "DATA ERROR", "41 00 <DATA ERROR", "NO DATA", "?", "ACT ALERT", "BUFFER FULL", "BUS ERROR", "CAN ERROR", "LP ALERT", "LV RESET", "41 <RX ERROR", "STOPPED", "UNABLE TO CONNECT", "ERR94", "BUS INIT: ERROR"};

static void put(const char *s) { tt_push(s, strlen(s)); }
static void nl(void) { put(elm.lf ? "\r\n" : "\r"); }
static unsigned latest;         /* the time of the present command, ms */
static void reply(const char *text) {
	if (late) {
		tt_push1(TT_WAIT(latest));
	}
	if (elm.echo) {
		put(cmd);
		nl();
	}
	put(text);
	nl();
	nl();
	put(">");
}
/* an answer which is not the right one; returns true if it happened */
static bool goeswrong(bool ends) {
	lastbad = false;
	if (!devs) {
		return false;
	}
	int k = vmc_dev(8, "answer");
	if (!k) {
		return false;
	}
	lastbad = true;
	lastdev = k;
	switch (k) {
	case 1: break;                          /* none */
	case 2: {                               /* an error text */
		int n = id->is323 ? 7 : 17;
		reply((id->is323 ? err323 : err327)[vmc_enum(n, "error text")]);
		break;
	}
	case 3: put("OK\r\r"); break;           /* no prompt */
	case 4: reply("XYZ"); break;            /* garbage */
	case 5:                                 /* too long */
		for (int i = 0; i < 1200; i++) {
			tt_push1('A' + i % 20);
		}
		put(">");
		break;
	case 6: put(">"); break;                /* nothing but a prompt */
	case 7: {                               /* the port fails */
		tt_push1(TT_ERR);
		break;
	}
	}
	return true;
}
static bool hexd(const char *s, int *v) {
	if (!isxdigit((unsigned char)s[0]) || !isxdigit((unsigned char)s[1])) {
		return false;
	}
	*v = (int)strtol((char[]){s[0], s[1], 0}, NULL, 16);
	return true;
}
/* "ATSH" and so on: n hex bytes separated by blanks */
static bool args(const char *s, int n, int *v) {
	for (int i = 0; i < n; i++) {
		if (*s++ != ' ' || !hexd(s, &v[i])) {
			return false;
		}
		s += 2;
	}
	return *s == 0;
}
static unsigned datalatest;
static void process(void) {
	int v[4];
	vmc_log("COMMAND %s", cmd);
	if (elmspeed != tt.speed) {
		return;
	}
	latest = 300;
	if (strncmp(cmd, "AT", 2)) {
		/* data for the bus */
		latest = datalatest;
		ndata++;
		nsent = 0;
		int l = (int)strlen(cmd);
		VMC_CHECK(l % 2 == 0 && l, "hex", "data command of %d characters", l);
		for (int i = 0; i < l; i += 2) {
			int b;
			VMC_CHECK(hexd(cmd + i, &b), "hex", "data command with characters %c%c", cmd[i], cmd[i + 1]);
			sent[nsent++] = (uint8_t)b;
		}
		if (devs && (lastdev = 0, goeswrong(true))) {
			/* any text with a prompt and no error counts as an initialised bus */
			unjudged = lastdev >= 4 && lastdev <= 6;
			return;
		}
		elm.businit = true;
		reply(datareply ? datareply : "BUS INIT: OK\r41 00 BE 1F B8 10");
		return;
	}
	const char *c = cmd + 2;
	bool ok = true;
	if (!strcmp(c, "I")) {
		nati++;
		if (!goeswrong(true)) {
			reply(id->text);
		}
		return;
	}
	if (goeswrong(false)) {
		if (!strncmp(c, "SH", 2)) {
			atshbad = true;
		}
		nbad++;
		return;
	}
	if (!strcmp(c, "Z")) {
		elm.echo = elm.lf = elm.mem = 1;
		elm.hdr = 0;
		elm.tp = elm.iia = elm.kw0 = elm.al = elm.sr = -1;
		elm.sh[0] = elm.wm[0] = -1;
		elm.businit = false;
		latest = 900;
		reply(id->text);
		return;
	} else if (!strcmp(c, "E0")) {
		reply("OK");
		elm.echo = 0;
		return;
	} else if (!strcmp(c, "L0")) {
		elm.lf = 0;
	} else if (!strcmp(c, "H1")) {
		elm.hdr = 1;
	} else if (!strcmp(c, "M0")) {
		ok = !id->is323;
		elm.mem = 0;
	} else if (!strncmp(c, "TP", 2)) {
		ok = !id->is323 && c[2] >= '0' && c[2] <= '9' && !c[3];
		elm.tp = c[2] - '0';
	} else if (!strcmp(c, "PC")) {
		elm.pc = true;
	} else if (!strncmp(c, "SH", 2) && args(c + 2, 3, v)) {
		memcpy(elm.sh, v, sizeof(elm.sh));
	} else if (!strncmp(c, "SR", 2) && args(c + 2, 1, v)) {
		elm.sr = v[0];
	} else if (!strncmp(c, "WM", 2) && args(c + 2, 4, v)) {
		ok = !id->is323;
		memcpy(elm.wm, v, sizeof(elm.wm));
	} else if (!strncmp(c, "IIA", 3) && args(c + 3, 1, v)) {
		ok = !id->is323;
		elm.iia = v[0];
	} else if (!strcmp(c, "KW0")) {
		if (id->clone) {
			reply("?");
			return;
		}
		ok = !id->is323;
		elm.kw0 = 1;
	} else if (!strcmp(c, "FI") || !strcmp(c, "SI")) {
		ok = !id->clone;
		elm.businit = true;
		latest = c[0] == 'F' ? 500 : 2600;
		reply("BUS INIT: OK");
		return;
	} else if (!strcmp(c, "KW")) {
		char t[40];
		if (id->clone) {
			reply("?");
			return;
		}
		elm.kbshown = true;
		snprintf(t, sizeof(t), "1:%02X 2:%02X", (unsigned)elm.kb1, (unsigned)elm.kb2);
		reply(t);
		return;
	} else if (!strcmp(c, "AL")) {
		elm.al = 1;
	} else {
		ok = false;
	}
	if (!ok) {
		unsupported++;
		vmc_fail("unsupported", "command AT%s sent to %s", c, id->text);
	}
	reply("OK");
}
static int h_write(const uint8_t *d, size_t n) {
	for (size_t i = 0; i < n; i++) {
		if (d[i] == '\r') {
			cmd[ncmd] = 0;
			process();
			ncmd = 0;
		} else if (ncmd < (int)sizeof(cmd) - 1) {
			VMC_CHECK(d[i] >= ' ' && d[i] < 0x7f, "chars", "character %02x sent to the adapter", d[i]);
			cmd[ncmd++] = (char)d[i];
		}
	}
	return 0;
}
static bool ttyfailed;
static int h_fail(int op) {
	int k = devs && op != T_IFLUSH ? vmc_dev(2 + (op == T_WRITE), "port fails") : 0;
	if (k) {
		ttyfailed = true;
		return k == 2 ? 1 : DIAG_ERR_GENERAL;
	}
	return 0;
}

static struct diag_l0_device *d;
static int opens;
static void begin(void) {
	env_reset();
	/* what a pruned execution left */
	if (d) {
		tt.isopen = 0;
		d = NULL;
	}
	env_alloc_mark();
	tt_reset();
	memset(&elm, 0, sizeof(elm));
	elm.echo = elm.lf = elm.mem = 1;
	elm.tp = elm.iia = elm.kw0 = elm.al = elm.sr = elm.sh[0] = elm.wm[0] = -1;
	elm.kb1 = 0x08;
	elm.kb2 = 0x94;
	ncmd = nbad = nati = ndata = unsupported = nsent = 0;
	atshbad = ttyfailed = devs = late = false;
	datalatest = 0;
	datareply = NULL;
	elmspeed = 38400;
	tt.onwrite = h_write;
	tt.fail = h_fail;
	tt.bytetime_us = 100;
	d = diag_l0_new("ELM");
	VMC_CHECK(d, "new", "no ELM driver instance");
	diag_geterr();
}
static void finish(void) {
	devs = false;
	diag_l0_debug = 0;
	diag_l0_del(d);
	d = NULL;
	if (env_live()) {
		env_alloc_dump();
	}
	VMC_CHECK(env_live() == 0, "leak", "%ld blocks still allocated", env_live());
	VMC_CHECK(tt.nopen >= tt.nclose && !tt.isopen, "portleft", "the port is left open");
}
static void doclose(void) {
	diag_l0_close(d);
	VMC_CHECK(!tt.isopen && !d->opened, "close", "close left the port open");
	VMC_CHECK(elm.pc, "pc", "the adapter was not told to close the protocol");
}

static const int protos[] = {DIAG_L1_ISO9141, DIAG_L1_ISO14230, DIAG_L1_J1850_VPW, DIAG_L1_J1850_PWM, DIAG_L1_CAN};

static void xopen(int p) {
	begin();
	id = &idents[vmc_enum(9, "adapter")];
	int proto = protos[vmc_enum(5, "protocol")];
	static const unsigned speeds[] = {38400, 9600, 115200, 57600, 1};
	elmspeed = speeds[vmc_enum(5, "adapter speed")];
	int cust = (int[]){38400, 57600, 9600}[vmc_enum(3, "configured speed")];
	int dirty = vmc_enum(3, "state");
	struct cfgi *c = diag_l0_getcfg(d);
	for (; c && strcmp(c->shortname, "elmspeed"); c = c->next) {
	}
	VMC_CHECK(c && diag_cfg_setint(c, cust) == 0, "cfg", "no speed item");
	bool reach = elmspeed == (unsigned)cust || elmspeed == 38400 || elmspeed == 9600 || elmspeed == 115200;
	if (dirty == 1) {
		elm.echo = elm.lf = 0;
	} else if (dirty == 2) {
		tt_push("\xff\x00>?", 4);
	}
	int again = p && vmc_enum(2, "twice");
	for (int k = 0; k <= again; k++) {
		devs = true;
		nbad = 0;
		ttyfailed = false;
		late = vmc_dev(2, "late");
		int nati0 = nati;
		if (k) {
			id = &idents[vmc_enum(9, "next adapter")];
		}
		int dv = vmc_deviations();
		int rv = diag_l0_open(d, proto);
		devs = late = false;
		dv = vmc_deviations() - dv;
		bool isid = strstr(id->text, "ELM32") != NULL;
		bool can = reach && isid && !(id->is323 && proto != DIAG_L1_ISO9141 && proto != DIAG_L1_ISO14230);
		vmc_outcome("%d %d", rv, dv);
		VMC_CHECK(rv <= 0, "openrv", "open returned %d", rv);
		if (dv == 0) {
			VMC_CHECK((rv == 0) == can, "open", "%s protocol %x at %u: open returned %d", id->text, proto, elmspeed, rv);
		}
		if (rv == 0) {
			VMC_CHECK(can && nbad == 0 && !(ttyfailed && nati - nati0 == 0), "opened", "open succeeded although %s", can ? "a command failed" : "it cannot");
			VMC_CHECK(tt.isopen && d->opened, "opened", "the port is closed after a successful open");
			VMC_CHECK(tt.speed == elmspeed && tt.set.databits == diag_databits_8 && tt.set.stopbits == diag_stopbits_1 && tt.set.parflag == diag_par_n, "port", "port speed %u, adapter %u", tt.speed, elmspeed);
			VMC_CHECK(!elm.echo && !elm.lf && elm.hdr && (id->is323 || !elm.mem), "config", "adapter left with echo %d linefeeds %d headers %d memory %d", elm.echo, elm.lf, elm.hdr, elm.mem);
			int tp = id->is323 ? -1 : proto == DIAG_L1_J1850_PWM ? 1 : proto == DIAG_L1_J1850_VPW ? 2 : proto == DIAG_L1_ISO9141 ? 3 : -1;
			VMC_CHECK(elm.tp == tp, "protocol", "protocol %x: adapter set to %d", proto, elm.tp);
			uint32_t f = diag_l0_getflags(d);
			VMC_CHECK((f & DIAG_L1_DOESL2FRAME) && (f & DIAG_L1_DOESL2CKSUM) && (f & DIAG_L1_DOESFULLINIT) && (f & DIAG_L1_DOESP4WAIT) && !(f & DIAG_L1_HALFDUPLEX) && !!(f & DIAG_L1_DATAONLY) == (proto != DIAG_L1_ISO9141), "flags", "flags %x", f);
			doclose();
		} else {
			VMC_CHECK(!tt.isopen && !d->opened, "failopen", "a failed open left %s", tt.isopen ? "the port open" : "the device marked open");
			VMC_CHECK(diag_geterr() < 0, "latch", "failed open latched no error");
		}
		ncmd = 0;
		elm.pc = false;
	}
	finish();
}

static bool started(int proto) {
	int rv = diag_l0_open(d, proto);
	VMC_CHECK(rv == 0, "open", "open failed (%d)", rv);
	return rv == 0;
}

/* bus initialisation */
static void xinit(int p) {
	begin();
	if (p == 2) {
		diag_l0_debug = -1;
	}
	id = &idents[vmc_enum(3, "adapter")];
	int proto = protos[vmc_enum(id->is323 ? 2 : 3, "protocol")];
	int type = vmc_enum(3, "init type");
	bool th = vmc_thorough(), few = p == 2 || (p && !th);
	static const int types[] = {DIAG_L1_INITBUS_FAST, DIAG_L1_INITBUS_5BAUD, DIAG_L1_INITBUS_2SLOW};
	static const uint8_t adr[] = {0x33, 0x10, 0xFF, 0x7A, 0x00};
	struct diag_l1_initbus_args in;
	memset(&in, 0, sizeof(in));
	in.type = types[type];
	in.addr = adr[vmc_enum(few ? 2 : th ? 5 : 3, "address")];
	in.testerid = few || vmc_enum(2, "tester") ? 0x13 : 0xF1;
	in.physaddr = (uint8_t)vmc_enum(2, "physical");
	in.kb1 = 0xE1;
	in.kb2 = 0xE2;
	elm.kb1 = (int[]){0x08, 0xD3, 0x00, 0xFF}[vmc_enum(few ? 1 : th ? 4 : 2, "key bytes")];
	elm.kb2 = 0xFF - elm.kb1 % 16;
	int wm = vmc_enum(few ? 2 : 3, "wakeup message");
	started(proto);
	bool haswm = false;
	uint8_t wd[5] = {0x82, 0x7A, 0x13, 0xA1, 0x55};
	for (int i = 0; i < wm; i++) {
		struct diag_msg m;
		memset(&m, 0, sizeof(m));
		wd[3] = (uint8_t)(0xA1 + i);
		m.data = wd;
		m.len = 4;
		int rv = diag_l0_ioctl(d, DIAG_IOCTL_SETWM, &m);
		VMC_CHECK((rv == 0) == !id->is323, "setwm", "setting a wakeup message returned %d", rv);
		haswm = rv == 0;
		m.len = 3 + 2 * (unsigned)vmc_enum(2, "wrong length");
		VMC_CHECK(diag_l0_ioctl(d, DIAG_IOCTL_SETWM, &m) < 0, "setwm", "wakeup message of %u bytes accepted", m.len);
	}
	uint8_t wlast = wd[3];
	wd[3] = 0;
	int rounds = p == 1 ? 2 : 1;
	if (few) {
		elm.kb1 = 0xD3;
	}
	for (int r = 0; r < rounds; r++) {
		elm.businit = elm.kbshown = unjudged = false;
		ndata = nbad = 0;
		atshbad = false;
		late = vmc_dev(2, "late");
		datalatest = type == 1 ? 3500 : 1000;
		devs = true;
		int dv = vmc_deviations();
		struct diag_l1_initbus_args a = in;
		int rv = diag_l0_ioctl(d, DIAG_IOCTL_INITBUS, &a);
		devs = late = false;
		dv = vmc_deviations() - dv;
		vmc_outcome("%d %d %d", type, rv, dv);
		VMC_CHECK(rv <= 0, "initrv", "bus initialisation returned %d", rv);
		bool poss = (type == 0 || (type == 1 && !(id->is323 && in.addr != 0x33) && proto != DIAG_L1_J1850_VPW));
		if (dv == 0 && poss) {
			VMC_CHECK(rv == 0, "init", "bus initialisation failed (%d)", rv);
		}
		if (type == 1 && !poss) {
			VMC_CHECK(rv < 0, "initbad", "an impossible initialisation returned %d", rv);
		}
		if (rv == 0) {
			VMC_CHECK(elm.businit || unjudged, "noinit", "success although the bus was not initialised");
			if (type < 2) {
				VMC_CHECK(!haswm || dv || (elm.wm[0] == 0x82 && elm.wm[1] == 0x7A && elm.wm[2] == 0x13 && elm.wm[3] == wlast), "wm", "wakeup message in the adapter %x %x %x %x", elm.wm[0], elm.wm[1], elm.wm[2], elm.wm[3]);
			}
			if (type == 0) {
				if (proto == DIAG_L1_ISO14230) {
					VMC_CHECK(dv > 1 || (elm.sh[0] == (in.physaddr ? 0x81 : 0xC1) && elm.sh[1] == in.addr && elm.sh[2] == in.testerid) || (dv && nbad && !atshbad), "header", "header in the adapter %x %x %x", elm.sh[0], elm.sh[1], elm.sh[2]);
				}
				VMC_CHECK(dv || elm.tp == (id->is323 ? -1 : 5), "protocol", "fast init with protocol %d", elm.tp);
			} else if (type == 1) {
				VMC_CHECK(dv || elm.tp == (id->is323 ? -1 : proto == DIAG_L1_ISO9141 ? 3 : 4), "protocol", "slow init with protocol %d", elm.tp);
				VMC_CHECK(in.addr == 0x33 ? elm.iia == -1 || elm.iia == 0x33 : elm.iia == in.addr, "iia", "slow init of address %x with %x set", in.addr, elm.iia);
				if (elm.kbshown && !dv) {
					VMC_CHECK(a.kb1 == elm.kb1 && a.kb2 == elm.kb2, "kb", "key bytes %02x %02x reported, %02x %02x received", a.kb1, a.kb2, elm.kb1, elm.kb2);
				}
				VMC_CHECK(!elm.kbshown || dv || id->is323 || elm.al == 1, "al", "long messages not enabled");
			}
			VMC_CHECK(type == 1 || (a.kb1 == 0xE1 && a.kb2 == 0xE2), "kbother", "key bytes changed");
			VMC_CHECK((a.kb1 == elm.kb1 && a.kb2 == elm.kb2) || (a.kb1 == 0xE1 && a.kb2 == 0xE2), "kbvalue", "key bytes %02x %02x reported, %02x %02x received", a.kb1, a.kb2, elm.kb1, elm.kb2);
		}
	}
	ncmd = 0;
	doclose();
	finish();
}

/* sending: sequences of messages with different headers */
static void xsend(int p) {
	begin();
	id = &idents[vmc_enum(3, "adapter")];
	int proto = protos[vmc_enum(id->is323 ? 2 : 5, "protocol")];
	int n = p ? 2 + vmc_thorough() : 1;
	static const uint8_t hd[6][3] = {{0x81, 0x13, 0x10}, {0x68, 0x6A, 0xF1}, {0x82, 0x7A, 0x13}, {0x00, 0x00, 0x00}, {0x81, 0x10, 0x13}, {0xFF, 0x80, 0xF1}};
	static const int lens[] = {0, 1, 2, 3, 4, 5, 11, 12, 255, 260, 498, 499, 500, 501, 1024};
	started(proto);
	int lastsh[3] = {-1, -1, -1};
	for (int i = 0; i < n; i++) {
		int len = p ? 4 + vmc_enum(2, "length") : lens[vmc_enum(15, "length")];
		int h = vmc_enum(6, "header");
		int seed = p ? i * 17 : vmc_enum(3, "data") * 0x55;
		uint8_t *m = malloc((size_t)len);
		for (int j = 0; j < len; j++) {
			m[j] = j < 3 ? hd[h][j] : (uint8_t)(j * 29 + seed);
		}
		if (p == 1 && i == 1 && vmc_enum(2, "reopen")) {
			ncmd = 0;
			doclose();
			elm.pc = false;
			started(proto);
		}
		ndata = nbad = 0;
		ncmd = 0;
		late = vmc_dev(2, "late");
		devs = true;
		int dv = vmc_deviations();
		bool iso = proto == DIAG_L1_ISO9141;
		ttyfailed = false;
		datareply = "OK";
		/* the reply to the data itself is not read by send */
		int rv = diag_l0_send(d, m, (size_t)len);
		devs = late = false;
		dv = vmc_deviations() - dv;
		bool ok = len >= (iso ? 4 : 1) && len <= 499;
		vmc_outcome("%d %d %d", rv, iso, dv);
		VMC_CHECK(ok || rv < 0, "sendlen", "sending %d bytes returned %d", len, rv);
		VMC_CHECK(dv || !ok || rv == 0, "send", "sending %d bytes returned %d", len, rv);
		if (rv == 0) {
			int off = iso ? 3 : 0;
			VMC_CHECK(ndata == 1 && nsent == len - off && !memcmp(sent, m + off, (size_t)nsent), "data", "%d of %d bytes sent (%d times)", nsent, len - off, ndata);
			VMC_CHECK(!iso || (elm.sh[0] == m[0] && elm.sh[1] == m[1] && elm.sh[2] == m[2]) || (!m[0] && !m[1] && !m[2]), "header", "header %02x %02x %02x sent, adapter has %x %x %x", m[0], m[1], m[2], elm.sh[0], elm.sh[1], elm.sh[2]);
			VMC_CHECK(!iso || !(m[0] & 0x80) || elm.sr == m[2], "filter", "receive filter %x for tester %x", elm.sr, m[2]);
			VMC_CHECK(iso || elm.sh[0] == -1, "noheader", "header set for another protocol");
		} else {
			VMC_CHECK(ndata == 0 || ttyfailed || dv, "senterr", "error although the data was sent");
			VMC_CHECK(diag_geterr() < 0, "latch", "failed send latched no error");
		}
		free(m);
		tt_push1('>');
	}
	ncmd = 0;
	doclose();
	finish();
}

/* ---------------- receiving */
/* the line the reference sees at the head of what was printed */
struct ref {
	int n;                  /* clean data bytes at the start of the first line */
	uint8_t b[1100];
	bool clean;             /* nothing else in the line */
	bool ended;             /* the line is terminated */
	bool nul;               /* contains NUL characters */
	bool err;               /* the port fails before the end of the line */
	int next;               /* index after the terminator */
};
static void refline(const uint16_t *s, int n, struct ref *r) {
	int i = 0;
	memset(r, 0, offsetof(struct ref, b));
	r->clean = true;
	r->ended = r->nul = r->err = false;
	while (i < n && (s[i] == ' ' || s[i] == '\r' || s[i] == '\n' || s[i] == '>')) {
		i++;
	}
	for (;;) {
		while (i < n && s[i] == ' ') {
			i++;
		}
		if (i == n || s[i] >= 0x1000) {
			r->err |= i < n && s[i] == TT_ERR;
			break;
		}
		if (s[i] == '\r' || s[i] == '\n' || s[i] == '>') {
			r->ended = true;
			i++;
			break;
		}
		if (r->clean && i + 1 < n && s[i] < 0x80 && s[i + 1] < 0x80 && isxdigit(s[i]) && isxdigit(s[i + 1])) {
			if (r->n < 1100) {
				r->b[r->n++] = (uint8_t)strtol((char[]){(char)s[i], (char)s[i + 1], 0}, NULL, 16);
			}
			i += 2;
			continue;
		}
		/* a single character at the very end, without a line end: the rest is still to come */
		if (!((i + 1 == n || s[i + 1] >= 0x1000))) {
			r->clean = false;
		} else if (s[i] >= 0x80 || !isxdigit(s[i])) {
			r->err = true;
		}
		if (!s[i]) {
			r->nul = true;
		}
		i++;
	}
	r->next = i;
}
static bool nodata;
static void check1(const uint16_t *s, int n, size_t L, unsigned tmo) {
	static struct ref r;
	uint8_t *buf = malloc(L);
	memset(buf, 0xEE, L);
	refline(s, n, &r);
	uint64_t t = env_now;
	diag_geterr();
	int rv = diag_l0_recv(d, buf, L, tmo);
	VMC_CHECK(env_now - t <= (tmo + 500) * 1000ULL, "time", "receiving took %llu ms, timeout %u", (unsigned long long)(env_now - t) / 1000, tmo);
	VMC_CHECK(rv != 0 && rv <= (int)L, "recvrv", "receive of %zu bytes returned %d", L, rv);
	vmc_outcome("%d %d %d", rv < 0 ? rv : rv > 3 ? 4 : rv, r.clean, r.ended);
	for (int i = rv > 0 ? rv : 0; i < (int)L && i < 64; i++) {
		VMC_CHECK(buf[i] == 0xEE || rv < 0, "beyond", "byte %d written, %d returned", i, rv);
	}
	if (rv > 0) {
		VMC_CHECK(rv <= r.n && !memcmp(buf, r.b, (size_t)rv), "invented", "%d bytes returned starting %02x; the adapter printed %d data bytes", rv, buf[0], r.n);
		if (rv < (int)L) {
			VMC_CHECK(r.clean || r.nul, "garbage", "%d bytes returned from a line that is no data", rv);
			VMC_CHECK(rv == r.n || r.nul, "lost", "%d of %d bytes of the line returned", rv, r.n);
		}
	} else if (r.clean && r.n > 0 && !r.err) {
		VMC_CHECK(r.n > 1023 && !r.ended, "refused", "a line of %d data bytes gave error %d", r.n, rv);
	}
	/* the adapter heard nothing: the same as silence */
	if (nodata) {
		VMC_CHECK(rv == DIAG_ERR_TIMEOUT, "nodata", "NO DATA gave error %d", rv);
	}
	free(buf);
}
static uint16_t stream[12000];
static int nstream;
static void addtok(int k) {
	static const char *const tk[] = {"4", "1F", "a", " ", "\r", ">", "G", "0 ", "\n", "NO DATA", "BUS BUSY", "FB ERROR", "<DATA ERROR", "?", "\xff", "41 00 FF\r", "SEARCHING...", "BUS INIT: OK"};
	if (k == 18) {
		stream[nstream++] = 0;
	} else if (k == 19) {
		stream[nstream++] = TT_GAP;
	} else if (k == 20) {
		stream[nstream++] = TT_ERR;
	} else {
		for (const char *c = tk[k]; *c; c++) {
			stream[nstream++] = (uint8_t)*c;
		}
	}
}
#define NTOK 21
static void rxstart(void) {
	begin();
	id = &idents[0];
	started(DIAG_L1_ISO14230);
	tt.qh = tt.qt = 0;
	nstream = 0;
	tt.bytetime_us = 10;
}
static void rxend(void) {
	diag_l0_debug = 0;
	tt.qh = tt.qt = 0;
	doclose();
	finish();
}
static void xrecv(int p) {
	diag_l0_debug = p ? -1 : 0;
	rxstart();
	int n = p ? 2 : vmc_thorough() ? 5 : 4;
	int onlyerr = 0;
	for (int i = 0; i < n; i++) {
		int k = vmc_enum(NTOK + 1, "text");
		if (k == NTOK) {
			break;
		}
		onlyerr = i == 0 && k == 9 ? 1 : i == 1 && onlyerr == 1 && (k == 4 || k == 5 || k == 8) ? 1 : i == 2 && onlyerr == 1 && k == 5 ? 1 : 2;
		addtok(k);
	}
	if (vmc_enum(2, "late")) {
		tt_push1(TT_WAIT(150));
	}
	for (int i = 0; i < nstream; i++) {
		tt_push1(stream[i]);
	}
	size_t L = (size_t[]){MAXRBUF, 1, 3}[vmc_enum(3, "length")];
	/* two receives: the second sees what the first left */
	nodata = onlyerr == 1 && L > 1;
	check1(stream, nstream, L, 100);
	nodata = false;
	int left = tt_pending();
	check1(stream + nstream - left, left, L, 100);
	rxend();
}
/* lines of every length, behind and in front of fillers of every length */
static void xlong(int p) {
	rxstart();
	static const int fl[] = {0, 1, 2, 3, 997, 998, 999, 1000, 3066, 3067, 3068, 3069, 3070, 3071, 3072, 3073, 3074, 3075, 3076, 5000};
	int k = vmc_enum(20, "filler length");
	int ft = vmc_enum(6, "filler");
	int bytes = (int[]){0, 1, 2, 3, 7, 260, 1000, 1020, 1021, 1022, 1023, 1024, 1025, 1030}[vmc_enum(14, "bytes")];
	int sep = vmc_enum(3, "separator");
	int tail = vmc_enum(4, "end");
	int where = vmc_enum(2, "filler where");
	for (int w = 0; w < 2; w++) {
		if (w == where) {
			for (int i = 0; i < k; i++) {
				stream[nstream++] = (uint16_t[]){' ', '\r', '>', 'G', '\n', '4'}[ft];
			}
		} else {
			for (int i = 0; i < bytes; i++) {
				char h[4];
				snprintf(h, sizeof(h), "%02X", (unsigned)(i * 7 + 3) & 0xff);
				stream[nstream++] = (uint8_t)h[0];
				stream[nstream++] = (uint8_t)h[1];
				for (int j = 0; j < sep; j++) {
					stream[nstream++] = ' ';
				}
			}
		}
	}
	if (tail == 0) {
		stream[nstream++] = '\r';
		stream[nstream++] = '>';
	} else if (tail == 2) {
		addtok(12);
		stream[nstream++] = '\r';
	} else if (tail == 3) {
		stream[nstream++] = 'Z';
	}
	for (int i = 0; i < nstream; i++) {
		tt_push1(stream[i]);
	}
	size_t L = (size_t[]){MAXRBUF, 260}[vmc_enum(2, "length")];
	static struct ref r;
	refline(stream, nstream, &r);
	uint8_t *buf = malloc(L);
	int rv = diag_l0_recv(d, buf, L, 300);
	VMC_CHECK(rv != 0 && rv <= (int)L, "recvrv", "receive returned %d", rv);
	if (rv > 0) {
		VMC_CHECK(rv <= r.n && !memcmp(buf, r.b, (size_t)rv), "invented", "%d bytes returned; the adapter printed %d data bytes", rv, r.n);
		VMC_CHECK(rv == (int)L || (r.clean && rv == r.n), "garbage", "%d bytes returned of a line with %d bytes", rv, r.n);
	} else if (r.clean && r.n > 0 && r.ended && sep < 2 && (k <= 3 || where == 1)) {
		VMC_CHECK(r.n > 1000, "refused", "a line of %d data bytes gave error %d", r.n, rv);
	}
	free(buf);
	vmc_outcome("%d", rv < 0 ? rv : rv > 3 ? 4 : rv);
	rxend();
}
/* a flood without end: the time is bounded */
static void xflood(int p) {
	rxstart();
	int ft = vmc_enum(5, "filler"), bt = vmc_enum(4, "pace");
	unsigned tmo = (unsigned[]){1, 100, 1000, 5000}[vmc_enum(4, "timeout")];
	for (int i = 0; i < 15000; i++) {
		tt_push1((uint16_t[]){' ', '\r', '>', '4', 'Q'}[ft]);
	}
	tt.bytetime_us = (uint64_t[]){1, 87, 1000, 20000}[bt];
	uint8_t *buf = malloc(MAXRBUF);
	uint64_t t = env_now;
	int rv = diag_l0_recv(d, buf, MAXRBUF, tmo);
	VMC_CHECK(env_now - t <= (tmo + 500) * 1000ULL, "time", "receiving took %llu ms, timeout %u", (unsigned long long)(env_now - t) / 1000, tmo);
	VMC_CHECK(ft == 3 ? rv != 0 : rv < 0, "flood", "receive of garbage returned %d", rv);
	free(buf);
	rxend();
}
static void badargs(int p) {
	rxstart();
	uint8_t b[4];
	static const size_t ls[] = {0, 1025, 2000, (size_t)-1};
	int k = vmc_enum(4, "length");
	VMC_CHECK(diag_l0_recv(d, b, ls[k], 10) < 0, "badlen", "receive of %zu bytes accepted", ls[k]);
	struct diag_serial_settings set = {10400, diag_databits_8, diag_stopbits_1, diag_par_n};
	VMC_CHECK(diag_l0_ioctl(d, DIAG_IOCTL_IFLUSH, NULL) == 0, "iflush", "flush failed");
	VMC_CHECK(diag_l0_ioctl(d, DIAG_IOCTL_SETSPEED, &set) < 0 && tt.speed == 38400, "setspeed", "the bus speed changed the port");
	rxend();
}

const struct vmc_scenario vmc_scenarios[] = {
	{"open", xopen, 0, 1, 2, 0, 64},
	{"open.twice", xopen, 1, 0, 1, 0, 64},
	{"init", xinit, 0, 1, 2, 0, 64},
	{"init.twice", xinit, 1, 1, 2, 0, 64},
	{"send", xsend, 0, 1, 1, 0, 32},
	{"send.headers", xsend, 1, 1, 1, 0, 32},
	{"recv", xrecv, 0, 0, 0, 0, 128},
	{"recv.long", xlong, 0, 0, 0, 0, 64},
	{"recv.flood", xflood, 0, 0, 0, 0, 4},
	{"init.debug", xinit, 2, 1, 1, 0, 16},
	{"recv.debug", xrecv, 1, 0, 0, 0, 16},
	{"args", badargs, 0, 0, 0, 0, 1},
	{0},
};
