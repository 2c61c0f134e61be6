/* C11: raw pass-through.  oracle: the same bytes in both directions. */
#include "l2h.h"
#include "diag_tty.h"

void vmc_process_init(void) { diag_init(); }

static int failed, nspeed;
static struct diag_serial_settings ss;
static int h_ioctl(struct mock *m, unsigned cmd, void *d) {
	if (cmd == DIAG_IOCTL_SETSPEED) {
		nspeed++;
		memcpy(&ss, d, sizeof(ss));
		if (vmc_dev(2, "setspeed fails")) {
			failed = 1;
			return DIAG_ERR_GENERAL;
		}
	}
	return MK_DEFAULT;
}
static int failalloc(size_t n) {
	if (vmc_dev(2, "allocation fails")) {
		failed = 1;
		return 1;
	}
	return 0;
}
static const uint32_t caps[] = {DIAG_L1_DOESP4WAIT, 0, DIAG_L1_HALFDUPLEX, DIAG_L1_DOESL2FRAME | DIAG_L1_DOESP4WAIT, DIAG_L1_DATAONLY | DIAG_L1_NOHDRS | DIAG_L1_DOESL2FRAME};
#define NCAP 5

static struct diag_l2_conn *begin(int l1, unsigned rate) {
	int cap = vmc_enum(NCAP, "capabilities");
	l2h_reset(caps[cap]);
	mk.echo = cap == 2;
	failed = nspeed = 0;
	mk.ioctl = h_ioctl;
	struct diag_l2_conn *c = l2h_start(l1, DIAG_L2_PROT_RAW, 0, rate, 0x11, 0xF1);
	mk.ioctl = NULL;
	return c;
}
static void finish(struct diag_l2_conn *c) {
	mk.send = NULL;
	mk_clearrx();
	env_alloc_hook = NULL;
	l2h_stop(c);
}
static void start(int p) {
	static const int l1[] = {DIAG_L1_ISO9141, DIAG_L1_ISO14230, DIAG_L1_J1850_VPW, DIAG_L1_J1850_PWM, DIAG_L1_CAN, DIAG_L1_RAW};
	unsigned rate = (unsigned[]){4800, 9600, 10400}[vmc_enum(3, "rate")];
	struct diag_l2_conn *c = begin(l1[vmc_enum(6, "L1")], rate);
	VMC_CHECK((c != NULL) == !failed, "start", "start %s", c ? "ok" : "refused");
	VMC_CHECK(mk.txn == 0 && nspeed == 1 && ss.speed == rate && ss.databits == diag_databits_8 && ss.parflag == diag_par_n && ss.stopbits == diag_stopbits_1, "speed", "speed %u", ss.speed);
	vmc_outcome("%d", c != NULL);
	if (!c) {
		VMC_CHECK(diag_geterr() < 0, "nolatch", "no error latched");
		l2h_close();
	} else {
		finish(c);
		VMC_CHECK(mk.txn == 0, "tx", "raw layer sends on its own");
	}
}
static int sfail;
static int h_send(struct mock *m, const uint8_t *d, size_t n) {
	return sfail > 0 && --sfail == 0 ? DIAG_ERR_GENERAL : 1;
}
static int lens(int p, const char *w) {
	if (p) {
		return 1 + vmc_enum(1100, w);
	}
	int k = vmc_enum(60, w);
	return k < 40 ? k + 1 : (int[]){63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 258, 511, 512, 513, 768, 1000, 1022, 1023, 1024, 1025}[k - 40];
}
static uint8_t buf[2048];
static void fill(uint8_t *d, int n, int pat) {
	for (int i = 0; i < n; i++) {
		d[i] = (uint8_t)(pat ? 0xFF - i * 3 : i * 7 + (i >> 8));
	}
}
static void xsend(int p) {
	struct diag_l2_conn *c = begin(DIAG_L1_RAW, 9600);
	if (!c) {
		vmc_prune();
	}
	int n = lens(p, "length");
	uint8_t *d = malloc((size_t)n);
	fill(d, n, vmc_enum(2, "pattern"));
	sfail = vmc_enum(3, "send fails");
	bool fails = sfail == 1 || (sfail == 2 && n > 1 && !(mk.flags & (DIAG_L1_DOESP4WAIT | DIAG_L1_DOESL2FRAME)));
	mk.send = h_send;
	struct diag_msg m = l2h_msg(d, (unsigned)n);
	int rv = diag_l2_send(c, &m);
	if (n <= 1024) {
		VMC_CHECK((rv == 0) == !fails && rv <= 0, "sendrv", "length %d: send returned %d", n, rv);
	} else {
		VMC_CHECK(rv < 0 || mk.txn == (size_t)n, "sendrv", "length %d: %d returned, %zu bytes sent", n, rv, mk.txn);
	}
	if (rv == 0) {
		VMC_CHECK(mk.txn == (size_t)n && !memcmp(mk.tx, d, (size_t)n), "bytes", "the bytes on the wire differ");
		VMC_CHECK(mk_pending() == 0, "echo", "echo left over");
	} else {
		VMC_CHECK(diag_geterr() < 0, "nolatch", "no error latched");
	}
	free(d);
	mk.echo = false;
	vmc_outcome("%d %d", rv, n);
	finish(c);
}
static struct got req;
static void xrecv(int p) {
	struct diag_l2_conn *c = begin(DIAG_L1_RAW, 9600);
	if (!c) {
		vmc_prune();
	}
	int what = vmc_enum(4, "what");
	int n = 0, e = DIAG_ERR_TIMEOUT;
	int how = vmc_enum(3, "recv/no callback/request");
	if (what == 0) {
		n = lens(p, "length");
		if (n > 1024) {
			vmc_prune();
		}
		fill(buf, n, vmc_enum(2, "pattern"));
		if (vmc_dev(2, "late")) {
			mk_push1(MK_WAIT(how < 2 ? 300 : 990));
		}
		mk_push(buf, (size_t)n);
		mk_push1(MK_EOF);
	} else if (what == 1) {
		mk_push1(MK_GAP);
	} else if (what == 2) {
		mk_push1(MK_ERR);
		e = DIAG_ERR_GENERAL;
	} else {
		mk_push1(MK_ERRC(DIAG_ERR_BUSERROR));
		e = DIAG_ERR_BUSERROR;
	}
	int rv;
	if (how < 2) {
		uint64_t t = env_now;
		rv = diag_l2_recv(c, 300, how ? NULL : l2h_cb, &ngot);
		VMC_CHECK(env_now - t < 1000000, "slow", "took long");
	} else {
		uint8_t d[] = {1, 2, 3};
		struct diag_msg m = l2h_msg(d, 3);
		int err = 0;
		sfail = vmc_dev(2, "send fails");
		mk.send = h_send;
		if (sfail) {
			failed = 1;
		}
		env_alloc_hook = failalloc;
		struct diag_msg *r = diag_l2_request(c, &m, &err);
		env_alloc_hook = NULL;
		VMC_CHECK(failed || (mk.txn == 3 && !memcmp(mk.tx, d, 3)), "bytes", "request not on the wire");
		VMC_CHECK((r != NULL) == (err == 0), "errval", "%s with error %d", r ? "answer" : "no answer", err);
		rv = err;
		if (r) {
			l2h_cb(&ngot, r);
			diag_freemsg(r);
		}
	}
	vmc_outcome("%d %d", what, rv);
	if (failed) {
		VMC_CHECK(rv < 0 && ngot == 0, "failed", "success although something failed");
	} else if (n) {
		VMC_CHECK(rv == 0 && ncb == (how != 1), "recvrv", "%d bytes arrived: %d", n, rv);
		if (ncb) {
			VMC_CHECK(ngot == 1 && got[0].len == (unsigned)n && !memcmp(got[0].d, buf, (size_t)n), "bytes", "%d bytes arrived, delivered: %u", n, got[0].len);
			VMC_CHECK(got[0].rxtime >= T0MS && got[0].rxtime <= env_ms(), "rxtime", "time stamp");
		}
		VMC_CHECK(mk_pending() == 0, "left", "bytes left");
	} else {
		VMC_CHECK(rv == e && ncb == 0, "error", "expected error %d, got %d", e, rv);
	}
	VMC_CHECK(rv == 0 || diag_geterr() < 0, "nolatch", "no error latched");
	mk.echo = false;
	finish(c);
}
/* several in a row, split by the interface */
static void series(int p) {
	struct diag_l2_conn *c = begin(DIAG_L1_RAW, 9600);
	if (!c) {
		vmc_prune();
	}
	int total = 0;
	bool fr = mk.framed;
	int lenv[4];
	int k = 1 + vmc_enum(p, "frames");
	for (int i = 0; i < k; i++) {
		lenv[i] = 1 + vmc_enum(3, "length");
		fill(buf + total, lenv[i], i & 1);
		mk_push(buf + total, (size_t)lenv[i]);
		mk_push1(MK_EOF);
		total += lenv[i];
		if (!fr && vmc_enum(2, "silence")) {
			mk_push1(MK_GAP);
		}
	}
	mk.seg = 2;
	uint8_t all[64];
	int n = 0, i = 0;
	for (int tries = 0; mk_pending() && tries < 40; tries++) {
		ngot = ncb = 0;
		int rv = diag_l2_recv(c, 50, l2h_cb, &ngot);
		if (rv == DIAG_ERR_TIMEOUT) {
			VMC_CHECK(ncb == 0, "timeout", "callback on a timeout");
			continue;
		}
		VMC_CHECK(rv == 0 && ngot == 1 && got[0].len > 0, "recvrv", "recv returned %d with %d messages", rv, ngot);
		if (fr) {
			VMC_CHECK(got[0].len == (unsigned)lenv[i], "frame", "frame %d of %d bytes delivered as %u", i, lenv[i], got[0].len);
			i++;
		}
		memcpy(all + n, got[0].d, got[0].len);
		n += (int)got[0].len;
	}
	VMC_CHECK(n == total && !memcmp(all, buf, (size_t)n), "bytes", "%d bytes arrived, %d delivered", total, n);
	vmc_outcome("%d", n);
	mk.echo = false;
	finish(c);
}

const struct vmc_scenario vmc_scenarios[] = {
	{"start", start, 0, 1, 1, 0, 4},
	{"send", xsend, 0, 0, 0, 0, 4},
	{"send-all", xsend, 1, 0, 0, VMC_THOROUGH_ONLY, 4},
	{"recv", xrecv, 0, 1, 2, 0, 4},
	{"recv-all", xrecv, 1, 1, 1, VMC_THOROUGH_ONLY, 4},
	{"series", series, 3, 3, 4, 0, 4},
	{0}
};
