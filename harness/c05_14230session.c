/* C05: ISO14230 session start, request/answer automaton, stop.
 * oracle: a reference automaton of ISO 14230-2/-3 start and negative response handling. */
#include "l2h.h"
#include "diag_tty.h"

void vmc_process_init(void) { diag_init(); }

static const uint32_t caps[] = {
	DIAG_L1_DOESP4WAIT,
	DIAG_L1_DOESL2FRAME | DIAG_L1_DOESL2CKSUM | DIAG_L1_DOESP4WAIT | DIAG_L1_STRIPSL2CKSUM,
	0,
};
static int g_cap;

/* frame in the form the interface delivers it; what: 0 ok 1 bad checksum 2 truncated */
static void push_frame(const uint8_t *pay, int n, int what) {
	uint8_t b[300];
	bool strip = caps[g_cap] & DIAG_L1_STRIPSL2CKSUM;
	int o = 0;
	b[o++] = (uint8_t)(0x80 | n);
	b[o++] = 0xF1;
	b[o++] = 0x11;
	memcpy(b + o, pay, (size_t)n);
	o += n;
	if (!strip) {
		b[o] = (uint8_t)(sum8(b, (size_t)o) + (what == 1));
		o++;
	}
	if (what == 2) {
		o--;
	}
	mk_push(b, (size_t)o);
	mk_push1(MK_EOF);
}

/* ---- start ---- */
static int initfail, speedfail, starts;
static unsigned speedset;
static struct diag_l1_initbus_args ia;
static int h_ioctl(struct mock *m, unsigned cmd, void *d) {
	if (cmd == DIAG_IOCTL_SETSPEED) {
		speedset = ((struct diag_serial_settings *)d)->speed;
		if (vmc_dev(2, "setspeed fails")) {
			speedfail = 1;
			return DIAG_ERR_GENERAL;
		}
	} else if (cmd == DIAG_IOCTL_INITBUS) {
		starts++;
		memcpy(&ia, d, sizeof(ia));
		if (vmc_dev(2, "initbus fails")) {
			initfail = 1;
			return DIAG_ERR_BUSERROR;
		}
	}
	return MK_DEFAULT;
}
static int h_persist(struct mock *m, uint8_t *d, size_t n, unsigned tmo) {
	if (mk_pending()) {
		return MK_DEFAULT;
	}
	return DIAG_ERR_GENERAL;
}

static int answer, noise;
static uint8_t kb1, kb2;
static int sfail;
static size_t scrlen;
static int h_sendfast(struct mock *m, const uint8_t *d, size_t n) {
	if (vmc_dev(2, "send fails")) {
		sfail = 1;
		return DIAG_ERR_GENERAL;
	}
	if (m->txn < scrlen) {
		return 1;               /* bytewise, not complete yet */
	}
	uint8_t p[3] = {0xC1, kb1, kb2};
	if (vmc_dev(2, "late answer")) {
		mk_push1(MK_WAIT(49));
	}
	switch (answer) {
	case 0: push_frame(p, 3, 0); break;
	case 1: push_frame(p, 1, 0); break;
	case 2: push_frame(p, 2, 0); break;
	case 3: push_frame((uint8_t[]){0x7F, 0x81, 0x10}, 3, 0); break;
	case 4: push_frame((uint8_t[]){0x7F}, 1, 0); break;
	case 5: push_frame((uint8_t[]){0xAA, 0, 0}, 3, 0); break;
	case 6: push_frame(p, 3, 1); break;
	case 7: push_frame(p, 3, 2); break;
	case 8: break;
	case 9: push_frame(p, 3, 0); mk_push1(MK_GAP); push_frame((uint8_t[]){0xC1, 0xE9, 0x8F}, 3, 0); break;
	case 10: mk_push1(MK_ERR); break;
	}
	if (noise == 1) {
		mk_push1(MK_GAP); mk_push1(MK_GAP); mk_push1(0x55); mk_push1(0xAA);
	} else if (noise == 2) {
		mk_push1(MK_GAP); mk_push1(MK_GAP); mk_push1(MK_ERR);
	} else if (noise == 3) {
		mk_push1(MK_GAP); mk_push1(MK_GAP);
		m->recv = h_persist;
	}
	return 1;
}

/* the header form used must be one the key bytes allow */
static void check_header(struct diag_l2_conn *c, uint8_t k, bool func, int target, int source) {
	uint8_t b[] = {0x01, 0x00};
	uint8_t w[16];
	int n = 0;
	struct diag_msg m = l2h_msg(b, 2);
	mk.send = NULL;
	mk_cleartx();
	int rv = diag_l2_send(c, &m);
	w[n++] = 0;
	if ((k & 8) || !(k & 4)) {
		w[0] = func ? 0xC0 : 0x80;
		w[n++] = (uint8_t)target;
		w[n++] = (uint8_t)source;
	}
	if ((k & 1) || !(k & 2)) {
		w[0] |= 2;
	} else {
		w[n++] = 2;
	}
	w[n++] = 1;
	w[n++] = 0;
	if (!(caps[g_cap] & DIAG_L1_DOESL2CKSUM)) {
		w[n] = sum8(w, (size_t)n);
		n++;
	}
	VMC_CHECK(rv == 0 && mk.txn == (size_t)n && !memcmp(mk.tx, w, (size_t)n), "hdr", "key byte 1 %02x: wrong header form used after start", k);
}

static void fast(int p) {
	g_cap = vmc_enum(3, "capabilities");
	l2h_reset(caps[g_cap]);
	int func = vmc_enum(2, "functional");
	answer = vmc_enum(11, "ECU answer");
	kb1 = kb2 = 0x8F;
	if (answer == 0) {
		kb1 = (uint8_t)(0xE0 | vmc_enum(16, "kb1"));
		kb2 = vmc_enum(2, "kb2") ? 0x6F : 0x8F;
	}
	bool strip = caps[g_cap] & DIAG_L1_STRIPSL2CKSUM;
	if (strip && answer == 6) {
		vmc_prune();
	}
	noise = vmc_dev(4, "noise");
	scrlen = 4 + !(caps[g_cap] & DIAG_L1_DOESL2CKSUM);
	initfail = speedfail = sfail = starts = 0;
	mk.ioctl = h_ioctl;
	mk.send = h_sendfast;
	unsigned speed = vmc_enum(2, "speed") ? 9600 : 0;
	struct diag_l2_conn *c = l2h_start(DIAG_L1_ISO14230, DIAG_L2_PROT_ISO14230, DIAG_L2_TYPE_FASTINIT | (func ? DIAG_L2_TYPE_FUNCADDR : 0), speed, 0x33, 0xF1);
	bool ok = (answer == 0 || answer == 9) && !initfail && !speedfail && !sfail;
	VMC_CHECK(speedset == (speed ? speed : 10400), "speed", "speed set to %u", speedset);
	if (!speedfail) {
		VMC_CHECK(starts == 1 && ia.type == DIAG_L1_INITBUS_FAST && ia.addr == 0x33 && ia.testerid == 0xF1 && ia.physaddr == !func, "initbus", "wrong bus initialisation requested");
	} else {
		VMC_CHECK(starts == 0 && mk.txn == 0, "initbus", "bus initialised although the speed could not be set");
	}
	if (initfail) {
		VMC_CHECK(mk.txn == 0, "tx-after-fail", "request sent after a failed wake-up");
	}
	if (noise != 2 && noise != 3) {
		VMC_CHECK((c != NULL) == ok, "start", "answer %d initfail %d sendfail %d: session %s", answer, initfail, sfail, c ? "established" : "refused");
	} else if (!ok) {
		VMC_CHECK(c == NULL, "start", "answer %d: session established", answer);
	}
	vmc_outcome("answer %d %s", answer, c ? "ok" : "no");
	mk.recv = NULL;
	mk_clearrx();
	if (!c) {
		VMC_CHECK(diag_geterr() < 0, "nolatch", "failed start latched no error");
		mk.send = NULL;
		l2h_close();
		return;
	}
	uint8_t w[5] = {func ? 0xC1 : 0x81, 0x33, 0xF1, 0x81, 0};
	w[4] = sum8(w, 4);
	VMC_CHECK(mk.txn == scrlen && !memcmp(mk.tx, w, scrlen), "scr", "wrong start request on the wire");
	struct diag_l2_data d;
	VMC_CHECK(diag_l2_ioctl(c, DIAG_IOCTL_GET_L2_DATA, &d) == 0, "l2data", "no L2 data");
	VMC_CHECK(d.kb1 == kb1 && d.kb2 == kb2 && d.physaddr == 0x11, "kb", "key bytes %02x %02x addr %02x reported, ECU sent %02x %02x from 11", d.kb1, d.kb2, d.physaddr, kb1, kb2);
	check_header(c, kb1, func, 0x33, 0xF1);
	mk.ioctl = NULL;
	l2h_stop(c);
}

static void slow(int p) {
	static const uint32_t sc[] = {DIAG_L1_DOESP4WAIT, DIAG_L1_DOESP4WAIT | DIAG_L1_DOESSLOWINIT, 0,
		DIAG_L1_DOESP4WAIT | DIAG_L1_DOESFULLINIT | DIAG_L1_DOESL2FRAME};
	static const int tg[] = {0x33, 0x01, 0xFF, 0x00};
	int s = vmc_enum(4, "capabilities");
	l2h_reset(sc[s]);
	g_cap = 0;
	int target = tg[vmc_enum(4, "target")];
	int nkb = vmc_dev(3, "key bytes missing");
	kb1 = (uint8_t)vmc_enum(p ? 256 : 32, "kb1");
	kb2 = (uint8_t[]){0x8F, 0x6F, 0x00, 0xFE}[vmc_enum(4, "kb2")];
	if (!p) {
		kb1 = (uint8_t)(kb1 + 0x80 * (kb1 >> 4));
	}
	int fin = vmc_dev(6, "complemented address");
	noise = vmc_dev(4, "noise");
	initfail = speedfail = sfail = starts = 0;
	mk.ioctl = h_ioctl;
	int fwd = s == 0 || s == 2;
	/* the ECU takes its time: W2, W3, W4 */
	int late = vmc_enum(2, "late");
	if (s != 3) {
		if (nkb < 2) {
			if (late) {
				mk_push1(MK_WAIT(40));
			}
			mk_push1(kb1);
		}
		if (nkb == 0) {
			mk_push1(kb2);
		} else {
			mk_push1(MK_GAP);
		}
		if (fwd) {
			uint8_t good = (uint8_t)~target;
			if (late) {
				mk_push1(MK_WAIT(50));
			}
			switch (fin) {
			case 0: mk_push1(good); break;
			case 1: mk_push1((uint8_t)target); break;
			case 2: mk_push1(good ^ 1); break;
			case 3: mk_push1(good ^ 0x80); break;
			case 4: mk_push1(MK_GAP); break;
			case 5: mk_push1(MK_ERR); break;
			}
		}
	}
	if (noise == 1) {
		mk_push1(0x55); mk_push1(0x01);
	} else if (noise == 2) {
		mk_push1(MK_ERR);
	} else if (noise == 3) {
		mk.recv = h_persist;
	}
	struct diag_l2_conn *c = l2h_start(DIAG_L1_ISO14230, DIAG_L2_PROT_ISO14230, DIAG_L2_TYPE_SLOWINIT, 0, target, 0xF1);
	bool ok = !initfail && !speedfail && (s == 3 || nkb == 0) && (!fwd || fin == 0);
	if (!speedfail) {
		VMC_CHECK(starts == 1 && ia.type == DIAG_L1_INITBUS_5BAUD && ia.addr == target, "initbus", "wrong bus initialisation requested");
	}
	if (noise != 2 && noise != 3) {
		VMC_CHECK((c != NULL) == ok, "start", "cap %d: %d key bytes missing, address echo variant %d, initfail %d: session %s", s, nkb, fin, initfail, c ? "established" : "refused");
	} else if (!ok) {
		VMC_CHECK(c == NULL, "start", "session established");
	}
	vmc_outcome("cap %d %s", s, c ? "ok" : "no");
	if (fwd && !initfail && !speedfail && nkb == 0) {
		VMC_CHECK(mk.txn == 1 && mk.tx[0] == (uint8_t)~kb2, "kb2", "key byte 2 %02x: complement not sent (%zu bytes)", kb2, mk.txn);
	} else {
		VMC_CHECK(mk.txn == 0, "tx", "%zu unexpected bytes sent", mk.txn);
	}
	mk.recv = NULL;
	mk_clearrx();
	if (!c) {
		VMC_CHECK(diag_geterr() < 0, "nolatch", "failed start latched no error");
		l2h_close();
		return;
	}
	if (s != 3) {
		struct diag_l2_data d;
		VMC_CHECK(diag_l2_ioctl(c, DIAG_IOCTL_GET_L2_DATA, &d) == 0 && d.kb1 == (kb1 & 0x7f) && d.kb2 == kb2, "kb", "key bytes reported %02x %02x, sent %02x %02x", d.kb1, d.kb2, kb1, kb2);
		check_header(c, kb1, 0, target ? target : 0, 0xF1);
	}
	mk.ioctl = NULL;
	l2h_stop(c);
}

static void badtype(int p) {
	g_cap = 0;
	l2h_reset(caps[0]);
	int t = vmc_enum(16, "init type");
	if (t == DIAG_L2_TYPE_SLOWINIT || t == DIAG_L2_TYPE_FASTINIT || t == DIAG_L2_TYPE_MONINIT) {
		vmc_prune();
	}
	struct diag_l2_conn *c = l2h_start(DIAG_L1_ISO14230, DIAG_L2_PROT_ISO14230, (flag_type)t, 0, 0x33, 0xF1);
	VMC_CHECK(c == NULL && mk.txn == 0, "type", "init type %d accepted", t);
	VMC_CHECK(diag_geterr() == DIAG_ERR_INIT_NOTSUPP, "type-err", "wrong error");
	vmc_outcome("refused");
	l2h_close();
}

/* ---- requests ---- */
static int left;                /* answers the ECU may still give */
static int sends;
static size_t reqlen;
static int e_busy, e_final;     /* 1 positive 2 negative 3 nothing/late 4 undecodable 5 short negative */
static int e_two, e_badcs;
static int reqfail, expected_sends;

static void ecu(void) {
	int waits = 0;
	e_final = 3;
	for (;;) {
		if (left <= 0) {
			return;
		}
		int a = vmc_enum(left == 2 ? 11 : 9, "ECU answer");
		left--;
		if (a == 0) {
			return;                 /* silence */
		}
		if (waits) {
			/* how long after 'response pending': up to 5 s are allowed */
			int g = vmc_enum(5, "gap");
			static const int wait[] = {0, 30, 200, 4900, 5500};
			if (g) {
				mk_push1(MK_WAIT(wait[g]));
			}
			if (g == 4) {
				return;         /* later than the timeout */
			}
		} else if (vmc_dev(2, "late answer")) {
			mk_push1(MK_WAIT(49));  /* P2max is 50 ms */
		}
		switch (a) {
		case 1: push_frame((uint8_t[]){0x41, 0x00, 0xAA}, 3, 0); e_final = 1; return;
		case 2: push_frame((uint8_t[]){0x7F, 0x01, 0x11}, 3, 0); e_final = 2; return;
		case 3: push_frame((uint8_t[]){0x7F, 0x01, 0x21}, 3, 0); e_final = 6; return;
		case 4: push_frame((uint8_t[]){0x7F, 0x01, 0x78}, 3, 0); waits++; e_final = 3; break;
		/* with more than the code */
		case 9: push_frame((uint8_t[]){0x7F, 0x01, 0x21, 0x00}, 4, 0); e_final = 6; return;
		case 10: push_frame((uint8_t[]){0x7F, 0x01, 0x78, 0x21}, 4, 0); waits++; e_final = 3; break;
		case 5: push_frame((uint8_t[]){0x7F}, 1, 0); e_final = 5; return;
		case 6: push_frame((uint8_t[]){0x7F, 0x01}, 2, 0); e_final = 5; return;
		case 7: push_frame((uint8_t[]){0x41, 0x00, 0xAA}, 3, 2); e_final = 4; return;
		case 8: push_frame((uint8_t[]){0x41, 0x00, 0xAA}, 3, 0); push_frame((uint8_t[]){0x41, 0x00, 0xBB}, 3, 0); e_final = 1; e_two = 1; return;
		}
	}
}

static int h_req(struct mock *m, const uint8_t *d, size_t n) {
	if (m->txn % reqlen == 1 && vmc_dev(2, "send fails")) {
		reqfail = 1;
		return DIAG_ERR_GENERAL;
	}
	if (m->txn % reqlen == 0) {
		sends++;
		ecu();
	}
	return 1;
}
static int h_req_block(struct mock *m, const uint8_t *d, size_t n) {
	if (vmc_dev(2, "send fails")) {
		reqfail = 1;
		return DIAG_ERR_GENERAL;
	}
	sends++;
	ecu();
	return 1;
}

static void request(int depth) {
	g_cap = vmc_enum(3, "capabilities");
	l2h_reset(caps[g_cap]);
	struct diag_l2_conn *c = l2h_start14230(0xEF, 0x8F, 0, 0x11, 0xF1);
	mk_cleartx();
	uint8_t b[2] = {0x01, 0x00};
	uint8_t w[] = {0x82, 0x11, 0xF1, 0x01, 0x00, 0x85};
	struct diag_msg m = l2h_msg(b, 2);
	reqlen = 6 - !!(caps[g_cap] & DIAG_L1_DOESL2CKSUM);
	left = depth;
	sends = reqfail = e_two = 0;
	e_final = 3;
	mk.send = g_cap == 2 ? h_req : h_req_block;
	int err = 0x1234;
	diag_geterr();
	struct diag_msg *r = diag_l2_request(c, &m, &err);
	vmc_log("request -> %p err %d, %d sends, final %d", r ? (void *)1 : NULL, err, sends, e_final);
	/* every transmission is the same complete request */
	for (int i = 0; i < sends; i++) {
		VMC_CHECK(!memcmp(mk.tx + (size_t)i * reqlen, w, reqlen), "resend", "transmission %d differs from the request", i);
	}
	/* model: each busy answer causes one retransmission, three at most */
	if (reqfail) {
		VMC_CHECK(r == NULL && err < 0, "sendfail", "request with a failing interface returned %p, %d", (void *)r, err);
	} else {
		VMC_CHECK(mk.txn == (size_t)sends * reqlen, "tx", "incomplete transmissions");
		VMC_CHECK(sends <= 4, "sends", "%d transmissions", sends);
		if (e_final == 6) {
			VMC_CHECK(sends == 4, "busy", "gave up after %d transmissions on busy", sends);
			VMC_CHECK(r == NULL && err < 0, "busy-result", "endless busy returned %p %d", (void *)r, err);
		} else if (e_final == 1) {
			VMC_CHECK(r != NULL && err == 0, "positive", "a positive answer was not returned (err %d)", err);
			VMC_CHECK(r->len == 3 && !memcmp(r->data, "\x41\x00\xaa", 3), "data", "wrong data returned");
			VMC_CHECK(r->src == 0x11 && r->dest == 0xF1, "addr", "wrong addresses returned");
			VMC_CHECK(!r->next == !e_two, "chain", "%s second message", e_two ? "lost the" : "unexpected");
			if (r->next) {
				VMC_CHECK(r->next->len == 3 && r->next->data[2] == 0xBB && !r->next->next, "data2", "second message wrong");
			}
		} else if (e_final == 2) {
			VMC_CHECK(err == DIAG_ERR_ECUSAIDNO, "negative", "negative answer reported as %d", err);
			VMC_CHECK(!r || (r->len == 3 && r->data[0] == 0x7F && r->data[2] == 0x11), "data", "wrong negative answer returned");
		} else if (e_final == 5) {
			VMC_CHECK(err < 0, "shortneg", "short negative answer reported as %d", err);
		} else {
			VMC_CHECK(r == NULL && err < 0, "nothing", "no valid answer, but %p %d returned", (void *)r, err);
		}
		if (!r) {
			VMC_CHECK(diag_geterr() < 0 || err == DIAG_ERR_TIMEOUT, "nolatch", "no error latched");
		}
	}
	vmc_outcome("final %d sends %d", e_final, sends);
	diag_freemsg(r);
	/* the next request is unaffected by what happened */
	mk_clearrx();
	mk_cleartx();
	mk.send = NULL;
	push_frame((uint8_t[]){0x41, 0x0C, 0x55}, 3, 0);
	err = 0x1234;
	r = diag_l2_request(c, &m, &err);
	VMC_CHECK(r && err == 0 && r->len == 3 && r->data[1] == 0x0C && !r->next, "next", "the following request did not get its own answer (err %d)", err);
	diag_freemsg(r);
	/* stop: one stop request, whatever the ECU says */
	mk_cleartx();
	mk_clearrx();
	int how = vmc_enum(4, "stop answer");
	if (how == 1) {
		push_frame((uint8_t[]){0xC2}, 1, 0);
	} else if (how == 2) {
		push_frame((uint8_t[]){0x7F, 0x82, 0x10}, 3, 0);
	} else if (how == 3) {
		push_frame((uint8_t[]){0x7F}, 1, 0);
	}
	VMC_CHECK(diag_l2_StopCommunications(c) == 0, "stop", "stop failed");
	uint8_t sw[] = {0x81, 0x11, 0xF1, 0x82, 0x05};
	VMC_CHECK(mk.txn == reqlen - 1 && !memcmp(mk.tx, sw, mk.txn), "stopreq", "stop request not sent exactly once");
	l2h_close();
}

const struct vmc_scenario vmc_scenarios[] = {
	{"fast", fast, 0, 1, 2, VMC_INPROC, 3},
	{"slow", slow, 0, 1, 2, VMC_INPROC, 4},
	{"slow256", slow, 1, 1, 2, VMC_INPROC | VMC_THOROUGH_ONLY, 4},
	{"badtype", badtype, 0, 0, 0, VMC_INPROC, 1},
	{"request4", request, 4, 1, 2, VMC_INPROC, 3},
	{"request5", request, 5, 0, 1, VMC_INPROC, 3},
	{"request6", request, 6, 0, 1, VMC_INPROC | VMC_THOROUGH_ONLY, 3},
	{0}
};
