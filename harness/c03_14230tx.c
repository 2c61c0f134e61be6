/* C03: ISO14230 transmit.
 * alphabet: header modes (low 4 key byte bits), functional/physical, default or
 * explicit addresses, every payload length 0..260 and around the buffer size,
 * interface capabilities.  oracle: ISO 14230-2 message format. */
#include "l2h.h"

void vmc_process_init(void) { diag_init(); }

static const uint32_t caps[] = {DIAG_L1_DOESP4WAIT, DIAG_L1_DOESP4WAIT | DIAG_L1_DOESL2CKSUM,
	DIAG_L1_DOESP4WAIT | DIAG_L1_DOESL2FRAME | DIAG_L1_DOESL2CKSUM | DIAG_L1_STRIPSL2CKSUM,
	DIAG_L1_DOESP4WAIT | DIAG_L1_DATAONLY | DIAG_L1_DOESL2CKSUM, 0};

/* what must appear on the wire (or be handed to the interface) */
static size_t ref(uint8_t *want, uint32_t cp, int mode, int func, uint8_t dest, uint8_t src, const uint8_t *pay, int len, bool *okp) {
	size_t w = 0;
	bool ok = len >= 1 && len <= 255;
	if (cp & DIAG_L1_DATAONLY) {
		memcpy(want, pay, (size_t)len);
		w = (size_t)len;
	} else if (ok) {
		bool lenbyte = mode & 2, fmtlen = mode & 1, shrt = mode & 4, lng = mode & 8;
		want[w++] = 0;
		if (lng || !shrt) {
			want[0] = func ? 0xC0 : 0x80;
			want[w++] = dest;
			want[w++] = src;
		}
		if (len < 64 && (fmtlen || !lenbyte)) {
			want[0] |= (uint8_t)len;
		} else if (lenbyte) {
			want[w++] = (uint8_t)len;
		} else {
			ok = false;
		}
		memcpy(want + w, pay, (size_t)len);
		w += (size_t)len;
		if (!(cp & DIAG_L1_DOESL2CKSUM)) {
			want[w] = sum8(want, w);
			w++;
		}
	}
	*okp = ok;
	return w;
}

static void tx(int p) {
	int cap = vmc_enum(4, "capabilities");
	int mode = vmc_enum(16, "header mode");
	int func = vmc_enum(2, "functional");
	int addr = vmc_enum(4, "addresses");
	l2h_reset(caps[cap]);
	mk.log = 0;
	struct diag_l2_conn *c = l2h_start14230((uint8_t)(0xE0 | mode), 0x8F, func ? DIAG_L2_TYPE_FUNCADDR : 0, 0x33, 0xF1);
	if (!(caps[cap] & DIAG_L1_DOESL2FRAME)) {
		/* the complement of key byte 2 was the only thing sent */
		VMC_CHECK(mk.txn == 1 && mk.tx[0] == (uint8_t)~0x8F, "kb2", "%zu bytes sent during slow init", mk.txn);
	}
	static uint8_t pay[1100], want[1100];
	for (unsigned i = 0; i < sizeof(pay); i++) {
		pay[i] = (uint8_t)(i * 5 + 3);
	}
	for (int n = 0; n <= 280; n++) {
		int len = n <= 270 ? n : MAXRBUF - 275 + n;
		struct diag_msg m = l2h_msg(pay, (unsigned)len);
		m.dest = addr & 1 ? 0x11 : 0;
		m.src = addr & 2 ? 0xF5 : 0;
		mk_cleartx();
		diag_geterr();
		uint64_t t0 = env_now;
		int rv = diag_l2_send(c, &m);
		bool ok;
		size_t w = ref(want, caps[cap], mode, func, m.dest ? m.dest : 0x33, m.src ? m.src : 0xF1, pay, len, &ok);
		if (!ok) {
			VMC_CHECK(rv < 0 && mk.txn == 0, "accepted", "mode %d cap %d: payload of %d bytes was accepted (%d), %zu bytes sent", mode, cap, len, rv, mk.txn);
			VMC_CHECK(diag_geterr() < 0, "nolatch", "no error latched");
			continue;
		}
		VMC_CHECK(rv == 0, "refused", "mode %d cap %d func %d: payload of %d bytes refused (%d)", mode, cap, func, len, rv);
		VMC_CHECK(mk.ntx == 1 && mk.txn == w && !memcmp(mk.tx, want, w), "wire", "mode %d cap %d func %d addr %d len %d: wrong message on the wire: %zu bytes, first %02x %02x %02x %02x, expected %zu: %02x %02x %02x %02x",
		          mode, cap, func, addr, len, mk.txn, mk.tx[0], mk.tx[1], mk.tx[2], mk.tx[3], w, want[0], want[1], want[2], want[3]);
		VMC_CHECK((caps[cap] & DIAG_L1_DATAONLY) || mk.txc[0].t - t0 >= 55000, "p3", "sent %lu us after the call, P3min is 55 ms", (unsigned long)(mk.txc[0].t - t0));
		vmc_state(vmc_hash(want, w, (uint64_t)cap));
	}
	mk_cleartx();
	l2h_stop(c);
	vmc_outcome("mode %d cap %d", mode, cap);
}

/* what one message (or one session) specified does not stick to the next: all
 * sequences of messages with explicit/default addresses and different lengths,
 * with another session (other addresses, mode, target type) starting in between */
static void history(int p) {
	static const int lens[] = {1, 64, 5};
	static uint8_t pay[300], want[400];
	for (unsigned i = 0; i < sizeof(pay); i++) {
		pay[i] = (uint8_t)(i * 7 + 1);
	}
	int cap = vmc_enum(3, "capabilities");
	int mode = (int[]){0xF, 0xB, 0x2, 0x7, 0x5}[vmc_enum(5, "header mode")];
	int func = vmc_enum(2, "functional");
	l2h_reset(caps[cap]);
	uint8_t dst = 0x33, src = 0xF1;
	int nsess = 1;
	struct diag_l2_conn *c = l2h_start14230((uint8_t)(0xE0 | mode), 0x8F, func ? DIAG_L2_TYPE_FUNCADDR : 0, dst, src);
	char h[64] = "";
	for (int k = 0; k < p; k++) {
		int st = vmc_enum(14, "step");
		size_t hl = strlen(h);
		snprintf(h + hl, sizeof(h) - hl, " %d", st);
		if (st == 12) {
			mk_cleartx();
			l2h_stop(c);
			func = !func;
			mode = mode == 0xF ? 0x7 : 0xF;
			nsess++;
			dst = nsess & 1 ? 0x33 : 0x44;
			src = nsess & 1 ? 0xF1 : 0xF7;
			c = l2h_start14230((uint8_t)(0xE0 | mode), 0x8F, func ? DIAG_L2_TYPE_FUNCADDR : 0, dst, src);
			continue;
		}
		if (st == 13) {
			/* an answer from an ECU which was not asked, to a tester which is not us */
			uint8_t f[] = {0x82, 0xF2, 0x7A, 0x41, 0x00, 0};
			f[5] = sum8(f, 5);
			mk_clearrx();
			mk_push(f, caps[cap] & DIAG_L1_STRIPSL2CKSUM ? 5 : 6);
			mk_push1(MK_EOF);
			int rv = diag_l2_recv(c, 100, NULL, NULL);
			VMC_CHECK(rv == 0, "recv", "good frame refused (%d)", rv);
			mk_clearrx();
			continue;
		}
		int len = lens[st / 4];
		struct diag_msg m = l2h_msg(pay, (unsigned)len);
		m.dest = st & 1 ? 0x11 : 0;
		m.src = st & 2 ? 0xF5 : 0;
		mk_cleartx();
		int rv = diag_l2_send(c, &m);
		bool ok;
		size_t w = ref(want, caps[cap], mode, func, m.dest ? m.dest : dst, m.src ? m.src : src, pay, len, &ok);
		if (!ok) {
			VMC_CHECK(rv < 0 && mk.txn == 0, "accepted", "mode %d: payload of %d bytes was accepted (%d) after%s", mode, len, rv, h);
			continue;
		}
		VMC_CHECK(rv == 0 && mk.ntx == 1 && mk.txn == w && !memcmp(mk.tx, want, w), "wire-history", "mode %d cap %d func %d, steps%s: send returned %d, %zu bytes: %02x %02x %02x %02x, expected %zu: %02x %02x %02x %02x",
		          mode, cap, func, h, rv, mk.txn, mk.tx[0], mk.tx[1], mk.tx[2], mk.tx[3], w, want[0], want[1], want[2], want[3]);
		vmc_state(vmc_hash(want, w, (uint64_t)st));
	}
	mk_cleartx();
	l2h_stop(c);
	vmc_outcome("mode %d func %d sessions %d", mode, func, nsess);
}

/* a failing interface: the error reaches the caller */
static int h_send(struct mock *m, const uint8_t *d, size_t n) {
	return vmc_dev(2, "send fails") ? DIAG_ERR_GENERAL : 1;
}
static void txerr(int p) {
	l2h_reset(caps[vmc_enum(5, "capabilities")]);
	struct diag_l2_conn *c = l2h_start14230(0xEF, 0x8F, 0, 0x33, 0xF1);
	mk.send = h_send;
	uint8_t b[2] = {1, 0};
	struct diag_msg m = l2h_msg(b, 2);
	mk_cleartx();
	int rv = diag_l2_send(c, &m);
	VMC_CHECK((rv < 0) == (vmc_deviations() > 0), "senderr", "interface failure %d, send returned %d", vmc_deviations(), rv);
	vmc_outcome("%d", rv);
	mk.send = NULL;
	l2h_stop(c);
}

const struct vmc_scenario vmc_scenarios[] = {
	{"tx", tx, 0, 0, 0, VMC_INPROC, 4},
	{"history", history, 3, 0, 0, VMC_INPROC, 8},
	{"history-deep", history, 4, 0, 0, VMC_INPROC | VMC_THOROUGH_ONLY, 8},
	{"txerr", txerr, 0, 1, 2, VMC_INPROC, 1},
	{0}
};
