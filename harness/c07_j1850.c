/* C07: SAE J1850: CRC, send, receive. */
#include "l2h.h"

void vmc_process_init(void) { diag_init(); }

static const uint32_t caps[] = {
	DIAG_L1_DOESL2FRAME,
	DIAG_L1_DOESL2FRAME | DIAG_L1_DOESL2CKSUM,
	DIAG_L1_DOESL2FRAME | DIAG_L1_DOESL2CKSUM | DIAG_L1_STRIPSL2CKSUM,
	DIAG_L1_DOESL2FRAME | DIAG_L1_DOESL2CKSUM | DIAG_L1_STRIPSL2CKSUM | DIAG_L1_NOHDRS | DIAG_L1_DATAONLY,
	DIAG_L1_DOESL2FRAME | DIAG_L1_NOHDRS,
};
#define NCAP 5

/* CRC-8 SAE J1850, polynomial division over bits */
static uint8_t refcrc(const uint8_t *d, size_t n) {
	unsigned r = 0xff;
	for (size_t i = 0; i < n; i++) {
		r ^= d[i];
		for (int b = 0; b < 8; b++) {
			r = r & 0x80 ? ((r << 1) ^ 0x1d) & 0xff : r << 1;
		}
	}
	return (uint8_t)~r;
}

static unsigned tmo, late;
static int b_l1, b_target, b_source;
static struct diag_l2_conn *begin(uint32_t f, int l1, int target, int source) {
	tmo = 100;
	late = 0;
	b_l1 = l1;
	b_target = target;
	b_source = source;
	l2h_reset(f);
	struct diag_l2_conn *c = l2h_start(l1, DIAG_L2_PROT_SAEJ1850, 0, 0, target, source);
	VMC_CHECK(c != NULL, "start", "start refused");
	VMC_CHECK(mk.txn == 0, "starttx", "start transmitted");
	return c;
}

static int sendfail;
static int h_send(struct mock *m, const uint8_t *d, size_t n) {
	if (vmc_dev(2, "send fails")) {
		sendfail = 1;
		return DIAG_ERR_GENERAL;
	}
	return 1;
}

static void tx(int p) {
	static const uint8_t adr[] = {0x6A, 0xF1, 0x00, 0xFF};
	int cap = vmc_enum(NCAP, "capabilities");
	int pwm = vmc_enum(2, "PWM");
	int target = adr[vmc_enum(4, "target")], source = adr[vmc_enum(4, "source")];
	int len = vmc_enum(p ? 1030 : 300, "length");
	len = len < 290 || p ? len + 1 : (int[]){1018, 1019, 1020, 1021, 1022, 1023, 1024, 1025, 2000, 4096}[len - 290];
	int pat = vmc_enum(3, "pattern");
	static uint8_t d[4100];
	for (int i = 0; i < len; i++) {
		d[i] = pat == 0 ? (uint8_t)(i * 7 + 1) : pat == 1 ? 0xFF : (uint8_t)(i == len / 2);
	}
	struct diag_l2_conn *c = begin(caps[cap], pwm ? DIAG_L1_J1850_PWM : DIAG_L1_J1850_VPW, target, source);
	mk.log = len < 20;
	sendfail = 0;
	mk.send = h_send;
	uint8_t *heap = malloc((size_t)len);
	memcpy(heap, d, (size_t)len);
	struct diag_msg m = l2h_msg(heap, (unsigned)len);
	m.src = 0x77;
	m.dest = 0x88;
	int rv = diag_l2_send(c, &m);
	VMC_CHECK(!memcmp(heap, d, (size_t)len) && m.len == (unsigned)len, "modified", "the caller's message was modified");
	free(heap);
	static uint8_t w[4200];
	size_t n = 0;
	if (!(caps[cap] & DIAG_L1_DATAONLY)) {
		w[n++] = pwm ? 0x61 : 0x68;
		w[n++] = (uint8_t)target;
		w[n++] = (uint8_t)source;
	}
	memcpy(w + n, d, (size_t)len);
	n += (size_t)len;
	if (!(caps[cap] & (DIAG_L1_DATAONLY | DIAG_L1_DOESL2CKSUM))) {
		w[n] = refcrc(w, n);
		n++;
	}
	vmc_outcome("%d", rv);
	if (len > 1020) {
		VMC_CHECK(rv < 0 && mk.txn == 0, "toolong", "message of %d bytes: %d, %zu bytes sent", len, rv, mk.txn);
	} else if (sendfail) {
		VMC_CHECK(rv < 0, "sendfail", "failed transmission reported as success");
	} else if (rv < 0) {
		/* longer than any J1850 message: may be refused */
		VMC_CHECK(len > 8 && mk.txn == 0, "refused", "message of %d bytes refused (%d)", len, rv);
	} else {
		VMC_CHECK(mk.ntx == 1 && mk.txn == n && !memcmp(mk.tx, w, n), "frame", "wrong frame on the wire (%d bytes payload)", len);
	}
	mk.send = NULL;
	l2h_stop(c);
}

/* ---- receive ---- */
/* frames as the interface delivers them */
static uint8_t fr[8][1100];
static int frlen[8], nfr, errat;
static struct got want[64];
static int nwant;
static int ambiguous;

static void reference(int cap) {
	uint32_t f = caps[cap];
	nwant = 0;
	for (int i = 0; i < nfr; i++) {
		if (errat == i) {
			nwant = -1;
			return;
		}
		int hdr = f & DIAG_L1_NOHDRS ? 0 : 3, ck = !(f & DIAG_L1_STRIPSL2CKSUM);
		int pl = frlen[i] - hdr - ck;
		if (pl <= 0) {
			continue;
		}
		struct got *g = &want[nwant++];
		memset(g, 0, offsetof(struct got, d));
		g->fmt = g->src = g->dest = 0;
		if (hdr) {
			g->dest = fr[i][1];
			g->src = fr[i][2];
		}
		g->len = (unsigned)pl;
		memcpy(g->d, fr[i] + hdr, (size_t)pl);
		if (ck && refcrc(fr[i], (size_t)frlen[i] - 1) != fr[i][frlen[i] - 1]) {
			g->fmt = DIAG_FMT_BADCS;
		}
	}
	if (errat == nfr) {
		nwant = -1;
	}
}

static void one(struct diag_l2_conn *c, int cap, int req) {
	mk_clearrx();
	mk_cleartx();
	if (late) {
		mk_push1(MK_WAIT(late));
	}
	for (int i = 0; i < nfr; i++) {
		if (errat == i) {
			mk_push1(MK_ERR);
		}
		mk_push(fr[i], (size_t)frlen[i]);
		mk_push1(MK_EOF);
	}
	if (errat == nfr) {
		mk_push1(MK_ERR);
	}
	reference(cap);
	ngot = ncb = 0;
	int rv;
	uint64_t t = env_ms();
	if (req) {
		uint8_t b[] = {1, 0};
		struct diag_msg m = l2h_msg(b, 2);
		int err = 0;
		struct diag_msg *r = diag_l2_request(c, &m, &err);
		VMC_CHECK((r != NULL) == (err == 0), "errval", "request returned %s with error %d", r ? "a message" : "nothing", err);
		VMC_CHECK(mk.ntx == 1, "sent", "request sent %d times", mk.ntx);
		rv = err;
		if (r) {
			l2h_cb(&ngot, r);
			diag_freemsg(r);
		}
	} else {
		rv = diag_l2_recv(c, tmo, l2h_cb, &ngot);
	}
	vmc_log("recv -> %d, %d messages (reference %d)", rv, ngot, nwant);
	vmc_outcome("rv %d n %d", rv, ngot);
	VMC_CHECK(env_ms() - t <= tmo + 2000, "slow", "reception took %llu ms", (unsigned long long)(env_ms() - t));
	if (nwant <= 0) {
		VMC_CHECK(rv < 0 && ngot == 0 && ncb == 0, "accepted", "nothing valid received, but %d, %d messages", rv, ngot);
		return;
	}
	VMC_CHECK(rv == 0 && ncb == 1, "refused", "valid frames were refused: %d, %d callbacks", rv, ncb);
	VMC_CHECK(ngot == nwant, "count", "%d messages delivered, %d were on the wire", ngot, nwant);
	for (int i = 0; i < nwant; i++) {
		struct got *g = &got[i], *w = &want[i];
		VMC_CHECK(g->len == w->len && !memcmp(g->d, w->d, w->len), "payload", "message %d of %d: delivered %u bytes, on the wire %u, or content differs", i, nwant, g->len, w->len);
		VMC_CHECK(g->src == w->src && g->dest == w->dest, "addr", "message %d: addresses %02x>%02x, on the wire %02x>%02x", i, g->src, g->dest, w->src, w->dest);
		VMC_CHECK((g->fmt & DIAG_FMT_BADCS) == (w->fmt & DIAG_FMT_BADCS), "crc", "message %d: checksum flag %d, expected %d", i, g->fmt & DIAG_FMT_BADCS, w->fmt & DIAG_FMT_BADCS);
		VMC_CHECK(g->rxtime >= T0MS && g->rxtime <= env_ms(), "rxtime", "message %d has time stamp %lu", i, g->rxtime);
	}
}

static void mkframe(int k, int cap, int pl, int v) {
	int n = 0;
	uint8_t *b = fr[k];
	if (!(caps[cap] & DIAG_L1_NOHDRS)) {
		b[n++] = 0x48;
		b[n++] = 0x6B;
		b[n++] = (uint8_t)(0x10 + v);
	}
	for (int i = 0; i < pl; i++) {
		b[n++] = (uint8_t)(v == 2 ? 0x48 : 0x41 + i * 0x11 + v);
	}
	if (!(caps[cap] & DIAG_L1_STRIPSL2CKSUM)) {
		b[n] = refcrc(b, (size_t)n);
		n++;
	}
	frlen[k] = n;
}

static void finish(struct diag_l2_conn *c, int cap) {
	nfr = 1;
	errat = -1;
	mkframe(0, cap, 3, 5);
	one(c, cap, 0);
	VMC_CHECK(ngot == 1, "recover", "the next frame was not received");
	nfr = 0;
	one(c, cap, 0);
	/* and whatever was received, the next request looks as it must */
	uint8_t d[] = {0x03, 0x55}, w[8];
	size_t n = 0;
	struct diag_msg m = l2h_msg(d, 2);
	mk_cleartx();
	int rv = diag_l2_send(c, &m);
	if (!(caps[cap] & DIAG_L1_DATAONLY)) {
		w[n++] = b_l1 == DIAG_L1_J1850_PWM ? 0x61 : 0x68;
		w[n++] = (uint8_t)b_target;
		w[n++] = (uint8_t)b_source;
	}
	memcpy(w + n, d, 2);
	n += 2;
	if (!(caps[cap] & (DIAG_L1_DATAONLY | DIAG_L1_DOESL2CKSUM))) {
		w[n] = refcrc(w, n);
		n++;
	}
	VMC_CHECK(rv == 0 && mk.ntx == 1 && mk.txn == n && !memcmp(mk.tx, w, n), "frame-after", "wrong frame on the wire after the reception (%d, %zu bytes)", rv, mk.txn);
	l2h_stop(c);
}

/* frames which come as late as they may */
static void lateframes(int p) {
	int cap = vmc_enum(NCAP, "capabilities");
	int req = vmc_enum(2, "request");
	struct diag_l2_conn *c = begin(caps[cap], DIAG_L1_J1850_VPW, 0x6A, 0xF1);
	tmo = req ? 100 : (unsigned[]){20, 100, 500, 1000, 3000}[vmc_enum(5, "timeout")];
	late = req ? 10 + 10 * (unsigned)vmc_enum(20, "late") : tmo * (unsigned)vmc_enum(5, "late") / 4;
	nfr = 1 + vmc_enum(2, "frames");
	errat = -1;
	for (int i = 0; i < nfr; i++) {
		mkframe(i, cap, 2 + i, i);
	}
	one(c, cap, req);
	tmo = 100;
	late = 0;
	finish(c, cap);
}

static void rx(int p) {
	int cap = vmc_enum(NCAP, "capabilities");
	int req = vmc_enum(2, "request");
	struct diag_l2_conn *c = begin(caps[cap], DIAG_L1_J1850_VPW, 0x6A, 0xF1);
	nfr = vmc_enum(p + 1, "frames");
	errat = -1;
	for (int i = 0; i < nfr; i++) {
		int pl = vmc_enum(i ? 4 : 9, "payload length");
		mkframe(i, cap, i && pl == 3 ? 7 : pl, i);
		if (pl == 0 && !frlen[i]) {
			vmc_prune();
		}
		int what = vmc_dev(4, "fault");
		if (what == 1) {
			static const uint8_t x[] = {0x01, 0x80, 0x20, 0xFF};
			fr[i][vmc_enum(frlen[i], "at")] ^= x[vmc_enum(4, "flip")];
		} else if (what == 2) {
			/* truncated */
			if (frlen[i] < 2) {
				vmc_prune();
			}
			frlen[i] -= 1 + vmc_enum(frlen[i] - 1, "cut");
		} else if (what == 3) {
			errat = i;
		}
	}
	if (errat < 0 && vmc_dev(2, "error at end")) {
		errat = nfr;
	}
	one(c, cap, req);
	finish(c, cap);
}

/* every value of every byte of one frame */
static void corrupt(int p) {
	int cap = vmc_enum(NCAP, "capabilities");
	struct diag_l2_conn *c = begin(caps[cap], DIAG_L1_J1850_PWM, 0x6A, 0xF1);
	nfr = 1;
	errat = -1;
	mkframe(0, cap, 7, 0);
	fr[0][vmc_enum(frlen[0], "at")] = (uint8_t)vmc_enum(256, "value");
	one(c, cap, 0);
	finish(c, cap);
}

static void lengths(int p) {
	int cap = vmc_enum(NCAP, "capabilities");
	struct diag_l2_conn *c = begin(caps[cap], DIAG_L1_J1850_PWM, 0x6A, 0xF1);
	int n = 1 + vmc_enum(p ? 1019 : 330, "payload");
	n = p || n < 320 ? n : 1020 - (n - 320);
	int bad = vmc_enum(2, "bad CRC");
	mk.log = 0;
	nfr = 2;
	errat = -1;
	mkframe(0, cap, n, 0);
	mkframe(1, cap, 2, 1);
	fr[0][frlen[0] - 1] ^= (uint8_t)bad;
	one(c, cap, 0);
	finish(c, cap);
}

static int chat_n;
static int h_chatty(struct mock *m, uint8_t *d, size_t n, unsigned tmo) {
	static const uint8_t f[] = {0x48, 0x6B, 0x10, 0x41, 0x00, 0x00};
	int k = chat_n ? chat_n : (chat_n = 1 + vmc_enum(6, "chatter"));
	env_advance_us(500);
	memcpy(d, f, (size_t)k);
	return k;
}
/* a bus which never falls silent: reception ends when its time is over */
static void chatter(int p) {
	int cap = vmc_enum(NCAP, "capabilities");
	struct diag_l2_conn *c = begin(caps[cap], DIAG_L1_J1850_PWM, 0x6A, 0xF1);
	mk.log = 0;
	chat_n = 0;
	mk.recv = h_chatty;
	uint64_t t = env_ms();
	int rv = diag_l2_recv(c, 100, NULL, NULL);
	VMC_CHECK(env_ms() - t < 2000, "endless", "reception on a busy bus took %llu ms", (unsigned long long)(env_ms() - t));
	vmc_outcome("%d", rv);
	mk.recv = NULL;
	nfr = 0;
	errat = -1;
	finish(c, cap);
}

/* an unframed interface is refused, without touching the bus */
static void unframed(int p) {
	struct diag_l2_conn *c = begin(0, DIAG_L1_J1850_PWM, 0x6A, 0xF1);
	int rv = diag_l2_recv(c, 100, l2h_cb, &ngot);
	VMC_CHECK(rv < 0 && !ncb && !ngot, "unframed", "reception without framing returned %d", rv);
	l2h_stop(c);
}

const struct vmc_scenario vmc_scenarios[] = {
	{"tx", tx, 0, 1, 1, VMC_INPROC, 5},
	{"txall", tx, 1, 0, 1, VMC_INPROC | VMC_THOROUGH_ONLY, 5},
	{"rx2", rx, 2, 2, 3, VMC_INPROC, 5},
	{"rx3", rx, 3, 1, 2, VMC_INPROC, 5},
	{"late", lateframes, 0, 0, 0, VMC_INPROC, 5},
	{"corrupt", corrupt, 0, 0, 0, VMC_INPROC, 5},
	{"lengths", lengths, 0, 0, 0, VMC_INPROC, 5},
	{"lengthsall", lengths, 1, 0, 0, VMC_INPROC | VMC_THOROUGH_ONLY, 5},
	{"chatter", chatter, 0, 0, 0, VMC_INPROC, 5},
	{"unframed", unframed, 0, 0, 0, VMC_INPROC, 1},
	{0}
};
