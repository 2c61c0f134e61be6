/* C06: ISO9141 handshake, send and receive.
 * oracle: reference models of ISO 9141-2 framing and initialisation. */
#include "l2h.h"
#include "diag_tty.h"

void vmc_process_init(void) { diag_init(); }

#define MAXF 11         /* longest frame: 3 header, 7 data, checksum */

enum { PLAIN, FRAMED, FRAMED_STRIP, PLAIN_STRIP, NOHDR };
static const uint32_t caps[] = {
	DIAG_L1_DOESP4WAIT,
	DIAG_L1_DOESL2FRAME | DIAG_L1_DOESL2CKSUM | DIAG_L1_DOESP4WAIT,
	DIAG_L1_DOESL2FRAME | DIAG_L1_DOESL2CKSUM | DIAG_L1_DOESP4WAIT | DIAG_L1_STRIPSL2CKSUM,
	DIAG_L1_DOESP4WAIT | DIAG_L1_STRIPSL2CKSUM,
	DIAG_L1_DOESL2FRAME | DIAG_L1_DOESL2CKSUM | DIAG_L1_DOESP4WAIT | DIAG_L1_STRIPSL2CKSUM | DIAG_L1_NOHDRS | DIAG_L1_DATAONLY,
};

/* ---- start ---- */
static int initfail, speedfail, sendfail, starts;
static unsigned speedset;
static struct diag_l1_initbus_args ia;
static int h_ioctl(struct mock *m, unsigned cmd, void *d) {
	if (cmd == DIAG_IOCTL_SETSPEED) {
		speedset = ((struct diag_serial_settings *)d)->speed;
		if (vmc_dev(2, "setspeed fails")) {
			speedfail = 1;
			return DIAG_ERR_GENERAL;
		}
	} else if (cmd == DIAG_IOCTL_INITBUS) {
		starts++;
		memcpy(&ia, d, sizeof(ia));
		if (vmc_dev(2, "initbus fails")) {
			initfail = 1;
			return DIAG_ERR_BUSERROR;
		}
	}
	return MK_DEFAULT;
}
static int h_send(struct mock *m, const uint8_t *d, size_t n) {
	if (vmc_dev(2, "send fails")) {
		sendfail = 1;
		return DIAG_ERR_GENERAL;
	}
	return 1;
}

static uint8_t kb[2];
static struct diag_l2_conn *start(uint32_t flags, uint8_t k, int target, unsigned speed) {
	uint16_t q[] = {k, k, (uint8_t)~target};
	if (!(flags & DIAG_L1_DOESFULLINIT)) {
		mk_push1(q[0]);
		mk_push1(MK_EOF);
		mk_push1(q[1]);
		mk_push1(MK_EOF);
		if (!(flags & DIAG_L1_DOESSLOWINIT)) {
			mk_push1(q[2]);
			mk_push1(MK_EOF);
		}
	}
	struct diag_l2_conn *c = l2h_start(DIAG_L1_ISO9141, DIAG_L2_PROT_ISO9141, DIAG_L2_TYPE_SLOWINIT, speed, target, 0xF1);
	VMC_CHECK(c != NULL, "start", "a valid handshake was refused");
	return c;
}

static void handshake(int p) {
	static const uint32_t sc[] = {DIAG_L1_DOESP4WAIT, 0, DIAG_L1_DOESP4WAIT | DIAG_L1_DOESSLOWINIT,
		DIAG_L1_DOESP4WAIT | DIAG_L1_DOESFULLINIT | DIAG_L1_DOESL2FRAME};
	static const int tg[] = {0x33, 0x01, 0xFF, 0x00};
	int s = vmc_enum(4, "capabilities");
	int missing = 0, fin = 0, same = 1;
	l2h_reset(sc[s]);
	int target = tg[vmc_enum(4, "target")];
	bool fwd = s < 2;
	kb[0] = kb[1] = 8;
	if (s != 3) {
		/* the ECU takes all the time it has: W2, W3, W4 */
		int late = vmc_dev(2, "late");
		missing = vmc_enum(5, "key bytes missing");     /* 0 none, 1 second, 2 both, 3 error, 4 late error */
		if (missing != 2 && missing != 3) {
			kb[0] = (uint8_t)vmc_enum(256, "kb1");
			if (late) {
				mk_push1(MK_WAIT(20));
			}
			mk_push1(kb[0]);
			mk_push1(MK_EOF);
		}
		kb[1] = kb[0];
		if (missing == 0) {
			static const uint8_t x[] = {0, 1, 0x80, 0x9C, 0xFF};
			same = vmc_enum(5, "kb2");
			kb[1] = kb[0] ^ x[same];
			same = !same;
			if (late) {
				mk_push1(MK_WAIT(20));
			}
			mk_push1(kb[1]);
			mk_push1(MK_EOF);
		} else {
			mk_push1(missing >= 3 ? MK_ERR : MK_GAP);
		}
		if (fwd && missing == 0) {
			fin = vmc_enum(6, "complemented address");
			uint8_t good = (uint8_t)~target;
			if (late) {
				mk_push1(MK_WAIT(50));
			}
			switch (fin) {
			case 0: mk_push1(good); break;
			case 1: mk_push1((uint8_t)target); break;
			case 2: mk_push1(good ^ 1); break;
			case 3: mk_push1(good ^ 0x80); break;
			case 4: break;
			case 5: mk_push1(MK_ERR); break;
			}
		}
	}
	initfail = speedfail = sendfail = starts = 0;
	mk.ioctl = h_ioctl;
	mk.send = h_send;
	unsigned speed = vmc_dev(2, "speed") ? 9600 : 0;
	struct diag_l2_conn *c = l2h_start(DIAG_L1_ISO9141, DIAG_L2_PROT_ISO9141, DIAG_L2_TYPE_SLOWINIT, speed, target, 0xF1);
	bool kbok = s == 3 || (missing == 0 && same && (kb[0] == 0x08 || kb[0] == 0x94));
	bool ok = !initfail && !speedfail && !sendfail && kbok && fin == 0;
	VMC_CHECK(speedset == (speed ? speed : 10400), "speed", "speed set to %u", speedset);
	VMC_CHECK((c != NULL) == ok, "start", "cap %d key bytes %02x %02x (missing %d), address echo variant %d, initfail %d: session %s", s, kb[0], kb[1], missing, fin, initfail, c ? "established" : "refused");
	if (!speedfail) {
		VMC_CHECK(starts == 1 && ia.type == DIAG_L1_INITBUS_5BAUD && ia.addr == target, "initbus", "wrong bus initialisation requested");
	} else {
		VMC_CHECK(starts == 0, "initbus", "bus initialised although the speed could not be set");
	}
	if (fwd && kbok && !initfail && !speedfail) {
		VMC_CHECK(mk.txn == 1 && mk.tx[0] == (uint8_t)~kb[1], "kb2", "complement of key byte 2 not sent");
	} else {
		VMC_CHECK(mk.txn == 0, "tx", "%zu unexpected bytes sent", mk.txn);
	}
	vmc_outcome("cap %d %s", s, c ? "ok" : "no");
	if (!c) {
		VMC_CHECK(diag_geterr() < 0, "nolatch", "failed start latched no error");
		l2h_close();
		return;
	}
	if (s != 3) {
		struct diag_l2_data d;
		VMC_CHECK(diag_l2_ioctl(c, DIAG_IOCTL_GET_L2_DATA, &d) == 0 && d.kb1 == kb[0] && d.kb2 == kb[1], "kb", "key bytes reported %02x %02x, sent %02x %02x", d.kb1, d.kb2, kb[0], kb[1]);
	}
	l2h_stop(c);
}

static void types(int p) {
	l2h_reset(caps[0]);
	int t = vmc_enum(8, "init type");
	if (t == DIAG_L2_TYPE_SLOWINIT) {
		vmc_prune();
	}
	struct diag_l2_conn *c = l2h_start(DIAG_L1_ISO9141, DIAG_L2_PROT_ISO9141, (flag_type)t, 0, 0x33, 0xF1);
	vmc_outcome("%d %d", t, c != NULL);
	if ((t & DIAG_L2_TYPE_INITMASK) == DIAG_L2_TYPE_MONINIT) {
		VMC_CHECK(c != NULL && mk.txn == 0 && mk.nioctl <= 2, "mon", "monitor mode refused or active on the bus");
		l2h_stop(c);
		return;
	}
	VMC_CHECK(c == NULL && mk.txn == 0, "type", "init type %d accepted", t);
	l2h_close();
}

/* ---- send ---- */
static void tx(int p) {
	int cap = vmc_enum(5, "capabilities");
	uint32_t f = caps[cap];
	l2h_reset(f);
	uint8_t source = (uint8_t[]){0xF1, 0x00, 0xFF, 0x10}[vmc_enum(4, "source")];
	static const int lens[] = {8, 9, 11, 12, 64, 255, 256, 260, 1024, 4096};
	int li = vmc_enum(7 + 10, "length");
	int len = li < 7 ? li + 1 : lens[li - 7];
	int pat = vmc_enum(4, "pattern"), pnl = vmc_enum(2, "with request");
	static uint8_t d[4096];
	for (int i = 0; i < len; i++) {
		d[i] = pat == 0 ? (uint8_t)(i + 1) : pat == 1 ? 0xFF : pat == 2 ? (uint8_t)(0x68 + i * 2) : 0;
	}
	uint16_t q[] = {0x08, MK_EOF, 0x08, MK_EOF, 0xCC, MK_EOF};
	mk_pushq(q, 6);
	struct diag_l2_conn *c = l2h_start(DIAG_L1_ISO9141, DIAG_L2_PROT_ISO9141, DIAG_L2_TYPE_SLOWINIT, 0, 0x33, source);
	VMC_CHECK(c != NULL, "start", "start refused");
	mk_cleartx();
	mk_clearrx();
	sendfail = 0;
	mk.send = h_send;
	uint8_t *heap = malloc((size_t)len);
	memcpy(heap, d, (size_t)len);
	struct diag_msg m = l2h_msg(heap, (unsigned)len);
	m.src = 0x77;
	m.dest = 0x88;
	int rv, err = 0;
	uint64_t t0 = env_ms();
	if (pnl) {
		struct diag_msg *r = diag_l2_request(c, &m, &err);
		VMC_CHECK(r == NULL && err < 0, "request", "request without an answer returned %p, %d", (void *)r, err);
		rv = err == DIAG_ERR_TIMEOUT ? 0 : err;
	} else {
		rv = diag_l2_send(c, &m);
	}
	VMC_CHECK(!memcmp(heap, d, (size_t)len) && m.len == (unsigned)len && m.data == heap, "modified", "the caller's message was modified");
	free(heap);
	uint8_t w[32];
	size_t n = 0;
	vmc_outcome("len %d rv %d", len, rv);
	if (len > 7) {
		VMC_CHECK(rv < 0 && mk.txn == 0, "toolong", "payload of %d bytes accepted (%d), %zu bytes sent", len, rv, mk.txn);
	} else {
		if (!(f & DIAG_L1_DATAONLY)) {
			w[n++] = 0x68;
			w[n++] = 0x6A;
			w[n++] = source;
		}
		memcpy(w + n, d, (size_t)len);
		n += (size_t)len;
		if (!(f & DIAG_L1_DOESL2CKSUM)) {
			w[n] = sum8(w, n);
			n++;
		}
		if (sendfail) {
			VMC_CHECK(rv < 0, "sendfail", "failed transmission reported as success");
		} else {
			VMC_CHECK(rv == 0, "refused", "payload of %d bytes refused (%d)", len, rv);
			VMC_CHECK(mk.txn == n && !memcmp(mk.tx, w, n), "frame", "wrong frame on the wire");
			VMC_CHECK(mk.txc[0].t >= t0 * 1000 + 55000, "p3", "sent after less than P3min of idle time");
		}
	}
	mk.send = NULL;
	l2h_stop(c);
}

/* ---- receive ---- */
static uint16_t line[512];
static int nline;
static struct got want[64];
static int nwant, dontcare;

static int parse(const uint8_t *b, int n, int cap) {
	bool strip = caps[cap] & DIAG_L1_STRIPSL2CKSUM;
	struct got *g = &want[nwant++];
	memset(g, 0, sizeof(*g));
	if (cap == NOHDR) {
		g->len = (unsigned)n;
		memcpy(g->d, b, (size_t)n);
		return 0;
	}
	int pl = n - 3 - !strip;
	if (pl < 1 || b[0] != 0x48 || b[1] != 0x6B) {
		return -1;
	}
	if (pl > 7) {
		dontcare = 1;   /* longer than the protocol allows */
	}
	g->len = (unsigned)pl;
	memcpy(g->d, b + 3, (size_t)pl);
	g->src = b[2];
	g->dest = 0xF1;
	if (!strip && sum8(b, (size_t)n - 1) != b[n - 1]) {
		g->fmt = DIAG_FMT_BADCS;
	}
	return 0;
}

static int reference(int cap) {
	uint8_t b[512];
	int n = 0, err = 0;
	bool fr = caps[cap] & DIAG_L1_DOESL2FRAME;
	nwant = dontcare = 0;
	for (int i = 0; i <= nline; i++) {
		if (i < nline && line[i] < 0x100) {
			if (n == MAXF) {
				if (fr) {
					dontcare = 1;   /* no such frame exists */
				}
				if (!err) {
					err = parse(b, n, cap);
				}
				n = 0;
			}
			b[n++] = (uint8_t)line[i];
			continue;
		}
		if (i < nline && line[i] & 0x8000) {
			continue;       /* a pause between bytes, P1max at most */
		}
		if (n && !err) {
			err = parse(b, n, cap);
		}
		n = 0;
		if (i < nline && line[i] >= MK_ERR) {
			return -1;
		}
	}
	return err || !nwant ? -1 : 0;
}

static void compare(int rv, int ref) {
	if (dontcare) {
		return;
	}
	if (ref < 0) {
		VMC_CHECK(rv < 0, "accepted", "reception of an invalid burst returned %d", rv);
		VMC_CHECK(ngot == 0, "delivered", "%d messages delivered from an invalid burst", ngot);
		return;
	}
	VMC_CHECK(rv == 0 && ncb == 1, "refused", "a valid burst was refused: %d, %d callbacks", rv, ncb);
	VMC_CHECK(ngot == nwant, "count", "%d messages delivered, %d were on the wire", ngot, nwant);
	for (int i = 0; i < nwant; i++) {
		struct got *g = &got[i], *w = &want[i];
		VMC_CHECK(g->len == w->len && !memcmp(g->d, w->d, w->len), "payload", "message %d of %d: delivered %u bytes, on the wire %u, or content differs", i, nwant, g->len, w->len);
		VMC_CHECK(g->src == w->src && g->dest == w->dest, "addr", "message %d: addresses %02x>%02x, on the wire %02x>%02x", i, g->src, g->dest, w->src, w->dest);
		VMC_CHECK((g->fmt & DIAG_FMT_BADCS) == (w->fmt & DIAG_FMT_BADCS), "cks", "message %d: checksum flag %d, expected %d", i, g->fmt & DIAG_FMT_BADCS, w->fmt & DIAG_FMT_BADCS);
		VMC_CHECK(g->rxtime >= T0MS && g->rxtime <= env_ms(), "rxtime", "message %d has time stamp %lu", i, g->rxtime);
	}
}

static void one(struct diag_l2_conn *c, int cap, int req) {
	bool framed = caps[cap] & DIAG_L1_DOESL2FRAME;
	mk_clearrx();
	for (int i = 0; i < nline; i++) {
		mk_push1(line[i] == MK_GAP ? (framed ? MK_EOF : MK_WAIT(30)) : line[i]);
	}
	int ref = reference(cap);
	ngot = ncb = 0;
	uint64_t t = env_ms();
	int rv;
	if (req) {
		uint8_t b[] = {1, 0};
		struct diag_msg m = l2h_msg(b, 2);
		int err = 0x1234;
		struct diag_msg *r = diag_l2_request(c, &m, &err);
		VMC_CHECK((r != NULL) == (err == 0 || err == 0x1234), "errval", "request returned %s with error %d", r ? "a message" : "nothing", err);
		rv = r ? 0 : err;
		if (r) {
			l2h_cb(&ngot, r);
			diag_freemsg(r);
		}
	} else {
		rv = diag_l2_recv(c, 100, l2h_cb, &ngot);
	}
	vmc_log("recv -> %d, %d messages (reference %d, %d)", rv, ngot, ref, nwant);
	uint64_t dt = env_ms() - t;
	VMC_CHECK(dt <= 1000 + 300 * (uint64_t)nline, "slow", "reception of %d bytes took %llu ms", nline, (unsigned long long)dt);
	compare(rv, ref);
	vmc_outcome("rv %d n %d", rv, ngot);
}

static const uint8_t good[] = {0x48, 0x6B, 0x10, 0x41, 0x00, 0xFE, 0x02};
static void run(struct diag_l2_conn *c, int cap, int req) {
	bool framed = caps[cap] & DIAG_L1_DOESL2FRAME;
	mk.seg = framed ? 0 : 1;
	one(c, cap, req);
	mk.seg = 0;
	/* whatever happened: the next well-formed frame is received normally */
	nline = 0;
	for (int i = cap == NOHDR ? 3 : 0; i < 7 - !!(caps[cap] & DIAG_L1_STRIPSL2CKSUM); i++) {
		line[nline++] = good[i];
	}
	one(c, cap, 0);
	VMC_CHECK(ngot == 1, "recover", "the next frame was not received");
	mk_clearrx();
	ngot = ncb = 0;
	int rv = diag_l2_recv(c, 100, l2h_cb, &ngot);
	VMC_CHECK(rv == DIAG_ERR_TIMEOUT && ncb == 0, "silence", "silence: %d, %d callbacks", rv, ncb);
	/* and the next request looks as it must, whatever was received */
	uint8_t d[] = {0x03, 0x55}, w[] = {0x68, 0x6A, 0xF1, 0x03, 0x55, 0};
	w[5] = sum8(w, 5);
	size_t off = caps[cap] & DIAG_L1_DATAONLY ? 3 : 0, n = (caps[cap] & (DIAG_L1_DATAONLY | DIAG_L1_DOESL2CKSUM) ? 5 : 6) - off;
	struct diag_msg m = l2h_msg(d, 2);
	mk_cleartx();
	rv = diag_l2_send(c, &m);
	VMC_CHECK(rv == 0 && mk.txn == n && !memcmp(mk.tx, w + off, n), "frame-after", "wrong frame on the wire after the reception (%d, %zu bytes)", rv, mk.txn);
	l2h_stop(c);
}

static struct diag_l2_conn *begin(int cap, uint8_t k) {
	l2h_reset(caps[cap]);
	nline = 0;
	return start(caps[cap], k, 0x33, 0);
}

static void bytes(int depth) {
	int cap = vmc_enum(5, "capabilities");
	static const uint16_t al[] = {0x48, 0x6B, 0x10, 0x41, 0xC3, MK_GAP};
	uint16_t tmp[16];
	int n = 0;
	while (n < depth) {
		int a = vmc_enum(7, "byte");
		if (a == 6) {
			break;
		}
		if (al[a] == MK_GAP && (n == 0 || tmp[n - 1] == MK_GAP)) {
			vmc_prune();
		}
		tmp[n++] = al[a];
	}
	struct diag_l2_conn *c = begin(cap, 0x08);
	memcpy(line, tmp, sizeof(tmp));
	nline = n;
	run(c, cap, 0);
}

static int frame(uint8_t *b, int pl, int v, int cap) {
	int n = 0;
	if (cap != NOHDR) {
		b[n++] = 0x48;
		b[n++] = 0x6B;
		b[n++] = (uint8_t)(0x10 + v);
	}
	for (int i = 0; i < pl; i++) {
		b[n++] = (uint8_t)(v == 2 ? (i & 1 ? 0x6B : 0x48) : 0x41 + i * 0x11 + v);
	}
	if (!(caps[cap] & DIAG_L1_STRIPSL2CKSUM)) {
		b[n] = sum8(b, (size_t)n);
		n++;
	}
	return n;
}

static void frames(int p) {
	int cap = vmc_enum(5, "capabilities");
	int k = vmc_enum(2, "kb") ? 0x94 : 0x08;
	int req = vmc_dev(2, "request");
	struct diag_l2_conn *c = begin(cap, (uint8_t)k);
	int nf = 1 + vmc_enum(p, "frames");
	for (int f = 0; f < nf; f++) {
		uint8_t b[32];
		int pl = 1 + vmc_enum(f == 0 ? 8 : 3, "payload length");
		if (f && pl == 3) {
			pl = 7;
		}
		int n = frame(b, pl, f, cap);
		int what = vmc_dev(caps[cap] & DIAG_L1_DOESL2FRAME ? 5 : 6, "line fault");
		int pos = what ? vmc_enum(n, "at") : -1;
		static const uint8_t x[] = {0x01, 0x80, 0x20, 0xFF};
		int v = what == 1 ? vmc_enum(4, "flip") : 0;
		for (int i = 0; i < n; i++) {
			if (i == pos) {
				if (what == 2) {
					continue;
				} else if (what == 3) {
					if (!nline || line[nline - 1] == MK_GAP) {
						vmc_prune();
					}
					line[nline++] = MK_GAP;
				} else if (what == 4) {
					line[nline++] = MK_ERR;
				} else if (what == 5) {
					line[nline++] = MK_WAIT(20);
				}
			}
			line[nline++] = i == pos && what == 1 ? b[i] ^ x[v] : b[i];
		}
		if (f + 1 < nf && ((caps[cap] & DIAG_L1_DOESL2FRAME) || vmc_enum(2, "gap")) && nline && line[nline - 1] != MK_GAP) {
			line[nline++] = MK_GAP;
		}
	}
	run(c, cap, req);
}

/* all 256 single byte differences of every position of one frame */
static void corrupt(int p) {
	int cap = vmc_enum(5, "capabilities");
	uint8_t b[32];
	struct diag_l2_conn *c = begin(cap, 0x08);
	int n = frame(b, 4, 0, cap);
	int pos = vmc_enum(n, "at"), x = vmc_enum(256, "value");
	for (int i = 0; i < n; i++) {
		line[nline++] = i == pos ? (uint8_t)x : b[i];
	}
	run(c, cap, 0);
}

const struct vmc_scenario vmc_scenarios[] = {
	{"handshake", handshake, 0, 1, 3, VMC_INPROC, 4},
	{"types", types, 0, 0, 0, VMC_INPROC, 1},
	{"tx", tx, 0, 1, 2, VMC_INPROC, 1},
	{"bytes5", bytes, 5, 1, 2, VMC_INPROC, 5},
	{"bytes6", bytes, 6, 0, 1, VMC_INPROC | VMC_THOROUGH_ONLY, 5},
	{"frames2", frames, 2, 2, 3, VMC_INPROC, 5},
	{"frames3", frames, 3, 1, 2, VMC_INPROC, 5},
	{"corrupt", corrupt, 0, 1, 1, VMC_INPROC, 5},
	{0}
};
