/* C08: VAG KWP1281 block protocol against a simulated ECU which follows
 * SAE J2818 (byte handshake, counters, retries) on a faulty line. */
#include "l2h.h"
#include "diag_tty.h"

void vmc_process_init(void) { diag_init(); }

#define R8 55           /* byte timeout, ms */
#define ACK 0x09
#define NOACK 0x0A

/* ---- the ECU ---- */
enum { BAD_NONE, BAD_ETX, BAD_CTR, BAD_LEN0, BAD_LEN1, BAD_LEN2 };
enum { EXP_REQ, EXP_ACK, EXP_END };
struct spec { uint8_t title, len, d[256]; int bad, expect; bool retry; };
static struct {
	int st;                 /* 0 off, 1 sending, 2 waits for complement, 3 receiving, 4 dead */
	uint8_t tb[300];
	int tn, ti;
	uint64_t t;             /* byte ready / byte sent */
	uint8_t rb[300];
	int ri;
	uint64_t rt;
	int comp;               /* pending complement, -1 none */
	uint64_t ct;
	uint8_t ctr;            /* counter of the next block on the line */
	uint8_t lastctr;        /* of our last block */
	bool badsent;           /* our last block was bad (or damaged): expects NOACK */
	int restarts;
	int expect;
	struct spec q[16];
	int nq, qi;
	struct spec cur;
} ecu;
static int faults, died, lost, nreqs, allow_noack;
static uint8_t reqt, reqd[256];
static int reqn;
static int lineon;              /* inject line faults */
/* how fast the ECU is, ms */
static struct { unsigned kb1, kb2, first, block, byte, comp; } pace;
static const struct { unsigned kb1, kb2, first, block, byte, comp; } normal = {0, 0, 30, 5, 2, 2};

static uint64_t ms(void) { return env_now / 1000; }

static void ecu_send(const struct spec *s, int bad) {
	ecu.cur = *s;
	int n = 0, len = s->len + 3;
	uint8_t c = ecu.ctr;
	ecu.badsent = bad != BAD_NONE;
	if (bad >= BAD_LEN0) {
		/* a block which claims to be shorter than any */
		int l = bad - BAD_LEN0;
		ecu.tb[n++] = (uint8_t)l;
		if (l == 1) {
			ecu.tb[n++] = 0x03;
		} else if (l == 2) {
			ecu.tb[n++] = c;
			ecu.tb[n++] = 0x03;
		}
		ecu.badsent = false;
	} else {
		ecu.tb[n++] = (uint8_t)len;
		if (bad == BAD_CTR) {
			c = (uint8_t)(c + 2);
		}
		ecu.tb[n++] = c;
		ecu.tb[n++] = s->title;
		for (int i = 0; i < s->len; i++) {
			ecu.tb[n++] = s->retry ? (uint8_t)(ecu.ctr - 1) : s->d[i];
		}
		ecu.tb[n++] = bad == BAD_ETX ? 0x13 : 0x03;
	}
	ecu.lastctr = c;
	ecu.tn = n;
	ecu.ti = 0;
	ecu.st = 1;
	ecu.restarts = 0;
	ecu.t = ms() + pace.block;
	ecu.expect = s->expect;
	vmc_loghex("ECU block", ecu.tb, (size_t)n);
}
static void ecu_next(void) {
	if (ecu.qi >= ecu.nq) {
		ecu.st = 4;     /* says nothing more */
		return;
	}
	struct spec *s = &ecu.q[ecu.qi++];
	if (s->title == 0xFF) {
		ecu.st = 4;
		return;
	}
	ecu_send(s, s->bad);
}
/* our block went out completely */
static void ecu_sent(void) {
	ecu.ctr++;
	ecu.st = 3;
	ecu.ri = 0;
}
static void on_block(void) {
	uint8_t *b = ecu.rb;
	int n = b[0];
	vmc_loghex("tester block", b, (size_t)n + 1);
	VMC_CHECK(n >= 3, "blk-len", "block of length %d sent", n);
	VMC_CHECK(b[n] == 0x03, "blk-etx", "block without end byte sent");
	VMC_CHECK(b[1] == ecu.ctr, "blk-ctr", "block counter %02x, expected %02x", b[1], ecu.ctr);
	ecu.ctr++;
	ecu.ri = 0;
	if (ecu.badsent) {
		VMC_CHECK(b[2] == NOACK && n == 4 && b[3] == ecu.lastctr, "noack", "a damaged block (counter %02x) was not refused", ecu.lastctr);
		ecu_send(&ecu.cur, BAD_NONE);
		return;
	}
	if (ecu.expect == EXP_ACK) {
		VMC_CHECK(b[2] == ACK && n == 3, "ack", "block not acknowledged");
	} else {
		VMC_CHECK(b[2] == reqt && n == reqn + 3 && !memcmp(b + 3, reqd, (size_t)reqn), "req", "the request block on the wire differs from the request");
		nreqs++;
	}
	ecu_next();
}

static int h_send(struct mock *m, const uint8_t *d, size_t n) {
	if (m->framed) {
		memcpy(ecu.rb, d, n < 300 ? n : 300);
		VMC_CHECK(n == (size_t)d[0] + 1, "framelen", "frame of %zu bytes with length byte %d", n, d[0]);
		ecu.rt = ms();
		if (ecu.st == 3) {
			on_block();
		}
		return 1;
	}
	VMC_CHECK(n == 1, "bytewise", "%zu bytes sent at once", n);
	if (ecu.st == 0 || ecu.st == 4) {
		return 1;
	}
	if (ecu.st == 1) {
		vmc_fail("collision", "tester sends %02x while it is the ECU's turn", d[0]);
	}
	if (ecu.st == 2) {
		uint8_t c = d[0];
		if (faults == 0) {
			VMC_CHECK(c == (uint8_t)~ecu.tb[ecu.ti], "complement", "byte %02x answered by %02x", ecu.tb[ecu.ti], c);
		}
		if (c != (uint8_t)~ecu.tb[ecu.ti] || (lineon && vmc_dev(2, "complement lost"))) {
			faults++;
			return 1;       /* restart follows */
		}
		ecu.ti++;
		ecu.st = 1;
		ecu.t = ms() + pace.byte;
		return 1;
	}
	/* receiving */
	if (ecu.ri && ms() - ecu.rt > R8) {
		ecu.ri = 0;
	}
	int f = 0;
	bool last = ecu.ri && ecu.ri == ecu.rb[0];
	if (lineon && !last) {
		f = vmc_dev(5, "tester byte");
	}
	if (f == 3) {
		died = 1;
		ecu.st = 4;
		return 1;
	}
	faults += f != 0;
	if (f == 1) {
		ecu.rt = ms();
		return 1;
	}
	ecu.rb[ecu.ri++] = (uint8_t)(d[0] ^ (f == 4 ? 0x10 : 0));
	ecu.rt = ms();
	if (last) {
		on_block();
		return 1;
	}
	ecu.comp = (uint8_t)(~d[0] ^ (f == 2 || f == 4 ? 0x10 : 0));
	ecu.ct = ms() + pace.comp;
	return 1;
}

static int h_recv(struct mock *m, uint8_t *d, size_t n, unsigned tmo) {
	if (mk_pending()) {
		return MK_DEFAULT;
	}
	uint64_t end = ms() + tmo;
	for (;;) {
		vmc_tick();
		if (ecu.comp >= 0 && ecu.ct <= end) {
			if (ms() < ecu.ct) {
				env_now = ecu.ct * 1000;
			}
			d[0] = (uint8_t)ecu.comp;
			ecu.comp = -1;
			return 1;
		}
		if (ecu.st == 2 && ecu.t + 2 * R8 <= end) {
			/* no (right) complement: start again */
			if (++ecu.restarts > 3) {
				ecu.st = 4;
				continue;
			}
			ecu.ti = 0;
			ecu.st = 1;
			ecu.t += 2 * R8;
			continue;
		}
		if (ecu.st == 1 && ecu.t <= end) {
			if (ms() < ecu.t) {
				env_now = ecu.t * 1000;
			}
			if (m->framed) {
				int k = ecu.tn < (int)n ? ecu.tn : (int)n;
				memcpy(d, ecu.tb, (size_t)k);
				ecu_sent();
				return k;
			}
			bool last = ecu.ti == ecu.tn - 1;
			uint8_t b = ecu.tb[ecu.ti];
			int f = lineon ? vmc_dev(4, "ECU byte") : 0;
			if (f == 3) {
				died = 1;
				ecu.st = 4;
				continue;
			}
			if (f) {
				faults++;
			}
			if (f == 1 && !last) {
				lost = 1;       /* the ECU may start again too late for us */
			}
			if (last) {
				if (f == 2) {
					b ^= vmc_enum(2, "flip") ? 0x80 : 0x01;
					ecu.badsent = true;
				}
				ecu_sent();
				if (f == 1) {
					/* the end byte got lost: the tester may assume it was right */
					if (b != 0x03 && ecu.tb[1] == (uint8_t)(ecu.ctr - 1)) {
						ecu.badsent = false;
					}
					continue;
				}
				d[0] = b;
				return 1;
			}
			ecu.st = 2;
			if (f == 1) {
				ecu.t = ms();
				continue;
			}
			if (f == 2) {
				b ^= vmc_enum(2, "flip") ? 0x80 : 0x01;
			}
			ecu.t = ms();
			d[0] = b;
			return 1;
		}
		env_now = end * 1000;
		return diag_iseterr(DIAG_ERR_TIMEOUT);
	}
}

static void add(uint8_t title, int len, int v, int bad, int expect, bool retry) {
	struct spec *s = &ecu.q[ecu.nq++];
	memset(s, 0, sizeof(*s));
	s->title = title;
	s->len = (uint8_t)len;
	for (int i = 0; i < len; i++) {
		s->d[i] = (uint8_t)(v + i * 0x21);
	}
	s->bad = bad;
	s->expect = expect;
	s->retry = retry;
}

static struct { uint8_t title; int len; uint8_t d0; } want[16];
static int nwant;
static void wantadd(uint8_t t, int len, uint8_t d0) {
	want[nwant].title = t;
	want[nwant].len = len;
	want[nwant++].d0 = d0;
}
static void check_msgs(struct diag_msg *m) {
	int i = 0;
	for (; m; m = m->next, i++) {
		VMC_CHECK(i < nwant, "extra", "a message which the ECU did not send was delivered");
		VMC_CHECK(m->type == want[i].title && m->len == (unsigned)want[i].len, "block", "block %d delivered as title %02x with %u bytes, the ECU sent title %02x with %d", i, m->type, m->len, want[i].title, want[i].len);
		for (int k = 0; k < want[i].len; k++) {
			VMC_CHECK(m->data[k] == (uint8_t)(want[i].d0 + k * 0x21), "data", "block %d: byte %d differs", i, k);
		}
	}
	VMC_CHECK(i == nwant, "missing", "%d blocks delivered, the ECU sent %d", i, nwant);
}
static void rcb(void *h, struct diag_msg *m) {
	ncb++;
	check_msgs(m);
}

static struct diag_l2_conn *begin(uint32_t flags, int extra) {
	l2h_reset(flags);
	memset(&ecu, 0, sizeof(ecu));
	ecu.comp = -1;
	ecu.ctr = 1;
	faults = died = lost = 0;
	mk.log = 0;
	memcpy(&pace, &normal, sizeof(pace));
	uint16_t k[] = {0x01, MK_EOF, 0x8A, MK_EOF};
	mk_pushq(k, 4);
	mk.recv = h_recv;
	nwant = 0;
	/* ECU identification: one block, `extra' more, then ACK */
	for (int i = 0; i <= extra; i++) {
		add(0xF6, 3 + i, 0x41 + i, 0, EXP_ACK, false);
		wantadd(0xF6, 3 + i, (uint8_t)(0x41 + i));
	}
	add(ACK, 0, 0, 0, EXP_REQ, false);
	return NULL;
}
static int kb2sent;
static int h_kb2(struct mock *m, const uint8_t *d, size_t n) {
	VMC_CHECK(n == 1 && d[0] == (uint8_t)~0x8A, "kb2", "key byte 2 not answered by its complement");
	kb2sent = 1;
	m->send = h_send;
	ecu_next();
	ecu.t = ms() + pace.first;
	return 1;
}
static struct diag_l2_conn *start(void) {
	kb2sent = 0;
	if (mk.flags & DIAG_L1_DOESSLOWINIT) {
		mk.send = h_send;
		ecu_next();
		ecu.t = ms() + pace.first;
	} else {
		mk.send = h_kb2;
	}
	return l2h_start(DIAG_L1_ISO9141, DIAG_L2_PROT_VAG, DIAG_L2_TYPE_SLOWINIT, 9600, 0x01, 0xF1);
}

/* what the ECU does with the request; fills queue and `want' */
static int plan(int kind, int v) {
	ecu.nq = ecu.qi = 0;
	nwant = 0;
	nreqs = 0;
	int ok = 1;
	switch (kind) {
	case 0: add(ACK, 0, 0, 0, EXP_REQ, 0); wantadd(ACK, 0, 0); break;
	case 1: add(0xFC, v, 0x30, 0, EXP_ACK, 0); add(ACK, 0, 0, 0, EXP_REQ, 0); wantadd(0xFC, v, 0x30); break;
	case 2: add(0xF4, 1, 0x30, 0, EXP_ACK, 0); add(0xF4, 2, 0x50, 0, EXP_ACK, 0); add(ACK, 0, 0, 0, EXP_REQ, 0);
		wantadd(0xF4, 1, 0x30); wantadd(0xF4, 2, 0x50); break;
	case 3: /* asks for the request again, v+1 times */
		for (int i = 0; i <= v; i++) {
			add(NOACK, 1, 0, 0, EXP_REQ, 1);
		}
		add(0xFC, 2, 0x11, 0, EXP_ACK, 0); add(ACK, 0, 0, 0, EXP_REQ, 0); wantadd(0xFC, 2, 0x11);
		break;
	case 4: /* refuses */
		add(NOACK, 1, 0x77, 0, EXP_REQ, 0); wantadd(NOACK, 1, 0x77); break;
	case 5: add(NOACK, 0, 0, 0, EXP_REQ, 0); wantadd(NOACK, 0, 0); break;
	case 6: add(0xFC, 2, 0x12, v == 0 ? BAD_ETX : BAD_CTR, EXP_ACK, 0); add(ACK, 0, 0, 0, EXP_REQ, 0); wantadd(0xFC, 2, 0x12); break;
	case 7: add(0xFC, 2, 0x12, v % 3 == 0 ? BAD_LEN0 : v % 3 == 1 ? BAD_LEN1 : BAD_LEN2, EXP_ACK, 0); ok = 0; break;
	case 8: ok = 0; break;          /* silence */
	case 9: /* asks for the acknowledge again */
		add(0xFC, 2, 0x13, 0, EXP_ACK, 0); add(NOACK, 1, 0, 0, EXP_ACK, 1); add(ACK, 0, 0, 0, EXP_REQ, 0); wantadd(0xFC, 2, 0x13); break;
	case 10: add(0xFC, 2, 0x14, 0, EXP_ACK, 0); ok = 0; break;      /* dies before the end of the telegram */
	case 11: add(0xFC, 2, 0x15, 0, EXP_ACK, 0); add(0xFC, 2, 0x25, v == 0 ? BAD_CTR : BAD_ETX, EXP_ACK, 0); add(ACK, 0, 0, 0, EXP_REQ, 0);
		wantadd(0xFC, 2, 0x15); wantadd(0xFC, 2, 0x25); break;
	}
	return ok;
}
#define NKIND 12

static int do_request(struct diag_l2_conn *c, int len, int ok, const char *what) {
	reqt = 0x29;
	reqn = len;
	uint8_t *h = malloc((size_t)len + 1);
	for (int i = 0; i < len; i++) {
		h[i] = reqd[i] = (uint8_t)(i * 0x13 + 1);
	}
	struct diag_msg m = l2h_msg(h, (unsigned)len);
	m.type = reqt;
	int err = 0;
	uint64_t t = ms();
	struct diag_msg *r = diag_l2_request(c, &m, &err);
	free(h);
	vmc_log("request -> %s err %d, %d faults", r ? "message" : "NULL", err, faults);
	VMC_CHECK(ms() - t < 60000, "slow", "request took %llu ms", (unsigned long long)(ms() - t));
	int f = faults;
	if (ok && !died && f == 0) {
		VMC_CHECK(r != NULL, "refused", "%s: the ECU's telegram was not returned (%d)", what, err);
	} else if (ok && !died && f == 1 && !lost) {
		VMC_CHECK(r != NULL, "norecover", "%s: a single line fault was not recovered from (%d)", what, err);
	} else if (!ok) {
		VMC_CHECK(r == NULL, "accepted", "%s: a telegram was returned", what);
	}
	int rv = r != NULL;
	if (r) {
		VMC_CHECK(err == 0, "errval", "error %d with an answer", err);
		check_msgs(r);
		VMC_CHECK(nreqs >= 1, "noreq", "answer without request");
		diag_freemsg(r);
	} else {
		VMC_CHECK(err < 0, "errval", "no answer and error code %d", err);
	}
	vmc_outcome("%s %d", what, rv);
	return rv;
}

static void session_start(int p) {
	int cap = vmc_enum(3, "capabilities");
	int extra = vmc_enum(p ? 3 : 2, "extra blocks");
	static const uint32_t caps[] = {DIAG_L1_DOESP4WAIT, DIAG_L1_DOESP4WAIT | DIAG_L1_DOESSLOWINIT, DIAG_L1_DOESP4WAIT | DIAG_L1_DOESL2FRAME};
	begin(caps[cap], extra);
	lineon = cap != 2;
	struct diag_l2_conn *c = start();
	VMC_CHECK(cap == 1 || kb2sent, "kb2", "key byte 2 not answered");
	if (!died && (faults == 0 || (faults == 1 && !lost))) {
		VMC_CHECK(c != NULL, "start", "session refused, %d line faults", faults);
	}
	vmc_outcome("start %d", c != NULL);
	if (!c) {
		VMC_CHECK(diag_geterr() < 0, "nolatch", "failed start latched no error");
		l2h_close();
		return;
	}
	lineon = 0;
	if (vmc_enum(2, "read identification")) {
		int rv = diag_l2_recv(c, 0, rcb, NULL);
		VMC_CHECK(rv == 0 && ncb == 1, "id", "ECU identification not delivered (%d)", rv);
	}
	int ok = plan(1, 2);
	faults = 0;
	do_request(c, 1, ok, "next");
	l2h_stop(c);
}

static void badstart(int p) {
	begin(DIAG_L1_DOESP4WAIT, 0);
	int k = 1 + vmc_enum(4, "failure");
	mk_clearrx();
	if (k == 1) {
		mk_push1(0x01);
		mk_push1(MK_ERR);
	} else if (k == 2) {
		mk_push1(0x01);
	} else if (k == 3) {
		mk_push1(MK_ERR);
	} else if (k == 4) {
		uint16_t q[] = {0x01, MK_EOF, 0x8A, MK_EOF};
		mk_pushq(q, 4);
		ecu.nq = 0;     /* the ECU does not talk */
	}
	struct diag_l2_conn *c = start();
	VMC_CHECK(c == NULL && diag_geterr() < 0, "badstart", "session established although the handshake failed (%d)", k);
	vmc_outcome("%d refused", k);
	l2h_close();
}

static struct diag_l2_conn *quick_start(uint32_t flags) {
	begin(DIAG_L1_DOESP4WAIT | flags, 0);
	lineon = 0;
	struct diag_l2_conn *c = start();
	VMC_CHECK(c != NULL, "start", "session refused");
	return c;
}

static void one_request(int p) {
	int fr = vmc_enum(2, "framed");
	int kind = vmc_enum(NKIND, "ECU behaviour");
	int v = vmc_enum(kind == 1 ? 4 : kind == 3 ? 6 : kind == 6 || kind == 11 ? 2 : kind == 7 ? 3 : 1, "variant");
	if (fr && (kind == 6 || kind == 11)) {
		vmc_prune();    /* counters and end bytes are the interface's business */
	}
	struct diag_l2_conn *c = quick_start(fr ? DIAG_L1_DOESL2FRAME : 0);
	lineon = !fr;
	int ok = plan(kind, v);
	if (kind == 3 && v >= 4) {
		ok = 0;         /* five retries are too many */
	}
	if (kind == 7) {
		lineon = 0;
	}
	int n = vmc_enum(p, "request data");
	int got1 = do_request(c, n, ok, "first");
	if (kind == 3 && v >= 4 && !faults && !died) {
		VMC_CHECK(nreqs == 5, "retries", "%d transmissions of the request", nreqs);
	} else if (ok && !faults && !died) {
		VMC_CHECK(nreqs == (kind == 3 ? v + 2 : 1), "retries", "%d transmissions of the request", nreqs);
	}
	/* another request afterwards, over a perfect line */
	lineon = 0;
	int f = faults;
	faults = lost = 0;
	int d = died;
	died = 0;
	if (got1 && !d) {
		VMC_CHECK(ecu.st == 3, "turn", "the exchange is over but it is not the tester's turn");
		do_request(c, 2, plan(1, 3), "second");
	} else {
		/* the session may be lost, but nothing is made up */
		mk.recv = NULL;
		mk.send = NULL;
		uint8_t b[] = {1};
		struct diag_msg m = l2h_msg(b, 1);
		m.type = 0x29;
		int err = 0;
		struct diag_msg *r = diag_l2_request(c, &m, &err);
		VMC_CHECK(r == NULL && err < 0, "dead", "an answer came from a dead ECU");
	}
	l2h_stop(c);
}

/* an ECU which takes all the time it may: R2..R7 and RB of SAE J2818 */
static void slow(int p) {
	static const uint32_t caps[] = {DIAG_L1_DOESP4WAIT, DIAG_L1_DOESP4WAIT | DIAG_L1_DOESSLOWINIT, DIAG_L1_DOESP4WAIT | DIAG_L1_DOESL2FRAME};
	int cap = vmc_enum(3, "capabilities");
	begin(caps[cap], vmc_enum(2, "extra blocks"));
	pace.kb1 = vmc_enum(2, "key byte 1") ? 49 : 5;
	pace.kb2 = vmc_enum(2, "key byte 2") ? 19 : 1;
	pace.first = vmc_enum(2, "first block") ? 49 : 25;
	pace.block = (unsigned[]){1, 200, 600, 990}[vmc_enum(4, "block")];
	pace.byte = vmc_enum(2, "byte") ? 49 : 1;
	pace.comp = vmc_enum(2, "complement") ? 49 : 1;
	unsigned blk = pace.block;
	mk_clearrx();
	mk_push1(MK_WAIT(pace.kb1));
	mk_push1(0x01);
	mk_push1(MK_EOF);
	mk_push1(MK_WAIT(pace.kb2));
	mk_push1(0x8A);
	mk_push1(MK_EOF);
	lineon = 0;
	struct diag_l2_conn *c = start();
	VMC_CHECK(c != NULL, "slow-start", "session refused, the ECU is in time");
	static const int kinds[] = {0, 1, 2, 3, 4, 6, 9};
	for (int i = 0; i < p; i++) {
		pace.block = blk;
		int k = kinds[vmc_enum(cap == 2 ? 5 : 7, "ECU behaviour")];
		do_request(c, vmc_enum(2, "request data"), plan(k, 1), "slow");
	}
	/* sent and received separately */
	plan(vmc_enum(3, "separately"), 1);
	uint8_t d[] = {0x20};
	struct diag_msg m = l2h_msg(d, 1);
	m.type = reqt = 0x29;
	reqn = 1;
	memcpy(reqd, d, 1);
	ncb = 0;
	int rv = diag_l2_send(c, &m);
	VMC_CHECK(rv == 0 && nreqs == 1, "send", "send returned %d", rv);
	rv = diag_l2_recv(c, 1000, rcb, NULL);
	VMC_CHECK(rv == 0 && ncb == 1, "slow-recv", "the ECU's telegram was not received (%d)", rv);
	l2h_stop(c);
}

/* the session is kept alive while nothing is sent: no idle second */
static void keepalive(int p) {
	diag_end();
	diag_init();
	int fr = vmc_enum(2, "framed");
	struct diag_l2_conn *c = quick_start(fr ? DIAG_L1_DOESL2FRAME : 0);
	int id = vmc_enum(3, "read identification");
	if (id == 0) {
		int rv = diag_l2_recv(c, 0, rcb, NULL);
		VMC_CHECK(rv == 0 && ncb == 1, "id", "ECU identification not delivered (%d)", rv);
	}
	uint64_t last = env_now;
	env_now += (uint64_t)vmc_enum(10, "phase") * 30000;
	int sent = 0, dead = 0;
	for (int i = 0; i < p && !dead; i++) {
		int k = (int[]){0, 1, 4, 8, 3}[vmc_dev(5, "ECU behaviour")];
		int savedn = nwant;
		__typeof__(want) saved;
		memcpy(saved, want, sizeof(want));
		plan(k, 0);
		nwant = savedn;
		memcpy(want, saved, sizeof(want));
		reqt = ACK;
		reqn = 0;
		dead = k == 8;
		env_now += 300000;
		uint64_t idle = env_now - last;
		uint64_t t = env_now;
		env_timer_fire();
		VMC_CHECK(env_now - t < 5000000, "slow", "keep-alive took long");
		VMC_CHECK(idle < 1000000, "idle", "idle for %llu us and no keep-alive block sent", (unsigned long long)idle);
		if (nreqs) {
			sent++;
			last = env_now;
		} else {
			ecu.nq = ecu.qi = 0;
			dead = 0;
		}
	}
	VMC_CHECK(dead || sent >= p / 4, "idle", "%d keep-alive blocks in %d ms", sent, p * 300);
	vmc_outcome("%d", sent);
	if (!dead) {
		if (id == 1) {
			int rv = diag_l2_recv(c, 0, rcb, NULL);
			VMC_CHECK(rv == 0 && ncb == 1, "id", "ECU identification not delivered after keep-alive (%d)", rv);
		}
		ecu.nq = ecu.qi = 0;
		do_request(c, 2, plan(1, 3), "after keep-alive");
	}
	l2h_stop(c);
}

/* sequences of exchanges; the counter wraps */
static void history(int p) {
	struct diag_l2_conn *c = quick_start(0);
	static const int kinds[] = {0, 1, 2, 3, 9, 6};
	int at = p, rot = vmc_enum(6, "first kind");
	int n = 0;
	/* run the counter up to just below the wrap */
	while (ecu.ctr < 240 && n < 200) {
		do_request(c, 1, plan(0, 0), "run-up");
		n++;
	}
	for (int i = 0; i < at; i++) {
		int k = kinds[i == 0 ? rot : vmc_enum(6, "kind")];
		do_request(c, 1, plan(k, 1), "wrap");
	}
	l2h_stop(c);
}

static void lengths(int p) {
	int fr = vmc_enum(2, "framed");
	int dir = vmc_enum(2, "direction");
	static const int ls[] = {0, 1, 2, 16, 64, 127, 128, 200, 250, 251, 252, 253, 254, 255, 256, 257, 512, 1019, 1020, 1021, 1024, 1030, 4096};
	int li = vmc_enum(sizeof(ls) / sizeof(ls[0]), "length");
	int len = ls[li];
	struct diag_l2_conn *c = quick_start(fr ? DIAG_L1_DOESL2FRAME : 0);
	if (dir) {
		if (len > 252) {
			vmc_prune();
		}
		do_request(c, 1, plan(1, len), "long answer");
	} else if (len <= 252) {
		do_request(c, len, plan(1, 2), "long request");
	} else {
		mk_cleartx();
		mk.send = NULL;
		uint8_t *h = calloc(1, (size_t)len);
		struct diag_msg m = l2h_msg(h, (unsigned)len);
		m.type = 0x29;
		int rv = diag_l2_send(c, &m);
		VMC_CHECK(rv < 0 && mk.txn == 0, "toolong", "block with %d data bytes: %d, %zu bytes sent", len, rv, mk.txn);
		free(h);
	}
	l2h_stop(c);
}

/* framed interface: any frame up to 6 bytes from a small alphabet */
static void frames(int p) {
	struct diag_l2_conn *c = quick_start(DIAG_L1_DOESL2FRAME);
	mk.recv = NULL;
	mk.send = NULL;
	static const uint8_t al[] = {0, 1, 2, 3, 4, 5, 0xFF};
	int n = vmc_enum(p + 1, "frame length");
	uint8_t b[8];
	for (int i = 0; i < n; i++) {
		b[i] = i == 0 ? al[vmc_enum(7, "length byte")] : i == 2 ? (uint8_t[]){0xF6, ACK, NOACK}[vmc_enum(3, "title")] : (uint8_t)(i * 3);
	}
	mk_push(b, (size_t)n);
	mk_push1(MK_EOF);
	/* end of telegram, if it gets that far */
	uint8_t a[] = {3, 9, ACK, 3};
	mk_push(a, 4);
	mk_push1(MK_EOF);
	uint8_t q[] = {1};
	struct diag_msg m = l2h_msg(q, 1);
	m.type = 0x29;
	int err = 0;
	struct diag_msg *r = diag_l2_request(c, &m, &err);
	bool ok = n >= 4 && b[0] >= 3 && n >= b[0] + 1;
	if (n == b[0] + 1 && ok) {
		VMC_CHECK(r != NULL, "frame-refused", "valid frame refused (%d)", err);
	}
	if (!ok) {
		VMC_CHECK(r == NULL || n == 0, "frame-accepted", "an incomplete frame of %d bytes (length byte %d) was accepted", n, b[0]);
	}
	vmc_outcome("%d %d", n, r != NULL);
	if (r && ok) {
		VMC_CHECK(r->len == (unsigned)b[0] - 3 && r->type == b[2] && !memcmp(r->data, b + 3, r->len), "frame-data", "wrong data delivered");
	}
	diag_freemsg(r);
	l2h_stop(c);
}

const struct vmc_scenario vmc_scenarios[] = {
	{"start", session_start, 0, 1, 2, VMC_INPROC, 3},
	{"badstart", badstart, 0, 0, 0, VMC_INPROC, 1},
	{"request", one_request, 2, 1, 2, VMC_INPROC, 2},
	{"request4", one_request, 4, 0, 1, VMC_INPROC, 2},
	{"slow", slow, 2, 0, 0, VMC_INPROC, 4},
	{"keepalive", keepalive, 12, 1, 2, VMC_INPROC, 3},
	{"wrap2", history, 3, 0, 0, VMC_INPROC, 6},
	{"wrap4", history, 5, 0, 0, VMC_INPROC | VMC_THOROUGH_ONLY, 6},
	{"lengths", lengths, 0, 0, 0, VMC_INPROC, 4},
	{"frames", frames, 6, 0, 0, VMC_INPROC, 1},
	{0}
};
