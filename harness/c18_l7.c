/* C18: the L7 services of Volvo ECUs (D2 and KWP71 over KWP1281), over the real L2
 * drivers and a model of the ECU.
 * oracle: the request bytes denoted by the arguments; the result computed from the
 * response the ECU actually gave. */
#include "l2h.h"
#include "diag_l7_d2.h"
#include "diag_l7_kwp71.h"

void vmc_process_init(void) { diag_init(); }

#define CAPD2 (DIAG_L1_DOESL2FRAME | DIAG_L1_DOESL2CKSUM | DIAG_L1_DOESFULLINIT | DIAG_L1_DOESP4WAIT)
#define CAPVAG (DIAG_L1_DOESP4WAIT | DIAG_L1_DOESL2FRAME | DIAG_L1_DOESSLOWINIT)

enum svc { PING, READ, DTCS, CLEAR, IOC, ROUT };
struct op {
	enum svc s;
	enum l7_namespace ns;
	uint16_t addr;
	int len;        /* buffer length / repetitions */
};

/* what the ECU does with a request */
enum { RIGHT, SHORTER, CHANGED, NEG, SILENT, IFERR, BUSY, BADSUM, SENDERR, FOREIGN, NKIND };
struct reply {
	int kind, n, arg;       /* n: data bytes; arg: kind dependent */
	int more;               /* further messages of the same answer */
};

static bool vag;
/* the ECU: answers the i-th request of an operation with plan[i] */
static struct reply plan[8];
static int nreq, planned;
static struct { uint8_t d[300]; int n; } req[64], rsp[64];    /* rsp: n = -1: none usable */
static int dataseed;
/* KWP1281 */
static uint8_t ctr;
static struct { uint8_t d[300]; int n; } blk[300];
static int nblk, sentblk;
static int acks;

static uint8_t dat(int i) { return (uint8_t)(dataseed + i * 37); }

/* ---------------- D2 */
static void d2frame(const uint8_t *p, int n, int bad) {
	uint8_t b[80];
	b[0] = (uint8_t)(0x80 | (n + 1));
	b[1] = 0x13;
	b[2] = 0x7A;
	memcpy(b + 3, p, (size_t)n);
	b[n + 3] = (uint8_t)(sum8(b, (size_t)n + 3) + bad);
	mk_push(b, (size_t)n + 4);
	mk_push1(MK_EOF);
}
/* the positive response with n data bytes */
static int positive(const uint8_t *q, int qn, int n, uint8_t *r) {
	int l = 0;
	if (vag) {
		switch (q[0]) {
		case 0x01: r[l++] = 0xFE; break;
		case 0x03: r[l++] = 0xFD; break;
		case 0x07: r[l++] = 0xFC; break;
		case 0x08: r[l++] = 0xFB; break;
		default: r[l++] = 0x09; break;
		}
	} else {
		r[l++] = q[0] ^ 0x40;
		int echo = q[0] == 0xA7 ? 3 : qn > 1 ? 1 : 0;
		for (int i = 0; i < echo && i + 1 < qn; i++) {
			r[l++] = q[i + 1];
		}
	}
	for (int i = 0; i < n; i++) {
		r[l++] = dat(i);
	}
	return l;
}
static void vagblk(const uint8_t *p, int n) {
	blk[nblk].n = n;
	memcpy(blk[nblk++].d, p, (size_t)n);
}
static void vagsend(void) {
	if (sentblk < nblk) {
		uint8_t b[300];
		int n = blk[sentblk].n;
		b[0] = (uint8_t)(n + 2);
		b[1] = (uint8_t)(ctr + 1);
		memcpy(b + 2, blk[sentblk].d, (size_t)n);
		b[n + 2] = 0x03;
		mk_push(b, (size_t)n + 3);
		mk_push1(MK_EOF);
		sentblk++;
	}
}

static int h_send(struct mock *m, const uint8_t *d, size_t n) {
	uint8_t q[300], r[300];
	int qn;
	if (vag) {
		if (n < 4 || d[0] != n - 1 || d[n - 1] != 3) {
			vmc_fail("block", "a block of %zu bytes with length byte %02x was sent", n, d[0]);
		}
		ctr = d[1];
		qn = (int)n - 3;
		memcpy(q, d + 2, (size_t)qn);
		if (q[0] == 0x09 && sentblk > 0 && blk[sentblk - 1].d[0] != 0x09 && blk[sentblk - 1].d[0] != 0x0A && nblk) {
			/* acknowledgement of a block of the answer */
			acks++;
			if (sentblk == nblk) {
				static const uint8_t a[] = {0x09};
				vagblk(a, 1);
			}
			vagsend();
			if (sentblk == nblk && blk[nblk - 1].d[0] == 9) {
				nblk = sentblk = 0;
			}
			return 1;
		}
		nblk = sentblk = 0;
	} else {
		if (n < 4 || d[0] != 0x80 + n - 2 || d[1] != 0x7A || d[2] != 0x13) {
			vmc_fail("frame", "wrong frame header %02x %02x %02x for %zu bytes", d[0], d[1], d[2], n);
		}
		qn = (int)n - 3;
		memcpy(q, d + 3, (size_t)qn);
	}
	if (nreq >= 60) {
		vmc_fail("manyreq", "more than 60 requests for one operation");
	}
	memcpy(req[nreq].d, q, (size_t)qn);
	req[nreq].n = qn;
	rsp[nreq].n = -1;
	struct reply p = nreq < planned ? plan[nreq] : (struct reply){RIGHT, 2, 0, 0};
	if (nreq == planned - 1 && p.kind == BUSY && vag) {
		/* not understood: repeat */
		planned++;
		plan[nreq + 1] = (struct reply){RIGHT, p.n, 0, p.more};
	}
	int i = nreq++;
	int l = positive(q, qn, p.n, r);
	switch (p.kind) {
	case SENDERR:
		return DIAG_ERR_GENERAL;
	case SILENT:
		return 1;
	case IFERR:
		mk_push1(MK_ERR);
		return 1;
	case NEG:
		l = 0;
		if (vag) {
			r[l++] = 0x0A;
			r[l++] = 0x55;
		} else {
			r[l++] = 0x7E;
			r[l++] = q[0];
			r[l++] = (uint8_t)p.arg;
		}
		break;
	case SHORTER:
		l = l > p.arg ? l - p.arg : 1;
		break;
	case CHANGED:
		if ((p.arg >> 4) < l) {
			r[p.arg >> 4] ^= (uint8_t[]){0x01, 0x40, 0x80, 0xff, 0x02}[p.arg & 15];
		}
		break;
	case BUSY:
		if (vag) {
			l = 0;
			r[l++] = 0x0A;
			r[l++] = ctr;
			vagblk(r, l);
			vagsend();
			nblk = sentblk = 0;
			return 1;
		} else {
			const uint8_t b[] = {0x7E, q[0], 0x23};
			for (int k = 0; k < p.arg; k++) {
				d2frame(b, 3, 0);
			}
		}
		break;
	case FOREIGN: /* the answer to another request */
		r[0] = vag ? 0xF6 : (uint8_t)(q[0] ^ 0x41);
		break;
	}
	if (vag) {
		vagblk(r, l);
		for (int k = 0; k < p.more; k++) {
			r[1] ^= 0x11;
			vagblk(r, l);
		}
		r[1] ^= p.more & 1 ? 0x11 : 0;
		vagsend();
		if (blk[0].d[0] == 0x09 || blk[0].d[0] == 0x0A) {
			nblk = sentblk = 0;
		}
	} else {
		d2frame(r, l, p.kind == BADSUM);
		for (int k = 0; k < p.more; k++) {
			d2frame(r, l, 0);
		}
	}
	if (p.kind != BADSUM || vag) {
		memcpy(rsp[i].d, r, (size_t)l);
		rsp[i].n = l;
	}
	return 1;
}

static struct diag_l2_conn *conn;
static void begin(bool v) {
	vag = v;
	l2h_reset(v ? CAPVAG : CAPD2);
	if (v) {
		const uint16_t q[] = {0x01, MK_EOF, 0x8A, MK_EOF, 0x04, 0x01, 0xF6, 0x41, 0x03, MK_EOF, 0x03, 0x03, 0x09, 0x03, MK_EOF};
		mk_pushq(q, sizeof(q) / sizeof(q[0]));
		conn = l2h_start(DIAG_L1_ISO9141, DIAG_L2_PROT_VAG, DIAG_L2_TYPE_SLOWINIT, 0, 0x01, 0xF1);
	} else {
		conn = l2h_start(DIAG_L1_ISO9141, DIAG_L2_PROT_D2, DIAG_L2_TYPE_SLOWINIT, 0, 0x7A, 0x13);
	}
	VMC_CHECK(conn, "start", "the session was refused");
	nblk = sentblk = acks = 0;
	mk_cleartx();
	mk.send = h_send;
}
static void finish(void) {
	mk.send = NULL;
	mk_clearrx();
	mk.log = 0;
	l2h_stop(conn);
}

static int run(const struct op *o, uint8_t *out) {
	if (vag) {
		switch (o->s) {
		case PING: return diag_l7_kwp71_ping(conn);
		case READ: return diag_l7_kwp71_read(conn, o->ns, o->addr, o->len, out);
		case DTCS: return diag_l7_kwp71_dtclist(conn, o->len, out);
		default: return diag_l7_kwp71_cleardtc(conn);
		}
	}
	switch (o->s) {
	case PING: return diag_l7_d2_ping(conn);
	case READ: return diag_l7_d2_read(conn, o->ns, o->addr, o->len, out);
	case DTCS: return diag_l7_d2_dtclist(conn, o->len, out);
	case CLEAR: return diag_l7_d2_cleardtc(conn);
	case IOC: return diag_l7_d2_io_control(conn, (uint8_t)o->addr, (uint8_t)o->len);
	default: return diag_l7_d2_run_routine(conn, (uint8_t)o->addr);
	}
}

/* the request(s) denoted by the arguments; 0: refused without asking the ECU */
static int want_req(const struct op *o, uint8_t w[2][8], int wn[2]) {
	uint8_t hi = (uint8_t)(o->addr >> 8), lo = (uint8_t)o->addr, n = (uint8_t)o->len;
#define W(k, ...) do { const uint8_t t_[] = {__VA_ARGS__}; memcpy(w[k], t_, sizeof(t_)); wn[k] = (int)sizeof(t_); } while (0)
	if (vag) {
		switch (o->s) {
		case PING: W(0, 0x09); return 1;
		case READ:
			switch (o->ns) {
			case NS_MEMORY: W(0, 0x01, n, hi, lo); return 1;
			case NS_ROM: W(0, 0x03, n, hi, lo); return 1;
			case NS_ADC:
				if (hi) {
					return 0;
				}
				W(0, 0x08, lo);
				return 1;
			default: return 0;
			}
		case DTCS: W(0, 0x07); return 1;
		default: W(0, 0x07); W(1, 0x05); return 2;
		}
	}
	switch (o->s) {
	case PING: W(0, 0xA1); return 1;
	case READ:
		switch (o->ns) {
		case NS_MEMORY: W(0, 0xA7, 0, hi, lo, 1, n); return 1;
		case NS_LIVEDATA2: W(0, 0xA6, hi, lo, 1); return 1;
		default: break;
		}
		if (hi) {
			return 0;
		}
		switch (o->ns) {
		case NS_LIVEDATA: W(0, 0xA5, lo, 1); return 1;
		case NS_NV: W(0, 0xB9, lo); return 1;
		case NS_FREEZE: W(0, 0xAD, lo, 0); return 1;
		default: return 0;
		}
	case DTCS: W(0, 0xAE, 1); return 1;
	case CLEAR: W(0, 0xAE, 1); W(1, 0xAF, 1); return 2;
	case IOC:
		if (o->len) {
			W(0, 0xB0, lo, 0x32, n);
		} else {
			W(0, 0xB0, lo);
		}
		return 1;
	default: W(0, 0xB2, lo); return 1;
	}
}

static void check(const struct op *o, int rv, const uint8_t *out, int outsz, bool af) {
	uint8_t w[2][8];
	int wn[2], nw = want_req(o, w, wn), k = 0, step = 0;
	/* requests: each of the wanted ones, repeated only when the ECU asked for it */
	bool down = false;
	int final = -1, first = -1;
	for (k = 0; k < nreq; k++) {
		VMC_CHECK(step < nw && !down, "extra", "request %d %02x sent although %s", k, req[k].d[0], down ? "the previous one failed" : "everything was asked");
		VMC_CHECK(req[k].n == wn[step] && !memcmp(req[k].d, w[step], (size_t)wn[step]), "request", "svc %d ns %d addr %x len %d: request %d is %d bytes %02x %02x %02x %02x %02x %02x",
			  o->s, o->ns, o->addr, o->len, k, req[k].n, req[k].d[0], req[k].d[1], req[k].d[2], req[k].d[3], req[k].d[4], req[k].d[5]);
		if (k < planned && plan[k].kind == BUSY && vag) {
			continue;
		}
		if (step == 0) {
			first = k;
		}
		final = k;
		step++;
		down = rsp[k].n < 0;
	}
	if (nw == 0 || nreq == 0) {
		VMC_CHECK(nreq == 0 && rv < 0 && (nw == 0 || af), "refuse", "svc %d ns %d addr %x: result %d without a request", o->s, o->ns, o->addr, rv);
		return;
	}
	if (first < 0) {
		VMC_CHECK(rv < 0, "result", "result %d although the ECU accepted no request", rv);
		return;
	}
	int e; /* expected; INT_MIN: any error */
	const int ERRV = -100000;
	const uint8_t *r = rsp[first].d;
	int n = rsp[first].n;
	const uint8_t *ed = NULL;
	int ecopy = 0;
	if (vag) {
		bool pos = n > 0 && r[0] == (o->s == PING ? 0x09 : o->s == READ ? (o->ns == NS_MEMORY ? 0xFE : o->ns == NS_ROM ? 0xFD : 0xFB) : 0xFC);
		n--;
		e = ERRV;
		if (pos) {
			switch (o->s) {
			case PING: e = 0; break;
			case READ:
				if (n == (o->ns == NS_ADC ? 2 : o->len)) {
					e = n;
					ed = r + 1;
				}
				break;
			default:
				e = n == 1 && r[1] == 0 ? 0 : n;
				ed = r + 1;
			}
		}
	} else {
		bool pos = n > 0 && r[0] == (req[first].d[0] ^ 0x40) && (req[first].n < 2 || (n > 1 && r[1] == req[first].d[1]));
		e = ERRV;
		if (pos) {
			switch (o->s) {
			case PING: e = 0; break;
			case READ:
				if (o->ns != NS_MEMORY) {
					e = n - 2;
					ed = r + 2;
				} else if (n == o->len + 4 && !memcmp(r + 1, req[first].d + 1, 3)) {
					e = n - 4;
					ed = r + 4;
				}
				break;
			case DTCS: case CLEAR:
				e = n - 2;
				ed = r + 2;
				break;
			default:
				if (n == 2) {
					e = 0;
				}
			}
		}
	}
	if (o->s == CLEAR) {
		ed = NULL;
		if (e <= 0) {
			VMC_CHECK(step == 1, "clearfirst", "the list read gave %d but the clear request was sent", e);
		} else {
			VMC_CHECK(step == 2 || af, "noclear", "trouble codes present but no clear request sent");
			e = ERRV;
			if (step == 2 && rsp[final].n > 0) {
				const uint8_t *r2 = rsp[final].d;
				int n2 = rsp[final].n;
				if (vag ? r2[0] == 0x09 : n2 == 2 && r2[0] == 0xEF && r2[1] == 1) {
					e = 1;
				}
			}
		}
	}
	if (af && rv < 0) {
		/* a failed allocation may fail the operation */
		return;
	}
	if (o->ns == NS_ADC && e == 2 && outsz < 2) {
		VMC_CHECK(rv == 2 || rv == outsz, "result", "ADC read into %d bytes returned %d", outsz, rv);
	} else {
		VMC_CHECK(e == ERRV ? rv < 0 : rv == e, "result", "svc %d ns %d addr %x len %d, response of %d bytes %02x %02x: result %d, expected %d", o->s, o->ns, o->addr, o->len, rsp[first].n, rsp[first].d[0], rsp[first].d[1], rv, e);
	}
	if (e > 0 && ed) {
		ecopy = e < outsz ? e : outsz;
		VMC_CHECK(!memcmp(out, ed, (size_t)ecopy), "data", "svc %d ns %d: the bytes returned differ from those of the ECU", o->s, o->ns);
	}
	for (int i = ecopy; i < outsz; i++) {
		VMC_CHECK(out[i] == 0xA5, "overwrite", "byte %d of the caller's buffer changed, %d were received", i, ecopy);
	}
}

static bool af;
static int failalloc(size_t n) {
	if (vmc_dev(2, "allocation fails")) {
		af = true;
		return 1;
	}
	return 0;
}

static void doop(const struct op *o) {
	int sz = o->s == READ || o->s == DTCS ? o->len : 0;
	uint8_t *out = malloc((size_t)sz);
	memset(out, 0xA5, (size_t)sz);
	nreq = 0;
	af = false;
	env_alloc_hook = failalloc;
	int rv = run(o, out);
	env_alloc_hook = NULL;
	check(o, rv, out, sz, af);
	vmc_outcome("%d %d", o->s, rv < 0 ? -1 : rv);
	free(out);
}

static const uint16_t addrs[] = {0x0000, 0x0001, 0x007F, 0x0080, 0x00FF, 0x0100, 0x1234, 0x8000, 0xFF00, 0xFFFF};
static struct op pickop(bool small) {
	struct op o = {0};
	static const enum svc sd2[] = {PING, READ, DTCS, CLEAR, IOC, ROUT};
	o.s = sd2[vmc_enum(vag ? 4 : 6, "service")];
	o.ns = 99;
	switch (o.s) {
	case READ: {
		static const enum l7_namespace nsv[] = {NS_MEMORY, NS_ROM, NS_ADC, NS_LIVEDATA, NS_LIVEDATA2, NS_NV, NS_FREEZE, 77};
		o.ns = nsv[vmc_enum(8, "namespace")];
		o.addr = small ? (vmc_enum(2, "address") ? 0xF1 : 0x12) : addrs[vmc_enum(10, "address")];
		static const int lens[] = {1, 2, 3, 4, 13, 57, 58, 59, 62, 63, 251, 252, 253, 255, 256};
		o.len = small ? 1 + vmc_enum(3, "length") : lens[vmc_enum(15, "length")];
		break;
	}
	case DTCS: {
		static const int lens[] = {1, 2, 4, 5, 6, 10, 11, 12, 13, 58, 252, 300};
		o.len = small ? 1 + vmc_enum(2, "length") * 11 : lens[vmc_enum(12, "length")];
		break;
	}
	case IOC: case ROUT:
		o.addr = small ? 0x21 : (uint16_t)vmc_enum(256, "id");
		if (o.s == IOC) {
			o.len = (int[]){0, 1, 2, 127, 128, 255}[vmc_enum(small ? 2 : 6, "repetitions")];
		}
		break;
	default: break;
	}
	return o;
}
/* data bytes of the right answer to the first request */
static int natural(const struct op *o) {
	int mx = vag ? 252 : 60;
	int n;
	switch (o->s) {
	case READ: n = o->ns == NS_ADC ? 2 : o->len; mx = vag ? 252 : o->ns == NS_MEMORY ? 58 : 60; break;
	case DTCS: case CLEAR: n = vag ? 10 : 3; break;
	default: n = 0;
	}
	return n < mx ? n : mx;
}
static void pickreply(const struct op *o, struct reply *p, bool clear2) {
	memset(p, 0, sizeof(*p));
	int nat = clear2 ? 0 : natural(o);
	p->kind = vmc_enum(NKIND, "reply");
	p->n = nat;
	if (p->kind == RIGHT) {
		if (!clear2 && (o->s == DTCS || o->s == CLEAR)) {
			static const int dl[] = {0, 1, 2, 3, 5, 10, 11, 12, 13, 20, 60};
			p->n = dl[vmc_enum(11, "codes")];
			if (p->n == 12 || vag) {
				p->more = vmc_enum(3, "further messages");
			}
			if (p->n == 12 && !vag) {
				p->more = (int[]){0, 1, 3}[p->more];
			}
		} else {
			int d = vmc_enum(6, "data bytes");
			int m = vag ? 252 : 62 - (o->ns == NS_MEMORY && !clear2 ? 4 : o->s == PING ? 1 : 2);
			p->n = d == 0 ? nat : d == 1 ? nat - 1 : d == 2 ? nat + 1 : d == 3 ? 0 : d == 4 ? m : nat / 2;
			p->n = p->n < 0 ? 0 : p->n > m ? m : p->n;
		}
	} else if (p->kind == SHORTER) {
		p->arg = 1 + vmc_enum(6, "missing bytes");
	} else if (p->kind == CHANGED) {
		p->arg = vmc_enum(5, "which byte") << 4;
		p->arg |= vmc_enum(5, "change");
	} else if (p->kind == NEG) {
		p->arg = (int[]){0x11, 0x12, 0x21, 0x23, 0x33, 0x10}[vag ? 0 : vmc_enum(6, "code")];
		if (p->arg == 0x23) {
			p->arg = 0x24;
		}
	} else if (p->kind == BUSY) {
		p->arg = 1 + vmc_enum(3, "times");
	}
	if ((p->kind == BADSUM || p->kind == SENDERR || p->kind == SILENT || p->kind == IFERR) && vmc_enum(2, "data") && o->s != PING) {
		p->n = nat ? nat - 1 : 1;
	}
}

/* every service, its arguments at their boundaries, a right answer */
static void args(int v) {
	begin(v);
	struct op o = pickop(false);
	dataseed = 0x31 + vmc_enum(2, "data") * 0x4F;
	int nat = natural(&o);
	plan[0] = (struct reply){RIGHT, nat, 0, 0};
	plan[1] = (struct reply){RIGHT, 0, 0, 0};
	planned = 2;
	doop(&o);
	finish();
}
/* every service, every reply */
static void replies(int v) {
	begin(v);
	struct op o = pickop(true);
	dataseed = vmc_enum(2, "data") ? 0x41 : 0;
	pickreply(&o, &plan[0], false);
	planned = 1;
	plan[1] = (struct reply){RIGHT, 0, 0, 0};
	if (o.s == CLEAR && plan[0].kind == RIGHT) {
		pickreply(&o, &plan[1], true);
		planned = 2;
	}
	if (o.s == CLEAR && planned == 1 && plan[0].kind != BUSY) {
		planned = 2;
	}
	doop(&o);
	finish();
}
/* two operations: what the first one did leaves no trace in the second */
static void pairs(int v) {
	begin(v);
	struct op o = pickop(true);
	dataseed = 0x11;
	static const struct reply rp[] = {{RIGHT, 3, 0, 0}, {RIGHT, 12, 0, 2}, {SHORTER, 2, 1, 0}, {NEG, 0, 0x11, 0}, {FOREIGN, 3, 0, 0}, {BADSUM, 2, 0, 0}};
	plan[0] = rp[vmc_enum(6, "reply")];
	if (plan[0].more && o.s != DTCS && o.s != CLEAR) {
		plan[0].more = 0;
	}
	plan[1] = (struct reply){RIGHT, 0, 0, 0};
	planned = o.s == CLEAR ? 2 : 1;
	doop(&o);
	struct op o2 = pickop(true);
	dataseed = 0x91;
	plan[0] = (struct reply){RIGHT, natural(&o2), 0, 0};
	plan[1] = (struct reply){RIGHT, 0, 0, 0};
	planned = 2;
	doop(&o2);
	finish();
}

const struct vmc_scenario vmc_scenarios[] = {
	{"d2.args", args, 0, 0, 1, 0, 16},
	{"d2.replies", replies, 0, 1, 1, 0, 32},
	{"d2.pairs", pairs, 0, 0, 1, 0, 32},
	{"vag.args", args, 1, 0, 1, 0, 16},
	{"vag.replies", replies, 1, 1, 1, 0, 32},
	{"vag.pairs", pairs, 1, 0, 1, 0, 32},
	{0},
};
