/* C19: a correct session of every protocol stack, changed at up to N points:
 * bytes replaced, lost, inserted, silences, errors of the interface, long runs.
 * oracle: every operation returns within a bounded number of interface calls
 * and of milliseconds; no memory error; everything released at the end. */
#include "l2h.h"
#include "diag_tty.h"

void vmc_process_init(void) { diag_init(); }

#define CPL 0x0F00              /* the complement of the byte sent last */
#define E MK_EOF
#define T 0x0F01                /* the following comes once something was sent */
#define K 0x0F02                /* sum of the bytes of this message */
#define K2 0x0F03               /* its high byte */
#define G MK_GAP

enum { OP_REQ, OP_SEND, OP_RECV, OP_TIMER };
struct stack {
	const char *name;
	int l2, l1;
	flag_type type;
	uint32_t flags;
	bool echo, initkb;
	uint8_t kb1, kb2;
	const char *l3;
	int target, source;
	int nreq;
	uint8_t req[8], reqtype;
	int n;
	uint16_t s[100];
};
#define P4 DIAG_L1_DOESP4WAIT
#define FR (DIAG_L1_DOESP4WAIT | DIAG_L1_DOESL2FRAME | DIAG_L1_DOESL2CKSUM | DIAG_L1_STRIPSL2CKSUM)
#define SLOW DIAG_L2_TYPE_SLOWINIT
#define FAST DIAG_L2_TYPE_FASTINIT
#define CNT(...) (sizeof((uint16_t[]){__VA_ARGS__}) / sizeof(uint16_t))
#define S(...) CNT(__VA_ARGS__), {__VA_ARGS__}
#define R(...) CNT(__VA_ARGS__), {__VA_ARGS__}
#define ALIVE 0x41, 0x00, 0xBE, 0x3E, 0xB8, 0x11
static const struct stack st[] = {
	{"14230slow", DIAG_L2_PROT_ISO14230, DIAG_L1_ISO14230, SLOW, 0, 0, 0, 0, 0, NULL, 0x33, 0xF1, R(0x1A, 0x80), 0,
	 S(0xEF, 0x8F, T, 0xCC, T, 0x83, 0xF1, 0x33, 0x7F, 0x1A, 0x78, K, G, 0x84, 0xF1, 0x33, 0x5A, 0x80, 0x41, 0x42, K, T, 0x82, 0xF1, 0x33, 0x5A, 0x80, K, T, 0x81, 0xF1, 0x33, 0x7E, K,
	   T, 0x83, 0xF1, 0x33, 0x7F, 0x1A, 0x21, K, T, 0x82, 0xF1, 0x33, 0x5A, 0x80, K, T, 0x81, 0xF1, 0x33, 0xC2, K)},
	{"14230short", DIAG_L2_PROT_ISO14230, DIAG_L1_ISO14230, SLOW, P4, 0, 0, 0, 0, "ISO14230", 0x10, 0xFC, R(0x21, 0x01), 0,
	 S(0x6B, 0x8F, T, 0xEF, T, 0x80, 0xFC, 0x10, 0x03, 0x61, 0x01, 0x55, K, T, 0x03, 0x61, 0x01, 0x21, K, 0x02, 0x61, 0x01, K, T, 0x01, 0x7E, K, T, 0x03, 0x61, 0x01, 0x02, K, T, 0x01, 0xC2, K)},
	{"14230fast", DIAG_L2_PROT_ISO14230, DIAG_L1_ISO14230, FAST, P4, 0, 0, 0, 0, "ISO14230", 0x33, 0xF1, R(0x10, 0x81), 0,
	 S(0x83, 0xF1, 0x33, 0xC1, 0xEF, 0x8F, K, T, 0x82, 0xF1, 0x33, 0x50, 0x81, K, T, 0x82, 0xF1, 0x33, 0x50, 0x81, K, 0x82, 0xF1, 0x34, 0x50, 0x81, K, T, 0x81, 0xF1, 0x33, 0x7E, K, T, 0x82, 0xF1, 0x33, 0x50, 0x81, K, T, 0x81, 0xF1, 0x33, 0xC2, K)},
	{"14230framed", DIAG_L2_PROT_ISO14230, DIAG_L1_ISO14230, FAST, FR, 0, 0, 0, 0, "ISO14230", 0x33, 0xF1, R(0x21, 0x02), 0,
	 S(0x83, 0xF1, 0x33, 0xC1, 0xEF, 0x8F, T, 0x83, 0xF1, 0x33, 0x7F, 0x21, 0x78, E, 0x80, 0xF1, 0x33, 0x03, 0x61, 0x02, 0x07, T, 0x82, 0xF1, 0x33, 0x61, 0x02, E, 0x83, 0xF1, 0x33, 0x61, 0x02, 0x03, T, 0x81, 0xF1, 0x33, 0x7E, T, 0x82, 0xF1, 0x33, 0x61, 0x02, T, 0x81, 0xF1, 0x33, 0xC2)},
	{"14230echo", DIAG_L2_PROT_ISO14230, DIAG_L1_ISO14230, FAST | DIAG_L2_IDLE_J1978, DIAG_L1_HALFDUPLEX, 1, 0, 0, 0, "SAEJ1979", 0x33, 0xF1, R(0x01, 0x0C), 0,
	 S(0x83, 0xF1, 0x33, 0xC1, 0xEF, 0x8F, K, T, 0x86, 0xF1, 0x33, ALIVE, K, T, 0x84, 0xF1, 0x33, 0x41, 0x0C, 0x12, 0x34, K, T, 0x84, 0xF1, 0x33, 0x41, 0x0C, 0x12, 0x34, K, T, 0x86, 0xF1, 0x33, ALIVE, K,
	   T, 0x84, 0xF1, 0x33, 0x41, 0x0C, 0x12, 0x34, K, T, 0x81, 0xF1, 0x33, 0xC2, K)},
	{"9141", DIAG_L2_PROT_ISO9141, DIAG_L1_ISO9141, SLOW, 0, 0, 0, 0, 0, "SAEJ1979", 0x33, 0xF1, R(0x01, 0x0C), 0,
	 S(0x08, 0x08, T, 0xCC, T, 0x48, 0x6B, 0x11, ALIVE, K, T, 0x48, 0x6B, 0x11, 0x41, 0x0C, 0x12, 0x34, K, T, 0x48, 0x6B, 0x11, 0x41, 0x0C, 0x12, 0x34, K, 0x48, 0x6B, 0x12, 0x41, 0x0C, 0x12, 0x34, K,
	   T, 0x48, 0x6B, 0x11, ALIVE, K, T, 0x48, 0x6B, 0x11, 0x41, 0x0C, 0x12, 0x34, K)},
	{"9141framed", DIAG_L2_PROT_ISO9141, DIAG_L1_ISO9141, DIAG_L2_TYPE_MONINIT, FR, 0, 0, 0, 0, NULL, 0x33, 0xF1, R(0x01, 0x0C), 0,
	 S(T, 0x48, 0x6B, 0x11, 0x41, 0x0C, 0x12, 0x34, T, 0x48, 0x6B, 0x11, 0x41, 0x0C, 0x12, 0x34, E, 0x48, 0x6B, 0x12, 0x41, 0x0C, 0x12, 0x34, T, 0x48, 0x6B, 0x11, 0x41, 0x0C, 0x12, 0x34)},
	{"J1850VPW", DIAG_L2_PROT_SAEJ1850, DIAG_L1_J1850_VPW, 0, FR, 0, 0, 0, 0, "SAEJ1979", 0x6A, 0xF1, R(0x01, 0x0C), 0,
	 S(T, 0x48, 0x6B, 0x10, ALIVE, T, 0x48, 0x6B, 0x10, 0x41, 0x0C, 0x12, 0x34, T, 0x48, 0x6B, 0x10, 0x41, 0x0C, 0x12, 0x34, T, 0x48, 0x6B, 0x10, ALIVE, T, 0x48, 0x6B, 0x10, 0x41, 0x0C, 0x12, 0x34)},
	{"J1850PWM", DIAG_L2_PROT_SAEJ1850, DIAG_L1_J1850_PWM, 0, DIAG_L1_DOESP4WAIT | DIAG_L1_DOESL2FRAME, 0, 0, 0, 0, NULL, 0x6A, 0xF1, R(0x01, 0x0C), 0,
	 S(T, 0x41, 0x6B, 0x10, 0x41, 0x0C, 0x12, 0x34, 0x1B, T, 0x41, 0x6B, 0x10, 0x41, 0x0C, 0x12, 0x34, 0x1B, E, 0x41, 0x6B, 0x10, 0x41, 0x0C, 0x12, 0x34, 0x1B, T, 0x41, 0x6B, 0x10, 0x41, 0x0C, 0x12, 0x34, 0x1B)},
	{"VAG", DIAG_L2_PROT_VAG, DIAG_L1_ISO9141, SLOW, 0, 0, 0, 0, 0, "VAG", 0x01, 0, 0, {0}, 0x07,
	 S(0x01, 0x8A, T, 0x04, 0x01, 0xF6, 0x41, 0x03, CPL, CPL, CPL, 0x03, 0x03, 0x09, 0x03,
	   CPL, CPL, CPL, 0x04, 0x05, 0xFC, 0x88, 0x03, CPL, CPL, CPL, 0x03, 0x07, 0x09, 0x03,
	   CPL, CPL, CPL, 0x04, 0x09, 0xFC, 0x89, 0x03, CPL, CPL, CPL, 0x03, 0x0B, 0x09, 0x03, CPL, CPL, CPL, 0x03, 0x0D, 0x09, 0x03, CPL, CPL, CPL, 0x04, 0x0F, 0xFC, 0x89, 0x03, CPL, CPL, CPL, 0x03, 0x11, 0x09, 0x03, CPL, CPL, CPL)},
	{"VAGframed", DIAG_L2_PROT_VAG, DIAG_L1_ISO9141, SLOW, DIAG_L1_DOESP4WAIT | DIAG_L1_DOESL2FRAME | DIAG_L1_DOESSLOWINIT, 0, 1, 0x01, 0x8A, NULL, 0x01, 0, 0, {0}, 0x07,
	 S(0x01, E, 0x8A, E, 0x04, 0x01, 0xF6, 0x41, 0x03, T, 0x03, 0x03, 0x09, 0x03, T, 0x04, 0x05, 0xFC, 0x88, 0x03, T, 0x03, 0x07, 0x09, 0x03, T, 0x04, 0x09, 0xFC, 0x88, 0x03, T, 0x03, 0x0B, 0x09, 0x03, T, 0x03, 0x0D, 0x09, 0x03, T, 0x04, 0x0F, 0xFC, 0x88, 0x03, T, 0x03, 0x11, 0x09, 0x03)},
	{"MB1", DIAG_L2_PROT_MB1, DIAG_L1_ISO9141, SLOW, P4, 0, 0, 0, 0, NULL, 0x07, 0xF1, R(0x11, 0x01), 0x41,
	 S(0xC2, 0xCD, T, 0x07, 0x50, 0x07, 0x11, 0x22, K, K2, T, 0x07, 0x41, 0x07, 0x11, 0x22, K, K2, T, 0x07, 0x41, 0x06, 0x11, K, K2, T, 0x07, 0x50, 0x05, K, K2, T, 0x07, 0x41, 0x06, 0x11, K, K2, T, 0x07, 0x50, 0x05, K, K2)},
	{"D2", DIAG_L2_PROT_D2, DIAG_L1_ISO9141, SLOW, P4 | DIAG_L1_DOESL2FRAME | DIAG_L1_DOESL2CKSUM | DIAG_L1_DOESFULLINIT, 0, 1, 0xD3, 0xB0, NULL, 0x7A, 0x13, R(0xB9, 0xF0), 0,
	 S(T, 0x84, 0x13, 0x7A, 0x7E, 0xB9, 0x23, K, E, 0x84, 0x13, 0x7A, 0xF9, 0xF0, 0x01, K, T, 0x83, 0x13, 0x7A, 0xF9, 0xF0, K, T, 0x83, 0x13, 0x7A, 0xE1, 0x00, K, T, 0x84, 0x13, 0x7A, 0xF9, 0xF0, 0x02, K, T, 0x83, 0x13, 0x7A, 0xE0, 0x00, K)},
	{"RAW", DIAG_L2_PROT_RAW, DIAG_L1_RAW, 0, P4, 0, 0, 0, 0, "SAEJ1979", 0x33, 0xF1, R(0x01, 0x0C), 0,
	 S(T, ALIVE, T, 0x41, 0x0C, 0x12, 0x34, T, 0x41, 0x0C, 0x12, 0x34, G, 0x41, 0x0C, 0x12, 0x34, T, ALIVE, T, 0x41, 0x0C, 0x12, 0x34)},
	{"RAW14230", DIAG_L2_PROT_RAW, DIAG_L1_RAW, 0, 0, 0, 0, 0, 0, "ISO14230", 0x33, 0xF1, R(0x01, 0x0C), 0, S(T, 0x7F, 0x01, 0x78, G, 0x41, 0x0C, T, 0x41, 0x0C, T, 0x7E, T, 0x41, 0x0C)},
	{"CAN", DIAG_L2_PROT_CAN, DIAG_L1_CAN, 0, P4, 0, 0, 0, 0, NULL, 0x33, 0xF1, R(0x01, 0x0C), 0, S(0x7F, 0x01)},
};
#define NST ((int)(sizeof(st) / sizeof(st[0])))

static const struct stack *P;
static int pos, burst, small, msgs;
static size_t want;
static bool dead, fresh;
static unsigned sum, ksum;
static size_t turntx;
static long opcalls, nbytes;
static const uint8_t ab[] = {0x00, 0x01, 0x02, 0x03, 0x04, 0x09, 0x0A, 0x13, 0x21, 0x23, 0x3F, 0x40, 0x41, 0x55, 0x78, 0x7E, 0x7F, 0x80, 0x81, 0x82, 0x83, 0xBF, 0xC0, 0xC1, 0xF1, 0xFE, 0xFF};
#define NAB ((int)sizeof(ab))
enum { X_DEL = NAB + 1, X_INS, X_SIL, X_WAIT, X_ERR, X_BUS, X_DEAD, X_FLOOD, X_REP, X_N };

static void push(uint16_t v) {
	turntx = mk.txn;
	if (v == CPL) {
		v = mk.txn ? (uint8_t)~mk.tx[mk.txn - 1] : 0;
	}
	if (v == K || v == K2) {
		if (v == K) {
			ksum = sum;
		}
		v = v == K ? sum & 0xff : ksum >> 8;
		mk_push1(v);
		sum = 0;
		return;
	}
	sum = v < 0x100 ? sum + v : v < 0x2000 || v == E ? 0 : sum;
	nbytes++;
	mk_push1(v);
}
/* a long run of one byte */
static void flood(void) {
	static const int len[] = {20, 64, 127, 128, 255, 256, 259, 260, 265, 266, 300, 1023, 1024, 1025, 1100, 2100};
	static const uint8_t fb[] = {0x00, 0x01, 0x7E, 0x80, 0x81, 0xBF, 0xC3, 0xFF};
	uint8_t b = small ? 0xC3 : fb[vmc_enum(8, "run of")];
	int n = small ? 1100 : len[vmc_enum(16, "run length")];
	for (int i = 0; i < n; i++) {
		push(b);
	}
}
/* another message instead of the one at pos: correctly framed, other length and contents */
static bool msgend(uint16_t v) { return v == E || v == T || v == G || v == K || v == K2; }
static void message(void) {
	static const uint8_t first[] = {0x7F, 0x41, 0x42, 0x43, 0x46, 0x47, 0x49, 0xC1, 0x81, 0x00, 0x0A};
	static const uint8_t second[] = {0x00, 0x01, 0x02, 0x78, 0x21, 0x23, 0x0C, 0x20};
	static const int lens[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 11, 12, 62, 63, 64, 127, 250, 251, 252, 253, 255};
	static const int slens[] = {0, 1, 2, 3, 64, 252};
	int n = 0, h, len, rep = 1;
	uint8_t d[300] = {0}, hd[4];
	while (pos + n < P->n && !msgend(P->s[pos + n])) {
		n++;
	}
	uint8_t b = (uint8_t)P->s[pos];
	bool is14230 = P->l2 == DIAG_L2_PROT_ISO14230;
	h = P->l2 == DIAG_L2_PROT_RAW || P->l2 == DIAG_L2_PROT_CAN ? 0 : is14230 ? (b == 0x80 ? 4 : b & 0x80 ? 3 : 1) : 3;
	if (h > n) {
		h = n;
	}
	bool vag = P->l2 == DIAG_L2_PROT_VAG;
	for (int i = 0; i < h; i++) {
		hd[i] = (uint8_t)P->s[pos + i];
	}
	int m = 0;
	for (int i = h; i < n - vag; i++) {
		d[m++] = P->s[pos + i] == CPL ? 0 : (uint8_t)P->s[pos + i];
	}
	int f;
	if (small) {
		len = slens[vmc_enum(6, "message length")];
		f = vmc_enum(3, "first byte");
	} else {
		len = lens[vmc_enum(20, "message length")];
		f = vmc_enum(12, "first byte");
		int k = len >= 2 ? vmc_enum(9, "second byte") : 0;
		if (k) {
			d[1] = second[k - 1];
		}
		if (f == 0 && k == 0 && vmc_enum(2, "many")) {
			rep = 60;
		}
	}
	if (f) {
		d[0] = first[f - 1];
	}
	uint8_t keep = d[0], keep1 = d[1];
	memset(d + m, 0x41, sizeof(d) - (size_t)m);
	if (m < 2) {
		d[1] = keep1;
	}
	d[0] = keep;
	switch (P->l2) {
	case DIAG_L2_PROT_ISO14230:
		if (len > 63 && (h == 3 || h == 1)) {
			len = 63;
		}
		if (h == 1) {
			hd[0] = (uint8_t)len;
		} else if (h == 3) {
			hd[0] = (uint8_t)(0x80 | len);
		} else {
			hd[3] = (uint8_t)len;
		}
		break;
	case DIAG_L2_PROT_MB1: len = len > 250 ? 250 : len; hd[2] = (uint8_t)(len + 5); break;
	case DIAG_L2_PROT_D2: len = len > 62 ? 62 : len; hd[0] = (uint8_t)(0x80 | (len + 1)); break;
	case DIAG_L2_PROT_VAG: len = len > 252 ? 252 : len; hd[0] = (uint8_t)(len + 3); break;
	}
	pos += n;
	int p0 = pos, nk = 0;
	while (pos < P->n && (P->s[pos] == K || P->s[pos] == K2)) {
		pos++;
		nk++;
	}
	if (pos < P->n && P->s[pos] == E) {
		pos++;
	}
	for (int r = 0; r < rep; r++) {
		sum = 0;
		for (int i = 0; i < h; i++) {
			push(hd[i]);
		}
		for (int i = 0; i < len; i++) {
			push(d[i]);
		}
		if (vag) {
			push(0x03);
		}
		for (int i = 0; i < nk; i++) {
			push(P->s[p0 + i]);
		}
		if (P->flags & DIAG_L1_DOESL2FRAME) {
			push(E);
		}
	}
}
/* the next token of the session (and what may happen to it) */
static bool token(void) {
	uint16_t v = pos < P->n ? P->s[pos] : G;
	bool end = pos >= P->n;
	if (dead) {
		return false;
	}
	if (v == T) {
		sum = 0;
		if (mk.txn == turntx || !fresh) {
			return false;
		}
		turntx = mk.txn;
		pos++;
		return token();
	}
	int x;
	if (msgs && !end && (pos == 0 || (msgend(P->s[pos - 1]) && P->s[pos - 1] != K2)) && !msgend(v) && vmc_dev(2, "message")) {
		message();
		return true;
	}
	if (msgs) {
		if (end) {
			return false;
		}
		x = 0;
	} else if (small) {
		static const uint8_t sx[] = {0, 1, 18, 27, X_DEL, X_INS, X_SIL, X_ERR, X_FLOOD};
		x = sx[vmc_dev(sizeof(sx), "next byte")];
	} else {
		x = vmc_dev(X_N, "next byte");
	}
	if (end && (x == 0 || x == X_DEL)) {
		return false;
	}
	if (!end && x != X_INS) {
		pos++;
	}
	if (x == 0) {
		push(v);
	} else if (x <= NAB) {
		push(ab[x - 1]);
	} else {
		switch (x) {
		case X_DEL: return token();
		case X_INS: push(small ? 0x80 : ab[vmc_enum(NAB, "inserted")]); break;
		case X_SIL: push(G); push(v); break;
		case X_WAIT: push(MK_WAIT(vmc_enum(2, "late") ? 30 : 3)); push(v); break;
		case X_ERR: push(MK_ERR); break;
		case X_BUS: push((uint16_t[]){MK_ERRC(DIAG_ERR_BADCSUM), MK_ERRC(DIAG_ERR_BADRATE), MK_ERRC(DIAG_ERR_INCDATA), MK_ERRC(DIAG_ERR_TIMEOUT)}[vmc_enum(4, "code")]); break;
		case X_DEAD: dead = true; return false;
		case X_FLOOD: flood(); break;
		case X_REP:
			/* the rest of the session starts again */
			pos = vmc_enum(2, "back") ? 0 : pos > 6 ? pos - 6 : 0;
			push(v);
			break;
		}
	}
	return true;
}
static void h_idle(struct mock *m, unsigned tmo) {
	fresh = true;
	while (token()) {
		uint16_t l = mk.q[mk.qt - 1];
		fresh = false;
		if (l >= 0x1000 || (!m->framed && !burst && mk_pending() >= (int)want)) {
			break;
		}
	}
	if (m->framed && !fresh && m->q[m->qt - 1] < 0x100) {
		mk_push1(E);
	}
}
static int h_recv(struct mock *m, uint8_t *d, size_t n, unsigned tmo) {
	opcalls++;
	want = n;
	VMC_CHECK(n > 0, "read0", "the interface was asked for 0 bytes");
	return MK_DEFAULT;
}
static int h_send(struct mock *m, const uint8_t *d, size_t n) {
	opcalls++;
	int x = vmc_dev(3, "send");
	return x == 0 ? 1 : x == 1 ? DIAG_ERR_GENERAL : DIAG_ERR_TIMEOUT;
}
static int h_ioctl(struct mock *m, unsigned cmd, void *d) {
	opcalls++;
	if (cmd == DIAG_IOCTL_INITBUS && P->initkb) {
		((struct diag_l1_initbus_args *)d)->kb1 = P->kb1;
		((struct diag_l1_initbus_args *)d)->kb2 = P->kb2;
	}
	int x = vmc_dev(cmd == DIAG_IOCTL_INITBUS && P->initkb ? 4 : 2, "ioctl");
	if (x == 1) {
		return DIAG_ERR_GENERAL;
	}
	if (x == 2) {
		((struct diag_l1_initbus_args *)d)->kb1 = 0x41;
	} else if (x == 3) {
		((struct diag_l1_initbus_args *)d)->kb2 = 0xFF;
	}
	return MK_DEFAULT;
}

static uint64_t t0;
static long b0;
static void op(void) {
	opcalls = 0;
	b0 = nbytes;
	t0 = env_now;
}
static void done(const char *what) {
	vmc_checked();
	/* at worst a few calls per byte, plus retries */
	if (opcalls > 400 + 4 * (nbytes - b0) + 3000) {
		vmc_fail("calls", "%s: %ld interface calls", what, opcalls);
	}
	if (env_now - t0 > 120000000ULL) {
		vmc_fail("time", "%s took %ld ms", what, (long)((env_now - t0) / 1000));
	}
	vmc_state(vmc_hash(&pos, sizeof(pos), (uint64_t)ncb * 31 + (uint64_t)what[0]));
}
static unsigned sink;
static void walk(struct diag_msg *m) {
	for (; m; m = m->next) {
		for (unsigned i = 0; i < m->len; i++) {
			sink += m->data[i];
		}
		sink += m->fmt + m->src + m->dest + m->type;
	}
}
static void cb(void *h, struct diag_msg *m) {
	ncb++;
	VMC_CHECK(h == &ncb && m != NULL, "cb", "bad callback");
	walk(m);
}
static void session(int p) {
	P = &st[p & 0xff];
	burst = p >> 8 & 1;
	small = p >> 9 & 1;
	msgs = p >> 10;
	l2h_reset(P->flags);
	diag_l3_end();
	diag_l3_init();
	mk.log = vmc_replaying();
	mk.echo = P->echo;
	mk.idle = h_idle;
	mk.recv = h_recv;
	mk.send = h_send;
	mk.ioctl = h_ioctl;
	mk.bytetime_us = 100;
	mk.seg = burst ? 1 : 0;
	pos = 0;
	sum = ksum = 0;
	turntx = 0;
	dead = false;
	nbytes = 0;
	int stage = 0;
	if (diag_l2_open(&mk_dl0d, P->l1)) {
		vmc_fail("l2open", "diag_l2_open failed");
	}
	op();
	struct diag_l2_conn *c = diag_l2_StartCommunications(&mk_dl0d, P->l2, P->type, 10400, (target_type)P->target, (source_type)P->source);
	done("start");
	struct diag_l3_conn *l3 = NULL;
	if (c) {
		stage++;
		if (P->l3) {
			op();
			l3 = diag_l3_start(P->l3, c);
			done("l3 start");
		}
		struct diag_msg m = l2h_msg(P->req, (unsigned)P->nreq);
		m.type = P->reqtype;
		m.dest = (uint8_t)P->target;
		m.src = (uint8_t)P->source;
		int err = 0, rv;
		char buf[400];
		for (int i = 0; i < 2; i++) {
			op();
			struct diag_msg *r = l3 ? diag_l3_request(l3, &m, &err) : diag_l2_request(c, &m, &err);
			done("request");
			if (r) {
				stage += 10;
				walk(r);
				if (l3) {
					diag_l3_decode(l3, r, buf, sizeof(buf));
				}
				diag_freemsg(r);
			} else {
				VMC_CHECK(err < 0, "noerr", "a request without answer gave no error (%d)", err);
			}
			if (i) {
				break;
			}
			op();
			rv = l3 ? diag_l3_send(l3, &m) : diag_l2_send(c, &m);
			done("send");
			op();
			rv = l3 ? diag_l3_recv(l3, 100, cb, &ncb) : diag_l2_recv(c, 100, cb, &ncb);
			stage += rv >= 0 ? 100 : 0;
			done("receive");
			op();
			rv = l3 ? diag_l3_recv(l3, 400, cb, &ncb) : diag_l2_recv(c, 400, cb, &ncb);
			done("receive");
			env_now += 6000000;
			op();
			diag_l3_timer();
			diag_l2_timer();
			done("timer");
		}
		if (l3) {
			op();
			(void)diag_l3_stop(l3);
			done("l3 stop");
		}
		op();
		(void)diag_l2_StopCommunications(c);
		done("stop");
	} else {
		VMC_CHECK(diag_geterr() < 0, "nolatch", "failed start without an error");
	}
	vmc_outcome("%s %d", P->name, stage);
	l2h_close();
}

#define SC(i, t) {"stack" #i, session, i, 1, 1, VMC_INPROC, 4}, {"burst" #i, session, i | 0x100, 1, 1, VMC_INPROC, 4}, \
	{"message" #i, session, i | 0x400, 1, 1, VMC_INPROC, 4}, {"mburst" #i, session, i | 0x500, 1, 1, VMC_INPROC, 4}, \
	{"mtwo" #i, session, i | 0x600, 2, 3, VMC_INPROC, 4}, {"mbtwo" #i, session, i | 0x700, 2, 3, VMC_INPROC, 4}, \
	{"stacktwo" #i, session, i | 0x200, 2, t, VMC_INPROC, 16}, {"bursttwo" #i, session, i | 0x300, 2, t, VMC_INPROC, 16}
const struct vmc_scenario vmc_scenarios[] = {
	SC(0, 2), SC(1, 3), SC(2, 2), SC(3, 2), SC(4, 2), SC(5, 2), SC(6, 3), SC(7, 3), SC(8, 3), SC(9, 2), SC(10, 3), SC(11, 3), SC(12, 2), SC(13, 3), SC(14, 3), SC(15, 3),
	{0}
};
