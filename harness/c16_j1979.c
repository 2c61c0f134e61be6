/* C16: what the J1979 layer hands up, for everything an L2 may deliver.
 * oracle: own table of J1979 response lengths; the messages put on the wire. */
#include "l2h.h"

void vmc_process_init(void) { diag_init(); }

static const uint8_t alive[] = {0x41, 0, 0xBE, 0x3E, 0xB8, 0x11};

/* every length class of J1979 (responses and requests), with different contents */
static const struct { uint8_t n, d[8]; } M[] = {
	{4, {0x41, 0x0C, 0x12, 0x34}},
	{6, {0x41, 0x00, 0xBE, 0x3E, 0xB8, 0x11}},
	{3, {0x41, 0x05, 0x41}},
	{1, {0x44}},
	{7, {0x43, 0x01, 0x41, 0x0C, 0x00, 0x00, 0x44}},
	{5, {0x42, 0x0C, 0x00, 0x12, 0x34}},
	{7, {0x42, 0x20, 0x01, 0xBE, 0x3E, 0xB8, 0x11}},
	{3, {0x41, 0x1C, 0x06}},
	{6, {0x41, 0x01, 0x81, 0x07, 0x65, 0x04}},
	{5, {0x42, 0x02, 0x00, 0x01, 0x30}},
	{4, {0x42, 0x05, 0x00, 0xFF}},
	{7, {0x47, 0, 0, 0, 0, 0, 0}},
	{7, {0x46, 0x01, 0x41, 0x43, 0x44, 0x45, 0x46}},
	{7, {0x48, 0x01, 0, 0, 0, 0, 0x49}},
	{7, {0x49, 0x00, 0x01, 0xFF, 0, 0, 0}},
	{3, {0x49, 0x02, 0x05}},
	{7, {0x49, 0x01, 0x01, '1', 'Z', 'V', 'X'}},
	{7, {0x45, 0x00, 0x01, 0xFF, 0, 0, 0}},
	{4, {0x45, 0x02, 0x11, 0x41}},
	{6, {0x45, 0x07, 0x11, 0x41, 0x0C, 0x00}},
	{2, {0x01, 0x0C}},
	{3, {0x02, 0x0C, 0x00}},
	{1, {0x03}},
	{4, {0x41, 0x14, 0x41, 0x14}},
	{4, {0x41, 0x03, 0x02, 0x00}},
	{3, {0x41, 0x12, 0x01}},
	{4, {0x41, 0x1F, 0x41, 0x00}},
};
#define NM ((int)(sizeof(M) / sizeof(M[0])))
/* one of each kind of length and of trap */
static const int rep[] = {0, 1, 2, 3, 4, 5, 15, 18};

static struct diag_l3_conn *start_raw(void) {
	struct diag_l2_conn *l2 = l2h_start(DIAG_L1_RAW, DIAG_L2_PROT_RAW, 0, 10400, 0x33, 0xF1);
	VMC_CHECK(l2 != NULL, "rawstart", "raw connection refused");
	mk_push(alive, sizeof(alive));
	struct diag_l3_conn *c = diag_l3_start("SAEJ1979", l2);
	VMC_CHECK(c != NULL, "start", "J1979 start refused a correct answer");
	VMC_CHECK(mk.txn == 2 && mk.tx[0] == 1 && mk.tx[1] == 0, "idlemsg", "first message is not service 1 PID 0");
	mk_cleartx();
	return c;
}
static void stop(struct diag_l3_conn *c) {
	struct diag_l2_conn *l2 = c->d_l3l2_conn;
	VMC_CHECK(diag_l3_stop(c) == 0, "l3stop", "diag_l3_stop failed");
	l2h_stop(l2);
}
/* zero length messages report bad data */
static int real_msgs(void) {
	int n = 0;
	for (int i = 0; i < ngot; i++) {
		if (got[i].len) {
			got[n++] = got[i];
		}
	}
	int bad = ngot - n;
	ngot = n;
	return bad;
}

/* sequences of valid messages in every split */
static void split(int nmsg) {
	static const uint16_t pause[] = {0, MK_WAIT(0), MK_WAIT(2), MK_WAIT(20), MK_WAIT(400)};
	int idx[4], nb = 0;
	bool slow = false;
	l2h_reset(DIAG_L1_DOESP4WAIT);
	struct diag_l3_conn *c = start_raw();
	for (int i = 0; i < nmsg; i++) {
		idx[i] = nmsg == 1 ? vmc_enum(NM, "message") : rep[vmc_enum(8, "message")];
		for (int k = 0; k < M[idx[i]].n; k++) {
			int p = nb ? vmc_dev(5, "before this byte") : 0;
			if (p) {
				mk_push1(pause[p]);
				slow = slow || p >= 3;
			}
			mk_push1(M[idx[i]].d[k]);
			nb++;
		}
	}
	int calls = 0;
	while (ngot < nmsg && calls < 6 + 2 * nmsg) {
		int before = ngot;
		int rv = diag_l3_recv(c, 300, l2h_cb, &ngot);
		calls++;
		VMC_CHECK((rv == 0) == (ngot > before), "rv", "diag_l3_recv returned %d with %d messages delivered", rv, ngot - before);
		VMC_CHECK(rv == 0 || rv == DIAG_ERR_TIMEOUT, "rverr", "diag_l3_recv returned %d", rv);
		if (rv && !slow) {
			vmc_fail("missed", "diag_l3_recv timed out before message %d of %d which had arrived without long pauses", ngot + 1, nmsg);
		}
	}
	VMC_CHECK(ngot == nmsg, "count", "%d messages sent, %d delivered", nmsg, ngot);
	for (int i = 0; i < nmsg; i++) {
		VMC_CHECK(got[i].len == M[idx[i]].n && !memcmp(got[i].d, M[idx[i]].d, got[i].len), "content", "message %d (service %02X) is not what was sent (%u bytes, should be %u)", i, M[idx[i]].d[0], got[i].len, M[idx[i]].n);
	}
	int rv = diag_l3_recv(c, 300, l2h_cb, &ngot);
	VMC_CHECK(rv == DIAG_ERR_TIMEOUT && ngot == nmsg, "extra", "something was delivered after the last message");
	vmc_state(vmc_hash(idx, sizeof(int) * (size_t)nmsg, (uint64_t)calls));
	stop(c);
}

/* anything at all, then valid messages */
static void garbage(int maxlen) {
	static const uint8_t al[] = {0x41, 0x0C, 0x00, 0x42, 0x43, 0x49, 0x45, 0xFF, 0x01, 0x0A};
	uint8_t g[8];
	l2h_reset(DIAG_L1_DOESP4WAIT);
	struct diag_l3_conn *c = start_raw();
	int n = 1 + vmc_enum(maxlen, "length");
	for (int i = 0; i < n; i++) {
		int p = i ? vmc_dev(3, "before this byte") : 0;
		if (p) {
			mk_push1(p == 1 ? MK_WAIT(0) : MK_WAIT(400));
		}
		g[i] = al[vmc_enum(10, "byte")];
		mk_push1(g[i]);
	}
	const int valid = 6;
	for (int i = 0; i < valid; i++) {
		mk_push1(MK_WAIT(350));
		mk_push(M[0].d, M[0].n);
	}
	for (int i = 0; i < 24; i++) {
		int rv = diag_l3_recv(c, 300, l2h_cb, &ngot);
		VMC_CHECK(rv == 0 || rv == DIAG_ERR_TIMEOUT, "rverr", "diag_l3_recv returned %d", rv);
	}
	int bad = real_msgs();
	VMC_CHECK(ngot > 0 && got[ngot - 1].len == M[0].n && !memcmp(got[ngot - 1].d, M[0].d, M[0].n), "blocked", "%d bytes of garbage: the last of %d valid messages was not delivered", n, valid);
	vmc_state(vmc_hash(g, (size_t)n, (uint64_t)(bad * 16 + ngot)));
	stop(c);
}
/* unknown services and PIDs, every value */
static void unknown(int p) {
	(void)p;
	l2h_reset(DIAG_L1_DOESP4WAIT);
	struct diag_l3_conn *c = start_raw();
	int a = vmc_enum(256, "service"), b = vmc_enum(256, "PID"), n = vmc_enum(3, "length");
	uint8_t m[8] = {(uint8_t)a, (uint8_t)b, 0, 0, 0, 0, 0, 0};
	static const int len[] = {1, 2, 8};
	mk_push(m, (size_t)len[n]);
	for (int i = 0; i < 6; i++) {
		mk_push1(MK_WAIT(350));
		mk_push(M[0].d, M[0].n);
	}
	for (int i = 0; i < 20; i++) {
		diag_l3_recv(c, 300, l2h_cb, &ngot);
	}
	real_msgs();
	VMC_CHECK(ngot > 0 && got[ngot - 1].len == M[0].n && !memcmp(got[ngot - 1].d, M[0].d, M[0].n), "blocked", "after service %02X PID %02X: the last of 6 valid messages was not delivered", a, b);
	stop(c);
}
/* every PID of services 1 and 2 which SAE J1979 defines, twice, then another message */
static void pids(int p) {
	/* data bytes of PIDs 00..20 (table B of J1979) */
	static const uint8_t dl[0x21] = {4, 4, 2, 2, 1, 1, 1, 1, 1, 1, 1, 1, 2, 1, 1, 1, 2, 1, 1, 1, 2, 2, 2, 2, 2, 2, 2, 2, 1, 1, 1, 2, 4};
	(void)p;
	l2h_reset(DIAG_L1_DOESP4WAIT);
	struct diag_l3_conn *c = start_raw();
	int mode = vmc_enum(2, "service"), pid = vmc_enum(0x21, "PID");
	if (pid == (mode ? 1 : 2)) {
		vmc_prune();
	}
	uint8_t m[9] = {(uint8_t)(0x41 + mode), (uint8_t)pid};
	unsigned n = 2u + (unsigned)mode + dl[pid];
	for (unsigned i = 2; i < n; i++) {
		m[i] = (uint8_t)(0x41 + i % 2 * 3);
	}
	int cut = vmc_enum(2 * (int)n + 1, "cut");
	for (unsigned i = 0; i < 2 * n; i++) {
		if (cut == (int)i) {
			mk_push1(MK_WAIT(2));
		}
		mk_push1(m[i % n]);
	}
	mk_push(M[0].d, M[0].n);
	for (int i = 0; i < 4; i++) {
		diag_l3_recv(c, 300, l2h_cb, &ngot);
	}
	VMC_CHECK(ngot == 3 && got[0].len == n && got[1].len == n && !memcmp(got[0].d, m, n) && !memcmp(got[1].d, m, n) && got[2].len == 4 && !memcmp(got[2].d, M[0].d, 4), "pidlen", "service %d PID %02X (%u bytes) twice and another message: %d messages delivered, the first has %u bytes", mode + 1, pid, n, ngot, ngot ? got[0].len : 0);
	stop(c);
}
/* one large read after part of a message: the end of the buffer */
static void bound(int p) {
	(void)p;
	l2h_reset(DIAG_L1_DOESP4WAIT);
	struct diag_l3_conn *c = start_raw();
	int part = vmc_enum(7, "part"), big = 1010 + vmc_enum(18, "chunk"), first = vmc_enum(2, "data");
	mk_push(M[4].d, (size_t)part);
	diag_l3_recv(c, 300, l2h_cb, &ngot);
	VMC_CHECK(ngot == 0, "early", "part of a message delivered");
	for (int i = 0; i < big; i++) {
		mk_push1(first ? 0xFF : 0x44);
	}
	for (int i = 0; i < 40; i++) {
		ngot = 0;
		diag_l3_recv(c, 300, NULL, NULL);
	}
	for (int i = 0; i < 3; i++) {
		mk_push(M[0].d, M[0].n);
		ngot = 0;
		diag_l3_recv(c, 300, l2h_cb, &ngot);
	}
	real_msgs();
	VMC_CHECK(ngot == 1 && got[0].len == 4 && !memcmp(got[0].d, M[0].d, 4), "blocked", "valid message not delivered after %d bytes at once", big);
	stop(c);
}
/* a flood of data never leaves the buffer */
static void flood(int p) {
	static const int chunk[] = {1, 7, 100, 1023, 1024, 3000};
	(void)p;
	l2h_reset(DIAG_L1_DOESP4WAIT);
	struct diag_l3_conn *c = start_raw();
	int ch = chunk[vmc_enum(6, "chunk")];
	int first = vmc_enum(3, "first byte");
	for (int i = 0; i < 5000; i++) {
		if (i && i % ch == 0) {
			mk_push1(MK_WAIT(1));
		}
		mk_push1(first == 0 ? 0x41 : first == 1 ? 0xFF : (uint16_t)(i & 0xFF));
		if (i % 1000 == 999) {
			for (int k = 0; k < 200; k++) {
				ngot = 0;
				if (diag_l3_recv(c, 300, l2h_cb, &ngot)) {
					break;
				}
			}
		}
	}
	mk_clearrx();
	for (int i = 0; i < 3; i++) {
		mk_push(M[0].d, M[0].n);
		ngot = 0;
		diag_l3_recv(c, 300, l2h_cb, &ngot);
	}
	real_msgs();
	VMC_CHECK(ngot == 1 && got[0].len == 4 && !memcmp(got[0].d, M[0].d, 4), "blocked", "valid message not delivered after a flood of data");
	stop(c);
}

/* ---- framed L2 ---- */
static uint8_t crc8(const uint8_t *d, size_t n) {
	uint8_t r = 0xFF;
	while (n--) {
		r ^= *d++;
		for (int i = 0; i < 8; i++) {
			r = (uint8_t)(r & 0x80 ? (r << 1) ^ 0x1D : r << 1);
		}
	}
	return (uint8_t)~r;
}
enum { P9141, P1850, P14230 };
static void frame(int proto, uint8_t src, const uint8_t *d, unsigned n, bool bad, bool single) {
	uint8_t f[16];
	unsigned l = 0;
	f[l++] = proto == P14230 ? (uint8_t)(0x80 | n) : 0x48;
	f[l++] = proto == P14230 ? 0xF1 : 0x6B;
	f[l++] = src;
	memcpy(f + l, d, n);
	l += n;
	f[l] = proto == P1850 ? crc8(f, l) : sum8(f, l);
	if (bad) {
		f[l] ^= 0x10;
	}
	l++;
	mk_push(f, l);
	mk_push1(MK_EOF);
	if (single) {
		mk_push1(MK_WAIT(400));
	}
}
static struct diag_l3_conn *start_framed(int proto) {
	static const int l1[] = {DIAG_L1_ISO9141, DIAG_L1_J1850_VPW, DIAG_L1_ISO14230};
	static const int l2p[] = {DIAG_L2_PROT_ISO9141, DIAG_L2_PROT_SAEJ1850, DIAG_L2_PROT_ISO14230};
	l2h_reset(DIAG_L1_DOESL2FRAME | DIAG_L1_DOESP4WAIT | (proto == P1850 ? 0 : DIAG_L1_DOESL2CKSUM));
	if (proto == P9141) {
		uint16_t k[] = {8, MK_EOF, 8, MK_EOF, 0xCC, MK_EOF};
		mk_pushq(k, 6);
	} else if (proto == P14230) {
		uint16_t k[] = {0xEF, 0x8F, MK_EOF, 0xCC, MK_EOF};
		mk_pushq(k, 5);
	}
	struct diag_l2_conn *l2 = l2h_start(l1[proto], l2p[proto], proto == P1850 ? 0 : DIAG_L2_TYPE_SLOWINIT | DIAG_L2_TYPE_FUNCADDR, 0, 0x33, 0xF1);
	VMC_CHECK(l2 != NULL, "l2start", "connection refused");
	mk_clearrx();
	frame(proto, 0x10, alive, sizeof(alive), false, false);
	struct diag_l3_conn *c = diag_l3_start("SAEJ1979", l2);
	VMC_CHECK(c != NULL, "start", "J1979 start refused a correct answer");
	mk_clearrx();
	mk_cleartx();
	return c;
}
static void framed(int proto) {
	struct diag_l3_conn *c = start_framed(proto);
	int n = 1 + vmc_enum(vmc_thorough() ? 5 : 4, "frames"), k[8], nv = 0;
	for (int i = 0; i < n; i++) {
		k[i] = vmc_enum(5, "frame");            /* 0 valid, 1 other ECU, 2 long, 3 bad checksum, 4 bad other */
		bool alone = vmc_enum(2, "read separately");
		static const int mi[] = {0, 2, 4, 0, 4};
		frame(proto, k[i] == 1 || k[i] == 4 ? 0x18 : 0x10, M[mi[k[i]]].d, M[mi[k[i]]].n, k[i] >= 3, alone);
		nv += k[i] < 3;
	}
	for (int i = 0; i < n + 8; i++) {
		int before = ngot;
		int rv = diag_l3_recv(c, 300, l2h_cb, &ngot);
		VMC_CHECK(rv != 0 || ngot > before, "rv", "diag_l3_recv returned 0 without a message");
	}
	int g = 0;
	for (int i = 0; i < ngot; i++) {
		if (!(got[i].fmt & DIAG_FMT_BADCS)) {
			got[g++] = got[i];
		}
	}
	for (int i = 0, j = 0; i < n; i++) {
		if (k[i] >= 3) {
			continue;
		}
		static const int mi[] = {0, 2, 4};
		const int m = mi[k[i]];
		VMC_CHECK(j < g, "lost", "valid message %d of %d not delivered", j + 1, nv);
		VMC_CHECK(got[j].len == M[m].n && !memcmp(got[j].d, M[m].d, M[m].n), "content", "message %d is not what was sent", j);
		VMC_CHECK(got[j].src == (k[i] == 1 ? 0x18 : 0x10), "source", "message %d comes from %02X, not from %02X", j, k[i] == 1 ? 0x18 : 0x10, got[j].src);
		j++;
	}
	VMC_CHECK(g == nv, "extra", "%d valid messages sent, %d delivered as valid", nv, g);
	vmc_state(vmc_hash(k, sizeof(int) * (size_t)n, (uint64_t)ngot));
	stop(c);
}
static void manybad(int proto) {
	struct diag_l3_conn *c = start_framed(proto);
	int together = vmc_enum(2, "together"), n = vmc_enum(2, "length");
	for (int r = 0; r < 400; r++) {
		frame(proto, 0x10, M[n ? 4 : 3].d, M[n ? 4 : 3].n, true, !together || r % 20 == 19);
		ngot = 0;
		if (!together || r % 20 == 19) {
			(void)diag_l3_recv(c, 300, l2h_cb, &ngot);
			(void)diag_l3_recv(c, 300, l2h_cb, &ngot);
			for (int i = 0; i < ngot; i++) {
				VMC_CHECK(got[i].fmt & DIAG_FMT_BADCS, "badvalid", "message with a bad checksum delivered as valid");
			}
		}
	}
	mk_clearrx();
	for (int r = 0; r < 2; r++) {
		ngot = 0;
		frame(proto, 0x10, M[0].d, M[0].n, false, false);
		int rv = diag_l3_recv(c, 300, l2h_cb, &ngot);
		VMC_CHECK(rv == 0 && ngot == 1 && got[0].len == 4 && !memcmp(got[0].d, M[0].d, 4), "blocked", "valid message not delivered after 400 bad ones (rv %d)", rv);
	}
	stop(c);
}

/* one exchange after the other: what is handed down is sent, an answer within the timeout is handed up */
static void exchange(int p) {
	int proto = p < 3 ? p : P14230;
	struct diag_l3_conn *c = start_framed(proto);
	if (p == 3) {
		/* the same connection with the ISO14230 layer */
		struct diag_l2_conn *l2 = c->d_l3l2_conn;
		VMC_CHECK(diag_l3_stop(c) == 0, "l3stop", "diag_l3_stop failed");
		c = diag_l3_start("ISO14230", l2);
		VMC_CHECK(c != NULL, "start", "ISO14230 start failed");
		mk_clearrx();
		mk_cleartx();
	}
	int nd = 0;
	for (int r = 0; r < 2 + vmc_thorough(); r++) {
		const int q = (int[]){20, 21, 22}[vmc_enum(3, "request")], a = rep[vmc_enum(8, "answer")];
		struct diag_msg m;
		memset(&m, 0, sizeof(m));
		uint8_t qd[8];
		memcpy(qd, M[q].d, 8);
		m.data = qd;
		m.len = M[q].n;
		m.dest = 0x33;
		m.src = 0xF1;
		ngot = 0;
		mk_clearrx();
		mk_cleartx();
		int how = vmc_enum(2, "with request");
		if (how) {
			int err = 0;
			frame(proto, 0x10, M[a].d, M[a].n, false, false);
			struct diag_msg *rm = diag_l3_request(c, &m, &err);
			VMC_CHECK(rm != NULL, "request", "the request gave no answer (%d)", err);
			VMC_CHECK(rm->len == M[a].n && !memcmp(rm->data, M[a].d, rm->len) && rm->src == 0x10, "answer", "the answer is not what was sent");
			diag_freemsg(rm);
		} else {
			VMC_CHECK(diag_l3_send(c, &m) == 0, "send", "sending failed");
		}
		VMC_CHECK(mk.txn >= 3u + m.len && !memcmp(mk.tx + 3, M[q].d, m.len) && mk.txn <= 4u + m.len && mk.tx[1] == (proto == P9141 ? 0x6A : 0x33) && mk.tx[2] == 0xF1, "sent", "%u bytes sent for a request of %u bytes", (unsigned)mk.txn, m.len);
		if (!how) {
			static const uint16_t w[] = {0, MK_WAIT(60), MK_WAIT(280)};
			int k = vmc_enum(3, "answer after");
			if (k) {
				mk_push1(w[k]);
			}
			frame(proto, 0x10, M[a].d, M[a].n, false, false);
			int rv = diag_l3_recv(c, 300, l2h_cb, &ngot);
			VMC_CHECK(rv == 0 && ngot == 1 && got[0].len == M[a].n && !memcmp(got[0].d, M[a].d, M[a].n) && got[0].src == 0x10, "late", "an answer within the timeout was not delivered (rv %d)", rv);
			rv = diag_l3_recv(c, 300, l2h_cb, &ngot);
			VMC_CHECK(rv == DIAG_ERR_TIMEOUT && ngot == 1, "extra", "silence gave %d", rv);
		}
		nd = nd * 64 + q * 16 + a;
	}
	vmc_state(vmc_hash(&nd, sizeof(nd), 0));
	stop(c);
}

/* ---- keep-alive ---- */
static void keepalive(int proto) {
	/* start with every kind of answer */
	int k = vmc_enum(6, "answer");
	static const int l1[] = {DIAG_L1_ISO9141, DIAG_L1_J1850_VPW, DIAG_L1_ISO14230, DIAG_L1_RAW};
	static const int l2p[] = {DIAG_L2_PROT_ISO9141, DIAG_L2_PROT_SAEJ1850, DIAG_L2_PROT_ISO14230, DIAG_L2_PROT_RAW};
	l2h_reset(proto == 3 ? DIAG_L1_DOESP4WAIT : DIAG_L1_DOESL2FRAME | DIAG_L1_DOESP4WAIT | (proto == P1850 ? 0 : DIAG_L1_DOESL2CKSUM));
	if (proto == P9141 || proto == P14230) {
		uint16_t kb[] = {8, MK_EOF, 8, MK_EOF, 0xCC, MK_EOF}, kk[] = {0xEF, 0x8F, MK_EOF, 0xCC, MK_EOF};
		mk_pushq(proto == P9141 ? kb : kk, proto == P9141 ? 6 : 5);
	}
	struct diag_l2_conn *l2 = l2h_start(l1[proto], l2p[proto], proto == P1850 || proto == 3 ? 0 : DIAG_L2_TYPE_SLOWINIT | DIAG_L2_TYPE_FUNCADDR, 0, 0x33, 0xF1);
	VMC_CHECK(l2 != NULL, "l2start", "connection refused");
	mk_clearrx();
	static const struct { uint8_t n, d[6]; } a[] = {
		{6, {0x41, 0, 0xBE, 0x3E, 0xB8, 0x11}}, {4, {0x7F, 0x01, 0x00, 0x11}}, {1, {0x42}}, {2, {0x01, 0x00}}, {0, {0}}, {6, {0x41, 0, 0xBE, 0x3E, 0xB8, 0x11}},
	};
	bool badcs = k == 5 && proto != 3;
	if (a[k].n) {
		if (proto == 3) {
			mk_push(a[k].d, a[k].n);
		} else {
			frame(proto, 0x10, a[k].d, a[k].n, badcs, false);
		}
	}
	struct diag_l3_conn *c = diag_l3_start("saej1979", l2);
	bool good = k == 0 || (k == 5 && !badcs);
	VMC_CHECK((c != NULL) == good, good ? "start" : "startbad", "answer %d to the first message: start %s", k, c ? "succeeded" : "failed");
	if (!c) {
		l2h_stop(l2);
		return;
	}
	/* a keep-alive in the middle of a message */
	if (proto == 3) {
		int cut = 1 + vmc_enum(6, "cut");
		mk_push(M[4].d, (size_t)cut);
		int rv = diag_l3_recv(c, 300, l2h_cb, &ngot);
		VMC_CHECK(rv == DIAG_ERR_TIMEOUT && ngot == 0, "early", "part of a message delivered");
		mk_cleartx();
		env_advance_us(6000000);
		if (vmc_enum(2, "answered")) {
			mk_push(alive, sizeof(alive));
		}
		diag_l3_timer();
		VMC_CHECK(mk.txn == 2 && mk.tx[0] == 1 && mk.tx[1] == 0, "idlemsg", "idle message is not service 1 PID 0");
		VMC_CHECK(ngot == 0, "disturb", "the answer of an idle message was delivered");
		mk_push(M[4].d + cut, (size_t)(7 - cut));
		rv = diag_l3_recv(c, 300, l2h_cb, &ngot);
		VMC_CHECK(rv == 0 && ngot == 1 && got[0].len == 7 && !memcmp(got[0].d, M[4].d, 7), "disturb", "message interrupted by an idle message is lost (rv %d)", rv);
	} else {
		static const uint8_t sid1[] = {1, 0};
		mk_cleartx();
		env_advance_us(6000000);
		frame(proto, 0x10, alive, 6, false, false);
		diag_l3_timer();
		if (proto == P14230) {
			VMC_CHECK(mk.txn == 0, "twice", "J1979 idle message although L2 sends its own");
			mk_clearrx();
		} else {
			VMC_CHECK(mk.txn >= 5 && !memcmp(mk.tx + 3, sid1, 2), "idlemsg", "idle message is not service 1 PID 0");
		}
		frame(proto, 0x10, M[0].d, M[0].n, false, false);
		int rv = diag_l3_recv(c, 300, l2h_cb, &ngot);
		VMC_CHECK(rv == 0 && ngot == 1 && got[0].len == 4, "afterka", "message after an idle message not delivered");
	}
	stop(c);
}
/* errors and allocation failures while receiving */
static void faults(int p) {
	static int alloc_bad;
	(void)p;
	l2h_reset(DIAG_L1_DOESP4WAIT);
	struct diag_l3_conn *c = start_raw();
	static const int seq[] = {0, 4, 3, 5};
	for (int i = 0; i < 4; i++) {
		for (int k = 0; k < M[seq[i]].n; k++) {
			if (vmc_dev(2, "error before this byte")) {
				mk_push1(MK_ERR);
			}
			mk_push1(M[seq[i]].d[k]);
		}
	}
	alloc_bad = 0;
	for (int i = 0; i < 12; i++) {
		if (i < 8 && vmc_dev(2, "allocation fails")) {
			env_alloc_fail_at = env_alloc_seq + 1 + vmc_enum(3, "which");
			alloc_bad = 1;
		}
		int rv = diag_l3_recv(c, 300, l2h_cb, &ngot);
		env_alloc_fail_at = 0;
		(void)rv;
		if (i == 8 && alloc_bad) {
			/* messages which could not be built are, with the next data */
			mk_push(M[2].d, M[2].n);
		}
	}
	VMC_CHECK(ngot == 4 || (alloc_bad && ngot == 5), "lost", "%d of 4 messages delivered", ngot);
	for (int i = 0; i < 4; i++) {
		VMC_CHECK(got[i].len == M[seq[i]].n && !memcmp(got[i].d, M[seq[i]].d, got[i].len), "content", "message %d is not what was sent", i);
	}
	vmc_state((uint64_t)alloc_bad);
	stop(c);
}

const struct vmc_scenario vmc_scenarios[] = {
	{"split1", split, 1, 3, 4, 0, 4},
	{"split2", split, 2, 2, 3, 0, 8},
	{"split3", split, 3, 1, 2, 0, 8},
	{"garbage", garbage, 4, 1, 2, 0, 8},
	{"garbage5", garbage, 5, 1, 1, VMC_THOROUGH_ONLY, 8},
	{"unknown", unknown, 0, 0, 0, 0, 8},
	{"pids", pids, 0, 0, 0, 0, 1},
	{"bound", bound, 0, 0, 0, 0, 1},
	{"flood", flood, 0, 0, 0, 0, 3},
	{"framed9141", framed, P9141, 0, 0, 0, 4},
	{"framed1850", framed, P1850, 0, 0, 0, 4},
	{"framed14230", framed, P14230, 0, 0, 0, 4},
	{"manybad9141", manybad, P9141, 0, 0, 0, 1},
	{"manybad1850", manybad, P1850, 0, 0, 0, 1},
	{"exchange9141", exchange, P9141, 0, 0, 0, 4},
	{"exchange1850", exchange, P1850, 0, 0, 0, 4},
	{"exchange14230", exchange, P14230, 0, 0, 0, 4},
	{"exchange.iso14230", exchange, 3, 0, 0, 0, 4},
	{"keepalive9141", keepalive, P9141, 0, 0, 0, 1},
	{"keepalive1850", keepalive, P1850, 0, 0, 0, 1},
	{"keepalive14230", keepalive, P14230, 0, 0, 0, 1},
	{"keepaliveraw", keepalive, 3, 0, 0, 0, 1},
	{"faults", faults, 0, 2, 3, 0, 2},
	{0}
};
