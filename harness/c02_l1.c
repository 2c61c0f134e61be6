/* C02: L1 send/recv over every interface capability class.
 * alphabet: block lengths, P4, capability flags, echo faults at every byte
 * oracle: the byte string seen by the interface, the fate of the echo */
#include "vmc.h"
#include "env.h"
#include "mockl0.h"
#include "diag_os.h"
#include <string.h>

void vmc_process_init(void) { diag_init(); }

static const struct { uint32_t fl; bool blk, perbyte_echo; const char *n; } caps[] = {
	{0, 0, 0, "full duplex"},
	{DIAG_L1_HALFDUPLEX, 0, 1, "half duplex"},
	{DIAG_L1_HALFDUPLEX | DIAG_L1_BLOCKDUPLEX, 1, 1, "half duplex, block echo"},
	{DIAG_L1_DOESL2FRAME, 0, 0, "framing"},
	{DIAG_L1_DOESP4WAIT, 0, 0, "P4 by interface"},
	{DIAG_L1_DOESP4WAIT | DIAG_L1_HALFDUPLEX | DIAG_L1_BLOCKDUPLEX, 2, 0, "P4 by interface, block echo"},
	{DIAG_L1_SLOW | DIAG_L1_FAST | DIAG_L1_PREFFAST | DIAG_L1_HALFDUPLEX, 0, 1, "dumb"},
};
static const uint8_t resp[] = {0xA5, 0x01, 0xFF};
static uint8_t data[MAXRBUF + 8];
static size_t total;
static int fault, bad;          /* kind chosen, and whether it really differed */
static int snderr;

static int h_send(struct mock *m, const uint8_t *d, size_t n) {
	/* long blocks sent bytewise: faults only near the ends */
	bool edge = n > 1 || total < 20 || m->txn <= 2 || m->txn + 1 >= total;
	if (edge && vmc_dev(2, "L0 send fails")) {
		snderr = 1;
		return DIAG_ERR_GENERAL;
	}
	if (!(m->flags & DIAG_L1_HALFDUPLEX)) {
		if (m->txn >= total) {
			mk_push(resp, sizeof(resp));
		}
		return 1;
	}
	/* at most one faulty position per send call; in a long block try the
	 * first, the middle and the last byte */
	int pos = n == 1 ? 0 : n < 6 ? vmc_dev((int)n, "fault pos") : (int[]){0, (int)n / 2, (int)n - 1}[vmc_dev_cost(3, 1, "fault pos")];
	int f = edge ? vmc_dev(6, "echo fault") : 0;
	fault = fault ? fault : f;
	/* the bus at 10400 bits a second, and an interface which takes its time */
	if (edge && vmc_dev(2, "slow echo")) {
		mk_push1(MK_WAIT(20 + n));
	}
	for (size_t i = 0; i < n; i++) {
		uint8_t e = d[i];
		if ((int)i == pos && f) {
			bad = 1;
			if (f == 1) {
				break;                  /* this and the following echoes are lost */
			}
			if (f == 5) {
				mk_push1(MK_ERR);
				continue;
			}
			e = f == 2 ? (uint8_t)(e - 1) : f == 3 ? (uint8_t)(e ^ 0x80) : (uint8_t)(e ^ 1);
		}
		mk_push1(e);
	}
	if (m->txn >= total && !bad) {
		mk_push(resp, sizeof(resp));
	}
	return 1;
}

static void snd(int longer) {
	env_reset();
	int c = vmc_enum(ARRAY_SIZE(caps), "caps");
	static const unsigned p4s[] = {0, 5, 1};
	unsigned p4 = p4s[vmc_enum(3, "p4")];
	static const int longs[] = {255, 256, 260, MAXRBUF, MAXRBUF + 1};
	total = longer ? (size_t)longs[vmc_enum(5, "len")] : (size_t)(1 + vmc_enum(longer == 0 && vmc_thorough() ? 8 : 6, "len"));
	/* 0xfe: what uninitialised locals contain in this build */
	int pat = vmc_enum(4, "pattern");
	for (size_t i = 0; i < total; i++) {
		data[i] = pat == 0 ? (uint8_t)(i + 1) : pat == 1 ? 0 : pat == 2 ? 0xff : 0xfe;
	}
	mk_reset(caps[c].fl);
	mk.log = total < 20;
	mk.send = h_send;
	fault = bad = snderr = 0;
	diag_geterr();
	int rv = diag_l1_send(&mk_dl0d, data, total, p4);
	vmc_log("send -> %d", rv);
	if (total > MAXRBUF) {
		VMC_CHECK(rv < 0 && mk.txn == 0, "oversize", "an oversized block of %zu bytes was accepted (%d)", total, rv);
		vmc_outcome("oversize");
		return;
	}
	/* whatever was sent is a prefix of the data */
	size_t n = mk.txn;
	VMC_CHECK(n <= total && !memcmp(mk.tx, data, n), "wire", "%s: wrong bytes on the wire", caps[c].n);
	if (bad || snderr) {
		VMC_CHECK(rv < 0, "echo-accepted", "%s: a send with echo fault %d / send error %d succeeded", caps[c].n, fault, snderr);
		VMC_CHECK(diag_geterr() != 0, "nolatch", "%s: failed send latched no error", caps[c].n);
		if (snderr) {
			VMC_CHECK(mk.nrecv == mk.ntx - 1 || !(caps[c].fl & DIAG_L1_HALFDUPLEX), "echo-after-fail", "%s: reads an echo of a failed send", caps[c].n);
		}
		vmc_outcome("fault %d err %d", fault, rv);
		return;
	}
	VMC_CHECK(rv == 0, "refused", "%s: send of %zu bytes (p4 %u) failed with %d", caps[c].n, total, p4, rv);
	VMC_CHECK(n == total, "short", "%s: %zu of %zu bytes sent", caps[c].n, n, total);
	bool one = (caps[c].fl & (DIAG_L1_DOESL2FRAME | DIAG_L1_DOESP4WAIT)) || (p4 == 0 && (!caps[c].perbyte_echo || caps[c].blk));
	VMC_CHECK(mk.ntx == (one ? 1 : (int)total), "pieces", "%s p4=%u: %d send calls for %zu bytes", caps[c].n, p4, mk.ntx, total);
	for (int i = 1; i < mk.ntx; i++) {
		VMC_CHECK(mk.txc[i].t - mk.txc[i - 1].t >= (uint64_t)p4 * 1000, "p4", "%s: byte %d follows after %lu us, p4 is %u ms", caps[c].n, i,
		          (unsigned long)(mk.txc[i].t - mk.txc[i - 1].t), p4);
	}
	/* the response is read back intact, nothing of the echo remains */
	VMC_CHECK(mk_pending() == sizeof(resp), "echo-left", "%s: %d bytes pending after the send, expected the %zu byte response", caps[c].n, mk_pending(), sizeof(resp));
	uint8_t b[8];
	memset(b, 0, sizeof(b));
	rv = diag_l1_recv(&mk_dl0d, b, sizeof(resp), 100);
	VMC_CHECK(rv == sizeof(resp) && !memcmp(b, resp, sizeof(resp)), "resp", "%s: response damaged (%d)", caps[c].n, rv);
	vmc_outcome("ok %d", mk.ntx > 1);
}

static int g_rv;
static int h_recv(struct mock *m, uint8_t *d, size_t n, unsigned tmo) {
	VMC_CHECK(tmo == 77, "tmo", "timeout %u was forwarded as %u", 77, tmo);
	for (int i = 0; i < g_rv; i++) {
		d[i] = (uint8_t)(0x30 + i);
	}
	return g_rv;
}
static void rcv(int p) {
	env_reset();
	mk_reset(0);
	mk.recv = h_recv;
	int len = vmc_enum(9, "len");
	static const int errs[] = {DIAG_ERR_TIMEOUT, DIAG_ERR_GENERAL, DIAG_ERR_BUSERROR, DIAG_ERR_BADLEN};
	int k = vmc_enum(13, "L0 answer");
	g_rv = k < 9 ? k : errs[k - 9];
	if (g_rv > len) {
		vmc_prune();
	}
	uint8_t b[16];
	memset(b, 0xEE, sizeof(b));
	int rv = diag_l1_recv(&mk_dl0d, b, (size_t)len, 77);
	if (len == 0) {
		VMC_CHECK(rv < 0 && mk.nrecv == 0, "rx0", "zero length receive returned %d", rv);
	} else if (g_rv == 0) {
		VMC_CHECK(rv == DIAG_ERR_TIMEOUT, "rxempty", "an empty read was reported as %d", rv);
	} else {
		VMC_CHECK(rv == g_rv, "rx", "L0 returned %d, L1 %d", g_rv, rv);
	}
	for (int i = 0; i < 16; i++) {
		VMC_CHECK(b[i] == (rv > 0 && i < rv ? 0x30 + i : 0xEE), "rxdata", "byte %d is 0x%02x", i, b[i]);
	}
	vmc_outcome("%d", rv);
}

/* open: protocol mask honoured, other calls forwarded exactly once */
static int io_cmd;
static void *io_data;
static int h_ioctl(struct mock *m, unsigned cmd, void *d) {
	io_cmd = (int)cmd;
	io_data = d;
	return vmc_dev(2, "ioctl fails") ? DIAG_ERR_IOCTL_NOTSUPP : 0;
}
static void opn(int p) {
	env_reset();
	mk_reset(0);
	mk.ioctl = h_ioctl;
	int mask = vmc_enum(256, "mask");
	int bit = vmc_enum(8, "proto");
	int save = mk_dl0.l1proto_mask;
	mk_dl0.l1proto_mask = mask;
	if (vmc_dev(2, "open fails")) {
		mk.open_rv = DIAG_ERR_BADIFADAPTER;
	}
	diag_geterr();
	int rv = diag_l1_open(&mk_dl0d, 1 << bit);
	int types = diag_l1_gettype(&mk_dl0d);
	mk_dl0.l1proto_mask = save;
	VMC_CHECK(types == mask, "type", "supported protocols are 0x%x, reported 0x%x", mask, types);
	if (!(mask & (1 << bit))) {
		VMC_CHECK(rv == DIAG_ERR_PROTO_NOTSUPP && mk.nopen == 0, "unsupported", "protocol 0x%x on mask 0x%x: %d", 1 << bit, mask, rv);
		VMC_CHECK(diag_geterr() == DIAG_ERR_PROTO_NOTSUPP, "latch", "no error latched");
		vmc_outcome("refused");
		return;
	}
	VMC_CHECK(rv == mk.open_rv && mk.nopen == 1, "open", "open -> %d", rv);
	if (rv) {
		vmc_outcome("failed");
		return;
	}
	VMC_CHECK(mk.l1proto == 1 << bit, "proto", "opened with 0x%x instead of 0x%x", mk.l1proto, 1 << bit);
	int x, cmd = 0x100 * vmc_enum(3, "cmd") + 5;
	int nf = vmc_deviations();
	rv = diag_l1_ioctl(&mk_dl0d, (unsigned)cmd, &x);
	VMC_CHECK(io_cmd == cmd && io_data == &x && mk.nioctl == 1, "ioctl", "ioctl not forwarded");
	VMC_CHECK(rv == (vmc_deviations() > nf ? DIAG_ERR_IOCTL_NOTSUPP : 0), "ioctl-rv", "ioctl result %d", rv);
	diag_l1_close(&mk_dl0d);
	VMC_CHECK(mk.nclose == 1 && mk.isopen == 0, "close", "close not forwarded once");
	vmc_outcome("ok");
}

const struct vmc_scenario vmc_scenarios[] = {
	{"send", snd, 0, 2, 3, VMC_INPROC, 7},
	{"send_long", snd, 1, 1, 2, VMC_INPROC, 7},
	{"recv", rcv, 0, 0, 0, VMC_INPROC, 1},
	{"open", opn, 0, 2, 2, VMC_INPROC, 4},
	{0}
};
