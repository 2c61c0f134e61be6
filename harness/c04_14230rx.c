/* C04: ISO14230 receive.
 * alphabet: byte strings and frame sequences, silences, short reads, errors,
 * over the interface capability classes.
 * oracle: a reference parser of the ISO 14230-2 format. */
#include "l2h.h"

void vmc_process_init(void) { diag_init(); }

enum { PLAIN, FRAMED, FRAMED_STRIP, PLAIN_STRIP, NOHDR };
static const uint32_t caps[] = {
	DIAG_L1_DOESP4WAIT,
	DIAG_L1_DOESL2FRAME | DIAG_L1_DOESL2CKSUM | DIAG_L1_DOESP4WAIT,
	DIAG_L1_DOESL2FRAME | DIAG_L1_DOESL2CKSUM | DIAG_L1_DOESP4WAIT | DIAG_L1_STRIPSL2CKSUM,
	DIAG_L1_DOESP4WAIT | DIAG_L1_STRIPSL2CKSUM,
	DIAG_L1_DOESL2FRAME | DIAG_L1_DOESL2CKSUM | DIAG_L1_DOESP4WAIT | DIAG_L1_STRIPSL2CKSUM | DIAG_L1_NOHDRS,
};

static struct got want[64];
static int nwant;
static int dontcare;

/* one burst of bytes; returns <0 if it is not a sequence of whole frames */
static int parse(const uint8_t *b, int n, int cap) {
	bool strip = caps[cap] & DIAG_L1_STRIPSL2CKSUM;
	while (n > 0) {
		struct got *g = &want[nwant];
		memset(g, 0, offsetof(struct got, d));
		g->fmt = 0;
		g->src = g->dest = 0;
		g->rxtime = 0;
		if (cap == NOHDR) {
			g->len = (unsigned)n;
			memcpy(g->d, b, (size_t)n);
			nwant++;
			return 0;
		}
		int hdr = 1, dl = b[0] & 0x3f;
		if ((b[0] & 0xC0) == 0x40) {
			return -1;
		}
		if (b[0] & 0x80) {
			hdr = 3;
		}
		if (n < hdr + (dl == 0)) {
			return -1;
		}
		if (hdr == 3) {
			g->dest = b[1];
			g->src = b[2];
		}
		if (dl == 0) {
			dl = b[hdr++];
		}
		if (dl == 0) {
			return -1;
		}
		int need = hdr + dl + !strip;
		if (need > n) {
			return -1;
		}
		if ((caps[cap] & DIAG_L1_DOESL2FRAME) && need != n) {
			dontcare = 1;
		}
		g->len = (unsigned)dl;
		memcpy(g->d, b + hdr, (size_t)dl);
		g->fmt = (b[0] & 0xC0) == 0xC0 ? DIAG_FMT_ISO_FUNCADDR : 0;
		if (!strip && sum8(b, (size_t)need - 1) != b[need - 1]) {
			g->fmt |= DIAG_FMT_BADCS;
		}
		nwant++;
		b += need;
		n -= need;
		if (caps[cap] & DIAG_L1_DOESL2FRAME) {
			break;
		}
	}
	return 0;
}

/* the line: bytes with MK_GAP between bursts */
static uint16_t line[8192];
static int nline;

static int reference(int cap) {
	uint8_t b[8192];
	int n = 0, err = 0;
	nwant = 0;
	dontcare = 0;
	for (int i = 0; i <= nline; i++) {
		if (i < nline && line[i] < 0x100) {
			b[n++] = (uint8_t)line[i];
			continue;
		}
		if (i < nline && line[i] & 0x8000) {
			continue;       /* a pause between bytes, P1max at most */
		}
		if (n && !err) {
			err = parse(b, n, cap);
		}
		n = 0;
		if (i < nline && line[i] >= MK_ERR) {
			return -1;
		}
	}
	return err || !nwant ? -1 : 0;
}

static void compare(int cap, int rv, int ref) {
	if (dontcare) {
		return;
	}
	if (ref < 0) {
		VMC_CHECK(rv < 0, "accepted", "reception of an invalid burst returned %d", rv);
		VMC_CHECK(ngot == 0, "delivered", "%d messages delivered from an invalid burst", ngot);
		return;
	}
	VMC_CHECK(rv == 0 && ncb == 1, "refused", "a valid burst was refused: %d, %d callbacks", rv, ncb);
	VMC_CHECK(ngot == nwant, "count", "%d messages delivered, %d were on the wire", ngot, nwant);
	for (int i = 0; i < nwant; i++) {
		struct got *g = &got[i], *w = &want[i];
		VMC_CHECK(g->len == w->len && !memcmp(g->d, w->d, w->len), "payload", "message %d of %d: delivered %u bytes, on the wire %u, or content differs", i, nwant, g->len, w->len);
		VMC_CHECK(g->src == w->src && g->dest == w->dest, "addr", "message %d: addresses %02x>%02x, on the wire %02x>%02x", i, g->src, g->dest, w->src, w->dest);
		VMC_CHECK((g->fmt & DIAG_FMT_BADCS) == (w->fmt & DIAG_FMT_BADCS), "cks", "message %d: checksum flag %d, expected %d", i, g->fmt & DIAG_FMT_BADCS, w->fmt & DIAG_FMT_BADCS);
		VMC_CHECK((g->fmt & DIAG_FMT_ISO_FUNCADDR) == (w->fmt & DIAG_FMT_ISO_FUNCADDR), "func", "message %d: functional flag wrong", i);
		VMC_CHECK(g->fmt & DIAG_FMT_FRAMED, "fmt", "message %d not marked as framed", i);
		VMC_CHECK(g->rxtime >= T0MS && g->rxtime <= env_ms(), "rxtime", "message %d has time stamp %lu, now %lu", i, g->rxtime, (unsigned long)env_ms());
	}
}

static const uint8_t good[] = {0x83, 0xF1, 0x11, 0x41, 0x00, 0xFE, 0xC4};

static void run(int cap, struct diag_l2_conn *c, int seg) {
	bool framed = caps[cap] & DIAG_L1_DOESL2FRAME;
	mk_clearrx();
	for (int i = 0; i < nline; i++) {
		mk_push1(line[i] == MK_GAP ? (framed ? MK_EOF : MK_WAIT(30)) : line[i]);
	}
	mk.seg = framed ? 0 : seg;
	int ref = reference(cap);
	ngot = ncb = 0;
	int rv = diag_l2_recv(c, 100, l2h_cb, &ngot);
	vmc_log("recv -> %d, %d messages (reference %d, %d)", rv, ngot, ref, nwant);
	compare(cap, rv, ref);
	vmc_outcome("rv %d n %d", rv, ngot);
	/* whatever happened: the next well-formed frame is received normally */
	mk_clearrx();
	mk.seg = 0;
	nline = 0;
	if (cap == NOHDR) {
		for (int i = 3; i < 6; i++) {
			line[nline++] = good[i];
		}
	} else {
		for (int i = 0; i < 7 - (caps[cap] & DIAG_L1_STRIPSL2CKSUM ? 1 : 0); i++) {
			line[nline++] = good[i];
		}
	}
	mk_push1(MK_WAIT(90));  /* within the time it is waited for */
	for (int i = 0; i < nline; i++) {
		mk_push1(line[i]);
	}
	ref = reference(cap);
	if (ref < 0 || nwant != 1) {
		vmc_error("bad reference");
	}
	ngot = ncb = 0;
	rv = diag_l2_recv(c, 100, l2h_cb, &ngot);
	compare(cap, rv, ref);
	mk_clearrx();
	/* and silence is a timeout */
	ngot = ncb = 0;
	rv = diag_l2_recv(c, 100, l2h_cb, &ngot);
	VMC_CHECK(rv == DIAG_ERR_TIMEOUT && ncb == 0, "silence", "silence: %d, %d callbacks", rv, ncb);
	l2h_stop(c);
}

static struct diag_l2_conn *begin(int cap) {
	l2h_reset(caps[cap]);
	nline = 0;
	struct diag_l2_conn *c = l2h_start14230(0xEF, 0x8F, 0, 0x11, 0xF1);
	mk_cleartx();
	return c;
}

static void bytes(int n) {
	static const uint8_t al[] = {0x01, 0x02, 0x00, 0x80, 0x81, 0x40, 0x82};
	int cap = vmc_enum(5, "capabilities");
	struct diag_l2_conn *c = begin(cap);
	for (int i = 0; i < n; i++) {
		int k = vmc_enum(8, "byte");
		if (k == 7) {
			break;
		}
		line[nline++] = al[k];
		if (i + 1 < n && vmc_dev(2, "silence")) {
			line[nline++] = MK_GAP;
			continue;
		}
	}
	run(cap, c, 1);
}

/* frame menu: form x payload */
static int frame(uint8_t *b, int form, const uint8_t *pay, int n, int cap) {
	int o = 0;
	if (cap == NOHDR) {
		memcpy(b, pay, (size_t)n);
		return n;
	}
	b[o++] = (uint8_t)((form & 2 ? 0x80 : 0) | (form & 4 ? 0xC0 : 0));
	if (form & 6) {
		b[o++] = 0xF1;
		b[o++] = 0x11;
	}
	if (form & 1) {
		b[o++] = (uint8_t)n;
	} else {
		b[0] |= (uint8_t)n;
	}
	memcpy(b + o, pay, (size_t)n);
	o += n;
	if (!(caps[cap] & DIAG_L1_STRIPSL2CKSUM)) {
		b[o] = sum8(b, (size_t)o);
		o++;
	}
	return o;
}

static void frames(int maxf) {
	static const uint8_t p1[] = {0x41}, p2[] = {0x7F, 0x01}, p3[] = {0x50, 0x00, 0xC1};
	static const struct { int form; const uint8_t *p; int n; } fm[] = {
		{2, p3, 3}, {0, p2, 2}, {3, p2, 2}, {1, p1, 1}, {4, p1, 1}, {5, p3, 3}, {2, p1, 1},
	};
	int cap = vmc_enum(5, "capabilities");
	struct diag_l2_conn *c = begin(cap);
	int nf = 1 + vmc_enum(maxf, "frames");
	for (int f = 0; f < nf; f++) {
		uint8_t b[32];
		int k = vmc_enum(ARRAY_SIZE(fm), "frame");
		int n = frame(b, fm[k].form, fm[k].p, fm[k].n, cap);
		int what = vmc_dev(caps[cap] & DIAG_L1_DOESL2FRAME ? 5 : 6, "line fault");
		int pos = what ? vmc_enum(n, "at") : -1;
		static const uint8_t x[] = {0x01, 0x80, 0x40, 0x3F};
		int v = what == 1 ? vmc_enum(4, "flip") : 0;
		for (int i = 0; i < n; i++) {
			if (i == pos) {
				if (what == 2) {
					continue;       /* byte lost */
				} else if (what == 3) {
					if (!nline || line[nline - 1] == MK_GAP) {
						vmc_prune();    /* longer silence: simply another reception */
					}
					line[nline++] = MK_GAP;
				} else if (what == 4) {
					line[nline++] = MK_ERR;
				} else if (what == 5) {
					line[nline++] = MK_WAIT(20);
				}
			}
			line[nline++] = i == pos && what == 1 ? b[i] ^ x[v] : b[i];
		}
		if (f + 1 < nf && ((caps[cap] & DIAG_L1_DOESL2FRAME) || vmc_enum(2, "gap")) && nline && line[nline - 1] != MK_GAP) {
			line[nline++] = MK_GAP;
		}
	}
	run(cap, c, 1);
}

static void lengths(int p) {
	int cap = vmc_enum(5, "capabilities");
	static const int forms[] = {2, 0, 3, 1, 4, 5};
	int form = forms[vmc_enum(6, "form")];
	int var = vmc_enum(5, "variant");
	int n = 1 + vmc_enum(form & 1 ? 255 : 63, "len");
	if (var == 4 && n < 200) {
		vmc_prune();
	}
	struct diag_l2_conn *c = begin(cap);
	mk.log = 0;
	uint8_t pay[256], b[300];
	for (int i = 0; i < 256; i++) {
		pay[i] = (uint8_t)(i * 3 + 1);
	}
	int l = frame(b, form, pay, n, cap);
	for (int rep = 0; rep < (var == 4 ? 6 : var == 3 ? 2 : 1); rep++) {
		for (int i = 0; i < l - (var == 1); i++) {
			line[nline++] = var == 2 && i == l - 1 ? b[i] ^ 0x10 : b[i];
		}
		if (caps[cap] & DIAG_L1_DOESL2FRAME) {
			line[nline++] = MK_GAP;
		}
	}
	if (nline > MAXRBUF && !(caps[cap] & DIAG_L1_DOESL2FRAME)) {
		/* more than the receive buffer in one burst: an error is acceptable */
		mk_pushq(line, (size_t)nline);
		ngot = ncb = 0;
		int rv = diag_l2_recv(c, 100, l2h_cb, &ngot);
		VMC_CHECK(rv < 0 || ngot > 0, "overlong", "overlong burst: %d, %d messages", rv, ngot);
		nline = 0;
	}
	run(cap, c, 0);
}

/* monitor mode: break (00) in front of a frame is dropped, the first frame must carry addresses */
static void monitor(int p) {
	l2h_reset(DIAG_L1_DOESP4WAIT);
	struct diag_l2_conn *c = l2h_start(DIAG_L1_ISO14230, DIAG_L2_PROT_ISO14230, DIAG_L2_TYPE_MONINIT, 0, 0x11, 0xF1);
	VMC_CHECK(c && mk.txn == 0, "mon", "monitor mode start failed or transmitted");
	int first = 1;
	for (int i = 0; i < 3; i++) {
		int z = vmc_enum(3, "break"), f = vmc_enum(3, "frame"), v = vmc_enum(3, "payload");
		static const int forms[] = {2, 4, 0};
		static const uint8_t pay[3][3] = {{0x41, 0, 1}, {0, 0, 0}, {0x55, 0x40, 0xC1}};
		uint8_t b[16];
		nline = 0;
		int n = frame(b, forms[f], pay[v], 3, PLAIN);
		for (int k = 0; k < n; k++) {
			line[nline++] = b[k];
		}
		int ref = reference(PLAIN);
		if (first && f == 2) {
			ref = -1;
		}
		if (z) {
			mk_push1(0);
		}
		if (z == 2) {
			mk_push1(MK_EOF);       /* the break is a read of its own */
		}
		mk_pushq(line, (size_t)nline);
		mk.seg = 0;
		ngot = ncb = 0;
		int rv = diag_l2_recv(c, 100, l2h_cb, &ngot);
		compare(PLAIN, rv, ref);
		if (ref == 0) {
			first = 0;
		}
		vmc_outcome("%d %d", rv, ngot);
		mk_clearrx();
	}
	VMC_CHECK(mk.txn == 0, "montx", "monitor mode transmitted");
	l2h_stop(c);
}

const struct vmc_scenario vmc_scenarios[] = {
	{"bytes4", bytes, 4, 1, 2, VMC_INPROC, 5},
	{"bytes5", bytes, 5, 0, 1, VMC_INPROC, 5},
	{"bytes6", bytes, 6, 0, 1, VMC_INPROC | VMC_THOROUGH_ONLY, 5},
	{"frames2", frames, 2, 2, 3, VMC_INPROC, 5},
	{"frames3", frames, 3, 1, 2, VMC_INPROC, 5},
	{"lengths", lengths, 0, 0, 0, VMC_INPROC, 5},
	{"monitor", monitor, 0, 0, 0, VMC_INPROC, 1},
	{0}
};
