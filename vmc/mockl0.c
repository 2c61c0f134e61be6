#include "mockl0.h"
#include "env.h"
#include "vmc.h"
#include <string.h>

struct mock mk;

static int m_init(void) { return 0; }
static int m_new(struct diag_l0_device *d) { (void)d; return 0; }
static struct cfgi *m_getcfg(struct diag_l0_device *d) { (void)d; return NULL; }
static void m_del(struct diag_l0_device *d) { (void)d; }

static int m_open(struct diag_l0_device *d, int l1) {
	mk.nopen++;
	vmc_tick();
	if (mk.log) {
		vmc_log("L0 open proto=0x%x -> %d", l1, mk.open_rv);
	}
	if (mk.open_rv) {
		return diag_iseterr(mk.open_rv);
	}
	mk.isopen++;
	mk.l1proto = l1;
	d->opened = true;
	return 0;
}
static void m_close(struct diag_l0_device *d) {
	mk.nclose++;
	mk.isopen--;
	vmc_tick();
	if (mk.log) {
		vmc_log("L0 close");
	}
	d->opened = false;
}
static uint32_t m_getflags(struct diag_l0_device *d) {
	(void)d;
	return mk.getflags ? mk.getflags(&mk) : mk.flags;
}

void mk_push1(uint16_t v) {
	if (mk.qh == mk.qt) {
		mk.qh = mk.qt = 0;
	}
	if (mk.qt >= MK_QMAX) {
		if (mk.qh > 0) {
			memmove(mk.q, mk.q + mk.qh, (size_t)(mk.qt - mk.qh) * sizeof(mk.q[0]));
			mk.qt -= mk.qh;
			mk.qh = 0;
		} else {
			return;
		}
	}
	mk.q[mk.qt++] = v;
}
void mk_push(const uint8_t *d, size_t n) {
	for (size_t i = 0; i < n; i++) {
		mk_push1(d[i]);
	}
}
void mk_pushq(const uint16_t *v, size_t n) {
	for (size_t i = 0; i < n; i++) {
		mk_push1(v[i]);
	}
}
void mk_clearrx(void) { mk.qh = mk.qt = 0; }
void mk_cleartx(void) { mk.txn = 0; mk.ntx = 0; }
int mk_pending(void) { return mk.qt - mk.qh; }

static int m_send(struct diag_l0_device *d, const void *data, size_t len) {
	(void)d;
	const uint8_t *p = data;
	vmc_tick();
	env_now += 1 + mk.bytetime_us * len;
	if (len == 0) {
		return diag_iseterr(DIAG_ERR_BADLEN);
	}
	uint8_t sum = 0;
	for (size_t i = 0; i < len; i++) {
		sum = (uint8_t)(sum + p[i]);    /* touches all of it: ASan */
	}
	(void)sum;
	if (mk.log) {
		vmc_loghex("TX", p, len);
	}
	if (mk.ntx < 2048) {
		mk.txc[mk.ntx].off = mk.txn;
		mk.txc[mk.ntx].len = len;
		mk.txc[mk.ntx].t = env_now;
		mk.ntx++;
	}
	if (mk.txn + len <= MK_TXMAX) {
		memcpy(mk.tx + mk.txn, p, len);
		mk.txn += len;
	}
	if (mk.send) {
		int rv = mk.send(&mk, p, len);
		if (rv <= 0) {
			return rv ? diag_iseterr(rv) : 0;
		}
	}
	if (mk.echo) {
		/* in front of whatever is queued */
		int n = mk.qt - mk.qh;
		if ((size_t)mk.qh < len) {
			memmove(mk.q + len, mk.q + mk.qh, (size_t)n * sizeof(mk.q[0]));
			mk.qh = (int)len;
			mk.qt = (int)len + n;
		}
		mk.qh -= (int)len;
		for (size_t i = 0; i < len; i++) {
			mk.q[mk.qh + (int)i] = p[i];
		}
	}
	return 0;
}

static int m_recv(struct diag_l0_device *d, void *data, size_t len, unsigned int tmo) {
	(void)d;
	uint8_t *out = data;
	mk.nrecv++;
	mk.last_tmo = tmo;
	vmc_tick();
	env_now += 1;
	if (mk.recv) {
		int rv = mk.recv(&mk, out, len, tmo);
		if (rv != MK_DEFAULT) {
			return rv;
		}
	}
	if (mk.qh == mk.qt && mk.idle) {
		mk.idle(&mk, tmo);
	}
	if (mk.qh == mk.qt) {
		env_now += (uint64_t)tmo * 1000;
		if (mk.log) {
			vmc_log("RX(len %zu) timeout", len);
		}
		return diag_iseterr(DIAG_ERR_TIMEOUT);
	}
	if (mk.q[mk.qh] & 0x8000) {
		unsigned w = mk.q[mk.qh] & 0x7fff;
		if (w > tmo) {
			mk.q[mk.qh] = (uint16_t)MK_WAIT(w - tmo);
			env_now += (uint64_t)tmo * 1000;
			if (mk.log) {
				vmc_log("RX(len %zu) timeout %u ms", len, tmo);
			}
			return diag_iseterr(DIAG_ERR_TIMEOUT);
		}
		env_now += (uint64_t)w * 1000;
		mk.qh++;
		mk.nrecv--;             /* the same call */
		return m_recv(d, data, len, tmo - w);
	}
	uint16_t v = mk.q[mk.qh];
	if (v == MK_GAP) {
		mk.qh++;
		env_now += (uint64_t)tmo * 1000;
		if (mk.log) {
			vmc_log("RX(len %zu) timeout", len);
		}
		return diag_iseterr(DIAG_ERR_TIMEOUT);
	}
	if ((v & 0xf000) == MK_ERR || (v & 0xf000) == 0x4000) {
		mk.qh++;
		int e = (v & 0xf000) == MK_ERR ? DIAG_ERR_GENERAL : -(int)(v & 0xff);
		if (mk.log) {
			vmc_log("RX(len %zu) error %d", len, e);
		}
		return diag_iseterr(e);
	}
	if (v == MK_EOF) {
		/* an empty frame: nothing arrives */
		mk.qh++;
		env_now += (uint64_t)tmo * 1000;
		return diag_iseterr(DIAG_ERR_TIMEOUT);
	}
	size_t avail = 0;
	while (mk.qh + (int)avail < mk.qt && mk.q[mk.qh + (int)avail] < 0x100) {
		avail++;
	}
	size_t n = avail < len ? avail : len;
	if (!mk.framed && mk.seg && n > 1) {
		/* short read: everything (default), or a strict prefix */
		int k = vmc_dev(mk.seg == 2 ? (int)n : (n > 2 ? 3 : 2), "short read");
		if (mk.seg == 2) {
			n = k ? (size_t)k : n;
		} else {
			n = k == 1 ? 1 : k == 2 ? n - 1 : n;
		}
	}
	for (size_t i = 0; i < n; i++) {
		out[i] = (uint8_t)mk.q[mk.qh + (int)i];
	}
	env_now += mk.bytetime_us * n;
	if (mk.framed) {
		/* the rest of a frame which does not fit is lost */
		mk.qh += (int)avail;
		if (mk.qh < mk.qt && mk.q[mk.qh] == MK_EOF) {
			mk.qh++;
		}
	} else {
		mk.qh += (int)n;
		/* a frame end is not visible on an unframed device */
		while (mk.qh < mk.qt && mk.q[mk.qh] == MK_EOF) {
			mk.qh++;
		}
	}
	if (mk.log) {
		vmc_loghex("RX", out, n);
	}
	return (int)n;
}

static int m_ioctl(struct diag_l0_device *d, unsigned cmd, void *data) {
	(void)d;
	mk.nioctl++;
	vmc_tick();
	if (mk.ioctl) {
		int rv = mk.ioctl(&mk, cmd, data);
		if (rv != MK_DEFAULT) {
			return rv ? diag_iseterr(rv) : 0;
		}
	}
	if (cmd == DIAG_IOCTL_IFLUSH) {
		return 0;
	}
	return 0;
}

struct diag_l0 mk_dl0 = {
	.longname = "vmc mock",
	.shortname = "MOCK",
	.l1proto_mask = -1,
	.init = m_init,
	._new = m_new,
	._getcfg = m_getcfg,
	._del = m_del,
	._open = m_open,
	._close = m_close,
	._getflags = m_getflags,
	._recv = m_recv,
	._send = m_send,
	._ioctl = m_ioctl,
};
struct diag_l0_device mk_dl0d = { .dl0 = &mk_dl0 };

void mk_reset(uint32_t flags) {
	memset(&mk, 0, offsetof(struct mock, q));
	mk.qh = mk.qt = 0;
	mk.txn = 0;
	mk.ntx = 0;
	mk.send = NULL;
	mk.recv = NULL;
	mk.ioctl = NULL;
	mk.idle = NULL;
	mk.getflags = NULL;
	mk.open_rv = 0;
	mk.nopen = mk.nclose = mk.nrecv = mk.nioctl = mk.isopen = 0;
	mk.log = 1;
	mk.bytetime_us = 0;
	mk.flags = flags;
	mk.framed = (flags & DIAG_L1_DOESL2FRAME) != 0;
	mk_dl0d.opened = false;
}
