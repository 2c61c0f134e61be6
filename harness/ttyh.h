/* A scripted serial port below the real L0 drivers (replaces diag_tty_* with --wrap):
 * what the driver does to the port is recorded, what it reads comes from a queue. */
#ifndef TTYH_H
#define TTYH_H
#include "vmc.h"
#include "env.h"
#include "diag.h"
#include "diag_err.h"
#include "diag_cfg.h"
#include "diag_tty.h"
#include "diag_l0.h"
#include "diag_l1.h"
#include "diag_l2.h"
#include "diag_os.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#define TT_GAP 0x1000   /* silence until the timeout of the read in progress */
#define TT_ERR 0x2000   /* the read fails */
#define TT_WAIT(ms) (0x8000 | (ms))     /* silence of that many milliseconds, then the next byte */
#define TT_ERRC(e) (0x4000 | (-(e) & 0xff))

enum { T_OPEN = 1, T_SETUP, T_CONTROL, T_IFLUSH, T_WRITE, T_READ, T_BREAK, T_FASTBREAK };
#define TT_QMAX 16384
static struct {
	uint16_t q[TT_QMAX];
	int qh, qt;
	uint8_t tx[65536];
	size_t txn;
	int nopen, nclose, isopen, nsetup, ncontrol, niflush, nread, nwrite;
	unsigned speed;
	struct diag_serial_settings set;
	int dtr, rts;
	uint64_t bytetime_us;
	bool keep;              /* flushing does not discard what is queued */
	/* returns 0: fine; else the error the call returns */
	int (*fail)(int op);
	/* written data; nonzero: the result of the write */
	int (*onwrite)(const uint8_t *d, size_t n);
	void (*onsetup)(const struct diag_serial_settings *s);
	void (*oncontrol)(unsigned dtr, unsigned rts);
	void (*onflush)(void);
	void (*onidle)(unsigned tmo);   /* queue empty during a read: may fill it */
	int (*onbreak)(int fast, unsigned ms);
	void (*onread)(size_t count, unsigned tmo);
} tt;
static char tt_handle;

static void tt_reset(void) { memset(&tt, 0, sizeof(tt)); }
static void tt_push1(uint16_t v) {
	if (tt.qh == tt.qt) {
		tt.qh = tt.qt = 0;
	}
	if (tt.qt == TT_QMAX) {
		memmove(tt.q, tt.q + tt.qh, (size_t)(tt.qt - tt.qh) * sizeof(tt.q[0]));
		tt.qt -= tt.qh;
		tt.qh = 0;
		if (tt.qt == TT_QMAX) {
			vmc_fail("harness", "receive queue full");
		}
	}
	tt.q[tt.qt++] = v;
}
static void tt_push(const void *d, size_t n) {
	for (size_t i = 0; i < n; i++) {
		tt_push1(((const uint8_t *)d)[i]);
	}
}
static int tt_pending(void) { return tt.qt - tt.qh; }

ttyp *__wrap_diag_tty_open(const char *name) {
	if (tt.isopen) {
		vmc_fail("reopen", "the port is opened while it is open");
	}
	tt.nopen++;
	if (tt.fail && tt.fail(T_OPEN)) {
		return diag_pseterr(DIAG_ERR_GENERAL);
	}
	tt.isopen = 1;
	return &tt_handle;
}
static void tt_use(const void *t, const char *what) {
	if (!tt.isopen || t != &tt_handle) {
		vmc_fail("closedport", "%s on a port that is not open", what);
	}
}
void __wrap_diag_tty_close(ttyp *t) {
	if (t == NULL && !tt.isopen) {
		return;
	}
	tt_use(t, "close");
	tt.nclose++;
	tt.isopen = 0;
}
int __wrap_diag_tty_setup(ttyp *t, const struct diag_serial_settings *s) {
	tt_use(t, "setup");
	tt.nsetup++;
	if (tt.fail) {
		int e = tt.fail(T_SETUP);
		if (e) {
			return diag_iseterr(e);
		}
	}
	tt.set = *s;
	tt.speed = s->speed;
	if (tt.onsetup) {
		tt.onsetup(s);
	}
	return 0;
}
int __wrap_diag_tty_control(ttyp *t, unsigned dtr, unsigned rts) {
	tt_use(t, "control");
	tt.ncontrol++;
	if (tt.fail) {
		int e = tt.fail(T_CONTROL);
		if (e) {
			return diag_iseterr(e);
		}
	}
	tt.dtr = (int)dtr;
	tt.rts = (int)rts;
	if (tt.oncontrol) {
		tt.oncontrol(dtr, rts);
	}
	return 0;
}
int __wrap_diag_tty_iflush(ttyp *t) {
	tt_use(t, "flush");
	tt.niflush++;
	if (tt.fail) {
		int e = tt.fail(T_IFLUSH);
		if (e) {
			return diag_iseterr(e);
		}
	}
	if (!tt.keep) {
		tt.qh = tt.qt = 0;
	}
	if (tt.onflush) {
		tt.onflush();
	}
	env_advance_us(30000);
	return 0;
}
ssize_t __wrap_diag_tty_read(ttyp *t, void *buf, size_t count, unsigned timeout) {
	tt_use(t, "read");
	tt.nread++;
	if (count > 0x100000) {
		vmc_fail("readcount", "read of %zu bytes", count);
	}
	VMC_CHECK(count > 0, "readcount", "read of nothing");
	VMC_CHECK(timeout < MAXTIMEOUT, "readtimeout", "read with a timeout of %u ms (0 to %d allowed)", timeout, MAXTIMEOUT - 1);
	if (tt.onread) {
		tt.onread(count, timeout);
	}
	if (tt.fail) {
		int e = tt.fail(T_READ);
		if (e) {
			return diag_iseterr(e);
		}
	}
	size_t n = 0;
	uint64_t end = env_now + timeout * 1000ULL;
	while (n < count) {
		if (tt.qh == tt.qt && tt.onidle) {
			tt.onidle(timeout);
		}
		if (tt.qh == tt.qt || tt.q[tt.qh] == TT_GAP) {
			if (tt.qh < tt.qt) {
				tt.qh++;
			}
			if (end > env_now) {
				env_advance_us(end - env_now);
			}
			break;
		}
		uint16_t v = tt.q[tt.qh];
		if (v & 0x8000) {
			uint64_t w = (v & 0x7fff) * 1000ULL;
			if (env_now + w > end) {
				uint64_t left = end > env_now ? end - env_now : 0;
				tt.q[tt.qh] = (uint16_t)TT_WAIT((w - left) / 1000);
				env_advance_us(left);
				break;
			}
			env_advance_us(w);
			tt.qh++;
			continue;
		}
		if (v >= TT_ERR) {
			if (n) {
				break;
			}
			tt.qh++;
			return diag_iseterr(v == TT_ERR ? DIAG_ERR_GENERAL : -(int)(v & 0xff));
		}
		if (tt.bytetime_us && env_now + tt.bytetime_us > end) {
			if (end > env_now) {
				env_advance_us(end - env_now);
			}
			break;
		}
		env_advance_us(tt.bytetime_us);
		tt.qh++;
		((uint8_t *)buf)[n++] = (uint8_t)v;
	}
	return n ? (ssize_t)n : DIAG_ERR_TIMEOUT;
}
ssize_t __wrap_diag_tty_write(ttyp *t, const void *buf, const size_t n) {
	tt_use(t, "write");
	VMC_CHECK(n > 0, "writecount", "write of nothing");
	tt.nwrite++;
	if (tt.fail) {
		int e = tt.fail(T_WRITE);
		if (e == 1) {
			/* cut short */
			return n > 1 ? (ssize_t)n - 1 : diag_iseterr(DIAG_ERR_GENERAL);
		}
		if (e) {
			return diag_iseterr(e);
		}
	}
	/* everything is readable */
	volatile uint8_t s = 0;
	for (size_t i = 0; i < n; i++) {
		s ^= ((const uint8_t *)buf)[i];
	}
	if (tt.txn + n <= sizeof(tt.tx)) {
		memcpy(tt.tx + tt.txn, buf, n);
		tt.txn += n;
	}
	vmc_loghex("PORT TX", buf, n);
	if (tt.onwrite) {
		int r = tt.onwrite(buf, n);
		if (r) {
			return r;
		}
	}
	return (ssize_t)n;
}
int __wrap_diag_tty_break(ttyp *t, const unsigned ms) {
	tt_use(t, "break");
	if (tt.fail) {
		int e = tt.fail(T_BREAK);
		if (e) {
			return diag_iseterr(e);
		}
	}
	int r = tt.onbreak ? tt.onbreak(0, ms) : 0;
	env_advance_us(ms * 1000ULL);
	return r;
}
int __wrap_diag_tty_fastbreak(ttyp *t, const unsigned ms) {
	tt_use(t, "fastbreak");
	if (tt.fail) {
		int e = tt.fail(T_FASTBREAK);
		if (e) {
			return diag_iseterr(e);
		}
	}
	int r = tt.onbreak ? tt.onbreak(1, ms) : 0;
	env_advance_us(ms * 1000ULL);
	return r;
}
#define TTYWRAPS "diag_tty_open","diag_tty_close","diag_tty_setup","diag_tty_control","diag_tty_iflush","diag_tty_read","diag_tty_write","diag_tty_break","diag_tty_fastbreak"
#endif
