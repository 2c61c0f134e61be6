/* A scripted L0 device: what the code under test puts on the wire is recorded,
 * what it receives comes from a queue. */
#ifndef VMC_MOCKL0_H
#define VMC_MOCKL0_H
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>

#include "diag.h"
#include "diag_err.h"
#include "diag_l0.h"
#include "diag_l1.h"
#include "diag_l2.h"

#define MK_GAP   0x1000         /* silence: one recv times out (or stops short) here */
#define MK_EOF   0x2000         /* end of a frame (framed devices) */
#define MK_ERR   0x3000         /* recv fails with DIAG_ERR_GENERAL */
#define MK_WAIT(ms) (0x8000 | (ms))    /* silence of that many milliseconds, then the next byte */
#define MK_ERRC(e) (0x4000 | (-(e) & 0xff))     /* recv fails with e */

#define MK_QMAX  8192
#define MK_TXMAX 65536

struct mock {
	uint32_t flags;
	bool framed;            /* recv returns at most one frame */
	bool echo;              /* sent bytes are received again first */
	int seg;                /* short reads are an environment choice: 1 */
	/* receive queue */
	uint16_t q[MK_QMAX];
	int qh, qt;
	/* everything sent, as a flat byte string, and per send call */
	uint8_t tx[MK_TXMAX];
	size_t txn;
	struct { size_t off, len; uint64_t t; } txc[2048];
	int ntx;
	/* hooks (optional) */
	int (*send)(struct mock *, const uint8_t *d, size_t n);         /* return <=0; 1: default */
	int (*recv)(struct mock *, uint8_t *d, size_t n, unsigned tmo); /* MK_DEFAULT: default */
	int (*ioctl)(struct mock *, unsigned cmd, void *data);          /* MK_DEFAULT: default */
	void (*idle)(struct mock *, unsigned tmo); /* called when the queue is empty, may fill it */
	uint32_t (*getflags)(struct mock *);
	int open_rv;
	/* counters */
	int nopen, nclose, nrecv, nioctl, isopen, l1proto;
	int log;                /* log traffic */
	unsigned last_tmo;
	uint64_t bytetime_us;   /* time per byte sent/received */
};
#define MK_DEFAULT 12345

extern struct mock mk;
extern struct diag_l0_device mk_dl0d;
extern struct diag_l0 mk_dl0;

void mk_reset(uint32_t flags);          /* fresh device, empty queue */
void mk_push(const uint8_t *d, size_t n);
void mk_push1(uint16_t v);
void mk_pushq(const uint16_t *v, size_t n);
void mk_clearrx(void);
void mk_cleartx(void);
int mk_pending(void);
#endif
