/* Helpers shared by the L2 harnesses: open / start / stop over the mock L0,
 * and a copy of what is delivered upward. */
#ifndef L2H_H
#define L2H_H
#include "vmc.h"
#include "env.h"
#include "mockl0.h"
#include "diag_os.h"
#include "diag_l3.h"
#include "diag_iso14230.h"
#include <stdlib.h>
#include <string.h>

struct got { unsigned len; uint8_t d[2048]; uint8_t fmt, src, dest; unsigned long rxtime; };
static struct got got[64];
static int ngot, ncb;

static void l2h_cb(void *h, struct diag_msg *m) {
	VMC_CHECK(h == (void *)&ngot, "handle", "callback handle changed");
	ncb++;
	VMC_CHECK(m != NULL, "nullmsg", "callback without a message");
	for (; m; m = m->next) {
		if (ngot >= 64) {
			vmc_fail("toomany", "more than 64 messages delivered");
		}
		struct got *g = &got[ngot++];
		g->len = m->len;
		VMC_CHECK(m->len <= sizeof(g->d), "msglen", "delivered message of %u bytes", m->len);
		memcpy(g->d, m->data, m->len);
		g->fmt = m->fmt;
		g->src = m->src;
		g->dest = m->dest;
		g->rxtime = m->rxtime;
		vmc_loghex("DELIVERED", g->d, g->len);
	}
}

static void l2h_reset(uint32_t flags) {
	env_reset();
	/* forget what a pruned execution left behind */
	diag_l2_end();
	diag_l2_init();
	env_alloc_mark();
	mk_reset(flags);
	ngot = ncb = 0;
	diag_geterr();
}

static struct diag_l2_conn *l2h_start(int l1, int l2, flag_type fl, unsigned speed, int target, int source) {
	if (diag_l2_open(&mk_dl0d, l1)) {
		vmc_fail("l2open", "diag_l2_open failed");
	}
	return diag_l2_StartCommunications(&mk_dl0d, l2, fl, speed, (target_type)target, (source_type)source);
}

/* close the interface; everything must be released */
static void l2h_close(void) {
	int rv = diag_l2_close(&mk_dl0d);
	VMC_CHECK(rv == 0 && mk.isopen == 0, "l2close", "closing the interface failed (%d)", rv);
	if (env_live()) {
		env_alloc_dump();
	}
	VMC_CHECK(env_live() == 0, "leak", "%ld blocks (%ld bytes) still allocated after closing everything", env_live(), env_live_bytes());
}
static void l2h_stop(struct diag_l2_conn *c) {
	int rv = diag_l2_StopCommunications(c);
	VMC_CHECK(rv == 0, "stop", "StopCommunications returned %d", rv);
	l2h_close();
}

/* ISO14230 session over 5 baud init with key bytes kb1 kb2 */
static struct diag_l2_conn *l2h_start14230(uint8_t kb1, uint8_t kb2, flag_type fl, int target, int source) {
	uint16_t k[] = {kb1, kb2, MK_EOF, (uint8_t)~target, MK_EOF};
	mk_pushq(k, 5);
	struct diag_l2_conn *c = l2h_start(DIAG_L1_ISO14230, DIAG_L2_PROT_ISO14230, DIAG_L2_TYPE_SLOWINIT | fl, 0, target, source);
	VMC_CHECK(c != NULL, "start", "a valid slow init was refused");
	return c;
}

static struct diag_msg l2h_msg(const uint8_t *d, unsigned len) {
	struct diag_msg m;
	memset(&m, 0, sizeof(m));
	m.data = (uint8_t *)d;
	m.len = len;
	return m;
}
static uint8_t sum8(const uint8_t *d, size_t n) {
	unsigned s = 0;
	for (size_t i = 0; i < n; i++) {
		s += d[i];
	}
	return (uint8_t)s;
}
#endif
