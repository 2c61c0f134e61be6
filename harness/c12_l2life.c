/* C12: opening, starting, stopping and closing in every order, with every step able to fail.
 * oracle: a reference model of two interfaces with at most one connection each. */
#include "l2h.h"
#include "diag_tty.h"
#include "diag_cfg.h"
#include <string.h>

void vmc_process_init(void) { diag_init(); }

struct dev {
	struct diag_l0_device d;
	struct diag_l0 drv;
	int isopen, nopen, nclose, l1;
	size_t tx;
	uint8_t last;
	uint32_t flags;
	uint16_t q[64];
	int qh, qt;
};
static struct dev dv[2];
static int fault;               /* something failed during this operation */

static struct dev *D(struct diag_l0_device *d) { return d == &dv[0].d ? &dv[0] : &dv[1]; }
static int x_open(struct diag_l0_device *d, int l1) {
	struct dev *x = D(d);
	vmc_tick();
	VMC_CHECK(!x->isopen, "doubleopen", "interface %d opened twice", (int)(x - dv));
	if (vmc_dev(2, "open fails")) {
		fault = 1;
		return diag_iseterr(DIAG_ERR_BADIFADAPTER);
	}
	x->nopen++;
	x->isopen = 1;
	x->l1 = l1;
	d->opened = true;
	return 0;
}
static void x_close(struct diag_l0_device *d) {
	struct dev *x = D(d);
	vmc_tick();
	VMC_CHECK(x->isopen, "badclose", "interface %d closed but not open", (int)(x - dv));
	x->nclose++;
	x->isopen = 0;
	d->opened = false;
}
static uint32_t x_flags(struct diag_l0_device *d) { return D(d)->flags; }
static int x_send(struct diag_l0_device *d, const void *data, size_t len) {
	struct dev *x = D(d);
	vmc_tick();
	env_now += 1000;
	VMC_CHECK(x->isopen, "closedsend", "data sent on a closed interface");
	x->tx += len;
	x->last = ((const uint8_t *)data)[len - 1];
	if (vmc_dev(2, "send fails")) {
		fault = 1;
		return diag_iseterr(DIAG_ERR_GENERAL);
	}
	return 0;
}
static int x_recv(struct diag_l0_device *d, void *data, size_t len, unsigned tmo) {
	struct dev *x = D(d);
	vmc_tick();
	VMC_CHECK(x->isopen, "closedrecv", "read from a closed interface");
	if (x->qh == x->qt || vmc_dev(2, "recv times out")) {
		if (x->qh != x->qt) {
			fault = 1;
		}
		env_now += (uint64_t)tmo * 1000;
		return diag_iseterr(DIAG_ERR_TIMEOUT);
	}
	size_t n = 0;
	while (n < len && x->qh < x->qt && x->q[x->qh] < 0x100) {
		((uint8_t *)data)[n++] = (uint8_t)x->q[x->qh++];
	}
	if (x->qh < x->qt && x->q[x->qh] >= 0x100) {
		x->qh++;
		if (n == 0) {
			env_now += (uint64_t)tmo * 1000;
			return diag_iseterr(DIAG_ERR_TIMEOUT);
		}
	}
	env_now += 1000;
	return (int)n;
}
static int x_ioctl(struct diag_l0_device *d, unsigned cmd, void *data) {
	struct dev *x = D(d);
	vmc_tick();
	VMC_CHECK(x->isopen, "closedioctl", "ioctl on a closed interface");
	if (cmd != DIAG_IOCTL_IFLUSH && vmc_dev(2, "ioctl fails")) {
		fault = 1;
		return diag_iseterr(DIAG_ERR_GENERAL);
	}
	if (cmd == DIAG_IOCTL_INITBUS) {
		((struct diag_l1_initbus_args *)data)->kb1 = 0;
		((struct diag_l1_initbus_args *)data)->kb2 = 0;
	}
	return 0;
}
static int failalloc(size_t n) {
	if (vmc_dev(2, "allocation fails")) {
		fault = 1;
		return 1;
	}
	return 0;
}
static void script(int i, const uint16_t *q, int n) {
	memcpy(dv[i].q, q, (size_t)n * sizeof(*q));
	dv[i].qh = 0;
	dv[i].qt = n;
}

/* the protocols */
struct proto {
	const char *name;
	int id, l1, keepalive;
	flag_type type;
	uint32_t flags;         /* of the interface */
	int n;
	uint16_t q[8];
	bool ok;
};
#define P4 DIAG_L1_DOESP4WAIT
#define G MK_GAP
static const struct proto protos[] = {
	{"RAW", DIAG_L2_PROT_RAW, DIAG_L1_RAW, 0, 0, P4, 0, {0}, true},
	{"9141", DIAG_L2_PROT_ISO9141, DIAG_L1_ISO9141, 0, DIAG_L2_TYPE_SLOWINIT, P4, 4, {0x08, 0x08, 0xCC, G}, true},
	{"14230", DIAG_L2_PROT_ISO14230, DIAG_L1_ISO14230, 1, DIAG_L2_TYPE_SLOWINIT, P4, 4, {0xEF, 0x8F, 0xCC, G}, true},
	{"14230fast", DIAG_L2_PROT_ISO14230, DIAG_L1_ISO14230, 1, DIAG_L2_TYPE_FASTINIT, P4 | DIAG_L1_DOESL2FRAME | DIAG_L1_DOESL2CKSUM | DIAG_L1_STRIPSL2CKSUM, 7, {0x83, 0xF1, 0x33, 0xC1, 0xEF, 0x8F, G}, true},
	{"J1850", DIAG_L2_PROT_SAEJ1850, DIAG_L1_J1850_VPW, 0, 0, P4 | DIAG_L1_DOESL2FRAME, 0, {0}, true},
	{"MB1", DIAG_L2_PROT_MB1, DIAG_L1_ISO9141, 1, DIAG_L2_TYPE_SLOWINIT, P4, 3, {0xC2, 0xCD, G}, true},
	{"D2", DIAG_L2_PROT_D2, DIAG_L1_ISO9141, 1, DIAG_L2_TYPE_SLOWINIT, P4 | DIAG_L1_DOESL2FRAME | DIAG_L1_DOESL2CKSUM | DIAG_L1_DOESFULLINIT, 0, {0}, true},
	{"VAG", DIAG_L2_PROT_VAG, DIAG_L1_ISO9141, 1, DIAG_L2_TYPE_SLOWINIT, P4, 2, {0x01, 0x8A}, false},
	{"CAN", DIAG_L2_PROT_CAN, DIAG_L1_CAN, 0, 0, P4, 0, {0}, false},
};
#define NPROTO ((int)(sizeof(protos) / sizeof(protos[0])))

/* the model */
static struct {
	int open;               /* L1 protocol, 0: closed */
	struct diag_l2_conn *c;
	struct diag_l3_conn *l3;
	const struct proto *p;
} M[2];
static uint64_t last[2];

static void setup(const struct proto *p0, const struct proto *p1) {
	env_reset();
	diag_end();
	diag_init();
	env_alloc_mark();
	diag_geterr();
	memset(dv, 0, sizeof(dv));
	memset(M, 0, sizeof(M));
	fault = 0;
	for (int i = 0; i < 2; i++) {
		dv[i].drv = (struct diag_l0){
			.longname = "mock", .shortname = i ? "B" : "A", .l1proto_mask = DIAG_L1_RAW | DIAG_L1_ISO9141 | DIAG_L1_ISO14230 | DIAG_L1_J1850_VPW | DIAG_L1_CAN,
			._open = x_open, ._close = x_close, ._getflags = x_flags, ._recv = x_recv, ._send = x_send, ._ioctl = x_ioctl,
		};
		dv[i].d.dl0 = &dv[i].drv;
	}
	dv[0].flags = p0->flags;
	dv[1].flags = p1->flags;
}
static void check(const char *op) {
	for (int i = 0; i < 2; i++) {
		VMC_CHECK(dv[i].isopen == (M[i].open != 0), "openstate", "after %s: interface %d is %s", op, i, dv[i].isopen ? "open" : "closed");
		VMC_CHECK(dv[i].nopen - dv[i].nclose == dv[i].isopen, "balance", "after %s: interface %d opened %d times, closed %d times", op, i, dv[i].nopen, dv[i].nclose);
	}
}
static void o_open(int i, int l1) {
	int n = dv[i].nopen;
	long live = env_live();
	fault = 0;
	diag_geterr();
	int rv = diag_l2_open(&dv[i].d, l1);
	bool sup = (dv[i].drv.l1proto_mask & l1) != 0;
	vmc_log("open %d %x -> %d", i, l1, rv);
	if (M[i].open) {
		VMC_CHECK((rv == 0) == (M[i].open == l1), "reopen", "open for %x while open for %x: %d", l1, M[i].open, rv);
		VMC_CHECK(dv[i].nopen == n, "reopen", "an open interface was opened again");
	} else if (!fault) {
		VMC_CHECK((rv == 0) == sup, "open", "open for protocol %x: %d", l1, rv);
	}
	if (rv == 0 && !M[i].open) {
		VMC_CHECK(dv[i].l1 == l1, "l1", "opened for the wrong protocol");
		M[i].open = l1;
	}
	if (rv) {
		VMC_CHECK(rv < 0 && diag_geterr() < 0, "nolatch", "failed open latched no error (%d)", rv);
		VMC_CHECK(env_live() == live, "leak", "failed open leaks");
	}
	check("open");
}
static void o_close(int i) {
	fault = 0;
	diag_geterr();
	int rv = diag_l2_close(&dv[i].d);
	vmc_log("close %d -> %d", i, rv);
	VMC_CHECK((rv == 0) == (M[i].c == NULL), "close", "close %s a connection: %d", M[i].c ? "with" : "without", rv);
	if (rv == 0) {
		M[i].open = 0;
	} else {
		VMC_CHECK(diag_geterr() < 0, "nolatch", "refused close latched no error");
	}
	check("close");
}
static void o_start(int i, const struct proto *p, int bad) {
	fault = 0;
	diag_geterr();
	long live = env_live();
	script(i, p->q, p->n);
	struct diag_l2_conn *c = diag_l2_StartCommunications(&dv[i].d, bad ? bad : p->id, p->type, 10400, 0x33, 0xF1);
	dv[i].qh = dv[i].qt = 0;
	vmc_log("start %d %s -> %s", i, bad ? "unknown" : p->name, c ? "ok" : "refused");
	if (M[i].c || !M[i].open || bad || !p->ok) {
		VMC_CHECK(c == NULL, "start", "start accepted %s", M[i].c ? "twice on one interface" : !M[i].open ? "on a closed interface" : "for an unsupported protocol");
	} else if (!fault) {
		VMC_CHECK(c != NULL, "start", "%s refused (error %d)", p->name, diag_geterr());
	}
	if (c) {
		M[i].c = c;
		M[i].p = p;
		last[i] = env_now;
		VMC_CHECK(c->diag_link->l2_dl0d == &dv[i].d && c->l2proto->diag_l2_protocol == p->id && c->diag_l2_state == DIAG_L2_STATE_OPEN, "conn", "wrong connection");
	} else {
		VMC_CHECK(diag_geterr() < 0, "nolatch", "failed start latched no error");
		VMC_CHECK(env_live() == live, "leak", "failed start of %s leaks %ld blocks", p->name, env_live() - live);
	}
	check("start");
}
static void o_stop(int i) {
	fault = 0;
	int rv = diag_l2_StopCommunications(M[i].c);
	vmc_log("stop %d -> %d", i, rv);
	M[i].c = NULL;
	check("stop");
}
static const struct { const char *n; bool ok; } l3n[] = {{"ISO14230", true}, {"iso14230", true}, {"NONE", false}, {"SAEJ1979", false}};
static void o_l3(int i) {
	fault = 0;
	diag_geterr();
	if (M[i].l3) {
		struct diag_l3_conn *l = M[i].l3;
		M[i].l3 = NULL;
		int rv = diag_l3_stop(l);
		vmc_log("L3 stop -> %d", rv);
		VMC_CHECK(rv == 0, "l3stop", "L3 stop: %d", rv);
		return;
	}
	int k = vmc_enum(4, "L3");
	long live = env_live();
	struct diag_l3_conn *l = diag_l3_start(l3n[k].n, M[i].c);
	vmc_log("L3 %s -> %s", l3n[k].n, l ? "ok" : "refused");
	if (!fault && k < 3) {
		VMC_CHECK((l != NULL) == l3n[k].ok, "l3start", "L3 %s: %s", l3n[k].n, l ? "started" : "refused");
	}
	if (!l) {
		VMC_CHECK(env_live() <= live, "leak", "failed L3 start leaks");
	} else {
		VMC_CHECK(l->d_l3l2_conn == M[i].c, "l3", "wrong connection");
	}
	M[i].l3 = l;
}
/* a request goes out on its own interface only */
static void o_use(int i) {
	size_t t0 = dv[0].tx, t1 = dv[1].tx;
	fault = 0;
	uint8_t b[] = {0x01, 0x5A};
	struct diag_msg m = l2h_msg(b, 2);
	int rv = diag_l2_send(M[i].c, &m);
	vmc_log("use %d -> %d", i, rv);
	if (M[i].p->id != DIAG_L2_PROT_CAN && M[i].p->id != DIAG_L2_PROT_VAG && !fault) {
		VMC_CHECK(rv == 0, "use", "connection %d unusable (%d)", i, rv);
		VMC_CHECK(dv[i].tx > (i ? t1 : t0), "use", "nothing sent");
	}
	VMC_CHECK(dv[!i].tx == (i ? t0 : t1), "mix", "sent on the other interface");
	last[i] = env_now;
}
/* the timer: exactly the started connections with a keep-alive are kept alive */
static void o_tick(void) {
	size_t t[2] = {dv[0].tx, dv[1].tx};
	env_now += 60000000;
	fault = 0;
	env_timer_fire();
	vmc_log("tick -> %zu %zu", dv[0].tx - t[0], dv[1].tx - t[1]);
	for (int i = 0; i < 2; i++) {
		bool want = M[i].c && M[i].p->keepalive;
		if (M[i].l3 && !want) {
			continue;       /* L3 may do it */
		}
		VMC_CHECK((dv[i].tx > t[i]) == want || (want && fault), "keepalive", "interface %d: %s", i, want ? "session not kept alive" : "keep-alive without session");
		if (want) {
			last[i] = env_now;
		}
	}
	check("tick");
}
static void run(const struct proto *pa, const struct proto *pb, int depth, int l3) {
	setup(pa, pb);
	const struct proto *pp[2] = {pa, pb};
	env_alloc_hook = failalloc;
	for (int s = 0; s < depth; s++) {
		int op = vmc_enum(l3 ? 13 : 10, "operation");
		int i = op & 1;
		switch (op) {
		case 0: case 1: o_open(i, pp[i]->l1); break;
		case 2: case 3: o_start(i, pp[i], 0); break;
		case 4: case 5:
			if (!M[i].c || M[i].l3) {
				vmc_prune();
			}
			o_stop(i);
			break;
		case 6: case 7: o_close(i); break;
		case 8:
			if (M[0].c || M[1].c) {
				o_tick();
				break;
			}
			o_open(vmc_enum(2, "which"), vmc_enum(2, "L1") ? DIAG_L1_J1850_PWM : DIAG_L1_ISO9141);
			break;
		case 9:
			if (M[0].c || M[1].c) {
				int k = M[0].c && M[1].c ? vmc_enum(2, "which") : M[1].c != NULL;
				o_use(k);
				break;
			}
			o_start(vmc_enum(2, "which"), pa, vmc_enum(2, "bad") ? DIAG_L2_PROT_NOTUSED : 77);
			break;
		case 10: case 11:
			if (!M[i].c) {
				vmc_prune();
			}
			o_l3(i);
			break;
		case 12:
			if (!M[0].open) {
				vmc_prune();
			}
			o_open(0, DIAG_L1_J1850_VPW);
			break;
		}
		struct { int o[2], c[2], l[2]; } st = {{M[0].open, M[1].open}, {!!M[0].c, !!M[1].c}, {!!M[0].l3, !!M[1].l3}};
		vmc_state(vmc_hash(&st, sizeof(st), (uint64_t)env_live()));
	}
	env_alloc_hook = NULL;
	/* wind up */
	for (int i = 0; i < 2; i++) {
		if (M[i].l3) {
			diag_l3_stop(M[i].l3);
		}
		if (M[i].c) {
			o_stop(i);
		}
		o_close(i);
	}
	if (env_live()) {
		env_alloc_dump();
	}
	VMC_CHECK(env_live() == 0, "leak", "%ld blocks still allocated after closing everything", env_live());
	vmc_outcome("opens %d %d", dv[0].nopen, dv[1].nopen);
}
static void ops(int p) {
	int a = vmc_enum(NPROTO, "protocol");
	run(&protos[a], &protos[(a + 1) % NPROTO], p, 1);
}
static void ops_raw(int p) {
	int a = vmc_enum(3, "protocol");
	run(&protos[a], &protos[a], p, 0);
}
/* each start step failing, twice */
static void startstop(int p) {
	int a = vmc_enum(NPROTO, "protocol");
	const struct proto *q = &protos[a];
	setup(q, q);
	env_alloc_hook = failalloc;
	for (int k = 0; k < p; k++) {
		o_open(0, q->l1);
		o_start(0, q, 0);
		if (M[0].c) {
			o_l3(0);
			o_use(0);
			if (M[0].l3) {
				o_l3(0);
			}
			o_stop(0);
		}
		o_close(0);
	}
	env_alloc_hook = NULL;
	VMC_CHECK(env_live() == 0, "leak", "%ld blocks still allocated after closing everything", env_live());
	vmc_outcome("%s", q->name);
}
/* interface objects */
static void drivers(int p) {
	env_reset();
	env_alloc_mark();
	int n = 0;
	while (l0dev_list[n]) {
		n++;
	}
	int k = vmc_enum(n, "driver");
	fault = 0;
	env_alloc_hook = failalloc;
	struct diag_l0_device *d = diag_l0_new(l0dev_list[k]->shortname);
	env_alloc_hook = NULL;
	VMC_CHECK(d != NULL || fault, "new", "%s: not created", l0dev_list[k]->shortname);
	if (d) {
		VMC_CHECK(d->dl0 == l0dev_list[k] && !d->opened, "new", "wrong driver");
		int i = 0;
		for (struct cfgi *c = diag_l0_getcfg(d); c; c = c->next) {
			i++;
			VMC_CHECK(c->type != CFGT_STR || c->val.str != NULL, "new", "%s: created with setting %s missing", l0dev_list[k]->shortname, c->shortname);
		}
		vmc_outcome("%s %d", l0dev_list[k]->shortname, i);
		diag_l0_del(d);
	}
	if (env_live()) {
		env_alloc_dump();
	}
	VMC_CHECK(env_live() == 0, "leak", "%s: %ld blocks leaked (%s)", l0dev_list[k]->shortname, env_live(), d ? "deleted" : "creation failed");
	VMC_CHECK(diag_l0_new("NOSUCH") == NULL, "new", "unknown driver created");
}

const struct vmc_scenario vmc_scenarios[] = {
	{"ops", ops, 4, 1, 2, 0, 9},
	{"ops-deep", ops_raw, 5, 0, 0, 0, 3},
	{"ops-deep6", ops_raw, 6, 0, 0, VMC_THOROUGH_ONLY, 3},
	{"ops-deeper", ops, 5, 1, 1, VMC_THOROUGH_ONLY, 9},
	{"startstop", startstop, 2, 2, 3, 0, 9},
	{"drivers", drivers, 0, 1, 2, 0, 1},
	{0}
};
