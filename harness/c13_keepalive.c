/* C13: the periodic keep-alive callback against the main thread.
 * Every interleaving of the main program with periodic callbacks at mutex operations, interface
 * calls and sleeps, up to a preemption bound, under a controlled scheduler and virtual time. */
#include "l2h.h"
#include <pthread.h>
#include <semaphore.h>
#include <errno.h>

void vmc_process_init(void) {}

/* ------------------------------------------------------------------ scheduler */
void cb_end(int me);
enum st { OFF, READY, SLEEP, WAITL, DONE };
#define MAXT 4
static struct thr {
	enum st st;
	uint64_t wake;
	pthread_mutex_t *want;
	const char *op;         /* what it is doing */
} T[MAXT];
static sem_t sem[MAXT];
static bool haveth[MAXT];
static int cur, nthr, maxcb, ncb13, nfired;
static bool sched_on;
static int forced;              /* no preemption while the harness itself works */

static struct mx { pthread_mutex_t *m; int owner, depth; bool dead; long seq; } M[64];
static long lockseq;
static void unguard(int me, pthread_mutex_t *m);
static int nM;
static struct mx *mx(pthread_mutex_t *m) {
	for (int i = 0; i < nM; i++) {
		if (M[i].m == m) {
			return &M[i];
		}
	}
	if (nM >= 64) {
		vmc_error("too many mutexes");
	}
	M[nM].m = m;
	M[nM].owner = -1;
	M[nM].depth = 0;
	M[nM].dead = false;
	return &M[nM++];
}
static bool recursive(pthread_mutex_t *m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }
static bool canlock(int t, pthread_mutex_t *m) {
	struct mx *x = mx(m);
	return x->owner < 0 || (x->owner == t && recursive(m));
}
static bool enabled(int t) {
	switch (T[t].st) {
	case READY: return true;
	case SLEEP: return T[t].wake <= env_now;
	case WAITL: return canlock(t, T[t].want);
	default: return false;
	}
}
static void switch_to(int n) {
	int me = cur;
	if (n == me) {
		return;
	}
	bool over = T[me].st == DONE && me != 0;
	cur = n;
	sem_post(&sem[n]);
	if (over) {
		return;         /* thread ends */
	}
	while (sem_wait(&sem[me])) {
	}
}
static void where(char *b, size_t n) {
	size_t o = 0;
	for (int i = 0; i < nthr; i++) {
		o += (size_t)snprintf(b + o, n - o, " thread %d (%s) state %d;", i, T[i].op ? T[i].op : "callback", T[i].st);
	}
}
/* the current thread can not go on: let another one run */
static void reschedule(void) {
	for (;;) {
		int c[MAXT], n = 0;
		uint64_t mw = UINT64_MAX;
		if (enabled(cur)) {
			c[n++] = cur;
		}
		for (int i = 0; i < nthr; i++) {
			if (i != cur && enabled(i)) {
				c[n++] = i;
			}
			if (T[i].st == SLEEP && T[i].wake < mw) {
				mw = T[i].wake;
			}
		}
		if (n) {
			int k = n > 1 ? vmc_dev(n, "next thread") : 0;
			if (T[c[k]].st != DONE) {
				T[c[k]].st = READY;
			}
			switch_to(c[k]);
			return;
		}
		if (mw != UINT64_MAX) {
			env_now = mw;
			continue;
		}
		bool all = true;
		for (int i = 0; i < nthr; i++) {
			all = all && T[i].st == DONE;
		}
		if (all) {
			switch_to(0);
			return;
		}
		char b[200];
		where(b, sizeof(b));
		vmc_fail("deadlock", "deadlock:%s", b);
	}
}
static void *cbthread(void *a) {
	int me = (int)(intptr_t)a;
again:
	while (sem_wait(&sem[me])) {
	}
	union sigval v;
	memset(&v, 0, sizeof(v));
	env_timer_fn(v);
	for (int i = 0; i < nM; i++) {
		VMC_CHECK(M[i].owner != me, "heldlock", "the periodic callback ended holding a lock");
	}
	cb_end(me);
	T[me].st = DONE;
	reschedule();
	goto again;     /* for the next execution */
}
static void point(void) {
	if (!sched_on || forced) {
		return;
	}
	int c[MAXT + 1], n = 0;
	c[n++] = cur;
	for (int i = 0; i < nthr; i++) {
		if (i != cur && enabled(i)) {
			c[n++] = i;
		}
	}
	bool exp = env_timer_armed && env_timers_live > 0 && env_timer_fn && nfired < maxcb;
	if (exp) {
		c[n++] = MAXT;
	}
	int k = n > 1 ? vmc_dev(n, "preempt") : 0;
	if (c[k] == MAXT) {
		int i = nthr++;
		nfired++;
		memset(&T[i], 0, sizeof(T[i]));
		T[i].st = READY;
		if (!haveth[i]) {
			pthread_t t;
			sem_init(&sem[i], 0, 0);
			if (pthread_create(&t, NULL, cbthread, (void *)(intptr_t)i)) {
				vmc_error("pthread_create");
			}
			haveth[i] = true;
		}
		vmc_log("t=%llu periodic callback %d", (unsigned long long)(env_now - T0), i);
		switch_to(i);
	} else if (k) {
		vmc_log("t=%llu switch %d -> %d", (unsigned long long)(env_now - T0), cur, c[k]);
		T[c[k]].st = READY;
		switch_to(c[k]);
	}
}
static int h_lock(pthread_mutex_t *m, int op) {
	if (!sched_on) {
		return -1000;
	}
	int me = cur;
	struct mx *x = mx(m);
	if (op == 3) {
		VMC_CHECK(x->owner < 0, "destroyheld", "a locked mutex is destroyed by thread %d", me);
		for (int i = 0; i < nthr; i++) {
			VMC_CHECK(!(T[i].st == WAITL && T[i].want == m), "destroywait", "a mutex another thread waits for is destroyed");
		}
		point();
		x->dead = true;
		return -1000;
	}
	if (op == 4) {
		VMC_CHECK(x->owner < 0, "inithheld", "a locked mutex is initialised again by thread %d", me);
		x->dead = false;
		x->depth = 0;
		return -1000;
	}
	VMC_CHECK(!x->dead, "deadmutex", "thread %d (%s) uses a destroyed mutex", me, T[me].op ? T[me].op : "callback");
	if (op == 2) {
		VMC_CHECK(x->owner == me && x->depth > 0, "badunlock", "thread %d unlocks a mutex it does not hold", me);
		if (--x->depth == 0) {
			x->owner = -1;
			unguard(me, m);
		}
		point();
		return 0;
	}
	point();
	VMC_CHECK(!x->dead, "deadmutex", "thread %d (%s) uses a destroyed mutex", me, T[me].op ? T[me].op : "callback");
	if (op == 1) {
		if (!canlock(me, m)) {
			return EBUSY;
		}
	} else {
		while (!canlock(me, m)) {
			T[me].st = WAITL;
			T[me].want = m;
			reschedule();
		}
	}
	VMC_CHECK(!x->dead, "deadmutex", "thread %d (%s) uses a destroyed mutex", me, T[me].op ? T[me].op : "callback");
	if (x->depth++ == 0) {
		x->seq = ++lockseq;
	}
	x->owner = me;
	return 0;
}
static void sleep_until(uint64_t w) {
	if (!sched_on) {
		env_now = w > env_now ? w : env_now;
		return;
	}
	point();
	int me = cur;
	while (env_now < w) {
		T[me].st = SLEEP;
		T[me].wake = w;
		reschedule();
	}
}
static int h_sleep(uint64_t us, uint64_t *rem) {
	sleep_until(env_now + us);
	return 0;
}

/* ------------------------------------------------------------------ interfaces and ECUs */
enum { P_14230, P_14230F, P_D2, P_9141, P_1850, P_14230J, P_MON };
struct dev {
	struct diag_l0_device d;
	struct diag_l0 drv;
	int isopen, proto;
	uint32_t flags;
	struct { uint8_t d[32]; int n; uint64_t t; } q[64];    /* frames, and when they arrive */
	int qh, qt;
	pthread_mutex_t *guard; /* lock which covers the use by the callback */
	int owner;              /* thread whose operation is under way on this bus */
	const char *what;
	uint64_t last;          /* last activity on the wire */
	uint64_t lastok;        /* last complete exchange or send */
	int nsend, nka;         /* frames sent, keep-alives sent */
	bool session;           /* between the end of start and the begin of stop */
	struct diag_l2_conn *c;
	struct diag_l3_conn *c3;
	bool silent;
	int pending;            /* the ECU first answers `wait' that often */
	unsigned delay;         /* of answers, ms */
};
#define ND 3
static struct dev dv[ND];
static struct dev *D(struct diag_l0_device *d) { return d == &dv[0].d ? &dv[0] : d == &dv[1].d ? &dv[1] : &dv[2]; }
static bool incb[MAXT];
static struct dev *opdev;       /* main's operation */
static bool seqcb;              /* sequential scenario: inside the callback */

void cb_end(int me);
void cb_end(int me) {
	for (int i = 0; i < ND; i++) {
		if (dv[i].owner == me) {
			dv[i].owner = -1;
		}
	}
}
static void unguard(int me, pthread_mutex_t *m) {
	for (int i = 0; i < ND; i++) {
		if (dv[i].owner == me && dv[i].guard == m) {
			dv[i].owner = -1;
		}
	}
}
static bool iscb(void) { return sched_on ? cur != 0 : seqcb; }
static void touch(struct dev *x, const char *what) {
	vmc_tick();
	point();
	VMC_CHECK(x->isopen, "closed", "%s on the closed interface %d by %s", what, (int)(x - dv), iscb() ? "the periodic callback" : "the main thread");
	VMC_CHECK(x->owner < 0 || x->owner == cur, "interleave", "%s on interface %d by thread %d in the middle of an operation of thread %d", what, (int)(x - dv), cur, x->owner);
	if (iscb()) {
		VMC_CHECK(x->session, "nosession", "the periodic callback uses interface %d (%s) which has no started session", (int)(x - dv), what);
	}
	if (x->owner < 0) {
		x->owner = cur;
		/* the callback's use of the bus ends with the innermost lock it holds now */
		x->guard = NULL;
		long best = -1;
		for (int i = 0; i < nM && sched_on; i++) {
			if (M[i].owner == cur && M[i].seq > best) {
				best = M[i].seq;
				x->guard = M[i].m;
			}
		}
	}
}
static int x_open(struct diag_l0_device *d, int l1) {
	struct dev *x = D(d);
	x->isopen = 1;
	d->opened = true;
	return 0;
}
static void x_close(struct diag_l0_device *d) {
	touch(D(d), "close");
	D(d)->isopen = 0;
	d->opened = false;
}
static uint32_t x_flags(struct diag_l0_device *d) { return D(d)->flags; }
static void ans(struct dev *x, const uint8_t *p, int n, bool cks) {
	if (x->silent) {
		return;
	}
	if (x->qh == x->qt) {
		x->qh = x->qt = 0;
	}
	if (x->qt >= 64) {
		vmc_error("answer queue");
	}
	memcpy(x->q[x->qt].d, p, (size_t)n);
	if (cks) {
		x->q[x->qt].d[n] = sum8(p, (size_t)n);
		n++;
	}
	x->q[x->qt].n = n;
	x->q[x->qt++].t = env_now + x->delay * 1000 + 30000;
}
/* answers of the ECU; returns true if it is a keep-alive request */
static bool respond(struct dev *x, const uint8_t *p, size_t n) {
	uint8_t r[32];
	switch (x->proto) {
	case P_14230: case P_14230F: case P_14230J: {
		VMC_CHECK(n >= 4 && (p[0] & 0xC0) && (p[0] & 0x3F) && n >= 3u + (p[0] & 0x3F), "frame", "damaged request of %zu bytes", n);
		int l = p[0] & 0x3F, ql = l;
		r[1] = p[2]; r[2] = p[1];
		if (p[3] == 0x81) {
			memcpy(r + 3, (uint8_t[]){0xC1, 0xEF, 0x8F}, 3);
			l = 3;
		} else {
			for (int i = 0; i < x->pending && p[3] == 0x21; i++) {
				uint8_t w[] = {0x83, r[1], r[2], 0x7F, p[3], 0x78};
				ans(x, w, 6, false);
				x->delay += 150;
			}
			r[3] = p[3] | 0x40;
			memcpy(r + 4, p + 4, (size_t)l - 1);
		}
		r[0] = (uint8_t)(0x80 | l);
		ans(x, r, 3 + l, false);
		x->delay = 0;
		if (x->proto == P_14230J || x->proto == P_14230F) {
			return ql == 2 && p[3] == 1 && p[4] == 0;
		}
		/* testerPresent, perhaps with its parameter */
		return p[3] == 0x3E && (ql == 1 || (ql == 2 && (p[4] == 1 || p[4] == 2)));
	}
	case P_D2: {
		VMC_CHECK(n >= 4, "frame", "damaged request of %zu bytes", n);
		int l = (int)n - 3;
		r[0] = (uint8_t)(0x80 + l + 0);
		r[0] = p[0];
		r[1] = p[2]; r[2] = p[1];
		r[3] = p[3] | 0x40;
		memcpy(r + 4, p + 4, (size_t)l - 1);
		ans(x, r, 3 + l, true);
		return p[3] == 0xA1;
	}
	case P_9141: case P_1850: {
		VMC_CHECK(n >= 4, "frame", "damaged request of %zu bytes", n);
		uint8_t q[] = {0x48, 0x6B, 0x10, (uint8_t)(p[3] | 0x40), p[4], 1, 2, 3, 4};
		ans(x, q, 9, false);
		return p[3] == 1 && p[4] == 0;
	}
	default:
		ans(x, p, (int)n, false);
		return false;
	}
}
static uint64_t interval(struct dev *x) {
	switch (x->proto) {
	case P_9141: case P_1850: return 3500000 - 1000;
	default: return 3333000;
	}
}
static int x_send(struct diag_l0_device *d, const void *data, size_t len) {
	struct dev *x = D(d);
	touch(x, "send");
	env_now += 1000;
	vmc_loghex(iscb() ? "KEEPALIVE TX" : "TX", data, len);
	if (iscb()) {
		x->nka++;
		VMC_CHECK(env_now - 1000 - x->last > interval(x) - 1000, "early", "keep-alive on interface %d after only %llu us of silence", (int)(x - dv), (unsigned long long)(env_now - x->last));
	}
	x->nsend++;
	/* when nobody answers, the keep-alive may be tried again at once */
	if (!x->silent) {
		x->last = env_now;
	}
	bool ka = respond(x, data, len);
	if (iscb()) {
		VMC_CHECK(ka, "katype", "the periodic callback sends something which is no keep-alive");
	}
	return 0;
}
static int x_recv(struct diag_l0_device *d, void *data, size_t len, unsigned tmo) {
	struct dev *x = D(d);
	touch(x, "receive");
	uint64_t end = env_now + (uint64_t)tmo * 1000;
	for (;;) {
		if (x->qh < x->qt && x->q[x->qh].t <= env_now) {
			size_t n = (size_t)x->q[x->qh].n;
			n = n < len ? n : len;
			memcpy(data, x->q[x->qh].d, n);
			x->qh++;
			x->last = env_now;
			vmc_loghex("RX", data, n);
			return (int)n;
		}
		if (env_now >= end) {
			return diag_iseterr(DIAG_ERR_TIMEOUT);
		}
		uint64_t w = end;
		if (x->qh < x->qt && x->q[x->qh].t < w) {
			w = x->q[x->qh].t;
		}
		sleep_until(w);
		VMC_CHECK(x->isopen, "closed", "interface closed during a receive");
	}
}
static int x_ioctl(struct diag_l0_device *d, unsigned cmd, void *data) {
	struct dev *x = D(d);
	touch(x, "ioctl");
	if (cmd == DIAG_IOCTL_IFLUSH) {
		while (x->qh < x->qt && x->q[x->qh].t <= env_now) {
			x->qh++;
		}
	}
	if (cmd == DIAG_IOCTL_INITBUS) {
		struct diag_l1_initbus_args *a = data;
		x->last = env_now;
		if (x->proto == P_D2) {
			a->kb1 = 0xD3;
			a->kb2 = 0xB0;
		}
	}
	return 0;
}

#define CAP (DIAG_L1_SLOW | DIAG_L1_FAST | DIAG_L1_DOESL2FRAME | DIAG_L1_DOESP4WAIT | DIAG_L1_AUTOSPEED)
static void devinit(int i, int proto) {
	struct dev *x = &dv[i];
	memset(x, 0, sizeof(*x));
	x->drv = mk_dl0;
	x->drv._open = x_open;
	x->drv._close = x_close;
	x->drv._getflags = x_flags;
	x->drv._send = x_send;
	x->drv._recv = x_recv;
	x->drv._ioctl = x_ioctl;
	x->d.dl0 = &x->drv;
	x->proto = proto;
	x->owner = -1;
	x->flags = CAP;
	switch (proto) {
	case P_14230: case P_14230F: case P_14230J: case P_MON: x->flags |= DIAG_L1_DOESL2CKSUM | DIAG_L1_STRIPSL2CKSUM; break;
	case P_D2: x->flags |= DIAG_L1_DOESL2CKSUM | DIAG_L1_DOESFULLINIT; break;
	case P_9141: x->flags |= DIAG_L1_DOESL2CKSUM | DIAG_L1_STRIPSL2CKSUM | DIAG_L1_DOESFULLINIT; break;
	case P_1850: x->flags |= DIAG_L1_DOESL2CKSUM | DIAG_L1_STRIPSL2CKSUM; break;
	}
}

/* ------------------------------------------------------------------ operations of the main thread */
static void op_begin(struct dev *x, const char *what) {
	T[0].op = what;
	vmc_log("t=%llu %s on interface %d", (unsigned long long)(env_now - T0), what, (int)(x - dv));
	point();
}
static void op_end(struct dev *x) {
	if (x->owner == 0) {
		x->owner = -1;
	}
	x->lastok = env_now;
	T[0].op = "main";
	point();
}
static void do_start(struct dev *x) {
	op_begin(x, "start");
	int l1, l2;
	flag_type fl = 0;
	switch (x->proto) {
	default: case P_14230: l1 = DIAG_L1_ISO14230; l2 = DIAG_L2_PROT_ISO14230; fl = DIAG_L2_TYPE_FASTINIT; break;
	case P_14230F: case P_14230J: l1 = DIAG_L1_ISO14230; l2 = DIAG_L2_PROT_ISO14230; fl = DIAG_L2_TYPE_FASTINIT | DIAG_L2_IDLE_J1978; break;
	case P_MON: l1 = DIAG_L1_ISO14230; l2 = DIAG_L2_PROT_ISO14230; fl = DIAG_L2_TYPE_MONINIT; break;
	case P_D2: l1 = DIAG_L1_ISO9141; l2 = DIAG_L2_PROT_D2; fl = DIAG_L2_TYPE_SLOWINIT; break;
	case P_9141: l1 = DIAG_L1_ISO9141; l2 = DIAG_L2_PROT_ISO9141; fl = DIAG_L2_TYPE_SLOWINIT; break;
	case P_1850: l1 = DIAG_L1_J1850_VPW; l2 = DIAG_L2_PROT_SAEJ1850; break;
	}
	int rv = diag_l2_open(&x->d, l1);
	VMC_CHECK(rv == 0, "open", "opening failed (%d)", rv);
	x->c = diag_l2_StartCommunications(&x->d, l2, fl, 10400, x->proto == P_D2 ? 0x7A : 0x10, 0xF1);
	VMC_CHECK(x->c != NULL, "start", "the session could not be started (protocol %d)", x->proto);
	x->session = true;
	if (x->proto == P_9141 || x->proto == P_1850 || x->proto == P_14230J) {
		T[0].op = "L3 start";
		x->c3 = diag_l3_start("SAEJ1979", x->c);
		VMC_CHECK(x->c3 != NULL, "l3start", "the J1979 layer could not be started");
	}
	op_end(x);
}
static int reqid;
static void do_request(struct dev *x) {
	op_begin(x, "request");
	uint8_t d[] = {0x21, (uint8_t)(0x30 + ++reqid)};
	if (x->proto == P_D2) {
		d[0] = 0xA5;
	}
	if (x->c3) {
		d[0] = 1;
	}
	struct diag_msg m = l2h_msg(d, 2), *r;
	m.dest = x->proto == P_D2 ? 0x7A : 0x10;
	m.src = 0xF1;
	int e = 0;
	r = x->c3 ? diag_l3_request(x->c3, &m, &e) : diag_l2_request(x->c, &m, &e);
	if (x->silent && !r) {
		op_end(x);
		return;
	}
	VMC_CHECK(r != NULL, "noanswer", "a request which the ECU answered failed (%d)", e);
	VMC_CHECK(r->len >= 2 && r->data[0] == (d[0] | 0x40) && r->data[1] == d[1], "wronganswer", "request %02x %02x was answered with %u bytes %02x %02x", d[0], d[1], r->len, r->data[0], r->len > 1 ? r->data[1] : 0);
	diag_freemsg(r);
	op_end(x);
}
static void do_sendrecv(struct dev *x) {
	op_begin(x, "send");
	uint8_t d[] = {0x21, (uint8_t)(0x30 + ++reqid)};
	struct diag_msg m = l2h_msg(d, 2);
	if (x->c3) {
		d[0] = 1;
	}
	m.dest = x->proto == P_D2 ? 0x7A : 0x10;
	m.src = 0xF1;
	int rv = x->c3 ? diag_l3_send(x->c3, &m) : diag_l2_send(x->c, &m);
	VMC_CHECK(rv == 0, "send", "send failed (%d)", rv);
	if (x->owner == 0) {
		x->owner = -1;
	}
	T[0].op = "receive";
	point();
	ngot = 0;
	rv = x->c3 ? diag_l3_recv(x->c3, 300, l2h_cb, &ngot) : diag_l2_recv(x->c, 300, l2h_cb, &ngot);
	/* a keep-alive between send and receive can not start: the link was not idle */
	VMC_CHECK(x->silent || (rv >= 0 && ngot == 1 && got[0].len >= 2 && got[0].d[1] == d[1]), "recv", "the answer was not received (%d, %d messages)", rv, ngot);
	op_end(x);
}
static void do_stop(struct dev *x) {
	if (x->c3) {
		op_begin(x, "L3 stop");
		diag_l3_stop(x->c3);
		x->c3 = NULL;
		op_end(x);
	}
	op_begin(x, "stop");
	/* closing starts when the connection's lock has been obtained: the callback may finish first */
	int rv = diag_l2_StopCommunications(x->c);
	x->session = false;
	x->c = NULL;
	VMC_CHECK(rv == 0, "stop", "stop returned %d", rv);
	op_end(x);
	op_begin(x, "close");
	rv = diag_l2_close(&x->d);
	VMC_CHECK(rv == 0 && !x->isopen, "l2close", "close returned %d", rv);
	op_end(x);
}
/* the ECU sends something by itself after `ms' */
static void do_listen(struct dev *x, unsigned ms) {
	uint8_t r[] = {0x82, 0xF1, 0x10, 0x61, 0x77, 0, 0, 0, 0};
	int n = 5;
	if (x->proto == P_D2) {
		r[0] = 0x83;
		r[2] = 0x7A;
	} else if (x->proto == P_14230J) {
		r[3] = 0x41;
	} else if (x->c3) {
		memcpy(r, (uint8_t[]){0x48, 0x6B, 0x10, 0x41, 0x77, 1, 2, 3, 4}, 9);
		n = 9;
	}
	op_begin(x, "listen");
	bool s = x->silent;
	x->silent = false;
	x->delay = ms - 30;
	ans(x, r, n, x->proto == P_D2);
	x->delay = 0;
	x->silent = s;
	ngot = 0;
	if (x->c3) {
		diag_l3_recv(x->c3, ms + 100, l2h_cb, &ngot);
	} else {
		diag_l2_recv(x->c, ms + 100, l2h_cb, &ngot);
	}
	VMC_CHECK(ngot == 1 && got[0].len >= 2 && got[0].d[1] == 0x77, "listen", "the message was not received");
	op_end(x);
}
static void do_ioctl(struct dev *x) {
	op_begin(x, "ioctl");
	int rv = diag_l2_ioctl(x->c, DIAG_IOCTL_IFLUSH, NULL);
	VMC_CHECK(rv == 0, "ioctl", "flush returned %d", rv);
	op_end(x);
}
static void idle(unsigned ms) {
	T[0].op = "idle";
	vmc_log("t=%llu idle %u ms", (unsigned long long)(env_now - T0), ms);
	sleep_until(env_now + ms * 1000ULL);
	T[0].op = "main";
}
static void do_init(void) {
	T[0].op = "init";
	int rv = diag_init();
	VMC_CHECK(rv == 0 && env_timer_armed && env_timers_live == 1, "init", "diag_init %d, periodic timer not running", rv);
}
static void do_end(void) {
	T[0].op = "shutdown";
	vmc_log("t=%llu shutdown", (unsigned long long)(env_now - T0));
	int rv = diag_end();
	VMC_CHECK(rv == 0 && env_timers_live == 0, "end", "diag_end returned %d, %d timers left", rv, env_timers_live);
	T[0].op = "ended";
	point();
}

static void world_begin(int ncb) {
	env_reset();
	env_alloc_mark();
	env_sleep_hook = h_sleep;
	env_lock_hook = h_lock;
	diag_end();
	memset(T, 0, sizeof(T));
	nthr = 1;
	cur = 0;
	nfired = 0;
	maxcb = ncb;
	nM = 0;
	reqid = 0;
	sem_init(&sem[0], 0, 0);
	T[0].st = READY;
	T[0].op = "main";
	dv[0].owner = dv[1].owner = dv[2].owner = -1;
	vmc_set_tick_limit(200000);
	sched_on = true;
}
static void world_end(void) {
	/* the program ends; whatever still runs has to finish */
	T[0].op = "ended";
	T[0].st = DONE;
	reschedule();
	T[0].st = READY;
	for (int i = 1; i < nthr; i++) {
		if (T[i].st != DONE) {
			vmc_error("callback not finished");
		}
	}
	sched_on = false;
	env_lock_hook = NULL;
	if (env_live()) {
		env_alloc_dump();
	}
	VMC_CHECK(env_live() == 0, "leak", "%ld blocks left at the end", env_live());
	vmc_outcome("%d callbacks, %d keep-alives", nfired, dv[0].nka + dv[1].nka);
}

/* one session; the callbacks come while it ends, is used, or idles */
static void one(int proto) {
	int prog = vmc_enum(proto == P_14230 ? 7 : 6, "program");
	world_begin(2);
	devinit(0, proto);
	do_init();
	do_start(&dv[0]);
	switch (prog) {
	case 0: /* idle long enough, then a request */
		idle(3600);
		do_request(&dv[0]);
		break;
	case 1: /* stop at the moment the keep-alive is due */
		idle(3600);
		break;
	case 2: /* never idle for long */
		idle(1000);
		do_sendrecv(&dv[0]);
		idle(2600);
		do_request(&dv[0]);
		break;
	case 4: /* flush */
		idle(3600);
		do_ioctl(&dv[0]);
		break;
	case 5: /* listen for longer than the idle interval */
		idle(1000);
		do_listen(&dv[0], 4000);
		break;
	case 6: /* a request which takes longer than the idle interval */
		dv[0].pending = 25;
		do_request(&dv[0]);
		break;
	case 3: /* two idle periods */
		idle(3600);
		do_sendrecv(&dv[0]);
		idle(3600);
		break;
	}
	do_stop(&dv[0]);
	do_end();
	world_end();
}
/* one session after the other, on the same or another interface */
static void restart(int proto) {
	world_begin(2);
	int other = vmc_enum(2, "same interface");
	devinit(0, proto);
	devinit(1, proto == P_D2 ? P_14230 : P_D2);
	do_init();
	do_start(&dv[0]);
	idle(3600);
	do_stop(&dv[0]);
	do_start(&dv[other]);
	do_request(&dv[other]);
	do_stop(&dv[other]);
	do_end();
	world_end();
}
/* two sessions at once */
static void two(int proto) {
	world_begin(2);
	devinit(0, proto);
	devinit(1, proto == P_D2 ? P_14230 : P_D2);
	do_init();
	do_start(&dv[0]);
	idle(3600);
	do_start(&dv[1]);
	do_request(&dv[0]);
	do_stop(&dv[0]);
	idle(3600);
	do_request(&dv[1]);
	do_stop(&dv[1]);
	do_end();
	world_end();
}
/* starting and ending the whole stack */
static void cycle(int n) {
	world_begin(2);
	devinit(0, P_14230);
	for (int i = 0; i < n; i++) {
		do_init();
		if (i == n - 1) {
			do_start(&dv[0]);
			do_stop(&dv[0]);
		}
		do_end();
	}
	world_end();
}

/* ------------------------------------------------------------------ when the keep-alive goes out */
static void tick(struct dev *x, bool expected, bool forbidden, uint64_t idle) {
	int k = x->nka;
	seqcb = true;
	env_timer_fire();
	seqcb = false;
	x->owner = -1;
	if (x->nka > k) {
		x->lastok = env_now;
	}
	if (expected) {
		VMC_CHECK(x->nka > k, "missing", "idle for %llu ms and no keep-alive", (unsigned long long)idle / 1000);
	}
	if (forbidden) {
		VMC_CHECK(x->nka == k, "unwanted", "a keep-alive was sent after %llu ms", (unsigned long long)idle / 1000);
	}
	VMC_CHECK(x->nka <= k + 1, "twice", "%d keep-alives at once", x->nka - k);
}
static void timing(int p) {
	int proto = vmc_enum(7, "protocol");
	static const int pr[] = {P_14230, P_14230F, P_D2, P_9141, P_1850, P_14230J, P_MON};
	proto = pr[proto];
	bool mon = proto == P_MON;
	int off = vmc_enum(2, "interface does keep-alive");
	int phase = vmc_enum(3, "phase") * 149;
	env_reset();
	env_sleep_hook = h_sleep;
	diag_end();
	diag_init();
	env_alloc_mark();
	sched_on = false;
	cur = 0;
	reqid = 0;
	maxcb = 0;
	devinit(0, proto);
	struct dev *x = &dv[0];
	if (off) {
		x->flags |= DIAG_L1_DOESKEEPALIVE;
	}
	x->owner = -1;
	do_start(x);
	env_now += (uint64_t)phase * 1000;
	uint64_t iv = interval(x);
	for (int i = 0; i < p; i++) {
		/* what the program does before the next tick */
		switch (mon ? 0 : vmc_dev(6, "activity")) {
		case 0: break;
		case 1: do_request(x); break;
		case 2: do_sendrecv(x); break;
		case 3: env_now += 3100000; break;      /* busy elsewhere */
		case 4: x->silent = !x->silent; break;  /* the ECU stops answering */
		case 5: do_listen(x, 2000); break;
		}
		uint64_t t = env_now + 300000 - (env_now - T0) % 300000;
		env_now = t;
		uint64_t idle = env_now - x->last;
		tick(x, !off && !mon && env_now - x->lastok > iv + 2000, off || mon || idle + 2000 < iv, idle);
		vmc_state(vmc_hash(&idle, sizeof(idle), (uint64_t)x->nka));
	}
	x->silent = false;
	vmc_outcome("%d %d: %d", proto, off, x->nka);
	do_stop(x);
	VMC_CHECK(env_live() == 0, "leak", "%ld blocks left", env_live());
	uint64_t z = 0;
	env_now += 10000000;
	tick(x, false, true, z);
	diag_end();
	tick(x, false, true, z);
}

/* several connections at once: each of them is kept alive if it has to be, whatever the others are */
static void several(int n) {
	static const int pr[] = {P_14230, P_D2, P_9141, P_14230J, P_MON};
	bool need[ND];
	env_reset();
	env_sleep_hook = h_sleep;
	diag_end();
	diag_init();
	env_alloc_mark();
	sched_on = false;
	cur = 0;
	reqid = 0;
	maxcb = 0;
	for (int i = 0; i < n; i++) {
		int k = vmc_enum(7, "connection");
		int proto = k < 5 ? pr[k] : k == 5 ? P_14230 : P_9141;
		devinit(i, proto);
		if (k >= 5) {
			dv[i].flags |= DIAG_L1_DOESKEEPALIVE;
		}
		need[i] = k < 4;
		do_start(&dv[i]);
	}
	int quiet = vmc_enum(n + 1, "stopped first");
	if (quiet < n) {
		do_stop(&dv[quiet]);
		need[quiet] = false;
	}
	for (int t = 0; t < 28; t++) {
		int k[ND];
		env_now += 300000 - (env_now - T0) % 300000;
		bool due[ND];
		for (int i = 0; i < n; i++) {
			k[i] = dv[i].nka;
			due[i] = need[i] && env_now - dv[i].lastok > interval(&dv[i]) + 2000;
			/* silence until just before this connection's turn is not enough */
		}
		uint64_t now = env_now;
		seqcb = true;
		env_timer_fire();
		seqcb = false;
		for (int i = 0; i < n; i++) {
			dv[i].owner = -1;
			VMC_CHECK(!due[i] || dv[i].nka > k[i], "missing", "connection %d of %d (protocol %d) idle for %llu ms and no keep-alive", i + 1, n, dv[i].proto, (unsigned long long)(now - dv[i].lastok) / 1000);
			VMC_CHECK(need[i] || dv[i].nka == k[i], "unwanted", "keep-alive on connection %d which does not need it", i + 1);
			VMC_CHECK(dv[i].nka <= k[i] + 1, "twice", "%d keep-alives at once", dv[i].nka - k[i]);
			if (dv[i].nka > k[i]) {
				dv[i].lastok = env_now;
			}
		}
	}
	for (int i = 0; i < n; i++) {
		if (i != quiet) {
			do_stop(&dv[i]);
		}
	}
	VMC_CHECK(env_live() == 0, "leak", "%ld blocks left", env_live());
	diag_end();
}

const struct vmc_scenario vmc_scenarios[] = {
	{"timing", timing, 26, 2, 3, 0, 8},
	{"several2", several, 2, 0, 0, 0, 1},
	{"several3", several, 3, 0, 0, 0, 4},
	{"one-14230", one, P_14230, 2, 3, 0, 8},
	{"one-14230j", one, P_14230J, 2, 3, 0, 8},
	{"one-d2", one, P_D2, 2, 3, 0, 8},
	{"one-9141", one, P_9141, 2, 3, 0, 8},
	{"one-1850", one, P_1850, 2, 3, 0, 8},
	{"restart-14230", restart, P_14230, 2, 3, 0, 8},
	{"restart-1850", restart, P_1850, 3, 3, 0, 8},
	{"two-14230", two, P_14230, 2, 3, 0, 8},
	{"two-1850", two, P_1850, 2, 3, 0, 8},
	{"cycle", cycle, 3, 3, 4, 0, 8},
	{0}
};
