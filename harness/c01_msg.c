/* C01: message containers, allocation helpers, error latch. */
#include "vmc.h"
#include "env.h"
#include "mockl0.h"
#include "diag_os.h"
#include "utlist.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

void vmc_process_init(void) { }

/* ---- reference model: a slot is a list of (header, bytes) ---- */
struct m { uint8_t fmt, type, dest, src; unsigned long rx; unsigned len; uint8_t d[8]; };
struct slot { int n; struct m m[24]; struct diag_msg *real; };
static struct slot sl[2];
static int serial;

static int alloc_choice(size_t n) { return vmc_dev(2, "alloc fails"); }

static void cmp(const char *when) {
	for (int s = 0; s < 2; s++) {
		struct diag_msg *r = sl[s].real;
		for (int i = 0; i < sl[s].n; i++) {
			struct m *m = &sl[s].m[i];
			VMC_CHECK(r != NULL, "chain-short", "%s: slot %d lost message %d of %d", when, s, i, sl[s].n);
			VMC_CHECK(r->len == m->len, "len", "%s: slot %d msg %d length %u, expected %u", when, s, i, r->len, m->len);
			VMC_CHECK(r->fmt == m->fmt && r->type == m->type && r->src == m->src && r->dest == m->dest && r->rxtime == m->rx,
			          "meta", "%s: slot %d msg %d metadata changed", when, s, i);
			VMC_CHECK(m->len == 0 || memcmp(r->data, m->d, m->len) == 0, "data", "%s: slot %d msg %d data changed", when, s, i);
			r = r->next;
		}
		VMC_CHECK(r == NULL, "chain-long", "%s: slot %d has extra messages", when, s);
	}
	vmc_checked();
}

static uint64_t canon(void) {
	uint64_t h = 0;
	for (int s = 0; s < 2; s++) {
		h = vmc_hash(&sl[s].n, sizeof(int), h);
		for (int i = 0; i < sl[s].n; i++) {
			h = vmc_hash(&sl[s].m[i].len, sizeof(unsigned), h);
		}
	}
	return h;
}

static void do_alloc(int s) {
	static const unsigned lens[] = {0, 1, 3};
	unsigned len = lens[vmc_enum(3, "len")];
	struct diag_msg *r = diag_allocmsg(len);
	if (!r) {
		VMC_CHECK(env_alloc_failed, "alloc-null", "allocation of %u bytes refused without memory shortage", len);
		VMC_CHECK(diag_geterr() != 0, "noerr", "failed allocation latched no error");
		return;
	}
	VMC_CHECK(r->len == len && r->next == NULL && (len == 0 || r->data), "alloc", "bad fresh message");
	for (unsigned i = 0; i < len; i++) {
		VMC_CHECK(r->data[i] == 0, "alloc-dirty", "fresh message is not zeroed");
	}
	if (sl[s].n >= 23) {
		diag_freemsg(r);
		return;
	}
	struct m *m = &sl[s].m[sl[s].n++];
	memset(m, 0, sizeof(*m));
	serial++;
	m->len = len;
	m->fmt = r->fmt = (uint8_t)(0x10 + serial);
	m->type = r->type = (uint8_t)(0x20 + serial);
	m->src = r->src = (uint8_t)(0x30 + serial);
	m->dest = r->dest = (uint8_t)(0x40 + serial);
	m->rx = r->rxtime = 1000000UL * serial + 7;
	for (unsigned i = 0; i < len; i++) {
		m->d[i] = r->data[i] = (uint8_t)(serial * 16 + i);
	}
	LL_CONCAT(sl[s].real, r);
}

static void do_dup(int s, int single) {
	int d = !s;
	if (!sl[s].n || sl[d].n > 5) {
		vmc_prune();
	}
	struct diag_msg *r = single ? diag_dupsinglemsg(sl[s].real) : diag_dupmsg(sl[s].real);
	if (!r) {
		VMC_CHECK(env_alloc_failed, "dup-null", "duplication refused without memory shortage");
		VMC_CHECK(diag_geterr() != 0, "noerr", "failed duplication latched no error");
		return;
	}
	if (single) {
		r->next = NULL;
	}
	int n = single ? 1 : sl[s].n;
	if (sl[d].n + n > 23) {
		diag_freemsg(r);
		return;
	}
	memcpy(&sl[d].m[sl[d].n], sl[s].m, sizeof(struct m) * (size_t)n);
	sl[d].n += n;
	LL_CONCAT(sl[d].real, r);
}

static void ops(int depth) {
	env_reset();
	env_alloc_mark();
	diag_geterr();
	memset(sl, 0, sizeof(sl));
	serial = 0;
	if (vmc_bound() > 0) {
		env_alloc_hook = alloc_choice;
	}
	int n = 0;
	for (n = 0; n < depth; n++) {
		int op = vmc_enum(9, "op");
		int s = op & 1;
		switch (op) {
		case 0: case 1:
			do_alloc(s);
			break;
		case 2: case 3:
			do_dup(s, 0);
			break;
		case 4: case 5:
			diag_freemsg(sl[s].real);
			sl[s].real = NULL;
			sl[s].n = 0;
			break;
		case 6: /* strip the first byte of the first message of slot 0, as L3 does */
			if (!sl[0].n || !sl[0].m[0].len) {
				vmc_prune();
			}
			sl[0].real->data++;
			sl[0].real->len--;
			sl[0].m[0].len--;
			memmove(sl[0].m[0].d, sl[0].m[0].d + 1, 7);
			break;
		case 7: /* modify slot 0: a copy must not change */
			if (!sl[0].n || !sl[0].m[0].len) {
				vmc_prune();
			}
			sl[0].real->data[0] ^= 0x5a;
			sl[0].m[0].d[0] ^= 0x5a;
			break;
		case 8:
			do_dup(0, 1);
			break;
		}
		cmp("after op");
		vmc_state(canon());
	}
	vmc_outcome("%d/%d messages", sl[0].n, sl[1].n);
	env_alloc_hook = NULL;
	diag_freemsg(sl[0].real);
	diag_freemsg(sl[1].real);
	diag_freemsg(NULL);
	if (env_live()) {
		env_alloc_dump();
	}
	VMC_CHECK(env_live() == 0, "leak", "%ld blocks still allocated after everything was freed", env_live());
}

static void sizes(int p) {
	env_reset();
	env_alloc_mark();
	diag_geterr();
	int len = vmc_enum(DIAG_MAX_MSGLEN + 4, "len");
	struct diag_msg *r = diag_allocmsg((size_t)len);
	if (len > DIAG_MAX_MSGLEN) {
		VMC_CHECK(r == NULL, "toolong", "a message of %d bytes was allocated", len);
		VMC_CHECK(diag_geterr() == DIAG_ERR_BADLEN, "toolong-err", "no length error latched");
		vmc_outcome("refused");
	} else {
		VMC_CHECK(r != NULL && r->len == (unsigned)len && r->next == NULL, "alloc", "allocation of %d bytes failed", len);
		for (int i = 0; i < len; i++) {
			VMC_CHECK(r->data[i] == 0, "alloc-dirty", "byte %d not zero", i);
			r->data[i] = (uint8_t)(i * 7 + 1);
		}
		struct diag_msg *c = diag_dupmsg(r);
		VMC_CHECK(c && c->len == (unsigned)len && (len == 0 || !memcmp(c->data, r->data, (size_t)len)), "dup", "copy of %d bytes differs", len);
		diag_freemsg(r);
		for (int i = 0; i < len; i++) {
			VMC_CHECK(c->data[i] == (uint8_t)(i * 7 + 1), "dup-alias", "copy shares storage");
		}
		diag_freemsg(c);
		vmc_outcome("allocated");
	}
	VMC_CHECK(env_live() == 0, "leak", "%ld blocks leaked", env_live());
}

/* additive checksum: all 1 and 2 byte strings, and runs of every length */
static void cks(int p) {
	uint8_t b[300];
	int a = vmc_enum(256, "b0");
	for (int c = 0; c < 256; c++) {
		b[0] = (uint8_t)a;
		b[1] = (uint8_t)c;
		VMC_CHECK(diag_cks1(b, 2) == (uint8_t)(a + c), "cks", "checksum of %02x %02x", a, c);
		VMC_CHECK(diag_cks1(b, 1) == (uint8_t)a, "cks", "checksum of %02x", a);
	}
	VMC_CHECK(diag_cks1(b, 0) == 0, "cks", "checksum of nothing");
	for (unsigned n = 0; n <= 300; n++) {
		memset(b, a, sizeof(b));
		VMC_CHECK(diag_cks1(b, n) == (uint8_t)(n * (unsigned)a), "cks", "checksum of %u x %02x", n, a);
	}
	vmc_outcome("%d", a & 3);
}

static const int errs[] = {-1, -2, -3, -4, -5, -6, -7, -8, -16, -17, -18, -19, -20, -21, -22, -32, -40, -41, -43, -44};
static void latch(int depth) {
	int model = 0;
	diag_geterr();
	for (int i = 0; i < depth; i++) {
		int op = vmc_enum(6, "op");
		int e = i % 2 ? DIAG_ERR_BADLEN : DIAG_ERR_TIMEOUT;
		switch (op) {
		case 0: {
			int r = diag_geterr();
			VMC_CHECK(r == model, "latch", "latched error is %d, expected %d", r, model);
			model = 0;
			break;
		}
		case 1:
			VMC_CHECK(diag_iseterr(e) == e, "iseterr", "iseterr changed the code");
			model = model ? model : e;
			break;
		case 2:
			VMC_CHECK(diag_pseterr(e) == NULL, "pseterr", "pseterr is not NULL");
			model = model ? model : e;
			break;
		case 3:
			VMC_CHECK(diag_ifwderr(e) == e, "ifwderr", "forwarding changed the code");
			break;
		case 4:
			VMC_CHECK(diag_pfwderr(e) == NULL, "pfwderr", "pfwderr is not NULL");
			break;
		case 5:
			VMC_CHECK(diag_iseterr(DIAG_ERR_NOMEM) == DIAG_ERR_NOMEM, "iseterr", "iseterr changed the code");
			model = model ? model : DIAG_ERR_NOMEM;
			break;
		}
		vmc_state((uint64_t)(model + 100));
	}
	int r = diag_geterr();
	VMC_CHECK(r == model, "latch", "latched error is %d, expected %d", r, model);
	VMC_CHECK(diag_geterr() == 0, "latch-clear", "reading the error did not clear it");
	vmc_outcome("%d", r);
}

static void lookup(int p) {
	int c = -vmc_enum(80, "code");
	char a[200];
	snprintf(a, sizeof(a), "%s", diag_errlookup(c));
	bool known = false;
	for (unsigned i = 0; i < ARRAY_SIZE(errs); i++) {
		known |= errs[i] == c;
	}
	VMC_CHECK(a[0], "lookup", "empty text for %d", c);
	VMC_CHECK(known == (strncmp(a, "Illegal", 7) != 0), "lookup", "code %d: text '%s'", c, a);
	if (known) {
		for (unsigned i = 0; i < ARRAY_SIZE(errs); i++) {
			VMC_CHECK(errs[i] == c || strcmp(diag_errlookup(errs[i]), a), "lookup-unique", "codes %d and %d share a text", c, errs[i]);
		}
	}
	vmc_outcome("%s", known ? "known" : "unknown");
}

static void allocs(int p) {
	static const size_t v[] = {0, 1, 3, 16, SIZE_MAX / 2, SIZE_MAX / 3, SIZE_MAX, SIZE_MAX - 1, (size_t)1 << 32, ((size_t)1 << 32) + 1};
	env_reset();
	env_alloc_mark();
	size_t n = v[vmc_enum(10, "n")], s = v[vmc_enum(10, "s")];
	bool cal = vmc_enum(2, "calloc");
	void *ptr = (void *)1;
	diag_geterr();
	unsigned __int128 t = (unsigned __int128)n * s;
	if (t > ((unsigned)1 << 30) && t <= SIZE_MAX) {
		vmc_prune();    /* legal but absurd: left to the real allocator */
	}
	int rv = diag_fl_alloc("x", 1, &ptr, n, s, cal);
	if (t == 0 || t > SIZE_MAX) {
		VMC_CHECK(rv == DIAG_ERR_BADVAL && ptr == NULL, "alloc-ovf", "alloc(%zu,%zu) -> %d %p", n, s, rv, ptr);
	} else {
		VMC_CHECK(rv == 0 && ptr != NULL, "alloc", "alloc(%zu,%zu) -> %d", n, s, rv);
		for (size_t i = 0; i < n * s; i++) {
			VMC_CHECK(!cal || ((char *)ptr)[i] == 0, "calloc", "not zeroed");
			((char *)ptr)[i] = 1;
		}
		free(ptr);
	}
	VMC_CHECK(env_live() == 0, "leak", "leak");
	vmc_outcome("%d", rv);
}

static void strlists(int p) {
	env_reset();
	env_alloc_mark();
	env_alloc_hook = alloc_choice;
	static const char *const w[] = {"", "a", "long string with blanks"};
	char **list = NULL;
	int n = 0;
	int want[5];
	for (int i = 0; i < 4; i++) {
		int k = vmc_enum(3, "word");
		char **l2 = strlist_add(list, w[k], n);
		if (!l2) {
			VMC_CHECK(env_alloc_failed, "strlist", "refused without memory shortage");
			continue;
		}
		list = l2;
		want[n++] = k;
		for (int j = 0; j < n; j++) {
			VMC_CHECK(!strcmp(list[j], w[want[j]]), "strlist", "element %d is '%s'", j, list[j]);
		}
	}
	strlist_free(list, n);
	VMC_CHECK(env_live() == 0, "leak", "leak in string list");
	vmc_outcome("%d", n);
}

const struct vmc_scenario vmc_scenarios[] = {
	{"ops4", ops, 4, 0, 0, VMC_INPROC, 4},
	{"ops4_allocfail", ops, 4, 2, 3, VMC_INPROC, 4},
	{"ops5", ops, 5, 0, 0, VMC_INPROC, 8},
	{"ops6", ops, 6, 0, 0, VMC_INPROC | VMC_THOROUGH_ONLY, 9},
	{"ops5_allocfail", ops, 5, 1, 2, VMC_INPROC | VMC_THOROUGH_ONLY, 9},
	{"sizes", sizes, 0, 0, 0, VMC_INPROC, 1},
	{"cks", cks, 0, 0, 0, VMC_INPROC, 1},
	{"latch", latch, 5, 0, 0, VMC_INPROC, 1},
	{"lookup", lookup, 0, 0, 0, VMC_INPROC, 1},
	{"allocs", allocs, 0, 0, 0, VMC_INPROC, 1},
	{"strlists", strlists, 0, 2, 4, VMC_INPROC, 1},
	{0}
};
