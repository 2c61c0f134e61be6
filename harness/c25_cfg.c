/* C25: configuration items against a reference model.
 * oracle: the value is the last one accepted; anything refused changes nothing;
 * reset gives the default; refresh lists the ports there are, makes the first the default
 * and keeps the current one. */
#include "vmc.h"
#include "env.h"
#include "diag.h"
#include "diag_err.h"
#include "diag_cfg.h"
#include "diag_tty.h"
#include <dirent.h>
#include <errno.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

void vmc_process_init(void) { diag_init(); }

/* ---- the ports of this machine ---- */
static bool active;
static const char *dev[24], *usb[8];
static int ndev, nusb, pos[2], opendirs, openfds, dirfail;
static struct dirent de;
static int fakedir[2];
DIR *__real_opendir(const char *);
struct dirent *__real_readdir(DIR *);
int __real_closedir(DIR *);
int __real_isatty(int);
DIR *__wrap_opendir(const char *p) {
	if (!active) {
		return __real_opendir(p);
	}
	int k = !strcmp(p, "/dev/") || !strcmp(p, "/dev") ? 0 : !strcmp(p, "/dev/usb") || !strcmp(p, "/dev/usb/") ? 1 : 2;
	if (k == 2 || (k == 1 && nusb < 0) || (dirfail & (1 << k))) {
		errno = ENOENT;
		return NULL;
	}
	pos[k] = 0;
	opendirs++;
	return (DIR *)&fakedir[k];
}
struct dirent *__wrap_readdir(DIR *d) {
	if (d != (DIR *)&fakedir[0] && d != (DIR *)&fakedir[1]) {
		return __real_readdir(d);
	}
	int k = d == (DIR *)&fakedir[1];
	const char *n = k ? (pos[1] < nusb ? usb[pos[1]] : NULL) : (pos[0] < ndev ? dev[pos[0]] : NULL);
	if (!n) {
		return NULL;
	}
	pos[k]++;
	memset(&de, 0, sizeof(de));
	strncpy(de.d_name, n, sizeof(de.d_name) - 1);
	return &de;
}
int __wrap_closedir(DIR *d) {
	if (d != (DIR *)&fakedir[0] && d != (DIR *)&fakedir[1]) {
		return __real_closedir(d);
	}
	opendirs--;
	return 0;
}
/* names with a trailing 'n' are no terminals, with 'x' cannot be opened; and only these paths exist */
static bool exists(const char *p) {
	const char *b = strrchr(p, '/');
	size_t l = strlen(p);
	if (!b || l < 2 || p[l - 1] == 'x') {
		return false;
	}
	size_t dl = (size_t)(b - p);
	for (int i = 0; i < ndev; i++) {
		if (!strcmp(dev[i], b + 1) && dl == 4 && !strncmp(p, "/dev", 4)) {
			return true;
		}
	}
	for (int i = 0; i < nusb; i++) {
		if (!strcmp(usb[i], b + 1) && dl == 8 && !strncmp(p, "/dev/usb", 8)) {
			return true;
		}
	}
	return false;
}
static int h_open(const char *p, int flags, int mode) {
	if (!exists(p)) {
		errno = ENOENT;
		return -1;
	}
	openfds++;
	return p[strlen(p) - 1] == 'n' ? 901 : 900;
}
static int h_close(int fd) {
	openfds--;
	return 0;
}
int __wrap_isatty(int fd) {
	return fd == 900 ? 1 : fd == 901 ? 0 : __real_isatty(fd);
}
static int npresent;
static char present[24][64];
static void setports(int k) {
	static const char *const sets[6][5] = {{0}, {"ttyS0", 0}, {"null", "ttyUSB0", "ttyS1", "console", 0}, {"ttyS0n", "ttyUSB1", "ttyACM7", "ttyS3x", "ttyS2"}, {"ttyS0n", 0}, {"ttyUSB10", "tty", "tty0", "ttyS", 0}};
	static const char *const us[3][3] = {{0}, {"ttyUSB0", "lp0", "ttyUSB1"}, {"ttyS0", "ttyUSB9n", "ttyUSB4"}};
	ndev = npresent = 0;
	int a = k % 6, b = k / 6;
	for (int i = 0; i < 5 && sets[a][i]; i++) {
		const char *n = sets[a][i];
		dev[ndev++] = n;
		char l = n[strlen(n) - 1];
		if ((!strncmp(n, "ttyS", 4) || !strncmp(n, "ttyUSB", 6) || !strncmp(n, "ttyACM", 6)) && l != 'n' && l != 'x') {
			snprintf(present[npresent++], 64, "/dev/%s", n);
		}
	}
	nusb = b ? 0 : -1;
	for (int i = 0; b && b < 3 && i < 3 && us[b][i]; i++) {
		const char *n = us[b][i];
		usb[nusb++] = n;
		char l = n[strlen(n) - 1];
		if (!strncmp(n, "ttyUSB", 6) && l != 'n' && l != 'x') {
			snprintf(present[npresent++], 64, "/dev/usb/%s", n);
		}
	}
}

/* ---- allocation failures ---- */
static int af;
static int failalloc(size_t n) {
	if (vmc_dev(2, "allocation fails")) {
		af++;
		return 1;
	}
	return 0;
}

enum kind { K_STR, K_STROPT, K_TTY, K_INT, K_INTOPT, K_U8, K_BOOL, NK };
static struct cfgi *it;
static enum kind kind;
static int type;
static char mval[400], mdef[400];      /* model: strings */
static int mi, mdi;                     /* model: numbers */
static const char *const optn[] = {"first", "second one", ""};
static char longs[300];
static const char *const strs[] = {"", "a", "/dev/ttyS9", longs, "%s%n", "abc"};

static void check(const char *after) {
	VMC_CHECK(it->type == type, "type", "type changed to %d", it->type);
	switch (type) {
	case CFGT_STR:
		VMC_CHECK(it->val.str && !strcmp(it->val.str, mval), "value", "after %s: value \"%s\", expected \"%s\"", after, it->val.str ? it->val.str : "(null)", mval);
		VMC_CHECK(it->dval.str && !strcmp(it->dval.str, mdef), "default", "after %s: default \"%s\", expected \"%s\"", after, it->dval.str ? it->dval.str : "(null)", mdef);
		break;
	case CFGT_INT:
		VMC_CHECK(it->val.i == mi && it->dval.i == mdi, "value", "after %s: value %d default %d, expected %d %d", after, it->val.i, it->dval.i, mi, mdi);
		break;
	case CFGT_U8:
		VMC_CHECK(it->val.u8 == mi && it->dval.u8 == mdi, "value", "after %s: value %d default %d, expected %d %d", after, it->val.u8, it->dval.u8, mi, mdi);
		break;
	case CFGT_BOOL: {
		uint8_t raw;
		memcpy(&raw, &it->val.b, 1);
		VMC_CHECK(raw == mi && it->dval.b == (bool)mdi, "value", "after %s: value %d, expected %d", after, raw, mi);
		break;
	}
	}
}

static void readback(void) {
	af = 0;
	char *s = diag_cfg_getstr(it);
	if (!s) {
		VMC_CHECK(af, "getstr", "no text for the value");
		return;
	}
	switch (type) {
	case CFGT_STR:
		VMC_CHECK(!strcmp(s, mval), "text", "text \"%s\", expected \"%s\"", s, mval);
		break;
	case CFGT_BOOL: case CFGT_INT: case CFGT_U8: {
		char *e;
		long v = strtol(s, &e, type == CFGT_U8 ? 16 : 0);
		VMC_CHECK(*s && !*e && v == mi && (type != CFGT_U8 || !strncmp(s, "0x", 2)), "text", "value %d is shown as \"%s\"", mi, s);
		break;
	}
	}
	free(s);
}

static bool create(void) {
	af = 0;
	env_alloc_hook = NULL;
	it = calloc(1, sizeof(*it));
	env_alloc_hook = failalloc;
	int rv = -1;
	switch (kind) {
	case K_STR: case K_STROPT: {
		static const char *const defs[] = {"abc", "", longs};
		const char *d = defs[vmc_enum(3, "default")];
		rv = diag_cfgn_str(it, d, "description", "short");
		strcpy(mval, d);
		strcpy(mdef, d);
		break;
	}
	case K_TTY:
		rv = diag_cfgn_tty(it);
		if (rv == 0) {
			snprintf(mval, sizeof(mval), "%s", it->val.str);
			snprintf(mdef, sizeof(mdef), "%s", it->dval.str);
			VMC_CHECK(!strcmp(mval, mdef) && mval[0] == '/', "ttydef", "a new port item is %s, default %s", mval, mdef);
		}
		break;
	case K_INT: case K_INTOPT:
		mi = (int[]){0, -1, 2147483647}[vmc_enum(3, "value")];
		mdi = (int[]){5, -2147483647 - 1}[vmc_enum(2, "default")];
		rv = diag_cfgn_int(it, mi, mdi);
		break;
	case K_U8:
		mi = (int[]){0, 255}[vmc_enum(2, "value")];
		mdi = (int[]){2, 0x80, 1, 0xFF}[vmc_enum(4, "default")];
		rv = diag_cfgn_u8(it, (uint8_t)mi, (uint8_t)mdi);
		break;
	case K_BOOL:
		mi = vmc_enum(2, "value");
		mdi = vmc_enum(2, "default");
		rv = diag_cfgn_bool(it, mi, mdi);
		break;
	default: break;
	}
	if (rv) {
		VMC_CHECK(af && rv < 0, "create", "creating an item failed: %d", rv);
		diag_cfg_clear(it);     /* harmless */
		free(it);
		it = NULL;
		return false;
	}
	type = kind == K_BOOL ? CFGT_BOOL : kind == K_U8 ? CFGT_U8 : kind == K_INT || kind == K_INTOPT ? CFGT_INT : CFGT_STR;
	if (kind == K_STROPT || kind == K_INTOPT) {
		it->opt = (char **)optn;
		it->numopts = 3;
		it->dyn_opt = 0;
	}
	check("creation");
	return true;
}

static int nopts(void) { return it->numopts; }

/* one operation */
static void op(void) {
	int rv = 0;
	af = 0;
	diag_geterr();
	switch (vmc_enum(type == CFGT_STR ? 9 : 8, "operation")) {
	case 0:
		readback();
		return;
	case 1:
		diag_cfg_reset(it);
		if (type == CFGT_STR) {
			if (!af || strcmp(it->val.str ? it->val.str : "", mval)) {
				strcpy(mval, mdef);
			}
		} else {
			mi = mdi;
		}
		check("reset");
		return;
	case 2: { /* refresh */
		int first = kind == K_TTY ? vmc_enum(18, "ports") : 0;
		if (kind == K_TTY) {
			setports(first);
		}
		active = true;
		diag_cfg_refresh(it);
		active = false;
		VMC_CHECK(opendirs == 0 && openfds == 0, "handles", "refresh left %d directories and %d files open", opendirs, openfds);
		if (kind == K_TTY) {
			if (af) {
				/* either as before or complete */
				VMC_CHECK(it->dval.str != NULL, "default", "no default left after a failed refresh");
				if (!npresent || strcmp(it->dval.str, present[0])) {
					VMC_CHECK(!strcmp(it->dval.str, mdef), "default", "default %s after a failed refresh", it->dval.str);
				} else {
					strcpy(mdef, present[0]);
				}
				VMC_CHECK(it->numopts == 0 || it->opt, "options", "%d options without a list", it->numopts);
				for (int i = 0; i < it->numopts; i++) {
					VMC_CHECK(it->opt[i] && it->opt[i][0] == '/', "options", "option %d is no port", i);
				}
			} else {
				VMC_CHECK(it->numopts == npresent, "ports", "%d ports listed, %d present", it->numopts, npresent);
				for (int i = 0; i < npresent; i++) {
					VMC_CHECK(!strcmp(it->opt[i], present[i]), "ports", "port %d is listed as %s, expected %s", i, it->opt[i], present[i]);
				}
				if (npresent) {
					strcpy(mdef, present[0]);
				}
			}
		}
		check("refresh");
		return;
	}
	case 3: { /* option */
		int n = nopts();
		static const int ids[] = {-2147483647 - 1, -1, 0, 1, 2, 3, 2147483647};
		int id = ids[vmc_enum(7, "option")];
		char want[400] = "";
		bool ok = id >= 0 && id < n;
		if (ok && type == CFGT_STR) {
			strcpy(want, it->opt[id]);
		}
		rv = diag_cfg_setopt(it, id);
		VMC_CHECK((rv == 0) == ok || (rv < 0 && af), "setopt", "option %d of %d: result %d", id, n, rv);
		if (rv == 0 && type == CFGT_STR) {
			strcpy(mval, want);
		} else if (rv == 0 && type == CFGT_INT) {
			mi = id;
		}
		check("setopt");
		return;
	}
	case 4: {
		bool b = vmc_enum(2, "bool");
		rv = diag_cfg_setbool(it, b);
		VMC_CHECK((rv == 0) == (type == CFGT_BOOL), "accept", "setbool on type %d: %d", type, rv);
		if (rv == 0) {
			mi = b;
		}
		check("setbool");
		break;
	}
	case 5: {
		uint8_t v = type == CFGT_U8 ? (uint8_t[]){0, 1, 2, 0x0F, 0x7F, 0x80, 0xFF}[vmc_enum(7, "u8")] : 3;
		rv = diag_cfg_setu8(it, v);
		VMC_CHECK((rv == 0) == (type == CFGT_U8), "accept", "setu8 on type %d: %d", type, rv);
		if (rv == 0) {
			mi = v;
		}
		check("setu8");
		break;
	}
	case 6: {
		int v = type == CFGT_INT ? (int[]){0, 1, -1, 9999999, 10000000, -999999, -1000000, -9999999, 2147483647, -2147483647 - 1}[vmc_enum(10, "int")] : 3;
		rv = diag_cfg_setint(it, v);
		VMC_CHECK((rv == 0) == (type == CFGT_INT), "accept", "setint on type %d: %d", type, rv);
		if (rv == 0) {
			mi = v;
		}
		check("setint");
		break;
	}
	case 7: { /* text */
		char want[400];
		int k = type == CFGT_STR ? vmc_enum(6, "text") : 1;
		strcpy(want, strs[k]);
		/* the caller's string does not outlive the call */
		env_alloc_hook = NULL;
		char *tmp = malloc(strlen(want) + 1);
		env_alloc_hook = failalloc;
		strcpy(tmp, want);
		rv = diag_cfg_setstr(it, tmp);
		memset(tmp, '#', strlen(want));
		free(tmp);
		VMC_CHECK((rv == 0) == (type == CFGT_STR) || (rv < 0 && af), "accept", "setstr on type %d: %d", type, rv);
		if (rv == 0) {
			strcpy(mval, want);
		}
		check("setstr");
		break;
	}
	case 8: { /* its own strings */
		char want[400];
		int k = vmc_enum(3, "own string");
		const char *s = k == 0 ? it->val.str : k == 1 ? it->dval.str : it->val.str + strlen(it->val.str) / 2;
		strcpy(want, s);
		rv = diag_cfg_setstr(it, s);
		VMC_CHECK(rv == 0 || (rv < 0 && af), "accept", "setstr with an own string: %d", rv);
		if (rv == 0) {
			strcpy(mval, want);
		}
		check("setstr(own)");
		break;
	}
	}
	if (rv < 0) {
		VMC_CHECK(diag_geterr() < 0, "latch", "a refused value latched no error");
	}
}

static void seq(int k) {
	env_reset();
	memset(longs, 'L', sizeof(longs) - 1);
	active = false;
	opendirs = openfds = 0;
	ndev = 0;
	nusb = -1;
	npresent = 0;
	env_sys.open = h_open;
	env_sys.close = h_close;
	env_alloc_mark();
	kind = (enum kind)k;
	env_alloc_hook = failalloc;
	if (create()) {
		int n = vmc_thorough() ? 4 : 3;
		if (kind == K_TTY) {
			n--;
		}
		for (int i = 0; i < n; i++) {
			op();
		}
		env_alloc_hook = NULL;
		readback();
		diag_cfg_clear(it);
		VMC_CHECK(type != CFGT_STR || (it->val.str == NULL && it->dval.str == NULL && it->numopts == 0), "clear", "clear left something");
		diag_cfg_clear(it);
		free(it);
	}
	env_alloc_hook = NULL;
	env_sys.open = NULL;
	env_sys.close = NULL;
	if (env_live()) {
		env_alloc_dump();
	}
	VMC_CHECK(env_live() == 0, "leak", "%ld blocks still allocated", env_live());
}

/* every number reads back */
static void numbers(int p) {
	env_reset();
	env_alloc_mark();
	it = calloc(1, sizeof(*it));
	if (p) {
		int v = vmc_enum(256, "u8"), d = vmc_enum(256, "default");
		diag_cfgn_u8(it, 7, (uint8_t)d);
		type = CFGT_U8;
		mdi = d;
		VMC_CHECK(diag_cfg_setu8(it, (uint8_t)v) == 0, "accept", "setu8");
		mi = v;
		check("setu8");
		readback();
		diag_cfg_reset(it);
		mi = mdi;
		check("reset");
		readback();
	} else {
		int s = vmc_enum(2, "sign"), b = vmc_enum(32, "bit"), m = vmc_enum(3, "offset"), dec = vmc_enum(2, "decimal");
		long v = 1L << b;
		if (dec) {
			v = 1;
			for (int i = 0; i < b && v < 10000000000L; i++) {
				v *= 10;
			}
		}
		v += m - 1;
		v = s ? -v : v;
		if (v > 2147483647L || v < -2147483648L) {
			v = 0;
		}
		diag_cfgn_int(it, 1, (int)v);
		type = CFGT_INT;
		mi = 1;
		mdi = (int)v;
		diag_cfg_reset(it);
		mi = mdi;
		check("reset");
		VMC_CHECK(diag_cfg_setint(it, -(int)(v / 2)) == 0, "accept", "setint");
		mi = -(int)(v / 2);
		check("setint");
		readback();
		diag_cfg_reset(it);
		mi = mdi;
		readback();
	}
	free(it);
	VMC_CHECK(env_live() == 0, "leak", "%ld blocks still allocated", env_live());
}

const struct vmc_scenario vmc_scenarios[] = {
	{"str", seq, K_STR, 1, 2, 0, 32},
	{"str.options", seq, K_STROPT, 1, 2, 0, 32},
	{"port", seq, K_TTY, 1, 2, 0, 32},
	{"int", seq, K_INT, 1, 1, 0, 16},
	{"int.options", seq, K_INTOPT, 1, 1, 0, 16},
	{"u8", seq, K_U8, 1, 1, 0, 16},
	{"bool", seq, K_BOOL, 1, 1, 0, 16},
	{"numbers.int", numbers, 0, 0, 0, 0, 4},
	{"numbers.u8", numbers, 1, 0, 0, 0, 16},
	{0},
};
