/* C27: diag_dtc_decode over all codes, lengths, protocols and buffer sizes.
 * oracle: SAE J2012 (letter from the top two bits, four hex digits). */
#include "l2h.h"
#include "diag_dtc.h"

void vmc_process_init(void) { diag_init(); }

static char *run(const uint8_t *d, unsigned have, int len, int proto, size_t bs, char *out) {
	uint8_t *e = malloc(have ? have : 1);
	memcpy(e, d, have);
	char *b = malloc(bs ? bs : 1);
	memset(b, '#', bs ? bs : 1);
	char *a = bs ? b : b + 1;
	char *r = diag_dtc_decode(have ? e : e + 1, len, NULL, NULL, (enum diag_dtc_protocol)proto, a, bs);
	VMC_CHECK(r == a, "ret", "the returned pointer is not the buffer");
	if (bs) {
		VMC_CHECK(memchr(b, 0, bs), "unterminated", "protocol %d, length %d, buffer of %zu: the text is not terminated", proto, len, bs);
		strcpy(out, b);
	} else {
		out[0] = 0;
	}
	free(b);
	free(e);
	return out;
}
static void codes(int p) {
	(void)p;
	env_reset();
	int hi = vmc_enum(256, "first byte");
	for (int lo = 0; lo < 256; lo++) {
		uint8_t d[2] = {(uint8_t)hi, (uint8_t)lo};
		char w[8], o[64];
		snprintf(w, sizeof(w), "%c%X%X%02X", "PCBU"[hi / 64], hi / 16 % 4, hi % 16, lo);
		for (size_t bs = 0; bs <= 10; bs += bs == 7 ? 3 : 1) {
			run(d, 2, 2, dtc_proto_j2012, bs, o);
			char x[8];
			strcpy(x, w);
			if (bs && bs < 6) {
				x[bs - 1] = 0;
			}
			VMC_CHECK(bs == 0 || (!strncmp(o, x, strlen(x)) && (strlen(o) == strlen(x) || !strcmp(o + strlen(x), " "))), "code", "%02X %02X in %zu characters: '%s', should be '%s'", hi, lo, bs, o, x);
		}
		vmc_state(vmc_hash(w, 5, 0));
	}
}
static void others(int p) {
	(void)p;
	env_reset();
	int proto = vmc_enum(14, "protocol") - 2;
	unsigned have = (unsigned)vmc_enum(6, "bytes");
	int len = vmc_enum(2, "negative") ? -1 : (int)have;
	char full[128], o[128];
	for (int v = 0; v < 256; v += 51) {
		uint8_t d[8];
		memset(d, v, sizeof(d));
		if (proto == dtc_proto_j2012 && len == 2) {
			continue;
		}
		run(d, have, len, proto, 100, full);
		/* not a code which could be mistaken for a valid one */
		VMC_CHECK(strlen(full) > 8 && !(strchr("PCBU", full[0]) && strspn(full + 1, "0123456789ABCDEF") == 4), "error", "protocol %d length %d: '%s'", proto, len, full);
		for (size_t bs = 1; bs < 60; bs++) {
			run(d, have, len, proto, bs, o);
			VMC_CHECK(!strncmp(o, full, strlen(o)) && (strlen(full) >= bs || !strcmp(o, full)), "truncated", "protocol %d length %d in %zu: '%s' of '%s'", proto, len, bs, o, full);
		}
	}
}
const struct vmc_scenario vmc_scenarios[] = {
	{"codes", codes, 0, 0, 0, 0, 4},
	{"others", others, 0, 0, 0, 0, 4},
	{0}
};
