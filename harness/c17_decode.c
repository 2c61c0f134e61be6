/* C17: messages to text.  Buffers and messages have their exact size (ASan sees every byte beyond).
 * oracle: own tables of services, response codes and DTC letters; hex digits of the message. */
#include "l2h.h"
#include "diag_vag.h"
#include <ctype.h>

void vmc_process_init(void) { diag_init(); }
extern const struct diag_l3_proto diag_l3_j1979, diag_l3_iso14230, diag_l3_vag;
char *diag_l3_iso14230_decode_response(struct diag_msg *, char *, const size_t);

enum { J1979, ISO14230, VAG, RESP };
static char full[16384];

static void decode1(int what, const uint8_t *d, unsigned len, uint8_t type, char *buf, size_t bs) {
	struct diag_l3_conn c;
	struct diag_msg m = l2h_msg(d, len);
	m.type = type;
	memset(&c, 0, sizeof(c));
	switch (what) {
	case J1979: c.d_l3_proto = &diag_l3_j1979; break;
	case ISO14230: c.d_l3_proto = &diag_l3_iso14230; break;
	case VAG: c.d_l3_proto = &diag_l3_vag; break;
	default:
		diag_l3_iso14230_decode_response(&m, buf, bs);
		return;
	}
	diag_l3_decode(&c, &m, buf, bs);
}
/* decode with exact-size copies; checks termination and truncation; leaves the whole text in `full' */
static void decode(int what, const uint8_t *d, unsigned len, uint8_t type) {
	static const size_t sizes[] = {8192, 0, 1, 2, 3, 8, 15, 16, 17, 18, 24, 40, 41, 80, 200, 256};
	uint8_t *e = malloc(len ? len : 1);
	uint8_t *ex = len ? e : e + 1;  /* nothing may be read */
	memcpy(e, d, len);
	for (unsigned i = 0; i < sizeof(sizes) / sizeof(*sizes); i++) {
		size_t bs = sizes[i];
		char *b = malloc(bs ? bs : 1);
		memset(b, '#', bs ? bs : 1);
		decode1(what, ex, len, type, bs ? b : b + 1, bs);
		if (bs) {
			VMC_CHECK(memchr(b, 0, bs) != NULL, "unterminated", "decoder %d, message of %u bytes (%02X), buffer of %zu: the text is not terminated", what, len, len ? d[0] : 0, bs);
		}
		if (i == 0) {
			strcpy(full, b);
			for (char *p = full; *p; p++) {
				VMC_CHECK((isprint((unsigned char)*p) || *p == '\n') && *p != '#', "garbage", "decoder %d, message %02X of %u bytes: text contains garbage", what, len ? d[0] : 0, len);
			}
		} else if (bs) {
			VMC_CHECK(!strncmp(full, b, strlen(b)), "truncated", "decoder %d, message %02X of %u bytes, buffer of %zu: '%s' instead of the beginning of '%s'", what, len ? d[0] : 0, len, bs, b, full);
			VMC_CHECK(strlen(full) >= bs || !strcmp(full, b), "cut", "decoder %d, message %02X of %u bytes: text of %zu characters cut although it fits in %zu", what, len ? d[0] : 0, len, strlen(full), bs);
		}
		free(b);
	}
	free(e);
	vmc_state(vmc_hash(full, strlen(full), (uint64_t)what));
}
/* the values 0x.. in the text */
static int tokens(const char *s, unsigned *v, int max) {
	int n = 0;
	for (const char *p = s; (p = strstr(p, "0x")) != NULL && n < max; p += 2) {
		if (isxdigit((unsigned char)p[2])) {
			v[n++] = (unsigned)strtoul(p + 2, NULL, 16);
		}
	}
	return n;
}

static unsigned fill(uint8_t *d, unsigned len, int pat) {
	for (unsigned i = 1; i < len; i++) {
		d[i] = pat == 0 ? 0 : pat == 1 ? (uint8_t)(0x41 + 7 * i) : pat == 2 ? 0xFF : (uint8_t)(0x80 >> (i & 7));
	}
	return len;
}
static const unsigned lens[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 12, 50, 100, 255, 1000};

static void check_j1979(const uint8_t *d, unsigned len) {
	if (len == 0) {
		return;
	}
	unsigned v[2048];
	VMC_CHECK(strstr(full, d[0] & 0x40 ? "response" : "request"), "direction", "J1979 %02X: '%s'", d[0], full);
	unsigned s = d[0] & 0xBF;
	static const uint8_t need[] = {0, 2, 3, 1, 1, 3, 2, 1, 2, 2};
	int n = tokens(full, v, 2048);
	if ((d[0] & 0x80) == 0 && s >= 1 && s <= 9 && len >= need[s] && d[0] != 0x7F) {
		if (d[0] == 0x43 || d[0] == 0x47) {
			/* trouble codes */
			const char *p = strstr(full, "DTCs:");
			VMC_CHECK(p, "dtcs", "J1979 %02X: '%s'", d[0], full);
			p += 5;
			for (unsigned i = 1; i + 1 < len && i < 7; i += 2) {
				if (d[i] == 0 && d[i + 1] == 0) {
					continue;
				}
				char w[8];
				snprintf(w, sizeof(w), "%c%02X%02X", "PCBU"[d[i] >> 6], d[i] & 0x3F, d[i + 1]);
				while (*p == ' ') {
					p++;
				}
				VMC_CHECK(!strncmp(p, w, 5) && !isalnum((unsigned char)p[5]), "dtc", "code %02X %02X decoded as '%s', should be %s", d[i], d[i + 1], p, w);
				p += 5;
			}
			while (*p == ' ') {
				p++;
			}
			VMC_CHECK(*p == 0, "dtcextra", "J1979 %02X: '%s' shows more codes than there are", d[0], full);
			return;
		}
		bool allbytes = (d[0] & 0x40) && d[0] != 0x44;
		unsigned want = d[0] == 0x44 || s == 3 || s == 4 || d[0] == 7 ? 0 : allbytes ? len - 1 : need[s] - 1u;
		VMC_CHECK(n >= (int)want, "missing", "J1979 %02X of %u bytes: only %d of %u values in '%s'", d[0], len, n, want, full);
		for (unsigned i = 0; i < want; i++) {
			VMC_CHECK(v[i] == d[1 + i], "value", "J1979 %02X: byte %u is %02X, text '%s'", d[0], i + 1, d[1 + i], full);
		}
		VMC_CHECK(n == (int)want, "extra", "J1979 %02X of %u bytes: %d values in '%s'", d[0], len, n, full);
		return;
	}
	/* unknown or incomplete: a dump */
	if (n >= (int)len) {
		for (unsigned i = 0; i < len; i++) {
			VMC_CHECK(v[n - (int)len + (int)i] == d[i], "dump", "J1979 %02X: dump '%s'", d[0], full);
		}
	}
	VMC_CHECK(n <= (int)len + 1, "extra", "J1979 %02X of %u bytes: %d values in '%s'", d[0], len, n, full);
}

static void j1979(int p) {
	(void)p;
	uint8_t d[1024];
	env_reset();
	d[0] = (uint8_t)vmc_enum(256, "service");
	for (int l = 0; l < 14; l++) {
		for (int pat = 0; pat < 4; pat++) {
			unsigned len = fill(d, lens[l], pat);
			decode(J1979, d, len, 0);
			check_j1979(d, len);
		}
	}
}
/* every second byte and every third of a few, for the known services */
static void j1979b(int p) {
	(void)p;
	static const uint8_t third[] = {0, 1, 0x41, 0xFF};
	uint8_t d[3];
	env_reset();
	int s = vmc_enum(18, "service");
	d[0] = (uint8_t)(s < 9 ? 1 + s : 0x41 + s - 9);
	d[1] = (uint8_t)vmc_enum(256, "second byte");
	for (int i = 0; i < 4; i++) {
		d[2] = third[i];
		for (unsigned len = 1; len <= 3; len++) {
			decode(J1979, d, len, 0);
			check_j1979(d, len);
		}
	}
}
/* every trouble code, in every position */
static void dtcs(int p) {
	(void)p;
	env_reset();
	int hi = vmc_enum(256, "first byte");
	for (int lo = 0; lo < 256; lo++) {
		uint8_t d[7] = {lo & 1 ? 0x43 : 0x47, 0, 0, 0x41, 0x41, 0xC1, 0x02};
		int pos = 1 + 2 * (lo % 3);
		d[pos] = (uint8_t)hi;
		d[pos + 1] = (uint8_t)lo;
		char b[300];
		decode1(J1979, d, 7, 0, b, sizeof(b));
		strcpy(full, b);
		check_j1979(d, 7);
	}
}

static const struct { uint8_t id; const char *s; } sid[] = {
	{0x10, "startDiagnosticSession"}, {0x11, "ecuReset"}, {0x12, "readFreezeFrameData"}, {0x13, "readDiagnosticTroubleCodes"},
	{0x14, "clearDiagnosticInformation"}, {0x17, "readStatusOfDiagnosticTroubleCodes"}, {0x18, "readDiagnosticTroubleCodesByStatus"},
	{0x1A, "readEcuId"}, {0x20, "stopDiagnosticSession"}, {0x21, "readDataByLocalId"}, {0x22, "readDataByCommonId"},
	{0x23, "readMemoryByAddress"}, {0x25, "stopRepeatedDataTransmission"}, {0x26, "setDataRates"}, {0x27, "securityAccess"},
	{0x2C, "dynamicallyDefineLocalId"}, {0x2E, "writeDataByCommonId"}, {0x2F, "inputOutputControlByCommonId"},
	{0x30, "inputOutputControlByLocalId"}, {0x31, "startRoutineByLocalI"}, {0x32, "stopRoutineByLocalI"}, {0x33, "requestRoutineResultsByLocalId"},
	{0x34, "requestDownload"}, {0x35, "requestUpload"}, {0x36, "transfer"}, {0x37, "exit"}, {0x38, "startRoutineByAddress"},
	{0x39, "stopRoutineByAddress"}, {0x3A, "requestRoutineResultsByAddress"}, {0x3B, "writeDataByLocalId"}, {0x3D, "writeMemoryByAddress"},
	{0x3E, "testerPresent"}, {0x80, "EscCode"}, {0x81, "startCommunication"}, {0x82, "stopCommunication"}, {0x83, "accessTimingParameters"},
};
static const struct { uint8_t id; const char *s; } nrc[] = {
	{0x10, "generalReject"}, {0x11, "serviceNotSupported"}, {0x12, "subFunctionNotSupported"}, {0x21, "busy-"}, {0x22, "conditionsNot"},
	{0x23, "routineNotComplete"}, {0x31, "requestOutOfRange"}, {0x33, "securityAccess"}, {0x35, "invalidKey"}, {0x36, "NumberOfAttempts"},
	{0x37, "requiredTimeDelayNotExpired"}, {0x40, "downloadNotAccepted"}, {0x41, "improperDownloadType"}, {0x42, "NotDownloadToSpecifiedAddress"},
	{0x43, "NotDownloadNumberOfBytes"}, {0x50, "uploadNotAccepted"}, {0x51, "improperUploadType"}, {0x52, "NotUploadFromSpecifiedAddress"},
	{0x53, "NotUploadNumberOfBytes"}, {0x71, "transferSuspended"}, {0x72, "transferAborted"}, {0x74, "illegalAddress"}, {0x75, "illegalByteCount"},
	{0x76, "illegalBlockTra"}, {0x77, "ChecksumError"}, {0x78, "RspPending"}, {0x79, "incorrectByteCount"}, {0x80, "ActiveDiagnostic"},
};
static const char *sidname(unsigned id) {
	for (unsigned i = 0; i < sizeof(sid) / sizeof(*sid); i++) {
		if (sid[i].id == id) {
			return sid[i].s;
		}
	}
	return NULL;
}
static void check_resp(const uint8_t *d, unsigned len) {
	if (len == 0) {
		return;
	}
	unsigned v[16];
	int n = tokens(full, v, 16);
	if (d[0] == 0x7F) {
		VMC_CHECK(strstr(full, "rror"), "negative", "negative response decoded as '%s'", full);
		if (len < 3) {
			return;
		}
		const char *s = sidname(d[1]), *r = NULL;
		for (unsigned i = 0; i < sizeof(nrc) / sizeof(*nrc); i++) {
			if (nrc[i].id == d[2]) {
				r = nrc[i].s;
			}
		}
		VMC_CHECK(s ? strstr(full, s) != NULL : strstr(full, "nknown") != NULL, "service", "negative response to service %02X decoded as '%s'", d[1], full);
		if (r) {
			VMC_CHECK(strstr(full, r), "code", "response code %02X decoded as '%s'", d[2], full);
		} else {
			VMC_CHECK(n == 1 && v[0] == d[2] && strstr(full, "nknown"), "code", "unknown response code %02X decoded as '%s'", d[2], full);
		}
		/* no other code may be named */
		for (unsigned i = 0; i < sizeof(nrc) / sizeof(*nrc); i++) {
			const char *e = strstr(full, "Error_Unknown");
			VMC_CHECK(!(r && e), "code", "response code %02X decoded as '%s'", d[2], full);
		}
	} else if (d[0] >= 0xC1 && d[0] <= 0xC3) {
		VMC_CHECK(strstr(full, d[0] == 0xC1 ? "StartComm" : d[0] == 0xC2 ? "StopComm" : "AccessTiming") && strstr(full, "OK"), "positive", "response %02X decoded as '%s'", d[0], full);
	} else if (d[0] & 0x40) {
		const char *s = sidname(d[0] & ~0x40u);
		VMC_CHECK(strstr(full, "ositive") && (s ? strstr(full, s) != NULL : strstr(full, "nknown") != NULL), "positive", "response %02X decoded as '%s'", d[0], full);
		if ((d[0] == 0x5A || d[0] == 0x61) && len >= 2) {
			VMC_CHECK(n == 1 && v[0] == d[1], "localid", "response %02X %02X decoded as '%s'", d[0], d[1], full);
		}
	} else {
		VMC_CHECK(strstr(full, "nknown") && n == 1 && v[0] == d[0], "unknown", "message %02X decoded as '%s'", d[0], full);
	}
}
static void iso14230(int p) {
	(void)p;
	uint8_t d[1024];
	env_reset();
	d[0] = (uint8_t)vmc_enum(256, "service");
	for (int l = 0; l < 14; l++) {
		for (int pat = 0; pat < 4; pat++) {
			unsigned len = fill(d, lens[l], pat);
			decode(RESP, d, len, 0);
			check_resp(d, len);
			decode(ISO14230, d, len, 0);
			VMC_CHECK(len == 0 || strstr(full, d[0] & 0x40 ? "response" : "request"), "direction", "ISO14230 %02X: '%s'", d[0], full);
		}
	}
}
static void negative(int p) {
	(void)p;
	env_reset();
	uint8_t d[3] = {0x7F, (uint8_t)vmc_enum(256, "service"), 0};
	for (int c = 0; c < 256; c++) {
		d[2] = (uint8_t)c;
		char b[400];
		memset(b, '#', sizeof(b));
		decode1(RESP, d, 3, 0, b, sizeof(b));
		VMC_CHECK(memchr(b, 0, sizeof(b)), "unterminated", "not terminated");
		strcpy(full, b);
		check_resp(d, 3);
		vmc_state(vmc_hash(full, strlen(full), 0));
	}
	decode(RESP, d, 3, 0);
}
static void vag(int p) {
	(void)p;
	static const struct { uint8_t t; const char *s; } nm[] = {
		{5, "Clear DTC"}, {6, "End Comms"}, {7, "Request DTC"}, {8, "Read Data"}, {0xF6, "ASCII"}, {0xFC, "Hex"},
	};
	uint8_t d[1024], type = (uint8_t)vmc_enum(256, "title");
	env_reset();
	const char *s = NULL;
	for (unsigned i = 0; i < sizeof(nm) / sizeof(*nm); i++) {
		if (nm[i].t == type) {
			s = nm[i].s;
		}
	}
	for (int l = 0; l < 14; l++) {
		for (int pat = 0; pat < 4; pat++) {
			d[0] = (uint8_t)(pat == 0 ? 0 : pat == 1 ? 7 : 0xFE);
			unsigned len = fill(d, lens[l], pat), v[2048];
			decode(VAG, d, len, type);
			int n = tokens(full, v, 2048), o = 0;
			if (s) {
				VMC_CHECK(strstr(full, s), "title", "block title %02X decoded as '%s'", type, full);
			} else {
				VMC_CHECK(n > 0 && v[0] == type, "title", "block title %02X decoded as '%s'", type, full);
				o = 1;
			}
			VMC_CHECK(n - o == (int)len, "count", "block of %u data bytes: %d values in '%s'", len, n - o, full);
			for (unsigned i = 0; i < len; i++) {
				VMC_CHECK(v[o + (int)i] == d[i], "value", "data byte %u of %u is %02X: '%s'", i, len, d[i], full);
			}
		}
	}
}
/* the text building primitive */
static void cat(int p) {
	(void)p;
	env_reset();
	size_t size = (size_t)vmc_enum(9, "size"), a = (size_t)vmc_enum(9, "have"), b = (size_t)vmc_enum(12, "append");
	if (a + 1 > size && size) {
		vmc_prune();
	}
	char *d = malloc(size ? size : 1), src[16], want[32];
	memset(src, 'b', sizeof(src));
	src[b] = 0;
	if (size) {
		memset(d, '#', size);
		memset(d, 'a', a);
		d[a] = 0;
	}
	smartcat(size ? d : d + 1, size, src);
	if (size) {
		memset(want, 'a', a);
		strcpy(want + a, src);
		want[size - 1] = 0;
		VMC_CHECK(memchr(d, 0, size) && !strcmp(d, want), "smartcat", "smartcat of %zu to %zu characters in %zu", b, a, size);
	}
	free(d);
}

const struct vmc_scenario vmc_scenarios[] = {
	{"j1979", j1979, 0, 0, 0, 0, 8},
	{"j1979b", j1979b, 0, 0, 0, 0, 8},
	{"dtcs", dtcs, 0, 0, 0, 0, 4},
	{"iso14230", iso14230, 0, 0, 0, 0, 8},
	{"negative", negative, 0, 0, 0, 0, 4},
	{"vag", vag, 0, 0, 0, 0, 8},
	{"cat", cat, 0, 0, 0, 0, 1},
	{0}
};
