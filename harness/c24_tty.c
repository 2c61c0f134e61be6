/* C24: the serial port layer against a model of the kernel's tty driver.
 * oracle: the model's own record of what arrived, what was transmitted, and of
 * every setting before and after. */
#include "vmc.h"
#include "env.h"
#include "diag.h"
#include "diag_err.h"
#include "diag_tty.h"
#include "diag_tty_unix.h"
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

void vmc_process_init(void) { diag_init(); }

#ifndef TIOCM_OUT1
#define TIOCM_OUT1 0x2000
#endif
#define PORT "/dev/ttyVMC"
static struct {
	int open, fd, nopen;
	struct termios2 t, t0;
	struct serial_struct ss, ss0;
	int mc, mc0;
	int nonblock;
	int hasss, has2;
	int brk;
	uint64_t brk0, brk1;
	int nbrk;
	/* receive: bytes with their arrival time */
	uint8_t rx[64];
	uint64_t rt[64];
	int nrx, rpos, eof;
	uint8_t tx[256];
	int ntx, drained;
	uint64_t txbusy;        /* until then the transmitter is busy */
	int chunks;             /* explore partial transfers */
	int devs;
	int nfail, neintr, flushfail, brkfail;
	int mcfail;
	bool restoring;
} k;

static speed_t codes[] = {B0, B50, B75, B110, B134, B150, B200, B300, B600, B1200, B1800, B2400, B4800, B9600, B19200, B38400, B57600, B115200};
static unsigned spds[] = {0, 50, 75, 110, 134, 150, 200, 300, 600, 1200, 1800, 2400, 4800, 9600, 19200, 38400, 57600, 115200};
static void fixspeed(void) {
	if ((k.t.c_cflag & CBAUD) == BOTHER) {
		return;
	}
	k.t.c_ispeed = k.t.c_ospeed = 230400;
	for (unsigned i = 0; i < sizeof(spds) / sizeof(spds[0]); i++) {
		if ((k.t.c_cflag & CBAUD) == codes[i]) {
			k.t.c_ispeed = k.t.c_ospeed = spds[i];
		}
	}
}
static void isport(int fd, const char *w) {
	VMC_CHECK(k.open && fd == k.fd, "closedport", "%s on fd %d, which is not the open port", w, fd);
}
/* 1: fails with errno set */
static int trouble(const char *what) {
	if (k.devs && vmc_dev(2, what)) {
		k.nfail++;
		vmc_log("%s fails", what);
		errno = EIO;
		return 1;
	}
	return 0;
}
static int s_open(const char *p, int flags, int mode) {
	if (strcmp(p, PORT)) {
		errno = ENOENT;
		return -1;
	}
	VMC_CHECK(!k.open, "reopen", "opened twice");
	if (trouble("open")) {
		return -1;
	}
	VMC_CHECK((flags & O_ACCMODE) == O_RDWR, "mode", "not opened for reading and writing");
	k.open = 1;
	k.nopen++;
	k.nonblock = !!(flags & O_NONBLOCK);
	return k.fd;
}
static int s_close(int fd) {
	isport(fd, "close");
	k.open = 0;
	return 0;
}
int __wrap_fcntl(int fd, int cmd, ...) {
	va_list ap;
	va_start(ap, cmd);
	long a = va_arg(ap, long);
	va_end(ap);
	isport(fd, "fcntl");
	if (trouble("fcntl")) {
		return -1;
	}
	if (cmd == F_GETFL) {
		return O_RDWR | (k.nonblock ? O_NONBLOCK : 0);
	}
	if (cmd == F_SETFL) {
		k.nonblock = !!(a & O_NONBLOCK);
	}
	return 0;
}
static int s_ioctl(int fd, unsigned long req, void *arg) {
	isport(fd, "ioctl");
	switch (req) {
	case TCGETS:
		if (trouble("TCGETS")) {
			return -1;
		}
		memcpy(arg, &k.t, sizeof(struct termios));
		return 0;
	case TCGETS2:
		if (trouble("TCGETS2")) {
			return -1;
		}
		memcpy(arg, &k.t, sizeof(k.t));
		return 0;
	case TCSETS:
	case TCSETSW:
	case TCSETSF:
		if (trouble("TCSETS")) {
			return -1;
		}
		memcpy(&k.t, arg, sizeof(struct termios));
		fixspeed();
		return 0;
	case TCSETS2:
	case TCSETSW2:
	case TCSETSF2:
		if (!k.has2 && memcmp(arg, &k.t0, sizeof(k.t0))) {
			errno = EINVAL;
			return -1;
		}
		if (trouble("TCSETS2")) {
			return -1;
		}
		memcpy(&k.t, arg, sizeof(k.t));
		fixspeed();
		return 0;
	case TIOCGSERIAL:
		if (!k.hasss) {
			errno = ENOTTY;
			return -1;
		}
		*(struct serial_struct *)arg = k.ss;
		return 0;
	case TIOCSSERIAL:
		if (!k.hasss) {
			errno = ENOTTY;
			return -1;
		}
		if (trouble("TIOCSSERIAL")) {
			return -1;
		}
		k.ss = *(struct serial_struct *)arg;
		return 0;
	case TIOCMGET:
		if (trouble("TIOCMGET")) {
			return -1;
		}
		*(int *)arg = k.mc;
		return 0;
	case TIOCMSET:
		if (trouble("TIOCMSET")) {
			return -1;
		}
		k.mc = *(int *)arg & (TIOCM_DTR | TIOCM_RTS | TIOCM_OUT1);
		k.mc |= k.mc0 & (TIOCM_CTS | TIOCM_CAR);
		return 0;
	case TIOCMBIS:
	case TIOCMBIC:
		if (trouble("TIOCMBI")) {
			return -1;
		}
		if (req == TIOCMBIS) {
			k.mc |= *(int *)arg;
		} else {
			k.mc &= ~*(int *)arg;
		}
		return 0;
	case TCSBRK:
		VMC_CHECK(arg, "sbrk", "TCSBRK of 0 sends a break");
		if (k.txbusy > env_now) {
			env_advance_us(k.txbusy - env_now);
		}
		return 0;
	case TIOCSBRK:
		if (trouble("TIOCSBRK")) {
			return -1;
		}
		VMC_CHECK(env_now >= k.txbusy, "brkbusy", "break while sending");
		VMC_CHECK(!k.brk, "brktwice", "break twice");
		k.brk = 1;
		k.brk0 = env_now;
		return 0;
	case TIOCCBRK:
		if (trouble("TIOCCBRK")) {
			return -1;
		}
		k.brk = 0;
		k.brk1 = env_now;
		k.nbrk++;
		return 0;
	case TCFLSH:
		if (trouble("TCFLSH")) {
			k.nfail--;
			return -1;
		}
		while (k.rpos < k.nrx && k.rt[k.rpos] <= env_now) {
			k.rpos++;
		}
		return 0;
	}
	errno = EINVAL;
	return -1;
}
static int avail(void) {
	int n = 0;
	while (k.rpos + n < k.nrx && k.rt[k.rpos + n] <= env_now) {
		n++;
	}
	return n;
}
static int s_select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *tv) {
	VMC_CHECK(tv, "noselecttimeout", "select without timeout");
	VMC_CHECK(r && n == k.fd + 1 && FD_ISSET(k.fd, r), "selectfd", "select on something else");
	isport(k.fd, "select");
	VMC_CHECK(tv->tv_sec >= 0 && tv->tv_usec >= 0 && tv->tv_usec < 1000000, "timeval", "select with an invalid time");
	uint64_t end = env_now + (uint64_t)tv->tv_sec * 1000000 + (uint64_t)tv->tv_usec;
	if (k.devs) {
		switch (vmc_dev(4, "select")) {
		case 1:
			k.neintr++;
			if (end > env_now + 3000) {
				env_advance_us(3000);
			}
			errno = EINTR;
			return -1;
		case 2:
			/* the sets are not touched */
			k.nfail++;
			errno = ENOMEM;
			return -1;
		case 3:
			/* a little early */
			if (!avail() && end > env_now + 2000) {
				uint64_t t = end - 1500;
				if (!(k.rpos < k.nrx && k.rt[k.rpos] <= t)) {
					env_advance_us(t - env_now);
					FD_ZERO(r);
					return 0;
				}
			}
			break;
		}
	}
	FD_ZERO(r);
	if (avail() || k.eof) {
		FD_SET(k.fd, r);
		return 1;
	}
	if (k.rpos < k.nrx && k.rt[k.rpos] <= end) {
		env_advance_us(k.rt[k.rpos] - env_now);
		FD_SET(k.fd, r);
		return 1;
	}
	env_advance_us(end > env_now ? end - env_now : 0);
	return 0;
}
static ssize_t s_read(int fd, void *b, size_t n) {
	isport(fd, "read");
	vmc_tick();
	if (k.devs) {
		switch (vmc_dev(3, "read")) {
		case 1:
			k.neintr++;
			errno = EINTR;
			return -1;
		case 2:
			k.nfail++;
			errno = EIO;
			return -1;
		}
	}
	int a = avail();
	VMC_CHECK(a || k.eof || k.nonblock, "blocks", "read blocks for ever");
	if (!a) {
		if (k.eof) {
			return 0;
		}
		errno = EAGAIN;
		return -1;
	}
	if (n > (size_t)a) {
		n = (size_t)a;
	}
	if (k.chunks && n > 1) {
		n -= (size_t)vmc_enum((int)n, "short read");
	}
	memcpy(b, k.rx + k.rpos, n);
	k.rpos += (int)n;
	return (ssize_t)n;
}
static unsigned bitus(void) {
	return k.t.c_ospeed ? 10000000U / k.t.c_ospeed : 1000;
}
static ssize_t s_write(int fd, const void *b, size_t n) {
	isport(fd, "write");
	vmc_tick();
	VMC_CHECK(n > 0 && n < 256, "writelen", "write of %zu bytes", n);
	volatile uint8_t s = 0;
	for (size_t i = 0; i < n; i++) {
		s ^= ((const uint8_t *)b)[i];
	}
	if (k.devs) {
		switch (vmc_dev(4, "write")) {
		case 1:
			k.neintr++;
			env_advance_us(1000);
			errno = EINTR;
			return -1;
		case 2:
			k.nfail++;
			errno = EIO;
			return -1;
		case 3:
			/* nothing accepted, for a long time */
			k.neintr++;
			env_advance_us(6000);
			return 0;
		}
	}
	if (k.chunks && n > 1) {
		n -= (size_t)vmc_enum((int)n, "short write");
		env_advance_us(k.chunks == 2 ? 5000 : 100);
	}
	if (k.ntx + (int)n <= 256) {
		memcpy(k.tx + k.ntx, b, n);
	}
	k.ntx += (int)n;
	k.txbusy = (k.txbusy > env_now ? k.txbusy : env_now) + n * bitus();
	return (ssize_t)n;
}

static void begin(void) {
	env_reset();
	env_alloc_mark();
	memset(&k, 0, sizeof(k));
	k.fd = 50;
	k.has2 = k.hasss = 1;
	/* a terminal as the system has it after start: cooked, with flow control */
	k.t.c_iflag = ICRNL | IXON | IXOFF | BRKINT | ISTRIP | INLCR | INPCK | IUCLC | PARMRK;
	k.t.c_oflag = OPOST | ONLCR;
	k.t.c_lflag = ICANON | ISIG | ECHO | IEXTEN | ECHOE;
	k.t.c_cflag = B9600 | CS7 | PARENB | PARODD | CSTOPB | CRTSCTS | HUPCL;
	k.t.c_cc[VMIN] = 0;
	k.t.c_cc[VTIME] = 0;
	k.t.c_cc[VINTR] = 3;
	fixspeed();
	k.t0 = k.t;
	k.ss.baud_base = 115200;
	k.ss.flags = 0x10;
	k.ss.custom_divisor = 7;
	k.ss0 = k.ss;
	k.mc = k.mc0 = TIOCM_CTS | TIOCM_OUT1 | TIOCM_RTS;
	env_sys.open = s_open;
	env_sys.close = s_close;
	env_sys.ioctl = s_ioctl;
	env_sys.select = s_select;
	env_sys.read = s_read;
	env_sys.write = s_write;
	vmc_set_tick_limit(5000);
	diag_geterr();
}
static void asfound(const char *when) {
	VMC_CHECK(!k.open, "fdleak", "%s: the port is left open", when);
	VMC_CHECK(!memcmp(&k.t, &k.t0, sizeof(struct termios)), "restore", "%s: line settings: iflag %x/%x oflag %x/%x cflag %x/%x lflag %x/%x", when,
	          k.t.c_iflag, k.t0.c_iflag, k.t.c_oflag, k.t0.c_oflag, k.t.c_cflag, k.t0.c_cflag, k.t.c_lflag, k.t0.c_lflag);
	VMC_CHECK(k.t.c_ospeed == k.t0.c_ospeed && k.t.c_ispeed == k.t0.c_ispeed, "restorespeed", "%s: speed left at %u, found at %u", when, k.t.c_ospeed, k.t0.c_ospeed);
	VMC_CHECK(!memcmp(&k.ss, &k.ss0, sizeof(k.ss)), "restoreserial", "%s: serial settings not restored", when);
	VMC_CHECK(k.mc == k.mc0, "restoremodem", "%s: modem lines left at %x, found at %x", when, k.mc, k.mc0);
}
static void memclean(void) {
	if (env_live()) {
		env_alloc_dump();
	}
	VMC_CHECK(env_live() == 0, "leak", "%ld blocks still allocated", env_live());
}
static ttyp *doopen(void) {
	ttyp *t = diag_tty_open(PORT);
	if (!t) {
		VMC_CHECK(k.nfail, "open", "open failed for no reason");
		VMC_CHECK(!k.open, "openleft", "failed open leaves the port open");
		VMC_CHECK(diag_geterr() < 0, "openerr", "open failed without an error code");
		return NULL;
	}
	VMC_CHECK(!k.nonblock, "nonblock", "the port is left non blocking");
	VMC_CHECK(!(k.t.c_iflag & (unsigned)(IGNBRK * 0 | BRKINT | PARMRK | ISTRIP | INLCR | IGNCR | ICRNL | IXON | IXOFF | IUCLC | INPCK)), "raw", "input processing left on: %x", k.t.c_iflag);
	VMC_CHECK(!(k.t.c_oflag & OPOST), "raw", "output processing left on");
	VMC_CHECK(!(k.t.c_lflag & (ICANON | ISIG | ECHO | IEXTEN)), "raw", "local flags left on: %x", k.t.c_lflag);
	VMC_CHECK((k.t.c_cflag & CLOCAL) && (k.t.c_cflag & CREAD) && !(k.t.c_cflag & CRTSCTS), "raw", "control flags %x", k.t.c_cflag);
	return t;
}

/* open, set up, drive the lines, close: with any failure of any call */
static void xlife(int mode) {
	begin();
	k.hasss = vmc_enum(2, "serial_struct");
	k.fd = vmc_enum(2, "fd 0") ? 0 : 50;
	static const int mcs[] = {0, TIOCM_DTR | TIOCM_OUT1, TIOCM_CTS | TIOCM_RTS, TIOCM_DTR | TIOCM_RTS};
	k.mc = k.mc0 = mcs[vmc_enum(4, "modem lines")];
	k.t.c_cflag = (k.t.c_cflag & ~(unsigned)CBAUD) | (vmc_enum(2, "speed found") ? BOTHER : B19200);
	k.t.c_ispeed = k.t.c_ospeed = 12345;
	fixspeed();
	k.t0 = k.t;
	int no2 = mode == 1 ? vmc_enum(3, "no BOTHER") : 0;
	if (no2) {
		k.ss.baud_base = k.ss0.baud_base = no2 == 1 ? 115200 : 0;
	}
	k.devs = mode == 0;
	ttyp *t = doopen();
	if (!t) {
		if (k.nfail == 1) {
			asfound("after a failed open");
		}
		memclean();
		return;
	}
	if (no2) {
		k.has2 = 0;
	}
	VMC_CHECK(k.mc == k.mc0, "openmodem", "opening changed the modem lines");
	struct diag_serial_settings s = {10400, diag_databits_8, diag_stopbits_1, diag_par_n};
	int f = k.nfail;
	int rv = diag_tty_setup(t, &s);
	VMC_CHECK(rv == 0 || k.nfail != f || no2, "setup", "setup failed");
	if (no2) {
		VMC_CHECK(rv != 0 || k.t.c_ospeed == 10400, "setupspeed", "setup succeeded, the speed is %u", k.t.c_ospeed);
	} else if (rv == 0) {
		VMC_CHECK(k.t.c_ospeed == 10400 && k.t.c_ispeed == 10400, "setupspeed", "setup succeeded, the speed is %u", k.t.c_ospeed);
		VMC_CHECK((k.t.c_cflag & CSIZE) == CS8 && !(k.t.c_cflag & (CSTOPB | PARENB)), "setupfmt", "setup succeeded, cflag %x", k.t.c_cflag);
	}
	int nl = vmc_enum(3, "control");
	int before = k.mc;
	for (int i = 0; i < nl; i++) {
		int c = vmc_enum(4, "lines");
		f = k.nfail;
		rv = diag_tty_control(t, (unsigned)c & 1, (unsigned)c >> 1);
		if (rv == 0) {
			VMC_CHECK(k.nfail == f, "control", "failure of the control lines not reported");
			VMC_CHECK(!(k.mc & TIOCM_DTR) == !(c & 1) && !(k.mc & TIOCM_RTS) == !(c & 2), "lines", "DTR %d RTS %d wanted, the lines are %x", c & 1, c >> 1, k.mc);
			VMC_CHECK((k.mc & ~(TIOCM_DTR | TIOCM_RTS)) == (before & ~(TIOCM_DTR | TIOCM_RTS)), "lines", "other lines changed: %x, before %x", k.mc, before);
		} else {
			VMC_CHECK(k.nfail != f, "control", "setting the control lines failed");
		}
	}
	f = k.nfail;
	diag_tty_close(t);
	if (k.nfail == f) {
		asfound("after closing");
	} else {
		VMC_CHECK(!k.open, "fdleak", "the port is left open");
	}
	memclean();
}
static void xsetup(int mode) {
	begin();
	ttyp *t = doopen();
	VMC_CHECK(t, "open", "open failed");
	static const unsigned sp[] = {5, 300, 360, 1200, 4800, 9600, 9615, 10400, 15000, 19200, 38400, 57600, 115200, 500000};
	static const int db[] = {diag_databits_5, diag_databits_6, diag_databits_7, diag_databits_8, 4, 9, 0};
	static const unsigned cs[] = {CS5, CS6, CS7, CS8};
	static const int sb[] = {diag_stopbits_1, diag_stopbits_2, 0, 3};
	static const int pa[] = {diag_par_n, diag_par_e, diag_par_o, 77};
	int n = vmc_thorough() ? 3 : 2;
	for (int i = 0; i < n; i++) {
		/* the last is any of them */
		int last = i == n - 1;
		int a = last ? vmc_enum(14, "speed") : vmc_enum(2, "speed") * 7, b = last ? vmc_enum(7, "bits") : vmc_enum(2, "bits") * 3, c = last ? vmc_enum(4, "stop") : vmc_enum(2, "stop"), d = last ? vmc_enum(4, "parity") : vmc_enum(3, "parity");
		struct diag_serial_settings s = {sp[a], (enum diag_databits)db[b], (enum diag_stopbits)sb[c], (enum diag_parity)pa[d]};
		struct termios2 old = k.t;
		int rv = diag_tty_setup(t, &s);
		if (b > 3 || c > 1 || d > 2) {
			VMC_CHECK(rv < 0, "badsetting", "impossible setting accepted");
			VMC_CHECK(!memcmp(&old, &k.t, sizeof(old)), "badsetting", "impossible setting changed the port");
			continue;
		}
		VMC_CHECK(rv == 0, "setup", "setup failed");
		VMC_CHECK(k.t.c_ospeed == sp[a] && k.t.c_ispeed == sp[a], "setupspeed", "speed %u wanted, %u set", sp[a], k.t.c_ospeed);
		VMC_CHECK((k.t.c_cflag & CSIZE) == cs[b], "databits", "%d data bits, cflag %x", db[b], k.t.c_cflag);
		VMC_CHECK(!(k.t.c_cflag & CSTOPB) == (c == 0), "stopbits", "stop bits, cflag %x", k.t.c_cflag);
		VMC_CHECK(!(k.t.c_cflag & PARENB) == (d == 0) && (d == 0 || !(k.t.c_cflag & PARODD) == (d == 1)), "parity", "parity, cflag %x", k.t.c_cflag);
		VMC_CHECK(!(k.t.c_lflag & ICANON) && !(k.t.c_oflag & OPOST) && !(k.t.c_iflag & (ICRNL | IXON)) && !(k.t.c_cflag & CRTSCTS), "raw", "setup made the port cooked");
	}
	diag_tty_close(t);
	asfound("after closing");
	memclean();
}
static ttyp *ready(void) {
	ttyp *t = doopen();
	VMC_CHECK(t, "open", "open failed");
	struct diag_serial_settings s = {10400, diag_databits_8, diag_stopbits_1, diag_par_n};
	VMC_CHECK(diag_tty_setup(t, &s) == 0, "setup", "setup failed");
	return t;
}
static void xread(int mode) {
	begin();
	ttyp *t = ready();
	int n = mode == 1 ? 3 : vmc_thorough() ? 5 : 4;
	static const unsigned gaps[] = {0, 1000, 49999, 50001, 200000};
	uint64_t at = env_now;
	for (int i = 0; i < n; i++) {
		int g = vmc_enum(i == 0 || mode == 2 ? 5 : 4, "gap");
		at += gaps[g];
		k.rt[i] = at;
		k.rx[i] = (uint8_t)(0x30 + i);
	}
	k.nrx = n;
	k.chunks = mode == 2;
	k.devs = mode == 1;
	k.eof = 0;
	uint8_t got[64];
	int ngot = 0;
	static const unsigned tmo[] = {50, 1, 0, 9999, 500};
	static const int cnt[] = {1, 2, 3, 40};
	for (int i = 0; i < (mode == 1 ? 2 : 3); i++) {
		uint8_t b[41];
		memset(b, 0xEE, sizeof(b));
		int c = cnt[vmc_enum(4, "count")];
		unsigned to = tmo[vmc_enum(mode == 1 ? 2 : i ? 3 : 5, "timeout")];
		int f = k.nfail, r0 = k.rpos;
		uint64_t t0 = env_now;
		ssize_t rv = diag_tty_read(t, b, (size_t)c, to);
		uint64_t el = env_now - t0;
		VMC_CHECK(rv <= c, "toomany", "%zd bytes from a read of %d", rv, c);
		for (int j = rv > 0 ? (int)rv : 0; j < 41; j++) {
			VMC_CHECK(rv < 0 ? j < c || b[j] == 0xEE : b[j] == 0xEE, "overrun", "buffer changed at %d, result %zd", j, rv);
		}
		VMC_CHECK(el <= to * 1000ULL + 5000, "late", "read with timeout %u ms took %u us", to, (unsigned)el);
		if (k.nfail != f) {
			VMC_CHECK(rv < 0 || (rv > 0 && rv == k.rpos - r0), "error", "read returned %zd after an error", rv);
			if (rv < 0) {
				VMC_CHECK(rv != DIAG_ERR_TIMEOUT, "errkind", "an error is reported as timeout");
				/* what was read before is lost */
				ngot = k.rpos;
				memcpy(got, k.rx, (size_t)ngot);
				continue;
			}
		} else {
			VMC_CHECK(rv > 0 || rv == DIAG_ERR_TIMEOUT, "readerr", "read failed (%zd) with %d interruptions and no error", rv, k.neintr);
			VMC_CHECK(rv == c || el >= to * 1000ULL, "early", "read of %d with timeout %u ms returned %zd after %u us", c, to, rv, (unsigned)el);
			VMC_CHECK(rv == c || avail() == 0 || k.rt[k.rpos] + 1000 + 2000ULL * (unsigned)k.neintr >= t0 + to * 1000ULL, "missed", "bytes available were not read");
		}
		if (rv > 0) {
			memcpy(got + ngot, b, (size_t)rv);
			ngot += (int)rv;
		}
		VMC_CHECK(ngot == k.rpos && !memcmp(got, k.rx, (size_t)ngot), "data", "%d bytes delivered, the port gave %d", ngot, k.rpos);
	}
	k.devs = 0;
	diag_tty_close(t);
	asfound("after closing");
	memclean();
}
static void xeof(int mode) {
	begin();
	ttyp *t = ready();
	k.nrx = vmc_enum(3, "bytes");
	for (int i = 0; i < k.nrx; i++) {
		k.rx[i] = (uint8_t)i;
		k.rt[i] = env_now;
	}
	k.eof = 1;
	uint8_t b[8];
	ssize_t rv = diag_tty_read(t, b, 8, 100);
	VMC_CHECK(rv == k.nrx || (rv < 0), "eof", "read returned %zd at the end of input", rv);
	VMC_CHECK(diag_tty_read(t, b, 8, 100) < 0, "eof", "read succeeded after the end of input");
	k.eof = 0;
	diag_tty_close(t);
	asfound("after closing");
	memclean();
}
static void xwrite(int mode) {
	begin();
	ttyp *t = ready();
	static const unsigned sp[] = {10400, 5, 115200};
	unsigned bps = sp[vmc_enum(3, "speed")];
	struct diag_serial_settings s = {bps, diag_databits_8, diag_stopbits_1, diag_par_n};
	VMC_CHECK(diag_tty_setup(t, &s) == 0, "setup", "setup failed");
	k.chunks = mode == 2 ? 1 + vmc_enum(2, "slow") : 0;
	k.devs = mode == 1;
	uint8_t m[200], all[600];
	int total = 0;
	static const int len[] = {1, 2, 5, 200};
	for (int i = 0; i < 2; i++) {
		int n = len[vmc_enum(k.chunks ? 3 : 4, "length")];
		for (int j = 0; j < n; j++) {
			m[j] = (uint8_t)(j * 7 + i + 1);
		}
		int f = k.nfail, tx0 = k.ntx;
		uint64_t t0 = env_now;
		ssize_t rv = diag_tty_write(t, m, (size_t)n);
		int sent = k.ntx - tx0;
		if (n <= 200) {
			memcpy(all + total, m, (size_t)(sent <= n ? sent : n));
		}
		VMC_CHECK(sent <= n, "twice", "%d bytes sent of %d", sent, n);
		total += sent;
		VMC_CHECK(k.ntx <= 256 ? !memcmp(k.tx, all, (size_t)(k.ntx > 256 ? 256 : k.ntx)) : 1, "data", "other data sent");
		unsigned limit = (unsigned)n * (10000000U / bps) + 10000;
		VMC_CHECK(env_now - t0 <= limit + (unsigned)n * (10000000U / bps) + 20000, "late", "write of %d bytes at %u bps took %u us", n, bps, (unsigned)(env_now - t0));
		if (rv == n) {
			VMC_CHECK(sent == n, "lost", "%zd bytes reported sent, %d were", rv, sent);
			VMC_CHECK(env_now >= k.txbusy, "drain", "write returned before the data was sent");
		} else {
			VMC_CHECK(rv < 0 || rv == sent, "count", "%zd bytes reported sent, %d were", rv, sent);
			VMC_CHECK(k.nfail != f || env_now - t0 + 5000 >= limit, "gaveup", "write of %d gave up (%zd) after %u us", n, rv, (unsigned)(env_now - t0));
		}
		VMC_CHECK(k.nfail == f || rv < 0, "unreported", "failed write returned %zd", rv);
	}
	k.devs = 0;
	diag_tty_close(t);
	asfound("after closing");
	memclean();
}
static void xbreak(int mode) {
	begin();
	ttyp *t = ready();
	static const unsigned ms[] = {1, 25, 198, 1782};
	unsigned m = ms[vmc_enum(4, "duration")];
	if (vmc_enum(2, "sending")) {
		k.txbusy = env_now + 20000;
	}
	k.devs = 1;
	uint64_t t0 = env_now;
	int rv = diag_tty_break(t, m);
	k.devs = 0;
	if (rv == 0) {
		VMC_CHECK(!k.nfail, "unreported", "failed break not reported");
		VMC_CHECK(k.nbrk == 1 && !k.brk, "break", "%d breaks", k.nbrk);
		VMC_CHECK(k.brk1 - k.brk0 + 500 >= m * 1000ULL && k.brk1 - k.brk0 <= m * 1000ULL + 1000, "duration", "break of %u ms lasted %u us", m, (unsigned)(k.brk1 - k.brk0));
		VMC_CHECK(k.brk0 - t0 <= 21000, "start", "break started late");
	} else {
		VMC_CHECK(k.nfail, "break", "break failed: %d", rv);
	}
	if (k.brk) {
		VMC_CHECK(k.nfail, "brkleft", "break left on");
	}
	diag_tty_close(t);
	asfound("after closing");
	memclean();
}
static ssize_t w_echo(int fd, const void *b, size_t n) {
	ssize_t r = s_write(fd, b, n);
	if (r > 0 && k.t.c_ospeed) {
		for (ssize_t i = 0; i < r && k.nrx < 64; i++) {
			k.rx[k.nrx] = ((const uint8_t *)b)[i];
			k.rt[k.nrx++] = env_now + 10000000U / k.t.c_ospeed;
		}
		k.brk0 = env_now;
		k.brk = (int)k.t.c_ospeed;
	}
	return r;
}
static void xfastbreak(int mode) {
	begin();
	ttyp *t = ready();
	static const unsigned ms[] = {25, 40, 50, 100, 24, 0};
	unsigned m = ms[vmc_enum(6, "duration")];
	int noecho = vmc_enum(2, "no echo");
	env_sys.write = noecho ? s_write : w_echo;
	k.devs = 1;
	uint64_t t0 = env_now;
	int rv = diag_tty_fastbreak(t, m);
	k.devs = 0;
	if (rv == 0) {
		VMC_CHECK(!k.nfail, "unreported", "failed break not reported");
		VMC_CHECK(m >= 25 && !noecho, "short", "fast break of %u ms, echo %d", m, !noecho);
		VMC_CHECK(k.ntx == 1 && k.tx[0] == 0 && k.brk == 360, "break", "%d bytes at %d bps", k.ntx, k.brk);
		uint64_t el = env_now - k.brk0;
		VMC_CHECK(el + 1000 + 7000ULL * (unsigned)k.neintr >= m * 1000ULL && el <= (m < 29 ? 29 : m) * 1000ULL + 1000 + 7000ULL * (unsigned)k.neintr, "duration", "wake up pattern of %u ms took %u us", m, (unsigned)el);
	} else {
		VMC_CHECK(k.nfail || m < 25 || noecho, "break", "fast break failed: %d", rv);
	}
	if (k.nfail == 0) {
		VMC_CHECK(k.t.c_ospeed == 10400, "speedleft", "port left at %u bps", k.t.c_ospeed);
	}
	diag_tty_close(t);
	asfound("after closing");
	memclean();
}
static void xflush(int mode) {
	begin();
	ttyp *t = ready();
	static const unsigned gaps[] = {0, 10000, 29000, 31000, 100000};
	int n = 3;
	uint64_t t0 = env_now;
	for (int i = 0; i < n; i++) {
		k.rt[i] = (i ? k.rt[i - 1] : t0) + gaps[vmc_enum(5, "gap")];
		k.rx[i] = (uint8_t)(i + 1);
	}
	k.nrx = n;
	k.devs = 1;
	int rv = diag_tty_iflush(t);
	k.devs = 0;
	(void)rv;
	if (!k.nfail) {
		VMC_CHECK(rv == 0, "iflush", "flush failed: %d", rv);
		VMC_CHECK(env_now - t0 <= 40000, "late", "flush took %u us", (unsigned)(env_now - t0));
		/* all that was there is gone, nothing later */
		for (int i = 0; i < n; i++) {
			VMC_CHECK(k.rt[i] > t0 || i < k.rpos, "stale", "byte %d survived the flush", i);
			VMC_CHECK(k.rt[i] <= t0 + 35000 || i >= k.rpos, "ate", "a byte %u us later was flushed", (unsigned)(k.rt[i] - t0));
		}
	}
	diag_tty_close(t);
	asfound("after closing");
	memclean();
}
static void xmem(int mode) {
	begin();
	env_alloc_fail_at = vmc_enum(5, "allocation");
	ttyp *t = diag_tty_open(PORT);
	bool f = env_alloc_failed > 0;
	env_alloc_fail_at = 0;
	VMC_CHECK(!t == f, "open", "open %s, allocation %s", t ? "succeeded" : "failed", f ? "failed" : "fine");
	diag_tty_close(t);
	VMC_CHECK(!k.open, "fdleak", "port left open");
	memclean();
	/* no such port */
	VMC_CHECK(diag_tty_open("/dev/ttyNONE") == NULL, "noport", "a port that does not exist was opened");
	diag_tty_close(NULL);
	memclean();
}

const struct vmc_scenario vmc_scenarios[] = {
	{"life", xlife, 0, 1, 2, 0, 8},
	{"life.nobother", xlife, 1, 0, 0, 0, 1},
	{"setup", xsetup, 0, 0, 0, 0, 8},
	{"read", xread, 0, 0, 0, 0, 16},
	{"read.fail", xread, 1, 2, 3, 0, 16},
	{"read.short", xread, 2, 0, 0, 0, 16},
	{"eof", xeof, 0, 0, 0, 0, 1},
	{"write", xwrite, 0, 0, 0, 0, 1},
	{"write.fail", xwrite, 1, 2, 4, 0, 8},
	{"write.short", xwrite, 2, 0, 0, 0, 4},
	{"break", xbreak, 0, 1, 2, 0, 1},
	{"fastbreak", xfastbreak, 0, 1, 2, 0, 2},
	{"flush", xflush, 0, 2, 3, 0, 4},
	{"mem", xmem, 0, 0, 0, 0, 1},
	{0},
};
