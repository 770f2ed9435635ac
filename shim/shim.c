/*
 * LD_PRELOAD shim for model-based conformance runs of NSCA-ng.
 *
 *  - virtual time: clock_gettime(), gettimeofday(), time(), nanosleep() follow a
 *    clock in a shared file; it moves only when the controller says so;
 *  - quiescence: poll()/epoll_wait()/select() report to the controller when the
 *    process is idle (nothing ready, no timer due), which is when commands of
 *    the controller take effect;
 *  - POSIX AIO: requests are executed when (and how) the controller says so;
 *  - faults: the next call(s) of a kind fail with a given errno / are short;
 *  - events: opens, writes and closes of the command file and of temporary
 *    files, privilege calls, binds etc. are logged as JSON lines.
 *
 * Nothing here depends on how the code under test is written, only on the
 * system interface it uses.
 */
#define _GNU_SOURCE
#include <aio.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <grp.h>
#include <poll.h>
#include <pwd.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <linux/sockios.h>
#include <sys/epoll.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/un.h>
#include <time.h>
#include <unistd.h>

#undef open
#undef open64

static int active, aio_manual, aio_real, priv_fake;
static char *sock_path, *log_path, *fifo_path, *tmp_path;
static volatile int64_t *clk; /* nanoseconds */
static int ctl = -1, logfd = -1;
static char kind[4096];  /* fd -> 'f' command file, 'd' temporary file */
static char fdname[4096][64];

#define REAL(ret, name, args) \
	static ret (*real_##name) args; \
	if (!real_##name) real_##name = dlsym(RTLD_NEXT, #name)

static ssize_t raw_write(int fd, const void *b, size_t n) { return syscall(SYS_write, fd, b, n); }
static int raw_close(int fd) { return syscall(SYS_close, fd); }
static int raw_poll(struct pollfd *p, nfds_t n, int ms)
{
	struct timespec ts = { ms / 1000, (ms % 1000) * 1000000L };
	return syscall(SYS_ppoll, p, n, ms < 0 ? NULL : &ts, NULL, 8);
}

/* keep our own descriptors out of the way */
static int high(int fd)
{
	int n;
	if (fd < 0)
		return fd;
	n = fcntl(fd, F_DUPFD_CLOEXEC, 1000);
	if (n < 0)
		return fd;
	raw_close(fd);
	return n;
}

#define LBUF (9 << 20)
static __thread char *lbuf;

static void logline(const char *fmt, ...)
{
	va_list ap;
	int n, e = errno;
	if (!log_path)
		return;
	if (logfd == -1)
		logfd = high(syscall(SYS_openat, AT_FDCWD, log_path, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0666));
	if (!lbuf && !(lbuf = malloc(LBUF)))
		return;
	va_start(ap, fmt);
	n = snprintf(lbuf, LBUF, "{\"t\":%lld,\"pid\":%d,", clk ? (long long)(*clk / 1000) : 0LL, (int)getpid());
	n += vsnprintf(lbuf + n, LBUF - n - 2, fmt, ap);
	if (n > LBUF - 3)
		n = LBUF - 3;
	lbuf[n++] = '}';
	lbuf[n++] = '\n';
	va_end(ap);
	(void)raw_write(logfd, lbuf, n);
	errno = e;
}

static char *hex(const void *p, size_t n)
{
	static __thread char *b;
	static const char d[] = "0123456789abcdef";
	const unsigned char *s = p;
	size_t i;
	if (n > 4 << 20)
		n = 4 << 20;
	if (!b && !(b = malloc((8 << 20) + 1)))
		return "";
	for (i = 0; i < n; i++) {
		b[2 * i] = d[s[i] >> 4];
		b[2 * i + 1] = d[s[i] & 15];
	}
	b[2 * n] = 0;
	return b;
}

/* ---------- faults ---------- */
enum { F_OPEN_FIFO, F_WRITE_FIFO, F_MKSTEMP, F_WRITE_DUMP, F_CLOSE_DUMP, F_AIO_SUBMIT, F_FSTAT,
       F_CHROOT, F_CHDIR, F_SETGID, F_SETUID, F_INITGROUPS, F_GETPWNAM, F_BIND, F_ACCEPT, F_N };
static const char *fnames[] = { "open_fifo", "write_fifo", "mkstemp", "write_dump", "close_dump", "aio_submit", "fstat",
       "chroot", "chdir", "setgid", "setuid", "initgroups", "getpwnam", "bind", "accept" };
static struct { int err, count, skip; } fault[F_N];

static void set_fault(const char *spec) /* name:errno:count[:skip] */
{
	char nm[32];
	int e = 0, c = 1, s = 0, i;
	if (sscanf(spec, "%31[^:]:%d:%d:%d", nm, &e, &c, &s) < 2)
		return;
	for (i = 0; i < F_N; i++)
		if (!strcmp(nm, fnames[i])) {
			fault[i].err = e;
			fault[i].count = c;
			fault[i].skip = s;
		}
}
static int faulty(int i) /* returns errno (or -n for "short by keeping n") or 0 */
{
	if (fault[i].count == 0)
		return 0;
	if (fault[i].skip > 0) {
		fault[i].skip--;
		return 0;
	}
	if (fault[i].count > 0)
		fault[i].count--;
	return fault[i].err;
}

__attribute__((constructor)) static void init(void)
{
	char *p, *q, *s;
	if (active || !(sock_path = getenv("SHIM_CLOCK")))
		return;
	int fd = syscall(SYS_openat, AT_FDCWD, sock_path, O_RDWR | O_CLOEXEC, 0);
	if (fd >= 0) {
		clk = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
		if (clk == MAP_FAILED)
			clk = NULL;
		raw_close(fd);
	}
	sock_path = getenv("SHIM_SOCK");
	log_path = getenv("SHIM_LOG");
	fifo_path = getenv("SHIM_FIFO");
	tmp_path = getenv("SHIM_TMP");
	p = getenv("SHIM_AIO");
	aio_manual = p && !strcmp(p, "manual");
	aio_real = p && !strcmp(p, "real");
	priv_fake = getenv("SHIM_PRIV") != NULL;
	if ((p = getenv("SHIM_FAULTS")))
		for (q = strtok_r(p = strdup(p), ",", &s); q; q = strtok_r(NULL, ",", &s))
			set_fault(q);
	active = 1;
}

/* ---------- time ---------- */
int clock_gettime(clockid_t c, struct timespec *ts)
{
	if (clk && (c == CLOCK_REALTIME || c == CLOCK_MONOTONIC || c == CLOCK_REALTIME_COARSE ||
	    c == CLOCK_MONOTONIC_COARSE || c == CLOCK_BOOTTIME)) {
		ts->tv_sec = *clk / 1000000000;
		ts->tv_nsec = *clk % 1000000000;
		return 0;
	}
	return syscall(SYS_clock_gettime, c, ts);
}
int gettimeofday(struct timeval *restrict tv, void *restrict tz)
{
	struct timespec ts;
	(void)tz;
	clock_gettime(CLOCK_REALTIME, &ts);
	tv->tv_sec = ts.tv_sec;
	tv->tv_usec = ts.tv_nsec / 1000;
	return 0;
}
time_t time(time_t *t)
{
	struct timespec ts;
	clock_gettime(CLOCK_REALTIME, &ts);
	if (t)
		*t = ts.tv_sec;
	return ts.tv_sec;
}
int nanosleep(const struct timespec *r, struct timespec *rem)
{
	(void)rem;
	if (!clk)
		return syscall(SYS_nanosleep, r, rem);
	logline("\"e\":\"sleep\",\"ns\":%lld", (long long)r->tv_sec * 1000000000 + r->tv_nsec);
	*clk += (int64_t)r->tv_sec * 1000000000 + r->tv_nsec;
	return 0;
}
unsigned int sleep(unsigned int s)
{
	struct timespec ts = { s, 0 };
	nanosleep(&ts, NULL);
	return 0;
}
int usleep(useconds_t u)
{
	struct timespec ts = { u / 1000000, (u % 1000000) * 1000 };
	return nanosleep(&ts, NULL);
}

/* ---------- AIO ---------- */
struct req { struct aiocb *cb; int err; ssize_t ret; int done; struct req *next; };
static struct req *reqs;
static struct req *find(const struct aiocb *cb)
{
	struct req *r;
	for (r = reqs; r; r = r->next)
		if (r->cb == cb)
			return r;
	return NULL;
}
static int aio_pending(void)
{
	struct req *r;
	int n = 0;
	for (r = reqs; r; r = r->next)
		n += !r->done;
	return n;
}
static void aio_finish(struct req *r, long keep, int err)
{
	struct aiocb *cb = r->cb;
	siginfo_t si;
	ssize_t n;

	if (err) {
		r->err = err;
		r->ret = -1;
	} else {
		size_t want = keep < 0 || (size_t)keep > cb->aio_nbytes ? cb->aio_nbytes : (size_t)keep;
		n = syscall(SYS_pwrite64, cb->aio_fildes, (void *)cb->aio_buf, want, cb->aio_offset);
		r->err = n < 0 ? errno : 0;
		r->ret = n;
	}
	r->done = 1;
	logline("\"e\":\"aio_done\",\"fd\":%d,\"name\":\"%s\",\"n\":%zu,\"ret\":%zd,\"err\":%d", cb->aio_fildes,
	    cb->aio_fildes >= 0 && cb->aio_fildes < 4096 ? fdname[cb->aio_fildes] : "", (size_t)cb->aio_nbytes, r->ret, r->err);
	if (cb->aio_sigevent.sigev_notify == SIGEV_SIGNAL) {
		memset(&si, 0, sizeof si);
		si.si_signo = cb->aio_sigevent.sigev_signo;
		si.si_code = SI_ASYNCIO;
		si.si_pid = getpid();
		si.si_uid = getuid();
		si.si_value = cb->aio_sigevent.sigev_value;
		syscall(SYS_rt_tgsigqueueinfo, getpid(), syscall(SYS_gettid), si.si_signo, &si);
	} else if (cb->aio_sigevent.sigev_notify == SIGEV_THREAD)
		cb->aio_sigevent.sigev_notify_function(cb->aio_sigevent.sigev_value);
}
static void aio_complete_one(long keep, int err)
{
	struct req *r;
	for (r = reqs; r; r = r->next)
		if (!r->done) {
			aio_finish(r, keep, err);
			return;
		}
}
int aio_write(struct aiocb *cb)
{
	struct req *r;
	int e;
	REAL(int, aio_write, (struct aiocb *));
	if (!active || aio_real)
		return real_aio_write(cb);
	if ((e = faulty(F_AIO_SUBMIT))) {
		logline("\"e\":\"aio_submit\",\"fd\":%d,\"name\":\"%s\",\"n\":%zu,\"err\":%d,\"data\":\"%s\"", cb->aio_fildes,
		    fdname[cb->aio_fildes & 4095], (size_t)cb->aio_nbytes, e, hex((void *)cb->aio_buf, cb->aio_nbytes));
		errno = e;
		return -1;
	}
	for (struct req **pp = &reqs; *pp; pp = &(*pp)->next)
		if ((*pp)->cb == cb) { /* reuse of the control block */
			struct req *old = *pp;
			*pp = old->next;
			free(old);
			break;
		}
	r = calloc(1, sizeof *r);
	r->cb = cb;
	{
		struct req **pp = &reqs;
		while (*pp)
			pp = &(*pp)->next;
		*pp = r;
	}
	logline("\"e\":\"aio_submit\",\"fd\":%d,\"name\":\"%s\",\"n\":%zu,\"off\":%lld,\"err\":0,\"data\":\"%s\"", cb->aio_fildes,
	    fdname[cb->aio_fildes & 4095], (size_t)cb->aio_nbytes, (long long)cb->aio_offset, hex((void *)cb->aio_buf, cb->aio_nbytes));
	return 0;
}
int aio_write64(struct aiocb64 *cb) { return aio_write((struct aiocb *)cb); }
int aio_error(const struct aiocb *cb)
{
	struct req *r;
	REAL(int, aio_error, (const struct aiocb *));
	if (!active || aio_real)
		return real_aio_error(cb);
	r = find(cb);
	return r ? (r->done ? r->err : EINPROGRESS) : EINVAL;
}
int aio_error64(const struct aiocb64 *cb) { return aio_error((const struct aiocb *)cb); }
ssize_t aio_return(struct aiocb *cb)
{
	struct req *r;
	REAL(ssize_t, aio_return, (struct aiocb *));
	if (!active || aio_real)
		return real_aio_return(cb);
	r = find(cb);
	if (!r || !r->done) {
		errno = EINVAL;
		return -1;
	}
	return r->ret;
}
ssize_t aio_return64(struct aiocb64 *cb) { return aio_return((struct aiocb *)cb); }
void aio_init(const struct aioinit *i)
{
	REAL(void, aio_init, (const struct aioinit *));
	if (!active || aio_real)
		real_aio_init(i);
}

/* ---------- controller ---------- */
static int64_t adv_target;      /* pending advance */
static int waiting;             /* a command waits for idleness */
static char inbuf[8192];
static int inlen;

static int ctl_open(void)
{
	struct sockaddr_un sa = { .sun_family = AF_UNIX };
	char b[64];
	if (ctl != -1 || !sock_path)
		return ctl;
	int fd = high(syscall(SYS_socket, AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0));
	strncpy(sa.sun_path, sock_path, sizeof sa.sun_path - 1);
	if (syscall(SYS_connect, fd, &sa, sizeof sa) == -1) {
		raw_close(fd);
		sock_path = NULL;
		return -1;
	}
	ctl = fd;
	inlen = 0;
	snprintf(b, sizeof b, "hello %d\n", (int)getpid());
	(void)raw_write(ctl, b, strlen(b));
	return ctl;
}
static void reply(int64_t deadline)
{
	char b[128];
	int fd, q, spin = 0;
	/* what has been sent must have arrived at the (local) peer */
	for (fd = 3; fd < 256; fd++)
		while (spin < 400 && ioctl(fd, SIOCOUTQNSD, &q) == 0 && q > 0) {
			struct timespec ts = { 0, 50000 };
			syscall(SYS_nanosleep, &ts, NULL);
			spin++;
		}
	snprintf(b, sizeof b, "idle %lld %lld %d\n", (long long)*clk, deadline == INT64_MAX ? -1LL : (long long)deadline, aio_pending());
	(void)raw_write(ctl, b, strlen(b));
}
/* handle complete command lines; returns nonzero if the process was signalled */
static void ctl_commands(void)
{
	char *nl;
	while (!waiting && (nl = memchr(inbuf, '\n', inlen))) {
		int used = nl - inbuf + 1;
		char line[4096];
		memcpy(line, inbuf, used - 1);
		line[used - 1] = 0;
		memmove(inbuf, inbuf + used, inlen - used);
		inlen -= used;
		if (!strcmp(line, "idle"))
			waiting = 1;
		else if (!strcmp(line, "mem")) {	/* bytes allocated at present (AddressSanitizer's count) */
			size_t (*f)(void) = (size_t (*)(void))dlsym(RTLD_DEFAULT, "__sanitizer_get_current_allocated_bytes");
			char b[64];
			snprintf(b, sizeof b, "mem %lld\n", f ? (long long)f() : -1LL);
			(void)raw_write(ctl, b, strlen(b));
		}
		else if (!strncmp(line, "adv ", 4)) {
			adv_target = *clk + atoll(line + 4);
			waiting = 1;
		} else if (!strncmp(line, "aio ok", 6))
			aio_complete_one(-1, 0), waiting = 1;
		else if (!strncmp(line, "aio short ", 10))
			aio_complete_one(atol(line + 10), 0), waiting = 1;
		else if (!strncmp(line, "aio err ", 8))
			aio_complete_one(0, atoi(line + 8)), waiting = 1;
		else if (!strncmp(line, "fault ", 6))
			set_fault(line + 6);
		else if (!strcmp(line, "aiomode manual"))
			aio_manual = 1;
		else if (!strcmp(line, "aiomode auto"))
			aio_manual = 0;
	}
}

static int64_t dl(int ms) { return ms < 0 ? INT64_MAX : *clk + (int64_t)ms * 1000000; }

/* returns 1: descriptors ready, 0: timeout, -1: error */
static int idle_loop(int (*probe)(void *, int, int), void *arg, int64_t deadline)
{
	for (;;) {
		int r = probe(arg, 0, 0);
		if (r != 0)
			return r;
		if (*clk >= deadline)
			return 0;
		if (ctl_open() == -1 && sock_path == NULL) {
			/* No controller (any more): plain virtual waiting is useless. */
			r = probe(arg, 1, 0);
			if (r != 0)
				return r;
			continue;
		}
		if (!aio_manual && !aio_real && aio_pending()) {
			aio_complete_one(-1, 0);
			continue;
		}
		if (waiting) {
			if (adv_target > *clk) {
				*clk = adv_target < deadline ? adv_target : deadline;
				continue;
			}
			waiting = 0;
			adv_target = 0;
			reply(deadline);
		}
		ctl_commands();
		if (waiting)
			continue;
		r = probe(arg, 1, 1); /* block for descriptors or controller */
		if (r == -2) {
			int n = syscall(SYS_read, ctl, inbuf + inlen, sizeof inbuf - inlen);
			if (n <= 0) {
				raw_close(ctl);
				ctl = -1;
				sock_path = NULL;
				raise(SIGKILL); /* the controller is gone */
			} else
				inlen += n;
			ctl_commands();
			continue;
		}
		if (r != 0)
			return r;
	}
}

struct pprobe { struct pollfd *fds; nfds_t n; int r; };
static int probe_poll(void *a, int block, int withctl)
{
	struct pprobe *p = a;
	int c = block && withctl && ctl != -1;
	struct pollfd *f;
	int r;
	nfds_t i;
	if (!c) {
		p->r = raw_poll(p->fds, p->n, block ? -1 : 0);
		return p->r < 0 ? -1 : p->r > 0;
	}
	f = alloca((p->n + 1) * sizeof *f);
	memcpy(f, p->fds, p->n * sizeof *f);
	f[p->n].fd = ctl;
	f[p->n].events = POLLIN;
	f[p->n].revents = 0;
	r = raw_poll(f, p->n + 1, -1);
	if (r < 0)
		return -1;
	for (i = 0; i < p->n; i++)
		if (f[i].revents)
			return 0; /* seen by the next non-blocking probe */
	return f[p->n].revents ? -2 : 0;
}
int poll(struct pollfd *fds, nfds_t n, int ms)
{
	struct pprobe p = { fds, n, 0 };
	int r;
	if (!active || !clk || (ms >= 0 && ms <= 0))
		return raw_poll(fds, n, ms);
	r = idle_loop(probe_poll, &p, dl(ms));
	return r == 1 ? p.r : r;
}
struct eprobe { int ep; };
static int probe_epoll(void *a, int block, int withctl)
{
	struct eprobe *e = a;
	struct pollfd f[2] = { { e->ep, POLLIN, 0 }, { ctl, POLLIN, 0 } };
	int c = block && withctl && ctl != -1;
	int r = raw_poll(f, c ? 2 : 1, block ? -1 : 0);
	if (r < 0)
		return -1;
	if (f[0].revents)
		return block && withctl ? 0 : 1;
	return c && f[1].revents ? -2 : 0;
}
int epoll_wait(int ep, struct epoll_event *ev, int n, int ms)
{
	struct eprobe e = { ep };
	int r;
	if (!active || !clk)
		return syscall(SYS_epoll_pwait, ep, ev, n, ms, NULL, 8);
	if (ms == 0) {
		r = syscall(SYS_epoll_pwait, ep, ev, n, 0, NULL, 8);
		if (r == 0)
			*clk += 1000; /* time passes (rounding of timeouts) */
		return r;
	}
	r = idle_loop(probe_epoll, &e, dl(ms));
	return r == 1 ? (int)syscall(SYS_epoll_pwait, ep, ev, n, 0, NULL, 8) : r;
}
int epoll_pwait(int ep, struct epoll_event *ev, int n, int ms, const sigset_t *s)
{
	(void)s;
	return epoll_wait(ep, ev, n, ms);
}
struct sprobe { int n; fd_set *r, *w, *x, R, W, X; int res; };
static int probe_select(void *a, int block, int withctl)
{
	struct sprobe *s = a;
	struct timespec z = { 0, 0 };
	int c = block && withctl && ctl != -1, n = s->n, r;
	FD_ZERO(&s->R); FD_ZERO(&s->W); FD_ZERO(&s->X);
	if (s->r) s->R = *s->r;
	if (s->w) s->W = *s->w;
	if (s->x) s->X = *s->x;
	if (c) {
		FD_SET(ctl, &s->R);
		if (n <= ctl) n = ctl + 1;
	}
	r = syscall(SYS_pselect6, n, &s->R, &s->W, &s->X, block ? NULL : &z, NULL);
	if (r < 0)
		return -1;
	if (c)
		return FD_ISSET(ctl, &s->R) && r == 1 ? -2 : 0;
	s->res = r;
	return r > 0;
}
int select(int n, fd_set *r, fd_set *w, fd_set *x, struct timeval *tv)
{
	struct sprobe s = { .n = n, .r = r, .w = w, .x = x };
	int k;
	if (!active || !clk || (tv && !tv->tv_sec && !tv->tv_usec)) {
		struct timespec ts;
		if (tv) { ts.tv_sec = tv->tv_sec; ts.tv_nsec = tv->tv_usec * 1000; }
		return syscall(SYS_pselect6, n, r, w, x, tv ? &ts : NULL, NULL);
	}
	k = idle_loop(probe_select, &s, tv ? *clk + tv->tv_sec * 1000000000LL + tv->tv_usec * 1000LL : INT64_MAX);
	if (k < 0)
		return k;
	if (k == 0) {
		if (r) FD_ZERO(r);
		if (w) FD_ZERO(w);
		if (x) FD_ZERO(x);
		return 0;
	}
	if (r) *r = s.R;
	if (w) *w = s.W;
	if (x) *x = s.X;
	return s.res;
}

/* ---------- files ---------- */
static int is_fifo_path(const char *p) { return fifo_path && !strcmp(p, fifo_path); }
static int is_tmp_path(const char *p)
{
	size_t n = tmp_path ? strlen(tmp_path) : 0;
	return n && !strncmp(p, tmp_path, n) && p[n] == '/';
}
static const char *base(const char *p)
{
	const char *s = strrchr(p, '/');
	return s ? s + 1 : p;
}
static void setkind(int fd, char k, const char *name)
{
	if (fd >= 0 && fd < 4096) {
		kind[fd] = k;
		snprintf(fdname[fd], sizeof fdname[fd], "%s", name);
	}
}
static int do_open(int dirfd, const char *path, int flags, mode_t mode)
{
	int fd, e;
	if (active && is_fifo_path(path)) {
		struct stat sb;
		if ((e = faulty(F_OPEN_FIFO))) {
			logline("\"e\":\"open_fifo\",\"err\":%d,\"fake\":1", e);
			errno = e;
			return -1;
		}
		fd = syscall(SYS_openat, dirfd, path, flags, mode);
		e = errno;
		if (fd == -1)
			logline("\"e\":\"open_fifo\",\"err\":%d", e);
		else {
			int isf = fstat(fd, &sb) == 0 && S_ISFIFO(sb.st_mode);
			logline("\"e\":\"open_fifo\",\"err\":0,\"fd\":%d,\"fifo\":%d,\"flags\":%d", fd, isf, flags);
			setkind(fd, 'f', "");
		}
		errno = e;
		return fd;
	}
	if (active && is_tmp_path(path) && (flags & O_CREAT)) {
		if ((e = faulty(F_MKSTEMP))) {
			logline("\"e\":\"dump_open\",\"err\":%d", e);
			errno = e;
			return -1;
		}
		fd = syscall(SYS_openat, dirfd, path, flags, mode);
		e = errno;
		logline("\"e\":\"dump_open\",\"err\":%d,\"fd\":%d,\"name\":\"%s\",\"excl\":%d", fd == -1 ? e : 0, fd, base(path), !!(flags & O_EXCL));
		if (fd != -1)
			setkind(fd, 'd', base(path));
		errno = e;
		return fd;
	}
	fd = syscall(SYS_openat, dirfd, path, flags, mode);
	if (active && priv_fake && (flags & O_CREAT))
		logline("\"e\":\"create\",\"path\":\"%s\",\"ok\":%d", path, fd != -1);
	if (fd >= 0 && fd < 4096)
		kind[fd] = 0;
	return fd;
}
#define GETMODE mode_t mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, int); va_end(ap); }
int open(const char *path, int flags, ...) { GETMODE return do_open(AT_FDCWD, path, flags, mode); }
int open64(const char *path, int flags, ...) { GETMODE return do_open(AT_FDCWD, path, flags, mode); }
int openat(int d, const char *path, int flags, ...) { GETMODE return do_open(d, path, flags, mode); }
int openat64(int d, const char *path, int flags, ...) { GETMODE return do_open(d, path, flags, mode); }
int __open_2(const char *path, int flags) { return do_open(AT_FDCWD, path, flags, 0); }
int __open64_2(const char *path, int flags) { return do_open(AT_FDCWD, path, flags, 0); }
int creat(const char *path, mode_t m) { return do_open(AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, m); }

static int do_mkstemp(char *t, int fl, int suf)
{
	int fd, e;
	REAL(int, mkostemps, (char *, int, int));
	if (active && is_tmp_path(t)) {
		if ((e = faulty(F_MKSTEMP))) {
			logline("\"e\":\"dump_open\",\"err\":%d", e);
			errno = e;
			return -1;
		}
		fd = real_mkostemps(t, suf, fl);
		e = errno;
		logline("\"e\":\"dump_open\",\"err\":%d,\"fd\":%d,\"name\":\"%s\",\"excl\":1", fd == -1 ? e : 0, fd, base(t));
		if (fd != -1)
			setkind(fd, 'd', base(t));
		errno = e;
		return fd;
	}
	fd = real_mkostemps(t, suf, fl);
	if (active && priv_fake)
		logline("\"e\":\"create\",\"path\":\"%s\",\"ok\":%d", t, fd != -1);
	return fd;
}
int mkstemp(char *t) { return do_mkstemp(t, 0, 0); }
int mkstemp64(char *t) { return do_mkstemp(t, 0, 0); }
int mkostemp(char *t, int f) { return do_mkstemp(t, f, 0); }
int mkstemps(char *t, int s) { return do_mkstemp(t, 0, s); }

static ssize_t do_write(int fd, const struct iovec *v, int cnt, off_t off)
{
	ssize_t n;
	size_t tot = 0;
	int i, e, f;
	char k = active && fd >= 0 && fd < 4096 ? kind[fd] : 0;
	char *flat = NULL;
	const void *data;
	if (!k) {
		if (cnt == 1 && off == -1)
			return syscall(SYS_write, fd, v[0].iov_base, v[0].iov_len);
		if (off == -1)
			return syscall(SYS_writev, fd, v, cnt);
		return syscall(SYS_pwrite64, fd, v[0].iov_base, v[0].iov_len, off);
	}
	for (i = 0; i < cnt; i++)
		tot += v[i].iov_len;
	if (cnt == 1)
		data = v[0].iov_base;
	else {
		size_t o = 0;
		flat = malloc(tot + 1);
		for (i = 0; i < cnt; i++) {
			memcpy(flat + o, v[i].iov_base, v[i].iov_len);
			o += v[i].iov_len;
		}
		data = flat;
	}
	f = faulty(k == 'f' ? F_WRITE_FIFO : F_WRITE_DUMP);
	if (f > 0) {
		n = -1;
		errno = f;
	} else {
		size_t want = tot;
		if (f < 0 && (size_t)-f < tot)
			want = -f;
		n = off == -1 ? syscall(SYS_write, fd, data, want) : syscall(SYS_pwrite64, fd, data, want, off);
	}
	e = errno;
	{
		struct stat sb;
		int isf = fstat(fd, &sb) == 0 && S_ISFIFO(sb.st_mode);
		logline("\"e\":\"%s\",\"fd\":%d,\"name\":\"%s\",\"n\":%zu,\"ret\":%zd,\"err\":%d,\"fifo\":%d,\"data\":\"%s\"",
		    k == 'f' ? "write_fifo" : "dump_write", fd, fdname[fd], tot, n, n == -1 ? e : 0, isf, hex(data, tot));
	}
	free(flat);
	errno = e;
	return n;
}
ssize_t write(int fd, const void *b, size_t n) { struct iovec v = { (void *)b, n }; return do_write(fd, &v, 1, -1); }
ssize_t writev(int fd, const struct iovec *v, int c) { return do_write(fd, v, c, -1); }
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) { struct iovec v = { (void *)b, n }; return do_write(fd, &v, 1, o); }
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) { struct iovec v = { (void *)b, n }; return do_write(fd, &v, 1, o); }

int close(int fd)
{
	int e;
	if (active && fd >= 0 && (fd == ctl || fd == logfd)) {
		errno = EBADF;
		return -1;
	}
	if (active && fd >= 0 && fd < 4096 && kind[fd]) {
		char k = kind[fd];
		int r;
		if (k == 'd' && (e = faulty(F_CLOSE_DUMP))) {
			logline("\"e\":\"dump_close\",\"fd\":%d,\"name\":\"%s\",\"err\":%d", fd, fdname[fd], e);
			if (e != EINTR) {
				kind[fd] = 0;
				raw_close(fd);
			}
			errno = e;
			return -1;
		}
		kind[fd] = 0;
		if (k == 'd') {
			struct stat sb;
			if (fstat(fd, &sb) == -1)
				memset(&sb, 0, sizeof sb);
			logline("\"e\":\"dump_close\",\"fd\":%d,\"name\":\"%s\",\"err\":0,\"size\":%lld,\"mode\":%d", fd, fdname[fd], (long long)sb.st_size, (int)(sb.st_mode & 07777));
		} else
			logline("\"e\":\"close_fifo\",\"fd\":%d", fd);
		r = raw_close(fd);
		return r;
	}
	return raw_close(fd);
}
void closefrom(int lo)
{
	int c = ctl, l = logfd;
	syscall(SYS_close_range, lo, 999, 0);
	if (c < 1000 && c >= lo) { ctl = -1; }
	if (l < 1000 && l >= lo) { logfd = -1; }
	(void)c; (void)l;
}

/* ---------- sockets ---------- */
int bind(int fd, const struct sockaddr *sa, socklen_t len)
{
	int e, r;
	REAL(int, bind, (int, const struct sockaddr *, socklen_t));
	if (active && sa->sa_family != AF_UNIX) {
		if ((e = faulty(F_BIND))) {
			logline("\"e\":\"bind\",\"err\":%d", e);
			errno = e;
			return -1;
		}
		if (getenv("SHIM_SNDBUF")) {	/* inherited by the connections */
			int n = atoi(getenv("SHIM_SNDBUF"));
			setsockopt(fd, SOL_SOCKET, SO_SNDBUF, &n, sizeof n);
		}
		r = real_bind(fd, sa, len);
		e = errno;
		logline("\"e\":\"bind\",\"err\":%d,\"family\":%d,\"port\":%d", r == -1 ? e : 0, sa->sa_family,
		    (((unsigned char *)sa)[2] << 8) | ((unsigned char *)sa)[3]);
		errno = e;
		return r;
	}
	return real_bind(fd, sa, len);
}

/* small socket buffers, so that a peer which does not read is noticed soon */
int connect(int fd, const struct sockaddr *sa, socklen_t len)
{
	const char *e = getenv("SHIM_SNDBUF");
	int n = e ? atoi(e) : 0;
	REAL(int, connect, (int, const struct sockaddr *, socklen_t));
	if (n && sa && (sa->sa_family == AF_INET || sa->sa_family == AF_INET6))
		setsockopt(fd, SOL_SOCKET, SO_SNDBUF, &n, sizeof n);
	return real_connect(fd, sa, len);
}
int listen(int fd, int backlog)
{
	int r, e;
	struct sockaddr_storage ss;
	socklen_t l = sizeof ss;
	REAL(int, listen, (int, int));
	r = real_listen(fd, backlog);
	e = errno;
	if (active && getsockname(fd, (struct sockaddr *)&ss, &l) == 0 && ss.ss_family != AF_UNIX)
		logline("\"e\":\"listen\",\"err\":%d", r == -1 ? e : 0);
	errno = e;
	return r;
}
/* messages to the service manager */
ssize_t sendmsg(int fd, const struct msghdr *m, int fl)
{
	REAL(ssize_t, sendmsg, (int, const struct msghdr *, int));
	if (active && m && m->msg_iovlen > 0 && m->msg_iov[0].iov_len > 0 && getenv("NOTIFY_SOCKET")) {
		const char *b = m->msg_iov[0].iov_base;
		size_t n = m->msg_iov[0].iov_len;
		if (memmem(b, n, "READY=", 6) || memmem(b, n, "WATCHDOG=", 9) || memmem(b, n, "STOPPING=", 9) || memmem(b, n, "RELOADING=", 10))
			logline("\"e\":\"notify\",\"data\":\"%s\"", hex(b, n));
	}
	return real_sendmsg(fd, m, fl);
}

/* ---------- privileges (stand-ins) ---------- */
static int priv(int f, const char *what, long a)
{
	int e = faulty(f);
	logline("\"e\":\"%s\",\"arg\":%ld,\"err\":%d", what, a, e);
	if (e) {
		errno = e;
		return -1;
	}
	return 0;
}
static int privs(int f, const char *what, const char *a)
{
	int e = faulty(f);
	logline("\"e\":\"%s\",\"arg\":\"%s\",\"err\":%d", what, a, e);
	if (e) {
		errno = e;
		return -1;
	}
	return 0;
}
static uid_t fake_uid = 0;
int chroot(const char *p)
{
	REAL(int, chroot, (const char *));
	return priv_fake ? privs(F_CHROOT, "chroot", p) : real_chroot(p);
}
int chdir(const char *p)
{
	if (priv_fake)
		return privs(F_CHDIR, "chdir", p);
	return syscall(SYS_chdir, p);
}
#define STANDIN(fn, argt, pt, idx) \
int fn(argt a) { REAL(int, fn, (argt)); if (priv_fake) { int r = priv(idx, #fn, (long)a); if (!r && idx == F_SETUID) fake_uid = (uid_t)a; return r; } return real_##fn(a); }
STANDIN(setgid, gid_t, long, F_SETGID)
STANDIN(setegid, gid_t, long, F_SETGID)
STANDIN(setuid, uid_t, long, F_SETUID)
STANDIN(seteuid, uid_t, long, F_SETUID)
#define RES(fn, t, idx, res) \
	if (priv_fake) { int e = faulty(idx); \
		logline("\"e\":\"" res "\",\"arg\":%ld,\"arg2\":%ld,\"arg3\":%ld,\"err\":%d", (long)(int)a, (long)(int)b, (long)(int)c, e); \
		if (e) { errno = e; return -1; } return 0; }
int setreuid(uid_t a, uid_t b) { uid_t c = b; REAL(int, setreuid, (uid_t, uid_t)); RES(setreuid, uid_t, F_SETUID, "setresuid") return real_setreuid(a, b); }
int setregid(gid_t a, gid_t b) { gid_t c = b; REAL(int, setregid, (gid_t, gid_t)); RES(setregid, gid_t, F_SETGID, "setresgid") return real_setregid(a, b); }
int setresuid(uid_t a, uid_t b, uid_t c) { REAL(int, setresuid, (uid_t, uid_t, uid_t)); RES(setresuid, uid_t, F_SETUID, "setresuid") return real_setresuid(a, b, c); }
int setresgid(gid_t a, gid_t b, gid_t c) { REAL(int, setresgid, (gid_t, gid_t, gid_t)); RES(setresgid, gid_t, F_SETGID, "setresgid") return real_setresgid(a, b, c); }
int initgroups(const char *u, gid_t g)
{
	REAL(int, initgroups, (const char *, gid_t));
	if (!priv_fake)
		return real_initgroups(u, g);
	{
		int e = faulty(F_INITGROUPS);
		logline("\"e\":\"initgroups\",\"arg\":\"%s\",\"gid\":%ld,\"err\":%d", u, (long)g, e);
		if (e) { errno = e; return -1; }
	}
	return 0;
}
int setgroups(size_t n, const gid_t *l)
{
	REAL(int, setgroups, (size_t, const gid_t *));
	if (!priv_fake)
		return real_setgroups(n, l);
	logline("\"e\":\"setgroups\",\"n\":%zu,\"err\":0", n);
	return 0;
}
struct passwd *getpwnam(const char *u)
{
	static struct passwd pw;
	static char nm[64];
	REAL(struct passwd *, getpwnam, (const char *));
	if (!priv_fake)
		return real_getpwnam(u);
	int e = faulty(F_GETPWNAM);
	unsigned id;
	logline("\"e\":\"getpwnam\",\"arg\":\"%s\",\"err\":%d", u, e);
	if (e) { errno = e; return NULL; }
	if (sscanf(u, "user%u", &id) != 1) { errno = 0; return NULL; } /* unknown */
	snprintf(nm, sizeof nm, "%s", u);
	memset(&pw, 0, sizeof pw);
	pw.pw_name = nm; pw.pw_passwd = "x"; pw.pw_gecos = ""; pw.pw_dir = "/"; pw.pw_shell = "/bin/false";
	pw.pw_uid = 50000 + id;
	pw.pw_gid = 60000 + id;
	return &pw;
}
int getpwnam_r(const char *u, struct passwd *pw, char *b, size_t n, struct passwd **res)
{
	struct passwd *p;
	REAL(int, getpwnam_r, (const char *, struct passwd *, char *, size_t, struct passwd **));
	if (!priv_fake)
		return real_getpwnam_r(u, pw, b, n, res);
	errno = 0;
	p = getpwnam(u);
	*res = NULL;
	if (!p)
		return errno;
	*pw = *p;
	*res = pw;
	return 0;
}
