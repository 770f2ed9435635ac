/* Preloaded into the interpreters which use the Perl and Python modules: time()
 * follows the clock file, and waiting in select() is short. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <stdint.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/select.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
#include <poll.h>

static volatile int64_t *clk;

__attribute__((constructor)) static void init(void)
{
	const char *f = getenv("SHIM_CLOCK");
	int fd;

	if (f != NULL && (fd = open(f, O_RDWR | O_CLOEXEC)) >= 0) {
		void *p = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);

		if (p != MAP_FAILED)
			clk = p;
		close(fd);
	}
}

time_t time(time_t *t)
{
	struct timespec ts;
	time_t r;

	if (clk != NULL)
		r = *clk / 1000000000;
	else {
		syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts);
		r = ts.tv_sec;
	}
	if (t != NULL)
		*t = r;
	return r;
}

int select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *tv)
{
	struct timespec ts = { 0, 2000000 };

	if (tv != NULL && (tv->tv_sec != 0 || tv->tv_usec < 2000))
		ts.tv_nsec = tv->tv_sec == 0 && tv->tv_usec < 2000 ? 1000000 : 2000000;
	return syscall(SYS_pselect6, n, r, w, e, &ts, NULL);
}

int poll(struct pollfd *p, nfds_t n, int ms)
{
	return syscall(SYS_poll, p, n, clk != NULL && (ms < 0 || ms > 5) ? 5 : ms);
}

/* The interpreter asks for its next command: tell how much is allocated now. */
ssize_t read(int fd, void *b, size_t n)
{
	if (fd == 0 && clk != NULL) {
		static size_t (*f)(void);

		if (f == NULL)
			f = (size_t (*)(void))dlsym(RTLD_DEFAULT, "__sanitizer_get_current_allocated_bytes");
		clk[1] = f != NULL ? (int64_t)f() : -1;
		clk[2]++;
	}
	return syscall(SYS_read, fd, b, n);
}
