/* Preloaded into toycc (host build): records the files it opens and injects
 * faults. Environment:
 *   SHIM_LOG    file to append "R path" / "W path" lines to
 *   SHIM_ROLE   "cc1" or "driver": the processes that faults are injected in
 *   SHIM_FAULT  what:N, the Nth call (from 1) of what fails
 *               (fork, execvp, mkstemp, fopenr, fopenw, fclosew, fflush, memstream)
 *               or kill:SIG / killexit:SIG, the process dies at its start / end
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

/* the preloaded functions are called by the library's own code, too */
static char what[32];
static int nth, log_fd = -1;

static void die(void)
{
	signal(nth, SIG_DFL);
	kill(getpid(), nth);
	for (;;)
		pause();
}

static void __attribute__((destructor)) fini(void)
{
	if (!strcmp(what, "killexit"))
		die();
}

static void __attribute__((constructor)) init(void)
{
	char buf[65536];
	int fd = open("/proc/self/cmdline", O_RDONLY);
	int n = read(fd, buf, sizeof(buf) - 1);
	close(fd);
	if (n < 0)
		n = 0;
	buf[n] = 0;

	/* only the compiler itself */
	const char *base = strrchr(buf, '/');
	base = base ? base + 1 : buf;
	if (strcmp(base, "toycc"))
		return;

	int is_cc1 = 0;
	for (char *p = buf; p < buf + n; p += strlen(p) + 1)
		if (!strcmp(p, "-cc1"))
			is_cc1 = 1;

	const char *log = getenv("SHIM_LOG");
	if (log)
		log_fd = open(log, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644);

	const char *role = getenv("SHIM_ROLE");
	const char *fault = getenv("SHIM_FAULT");
	if (!fault || (role && strcmp(role, is_cc1 ? "cc1" : "driver")))
		return;
	const char *colon = strchr(fault, ':');
	if (!colon)
		return;
	snprintf(what, sizeof(what), "%.*s", (int)(colon - fault), fault);
	nth = atoi(colon + 1);
	if (!strcmp(what, "kill"))
		die();
}

static int fails(const char *name, int err)
{
	if (strcmp(what, name) || --nth)
		return 0;
	errno = err;
	if (log_fd >= 0)
		dprintf(log_fd, "F %s\n", name);
	return 1;
}

FILE *fopen(const char *path, const char *mode)
{
	static FILE *(*real)(const char *, const char *);
	if (!real)
		real = dlsym(RTLD_NEXT, "fopen");
	if (*mode == 'r' ? fails("fopenr", EMFILE) : fails("fopenw", EACCES))
		return NULL;
	FILE *f = real(path, mode);
	if (f && log_fd >= 0)
		dprintf(log_fd, "%c %s\n", *mode == 'r' ? 'R' : 'W', path);
	return f;
}

/* other ways to open a file */
static void log_open(const char *path, int flags, int fd)
{
	if (fd >= 0 && log_fd >= 0)
		dprintf(log_fd, "%c %s\n", (flags & O_ACCMODE) == O_RDONLY ? 'R' : 'W', path);
}

int open(const char *path, int flags, ...)
{
	static int (*real)(const char *, int, int);
	__builtin_va_list ap;
	if (!real)
		real = dlsym(RTLD_NEXT, "open");
	__builtin_va_start(ap, flags);
	int mode = flags & O_CREAT ? __builtin_va_arg(ap, int) : 0;
	__builtin_va_end(ap);
	if ((flags & O_ACCMODE) == O_RDONLY ? fails("fopenr", EMFILE) : fails("fopenw", EACCES))
		return -1;
	int fd = real(path, flags, mode);
	log_open(path, flags, fd);
	return fd;
}

int openat(int dir, const char *path, int flags, ...)
{
	static int (*real)(int, const char *, int, int);
	__builtin_va_list ap;
	if (!real)
		real = dlsym(RTLD_NEXT, "openat");
	__builtin_va_start(ap, flags);
	int mode = flags & O_CREAT ? __builtin_va_arg(ap, int) : 0;
	__builtin_va_end(ap);
	int fd = real(dir, path, flags, mode);
	log_open(path, flags, fd);
	return fd;
}

static int writable(FILE *f)
{
	int fd = fileno(f);
	int fl = fd < 0 ? -1 : fcntl(fd, F_GETFL);
	return fl >= 0 && (fl & O_ACCMODE) != O_RDONLY && fd > 2;
}

int fclose(FILE *f)
{
	static int (*real)(FILE *);
	if (!real)
		real = dlsym(RTLD_NEXT, "fclose");
	int w = writable(f);
	int r = real(f);
	if (w && fails("fclosew", ENOSPC))
		return EOF;
	return r;
}

pid_t fork(void)
{
	static pid_t (*real)(void);
	if (!real)
		real = dlsym(RTLD_NEXT, "fork");
	if (fails("fork", EAGAIN))
		return -1;
	return real();
}

int mkstemp(char *t)
{
	static int (*real)(char *);
	if (!real)
		real = dlsym(RTLD_NEXT, "mkstemp");
	if (fails("mkstemp", ENOSPC))
		return -1;
	return real(t);
}
