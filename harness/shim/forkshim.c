/*
 * Fork server and fault injector, preloaded into the unmodified pemv binary.
 *
 * It takes over __libc_start_main: instead of running main() once, the process
 * waits for requests on descriptor MC_REQ_FD and, for each one, forks a child in
 * the state just before main(), gives it the requested argument vector,
 * environment and working directory, and runs the real main() in it. The child's
 * standard output and error go to two memory files shared with the harness. The
 * parent reports how the child ended.
 *
 * In a child the request may also carry a fault plan: answers that write(2) on
 * standard output is to give instead of performing the full write, by index of
 * the call. This is the only environment answer the program depends on besides
 * its arguments, environment and configuration file.
 *
 * Request:  u32 length of the rest, then
 *           u32 alarm seconds, u32 nfaults, u32 argc, u32 envc,
 *           nfaults * { u32 index, i32 action, u32 repeat },
 *           NUL-terminated: cwd, argv..., env...
 *           action > 0: perform a short write of at most that many bytes
 *           action < 0: fail with errno -action (EINTR, EIO, ...)
 *           action = 0: write returns 0
 *           repeat: the fault applies to write calls index .. index+repeat-1
 *
 * An environment entry MC_WORLD=<letters and numbers, comma-separated> is not passed on but sets up the child:
 *           t<seconds>  the clocks stand at this time        j<seconds>  and advance by this at every look
 *           r<byte>     every random byte is this one        p<number>   the process has this number
 *           w           watch: whatever pemv attempts beyond reading and writing its output is logged and refused
 *                       (by a seccomp filter), the files it opens and the variables it looks up are logged
 *
 * Response: i32 wait status, u32 number of write calls on stdout, i32 processor milliseconds, i32 peak KiB
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <elf.h>
#include <errno.h>
#include <fcntl.h>
#include <linux/audit.h>
#include <linux/filter.h>
#include <linux/seccomp.h>
#include <sched.h>
#include <stdarg.h>
#include <stddef.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>

extern char **environ;

struct fault {
	uint32_t index;
	int32_t action;
	uint32_t repeat;
};

static int (*real_main)(int, char **, char **);
static int in_child = 0;
#define LOG_FD 200

static uint32_t *write_calls; /* shared with the parent */
static struct fault *faults;
static uint32_t nfaults;

static ssize_t raw_write(int fd, const void *buf, size_t len)
{
	return syscall(SYS_write, fd, buf, len);
}

/* returns 1 and sets *res if a fault answered the call */
static int consult(size_t len, size_t *allowed)
{
	uint32_t i, n = (*write_calls)++;
	*allowed = len;
	for (i = 0; i < nfaults; i++) {
		if (n >= faults[i].index && n - faults[i].index < faults[i].repeat) {
			if (faults[i].action < 0) {
				errno = -faults[i].action;
				return -1;
			}
			if ((size_t)faults[i].action < len)
				*allowed = (size_t)faults[i].action;
			return 0;
		}
	}
	return 0;
}

/* standard output, or a copy or reopening of it */
static int is_output(int fd)
{
	struct stat a, b;
	if (fd == 1)
		return 1;
	if (fd <= 2 || fd == LOG_FD || nfaults == 0)
		return 0;
	return fstat(1, &a) == 0 && fstat(fd, &b) == 0 && a.st_dev == b.st_dev && a.st_ino == b.st_ino;
}

ssize_t write(int fd, const void *buf, size_t len)
{
	size_t allowed;
	if (!in_child || !is_output(fd))
		return raw_write(fd, buf, len);
	if (consult(len, &allowed) < 0)
		return -1;
	if (allowed == 0 && len > 0)
		return 0;
	return raw_write(fd, buf, allowed);
}

ssize_t writev(int fd, const struct iovec *iov, int n)
{
	/* a short first segment is a legal answer to writev; this keeps one path */
	int i;
	if (!in_child || !is_output(fd))
		return syscall(SYS_writev, fd, iov, n);
	for (i = 0; i < n; i++)
		if (iov[i].iov_len > 0)
			return write(fd, iov[i].iov_base, iov[i].iov_len);
	return write(fd, "", 0);
}

/* ---- the world around the child ---- */

static int watched = 0, fake_clock = 0, fake_random = -1, fake_pid = 0;
static long long clock_at = 0, clock_step = 0;

static void log_line(const char *kind, const char *what)
{
	char line[4200];
	int n = snprintf(line, sizeof line, "%s %s\n", kind, what);
	if (n > (int)sizeof line - 1)
		n = (int)sizeof line - 1;
	raw_write(LOG_FD, line, (size_t)n);
}

int clock_gettime(clockid_t id, struct timespec *t)
{
	if (!in_child || !fake_clock)
		return (int)syscall(SYS_clock_gettime, id, t);
	t->tv_sec = clock_at;
	t->tv_nsec = 0;
	clock_at += clock_step;
	return 0;
}
int gettimeofday(struct timeval *restrict t, void *restrict z)
{
	struct timespec s;
	(void)z;
	clock_gettime(CLOCK_REALTIME, &s);
	t->tv_sec = s.tv_sec;
	t->tv_usec = s.tv_nsec / 1000;
	return 0;
}
time_t time(time_t *t)
{
	struct timespec s;
	clock_gettime(CLOCK_REALTIME, &s);
	if (t)
		*t = s.tv_sec;
	return s.tv_sec;
}
ssize_t getrandom(void *buf, size_t len, unsigned flags)
{
	if (!in_child || fake_random < 0)
		return syscall(SYS_getrandom, buf, len, flags);
	memset(buf, fake_random, len);
	return (ssize_t)len;
}
pid_t getpid(void)
{
	if (!in_child || !fake_pid)
		return (pid_t)syscall(SYS_getpid);
	return fake_pid;
}
char *getenv(const char *name)
{
	size_t n = strlen(name);
	char **e;
	if (in_child && watched)
		log_line("env", name);
	for (e = environ; e && *e; e++)
		if (!strncmp(*e, name, n) && (*e)[n] == '=')
			return *e + n + 1;
	return NULL;
}
static int do_open(int dir, const char *path, int flags, int mode)
{
	if (in_child && watched)
		log_line("open", path);
	return (int)syscall(SYS_openat, dir, path, flags, mode);
}
#define OPEN(name)                                                     \
	int name(const char *path, int flags, ...)                     \
	{                                                              \
		va_list a;                                             \
		int mode;                                              \
		va_start(a, flags);                                    \
		mode = va_arg(a, int);                                 \
		va_end(a);                                             \
		return do_open(AT_FDCWD, path, flags, mode);           \
	}
OPEN(open)
OPEN(open64)
#define OPENAT(name)                                                   \
	int name(int dir, const char *path, int flags, ...)            \
	{                                                              \
		va_list a;                                             \
		int mode;                                              \
		va_start(a, flags);                                    \
		mode = va_arg(a, int);                                 \
		va_end(a);                                             \
		return do_open(dir, path, flags, mode);                \
	}
OPENAT(openat)
OPENAT(openat64)

static void on_sigsys(int sig, siginfo_t *info, void *context)
{
	ucontext_t *c = context;
	int nr = info->si_syscall;
	char what[400];
	const char *path = "";
	(void)sig;
	switch (nr) {
	case SYS_open: case SYS_creat: case SYS_unlink: case SYS_rename: case SYS_mkdir: case SYS_rmdir: case SYS_link:
	case SYS_symlink: case SYS_mknod: case SYS_chmod: case SYS_chown: case SYS_lchown: case SYS_truncate: case SYS_execve:
		path = (const char *)c->uc_mcontext.gregs[REG_RDI];
		break;
	case SYS_openat: case SYS_unlinkat: case SYS_renameat: case SYS_renameat2: case SYS_mkdirat: case SYS_fchmodat:
	case SYS_fchownat: case SYS_symlinkat: case SYS_linkat: case SYS_execveat: case SYS_mknodat:
		path = (const char *)c->uc_mcontext.gregs[REG_RSI];
		break;
	default:
		break;
	}
	snprintf(what, sizeof what, "%d %.300s", nr, path ? path : "");
	log_line("sys", what);
	c->uc_mcontext.gregs[REG_RAX] = -EPERM;
}

#define NR(n) BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, nr))
#define TRAP BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_TRAP)
#define ALLOW BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW)
#define ARG(n) BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, args[n]))
#define REFUSE(n) BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, n, 0, 1), TRAP
/* refuse call n when argument k has one of these bits */
#define REFUSE_BITS(n, k, bits)                                        \
	BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, n, 0, 4), ARG(k),          \
	BPF_JUMP(BPF_JMP | BPF_JSET | BPF_K, bits, 0, 1), TRAP, ALLOW

static int watch(void)
{
	const unsigned w = O_WRONLY | O_RDWR | O_CREAT | O_TRUNC | O_APPEND;
	struct sock_filter f[] = {
		NR(0),
		REFUSE_BITS(SYS_openat, 2, w),
		REFUSE_BITS(SYS_open, 1, w),
		/* output goes to 1 and 2 (and the log) only */
		BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, SYS_write, 1, 0),
		BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, SYS_writev, 0, 6),
		ARG(0),
		BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, 1, 3, 0),
		BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, 2, 2, 0),
		BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, LOG_FD, 1, 0),
		TRAP, ALLOW,
		/* threads are no matter; processes are */
		BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, SYS_clone, 0, 4), ARG(0),
		BPF_JUMP(BPF_JMP | BPF_JSET | BPF_K, CLONE_THREAD, 1, 0), TRAP, ALLOW,
		BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, SYS_clone3, 0, 1),
		BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ERRNO | ENOSYS),
		REFUSE(SYS_creat), REFUSE(SYS_openat2), REFUSE(SYS_unlink), REFUSE(SYS_unlinkat), REFUSE(SYS_rename),
		REFUSE(SYS_renameat), REFUSE(SYS_renameat2), REFUSE(SYS_mkdir), REFUSE(SYS_mkdirat), REFUSE(SYS_rmdir),
		REFUSE(SYS_link), REFUSE(SYS_linkat), REFUSE(SYS_symlink), REFUSE(SYS_symlinkat), REFUSE(SYS_mknod),
		REFUSE(SYS_mknodat), REFUSE(SYS_chmod), REFUSE(SYS_fchmod), REFUSE(SYS_fchmodat), REFUSE(SYS_chown),
		REFUSE(SYS_fchown), REFUSE(SYS_lchown), REFUSE(SYS_fchownat), REFUSE(SYS_truncate), REFUSE(SYS_ftruncate),
		REFUSE(SYS_utimensat), REFUSE(SYS_utime), REFUSE(SYS_utimes), REFUSE(SYS_futimesat), REFUSE(SYS_setxattr),
		REFUSE(SYS_fsetxattr), REFUSE(SYS_lsetxattr), REFUSE(SYS_fallocate), REFUSE(SYS_sendfile),
		REFUSE(SYS_copy_file_range), REFUSE(SYS_pwrite64), REFUSE(SYS_pwritev), REFUSE(SYS_pwritev2), REFUSE(SYS_splice),
		REFUSE(SYS_socket), REFUSE(SYS_socketpair), REFUSE(SYS_connect), REFUSE(SYS_bind), REFUSE(SYS_sendto),
		REFUSE(SYS_sendmsg), REFUSE(SYS_fork), REFUSE(SYS_vfork), REFUSE(SYS_execve), REFUSE(SYS_execveat),
		REFUSE(SYS_ptrace), REFUSE(SYS_mount), REFUSE(SYS_shmget), REFUSE(SYS_mq_open), REFUSE(SYS_io_uring_setup),
		REFUSE(SYS_setpriority), REFUSE(SYS_kill), REFUSE(SYS_sethostname), REFUSE(SYS_settimeofday),
		REFUSE(SYS_syslog),
		ALLOW,
	};
	struct sock_fprog prog = { sizeof f / sizeof *f, f };
	struct sigaction a;
	memset(&a, 0, sizeof a);
	a.sa_sigaction = on_sigsys;
	a.sa_flags = SA_SIGINFO;
	if (sigaction(SIGSYS, &a, NULL) != 0 || prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0) != 0)
		return -1;
	return (int)syscall(SYS_seccomp, SECCOMP_SET_MODE_FILTER, 0, &prog);
}

static void set_world(const char *spec)
{
	const char *p = spec;
	while (*p) {
		long long n = strtoll(p + 1, NULL, 10);
		switch (*p) {
		case 't': fake_clock = 1; clock_at = n; break;
		case 'j': clock_step = n; break;
		case 'r': fake_random = (int)n; break;
		case 'p': fake_pid = (int)n; break;
		case 'w': watched = 1; break;
		default: break;
		}
		p = strchr(p, ',');
		if (!p)
			break;
		p++;
	}
}

static int read_full(int fd, void *buf, size_t len)
{
	char *p = buf;
	while (len > 0) {
		ssize_t n = read(fd, p, len);
		if (n < 0 && errno == EINTR)
			continue;
		if (n <= 0)
			return -1;
		p += n;
		len -= (size_t)n;
	}
	return 0;
}

static int env_fd(const char *name)
{
	const char *s = getenv(name);
	return s ? atoi(s) : -1;
}

static int server_main(int argc, char **argv, char **envp)
{
	int req = env_fd("MC_REQ_FD"), rsp = env_fd("MC_RSP_FD");
	int out = env_fd("MC_OUT_FD"), err = env_fd("MC_ERR_FD"), log = env_fd("MC_LOG_FD");
	size_t cap = 1 << 20;
	char *buf = malloc(cap);

	if (req < 0 || rsp < 0 || out < 0 || err < 0 || log < 0)
		return real_main(argc, argv, envp);
	prctl(PR_SET_PDEATHSIG, SIGKILL);
	write_calls = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (write_calls == MAP_FAILED || !buf)
		_exit(97);

	for (;;) {
		uint32_t len, hdr[4], i;
		int32_t answer[4];
		struct rusage used;
		int status;
		pid_t pid;

		if (read_full(req, &len, 4) < 0)
			_exit(0);
		if (len + 1 > cap) {
			cap = len + 1;
			free(buf);
			buf = malloc(cap);
			if (!buf)
				_exit(97);
		}
		if (read_full(req, buf, len) < 0)
			_exit(0);
		buf[len] = 0;
		memcpy(hdr, buf, 16);
		*write_calls = 0;

		pid = fork();
		if (pid < 0)
			_exit(98);
		if (pid == 0) {
			char *p = buf + 16, *cwd;
			char **cargv, **cenv;
			struct rlimit lim;

			faults = (struct fault *)p;
			nfaults = hdr[1];
			p += nfaults * sizeof(struct fault);
			cwd = p;
			p += strlen(p) + 1;
			cargv = calloc(hdr[2] + 1, sizeof(char *));
			cenv = calloc(hdr[3] + 1, sizeof(char *));
			for (i = 0; i < hdr[2]; i++) {
				cargv[i] = p;
				p += strlen(p) + 1;
			}
			for (i = 0; i < hdr[3]; i++) {
				if (!strncmp(p, "MC_WORLD=", 9)) {
					set_world(p + 9);
					hdr[3]--;
					i--;
				} else {
					cenv[i] = p;
				}
				p += strlen(p) + 1;
			}
			if (cwd[0] && chdir(cwd) != 0)
				_exit(96);
			if (dup2(out, 1) < 0 || dup2(err, 2) < 0)
				_exit(96);
			close(req);
			close(rsp);
			close(out);
			close(err);
			if (watched && (dup2(log, LOG_FD) < 0 || fcntl(LOG_FD, F_SETFD, FD_CLOEXEC) < 0))
				_exit(96);
			close(log);
			signal(SIGPIPE, SIG_DFL);
			lim.rlim_cur = lim.rlim_max = 3ul << 30;
			setrlimit(RLIMIT_AS, &lim);
			lim.rlim_cur = lim.rlim_max = 0;
			setrlimit(RLIMIT_CORE, &lim);
			/* processor time, so that a busy machine makes no difference; the alarm is for what only sleeps */
			if (hdr[0]) {
				lim.rlim_cur = hdr[0];
				lim.rlim_max = hdr[0] + 5;
				setrlimit(RLIMIT_CPU, &lim);
				alarm(300);
			}
			lim.rlim_cur = lim.rlim_max = 256ul << 20;
			setrlimit(RLIMIT_FSIZE, &lim);
			environ = cenv;
			if (watched && watch() != 0)
				log_line("unwatched", "no seccomp filter");
			in_child = 1;
			exit(real_main((int)hdr[2], cargv, cenv));
		}
		while (wait4(pid, &status, 0, &used) < 0 && errno == EINTR)
			;
		answer[0] = status;
		answer[1] = (int32_t)*write_calls;
		answer[2] = (int32_t)((used.ru_utime.tv_sec + used.ru_stime.tv_sec) * 1000
			+ (used.ru_utime.tv_usec + used.ru_stime.tv_usec) / 1000);
		answer[3] = (int32_t)used.ru_maxrss;
		if (raw_write(rsp, answer, 16) != 16)
			_exit(0);
	}
}

int __libc_start_main(int (*main)(int, char **, char **), int argc, char **argv,
	void (*init)(void), void (*fini)(void), void (*rtld_fini)(void), void *stack_end)
{
	int (*next)(int (*)(int, char **, char **), int, char **, void (*)(void), void (*)(void),
		void (*)(void), void *) = dlsym(RTLD_NEXT, "__libc_start_main");
	real_main = main;
	return next(server_main, argc, argv, init, fini, rtld_fini, stack_end);
}
