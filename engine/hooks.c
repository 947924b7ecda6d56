/* Linked into the shared object that holds gaia.  Every call of gaia that
   reaches the environment goes through this table (ld --wrap). */
#define _GNU_SOURCE
#include <argp.h>
#include <err.h>
#include <errno.h>
#include <error.h>
#include <malloc.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

struct gaia_seam {
	void *(*fopen_)(const char *path, const char *mode);
	void (*exit_)(int code, int sudden);
	int (*alloc_ok)(size_t n);
	int (*fileno_)(FILE *);
	int (*stat_)(int fd, const char *path, struct stat *st);     /* path or, without one, fd */
	int (*truncate_)(int fd, const char *path, long long n);
	int (*close_)(FILE *);
	ssize_t (*write_)(int fd, const void *b, size_t n);
	int fill;      /* 0: leave memory as it is, else fill new and freed blocks with fill - 1 */
	int world;     /* which answers environment, clock, process number and chance give */
	int asked;     /* counts these questions */
	int track;     /* remember the blocks in use, for gaia_drop */
};
__attribute__((visibility("default"))) struct gaia_seam gaia_seam_table;
#define S gaia_seam_table

FILE *__wrap_fopen(const char *p, const char *m) { return S.fopen_(p, m); }
FILE *__wrap_fopen64(const char *p, const char *m) { return S.fopen_(p, m); }
_Noreturn void __wrap__exit(int c) { S.exit_(c, 1); for (;;) ; }

int __wrap_fileno(FILE *f) { return S.fileno_(f); }
int __wrap_fileno_unlocked(FILE *f) { return S.fileno_(f); }
int __wrap_fstat(int fd, struct stat *st) { return S.stat_(fd, NULL, st); }
int __wrap_stat(const char *p, struct stat *st) { return S.stat_(-1, p, st); }
int __wrap_lstat(const char *p, struct stat *st) { return S.stat_(-1, p, st); }
int __wrap_fstat64(int fd, struct stat *st) { return S.stat_(fd, NULL, st); }
int __wrap_stat64(const char *p, struct stat *st) { return S.stat_(-1, p, st); }
int __wrap_access(const char *p, int m)
{
	struct stat st;

	(void)m;
	return S.stat_(-1, p, &st);
}
int __wrap_truncate(const char *p, off_t n) { return S.truncate_(-1, p, n); }
int __wrap_ftruncate(int fd, off_t n) { return S.truncate_(fd, NULL, n); }
int __wrap_truncate64(const char *p, off_t n) { return S.truncate_(-1, p, n); }
int __wrap_ftruncate64(int fd, off_t n) { return S.truncate_(fd, NULL, n); }

/* functions to call at exit: before the files are closed, last one first */
static struct { void (*f)(void); void (*g)(int, void *); void *arg; } atEnd[64];
static int nAtEnd;
int __wrap_atexit(void (*f)(void))
{
	if (nAtEnd == 64) return -1;
	atEnd[nAtEnd].f = f;
	atEnd[nAtEnd++].g = NULL;
	return 0;
}
int __wrap_on_exit(void (*g)(int, void *), void *arg)
{
	if (nAtEnd == 64) return -1;
	atEnd[nAtEnd].g = g;
	atEnd[nAtEnd].f = NULL;
	atEnd[nAtEnd++].arg = arg;
	return 0;
}
static int ending(int c)
{
	while (nAtEnd) {
		nAtEnd--;
		if (atEnd[nAtEnd].f) atEnd[nAtEnd].f();
		else atEnd[nAtEnd].g(c, atEnd[nAtEnd].arg);
	}
	return c;
}
int gaia_main(int, char **);
__attribute__((visibility("default"))) int gaia_whole(int argc, char **argv) { return ending(gaia_main(argc, argv)); }
_Noreturn void __wrap_exit(int c) { S.exit_(ending(c), 0); for (;;) ; }
_Noreturn void __wrap__Exit(int c) { S.exit_(c, 1); for (;;) ; }
_Noreturn void __wrap_quick_exit(int c) { S.exit_(c, 1); for (;;) ; }

/* messages of libc that end the program */
static void say(int e, const char *f, va_list a)
{
	fprintf(stderr, "gaia: ");
	if (f) vfprintf(stderr, f, a);
	if (e >= 0) fprintf(stderr, "%s%s", f ? ": " : "", strerror(e));
	fprintf(stderr, "\n");
}
_Noreturn void __wrap_verr(int c, const char *f, va_list a) { say(errno, f, a); __wrap_exit(c); }
_Noreturn void __wrap_verrx(int c, const char *f, va_list a) { say(-1, f, a); __wrap_exit(c); }
_Noreturn void __wrap_err(int c, const char *f, ...) { va_list a; va_start(a, f); say(errno, f, a); __wrap_exit(c); }
_Noreturn void __wrap_errx(int c, const char *f, ...) { va_list a; va_start(a, f); say(-1, f, a); __wrap_exit(c); }
void __wrap_error(int c, int e, const char *f, ...)
{
	va_list a;

	fflush(stdout);
	va_start(a, f);
	say(e ? e : -1, f, a);
	va_end(a);
	if (c) __wrap_exit(c);
}

/* standard streams outlive one run of gaia */
int __wrap_fclose(FILE *f) { return S.close_(f); }
int __real_setvbuf(FILE *, char *, int, size_t);
int __wrap_setvbuf(FILE *f, char *b, int m, size_t n)
{
	return f == stdin || f == stdout || f == stderr ? 0 : __real_setvbuf(f, b, m, n);
}
void __wrap_setbuf(FILE *f, char *b) { __wrap_setvbuf(f, b, b ? _IOFBF : _IONBF, BUFSIZ); }
void __wrap_setlinebuf(FILE *f) { __wrap_setvbuf(f, NULL, _IOLBF, 0); }
ssize_t __wrap_write(int fd, const void *b, size_t n) { return S.write_(fd, b, n); }
int __wrap_vdprintf(int fd, const char *f, va_list a)
{
	char *s = NULL;
	int n = vasprintf(&s, f, a);

	if (n < 0) return -1;
	n = S.write_(fd, s, n);
	free(s);
	return n;
}
int __wrap_dprintf(int fd, const char *f, ...)
{
	va_list a;
	int n;

	va_start(a, f);
	n = __wrap_vdprintf(fd, f, a);
	va_end(a);
	return n;
}
int __wrap___vdprintf_chk(int fd, int flag, const char *f, va_list a) { (void)flag; return __wrap_vdprintf(fd, f, a); }
int __wrap___dprintf_chk(int fd, int flag, const char *f, ...)
{
	va_list a;
	int n;

	(void)flag;
	va_start(a, f);
	n = __wrap_vdprintf(fd, f, a);
	va_end(a);
	return n;
}

/* what else a program can ask its surroundings */
static const char *answer(void)
{
	static const char *const v[] = {NULL, "", "1", "0", "xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", "-o z.bin", "%s%n", "y", "65535", "80", "40", "132"};

	return v[S.world % (int)(sizeof v / sizeof *v)];
}
static unsigned chance(void) { S.asked++; return S.world * 2654435761u + S.asked * 40503u * (S.world + 1); }
char *__wrap_getenv(const char *n) { (void)n; S.asked++; return (char *)answer(); }
char *__wrap_secure_getenv(const char *n) { return __wrap_getenv(n); }
time_t __wrap_time(time_t *t) { time_t r = 1700000000 + chance() % 100000000; if (t) *t = r; return r; }
clock_t __wrap_clock(void) { return chance() % 10000000; }
int __wrap_gettimeofday(struct timeval *t, void *z) { (void)z; if (t) { t->tv_sec = __wrap_time(NULL); t->tv_usec = chance() % 1000000; } return 0; }
int __wrap_clock_gettime(clockid_t c, struct timespec *t) { (void)c; if (t) { t->tv_sec = __wrap_time(NULL); t->tv_nsec = chance() % 1000000000; } return 0; }
pid_t __wrap_getpid(void) { return 2 + chance() % 30000; }
pid_t __wrap_getppid(void) { return 2 + chance() % 30000; }
int __wrap_rand(void) { return chance() & RAND_MAX; }
long __wrap_random(void) { return chance() & RAND_MAX; }
unsigned __wrap_arc4random(void) { return chance(); }
void __wrap_srand(unsigned s) { (void)s; }
void __wrap_srandom(unsigned s) { (void)s; }
int __wrap_isatty(int fd) { (void)fd; S.asked++; return S.world & 1; }

static int ok(size_t n)
{
	if (S.alloc_ok && !S.alloc_ok(n)) {
		errno = ENOMEM;
		return 0;
	}
	return 1;
}
void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
void *__real_reallocarray(void *, size_t, size_t);
char *__real_strdup(const char *);
char *__real_strndup(const char *, size_t);
ssize_t __real_getline(char **, size_t *, FILE *);
ssize_t __real___getdelim(char **, size_t *, int, FILE *);
ssize_t __real_getdelim(char **, size_t *, int, FILE *);
void __real_free(void *);
/* blocks in use by a run that will be killed */
static void **live;
static size_t nLive, roomLive;
static void *took(void *p)
{
	if (!S.track || !p) return p;
	if (nLive == roomLive) {
		void **q = __real_realloc(live, (roomLive = roomLive ? 2 * roomLive : 1024) * sizeof *q);

		if (!q) return p;
		live = q;
	}
	live[nLive++] = p;
	return p;
}
static void gave(void *p)
{
	if (!p) return;
	for (size_t i = nLive; i--;)
		if (live[i] == p) {
			live[i] = live[--nLive];
			return;
		}
}
__attribute__((visibility("default"))) void gaia_drop(void)
{
	for (size_t i = 0; i < nLive; i++) __real_free(live[i]);
	nLive = roomLive = 0;
	__real_free(live);
	live = NULL;
	nAtEnd = 0;
}
static void *filled(void *p)
{
	if (p && S.fill) memset(p, S.fill - 1, malloc_usable_size(p));
	return p;
}
void __wrap_free(void *p) { gave(p); __real_free(filled(p)); }
void *__wrap_malloc(size_t n) { return ok(n) ? took(filled(__real_malloc(n))) : NULL; }
void *__wrap_calloc(size_t a, size_t b) { return ok(a * b) ? took(__real_calloc(a, b)) : NULL; }
void *__wrap_realloc(void *p, size_t n)
{
	size_t had = p && S.fill ? malloc_usable_size(p) : 0;
	char *q;

	if (!ok(n)) return NULL;
	q = __real_realloc(p, n);
	if (q) {
		gave(p);
		took(q);
	}
	if (q && S.fill && malloc_usable_size(q) > had) memset(q + had, S.fill - 1, malloc_usable_size(q) - had);
	return q;
}
void *__wrap_reallocarray(void *p, size_t a, size_t b)
{
	if (b && a > (size_t)-1 / b) return __real_reallocarray(p, a, b);
	return __wrap_realloc(p, a * b);
}
char *__wrap_strdup(const char *s) { return ok(strlen(s)) ? took(__real_strdup(s)) : NULL; }
char *__wrap_strndup(const char *s, size_t n) { return ok(n) ? took(__real_strndup(s, n)) : NULL; }
/* getline allocates (or grows) its buffer: one decision per call that has to */
ssize_t __wrap_getline(char **l, size_t *n, FILE *f)
{
	if (!*l && !ok(120)) return -1;
	return __real_getline(l, n, f);
}
ssize_t __wrap_getdelim(char **l, size_t *n, int d, FILE *f)
{
	if (!*l && !ok(120)) return -1;
	return __real_getdelim(l, n, d, f);
}
ssize_t __wrap___getdelim(char **l, size_t *n, int d, FILE *f)
{
	if (!*l && !ok(120)) return -1;
	return __real___getdelim(l, n, d, f);
}
/* libc reads the option array without instrumentation: read it here first, the
   way argp does, so that the sanitizer sees a missing end mark */
error_t __real_argp_parse(const struct argp *, int, char **, unsigned, int *, void *);
error_t __wrap_argp_parse(const struct argp *a, int argc, char **argv, unsigned flags, int *ix, void *in)
{
	const volatile struct argp_option *o = a ? a->options : NULL;

	if (o)
		while (o->key || o->name || o->doc || o->group) o++;
	return __real_argp_parse(a, argc, argv, flags, ix, in);
}
