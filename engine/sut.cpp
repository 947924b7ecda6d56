#include "sut.h"
#include <cerrno>
#include <cstdlib>
#include <cstring>
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <link.h>
#include <stdio_ext.h>
#include <sys/stat.h>
#include <unistd.h>

struct gaia_seam {
	void *(*fopen_)(const char *, const char *);
	void (*exit_)(int, int);
	int (*alloc_ok)(size_t);
	int (*fileno_)(FILE *);
	int (*stat_)(int, const char *, struct stat *);
	int (*truncate_)(int, const char *, long long);
	int (*close_)(FILE *);
	ssize_t (*write_)(int, const void *, size_t);
	int fill, world, asked, track;
};

static const size_t SINK_MAX = 16u << 20;
static int (*gaia_main)(int, char **);
static gaia_seam *seam;
static void (*dropBlocks)(void);
static std::vector<char> snapshot;
static char *dataStart;

static struct {
	std::string_view src;
	const Plan *plan;
	Outcome *o;
	const char *name;
	std::string *dir;
	bool real, log;
	jmp_buf jb;
	int code;
	struct F { FILE *f; int kind; size_t pos; bool open, append, gone; } files[8];
	int nfiles;
	uint8_t *sink;
	size_t sinkLen;
	int reads;
	bool outExists, leftovers, dying;
} S;
static FILE *cap;
static const char *const OUTNAME = "out.bin";

const char *ioName(int k)
{
	static const char *const n[] = {"open source", "open output", "read source", "write output",
		"position output", "close source", "close output"};
	return n[k];
}

// overwrites the stack that gaia's next calls will use
__attribute__((noinline)) static void paint(int fill)
{
	char a[8192];
	memset(a, fill - 1, sizeof a);
	asm volatile("" : : "r"(a) : "memory");
}

// the process is killed here
[[noreturn]] static void die() { S.o->stopped = true; S.dying = true; S.code = 137; longjmp(S.jb, 2); }
static size_t tornPart(size_t n, int torn) { return torn == 1 ? n > 0 : torn == 2 ? n / 2 : torn == 3 ? n - (n > 0) : torn == 4 ? n / 4 : torn == 5 ? n - n / 4 : 0; }

static bool ioFails(int kind)
{
	if (S.plan && S.plan->fill) paint(S.plan->fill);
	int i = S.o->ioCalls++;
	if (S.log) S.o->ioLog.push_back(kind);
	const Plan *p = S.plan;
	if (p && p->stop == i && !S.dying) die();
	if (!p || p->failIo[0] < 0) return false;
	if (i == p->failIo[0] || i == p->failIo[1] || (p->failIoOn && i > p->failIo[0])) {
		S.o->faultsHit++;
		errno = p->err ? p->err : kind <= IO_OPEN_OUT ? EACCES : kind == IO_WRITE ? ENOSPC : EIO;
		return true;
	}
	return false;
}
static int allocOk(size_t size)
{
	if (S.plan && S.plan->fill) paint(S.plan->fill);
	int i = S.o->allocs++;
	const Plan *p = S.plan;
	if (!p || (p->failAlloc < 0 && !p->failSize)) return 1;
	if (p->failSize ? size >= (size_t)p->failSize : i == p->failAlloc || i == p->failAlloc2 || (p->failAllocOn && i > p->failAlloc)) { S.o->faultsHit++; return 0; }
	return 1;
}

static ssize_t capWrite(void *, const char *b, size_t n) { S.o->out.append(b, n); return n; }

static ssize_t cRead(void *c, char *b, size_t n)
{
	auto &f = *(decltype(&S.files[0]))c;
	if (f.kind == 1) {
		size_t r = f.pos < S.sinkLen ? S.sinkLen - f.pos : 0;
		if (r > n) r = n;
		memcpy(b, S.sink + f.pos, r); f.pos += r;
		return r;
	}
	if (ioFails(IO_READ)) return -1;
	size_t r = S.src.size() - f.pos;
	if (r > n) r = n;
	if (S.plan) {
		size_t lim = (size_t)S.reads < S.plan->cuts.size() ? S.plan->cuts[S.reads] : S.plan->readChunk;
		if (lim && r > lim) r = lim;
	}
	S.reads++;
	memcpy(b, S.src.data() + f.pos, r); f.pos += r;
	return r;
}
static ssize_t cWrite(void *c, const char *b, size_t n)
{
	auto &f = *(decltype(&S.files[0]))c;
	if (f.kind == 0) { errno = EBADF; return 0; }
	if (S.plan && S.plan->stop == S.o->ioCalls && S.plan->torn && !S.dying && !f.append && f.pos + n <= SINK_MAX) {
		n = tornPart(n, S.plan->torn);
		memcpy(S.sink + f.pos, b, n);
		if (f.pos + n > S.sinkLen) S.sinkLen = f.pos + n;
	}
	bool failing = ioFails(IO_WRITE);
	if (failing && !S.plan->part) return 0;
	if (failing) n /= 2;
	if (f.append) f.pos = S.sinkLen;
	if (f.pos + n > SINK_MAX) { S.o->overflow = true; errno = EFBIG; return 0; }
	memcpy(S.sink + f.pos, b, n);
	f.pos += n;
	if (f.pos > S.sinkLen) S.sinkLen = f.pos;
	return n;
}
static int cSeek(void *c, off64_t *off, int wh)
{
	auto &f = *(decltype(&S.files[0]))c;
	if (f.kind == 1 && ioFails(IO_SEEK_OUT)) return -1;
	off64_t base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (off64_t)f.pos : f.kind ? (off64_t)S.sinkLen : (off64_t)S.src.size();
	off64_t p = base + *off;
	if (p < 0) { errno = EINVAL; return -1; }
	f.pos = p; *off = p;
	return 0;
}
static int cClose(void *c)
{
	auto &f = *(decltype(&S.files[0]))c;
	f.open = false;
	return ioFails(f.kind ? IO_CLOSE_OUT : IO_CLOSE_SRC) ? EOF : 0;
}

// the same file, also when it is named by its path in this directory
static bool named(const char *p, const char *name)
{
	auto plain = [](const char *&q) { while (q[0] == '.' && q[1] == '/') for (q += 2; *q == '/'; q++) {} };
	plain(name);
	if (*p == '/' && *name != '/') {
		char cwd[4096];
		size_t n = getcwd(cwd, sizeof cwd) ? strlen(cwd) : 0;
		if (n && !strncmp(p, cwd, n) && p[n] == '/') p += n + 1;
	}
	plain(p);
	return !strcmp(p, name);
}
static int kindOfPath(const char *p) { return named(p, S.name) ? 0 : named(p, OUTNAME) ? 1 : -1; }

static void *seamFopen(const char *p, const char *m)
{
	int kind = kindOfPath(p);
	if (S.real && kind < 0 && S.nfiles < 8) {      // a file of its own, beside the two
		if (ioFails(*m == 'r' ? IO_OPEN_SRC : IO_OPEN_OUT)) return nullptr;
		FILE *f = fopen(p, m);
		if (f) { S.files[S.nfiles++] = {f, 2, 0, true, false, false}; S.leftovers = true; }
		return f;
	}
	if (kind < 0 || S.nfiles == 8) { errno = ENOENT; return nullptr; }
	if (ioFails(kind ? IO_OPEN_OUT : IO_OPEN_SRC)) return nullptr;
	auto &f = S.files[S.nfiles];
	f = {nullptr, kind, 0, true, *m == 'a', false};
	if (*m != 'r' && kind == 0) { errno = EACCES; return nullptr; }   // never write the source
	if (*m != 'r') S.o->outOpened = true;
	if (kind == 1 && *m == 'r' && !S.outExists) { errno = ENOENT; return nullptr; }
	if (kind == 1 && *m == 'w' && strchr(m, 'x') && S.outExists) { errno = EEXIST; return nullptr; }
	if (*m == 'w') { memset(S.sink, 0, S.sinkLen); S.sinkLen = 0; }
	if (kind == 1) S.outExists = true;
	if (S.real) f.f = fopen((*S.dir + "/" + (kind ? OUTNAME : S.name)).c_str(), m);
	else f.f = fopencookie(&f, m, {cRead, cWrite, cSeek, cClose});
	if (!f.f) return nullptr;
	S.nfiles++;
	return f.f;
}
// descriptors of the two files, for code that asks about them
static const int FD0 = 9000;
static int seamFileno(FILE *f)
{
	if (!S.real) for (int i = 0; i < S.nfiles; i++) if (S.files[i].f == f && S.files[i].open) return FD0 + i;
	return fileno(f);
}
static int kindOf(int fd, const char *path)
{
	if (path) return kindOfPath(path);
	return fd >= FD0 && fd < FD0 + S.nfiles ? S.files[fd - FD0].kind : -1;
}
static int seamStat(int fd, const char *path, struct stat *st)
{
	int k = S.real ? -1 : kindOf(fd, path);
	if (k < 0) return path ? stat(path, st) : fstat(fd, st);
	if (k && !S.outExists) { errno = ENOENT; return -1; }
	*st = {};
	st->st_dev = 77 + k; st->st_ino = 7001;   // alike, but on other devices
	st->st_nlink = 1; st->st_mode = S_IFREG | 0644;
	st->st_size = k ? S.sinkLen : S.src.size();
	st->st_blksize = 4096; st->st_blocks = (st->st_size + 511) / 512;
	return 0;
}
static int seamTruncate(int fd, const char *path, long long n)
{
	int k = S.real ? -1 : kindOf(fd, path);
	if (k < 0) return path ? truncate(path, n) : ftruncate(fd, n);
	if (k == 0) { errno = EACCES; return -1; }
	if (!S.outExists) { errno = ENOENT; return -1; }
	if (n < 0 || (size_t)n > SINK_MAX) { errno = EINVAL; return -1; }
	if ((size_t)n < S.sinkLen) memset(S.sink + n, 0, S.sinkLen - n);
	S.sinkLen = n;
	return 0;
}
static void seamExit(int c, int sudden) { S.code = c; longjmp(S.jb, sudden ? 2 : 1); }
static int seamClose(FILE *f)
{
	int k = -1;
	for (int i = 0; i < S.nfiles; i++) if (S.files[i].f == f && S.files[i].open) { S.files[i].open = false; k = i; }
	if (f == cap) return fflush(cap);
	int r = f == stdin ? 0 : fclose(f);
	if (k >= 0) S.files[k].gone = true;
	return r;
}
static ssize_t seamWrite(int fd, const void *b, size_t n)
{
	if (!S.real && fd >= FD0 && fd < FD0 + S.nfiles) {
		ssize_t r = n ? cWrite(&S.files[fd - FD0], (const char *)b, n) : 0;
		return n && !r ? -1 : r;
	}
	if (fd != 1 && fd != 2) return write(fd, b, n);
	S.o->out.append((const char *)b, n);
	return n;
}

static int phdrCb(dl_phdr_info *i, size_t, void *arg)
{
	auto base = (ElfW(Addr))arg;
	if (i->dlpi_addr != base) return 0;
	for (int k = 0; k < i->dlpi_phnum; k++) {
		auto &ph = i->dlpi_phdr[k];
		if (ph.p_type == PT_LOAD && (ph.p_flags & PF_W)) {
			dataStart = (char *)(base + ph.p_vaddr);
			snapshot.resize(ph.p_memsz);
		}
	}
	return 1;
}

// Copies the instrumented object's data without ASan looking at redzones.
__attribute__((no_sanitize("address"), noinline)) static void rawCopy(char *d, const char *s, size_t n)
{
	auto *dd = (volatile uint64_t *)d; auto *ss = (const volatile uint64_t *)s;
	size_t i = 0;
	for (; i + 8 <= n; i += 8, dd++, ss++) if (*dd != *ss) *dd = *ss;
	for (; i < n; i++) ((volatile char *)d)[i] = s[i];
}

bool Sut::load(const char *lib, std::string &err)
{
	void *h = dlopen(lib, RTLD_NOW | RTLD_LOCAL);
	if (!h) { err = dlerror(); return false; }
	gaia_main = (int (*)(int, char **))dlsym(h, "gaia_whole");
	seam = (gaia_seam *)dlsym(h, "gaia_seam_table");
	if (!gaia_main || !seam) { err = "symbols missing"; return false; }
	dropBlocks = (void (*)(void))dlsym(h, "gaia_drop");
	*seam = {seamFopen, seamExit, allocOk, seamFileno, seamStat, seamTruncate, seamClose, seamWrite, 0, 0, 0, 0};
	link_map *lm;
	dlinfo(h, RTLD_DI_LINKMAP, &lm);
	dl_iterate_phdr(phdrCb, (void *)lm->l_addr);
	if (dataStart) rawCopy(snapshot.data(), dataStart, snapshot.size());
	S.sink = (uint8_t *)calloc(1, SINK_MAX);
	cap = fopencookie(nullptr, "w", {nullptr, capWrite, nullptr, nullptr});
	setvbuf(cap, nullptr, _IOFBF, 1 << 14);
	return true;
}

static void emptyDir(const std::string &dir)
{
	if (DIR *d = opendir(dir.c_str())) {
		while (dirent *e = readdir(d)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) unlink((dir + "/" + e->d_name).c_str());
		closedir(d);
	}
}

void Sut::run(std::string_view src, Outcome &o, const Plan *plan, const char *name)
{
	o.rc = -1; o.out.clear(); o.outOpened = o.overflow = false;
	o.ioCalls = o.allocs = o.faultsHit = 0; o.ioLog.clear(); o.stopped = false;
	S.src = src; S.plan = plan; S.o = &o; S.name = name; S.nfiles = 0; S.reads = 0;
	S.real = realFiles; S.log = logIo; S.dir = &dir;
	bool again = plan && plan->again;
	S.dying = false;
	if (!again) { memset(S.sink, 0, S.sinkLen); S.sinkLen = 0; S.outExists = plan && plan->stale >= 0; }
	if (S.outExists && !again) { S.sinkLen = plan->stale; memset(S.sink, 'w', S.sinkLen); }
	if (dataStart) rawCopy(dataStart, snapshot.data(), snapshot.size());
	char cwd[4096];
	uint64_t had = 0;
	bool mortal = plan && plan->stop >= 0;
	if (realFiles) {
		if (S.leftovers && !again) emptyDir(dir);
		if (!again) S.leftovers = false;
		if (plan && plan->stop >= 0) S.leftovers = true;
		std::string p = dir + "/" + name;
		FILE *f = fopen(p.c_str(), "wb");
		fwrite(src.data(), 1, src.size(), f); fclose(f);
		if (!again) unlink((dir + "/" + OUTNAME).c_str());
		if (S.outExists && !again) {
			std::string old(plan->stale, 'w');
			f = fopen((dir + "/" + OUTNAME).c_str(), "wb");
			fwrite(old.data(), 1, old.size(), f); fclose(f);
		}
		if (!getcwd(cwd, sizeof cwd) || chdir(dir.c_str())) abort();
		if (mortal) for (int i = 3; i < 64; i++) if (fcntl(i, F_GETFD) >= 0) had |= 1ull << i;
	}
	FILE *so = stdout, *se = stderr;
	fflush(stdout);
	seam->track = mortal;
	if (mortal) setvbuf(cap, nullptr, _IONBF, 0);      // what was printed before the end counts
	stdout = cap; stderr = cap;
	char a0[] = "gaia", a2[] = "-o";
	std::string nm = name, on = OUTNAME;
	char *argv[] = {a0, nm.data(), a2, on.data(), nullptr};
	S.name = nm.c_str();
	int j = setjmp(S.jb);
	seam->fill = plan ? plan->fill : 0;
	seam->world = plan ? plan->world : 0;
	if (!j) {
		seam->asked = 0;
		if (seam->fill) paint(seam->fill);
		optind = 0; opterr = 1;        // getopt starts afresh
		errno = 0;
		S.code = gaia_main(4, argv);
	}
	int rc = S.code;
	seam->fill = 0;
	o.asked = seam->asked;
	// what the C library does at exit, unless it was _exit
	if (j == 2) __fpurge(cap);
	for (int i = 0; i < S.nfiles; i++)
		if (S.files[i].open || (S.dying && !S.files[i].gone)) {
			if (j == 2) __fpurge(S.files[i].f);
			fclose(S.files[i].f);
			S.files[i].open = false; S.files[i].gone = true;
		}
	fflush(cap);
	stdout = so; stderr = se;
	clearerr(cap);
	S.plan = nullptr;
	if (mortal) { setvbuf(cap, nullptr, _IOFBF, 1 << 14); dropBlocks(); seam->track = 0; }
	o.rc = rc & 0xFF;
	if (realFiles) {
		fflush(nullptr);
		if (S.dying) for (int i = 3; i < 64; i++) if (!(had >> i & 1)) close(i);
		FILE *f = fopen((dir + "/" + OUTNAME).c_str(), "rb");
		S.outExists = f;
		if (f) { o.outOpened = true; S.sinkLen = fread(S.sink, 1, SINK_MAX, f); fclose(f); }
		if (chdir(cwd)) abort();
	}
	o.img = S.sink; o.len = S.sinkLen;
	o.parse();
}

void Outcome::parse()
{
	success = summaryOk = false;
	bytes = hexBytes = symbols = 0;
	const char *p = strstr(out.c_str(), "Assembly successful.");
	if (!p) return;
	success = true;
	char tail = 0;
	if (sscanf(p, "Assembly successful.\n%u (0x%x) bytes assembled.\n%u symbols.%c", &bytes, &hexBytes, &symbols, &tail) == 4)
		summaryOk = tail == '\n';
}
