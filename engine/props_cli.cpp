// C20, C21 and the real-program part of C16: the gaia executable itself, run
// as an unprivileged user in a scratch directory of its own.
#include <ctime>
#include <set>
#include "props.h"
#include <cerrno>
#include <dirent.h>
#include <fcntl.h>
#include <grp.h>
#include <signal.h>
#include <sys/ioctl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <termios.h>
#include <unistd.h>
#ifdef __x86_64__
#include <sys/ptrace.h>
#include <sys/syscall.h>
#include <sys/user.h>
#endif

namespace {

struct Node {
	char kind = 'f';             // f file, d directory, l symbolic link, h hard link
	string data;                 // content or target
	mode_t mode = 0644;
	bool foreign = false;        // owned by root
	bool operator==(const Node &o) const { return kind == o.kind && data == o.data && mode == o.mode; }
};
typedef std::map<string, Node> Tree;

struct Sandbox {
	string dir, work, bin;
	bool dropped = false;
	Tree current;
	bool fresh = false;
};
Sandbox sb;      // one per worker process

void put(const string &path, const string &s)
{
	int fd = open(path.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0644);
	if (fd < 0) { fprintf(stderr, "%s: %s\n", path.c_str(), strerror(errno)); _exit(9); }
	for (size_t p = 0; p < s.size();) { ssize_t n = write(fd, s.data() + p, s.size() - p); if (n <= 0) _exit(9); p += n; }
	close(fd);
}
string get(const string &path)
{
	string s; char b[65536]; ssize_t n;
	int fd = open(path.c_str(), O_RDONLY | O_NOFOLLOW | O_NONBLOCK);
	if (fd < 0) return "?unreadable";
	while ((n = read(fd, b, sizeof b)) > 0) s.append(b, n);
	close(fd);
	return s;
}
void scan(const string &base, const string &rel, Tree &t)
{
	DIR *d = opendir((base + "/" + rel).c_str());
	if (!d) return;
	while (dirent *e = readdir(d)) {
		string n = e->d_name;
		if (n == "." || n == "..") continue;
		string r = rel.empty() ? n : rel + "/" + n, p = base + "/" + r;
		struct stat st;
		if (lstat(p.c_str(), &st)) continue;
		Node x; x.mode = st.st_mode & 07777;
		if (S_ISDIR(st.st_mode)) { x.kind = 'd'; t[r] = x; scan(base, r, t); continue; }
		if (S_ISLNK(st.st_mode)) { char b[4096]; ssize_t k = readlink(p.c_str(), b, sizeof b); x.kind = 'l'; x.data.assign(b, k > 0 ? k : 0); x.mode = 0777; t[r] = x; continue; }
		x.data = get(p);
		t[r] = x;
	}
	closedir(d);
}
void wipe(const string &base)
{
	Tree t; scan(base, "", t);
	for (auto &[r, n] : t) if (n.kind == 'd') chmod((base + "/" + r).c_str(), 0700);
	t.clear(); scan(base, "", t);
	for (auto i = t.rbegin(); i != t.rend(); ++i)
		if (i->second.kind == 'd') rmdir((base + "/" + i->first).c_str()); else unlink((base + "/" + i->first).c_str());
}
// lays out t (names sorted so that directories come before what is in them)
void layout(const Tree &t)
{
	wipe(sb.work);
	for (auto &[r, n] : t) {
		string p = sb.work + "/" + r;
		if (n.kind == 'd') { if (mkdir(p.c_str(), 0700)) _exit(9); }
		else if (n.kind == 'l') { if (symlink(n.data.c_str(), p.c_str())) _exit(9); }
		else if (n.kind == 'f') put(p, n.data);
	}
	for (auto &[r, n] : t) if (n.kind == 'h' && link((sb.work + "/" + n.data).c_str(), (sb.work + "/" + r).c_str())) _exit(9);
	for (auto &[r, n] : t) if (n.kind != 'l' && n.kind != 'h') chmod((sb.work + "/" + r).c_str(), n.mode);
}

void copyFile(const string &a, const string &b)
{
	put(b, get(a));
	chmod(b.c_str(), 0755);
}

// becomes an unprivileged user with a directory of its own; once per worker
void enter(Worker &w)
{
	if (!sb.dir.empty()) return;
	sb.dir = cfg.tmp + "/cli-" + std::to_string(getpid());
	mkdir(sb.dir.c_str(), 0755);
	sb.bin = sb.dir + "/gaia";
	copyFile(cfg.bin, sb.bin);
	sb.work = sb.dir + "/work";
	mkdir(sb.work.c_str(), 0755);
	if (getuid() == 0) {
		if (chown(sb.work.c_str(), 65534, 65534)) {}
		if (!setgroups(0, nullptr) && !setgid(65534) && !setuid(65534)) sb.dropped = true;
	} else sb.dropped = true;
	if (chdir(sb.work.c_str())) { perror("chdir"); _exit(9); }
	signal(SIGPIPE, SIG_IGN);
	(void)w;
}

struct Ran { int rc; bool sig; string out; bool success; };
// the surroundings of a run
struct Around {
	vector<string> env = {"LC_ALL=C"};
	string stdin_ = "/dev/null", cwd, name = "gaia";
	int umask_ = -1, stack = 0, seconds = 10;
	char output = 'p';           // what standard output is: pipe, terminal, socket, file
	bool xfsz = false;           // a file that gets too large kills
	long srcTime = -1, outTime = -1;     // when the files were changed last (C26)
	int srcMode = 0, outMode = 0;
};
bool terminal(int pfd[2])
{
	if ((pfd[0] = posix_openpt(O_RDWR | O_NOCTTY | O_CLOEXEC)) < 0) return false;
	termios tm;
	pfd[1] = grantpt(pfd[0]) || unlockpt(pfd[0]) ? -1 : open(ptsname(pfd[0]), O_RDWR | O_NOCTTY | O_CLOEXEC);
	if (pfd[1] < 0 || tcgetattr(pfd[1], &tm)) { close(pfd[0]); if (pfd[1] >= 0) close(pfd[1]); return false; }
	cfmakeraw(&tm);
	tcsetattr(pfd[1], TCSANOW, &tm);
	winsize ws{};
	ws.ws_row = 24; ws.ws_col = 20;
	ioctl(pfd[1], TIOCSWINSZ, &ws);
	return true;
}

Ran execGaia(const vector<string> &args, long fsize = -1, int nofile = -1, const Around &ar = Around())
{
	int pfd[2];
	if (ar.output == 't' && terminal(pfd)) ;
	else if (ar.output == 's') {
		if (socketpair(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0, pfd)) _exit(9);
	} else if (ar.output == 'f') {
		pfd[1] = memfd_create("output", MFD_CLOEXEC);
		pfd[0] = dup(pfd[1]);
		if (pfd[0] < 0) _exit(9);
	} else if (pipe2(pfd, O_CLOEXEC)) _exit(9);
	vector<char *> av, env; av.push_back((char *)ar.name.c_str());
	for (auto &e : ar.env) env.push_back((char *)e.c_str());
	env.push_back(nullptr);
	for (auto &a : args) av.push_back((char *)a.c_str());
	av.push_back(nullptr);
	pid_t p = vfork();
	if (!p) {
		int nul = open(ar.stdin_.c_str(), O_RDONLY | O_NONBLOCK);
		if (nul < 0) close(0); else dup2(nul, 0);
		if (ar.output == 't' && ar.stdin_ == "/dev/null") { setsid(); dup2(pfd[1], 0); ioctl(pfd[1], TIOCSCTTY, 0); }
		if (ar.umask_ >= 0) umask(ar.umask_);
		if (!ar.cwd.empty() && chdir(ar.cwd.c_str())) _exit(126);
		if (ar.stack) { rlimit l{(rlim_t)ar.stack, (rlim_t)ar.stack}; setrlimit(RLIMIT_STACK, &l); }
		dup2(pfd[1], 1); dup2(pfd[1], 2); if (nul > 2) close(nul);
		alarm(ar.seconds);
		if (fsize >= 0) { signal(SIGXFSZ, ar.xfsz ? SIG_DFL : SIG_IGN); rlimit l{(rlim_t)fsize, (rlim_t)fsize}; setrlimit(RLIMIT_FSIZE, &l); }
		if (nofile >= 0) { rlimit l{(rlim_t)nofile, (rlim_t)nofile}; setrlimit(RLIMIT_NOFILE, &l); }
		execve(sb.bin.c_str(), av.data(), env.data());
		_exit(126);
	}
	close(pfd[1]);
	Ran r{};
	char b[4096]; ssize_t n;
	int st;
	if (ar.output == 'f') { waitpid(p, &st, 0); lseek(pfd[0], 0, SEEK_SET); }
	while ((n = read(pfd[0], b, sizeof b)) > 0) r.out.append(b, n);
	close(pfd[0]);
	if (ar.output != 'f') waitpid(p, &st, 0);
	r.sig = WIFSIGNALED(st);
	r.rc = r.sig ? 128 + WTERMSIG(st) : WEXITSTATUS(st);
	r.success = r.out.find("Assembly successful.") != string::npos;
	return r;
}

// The names below the scratch directory that a run asks the system for.
bool sought(const vector<string> &args, const Around &ar, std::set<string> &names)
{
#ifdef __x86_64__
	vector<char *> av, env; av.push_back((char *)"gaia");
	for (auto &a : args) av.push_back((char *)a.c_str());
	av.push_back(nullptr);
	for (auto &e : ar.env) env.push_back((char *)e.c_str());
	env.push_back(nullptr);
	pid_t p = fork();
	if (!p) {
		int nul = open("/dev/null", O_RDWR);
		dup2(nul, 0); dup2(nul, 1); dup2(nul, 2);
		if (!ar.cwd.empty() && chdir(ar.cwd.c_str())) _exit(126);
		alarm(10);
		if (ptrace(PTRACE_TRACEME, 0, nullptr, nullptr)) _exit(125);
		execve(sb.bin.c_str(), av.data(), env.data());
		_exit(126);
	}
	int st;
	if (waitpid(p, &st, 0) != p || !WIFSTOPPED(st)) return false;
	ptrace(PTRACE_SETOPTIONS, p, nullptr, (void *)(PTRACE_O_TRACESYSGOOD | PTRACE_O_EXITKILL));
	string cwd = ar.cwd.empty() ? sb.work : ar.cwd;
	auto note = [&](u64 at) {
		string s;
		char b[64];
		for (u64 q = at; s.size() < 4096;) {
			size_t n = 64 - q % 64;
			iovec l{b, n}, f{(void *)q, n};
			ssize_t k = process_vm_readv(p, &l, 1, &f, 1, 0);
			if (k <= 0) return;
			const void *z = memchr(b, 0, k);
			s.append(b, z ? (const char *)z - b : k);
			if (z) break;
			q += k;
		}
		if (s.empty()) return;
		if (s[0] != '/') s = cwd + "/" + s;
		vector<string> el;
		for (size_t i = 0; i < s.size();) {
			size_t e = s.find('/', i); if (e == string::npos) e = s.size();
			string x = s.substr(i, e - i); i = e + 1;
			if (x.empty() || x == ".") continue;
			if (x == "..") { if (!el.empty()) el.pop_back(); continue; }
			el.push_back(x);
		}
		s.clear();
		for (auto &x : el) s += "/" + x;
		if (s.rfind(sb.work + "/", 0) == 0) names.insert(s.substr(sb.work.size() + 1));
	};
	bool entry = true;
	for (long sig = 0;;) {
		if (ptrace(PTRACE_SYSCALL, p, nullptr, (void *)sig) || waitpid(p, &st, 0) != p) { kill(p, SIGKILL); waitpid(p, &st, 0); return false; }
		if (WIFEXITED(st) || WIFSIGNALED(st)) return true;
		sig = WSTOPSIG(st) == (SIGTRAP | 0x80) || WSTOPSIG(st) == SIGTRAP ? 0 : WSTOPSIG(st);
		if (WSTOPSIG(st) != (SIGTRAP | 0x80)) continue;
		user_regs_struct g;
		if (entry && !ptrace(PTRACE_GETREGS, p, nullptr, &g))
			switch (g.orig_rax) {
			case SYS_open: case SYS_stat: case SYS_lstat: case SYS_access: case SYS_unlink: case SYS_mkdir: case SYS_creat: case SYS_truncate: case SYS_chmod: case SYS_chown: case SYS_readlink: case SYS_rmdir: case SYS_mknod: case SYS_utime: case SYS_utimes: case SYS_statfs: case SYS_getxattr:
				note(g.rdi); break;
			case SYS_rename: case SYS_link: note(g.rdi); note(g.rsi); break;
			case SYS_symlink: note(g.rsi); break;
			case SYS_openat: case SYS_newfstatat: case SYS_statx: case SYS_faccessat: case 439: case SYS_unlinkat: case SYS_mkdirat: case SYS_fchmodat: case SYS_readlinkat: case SYS_mknodat: case SYS_utimensat: case 437:
				note(g.rsi); break;
			case SYS_renameat: case SYS_renameat2: case SYS_linkat: note(g.rsi); note(g.r10); break;
			case SYS_symlinkat: note(g.rdx); break;
			}
		entry = !entry;
	}
#else
	(void)args; (void)ar; (void)names;
	return false;
#endif
}

string treeText(const Tree &t)
{
	string s;
	for (auto &[r, n] : t) {
		s += string("  ") + n.kind + " " + r;
		char m[16]; snprintf(m, sizeof m, " %04o ", n.mode);
		s += m;
		s += n.data.size() > 300 ? std::to_string(n.data.size()) + " bytes \"" + shown(n.data, 60) + "\"" : "\"" + shown(n.data) + "\"";
		s += "\n";
	}
	return s;
}
string argText(const vector<string> &a) { string s = "gaia"; for (auto &x : a) s += " '" + shown(x) + "'"; return s; }

bool bad(Worker &w, const string &why, const Tree &before, const vector<string> &args, const Ran &r)
{
	w.why = argText(args) + ": " + why;
	w.customViolation("real program run in a directory with these files:\n" + treeText(before) + "command: " + argText(args) +
		"\nexit status " + std::to_string(r.rc) + ", output:\n" + r.out + "\nwrong: " + why + "\n");
	return false;
}
void counted(Worker &w, const Ran &r, u64 extra)
{
	Outcome o; o.rc = r.rc; o.out = r.out + std::to_string(extra);
	w.count(o);
	w.c->beat.fetch_add(1);
}

// what a name leads to: the name of the real entry, "" if there is none
// a path as the tree names it
string plainPath(const Tree &t, string name)
{
	for (size_t p; (p = name.find("//")) != string::npos;) name.erase(p, 1);
	while (name.rfind("./", 0) == 0 && name.size() > 2) name = name.substr(2);
	if (name.rfind(sb.work + "/", 0) == 0) name = name.substr(sb.work.size() + 1);
	for (size_t p; (p = name.find("/../")) != string::npos;) {
		auto d = t.find(name.substr(0, p));
		if (d == t.end() || d->second.kind != 'd' || name.find('/') != p) break;
		name = name.substr(p + 4);
	}
	return name;
}
string follow(const Tree &t, string name, int depth = 0)
{
	name = plainPath(t, name);
	auto i = t.find(name);
	if (i == t.end() || depth > 8) return "";
	if (i->second.kind == 'h') return follow(t, i->second.data, depth + 1);
	if (i->second.kind == 'l') return follow(t, i->second.data, depth + 1);
	return name;
}

// What the command line asks for.
struct Want {
	bool info = false, error = false;
	vector<string> sources;
	string out = "a.out";
};
Want parseArgs(const vector<string> &a)
{
	Want w;
	bool raw = false;
	auto longOpt = [&](const string &n, bool hasVal, size_t &i, const string &val) {
		static const char *const all[] = {"output", "help", "usage", "version"};
		int hit = -1, hits = 0;
		for (int k = 0; k < 4; k++) if (!n.empty() && string(all[k]).rfind(n, 0) == 0) { hit = k; hits++; }
		if (hits != 1) { w.error = true; return; }
		if (hit) { if (hasVal) w.error = true; else w.info = true; return; }
		if (hasVal) w.out = val;
		else if (i + 1 < a.size()) w.out = a[++i];
		else w.error = true;
	};
	for (size_t i = 0; i < a.size(); i++) {
		const string &x = a[i];
		if (raw || x.empty() || x[0] != '-' || x == "-") { w.sources.push_back(x); continue; }
		if (x == "--") { raw = true; continue; }
		if (x[1] == '-') {
			size_t e = x.find('=');
			longOpt(x.substr(2, e == string::npos ? string::npos : e - 2), e != string::npos, i, e == string::npos ? "" : x.substr(e + 1));
			continue;
		}
		for (size_t k = 1; k < x.size(); k++) {
			char c = x[k];
			if (c == 'o') { if (k + 1 < x.size()) w.out = x.substr(k + 1); else if (i + 1 < a.size()) w.out = a[++i]; else w.error = true; break; }
			if (c == '?' || c == 'V') w.info = true; else { w.error = true; break; }
		}
	}
	return w;
}

// Words in the program that may be names of environment variables.
std::set<string> binaryWords()
{
	std::set<string> words;
	string bin = get(cfg.bin), x;
	for (char ch : bin + '\0')
		if (isalnum((unsigned char)ch) || ch == '_') x += ch;
		else { if (x.size() > 1 && x.size() < 60 && !isdigit((unsigned char)x[0]) && !ch) words.insert(x); x.clear(); }
	for (const char *no : {"LD_PRELOAD", "LD_LIBRARY_PATH", "LD_AUDIT", "GLIBC_TUNABLES"}) words.erase(no);
	return words;
}

Around judged;                   // where judgeRun runs the program

// Runs gaia on a layout and judges everything C20 says.
bool judgeRun(Worker &w, const Tree &before, const vector<string> &args, bool laidOut)
{
	if (!laidOut || !sb.fresh) { layout(before); sb.fresh = true; }
	Tree was; scan(sb.work, "", was);
	Ran r = execGaia(args, -1, -1, judged);
	Tree is; scan(sb.work, "", is);
	counted(w, r, is.size());
	if (!(was == is)) sb.fresh = false;
	Want want = parseArgs(args);
	auto fail = [&](const string &why) { return bad(w, why, before, args, r); };
	if (r.sig) return fail("killed by signal " + std::to_string(r.rc - 128));
	if (r.success != (r.rc == 0 && !want.info) && !(want.info && !r.success)) return fail(r.success ? "success report with a failing exit status" : "exit status 0 without a success report");
	string outReal = follow(before, want.out), srcReal;
	bool plainError = want.error || want.sources.size() != 1;
	bool assembles = !want.info && !plainError;
	if (assembles) srcReal = follow(before, want.sources[0]);
	if (assembles && srcReal != "" && before.at(srcReal).kind == 'd') {
		if (r.rc == 0) return fail("a directory was accepted as source");
		return true;
	}
	bool srcOk = assembles && srcReal != "" && (before.at(srcReal).mode & 0444);
	// every file but the output stays as it was
	for (auto &[n, x] : was) {
		auto i = is.find(n);
		string real = follow(before, n);
		bool isOut = srcOk && outReal != "" && real == outReal && outReal != srcReal;
		if (i == is.end()) { if (!isOut) return fail("removed " + n); continue; }
		if (isOut) continue;
		if (!(i->second == x)) return fail("changed " + n + " (now \"" + shown(i->second.data, 80) + "\")");
	}
	string outName = plainPath(before, want.out);
	for (auto &[n, x] : is) {
		if (was.count(n)) continue;
		bool isOut = srcOk && outReal == "" && n == outName;
		auto ow = before.find(outName);
		if (srcOk && outReal == "" && ow != before.end() && ow->second.kind == 'l' && ow->second.data == n) isOut = true;
		if (!isOut) return fail("created " + n);
	}
	if (want.info && !want.error && want.sources.size() <= 1) return r.rc == 0 ? true : fail("exit status " + std::to_string(r.rc) + ", expected 0");
	if (want.info) return true;
	if (plainError) return r.rc ? true : fail("exit status 0");
	if (!srcOk) return r.rc ? true : fail("exit status 0 although the source cannot be read");
	model::Result m; w.model.run(before.at(srcReal).data, m);
	if (r.rc == 0) {
		if (!m.ok) return fail("exit status 0 for a rejected source");
		if (outName == "/dev/null") return true;
		string now = follow(is, outName);
		if (now == "") return fail("no output file");
		string img(m.image.begin(), m.image.end());
		if (is.at(now).data != img) return fail("output file holds \"" + shown(is.at(now).data, 80) + "\", expected \"" + shown(img, 80) + "\"");
		return true;
	}
	if (!m.ok) return true;
	// a legal source: only an output that cannot be written excuses a failure
	bool can = true;
	if (outReal != "" && (before.at(outReal).kind == 'd' || !(before.at(outReal).mode & 0200) || outReal == srcReal)) can = false;
	if (outReal == "") {
		size_t s = outName.rfind('/');
		string last = s == string::npos ? outName : outName.substr(s + 1);
		if (outName.empty() || outName.size() > 255 || last.empty() || last == "." || last == "..") can = false;
		else if (outName == "/dev/null" || outName == "/dev/full") can = outName == "/dev/null";
		else if (s != string::npos) { string d = follow(before, outName.substr(0, s)); if (d == "" || before.at(d).kind != 'd' || !(before.at(d).mode & 0200)) can = false; }
		auto ow = before.find(outName);
		if (ow != before.end() && ow->second.kind == 'l') { size_t q = ow->second.data.rfind('/'); if (q != string::npos) can = false; }
	}
	if (can) return fail("rejected although source and output are fine");
	return true;
}

Node file(const string &s, mode_t m = 0644) { Node n; n.data = s; n.mode = m; return n; }
Node special(char k, const string &d = "", mode_t m = 0755) { Node n; n.kind = k; n.data = d; n.mode = m; return n; }

const char *const GOOD = "L LDA #$12\n JMP F\nF STA $1234\n BNE L\n", *const BAD = " LDA #1\n LDA LATER\n", *const OTHER = " RTS\n";

Tree standard()
{
	Tree t;
	t["s.asm"] = file(GOOD);
	t["t.asm"] = file(OTHER);
	t["bad.asm"] = file(BAD);
	t["noread.asm"] = file(GOOD, 0);
	t["old.bin"] = file(string(100, 'z'));
	t["sub"] = special('d');
	t["sub/u.asm"] = file(OTHER);
	t["hard.lnk"] = special('h', "s.asm");
	t["sym.lnk"] = special('l', "s.asm");
	return t;
}

} // namespace

void prop_c20(Run &r)
{
	r.rule = "All argument vectors up to the stated length over all option spellings, operands and file kinds, then every source state x output state, on the real program; the whole directory is compared before and after. A vector is nontrivial when its exit status, output and resulting directory differ from every other.";
	r.assume("Runs as an unprivileged user in a scratch directory of its own.");
	Tree std_ = standard();
	vector<string> al = {"s.asm", "-o", "x.bin", "--output", "-ox.bin", "--output=y.bin", "t.asm", "bad.asm", "missing.asm", "old.bin", "--help", "--version", "--usage", "-V", "-?", "--",
		"-x", "--unknown", "noread.asm", "sub", "sub/u.asm", "hard.lnk", "sym.lnk", "--outp=x.bin", "-os.asm", "--output=s.asm", "--output=", "", "-", "nodir/x", "-onodir/x", "--o", "--output=old.bin", "./s.asm", "sub/v.bin"};
	u64 n = al.size();
	r.sample("gaia -o x.bin s.asm -o old.bin"); r.sample("gaia s.asm --output=hard.lnk (a hard link of the source)");
	r.phase("all argument vectors up to 3", n * n + 1, [&](Worker &w, u64 u) {
		enter(w);
		if (u == n * n) {
			judgeRun(w, std_, {}, true);
			for (auto &a : al) if (!judgeRun(w, std_, {a}, true)) return;
			return;
		}
		vector<string> v = {al[u / n], al[u % n]};
		if (!judgeRun(w, std_, v, true)) return;
		for (auto &a : al) { v.push_back(a); if (!judgeRun(w, std_, v, true)) return; v.pop_back(); if (w.stopped()) return; }
	});
	vector<string> sm = {"s.asm", "-o", "x.bin", "--output", "-oy.bin", "--output=z.bin", "t.asm", "old.bin", "--", "sym.lnk"};
	if (cfg.thorough()) for (const char *x : {"--help", "-x", "bad.asm", "missing.asm", "sub/v.bin"}) sm.push_back(x);
	u64 m = sm.size();
	r.phase("all argument vectors of 4 over a smaller alphabet", m * m, [&](Worker &w, u64 u) {
		enter(w);
		for (auto &a : sm) for (auto &b : sm) {
			if (!judgeRun(w, std_, {sm[u / m], sm[u % m], a, b}, true) || w.stopped()) return;
			if (cfg.thorough()) for (int k = 0; k < 3; k++) if (!judgeRun(w, std_, {sm[u / m], sm[u % m], a, b, sm[k]}, true)) return;
		}
	});
	// options nobody documents
	vector<string> odd;
	for (int c = 33; c < 127; c++) if (c != '-') odd.push_back(string("-") + (char)c);
	std::set<string> longs = {"cmos", "65c02", "c02", "nmos", "6510", "verbose", "quiet", "silent", "debug", "list", "listing", "format", "force", "append", "keep", "dry-run", "check", "symbols", "labels", "map", "include", "define", "org", "start", "entry",
		"binary", "hex", "text", "raw", "prg", "case", "no-case", "ignore-case", "strict", "warn", "warnings", "error", "errors", "input", "source", "file", "outputs", "out-put", "Output", "HELP", "Help", "Version", "h", "v", "c", "i", "l", "d", "no-output", "stdout", "stdin", "encoding", "test", "self-test", "color", "optimize", "pad", "fill", "size", "bank", "cpu"};
	for (auto x : binaryWords()) { for (char &c : x) if (c == '_') c = '-'; longs.insert(x); longs.insert(lower(x)); }
	for (auto &x : longs) if (string("program-name").rfind(x, 0) && string("HANG").rfind(x, 0)) odd.push_back("--" + x);
	r.phase("every one-letter option and every word as an option", odd.size(), [&](Worker &w, u64 u) {
		enter(w);
		const string &x = odd[u];
		bool one = x[1] != '-';
		for (auto &v : vector<vector<string>>{{x}, {x, "s.asm"}, {"s.asm", x}, {"-o", "x.bin", x, "s.asm"}, {"s.asm", "-o", "x.bin", x}, {"s.asm", x, "-ox.bin"}, {"-o", x, "s.asm"}, {"--", x, "s.asm"}, {"s.asm", "--", x}, {x, "x.bin", "s.asm"},
			{one ? x + "ox.bin" : x + "=x.bin", "s.asm"}, {one ? x + "1" : x + "=1", "s.asm"}, {one ? x + "s.asm" : x + "=s.asm"}, {"--output=x.bin", x, "s.asm"}, {x, x, "s.asm"}, {x, "missing.asm"}, {x, "bad.asm"}, {x, "s.asm", "t.asm"}, {one && x != "-H" && x != "-p" ? "-" + x : x.substr(one ? 0 : 1), "s.asm"}})
			if (!judgeRun(w, std_, v, true) || w.stopped()) return;
	});
	// states of the two files
	typedef std::pair<string, std::function<void(Tree &, const string &)>> St;
	vector<St> src = {
		{"fine", [](Tree &t, const string &n) { t[n] = file(GOOD); }},
		{"rejected", [](Tree &t, const string &n) { t[n] = file(BAD); }},
		{"missing", [](Tree &, const string &) {}},
		{"unreadable", [](Tree &t, const string &n) { t[n] = file(GOOD, 0200); }},
		{"read-only", [](Tree &t, const string &n) { t[n] = file(GOOD, 0444); }},
		{"empty", [](Tree &t, const string &n) { t[n] = file(""); }},
		{"directory", [](Tree &t, const string &n) { t[n] = special('d'); }},
		{"link", [](Tree &t, const string &n) { t["real"] = file(GOOD); t[n] = special('l', "real"); }},
		{"dangling link", [](Tree &t, const string &n) { t[n] = special('l', "nothing"); }},
		{"big", [](Tree &t, const string &n) { string s; for (int i = 0; i < 20000; i++) s += " JMP $1234\n"; t[n] = file(s); }},
		{"late error", [](Tree &t, const string &n) { string s; for (int i = 0; i < 5000; i++) s += " JMP $1234\n"; t[n] = file(s + " NOP NOP\n"); }},
		{"missing label", [](Tree &t, const string &n) { t[n] = file(" JMP F\n"); }},
	};
	vector<St> out = {
		{"absent", [](Tree &, const string &) {}},
		{"short", [](Tree &t, const string &n) { t[n] = file("q"); }},
		{"long", [](Tree &t, const string &n) { t[n] = file(string(70000, 'q')); }},
		{"read-only", [](Tree &t, const string &n) { t[n] = file("keep", 0444); }},
		{"directory", [](Tree &t, const string &n) { t[n] = special('d'); }},
		{"link to a file", [](Tree &t, const string &n) { t["target"] = file("old"); t[n] = special('l', "target"); }},
		{"dangling link", [](Tree &t, const string &n) { t[n] = special('l', "newfile"); }},
		{"hard link", [](Tree &t, const string &n) { t["other"] = file("old"); t[n] = special('h', "other"); }},
		{"same", nullptr}, {"hard link to the source", nullptr}, {"link to the source", nullptr}, {"./ same", nullptr},
	};
	vector<string> names = {"prog.asm", "a.out", "with space", "-dash.asm", "%s%n.asm", "noext", ".hidden", string(200, 'n')};
	vector<string> outs = {"out.bin", "a.out", "o p", "-o", "%s", ".b", "prog.asm.bin", string(255, 'o')};
	u64 combos = src.size() * out.size() * names.size() * outs.size() * 4;
	r.phase("file states", combos, [&](Worker &w, u64 u) {
		u64 x = u;
		auto &s = src[x % src.size()]; x /= src.size();
		auto &o = out[x % out.size()]; x /= out.size();
		string sn = names[x % names.size()]; x /= names.size();
		string on = outs[x % outs.size()]; x /= outs.size();
		int how = (int)x;
		if (!cfg.thorough() && names[0] != sn && outs[0] != on && u % 13) return;
		if (sn == on) return;
		enter(w);
		Tree t;
		t["bystander"] = file("left alone"); t["prog"] = file("left alone"); t["prog.bin"] = file("left alone"); t["out"] = file("left alone");
		s.second(t, sn);
		string target = on;
		if (o.second) o.second(t, on);
		else {
			if (!t.count(sn) || t[sn].kind != 'f') return;
			if (o.first == "same") target = sn;
			else if (o.first == "./ same") target = "./" + sn;
			else if (o.first == "hard link to the source") t[on] = special('h', sn);
			else t[on] = special('l', sn);
		}
		vector<string> a;
		string arg = sn[0] == '-' ? "./" + sn : sn;
		switch (how) {
		case 0: a = {arg, "-o", target}; break;
		case 1: a = {"--output=" + target, arg}; break;
		case 2: a = {"-o" + target, "--", sn}; break;
		default: if (target != "a.out") return; a = {arg}; break;
		}
		sb.fresh = false;
		judgeRun(w, t, a, false);
		sb.fresh = false;
	});
	vector<string> nm;
	for (int b = 1; b < 256; b++) if (b != '/') { nm.push_back(string(1, (char)b)); nm.push_back(string(1, (char)b) + "x"); nm.push_back(string("x") + (char)b); }
	string pun = "!\"#$%&'()*+,-.:;<=>?@[\\]^_`{|}~ \t\nA0";
	for (char a : pun) for (char b : pun) nm.push_back(string("") + a + b);
	for (int n = 3; n <= 255; n += cfg.thorough() ? 1 : 7) nm.push_back(string(n, 'n'));
	r.phase("every character in file names", nm.size(), [&](Worker &w, u64 u) {
		const string &x = nm[u];
		if (x == "." || x == "..") return;
		enter(w);
		Tree t;
		t["s.asm"] = file(GOOD); t["n"] = file("left alone"); t["x"] = file("left alone");
		if (x == "n" || x == "x") t.erase(x);
		for (int how = 0; how < 4; how++) {
			vector<string> a;
			switch (how) {
			case 0: a = {"s.asm", "-o", x}; break;
			case 1: a = {"--output=" + x, "s.asm"}; break;
			case 2: a = {"-o" + x, "s.asm"}; break;
			default: t[x] = file(OTHER); a = {"-o", "out.bin", "--", x};
			}
			sb.fresh = false;
			if (!judgeRun(w, t, a, false)) break;
		}
		sb.fresh = false;
	});
	// source names with every kind of ending, and the name of the output left to gaia
	vector<string> ext;
	{
		string c = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-";
		for (char a : c) ext.push_back(string(1, a));
		for (char a : c) for (char b : c) if (cfg.thorough() || ext.size() % 3 == 0 || a == 's' || a == 'S' || b == 's' || b == 'S') ext.push_back(string() + a + b); else if (a == b) ext.push_back(string() + a + b); else if ((a + b) % 3 == 0) ext.push_back(string() + a + b);
		for (string x : {"asm", "s65", "a65", "src", "inc", "txt", "bin", "out", "hex", "prg", "obj", "nes", "rom", "asm65", "gaia", "com", "exe", "tmp", "bak", "lst", "map", "sym", "elf", "raw", "lib", "mac", "def", "cfg"})
			for (int m = 0; m < 1 << std::min<size_t>(x.size(), 4); m++) { string y = x; for (size_t i = 0; i < y.size(); i++) if (m >> std::min<size_t>(i, 3) & 1) y[i] = toupper(y[i]); ext.push_back(y); }
	}
	r.phase("every ending of the source's name, output not named", ext.size(), [&](Worker &w, u64 u) {
		enter(w);
		for (const string &stem : {string("prog."), string("prog.v2."), string("."), string("Prog")}) {
			if (stem != "prog." && ext[u].size() < 3) continue;
			string n = stem + ext[u];
			if (n == "prog" || n == "a.out") continue;
			Tree t;
			t["prog"] = file("left alone"); t["prog.bin"] = file("left alone"); t[n] = file(GOOD);
			sb.fresh = false;
			if (!judgeRun(w, t, {n}, false)) break;
			sb.fresh = false;
			t["a.out"] = file("older");
			if (!judgeRun(w, t, {"./" + n}, false)) break;
		}
		sb.fresh = false;
	});
	// two outputs named, of every kind and in every spelling: the last one counts
	vector<string> two = {"x.bin", "./y.bin", "sub/v.bin", "sub/deep/z", "old.bin", "a.out", "out/../x", "@/w.bin", "@/sub/q", "sub/../r.bin", "-", "", "missing/x", "sub", "s.asm.bin", "/dev/null", "sub/", "sub/deep/", "./", ".", "..", "sub/.", "sub/..", "old.bin/", "new.bin/", "@/", "sub//v2.bin", "sub/missing/", "x.bin/."};
	r.phase("every pair of outputs", two.size() * two.size(), [&](Worker &w, u64 u) {
		string a = two[u % two.size()], b = two[u / two.size()];
		enter(w);
		Tree t = standard();
		t["sub/deep"] = special('d');
		for (string *x : {&a, &b}) if ((*x)[0] == '@') *x = sb.work + x->substr(1);
		for (int h = 0; h < 16; h++) for (int at = 0; at < 3; at++) {
			vector<string> v;
			auto o = [&](const string &x, int k) { if (k == 0) { v.push_back("-o"); v.push_back(x); } else if (k == 1 && !x.empty()) v.push_back("-o" + x); else if (k == 2) v.push_back("--output=" + x); else { v.push_back("--output"); v.push_back(x); } };
			if (at == 0) v.push_back("s.asm");
			o(a, h % 4);
			if (at == 1) v.push_back("s.asm");
			o(b, h / 4);
			if (at == 2) v.push_back("s.asm");
			sb.fresh = false;
			if (!judgeRun(w, t, v, false)) return;
		}
		sb.fresh = false;
	});
	// whatever name the program looks for: with a file, a directory or a link there, and so on from there
	vector<vector<string>> vs = {{"s.asm"}, {"s.asm", "-o", "x.bin"}, {"bad.asm", "-o", "x.bin"}, {"bad.asm"}, {"s.asm", "-o", "old.bin"}, {"bad.asm", "-o", "old.bin"}, {"sub/u.asm", "-o", "sub/v.bin"}, {"sub/u.asm"}, {"s.asm", "-o", "sub/v"}, {"missing.asm", "-o", "x.bin"}, {"noread.asm"}, {"hard.lnk", "-o", "h.bin"},
		{"sym.lnk", "-o", "h.bin"}, {"s.asm", "-o", "s.asm"}, {"-o", "sub", "s.asm"}, {"big.asm", "-o", "b.bin"}, {"empty.asm"}, {"s.asm", "t.asm"}, {"-x"}, {"--help"}, {"nolabel.asm", "-o", "n"}, {"s.asm", "-o", "two.dots.bin"}};
	Tree many = standard();
	{
		string b; for (int i = 0; i < 9000; i++) b += " JMP $1234\n";
		many["big.asm"] = file(b); many["empty.asm"] = file(""); many["nolabel.asm"] = file(" JMP F\n"); many["h"] = special('d');
		for (const char *stem : {"a.out", "x.bin", "x", "s.asm", "s", "old.bin", "old", "b.bin", "gaia", "out", "sub/u.asm", "sub/v.bin", "sub/u", "sub/v"})
			for (const char *e : {".tmp", ".bak", ".old", ".lst", ".sym", ".map", ".o", ".log", ".lock", ".part", ".swp", "~", ".1", ".new", ".orig", ".hex", ".dbg", ".d", ".save", ".gz"}) many[string(stem) + e] = file("left alone");
		for (const char *n : {"core", "tmp", "temp", "log", ".gaiarc", "gaia.cfg", "gaia.log", "symbols", "listing", "#s.asm#", ".#s.asm", ".s.asm.swp"}) many[n] = file("left alone");
	}
	// programs of many sizes, in every respect
	static const int sizes[] = {16, 33, 64, 100, 128, 200, 256, 257, 500, 1000, 1024, 2000, 5000, 20000};
	r.phase("programs of many sizes", 14 * 9, [&](Worker &w, u64 u) {
		enter(w);
		int n = sizes[u / 9];
		string s, e, t;
		for (int i = 0; i < n; i++) {
			string k = std::to_string(i);
			switch (u % 9) {
			case 0: s += "L" + k + " = " + k + "\n"; break;
			case 1: s += "L" + k + ":\n"; break;
			case 2: if (i >= 4000) break; s += " JMP F" + k + "\n"; e += "F" + k + "\n"; break;
			case 3: s += " STA $1234\n"; break;
			case 4: s += "; line\n\n"; break;
			case 5: s += "comment"; break;
			case 6: s += "*=" + std::to_string(i) + "\n NOP\n"; break;
			case 7: if (i < 1000) s += "L" + k + " NOP\n JMP L" + k + "\n"; break;
			case 8: s += "K" + k + " .EQU 5\n LDA K" + k + "\n"; break;
			}
		}
		if (u % 9 == 5) s = " NOP ;" + s + "\n";
		Tree q = standard();
		for (const string &x : {s + e, s + e + " NOP NOP\n", s + " JMP U\n"}) {
			q["n.asm"] = file(x);
			for (const vector<string> &a : {vector<string>{"n.asm"}, {"n.asm", "-o", "x.bin"}, {"-o", "old.bin", "n.asm"}}) {
				sb.fresh = false;
				if (!judgeRun(w, q, a, false)) return;
			}
		}
		sb.fresh = false;
	});
	r.phase("every name the program looks for", vs.size() * 2, [&](Worker &w, u64 u) {
		enter(w);
		Tree t = u % 2 ? many : standard();
		if (!(u % 2)) { t["big.asm"] = many["big.asm"]; t["empty.asm"] = file(""); t["nolabel.asm"] = file(" JMP F\n"); }
		const vector<string> &a = vs[u / 2];
		sb.fresh = false;
		if (!judgeRun(w, t, a, false)) return;
		Want want = parseArgs(a);
		std::set<string> done = {want.out};
		for (auto &x : want.sources) done.insert(x);
		for (int round = 0; round < 4; round++) {
			layout(t);
			sb.fresh = false;
			std::set<string> names;
			if (!sought(a, Around(), names)) { w.c->extra[5].fetch_add(1); return; }
			bool more = false;
			for (auto &n : names) {
				size_t s = n.rfind('/');
				if (done.count(n) || t.count(n) || (s != string::npos && (!t.count(n.substr(0, s)) || t[n.substr(0, s)].kind != 'd'))) continue;
				done.insert(n);
				w.c->extra[4].fetch_add(1);
				for (char k : {'d', 'l', 'f'}) {
					Tree x = t;
					x[n] = k == 'f' ? file("left alone") : k == 'd' ? special('d') : special('l', "t.asm");
					sb.fresh = false;
					if (!judgeRun(w, x, a, false)) return;
				}
				t[n] = file("left alone");
				more = true;
			}
			if (!more) break;
		}
		sb.fresh = false;
	});
	// every variable the program may ask for names a directory, a file, or nothing yet
	std::set<string> vars = binaryWords();
	for (const char *v : {"HOME", "TMPDIR", "TMP", "TEMP", "PWD", "XDG_CONFIG_HOME", "XDG_DATA_HOME", "XDG_CACHE_HOME", "XDG_STATE_HOME", "XDG_RUNTIME_DIR", "USER", "GAIA", "GAIA_HOME", "GAIA_OUT", "GAIA_LOG", "DEBUG", "VERBOSE"}) vars.insert(v);
	vector<string> vals = {"@/sub", "@/h/", "@/new", "@/h/new", "@/t.asm", "@/old.bin", "sub", "h", "new", "1", "yes", "@", ".", "", "-o", "x.lst"};
	r.phase("every variable the program may ask for", vs.size() * vals.size(), [&](Worker &w, u64 u) {
		enter(w);
		string val = vals[u / vs.size()];
		if (val[0] == '@') val = sb.work + val.substr(1);
		judged = Around();
		for (auto &v : vars) judged.env.push_back(v + "=" + val);
		Tree t = many;
		sb.fresh = false;
		const vector<string> &a = vs[u % vs.size()];
		judgeRun(w, t, a, false);
		judged = Around();
		sb.fresh = false;
	});
	r.phase("places", 1, [&](Worker &w, u64) {
		enter(w);
		Tree t = standard();
		t["ro"] = special('d', "", 0555);
		t["sub/deep"] = special('d');
		for (const char *o : {"ro/x", "sub/deep/x", "sub/x", "sub/../x", "missing/x", "sub/u.asm/x", "./x", "sub"})
			for (const char *s : {"s.asm", "sub/u.asm", "./s.asm", "bad.asm"}) {
				if (string(o) == "sub/../x") continue;
				sb.fresh = false;
				if (!judgeRun(w, t, {s, "-o", o}, false)) return;
			}
		sb.fresh = false;
		if (sb.dropped) for (const char *s : {"s.asm", "bad.asm", "t.asm"}) if (!judgeRun(w, t, {s, "-o", "/dev/null"}, false)) return;
	});
}

void prop_c21(Run &r)
{
	r.level = "model_checking";
	r.rule = "All sequences up to the stated length of assemblies of a set of legal and rejected programs onto one output file, from every initial content of the file, with the real program; states are (content of the output file), transitions are single assemblies; after each success the file is compared with the model's image of that source alone. Explored breadth-first until no new content appears, and all sequences without merging up to length 2.";
	vector<string> P = {"", " NOP\n", GOOD, BAD, ".ORG $10\n RTS\n", ".ORG $2000\n LDA #$EA\n", " JMP F\n.ORG $40\nF NOP\n", " JMP F\n", "? \n", ".ORG $100\n NOP NOP\n", ".ORG $80\n BNE F\n.ORG $20\n NOP\n.ORG $82\nF RTS\n",
		"K = 5\n", ".END\n garbage", " BNE FAR\n.ORG $200\nFAR NOP\n", ".ORG $30\n JMP A1\n.ORG $10\nA1 = $4455\n", " LDA #1\n LDA #2\n LDA #3\n LDA #4\n NOP NOP\n"};
	string big; for (int i = 0; i < 3000; i++) big += " STA $55AA\n";
	P.push_back(big);
	P.push_back(big + " NOP NOP\n");
	P.push_back(".ORG $FFFC\n JMP $FFFC\n");
	vector<string> I = {"<absent>", "", "z", string(3, 'z'), string(17, 'z'), string(4096, 'z'), string(4097, 'y'), string(9000, 'x'), string(70000, 'w')};
	u64 np = P.size();
	r.sample("z x 70000; .ORG $10 / RTS -> 17 bytes"); r.sample("rejected source in between, then GOOD -> same bytes as fresh");
	auto stepSrc = [&](Worker &w, const string &before, const string &src, string &after) -> bool {
		// one assembly in a directory of two files
		Tree t; t["p.asm"] = file(src);
		if (before != "<absent>") t["o.bin"] = file(before);
		put(sb.work + "/p.asm", src);
		if (before == "<absent>") unlink((sb.work + "/o.bin").c_str()); else put(sb.work + "/o.bin", before);
		Ran x = execGaia({"p.asm", "-o", "o.bin"});
		counted(w, x, 0);
		struct stat st;
		after = stat((sb.work + "/o.bin").c_str(), &st) ? "<absent>" : get(sb.work + "/o.bin");
		model::Result m; w.model.run(src, m);
		if (x.rc && m.ok) return bad(w, "a legal source was rejected", t, {"p.asm", "-o", "o.bin"}, x);
		if (x.rc == 0) {
			string img(m.image.begin(), m.image.end());
			if (!m.ok) return bad(w, "an illegal source was accepted", t, {"p.asm", "-o", "o.bin"}, x);
			if (after != img) return bad(w, "output holds " + std::to_string(after.size()) + " bytes \"" + shown(after, 80) + "\", a fresh run gives " + std::to_string(img.size()) + " bytes \"" + shown(img, 80) + "\"", t, {"p.asm", "-o", "o.bin"}, x);
		}
		return true;
	};
	auto step = [&](Worker &w, const string &before, u64 p, string &after) { return stepSrc(w, before, P[p], after); };
	int depth = cfg.thorough() ? 3 : 2;
	r.phase("all sequences", I.size() * np, [&](Worker &w, u64 u) {
		enter(w);
		std::function<bool(const string &, int)> rec = [&](const string &c, int d) {
			for (u64 p = 0; p < np; p++) {
				if (d == 0 && p != u % np) continue;
				string a;
				if (!step(w, c, p, a) || w.stopped()) return false;
				w.c->transitions.fetch_add(1); w.c->traces.fetch_add(1);
				if (d + 1 < depth && !rec(a, d + 1)) return false;
			}
			return true;
		};
		rec(I[u / np], 0);
		w.c->states.fetch_add(1);
	});
	r.phase("reachable output contents", 1, [&](Worker &w, u64) {
		enter(w);
		std::map<string, int> seen; vector<string> todo;
		for (auto &i : I) { seen[i] = 0; todo.push_back(i); w.c->states.fetch_add(1); }
		while (!todo.empty() && seen.size() < 400) {
			string c = todo.back(); todo.pop_back();
			for (u64 p = 0; p < np; p++) {
				string a;
				if (!step(w, c, p, a)) return;
				w.c->transitions.fetch_add(1); w.c->traces.fetch_add(1);
				if (!seen.count(a)) { seen[a] = 0; todo.push_back(a); w.c->states.fetch_add(1); }
			}
		}
	});
	// every kind of statement over an output of any age, in memory and with the real program
	vector<string> all = allCores();
	for (auto &e : exampleSources()) all.push_back(e);
	size_t plainCores = all.size();
	for (const char *pre : {";", "; c\n", "\n", "\r\n", " \n", "\t; c\n", "L\n", "L: ", "K = 5\n", ".DEFINE K 5\n", "*=$40\n", ".ORG $40\n", " NOP\n", ".END\n", "nop\n", "\f"})
		for (const char *post : {"", "\n", " NOP\n", " JMP F9\n.ORG $30\nF9 RTS", "\n\n;"}) all.push_back(string(pre) + post);
	vector<int> ages = {-1, 0, 1, 2, 3, 100, 4096, 70000};
	r.phase("every core program over an output of every age", all.size(), [&](Worker &w, u64 u) {
		for (int k : ages) {
			Plan p; p.stale = k;
			if (!w.verify(all[u], C_VERDICT | C_IMAGE, "stale output", "p.asm", &p)) return;
		}
	});
	vector<Plan> old(cfg.thorough() ? 2 : 1);
	old[0].stale = 70000;
	if (cfg.thorough()) old[1].stale = 4;
	vector<string> few = {"JMP {0}\nBNE {1}\n{0} NOP\n{1} RTS\n", "{0} NOP\n.ORG {B+40}\n{1} = 5\nJSR {0}\n", "LDA #1\n"};
	contexts(r, C_VERDICT | C_IMAGE, few, old);
	// files of every age, with every permission that lets them be read and written
	const long now = time(nullptr), day = 86400;
	const vector<long> when = {0, 1, now - 400 * day, now - 8 * day, now - 2 * day, now - day - 7, now - 3700, now - 61, now - 2, now, now + 5, now + 3700, now + 2 * day, now + 400 * day, 0x7FFFFFFF, 0x80000001L, 5000000000L};
	auto touch = [&](const char *name, long at) { timespec ts[2] = {{at, 0}, {at, 0}}; utimensat(AT_FDCWD, (sb.work + "/" + name).c_str(), ts, 0); };
	const u64 W = when.size();
	r.phase("real program: files of every age and permission", W * W, [&](Worker &w, u64 u) {
		enter(w);
		static const int modes[] = {0644, 0600, 0755, 0666, 0777, 0444, 0400, 0640};
		for (u64 p = 0; p < np; p++) {
			string before = p % 3 == 0 ? string(17, 'z') : p % 3 == 1 ? string(70000, 'w') : string("\xEA");
			Tree t; t["p.asm"] = file(P[p]); t["o.bin"] = file(before);
			t["p.asm"].mode = modes[(u + p) % 8]; t["o.bin"].mode = modes[(u / 8 + p) % 5];
			layout(t);
			touch("p.asm", when[u % W]); touch("o.bin", when[u / W]);
			if ((u + p) % 5 == 0) touch(".", when[(u + p) % W]);
			bool named = (u + p) % 4;
			if (!named) { t["a.out"] = t["o.bin"]; t.erase("o.bin"); layout(t); touch("p.asm", when[u % W]); touch("a.out", when[u / W]); }
			vector<string> args = {"p.asm"};
			if (named) { args.push_back("-o"); args.push_back("o.bin"); }
			Ran x = execGaia(args);
			counted(w, x, 0);
			model::Result m; w.model.run(P[p], m);
			string img(m.image.begin(), m.image.end()), how = " (source changed at " + std::to_string(when[u % W]) + ", output at " + std::to_string(when[u / W]) + ", now " + std::to_string(now) + ")";
			if ((x.rc == 0) != m.ok) { bad(w, "verdict depends on the age of the files" + how, t, args, x); return; }
			if (m.ok && get(sb.work + (named ? "/o.bin" : "/a.out")) != img) { bad(w, "output depends on the age of the files" + how, t, args, x); return; }
		}
		wipe(sb.work);
	});
	// an output that is nearly the new one
	r.phase("real program: every program over nearly its own output", (all.size() + np) * 4, [&](Worker &w, u64 u) {
		const string &src = u / 4 < np ? P[u / 4] : all[u / 4 - np];
		if (!cfg.thorough() && u / 4 >= np && u / 4 % 4) return;
		enter(w);
		model::Result m; w.model.run(src, m);
		if (!m.ok) return;
		string img(m.image.begin(), m.image.end()), a;
		vector<size_t> at;
		for (size_t k : {(size_t)0, (size_t)1, (size_t)2, (size_t)7, (size_t)255, (size_t)256, (size_t)511, (size_t)512, (size_t)1023, (size_t)1024, (size_t)2048, (size_t)4095, (size_t)4096, img.size() / 2, img.size() / 3, img.size() - 1, img.size() - 2, img.size() - 513, img.size() - 1025}) if (k < img.size()) at.push_back(k);
		if (u % 4 == 0) for (size_t k : at) { string o = img; o[k] ^= 0x55; if (!stepSrc(w, o, src, a)) return; }
		else if (u % 4 == 1) { for (size_t k : at) if (k && (!stepSrc(w, img.substr(0, k), src, a) || !stepSrc(w, img.substr(k), src, a))) return; }
		else if (u % 4 == 2) { for (size_t k : {1, 2, 100, 4096}) if (!stepSrc(w, img + string(k, '\0'), src, a) || !stepSrc(w, string(k, '\0') + img, src, a) || !stepSrc(w, img + string(k, 'q'), src, a)) return; }
		else { for (size_t k : at) { string o = img; std::swap(o[k], o[img.size() - 1 - k]); if (!stepSrc(w, o, src, a)) return; } if (!stepSrc(w, string(img.size(), '\0'), src, a) || !stepSrc(w, string(img.size(), '\xFE'), src, a)) return; }
	});
	r.phase("real program: every core program over old outputs", all.size(), [&](Worker &w, u64 u) {
		if (!cfg.thorough() && u < plainCores && u % 3) return;
		enter(w);
		string a;
		for (const string &i : {string("<absent>"), string(), string(2, 'q'), string(70000, 'w')})
			if (!stepSrc(w, i, all[u], a)) return;
		string b = a;
		if (!stepSrc(w, b + "more", all[u], a)) return;
	});
	// same directory, default output, several sources in turn: nothing else is picked up
	r.phase("default output and changing sources", np * np, [&](Worker &w, u64 u) {
		enter(w);
		wipe(sb.work);
		for (u64 p : {u % np, u / np, u % np}) {
			put(sb.work + "/p.asm", P[p]);
			Ran x = execGaia({"p.asm"});
			counted(w, x, 1);
			model::Result m; w.model.run(P[p], m);
			Tree t; t["p.asm"] = file(P[p]);
			if ((x.rc == 0) != m.ok) { bad(w, "verdict depends on earlier runs", t, {"p.asm"}, x); return; }
			string img(m.image.begin(), m.image.end());
			if (m.ok && get(sb.work + "/a.out") != img) { bad(w, "a.out depends on earlier runs", t, {"p.asm"}, x); return; }
		}
		wipe(sb.work);
	});
}

void prop_c26(Run &r)
{
	r.rule = "Every core program of all properties is run where fresh and freed memory, heap and stack, holds each of a set of byte values, and under other file names, and must print, exit and write exactly as where it holds 0; then all pairs of core programs, and the context matrix. The real program is run from each of a set of surroundings (environment variables, locale, working directory, umask, standard input, argument vector 0, names, links and places of both files) and must leave and print the same as in plain surroundings. A program is nontrivial when its outcome differs from that of every other.";
	r.assume("Painting covers blocks from the allocator and the stack below main at every call of the allocator and of a file operation; registers keep what the compiler leaves there.");
	vector<string> all = allCores();
	for (auto &l : opcodeLines()) all.push_back(l + "\n");
	for (auto &e : exampleSources()) all.push_back(e);
	vector<int> pats = {0x01, 0x09, 0x20, 0x2A, 0x3A, 0x41, 0x5F, 0x7F, 0x80, 0xBE, 0xD0, 0xFE, 0xFF};
	if (cfg.thorough()) { pats.clear(); for (int i = 1; i < 256; i++) pats.push_back(i); }
	string longSyms, longRefs;
	for (int i = 0; i < 40; i++) { longSyms += "S" + std::to_string(i) + " = " + std::to_string(i) + "\n"; longRefs += " JMP F" + std::to_string(i) + "\n"; all.push_back(longSyms + " LDA S0\n"); all.push_back(longRefs); string d; for (int k = 0; k <= i; k++) d += "F" + std::to_string(k) + " RTS\n"; all.push_back(longRefs + d); all.push_back(longSyms + longRefs + d); }
	for (int n : {30, 41, 79, 80, 81, 100, 133, 200, 500, 5000})     // lines that do not fit
		for (const char *e : {" NOP NOP ;", " ROL 5,Y ;", " LDA U ;", " JMP U ;", "L BNE L,X ;", " BNE FAR ;", " NOP ;"}) {
			string l = e;
			while ((int)l.size() < n) l += " word";
			all.push_back("FAR = $4000\n" + l + "\n");
			if (*e == ' ' && n < 1000) all.push_back("FAR = $4000\n" + string(n, ' ') + (e + 1) + " c\n");
		}
	r.phase("every core program over every memory content", all.size(), [&](Worker &w, u64 u) {
		for (int f : pats) { Plan p; p.fill = f + 1; if (!w.steady(all[u], p)) return; }
	});
	r.phase("every core program, other environment, time and chance", all.size(), [&](Worker &w, u64 u) {
		for (int k = 1; k < 24; k++) {
			Plan p; p.fill = 1; p.world = k;
			if (!w.steady(all[u], p)) return;
			if (!w.o.asked && !w.o2.asked) break;       // nobody asked: there is only one world
		}
	});
	vector<string> names = {"a", "p.asm", "b.out", "prog", "x.y.z", "UPPER.ASM", "with space.asm", "%s%n%d.asm", "ERROR", "\\n", ";.asm", "-", "d/prog.asm", "../prog.asm", "/tmp/none/prog.asm", "0", string(255, 'n'), string(2000, 'm'), "\xc3\xa9.asm", "\x01", "prog.asm:1"};
	r.phase("every core program under every name", all.size(), [&](Worker &w, u64 u) {
		for (auto &n : names) { Plan p; p.fill = 0x42; if (!w.steady(all[u], p, "name", n.c_str())) return; }
	});
	vector<string> cs;
	for (int k : {2, 3, 4, 5, 7, 10, 13, 19, 23, 25}) for (auto &c : coresFor(k)) cs.push_back(buildPlain(c));
	std::sort(cs.begin(), cs.end());
	cs.erase(std::unique(cs.begin(), cs.end()), cs.end());
	r.phase("all pairs of core programs", cs.size(), [&](Worker &w, u64 u) {
		Plan p; p.fill = 0xFF + 1;
		Plan q; q.fill = 0x41 + 1;
		Plan q2; q2.fill = 0x20 + 1;
		for (auto &c : cs) {
			if (!w.steady(cs[u] + c, p)) return;
			if (!w.steady(cs[u] + c, q) || !w.steady(cs[u] + c, q2)) return;
			if (cfg.thorough()) for (auto &d : cs) if (!w.steady(cs[u] + c + d, (u & 1) ? p : q)) return;
			if (w.stopped()) return;
		}
	});
	vector<Plan> pl(3);
	pl[0].fill = 0xFF + 1; pl[1].fill = 0x42; pl[2].fill = 0x21;
	vector<string> ctx = {"JMP {0}\nBNE {1}\n{0} NOP\n{1} RTS\n", "{0} NOP\n{1} = 5\nJSR {0}\nLDA {1}\n", "JMP {0}\n", "{0} = $1234\nSTA {0},Y\nLDA ($12),Y\nASL\n", "LDA #1 2\n"};
	contexts(r, 0, ctx, pl);
	// ---- the real program
	vector<string> some;
	for (size_t i = 0; i < all.size(); i += cfg.thorough() ? 1 : 4) some.push_back(all[i]);
	string big;
	for (int i = 0; i < 400; i++) big += "L" + std::to_string(i) + " JMP L" + std::to_string((i * 7 + 3) % 400) + "\n";
	some.push_back(big);
	for (auto &e : exampleSources()) some.push_back(e);
	vector<Around> ar(1);
	auto add = [&](std::function<void(Around &)> f) { Around a; f(a); ar.push_back(a); };
	add([](Around &a) { a.env = {}; });
	for (int v : {1, 32, 65, 127, 128, 190, 255}) add([&](Around &a) { a.env = {"MALLOC_PERTURB_=" + std::to_string(v)}; });
	for (const char *e : {"LC_ALL=C.UTF-8", "LC_ALL=tr_TR.UTF-8", "LANG=de_DE", "LC_CTYPE=POSIX", "LC_NUMERIC=xx", "TZ=Asia/Kolkata", "COLUMNS=1", "COLUMNS=40", "COLUMNS=80", "LINES=10", "TMPDIR=/nonexistent", "HOME=/", "PWD=/nowhere", "A=5", "PATH=", "GAIA_OUT=z.bin", "GAIA=-o z", "ARGP_HELP_FMT=rmargin=40", "OUTPUT=z.bin", "MALLOC_ARENA_MAX=1", "MALLOC_TOP_PAD_=0", "MALLOC_MMAP_THRESHOLD_=64", "GLIBC_TUNABLES=glibc.malloc.tcache_count=0", "POSIXLY_CORRECT=1"})
		add([&](Around &a) { a.env = {e}; });
	// every word in the program that may be the name of a variable, all set at once
	{
		std::set<string> words = binaryWords();
		for (const char *v : {"1", "0", "", "z.bin", "$", "-o", "yes"}) add([&](Around &a) { for (auto &k : words) a.env.push_back(k + "=" + v); });
	}
	for (int n : {1, 7, 8, 100, 4000, 100000}) add([&](Around &a) { a.env = {"X=" + string(n, 'x')}; });
	add([](Around &a) { for (int i = 0; i < 300; i++) a.env.push_back("V" + std::to_string(i) + "=" + std::to_string(i)); });
	for (int m : {0, 022, 077, 0177, 0777}) add([&](Around &a) { a.umask_ = m; });
	for (const char *n : {"", "x", "/usr/bin/gaia", "GAIA", "%s", "a name", "-o"}) add([&](Around &a) { a.name = n; });
	add([](Around &a) { a.name = string(3000, 'g'); });
	add([](Around &a) { a.stdin_ = "/nonexistent"; });         // closed
	add([](Around &a) { a.stdin_ = "/dev/zero"; });
	add([](Around &a) { a.stdin_ = "other.asm"; });
	add([](Around &a) { a.stdin_ = "."; });
	for (char k : {'t', 's', 'f'}) {      // what standard output is
		add([&](Around &a) { a.output = k; });
		add([&](Around &a) { a.output = k; a.env = {"TERM=xterm-256color", "COLORTERM=truecolor", "LANG=C.UTF-8", "LC_ALL=C.UTF-8"}; });
		add([&](Around &a) { a.output = k; a.env = {"TERM=dumb", "COLUMNS=20"}; a.stdin_ = "/dev/zero"; });
	}
	for (int k : {256, 1024}) add([&](Around &a) { a.stack = k << 10; });
	{       // when the files were changed last, and who may do what with them
		const long now = time(nullptr), day = 86400;
		const long when[] = {0, now - 400 * day, now - 2 * day, now - 3700, now, now + 3700, now + 2 * day, 0x7FFFFFFF, 5000000000L};
		for (long s : when) for (long o : when) add([&](Around &a) { a.srcTime = s; a.outTime = o; });
		for (int m : {0400, 0444, 0600, 0644, 0666, 0755, 0777, 04755, 01666}) for (int o : {0200, 0600, 0666, 0755, 02777}) add([&](Around &a) { a.srcMode = m; a.outMode = o; a.srcTime = a.outTime = now; });
	}
	struct Place { string src, out, cwd; bool absS, absO; };
	vector<Place> places = {{"p.asm", "o.bin", "", false, false}, {"./p.asm", "./o.bin", "", false, false}, {"d/p.asm", "e/o.bin", "", false, false}, {"p.asm", "../e/o.bin", "d", false, false},
		{"d/../d/./p.asm", "d/o", "", false, false}, {"p.asm", "o.bin", "e", true, false}, {"p.asm", "o.bin", "e", false, true}, {"p.asm", "o.bin", "d", true, true}, {"ln.asm", "o.bin", "", false, false},
		{"p.asm", "lnout", "", false, false}, {"%s.asm", "%n", "", false, false}, {"a b", "c d", "", false, false}, {"p", "p.bin", "", false, false}, {"P.ASM", "p.asm", "", false, false}, {"p.asm", "", "", false, false}, {"p.asm", "", "d", true, false}, {"d/p.asm", "", "", false, false}, {string(250, 's'), string(250, 'o'), "", false, false}, {"hard.asm", "o.bin", "", false, false}, {"pipe.asm", "o.bin", "", false, false}};
	r.sample("MALLOC_PERTURB_=190 gaia -o o.bin p.asm"); r.sample("cd d; gaia -o ../e/o.bin p.asm");
	struct Got { int rc = -1; bool sig = false, ok = false; string out, img; };
	auto run = [&](Worker &w, const string &src, const Around &a, const Place &pl, Got &g, Tree &t, vector<string> &args, Around &b, const Tree &extra) {
		wipe(sb.work);
		t = extra;
		t["d"] = special('d'); t["e"] = special('d');
		t["other.asm"] = file(" .org $55\n rts\n");
		string srcFile = pl.cwd.empty() || pl.absS ? pl.src : pl.cwd + "/" + pl.src, outFile = pl.cwd.empty() || pl.absO ? pl.out : pl.cwd + "/" + pl.out;
		if (pl.cwd == "d" && pl.out == "../e/o.bin") outFile = "e/o.bin";
		if (pl.out.empty()) outFile = (pl.cwd.empty() ? "" : pl.cwd + "/") + "a.out";       // no option -o
		if (pl.src == "d/../d/./p.asm") srcFile = "d/p.asm";
		if (pl.src == "ln.asm") { t["d/real"] = file(src); t["ln.asm"] = special('l', "d/real"); }
		else if (pl.src == "hard.asm") { t["d/real"] = file(src); t["hard.asm"] = special('h', "d/real"); }
		else t[srcFile] = file(src);
		if (pl.out == "lnout") t["lnout"] = special('l', "e/there");
		layout(t);
		if (a.srcTime >= 0) {
			auto as = [&](const string &f, long at, int mode) { string q = sb.work + "/" + f; timespec ts[2] = {{at, 0}, {at, 0}}; if (mode) chmod(q.c_str(), mode); utimensat(AT_FDCWD, q.c_str(), ts, 0); };
			if (a.outTime & 1) put(sb.work + "/" + outFile, string(300, 'q')); else put(sb.work + "/" + outFile, "q");
			as(outFile, a.outTime, a.outMode);
			as(srcFile, a.srcTime, a.srcMode);
		}
		b = a;
		if (!pl.cwd.empty()) b.cwd = sb.work + "/" + pl.cwd;
		string s = (pl.absS ? sb.work + "/" : string()) + pl.src, o = (pl.absO ? sb.work + "/" : string()) + pl.out;
		if (pl.out.empty()) args = {s}; else args = {"-o", o, s};
		pid_t feeder = -1;
		if (pl.src == "pipe.asm") {      // the source comes through a pipe, in pieces
			string f = sb.work + "/pipe.asm";
			unlink(f.c_str());
			if (mkfifo(f.c_str(), 0600)) _exit(9);
			if (!(feeder = fork())) {
				signal(SIGPIPE, SIG_DFL);
				alarm(20);
				int fd = open(f.c_str(), O_WRONLY);
				for (size_t q = 0, k = 1; q < src.size(); q += k, k = k * 3 % 5000 + 1) if (write(fd, src.data() + q, k = std::min(k, src.size() - q)) < 0) break;
				_exit(0);
			}
		}
		Ran x = execGaia(args, -1, -1, b);
		if (feeder > 0) { int st; kill(feeder, SIGKILL); waitpid(feeder, &st, 0); }
		counted(w, x, 0);
		chmod((sb.work + "/" + outFile).c_str(), 0600);
		g.rc = x.rc; g.sig = x.sig; g.ok = x.success;
		if (!x.out.compare(0, s.size() + 1, s + ":")) x.out.replace(0, s.size(), "p.asm");
		g.out = x.out;
		g.img = x.rc ? "" : get(sb.work + "/" + (pl.out == "lnout" ? "e/there" : outFile));
		return x;
	};
	static string baseSrc;          // the reference run of the source tried last
	static Got base;
	auto one = [&](Worker &w, const string &src, const Around &a, const Place &pl, const Tree &extra = Tree(), vector<string> *asked = nullptr) {
		enter(w);
		Tree t; vector<string> args; Around b;
		if (src != baseSrc || base.rc < 0) { Tree t0; base = Got(); run(w, src, ar[0], places[0], base, t0, args, b, Tree()); baseSrc = src; }
		Got g;
		Ran x = run(w, src, a, pl, g, t, args, b, extra);
		if (asked) *asked = args;
		string how = " (environment";
		for (auto &e : b.env) how += " " + shown(e, 60);
		how += "; umask " + std::to_string(b.umask_) + ", standard input " + b.stdin_ + ", argument 0 " + shown(b.name, 40) + ", standard output " + (b.output == 't' ? "a terminal" : b.output == 's' ? "a socket" : b.output == 'f' ? "a file" : "a pipe") + ", directory " + b.cwd + (b.srcTime >= 0 ? ", source changed at " + std::to_string(b.srcTime) + ", output at " + std::to_string(b.outTime) : "") + ")";
		if (g.sig != base.sig || g.rc != base.rc) return bad(w, "exit status " + std::to_string(g.rc) + " instead of " + std::to_string(base.rc) + " as in other surroundings" + how, t, args, x);
		if (g.out != base.out) return bad(w, "prints something else than in other surroundings (\"" + shown(base.out, 200) + "\")" + how, t, args, x);
		if (g.img != base.img) return bad(w, "output \"" + shown(g.img, 80) + "\" differs from that of other surroundings, \"" + shown(base.img, 80) + "\"" + how, t, args, x);
		return true;
	};
	size_t noOption = 0;
	for (size_t i = 0; i < places.size(); i++) if (places[i].out.empty() && places[i].cwd.empty()) { noOption = i; break; }
	r.phase("real program: every surrounding", some.size(), [&](Worker &w, u64 u) {
		for (size_t i = 0; i < ar.size(); i++) {
			if (!cfg.thorough() && i > 9 && (i + u) % 3) continue;
			if (!one(w, some[u], ar[i], places[(i + u) % 8 == 0 ? noOption : 0]) || w.stopped()) return;
		}
	});
	r.phase("real program: every place of the files", some.size(), [&](Worker &w, u64 u) {
		for (size_t i = 1; i < places.size(); i++) {
			if (!one(w, some[u], ar[0], places[i]) || w.stopped()) return;
		}
		wipe(sb.work);
	});
	r.phase("real program: every name it looks for", some.size(), [&](Worker &w, u64 u) {
		if (!cfg.thorough() && u % 8 && u + 12 < some.size()) return;
		enter(w);
		Around a;
		for (const char *v : {"HOME", "TMPDIR", "TMP", "XDG_CONFIG_HOME", "XDG_DATA_HOME", "XDG_CACHE_HOME", "XDG_RUNTIME_DIR", "GAIA_HOME", "GAIA_CONFIG"}) a.env.push_back(string(v) + "=" + sb.work + "/e");
		for (size_t k : {(size_t)0, noOption, (size_t)2}) {
			std::set<string> done = {"p.asm", "d/p.asm", "o.bin", "e/o.bin", "a.out"};
			Tree extra;
			for (int round = 0; round < 3; round++) {
				vector<string> args;
				if (!one(w, some[u], a, places[k], extra, &args)) return;
				std::set<string> names;
				if (!sought(args, a, names)) { w.c->extra[5].fetch_add(1); return; }
				bool more = false;
				for (auto &n : names) {
					size_t s = n.rfind('/');
					if (done.count(n) || extra.count(n) || n == "d" || n == "e" || n == "other.asm" || (s != string::npos && n.substr(0, s) != "d" && n.substr(0, s) != "e")) continue;
					done.insert(n);
					w.c->extra[4].fetch_add(1);
					for (const char *text : {"", "1\n", "-o z\n", " NOP\n"}) { Tree x = extra; x[n] = file(text); if (!one(w, some[u], a, places[k], x)) return; }
					Tree x = extra; x[n] = special('d');
					if (!one(w, some[u], a, places[k], x)) return;
					extra[n] = file("1\n");
					more = true;
				}
				if (!more) break;
			}
		}
	});
	r.phase("real program: surroundings by places", ar.size() * places.size(), [&](Worker &w, u64 u) {
		for (const char *s : {GOOD, BAD}) if (!one(w, s, ar[u / places.size()], places[u % places.size()])) return;
	});
}

void cli_faults(Run &r)
{
	string mid, big;
	for (int i = 0; i < 300; i++) mid += " JMP $1234\n";
	for (int i = 0; i < 2000; i++) big += i % 50 ? " LDA #$EA\n" : " JMP END\n";
	big += "END NOP\n";
	vector<string> P = {" NOP\n", GOOD, ".ORG $20\n JMP F\n.ORG $10\nF NOP\n", mid, ".ORG $1800\n NOP\n", big, " JMP F\nF\n"};
	r.phase("real program: every file size limit", P.size() * 16, [&](Worker &w, u64 u) {
		enter(w);
		const string &p = P[u / 16];
		model::Result m; w.model.run(p, m);
		put(sb.work + "/p.asm", p);
		u64 len = m.image.size(), st = len > 1000 && !cfg.thorough() ? 7 : 1;
		for (u64 k = u % 16 * st; k <= len + 1; k += 16 * st) {
			unlink((sb.work + "/o.bin").c_str());
			Ran x = execGaia({"p.asm", "-o", "o.bin"}, k);
			counted(w, x, k < len);
			Tree t; t["p.asm"] = file(p);
			string lim = "with files limited to " + std::to_string(k) + " bytes: ";
			if (x.sig || (x.rc == 0) != x.success) { bad(w, lim + "exit status and report disagree", t, {"p.asm", "-o", "o.bin"}, x); return; }
			if (k < len && x.rc == 0) { bad(w, lim + "success although only part of the output could be written", t, {"p.asm", "-o", "o.bin"}, x); return; }
			if (k >= len && (x.rc || get(sb.work + "/o.bin") != string(m.image.begin(), m.image.end()))) { bad(w, lim + "the limit is large enough", t, {"p.asm", "-o", "o.bin"}, x); return; }
		}
	});
	r.phase("real program: full device, unusable files, few descriptors", P.size(), [&](Worker &w, u64 u) {
		enter(w);
		wipe(sb.work);
		Tree t; t["p.asm"] = file(P[u]); t["d"] = special('d'); t["n.asm"] = file(P[u], 0); t["ro"] = file("x", 0444);
		layout(t);
		vector<vector<string>> runs = {{"d"}, {"d", "-o", "o.bin"}, {"n.asm"}, {"p.asm", "-o", "ro"}, {"p.asm", "-o", "d"}, {"p.asm", "-o", "no/where"}, {"no.asm"}};
		if (sb.dropped) { runs.push_back({"p.asm", "-o", "/dev/full"}); runs.push_back({"/dev/full"}); }
		for (auto &a : runs) {
			if (a[0] == "/dev/full") continue;   // endless zero bytes, not a failure
			Ran x = execGaia(a);
			counted(w, x, 0);
			if (x.rc == 0 || x.success || x.sig) { bad(w, "a failing file operation went unnoticed", t, a, x); return; }
		}
		model::Result m; w.model.run(P[u], m);
		string image(m.image.begin(), m.image.end());
		for (int n = 0; n < 8; n++) {
			wipe(sb.work); layout(t);
			Ran x = execGaia({"p.asm"}, -1, n);
			counted(w, x, 0);
			if ((x.rc == 0) != x.success || (x.rc == 0 && get(sb.work + "/a.out") != image)) { bad(w, "with " + std::to_string(n) + " descriptors: exit status, report and output disagree", t, {"p.asm"}, x); return; }
		}
		wipe(sb.work);
	});
}

// C08: more symbols than 2^31 / 100, on the real program with overflow trapped
void cli_many(Run &r)
{
	r.phase("real program: tens of millions of symbols", 1, [&](Worker &w, u64) {
		enter(w);
		unsigned n = cfg.thorough() ? 56000000 : 21600000;
		auto name = [](unsigned i) { string s; do { s += "BCDEFGHIJKLMNOPQRSTUVWZ"[i % 23]; i /= 23; } while (i); return s + '_'; };
		FILE *f = fopen("many.asm", "w");
		if (!f) _exit(9);
		vector<unsigned> ask;
		for (unsigned i = 0; i < n; i++) {
			if (i % 1000 == 0) fprintf(f, ".ORG %u\n", i / 1000 % 60000);
			string s = name(i) + "\n";
			fwrite_unlocked(s.data(), 1, s.size(), f);
			if (i % (n / 61) == 7 || i + 1 == n) ask.push_back(i);
		}
		fputs(".ORG 0\n", f);
		for (unsigned i : ask) fprintf(f, " JMP %s\n", name(i).c_str());
		if (ferror(f) | fclose(f)) { unlink("many.asm"); return; }     // no room: nothing is decided
		Around ar; ar.seconds = cfg.thorough() ? 2400 : 300;
		Ran x = execGaia({"many.asm", "-o", "many.bin"}, -1, -1, ar);
		string is = get("many.bin"), want;
		for (unsigned i : ask) { unsigned v = i / 1000 % 60000; want += '\x4C'; want += (char)(v & 255); want += (char)(v >> 8); }
		unlink("many.asm"); unlink("many.bin");
		counted(w, x, 0);
		w.c->items.fetch_add(n);
		if (x.sig && (x.rc == 128 + SIGALRM || x.rc == 128 + SIGKILL)) return;      // slow, or out of memory: undecided
		string why;
		if (x.sig) why = "killed by signal " + std::to_string(x.rc - 128) + (x.rc == 128 + SIGILL ? " (a signed calculation overflowed)" : "");
		else if (x.rc) why = x.out.find("memory") != string::npos ? "" : "exit status " + std::to_string(x.rc);
		else if (x.out.find("\n" + std::to_string(n) + " symbols.") == string::npos) why = "wrong number of symbols reported";
		else if (is != want) why = "a symbol has a wrong value";
		if (!why.empty()) bad(w, why, Tree{{"many.asm", file(std::to_string(n) + " lines B_, C_, D_, ... (base 23, least digit first), an .ORG of one more each 1000 of them, then a JMP to each 1/61st of them")}}, {"many.asm", "-o", "many.bin"}, x);
	});
}

// C31: what the real program prints
void cli_told(Run &r)
{
	Tree std_ = standard();
	std_["d"] = special('d'); std_["ro"] = file("x", 0444); std_["locked"] = special('d', "", 0555); std_["%s.asm"] = file(" NOP\n"); std_["sl"] = special('l', "nowhere"); std_["loop"] = special('l', "loop");
	vector<string> al = {"s.asm", "-o", "x.bin", "--output", "-ox.bin", "t.asm", "bad.asm", "missing.asm", "old.bin", "--help", "--version", "-V", "--", "-x", "--unknown", "noread.asm", "sub", "sub/u.asm", "hard.lnk", "sym.lnk", "-os.asm", "", "-", "nodir/x", "-onodir/x",
		"ro", "-oro", "-od", "locked/x", "-olocked/x", "%s.asm", "%d%n.asm", "sl", "loop", "-oloop", "sub/none.asm", "t.asm/x", "-ot.asm/x"};
	u64 n = al.size();
	auto text = [&](Worker &w, const Tree &t, const vector<string> &a, const Ran &x) -> string {
		Want want = parseArgs(a);
		if (want.info) return x.rc == 0 && x.out.find("ERROR") != string::npos ? "prints an error" : x.out.empty() ? "prints nothing" : "";
		if (want.error || want.sources.size() != 1) return x.out.empty() ? "prints nothing" : x.out.find("ERROR:") != string::npos || x.success ? "prints more than how to use it" : "";
		string src = want.sources[0];
		vector<string> may = {"ERROR: assembled binary file could not be created\n"};
		string real = follow(t, src);
		bool dir = real != "" && t.at(real).kind == 'd', readable = real != "" && !dir && (t.at(real).mode & 0400);
		if (x.rc == 0) return wrongText(x.out, true, {});
		if (!readable) {
			may = {"ERROR: " + src + " could not be opened\n"};
			if (dir) may.push_back("ERROR: " + src + " could not be read\n");
			if (dir) may.push_back("ERROR: assembled binary file could not be created\n");
			return wrongText(x.out, false, may);
		}
		// the output's own troubles, or what is wrong with the source
		model::Result m; w.model.run(t.at(real).data, m);
		if (!m.ok) may.push_back(expectedDiag(m, src.c_str()));
		return wrongText(x.out, false, may);
	};
	auto one = [&](Worker &w, const vector<string> &a) {
		if (!sb.fresh) { layout(std_); sb.fresh = true; }
		Ran x = execGaia(a);
		Want want = parseArgs(a);
		if (!want.info && !want.error && want.sources.size() == 1) sb.fresh = false;
		counted(w, x, 0);
		string wr = x.sig ? "killed by a signal" : text(w, std_, a, x);
		return wr.empty() || bad(w, wr, std_, a, x);
	};
	r.phase("real program: all argument vectors up to 3", n * n, [&](Worker &w, u64 u) {
		enter(w);
		if (u < n && !one(w, {al[u]})) return;
		if (!u && !one(w, {})) return;
		if (!one(w, {al[u % n], al[u / n]})) return;
		for (u64 k = 0; k < n; k++) {
			if (!cfg.thorough() && (k + u) % 2 && al[u / n] != "-o" && al[u % n] != "-o") continue;
			if (!one(w, {al[u % n], al[u / n], al[k]}) || w.stopped()) return;
		}
	});
	string big; for (int i = 0; i < 700; i++) big += i % 50 ? " LDA #$EA\n" : " JMP END\n";
	big += "END NOP\n";
	vector<string> P = {" NOP\n", GOOD, ".ORG $20\n JMP F\n.ORG $10\nF NOP\n", ".ORG $1800\n NOP\n", big, " JMP F\nF\n"};
	r.phase("real program: file size limits, full device", P.size() * 16, [&](Worker &w, u64 u) {
		enter(w);
		sb.fresh = false;
		const string &p = P[u / 16];
		model::Result m; w.model.run(p, m);
		Tree t; t["p.asm"] = file(p);
		layout(t);
		u64 len = m.image.size(), st = len > 1000 && !cfg.thorough() ? 7 : 1;
		vector<string> fail = {"ERROR: assembled binary file could not be written\n"}, a = {"p.asm", "-o", "o.bin"};
		for (u64 k = u % 16 * st; k <= len; k += 16 * st) {
			unlink((sb.work + "/o.bin").c_str());
			Ran x = execGaia(a, k);
			counted(w, x, k < len);
			string wr = wrongText(x.out, x.rc == 0, fail);
			if (!wr.empty()) { bad(w, "with files limited to " + std::to_string(k) + " bytes: " + wr, t, a, x); return; }
		}
		if (u % 16 == 0 && sb.dropped) {
			Ran x = execGaia({"p.asm", "-o", "/dev/full"});
			counted(w, x, 0);
			string wr = wrongText(x.out, x.rc == 0, fail);
			if (!wr.empty()) bad(w, "onto a full device: " + wr, t, {"p.asm", "-o", "/dev/full"}, x);
		}
	});
}

// ---- the real program, killed ----------------------------------------------
namespace {
// Runs gaia up to its call-th system call and kills it there; part >= 0: in
// that write, of which part quarters still happen.  0: over before that, 1:
// killed, 2: no write, -1: cannot
int killedAt(const vector<string> &args, int call, int part, bool *writes = nullptr, int *calls = nullptr)
{
#ifdef __x86_64__
	vector<char *> av; av.push_back((char *)"gaia");
	for (auto &a : args) av.push_back((char *)a.c_str());
	av.push_back(nullptr);
	char *env[] = {(char *)"LC_ALL=C", nullptr};
	pid_t p = fork();
	if (!p) {
		int nul = open("/dev/null", O_RDWR);
		dup2(nul, 0); dup2(nul, 1); dup2(nul, 2);
		alarm(10);
		if (ptrace(PTRACE_TRACEME, 0, nullptr, nullptr)) _exit(125);
		execve(sb.bin.c_str(), av.data(), env);
		_exit(126);
	}
	int st;
	auto gone = [&](int r) { kill(p, SIGKILL); while (waitpid(p, &st, 0) == p && WIFSTOPPED(st)) {} return r; };
	if (waitpid(p, &st, 0) != p) return -1;
	if (!WIFSTOPPED(st)) return -1;
	ptrace(PTRACE_SETOPTIONS, p, nullptr, (void *)(PTRACE_O_TRACESYSGOOD | PTRACE_O_EXITKILL));
	bool entry = true;
	long sig = 0;
	for (int k = 0;;) {
		if (ptrace(PTRACE_SYSCALL, p, nullptr, (void *)sig)) return gone(-1);
		if (waitpid(p, &st, 0) != p) return -1;
		if (WIFEXITED(st) || WIFSIGNALED(st)) { if (calls) *calls = k; return 0; }
		sig = WSTOPSIG(st) == (SIGTRAP | 0x80) || WSTOPSIG(st) == SIGTRAP ? 0 : WSTOPSIG(st);
		if (WSTOPSIG(st) != (SIGTRAP | 0x80)) continue;
		if (entry && k++ == call) {
			user_regs_struct g;
			if (ptrace(PTRACE_GETREGS, p, nullptr, &g)) return gone(-1);
			bool wr = g.orig_rax == SYS_write || g.orig_rax == SYS_pwrite64;
			if (writes) *writes = wr;
			if (part < 0) return gone(1);
			if (!wr) return gone(2);
			g.rdx = part == 0 ? std::min<u64>(g.rdx, 1) : g.rdx * part / 4;
			if (ptrace(PTRACE_SETREGS, p, nullptr, &g)) return gone(-1);
			if (ptrace(PTRACE_SYSCALL, p, nullptr, nullptr) || waitpid(p, &st, 0) != p) return gone(-1);
			if (WIFEXITED(st) || WIFSIGNALED(st)) return 0;
			return gone(1);
		}
		entry = !entry;
	}
#else
	(void)args; (void)call; (void)part; (void)writes; (void)calls;
	return -1;
#endif
}
}

void cli_stopped(Run &r)
{
	string big; for (int i = 0; i < (cfg.thorough() ? 900 : 120); i++) big += i % 30 ? " LDA #$EA\n" : " JMP END\n";
	big += "END NOP\n";
	static vector<string> P;
	P = {" NOP\n", GOOD, BAD, ".ORG $20\n JMP F\n.ORG $10\nF NOP\n", ".ORG $1800\n NOP\n JMP F\n.ORG $20\n BNE F\nF\n", big, "", " LDA #1\n JMP F\n"};
	const u64 N = P.size();
	const vector<string> args = {"p.asm", "-o", "o.bin"};
	// what is there: nothing, an output of before, an output that others use as well
	static const int LAYS = 3;
	auto lay = [&](u64 k, int how) {
		Tree t;
		t["p.asm"] = file(P[k]);
		t["q.asm"] = file(OTHER);
		t["o.bin.tmp"] = file("mine"); t["o.bin~"] = file("mine"); t["a.out"] = file("mine"); t["o.bin.lock"] = file("mine", 0600);
		t["sub"] = special('d'); t["sub/p.asm"] = file(OTHER);
		if (how == 1) t["o.bin"] = file(string(9000, 'z'));
		if (how == 2) t["o.bin"] = file("short");
		return t;
	};
	auto plain = [&](Worker &w, u64 k, string &img) {
		(void)w;
		Tree t; t["p.asm"] = file(P[k]);
		layout(t);
		Ran x = execGaia(args);
		img = x.rc ? "" : get(sb.work + "/o.bin");
		return x;
	};
	// files that were there before are as they were, the next run as ever
	auto judge = [&](Worker &w, u64 k, const Tree &t, const Tree &was, const string &how, const Ran &want, const string &img) {
		Tree is; scan(sb.work, "", is);
		Ran none{};
		for (auto &[n, x] : was) {
			if (n == "o.bin") continue;
			auto i = is.find(n);
			if (i == is.end()) return bad(w, how + ": removed " + n, t, args, none);
			if (!(i->second == x)) return bad(w, how + ": changed " + n + " (now \"" + shown(i->second.data, 80) + "\")", t, args, none);
		}
		Ran x = execGaia(args);
		counted(w, x, k);
		Tree now; scan(sb.work, "", now);
		if (x.rc != want.rc || x.out != want.out) return bad(w, "after a run " + how + " exit status " + std::to_string(x.rc) + " and \"" + shown(x.out, 200) + "\", otherwise " + std::to_string(want.rc) + " and \"" + shown(want.out, 200) + "\"", t, args, x);
		if (!x.rc && now["o.bin"].data != img) return bad(w, "after a run " + how + " the output holds \"" + shown(now["o.bin"].data, 80) + "\", otherwise \"" + shown(img, 80) + "\"", t, args, x);
		if (now["p.asm"].data != P[k]) return bad(w, "after a run " + how + " the next changed the source", t, args, x);
		return true;
	};
	r.phase("real program: killed at every system call", N * LAYS * 2, [&](Worker &w, u64 u) {
		enter(w);
		sb.fresh = false;
		u64 k = u % N; int how = (int)(u / N % LAYS), first = (int)(u / N / LAYS);
		string img;
		Ran want = plain(w, k, img);
		Tree t = lay(k, how);
		u64 other = (k * 3 + how + 1) % N;
		int n = 0;
		layout(t);
		if (killedAt(args, 1 << 30, -1, nullptr, &n) < 0) { w.c->extra[1].fetch_add(1); return; }
		for (int call = 0;; call++) {
			if (call > 90 && call < n - 40 && call % (1 + n / (cfg.thorough() ? 400 : 90))) continue;
			layout(t);
			Tree was; scan(sb.work, "", was);
			bool writes = false;
			if (first) {         // of another source before
				put(sb.work + "/p.asm", P[other]);
				killedAt(args, call * 7 % 60, -1);
				put(sb.work + "/p.asm", P[k]);
			}
			int s = killedAt(args, call, -1, &writes);
			if (s) w.c->extra[0].fetch_add(1);
			if (!judge(w, k, t, was, "killed at system call " + std::to_string(call), want, img)) return;
			if (!s) break;
			for (int part = 0; writes && part < 4; part++) {
				layout(t);
				if (killedAt(args, call, part) != 1) continue;
				w.c->extra[0].fetch_add(1);
				if (!judge(w, k, t, was, "killed in system call " + std::to_string(call) + ", a write, part " + std::to_string(part), want, img)) return;
			}
		}
	});
	u64 refused = 0;
	for (int i = 0; i < 64; i++) refused += sh->c[i].extra[1];
	if (refused) r.notes.push_back("the sandbox does not let a process trace its child: killing at system calls left to the in-process runs and the file size limits");
	r.phase("real program: killed by the file size limit", N * 16, [&](Worker &w, u64 u) {
		enter(w);
		sb.fresh = false;
		u64 k = u / 16;
		string img;
		Ran want = plain(w, k, img);
		Tree t = lay(k, (int)(u % LAYS));
		u64 len = std::max<u64>(img.size(), 8), st = len > 1000 && !cfg.thorough() ? 41 : 1;
		Around ar; ar.xfsz = true;
		for (u64 q = u % 16 * st; q <= len; q += 16 * st) {
			layout(t);
			Tree was; scan(sb.work, "", was);
			Ran x = execGaia(args, q, -1, ar);
			if (x.sig) w.c->extra[0].fetch_add(1);
			if (x.success && x.rc) { bad(w, "with files limited to " + std::to_string(q) + " bytes: success reported, exit status " + std::to_string(x.rc), t, args, x); return; }
			if (!judge(w, k, t, was, "killed with files limited to " + std::to_string(q) + " bytes", want, img)) return;
		}
	});
}

// ---- C35: two runs at the same time ------------------------------------------
namespace {
struct Job { vector<string> args; string cwd; vector<string> env = {}; };

#ifdef __x86_64__
// A run whose system calls happen one at a time, when it is told.
struct Traced {
	pid_t pid = 0;
	int fd = -1, st = 0, calls = 0, files = -1;
	bool over = false, blocked = false, ok = false;
	string out;
	bool start(const Job &j)
	{
		int pfd[2];
		if (pipe2(pfd, O_CLOEXEC)) _exit(9);
		vector<char *> av; av.push_back((char *)"gaia");
		for (auto &a : j.args) av.push_back((char *)a.c_str());
		av.push_back(nullptr);
		vector<char *> envs = {(char *)"LC_ALL=C"};
		for (auto &e : j.env) envs.push_back((char *)e.c_str());
		envs.push_back(nullptr);
		char **env = envs.data();
		pid = fork();
		if (!pid) {
			int nul = open("/dev/null", O_RDONLY);
			dup2(nul, 0); dup2(pfd[1], 1); dup2(pfd[1], 2);
			if (nul > 2) close(nul);
			if (!j.cwd.empty() && chdir(j.cwd.c_str())) _exit(126);
			alarm(60);
			if (ptrace(PTRACE_TRACEME, 0, nullptr, nullptr)) _exit(125);
			execve(sb.bin.c_str(), av.data(), env);
			_exit(126);
		}
		close(pfd[1]);
		fd = pfd[0];
		if (waitpid(pid, &st, 0) != pid || !WIFSTOPPED(st)) { over = true; return false; }
		ptrace(PTRACE_SETOPTIONS, pid, nullptr, (void *)(PTRACE_O_TRACESYSGOOD | PTRACE_O_EXITKILL));
		ok = next();
		return ok;
	}
	// waits until it stops, at most a second
	bool wait()
	{
		for (int i = 0; i < 20000; i++) {
			pid_t p = waitpid(pid, &st, WNOHANG);
			if (p == pid) {
				if (WIFEXITED(st) || WIFSIGNALED(st)) over = true;
				blocked = false;
				return true;
			}
			if (i > 200) usleep(50);
		}
		return false;
	}
	// on to the next stop before or after a system call
	bool next()
	{
		long sig = 0;
		for (;;) {
			if (!blocked && ptrace(PTRACE_SYSCALL, pid, nullptr, (void *)sig)) return false;
			if (!wait()) { blocked = true; return true; }
			if (over || WSTOPSIG(st) == (SIGTRAP | 0x80)) return true;
			sig = WSTOPSIG(st) == SIGTRAP ? 0 : WSTOPSIG(st);
		}
	}
	// makes one system call
	void step()
	{
		if (over) return;
		if (files < 0) {
			user_regs_struct g;
			if (!ptrace(PTRACE_GETREGS, pid, nullptr, &g) && g.orig_rax == SYS_openat && !(g.rdx & O_CLOEXEC)) files = calls;
		}
		calls++;
		if (!next()) { over = true; return; }
		if (!over && !blocked && !next()) over = true;
	}
	void steps(int n) { for (int i = 0; i < n && !over && !blocked; i++) step(); }
	void rest()
	{
		if (blocked && !over) { next(); if (!blocked && !over) next(); }
		while (!over && !blocked) step();
	}
	Ran end(bool killIt)
	{
		if (killIt || !over) { kill(pid, SIGKILL); if (!over) while (waitpid(pid, &st, 0) == pid && WIFSTOPPED(st)) {} }
		Ran r{};
		char b[4096]; ssize_t n;
		while ((n = read(fd, b, sizeof b)) > 0) r.out.append(b, n);
		close(fd);
		r.sig = WIFSIGNALED(st);
		r.rc = r.sig ? 128 + WTERMSIG(st) : WEXITSTATUS(st);
		r.success = r.out.find("Assembly successful.") != string::npos;
		return r;
	}
};
#endif
}

void prop_c35(Run &r)
{
	r.rule = "Pairs of runs of the real program with different outputs, their system calls interleaved in every order of up to two (three) changes between the runs, from the first file either opens to the end; each must end and write exactly as it does alone, also when the other is killed on the way. An execution is nontrivial when the texts and outputs differ from those of every other.";
	r.sample("gaia a.asm -o x.bin up to its 9th call | gaia b.asm -o x.out up to its 12th | the first to its end | the second to its end");
	r.assume("Both runs are those of one user on one machine; what happens inside one system call is not divided.");
#ifdef __x86_64__
	struct Pair { Job a, b; const char *outA, *outB; };
	static const vector<Pair> pairs = {
		{{{"a.asm", "-o", "x.bin"}, ""}, {{"b.asm", "-o", "y.bin"}, ""}, "x.bin", "y.bin"},
		{{{"a.asm", "-o", "x.bin"}, ""}, {{"a.asm", "-o", "x.out"}, ""}, "x.bin", "x.out"},
		{{{"a.asm", "-o", "d/o"}, ""}, {{"b.asm", "-o", "e/o"}, ""}, "d/o", "e/o"},
		{{{"s.asm"}, "d"}, {{"s.asm"}, "e"}, "d/a.out", "e/a.out"},
		{{{"s.asm", "-o", "../d.bin"}, "d"}, {{"../b.asm", "-o", "o"}, "e"}, "d.bin", "e/o"},
		{{{"a.asm"}, ""}, {{"a.asm", "-o", "a.out2"}, ""}, "a.out", "a.out2"},
		{{{"a.asm", "-o", "old"}, ""}, {{"b.asm", "-o", "old.tmp"}, ""}, "old", "old.tmp"},
	};
	static const vector<std::pair<string, string>> texts = {
		{" NOP\n JMP F\nF RTS\n", " LDA #$77\n LDX #1\n"},
		{".ORG $1800\n NOP\n JMP F\n.ORG $20\n BNE F\nF\n", "L JMP L\n JMP M\nM\n BNE L\n"},
		{" LDA #\n", " NOP\n"},
		{" JMP LATER\n", " JMP LATER\nLATER RTS\n"},
		{GOOD, GOOD},
	};
	const int NP = (int)pairs.size(), NT = (int)texts.size();
	auto lay = [&](int t) {
		Tree x;
		x["a.asm"] = file(texts[t].first); x["b.asm"] = file(texts[t].second);
		x["d"] = special('d'); x["e"] = special('d');
		x["d/s.asm"] = file(texts[t].first); x["e/s.asm"] = file(texts[t].second);
		x["old"] = file(string(50, 'z'));
		x["tmp"] = special('d');
		return x;
	};
	auto alone = [&](const Job &j) { Around ar; ar.cwd = j.cwd; ar.env = j.env; return execGaia(j.args, -1, -1, ar); };
	const int SLICE = 8;
	r.phase("two runs interleaved", NP * NT * 2 * SLICE, [&](Worker &w, u64 u) {
		enter(w);
		sb.fresh = false;
		int slice = u % SLICE, pi = u / SLICE % NP, ti = u / SLICE / NP % NT, swap = (int)(u / SLICE / NP / NT);
		if (!cfg.thorough() && (swap ? (pi + ti) % 5 : ti == 2 && pi % 3)) return;
		Pair p = pairs[pi];
		if (swap) { std::swap(p.a, p.b); std::swap(p.outA, p.outB); }
		// one place for all that is temporary, cached or logged
		if ((pi + ti) % 2 == 0) for (const char *v : {"TMPDIR", "TMP", "TEMP", "HOME", "XDG_CACHE_HOME", "XDG_RUNTIME_DIR", "XDG_STATE_HOME", "XDG_CONFIG_HOME", "XDG_DATA_HOME"}) { p.a.env.push_back(string(v) + "=" + sb.work + "/tmp"); p.b.env.push_back(p.a.env.back()); }
		Tree t = lay(ti);
		layout(t);
		Ran wa = alone(p.a), wb = alone(p.b);
		string ia = wa.rc ? "" : get(sb.work + "/" + p.outA), ib = wb.rc ? "" : get(sb.work + "/" + p.outB);
		// how many calls each has, and where they begin to matter
		int n[2], f[2];
		for (int q = 0; q < 2; q++) {
			layout(t);
			Traced x;
			if (!x.start(q ? p.b : p.a)) { x.end(true); w.c->extra[1].fetch_add(1); return; }
			for (int i = 0; i < 20 && !x.over; i++) x.rest();
			n[q] = x.calls; f[q] = x.files < 0 ? 0 : x.files;
			Ran y = x.end(false);
			Ran &want = q ? wb : wa;
			if (y.rc != want.rc || y.out != want.out) { bad(w, "prints \"" + shown(y.out, 200) + "\" when traced, \"" + shown(want.out, 200) + "\" otherwise", t, q ? p.b.args : p.a.args, y); return; }
		}
		auto clean = [&] { Tree is; scan(sb.work, "", is); for (auto i = is.rbegin(); i != is.rend(); ++i) if (!t.count(i->first)) { if (i->second.kind == 'd') rmdir((sb.work + "/" + i->first).c_str()); else unlink((sb.work + "/" + i->first).c_str()); } put(sb.work + "/old", t["old"].data); };
		auto judge = [&](int q, const Ran &x, const string &how) {
			const Ran &want = q ? wb : wa;
			const string &img = q ? ib : ia;
			const char *out = q ? p.outB : p.outA;
			string y, o = x.rc ? "" : get(sb.work + "/" + out);
			if (x.rc != want.rc || x.out != want.out) y = "exit status " + std::to_string(x.rc) + " and \"" + shown(x.out, 200) + "\", alone " + std::to_string(want.rc) + " and \"" + shown(want.out, 200) + "\"";
			else if (o != img) y = string("output ") + out + " holds \"" + shown(o, 80) + "\", alone \"" + shown(img, 80) + "\"";
			if (y.empty()) return true;
			return bad(w, "at the same time as " + argText(q ? p.a.args : p.b.args) + ", " + how + ": " + y, t, q ? p.b.args : p.a.args, x);
		};
		auto run = [&](int k, int l, int m, int kills) {
			clean();
			Traced a, b;
			if (!a.start(p.a)) { a.end(true); return true; }
			if (!b.start(p.b)) { a.end(true); b.end(true); return true; }
			a.steps(k); b.steps(l);
			if (kills == 1) a.end(true);
			else if (m < 0) a.rest(); else a.steps(m);
			b.rest();
			for (int i = 0; i < 20 && (!b.over || (!kills && !a.over)); i++) { if (!kills) a.rest(); b.rest(); }
			string how = "the first up to call " + std::to_string(k) + ", the second up to call " + std::to_string(l) + (kills ? ", the first killed" : m < 0 ? ", the first to its end" : ", the first " + std::to_string(m) + " calls more, the second to its end");
			w.c->transitions.fetch_add(1);
			Ran xb = b.end(false), xa{};
			if (!kills) xa = a.end(false);
			counted(w, xb, xa.rc + 7 * kills);
			if (!judge(1, xb, how)) return false;
			if (!kills && !judge(0, xa, how)) return false;
			return true;
		};
		for (int k = f[0] + slice; k <= n[0]; k += SLICE) {
			for (int l = f[1]; l <= n[1]; l++) {
				if (!run(k, l, -1, 0)) return;
				if ((cfg.thorough() || (k + l) % 3 == 0) && !run(k, l, -1, 1)) return;
				if (cfg.thorough()) { for (int m = 1; k + m < n[0]; m++) if (!run(k, l, m, 0)) return; }
				else if ((k + l) % 4 == 0 && !run(k, l, 1 + (k * 5 + l) % 11, 0)) return;
			}
			if (w.stopped()) return;
		}
	});
	u64 refused = 0;
	for (int i = 0; i < 64; i++) refused += sh->c[i].extra[1];
	if (refused) r.notes.push_back("the sandbox does not let a process trace its child: only whole runs at the same time, in whatever order the system chose");
#endif
	// without a scheduler: started together, many at a time
	r.phase("many runs at once", 24, [&](Worker &w, u64 u) {
		enter(w);
		sb.fresh = false;
		Tree t;
		vector<string> src = {" NOP\n", GOOD, " LDA #\n", ".ORG $3000\n RTS\n", " JMP F\nF\n", OTHER};
		for (size_t i = 0; i < 12; i++) { t["p" + std::to_string(i) + ".asm"] = file(src[(i * (u % 5 + 1) + u) % src.size()]); }
		layout(t);
		vector<pid_t> pid;
		for (volatile int i = 0; i < 12; i = i + 1) {
			string s = "p" + std::to_string(u % 2 ? i : i / 2) + ".asm", o = "o" + std::to_string(i);
			pid_t p = vfork();
			if (!p) { int nul = open("/dev/null", O_RDWR); dup2(nul, 0); dup2(nul, 1); dup2(nul, 2); char *av[] = {(char *)"gaia", s.data(), (char *)"-o", o.data(), nullptr}, *env[] = {nullptr}; execve(sb.bin.c_str(), av, env); _exit(126); }
			pid.push_back(p);
		}
		for (int i = 0; i < 12; i++) {
			Ran x{}; int st; waitpid(pid[i], &st, 0);
			x.sig = WIFSIGNALED(st); x.rc = x.sig ? 128 + WTERMSIG(st) : WEXITSTATUS(st);
			vector<string> args = {"p" + std::to_string(u % 2 ? i : i / 2) + ".asm", "-o", "o" + std::to_string(i)};
			counted(w, x, i);
			model::Result m; w.model.run(t[args[0]].data, m);
			if ((x.rc == 0) != m.ok) { for (int q = i + 1; q < 12; q++) waitpid(pid[q], &st, 0); bad(w, "exit status " + std::to_string(x.rc) + " with eleven other runs at the same time", t, args, x); return; }
			if (m.ok && get(sb.work + "/" + args[2]) != string(m.image.begin(), m.image.end())) { for (int q = i + 1; q < 12; q++) waitpid(pid[q], &st, 0); bad(w, "wrong output with eleven other runs at the same time", t, args, x); return; }
		}
	});
}
