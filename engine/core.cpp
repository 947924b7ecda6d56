#include "core.h"
#include <algorithm>
#include <cerrno>
#include <elf.h>
#include <set>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <malloc.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

Config cfg;
Shared *sh;
static Slot *slots;
static std::atomic<u64> *distinctTab;
static std::atomic<u64> *seenTab;
static const u64 SEEN_CAP = 1u << 24;
static Sut theSut;

double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

static void *shared(size_t n)
{
	void *p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (p == MAP_FAILED) { perror("mmap"); exit(3); }
	return p;
}

string lit(unsigned v, int radix)
{
	char b[32];
	if (radix == 16) snprintf(b, sizeof b, "$%X", v);
	else if (radix == 10) snprintf(b, sizeof b, "%u", v);
	else {
		string s;
		do { s.insert(s.begin(), '0' + (v & 1)); v >>= 1; } while (v);
		return "%" + s;
	}
	return b;
}
string shown(string_view s, size_t max)
{
	string r;
	for (unsigned char c : s) {
		if (r.size() >= max) { r += "..."; break; }
		if (c == '\n') r += "\\n";
		else if (c == '\t') r += "\\t";
		else if (c == '\r') r += "\\r";
		else if (c == '\\') r += "\\\\";
		else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); r += b; }
		else r += c;
	}
	return r;
}
static string unshown(const string &s)
{
	string r;
	for (size_t i = 0; i < s.size(); i++) {
		if (s[i] != '\\') { r += s[i]; continue; }
		char c = s[++i];
		if (c == 'n') r += '\n';
		else if (c == 't') r += '\t';
		else if (c == 'r') r += '\r';
		else if (c == 'x') { r += (char)strtol(s.substr(i + 1, 2).c_str(), nullptr, 16); i += 2; }
		else r += c;
	}
	return r;
}

static string planText(const Plan &p)
{
	string s = std::to_string(p.failIo[0]) + " " + std::to_string(p.failIo[1]) + " " + std::to_string(p.failIoOn) + " " +
		std::to_string(p.failAlloc) + " " + std::to_string(p.failAllocOn) + " " + std::to_string(p.readChunk) + " " +
		std::to_string(p.stale) + " " + std::to_string(p.fill) + " " + std::to_string(p.world) + " " + std::to_string(p.err) + " " + std::to_string(p.part) + " " + std::to_string(p.cuts.size());
	for (int c : p.cuts) s += " " + std::to_string(c);
	if (p.failSize || p.failAlloc2 >= 0) s += " alloc " + std::to_string(p.failAlloc2) + " " + std::to_string(p.failSize);
	if (!p.stops.empty()) { s += " stops"; for (int k : p.stops) s += " " + std::to_string(k); }
	return s;
}
static void planParse(const string &s, Plan &p)
{
	int on, aon; unsigned n = 0; int used = 0;
	int part = 0;
	if (sscanf(s.c_str(), "%d %d %d %d %d %d %d %d %d %d %d %u%n", &p.failIo[0], &p.failIo[1], &on, &p.failAlloc, &aon, &p.readChunk, &p.stale, &p.fill, &p.world, &p.err, &part, &n, &used) < 12) return;
	p.part = part;
	p.failIoOn = on; p.failAllocOn = aon;
	const char *q = s.c_str() + used;
	for (unsigned i = 0; i < n; i++) p.cuts.push_back((uint8_t)strtol(q, (char **)&q, 10));
	if (!strncmp(q, " alloc ", 7)) { int m = 0; if (sscanf(q, " alloc %d %d%n", &p.failAlloc2, &p.failSize, &m) < 2) return; q += m; }
	if (!strncmp(q, " stops ", 7)) for (q += 6; *q;) { char *e; long v = strtol(q, &e, 10); if (e == q) break; p.stops.push_back(v); q = e; }
}
string caseToText(const Case &c)
{
	return "rel: " + std::to_string(c.rel) + "\nmask: " + std::to_string(c.mask) + "\nname: " + shown(c.name, 1 << 20) +
		"\nnote: " + shown(c.note, 1 << 20) + "\nplan: " + planText(c.plan) + "\nsrc: " + shown(c.src, 1 << 26) +
		"\naux: " + shown(c.aux, 1 << 26) + "\n";
}
bool caseFromText(const string &t, Case &c)
{
	size_t p = 0;
	int seen = 0;
	while (p < t.size()) {
		size_t e = t.find('\n', p);
		if (e == string::npos) e = t.size();
		string l = t.substr(p, e - p);
		p = e + 1;
		size_t k = l.find(": ");
		if (k == string::npos) continue;
		string key = l.substr(0, k), v = l.substr(k + 2);
		if (key == "rel") c.rel = (Rel)atoi(v.c_str()), seen++;
		else if (key == "mask") c.mask = atoi(v.c_str()), seen++;
		else if (key == "name") c.name = unshown(v);
		else if (key == "note") c.note = unshown(v);
		else if (key == "plan") planParse(v, c.plan);
		else if (key == "src") c.src = unshown(v), seen++;
		else if (key == "aux") c.aux = unshown(v);
	}
	return seen == 3;
}

// ---------------------------------------------------------------- workers
struct Hdr { uint32_t rel, mask, src, aux, plan, note, name; };

void Worker::publish(int rel, unsigned mask, string_view src, string_view aux, const Plan *p, const char *nt, const char *name)
{
	string pt = p && !p->plain() ? planText(*p) : string();
	Hdr h{(uint32_t)rel, mask, (uint32_t)src.size(), (uint32_t)aux.size(), (uint32_t)pt.size(), (uint32_t)strlen(nt), (uint32_t)strlen(name)};
	if (sizeof h + (size_t)h.src + h.aux + h.plan + h.note + h.name > sizeof slot->buf) abort();
	char *q = slot->buf;
	auto put = [&](const void *d, size_t n) { memcpy(q, d, n); q += n; };
	put(&h, sizeof h); put(src.data(), h.src); put(aux.data(), h.aux); put(pt.data(), h.plan); put(nt, h.note); put(name, h.name);
	slot->len.store(1, std::memory_order_release);
	c->beat.fetch_add(1, std::memory_order_relaxed);
}
static bool slotCase(const Slot &s, Case &c)
{
	uint32_t l = s.len.load();
	if (l != 1) return false;
	Hdr h; memcpy(&h, s.buf, sizeof h);
	const char *q = s.buf + sizeof h;
	auto get = [&](size_t n) { string r(q, n); q += n; return r; };
	c.rel = (Rel)h.rel; c.mask = h.mask;
	c.src = get(h.src); c.aux = get(h.aux);
	string pt = get(h.plan);
	if (!pt.empty()) planParse(pt, c.plan);
	c.note = get(h.note); c.name = get(h.name);
	return true;
}

void Worker::note(u64 h)
{
	if (!h) h = 1;
	u64 i = (h * 0x9E3779B97F4A7C15ull) >> 41;   // 23 bits
	for (int k = 0; k < 64; k++, i = (i + 1) & (DISTINCT_CAP - 1)) {
		u64 v = distinctTab[i].load(std::memory_order_relaxed);
		if (v == h) return;
		if (!v) {
			u64 z = 0;
			if (distinctTab[i].compare_exchange_strong(z, h)) { sh->distinct.fetch_add(1, std::memory_order_relaxed); return; }
			if (z == h) return;
		}
	}
	sh->distinctFull.store(1, std::memory_order_relaxed);
}

static u64 hashBytes(u64 h, const void *p, size_t n)
{
	auto *b = (const uint8_t *)p;
	for (; n >= 8; n -= 8, b += 8) { u64 v; memcpy(&v, b, 8); h = (h ^ v) * 0x9FB21C651E98DF25ull; h ^= h >> 32; }
	for (; n; n--, b++) { h = (h ^ *b) * 0x9FB21C651E98DF25ull; h ^= h >> 29; }
	return h;
}

void Worker::count(const Outcome &oc)
{
	c->execs.fetch_add(1, std::memory_order_relaxed);
	(oc.rc ? c->rejected : c->accepted).fetch_add(1, std::memory_order_relaxed);
	u64 h = hashBytes(oc.rc + 77, oc.out.data(), oc.out.size());
	if (!oc.rc) h = hashBytes(h, oc.img, oc.len);
	note(h);
}

static string imgText(const uint8_t *p, size_t n, size_t around = 0)
{
	string s = std::to_string(n) + " bytes";
	size_t from = around > 8 ? around - 8 : 0;
	if (from) s += " [from " + std::to_string(from) + "]";
	char b[8];
	for (size_t i = from; i < n && i < from + 24; i++) { snprintf(b, sizeof b, " %02x", p[i]); s += b; }
	return s;
}

static string rtrim(string s, const char *set) { size_t p = s.find_last_not_of(set); s.resize(p == string::npos ? 0 : p + 1); return s; }

string expectedDiag(const model::Result &r, const char *name)
{
	string s = string(name) + ":" + std::to_string(r.line) + ": ERROR: " + model::kindText(r.kind) + "\n";
	s += rtrim(r.echo, " \t") + "\n";
	if (r.col >= 0) {
		int col = 0;
		for (int i = 0; i < r.col; i++) col = r.echo[i] == '\t' ? (col / 8 + 1) * 8 : col + 1;
		s += string(col, ' ') + "^~~~~~\n";
	}
	return s + "\n";
}
static string dropCr(const string &s)
{
	string r;
	size_t p = 0;
	while (p < s.size()) {
		size_t e = s.find('\n', p);
		if (e == string::npos) e = s.size();
		string l = s.substr(p, e - p);
		if (l.size() && l.back() == '\r') { l.pop_back(); l = rtrim(l, " \t"); }
		r += l + "\n";
		p = e + 1;
	}
	return r;
}

string wrongText(const string &out, bool ok, const vector<string> &allowed);

bool Worker::judge(const Outcome &oc, unsigned mask, const char *name)
{
	why.clear();
	if (oc.rc != 0 && oc.rc != 1 && (mask & C_TERM)) { why = "exit status " + std::to_string(oc.rc); return false; }
	if (oc.overflow) { why = "output grew beyond 16 MB"; return false; }
	if ((mask & C_REPORT) && oc.success != (oc.rc == 0)) {
		why = "exit status " + std::to_string(oc.rc) + (oc.success ? " with" : " without") + " a success report";
		return false;
	}
	if ((mask & C_REJECT) && oc.rc == 0) { why = "accepted; it must be rejected"; return false; }
	if ((mask & C_ACCEPT) && oc.rc != 0) { why = "rejected; it must be accepted"; return false; }
	if ((mask & C_TEXT) && !oc.rc && !(why = wrongText(oc.out, true, {})).empty()) return false;
	if (!(mask & (C_VERDICT | C_IMAGE | C_BYTES | C_SYMS | C_DIAG | C_LINE))) return true;
	if (mr.outOfDomain) return true;
	bool acc = oc.rc == 0;
	if ((mask & C_VERDICT) && acc != mr.ok) {
		why = mr.ok ? "rejected; it must be accepted (" + shown(oc.out, 200) + ")"
			: string("accepted; it must be rejected (") + model::kindText(mr.kind) + " at line " + std::to_string(mr.line) + ")";
		return false;
	}
	if (acc && mr.ok) {
		if (mask & C_IMAGE) {
			size_t n = std::min(oc.len, mr.image.size()), i = 0;
			while (i < n && oc.img[i] == mr.image[i]) i++;
			if (i < n || oc.len != mr.image.size()) {
				why = "output differs at offset " + std::to_string(i) + ": is " + imgText(oc.img, oc.len, i) + ", expected " +
					imgText(mr.image.data(), mr.image.size(), i);
				return false;
			}
		}
		if (mask & (C_BYTES | C_SYMS)) {
			if (!oc.summaryOk) { why = "report unreadable: " + shown(oc.out, 200); return false; }
			if ((mask & C_BYTES) && (oc.bytes != mr.bytes || oc.hexBytes != mr.bytes)) {
				why = "reports " + std::to_string(oc.bytes) + " (hex: " + std::to_string(oc.hexBytes) + ") bytes, expected " + std::to_string(mr.bytes);
				return false;
			}
			if ((mask & C_SYMS) && oc.symbols != mr.symbols) {
				why = "reports " + std::to_string(oc.symbols) + " symbols, expected " + std::to_string(mr.symbols);
				return false;
			}
		}
	}
	if (!acc && !mr.ok) {
		if (mask & C_LINE) {
			size_t l = strlen(name);
			if (oc.out.compare(0, l, name) || oc.out[l] != ':' || atoi(oc.out.c_str() + l + 1) != mr.line) {
				why = "diagnostic names the wrong line, expected " + std::to_string(mr.line) + ": " + shown(oc.out, 200);
				return false;
			}
		}
		if (mask & C_DIAG) {
			string e = expectedDiag(mr, name);
			bool same = e == oc.out;
			if (!same && mr.echo.size() && mr.echo.back() == '\r') same = dropCr(e) == dropCr(oc.out);
			if (!same) { why = "diagnostic is \"" + shown(oc.out) + "\", expected \"" + shown(e) + "\""; return false; }
		}
	}
	return true;
}

bool Worker::verify(string_view src, unsigned mask, const char *nt, const char *name, const Plan *plan)
{
	if (!sut->canName(name)) return true;
	publish(R_MODEL, mask, src, {}, plan, nt, name);
	if (mask & (C_VERDICT | C_IMAGE | C_BYTES | C_SYMS | C_DIAG | C_LINE)) {
		model.run(src, mr);
		if (mr.outOfDomain) c->skipped.fetch_add(1, std::memory_order_relaxed);
	}
	sut->run(src, o, plan, name);
	count(o);
	if (judge(o, mask, name)) return true;
	Case cs; cs.mask = mask; cs.src = src; cs.note = nt; cs.name = name;
	if (plan) cs.plan = *plan;
	violation(cs);
	return false;
}

static bool sameOutcome(const Outcome &a, const Outcome &b, const vector<uint8_t> &aImg, unsigned mask, string &why)
{
	// a: reference, b: other
	if ((mask & C_REJECT) && !a.rc) return true;      // about rejected sources only
	if ((a.rc == 0) != (b.rc == 0)) {
		why = string(b.rc ? "rejected" : "accepted") + ", the equivalent source is " + (a.rc ? "rejected" : "accepted") + ": " + shown(b.rc ? b.out : a.out, 200);
		return false;
	}
	if (a.rc) {
		if (!(mask & C_DIAG) || a.out == b.out) return true;
		why = "prints \"" + shown(b.out, 300) + "\", the equivalent source \"" + shown(a.out, 300) + "\"";
		return false;
	}
	if (mask & C_IMAGE)
		if (aImg.size() != b.len || memcmp(aImg.data(), b.img, b.len)) {
			why = "output is " + imgText(b.img, b.len) + ", the equivalent source gives " + imgText(aImg.data(), aImg.size());
			return false;
		}
	if ((mask & C_BYTES) && (a.bytes != b.bytes || a.hexBytes != b.hexBytes)) { why = "reported byte counts differ"; return false; }
	if ((mask & C_SYMS) && a.symbols != b.symbols) { why = "reported symbol counts differ"; return false; }
	return true;
}

bool Worker::rejects(string_view src, const char *nt)
{
	model.run(src, mr);
	if (mr.ok || mr.outOfDomain) return true;
	publish(R_MODEL, C_REJECT | C_REPORT, src, {}, nullptr, nt, "prog.asm");
	sut->run(src, o);
	count(o);
	if (judge(o, C_REJECT | C_REPORT, "prog.asm")) return true;
	Case cs; cs.mask = C_REJECT | C_REPORT; cs.src = src; cs.note = nt;
	violation(cs);
	return false;
}

bool Worker::same(string_view src, string_view ref, unsigned mask, const char *nt)
{
	publish(R_SAME, mask, src, ref, nullptr, nt, "prog.asm");
	sut->run(ref, o2);
	vector<uint8_t> img(o2.img, o2.img + o2.len);
	sut->run(src, o);
	count(o);
	why.clear();
	if (sameOutcome(o2, o, img, mask, why) && judge(o, mask & (C_REPORT | C_TERM), "prog.asm")) return true;
	Case cs; cs.rel = R_SAME; cs.mask = mask; cs.src = src; cs.aux = ref; cs.note = nt;
	violation(cs);
	return false;
}

// the same source under a plan that changes nothing the source can see
bool Worker::steady(string_view src, const Plan &p, const char *nt, const char *name)
{
	if (!sut->canName(name)) return true;
	publish(R_STEADY, 0, src, {}, &p, nt, name);
	Case cs; cs.rel = R_STEADY; cs.src = src; cs.plan = p; cs.note = nt; cs.name = name;
	if (checkCase(cs)) { count(o); return true; }
	violation(cs);
	return false;
}

bool Worker::faultIo(string_view src, const Plan &p, const char *nt)
{
	publish(R_IO, 0, src, {}, &p, nt, "prog.asm");
	Case cs; cs.rel = R_IO; cs.src = src; cs.plan = p; cs.note = nt;
	if (checkCase(cs)) { count(o); return true; }
	violation(cs);
	return false;
}
bool Worker::faultAlloc(string_view src, const Plan &p, const char *nt)
{
	publish(R_ALLOC, 0, src, {}, &p, nt, "prog.asm");
	Case cs; cs.rel = R_ALLOC; cs.src = src; cs.plan = p; cs.note = nt;
	if (checkCase(cs)) { count(o); return true; }
	violation(cs);
	return false;
}

bool Worker::told(string_view src, const Plan &p, const char *nt, const char *name)
{
	if (!sut->canName(name)) return true;
	publish(R_TOLD, 0, src, {}, &p, nt, name);
	Case cs; cs.rel = R_TOLD; cs.src = src; cs.plan = p; cs.note = nt; cs.name = name;
	if (checkCase(cs)) { count(o); return true; }
	violation(cs);
	return false;
}
bool Worker::joined(string_view a, string_view b, const char *nt)
{
	publish(R_UNION, 0, b, a, nullptr, nt, "prog.asm");
	Case cs; cs.rel = R_UNION; cs.src = b; cs.aux = a; cs.note = nt;
	if (checkCase(cs)) { count(o); return true; }
	violation(cs);
	return false;
}
bool Worker::interrupted(string_view earlier, string_view src, const Plan &p, const char *nt)
{
	publish(R_STOP, 0, src, earlier, &p, nt, "prog.asm");
	Case cs; cs.rel = R_STOP; cs.src = src; cs.aux = earlier; cs.plan = p; cs.note = nt;
	if (checkCase(cs)) { count(o); return true; }
	violation(cs);
	return false;
}
// what is wrong with the text a run printed; allowed: diagnostics it may consist of
string wrongText(const string &out, bool ok, const vector<string> &allowed)
{
	if (ok) {
		Outcome x; x.out = out; x.parse();
		char b[160];
		snprintf(b, sizeof b, "Assembly successful.\n%u (0x%04x) bytes assembled.\n%u symbols.\n", x.bytes, x.bytes, x.symbols);
		return out == b ? "" : "a successful run prints \"" + shown(out, 300) + "\"";
	}
	for (auto &e : allowed)
		if (out == e || (out.size() > e.size() && e.size() && !out.compare(0, e.size(), e) && out.find_first_not_of("\n", e.size()) == string::npos)) return "";
	string s = "a failing run prints \"" + shown(out, 300) + "\", expected";
	for (auto &e : allowed) s += (&e == &allowed[0] ? " \"" : " or \"") + shown(e, 300) + "\"";
	return s;
}

bool Worker::checkCase(const Case &cs)
{
	why.clear();
	if (cs.rel == R_TOLD) {
		sut->run(cs.src, o2, nullptr, cs.name.c_str());
		why = wrongText(o2.out, o2.rc == 0, {o2.out});
		if (!why.empty()) return false;
		bool log = sut->logIo;
		sut->logIo = true;
		sut->run(cs.src, o, &cs.plan, cs.name.c_str());
		sut->logIo = log;
		vector<string> may;
		if (o2.rc) may.push_back(o2.out);
		auto failed = [&](size_t k) { return (int)k == cs.plan.failIo[0] || (int)k == cs.plan.failIo[1] || (cs.plan.failIoOn && (int)k > cs.plan.failIo[0]); };
		bool kind[8] = {};
		if (cs.plan.failIo[0] >= 0) for (size_t k = 0; k < o.ioLog.size(); k++) if (failed(k)) kind[o.ioLog[k]] = true;
		const string &n = cs.name;
		if (kind[IO_OPEN_SRC]) may.push_back("ERROR: " + n + " could not be opened\n");
		if (kind[IO_OPEN_OUT]) may.push_back("ERROR: assembled binary file could not be created\n");
		if (kind[IO_READ] || kind[IO_CLOSE_SRC]) may.push_back("ERROR: " + n + " could not be read\n");
		if (kind[IO_WRITE] || kind[IO_SEEK_OUT] || kind[IO_CLOSE_OUT]) may.push_back("ERROR: assembled binary file could not be written\n");
		if ((cs.plan.failAlloc >= 0 || cs.plan.failSize) && o.faultsHit) may.push_back("ERROR: could not allocate enough memory during assembly\n");
		why = wrongText(o.out, o.rc == 0, may);
		return why.empty();
	}
	if (cs.rel == R_STOP) {
		vector<string> early;
		if (fresh.size() > 64) fresh.clear();
		for (size_t at = 0;;) {
			size_t e = cs.aux.find('\x1e', at);
			early.push_back(cs.aux.substr(at, e == string::npos ? e : e - at));
			if (e == string::npos) break;
			at = e + 1;
		}
		// what each run gives when nothing is there and nothing stops it
		auto first = [&](const string &s) -> First & {
			auto &f = fresh[s];
			if (!f.known) { sut->run(s, o2); f = {true, o2.rc, o2.out, vector<uint8_t>(o2.img, o2.img + o2.len)}; }
			return f;
		};
		for (auto &s : early) first(s);
		First &want = first(cs.src);
		for (size_t k = 0; k < cs.plan.stops.size(); k++) {
			const string &s = early[std::min(k, early.size() - 1)];
			int call = cs.plan.stops[k] / 8, torn = cs.plan.stops[k] % 8;
			Plan p;
			p.again = k > 0;
			p.stale = cs.plan.stale;
			if (torn == 7) { p.failIo[0] = call; p.part = true; } else { p.stop = call; p.torn = torn; }
			sut->run(s, o, &p);
			c->extra[0].fetch_add(o.stopped, std::memory_order_relaxed);
			note(hashBytes(hashBytes(o.stopped + 5, o.out.data(), o.out.size()), o.img, o.len));
			First &f = first(s);
			if (o.success && (f.rc || o.len != f.img.size() || memcmp(o.img, f.img.data(), o.len))) {
				why = "had reported success when it was " + string(o.stopped ? "killed" : "over") + ", with " + imgText(o.img, o.len) + " in the output; expected " + imgText(f.img.data(), f.img.size());
				return false;
			}
		}
		Plan p; p.again = !cs.plan.stops.empty();
		sut->run(cs.src, o, &p);
		if (o.rc != want.rc) why = "exit status " + std::to_string(o.rc) + " after a run that was stopped, " + std::to_string(want.rc) + " otherwise: " + shown(o.out, 200);
		else if (o.out != want.out) why = "prints \"" + shown(o.out, 300) + "\" after a run that was stopped, \"" + shown(want.out, 300) + "\" otherwise";
		else if (!o.rc && (o.len != want.img.size() || memcmp(o.img, want.img.data(), o.len))) why = "output is " + imgText(o.img, o.len) + " after a run that was stopped, " + imgText(want.img.data(), want.img.size()) + " otherwise";
		return why.empty();
	}
	if (cs.rel == R_UNION) {
		Outcome a, b;
		sut->run(cs.aux, a);
		vector<uint8_t> img(a.img, a.img + a.len);
		sut->run(cs.src, b);
		img.resize(std::max(img.size(), b.len));
		for (size_t i = 0; i < b.len; i++) img[i] |= b.img[i];
		sut->run(cs.aux + cs.src, o);
		bool ok = !a.rc && !b.rc;
		if ((o.rc == 0) != ok) why = string(o.rc ? "rejected" : "accepted") + "; alone the first part is " + (a.rc ? "rejected" : "accepted") + ", the second " + (b.rc ? "rejected" : "accepted") + ": " + shown(o.rc ? o.out : a.rc ? a.out : b.out, 200);
		else if (ok && (o.len != img.size() || memcmp(o.img, img.data(), o.len))) {
			size_t i = 0;
			while (i < o.len && i < img.size() && o.img[i] == img[i]) i++;
			why = "output differs at offset " + std::to_string(i) + ": is " + imgText(o.img, o.len, i) + ", both parts alone give " + imgText(img.data(), img.size(), i);
		} else if (ok && (o.bytes != a.bytes + b.bytes || o.hexBytes != o.bytes)) why = "reports " + std::to_string(o.bytes) + " bytes, alone the parts have " + std::to_string(a.bytes) + " and " + std::to_string(b.bytes);
		else if (ok && o.symbols != a.symbols + b.symbols) why = "reports " + std::to_string(o.symbols) + " symbols, alone the parts have " + std::to_string(a.symbols) + " and " + std::to_string(b.symbols);
		return why.empty();
	}
	if (cs.rel == R_MODEL) {
		model.run(cs.src, mr);
		sut->run(cs.src, o, &cs.plan, cs.name.c_str());
		return judge(o, cs.mask, cs.name.c_str());
	}
	if (cs.rel == R_SAME) {
		sut->run(cs.aux, o2);
		vector<uint8_t> img(o2.img, o2.img + o2.len);
		sut->run(cs.src, o);
		return sameOutcome(o2, o, img, cs.mask, why) && judge(o, cs.mask & (C_REPORT | C_TERM), "prog.asm");
	}
	if (cs.rel == R_STEADY) {
		Plan z; z.fill = 1;
		sut->run(cs.src, o2, &z);
		auto plain = [](string &s, const string &name) { if (!s.compare(0, name.size() + 1, name + ":")) s.replace(0, name.size(), "prog.asm"); };
		vector<uint8_t> img(o2.img, o2.img + o2.len);
		sut->run(cs.src, o, &cs.plan, cs.name.c_str());
		plain(o.out, cs.name);
		if (cs.plan.world && (o.rc != o2.rc || o.out != o2.out || o.len != img.size() || memcmp(o.img, img.data(), o.len)))
			why = "exit status " + std::to_string(o.rc) + ", output \"" + shown(o.out, 200) + "\" where getenv, time, getpid, rand or isatty answer otherwise; " + std::to_string(o2.rc) + ", \"" + shown(o2.out, 200) + "\" before";
		else if (o.rc != o2.rc) why = "exit status " + std::to_string(o.rc) + " where memory held " + std::to_string(cs.plan.fill - 1) + ", " + std::to_string(o2.rc) + " where it held 0 (" + shown(o.rc ? o.out : o2.out, 200) + ")";
		else if (o.out != o2.out) why = "prints \"" + shown(o.out, 300) + "\" where memory held " + std::to_string(cs.plan.fill - 1) + ", \"" + shown(o2.out, 300) + "\" where it held 0";
		else if (!o.rc && (o.len != img.size() || memcmp(o.img, img.data(), o.len))) why = "output is " + imgText(o.img, o.len) + " where memory held " + std::to_string(cs.plan.fill - 1) + ", " + imgText(img.data(), img.size()) + " where it held 0";
		return why.empty();
	}
	sut->run(cs.src, o2);
	vector<uint8_t> img(o2.img, o2.img + o2.len);
	bool base = o2.rc == 0;
	bool log = sut->logIo;
	sut->logIo = cs.rel == R_IO;
	sut->run(cs.src, o, &cs.plan);
	sut->logIo = log;
	bool equal = sameOutcome(o2, o, img, C_IMAGE | C_BYTES | C_SYMS, why) && o.success == o2.success;
	if (o.success != (o.rc == 0)) { why = "exit status " + std::to_string(o.rc) + (o.success ? " with" : " without") + " a success report"; return false; }
	if (!o.faultsHit) {
		if (equal && o.out == o2.out) { why.clear(); return true; }
		if (why.empty()) why = "output text differs without any fault: " + shown(o.out, 200);
		return false;
	}
	why.clear();
	if (cs.rel == R_IO) {
		// a source that cannot be closed after it was read completely costs nothing
		bool harmless = true;
		for (int k : {cs.plan.failIo[0], cs.plan.failIo[1]})
			if (k >= 0 && k < (int)o.ioLog.size() && o.ioLog[k] != IO_CLOSE_SRC) harmless = false;
		if (cs.plan.failIoOn)
			for (size_t k = cs.plan.failIo[0]; k < o.ioLog.size(); k++) if (o.ioLog[k] != IO_CLOSE_SRC) harmless = false;
		// an interrupted call may be made again
		if ((cs.plan.err == EINTR || cs.plan.err == EAGAIN) && !cs.plan.part) harmless = true;
		if (harmless && equal) return true;
		if (o.rc == 0) {
			why = "reports success although this failed:";
			for (int k : {cs.plan.failIo[0], cs.plan.failIo[1]}) if (k >= 0 && k < (int)o.ioLog.size()) why += string(" [") + ioName(o.ioLog[k]) + "]";
			return false;
		}
		return true;
	}
	if (o.rc == 0) {
		if (equal) return true;
		sameOutcome(o2, o, img, C_IMAGE | C_BYTES | C_SYMS, why);
		why = "succeeds with a different result after a failed allocation: " + why;
		return false;
	}
	if (o.rc != 1) { why = "exit status " + std::to_string(o.rc); return false; }
	if (o.out.find("ERROR") == string::npos) { why = "fails without a diagnostic: " + shown(o.out, 200); return false; }
	if (base && o.out.find("memory") == string::npos) { why = "fails without saying that memory ran out: " + shown(o.out, 200); return false; }
	return true;
}

void Worker::violation(const Case &cs)
{
	int z = 0;
	if (!sh->stop.compare_exchange_strong(z, 1)) {
		if (z == 1) _exit(0);
	}
	publish(cs.rel, cs.mask, cs.src, cs.aux, &cs.plan, cs.note.c_str(), cs.name.c_str());
	snprintf(sh->why[id], sizeof sh->why[id], "%s", why.c_str());
	sh->violator = id + 1;
	_exit(0);
}
void Worker::customViolation(const string &text)
{
	int z = 0;
	if (!sh->stop.compare_exchange_strong(z, 1)) if (z == 1) _exit(0);
	size_t n = std::min(text.size(), sizeof slot->buf - 1);
	memcpy(slot->buf, text.data(), n); slot->buf[n] = 0;
	slot->len.store(2 + n);
	snprintf(sh->why[id], sizeof sh->why[id], "%s", why.c_str());
	sh->violator = id + 1;
	_exit(0);
}

// ---------------------------------------------------------------- driver
static void initWorker(Worker &w, int id)
{
	w.id = id; w.sut = &theSut; w.c = &sh->c[id]; w.slot = &slots[id];
	if (theSut.realFiles) { theSut.dir = cfg.tmp + "/w" + std::to_string(id); mkdir(theSut.dir.c_str(), 0700); }
}

// runs one case in a process of its own: 0 holds, 1 violated, 2 crashed, 3 hung
static int isolated(const Case &cs, string *why, double limit = 10)
{
	int pfd[2];
	if (pipe(pfd)) exit(3);
	pid_t pid = fork();
	if (!pid) {
		close(pfd[0]);
		Worker w; initWorker(w, 63);
		bool ok = w.checkCase(cs);
		if (!ok && write(pfd[1], w.why.data(), std::min<size_t>(w.why.size(), 2000)) < 0) {}
		_exit(ok ? 0 : 42);
	}
	close(pfd[1]);
	fcntl(pfd[0], F_SETFL, O_NONBLOCK);
	double end = now() + limit;
	int st;
	bool hung = false;
	while (waitpid(pid, &st, WNOHANG) == 0) {
		if (now() > end) { kill(pid, SIGKILL); waitpid(pid, &st, 0); hung = true; break; }
		usleep(300);
	}
	char b[2001];
	ssize_t n = read(pfd[0], b, 2000);
	close(pfd[0]);
	if (why && n > 0) why->assign(b, n);
	if (hung) { if (why) *why = "did not finish within " + std::to_string((int)limit) + " s"; return 3; }
	if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return 0;
	if (WIFEXITED(st) && WEXITSTATUS(st) == 42) return 1;
	if (why) *why = WIFSIGNALED(st) ? "crashed with signal " + std::to_string(WTERMSIG(st)) : "ended with a sanitizer report (status " + std::to_string(WEXITSTATUS(st)) + ")";
	return 2;
}

static Case minimise(Case c)
{
	if (c.rel == R_SAME || c.rel == R_UNION || c.rel == R_STOP) return c;
	double end = now() + 8;
	auto bad = [&](const Case &x) { return now() < end && isolated(x, nullptr, 3) != 0; };
	vector<string> l;
	size_t p = 0;
	while (p < c.src.size()) {
		size_t e = c.src.find('\n', p);
		e = e == string::npos ? c.src.size() : e + 1;
		l.push_back(c.src.substr(p, e - p));
		p = e;
	}
	auto join = [](const vector<string> &v) { string s; for (auto &x : v) s += x; return s; };
	for (size_t chunk = std::max<size_t>(1, l.size() / 2);; chunk /= 2) {
		for (size_t i = 0; i < l.size() && now() < end;) {
			vector<string> t(l.begin(), l.begin() + i);
			t.insert(t.end(), l.begin() + std::min(l.size(), i + chunk), l.end());
			Case x = c; x.src = join(t);
			if (t.size() < l.size() && bad(x)) { l = t; c = x; } else i += chunk;
		}
		if (chunk <= 1 || now() >= end) break;
	}
	return c;
}

static void writeFile(const string &p, const string &s)
{
	FILE *f = fopen(p.c_str(), "wb");
	if (!f) { perror(p.c_str()); exit(3); }
	fwrite(s.data(), 1, s.size(), f);
	fclose(f);
}

// Runs one unit of the current phase again in a new process.
static bool unitFails(const std::function<void(Worker &, u64)> &fn, int worker, double limit)
{
	int was = sh->stop.load(), vi = sh->violator.load();
	sh->stop = 0; sh->violator = 0;
	pid_t pid = fork();
	if (!pid) { Worker w; initWorker(w, worker); fn(w, sh->unit[worker].load()); _exit(0); }
	int st;
	double end = now() + limit;
	bool hung = false;
	while (waitpid(pid, &st, WNOHANG) == 0) {
		if (now() > end) { kill(pid, SIGKILL); waitpid(pid, &st, 0); hung = true; break; }
		usleep(1000);
	}
	bool fails = !hung && (sh->violator.load() || !WIFEXITED(st) || WEXITSTATUS(st));
	sh->stop = was; sh->violator = vi;
	return fails;
}

bool Run::handleViolation(int worker, const char *how, const std::function<void(Worker &, u64)> &fn, const string &phaseName)
{
	Slot &s = slots[worker];
	uint32_t l = s.len.load();
	string dir = cfg.replays + "/" + cfg.prop;
	mkdir(cfg.replays.c_str(), 0755); mkdir(dir.c_str(), 0755);
	string path = dir + "/case.txt";
	if (l >= 2) {
		writeFile(path, string(s.buf, l - 2));
		badWhy = sh->why[worker];
	} else if (l == 1) {
		Case c;
		slotCase(s, c);
		string w;
		int r = isolated(c, &w, 30);
		string first = sh->why[worker];
		if (!r && strcmp(how, "hang") && unitFails(fn, worker, 120)) {
			// needs the executions before it in the same process
			badWhy = first;
			writeFile(path, "property: " + cfg.prop + "\nwhy: " + shown(first, 4000) + "\nnote: shows only after the earlier executions of unit " +
				std::to_string(sh->unit[worker].load()) + " of phase \"" + phaseName + "\" in one process (memory the program did not initialise)\n" + caseToText(c));
			badReplay = path;
			bad = true;
			return true;
		}
		if (!r) {
			// not reproducible: do not report it as a violation of the code
			notes.push_back(string("not reproduced: ") + how + ": " + sh->why[worker]);
			fprintf(stderr, "UNREPRODUCED %s %s\n%s\n", how, sh->why[worker], caseToText(c).substr(0, 3000).c_str());
			return false;
		}
		if (r != 3) {
			Case m = minimise(c);
			string w2;
			if (isolated(m, &w2, 10)) { c = m; w = w2; }
		}
		badWhy = w;
		writeFile(path, "property: " + cfg.prop + "\nwhy: " + shown(w, 4000) + "\n" + caseToText(c));
		writeFile(dir + "/prog.asm", c.src);
		if (!c.aux.empty()) writeFile(dir + "/same-as.asm", c.aux);
		sample("VIOLATION " + shown(c.src, 300));
	} else {
		fprintf(stderr, "worker died before its first case (%s)\n", how);
		exit(3);
	}
	badReplay = path;
	bad = true;
	return true;
}

bool Run::phase(const string &name, u64 units, const std::function<void(Worker &, u64)> &fn)
{
	if (bad) return false;
	if (sh->stop.load() == 2) { exhaustive = false; notes.push_back("out of time before: " + name); return true; }
	double start = now();
	u64 ex0 = total(&Counters::execs), it0 = total(&Counters::items);
	sh->next = 0; sh->nUnits = units; sh->stop = 0; sh->violator = 0;
	int n = cfg.workers;
	vector<pid_t> pid(n, 0);
	vector<u64> beat(n, 0);
	vector<double> seen(n, now());
	auto spawn = [&](int k) {
		slots[k].len = 0;
		fflush(stdout); fflush(stderr);
		pid_t p = fork();
		if (p) { pid[k] = p; seen[k] = now(); return; }
		signal(SIGINT, SIG_DFL);
		Worker w; initWorker(w, k);
		struct rusage ru;
		u64 cnt = 0;
		for (;;) {
			if (sh->stop.load()) _exit(0);
			u64 u = sh->next.fetch_add(1);
			if (u >= sh->nUnits.load()) _exit(0);
			sh->unit[k] = u;
			fn(w, u);
			w.c->beat.fetch_add(1);
			if ((++cnt & 15) == 0) {
				getrusage(RUSAGE_SELF, &ru);
				if (ru.ru_maxrss > 2500000) _exit(7);   // start afresh
			}
		}
	};
	for (int k = 0; k < n; k++) spawn(k);
	int alive = n;
	int unrepro = 0;
	while (alive) {
		usleep(1000);
		for (int k = 0; k < n; k++) {
			if (!pid[k]) continue;
			int st;
			pid_t r = waitpid(pid[k], &st, WNOHANG);
			if (r == pid[k]) {
				pid[k] = 0; alive--;
				if (WIFEXITED(st) && WEXITSTATUS(st) == 7) { spawn(k); alive++; continue; }
				if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
				if (bad || sh->stop.load() == 1) continue;
				string how = WIFSIGNALED(st) ? "signal " + std::to_string(WTERMSIG(st)) : "status " + std::to_string(WEXITSTATUS(st));
				snprintf(sh->why[k], sizeof sh->why[k], "worker ended with %s", how.c_str());
				if (handleViolation(k, how.c_str(), fn, name)) sh->stop = 1;
				else if (++unrepro > 3) { fprintf(stderr, "workers keep dying\n"); exit(3); }
				else { exhaustive = false; spawn(k); alive++; }
				continue;
			}
			u64 b = sh->c[k].beat.load();
			double limit = cfg.asan ? 30 : 15;
			if (b != beat[k]) { beat[k] = b; seen[k] = now(); }
			else if (now() - seen[k] > limit && slots[k].len.load()) {
				kill(pid[k], SIGKILL); waitpid(pid[k], &st, 0);
				pid[k] = 0; alive--;
				if (bad || sh->stop.load() == 1) continue;
				snprintf(sh->why[k], sizeof sh->why[k], "no progress for %d s", (int)limit);
				if (handleViolation(k, "hang", fn, name)) sh->stop = 1;
				else { exhaustive = false; spawn(k); alive++; }
			}
		}
		if (now() - t0 > cfg.budget && sh->stop.load() == 0) { sh->stop = 2; exhaustive = false; notes.push_back("out of time in: " + name); }
	}
	if (!bad && sh->violator.load()) {
		if (!handleViolation(sh->violator.load() - 1, "comparison", fn, name)) { fprintf(stderr, "a violation did not reproduce\n"); exit(3); }
	}
	phases.push_back({name, units, total(&Counters::execs) - ex0, total(&Counters::items) - it0, now() - start});
	if (getenv("GAIA_VERIF_VERBOSE")) {
		auto &p = phases.back();
		fprintf(stderr, "%-44s units %10llu execs %10llu items %10llu %6.2fs\n", p.name.c_str(), (unsigned long long)p.units, (unsigned long long)p.execs, (unsigned long long)p.items, p.wall);
	}
	return !bad;
}
u64 Run::total(std::atomic<u64> Counters::*m) const { u64 t = 0; for (auto &c : sh->c) t += (c.*m).load(); return t; }

static string js(const string &s)
{
	string r = "\"";
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') { r += '\\'; r += c; }
		else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
		else r += c;
	}
	return r + "\"";
}

int Run::finish(double wall)
{
	string s = "{\n \"property\": " + js(cfg.prop) + ",\n \"tier\": " + js(cfg.tier) + ",\n \"seed\": " + std::to_string(cfg.seed) +
		",\n \"level\": " + js(level) + ",\n \"coverage\": {\n";
	auto num = [&](const char *k, u64 v) { s += "  " + js(k) + ": " + std::to_string(v) + ",\n"; };
	u64 execs = total(&Counters::execs);
	num("evaluations", execs);
	num("distinct_nontrivial", sh->distinct.load());
	s += "  \"rule\": " + js(rule + " Counted as distinct: executions whose exit status, output text and output bytes together occurred in no other execution" + (sh->distinctFull.load() ? " (lower bound: table full)." : ".")) + ",\n";
	if (level == "model_checking") {
		num("states", total(&Counters::states));
		num("transitions", total(&Counters::transitions));
		num("traces_validated_against_impl", total(&Counters::traces));
	}
	num("accepted_by_implementation", total(&Counters::accepted));
	num("rejected_by_implementation", total(&Counters::rejected));
	num("outside_documented_domain", total(&Counters::skipped));
	num("items_checked_inside_batches", total(&Counters::items));
	u64 killed = 0;
	for (int i = 0; i < 64; i++) killed += sh->c[i].extra[0];
	if (killed) num("runs_killed_on_the_way", killed);
	s += "  \"exhaustive\": " + string(exhaustive && !bad ? "true" : "false") + ",\n  \"phases\": [\n";
	for (size_t i = 0; i < phases.size(); i++) {
		auto &p = phases[i];
		s += "   {\"name\": " + js(p.name) + ", \"units\": " + std::to_string(p.units) + ", \"executions\": " + std::to_string(p.execs) +
			", \"items\": " + std::to_string(p.items) + ", \"wall_s\": " + std::to_string(p.wall) + "}" + (i + 1 < phases.size() ? "," : "") + "\n";
	}
	s += "  ],\n  \"notes\": [";
	for (size_t i = 0; i < notes.size(); i++) s += string(i ? ", " : "") + js(notes[i]);
	s += "],\n  \"samples\": [";
	for (size_t i = 0; i < samples.size(); i++) s += string(i ? ",\n   " : "\n   ") + js(samples[i]);
	s += "]\n },\n \"assumptions\": [";
	for (size_t i = 0; i < assumptions.size(); i++) s += string(i ? ", " : "") + js(assumptions[i]);
	s += "],\n \"wall_s\": " + std::to_string(wall) + ",\n \"violations\": " + std::to_string(bad ? 1 : 0) + "\n}\n";
	writeFile(cfg.evidence, s);
	if (bad) {
		printf("%s: %s\n", cfg.prop.c_str(), badWhy.c_str());
		printf("VIOLATION property=%s replay=%s\n", cfg.prop.c_str(), badReplay.c_str());
		return 1;
	}
	if (!execs) { fprintf(stderr, "nothing was executed\n"); return 3; }
	printf("%s: held on %llu executions (%llu distinct outcomes)%s in %.1f s\n", cfg.prop.c_str(), (unsigned long long)execs,
		(unsigned long long)sh->distinct.load(), exhaustive ? "" : ", NOT exhaustive", wall);
	return 0;
}

// ---------------------------------------------------------------- explorer
static bool seenInsert(u64 h)
{
	if (sh->seen.load(std::memory_order_relaxed) > SEEN_CAP / 10 * 7) { sh->frontierFull = 1; return false; }
	if (!h) h = 1;
	u64 i = (h * 0x9E3779B97F4A7C15ull) >> 40;   // 24 bits
	for (u64 k = 0; k < SEEN_CAP; k++, i = (i + 1) & (SEEN_CAP - 1)) {
		u64 v = seenTab[i].load(std::memory_order_relaxed);
		if (v == h) return false;
		if (!v) {
			u64 z = 0;
			if (seenTab[i].compare_exchange_strong(z, h)) { sh->seen.fetch_add(1, std::memory_order_relaxed); return true; }
			if (z == h) return false;
		}
	}
	return false;
}

bool explore(Run &r, const string &name, const Alphabet &a, unsigned mask, int d1, int d2, bool afterErrors)
{
	int n = (int)a.lines.size();
	struct Node { uint8_t len, dead; uint8_t t[22]; };
	// 1. every sequence up to d1 lines, each run on the implementation
	u64 units = (u64)n * n;
	auto walk = [&](Worker &w, u64 u) {
		string src = a.prologue;
		src.reserve(1024);
		// dead: lines since the outcome was settled by an error
		std::function<void(int, int)> rec = [&](int depth, int dead) {
			if (w.stopped()) return;
			size_t keep = src.size();
			for (int i = 0; i < n; i++) {
				if (depth == 0 && i != (int)(u / n)) continue;
				if (depth == 1 && i != (int)(u % n)) continue;
				src += a.lines[i]; src += '\n';
				size_t mid = src.size();
				bool doit = depth >= 1 || u % n == 0;     // count a one-line program once
				int nd = dead;
				if (doit) {
					src += a.epilogue;
					w.verify(src, mask, "program");
					w.c->traces.fetch_add(1, std::memory_order_relaxed);
					src.resize(mid);
				} else { w.model.run(src, w.mr); }
				if (w.mr.outOfDomain) nd = 9;
				else if (w.mr.lineError) nd++;
				if (depth + 1 < d1 && nd <= (afterErrors ? 1 : 0)) rec(depth + 1, nd);
				src.resize(keep);
			}
		};
		rec(0, 0);
	};
	if (d1 > 0 && !r.phase(name + ": all sequences up to " + std::to_string(d1) + " of " + std::to_string(n) + " lines", units, walk)) return false;
	if (d2 <= 0) return true;
	// 2. breadth-first over distinct states up to d2 lines
	static const u64 CAP = 6u << 20;
	static Node *fr[2];
	if (!fr[0]) { fr[0] = (Node *)shared(CAP * sizeof(Node)); fr[1] = (Node *)shared(CAP * sizeof(Node)); }
	sh->seen = 0;
	madvise(seenTab, SEEN_CAP * 8, MADV_REMOVE);
	Node *cur = fr[0], *nxt = fr[1];
	cur[0] = {};
	u64 nc = 1;
	sh->c[0].states.fetch_add(1);
	for (int d = 1; d <= d2 && nc; d++) {
		sh->nFrontier = 0; sh->frontierFull = 0;
		const u64 chunk = 16;
		bool ok = r.phase(name + ": state exploration, depth " + std::to_string(d), (nc + chunk - 1) / chunk, [&](Worker &w, u64 u) {
			w.model.wantState = true;
			string src;
			for (u64 k = u * chunk; k < std::min(nc, (u + 1) * chunk); k++) {
				if (w.stopped()) return;
				src = a.prologue;
				for (int i = 0; i < cur[k].len; i++) { src += a.lines[cur[k].t[i]]; src += '\n'; }
				size_t keep = src.size();
				for (int i = 0; i < n; i++) {
					src.resize(keep);
					src += a.lines[i]; src += '\n';
					// state is that of the model before the epilogue
					model::Result st;
					w.model.run(src, st);
					u64 h = st.state;
					src += a.epilogue;
					w.verify(src, mask, "program");
					w.c->traces.fetch_add(1, std::memory_order_relaxed);
					w.c->transitions.fetch_add(1, std::memory_order_relaxed);
					if (st.outOfDomain || !seenInsert(h)) continue;
					w.c->states.fetch_add(1, std::memory_order_relaxed);
					if (st.lineError || st.ended) continue;    // terminal
					u64 at = sh->nFrontier.fetch_add(1);
					if (at >= CAP) { sh->frontierFull = 1; continue; }
					nxt[at] = cur[k];
					nxt[at].t[nxt[at].len++] = i;
				}
			}
		});
		if (!ok) return false;
		nc = std::min<u64>(sh->nFrontier.load(), CAP);
		if (sh->frontierFull.load()) { r.exhaustive = false; r.notes.push_back(name + ": state table full at depth " + std::to_string(d)); break; }
		std::swap(cur, nxt);
		if (sh->stop.load() == 2) break;
	}
	return true;
}

// ---------------------------------------------------------------- set-up
void props_run(Run &r);

static bool probe()
{
	Outcome o;
	model::Assembler m; model::Result mr;
	for (const char *src : {"L: LDA #$01\n JMP L\nBNE F\nF NOP\n", "LDA\n"}) {
		m.run(src, mr);
		theSut.run(src, o);
		if ((o.rc == 0) != mr.ok) return false;
		if (mr.ok && (o.len != mr.image.size() || memcmp(o.img, mr.image.data(), o.len))) return false;
		if (!mr.ok && o.out.find("ERROR") == string::npos) return false;
	}
	return true;
}

const vector<string> &libraryTexts()
{
	static const vector<string> v = [] {
		std::set<string> t;
		vector<string> out;
		FILE *f = fopen(cfg.lib.c_str(), "rb");
		if (!f) return out;
		string b;
		char buf[65536];
		for (size_t n; (n = fread(buf, 1, sizeof buf, f)) > 0;) b.append(buf, n);
		fclose(f);
		if (b.size() < sizeof(Elf64_Ehdr) || memcmp(b.data(), ELFMAG, 4)) return out;
		const Elf64_Ehdr *h = (const Elf64_Ehdr *)b.data();
		const Elf64_Shdr *s = (const Elf64_Shdr *)(b.data() + h->e_shoff);
		const char *names = b.data() + s[h->e_shstrndx].sh_offset;
		for (int i = 0; i < h->e_shnum; i++) {
			if (strncmp(names + s[i].sh_name, ".rodata", 7) && strncmp(names + s[i].sh_name, ".data", 5)) continue;
			if (s[i].sh_type == SHT_NOBITS) continue;
			string run, word;
			for (size_t k = 0; k <= s[i].sh_size; k++) {
				unsigned char c = k < s[i].sh_size ? b[s[i].sh_offset + k] : 0;
				if (c >= ' ' && c < 255 && c != 127) run += (char)c;
				else { if (run.size() > 1 && run.size() < 100 && !c) t.insert(run); run.clear(); }
				if (isalnum(c) || c == '_') word += (char)c;
				else { if (word.size() > 1 && word.size() < 40) t.insert(word); word.clear(); }
			}
		}
		out.assign(t.begin(), t.end());
		return out;
	}();
	return v;
}

int main(int argc, char **argv)
{
	string replay;
	for (int i = 1; i + 1 < argc; i += 2) {
		string k = argv[i], v = argv[i + 1];
		if (k == "--prop") cfg.prop = v;
		else if (k == "--tier") cfg.tier = v;
		else if (k == "--seed") cfg.seed = strtoull(v.c_str(), nullptr, 10);
		else if (k == "--lib") cfg.lib = v;
		else if (k == "--bin") cfg.bin = v;
		else if (k == "--asanbin") cfg.asanBin = v;
		else if (k == "--evidence") cfg.evidence = v;
		else if (k == "--replays") cfg.replays = v;
		else if (k == "--tmp") cfg.tmp = v;
		else if (k == "--workers") cfg.workers = atoi(v.c_str());
		else if (k == "--budget") cfg.budget = atof(v.c_str());
		else if (k == "--asan") cfg.asan = v == "1";
		else if (k == "--real") theSut.realFiles = v == "1";
		else if (k == "--example") cfg.example = v;
		else if (k == "--replay") replay = v;
		else { fprintf(stderr, "unknown option %s\n", k.c_str()); return 3; }
	}
	mallopt(M_PERTURB, 0x5A);    // fresh memory never looks conveniently zero
	sh = (Shared *)shared(sizeof(Shared));
	slots = (Slot *)shared(sizeof(Slot) * 64);
	distinctTab = (std::atomic<u64> *)shared(DISTINCT_CAP * 8);
	seenTab = (std::atomic<u64> *)shared(SEEN_CAP * 8);
	string err;
	if (!theSut.load(cfg.lib.c_str(), err)) { fprintf(stderr, "cannot load %s: %s\n", cfg.lib.c_str(), err.c_str()); return 3; }
	if (!replay.empty()) {
		string t; char b[65536]; size_t n;
		FILE *f = fopen(replay.c_str(), "rb");
		if (!f) { perror(replay.c_str()); return 3; }
		while ((n = fread(b, 1, sizeof b, f))) t.append(b, n);
		fclose(f);
		Case c;
		if (!caseFromText(t, c)) { printf("%s\n", t.c_str()); return 3; }
		string w;
		int r = isolated(c, &w, 30);
		printf("%s %s\n", r ? "VIOLATED" : "HOLDS", w.c_str());
		return r ? 1 : 0;
	}
	// In-memory files only work while gaia reads and writes through stdio
	// streams; if it does not, use real files in a scratch directory.
	if (theSut.realFiles) { theSut.dir = cfg.tmp; fprintf(stderr, "note: using real files\n"); }
	pid_t p = fork();
	if (!p) { alarm(10); _exit(theSut.realFiles || probe() ? 0 : 1); }
	int st;
	waitpid(p, &st, 0);
	if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
		theSut.dir = cfg.tmp;
		p = fork();
		if (!p) { alarm(10); theSut.realFiles = true; _exit(probe() ? 0 : 1); }
		waitpid(p, &st, 0);
		if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { theSut.realFiles = true; fprintf(stderr, "note: using real files\n"); }
	}
	Run r;
	r.t0 = now();
	props_run(r);
	return r.finish(now() - r.t0);
}
