// Bounded exhaustive exploration of the real assembler, several workers wide.
#pragma once
#include <atomic>
#include <cstdint>
#include <functional>
#include <map>
#include <string>
#include <string_view>
#include <vector>
#include "model.h"
#include "sut.h"

using std::string;
using std::string_view;
using std::vector;
typedef uint64_t u64;

// what a case compares
enum : unsigned {
	C_VERDICT = 1,      // exit status against the model
	C_IMAGE = 2,        // output bytes, when both accept
	C_BYTES = 4,        // reported byte count, when both accept
	C_SYMS = 8,         // reported symbol count, when both accept
	C_DIAG = 16,        // diagnostics, when both reject
	C_REPORT = 32,      // success text if and only if exit status 0
	C_LINE = 64,        // line number of the diagnostics, when both reject
	C_REJECT = 128,     // must be rejected (no model)
	C_ACCEPT = 256,     // must be accepted (no model)
	C_TERM = 512,       // must end with exit status 0 or 1
	C_TEXT = 1024,      // an accepted source gets the report and nothing else (no model)
	C_ALL = C_VERDICT | C_IMAGE | C_BYTES | C_SYMS | C_DIAG | C_REPORT,
};
enum Rel { R_MODEL, R_SAME, R_IO, R_ALLOC, R_STEADY, R_TOLD, R_UNION, R_STOP };

struct Case {
	Rel rel = R_MODEL;
	unsigned mask = 0;
	string src, aux;             // aux: the source that must behave the same
	Plan plan;
	string note;                 // what the case is about
	string name = "prog.asm";
};
string wrongText(const string &out, bool ok, const vector<string> &allowed);
string expectedDiag(const model::Result &r, const char *name);
string caseToText(const Case &c);
bool caseFromText(const string &t, Case &c);

struct Counters {                    // one per worker, in shared memory
	std::atomic<u64> execs, accepted, rejected, skipped, items, beat, states, transitions, traces, extra[8];
};
struct Slot {                        // current case of a worker, in shared memory
	std::atomic<uint32_t> len;
	std::atomic<uint32_t> phase;
	char buf[48u << 20];
};

struct Shared {
	std::atomic<u64> next, nUnits;
	std::atomic<int> stop;       // 0 run, 1 violation found, 2 out of time
	std::atomic<int> violator;   // worker + 1
	std::atomic<u64> distinct, distinctFull;
	std::atomic<u64> nFrontier, frontierFull, seen;
	std::atomic<u64> unit[64];
	Counters c[64];
	char why[64][2048];
};
extern Shared *sh;
static const u64 DISTINCT_CAP = 1u << 23;

class Worker {
public:
	int id = 0;
	Sut *sut = nullptr;
	model::Assembler model;
	model::Result mr;
	Outcome o, o2;
	Counters *c = nullptr;
	Slot *slot = nullptr;
	string why;

	bool stopped() const { return sh->stop.load(std::memory_order_relaxed) != 0; }
	// compares gaia with the model on one source; false: violation (recorded)
	bool verify(string_view src, unsigned mask, const char *note = "", const char *name = "prog.asm", const Plan *plan = nullptr);
	// what the model rejects must be rejected; other sources are not run
	bool rejects(string_view src, const char *note = "");
	// both sources must have the same outcome
	bool same(string_view src, string_view ref, unsigned mask, const char *note = "");
	bool steady(string_view src, const Plan &p, const char *note = "", const char *name = "prog.asm");
	bool faultIo(string_view src, const Plan &p, const char *note = "");
	bool faultAlloc(string_view src, const Plan &p, const char *note = "");
	// success prints the report and nothing else, failure one diagnostic of the right kind
	bool told(string_view src, const Plan &p, const char *note = "", const char *name = "prog.asm");
	// a then b in one source give what both give alone; false as well when stopped
	bool joined(string_view a, string_view b, const char *note = "");
	// runs of earlier ('\x1e' between sources) stopped as p.stops says, then src as if for the first time
	bool interrupted(string_view earlier, string_view src, const Plan &p, const char *note = "");
	bool checkCase(const Case &cs);          // no recording, fills why
	void violation(const Case &cs);
	void customViolation(const string &text); // real-program checks: text is the whole replay
	void count(const Outcome &o);
	void note(u64 hash);                     // distinct outcome
private:
	struct First { bool known = false; int rc = 0; string out; vector<uint8_t> img; };
	std::map<string, First> fresh;
	void publish(int rel, unsigned mask, string_view src, string_view aux, const Plan *p, const char *note, const char *name);
	bool judge(const Outcome &o, unsigned mask, const char *name);
};

struct Config {
	string prop, tier = "quick", lib, bin, asanBin, evidence, replays, known, tmp, self, example;
	u64 seed = 1;
	int workers = 8;
	double budget = 600;        // seconds
	bool asan = false;
	bool thorough() const { return tier == "thorough"; }
};
extern Config cfg;
const vector<string> &libraryTexts();      // the texts and words in the constant data of the code under test

// ---- driver -------------------------------------------------------------
class Run {
public:
	// runs fn for every unit on all workers; false once a violation was found
	bool phase(const string &name, u64 units, const std::function<void(Worker &, u64)> &fn);
	bool ok() const { return !bad; }
	void sample(const string &s) { if (samples.size() < 24) samples.push_back(s); }
	void assume(const string &s) { assumptions.push_back(s); }
	string rule;
	vector<string> samples, assumptions, notes;
	bool exhaustive = true;
	bool bad = false;
	string level = "exploration";
	int finish(double wall);
	string badWhy, badReplay;
	struct PhaseStat { string name; u64 units, execs, items; double wall; };
	vector<PhaseStat> phases;
	double t0 = 0;
	u64 total(std::atomic<u64> Counters::*m) const;
private:
	bool handleViolation(int worker, const char *how, const std::function<void(Worker &, u64)> &fn, const string &phaseName);
};

// explicit-state exploration of programs over an alphabet of lines
struct Alphabet {
	vector<string> lines;
	string prologue, epilogue;
};
bool explore(Run &r, const string &name, const Alphabet &a, unsigned mask, int statelessDepth, int stateDepth,
             bool afterErrors = false);

string lit(unsigned v, int radix);           // 16, 10, 2
string shown(string_view s, size_t max = 400);
double now();
