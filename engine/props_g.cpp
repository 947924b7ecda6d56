// C34: runs that are killed, and the runs after them.
#include "props.h"

void prop_c34(Run &r)
{
	r.level = "fault_enumeration";
	r.rule = "Each program killed before every I/O call and in the middle of every write (five sizes of the part that still happens), or its calls failing, then the same or another program assembled over what was left; sequences of up to three such runs; and the real program killed at every system call, in every write and by every file size limit. The last run must give what it gives in an empty directory, and no killed run may have reported success before its output was complete. A stopped run is nontrivial when what it leaves and has printed differs from that of every other.";
	r.sample("killed in the first write, half of it done; then the same source again -> the same report and bytes as ever");
	r.assume("Killed: no code of the program runs any more and what it has not handed to the system is lost; what it has handed over survives.");
	auto progs = faultPrograms();
	for (auto &e : exampleSources()) progs.push_back(e);
	progs.push_back(" RTS\n");
	progs.push_back(".ORG $4000\n NOP\n");
	progs.push_back("");
	const u64 N = progs.size();
	auto calls = [](Worker &w, const string &s) { Outcome o; w.sut->run(s, o); return o.ioCalls; };
	static const int kinds[] = {0, 1, 2, 3, 4, 5, 7};
	r.phase("killed at every call, then the same", N * 7, [&](Worker &w, u64 u) {
		const string &s = progs[u / 7];
		int n = calls(w, s), k = kinds[u % 7];
		for (int i = 0; i < n + 1; i++) {
			if (!cfg.thorough() && i > 80 && i < n - 80 && i % (1 + n / 120)) continue;
			Plan p; p.stops = {i * 8 + k};
			if (!w.interrupted(s, s, p, "killed, then again")) return;
			p.stale = 5000;
			if (i % 3 == 0 && !w.interrupted(s, s, p, "killed over an old output, then again")) return;
		}
	});
	r.phase("killed at every call, then another", N * N, [&](Worker &w, u64 u) {
		const string &s = progs[u % N], &t = progs[u / N];
		if (s.size() + t.size() > 20000 && !cfg.thorough() && u % 5) return;
		int n = calls(w, s);
		for (int i = 0; i < n + 1; i++) {
			if (i > 40 && i < n - 40 && i % (1 + n / (cfg.thorough() ? 300 : 60))) continue;
			for (int k : {0, 2, 3, 7}) {
				Plan p; p.stops = {i * 8 + k};
				if (!w.interrupted(s, t, p, "killed, then another")) return;
			}
		}
	});
	// several stopped runs one after the other
	vector<string> small = {" NOP\n", "L JMP L\n JMP M\nM\n", ".ORG $3000\n NOP\n.ORG 0\n RTS\n", " LDA #\n", " JMP M\n", "", ".ORG $2000\n BNE M\nM NOP\n.ORG $100\n JMP M\n"};
	for (auto &s : progs) if (s.size() < 200 && small.size() < 12) small.push_back(s);
	const u64 M = small.size();
	r.phase("two killed runs, then a third", M * M * M, [&](Worker &w, u64 u) {
		const string &a = small[u % M], &b = small[u / M % M], &c = small[u / M / M];
		int n = calls(w, a), m = calls(w, b);
		for (int i = 0; i < n + 1; i++) for (int j = 0; j < m + 1; j++) for (int k : {0, 2}) for (int l : {0, 2, 7}) {
			if (!cfg.thorough() && (i + j + k + l + u) % 2) continue;
			Plan p; p.stops = {i * 8 + k, j * 8 + l};
			if (!w.interrupted(a + "\x1e" + b, c, p, "two killed runs")) return;
		}
	});
	r.phase("the same killed three times", M * 64, [&](Worker &w, u64 u) {
		const string &a = small[u / 64];
		int n = calls(w, a);
		for (int i = u % 64; i < n + 1; i += 64) for (int j = 0; j < n + 1; j++) for (int l = 0; l < n + 1; l++) {
			if (!cfg.thorough() && (i + j + l) % 3) continue;
			Plan p; p.stops = {i * 8 + 2, j * 8, l * 8 + 3};
			if (!w.interrupted(a, a, p, "three killed runs")) return;
		}
	});
	auto all = allCores();
	r.phase("core programs", all.size(), [&](Worker &w, u64 u) {
		int n = calls(w, all[u]);
		for (int i = 0; i < n + 1; i++) for (int k : kinds) {
			Plan p; p.stops = {i * 8 + k};
			if (!w.interrupted(all[u], all[u], p, "killed, then again")) return;
			if (!w.interrupted(all[u], all[(u * 31 + i + 1) % all.size()], p, "killed, then another")) return;
		}
	});
	static const vector<string> al = {"L NOP\n", " JMP L\n", " JMP M\n", " BNE M\n", "M = $1234\n", ".ORG $100\n", ".ORG $2345\n", " LDA #5", "\n", ".END\n", " NOP NOP\n", "M:\n"};
	const u64 A = al.size();
	int depth = cfg.thorough() ? 5 : 3;
	u64 n = 1; for (int i = 0; i < depth; i++) n *= A;
	r.phase("every short program", n + n / A + n / A / A, [&, depth](Worker &w, u64 u) {
		auto word = [&](u64 u) {
			int d = u < n ? depth : u < n + n / A ? depth - 1 : depth - 2;
			u64 x = u < n ? u : u < n + n / A ? u - n : u - n - n / A;
			string s;
			for (int i = 0; i < d; i++) { s += al[x % A]; x /= A; }
			return s;
		};
		string s = word(u), t = word((u * 7919 + 13) % n);
		int c = calls(w, s);
		for (int i = 0; i < c + 1; i++) for (int k : kinds) {
			Plan p; p.stops = {i * 8 + k};
			if (!w.interrupted(s, s, p, "killed, then again")) return;
			if (!w.interrupted(s, t, p, "killed, then another")) return;
		}
	});
	r.phase("output of every size", cfg.thorough() ? 20000 : 1500, [&](Worker &w, u64 u) {
		string s = ".ORG " + std::to_string(u * 40 % 65000) + "\n JMP F\n NOP\nF RTS\n";
		int c = calls(w, s);
		for (int i = 0; i < c + 1; i++) for (int k : {0, 1, 2, 3}) {
			Plan p; p.stops = {i * 8 + k};
			if (!w.interrupted(s, u % 2 ? s : string(" JMP F\nF\n"), p, "killed, then again")) return;
		}
	});
	cli_stopped(r);
}
