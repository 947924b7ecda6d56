// C27..C30: relations between whole programs - renaming labels, reordering
// sections, moving a program, and what follows an error.
#include "props.h"
#include <set>

static const unsigned SAME = C_VERDICT | C_IMAGE | C_BYTES | C_SYMS | C_REPORT;

static string put3(const string &t, const string *n)
{
	string s;
	bool up = false;
	for (size_t i = 0; i < t.size(); i++) {
		if (t[i] != '{') { s += t[i]; continue; }
		string x = n[t[i + 1] - '0'];
		if (up) x = lower(x);
		up = !up;
		s += x;
		i += 2;
	}
	return s;
}

static bool reserved(const string &n) { return mnOf(n.c_str()) >= 0 || n == "A" || n == "X" || n == "Y"; }

void prop_c27(Run &r)
{
	r.rule = "Programs with up to three labels are assembled under every name or combination of names of the stated sets and must give the same verdict, bytes and counts as under three plain reference names. A program is nontrivial when its outcome differs from that of every other.";
	vector<string> progs = {"JMP {0}\n{0} NOP\n", "{0} NOP\nJMP {0}\nLDA {0}\n", "{0} = $12\nLDA {0}\nSTA {0},X\nLDA ({0}),Y\n", "BNE {0}\n{0}: RTS\n", ".DEFINE {0} $1234\nJMP ({0})\n", "JMP {0}\n", "{0}\n{0} = 1\n", "{0} .EQU 255\nLDX #{0}\n{1} JMP {1}\n",
		"{0} = 1\n{1} = 2\nLDA #{0}\nLDA #{1}\n", "JSR {1}\nJMP {0}\n{0}:\n{1} = $BEEF\n", "JMP {0}\nJMP {1}\nJMP {2}\n{2} NOP\n{1} NOP\n{0} NOP\n", "{0} = 1\n{1} = 2\n{2} = 3\nLDA {2}\nLDA {0}\nLDA {1}\n", "{0} NOP\n{1} NOP\nBNE {0}\nBEQ {2}\n{2} BPL {1}\n", "{0} = 1\nJMP {1}\n", "{0} = 1\n{1} = 2\n{2} NOP\n{1} NOP\n"};
	size_t one = 8;                 // the first programs have one or two labels
	const string ref[3] = {"PLAIN1", "OTHER2", "THIRD3"};
	vector<string> refs;
	for (auto &p : progs) refs.push_back(put3(p, ref));
	const string first = "ABCDEFGHIJKLMNOPQRSTUVWXYZ", all = first + "0123456789_";
	auto tri = [&](Worker &w, size_t k, const string &a, const string &b, const string &c, const char *note) {
		string n[3] = {a, b, c};
		return w.same(put3(progs[k], n), refs[k], SAME, note);
	};
	// one label, any name
	vector<string> names;
	std::set<string> seen;
	auto addName = [&](const string &s) { if (s.size() && s.size() <= 63 && first.find(s[0]) != string::npos && !reserved(s) && seen.insert(s).second) names.push_back(s); };
	for (char a : first) { addName(string(1, a)); for (char b : all) { addName(string(1, a) + b); for (char c : all) addName(string(1, a) + b + c); } }
	for (int m = 0; m < 56; m++) {
		string x = model::mnemonics[m];
		for (char c : all) { addName(x + c); addName(string(1, c) + x); addName(x + c + x); addName(x + x + c); }
		addName(x + x); addName(x + "_"); addName(x + "A"); addName(x.substr(0, 2)); addName(x.substr(1));
	}
	for (const char *d : {"ORG", "END", "EQU", "DEFINE", "BYTE", "WORD", "INCLUDE", "MACRO", "EQ", "DEF", "ORIGIN", "ENDS", "AX", "XY", "YX", "AA", "A0", "X1", "Y_", "SP", "PC", "SR", "DEAD", "BEEF", "FACE", "F00D", "B0", "B1", "B01010101", "E1", "NULL", "STDIN", "CON"})
		for (const char *s : {"", "_", "0", "A", "X"}) { addName(string(d) + s); addName(string("Q") + d + s); }
	for (auto &k : knownWords()) {
		string q;
		for (char c : k) { if (c >= 'a' && c <= 'z') c -= 32; if (all.find(c) != string::npos) q += c; }
		addName(q); addName(q + "_"); addName(q + "0"); addName("_" + q); if (q.size() > 2) addName(q.substr(0, q.size() - 1));
	}
	for (const char *t : {"P", "PROG", "PROG_ASM", "A_OUT", "OUT", "OUT_BIN", "ASM", "BIN", "GAIA", "SRC", "MAIN_ASM", "TMP", "DEV"}) for (const char *s : {"", "0", "_"}) addName(string(t) + s);
	for (int l = 1; l <= 63; l++) for (char a : first) for (char b : {'0', '9', '_', 'A', 'Z', 'Q', 'X', 'E'}) addName(string(1, a) + string(l - 1, b));
	r.sample(put3(progs[0], &names[100])); r.sample("JMP STAR / STAR NOP"); 
	r.phase("one label, every name", names.size(), [&](Worker &w, u64 u) {
		for (size_t k = 0; k < one; k++) {
			if (!tri(w, k, names[u], names[u] == "OTHER" ? "NOTHER" : "OTHER", "THIRD3", "name")) return;
		}
	});
	// all names of four characters
	r.phase("one label, all names of four characters", 26 * 37 * 37, [&](Worker &w, u64 u) {
		string n(4, 0);
		n[0] = first[u % 26]; n[1] = all[u / 26 % 37]; n[2] = all[u / 26 / 37];
		if (!cfg.thorough() && w.sut->realFiles && u % 8) return;
		for (char d : all) {
			n[3] = d;
			if (!tri(w, 0, n, "B", "C", "name") || (cfg.thorough() && (!tri(w, 1, n, "B", "C", "name") || !tri(w, 10, "B", n, "C", "name")))) return;
		}
	});
	// three labels: all distinct one-letter names
	vector<string> l1; for (char a : first) if (!reserved(string(1, a))) l1.push_back(string(1, a));
	r.phase("three labels, all one-letter names", l1.size() * l1.size(), [&](Worker &w, u64 u) {
		const string &a = l1[u % l1.size()], &b = l1[u / l1.size()];
		if (a == b) return;
		for (auto &c : l1) {
			if (c == a || c == b) continue;
			for (size_t k = one; k < progs.size(); k++) {
				if (!tri(w, k, a, b, c, "names")) return;
			}
		}
	});
	// pairs that differ in one place, or where one is the beginning of the other
	r.phase("similar names of every length", 63 * 63, [&](Worker &w, u64 u) {
		size_t len = u % 63 + 1, at = u / 63;
		if (at > len) return;
		for (char fill : {'Q', '_', '0', 'E'}) {
			if (fill != 'Q' && !cfg.thorough() && (u + fill) % 3) continue;
			string a = string(1, 'Q') + string(len - 1, fill), b = a, c = a;
			if (at == len) { b.pop_back(); if (b.empty()) continue; c = a + "Q"; if (c.size() > 63) c = "QQ1"; }
			else { b[at] = 'R'; c[at] = 'S'; }
			if (a == b || b == c || a == c || reserved(a) || reserved(b) || reserved(c)) continue;
			for (size_t k = one; k < progs.size(); k++)
				if (!tri(w, k, a, b, c, "similar names") || !tri(w, k, c, a, b, "similar names") || !tri(w, k, b, c, a, "similar names")) return;
		}
	});
	// all ordered pairs out of a set of names that are alike to hashes and comparisons
	const vector<string> &v = alikeNames();
	r.phase("all pairs and triples of alike names", v.size() * v.size(), [&](Worker &w, u64 u) {
		const string &a = v[u % v.size()], &b = v[u / v.size()];
		if (a == b) return;
		for (size_t i = 0; i < v.size(); i++) {
			if (v[i] == a || v[i] == b || (!cfg.thorough() && (i + u) % 3)) continue;
			for (size_t k = one; k < progs.size(); k++) if (!tri(w, k, a, b, v[i], "names")) return;
			if (w.stopped()) return;
		}
	});
	// many labels at once under one scheme of names against another
	r.phase("many labels, every scheme of names", 220, [&](Worker &w, u64 u) {
		int n = (int)u + 1;
		auto prog = [&](int scheme, bool back) {
			string s;
			auto nm = [&](int i) {
				int j = scheme == 1 ? n - i : scheme == 2 ? (i * 7919 + 13) % 100003 : i;
				string d = std::to_string(j);
				if (scheme == 3) return "L" + string(7 - d.size(), '0') + d;
				if (scheme == 4) return string(1, 'B' + j % 20) + string(1, 'A' + j / 20 % 26) + "7";
				if (scheme == 5) return "Q" + string(j % 60, 'W') + std::to_string(j / 60);
				if (scheme == 6) return "V" + d + string(62 - d.size(), '_');
				return "N" + d;
			};
			for (int i = 0; i < n; i++) s += i % 3 == 0 ? nm(i) + " NOP\n" : i % 3 == 1 ? nm(i) + " = " + std::to_string(i * 131) + "\n" : nm(i) + ":\n";
			for (int i = 0; i < n; i++) s += " JMP " + nm(back ? n - 1 - i : i) + "\n";
			if (back) s += " JMP " + nm(n) + "\n" + nm(n) + " RTS\n";
			return s;
		};
		for (bool back : {false, true})
			for (int k = 1; k <= 6; k++) if (!w.same(prog(k, back), prog(0, back), SAME, "scheme of names")) return;
	});
}

// ---- sections in any order -------------------------------------------------
void prop_c28(Run &r)
{
	r.rule = "All choices of up to the stated number of sections from a set, each at its own addresses, in all orders; every order must give the verdict, bytes and counts of the first. A program is nontrivial when its outcome differs from that of every other.";
	// {S}: where the section lies, {S+n}
	vector<string> body = {"S0 NOP\n", "S1 JMP S0\n", "S2: JSR S1\n JMP S2\n", " BNE L3\nL3 RTS\n", " JMP S0\n JMP S1\n JMP S5\n", "S5 LDA #$5A\n BNE S5\n", "S6 JMP (S7)\n", "S7 STA $1234,X\n", "LONG_NAME_OF_A_SECTION JMP LONG_NAME_OF_A_SECTION\n JMP S0\n",
		" JMP NOWHERE\n", "K = $4321\n JMP K\n", " JMP K\n NOP\n", " BEQ S0\n", "S0 RTS\n", " LDX #1\n LDY #2\n LDA $10\n", " JSR K\n JMP (S5)\n"};
	r.sample("*=$200 / S1 JMP S0 / *=$100 / S0 NOP against the other order");
	// how 0..4: at fixed distances; from 5 on: packed, with gaps of 0, 1, ...
	static const int size[] = {1, 3, 6, 3, 9, 4, 3, 3, 6, 3, 3, 4, 2, 1, 6, 6};
	const int HOWS = 16;
	auto text = [&](int sec, int place, int style, int how, int packed) {
		static const int step[] = {0x100, 0x10, 0x1000, 8, 0x2FF0};
		// far apart, downwards, at ends of pages, at both ends of memory
		static const int far[][5] = {{0x0003, 0x3F00, 0x7E00, 0xBD00, 0xFC00}, {0xC000, 0x9103, 0x6206, 0x3309, 0x0400}, {0x00FD, 0x7FFD, 0x80FC, 0xFEFD, 0x01FE}, {0xFFE0, 0, 0xFEF0, 0x7FF8, 0x20}, {0x8000, 0x8103, 0x4003, 0x0103, 0xC103}, {0x2345, 0x6789, 0xABCD, 0x0FED, 0xEDCB}};
		int at = how >= 10 ? far[how - 10][place] : how >= 5 ? packed : how == 3 ? 0x40 + place * 12 : place * step[how];
		string s = style & 1 ? "*=" : ".ORG ";
		s += hexs(at) + "\n" + body[sec];
		if (style & 2) s += "\n;\n";
		return s;
	};
	int N = (int)body.size();
	auto orders = [&](Worker &w, const vector<int> &secs, int how, bool all) {
		vector<int> p(secs.size());
		for (size_t i = 0; i < p.size(); i++) p[i] = (int)i;
		string base;
		bool fst = true;
		do {
			string s;
			for (int i : p) {
				int at = 0;
				for (int j = 0; j < i; j++) at += size[secs[j]] + how - 5;
				s += text(secs[i], i, how + i, how, at);
			}
			if (fst) { base = s; fst = false; if (!all) std::reverse(p.begin(), p.end()), std::prev_permutation(p.begin(), p.end()); continue; }
			if (!w.same(s, base, SAME, "order of sections")) return false;
			if (w.stopped()) return false;
		} while (std::next_permutation(p.begin(), p.end()));
		return true;
	};
	r.phase("two and three sections in all orders", N * N, [&](Worker &w, u64 u) {
		int a = u % N, b = u / N;
		for (int how = 0; how < HOWS; how++) if (!orders(w, {a, b}, how, true)) return;
		for (int c = 0; c < N; c++) for (int how = 0; how < HOWS; how++) if (!orders(w, {a, b, c}, how, true)) return;
	});
	r.phase("four sections in all orders", N * N, [&](Worker &w, u64 u) {
		int a = u % N, b = u / N;
		for (int c = b; c < N; c++) for (int d = c; d < N; d++)
			if (cfg.thorough() || (a + 3 * b + 5 * c + 7 * d) % 4 == 0) if (!orders(w, {a, b, c, d}, (a + b + c + d) % HOWS, true)) return;
	});
	if (cfg.thorough())
		r.phase("five sections in all orders", N * N, [&](Worker &w, u64 u) {
			int a = u % N, b = u / N;
			for (int c = b; c < N; c++) for (int d = c; d < N; d++) for (int e = d; e < N; e++)
				if ((a + 3 * b + 5 * c + 7 * d + 11 * e) % 6 == 0) if (!orders(w, {a, b, c, d, e}, (a + b + c + d + e) % HOWS, true)) return;
		});
	// two sections that branch and jump into each other, at every distance
	r.phase("two sections at every distance", 262 * 12, [&](Worker &w, u64 u) {
		static const unsigned base[] = {0x100, 0x17F, 0x1FE, 0x7F80, 0x7FFC, 0x8000, 0xFEC0, 0x300, 0x2345, 0x140, 0x40C0, 0xC0C0};
		unsigned a = base[u / 262];
		int d = (int)(u % 262) - 131;
		int b = (int)a + 2 + d;
		if (b < 0 || b > 0xFFF8) return;
		static const char *const br[] = {"BNE", "BEQ", "BCC", "BCS", "BMI", "BPL", "BVC", "BVS"};
		for (int k = 0; k < 3; k++) {
			string sa = ".ORG " + hexs(a) + "\n " + (k == 2 ? "JSR" : br[u % 8]) + " Q\n", sb = "*=" + hexs(b) + "\nQ " + (k == 1 && d > 2 && (b + 2 < (int)a || b > (int)a + 3) ? string(br[(u + 3) % 8]) + " P\n" : "NOP\n"), sc = "*=" + hexs(a > 0x8000 ? 5 : 0xF000) + "\n NOP\n";
			if (b + 1 > (int)a && b < (int)a + (k == 2 ? 3 : 2)) continue;
			if (k == 1) { sa = ".ORG " + hexs(a) + "\nP " + br[u % 8] + " Q\n"; }
			if (!w.same(sb + sa, sa + sb, SAME, "two sections") || !w.same(sc + sb + sa, sa + sb + sc, SAME, "two sections") || !w.same(sa + sc + sb, sb + sc + sa, SAME, "two sections")) return;
		}
	});
	// sections of every size that touch or leave a gap, in all orders
	r.phase("touching sections of every size", 300, [&](Worker &w, u64 u) {
		static const unsigned base[] = {0, 0x10, 0x200, 0x7FF0, 0xC0C1};
		for (int k = 0; k < 10; k++) {
			int n1 = (int)u + 1, n2 = k < 3 ? k + 1 : k == 3 ? 63 : k == 4 ? 64 : k == 5 ? 65 : k == 6 ? (int)u + 2 : k == 7 ? 128 : k == 8 ? 256 : 600;
			int gap = (u + k) % 5 == 4 ? 1 : 0, n3 = (u % 7) + 1;
			auto sec = [&](unsigned at, int n, const string &nm) {
				string s = ((u + k) & 1 ? ".ORG " : "*=") + hexs(at) + "\n" + nm + "\n";
				for (; n >= 3 && (u & 2); n -= 3) s += n % 5 ? " STA $55AA\n" : " JMP " + nm + "\n";
				for (; n >= 2; n -= 2) s += " LDA #$" + string(1, "0123456789ABCDEF"[n % 16]) + "7\n";
				if (n) s += " NOP\n";
				return s;
			};
			unsigned a = base[(u + k) % 5];
			string s[3] = {sec(a, n1, "A1"), sec(a + n1 + gap, n2, "B1"), sec(a + n1 + gap + n2 + (gap ^ 1) * (k & 1), n3, "C1")}, e = "*=" + hexs(0xF800) + "\n JMP A1\n JMP B1\n BNE F\nF RTS\n";
			if (!w.same(s[1] + s[0] + e, s[0] + s[1] + e, SAME, "touching sections") || !w.same(e + s[0] + s[1], s[0] + s[1] + e, SAME, "touching sections")) return;
			static const int ord[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
			for (int o = 1; o < 6; o++) if (!w.same(s[ord[o][0]] + s[ord[o][1]] + s[ord[o][2]], s[0] + s[1] + s[2], SAME, "touching sections") || w.stopped()) return;
		}
	});
	// many sections: forwards, backwards, rotations, every pair swapped
	r.phase("many sections, rotated, reversed and swapped", 64, [&](Worker &w, u64 u) {
		int n = (int)u + 2;
		auto sec = [&](int i) { return ".ORG " + hexs(0x400 + i * 0x30) + "\nM" + std::to_string(i) + " JMP M" + std::to_string((i * 5 + 1) % n) + "\n BNE M" + std::to_string(i) + "\n BPL F" + std::to_string(i) + "\nF" + std::to_string(i) + " JSR M" + std::to_string((i + 1) % n) + "\n JMP (M" + std::to_string(n - 1 - i) + ")\n"; };
		string base;
		for (int i = 0; i < n; i++) base += sec(i);
		auto in = [&](std::function<int(int)> f) { string s; for (int i = 0; i < n; i++) s += sec(f(i)); return w.same(s, base, SAME, "order of sections"); };
		for (int k = 0; k < n; k++) {
			if (!in([&](int i) { return (i + k) % n; }) || !in([&](int i) { return (n - 1 - i + k) % n; })) return;
			if (k && !in([&](int i) { return i == 0 ? k : i == k ? 0 : i; })) return;
		}
		if (n <= 40) for (int a = 0; a < n; a++) for (int b = a + 1; b < n; b++) if (!in([&](int i) { return i == a ? b : i == b ? a : i; })) return;
	});
}

// ---- any address -----------------------------------------------------------
void prop_c29(Run &r)
{
	r.rule = "Each of a set of small programs is placed at every address from 0 to the last one where it fits, by each directive, and compared with the reference assembler there. A program is nontrivial when its outcome differs from that of every other.";
	struct P { string text; int size; };
	vector<P> ps = {{"L JMP L\n", 3}, {" JMP F\nF RTS\n", 4}, {" BNE F\n NOP\nF RTS\n", 4}, {"L NOP\n BNE L\n", 3}, {"L: LDA #1\nM JSR M\n JMP (L)\n JMP N\nN:\n", 11}, {" BEQ F\n JSR F\n JMP (G)\nF STA $1234,X\nG LDA ($12),Y\n", 13},
		{" NOP\n", 1}, {" STA $A55A\n", 3}, {"L\n LDX L,Y\n", 3}, {"L BPL L\nM BMI M\n BVC N\n BVS N\nN BCC L\n", 10}, {"L NOP\n LDA L\n STA L,X\n", 7}, {" JMP F\n JMP F\n BNE F\nF NOP\n BNE F\nK = 5\n LDA #K\n", 13}};
	const char *const dir[] = {".ORG $%X\n", "*=%u\n", ".org %u\n", "* = $%x\n"};
	r.sample("*=65533 / L JMP L");
	unsigned step = 64;
	r.phase("every program at every address", 65536 / step, [&](Worker &w, u64 u) {
		for (unsigned a = u * step; a < (u + 1) * step; a++)
			for (size_t k = 0; k < ps.size(); k++) {
				if (a + ps[k].size > 65536) continue;
				if (!cfg.thorough() && k > 5 && (a * 5 + k) % 3) continue;
				char d[40];
				snprintf(d, sizeof d, dir[cfg.thorough() ? k % 4 : (k + a) % 4], a);
				if (!w.verify(d + ps[k].text, SAME, "address")) return;
				if (w.stopped()) return;
			}
	});
	// every opcode at every offset of every page (of some), with operands of all kinds
	static const vector<std::pair<int, Form>> ins = [] { vector<std::pair<int, Form>> v; for (int m = 0; m < 56; m++) for (int f = 0; f < NFORMS; f++) if (model::selectMode(m, (Form)f, 0x12) >= 0 || model::selectMode(m, (Form)f, 0x1234) >= 0) v.push_back({m, (Form)f}); return v; }();
	r.phase("every opcode at every address", ins.size() * 2 * 16, [&](Worker &w, u64 u) {
		auto [m, f] = ins[u / 32];
		bool wide = u / 16 % 2, sym = false;
		unsigned lo = u % 16 * 0x1000, hi = lo + (cfg.thorough() ? 0x1000 : u % 16 == 0 ? 0x400 : 0x300);
		if (wide ? model::selectMode(m, f, 0x1234) < 0 : model::selectMode(m, f, 0x12) < 0) return;
		for (unsigned k = 0; k < 6; k++, sym = !sym) {
			unsigned at = k < 3 ? lo + k : hi - 0x100 + k, end = k < 3 ? hi : hi + 0x100, n = 0;
			string s = (k & 1 ? ".ORG " : "*=") + hexs(at) + "\n", defs;
			if (sym && model::isBranch(m)) continue;
			while (at + 3 <= end && at < 0xFFFD && n < 1500) {
				unsigned v = wide ? 0x100 + (at * 40503u + k * 977) % 0xFF00 : (at * 167 + k * 31 + n) & 0xFF;
				if (sym && n < 40) defs += "K" + std::to_string(n) + " = " + hexs(v) + "\n";
				string l = takesOperand(f) ? insLine(m, f, sym && n < 40 ? "K" + std::to_string(n) : hexs(v)) : insLine(m, f, "");
				s += " " + l + "\n";
				n++;
				at += !takesOperand(f) ? 1 : wide || m == mnOf("JMP") || m == mnOf("JSR") ? 3 : 2;
			}
			if (!w.verify(defs + s, SAME, "opcode at an address") || w.stopped()) return;
		}
	});
	// reached by code instead of a directive
	r.phase("every program after code that leads there", 4096, [&](Worker &w, u64 u) {
		string pre = ".ORG $7000\nENTRY\n";
		u64 n = u;
		for (; n >= 3; n -= 3) pre += "STA $A55A\n";
		for (; n; n--) pre += "NOP\n";
		for (size_t k = 0; k < ps.size(); k++) {
			if (!cfg.thorough() && (k + u) % 4) continue;
			if (!w.verify(pre + ps[k].text, SAME, "address reached by code")) return;
		}
	});
	// long branches over page ends and powers of two, both ways
	r.phase("branches of every distance at every page", 256 * 8, [&](Worker &w, u64 u) {
		static const char *const br[] = {"BNE", "BEQ", "BCC", "BCS", "BMI", "BPL", "BVC", "BVS"};
		unsigned page = (u >> 3) << 8;
		for (int d = -131; d <= 131; d++) {
			if (d > -3 && d < 0) continue;
			if (!cfg.thorough() && ((page >> 8) & ((page >> 8) - 1)) && (d + (int)(u & 7) + (int)(page >> 8)) % 4 && d != 127 && d != 128 && d != -128 && d != -129) continue;
			for (int j = 0; j < 7; j++) {
				// crossing the page's beginning after none, few, half or nearly all of the way; or ending or starting around it
				int from = (int)page - 2 - (d > 0 ? d * j / 3 : 128 * j / 3 + d / 2) + (int)(u & 1);
				if (j > 3) from = (int)page - (j == 4 ? 2 : j == 5 ? (int)(u & 7) - 2 : d + 2 + (int)(u & 1));
				int to = from + 2 + d;
				if (from < 0 || to < 0 || from > 0xFFF0 || to > 0xFFF0) continue;
				string sa = ".ORG " + hexs(from) + "\n " + br[u & 7] + " Q\n", sb = ".ORG " + hexs(to) + "\nQ NOP\n";
				if (!w.verify(j & 1 ? sa + sb : sb + sa, SAME, "long branch")) return;
			}
		}
	});
	// from one place to another: all distances around the powers of two, both ways
	vector<unsigned> at = boundaryValues();
	r.phase("jumps between all pairs of places", at.size() * at.size(), [&](Worker &w, u64 u) {
		unsigned a = at[u % at.size()], b = at[u / at.size()];
		if (a + 6 > 65536 || b + 4 > 65536 || (a < b + 4 && b < a + 6)) return;
		string sa = ".ORG " + hexs(a) + "\nP JMP Q\n JSR R\n", sb = "*=" + hexs(b) + "\nQ JMP P\nR RTS\n";
		if (w.verify(sa + sb, SAME, "two places")) w.verify(sb + sa, SAME, "two places");
	});
}

// ---- errors are final ------------------------------------------------------
void prop_c30(Run &r)
{
	r.rule = "Every rejected line of a set, after each of a set of legal beginnings, followed by every continuation of a set: exit status and diagnostics must be those of the program that ends with the rejected line. A program is nontrivial when its outcome differs from that of every other.";
	vector<string> err;
	for (const char *e : {"NOP NOP", "RTS RTS ; c", " STA #5", "LDA 65536", "LDA #$10Z", ".FOO 1", "*5", "LDA (5", "LDA 5,", "LDA U,X", "JMP (5,X)", "K = U", "P: Q:", ".ORG U", "LDA #", "?", "LDA \"5", "A = 5", "NOP = 5", "L", "L = 1", "L NOP", ".DEFINE L 2", "*= L", "BNE L2,X", "LDA #256", "JSR #5", "JMP $10000",
		"LDA (5),X", "LDX 5,X", "= 5", ", 5", ": L", "( )", "#", "$", "%", ".", "BNE $100", "BRK 1", "LDA LDA", "BEQ FARL", "STX L,Y", "LDA ((5))", ".END 5", ".DEFINE 5", "LDA 5 5", "ASL A A", "\x7f"})
		err.push_back(e);
	err.push_back(string(64, 'Q') + " NOP");
	err.push_back("LDA #1" + string(200, ' ') + "2");
	err.push_back(" ;" + string(130, 'c') + "\n NOP NOP");
	err.push_back(string(70, '9'));
	vector<string> pre = {"L = $1234\nFARL = $FFF0\n", "L NOP\nFARL = $7000\n JMP P9\n", "\n\n;\nFARL = $2000\nL:\n BNE P9\n LDA #1\n", "FARL = $9999\n" + string(300, '\n') + "L .EQU 400\n JMP (P9)\n JSR P9\n"};
	vector<string> post = allCores();
	for (auto &l : opcodeLines()) post.push_back(l + "\n");
	for (auto &e : err) post.push_back(e + "\n");
	for (const char *p : {".END\n", "\n", ";", "P9 NOP\n", "P9 = $FFFF\n", "U = 5\nP9:\n", "L = 1\n", ".END", "\r\n", "\t", "NOP", "\x01\x02\x03", "LDA #1\nNOP NOP", "JMP U\nU NOP\nP9 = 5\n.END\n"}) post.push_back(p);
	post.push_back(string(5000, ' '));
	post.push_back(string(3000, ';') + "\n NOP NOP\n");
	string many; for (int i = 0; i < 300; i++) many += "Z" + std::to_string(i) + " JMP Y" + std::to_string(i) + "\n";
	post.push_back(many);
	size_t shortPosts = post.size();
	r.sample("L = $1234 / NOP NOP / L = 1");
	unsigned m = C_VERDICT | C_DIAG | C_REPORT | C_REJECT;
	// is the last line what gets the program rejected, whatever follows?
	auto final = [](Worker &w, const string &s) {
		w.model.run(s, w.mr);
		return !w.mr.ok && w.mr.line == (int)std::count(s.begin(), s.end(), '\n');
	};
	if (getenv("GAIA_SHOW")) { Worker w; for (auto &p : pre) for (auto &e : err) if (!final(w, p + e + "\n")) fprintf(stderr, "not an error: %s (%s)\n", e.c_str(), p.substr(0, 20).c_str()); }
	r.phase("every error, every continuation", err.size() * pre.size(), [&](Worker &w, u64 u) {
		string base = pre[u / err.size()] + err[u % err.size()] + "\n";
		if (!final(w, base)) return;
		for (auto &p : post) if (!w.same(base + p, base, m, "after an error") || w.stopped()) return;
	});
	r.phase("every error, every two bytes after it", 254, [&](Worker &w, u64 u) {
		char a = (char)(u + 1);
		if (a == (char)0xFF) return;
		for (int b = 1; b < 255; b++)
			for (int k = 0; k < (cfg.thorough() ? 12 : 3); k++) {
				string base = pre[k % pre.size()] + err[(u * 31 + b * 7 + k * 11) % err.size()] + "\n";
				if (!final(w, base)) continue;
				string c = {a, (char)b};
				if (!w.same(base + c + (k & 1 ? "" : "\n NOP\n"), base, m, "two bytes after an error")) return;
			}
	});
	r.phase("every error, very long continuations", err.size() * longTails().size(), [&](Worker &w, u64 u) {
		size_t e = u % err.size();
		const string &t = longTails()[u / err.size()];
		if (!cfg.thorough() && (e + u / err.size()) % (t.size() > 100000 ? 12 : t.size() > 20000 ? 6 : 2)) return;
		string base = pre[u % pre.size()] + err[e] + "\n";
		if (final(w, base)) w.same(base + t, base, m, "a long text after an error");
	});
	vector<string> two;
	for (size_t i = 0; i < shortPosts; i += cfg.thorough() ? 3 : 11) two.push_back(post[i]);
	r.phase("every error, two continuations", err.size() * two.size(), [&](Worker &w, u64 u) {
		string base = pre[u % pre.size()] + err[u % err.size()] + "\n", a = base + two[u / err.size()];
		if (a.back() != '\n') a += "\n";
		if (!final(w, base)) return;
		for (auto &p : two) if (!w.same(a + p, base, m, "after an error") || w.stopped()) return;
	});
	// a reference that fails is reported whatever legal code follows it
	vector<string> late = {" JMP U8\n", " BNE U8\n NOP\n", " JSR U8\n JMP U7\n", "*=$100\n BEQ FARL\nFARL = $500\n", " JMP (U8)\n LDA #1\n"};
	vector<string> fine;
	for (auto &l : opcodeLines()) fine.push_back(l + "\n");
	for (const char *p : {"\n", ";\n", "V1 = 5\n", "V2 NOP\n", "V3:\n", ".ORG $2000\n", "*=$3000\n NOP\n", " JMP W1\nW1 NOP\n", " JMP U9\n", " BNE U9\n", ".END\n", ".END\n)))", "V4 = $FFFF\n JMP V4\n", "V5\n\nV6\n"}) fine.push_back(p);
	r.phase("every unresolved reference, every legal continuation", late.size() * fine.size(), [&](Worker &w, u64 u) {
		const string &e = late[u % late.size()], &f = fine[u / late.size()];
		if (!w.same(e + f, e, m, "after a failing reference")) return;
		if (f.compare(0, 4, ".END")) for (auto &g : fine) if (f != g && !w.same(e + f + g, e, m, "after a failing reference")) return;
	});
}
