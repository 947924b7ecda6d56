// C31..C33: what is printed when things fail, programs joined in one source,
// and definitions nobody uses.
#include "props.h"
#include <cerrno>

namespace {
const unsigned CODE = C_VERDICT | C_IMAGE | C_BYTES | C_REPORT;

// '@' stands for what the labels of the part begin with
const vector<string> &parts()
{
	static const vector<string> v = [] {
		vector<string> p = {"@0 NOP\n", "@1 JMP @1\n", " JMP @F\n@F RTS\n", " BNE @F\n NOP\n@F\n", "@K = $1234\n JMP @K\n LDA @K\n", " JMP @K\n@K = $4321\n", ".DEFINE @Z 5\n LDA @Z\n LDX @Z,Y\n LDA #@Z\n",
			"@L: LDA #1\n@M JSR @M\n JMP (@L)\n JMP @N\n@N:\n", " JMP @U\n", " NOP NOP\n", "@A NOP\n@A NOP\n", " BNE @T\n@T = $9C00\n", "", ";c\n", "@E\n", " LDA @LATER\n@LATER = 5\n", "\r\n NOP ; " + string(300, 'c') + "\r\n@Q NOP\r\n",
			"@B BCC @B\n BCS @B\n BEQ @G\n BMI @G\n@G BPL @G\n", " STA $12\n STA $1234\n STA ($12),Y\n STA $12,X\n ASL A\n ASL\n", "@W .EQU %101\n@V = 100\n@X1 NOP\n JMP (@X2)\n@X2 .EQU $FFFF\n", " JSR @R\n@R\n@S RTS\n JMP @S\n", " LDX #256\n", "@H JMP @H ; ((\n\n\n\t\n"};
		string refs, syms, both;
		for (int i = 0; i < 34; i++) { refs += " JMP @J" + std::to_string(i % 7) + "\n BNE @J0\n"; syms += "@C" + std::to_string(i * 37) + (i % 2 ? " = 7\n" : " NOP\n"); both += "@D" + std::to_string(i) + " JMP @D" + std::to_string(33 - i) + "\n"; if (i == 20) refs += "@J0\n"; }
		for (int i = 1; i < 7; i++) refs += "@J" + std::to_string(i) + " = " + std::to_string(i * 11) + "\n";
		p.push_back(refs); p.push_back(syms); p.push_back(both);
		return p;
	}();
	return v;
}
string withNames(const string &t, const string &prefix)
{
	string s;
	for (char c : t) if (c == '@') s += prefix; else s += c;
	return s;
}
bool hasEnd(const string &s) { return lower(s).find(".end") != string::npos; }
}

// ---- what is printed -------------------------------------------------------
void prop_c31(Run &r)
{
	r.level = "fault_enumeration";
	r.rule = "Each sample program with every I/O call failing for every reason and every allocation failing, alone, in pairs and from some point on; every source name; every size of the report; and the real program over all argument vectors up to three, unusable files and file size limits. The whole text a run prints is compared. A run is nontrivial when its text differs from that of every other.";
	r.sample("write fails with ENOSPC -> exactly \"ERROR: assembled binary file could not be written\"");
	auto progs = faultPrograms();
	static const int errs[] = {0, EINTR, EPIPE, EFBIG, EBADF, EINVAL, ENOMEM, ENOENT, EMFILE, ENXIO, EACCES, EISDIR, ETIMEDOUT};
	const int NE = sizeof errs / sizeof *errs;
	r.phase("every failing call", progs.size() * NE, [&](Worker &w, u64 u) {
		const string &s = progs[u / NE];
		Outcome o; w.sut->run(s, o);
		int n = o.ioCalls;
		for (int i = 0; i < n + 1; i++) {
			if (!cfg.thorough() && i > 100 && i < n - 100 && i % (1 + n / 150)) continue;
			for (int on = 0; on < 2; on++) {
				Plan p; p.failIo[0] = i; p.failIoOn = on; p.err = errs[u % NE];
				if (!w.told(s, p, "failing call")) return;
				p.part = true;
				if (u % NE < 4 && !w.told(s, p, "failing call after a part")) return;
			}
		}
	});
	r.phase("pairs of failing calls", progs.size() * 64, [&](Worker &w, u64 u) {
		const string &s = progs[u / 64];
		Outcome o; w.sut->run(s, o);
		int n = std::min(o.ioCalls, cfg.thorough() ? 300 : 90);
		for (int i = u % 64; i < n; i += 64) for (int j = i + 1; j < n + 1; j++) {
			Plan p; p.failIo[0] = i; p.failIo[1] = j;
			if (!w.told(s, p, "two failing calls")) return;
		}
	});
	r.phase("every failing allocation", progs.size() * 16, [&](Worker &w, u64 u) {
		const string &s = progs[u / 16];
		Outcome o; w.sut->run(s, o);
		for (int i = u % 16; i < o.allocs + 1; i += 16) for (int on = 0; on < 2; on++) {
			Plan p; p.failAlloc = i; p.failAllocOn = on;
			if (!w.told(s, p, "failing allocation")) return;
		}
	});
	// the name of the source in the text
	vector<string> names = {"a", "./y.asm", "dir/z.asm", "a b.asm", "%s%s%n.asm", "%d:%d.s", "\xc3\xa4.asm", "a:b", "a\tb", "UPPER.ASM", "..x", "a'b\"c", "./-x.asm", "\\n", "100%", "$HOME", "*", "out.bin", "prog.asm.asm", "a.out"};
	for (int b = 1; b < 256; b++) if (b != '/') { names.push_back(string("./") + (char)b + "x"); names.push_back(string("n") + (char)b); }
	for (int n = 1; n < 600; n += n < 140 ? 1 : 23) { names.push_back(string(n, 'n')); names.push_back("d/" + string(n, 'n') + ".asm"); }
	for (int n : {1000, 1023, 1024, 1025, 2047, 2048, 4000, 4090}) names.push_back(string(n / 2, 'm') + "/" + string(n - n / 2 - 1, 'n'));
	r.phase("every name of the source", names.size(), [&](Worker &w, u64 u) {
		for (size_t k : {(size_t)1, (size_t)3, (size_t)5, (size_t)8, progs.size() - 1}) {
			Outcome o; w.sut->run(progs[k], o, nullptr, w.sut->canName(names[u].c_str()) ? names[u].c_str() : "prog.asm");
			for (int i = -1; i < o.ioCalls; i++) for (int e : {0, ENOENT}) {
				Plan p; p.failIo[0] = i; p.err = e;
				if (!w.told(progs[k], p, "name of the source", names[u].c_str())) return;
			}
			for (int i = 0; i < o.allocs; i += 1 + (k == progs.size() - 1)) {
				Plan p; p.failAlloc = i;
				if (!w.told(progs[k], p, "name of the source, failing allocation", names[u].c_str())) return;
			}
		}
	});
	// the report, and diagnostics after reports of every size
	r.phase("every size of the report", cfg.thorough() ? 1200 : 400, [&](Worker &w, u64 u) {
		string code, syms;
		for (u64 i = 0; i < u; i++) { code += " NOP\n"; syms += "K" + std::to_string(i) + " = 5\n"; }
		for (u64 big : {0, 250, 4090, 9990, 65000}) { string s = code; for (u64 i = 0; i < big / 3; i++) s += "JMP 5\n"; if ((big < 4000 || u % 9 == 0) && !w.told(s + syms, Plan(), "report")) return; }
		if (!w.told(syms, Plan(), "report")) return;
	});
	vector<u64> counts;
	for (u64 p = 512; p <= (cfg.thorough() ? 65536 : 32768); p *= 2) for (int d = -1; d <= 1; d++) counts.push_back(p + d);
	for (u64 p : {999, 1000, 1001, 9999, 10000, 10001, 99999, 100000}) if (p < 30000 || cfg.thorough()) counts.push_back(p);
	r.phase("large reports", counts.size() * 2, [&](Worker &w, u64 u) {
		u64 n = counts[u / 2];
		string s;
		if (u % 2 == 0) { for (u64 i = 0; i < n; i++) s += "K" + std::to_string(i) + "\n"; }
		else { if (n > 65536) return; for (u64 i = 0; i < n / 3; i++) s += "JMP 5\n"; for (u64 i = 0; i < n % 3; i++) s += "NOP\n"; }
		w.told(s, Plan(), "large report");
	});
	auto all = allCores();
	r.phase("core programs", all.size(), [&](Worker &w, u64 u) {
		if (!w.told(all[u], Plan(), "report")) return;
		Outcome o; w.sut->run(all[u], o);
		for (int i = 0; i < o.ioCalls; i++) { Plan p; p.failIo[0] = i; if (!w.told(all[u], p, "failing call")) return; p.failIoOn = true; if (!w.told(all[u], p, "failing calls")) return; }
		for (int i = 0; i < o.allocs; i++) { Plan p; p.failAlloc = i; if (!w.told(all[u], p, "failing allocation")) return; }
	});
	// every short program: all failing calls, all failing allocations, and one of each
	static const vector<string> al = {"L NOP\n", " JMP L\n", " JMP M\n", " BNE M\n", "M = $1234\n", ".ORG $100\n", " LDA #5", "\n", " LDA M,X\r\n", ".END\n", " NOP NOP\n", "; c\n", " JSR (L)\n", "M:\n"};
	const u64 A = al.size();
	int depth = cfg.thorough() ? 4 : 3;
	u64 n = 1; for (int i = 0; i < depth; i++) n *= A;
	r.phase("every short program, failing calls and allocations", n + n / A + n / A / A, [&, depth](Worker &w, u64 u) {
		int d = u < n ? depth : u < n + n / A ? depth - 1 : depth - 2;
		u64 x = u < n ? u : u < n + n / A ? u - n : u - n - n / A;
		string s;
		for (int i = 0; i < d; i++) { s += al[x % A]; x /= A; }
		if (!w.told(s, Plan(), "short program")) return;
		Outcome o; w.sut->run(s, o);
		for (int i = 0; i < o.ioCalls + 1; i++) for (int on = 0; on < 2; on++) { Plan p; p.failIo[0] = i; p.failIoOn = on; p.part = (u + i) % 2; if (!w.told(s, p, "failing call")) return; }
		for (int i = 0; i < o.allocs; i++) for (int on = 0; on < 2; on++) { Plan p; p.failAlloc = i; p.failAllocOn = on; if (!w.told(s, p, "failing allocation")) return; }
		if (u % 5 && !cfg.thorough()) return;
		for (int i = 0; i < o.allocs; i += 3) for (int j = 0; j < o.ioCalls + 1; j++) { Plan p; p.failAlloc = i; p.failIo[0] = j; if (!w.told(s, p, "failing allocation and failing call")) return; }
	});
	contexts(r, C_TEXT | C_DIAG, coresFor(15));
	cli_told(r);
	vector<unsigned> cnt = manyCounts();
	r.phase("many statements of each kind", cnt.size() * MANY_KINDS, [&](Worker &w, u64 u) {
		string s = ".ORG $2000\n" + manyOf(u % MANY_KINDS, cnt[u / MANY_KINDS], "M");
		if (!w.told(s, Plan(), "many statements")) return;
		if (u % 3 == 0 && !w.told(s + " LDA (\n", Plan(), "many statements, then an error")) return;
		if (u % 7 == 0) w.told(s + " JMP NONE\n", Plan(), "many statements, then a missing label");
	});
	// every operand of every opcode, and branches of every length at every page: no remarks on them
	static vector<std::pair<int, Form>> ins;
	for (int m = 0; m < 56; m++) for (int f = 0; f < NFORMS; f++) if (takesOperand((Form)f)) ins.push_back({m, (Form)f});
	r.phase("every operand of every opcode", ins.size() * 256, [&](Worker &w, u64 u) {
		auto [m, f] = ins[u / 256];
		for (int as = 0; as < 2; as++) {
			string s, defs;
			int n = 0;
			for (unsigned i = 0; i < 256; i++) {
				unsigned v = u % 256 * 256 + i;
				if (model::selectMode(m, f, v) < 0) continue;
				n++;
				if (as) { defs += "K" + std::to_string(i) + " = " + hexs(v) + "\n"; s += " " + insLine(m, f, "K" + std::to_string(i)) + "\n"; }
				else s += " " + insLine(m, f, lit(v, u & 1 ? 10 : 16)) + "\n";
			}
			if (!n || (as && model::isBranch(m))) continue;
			if (as && !cfg.thorough() && u % 4) continue;
			if (!w.verify(defs + ".ORG " + hexs(u * 211 & 0x7FFF) + "\n" + s, C_TEXT, "every operand")) return;
		}
	});
	r.phase("branches of every length at every page", 256 * 8, [&](Worker &w, u64 u) {
		static const int br[] = {mnOf("BCC"), mnOf("BCS"), mnOf("BEQ"), mnOf("BMI"), mnOf("BNE"), mnOf("BPL"), mnOf("BVC"), mnOf("BVS")};
		int page = u / 8 * 256, from = page + (int)(u % 8) * 32 + 2;
		if (from > 0xFF00) return;
		string defs, s = ".ORG " + hexs(from) + "\n";
		for (int k = 0; k < 30; k++) {
			int d = from + k * 2 + 2 + (k * 9 + (int)u * 7) % 256 - 128;
			if (d < 0 || d > 0xFFFF) continue;
			defs += "K" + std::to_string(k) + " = " + hexs(d) + "\n";
			s += string(" ") + model::mnemonics[br[k % 8]] + " K" + std::to_string(k) + "\n";
		}
		if (!w.verify(defs + s, C_TEXT, "branches")) return;
		w.verify(s + defs, C_TEXT, "branches forward");
	});
	// sizes of code, gaps and moves up and down
	r.phase("code, gaps and moves of many sizes", 16 * 16, [&](Worker &w, u64 u) {
		auto code = [](unsigned k) { string s; for (; k >= 3; k -= 3) s += "JMP 5\n"; for (; k; k--) s += "NOP\n"; return s; };
		unsigned n = 1u << u % 16, m = 1u << u / 16;
		for (unsigned gap : {0u, 1u, 255u, 4095u, 4096u, 4097u, 10000u, 30000u, 60000u})
			for (int down = 0; down < 2; down++) {
				unsigned lo = down ? m : n, hi = lo + gap;
				if (hi + n + m > 65536 || (!cfg.thorough() && n > 2048 && m > 2048)) continue;
				string a = down ? ".ORG " + std::to_string(hi) + "\n" + code(n) : code(n), b = ".ORG " + std::to_string(down ? 0 : hi) + "\n" + code(m);
				if (!w.told(a + b, Plan(), "gaps") || !w.told(a + b + "*=$FFFF\n", Plan(), "gaps") || !w.told(a + b + " LDA )\n", Plan(), "gaps, then an error")) return;
			}
	});
}

// ---- joined programs -------------------------------------------------------
void prop_c32(Run &r)
{
	r.rule = "All pairs and triples of parts in a set of layouts, sequences of up to 60 parts, and every core program before and after every part; the whole must be accepted exactly when the parts are and give the union of their output and the sums of their counts. A program is nontrivial when its outcome differs from that of every other.";
	r.sample("*=$100 / A JMP A joined with *=0 / B BNE F / F RTS");
	auto &P = parts();
	int N = (int)P.size();
	// where the parts lie
	static const int lay[][3] = {{0, 0x100, 0x200}, {0x200, 0x100, 0}, {0x1000, 0x80, 0x8000}, {0xFF00, 0x7F80, 0x80}, {0x7FA0, 0x80A0, 0x7EA0}, {0x4000, 0xC000, 0x8000}, {0xFEF0, 0, 0xFDF0}, {0xF0, 0x1F0, 0x2F0}};
	const int NL = sizeof lay / sizeof *lay;
	auto at = [&](int part, int place, int how, int style) {
		int a = lay[how][place];
		string s = (style & 1 ? "*= " : ".ORG ") + (style & 2 ? std::to_string(a) : hexs(a)) + "\n";
		if (!place && !a && style & 4) s = "";
		static const char *const pre[] = {"A", "B", "C", "LONG_PREFIX_OF_THE_NAMES_OF_A_PART_", "Z_", "L"};
		return s + withNames(P[part], string(pre[(style + place) % 6]) + (char)('P' + place));
	};
	r.phase("all pairs of parts", N * N, [&](Worker &w, u64 u) {
		for (int how = 0; how < NL; how++) for (int st = 0; st < 8; st++) {
			string a = at(u % N, 0, how, st), b = at(u / N, 1, how, st * 3 + 1);
			if (!w.joined(a, b, "two parts")) return;
			if (!w.joined(a + ";\n\n", b + ".END\n)))\n" + a, "two parts and .END")) return;
			if (!w.joined(a + ".ORG 5\n", b + "*=$FFFE\n", "two parts, final moves")) return;
		}
	});
	r.phase("all triples of parts", N * N, [&](Worker &w, u64 u) {
		for (int c = 0; c < N; c++) for (int how = 0; how < NL; how++) {
			if (!cfg.thorough() && (how + c + u) % 2) continue;
			string a = at(u % N, 0, how, how), b = at(u / N, 1, how, how + c), d = at(c, 2, how, c);
			if (!w.joined(a + b, d, "three parts") || !w.joined(a, b + d, "three parts")) return;
			if (w.stopped()) return;
		}
	});
	// one after the other, at all steps
	vector<int> good;
	{ model::Assembler m; model::Result x; for (int i = 0; i < N; i++) { m.run(".ORG $100\n" + withNames(P[i], "A"), x); if (x.ok) good.push_back(i); } }
	r.phase("sequences of parts", 240, [&](Worker &w, u64 u) {
		int G = (int)good.size(), n = cfg.thorough() ? 150 : 60;
		string s = ".ORG 0\n";
		for (int i = 0; i < n; i++) {
			int k = u % 4 == 0 ? (int)u / 4 : u % 4 == 1 ? (int)u / 4 + i : u % 4 == 2 ? (int)u / 4 + i * 5 : (int)(u / 4 + i * i);
			int where = u % 3 == 0 ? i : u % 3 == 1 ? 149 - i : i * 37 % 150;
			string p = (i % 2 ? "*=" : ".ORG ") + hexs(0x100 + where * 0x100) + "\n" + withNames(P[good[k % G]], "P" + std::to_string(u % 5 == 4 ? 1000 - i : i) + "_");
			if (!w.joined(s, p, "sequence of parts")) return;
			s += p;
		}
	});
	// every short program before and after every other
	static const vector<string> al = {"@0 NOP\n", " JMP @0\n", " BNE @1\n", "@1 = $90\n", "@1:\n", ".ORG {}\n", " LDA @1\n", " NOP NOP\n", " LDA #1\n"};
	const u64 A = al.size();
	u64 n = 0;
	int depth = cfg.thorough() ? 4 : 3;
	{ u64 k = 1; for (int i = 0; i <= depth; i++, k *= A) n += k; }
	auto word = [&](u64 x, const string &prefix, int base) {
		string s = ".ORG " + hexs(base) + "\n";
		u64 k = 1; int d = 0;
		while (x >= k) { x -= k; k *= A; d++; }
		for (int i = 0; i < d; i++, x /= A) { string l = al[x % A]; size_t q = l.find("{}"); if (q != string::npos) l.replace(q, 2, hexs(base + 0x20 + i * 8)); s += withNames(l, prefix); }
		return s;
	};
	r.phase("all pairs of short programs", n, [&](Worker &w, u64 u) {
		for (u64 v = 0; v < n; v++) {
			bool up = (u + v) & 1;
			if (!w.joined(word(u, "P", up ? 0x50 : 0xA0), word(v, "Q", up ? 0xA0 : 0x50), "short programs")) return;
		}
	});
	auto all = allCores();
	r.phase("every core program and every part", all.size(), [&](Worker &w, u64 u) {
		if (hasEnd(all[u])) return;
		string c = all[u];
		if (c.empty() || c.back() != '\n') c += "\n";
		for (int k = 0; k < N; k++) for (int place : {0xE000, 0xFF00, 0xA0, 0x3000}) {
			string p = ".ORG " + hexs(place) + "\n" + withNames(P[k], k % 2 ? "ZQ" : "WVWVWVWVWVWVWVWVWVWVWV");
			w.model.run(c + p, w.mr);
			if (!w.mr.outOfDomain && !w.joined(c, p, "core program, part")) return;
			w.model.run(p + ".ORG 0\n" + c, w.mr);
			if (!w.mr.outOfDomain && !w.joined(p, ".ORG 0\n" + c, "part, core program")) return;
		}
	});
	// the second part begins around every power of two of the text
	r.phase("parts on both sides of every size of the text", 12 * 46, [&](Worker &w, u64 u) {
		size_t size = ((size_t)512 << u / 46) - 40 + u % 46;
		for (int k = 0; k < N + 6; k++) {
			if (!cfg.thorough() && size > 70000 && (k + u) % 9) continue;
			if (!cfg.thorough() && size > 9000 && (k + u) % 3) continue;
			static const char *const one[] = {"NOP\n RTS\n", "nop ; c\nL9 NOP\n", "JMP L9\nL9\n", "LDA #1\nLDX #2\nLDY #3\n", ".ORG $9000\n ASL\n", "ASL A\n\nROL\n"};
			string a = ".ORG $20\nA1 LDA #5\n JMP A2\nA2\n", b = k < N ? withNames(P[k], "B") : one[k - N];
			if (a.size() + 20 > size) continue;
			size_t left = size - a.size();
			switch ((u + k) % 5) {
			case 0: a += string(left, '\n'); break;
			case 1: while (left > 100) { a += "; " + string(61, 'c') + "\n"; left -= 64; } a += string(left - 1, ' ') + "\n"; break;
			case 2: a += ";" + string(left - 2, 'x') + "\n"; break;
			case 3: while (left > 20) { a += " LDX #3"; a += left % 3 ? "\n" : "  \n"; left -= left % 3 ? 8 : 10; if (a.size() > 8000) { a += string(left > 40 ? left - 12 : 0, '\n'); left = std::min<size_t>(left, left > 40 ? 12 : left); break; } } a += string(left, '\n'); break;
			default: while (left > 40) { int n = (int)std::min<size_t>(left - 10, 200); a += string(n - 1, '\t') + "\n"; left -= n; } a += string(left, '\n'); break;
			}
			if (!w.joined(a, ".ORG $4000\n" + b, "size of the text")) return;
			w.model.run(a + b, w.mr);
			if (!w.mr.outOfDomain && !w.verify(a + b, CODE | C_SYMS, "size of the text")) return;
		}
	});
	vector<unsigned> cnt = manyCounts();
	r.phase("many statements joined with many others", cnt.size() * MANY_KINDS, [&](Worker &w, u64 u) {
		int k = u % MANY_KINDS;
		unsigned n = cnt[u / MANY_KINDS];
		static const int still[] = {0, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20};
		for (unsigned i = 0; i < 3; i++) {
			int k2 = still[(u + i * 7 + n) % std::size(still)];
			string a = ".ORG $100\n" + manyOf(k2, (n * (i + 1) + i) % 300, "A"), b = ".ORG $4000\n" + manyOf(k, n, "B");
			if (!w.joined(a, b, "many statements") || !w.joined(".ORG $4000\n" + manyOf(k, n, "B"), a, "many statements")) return;
			if (n > 300) break;
		}
	});
}

// ---- definitions ------------------------------------------------------------
void prop_c33(Run &r)
{
	r.rule = "Each of a set of programs with one or more unused definitions of every form inserted at every place must give the verdict, bytes and byte count it gives without; and programs with their constants defined in all orders at all combinations of places must give what they give with all constants first. A program is nontrivial when its outcome differs from that of every other.";
	r.sample("JMP F / UNUSED: / F RTS against JMP F / F RTS");
	vector<string> progs = allCores();
	for (auto &p : parts()) progs.push_back(".ORG $300\n" + withNames(p, "AB"));
	for (auto &e : exampleSources()) if (e.size() < 4000) progs.push_back(e);
	vector<string> def = {"ZQW7\n", "ZQW7:\n", "\tzqw7: ; unused\n", "ZQW7 = $1234\n", "ZQW7 = 0\n", "ZQW7 .EQU 65535\n", ".DEFINE ZQW7 %11\n", " .define zqw7 $80 ; c\n", "Z" + string(62, 'Q') + " = 5\n", "ZQ_\n", "ZQ9:\r\n", "ZQ=$100\n"};
	def.pop_back();   // needs blanks around =
	def.push_back("ZQ = $100\n");
	auto lines = [](const string &s) {
		vector<string> v; size_t p = 0;
		while (p < s.size()) { size_t e = s.find('\n', p); e = e == string::npos ? s.size() : e + 1; v.push_back(s.substr(p, e - p)); p = e; }
		return v;
	};
	auto usable = [](Worker &w, const string &s) { w.model.run(s, w.mr); return !w.mr.outOfDomain; };
	r.phase("one unused definition", progs.size(), [&](Worker &w, u64 u) {
		auto l = lines(progs[u]);
		if (!l.empty() && l.back().back() != '\n') l.back() += "\n";
		string base; for (auto &x : l) base += x;
		if (!usable(w, base)) return;
		size_t step = cfg.thorough() || l.size() < 60 ? 1 : l.size() / 40;
		string before;
		for (size_t i = 0; i <= l.size(); i++) {
			if (i % step == 0 || i == l.size())
				for (auto &d : def) {
					string s = before + d + base.substr(before.size());
					if (usable(w, s) && !w.same(s, base, CODE, "unused definition")) return;
				}
			if (i < l.size()) before += l[i];
		}
	});
	r.phase("two unused definitions", progs.size(), [&](Worker &w, u64 u) {
		auto l = lines(progs[u]);
		if (l.size() > 40 && !cfg.thorough()) return;
		if (!l.empty() && l.back().back() != '\n') l.back() += "\n";
		string base; for (auto &x : l) base += x;
		if (!usable(w, base)) return;
		for (size_t i = 0; i <= l.size() && i < 60; i++) for (size_t j = i; j <= l.size() && j < 60; j++) {
			size_t k = (i * 7 + j * 3 + u) % def.size();
			string s, d2 = withNames("@V = $77\n", j % 2 ? "Y" : "LONGER_NAME_");
			for (size_t q = 0; q <= l.size(); q++) { if (q == i) s += def[k]; if (q == j) s += j % 3 ? d2 : j % 3 == 1 ? "V9:\n" : "V8\n"; if (q < l.size()) s += l[q]; }
			if (usable(w, s) && !w.same(s, base, CODE, "two unused definitions")) return;
		}
	});
	static const int many[] = {1, 2, 3, 5, 10, 11, 16, 32, 50, 53, 64, 100, 101, 127, 200, 255, 256, 500, 1000};
	const int NM = sizeof many / sizeof *many;
	static const vector<string> al = {"L NOP\n", "M:\n", " JMP L\n", " JMP M\n", " BNE M\n", "K = $1234\n", " LDA K\n", " JMP K\n", ".ORG $10\n", "*=$30\n", " LDA #1\n", ".DEFINE M 5\n"};
	const u64 A = al.size();
	int depth = cfg.thorough() ? 5 : 4;
	u64 n = 1; for (int i = 0; i < depth; i++) n *= A;
	r.phase("one unused definition in every short program", n + n / A, [&, depth](Worker &w, u64 u) {
		int d = u < n ? depth : depth - 1;
		u64 x = u < n ? u : u - n;
		string l[8], base;
		for (int i = 0; i < d; i++) { l[i] = al[x % A]; base += l[i]; x /= A; }
		if (!usable(w, base)) return;
		for (int i = 0; i <= d; i++) for (int k = 0; k < 3; k++) {
			string s;
			for (int j = 0; j < d; j++) { if (j == i) s += def[(u + i + k * 5) % def.size()]; s += l[j]; }
			if (i == d) s += def[(u + i + k * 5) % def.size()];
			if (usable(w, s) && !w.same(s, base, CODE, "unused definition")) return;
		}
	});
	r.phase("many unused definitions", progs.size() * NM, [&](Worker &w, u64 u) {
		const string &s = progs[u / NM];
		int n = many[u % NM];
		if (n > 120 && !cfg.thorough() && (u / NM) % 7) return;
		auto l = lines(s);
		if (!l.empty() && l.back().back() != '\n') l.back() += "\n";
		string base; for (auto &x : l) base += x;
		if (!usable(w, base)) return;
		for (int scheme = 0; scheme < 4; scheme++) {
			auto d = [&](int i) {
				string k = std::to_string(scheme == 1 ? n - i : scheme == 2 ? i * 7919 % 100003 : i);
				return (scheme == 3 ? "W" + string(6 - std::min<size_t>(6, k.size()), '_') + k + "_END_OF_A_LONG_NAME" : "W" + k) + (i % 3 == 0 ? "\n" : i % 3 == 1 ? " = " + std::to_string(i * 97 % 65536) + "\n" : ":\n");
			};
			string front, spread, end = base;
			for (int i = 0; i < n; i++) front += d(i);
			for (size_t q = 0, i = 0; q <= l.size(); q++) { size_t to = (q + 1) * n / (l.size() + 1); for (; i < to; i++) spread += d((int)i); if (q < l.size()) spread += l[q]; }
			for (int i = 0; i < n; i++) end += d(i);
			for (auto *x : {&front, &spread, &end}) {
				string t = x == &front ? front + base : *x;
				if (usable(w, t) && !w.same(t, base, CODE, "many unused definitions")) return;
			}
		}
	});
	r.phase("unused definitions before a label at every address", 130 * 4, [&](Worker &w, u64 u) {
		string code, defs;
		for (u64 i = 0; i < u / 4; i++) code += " NOP\n";
		static const char *const use[] = {"L JMP L\n BNE L\n", " JMP L\n BNE L\nL RTS\n", "L\nM JSR M\n JMP (L)\n", " BNE L\n JMP M\nL: NOP\nM: NOP\n"};
		string base = code + use[u % 4];
		for (int n = 0; n < 130; n++) {
			if (!w.same(defs + base, base, CODE, "unused definitions")) return;
			if (n % 2 && !w.same(code + defs + use[u % 4], base, CODE, "unused definitions")) return;
			defs += "D" + std::to_string(n) + (n % 2 ? " = 7\n" : " .EQU $1234\n");
		}
	});
	// definitions under known names, alone and in pairs, and of every value
	static const vector<string> words = [] {
		vector<string> v;
		for (auto &k : knownWords()) {
			string q;
			for (char c : k) { if (c >= 'a' && c <= 'z') c -= 32; if ((c >= 'A' && c <= 'Z') || (!q.empty() && (c == '_' || (c >= '0' && c <= '9')))) q += c; }
			if (q.size() > 1 && q.size() < 60 && model::findMnemonic(q) < 0) { v.push_back(q); v.push_back(q + "_"); }
		}
		for (auto &k : alikeNames()) if (k.size() > 1 && model::findMnemonic(k) < 0) v.push_back(k);
		std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end());
		return v;
	}();
	vector<string> users = {" NOP\n", ".ORG $10\n JMP F9\nF9 RTS\n", " BNE Q9\nQ9 LDA #1\n", "Q9 = 5\n LDA Q9\n STA $1234,X\n", " JMP Q8\n", "*=$FFF0\n RTS\n", ""};
	r.phase("unused definitions under known names", words.size(), [&](Worker &w, u64 u) {
		static const char *const form[] = {"@ = $1234\n", "@\n", "@:\n", ".DEFINE @ 5\n", "@ .EQU 0\n", "@ = $FFFC\n"};
		for (auto &p : users) for (auto f : form) {
			string d = withNames(f, words[u]);
			if (!w.same(d + p, p, CODE, "known name") || !w.same(p + d, p, CODE, "known name")) return;
			if (*f == '@' && f[1] != ' ' && !w.same(".ORG $20\n" + d + p, ".ORG $20\n" + p, CODE, "known name")) return;
		}
		for (size_t i = u % 3; i < words.size(); i += cfg.thorough() ? 1 : 3) {
			if (i == u) continue;
			const string &p = users[(u + i) % 5];
			string d = withNames(form[i % 6], words[u]) + withNames(form[u % 6], words[i]);
			if (!w.same(i & 1 ? d + p : p + d, p, CODE, "known names")) return;
		}
	});
	r.phase("unused definitions of every value", 65536 / 16, [&](Worker &w, u64 u) {
		for (unsigned v = u * 16; v < u * 16 + 16; v++) {
			const string &p = users[v % 7];
			for (const string &d : {"ZV = " + hexs(v) + "\n", ".DEFINE ZV " + std::to_string(v) + "\n", "ZV .EQU " + hexs(v) + "\nZW = " + hexs(v ^ 0xFF) + "\n"})
				if (!w.same(d + p, p, CODE, "every value") || !w.same(p + d, p, CODE, "every value")) return;
		}
	});
	r.phase("unused definitions of the value of every address nearby", 65536 / 16, [&](Worker &w, u64 u) {
		for (unsigned v = u * 16; v < u * 16 + 16; v++)
			for (unsigned d : {0u, 3u, v % 9, (v * 5 + 3) % 12}) {
				if (v < d || v - d > 0xFFF0 || (!cfg.thorough() && v > 0x800 && v % 256 > 8 && (v + d) % 4)) continue;
				string o = ".ORG " + hexs(v - d) + "\n", code = v & 1 ? " JMP L9\nL9 NOP\nM9 BNE L9\n JSR M9\n" : "L9: LDA #1\n BEQ M9\nM9\n JMP (M9)\nN9 RTS\n";
				string def = d & 1 ? "ZV = " + hexs(v) + "\n" : v & 2 ? ".DEFINE ZV " + hexs(v) + "\n" : "ZV .EQU " + std::to_string(v) + "\n";
				if (!w.same((v + d) % 3 ? def + o + code : o + def + code, o + code, CODE, "value of an address")) return;
			}
	});
	// constants of every value near 0 and near the place of use, at places in every page
	r.phase("every value of a constant, used at every page", 256 * 4, [&](Worker &w, u64 u) {
		unsigned at = (u % 256) * 256 + (unsigned)(u * 37 % 250);
		int form = u / 256;
		auto one = [&](unsigned v, const string &use) {
			string d = form & 1 ? "KV .EQU " + hexs(v) + "\n" : form & 2 ? ".DEFINE KV " + std::to_string(v) + "\n" : "KV = " + hexs(v) + "\n";
			string o = ".ORG " + hexs(at) + "\n", first = d + o + use, last = o + use + d, mid = o + d + use;
			if (!usable(w, first)) return true;
			return w.same(last, first, CODE | C_SYMS, "constant after its use") && w.same(mid, first, CODE | C_SYMS, "constant at another place") && w.verify(first, C_VERDICT | C_IMAGE, "constant before its use");
		};
		for (unsigned v = 0; v < 256; v += cfg.thorough() ? 1 : v < 4 || (v > 120 && v < 136) || v > 250 ? 1 : 5) {
			if (!one(v, " BNE KV\n") || !one(v, " JMP KV\n BEQ KV\n") || w.stopped()) return;
			if (v % 3 == 0 && (!one(v << 8, " JSR KV\n BCC KV\n") || !one(v << 8 | v, " JMP (KV)\n") || !one(0xFF00 | v, " BMI KV\n"))) return;
		}
		for (int d = -140; d <= 140; d += cfg.thorough() ? 1 : (d > -133 && d < -123) || (d > 120 && d < 133) || (d > -4 && d < 4) ? 1 : 7) {
			int v = (int)at + 2 + d;
			if (v < 0 || v > 0xFFFF) continue;
			if (!one(v, " BVS KV\n") || !one(v, " BPL KV\n NOP\n JMP KV\n")) return;
		}
	});
	// constants at all places against constants first
	vector<vector<string>> body = {
		{" JMP K0\n", " JSR K1\n", " JMP (K2)\n", " BNE K3\n", " NOP\n", " JMP K1\n"},
		{"L JMP K1\n", " JMP K0\n", "\n", ".ORG $250\n", " JMP (K0)\n", " JSR K2\n"},
		{" BEQ K3\n", " BCC K3\n", " JMP L9\n", "L9 JMP K0\n", " JMP K2\n", " BPL L9\n"},
		{" JSR K0\n", " JSR K0\n", " JSR K1\n", " JSR K1\n", " JSR K2\n", " JMP K2\n"},
		{"; c\n", " JMP K3\n", "K9 = $777\n", " JMP K9\n", " JMP (K1)\n", "L: JMP L\n"},
		{"*=$208\n", " BNE K3\n", " JMP K2\n", "*=$204\n", " JMP K0\n", "Q:\n"},
	};
	r.phase("constants at all places", body.size() * 7 * 7, [&](Worker &w, u64 u) {
		auto &b = body[u / 49];
		int place[4] = {(int)(u % 7), (int)(u / 7 % 7), 0, 0};
		static const char *const num[4][4] = {{"$1234", "5", "$FFFF", "$20C"}, {"0", "%1111111100000000", "$80", "524"}, {"$7F", "$100", "256", "$210"}, {"65535", "$FF", "1", "$200"}};
		for (place[2] = 0; place[2] < 7; place[2]++) for (place[3] = 0; place[3] < 7; place[3]++) for (int v = 0; v < 4; v++) for (int ord = 0; ord < 2; ord++) {
			auto defOf = [&](int k, int f) { string n = "K" + std::to_string(k); return f % 3 == 0 ? n + " = " + num[v][k] + "\n" : f % 3 == 1 ? n + " .EQU " + num[v][k] + "\n" : ".DEFINE " + n + " " + num[v][k] + "\n"; };
			string base = "", s;
			for (int k = 0; k < 4; k++) base += defOf(k, k + v);
			base += ".ORG $200\n";
			for (auto &x : b) base += x;
			s = ".ORG $200\n";
			for (int i = 0; i <= 6; i++) {
				for (int k = 0; k < 4; k++) { int q = ord ? 3 - k : k; if (place[q] == i) s += defOf(q, v * 2 + i); }
				if (i < 6) s += b[i];
			}
			if (!w.same(s, base, CODE | C_SYMS, "constants at other places")) return;
			if (w.stopped()) return;
		}
	});
}
