// C22..C25
#include "props.h"

// lines covering every statement kind, mnemonic class, operand form and token length
static vector<string> coveringLines(int level)
{
	vector<string> v;
	auto add = [&](std::initializer_list<const char *> l) { for (auto x : l) v.push_back(x); };
	add({" NOP", " LDA #$12", " LDA $34", " LDA $5678,X", " STA ($9A),Y", " LDA ($BC,X)", " JMP $DEF0", " JMP (KON)", " JMP (FWD)", " BNE FWD", " BEQ @L", " ASL A", " ROR", " LDX KON,Y",
	     " JSR FWD", "@L NOP", "@L:", "@L = $77", "@L .EQU 5", ".DEFINE @L %1", "; c", "", " BCC $F0", " STA WID", " LDA WID,Y", " CPX #KON"});
	if (level >= 1)
		add({" INC KON,X", " ADC WID", " DEC $1234", " JMP WID", " JSR KON", "@L: LDA (KON),Y", "@L ROL A", "@L JMP FWD", " BIT 255", " STY 00256", " LDY #0",
		     "@L BPL FWD", "@L_AND_A_VERY_LONG_NAME_INDEED_UP_TO_THE_LIMIT_OF_CHARS = 1", " JMP FWD_WITH_A_LONG_NAME", " TAX", "@L: ", " \t ", " LSR $10,X", " SBC %11111111", " EOR $FFFF,Y", " STX KON", ".DEFINE @L 65535"});
	if (level >= 2) for (auto &o : opcodeLines()) v.push_back(o);
	return v;
}
static string inst(const string &l, int k)
{
	string s = l; size_t p;
	while ((p = s.find('@')) != string::npos) s.replace(p, 1, string(1, 'P' + k));
	return s;
}

void prop_c22(Run &r)
{
	r.level = "model_checking";
	r.rule = "All sequences of two to four statements over alphabets covering every statement kind, mnemonic class, operand form and token length, with and without a statement that fails at the end, each compared with the reference; breadth-first over distinct model states for a core alphabet.";
	const unsigned M = C_VERDICT | C_IMAGE | C_SYMS;
	string pro = "KON = $5A\nWID = $4321\n", epi = "FWD NOP\nFWD_WITH_A_LONG_NAME RTS\n";
	r.sample(" STA ($9A),Y / ROR / PL NOP"); r.sample(" JMP (FWD) / LDA #$12 / (illegal) LDA");
	auto l2 = coveringLines(2), l1 = coveringLines(1), l0 = coveringLines(0);
	static const char *illegal[] = {"LDA", "STA #$12", "STA #KON", "NOP KON", "JMP #$12", "LDX $12,X", "STX $1234,Y", "BNE ($12)", "ASL #1", "LDA KON KON", "LDA (KON", "Q1 Q2", ".ORG", "* 5", "LDA UNDEF", "LDA ($1234),Y", "INC A", "JSR (WID)", "LDA (KON)", "KON NOP"};
	r.phase("all pairs, and pairs before an illegal statement", l2.size() * l2.size(), [&](Worker &w, u64 u) {
		string s = pro + inst(l2[u % l2.size()], 0) + "\n" + inst(l2[u / l2.size()], 1) + "\n";
		if (!w.verify(s + epi, M, "pair")) return;
		if (!w.verify(s + ".END\n", M, "pair, then .END")) return;
		for (auto x : illegal) if (!w.verify(s + " " + x + "\n" + epi, M, "pair, then illegal")) return;
	});
	r.phase("all triples", l1.size() * l1.size() * l1.size(), [&](Worker &w, u64 u) {
		u64 n = l1.size();
		w.verify(pro + inst(l1[u % n], 0) + "\n" + inst(l1[u / n % n], 1) + "\n" + inst(l1[u / n / n], 2) + "\n" + epi, M, "triple");
	});
	u64 n0 = l0.size();
	r.phase("all sequences of four", n0 * n0 * n0, [&](Worker &w, u64 u) {
		string s = pro + inst(l0[u % n0], 0) + "\n" + inst(l0[u / n0 % n0], 1) + "\n" + inst(l0[u / n0 / n0], 2) + "\n";
		for (auto &x : l0) if (!w.verify(s + inst(x, 3) + "\n" + epi, M, "four")) return;
	});
	if (cfg.thorough())
		r.phase("all triples over every opcode", l2.size() * l2.size(), [&](Worker &w, u64 u) {
			string s = pro + inst(l2[u % l2.size()], 0) + "\n" + inst(l2[u / l2.size()], 1) + "\n";
			for (auto &x : l2) if (!w.verify(s + inst(x, 2) + "\n" + epi, M, "triple") || w.stopped()) return;
		});
	// every value after every value: all 65536 pairs in each kind of statement
	static const char *const form[] = {" LDA $%02X\n", " CPX #%d\n", " STA $12%02X\n", " LDA ($%02X),Y\n", " EOR %%%s\n", " LDX V%02X\n", " JMP W%02X\n", " BIT $%02X34\n", "C%04X = $%02X\n"};
	const u64 NF = sizeof form / sizeof *form;
	static vector<uint8_t> order;        // every pair once
	for (int a = 0; a < 256 && order.size() < 65536; a++) { order.push_back(a); for (int b = a + 1; b < 256; b++) { order.push_back(a); order.push_back(b); } }
	r.phase("every value after every value", NF * 16, [&](Worker &w, u64 u) {
		u64 f = u / 16, part = u % 16;
		string s;
		char b[64];
		if (f == 5 || f == 6) for (int i = 0; i < 256; i++) { snprintf(b, sizeof b, f == 5 ? "V%02X = %d\n" : "W%02X = $%X\n", i, f == 5 ? i : i * 257 + 1); s += b; }
		for (u64 i = part * 4096; i < part * 4096 + 4097 && i < order.size(); i++) {
			unsigned v = order[i];
			if (f == 4) { string bin; for (int k = 7; k >= 0; k--) bin += (char)('0' + (v >> k & 1)); snprintf(b, sizeof b, form[f], bin.c_str()); }
			else if (f == 8) snprintf(b, sizeof b, form[f], (unsigned)i, v);
			else snprintf(b, sizeof b, form[f], v);
			s += b;
		}
		if (f == 8) for (u64 i = part * 4096; i < part * 4096 + 4097 && i < order.size(); i++) { snprintf(b, sizeof b, " LDA #C%04X\n", (unsigned)i); s += b; }
		w.verify(s, M, "every value after every value");
	});
	// a statement repeated n times, then another
	r.phase("repetition, then another statement", l1.size() * l1.size(), [&](Worker &w, u64 u) {
		string a = l1[u % l1.size()], b = inst(l1[u / l1.size()], 0);
		if (a.find('@') != string::npos) return;
		for (int k : {5, 8, 9, 16, 17, 33, 65}) {
			string s = pro;
			for (int i = 0; i < k; i++) s += a + "\n";
			if (!w.verify(s + b + "\n" + epi, M, "repeated")) return;
		}
	});
	// every opcode after every opcode, with operands of every size and digit
	auto ol = opcodeLines();
	r.phase("every opcode's operands after every opcode", ol.size() * 56, [&](Worker &w, u64 u) {
		static const unsigned ev[] = {0, 1, 9, 10, 0x18, 0x55, 0x63, 0x64, 0x7F, 0x80, 0x99, 0x9A, 0xA0, 0xC0, 0xFE, 0xFF, 0x100, 0x1FF, 0x999, 0x1234, 0x9999, 0xA000, 0xFFFF};
		int m = u % 56;
		string first = " " + ol[u / 56] + "\n", s = "L9\n" + first, t = s;
		if (model::isBranch(m)) { for (int i = 0; i < 20; i++) s += insLine(m, F_OP, "L9") + "\n"; }
		for (int f = 0; f < NFORMS; f++) {
			if (!takesOperand((Form)f)) { if (model::selectMode(m, (Form)f, 0) >= 0) s += insLine(m, (Form)f, "") + "\n"; continue; }
			for (unsigned v : ev) {
				if (model::selectMode(m, (Form)f, v) < 0) continue;
				for (int radix : {16, 10, 2}) { string l = insLine(m, (Form)f, lit(v, radix)) + "\n"; s += l; if (radix == 16) t += (v & 1 ? "" : first) + l; }
			}
		}
		if (!w.verify(s, M, "operands after an opcode") || !w.verify(t + first + s.substr(3), M, "operands after an opcode")) return;
	});
	// token text of every length followed by shorter or longer ones
	r.phase("token lengths in sequence", 63 * 63, [&](Worker &w, u64 u) {
		string a(u % 63 + 1, 'N'), b(u / 63 + 1, 'M');
		if (!w.verify(a + " NOP\n" + b + " NOP\n JMP " + a + "\n JMP " + b + "\n", M, "lengths")) return;
		if (!w.verify(".DEFINE " + a + " $12\n LDA " + a + "\n" + b + " .EQU $345\n LDA " + b + ",X\n STA " + a + ",X\n", M, "lengths")) return;
		if (!w.verify(" JMP " + a + "\n BNE " + b + "\n" + b + " NOP\n" + a + " = 5\n", M, "lengths")) return;
		string z(u % 63, '0'), y(u / 63, '0');
		if (!w.verify(" LDA $" + z + "12\n LDA $" + y + "3456\n", M, "literal lengths")) return;
		if (!w.verify(string(u % 63, ' ') + "LDA #1" + string(u / 63, ' ') + ";\nLDA #2\n", M, "blank lengths")) return;
	});
	// statements that carry a value, each with values around every edge, in pairs and triples
	static const char *kinds[] = {".ORG @", "*=@", "L? = @", "L? .EQU @", ".DEFINE L? @", " LDA #@", " LDA @", " STA @,X", " LDX @,Y", " JMP @", " JMP (@)", " JSR @", " EOR (@,X)", " CMP (@),Y", " BNE @", " ASL @", " BIT @", "L? INC @", "L?: STY @,X", " ADC @,Y"};
	static const unsigned vals[] = {0, 1, 2, 7, 0x10, 0x7E, 0x7F, 0x80, 0x81, 0xC8, 0xFE, 0xFF, 0x100, 0x101, 0x180, 0x1FF, 0x200, 0x2FF, 0x7FF, 0xFFF, 0x1000, 0x1234, 0x7FFF, 0x8000, 0xABCD, 0xFF00, 0xFFFE, 0xFFFF};
	const u64 NK = sizeof kinds / sizeof *kinds, NV = sizeof vals / sizeof *vals;
	auto made = [&](u64 k, u64 v, int place) {
		string t;
		for (const char *p = kinds[k]; *p; p++) { if (*p == '@') t += lit(vals[v], v % 3 == 2 ? 10 : 16); else if (*p == '?') t += "PQRS"[place]; else t += *p; }
		return t + "\n";
	};
	// immediates, branches and zero-page-only forms reject larger values
	auto fits = [&](u64 k, u64 v) { return vals[v] < 256 || !(strchr(kinds[k], '#') || strstr(kinds[k], "BNE") || strchr(kinds[k], '(') || strstr(kinds[k], "STY")); };
	// what is said last lies low, so that the image stays short unless a move asks otherwise
	r.phase("pairs of statements with values", NK * NV * NK, [&](Worker &w, u64 u) {
		u64 a = u % NK, v = u / NK % NV, b = u / NK / NV;
		for (u64 x = 0; x < NV; x++) {
			if (!w.verify(made(a, v, 0) + made(b, x, 1), M, "pair with values")) return;
			if (fits(a, v) && !w.verify(made(a, v, 0) + made(b, x, 1) + "E\n*=$3\n JMP E\n", M, "pair with values")) return;
		}
	});
	const u64 tv[] = {0, 5, 7, 11, 12, 15, 21, 23, 27}, NT = sizeof tv / sizeof *tv;
	static const int tk[] = {0, 1, 2, 4, 5, 6, 7, 9, 14, 15}; const u64 NTK = sizeof tk / sizeof *tk;
	r.phase("triples of statements with values", NTK * NTK * NTK, [&](Worker &w, u64 u) {
		u64 a = tk[u % NTK], b = tk[u / NTK % NTK], d = tk[u / NTK / NTK];
		for (u64 i = 0; i < NT; i++) for (u64 j = 0; j < NT; j++) {
			if (!fits(a, tv[i]) || !fits(b, tv[j])) continue;
			for (u64 k = 0; k < NT; k++) {
				if (!cfg.thorough() && (i + 2 * j + k) % 3) continue;
				if (!w.verify(made(a, tv[i], 0) + made(b, tv[j], 1) + made(d, tv[k], 2) + "E\n*=$3\n JMP E\n", M, "triple with values")) return;
			}
		}
	});
	// moves in sequence
	Alphabet mv;
	mv.lines = {".ORG $0", "*=$1", ".ORG $7F", "* = 255", ".ORG $100", "*=$1FF", ".ORG $200", "*=$1234", ".ORG 32768", "*=$FFF0", " NOP", " LDA #1", "P STA $1234", "M = $100"};
	mv.epilogue = "E\n*=$2\n JMP E\n";
	explore(r, "moves", mv, M, 4, cfg.thorough() ? 6 : 5);
	Alphabet a;
	a.lines = {" LDA #$12", " STA ($9A),Y", " JMP (FW)", " BNE FW", " ROR", "L NOP", "FW = $33", " LDA $1234,X", " ASL A", " LDX KON,Y", " JSR L", "; c"};
	a.prologue = "KON = $5A\n"; 
	explore(r, "core", a, M, cfg.thorough() ? 6 : 5, cfg.thorough() ? 8 : 6);
	manyStatements(r, C_VERDICT | C_IMAGE | C_SYMS);
}

void prop_c23(Run &r)
{
	r.rule = "Every 16-bit value in every spelling of constant definitions and location moves, with several uses, compared with the same program in the first spelling and with the reference; all sequences of three directives in all spellings.";
	const unsigned M = C_VERDICT | C_IMAGE | C_BYTES | C_SYMS;
	r.sample("K = $1234 == K .EQU 4660 == .DEFINE K %1001000110100"); r.sample("*=$20 == .ORG $20");
	static const char *cf[] = {"K = @", "K .EQU @", ".DEFINE K @", "K =@", "K\t=\t@", "k: = @", "k .equ @ ;c", "\t.define k @", "K: .EQU\t@"};
	static const char *of[] = {".ORG @", "*=@", "* = @", "*= @", "* =@", ".org\t@ ; c", "\t*=@", " .Org @"};
	auto sub = [](const char *f, const string &v) { string s = f; s.replace(s.find('@'), 1, v); return s + "\n"; };
	r.phase("constants: every value, spelling and use", 65536 / 32, [&](Worker &w, u64 u) {
		for (unsigned v = u * 32; v < u * 32 + 32; v++) {
			string V = lit(v, v % 3 == 0 ? 16 : v % 3 == 1 ? 10 : 2);
			for (int use = 0; use < 4; use++) {
				string pre, post;
				if (use == 0) post = " JMP K\n JSR K\nE JMP E\n";
				else if (use == 1) { pre = " NOP\nB "; post = " JMP (K)\nE JMP E\n JMP B\n"; pre = " NOP\nB\n"; }
				else if (use == 2) post = v < 256 ? " LDA #K\n LDA K\n STA (K),Y\n LDX K,Y\nE BNE E\n" : " LDA K\n STA K,X\n LDX K,Y\nE BNE E\n";
				else { if (v > 0x90) continue; pre = ".ORG $10\n"; post = " BNE K\nE JMP E\n"; }
				string ref = pre + sub(cf[0], V) + post;
				if (!w.verify(ref, M, "constant")) return;
				for (int i = 1; i < 9; i++) {
					if (!cfg.thorough() && i > 2 && (i + v + use) % 6) continue;
					if (!w.same(pre + sub(cf[i], V) + post, ref, M, "spelling")) return;
				}
			}
		}
	});
	r.phase("locations: every value and spelling", 65536 / 32, [&](Worker &w, u64 u) {
		for (unsigned v = u * 32; v < u * 32 + 32; v++) {
			string V = lit(v, v % 3 == 0 ? 16 : v % 3 == 1 ? 10 : 2);
			// K shows where we are without a 64 KB output
			string post = "K\n*=0\n JMP K\n";
			string ref = sub(of[0], V) + post;
			if (!w.verify(ref, M, "location")) return;
			for (int i = 1; i < 8; i++) if (!w.same(sub(of[i], V) + post, ref, M, "spelling")) return;
			if (cfg.thorough() || v < 0x300 || v % 32 == 0 || (v & 0xFFF) == 0xFFF) {
				if (v > 0xFFF8) continue;
				ref = " NOP\n" + sub(of[0], V) + "L JMP L\n";
				if (v && !w.verify(ref, M, "location")) return;
				for (int i = 1; i < 8; i += 2) if (!w.same(" NOP\n" + sub(of[i], V) + "L JMP L\n", ref, M, "spelling")) return;
			}
		}
	});
	r.phase("literals of every length in every spelling", 70 * 3, [&](Worker &w, u64 u) {
		int radix = u % 3 == 0 ? 16 : u % 3 == 1 ? 10 : 2;
		for (unsigned v : {0u, 1u, 8u, 0x7Fu, 0x80u, 0xFFu, 0x100u, 0x101u, 0x234u, 0x1000u, 0x7FFFu, 0x8000u, 0xFFF0u}) {
			string V = lit(v, radix);
			V.insert(radix == 10 ? 0 : 1, u / 3, '0');
			for (const char *tail : {"", " ", " ; c", "\t;"}) {
				string ref = sub(cf[0], lit(v, 16)) + " JMP K\nE JMP E\n", post = " ; x\nK\n*=0\n JMP K\n", loc = sub(of[0], lit(v, 16)) + post.substr(4);
				for (int i = 0; i < 9; i++) if (!w.same(sub(cf[i], V + tail) + " JMP K\nE JMP E\n", ref, M, "spelling")) return;
				for (int i = 0; i < 8; i++) if (!w.same(sub(of[i], V + tail) + post.substr(4), loc, M, "spelling")) return;
			}
			if (!w.verify(" NOP\n.ORG " + V + "\nK\n*=" + V + "\n JMP K\n", v ? M : C_VERDICT, "literal")) return;
		}
	});
	// sequences: a constant never moves the counter nor emits
	vector<string> l = {"*=$20", ".ORG $20", "* = $8", ".ORG 0", " NOP", " JMP K", " JMP M", "P", "K = $1234", "K .EQU $21", ".DEFINE K $8", ".DEFINE M 3", "M = $FFFF", "M .EQU $20", " LDA #1", " BNE P"};
	Alphabet a; a.lines = l; a.epilogue = "E JMP E\n";
	explore(r, "directives", a, M, cfg.thorough() ? 5 : 4, cfg.thorough() ? 7 : 5);
	r.phase("constants between any two instructions", opcodeLines().size(), [&](Worker &w, u64 u) {
		auto ops = opcodeLines();
		for (auto &o : ops)
			for (int i = 0; i < 3; i++) {
				string ref = ops[u] + "\nE\n" + o + "\n JMP E\n", s = ops[u] + "\n" + sub(cf[i], "$4444") + "E\n" + sub(".DEFINE K2 @", "0") + o + "\n JMP E\n";
				if (!w.same(s, ref, C_IMAGE | C_BYTES, "constants in between")) return;
			}
	});
}

void prop_c24(Run &r)
{
	r.rule = "Every non-branch mnemonic x operand form x 16-bit value: the operand as a label (constant in three spellings, or address label) against the operand as the number, both run on the assembler; legal combinations in batches of 32, illegal ones alone (quick: values around byte and power-of-two edges; thorough: all).";
	const unsigned M = C_IMAGE | C_BYTES;
	r.sample("K = $80 / LDA (K),Y  ==  LDA ($80),Y"); r.sample(".ORG $100 / K / .ORG 0 / STA K,X == STA $100,X");
	vector<Ins> all;
	for (int m = 0; m < 56; m++) if (!model::isBranch(m)) for (int f = 0; f < NFORMS; f++) if (takesOperand((Form)f)) all.push_back({m, (Form)f});
	r.phase("legal: every value as a constant", all.size() * 2048, [&](Worker &w, u64 u) {
		Ins x = all[u >> 11];
		unsigned base = (u & 2047) * 32;
		string defs, ref, use;
		int n = 0;
		for (unsigned v = base; v < base + 32; v++) {
			if (model::selectMode(x.mn, x.f, v) < 0) continue;
			string k = "K" + std::to_string(v & 31);
			defs += v % 3 == 0 ? k + " = " + lit(v, 16) + "\n" : v % 3 == 1 ? ".DEFINE " + k + " " + lit(v, 10) + "\n" : k + " .EQU " + lit(v, 2) + "\n";
			ref += insLine(x.mn, x.f, hexs(v)) + "\n"; use += insLine(x.mn, x.f, v & 1 ? k : lower(k)) + "\n";
			n++;
		}
		if (!n) return;
		w.c->items.fetch_add(n);
		w.same(defs + use, ref, M, "constant");
	});
	vector<unsigned> vals = boundaryValues();
	if (cfg.thorough()) { vals.clear(); for (unsigned v = 0; v < 65536; v++) vals.push_back(v); }
	const unsigned CH = 64;
	u64 chunks = (vals.size() + CH - 1) / CH;
	r.phase("every combination alone, constant and address", all.size() * chunks, [&](Worker &w, u64 u) {
		Ins x = all[u / chunks];
		for (u64 i = u % chunks * CH; i < std::min<u64>(vals.size(), (u % chunks + 1) * CH); i++) {
			unsigned v = vals[i];
			string ref = insLine(x.mn, x.f, hexs(v)) + "\n", use = insLine(x.mn, x.f, "K") + "\n";
			if (!w.same("K = " + hexs(v) + "\n" + use, ref, M, "constant")) return;
			if (!w.same(".ORG " + hexs(v) + "\nK\n.ORG 0\n" + use, ref, M, "address")) return;
			if (i % 7 == 0 && v < 0xFFF0 && v > 4) {
				string blk = ".ORG " + hexs(v) + "\n", nop = "NOP\n*=0\n";
				if (!w.same(blk + "K " + nop + "L1: " + use, blk + "  " + nop + "L1: " + ref, M, "address of an instruction")) return;
			}
		}
	});
	r.phase("label on the instruction's own line, or just before it", all.size(), [&](Worker &w, u64 u) {
		Ins x = all[u];
		for (unsigned v : vals) {
			if (v > 0xFFF0) continue;
			string org = ".ORG " + hexs(v) + "\n", ref = insLine(x.mn, x.f, hexs(v)), use = insLine(x.mn, x.f, "K");
			if (!w.same(org + "K " + use + "\n", org + "K " + ref + "\n", M, "own line") || !w.same(org + "K: " + use + "\n", org + "K " + ref + "\n", M, "own line")) return;
			if (!w.same(org + "K\n " + use + "\n", org + "K\n " + ref + "\n", M, "line before") || !w.same(org + "K NOP\nL " + use + "\n", org + "K NOP\nL " + ref + "\n", M, "instruction before")) return;
		}
	});
	// the symbol used at other locations: neither its own value nor the location
	// changes what it stands for
	static const unsigned at[] = {0x80, 0xFF, 0x100, 0x1FE, 0x300, 0x1234, 0x7FFF, 0x8000, 0xC000, 0xFF00, 0xFFF0};
	r.phase("used at many locations", all.size() * std::size(at), [&](Worker &w, u64 u) {
		Ins x = all[u / std::size(at)];
		unsigned a = at[u % std::size(at)];
		string org = ".ORG " + hexs(a) + "\n";
		for (size_t i = 0; i < vals.size(); i += cfg.thorough() ? 7 : 1) {
			unsigned v = vals[i];
			string ref = insLine(x.mn, x.f, hexs(v)) + "\n", use = insLine(x.mn, x.f, "K") + "\n";
			if (!w.same("K = " + hexs(v) + "\n" + org + use, org + ref, M, "constant, elsewhere")) return;
			if (i % 3 == u % 3 && !w.same(".ORG " + hexs(v) + "\nK\n" + org + use, org + ref, M, "address, elsewhere")) return;
		}
	});
	// mixed with other symbols and other instructions
	auto ops = opcodeLines();
	r.phase("among other symbols", all.size(), [&](Worker &w, u64 u) {
		Ins x = all[u];
		for (unsigned v : {0x00u, 0x01u, 0x7Fu, 0x80u, 0xFFu, 0x100u, 0x1234u, 0x8000u, 0xFFFFu})
			for (int others : {0, 5, 8, 9, 20, 50})
				for (const char *after : {"", " NOP\n", " LDA #$12\n", " JMP $1234\n", " STA ($12),Y\n", " ROR\n", "Z2 ASL A\n"}) {
					string o;
					for (int i = 0; i < others; i++) o += "K" + std::to_string(i) + " = " + std::to_string(i * 1000 + 7) + "\n";
					if (!w.same(o + "K = " + hexs(v) + "\n" + after + insLine(x.mn, x.f, "K") + "\n" + after, o + after + insLine(x.mn, x.f, hexs(v)) + "\n" + after, M, "among others")) return;
				}
	});
}

void prop_c25(Run &r)
{
	r.level = "model_checking";
	r.rule = "All sequences of up to three instructions over every opcode and every kind of forward reference, from several origins, a label in each style before, between and after them, each label's value made visible by a jump table; all programs over an alphabet of moves, labels and instructions, then breadth-first over distinct model states.";
	const unsigned M = C_VERDICT | C_IMAGE;
	auto ops = opcodeLines();
	ops.push_back(" JMP FW"); ops.push_back(" JSR FW"); ops.push_back(" JMP (FW)"); ops.push_back(" BNE FW"); ops.push_back(" BCC FW"); ops.push_back(" LDA KZ"); ops.push_back(" STA KW,X"); ops.push_back(" JMP KZ"); ops.push_back(" JMP T0"); ops.push_back(" BNE T0");
	ops.push_back(";"); ops.push_back("Q9 = $9999"); ops.push_back(" ROR A");
	r.sample(".ORG $100 / T0 LDA #1 / T1: / JMP FW / T2 NOP / JMP T0 / JMP T1 / JMP T2");
	string pro = "KZ = $44\nKW .EQU $4444\n";
	u64 n = ops.size();
	auto lab = [](int k, int style, const string &ins) {
		string t = "T" + std::to_string(k);
		switch (style % 4) { case 0: return t + "\n" + ins + "\n"; case 1: return t + ":\n" + ins + "\n"; case 2: return ins[0] == ' ' ? t + ins + "\n" : t + "\n" + ins + "\n"; default: return ins[0] == ' ' ? lower(t) + ":" + ins + "\n" : t + ":\n\n" + ins + "\n"; }
	};
	string table2 = "TE NOP\n JMP T0\n JMP T1\n JMP TE\n JMP (T1)\nFW RTS\n";
	r.phase("all pairs of instructions, several origins", n * n, [&](Worker &w, u64 u) {
		int k = 0;
		for (const char *org : {"", ".ORG $100\n", "*=$FD\n", ".ORG $7FFE\n", ".ORG $FFC0\n"})
			if (!w.verify(pro + org + lab(0, u + k, ops[u % n]) + lab(1, u / n + k, ops[u / n]) + table2, M, "pair")) return; else k++;
	});
	vector<string> rep = {" NOP", " LDA #1", " LDA $12", " LDA $1234", " JMP FW", " BNE FW", " JSR FW", " JMP (FW)", " STA ($12),Y", " LDA ($12,X)", " JMP ($1234)", " ASL A", " ROL", " LDX $12,Y", " STA $1234,X", " LDX $1234,Y", " BCC $10", " BEQ T0", " JMP T0", " JSR KW", " LDA KZ", " LDA KW", ";", "Q9 = $9999", " BRK", " RTI", " CPX #KZ", " DEC KZ,X", ".ORG $90", "*=$10"};
	u64 m = rep.size();
	string table3 = "TE NOP\n.ORG $B000\n JMP T0\n JMP T1\n JMP T2\n JMP TE\n";
	int extra = cfg.thorough() ? 1 : 0;
	r.phase("all triples of instructions", m * m * m, [&](Worker &w, u64 u) {
		for (int s = 0; s < (cfg.thorough() ? 4 : 2); s++) {
			string p = pro + (s & 1 ? ".ORG $60\n" : "");
			string b = lab(0, s + u, rep[u % m]) + lab(1, s + u / 3, rep[u / m % m]) + lab(2, s + u / 5, rep[u / m / m]);
			if (!w.verify(p + b + "TE NOP\n JMP T0\n JMP T1\n JMP T2\n JMP TE\nFW RTS\n", M, "triple")) return;
			if (s == 0 && !w.verify(p + b + table3 + "FW = $80\n", M, "triple")) return;
			if (extra) for (auto &x : rep) if (!w.verify(p + b + "T3" + (x[0] == ' ' ? x : "\n" + x) + "\nTE NOP\n JMP T0\n JMP T3\n JMP TE\nFW RTS\n", M, "four")) return;
		}
	});
	// every way to write a label, in pairs around every instruction
	r.phase("every way to write a label", n, [&](Worker &w, u64 u) {
		vector<string> ways;
		for (const char *ind : {"", " ", "\t "})
			for (const char *t : {"", ":", ";c", ":;c", " ;c", ": ;c", ":\t", " : ; c", ":\r", " \r", ":;:", ";:", ": \n", "\n;\n", ":\n\n", ": ; = $1234"}) {
				if (string(t) == " : ; c") continue;
				ways.push_back(string(ind) + "@" + t);
			}
		auto put = [&](const string &way, int k, const string &ins, bool low) {
			string nm = "T" + std::to_string(k), s = way;
			s.replace(s.find('@'), 1, low ? lower(nm) : nm);
			return s + "\n" + ins + "\n";
		};
		for (size_t a = 0; a < ways.size(); a++) for (size_t b = 0; b < ways.size(); b += cfg.thorough() ? 1 : 5) {
			size_t b2 = (b + a + u) % ways.size();
			if (!w.verify(pro + ops[u] + "\n" + put(ways[a], 0, ops[u], a & 1) + put(ways[b2], 1, ops[u], b2 & 2) + table2, M, "ways to write a label") || w.stopped()) return;
		}
	});
	// every width of the gap between a label and its instruction, and before the label
	r.phase("every gap around a label", 700, [&](Worker &w, u64 u) {
		size_t g = u < 600 ? u : u < 630 ? 1010 + u - 600 : u < 660 ? 4080 + u - 630 : (u - 659) * 1600;
		string sp(g, u % 3 == 1 ? '\t' : ' ');
		for (size_t i = u % 3; i < n; i += cfg.thorough() ? 1 : 3) {
			const string &in = ops[i];
			if (in[0] != ' ' || g > 5000) { if (i > 8) continue; }
			string c = (u + i) & 1 ? ":" : "";
			if (in[0] == ' ' && (g || c.size()) && !w.verify(pro + "T0" + (c.empty() ? " " : c) + sp + in.substr(1) + "\nT1:" + sp + "NOP\n" + table2, M, "gap after a label")) return;
			if (!w.verify(pro + in + "\n" + sp + "T0" + c + "\n" + sp + "T1" + (in[0] == ' ' ? " " : "\n") + in + sp + ";\n" + table2, M, "gap before a label")) return;
			if (in[0] == ' ' && !w.verify(pro + sp + "T0 " + in.substr(1, 3) + sp + in.substr(4) + "\nT1" + sp + ":\n" + table2, M, "gaps within") ) return;
		}
	});
	Alphabet a;
	a.lines = {"T0 NOP", "T1:", "T2 LDA #1", " STA $1234", " BNE FW", " JMP FW", ".ORG $40", "*=$8", "FW RTS", "K = $99", " ROR A", "T3: JSR T0"};
	a.epilogue = "TE NOP\n.ORG $300\n JMP TE\n";
	explore(r, "moves and labels", a, M, cfg.thorough() ? 6 : 5, cfg.thorough() ? 8 : 6);
	Alphabet b;
	b.lines = {"T0 NOP", "T1:", " LDA #1", " STA $1234", " JMP T0", " BNE T1", ".ORG $40", "*=$C", " JMP T1"};
	b.epilogue = ".ORG $300\n JMP T0\n JMP T1\n";
	b.prologue = ".ORG $10\n";
	explore(r, "labels read at the end", b, M, cfg.thorough() ? 7 : 5, cfg.thorough() ? 9 : 7);
	// every address as a label, reached by an origin and by counting
	r.phase("every address", 65536 / 32, [&](Worker &w, u64 u) {
		for (unsigned v = u * 32; v < u * 32 + 32; v++) {
			if (!w.verify((v & 1 ? ".ORG " : "* = ") + hexs(v) + "\nT0:\n*=0\n JMP T0\n", M, "origin")) return;
			if (!w.verify((v & 1 ? ".ORG " : "* = ") + hexs(v) + "\n\n; c\nK1 = 5\nT0\nT1\n.ORG 0\n JMP T0\n JMP T1\n", M, "origin")) return;
		}
	});
	r.phase("counting far", 400, [&](Worker &w, u64 u) {
		string s; u64 k = u * u;
		if (k > 60000) k = 60000 - u;
		u64 sz = 0;
		for (u64 i = 0; sz < k; i++) { switch ((i + u) % 4) { case 0: s += "NOP\n"; sz++; break; case 1: s += "LDA #1\n"; sz += 2; break; case 2: s += "STA $1234\n"; sz += 3; break; default: s += "JMP TE\n"; sz += 3; } }
		w.verify(s + "TE JMP TE\n JSR TE\n", M, "counting");
	});
	manyStatements(r, C_VERDICT | C_IMAGE);
}
