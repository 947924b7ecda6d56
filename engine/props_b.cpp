// C06..C11
#include "props.h"

// words that other assemblers know, names that programs like to use, and the texts of the program
const vector<string> &knownWords()
{
	static const vector<string> known = [] {
	vector<string> known;
	for (const char *t : {"ADDR", "ALIGN", "ASC", "ASCII", "ASCIIZ", "ASSERT", "AUTOIMPORT", "BANK", "BASE", "BSS", "BYT", "BYTE", "CASE", "CBM", "CHARMAP", "CODE", "COMMENT", "CONST", "CPU", "DATA", "DBYT", "DCB", "DEBUG", "DEFAULT", "DEND", "DEPHASE", "DSEG", "DUMMY", "DWORD", "ECHO", "EJECT", "ELIF", "ELSE", "ELSEIF", "ENDIF", "ENDM", "ENDMAC", "ENDMACRO", "ENDPROC", "ENDR", "ENDREP", "ENDREPEAT", "ENDSCOPE", "ENDSTRUCT", "ENTRY", "ENUM", "EQUATE", "ERR", "ERROR", "EVEN", "EXITM", "EXPORT", "EXTERN", "FARADDR", "FCB", "FCC", "FDB", "FEATURE", "FILE", "FILL", "FORCEIMPORT", "FORMAT", "FUNCTION", "GENERATE", "GLOBAL", "GLOBALZP", "HEX", "IDENT", "IFDEF", "IFNDEF", "IMPORT", "IMPORTZP", "INCBIN", "INCLUDE", "INCSRC", "INES", "INTERRUPTOR", "LIB", "LINECONT", "LIST", "LISTBYTES", "LISTING", "LOCAL", "LOCALCHAR", "LOCATION", "LOHI", "LONG", "LONGA", "LONGI", "MACLIST", "MACPACK", "MACRO", "MESSAGE", "MODULE", "NAME", "NEWPAGE", "NOLIST", "NOOPT", "NOPAGE", "NOTE", "OBJECT", "OFFSET", "OPT", "OPTION", "ORIGIN", "OUT", "OUTFILE", "PAGE", "PAGELENGTH", "PAGESIZE", "PAUSE", "PC", "PHASE", "PLIST", "POPSEG", "PRAGMA", "PRINT", "PRINTX", "PROC", "PROCESSOR", "PSECT", "PUBLIC", "PUSHSEG", "RADIX", "RELOC", "REM", "REMARK", "REP", "REPEAT", "REPT", "RES", "RESERVE", "RODATA", "RORG", "SCOPE", "SECTION", "SEG", "SEGMENT", "SET", "SETCPU", "SKIP", "SMART", "SPACE", "START", "STRING", "STRUCT", "SUBROUTINE", "SUBTTL", "SYM", "SYMBOL", "SYMBOLS", "TAG", "TEXT", "TITLE", "TRUE", "FALSE", "TTL", "TYPE", "UNION", "USING", "VAR", "WARN", "WARNING", "WIDTH", "WORD", "XDEF", "XREF", "XLIST", "ZEROPAGE", "ZPAGE", "EXECUTE", "RUN", "LOAD", "HIGH", "LOW", "HI", "LO", "AND", "OR", "XOR", "NOT", "MOD", "SHL", "SHR", "ACC", "SP", "SR", "PCL", "THEN", "GOTO", "CALL", "RETURN", "BEGIN", "STOP", "HALT", "NULL", "NONE", "LET", "DIM", "INPUT", "RESET", "NMI", "IRQ", "BRKV", "IRQV", "NMIV", "VECTOR", "VECTORS", "MAIN", "INIT", "BOOT", "STACK", "CHROUT", "CHRIN", "GETIN", "COUT", "MONITOR", "EXIT", "DONE", "LOOP", "FOO", "BAR", "ISR", "HANDLER", "TABLE", "BUFFER", "TMP", "PTR", "COUNT", "SCREEN", "BORDER", "PPUCTRL", "OAMDMA", "LOADADDR", "STARTUP", "CHECKSUM", "CRC", "MAGIC", "HEADER", "FILLBYTE", "PADDING", "SIZE", "LENGTH", "VERSION", "HERE", "NOW", "DATE", "TIME", "RANDOM", "LINE", "COLUMN", "STAR", "DOT", "SELF", "THIS", "PROG", "RESETVECTOR", "NMI_VECTOR", "IRQ_HANDLER", "RESET_VECTOR"}) known.push_back(t);
	for (auto &t : libraryTexts()) if (t.find('\n') == string::npos && t.size() < 70) known.push_back(t);
	return known;
	}();
	return known;
}

void prop_c06(Run &r)
{
	r.level = "model_checking";
	r.rule = "All interleavings, up to the stated length, of location moves (forward and backward, by .ORG and *=) with 1-, 2- and 3-byte instructions, forward references and label definitions; breadth-first over distinct model states beyond that; all placements of three blocks around output-buffer and address-space edges. Programs whose code overlaps are outside the property and only executed.";
	const unsigned M = C_IMAGE;
	r.sample(".ORG $20 / JMP F / .ORG $10 / F NOP"); r.sample("*=$FFFD / JMP ($1234)");
	Alphabet a;
	a.lines = {".ORG $10", "*=$0", ".ORG $18", ".ORG $40", " NOP", " LDA #1", " LDA $1234", " JMP F", " BNE F", " JSR F", "F RTS"};
	explore(r, "small origins", a, M, cfg.thorough() ? 7 : 6, cfg.thorough() ? 8 : 6);
	Alphabet b;
	b.lines = {".ORG $FFE", ".ORG $2001", ".ORG $0", ".ORG $FFF0", " ROL", " STA $12", " JMP (F)", " BCC F", "F", "G = $1FF0", " JMP G", ".END"};
	explore(r, "large origins", b, M, cfg.thorough() ? 6 : 5, cfg.thorough() ? 8 : 6);
	Alphabet c;
	c.lines = {".ORG $10", ".ORG $8", ".ORG $0", " JMP F", " JMP G", "F NOP", "G NOP", " BEQ G", " LDX $10"};
	explore(r, "two labels", c, M, cfg.thorough() ? 7 : 6, cfg.thorough() ? 8 : 6);
	// three blocks in every order around buffer-size and address-space edges
	vector<unsigned> at = {0, 1, 0x80, 0xFE, 0x100, 0x1FF, 0x3FE, 0x400, 0xFFD, 0xFFF, 0x1000, 0x1FFE, 0x2000, 0x3FFF, 0x7FFE, 0x8000, 0xC000, 0xFFF0, 0xFFF8, 0xFFFC};
	vector<string> blk = {" NOP\n", " LDA #$11\n", " JMP F\n", " BNE F\n", " JMP $ABCD\n NOP\n", "F NOP\n"};
	u64 n = at.size(), m = blk.size();
	r.phase("three blocks, every place, order and kind", n * n * n, [&](Worker &w, u64 u) {
		unsigned x = at[u % n], y = at[u / n % n], z = at[u / n / n];
		for (u64 i = 0; i < m; i++) for (u64 j = 0; j < m; j++) for (u64 k = 0; k < m; k++) {
			if (!cfg.thorough() && (i * 7 + j * 3 + k + u) % 4) continue;
			string s = ".ORG " + hexs(x) + "\n" + blk[i] + "*= " + hexs(y) + "\n" + blk[j] + ".ORG " + hexs(z) + "\n" + blk[k];
			if (i != 5 && j != 5 && k != 5) s += "F = " + hexs(x) + "\n";
			if (!w.verify(s, M, "three blocks")) return;
		}
	});
	// every gap size, and every end of the space
	r.phase("every gap", 65536 / 16, [&](Worker &w, u64 u) {
		for (unsigned v = u * 16; v < u * 16 + 16; v++) {
			if (!cfg.thorough() && v > 0x600 && v % 16 > 1 && (v & 0xFFF) < 0xFF0) continue;
			string V = hexs(v);
			if (!w.verify(" NOP\n.ORG " + V + "\n LDA #1\n", M, "gap")) return;
			if (!w.verify(".ORG " + V + "\n JMP L\n.ORG $0\nL NOP\n NOP\n", M, "backward")) return;
			if (!w.verify(" JMP L\n.ORG " + V + "\n JMP L\n.ORG $80\nL NOP\n", M, "two")) return;
			if (!w.verify(".ORG " + V + "\n", M, "no code")) return;
		}
	});
	// long programs: sequential code of every length crosses every buffer size
	r.phase("programs of every size", cfg.thorough() ? 3000 : 1200, [&](Worker &w, u64 u) {
		u64 n2 = u < 200 ? u : u * 7;
		string s, t;
		for (u64 i = 0; i < n2; i++) { s += i % 3 == 0 ? " LDA #1\n" : i % 3 == 1 ? " NOP\n" : " STA $1234\n"; t += i % 2 ? " JMP F\n" : " NOP\n"; }
		if (!w.verify(s, M, "sequential")) return;
		w.verify(t + "F RTS\n", M, "with references");
	});
	manyStatements(r, C_VERDICT | C_IMAGE);
}

static const char *defForms[] = {"@", "@:", "@ NOP", "@: LDA #1", "@ = %", "@ .EQU %", ".DEFINE @ %"};
static string defLine(int form, const string &name, unsigned v)
{
	string s = defForms[form];
	size_t p = s.find('@'); s.replace(p, 1, name);
	p = s.find('%'); if (p != string::npos) s.replace(p, 1, hexs(v));
	return s;
}

void prop_c07(Run &r)
{
	r.level = "model_checking";
	r.rule = "All sequences of definitions (all seven forms, two names, several letter cases, equal and different values) and uses up to the stated length, then breadth-first over distinct model states; all pairs of names up to 63 characters that differ in one position or in length; every name of up to three characters; registers and mnemonics in every definition form.";
	const unsigned M = C_VERDICT | C_IMAGE;
	r.sample("ab = $1 / AB: NOP  (rejected)"); r.sample(".DEFINE LDA $12  (rejected)");
	Alphabet a;
	for (int f = 0; f < 7; f++) a.lines.push_back(defLine(f, f & 1 ? "aB" : "AB", 0x1234));
	for (int f : {0, 4, 6}) a.lines.push_back(defLine(f, "ABC", 0x56));
	for (const char *s : {" JMP AB", " JSR aBc", ".ORG $20", " LDA Ab", "ab=5"}) a.lines.push_back(s);
	explore(r, "definitions and uses", a, M, cfg.thorough() ? 5 : 4, cfg.thorough() ? 7 : 6);
	// every pair and triple of definitions of one name
	static const char *cases[] = {"Name_1", "NAME_1", "name_1", "nAmE_1"};
	r.phase("redefinition: every pair of forms, cases, values, distance", 49 * 16, [&](Worker &w, u64 u) {
		int f1 = u % 7, f2 = u / 7 % 7; const char *c1 = cases[u / 49 % 4], *c2 = cases[u / 49 / 4];
		for (unsigned v1 : {0u, 1u, 0xFFu, 0x100u, 0xFFFFu}) for (unsigned v2 : {0u, 1u, 0xFFu, 0xFFFFu})
			for (const char *mid : {"", "\n", " JMP name_1\n", ".ORG 0\n", "OTHER = 5\n", ".ORG $1\n NOP\n", "NAME_ = 1\nNAME_12 = 2\n"}) {
				string pre = ".ORG " + hexs(v1) + "\n";
				if (v1 > 0xFF00) pre = "";
				string s = pre + defLine(f1, c1, v1) + "\n" + mid;
				if (!w.verify(s + defLine(f2, c2, v2) + "\n", M, "redefinition")) return;
				if (!w.verify(s + defLine(f2, string(c2) + "x", v2) + "\n JMP " + c2 + "\n JMP " + c2 + "X\n", M, "two names")) return;
			}
	});
	r.phase("redefinition far away", 260, [&](Worker &w, u64 u) {
		for (int f1 = 0; f1 < 7; f1++) for (int f2 = 0; f2 < 7; f2++) {
			if (u > 60 && (f1 + f2 + u) % 5) continue;
			string s = defLine(f1, "again", 7) + "\n";
			for (u64 i = 0; i < u; i++) s += (i & 1 ? "S" : "again") + std::to_string(i) + " = " + std::to_string(i) + "\n";
			if (!w.verify(s + " JMP again\n" + defLine(f2, "Again", 7) + "\n", M, "redefinition")) return;
			if (!w.verify(s + " JMP again\n", M, "kept")) return;
		}
	});
	// under a name that means something elsewhere, or begins or ends like one
	r.phase("redefinition of every known name", knownWords().size() + alikeNames().size(), [&](Worker &w, u64 u) {
		string k = u < knownWords().size() ? knownWords()[u] : alikeNames()[u - knownWords().size()];
		for (char &c : k) if (!isalnum((unsigned char)c)) c = '_';
		if (k.empty() || k.size() > 55) return;
		for (string x : {k, k + "_1", k + "1", k + "X", "L" + k, "L_" + k, "LL_" + k + "_2", k + k}) {
			if (x.size() > 63 || !isalpha((unsigned char)x[0])) continue;
			for (int f = 0; f < 7; f++) {
				string d = defLine(f, f & 1 ? lower(x) : x, 5);
				if (!w.verify(d + "\n" + defLine((f + u) % 7, x, 5) + "\n", M, "redefinition")) return;
				if (!w.verify(" JMP " + x + "\n" + d + "\n" + defLine((f * 3 + u + 1) % 7, lower(x), 5), M, "redefinition")) return;
				if (!w.verify(d + "\n" + defLine(f, x + "Q", 7) + "\n JMP " + x + "\n JSR " + x + "q\n", M, "two names")) return;
			}
		}
	});
	// names of every length, differing at one position
	r.phase("names differing in one position", 63, [&](Worker &w, u64 u) {
		int n = u + 1;
		for (int p = 0; p < n; p++)
			for (int style = 0; style < 4; style++) {
				string x(n, style == 1 ? 'Q' : 'N'), y;
				if (style == 2) for (int i = 0; i < n; i++) x[i] = 'A' + (i * 7) % 26;
				if (style == 3) for (int i = 1; i < n; i++) x[i] = "_09z"[i % 4];
				y = x;
				y[p] = x[p] == 'Z' ? 'V' : 'Z';
				if (p && style == 3) y[p] = x[p] == '_' ? '0' : '_';
				if (n == 1 && (strchr("AXYaxy", x[0]) || strchr("AXYaxy", y[0]))) continue;
				string use = " JMP " + lower(x) + "\n JMP " + y + "\n";
				if (!w.verify(x + " = $1111\n" + y + " = $2222\n" + use, M, "two names")) return;
				if (!w.verify(use + ".DEFINE " + y + " $2222\n" + x + "\n", M, "two names, later")) return;
				if (!w.verify(x + ":\n" + " JMP " + y + "\n", M, "one name only")) return;
				if (!w.verify(x + " NOP\n" + lower(x) + " NOP\n", M, "same name")) return;
			}
		// prefixes
		for (int m = 1; m < 63; m++) {
			string x(n, 'N'), y(m, 'N');
			if (!w.verify(x + " = $1111\n JMP " + y + "\n", M, "prefix")) return;
			if (m != n && !w.verify(x + " = $1111\n" + y + " .EQU $2222\n JMP " + x + "\n JSR " + y + "\n", M, "prefix")) return;
		}
	});
	r.phase("name lengths around the limit", 400, [&](Worker &w, u64 u) {
		for (int f = 0; f < 7; f++)
			for (char c : {'N', 'q', '_', '7'}) {
				string x = "L" + string(u, c);
				if (!w.verify(defLine(f, x, 0x1234) + "\n", M, "length")) return;
				if (!w.verify(defLine(f, x, 0x1234) + "\n JMP " + x + "\n", M, "length")) return;
				if (!w.verify(" JMP " + x + "\n" + defLine(f, x, 0x1234), M, "length")) return;
			}
	});
	// what may be a name: every word of up to three characters
	static const char wc[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZ0_";
	r.phase("every name of up to three characters", 26 * 28, [&](Worker &w, u64 u) {
		string p = {wc[u / 28], wc[u % 28]};
		vector<string> ws;
		if (u % 28 == 0) ws.push_back(p.substr(0, 1));
		ws.push_back(p);
		for (int i = 0; i < 28; i++) ws.push_back(p + wc[i]);
		for (auto &x : ws)
			for (int f = 0; f < 7; f++) {
				string nm = f & 1 ? lower(x) : x;
				if (!w.verify(defLine(f, nm, 0x1234) + "\n", M, "short name")) return;
				if (!w.verify(defLine(f, nm, 0x1234) + "\n JMP " + x + "\n", M, "short name")) return;
			}
	});
	r.phase("mnemonics and registers extended by one character", 59 * 28, [&](Worker &w, u64 u) {
		int k = u / 28;
		string base = k < 56 ? model::mnemonics[k] : k == 56 ? "A" : k == 57 ? "X" : "Y";
		for (const string &x : {base + wc[u % 28], base + wc[u % 28] + "9", string(1, wc[u % 28]) + base, base})
			for (int f = 0; f < 7; f++) {
				if (!w.verify(defLine(f, x, 0x34) + "\n JMP " + x + "\n", M, "near mnemonic")) return;
				if (!w.verify(defLine(f, lower(x), 0x34) + "\n LDA " + x + "\n", M, "near mnemonic")) return;
				if (!w.verify("Q NOP\n" + defLine(f, x, 0x34) + "\n", M, "near mnemonic")) return;
			}
	});
	if (cfg.thorough())
		r.phase("every name of four letters", 26 * 26 * 26, [&](Worker &w, u64 u) {
			for (int i = 0; i < 26; i++) {
				string x = {wc[u / 676], wc[u / 26 % 26], wc[u % 26], wc[i]};
				if (!w.verify(x + " = $1234\n JMP " + x + "\n", M, "four letters")) return;
			}
		});
}

// names whose djb2 hashes (any multiplier-33 polynomial) agree modulo p
static u64 djb2(const string &s) { u64 h = 5381; for (char c : s) h = h * 33 + c; return h; }
static vector<string> colliding(u64 mod, u64 res, size_t n)
{
	vector<string> v;
	static const char c[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZ";
	for (u64 i = 0; v.size() < n; i++) {
		string s = "L";
		for (u64 x = i; x; x /= 26) s += c[x % 26];
		if (djb2(s) % mod == res && model::findMnemonic(s) < 0 && s.size() > 1) v.push_back(s);
	}
	return v;
}

void prop_c08(Run &r)
{
	r.rule = "Every number of symbols from 0 to a limit, for several naming schemes, each symbol looked up before and after every growth; all insertion orders of seven names chosen to collide in the table's hash at each of its sizes; absent names probing the same slots; full hash collisions.";
	const unsigned M = C_VERDICT | C_IMAGE | C_SYMS;
	r.sample("S0 = 0 .. S8 = 8 / JMP S3 / JMP S9 (undefined)"); 
	// table sizes the growth rule goes through; used only to choose nasty names
	vector<int> sizes = {17, 37, 79, 163, 331, 673, 1361, 2729};
	// full collisions: each "BA"/"Aa"-like pair changes two letters and keeps the hash:
	// 33*x+y == 33*(x+1)+(y-33) needs mixed character classes, e.g. "AR" / "B1"
	vector<string> fullc = {"L"};
	for (int k = 0; k < 4; k++) {
		vector<string> n;
		for (auto &s : fullc) { n.push_back(s + "AR"); n.push_back(s + "B1"); }
		fullc = n;
	}
	auto nameOf = [&](int scheme, u64 i) -> string {
		switch (scheme) {
		case 0: return "S" + std::to_string(i);
		case 1: { string s = "Q"; u64 x = i; do { s += 'A' + x % 26; x /= 26; } while (x); return s; }
		case 2: return "LONG_NAME_WITH_A_COMMON_PREFIX_OF_MANY_CHARS_" + std::to_string(i * 7919 % 100003);
		case 3: { string s = "P"; for (int b = 0; b < 14; b++) s += i >> b & 1 ? "AR" : "B1"; return s; }   // all hashes equal
		default: return "Z" + string(i % 60, 'Z') + std::to_string(i);
		}
	};
	u64 N = cfg.thorough() ? 3000 : 700;
	r.phase("every number of symbols", N * 4, [&](Worker &w, u64 u) {
		int scheme = u % 4;
		u64 n = u / 4;
		if (scheme == 3 && n > 400) return;
		if (!cfg.thorough() && n > 180 && (n + scheme) % 5) return;
		string s, use;
		for (u64 i = 0; i < n; i++) {
			string nm = nameOf(scheme, i), v = std::to_string(i * 257 % 65521);
			switch ((i + scheme) % 4) {
			case 0: s += nm + " = " + v + "\n"; break;
			case 1: s += ".DEFINE " + nm + " " + v + "\n"; break;
			case 2: s += nm + ":\n"; break;
			default: s += nm + " NOP\n"; break;
			}
			if (i % 9 == 0) s += " JMP " + nameOf(scheme, i / 2) + "\n";
			use += " JMP " + nm + "\n";
		}
		if (!w.verify(s + use, M, "all found")) return;
		if (n && !w.verify(use + s, M, "all found later")) return;
		if (!w.verify(s + " JMP " + nameOf(scheme, n + 1) + "\n", M, "one absent")) return;
		if (!w.verify(s + nameOf(scheme, n) + " = 5\n", M, "one more")) return;
		for (u64 i = 0; i < n; i += n < 60 ? 1 : n / 20)
			if (!w.verify(s + nameOf(scheme, i) + " = 5\n", M, "redefined")) return;
	});
	r.phase("colliding names, all insertion orders of 7", sizes.size() * 5, [&](Worker &w, u64 u) {
		u64 mod = sizes[u / 5];
		if (u / 5 >= 4 && !cfg.thorough()) { if (u % 5 > 1) return; }
		u64 res = vector<u64>{0, 1, mod / 2, mod - 2, mod - 1}[u % 5];
		auto a = colliding(mod, res, 5), b = colliding(mod, (res + 1) % mod, 4);
		vector<string> names = {a[0], a[1], a[2], b[0], b[1], a[3], b[2]};
		// absent: another name for each probe chain, and one starting right after it
		vector<string> absent = {a[4], b[3], colliding(mod, (res + 2) % mod, 1)[0], colliding(mod, (res + mod - 1) % mod, 1)[0]};
		// prefill so that the table has just this size
		string pre;
		u64 fill = mod == 17 ? 0 : mod / 4 + 3;
		for (u64 i = 0; i < fill; i++) pre += "FILL" + std::to_string(i) + " = 1\n";
		vector<int> p = {0, 1, 2, 3, 4, 5, 6};
		int cnt = 0;
		do {
			if (fill > 30 && ++cnt % (int)(fill / 10)) continue;
			string s = pre, use;
			for (int i : p) s += names[i] + " = " + std::to_string(1000 + i * 300) + "\n";
			for (auto &x : names) use += " JMP " + x + "\n";
			if (!w.verify(s + use, M, "order")) return;
			for (auto &x : absent) if (!w.verify(s + " JMP " + x + "\n", M, "absent")) return;
		} while (std::next_permutation(p.begin(), p.end()) && !w.stopped());
	});
	r.phase("colliding families of every size across growth", sizes.size() * 4, [&](Worker &w, u64 u) {
		u64 mod = sizes[u / 4];
		u64 res = vector<u64>{0, mod - 1, mod / 3, mod - 3}[u % 4];
		auto a = colliding(mod, res, 64);
		for (size_t n = 1; n < 60; n++) {
			string s, use;
			for (size_t i = 0; i < n; i++) { s += a[i] + (i & 1 ? " = " : " .EQU ") + std::to_string(i + 7) + "\n"; use += " JMP " + a[i] + "\n JSR " + a[n - 1 - i] + "\n"; }
			if (!w.verify(s + use, M, "family") || !w.verify(use + s, M, "family later")) return;
			for (size_t k = n; k < n + 4; k++) if (!w.verify(s + " JMP " + a[k] + "\n", M, "absent")) return;
			for (size_t k = 0; k < n; k++) if (!w.verify(s + lower(a[k]) + ":\n", M, "redefinition")) return;
		}
	});
	r.phase("equal hashes", fullc.size(), [&](Worker &w, u64 u) {
		for (u64 m = 1; m < (1u << fullc.size()); m += cfg.thorough() ? 1 : 5) {
			if (!(m >> u & 1)) continue;
			string s;
			for (size_t i = 0; i < fullc.size(); i++) if (m >> i & 1) s += fullc[i] + " = " + std::to_string(i + 300) + "\n";
			string use;
			for (size_t i = 0; i < fullc.size(); i++) if (m >> i & 1) use += " JMP " + fullc[i] + "\n";
			if (!w.verify(s + use, M, "equal hashes")) return;
			size_t k = 0;
			while (k < fullc.size() && (m >> k & 1)) k++;
			if (k < fullc.size() && !w.verify(s + " JMP " + fullc[k] + "\n", M, "absent")) return;
			if (w.stopped()) return;
		}
	});
	// all names of one or two characters after a common start, defined at once
	r.phase("dense name sets", 26, [&](Worker &w, u64 u) {
		static const char wc[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_";
		string s, use; int k = 0;
		for (const char *p = wc; *p; p++) for (const char *q = wc; *q; q++) {
			string nm = string(1, 'A' + (char)u) + *p + *q;
			if (model::findMnemonic(nm) >= 0) continue;
			s += nm + " = " + std::to_string(k++ * 13) + "\n"; use += " JMP " + nm + "\n";
		}
		w.verify(s + use, M, "dense");
		w.c->items.fetch_add(k);
	});
	// every short name is absent from tables of every size class
	static const int have[] = {0, 8, 9, 18, 40, 81, 165, 200, 336, 500, 700};
	r.phase("every absent name of up to three characters", 11 * 26 * 37, [&](Worker &w, u64 u) {
		static const char wc[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_";
		int n = have[u % 11], scheme = u / 11 % 3;
		string s, nm = {(char)('A' + u / 11 % 26), wc[u / 11 / 26]};
		for (int i = 0; i < n; i++) s += nameOf(scheme, i) + (i & 1 ? " = 5\n" : " .EQU $99\n");
		if (!cfg.thorough() && n > 200 && u % 3 && nm[0] != nm[1]) return;
		if (!w.verify(s + " JMP " + nm + "\n", M, "absent") || !w.verify(s + " LDA #" + nm + "\n", M, "absent") || !w.verify(s + nm + " = 7\n LDA #" + nm + "\n", M, "now present")) return;
		if (u / 11 % 26 == u / 11 / 26 && !w.verify(s + " BNE " + nm[0] + "7\n", M, "absent")) return;
		for (const char *q = wc; *q && (n < 100 || (cfg.thorough() && n < 400)); q += cfg.thorough() ? 1 : 5) if (!w.verify(s + " JMP " + nm + *q + "\n", M, "absent")) return;
	});
	vector<u64> big = {2000, 4000, 6000, 32768, 65536, 70000};
	if (cfg.thorough()) for (u64 n : {5000, 8000, 11000, 15000, 20000, 32767, 32769, 65535, 65537, 131071, 131072, 131073, 262145}) big.push_back(n);
	r.phase("large tables", big.size() * 3, [&](Worker &w, u64 u) {
		string s;
		u64 n = big[u / 3];
		for (u64 i = 0; i < n; i++) s += nameOf(u % 3, i) + " = " + std::to_string(i * 40503 % 65536) + "\n";
		for (u64 i = 0; i < n && i < 21000; i++) s += " JMP " + nameOf(u % 3, i * 7919 % n) + "\n";
		w.verify(s, M, "large");
		w.verify(s + nameOf(u % 3, n / 2) + " = 1\n", M, "large, redefinition");
		w.verify(s + " JMP " + nameOf(u % 3, n + 5) + "\n", M, "large, absent");
	});
	cli_many(r);
}

void prop_c09(Run &r)
{
	r.level = "model_checking";
	r.rule = "All programs up to the stated length over references of every kind to three labels and their definitions, then breadth-first over distinct model states; every number of pending references from 1 to a limit for several mixes of kinds and label counts, with each position in turn left undefined or out of range.";
	const unsigned M = C_VERDICT | C_IMAGE;
	r.sample("JMP A1 / BNE B1 / JSR A1 / B1 NOP / A1 = $1234"); r.sample("300 pending references, number 17 undefined (rejected)");
	Alphabet a;
	a.lines = {" JMP A1", " BNE A1", " JSR B1", " JMP (B1)", " BEQ B1", "A1 NOP", "B1 NOP", "B1 = $12", " JMP C1", "C1 .EQU $FEDC"};
	explore(r, "reference patterns", a, M, cfg.thorough() ? 7 : 6, cfg.thorough() ? 9 : 7);
	Alphabet b;
	b.lines = {" JMP A1", " BCC B1", " JSR C1", "A1", "B1", "C1", " BCS A1", " JMP (C1)", ".ORG $40", ".ORG $90"};
	b.prologue = " NOP\n JMP D1\n BNE D1\n";
	b.epilogue = "D1 RTS\n";
	explore(r, "with outer references", b, M, cfg.thorough() ? 7 : 6, cfg.thorough() ? 9 : 7);
	u64 N = cfg.thorough() ? 1500 : 400;
	r.phase("every number of pending references", N, [&](Worker &w, u64 u) {
		u64 n = u + 1;
		if (!cfg.thorough() && n > 140 && n % 4 > 1) return;
		for (int mix = 0; mix < 6; mix++)
			for (u64 labels : {1ul, 2ul, 7ul, n}) {
				if (labels > n) continue;
				if (mix >= 2 && labels == 7 && n > 80) continue;
				auto ref = [&](u64 i) -> string {
					string l = "L" + std::to_string(i * 5 % labels);
					switch (mix) {
					case 0: return " JMP " + l + "\n";
					case 1: return i % 3 == 0 ? " JMP " + l + "\n" : i % 3 == 1 ? " JSR " + l + "\n" : " JMP (" + l + ")\n";
					case 2: return i % 2 ? " JMP " + l + "\n" : " BNE N" + std::to_string(i) + "\n";
					case 3: return " BEQ " + l + "\n";
					case 4: return (i % 5 == 4 ? " NOP\n" : "") + string(" JSR ") + l + "\n";
					default: return "Q" + std::to_string(i) + ": JMP " + l + "\n";
					}
				};
				string s, defs, near;
				for (u64 i = 0; i < n; i++) {
					s += ref(i);
					if (mix == 2 && i % 2 == 0) near += "N" + std::to_string(i) + "\n";
					if (mix == 2 && i % 20 == 19) { s += near; near.clear(); }
				}
				s += near;
				auto def = [&](u64 i) { string l = "L" + std::to_string(i); return i % 3 == 0 ? l + " NOP\n" : i % 3 == 1 ? l + " = " + std::to_string((i * 12345 + 54321) & 0xFFFF) + "\n" : l + "\n"; };
				for (u64 i = 0; i < labels; i++) defs += def(mix & 1 ? labels - 1 - i : i);
				if (!w.verify(s + defs, M, "all defined")) return;
				// leave each label out in turn (all for small n)
				u64 stepk = labels > 40 ? labels / 13 : 1;
				for (u64 k = 0; k < labels; k += stepk) {
					string d2;
					for (u64 i = 0; i < labels; i++) if (i != k) d2 += def(i);
					if (!w.verify(s + d2, M, "one undefined")) return;
				}
			}
	});
	r.phase("each position out of range or undefined", 130, [&](Worker &w, u64 u) {
		u64 n = u + 1;
		for (u64 k = 0; k < n; k += n > 48 ? 1 + n / 24 : 1)
			for (int how = 0; how < 3; how++) {
				string s, defs;
				for (u64 i = 0; i < n; i++) {
					string l = "L" + std::to_string(i);
					if (i == k && how == 0) s += " JMP NOWHERE\n";
					else if (i == k) s += " BNE FAR\n";
					else s += (i + how) % 2 ? " JMP " + l + "\n" : " BEQ " + l + "\n";
					if (i % 16 == 15 || i == n - 1) { for (u64 j = i - i % 16; j <= i; j++) defs += "L" + std::to_string(j) + "\n"; s += defs; defs.clear(); }
				}
				s += how == 1 ? ".ORG $4000\nFAR\n" : how == 2 ? "FAR = $9000\n" : "";
				if (!w.verify(s, M, "one bad reference")) return;
			}
	});
	vector<u64> big = cfg.thorough() ? vector<u64>{3000, 5000, 9000, 14000, 21000} : vector<u64>{1023, 1024, 1025, 2047, 2048, 3000, 6000};
	r.phase("many pending references", big.size() * 2, [&](Worker &w, u64 u) {
		string s, d; u64 n = big[u / 2];
		for (u64 i = 0; i < n; i++) { s += (i & 1 ? " JMP L" : " JSR L") + std::to_string(u & 1 ? i : 0) + "\n"; if ((u & 1) || !i) d += "L" + std::to_string(i) + " = " + std::to_string(i) + "\n"; }
		w.verify(s + d, M, "many");
		w.verify(s + " BNE Z\n" + d, M, "many, last undefined");
	});
	manyStatements(r, C_VERDICT | C_IMAGE);
}

void prop_c10(Run &r)
{
	r.rule = "All token sequences up to the stated length over 22 lexemes (instructions of five kinds, a defined and an undefined label, a byte and a word number, punctuation, registers, directives); every documented statement with every one- and two-token insertion, deletion and replacement; every statement with extra tokens up to 20; every word of up to three letters (thorough: four), and those that are directives elsewhere, in every place of a directive, with and without period.";
	const unsigned M = C_VERDICT;
	vector<string> lex = {"LDA", "JMP", "NOP", "ASL", "BNE", "D", "U", "$12", "$1234", "#", "(", ")", ",", "=", "*", "X", "Y", "A", ".EQU", ".DEFINE", ".ORG", ".END"};
	u64 n = lex.size();
	string pro = "D = $10\n";
	r.sample("D LDA ( $12 , X )"); r.sample("LDA $12 , X X  (rejected)"); r.sample("U .EQU $12 , (rejected)");
	int deep = cfg.thorough() ? 6 : 5;
	r.phase("all token sequences up to " + std::to_string(deep), n * n * n, [&](Worker &w, u64 u) {
		string s = pro;
		u64 i0 = u / n / n, i1 = u / n % n, i2 = u % n;
		// shorter sequences once each
		if (i1 == 0 && i2 == 0 && !w.verify(pro + " " + lex[i0] + "\n", M, "tokens")) return;
		if (i2 == 0 && !w.verify(pro + " " + lex[i0] + " " + lex[i1] + "\n", M, "tokens")) return;
		s += " " + lex[i0] + " " + lex[i1] + " " + lex[i2];
		std::function<void(int)> rec = [&](int d) {
			if (w.stopped()) return;
			s += '\n';
			w.verify(s, M, "tokens");
			s.pop_back();
			if (d == deep) return;
			size_t keep = s.size();
			for (auto &x : lex) { s += ' '; s += x; rec(d + 1); s.resize(keep); }
		};
		rec(3);
	});
	// documented statements, mutated
	vector<vector<string>> st;
	vector<string> operands = {"", "A", "@", "@ , X", "@ , Y", "# @", "( @ )", "( @ , X )", "( @ ) , Y"};
	auto split = [](const string &t) { vector<string> v; size_t p = 0; while (p < t.size()) { size_t e = t.find(' ', p); if (e == string::npos) e = t.size(); if (e > p) v.push_back(t.substr(p, e - p)); p = e + 1; } return v; };
	for (const char *mn : {"LDA", "JMP", "NOP", "ASL", "BNE", "STX", "JSR"})
		for (auto &o : operands)
			for (const char *op : {"$12", "D", "$1234", "U"})
				for (const char *lb : {"", "L "}) {
					if (o.find('@') == string::npos && op[1] != '1') continue;
					string t = o; size_t p = t.find('@');
					if (p != string::npos) t.replace(p, 1, op);
					else if (strcmp(op, "$12")) continue;
					st.push_back(split(string(lb) + mn + " " + t));
				}
	for (const char *t : {"L", "L = $12", "L .EQU $1234", ".DEFINE L $12", ".ORG $1234", "* = $12", ".END", ""}) st.push_back(split(t));
	auto join = [](const vector<string> &v) { string s; for (auto &x : v) s += " " + x; return s + "\n"; };
	r.phase("statements with one mutation, and extra tokens", st.size(), [&](Worker &w, u64 u) {
		auto &v = st[u];
		if (!w.verify(pro + join(v), M, "statement")) return;
		for (size_t p = 0; p <= v.size(); p++) {
			for (auto &x : lex) {
				auto t = v; t.insert(t.begin() + p, x);
				if (!w.verify(pro + join(t), M, "insertion")) return;
				if (p < v.size()) { t = v; t[p] = x; if (!w.verify(pro + join(t), M, "replacement")) return; }
			}
			if (p < v.size()) { auto t = v; t.erase(t.begin() + p); if (!w.verify(pro + join(t), M, "deletion")) return; }
			for (size_t q = p + 1; q < v.size(); q++) { auto t = v; std::swap(t[p], t[q]); if (!w.verify(pro + join(t), M, "swap")) return; }
		}
		for (auto &x : lex)
			for (int k = 1; k <= 20; k++) {
				auto t = v;
				for (int i = 0; i < k; i++) t.push_back(x);
				if (!w.verify(pro + join(t), M, "extra tokens")) return;
				// the same with a legal line after it
				if (!w.verify(pro + join(t) + " NOP\n", M, "extra tokens")) return;
			}
		// a whole second statement on the line
		for (auto &b : st) { auto t = v; t.insert(t.end(), b.begin(), b.end()); if (!w.verify(pro + join(t), M, "two statements on a line")) return; }
	});
	// every mnemonic, and numbers and symbols of many values, in every place
	vector<string> big = lex;
	for (int m = 0; m < 56; m++) big.push_back(model::mnemonics[m]);
	for (const char *x : {"0", "$0", "%0", "1", "$7F", "128", "255", "$FF", "256", "$100", "$1FF", "$7FFF", "32768", "$8000", "$C000", "49152", "$FFF0", "$FFFC", "65535", "$FFFF", "%1111111111111111", "00012", "$0012", "x", "y", "a", "Z0", "Z1", "ZP", "ZQ", "Z8", "ZC", "ZF", "ZL", "zl", ".org", ".end", ".define", ".equ", "-", "+", "<", ">"}) big.push_back(x);
	string pro2 = pro + "Z0 = 0\nZ1 = 1\nZP = $FF\nZQ = $100\nZ8 = $8000\nZC .EQU $C000\n.DEFINE ZF $FFFF\n.ORG $C000\nZL:\n.ORG $200\n";
	u64 nb = big.size();
	r.phase("all sequences of 3 over many words", nb * nb, [&](Worker &w, u64 u) {
		string s = pro2 + " " + big[u % nb] + " " + big[u / nb] + " ";
		for (auto &x : big) if (!w.verify(s + x + "\n", M, "many words")) return;
	});
	r.phase("statements with one of many words", st.size(), [&](Worker &w, u64 u) {
		auto &v = st[u];
		for (size_t p = 0; p <= v.size(); p++) for (auto &x : big) {
			auto t = v; t.insert(t.begin() + p, x);
			if (!w.verify(pro2 + join(t), M, "insertion")) return;
			if (p < v.size()) { t = v; t[p] = x; if (!w.verify(pro2 + join(t), M, "replacement")) return; }
		}
	});
	r.phase("statements with two mutations", st.size(), [&](Worker &w, u64 u) {
		auto &v = st[u];
		for (size_t p = 0; p <= v.size(); p++)
			for (auto &x : lex)
				for (size_t q = p; q <= v.size() + 1; q++) {
					if (!cfg.thorough() && q + 1 < v.size() && (p + q + u) % 3) continue;
					for (auto &y : lex) {
						auto t = v; t.insert(t.begin() + p, x); t.insert(t.begin() + q, y);
						if (!w.verify(pro + join(t), M, "two insertions")) return;
						if (p < v.size() && q > p && q < v.size()) { t = v; t[p] = x; t[q] = y; if (!w.verify(pro + join(t), M, "two replacements")) return; }
						if (p < v.size() && q <= v.size()) { t = v; t[p] = x; t.insert(t.begin() + q, y); if (!w.verify(pro + join(t), M, "replacement and insertion")) return; }
					}
					if (w.stopped()) return;
				}
	});
	// every mnemonic with every operand sequence of up to 4 punctuation/operand tokens
	vector<string> ot = {"D", "$12", "$1234", "#", "(", ")", ",", "X", "Y", "A"};
	// words that are directives in other assemblers, and every short one
	vector<string> words = {"DEFINE", "DEFINES", "DEFIN", "DEFI", "EQUA", "EQUATE", "EQUS", "ORGS", "ORIGIN", "ENDS", "ENDIF", "ENDX", "BYTE", "WORD", "TEXT", "ASCII", "ASCIIZ", "ALIGN", "INCLUDE", "INCBIN", "MACRO", "DEFB", "DEFW", "DEFL", "SET", "RESB", "SPACE", "START", "EXPORT", "SEGMENT", "DEFINED", "EEND", "OORG", "EEQU", "QUE"};
	for (const char *x : {"ORGANIZE", "ORGANIZATION", "ORGANISATION", "ENDING", "ENDORSE", "ENDSEGMENT", "ENDOFFILE", "EQUAL", "EQUALS", "EQUALITY", "EQUIVALENT", "DEFINITION", "DEFINEBYTE", "DEFINITE"}) words.push_back(x);
	size_t NW = words.size();
	// the directives and some prefixes with endings of every length
	for (const char *d : {"ORG", "END", "EQU", "DEFINE", "DEF", "OR", "EN", "EQ"})
		for (int n = 1; n <= 64; n++) for (const char *c : {"X", "S", "A", "W"}) { words.push_back(d + string(n, *c)); if (n < 64) words.push_back(d + string(n, *c) + d); }
	for (int n = 1; n <= (cfg.thorough() ? 4 : 3); n++) {
		string x(n, 'A');
		for (;;) {
			words.push_back(x);
			int i = n - 1;
			while (i >= 0 && ++x[i] > 'Z') x[i--] = 'A';
			if (i < 0) break;
		}
	}
	r.phase("every word as a directive", words.size(), [&](Worker &w, u64 u) {
		const string &x = words[u];
		for (const char *dot : {".", ""})
			for (const char *f : {"@", "@ 5", "@ KK 5", "KK @ 5", "@ = 5", "KK @", "L: @ 5", "@ KK = 5", "KK = @", "@,5", "*@ 5", "KK: @ $12"}) {
				string t = "QQ = 7\n";
				for (const char *q = f; *q; q++) if (*q == '@') t += dot + x; else t += *q;
				if (!w.verify(t + "\nM NOP\n JMP M\n", M, "word")) return;
				if (u < NW + 4096 && !w.verify(lower(t) + "\n", M, "word")) return;
			}
	});
	// every word of four letters, every word that other assemblers know and every text of the program
	r.phase("every word of four letters", 26 * 26 * 26, [&](Worker &w, u64 u) {
		string x = {(char)('A' + u / 676), (char)('A' + u / 26 % 26), (char)('A' + u % 26), 'A'};
		for (; x[3] <= 'Z'; x[3]++)
			for (const char *f : {".@ KK", ".@ 5", "@ KK 5", "KK .@ 5"}) {
				if (!cfg.thorough() && f[0] == 'K' && u % 4) continue;
				string t;
				for (const char *q = f; *q; q++) if (*q == '@') t += x; else t += *q;
				if (!w.verify(t + "\n NOP\n", M, "word")) return;
			}
	});
	const vector<string> &known = knownWords();
	r.phase("every known word in every place", known.size(), [&](Worker &w, u64 u) {
		const string &x = known[u];
		for (const char *f : {"@", ".@", "#@", "!@", "@ 5", "@ $12", "@ #5", "@ KK", "@ KK 5", "@ A COMMENT", "@ KK, KK", "@ \"KK\"", "@ 'KK'", "@(KK)", "@: KK", ".@ 5", ".@ $12, 5", ".@ KK", ".@ KK 5", ".@ KK = 5", ".@ \"KK\"", ".@ ON", ".@ NOP", "KK @ 5", "KK .@ 5", "KK: .@ $12", "NOP @", " NOP .@", "LDA @", "LDA #@ KK", "LDA @ KK", "LDA KK @", "LDA KK,@", "KK = @", "KK = @ 5", ".ORG @", "*=@", "* @ 5", "LDA .@", "LDA #.@ QQ", "@=5", "@ =5", "@ EQU 5", "KK @", "LDA.@ 5", "#@ KK", "<@", "@ @", ".@ .@"}) {
			string t = "QQ = 7\n";
			for (const char *q = f; *q; q++) if (*q == '@') t += x; else t += *q;
			if (!w.verify(t + "\n NOP\n", M, "known word") || !w.verify(lower(t) + "\n NOP\n", M, "known word")) return;
		}
	});
	// a token too many at every column
	r.phase("extra tokens at every column", 420, [&](Worker &w, u64 u) {
		size_t col = u < 300 ? u : u < 340 ? 492 + u - 300 : u < 380 ? 1004 + u - 340 : 4076 + u - 380;
		vector<string> extra = {"A", "X", "Y", "D", "QQ9", "NOP", "=", "*", "#", ",", "(", ")", ".END", ".EQU", "$12", "%101", "?", ":", "!"};
		for (int n = 1; n <= 10; n++) extra.push_back(string(n, '0')), extra.push_back(string("1234567890").substr(0, n));
		for (const char *st : {"", " NOP", "LDA #$12", "LL STA D,X", "LL:", "K = 5", "JMP (FF)", ".ORG 7", "*=7", "ASL A"})
			for (auto &x : extra) {
				string l = st;
				if (l.size() > col) break;
				l += string(col - l.size(), u % 3 == 2 ? '\t' : ' ') + x;
				if (!w.verify(pro + l + "\nFF RTS\n", M, "extra token") || (u % 4 == 0 && !w.verify(pro + l + " ; c", M, "extra token"))) return;
			}
	});
	r.phase("every mnemonic, operand sequences", 56 * 10 * 10, [&](Worker &w, u64 u) {
		string mn = model::mnemonics[u / 100];
		int maxd = cfg.thorough() ? 5 : 4;
		string s = pro + (u & 1 ? "L: " : " ") + mn + " " + ot[u / 10 % 10] + " " + ot[u % 10];
		std::function<void(int)> rec = [&](int d) {
			if (w.stopped()) return;
			s += '\n'; w.verify(s, M, "operand"); s.pop_back();
			if (d == maxd) return;
			size_t keep = s.size();
			for (auto &x : ot) { s += ' '; s += x; rec(d + 1); s.resize(keep); }
		};
		rec(2);
	});
}

void prop_c11(Run &r)
{
	r.rule = "Every statement kind in every combination of: leading blanks, blanks at each gap (including none where tokens stay apart), trailing blanks or comment, letter case, colon, line end, blank or comment line around it; compared with the same statement in one plain layout, both run on the assembler.";
	const unsigned M = C_IMAGE | C_BYTES | C_SYMS;
	vector<vector<string>> st;
	auto split = [](const string &t) { vector<string> v; size_t p = 0; while (p < t.size()) { size_t e = t.find(' ', p); if (e == string::npos) e = t.size(); if (e > p) v.push_back(t.substr(p, e - p)); p = e + 1; } return v; };
	for (const char *t : {"NOP", "LDA # $AB", "LDA $AB", "LDA $ABCD , X", "STX $F , Y", "LDA ( $AB , X )", "EOR ( $AB ) , Y", "JMP ( $ABCD )", "ASL A", "ROR",
		"BNE FWD", "JMP FWD", "JSR KON", "JMP ( FWD )", "LDA KON", "CMP # KON", "ADC KON , X", "LDA KON , Y", "LBL", "LBL NOP", "LBL LDA # KON", "LBL JMP FWD", "LBL STA ( $A1 ) , Y",
		"LBL = $AB", "LBL .EQU %101", ".DEFINE LBL 200", ".ORG $2F", "* = $2F", ".END", "LDA # %1010", "LDX 12", "A1_b SBC ( KON , X )"}) st.push_back(split(t));
	r.sample("\\tlbl:  lda   #kon ; comment\\r\\n  ==  LBL LDA #KON\\n");
	static const char *gaps[] = {"", " ", "\t", "  ", " \t"};
	static const char *trail[] = {"", " ", "\t \t", ";", " ; LDA $1 : \" ~ ' .BAD", ";;;\xc3\xa4", "\t;$"};
	static const char *lead[] = {"", " ", "\t", " \t  "};
	static const char *around[][2] = {{"", ""}, {"\n", "\n\n"}, {"; c\n", ";\n"}, {" \t\n", "\t"}, {"\r\n", " ; x\r\n"}};
	string pro = "KON = $5A\n", epi = "\nFWD NOP\nEND1 RTS";
	auto word = [](const string &t) { return isalnum((unsigned char)t[0]) || t[0] == '$' || t[0] == '%' || t[0] == '.'; };
	r.phase("all layouts of one statement", st.size() * 4, [&](Worker &w, u64 u) {
		auto &v = st[u / 4];
		int lo = u % 4;
		string ref = pro;
		for (size_t i = 0; i < v.size(); i++) ref += (i ? " " : "") + v[i];
		ref += epi + "\n";
		size_t g = v.size() - 1;
		u64 combos = 1;
		// which gaps may be empty
		vector<int> minGap;
		for (size_t i = 0; i < g; i++) {
			string nx = v[i + 1];
			bool sep = !word(v[i]) || strchr(",()", nx[0]);
			minGap.push_back(sep ? 0 : 1);
			combos *= 5;
		}
		bool lab = v[0] == "LBL" || v[0] == "A1_b";
		u64 k = 0;
		for (u64 x = 0; x < combos; x++) {
			// with more than four gaps, vary at most three of them from one blank (quick)
			if (!cfg.thorough() && g > 4) {
				int off = 0; u64 y = x;
				for (size_t i = 0; i < g; i++, y /= 5) off += y % 5 != 1;
				if (off > 3 && x != 0) continue;
			}
			for (int colon = 0; colon <= (int)lab; colon++) {
				string body; u64 y = x; bool legal = true;
				for (size_t i = 0; i < v.size(); i++) {
					body += v[i];
					if (i == 0 && colon) body += ":";
					if (i < g) { int c = y % 5; y /= 5; if (c == 0 && minGap[i] && !(i == 0 && colon)) { legal = false; break; } body += gaps[c]; }
				}
				if (!legal) continue;
				string low = lower(body), alt = body;
				for (size_t i = 0; i < alt.size(); i += 2) alt[i] = low[i];
				for (const string &b : {body, low, alt}) {
					for (int t = 0; t < 7; t++)
						for (int a = 0; a < 5; a++)
							for (int cr = 0; cr < 3; cr++) {
								if (!cfg.thorough() && combos > 5 && (++k % (combos > 125 ? 13 : combos > 25 ? 7 : 3))) continue;
								string s = pro + around[a][0] + lead[lo] + b + trail[t] + (cr == 1 ? "\r" : "") + "\n" + around[a][1] + (epi.c_str() + 1);
								if (around[a][1][0] == '\t') s = pro + around[a][0] + lead[lo] + b + trail[t] + (cr == 1 ? "\r" : "") + "\n\t" + (epi.c_str() + 1);
								if (cr != 2) s += "\n";
								if (!w.same(s, ref, M, "layout")) return;
							}
				}
			}
			if (w.stopped()) return;
		}
	});
	// the value of a name, wherever and however it is defined: seen by uses before and after
	r.phase("all layouts of a definition and its uses", 4 * 5 * 7, [&](Worker &w, u64 u) {
		static const char *const defs[][5] = {{"LBL", "", "", "", ""}, {"LBL", "=", "$1234", "", ""}, {"LBL", ".EQU", "200", "", ""}, {"LBL", "=", "%101", "", ""}, {".DEFINE", "LBL", "$F0", "", ""}, {"LBL", "LDA", "#", "$12", ""}, {"LBL", "JMP", "FWD", "", ""}};
		auto *d = defs[u / 20];
		bool colon = string(d[0]) == "LBL";
		static const char *const front[] = {"", " NOP\n", ".ORG $1233\n NOP\n", "*=$C7\n LDA #1\n"};
		string f = front[u % 4];
		int g = u / 4 % 5;
		static const char *const bef[] = {"", " JMP LBL\n", " JSR LBL\n JMP (LBL)\n"};
		static const char *const aft = " JMP LBL\n JMP (LBL)\nFWD RTS\n";
		for (auto *b4 : bef) {
			string ref = f + b4;
			for (int i = 0; i < 5 && *d[i]; i++) ref += (i ? " " : "") + string(d[i]);
			ref += string("\n") + aft;
			for (int col = 0; col <= (int)colon; col++) for (int l = 0; l < 4; l++) for (int t = 0; t < 7; t++) for (int cs = 0; cs < 2; cs++) for (int cr = 0; cr < 2; cr++) for (int g2 = 0; g2 < 5; g2++) {
				string s;
				for (int i = 0; i < 5 && *d[i]; i++) {
					if (i) { int k = i == 1 ? g : g2; s += !*gaps[k] && !(i == 1 && col) ? " " : gaps[k]; }
					s += d[i];
					if (!i && col) s += ":";
				}
				if (cs) s = lower(s);
				s = f + b4 + lead[l] + s + trail[t] + (cr ? "\r\n" : "\n") + aft;
				if (!w.same(s, ref, M, "layout of a definition")) return;
				if (w.stopped()) return;
			}
		}
	});
	// whole programs: every pair of statements under whole-file transformations
	vector<string> plain;
	for (auto &v : st) { string s; for (size_t i = 0; i < v.size(); i++) s += (i ? " " : "") + v[i]; plain.push_back(s); }
	r.phase("pairs of statements, whole-file layouts", plain.size() * plain.size(), [&](Worker &w, u64 u) {
		string a = plain[u % plain.size()], b = plain[u / plain.size()];
		vector<string> l = {"KON = $5A", a, b, "FWD NOP"};
		string ref;
		for (auto &x : l) ref += x + "\n";
		auto build = [&](auto f, const char *eol, bool last) { string s; for (size_t i = 0; i < l.size(); i++) { s += f(l[i]); if (last || i + 1 < l.size()) s += eol; } return s; };
		auto id = [](string x) { return x; };
		if (!w.same(build(id, "\r\n", true), ref, M, "CRLF")) return;
		if (!w.same(build(id, "\r\n", false), ref, M, "CRLF, no final newline")) return;
		if (!w.same(build(id, "\n", false), ref, M, "no final newline")) return;
		if (!w.same(build(lower, "\n", true), ref, M, "lower case")) return;
		if (!w.same(build([](string x) { return "   " + x + "   ; " + x; }, "\n", true), ref, M, "indented, commented")) return;
		if (!w.same(build([](string x) { return x + ";" + x; }, "\r\n\r\n", false), ref, M, "glued comments")) return;
		if (!w.same(build([](string x) { string s; for (char c : x) { if (c == ' ') s += "\t\t "; else s += c; } return "\t" + s + "\t"; }, "\n\n;;\n", true), ref, M, "tabs and blank lines")) return;
		for (int n : {1, 2, 7, 8, 9, 63, 64}) if (!w.same(build([n](string x) { string s; for (char c : x) { if (c == ' ') s += string(n, ' '); else s += c; } return string(n, '\t') + s + string(n, ' '); }, "\n", true), ref, M, "wide gaps")) return;
	});
}
