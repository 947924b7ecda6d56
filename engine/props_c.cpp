// C12..C19
#include "props.h"
#include <cerrno>
#include <fcntl.h>
#include <sys/stat.h>

void prop_c12(Run &r)
{
	r.rule = "Every line length up to the limit and around every power of two beyond, the extra text being a comment that would be code or a label if split, blanks before, between or after tokens, or leading zeros; followed by a line with an error whose number must come out right.";
	const unsigned M = C_VERDICT | C_IMAGE | C_SYMS | C_BYTES | C_LINE;
	vector<u64> len;
	u64 top = cfg.thorough() ? 5000 : 1300;
	for (u64 i = 0; i <= top; i++) len.push_back(i);
	for (int k = 11; k <= (cfg.thorough() ? 20 : 17); k++) for (int d = -3; d <= 3; d++) if ((1ull << k) + d > top) len.push_back((1ull << k) + d);
	r.sample("NOP ;<1 to 65538 characters> / BAD( "); r.sample("<n blanks>LDA<n blanks>#1");
	r.phase("every line length", len.size(), [&](Worker &w, u64 u) {
		u64 n = len[u];
		auto rep = [&](const char *t) { string s; size_t l = strlen(t); for (u64 i = 0; i < n; i++) s += t[i % l]; return s; };
		vector<string> lines;
		for (const char *t : {" NOP", "\tL1:", ";", "\n" /*never*/, "NOP\t", " ", ".END ", " L2 = 5", "a\t", "\xc3\xa9", "$"}) {
			if (*t == '\n') continue;
			string c = rep(t);
			lines.push_back(";" + c);
			lines.push_back(" NOP ;" + c);
			if (*t == ' ' || *t == '\t') { lines.push_back("L9: ;" + c); lines.push_back("\tLDA\t#$12 ;" + c); }
		}
		for (char b : {' ', '\t'}) {
			string s(n, b);
			lines.push_back(s);
			lines.push_back(s + "NOP");
			lines.push_back("NOP" + s);
			lines.push_back("LDA" + s + " #$12");
			lines.push_back("LDA (" + s + "$12" + s + ")" + s + "," + s + "Y");
			lines.push_back("L5:" + s + "NOP" + s + ";" + s + "BAD(");
			lines.push_back("L6 " + s + "=" + s + "$1234" + s);
			lines.push_back(s + "NOP NOP");
			lines.push_back(s + ".ORG " + s + "$5");
		}
		string z(n, '0');
		lines.push_back("LDA #$" + z + "12");
		lines.push_back("JMP %" + z + "1");
		lines.push_back("L7 = " + z + "65535");
		int k = 0;
		for (auto &l : lines) {
			bool big = n > 5000;
			string pre = k++ & 1 ? "\n" : "";
			if (!w.verify(pre + l + "\n NOP\nLX RTS\n", M, "long line")) return;
			if (!w.verify(pre + l, M, "long last line")) return;
			if (k % 5 == 0 || !big) {       // reported only at the end, as one whole line
				string g = l;
				size_t at = g.find("NOP");
				if (at != string::npos) g.replace(at, 3, k & 1 ? "BNE NOWHERE" : "JMP (NOWHERE)");
				else g = string(n, k & 2 ? ' ' : '\t') + "JSR NOWHERE" + string(n % 300, ' ') + "; " + l.substr(0, 50);
				if (!w.verify(pre + g + "\n NOP\n", M | C_DIAG, "unresolved on a long line")) return;
			}
			if (big) continue;
			if (!w.verify(l + "\r\n" + l + "\r\n NOP\r\n", M & ~C_LINE, "long CRLF lines")) return;
			if (!w.verify(pre + l + "\n RTS\n" + " NOP NOP\n", M, "error after a long line")) return;
			if (!w.verify("\n" + l + "\n\n" + l + "\n NOWHERE (\n", M, "error after long lines")) return;
			if (!w.verify(l + "\n BNE NOWHERE\n", M, "missing label after a long line")) return;
		}
	});
	// every exact length, many to a source
	u64 most = cfg.thorough() ? 270000 : 40000;
	r.phase("every exact length, many to a source", most / 32, [&](Worker &w, u64 u) {
		string a, b, c;
		for (u64 n = u * 32; n < u * 32 + 32; n++) {
			a += " NOP ;" + string(n, 'x') + "\n LDA #1\n";
			if (n < 30000 || cfg.thorough()) b += string(n, n & 1 ? ' ' : '\t') + "NOP\nINX\n";
			c += ";" + string(n, 'y') + "\n";
		}
		if (!w.verify(a, M, "many lines of some length") || !w.verify(b, M, "many lines of some length") || !w.verify(c + " NOP NOP\n", M, "many lines of some length")) return;
		w.c->items.fetch_add(96);
	});
	// line ends at every offset in the source
	r.phase("a line end at every offset", cfg.thorough() ? 4400 : 300, [&](Worker &w, u64 u) {
		for (u64 n = u * 32; n < u * 32 + 32; n++)
			for (const char *nl : {"\n", "\r\n", "\r\n\r\n"}) {
				if (!w.verify(" NOP ;" + string(n, 'x') + nl + " LDA )" + nl, M, "line end at some offset")) return;
				if (n % 2 == 0) {      // the same offset by way of many lines
					string s;
					while (s.size() + 20 < n) s += (n & 4) ? " NOP ; a line\r\n" : "; of\n LDA 1\n";
					s += ";" + string(n > s.size() ? n - s.size() : 0, 'y') + nl;
					if (n % 16 == 0 && !w.verify(s + " JMP F" + nl + " STA #1" + nl, M, "line end at some offset")) return;
				}
			}
		for (int k : {14, 15, 16, 17, 18, 20}) {
			if (u > 20) break;
			u64 n = (1ull << k) - 20 + u * 2;
			for (int o = 0; o < 2; o++) for (const char *nl : {"\n", "\r\n"}) if (!w.verify(" NOP ;" + string(n + o, 'x') + nl + " LDA )" + nl, M, "line end at some offset")) return;
		}
	});
	// longer than any stack
	r.phase("lines of many megabytes", 16, [&](Worker &w, u64 u) {
		string s((u & 1 ? 9u : 20u) << 20, u / 2 == 7 ? '\t' : ' '), c(s.size(), 'x');
		const string t[] = {" NOP ;" + c, " JMP F ;" + c, s + "NOP", "LDA" + s + "#$12", " JMP NOWHERE" + s, " NOP NOP ;" + c, "L = $" + string(s.size(), '0') + "5", " JMP F" + s};
		w.verify(t[u / 2] + "\nF RTS\n LDA #1\n", M, "very long line");
	});
	// what could make a line run on: every byte and every pair of marks at its end
	vector<string> ends;
	for (int b = 1; b < 255; b++) if (b != '\n' && b != '\r') ends.push_back(string(1, (char)b));
	{ string m = "!\"#$%&'()*+,-./:;<=>?@[\\]^_`{|}~ \tA0\x1a\x1b\x85\f"; for (char a : m) for (char b : m) ends.push_back(string() + a + b); }
	r.phase("every ending of a line", ends.size(), [&](Worker &w, u64 u) {
		static const char *const heads[] = {";", "; c", " NOP ;", "L8: ; c ", " JMP F;", " ", "", " NOP", " LDA #1 ", "L8"};
		static const char *const next[] = {" RTS\nF NOP\n LDA (\n", "F = 5\n NOP NOP\n", "; x\nF\n BNE NOWHERE\n", ".END\n", "F: JMP F\n"};
		for (const char *h : heads) for (const char *x : next) for (const char *nl : {"\n", "\r\n", "\n\n"})
			if (!w.verify(string(h) + ends[u] + nl + x, M, "end of line")) return;
		for (const char *h : heads) if (!w.verify("F NOP\n" + string(h) + ends[u], M, "end of text")) return;
	});
	// two long lines: every pair of lengths around the likely buffer sizes
	vector<u64> edge;
	for (u64 b : {64, 100, 126, 128, 200, 254, 256, 510, 512, 1022, 1024}) for (int d = -2; d <= 2; d++) edge.push_back(b + d);
	r.phase("pairs of long lines", edge.size() * edge.size(), [&](Worker &w, u64 u) {
		u64 x = edge[u % edge.size()], y = edge[u / edge.size()];
		for (int k = 0; k < 3; k++) {
			string a = k == 0 ? " NOP ;" : k == 1 ? ";" : string(x - 8, ' ') + "ASL ;";
			while (a.size() < x) a += " ROL";
			string b = " LDA #1 ; ";
			while (b.size() < y) b += "L3 NOP";
			a.resize(x); b.resize(y);
			if (!w.verify(a + "\n" + b + "\n STA (\n", M, "two long lines")) return;
			if (!w.verify(a + "\n" + b + "\n JMP F\n" + b + "\nF RTS\n", M, "two long lines")) return;
		}
	});
	manyStatements(r, C_DIAG | C_IMAGE);
}

static const char *stmts13[] = {"LDA #$12", "LABEL:", "LABEL NOP", "LAB_1: STA ($12),Y", "CON = $1234", "C_9 .EQU %101", ".DEFINE KK 77", ".ORG $20", "*=$20", ".END",
	"JMP (DD)", "LDX DD , Y", "ASL A", "RTS", "BNE DD", "LDA ($1f,X)", "", "   ", "D1 ADC $abcd,x"};

void prop_c13(Run &r)
{
	r.rule = "Every byte value (except NUL, CR, LF and 255) substituted for and inserted at every position of every statement kind, appended to it and placed inside its comment; the colon inserted at every position of every statement; every foreign byte together with digits, names, quotes and punctuation that could give it a meaning (DD+1, 'A', /*...*/), inserted at every position.";
	const unsigned M = C_VERDICT | C_IMAGE | C_SYMS;
	r.sample("LDA #\\x01$12"); r.sample("LABEL NOP:"); r.sample("RTS ; \\x80");
	string pro = "DD = $10\n";
	r.phase("every byte, every position, every statement", 255 * (sizeof stmts13 / sizeof *stmts13), [&](Worker &w, u64 u) {
		char c = (char)(u % 255); string s = stmts13[u / 255];
		if (!c || c == '\n' || c == '\r' || (unsigned char)c == 255) return;
		for (size_t p = 0; p <= s.size(); p++) {
			string t = s; t.insert(p, 1, c);
			if (!w.verify(pro + t + "\n", M, "inserted")) return;
			t.insert(p, 1, c);
			if (!w.verify(pro + t + "\n RTS\n", M, "inserted twice")) return;
			t = s; t.insert(p, string(" ") + c + " ");
			if (!w.verify(pro + t + "\n", M, "inserted between blanks")) return;
			if (p < s.size()) { t = s; t[p] = c; if (!w.verify(pro + t + "\n RTS\n", M, "substituted")) return; }
			if (p < s.size() && !w.verify(pro + s.substr(0, p) + c, M, "cut after it")) return;
		}
		for (const char *cm : {";@", " ; x@y", ";@@@@", " ;;@ NOP", ";\"@'"}) {
			string k = cm;
			for (char &q : k) if (q == '@') q = c;
			string ref = pro + s + "\n RTS\n";
			if (!w.same(pro + s + k + "\n RTS\n", ref, C_IMAGE | C_BYTES | C_SYMS, "in a comment")) return;
		}
	});
	// a foreign byte together with what could give it a meaning: an operator and its operand, a quoted character, a prefix
	r.phase("every foreign byte with company", 255 * 2, [&](Worker &w, u64 u) {
		string c(1, (char)(u / 2));
		if (!c[0] || c[0] == '\n' || c[0] == '\r' || (unsigned char)c[0] == 255) return;
		if (isalnum((unsigned char)c[0]) || c[0] == ' ' || c[0] == '\t' || c[0] == ';' || c[0] == '_') return;
		vector<string> ins = {c + "1", "1" + c, c + "$1", c + "%1", c + " 1", c + "DD", c + " DD", "DD" + c, " " + c + "DD", c + "A" + c, c + "1" + c, c + "(1", "(" + c, c + ")", c + "*", "*" + c, c + "X", c + "," + c,
			c + "NOP", c + " NOP", c + "L2 NOP", c + c + "1", c + c + c, "#" + c, c + "#", "=" + c, c + "=", c + ".", "." + c, "$" + c, c + "N" + c, c + "NOP" + c};
		for (const char *st : stmts13) {
			string s = st;
			if (u & 1) { string k; for (char x : s) if (x != ' ' || k.empty() || k.back() != ' ') k += x; s = "\t" + k + " "; }
			for (size_t p = 0; p <= s.size(); p++)
				for (auto &i : ins) { string t = s; t.insert(p, i); if (!w.verify(pro + t + "\n RTS\n", M, "inserted")) return; }
			if (w.stopped()) return;
		}
	});
	// a mark that is no part of the language, with every word of one and two characters behind it
	r.phase("every mark with every short word", 45 * 37, [&](Worker &w, u64 u) {
		static const char marks[] = "!\"#$%&'()*+,-./:<=>?@[\\]^_`{|}~\x01\x1a\x1b\x7f\x80\xa0\xa7\xb0\xdf\xe4\xfe\f\v";
		static const char an[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789";
		if (u / 37 >= sizeof marks - 1) return;
		static const char *const at[] = {"LDA@ $12", "LDA@", "LDA@#5", "LAB@", "LAB@ NOP", "LAB: LDA@ DD", "LDA DD@", "LDA DD@,X", "LDA #5@", "LDA #@", "LDA @", "JMP (DD@)", "JMP @DD", ".ORG@ 5", "*=5@", "K = 5@", "K@ = 5", "@", "@ NOP", "NOP @", "NOP@"};
		string m(1, marks[u / 37]);
		if (u % 37) m += an[u % 37 - 1];
		for (int k = -1; k < (u % 37 ? 36 : 0); k++) {
			string x = m;
			if (k >= 0) x += an[k];
			for (const char *t : at) {
				string l = t;
				l.replace(l.find('@'), 1, x);
				if (!w.verify(pro + l + "\n RTS\n", M, "mark and word")) return;
			}
		}
	});
	vector<string> runs = {"\xEF\xBB\xBF", "\xC2\xA0", "\xE2\x80\xA8", "\xC3\xA9", "\xE2\x80\x9C", "\x1b[0m", "/*", "*/", "/**/", "/* */", "/*;*/", "//", "--", "<<", ">>", "&&", "||", "==", "!=", "->", "\\n", "\\x41", "{}", "[]", "[1]", "${", "<!--", "#!", "@@", "''", "\"\"", "\"A\"", "'A'",
		"'A", "&H", "&1", "%%", "$$", "##", "::", "..", "...", "+1", "-1", "~1", "!1", "^1", "|1", "&DD", "<DD", ">DD", "-DD", "DD-DD", "DD*2", "(DD+1)", "[DD]", "{DD}", "@1", "@@:", "!:", ":+", ":-", "\\\n", "\x1a", "\x1a\n?", "\f\v", "\xFE\xFE", "\\;", "?:", ".\\", "$ 1", "% 1", "$-1", "$+1", "%-1", "1_0", "1,000", "1.5", "1e3", "0x10", "0b1", "0o7", "$0x1", "10h", "1b"};
	r.phase("every run of foreign characters", runs.size(), [&](Worker &w, u64 u) {
		for (const char *st : stmts13)
			for (const char *pre : {"", "QQ NOP\n", "\n"}) {
				string s = st, q = pre == string("") ? "" : pro;
				for (size_t p = 0; p <= s.size(); p++) {
					string t = s; t.insert(p, runs[u]);
					if (!w.verify(pre + q + t + "\n RTS\n", M, "inserted")) return;
					t = s; t.insert(p, " " + runs[u]);
					if (!w.verify(pre + q + t + "\n RTS\n", M, "inserted")) return;
					if (p + 1 < s.size()) { t = s; t.replace(p, 1 + (u & 1), runs[u]); if (!w.verify(pre + q + t + "\n RTS\n", M, "replaced")) return; }
				}
			}
	});
	// characters of more than one byte, where a blank, a letter or a mark could be
	r.phase("every character of two and three bytes", 1920 + 61440 / 8, [&](Worker &w, u64 u) {
		vector<string> cs;
		if (u < 1920) cs.push_back({(char)(0xC2 + u / 64), (char)(0x80 + u % 64)});
		else for (unsigned k = 0; k < 8; k++) {
			unsigned v = (u - 1920) * 8 + k + 0x800;
			cs.push_back({(char)(0xE0 + (v >> 12)), (char)(0x80 + (v >> 6 & 63)), (char)(0x80 + (v & 63))});
		}
		for (auto &c : cs)
			for (const char *f : {"@", "@NOP", "LDA@#5", "LDA @#5", "LDA #5@", "L@ NOP", "L@NOP", "L:@NOP", "LDA DD@,X", "LDA DD,@X", "K@=5", "K =@5", "*=@5", "*@=5", ".ORG@5", ".DEFINE@K 5", ".DEFINE K@5", "NOP@", "NOP @ ; c", " JMP (@DD)", "LDA $@1", "K@1 = 5", "NOP@; c"}) {
				string l;
				for (const char *q = f; *q; q++) if (*q == '@') l += c; else l += *q;
				if (!w.verify(pro + l + "\n RTS\n", M, "character of several bytes")) return;
				if (u < 1920 && (!w.verify(l, M, "character of several bytes, first line") || !w.verify(pro + " NOP\n\t" + l + "\n", M, "character of several bytes"))) return;
			}
	});
	// comments that hold any three bytes (two at the start of a comment), and any text the program knows
	r.phase("every three bytes in comments", 255, [&](Worker &w, u64 u) {
		auto out = [](char c) { return !c || c == '\n' || c == '\r' || (unsigned char)c == 255; };
		char a = (char)u;
		if (out(a)) return;
		string s, t;
		for (int b = 1; b < 255; b++) {
			if (out((char)b)) continue;
			s += ";";
			for (int c = 1; c < 255; c++) if (!out((char)c)) { s += a; s += (char)b; s += (char)c; }
			s += b & 1 ? "\n NOP " : "\n";
			t += string(b & 1 ? ";" : "NOP;") + a + (char)b + "\n; " + a + (char)b + " x\n";
			if (cfg.thorough()) for (int c = 1; c < 255; c++) if (!out((char)c)) { t += ";"; t += a; t += (char)b; t += (char)c; t += '\n'; }
		}
		if (!w.verify(s + "\n", M, "three bytes in a comment") || !w.verify(t, M, "comments that start with two bytes")) return;
		if (!w.verify(string(";") + a + a + a + "\n" + s + "\n", M, "three bytes in a comment")) return;
		w.c->items.fetch_add(252 * 252);
	});
	r.phase("every text of the program in comments", libraryTexts().size(), [&](Worker &w, u64 u) {
		string x = libraryTexts()[u], y = x;
		for (char &c : y) c = islower((unsigned char)c) ? toupper(c) : tolower(c);
		const char *st[] = {" NOP ", "L LDA #DD ", " JMP F", "LDA #$12", "F: ", "\tBNE L ", "K2 = 5", "*=$40 ", "", " ", "\t", " INX"};
		vector<string> cs;
		for (const string &k : {x, y}) for (string f : {"@", " @", " @ ", "@4", " @4", " @=4", " @: 4", "@ 4", " vim: set @4 :", " -*- @: 4 -*-", " x@y", ":@", "!@", "#@", "@@", " @,@4,", "\"@\""}) {
			string c = ";";
			for (char q : f) if (q == '@') c += k; else c += q;
			cs.push_back(c);
		}
		string all = "DD = $10\n";
		for (size_t i = 0; i < cs.size(); i++) {
			string s = cs[i] + "\nDD = $10\n", e;
			for (auto q : st) s += q + cs[(i + (q != st[0])) % cs.size()] + "\n";
			if (!w.verify(s, M, "words in comments")) return;
			all += (i % 12 == 1 || i % 12 == 4 || i % 12 == 6 ? string(" INX") : string(st[i % 12]) + (i % 12 == 2 || i % 12 == 5 ? "L" : "")) + cs[i] + "\n";
			if (!w.verify(cs[i] + "\n NOP NOP " + cs[i] + "\n", M, "words in comments")) return;
		}
	});
	// every byte in every position of a label and of each directive, definition and use alike
	r.phase("every byte within longer names", 255, [&](Worker &w, u64 u) {
		char c = (char)u;
		if (!c || c == '\n' || c == '\r' || (unsigned char)c == 255) return;
		for (int n : {2, 5, 20, 61, 62, 63})
			for (int p = 0; p < n; p++) {
				string x(n, 'B'); x[p] = c;
				if (!w.verify(x + " = $1234\n JMP " + x + "\n", M, "in a name")) return;
				if (!w.verify(" JMP " + x + "\n" + x + " NOP\n", M, "in a name")) return;
			}
		for (const char *d : {".DEFINE KK 5", "KK .EQU 5", ".ORG 5", ".END"})
			for (size_t p = 0; d[p]; p++) { string x = d; x[p] = c; if (!w.verify(x + "\n", M, "in a directive")) return; x.insert(p, 1, d[p]); if (!w.verify(x + "\n", M, "in a directive")) return; }
		// pairs of foreign bytes
		for (int b = 1; b < 255; b++) {
			if (b == '\n' || b == '\r') continue;
			if (!w.verify(string(" NOP ") + c + (char)b + "\n", M, "two bytes")) return;
			if (!w.verify(string("L") + c + (char)b + " NOP\n", M, "two bytes")) return;
			if (!w.verify(string("LDA #$1") + c + (char)b + "\n", M, "two bytes")) return;
			if (!w.verify(string("") + c + (char)b + "\n", M, "two bytes")) return;
			if (!w.verify(string(" STA $12") + c + (char)b + "\n", M, "two bytes")) return;
			if (!w.verify(string(".ORG") + c + (char)b + "5\n", M, "two bytes")) return;
		}
	});
}

// lines that are rejected, one per way of being wrong; D is defined, U is not
static const char *bad14[] = {
	"LDA #@1", "L?B NOP", "LDA $12G", "LDA %12", "LDA 1A", "LDA $", "LDA %", "_X NOP", "LDA:", "LDA D:", "L1 L2:", "D=5", ".EQU: 5", "'", "\"", "LDA #$12 !", ".OR1 5", ".",
	"LDA $10000", "LDA 65536", "LDA %10000000000000000", "JMP $123456789ABCDEF012345", "ORG1 = 99999",
	"NNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNN NOP", "JMP NNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNN",
	"NOP NOP", "LDA # # 5", "LDA ( D", "LDA ( D )Y", "LDA ( D ) , X", "LDA ( D , Y )", "LDA D , ", "LDA D , Z", "LDA D , X X", "LDA D , Y , Y", "L3 =", "L3 = D", "L3 .EQU", "L3 .EQU X", "L3 = 5 6", ".DEFINE", ".DEFINE L3",
	".DEFINE 5", ".DEFINE L3 D", ".ORG", ".ORG D", ".ORG 5 6", ".END 1", ", X", "# 5", "= 5", "X", "A = 5", "12", "( 5 )", ") NOP", ".EQU 5", "L3 L4", "L3 : ", "L3 X", "LDA ( ( D )", "LDA ( D ) )", "LDA A A", "LDA # A", "LDA D D",
	"LDA ( D , X ) ; fine here", "LDA ( D , X ) Y", "LDA 1 2 3 4 5 6 7 8 9 10", "L3 LDA ( D ) , Y Y Y", "L3 LDA ( D , X ) , Y",
	"*", "* =", "* = D", "* 5", "* = 5 5", "* = = 5",
	"D NOP", "D = 5", "D .EQU 5", ".DEFINE D 5", "d:", "D",
	"LDA U", "LDA # U", "LDA U , X", "LDA ( U ) , Y", "L3 STA U", "CMP ( U , X )",
	"STA #5", "LDA", "NOP A", "JMP A", "LDX D , X", "STX $1234 , Y", "INC A", "JMP # D", "JSR ( D )", "BNE ( D )", "BNE # D", "BNE A", "BNE", "BNE $1234", "BNE U , X", "JMP U , Y", "JSR ( U )", "LDA ( $1234 ) , Y", "JMP ( D ) , Y", "ASL # 5", "TAX 5", "STY D , Y", "LDA ( D )",
	"BNE FARB", "BCC FAR", "L3: BEQ FAR",
	".DEFIN L3 5", ".EQ 5", ".ORGX 5", ".ENDNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNNN", "L3 .DEFIN 5", ".A",
};
// legal so far, rejected at the end of the source
static const char *late14[] = {"JMP U", "BNE U", "L4 JSR U", "JMP ( U )", "BNE LATEFAR", "L5: BCS LATEFAR", "JMP U ; trailing comment"};

void prop_c14(Run &r)
{
	r.rule = "Every way of being rejected x what precedes the line (nothing, blank lines, comments, instructions, definitions; every count up to a limit) x indentation and gap patterns of blanks and tabs x trailing blanks and comments x line end; all pairs of rejected lines; unresolved references in every order; source names with unusual characters. The complete output text is compared.";
	const unsigned M = C_DIAG;
	const u64 NB = sizeof bad14 / sizeof *bad14, NL = sizeof late14 / sizeof *late14, NT = NB + NL;
	r.sample(" \\t LDA ( D ) , X \\t ; x"); r.sample("line 2999 of 3000: BNE U");
	string pro = "FARB = $4000\nFAR = $2000\nD = $10\n", epi = "\n.ORG $3000\nLATEFAR RTS\n";
	auto line = [&](u64 k) -> string { return k < NB ? bad14[k] : late14[k - NB]; };
	vector<string> ind = {""};
	for (size_t i = 0; i < ind.size() && ind[i].size() < 4; i++) { ind.push_back(ind[i] + " "); ind.push_back(ind[i] + "\t"); }
	for (int n = 5; n <= 26; n++) { ind.push_back(string(n, ' ')); ind.push_back(string(n, ' ') + "\t"); ind.push_back("\t" + string(n, ' ') + "\t"); ind.push_back(string(n, ' ') + "\t" + string(n / 2, ' ') + "\t"); }
	for (int n = 5; n <= 12; n++) ind.push_back(string(n, '\t'));
	r.phase("every rejected line x indentation x tail", NT * ind.size(), [&](Worker &w, u64 u) {
		string l = line(u % NT), in = ind[u / NT];
		for (const char *tail : {"", " ", "\t", "  \t ", " ; comment", ";c \t"}) {
			if (!w.verify(pro + in + l + tail + epi, M, "indent")) return;
			if (!w.verify(pro + in + l + tail + "\r" + epi, M, "indent, CRLF")) return;
			if (!w.verify(pro + "LATEFAR = $3000\n" + in + l + tail, M, "last line without newline")) return;
		}
		// blanks inside the line become tabs or vanish in width
		string t, t2;
		for (char c : l) { if (c == ' ') { t += in.empty() ? "\t" : in; t2 += " \t"; } else { t += c; t2 += c; } }
		if (!w.verify(pro + t + epi, M, "gaps")) return;
		if (!w.verify(pro + in + t2 + epi, M, "gaps")) return;
		if (!w.verify(pro + "LBX: " + t + epi, M, "after a label")) return;
	});
	static const char tc[] = {' ', '\t', ';', 'x', '(', '\\', '%'};
	r.phase("every rejected line with texts of the program", NT * 8, [&](Worker &w, u64 u) {
		auto &T = libraryTexts();
		string l = line(u % NT);
		for (size_t k = u / NT; k < T.size(); k += 8) {
			if (!cfg.thorough() && (k / 8 + u) % 4) continue;
			for (const char *f : {";@", "; @4 ", " ; vim: @=4"}) {
				string c;
				for (const char *q = f; *q; q++) if (*q == '@') c += T[k]; else c += *q;
				if (!w.verify(pro + "\t" + l + "\t" + c + epi, M, "text in its comment")) return;
				if (*f == ';' && f[1] == '@' && !w.verify(pro + c + "\n\t" + l + epi, M, "text in a comment before")) return;
			}
		}
	});
	r.phase("every rejected line x all short ends", NT * 7, [&](Worker &w, u64 u) {
		string l = line(u % NT);
		for (int k = 0; k < 7 * 7 * 8; k++) {
			string t(1, tc[u / NT]);
			t += tc[k % 7]; t += tc[k / 7 % 7];
			if (k / 49 < 7) t += tc[k / 49];
			if (!cfg.thorough() && k / 49 < 7 && (k + u) % 3) continue;
			if (!w.verify(pro + l + t + epi, M, "end of the line") || !w.verify(pro + l + " ;" + t + epi, M, "end of the comment")) return;
			if (k / 49 == 7 && !w.verify(pro + "LATEFAR = $3000\n" + l + " ;" + t, M, "end of the file")) return;
			if (k / 49 == 7 && !w.verify(pro + l + " ;" + t + "\r" + epi, M, "end of the comment, CRLF")) return;
		}
	});
	vector<string> pre = {"\n", "; x\n", " NOP\n", "LB# = 5\n", "LB#: NOP\n", " \t\n", " LDA #1 ; c\n", " JMP LB0\n", "\r\n", "LB#\n", ".ORG $#\n", " .DEFINE LB# 3\n"};
	u64 CNT = cfg.thorough() ? 300 : 70;
	r.phase("every rejected line x number and kind of preceding lines", NT * CNT, [&](Worker &w, u64 u) {
		string l = line(u % NT);
		u64 n = u / NT;
		for (size_t k = 0; k < pre.size(); k++) {
			if (n > 20 && (n + k + u) % 4) continue;
			string s = pro + (pre[k].find("LB0") != string::npos ? "LB0 = 7\n" : "");
			for (u64 i = 0; i < n; i++) { string p = pre[(k + (n > 3 ? i * (i % 3) : 0)) % pre.size()]; if (p.find("LB0") != string::npos) p = " NOP\n"; if (p[0] == '.') p = "*=" + hexs(0x100 + 16 * i) + "\n"; size_t q = p.find('#'); if (q != string::npos && p[0] != ' ' ) p.replace(q, 1, std::to_string(i)); else if (p.find("LB#") != string::npos) p.replace(p.find('#'), 1, std::to_string(i)); s += p; }
			if (!w.verify(s + l + epi, M, "preceding lines")) return;
		}
	});
	vector<string> heads = {"\n", ";\n", "; x\n", ";; x\n", ";;;\n", ";x\n", ";*\n", "; ----------------\n", " ; x\n", "\t; x\n", "\t\n", " \n", "\r\n", ";\r\n", "; NOP NOP\n", ";LDA #5\n", "; .END\n", " NOP\n", "\tLDA #1\n", " NOP ; x\n", "LB#\n", "LB#:\n", "LB#: NOP\n", "LB# = 5\n", "LB# .EQU 5\n", " .DEFINE LB# 5\n", ".ORG @\n", "*=@\n", " JMP U\n", " ; x\n;\n", "; x\n\n", "\n NOP\n", "LB# = 5\n; x\n"};
	vector<string> tails = {" NOP NOP", "LDA", " JMP U", " BNE U", " LDA #@", "L3 =", "LDA ($1234),Y", ".ORG", " LDA U"};
	r.phase("a head of lines of one kind", 330, [&](Worker &w, u64 n) {
		for (size_t k = 0; k < heads.size(); k++) {
			string s;
			for (u64 i = 0; i < n; i++) {
				string p = heads[k];
				size_t q = p.find('#');
				if (q != string::npos && p.compare(0, 2, "LB") == 0) p.replace(q, 1, std::to_string(i));
				else if (q != string::npos && p[1] == '.') p.replace(q, 1, std::to_string(i));
				if ((q = p.find('@')) != string::npos) p.replace(q, 1, hexs(0x100 + 16 * i));
				s += p;
			}
			for (size_t t = 0; t < tails.size(); t++) {
				if (n > 40 && !cfg.thorough() && (t + k + n) % 5) continue;
				if (!w.verify(s + tails[t] + ((t + n) % 2 ? "\n" : ""), M, "a head of one kind")) return;
				if (!w.verify(s + tails[t] + "\n" + heads[k == 20 ? 0 : (k + 1) % 20] + " NOP NOP\n", M, "a head of one kind, more lines after")) return;
			}
		}
	});
	vector<u64> far = {98, 99, 100, 126, 127, 128, 254, 255, 256, 257, 511, 512, 998, 999, 1000, 1023, 1024, 2999, 9998, 9999, 10000, 32766, 32767, 32768, 65534, 65535, 65536, 99999};
	r.phase("large line numbers", NT * far.size(), [&](Worker &w, u64 u) {
		u64 n = far[u / NT];
		if (n > 3000 && u % NT % 10 != 3) return;
		string s = pro;
		for (u64 i = 0; i < n; i++) s += i % 7 ? "\n" : "; c\n";
		w.verify(s + line(u % NT) + epi, M, "large line number");
	});
	r.phase("all pairs of rejected lines", NT * NT, [&](Worker &w, u64 u) {
		string a = line(u % NT), b = line(u / NT);
		if (!w.verify(pro + a + "\n" + b + epi, M, "pair")) return;
		if (!w.verify(pro + "Q1 NOP\n " + a + " ; c\n\n RTS\n\t" + b + epi, M, "pair")) return;
	});
	// the place of an error within, or behind, a token of any length
	r.phase("every length of the token with the error", cfg.thorough() ? 3000 : 700, [&](Worker &w, u64 u) {
		size_t n = u < 600 ? u + 1 : u < 2000 ? (u - 600) * 41 + 601 : u * 10;
		string z(n, '0'), nine(n, '9'), a(n, 'A'), one(n, '1'), b(n, ' ');
		vector<string> l = {"JMP " + nine, "JMP $" + a, "LDA #%" + one, "JMP $1" + z, "JMP 1" + z, "LDA %1" + z, "JMP $" + z + "10000", "JMP " + z + "65536", "JMP " + nine + "A", "JMP $" + z + "G", "JMP %" + z + "2", "LDA #" + z + "?", "L" + a + " NOP", "L" + a + "? NOP", "JMP L" + a, "JMP L" + a + "!", "BNE U" + a, "." + a, "." + a + "1", ".ORG " + nine, "K = $" + one, "LDA ($12" + z, "LDA $" + z + " $" + z, "NOP" + b + "NOP", "L" + a + ": L2", "L" + a + " = ", "LDA U" + a + ",X", "STA #" + z, "D:" + b + "NOP", "LDA" + b + "#" + b + "?", "JMP U" + b + ";", "D" + a + " = 5\nD" + a + ":"};
		for (size_t k = 0; k < l.size(); k++)
			for (const char *in : {" ", "\t", "QQ: "}) {
				if ((in[0] == 'Q' && (isalpha((unsigned char)l[k][0]) == 0 || l[k][0] == 'L' || l[k][0] == 'K' || l[k][0] == 'D')) || (n > 700 && in[0] != ' ')) continue;
				if (!w.verify(pro + in + l[k] + (k & 1 ? "\n" : " ; c\n") + epi, M, "length of a token")) return;
			}
	});
	r.phase("one of many references is never defined", 330, [&](Worker &w, u64 u) {
		int n = u < 300 ? (int)u + 2 : u < 320 ? (int)(u - 300) * 60 + 310 : 2000 + (int)(u - 320) * 997;
		static const char *const ins[] = {" JMP ", " BNE ", "\tJSR ", " JMP ( "};
		auto prog = [&](std::function<string(int)> nameOf, const string &end) {
			string s = pro;
			for (int i = 0; i < n; i++) { s += ins[(i + u) % 4] + nameOf(i) + ((i + u) % 4 == 3 ? " )" : i % 5 ? "" : " ; c") + "\n"; if (i % 40 == 39) s += "OK" + std::to_string(i / 40) + "\n"; }
			for (int i = 0; i <= n / 40; i++) if ((i + 1) * 40 > n) s += "OK" + std::to_string(i) + "\n";
			return s + end;
		};
		auto ok = [&](int i) { return "OK" + std::to_string(i / 40); };
		if (!w.verify(prog([&](int) { return string("UU"); }, ""), M, "all to one missing label")) return;
		if (!w.verify(prog([&](int i) { return "U" + std::to_string(i % 7); }, ""), M, "to several missing labels")) return;
		if (!w.verify(prog([&](int i) { return i % 3 ? ok(i) : "UU"; }, ""), M, "every third is missing")) return;
		for (int at : {0, 1, n / 3, n / 2, n - 2, n - 1}) {
			if (!w.verify(prog([&](int i) { return i == at ? "UU" : ok(i); }, ""), M, "one is missing")) return;
			if (!w.verify(prog([&](int i) { return i == at || i == n - 1 ? "UU" : ok(i); }, ""), M, "two are missing")) return;
			if (!w.verify(prog([&](int i) { return i == at ? "U1" : i >= at && i % 2 ? "U2" : ok(i); }, ""), M, "many are missing")) return;
			if (!w.verify(prog([&](int i) { return i == at ? "FF" : ok(i); }, ".ORG $F000\nFF\n"), M, "one is far")) return;
		}
	});
	r.phase("orders of unresolved references", 7 * 7 * 7 * 4, [&](Worker &w, u64 u) {
		const char *ref[7] = {" JMP U1", " BNE U2", "\tJSR\tOK1", " JMP ( U3 ) ; c", "   BCS FAR2", " JMP OK2 ", "X9: BEQ U1"};
		string s = "OK1 = 5\n" + string(ref[u % 7]) + "\n" + ref[u / 7 % 7] + " \t\n\n" + (u / 7 % 7 == 6 ? "" : ref[u / 49 % 7]) + "\n";
		switch (u / 343) { case 0: s += "OK2 NOP\nFAR2 = $8000\n"; break; case 1: s += "U1 = 7\nOK2\nFAR2 = $9000\n"; break; case 2: s += "FAR2 = $7000\nU2\nOK2 NOP\n"; break; default: s += "U3 = 1\n.END\nOK2\nU1\nU2\n"; }
		w.verify(s, M, "unresolved");
	});
	r.phase("source names", 40, [&](Worker &w, u64 u) {
		static const char *nm[] = {"a", "prog", "x.asm", "./y.asm", "dir/z.asm", "a b.asm", "%s%s%n.asm", "%d:%d.s", "\xc3\xa4.asm", "a:b", "a\tb", "UPPER.ASM", "..x", "a'b\"c", "-x.asm", "\\n", "100%", "{}", "$HOME", "*"};
		string name = nm[u % 20];
		if (u >= 20) name = string(u * 6, 'd') + name;
		if (name[0] == '-') name = "./" + name;
		for (u64 k = 0; k < NT; k++)
			if (!w.verify(pro + line(k) + epi, M, "source name", name.c_str())) return;
	});
	// names of every length and with every byte, and every byte within the echoed line
	const char *some[] = {"NOP NOP", "BNE U", "\tLDA #5 ?", "LDA U", "STA #5", "D = 5", "L4 JSR U"};
	r.phase("every length of source name", 1100, [&](Worker &w, u64 u) {
		u64 n = u < 600 ? u + 1 : u * 8 - 4300;
		if (n > 4095) return;
		string name(n, 'n');
		for (size_t i = 200; i < n; i += 201) name[i] = '/';
		if (name.back() == '/') name.back() = 'n';
		for (const char *l : some) if (!w.verify(pro + l + epi, M, "length of source name", name.c_str())) return;
	});
	r.phase("every byte in source names", 255, [&](Worker &w, u64 u) {
		char b = (char)(u + 1);
		if (b == '/') return;
		for (const string &name : {string("./") + b, string("./") + b + b, string("a") + b, string("x") + b + "y.asm", string("d/") + b + ".asm", string(300, 'x') + b + "z"})
			for (const char *l : some) if (!w.verify(pro + l + epi, M, "byte in source name", name.c_str())) return;
	});
	r.phase("every byte in the rejected line", 254 * NT, [&](Worker &w, u64 u) {
		string b(1, (char)(u % 254 + 1)), l = line(u / 254);
		if (b == "\n" || b == "\r") return;
		if (!w.verify(pro + l + " ;" + b + "x" + epi, M, "byte in the comment")) return;
		if (!w.verify(pro + "\t" + l + "; ab" + b + b + "\t" + b + "x \t" + epi, M, "bytes in the comment")) return;
	});
	// long echoed lines
	vector<u64> lens;
	for (u64 i = 0; i < (cfg.thorough() ? 3000 : 800); i++) lens.push_back(i);
	for (u64 p = 1024; p <= 131072; p *= 2) for (int d = -9; d <= 9; d++) lens.push_back(p + d);
	for (u64 p : {999, 1000, 9999, 10000, 99999, 100000, 1000000}) lens.push_back(p);
	r.phase("long rejected lines", lens.size(), [&](Worker &w, u64 k) {
		u64 u = lens[k];
		for (const char *l : {"NOP NOP", "BNE U", "LDA #5 ?", "LDA U", "STA #5", "D = 5", "L4 JSR U"}) {
			if (u > 3000) {	// a tab wherever the gap is, and the gap before the bad character
				string t(u, ' '), x(l);
				t[u / 2] = t[u - 1] = '\t';
				size_t q = x.find(' ');
				if (!w.verify(pro + t + l + epi, M, "long indentation with tabs")) return;
				if (!w.verify(pro + x.substr(0, q) + t + x.substr(q) + epi, M, "long gap")) return;
				if (!w.verify(pro + string(u, '\t') + l + epi, M, "many tabs")) return;
			}
			string c(u, 'c'), b(u, ' ');
			if (!w.verify(pro + l + ";" + c + epi, M, "long comment")) return;
			if (!w.verify(pro + l + b + epi, M, "long trailing blanks")) return;
			if (!w.verify(pro + b + l + epi, M, "long indentation")) return;
			if (!w.verify(pro + l + ";" + c + " %s%d\n" + epi, M, "percent signs")) return;
		}
	});
	manyStatements(r, C_DIAG);
}

void prop_c15(Run &r)
{
	r.level = "model_checking";
	r.rule = "All programs up to the stated length over an alphabet with every statement kind and every kind of error, then breadth-first over distinct model states; every code size and symbol count up to a limit.";
	const unsigned M = C_VERDICT | C_BYTES | C_SYMS | C_REPORT;
	r.sample("L NOP / JMP F / .END / garbage"); r.sample("BNE U (never defined) -> exit 1, no report");
	Alphabet a;
	a.lines = {" NOP", "L LDA #1", " STA $1234", " JMP F", " BNE F", "F RTS", "K = 5", ".DEFINE M 9", " LDA K", " JSR L", ".ORG $10", "*=$40", ".END", " LDA U", " NOP NOP", " STA #1", "?", " LDA $10000", ";c"};
	explore(r, "programs", a, M, cfg.thorough() ? 5 : 4, cfg.thorough() ? 7 : 6, true);
	Alphabet b;
	b.lines = {" BNE F", " BEQ L", " JMP (F)", "F", "L:", ".ORG $100", "F = 3", " ASL A", ".END", "\tLDX $12 , Y ; c", ".ORG", "l NOP"};
	explore(r, "references", b, M, cfg.thorough() ? 6 : 5, cfg.thorough() ? 8 : 6, true);
	// every rejected line in every context, and as the last line in several layouts
	vector<string> bad;
	for (auto x : bad14) bad.push_back(x);
	for (auto x : late14) bad.push_back(x);
	r.phase("every rejected line in context", bad.size(), [&](Worker &w, u64 u) {
		string pro = "FARB = $4000\nFAR = $2000\nD = $10\n";
		for (const char *before : {"", " NOP\n", "Q JMP Q\n", "; c\n\n", " JMP LATER\n", " BNE LATER\n BEQ LATER\n"})
			for (const char *after : {"", "\n", "\n NOP\n", "\n.END\n", " ; c\n\n", "\n.ORG $3000\nLATEFAR\nLATER RTS\n", "\nLATER = $5\n NOP NOP\n", "\r\n NOP\r\n"})
				if (!w.verify(pro + before + bad[u] + after, M, "rejected line")) return;
	});
	auto ops = opcodeLines();
	r.phase("every opcode counted", ops.size(), [&](Worker &w, u64 u) {
		for (auto &o : ops) {
			if (!w.verify(ops[u] + "\n" + o + "\n", M, "count")) return;
			if (!w.verify(".ORG $1000\nL: " + ops[u] + "\nM " + o + "\nN\n", M, "count")) return;
		}
		for (int k : {3, 100, 257}) { string s; for (int i = 0; i < k; i++) s += ops[u] + "\n"; if (!w.verify(s, M, "count")) return; }
	});
	u64 N = cfg.thorough() ? 4000 : 1000;
	r.phase("every code size and symbol count", N, [&](Worker &w, u64 u) {
		string s, t, v;
		for (u64 i = 0; i < u; i++) { s += " NOP\n"; t += "K" + std::to_string(i) + (i % 3 ? " = 5\n" : " LDA #1\n"); v += i % 2 ? " JMP E\n" : " BNE N" + std::to_string(i) + "\nN" + std::to_string(i) + "\n"; }
		if (!w.verify(s, M, "size")) return;
		if (!w.verify(s + ".END\n" + s, M, "size")) return;
		if (u < 700 || u % 10 == 0) { if (!w.verify(t, M, "symbols")) return; if (!w.verify(v + "E\n", M, "references")) return; }
	});
	r.phase("large code sizes", 64, [&](Worker &w, u64 u) {
		u64 n = 65536 - u * 1021 - u % 3;
		string s;
		for (u64 left = n; left;) { u64 k = left >= 3 ? 3 : left; s += k == 3 ? "JMP 0\n" : k == 2 ? "LDA 1\n" : "NOP\n"; left -= k; }
		w.verify(s, M, "large size");
	});
	// every kind of statement late in the program, around every power of two
	vector<string> late = {" NOP", " LDA #1", " STA $1234", " JMP FW", " JSR FW", " JMP (FW)", " BNE FW", "L2 NOP", "L3:", " JMP BK", " LDX K", " BNE -2", "K2 = 7", "; text", ""};
	vector<unsigned> sizes = {16, 250, 4094, 30000, 32760, 33004, 40000, 65000};
	for (unsigned p = 8; p <= 15; p++) for (int d = -3; d <= 3; d++) sizes.push_back((1u << p) + d);
	r.phase("every statement after many bytes", sizes.size() * late.size(), [&](Worker &w, u64 u) {
		unsigned n = sizes[u / late.size()];
		string head = "BK\nK = 9\n";
		for (unsigned left = n; left;) { unsigned k = left >= 3 ? 3 : left; head += k == 3 ? "JMP 0\n" : k == 2 ? "LDA 1\n" : "NOP\n"; left -= k; }
		for (size_t j = 0; j < late.size(); j++) {
			if (!cfg.thorough() && j % 4 != u % 4 && j != u % late.size()) continue;
			if (!w.verify(head + late[u % late.size()] + "\n" + late[j] + "\nFW\n RTS\n", M, "late statement")) return;
			if (!w.verify(head + late[u % late.size()] + "\n" + (late[j][0] == 'L' || late[j][0] == 'K' ? "" : late[j]) + "\n" + late[u % late.size()].substr(late[u % late.size()][0] == ' ' ? 0 : late[u % late.size()].size()) + "\nFW\n NOP\n", M, "late statements")) return;
		}
	});
	manyStatements(r, C_VERDICT | C_BYTES | C_SYMS | C_REPORT);
}

vector<string> faultPrograms()
{
	vector<string> v = {
		"", " NOP\n", "; only a comment", "L LDA #1\n STA $1234\n JMP L\n", " JMP F\n BNE F\nF RTS\n", ".ORG $20\n JMP F\n.ORG $10\nF NOP\n JSR F\n",
		"K = 5\n.DEFINE M $1234\nN .EQU %11\n LDA K\n STA M,X\n LDX N,Y\n.END\ngarbage (\n",
		" LDA U\n", " NOP NOP\n", " JMP U\n", "L NOP\nL NOP\n", " BNE F\n.ORG $200\nF NOP\n", "?\n", "*=$3000\n NOP\n",
	};
	string many, refs, big;
	for (int i = 0; i < 40; i++) { many += "SYM" + std::to_string(i) + " = " + std::to_string(i) + "\n"; refs += " JMP R" + std::to_string(i % 3) + "\n"; }
	v.push_back(many + " LDA SYM39\n");
	v.push_back(refs + "R0\nR1 NOP\nR2 = 7\n");
	for (int i = 0; i < 900; i++) big += i % 3 ? " LDA #1 ; filler to make the source longer\n" : "B" + std::to_string(i) + " JMP B" + std::to_string(i) + "\n";
	v.push_back(big);
	v.push_back(" NOP ;" + string(300, 'c') + "\n RTS\n");
	return v;
}

void cli_faults(Run &r);

void prop_c16(Run &r)
{
	r.level = "fault_enumeration";
	r.rule = "For each sample program: every I/O call of the run (open, read, write, position, close) failing alone, every pair failing, and every one failing together with all later ones; every uniform read size; every way of cutting short sources into reads and every pair of cut positions of longer ones. On the real program: every file-size limit, a full device, a directory and an unreadable file as source, an unwritable output.";
	r.sample("call 17 [write output] fails -> exit 1, no report"); r.sample("reads of 3, 1, 4, 1, 5, ... bytes -> same result");
	auto progs = faultPrograms();
	r.phase("single and cumulative failures", progs.size(), [&](Worker &w, u64 u) {
		Outcome o; w.sut->run(progs[u], o);
		int n = o.ioCalls;
		// big programs: every call up to 400 and from the end, a stride between
		for (int i = 0; i < n + 2; i++) {
			if (!cfg.thorough() && n > 1500 && i > 300 && i < n - 300 && i % 11) continue;
			for (int on = 0; on < 2; on++) {
				Plan p; p.failIo[0] = i; p.failIoOn = on;
				if (!w.faultIo(progs[u], p, "failing call")) return;
			}
		}
	});
	static const int errs[] = {EINTR, EAGAIN, EPIPE, EFBIG, EDQUOT, EBADF, EINVAL, ESPIPE, EISDIR, ENOMEM, EROFS, EPERM, ENOENT, EMFILE, ENFILE, ENXIO, EBUSY, ETXTBSY, ENODEV, ETIMEDOUT, EOVERFLOW, EIO, ENOSPC, EACCES, EEXIST, ELOOP, ENAMETOOLONG, ENOTDIR, ESTALE, ECANCELED, ENOTSUP};
	const int NE = sizeof errs / sizeof *errs;
	r.phase("every failing call for every reason", progs.size() * (NE + 1), [&](Worker &w, u64 u) {
		const string &s = progs[u / (NE + 1)];
		Outcome o; w.sut->run(s, o);
		int n = o.ioCalls;
		for (int i = 0; i < n + 2; i++) {
			if (!cfg.thorough() && i > 60 && i < n - 60 && i % (1 + n / 100)) continue;
			for (int on = 0; on < 2; on++) {
				Plan p; p.failIo[0] = i; p.failIoOn = on;
				p.part = u % (NE + 1) == NE;
				p.err = p.part ? on ? ENOSPC : EFBIG : errs[u % (NE + 1)];
				if (!w.faultIo(s, p, "failing call and reason")) return;
			}
		}
	});
	r.phase("pairs of failures", progs.size() * 64, [&](Worker &w, u64 u) {
		const string &s = progs[u / 64];
		Outcome o; w.sut->run(s, o);
		int n = std::min(o.ioCalls, cfg.thorough() ? 400 : 120);
		for (int i = u % 64; i < n; i += 64) for (int j = i + 1; j < n + 1; j++) {
			Plan p; p.failIo[0] = i; p.failIo[1] = j;
			if (!w.faultIo(s, p, "two failing calls")) return;
		}
	});
	r.phase("uniform read sizes", progs.size() * 256, [&](Worker &w, u64 u) {
		const string &s = progs[u / 256];
		for (u64 k = u % 256 + 1; k <= s.size() + 1 && k < (cfg.thorough() ? 40000 : 2000); k += 256) {
			Plan p; p.readChunk = k;
			if (!w.faultIo(s, p, "short reads")) return;
		}
	});
	vector<string> tiny = {" NOP\nL JMP L\n", "K=5\n", "L:\n\n LDA #$1\n", " BNE F\nF\n", ";c\r\n RTS", "A1 = 5\n LDX A1"};
	r.phase("every way of cutting a short source into reads", tiny.size() * 64, [&](Worker &w, u64 u) {
		const string &s = tiny[u / 64];
		u64 bits = s.size() - 1;
		for (u64 m = u % 64; m < (1ull << bits); m += 64) {
			Plan p; int run = 1;
			for (u64 b = 0; b < bits; b++) { if (m >> b & 1) { p.cuts.push_back(run); run = 1; } else run++; }
			p.cuts.push_back(run);
			if (!w.faultIo(s, p, "cut reads")) return;
			if (w.stopped()) return;
		}
	});
	r.phase("pairs of cut positions", progs.size() * 32, [&](Worker &w, u64 u) {
		const string &s = progs[u / 32];
		if (s.size() > 255) return;
		for (u64 i = 1 + u % 32; i < s.size(); i += 32) for (u64 j = i + 1; j < s.size(); j++) {
			Plan p; p.cuts = {(uint8_t)i, (uint8_t)(j - i)};
			if (!w.faultIo(s, p, "two cuts")) return;
			p.failIo[0] = 2 + (int)(j % 4);
			if (!w.faultIo(s, p, "cuts and a failing call")) return;
		}
	});
	cli_faults(r);
}

void prop_c17(Run &r)
{
	r.level = "fault_enumeration";
	r.rule = "For each sample program, every memory allocation of the run failing alone and failing together with all later ones, on a build with address and undefined-behaviour checkers.";
	r.sample("allocation 23 fails -> exit 1, message names memory"); 
	auto progs = faultPrograms();
	string deep;
	for (int i = 0; i < 200; i++) deep += "LABEL_" + std::to_string(i) + ": JMP T" + std::to_string(i % 70) + "\n";
	for (int i = 0; i < 70; i++) deep += "T" + std::to_string(i) + " = " + std::to_string(i) + "\n";
	progs.push_back(deep);
	auto ops = opcodeLines();
	string every;
	for (size_t i = 0; i < ops.size(); i++) every += (i % 5 ? "" : "OP" + std::to_string(i)) + ops[i] + "\n";
	progs.push_back(every);
	r.phase("every allocation of the sample programs", progs.size() * 16, [&](Worker &w, u64 u) {
		const string &s = progs[u / 16];
		Outcome o; w.sut->run(s, o);
		for (int i = u % 16; i < o.allocs + 1; i += 16) for (int on = 0; on < 2; on++) {
			Plan p; p.failAlloc = i; p.failAllocOn = on;
			if (!w.faultAlloc(s, p, "failing allocation")) return;
		}
	});
	// all two-line programs over allocating statements
	vector<string> l = {"L NOP", "K = 5", ".DEFINE M 7", " JMP F", " BNE F", " JSR (F)", "F RTS", " LDA #1", " LDA U", "F .EQU 9", " JMP G", ".END", "L NOP NOP"};
	u64 n = l.size();
	r.phase("all short programs, every allocation", n * n * n, [&](Worker &w, u64 u) {
		string s = l[u % n] + "\n" + l[u / n % n] + "\n" + l[u / n / n] + "\n";
		Outcome o; w.sut->run(s, o);
		int from = 0;
		for (int i = from; i < o.allocs; i++) for (int on = 0; on < 2; on++) {
			if (!cfg.thorough() && i < o.allocs - 16 && u % 97) continue;
			Plan p; p.failAlloc = i; p.failAllocOn = on;
			if (!w.faultAlloc(s, p, "failing allocation")) return;
		}
	});
	// growth points of both tables
	r.phase("every growth point", cfg.thorough() ? 400 : 100, [&](Worker &w, u64 u) {
		string a, b;
		for (u64 i = 0; i <= u; i++) { a += "S" + std::to_string(i) + " = 1\n"; b += " JMP E\n"; }
		for (const string &s : {a, b + "E NOP\n"}) {
			Outcome o; w.sut->run(s, o);
			for (int i = std::max(0, o.allocs - 10); i < o.allocs; i++) for (int on = 0; on < 2; on++) {
				Plan p; p.failAlloc = i; p.failAllocOn = on;
				if (!w.faultAlloc(s, p, "growth")) return;
			}
		}
	});
	// a shortage that only larger requests meet
	string many2;
	for (int i = 0; i < 300; i++) many2 += "SYMBOL" + std::to_string(i) + " = " + std::to_string(i) + "\n JMP R" + std::to_string(i % 50) + "\n";
	for (int i = 0; i < 50; i++) many2 += "R" + std::to_string(i) + ":\n NOP\n";
	progs.push_back(many2);
	string fresh; for (int i = 0; i < 120; i++) fresh += "N" + std::to_string(i) + "\n";
	progs.push_back(fresh);
	r.phase("all requests of some size or more", progs.size() * 8, [&](Worker &w, u64 u) {
		for (int z = 1 + u % 8; z < 20000; z += z < 1024 ? 8 : z < 4096 ? 64 : 1024) {
			Plan p; p.failSize = z;
			if (!w.faultAlloc(progs[u / 8], p, "requests of this size fail")) return;
		}
	});
	r.phase("growth with larger requests failing", cfg.thorough() ? 300 : 90, [&](Worker &w, u64 u) {
		string a, b;
		for (u64 i = 0; i <= u; i++) { a += "S" + std::to_string(i) + " = 1\n"; b += " JMP E" + std::to_string(i % 7) + "\n"; }
		for (int z = 8; z < 6000; z += z < 64 ? 8 : z / 8) {
			Plan p; p.failSize = z;
			for (const string &s : {a, b + "E0 NOP\n", a + b}) if (!w.faultAlloc(s, p, "larger requests fail")) return;
		}
	});
	r.phase("every two allocations", n * n, [&](Worker &w, u64 u) {
		string s = l[u % n] + "\n" + l[u / n % n] + "\n";
		Outcome o; w.sut->run(s, o);
		for (int i = 0; i < o.allocs; i++) for (int j = i + 1; j < o.allocs + 4; j++) {
			if (!cfg.thorough() && i < o.allocs - 12 && (i + j + u) % 5) continue;
			Plan p; p.failAlloc = i; p.failAlloc2 = j;
			if (!w.faultAlloc(s, p, "two failing allocations")) return;
		}
	});
}

void prop_c18(Run &r)
{
	r.rule = "All byte strings up to the stated length over an alphabet that covers every character class (NUL and 255 included), in several contexts; every length of every token kind and line; every table size; code and labels beyond $FFFF; every single-byte change of sample programs. Runs on a build with address and undefined-behaviour checkers.";
	const unsigned M = C_TERM | C_REPORT;
	static const char al[] = {'L', 'A', 'X', '1', '$', '%', '#', '(', ')', ',', '=', '*', '.', ':', ';', ' ', '\t', '\n', '\r', '\0', '\xff', '_', '?', '\x80'};
	const u64 n = sizeof al;
	int deep = cfg.thorough() ? 5 : 4;
	r.sample("\\x00\\n\\xff:"); r.sample(". (64 to 300 letters)");
	r.phase("all byte strings up to " + std::to_string(deep), n * n * n, [&](Worker &w, u64 u) {
		string p = {al[u / n / n], al[u / n % n], al[u % n]};
		if (u % n == 0) { if (!w.verify(p.substr(0, 2), M) || (u % (n * n) == 0 && !w.verify(p.substr(0, 1), M))) return; }
		if (!w.verify(p, M) || !w.verify(p + "\n", M)) return;
		for (u64 i = 0; i < n; i++) {
			string q = p + al[i];
			if (!w.verify(q, M) || !w.verify(" NOP " + q + "\n", M) || !w.verify("LDA ($1" + q + "\n", M)) return;
			if (!w.verify("L" + q + "= 5\nJMP L\n" + q, M)) return;
			if (deep > 4) for (u64 j = 0; j < n; j++) if (!w.verify(q + al[j], M)) return;
		}
	});
	vector<string> words = {"LDA", "JMP", "BNE", "NOP", "L", "M", "#", "(", ")", ",", "X", "Y", "A", "=", "*", ".ORG", ".END", ".EQU", ".DEFINE", "$FFFF", "0", "\n", ";", ":"};
	u64 nw = words.size();
	r.phase("all token strings of up to 4", nw * nw * nw, [&](Worker &w, u64 u) {
		string s = words[u / nw / nw] + " " + words[u / nw % nw] + " " + words[u % nw];
		if (!w.verify(s, M)) return;
		for (auto &x : words) if (!w.verify(s + " " + x, M)) return;
	});
	u64 LEN = cfg.thorough() ? 1200 : 330;
	r.phase("every token and line length", LEN, [&](Worker &w, u64 u) {
		auto go = [&](const string &s) {
			return w.verify(s, M) && w.verify(s + "\n", M) && w.verify(" NOP\n" + s + "\n NOP\n", M) && w.verify(s + ":", M) && w.verify(s + " NOP", M) && w.verify("JMP " + s + "\n", M) && w.verify("JMP " + s + "\n" + s, M) && w.verify("LDA (" + s + "),Y", M) && w.verify(" " + s + " NOP NOP ?\n", M);
		};
		for (char c : {'L', '0', '9', '_', '.', ' ', '\t', ';', ':', '\xff', '\x80', '\r', '\0', '#', '(', ',', '*', '$', '%', '='})
			if (!go(string(u, c)) || !go("L" + string(u, c)) || !go("." + string(u, c)) || !go("$" + string(u, c)) || !go("1" + string(u, c))) return;
		if (!go("." + string(u, 'A')) || !go("LDA #$" + string(u, 'F')) || !go("%" + string(u, '1'))) return;
		if (!w.verify(string(u, ' ') + "BNE U" + string(u, ' '), M) || !w.verify(string(u, '\n') + "JMP U" + string(u, ' ') + "\r\n", M)) return;
	});
	r.phase("table sizes and location-counter edges", cfg.thorough() ? 700 : 260, [&](Worker &w, u64 u) {
		string a, b, c;
		for (u64 i = 0; i < u; i++) { a += "S" + std::to_string(i) + "\n"; b += " JMP F" + std::to_string(i) + "\n"; c += " BNE E\n"; }
		if (!w.verify(a, M) || !w.verify(b, M) || !w.verify(b + a, M) || !w.verify(c + "E", M) || !w.verify(c, M)) return;
		for (const char *l : {"NOP", "LDA #1", "JMP L", "BNE L", "BNE F", "JMP F", "L2 JMP L2"}) {
			string s = ".ORG $FFFF\nL:\n";
			for (u64 i = 0; i < u % 9; i++) s += string(l[0] == 'L' && l[1] == '2' && i ? "NOP" : l) + "\n";
			if (!w.verify(s, M) || !w.verify(s + "F:\nG JMP L\n BEQ F\n JMP (F)\n", M) || !w.verify("F = 0\n" + s, M)) return;
		}
	});
	auto progs = faultPrograms();
	for (auto &e : exampleSources()) progs.push_back(e);
	r.phase("every single-byte change of sample programs", progs.size() * 64, [&](Worker &w, u64 u) {
		const string &s = progs[u / 64];
		u64 step = s.size() > 2000 ? (cfg.thorough() ? 3 : 41) : s.size() > 400 ? (cfg.thorough() ? 1 : 5) : 1;
		for (u64 p = u % 64 * step; p < s.size(); p += 64 * step) {
			for (char c : al) {
				string t = s; t[p] = c;
				if (!w.verify(t, M)) return;
				if (s.size() < 400) { t = s; t.insert(p, 1, c); if (!w.verify(t, M)) return; }
			}
			string t = s; t.erase(p, 1);
			if (!w.verify(t, M) || !w.verify(s.substr(0, p), M) || !w.verify(s.substr(p), M)) return;
			if (w.stopped()) return;
		}
	});
	vector<string> bad;
	for (auto x : bad14) bad.push_back(x);
	for (auto x : late14) bad.push_back(x);
	r.phase("every diagnostic path", bad.size(), [&](Worker &w, u64 u) {
		string pro = "FARB = $4000\nFAR = $2000\nD = $10\n";
		for (const char *in : {"", " ", "\t", "  \t  "}) for (const char *tail : {"", "\n", " ", " \t \n", "\r\n", ";c", " \r", "\xff", "  \xff\n", "\xff\xff"})
			if (!w.verify(pro + in + bad[u] + tail, M) || !w.verify(string(in) + bad[u] + tail, M) || !w.verify(string(in) + bad[u] + tail + ".ORG $3000\nLATEFAR", M)) return;
	});
	vector<string> big;
	{
		string a, b, c;
		u64 N = cfg.thorough() ? 30000 : 9000;
		for (u64 i = 0; i < N; i++) { a += "SY" + std::to_string(i) + " = 5\n"; b += " JMP SY" + std::to_string(i) + "\n"; c += "garbage "; }
		big = {a, b, b + a, c, string(1 << 20, 'L'), string(1 << 20, ' '), string(1 << 20, '\n'), string(1 << 20, ';'), "JMP U" + string(1 << 19, ' ') + "\n", string(1 << 19, '\t') + "NOP NOP\n", string(300000, '\0'), " JMP U ;" + string(9 << 20, 'x'), string(9 << 20, ' ') + "NOP NOP", "LDA #" + string(9 << 20, '0')};
		// more of everything than a stack has room for
		string d, e, f, g;
		N = cfg.thorough() ? 1000000 : 200000;
		for (u64 i = 0; i < N; i++) { d += "*=0\n JMP F\n"; e += "*=0\n BNE U\n"; f += "S" + std::to_string(i) + " NOP\n*=0\n"; g += ";\n"; }
		for (const string &x : {d + "F", d, e, e + "U\n", f, f + "S5 NOP\n", g + " NOP NOP", d + "?"}) big.push_back(x);
	}
	r.phase("large sources", big.size(), [&](Worker &w, u64 u) { w.verify(big[u], M, "large"); });
}

// texts whose lines are many or long
const vector<string> &longTails()
{
	static const vector<string> v = [] {
		vector<string> t;
		auto rep = [](const string &s, size_t n) { string r; for (size_t i = 0; i < n; i++) r += s; return r; };
		for (size_t p = 128; p <= (1u << 20); p *= 2) for (int d : {-1, 0, 1}) for (const char *s : {"x", " ", ";", "LDA #1,"}) t.push_back(rep(s, (p + d) / strlen(s)) + (d ? "\n" : ""));
		for (size_t n : {255, 256, 257, 999, 1000, 1001, 4096, 9999, 10000, 10001, 32767, 32768, 65535, 65536, 65537, 99999, 100000, 100001, 131073, 262145, 1000001}) for (const char *s : {"\n", "\r\n", ";\n", " NOP\n"}) if (n < 140000 || s[0] == '\n') t.push_back(rep(s, n));
		for (size_t n : {21846, 21845, 22000, 30000}) t.push_back(rep("STA $A55A\n", n));
		for (size_t n : {300, 1100, 5000, 40000}) { string s; for (size_t i = 0; i < n; i++) s += "ZZ" + std::to_string(i) + " = 1\n"; t.push_back(s); s.clear(); for (size_t i = 0; i < n / 4; i++) s += "JMP YY" + std::to_string(i) + "\n"; t.push_back(s); }
		t.push_back(rep(".ORG $FFF0\n NOP\n.ORG 0\n", 3000));
		return t;
	}();
	return v;
}

void prop_c19(Run &r)
{
	r.level = "model_checking";
	r.rule = "All programs up to the stated length with .END anywhere, legal statements, every kind of error and garbage before and after it, then breadth-first over distinct model states; every statement of every kind and every byte after .END; text that contains END without being the directive; long text after .END.";
	const unsigned M = C_VERDICT | C_IMAGE | C_SYMS | C_BYTES;
	r.sample("JMP F / .END / F NOP  (rejected: F is not defined before .END)"); r.sample("NOP / .end ; x / ((((");
	Alphabet a;
	a.lines = {".END", "\t.end ; x", " NOP", "L LDA #1", " JMP F", " BNE F", "F RTS", "F = 5", " NOP NOP", "?", ".ORG $30", " LDA U", ".END 5", "L"};
	explore(r, "programs", a, M, cfg.thorough() ? 6 : 5, cfg.thorough() ? 8 : 6);
	vector<string> post;
	for (auto x : bad14) post.push_back(x);
	for (auto x : late14) post.push_back(x);
	for (auto &x : opcodeLines()) post.push_back(x);
	for (auto x : stmts13) post.push_back(x);
	vector<string> pre = {"", " NOP\n", "L NOP\n", "D = $10\n", " JMP F\nF RTS\n", " JMP F\n", " BNE F\n", "F\n BEQ F\n", ".ORG $20\n ASL\n", "; c\n\n"};
	for (auto &x : opcodeLines()) pre.push_back(x + "\n");
	vector<string> ends = {".END", ".end", " .End", "\t.END\t", ".END;", ".END ; NOP", ".END\r", "  .eND  "};
	r.phase("everything after .END", post.size(), [&](Worker &w, u64 u) {
		for (size_t i = 0; i < pre.size(); i++)
			for (size_t e = 0; e < ends.size(); e++) {
				if (i >= 10 && e) break;
				if (!w.verify(pre[i] + ends[e] + "\n" + post[u] + "\n", M, "after .END")) return;
				if (!w.verify(pre[i] + ends[e] + "\n\n" + post[u] + "\n.END\n" + post[u], M, "after .END")) return;
				if (!w.verify(post[u] + "\n" + pre[i] + ends[e] + "\n" + post[(u + 1) % post.size()] + "\n", M, "around .END")) return;
			}
	});
	// text that looks like .END and is not, or is in a comment
	vector<string> before = {"", ";", "; ", ";;", " ;", "\t; ", ";x", "; NOP ", "NOP ;", "L:;", "L ;", "LDA #1;", "LDA #1 ; ", ".", "*", "#", "(", "L ", "L: ", "X ", "NOP ", "LDA ", "LDA #", ".ORG ", ".DEFINE ", "KK = ", "5 ", ".END ", ";.END ", "; .END;", "\\", "\"", "'", "* ", "=", "K .EQU ", ","};
	vector<string> word = {".END", "END", ".end", ".EN", ".E", ".ENDX", ".END5", ".EEND", ".END.", "..END", ". END", "EN.D", ".END_", ".END:", "END.", "_END", "*END", "#END", "@END", "!END", ".ENDS", ".ENDM", ".endif", "end:", ".EnD"};
	vector<string> behind = {"", " ", ";", " ; x", ",", " 5", " L", "=5", " = 5", ":", " NOP", "\t", " .END", ")", "#"};
	r.phase("what is not .END", before.size() * word.size(), [&](Worker &w, u64 u) {
		for (auto &b : behind) {
			string l = before[u / word.size()] + word[u % word.size()] + b;
			for (const char *pre : {"", "Q NOP\n", " JMP F\n", "\n; c\n"})
				for (const char *post : {"\n RTS\nF NOP\n", "\r\n LDA (\n", "\n\n.END\n ?\n", ""})
					if (!w.verify(pre + l + post, M, "like .END")) return;
		}
	});
	r.phase("every byte after .END", 255 * 8, [&](Worker &w, u64 u) {
		char c = (char)(u / 8 + 1);
		if ((unsigned char)c == 255 || c == '\r' || c == '\n') return;
		string e = ends[u % 8] + "\n";
		for (const char *p : {"", " NOP\n", " JMP F\nF\n"})
			for (const string &q : {string(1, c), string(3, c) + "\n", string(" ") + c, string("NOP") + c + "\n", string(200, c) + "\n NOP\n", "; " + string(1, c)})
				if (!w.verify(p + e + q, M, "byte after .END")) return;
	});
	// all sequences of lines after .END
	static const vector<string> more = {".END\n", "\t.END\n", ".end ; c\r\n", "END\n", ".END 5\n", " .END", " NOP\n", "L NOP\n", "L = 1\n", " JMP L\n", ".ORG $9000\n", "\n", ";\n", "(\n", "*\n", ".DEFINE L 5\n", string(70, 'Q') + "\n"};
	const u64 NM = more.size();
	r.phase("all sequences of lines after .END", NM * NM * NM, [&](Worker &w, u64 u) {
		string t = more[u % NM] + more[u / NM % NM] + more[u / NM / NM];
		for (const char *p : {" NOP\n.END\n", "L LDX #3\n JMP L\n.end\n", " JMP L\n.END ; c\n", "\t.End\r\n", "L .EQU 7\n*=$20\n LDA L\n \t.END\t\n", " BNE U\n.END;\n", " NOP NOP\n.END\n"})
			if (!w.verify(p + t, M, "lines after .END")) return;
		if (cfg.thorough() || u % 5 == 0) for (auto &x : more) if (!w.verify("L NOP\n.END\n" + t + x, M, "lines after .END") || !w.verify("L NOP\n.END\n" + t + x + t + x, M, "lines after .END")) return;
	});
	r.phase("long text after .END", 600, [&](Worker &w, u64 u) {
		string t;
		for (u64 i = 0; i < u; i++) t += i % 5 == 0 ? " NOP\n" : i % 5 == 1 ? "(((\n" : i % 5 == 2 ? "L NOP\n" : i % 5 == 3 ? string(i % 300, 'x') + "\n" : ".ORG $FFFF\n LDA $12345\n";
		for (const char *p : {"", "L NOP\n", " JMP L\nL\n", " JMP L\n"}) if (!w.verify(p + string(".END\n") + t, M, "long")) return;
	});
	r.phase("very long text after .END", longTails().size(), [&](Worker &w, u64 u) {
		for (const char *p : {"", "L NOP\n", " JMP L\nL\n", " JMP L\n", " NOP NOP\n"}) if (!w.verify(p + string(".END\n") + longTails()[u], M, "very long")) return;
	});
}
