// Small core programs placed in every context of a matrix: what precedes and
// follows them, where they lie, how their labels are named and how the text is
// written. Each dimension is swept alone, then every pair of dimensions.
#include "props.h"

namespace {
struct Ctx {
	int sym = 0;        // symbols defined before the core
	int pend = 0;       // references pending throughout the core
	int lines = 0;      // blank and comment lines before the core
	int base = 0x200;   // where the core lies; -1: no .ORG at all
	int nlen = 2;       // length of the core's label names
	int nsch = 0;       // how these names differ
	int fmt = 0;        // text format of the core
	int pre = 0;        // statement right before the core
	int post = 0;       // what follows the core
	int fill = 0;       // bytes of code before the core
	const string *const *names = nullptr;   // other names for the three labels
};
const int NFMT = 27, NPOST = 8, NSCH = 10;

const vector<string> &preLines()
{
	static vector<string> v = {"", "QA NOP\n", "QA:\n", "QA = $FFFF\n", ".DEFINE QA 0\n", " LDA ($12,X)\n", " STA $1234,Y ; c\n", " JMP (QF)\n", " BNE *\n", " ROR A\n",
		" LDA #$FF;" + string(300, 'x') + "\n", string(300, ' ') + "NOP\n", ";" + string(70, ';') + "\n", " JMP QF\n", " STX $F0 , Y\n",
		"QAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAA .EQU %1111111111111111\n", " CMP (255),Y\n", "; .END\n", "; c \\\n", " NOP ;(\n", ";,\n", "\t\t\n", " \r\n", " LDY QB,X\n"};
	return v;
}

string nameOf(int len, int sch, int k)
{
	string s;
	switch (sch) {
	case 0: s = string(len, 'N'); s.back() = "PQR"[k]; break;                       // differ in the last character
	case 1: s = string(len, 'N'); s.front() = "PQR"[k]; break;                      // ... in the first
	case 2: s = string(len, 'N'); s[len / 2] = "PQR"[k]; break;                     // ... in the middle
	case 3: s = string(std::max(1, len - k), 'N'); if (s.size() == 1) s = string(1, "PQR"[k]); break;   // one begins the other
	case 4: s = "P" + string(len - 1, '_'); if (len > 1) s[len - 1] = "012"[k]; else s = string(1, "PQR"[k]); break;
	case 6: { static const char *const eq[] = {"CZCZ", "D9CZ", "CZD9"}; s = len < 4 ? nameOf(len, 0, k) : string(len - 4, 'N') + eq[k]; break; }   // equal djb2 hashes
	case 7: s = len < 4 ? nameOf(len, 0, k) : string(len - 3, 'N') + string(k, '0') + "7"; break;   // differ in leading zeros
	case 8: s = len < 3 ? nameOf(len, 0, k) : string(len - 3, 'N') + (k == 0 ? "PQR" : k == 1 ? "QRP" : "RPQ"); break;   // same characters
	case 9: s = len < 4 ? nameOf(len, 0, k) : "PQR"[k] + string(len - 3, '_') + "__"; break;   // end alike
	default: for (int i = 0; i < len; i++) s += (i * 7 + 3) % 26 + (i & 1 ? 'A' : 'a'); s[len / 3] = "PQR"[k]; break;
	}
	return s;
}

string number(int v) { return hexs(v & 0xFFFF); }

// {0} {1} {2}: labels; {B} {B+n} {B-n}: addresses relative to the core's place
string fillIn(const string &t, const Ctx &c)
{
	string s;
	int base = c.base < 0 ? 0 : c.base;
	for (size_t i = 0; i < t.size(); i++) {
		if (t[i] != '{') { s += t[i]; continue; }
		size_t e = t.find('}', i);
		string k = t.substr(i + 1, e - i - 1);
		if (k[0] == 'B') s += number(base + (k.size() > 1 ? atoi(k.c_str() + 1) : 0));
		else { string n = c.names ? *c.names[k[0] - '0'] : nameOf(c.nlen, c.nsch, k[0] - '0'); s += (i % 3 == 1) ? lower(n) : n; }
		i = e;
	}
	return s;
}

string format(const string &t, int f)
{
	string s;
	size_t p = 0;
	int ln = 0;
	while (p < t.size()) {
		size_t e = t.find('\n', p);
		string l = t.substr(p, e == string::npos ? e : e - p), o;
		p = e == string::npos ? t.size() : e + 1;
		ln++;
		auto gaps = [&](const string &g) { string q; for (char ch : l) if (ch == ' ') q += g; else q += ch; return q; };
		switch (f) {
		case 0: o = l + "\n"; break;
		case 1: o = l + "\r\n"; break;
		case 2: o = lower(l) + "\n"; break;
		case 3: o = l; for (char &ch : o) if (ch >= 'a' && ch <= 'z') ch -= 32; o += "\n"; break;
		case 4: o = gaps("\t") + "\t\n"; break;
		case 5: o = l + ";" + l + "\n"; break;
		case 6: o = "    " + gaps("    ") + "  ; x\n"; break;
		case 7: o = l + "\n\n;\n"; break;
		case 8: o = "\t" + gaps(" \t ") + " ; " + string(250, 'c') + "\n"; break;
		case 9: o = gaps(string(130, ' ')) + "\n"; break;
		case 10: o = (ln & 1 ? lower(l) : l) + (ln & 1 ? "\r\n" : "\n"); break;
		case 11: o = l + string(40, ' ') + "\n"; break;
		case 12: o = l + " ; it's \"x\\\n"; break;
		case 13: o = l + ";,\n"; break;
		case 14: o = l + " ;/* %s (\n"; break;
		case 15: o = "; .END\n" + l + "\n"; break;
		case 16: o = l + " ;\xef\xbb\xbf\t:\v\f\x1a\n"; break;
		case 18: case 19: case 20: case 21: case 22: case 23: case 24: case 25: { static const int w[] = {17, 33, 64, 210, 255, 300, 520, 1100}; o = (ln & 1 ? string(w[f - 18], ' ') : "") + gaps(string(w[f - 18], f & 1 ? '\t' : ' ')) + "\n"; break; }
		default: o = l + ";*/ " + l + ":\n;;" + l + " \\\n"; break;
		}
		s += o;
	}
	return s;
}

string build(const string &core, const Ctx &c)
{
	string s, tail;
	for (int i = 0; i < c.lines; i++) s += i % 5 == 4 ? ";x\n" : "\n";
	for (int i = 0; i < c.sym; i++)
		s += (i % 3 == 0 ? "SYM" : i % 3 == 1 ? "ZZZZZZZZZ_" : "S") + std::to_string(i) + (i & 1 ? " .EQU " : " = ") + std::to_string(i * 331 % 65536) + "\n";
	bool low = c.base < 0x6000;
	if (c.pend) {
		s += low ? ".ORG $A000\n" : ".ORG $1000\n";
		for (int i = 0; i < c.pend; i++) {
			if (i % 4 == 1) s += "BA" + std::to_string(i) + " BEQ BA" + std::to_string(i + 1) + "X\nBA" + std::to_string(i + 1) + "X\n";
			else if (i % 4 == 2) s += " JSR PEND" + std::to_string(i % 7) + "\n";
			else if (i % 4 == 3) s += " JMP (PEND" + std::to_string(i % 5) + ")\n";
			else s += " JMP PEND" + std::to_string(i % 7) + "\n";
		}
		for (int i = 0; i < 7 && i < c.pend + 1; i++) tail += "PEND" + std::to_string(i) + " = " + std::to_string(i * 4369 + 300) + "\n";
	}
	if (c.fill) {
		s += low ? ".ORG $C000\n" : ".ORG $3000\n";
		int n = c.fill;
		for (; n >= 3; n -= 3) s += " STA $A55A\n";
		for (; n; n--) s += " NOP\n";
	}
	const string &p = preLines()[c.pre];
	if (!p.empty()) {
		s += low ? ".ORG $7000\n" : ".ORG $0\n";
		if (p.find("QB") != string::npos) s += "QB = 5\n";
		s += p == " BNE *\n" ? " BNE $FE\n" : p;
		if (p.find("QF") != string::npos) tail += "QF = $ABCD\n";
	}
	if (c.base >= 0) s += ".ORG " + number(c.base) + "\n";
	string body = format(fillIn(core, c), c.fmt);
	s += body + tail;
	switch (c.post) {
	case 1: if (s.back() == '\n') s.pop_back(); break;
	case 2: s += ".END\n)garbage((\nP NOP\n"; break;
	case 3: s += ".END"; break;
	case 4: s += "\n\n\t\n;"; break;
	case 5: s += "AFTER NOP\n"; break;
	case 6: s += " JMP NOTHERE\n"; break;
	case 7: s += " NOP NOP\n"; break;
	}
	return s;
}
}

// names that are alike to hashes and comparisons
const vector<string> &alikeNames()
{
	static const vector<string> names = [] {
	vector<string> v = {"B", "C", "D9", "CZ", "EB", "FA", "AZ9", "B99", "AB", "BA", "ABC", "CBA", "BCA", "A_", "A0", "A_0", "A0_", "AA", "AAA", "AAAA", "Z", "ZZ", "ZZZ", "X0", "X00", "X000", "N1", "N10", "N100", "N01", "LOOP", "LOOP1", "LOOP2", "LOOP10", "POOL", "END", "END1", "STAR", "STAX", "LDAA", "JMPS", "BNEX", "CZCZ", "D9CZ", "CZD9", "D9D9", "QAZ", "QB9", "N001", "ADDR7", "ADDR07", "ADDR007", "LOOP_", "LOOP__", "L_P", "L__P", "LOOPA", "LOOPX", "LOOPY", "NOPE", "NO",
		string(31, 'M'), string(32, 'M'), string(33, 'M'), string(62, 'M'), string(63, 'M'), string(62, 'M') + "N", "N" + string(62, 'M'), string(31, 'M') + "N" + string(31, 'M')};
	for (int i = 0; i < 20; i++) { v.push_back(string(1, 'C' + i) + string(1, '0' + i % 10)); v.push_back(string(1, 'B' + i) + string(1, 'Q' + i % 10)); }
	std::sort(v.begin(), v.end());
	v.erase(std::unique(v.begin(), v.end()), v.end());
	return v;
	}();
	return names;
}

string buildPlain(const string &core) { return build(core, Ctx()); }

vector<string> allCores()
{
	vector<string> v;
	for (int k = 1; k <= NPROPS; k++) for (auto &c : coresFor(k)) v.push_back(build(c, Ctx()));
	std::sort(v.begin(), v.end());
	v.erase(std::unique(v.begin(), v.end()), v.end());
	return v;
}

void contexts(Run &r, unsigned mask, const vector<string> &cores, const vector<Plan> &plans)
{
	struct Dim { int Ctx::*m; vector<int> all, few; };
	vector<Dim> dims;
	auto range = [](int a, int b) { vector<int> v; for (int i = a; i <= b; i++) v.push_back(i); return v; };
	bool th = cfg.thorough();
	vector<int> sym = range(0, th ? 200 : 42), pend = range(0, th ? 140 : 36), nlen = range(1, 63);
	for (int x : {79, 80, 81, 162, 163, 164, 330, 673}) sym.push_back(x);
	for (int x : {63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512}) pend.push_back(x);
	dims.push_back({&Ctx::sym, sym, {9, 18, 41}});
	dims.push_back({&Ctx::pend, pend, {1, 2, 8, 17}});
	vector<int> lines = range(1, cfg.asan ? 12 : 72);
	for (int x : {99, 126, 127, 128, 253, 254, 255, 256, 257, 511, 999, 1023, 1024, 4095, 32766, 32767, 65534, 65535}) lines.push_back(x);
	dims.push_back({&Ctx::lines, lines, {1, 127, 255}});
	dims.push_back({&Ctx::base, {-1, 0, 1, 2, 0x7D, 0x7E, 0x7F, 0x80, 0xFB, 0xFC, 0xFD, 0xFE, 0xFF, 0x100, 0x101, 0x1FD, 0x1FE, 0x1FF, 0x3FE, 0x400, 0xFFE, 0xFFF, 0x1FFF, 0x2000, 0x4000, 0x7DFE, 0x7F80, 0x7FFD, 0x7FFE, 0x7FFF, 0x8000, 0x80FF, 0xD8F0, 0xFDFF, 0xFE00}, {-1, 0xFD, 0x7FFE, 0xFD00}});
	dims.push_back({&Ctx::nlen, nlen, {1, 7, 31, 32, 33, 63}});
	dims.push_back({&Ctx::nsch, range(1, NSCH - 1), {1, 3, 6}});
	dims.push_back({&Ctx::fmt, range(1, NFMT - 1), {1, 2, 4, 8, 12}});
	dims.push_back({&Ctx::pre, range(1, (int)preLines().size() - 1), {3, 7, 10}});
	dims.push_back({&Ctx::post, range(1, NPOST - 1), {1, 2, 6}});
	dims.push_back({&Ctx::fill, {1, 2, 3, 84, 85, 126, 127, 128, 253, 254, 255, 256, 257, 510, 512, 1022, 1024, 1026, 2048, 4095, 4096, 4097, 8000}, {1, 255, 1024}});
	vector<Ctx> cs(1);
	for (auto &d : dims) for (int v : d.all) { Ctx c; c.*d.m = v; cs.push_back(c); }
	// names: every length with every way of differing
	for (int n : nlen) for (int k = 1; k < NSCH; k++) { Ctx c; c.nlen = n; c.nsch = k; cs.push_back(c); }
	for (size_t i = 0; i < dims.size(); i++)
		for (size_t j = i + 1; j < dims.size(); j++)
			for (int v : dims[i].few) for (int x : dims[j].few) { Ctx c; c.*dims[i].m = v; c.*dims[j].m = x; cs.push_back(c); }
	if (th || !cfg.asan)
		for (size_t i = 0; i < dims.size(); i++)
			for (size_t j = i + 1; j < dims.size(); j++)
				for (size_t k = j + 1; k < dims.size(); k++)
					for (int v : dims[i].few) for (int x : dims[j].few) for (int y : dims[k].few) { Ctx c; c.*dims[i].m = v; c.*dims[j].m = x; c.*dims[k].m = y; cs.push_back(c); }
	const vector<string> &names = alikeNames();
	if (!cfg.asan || th) r.phase("core programs under alike names", names.size(), [&](Worker &w, u64 u) {
		for (size_t i = 0; i < names.size(); i++) {
			if (i == u) continue;
			for (auto &k : cores) {
				bool two = k.find("{1}") != string::npos;
				if (k.find("{0}") == string::npos || (!two && i != (u + 1) % names.size())) continue;
				Ctx c;
				const string *nm[3] = {&names[u], &names[i], &names[(i + u + 1) % names.size()]};
				if (nm[2] == nm[0] || nm[2] == nm[1]) nm[2] = &names[(i + u + 2) % names.size()];
				if (nm[2] == nm[0] || nm[2] == nm[1]) nm[2] = &names[(i + u + 3) % names.size()];
				c.names = nm;
				string t = build(k, c);
				if (plans.empty() && !w.verify(t, mask, "alike names")) return;
				for (auto &p : plans) if (!(p.fill ? w.steady(t, p, "alike names") : w.verify(t, mask, "alike names", "p.asm", &p))) return;
			}
			if (w.stopped()) return;
		}
	});
	r.phase("core programs in every context", cs.size(), [&](Worker &w, u64 u) {
		for (auto &k : cores) {
			if (plans.empty() && !w.verify(build(k, cs[u]), mask, "context")) return;
			for (auto &p : plans) if (!(p.fill ? w.steady(build(k, cs[u]), p, "context") : w.verify(build(k, cs[u]), mask, "context", "p.asm", &p))) return;
			if (w.stopped()) return;
			if (cs[u].lines > 2000 && !cfg.thorough() && &k - &cores[0] > 12) break;
		}
	});
}

// ---- core programs --------------------------------------------------------
static vector<string> forward()
{
	return {"JMP {0}\n{0} NOP\n", "JMP {0}\nJMP {1}\n{1} NOP\n{0} RTS\n", "JMP ({0})\nJSR {1}\n{0} = $1234\n{1} = $ABCD\n", "BNE {0}\nJSR {1}\nJMP {2}\n{0} NOP\n{1} NOP\n{2} NOP\n",
		"{0} JMP {1}\n{1} JMP {0}\n", "JMP {0}\n", "BNE {0}\n", "JMP {0}\nJMP {1}\nJMP {2}\n{2} = 1\n{0} = 2\n", "JMP {0}\nBNE {1}\n{1} = {B+130}\n{0} = 0\n", "JSR {0}\n{1} = 7\n",
		"JMP {0}\nJMP {0}\nBNE {0}\n{0}\nJMP {0}\n", "BEQ {0}\nBEQ {1}\n{1}: BEQ {0}\n{0}: BEQ {1}\n", "JMP {1}\n{0} = $1111\n", "LDA {0}\n{0} = 5\n", "LDA #{0}\n", ".DEFINE {0} $FFFF\nJMP ({0})\nJMP ({1})\n{1} .EQU $8001\n"};
}
static vector<string> branches()
{
	return {"BNE {0}\n{0} NOP\n", "{0} BPL {0}\n", "BMI {0}\n.ORG {B+129}\n{0} NOP\n", "BVC {0}\n.ORG {B+130}\n{0} NOP\n", "BVS {0}\n{0} = {B-126}\n", "BCC {0}\n{0} = {B-127}\n", "{0} = {B-126}\nBCS {0}\n", "{0} = {B-127}\nBNE {0}\n",
		"{0} = {B+129}\nBEQ {0}\n", "{0} = {B+130}\nBNE {0}\n", "BNE {0}\nBEQ {1}\n{0} = {B+129}\n{1} = {B+131}\n", "BNE {0}\nBEQ {1}\n{0} = {B+129}\n{1} = {B+132}\n", "{0} = {B-124}\nNOP\nNOP\nBNE {0}\n{1} BNE {1}\n", "BNE $7F\nBEQ $80\nBPL 255\n", "BNE {0}\n", "BNE $100\n"};
}
static vector<string> rejected(bool late)
{
	vector<string> v = {"NOP NOP\n", "RTS\n STA #5\n", "{0} NOP\n{0} RTS\n", "LDA $12 !\n", "LDA 65536\n", "LDA #$10Z\n", ".FOO 1\n", "*5\n", "LDA (5\n", "LDA 5,\n", "LDA {0},X\n", "JMP (5,X)\n", "{0} = {1}\n", "{0}: {1}:\n", ".ORG {0}\n", "LDA ({0}),Y\n{0} = 1\n",
		"{0} = 1\n LDA {0} {0}\n", ".DEFINE {0}\n", "{0}:NOP:\n", "BNE ({0})\n", "\tJSR\t#{0}\n", "{0}={B}\n{0}={B}\n"};
	if (late) for (const char *s : {"JMP {0}\n", "NOP\n BNE {0}\n", "\tJMP ({0}) ; c\n", "BNE {0}\nNOP\n{0} = {B+200}\n", "JSR {0}\nJSR {1}\n", "JSR {0}\nJSR {1}\n{0}\n", " JMP {1} \t\n{0} RTS\n", "{2} JMP {1}\n NOP NOP\n"}) v.push_back(s);
	return v;
}
static vector<string> operands()
{
	vector<string> v;
	for (const char *l : {"LDA #{0}", "STA {0}", "STX {0},Y", "LDA {0},X", "CMP ({0},X)", "EOR ({0}),Y", "JMP ({0})", "JMP {0}", "JSR {0}", "LDX {0},Y", "STY {0},X", "ASL {0}", "BIT {0}", "STA {0},Y"})
		for (const char *d : {"$0", "$FF", "$100", "$FFFF", "5", "%11111111"}) {
			if (d[0] != '$' && l[0] != 'L') continue;
			v.push_back(string("{0} = ") + d + "\n" + l + "\n");
		}
	v.push_back("{0} NOP\nLDA {0}\nSTA {0},X\nJMP {0}\n");
	return v;
}
static vector<string> statements()
{
	vector<string> v;
	for (auto &l : opcodeLines()) v.push_back(l + "\n");
	return v;
}

vector<string> coresFor(int k)
{
	vector<string> v;
	auto add = [&](const vector<string> &a) { v.insert(v.end(), a.begin(), a.end()); };
	switch (k) {
	case 1: add(statements()); break;
	case 2: add({"STA #$12\n", "{0} = $12\nSTA #{0}\n", "JMP ({0},X)\n{0} = 5\n", "JSR ({0})\n{0} NOP\n", "{0} = $123\nLDA ({0},X)\n", "{0} = $123\nSTX {0},Y\n", "STX $123,Y\n", "LDA #$100\n", "BNE {0},X\n{0} NOP\n", "JMP {0},X\n", "NOP 5\n", "LDA\n", "ASL #1\n", "JMP ($12\n", "LDX $12,X\n", "{0} NOP\nLDX {0},X\n", "INC A\n", "BNE #5\n", "BNE $100\n", "{0} = $10\nJMP ({0}),Y\n", "STY $100,X\n", "{0} JMP #{0}\n", "BIT #1\n", "{0} = 0\nTAX {0}\n"});
		// what takes a byte only, with the first value that is too large
		for (int m = 0; m < 56; m++)
			for (int f = 0; f < NFORMS; f++)
				if (takesOperand((Form)f) && model::selectMode(m, (Form)f, 0xFF) >= 0 && model::selectMode(m, (Form)f, 0x100) < 0 && !model::isBranch(m)) v.push_back("{0} = $100\n" + insLine(m, (Form)f, "{0}") + "\n");
		break;
	case 3: add({"JMP $aBcD\n", "JMP 65535\n", "JMP 65536\n", "JMP %1111111111111111\n", "JMP %10000000000000000\n", "JMP $10000\n", "LDA #$\n", "LDA #%\n", "LDA %2\n", "LDA 1A\n", "LDA $1G\n", "{0} = 0000000000000000000000000000000000007\nJMP {0}\n", ".DEFINE {0} $0FfF\nJMP {0}\n", ".ORG {B}\nJMP 4660\n", "{0} .EQU 99999999999999999999\n", "LDA #256\n", "LDA #255\n", "STA 0\n", "STA 256\n", "JMP $00000000000000001\n", "JMP 18446744073709551617\n", "{0} = 4294967296\n"}); break;
	case 4: add(branches()); break;
	case 5: case 9: add(forward()); if (k == 9) add(branches()); break;
	case 6: add({"JMP {0}\n.ORG {B+40}\n{0} NOP\n", "NOP\n.ORG {B+7}\nLDA #1\n", ".ORG {B+300}\nJMP {0}\n.ORG {B+20}\n{0} RTS\n", ".ORG {B+20}\nBNE {0}\n.ORG {B+10}\n{0} RTS\n", "NOP\n.ORG {B+100}\n", "JMP {1}\nJMP ({1})\nJSR {1}\n{0} NOP\n.ORG $0\n{1} NOP\n", "*={B+3}\nJSR {0}\n*={B}\n{0} NOP\n", ".ORG {B+510}\n RTS\n", "{0} JMP {1}\n{1}\n.ORG {B+4}\n"}); add(forward()); break;
	case 7: add({"{0} = 1\n{0} = 1\n", "{0}\n{0}\n", "{0} NOP\n{0} = 1\n", ".DEFINE {0} 1\n{0}:\n", "{0} = 1\n{1} = 2\n{2} = 3\nJMP {0}\nJMP {1}\nJMP {2}\n", "{0} NOP\n{1} NOP\n{2} NOP\nJMP {2}\nJMP {1}\nJMP {0}\n", "JMP {0}\n{1} = 7\n", "{1} = 1\nJMP {1}\n{0}:\n{1}:\n", "{0} .EQU 5\nLDA {0}\n.DEFINE {0} 5\n", "JMP {0}\n{0} = 1\n{0} NOP\n", "{2} = 1\nJMP {1}\n{1} = 3\n{0} = 2\nJMP {0}\n", "A = 5\n", ".DEFINE X 5\n", "LDA = 5\n"}); break;
	case 8: add({"{0} = 1\n{1} = 2\n{2} = 3\nJMP {0}\nJMP {1}\nJMP {2}\n", "{0} = 1\nJMP {1}\n", "{0} = 1\n{0} = 2\n", "JMP {0}\nJMP {1}\n{1} = 3\n{0} = 9\n{2} NOP\n", "{0}\n{1}\n{2}\n{1}\n", "JMP {2}\n{0} = 5\n{1} = 6\n"}); break;
	case 10: case 14: add(rejected(k == 14)); if (k == 10) add({"{0}\n", "{0} LDA {0}\n", "LDA ($12),Y\n", "* = {B}\n", ".END\n", "{0} .EQU 5\nLDA ({0} , X)\n"}); break;
	case 11: case 22: add(forward()); add(operands()); add(rejected(true)); break;
	case 12: add(rejected(false)); add({"JMP {0}\n", "NOP\n\n BNE {0}\n"}); add(forward()); break;
	case 13: add({"LDA #5?\n", "{0}\x01 NOP\n", "NOP \x7f\n", "NOP ; \x7f\x80\x01\n", "{0} = 5\xc3\n", "'\n", "LDA \"5\n", "{0}: NOP\n", "{0}:: NOP\n", "{0} :NOP\n", "NOP:\n", "LDA {0}:\n", "{0}:\n", ".ORG: 5\n", "\f NOP\n", "\v\n", "NOP\f\n", "@\n", "{0}@{1} = 5\n"}); break;
	case 15: add(forward()); add(branches()); add(rejected(true)); break;
	case 19: add({".END\n", "JMP {0}\n.END\n{0} NOP\n", "JMP {0}\n{0}\n.END\n{0}\n", "{0} = 1\n.END\n{0} = 2\n NOP NOP\n", "BNE {0}\n{1} = {B+9}\n{0} = {B+99}\n.END\n JMP {2}\n", " .end ; x\n?\n", ".END 5\n", "NOP\n.END\n NOP\n"}); break;
	case 23: add({"{0} = $1234\nJMP {0}\n", "{0} .EQU $1234\nJMP {0}\n", ".DEFINE {0} $1234\nJMP {0}\n", "JMP {0}\n.DEFINE {0} 65535\n", "JMP {0}\n{0}=%1\n", "*={B+5}\n{0} NOP\nJMP {0}\n", ".ORG {B+5}\n{0} NOP\nJMP {0}\n", "NOP\n{0} = 7\n{1} JMP {1}\n", "NOP\n.DEFINE {0} 0\n{1} JMP {1}\n", "NOP\n{0} .EQU 255\n{1} JMP {0}\n", "* = {B}\n{0} BNE {0}\n", "*= {B+300}\n{0} BNE {0}\n", "{0} = 255\nLDA {0}\nLDX #{0}\n", ".DEFINE {0} 256\nLDA {0},Y\nLDX #{0}\n"}); break;
	case 24: add(operands()); break;
	case 25: { auto o = opcodeLines(); for (auto &l : o) v.push_back(l + "\n{0} JMP {0}\n"); add({"JMP {1}\nJMP ({1})\nJSR {1}\n{0} NOP\n.ORG $0\n{1} NOP\n", "{0}\n.ORG {B+64}\n{1} JMP {0}\nJMP {1}\n", "BNE {1}\n{0}:\n*=$1\nJMP {0}\n.ORG {B+9}\n{1} JMP {1}\n", "JMP {1}\n{0} JSR {0}\n{1} NOP\n", "BNE {1}\n{0}: JMP ({0})\n{1}\n{2} JMP {2}\n", "{0}\n{1}\n{2} JMP {0}\nJMP {1}\nJMP {2}\n", "JMP ({1})\n{0}\n JMP {0}\n{1}\n", "{1} = 5\nLDA {1}\n{0} JMP {0}\n", "{1} = 500\nLDA {1}\n{0} JMP {0}\n", ".DEFINE {1} $80\nSTX {1},Y\n{0}: JSR {0}\n"}); break; }
	case 18: add(forward()); add(rejected(true)); add(branches()); break;
	default: break;
	}
	return v;
}

// ---- many statements of one kind -------------------------------------------
const int MANY_KINDS = 24;
string manyOf(int kind, unsigned n, const string &p)
{
	string s;
	auto nm = [&](unsigned i) { return p + std::to_string(i); };
	for (unsigned i = 0; i < n; i++) {
		string k = std::to_string(i % 65536);
		switch (kind) {
		case 0: s += " NOP\n"; break;
		case 1: s += ".ORG " + std::to_string(0x8000 + i * 3 % 0x6000) + "\n LDX #7\n"; break;
		case 2: s += "*=" + std::to_string(0xE000 - i * 3 % 0x6000) + "\n LDX #7\n"; break;
		case 3: s += ".ORG $8000\n"; break;
		case 4: s += nm(i) + " = " + k + "\n"; break;
		case 5: s += ".DEFINE " + nm(i) + " " + k + "\n"; break;
		case 6: s += nm(i) + "\n"; break;
		case 7: s += nm(i) + " NOP\n"; break;
		case 8: s += " JMP " + p + "Z\n"; break;
		case 9: s += nm(i) + " BNE " + nm(i) + "\n"; break;
		case 10: s += "; " + k + "\n"; break;
		case 11: s += "\n"; break;
		case 12: s += " LDA #" + std::to_string(i & 255) + "\n"; break;
		case 13: s += " STA $12FF,X\n"; break;
		case 14: s += " ROL A\n"; break;
		case 15: s += (i ? " JMP " : p + "Z JMP ") + p + "Z\n"; break;
		case 16: s += " BNE " + nm(i) + "\n" + nm(i) + ": INY\n"; break;
		case 17: s += " JMP (" + nm(i) + ")\n" + nm(i) + " = " + k + "\n"; break;
		case 18: s += nm(i) + " .EQU " + k + "\n JSR " + nm(i) + "\n"; break;
		case 19: s += " BPL " + nm(i) + "\n\n" + nm(i) + "\n"; break;
		case 20: s += " \t ; c\r\n"; break;
		case 21: s += "*=" + std::to_string(0x8000 + i * 7 % 0x6000) + "\n JMP " + p + "Z\n"; break;
		case 22: s += ".org " + std::to_string(0xE000 - i * 3 % 0x6000) + "\n" + nm(i) + " BEQ " + nm(i) + "\n"; break;
		default: s += "* = $" + string(i % 2 ? "8000" : "9000") + "\n"; break;
		}
	}
	if (kind == 8 || kind == 21) s += p + "Z = $4321\n";
	return s;
}
vector<unsigned> manyCounts()
{
	vector<unsigned> v;
	for (unsigned n = 0; n <= 300; n++) v.push_back(n);
	for (unsigned p = 512; p <= (cfg.thorough() ? 16384u : 4096u); p *= 2) for (int d = -1; d <= 1; d++) v.push_back(p + d);
	for (unsigned n : {301, 399, 500, 999, 1000, 1001, 2000, 3000}) v.push_back(n);
	return v;
}
void manyStatements(Run &r, unsigned mask)
{
	vector<unsigned> c = manyCounts();
	r.phase("many statements of each kind, then some of each", c.size() * MANY_KINDS, [&](Worker &w, u64 u) {
		int kind = u % MANY_KINDS;
		unsigned n = c[u / MANY_KINDS];
		string s = ".ORG $2000\n" + manyOf(kind, n, "Q");
		w.verify(s + ".ORG $200\nT LDA #$12\n JMP T\n BNE T\n BEQ V\n JMP (W)\nW = $4321\nV STA W,Y\n JSR T\n", mask, "many statements");
		if (n <= 300 && u % 5 && !cfg.thorough()) return;
		if (!w.verify(s + ".ORG $200\nT LDA #$12\n JMP T\n BNE N\n", mask, "many statements, then a missing label")) return;
		if (!w.verify(s + "T\n LDA T T\n", mask, "many statements, then an error")) return;
		if (!w.verify(s, mask, "many statements alone")) return;
	});
	// every instruction when the run has counted up to every number of something
	static const int counted[] = {0, 4, 6, 7, 8, 11, 15, 16};
	const u64 NC = sizeof counted / sizeof *counted;
	vector<string> ops = opcodeLines();
	const bool diag = mask & C_DIAG;
	const string tail = diag ? " BNE NN\n" : "";
	r.phase("every instruction after every count", c.size() * NC, [&](Worker &w, u64 u) {
		int kind = counted[u % NC];
		unsigned n = c[u / NC];
		string head = manyOf(kind, n, "Q"), a, b, d;
		for (size_t i = 0; i < ops.size(); i++) {
			string t = "T" + std::to_string(i);
			a += t + (i % 3 ? "" : ":") + ops[(i + u) % ops.size()] + "\n";
			b += ops[(i + u) % ops.size()] + "\n";
			d += (i % 4 ? " JMP " : " JSR ") + t + "\n";
		}
		if (!w.verify(head + ".ORG $200\n" + a + d + tail, mask, "every instruction, labelled")) return;
		if (!w.verify(head + ".ORG $200\n" + b + tail, mask, "every instruction")) return;
		if (n > (cfg.thorough() ? 100 : 24)) return;
		for (size_t i = 0; i < ops.size(); i++) {
			if (!w.verify(head + "T" + ops[i] + "\n BNE T\n" + tail, mask, "one instruction, labelled")) return;
			if (n < 12 && !w.verify(head + ".ORG $234\n" + ops[i] + "\nT\n BNE T\n JMP T\n" + tail, mask, "one instruction before a label")) return;
		}
	});
	const u64 NG = cfg.thorough() ? 40 : 20;
	r.phase("every instruction after every two counts", NG * NG * NC * NC, [&](Worker &w, u64 u) {
		int k1 = counted[u % NC], k2 = counted[u / NC % NC];
		unsigned n1 = u / NC / NC % NG + 1, n2 = u / NC / NC / NG + 1;
		if (k1 == k2) return;
		string s = manyOf(k1, n1, "Q") + manyOf(k2, n2, "R");
		for (size_t i = 0; i < ops.size(); i += 1 + (u + i) % 3) s += (i % 4 == 0 ? "T" + std::to_string(i) : i % 4 == 1 ? "" : "T0" + std::to_string(i) + ":") + ops[(i + u) % ops.size()] + "\n";
		w.verify(s + "TT JMP TT\n BNE TT\n JMP T0\n" + (diag ? tail : "T0 = 5\n"), mask, "every instruction after two counts");
	});
}
