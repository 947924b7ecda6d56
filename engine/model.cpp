#include "model.h"
#include <algorithm>
#include <cstring>
#include <map>

namespace model {

const char *const mnemonics[56] = {
	"ADC","AND","ASL","BCC","BCS","BEQ","BIT","BMI","BNE","BPL","BRK","BVC","BVS","CLC",
	"CLD","CLI","CLV","CMP","CPX","CPY","DEC","DEX","DEY","EOR","INC","INX","INY","JMP",
	"JSR","LDA","LDX","LDY","LSR","NOP","ORA","PHA","PHP","PLA","PLP","ROL","ROR","RTI",
	"RTS","SBC","SEC","SED","SEI","STA","STX","STY","TAX","TAY","TSX","TXA","TXS","TYA"};

// The documented NMOS 6502 opcode matrix, row by row (high nibble), as
// "mnemonic mode"; "." marks an undocumented opcode.
static const char *const matrix[16] = {
"BRK imp|ORA inx|.|.|.|ORA zp|ASL zp|.|PHP imp|ORA imm|ASL acc|.|.|ORA abs|ASL abs|.",
"BPL rel|ORA iny|.|.|.|ORA zpx|ASL zpx|.|CLC imp|ORA aby|.|.|.|ORA abx|ASL abx|.",
"JSR abs|AND inx|.|.|BIT zp|AND zp|ROL zp|.|PLP imp|AND imm|ROL acc|.|BIT abs|AND abs|ROL abs|.",
"BMI rel|AND iny|.|.|.|AND zpx|ROL zpx|.|SEC imp|AND aby|.|.|.|AND abx|ROL abx|.",
"RTI imp|EOR inx|.|.|.|EOR zp|LSR zp|.|PHA imp|EOR imm|LSR acc|.|JMP abs|EOR abs|LSR abs|.",
"BVC rel|EOR iny|.|.|.|EOR zpx|LSR zpx|.|CLI imp|EOR aby|.|.|.|EOR abx|LSR abx|.",
"RTS imp|ADC inx|.|.|.|ADC zp|ROR zp|.|PLA imp|ADC imm|ROR acc|.|JMP ind|ADC abs|ROR abs|.",
"BVS rel|ADC iny|.|.|.|ADC zpx|ROR zpx|.|SEI imp|ADC aby|.|.|.|ADC abx|ROR abx|.",
".|STA inx|.|.|STY zp|STA zp|STX zp|.|DEY imp|.|TXA imp|.|STY abs|STA abs|STX abs|.",
"BCC rel|STA iny|.|.|STY zpx|STA zpx|STX zpy|.|TYA imp|STA aby|TXS imp|.|.|STA abx|.|.",
"LDY imm|LDA inx|LDX imm|.|LDY zp|LDA zp|LDX zp|.|TAY imp|LDA imm|TAX imp|.|LDY abs|LDA abs|LDX abs|.",
"BCS rel|LDA iny|.|.|LDY zpx|LDA zpx|LDX zpy|.|CLV imp|LDA aby|TSX imp|.|LDY abx|LDA abx|LDX aby|.",
"CPY imm|CMP inx|.|.|CPY zp|CMP zp|DEC zp|.|INY imp|CMP imm|DEX imp|.|CPY abs|CMP abs|DEC abs|.",
"BNE rel|CMP iny|.|.|.|CMP zpx|DEC zpx|.|CLD imp|CMP aby|.|.|.|CMP abx|DEC abx|.",
"CPX imm|SBC inx|.|.|CPX zp|SBC zp|INC zp|.|INX imp|SBC imm|NOP imp|.|CPX abs|SBC abs|INC abs|.",
"BEQ rel|SBC iny|.|.|.|SBC zpx|INC zpx|.|SED imp|SBC aby|.|.|.|SBC abx|INC abx|."};

struct Tables {
	int op[56][NMODES];
	std::map<std::string, int, std::less<>> byName;
	Tables()
	{
		static const char *const names[NMODES] = {"imp","acc","imm","zp","zpx","zpy","abs",
			"abx","aby","ind","inx","iny","rel"};
		for (auto &r : op) for (int &c : r) c = -1;
		for (int i = 0; i < 56; i++) byName[mnemonics[i]] = i;
		int count = 0;
		for (int hi = 0; hi < 16; hi++) {
			std::string row = matrix[hi];
			size_t p = 0;
			for (int lo = 0; lo < 16; lo++) {
				size_t e = row.find('|', p);
				std::string c = row.substr(p, e == std::string::npos ? e : e - p);
				p = e == std::string::npos ? row.size() : e + 1;
				if (c == ".") continue;
				int mn = byName.at(c.substr(0, 3));
				for (int m = 0; m < NMODES; m++)
					if (c.substr(4) == names[m]) { op[mn][m] = hi * 16 + lo; count++; }
			}
		}
		if (count != 151) abort();
	}
};
static const Tables T;

const char *kindText(Kind k)
{
	static const char *const t[] = {"", "illegal character", "value of literal exceeds 2 bytes",
		"label exceeds 63 characters", "illegal syntax", "illegal base",
		"no redefinition of labels", "illegal forward reference", "illegal addressing mode",
		"branch offset too far away", "label definition was not found",
		"illegal assembler directive"};
	return t[k];
}
int opcode(int mn, Mode m) { return T.op[mn][m]; }
int modeSize(Mode m)
{
	switch (m) {
	case M_IMP: case M_ACC: return 1;
	case M_ABS: case M_ABSX: case M_ABSY: case M_IND: return 3;
	default: return 2;
	}
}
bool isBranch(int mn) { return T.op[mn][M_REL] >= 0; }
bool isJump(int mn) { static const int j = T.byName.at("JMP"), s = T.byName.at("JSR"); return mn == j || mn == s; }
int findMnemonic(std::string_view u)
{
	if (u.size() != 3) return -1;
	auto it = T.byName.find(u);
	return it == T.byName.end() ? -1 : it->second;
}
int selectMode(int mn, Form f, unsigned v)
{
	int m = -1;
	bool wide = v > 0xFF || isJump(mn);
	switch (f) {
	case F_NONE: m = T.op[mn][M_ACC] >= 0 ? M_ACC : M_IMP; break;
	case F_ACC: m = M_ACC; break;
	case F_OP: m = isBranch(mn) ? (v > 0xFF ? -1 : (int)M_REL) : wide ? (int)M_ABS : (int)M_ZP; break;
	case F_OPX: m = wide ? M_ABSX : M_ZPX; break;
	case F_OPY: m = wide ? M_ABSY : M_ZPY; break;
	case F_IMM: m = wide ? -1 : (int)M_IMM; break;
	case F_IND: m = wide ? (int)M_IND : -1; break;
	case F_INDX: m = wide ? -1 : (int)M_INDX; break;
	case F_INDY: m = wide ? -1 : (int)M_INDY; break;
	default: break;
	}
	if (m < 0 || T.op[mn][m] < 0) return -1;
	return m;
}
std::string formText(Form f, const std::string &o)
{
	switch (f) {
	case F_NONE: return "";
	case F_ACC: return " A";
	case F_OP: return " " + o;
	case F_OPX: return " " + o + ",X";
	case F_OPY: return " " + o + ",Y";
	case F_IMM: return " #" + o;
	case F_IND: return " (" + o + ")";
	case F_INDX: return " (" + o + ",X)";
	case F_INDY: return " (" + o + "),Y";
	default: return "";
	}
}

// ---------------------------------------------------------------- grammar
// token types, one letter each: L label, N number, I mnemonic, # ( ) , =
// X Y A registers, * base, q .EQU, d .DEFINE, o .ORG, e .END
static int tokIndex(int c)
{
	static const char *const all = "LNI#(),=XYA*qdoe";
	const char *p = strchr(all, c);
	return p ? (int)(p - all) : -1;
}
struct Sentence { std::string s; Form form; };
struct Grammar {
	std::vector<Sentence> v;
	uint64_t at[8][16];   // sentences having token t at position p
	uint64_t endsAt[9];   // sentences of that length
	Grammar()
	{
		v.push_back({"", F_NONE});
		v.push_back({"L", F_NONE});
		static const struct { const char *s; Form f; } ops[] = {
			{"", F_NONE}, {"A", F_ACC}, {"N", F_OP}, {"L", F_OP}, {"N,X", F_OPX}, {"L,X", F_OPX},
			{"N,Y", F_OPY}, {"L,Y", F_OPY}, {"#N", F_IMM}, {"#L", F_IMM}, {"(N)", F_IND},
			{"(L)", F_IND}, {"(N,X)", F_INDX}, {"(L,X)", F_INDX}, {"(N),Y", F_INDY}, {"(L),Y", F_INDY}};
		for (auto &o : ops) {
			v.push_back({std::string("I") + o.s, o.f});
			v.push_back({std::string("LI") + o.s, o.f});
		}
		for (const char *s : {"L=N", "LqN", "dLN", "oN", "*=N", "e"}) v.push_back({s, F_NONE});
		if (v.size() > 64) abort();
		memset(at, 0, sizeof at); memset(endsAt, 0, sizeof endsAt);
		for (size_t i = 0; i < v.size(); i++) {
			for (size_t j = 0; j < v[i].s.size(); j++) at[j][tokIndex(v[i].s[j])] |= 1ull << i;
			endsAt[v[i].s.size()] |= 1ull << i;
		}
	}
};
static const Grammar G;

// ---------------------------------------------------------------- characters
static bool alpha(unsigned char c) { return (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z'); }
static bool digit(unsigned char c) { return c >= '0' && c <= '9'; }
static char up(char c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
static bool blank(char c) { return c == ' ' || c == '\t'; }
// what may directly follow a word or number (c = 0: end of line)
static bool delim(unsigned char c)
{
	return c == 0 || c == ' ' || c == '\t' || c == '\r' || c == ',' || c == '(' || c == ')' || c == ';';
}

bool Assembler::fail(Result &r, Kind k, int col, std::string_view line)
{
	r.ok = false; r.kind = k; r.col = col; r.echo = std::string(line); r.lineError = true;
	return false;
}

bool Assembler::lexLine(std::string_view ln, Result &r)
{
	ntoks = 0;
	size_t n = ln.size(), i = 0;
	auto at = [&](size_t j) -> unsigned char { return j < n ? ln[j] : 0; };
	bool colonOk = false;
	while (true) {
		if (colonOk && at(i) == ':') i++;
		colonOk = false;
		while (blank(at(i))) i++;
		unsigned char c = at(i);
		if (i >= n || c == ';' || c == '\r') return true;
		if (ntoks == 9) return true;   // one beyond the limit is enough to know
		Tok &t = toks[ntoks];
		t.col = (int)i; t.val = 0; t.str.clear();
		if (c == '#' || c == '(' || c == ')' || c == ',' || c == '=' || c == '*') {
			t.t = c; i++;
		} else if (alpha(c)) {
			size_t j = i;
			while (j - i < 64 && (alpha(at(j)) || digit(at(j)) || at(j) == '_')) j++;
			if (j - i == 64) return fail(r, K_LONGLABEL, (int)i, ln);
			if (!delim(at(j)) && at(j) != ':') return fail(r, K_CHAR, (int)j, ln);
			for (size_t k = i; k < j; k++) t.str += up(ln[k]);
			i = j;
			if (t.str == "X" || t.str == "Y" || t.str == "A") t.t = t.str[0];
			else if (findMnemonic(t.str) >= 0) { t.t = 'I'; t.val = findMnemonic(t.str); }
			else { t.t = 'L'; colonOk = ntoks == 0; }
		} else if (digit(c) || c == '$' || c == '%') {
			unsigned base = c == '$' ? 16 : c == '%' ? 2 : 10;
			size_t j = i + (base != 10);
			unsigned v = 0; int nd = 0;
			for (;; j++) {
				char u = up((char)at(j));
				int d = digit(u) ? u - '0' : u >= 'A' && u <= 'F' ? u - 'A' + 10 : 99;
				if (d >= (int)base) break;
				nd++;
				if (v <= 0xFFFF) v = v * base + d;
			}
			if (!delim(at(j)) || nd == 0) return fail(r, K_CHAR, (int)j, ln);
			if (v > 0xFFFF) return fail(r, K_BIGLIT, (int)i, ln);
			t.t = 'N'; t.val = v; i = j;
		} else if (c == '.') {
			size_t j = i + 1;
			while (j - i < 64 && alpha(at(j))) j++;
			if (j - i == 64) return fail(r, K_DIRECTIVE, (int)i, ln);
			if (!delim(at(j))) return fail(r, K_CHAR, (int)j, ln);
			std::string d;
			for (size_t k = i; k < j; k++) d += up(ln[k]);
			if (d == ".DEFINE") t.t = 'd';
			else if (d == ".EQU") t.t = 'q';
			else if (d == ".ORG") t.t = 'o';
			else if (d == ".END") t.t = 'e';
			else return fail(r, K_DIRECTIVE, (int)i, ln);
			i = j;
		} else {
			return fail(r, K_CHAR, (int)i, ln);
		}
		ntoks++;
		// a colon glued to anything but a leading label is illegal
		if (!colonOk && at(i) == ':' && ntoks <= 8) return fail(r, K_CHAR, (int)i, ln);
	}
}

bool Assembler::emit(int pc, int n, Result &r)
{
	if (pc + n > 0x10000) {
		r.outOfDomain = true; r.oodWhy = "code beyond $FFFF";
		return true;
	}
	for (int i = 0; i < n; i++) {
		if (used[pc + i]) { r.outOfDomain = true; r.oodWhy = "overlapping code"; }
		used[pc + i] = 1;
	}
	extents.push_back({pc, n});
	top = std::max(top, pc + n);
	if ((int)img.size() < top) img.resize(top, 0);
	r.bytes += n;
	return true;
}

bool Assembler::doLine(std::string_view ln, Result &r, int &pc)
{
	if (!lexLine(ln, r)) return false;
	uint64_t alive = ~0ull;
	for (int i = 0; i < ntoks; i++) {
		uint64_t next = i < 8 ? alive & G.at[i][tokIndex(toks[i].t)] : 0;
		if (!next) return fail(r, toks[0].t == '*' ? K_BASE : K_SYNTAX, toks[i].col, ln);
		alive = next;
	}
	alive &= G.endsAt[ntoks];
	if (!alive) return fail(r, toks[0].t == '*' ? K_BASE : K_SYNTAX, -1, ln);
	const Sentence &s = G.v[__builtin_ctzll(alive)];
	if (s.s.empty()) return true;
	if (s.s == "e") { r.ended = true; return true; }
	if (s.s == "oN") { pc = toks[1].val; return true; }
	if (s.s == "*=N") { pc = toks[2].val; return true; }
	if (s.s == "dLN" || s.s == "L=N" || s.s == "LqN") {
		const Tok &l = toks[s.s == "dLN"];
		if (sym.count(l.str)) return fail(r, K_REDEF, l.col, ln);
		sym[l.str] = toks[2].val;
		return true;
	}
	int i = 0;
	if (toks[0].t == 'L') {
		if (sym.count(toks[0].str)) return fail(r, K_REDEF, toks[0].col, ln);
		sym[toks[0].str] = pc;
		if (pc > 0xFFFF) { r.outOfDomain = true; r.oodWhy = "label beyond $FFFF"; }
		i = 1;
		if (ntoks == 1) return true;
	}
	int mn = toks[i].val;
	const Tok *op = nullptr;
	for (int j = i + 1; j < ntoks; j++) if (toks[j].t == 'L' || toks[j].t == 'N') { op = &toks[j]; break; }
	unsigned v = 0;
	bool br = isBranch(mn);
	if (op && op->t == 'L') {
		auto it = sym.find(op->str);
		if (it == sym.end()) {
			Mode m;
			if (br && s.form == F_OP) m = M_REL;
			else if (isJump(mn) && s.form == F_OP) m = M_ABS;
			else if (isJump(mn) && s.form == F_IND && T.op[mn][M_IND] >= 0) m = M_IND;
			else return fail(r, br || isJump(mn) ? K_MODE : K_FWD, br || isJump(mn) ? -1 : op->col, ln);
			refs.push_back({op->str, pc, br, r.nLines, op->col, std::string(ln)});
			emit(pc, modeSize(m), r);
			if (r.outOfDomain) return true;
			img[pc] = T.op[mn][m];
			pc += modeSize(m);
			return true;
		}
		v = it->second;
		if (br) {
			if (s.form != F_OP) return fail(r, K_MODE, -1, ln);
			int d = (int)v - (pc + 2);
			if (d < -128 || d > 127) return fail(r, K_OFFSET, op->col, ln);
			emit(pc, 2, r);
			if (r.outOfDomain) return true;
			img[pc] = T.op[mn][M_REL]; img[pc + 1] = (uint8_t)d;
			pc += 2;
			return true;
		}
	} else if (op) v = op->val;
	int m = selectMode(mn, s.form, v);
	if (m < 0) return fail(r, K_MODE, -1, ln);
	int n = modeSize((Mode)m);
	emit(pc, n, r);
	if (r.outOfDomain) return true;
	img[pc] = T.op[mn][m];
	if (n > 1) img[pc + 1] = v & 0xFF;
	if (n > 2) img[pc + 2] = v >> 8;
	pc += n;
	return true;
}

static void mix(uint64_t &h, uint64_t v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 29; }
static void mixs(uint64_t &h, const std::string &s) { mix(h, s.size()); for (char c : s) mix(h, (uint8_t)c); }

uint64_t Assembler::stateHash(int pc, const Result &r)
{
	uint64_t h = 1234567;
	mix(h, pc); mix(h, r.ended); mix(h, r.lineError ? 1 + r.kind : 0);
	std::vector<std::pair<std::string,int>> s(sym.begin(), sym.end());
	std::sort(s.begin(), s.end());
	for (auto &p : s) { mixs(h, p.first); mix(h, p.second); }
	for (auto &f : refs) { mixs(h, f.label); mix(h, f.pc); mix(h, f.branch); }
	std::sort(extents.begin(), extents.end());
	for (auto &e : extents) { mix(h, e.first); for (int i = 0; i < e.second; i++) mix(h, img[e.first + i]); }
	return h;
}

void Assembler::run(std::string_view src, Result &r)
{
	r.ok = false; r.outOfDomain = false; r.oodWhy = ""; r.kind = K_NONE; r.line = 0; r.col = -1;
	r.echo.clear(); r.bytes = r.symbols = 0; r.ended = r.lineError = false; r.state = 0; r.nLines = 0;
	if (used.empty()) used.assign(0x10000 + 8, 0);
	for (auto &e : extents) memset(&used[e.first], 0, e.second);
	extents.clear(); sym.clear(); refs.clear(); img.clear(); top = 0;
	int pc = 0;
	size_t p = 0;
	while (p < src.size() && !r.ended) {
		size_t e = src.find('\n', p);
		std::string_view ln = src.substr(p, e == std::string_view::npos ? e : e - p);
		p = e == std::string_view::npos ? src.size() : e + 1;
		r.nLines++;
		size_t z = ln.find('\0');
		if (z != std::string_view::npos || ln.find('\xff') != std::string_view::npos) {
			r.outOfDomain = true; r.oodWhy = "NUL or byte 255"; return;
		}
		size_t cr = ln.find('\r');
		if (cr != std::string_view::npos && cr + 1 != ln.size()) {
			r.outOfDomain = true; r.oodWhy = "CR inside a line"; return;
		}
		if (!doLine(ln, r, pc)) {
			r.line = r.nLines;
			if (wantState) r.state = stateHash(pc, r);
			return;
		}
		if (r.outOfDomain) return;
	}
	if (wantState) r.state = stateHash(pc, r);
	for (auto &f : refs) {
		auto it = sym.find(f.label);
		Kind k = K_NONE;
		int v = 0;
		if (it == sym.end()) k = K_MISSING;
		else if (v = it->second, f.branch) {
			v -= f.pc + 2;
			if (v < -128 || v > 127) k = K_OFFSET;
		}
		if (k != K_NONE) {
			r.kind = k; r.line = f.line; r.col = f.col; r.echo = f.echo;
			return;
		}
		img[f.pc + 1] = v & 0xFF;
		if (!f.branch) img[f.pc + 2] = v >> 8;
	}
	r.ok = true;
	r.image = img;
	r.symbols = (unsigned)sym.size();
}
}
