// C01..C05
#include "props.h"

string lower(string s) { for (char &c : s) if (c >= 'A' && c <= 'Z') c += 32; return s; }
string hexs(unsigned v) { return lit(v, 16); }
vector<unsigned> boundaryValues()
{
	vector<unsigned> v;
	for (unsigned i = 0; i <= 0x120; i++) v.push_back(i);
	for (int b = 8; b <= 16; b++)
		for (int d = -2; d <= 2; d++) { int x = (1 << b) + d; if (x >= 0 && x <= 0xFFFF) v.push_back(x); }
	for (unsigned h = 1; h < 256; h += 5) for (unsigned l : {0u, 1u, 0x7Fu, 0x80u, 0xFFu}) v.push_back(h << 8 | l);
	for (unsigned x : {0x1234u, 0xABCDu, 0xFEDCu, 0xFF00u, 0xFF01u, 0xFF7Fu, 0xFF80u, 0xFFFDu, 0xFFFEu, 0xFFFFu}) v.push_back(x);
	std::sort(v.begin(), v.end());
	v.erase(std::unique(v.begin(), v.end()), v.end());
	return v;
}
vector<string> opcodeLines()
{
	vector<string> l;
	for (int m = 0; m < 56; m++)
		for (int f = 0; f < NFORMS; f++)
			for (unsigned v : {0x12u, 0x3456u}) {
				if (!takesOperand((Form)f) && v > 0xFF) continue;
				if (model::isJump(m) && v < 0x100) continue;
				if (model::selectMode(m, (Form)f, v) < 0) continue;
				if (f == F_ACC) continue;
				l.push_back(" " + insLine(m, (Form)f, hexs(v)));
			}
	return l;
}

void prop_c01(Run &r)
{
	r.rule = "Every mnemonic, operand form and operand value the documented opcode matrix allows, as numbers in three radices, in batches of 64 instructions per program; every opcode at every address of the 64 KB space.";
	vector<Ins> all;
	for (int m = 0; m < 56; m++) for (int f = 0; f < NFORMS; f++) all.push_back({m, (Form)f});
	r.sample("LDA $1234,X"); r.sample("jmp (65535)"); r.sample("ROR"); r.sample("BNE %10000000");
	// unit: instruction x 64-value chunk
	r.phase("all values, three radices", (u64)all.size() * 1024, [&](Worker &w, u64 u) {
		Ins x = all[u >> 10];
		unsigned base = (u & 1023) * 64;
		if (!takesOperand(x.f) && base) return;
		for (int radix = 0; radix < 3; radix++) {
			string src = ".ORG " + hexs(base * 37 & 0x7FFF) + "\n";
			int n = 0;
			for (unsigned v = base; v < base + 64; v++) {
				if (model::selectMode(x.mn, x.f, v) < 0) continue;
				string l = insLine(x.mn, x.f, lit(v, radix == 0 ? 16 : radix == 1 ? 10 : 2));
				if ((v ^ radix) & 1) l = lower(l);
				if ((v + radix) % 5 == 0) src += "L" + std::to_string(v) + ": ";
				src += l + "\n";
				n++;
				if (!takesOperand(x.f) && n == 2) break;
			}
			if (!n) return;
			w.c->items.fetch_add(n);
			w.verify(src, C_VERDICT | C_IMAGE, "legal instructions");
			if (!takesOperand(x.f)) return;
		}
	});
	auto ops = opcodeLines();
	// every opcode at every address: fill the space from 0, 1 and 2
	r.phase("all opcodes at all addresses", ops.size() * 3 * 16, [&](Worker &w, u64 u) {
		const string &l = ops[u / 48];
		unsigned off = u / 16 % 3, part = u % 16;
		model::Result mr;
		w.model.run(l + "\n", mr);
		unsigned n = mr.bytes;
		if (off >= n) return;
		unsigned from = part * 4096, to = from + 4096, pc = from + off;
		string src = ".ORG " + hexs(pc) + "\n";
		int cnt = 0;
		for (; pc + n <= 0x10000 && pc < to; pc += n, cnt++) src += l + "\n";
		w.c->items.fetch_add(cnt);
		w.verify(src, C_VERDICT | C_IMAGE, "opcode at all addresses");
	});
	// all pairs of opcodes next to each other
	r.phase("all pairs of opcodes", ops.size(), [&](Worker &w, u64 u) {
		for (auto &b : ops) {
			string src = ops[u] + "\n" + b + "\n";
			w.c->items.fetch_add(2);
			if (!w.verify(src, C_VERDICT | C_IMAGE, "opcode pair") || w.stopped()) return;
		}
	});
}

void prop_c02(Run &r)
{
	r.rule = "Every mnemonic with every operand form and value (quick: all values around byte and power-of-two edges; thorough: all 65536), the operand written as a number, a constant or address label defined before, a constant or address label defined later, or an undefined label; only combinations the opcode matrix lacks are run, and each must be rejected.";
	r.sample("STA #$12"); r.sample("F = $10 / JMP F,X"); r.sample("BNE $1234"); r.sample("JSR (F) / F NOP");
	vector<unsigned> vals = boundaryValues();
	if (cfg.thorough()) { vals.clear(); for (unsigned v = 0; v < 65536; v++) vals.push_back(v); }
	const unsigned CH = 128;
	u64 chunks = (vals.size() + CH - 1) / CH;
	r.phase("illegal forms, every operand kind", 56 * NFORMS * chunks, [&](Worker &w, u64 u) {
		int mn = u / chunks / NFORMS; Form f = (Form)(u / chunks % NFORMS);
		for (u64 i = u % chunks * CH; i < std::min<u64>(vals.size(), (u % chunks + 1) * CH); i++) {
			unsigned v = vals[i];
			string n = insLine(mn, f, lit(v, v % 3 == 0 ? 10 : v % 3 == 1 ? 16 : 2));
			string l = insLine(mn, f, "K");
			bool ok = w.rejects(n + "\n", "number");
			if (!takesOperand(f)) return;
			ok = ok && w.rejects("K = " + hexs(v) + "\n" + l + "\n", "constant defined before");
			ok = ok && w.rejects(l + "\nK = " + hexs(v) + "\n", "constant defined later");
			ok = ok && w.rejects(l + "\n.ORG " + hexs(v) + "\nK\n", "address label defined later");
			ok = ok && w.rejects(".ORG " + hexs(v) + "\nK:\n.ORG 0\n" + l + "\n", "address label defined before");
			ok = ok && w.rejects("NOP\nQ " + n + "\n", "number after label");
			ok = ok && w.rejects("K = " + hexs(v) + "\nQ " + l + "\n", "constant, after label");
			ok = ok && w.rejects("Q: " + l + "\nK = " + hexs(v) + "\n", "later constant, after label");
			ok = ok && w.rejects(l + " ; x\n.ORG " + hexs(v) + "\nK RTS\n", "later label, comment");
			ok = ok && w.rejects("Q " + l + "\n.ORG " + hexs(v) + "\nK\n", "later label, after label");
			if (i % 61 == 0) ok = ok && w.rejects(l + "\n", "never defined");
			if (!ok || w.stopped()) return;
		}
	});
	// illegal line after every legal opcode line, and twice the same kind
	auto ops = opcodeLines();
	r.phase("illegal form after every opcode", ops.size(), [&](Worker &w, u64 u) {
		for (int mn = 0; mn < 56; mn++)
			for (int f = 0; f < NFORMS; f++)
				for (unsigned v : {0x34u, 0x3456u}) {
					if (model::selectMode(mn, (Form)f, v) >= 0) continue;
					if (!w.rejects(ops[u] + "\n " + insLine(mn, (Form)f, hexs(v)) + "\n", "after a legal line")) return;
					if (!w.rejects("F = " + hexs(v) + "\n" + ops[u] + "\n " + insLine(mn, (Form)f, "F") + "\n", "after a legal line")) return;
					if (!takesOperand((Form)f)) break;
				}
	});
}

// decimal text of c * 2^k + add, of any size
static string bigDec(unsigned c, int k, unsigned add)
{
	vector<int> d{0};
	auto mulAdd = [&](int m, unsigned a) { u64 carry = a; for (auto &x : d) { u64 t = (u64)x * m + carry; x = t % 10; carry = t / 10; } while (carry) { d.push_back(carry % 10); carry /= 10; } };
	for (int b = 31; b >= 0; b--) mulAdd(2, c >> b & 1);
	for (int i = 0; i < k; i++) mulAdd(2, 0);
	mulAdd(1, add);
	string s;
	for (size_t i = d.size(); i--;) s += '0' + d[i];
	size_t p = s.find_first_not_of('0');
	return p == string::npos ? "0" : s.substr(p);
}
static string bigBin(unsigned c, int k, unsigned add)    // add < 2^k
{
	string s;
	for (int b = 31; b >= 0; b--) s += '0' + (c >> b & 1);
	string low(k, '0');
	for (int b = 0; b < k && b < 32; b++) low[k - 1 - b] = '0' + (add >> b & 1);
	s += low;
	size_t p = s.find_first_not_of('0');
	return p == string::npos ? "0" : s.substr(p);
}
static string binToHex(string b)
{
	while (b.size() % 4) b = "0" + b;
	string h;
	for (size_t i = 0; i < b.size(); i += 4) h += "0123456789ABCDEF"[(b[i] - '0') * 8 + (b[i + 1] - '0') * 4 + (b[i + 2] - '0') * 2 + b[i + 3] - '0'];
	size_t p = h.find_first_not_of('0');
	return p == string::npos ? "0" : h.substr(p);
}

void prop_c03(Run &r)
{
	r.rule = "All hexadecimal literals of up to four digits in either case, all decimal ones up to 65535 and all binary ones up to 16 bits, each in several uses; all strings of up to five characters over an alphabet of digits, foreign digits and other characters; every digit count with leading zeros; numbers c*2^k+a for every k up to several hundred, which no machine word may fold into range.";
	const unsigned M = C_VERDICT | C_IMAGE;
	r.sample("K = $aBcD"); r.sample("JMP 00000000000000065535"); r.sample("LDA #$10000000000000005"); r.sample("LDA %12");
	static const char hd[] = "0123456789ABCDEFabcdef";
	// valid hex up to 4 digits: 22^4 in batches of 22
	r.phase("hex digits, all of up to 4 in either case", 22 * 22 * 22, [&](Worker &w, u64 u) {
		string p3 = {hd[u / 484], hd[u / 22 % 22], hd[u % 22]};
		for (int ctx = 0; ctx < 2; ctx++) {
			string src;
			for (int k = 0; k < 22; k++) {
				string l = "$" + p3 + hd[k];
				src += ctx ? "K" + std::to_string(k) + (k & 1 ? " = " : " .EQU ") + l + "\n JMP K" + std::to_string(k) + "\n" : "JMP " + l + "\n";
			}
			if (!w.verify(src, M, "hex")) return;
			w.c->items.fetch_add(22);
		}
		for (int n = 1; n <= 3; n++) {
			if (n < 3 && u % 22) continue;
			string d = n == 1 ? p3.substr(0, 1) : n == 2 ? p3.substr(0, 2) : p3;
			if (n == 1 && u % 484) continue;
			if (!w.verify("JSR $" + d + "\n.DEFINE V $" + d + "\nJMP V\n", M, "hex")) return;
			if (n < 3 && !w.verify("LDA #$" + d + "\nLDX $" + d + "\n.ORG $" + d + "\nL LDY ($" + d + "),Y\n", M, "hex")) return;
		}
	});
	r.phase("decimal and binary, all 16-bit values, leading zeros", 65536 / 32, [&](Worker &w, u64 u) {
		for (int style = 0; style < 4; style++) {
			string src;
			for (unsigned v = u * 32; v < u * 32 + 32; v++) {
				string l = lit(v, style < 2 ? 10 : 2);
				if (style & 1) { string z(v % 41, '0'); l = style < 2 ? z + l : "%" + z + l.substr(1); }
				src += v % 2 ? "JMP " + l + "\n" : "K" + std::to_string(v) + " = " + l + "\nJMP (K" + std::to_string(v) + ")\n";
			}
			if (!w.verify(src, M, "decimal/binary")) return;
			w.c->items.fetch_add(32);
		}
		// leading zeros in every use: no octal, no other reading
		{
			unsigned v = u * 32 + u % 32;
			for (int z = 1; z <= 3; z++) for (int b : {10, 2, 16}) {
				if (!cfg.thorough() && z > 1 && u >= 64) continue;
				string l = lit(v, b), zz = (b == 10 ? "" : l.substr(0, 1)) + string(z, '0') + (b == 10 ? l : l.substr(1));
				if (b == 16 && zz.size() > 5) continue;
				string s = "K = " + zz + "\n.DEFINE M " + zz + "\nN .EQU " + zz + "\n";
				if (v < 0xFFF0) s += ".ORG " + zz + "\nT\n*=" + zz + "\nU\n.ORG 0\nJMP T\nJMP U\n";
				s += "JMP K\nJMP M\nJMP (N)\nJSR " + zz + "\n";
				if (v < 256) s += "LDA #" + zz + "\nSTA (" + zz + "),Y\n";
				if (!w.verify(s, M | C_BYTES, "leading zeros")) return;
				if (v < 0xFFF0 && !w.verify((v & 1 ? ".ORG " : "*=") + zz + "\nNOP\n", M, "location with leading zeros")) return;
			}
		}
		// location moves take literals too
		for (int k = 0; k < (cfg.thorough() ? 32 : 2); k++) {
			unsigned v = u * 32 + (k ? 31 - k % 32 : 0) ;
			if (v > 0xFFF0) continue;
			if (!w.verify((k & 1 ? ".ORG " : "*=") + lit(v, k % 3 == 0 ? 10 : k % 3 == 1 ? 2 : 16) + "\nNOP\n", M, "location")) return;
		}
	});
	// malformed and well-formed short strings
	static const char al[] = "019AFfgG_$%.#;,)' -:Z";
	const u64 na = sizeof al - 1;
	int deep = cfg.thorough() ? 5 : 4;
	for (const char *ctx : {"JMP ", "K = ", "LDA #", ".ORG ", "BNE ", "LDA ("}) {
		u64 n = 1;
		int dl = ctx[0] == 'J' || ctx[0] == 'K' ? deep : deep - 1;
		for (int i = 0; i < dl; i++) n *= na;
		r.phase(string("all short strings as literal after ") + ctx, n / na, [&, dl](Worker &w, u64 u) {
			for (u64 k = 0; k < na; k++) {
				u64 x = u * na + k;
				string t;
				for (int i = 0; i < dl; i++) { t += al[x % na]; x /= na; }
				for (const char *p : {"$", "%", "", "1"}) {
					if (!w.verify(ctx + string(p) + t + "\n", M, "short string")) return;
				}
			}
			// shorter ones
			if (u % na == 0) {
				u64 x = u / na;
				string t;
				for (int i = 0; i < dl - 2; i++) { t += al[x % na]; x /= na; }
				for (const char *p : {"$", "%", "", "1"}) for (size_t l = 0; l <= t.size(); l++)
					if (!w.verify(ctx + string(p) + t.substr(0, l) + "\n", M, "short string")) return;
			}
		});
	}
	int K = cfg.thorough() ? 700 : 300;
	r.phase("values c*2^k+a for all k, three radices", K, [&](Worker &w, u64 u) {
		int k = u;
		for (unsigned c : {1u, 2u, 3u, 5u, 0x7FFFu, 0xFFFFu, 0xFFFFFFFFu})
			for (unsigned a : {0u, 1u, 5u, 0x12u, 0x7Fu, 0xFFu, 0x100u, 0x7FFFu, 0xFFFFu}) {
				if (k < 32 && a >> k) continue;
				string b = bigBin(c, k, a);
				vector<string> ls = {"%" + b, "$" + binToHex(b), bigDec(c, k, a), "$" + string(k % 7, '0') + lower(binToHex(b))};
				for (auto &l : ls)
					for (const char *ctx : {"JMP ", "K = ", "LDA #", ".ORG "}) {
						if (ctx[0] == '.' && k > 16) continue;
						if (!w.verify(ctx + l + "\n", M, "large value")) return;
						w.c->items.fetch_add(1);
					}
			}
	});
	int Z = cfg.thorough() ? 3000 : 600;
	r.phase("digit strings of every length", Z, [&](Worker &w, u64 u) {
		for (const char *p : {"$", "%", ""})
			for (char lead : {'0', '1'})
				for (const char *t : {"0", "1", "11", "101"}) {
					string l = p + string(1, lead) + string(u, lead == '1' ? '1' : '0') + t;
					for (const char *ctx : {"JMP ", "LDA #", "K .EQU "}) if (!w.verify(ctx + l + "\n", M, "length")) return;
				}
		for (char d = '2'; d <= '9'; d++)
			if (!w.verify("JMP " + string(u + 1, d) + "\n", M, "length") || !w.verify("JMP $" + string(u + 1, d) + "\n", M, "length")) return;
		for (char d : {'A', 'f'}) if (!w.verify("JMP $" + string(u + 1, d) + "\n", M, "length")) return;
		// a foreign digit at every position
		if (u < 20)
			for (u64 q = 0; q <= u; q++)
				for (char bad : {'2', '9', 'A', 'f', 'G', '_', '$', '%', '.', '=', '*', '#'})
					for (const char *p : {"$", "%", "1"}) {
						string z(u + 1, '0');
						z[q] = bad;
						if (!w.verify("JMP " + string(p) + z + "\n", M, "foreign digit")) return;
					}
	});
	// every byte at the ends and in the middle of digit strings of many lengths, alone and followed by another letter
	r.phase("every byte in longer literals", 254, [&](Worker &w, u64 u) {
		char c = (char)(u + 1);
		if (c == '\n' || c == '\r') return;
		for (int n = 1; n <= 20; n++)
			for (const char *p : {"$", "%", "", "0"})
				for (char d : {'0', '1', 'A'}) {
					if (d == 'A' && *p != '$') continue;
					string z(n, d);
					if (d == '1' && n > 4) for (int i = 0; i < n - 3; i++) z[i] = '0';
					for (int q : {0, 1, n / 2, n - 3, n - 1, n}) {
						if (q < 0 || q > n) continue;
						string t = z;
						t.insert(q, 1, c);
						if (!w.verify("JMP " + string(p) + t + "\n", M, "foreign digit")) return;
						if ((n == 4 || n == 8) && !w.verify("K = " + string(p) + t + "\n LDA #" + p + t + "\n", M, "foreign digit")) return;
					}
				}
		if (!isalpha((unsigned char)c)) return;
		for (char e = '0'; e <= 'z'; e++) if (isalnum((unsigned char)e) || e == '_')
			for (int n : {1, 2, 3, 4, 5, 8, 16})
				for (const char *p : {"$", "%", ""}) {
					string z = p + string(n - 1, '0') + "1";
					if (!w.verify("JMP " + z + c + e + "\n", M, "two foreign digits") || !w.verify("JMP " + z.substr(0, strlen(p)) + c + z.substr(strlen(p)) + e + "\n", M, "two foreign digits")) return;
				}
	});
}

static const char *branchMn[8] = {"BPL", "BMI", "BVC", "BVS", "BCC", "BCS", "BNE", "BEQ"};

static string branchProg(int kind, const string &mn, int pc, int dest)
{
	string P = hexs(pc), D = hexs(dest);
	switch (kind) {
	case 0: return "L = " + D + "\n.ORG " + P + "\n" + mn + " L\n";
	case 1: return ".ORG " + D + "\nL:\n.ORG " + P + "\n" + mn + " L\n";
	case 2: return ".ORG " + P + "\n" + mn + " L\n.ORG " + D + "\nL\n";
	default: return ".ORG " + P + "\n" + mn + " L\nL .EQU " + D + "\n";
	}
}

void prop_c04(Run &r)
{
	r.rule = "Branch address x displacement x way of defining the destination (constant or address, before or after) x mnemonic, around and beyond both limits; whole-range destinations from selected addresses; natural layouts with every filler distance.";
	const unsigned M = C_VERDICT | C_IMAGE;
	r.sample(branchProg(2, "BNE", 0x1234, 0x1234 + 129)); r.sample(branchProg(1, "BEQ", 0xFF, 0x81));
	vector<int> disp;
	for (int d = -260; d <= 260; d++)
		if (d <= -250 || (d >= -140 && d <= -118) || (d >= -4 && d <= 4) || (d >= 116 && d <= 140) || d >= 250) disp.push_back(d);
	unsigned step = cfg.thorough() ? 16 : 16;
	r.phase("all addresses x limit displacements", 65536 / step, [&](Worker &w, u64 u) {
		for (unsigned pc = u * step; pc < (u + 1) * step; pc++) {
			bool near = pc < 600 || pc > 0xFE00 || (pc & 0xFF) < 2 || (pc & 0xFF) > 0xFC || (pc & 0x7F) == 0x7E;
			if (!cfg.thorough() && !near && pc % 97) continue;
			if (pc > 0xFFFE) continue;
			for (int d : disp) {
				int dest = (int)pc + 2 + d;
				if (dest < 0 || dest > 0xFFFF) continue;
				for (int k = 0; k < 4; k++)
					if (!w.verify(branchProg(k, branchMn[(pc + d + 512) & 7], pc, dest), M, "branch")) return;
			}
			if (w.stopped()) return;
		}
	});
	r.phase("all displacements -300..300, all mnemonics", 601 * 8, [&](Worker &w, u64 u) {
		int d = (int)(u / 8) - 300;
		for (int pc : {0, 1, 0x7D, 0x7E, 0x7F, 0x80, 0xFE, 0xFF, 0x100, 0x1FE, 0x1234, 0x7F80, 0x7FFE, 0x8000, 0xFEFF, 0xFF7F, 0xFFFD, 0xFFFE}) {
			int dest = pc + 2 + d;
			if (dest < 0 || dest > 0xFFFF) continue;
			for (int k = 0; k < 4; k++) if (!w.verify(branchProg(k, branchMn[u & 7], pc, dest), M, "branch")) return;
		}
	});
	vector<int> pcs = {0, 0x80, 0x7FFE, 0x8000, 0xFFFE, 0x1234};
	r.phase("whole-range destinations", 65536 / 64, [&](Worker &w, u64 u) {
		for (unsigned d = u * 64; d < u * 64 + 64; d++) {
			if (!cfg.thorough() && d > 0x400 && d % 7 && (d & 0xFF) > 3) continue;
			for (int pc : pcs) for (int k = 0; k < 4; k++) {
				if (!cfg.thorough() && (k == 1 || k == 2) && d % 3) continue;
				if (!w.verify(branchProg(k, branchMn[d & 7], pc, d), M, "whole range")) return;
			}
		}
	});
	// natural layouts: n bytes of filler between branch and label
	r.phase("filler distances", 300 * 8, [&](Worker &w, u64 u) {
		int n = u / 8;
		string mn = branchMn[u % 8];
		for (int base : {0, 0x61, 0x7F80, 0xF000})
			for (int style = 0; style < 3; style++) {
				string fill;
				int left = n;
				if (style == 1) for (; left >= 2; left -= 2) fill += " LDA #$" + std::to_string(left % 10) + "\n";
				if (style == 2) for (; left >= 3; left -= 3) fill += left & 1 ? " JSR Q\n" : " STA $1234,X\n";
				for (; left; left--) fill += " NOP\n";
				string org = ".ORG " + hexs(base) + "\n", q = style == 2 ? "Q RTS\n" : "";
				if (!w.verify(org + q + " " + mn + " L\n" + fill + "L: NOP\n", M, "forward")) return;
				if (!w.verify(org + "L " + fill + " " + mn + " L\n" + q, M, "backward")) return;
				if (!w.verify(org + "L:\n" + fill + "Z: " + mn + " L\n" + mn + " Z\n" + q, M, "backward")) return;
				if (!w.verify(org + "S " + mn + " S\n" + mn + " L\n" + fill + q + "L LDA #1\n " + mn + " S\n", M, "both")) return;
			}
	});
	// branch operand written as a number is the displacement byte itself
	r.phase("numeric operands", 65536 / 64, [&](Worker &w, u64 u) {
		for (unsigned v = u * 64; v < u * 64 + 64; v++)
			if (!w.verify(".ORG $300\n" + string(branchMn[v & 7]) + " " + lit(v, v % 3 == 0 ? 16 : v % 3 == 1 ? 10 : 2) + "\n", M, "number")) return;
	});
	// several branches in flight at once
	Alphabet a;
	a.lines = {" BNE L", " BEQ M", "L", "M NOP", " LDA #1", " .ORG $7E", " .ORG $80", ".ORG $FE", " JMP L", "M = $81", " BCS L"};
	explore(r, "branch programs", a, M, cfg.thorough() ? 6 : 5, cfg.thorough() ? 9 : 7);
}

void prop_c05(Run &r)
{
	r.level = "model_checking";
	r.rule = "All programs up to the stated length over an alphabet of definitions, references, fillers and origin changes; then breadth-first over the distinct states of the reference model, with every transition replayed on the assembler; and every 16-bit value for every jump form and every place of definition.";
	const unsigned M = C_VERDICT | C_IMAGE;
	r.sample("JMP (L) / .ORG $20 / L NOP"); r.sample("LDA M / M = $1234  (rejected)");
	Alphabet a;
	a.lines = {"L NOP", "M = $1234", "N:", " JMP L", " JSR M", " JMP (L)", " JMP (M)", " JSR N", " LDA L", " LDA #1", ".ORG $20", " STA M,X", "L .EQU $7"};
	explore(r, "jumps", a, M, cfg.thorough() ? 6 : 5, cfg.thorough() ? 8 : 6);
	Alphabet b;
	b.lines = {" JMP L", " JMP (L)", " JSR L", " JMP L,X", " JSR (L)", " JMP (L),Y", " BNE L", " BNE (L)", "L RTS", ".DEFINE L $FFFE", " LDX L,Y", " CMP #L", ".END", ".ORG $FF00"};
	explore(r, "forms", b, M, cfg.thorough() ? 5 : 4, cfg.thorough() ? 8 : 6);
	r.phase("all label values, jump forms and places", 65536 / 32, [&](Worker &w, u64 u) {
		for (unsigned v = u * 32; v < u * 32 + 32; v++) {
			string V = hexs(v);
			string use = " JMP L\n JSR L\n JMP (L)\n";
			if (!w.verify("L = " + V + "\n" + use, M, "constant before")) return;
			if (!w.verify(use + "L .EQU " + V + "\n", M, "constant after")) return;
			bool some = cfg.thorough() || v < 0x400 || v % 16 == 0 || (v & 0xFF) == 0xFF;
			if (!some || v > 0xFFF0) continue;
			string u2 = ".ORG " + hexs(v < 0x40 ? 0x8000 : 0x10) + "\n" + use;
			if (!w.verify(u2 + ".ORG " + V + "\nL NOP\n", M, "address after")) return;
			if (!w.verify(".ORG " + V + "\nL:\n" + u2, M, "address before")) return;
			if (!w.verify(".ORG " + V + "\nL JMP L\n JMP (L)\nM JSR M\n", M, "on the instruction")) return;
		}
	});
	// any other instruction with a label that comes later, or never
	r.phase("every form with a later or missing label", 56 * NFORMS, [&](Worker &w, u64 u) {
		int mn = u / NFORMS; Form f = (Form)(u % NFORMS);
		if (!takesOperand(f)) return;
		string l = " " + insLine(mn, f, "FWD") + "\n";
		for (const char *pre : {"", "FWE = 5\n", "A1 NOP\n", "FW NOP\nFWDD = $10\n"})
			for (const char *post : {"", "FWD = $12\n", "FWD NOP\n", "FWD .EQU $1234\n", ".DEFINE FWD 1\n", ".END\nFWD NOP\n", "fwd: NOP\n", ".ORG $40\nFWD\n"})
				if (!w.verify(pre + l + post, M, "later or missing")) return;
	});
}
