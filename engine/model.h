// Reference assembler: what gaia's documentation and the 6502 define.
// Deliberately boring; shares no code with /repo.
#pragma once
#include <cstdint>
#include <string>
#include <string_view>
#include <unordered_map>
#include <vector>

namespace model {

enum Kind { K_NONE, K_CHAR, K_BIGLIT, K_LONGLABEL, K_SYNTAX, K_BASE, K_REDEF, K_FWD,
            K_MODE, K_OFFSET, K_MISSING, K_DIRECTIVE };
const char *kindText(Kind k);

enum Mode { M_IMP, M_ACC, M_IMM, M_ZP, M_ZPX, M_ZPY, M_ABS, M_ABSX, M_ABSY, M_IND,
            M_INDX, M_INDY, M_REL, NMODES };
enum Form { F_NONE, F_ACC, F_OP, F_OPX, F_OPY, F_IMM, F_IND, F_INDX, F_INDY, NFORMS };
extern const char *const mnemonics[56];
int opcode(int mn, Mode m);             // -1: no such mode
int modeSize(Mode m);                   // bytes
bool isBranch(int mn);
bool isJump(int mn);
int findMnemonic(std::string_view upper);  // -1: none
// mode an operand of this form and value takes; -1 when none exists
int selectMode(int mn, Form f, unsigned value);
std::string formText(Form f, const std::string &op);

struct Result {
	bool ok = false;
	bool outOfDomain = false;      // the documentation does not define the outcome
	const char *oodWhy = "";
	Kind kind = K_NONE;
	int line = 0;                  // 1-based
	int col = -1;                  // 0-based byte column of the caret, -1: none
	std::string echo;              // offending line, no line end
	std::vector<uint8_t> image;
	unsigned bytes = 0, symbols = 0;
	bool ended = false;            // .END seen
	bool lineError = false;        // rejected at a line (not at end of source)
	uint64_t state = 0;            // canonical state before end-of-source processing
	int nLines = 0;
};

class Assembler {
public:
	void run(std::string_view src, Result &r);
	bool wantState = false;
private:
	struct Tok { int t; int col; unsigned val; std::string str; };
	struct Ref { std::string label; int pc; bool branch; int line; int col; std::string echo; };
	std::unordered_map<std::string, int> sym;
	std::vector<Ref> refs;
	std::vector<uint8_t> img;
	std::vector<uint8_t> used;
	std::vector<std::pair<int,int>> extents;
	Tok toks[10];
	int ntoks = 0;
	int top = 0;
	bool emit(int pc, int n, Result &r);
	bool fail(Result &r, Kind k, int col, std::string_view line);
	bool lexLine(std::string_view line, Result &r);
	bool doLine(std::string_view line, Result &r, int &pc);
	uint64_t stateHash(int pc, const Result &r);
};
}
