#pragma once
#include "core.h"
#include <algorithm>
#include <cstring>
#include <map>
using model::F_NONE; using model::F_ACC; using model::F_OP; using model::F_OPX; using model::F_OPY;
using model::F_IMM; using model::F_IND; using model::F_INDX; using model::F_INDY; using model::NFORMS; using model::Form;

struct Ins { int mn; Form f; };
inline string insLine(int mn, Form f, const string &op) { return string(model::mnemonics[mn]) + model::formText(f, op); }
inline int mnOf(const char *s) { return model::findMnemonic(s); }
inline bool takesOperand(Form f) { return f != F_NONE && f != F_ACC; }
string lower(string s);
string hexs(unsigned v);                     // $XXXX, minimal digits
vector<unsigned> boundaryValues();           // 16-bit values around every byte and power-of-two edge
const int NPROPS = 35;
// one line per documented opcode, with operand numbers of the right size
vector<string> opcodeLines();
vector<string> exampleSources();
// core programs of property k, and their exploration in a matrix of contexts
vector<string> coresFor(int k);
void contexts(Run &r, unsigned mask, const vector<string> &cores, const vector<Plan> &plans = {});
const vector<string> &alikeNames();
const vector<string> &knownWords();
string buildPlain(const string &core);
const vector<string> &longTails();            // texts with many or very long lines
string manyOf(int kind, unsigned n, const string &p);   // n statements of a kind, names starting with p
extern const int MANY_KINDS;
vector<unsigned> manyCounts();
void manyStatements(Run &r, unsigned mask);
vector<string> faultPrograms();
vector<string> allCores();               // the core programs of all properties, in the plain context

void prop_c01(Run &r); void prop_c02(Run &r); void prop_c03(Run &r); void prop_c04(Run &r); void prop_c05(Run &r);
void prop_c06(Run &r); void prop_c07(Run &r); void prop_c08(Run &r); void prop_c09(Run &r); void prop_c10(Run &r);
void prop_c11(Run &r); void prop_c12(Run &r); void prop_c13(Run &r); void prop_c14(Run &r); void prop_c15(Run &r);
void prop_c16(Run &r); void prop_c17(Run &r); void prop_c18(Run &r); void prop_c19(Run &r); void prop_c20(Run &r);
void prop_c21(Run &r); void prop_c22(Run &r); void prop_c23(Run &r); void prop_c24(Run &r); void prop_c25(Run &r);
void prop_c26(Run &r); void prop_c27(Run &r); void prop_c28(Run &r); void prop_c29(Run &r); void prop_c30(Run &r);
void prop_c31(Run &r); void prop_c32(Run &r); void prop_c33(Run &r); void prop_c34(Run &r); void prop_c35(Run &r);
void cli_told(Run &r);
void cli_many(Run &r);
void cli_stopped(Run &r);
