#include "props.h"
#include <dirent.h>

vector<string> exampleSources()
{
	vector<string> names, v;
	if (DIR *d = opendir(cfg.example.c_str())) {
		while (dirent *e = readdir(d)) { string n = e->d_name; if (n.size() > 4 && n.substr(n.size() - 4) == ".asm") names.push_back(n); }
		closedir(d);
	}
	std::sort(names.begin(), names.end());
	for (auto &n : names) {
		string s; char b[65536]; size_t k;
		FILE *f = fopen((cfg.example + "/" + n).c_str(), "rb");
		if (!f) continue;
		while ((k = fread(b, 1, sizeof b, f))) s.append(b, k);
		fclose(f);
		v.push_back(s);
	}
	return v;
}

static void examples(Run &r, unsigned mask)
{
	auto v = exampleSources();
	if (v.empty()) return;
	r.phase("the example programs", v.size(), [&](Worker &w, u64 u) { w.verify(v[u], mask, "example"); });
}

void props_run(Run &r)
{
	typedef void (*Fn)(Run &);
	static const Fn fn[] = {prop_c01, prop_c02, prop_c03, prop_c04, prop_c05, prop_c06, prop_c07, prop_c08, prop_c09, prop_c10, prop_c11, prop_c12, prop_c13,
		prop_c14, prop_c15, prop_c16, prop_c17, prop_c18, prop_c19, prop_c20, prop_c21, prop_c22, prop_c23, prop_c24, prop_c25,
		prop_c26, prop_c27, prop_c28, prop_c29, prop_c30, prop_c31, prop_c32, prop_c33, prop_c34, prop_c35};
	static_assert(sizeof fn / sizeof *fn == NPROPS);
	int k = atoi(cfg.prop.c_str() + 1);
	if (cfg.prop.size() != 3 || k < 1 || k > NPROPS) { fprintf(stderr, "no property %s\n", cfg.prop.c_str()); exit(3); }
	r.assume("Sequential program: the only nondeterminism is the input, the answers of the environment and memory, all of which the harness decides.");
	unsigned m = k == 14 ? C_DIAG | C_REPORT : k == 18 || k == 16 || k == 17 || k == 20 || k == 21 ? C_TERM | C_REPORT : C_VERDICT | C_IMAGE | C_BYTES | C_SYMS;
	if (k != 20 && k != 21 && k < 26) examples(r, m);
	auto cores = coresFor(k);
	if (!cores.empty()) contexts(r, k == 12 ? m | C_LINE : m, cores);
	fn[k - 1](r);
}
