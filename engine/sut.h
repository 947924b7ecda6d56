// Runs gaia's own main() in this process, behind a seam for files, output,
// memory and exit.
#pragma once
#include <csetjmp>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <string>
#include <string_view>
#include <vector>

// What goes wrong, or how calls are chunked, during one run.
struct Plan {
	int failIo[2] = {-1, -1};   // index of an I/O call that fails
	bool failIoOn = false;      // ... and every one after failIo[0]
	int failAlloc = -1;         // index of an allocation that fails
	bool failAllocOn = false;   // ... and every one after it
	int failAlloc2 = -1;        // another one that fails
	int failSize = 0;           // allocations of at least so many bytes fail (0: none)
	int readChunk = 0;          // largest read result (0: no limit)
	int stale = -1;             // bytes in an output file that exists already
	int fill = 0;               // fill fresh memory (heap and stack) with fill - 1; 0: leave it
	int world = 0;              // answers to getenv, time, getpid, rand, isatty
	int err = 0;                // errno of a failing I/O call (0: the usual one)
	bool part = false;          // a failing write still writes half of its bytes
	std::vector<uint8_t> cuts;  // sizes of the first reads, in turn
	std::vector<int> stops;     // for a sequence of runs: stop * 8 + torn of each, torn 7: the call fails
	int stop = -1;              // I/O call at which the process is killed
	int torn = 0;               // how much of a write then still happens, see tornPart
	bool again = false;         // files are as the run before left them
	bool plain() const { return failIo[0] < 0 && failAlloc < 0 && !failSize && !readChunk && stale < 0 && !fill && !world && cuts.empty() && stops.empty() && stop < 0; }
};

enum IoKind { IO_OPEN_SRC, IO_OPEN_OUT, IO_READ, IO_WRITE, IO_SEEK_OUT, IO_CLOSE_SRC, IO_CLOSE_OUT };
const char *ioName(int k);

struct Outcome {
	int rc = 0;
	std::string out;                 // standard output and standard error
	const uint8_t *img = nullptr;    // what reached the output file
	size_t len = 0;
	bool outOpened = false;          // output file was created or truncated
	bool overflow = false;           // output beyond 16 MB
	int ioCalls = 0, allocs = 0;
	int faultsHit = 0;
	bool stopped = false;            // killed on the way
	int asked = 0;                   // questions about environment, time, chance
	std::vector<uint8_t> ioLog;      // kinds of I/O calls, in order
	// parsed from out
	bool success = false, summaryOk = false;
	unsigned bytes = 0, hexBytes = 0, symbols = 0;
	void parse();
};

class Sut {
public:
	// real: use real files in dir instead of in-memory ones
	bool load(const char *lib, std::string &err);
	void run(std::string_view src, Outcome &o, const Plan *plan = nullptr, const char *name = "prog.asm");
	bool realFiles = false;
	bool canName(const char *name) const { return !realFiles || (*name && !strchr(name, '/') && strlen(name) < 200); }
	std::string dir;
	bool logIo = false;
};
