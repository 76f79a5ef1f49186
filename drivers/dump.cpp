// Built by the checks against /repo's current sources. Initialises the library with the given
// curve / code path and writes (1) the addresses of the run-time generated entry points and
// (2) a snapshot of this process's writable memory (generated code, tables, parameters).
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <string>
#include "bn.h"
#include <sstream>
using namespace bn;
typedef mie::local::PrimitiveFunction PF;
template<class F> static void ent(const char *n, F f) { printf("entry %s %zu\n", n, (size_t)(void*)f); }
int main(int argc, char **argv)
{
	setvbuf(stdout, 0, _IOFBF, 1 << 16);
	if (argc < 2) return 2;
	for (int i = 2; i + 2 < argc; i += 3) {
		std::string c = argv[i];
		int mode = atoi(argv[i + 1]);
		bool mulx = atoi(argv[i + 2]) != 0;
#ifdef BN_SUPPORT_SNARK
		bn::CurveParam cp = c == "snark2" ? bn::CurveSNARK2 : bn::CurveSNARK1;
#else
		bn::CurveParam cp = bn::CurveFp254BNb;
#endif
		Param::init(cp, mode, mulx);
	}
#include "entries.inc"
#ifdef HL
#include "entries2.inc"
#endif
	fflush(stdout);
	FILE *out = fopen(argv[1], "wb");
	FILE *mp = fopen("/proc/self/maps", "r");
	char line[512];
	while (fgets(line, sizeof(line), mp)) {
		size_t b, e; char perm[8]; size_t off; char dev[16]; size_t ino; char path[400] = "";
		if (sscanf(line, "%zx-%zx %7s %zx %15s %zu %399s", &b, &e, perm, &off, dev, &ino, path) < 6) continue;
		if (perm[0] != 'r' || strstr(path, "[v") || strstr(path, "[stack")) continue;
		bool exe = strstr(path, "/dump_") != 0;
		bool anon = path[0] == 0 || strcmp(path, "[heap]") == 0;
		if (!(exe || anon)) continue;
		if (anon && perm[1] != 'w') continue;
		if (e - b > (1u << 26)) continue;
		printf("map %zu %zu %s %s\n", b, e - b, perm, path[0] ? path : "anon");
		fwrite((void*)b, 1, e - b, out);
	}
	fclose(out);
	return 0;
}
