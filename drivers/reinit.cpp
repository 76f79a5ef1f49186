// Built by the checks against /repo's current sources.  Runs histories of initialisations and prints given memory
// ranges after each, the addresses of the entry points and the generated code.  usage: reinit RANGES HISTORIES
//   RANGES: lines "addr len" (absolute) or "addr *len" (the block a pointer stored at addr points to)
//                 or "addr v" (contents of the std::vector at addr)
//   HISTORIES: lines of triples "curve mode mulx ..."
// Every history runs in a forked child, so that all of them start from the same uninitialised process.
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <unistd.h>
#include <sys/wait.h>
#include <string>
#include <vector>
#include "bn.h"
#include <sstream>
using namespace bn;
typedef mie::local::PrimitiveFunction PF;
static std::vector<std::pair<std::string, size_t> > ents;
template<class F> static void ent(const char *n, F f) { ents.push_back(std::make_pair(std::string(n), (size_t)(void*)f)); }
static void init(const std::string& c, int mode, bool mulx)
{
#ifdef BN_SUPPORT_SNARK
	bn::CurveParam cp = c == "snark2" ? bn::CurveSNARK2 : bn::CurveSNARK1;
#else
	bn::CurveParam cp = bn::CurveFp254BNb;
#endif
	Param::init(cp, mode, mulx);
}
int main(int argc, char **argv)
{
	std::vector<std::pair<size_t, std::string> > rs;
	char buf[4096];
	FILE *f = fopen(argv[1], "r");
	while (fgets(buf, sizeof(buf), f)) { size_t a; char k[64]; if (sscanf(buf, "%zu %63s", &a, k) == 2) rs.push_back(std::make_pair(a, std::string(k))); }
	fclose(f);
	static char obuf[1 << 20];
	setvbuf(stdout, obuf, _IOFBF, sizeof(obuf));
	f = fopen(argv[2], "r");
	int no = 0;
	while (fgets(buf, sizeof(buf), f)) {
		fflush(stdout);
		pid_t pid = fork();
		if (pid == 0) {
			alarm(60);
			std::istringstream is(buf);
			std::string c; int m, x;
			while (is >> c >> m >> x) init(c, m, x != 0);
#include "entries.inc"
			printf("%d E ", no);
			for (size_t i = 0; i < ents.size(); i++) {
				if (ents[i].first[0] == 'c' && ents[i].first[1] == ':') continue;
				printf("%s=%zx,", ents[i].first.c_str(), ents[i].second);
			}
			for (size_t i = 0; i < rs.size(); i++) {
				const uint8_t *p = (const uint8_t*)rs[i].first; size_t n = 0;
				if (rs[i].second[0] == 'v') { const uint8_t *b = *(const uint8_t**)p, *e = *(const uint8_t**)(p + 8); p = b; n = e - b; }
				else if (rs[i].second[0] == '*') { p = *(const uint8_t**)p; n = strtoul(rs[i].second.c_str() + 1, 0, 10); }
				else n = strtoul(rs[i].second.c_str(), 0, 10);
				printf(" %zx:", (size_t)p);
				for (size_t j = 0; p && n < 65536 && j < n; j++) printf("%02x", p[j]);
			}
			// the memory around the generated code
			const size_t at[] = { (size_t)(void*)PF::addN, (size_t)(void*)Fp::add };
			for (int i = 0; i < 2; i++) {
				FILE *mp = fopen("/proc/self/maps", "r");
				char line[512]; size_t b, e, lo = 0, hi = 0;
				while (fgets(line, sizeof(line), mp)) if (sscanf(line, "%zx-%zx", &b, &e) == 2) {
					if (b == hi) hi = e;
					else if (hi <= at[i]) { lo = b; hi = e; }
				}
				fclose(mp);
				const size_t W = i ? 49152 : 8192;
				lo = std::max(lo, (at[i] & ~size_t(4095)) - W); hi = std::min(hi, (at[i] & ~size_t(4095)) + W);
				printf(" %zx:", lo);
				for (const uint8_t *p = (const uint8_t*)lo; p < (const uint8_t*)hi; p++) printf("%c%c", "0123456789abcdef"[*p >> 4], "0123456789abcdef"[*p & 15]);
			}
			printf("\n");
			fflush(stdout);
			_exit(0);
		}
		int st = 0;
		waitpid(pid, &st, 0);
		if (st != 0) printf("%d X %d\n", no, st);
		no++;
	}
	return 0;
}
