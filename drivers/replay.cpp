// Runs the library's own routines on concrete inputs given on standard input (built against /repo's
// current sources).  One request per line:
//   call NAME nargs off... nwords hexwords...     arguments are offsets into a scratch arena of words
// Reply: the arena after the call, the return value, and which callee-saved registers changed.
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <unistd.h>
#include <string>
#include <map>
#include <vector>
#include "bn.h"
#include <sstream>
using namespace bn;
typedef mie::local::PrimitiveFunction PF;
static std::map<std::string, void*> tbl;
template<class F> static void ent(const char *n, F f) { tbl[n] = (void*)f; }
extern "C" uint64_t checked_call(void *f, uint64_t *args, uint64_t *bad);
asm(R"(
.text
.globl checked_call
checked_call:
	push %rbx
	push %rbp
	push %r12
	push %r13
	push %r14
	push %r15
	push %rdx
	mov %rdi, %rax
	mov %rsi, %r10
	mov 0(%r10), %rdi
	mov 8(%r10), %rsi
	mov 16(%r10), %rdx
	mov 24(%r10), %rcx
	mov 32(%r10), %r8
	movabs $0x1111222233334444, %rbx
	lea 1(%rbx), %rbp
	lea 2(%rbx), %r12
	lea 3(%rbx), %r13
	lea 4(%rbx), %r14
	lea 5(%rbx), %r15
	call *%rax
	mov (%rsp), %rdx
	movabs $0x1111222233334444, %r11
	xor %r11, %rbx
	lea 1(%r11), %r10
	xor %r10, %rbp
	or %rbp, %rbx
	lea 2(%r11), %r10
	xor %r10, %r12
	or %r12, %rbx
	lea 3(%r11), %r10
	xor %r10, %r13
	or %r13, %rbx
	lea 4(%r11), %r10
	xor %r10, %r14
	or %r14, %rbx
	lea 5(%r11), %r10
	xor %r10, %r15
	or %r15, %rbx
	mov %rbx, (%rdx)
	pop %rdx
	pop %r15
	pop %r14
	pop %r13
	pop %r12
	pop %rbp
	pop %rbx
	ret
)");
int main(int argc, char **argv)
{
	if (argc < 4) return 2;
	for (int i = 1; i + 2 < argc; i += 3) {
		std::string c = argv[i];
		int mode = atoi(argv[i + 1]);
		bool mulx = atoi(argv[i + 2]) != 0;
#ifdef BN_SUPPORT_SNARK
		bn::CurveParam cp = c == "snark2" ? bn::CurveSNARK2 : bn::CurveSNARK1;
#else
		bn::CurveParam cp = bn::CurveFp254BNb;
#endif
		Param::init(cp, mode, mulx);
	}
#include "entries.inc"
#ifdef HL
#include "entries2.inc"
#endif
	char op[64], name[128];
	std::vector<uint64_t> raw(8192);
	uint64_t *arena = (uint64_t*)(((size_t)&raw[0] + 63) & ~size_t(63));
	while (scanf("%63s", op) == 1) {
		if (strcmp(op, "call") == 0) {
			int n; uint64_t args[6] = {}; int nw;
			if (scanf("%127s %d", name, &n) != 2 || n > 5) return 3;
			mpz_class zs[6]; int zo[6] = {};
			for (int i = 0; i < n; i++) {
				char a[64]; if (scanf("%63s", a) != 1) return 3;
				if (a[0] == '#') args[i] = strtoull(a + 1, 0, 16);
				else if (a[0] == 'Z') { zo[i] = atoi(a + 1); args[i] = (uint64_t)&zs[i]; }
				else args[i] = (uint64_t)(arena + strtoul(a, 0, 10));
			}
			if (scanf("%d", &nw) != 1 || nw > 8000) return 3;
			for (int i = 0; i < nw; i++) if (scanf("%lx", &arena[i]) != 1) return 3;
			std::map<std::string, void*>::iterator it = tbl.find(name);
			if (it == tbl.end() || it->second == 0) { printf("missing\n"); fflush(stdout); continue; }
			// Z<offset>: a GMP integer given as sign, number of words, words
			for (int i = 0; i < n; i++) if (zo[i]) {
				const uint64_t *q = arena + zo[i];
				mpz_import(zs[i].get_mpz_t(), q[1], -1, 8, 0, 0, q + 2);
				if (q[0]) zs[i] = -zs[i];
			}
			alarm(5);
			uint64_t bad = 0, r;
			if (name[0] == 'h') {
				try { r = ((uint64_t (*)(uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t))it->second)(args[0], args[1], args[2], args[3], args[4], args[5]); }
				catch (std::exception&) { alarm(0); printf("throw\n"); fflush(stdout); continue; }
			} else
			r = checked_call(it->second, args, &bad);
			alarm(0);
			printf("ok %lx %d", (unsigned long)r, bad ? 1 : 0);
			for (int i = 0; i < nw; i++) printf(" %lx", (unsigned long)arena[i]);
			printf("\n"); fflush(stdout);
		}
	}
	return 0;
}
