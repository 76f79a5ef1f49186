// entry points into the run-time generated code and the function pointers
#define E(x) ent(#x, x);
	ent("PF::addN", PF::addN); ent("PF::add1", PF::add1); ent("PF::subN", PF::subN); ent("PF::sub1", PF::sub1);
	ent("PF::mul1", PF::mul1); ent("PF::div1", PF::div1); ent("PF::mod1", PF::mod1);
	E(Fp::add) E(Fp::addNC) E(Fp::subNC) E(Fp::shr1) E(Fp::shr2) E(Fp::sub) E(Fp::neg) E(Fp::mul) E(Fp::preInv)
	E(FpDbl::add) E(FpDbl::addNC) E(FpDbl::neg) E(FpDbl::sub) E(FpDbl::subNC) E(FpDbl::mul) E(FpDbl::mod)
	E(Fp2::add) E(Fp2::addNC) E(Fp2::sub) E(Fp2::subNC) E(Fp2::mul) E(Fp2::square) E(Fp2::mul_xi) E(Fp2::mul_Fp_0) E(Fp2::divBy2)
	E(Fp2Dbl::add) E(Fp2Dbl::addNC) E(Fp2Dbl::neg) E(Fp2Dbl::sub) E(Fp2Dbl::subNC) E(Fp2Dbl::mulOpt1) E(Fp2Dbl::mulOpt2)
	E(Fp2Dbl::square) E(Fp2Dbl::mod) E(Fp2Dbl::mul_xi)
	E(Fp6::add) E(Fp6::sub) E(Fp6::mul) E(Fp6::pointDblLineEval) E(Fp6::pointDblLineEvalWithoutP)
	E(Fp6Dbl::mul) E(Compress::square_n) E(Fp12::square) E(Fp12::mul) E(Fp12Dbl::mul_Fp2_024)

// entry points into the C++ parts (each calls the real code of /repo's headers)
#define L(nm, args, body) ent(nm, +[] args { body; });
#define U(T) (T* z, const T* x)
#define B(T) (T* z, const T* x, const T* y)
	// prime field
	L("c:Fp::divBy2", U(Fp), Fp::divBy2(*z, *x))
	L("c:Fp::divBy4", U(Fp), Fp::divBy4(*z, *x))
	L("c:Fp::square", U(Fp), Fp::square(*z, *x))
	L("c:Fp::operator+=", (Fp* z, const Fp* x), *z += *x)
	L("c:Fp::operator-=", (Fp* z, const Fp* x), *z -= *x)
	L("c:Fp::operator*=", (Fp* z, const Fp* x), *z *= *x)
	L("c:Fp::operator+", B(Fp), *z = *x + *y)
	L("c:Fp::operator-", B(Fp), *z = *x - *y)
	L("c:Fp::operator*", B(Fp), *z = *x * *y)
	L("c:Fp::operator-u", U(Fp), *z = -*x)
	L("c:Fp::fast_modp", (Fp* z), Fp::fast_modp(*z))
	L("c:Fp::_2z_add_3x", (Fp* z, const Fp* x), Fp::_2z_add_3x(*z, *x))
	L("c:Fp::_3z_add_2xC", (Fp* z, const Fp* x), Fp::_3z_add_2xC(*z, *x))
	L("c:Fp::fromMont", U(Fp), Fp::fromMont(*z, *x))
	L("c:Fp::toMont", U(Fp), Fp::toMont(*z, *x))
	// double width
	L("c:FpDbl::subOpt1", B(FpDbl), FpDbl::subOpt1(*z, *x, *y))
	L("c:FpDbl::operator+=", (FpDbl* z, const FpDbl* x), *z += *x)
	L("c:FpDbl::operator-=", (FpDbl* z, const FpDbl* x), *z -= *x)
	L("c:Fp2Dbl::addC", B(Fp2Dbl), Fp2Dbl::addC(*z, *x, *y))
	L("c:Fp2Dbl::addNC_C", B(Fp2Dbl), Fp2Dbl::addNC_C(*z, *x, *y))
	L("c:Fp2Dbl::negC", U(Fp2Dbl), Fp2Dbl::negC(*z, *x))
	L("c:Fp2Dbl::subC", B(Fp2Dbl), Fp2Dbl::subC(*z, *x, *y))
	L("c:Fp2Dbl::subNC_C", B(Fp2Dbl), Fp2Dbl::subNC_C(*z, *x, *y))
	L("c:Fp2Dbl::mul_xiC", U(Fp2Dbl), Fp2Dbl::mul_xiC(*z, *x))
	L("c:Fp2Dbl::mulOpt1C", (Fp2Dbl* z, const Fp2* x, const Fp2* y), Fp2Dbl::mulOpt1C(*z, *x, *y))
	L("c:Fp2Dbl::mulOpt2C", (Fp2Dbl* z, const Fp2* x, const Fp2* y), Fp2Dbl::mulOpt2C(*z, *x, *y))
	L("c:Fp2Dbl::squareC", (Fp2Dbl* z, const Fp2* x), Fp2Dbl::squareC(*z, *x))
	L("c:Fp2Dbl::modC", (Fp2* z, const Fp2Dbl* x), Fp2Dbl::modC(*z, *x))
	// F_p2
	L("c:Fp2::addC", B(Fp2), Fp2::addC(*z, *x, *y))
	L("c:Fp2::addNC_C", B(Fp2), Fp2::addNC_C(*z, *x, *y))
	L("c:Fp2::subC", B(Fp2), Fp2::subC(*z, *x, *y))
	L("c:Fp2::subNC_C", B(Fp2), Fp2::subNC_C(*z, *x, *y))
	L("c:Fp2::neg", U(Fp2), Fp2::neg(*z, *x))
	L("c:Fp2::mulC", B(Fp2), Fp2::mulC(*z, *x, *y))
	L("c:Fp2::squareC", U(Fp2), Fp2::squareC(*z, *x))
	L("c:Fp2::divBy2C", U(Fp2), Fp2::divBy2C(*z, *x))
	L("c:Fp2::divBy4", U(Fp2), Fp2::divBy4(*z, *x))
	L("c:Fp2::mul_xiC", U(Fp2), Fp2::mul_xiC(*z, *x))
	L("c:Fp2::mul_Fp_0C", (Fp2* z, const Fp2* x, const Fp* b), Fp2::mul_Fp_0C(*z, *x, *b))
	L("c:Fp2::mul_Fp_1", (Fp2* z, const Fp* b), Fp2::mul_Fp_1(*z, *b))
	L("c:Fp2::mul_x", (Fp2* z), z->mul_x())
	L("c:Fp2::inverse", (Fp2* z), z->inverse())
	L("c:Fp2::operator+=", (Fp2* z, const Fp2* x), *z += *x)
	L("c:Fp2::operator-=", (Fp2* z, const Fp2* x), *z -= *x)
	L("c:Fp2::operator*=", (Fp2* z, const Fp2* x), *z *= *x)
	// F_p6
	L("c:Fp6::addC", B(Fp6), Fp6::addC(*z, *x, *y))
	L("c:Fp6::subC", B(Fp6), Fp6::subC(*z, *x, *y))
	L("c:Fp6::neg", U(Fp6), Fp6::neg(*z, *x))
	L("c:Fp6::mulC", B(Fp6), Fp6::mulC(*z, *x, *y))
	L("c:Fp6::square", U(Fp6), Fp6::square(*z, *x))
	L("c:Fp6::inverse", (Fp6* z), z->inverse())
	L("c:Fp6Dbl::mulC", (Fp6Dbl* z, const Fp6* x, const Fp6* y), Fp6Dbl::mulC(*z, *x, *y))
	L("c:Fp6Dbl::add", B(Fp6Dbl), Fp6Dbl::add(*z, *x, *y))
	L("c:Fp6Dbl::sub", B(Fp6Dbl), Fp6Dbl::sub(*z, *x, *y))
	L("c:Fp6Dbl::mod", (Fp6* z, const Fp6Dbl* x), Fp6Dbl::mod(*z, *x))
	// F_p12
	L("c:Fp12::add", B(Fp12), Fp12::add(*z, *x, *y))
	L("c:Fp12::sub", B(Fp12), Fp12::sub(*z, *x, *y))
	L("c:Fp12::neg", U(Fp12), Fp12::neg(*z, *x))
	L("c:Fp12::mulC", B(Fp12), Fp12::mulC(*z, *x, *y))
	L("c:Fp12::squareC", (Fp12* z), Fp12::squareC(*z))
	L("c:Fp12::inverse", (Fp12* z), z->inverse())
	L("c:Fp12::Frobenius", U(Fp12), x->Frobenius(*z))
	L("c:Fp12::Frobenius2", U(Fp12), x->Frobenius2(*z))
	L("c:Fp12::Frobenius3", U(Fp12), x->Frobenius3(*z))
	L("c:Fp12::sqru", (Fp12* z), z->sqru())
	L("c:Compress::square1", (Fp12* z), { Compress c(*z, *z); Compress::square_n(c, 1); })
	L("c:Compress::squareN", (Fp12* z, int n), { Compress c(*z, *z); Compress::square_n(c, n); })
	L("c:Fp12Dbl::mul_Fp2_024C", (Fp12* z, const Fp6* x), Fp12::Dbl::mul_Fp2_024C(*z, *x))
	L("c:Fp12Dbl::mul_Fp2_024_Fp2_024", (Fp12* z, const Fp6* x, const Fp6* y), Fp12::Dbl::mul_Fp2_024_Fp2_024(*z, *x, *y))
	L("c:Fp12Dbl::mod", (Fp12* z, Fp12::Dbl* x), Fp12::Dbl::mod(*z, *x))
	// contract boundaries
	L("f:Fp::inv", U(Fp), Fp::inv(*z, *x))
	// line evaluation
	L("c:Fp6::mulFp6_24_Fp_01", (Fp6* l, const Fp* P), Fp6::mulFp6_24_Fp_01(*l, P))
	L("c:Fp6::pointDblLineEvalWithoutPC", (Fp6* l, Fp2* R), Fp6::pointDblLineEvalWithoutPC(*l, R))
	L("c:Fp6::pointDblLineEvalC", (Fp6* l, Fp2* R, const Fp* P), Fp6::pointDblLineEvalC(*l, R, P))
	L("c:Fp6::pointAddLineEvalWithoutP", (Fp6* l, Fp2* R, const Fp2* Q), Fp6::pointAddLineEvalWithoutP(*l, R, Q))
	L("c:Fp6::pointAddLineEval", (Fp6* l, Fp2* R, const Fp2* Q, const Fp* P), Fp6::pointAddLineEval(*l, R, Q, P))
	L("c:Fp6::mul_Fp_b", (Fp6* z, const Fp* x), Fp6::mul_Fp_b(*z, *x))
	L("c:Fp6::mul_Fp_c", (Fp6* z, const Fp* x), Fp6::mul_Fp_c(*z, *x))
