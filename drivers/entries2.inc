// high-level entry points (each calls the real code of /repo's headers)
#define L(nm, args, ...) ent(nm, +[] args { __VA_ARGS__; });
#define BOTH(nm, args, body) { typedef Fp F; typedef Ec1 Ec; L(nm "1", args, body) } { typedef Fp2 F; typedef Ec2 Ec; L(nm "2", args, body) }
	BOTH("h:ECDouble", (F* o, const F* a), ecop::ECDouble(o, a))
	BOTH("h:ECAdd", (F* o, const F* a, const F* b), ecop::ECAdd(o, a, b))
	BOTH("h:copy", (F* o, const F* a), ecop::copy(o, a))
	BOTH("h:NormalizeJac", (F* o, const F* a), ecop::NormalizeJac(o, a))
	BOTH("h:NormalizeHom", (F* o, const F* a), ecop::NormalizeHom(o, a))
	L("h:isOnECJac3", (const Fp* a), return (int)ecop::isOnECJac3(a))
	L("h:isOnECHom2", (const Fp* a), return (int)ecop::isOnECHom2(a))
	L("h:isOnECHom3", (const Fp* a), return (int)ecop::isOnECHom3(a))
	L("h:isOnTwistECJac3", (const Fp2* a), return (int)ecop::isOnTwistECJac3(a))
	L("h:isOnTwistECHom2", (const Fp2* a), return (int)ecop::isOnTwistECHom2(a))
	L("h:isOnTwistECHom3", (const Fp2* a), return (int)ecop::isOnTwistECHom3(a))
	BOTH("h:ScalarMultV", (F* o, const F* a, const mie::Vuint* m), ecop::ScalarMult(o, a, *m))
	BOTH("h:ScalarMultZ", (F* o, const F* a, const mpz_class* m), ecop::ScalarMult(o, a, *m))
	BOTH("h:ScalarMultI", (F* o, const F* a, int m), ecop::ScalarMult(o, a, m))
	BOTH("h:ScalarMultS", (F* o, const F* a, size_t m), ecop::ScalarMult(o, a, m))
	BOTH("h:Ec::dbl", (Ec* o, const Ec* a), Ec::dbl(*o, *a))
	BOTH("h:Ec::add", (Ec* o, const Ec* a, const Ec* b), Ec::add(*o, *a, *b))
	BOTH("h:Ec::sub", (Ec* o, const Ec* a, const Ec* b), Ec::sub(*o, *a, *b))
	BOTH("h:Ec::neg", (Ec* o, const Ec* a), Ec::neg(*o, *a))
	BOTH("h:Ec::+=", (Ec* o, const Ec* b), *o += *b)
	BOTH("h:Ec::-=", (Ec* o, const Ec* b), *o -= *b)
	BOTH("h:Ec::+", (Ec* o, const Ec* a, const Ec* b), *o = *a + *b)
	BOTH("h:Ec::-", (Ec* o, const Ec* a, const Ec* b), *o = *a - *b)
	BOTH("h:Ec::==", (const Ec* a, const Ec* b), return (int)(*a == *b))
	BOTH("h:Ec::!=", (const Ec* a, const Ec* b), return (int)(*a != *b))
	BOTH("h:Ec::isZero", (const Ec* a), return (int)a->isZero())
	BOTH("h:Ec::isValid", (const Ec* a), return (int)a->isValid())
	BOTH("h:Ec::normalize", (const Ec* a), a->normalize())
	BOTH("h:Ec::clear", (Ec* a), a->clear())
	BOTH("h:Ec::set2", (Ec* o, const F* x, const F* y, int v), o->set(*x, *y, v != 0))
	BOTH("h:Ec::set3", (Ec* o, const F* x, const F* y, const F* z, int v), o->set(*x, *y, *z, v != 0))
	BOTH("h:Ec::ctor2", (Ec* o, const F* x, const F* y, int v), new (o) Ec(*x, *y, v != 0))
	BOTH("h:Ec::ctor3", (Ec* o, const F* x, const F* y, const F* z, int v), new (o) Ec(*x, *y, *z, v != 0))
	BOTH("h:Ec::mulV", (Ec* o, const Ec* a, const mie::Vuint* m), Ec::mul(*o, *a, *m))
	BOTH("h:Ec::mulI", (Ec* o, const Ec* a, int m), Ec::mul(*o, *a, m))
	BOTH("h:Ec::mulZ", (Ec* o, const Ec* a, const mpz_class* m), Ec::mul(*o, *a, *m))
	BOTH("h:Ec::*=V", (Ec* o, const mie::Vuint* m), *o *= *m)
	BOTH("h:Ec::*V", (Ec* o, const Ec* a, const mie::Vuint* m), *o = *a * *m)
	L("h:Frob1", (Fp2* o, const Fp2* a), ecop::FrobEndOnTwist_1(o, a))
	L("h:Frob2", (Fp2* o, const Fp2* a), ecop::FrobEndOnTwist_2(o, a))
	L("h:Frob8", (Fp2* o, const Fp2* a), ecop::FrobEndOnTwist_8(o, a))
	L("h:pairing", (Fp12* f, const Fp2* Q, const Fp* P), opt_atePairing<Fp>(*f, Q, P))
	L("h:pairingJac", (Fp12* f, const Fp2* Q, const Fp* P), opt_atePairingJac<Fp>(*f, Q, P))
	L("h:pairingEc", (Fp12* f, const Ec2* Q, const Ec1* P), opt_atePairing(*f, *Q, *P))
	L("h:precomputeG2", (std::vector<Fp6>* c, Fp2* Q, const Fp2* in), components::precomputeG2(*c, Q, in))
	L("h:millerLoop", (Fp12* f, const std::vector<Fp6>* c, const Fp* P), components::millerLoop(*f, *c, P))
	L("h:millerLoop2", (Fp12* f, const std::vector<Fp6>* c, const Fp* P, const std::vector<Fp6>* d, const Fp* R), components::millerLoop2(*f, *c, P, *d, R))
	L("h:fixed_power", (Fp12* z, const Fp12* x), Compress::fixed_power(*z, *x))
	L("h:decompress", (Fp12* z, const Fp12* x, int n), { Compress c(*z, *x); Compress::square_n(c, n); c.decompress(); })
	L("h:decompress0", (Fp12* z, const Fp12* x), { Compress c(*z, *x); c.decompress(); })
	L("h:final_exp", (Fp12* f), f->final_exp())
	L("h:mapToCyclo", (Fp12* z, Fp12* f), f->mapToCyclo(*z))
	L("x:precomp", (Fp12* f, const Fp2* Q, const Fp* P, const Fp2* U), { std::vector<Fp6> c; Fp2 T[3]; if (U) components::precomputeG2(c, T, U); components::precomputeG2(c, T, Q); components::millerLoop(*f, c, P); f->final_exp(); })
	L("x:precomp2", (Fp12* f, const Fp2* Q, const Fp* P, const Fp2* U, const Fp* S), { std::vector<Fp6> c, d; Fp2 T[3]; components::precomputeG2(c, T, Q); components::precomputeG2(d, T, U); components::millerLoop2(*f, c, P, d, S); f->final_exp(); })
	L("p:Fp::isZero", (const Fp* a), return (int)a->isZero())
	L("p:Fp2::isZero", (const Fp2* a), return (int)a->isZero())
	L("p:Fp::compare", (const Fp* a, const Fp* b), return Fp::compare(*a, *b))
	L("p:Fp2::==", (const Fp2* a, const Fp2* b), return (int)(*a == *b))
	L("p:Fp2::!=", (const Fp2* a, const Fp2* b), return (int)(*a != *b))
	L("p:Fp::==", (const Fp* a, const Fp* b), return (int)(*a == *b))
	L("p:Fp6::==", (const Fp6* a, const Fp6* b), return (int)(*a == *b))
	L("p:Fp12::==", (const Fp12* a, const Fp12* b), return (int)(*a == *b))
	L("h:Fp::inv", (Fp* z, const Fp* x), Fp::inv(*z, *x))
	L("h:Fp::inverse", (Fp* z), z->inverse())
	L("h:Fp::/", (Fp* z, const Fp* x, const Fp* y), *z = *x / *y)
	L("h:Fp::/=", (Fp* z, const Fp* x), *z /= *x)
	L("h:Fp::squareRoot", (Fp* z, const Fp* x), return (int)Fp::squareRoot(*z, *x))
