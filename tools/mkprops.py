#!/usr/bin/env python3
# Single source of /verif/properties.jsonl (run by hand after editing; the jsonl is committed).
import json, os
P=[]
def prop(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    d=dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if observe: d['anchors']['observe_at']=observe
    d['anchors']['hook_needed']=None
    P.append(d)

prop('C01','Big-integer add, subtract, multiply are exact',
 'For every pair of unsigned or signed big integers whose operands and result fit the fixed capacity, addition, subtraction, multiplication and negation give exactly the mathematical integer, stored without leading zero words, also when the output object is one of the inputs. An unsigned subtraction that would be negative, or a result that needs more room than the capacity, stops with an error and never yields a wrong value.',
 ['inputs'],'all operand values of every word length up to capacity, all sign combinations, all aliasings of output with inputs',
 'test_zm adds and multiplies a few dozen random or fixed values; carry chains across every length, values with all-ones words, and aliased outputs are almost never hit.',
 ['include/zm.h','src/zm.cpp'],
 [('word-array add/sub/mul primitives (portable and run-time generated)','src/zm.cpp'),('VuintT::add/sub/mul, VsintT::add/sub/mul','include/zm.h')],
 [('size and words of a big integer','little-endian 64-bit words, top word non-zero unless the value is 0','include/zm.h')])
prop('C02','Big-integer division is Euclidean (floor for signed)',
 'Dividing any unsigned big integer by any non-zero one yields the unique quotient and remainder with x = q*y + r and 0 <= r < y; the signed division yields the floor quotient with the remainder taking the sign of the divisor; division by zero is reported by the return value. This holds for every aliasing of quotient and remainder with the operands.',
 ['inputs'],'all dividend and divisor lengths and values, signs and aliasings',
 'The quotient is estimated in floating point and corrected in a loop; tests try a few values and cannot hit the rounding boundaries of the estimate.',
 ['include/zm.h','src/zm.cpp'],
 [('VuintT::div with the approximate quotient loop','include/zm.h'),('single-word division primitives','src/zm.cpp'),('VsintT::div','include/zm.h')])
prop('C03','Big-integer shift, compare, bit-length and bit-test agree with the integer',
 'For every big integer x and amount n, shifting left gives x*2^n, shifting right gives floor(x/2^n), the bit length is the position of the highest set bit plus one (0 for 0), testing a bit returns that binary digit, and the comparison operators order values exactly as the integers (minus zero equals zero).',
 ['inputs'],'all values of every length, all shift amounts and bit positions',
 'Tests use a handful of values; word-boundary shift amounts, values just below a power of two and positions beyond the top word are not sampled.',
 ['include/zm.h'],
 [('shlUnit/shlBit/shrUnit/shrBit','include/zm.h'),('bitLen, testBit','include/zm.h'),('PrimitiveFunction::compare, VsintT::compare','include/zm.h')])
prop('C04','Number text conversion round-trips',
 'Printing any big integer or field element in decimal or in 0x-hexadecimal and reading the text back gives the same value, the printed text is the canonical one (no leading zeros, fixed-width inner groups), and a text holding a character that is not a digit of its base is refused with an exception.',
 ['inputs'],'all values, both bases, and all malformed strings',
 'Tests convert a few constants; digit groups with inner zeros, group boundaries and malformed text at every position are not covered.',
 ['include/zm.h','include/zm2.h'],
 [('VuintT::set(string)/toString 9-digit and 8-digit groups','include/zm.h'),('VsintT text conversion','include/zm.h'),('Fp::toString / Fp::set(string)','include/zm2.h')])
prop('C05','Power by repeated squaring equals x^y',
 'For every base x of a ring type of the library and every non-negative exponent y given as int, size_t, big integer or GMP integer, the power function returns the product of y copies of x (1 for y = 0).',
 ['inputs'],'all exponents of every supported integer type and length, all bases',
 'Tests raise to a few exponents; exponents with zero words, zero itself, top bit set, or of each integer type are not enumerated.',
 ['include/zm.h','include/bn.h'],
 [('power<T,S> and the integer-type dispatch IntTag','include/zm.h'),('IntTag<mpz_class>','include/bn.h')])
prop('C06','Generic Z/m class is exact modular arithmetic',
 'For every modulus m and operands, the generic residue class type returns the canonical representative in [0,m) for construction from integers, addition, subtraction, negation and multiplication, and for prime m and non-zero x its inverse times x is 1; outputs may alias inputs.',
 ['inputs'],'all moduli, operands and aliasings within capacity',
 'test_zm uses one small and one large modulus with a few values.',
 ['include/zm.h'],
 [('ZmZ add/sub/neg/mul/inv/set','include/zm.h')])
prop('C10','Prime-field add, subtract, negate, halve, multiply are exact and canonical',
 'For all canonical field elements x, y the sum, difference, negation, product, square, half and quarter computed by the library represent the exact result modulo p and are again canonical (between 0 and p-1), on every code path selected by CPU mode, multiplier instruction and curve, also when the output is an input.',
 ['inputs','configurations'],'all pairs of field elements, all aliasings, all code-path configurations (two load modes, with and without mulx, each supported curve)',
 'Tests check identities on a few hundred values per configuration; a carry that matters once in 2^64 or 2^128 cases is never met.',
 ['src/zm2.cpp','include/zm2.h'],
 [('run-time generated field routines','src/zm2.cpp'),('Fp operators, divBy2/divBy4','include/zm2.h')],
 [('Montgomery form of a field element','four words, value x*2^256 mod p','include/zm2.h')])
prop('C11','Prime-field inverse, division and square root are correct',
 'For every non-zero field element x its inverse times x is 1 and division by x undoes multiplication; the square root function answers true exactly for squares (including 0) and then returns y with y*y = x, on every code path.',
 ['inputs','configurations'],'all field elements and configurations',
 'The inverse is a data-dependent almost-inverse loop plus a table of 512 powers of two; tests cannot cover every loop count or path.',
 ['src/zm2.cpp','include/zm2.h'],
 [('preInv almost inverse and invTbl_','src/zm2.cpp'),('Fp::inv, Fp::squareRoot','include/zm2.h')])
prop('C12','Field element conversions preserve the value',
 'Converting any int, big integer below p, or text to a field element and back gives the same residue (negative ints as p - |x|), equality and zero tests agree with residues, parity is that of the canonical residue, and importing/exporting through GMP integers is the identity on stored words.',
 ['inputs'],'all int values including the extremes, all residues',
 'Tests use small ints and a few constants.',
 ['include/zm2.h'],
 [('Fp::set(int)/set(Vuint)/get/isOdd/getLow/isZero/compare','include/zm2.h'),('toMpz/fromMpz','include/zm2.h')])
prop('C13','Double-width lazy arithmetic is exact within its ranges',
 'For double-width values in their stated range the product, sum, difference, negation (each with or without final correction) and the Montgomery reduction are exact: the product is the exact integer, corrected operations are exact modulo p*2^256 and stay below it, uncorrected ones are exact integers, and reduction of any value below p*2^256 gives its canonical residue times 2^-256; the same holds component-wise for quadratic-extension double-width values including its multiplication, squaring and multiplication by xi.',
 ['inputs','configurations'],'all double-width operands in range, aliasings allowed by the interface, all code-path configurations',
 'Tests sample a few hundred values per operation; boundary values of the lazy ranges are not reached by random data.',
 ['src/zm2.cpp','include/zm2.h','include/bn.h'],
 [('FpDbl add/addNC/neg/sub/subNC/mul/mod generated code','src/zm2.cpp'),('Fp2Dbl mulOpt1/mulOpt2/square/mod/mul_xi','src/zm2.cpp, include/bn.h')])
prop('C20','Quadratic extension arithmetic is the field F_p[u]/(u^2+1)',
 'For all operands the quadratic extension operations (add, subtract, negate, multiply, square, inverse of non-zero, half, multiply by xi and by a base-field element) equal those of F_p[u]/(u^2+1) with canonical components, in the generated and in the portable versions, also when the output is an input.',
 ['inputs','configurations'],'all operands, aliasings, code paths, curves',
 'Tests compare the versions on few values; lazy-reduction overflow and aliasing combinations are not covered.',
 ['include/bn.h','src/zm2.cpp'],
 [('Fp2T operations','include/bn.h'),('generated Fp2 routines','src/zm2.cpp')])
prop('C21','Sextic-tower level F_p6 is F_p2[v]/(v^3-xi)',
 'For all operands addition, subtraction, negation, multiplication, squaring and inversion (of non-zero) of degree-6 elements equal those of F_p2[v]/(v^3-xi) with the xi of the selected curve, in generated and portable versions.',
 ['inputs','configurations'],'all operands, supported aliasings, code paths, curves',
 'Tests check a few fixed identities; the lazy reduction bounds inside the multiplication hold or fail on rare values.',
 ['include/bn.h','src/zm2.cpp'],
 [('Fp6T mul/square/inverse, Fp6Dbl mul','include/bn.h, src/zm2.cpp')])
prop('C22','Full extension F_p12 is F_p6[w]/(w^2-v)',
 'For all operands addition, subtraction, negation, multiplication, squaring, inversion (of non-zero) and the sparse line multiplications of degree-12 elements equal those of F_p6[w]/(w^2-v), in generated and portable versions, also when the output is an input.',
 ['inputs','configurations'],'all operands, supported aliasings, code paths, curves',
 'Tests check a few constant products and random identities.',
 ['include/bn.h','src/zm2.cpp'],
 [('Fp12T mul/square/inverse','include/bn.h'),('mul_Fp2_024, mul_Fp2_024_Fp2_024','include/bn.h, src/zm2.cpp')])
prop('C23','Frobenius maps are p-power maps',
 'For every degree-12 element f the first, second and third Frobenius maps return f^p, f^(p^2), f^(p^3), and the endomorphisms of the twist used by the pairing are the maps induced by the p-power map, for every supported curve.',
 ['inputs','configurations'],'all field elements and twist points, all curves',
 'Tests compare with a power on one or two elements.',
 ['include/bn.h'],
 [('Fp12T::Frobenius/Frobenius2/Frobenius3','include/bn.h'),('FrobEndOnTwist_1/2/8','include/bn.h'),('gamma tables, W2p/W3p, Z','include/bn.h')])
prop('C24','Cyclotomic squaring and compressed squaring equal plain squaring',
 'For every element of the cyclotomic subgroup the fast squaring, the compressed squaring sequence followed by decompression, and the fixed power by the curve parameter return exactly what plain multiplication returns, including the identity and other elements with zero coordinates.',
 ['inputs','configurations'],'all elements of the cyclotomic subgroup, number of squarings, code paths',
 'Tests use one element; degenerate coordinates (division by zero in decompression) and the squaring loop counts are not covered.',
 ['include/bn.h','src/zm2.cpp'],
 [('Fp12T::sqru','include/bn.h'),('CompressT squareC/square_n/decompress/fixed_power','include/bn.h, src/zm2.cpp')])
prop('C30','Point doubling and addition implement the elliptic-curve group law',
 'For all points of the curve over the base field and of its twist, in Jacobian coordinates, doubling, addition and negation return the group-law result for every case: distinct points, equal points, opposite points, either operand the point at infinity, any projective representative, and output aliasing an input.',
 ['inputs','configurations'],'all pairs of points, all projective representatives, aliasings',
 'Tests add multiples of one base point; the special cases with different representatives are sampled a few times at most.',
 ['include/bn.h'],
 [('ECDouble, ECAdd, EcT::neg/add/sub/dbl','include/bn.h')])
prop('C31','Scalar multiplication equals repeated addition for every integer',
 'For every point P and every non-negative integer m given as int, size_t, big integer or GMP integer, scalar multiplication returns m*P (infinity for m = 0 or infinite P, any m including multiples of the order), also when the output is the input point; a negative int or GMP scalar gives -|m|*P.',
 ['inputs'],'all scalars of each integer type, all points',
 'Tests multiply by few scalars; zero words, word boundaries, zero and negative scalars and other integer types are rarely used.',
 ['include/bn.h','include/zm.h'],
 [('ecop::ScalarMult and IntTag dispatch','include/bn.h, include/zm.h'),('EcT::mul','include/bn.h')])
prop('C32','Point validity, normalisation and equality are decided exactly',
 'The on-curve tests accept exactly the triples that satisfy the curve (or twist) equation in the given coordinates, construction of a checked point from coordinates off the curve is refused with an exception, normalisation keeps the point and makes z = 1 (or a canonical infinity), and two points compare equal exactly when they are the same affine point or both infinity.',
 ['inputs','configurations'],'all coordinate triples, all pairs of representatives, all curves',
 'Tests check valid points and few invalid ones.',
 ['include/bn.h'],
 [('isOnEC*/isOnTwistEC*, NormalizeJac/NormalizeHom','include/bn.h'),('EcT::set/isValid/normalize/operator==','include/bn.h')])
prop('C33','Points and tower elements survive text output and input',
 'Writing any curve point or extension-field element to a stream and reading it back gives an equal object, and reading a point that is not on the curve fails with an exception instead of producing it.',
 ['inputs'],'all points including infinity in any representative, all tower elements',
 'Tests round-trip one or two points.',
 ['include/bn.h','include/zm.h'],
 [('operator<< / operator>> of Fp2T, Fp6T, Fp12T, EcT','include/bn.h'),('getDigits','include/zm.h')])
prop('C40','Line evaluation steps follow the chord-tangent construction',
 'For all twist points T, Q and base points P, the doubling and addition steps of the Miller loop update T to 2T or T+Q and return the tangent or chord line through the points evaluated at P, up to a factor in a proper subfield, in the generated and portable versions and in the variants that postpone the evaluation at P.',
 ['inputs','configurations'],'all curve points in general position, all code paths and curves',
 'Tests compare one or two constants.',
 ['include/bn.h','src/zm2.cpp'],
 [('pointDblLineEval, pointAddLineEval and the WithoutP variants','include/bn.h, src/zm2.cpp')])
prop('C41','Final exponentiation is a fixed power killing exactly the r-free part',
 'For every non-zero degree-12 element f the final exponentiation returns f raised to a fixed multiple of (p^12-1)/r that is prime to r, so the result always has order dividing r and equals 1 exactly for elements whose order divides (p^12-1)/r.',
 ['inputs','configurations'],'all non-zero field elements, every curve',
 'Tests apply it to a few Miller values and compare constants.',
 ['include/bn.h'],
 [('Fp12T::final_exp, mapToCyclo, pow_neg_t, fixed_power','include/bn.h')])
prop('C42','The pairing is the optimal ate pairing: bilinear and non-degenerate',
 'For all P in G1 and Q in G2 the pairing returns the optimal ate value, so that e(aP,bQ) = e(P,Q)^(ab) for all integers a, b, it is 1 when P or Q is infinity and not 1 for generators, and it does not depend on the projective representatives given to the entry points that accept them.',
 ['inputs','configurations'],'all points of the two groups, all scalars, all code paths and curves',
 'Tests check bilinearity for a few scalars on one generator pair; the loop schedule and its correction steps must be right for all points.',
 ['include/bn.h'],
 [('opt_atePairing, opt_atePairingJac, opt_atePairing for point classes','include/bn.h'),('siTbl loop schedule','include/bn.h')])
prop('C43','Precomputed and multi-pairing loops equal the plain pairing',
 'Evaluating the Miller loop from coefficients precomputed for Q gives, after final exponentiation, the same value as the direct pairing for every P, and the two-pair loop gives the product of the two pairings.',
 ['inputs','configurations'],'all P, Q (and pairs), every curve',
 'Tests compare a few generator multiples.',
 ['include/bn.h'],
 [('components::precomputeG2, millerLoop, millerLoop2','include/bn.h')])
prop('C50','Initialisation derives exactly the constants of the chosen curve',
 'After initialisation with any supported curve parameter, modulus, group order, trace, tables (powers for inversion, halves, multiples of p, Frobenius constants, twist constants, loop schedule) satisfy their defining equations; the curve orders they imply are divisible by r.',
 ['configurations'],'each supported curve parameter and code-path configuration',
 'Tests use the tables but never state what each entry must be; an unused or rarely used entry may be wrong.',
 ['include/bn.h','src/zm2.cpp'],
 [('ParamT::init','include/bn.h'),('Fp::setModulo, setTablesForDiv','src/zm2.cpp')])
prop('C51','Re-initialisation behaves like a fresh start',
 'Initialising again in the same process, with the same or another supported curve or code-path choice, leaves every operation computing what a fresh process initialised with the last choice computes.',
 ['histories','configurations'],'all sequences of initialisations',
 'Each test process initialises once.',
 ['include/bn.h','src/zm2.cpp'],
 [('ParamT::init, Fp::setModulo static state','include/bn.h, src/zm2.cpp')])
prop('C52','Generated code respects the calling convention and its frame',
 'Every run-time generated routine, for all inputs, preserves the callee-saved registers and the stack pointer, reads only its input objects, constant tables and its own stack frame, writes only its output object and its own frame, and returns to its caller with a balanced stack.',
 ['inputs','configurations'],'all inputs and all code-path configurations',
 'A clobbered register or a stray write shows up only when the caller happens to depend on it.',
 ['src/zm2.cpp','src/zm.cpp'],
 [('storeReg/restoreReg, MakeStackFrame','src/zm2.cpp'),('generated word-array primitives','src/zm.cpp')])
prop('C60','Language binding wrappers agree with the core library',
 'Every operation of the class wrappers offered to Java (big integer, field, curve point and pairing classes) returns exactly what the corresponding core operation returns for the same arguments, and errors surface as exceptions.',
 ['inputs'],'all argument values',
 'The Java test calls each wrapper about once.',
 ['java/bn254_if.hpp'],
 [('Mpz, Fp, Fp2, Fp12, Ec1, Ec2 wrapper methods','java/bn254_if.hpp')])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w') as f:
    for d in P: f.write(json.dumps(d)+'\n')
print(len(P))
