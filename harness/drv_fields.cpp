#include "drv.hpp"
using namespace drv;
static fp mkfp(const std::string& h) { sc s = parsesc(h); return fp(arr<6>(s)); }
static conv_opt copt(Ctx& c, size_t i) { return conv_opt{.check_valid = c.M(i)[0] == '1', .to_mont = c.M(i)[1] == '1'}; }
static from_mont fmopt(Ctx& c, size_t i) { return c.M(i) == "1" ? from_mont::yes : from_mont::no; }

// ---- raw loads
OP("fp.raw", c.ret(mkfp(c.M(0))))
OP("fp2.raw", c.ret(fp2({mkfp(c.M(0)), mkfp(c.M(1))})))
OP("fp6.raw", { std::array<fp2, 3> e; for(int i = 0; i < 3; i++) e[i] = fp2({mkfp(c.M(2*i)), mkfp(c.M(2*i+1))}); c.ret(fp6(e)); })
OP("fp12.raw", { std::array<fp6, 2> s; for(int j = 0; j < 2; j++) { std::array<fp2, 3> e; for(int i = 0; i < 3; i++) e[i] = fp2({mkfp(c.M(6*j+2*i)), mkfp(c.M(6*j+2*i+1))}); s[j] = fp6(e); } c.ret(fp12(s)); })
OP("sc.raw", c.ret(parsesc(c.M(0))))
OP("by.raw", c.ret(parseby(c.M(0))))
// ---- projections and assembly
OP("fp2.mk", c.ret(fp2({c.F(0), c.F(1)})))
OP("fp6.mk", c.ret(fp6({c.F2(0), c.F2(1), c.F2(2)})))
OP("fp12.mk", c.ret(fp12({c.F6(0), c.F6(1)})))
// ---- constructors without arguments give zero
OP("fp.ctor", c.ret(fp()))
OP("fp2.ctor", c.ret(fp2()))
OP("fp6.ctor", c.ret(fp6()))
OP("fp12.ctor", c.ret(fp12()))

// ---- common operations on all four fields
#define COMMON(T, A, BYTES) \
OP(#T ".zero", c.ret(T::zero())) \
OP(#T ".one", c.ret(T::one())) \
OP(#T ".isZero", c.retB(c.A(0).isZero())) \
OP(#T ".isOne", c.retB(c.A(0).isOne())) \
OP(#T ".equal", c.retB(c.A(0).equal(c.A(1)))) \
OP(#T ".add", c.ret(c.A(0).add(c.A(1)))) \
OP(#T ".addA", c.A(0).addAssign(c.A(1)); c.same()) \
OP(#T ".dbl", c.ret(c.A(0).dbl())) \
OP(#T ".dblA", c.A(0).doubleAssign(); c.same()) \
OP(#T ".sub", c.ret(c.A(0).subtract(c.A(1)))) \
OP(#T ".subA", c.A(0).subtractAssign(c.A(1)); c.same()) \
OP(#T ".neg", c.ret(c.A(0).negate())) \
OP(#T ".mul", c.ret(c.A(0).multiply(c.A(1)))) \
OP(#T ".mulA", c.A(0).multiplyAssign(c.A(1)); c.same()) \
OP(#T ".sq", c.ret(c.A(0).square())) \
OP(#T ".sqA", c.A(0).squareAssign(); c.same()) \
OP(#T ".inv", c.ret(c.A(0).inverse())) \
OP(#T ".copy", T t(c.A(0)); c.ret(t)) \
OP(#T ".fromBE", auto b = c.YN<BYTES>(0); c.retOpt(T::fromBytesBE(b, copt(c, 0)))) \
OP(#T ".fromLE", auto b = c.YN<BYTES>(0); c.retOpt(T::fromBytesLE(b, copt(c, 0)))) \
OP(#T ".fromBEd", auto b = c.YN<BYTES>(0); c.retOpt(T::fromBytesBE(b))) \
OP(#T ".fromLEd", auto b = c.YN<BYTES>(0); c.retOpt(T::fromBytesLE(b))) \
OP(#T ".toBE", c.ret(c.A(0).toBytesBE(fmopt(c, 0)))) \
OP(#T ".toLE", c.ret(c.A(0).toBytesLE(fmopt(c, 0)))) \
OP(#T ".toBEs", std::array<uint8_t, BYTES> o; o.fill(0xa5); c.A(0).toBytesBE(std::span<uint8_t, BYTES>(o), fmopt(c, 0)); c.ret(o)) \
OP(#T ".toLEs", std::array<uint8_t, BYTES> o; o.fill(0xa5); c.A(0).toBytesLE(std::span<uint8_t, BYTES>(o), fmopt(c, 0)); c.ret(o)) \
OP(#T ".exp", sc s = parsesc(c.M(0)); switch(s.size()) { \
    case 1: c.ret(c.A(0).exp(arr<1>(s))); break; case 2: c.ret(c.A(0).exp(arr<2>(s))); break; case 3: c.ret(c.A(0).exp(arr<3>(s))); break; \
    case 4: c.ret(c.A(0).exp(arr<4>(s))); break; case 5: c.ret(c.A(0).exp(arr<5>(s))); break; case 6: c.ret(c.A(0).exp(arr<6>(s))); break; \
    case 7: c.ret(c.A(0).exp(arr<7>(s))); break; case 8: c.ret(c.A(0).exp(arr<8>(s))); break; default: throw std::logic_error("driver: exp width"); })
COMMON(fp, F, 48)
COMMON(fp2, F2, 96)
COMMON(fp6, F6, 288)
COMMON(fp12, F12, 576)

// ---- fp
OP("fp.isValidRaw", c.retB(mkfp(c.M(0)).isValid()))
OP("fp.isOdd", c.retB(c.F(0).isOdd()))
OP("fp.isEven", c.retB(c.F(0).isEven()))
OP("fp.cmp", auto o = c.F(0).cmp(c.F(1)); c.retI(o < 0 ? -1 : o > 0 ? 1 : 0))
OP("fp.ord", auto o = c.F(0) <=> c.F(1); c.retI(o < 0 ? -1 : o > 0 ? 1 : 0))
OP("fp.eqop", c.retB(c.F(0) == c.F(1)))
OP("fp.sign", c.retB(c.F(0).sign()))
OP("fp.toMont", c.ret(c.F(0).toMont()))
OP("fp.fromMont", c.ret(c.F(0).fromMont()))
OP("fp.phi", c.ret(c.F(0).phi()))
OP("fp.sqrt", fp o = c.stale<fp>(); bool b = c.F(0).sqrt(o); if(b) c.ret(o); else c.retNone())
OP("fp.sqrtA", bool b = c.F(0).sqrt(c.F(0)); if(b) c.same(); else { c.regs.erase(c.dst); c.retNone(); })
OP("fp.isQNR", c.retB(c.F(0).isQuadraticNonResidue()))
OP("fp.isLL", c.retB(c.F(0).isLexicographicallyLargest()))
OP("fp.div2raw", fp t = mkfp(c.M(0)); t.div2(c.I(1)); c.kind = "rawv"; c.r = {hexfp(t)})
OP("fp.mul2raw", fp t = mkfp(c.M(0)); uint64_t e = t.mul2(); c.kind = "rawv"; c.r = {hexfp(t), std::to_string(e)})
OP("fp.modPrime", sc s = parsesc(c.M(0)); switch(s.size()) {
    case 6: c.ret(fp::modPrime<6>(arr<6>(s))); break; case 7: c.ret(fp::modPrime<7>(arr<7>(s))); break;
    case 8: c.ret(fp::modPrime<8>(arr<8>(s))); break; case 9: c.ret(fp::modPrime<9>(arr<9>(s))); break; case 10: c.ret(fp::modPrime<10>(arr<10>(s))); break;
    case 11: c.ret(fp::modPrime<11>(arr<11>(s))); break; case 16: c.ret(fp::modPrime<16>(arr<16>(s))); break;
    case 12: c.ret(fp::modPrime<12>(arr<12>(s))); break; default: throw std::logic_error("driver: modPrime width"); })
// ---- fp2
OP("fp2.sign", c.retB(c.F2(0).sign()))
OP("fp2.conj", c.ret(c.F2(0).conjugate()))
OP("fp2.mulNR", c.ret(c.F2(0).mulByNonResidue()))
OP("fp2.mulB", c.ret(c.F2(0).mulByB()))
OP("fp2.mulFq", c.ret(c.F2(0).mulByFq(c.F(1))))
OP("fp2.frob", c.ret(c.F2(0).frobeniusMap((uint64_t)strtoull(c.M(0).c_str(), nullptr, 10))))
OP("fp2.frobA", c.F2(0).frobeniusMapAssign((uint64_t)strtoull(c.M(0).c_str(), nullptr, 10)); c.same())
OP("fp2.sqrt", fp2 o = c.stale<fp2>(); bool b = c.F2(0).sqrt(o); if(b) c.ret(o); else c.retNone())
OP("fp2.sqrtA", bool b = c.F2(0).sqrt(c.F2(0)); if(b) c.same(); else { c.regs.erase(c.dst); c.retNone(); })
OP("fp2.isQNR", c.retB(c.F2(0).isQuadraticNonResidue()))
OP("fp2.isLL", c.retB(c.F2(0).isLexicographicallyLargest()))
// ---- fp6
OP("fp6.mulBy01", c.ret(c.F6(0).mulBy01(c.F2(1), c.F2(2))))
OP("fp6.mulBy01A", c.F6(0).mulBy01Assign(c.F2(1), c.F2(2)); c.same())
OP("fp6.mulBy1", c.ret(c.F6(0).mulBy1(c.F2(1))))
OP("fp6.mulNR", c.ret(c.F6(0).mulByNonResidue()))
OP("fp6.mulBase", c.ret(c.F6(0).mulByBaseField(c.F2(1))))
OP("fp6.frob", c.ret(c.F6(0).frobeniusMap((uint64_t)strtoull(c.M(0).c_str(), nullptr, 10))))
OP("fp6.frobA", c.F6(0).frobeniusMapAssign((uint64_t)strtoull(c.M(0).c_str(), nullptr, 10)); c.same())
// ---- fp12
OP("fp12.conj", c.ret(c.F12(0).conjugate()))
OP("fp12.isGt", c.retB(c.F12(0).isGtValid()))
OP("fp12.cycSq", c.ret(c.F12(0).cyclotomicSquare()))
OP("fp12.cycSqA", c.F12(0).cyclotomicSquareAssign(); c.same())
OP("fp12.mulBy014A", c.F12(0).mulBy014Assign(c.F2(1), c.F2(2), c.F2(3)); c.same())
OP("fp12.frob", c.ret(c.F12(0).frobeniusMap((uint64_t)strtoull(c.M(0).c_str(), nullptr, 10))))
OP("fp12.frobA", c.F12(0).frobeniusMapAssign((uint64_t)strtoull(c.M(0).c_str(), nullptr, 10)); c.same())
OP("fp12.fp4Sq", auto [u, v] = fp12::fp4Square(c.F2(0), c.F2(1)); c.kind = "fp2x2"; c.r = {hexfp(u.c0), hexfp(u.c1), hexfp(v.c0), hexfp(v.c1)})
OP("fp12.cycExp", sc s = parsesc(c.M(0)); switch(s.size()) {
    case 1: c.ret(c.F12(0).cyclotomicExp(arr<1>(s))); break; case 2: c.ret(c.F12(0).cyclotomicExp(arr<2>(s))); break;
    case 3: c.ret(c.F12(0).cyclotomicExp(arr<3>(s))); break; case 5: c.ret(c.F12(0).cyclotomicExp(arr<5>(s))); break;
    case 4: c.ret(c.F12(0).cyclotomicExp(arr<4>(s))); break; case 6: c.ret(c.F12(0).cyclotomicExp(arr<6>(s))); break; default: throw std::logic_error("driver: width"); })
