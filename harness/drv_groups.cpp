#include "drv.hpp"
#include <thread>
#include <new>
#include <stdexcept>
using namespace drv;
static fp mkfp(const std::string& h) { sc s = parsesc(h); return fp(arr<6>(s)); }
static conv_opt copt(Ctx& c, size_t i) { return conv_opt{.check_valid = c.M(i)[0] == '1', .to_mont = c.M(i)[1] == '1'}; }
static from_mont fmopt(Ctx& c, size_t i) { return c.M(i) == "1" ? from_mont::yes : from_mont::no; }
static g1 dummy1; static g2 dummy2;

OP("g1.raw", c.ret(g1({mkfp(c.M(0)), mkfp(c.M(1)), mkfp(c.M(2))})))
OP("g2.raw", c.ret(g2({fp2({mkfp(c.M(0)), mkfp(c.M(1))}), fp2({mkfp(c.M(2)), mkfp(c.M(3))}), fp2({mkfp(c.M(4)), mkfp(c.M(5))})})))
OP("g1.mk", c.ret(g1({c.F(0), c.F(1), c.F(2)})))
OP("g2.mk", c.ret(g2({c.F2(0), c.F2(1), c.F2(2)})))

// the same triple with one component of one coordinate raised by one
static fp& comp(g1& t, size_t i) { return i == 0 ? t.x : i == 1 ? t.y : t.z; }
static fp& comp(g2& t, size_t i) { fp2& v = i < 2 ? t.x : i < 4 ? t.y : t.z; return i % 2 ? v.c1 : v.c0; }
// (or with the sign of z changed)
template<typename T> static T bumped(T t, size_t i) { if(i >= sizeof(T) / sizeof(fp)) { t.z = t.z.negate(); return t; } fp& v = comp(t, i); v = v.add(fp::one()); return t; }
OP("g1.bump", c.ret(bumped(c.G1(0), c.I(0))))
OP("g2.bump", c.ret(bumped(c.G2(0), c.I(0))))

// five kinds of exceptions, told apart by their exact type and content
struct Stop { size_t at; };
struct StopR : std::runtime_error { size_t at; StopR(size_t k) : std::runtime_error("stop"), at(k) {} };
struct StopA : std::bad_alloc { size_t at; StopA(size_t k) : at(k) {} };
struct StopL : std::length_error { size_t at; StopL(size_t k) : std::length_error("stop"), at(k) {} };
template<typename F> static void interrupted(Ctx& c, size_t k, size_t type, F f) {
    size_t cnt = 0; int out = 0;
    std::function<void()> y = [&]() { cnt++; if(k && cnt == k) switch(type) { case 0: throw Stop{k}; case 1: throw StopR(k); case 2: throw StopA(k); case 3: throw StopL(k); default: throw k; } };
    auto same = [&](bool t, size_t want, size_t at) { return t && type == want && at == k ? 1 : 2; };
    try { f(y); }
    catch(const Stop& s) { out = same(true, 0, s.at); } catch(const StopR& s) { out = same(true, 1, s.at); }
    catch(const StopA& s) { out = same(true, 2, s.at); } catch(const StopL& s) { out = same(true, 3, s.at); } catch(const size_t& s) { out = same(true, 4, s); }
    catch(...) { out = 2; }
    char b[32]; c.kind = "words"; snprintf(b, sizeof b, "%zx", cnt); c.r = {b, std::to_string(out)};
}
#define GROUP(T, A, FE, FA, JB, AB, CB) \
OP(#T ".zero", c.ret(T::zero())) \
OP(#T ".one", c.ret(T::one())) \
OP(#T ".base", c.ret(T::BASE)) \
OP(#T ".copy", T t(c.A(0)); c.ret(t)) \
OP(#T ".isZero", c.retB(c.A(0).isZero())) \
OP(#T ".equal", c.retB(c.A(0).equal(c.A(1)))) \
OP(#T ".inSub", c.retB(c.A(0).inCorrectSubgroup())) \
OP(#T ".onCurve", c.retB(c.A(0).isOnCurve())) \
OP(#T ".isAffine", c.retB(c.A(0).isAffine())) \
OP(#T ".affine", c.ret(c.A(0).affine())) \
OP(#T ".add", c.ret(c.A(0).add(c.A(1)))) \
OP(#T ".addA", c.A(0).addAssign(c.A(1)); c.same()) \
OP(#T ".dbl", c.ret(c.A(0).dbl())) \
OP(#T ".dblA", c.A(0).doubleAssign(); c.same()) \
OP(#T ".neg", c.ret(c.A(0).negate())) \
OP(#T ".sub", c.ret(c.A(0).subtract(c.A(1)))) \
OP(#T ".subA", c.A(0).subtractAssign(c.A(1)); c.same()) \
OP(#T ".clear", c.ret(c.A(0).clearCofactor())) \
OP(#T ".fromJBE", auto b = c.YN<JB>(0); c.retOpt(T::fromJacobianBytesBE(b, copt(c, 0)))) \
OP(#T ".fromJLE", auto b = c.YN<JB>(0); c.retOpt(T::fromJacobianBytesLE(b, copt(c, 0)))) \
OP(#T ".fromABE", auto b = c.YN<AB>(0); c.retOpt(T::fromAffineBytesBE(b, copt(c, 0)))) \
OP(#T ".fromALE", auto b = c.YN<AB>(0); c.retOpt(T::fromAffineBytesLE(b, copt(c, 0)))) \
OP(#T ".fromJBEd", auto b = c.YN<JB>(0); c.retOpt(T::fromJacobianBytesBE(b))) \
OP(#T ".fromJLEd", auto b = c.YN<JB>(0); c.retOpt(T::fromJacobianBytesLE(b))) \
OP(#T ".fromABEd", auto b = c.YN<AB>(0); c.retOpt(T::fromAffineBytesBE(b))) \
OP(#T ".fromALEd", auto b = c.YN<AB>(0); c.retOpt(T::fromAffineBytesLE(b))) \
OP(#T ".fromC", auto b = c.YN<CB>(0); c.retOpt(T::fromCompressedBytesBE(b))) \
OP(#T ".toJBE", c.ret(c.A(0).toJacobianBytesBE(fmopt(c, 0)))) \
OP(#T ".toJLE", c.ret(c.A(0).toJacobianBytesLE(fmopt(c, 0)))) \
OP(#T ".toABE", c.ret(c.A(0).toAffineBytesBE(fmopt(c, 0)))) \
OP(#T ".toALE", c.ret(c.A(0).toAffineBytesLE(fmopt(c, 0)))) \
OP(#T ".toC", c.ret(c.A(0).toCompressedBytesBE())) \
OP(#T ".toJBEs", std::array<uint8_t, JB> o; o.fill(0x5a); c.A(0).toJacobianBytesBE(std::span<uint8_t, JB>(o), fmopt(c, 0)); c.ret(o)) \
OP(#T ".toJLEs", std::array<uint8_t, JB> o; o.fill(0x5a); c.A(0).toJacobianBytesLE(std::span<uint8_t, JB>(o), fmopt(c, 0)); c.ret(o)) \
OP(#T ".toABEs", std::array<uint8_t, AB> o; o.fill(0x5a); c.A(0).toAffineBytesBE(std::span<uint8_t, AB>(o), fmopt(c, 0)); c.ret(o)) \
OP(#T ".toALEs", std::array<uint8_t, AB> o; o.fill(0x5a); c.A(0).toAffineBytesLE(std::span<uint8_t, AB>(o), fmopt(c, 0)); c.ret(o)) \
OP(#T ".toCs", std::array<uint8_t, CB> o; o.fill(0x5a); c.A(0).toCompressedBytesBE(std::span<uint8_t, CB>(o)); c.ret(o)) \
OP(#T ".scale", sc s = parsesc(c.M(0)); switch(s.size()) { \
    case 1: c.ret(c.A(0).scale(arr<1>(s))); break; case 2: c.ret(c.A(0).scale(arr<2>(s))); break; case 3: c.ret(c.A(0).scale(arr<3>(s))); break; \
    case 7: c.ret(c.A(0).scale(arr<7>(s))); break; case 8: c.ret(c.A(0).scale(arr<8>(s))); break; \
    case 4: c.ret(c.A(0).scale(arr<4>(s))); break; case 5: c.ret(c.A(0).scale(arr<5>(s))); break; \
    case 6: c.ret(c.A(0).scale(arr<6>(s))); break; default: throw std::logic_error("driver: scale width"); }) \
OP(#T ".scaleS", c.ret(c.A(0).scale(c.S4(1)))) \
/* immediates: yield mode (0 none, 1 counting, 2 throwing, 3 calling back into the library); registers: points, then scalars; optional second immediate: number of points */ \
OP(#T ".wsum", size_t n = c.m.size() > 1 ? (size_t)c.I(1) : c.x.size() / 2; std::vector<T> ps; std::vector<std::array<uint64_t, 4>> ss; \
    for(size_t i = 0; i < n; i++) ps.push_back(c.A(i)); for(size_t i = n; i < c.x.size(); i++) ss.push_back(c.S4(i)); \
    size_t cnt = 0; if(c.I(0) == 0) c.ret(T::weightedSum(ps, ss)); else if(c.I(0) == 1) c.ret(T::weightedSum(ps, ss, [&]() { cnt++; })); \
    else if(c.I(0) == 2) c.ret(T::weightedSum(ps, ss, [&]() { if(++cnt == 2) throw 1; })); \
    else { std::vector<T> ps2(ps.rbegin(), ps.rend()), ps3; c.ret(T::weightedSum(ps, ss, [&]() { if(++cnt < 4) { T::weightedSum(ps2, ss); T::weightedSum(ps3, ss); std::this_thread::yield(); } })); }) \
/* long lists that repeat a few values: immediates yield mode, number of registers that are points, number of points, number of scalars */ \
OP(#T ".wsumC", size_t a = c.I(1), b = c.x.size() - a, np = c.I(2), ns = c.I(3); std::vector<T> ps; std::vector<std::array<uint64_t, 4>> ss; ps.reserve(np); ss.reserve(ns); \
    for(size_t i = 0; i < np; i++) ps.push_back(c.A(i % a)); for(size_t i = 0; i < ns; i++) ss.push_back(i < b ? c.S4(a + i) : ss[i - b]); \
    size_t cnt = 0; if(c.I(0) == 0) c.ret(T::weightedSum(ps, ss)); else c.ret(T::weightedSum(ps, ss, [&]() { cnt++; }))) \
/* how often the callback is called, and what becomes of an exception: immediates: the call that throws (0: none), registers that are points, points, scalars, type of the exception */ \
OP(#T ".yieldC", size_t a = c.I(1), b = c.x.size() - a, np = c.I(2), ns = c.I(3); std::vector<T> ps; std::vector<std::array<uint64_t, 4>> ss; ps.reserve(np); ss.reserve(ns); \
    for(size_t i = 0; i < np; i++) ps.push_back(c.A(i % a)); for(size_t i = 0; i < ns; i++) ss.push_back(i < b ? c.S4(a + i) : ss[i - b]); \
    interrupted(c, c.I(0), c.I(4), [&](const std::function<void()>& y) { T::weightedSum(ps, ss, y); })) \
OP(#T ".map", c.ret(T::mapToCurve(c.FE(0)))) \
/* a set keyed by <=>: number of distinct representations */ \
OP(#T ".ordset", std::set<T> s; for(size_t i = 0; i < c.x.size(); i++) s.insert(c.A(i)); c.retI((long)s.size()))
GROUP(g1, G1, F, fp, 144, 96, 48)
GROUP(g2, G2, F2, fp2, 288, 192, 96)
OP("g1.glv", c.ret(c.G1(0).glvEndomorphism()))
OP("g1.swu", auto [x, y] = g1::swuMapG1(c.F(0)); c.kind = "fpx2"; c.r = {hexfp(x), hexfp(y)})
OP("g2.psi", c.ret(c.G2(0).psi()))
OP("g2.frob", c.ret(c.G2(0).frobeniusMap(c.I(0))))
OP("g2.swu", auto [x, y] = g2::swuMapG2(c.F2(0)); c.kind = "fp2x2"; c.r = {hexfp(x.c0), hexfp(x.c1), hexfp(y.c0), hexfp(y.c1)})
OP("g2.iso", c.ret(c.G2(0).isogenyMap()))

// ---- pairing.  Registers alternate G1, G2.
typedef std::vector<std::tuple<g1, g2>> Pairs;
static Pairs viaAdd(Ctx& c) { Pairs v; for(size_t i = 0; i + 1 < c.x.size(); i += 2) pairing::add_pair(v, c.G1(i), c.G2(i + 1)); return v; }
static Pairs direct(Ctx& c) { Pairs v; for(size_t i = 0; i + 1 < c.x.size(); i += 2) v.emplace_back(c.G1(i), c.G2(i + 1)); return v; }
// immediate: nothing, or y / t / r as above
static fp12 calcY(const Pairs& v, char md) {
    size_t cnt = 0;
    if(md == 'y') return pairing::calculate(v, [&]() { cnt++; });
    if(md == 't') return pairing::calculate(v, [&]() { throw 1; });
    if(md == 'r') { Pairs w(v.rbegin(), v.rend()); return pairing::calculate(v, [&]() { if(++cnt < 3) { pairing::calculate(w); std::this_thread::yield(); } }); }
    return pairing::calculate(v);
}
OP("pair.calc", Pairs v = viaAdd(c); c.ret(calcY(v, c.m.size() ? c.M(0)[0] : '-')))
OP("pair.direct", Pairs v = direct(c); c.ret(pairing::calculate(v)))
OP("pair.twostep", Pairs v = viaAdd(c); fp12 f = pairing::miller_loop(v, std::function<void()>([]() {})); pairing::final_exponentiation(f); c.ret(f))
OP("pair.finalA", pairing::final_exponentiation(c.F12(0)); c.same())
OP("pair.npairs", Pairs v = viaAdd(c); c.retI((long)v.size()))
// the same product with a dlog witness: immediates are the exponents of the pairs (used by the specification only)
OP("pair.calcW", Pairs v = viaAdd(c); c.ret(pairing::calculate(v)))
// immediates: the call that throws, the number of pairs, 0 calculate or 1 miller_loop, type of the exception
OP("pair.yieldC", Pairs v; size_t k = c.x.size() / 2; for(size_t i = 0; i < (size_t)c.I(1); i++) pairing::add_pair(v, c.G1(2 * (i % k)), c.G2(2 * (i % k) + 1));
    interrupted(c, c.I(0), c.I(3), [&](const std::function<void()>& y) { if(c.I(2)) pairing::miller_loop(v, y); else pairing::calculate(v, y); }))
OP("pair.calcC", Pairs v; size_t k = c.x.size() / 2; for(size_t i = 0; i < (size_t)c.I(0); i++) pairing::add_pair(v, c.G1(2 * (i % k)), c.G2(2 * (i % k) + 1)); c.ret(pairing::calculate(v)))
