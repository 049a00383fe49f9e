#include "drv.hpp"
using namespace drv;
// ---- key derivation.  Byte arguments are registers.
OP("sig.sk", by b = c.Y(0); c.ret(secret_key(b)))
OP("sig.child", c.ret(derive_child_sk(c.S4(0), (uint32_t)strtoul(c.M(0).c_str(), nullptr, 10))))
OP("sig.childU", c.ret(derive_child_sk_unhardened(c.S4(0), (uint32_t)strtoul(c.M(0).c_str(), nullptr, 10))))
OP("sig.childG1", c.ret(derive_child_g1_unhardened(c.G1(0), (uint32_t)strtoul(c.M(0).c_str(), nullptr, 10))))
OP("sig.childG2", c.ret(derive_child_g2_unhardened(c.G2(0), (uint32_t)strtoul(c.M(0).c_str(), nullptr, 10))))
OP("sig.pk", c.ret(public_key(c.S4(0))))
OP("sig.skFrom", c.ret(sk_from_bytes(c.YN<32>(0), c.M(0) == "1")))
OP("sig.skFromd", c.ret(sk_from_bytes(c.YN<32>(0))))
OP("sig.skTo", c.ret(sk_to_bytes(c.S4(0))))
// ---- signatures
OP("sig.fromMsg", by d = c.Y(1); c.ret(fromMessage(c.Y(0), std::string(d.begin(), d.end()))))
OP("sig.sign", c.ret(sign(c.S4(0), c.Y(1))))
OP("sig.verify", c.retB(verify(c.G1(0), c.Y(1), c.G2(2))))
OP("sig.popProve", c.ret(pop_prove(c.S4(0))))
OP("sig.popVerify", c.retB(pop_verify(c.G1(0), c.G2(1))))
OP("sig.popFast", std::vector<g1> p; for(size_t i = 2; i < c.x.size(); i++) p.push_back(c.G1(i)); c.retB(pop_fast_aggregate_verify(p, c.Y(0), c.G2(1))))
// aggregate_verify: sig, then public keys, then messages; immediates: duplicate flag, number of keys
OP("sig.aggVerify", size_t n = c.I(1); std::vector<g1> p; std::vector<std::vector<uint8_t>> ms;
    for(size_t i = 0; i < n; i++) p.push_back(c.G1(1 + i));
    for(size_t i = 1 + n; i < c.x.size(); i++) ms.push_back(c.Y(i));
    if(c.M(0) == "d") c.retB(aggregate_verify(p, ms, c.G2(0))); else c.retB(aggregate_verify(p, ms, c.G2(0), c.M(0) == "1")))
OP("sig.aggSk", std::vector<std::array<uint64_t, 4>> v; for(size_t i = 0; i < c.x.size(); i++) v.push_back(c.S4(i)); c.ret(aggregate_secret_keys(v)))
OP("sig.aggPk", std::vector<g1> v; for(size_t i = 0; i < c.x.size(); i++) v.push_back(c.G1(i)); c.ret(aggregate_public_keys(v)))
OP("sig.aggSig", std::vector<g2> v; for(size_t i = 0; i < c.x.size(); i++) v.push_back(c.G2(i)); c.ret(aggregate_signatures(v)))
namespace { struct Wrap1 { int pad; g1 p; }; struct Wrap2 { int pad; g2 p; }; }
// template forms; immediate: mask string of 0/1, or "-" for the default predicate
OP("sig.aggPkT", std::vector<Wrap1> v; for(size_t i = 0; i < c.x.size(); i++) v.push_back({(int)i, c.G1(i)}); std::string mk = c.M(0);
    if(mk == "-") c.ret(aggregate_public_keys(std::span<Wrap1>(v), [](const Wrap1& w) { return w.p; }));
    else c.ret(aggregate_public_keys(std::span<Wrap1>(v), [](const Wrap1& w) { return w.p; }, [&](const Wrap1&, size_t i) { return mk[i] == '1'; })))
OP("sig.aggSigT", std::vector<Wrap2> v; for(size_t i = 0; i < c.x.size(); i++) v.push_back({(int)i, c.G2(i)}); std::string mk = c.M(0);
    if(mk == "-") c.ret(aggregate_signatures(std::span<Wrap2>(v), [](const Wrap2& w) { return w.p; }));
    else c.ret(aggregate_signatures(std::span<Wrap2>(v), [](const Wrap2& w) { return w.p; }, [&](const Wrap2&, size_t i) { return mk[i] == '1'; })))
OP("sig.suite", std::string s = c.M(0) == "pop" ? POP_CIPHERSUITE_ID : CIPHERSUITE_ID; c.ret(by(s.begin(), s.end())))
// ---- KDF
OP("kdf.hmac", by o(32, 0xee); by& k = c.Y(0); by& t = c.Y(1); int e = hkdf256_hmac(o.data(), t.data(), t.size(), k.data(), k.size()); if(e == 0) c.ret(o); else c.retNone())
OP("kdf.extract", by o(32, 0xee); by& k = c.Y(0); by& t = c.Y(1); int e = hkdf256_extract(o.data(), k.data(), k.size(), t.data(), t.size()); if(e == 0) c.ret(o); else c.retNone())
OP("kdf.expand", by o(c.I(0) > 9000 ? 9000 : c.I(0), 0xee); by k = c.Y(0); if(k.size() < 32) k.resize(32); by& t = c.Y(1); int e = hkdf256_expand(o.data(), c.I(0), k.data(), t.data(), t.size()); if(e == 0) c.ret(o); else c.retNone())
OP("kdf.full", by o(c.I(0), 0xee); by& salt = c.Y(0); by& ikm = c.Y(1); by& inf = c.Y(2);
    int e = hkdf256_extract_expand(o.data(), c.I(0), ikm.data(), ikm.size(), salt.data(), salt.size(), inf.data(), inf.size()); if(e == 0) c.ret(o); else c.retNone())
OP("kdf.xmd", by o(c.I(0), 0xee); by& t = c.Y(0); by& d = c.Y(1); int e = xmd_sh256(o.data(), c.I(0), t.data(), t.size(), d.data(), d.size()); if(e == 0) c.ret(o); else c.retNone())
OP("kdf.lamportSk", by o(32 * 255, 0xee); by& ikm = c.Y(0); by& salt = c.Y(1); ikm_to_lamport_sk(o.data(), ikm.data(), ikm.size(), salt.data(), salt.size()); c.ret(o))
OP("kdf.lamportPk", by o(32, 0xee); parent_sk_to_lamport_pk(o.data(), c.S4(0), (uint32_t)strtoul(c.M(0).c_str(), nullptr, 10)); c.ret(o))
// ---- scalar helpers: arbitrary widths.  Immediates are 16 digits per limb.
template<size_t N> static void scToLE(Ctx& c, const sc& s) { c.ret(scalar::toBytesLE<N>(arr<N>(s))); }
template<size_t N> static void scToBE(Ctx& c, const sc& s) { c.ret(scalar::toBytesBE<N>(arr<N>(s))); }
template<size_t N> static void scFromLE(Ctx& c) { auto b = c.YN<N * 8>(0); c.ret(scalar::fromBytesLE<N>(std::span<const uint8_t, N * 8>(b))); }
template<size_t N> static void scFromBE(Ctx& c) { auto b = c.YN<N * 8>(0); c.ret(scalar::fromBytesBE<N>(std::span<const uint8_t, N * 8>(b))); }
#define WIDTHS(n, f, ...) switch(n) { case 1: f<1>(__VA_ARGS__); break; case 2: f<2>(__VA_ARGS__); break; case 3: f<3>(__VA_ARGS__); break; \
    case 4: f<4>(__VA_ARGS__); break; case 5: f<5>(__VA_ARGS__); break; case 6: f<6>(__VA_ARGS__); break; case 8: f<8>(__VA_ARGS__); break; default: throw std::logic_error("driver: width"); }
OP("sc.toLE", WIDTHS(c.S(0).size(), scToLE, c, c.S(0)))
OP("sc.toBE", WIDTHS(c.S(0).size(), scToBE, c, c.S(0)))
OP("sc.fromLE", WIDTHS(c.Y(0).size() / 8, scFromLE, c))
OP("sc.fromBE", WIDTHS(c.Y(0).size() / 8, scFromBE, c))
template<size_t N> static void scBits(Ctx& c) { c.retI((long)scalar::bitLength<N>(arr<N>(c.S(0)))); }
template<size_t N> static void scCmp(Ctx& c) { auto o = scalar::cmp<N>(arr<N>(c.S(0)), arr<N>(c.S(1))); c.retI(o < 0 ? -1 : o > 0 ? 1 : 0); }
template<size_t N> static void scEq(Ctx& c) { c.retB(scalar::equal<N>(arr<N>(c.S(0)), arr<N>(c.S(1)))); }
template<size_t N> static void scRsh(Ctx& c) { std::array<uint64_t, N> o{}; scalar::rsh<N>(o, arr<N>(c.S(0)), (uint64_t)c.I(0)); c.ret(o); }
template<size_t N> static void scRshA(Ctx& c) { std::array<uint64_t, N> o = arr<N>(c.S(0)); scalar::rsh<N>(o, o, (uint64_t)c.I(0)); c.ret(o); }
OP("sc.bits", WIDTHS(c.S(0).size(), scBits, c))
OP("sc.cmp", WIDTHS(c.S(0).size(), scCmp, c))
OP("sc.equal", WIDTHS(c.S(0).size(), scEq, c))
OP("sc.rsh", WIDTHS(c.S(0).size(), scRsh, c))
OP("sc.rshA", WIDTHS(c.S(0).size(), scRshA, c))
// add<NC, NA, NB>: immediate NC
#define ADDCASE(C, A, B) if(c.I(0) == C && c.S(0).size() == A && c.S(1).size() == B) { c.ret(scalar::add<C, A, B>(arr<A>(c.S(0)), arr<B>(c.S(1)))); return; }
OP("sc.add", ADDCASE(4, 4, 4) ADDCASE(5, 4, 4) ADDCASE(6, 4, 4) ADDCASE(6, 6, 4) ADDCASE(6, 4, 6) ADDCASE(7, 6, 6) ADDCASE(8, 6, 6) ADDCASE(1, 1, 1) ADDCASE(2, 1, 1) ADDCASE(3, 1, 1) ADDCASE(3, 2, 1) ADDCASE(4, 1, 4) ADDCASE(8, 8, 8) ADDCASE(2, 4, 4)
    throw std::logic_error("driver: add widths"))
#define MULCASE(C, A, B) if(c.I(0) == C && c.S(0).size() == A && c.S(1).size() == B) { c.ret(scalar::multiply<C, A, B>(arr<A>(c.S(0)), arr<B>(c.S(1)))); return; }
OP("sc.mul", MULCASE(8, 4, 4) MULCASE(2, 1, 1) MULCASE(5, 4, 1) MULCASE(5, 1, 4) MULCASE(10, 6, 4) MULCASE(12, 6, 6) MULCASE(9, 4, 4) MULCASE(4, 2, 2)
    throw std::logic_error("driver: mul widths"))
#define DIVCASE(N, K) if(c.S(0).size() == N && c.S(1).size() == K) { std::array<uint64_t, N> q; std::array<uint64_t, K> r; q.fill(0x1234567890abcdefull); r.fill(~0ull); bn_divn_safe(q, r, arr<N>(c.S(0)), arr<K>(c.S(1))); \
    c.kind = "divn"; c.r = {hexsc(q.data(), N), hexsc(r.data(), K)}; return; }
OP("sc.divn", DIVCASE(1, 1) DIVCASE(2, 1) DIVCASE(2, 2) DIVCASE(4, 4) DIVCASE(6, 4) DIVCASE(8, 4) DIVCASE(4, 1) DIVCASE(4, 2) DIVCASE(4, 3) DIVCASE(6, 6) DIVCASE(8, 6) DIVCASE(12, 6) DIVCASE(8, 8) DIVCASE(8, 1) DIVCASE(3, 2) DIVCASE(5, 4)
    throw std::logic_error("driver: divn widths"))
// ---- hexadecimal strings.  Text is passed as the octets of the characters.
OP("hex.enc", by b = c.Y(0); std::string s = bytesToHex(b); c.ret(by(s.begin(), s.end())))
OP("hex.dec", by b = c.Y(0); std::string s(b.begin(), b.end()); c.ret(by(hexToBytes(std::string_view(s)))))
OP("hex.encN", by b = c.Y(0); std::string s; switch(b.size()) { case 1: s = bytesToHex<1>(std::span<const uint8_t, 1>(b.data(), 1)); break; case 48: s = bytesToHex<48>(std::span<const uint8_t, 48>(b.data(), 48)); break;
    case 32: s = bytesToHex<32>(std::span<const uint8_t, 32>(b.data(), 32)); break; case 96: s = bytesToHex<96>(std::span<const uint8_t, 96>(b.data(), 96)); break; default: throw std::logic_error("driver: width"); } c.ret(by(s.begin(), s.end())))
OP("hex.decN", by b = c.Y(0); std::string s(b.begin(), b.end()); switch(c.I(0)) { case 1: c.ret(hexToBytes<1>(s)); break; case 32: c.ret(hexToBytes<32>(s)); break; case 48: c.ret(hexToBytes<48>(s)); break;
    case 96: c.ret(hexToBytes<96>(s)); break; default: throw std::logic_error("driver: width"); })
