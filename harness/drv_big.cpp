#include "drv.hpp"
#include "big.hpp"
using namespace drv;
// ---- inputs too long to be written down: the octets of one register, then N zeros, then the octets of another.
// Only the pages of the two ends are ever written, so that the zeros take no memory.
OP("big.fromMsg", Big b(c, 0, 1, 0); by& d = c.Y(2); c.ret(fromMessage(b.span(), std::string(d.begin(), d.end()))))
OP("big.sign", Big b(c, 1, 2, 0); c.ret(sign(c.S4(0), b.span())))
OP("big.verify", Big b(c, 1, 2, 0); c.retB(verify(c.G1(0), b.span(), c.G2(3))))
OP("big.popFast", Big b(c, 0, 1, 0); std::vector<g1> p; for(size_t i = 3; i < c.x.size(); i++) p.push_back(c.G1(i)); c.retB(pop_fast_aggregate_verify(p, b.span(), c.G2(2))))
OP("big.agg", Big b(c, 1, 2, 0); std::vector<std::vector<uint8_t>> ms; ms.emplace_back(b.p, b.p + b.n); std::vector<g1> p; p.push_back(c.G1(0)); c.retB(aggregate_verify(p, ms, c.G2(3), true)))
OP("big.xmd", Big b(c, 0, 1, 0); by o(c.I(1), 0xee); by& d = c.Y(2); int e = xmd_sh256(o.data(), c.I(1), b.p, b.n, d.data(), d.size()); if(e == 0) c.ret(o); else c.retNone())
OP("big.dst", Big b(c, 1, 2, 0); c.ret(fromMessage(c.Y(0), std::string(b.p, b.p + b.n))))
OP("big.hmac", by o(32, 0xee); Big b(c, 1, 2, 0); by& k = c.Y(0); int e = hkdf256_hmac(o.data(), b.p, b.n, k.data(), k.size()); if(e == 0) c.ret(o); else c.retNone())
OP("big.key", by o(32, 0xee); Big b(c, 0, 1, 0); by& t = c.Y(2); int e = hkdf256_hmac(o.data(), t.data(), t.size(), b.p, b.n); if(e == 0) c.ret(o); else c.retNone())
OP("big.sk", Big b(c, 0, 1, 0); c.ret(secret_key(b.span())))
// ---- long lists that repeat a few values: register i of the list is register i mod k
template<class T> static std::vector<T> cyc(Ctx& c, size_t from, size_t k, size_t n) { std::vector<T> v; v.reserve(n); for(size_t i = 0; i < n; i++) if(i < k) v.push_back(c.a<T>(from + i)); else { T t = v[i - k]; v.push_back(t); } return v; }
OP("sig.aggPkC", c.ret(aggregate_public_keys(cyc<g1>(c, 0, c.x.size(), c.I(0)))))
OP("sig.aggSigC", c.ret(aggregate_signatures(cyc<g2>(c, 0, c.x.size(), c.I(0)))))
OP("sig.aggSkC", std::vector<std::array<uint64_t, 4>> v; for(size_t i = 0; i < (size_t)c.I(0); i++) v.push_back(i < c.x.size() ? c.S4(i) : v[i - c.x.size()]); c.ret(aggregate_secret_keys(v)))
OP("sig.aggPkTC", auto v = cyc<g1>(c, 0, c.x.size(), c.I(1)); const std::string& mk = c.M(0); c.ret(aggregate_public_keys(std::span<g1>(v), [](const g1& p) { return p; }, [&](const g1&, size_t i) { return mk[i % mk.size()] == '1'; })))
OP("sig.aggSigTC", auto v = cyc<g2>(c, 0, c.x.size(), c.I(1)); const std::string& mk = c.M(0); c.ret(aggregate_signatures(std::span<g2>(v), [](const g2& p) { return p; }, [&](const g2&, size_t i) { return mk[i % mk.size()] == '1'; })))
OP("sig.popFastC", auto v = cyc<g1>(c, 2, c.x.size() - 2, c.I(0)); c.retB(pop_fast_aggregate_verify(v, c.Y(0), c.G2(1))))
// signature, a public keys, messages; immediates: duplicate flag, a, length of the lists
OP("sig.aggVerifyC", size_t a = c.I(1), n = c.I(2); auto p = cyc<g1>(c, 1, a, n); auto ms = cyc<by>(c, 1 + a, c.x.size() - 1 - a, n); c.retB(aggregate_verify(p, ms, c.G2(0), c.M(0) == "1")))
