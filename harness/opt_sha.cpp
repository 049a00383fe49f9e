#include "drv.hpp"
#include "big.hpp"
#include "sha256.hpp"
using namespace drv;
// sha256: the message is fed in pieces whose lengths are the immediates
OP("sha.hash", by& b = c.Y(0); sha256 s; size_t o = 0; for(size_t i = 0; i < c.m.size(); i++) { size_t n = c.I(i); s.update(b.data() + o, n); o += n; } s.update(b.data() + o, b.size() - o);
    by d(32, 0xcc); s.digest(d.data()); c.ret(d))
// the other forms: digest by value, update with a string, the digest as text, a message of many repetitions
OP("sha.arr", by& b = c.Y(0); sha256 s; s.update(b.data(), b.size()); c.ret(s.digest()))
OP("sha.str", by& b = c.Y(0); sha256 s; s.update(std::string(b.begin(), b.end())); c.ret(s.digest()))
OP("sha.hex", auto a = c.YN<32>(0); std::string s = sha256::toString(a); c.ret(by(s.begin(), s.end())))
OP("sha.rep", by& b = c.Y(0); size_t n = strtoull(c.M(0).c_str(), nullptr, 10); sha256 s; by big; for(int i = 0; i < 64; i++) big.insert(big.end(), b.begin(), b.end());
    while(n >= 64) { s.update(big.data(), big.size()); n -= 64; } while(n--) s.update(b.data(), b.size()); by d(32, 0xcc); s.digest(d.data()); c.ret(d))
OP("sha.big", Big b(c, 0, 1, 0); sha256 s; s.update(b.p, b.n); c.ret(s.digest()))
