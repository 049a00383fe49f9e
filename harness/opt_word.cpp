#include "drv.hpp"
using namespace drv;
using namespace bls12_381;
static uint64_t W(Ctx& c, size_t i) { return strtoull(c.M(i).c_str(), nullptr, 16); }
static std::string H(uint64_t v) { return hexsc(&v, 1); }
OP("word.add", auto [a, b] = Add64(W(c,0), W(c,1), W(c,2)); c.kind = "words"; c.r = {H(a), H(b)})
OP("word.sub", auto [a, b] = Sub64(W(c,0), W(c,1), W(c,2)); c.kind = "words"; c.r = {H(a), H(b)})
OP("word.mul", auto [a, b] = Mul64(W(c,0), W(c,1)); c.kind = "words"; c.r = {H(a), H(b)})
