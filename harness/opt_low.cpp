#include "drv.hpp"
using namespace drv;
using namespace bls12_381;
static fp R(const std::string& h) { sc s = parsesc(h); return fp(arr<6>(s)); }
// raw operands of the low level routines; alias mode: 0 distinct, 1 z=x, 2 z=y, 3 z=x=y
#define LOW3(name, f) OP("low." name, fp x = R(c.M(0)); fp y = R(c.M(1)); fp z; long al = c.I(2); \
    if(al == 0) f(&z, &x, &y); else if(al == 1) { f(&x, &x, &y); z = x; } else if(al == 2) { f(&y, &x, &y); z = y; } else { f(&x, &x, &x); z = x; } c.kind = "rawv"; c.r = {hexfp(z)})
#define LOW2(name, f) OP("low." name, fp x = R(c.M(0)); fp z; long al = c.I(1); \
    if(al == 0) f(&z, &x); else { f(&x, &x); z = x; } c.kind = "rawv"; c.r = {hexfp(z)})
LOW3("add", _add) LOW3("sub", _subtract) LOW3("mul", _multiply) LOW3("ladd", _ladd) LOW3("lsub", _lsubtract)
LOW2("dbl", _double) LOW2("neg", _negate) LOW2("sq", _square) LOW2("ldbl", _ldouble)
