#include "drv.hpp"
using namespace drv;
OP("const.fp", std::string n = c.M(0); const fp* p = n == "MODULUS" ? &fp::MODULUS : n == "R1" ? &fp::R1 : n == "R2" ? &fp::R2 : n == "B" ? &fp::B : n == "twoInv" ? &fp::twoInv : &fp::glvPhi1; c.kind = "rawv"; c.r = {hexfp(*p)})
OP("const.sc", std::string n = c.M(0); if(n == "Q") c.ret(fp::Q); else if(n == "pPlus1Over4") c.ret(fp::pPlus1Over4); else if(n == "pMinus1Over2") c.ret(fp::pMinus1Over2); else if(n == "pMinus3Over4") c.ret(fp::pMinus3Over4);
    else if(n == "INP") c.ret(sc{fp::INP}); else if(n == "cofactorEFF1") c.ret(g1::cofactorEFF); else c.ret(g2::cofactorEFF))
OP("const.fp2", std::string n = c.M(0); long i = c.I(1); const fp2* p = n == "negativeOne2" ? &fp2::negativeOne2 : n == "B" ? &fp2::B : n == "psiX" ? &fp2::psiX : n == "psiY" ? &fp2::psiY
    : n == "frob61" ? &fp6::frobeniusCoeffs61[i] : n == "frob62" ? &fp6::frobeniusCoeffs62[i] : &fp12::frobeniusCoeffs12[i]; fp2 t = *p; c.ret(t))
