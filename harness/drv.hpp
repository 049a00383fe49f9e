// Interpreter of API programs.  A program is a list of lines
//     op dst arg...
// where %name is a register and anything else an immediate.  Every executed call is logged as
// one JSON line: the call, its argument registers, immediates, and the raw value returned.
// The log is what the TLA+ specification is checked against (spec/Api.tla); nothing is judged here.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <unordered_map>
#include <variant>
#include <functional>
#include <optional>
#include <tuple>
#include <set>
#include <stdexcept>
#include <bls12-381/bls12-381.hpp>

namespace drv {
using namespace bls12_381;
typedef std::vector<uint64_t> sc;      // limbs, least significant first
typedef std::vector<uint8_t> by;
typedef std::variant<std::monostate, fp, fp2, fp6, fp12, g1, g2, sc, by> Val;

struct Ctx {
    std::unordered_map<std::string, Val> regs;
    // current call
    std::string op, dst;
    std::vector<std::string> x;        // argument registers
    std::vector<std::string> m;        // immediates
    std::string kind;                  // kind of the result
    std::vector<std::string> r;        // the result

    template<class T> T& reg(const std::string& n) {
        auto it = regs.find(n);
        if(it == regs.end()) throw std::logic_error("driver: unset register " + n);
        T* p = std::get_if<T>(&it->second);
        if(!p) throw std::logic_error("driver: register kind " + n);
        return *p;
    }
    template<class T> T& a(size_t i) { return reg<T>(x.at(i)); }
    fp& F(size_t i) { return a<fp>(i); }
    fp2& F2(size_t i) { return a<fp2>(i); }
    fp6& F6(size_t i) { return a<fp6>(i); }
    fp12& F12(size_t i) { return a<fp12>(i); }
    g1& G1(size_t i) { return a<g1>(i); }
    g2& G2(size_t i) { return a<g2>(i); }
    sc& S(size_t i) { return a<sc>(i); }
    by& Y(size_t i) { return a<by>(i); }
    std::array<uint64_t, 4> S4(size_t i) { sc& s = S(i); std::array<uint64_t, 4> o{}; for(size_t k = 0; k < 4; k++) o[k] = s.at(k); return o; }
    template<size_t N> std::array<uint8_t, N> YN(size_t i) { by& s = Y(i); if(s.size() != N) throw std::logic_error("driver: length"); std::array<uint8_t, N> o; memcpy(o.data(), s.data(), N); return o; }
    const std::string& M(size_t i) { return m.at(i); }
    long I(size_t i) { return strtol(m.at(i).c_str(), nullptr, 10); }

    void ret(const fp& v);
    void ret(const fp2& v);
    void ret(const fp6& v);
    void ret(const fp12& v);
    void ret(const g1& v);
    void ret(const g2& v);
    void ret(const sc& v);
    void ret(const by& v);
    void retB(bool v);
    void retI(long v);
    void retU() { kind = "u"; }
    void retNone() { kind = "none"; }
    template<size_t N> void ret(const std::array<uint64_t, N>& v) { ret(sc(v.begin(), v.end())); }
    template<size_t N> void ret(const std::array<uint8_t, N>& v) { ret(by(v.begin(), v.end())); }
    template<class T> void retOpt(const std::optional<T>& v) { if(v) ret(*v); else retNone(); }
    // what an output parameter holds before the call: the old value of the destination register, if it has one of that type
    template<class T> T stale() {
        auto it = regs.find(dst);
        if(it != regs.end()) if(auto* p = std::get_if<T>(&it->second)) return *p;
        return T();
    }
    void same() {                      // log the (mutated) register dst
        Val& v = regs[dst];
        std::visit([&](auto& t) { show(t); }, v);
    }
    void show(const std::monostate&) { kind = "u"; }
    void show(const fp& v); void show(const fp2& v); void show(const fp6& v); void show(const fp12& v);
    void show(const g1& v); void show(const g2& v); void show(const sc& v); void show(const by& v);
};
std::string hexfp(const fp& v);
std::string hexsc(const uint64_t* d, size_t n);
std::string hexby(const uint8_t* d, size_t n);
sc parsesc(const std::string& h);      // 16 digits per limb, most significant first
by parseby(const std::string& h);
typedef std::function<void(Ctx&)> Fn;
std::map<std::string, Fn>& table();
struct Reg { Reg(const char* n, Fn f) { table()[n] = f; } };
template<size_t N> std::array<uint64_t, N> arr(const sc& s) { std::array<uint64_t, N> o{}; for(size_t i = 0; i < N && i < s.size(); i++) o[i] = s[i]; return o; }
}
#define DRV_CAT2(a, b) a##b
#define DRV_CAT(a, b) DRV_CAT2(a, b)
#define OP(name, ...) static ::drv::Reg DRV_CAT(reg_, __COUNTER__)(name, [](::drv::Ctx& c) { __VA_ARGS__; });
