#include "drv.hpp"
#include <cstdio>
#include <csignal>
#include <unistd.h>
#include <iostream>
#include <sstream>
#include <thread>
#include <mutex>
#include <atomic>

namespace drv {
std::map<std::string, Fn>& table() { static std::map<std::string, Fn> t; return t; }
static const char HX[] = "0123456789abcdef";
std::string hexsc(const uint64_t* d, size_t n) {
    std::string s;
    for(size_t i = n; i-- > 0;) for(int k = 60; k >= 0; k -= 4) s += HX[(d[i] >> k) & 15];
    return s;
}
std::string hexfp(const fp& v) { return hexsc(v.d.data(), 6); }
std::string hexby(const uint8_t* d, size_t n) { std::string s; for(size_t i = 0; i < n; i++) { s += HX[d[i] >> 4]; s += HX[d[i] & 15]; } return s; }
static int dig(char c) { return c >= 'a' ? c - 'a' + 10 : c >= 'A' ? c - 'A' + 10 : c - '0'; }
sc parsesc(const std::string& h) {
    size_t n = h.size() / 16; sc o(n, 0);
    for(size_t i = 0; i < n * 16; i++) o[n - 1 - i / 16] = (o[n - 1 - i / 16] << 4) | dig(h[i]);
    return o;
}
by parseby(const std::string& h0) {
    std::string h = h0 == "-" ? "" : h0; by o(h.size() / 2);
    for(size_t i = 0; i < o.size(); i++) o[i] = dig(h[2 * i]) * 16 + dig(h[2 * i + 1]);
    return o;
}
void Ctx::show(const fp& v) { kind = "fp"; r = {hexfp(v)}; }
void Ctx::show(const fp2& v) { kind = "fp2"; r = {hexfp(v.c0), hexfp(v.c1)}; }
void Ctx::show(const fp6& v) { kind = "fp6"; r.clear(); for(const fp2* e : {&v.c0, &v.c1, &v.c2}) { r.push_back(hexfp(e->c0)); r.push_back(hexfp(e->c1)); } }
void Ctx::show(const fp12& v) { kind = "fp12"; r.clear(); for(const fp6* s : {&v.c0, &v.c1}) for(const fp2* e : {&s->c0, &s->c1, &s->c2}) { r.push_back(hexfp(e->c0)); r.push_back(hexfp(e->c1)); } }
void Ctx::show(const g1& v) { kind = "g1"; r = {hexfp(v.x), hexfp(v.y), hexfp(v.z)}; }
void Ctx::show(const g2& v) { kind = "g2"; r.clear(); for(const fp2* e : {&v.x, &v.y, &v.z}) { r.push_back(hexfp(e->c0)); r.push_back(hexfp(e->c1)); } }
void Ctx::show(const sc& v) { kind = "sc"; r = {hexsc(v.data(), v.size())}; }
void Ctx::show(const by& v) { kind = "by"; r = {hexby(v.data(), v.size())}; }
#define RET(T) void Ctx::ret(const T& v) { T t = v; show(t); if(dst != "-") regs[dst] = t; }
RET(fp) RET(fp2) RET(fp6) RET(fp12) RET(g1) RET(g2) RET(sc) RET(by)
void Ctx::retB(bool v) { kind = "bo"; r = {v ? "1" : "0"}; }
void Ctx::retI(long v) { kind = "in"; r = {std::to_string(v)}; }

// one execution of one program: its register file and its log
struct Run { Ctx ctx; std::string out; bool skipping = false; long prog = -1; };
static thread_local Run* cur = nullptr;
static Run* running[64];               // concurrent mode: what each thread is executing
static std::mutex outMutex;
static bool concurrent = false;
static void put(std::string& s) { size_t o = 0; while(o < s.size()) { ssize_t k = ::write(1, s.data() + o, s.size() - o); if(k <= 0) _exit(9); o += k; } s.clear(); }
static void jarr(std::string& out, const std::vector<std::string>& v) { out += '['; for(size_t i = 0; i < v.size(); i++) { if(i) out += ','; out += '"'; out += v[i]; out += '"'; } out += ']'; }
static void emit(Run& q) {
    Ctx& ctx = q.ctx; std::string& out = q.out;
    size_t dot = ctx.op.find('.');
    out += "{\"c\":\""; out += ctx.op.substr(0, dot); out += "\",\"o\":\""; out += ctx.op.substr(dot + 1);
    out += "\",\"d\":\""; out += ctx.dst; out += "\",\"x\":"; jarr(out, ctx.x); out += ",\"m\":"; jarr(out, ctx.m);
    out += ",\"k\":\""; out += ctx.kind; out += "\",\"r\":"; jarr(out, ctx.r); out += "}\n";
    if(!concurrent && out.size() > (1 << 16)) put(out);
}
static void onSignal(int s) {
    Run* q = cur;
    if(!q) for(Run* p : running) if(p && !q) q = p;
    if(!q) _exit(9);
    q->ctx.kind = s == SIGALRM ? "hang" : "crash"; q->ctx.r.clear();
    emit(*q);
    if(concurrent) q->out.insert(0, "#" + std::to_string(q->prog) + "\n");
    put(q->out); _exit(0);
}
// executes one line; false: the line cannot be executed at all
static int step(Run& q, const std::string& line, unsigned limit) {
    Ctx& ctx = q.ctx; std::istringstream is(line); std::string t;
    ctx.x.clear(); ctx.m.clear(); ctx.r.clear(); ctx.kind = "u";
    if(!(is >> ctx.op)) return 0;
    if(ctx.op == "reset") { q.skipping = false; ctx.regs.clear(); ctx.dst = "-"; ctx.op = "sys.reset"; emit(q); return 0; }
    if(q.skipping) return 0;
    is >> ctx.dst;
    while(is >> t) { if(t[0] == '%') ctx.x.push_back(t.substr(1)); else ctx.m.push_back(t); }
    if(ctx.op == "sys.dump") {
        // log every register: arguments must not have been disturbed by any call
        std::map<std::string, Val> sorted(ctx.regs.begin(), ctx.regs.end());
        for(auto& e : sorted) { ctx.x = {e.first}; ctx.dst = "-"; ctx.op = "sys.reg"; std::visit([&](auto& v) { ctx.show(v); }, e.second); emit(q); }
        return 0;
    }
    auto it = table().find(ctx.op);
    if(it == table().end()) { fprintf(stderr, "unknown op %s\n", ctx.op.c_str()); return 3; }
    if(limit && (ctx.op.rfind("big.", 0) == 0 || ctx.op == "sha.big" || ctx.op == "sha.rep" || ctx.op.back() == 'C')) limit = 300;      // minutes of hashing
    if(limit) alarm(limit);
    try { it->second(ctx); }
    catch(const std::logic_error& e) {
        if(strncmp(e.what(), "driver: unset", 13) == 0) {
            // an earlier call did not produce the value this one needs: give up on the rest of the program
            if(limit) alarm(0);
            ctx.op = "sys.abort"; ctx.dst = "-"; ctx.x.clear(); ctx.m.clear(); ctx.r.clear(); ctx.kind = "u"; emit(q);
            q.skipping = true; return 0;
        }
        if(strncmp(e.what(), "driver:", 7) == 0 || dynamic_cast<const std::out_of_range*>(&e)) { fprintf(stderr, "%s in: %s\n", e.what(), line.c_str()); return 4; }
        ctx.kind = "exc"; ctx.r.clear();
    }
    catch(...) { ctx.kind = "exc"; ctx.r.clear(); }
    if(limit) alarm(0);
    emit(q);
    return 0;
}
// All programs at once on n threads.  Every program is executed `rep` times; its log is printed after a line
// "#index", once for every distinct log.
static int threads(unsigned n, unsigned rep, unsigned limit) {
    std::vector<std::vector<std::string>> progs; std::string line;
    while(std::getline(std::cin, line)) { if(line == "reset") progs.emplace_back(); progs.back().push_back(line); }
    concurrent = true;
    std::vector<std::set<std::string>> seen(progs.size());
    std::atomic<size_t> next{0}; std::atomic<int> rc{0};
    if(n > 64) n = 64;
    sigset_t al; sigemptyset(&al); sigaddset(&al, SIGALRM); pthread_sigmask(SIG_BLOCK, &al, nullptr);
    std::vector<std::thread> ts;
    for(unsigned t = 0; t < n; t++) ts.emplace_back([&, t]() {
        for(size_t k; (k = next++) < progs.size() * rep && !rc;) {
            Run q; cur = running[t] = &q;
            // neighbours in the list run side by side, and so do the repetitions
            size_t block = k / (n * rep) * n, w = std::min<size_t>(n, progs.size() - block), i = block + (k - block * rep) % w;
            q.prog = i;
            for(auto& l : progs[i]) if(int e = step(q, l, 0)) rc = e;
            cur = running[t] = nullptr;
            std::lock_guard<std::mutex> g(outMutex);
            if(seen[i].insert(q.out).second) { q.out.insert(0, "#" + std::to_string(i) + "\n"); put(q.out); }
        }
    });
    pthread_sigmask(SIG_UNBLOCK, &al, nullptr);
    alarm(limit);
    for(auto& t : ts) t.join();
    alarm(0);
    return rc;
}
}
using namespace drv;
int main(int argc, char** argv) {
    if(argc > 1 && std::string(argv[1]) == "--ops") { for(auto& e : table()) printf("%s\n", e.first.c_str()); return 0; }
    unsigned limit = argc > 1 ? atoi(argv[1]) : 60;
    for(int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGALRM}) {
        struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = onSignal; sa.sa_flags = SA_NODEFER; sigaction(s, &sa, nullptr);
    }
    if(argc > 3) return threads(atoi(argv[2]), atoi(argv[3]), limit);
    static Run q; cur = &q;
    std::string line;
    while(std::getline(std::cin, line)) if(int e = step(q, line, limit)) return e;
    put(q.out);
    return 0;
}
