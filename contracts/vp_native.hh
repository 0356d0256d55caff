// Native runtime of the contract units: replays a counterexample of the verifier against the
// compiled real code, or searches for one (bounded stand-in).  Included once per native program.
#pragma once
#include <csetjmp>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <chrono>
#include <map>
#include <random>
#include <string>
#include <vector>
#include <unistd.h>

namespace vpn {
struct Rec { std::string name; unsigned bits; std::vector<uint8_t> bytes; };
inline std::map<std::string, std::vector<uint8_t>> given;  // replay values, little endian
inline std::vector<Rec> recs;
inline bool searching = false, quiet = false;
inline jmp_buf rejected;
inline std::mt19937_64 rng;
inline const char *unit = "";
inline uint64_t runs = 0, accepted = 0;
inline void dump() {
    fflush(stdout);
    printf("INPUTS %s {", unit);
    bool first = true;
    for (auto &r : recs) {
        printf("%s\"%s\":\"", first ? "" : ",", r.name.c_str());
        for (size_t i = r.bytes.size(); i-- > 0;) printf("%02x", r.bytes[i]);
        printf("\"");
        first = false;
    }
    printf("}\n");
    fflush(stdout);
}
inline void fail(const char *clause) {
    printf("FAILED %s: %s\n", unit, clause);
    dump();
    fflush(stdout);
    _exit(1);
}
inline void on_abort(int s) {
    printf("FAILED %s: the program stopped with signal %d\n", unit, s);
    dump();
    _exit(1);
}
inline void on_death() {
    printf("FAILED %s: undefined behaviour or invalid memory access (sanitizer)\n", unit);
    dump();
    _exit(1);
}
inline std::vector<uint8_t> gen(unsigned bits) {
    unsigned n = (bits + 7) / 8;
    std::vector<uint8_t> b(n);
    auto setbit = [&](unsigned i) { b[i / 8] |= 1u << (i % 8); };
    unsigned k = rng() % 16;
    switch (k) {
        case 0: break;
        case 1: for (auto &x : b) x = 0xff; break;
        case 2: setbit(rng() % bits); break;
        case 3: setbit(bits - 1); break;
        case 4: { unsigned p = rng() % bits; for (unsigned i = 0; i < p; i++) setbit(i); break; }
        case 5: { unsigned p = rng() % bits; for (unsigned i = p; i < bits; i++) setbit(i); break; }
        case 6: { b[0] = rng() % 8; break; }
        case 7: { for (unsigned i = 0; i < n; i += 8) { unsigned c = rng() % 4; for (unsigned j = i; j < n && j < i + 8; j++) b[j] = c == 0 ? 0 : c == 1 ? 0xff : (uint8_t)rng(); } break; }
        case 8: { b[0] = (uint8_t)rng(); if (n > 1 && (rng() & 1)) b[1] = (uint8_t)rng() & 3; break; }
        case 9: { for (int i = 0; i < 2; i++) setbit(rng() % bits); break; }
        case 10: case 11: {
            // an earlier value, its complement or a neighbour
            if (!recs.empty()) {
                auto &r = recs[rng() % recs.size()];
                for (unsigned i = 0; i < n; i++) b[i] = i < r.bytes.size() ? r.bytes[i] : 0;
                unsigned q = rng() % 4;
                if (q == 1) for (auto &x : b) x = ~x;
                if (q == 2) b[0] ^= 1;
                if (q == 3) b[rng() % n] ^= 1u << (rng() % 8);
                break;
            }
            [[fallthrough]];
        }
        default: for (auto &x : b) x = (uint8_t)rng();
    }
    if (bits % 8) b[n - 1] &= (1u << (bits % 8)) - 1;
    return b;
}
}  // namespace vpn
extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));
extern "C" {
inline void vp_sym(void *p, unsigned bits, const char *name) {
    unsigned n = (bits + 7) / 8;
    std::vector<uint8_t> v;
    if (vpn::searching) v = vpn::gen(bits);
    else { v = vpn::given[name]; v.resize(n); if (bits % 8) v[n - 1] &= (1u << (bits % 8)) - 1; }
    vpn::recs.push_back({name, bits, v});
    std::memcpy(p, v.data(), n);
}
inline void vp_assume(bool c) {
    if (c) return;
    if (vpn::searching) longjmp(vpn::rejected, 1);
    printf("REJECTED: the inputs do not satisfy the precondition\n");
    _exit(3);
}
inline void vp_assert(bool c, const char *clause) {
    if (c) return;
    if (strncmp(clause, "finding:", 8) == 0) { if (!vpn::searching) printf("FINDING %s\n", clause + 8); return; }
    vpn::fail(clause);
}
inline void vp_requires(bool c, const char *clause) { if (!c) vpn::fail(clause); }
inline void vp_use(const void *, const void *) {}
inline void vp_unuse() {}
inline void vp_invariant(bool, const char *) {}
inline void vp_variant(uint64_t) {}
inline void vp_modifies(const void *, size_t) {}
inline void vp_uf(const char *, const void *, unsigned, void *, unsigned) {}
inline bool vp_symbolic() { return false; }
}
namespace vpn {
struct Entry { const char *name; void (*fn)(); };
inline int run(const Entry *tab, unsigned n, int argc, char **argv) {
    // replay <unit> name=hex ... | search <unit> <seconds> <seed> <max runs>
    if (argc < 3) return 4;
    signal(SIGABRT, on_abort); signal(SIGSEGV, on_abort); signal(SIGILL, on_abort); signal(SIGFPE, on_abort); signal(SIGTRAP, on_abort);
    if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(on_death);
    std::string mode = argv[1], u = argv[2];
    const Entry *e = nullptr;
    for (unsigned i = 0; i < n; i++) if (u == tab[i].name) e = &tab[i];
    if (!e) return 4;
    unit = e->name;
    if (mode == "replay") {
        for (int i = 3; i < argc; i++) {
            std::string a = argv[i];
            auto q = a.find('=');
            if (q == std::string::npos) continue;
            std::string h = a.substr(q + 1);
            if (h.size() % 2) h = "0" + h;
            std::vector<uint8_t> b;
            for (size_t j = h.size(); j >= 2; j -= 2) b.push_back((uint8_t)strtoul(h.substr(j - 2, 2).c_str(), nullptr, 16));
            given[a.substr(0, q)] = b;
        }
        e->fn();
        printf("HELD %s\n", unit);
        return 0;
    }
    double secs = atof(argv[3]);
    rng.seed(strtoull(argv[4], nullptr, 10));
    uint64_t maxRuns = argc > 5 ? strtoull(argv[5], nullptr, 10) : ~0ull;
    searching = true;
    auto t0 = std::chrono::steady_clock::now();
    while (runs < maxRuns) {
        if ((runs & 63) == 0 && std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > secs) break;
        runs++;
        recs.clear();
        if (setjmp(rejected)) continue;
        e->fn();
        accepted++;
    }
    printf("SEARCHED %s runs=%llu accepted=%llu\n", unit, (unsigned long long)runs, (unsigned long long)accepted);
    return 0;
}
}  // namespace vpn
