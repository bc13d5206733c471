// Native implementation of the harness interface: replays one recorded assignment against the real library,
// compiled by the ordinary compiler with the real C++ library and the sanitizers.
//   replay INPUTFILE   (lines: "name d:<hex bits>:<text>" or "name i:<int>"; "!param name value"; "!mode real|fp")
// exit 0: no violation, 1: a checked assertion failed, 3: the run diverged from the recorded inputs,
// 4: an assumption of the harness does not hold for these inputs; a crash or sanitizer report ends otherwise.
#include "../harness/tsx.h"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <new>
#include <set>
#include <string>
#include <vector>

namespace {
struct In { std::string name; char kind; double d; long long i; };
std::vector<In> *ins;
size_t pos;
std::vector<std::pair<std::string, int>> *params;
bool real;
long live;
const char *lowSp;
int calls, callsMax; // functions entered and not left (only when compiled with -finstrument-functions)
#ifdef COUNT_CALLS
const bool counting = true;
#else
const bool counting = false;
#endif
bool track;

In next(const char *name, char kind) {
    if (pos >= ins->size()) { printf("REPLAY: more inputs wanted (%s)\n", name); fflush(stdout); _Exit(3); }
    In r = (*ins)[pos++];
    std::string base = r.name.substr(0, r.name.find('#'));
    if (base != name || r.kind != kind) { printf("REPLAY: input %s wanted, %s recorded\n", name, r.name.c_str()); fflush(stdout); _Exit(3); }
    return r;
}
inline void sp() {
    char c;
    const char *p = (const char *)__builtin_frame_address(0);
    (void)c;
    if (!lowSp || p < lowSp) lowSp = p;
}
} // namespace

void *operator new(size_t n) { if (track) { live++; sp(); } void *p = malloc(n ? n : 1); if (!p) abort(); return p; }
void *operator new[](size_t n) { if (track) { live++; sp(); } void *p = malloc(n ? n : 1); if (!p) abort(); return p; }
void operator delete(void *p) noexcept { if (p && track) { live--; sp(); } free(p); }
void operator delete[](void *p) noexcept { if (p && track) { live--; sp(); } free(p); }
void operator delete(void *p, size_t) noexcept { if (p && track) { live--; sp(); } free(p); }
void operator delete[](void *p, size_t) noexcept { if (p && track) { live--; sp(); } free(p); }

extern "C" {
double tsx_double(const char *n) { return next(n, 'd').d; }
int tsx_int(const char *n, int lo, int hi) {
    int v = (int)next(n, 'i').i;
    if (v < lo || v > hi) _Exit(4);
    return v;
}
unsigned char tsx_byte(const char *n) { return (unsigned char)next(n, 'i').i; }
int tsx_choice(const char *n, int k) { return tsx_int(n, 0, k - 1); }
void tsx_assume(int c) {
    if (!c) { printf("REPLAY: an assumption does not hold\n"); fflush(stdout); _Exit(4); }
}
void tsx_check(int c, const char *msg) {
    if (!c) { printf("REPLAY-VIOLATION: %s\n", msg); fflush(stdout); _Exit(1); }
}
int tsx_same(double a, double b) {
    if (a != a || b != b) return a != a && b != b;
    if (a == b) return 1;
    if (!real) return 0;
    if (std::isinf(a) || std::isinf(b)) return 0;
    double s = std::fmax(1.0, std::fmax(std::fabs(a), std::fabs(b)));
    return std::fabs(a - b) <= 1e-6 * s;
}
int tsx_param(const char *n, int d) {
    for (auto &p : *params) if (p.first == n) return p.second;
    return d;
}
void tsx_cover(const char *n) { printf("COVER: %s\n", n); }
void tsx_note(const char *t) { printf("NOTE: %s\n", t); fflush(stdout); }
void tsx_show(double v) { printf("SHOW: %.17g\n", v); }
int tsx_is_real(void) { return real; }
int tsx_symbolic(void) { return 0; }
void tsx_depth_reset(void) { lowSp = nullptr; callsMax = calls; }
// native "call depth": the deepest stack pointer seen at an allocation or release, in units of 64 bytes
int tsx_depth_max(void) {
    if (counting) return callsMax - calls;
    const char *p = (const char *)__builtin_frame_address(0);
    if (!lowSp || lowSp > p) return 0;
    return (int)((p - lowSp) / 64);
}
int tsx_live(void) { return (int)live; }
void tsx_outside(const char *m) { printf("REPLAY: outside the claim: %s\n", m); fflush(stdout); _Exit(4); }
void tsx_skip(const char *m) { printf("REPLAY: skip %s\n", m); fflush(stdout); _Exit(4); }
int tsx_is_const(double) { return 0; }
}

extern "C" {
__attribute__((no_instrument_function)) void __cyg_profile_func_enter(void *, void *) { if (++calls > callsMax) callsMax = calls; }
__attribute__((no_instrument_function)) void __cyg_profile_func_exit(void *, void *) { calls--; }
}

int main(int argc, char **argv) {
    ins = new std::vector<In>;
    params = new std::vector<std::pair<std::string, int>>;
    FILE *f = fopen(argc > 1 ? argv[1] : "", "r");
    if (!f) { fprintf(stderr, "usage: replay INPUTFILE\n"); return 2; }
    char a[256], b[256], c[256];
    char line[1024];
    while (fgets(line, sizeof line, f)) {
        if (line[0] == '#' || line[0] == '\n') continue;
        if (line[0] == '!') {
            if (sscanf(line, "!param %255s %255s", a, b) == 2) params->push_back({a, atoi(b)});
            else if (sscanf(line, "!mode %255s", c) == 1) real = !strcmp(c, "real");
            continue;
        }
        if (sscanf(line, "%255s %255s", a, b) != 2) continue;
        In i{a, b[0], 0, 0};
        if (b[0] == 'd') {
            unsigned long long u = strtoull(b + 2, nullptr, 16);
            memcpy(&i.d, &u, 8);
        } else i.i = atoll(b + 2);
        ins->push_back(i);
    }
    fclose(f);
    track = true;
    harness_main();
    track = false;
    printf("REPLAY: completed without a violation\n");
    return 0;
}
