// Native twin of the runtime: replays one assignment of the inputs on the
// uninstrumented build of the harness.  usage: prog REPLAY [try]
#include "vt.h"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <map>
#include <set>
#include <random>
#include <string>
#include <sys/stat.h>
#include <unistd.h>
#include <signal.h>
#include <exception>
#include <execinfo.h>
static std::map<std::string, std::string> vals;
static std::map<std::string, int> seen;
static int tryNo = 0;
static std::mt19937 rng;
static std::string scratch;
static std::string key(const char* n) {
    int k = seen[n]++;
    return k ? std::string(n) + "#" + std::to_string(k) : std::string(n);
}
static double nice(double v) { return std::isfinite(v) ? v : 0.5; }
extern "C" {
double vt_real(const char* name) {
    std::string k = key(name);
    auto it = vals.find(k);
    double v = it != vals.end() ? nice(strtod(it->second.c_str(), nullptr)) : 0.75;
    if (tryNo > 0) {
        std::uniform_real_distribution<double> d(-2.5, 2.5);
        double r = d(rng);
        if (tryNo % 3 == 1) v = r;
        else if (tryNo % 3 == 2) v = std::fabs(r) + 0.1;
        else v += r * 0.25;
    }
    return v;
}
long vt_int(const char* name, long lo, long hi) {
    std::string k = key(name);
    auto it = vals.find(k);
    long v = it != vals.end() ? strtol(it->second.c_str(), nullptr, 10) : lo;
    if (v < lo || v > hi) { printf("REPLAY out-of-range %s\n", k.c_str()); fflush(0); _exit(3); }
    return v;
}
long vt_choice(const char* name, long n) { return vt_int(name, 0, n - 1); }
void vt_assume(bool c) { if (!c) { printf("REPLAY assumption-failed\n"); fflush(0); _exit(3); } }
static void fail(const char* msg) { printf("REPLAY violated: %s\n", msg); fflush(0); _exit(1); }
void vt_assert(bool c, const char* msg) { if (!c) fail(msg); }
void vt_assert_eq(double a, double b, const char* msg) {
    if (!std::isfinite(b)) return; // outside the domain of the reference
    if (!std::isfinite(a) || !std::isfinite(b)) {
        if (a == b) return;
        if (!std::isfinite(a) && !std::isfinite(b)) return;
        printf("REPLAY nonfinite %s: %.17g vs %.17g\n", msg, a, b);
        if (tryNo > 0) { fflush(0); _exit(3); }
    }
    double m = std::fmax(std::fabs(a), std::fabs(b));
    if (!(std::fabs(a - b) <= 1e-7 * (1 + m))) { printf("REPLAY values %.17g vs %.17g\n", a, b); fail(msg); }
}
void vt_reach(const char*) {}
void vt_program(const char*) {}
void vt_skip(void) { printf("REPLAY skipped\n"); fflush(0); _exit(3); }
bool vt_symbolic(void) { return false; }
const char* vt_scratch(void) { return scratch.c_str(); }
long vt_conc_int(long v) { return v; }
const char* vt_arg(const char* k, const char* d) {
    const char* e = getenv((std::string("VT_OPT_") + k).c_str());
    return e ? e : d;
}
}
static void onsig(int s) { char b[64]; int n = snprintf(b, 64, "REPLAY violated: crash signal %d\n", s); (void) !write(1, b, n); void* bt[64]; if (getenv("VT_BT")) backtrace_symbols_fd(bt, backtrace(bt, 64), 2); _exit(1); }
int main(int argc, char** argv) {
    if (argc > 1) {
        if (FILE* f = fopen(argv[1], "r")) {
            char line[4096];
            while (fgets(line, sizeof line, f)) {
                if (line[0] == '#') continue;
                char* sp = strrchr(line, ' ');
                if (!sp) continue;
                *sp = 0;
                std::string v(sp + 1);
                while (!v.empty() && isspace((unsigned char) v.back())) v.pop_back();
                vals[line] = v;
            }
            fclose(f);
        } else { fprintf(stderr, "no replay file\n"); return 2; }
    }
    if (argc > 2) tryNo = atoi(argv[2]);
    rng.seed(1234 + tryNo);
    const char* base = getenv("VT_SCRATCH");
    scratch = (base ? std::string(base) : std::string("/tmp")) + "/n" + std::to_string(getpid());
    mkdir(scratch.c_str(), 0755);
    if (chdir(scratch.c_str())) {}
    for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL}) signal(s, onsig);
    try {
        vt_harness();
    } catch (const std::exception& e) {
        printf("REPLAY violated: uncaught exception %s\n", e.what());
        fflush(0);
        _exit(1);
    }
    printf("REPLAY ok\n");
    fflush(0);
    _exit(0);
}
