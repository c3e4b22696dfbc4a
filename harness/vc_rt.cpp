// Concrete runtime of the harness hooks: runs scenarios of the real code (real Eigen,
// sanitizers on) on inputs read from stdin and logs everything the contract talks about.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <map>
#include <string>
#include <vector>
#include <iostream>
#include <sstream>
#include <cmath>

static std::map<std::string, long> SZ;
static std::map<std::string, std::vector<double>> ARR;
static std::map<std::string, double> RE;
static std::vector<double*> bufs;
static int rnd = 0;
static unsigned long long lcg = 88172645463325252ull;
static int mute = 0, sibs = 0;
static void (*sibf)(void*) = nullptr;
static void* sibp = nullptr;
static void sib() {
    if (!sibf || mute || !sibs) return;
    ++mute; sibf(sibp); --mute;
}
static double rndd() { lcg ^= lcg << 13; lcg ^= lcg >> 7; lcg ^= lcg << 17; return ((double)(lcg % 2000003) / 500000.75) - 2.; }

extern "C" {
void vc_sibling(void (*f)(void*), void* p) { sibf = f; sibp = p; }
long vc_size(const char* n, long lo) {
    long v = SZ.count(n) ? SZ[n] : lo + 2;
    if (v < lo) v = lo;
    printf("size %s %ld\n", n, v);
    return v;
}
double vc_real(const char* n) {
    double v = RE.count(n) ? RE[n] : rndd();
    printf("real %s %.17g\n", n, v);
    return v;
}
double* vc_buf(const char* tag, long n) {
    if (n < 0) { printf("fail storage negative size requested for %s\n", tag); fflush(stdout); exit(3); }
    double* p = (double*)malloc(n ? n * sizeof(double) : 1);
    for (long i = 0; i < n; ++i) p[i] = 1e3 + 17.5 * rndd();
    bufs.push_back(p);
    return n ? p : p;
}
static void fillname(double* p, long r, long c, const std::string& nm) {
    auto it = ARR.find(nm);
    if (mute) {
        for (long k = 0; k < r * c; ++k) p[k] = (it != ARR.end() && !it->second.empty()) ? it->second[k % it->second.size()] : rndd();
        return;
    }
    printf("fill %s %ld %ld", nm.c_str(), r, c);
    for (long k = 0; k < r * c; ++k) {
        p[k] = (it != ARR.end() && !it->second.empty()) ? it->second[k % it->second.size()] : rndd();
        printf(" %.17g", p[k]);
    }
    printf("\n");
}
void vc_fill(void* p, long r, long c, const char* name, int id) {
    fillname((double*)p, r, c, std::string(name) + std::to_string(id) + "_" + std::to_string(mute ? rnd % 6 + 1 : rnd));
}
void vc_array(void* p, long r, long c, const char* name) { fillname((double*)p, r, c, name); }
void vc_havoc(void* p, long r, long c) { for (long k = 0; k < r * c; ++k) ((double*)p)[k] = 1e4 + 23.5 * rndd(); }
void vc_touch(const void* p, long r, long c) {
    volatile double s = 0;
    for (long k = 0; k < r * c; ++k) s = s + ((const double*)p)[k];
}
void vc_round(int r) { sib(); rnd = r; printf("ev round %d\n", r); }
void vc_event(const char* w, int id) { if (mute) return; sib(); printf("ev %s %d\n", w, id); }
void vc_eq_ptr(const char* l, const void* a, const void* b) { printf("ptr %d %s\n", a == b, l); }
void vc_eq_int(const char* l, long a, long b) { printf("int %ld %ld %s\n", a, b, l); }
void vc_rec_s(const char* l, int id, double v) { if (!mute) printf("rec 1 1 s %d %s|%.17g\n", id, l, v); }
static long left = 0;
void vc_rec_begin(const char* l, int id, long r, long c) {
    if (mute) return;
    printf("rec %ld %ld a %d %s|", r, c, id, l);
    left = r * c;
    if (!left) printf("\n");
}
void vc_rec_val(double v) { if (mute) return; printf(" %.17g", v); if (--left == 0) printf("\n"); }
void vc_forget(const void*, long) {}
int vc_symbolic() { return 0; }
}

int main() {
    std::string line, sc;
    while (std::getline(std::cin, line)) {
        std::istringstream is(line);
        std::string k, n;
        is >> k;
        if (k == "case") {
            SZ.clear(); ARR.clear(); RE.clear(); is >> sc >> lcg; sibs = lcg & 1; lcg = lcg * 2654435761u + 12345; rnd = 0;
        } else if (k == "size") { long v; is >> n >> v; SZ[n] = v; }
        else if (k == "real") { std::string v; is >> n >> v; RE[n] = strtod(v.c_str(), nullptr); }
        else if (k == "arr") { std::string v; is >> n; auto& a = ARR[n]; while (is >> v) a.push_back(strtod(v.c_str(), nullptr)); }
        else if (k == "run") {
            void (*f)() = (void (*)())dlsym(RTLD_DEFAULT, ("sc_" + sc).c_str());
            printf("begin %s\n", sc.c_str()); fflush(stdout);
            if (!f) { printf("nosuch\n"); return 4; }
            f();
            printf("end\n"); fflush(stdout);
            for (auto p : bufs) free(p);
            bufs.clear();
        }
    }
}
