// Replay / search runtime: gives the contract primitives concrete values.
//   prog replay <contract> <valuefile>     exit 0 held, 1 violated, 3 precondition not met
//   prog fuzz <contract> <seed> <seconds> <outfile>
#include "vc.h"
#include <map>
#include <string>
#include <vector>
#include <random>
#include <fstream>
#include <sstream>
#include <iostream>
#include <chrono>
#include <functional>
#include <csignal>
#include <unistd.h>
#include <sys/wait.h>
#include <cstdlib>

struct Assumption {};
struct Violation { std::string label; };
struct LibThrow {};
typedef std::map<std::string, void (*)()> Reg;
static Reg& reg() { static Reg r; return r; }
void vc_register(const char* n, void (*f)()) { reg()[n] = f; }

static bool g_fuzz = false, g_allow = false;
static int g_size = 8;
static std::mt19937_64 g_rng;
static std::map<std::string, long> g_ints;                       // values used (recorded)
static std::map<std::string, std::map<std::vector<long>, unsigned long>> g_arr;
static std::map<std::string, unsigned long> g_adef;
struct Alloc { char* raw; size_t n; };
static std::vector<char*> g_allocs;
struct ArrInfo { std::string name; int es; long rows, rowelems, step; long lo, hi; bool hasrange; long prows = 0;
    std::vector<long> key(long r, long c) const { return prows ? std::vector<long>{r / prows, r % prows, c} : step ? std::vector<long>{r, c} : std::vector<long>{c}; } };
static std::map<void*, ArrInfo> g_info;
struct FoldD { unsigned long (*step)(void*, unsigned long, long, long); void* ctx; unsigned long init; long rows, cols; };
static std::map<int, FoldD> g_folds;
static std::map<std::string, std::vector<unsigned long>> g_arrmode;

static unsigned long rnd() { return g_rng(); }
static long rrange(long lo, long hi) {
    if(lo > hi) throw Assumption();
    unsigned long w = (unsigned long)hi - (unsigned long)lo + 1;
    unsigned k = rnd() % 10;
    if(k == 0) return lo;
    if(k == 1) return hi;
    if(k < 8) { unsigned long s = std::min<unsigned long>(w == 0 ? ~0ul : w, (unsigned long)g_size); return (rnd() & 1) || s == w ? lo + long(rnd() % s) : ((rnd()&3) ? lo + long(rnd() % s) : hi - long(rnd() % s)); }
    return w == 0 ? (long)rnd() : lo + long(rnd() % w);
}
static unsigned long rbits(int bits) {
    unsigned long m = bits == 64 ? ~0ul : ((1ul << bits) - 1);
    switch(rnd() % 8) {
        case 0: return 0;
        case 1: return m;
        case 2: return (1ul << (rnd() % bits)) & m;
        case 3: return ((1ul << (rnd() % bits)) - 1) & m;
        case 4: return (rnd() % 8) & m;
        case 5: if(bits == 32) { float f = (float)((double)(long(rnd() % 4096) - 2048) / (1 << (rnd() % 5))); unsigned u; memcpy(&u, &f, 4); return u; }
                if(bits == 64) { double f = (double)(long(rnd() % 65536) - 32768) / (1 << (rnd() % 8)); unsigned long u; memcpy(&u, &f, 8); return u; }
        default: return rnd() & m;
    }
}
extern "C" {
long vc_int(const char* name, int, long lo, long hi) {
    auto it = g_ints.find(name);
    long v;
    if(it != g_ints.end()) v = it->second;
    else { v = g_fuzz ? rrange(lo, hi) : (lo <= 0 && hi >= 0 ? 0 : lo); g_ints[name] = v; }
    if(v < lo || v > hi) throw Assumption();
    return v;
}
unsigned long vc_bits(const char* name, int bits) {
    auto it = g_ints.find(name);
    if(it != g_ints.end()) return (unsigned long)it->second & (bits == 64 ? ~0ul : ((1ul << bits) - 1));
    unsigned long v = g_fuzz ? rbits(bits) : 0;
    // correlated values: reuse another one now and then
    if(g_fuzz && !g_ints.empty() && rnd() % 5 == 0) { auto p = g_ints.begin(); std::advance(p, rnd() % g_ints.size()); v = ((unsigned long)p->second + (rnd() % 3) - 1) & (bits == 64 ? ~0ul : ((1ul << bits) - 1)); }
    g_ints[name] = (long)v;
    return v;
}
void vc_assume(int c) { if(!c) throw Assumption(); }
void vc_assert(int c, const char* label) { if(!c) throw Violation{label}; }
void vc_cover(const char*) {}
void vc_lemma(int) {}
void vc_option(const char*, int) {}
void vc_allow_throw(int v) { g_allow = v; }
void vc_fp_ieee(int) {}
static unsigned long elemval(const std::string& n, const std::vector<long>& key, int es) {
    auto& m = g_arr[n];
    auto it = m.find(key);
    unsigned long mask = es >= 8 ? ~0ul : ((1ul << (8 * es)) - 1);
    if(it != m.end()) return it->second & mask;
    if(!g_fuzz) return g_adef.count(n) ? g_adef[n] & mask : 0;
    auto& mode = g_arrmode[n];
    if(mode.empty()) {
        int k = rnd() % 5;
        if(k == 0) mode = {1};
        else if(k == 1) { mode = {2}; for(int i = 0; i < 2; ++i) mode.push_back(rbits(8 * std::min(es, 8))); }
        else if(k == 2) { mode = {2, 0, mask & 0xff}; }
        else if(k == 3) { mode = {2}; unsigned long b = rbits(8 * std::min(es, 8)); for(int i = 0; i < 5; ++i) mode.push_back((b + i * (rnd() % 3)) & mask); }
        else { mode = {2}; for(int i = 0; i < 4; ++i) mode.push_back(rnd() % 10 * (rnd()%4==0 ? 25 : 1)); }
    }
    unsigned long v = mode[0] == 1 ? rbits(8 * std::min(es, 8)) : mode[1 + rnd() % (mode.size() - 1)];
    v &= mask;
    m[key] = v;
    return v;
}
static void fill(void* p, const ArrInfo& a) {
    for(long r = 0; r < a.rows; ++r)
        for(long c = 0; c < a.rowelems; ++c) {
            std::vector<long> key = a.key(r, c);
            unsigned long v = elemval(a.name, key, a.es);
            if(a.hasrange) {
                long s = a.es == 1 && a.lo < 0 ? (signed char)v : a.es == 2 && a.lo < 0 ? (short)v : a.es == 4 && a.lo < 0 ? (int)v : (long)v;
                if(s < a.lo || s > a.hi) {
                    unsigned long w = (unsigned long)(a.hi - a.lo) + 1;
                    s = a.lo + (long)(w ? (unsigned long)v % w : v);
                    v = (unsigned long)s; g_arr[a.name][key] = v & (a.es >= 8 ? ~0ul : ((1ul << (8 * a.es)) - 1));
                }
            }
            memcpy((char*)p + r * a.step + c * a.es, &v, a.es);
        }
}
void* vc_array2d(const char* name, int es, long rows, long rowelems, long step) {
    if(rows < 0 || rowelems < 0 || rows * (step ? step : rowelems * es) > (g_fuzz ? 1l << 16 : 64l << 20)) throw Assumption();
    size_t n = step ? rows * step : rowelems * es;
    void* p = nullptr;
    if(posix_memalign(&p, 64, n ? n : 1)) abort();
    g_allocs.push_back((char*)p);
    // padding bytes of a strided array are filled with noise
    for(size_t i = 0; i < n; ++i) ((char*)p)[i] = (char)(0x5A + i * 31);
    ArrInfo a; a.name = name; a.es = es; a.rows = rows; a.rowelems = rowelems; a.step = step; a.lo = a.hi = 0; a.hasrange = false;
    g_info[p] = a;
    fill(p, a);
    return p;
}
void* vc_array3d(const char* name, int es, long planes, long rows, long rowelems, long, long) {
    if(planes < 0 || rows < 0 || rowelems < 0 || (double)planes * rows * rowelems * es > (g_fuzz ? 1 << 16 : 64 << 20)) throw Assumption();
    long step = rowelems * es;
    void* p = calloc(planes * rows * step + 1, 1);
    g_allocs.push_back((char*)p);
    if(!name) return p;
    ArrInfo a; a.name = name; a.es = es; a.rows = planes * rows; a.rowelems = rowelems; a.step = step; a.lo = a.hi = 0; a.hasrange = false; a.prows = rows;
    g_info[p] = a;
    fill(p, a);
    return p;
}
void vc_fill_plane(void*, unsigned long, int) {}
void* vc_records(int, long) { return nullptr; }
void vc_record_val(void*, int, long, int) {}
void vc_record_ptr(void*, int, void*, long) {}
void vc_record_self(void*, int, long) {}
long vc_symbol(long v) { return v; }
void* vc_array(const char* name, int es, long n) { return vc_array2d(name, es, 1, n, 0); }
void* vc_new2d(int es, long rows, long rowelems, long step) { void* p = malloc(rows * (step ? step : rowelems * es) + 1); g_allocs.push_back((char*)p); return p; }
void vc_elem_range(void* p, long lo, long hi) { auto& a = g_info[p]; a.hasrange = true; a.lo = lo; a.hi = hi; fill(p, a); }
void vc_elem_pred(void* p, bool (*f)(void*, unsigned long, long, long), void* ctx, int fields) {
    auto& a = g_info[p];
    for(long r = 0; r < a.rows; ++r)
        for(long c = 0; c < a.rowelems; ++c) {
            unsigned long v = 0; memcpy(&v, (char*)p + r * a.step + c * a.es, a.es);
            for(int k = 0; !(a.prows ? ((bool (*)(void*, unsigned long, long, long, long))f)(ctx, v, r / a.prows, r % a.prows, c) : fields > 1 ? f(ctx, v, c / fields, c % fields) : f(ctx, v, r, c)); ++k) {
                if(!g_fuzz || k > 2000) throw Assumption();
                v = rbits(8 * std::min(a.es, 8)); g_arr[a.name][a.key(r, c)] = v;
                memcpy((char*)p + r * a.step + c * a.es, &v, a.es);
            }
        }
}
long vc_fresh(long lo, long) { return lo; }
unsigned long vc_fresh_bits(int) { return 0; }
void vc_havoc_obj(void*) {}
void vc_copy_obj(void*, const void*) {}
void vc_fill_obj(void*, unsigned long, int) {}
void vc_lazy_obj(void*, unsigned long (*)(void*, long, long), void*, int) {}
void vc_candidate(void*, void*, const char*) {}
void vc_candidate_alt(void*, void*, const char*) {}
void vc_clear_candidates() {}
void vc_replace(const char*, void*) {}
void vc_fold_def(int id, unsigned long (*s)(void*, unsigned long, long, long), void* c, unsigned long init, long rows, long cols) { g_folds[id] = FoldD{s, c, init, rows, cols}; }
unsigned long vc_fold(int id, long i, long j) {
    FoldD& f = g_folds[id];
    unsigned long a = f.init;
    for(long r = 0; r < i; ++r) for(long c = 0; c < f.cols; ++c) a = f.step(f.ctx, a, r, c);
    for(long c = 0; c < j; ++c) a = f.step(f.ctx, a, i, c);
    return a;
}
void vc_throw() { throw LibThrow(); }
void* vc_heap_of(long) { return nullptr; }
int vc_live_heap() { return 0; }
int vc_isalive(const void*) { return 1; }
int vc_extent_ok(const void*, long) { return 1; }
}
static std::string g_what;
static void cleanup() { for(char* p : g_allocs) free(p); g_allocs.clear(); g_info.clear(); g_folds.clear(); }
// 0 held, 1 violated, 3 assumption
static int run(void (*f)()) {
    g_allow = false; g_what.clear();
    int r = 0;
    try { f(); }
    catch(Assumption&) { r = 3; }
    catch(Violation& v) { r = 1; g_what = v.label; }
    catch(std::exception& e) { if(!g_allow) { r = 1; g_what = std::string("unexpected exception: ") + e.what(); } }
    catch(...) { if(!g_allow) { r = 1; g_what = "unexpected exception"; } }
    cleanup();
    return r;
}
static void dump(const std::string& contract, const std::string& out, const std::string& what) {
    std::ofstream o(out);
    o << "contract " << contract << "\n";
    std::string w = what; for(auto& c : w) if(c == '\n') c = ' ';
    o << "# violated: " << w.substr(0, 300) << "\n";
    for(auto& p : g_ints) o << "int " << p.first << " " << p.second << "\n";
    for(auto& a : g_arr) for(auto& e : a.second) { o << "arr " << a.first << " " << e.first.size(); for(long k : e.first) o << " " << k; o << " " << e.second << "\n"; }
}
static std::string g_out, g_contract;
static int g_fd = -1;
static void ontime(int) { std::cout << "RUNS 0 0" << std::endl; _exit(g_fuzz ? 0 : 3); } // too slow: says nothing
static void onsig(int s) {
    // crash inside the code under contract: dump what we fed it
    std::string m = "crash: signal " + std::to_string(s);
    dump(g_contract, g_out, m);
    std::cout << "VIOLATED " << m << std::endl;
    _exit(1);
}
extern "C" const char* __asan_default_options() { return "detect_leaks=0:exitcode=66:abort_on_error=0:allocator_may_return_null=1:detect_odr_violation=0:halt_on_error=1"; }
extern "C" void __asan_set_death_callback(void (*)(void)) __attribute__((weak));
static void ondeath() { dump(g_contract, g_out, "memory error (address sanitizer)"); std::cout << "VIOLATED memory error (address sanitizer)" << std::endl; _exit(1); }

int main(int argc, char** argv) {
    if(argc < 2) return 2;
    std::string mode = argv[1];
    if(mode == "list") { for(auto& p : reg()) std::cout << p.first << "\n"; return 0; }
    g_contract = argv[2];
    if(!reg().count(g_contract)) { std::cerr << "no such contract\n"; return 2; }
    auto f = reg()[g_contract];
    if(&__asan_set_death_callback) __asan_set_death_callback(ondeath);
    if(mode == "replay") {
        g_out = "/dev/null";
        std::ifstream in(argv[3]);
        std::string l;
        while(std::getline(in, l)) {
            std::istringstream s(l); std::string k, n; s >> k;
            if(k == "int") { long v; s >> n >> v; g_ints[n] = v; }
            else if(k == "arr") { size_t d; s >> n >> d; std::vector<long> key(d); for(auto& x : key) s >> x; unsigned long v; s >> v; g_arr[n][key] = v; }
            else if(k == "adef") { unsigned long v; s >> n >> v; g_adef[n] = v; }
        }
        signal(SIGSEGV, onsig); signal(SIGFPE, onsig); signal(SIGABRT, onsig); signal(SIGALRM, ontime); alarm(60);
        int r = run(f);
        if(r == 1) std::cout << "VIOLATED " << g_what << std::endl;
        else if(r == 3) std::cout << "PRECONDITION-NOT-MET" << std::endl;
        else std::cout << "HELD" << std::endl;
        return r;
    }
    if(mode == "fuzz") {
        unsigned long seed = strtoul(argv[3], 0, 10); double secs = atof(argv[4]); g_out = argv[5];
        g_fuzz = true;
        signal(SIGSEGV, onsig); signal(SIGFPE, onsig); signal(SIGABRT, onsig); signal(SIGALRM, ontime);
        auto t0 = std::chrono::steady_clock::now();
        unsigned long n = 0, ok = 0;
        while(true) {
            double el = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
            if(el > secs) break;
            if(n % 32 == 31) { // contracts leak what they build: start over in a fresh process before memory runs out
                long sz = 0, rss = 0; std::ifstream m("/proc/self/statm"); m >> sz >> rss;
                if(rss * 4096l > 1l << 30) {
                    std::string s2 = std::to_string(seed + 7777), t2 = std::to_string(secs - el);
                    char* av[] = {argv[0], argv[1], argv[2], (char*)s2.c_str(), (char*)t2.c_str(), argv[5], nullptr};
                    std::cout << "RUNS " << n << " " << ok << std::endl;
                    execv("/proc/self/exe", av); return 0;
                }
            }
            g_rng.seed(seed * 1000003 + n);
            static const int sizes[] = {3, 6, 12, 24, 40}; g_size = sizes[(n / 7) % 5];
            g_ints.clear(); g_arr.clear(); g_arrmode.clear();
            alarm(60);
            int r = run(f);
            alarm(0);
            ++n; if(r == 0) ++ok;
            if(r == 1) { dump(g_contract, g_out, g_what); std::cout << "VIOLATED " << g_what << "\nRUNS " << n << " " << ok << std::endl; return 1; }
        }
        std::cout << "RUNS " << n << " " << ok << std::endl;
        return 0;
    }
    return 2;
}
