// Shared helpers for all harnesses: PRNG, result file, small utilities.
#pragma once
#include <ctime>
#include <thread>
#include <unistd.h>
#include <atomic>
#include <chrono>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <mutex>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>

namespace vh {

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0xD1B54A32D192ED03ull) { for (int i = 0; i < 4; ++i) (void)next(); }
    uint64_t next() {
        s += 0x9E3779B97F4A7C15ull;
        uint64_t z = s;
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    int below(int n) { return n <= 0 ? 0 : static_cast<int>(next() % static_cast<uint64_t>(n)); }
    int range(int a, int b) { return a + below(b - a + 1); }
    bool chance(int percent) { return below(100) < percent; }
    double unit() { return static_cast<double>(next() >> 11) * (1.0 / 9007199254740992.0); }
};

inline uint64_t hashStr(const std::string& s) {
    uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
    return h;
}

inline std::string jsonEsc(const std::string& s) {
    std::string o;
    for (unsigned char c : s) {
        switch (c) {
            case '"': o += "\\\""; break;
            case '\\': o += "\\\\"; break;
            case '\n': o += "\\n"; break;
            case '\t': o += "\\t"; break;
            case '\r': o += "\\r"; break;
            default:
                if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof(b), "\\u%04x", c); o += b; } else o += static_cast<char>(c);
        }
    }
    return o;
}

struct Options {
    std::map<std::string, std::string> kv;
    Options(int argc, char** argv) {
#if defined(QUIET_STDOUT)
        if (!freopen("/dev/null", "w", stdout)) abort();    // traces of the library
#endif
        for (int i = 1; i < argc; ++i) {
            std::string a = argv[i];
            if (a.rfind("--", 0) == 0) {
                auto eq = a.find('=');
                if (eq != std::string::npos) kv[a.substr(2, eq - 2)] = a.substr(eq + 1);
                else if (i + 1 < argc) { kv[a.substr(2)] = argv[i + 1]; ++i; }
            }
        }
    }
    std::string str(const std::string& k, const std::string& d = "") const { auto it = kv.find(k); return it == kv.end() ? d : it->second; }
    long num(const std::string& k, long d) const { auto it = kv.find(k); return it == kv.end() ? d : atol(it->second.c_str()); }
};

// Collects what a run observed. Written as JSON for the driver.
#if defined(__SANITIZE_ADDRESS__)
extern "C" void __lsan_do_leak_check(void);
#endif
// leaves without running destructors of static objects; leaks are reported before (if enabled)
[[noreturn]] inline void finishProcess() {
    fflush(nullptr);
#if defined(__SANITIZE_ADDRESS__)
    __lsan_do_leak_check();
#endif
    _exit(0);
}

struct Result {
    std::mutex m;
    long evaluations = 0;
    std::unordered_set<uint64_t> distinct;   // hashes of distinct non-trivial cases
    std::map<std::string, long> stats;
    std::vector<std::string> samples;
    struct Viol { std::string key, msg, detail; };
    std::vector<Viol> violations;
    long violationCount = 0;
    std::map<std::string, int> perKey;

    void add(const std::string& k, long n = 1) { std::lock_guard<std::mutex> l(m); stats[k] += n; }
    void maxOf(const std::string& k, long n) { std::lock_guard<std::mutex> l(m); if (stats[k] < n) stats[k] = n; }
    void note(uint64_t h) { std::lock_guard<std::mutex> l(m); distinct.insert(h); }
    void eval(long n = 1) { std::lock_guard<std::mutex> l(m); evaluations += n; }
    void sample(const std::string& s, size_t limit = 3) { std::lock_guard<std::mutex> l(m); if (samples.size() < limit) samples.push_back(s); }
    // key: stable identification of what failed (no addresses, no seeds)
    void violate(const std::string& key, const std::string& msg, const std::string& detail = "") {
        std::lock_guard<std::mutex> l(m);
        ++violationCount;
        int& n = perKey[key];
        if (n++ < 3 && violations.size() < 60) violations.push_back({key, msg, detail});
    }
    size_t nviol() { std::lock_guard<std::mutex> l(m); return (size_t)violationCount; }
    void write(const std::string& path) {
        std::lock_guard<std::mutex> l(m);
        std::ofstream f(path + ".tmp");
        f << "{\"evaluations\":" << evaluations << ",\"distinct\":[";
        bool first = true;
        size_t n = 0;
        for (auto h : distinct) { if (++n > 200000) break; f << (first ? "" : ",") << '"' << std::hex << h << std::dec << '"'; first = false; }
        f << "],\"stats\":{";
        first = true;
        for (auto& p : stats) { f << (first ? "" : ",") << '"' << jsonEsc(p.first) << "\":" << p.second; first = false; }
        f << "},\"samples\":[";
        first = true;
        for (auto& s : samples) { f << (first ? "" : ",") << '"' << jsonEsc(s) << '"'; first = false; }
        f << "],\"violation_count\":" << violationCount << ",\"violations\":[";
        first = true;
        for (auto& v : violations) {
            f << (first ? "" : ",") << "{\"key\":\"" << jsonEsc(v.key) << "\",\"msg\":\"" << jsonEsc(v.msg) << "\",\"detail\":\"" << jsonEsc(v.detail) << "\"}";
            first = false;
        }
        f << "]}\n";
        f.close();
        std::rename((path + ".tmp").c_str(), path.c_str());
    }
};

inline long long nowUs() {
    return std::chrono::duration_cast<std::chrono::microseconds>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

inline long rssMb() {
    long a = 0, b = 0;
    if (FILE* f = fopen("/proc/self/statm", "r")) { if (fscanf(f, "%ld %ld", &a, &b) != 2) b = 0; fclose(f); }
    return b * (sysconf(_SC_PAGESIZE) / 1024) / 1024;
}

// watches a single threaded harness: a case which neither ends within a minute of processor time nor stays within
// a few GB of memory (normal cases need milliseconds and megabytes) is reported, and the process ended
struct CaseGuard {
    std::atomic<bool> stop{false};
    std::thread t;
    static double cpu() { timespec ts; clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &ts); return (double)ts.tv_sec + (double)ts.tv_nsec * 1e-9; }
    CaseGuard(Result& r, std::string out, std::function<void()> cleanup = nullptr) {
        t = std::thread([this, &r, out, cleanup]() {
            long last = -1;
            double since = cpu();
            while (!stop) {
                usleep(50000);
                long n;
                { std::lock_guard<std::mutex> l(r.m); n = r.evaluations; }
                std::string what;
                if (n != last) { last = n; since = cpu(); }
                else if (cpu() - since > 60) what = "did not end within 60 s of processor time";
                if (rssMb() > 4000) what = "used more than 4 GB of memory";
                if (what.empty()) continue;
                r.violate("hang:case", "case " + std::to_string(n - 1) + " " + what);
                r.write(out);
                if (cleanup) cleanup();
                _exit(0);
            }
        });
    }
    ~CaseGuard() { stop = true; t.join(); }
};

template <class T>
std::string joinInts(const T& c) {
    std::string s = "[";
    bool f = true;
    for (auto v : c) { if (!f) s += ","; s += std::to_string(v); f = false; }
    return s + "]";
}

}  // namespace vh
