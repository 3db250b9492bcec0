// Shared infrastructure of the explorers: sharding, crash/hang capture, replay files, evidence.
#pragma once
#include <signal.h>
#include <sys/time.h>
#include <unistd.h>
#include <fcntl.h>

#include <chrono>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>

namespace vf {
using Case = std::map<std::string, std::string>;  // one fully specified case; serialisable

inline std::string esc(std::string const& s) {
    static char const* H = "0123456789abcdef";
    std::string o;
    for (unsigned char c : s) {
        if (c == '\n') o += "\\n";
        else if (c == '\t') o += "\\t";
        else if (c == '\r') o += "\\r";
        else if (c == '\\') o += "\\\\";
        else if (c < 32 || c > 126) { o += "\\x"; o += H[c >> 4]; o += H[c & 15]; }
        else o += (char)c;
    }
    return o;
}
inline std::string unesc(std::string const& s) {
    std::string o;
    for (size_t i = 0; i < s.size(); i++) {
        if (s[i] != '\\') { o += s[i]; continue; }
        char c = s[++i];
        if (c == 'n') o += '\n';
        else if (c == 't') o += '\t';
        else if (c == 'r') o += '\r';
        else if (c == 'x') { o += (char)strtol(s.substr(i + 1, 2).c_str(), nullptr, 16); i += 2; }
        else o += c;
    }
    return o;
}
inline std::string case_text(Case const& c) {
    std::string o;
    for (auto const& [k, v] : c) o += k + "=" + esc(v) + "\n";
    return o;
}
inline Case case_parse(std::string const& t) {
    Case c;
    size_t i = 0;
    while (i < t.size()) {
        size_t e = t.find('\n', i);
        if (e == std::string::npos) e = t.size();
        std::string l = t.substr(i, e - i);
        i = e + 1;
        if (l.empty() || l[0] == '#') continue;
        size_t q = l.find('=');
        if (q == std::string::npos) continue;
        c[l.substr(0, q)] = unesc(l.substr(q + 1));
    }
    return c;
}
inline std::string json_str(std::string const& s) {
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
        else if (c == '\n') o += "\\n";
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
        else o += (char)c;
    }
    return o + "\"";
}

struct Ctx {
    std::string property, out_dir, replay_dir, opt;
    int shard{0}, nshards{1};
    bool thorough{false};
    std::string replay;
    std::set<std::string> known;
    double budget_s{780};
    std::chrono::steady_clock::time_point t0{std::chrono::steady_clock::now()};

    uint64_t index{0};  // global index of the case (same in every shard)
    uint64_t evaluations{0}, nontrivial{0}, states{0}, transitions{0}, traces{0};
    std::map<std::string, uint64_t> extra;  // further counters
    std::vector<std::string> samples;
    std::vector<std::string> bounds;
    bool exhaustive{true};
    int violations{0}, known_hits{0};
    int max_violations{3};

    std::function<Case()> describe;  // describes the current case

    bool stop() const { return violations >= max_violations || out_of_time; }
    bool out_of_time{false};
    uint64_t ticks{0};
    // Call once per case, in the same order in every shard.
    bool mine() {
        bool m = (index++ % (uint64_t)nshards) == (uint64_t)shard;
        if (m && (ticks++ & 31) == 0) tick();
        return m;
    }
    void tick() {
        double el = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
        if (el > budget_s) { out_of_time = true; exhaustive = false; }
        alarm(120);  // a single case that takes this long is reported as a hang
    }
    void sample(std::string const& s) { if (samples.size() < 6) samples.push_back(s); }
    std::string write_replay(Case const& c, std::string const& why) {
        std::string p = replay_dir + "/" + property + "-s" + std::to_string(shard) + "-"
                        + std::to_string(violations) + "-" + std::to_string(getpid()) + ".case";
        FILE* f = fopen(p.c_str(), "w");
        if (f) {
            fprintf(f, "# property %s\n# %s\n%s", property.c_str(), esc(why).c_str(), case_text(c).c_str());
            fclose(f);
        }
        return p;
    }
    // Reports a failing case.  `key` identifies it in the known-findings file.
    void fail(Case const& c, std::string const& why, std::string const& key = "") {
        if (!key.empty() && known.count(key)) {
            known_hits++;
            printf("KNOWN %s\n", key.c_str());
            fflush(stdout);
            return;
        }
        std::string p = write_replay(c, why);
        violations++;
        printf("FAIL %s :: %s\n", p.c_str(), esc(why).c_str());
        fflush(stdout);
    }
    void write_evidence() {
        std::string p = out_dir + "/shard" + std::to_string(shard) + ".json";
        FILE* f = fopen(p.c_str(), "w");
        if (!f) return;
        fprintf(f,
                "{\"evaluations\":%llu,\"distinct_nontrivial\":%llu,\"states\":%llu,\"transitions\":%llu,"
                "\"traces\":%llu,\"exhaustive\":%s,\"violations\":%d,\"known\":%d,\"extra\":{",
                (unsigned long long)evaluations, (unsigned long long)nontrivial,
                (unsigned long long)states, (unsigned long long)transitions,
                (unsigned long long)traces, exhaustive ? "true" : "false", violations, known_hits);
        bool first = true;
        for (auto const& [k, v] : extra) {
            fprintf(f, "%s%s:%llu", first ? "" : ",", json_str(k).c_str(), (unsigned long long)v);
            first = false;
        }
        fprintf(f, "},\"bounds\":[");
        for (size_t i = 0; i < bounds.size(); i++) fprintf(f, "%s%s", i ? "," : "", json_str(bounds[i]).c_str());
        fprintf(f, "],\"samples\":[");
        for (size_t i = 0; i < samples.size(); i++) fprintf(f, "%s%s", i ? "," : "", json_str(samples[i]).c_str());
        fprintf(f, "]}\n");
        fclose(f);
    }
};
inline Ctx* g_ctx{nullptr};
inline volatile int g_in_crash{0};

inline void crash_report(char const* what) {
    if (g_in_crash) _exit(99);
    g_in_crash = 1;
    Ctx& c = *g_ctx;
    Case cs;
    if (c.describe) cs = c.describe();
    std::string p = c.write_replay(cs, what);
    c.violations++;
    printf("FAIL %s :: %s\n", p.c_str(), what);
    fflush(stdout);
    c.exhaustive = false;
    c.write_evidence();
    _exit(1);
}
inline void on_signal(int s) {
    char const* w = s == SIGSEGV ? "crash: SIGSEGV"
                    : s == SIGABRT ? "crash: SIGABRT (failed assertion or uncaught exception)"
                    : s == SIGALRM ? "hang: the case did not finish"
                    : s == SIGFPE ? "crash: SIGFPE"
                    : s == SIGBUS ? "crash: SIGBUS" : "crash: SIGILL";
    crash_report(w);
}
#if defined(__SANITIZE_ADDRESS__)
extern "C" void __sanitizer_set_death_callback(void (*)(void));
inline void on_san_death() { crash_report("memory error reported by the address/undefined sanitizer"); }
#endif

struct Check {
    char const* id;
    // Enumerates every case of the tier and checks it.
    void (*explore)(Ctx&);
    // Re-runs one case; returns the failure text or "".
    std::string (*run)(Case const&);
};

inline int run_main(int argc, char** argv, Check const& chk) {
    static Ctx ctx;
    g_ctx = &ctx;
    ctx.property = chk.id;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto next = [&] { return std::string(argv[++i]); };
        if (a == "--shard") ctx.shard = atoi(next().c_str());
        else if (a == "--nshards") ctx.nshards = atoi(next().c_str());
        else if (a == "--thorough") ctx.thorough = true;
        else if (a == "--out") ctx.out_dir = next();
        else if (a == "--replays") ctx.replay_dir = next();
        else if (a == "--budget") ctx.budget_s = atof(next().c_str());
        else if (a == "--known") ctx.known.insert(unesc(next()));
        else if (a == "--tier-opt") ctx.opt = next();
        else if (a == "--replay") ctx.replay = next();
    }
    static char altstack[1 << 16];
    stack_t ss{};
    ss.ss_sp = altstack;
    ss.ss_size = sizeof altstack;
    sigaltstack(&ss, nullptr);
    struct sigaction sa {};
    sa.sa_handler = on_signal;
    sa.sa_flags = SA_ONSTACK;
#if !defined(__SANITIZE_ADDRESS__)
    sigaction(SIGSEGV, &sa, nullptr);
    sigaction(SIGBUS, &sa, nullptr);
    sigaction(SIGFPE, &sa, nullptr);
    sigaction(SIGILL, &sa, nullptr);
#else
    __sanitizer_set_death_callback(on_san_death);
#endif
    sigaction(SIGABRT, &sa, nullptr);
    sigaction(SIGALRM, &sa, nullptr);
    if (!ctx.replay.empty()) {
        FILE* f = fopen(ctx.replay.c_str(), "r");
        if (!f) { fprintf(stderr, "cannot open %s\n", ctx.replay.c_str()); return 2; }
        std::string t;
        char b[4096];
        size_t n;
        while ((n = fread(b, 1, sizeof b, f)) > 0) t.append(b, n);
        fclose(f);
        Case c = case_parse(t);
        ctx.replay_dir = "/tmp";
        ctx.describe = [c] { return c; };
        alarm(120);
        std::string r = chk.run(c);
        if (r.empty()) { printf("replay: the property holds on this case\n"); return 0; }
        printf("replay: %s\n", r.c_str());
        return 1;
    }
    ctx.tick();
    chk.explore(ctx);
    alarm(0);
    ctx.write_evidence();
    return ctx.violations ? 1 : 0;
}
}  // namespace vf
#define VF_MAIN(chk) int main(int argc, char** argv) { return vf::run_main(argc, argv, chk); }
