// Common support for the bounded-exhaustive drivers: sharding, counters, the record of the case being
// executed (so that a crash or hang can be attributed), violation reporting and replay filtering.
#pragma once
#include <cinttypes>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <map>
#include <set>
#include <stdexcept>
#include <string>
#include <sys/mman.h>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>
#include <vector>

namespace mc {

struct Shared {              // mapped file, read by run.py after a crash/hang
    char section[64];
    uint64_t idx[6];
    uint64_t progress;
};

inline Shared *& sh() { static Shared * s = nullptr; return s; }
struct Sec { uint64_t states = 0, transitions = 0, traces = 0; };
struct G {
    bool thorough = false, deep = false;
    int shard = 0, nshards = 1;
    std::string out, only;
    std::map<std::string, Sec> secs;
    Sec * cur = nullptr;
    uint64_t nviol = 0;
    std::set<std::string> keys;
    std::vector<std::pair<std::string, std::string>> viols;
    std::map<std::string, std::vector<std::string>> samples;
    std::map<std::string, uint64_t> outcomes;
    std::string curname;
};
inline G & g() { static G x; return x; }

inline std::string fmt(char const * f, ...) {
    char b[4096];
    va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap);
    return b;
}
inline std::string hx(double d) { char b[64]; snprintf(b, sizeof b, "%a", d); return b; }

inline void init(int argc, char ** argv) {
    G & c = g();
    std::string st;
    for (int i = 1; i + 1 < argc; i += 2) {
        std::string a = argv[i], v = argv[i + 1];
        if (a == "--tier") c.deep = (v == "deep"), c.thorough = c.deep || v == "thorough";
        else if (a == "--shard") c.shard = atoi(v.c_str());
        else if (a == "--nshards") c.nshards = atoi(v.c_str());
        else if (a == "--out") c.out = v;
        else if (a == "--only") c.only = v;
        else if (a == "--state") st = v;
    }
    static Shared dummy;
    sh() = &dummy;
    if (!st.empty()) {
        int fd = open(st.c_str(), O_RDWR | O_CREAT, 0644);
        if (fd >= 0 && ftruncate(fd, sizeof(Shared)) == 0) {
            void * p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
            if (p != MAP_FAILED) sh() = static_cast<Shared *>(p);
        }
        if (fd >= 0) close(fd);
    }
    c.cur = &c.secs["main"];
}

inline bool thorough() { return g().thorough; }
inline bool deep() { return g().deep; }
inline bool mine(uint64_t i) { return i % (uint64_t)g().nshards == (uint64_t)g().shard; }

inline void section(std::string const & name) {
    G & c = g();
    c.curname = name;
    c.cur = &c.secs[name];
    snprintf(sh()->section, sizeof sh()->section, "%s", name.c_str());
}
inline void at(uint64_t a, uint64_t b = 0, uint64_t d = 0, uint64_t e = 0, uint64_t f = 0, uint64_t h = 0) {
    volatile Shared * s = sh();
    s->idx[0] = a; s->idx[1] = b; s->idx[2] = d; s->idx[3] = e; s->idx[4] = f; s->idx[5] = h;
    s->progress = s->progress + 1;
}
inline void state(uint64_t n = 1) { g().cur->states += n; }
inline void trans(uint64_t n = 1) { g().cur->transitions += n; }
inline void trace(uint64_t n = 1) { g().cur->traces += n; }

// A case that may be shown in the evidence (the first few of each section).
inline bool wantSample() {
    auto & v = g().samples[g().curname];
    return v.size() < 2;
}
inline void sample(std::string const & s) {
    auto & v = g().samples[g().curname];
    if (v.size() < 2) v.push_back(s);
}
inline void outcome(std::string const & s, uint64_t n = 1) { g().outcomes[s] += n; }

// key: names the specific failing case (stable across runs). detail: explanation.
inline void fail(std::string const & key0, std::string const & detail = "") {
    G & c = g();
    std::string key = c.curname + "|" + key0;
    for (auto & ch : key) if (ch == '\n' || ch == '\t') ch = ' ';
    if (!c.only.empty() && key != c.only) return;
    ++c.nviol;
    if (c.viols.size() < 25 && c.keys.insert(key).second) c.viols.emplace_back(key, detail);
}

inline std::string jesc(std::string const & s) {
    std::string r;
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') { r += '\\'; r += ch; }
        else if (ch < 0x20 || ch > 0x7e) r += fmt("\\u%04x", ch);
        else r += ch;
    }
    return r;
}

inline int finish() {
    G & c = g();
    std::string j = "{\"sections\":{";
    bool first = true;
    for (auto & s : c.secs) {
        if (!s.second.states && !s.second.transitions && !s.second.traces) continue;
        if (!first) j += ",";
        first = false;
        j += fmt("\"%s\":[%" PRIu64 ",%" PRIu64 ",%" PRIu64 "]", jesc(s.first).c_str(), s.second.states,
                 s.second.transitions, s.second.traces);
    }
    j += "},\"samples\":{";
    first = true;
    for (auto & s : c.samples) {
        if (!first) j += ",";
        first = false;
        j += "\"" + jesc(s.first) + "\":[";
        for (size_t i = 0; i < s.second.size(); ++i) j += (i ? ",\"" : "\"") + jesc(s.second[i]) + "\"";
        j += "]";
    }
    j += "},\"outcomes\":{";
    first = true;
    for (auto & s : c.outcomes) {
        if (!first) j += ",";
        first = false;
        j += "\"" + jesc(s.first) + fmt("\":%" PRIu64, s.second);
    }
    j += fmt("},\"nviol\":%" PRIu64 ",\"viols\":[", c.nviol);
    for (size_t i = 0; i < c.viols.size(); ++i) {
        j += (i ? ",[\"" : "[\"") + jesc(c.viols[i].first) + "\",\"" + jesc(c.viols[i].second) + "\"]";
    }
    j += "]}\n";
    if (c.out.empty()) {
        fputs(j.c_str(), stdout);
    } else {
        FILE * f = fopen(c.out.c_str(), "w");
        if (!f) return 3;
        fputs(j.c_str(), f);
        fclose(f);
    }
    return 0;
}

inline int run(int argc, char ** argv, std::function<void()> body) {
    init(argc, argv);
    try {
        body();
    } catch (std::exception const & e) {
        Shared * s = sh();
        fail(fmt("unexpected-exception at %" PRIu64 ",%" PRIu64 ",%" PRIu64 ",%" PRIu64, s->idx[0], s->idx[1],
                 s->idx[2], s->idx[3]),
             e.what());
    }
    return finish();
}

}  // namespace mc
