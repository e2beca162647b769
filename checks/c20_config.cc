// C20: the library built in several configurations computes identical results.
// Every case is evaluated in every configuration (one shared object each) and all recorded results are compared.
#include "c20.h"
#include "mc.h"
#include <dlfcn.h>
#include <fstream>
#include <memory>
using mc::fmt;

struct Lib {
    std::string name;
    decltype(&c20_config) config; decltype(&c20_families) families; decltype(&c20_name) fname; decltype(&c20_count) count;
    decltype(&c20_eval) eval; decltype(&c20_regions) regions; decltype(&c20_encode) encode; decltype(&c20_decode) decode;
};
static std::string token(std::vector<uint8_t> const & b, size_t & p) {
    if (p >= b.size()) return "nothing";
    char t = b[p];
    uint64_t v; double d;
    memcpy(&v, &b[p + 1], 8); memcpy(&d, &b[p + 1], 8);
    p += 9;
    if (t == 'i') return fmt("%" PRIu64, v);
    if (t == 'd') return fmt("%a", d);
    std::string s;
    bool bin = false;
    for (size_t k = p; k < p + v; ++k) bin = bin || b[k] < 32 || b[k] > 126;
    for (size_t k = p; k < p + v && s.size() < 3000; ++k) s += bin ? fmt("%02x", b[k]) : std::string(1, (char)b[k]);
    p += v;
    return s;
}
// The first result that differs.
static std::string diff(std::vector<uint8_t> const & a, std::vector<uint8_t> const & b) {
    size_t p = 0, q = 0;
    for (int n = 1;; ++n) {
        std::string x = token(a, p), y = token(b, q);
        if (x != y) return fmt("result %d is ", n) + x + " and " + y;
        if (x == "nothing") return "same text";
    }
}
int main(int argc, char ** argv) {
    return mc::run(argc, argv, [&] {
        std::vector<Lib> libs;
        std::string list;
        for (int i = 1; i + 1 < argc; i += 2) if (!strcmp(argv[i], "--libs")) list = argv[i + 1];
        for (size_t p = 0; p < list.size();) {
            size_t e = list.find(',', p);
            if (e == std::string::npos) e = list.size();
            std::string f = list.substr(p, e - p);
            p = e + 1;
            void * h = dlopen(f.c_str(), RTLD_NOW | RTLD_LOCAL);
            if (!h) { fprintf(stderr, "%s\n", dlerror()); exit(3); }
            Lib l;
            l.name = f.substr(f.rfind("lib-") + 4);
            l.name = l.name.substr(0, l.name.size() - 3);
#define SYM(n) l.n = reinterpret_cast<decltype(l.n)>(dlsym(h, "c20_" #n)); if (!l.n) exit(3);
            SYM(config) SYM(families) SYM(count) SYM(eval) SYM(regions) SYM(encode) SYM(decode)
            l.fname = reinterpret_cast<decltype(l.fname)>(dlsym(h, "c20_name"));
            libs.push_back(l);
            mc::outcome("configuration " + l.name + ": " + l.config(), mc::g().shard == 0);
        }
        if (libs.size() < 2) exit(3);
        bool T = mc::thorough();
        std::vector<uint8_t> a, b;
        std::string wa, wb;
        for (int f = 0; f < libs[0].families(); ++f) {
            std::string name = libs[0].fname(f);
            mc::section(name);
            bool T = mc::thorough() || (name != "pairs of regions" && name != "pixels" && name != "envelopes" && name != "chunks");
            uint64_t n = libs[0].count(f, T);
            for (auto & l : libs) if (l.count(f, T) != n || l.fname(f) != name) mc::fail("cases", fmt("%" PRIu64 " and %" PRIu64, n, l.count(f, T)));
            for (uint64_t c = 0; c < n; ++c) {
                if (!mc::mine(c)) continue;
                mc::at(f, c);
                mc::state();
                libs[0].eval(f, T, c, &a, &wa);
                mc::trans();
                for (size_t k = 1; k < libs.size(); ++k) {
                    mc::at(f, c, k);
                    libs[k].eval(f, T, c, &b, &wb);
                    mc::trans();
                    if (a != b) mc::fail(fmt("%" PRIu64 " ", c) + wa + " [" + libs[k].name + "]", "configuration " + libs[0].name + " and " + libs[k].name + ": " + diff(a, b) + (wa != wb ? " for " + wb : ""));
                }
                if (mc::wantSample()) mc::sample(wa + fmt(": %zu bytes of results", a.size()));
            }
        }
        // ---- data written by one configuration, read by another
        mc::section("exchange");
        for (uint64_t i = 0; i < libs[0].regions(T); ++i) {
            if (!mc::mine(i)) continue;
            mc::at(100, i);
            mc::state();
            std::vector<std::vector<uint8_t>> enc(libs.size());
            std::vector<uint8_t> ref;
            for (size_t w = 0; w < libs.size(); ++w) libs[w].encode(T, i, &enc[w], &wa);
            for (size_t w = 0; w < libs.size(); ++w)
                for (size_t r = 0; r < libs.size(); ++r) {
                    mc::trans();
                    mc::trace();
                    int ok = libs[r].decode(T, &enc[w], &b);
                    if (w == 0 && r == 0) ref = b;
                    if (!ok || b != ref) mc::fail(wa + " written by " + libs[w].name + ", read by " + libs[r].name, diff(ref, b));
                }
            if (mc::wantSample()) mc::sample(wa + fmt(": %zu bytes", enc[0].size()));
        }
    });
}
