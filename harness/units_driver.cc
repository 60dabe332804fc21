// Size literals and alignment arithmetic, one call per event.
#include <cstdint>
#include <cstdlib>
#include <string>
#include "align/align.hpp"
#include "common.hpp"
#include "memory.hpp"
using namespace stdb::memory;

static std::string digits(uint64_t v) {
    std::string o = "[";
    for (char c : std::to_string(v)) {
        if (o.size() > 1) { o += ','; }
        o += c;
    }
    return o + "]";
}

static uint64_t upto(uint64_t b, uint64_t n) {
    switch (b) {
        case 8: return align::AlignUpTo<8>(n);
        case 16: return align::AlignUpTo<16>(n);
        case 32: return align::AlignUpTo<32>(n);
        case 64: return align::AlignUpTo<64>(n);
        case 128: return align::AlignUpTo<128>(n);
        case 4096: return align::AlignUpTo<4096>(n);
        case 65536: return align::AlignUpTo<65536>(n);
        case 1048576: return align::AlignUpTo<1048576>(n);
        default: abort();
    }
}

int main(int argc, char** argv) {
    return run_script(argc, argv, [](const Op& o, Emitter& em) {
        if (o.name == "begin" || o.name == "end") {
            em.line(o, "");
            return;
        }
        uint64_t r = 0;
        if (o.name == "dig") {
            r = literals::is_digit(static_cast<char>(o.num("c"))) ? 1 : 0;
        } else if (o.name == "lit") {
            std::string t = o.str("n");
            std::string u = o.str("u");
            r = u == "KB" ? literals::operator""_KB(t.c_str()) : u == "MB" ? literals::operator""_MB(t.c_str()) : literals::operator""_GB(t.c_str());
        } else {
            uint64_t n = std::strtoull(o.str("n").c_str(), nullptr, 10);
            uint64_t b = static_cast<uint64_t>(o.num("b"));
            r = o.name == "up" ? align::AlignUp(n, b) : upto(b, n);
        }
        em.line(o, "\"r\":" + digits(r));
    });
}
