// C31: writes the arguments that variants.cpp uses.
#include <cstdio>
#include <cstdlib>
#include "argsgen.hpp"
namespace fw
{
    bool armed = false;
    uint32_t want_len = 0;
    std::string esc(std::string_view s, size_t) { return std::string(s); }
}
// Representatives of all kinds of bytes
static const uint8_t REP[] = {0, '\n', ' ', '"', '0', 'A', '\\', 'u', 'x', 0x7F, 0x80, 0x85, 0x9F, 0xA0, 0xBF, 0xC0, 0xC3, 0xDF, 0xE0, 0xE2, 0xEF, 0xF0, 0xF4, 0xF8, 0xFF};
int main(int argc, char** argv)
{
    if (argc < 6) return 2;
    auto seed = std::stoull(argv[1]), first = std::stoull(argv[2]), n = std::stoull(argv[3]), depth = std::stoull(argv[4]);
    uni::load();
    std::vector<api::Args> inputs;
    static uint8_t tape[fw::Src::MAX];
    if (n == 0)
    {
        // All short strings over REP
        std::vector<std::string> all{""};
        for (size_t from = 0, k = 0; k < depth; ++k)
        {
            auto to = all.size();
            for (; from < to; ++from) for (auto c : REP) all.push_back(all[from] + char(c));
        }
        fw::Src src{tape};
        src.rng.s = seed;
        for (auto& s : all)
        {
            src.size = src.pos = 0;
            auto a = gen::args(src, gen::VALID);
            if (s.size() & 1) a.c = s.substr(0, 1);
            a.s = s; a.off = std::min(a.off, s.size());
            a.i %= 5; a.j %= 5;
            inputs.push_back(std::move(a));
        }
    }
    else
        for (uint64_t i = first; i < first + n; ++i)
        {
            fw::Src src{tape};
            src.rng.s = seed * 0x9E3779B97F4A7C15ull + i * 0xD1B54A32D192ED03ull;
            fw::want_len = i % 64 == 63 ? fw::LONG : i % 4 == 2 ? 2 + uint32_t(i / 4 % 340) : 0;
            inputs.push_back(gen::args(src));
            fw::want_len = 0;
        }
    FILE* f = fopen(argv[5], "wb");
    if (!f) return 2;
    auto num = [&](uint64_t v) { fwrite(&v, 8, 1, f); };
    auto str = [&](auto& s) { num(s.size()); fwrite(s.data(), sizeof(s[0]), s.size(), f); };
    num(inputs.size());
    for (auto& a : inputs)
    {
        str(a.s); str(a.c); str(a.to); str(a.list);
        num(a.ranges.size());
        for (auto& [x, y] : a.ranges) { num(x); num(y); }
        num(a.negated); num(a.ignore); num(uint64_t(a.i)); num(uint64_t(a.j)); num(uint64_t(a.limit)); num(a.off); num(a.cp); num(a.cp2); num(a.splits);
    }
    if (fclose(f)) return 2;
    printf("OK %zu\n", inputs.size());
    return 0;
}
