#include "uni.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string_view>

namespace uni
{
    std::vector<uint8_t> gc_;
    std::vector<uint32_t> upper_, lower_, title_;
    std::map<uint32_t, std::pair<uint32_t, uint32_t>> decomp;
    std::map<std::pair<uint32_t, uint32_t>, uint32_t> comp;
    std::vector<uint32_t> marks, cased, composed, odd_case, letters, separators, class_edges;

    void load()
    {
        if (!gc_.empty()) return;
        const char* path = getenv("UNI_DATA");
        FILE* f = fopen(path ? path : UNI_DATA_PATH, "rb");
        if (!f) { fprintf(stderr, "cannot open the Unicode data\n"); exit(2); }
        gc_.assign(MAX + 1, Cn);
        upper_.resize(MAX + 1);
        for (uint32_t i = 0; i <= MAX; ++i) upper_[i] = i;
        lower_ = title_ = upper_;
        static const char names[] = "LuLlLtLmLoMnMcMeNdNlNoPcPdPsPePiPfPoSmScSkSoZsZlZpCcCfCsCoCn";
        char line[2048];
        uint32_t first = 0;
        size_t rows = 0;
        while (fgets(line, sizeof line, f))
        {
            std::vector<std::string> p(1);
            for (char* c = line; *c && *c != '\n' && *c != '\r'; ++c)
                if (*c == ';') p.emplace_back(); else p.back() += *c;
            if (p.size() != 15) continue;
            ++rows;
            auto hex = [](const std::string& s) { return uint32_t(strtoul(s.c_str(), nullptr, 16)); };
            auto cp = hex(p[0]);
            uint8_t g = Cn;
            for (int i = 0; i < 30; ++i)
                if (names[2 * i] == p[2][0] && names[2 * i + 1] == p[2][1]) g = uint8_t(i);
            auto& name = p[1];
            if (name.size() > 8 && name.substr(name.size() - 8) == ", First>") first = cp;
            if (name.size() > 7 && name.substr(name.size() - 7) == ", Last>")
                for (uint32_t i = first; i <= cp; ++i) gc_[i] = g;
            gc_[cp] = g;
            if (!p[12].empty()) upper_[cp] = hex(p[12]);
            if (!p[13].empty()) lower_[cp] = hex(p[13]);
            if (!p[14].empty()) title_[cp] = hex(p[14]);
            if (!p[5].empty() && p[5][0] != '<')
            {
                auto sp = p[5].find(' ');
                if (sp != std::string::npos && p[5].find(' ', sp + 1) == std::string::npos)
                {
                    auto a = hex(p[5].substr(0, sp)), b = hex(p[5].substr(sp + 1));
                    decomp[cp] = {a, b};
                    comp[{a, b}] = cp;
                }
            }
        }
        fclose(f);
        if (rows < 10) { fprintf(stderr, "no Unicode data\n"); exit(2); }
        for (uint32_t c = 0; c <= MAX; ++c)
        {
            if (is_mark(c)) marks.push_back(c);
            if (is_separator(c)) separators.push_back(c);
            if (is_letter(c)) letters.push_back(c);
            auto u = upper_[c], l = lower_[c], t = title_[c];
            if (u != c || l != c || t != c) cased.push_back(c);
            auto len = [](uint32_t x) { return x < 0x80 ? 1 : x < 0x800 ? 2 : x < 0x10000 ? 3 : 4; };
            if (t != u || len(u) != len(c) || len(l) != len(c) || (u != c && lower_[u] != c) || (l != c && upper_[l] != c))
                odd_case.push_back(c);
            if (c == 0 || gc_[c] != gc_[c - 1]) class_edges.push_back(c);
        }
        for (auto& d : decomp) composed.push_back(d.first);
    }
}
