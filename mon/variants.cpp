// C31: a table of the results of all functions for given inputs. The table must
// be the same however the library (and this program) is compiled.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <typeinfo>
#include "api.hpp"
#include "fw.hpp"
#include <Ystring/Ystring.hpp>
#include <Ystring/CharClass.hpp>
#include <Ystring/CodepointPredicates.hpp>
#include <Ystring/ConvertCase.hpp>
#include <Ystring/DecodeUtf8.hpp>
#include <Ystring/Normalize.hpp>
#include <Ystring/Utf32.hpp>
#include <Ystring/YstringException.hpp>
namespace ys = ystring;

static std::string esc(std::string_view s, size_t max)
{
    std::string r;
    for (auto c : s.substr(0, max)) { char b[8]; snprintf(b, sizeof b, uint8_t(c) >= 32 && uint8_t(c) < 127 ? "%c" : "\\x%02X", uint8_t(c)); r += b; }
    return r;
}
// What the last function left on the stack.
__attribute__((noinline)) static void dirty(unsigned char c)
{
    volatile unsigned char b[4096];
    for (auto& x : b) x = c;
}
static unsigned char dirt = 0;
static uint64_t run_op(const api::Op& op, const api::View& v, std::string* text = nullptr)
{
    dirty(dirt);
    api::Sink sink;
    uint64_t h;
    try { op.f(v, sink); h = fw::hash_bytes(sink.out.data(), sink.out.size(), 99 + sink.out.size()); }
    catch (ys::YstringException&) { h = 1; }
    catch (std::exception& e) { h = 2; if (text) *text = e.what(); }
    if (sink.changed) h ^= 0x5555;
    if (sink.outside) h ^= 0x15555;
    if (text) *text += (h == 1 ? "YstringException" : "") + esc(sink.out, 400);
    return h;
}
static std::vector<api::Args> inputs;
// Everything about the code points of a block
static uint64_t block(uint32_t i, std::string* text = nullptr)
{
    fw::Hash h;
    for (uint32_t k = 0; k < 256; ++k)
    {
        dirty(dirt);
        auto c = char32_t(i * 256 + k);
        fw::Hash o;
        o.add(uint64_t(ys::to_upper(c))).add(uint64_t(ys::to_lower(c))).add(uint64_t(ys::to_title(c))).add(uint64_t(ys::get_char_class(c)));
        auto d = ys::decompose(c);
        o.add(std::string_view(reinterpret_cast<const char*>(d.data()), 4 * d.size()));
        o.add(uint64_t(ys::is_letter(c) | ys::is_mark(c) << 1 | ys::is_number(c) << 2 | ys::is_punctuation(c) << 3 | ys::is_whitespace(c) << 4 | ys::is_newline(c) << 5 | ys::is_upper(c) << 6 | ys::is_lower(c) << 7
                       | ys::is_cased_letter(c) << 8 | ys::is_symbol(c) << 9 | ys::is_control(c) << 10 | ys::is_alpha_numeric(c) << 11 | ys::is_format(c) << 12 | ys::is_graphical(c) << 13 | ys::is_hex_digit(c) << 14
                       | ys::is_separator(c) << 15 | ys::is_surrogate(c) << 16 | ys::is_visible(c) << 17));
        try { o.add(ys::from_utf32(c)); } catch (ys::YstringException&) { o.add(uint64_t(77)); }
        if (text) { char b[200]; snprintf(b, sizeof b, "U+%X:%016llx(upper %X lower %X title %X class %X) ", unsigned(c), (unsigned long long)o.h, unsigned(ys::to_upper(c)), unsigned(ys::to_lower(c)), unsigned(ys::to_title(c)), unsigned(ys::get_char_class(c))); *text += b; }
        h.add(o.h);
    }
    return h.h;
}

static void read(const char* path)
{
    FILE* f = fopen(path, "rb");
    if (!f) { printf("cannot read\n"); exit(2); }
    auto num = [&] { uint64_t v = 0; if (fread(&v, 8, 1, f) != 1) { printf("truncated\n"); exit(2); } return v; };
    auto str = [&](auto& s) { auto n = num(); s.resize(n); if (n && fread(s.data(), sizeof(s[0]), n, f) != n) { printf("truncated\n"); exit(2); } };
    for (auto n = num(); n; --n)
    {
        api::Args a;
        str(a.s); str(a.c); str(a.to); str(a.list);
        for (auto k = num(); k; --k) { auto x = num(); auto y = num(); a.ranges.emplace_back(uint32_t(x), uint32_t(y)); }
        a.negated = num(); a.ignore = num(); a.i = ptrdiff_t(num()); a.j = ptrdiff_t(num()); a.limit = ptrdiff_t(num()); a.off = num();
        a.cp = uint32_t(num()); a.cp2 = uint32_t(num()); a.splits = num();
        inputs.push_back(std::move(a));
    }
    fclose(f);
}

int main(int argc, char** argv)
{
    bool blocks = false;
    long show = -1;
    std::string in, out;
    for (int i = 1; i + 1 < argc; i += 2)
    {
        std::string a = argv[i], v = argv[i + 1];
        if (a == "--dirt") dirt = static_cast<unsigned char>(std::stoul(v));
        else if (a == "--blocks") blocks = v == "1";
        else if (a == "--show") show = std::stol(v);
        else if (a == "--in") in = v;
        else if (a == "--out") out = v;
    }
    std::vector<uint64_t> table;
    size_t threw = 0;
    if (blocks)
    {
        std::string text;
        for (uint32_t i = 0; i < 0x1108; ++i)
        {
            if (show >= 0 && uint32_t(show) != i) continue;
            table.push_back(block(i, show >= 0 ? &text : nullptr));
        }
        if (show >= 0) { printf("%s\n", text.c_str()); return 0; }
    }
    else
    {
        read(in.c_str());
        const auto& ops = api::ops();
        for (size_t k = 0; k < inputs.size(); ++k)
        {
            auto& a = inputs[k];
            if (show >= 0 && size_t(show) / ops.size() != k) continue;
            ys::CodepointSet set;
            api::make_set(a, set);
            // (Not terminated by NUL; followed by something that differs.)
            auto place = [&](const std::string& s) { auto* p = static_cast<char*>(malloc(s.size() + 8)); memcpy(p, s.data(), s.size()); memset(p + s.size(), dirt, 8); return std::string_view(p, s.size()); };
            api::View v{place(a.s), place(a.c), place(a.to), a.list, &set, &a};
            for (size_t o = 0; o < ops.size(); ++o)
            {
                if (show >= 0 && size_t(show) % ops.size() != o) continue;
                if (ops[o].cost == api::TIMES_C && a.s.size() > 20000 && a.c.size() > 40) { table.push_back(3); continue; }
                std::string text;
                auto d = run_op(ops[o], v, show >= 0 ? &text : nullptr);
                threw += d == 1;
                if (show >= 0) { printf("%s with %s: %s\n", ops[o].name, api::show(a, esc).c_str(), text.c_str()); return 0; }
                table.push_back(d);
            }
            free(const_cast<char*>(v.s.data())); free(const_cast<char*>(v.c.data())); free(const_cast<char*>(v.to.data()));
        }
    }
    FILE* f = fopen(out.c_str(), "wb");
    if (!f || fwrite(table.data(), 8, table.size(), f) != table.size() || fclose(f)) { printf("cannot write\n"); return 2; }
    printf("OK calls=%zu threw=%zu ops=%zu inputs=%zu\n", table.size(), threw, api::ops().size(), inputs.size());
    return 0;
}
