// Every public function behind one signature: arguments in, a textual digest
// of the outcome out. Used by the checks that are about all functions at once.
#pragma once
#include <string>
#include <string_view>
#include <utility>
#include <vector>
#include <cstdint>
#include <cstddef>
#include <Ystring/CodepointSet.hpp>

namespace api
{
    using std::string;
    using std::string_view;
    using std::u32string;
    using std::u32string_view;

    // The arguments of any function.
    struct Args
    {
        string s, c, to;      // the text, a pattern, a replacement
        u32string list;
        std::vector<std::pair<uint32_t, uint32_t>> ranges;
        bool negated = false, ignore = false;
        ptrdiff_t i = 0, j = 0, limit = 0;
        size_t off = 0;       // <= s.size()
        uint32_t cp = 0, cp2 = 0;
        size_t splits = SIZE_MAX;
    };
    // Where they are this time.
    struct View
    {
        string_view s, c, to;
        u32string_view list;
        const ystring::CodepointSet* set;
        const Args* a;
    };
    struct Sink
    {
        string out;           // digest of the result
        const char* changed = nullptr; // set if a failed call has changed its argument
        const char* outside = nullptr; // set if a returned view or range isn't inside the text
        size_t result_bytes = 0;       // size of the result
        void (*enter)() = nullptr;     // called around library calls
        void (*leave)() = nullptr;
    };
    enum Cost : uint8_t { LIN, TIMES_C, TIMES_LIST, TIMES_SET, CP };
    struct Op
    {
        const char* name;
        Cost cost;
        bool prints; // depends on the locale of a stream
        void (*f)(const View&, Sink&);
    };
    const std::vector<Op>& ops();
    void make_set(const Args& a, ystring::CodepointSet& set);
    inline string show(const Args& a, string (*esc)(string_view, size_t))
    {
        string r = "s=" + esc(a.s, 120) + " c=" + esc(a.c, 60) + " to=" + esc(a.to, 60) + " list=";
        for (auto x : a.list.substr(0, 20)) { char b[16]; snprintf(b, sizeof b, "%X,", unsigned(x)); r += b; }
        r += " set=";
        for (auto& [x, y] : a.ranges) { char b[32]; snprintf(b, sizeof b, "%X-%X,", x, y); r += b; }
        char b[200];
        snprintf(b, sizeof b, " neg=%d i=%td j=%td limit=%td off=%zu cp=%X cp2=%X splits=%zu ignore=%d", a.negated, a.i, a.j, a.limit, a.off, a.cp, a.cp2, a.splits, a.ignore);
        return r + b;
    }
}
