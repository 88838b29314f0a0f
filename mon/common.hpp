#pragma once
#include "fw.hpp"
#include "gen.hpp"
#include "model.hpp"
#include "shim.hpp"
#include "uni.hpp"
using fw::Src;
using fw::In;
using fw::In32;
using fw::esc;
using fw::esc32;
using std::string;
using std::string_view;
using std::u32string;
using std::u32string_view;
using model::Range;
using model::Cp;
using model::NONE;
using ystring::Subrange;
namespace ys = ystring;
namespace ci = ystring::case_insensitive;

inline string str(const Subrange& r) { return "{" + (r.offset == SIZE_MAX ? string("npos") : std::to_string(r.offset)) + "," + std::to_string(r.length) + "}"; }
inline string str(const Range& r) { return r.len ? "{" + std::to_string(r.off) + "," + std::to_string(r.len) + "}" : "none"; }
inline string num(ptrdiff_t v) { return std::to_string(v); }
inline string hexs(uint32_t c) { char b[8]; int n = 8; do b[--n] = "0123456789ABCDEF"[c & 15]; while (c >>= 4); return string(b + n, size_t(8 - n)); }

// The call must have returned (not thrown) this range; expected.len 0: empty.
template <class R>
void expect_range(const char* fn, const R& r, const Range& expected, const string& ctx)
{
    if (!r.ok()) FAIL(string("throw:") + fn, string(fn) + ctx + " threw, expected " + str(expected));
    else if (expected.len ? (r.v.offset != expected.off || r.v.length != expected.len) : r.v.length != 0)
        FAIL(string("range:") + fn, string(fn) + ctx + " = " + str(r.v) + ", expected " + str(expected));
}
// ... and this code point.
template <class R>
void expect_found(const char* fn, const R& r, const Cp& e, const string& ctx)
{
    if (!r.ok()) { FAIL(string("throw:") + fn, string(fn) + ctx + " threw"); return; }
    bool good = e.ok ? r.v.first.offset == e.off && r.v.first.length == e.len && r.v.second == e.c
                     : r.v.first.length == 0 && r.v.second == ys::INVALID_CHAR;
    if (!good)
        FAIL(string("found:") + fn, string(fn) + ctx + " = " + str(r.v.first) + " U+" + hexs(r.v.second) + ", expected "
             + (e.ok ? str(Range{e.off, e.len}) + " U+" + hexs(e.c) : string("nothing")));
}
template <class R, class T>
void expect_eq(const char* fn, const R& r, const T& e, const string& ctx)
{
    if (!r.ok()) FAIL(string("throw:") + fn, string(fn) + ctx + " threw");
    else if (!(r.v == e)) FAIL(string("value:") + fn, string(fn) + ctx + ": wrong result");
}
template <class R>
void expect_str(const char* fn, const R& r, string_view e, const string& ctx)
{
    if (!r.ok()) FAIL(string("throw:") + fn, string(fn) + ctx + " threw, expected " + esc(e));
    else if (string_view(r.v) != e) FAIL(string("value:") + fn, string(fn) + ctx + " = " + esc(r.v) + ", expected " + esc(e));
}
template <class R>
void expect_throw(const char* fn, const R& r, const string& ctx)
{
    if (!r.threw()) FAIL(string("no-throw:") + fn, string(fn) + ctx + " didn't throw");
}
inline Cp none_cp() { return {NONE, 0, 0xFFFFFFFF, false}; }
// The call must have returned this part of its input (empty: any empty view).
template <class R>
void expect_view(const char* fn, const R& r, const In& in, const Range& e, const string& ctx)
{
    if (!r.ok()) { FAIL(string("throw:") + fn, string(fn) + ctx + " threw, expected " + str(e)); return; }
    string_view v = r.v;
    auto off = in.offset_of(fn, v);
    if (e.len ? (off != e.off || v.size() != e.len) : !v.empty())
        FAIL(string("view:") + fn, string(fn) + ctx + " = " + esc(v) + " at " + std::to_string(off) + ", expected " + str(e));
}
inline string at(string_view s, size_t pos) { return "(" + esc(s) + ", at " + std::to_string(pos) + ")"; }
