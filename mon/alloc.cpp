// Accounting and fault injection for operator new/delete. A block allocated
// while the library is running ("armed") is tagged in a 16 byte header.
#include "fw.hpp"
#include <cstdlib>
#if defined(__SANITIZE_ADDRESS__) || __has_feature(address_sanitizer)
#include <sanitizer/asan_interface.h>
#define POISON(p, n) __asan_poison_memory_region(p, n)
#define UNPOISON(p, n) __asan_unpoison_memory_region(p, n)
#else
#define POISON(p, n) (void)0
#define UNPOISON(p, n) (void)0
#endif

namespace fw
{
    bool alloc_tracking = true;
    uint64_t alloc_count = 0, alloc_bytes = 0;
    int64_t armed_live = 0;
    uint64_t fail_at = 0;
    bool fail_fired = false, fail_all = false;
}

#ifndef FW_NO_ALLOC
namespace
{
    constexpr uint64_t TAG_ARMED = 0xA11A0CA7EDull, TAG_PLAIN = 0xB0B0B0B0ull;
    void* get(size_t n, bool nothrow)
    {
        if (fw::armed)
        {
            ++fw::alloc_count;
            fw::alloc_bytes += n;
            if (fw::fail_at && (fw::alloc_count == fw::fail_at || (fw::fail_all && fw::alloc_count > fw::fail_at)))
            {
                fw::fail_fired = true;
                if (nothrow) return nullptr;
                throw std::bad_alloc();
            }
            if (n > (size_t(1) << 28))
            {
                // Runaway memory use: report it where it happens.
                fw::violation(std::string("memory:") + fw::cur_fn, "a single allocation of " + std::to_string(n) + " bytes");
            }
        }
        auto* h = static_cast<uint64_t*>(malloc(n + 16));
        if (!h) abort();
        h[0] = fw::armed ? TAG_ARMED : TAG_PLAIN;
        h[1] = n;
        if (fw::armed) ++fw::armed_live;
        POISON(h, 16);
        return h + 2;
    }
    void put(void* p)
    {
        if (!p) return;
        auto* h = static_cast<uint64_t*>(p) - 2;
        UNPOISON(h, 16);
        if (h[0] == TAG_ARMED) --fw::armed_live;
        h[0] = 0;
        free(h);
    }
}

void* operator new(size_t n) { return get(n, false); }
void* operator new[](size_t n) { return get(n, false); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return get(n, true); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return get(n, true); }
void operator delete(void* p) noexcept { put(p); }
void operator delete[](void* p) noexcept { put(p); }
void operator delete(void* p, size_t) noexcept { put(p); }
void operator delete[](void* p, size_t) noexcept { put(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { put(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { put(p); }
#endif
