// Counts what is allocated while counting is on, and can refuse one allocation.
#pragma once
#include <cstdlib>
#include <new>

namespace heap {
struct Head { size_t size; size_t counted; };
static_assert(sizeof(Head) == 16);
inline bool on = false;
inline long live = 0, peak = 0, blocks = 0, allocs = 0, refuse = -1;  // refuse: the number of the allocation to refuse
inline bool refused = false;
inline void restart() { peak = live; allocs = 0; refuse = -1; refused = false; }
struct Count {
    bool was;
    Count(bool b = true) : was(on) { on = b; }
    ~Count() { on = was; }
};
}  // namespace heap
void* operator new(size_t n) {
    using namespace heap;
    if (on && allocs++ == refuse) { refused = true; throw std::bad_alloc(); }
    auto* h = (Head*)malloc(n + sizeof(Head));
    if (!h) throw std::bad_alloc();
    h->size = n;
    h->counted = on;
    if (on) { live += (long)n; blocks++; if (live > peak) peak = live; }
    return h + 1;
}
void operator delete(void* p) noexcept {
    using namespace heap;
    if (!p) return;
    auto* h = (Head*)p - 1;
    if (h->counted) { live -= (long)h->size; blocks--; }
    free(h);
}
void operator delete(void* p, size_t) noexcept { operator delete(p); }
