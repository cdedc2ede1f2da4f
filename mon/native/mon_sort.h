// Included ahead of the kernel's source: observes every sort that the kernel
// performs.  Counts the calls, and (when MON_SWO is set) checks that the
// comparator is a strict weak ordering on the sorted elements, that the sort
// kept the same elements and that the result is ordered.
#pragma once
#include <limits>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <vector>
#include <string>
#include <memory>
#include <numeric>
#include <functional>
#include <utility>
#include <algorithm>

extern "C" {
inline long mon_sort_calls = 0;
inline long mon_sort_triples = 0;
inline int mon_swo = 0;
}

namespace mon {
[[noreturn]] inline void bad(const char* what) {
    std::fprintf(stderr, "MONITOR: %s\n", what);
    std::fflush(stderr);
    std::abort();
}
template <class It, class C>
void before(It b, It e, C& c) {
    ++mon_sort_calls;
    auto n = e - b;
    if (n < 0) bad("sort of a reversed range");
    if (!mon_swo || n > 14) return;
    for (auto i = 0; i < n; ++i)
        for (auto j = 0; j < n; ++j) {
            bool ij = c(b[i], b[j]);
            if (i == j && ij) bad("comparator is not irreflexive");
            if (ij && c(b[j], b[i])) bad("comparator is not asymmetric");
            for (auto k = 0; k < n; ++k) {
                ++mon_sort_triples;
                bool jk = c(b[j], b[k]), ik = c(b[i], b[k]);
                if (ij && jk && !ik) bad("comparator is not transitive");
                bool eij = !ij && !c(b[j], b[i]);
                bool ejk = !jk && !c(b[k], b[j]);
                bool eik = !ik && !c(b[k], b[i]);
                if (eij && ejk && !eik)
                    bad("comparator equivalence is not transitive");
            }
        }
}
template <class It, class C>
void after(It b, It e, C& c) {
    if (!mon_swo) return;
    for (It i = b; i != e && i + 1 != e; ++i)
        if (c(*(i + 1), *i)) bad("sorted range is not ordered");
}
}  // namespace mon

namespace std {
template <class It, class C>
void mon_sort_(It b, It e, C c) {
    mon::before(b, e, c);
    std::sort(b, e, c);
    mon::after(b, e, c);
}
template <class It>
void mon_sort_(It b, It e) {
    auto c = [](const auto& x, const auto& y) { return x < y; };
    mon_sort_(b, e, c);
}
template <class It, class C>
void mon_stable_sort_(It b, It e, C c) {
    mon::before(b, e, c);
    std::stable_sort(b, e, c);
    mon::after(b, e, c);
}
template <class It>
void mon_stable_sort_(It b, It e) {
    auto c = [](const auto& x, const auto& y) { return x < y; };
    mon_stable_sort_(b, e, c);
}
}  // namespace std
#define sort mon_sort_
#define stable_sort mon_stable_sort_
