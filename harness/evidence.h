// What a sorter has learned from comparisons (SortCall!facts), and whether it
// justifies the order it leaves (SortCall!Evidence).  Ranges of up to 64 values.
#ifndef VP_EVIDENCE_H
#define VP_EVIDENCE_H
#include <cstdint>
#include <string>
#include <vector>
namespace vp {
struct Evidence {
    std::size_t n = 0;
    std::vector<std::uint64_t> le, lt;   // bit b of le[a]: a known not greater than b; of lt[a]: known less
    void reset(std::size_t k) {
        n = k <= 64 ? k : 0; le.assign(n, 0); lt.assign(n, 0);
        for (std::size_t i = 0; i < n; ++i) le[i] = std::uint64_t(1) << i;
    }
    // value a compared with value b
    void saw(int a, int b, bool less) {
        if (std::size_t(a) >= n || std::size_t(b) >= n) return;
        if (less) { le[a] |= std::uint64_t(1) << b; lt[a] |= std::uint64_t(1) << b; }
        else le[b] |= std::uint64_t(1) << a;
    }
    std::string judge(const std::vector<int>& out, bool stable) {
        if (out.size() != n) return "";
        for (std::size_t k = 0; k < n; ++k)
            for (std::size_t i = 0; i < n; ++i)
                if (le[i] >> k & 1) le[i] |= le[k];
        for (std::size_t i = 0; i + 1 < n; ++i) {
            int a = out[i], b = out[i + 1];
            bool ok;
            if (stable && a > b) {
                ok = false;
                for (std::size_t u = 0; u < n && !ok; ++u)
                    if (le[a] >> u & 1)
                        for (std::size_t v = 0; v < n && !ok; ++v)
                            if ((lt[u] >> v & 1) && (le[v] >> b & 1)) ok = true;
            } else ok = le[a] >> b & 1;
            if (!ok) return "the comparisons made do not justify placing element " + std::to_string(a) + " right before element " + std::to_string(b)
                          + (stable ? " (unstable or unsorted" : " (unsorted") + std::string(" for another input with the same comparison results)");
        }
        return "";
    }
};
} // namespace vp
#endif
