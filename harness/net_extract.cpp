// Extracts every comparator network of the library (index_pairs()) and, as an
// untrusted hint for the specification (Networks.tla), an order in which the
// comparators can be applied so that the sets of reachable 0-1 vectors stay
// small.  TLC checks that the order is a legal reordering.
#include <cpp-sort/fixed_sorters.h>
#include <cpp-sort/utility/sorting_networks.h>
#include <algorithm>
#include <cstdio>
#include <cstdint>
#include <cmath>
#include <map>
#include <numeric>
#include <set>
#include <string>
#include <thread>
#include <atomic>
#include <vector>
using u = unsigned __int128;
struct Net { const char* fam; int n; std::vector<std::pair<int, int>> p; std::string out; };
static std::vector<Net> nets;
template<class S> void grab(const char* f, int n) {
    Net t{f, n, {}, {}};
    for (auto& x : S::template index_pairs<int>()) t.p.emplace_back(int(x.first), int(x.second));
    auto wide = S::template index_pairs<>();           // the other index types give the same pairs
    auto sh = S::template index_pairs<short>();
    std::size_t k = 0;
    for (auto& x : wide) { if (k >= t.p.size() || x.first != t.p[k].first || x.second != t.p[k].second || sh[k].first != x.first || sh[k].second != x.second) { t.p.emplace_back(-1, -1); break; } ++k; }
    nets.push_back(t);
}
template<std::size_t... I> void all_sn(std::index_sequence<I...>) { (grab<cppsort::sorting_network_sorter<I>>("sorting_network", int(I)), ...); }
template<std::size_t... I> void all_me(std::index_sequence<I...>) { (grab<cppsort::merge_exchange_network_sorter<I>>("merge_exchange", int(I)), ...); }
template<std::size_t... I> void all_oe(std::index_sequence<I...>) { (grab<cppsort::odd_even_merge_network_sorter<I>>("odd_even_merge", int(I)), ...); }
static const double LIMIT = 120000;
static void plan(Net& t) {
    int n = t.n, m = int(t.p.size());
    std::string& o = t.out; char b[64];
    auto pairs = [&](const std::vector<std::pair<int, int>>& v) { std::string s = "["; for (std::size_t i = 0; i < v.size(); ++i) { snprintf(b, sizeof b, "%s[%d,%d]", i ? "," : "", v[i].first, v[i].second); s += b; } return s + "]"; };
    snprintf(b, sizeof b, "[\"%s\",%d,", t.fam, n); o = b; o += pairs(t.p) + ",[";
    for (auto& x : t.p) if (x.first < 0 || x.second >= n || x.first >= x.second) { o += "],\"malformed\"]"; return; }
    std::vector<int> comp(n); std::iota(comp.begin(), comp.end(), 0);
    std::map<int, std::vector<u>> S; for (int i = 0; i < n; ++i) S[i] = {0, u(1) << i};
    std::vector<std::vector<int>> q(n); for (int k = 0; k < m; ++k) { q[t.p[k].first].push_back(k); q[t.p[k].second].push_back(k); }
    std::vector<std::size_t> pos(n);
    auto head = [&](int w) { return pos[w] < q[w].size() ? q[w][pos[w]] : -1; };
    int done = 0; bool first = true, complete = true;
    auto ready = [&] { std::vector<int> r; for (int w = 0; w < n; ++w) { int k = head(w); if (k >= 0 && t.p[k].first == w && head(t.p[k].second) == k) r.push_back(k); } std::sort(r.begin(), r.end()); return r; };
    auto step = [&](int ca, int cb, std::vector<int>& run) {
        o += first ? "" : ","; first = false;
        snprintf(b, sizeof b, "[%d,%d,[", ca, cb); o += b;
        for (std::size_t i = 0; i < run.size(); ++i) { snprintf(b, sizeof b, "%s%d", i ? "," : "", run[i] + 1); o += b; }
        o += "]]";
    };
    while (done < m) {
        auto r = ready();
        std::map<std::pair<int, int>, int> cand;
        for (int k : r) ++cand[std::minmax(comp[t.p[k].first], comp[t.p[k].second])];
        double best = 1e300; std::pair<int, int> bp{-1, -1};
        for (auto& c : cand) {
            double pr = c.first.first == c.first.second ? 1 : double(S[c.first.first].size()) * double(S[c.first.second].size());
            double sc = pr / std::pow(2.0, c.second);
            if (sc < best) { best = sc; bp = c.first; }
        }
        double pr = double(S[bp.first].size()) * double(S[bp.second].size());
        if (bp.first != bp.second && pr > LIMIT) { complete = false; break; }
        if (bp.first != bp.second) {
            std::vector<u> s; for (u x : S[bp.first]) for (u y : S[bp.second]) s.push_back(x | y);
            S[bp.first] = s; S.erase(bp.second); for (auto& c : comp) if (c == bp.second) c = bp.first;
        }
        auto& s = S[bp.first];
        std::vector<int> run; bool open = true; bool merged = bp.first != bp.second;
        while (open) {                      // everything that can be done inside, in runs of a few comparators
            open = false;
            for (int k : ready()) if (comp[t.p[k].first] == bp.first && comp[t.p[k].second] == bp.first) {
                u A = u(1) << t.p[k].first, B = u(1) << t.p[k].second;
                for (auto& x : s) if ((x & A) && !(x & B)) x ^= A | B;
                ++pos[t.p[k].first]; ++pos[t.p[k].second]; ++done; run.push_back(k); open = true;
                if (run.size() == 6) {
                    std::sort(s.begin(), s.end()); s.erase(std::unique(s.begin(), s.end()), s.end());
                    step(bp.first, merged ? bp.second : -1, run); merged = false; run.clear();
                }
            }
        }
        if (!run.empty() || merged) {
            std::sort(s.begin(), s.end()); s.erase(std::unique(s.begin(), s.end()), s.end());
            step(bp.first, merged ? bp.second : -1, run);
        }
    }
    o += complete ? "],\"complete\"]" : "],\"product\"]";
}
int main() {
    all_sn(std::make_index_sequence<65>{});
    all_me(std::make_index_sequence<65>{});
    all_me(std::index_sequence<72, 81, 100>{});
    all_oe(std::index_sequence<1, 2, 4, 8, 16, 32, 64>{});
    std::atomic<std::size_t> next{0}; std::vector<std::thread> th;
    for (int i = 0; i < 8; ++i) th.emplace_back([&] { for (;;) { std::size_t k = next++; if (k >= nets.size()) return; plan(nets[nets.size() - 1 - k]); } });
    for (auto& t : th) t.join();
    for (auto& t : nets) puts(t.out.c_str());
}
