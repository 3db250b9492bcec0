// Enumeration of every pattern text of the schema grammar up to a size.
#pragma once
#include <functional>
#include <string>
#include <vector>

namespace pg {
struct Gen {
    std::vector<std::string> chars;     // literals (size 1)
    std::vector<std::string> classes;   // other atoms (size 1)
    std::vector<std::string> postfixes; // size 1 each
    bool captures{false};
    bool alternation{true};
    // by size
    std::vector<std::vector<std::string>> L, E, O, C;
    void make(size_t n) {
        L.assign(n + 1, {}); E = L; O = L; C = L;
        for (size_t s = 1; s <= n; s++) {
            if (s == 1) L[1] = chars;
            else {
                for (auto const& c : C[s - 1]) L[s].push_back("(" + c + ")");
                if (captures) for (auto const& c : C[s - 1]) L[s].push_back("(?<n" + std::to_string(s) + ">" + c + ")");
            }
            std::vector<std::string> G = L[s];
            if (s == 1) G.insert(G.end(), classes.begin(), classes.end());
            E[s] = G;
            if (s > 1) {
                std::vector<std::string> g = L[s - 1];
                if (s == 2) g.insert(g.end(), classes.begin(), classes.end());
                for (auto const& x : g) for (auto const& p : postfixes) E[s].push_back(x + p);
            }
            O[s] = E[s];
            if (alternation) for (size_t i = 1; i + 2 <= s; i++)
                for (auto const& a : O[i]) for (auto const& b : L[s - 1 - i]) O[s].push_back(a + "|" + b);
            C[s] = O[s];
            for (size_t i = 1; i + 1 <= s; i++)
                for (auto const& a : C[i]) for (auto const& b : O[s - i]) C[s].push_back(a + b);
        }
    }
    std::vector<std::string> up_to(size_t n) {
        make(n);
        std::vector<std::string> v;
        for (auto const& x : C) v.insert(v.end(), x.begin(), x.end());
        return v;
    }
};
}  // namespace pg
