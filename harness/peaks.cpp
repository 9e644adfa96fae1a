#include "common.h"
#include <algorithm>
#include <iterator>
#include <rofl/common/peak_finder_d.h>

template <typename Cmp, typename V> struct StatefulCmp {   // comparator handed to the constructor
    Cmp c; int magic = 0;
    bool operator()(const V& a, const V& b) const { return magic == 42 ? c(a, b) : false; }
};
template <size_t D, typename V, typename Cmp> json play(rofl::PeakFinderD<D, V, int, Cmp>& pf, const json& c) {
    using Idx = std::array<int, D>;
    auto arr = [](const json& j) { Idx r; for (size_t d = 0; d < D; ++d) r[d] = j[d]; return r; };
    json evs = json::array();
    Idx mn, dm;
    for (auto& op : c["ops"]) {
        json e = op;
        std::string o = op["op"];
        if (o == "domain") { pf.setDomain(arr(op["p"]), arr(op["q"])); mn = arr(op["min"]); dm = arr(op["dim"]); }
        else if (o == "domain1") { pf.setDomain(arr(op["q"])); mn = arr(op["min"]); dm = arr(op["dim"]); }
        else if (o == "domainc") { pf.setDomainCentered(arr(op["p"]), arr(op["q"])); mn = arr(op["min"]); dm = arr(op["dim"]); }
        else if (o == "window") pf.setPeakWindow(arr(op["q"]));
        else if (o == "filter") pf.enableFilterPeakMin(op["on"], (V) op["v"].get<int>());
        else {
            std::vector<V> f;
            for (auto& x : op["f"]) f.push_back((V) x.get<int>());
            bool outside = false;
            auto map = [&](const Idx& t) -> V {
                size_t pos = 0, mul = 1;
                for (size_t d = 0; d < D; ++d) {
                    if (t[d] < mn[d] || t[d] >= mn[d] + dm[d]) { outside = true; return V(); }
                    pos += (t[d] - mn[d]) * mul; mul *= dm[d];
                }
                return f[pos];
            };
            std::vector<Idx> res;
            pf.detect(map, std::back_inserter(res));
            json rs = json::array();
            for (auto& t : res) { json x = json::array(); for (int v : t) x.push_back(v); rs.push_back(x); }
            e["res"] = rs;
            if (outside) e["op"] = "outside";
        }
        evs.push_back(e);
    }
    return json{{"cfg", c["cfg"]}, {"ev", evs}};
}
template <size_t D, typename V> json byCmp(const json& c) {
    bool less = c["cfg"]["ord"] == "less";
    if (c["cfg"]["st"].get<bool>()) {
        if (less) { StatefulCmp<std::less<V>, V> k; k.magic = 42; rofl::PeakFinderD<D, V, int, decltype(k)> p(k); return play<D, V>(p, c); }
        StatefulCmp<std::greater<V>, V> k; k.magic = 42; rofl::PeakFinderD<D, V, int, decltype(k)> p(k); return play<D, V>(p, c);
    }
    if (less) { rofl::PeakFinderD<D, V> p; return play<D, V>(p, c); }
    rofl::PeakFinderD<D, V, int, std::greater<V>> p; return play<D, V>(p, c);
}
json runCase(const json& c) {
    switch (c["cfg"]["n"].get<int>()) {
        case 1: return byCmp<1, int>(c);
        case 2: return byCmp<2, double>(c);
        case 4: return byCmp<4, float>(c);
        default: return byCmp<3, int>(c);
    }
}
