#include "common.h"
#include <iterator>
#include <memory>
#include <rofl/common/disjoint_set.h>

json runCase(const json& c) {
    json evs = json::array();
    int n0 = c["cfg"]["n"];
    std::unique_ptr<rofl::DisjointSet> ds(n0 == 0 && c["cfg"]["dflt"].get<bool>() ? new rofl::DisjointSet() : new rofl::DisjointSet(n0));
    auto obs = [&](json& e) {
        std::vector<int> ps;
        ds->parents(std::back_inserter(ps));
        e["obs"] = {{"nodes", (long) ds->nodeNum()}, {"total", (long) ds->size()}, {"sets", ds->setNum()}, {"parents", ps}};
        evs.push_back(e);
    };
    json first = {{"op", "create"}};
    obs(first);
    for (auto& op : c["ops"]) {
        std::string o = op[0];
        int x = op.size() > 1 ? op[1].get<int>() : 0, y = op.size() > 2 ? op[2].get<int>() : 0;
        json e = {{"op", o}};
        if (o == "init") { e["k"] = x; ds->initSets(x); }
        else if (o == "make") e["res"] = ds->makeSet();
        else if (o == "find") { e["x"] = x; e["res"] = ds->find(x); }
        else if (o == "join") { e["x"] = x; e["y"] = y; e["res"] = ds->join(x, y); }
        else if (o == "size") { e["x"] = x; e["res"] = (long) ds->size(x); }
        else {
            json f = json::array(), s = json::array();
            int n = ds->nodeNum();
            for (int i = 0; i < n; ++i) { s.push_back((long) ds->size(i)); f.push_back(ds->find(i)); }
            e["find"] = f; e["size"] = s;
        }
        obs(e);
    }
    return json{{"cfg", c["cfg"]}, {"ev", evs}};
}
