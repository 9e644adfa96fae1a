#include "common.h"
#include <rofl/common/label_set.h>
#include <map>
#include <iterator>
using rofl::LabelSet;
json runCase(const json& c) {
    json evs = json::array();
    std::map<std::string, LabelSet> env;
    for (auto s : {"a", "b", "c"}) env[s];
    for (auto& op : c["ops"]) {
        json e = op; e.erase("probe");
        std::string o = op["op"], s = op["s"], a = op.value("a", "a"), b = op.value("b", "b");
        int x = op.value("x", 0);
        if (o == "range") { std::vector<int> v; for (auto& t : op["xs"]) v.push_back(t); LabelSet n(v.begin(), v.end()); env[s] = n; }
        else if (o == "copy") { LabelSet n(env[a]); env[s] = n; }
        else if (o == "insert") e["res"] = (bool) env[s].insert(x);
        else if (o == "remove") env[s].remove(x);
        else if (o == "clear") env[s].clear();
        else if (o == "union") { LabelSet r = ((const LabelSet&) env[a]).unionSet(env[b]); env[s] = r; }
        else if (o == "inter") { LabelSet r = ((const LabelSet&) env[a]).intersectionSet(env[b]); env[s] = r; }
        else if (o == "diff") { LabelSet r = ((const LabelSet&) env[a]).differenceSet(env[b]); env[s] = r; }
        else if (o == "union1") { LabelSet r = ((const LabelSet&) env[a]).unionSet(x); env[s] = r; }
        else if (o == "diff1") { LabelSet r = ((const LabelSet&) env[a]).differenceSet(x); env[s] = r; }
        json ob; ob["probe"] = op["probe"];
        for (auto& p : env) {
            const LabelSet& ls = p.second;
            json q = json::array(), in = json::array();
            for (auto it = ls.begin(); it != ls.end(); ++it) q.push_back(*it);
            for (auto& y : op["probe"]) in.push_back((bool) ls.inside(y.get<int>()));
            ob[p.first] = {{"seq", q}, {"size", (long) ls.size()}, {"empty", (bool) ls.empty()}, {"inside", in}};
        }
        json eq = json::array();
        for (auto& p : env) for (auto& q : env) if (p.first != q.first || p.first == "a")
            eq.push_back({{"s", p.first}, {"t", q.first}, {"eq", (bool) (p.second == q.second)}, {"ne", (bool) (p.second != q.second)}});
        ob["eq"] = eq;
        e["obs"] = ob;
        evs.push_back(e);
    }
    return json{{"cfg", c["cfg"]}, {"ev", evs}};
}
