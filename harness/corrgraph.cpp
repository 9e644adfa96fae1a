#include "common.h"
#include <algorithm>
#include <iterator>
#include <list>
#include <rofl/geometry/correspondence_graph_association.h>

json runCase(const json& c) {
    rofl::CorrespondenceGraphAssociation g;
    double u = c["cfg"]["u"];
    json evs = json::array();
    size_t nd = 0;
    std::vector<rofl::LabelSet> cliques;
    std::vector<rofl::CorrespondenceGraphAssociation::AssociationHypothesis> hyps;
    if (!c["cfg"].value("dflt", false)) g.setTolerance((rofl::Scalar)(c["cfg"]["tol"].get<int>() * u));
    for (auto& op : c["ops"]) {
        json e = op;
        std::string o = op["op"];
        if (o == "src" || o == "dst") {
            auto dist = [&](int i, int j) -> rofl::Scalar { return (rofl::Scalar)(op["m"][i][j].get<int>() * u); };
            std::vector<int> v;
            for (size_t i = 0; i < op["m"].size(); ++i) v.push_back(i);
            std::list<int> li(v.begin(), v.end());
            if (o == "src") g.insertSrc(v.begin(), v.end(), dist);
            else { g.insertDst(li.begin(), li.end(), dist); nd = v.size(); }
        }
        else if (o == "tol") g.setTolerance((rofl::Scalar)(op["v"].get<int>() * u));
        else if (o == "min") g.setDistanceMin((rofl::Scalar)(op["v"].get<int>() * u));
        else {
            json res = json::array();
            if (op["via"] == "cliques") {
                g.associate(cliques);
                for (auto& k : cliques) {
                    json a = json::array();
                    for (int n : k) a.push_back({nd ? n / (int) nd : -1, nd ? n % (int) nd : -1});
                    res.push_back(a);
                }
            } else {
                g.associate(hyps);
                for (auto& k : hyps) {
                    json a = json::array();
                    for (auto& p : k.associations) a.push_back({p.first, p.second});
                    res.push_back(a);
                }
            }
            e["res"] = res;
        }
        evs.push_back(e);
    }
    return json{{"cfg", c["cfg"]}, {"ev", evs}};
}
