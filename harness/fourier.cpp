#include "common.h"
#include <cmath>
#include <rofl/common/functions.h>

static const double A1 = M_PI / 180.0;
static long fx(double x) { double y = x * 32768; return (std::isfinite(y) && std::fabs(y) < 1e9) ? std::lround(y) : 999999999; }

json runCase(const json& c) {
    json evs = json::array();
    for (auto& op : c["ops"]) {
        json e = op;
        std::string o = op["op"];
        double lo = 77, hi = -77;
        if (o == "lucos") {
            rofl::findLUCos(op["a"].get<int>() * A1, op["b"].get<int>() * A1, lo, hi);
            e["lo"] = fx(lo); e["hi"] = fx(hi);
        } else if (o == "cosat") {          // end points off the grid, in thousandths of a degree
            double a = op["a"].get<int>() * A1 / 1000, b = op["b"].get<int>() * A1 / 1000;
            rofl::findLUCos(a, b, lo, hi);
            bool in = true;
            for (int i = 0; i <= 400; ++i) { double v = std::cos(a + (b - a) * i / 400); in = in && lo - 1e-9 <= v && v <= hi + 1e-9; }
            in = in && lo >= -1 - 1e-12 && hi <= 1 + 1e-12;
            e["within"] = in;
        } else if (o == "lufou") {
            std::vector<double> k;
            for (size_t i = 0; i < op["A"].size(); ++i) {
                k.push_back(op["A"][i].get<int>() * std::cos(op["P"][i].get<int>() * A1));
                k.push_back(op["A"][i].get<int>() * std::sin(op["P"][i].get<int>() * A1));
            }
            rofl::findLUFourier(k, op["a"].get<int>() * A1, op["b"].get<int>() * A1, lo, hi);
            e["lo"] = fx(lo); e["hi"] = fx(hi);
        } else {
            std::vector<double> k;
            for (size_t i = 0; i < op["c"].size(); ++i) { k.push_back(op["c"][i].get<int>()); k.push_back(op["d"][i].get<int>()); }
            e["res"] = fx(rofl::evaluateFourier(k, op["x"].get<int>() * A1));
        }
        evs.push_back(e);
    }
    return json{{"cfg", c["cfg"]}, {"ev", evs}};
}
