#include "common.h"
#include <cmath>
#include <rofl/geometry/base_geometry2.h>
double rofl_normalize(int half, double a);   // functions.h and geometry/types.h cannot be included together

using rofl::Scalar;
static const double U = 2.0 * M_PI / 24000.0;
static long fx(double x, double s) { double y = x * s; return (std::isfinite(y) && std::fabs(y) < 1e9) ? std::lround(y) : 999999999; }

json runCase(const json& c) {
    json evs = json::array();
    for (auto& op : c["ops"]) {
        json e = op;
        std::string o = op["op"];
        auto ang = [&](const char* k) { return (Scalar)(op[k].get<int>() * U); };
        if (o == "norm" || o == "norm180") {
            int via = op["via"], ulp = op["ulp"];
            double per = o == "norm180" ? M_PI : 2.0 * M_PI;
            if (via == 0) {
                Scalar a = (Scalar)(op["a"].get<int>() * U);
                int tiny = op.value("tiny", 0);
                if (tiny != 0) a += (Scalar)((tiny > 0 ? 1 : -1) * std::pow(10.0, -std::abs(tiny)));
                for (int i = 0; i < std::abs(ulp); ++i) a = std::nextafter(a, ulp > 0 ? (Scalar) 1e9 : (Scalar) -1e9);
                Scalar r = rofl::normalizeAngle2Pi(a);
                e["ge"] = r >= 0; e["lt"] = r < (Scalar) per; e["res"] = fx(r, 1 / U);
            } else {
                double a = op["a"].get<int>() * U;
                int tiny = op.value("tiny", 0);
                if (tiny != 0) a += (tiny > 0 ? 1 : -1) * std::pow(10.0, -std::abs(tiny));
                for (int i = 0; i < std::abs(ulp); ++i) a = std::nextafter(a, ulp > 0 ? 1e9 : -1e9);
                double r = rofl_normalize(o == "norm180", a);
                e["ge"] = r >= 0; e["lt"] = r < per; e["res"] = fx(r, 1 / U);
            }
        } else if (o == "inside") {
            e["res"] = rofl::insideAngleInterval(ang("a"), ang("b"), ang("e"));
            e["res2"] = rofl::insideAngleInterval(ang("a"), rofl::AngleInterval(ang("b"), ang("e")));
        } else if (o == "insideeq") e["res"] = rofl::insideAngleIntervalEq(ang("a"), ang("b"), ang("e"));
        else if (o == "ccw") {
            auto v = [&](const char* k) { return rofl::Vector2(std::ldexp((Scalar) op[k][0].get<int>(), op["sc"].get<int>()), std::ldexp((Scalar) op[k][1].get<int>(), op["sc"].get<int>())); };
            Scalar r = std::ldexp(rofl::ccw(v("p"), v("q"), v("r")), -2 * op["sc"].get<int>());
            e["res"] = r == std::floor(r) && std::fabs(r) < 1e8 ? (long) r : 999999999;
        } else {
            rofl::Transform2 t, t2;
            Scalar x = op["t"][0].get<int>(), y = op["t"][1].get<int>(), th = (Scalar)(o == "pose" ? op["k"].get<int>() * M_PI / 12.0 : op["a"].get<int>() * M_PI / 18000.0);
            rofl::poseToIsometry2(x, y, th, t);
            rofl::poseToIsometry2(rofl::Vector3(x, y, th), t2);
            rofl::Vector2 p((Scalar) op["p"][0].get<int>(), (Scalar) op["p"][1].get<int>());
            rofl::Vector2 r = t * p, r2 = t2 * p;
            const double S = o == "pose" ? 32768 : 1e6;
            e["res"] = {fx(r(0), S), fx(r(1), S)};
            e["res2"] = {fx(r2(0), S), fx(r2(1), S)};
        }
        evs.push_back(e);
    }
    return json{{"cfg", c["cfg"]}, {"ev", evs}};
}
