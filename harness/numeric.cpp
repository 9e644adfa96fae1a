#include "common.h"
#include <cmath>
#include <rofl/common/functions.h>

static long fx(double x, double s) { double y = x * s; return (std::isfinite(y) && std::fabs(y) < 1e9) ? std::lround(y) : 999999999; }
static double rad(const json& a) { return a.get<int>() * (M_PI / 18000.0); }
static const double U = 1e5;

json runCase(const json& c) {
    json evs = json::array();
    const double x = c["cfg"]["xn"].get<int>() / (double) c["cfg"]["xd"].get<int>();
    rofl::PnebiLUT lut;
    for (auto& op : c["ops"]) {
        json e = op;
        std::string o = op["op"];
        bool f = op.value("f", 0);
        double xs = op.value("neg", 0) ? -x : x;
        if (o == "cs") {
            double a = (double) (2.0L * 3.14159265358979323846264338327950288L * (long double) op.value("turns", 0.0) + op["a"].get<int>() * (3.14159265358979323846264338327950288L / 18000));
            if (f) { float cc, ss; rofl::fastCosSinf((float) a, cc, ss); e["c"] = fx(cc, 1e6); e["s"] = fx(ss, 1e6); }
            else { double cc, ss; rofl::fastCosSin(a, cc, ss); e["c"] = fx(cc, 1e6); e["s"] = fx(ss, 1e6); }
        } else if (o == "at2") {
            int a = op["a"];
            double r = op["r"], px, py;
            int m = ((a % 36000) + 36000) % 36000;
            if (m % 4500 == 0) {     // exact points on the axes and the diagonals
                static const int X[] = {1, 1, 0, -1, -1, -1, 0, 1}, Y[] = {0, 1, 1, 1, 0, -1, -1, -1};
                px = X[m / 4500] * r; py = Y[m / 4500] * r;
                if (py == 0 && op.value("nz", 0)) py = -0.0;
            } else { px = r * std::cos(rad(op["a"])); py = r * std::sin(rad(op["a"])); }
            e["th"] = fx(f ? rofl::fastAtan2f((float) px, (float) py) : rofl::fastAtan2(px, py), 1e6);
        } else if (o == "at0") {
            double px = op["sx"].get<int>() * 0.0, py = op["sy"].get<int>() * 0.0;
            e["th"] = fx(f ? rofl::fastAtan2f((float) px, (float) py) : rofl::fastAtan2(px, py), 1e6);
        } else if (o == "atan") {
            double t = std::tan(rad(op["a"]));
            e["th"] = fx(f ? rofl::fastAtanf((float) t) : rofl::fastAtan(t), 1e6);
        } else if (o == "vec") {
            int n = op["n"];
            std::vector<double> p(op["size"].get<int>(), 12345.0);
            rofl::evaluatePnebiVector(n, xs, p);
            json v = json::array();
            for (int k = 0; k <= n && k < (int) p.size(); ++k) v.push_back(fx(p[k], U));
            e["p"] = v;
        } else if (o == "p0") e["p"] = fx(rofl::evaluatePnebi0Polynom(xs), U);
        else if (o == "far") {          // 10^e: all values are 0 at the resolution of the recording
            double xf = std::pow(10.0, op["e"].get<int>()) * (op["neg"].get<int>() ? -1 : 1);
            std::vector<double> y, p;
            lut.eval(xf, y);
            json v = json::array(), q = json::array(), w = json::array();
            for (double t : y) v.push_back(fx(t, U));
            for (int k = 0; k <= op["order"].get<int>(); ++k) q.push_back(fx(lut.eval(k, xf), U));
            rofl::evaluatePnebiVector(op["n"].get<int>(), xf, p);
            for (double t : p) w.push_back(fx(t, U));
            e["p"] = v; e["q"] = q; e["w"] = w;
        } else if (o == "init") {
            if (op["how"] == 0) lut.init(op["n"], op["tol"].get<int>() / U);
            else lut = rofl::PnebiLUT(op["n"].get<int>(), op["tol"].get<int>() / U);
            e["order"] = lut.getOrderMax();
        } else if (o == "eval") e["p"] = fx(lut.eval(op["k"].get<int>(), xs), U);
        else {
            std::vector<double> y;
            for (auto& v : op["old"]) y.push_back(v.get<int>() / U);
            lut.eval(xs, y);
            json v = json::array(), q = json::array();
            for (double t : y) v.push_back(fx(t, U));
            for (int k = 0; k <= op["order"].get<int>(); ++k) q.push_back(fx(lut.eval(k, xs), U));
            e["p"] = v; e["q"] = q;
        }
        evs.push_back(e);
    }
    return json{{"cfg", c["cfg"]}, {"ev", evs}};
}
