#include "common.h"
#include <cmath>
#include <iterator>
#include <algorithm>
#include <rofl/geometry/hough_plane_detector.h>
#include <rofl/geometry/hough_line_detector.h>

using rofl::Scalar;
static long fx(double x, double s) { double y = x * s; return (std::isfinite(y) && std::fabs(y) < 1e9) ? std::lround(y) : 999999999; }
template <typename V> static json fxv(const V& v, int n, double s) { json r = json::array(); for (int i = 0; i < n; ++i) r.push_back(fx(v(i), s)); return r; }
// coordinate i of a point; a point may carry an exponent after its N coordinates: far away
template <int N> static double coN(const json& p, int i, double u) { return std::ldexp(p[i].get<int>() * u, (int) p.size() > N ? p[N].get<int>() : 0); }
static const double A1 = M_PI / 180.0;

// unit: length of one specification unit
struct Plane {
    static constexpr int NA = 2;
    rofl::HoughPlaneDetector d;
    double u;
    int an[2], rn;
    bool init(const json& o) {
        u = o["u"]; an[0] = o["anum"][0]; an[1] = o["anum"][1]; rn = o["rnum"];
        std::string via = o["via"];
        double rs = o["rstep"].get<int>() * u, rm = o["rmin"].get<int>() * u;
        if (via == "ctor") d = rofl::HoughPlaneDetector(an[0], an[1], rn, (Scalar) rs);
        else if (via == "default") d.init(an[0], an[1], rn, (Scalar) rs);
        else {
            rofl::Vector3 mn, st;
            mn << (Scalar)(A1 * o["amin"][0].get<int>()), (Scalar)(A1 * o["amin"][1].get<int>()), (Scalar) rm;
            st << (Scalar)(A1 * o["astep"][0].get<int>()), (Scalar)(A1 * o["astep"][1].get<int>()), (Scalar) rs;
            d.init({an[0], an[1], rn}, mn, st);
        }
        auto near = [](double a, double b) { return std::fabs(a - b) <= 1e-5 * (1.0 + std::fabs(b)); };
        return d.getThetaNum() == an[0] && d.getPhiNum() == an[1] && d.getRhoNum() == rn
            && near(d.getThetaMin(), A1 * o["amin"][0].get<int>()) && near(d.getPhiMin(), A1 * o["amin"][1].get<int>()) && near(d.getRhoMin(), rm)
            && near(d.getThetaRes(), A1 * o["astep"][0].get<int>()) && near(d.getPhiRes(), A1 * o["astep"][1].get<int>()) && near(d.getRhoRes(), rs);
    }
    void insert(const json& o) {
        if (o["via"] == "it") {
            std::vector<json> ps(o["pts"].begin(), o["pts"].end());
            if (o.contains("far")) ps.insert(ps.begin(), o["far"].begin(), o["far"].end());
            double uu = u;
            d.insert(ps.begin(), ps.end(), [uu](const json& p) -> rofl::Vector3 { return rofl::Vector3(coN<3>(p, 0, uu), coN<3>(p, 1, uu), coN<3>(p, 2, uu)); });
        } else {
            rofl::VectorVector3 ps;
            for (auto& p : o["pts"]) ps.push_back(rofl::Vector3(coN<3>(p, 0, u), coN<3>(p, 1, u), coN<3>(p, 2, u)));
            if (o.contains("far")) for (auto& p : o["far"]) ps.push_back(rofl::Vector3(coN<3>(p, 0, u), coN<3>(p, 1, u), coN<3>(p, 2, u)));
            d.insert(ps);
        }
    }
    void window(const json& o) {
        double fr = o.value("f", 5) / 10.0;       // rounded up to whole cells
        if (o["via"] == "int") d.setPeakWindow(o["w"][0].get<int>(), o["w"][1].get<int>(), o["r"].get<int>());
        else d.setPeakWindow((Scalar)((o["w"][0].get<int>() - fr) * d.getThetaRes()), (Scalar)((o["w"][1].get<int>() - fr) * d.getPhiRes()), (Scalar)((o["r"].get<int>() - fr) * d.getRhoRes()));
    }
    json dump(json e) {
        json ht = json::array(), hs = json::array(), nor = json::array();
        for (int p = 0; p < an[1]; ++p) for (int t = 0; t < an[0]; ++t) {
            json row = json::array();
            for (int r = 0; r < rn; ++r) {
                size_t a = d.getHoughTransform(t, p, r), b = d.getHoughTransform({t, p, r});
                row.push_back(a == b && a < 1000000 ? (long) a : -7);
            }
            ht.push_back(row);
            size_t a = d.getHoughSpectrum(t, p), b = d.getHoughSpectrum({t, p});
            hs.push_back(a == b && a < 1000000000 ? (long) a : -7);
            nor.push_back(fxv(d.getNormal(t, p), 3, 32768));
            if ((d.getNormal(t, p) - d.getNormal({t, p})).norm() != 0) nor.back()[0] = 999999;
        }
        e["ht"] = ht; e["hs"] = hs; e["nor"] = nor;
        return e;
    }
    rofl::VectorVector3 oldNormals;
    std::vector<rofl::HoughPlaneDetector::Indices3> oldIndices;
    rofl::HoughPlaneDetector::VectorPlaneParam oldParams;
    json par(const rofl::Vector4& p) { json r = fxv(p, 3, 32768); r.push_back(fx(p(3), 16 / u)); return r; }
    json query(json e) {
        std::string o = e["op"];
        json res = json::array(), pr = json::array();
        if (o == "specmax") {
            std::vector<rofl::HoughPlaneDetector::Indices2> m; d.findSpectrumMax(m);
            for (auto& x : m) res.push_back({x[0], x[1]});
        } else if (o == "normals") {
            auto& n = oldNormals; d.findNormalMax(n);      // replaces the results of earlier calls
            for (auto& x : n) res.push_back(fxv(x, 3, 32768));
        } else if (o == "parallel" || o == "planes") {
            std::vector<rofl::HoughPlaneDetector::Indices3> fresh;
            auto& m = o == "planes" ? fresh : oldIndices; auto& pp = oldParams;      // replace the results of earlier calls
            if (o == "planes") { d.findPlanes(m); d.findPlanes(pp); }
            else { d.findParallelPlanes(e["t"][0].get<int>(), e["t"][1].get<int>(), m); d.findParallelPlanes(e["t"][0].get<int>(), e["t"][1].get<int>(), pp); }
            for (auto& x : m) res.push_back({x[0], x[1], x[2]});
            for (auto& x : pp) pr.push_back(par(x));
            e["par"] = pr;
        } else if (o == "cell") {
            int a = e["c"][0], b = e["c"][1], c = e["c"][2];
            e["par"] = par(d.getPlaneParam(a, b, c));
            e["par2"] = par(d.getPlaneParam({a, b, c}));
        }
        e["res"] = res;
        return e;
    }
    void zero() { d.setZero(); }
};
struct Line {
    static constexpr int NA = 1;
    rofl::HoughLineDetector::VectorLineParam oldParams;
    rofl::HoughLineDetector d;
    double u;
    int an, rn;
    bool init(const json& o) {
        u = o["u"]; an = o["anum"][0]; rn = o["rnum"];
        std::string via = o["via"];
        double rs = o["rstep"].get<int>() * u, rm = o["rmin"].get<int>() * u;
        if (via == "ctor") d = rofl::HoughLineDetector(an, rn, (Scalar) rs);
        else if (via == "default") d.init(an, rn, (Scalar) rs);
        else {
            rofl::Vector2 mn, st;
            mn << (Scalar)(A1 * o["amin"][0].get<int>()), (Scalar) rm;
            st << (Scalar)(A1 * o["astep"][0].get<int>()), (Scalar) rs;
            d.init({an, rn}, mn, st);
        }
        auto near = [](double a, double b) { return std::fabs(a - b) <= 1e-5 * (1.0 + std::fabs(b)); };
        return d.getThetaNum() == an && d.getRhoNum() == rn && near(d.getThetaMin(), A1 * o["amin"][0].get<int>()) && near(d.getRhoMin(), rm)
            && near(d.getThetaRes(), A1 * o["astep"][0].get<int>()) && near(d.getRhoRes(), rs);
    }
    void insert(const json& o) {
        if (o["via"] == "it") {
            std::vector<json> ps(o["pts"].begin(), o["pts"].end());
            if (o.contains("far")) ps.insert(ps.begin(), o["far"].begin(), o["far"].end());
            double uu = u;
            d.insert(ps.begin(), ps.end(), [uu](const json& p) -> rofl::Vector2 { return rofl::Vector2(coN<2>(p, 0, uu), coN<2>(p, 1, uu)); });
        } else {
            rofl::VectorVector2 ps;
            for (auto& p : o["pts"]) ps.push_back(rofl::Vector2(coN<2>(p, 0, u), coN<2>(p, 1, u)));
            if (o.contains("far")) for (auto& p : o["far"]) ps.push_back(rofl::Vector2(coN<2>(p, 0, u), coN<2>(p, 1, u)));
            d.insert(ps);
        }
    }
    void window(const json& o) {
        double fr = o.value("f", 5) / 10.0;       // rounded up to whole cells
        if (o["via"] == "int") d.setPeakWindow(o["w"][0].get<int>(), o["r"].get<int>());
        else d.setPeakWindow((Scalar)((o["w"][0].get<int>() - fr) * d.getThetaRes()), (Scalar)((o["r"].get<int>() - fr) * d.getRhoRes()));
    }
    json dump(json e) {
        json ht = json::array(), hs = json::array();
        for (int t = 0; t < an; ++t) {
            json row = json::array();
            for (int r = 0; r < rn; ++r) {
                size_t a = d.getHoughTransform(t, r), b = d.getHoughTransform({t, r});
                row.push_back(a == b && a < 1000000 ? (long) a : -7);
            }
            ht.push_back(row);
            size_t a = d.getHoughSpectrum(t);
            hs.push_back(a < 1000000000 ? (long) a : -7);
        }
        e["ht"] = ht; e["hs"] = hs; e["nor"] = json::array();
        return e;
    }
    json query(json e) {
        std::string o = e["op"];
        json res = json::array(), pr = json::array();
        if (o == "specmax") {
            std::vector<rofl::HoughLineDetector::Indices1> m; d.findSpectrumIndicesMax(m);
            std::vector<int> m2; d.findSpectrumIndexMax(m2);
            for (auto& x : m) res.push_back({x[0]});
            bool same = m.size() == m2.size();
            for (size_t i = 0; same && i < m.size(); ++i) same = m[i][0] == m2[i];
            if (!same) e["op"] = "differ";
        } else if (o == "normals") {
            rofl::VectorVector2 n; d.findNormalMax(n);
            for (auto& x : n) res.push_back(fxv(x, 2, 32768));
        } else if (o == "angles") {
            std::vector<Scalar> n; d.findSpectrumAngleMax(n);
            for (auto& x : n) res.push_back(fx(x, 100 / A1));
        } else if (o == "lines") {
            std::vector<rofl::HoughLineDetector::Indices2> m; auto& pp = oldParams;      // replaces the results of earlier calls
            d.findLines(m); d.findLines(pp);
            for (auto& x : m) res.push_back({x[0], x[1]});
            for (auto& x : pp) { json r = fxv(x, 2, 32768); r.push_back(fx(x(2), 16 / u)); pr.push_back(r); }
            e["par"] = pr;
        }
        e["res"] = res;
        return e;
    }
    void zero() { d.setZero(); }
};
template <typename D> json play(const json& c) {
    D d;
    json evs = json::array();
    for (auto& op : c["ops"]) {
        json e = op;
        std::string o = op["op"];
        if (o == "init") e["get"] = d.init(op);
        else if (o == "zero") d.zero();
        else if (o == "insert") d.insert(op);
        else if (o == "window") d.window(op);
        else if (o == "dump") e = d.dump(e);
        else e = d.query(e);
        e.erase("u");
        evs.push_back(e);
    }
    return json{{"cfg", c["cfg"]}, {"ev", evs}};
}
json runCase(const json& c) { return c["cfg"]["na"].get<int>() == 2 ? play<Plane>(c) : play<Line>(c); }
