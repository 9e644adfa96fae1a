// one translation unit per instantiation: Eigen's SVD is slow to compile
#pragma once
#include <nlohmann/json.hpp>
using json = nlohmann::json;
#include <cmath>
#include <rofl/geometry/box_registration.h>

static long fx(double x, double s) { double y = x * s; return (std::isfinite(y) && std::fabs(y) < 1e6) ? std::lround(y) : 999999; }
static const double W = 1000;

template <typename S, int D> json boxCase(const json& c) {
    using Box = rofl::BoxRegistration<S, D>;
    using P = typename Box::Point;
    using T = typename Box::Transform;
    const double sc = c["cfg"]["s"];           // all lengths are multiplied by this (a power of two)
    json evs = json::array();
    Box box;
    auto pt = [&](const json& v) { P p; for (int d = 0; d < D; ++d) p(d) = (S) (v[d].get<int>() * sc); return p; };
    auto out = [&](const P& p) { json r = json::array(); for (int d = 0; d < D; ++d) { double x = (double) p(d) / sc; r.push_back(x == std::floor(x) && std::fabs(x) < 1e6 ? (long) x : 999999L); } return r; };
    auto cloud = [&](const json& v) { typename Box::VectorPoint pts; for (auto& q : v) pts.push_back(pt(q)); return pts; };
    auto mat = [&](json& e, const T& t) {
        json R = json::array(), tr = json::array();
        for (int i = 0; i < D; ++i) {
            json row = json::array();
            for (int j = 0; j < D; ++j) row.push_back(fx(t.linear()(i, j), W));
            R.push_back(row); tr.push_back(fx(t.translation()(i) / sc, W));
        }
        e["R"] = R; e["t"] = tr;
        bool aff = t.matrix()(D, D) == 1;
        for (int j = 0; j < D; ++j) aff = aff && t.matrix()(D, j) == 0;
        e["affine"] = aff;
    };
    for (auto& op : c["ops"]) {
        json e = op;
        std::string o = op["op"];
        if (o == "dim") { P p = pt(op["hs"]); box.setDimension(p * (S) 2); }
        else if (o == "near") {
            P r = P::Constant((S) 77);
            box.associate(pt(op["q"]), r);
            e["res"] = out(r);
        } else if (o == "fit") {
            T t0 = T::Identity();
            for (int i = 0; i < D; ++i) for (int j = 0; j < D; ++j) t0.linear()(i, j) = (S) (op["r0"][i][j].get<int>() / (double) op["k"].get<int>());
            t0.translation() = pt(op["t0"]);
            auto pts = cloud(op["c"]);
            json m = json::array();
            for (auto& p : op["c"]) {      // the same point in the frame of the box, exactly
                json q = json::array();
                for (int j = 0; j < D; ++j) {
                    int v = 0;
                    for (int i = 0; i < D; ++i) v += op["r0"][i][j].get<int>() * (p[i].get<int>() - op["t0"][i].get<int>());
                    q.push_back(v / op["k"].get<int>());
                }
                P r;
                box.associate(pt(q), r);
                m.push_back(out(r));
            }
            e["m"] = m;
            T t = t0;
            box.computeTransform(pts, t);
            mat(e, t);
        } else {
            T t;
            t.matrix().setConstant((S) 5);
            box.estimateInitTranform(cloud(op["c"]), t);
            mat(e, t);
            e["identity"] = t.matrix().isIdentity();
        }
        evs.push_back(e);
    }
    return json{{"cfg", c["cfg"]}, {"ev", evs}};
}

