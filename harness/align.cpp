#include "common.h"
#include <cmath>
#include <limits>
#include <memory>
#include <pcl/point_types.h>
#include <rofl/pcl/point_cloud_plane_aligner.h>

static const double S = 16384;
static long fx(double x) { double y = x * S; return (std::isfinite(y) && std::fabs(y) < 1e8) ? std::lround(y) : 99999999; }
static void mark(pcl::PointXYZ&, int) {}
static bool marked(const pcl::PointXYZ&, int) { return true; }
static void mark(pcl::PointXYZI& p, int i) { p.intensity = i + 0.5f; }
static bool marked(const pcl::PointXYZI& p, int i) { return p.intensity == i + 0.5f; }
static void mark(pcl::PointXYZRGB& p, int i) { p.r = i; p.g = 3 * i; p.b = 7; }
static bool marked(const pcl::PointXYZRGB& p, int i) { return p.r == (uint8_t) i && p.g == (uint8_t)(3 * i) && p.b == 7; }

template <typename P> json play(const json& c) {
    using Cloud = pcl::PointCloud<P>;
    double u = c["cfg"]["u"];
    rofl::PointCloudPlaneAligner<P> a;
    a.setInputCloud(std::make_shared<Cloud>());
    Cloud out;
    json evs = json::array();
    for (auto& op : c["ops"]) {
        json e = op;
        std::string o = op["op"];
        if (o == "cloud") {
            auto cl = std::make_shared<Cloud>();
            int i = 0;
            bool dense = true;
            for (auto& q : op["c"]) {
                P p;
                float nan = std::numeric_limits<float>::quiet_NaN();
                if (q.empty()) { p.x = p.y = p.z = nan; dense = false; }
                else { p.x = q[0].get<int>() * u; p.y = q[1].get<int>() * u; p.z = q[2].get<int>() * u; }
                mark(p, i++);
                cl->push_back(p);
            }
            cl->is_dense = dense;
            a.setInputCloud(cl);
        } else if (o == "plane") {
            double s = op["s"].get<double>();
            if (op["unit"].get<bool>()) s /= op["m"].get<int>();
            rofl::Vector4 k(op["n"][0].get<int>() * s, op["n"][1].get<int>() * s, op["n"][2].get<int>() * s, op["d"].get<int>() * s * u);
            a.setPlaneCoeffs(k);
            rofl::Vector4 g = a.getPlaneCoeffs();
            e["sgn"] = g == k ? 1 : g == -k ? -1 : 0;
            if (op["d"] == 0 && g.head(3) == k.head(3)) e["sgn"] = 1;
        } else if (o == "tol") a.setPlaneTol((rofl::Scalar)(op["tol"].get<int>() / 100.0 * u));
        else if (o == "compute") {
            a.compute();
            auto M = a.getTransform().matrix();
            json R = json::array(), t = json::array();
            for (int i = 0; i < 3; ++i) {
                json r = json::array();
                for (int j = 0; j < 3; ++j) r.push_back(fx(M(i, j)));
                R.push_back(r);
                t.push_back(fx(M(i, 3) / u));
            }
            e["R"] = R; e["t"] = t;
            e["affine"] = M(3, 0) == 0 && M(3, 1) == 0 && M(3, 2) == 0 && M(3, 3) == 1;
        } else if (o == "transform") {
            Cloud fresh;
            Cloud& w = op["fresh"].get<bool>() ? fresh : out;
            a.transform(w);
            json res = json::array();
            bool ex = true;
            for (size_t i = 0; i < w.size(); ++i) {
                if (!std::isfinite(w[i].x) || !std::isfinite(w[i].y) || !std::isfinite(w[i].z)) res.push_back(json::array());
                else res.push_back({fx(w[i].x / u), fx(w[i].y / u), fx(w[i].z / u)});
                ex = ex && marked(w[i], i);
            }
            e["out"] = res; e["extra"] = ex;
        }
        evs.push_back(e);
    }
    return json{{"cfg", c["cfg"]}, {"ev", evs}};
}
json runCase(const json& c) {
    std::string t = c["cfg"]["type"];
    return t == "xyz" ? play<pcl::PointXYZ>(c) : t == "xyzi" ? play<pcl::PointXYZI>(c) : play<pcl::PointXYZRGB>(c);
}
