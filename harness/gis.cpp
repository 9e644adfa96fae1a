#include "common.h"
#include <cmath>
#include <rofl/geometry/gis.h>
using rofl::Scalar;
static long fx(double x, double s) { double y = x * s; return (std::isfinite(y) && std::fabs(y) < 1e8) ? std::lround(y) : 99999999; }

json runCase(const json& c) {
    json evs = json::array();
    for (auto& op : c["ops"]) {
        json e = op;
        std::string o = op["op"];
        Scalar k = op["k"].get<int>() / (Scalar) 4;      // quarters of a degree
        if (o == "per") { e["lat"] = fx(rofl::meterPerDegLat(k), 10); e["lon"] = fx(rofl::meterPerDegLon(k), 10); }
        else if (o == "ecef") {
            Scalar x, y, z;
            rofl::convertLatLonAltToECEF(k, op["m"].get<int>() / (Scalar) 4, (Scalar) op["alt"].get<int>(), x, y, z);
            e["x"] = fx(x, 1); e["y"] = fx(y, 1); e["z"] = fx(z, 1);
        } else {
            Scalar m = op["m"].get<int>() / (Scalar) 4;
            if (o == "ll") {
                Scalar lat, lon;
                rofl::convertLocalXYToLatLon(k, m, (Scalar) op["x"].get<int>(), (Scalar) op["y"].get<int>(), lat, lon);
                e["dlat"] = fx((double) lat - k, 1e5); e["dlon"] = fx((double) lon - m, 1e5);
            } else {
                Scalar lat = k + op["nlat"].get<int>() / (Scalar) 64, lon = m + op["nlon"].get<int>() / (Scalar) 64, x, y;
                rofl::convertLatLonToLocalXY(k, m, lat, lon, x, y);
                if (o == "xy") { e["x"] = fx(x, 10); e["y"] = fx(y, 10); }
                else {
                    Scalar lat2, lon2;
                    rofl::convertLocalXYToLatLon(k, m, x, y, lat2, lon2);
                    e["dlat"] = fx((double) lat2 - lat, 1e5); e["dlon"] = fx((double) lon2 - lon, 1e5);
                }
            }
        }
        evs.push_back(e);
    }
    return json{{"cfg", c["cfg"]}, {"ev", evs}};
}
