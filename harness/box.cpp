#include "common.h"
json box2f(const json& c); json box2d(const json& c); json box3f(const json& c); json box3d(const json& c);
json runCase(const json& c) {
    int d = c["cfg"]["dim"], f = c["cfg"]["f"];
    if (d == 2) return f ? box2f(c) : box2d(c);
    return f ? box3f(c) : box3d(c);
}
