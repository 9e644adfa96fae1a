// Requests inside and outside their domain (C34).  Every history runs in a forked child; the
// child reports after each answered request, so that the parent knows which one ended it.
#include "common.h"
#include <sys/wait.h>
#include <functional>
#include <memory>
#include <limits>
#include <rofl/common/interval_indices.h>
#include <rofl/common/min_max_heap.h>
#include <rofl/common/peak_finder_d.h>
#include <rofl/common/tls_scalar_consensus.h>
#include <rofl/geometry/hough_line_detector.h>
#include <rofl/geometry/hough_plane_detector.h>

static std::streambuf* const cerrBuf = std::cerr.rdbuf();      // before the driver silences it
static volatile double sink;
struct GuardLut;                    // guard_lut.cpp: functions.h and the geometry headers cannot be included together
GuardLut* lutNew();
void lutInit(GuardLut*, int);
double lutEval(GuardLut*, int, double);

template <size_t D> struct Play {
    rofl::MinMaxHeap<int, std::less<int>> heap{std::less<int>()};
    GuardLut* lut = lutNew();
    rofl::HoughPlaneDetector pl;
    rofl::HoughLineDetector ln;
    rofl::PeakFinderD<2, int, int, std::greater<int>> pf;
    int serial = 0;
    int at(const json& o, int k) { return o["i"][k].get<int>(); }
    void request(const json& o) {
        std::string op = o["op"];
        int v = o.value("v", 0);
        if (op == "push") heap.push((++serial * 7) % 5);
        else if (op == "heap") heap = rofl::MinMaxHeap<int, std::less<int>>(std::less<int>());
        else if (op == "top") sink = heap.top();
        else if (op == "bottom") sink = heap.bottom();
        else if (op == "nextTop") sink = heap.nextTop();
        else if (op == "nextBottom") sink = heap.nextBottom();
        else if (op == "popTop") heap.popTop();
        else if (op == "popBottom") heap.popBottom();
        else if (op == "lut") lutInit(lut, o["k"].get<int>());
        else if (op == "eval") sink = lutEval(lut, o["k"].get<int>(), 0.5 + v);
        else if (op == "plane") pl.init(at(o, 0), at(o, 1), at(o, 2), 1.0);
        else if (op == "ht3") sink = v ? pl.getHoughTransform({at(o, 0), at(o, 1), at(o, 2)}) : pl.getHoughTransform(at(o, 0), at(o, 1), at(o, 2));
        else if (op == "par3") sink = v ? pl.getPlaneParam({at(o, 0), at(o, 1), at(o, 2)})(0) : pl.getPlaneParam(at(o, 0), at(o, 1), at(o, 2))(0);
        else if (op == "hs3") sink = v ? pl.getHoughSpectrum({at(o, 0), at(o, 1)}) : pl.getHoughSpectrum(at(o, 0), at(o, 1));
        else if (op == "nor3") sink = v ? pl.getNormal({at(o, 0), at(o, 1)})(0) : pl.getNormal(at(o, 0), at(o, 1))(0);
        else if (op == "line") ln.init(at(o, 0), at(o, 1), 1.0);
        else if (op == "ht2") sink = v ? ln.getHoughTransform({at(o, 0), at(o, 1)}) : ln.getHoughTransform(at(o, 0), at(o, 1));
        else if (op == "hs2") sink = ln.getHoughSpectrum(at(o, 0));
        else if (op == "stacked" || op == "translate") {
            typename rofl::IntervalIndices<D, int>::Indices mn, sz;
            mn.fill(-1); sz.fill(3);
            rofl::IntervalIndices<D, int> iv; iv.initBounds(mn, sz);
            if (op == "stacked") sink = iv.stacked((size_t) o["k"].get<int>(), v ? -2 : 1).size();
            else { iv.translate((size_t) o["k"].get<int>(), v ? -2 : 1); sink = iv.min()[0]; }
        } else if (op == "iter") {
            rofl::IntervalIndices<D, int> iv;
            typename rofl::IntervalIndices<D, int>::Indices sz; sz.fill(2); iv.initBounds(sz, sz);
            if (v) sink = (*rofl::detail::BoustrophedonIterator<D, int>(o["null"].get<bool>() ? nullptr : &iv, 0))[0];
            else sink = (*rofl::detail::RasterIterator<D, int>(o["null"].get<bool>() ? nullptr : &iv, 0))[0];
        } else if (op == "domain") { if (v) pf.setDomain({0, 0}, {at(o, 0) - 1, at(o, 1) - 1}); else pf.setDomain({at(o, 0), at(o, 1)}); pf.setPeakWindow({1, 1}); }
        else if (op == "detect") {
            std::vector<rofl::PeakFinderD<2, int, int, std::greater<int>>::Indices> m;
            pf.detect([](const auto& i) -> int { return i[0] * 3 - i[1] * i[1]; }, std::back_inserter(m));
            sink = m.size();
        } else if (op == "assert") {
            // the condition is one expression of lower precedence than !
            int a = o["a"], b = o["b"], n = o["n"];
            if (n == 0) ROFL_ASSERT(a == 1 || b == 1)
            if (n == 1) ROFL_ASSERT_VAR1(a == 1 || b == 1, a)
            if (n == 2) ROFL_ASSERT_VAR2(a == 1 || b == 1, a, b)
            if (n == 3) ROFL_ASSERT_VAR3(a == 1 || b == 1, a, b, n)
            if (n == 4) ROFL_ASSERT_VAR4(a == 1 || b == 1, a, b, n, v)
            if (n == 5) ROFL_ASSERT_VAR5(a == 1 || b == 1, a, b, n, v, a + b)
        } else if (op == "tls") {
            std::vector<double> x, r; double e; std::vector<bool> in;
            for (int i = 0; i < o["n"].get<int>(); ++i) x.push_back(i);
            for (int i = 0; i < o["m"].get<int>(); ++i) r.push_back(1 + i % 2);
            rofl::estimateTranslationTls<double>(x, r, e, in);
            sink = e;
        }
    }
};
template <size_t D> void child(const json& c, int fd) {
    Play<D> p;
    for (auto& op : c["ops"]) { p.request(op); if (write(fd, "r", 1) != 1) _exit(70); }
}
json runCase(const json& c) {
    int pr[2], pe[2];
    if (pipe(pr) || pipe(pe)) _exit(97);
    pid_t pid = fork();
    if (pid == 0) {
        struct itimerval tv = {{0, 0}, {20, 0}};
        setitimer(ITIMER_PROF, &tv, nullptr);
        close(pr[0]); close(pe[0]); dup2(pe[1], 2);
        std::cerr.rdbuf(cerrBuf);
        c["cfg"]["dim"] == 1 ? child<1>(c, pr[1]) : c["cfg"]["dim"] == 2 ? child<2>(c, pr[1]) : child<4>(c, pr[1]);
        _exit(71);
    }
    close(pr[1]); close(pe[1]);
    auto drain = [](int fd) { std::string s; char b[512]; ssize_t n; while ((n = read(fd, b, sizeof b)) > 0) if (s.size() < 4096) s.append(b, n); close(fd); return s; };
    // the library writes one short message at most: no risk of a full pipe
    size_t done = drain(pr[0]).size();
    std::string msg = drain(pe[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    json evs = json::array();
    size_t k = 0;
    for (auto& op : c["ops"]) {
        json e = op;
        bool ret = k < done;
        e["ret"] = ret;
        if (ret) e["how"] = "answered";
        else {
            bool fail = WIFEXITED(st) ? (WEXITSTATUS(st) != 0 && WEXITSTATUS(st) != 71 && WEXITSTATUS(st) != 70 && WEXITSTATUS(st) != 98 && WEXITSTATUS(st) != 99) : false;
            e["how"] = fail && !msg.empty() ? "refused" : fail ? "silent" : "crashed";
            e["status"] = st;
        }
        evs.push_back(e);
        ++k;
        if (!ret) break;
    }
    return json{{"cfg", c["cfg"]}, {"ev", evs}};
}
