// Losses, metrics, layout conversion and initializers, through the public API.
#include "common.hpp"
#include <deque>
#include <deepworks/deepworks.hpp>
#include <deepworks/initializers.hpp>
#include <deepworks/loss.hpp>
#include <deepworks/metrics.hpp>
#include <deepworks/utils/utils.hpp>
namespace dw = deepworks;

// a tensor over driver-owned memory with guard cells around it
struct G {
    std::vector<float> mem;
    dw::Tensor t;
    size_t n = 0;
    static constexpr size_t PAD = 8;
    static float guard(size_t i) { return -12345.f - (float)i; }
    void make(const dw::Shape& sh) {
        n = 1;
        for (int d : sh) n *= (size_t)d;
        mem.assign(n + 2 * PAD, 0.f);
        for (size_t i = 0; i < PAD; ++i) { mem[i] = guard(i); mem[n + PAD + i] = guard(i); }
        t = dw::Tensor(sh, mem.data() + PAD);
    }
    float* p() { return mem.data() + PAD; }
    bool guards() const {
        for (size_t i = 0; i < PAD && !mem.empty(); ++i)
            if (mem[i] != guard(i) || mem[n + PAD + i] != guard(i)) return false;
        return true;
    }
};
static bool same_bits(const std::vector<float>& a, const std::vector<float>& b) {
    return a.size() == b.size() && (a.empty() || !memcmp(a.data(), b.data(), a.size() * sizeof(float)));
}

static void run_eval(const J& sc, const Emit& emit) {
    std::deque<dw::loss::CrossEntropyLoss> L((size_t)sc["nl"].num());
    G P, Y, Gr;
    P.make({1, 1}); Y.make({1, 1}); Gr.make({1, 1});
    for (auto& op : sc["ops"].a) {
        std::string k = op["op"].s;
        if (k == "setp") {
            P.make(dw::Shape(op["sh"].ints()));
            for (size_t i = 0; i < P.n; ++i) {
                long long v = op["v"][i].num();
                P.p()[i] = op["dom"].s == "int" ? (float)v : v >= 200 ? 0.f : std::ldexp(1.f, (int)-v);
            }
            emit(Out().n("err", 0).end());
            continue;
        }
        if (k == "sety" || k == "setg") {
            G& t = k == "sety" ? Y : Gr;
            t.make(dw::Shape(op["sh"].ints()));
            for (size_t i = 0; i < t.n; ++i) t.p()[i] = (float)op["v"][i].num();
            emit(Out().n("err", 0).end());
            continue;
        }
        auto p0 = P.mem, y0 = Y.mem, g0 = Gr.mem;
        float val = 0;
        int err = guarded([&] {
            if (k == "fwd") val = L.at(op["i"].num() - 1).forward(P.t, Y.t);
            else if (k == "bwd") L.at(op["i"].num() - 1).backward(P.t, Y.t, Gr.t);
            else if (k == "acc") val = dw::metric::accuracy(P.t, Y.t);
            else if (k == "oneh") val = dw::metric::accuracyOneHot(P.t, Y.t);
            else _Exit(97);
        });
        Out o;
        o.n("err", err).b("same", same_bits(p0, P.mem) && same_bits(y0, Y.mem)).b("gsame", same_bits(g0, Gr.mem));
        o.b("guards", P.guards() && Y.guards() && Gr.guards());
        if (err) { emit(o.end()); continue; }
        if (k == "fwd") o.n("v", fx(val / 0.69314718055994530942, 16, false));
        else if (k == "bwd") {
            std::vector<long long> g;
            for (size_t i = 0; i < Gr.n; ++i) g.push_back(fx(Gr.p()[i], (int)op["gs"].num(), false));
            o.arr("g", g);
        } else o.n("v", fx(val, 16, false));
        emit(o.end());
    }
}

static void run_layout(const J& sc, const Emit& emit) {
    G X;
    X.make({1, 1, 1, 1});
    for (auto& op : sc["ops"].a) {
        std::string k = op["op"].s;
        if (k == "set") {
            X.make(dw::Shape(op["sh"].ints()));
            for (size_t i = 0; i < X.n; ++i) X.p()[i] = (float)op["v"][i].num();
            emit(Out().n("err", 0).end());
            continue;
        }
        auto s = X.t.shape();
        G Y;
        if (k == "nhwc") Y.make({s[0], s[2], s[3], s[1]}); else Y.make({s[0], s[3], s[1], s[2]});
        auto x0 = X.mem;
        for (size_t i = 0; i < Y.n; ++i) Y.p()[i] = std::numeric_limits<float>::quiet_NaN();
        int err = guarded([&] {
            if (k == "nhwc") dw::utils::NCHW2NHWC(X.t, Y.t); else dw::utils::NHWC2NCHW(X.t, Y.t);
        });
        std::vector<long long> v;
        for (size_t i = 0; i < Y.n; ++i) v.push_back(fx(Y.p()[i], 0, true));
        bool same = same_bits(x0, X.mem), g = X.guards() && Y.guards();
        emit(Out().n("err", err).b("same", same).b("guards", g).arr("v", v).end());
        X = Y;
        X.t = dw::Tensor(Y.t.shape(), X.p());
    }
}

static void run_init(const J& sc, const Emit& emit) {
    for (auto& op : sc["ops"].a) {
        std::string how = op["how"].s;
        dw::Shape sh(op["sh"].ints());
        float a = (float)op["a"].num() / 16.f, b = (float)op["b"].num() / 16.f;
        G g;
        dw::Tensor t, alias;
        int err = guarded([&] {
            if (op["api"].s == "factory") {
                t = how == "zeros" ? dw::Tensor::zeros(sh) : how == "constant" ? dw::Tensor::constant(sh, a)
                  : how == "xavier" ? dw::Tensor::xavierUniform(sh)
                  : op.flag("def") ? dw::Tensor::uniform(sh) : dw::Tensor::uniform(sh, a, b);
                alias = t;
            } else {
                if (op["api"].s == "view") { g.make(sh); t = g.t; } else t = dw::Tensor(sh);
                for (size_t i = 0; i < t.total(); ++i) t.data()[i] = std::numeric_limits<float>::quiet_NaN();
                alias = t;
                if (how == "zeros") dw::initializer::zeros(t);
                else if (how == "constant") dw::initializer::constant(t, a);
                else if (how == "xavier") dw::initializer::xavierUniform(t);
                else if (op.flag("def")) dw::initializer::uniform(t);
                else dw::initializer::uniform(t, a, b);
            }
        });
        std::vector<long long> v;
        bool shok = false;
        if (!err) {
            shok = t.shape() == sh && alias.data() == t.data() && alias.shape() == sh;
            for (size_t i = 0; i < t.total(); ++i) v.push_back(fx(alias.data()[i], how == "xavier" ? 20 : 16, how == "zeros" || how == "constant"));
        }
        emit(Out().n("err", err).b("shok", shok).b("guards", g.guards()).arr("v", v).end());
    }
}

int main(int argc, char** argv) {
    return driver_main(argc, argv, {{"eval", run_eval}, {"layout", run_layout}, {"init", run_init}});
}
