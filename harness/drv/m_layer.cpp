// Layer instances: created by the public layer types, executed through the CPU layer interface.
#include "common.hpp"
#include <omp.h>
#include <deepworks/deepworks.hpp>
#include <deepworks/nn.hpp>
#include "runtime/cpu/layers/cpulayer.hpp"
namespace dw = deepworks;

struct Inst {
    J c;
    std::string kind, wname, bname;
    dw::LayerInfo info;
    dw::cpu::ICPULayer::Ptr layer;
    std::vector<dw::Tensor> in, out;
    bool ln = false, al = false;
};

static std::array<int, 2> a2(const J& j) { return {(int)j[0].num(), (int)j[1].num()}; }
static float frac(const J& c, const char* n, const char* s) { return std::ldexp((float)c[n].num(), -(int)c[s].num()); }

static dw::LayerInfo make(const J& c) {
    std::string k = c["kind"].s, nm = c.str("name", "");
    dw::Shape sh(c["sh0"].ints());
    auto one = [&](auto op) { op(dw::Placeholder(sh)); return op.m_info; };
    if (k == "Linear") return one(dw::Linear((int)c["units"].num(), nm));
    if (k == "Convolution") return one(dw::Convolution((int)c["co"].num(), a2(c["k"]), a2(c["p"]), a2(c["s"]), nm));
    if (k == "MaxPooling") return one(dw::MaxPooling(a2(c["k"]), a2(c["p"]), a2(c["s"]), nm));
    if (k == "GlobalAvgPooling") return one(dw::GlobalAvgPooling(nm));
    if (k == "ReLU") return one(dw::ReLU(nm));
    if (k == "LeakyReLU") return one(dw::LeakyReLU(frac(c, "a", "as"), nm));
    if (k == "ELU") return one(dw::ELU(frac(c, "a", "as"), nm));
    if (k == "Sigmoid") return one(dw::Sigmoid(nm));
    if (k == "Softmax") return one(dw::Softmax(nm));
    if (k == "Dropout") return one(dw::Dropout((float)c["p16"].num() / 16.f, nm));
    if (k == "BatchNorm1D" && c.flag("def")) return nm.empty() ? one(dw::BatchNorm1D()) : one(dw::BatchNorm1D(1e-5f, 0.1f, nm));
    if (k == "BatchNorm2D" && c.flag("def")) return nm.empty() ? one(dw::BatchNorm2D()) : one(dw::BatchNorm2D(1e-5f, 0.1f, nm));
    if (k == "BatchNorm1D") return one(dw::BatchNorm1D((float)c["eps"].num(), (float)c["al"].num() / (float)c["ald"].num(), nm));
    if (k == "BatchNorm2D") return one(dw::BatchNorm2D((float)c["eps"].num(), (float)c["al"].num() / (float)c["ald"].num(), nm));
    if (k == "Add") { dw::Add op(nm); op(dw::Placeholder(sh), dw::Placeholder(sh)); return op.m_info; }
    _Exit(97);
}

static dw::Tensor tensor(const std::vector<int>& sh, const J* v, int S, bool ln) {
    dw::Tensor t((dw::Shape(sh)));
    for (size_t i = 0; i < t.total(); ++i)
        t.data()[i] = v ? unfx(v->a.at(i).num(), S, ln) : std::numeric_limits<float>::quiet_NaN();
    return t;
}
static std::vector<long long> dump(const dw::Tensor& t, int S, bool exact) {
    std::vector<long long> r;
    for (size_t i = 0; i < t.total(); ++i) r.push_back(fx(t.data()[i], S, exact));
    return r;
}
static std::vector<float> bits(const std::vector<dw::Tensor>& ts) {
    std::vector<float> r;
    for (auto& t : ts) r.insert(r.end(), t.data(), t.data() + t.total());
    return r;
}
static bool sameBits(const std::vector<float>& a, const std::vector<float>& b) {
    return a.size() == b.size() && (a.empty() || !memcmp(a.data(), b.data(), a.size() * sizeof(float)));
}
static void put(dw::Tensor& t, const J& v, int S) {
    if (t.total() != v.a.size()) throw std::runtime_error("parameter size");
    for (size_t i = 0; i < t.total(); ++i) t.data()[i] = unfx(v[i].num(), S, false);
}
static std::vector<int> outShape(const J& c, std::vector<int> s) {
    std::string k = c["kind"].s;
    auto d = [](int i, int kk, int p, int st) { return (i + 2 * p - kk) / st + 1; };
    if (k == "Linear") return {s[0], (int)c["units"].num()};
    if (k == "GlobalAvgPooling") return {s[0], s[1], 1, 1};
    if (k == "Convolution" || k == "MaxPooling") {
        auto K = a2(c["k"]), P = a2(c["p"]), T = a2(c["s"]);
        return {s[0], k == "MaxPooling" ? s[1] : (int)c["co"].num(), d(s[2], K[0], P[0], T[0]), d(s[3], K[1], P[1], T[1])};
    }
    return s;
}

static void run(const J& sc, const Emit& emit) {
    omp_set_num_threads((int)sc.num("threads", 2));
    std::vector<Inst> L;
    for (auto& c : sc["inst"].a) {
        Inst x;
        x.c = c; x.kind = c["kind"].s;
        x.info = make(c);
        bool bn = x.kind.substr(0, 9) == "BatchNorm";
        if (bn) { x.wname = "gamma"; x.bname = "beta"; }
        if (x.kind == "Linear" || x.kind == "Convolution") { x.wname = "weight"; x.bname = "bias"; }
        x.layer = dw::cpu::ICPULayer::create(x.info);
        x.ln = c.flag("ln");
        L.push_back(std::move(x));
    }
    for (auto& op : sc["ops"].a) {
        Inst& x = L.at(op["i"].num() - 1);
        const J& c = x.c;
        auto S = [&](const char* n) { return (int)c.num(n, 0); };
        auto& params = x.info.impl().params;
        auto& buffers = x.info.impl().buffers;
        auto everything = [&](bool grads) {
            std::vector<dw::Tensor> ts;
            for (auto& t : x.in) ts.push_back(t);
            if (!x.wname.empty())
                for (auto& n : {x.wname, x.bname}) { ts.push_back(params.at(n).data()); if (grads) ts.push_back(params.at(n).grad()); }
            return ts;
        };
        std::string k = op["op"].s;
        Out o;
        if (k == "setp") {
            int err = guarded([&] {
                if (!x.wname.empty()) { put(params.at(x.wname).data(), op["w"], S("wS")); put(params.at(x.bname).data(), op["b"], S("bS")); }
            });
            o.n("err", err);
        } else if (k == "setb") {
            int err = guarded([&] { put(buffers.at("running_mean"), op["rm"], 16); put(buffers.at("running_var"), op["rv"], 16); });
            o.n("err", err);
        } else if (k == "mode") {
            int err = guarded([&] { for (auto& p : params) p.second.train(op["t"].num() != 0); });
            o.n("err", err);
        } else if (k == "fwd") {
            auto sh = op["sh"].ints();
            x.in.clear(); x.out.clear();
            x.in.push_back(tensor(sh, &op["x"], S("xS"), x.ln));
            if (x.kind == "Add") x.in.push_back(op.flag("al") ? x.in[0] : tensor(sh, &op["x2"], S("xS"), x.ln));
            x.al = op.flag("al");
            auto osh = outShape(c, sh);
            x.out.push_back(tensor(osh, nullptr, 0, false));
            auto before = everything(true);
            auto b0 = bits(before);
            float* p0 = x.out[0].data();
            int err = guarded([&] { x.layer->forward(x.in, x.out); });
            o.n("err", err);
            if (!err) {
                o.b("same", sameBits(b0, bits(before)) && x.out[0].data() == p0);
                o.arr("osh", x.out[0].shape());
                bool bn = x.kind.substr(0, 9) == "BatchNorm";
                int yS = S("yS");
                if (bn && !params.at("gamma").is_trainable()) yS -= 8;
                o.arr("y", dump(x.out[0], yS, c.flag("ye")));
                if (x.kind == "Sigmoid" || x.kind == "Softmax") {     // magnitudes below the unit of y: log2 in 1/256
                    std::vector<long long> lg;
                    for (size_t i = 0; i < x.out[0].total(); ++i) {
                        float v = x.out[0].data()[i];
                        lg.push_back(v > 0 && std::isfinite(v) ? fx(std::log2((double)v), 8, false) : C_NAN);
                    }
                    o.arr("lg", lg);
                }
                if (bn) {
                    o.arr("rm", dump(buffers.at("running_mean"), 16, false));
                    o.arr("rv", dump(buffers.at("running_var"), 16, false));
                }
            }
        } else if (k == "bwd") {
            std::vector<dw::Tensor> go{tensor(outShape(c, x.in[0].shape()), &op["g"], S("gS"), false)}, gi;
            gi.push_back(tensor(x.in[0].shape(), &op["gi"], S("giS"), false));
            if (x.kind == "Add") gi.push_back(x.al ? gi[0] : tensor(x.in[0].shape(), &op["gi2"], S("giS"), false));
            if (!x.wname.empty())                        // parameter gradients are overwritten, whatever was there
                for (auto& n : {x.wname, x.bname}) dw::initializer::constant(params.at(n).grad(), std::numeric_limits<float>::quiet_NaN());
            auto keep = everything(false);
            keep.push_back(go[0]); keep.push_back(x.out[0]);
            for (auto& b : buffers) keep.push_back(b.second);
            auto b0 = bits(keep);
            int err = guarded([&] {
                x.layer->updateGradients(x.in, go);
                x.layer->backward(x.in, x.out, go, gi);
            });
            o.n("err", err);
            if (!err) {
                o.b("same", sameBits(b0, bits(keep)));
                o.arr("dx", dump(gi[0], S("dxS"), c.flag("dxe")));
                if (x.kind == "Add") o.arr("dx2", dump(gi[1], S("dxS"), c.flag("dxe")));
                std::vector<long long> none;
                if (x.wname.empty()) o.arr("dw", none).arr("db", none);
                else {
                    o.arr("dw", dump(params.at(x.wname).grad(), S("dwS"), c.flag("dwe")));
                    o.arr("db", dump(params.at(x.bname).grad(), S("dbS"), true));
                }
            }
        } else if (k == "rej") {
            int err;
            if (op["how"].s == "fwd") {
                std::vector<dw::Tensor> in{dw::Tensor::constant(dw::Shape(op["sh"].ints()), 1.f)};
                std::vector<dw::Tensor> out{dw::Tensor::constant(dw::Shape(op["osh"].ints()), 1.f)};
                err = guarded([&] { x.layer->forward(in, out); });
            } else if (op["how"].s == "half") {          // gamma and beta in different modes
                params.at("gamma").train(false);
                std::vector<dw::Tensor> in{dw::Tensor::constant(dw::Shape(op["sh"].ints()), 1.f)};
                std::vector<dw::Tensor> out{dw::Tensor::constant(dw::Shape(op["osh"].ints()), 1.f)};
                err = guarded([&] { x.layer->forward(in, out); });
                params.at("gamma").train(true);
            } else {
                std::vector<dw::Tensor> gi{dw::Tensor::zeros(dw::Shape(op["sh"].ints()))};
                std::vector<dw::Tensor> in{dw::Tensor::zeros(dw::Shape(op["sh"].ints()))};
                std::vector<dw::Tensor> go{dw::Tensor::zeros(dw::Shape(op["osh"].ints()))};
                err = guarded([&] { x.layer->backward(in, go, go, gi); });
            }
            o.n("err", err);
        } else _Exit(97);
        emit(o.end());
    }
}
int main(int argc, char** argv) { return driver_main(argc, argv, {{"layer", run}}); }
