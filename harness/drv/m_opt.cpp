// Optimizers over shared parameters, through the public API.
#include "common.hpp"
#include <deque>
#include <deepworks/deepworks.hpp>
#include <deepworks/optimizer.hpp>
#include <deepworks/initializers.hpp>
namespace dw = deepworks;

struct Opt {
    std::unique_ptr<dw::optimizer::SGD> sgd;
    std::unique_ptr<dw::optimizer::SGDMomentum> mom;
    std::unique_ptr<dw::optimizer::Adam> adam;
    void step() { if (sgd) sgd->step(); else if (mom) mom->step(); else adam->step(); }
    void set_lr(float v) { if (sgd) sgd->set_lr(v); else if (mom) mom->set_lr(v); else adam->set_lr(v); }
    float get_lr() const { return sgd ? sgd->get_lr() : mom ? mom->get_lr() : adam->get_lr(); }
};

static void run(const J& sc, const Emit& emit) {
    std::map<std::string, dw::Parameter> P;
    for (auto& p : sc["P"].a) {
        dw::Tensor t(dw::Shape(p["sh"].ints()));
        for (size_t i = 0; i < t.total(); ++i) t.data()[i] = (float)p["w"][i].num();
        P.emplace(p["p"].s, dw::Parameter(std::move(t), p["t"].num() != 0));
    }
    std::deque<dw::ParamMap> maps;
    std::deque<Opt> opts;
    std::map<std::vector<std::string>, dw::ParamMap*> same_map;
    for (auto& op : sc["ops"].a) {
        std::string k = op["op"].s;
        std::vector<float> g0;
        for (auto& [n, p] : P) g0.insert(g0.end(), p.grad().data(), p.grad().data() + p.grad().total());
        int err = guarded([&] {
            if (k == "make") {
                const J& c = op["c"];
                std::vector<std::string> names;
                for (auto& n : c["ps"].a) names.push_back(n.s);
                if (!same_map.count(names)) {
                    maps.emplace_back();
                    for (auto& n : names) maps.back().emplace(n, P.at(n));
                    same_map[names] = &maps.back();
                }
                dw::ParamMap& m = *same_map[names];
                Opt o;
                float lr = (float)c["lr"].num() / 64.f;
                std::string kind = c["kind"].s;
                if (kind == "sgd") o.sgd.reset(new dw::optimizer::SGD(m, lr));
                else if (kind == "mom") {
                    if (c.flag("def")) o.mom.reset(new dw::optimizer::SGDMomentum(m, lr));
                    else o.mom.reset(new dw::optimizer::SGDMomentum(m, lr, (float)c["gn"].num() / (float)c["gd"].num()));
                } else {
                    if (c.flag("def")) o.adam.reset(new dw::optimizer::Adam(m, lr));
                    else o.adam.reset(new dw::optimizer::Adam(m, lr, {(float)c["b1n"].num() / (float)c["b1d"].num(),
                                                                       (float)c["b2n"].num() / (float)c["b2d"].num()},
                                                              (float)c["eps12"].num() / 4096.f, (size_t)c["t0"].num()));
                }
                opts.push_back(std::move(o));
            } else if (k == "step") opts.at(op["k"].num() - 1).step();
            else if (k == "lr") opts.at(op["k"].num() - 1).set_lr((float)op["lr"].num() / 64.f);
            else if (k == "grad") {
                auto& g = P.at(op["p"].s).grad();
                for (size_t i = 0; i < g.total(); ++i) g.data()[i] = (float)op["g"][i].num();
            } else if (k == "set") {
                for (auto& [n, p] : P)
                    for (size_t i = 0; i < p.data().total(); ++i) p.data().data()[i] = (float)op["w"][n][i].num();
            } else if (k == "freeze") P.at(op["p"].s).train(op["t"].num() != 0);
            else _Exit(97);
        });
        std::vector<float> g1;
        for (auto& [n, p] : P) g1.insert(g1.end(), p.grad().data(), p.grad().data() + p.grad().total());
        bool same = k == "grad" || (g0.size() == g1.size() && !memcmp(g0.data(), g1.data(), g0.size() * sizeof(float)));
        std::vector<std::string> ps;
        for (auto& [n, p] : P) {
            std::vector<long long> w;
            for (size_t i = 0; i < p.data().total(); ++i) w.push_back(fx(p.data().data()[i], 16, false));
            ps.push_back(Out().str("p", n).arr("w", w).b("t", p.is_trainable()).end());
        }
        std::vector<long long> lr;
        for (auto& o : opts) lr.push_back(fx(o.get_lr(), 6, true));
        emit(Out().n("err", err).b("same", same).arr("lr", lr).raw("P", jarr(ps)).end());
    }
}
int main(int argc, char** argv) { return driver_main(argc, argv, {{"opt", run}}); }
