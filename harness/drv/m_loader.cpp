// Data loaders over a recording data set that can fail on demand.
#include "common.hpp"
#include <deque>
#include <deepworks/deepworks.hpp>
#include <deepworks/dataloader.hpp>
#include <deepworks/initializers.hpp>
namespace dw = deepworks;

struct Rec : dw::IDataset {
    size_t n; dw::Shape xs, ys;
    std::vector<int> calls; int fail = 0; bool sliceok = true;
    size_t size() override { return n; }
    OutShape shape() override { return {xs, ys}; }
    void pull(int idx, dw::Tensor& X, dw::Tensor& y) override {
        calls.push_back(idx);
        if (X.shape() != xs || y.shape() != ys) sliceok = false;
        if (fail && (int)calls.size() == fail) throw std::runtime_error("data set failure");
        for (size_t j = 0; j < X.total(); ++j) X.data()[j] = (float)(idx * 64 + (int)j);
        for (size_t j = 0; j < y.total(); ++j) y.data()[j] = (float)(100000 + idx * 8 + (int)j);
    }
};

static void run(const J& sc, const Emit& emit) {
    std::vector<std::shared_ptr<Rec>> D;
    std::deque<dw::DataLoader> L;
    struct Pair { dw::Tensor X, y; };
    std::vector<Pair> keep;
    constexpr int G = 16;
    for (auto& c : sc["ld"].a) {
        auto d = std::make_shared<Rec>();
        d->n = (size_t)c["n"].num(); d->xs = c["xs"].ints(); d->ys = c["ys"].ints();
        D.push_back(d);
        if (c.flag("sh") && c.flag("def")) {
            if (c["b"].num() == 1) L.emplace_back(d); else L.emplace_back(d, (int)c["b"].num());
        } else L.emplace_back(d, (int)c["b"].num(), c["sh"].num() != 0);
        keep.emplace_back();
    }
    for (auto& op : sc["ops"].a) {
        int k = (int)op["k"].num() - 1;
        Rec& d = *D[k];
        const J& c = sc["ld"][k];
        int b = (int)c["b"].num();
        d.calls.clear(); d.fail = (int)op["f"].num(); d.sliceok = true;
        std::string t = op["t"].s;
        auto full = [&](const dw::Shape& s) { dw::Shape r{b}; r.insert(r.end(), s.begin(), s.end()); return r; };
        dw::Shape XS = full(d.xs), YS = full(d.ys);
        dw::Tensor X, y;
        std::vector<float> bufx, bufy;
        auto guardedTensor = [&](const dw::Shape& s, std::vector<float>& buf) {
            size_t n = 1; for (int v : s) n *= (size_t)v;
            buf.assign(n + 2 * G, -5.f);
            return dw::Tensor(s, buf.data() + G);
        };
        auto wrong = [&](dw::Shape s) {
            dw::Shape one{1};
            if (op.num("w", 0) == 3 && s != one) return one;                                     // fewer elements than a batch has items
            if (op.num("w", 0) == 4 && s[0] > 1) { s[0] -= 1; return s; }                        // one item too few
            if (op.num("w", 0) == 5 && s.size() > 1) { s[0] *= s[1]; s.erase(s.begin() + 1); return s; }   // as many elements, another rank
            if (op.num("w", 0) == 1) s[0] += 1; else if (op.num("w", 0) == 2) s.push_back(1); else if (s.size() > 1) s.back() += 1; else s[0] += 2;
            return s;
        };
        bool e = op.flag("e");                                                                   // the other tensor is empty
        if (t == "ok") { X = guardedTensor(XS, bufx); y = guardedTensor(YS, bufy); }
        else if (t == "badx") { X = guardedTensor(wrong(XS), bufx); if (!e) y = guardedTensor(YS, bufy); }
        else if (t == "bady") { if (!e) X = guardedTensor(XS, bufx); y = guardedTensor(wrong(YS), bufy); }
        else if (t == "badboth") { X = guardedTensor(wrong(XS), bufx); y = guardedTensor(wrong(YS), bufy); }
        else if (t == "keep") { X = keep[k].X; y = keep[k].y; }
        bool hadx = !X.empty(), hady = !y.empty();
        float* px = hadx ? X.data() : nullptr;
        float* py = hady ? y.data() : nullptr;
        auto snap = [&] {
            std::vector<float> r;
            if (hadx) r.insert(r.end(), X.data(), X.data() + X.total());
            if (hady) r.insert(r.end(), y.data(), y.data() + y.total());
            return r;
        };
        auto before = snap();
        bool ret = false;
        int err = guarded([&] { ret = L[k].pull(X, y); });
        auto after = snap();
        long long guards = 0;
        for (auto* v : {&bufx, &bufy}) if (!v->empty()) for (int i = 0; i < G; ++i) guards += ((*v)[i] != -5.f) + ((*v)[v->size() - 1 - i] != -5.f);
        Out o;
        o.n("err", err).b("ret", ret).b("sliceok", d.sliceok).n("guards", guards).arr("calls", d.calls);
        o.b("kept", before.size() == after.size() && (before.empty() || !memcmp(before.data(), after.data(), before.size() * 4)));
        o.b("stay", (!hadx || X.data() == px) && (!hady || y.data() == py));
        o.b("xsh", X.shape() == XS).b("ysh", y.shape() == YS);
        std::vector<long long> vx, vy;
        if (!err && ret) {
            for (size_t i = 0; i < X.total(); ++i) vx.push_back(fx(X.data()[i], 0, true));
            for (size_t i = 0; i < y.total(); ++i) vy.push_back(fx(y.data()[i], 0, true));
            if (t == "empty" || t == "keep") { keep[k].X = X; keep[k].y = y; }
        }
        o.arr("x", vx).arr("y", vy);
        emit(o.end());
    }
}
int main(int argc, char** argv) { return driver_main(argc, argv, {{"loader", run}}); }
