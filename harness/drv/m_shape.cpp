// Expression building: layer objects applied to placeholders.
#include "common.hpp"
#include <deepworks/deepworks.hpp>
#include <deepworks/nn.hpp>
#include "impl.hpp"
namespace dw = deepworks;
static std::array<int, 2> a2(const J& j) { return {(int)j[0].num(), (int)j[1].num()}; }
static float fbits(const J& j) { int32_t b = (int32_t)j.num(); float f; memcpy(&f, &b, 4); return f; }
using Apply = std::function<dw::Placeholder(const dw::Placeholders&, bool vec)>;
struct Obj { Apply apply; std::function<dw::LayerInfo()> info; };

template <class Op> Obj wrap(Op op0) {
    auto op = std::make_shared<Op>(op0);
    Obj o;
    o.info = [op] { return op->m_info; };
    o.apply = [op](const dw::Placeholders& in, bool vec) -> dw::Placeholder {
        if (vec) return (*op)(in);
        if constexpr (Op::num_in == 2) return (*op)(in.at(0), in.at(1)); else return (*op)(in.at(0));
    };
    return o;
}
static Obj make(const J& c) {
    std::string k = c["kind"].s, n = c["name"].s;
    bool def = c.flag("def");
    if (k == "Linear") return wrap(dw::Linear((int)c["units"].num(), n));
    if (k == "Convolution") return wrap(dw::Convolution((int)c["co"].num(), a2(c["k"]), a2(c["p"]), a2(c["s"]), n));
    if (k == "MaxPooling") return wrap(dw::MaxPooling(a2(c["k"]), a2(c["p"]), a2(c["s"]), n));
    if (k == "GlobalAvgPooling") return wrap(dw::GlobalAvgPooling(n));
    if (k == "ReLU") return wrap(dw::ReLU(n));
    if (k == "LeakyReLU") return wrap(dw::LeakyReLU(fbits(c["ab"]), n));
    if (k == "ELU") return wrap(dw::ELU(fbits(c["ab"]), n));
    if (k == "Sigmoid") return wrap(dw::Sigmoid(n));
    if (k == "Softmax") return wrap(dw::Softmax(n));
    if (k == "Dropout") return wrap(dw::Dropout(fbits(c["ab"]), n));
    if (k == "BatchNorm1D") return def && n.empty() ? wrap(dw::BatchNorm1D()) : wrap(dw::BatchNorm1D(fbits(c["eb"]), fbits(c["ab"]), n));
    if (k == "BatchNorm2D") return def && n.empty() ? wrap(dw::BatchNorm2D()) : wrap(dw::BatchNorm2D(fbits(c["eb"]), fbits(c["ab"]), n));
    if (k == "Add") return wrap(dw::Add(n));
    _Exit(97);
}
static dw::Attributes attrs(const J& c) {
    std::string k = c["kind"].s;
    dw::Attributes a;
    if (k == "Linear") a["units"] = (int)c["units"].num();
    if (k == "Convolution") a["out_channels"] = (int)c["co"].num();
    if (k == "Convolution" || k == "MaxPooling") { a["kernel"] = a2(c["k"]); a["padding"] = a2(c["p"]); a["stride"] = a2(c["s"]); }
    if (k == "LeakyReLU" || k == "ELU") a["alpha"] = fbits(c["ab"]);
    if (k == "Dropout") a["p"] = fbits(c["ab"]);
    if (k == "BatchNorm1D" || k == "BatchNorm2D") { a["eps"] = fbits(c["eb"]); a["alpha"] = fbits(c["ab"]); }
    if (c.has("drop") && !c["drop"].s.empty()) a.erase(c["drop"].s);
    return a;
}
// values of a parameter: 0 all zero, 1 all one, else the greatest magnitude times 2^12 rounded up (and whether they vary)
static std::string tens(const std::string& n, const dw::Tensor& t, const std::string& grad, bool tr) {
    bool zero = true, one = true, vary = false;
    float m = 0;
    for (size_t i = 0; i < t.total(); ++i) {
        float v = t.data()[i];
        zero = zero && v == 0.f; one = one && v == 1.f; vary = vary || v != t.data()[0];
        m = std::isnan(v) ? INFINITY : std::max(m, std::fabs(v));
    }
    return Out().str("n", n).arr("sh", t.shape()).b("zero", zero).b("one", one).b("vary", vary)
        .n("max", fx(m, 16, false)).str("g", grad).b("t", tr).end();
}
static std::string attr_text(const dw::Attribute& a) {
    Out o;
    if (a.type() == dw::AttrType::INT && a.shape() == dw::AttrShape::VALUE) return jints(std::vector<int>{a.get<int>()});
    if (a.type() == dw::AttrType::FLOAT && a.shape() == dw::AttrShape::VALUE) { float f = a.get<float>(); int32_t b; memcpy(&b, &f, 4); return jints(std::vector<long long>{b}); }
    if (a.type() == dw::AttrType::INT && a.shape() == dw::AttrShape::ARRAY2) return jints(a.get<std::array<int, 2>>());
    return "[-99]";
}
static void run(const J& sc, const Emit& emit) {
    std::vector<dw::Placeholder> ph;
    std::vector<Obj> objs;
    std::vector<dw::LayerInfo> infos;          // one per object, made directly or by make_layer
    for (auto& op : sc["ops"].a) {
        std::string k = op["op"].s;
        if (k == "input") { ph.emplace_back(dw::Shape(op["sh"].ints())); emit(Out().n("err", 0).arr("sh", ph.back().shape()).end()); continue; }
        if (k == "new") { objs.push_back(make(op["c"])); infos.push_back(objs.back().info()); emit(Out().n("err", 0).end()); continue; }
        dw::Placeholders in;
        for (auto& i : op["in"].a) in.push_back(ph.at(i.num() - 1));
        dw::Placeholder out;
        dw::LayerInfo info;
        std::vector<const float*> p0;
        if (k == "apply") for (auto& [n, p] : infos.at(op["o"].num() - 1).params()) p0.push_back(p.data().data());
        int err = guarded([&] {
            if (k == "apply") { out = objs.at(op["o"].num() - 1).apply(in, op.flag("vec")); info = infos.at(op["o"].num() - 1); }
            else if (k == "make") out = dw::make_layer(op["c"]["kind"].s, op["c"]["name"].s, attrs(op["c"]), in);
            else _Exit(97);
        });
        Out o;
        o.n("err", err);
        if (err) {
            if (k == "apply") o.n("np", (long long)infos.at(op["o"].num() - 1).params().size() + (long long)infos.at(op["o"].num() - 1).buffers().size());
            emit(o.end()); continue;
        }
        ph.push_back(out);
        auto& call = out.impl().call;
        bool link = call.has_value() && call->impl().args.size() == in.size() && out.impl().port == 0;
        for (size_t i = 0; link && i < in.size(); ++i) link = call->impl().args[i].m_impl == in[i].m_impl;
        if (call && k == "make") info = call->impl().info;
        else if (call && link) link = &call->impl().info.impl() == &info.impl();
        std::vector<std::string> ps, bs, as;
        bool stay = true;
        size_t q = 0;
        for (auto& [n, p] : info.params()) {
            const dw::Tensor& g = p.grad();
            bool gz = g.shape() == p.data().shape() && g.data() != p.data().data();
            for (size_t i = 0; gz && i < g.total(); ++i) gz = g.data()[i] == 0.f;
            ps.push_back(tens(n, p.data(), gz ? "zero" : "bad", p.is_trainable()));
            if (!p0.empty()) stay = stay && q < p0.size() && p0[q] == p.data().data();
            ++q;
        }
        for (auto& [n, t] : info.buffers()) bs.push_back(tens(n, t, "", false));
        for (auto& [n, a] : info.impl().attrs) as.push_back(Out().str("n", n).raw("v", attr_text(a)).end());
        emit(o.arr("sh", out.shape()).b("link", link).b("stay", stay).str("type", info.type()).str("name", info.name())
                 .raw("P", jarr(ps)).raw("B", jarr(bs)).raw("A", jarr(as)).end());
    }
}
int main(int argc, char** argv) { return driver_main(argc, argv, {{"shape", run}}); }
