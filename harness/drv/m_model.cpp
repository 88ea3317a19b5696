// Models: expressions built into graphs, run, trained, saved and loaded.
#include "common.hpp"
#include <deepworks/deepworks.hpp>
#include <deepworks/nn.hpp>
#include <deepworks/model.hpp>
#include <deepworks/optimizer.hpp>
#include <deepworks/serialization.hpp>
#include "impl.hpp"
#include <algorithm>
#include <unistd.h>
#include <sys/syscall.h>
#include <cstdio>
namespace dw = deepworks;
static std::array<int, 2> a2(const J& j) { return {(int)j[0].num(), (int)j[1].num()}; }
static float fbits(const J& j) { int32_t b = (int32_t)j.num(); float f; memcpy(&f, &b, 4); return f; }

struct Obj {
    std::function<dw::Placeholder(const dw::Placeholders&)> apply;
    std::function<const dw::ParamMap&()> P;
    std::function<const dw::BufferMap&()> B;
    std::function<std::string()> name;
};
template <class Op> Obj wrap(Op op0) {
    auto op = std::make_shared<Op>(op0);
    Obj o;
    o.apply = [op](const dw::Placeholders& in) -> dw::Placeholder { return (*op)(in); };
    o.P = [op]() -> const dw::ParamMap& { return op->m_info.params(); };
    o.B = [op]() -> const dw::BufferMap& { return op->m_info.buffers(); };
    o.name = [op] { return op->m_info.name(); };
    return o;
}
static Obj make(const J& c) {
    std::string k = c["kind"].s, n = c["name"].s;
    if (k == "Linear") return wrap(dw::Linear((int)c["units"].num(), n));
    if (k == "Convolution") return wrap(dw::Convolution((int)c["co"].num(), a2(c["k"]), a2(c["p"]), a2(c["s"]), n));
    if (k == "MaxPooling") return wrap(dw::MaxPooling(a2(c["k"]), a2(c["p"]), a2(c["s"]), n));
    if (k == "GlobalAvgPooling") return wrap(dw::GlobalAvgPooling(n));
    if (k == "ReLU") return wrap(dw::ReLU(n));
    if (k == "LeakyReLU") return wrap(dw::LeakyReLU(fbits(c["ab"]), n));
    if (k == "ELU") return wrap(dw::ELU(fbits(c["ab"]), n));
    if (k == "Sigmoid") return wrap(dw::Sigmoid(n));
    if (k == "Softmax") return wrap(dw::Softmax(n));
    if (k == "Dropout") return wrap(dw::Dropout(fbits(c["ab"]), n));
    if (k == "BatchNorm1D") return wrap(dw::BatchNorm1D(fbits(c["eb"]), fbits(c["ab"]), n));
    if (k == "BatchNorm2D") return wrap(dw::BatchNorm2D(fbits(c["eb"]), fbits(c["ab"]), n));
    if (k == "Add") return wrap(dw::Add(n));
    _Exit(97);
}
static std::string attr_text(const dw::Attribute& a) {
    if (a.type() == dw::AttrType::INT && a.shape() == dw::AttrShape::VALUE) return jints(std::vector<int>{a.get<int>()});
    if (a.type() == dw::AttrType::FLOAT && a.shape() == dw::AttrShape::VALUE) { float f = a.get<float>(); int32_t b; memcpy(&b, &f, 4); return jints(std::vector<long long>{b}); }
    if (a.type() == dw::AttrType::INT && a.shape() == dw::AttrShape::ARRAY2) return jints(a.get<std::array<int, 2>>());
    return "[-99]";
}
// special values of scripts beyond the usual codes
constexpr long long C_NZERO = 2000000006, C_DENORM = 2000000007, C_FMAX = 2000000008, C_QNAN7 = 2000000009, C_PI = 2000000010;
static float from_bits(uint32_t b) { float f; memcpy(&f, &b, 4); return f; }
static uint32_t bits(float f) { uint32_t b; memcpy(&b, &f, 4); return b; }
static float in_val(long long v, int S) {
    switch (v) {
        case C_NZERO: return -0.f;
        case C_DENORM: return from_bits(3);
        case C_FMAX: return std::numeric_limits<float>::max();
        case C_QNAN7: return from_bits(0x7fc00007);
        case C_PI: return 3.14159274f;
    }
    return unfx(v, S, false);
}
// a tensor element as an integer in its unit, or a code that only equal bits share
static long long out_val(float f, int S, bool exactbits) {
    if (!(exactbits && bits(f) == 0x80000000u) && std::isfinite(f)) {
        double w = std::ldexp((double)f, S);
        if (w == std::nearbyint(w) && std::fabs(w) < 1e9) return (long long)w;
    }
    uint64_t h = bits(f) * 0x9E3779B97F4A7C15ull;
    return 1000000000LL + (long long)((h >> 24) % 400000000ull);
}
static std::vector<long long> vals(const dw::Tensor& t, int S, bool eb) {
    std::vector<long long> r;
    for (size_t i = 0; i < t.total(); ++i) r.push_back(out_val(t.data()[i], S, eb));
    return r;
}

struct World {
    int us = 0;
    bool eb = false;
    std::vector<dw::Placeholder> ph;
    std::vector<Obj> ob;
    struct M { dw::Model m; std::vector<dw::Tensor> in, out; };
    std::vector<M> md;
    struct F { std::vector<std::string> names; };
    std::map<std::string, F> files;

    int idx(const dw::Placeholder& p) const {
        for (size_t i = 0; i < ph.size(); ++i) if (ph[i].m_impl == p.m_impl) return (int)i + 1;
        return 0;
    }
    std::vector<int> idxs(const dw::Placeholders& v) const { std::vector<int> r; for (auto& p : v) r.push_back(idx(p)); return r; }
    int unit(const std::string& n, bool grad) const {
        bool coarse = n == "weight" || n == "gamma" || n == "mask";
        return grad ? (coarse ? 2 * us : us) : (coarse ? 0 : us);
    }
    std::string world() const {
        std::vector<std::string> w;
        for (auto& o : ob) {
            std::vector<std::string> ps, bs;
            for (auto& [n, p] : o.P())
                ps.push_back(Out().str("n", n).arr("sh", p.data().shape()).arr("v", vals(p.data(), unit(n, false), eb))
                                 .arr("g", vals(p.grad(), unit(n, true), false)).b("t", p.is_trainable()).end());
            for (auto& [n, t] : o.B())
                bs.push_back(Out().str("n", n).arr("sh", t.shape()).arr("v", vals(t, unit(n, false), eb)).raw("g", "[]").end());
            w.push_back(Out().str("name", o.name()).raw("P", jarr(ps)).raw("B", jarr(bs)).end());
        }
        return jarr(w);
    }
    std::string layer(const dw::Layer& l) const {
        return Out().str("name", l.name()).str("type", l.type()).arr("in", idxs(l.inputs())).arr("out", idxs(l.outputs())).end();
    }
    // which object and tensor a storage belongs to
    std::string key(const std::string& k, const dw::Tensor& t, const dw::Tensor* g) const {
        int o = 0; std::string nm = "?";
        for (size_t i = 0; i < ob.size(); ++i) {
            for (auto& [n, p] : ob[i].P()) if (p.data().data() == t.data() && (!g || g->data() == p.grad().data())) { o = (int)i + 1; nm = n; }
            for (auto& [n, b] : ob[i].B()) if (b.data() == t.data()) { o = (int)i + 1; nm = n; }
        }
        return Out().str("k", k).n("o", o).str("n", nm).end();
    }
    std::string cfg_text(const dw::Model::Config& c) const {
        std::vector<std::string> phs, ops;
        for (auto& [id, p] : c.ph_map) phs.push_back(Out().n("id", id == p.id ? id : -1).arr("sh", p.shape).end());
        for (auto& o : c.sorted_ops) {
            std::vector<std::string> as;
            for (auto& [n, a] : o.attrs) as.push_back(Out().str("n", n).raw("v", attr_text(a)).end());
            ops.push_back(Out().str("name", o.name).str("type", o.type).arr("in", o.in_ids).arr("out", o.out_ids).raw("attrs", jarr(as)).end());
        }
        return Out().arr("in", c.input_ids).arr("out", c.output_ids).raw("ph", jarr(phs)).raw("ops", jarr(ops)).end();
    }
    void structure(Out& o, dw::Model& m, const dw::Model::Config* loaded = nullptr) const {
        std::vector<std::string> ls, pk, sk;
        for (auto& l : m.layers()) ls.push_back(layer(l));
        for (auto& [k, p] : m.params()) pk.push_back(key(k, p.data(), &p.grad()));
        for (auto& [k, t] : m.state()) sk.push_back(key(k, t, nullptr));
        o.raw("L", jarr(ls)).raw("pk", jarr(pk)).raw("sk", jarr(sk)).arr("ins", idxs(m.inputs())).arr("outs", idxs(m.outputs()))
            .raw("cfg", cfg_text(m.cfg()));
    }
    // take a model that came from a file: its placeholders and layers, in the order the source model's calls were made
    void adopt(dw::Model m, const std::vector<std::string>& names) {
        for (auto& p : m.inputs()) ph.push_back(p);
        for (auto& n : names) {
            dw::Layer l = m.getLayer(n);
            Obj o;
            o.P = [l]() -> const dw::ParamMap& { return l.params(); };
            o.B = [l]() -> const dw::BufferMap& { return l.buffers(); };
            o.name = [l] { return l.name(); };
            ob.push_back(o);
            ph.push_back(l.outputs().at(0));
        }
        md.push_back({m, {}, {}});
    }
    // its layers by age of their calls
    std::vector<std::string> names(dw::Model& m) const {
        std::vector<std::pair<int, std::string>> v;
        for (auto& l : m.layers()) v.emplace_back(l.outputs().empty() ? 0 : idx(l.outputs()[0]), l.name());
        std::stable_sort(v.begin(), v.end(), [](auto& a, auto& b) { return a.first < b.first; });
        std::vector<std::string> r;
        for (auto& p : v) r.push_back(p.second);
        return r;
    }
};
// a DOT file read back: statements of the dot language as far as digraphs of nodes and edges need them
struct Dot {
    struct Node { std::string id, label; bool box = false, has = false; };
    struct Edge { int a, b; std::string label; };
    std::vector<Node> nodes;
    std::vector<Edge> edges;
    std::string s;
    size_t p = 0;
    bool ok = true;
    struct Tok { char k; std::string v; };      // k: i identifier, q quoted, > arrow, 0 end, else the character
    Tok next() {
        for (;;) {
            while (p < s.size() && isspace((unsigned char)s[p])) ++p;
            if (s.compare(p, 2, "//") == 0) { while (p < s.size() && s[p] != '\n') ++p; continue; }
            if (s.compare(p, 2, "/*") == 0) { p = s.find("*/", p); p = p == std::string::npos ? s.size() : p + 2; continue; }
            if (p < s.size() && s[p] == '#' && (p == 0 || s[p - 1] == '\n')) { while (p < s.size() && s[p] != '\n') ++p; continue; }
            break;
        }
        if (p >= s.size()) return {0, ""};
        char c = s[p];
        if (c == '"') {
            std::string v;
            for (++p; p < s.size() && s[p] != '"'; ++p) {
                if (s[p] == '\\' && p + 1 < s.size()) { v += s[p]; ++p; }
                v += s[p];
            }
            if (p >= s.size()) return {'!', ""};
            ++p;
            return {'q', v};
        }
        if (s.compare(p, 2, "->") == 0) { p += 2; return {'>', ""}; }
        if (isalpha((unsigned char)c) || c == '_' || (unsigned char)c >= 128) {
            std::string v;
            while (p < s.size() && (isalnum((unsigned char)s[p]) || s[p] == '_' || (unsigned char)s[p] >= 128)) v += s[p++];
            return {'i', v};
        }
        if (isdigit((unsigned char)c) || c == '-' || c == '.') {
            std::string v;
            if (c == '-') v += s[p++];
            bool dig = false, dot = false;
            while (p < s.size() && (isdigit((unsigned char)s[p]) || (s[p] == '.' && !dot))) { dot = dot || s[p] == '.'; dig = dig || s[p] != '.'; v += s[p++]; }
            if (!dig || (p < s.size() && (isalpha((unsigned char)s[p]) || s[p] == '_'))) return {'!', ""};
            return {'i', v};
        }
        ++p;
        return {c, ""};
    }
    Tok peek() { size_t q = p; Tok t = next(); p = q; return t; }
    static bool id(const Tok& t) { return t.k == 'i' || t.k == 'q'; }
    static std::string shown(const std::string& v) {       // a label as drawn
        std::string r;
        for (size_t i = 0; i < v.size(); ++i) {
            if (v[i] == '\\' && i + 1 < v.size()) { ++i; r += (v[i] == 'n' || v[i] == 'l' || v[i] == 'r') ? '\n' : v[i]; }
            else r += v[i];
        }
        return r;
    }
    int node(const std::string& i) {
        for (size_t k = 0; k < nodes.size(); ++k) if (nodes[k].id == i) return (int)k + 1;
        nodes.push_back({i, shown(i)});
        return (int)nodes.size();
    }
    bool attrs(std::map<std::string, std::string>& a) {
        while (peek().k == '[') {
            next();
            for (;;) {
                Tok t = next();
                if (t.k == ']') break;
                if (t.k == ',' || t.k == ';') continue;
                if (!id(t) || next().k != '=') return false;
                Tok v = next();
                if (!id(v)) return false;
                a[t.v] = v.v;
            }
        }
        return true;
    }
    bool parse() {
        Tok t = next();
        if (t.k == 'i' && t.v == "strict") t = next();
        if (t.k != 'i' || t.v != "digraph") return false;
        if (id(peek())) next();
        if (next().k != '{') return false;
        for (;;) {
            t = next();
            if (t.k == '}') break;
            if (t.k == ';') continue;
            if (!id(t)) return false;
            std::map<std::string, std::string> a;
            if (t.k == 'i' && (t.v == "node" || t.v == "edge" || t.v == "graph")) { if (peek().k != '[' || !attrs(a)) return false; continue; }
            if (t.k == 'i' && (t.v == "subgraph" || t.v == "digraph" || t.v == "strict")) return false;
            if (peek().k == '=') { next(); if (!id(next())) return false; continue; }
            std::vector<int> chain{node(t.v)};
            while (peek().k == '>') {
                next();
                Tok u = next();
                if (!id(u)) return false;
                chain.push_back(node(u.v));
            }
            if (!attrs(a)) return false;
            if (chain.size() == 1) {
                auto& n = nodes[chain[0] - 1];
                if (a.count("label")) n.label = shown(a["label"]);
                if (a.count("shape")) n.box = a["shape"] == "box";
            } else for (size_t i = 0; i + 1 < chain.size(); ++i) edges.push_back({chain[i], chain[i + 1], shown(a["label"])});
        }
        return next().k == 0;
    }
    static std::vector<int> braces(const std::string& l) {  // the numbers of the last {...}
        size_t a = l.rfind('{'), b = l.rfind('}');
        if (a == std::string::npos || b == std::string::npos || b < a) return {-99};
        std::vector<int> r;
        std::istringstream is(l.substr(a + 1, b - a - 1));
        std::string w;
        while (std::getline(is, w, ',')) if (w.find_first_not_of(" ") != std::string::npos) r.push_back(atoi(w.c_str()));
        return r;
    }
    static int last_number(const std::string& l) {
        size_t e = l.find_last_of("0123456789");
        if (e == std::string::npos) return -1;
        size_t b = e;
        while (b > 0 && isdigit((unsigned char)l[b - 1])) --b;
        return atoi(l.substr(b, e - b + 1).c_str());
    }
    std::string text() {
        std::vector<std::string> ns, es;
        for (auto& n : nodes) ns.push_back(Out().str("label", n.label).b("box", n.box).arr("sh", n.box ? std::vector<int>{} : braces(n.label)).end());
        for (auto& e : edges) es.push_back(Out().n("a", e.a).n("b", e.b).n("port", last_number(e.label)).end());
        return Out().b("ok", ok).raw("nodes", jarr(ns)).raw("edges", jarr(es)).end();
    }
};
static std::string slurp(const std::string& p) { std::ifstream f(p, std::ios::binary); std::stringstream s; s << f.rdbuf(); return s.str(); }
static void spew(const std::string& p, const char* d, size_t n) { std::ofstream f(p, std::ios::binary | std::ios::trunc); f.write(d, (std::streamsize)n); }
static void fill(dw::Tensor& t, const J& v, int S) { for (size_t i = 0; i < t.total(); ++i) t.data()[i] = in_val(v[i].num(), S); }
static bool is(const dw::Tensor& t, const J& v, int S) {
    for (size_t i = 0; i < t.total(); ++i) if (bits(t.data()[i]) != bits(in_val(v[i].num(), S))) return false;
    return true;
}

static void run(const J& sc, const Emit& emit) {
    World w;
    w.us = (int)sc["us"].num();
    w.eb = sc.flag("bits");
    std::string dir = "m" + std::to_string(syscall(SYS_gettid)) + "_";
    for (auto& op : sc["ops"].a) {
        std::string k = op["op"].s;
        std::string f = op.has("f") ? dir + op["f"].s : "";
        World::M* m = op.has("m") ? &w.md.at(op["m"].num() - 1) : nullptr;
        Out o;
        bool struct_ = false;
        std::string extra;
        int err = guarded([&] {
            if (k == "input") { w.ph.emplace_back(dw::Shape(op["sh"].ints())); }
            else if (k == "new") { w.ob.push_back(make(op["c"])); }
            else if (k == "apply") {
                dw::Placeholders in;
                for (auto& i : op["in"].a) in.push_back(w.ph.at(i.num() - 1));
                w.ph.push_back(w.ob.at(op["o"].num() - 1).apply(in));
            }
            else if (k == "build") {
                dw::Placeholders in, out;
                for (auto& i : op["ins"].a) in.push_back(w.ph.at(i.num() - 1));
                for (auto& i : op["outs"].a) out.push_back(w.ph.at(i.num() - 1));
                dw::Model mm = (in.size() == 1 && out.size() == 1 && op.flag("single")) ? dw::Model(in[0], out[0]) : dw::Model(in, out);
                w.md.push_back({mm, {}, {}});
                struct_ = true;
            }
            else if (k == "compile") m->m.compile();
            else if (k == "fwd") {
                auto& ins = m->m.inputs(); auto& outs = m->m.outputs();
                bool reuse = op.flag("reuse") && m->in.size() == ins.size();
                if (!reuse) {
                    m->in.clear(); m->out.clear();
                    for (auto& p : ins) m->in.emplace_back(p.shape());
                    for (auto& p : outs) m->out.emplace_back(p.shape());
                }
                for (size_t i = 0; i < m->in.size(); ++i) fill(m->in[i], op["x"][i], w.us);
                if (ins.size() == 1 && outs.size() == 1 && op.flag("single")) m->m.forward(m->in[0], m->out[0]);
                else m->m.forward(m->in, m->out);
                std::vector<std::string> ys;
                for (auto& t : m->out) ys.push_back(jints(vals(t, w.us, false)));
                bool same = true;
                for (size_t i = 0; i < m->in.size(); ++i) same = same && is(m->in[i], op["x"][i], w.us) && m->in[i].shape() == ins[i].shape();
                for (size_t i = 0; i < m->out.size(); ++i) same = same && m->out[i].shape() == outs[i].shape();
                o.raw("y", jarr(ys)).b("same", same);
            }
            else if (k == "bwd") {
                std::vector<dw::Tensor> gs;
                auto& outs = m->m.outputs();
                for (size_t i = 0; i < outs.size(); ++i) { gs.emplace_back(outs[i].shape()); fill(gs[i], op["g"][i], w.us); }
                if (m->in.empty()) { for (auto& p : m->m.inputs()) m->in.push_back(dw::Tensor::zeros(p.shape())); for (auto& p : outs) m->out.push_back(dw::Tensor::zeros(p.shape())); }
                std::vector<std::vector<float>> b;
                for (auto* v : {&m->in, &m->out}) for (auto& t : *v) b.emplace_back(t.data(), t.data() + t.total());
                if (m->in.size() == 1 && outs.size() == 1 && op.flag("single")) m->m.backward(m->in[0], m->out[0], gs[0]);
                else m->m.backward(m->in, m->out, gs);
                bool same = true;
                size_t q = 0;
                for (auto* v : {&m->in, &m->out}) for (auto& t : *v) { same = same && !memcmp(b[q].data(), t.data(), 4 * b[q].size()); ++q; }
                for (size_t i = 0; i < outs.size(); ++i) same = same && is(gs[i], op["g"][i], w.us) && gs[i].shape() == outs[i].shape();
                o.b("same", same);
            }
            else if (k == "set") {
                auto& ob = w.ob.at(op["o"].num() - 1);
                std::string n = op["n"].s, via = op["via"].s;
                bool par = ob.P().count(n) != 0;
                dw::Tensor t;
                if (via == "state") t = m->m.state().at(ob.name() + "." + n);
                else if (via == "params" && par) t = m->m.params().at(ob.name() + "." + n).data();
                else if (via == "layer") { auto l = m->m.getLayer(ob.name()); t = par ? l.params().at(n).data() : l.buffers().at(n); }
                else t = par ? ob.P().at(n).data() : ob.B().at(n);
                fill(t, op.has("raw") ? op["raw"] : op["v"], w.unit(n, false));
            }
            else if (k == "train") m->m.train(op.flag("t"));
            else if (k == "freeze") { for (auto [n, p] : w.ob.at(op["o"].num() - 1).P()) p.train(op.flag("t")); }
            else if (k == "step") { dw::optimizer::SGD s(m->m.params(), (float)op["lr"].num()); s.step(); }
            else if (k == "get") { dw::Layer l = m->m.getLayer(op["name"].s); o.raw("l", w.layer(l)); }
            else if (k == "savestate") {
                if (op.flag("stream")) { std::ofstream s(f, std::ios::out | std::ios::binary); dw::save_state(m->m.state(), s); }
                else dw::save_state(m->m.state(), f);
            }
            else if (k == "savecfg") {
                if (op.flag("stream")) { std::ofstream s(f, std::ios::out | std::ios::binary); dw::save_cfg(m->m.cfg(), s); }
                else dw::save_cfg(m->m.cfg(), f);
                w.files[f].names = w.names(m->m);
            }
            else if (k == "save") { dw::save(m->m, f); w.files[f].names = w.names(m->m); }
            else if (k == "dot") {
                std::string p = dir + "dot";
                if (op.flag("over")) spew(p, std::string(20000, 'x').c_str(), 20000);
                dw::save_dot(m->m.cfg(), p);
                Dot d;
                d.s = slurp(p);
                d.ok = d.parse();
                std::remove(p.c_str());
                o.raw("dot", d.text());
            }
            else if (k == "badsave") {
                std::string p = op["p"].s == "full" ? "/dev/full" : op["p"].s == "dir" ? "." : "no/such/dir/x";
                if (op["what"].s == "state") dw::save_state(m->m.state(), p);
                else if (op["what"].s == "cfg") dw::save_cfg(m->m.cfg(), p);
                else if (op["what"].s == "dot") dw::save_dot(m->m.cfg(), p);
                else dw::save(m->m, p);
            }
            else if (k == "loadstate") {
                if (op.flag("stream")) { std::ifstream s(f, std::ios::in | std::ios::binary); dw::load_state(m->m.state(), s); }
                else dw::load_state(m->m.state(), f);
            }
            else if (k == "fromcfg") {
                dw::Model::Config c;
                if (op.flag("stream")) { std::ifstream s(f, std::ios::in | std::ios::binary); c = dw::load_cfg(s); }
                else c = dw::load_cfg(f);
                w.adopt(dw::Model::Build(c), w.files[f].names);
                struct_ = true;
            }
            else if (k == "load") { w.adopt(dw::load(f), w.files[f].names); struct_ = true; }
            else if (k == "trunc") {
                std::string d = slurp(f), t = dir + "cut";
                std::vector<int> acc;
                dw::Model::StateDict copy;
                if (m) for (auto& [n, x] : m->m.state()) { dw::Tensor y(x.shape()); x.copyTo(y); copy.emplace(n, y); }
                auto load = [&](const std::string& p) {
                    return guarded([&] {
                        if (op["what"].s == "state") dw::load_state(copy, p);
                        else if (op["what"].s == "cfg") dw::load_cfg(p);
                        else dw::load(p);
                    });
                };
                size_t step = d.size() > 3000 ? 1 + d.size() / 1500 : 1;
                for (size_t n = 0; n < d.size(); n += (n < 200 || n + 200 > d.size()) ? 1 : step) {
                    spew(t, d.data(), n);
                    if (load(t) != 1) acc.push_back((int)n);
                    if (acc.size() > 4) break;
                }
                spew(t, d.data(), d.size());
                bool full = load(t) == 0;
                std::remove(t.c_str());
                o.n("size", (long long)d.size()).arr("acc", acc).b("full", full);
            }
            else _Exit(97);
        });
        if (err == 0 && struct_) {
            int e2 = guarded([&] { w.structure(o, w.md.back().m); });
            if (e2) { o = Out(); err = 3; }
        }
        emit(o.n("err", err).raw("W", w.world()).end());
        if (err == 3) return;
    }
    for (auto& [p, x] : w.files) std::remove(p.c_str());
}
int main(int argc, char** argv) { return driver_main(argc, argv, {{"model", run}}); }
