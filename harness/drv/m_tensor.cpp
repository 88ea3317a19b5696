// Tensor handles, descriptors and buffers through the public Tensor API.
#include "common.hpp"
#include <deepworks/deepworks.hpp>
#include <deepworks/initializers.hpp>
#include <deepworks/utils/assert.hpp>
namespace dw = deepworks;

// the numbers in a printed tensor or shape
static std::vector<double> numbers(const std::string& s) {
    std::vector<double> r;
    std::string t;
    for (char c : s + " ") {
        if (strchr("[]{}(), \n\t;", c)) { if (!t.empty()) { char* e; double d = strtod(t.c_str(), &e); r.push_back(*e ? 1e300 : d); t.clear(); } }
        else t += c;
    }
    return r;
}
static void run(const J& sc, const Emit& emit) {
    std::map<int, dw::Tensor> T;
    constexpr int G = 8;                       // guard elements around every external buffer
    std::map<int, std::vector<float>> ext;
    for (auto& e : sc["ext"].a) {
        std::vector<float> v(e["n"].num() + 2 * G, -77.f);
        for (int i = 0; i < e["n"].num(); ++i) v[G + i] = (float)e["v0"].num() + i;
        ext[(int)e["b"].num()] = std::move(v);
    }
    for (auto& op : sc["ops"].a) {
        std::string k = op["op"].s;
        int h = (int)op["h"].num();
        auto shape = [&] { return dw::Shape(op["shape"].ints()); };
        Out extra;
        int err = guarded([&] {
            if (k == "default") T[h] = dw::Tensor();
            else if (k == "new") { dw::Tensor t(shape()); T[h] = t; }
            else if (k == "fzeros") { auto t = dw::Tensor::zeros(shape()); T[h] = t; }
            else if (k == "fconst") { auto t = dw::Tensor::constant(shape(), (float)op["v"].num()); T[h] = t; }
            else if (k == "wrap") { dw::Tensor t(shape(), ext.at((int)op["b"].num()).data() + G + op["off"].num()); T[h] = t; }
            else if (k == "copy") T[h] = T.at((int)op["src"].num());
            else if (k == "alloc") T.at(h).allocate(shape());
            else if (k == "reshape") T.at(h).reshape(shape());
            else if (k == "copyto") T.at(h).copyTo(T.at((int)op["dst"].num()));
            else if (k == "write") T.at(h).data()[op["i"].num()] = (float)op["v"].num();
            else if (k == "zeros") dw::initializer::zeros(T.at(h));
            else if (k == "const") dw::initializer::constant(T.at(h), (float)op["v"].num());
            else if (k == "fill") { auto& t = T.at(h); for (size_t i = 0; i < t.total(); ++i) t.data()[i] = (float)(op["v"].num() + (long long)i); }
            else if (k == "drop") T.erase(h);
            else if (k == "print") {
                std::ostringstream a, b;
                a << T.at(h);
                b << T.at(h).shape();
                std::vector<long long> p, ps;
                for (double d : numbers(a.str())) p.push_back(fx(d, 0, true));
                for (double d : numbers(b.str())) ps.push_back(fx(d, 0, true));
                extra.arr("p", p).arr("ps", ps);
            }
            else _Exit(97);
        });
        std::vector<std::string> ts;
        for (auto& [id, t] : T) {
            Out o;
            o.n("h", id).arr("shape", t.shape()).arr("strides", t.strides());
            o.n("total", (long long)std::min<size_t>(t.total(), 1000000000)).b("empty", t.empty());
            int alias = id;
            if (t.total() > 0)
                for (auto& [id2, t2] : T) if (t2.total() > 0 && t2.data() == t.data()) { alias = id2; break; }
            o.n("alias", alias);
            std::vector<long long> v;
            for (size_t i = 0; i < std::min<size_t>(t.total(), 100000); ++i) v.push_back(fx(t.data()[i], 0, true));
            o.arr("vals", v);
            ts.push_back(o.end());
        }
        long long guards = 0;
        for (auto& [b, v] : ext) for (int i = 0; i < G; ++i) guards += (v[i] != -77.f) + (v[v.size() - 1 - i] != -77.f);
        emit(extra.n("err", err).n("guards", guards).raw("T", jarr(ts)).end());
    }
}
// the text of an exception: where each piece streamed into it is found after the one before
struct Fail { static void go(const J& op) {
    deepworks::utils::DeepWorksException e((int)op["line"].num(), op["file"].s, op["func"].s);
    auto copy = e;
    for (auto& p : op["parts"].a) { if (p.t == J::STR) e << p.s; else e << (int)p.num(); }
    if (op.flag("copied")) throw copy;
    throw e;
} };
static void run_text(const J& sc, const Emit& emit) {
    for (auto& op : sc["ops"].a) {
        std::vector<long long> pos;
        bool same = true;
        int err = 0;
        try { Fail::go(op); }
        catch (const std::exception& e) {
            std::string w = e.what();
            same = w == e.what();
            err = 1;
            size_t at = 0;
            for (auto& p : op["parts"].a) {
                std::string x = p.t == J::STR ? p.s : std::to_string(p.num());
                size_t q = w.find(x, at);
                pos.push_back(q == std::string::npos ? -1 : (long long)q);
                if (q != std::string::npos) at = q + x.size();
            }
            for (auto& x : {op["file"].s, op["func"].s, std::to_string(op["line"].num())}) {
                size_t q = w.find(x);
                pos.push_back(q == std::string::npos ? -1 : (long long)q);
            }
        }
        emit(Out().n("err", err).b("same", same).arr("pos", pos).end());
    }
}
int main(int argc, char** argv) { return driver_main(argc, argv, {{"tensor", run}, {"text", run_text}}); }
