// The sample programs: their data sets, in-process, and the programs themselves, as child processes.
#include "common.hpp"
#include <bits/stdc++.h>
#include <png.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <deepworks/deepworks.hpp>
// each sample has a namespace `custom` of its own
namespace s_iris {
#include "samples/iris/utility.cpp"
}
namespace s_mnist {
#include "samples/mnist/utility.cpp"
}
namespace s_cifar10 {
#include "samples/cifar10/utility.cpp"
}
namespace s_cifar100 {
#include "samples/cifar100/utility.cpp"
}
namespace dw = deepworks;
static void png(const std::string& path, int w, int h, int ch, int a, int b) {
    FILE* f = fopen(path.c_str(), "wb");
    png_structp p = png_create_write_struct(PNG_LIBPNG_VER_STRING, nullptr, nullptr, nullptr);
    png_infop i = png_create_info_struct(p);
    if (!f || setjmp(png_jmpbuf(p))) _Exit(97);
    png_init_io(p, f);
    png_set_IHDR(p, i, (png_uint_32)w, (png_uint_32)h, 8, ch == 1 ? 0 : 2, PNG_INTERLACE_NONE, PNG_COMPRESSION_TYPE_DEFAULT, PNG_FILTER_TYPE_DEFAULT);
    png_write_info(p, i);
    std::vector<png_byte> row((size_t)(w * ch));
    int q = 0;
    for (int y = 0; y < h; ++y) {
        for (auto& x : row) x = (png_byte)((a + b * q++) % 256);
        png_write_row(p, row.data());
    }
    png_write_end(p, i);
    png_destroy_write_struct(&p, &i);
    fclose(f);
}
static void folders(const std::string& dir) {
    for (size_t i = 0; (i = dir.find('/', i)) != std::string::npos; ++i) mkdir(dir.substr(0, i).c_str(), 0755);
    mkdir(dir.c_str(), 0755);
}
static void write(const std::string& kind, const std::string& dir, const J& op) {
    folders(dir);
    if (kind == "iris") {
        std::ofstream f(dir + "/iris.csv", std::ios::binary);
        bool last = op.flag("last");
        f << "sepal_length,sepal_width,petal_length,petal_width,species";
        const auto& it = op["items"].a;
        if (!it.empty() || last) f << "\n";
        for (size_t k = 0; k < it.size(); ++k) {
            const J& x = it[k];
            const std::string how = x["how"].s;
            if (how != "blank") {
                size_t n = how == "short" ? (size_t)x["cols"].num() : 4;
                for (size_t i = 0; i < n; ++i) {
                    char s[32];
                    snprintf(s, sizeof s, "%lld.%02lld", x["x"][i].num() / 100, x["x"][i].num() % 100);
                    f << (i ? "," : "") << s;
                }
                if (how != "short") f << "," << x["c"].s;
            }
            if (how == "cr") f << "\r";
            if (k + 1 < it.size() || last) f << "\n";
        }
        if (!f.flush()) _Exit(97);
        return;
    }
    for (const J& d : op["dirs"].a) mkdir((dir + "/" + d.s).c_str(), 0755);
    int k = 0;
    for (const J& x : op["items"].a)
        png(dir + "/" + x["c"].s + "/i" + std::to_string(k++) + ".png", (int)x["w"].num(), (int)x["h"].num(), (int)x["ch"].num(), (int)x["a"].num(), (int)x["b"].num());
}
static std::string lines(const std::string& text) {
    std::vector<std::string> ls;
    std::istringstream in(text);
    std::string l;
    while (std::getline(in, l)) {
        auto after = [&](const char* p) { return l.rfind(p, 0) == 0 ? l.c_str() + strlen(p) : nullptr; };
        const char* v;
        if ((v = after("Epoch: "))) ls.push_back(Out().str("t", "epoch").n("v", atoll(v)).end());
        else if ((v = after("Loss: "))) ls.push_back(Out().str("t", "loss").n("v", fx(std::nearbyint(atof(v) * 1000), 0, false)).end());
        else if ((v = after("Accuracy: "))) ls.push_back(Out().str("t", "acc").n("v", fx(std::nearbyint(atof(v) * 1e6), 0, false)).end());
        else if ((v = after("Model saved: "))) ls.push_back(Out().str("t", "saved").n("v", 0).end());
        else ls.push_back(Out().str("t", "other").str("v", l.substr(0, 60)).end());
    }
    return jarr(ls);
}
static std::string program(const std::string& exe, const std::vector<std::string>& args) {
    int fd[2];
    if (pipe(fd)) _Exit(97);
    pid_t p = fork();
    if (p == 0) {
        dup2(fd[1], 1);
        if (!freopen("/dev/null", "w", stderr)) _Exit(97);
        close(fd[0]);
        std::vector<char*> a{(char*)exe.c_str()};
        for (auto& s : args) a.push_back((char*)s.c_str());
        a.push_back(nullptr);
        execv(exe.c_str(), a.data());
        _Exit(97);
    }
    close(fd[1]);
    std::string out;
    char b[4096];
    for (ssize_t n; (n = read(fd[0], b, sizeof b)) > 0;) out.append(b, (size_t)n);
    close(fd[0]);
    int st = 0;
    waitpid(p, &st, 0);
    int rc = WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st);
    if (rc == 97) _Exit(97);
    return Out().n("rc", rc).raw("ls", lines(out)).end();
}
static void samples(const J& sc, const Emit& emit) {
    const std::string kind = sc["kind"].s, root = sc["id"].s + "/";
    std::map<int, std::shared_ptr<dw::IDataset>> ds;
    for (const J& op : sc["ops"].a) {
        const std::string o = op["op"].s;
        Out out;
        if (o == "write") {
            std::filesystem::remove_all(root + op["t"].s);
            write(kind, root + op["t"].s, op);
        } else if (o == "open") {
            int k = (int)op["k"].num();
            const std::string dir = root + op["t"].s;
            ds.erase(k);
            int err = guarded([&] {
                std::shared_ptr<dw::IDataset> d;
                if (kind == "iris") d = std::make_shared<s_iris::custom::IrisCSVDataset>(dir + "/iris.csv");
                else if (kind == "mnist") d = std::make_shared<s_mnist::custom::Dataset>(dir);
                else if (kind == "cifar10") d = std::make_shared<s_cifar10::custom::CIFAR10Dataset>(dir);
                else d = std::make_shared<s_cifar100::custom::CIFAR100Dataset>(dir);
                ds[k] = d;
            });
            out.n("err", err);
            if (!err) out.n("n", (long long)ds[k]->size()).arr("xs", ds[k]->shape().first).arr("ys", ds[k]->shape().second);
        } else if (o == "pull") {
            int k = (int)op["k"].num();
            if (!ds.count(k)) { emit(Out().n("err", 9).n("guards", 0).arr("x", std::vector<int>()).n("y", 0).end()); continue; }
            dw::Shape xs = ds[k]->shape().first, ys = ds[k]->shape().second;
            size_t nx = 1, ny = 1;
            for (int v : xs) nx *= (size_t)v;
            for (int v : ys) ny *= (size_t)v;
            // a slot of a batch: what lies around it stays as it is
            const float G = 12345.f;
            std::vector<float> bx(nx + 16, G), by(ny + 16, G);
            dw::Tensor X(xs, bx.data() + 8), y(ys, by.data() + 8);
            int err = guarded([&] { ds[k]->pull((int)op["i"].num(), X, y); });
            long long guards = 0;
            for (size_t i = 0; i < 8; ++i) guards += (bx[i] != G) + (bx[nx + 8 + i] != G) + (by[i] != G) + (by[ny + 8 + i] != G);
            guards += X.data() != bx.data() + 8 || y.data() != by.data() + 8;
            std::vector<long long> x;
            double unit = kind == "iris" ? 100 : 255;
            if (!err)
                for (size_t i = 0; i < nx; ++i) {
                    double v = (double)bx[8 + i] * unit, r = std::nearbyint(v);
                    x.push_back(std::fabs(v - r) < 1e-3 && std::fabs(r) < 1e8 ? (long long)r : C_INEXACT);
                }
            out.n("err", err).n("guards", guards).arr("x", x).n("y", err ? 0 : fx(by[8], 0, true));
        } else {                                    // train, test
            const std::string exe = std::string(getenv("VERIF_PROGS")) + "/sample_" + kind + ".prog";
            std::vector<std::string> a{o, root + op["root"].s + "/", std::to_string(op["batch"].num())};
            if (o == "train") { a.push_back(std::to_string(op["epochs"].num())); a.push_back(std::to_string(op["freq"].num())); }
            a.push_back(root + op["f"].s);
            emit(program(exe, a));
            continue;
        }
        emit(out.end());
    }
    std::filesystem::remove_all(root);
}
int main(int argc, char** argv) { return driver_main(argc, argv, {{"samples", samples}}); }
