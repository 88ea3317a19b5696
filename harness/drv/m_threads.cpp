// Several histories at once, one per thread, each on objects of its own (built with ThreadSanitizer).
#include "common.hpp"
#include <algorithm>
#include <atomic>
#include <csetjmp>
#include <deque>
#include <dirent.h>
#include <jpeglib.h>
#include <omp.h>
#include <png.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <thread>
#include <unistd.h>
#include <deepworks/deepworks.hpp>
#include <deepworks/dataloader.hpp>
#include <deepworks/image_reader.hpp>
#include <deepworks/initializers.hpp>
#include <deepworks/loss.hpp>
#include <deepworks/metrics.hpp>
#include <deepworks/model.hpp>
#include <deepworks/nn.hpp>
#include <deepworks/optimizer.hpp>
#include <deepworks/serialization.hpp>
#include <deepworks/utils/assert.hpp>
#include <deepworks/utils/utils.hpp>
#include "impl.hpp"
#include "runtime/cpu/layers/cpulayer.hpp"
static std::map<std::string, Machine> all;
static int collect(int, char**, const std::map<std::string, Machine>& m) { all.insert(m.begin(), m.end()); return 0; }
#define driver_main collect
namespace n_tensor { 
#include "m_tensor.cpp"
}
namespace n_layer {
#include "m_layer.cpp"
}
namespace n_opt {
#include "m_opt.cpp"
}
namespace n_loader {
#include "m_loader.cpp"
}
namespace n_misc {
#include "m_misc.cpp"
}
namespace n_shape {
#include "m_shape.cpp"
}
namespace n_image {
#include "m_image.cpp"
}
namespace n_model {
#include "m_model.cpp"
}
#undef driver_main

static void run(const J& sc, const Emit& emit) {
    const auto& subs = sc["subs"].a;
    g_concurrent = true;
    std::vector<std::vector<std::string>> res(subs.size());
    std::atomic<int> ready{0};
    std::vector<std::thread> ts;
    for (size_t k = 0; k < subs.size(); ++k)
        ts.emplace_back([&, k] {
            const Machine& m = all.at(subs[k]["m"].s);
            ready.fetch_add(1);
            while (ready.load() < (int)subs.size()) std::this_thread::yield();
            m(subs[k], [&](const std::string& r) { res[k].push_back(r); });
        });
    for (auto& t : ts) t.join();
    for (size_t k = 0; k < subs.size(); ++k) emit(Out().n("n", (long long)res[k].size()).raw("res", jarr(res[k])).end());
}
int main(int argc, char** argv) {
    n_tensor::main(0, nullptr); n_layer::main(0, nullptr); n_opt::main(0, nullptr); n_loader::main(0, nullptr);
    n_misc::main(0, nullptr); n_shape::main(0, nullptr); n_image::main(0, nullptr); n_model::main(0, nullptr);
    all["threads"] = run;
    return driver_main(argc, argv, all);
}
