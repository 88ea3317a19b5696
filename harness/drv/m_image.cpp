// Image files written with libpng/libjpeg, read through deepworks::io::ReadImage.
#include "common.hpp"
#include <csetjmp>
#include <dirent.h>
#include <jpeglib.h>
#include <png.h>
#include <sys/stat.h>
#include <unistd.h>
#include <deepworks/deepworks.hpp>
#include <deepworks/image_reader.hpp>
namespace dw = deepworks;

static std::string slurp(const std::string& p) {
    std::ifstream f(p, std::ios::binary);
    return std::string(std::istreambuf_iterator<char>(f), {});
}
static void spit(const std::string& p, const std::string& s) {
    std::ofstream f(p, std::ios::binary | std::ios::trunc);
    f.write(s.data(), (std::streamsize)s.size());
    if (!f.flush()) _Exit(97);
}
static int nfds() {
    int n = 0;
    DIR* d = opendir("/proc/self/fd");
    while (readdir(d)) ++n;
    closedir(d);
    return n;
}

// samples: one int per channel per pixel (palette index for ct 3)
static void write_png(const std::string& path, const J& op) {
    int w = (int)op["w"].num(), h = (int)op["h"].num(), ct = (int)op["ct"].num(), d = (int)op["d"].num();
    int ch = ct == 0 || ct == 3 ? 1 : ct == 2 ? 3 : ct == 4 ? 2 : 4;
    FILE* f = fopen(path.c_str(), "wb");
    png_structp p = png_create_write_struct(PNG_LIBPNG_VER_STRING, nullptr, nullptr, nullptr);
    png_infop i = png_create_info_struct(p);
    if (!f || setjmp(png_jmpbuf(p))) _Exit(97);
    png_init_io(p, f);
    png_set_IHDR(p, i, (png_uint_32)w, (png_uint_32)h, d, ct, op["il"].num() ? PNG_INTERLACE_ADAM7 : PNG_INTERLACE_NONE,
                 PNG_COMPRESSION_TYPE_DEFAULT, PNG_FILTER_TYPE_DEFAULT);
    std::vector<png_color> pal;
    if (ct == 3) {
        for (size_t k = 0; k + 2 < op["pal"].a.size(); k += 3)
            pal.push_back({(png_byte)op["pal"][k].num(), (png_byte)op["pal"][k + 1].num(), (png_byte)op["pal"][k + 2].num()});
        png_set_PLTE(p, i, pal.data(), (int)pal.size());
    }
    png_write_info(p, i);
    size_t rb = ((size_t)w * ch * d + 7) / 8;
    std::vector<std::vector<png_byte>> rows((size_t)h, std::vector<png_byte>(rb, 0));
    std::vector<png_bytep> rp;
    size_t k = 0;
    for (auto& r : rows) {
        for (int x = 0; x < w * ch; ++x, ++k) {
            unsigned v = (unsigned)op["v"][k].num();
            if (d == 16) { r[(size_t)x * 2] = (png_byte)(v >> 8); r[(size_t)x * 2 + 1] = (png_byte)v; }
            else if (d == 8) r[(size_t)x] = (png_byte)v;
            else r[(size_t)(x * d / 8)] |= (png_byte)(v << (8 - d - (x * d) % 8));
        }
        rp.push_back(r.data());
    }
    png_write_image(p, rp.data());
    png_write_end(p, i);
    png_destroy_write_struct(&p, &i);
    fclose(f);
}

static void write_jpg(const std::string& path, const J& op) {
    jpeg_compress_struct c{};
    jpeg_error_mgr e{};
    c.err = jpeg_std_error(&e);
    jpeg_create_compress(&c);
    FILE* f = fopen(path.c_str(), "wb");
    if (!f) _Exit(97);
    jpeg_stdio_dest(&c, f);
    int w = (int)op["w"].num(), h = (int)op["h"].num(), ch = (int)op["c"].num();
    c.image_width = (JDIMENSION)w; c.image_height = (JDIMENSION)h; c.input_components = ch;
    c.in_color_space = ch == 1 ? JCS_GRAYSCALE : JCS_RGB;
    jpeg_set_defaults(&c);
    jpeg_set_quality(&c, (int)op["q"].num(), TRUE);
    if (op["prog"].num()) jpeg_simple_progression(&c);
    jpeg_start_compress(&c, TRUE);
    std::vector<JSAMPLE> row((size_t)(w * ch));
    size_t k = 0;
    for (int y = 0; y < h; ++y) {
        for (auto& x : row) x = (JSAMPLE)op["v"][k++].num();
        JSAMPROW r = row.data();
        jpeg_write_scanlines(&c, &r, 1);
    }
    jpeg_finish_compress(&c);
    jpeg_destroy_compress(&c);
    fclose(f);
}
static std::vector<int> decode_jpg(const std::string& path) {       // the reference decoding
    jpeg_decompress_struct c{};
    jpeg_error_mgr e{};
    c.err = jpeg_std_error(&e);
    jpeg_create_decompress(&c);
    FILE* f = fopen(path.c_str(), "rb");
    jpeg_stdio_src(&c, f);
    jpeg_read_header(&c, TRUE);
    jpeg_start_decompress(&c);
    std::vector<int> px;
    std::vector<JSAMPLE> row(c.output_width * (size_t)c.output_components);
    while (c.output_scanline < c.output_height) {
        JSAMPROW r = row.data();
        jpeg_read_scanlines(&c, &r, 1);
        px.insert(px.end(), row.begin(), row.end());
    }
    jpeg_finish_decompress(&c);
    jpeg_destroy_decompress(&c);
    fclose(f);
    return px;
}

static void run(const J& sc, const Emit& emit) {
    char tmpl[] = "imgXXXXXX";
    std::string dir = mkdtemp(tmpl);
    if (!g_concurrent && freopen("/dev/null", "w", stderr) == nullptr) _Exit(97);     // decoder warnings
    dw::Tensor keep;
    std::vector<std::string> made;
    for (auto& op : sc["ops"].a) {
        std::string k = op["op"].s, path = dir + "/" + op["f"].s;
        if (k != "read") {
            Out o;
            if (k == "png") write_png(path, op);
            else if (k == "jpg") { write_jpg(path, op); o.arr("px", decode_jpg(path)); }
            else if (k == "rm") unlink(path.c_str());
            else if (k == "dir") mkdir(path.c_str(), 0755);
            else if (k == "copy") { spit(dir + "/" + op["g"].s, slurp(path)); made.push_back(op["g"].s); }
            else if (k == "text") spit(path, std::string((size_t)op["n"].num(), 'x'));
            else if (k == "trunc" || k == "flip") {
                std::string s = slurp(path);
                size_t at = s.empty() ? 0 : (size_t)op["at"].num() % s.size();
                if (k == "trunc") s.resize(at); else if (!s.empty()) s[at] = (char)(s[at] ^ (1 << (op["bit"].num() & 7)));
                spit(path, s);
            } else _Exit(97);
            made.push_back(op["f"].s);
            emit(o.n("err", 0).end());
            continue;
        }
        std::string t = op["t"].s;
        dw::Shape want(op["sh"].ints());
        size_t n = 1;
        for (int d : want) n *= (size_t)d;
        std::vector<float> mem;
        dw::Tensor own;
        if (t == "alloc") { own.allocate(want); for (size_t i = 0; i < n; ++i) own.data()[i] = -7.f; }
        if (t == "view") { mem.assign(n + 16, -9.f); own = dw::Tensor(want, mem.data() + 8); }
        if (t == "reuse") own = keep;
        dw::Shape sh0 = own.shape();
        const float* p0 = own.data();
        // the path as a view into a longer, unterminated buffer
        std::string buf = path + "zz.jpg.png";
        std::string_view pv = op.flag("cut") ? std::string_view(buf.data(), path.size()) : std::string_view(path);
        int before = nfds();
        int err = guarded([&] {
            if (t == "ret") own = dw::io::ReadImage(pv); else dw::io::ReadImage(pv, own);
        });
        int after = nfds();
        bool guards = true;
        for (size_t i = 0; i < 8 && !mem.empty(); ++i) guards = guards && mem[i] == -9.f && mem[n + 8 + i] == -9.f;
        Out o;
        o.n("err", err).b("guards", guards).n("leak", g_concurrent ? 0 : after - before);
        o.b("place", t == "alloc" || t == "view" || (t == "reuse" && p0) ? own.data() == p0 : true).arr("sh", own.shape());
        bool kept = own.shape() == sh0;
        if (t == "alloc" && kept) for (size_t i = 0; i < n; ++i) kept = kept && own.data()[i] == -7.f;
        o.b("kept", kept);
        std::vector<long long> v;
        if (!err) for (size_t i = 0; i < own.total(); ++i) v.push_back(fx(own.data()[i], 0, true));
        if (!err && t == "reuse") keep = own; else if (t == "reuse") keep = dw::Tensor();
        emit(o.arr("v", v).end());
    }
    for (auto& m : made) { unlink((dir + "/" + m).c_str()); rmdir((dir + "/" + m).c_str()); }
    rmdir(dir.c_str());
}
int main(int argc, char** argv) { return driver_main(argc, argv, {{"image", run}}); }
