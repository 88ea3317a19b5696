From 340f8cecb70fe1f681ce214a984b1afbfc8bb4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:17 +0000
Subject: [PATCH 01/24] fix: Tensor::reshape rejects negative dimensions

---
 src/runtime/tensor.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/runtime/tensor.cpp b/src/runtime/tensor.cpp
index 3fb2b37..07abafa 100644
--- a/src/runtime/tensor.cpp
+++ b/src/runtime/tensor.cpp
@@ -95,6 +95,10 @@ void dw::Tensor::allocate(const dw::Shape& shape) {
 }
 
 void dw::Tensor::reshape(const dw::Shape& shape) {
+    bool have_negative_dim = std::any_of(shape.begin(), shape.end(),
+                                         [](int dim) { return dim < 0; });
+    DeepWorks_Assert(!have_negative_dim && "Cannot reshape tensor to dynamic shape.");
+
     auto shape_total_size = std::accumulate(shape.begin(), shape.end(), 1, std::multiplies<int>());
     DeepWorks_Assert(shape_total_size == m_descriptor->total && "Total sizes must be equal");
 
-- 
2.43.0


From 02bfc4c3c9f94672545839de2e905e4d16d533a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:17 +0000
Subject: [PATCH 02/24] fix: Dropout backward applies the 1/(1-p) scale of the
 forward pass

---
 src/runtime/cpu/kernels/kernels.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime/cpu/kernels/kernels.cpp b/src/runtime/cpu/kernels/kernels.cpp
index 99d56d5..b750d11 100644
--- a/src/runtime/cpu/kernels/kernels.cpp
+++ b/src/runtime/cpu/kernels/kernels.cpp
@@ -360,7 +360,7 @@ void deepworks::CPUDropoutInputGrad(const Tensor& mask,
     ConstVector m_vec(mask.data(), mask.total());
     Vector      gi_vec(grad_input.data(), grad_input.total());
 
-    gi_vec += static_cast<M>((m_vec.array() >= p).select(go_vec.array(), 0.f));
+    gi_vec += static_cast<M>((m_vec.array() >= p).select(go_vec.array(), 0.f) / (1 - p));
 }
 
 void deepworks::CPUGlobalAvgPoolingForward(const Tensor& input, Tensor& output) {
-- 
2.43.0


From ae464da6fc08bbeca6ed5cd47e530547dc36ccc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:17 +0000
Subject: [PATCH 03/24] fix: MaxPooling padding never wins over negative inputs

---
 src/runtime/cpu/kernels/kernels.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime/cpu/kernels/kernels.cpp b/src/runtime/cpu/kernels/kernels.cpp
index b750d11..4687e35 100644
--- a/src/runtime/cpu/kernels/kernels.cpp
+++ b/src/runtime/cpu/kernels/kernels.cpp
@@ -220,7 +220,7 @@ void deepworks::CPUMaxPoolingForward(const Tensor& input,
     std::array<int, 2> dilation{1, 1};
     for (size_t i = 0; i < batch * c; i++) {
         Tensor src_plane({1, 1, h_in, w_in}, input.data() + i * input_offset);
-        im2col(src_plane, im2col_buf, kernel, padding, stride, dilation, std::numeric_limits<float>::min());
+        im2col(src_plane, im2col_buf, kernel, padding, stride, dilation, std::numeric_limits<float>::lowest());
 
         ConstMatrix col_mat{im2col_buf.data(), rows, cols};
         for (int j = 0; j < cols; j++) {
-- 
2.43.0


From 525f140f431af8fb7645096d5c583236993a924e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:17 +0000
Subject: [PATCH 04/24] fix: xavierUniform uses the Glorot limit sqrt(6 / (n_in
 + n_out))

---
 src/initializers.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/initializers.cpp b/src/initializers.cpp
index 0c0fe59..baa4595 100644
--- a/src/initializers.cpp
+++ b/src/initializers.cpp
@@ -20,7 +20,7 @@ void deepworks::initializer::xavierUniform(deepworks::Tensor& tensor) {
     DeepWorks_Assert(shape.size() >= 1);
     int inp_features = shape.size() == 2 ? shape[0] : tensor.total() / shape[0];
     int out_features = shape.size() == 2 ? shape[1] : shape[0];
-    auto a = std::sqrt(6.0) / (inp_features + out_features);
+    auto a = std::sqrt(6.0 / (inp_features + out_features));
     std::uniform_real_distribution<float> dist(-a, a);
     std::generate_n(tensor.data(), tensor.total(), [&dist, &gen]() { return dist(gen); });
 }
-- 
2.43.0


From f324c2b548f9cec76c0b6e8793431e81383c2c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:17 +0000
Subject: [PATCH 05/24] fix: BatchNorm2D reallocates its temporaries when the
 input shape changes

---
 src/runtime/cpu/layers/cpubatchnorm2d.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/runtime/cpu/layers/cpubatchnorm2d.cpp b/src/runtime/cpu/layers/cpubatchnorm2d.cpp
index 7ce9272..9e64b4c 100644
--- a/src/runtime/cpu/layers/cpubatchnorm2d.cpp
+++ b/src/runtime/cpu/layers/cpubatchnorm2d.cpp
@@ -49,12 +49,10 @@ void deepworks::cpu::CPUBatchNorm2D::forward(const std::vector<deepworks::Tensor
     int H = in_shape[2];
     int W = in_shape[3];
 
-    if (nhwc_in.empty()) {
+    // If input shape is changed need to create new temporary tensors
+    if (nhwc_in.shape() != Shape{N, H, W, C}) {
         nhwc_in  = Tensor({N, H, W, C});
         nhwc_out = Tensor({N, H, W, C});
-    }
-
-    if (m_input_centered.empty()) {
         m_input_centered = Tensor({N * H * W, C});
     }
 
-- 
2.43.0


From c61718b7105e3a85b3e28c4ac5f5351b929b0cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:17 +0000
Subject: [PATCH 06/24] fix: BatchNorm2D backward accumulates into the input
 gradient

---
 src/runtime/cpu/layers/cpubatchnorm2d.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/runtime/cpu/layers/cpubatchnorm2d.cpp b/src/runtime/cpu/layers/cpubatchnorm2d.cpp
index 9e64b4c..c351d53 100644
--- a/src/runtime/cpu/layers/cpubatchnorm2d.cpp
+++ b/src/runtime/cpu/layers/cpubatchnorm2d.cpp
@@ -91,7 +91,11 @@ void deepworks::cpu::CPUBatchNorm2D::backward(const std::vector<deepworks::Tenso
                                        {nhwc_in.data(), static_cast<int>(nhwc_in.total()) / C, C},
                                        {m_gamma.data(), C});
 
-    deepworks::utils::NHWC2NCHW(nhwc_in, grad_input);
+    // NB: Gradients are accumulated, because input may be used by several layers.
+    Tensor nchw_grad(grad_input.shape());
+    deepworks::utils::NHWC2NCHW(nhwc_in, nchw_grad);
+    Vector(grad_input.data(), static_cast<int>(grad_input.total())) +=
+        ConstVector(nchw_grad.data(), static_cast<int>(nchw_grad.total()));
 }
 
 void deepworks::cpu::CPUBatchNorm2D::updateGradients(const std::vector<Tensor>& /* inputs */,
-- 
2.43.0


From 20e2640c7633f771c050ccfe5764423fddcf5c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:17 +0000
Subject: [PATCH 07/24] fix: GraphBuilder visits a placeholder with several
 consumers only once

---
 src/model/graphbuilder.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/model/graphbuilder.cpp b/src/model/graphbuilder.cpp
index af67597..f168bff 100644
--- a/src/model/graphbuilder.cpp
+++ b/src/model/graphbuilder.cpp
@@ -89,11 +89,13 @@ deepworks::GraphBuilder::Unrolled deepworks::GraphBuilder::unroll(const deepwork
     // Travers over the graph and collect all data & operation nodes.
     while (!stack.empty()) {
         auto data = stack.top();
-        all_data.push_back(data);
-
         stack.pop();
         // NB: Mark input node as visited.
-        reached_data.insert(&data.impl());
+        // It might be pushed several times before it's visited.
+        if (!reached_data.insert(&data.impl()).second) {
+            continue;
+        }
+        all_data.push_back(data);
 
         auto has_call = data.impl().call;
         // NB: We reached the node without producer, so we found the input node.
-- 
2.43.0


From 75b912cd5f12fdf846e0d8be64341d8e5b7eef95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:17 +0000
Subject: [PATCH 08/24] fix: Model config keeps the user's order of inputs and
 outputs

---
 src/model/model.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/model/model.cpp b/src/model/model.cpp
index 886d3f5..e7982df 100644
--- a/src/model/model.cpp
+++ b/src/model/model.cpp
@@ -105,14 +105,15 @@ static void createConfig(TypedGraph& tgraph, dw::Model::Config& cfg) {
         const auto& d = tgraph.metadata(nh).get<Data>();
         deepworks::Model::Config::PlaceholderInfo ph_info{d.ph.shape(), d.id};
         cfg.ph_map.emplace(d.id, std::move(ph_info));
+    }
 
-        if (d.s == Data::Storage::INPUT) {
-            cfg.input_ids.push_back(d.id);
-        }
-
-        if (d.s == Data::Storage::OUTPUT) {
-            cfg.output_ids.push_back(d.id);
-        }
+    // NB: Keep the order of inputs/outputs specified by user.
+    const auto& info = tgraph.metadata().get<Info>();
+    for (const auto& nh : info.in_nhs) {
+        cfg.input_ids.push_back(tgraph.metadata(nh).get<Data>().id);
+    }
+    for (const auto& nh : info.out_nhs) {
+        cfg.output_ids.push_back(tgraph.metadata(nh).get<Data>().id);
     }
 
     sorted = tgraph.metadata().get<ade::passes::TopologicalSortData>().nodes();
-- 
2.43.0


From 50f71c05caac551722acf7ae1ea50e4d040054fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:26 +0000
Subject: [PATCH 09/24] fix: a model input that no output depends on gets a
 graph node

---
 src/model/graphbuilder.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/model/graphbuilder.cpp b/src/model/graphbuilder.cpp
index f168bff..01ac56a 100644
--- a/src/model/graphbuilder.cpp
+++ b/src/model/graphbuilder.cpp
@@ -50,7 +50,8 @@ void deepworks::GraphBuilder::build(const deepworks::Placeholders& ins,
     }
 
     // Get handles associated with plahceholders
-    auto extract = [this](const Placeholder& ph) { return m_data[&ph.impl()]; };
+    // NB: Input might not be used by any operation.
+    auto extract = [this](const Placeholder& ph) { return getDataNode(ph); };
 
     std::vector<ade::NodeHandle> in_handles;
     in_handles.reserve(ins.size());
-- 
2.43.0


From e614328e163e61a74f6816faf808db8844b4a596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:26 +0000
Subject: [PATCH 10/24] fix: Model::backward doesn't modify the output
 gradients passed by user

---
 src/runtime/cpu/cpubackend.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/runtime/cpu/cpubackend.cpp b/src/runtime/cpu/cpubackend.cpp
index 691455d..c22b3dc 100644
--- a/src/runtime/cpu/cpubackend.cpp
+++ b/src/runtime/cpu/cpubackend.cpp
@@ -118,7 +118,15 @@ void dwcpu::CPUBackend::backward(const std::vector<deepworks::Tensor>& inputs,
     const auto& info = m_tgraph.metadata().get<graph::Info>();
     bind(inputs      , info.in_nhs , m_mem);
     bind(outputs     , info.out_nhs, m_mem);
-    bind(grad_outputs, info.out_nhs, m_grad);
+
+    // NB: Gradients are accumulated during the pass, so work on a copy
+    // and leave tensors passed by user untouched.
+    std::vector<deepworks::Tensor> grad_outputs_copy;
+    for (const auto& grad : grad_outputs) {
+        grad_outputs_copy.emplace_back(grad.shape());
+        grad.copyTo(grad_outputs_copy.back());
+    }
+    bind(grad_outputs_copy, info.out_nhs, m_grad);
 
     auto extract_mem  = [this](int id) { return m_mem[id];  };
     auto extract_grad = [this](int id) { return m_grad[id]; };
-- 
2.43.0


From 9ab0a7792c91390cbe39bae0166293eb4c4342b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:26 +0000
Subject: [PATCH 11/24] fix: loading a truncated state, config or model file
 throws

---
 src/serialization.cpp | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/serialization.cpp b/src/serialization.cpp
index 87cbce1..2fc02a4 100644
--- a/src/serialization.cpp
+++ b/src/serialization.cpp
@@ -13,10 +13,16 @@ void write_value(T value, std::ofstream& file) {
     file.write(reinterpret_cast<char*>(&value), sizeof(value));
 }
 
+static void read_bytes(char* data, size_t size, std::ifstream& file) {
+    if (!file.read(data, size)) {
+        DeepWorks_Throw() << "Failed to read: file is truncated or wasn't opened";
+    }
+}
+
 template <typename T>
 T read_value(std::ifstream& file) {
     T value{};
-    file.read(reinterpret_cast<char*>(&value), sizeof(value));
+    read_bytes(reinterpret_cast<char*>(&value), sizeof(value), file);
     return value;
 }
 
@@ -32,8 +38,8 @@ T read_sequence(std::ifstream& file) {
     T seq{};
     auto size = read_value<size_t>(file);
     seq.resize(size);
-    file.read(reinterpret_cast<char*>(seq.data()),
-              size * sizeof(typename T::value_type));
+    read_bytes(reinterpret_cast<char*>(seq.data()),
+               size * sizeof(typename T::value_type), file);
     return seq;
 }
 
@@ -42,8 +48,9 @@ template <typename T, int S>
 std::array<T, S> read_array(std::ifstream& file) {
     std::array<T, S> seq;
     auto size = read_value<size_t>(file);
-    file.read(reinterpret_cast<char*>(seq.data()),
-              size * sizeof(T));
+    DeepWorks_Assert(size == S && "Unexpected size of array");
+    read_bytes(reinterpret_cast<char*>(seq.data()),
+               size * sizeof(T), file);
     return seq;
 }
 
@@ -99,8 +106,8 @@ void dw::load_state(Model::StateDict& state, std::ifstream& file) {
                               << "Actual: " << shape;
         }
 
-        file.read(reinterpret_cast<char*>(it->second.data()),
-                  it->second.total() * sizeof(dw::Tensor::Type));
+        read_bytes(reinterpret_cast<char*>(it->second.data()),
+                   it->second.total() * sizeof(dw::Tensor::Type), file);
     }
 }
 
-- 
2.43.0


From 0271b9ded1d14301664d679b891e20178eeebcc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:26 +0000
Subject: [PATCH 12/24] fix: saving a state, config or model throws if the file
 can't be written

---
 src/serialization.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/serialization.cpp b/src/serialization.cpp
index 2fc02a4..4bd2120 100644
--- a/src/serialization.cpp
+++ b/src/serialization.cpp
@@ -54,6 +54,13 @@ std::array<T, S> read_array(std::ifstream& file) {
     return seq;
 }
 
+static void finish_write(std::ofstream& file, const std::string& path) {
+    file.close();
+    if (!file) {
+        DeepWorks_Throw() << "Failed to write the file: " << path;
+    }
+}
+
 enum class SerializationKind : int {
     STATE,
     CONFIG
@@ -62,6 +69,7 @@ enum class SerializationKind : int {
 void dw::save_state(const Model::StateDict& state, const std::string& path) {
     std::ofstream file(path, std::ios::out | std::ios::binary);
     dw::save_state(state, file);
+    finish_write(file, path);
 }
 
 void dw::save_state(const Model::StateDict& state, std::ofstream& file) {
@@ -239,6 +247,7 @@ dw::Attributes read_attributes(std::ifstream& file) {
 void dw::save_cfg(const Model::Config& cfg, const std::string& path) {
     std::ofstream file(path, std::ios::out | std::ios::binary);
     dw::save_cfg(cfg, file);
+    finish_write(file, path);
 }
 
 void dw::save_cfg(const Model::Config& cfg, std::ofstream& file) {
@@ -307,6 +316,7 @@ void dw::save(const dw::Model& model, const std::string& path) {
     std::ofstream file(path, std::ios::out | std::ios::binary);
     dw::save_cfg(model.cfg()  , file);
     dw::save_state(model.state(), file);
+    finish_write(file, path);
 }
 
 dw::Model dw::load(const std::string& path) {
-- 
2.43.0


From 22db2bbd8f38556263a5a0f58b94538ae4c95eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:26 +0000
Subject: [PATCH 13/24] fix: load_cfg doesn't ask for write access to the file

---
 src/serialization.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/serialization.cpp b/src/serialization.cpp
index 4bd2120..de9e72c 100644
--- a/src/serialization.cpp
+++ b/src/serialization.cpp
@@ -276,7 +276,7 @@ void dw::save_cfg(const Model::Config& cfg, std::ofstream& file) {
 }
 
 dw::Model::Config dw::load_cfg(const std::string& path) {
-    std::ifstream file(path, std::ios::out | std::ios::binary);
+    std::ifstream file(path, std::ios::in | std::ios::binary);
     return dw::load_cfg(file);
 }
 
-- 
2.43.0


From cbbd33fd06a8df5b0df207938424ae44c63c2f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:26 +0000
Subject: [PATCH 14/24] fix: ReadImage throws instead of crashing when the file
 can't be opened

---
 src/io/image_reader.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/io/image_reader.cpp b/src/io/image_reader.cpp
index 75474c6..b44fc44 100644
--- a/src/io/image_reader.cpp
+++ b/src/io/image_reader.cpp
@@ -30,7 +30,6 @@ void ReadJpegFile(std::string_view path, deepworks::Tensor& out_tensor) {
     FILE *infile = fopen(path.data(), "rb");
 
     if (!infile) {
-        fclose(infile);
         DeepWorks_Throw() << "can't open file: " << path;
     }
 
@@ -101,7 +100,6 @@ void ReadPngFile(std::string_view path, deepworks::Tensor& out_tensor) {
 #ifdef HAVE_PNG
     FILE *infile = fopen(path.data(), "rb");
     if (!infile) {
-        fclose(infile);
         DeepWorks_Throw() << "can't open file: " << path;
     }
 
-- 
2.43.0


From aa4741cc77586a6229da0b21cd85f0cb152c61fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:26 +0000
Subject: [PATCH 15/24] fix: ReadImage doesn't read past the end of the path
 view

---
 src/io/image_reader.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/io/image_reader.cpp b/src/io/image_reader.cpp
index b44fc44..5a4c8cb 100644
--- a/src/io/image_reader.cpp
+++ b/src/io/image_reader.cpp
@@ -1,5 +1,7 @@
 #include <stdexcept>
 #include <sstream>
+#include <string>
+#include <string_view>
 
 #include <deepworks/tensor.hpp>
 #include <deepworks/utils/assert.hpp>
@@ -27,7 +29,7 @@ void ReadJpegFile(std::string_view path, deepworks::Tensor& out_tensor) {
 #ifdef HAVE_JPEG
     struct jpeg_decompress_struct cinfo{};
     struct jpeg_error_mgr err{};
-    FILE *infile = fopen(path.data(), "rb");
+    FILE *infile = fopen(std::string(path).c_str(), "rb");
 
     if (!infile) {
         DeepWorks_Throw() << "can't open file: " << path;
@@ -98,7 +100,7 @@ void ReadJpegFile(std::string_view path, deepworks::Tensor& out_tensor) {
 
 void ReadPngFile(std::string_view path, deepworks::Tensor& out_tensor) {
 #ifdef HAVE_PNG
-    FILE *infile = fopen(path.data(), "rb");
+    FILE *infile = fopen(std::string(path).c_str(), "rb");
     if (!infile) {
         DeepWorks_Throw() << "can't open file: " << path;
     }
-- 
2.43.0


From 8dcf7b96f210faa814dc62fc99d8893580380a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:26 +0000
Subject: [PATCH 16/24] fix: ReadImage throws instead of terminating the
 process on a corrupted JPEG

---
 src/io/image_reader.cpp | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/io/image_reader.cpp b/src/io/image_reader.cpp
index 5a4c8cb..4cfa333 100644
--- a/src/io/image_reader.cpp
+++ b/src/io/image_reader.cpp
@@ -7,6 +7,8 @@
 #include <deepworks/utils/assert.hpp>
 
 #ifdef HAVE_JPEG
+#include <csetjmp>
+#include <cstdio> // jpeglib.h needs FILE
 #include <jpeglib.h>
 #endif
 
@@ -25,10 +27,22 @@ bool IsJpegFile(std::string_view path) {
     return path.substr(path.find_last_of(".") + 1) == "jpg" || path.substr(path.find_last_of(".") + 1) == "jpeg";
 }
 
+#ifdef HAVE_JPEG
+struct JpegErrorManager {
+    jpeg_error_mgr base;
+    jmp_buf        env;
+};
+
+// NB: Default handler terminates the process.
+void JpegErrorExit(j_common_ptr cinfo) {
+    longjmp(reinterpret_cast<JpegErrorManager*>(cinfo->err)->env, 1);
+}
+#endif
+
 void ReadJpegFile(std::string_view path, deepworks::Tensor& out_tensor) {
 #ifdef HAVE_JPEG
     struct jpeg_decompress_struct cinfo{};
-    struct jpeg_error_mgr err{};
+    JpegErrorManager err{};
     FILE *infile = fopen(std::string(path).c_str(), "rb");
 
     if (!infile) {
@@ -50,8 +64,14 @@ void ReadJpegFile(std::string_view path, deepworks::Tensor& out_tensor) {
         destroy();
     };
 
+    cinfo.err = jpeg_std_error(&err.base);
+    err.base.error_exit = JpegErrorExit;
+    if (setjmp(err.env)) {
+        destroy();
+        DeepWorks_Throw() << "can't decode file: " << path;
+    }
+
     try {
-        cinfo.err = jpeg_std_error(&err);
         jpeg_create_decompress(&cinfo);
         jpeg_stdio_src(&cinfo, infile);
 
-- 
2.43.0


From b097fcc0ea525d8d4acad61ef9aa9d33302cbd72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:26 +0000
Subject: [PATCH 17/24] fix: ReadImage decodes PNG files with other than 8 bits
 per channel

---
 src/io/image_reader.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/io/image_reader.cpp b/src/io/image_reader.cpp
index 4cfa333..4dd7b30 100644
--- a/src/io/image_reader.cpp
+++ b/src/io/image_reader.cpp
@@ -130,10 +130,8 @@ void ReadPngFile(std::string_view path, deepworks::Tensor& out_tensor) {
     png_infop   info_ptr{};
     try {
         char header[8];
-        // FIXME: Handle that properly.
         size_t sz = fread(header, 1, 8, infile);
-        (void)sz;
-        if (png_sig_cmp(reinterpret_cast<png_const_bytep>(header), 0, 8)) {
+        if (sz != 8 || png_sig_cmp(reinterpret_cast<png_const_bytep>(header), 0, 8)) {
             DeepWorks_Throw() << "File is not a PNG file: " << path;
         }
         png_ptr = png_create_read_struct(PNG_LIBPNG_VER_STRING, NULL, NULL, NULL);
@@ -147,11 +145,21 @@ void ReadPngFile(std::string_view path, deepworks::Tensor& out_tensor) {
 
         png_read_info(png_ptr, info_ptr);
 
+        // NB: Tensor is filled by bytes, so every channel should be 8 bit.
+        png_set_strip_16(png_ptr);
+        if (png_get_color_type(png_ptr, info_ptr) == PNG_COLOR_TYPE_PALETTE) {
+            png_set_palette_to_rgb(png_ptr);
+        }
+        if (png_get_bit_depth(png_ptr, info_ptr) < 8) {
+            png_set_expand_gray_1_2_4_to_8(png_ptr);
+        }
+        png_set_interlace_handling(png_ptr);
+        png_read_update_info(png_ptr, info_ptr);
+
         int width = static_cast<int>(png_get_image_width(png_ptr, info_ptr));
         int height = static_cast<int>(png_get_image_height(png_ptr, info_ptr));
         int channels = static_cast<int>(png_get_channels(png_ptr, info_ptr));
 
-        png_read_update_info(png_ptr, info_ptr);
         if (out_tensor.empty()) {
             out_tensor.allocate(deepworks::Shape{height, width, channels});
         } else {
-- 
2.43.0


From 08f3def0280bfcb42bdab9e43f8d62d93ecbafca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:12 +0000
Subject: [PATCH 18/24] fix: a layer doesn't create parameters for an input
 shape it rejects

---
 include/deepworks/base_op.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/deepworks/base_op.hpp b/include/deepworks/base_op.hpp
index f7f2675..087fab4 100644
--- a/include/deepworks/base_op.hpp
+++ b/include/deepworks/base_op.hpp
@@ -31,11 +31,13 @@ struct BaseOp {
     template <typename... Placeholders>
     Placeholder operator()(Placeholders... ins) {
         auto get_shape = [](Placeholder ph) { return ph.shape(); };
+        // NB: Shapes are checked first, parameters aren't created for invalid ones.
+        auto out_shape = static_cast<D*>(this)->outShape(get_shape(ins)...);
         static_cast<D*>(this)->init(get_shape(ins)...);
 
         Call call{m_info};
         call.pass({ins...});
-        return call.create(static_cast<D*>(this)->outShape(get_shape(ins)...));
+        return call.create(out_shape);
     }
 
     // NB: Generic operator() which works with vector
-- 
2.43.0


From 4b1d8d5ee06d1d4f3437058c7c8258d784408633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:22 +0000
Subject: [PATCH 19/24] Revert "fix: xavierUniform uses the Glorot limit sqrt(6
 / (n_in + n_out))"

This reverts commit 525f140f431af8fb7645096d5c583236993a924e.
---
 src/initializers.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/initializers.cpp b/src/initializers.cpp
index baa4595..0c0fe59 100644
--- a/src/initializers.cpp
+++ b/src/initializers.cpp
@@ -20,7 +20,7 @@ void deepworks::initializer::xavierUniform(deepworks::Tensor& tensor) {
     DeepWorks_Assert(shape.size() >= 1);
     int inp_features = shape.size() == 2 ? shape[0] : tensor.total() / shape[0];
     int out_features = shape.size() == 2 ? shape[1] : shape[0];
-    auto a = std::sqrt(6.0 / (inp_features + out_features));
+    auto a = std::sqrt(6.0) / (inp_features + out_features);
     std::uniform_real_distribution<float> dist(-a, a);
     std::generate_n(tensor.data(), tensor.total(), [&dist, &gen]() { return dist(gen); });
 }
-- 
2.43.0


From 933a7e7e8e57d299de7f74f132db603b626000c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:57 +0000
Subject: [PATCH 20/24] fix: save_dot quotes and escapes layer names and
 reports failed writes

---
 src/serialization.cpp | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/serialization.cpp b/src/serialization.cpp
index de9e72c..056af90 100644
--- a/src/serialization.cpp
+++ b/src/serialization.cpp
@@ -119,6 +119,18 @@ void dw::load_state(Model::StateDict& state, std::ifstream& file) {
     }
 }
 
+// NB: Layer names may contain any symbols, so they are always quoted in dot.
+static std::string dot_escape(const std::string& name) {
+    std::string escaped;
+    for (char c : name) {
+        if (c == '"' || c == '\\') {
+            escaped += '\\';
+        }
+        escaped += c;
+    }
+    return escaped;
+}
+
 void dw::save_dot(const dw::Model::Config& cfg,
                   const std::string& path) {
     std::ofstream file(path, std::ios::out);
@@ -134,18 +146,20 @@ void dw::save_dot(const dw::Model::Config& cfg,
 
     for (const auto& op : cfg.sorted_ops) {
         // FIXME: Dump more info, attributes, parameters, named buffers...
-        file << op.name << " [shape=box, label=\"" << op.name
-                        << " (" << op.type << ")" << "\" ]" << std::endl;
+        auto name = dot_escape(op.name);
+        file << "\"" << name << "\" [shape=box, label=\"" << name
+             << " (" << op.type << ")" << "\" ]" << std::endl;
     }
 
     for (const auto& op : cfg.sorted_ops) {
+        auto op_name = dot_escape(op.name);
         for (auto it : ade::util::indexed(op.in_ids)) {
             auto port  = ade::util::index(it);
             auto in_id = ade::util::value(it);
 
             const auto& ph = cfg.ph_map.at(in_id);
             std::string name = "Placeholder_" + std::to_string(ph.id);
-            file << name << " -> \"" << op.name << "\" [ label = \"in_port: "
+            file << name << " -> \"" << op_name << "\" [ label = \"in_port: "
                << port << "\" ]" << std::endl;
         }
 
@@ -155,12 +169,13 @@ void dw::save_dot(const dw::Model::Config& cfg,
 
             const auto& ph = cfg.ph_map.at(out_id);
             std::string name = "Placeholder_" + std::to_string(ph.id);
-            file << op.name << " -> " << name << " [ label = \"out_port: "
+            file << "\"" << op_name << "\" -> " << name << " [ label = \"out_port: "
                << port << "\" ];" << std::endl;
         }
     }
 
     file << "}";
+    finish_write(file, path);
 }
 
 void write_attribute(const dw::Attribute& attr, std::ofstream& file) {
-- 
2.43.0


From 98ad89b32cf97b6a7e2adbd5f91595aca9fedc63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:57 +0000
Subject: [PATCH 21/24] fix: every thread draws random numbers from a generator
 of its own

---
 src/utils/generator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/generator.hpp b/src/utils/generator.hpp
index 7e87543..3e36dfd 100644
--- a/src/utils/generator.hpp
+++ b/src/utils/generator.hpp
@@ -6,7 +6,7 @@ namespace deepworks {
 namespace utils {
 
 inline std::mt19937& generator() {
-    static std::mt19937 gen{std::random_device{}()};
+    static thread_local std::mt19937 gen{std::random_device{}()};
     return gen;
 }
 
-- 
2.43.0


From b5b22668d1670086a2053abe85dd6158d6cc82d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:32 +0000
Subject: [PATCH 22/24] fix: the iris sample refuses a missing table,
 incomplete rows and unknown species

---
 samples/iris/utility.cpp | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/samples/iris/utility.cpp b/samples/iris/utility.cpp
index 74013b4..946cae8 100644
--- a/samples/iris/utility.cpp
+++ b/samples/iris/utility.cpp
@@ -1,5 +1,8 @@
 #include "utility.hpp"
 
+#include <fstream>
+#include <stdexcept>
+
 namespace dw = deepworks;
 
 namespace {
@@ -31,20 +34,37 @@ custom::IrisCSVDataset::IrisCSVDataset(const std::string& csv_path) {
 
     std::ifstream iris_dataset;
     iris_dataset.open(csv_path);
+    if (!iris_dataset.is_open()) {
+        throw std::runtime_error("Cannot open " + csv_path);
+    }
 
     std::string iris;
     // read headers
     std::getline(iris_dataset, iris);
 
     while (std::getline(iris_dataset, iris)) {
+        if (!iris.empty() && iris.back() == '\r') {
+            iris.pop_back();
+        }
+        if (iris.empty()) {
+            continue;
+        }
+
         auto features = SplitLineByComma(iris);
+        if (features.size() != 5u) {
+            throw std::runtime_error("Expected 4 features and a species in the row: " + iris);
+        }
 
         float sepal_length = std::atof(features[0].c_str());
         float sepal_width  = std::atof(features[1].c_str());
         float petal_length = std::atof(features[2].c_str());
         float petal_width  = std::atof(features[3].c_str());
 
-        int label = m_iris2label[features[4]];
+        auto label_it = m_iris2label.find(features[4]);
+        if (label_it == m_iris2label.end()) {
+            throw std::runtime_error("Unknown species: " + features[4]);
+        }
+        int label = label_it->second;
 
         m_info.push_back(IrisInfo{sepal_length, sepal_width, petal_length, petal_width, label});
     }
-- 
2.43.0


From e784966189be7b79b7b1f9163c8f68c656c5ccfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:33 +0000
Subject: [PATCH 23/24] fix: the cifar10 sample refuses a folder of an unknown
 class

---
 samples/cifar10/utility.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/samples/cifar10/utility.cpp b/samples/cifar10/utility.cpp
index b41c83a..9a46aeb 100644
--- a/samples/cifar10/utility.cpp
+++ b/samples/cifar10/utility.cpp
@@ -2,6 +2,7 @@
 
 #include <algorithm>
 #include <filesystem>
+#include <stdexcept>
 
 namespace dw = deepworks;
 namespace fs = std::filesystem;
@@ -26,7 +27,11 @@ void custom::normalize(dw::Tensor& t, float scale) {
 
 custom::CIFAR10Dataset::CIFAR10Dataset(const std::string& root) {
     for (const auto & dir : fs::directory_iterator(root)) {
-        int label = label2digit[dir.path().filename()];
+        auto label_it = label2digit.find(dir.path().filename());
+        if (label_it == label2digit.end()) {
+            throw std::runtime_error("Unknown class: " + dir.path().filename().string());
+        }
+        int label = label_it->second;
         for (const auto& filename : fs::directory_iterator(dir.path())) {
             m_info.push_back(custom::CIFAR10Dataset::DataInfo{filename.path(), label});
         }
-- 
2.43.0


From e6e047b2e39bdde784b70c4eee39273fcb66db20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:07 +0000
Subject: [PATCH 24/24] fix: convolution and max pooling refuse a kernel larger
 than the padded input

---
 src/expression/nn.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/expression/nn.cpp b/src/expression/nn.cpp
index d0b9d66..a928d07 100644
--- a/src/expression/nn.cpp
+++ b/src/expression/nn.cpp
@@ -218,6 +218,10 @@ dw::Shape dw::MaxPooling::outShape(const dw::Shape& in_shape) {
     auto padding = m_info.impl().attrs["padding"].get<std::array<int, 2>>();
     auto stride  = m_info.impl().attrs["stride"].get<std::array<int, 2>>();
 
+    DeepWorks_Assert(kernel[Kernel::KH] <= in_shape[Input::H] + 2 * padding[Kernel::KH] &&
+                     kernel[Kernel::KW] <= in_shape[Input::W] + 2 * padding[Kernel::KW] &&
+                     "MaxPooling kernel doesn't fit in the padded input");
+
     int h_out = (in_shape[Input::H] + 2 * padding[Kernel::KH] - kernel[Kernel::KH]) / stride[Kernel::KH] + 1;
     int w_out = (in_shape[Input::W] + 2 * padding[Kernel::KW] - kernel[Kernel::KW]) / stride[Kernel::KW] + 1;
     return {in_shape[0], in_shape[1], h_out, w_out};
@@ -255,6 +259,10 @@ dw::Shape dw::Convolution::outShape(const dw::Shape& in_shape) {
     auto padding = m_info.impl().attrs["padding"].get<std::array<int, 2>>();
     auto stride  = m_info.impl().attrs["stride"].get<std::array<int, 2>>();
 
+    DeepWorks_Assert(kernel[Kernel::KH] <= in_shape[Input::H] + 2 * padding[Kernel::KH] &&
+                     kernel[Kernel::KW] <= in_shape[Input::W] + 2 * padding[Kernel::KW] &&
+                     "Convolution kernel doesn't fit in the padded input");
+
     int h_out = (in_shape[Input::H] + 2 * padding[Kernel::KH] - kernel[Kernel::KH]) / stride[Kernel::KH] + 1;
     int w_out = (in_shape[Input::W] + 2 * padding[Kernel::KW] - kernel[Kernel::KW]) / stride[Kernel::KW] + 1;
     return {in_shape[0], out_channels, h_out, w_out};
-- 
2.43.0

