From 07c7c4d076384fb9468db5e255287769f2714a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:22 +0000
Subject: [PATCH 01/83] fix: transpose without permute swaps the last two
 dimensions

---
 src/backend/base/base_transpose.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/backend/base/base_transpose.cpp b/src/backend/base/base_transpose.cpp
index 4fc553d..5a824a4 100644
--- a/src/backend/base/base_transpose.cpp
+++ b/src/backend/base/base_transpose.cpp
@@ -61,8 +61,7 @@ namespace ts {
                 permute[i] = int(i);
             }
             if (permute.size() >= 2) {
-                permute[permute.size() - 2] = permute[permute.size() - 1];
-                permute[permute.size() - 1] = permute[permute.size() - 2];
+                std::swap(permute[permute.size() - 2], permute[permute.size() - 1]);
             }
             return std::move(permute);
         }
-- 
2.43.0


From 8fbf0deb72f736fdadcfb8b96f2c6a569933b6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:05 +0000
Subject: [PATCH 02/83] fix: chunk and split only produce parts that lie inside
 the input

---
 src/backend/base/base_chunk.cpp | 6 +++---
 src/backend/base/base_split.cpp | 7 +++++++
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/backend/base/base_chunk.cpp b/src/backend/base/base_chunk.cpp
index d733646..ed5c258 100644
--- a/src/backend/base/base_chunk.cpp
+++ b/src/backend/base/base_chunk.cpp
@@ -46,9 +46,9 @@ namespace ts {
 
             auto bins = split_bins(0, dim_size, m_chunks);
 
-            output.resize(m_chunks);
+            output.resize(bins.size());
 
-            for (int i = 0; i < m_chunks; ++i) {
+            for (size_t i = 0; i < bins.size(); ++i) {
                 DTYPE proto_dtype = x.dtype();
                 Shape proto_shape = x.sizes();
                 proto_shape[fixed_dim] = bins[i].second - bins[i].first;
@@ -60,7 +60,7 @@ namespace ts {
 
         int Chunk::infer(Stack &stack, std::vector<Tensor::Prototype> &output) {
             infer_return_dim(stack, m_chunks, m_dim, output);
-            return m_chunks;
+            return int(output.size());
         }
 
         int Chunk::run(Stack &stack) {
diff --git a/src/backend/base/base_split.cpp b/src/backend/base/base_split.cpp
index e39c712..d6a138d 100644
--- a/src/backend/base/base_split.cpp
+++ b/src/backend/base/base_split.cpp
@@ -25,6 +25,13 @@ namespace ts {
 
             TS_AUTO_CHECK((dim >= 0) && (dim < int(x_shape.size())));
 
+            int split_sum = 0;
+            for (auto size : split) {
+                TS_AUTO_CHECK(size >= 0);
+                split_sum += size;
+            }
+            TS_AUTO_CHECK(split_sum == x_shape[dim]);
+
             std::vector<Tensor::Prototype> shapes;
             for (auto size : split) {
                 auto shape = x_shape;
-- 
2.43.0


From 1d7ac6fb7f8c80626e2206f7ca480dd618d64c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:08 +0000
Subject: [PATCH 03/83] fix: slicing backwards to end == -size keeps the first
 element out

---
 src/backend/base/base_slice_v3.cpp      | 2 +-
 src/backend/base/base_strided_slice.cpp | 2 +-
 src/runtime/inferer/factory.cpp         | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/backend/base/base_slice_v3.cpp b/src/backend/base/base_slice_v3.cpp
index 0550c06..ed01d60 100644
--- a/src/backend/base/base_slice_v3.cpp
+++ b/src/backend/base/base_slice_v3.cpp
@@ -47,7 +47,7 @@ namespace ts {
                     else if (end < 0) end += x;
                 } else {
                     if (end > x) return 0;     // no elements
-                    else if (end <= -x) end = -1;
+                    else if (end < -x) end = -1;
                     else if (end < 0) end += x;
                 }
             }
diff --git a/src/backend/base/base_strided_slice.cpp b/src/backend/base/base_strided_slice.cpp
index e6b5537..72f6d89 100644
--- a/src/backend/base/base_strided_slice.cpp
+++ b/src/backend/base/base_strided_slice.cpp
@@ -71,7 +71,7 @@ namespace ts {
                     else if (end < 0) end += x;
                 } else {
                     if (end > x) return 0;     // no elements
-                    else if (end <= -x) end = -1;
+                    else if (end < -x) end = -1;
                     else if (end < 0) end += x;
                 }
             }
diff --git a/src/runtime/inferer/factory.cpp b/src/runtime/inferer/factory.cpp
index 3d2a286..7664bd6 100644
--- a/src/runtime/inferer/factory.cpp
+++ b/src/runtime/inferer/factory.cpp
@@ -2038,7 +2038,7 @@ namespace ts {
                         else if (end < 0) end += x;
                     } else {
                         if (end > x) return 0;     // no elements
-                        else if (end <= -x) end = -1;
+                        else if (end < -x) end = -1;
                         else if (end < 0) end += x;
                     }
                 }
-- 
2.43.0


From 75e42be0d32565adfddc489c4e0321c2711f41c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:08 +0000
Subject: [PATCH 04/83] fix: slice_v3 resolves negative axes and checks the
 lengths of ends and steps

---
 src/backend/base/base_slice_v3.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/backend/base/base_slice_v3.cpp b/src/backend/base/base_slice_v3.cpp
index ed01d60..a27b578 100644
--- a/src/backend/base/base_slice_v3.cpp
+++ b/src/backend/base/base_slice_v3.cpp
@@ -359,6 +359,9 @@ namespace ts {
                 steps = Shape(slice_size, 1);
             }
 
+            TS_AUTO_CHECK(ends.size() == starts.size());
+            TS_AUTO_CHECK(steps.size() == starts.size());
+
             int32_t max_axis = INT32_MIN;
             int32_t pre_axis = INT32_MIN;
             for (int32_t i = 0; i < slice_size; ++i) {
@@ -369,6 +372,7 @@ namespace ts {
                                  << eject;
                 }
                 if (axis < 0) axis += dims;
+                axes[i] = axis;
                 if (axis <= pre_axis) {
                     TS_LOG_ERROR << "axes must in increasing rank, bug got " << to_string(axes) << eject;
                 }
-- 
2.43.0


From e20095549141f5d565b85afe70ac41fb47bf63b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:21 +0000
Subject: [PATCH 05/83] fix: slice rejects huge sizes instead of overflowing
 the bound check

---
 src/backend/base/base_slice.cpp    | 2 +-
 src/backend/base/base_slice_v2.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/backend/base/base_slice.cpp b/src/backend/base/base_slice.cpp
index ce24cf2..d88424d 100644
--- a/src/backend/base/base_slice.cpp
+++ b/src/backend/base/base_slice.cpp
@@ -56,7 +56,7 @@ namespace ts {
                     dim = x_shape[i] - begins[i];
                 }
 
-                TS_AUTO_CHECK(begins[i] + dim <= x_shape[i]);
+                TS_AUTO_CHECK(dim <= x_shape[i] - begins[i]);
                 out_shape[i] = dim;
             }
 
diff --git a/src/backend/base/base_slice_v2.cpp b/src/backend/base/base_slice_v2.cpp
index a46f73b..1795189 100644
--- a/src/backend/base/base_slice_v2.cpp
+++ b/src/backend/base/base_slice_v2.cpp
@@ -33,7 +33,7 @@ namespace ts {
                     dim = x_shape[i] - begins[i];
                 }
 
-                TS_AUTO_CHECK(begins[i] + dim <= x_shape[i]);
+                TS_AUTO_CHECK(dim <= x_shape[i] - begins[i]);
                 out_shape[i] = dim;
             }
 
-- 
2.43.0


From 8ad386d41d95874853c5b634ba589366eb363b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:21 +0000
Subject: [PATCH 06/83] fix: strided_slice ignores begin/end on new axes,
 selects one element on shrunk axes and allows an empty ellipsis

---
 src/backend/base/base_strided_slice.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/backend/base/base_strided_slice.cpp b/src/backend/base/base_strided_slice.cpp
index 72f6d89..054f650 100644
--- a/src/backend/base/base_strided_slice.cpp
+++ b/src/backend/base/base_strided_slice.cpp
@@ -2,6 +2,7 @@
 // Created by kier on 2019/4/8.
 //
 
+#include <climits>
 #include <backend/base/base_strided_slice.h>
 
 #include "backend/name.h"
@@ -177,6 +178,18 @@ namespace ts {
                     if (new_axis_mask & (1 << i)) {
                         if (i > in.size()) return false;
                         in.insert(in.begin() + i, 1);
+                        // begin, end and stride of an inserted axis are ignored
+                        stride[i] = 1;
+                        begin_mask |= 1 << i;
+                        end_mask |= 1 << i;
+                    } else if ((shrink_axis_mask & (1 << i)) && !(begin_mask & (1 << i))) {
+                        // selects the single element at begin
+                        stride[i] = 1;
+                        if (begin[i] == -1) {
+                            end_mask |= 1 << i;
+                        } else if (begin[i] != INT_MAX) {
+                            end[i] = begin[i] + 1;
+                        }
                     }
                 }
             }
@@ -221,7 +234,7 @@ namespace ts {
             // shrink output, and expand ellipsis_shape
             {
                 for (int i = int(slice_size) - 1; i >= 0; --i) {
-                    if (!ellipsis_shape.empty() && (i == ellipsis_index)) {
+                    if (ellipsis_ones && (i == int(ellipsis_index))) {
                         // expand ellipsis_index
                         out.erase(out.begin() + i);
                         out.insert(out.begin() + i, ellipsis_shape.begin(), ellipsis_shape.end());
-- 
2.43.0


From 759a74cb54e22c3e95df89b39e22536a76579d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:10 +0000
Subject: [PATCH 07/83] fix: otl::vector refuses to grow past its capacity and
 resize keeps elements

---
 include/utils/otl.h | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/include/utils/otl.h b/include/utils/otl.h
index cef9c49..91e36c7 100644
--- a/include/utils/otl.h
+++ b/include/utils/otl.h
@@ -279,15 +279,15 @@ namespace ts {
 
             // fill
             explicit vector (size_type n)
-                : m_size(S(n)) {}
+                : m_size(S(_check(n))) {}
 
             vector(size_type n, const value_type& val)
-                : m_size(S(n)) {
+                : m_size(S(_check(n))) {
                 for (auto &slot : *this) slot = val;
             }
 
             vector(int n, const value_type& val)
-                    : m_size(S(n)) {
+                    : m_size(S(_check(size_type(n)))) {
                 for (auto &slot : *this) slot = val;
             }
 
@@ -296,7 +296,7 @@ namespace ts {
             vector(InputIterator first, InputIterator last) {
                 size_type n = 0;
                 for (auto it = first; it != last; ++it) {
-                    if (n > CAPACITY) {
+                    if (n >= CAPACITY) {
                         TS_LOG_ERROR << VectorOutOfRangeException::Message(N, int(n)) << eject;
                     }
                     m_buf[n] = *it;
@@ -367,7 +367,9 @@ namespace ts {
             const T &back() const { return m_buf[m_size - 1]; }
 
             void resize(size_type n, value_type val = value_type()) {
-                *this = self(n, val);
+                _check(n);
+                for (size_type i = this->size(); i < n; ++i) m_buf[i] = val;
+                m_size = S(n);
             }
 
             iterator erase(iterator it) {
@@ -395,6 +397,7 @@ namespace ts {
             }
 
             void push_back(const T &val) {
+                _check(this->size() + 1);
                 m_buf[m_size] = val;
                 ++m_size;
             }
@@ -405,6 +408,7 @@ namespace ts {
 
             template <typename ...Args>
             void emplace_back(Args &&...args) {
+                _check(this->size() + 1);
                 new(m_buf + m_size) T(std::forward<Args>(args)...);
                 ++m_size;
             }
@@ -416,6 +420,13 @@ namespace ts {
             void reserve(size_type n) {}
 
         private:
+            static size_type _check(size_type n) {
+                if (n > CAPACITY) {
+                    TS_LOG_ERROR << VectorOutOfRangeException::Message(N, int(n)) << eject;
+                }
+                return n;
+            }
+
             size_type _pointer2index(const T*ptr) const {
                 return ptr < m_buf ? 0 : ptr - m_buf;
             }
@@ -428,7 +439,7 @@ namespace ts {
             }
 
             void _insert(size_type i, const T&val) {
-                if (i + 1 > this->capacity()) {
+                if (this->size() + 1 > this->capacity()) {
                     TS_LOG_ERROR << VectorOutOfRangeException::Message(N, int(N)) << eject;
                 }
                 std::memmove(m_buf + i + 1, m_buf + i, sizeof(T) * (this->size() - i));
@@ -438,7 +449,7 @@ namespace ts {
 
             template <size_t _N, typename _S>
             void _insert(size_type i, const vector<T, _N, _S> &vec) {
-                if (i + vec.size() > this->capacity()) {
+                if (this->size() + vec.size() > this->capacity()) {
                     TS_LOG_ERROR << VectorOutOfRangeException::Message(N, int(N)) << eject;
                 }
                 std::memmove(m_buf + i + vec.size(), m_buf + i, sizeof(T) * (this->size() - i));
-- 
2.43.0


From 5c32a83f2739057b60f25ac36d7d3afaadadf196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:11 +0000
Subject: [PATCH 08/83] fix: type_str names int16 and uint16

---
 include/core/dtype.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/core/dtype.h b/include/core/dtype.h
index 039b084..a17a03c 100644
--- a/include/core/dtype.h
+++ b/include/core/dtype.h
@@ -91,8 +91,8 @@ namespace ts {
             case VOID: return "void";
             case INT8: return "int8";
             case UINT8: return "uint8";
-            case INT16: return "int64";
-            case UINT16: return "uint64";
+            case INT16: return "int16";
+            case UINT16: return "uint16";
             case INT32: return "int32";
             case UINT32: return "uint32";
             case INT64: return "int64";
-- 
2.43.0


From 800dbff0ac8d0af669dbb00987b4c85e55f4a627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:11 +0000
Subject: [PATCH 09/83] fix: reading a truncated or corrupted module fails
 instead of using garbage

---
 include/module/io/stream.h | 17 ++++++++++++++---
 src/core/tensor.cpp        | 10 ++++++++--
 src/module/menu.cpp        |  1 +
 src/module/module.cpp      | 10 ++++++++--
 4 files changed, 31 insertions(+), 7 deletions(-)

diff --git a/include/module/io/stream.h b/include/module/io/stream.h
index 0c06b83..1cdc207 100644
--- a/include/module/io/stream.h
+++ b/include/module/io/stream.h
@@ -10,6 +10,7 @@
 #include <string>
 
 #include <utils/api.h>
+#include <utils/except.h>
 
 
 namespace ts {
@@ -40,19 +41,29 @@ namespace ts {
     };
 
     namespace binio {
+        /**
+         * read exactly size bytes
+         * @throw Exception if stream ends before
+         */
+        inline size_t read_exactly(StreamReader &stream, void *buffer, size_t size) {
+            auto read_size = stream.read(buffer, size);
+            if (read_size != size) throw Exception("Unexpected end of stream");
+            return read_size;
+        }
+
         template<typename T>
         size_t read(StreamReader &stream, T &buffer) {
-            return stream.read(&buffer, sizeof(T));
+            return read_exactly(stream, &buffer, sizeof(T));
         }
 
         template<typename T>
         size_t read(StreamReader &stream, T *buffer, size_t size) {
-            return stream.read(buffer, sizeof(T) * size);
+            return read_exactly(stream, buffer, sizeof(T) * size);
         }
 
         template<typename T, size_t _Size>
         size_t read(StreamReader &stream, T (&buffer)[_Size]) {
-            return stream.read(buffer, sizeof(T) * _Size);
+            return read_exactly(stream, buffer, sizeof(T) * _Size);
         }
 
         template<typename T>
diff --git a/src/core/tensor.cpp b/src/core/tensor.cpp
index 925c014..58f7248 100644
--- a/src/core/tensor.cpp
+++ b/src/core/tensor.cpp
@@ -351,9 +351,13 @@ namespace ts {
         uint32_t size_buffer;
         read_size += binio::read<uint32_t>(stream, size_buffer);
         shape.resize(size_buffer);
+        int64_t count = 1;
         for (size_t i = 0; i < shape.size(); ++i) {
             read_size += binio::read<uint32_t>(stream, size_buffer);
+            TS_CHECK(size_buffer <= uint32_t(INT32_MAX)) << "Tensor size " << size_buffer << " out of range" << eject;
             shape[i] = size_buffer;
+            count *= shape[i];
+            TS_CHECK(count <= INT32_MAX) << "Tensor of shape " << to_string(shape) << " is too large" << eject;
         }
         // 1.x set proto
         proto = Tensor::Prototype(dtype, shape);
@@ -378,11 +382,13 @@ namespace ts {
         size_t read_size = 0;
         uint32_t size_buffer;
         read_size += binio::read<uint32_t>(stream, size_buffer);
-        std::vector<Tensor> fields(size_buffer);
-        for (auto &tensor : fields) {
+        std::vector<Tensor> fields;
+        for (uint32_t i = 0; i < size_buffer; ++i) {
+            Tensor tensor;
             Memory cpu_memory;
             read_size += externalize_prototype_memory(stream, tensor.m_proto, cpu_memory);
             tensor.m_memory = SyncMemory(cpu_memory);
+            fields.emplace_back(std::move(tensor));
         }
         this->pack(fields);
         return read_size;
diff --git a/src/module/menu.cpp b/src/module/menu.cpp
index 4519f22..5a9faa7 100644
--- a/src/module/menu.cpp
+++ b/src/module/menu.cpp
@@ -145,6 +145,7 @@ namespace ts {
         for (auto &node : nodes) {
             std::vector<Node> inputs;
             for (auto index : node.second) {
+                TS_CHECK(index < nodes.size()) << "Node index " << index << " out of range" << eject;
                 inputs.emplace_back(nodes[index].first);
             }
             Node::Link(node.first, inputs);
diff --git a/src/module/module.cpp b/src/module/module.cpp
index f39de8e..e1243c2 100644
--- a/src/module/module.cpp
+++ b/src/module/module.cpp
@@ -316,9 +316,15 @@ namespace ts {
         const auto &nodes = g.nodes();  // TODO: Check if the read nodes is the given nodes
         // x.1 convert inputs and outputs
         std::vector<Node> inputs;
-        for (auto index : input_index) inputs.emplace_back(nodes[index]);
+        for (auto index : input_index) {
+            TS_CHECK(index < nodes.size()) << "Input index " << index << " out of range" << eject;
+            inputs.emplace_back(nodes[index]);
+        }
         std::vector<Node> outputs;
-        for (auto index : output_index) outputs.emplace_back(nodes[index]);
+        for (auto index : output_index) {
+            TS_CHECK(index < nodes.size()) << "Output index " << index << " out of range" << eject;
+            outputs.emplace_back(nodes[index]);
+        }
         Module::shared module = std::make_shared<Module>();
         module->load(g, outputs);
         module->sort_inputs(inputs);
-- 
2.43.0


From cfda3cc91ac0876e4e76f26c4998f58be195e9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:11 +0000
Subject: [PATCH 10/83] fix: packing no fields and reading or moving a bubble
 leave no stale state

---
 src/core/tensor.cpp   | 1 +
 src/module/bubble.cpp | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/src/core/tensor.cpp b/src/core/tensor.cpp
index 58f7248..27b1d7d 100644
--- a/src/core/tensor.cpp
+++ b/src/core/tensor.cpp
@@ -242,6 +242,7 @@ namespace ts {
         if (fields.empty()) {
             this->m_memory = make_smart<TensorMemory>();
             this->m_proto = Prototype();
+            this->m_fields.clear();
             return;
         }
         this->m_memory = fields[0].m_memory;
diff --git a/src/module/bubble.cpp b/src/module/bubble.cpp
index a377824..b97684e 100644
--- a/src/module/bubble.cpp
+++ b/src/module/bubble.cpp
@@ -41,6 +41,7 @@ namespace ts {
         this->m_name = std::move(other.m_name);
         // this->m_output_count = other.m_output_count;
         this->m_params = std::move(other.m_params);
+        this->m_shape = std::move(other.m_shape);
         return *this;
     }
 
@@ -179,6 +180,7 @@ namespace ts {
 
     size_t Bubble::externalize(StreamReader &stream) {
         m_params.clear();
+        m_shape.clear();
         size_t read_size = 0;
         uint32_t size_buffer;
         read_size += binio::read<uint32_t>(stream, size_buffer);
-- 
2.43.0


From 72f11e3f2ca620ea76d12be3331135bd8e73ca66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:10 +0000
Subject: [PATCH 11/83] fix: relinking skips destroyed nodes and a route keeps
 its input slot

---
 include/module/graph.h  | 4 ++--
 include/module/module.h | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/module/graph.h b/include/module/graph.h
index f9b80b1..7b30ce2 100644
--- a/include/module/graph.h
+++ b/include/module/graph.h
@@ -46,8 +46,7 @@ namespace ts {
                 auto &bottom_tops = tmp->m_outputs;
                 for (auto it = bottom_tops.begin(); it != bottom_tops.end();) {
                     auto top = it->lock();
-                    if (!top) continue;
-                    if (top == output) {
+                    if (!top || top == output) {
                         it = bottom_tops.erase(it);
                     } else {
                         ++it;
@@ -72,6 +71,7 @@ namespace ts {
             if (!new_ptr) throw NullPointerException("Link expired node");
             for (auto &output : old_ptr->outputs()) {
                 auto output_ptr = output.lock();
+                if (!output_ptr) continue;
                 for (auto &output_s_input : output_ptr->m_inputs) {
                     if (output_s_input.lock() != old_ptr) continue;
                     output_s_input = new_node;
diff --git a/include/module/module.h b/include/module/module.h
index 65964be..24e176d 100644
--- a/include/module/module.h
+++ b/include/module/module.h
@@ -77,7 +77,7 @@ namespace ts {
         class Route {
         public:
             Route(int32_t in, int32_t in_out_slot, int32_t out, int32_t out_in_slot)
-                    : in(in), in_out_slot(in_out_slot), out(out), out_in_slot() {
+                    : in(in), in_out_slot(in_out_slot), out(out), out_in_slot(out_in_slot) {
             }
 
             Route() = default;
-- 
2.43.0


From b92d896029f9396e9f03275d0db8aed556bc3ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:50 +0000
Subject: [PATCH 12/83] fix: module fusion accepts routes in any order

---
 src/module/module.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/module/module.cpp b/src/module/module.cpp
index e1243c2..64927a7 100644
--- a/src/module/module.cpp
+++ b/src/module/module.cpp
@@ -443,6 +443,8 @@ namespace ts {
         Graph g;
         ctx::bind<Graph> _bind(g);
 
+        // make all routed inputs first, so that routes could be given in any order
+        std::vector<std::pair<Node, Node>> copy_links;
         for (auto &route : routes) {
             if (route.in < 0 || route.in >= int(submodules.size()) ||
                 route.out < 0 || route.out >= int(submodules.size()) ||
@@ -468,14 +470,17 @@ namespace ts {
             set_linked_ins.insert(node_in);
             set_linked_outs.insert(node_out);
 
-            auto copy_out_in = bubble::op(node_in->name(), name::layer::copy(),
-                    clone_graph({node_out}, cloned_nodes, linked_nodes));
+            auto copy_out_in = g.make(name::layer::copy(), node_in->name());
+            copy_links.emplace_back(copy_out_in, node_out);
 
             cloned_nodes.insert(std::make_pair(node_in, copy_out_in));
             cloned_nodes.insert(std::make_pair(copy_out_in, copy_out_in));
             linked_nodes.insert(std::make_pair(node_in, copy_out_in));
             linked_nodes.insert(std::make_pair(copy_out_in, copy_out_in));
         }
+        for (auto &link : copy_links) {
+            Node::Link(link.first, clone_graph({link.second}, cloned_nodes, linked_nodes));
+        }
 
         std::vector<Node> inputs;
         std::vector<Node> outputs;
-- 
2.43.0


From 11e25fb6a5b9f3e49507fc356476cbfb878f61fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:33 +0000
Subject: [PATCH 13/83] fix: compiled programs accept repeated inputs and
 inputs that no output needs

---
 src/compiler/compiler.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/compiler/compiler.cpp b/src/compiler/compiler.cpp
index 402f6e1..d798bfd 100644
--- a/src/compiler/compiler.cpp
+++ b/src/compiler/compiler.cpp
@@ -357,8 +357,8 @@ namespace ts {
         }
         if (!satisfied) {
             map<Node, size_t> working_input_nodes;
-            for (auto &node : inputs) working_input_nodes.insert(std::make_pair(node, working_input_nodes.size()));
-            block.instructions.push_back(instruction::Stack::erase(0, -int(simulator.size())));
+            for (size_t i = 0; i < inputs.size(); ++i) working_input_nodes.insert(std::make_pair(inputs[i], i));
+            block.instructions.push_back(instruction::Stack::erase(0, int(inputs.size())));
             for (auto it = simulator.rbegin(); it != simulator.rend(); ++it) {
                 block.instructions.push_back(instruction::Stack::push(int(working_input_nodes[*it])));
             }
-- 
2.43.0


From 556d9a37941367d0fd44c71d332d43eadcd86bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:12 +0000
Subject: [PATCH 14/83] fix: constant graphs may pack tensors and select fields

---
 src/compiler/compiler.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/compiler/compiler.cpp b/src/compiler/compiler.cpp
index d798bfd..4f87666 100644
--- a/src/compiler/compiler.cpp
+++ b/src/compiler/compiler.cpp
@@ -415,7 +415,8 @@ namespace ts {
         // check if each input is const or new
         std::vector<Tensor> const_inputs;
         std::vector<Node> const_input_nodes;
-        bool input_are_const = true;
+        // inner instructions, such as pack and field, only run in a program
+        bool input_are_const = InstructionCreator::Query(node->op()) == nullptr;
         bool build_new_node = false;
         for (const auto &input : node.inputs()) {
             auto const_input = input;
-- 
2.43.0


From 756ca7f74b7857d237b69499baccaacfb650f928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:23 +0000
Subject: [PATCH 15/83] fix: a cloned program keeps its input and output names

---
 src/runtime/program.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/runtime/program.cpp b/src/runtime/program.cpp
index 4caedf7..cea8bab 100644
--- a/src/runtime/program.cpp
+++ b/src/runtime/program.cpp
@@ -151,6 +151,8 @@ namespace ts {
         // dolly->m_outputs.resize(this->m_outputs.size());
         dolly->m_map_input_slots = this->m_map_input_slots;
         dolly->m_map_output_slots = this->m_map_output_slots;
+        dolly->m_input_names = this->m_input_names;
+        dolly->m_output_names = this->m_output_names;
         dolly->m_data_segment = this->m_data_segment;
         dolly->m_input_filters.resize(this->m_input_filters.size(), nullptr);
 
-- 
2.43.0


From 81acf3d2f9d87a3841515b2c49b2b10cca0c1b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:01 +0000
Subject: [PATCH 16/83] fix: translating a module keeps the declared type and
 shape of its inputs

---
 src/compiler/option/fp16_translator_option.cpp | 4 +---
 src/compiler/option/pack_translator_option.cpp | 4 +---
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/compiler/option/fp16_translator_option.cpp b/src/compiler/option/fp16_translator_option.cpp
index 3f28936..87bc840 100644
--- a/src/compiler/option/fp16_translator_option.cpp
+++ b/src/compiler/option/fp16_translator_option.cpp
@@ -23,9 +23,7 @@ ts::Fp16TranslatorOption::translate(const ts::ComputingDevice &device,
     auto op_name = node.bubble().op();
 
     if (Bubble::IsEndPoint(op_name)) {
-        if (op_name == Bubble::Parameter)
-            translated_node = bubble::param(node.bubble().name());
-        else if (op_name == Bubble::Const) {
+        if (op_name == Bubble::Parameter || op_name == Bubble::Const) {
             translated_node = bubble::bubble(node.bubble());
         }
         return true;
diff --git a/src/compiler/option/pack_translator_option.cpp b/src/compiler/option/pack_translator_option.cpp
index e8182aa..73c5704 100644
--- a/src/compiler/option/pack_translator_option.cpp
+++ b/src/compiler/option/pack_translator_option.cpp
@@ -31,9 +31,7 @@ bool ts::PackTranslatorOption::translate(const ComputingDevice &device, const No
     auto op_name = node.bubble().op();
 
     if (Bubble::IsEndPoint(op_name)) {
-        if (op_name == Bubble::Parameter)
-            translated_node = bubble::param(node.bubble().name());
-        else if (op_name == Bubble::Const) {
+        if (op_name == Bubble::Parameter || op_name == Bubble::Const) {
             translated_node = bubble::bubble(node.bubble());
         }
         return true;
-- 
2.43.0


From 86c06c350430ff63977dce3e08ab7bbb15d3e918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:13 +0000
Subject: [PATCH 17/83] fix: hooked runs keep the saved inputs and reject a
 missing program

---
 src/runtime/workbench.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/runtime/workbench.cpp b/src/runtime/workbench.cpp
index a3bcaf4..27dc91f 100644
--- a/src/runtime/workbench.cpp
+++ b/src/runtime/workbench.cpp
@@ -582,6 +582,10 @@ namespace ts {
     }
 
     void Workbench::run_hook(const std::vector<std::string> &node_names) {
+        if (m_desktop == nullptr) {
+            TS_LOG_ERROR << "Can not run workbench with no program setup" << eject;
+        }
+
         this->m_hooked_tensor.clear();
 
         auto controller = std::make_shared<DynamicMemoryController>(MemoryDevice(CPU));
@@ -623,7 +627,8 @@ namespace ts {
         });
         ctx::bind<Hook> _hook(hooker);
 
-        this->run();
+        // not run(), which drops the hooked tensors
+        m_outputs = launch_offline(m_desktop, m_inputs);
     }
 
     const std::string &Workbench::summary() {
-- 
2.43.0


From 3486361f1dabe96f2349b1b9b7abc1dd45cd1af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:19 +0000
Subject: [PATCH 18/83] fix: mod keeps its operand order when broadcasting the
 left operand

---
 src/kernels/cpu/mod.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/kernels/cpu/mod.cpp b/src/kernels/cpu/mod.cpp
index bb80cfe..2e8701a 100644
--- a/src/kernels/cpu/mod.cpp
+++ b/src/kernels/cpu/mod.cpp
@@ -218,11 +218,13 @@ namespace ts {
         }
 
         void Mod::reduce_with_bias_cross(const Tensor &lhs, const Tensor &rhs, Tensor &out, int dim) {
-            this->reduce_with_bias(rhs, lhs, out, dim);
+            // the remainder does not commute
+            TS_UNUSED(dim);
+            this->reduce_with_broadcast(lhs, rhs, out);
         }
 
         void Mod::reduce_with_scalar_cross(const Tensor &lhs, const Tensor &rhs, Tensor &out) {
-            this->reduce_with_scalar(rhs, lhs, out);
+            this->reduce_with_broadcast(lhs, rhs, out);
         }
     }
 }
-- 
2.43.0


From 33bd18597a8b6ccd39af1323bbfb52ca00c03b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:19 +0000
Subject: [PATCH 19/83] fix: unsigned operands of different sizes promote to
 the larger unsigned type

---
 src/backend/base/element_wise_reduce.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/backend/base/element_wise_reduce.cpp b/src/backend/base/element_wise_reduce.cpp
index 12ebfe8..ea5e95f 100644
--- a/src/backend/base/element_wise_reduce.cpp
+++ b/src/backend/base/element_wise_reduce.cpp
@@ -91,13 +91,13 @@ namespace ts {
             static const char lookup_table[22][22]{
                     {0, 0,  0,  0,  0,  0,  0,  0,  0,  0,  0,  0,  0, 0,  0,  0,  0, 0, 0, 0, 0, 0},
                     {0, 1,  1,  3,  3,  5,  5,  7,  7,  9,  10, 11, 0, 1,  3,  5,  0, 0, 0, 0, 0, 1},
-                    {0, 1,  2,  3,  3,  5,  6,  7,  7,  9,  10, 11, 0, 1,  3,  5,  0, 0, 0, 0, 0, 2},
+                    {0, 1,  2,  3,  4,  5,  6,  7,  8,  9,  10, 11, 0, 1,  3,  5,  0, 0, 0, 0, 0, 2},
                     {0, 3,  3,  3,  3,  5,  5,  7,  7,  9,  10, 11, 0, 3,  3,  5,  0, 0, 0, 0, 0, 3},
-                    {0, 3,  3,  3,  4,  5,  6,  7,  8,  9,  10, 11, 0, 3,  3,  5,  0, 0, 0, 0, 0, 4},
+                    {0, 3,  4,  3,  4,  5,  6,  7,  8,  9,  10, 11, 0, 3,  3,  5,  0, 0, 0, 0, 0, 4},
                     {0, 5,  5,  5,  5,  5,  5,  7,  7,  10, 10, 11, 0, 5,  5,  5,  0, 0, 0, 0, 0, 5},
                     {0, 5,  6,  5,  6,  5,  6,  7,  8,  10, 10, 11, 0, 5,  5,  5,  0, 0, 0, 0, 0, 6},
                     {0, 7,  7,  7,  7,  7,  7,  7,  7,  11, 11, 11, 0, 7,  7,  7,  0, 0, 0, 0, 0, 7},
-                    {0, 7,  7,  7,  8,  7,  8,  7,  8,  11, 11, 11, 0, 7,  7,  7,  0, 0, 0, 0, 0, 8},
+                    {0, 7,  8,  7,  8,  7,  8,  7,  8,  11, 11, 11, 0, 7,  7,  7,  0, 0, 0, 0, 0, 8},
                     {0, 9,  9,  9,  9,  10, 10, 11, 11, 9,  10, 11, 0, 9,  9,  10, 0, 0, 0, 0, 0, 9},
                     {0, 10, 10, 10, 10, 10, 10, 11, 11, 10, 10, 11, 0, 10, 10, 11, 0, 0, 0, 0, 0, 10},
                     {0, 11, 11, 11, 11, 11, 11, 11, 11, 11, 11, 11, 0, 11, 11, 11, 0, 0, 0, 0, 0, 11},
-- 
2.43.0


From b7a9a35748180c0f1dd856e8dfcc35ae7623675d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:26 +0000
Subject: [PATCH 20/83] fix: equal broadcasts operands of different ranks

---
 src/backend/base/base_equal.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/backend/base/base_equal.cpp b/src/backend/base/base_equal.cpp
index c217a08..efea230 100644
--- a/src/backend/base/base_equal.cpp
+++ b/src/backend/base/base_equal.cpp
@@ -43,8 +43,8 @@ namespace ts {
 
             auto memory_device = running_memory_device();
 
-            lhs = lhs.view(memory_device);
-            rhs = rhs.view(memory_device);
+            lhs = lhs.view(memory_device).reshape(lhs_shape);
+            rhs = rhs.view(memory_device).reshape(rhs_shape);
             auto &out = *stack.push(output[0], memory_device);
 
             if (!do_broadcast) {
-- 
2.43.0


From 6c3d58cbc7ec8410d55932137e3536859e0a89a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:51 +0000
Subject: [PATCH 21/83] fix: argmax compares elements of the input type, not of
 the index type

---
 src/kernels/cpu/argmax.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kernels/cpu/argmax.cpp b/src/kernels/cpu/argmax.cpp
index 1e7b26e..26b4a6d 100644
--- a/src/kernels/cpu/argmax.cpp
+++ b/src/kernels/cpu/argmax.cpp
@@ -53,7 +53,7 @@ namespace ts {
 
 
         void ArgMax::argmax(const Tensor &x, int dim, Tensor &out) {
-            DTYPE dtype = out.dtype();
+            DTYPE dtype = x.dtype();
            
             switch (dtype) {
 #define DECLARE_COMPUTE_RUN(DTYPE, TYPE) \
-- 
2.43.0


From db02489ff713453f23a52e08b1f3775ee9fd001e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:51 +0000
Subject: [PATCH 22/83] fix: l2_norm over a single element keeps its sign and
 zero

---
 src/kernels/cpu/l2_norm.cpp | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/src/kernels/cpu/l2_norm.cpp b/src/kernels/cpu/l2_norm.cpp
index b546c82..a2a7de7 100644
--- a/src/kernels/cpu/l2_norm.cpp
+++ b/src/kernels/cpu/l2_norm.cpp
@@ -32,13 +32,6 @@ namespace ts {
 
             int body_num = output_shape[m_dim];
 
-            if (body_num == 1) {
-                T one(1);
-                memset(output_data, out.device(), out.count() * out.proto().type_bytes(),
-                       &one, Device(CPU), sizeof(T));
-                return;
-            }
-
             int head_num = 1;
             for (int i = 0; i < m_dim; i++) {
                 head_num *= output_shape[i];
-- 
2.43.0


From 4d1f234153126d0af91670d19462c745464b3855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:07 +0000
Subject: [PATCH 23/83] fix: reduce_mean checks that the resolved dimensions
 are contiguous

---
 src/backend/base/base_reduce_mean.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/backend/base/base_reduce_mean.cpp b/src/backend/base/base_reduce_mean.cpp
index b24aad3..5a97e08 100644
--- a/src/backend/base/base_reduce_mean.cpp
+++ b/src/backend/base/base_reduce_mean.cpp
@@ -50,14 +50,6 @@ namespace ts {
             Shape input = stack[0].sizes();
             auto has_dims = int(input.size());
 
-            bool continue_flag = true;
-            if(dims.size() > 1){
-                continue_flag = check_dims_continue(dims);
-            }
-
-            if(!continue_flag)
-                TS_LOG_ERROR << "Dimensions must be continuous now!" << eject;
-
             std::vector<int> fixed_dims(dims);
             for (int i = 0; i < fixed_dims.size(); ++i) {
                 fixed_dims[i] = dims[i] >= 0 ? dims[i] : has_dims + dims[i];
@@ -68,6 +60,14 @@ namespace ts {
                 }
             }
 
+            bool continue_flag = true;
+            if(fixed_dims.size() > 1){
+                continue_flag = check_dims_continue(fixed_dims);
+            }
+
+            if(!continue_flag)
+                TS_LOG_ERROR << "Dimensions must be continuous now!" << eject;
+
             if(keep_dim){
                 for (int i = 0; i < fixed_dims.size(); ++i) {
                     input[fixed_dims[i]] = 1;
-- 
2.43.0


From faf0e46a47ac109c136b2337d09969dae1b7cd99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:16 +0000
Subject: [PATCH 24/83] fix: softplus reads every element for types other than
 float

---
 src/kernels/cpu/softplus.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/kernels/cpu/softplus.cpp b/src/kernels/cpu/softplus.cpp
index 2a4662a..b647f0b 100644
--- a/src/kernels/cpu/softplus.cpp
+++ b/src/kernels/cpu/softplus.cpp
@@ -23,6 +23,7 @@ namespace ts {
                 T val = *input_data;
                 *output_data = std::log(std::exp(val) + 1.);
                 output_data++;
+                input_data++;
             }
         }
 
-- 
2.43.0


From 5c04d1912479a74d81879cd8fe3e7ffc63490fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:14 +0000
Subject: [PATCH 25/83] fix: matrix kernels compute types other than float

---
 src/kernels/cpu/math_cpu.cpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/kernels/cpu/math_cpu.cpp b/src/kernels/cpu/math_cpu.cpp
index 35bef3b..e9ab639 100644
--- a/src/kernels/cpu/math_cpu.cpp
+++ b/src/kernels/cpu/math_cpu.cpp
@@ -379,7 +379,22 @@ namespace ts {
 
         template<typename T_IN, typename T_OUT>
         inline void kernel_8x8(int M, int K, int N, T_IN alpha, const T_IN *A, const T_IN *B, T_IN beta, T_OUT *C, int ldc) {
-
+            // A is packed by pack8_A, B is packed by pack8_B: 8 rows (columns) interleaved, the remain ones stay linear
+            const int M_packed = M >> 3 << 3;
+            const int N_packed = N >> 3 << 3;
+#ifdef TS_USE_OPENMP
+#pragma omp parallel for num_threads(openmp_threads())
+#endif
+            for (int m = 0; m < M; m++) {
+                const T_IN *A_at = m < M_packed ? A + (m >> 3 << 3) * K + (m & 7) : A + m * K;
+                const int A_inc = m < M_packed ? 8 : 1;
+                T_OUT *C_at = C + m * ldc;
+                for (int n = 0; n < N; n++) {
+                    const T_IN *B_at = n < N_packed ? B + (n >> 3 << 3) * K + (n & 7) : B + n * K;
+                    const int B_inc = n < N_packed ? 8 : 1;
+                    C_at[n] = inline_dot<T_IN, T_OUT>(K, A_at, A_inc, B_at, B_inc);
+                }
+            }
         }
 
         template<>
-- 
2.43.0


From c86fb66d4f07df8b99c48255dbf5b58371a81b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:14 +0000
Subject: [PATCH 26/83] fix: a rejected padding input stays rejected

---
 src/kernels/cpu/conv2d_v2.cpp           | 12 ++++++++----
 src/kernels/cpu/depthwise_conv2d_v2.cpp | 12 ++++++++----
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/kernels/cpu/conv2d_v2.cpp b/src/kernels/cpu/conv2d_v2.cpp
index f008fdb..02e11b1 100644
--- a/src/kernels/cpu/conv2d_v2.cpp
+++ b/src/kernels/cpu/conv2d_v2.cpp
@@ -63,9 +63,11 @@ namespace ts {
             auto padding = tensor::cast(INT32, stack[1]);
 
             if (!is_int_equal(padding, m_int_padding4x2)) {
-                m_int_padding4x2 = padding.clone();
-                m_op_conv2d->set(name::padding, m_int_padding4x2);
+                m_int_padding4x2 = Tensor();    // stay unset if the padding is rejected
+                auto int_padding4x2 = padding.clone();
+                m_op_conv2d->set(name::padding, int_padding4x2);
                 m_op_conv2d->init();
+                m_int_padding4x2 = int_padding4x2;
             }
 
             stack.push(0);
@@ -80,9 +82,11 @@ namespace ts {
             auto padding = tensor::cast(INT32, stack[1]);
 
             if (!is_int_equal(padding, m_int_padding4x2)) {
-                m_int_padding4x2 = padding.clone();
-                m_op_conv2d->set(name::padding, m_int_padding4x2);
+                m_int_padding4x2 = Tensor();    // stay unset if the padding is rejected
+                auto int_padding4x2 = padding.clone();
+                m_op_conv2d->set(name::padding, int_padding4x2);
                 m_op_conv2d->init();
+                m_int_padding4x2 = int_padding4x2;
             }
 
             stack.push(0);
diff --git a/src/kernels/cpu/depthwise_conv2d_v2.cpp b/src/kernels/cpu/depthwise_conv2d_v2.cpp
index a624e86..ba76a24 100644
--- a/src/kernels/cpu/depthwise_conv2d_v2.cpp
+++ b/src/kernels/cpu/depthwise_conv2d_v2.cpp
@@ -61,9 +61,11 @@ namespace ts {
             auto padding = tensor::cast(INT32, stack[1]);
 
             if (!is_int_equal(padding, m_int_padding4x2)) {
-                m_int_padding4x2 = padding.clone();
-                m_op_conv2d->set(name::padding, m_int_padding4x2);
+                m_int_padding4x2 = Tensor();    // stay unset if the padding is rejected
+                auto int_padding4x2 = padding.clone();
+                m_op_conv2d->set(name::padding, int_padding4x2);
                 m_op_conv2d->init();
+                m_int_padding4x2 = int_padding4x2;
             }
 
             stack.push(0);
@@ -78,9 +80,11 @@ namespace ts {
             auto padding = tensor::cast(INT32, stack[1]);
 
             if (!is_int_equal(padding, m_int_padding4x2)) {
-                m_int_padding4x2 = padding.clone();
-                m_op_conv2d->set(name::padding, m_int_padding4x2);
+                m_int_padding4x2 = Tensor();    // stay unset if the padding is rejected
+                auto int_padding4x2 = padding.clone();
+                m_op_conv2d->set(name::padding, int_padding4x2);
                 m_op_conv2d->init();
+                m_int_padding4x2 = int_padding4x2;
             }
 
             stack.push(0);
-- 
2.43.0


From b77a189f776ccfae237bf24a02b4604ba5fefc2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:44 +0000
Subject: [PATCH 27/83] fix: depthwise kernels read no float past the last
 weight

---
 src/kernels/cpu/depthwise_conv2d_algorithm.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/kernels/cpu/depthwise_conv2d_algorithm.cpp b/src/kernels/cpu/depthwise_conv2d_algorithm.cpp
index 8401b63..32ef1a6 100644
--- a/src/kernels/cpu/depthwise_conv2d_algorithm.cpp
+++ b/src/kernels/cpu/depthwise_conv2d_algorithm.cpp
@@ -150,7 +150,7 @@ namespace ts {
 //#else
                     float32x4 k0_x4(kernel_at);
                     float32x4 k1_x4(kernel_at + 3);
-                    float32x4 k2_x4(kernel_at + 6);
+                    float32x4 k2_x4(kernel_at[6], kernel_at[7], kernel_at[8], 0.f);   // there may be no float after the last kernel
 //#endif
 
                     int h, w;
@@ -324,7 +324,7 @@ namespace ts {
 
                     float32x4 k0_x4(kernel_at);
                     float32x4 k1_x4(kernel_at + 3);
-                    float32x4 k2_x4(kernel_at + 6);
+                    float32x4 k2_x4(kernel_at[6], kernel_at[7], kernel_at[8], 0.f);   // there may be no float after the last kernel
 
                     int h, w;
 
@@ -449,7 +449,7 @@ namespace ts {
                     //#else
                     float32x4 k0_x4(kernel_at);
                     float32x4 k1_x4(kernel_at + 3);
-                    float32x4 k2_x4(kernel_at + 6);
+                    float32x4 k2_x4(kernel_at[6], kernel_at[7], kernel_at[8], 0.f);   // there may be no float after the last kernel
                     //#endif
 
                     int h, w;
-- 
2.43.0


From e3f5f79afe2917edc181856d27e4a232aafda125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:56 +0000
Subject: [PATCH 28/83] fix: depthwise kernels stay inside the tensors for any
 padding

---
 .../cpu/depthwise_conv2d_algorithm.cpp        | 25 +++++++++++++------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/kernels/cpu/depthwise_conv2d_algorithm.cpp b/src/kernels/cpu/depthwise_conv2d_algorithm.cpp
index 32ef1a6..cda7d18 100644
--- a/src/kernels/cpu/depthwise_conv2d_algorithm.cpp
+++ b/src/kernels/cpu/depthwise_conv2d_algorithm.cpp
@@ -8,6 +8,17 @@
 namespace ts {
     namespace cpu{
 
+        /**
+         * get output range [start, end), whose windows need no padding
+         */
+        inline static void inner_range(int padding, int ksize, int stride, int input, int output, int &start, int &end) {
+            start = padding <= 0 ? 0 : (padding - 1) / stride + 1;
+            if (start > output) start = output;
+            int last = input + padding - ksize;     // begin of the last window in input, count from padding
+            end = last < 0 ? 0 : last / stride + 1;
+            if (end > output) end = output;
+        }
+
         template<typename T>
         inline static void depthwise_inner(
             const T* input_at,
@@ -122,10 +133,9 @@ namespace ts {
             //h_end = padding.bottom == 0 ? output_height : output_height - ((padding.bottom - 1) / stride.height + 1)
             //w_strst = padding.left == 0 ? 0 : (padding.left - 1) / stride.width + 1
             //w_end = padding.right == 0 ? output_width : output_width - ((padding.right - 1) / stride.width + 1)
-            int h_start = padding.top == 0 ? 0 : padding.top;
-            int h_end = padding.bottom == 0 ? output_height : output_height - padding.bottom;
-            int w_start = padding.left == 0 ? 0 : padding.left;
-            int w_end = padding.right == 0 ? output_width : output_width - padding.right;
+            int h_start, h_end, w_start, w_end;
+            inner_range(padding.top, 3, stride.height, input_height, output_height, h_start, h_end);
+            inner_range(padding.left, 3, stride.width, input_width, output_width, w_start, w_end);
             
             const float* pinput = x.data<float>();
             const float* pkernel = weight.data<float>();
@@ -300,10 +310,9 @@ namespace ts {
             //h_end = padding.bottom == 0 ? output_height : output_height - ((padding.bottom - 1) / stride.height + 1)
             //w_strst = padding.left == 0 ? 0 : (padding.left - 1) / stride.width + 1
             //w_end = padding.right == 0 ? output_width : output_width - ((padding.right - 1) / stride.width + 1)
-            int h_start = padding.top == 0 ? 0 : (padding.top - 1) / 2 + 1;
-            int h_end = padding.bottom == 0 ? output_height : output_height - ((padding.bottom - 1) / 2 + 1);
-            int w_start = padding.left == 0 ? 0 : (padding.left - 1) / 2 + 1;
-            int w_end = padding.right == 0 ? output_width : output_width - ((padding.right - 1) / 2 + 1);
+            int h_start, h_end, w_start, w_end;
+            inner_range(padding.top, 3, stride.height, input_height, output_height, h_start, h_end);
+            inner_range(padding.left, 3, stride.width, input_width, output_width, w_start, w_end);
 
             const float* pinput = x.data<float>();
             const float* pkernel = weight.data<float>();
-- 
2.43.0


From 0052a5d900fef64fb7d013eedc24dc93738db1ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:55 +0000
Subject: [PATCH 29/83] fix: pooling2d_v2 keeps rejecting unsupported inputs

---
 src/kernels/cpu/pooling2d_v2.cpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/kernels/cpu/pooling2d_v2.cpp b/src/kernels/cpu/pooling2d_v2.cpp
index 06c9efa..d52244e 100644
--- a/src/kernels/cpu/pooling2d_v2.cpp
+++ b/src/kernels/cpu/pooling2d_v2.cpp
@@ -74,7 +74,15 @@ namespace ts {
             }
 
             if (updated) {
-                m_op_pooling2d->init();
+                try {
+                    m_op_pooling2d->init();
+                } catch (...) {
+                    // rejected params must be checked again
+                    m_padding_int4x2 = Tensor();
+                    m_ksize_int4 = Tensor();
+                    m_stride_int4 = Tensor();
+                    throw;
+                }
             }
 
             stack.push(0);
@@ -107,7 +115,15 @@ namespace ts {
             }
 
             if (updated) {
-                m_op_pooling2d->init();
+                try {
+                    m_op_pooling2d->init();
+                } catch (...) {
+                    // rejected params must be checked again
+                    m_padding_int4x2 = Tensor();
+                    m_ksize_int4 = Tensor();
+                    m_stride_int4 = Tensor();
+                    throw;
+                }
             }
 
 
-- 
2.43.0


From 965d1e5eb39997d936878bb7d4bc6597dc9b2a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:55 +0000
Subject: [PATCH 30/83] fix: max pooling stays inside the input and fills
 double outputs

---
 src/kernels/cpu/pooling2d_core.cpp | 31 ++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/src/kernels/cpu/pooling2d_core.cpp b/src/kernels/cpu/pooling2d_core.cpp
index 6d67ab8..9e79b26 100644
--- a/src/kernels/cpu/pooling2d_core.cpp
+++ b/src/kernels/cpu/pooling2d_core.cpp
@@ -8,6 +8,7 @@
 
 #include <algorithm>
 #include <functional>
+#include <type_traits>
 #include <kernels/cpu/pooling_algorithm.h>
 
 #include "utils/platform.h"
@@ -17,13 +18,31 @@ namespace ts {
 
         using function = std::function<void(const Tensor &,Tensor &,const Padding2D &)>;
 
+        /**
+         * if every window covers the input, and only the first window exceeds the begin of input
+         */
+        static inline bool windows_cover_input(int input, int output, int padding, int ksize, int stride) {
+            if (output < 1) return false;
+            return input >= ksize - padding && (output - 1) * stride - padding < input;
+        }
+
         template<typename T>
-        static inline function get_pooling_kernel(const Padding2D &padding,
+        static inline function get_pooling_kernel(const Shape &input_shape,
+                                                  const Shape &output_shape,
+                                                  const Padding2D &padding,
                                                   const KSize2D &ksize,
                                                   const Stride2D &stride,
                                                   Pooling2DType pooling_type){
             function pooling_kernel;
 
+            // only float has optimized kernels
+            if (!std::is_same<T, float>::value) return pooling_kernel;
+
+            if (!windows_cover_input(input_shape[2], output_shape[2], padding.top, ksize.height, stride.height) ||
+                !windows_cover_input(input_shape[3], output_shape[3], padding.left, ksize.width, stride.width)) {
+                return pooling_kernel;
+            }
+
             if((stride.height == 2 && stride.width == 2) &&
               (padding.top == 0 || padding.top == 1) &&
               (padding.bottom == 0 || padding.bottom == 1) &&
@@ -67,6 +86,11 @@ namespace ts {
                             ihStart = std::max<int>(ihStart, 0);
                             iwStart = std::max<int>(iwStart, 0);
                             int outIndex = oh * output_w + ow;
+                            if (ihStart >= ihEnd || iwStart >= iwEnd) {
+                                // no input in this window
+                                output_data[outIndex] = 0;
+                                continue;
+                            }
                             //T maxVlue = 0;
                             T maxVlue = input_data[ihStart * input_w + iwStart];
                             //int count = 0;
@@ -197,7 +221,7 @@ namespace ts {
             static const auto WHITE_MAX = ENCODE(Padding2DType::WHITE, Pooling2DType::MAX);
             static const auto WHITE_AVG = ENCODE(Padding2DType::WHITE, Pooling2DType::AVG);
 
-            auto pooling_kernel = get_pooling_kernel<T>(padding, ksize, stride, type);
+            auto pooling_kernel = get_pooling_kernel<T>(x.sizes(), out.sizes(), padding, ksize, stride, type);
 
             if (code == BLACK_MAX) {
                 if(pooling_kernel){
@@ -236,6 +260,9 @@ namespace ts {
             if (padding_type != Padding2DType::BLACK && padding_type != Padding2DType::WHITE) {
                 TS_LOG_ERROR << "Pooling2D only support black padding or white padding" << eject;
             }
+            if (type != Pooling2DType::MAX && type != Pooling2DType::AVG) {
+                TS_LOG_ERROR << "Pooling2D only support MAX and AVG" << eject;
+            }
             DTYPE dtype = out.dtype();
             switch (dtype) {
 #define DECLARE_COMPUTE_RUN(DTYPE, TYPE) \
-- 
2.43.0


From d39343ba07e92fb8fbda92335897dac481b7d32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:21 +0000
Subject: [PATCH 31/83] fix: matmul rejects operands that do not fit before
 using their shapes

---
 src/backend/base/base_matmul.cpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/backend/base/base_matmul.cpp b/src/backend/base/base_matmul.cpp
index 32bfac7..aab02b9 100644
--- a/src/backend/base/base_matmul.cpp
+++ b/src/backend/base/base_matmul.cpp
@@ -31,18 +31,21 @@ namespace ts {
             auto a = stack[0];
             auto b = stack[1];
 
-            auto dim4 = false;
-            if (b.dims() == 4) {
-                auto one = a.size(0) * a.size(1) * b.size(0) * b.size(1);
-                if (!one) {
+            auto dim4 = a.dims() == 4 && b.dims() == 4;
+
+            if (dim4) {
+                if (a.size(0) != 1 || a.size(1) != 1 || b.size(0) != 1 || b.size(1) != 1) {
                     TS_LOG_ERROR << "Input of MatMal could be [1, 1, ?, k] and [1, 1, k, ?], but got "
-                        << a.dims() << " " << b.dims() << eject;
+                        << to_string(a.sizes()) << " " << to_string(b.sizes()) << eject;
                 }
-                dim4 = true;
                 a = a.reshape({a.size(2), a.size(3)});
                 b = b.reshape({b.size(2), b.size(3)});
-            } else if (b.dims() > 2) {
-                TS_LOG_ERROR << "Dimension of b in MatMal must less than 2, but got " << b.dims() << eject;
+            } else if (b.dims() != 2) {
+                TS_LOG_ERROR << "Dimension of b in MatMal must be 2, but got " << b.dims() << eject;
+            }
+
+            if (a.dims() < 1 || a.size(a.dims() - 1) != b.size(0) || a.dtype() != b.dtype()) {
+                TS_LOG_ERROR << "Can not matmul between " << a.proto() << " and " << b.proto() << eject;
             }
 
             outputs.resize(1);
-- 
2.43.0


From 4aee9a3210e2e69d2012b1da7cfde142c3dd4f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:53 +0000
Subject: [PATCH 32/83] fix: packing weights leaves the original constants
 alone

The packed (or transposed) weights replaced the value of the original Const
node, so a constant used twice was packed twice, and compiling changed the
module. gemm with fed transposed B lost the transposition, gemm without
explicit coefficients and weights other than float made compilation fail, and
already packed weights were packed again.
---
 .../option/pack_translator_option.cpp         | 87 +++++++++----------
 1 file changed, 39 insertions(+), 48 deletions(-)

diff --git a/src/compiler/option/pack_translator_option.cpp b/src/compiler/option/pack_translator_option.cpp
index 73c5704..8f2f68a 100644
--- a/src/compiler/option/pack_translator_option.cpp
+++ b/src/compiler/option/pack_translator_option.cpp
@@ -57,64 +57,46 @@ bool ts::PackTranslatorOption::translate(const ComputingDevice &device, const No
         auto inputs = node.inputs();
         auto A_node = inputs[0],B_node = inputs[1],C_node = inputs[2];
 
-        float alpha = tensor::to_float(node.bubble().get(name::alpha));
-        float beta = tensor::to_float(node.bubble().get(name::beta));
-        bool transA = tensor::to_bool(node.bubble().get(name::transA));
-        bool transB = tensor::to_bool(node.bubble().get(name::transB));
+        auto param = [&](const std::string &key, const Tensor &value) {
+            return node.bubble().has(key) ? node.bubble().get(key) : value;
+        };
+
+        float alpha = tensor::to_float(param(name::alpha, tensor::from<float>(1)));
+        float beta = tensor::to_float(param(name::beta, tensor::from<float>(1)));
+        bool transA = tensor::to_bool(param(name::transA, tensor::from<bool>(false)));
+        bool transB = tensor::to_bool(param(name::transB, tensor::from<bool>(false)));
+
+        auto is_float_matrix = [](const Node &n) {
+            if (n.bubble().op() != Bubble::Const) return false;
+            auto value = n.bubble().get(name::value);
+            return value.dtype() == FLOAT32 && value.dims() == 2;
+        };
 
         //NOTE:Can not translate in this case,inner_product not support now
-        if (A_node.bubble().op() != Bubble::Const && transA) {
+        if (!is_float_matrix(B_node) || (transA && !is_float_matrix(A_node))) {
             Node::Link(translated_node, node.inputs());
             return true;
         }
 
-        //transpose const if trans is true
-        auto A_trans_node = A_node;
-        auto B_trans_node = B_node;
-        if (A_node.bubble().op() == Bubble::Const && transA) {
-            auto A_tensor = A_node.bubble().get(name::value);
-            auto dtype = A_tensor.dtype();
-            auto shape = A_tensor.sizes();
-            Shape transposed_shape({ shape[1], shape[0] });
-            Tensor transposed(dtype, transposed_shape);
-            switch (dtype) {
-#define DECLARE_COMPUTE_RUN(DTYPE, TYPE) \
-            case DTYPE: { cpu::math<TYPE, TYPE>::matrix_transpose(A_tensor.data<TYPE>(), transposed.data<TYPE>(), shape[0], shape[1]); break; }
-                DECLARE_COMPUTE_RUN(FLOAT32, float);
-#undef DECLARE_COMPUTE_RUN
-                default: {
-                    TS_LOG_ERROR << "Pack translator not support data type(" << dtype << "): " << type_str(dtype) << eject;
-                    break;
-                }
-            }
-            A_trans_node.bubble().set(name::value, transposed);
-        }
-
-        if (B_node.bubble().op() == Bubble::Const && transB) {
-            auto B_tensor = B_node.bubble().get(name::value);
-            auto dtype = B_tensor.dtype();
-            auto shape = B_tensor.sizes();
-            Shape transposed_shape({ shape[1], shape[0] });
-            Tensor transposed(dtype, transposed_shape);
-            switch (dtype) {
-#define DECLARE_COMPUTE_RUN(DTYPE, TYPE) \
-            case DTYPE: { cpu::math<TYPE, TYPE>::matrix_transpose(B_tensor.data<TYPE>(), transposed.data<TYPE>(), shape[0], shape[1]); break; }
-                DECLARE_COMPUTE_RUN(FLOAT32, float);
-#undef DECLARE_COMPUTE_RUN
-                default: {
-                    TS_LOG_ERROR << "Pack translator not support data type(" << dtype << "): " << type_str(dtype) << eject;
-                    break;
-                }
-            }
-            B_trans_node.bubble().set(name::value, transposed);
-        }
+        //transpose const if trans is true, the original const may be used by others
+        auto transposed_const = [](const Node &n) {
+            auto tensor = n.bubble().get(name::value);
+            auto shape = tensor.sizes();
+            Tensor transposed(tensor.dtype(), Shape({ shape[1], shape[0] }));
+            cpu::math<float, float>::matrix_transpose(tensor.data<float>(), transposed.data<float>(), shape[0], shape[1]);
+            auto transposed_node = bubble::bubble(n.bubble());
+            transposed_node.bubble().set(name::value, transposed);
+            return transposed_node;
+        };
+        auto A_trans_node = transA ? transposed_const(A_node) : A_node;
+        auto B_trans_node = transB ? transposed_const(B_node) : B_node;
 
         auto inner_prod_node = bubble::op(name + "_inner_prod", name::layer::inner_prod(), { A_trans_node, B_trans_node });
 
-        auto alpha_node = bubble::data(name + "_alpha", node.bubble().get(name::alpha));
+        auto alpha_node = bubble::data(name + "_alpha", tensor::from<float>(alpha));
         auto alpha_mul_node = bubble::op(name + "_alpha_mul", name::layer::mul(), { alpha_node, inner_prod_node });
 
-        auto beta_node = bubble::data(name + "_beta", node.bubble().get(name::beta));
+        auto beta_node = bubble::data(name + "_beta", tensor::from<float>(beta));
         auto beta_mul_node = bubble::op(name + "_beta_mul", name::layer::mul(), { beta_node, C_node });
 
         if (ts::near(beta, float(0))) {
@@ -155,6 +137,14 @@ bool ts::PackTranslatorOption::translate(const ComputingDevice &device, const No
     auto kernel_shape = kernel_tensor.sizes();
     auto kernel_type = kernel_tensor.dtype();
 
+    // only float kernel can be packed, and can not be packed again
+    bool packed = node.bubble().has(name::kernel_packed) && tensor::to_bool(node.bubble().get(name::kernel_packed));
+    size_t kernel_dims = op_name == name::layer::inner_prod() ? 2 : 4;
+    if (kernel_type != FLOAT32 || kernel_shape.size() != kernel_dims || packed) {
+        Node::Link(translated_node, node.inputs());
+        return true;
+    }
+
     //winograd_check
 #ifdef TS_ON_ARM
     ArgParser parser;
@@ -233,7 +223,8 @@ bool ts::PackTranslatorOption::translate(const ComputingDevice &device, const No
     }
 
 
-    Node kernel_packed_node = kernel_node;
+    // the original const may be used by others
+    Node kernel_packed_node = bubble::bubble(kernel_node.bubble());
     kernel_packed_node.bubble().set(name::value, kernel_packed);
     translated_node.bubble().set(name::kernel_packed, tensor::from<bool>(true));
 
-- 
2.43.0


From e5f4a986ad1616ca57b5222f846d9a9729acb7d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:53 +0000
Subject: [PATCH 33/83] fix: half precision translation casts each input and
 output on its own

A non-float constant stopped later inputs from being cast; an output that was
also used by another node was returned as half; folding epsilon into the
variance changed the original constant, once per use.
---
 .../option/fp16_translator_option.cpp         | 42 +++++++++----------
 src/compiler/translater.cpp                   | 11 ++++-
 2 files changed, 29 insertions(+), 24 deletions(-)

diff --git a/src/compiler/option/fp16_translator_option.cpp b/src/compiler/option/fp16_translator_option.cpp
index 87bc840..11c0f64 100644
--- a/src/compiler/option/fp16_translator_option.cpp
+++ b/src/compiler/option/fp16_translator_option.cpp
@@ -53,10 +53,10 @@ ts::Fp16TranslatorOption::translate(const ts::ComputingDevice &device,
     }
 
     std::vector<Node> translated_inputs;
-    bool const_to_fp16 = true;
 
     auto inputs = node.inputs();
     for (auto input : inputs) {
+        bool const_to_fp16 = true;
         //check current stream is fp16 or fp32
         auto input_creator = Fp16OperatorCreator::Query(device.type(), input.bubble().op(), false);
         bool stream_is_fp16 = false;
@@ -101,37 +101,33 @@ ts::Fp16TranslatorOption::translate(const ts::ComputingDevice &device,
 
     //NOTE:Advance calculations are used to improve accuracy on batch norm
     if (translated_node.bubble().op() == name::layer::batch_norm()) {
-        bool change_param = false;
-        auto epsilon = translated_node.bubble().get(name::epsilon);
-        auto variance_node = translated_node.inputs()[2];
-        DTYPE dtype = VOID;
-        while (!Bubble::IsEndPoint(variance_node.bubble().op())) {
-            variance_node = variance_node.inputs()[0];
-            if (variance_node.bubble().op() == Bubble::Const) {
-                dtype = variance_node.bubble().get(name::value).dtype();
-                change_param = true;
-            }
-        }
+        auto translated_variance = translated_inputs[2];
+        bool change_param = translated_node.bubble().has(name::epsilon) &&
+                            translated_variance.bubble().op() == name::layer::cast() &&
+                            translated_variance.inputs()[0].bubble().op() == Bubble::Const;
         if (change_param) {
+            auto variance_node = translated_variance.inputs()[0];
+            Tensor epsilon = translated_node.bubble().get(name::epsilon);
             Tensor variance = variance_node.bubble().get(name::value);
+            DTYPE dtype = variance.dtype();
             Tensor epsilon_fp32 = tensor::cast(FLOAT32, epsilon);
-            Tensor variance_fp32 = tensor::cast(FLOAT32, variance);
+            Tensor variance_fp32 = tensor::cast(FLOAT32, variance).clone();
             auto epsilon_data = epsilon_fp32.data<float>();
             auto variance_data = variance_fp32.data<float>();
 
             for (int i = 0; i < variance.count(); i++) {
                 variance_data[i] += *epsilon_data;
             }
-            *epsilon_data = 0.f;
-
-            Tensor epsilon_temp = tensor::cast(dtype, epsilon_fp32);
-            Tensor variance_temp = tensor::cast(dtype, variance_fp32);
-            auto test_e = epsilon_temp.data<float>();
-            auto test_v = variance_temp.data<float>();
-            TS_UNUSED(test_e);
-            TS_UNUSED(test_v);
-            translated_node.bubble().set(name::epsilon, epsilon_temp);
-            variance_node.bubble().set(name::value, variance_temp);
+
+            // the original const and cast may be used by others
+            auto changed_variance_node = bubble::bubble(variance_node.bubble());
+            changed_variance_node.bubble().set(name::value, tensor::cast(dtype, variance_fp32));
+            auto changed_cast_node = bubble::bubble(translated_variance.bubble());
+            Node::Link(changed_cast_node, {changed_variance_node});
+            translated_inputs[2] = changed_cast_node;
+
+            translated_node.bubble().set(name::epsilon, tensor::cast(dtype, tensor::from<float>(0)));
+            Node::Link(translated_node, translated_inputs);
         }
     }
 
diff --git a/src/compiler/translater.cpp b/src/compiler/translater.cpp
index 59488ec..f0b88f6 100644
--- a/src/compiler/translater.cpp
+++ b/src/compiler/translater.cpp
@@ -11,6 +11,8 @@
 
 #include "module/menu.h"
 
+#include <algorithm>
+
 namespace ts {
     Translator::Translator(const ComputingDevice &device)
         : m_device(device){
@@ -26,7 +28,7 @@ namespace ts {
 
         //check ready map
         auto ready_it = ready_map.find(node);
-        if (ready_it != ready_map.end()) {
+        if (ready_it != ready_map.end() && !output_flag) {
             return ready_it->second;
         }
 
@@ -39,6 +41,13 @@ namespace ts {
 
         std::vector<Node> translated_inputs;
         auto input_nodes = translated_node.inputs();
+
+        // output may be wrapped in extra node, even if it was ready as input of others
+        bool wrapped = std::find(input_nodes.begin(), input_nodes.end(), node) != input_nodes.end();
+        if (ready_it != ready_map.end() && !wrapped) {
+            return ready_it->second;
+        }
+
         for (auto &input : input_nodes) {
             auto translated_input = translate_node(input, ready_map, device, options, params, false);
             translated_inputs.emplace_back(translated_input);
-- 
2.43.0


From 2ed4c29c6d19269ab9871cc0a2d66a4387d33f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:12 +0000
Subject: [PATCH 34/83] fix: half precision numbers near zero keep their value

---
 include/core/ieee754_float.h | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/include/core/ieee754_float.h b/include/core/ieee754_float.h
index 5b36157..7ba5a2c 100644
--- a/include/core/ieee754_float.h
+++ b/include/core/ieee754_float.h
@@ -121,18 +121,35 @@ namespace ts {
 
             auto shift_left = int64_t(fraction) - int64_t(other.fraction);
             auto part_sign = (other.value_sign() << (W - 1));
+            auto other_exponent = other.value_exponent();
+            auto other_fraction = other.value_fraction();
+            constexpr auto other_hidden = uint64_t(1) << _T_FRACTION;
+            constexpr auto hidden = uint64_t(1) << fraction;
+            // bring subnormal number to normal form
+            if (other_exponent == -int64_t(other.bias)) {
+                ++other_exponent;
+                while (other_fraction < other_hidden) {
+                    other_fraction <<= 1;
+                    --other_exponent;
+                }
+                other_fraction &= other_hidden - 1;
+            }
             auto part_fraction = shift_left > 0
-                                 ? (other.value_fraction() << shift_left)
-                                 : (other.value_fraction() >> -shift_left);
-            auto origin_exponent = other.value_exponent() + bias;
+                                 ? (other_fraction << shift_left)
+                                 : (other_fraction >> -shift_left);
+            auto origin_exponent = other_exponent + bias;
             // read url: https://baike.baidu.com/item/IEEE%20754/3869922?fr=aladdin
             // following code can make NaN number to max or min number
             constexpr auto max_exponent = (decltype(origin_exponent)(1) << exponent) - 2;
             constexpr auto max_fraction = (decltype(part_fraction)(1) << fraction) - 1;
-            if (origin_exponent < decltype(origin_exponent)(0)) {
+            if (origin_exponent <= decltype(origin_exponent)(0)) {
+                auto shift_right = 1 - origin_exponent;
+                part_fraction = shift_right > decltype(shift_right)(fraction)
+                                ? 0
+                                : (hidden | part_fraction) >> shift_right;
+                if (part_fraction == 0) part_fraction = 1;  // smallest float
                 origin_exponent = 0;
-                part_fraction = 1;  // smallest float
-            } else if (origin_exponent > max_exponent) {
+            } else if (origin_exponent > max_exponent || other_exponent > int64_t(other.bias)) {
                 origin_exponent = max_exponent;
                 part_fraction = max_fraction;
             }
-- 
2.43.0


From ac993271103ef4a557812229afe75d3bc46d8e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:12 +0000
Subject: [PATCH 35/83] fix: casting to bool is true for every value but zero

---
 src/core/tensor_builder.cpp | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/core/tensor_builder.cpp b/src/core/tensor_builder.cpp
index f352cd6..ab1af60 100644
--- a/src/core/tensor_builder.cpp
+++ b/src/core/tensor_builder.cpp
@@ -56,6 +56,28 @@ namespace ts {
             };
         };
 
+        // bool is true for every value other than zero
+        template<DTYPE DTYPE_SRC>
+        class type_cast_template<BOOLEAN, DTYPE_SRC> {
+        public:
+            static void
+            cast(typename dtype<BOOLEAN>::declare *dst, const typename dtype<DTYPE_SRC>::declare *src, size_t size) {
+                using T = typename dtype<DTYPE_SRC>::declare;
+                for (size_t i = 0; i < size; ++i) {
+                    dst[i] = src[i] != T(0) ? 1 : 0;
+                }
+            };
+        };
+
+        template<>
+        class type_cast_template<BOOLEAN, BOOLEAN> {
+        public:
+            static void
+            cast(typename dtype<BOOLEAN>::declare *dst, const typename dtype<BOOLEAN>::declare *src, size_t size) {
+                std::memcpy(dst, src, size * sizeof(typename dtype<BOOLEAN>::declare));
+            };
+        };
+
         template <DTYPE SAME_DTYPE>
         class type_cast_template<SAME_DTYPE, SAME_DTYPE> {
         public:
-- 
2.43.0


From ed95427b3aa0127f812634862a92b6dec2ea45c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:12 +0000
Subject: [PATCH 36/83] fix: edit distance and range splitting for every input

edit_distance gave matching characters away for free, and split_bins
overflowed near the ends of the range of its type.
---
 src/utils/box.cpp | 95 ++++++++++++++++-------------------------------
 1 file changed, 31 insertions(+), 64 deletions(-)

diff --git a/src/utils/box.cpp b/src/utils/box.cpp
index 3e96975..52a7f72 100644
--- a/src/utils/box.cpp
+++ b/src/utils/box.cpp
@@ -8,7 +8,7 @@
 #include <algorithm>
 #include <memory>
 #include <cmath>
-#include <cfenv>
+#include <cstdint>
 #include <ctime>
 #include <iomanip>
 #include <sstream>
@@ -27,86 +27,53 @@ namespace ts {
         if (M == 0) return int(N);
         if (N == 0) return int(M);
 
-        std::unique_ptr<int[]> dist(new int[M * N]);
-#define __EDIT_DIST(m, n) (dist[(m) * N + (n)])
-        __EDIT_DIST(0, 0) = lhs[0] == rhs[0] ? 0 : 2;
-        for (size_t n = 1; n < N; ++n) {
-            __EDIT_DIST(0, n) = __EDIT_DIST(0, n - 1) + 1;
+        // distance of each pair of prefixes: insert or delete costs 1, replace costs 2
+        std::unique_ptr<int[]> dist(new int[(M + 1) * (N + 1)]);
+#define __EDIT_DIST(m, n) (dist[(m) * (N + 1) + (n)])
+        for (size_t n = 0; n <= N; ++n) {
+            __EDIT_DIST(0, n) = int(n);
         }
-        for (size_t m = 1; m < M; ++m) {
-            __EDIT_DIST(m, 0) = __EDIT_DIST(m - 1, 0) + 1;
-        }
-        for (size_t m = 1; m < M; ++m) {
-            for (size_t n = 1; n < N; ++n) {
-                if (lhs[m] == rhs[n]) {
-                    __EDIT_DIST(m, n) = min(
-                            __EDIT_DIST(m - 1, n),
-                            __EDIT_DIST(m, n - 1),
-                            __EDIT_DIST(m - 1, n - 1));
-                } else {
-                    __EDIT_DIST(m, n) = min(
-                            __EDIT_DIST(m - 1, n) + 1,
-                            __EDIT_DIST(m, n - 1) + 1,
-                            __EDIT_DIST(m - 1, n - 1) + 2);
-                }
+        for (size_t m = 1; m <= M; ++m) {
+            __EDIT_DIST(m, 0) = int(m);
+            for (size_t n = 1; n <= N; ++n) {
+                __EDIT_DIST(m, n) = min(
+                        __EDIT_DIST(m - 1, n) + 1,
+                        __EDIT_DIST(m, n - 1) + 1,
+                        __EDIT_DIST(m - 1, n - 1) + (lhs[m - 1] == rhs[n - 1] ? 0 : 2));
             }
         }
-        return dist[M * N - 1];
+        return __EDIT_DIST(M, N);
 #undef __EDIT_DIST
     }
 
-    static int safe_ceil(double x) {
-        int result;
-        int save_round = std::fegetround();
-        std::fesetround(FE_UPWARD);
-        result = int(std::lrint(x));
-        std::fesetround(save_round);
-        return result;
-    }
-
-    std::vector<std::pair<int, int>> split_bins(int first, int second, int bins) {
-        if (second <= first) return {};
-        if (bins <= 1) return {{first, second}};
-        auto step = safe_ceil((double(second) - double(first)) / bins);
-        if (step < 1) step = 1;
+    template<typename T>
+    static std::vector<std::pair<T, T>> split_bins_with(T first, T second, uint64_t bins) {
+        // second - first and the end of next bin may be out of range of T
+        auto left = uint64_t(second) - uint64_t(first);
+        auto step = left / bins + (left % bins ? 1 : 0);
         auto anchor = first;
 
-        std::vector<std::pair<int, int>> result_bins;
-        while (anchor + step < second) {
-            result_bins.emplace_back(std::make_pair(anchor, anchor + step));
-            anchor += step;
-        }
-        if (anchor < second) {
-            result_bins.emplace_back(std::make_pair(anchor, second));
+        std::vector<std::pair<T, T>> result_bins;
+        while (left > step) {
+            auto next = T(uint64_t(anchor) + step);
+            result_bins.emplace_back(std::make_pair(anchor, next));
+            anchor = next;
+            left -= step;
         }
+        result_bins.emplace_back(std::make_pair(anchor, second));
         return result_bins;
     }
 
-    static long safe_lceil(double x) {
-        long result;
-        int save_round = std::fegetround();
-        std::fesetround(FE_UPWARD);
-        result = long(std::lrint(x));
-        std::fesetround(save_round);
-        return result;
+    std::vector<std::pair<int, int>> split_bins(int first, int second, int bins) {
+        if (second <= first) return {};
+        if (bins <= 1) return {{first, second}};
+        return split_bins_with<int>(first, second, uint64_t(bins));
     }
 
     std::vector<std::pair<size_t, size_t>> lsplit_bins(size_t first, size_t second, size_t bins) {
         if (second <= first) return {};
         if (bins <= 1) return {{first, second}};
-        auto step = safe_lceil((double(second) - double(first)) / bins);
-        if (step < 1) step = 1;
-        auto anchor = first;
-
-        std::vector<std::pair<size_t, size_t >> result_bins;
-        while (anchor + step < second) {
-            result_bins.emplace_back(std::make_pair(anchor, anchor + step));
-            anchor += step;
-        }
-        if (anchor < second) {
-            result_bins.emplace_back(std::make_pair(anchor, second));
-        }
-        return result_bins;
+        return split_bins_with<size_t>(first, second, bins);
     }
 
     static struct tm time2tm(std::time_t from) {
-- 
2.43.0


From 8a0330f2214579a1226f3717f2e4533dc42f1a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:31 +0000
Subject: [PATCH 37/83] fix: destroying a thread does not miss its wakeup, and
 busy tells the truth

---
 src/runtime/inside/thread_pool.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/runtime/inside/thread_pool.cpp b/src/runtime/inside/thread_pool.cpp
index 3540e7b..ae23ca9 100644
--- a/src/runtime/inside/thread_pool.cpp
+++ b/src/runtime/inside/thread_pool.cpp
@@ -13,7 +13,11 @@ namespace ts {
     }
 
     Thread::~Thread() {
-        is_running = false;
+        {
+            // change state under lock, or the thread going to wait misses the notify
+            std::unique_lock<std::mutex> locker(task_mutex);
+            is_running = false;
+        }
         task_cond.notify_all();
         core.join();
     }
@@ -27,7 +31,7 @@ namespace ts {
     }
 
     bool Thread::busy() {
-        if (!task_mutex.try_lock()) return false;
+        if (!task_mutex.try_lock()) return true;    // the lock is held while running
         bool is_busy = task != nullptr;
         task_mutex.unlock();
         return is_busy;
@@ -108,10 +112,8 @@ namespace ts {
     }
 
     bool ThreadPool::busy() {
-        if (!running_core_mutex.try_lock()) return false;
-        bool is_busy = this->running_core.size() != this->thread_pool.size();
-        running_core_mutex.unlock();
-        return is_busy;
+        std::unique_lock<std::mutex> locker(running_core_mutex);
+        return this->running_core.size() != this->thread_pool.size();
     }
 
     size_t ThreadPool::size() const {
-- 
2.43.0


From 20fb10e719678dc262f60317a1102bb27a12ae7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:31 +0000
Subject: [PATCH 38/83] fix: shared tensors count their users atomically

---
 include/core/threadsafe/smart.h | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/include/core/threadsafe/smart.h b/include/core/threadsafe/smart.h
index 58d11cd..0997f73 100644
--- a/include/core/threadsafe/smart.h
+++ b/include/core/threadsafe/smart.h
@@ -52,13 +52,13 @@ namespace ts {
         Counter &operator==(self &&other) TS_NOEXCEPT {
 #define MOVE_MEMBER(member) this->member = std::move(other.member)
             MOVE_MEMBER(object);
-            MOVE_MEMBER(use_count);
 #undef MOVE_MEMBER
+            this->use_count = other.use_count.load();
             return *this;
         }
 
         Object *object = nullptr;
-        int use_count = 0;
+        std::atomic<int> use_count{0};   // counted objects may be shared between threads
         Deleter deleter = default_deleter<T>();
     };
 
@@ -113,11 +113,9 @@ namespace ts {
 
         void dispose() {
             if (m_counted && m_mode == SMART) {
-                --m_counted->use_count;
-                if (m_counted->use_count <= 0) {
-                    delete m_counted;
-                    m_counted = nullptr;
-                }
+                auto counted = m_counted;
+                m_counted = nullptr;
+                if (--counted->use_count <= 0) delete counted;
             }
         }
 
-- 
2.43.0


From bfd2f605066ac651c50c52caff67051995f7e794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:19 +0000
Subject: [PATCH 39/83] fix: memory blocks stay consistent when disposed, moved
 or out of memory

---
 src/core/hard_memory.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/core/hard_memory.cpp b/src/core/hard_memory.cpp
index cfaa7cf..885bed9 100644
--- a/src/core/hard_memory.cpp
+++ b/src/core/hard_memory.cpp
@@ -43,6 +43,7 @@ namespace ts {
     void HardMemory::dispose() {
         if (m_allocator) m_allocator(m_device.id(), 0, m_data, 0);
         m_data = nullptr;
+        m_capacity = 0;
     }
 
     void HardMemory::expect(size_t size) {
@@ -64,7 +65,9 @@ namespace ts {
     void HardMemory::resize(size_t size) {
         if (!m_allocator) TS_LOG_ERROR("Borrowed memory can not be resized.") << eject;
         if (size != m_capacity) {
-            m_data = m_allocator(m_device.id(), size, m_data, 0);
+            // the content is not kept, and the allocator may fail after it was freed
+            this->dispose();
+            m_data = m_allocator(m_device.id(), size, nullptr, 0);
             m_capacity = size;
         }
     }
@@ -81,12 +84,16 @@ namespace ts {
     }
 
     HardMemory &HardMemory::operator=(self &&other) TS_NOEXCEPT {
+        if (this == &other) return *this;
+        this->dispose();
 #define MOVE_MEMBER(member) this->member = std::move(other.member)
         MOVE_MEMBER(m_device);
         MOVE_MEMBER(m_capacity);
         MOVE_MEMBER(m_data);
         MOVE_MEMBER(m_allocator);
 #undef MOVE_MEMBER
+        other.m_data = nullptr;
+        other.m_capacity = 0;
         return *this;
     }
 }
-- 
2.43.0


From d416b760f5790f5c2e2200ea98f56c482828cc98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:19 +0000
Subject: [PATCH 40/83] fix: filling memory with an empty pattern is rejected

---
 src/core/memory.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/memory.cpp b/src/core/memory.cpp
index 5b690b7..b3d4379 100644
--- a/src/core/memory.cpp
+++ b/src/core/memory.cpp
@@ -130,6 +130,8 @@ namespace ts {
                                                                                  : HardConverter::Query(
                         dst_device.type(), dst_device.type());
         TS_AUTO_CHECK(in_device_converter != nullptr);
+        TS_AUTO_CHECK(src_size > 0 || dst_size == 0);
+        if (dst_size == 0) return;
         cross_device_converter(dst_device.id(), dst_ptr, src_device.id(), src_ptr, std::min(dst_size, src_size));
         size_t copy_anchor = src_size;
         while (copy_anchor <= size_t(dst_size >> 1)) {
-- 
2.43.0


From d17234465975497fa647017981a8b04694099828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:19 +0000
Subject: [PATCH 41/83] fix: reshape and slice reject what does not fit the
 tensor

---
 src/core/tensor.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/core/tensor.cpp b/src/core/tensor.cpp
index 27b1d7d..3b19227 100644
--- a/src/core/tensor.cpp
+++ b/src/core/tensor.cpp
@@ -226,6 +226,10 @@ namespace ts {
         if (fixed_index >= 0) {
             auto up = std::accumulate(this->sizes().begin(), this->sizes().end(), 1, std::multiplies<int>());
             auto down = std::accumulate(fixed_shape.begin(), fixed_shape.end(), 1, std::multiplies<int>());
+            if (down == 0) {
+                TS_LOG_ERROR << "Can not reshape " << to_string(this->sizes()) << " to " << to_string(shape)
+                             << eject;
+            }
             fixed_shape[fixed_index] = up / -down;
         }
 
@@ -632,6 +636,7 @@ namespace ts {
 
     Tensor Tensor::slice(int i) {
         auto &sizes = this->sizes();
+        TS_AUTO_CHECK(!sizes.empty() && i >= 0 && i < sizes[0]);
         auto width = std::accumulate(sizes.begin() + 1, sizes.end(), 1, std::multiplies<int>());
         width *= this->proto().type_bytes();
         Shape slice_shape(sizes.begin() + 1, sizes.end());
@@ -640,8 +645,8 @@ namespace ts {
     }
 
     Tensor Tensor::slice(int beg, int end) {
-        TS_AUTO_CHECK(beg < end);
         auto &sizes = this->sizes();
+        TS_AUTO_CHECK(!sizes.empty() && beg >= 0 && beg < end && end <= sizes[0]);
         auto width = std::accumulate(sizes.begin() + 1, sizes.end(), 1, std::multiplies<int>());
         width *= this->proto().type_bytes();
 
-- 
2.43.0


From c9d4a7e8bad7cbfeee659b7ab25fce7e82917631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:19 +0000
Subject: [PATCH 42/83] fix: updating an empty iteration does not read it after
 it is freed

---
 include/core/scan.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/core/scan.h b/include/core/scan.h
index 4fb802c..91264d3 100644
--- a/include/core/scan.h
+++ b/include/core/scan.h
@@ -142,7 +142,7 @@ namespace ts {
 
     // return all iteration may size, and remove all zero times iteration
     // if return zero, iteration should be deleted
-    Iteration::times_t update_iteration(Iteration *iteration) {
+    inline Iteration::times_t update_iteration(Iteration *iteration) {
         if (iteration == nullptr) return 0;
         if (iteration->times == 0) {
             delete_iteration(iteration);
@@ -162,13 +162,16 @@ namespace ts {
                     ++iter;
                 }
             }
-            if (times == 0) delete_iteration(iteration);
+            if (times == 0) {
+                delete_iteration(iteration);
+                return 0;
+            }
             return iteration->times * times;
         }
         return iteration->times;
     }
 
-    Iteration::times_t update_iteration(Iteration **piteration) {
+    inline Iteration::times_t update_iteration(Iteration **piteration) {
         if (piteration == nullptr) return 0;
         Iteration::times_t times = update_iteration(*piteration);
         if (times == 0) *piteration = nullptr;
-- 
2.43.0


From eef812d68ccf5704385719a6f7d7cec5f00b17b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:19 +0000
Subject: [PATCH 43/83] fix: fixed point numbers multiply, divide and compare
 by their signed value

---
 include/core/sink.h | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/include/core/sink.h b/include/core/sink.h
index b8b5d60..9b171d1 100644
--- a/include/core/sink.h
+++ b/include/core/sink.h
@@ -29,8 +29,8 @@ namespace ts {
         static _T Min();
     };
 
-#define TS_DEFINE_NUMBER_MAX(_T, value) template <> _T number<_T>::Max() { return (value); }
-#define TS_DEFINE_NUMBER_MIN(_T, value) template <> _T number<_T>::Min() { return (value); }
+#define TS_DEFINE_NUMBER_MAX(_T, value) template <> inline _T number<_T>::Max() { return (value); }
+#define TS_DEFINE_NUMBER_MIN(_T, value) template <> inline _T number<_T>::Min() { return (value); }
 
     TS_DEFINE_NUMBER_MAX(int8_t, INT8_MAX)
     TS_DEFINE_NUMBER_MIN(int8_t, INT8_MIN)
@@ -81,7 +81,7 @@ namespace ts {
     public:
         static _FIXED_T ToFixed(_COMMON_T value, int _Q) {
             // TODO: supporting round number
-            auto fixed = top_number(value * (1 << _Q));
+            auto fixed = top_number(value * (uint64_t(1) << _Q));
 #ifndef TS_SINK_CHECKING_OVERFLOW
             return _FIXED_T(fixed);
 #else
@@ -92,7 +92,7 @@ namespace ts {
         }
 
         static _COMMON_T ToCommon(_FIXED_T value, int _Q) {
-            return _COMMON_T(value) / (1 << _Q);
+            return _COMMON_T(value) / (uint64_t(1) << _Q);
         }
     };
 
@@ -246,7 +246,7 @@ namespace ts {
     sink<_T, _Q> operator-(const sink<_T, _Q> &lhs, const sink<_T, _Q> &rhs) {
         using _S = typename _signed<_T>::T;
         using _DS = typename _double_width<_S>::T;
-        auto fixed = _DS(lhs.value) - _DS(rhs.value);
+        auto fixed = _DS(_S(lhs.value)) - _DS(_S(rhs.value));
 #ifndef TS_SINK_CHECKING_OVERFLOW
         return sink<_T, _Q>::from_fixed(_T(fixed));
 #else
@@ -260,7 +260,7 @@ namespace ts {
     sink<_T, _Q> operator+(const sink<_T, _Q> &lhs, const sink<_T, _Q> &rhs) {
         using _S = typename _signed<_T>::T;
         using _DS = typename _double_width<_S>::T;
-        auto fixed = _DS(lhs.value) + _DS(rhs.value);
+        auto fixed = _DS(_S(lhs.value)) + _DS(_S(rhs.value));
 #ifndef TS_SINK_CHECKING_OVERFLOW
         return sink<_T, _Q>::from_fixed(_T(fixed));
 #else
@@ -279,7 +279,7 @@ namespace ts {
     sink<_T, _Q> operator*(const sink<_T, _Q> &lhs, const sink<_T, _Q> &rhs) {
         using _S = typename _signed<_T>::T;
         using _DS = typename _double_width<_S>::T;
-        auto fixed = ((_DS)(lhs.value) * (_DS)(rhs.value)) >> ((_Q) + (_Q) - (_Q));
+        auto fixed = (_DS(_S(lhs.value)) * _DS(_S(rhs.value))) >> ((_Q) + (_Q) - (_Q));
 #ifndef TS_SINK_CHECKING_OVERFLOW
         return sink<_T, _Q>::from_fixed(_T(fixed));
 #else
@@ -293,7 +293,7 @@ namespace ts {
     sink<_T, _Q> operator/(const sink<_T, _Q> &lhs, const sink<_T, _Q> &rhs) {
         using _S = typename _signed<_T>::T;
         using _DS = typename _double_width<_S>::T;
-        auto fixed = rhs.value == 0 ? sink<_T, _Q>::Max().value : (((_DS)lhs.value) << ((_Q) + (_Q) - (_Q))) / rhs.value;
+        auto fixed = rhs.value == 0 ? _DS(number<_S>::Max()) : (_DS(_S(lhs.value)) << ((_Q) + (_Q) - (_Q))) / _DS(_S(rhs.value));
 #ifndef TS_SINK_CHECKING_OVERFLOW
         return sink<_T, _Q>::from_fixed(_T(fixed));
 #else
@@ -304,16 +304,16 @@ namespace ts {
     }
 
     template <typename _T, int _Q>
-    bool operator<(const sink<_T, _Q> &lhs, const sink<_T, _Q> &rhs) { return lhs.value < rhs.value; }
+    bool operator<(const sink<_T, _Q> &lhs, const sink<_T, _Q> &rhs) { using _S = typename _signed<_T>::T; return _S(lhs.value) < _S(rhs.value); }
 
     template <typename _T, int _Q>
-    bool operator>(const sink<_T, _Q> &lhs, const sink<_T, _Q> &rhs) { return lhs.value > rhs.value; }
+    bool operator>(const sink<_T, _Q> &lhs, const sink<_T, _Q> &rhs) { using _S = typename _signed<_T>::T; return _S(lhs.value) > _S(rhs.value); }
 
     template <typename _T, int _Q>
-    bool operator<=(const sink<_T, _Q> &lhs, const sink<_T, _Q> &rhs) { return lhs.value <= rhs.value; }
+    bool operator<=(const sink<_T, _Q> &lhs, const sink<_T, _Q> &rhs) { using _S = typename _signed<_T>::T; return _S(lhs.value) <= _S(rhs.value); }
 
     template <typename _T, int _Q>
-    bool operator>=(const sink<_T, _Q> &lhs, const sink<_T, _Q> &rhs) { return lhs.value >= rhs.value; }
+    bool operator>=(const sink<_T, _Q> &lhs, const sink<_T, _Q> &rhs) { using _S = typename _signed<_T>::T; return _S(lhs.value) >= _S(rhs.value); }
 
     template <typename _T, int _Q>
     bool operator==(const sink<_T, _Q> &lhs, const sink<_T, _Q> &rhs) { return lhs.value == rhs.value; }
-- 
2.43.0


From c73f8e0e4c659b8754dfa84a0162dd9e0f4e6162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:05 +0000
Subject: [PATCH 44/83] fix: the memory pool uses the smallest free block that
 fits

---
 src/memory/orz/vat.cpp | 28 +++++++---------------------
 1 file changed, 7 insertions(+), 21 deletions(-)

diff --git a/src/memory/orz/vat.cpp b/src/memory/orz/vat.cpp
index d2e244c..1c1bb83 100644
--- a/src/memory/orz/vat.cpp
+++ b/src/memory/orz/vat.cpp
@@ -22,26 +22,11 @@ namespace ts {
         // TS_LOG_DEBUG << "delete Vat(" << this << ")";
     }
 
-    static int binary_find(const std::vector<Pot> &heap, size_t size, int left, int right) {
-        while (true) {
-            if (right - left <= 0) return left;
-            int middle = (left + right) / 2;
-            if (heap[middle].capacity() < size) {
-                left = middle + 1;
-                continue;
-            }
-            if (middle > 0 && heap[middle - 1].capacity() >= size) {
-                right = middle - 1;
-                continue;
-            }
-            return middle;
-        }
-    }
-
-    // find the position of Pot, which can contain the size, or return 0
-    // the return value
-    static int binary_find(const std::vector<Pot> &heap, size_t size) {
-        return binary_find(heap, size, 0, int(heap.size()) - 1);
+    // find the position of first Pot, which can contain the size, or return heap.size()
+    static size_t binary_find(const std::vector<Pot> &heap, size_t size) {
+        auto it = std::lower_bound(heap.begin(), heap.end(), size,
+                                   [](const Pot &pot, size_t size) { return pot.capacity() < size; });
+        return size_t(it - heap.begin());
     }
 
     void *Vat::malloc(size_t _size) {
@@ -50,7 +35,8 @@ namespace ts {
         Pot pot(m_allocator);
         if (!m_heap.empty())
         {
-            auto i = binary_find(m_heap, _size);
+            // grow the biggest piece, if no one can contain the size
+            auto i = std::min(binary_find(m_heap, _size), m_heap.size() - 1);
             pot = m_heap[i];
             m_heap.erase(m_heap.begin() + i);
         }
-- 
2.43.0


From 5e52529a4d5f950fbae0705dbbb2399c1fe8b7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:05 +0000
Subject: [PATCH 45/83] fix: a moved memory pool keeps its allocator

---
 src/memory/orz/vat.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/memory/orz/vat.cpp b/src/memory/orz/vat.cpp
index 1c1bb83..cd6dd6c 100644
--- a/src/memory/orz/vat.cpp
+++ b/src/memory/orz/vat.cpp
@@ -81,6 +81,8 @@ namespace ts {
     {
         this->m_heap.swap(that.m_heap);
         this->m_dict.swap(that.m_dict);
+        std::swap(this->m_allocator, that.m_allocator);
+        std::swap(this->m_deprecated, that.m_deprecated);
     }
 
     Vat::Vat(Vat &&that)
-- 
2.43.0


From 7cc7f75040db1d20c5ba8d28d8a082fddeaa431c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:41 +0000
Subject: [PATCH 46/83] fix: stack refuses tensors of different shapes before
 inserting the new axis

---
 src/kernels/cpu/stack_tensor.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/kernels/cpu/stack_tensor.cpp b/src/kernels/cpu/stack_tensor.cpp
index 51e4cb6..d1f74ce 100644
--- a/src/kernels/cpu/stack_tensor.cpp
+++ b/src/kernels/cpu/stack_tensor.cpp
@@ -28,6 +28,9 @@ namespace ts {
             }
 
             int nargs = int(stack.size());
+            for (int i = 1; i < nargs; ++i) {
+                TS_AUTO_CHECK(stack[i].has_shape(stack[0].sizes()));
+            }
             for (int i = 0; i < nargs; ++i) {
                 auto &x = stack[i];
                 auto shape = x.sizes();
-- 
2.43.0


From 6968668841887e66303d8c27d7c2fa55e51a1cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:52 +0000
Subject: [PATCH 47/83] fix: C API calls contain every standard exception and
 always report it

---
 src/api/declaration.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/api/declaration.h b/src/api/declaration.h
index 4ce97f6..a2fcf32 100644
--- a/src/api/declaration.h
+++ b/src/api/declaration.h
@@ -5,6 +5,7 @@
 #ifndef TENNIS_API_DECLARATION_H
 #define TENNIS_API_DECLARATION_H
 
+#include <exception>
 #include <memory>
 #include "errno.h"
 #include "utils/except.h"
@@ -35,13 +36,14 @@ try {
 
 #define RETURN_OR_CATCH(ret, cat) \
 return ret; \
-} catch (const Exception &e) { \
+} catch (const std::exception &e) { \
 ts::api::SetLEM(e.what()); \
 return cat; \
 }
 
 #define TRY_TAIL \
-} catch (const Exception &) { \
+} catch (const std::exception &e) { \
+ts::api::SetLEM(e.what()); \
 }
 
 #endif //TENNIS_API_DECLARATION_H
-- 
2.43.0


From 8d19f179c9436f4fe2a0fdde848f8e2c69853420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:52 +0000
Subject: [PATCH 48/83] fix: the shapes a plugin operator infers are read as
 documented

---
 src/api/operator.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/api/operator.cpp b/src/api/operator.cpp
index 8b501e8..722fd6f 100644
--- a/src/api/operator.cpp
+++ b/src/api/operator.cpp
@@ -102,15 +102,16 @@ public:
             std::vector<Tensor::Prototype> packed_proto;
             class _ : public std::exception {};
             try {
-                if (size <= 0) throw _();
-                packed_proto.resize(size);
+                if (size <= 0 || data[0] <= 0 || data[0] > (size - 1) / 2) throw _();
+                auto fields_count = data[0];
+                packed_proto.resize(size_t(fields_count));
                 int anchor = 1;
-                for (int i = 0; i < size; ++i) {
+                for (int i = 0; i < fields_count; ++i) {
                     if (size - anchor < 2) throw _();
                     auto &this_proto = packed_proto[i];
                     auto this_dtype = DTYPE(data[anchor++]);
                     auto this_dims = data[anchor++];
-                    if (size - anchor < this_dims) throw _();
+                    if (this_dims < 0 || size - anchor < this_dims) throw _();
                     Shape this_shape(this_dims);
                     for (int j = 0; j < this_dims; ++j) {
                         this_shape[j] = data[anchor++];
-- 
2.43.0


From 38ac0b15970bfa642e9817eafa977ded405583ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:52 +0000
Subject: [PATCH 49/83] fix: a null error message clears the message

---
 src/api/common.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/api/common.cpp b/src/api/common.cpp
index 69ca17c..dd6471e 100644
--- a/src/api/common.cpp
+++ b/src/api/common.cpp
@@ -13,5 +13,5 @@ const char *ts_last_error_message() {
 }
 
 void ts_set_error_message(const char *message) {
-    SetLEM(message);
+    SetLEM(message ? message : "");
 }
-- 
2.43.0


From 0843b248620500b0855495fcf1eeac5ebd7eea9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:36 +0000
Subject: [PATCH 50/83] fix: the module loader refuses input and output indices
 out of range

---
 src/module/loaders/open.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/module/loaders/open.cpp b/src/module/loaders/open.cpp
index d34443e..f5c0709 100644
--- a/src/module/loaders/open.cpp
+++ b/src/module/loaders/open.cpp
@@ -30,9 +30,15 @@ Module::shared open_loader(StreamReaderV2 &stream, const void *buffer, int32_t b
     const auto &nodes = g.nodes();  // TODO: Check if the read nodes is the given nodes
     // x.1 convert inputs and outputs
     std::vector<Node> inputs;
-    for (auto index : input_index) inputs.emplace_back(nodes[index]);
+    for (auto index : input_index) {
+        TS_CHECK(index < nodes.size()) << "Input index " << index << " out of range" << eject;
+        inputs.emplace_back(nodes[index]);
+    }
     std::vector<Node> outputs;
-    for (auto index : output_index) outputs.emplace_back(nodes[index]);
+    for (auto index : output_index) {
+        TS_CHECK(index < nodes.size()) << "Output index " << index << " out of range" << eject;
+        outputs.emplace_back(nodes[index]);
+    }
     Module::shared module = std::make_shared<Module>();
     module->load(g, outputs);
     module->sort_inputs(inputs);
-- 
2.43.0


From f9274f8f5c73ae933e1471041b55de6e0da9a01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:42 +0000
Subject: [PATCH 51/83] fix: gather operators refuse indices out of range and
 leave them unchanged

---
 src/backend/base/base_gather.cpp   | 17 ++++++++++-------
 src/backend/base/base_gatherv2.cpp | 12 +++++++++++-
 2 files changed, 21 insertions(+), 8 deletions(-)

diff --git a/src/backend/base/base_gather.cpp b/src/backend/base/base_gather.cpp
index 907ae82..90ca327 100644
--- a/src/backend/base/base_gather.cpp
+++ b/src/backend/base/base_gather.cpp
@@ -54,25 +54,28 @@ namespace ts {
         int Gather::run(Stack &stack) {
             TS_AUTO_CHECK(stack.size() == 2);
 
-            auto indices =  tensor::cast(INT32, stack[1]);
+            auto indices =  tensor::clone(INT32, stack[1]);
             auto output_proto = infer_gather(stack[0], indices, m_axis);
 
             auto memory_device = running_memory_device();
             auto x = stack[0].view(memory_device);
 
             auto& indices_viewed = indices;
+            auto indices_data = indices_viewed.data<int32_t>();
+            auto positive_axis = m_axis >= 0 ? m_axis : int(x.dims()) + m_axis;
+            auto indices_limit = x.size(positive_axis);
             for (int i = 0; i < indices_viewed.count(); ++i) {
-
-                indices_viewed.data<int32_t>()[i] = indices_viewed.data<int32_t>()[i] < 0 ?
-                                                    indices_viewed.data<int32_t>()[i] + x.size(m_axis) :
-                                                    indices_viewed.data<int32_t>()[i];
+                auto v = indices_data[i];
+                if (v < -indices_limit || v >= indices_limit) {
+                    TS_LOG_ERROR << "Gather index " << v << " is out of range of shape " << to_string(x.sizes())
+                                 << " with axis=" << m_axis << eject;
+                }
+                indices_data[i] = v < 0 ? v + indices_limit : v;
             }
             indices_viewed = indices_viewed.view(memory_device);
 
             auto &out = *stack.push(output_proto, memory_device);
 
-            auto positive_axis = m_axis >= 0 ? m_axis : int(x.dims()) + m_axis;
-
             gather(x, indices_viewed, positive_axis, out);
 
             return 1;
diff --git a/src/backend/base/base_gatherv2.cpp b/src/backend/base/base_gatherv2.cpp
index 7ea6f3b..d1de979 100644
--- a/src/backend/base/base_gatherv2.cpp
+++ b/src/backend/base/base_gatherv2.cpp
@@ -54,10 +54,20 @@ namespace ts {
             auto memory_device = running_memory_device();
             auto x = stack[0].view(memory_device);
 
-            auto indices = tensor::cast(INT32, stack[1]).view(memory_device);
+            auto indices = tensor::cast(INT32, stack[1]);
             TS_AUTO_CHECK(indices.dtype() == INT32);
             auto output_proto = infer_gather(stack[0], indices);
 
+            auto depth = indices.sizes().back();
+            for (int i = 0; i < indices.count(); ++i) {
+                auto v = indices.data<int32_t>()[i];
+                if (v < 0 || v >= x.size(i % depth)) {
+                    TS_LOG_ERROR << "Gather coordinate " << v << " is out of range of shape "
+                                 << to_string(x.sizes()) << eject;
+                }
+            }
+            indices = indices.view(memory_device);
+
             auto &out = *stack.push(output_proto, memory_device);
 
             gather(x, indices, out);
-- 
2.43.0


From 2a3faa8469cfe8366b71cc756cc683be9eaabd20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:42 +0000
Subject: [PATCH 52/83] fix: gather_elements takes every element the indices
 name

---
 src/backend/base/base_gather_elements.cpp | 20 +++++--
 src/kernels/cpu/gather_elements.cpp       | 73 ++++++++---------------
 2 files changed, 41 insertions(+), 52 deletions(-)

diff --git a/src/backend/base/base_gather_elements.cpp b/src/backend/base/base_gather_elements.cpp
index 1dc0c3b..e50d98c 100644
--- a/src/backend/base/base_gather_elements.cpp
+++ b/src/backend/base/base_gather_elements.cpp
@@ -24,6 +24,15 @@ namespace ts {
             TS_AUTO_CHECK(x.dims() >= 1);
             TS_AUTO_CHECK(axis >= -dims && axis < dims);
 
+            if (axis < 0) axis += dims;
+            // indices may leave out the gathered axis, picking one element along it
+            auto indices_shape = indices.sizes();
+            if (int(indices_shape.size()) == dims - 1) indices_shape.insert(indices_shape.begin() + axis, 1);
+            TS_AUTO_CHECK(int(indices_shape.size()) == dims);
+            for (int i = 0; i < dims; ++i) {
+                TS_AUTO_CHECK(i == axis || indices_shape[i] <= x.size(i));
+            }
+
             return Tensor::Prototype(x.dtype(), indices.sizes());
         }
 
@@ -42,7 +51,7 @@ namespace ts {
         int GatherElements::run(Stack &stack) {
             TS_AUTO_CHECK(stack.size() == 2);
 
-            auto indices =  tensor::cast(INT32, stack[1]);
+            auto indices =  tensor::clone(INT32, stack[1]);
             auto output_proto = infer_gather(stack[0], indices, m_axis);
 
             auto memory_device = running_memory_device();
@@ -51,17 +60,20 @@ namespace ts {
             auto& indices_viewed = indices;
             auto N = indices_viewed.count();
             auto indices_data = indices_viewed.data<int32_t>();
-            auto indices_limit = x.size(m_axis);
+            auto positive_axis = m_axis >= 0 ? m_axis : int(x.dims()) + m_axis;
+            auto indices_limit = x.size(positive_axis);
             for (int i = 0; i < N; ++i) {
                 auto v = indices_data[i];
+                if (v < -indices_limit || v >= indices_limit) {
+                    TS_LOG_ERROR << "Gather index " << v << " is out of range of shape " << to_string(x.sizes())
+                                 << " with axis=" << m_axis << eject;
+                }
                 indices_data[i] = v < 0 ? v + indices_limit : v;
             }
             indices_viewed = indices_viewed.view(memory_device);
 
             auto &out = *stack.push(output_proto, memory_device);
 
-            auto positive_axis = m_axis >= 0 ? m_axis : int(x.dims()) + m_axis;
-
             gather(x, indices_viewed, positive_axis, out);
 
             return 1;
diff --git a/src/kernels/cpu/gather_elements.cpp b/src/kernels/cpu/gather_elements.cpp
index a15584b..7c50bd3 100644
--- a/src/kernels/cpu/gather_elements.cpp
+++ b/src/kernels/cpu/gather_elements.cpp
@@ -20,37 +20,28 @@ namespace ts {
             void gather_cpu(const Tensor &x, const Tensor &indices, int axis, Tensor &out);
         };
 
+        // the shape of out, with the gathered axis put back if it was left out
+        static Shape aligned_shape(const Tensor &out, int axis, const Tensor &x) {
+            auto shape = out.sizes();
+            if (shape.size() < x.sizes().size()) shape.insert(shape.begin() + axis, 1);
+            return shape;
+        }
+
         template <typename T>
         void compute_run(const Tensor &x, const Tensor &indices, int axis, Tensor &out) {
-            auto &x_shape = x.sizes();
-            auto number = std::accumulate(x_shape.begin(), x_shape.begin() + axis, 1,
-                                          std::multiplies<int>());
-            auto width = std::accumulate(x_shape.begin() + axis + 1, x_shape.end(), 1,
-                                         std::multiplies<int>());
-
-            HypeShape norm_x_shape({number, x_shape[axis], width});
-            HypeShape norm_out_shape({number, width});
+            HypeShape x_hype(x.sizes());
+            ShapeIterator out_it(aligned_shape(out, axis, x));
 
             auto x_data = x.data<T>();
             auto out_data = out.data<T>();
             auto indices_data = indices.data<int32_t>();
 
-            std::vector<int> norm_x_coord = {0, 0, 0};
-            std::vector<int> norm_out_coord {0, 0};
-
-            for (int n = 0; n < number; ++n) {
-                norm_out_coord[0] = n;
-                norm_x_coord[0] = n;
-                for (int i = 0; i < width; ++i) {
-                    norm_out_coord[1] = i;
-                    norm_x_coord[2] = i;
-
-                    auto out_index = norm_out_shape.to_index(norm_out_coord);
-                    norm_x_coord[1] = indices_data[out_index];
-                    auto x_index = norm_x_shape.to_index(norm_x_coord);
-
-                    out_data[out_index] = x_data[x_index];
-                }
+            auto count = out.count();
+            for (int i = 0; i < count; ++i) {
+                auto x_coord = out_it.coordinate();
+                x_coord[axis] = indices_data[i];
+                out_data[i] = x_data[x_hype.to_index(x_coord)];
+                ++out_it;
             }
         }
 
@@ -86,12 +77,8 @@ namespace ts {
             TS_AUTO_CHECK(memcpy_handler != nullptr);
             auto device_id = out.device().id();
 
-            auto &x_shape = x.sizes();
-            auto number = std::accumulate(x_shape.begin(), x_shape.begin() + axis, 1, std::multiplies<int>());
-            auto width = std::accumulate(x_shape.begin() + axis + 1, x_shape.end(), 1, std::multiplies<int>());
-
-            HypeShape norm_x_shape({number, x_shape[axis], width});
-            HypeShape norm_out_shape({number, width});
+            HypeShape x_hype(x.sizes());
+            ShapeIterator out_it(aligned_shape(out, axis, x));
 
             auto bytes = x.proto().type_bytes();
 
@@ -99,24 +86,14 @@ namespace ts {
             auto out_data = out.data<char>();
             auto indices_data = indices.data<int32_t>();
 
-            std::vector<int> norm_x_coord = {0, 0, 0};
-            std::vector<int> norm_out_coord {0, 0};
-
-            for (int n = 0; n < number; ++n) {
-                norm_out_coord[0] = n;
-                norm_x_coord[0] = n;
-                for (int i = 0; i < width; ++i) {
-                    norm_out_coord[1] = i;
-                    norm_x_coord[2] = i;
-
-                    auto out_index = norm_out_shape.to_index(norm_out_coord);
-                    norm_x_coord[1] = indices_data[out_index];
-                    auto x_index = norm_x_shape.to_index(norm_x_coord);
-
-                    auto src_ptr = x_data + x_index * bytes;
-                    auto dst_ptr = out_data + out_index * bytes;
-                    memcpy_handler(device_id, dst_ptr, device_id, src_ptr, size_t(bytes));
-                }
+            auto count = out.count();
+            for (int i = 0; i < count; ++i) {
+                auto x_coord = out_it.coordinate();
+                x_coord[axis] = indices_data[i];
+                auto src_ptr = x_data + x_hype.to_index(x_coord) * bytes;
+                auto dst_ptr = out_data + i * bytes;
+                memcpy_handler(device_id, dst_ptr, device_id, src_ptr, size_t(bytes));
+                ++out_it;
             }
         }
     }
-- 
2.43.0


From cfd6591882c39556c64d0bd6522bee5670a3401b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:42 +0000
Subject: [PATCH 53/83] fix: scatter_nd refuses indices and updates that do not
 fit

---
 src/backend/base/base_scatter_nd.cpp | 10 ++++++++++
 src/kernels/cpu/scatter_nd.cpp       |  2 ++
 2 files changed, 12 insertions(+)

diff --git a/src/backend/base/base_scatter_nd.cpp b/src/backend/base/base_scatter_nd.cpp
index e9a82ba..ad66cac 100644
--- a/src/backend/base/base_scatter_nd.cpp
+++ b/src/backend/base/base_scatter_nd.cpp
@@ -3,7 +3,17 @@
 namespace ts {
     namespace base {
         int ScatterND::infer(Stack &stack, std::vector<Tensor::Prototype> &output) {
+            TS_AUTO_CHECK(stack.size() == 3);
+
             auto &data = stack[0];
+            auto &indices = stack[1];
+            auto &updates = stack[2];
+
+            // every index names a row of data, which is replaced by a row of updates
+            TS_AUTO_CHECK(data.dims() >= 1 && indices.dims() >= 1 && updates.dims() >= 1);
+            TS_AUTO_CHECK(indices.count() == indices.size(0) && indices.size(0) == updates.size(0));
+            TS_AUTO_CHECK(int64_t(updates.count()) * data.size(0) == int64_t(data.count()) * updates.size(0));
+
             output.resize(1);
             output[0] = Tensor::Prototype(data.dtype(), data.sizes());
             return 1;
diff --git a/src/kernels/cpu/scatter_nd.cpp b/src/kernels/cpu/scatter_nd.cpp
index 5dad31a..13869ef 100644
--- a/src/kernels/cpu/scatter_nd.cpp
+++ b/src/kernels/cpu/scatter_nd.cpp
@@ -16,6 +16,8 @@ namespace ts {
                 int offset = updates.slice(i).count();
                 auto block = offset * bytes;
                 int out_idx = indices.data<int>(i);
+                TS_CHECK(out_idx >= 0 && out_idx < data.size(0))
+                    << "Index " << out_idx << " is out of range of shape " << to_string(data.sizes()) << eject;
                 std::memcpy(out.data<uint8_t>() + out_idx * block,
                             updates.data<uint8_t>() + i * block, block);
             }
-- 
2.43.0


From f292e9fcc7d9c4afce2fe0571f6e0b427f61b40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:42 +0000
Subject: [PATCH 54/83] fix: range counts down, and refuses a zero step

---
 src/kernels/cpu/range.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/kernels/cpu/range.cpp b/src/kernels/cpu/range.cpp
index b791f4f..b579539 100644
--- a/src/kernels/cpu/range.cpp
+++ b/src/kernels/cpu/range.cpp
@@ -21,9 +21,16 @@ namespace ts {
             T limit = limit_tensor.data<T>()[0];
             T delta = delta_tensor.data<T>()[0];
 
+            if (delta == 0) {
+                TS_LOG_ERROR << "Range delta must not be zero" << eject;
+            }
+
+            const bool up = delta > 0;
+            if (up ? start >= limit : start <= limit) return 0;
+
             steps = int((limit - start) / delta);
-           
-            if(steps * delta + start  < limit)  {
+
+            if (up ? steps * delta + start < limit : steps * delta + start > limit) {
                 steps++;
             }
             return steps;
-- 
2.43.0


From 9f7181cb89de69321cbe6c5f25df488e5658e25e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:42 +0000
Subject: [PATCH 55/83] fix: where broadcasts empty dimensions

---
 src/backend/base/base_where.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/backend/base/base_where.cpp b/src/backend/base/base_where.cpp
index 493c7a5..129ecfb 100644
--- a/src/backend/base/base_where.cpp
+++ b/src/backend/base/base_where.cpp
@@ -58,7 +58,7 @@ namespace ts {
                                      << to_string(_rhs_shape) << eject;
                     }
                     do_broadcast = true;
-                    size = std::max((std::max(cond_shape[i], lhs_shape[i])), rhs_shape[i]);
+                    size = cond_shape[i] != 1 ? cond_shape[i] : lhs_shape[i] != 1 ? lhs_shape[i] : rhs_shape[i];
                 }
                 out_shape[i] = size;
             }
-- 
2.43.0


From 68c32f923d7cc8a9141555b1e7162a21f3d6eaaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:42 +0000
Subject: [PATCH 56/83] fix: non_max_suppression_v3 checks its inputs before it
 runs

---
 src/backend/base/base_non_max_suppression_v3.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/backend/base/base_non_max_suppression_v3.cpp b/src/backend/base/base_non_max_suppression_v3.cpp
index 6d3d290..3e0560e 100644
--- a/src/backend/base/base_non_max_suppression_v3.cpp
+++ b/src/backend/base/base_non_max_suppression_v3.cpp
@@ -43,6 +43,7 @@ namespace ts {
             TS_AUTO_CHECK(score_shape[0] == x_shape[0]);
 
             TS_AUTO_CHECK(x.dtype() == FLOAT32);
+            TS_AUTO_CHECK(score.dtype() == FLOAT32);
 
             Shape shape;
             shape.resize(1);
@@ -60,12 +61,9 @@ namespace ts {
             auto box = stack[0].view(memory_device);
             auto scores = stack[1].view(memory_device);
 
-            Shape shape;
-            shape.resize(1);
-            shape[0] = m_max_output_size;
-
-            auto output_proto = Tensor::Prototype(INT32, shape);
-            auto &out = *stack.push(output_proto, memory_device);
+            std::vector<Tensor::Prototype> output;
+            infer(stack, output);
+            auto &out = *stack.push(output[0], memory_device);
             non_max_suppression_v3(box, scores, out);
 
             return 1;
-- 
2.43.0


From d5155da8a60ac3ac88cc2566b4afb8a60d181778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:42 +0000
Subject: [PATCH 57/83] fix: constant_of_shape refuses negative sizes

---
 src/kernels/cpu/constant_of_shape.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/kernels/cpu/constant_of_shape.cpp b/src/kernels/cpu/constant_of_shape.cpp
index 3ddbb25..be40974 100644
--- a/src/kernels/cpu/constant_of_shape.cpp
+++ b/src/kernels/cpu/constant_of_shape.cpp
@@ -23,6 +23,7 @@ namespace ts {
 
             auto x = stack[0];
             auto shape = tensor::array::to_int(x);
+            for (auto size : shape) TS_AUTO_CHECK(size >= 0);
 
             output.resize(1);
             output[0] = Tensor::Prototype(m_tensor.dtype(), shape);
-- 
2.43.0


From 3ae56dcadf6ab2fe244f84ab6bd8aaf7a0b4822c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:45 +0000
Subject: [PATCH 58/83] fix: pad crops any dimension and pads past the input
 correctly

---
 src/backend/base/base_pad.cpp       |  4 ++-
 src/kernels/cpu/pad2d_algorithm.cpp | 51 ++++++++++++-----------------
 2 files changed, 24 insertions(+), 31 deletions(-)

diff --git a/src/backend/base/base_pad.cpp b/src/backend/base/base_pad.cpp
index 2bdd287..df955cf 100644
--- a/src/backend/base/base_pad.cpp
+++ b/src/backend/base/base_pad.cpp
@@ -34,7 +34,9 @@ namespace ts {
             Shape output_shape = x.sizes();
 
             for (size_t i = 0; i < output_shape.size(); ++i) {
-                output_shape[i] += (padding.data<int32_t>(i * 2) + padding.data<int32_t>(i * 2 + 1));
+                auto pad = padding.data<int32_t>(i * 2) + padding.data<int32_t>(i * 2 + 1);
+                if (pad == 0) continue;
+                output_shape[i] += pad;
                 if (output_shape[i] < 1) output_shape[i] = 1;
             }
 
diff --git a/src/kernels/cpu/pad2d_algorithm.cpp b/src/kernels/cpu/pad2d_algorithm.cpp
index ae646ed..a38e89b 100644
--- a/src/kernels/cpu/pad2d_algorithm.cpp
+++ b/src/kernels/cpu/pad2d_algorithm.cpp
@@ -3,6 +3,7 @@
 #include <kernels/common/openmp.h>
 #endif
 #include <array>
+#include <algorithm>
 
 namespace ts{
     namespace cpu{
@@ -17,7 +18,6 @@ namespace ts{
             T* out_ptr = out.data<T>();
 
             auto input_shape = x.sizes();
-            int num = input_shape[0];
             int input_dim1 = input_shape[1];
             int input_dim2 = input_shape[2];
             int input_tile = input_shape[3];
@@ -32,42 +32,33 @@ namespace ts{
             int out_dim1_offset = out_dim2 * out_tile;
             int out_num_offset = out_dim1 * out_dim1_offset;
 
-            int dim1 = padding[1][0] < 0 ? input_dim1 + padding[1][0] : input_dim1;
-            dim1 = padding[1][1] < 0 ? dim1 + padding[1][1] : dim1;
-            int dim2 = padding[2][0] < 0 ? input_dim2 + padding[2][0] : input_dim2;
-            dim2 = padding[2][1] < 0 ? dim2 + padding[2][1] : dim2;
-            int tile = padding[3][0] < 0 ? input_tile + padding[3][0] : input_tile;
-            tile = padding[3][1] < 0 ? tile + padding[3][1] : tile;
-
-            std::array<int,4> input_padding;
-            std::array<int,4> output_padding;
-
-            input_padding[0] = padding[0][0] >= 0 ? 0 : -padding[0][0];
-            input_padding[1] = padding[1][0] >= 0 ? 0 : -padding[1][0];
-            input_padding[2] = padding[2][0] >= 0 ? 0 : -padding[2][0];
-            input_padding[3] = padding[3][0] >= 0 ? 0 : -padding[3][0];
-            output_padding[0] = padding[0][0] < 0 ? 0 : padding[0][0];
-            output_padding[1] = padding[1][0] < 0 ? 0 : padding[1][0];
-            output_padding[2] = padding[2][0] < 0 ? 0 : padding[2][0];
-            output_padding[3] = padding[3][0] < 0 ? 0 : padding[3][0];
+            // the part of each dimension where the output shows the input
+            std::array<int, 4> begin, end;
+            for (int i = 0; i < 4; ++i) {
+                begin[i] = std::max(padding[i][0], 0);
+                end[i] = std::min(padding[i][0] + input_shape[i], output_shape[i]);
+            }
+            const int tile = end[3] - begin[3];
 
             T value = T(padding_value);
             std::fill(out_ptr, out_ptr + out.count(), value);
 
-            for (int n = 0; n < num; ++n) {
+            if (tile <= 0) return;
+
+            for (int n = begin[0]; n < end[0]; ++n) {
 #ifdef TS_USE_OPENMP
 #pragma omp parallel for num_threads(openmp_threads())
 #endif
-                for (int i = 0; i < dim1; ++i) {
-                    for (int j = 0; j < dim2; ++j) {
-                        const int input_offset = (n + input_padding[0]) * in_num_offset
-                                                 + (i + input_padding[1]) * input_dim1_offset
-                                                 + (j + input_padding[2]) * input_tile
-                                                 + input_padding[3];
-                        const int output_offset = (n + output_padding[0]) * out_num_offset
-                                                  + (i + output_padding[1]) * out_dim1_offset
-                                                  + (j + output_padding[2]) * out_tile
-                                                  + output_padding[3];
+                for (int i = begin[1]; i < end[1]; ++i) {
+                    for (int j = begin[2]; j < end[2]; ++j) {
+                        const int input_offset = (n - padding[0][0]) * in_num_offset
+                                                 + (i - padding[1][0]) * input_dim1_offset
+                                                 + (j - padding[2][0]) * input_tile
+                                                 + begin[3] - padding[3][0];
+                        const int output_offset = n * out_num_offset
+                                                  + i * out_dim1_offset
+                                                  + j * out_tile
+                                                  + begin[3];
                         if(tile < 12){
                             T* out_at = out_ptr + output_offset;
                             const T* input_at = input_ptr + input_offset;
-- 
2.43.0


From 558b36573fa40767c71b01bd32a5a4ffd852fb9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:32 +0000
Subject: [PATCH 59/83] fix: crop_nd infers the size it crops to

---
 src/backend/zoo/crop_nd.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/backend/zoo/crop_nd.cpp b/src/backend/zoo/crop_nd.cpp
index fbafb5d..0f522e9 100644
--- a/src/backend/zoo/crop_nd.cpp
+++ b/src/backend/zoo/crop_nd.cpp
@@ -47,6 +47,13 @@ namespace ts {
             auto &size = stack[1];
             auto shape = tensor::array::to_int(size);
 
+            TS_AUTO_CHECK((m_shift.empty() || m_shift.size() == x.dims()) && shape.size() == x.dims());
+
+            // not positive size means keep the size
+            for (size_t i = 0; i < shape.size(); ++i) {
+                if (shape[i] <= 0) shape[i] = x.size(i);
+            }
+
             output.resize(1);
             output[0] = Tensor::Prototype(x.dtype(), shape);
 
-- 
2.43.0


From e03741af39e280135190b7a9f5c52cbad841704d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:32 +0000
Subject: [PATCH 60/83] fix: crop_to keeps its axis between runs, and infers
 only what it runs

---
 src/kernels/cpu/crop_to.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/kernels/cpu/crop_to.cpp b/src/kernels/cpu/crop_to.cpp
index 7d1a6e3..b043e4e 100644
--- a/src/kernels/cpu/crop_to.cpp
+++ b/src/kernels/cpu/crop_to.cpp
@@ -69,7 +69,7 @@ namespace ts {
 
             TS_AUTO_CHECK(x.dims() == y.dims());
 
-            auto axis = m_axis >= 0 ? m_axis : m_axis += x.dims();
+            auto axis = m_axis >= 0 ? m_axis : m_axis + x.dims();
 
             if (axis < 0 || axis >= x.dims()) {
                 TS_LOG_ERROR << "Crop axis must in [-"
@@ -77,6 +77,8 @@ namespace ts {
                              << x.dims() << ")" << eject;
             }
 
+            TS_AUTO_CHECK(m_offset.empty() || m_offset.size() == x.dims() - axis);
+
             auto shape = x.sizes();
             for (int i = axis; i < x.dims(); ++i) {
                 shape[i] = y.size(i);
@@ -98,7 +100,7 @@ namespace ts {
 
             TS_AUTO_CHECK(x.dims() == y.dims());
 
-            auto axis = m_axis >= 0 ? m_axis : m_axis += x.dims();
+            auto axis = m_axis >= 0 ? m_axis : m_axis + x.dims();
 
             if (axis < 0 || axis >= x.dims()) {
                 TS_LOG_ERROR << "Stack axis must in [-"
-- 
2.43.0


From 702c94b6d1a85fd44f2861059c91755a49c48686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:32 +0000
Subject: [PATCH 61/83] fix: divided refuses sizes below one and divides
 exactly

---
 src/backend/zoo/divided.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/backend/zoo/divided.cpp b/src/backend/zoo/divided.cpp
index 9c08527..e186327 100644
--- a/src/backend/zoo/divided.cpp
+++ b/src/backend/zoo/divided.cpp
@@ -33,6 +33,7 @@ namespace ts {
             m_size.resize(count);
             for (int i = 0; i < count; ++i) {
                 m_size[i] = size_data[i];
+                TS_AUTO_CHECK(m_size[i] > 0);
             }
 
             auto &context = ctx::ref<DeviceContext>();
@@ -60,7 +61,7 @@ namespace ts {
             while (size_it != size.rend()) {
                 auto stride = *size_it;
                 auto &y = *x_it;
-                y = stride == 1 ? y : int(std::ceil(float(y) / stride)) * stride;
+                y = stride == 1 ? y : (y / stride + (y % stride ? 1 : 0)) * stride;
 
                 ++x_it;
                 ++size_it;
-- 
2.43.0


From 36e52c385cd58123ca7397a1099af517a4fc3f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:32 +0000
Subject: [PATCH 62/83] fix: space and batch blocking refuse negative padding
 and crops past the image

---
 src/backend/base/base_batchtospace4d.cpp | 2 ++
 src/backend/base/base_spacetobatch4d.cpp | 1 +
 2 files changed, 3 insertions(+)

diff --git a/src/backend/base/base_batchtospace4d.cpp b/src/backend/base/base_batchtospace4d.cpp
index df885e9..0971317 100644
--- a/src/backend/base/base_batchtospace4d.cpp
+++ b/src/backend/base/base_batchtospace4d.cpp
@@ -41,6 +41,7 @@ namespace ts {
 
             for(size_t i=0; i<4; i++) {
                 m_crop[i] = crop_tensor.data<int32_t>(i);
+                TS_AUTO_CHECK(m_crop[i] >= 0);
             }
 
             m_block_shape[0] = block_shape_tensor.data<int32_t>(0);
@@ -59,6 +60,7 @@ namespace ts {
             Shape output_shape;
             output_shape.resize(4);
             CaculateOutputSize(input_shape, output_shape,m_block_shape[0],m_block_shape[1],m_crop[0],m_crop[1],m_crop[2],m_crop[3]);
+            TS_AUTO_CHECK((output_shape[2] >= 0) && (output_shape[3] >= 0));
 
             output.resize(1);
             output[0] = Tensor::Prototype(x.dtype(), output_shape);
diff --git a/src/backend/base/base_spacetobatch4d.cpp b/src/backend/base/base_spacetobatch4d.cpp
index 19bbcc7..4cd43a8 100644
--- a/src/backend/base/base_spacetobatch4d.cpp
+++ b/src/backend/base/base_spacetobatch4d.cpp
@@ -40,6 +40,7 @@ namespace ts {
 
             for(size_t i=0; i<4; i++) {
                 m_padding[i] = padding_tensor.data<int32_t>(i);
+                TS_AUTO_CHECK(m_padding[i] >= 0);
             }
 
             m_block_shape[0] = block_shape_tensor.data<int32_t>(0);
-- 
2.43.0


From 8e068d0c412258982888f67ca7a8753c60903bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:32 +0000
Subject: [PATCH 63/83] fix: broadcast of empty dimensions is empty

---
 src/backend/base/base_broadcast_v2.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/backend/base/base_broadcast_v2.cpp b/src/backend/base/base_broadcast_v2.cpp
index cb7adf2..907b94f 100644
--- a/src/backend/base/base_broadcast_v2.cpp
+++ b/src/backend/base/base_broadcast_v2.cpp
@@ -50,7 +50,7 @@ namespace ts {
                 if (x_shape[i] != 1 && y_shape[i] != 1 && x_shape[i] != y_shape[i]) {
                     z_shape.push_back(1);
                 } else {
-                    z_shape.push_back(std::max(x_shape[i], y_shape[i]));
+                    z_shape.push_back(x_shape[i] == 0 || y_shape[i] == 0 ? 0 : std::max(x_shape[i], y_shape[i]));
                 }
             }
 
@@ -192,7 +192,7 @@ namespace ts {
                 if (x[i] != y[i] && x[i] != 1 && y[i] != 1) {
                     TS_LOG_ERROR << "Can not broadcast " << to_string(x) << " to " << to_string(shape) << eject;
                 }
-                output.push_back(std::max(x[i], y[i]));
+                output.push_back(x[i] == 0 || y[i] == 0 ? 0 : std::max(x[i], y[i]));
             }
             return true;
         }
-- 
2.43.0


From cd0b73df911941eccc07eda9f9407cde87d1e0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:04 +0000
Subject: [PATCH 64/83] fix: reshape refuses an open size next to empty
 dimensions

---
 src/backend/base/base_reshape.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/backend/base/base_reshape.cpp b/src/backend/base/base_reshape.cpp
index b01f186..9f7286f 100644
--- a/src/backend/base/base_reshape.cpp
+++ b/src/backend/base/base_reshape.cpp
@@ -61,6 +61,9 @@ namespace ts {
 
             if (m_broadcast_dim >= 0) {
                 running_count *= m_count_without_dim;
+                if (running_count == 0) {
+                    TS_LOG_ERROR << "Can not reshape " << to_string(x.sizes()) << " to " << to_string(m_shape) << eject;
+                }
                 shape[m_broadcast_dim] = x_count / running_count;
                 if (shape[m_broadcast_dim] * running_count != x_count) {
                     TS_LOG_ERROR << "Can not reshape " << to_string(x.sizes()) << " to " << to_string(m_shape) << eject;
-- 
2.43.0


From 9b218ac6f7c8d2517e9e7f44ad7f93124b7eac51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:04 +0000
Subject: [PATCH 65/83] fix: flatten refuses dimensions before the first

---
 src/backend/base/base_flatten.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/backend/base/base_flatten.cpp b/src/backend/base/base_flatten.cpp
index a06c69f..2b0c747 100644
--- a/src/backend/base/base_flatten.cpp
+++ b/src/backend/base/base_flatten.cpp
@@ -23,6 +23,11 @@ namespace ts {
         Shape Flatten::newshape(const Tensor &x) {
             auto fixed_dim = m_dim;
             if (fixed_dim < 0) fixed_dim += int(x.dims());
+
+            if (fixed_dim < -1 || (fixed_dim < 0 && x.dims() > 0)) {
+                TS_LOG_ERROR << "Can not flatten shape " << to_string(x.sizes())
+                             << " with dim=" << m_dim << eject;
+            }
             auto need_size = size_t(fixed_dim + 1);
             auto x_size = x.sizes().size();
             if (need_size < x_size) {
-- 
2.43.0


From 41472dfc4dad585db0e7bdf423a56f5969ebd717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:04 +0000
Subject: [PATCH 66/83] fix: unsqueeze accepts the first place counted from the
 end

---
 src/backend/base/base_unsqueeze.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/backend/base/base_unsqueeze.cpp b/src/backend/base/base_unsqueeze.cpp
index ede2ee7..c85a489 100644
--- a/src/backend/base/base_unsqueeze.cpp
+++ b/src/backend/base/base_unsqueeze.cpp
@@ -34,7 +34,7 @@ namespace ts {
 
             for (auto axis : m_axes) {
                 auto max_axis = int32_t(shape.size());
-                if (axis > max_axis || axis < -max_axis) {
+                if (axis > max_axis || axis < -max_axis - 1) {
                     TS_LOG_ERROR << op() << " do not support unsqueeze shape=" << to_string(x.sizes())
                                  << " with axes=" << to_string(m_axes) << eject;
                 }
-- 
2.43.0


From 14f9fbbd04cf95e6136edcb7f1fe7380a94abb35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:04 +0000
Subject: [PATCH 67/83] fix: expand returns tensors that already have enough
 dimensions

---
 src/kernels/cpu/expand.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/kernels/cpu/expand.cpp b/src/kernels/cpu/expand.cpp
index 532f87e..4d4f045 100644
--- a/src/kernels/cpu/expand.cpp
+++ b/src/kernels/cpu/expand.cpp
@@ -69,8 +69,7 @@ namespace ts {
 
             // return true, if satisfied
             bool expand(Shape &shape, size_t dims) {
-                if (shape.size() > dims) return false;
-                if (shape.size() == dims) return true;
+                if (shape.size() >= dims) return true;
                 if (m_front > 0 && m_end > 0 && (shape.size() + size_t(m_front) + size_t(m_end)) < dims) {
                     return false;
                 }
-- 
2.43.0


From b5460314ca4d21fa66561f2c0965527f401fc12a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:04 +0000
Subject: [PATCH 68/83] fix: squeeze counts every axis in its input

---
 src/kernels/cpu/squeeze.cpp | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/kernels/cpu/squeeze.cpp b/src/kernels/cpu/squeeze.cpp
index a9a8bc1..402af9c 100644
--- a/src/kernels/cpu/squeeze.cpp
+++ b/src/kernels/cpu/squeeze.cpp
@@ -35,20 +35,19 @@ namespace ts {
                         }
                     }
                 } else {
-                    for (auto axis_it = m_axes.rbegin(); axis_it != m_axes.rend(); ++axis_it) {
-                        auto axis = *axis_it;
-                        auto max_axis = int(shape.size());
+                    // every axis counts in the input, so mark them before erasing
+                    auto max_axis = int(shape.size());
+                    std::vector<bool> squeezed(shape.size(), false);
+                    for (auto axis : m_axes) {
                         axis = axis >= 0 ? axis : (max_axis + axis);
-                        if (axis < 0 || axis >= max_axis) {
+                        if (axis < 0 || axis >= max_axis || shape[axis] != 1 || squeezed[axis]) {
                             TS_LOG_ERROR << "Can not squeeze shape " << to_string(x.sizes())
                                          << " with axes=" << to_string(m_axes) << eject;
                         }
-                        auto it = shape.begin() + axis;
-                        if (*it != 1) {
-                            TS_LOG_ERROR << "Can not squeeze shape " << to_string(x.sizes())
-                                         << " with axes=" << to_string(m_axes) << eject;
-                        }
-                        shape.erase(it);
+                        squeezed[axis] = true;
+                    }
+                    for (int axis = max_axis - 1; axis >= 0; --axis) {
+                        if (squeezed[axis]) shape.erase(shape.begin() + axis);
                     }
                 }
                 return std::move(shape);
-- 
2.43.0


From 394a19728ccb5a03f6be0f8f029203ab9d756d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:17 +0000
Subject: [PATCH 69/83] fix: linear resize and affine sampling read inside
 sources of one row or column

---
 src/kernels/cpu/affine_sample2d.cpp | 12 +++++++-----
 src/kernels/cpu/resize2d.cpp        | 13 ++++++++-----
 2 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/kernels/cpu/affine_sample2d.cpp b/src/kernels/cpu/affine_sample2d.cpp
index 5987558..0793ccd 100644
--- a/src/kernels/cpu/affine_sample2d.cpp
+++ b/src/kernels/cpu/affine_sample2d.cpp
@@ -82,13 +82,15 @@ namespace ts {
                         continue;
                     }
 
-                    lf_x_s = lf_x_s >= 0 ? lf_x_s : 0;
                     lf_x_s = lf_x_s < src_width - 1 ? lf_x_s : src_width - 1 - 1e-5;
-                    lf_y_s = lf_y_s >= 0 ? lf_y_s : 0;
+                    lf_x_s = lf_x_s >= 0 ? lf_x_s : 0;
                     lf_y_s = lf_y_s < src_height - 1 ? lf_y_s : src_height - 1 - 1e-5;
+                    lf_y_s = lf_y_s >= 0 ? lf_y_s : 0;
 
                     int n_x_s = int(lf_x_s);
                     int n_y_s = int(lf_y_s);
+                    int n_x_t = std::min(n_x_s + 1, src_width - 1);
+                    int n_y_t = std::min(n_y_s + 1, src_height - 1);
 
                     double lf_weight_x = lf_x_s - n_x_s;
                     double lf_weight_y = lf_y_s - n_y_s;
@@ -98,11 +100,11 @@ namespace ts {
                                 ((1 - lf_weight_y) * (1 - lf_weight_x) *
                                  src_im[(n_y_s * src_width + n_x_s) * channels + c] +
                                  (1 - lf_weight_y) * lf_weight_x *
-                                 src_im[(n_y_s * src_width + n_x_s + 1) * channels + c] +
+                                 src_im[(n_y_s * src_width + n_x_t) * channels + c] +
                                  lf_weight_y * (1 - lf_weight_x) *
-                                 src_im[((n_y_s + 1) * src_width + n_x_s) * channels + c] +
+                                 src_im[(n_y_t * src_width + n_x_s) * channels + c] +
                                  lf_weight_y * lf_weight_x *
-                                 src_im[((n_y_s + 1) * src_width + n_x_s + 1) * channels + c]));
+                                 src_im[(n_y_t * src_width + n_x_t) * channels + c]));
 
                     } //end for c
                 }
diff --git a/src/kernels/cpu/resize2d.cpp b/src/kernels/cpu/resize2d.cpp
index cd72e6f..185cbb9 100644
--- a/src/kernels/cpu/resize2d.cpp
+++ b/src/kernels/cpu/resize2d.cpp
@@ -1,6 +1,7 @@
 #include <kernels/cpu/resize2d.h>
 #include <core/tensor_builder.h>
 #include <memory>
+#include <algorithm>
 #include <global/operator_factory.h>
 #include <backend/name.h>
 #include <core/device.h>
@@ -34,13 +35,15 @@ namespace ts {
                     double lf_x_s = lfx_scl * n_x_d + bias_x;
                     double lf_y_s = lfy_scl * n_y_d + bias_y;
 
-                    lf_x_s = lf_x_s >= 0 ? lf_x_s : 0;
                     lf_x_s = lf_x_s < src_width - 1 ? lf_x_s : src_width - 1 - 1e-5;
-                    lf_y_s = lf_y_s >= 0 ? lf_y_s : 0;
+                    lf_x_s = lf_x_s >= 0 ? lf_x_s : 0;
                     lf_y_s = lf_y_s < src_height - 1 ? lf_y_s : src_height - 1 - 1e-5;
+                    lf_y_s = lf_y_s >= 0 ? lf_y_s : 0;
 
                     int n_x_s = int(lf_x_s);
                     int n_y_s = int(lf_y_s);
+                    int n_x_t = std::min(n_x_s + 1, src_width - 1);
+                    int n_y_t = std::min(n_y_s + 1, src_height - 1);
 
                     double lf_weight_x = lf_x_s - n_x_s;
                     double lf_weight_y = lf_y_s - n_y_s;
@@ -50,11 +53,11 @@ namespace ts {
                                 (T) ((1 - lf_weight_y) * (1 - lf_weight_x) *
                                      src_im[(n_y_s * src_width + n_x_s) * channels + c] +
                                      (1 - lf_weight_y) * lf_weight_x *
-                                     src_im[(n_y_s * src_width + n_x_s + 1) * channels + c] +
+                                     src_im[(n_y_s * src_width + n_x_t) * channels + c] +
                                      lf_weight_y * (1 - lf_weight_x) *
-                                     src_im[((n_y_s + 1) * src_width + n_x_s) * channels + c] +
+                                     src_im[(n_y_t * src_width + n_x_s) * channels + c] +
                                      lf_weight_y * lf_weight_x *
-                                     src_im[((n_y_s + 1) * src_width + n_x_s + 1) * channels + c]);
+                                     src_im[(n_y_t * src_width + n_x_t) * channels + c]);
 
                     }//end for c
                 }
-- 
2.43.0


From c1281ec7e08ea24b40d23174077527664419a54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:17 +0000
Subject: [PATCH 70/83] fix: resize and affine sampling refuse empty sources
 and negative sizes

---
 src/backend/base/base_affine_sample2d.cpp | 3 +++
 src/backend/base/base_resize2d.cpp        | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/src/backend/base/base_affine_sample2d.cpp b/src/backend/base/base_affine_sample2d.cpp
index 83b8d91..cebae7a 100644
--- a/src/backend/base/base_affine_sample2d.cpp
+++ b/src/backend/base/base_affine_sample2d.cpp
@@ -65,6 +65,9 @@ namespace ts {
            
             const int32_t * pdata = size_tensor.data<int32_t>(); 
 
+            TS_AUTO_CHECK(pdata[0] >= 0 && pdata[1] >= 0);
+            TS_AUTO_CHECK(input_shape[dim] > 0 && input_shape[dim + 1] > 0);
+
             input_shape[dim] = pdata[0];
             input_shape[dim +1] = pdata[1];
 
diff --git a/src/backend/base/base_resize2d.cpp b/src/backend/base/base_resize2d.cpp
index 22209fc..360d59e 100644
--- a/src/backend/base/base_resize2d.cpp
+++ b/src/backend/base/base_resize2d.cpp
@@ -80,6 +80,8 @@ namespace ts {
             }
             dim = resized_height_dim;
 
+            TS_AUTO_CHECK(shape[dim] > 0 && shape[dim + 1] > 0);
+
             Shape resized_shape = x.sizes();
 
             ready = resized_shape[resized_height_dim] == size_data[resized_height_dim] &&
-- 
2.43.0


From 32e62a5f87360d92ab36484cd7061de179b87bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:17 +0000
Subject: [PATCH 71/83] fix: resize_nearest_neighbor refuses inputs of fewer
 than two dimensions

---
 src/kernels/cpu/resize_nearest_neighbor.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/kernels/cpu/resize_nearest_neighbor.cpp b/src/kernels/cpu/resize_nearest_neighbor.cpp
index f6194e9..39e50fa 100644
--- a/src/kernels/cpu/resize_nearest_neighbor.cpp
+++ b/src/kernels/cpu/resize_nearest_neighbor.cpp
@@ -57,7 +57,7 @@ namespace ts {
             Shape x_shape = x.sizes();
 
             TS_AUTO_CHECK(m_dim >= 0);
-            TS_AUTO_CHECK(m_dim <= x_shape.size() - 2);
+            TS_AUTO_CHECK(m_dim + 2 <= int(x_shape.size()));
             Shape tmpshape(x_shape.size(), -1);
 
             tmpshape[m_dim] = size_tensor.data<int32_t>()[0];
@@ -84,7 +84,7 @@ namespace ts {
             Shape x_shape = x.sizes();
 
             TS_AUTO_CHECK(m_dim >= 0);
-            TS_AUTO_CHECK(m_dim <= x_shape.size() - 2);
+            TS_AUTO_CHECK(m_dim + 2 <= int(x_shape.size()));
 
             Shape tmpshape(x_shape.size(), -1);
 
-- 
2.43.0


From cb9c2077715f2b83619da5f9311f5fa28a8f5355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:44 +0000
Subject: [PATCH 72/83] fix: cubic resize and affine sampling of fewer than
 four rows or columns are linear

---
 src/kernels/cpu/affine_sample2d.cpp | 7 +++++++
 src/kernels/cpu/resize2d.cpp        | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/src/kernels/cpu/affine_sample2d.cpp b/src/kernels/cpu/affine_sample2d.cpp
index 0793ccd..8603188 100644
--- a/src/kernels/cpu/affine_sample2d.cpp
+++ b/src/kernels/cpu/affine_sample2d.cpp
@@ -227,6 +227,13 @@ namespace ts {
                                           float rz11, float rz12, float rz20, float rz21, float rz22,
                                           base::AffineOuterMode outer_mode = base::AffineOuterMode::NEAREST,
                                           T outer_value = T(0)) {
+            // the cubic kernel needs four rows and columns
+            if (x_width < 4 || x_height < 4) {
+                affine_sample2d_linear<T>(x, y, x_height, x_width, y_height, y_width, x_offset, y_offset, channels,
+                                          rz00, rz01, rz02, rz10, rz11, rz12, rz20, rz21, rz22,
+                                          outer_mode, outer_value);
+                return;
+            }
             const T *psrc = x->data<T>() + x_offset;
             T *pdst = y->data<T>() + y_offset;
             const double A = -0.75f;
diff --git a/src/kernels/cpu/resize2d.cpp b/src/kernels/cpu/resize2d.cpp
index 185cbb9..bb00f38 100644
--- a/src/kernels/cpu/resize2d.cpp
+++ b/src/kernels/cpu/resize2d.cpp
@@ -68,6 +68,13 @@ namespace ts {
         template<typename T>
         static inline void Resize2d_ResizeImageCubic(const T *src_im, int src_width, int src_height, int channels,
                                                      T *dst_im, int dst_width, int dst_height) {
+            // the cubic kernel needs four rows and columns
+            if (src_width < 4 || src_height < 4) {
+                Resize2d_ResizeImageLinear<T>(src_im, src_width, src_height, channels,
+                                              dst_im, dst_width, dst_height);
+                return;
+            }
+
             double scale_x = (double) src_width / dst_width;
             double scale_y = (double) src_height / dst_height;
 
-- 
2.43.0


From be4b39905f1bb5c434cbeb1736530f3f8cfe8dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:44 +0000
Subject: [PATCH 73/83] fix: cubic resize keeps integers inside their type

---
 src/kernels/cpu/resize2d.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/kernels/cpu/resize2d.cpp b/src/kernels/cpu/resize2d.cpp
index bb00f38..100b79d 100644
--- a/src/kernels/cpu/resize2d.cpp
+++ b/src/kernels/cpu/resize2d.cpp
@@ -2,6 +2,7 @@
 #include <core/tensor_builder.h>
 #include <memory>
 #include <algorithm>
+#include <limits>
 #include <global/operator_factory.h>
 #include <backend/name.h>
 #include <core/device.h>
@@ -12,6 +13,18 @@
 
 namespace ts {
     namespace cpu {
+        // the cubic kernel overshoots, what an integer type can not hold is cut off
+        template<typename T>
+        static inline T cubic_value(double value) {
+            if (std::numeric_limits<T>::is_integer) {
+                constexpr auto MAX = double(std::numeric_limits<T>::max());
+                constexpr auto MIN = double(std::numeric_limits<T>::lowest());
+                if (value >= MAX) return std::numeric_limits<T>::max();
+                if (value <= MIN) return std::numeric_limits<T>::lowest();
+            }
+            return T(value);
+        }
+
         template<typename T>
         static inline void Resize2d_ResizeImageLinear(const T *src_im, int src_width, int src_height, int channels,
                                                       T *dst_im, int dst_width, int dst_height) {
@@ -126,7 +139,7 @@ namespace ts {
                     coeffsX[3] = 1.f - coeffsX[0] - coeffsX[1] - coeffsX[2];
 
                     for (int k = 0; k < channels; ++k) {
-                        dst_im[j * dstrows + i * channels + k] = (T) ((
+                        dst_im[j * dstrows + i * channels + k] = cubic_value<T>((
                                 src_im[(sy - 1) * srcrows + (sx - 1) * channels + k] * coeffsX[0] * coeffsY[0] +
                                 src_im[(sy) * srcrows + (sx - 1) * channels + k] * coeffsX[0] * coeffsY[1] +
                                 src_im[(sy + 1) * srcrows + (sx - 1) * channels + k] * coeffsX[0] * coeffsY[2] +
-- 
2.43.0


From ff6cca8f25df5b2e731411810dd08d16e3a4806c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:44 +0000
Subject: [PATCH 74/83] fix: affine sampling takes the last row and column as
 inside

---
 src/kernels/cpu/affine_sample2d.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/kernels/cpu/affine_sample2d.cpp b/src/kernels/cpu/affine_sample2d.cpp
index 8603188..178740d 100644
--- a/src/kernels/cpu/affine_sample2d.cpp
+++ b/src/kernels/cpu/affine_sample2d.cpp
@@ -72,8 +72,8 @@ namespace ts {
                     double lf_x_s = location.x;
                     double lf_y_s = location.y;
 
-                    auto inner = lf_x_s >= 0 && lf_x_s < src_width - 1 &&
-                                 lf_y_s >= 0 && lf_y_s < src_height - 1;
+                    auto inner = lf_x_s >= 0 && lf_x_s <= src_width - 1 &&
+                                 lf_y_s >= 0 && lf_y_s <= src_height - 1;
 
                     if (!inner && outer_mode == base::AffineOuterMode::VALUE) {
                         for (int c = 0; c < channels; c++) {
@@ -141,8 +141,8 @@ namespace ts {
                     auto n_x_s = int(std::round(lf_x_s));
                     auto n_y_s = int(std::round(lf_y_s));
 
-                    auto inner = n_x_s >= 0 && n_x_s < src_width - 1 &&
-                                 n_y_s >= 0 && n_y_s < src_height - 1;
+                    auto inner = n_x_s >= 0 && n_x_s < src_width &&
+                                 n_y_s >= 0 && n_y_s < src_height;
 
                     if (!inner && outer_mode == base::AffineOuterMode::VALUE) {
                         for (int c = 0; c < channels; c++) {
@@ -195,8 +195,8 @@ namespace ts {
                     auto n_x_s = int(lf_x_s);
                     auto n_y_s = int(lf_y_s);
 
-                    auto inner = n_x_s >= 0 && n_x_s < src_width - 1 &&
-                                 n_y_s >= 0 && n_y_s < src_height - 1;
+                    auto inner = n_x_s >= 0 && n_x_s < src_width &&
+                                 n_y_s >= 0 && n_y_s < src_height;
 
                     if (!inner && outer_mode == base::AffineOuterMode::VALUE) {
                         for (int c = 0; c < channels; c++) {
-- 
2.43.0


From eeab61b8e5a8ab303564e57561c223be024eee19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:44 +0000
Subject: [PATCH 75/83] fix: letterbox and scale resize infer the sizes they
 produce

---
 src/backend/zoo/nhwc_letterbox.cpp      | 2 +-
 src/backend/zoo/nhwc_scale_resize2d.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/backend/zoo/nhwc_letterbox.cpp b/src/backend/zoo/nhwc_letterbox.cpp
index abd508e..9fba5e8 100644
--- a/src/backend/zoo/nhwc_letterbox.cpp
+++ b/src/backend/zoo/nhwc_letterbox.cpp
@@ -83,7 +83,7 @@ namespace ts {
             Size2D y_size = infer_size(x_size, m_size);
 
             output.resize(1);
-            output[0] = Tensor::Prototype(x.dtype(), {-1, y_size.height, y_size.width, -1});
+            output[0] = Tensor::Prototype(x.dtype(), {x.size(0), y_size.height, y_size.width, x.size(3)});
 
             return 1;
         }
diff --git a/src/backend/zoo/nhwc_scale_resize2d.cpp b/src/backend/zoo/nhwc_scale_resize2d.cpp
index ea9e735..8095242 100644
--- a/src/backend/zoo/nhwc_scale_resize2d.cpp
+++ b/src/backend/zoo/nhwc_scale_resize2d.cpp
@@ -74,7 +74,7 @@ namespace ts {
             Size2D y_size = infer_size(x_size, m_size);
 
             output.resize(1);
-            output[0] = Tensor::Prototype(x.dtype(), {-1, y_size.height, y_size.width, -1});
+            output[0] = Tensor::Prototype(x.dtype(), {x.size(0), y_size.height, y_size.width, x.size(3)});
 
             return 1;
         }
-- 
2.43.0


From f7bf8d50f7d648c3efbd070d4c1416279b66a826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:44 +0000
Subject: [PATCH 76/83] fix: letterbox and scale resize refuse empty images

---
 src/backend/zoo/nhwc_letterbox.cpp      | 2 ++
 src/backend/zoo/nhwc_scale_resize2d.cpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/backend/zoo/nhwc_letterbox.cpp b/src/backend/zoo/nhwc_letterbox.cpp
index 9fba5e8..a58f986 100644
--- a/src/backend/zoo/nhwc_letterbox.cpp
+++ b/src/backend/zoo/nhwc_letterbox.cpp
@@ -77,6 +77,7 @@ namespace ts {
 
             auto &x = stack[0];
             TS_AUTO_CHECK(x.dims() == 4);
+            TS_AUTO_CHECK(x.size(1) > 0 && x.size(2) > 0);
 
             Size2D x_size(x.size(1), x.size(2));
 
@@ -93,6 +94,7 @@ namespace ts {
 
             auto &x = stack[0];
             TS_AUTO_CHECK(x.dims() == 4);
+            TS_AUTO_CHECK(x.size(1) > 0 && x.size(2) > 0);
 
             Size2D x_size(x.size(1), x.size(2));
 
diff --git a/src/backend/zoo/nhwc_scale_resize2d.cpp b/src/backend/zoo/nhwc_scale_resize2d.cpp
index 8095242..9c3a64e 100644
--- a/src/backend/zoo/nhwc_scale_resize2d.cpp
+++ b/src/backend/zoo/nhwc_scale_resize2d.cpp
@@ -68,6 +68,7 @@ namespace ts {
 
             auto &x = stack[0];
             TS_AUTO_CHECK(x.dims() == 4);
+            TS_AUTO_CHECK(x.size(1) > 0 && x.size(2) > 0);
 
             Size2D x_size(x.size(1), x.size(2));
 
@@ -84,6 +85,7 @@ namespace ts {
 
             auto &x = stack[0];
             TS_AUTO_CHECK(x.dims() == 4);
+            TS_AUTO_CHECK(x.size(1) > 0 && x.size(2) > 0);
 
             Size2D x_size(x.size(1), x.size(2));
 
-- 
2.43.0


From 7ffc7c80c079a1c261e871b46ab9a9ef18eecd24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:42 +0000
Subject: [PATCH 77/83] fix: forcing gray without weights uses the default ones

ts_ImageFilter_force_gray_v2 documents that a NULL scale or a len of 0 is the
same as ts_ImageFilter_force_gray, but a NULL scale was refused (so was an
empty vector given to the C++ wrapper).
---
 src/api/image_filter.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/api/image_filter.cpp b/src/api/image_filter.cpp
index 9d2b253..7dc5f56 100644
--- a/src/api/image_filter.cpp
+++ b/src/api/image_filter.cpp
@@ -179,8 +179,11 @@ ts_bool ts_ImageFilter_force_gray(ts_ImageFilter *filter) {
 ts_bool ts_ImageFilter_force_gray_v2(ts_ImageFilter *filter, const float *scale, int32_t len) {
     TRY_HEAD
         if (!filter) throw Exception("NullPointerException: @param: 1");
-        if (!scale) throw Exception("NullPointerException: @param: 2");
-        (*filter)->force_gray(std::vector<float>(scale, scale + len));
+        if (!scale || len <= 0) {
+            (*filter)->force_gray();
+        } else {
+            (*filter)->force_gray(std::vector<float>(scale, scale + len));
+        }
     RETURN_OR_CATCH(ts_true, ts_false)
 }
 
-- 
2.43.0


From 99be01bbf65d89a8672824fffd21f5478ca2a62a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:21 +0000
Subject: [PATCH 78/83] fix: cloning an image filter keeps its steps

The clone got an empty graph, so extending or recompiling it dropped every
step of the original; a clone of a filter that was not compiled did nothing or
ran outdated steps, and cloning a filter that has no program dereferenced a
null pointer.
---
 src/runtime/image_filter.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/runtime/image_filter.cpp b/src/runtime/image_filter.cpp
index 37452e9..1ad79c4 100644
--- a/src/runtime/image_filter.cpp
+++ b/src/runtime/image_filter.cpp
@@ -14,6 +14,7 @@
 #include "runtime/workbench.h"
 
 #include <numeric>
+#include <unordered_map>
 
 namespace ts {
 
@@ -207,9 +208,18 @@ namespace ts {
 
     ImageFilter::ImageFilter(const ImageFilter::Implement &other) {
         m_impl->m_computing_device = other.m_computing_device;
-        this->clear();
-        m_impl->m_program = other.m_program->clone();
-        m_impl->m_compiled = true;
+        // copy steps, so the clone can be extended and compiled on its own
+        m_impl->m_graph = std::make_shared<Graph>();
+        std::unordered_map<Node, Node> copied;
+        for (auto &node : other.m_graph->nodes()) {
+            std::vector<Node> inputs;
+            for (auto &input : node.inputs()) inputs.push_back(copied.at(input));
+            auto copy = m_impl->m_graph->make(node.bubble());
+            Node::Link(copy, inputs);
+            copied.insert(std::make_pair(node, copy));
+        }
+        if (other.m_compiled && other.m_program) m_impl->m_program = other.m_program->clone();
+        m_impl->m_compiled = other.m_compiled;
     }
 
     const Graph &ImageFilter::graph() const {
-- 
2.43.0


From 9f89c2231f91a4cf5c64c05cb50ea150538e5a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:09 +0000
Subject: [PATCH 79/83] fix: SAME padding never starts inside the image

---
 src/backend/onnx/pooling2d_auto_pad.cpp | 8 ++++----
 src/backend/tf/conv2d_padding.cpp       | 4 ++--
 src/backend/tf/pooling2d_padding.cpp    | 4 ++--
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/backend/onnx/pooling2d_auto_pad.cpp b/src/backend/onnx/pooling2d_auto_pad.cpp
index c430e6c..c4bc055 100644
--- a/src/backend/onnx/pooling2d_auto_pad.cpp
+++ b/src/backend/onnx/pooling2d_auto_pad.cpp
@@ -144,8 +144,8 @@ namespace ts {
 
             auto padding_height = (expected_input_size.height - input_size.height);
             auto padding_width = (expected_input_size.width - input_size.width);
-            auto half_padding_height = padding_height / 2;
-            auto half_padding_width = padding_width / 2;
+            auto half_padding_height = std::max(padding_height, 0) / 2;
+            auto half_padding_width = std::max(padding_width, 0) / 2;
 
             dynamic_padding.top = static_padding.top + half_padding_height;
             dynamic_padding.left = static_padding.left + half_padding_width;
@@ -165,8 +165,8 @@ namespace ts {
 
             auto padding_height = (expected_input_size.height - input_size.height);
             auto padding_width = (expected_input_size.width - input_size.width);
-            auto half_padding_height = padding_height / 2;
-            auto half_padding_width = padding_width / 2;
+            auto half_padding_height = padding_height - (std::max(padding_height, 0) + 1) / 2;
+            auto half_padding_width = padding_width - (std::max(padding_width, 0) + 1) / 2;
 
             dynamic_padding.top = static_padding.top + (padding_height - half_padding_height);
             dynamic_padding.left = static_padding.left + (padding_width - half_padding_width);
diff --git a/src/backend/tf/conv2d_padding.cpp b/src/backend/tf/conv2d_padding.cpp
index 12e591f..1d9454f 100644
--- a/src/backend/tf/conv2d_padding.cpp
+++ b/src/backend/tf/conv2d_padding.cpp
@@ -150,8 +150,8 @@ namespace ts {
 
             auto padding_height = (expected_input_size.height - input_size.height);
             auto padding_width = (expected_input_size.width - input_size.width);
-            auto half_padding_height = padding_height / 2;
-            auto half_padding_width = padding_width / 2;
+            auto half_padding_height = std::max(padding_height, 0) / 2;
+            auto half_padding_width = std::max(padding_width, 0) / 2;
 
             dynamic_padding.top = static_padding.top + half_padding_height;
             dynamic_padding.left = static_padding.left + half_padding_width;
diff --git a/src/backend/tf/pooling2d_padding.cpp b/src/backend/tf/pooling2d_padding.cpp
index aa4478a..08c04a9 100644
--- a/src/backend/tf/pooling2d_padding.cpp
+++ b/src/backend/tf/pooling2d_padding.cpp
@@ -132,8 +132,8 @@ namespace ts {
 
             auto padding_height = (expected_input_size.height - input_size.height);
             auto padding_width = (expected_input_size.width - input_size.width);
-            auto half_padding_height = padding_height / 2;
-            auto half_padding_width = padding_width / 2;
+            auto half_padding_height = std::max(padding_height, 0) / 2;
+            auto half_padding_width = std::max(padding_width, 0) / 2;
 
             dynamic_padding.top = static_padding.top + half_padding_height;
             dynamic_padding.left = static_padding.left + half_padding_width;
-- 
2.43.0


From 82f5f053dd24ccaf7e263c5a8ac080f3c53bd032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:09 +0000
Subject: [PATCH 80/83] fix: padding operators refuse padding and steps over
 batch and channels

---
 src/backend/dragon/conv2d_padding.cpp | 20 ++++++++++----------
 src/backend/tf/conv2d_padding.cpp     | 20 ++++++++++----------
 src/backend/tf/pooling2d_padding.cpp  | 12 ++++++------
 3 files changed, 26 insertions(+), 26 deletions(-)

diff --git a/src/backend/dragon/conv2d_padding.cpp b/src/backend/dragon/conv2d_padding.cpp
index 99b3576..ea2aaf1 100644
--- a/src/backend/dragon/conv2d_padding.cpp
+++ b/src/backend/dragon/conv2d_padding.cpp
@@ -59,36 +59,36 @@ namespace ts {
 
             if (m_format == Conv2DFormat::FORMAT_NCHW) {
                 TS_AUTO_CHECK(static_padding.data<int32_t>()[0] == 0
-                              || static_padding.data<int32_t>()[1] == 0
-                              || static_padding.data<int32_t>()[2] == 0
-                              || static_padding.data<int32_t>()[3] == 0);
+                              && static_padding.data<int32_t>()[1] == 0
+                              && static_padding.data<int32_t>()[2] == 0
+                              && static_padding.data<int32_t>()[3] == 0);
                 this->m_static_padding.top = static_padding.data<int32_t>()[4];
                 this->m_static_padding.bottom = static_padding.data<int32_t>()[5];
                 this->m_static_padding.left = static_padding.data<int32_t>()[6];
                 this->m_static_padding.right = static_padding.data<int32_t>()[7];
                 TS_AUTO_CHECK(dilation.data<int32_t>()[0] == 1
-                              || dilation.data<int32_t>()[1] == 1);
+                              && dilation.data<int32_t>()[1] == 1);
                 this->m_dilation.height = dilation.data<int32_t>()[2];
                 this->m_dilation.width = dilation.data<int32_t>()[3];
                 TS_AUTO_CHECK(stride.data<int32_t>()[0] == 1
-                              || stride.data<int32_t>()[1] == 1);
+                              && stride.data<int32_t>()[1] == 1);
                 this->m_stride.height = stride.data<int32_t>()[2];
                 this->m_stride.width = stride.data<int32_t>()[3];
             } else if (m_format == Conv2DFormat::FORMAT_NHWC) {
                 TS_AUTO_CHECK(static_padding.data<int32_t>()[0] == 0
-                              || static_padding.data<int32_t>()[1] == 0
-                              || static_padding.data<int32_t>()[6] == 0
-                              || static_padding.data<int32_t>()[7] == 0);
+                              && static_padding.data<int32_t>()[1] == 0
+                              && static_padding.data<int32_t>()[6] == 0
+                              && static_padding.data<int32_t>()[7] == 0);
                 this->m_static_padding.top = static_padding.data<int32_t>()[2];
                 this->m_static_padding.bottom = static_padding.data<int32_t>()[3];
                 this->m_static_padding.left = static_padding.data<int32_t>()[4];
                 this->m_static_padding.right = static_padding.data<int32_t>()[5];
                 TS_AUTO_CHECK(dilation.data<int32_t>()[0] == 1
-                              || dilation.data<int32_t>()[3] == 1);
+                              && dilation.data<int32_t>()[3] == 1);
                 this->m_dilation.height = dilation.data<int32_t>()[1];
                 this->m_dilation.width = dilation.data<int32_t>()[2];
                 TS_AUTO_CHECK(stride.data<int32_t>()[0] == 1
-                              || stride.data<int32_t>()[3] == 1);
+                              && stride.data<int32_t>()[3] == 1);
                 this->m_stride.height = stride.data<int32_t>()[1];
                 this->m_stride.width = stride.data<int32_t>()[2];
             }
diff --git a/src/backend/tf/conv2d_padding.cpp b/src/backend/tf/conv2d_padding.cpp
index 1d9454f..85e14ae 100644
--- a/src/backend/tf/conv2d_padding.cpp
+++ b/src/backend/tf/conv2d_padding.cpp
@@ -52,36 +52,36 @@ namespace ts {
 
             if (m_format == Conv2DFormat::FORMAT_NCHW) {
                 TS_AUTO_CHECK(static_padding.data<int32_t>()[0] == 0
-                              || static_padding.data<int32_t>()[1] == 0
-                              || static_padding.data<int32_t>()[2] == 0
-                              || static_padding.data<int32_t>()[3] == 0);
+                              && static_padding.data<int32_t>()[1] == 0
+                              && static_padding.data<int32_t>()[2] == 0
+                              && static_padding.data<int32_t>()[3] == 0);
                 this->m_static_padding.top = static_padding.data<int32_t>()[4];
                 this->m_static_padding.bottom = static_padding.data<int32_t>()[5];
                 this->m_static_padding.left = static_padding.data<int32_t>()[6];
                 this->m_static_padding.right = static_padding.data<int32_t>()[7];
                 TS_AUTO_CHECK(dilation.data<int32_t>()[0] == 1
-                              || dilation.data<int32_t>()[1] == 1);
+                              && dilation.data<int32_t>()[1] == 1);
                 this->m_dilation.height = dilation.data<int32_t>()[2];
                 this->m_dilation.width = dilation.data<int32_t>()[3];
                 TS_AUTO_CHECK(stride.data<int32_t>()[0] == 1
-                              || stride.data<int32_t>()[1] == 1);
+                              && stride.data<int32_t>()[1] == 1);
                 this->m_stride.height = stride.data<int32_t>()[2];
                 this->m_stride.width = stride.data<int32_t>()[3];
             } else if (m_format == Conv2DFormat::FORMAT_NHWC) {
                 TS_AUTO_CHECK(static_padding.data<int32_t>()[0] == 0
-                              || static_padding.data<int32_t>()[1] == 0
-                              || static_padding.data<int32_t>()[6] == 0
-                              || static_padding.data<int32_t>()[7] == 0);
+                              && static_padding.data<int32_t>()[1] == 0
+                              && static_padding.data<int32_t>()[6] == 0
+                              && static_padding.data<int32_t>()[7] == 0);
                 this->m_static_padding.top = static_padding.data<int32_t>()[2];
                 this->m_static_padding.bottom = static_padding.data<int32_t>()[3];
                 this->m_static_padding.left = static_padding.data<int32_t>()[4];
                 this->m_static_padding.right = static_padding.data<int32_t>()[5];
                 TS_AUTO_CHECK(dilation.data<int32_t>()[0] == 1
-                              || dilation.data<int32_t>()[3] == 1);
+                              && dilation.data<int32_t>()[3] == 1);
                 this->m_dilation.height = dilation.data<int32_t>()[1];
                 this->m_dilation.width = dilation.data<int32_t>()[2];
                 TS_AUTO_CHECK(stride.data<int32_t>()[0] == 1
-                              || stride.data<int32_t>()[3] == 1);
+                              && stride.data<int32_t>()[3] == 1);
                 this->m_stride.height = stride.data<int32_t>()[1];
                 this->m_stride.width = stride.data<int32_t>()[2];
             }
diff --git a/src/backend/tf/pooling2d_padding.cpp b/src/backend/tf/pooling2d_padding.cpp
index 08c04a9..8302491 100644
--- a/src/backend/tf/pooling2d_padding.cpp
+++ b/src/backend/tf/pooling2d_padding.cpp
@@ -54,18 +54,18 @@ namespace ts {
             // IS NCHW format
             if (m_format == Conv2DFormat::FORMAT_NCHW) {
                 TS_AUTO_CHECK(static_padding.data<int32_t>()[0] == 0
-                              || static_padding.data<int32_t>()[1] == 0
-                              || static_padding.data<int32_t>()[2] == 0
-                              || static_padding.data<int32_t>()[3] == 0);
+                              && static_padding.data<int32_t>()[1] == 0
+                              && static_padding.data<int32_t>()[2] == 0
+                              && static_padding.data<int32_t>()[3] == 0);
                 this->m_static_padding.top = static_padding.data<int32_t>()[4];
                 this->m_static_padding.bottom = static_padding.data<int32_t>()[5];
                 this->m_static_padding.left = static_padding.data<int32_t>()[6];
                 this->m_static_padding.right = static_padding.data<int32_t>()[7];
             } else if (m_format == Conv2DFormat::FORMAT_NHWC) {
                 TS_AUTO_CHECK(static_padding.data<int32_t>()[0] == 0
-                              || static_padding.data<int32_t>()[1] == 0
-                              || static_padding.data<int32_t>()[6] == 0
-                              || static_padding.data<int32_t>()[7] == 0);
+                              && static_padding.data<int32_t>()[1] == 0
+                              && static_padding.data<int32_t>()[6] == 0
+                              && static_padding.data<int32_t>()[7] == 0);
                 this->m_static_padding.top = static_padding.data<int32_t>()[2];
                 this->m_static_padding.bottom = static_padding.data<int32_t>()[3];
                 this->m_static_padding.left = static_padding.data<int32_t>()[4];
-- 
2.43.0


From 5aca18c16b135a804b19105ed89a51176cef8333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:09 +0000
Subject: [PATCH 81/83] fix: convolution padding accepts its default dilation
 and NHWC images

---
 src/backend/dragon/conv2d_padding.cpp | 6 ++++--
 src/backend/tf/conv2d_padding.cpp     | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/backend/dragon/conv2d_padding.cpp b/src/backend/dragon/conv2d_padding.cpp
index ea2aaf1..c223c14 100644
--- a/src/backend/dragon/conv2d_padding.cpp
+++ b/src/backend/dragon/conv2d_padding.cpp
@@ -15,7 +15,7 @@ namespace ts {
         Conv2DPadding::Conv2DPadding() {
             field(name::format, REQUIRED);
             field(name::stride, REQUIRED);
-            field(name::dilation, OPTIONAL);
+            field(name::dilation, OPTIONAL, tensor::build(INT32, {4}, {1, 1, 1, 1}));
             this->field(name::padding_method, OPTIONAL, tensor::from(name::VALID));
             this->field(name::padding, OPTIONAL, tensor::build(INT32, {4, 2}, {0, 0, 0, 0, 0, 0, 0, 0}));
         }
@@ -198,7 +198,9 @@ namespace ts {
 
             TS_AUTO_CHECK(x_tensor.dtype() == w_tensor.dtype());
 
-            TS_AUTO_CHECK(w_tensor.size(1) == x_tensor.size(1));
+            auto channel_dim = m_format == FORMAT_NHWC ? 3 : 1;
+
+            TS_AUTO_CHECK(w_tensor.size(channel_dim) == x_tensor.size(channel_dim));
 
             Size2D x;
             Size2D ksize;
diff --git a/src/backend/tf/conv2d_padding.cpp b/src/backend/tf/conv2d_padding.cpp
index 85e14ae..76423bb 100644
--- a/src/backend/tf/conv2d_padding.cpp
+++ b/src/backend/tf/conv2d_padding.cpp
@@ -14,7 +14,7 @@ namespace ts {
         Conv2DPadding::Conv2DPadding() {
             field(name::format, REQUIRED);
             field(name::stride, REQUIRED);
-            field(name::dilation, OPTIONAL);
+            field(name::dilation, OPTIONAL, tensor::build(INT32, {4}, {1, 1, 1, 1}));
             this->field(name::padding_method, REQUIRED);
             this->field(name::padding, OPTIONAL, tensor::build(INT32, {4, 2}, {0, 0, 0, 0, 0, 0, 0, 0}));
         }
@@ -172,7 +172,9 @@ namespace ts {
 
             TS_AUTO_CHECK(x_tensor.dtype() == w_tensor.dtype());
 
-            if (w_tensor.size(1) != x_tensor.size(1)) {
+            auto channel_dim = m_format == FORMAT_NHWC ? 3 : 1;
+
+            if (w_tensor.size(channel_dim) != x_tensor.size(channel_dim)) {
                 TS_LOG_ERROR << "Conv2D failed: x=" << x_tensor.proto() << ", w=" << w_tensor.proto()
                     << ", format=" << tensor::to_string(get(name::format)) << "." << eject;
             }
-- 
2.43.0


From 77548e12af36823794568dbc77872ac1b2cf248b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:09 +0000
Subject: [PATCH 82/83] fix: dragon SAME convolution padding counts the
 dilation

---
 src/backend/dragon/conv2d_padding.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/backend/dragon/conv2d_padding.cpp b/src/backend/dragon/conv2d_padding.cpp
index c223c14..5645aef 100644
--- a/src/backend/dragon/conv2d_padding.cpp
+++ b/src/backend/dragon/conv2d_padding.cpp
@@ -172,7 +172,7 @@ namespace ts {
                                                            padding_method);
 
             Size2D expected_output_size(dynamic_output_size[0].out, dynamic_output_size[1].out);
-            Size2D expected_input_size = pooling2d_backward(expected_output_size, static_padding, ksize, stride);
+            Size2D expected_input_size = conv2d_backward(expected_output_size, static_padding, ksize, stride, dilation);
 
             auto padding_height = (expected_input_size.height - input_size.height);
             auto padding_width = (expected_input_size.width - input_size.width);
-- 
2.43.0


From 9f122af708385914fca93a22d44162c0a5b11abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:26 +0000
Subject: [PATCH 83/83] fix: padding operators check the windows and steps they
 divide by

---
 src/backend/dragon/conv2d_padding.cpp     | 1 +
 src/backend/dragon/pooling2d_auto_pad.cpp | 5 +++++
 src/backend/mxnet/pooling2d_padding.cpp   | 5 +++++
 src/backend/onnx/pooling2d_auto_pad.cpp   | 5 +++++
 src/backend/tf/conv2d_padding.cpp         | 1 +
 src/backend/tf/pooling2d_padding.cpp      | 5 +++++
 6 files changed, 22 insertions(+)

diff --git a/src/backend/dragon/conv2d_padding.cpp b/src/backend/dragon/conv2d_padding.cpp
index 5645aef..b6659e8 100644
--- a/src/backend/dragon/conv2d_padding.cpp
+++ b/src/backend/dragon/conv2d_padding.cpp
@@ -56,6 +56,7 @@ namespace ts {
             TS_AUTO_CHECK(dilation.has_shape(4));
             auto stride = tensor::cast(INT32, get(name::stride));
             TS_AUTO_CHECK(stride.has_shape(4));
+            for (int i = 0; i < 4; ++i) TS_AUTO_CHECK(stride.data<int32_t>()[i] > 0);
 
             if (m_format == Conv2DFormat::FORMAT_NCHW) {
                 TS_AUTO_CHECK(static_padding.data<int32_t>()[0] == 0
diff --git a/src/backend/dragon/pooling2d_auto_pad.cpp b/src/backend/dragon/pooling2d_auto_pad.cpp
index bc463b7..630efd7 100644
--- a/src/backend/dragon/pooling2d_auto_pad.cpp
+++ b/src/backend/dragon/pooling2d_auto_pad.cpp
@@ -178,6 +178,11 @@ namespace ts {
             auto ksize_tensor = tensor::cast(INT32, stack[1]);
             auto stride_tensor = tensor::cast(INT32, stack[2]);
 
+            TS_AUTO_CHECK(shape.size() == 4);
+            TS_AUTO_CHECK(ksize_tensor.has_shape(4));
+            TS_AUTO_CHECK(stride_tensor.has_shape(4));
+            for (int i = 0; i < 4; ++i) TS_AUTO_CHECK(stride_tensor.data<int32_t>()[i] > 0);
+
             Padding2D dynamic_padding;
 
             KSize2D ksize;
diff --git a/src/backend/mxnet/pooling2d_padding.cpp b/src/backend/mxnet/pooling2d_padding.cpp
index 0a7e8a1..2c56a32 100644
--- a/src/backend/mxnet/pooling2d_padding.cpp
+++ b/src/backend/mxnet/pooling2d_padding.cpp
@@ -77,6 +77,11 @@ namespace ts {
             auto ksize_tensor = tensor::cast(INT32, stack.index(1)->view(MemoryDevice(CPU)));
             auto stride_tensor = tensor::cast(INT32, stack.index(2)->view(MemoryDevice(CPU)));
 
+            TS_AUTO_CHECK(shape.size() == 4);
+            TS_AUTO_CHECK(ksize_tensor.has_shape(4));
+            TS_AUTO_CHECK(stride_tensor.has_shape(4));
+            for (int i = 0; i < 4; ++i) TS_AUTO_CHECK(stride_tensor.data<int32_t>()[i] > 0);
+
             Padding2D dynamic_padding;
 
             if (this->valid) {
diff --git a/src/backend/onnx/pooling2d_auto_pad.cpp b/src/backend/onnx/pooling2d_auto_pad.cpp
index c4bc055..4931764 100644
--- a/src/backend/onnx/pooling2d_auto_pad.cpp
+++ b/src/backend/onnx/pooling2d_auto_pad.cpp
@@ -187,6 +187,11 @@ namespace ts {
             auto ksize_tensor = tensor::cast(INT32, stack[1]);
             auto stride_tensor = tensor::cast(INT32, stack[2]);
 
+            TS_AUTO_CHECK(shape.size() == 4);
+            TS_AUTO_CHECK(ksize_tensor.has_shape(4));
+            TS_AUTO_CHECK(stride_tensor.has_shape(4));
+            for (int i = 0; i < 4; ++i) TS_AUTO_CHECK(stride_tensor.data<int32_t>()[i] > 0);
+
             Padding2D dynamic_padding;
 
             KSize2D ksize;
diff --git a/src/backend/tf/conv2d_padding.cpp b/src/backend/tf/conv2d_padding.cpp
index 76423bb..9a6e7e1 100644
--- a/src/backend/tf/conv2d_padding.cpp
+++ b/src/backend/tf/conv2d_padding.cpp
@@ -49,6 +49,7 @@ namespace ts {
             TS_AUTO_CHECK(dilation.has_shape(4));
             auto stride = tensor::cast(INT32, get(name::stride));
             TS_AUTO_CHECK(stride.has_shape(4));
+            for (int i = 0; i < 4; ++i) TS_AUTO_CHECK(stride.data<int32_t>()[i] > 0);
 
             if (m_format == Conv2DFormat::FORMAT_NCHW) {
                 TS_AUTO_CHECK(static_padding.data<int32_t>()[0] == 0
diff --git a/src/backend/tf/pooling2d_padding.cpp b/src/backend/tf/pooling2d_padding.cpp
index 8302491..a5c3d82 100644
--- a/src/backend/tf/pooling2d_padding.cpp
+++ b/src/backend/tf/pooling2d_padding.cpp
@@ -154,6 +154,11 @@ namespace ts {
             auto ksize_tensor = tensor::cast(INT32, stack[1]);
             auto stride_tensor = tensor::cast(INT32, stack[2]);
 
+            TS_AUTO_CHECK(shape.size() == 4);
+            TS_AUTO_CHECK(ksize_tensor.has_shape(4));
+            TS_AUTO_CHECK(stride_tensor.has_shape(4));
+            for (int i = 0; i < 4; ++i) TS_AUTO_CHECK(stride_tensor.data<int32_t>()[i] > 0);
+
             Padding2D dynamic_padding;
 
             KSize2D ksize;
-- 
2.43.0

