From 977d5f243844181aa55b41a27b20947fc1055830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:53 +0000
Subject: [PATCH 01/15] fix: count the threshold in the two-phase 2D stream
 size (8-byte heap overflow)

---
 src/sz_compress_cp_preserve_2d.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sz_compress_cp_preserve_2d.cpp b/src/sz_compress_cp_preserve_2d.cpp
index 94100d3..c61308b 100644
--- a/src/sz_compress_cp_preserve_2d.cpp
+++ b/src/sz_compress_cp_preserve_2d.cpp
@@ -243,7 +243,7 @@ sz_compress_cp_preserve_2d_offline(const T * U, const T * V, size_t r1, size_t r
 	printf("eb_size = %ld, u_size = %ld, v_size = %ld\n", compressed_eb_size, compressed_u_size, compressed_v_size);
 	free(eb_u);
 	free(eb_v);
-	compressed_size = sizeof(int) + sizeof(size_t) + compressed_eb_size + sizeof(size_t) + compressed_u_size + sizeof(size_t) + compressed_v_size;
+	compressed_size = sizeof(int) + sizeof(double) + sizeof(size_t) + compressed_eb_size + sizeof(size_t) + compressed_u_size + sizeof(size_t) + compressed_v_size;
 	unsigned char * compressed = (unsigned char *) malloc(compressed_size);
 	unsigned char * compressed_pos = compressed;
 	write_variable_to_dst(compressed_pos, base);
-- 
2.43.0


From 0aceba0f84714b7c3c6fa25524657007ec33c76a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:54 +0000
Subject: [PATCH 02/15] fix: make room for every value being unpredictable in
 the block compressors

---
 src/sz_compress_3d.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sz_compress_3d.cpp b/src/sz_compress_3d.cpp
index 941ee10..d960e59 100644
--- a/src/sz_compress_3d.cpp
+++ b/src/sz_compress_3d.cpp
@@ -86,7 +86,7 @@ sz_compress_2d(const T * data, size_t r1, size_t r2, double precision, size_t& c
 	meanInfo<T> mean_info;// = optimize_quant_invl_2d(data, r1, r2, precision, capacity);
 	int intv_radius = (capacity >> 1);
 	int * type = (int *) malloc(size.num_elements * sizeof(int));
-	T * unpredictable_data = (T *) malloc((0.05*size.num_elements) * sizeof(T));
+	T * unpredictable_data = (T *) malloc(size.num_elements * sizeof(T));
 	unsigned char * indicator = (unsigned char *) malloc(size.num_blocks * sizeof(unsigned char));
 	T * unpredictable_data_pos = unpredictable_data;
 	int * reg_params_type = (int *) malloc(RegCoeffNum2d * size.num_blocks * sizeof(int));
@@ -401,7 +401,7 @@ sz_compress_3d(const T * data, size_t r1, size_t r2, size_t r3, double precision
 	meanInfo<T> mean_info = optimize_quant_invl_3d(data, r1, r2, r3, precision, capacity);
 	int intv_radius = (capacity >> 1);
 	int * type = (int *) malloc(size.num_elements * sizeof(int));
-	T * unpredictable_data = (T *) malloc((0.05*size.num_elements) * sizeof(T));
+	T * unpredictable_data = (T *) malloc(size.num_elements * sizeof(T));
 	unsigned char * indicator = (unsigned char *) malloc(size.num_blocks * sizeof(unsigned char));
 	T * unpredictable_data_pos = unpredictable_data;
 	int * reg_params_type = (int *) malloc(RegCoeffNum3d * size.num_blocks * sizeof(int));
@@ -533,7 +533,7 @@ sz_compress_3d_with_eb(const T * data, const double * precisions, size_t r1, siz
 	meanInfo<T> mean_info;
 	int intv_radius = (capacity >> 1);
 	int * type = (int *) malloc(size.num_elements * sizeof(int));
-	T * unpredictable_data = (T *) malloc((0.05*size.num_elements) * sizeof(T));
+	T * unpredictable_data = (T *) malloc(size.num_elements * sizeof(T));
 	unsigned char * indicator = (unsigned char *) malloc(size.num_blocks * sizeof(unsigned char));
 	T * unpredictable_data_pos = unpredictable_data;
 	int * reg_params_type = (int *) malloc(RegCoeffNum3d * size.num_blocks * sizeof(int));
-- 
2.43.0


From c4229bb4b25f24c4d25c045ec9ddda55c8b0850a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:11 +0000
Subject: [PATCH 03/15] fix: size the block compressors' output buffer for the
 worst case

---
 include/sz_compression_utils.hpp |  9 +++++++++
 src/sz_compress_3d.cpp           | 24 ++++++++++++++++--------
 2 files changed, 25 insertions(+), 8 deletions(-)

diff --git a/include/sz_compression_utils.hpp b/include/sz_compression_utils.hpp
index a335c15..a31170f 100644
--- a/include/sz_compression_utils.hpp
+++ b/include/sz_compression_utils.hpp
@@ -117,6 +117,15 @@ convertIntArray2ByteArray_fast_1b_to_result_sz(const unsigned char* intArray, si
 HuffmanTree *
 build_Huffman_tree(const int * type, size_t num_elements, size_t state_num);
 
+// upper bound of the bytes written by Huffman_encode_tree_and_data
+inline size_t
+Huffman_max_encoded_size(size_t state_num, size_t num_elements){
+	size_t node_count = 2 * MIN(state_num, num_elements);
+	size_t tree_size = 1 + node_count * (3*sizeof(unsigned int) + sizeof(unsigned char));
+	// header, tree, and the code words (written 8 bytes at a time)
+	return 2*sizeof(size_t) + sizeof(unsigned int) + tree_size + num_elements*sizeof(int) + 2*sizeof(size_t);
+}
+
 void
 Huffman_encode_tree_and_data(size_t state_num, const int * type, size_t num_elements, unsigned char*& compressed_pos);
 
diff --git a/src/sz_compress_3d.cpp b/src/sz_compress_3d.cpp
index d960e59..1c162a1 100644
--- a/src/sz_compress_3d.cpp
+++ b/src/sz_compress_3d.cpp
@@ -95,8 +95,10 @@ sz_compress_2d(const T * data, size_t r1, size_t r2, double precision, size_t& c
 	size_t reg_count = prediction_and_quantization_2d_with_border_prediction(data, size, mean_info, precision, capacity, intv_radius, indicator, type, reg_params_type, reg_unpredictable_data_pos, unpredictable_data_pos);
 	size_t unpredictable_count = unpredictable_data_pos - unpredictable_data;
 	unsigned char * compressed = NULL;
-	// TODO: change to a better estimated size
-	size_t est_size = size.num_elements*sizeof(T)*1.2;
+	size_t est_size = sizeof(int) + sizeof(double) + sizeof(char) + sizeof(int) + sizeof(mean_info) + 2*sizeof(size_t)
+		+ unpredictable_count*sizeof(T) + (size.num_blocks + 7)/8
+		+ sizeof(size_t) + RegCoeffNum2d*reg_count*sizeof(float) + Huffman_max_encoded_size(2*RegCoeffCapacity, RegCoeffNum2d*reg_count)
+		+ Huffman_max_encoded_size(2*capacity, size.num_elements);
 	compressed = (unsigned char *) malloc(est_size);
 	unsigned char * compressed_pos = compressed;
 	write_variable_to_dst(compressed_pos, size.block_size);
@@ -212,8 +214,10 @@ sz_compress_2d_with_eb(const T * data, const double * precisions, size_t r1, siz
 	size_t reg_count = prediction_and_quantization_2d_with_border_prediction_with_eb(data, precisions, size, mean_info, capacity, intv_radius, indicator, type, reg_params_type, reg_unpredictable_data_pos, unpredictable_data_pos);
 	size_t unpredictable_count = unpredictable_data_pos - unpredictable_data;
 	unsigned char * compressed = NULL;
-	// TODO: change to a better estimated size
-	size_t est_size = size.num_elements*sizeof(T)*1.2;
+	size_t est_size = sizeof(int) + sizeof(double) + sizeof(char) + sizeof(int) + sizeof(mean_info) + 2*sizeof(size_t)
+		+ unpredictable_count*sizeof(T) + (size.num_blocks + 7)/8
+		+ sizeof(size_t) + RegCoeffNum2d*reg_count*sizeof(float) + Huffman_max_encoded_size(2*RegCoeffCapacity, RegCoeffNum2d*reg_count)
+		+ Huffman_max_encoded_size(2*capacity, size.num_elements);
 	compressed = (unsigned char *) malloc(est_size);
 	unsigned char * compressed_pos = compressed;
 	write_variable_to_dst(compressed_pos, size.block_size);
@@ -411,8 +415,10 @@ sz_compress_3d(const T * data, size_t r1, size_t r2, size_t r3, double precision
 			: prediction_and_quantization_3d_with_border_prediction(data, size, mean_info, precision, capacity, intv_radius, indicator, type, reg_params_type, reg_unpredictable_data_pos, unpredictable_data_pos);
 	size_t unpredictable_count = unpredictable_data_pos - unpredictable_data;
 	unsigned char * compressed = NULL;
-	// TODO: change to a better estimated size
-	size_t est_size = size.num_elements*sizeof(T)*1.2;
+	size_t est_size = sizeof(int) + sizeof(double) + sizeof(char) + sizeof(int) + sizeof(mean_info) + 2*sizeof(size_t)
+		+ unpredictable_count*sizeof(T) + (size.num_blocks + 7)/8
+		+ sizeof(size_t) + RegCoeffNum3d*reg_count*sizeof(float) + Huffman_max_encoded_size(2*RegCoeffCapacity, RegCoeffNum3d*reg_count)
+		+ Huffman_max_encoded_size(2*capacity, size.num_elements);
 	compressed = (unsigned char *) malloc(est_size);
 	unsigned char * compressed_pos = compressed;
 	write_variable_to_dst(compressed_pos, size.block_size);
@@ -542,8 +548,10 @@ sz_compress_3d_with_eb(const T * data, const double * precisions, size_t r1, siz
 	size_t reg_count = prediction_and_quantization_3d_with_border_prediction_with_eb(data, precisions, size, mean_info, capacity, intv_radius, indicator, type, reg_params_type, reg_unpredictable_data_pos, unpredictable_data_pos);
 	size_t unpredictable_count = unpredictable_data_pos - unpredictable_data;
 	unsigned char * compressed = NULL;
-	// TODO: change to a better estimated size
-	size_t est_size = size.num_elements*sizeof(T)*1.2;
+	size_t est_size = sizeof(int) + sizeof(double) + sizeof(char) + sizeof(int) + sizeof(mean_info) + 2*sizeof(size_t)
+		+ unpredictable_count*sizeof(T) + (size.num_blocks + 7)/8
+		+ sizeof(size_t) + RegCoeffNum3d*reg_count*sizeof(float) + Huffman_max_encoded_size(2*RegCoeffCapacity, RegCoeffNum3d*reg_count)
+		+ Huffman_max_encoded_size(2*capacity, size.num_elements);
 	compressed = (unsigned char *) malloc(est_size);
 	unsigned char * compressed_pos = compressed;
 	write_variable_to_dst(compressed_pos, size.block_size);
-- 
2.43.0


From 7066ac389e1a04f901bb50b054b306ba40a21a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:30 +0000
Subject: [PATCH 04/15] fix: size the vector-field compressors' output buffers
 for the worst case

---
 src/sz_compress_cp_preserve_2d.cpp          | 24 +++++++++++++++------
 src/sz_compress_cp_preserve_2d_bilinear.cpp |  4 +++-
 src/sz_compress_cp_preserve_3d.cpp          | 16 ++++++++++----
 3 files changed, 32 insertions(+), 12 deletions(-)

diff --git a/src/sz_compress_cp_preserve_2d.cpp b/src/sz_compress_cp_preserve_2d.cpp
index c61308b..bb67c2f 100644
--- a/src/sz_compress_cp_preserve_2d.cpp
+++ b/src/sz_compress_cp_preserve_2d.cpp
@@ -232,7 +232,7 @@ sz_compress_cp_preserve_2d_offline(const T * U, const T * V, size_t r1, size_t r
 	}
 	free(eb);
 	printf("quantize eb done\n");
-	unsigned char * compressed_eb = (unsigned char *) malloc(2*num_elements*sizeof(int));
+	unsigned char * compressed_eb = (unsigned char *) malloc(Huffman_max_encoded_size(2*1024, 2*num_elements));
 	unsigned char * compressed_eb_pos = compressed_eb; 
 	Huffman_encode_tree_and_data(2*1024, eb_quant_index, 2*num_elements, compressed_eb_pos);
 	size_t compressed_eb_size = compressed_eb_pos - compressed_eb;
@@ -334,7 +334,7 @@ sz_compress_cp_preserve_2d_offline_log(const T * U, const T * V, size_t r1, size
 		// *(eb_quant_index_pos ++) = eb_linear_quantize(eb[i], 5e-3);
 	}
 	// printf("quantize eb done\n");
-	unsigned char * compressed_eb = (unsigned char *) malloc(num_elements*sizeof(int));
+	unsigned char * compressed_eb = (unsigned char *) malloc(Huffman_max_encoded_size(2*1024, num_elements));
 	unsigned char * compressed_eb_pos = compressed_eb; 
 	Huffman_encode_tree_and_data(2*1024, eb_quant_index, num_elements, compressed_eb_pos);
 	size_t compressed_eb_size = compressed_eb_pos - compressed_eb;
@@ -696,7 +696,9 @@ sz_compress_cp_preserve_2d_online(const T * U, const T * V, size_t r1, size_t r2
 	free(decompressed_U);
 	free(decompressed_V);
 	printf("offsets eb_q, data_q, unpred: %ld %ld %ld\n", eb_quant_index_pos - eb_quant_index, data_quant_index_pos - data_quant_index, unpred_data.size());
-	unsigned char * compressed = (unsigned char *) malloc(2*num_elements*sizeof(T));
+	size_t est_size = 2*sizeof(int) + sizeof(threshold) + sizeof(size_t) + unpred_data.size()*sizeof(T)
+		+ Huffman_max_encoded_size(2*1024, 2*num_elements) + Huffman_max_encoded_size(2*capacity, 2*num_elements);
+	unsigned char * compressed = (unsigned char *) malloc(est_size);
 	unsigned char * compressed_pos = compressed;
 	write_variable_to_dst(compressed_pos, base);
 	write_variable_to_dst(compressed_pos, threshold);
@@ -961,7 +963,9 @@ sz_compress_cp_preserve_2d_online_log(const T * U, const T * V, size_t r1, size_
 	free(decompressed_U);
 	free(decompressed_V);
 	// printf("offsets eb_q, data_q, unpred: %ld %ld %ld\n", eb_quant_index_pos - eb_quant_index, data_quant_index_pos - data_quant_index, unpred_data.size());
-	unsigned char * compressed = (unsigned char *) malloc(2*num_elements*sizeof(T));
+	size_t est_size = 2*sizeof(int) + 2*sign_map_size + sizeof(size_t) + unpred_data.size()*sizeof(T)
+		+ Huffman_max_encoded_size(2*1024, num_elements) + Huffman_max_encoded_size(2*capacity, 2*num_elements);
+	unsigned char * compressed = (unsigned char *) malloc(est_size);
 	unsigned char * compressed_pos = compressed;
 	write_variable_to_dst(compressed_pos, base);
 	write_variable_to_dst(compressed_pos, intv_radius);
@@ -1224,7 +1228,9 @@ sz_compress_cp_preserve_2d_online_abs(const T * U, const T * V, size_t r1, size_
 	free(decompressed_U);
 	free(decompressed_V);
 	printf("offsets eb_q, data_q, unpred: %ld %ld %ld\n", eb_quant_index_pos - eb_quant_index, data_quant_index_pos - data_quant_index, unpred_data.size());
-	unsigned char * compressed = (unsigned char *) malloc(2*num_elements*sizeof(T));
+	size_t est_size = 2*sizeof(int) + sizeof(threshold) + sizeof(size_t) + unpred_data.size()*sizeof(T)
+		+ Huffman_max_encoded_size(2*1024, 2*num_elements) + Huffman_max_encoded_size(2*capacity, 2*num_elements);
+	unsigned char * compressed = (unsigned char *) malloc(est_size);
 	unsigned char * compressed_pos = compressed;
 	write_variable_to_dst(compressed_pos, base);
 	write_variable_to_dst(compressed_pos, threshold);
@@ -1512,7 +1518,9 @@ sz_compress_cp_preserve_2d_online_abs_relax_FN(const T * U, const T * V, size_t
 	free(decompressed_U);
 	free(decompressed_V);
 	printf("offsets eb_q, data_q, unpred: %ld %ld %ld\n", eb_quant_index_pos - eb_quant_index, data_quant_index_pos - data_quant_index, unpred_data.size());
-	unsigned char * compressed = (unsigned char *) malloc(2*num_elements*sizeof(T));
+	size_t est_size = 2*sizeof(int) + sizeof(threshold) + sizeof(size_t) + unpred_data.size()*sizeof(T)
+		+ Huffman_max_encoded_size(2*1024, 2*num_elements) + Huffman_max_encoded_size(2*capacity, 2*num_elements);
+	unsigned char * compressed = (unsigned char *) malloc(est_size);
 	unsigned char * compressed_pos = compressed;
 	write_variable_to_dst(compressed_pos, base);
 	write_variable_to_dst(compressed_pos, threshold);
@@ -1795,7 +1803,9 @@ sz3_compress_cp_preserve_2d_online_abs(const T * U, const T * V, size_t r1, size
 	free(decompressed_U);
 	free(decompressed_V);
 	printf("offsets eb_q, data_q: %ld %ld\n", eb_quant_index_pos - eb_quant_index, quant_index);
-	unsigned char * compressed = (unsigned char *) malloc(2*num_elements*sizeof(T));
+	size_t est_size = 2*sizeof(int) + sizeof(threshold) + sizeof(char) + sizeof(int) + sizeof(size_t) + quantizer.size_est()
+		+ Huffman_max_encoded_size(2*1024, num_elements) + Huffman_max_encoded_size(2*capacity, 2*num_elements);
+	unsigned char * compressed = (unsigned char *) malloc(est_size);
 	unsigned char * compressed_pos = compressed;
 	write_variable_to_dst(compressed_pos, base);
 	write_variable_to_dst(compressed_pos, threshold);
diff --git a/src/sz_compress_cp_preserve_2d_bilinear.cpp b/src/sz_compress_cp_preserve_2d_bilinear.cpp
index 370e3a7..670671c 100644
--- a/src/sz_compress_cp_preserve_2d_bilinear.cpp
+++ b/src/sz_compress_cp_preserve_2d_bilinear.cpp
@@ -1052,7 +1052,9 @@ sz_compress_cp_preserve_2d_bilinear_online_log(const T * U, const T * V, size_t
 	free(decompressed_U);
 	free(decompressed_V);
 	// printf("offsets eb_q, data_q, unpred: %ld %ld %ld\n", eb_quant_index_pos - eb_quant_index, data_quant_index_pos - data_quant_index, unpred_data.size());
-	unsigned char * compressed = (unsigned char *) malloc(3*num_elements*sizeof(T));
+	size_t est_size = 2*sizeof(int) + 2*sign_map_size + sizeof(size_t) + unpred_data.size()*sizeof(T)
+		+ Huffman_max_encoded_size(2*1024, num_elements) + Huffman_max_encoded_size(2*capacity, 2*num_elements);
+	unsigned char * compressed = (unsigned char *) malloc(est_size);
 	unsigned char * compressed_pos = compressed;
 	write_variable_to_dst(compressed_pos, base);
 	write_variable_to_dst(compressed_pos, intv_radius);
diff --git a/src/sz_compress_cp_preserve_3d.cpp b/src/sz_compress_cp_preserve_3d.cpp
index 58ce2dd..caf47fe 100644
--- a/src/sz_compress_cp_preserve_3d.cpp
+++ b/src/sz_compress_cp_preserve_3d.cpp
@@ -546,7 +546,9 @@ sz_compress_cp_preserve_3d_offline_log(const T * U, const T * V, const T * W, si
 	free(decompressed_V);
 	free(decompressed_W);
 	// printf("offset eb_q, data_q, unpred: %ld %ld %ld\n", eb_quant_index_pos - eb_quant_index, data_quant_index_pos - data_quant_index, eb_zero_data.size());
-	unsigned char * compressed = (unsigned char *) malloc(3*num_elements*sizeof(T));
+	size_t est_size = 2*sizeof(int) + 3*sign_map_size + 3*sizeof(size_t) + eb_zero_data.size()*sizeof(T)
+		+ Huffman_max_encoded_size(2*256, num_elements) + Huffman_max_encoded_size(2*capacity, 3*num_elements);
+	unsigned char * compressed = (unsigned char *) malloc(est_size);
 	unsigned char * compressed_pos = compressed;
 	write_variable_to_dst(compressed_pos, base);
 	write_variable_to_dst(compressed_pos, intv_radius);
@@ -933,7 +935,9 @@ sz_compress_cp_preserve_3d_online_log(const T * U, const T * V, const T * W, siz
 	free(decompressed_V);
 	free(decompressed_W);
 	printf("offset eb_q, data_q, unpred: %ld %ld %ld\n", eb_quant_index_pos - eb_quant_index, data_quant_index_pos - data_quant_index, eb_zero_data.size());
-	unsigned char * compressed = (unsigned char *) malloc(3*num_elements*sizeof(T));
+	size_t est_size = 2*sizeof(int) + 3*sign_map_size + 3*sizeof(size_t) + eb_zero_data.size()*sizeof(T)
+		+ Huffman_max_encoded_size(2*256, num_elements) + Huffman_max_encoded_size(2*capacity, 3*num_elements);
+	unsigned char * compressed = (unsigned char *) malloc(est_size);
 	unsigned char * compressed_pos = compressed;
 	write_variable_to_dst(compressed_pos, base);
 	write_variable_to_dst(compressed_pos, intv_radius);
@@ -1115,7 +1119,9 @@ sz_compress_cp_preserve_3d_unstructured(int n, const T * points, const T * data,
 	free(dec_data);
 	free(log_data);
 	// printf("offset eb_q, data_q, unpred: %ld %ld %ld\n", eb_quant_index_pos - eb_quant_index, data_quant_index_pos - data_quant_index, eb_zero_data.size());
-	unsigned char * compressed = (unsigned char *) malloc(3*n*sizeof(T));
+	size_t est_size = 2*sizeof(int) + sign_map_size + 3*sizeof(size_t) + eb_zero_data.size()*sizeof(T)
+		+ Huffman_max_encoded_size(2*256, n) + Huffman_max_encoded_size(2*capacity, 3*n);
+	unsigned char * compressed = (unsigned char *) malloc(est_size);
 	unsigned char * compressed_pos = compressed;
 	write_variable_to_dst(compressed_pos, base);
 	write_variable_to_dst(compressed_pos, intv_radius);
@@ -1452,7 +1458,9 @@ sz_compress_cp_preserve_3d_online_abs(const T * U, const T * V, const T * W, siz
 	free(decompressed_V);
 	free(decompressed_W);
 	printf("offsets eb_q, data_q, unpred: %ld %ld %ld\n", eb_quant_index_pos - eb_quant_index, data_quant_index_pos - data_quant_index, unpred_data.size());
-	unsigned char * compressed = (unsigned char *) malloc(3*num_elements*sizeof(T));
+	size_t est_size = 2*sizeof(int) + sizeof(threshold) + 2*sizeof(size_t) + unpred_data.size()*sizeof(T)
+		+ Huffman_max_encoded_size(2*1024, num_elements) + Huffman_max_encoded_size(2*capacity, 3*num_elements);
+	unsigned char * compressed = (unsigned char *) malloc(est_size);
 	unsigned char * compressed_pos = compressed;
 	write_variable_to_dst(compressed_pos, base);
 	write_variable_to_dst(compressed_pos, threshold);
-- 
2.43.0


From 1bd25f8f1d2cd7582635f205cf74cf07b3d5e18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:13 +0000
Subject: [PATCH 05/15] fix: skip the escaped values by their own size when
 decoding double precision blocks

---
 src/sz_decompress_3d.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sz_decompress_3d.cpp b/src/sz_decompress_3d.cpp
index 6710b38..c9093f3 100644
--- a/src/sz_decompress_3d.cpp
+++ b/src/sz_decompress_3d.cpp
@@ -62,7 +62,7 @@ sz_decompress_2d(const unsigned char * compressed, size_t r1, size_t r2){
 	size_t unpredictable_count = 0;
 	read_variable_from_src(compressed_pos, unpredictable_count);
 	const T * unpredictable_data = (const T *) compressed_pos;
-	compressed_pos += unpredictable_count * sizeof(float);
+	compressed_pos += unpredictable_count * sizeof(T);
 	unsigned char * indicator = convertByteArray2IntArray_fast_1b_sz(size.num_blocks, compressed_pos, (size.num_blocks - 1)/8 + 1);
 	float * reg_params = NULL;
 	if(reg_count) reg_params = decode_regression_coefficients_2d(compressed_pos, reg_count, size.block_size, precision);
@@ -271,7 +271,7 @@ sz_decompress_3d(const unsigned char * compressed, size_t r1, size_t r2, size_t
 	size_t unpredictable_count = 0;
 	read_variable_from_src(compressed_pos, unpredictable_count);
 	const T * unpredictable_data = (const T *) compressed_pos;
-	compressed_pos += unpredictable_count * sizeof(float);
+	compressed_pos += unpredictable_count * sizeof(T);
 	unsigned char * indicator = convertByteArray2IntArray_fast_1b_sz(size.num_blocks, compressed_pos, (size.num_blocks - 1)/8 + 1);
 	float * reg_params = NULL;
 	if(reg_count) reg_params = decode_regression_coefficients(compressed_pos, reg_count, size.block_size, precision);
-- 
2.43.0


From 5b92aaa82facdab75bb894483341b0622d182b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:13 +0000
Subject: [PATCH 06/15] fix: never enlarge a quantised error bound and keep
 index 0 for lossless

---
 include/sz_cp_preserve_utils.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/sz_cp_preserve_utils.hpp b/include/sz_cp_preserve_utils.hpp
index 094d65f..75aec65 100644
--- a/include/sz_cp_preserve_utils.hpp
+++ b/include/sz_cp_preserve_utils.hpp
@@ -17,7 +17,15 @@ inline int eb_exponential_quantize(double& eb, const int base, const double log_
 		return 0;
 	}
 	int id = log2(eb / threshold)/log_of_base;
-	eb = pow(base, id) * threshold;
+	double quantized_eb = pow(base, id) * threshold;
+	// rounding in the logarithm must not enlarge the bound
+	if(quantized_eb > eb) quantized_eb = pow(base, --id) * threshold;
+	// index 0 means lossless to the decompressors
+	if(id <= 0 || quantized_eb > eb){
+		eb = 0;
+		return 0;
+	}
+	eb = quantized_eb;
 	return id;
 }
 
-- 
2.43.0


From e18f2ed88f586044878db4c587434da09fdb1deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:13 +0000
Subject: [PATCH 07/15] fix: verify the quantised value against the bound in
 the false-negative-relaxing compressor

---
 src/sz_compress_cp_preserve_2d.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/sz_compress_cp_preserve_2d.cpp b/src/sz_compress_cp_preserve_2d.cpp
index bb67c2f..380ca84 100644
--- a/src/sz_compress_cp_preserve_2d.cpp
+++ b/src/sz_compress_cp_preserve_2d.cpp
@@ -1453,6 +1453,11 @@ sz_compress_cp_preserve_2d_online_abs_relax_FN(const T * U, const T * V, size_t
 						int quant_index = (int)(quant_diff/2) + intv_radius;
 						data_quant_index_pos[k] = quant_index;
 						decompressed[k] = pred + 2 * (quant_index - intv_radius) * abs_eb; 
+						// check original data
+						if(fabs(decompressed[k] - cur_data) > abs_eb){
+							unpred_flag = true;
+							break;
+						}
 					}
 					else{
 						unpred_flag = true;
-- 
2.43.0


From 8a46a12bf13058d5f73d309a3459f777548d097a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:13 +0000
Subject: [PATCH 08/15] fix: range-check the quantisation quotient before
 converting it to int

---
 include/sz3_utils.hpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/include/sz3_utils.hpp b/include/sz3_utils.hpp
index e06288a..cb50561 100644
--- a/include/sz3_utils.hpp
+++ b/include/sz3_utils.hpp
@@ -12,8 +12,10 @@ public:
     int quantize(T data, T pred, T_eb eb) {
         if(eb == 0) return 0;
         T diff = data - pred;
-        int quant_index = (int) (fabs(diff) / eb) + 1;
-        if (quant_index < this->radius * 2) {
+        double quant_diff = fabs(diff) / eb;
+        // compare before the conversion: the quotient may not fit in an int
+        if (quant_diff < this->radius * 2 - 1) {
+            int quant_index = (int) quant_diff + 1;
             quant_index >>= 1;
             int half_index = quant_index;
             quant_index <<= 1;
@@ -45,8 +47,10 @@ public:
         //     std::cout << data << " " << pred << " " << eb << std::endl;
         // }
         T diff = data - pred;
-        int quant_index = (int) (fabs(diff) / eb) + 1;
-        if (quant_index < this->radius * 2) {
+        double quant_diff = fabs(diff) / eb;
+        // compare before the conversion: the quotient may not fit in an int
+        if (quant_diff < this->radius * 2 - 1) {
+            int quant_index = (int) quant_diff + 1;
             quant_index >>= 1;
             int half_index = quant_index;
             quant_index <<= 1;
@@ -81,8 +85,10 @@ public:
             return 0;
         }
         T diff = ori - pred;
-        int quant_index = (int) (fabs(diff) / eb) + 1;
-        if (quant_index < this->radius * 2) {
+        double quant_diff = fabs(diff) / eb;
+        // compare before the conversion: the quotient may not fit in an int
+        if (quant_diff < this->radius * 2 - 1) {
+            int quant_index = (int) quant_diff + 1;
             quant_index >>= 1;
             int half_index = quant_index;
             quant_index <<= 1;
-- 
2.43.0


From 89fbf15e5619d55f826ae4c81c628eb4aae8f4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:59 +0000
Subject: [PATCH 09/15] fix: all-zero field decoded to infinity in the
 pointwise-relative compressor

---
 src/sz_compress_pwr.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sz_compress_pwr.cpp b/src/sz_compress_pwr.cpp
index 4365e11..d2fd670 100644
--- a/src/sz_compress_pwr.cpp
+++ b/src/sz_compress_pwr.cpp
@@ -21,7 +21,8 @@ sz_compress_2d_pwr(const T * data, size_t r1, size_t r2, double precision, size_
 		max_data = MAX(max_data, data[i]);
 	}
 	T max_abs_log_data = 0;
-    if(min_data == 0) max_abs_log_data = fabs(log2(fabs(max_data)));
+    if(min_data == 0 && max_data == 0) max_abs_log_data = 0;
+    else if(min_data == 0) max_abs_log_data = fabs(log2(fabs(max_data)));
     else if(max_data == 0) max_abs_log_data = fabs(log2(fabs(min_data)));
     else max_abs_log_data = fabs(log2(fabs(min_data))) > fabs(log2(fabs(max_data))) ? fabs(log2(fabs(min_data))) : fabs(log2(fabs(max_data)));
     T min_log_data = max_abs_log_data;
-- 
2.43.0


From d75ad4b177e2cd151b937e2933fd32808ca77b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:59 +0000
Subject: [PATCH 10/15] fix: keep zero marker and logarithms apart for tight
 pointwise-relative bounds

---
 src/sz_compress_pwr.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/sz_compress_pwr.cpp b/src/sz_compress_pwr.cpp
index d2fd670..eab0637 100644
--- a/src/sz_compress_pwr.cpp
+++ b/src/sz_compress_pwr.cpp
@@ -41,16 +41,20 @@ sz_compress_2d_pwr(const T * data, size_t r1, size_t r2, double precision, size_
 	}
 	if(fabs(min_log_data) > max_abs_log_data) max_abs_log_data = fabs(min_log_data);
 	double log_precision = log2(1.0 + precision) - max_abs_log_data * std::numeric_limits<T>::epsilon();
+	// bound below the resolution of the logarithms: keep them exact
+	if(log_precision < 0) log_precision = 0;
+	// the zero marker has to stay apart from the logarithms after quantization and rounding to T
+	double zero_gap = MAX(log_precision, 2*std::numeric_limits<T>::epsilon()*MAX(max_abs_log_data, 1));
 	for(size_t i=0; i<num_elements; i++){
 		if(data[i] == 0){
-			log_data[i] = min_log_data - 2.0001*log_precision;
+			log_data[i] = min_log_data - 4*zero_gap;
 		}
 	}
 	size_t log_compressed_size = 0;
 	unsigned char * log_compressed = sz_compress_2d(log_data, r1, r2, log_precision, log_compressed_size, BSIZE, block_independant);
     free(log_data);
 	size_t sign_size = (num_elements-1)/8 + 1;
-	T threshold = min_log_data - 1.0001*log_precision;
+	T threshold = min_log_data - 2*zero_gap;
 	compressed_size = sizeof(T) + sign_size + log_compressed_size;
     unsigned char * final_compressed = (unsigned char *) malloc(compressed_size);
     unsigned char * final_compressed_pos = final_compressed;
-- 
2.43.0


From d8f70d40ff1162555bb2ae1245540a3454dd591f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:59 +0000
Subject: [PATCH 11/15] fix: smallest magnitude decoded to zero when its log
 bound rounds away

---
 src/sz_compress_pwr.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sz_compress_pwr.cpp b/src/sz_compress_pwr.cpp
index eab0637..eff6913 100644
--- a/src/sz_compress_pwr.cpp
+++ b/src/sz_compress_pwr.cpp
@@ -102,6 +102,8 @@ sz_compress_2d_pwr_with_eb(const T * data, const double * ebs, double **final_lo
 			threshold = MIN(threshold, log_data[i] - 1.0001 * log_ebs[i]);
 		}
 	}
+	// strictly below everything a nonzero value can decode to
+	threshold = std::nextafter(threshold, -std::numeric_limits<T>::infinity());
 	for(size_t i=0; i<num_elements; i++){
 		if(data[i] == 0){
 			log_data[i] = threshold;
-- 
2.43.0


From b3b536fafe309c5e2c96b9a293d911aa77778568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:59 +0000
Subject: [PATCH 12/15] fix: logarithm rounding must tighten, not widen, the
 per-element log bound

---
 src/sz_compress_pwr.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sz_compress_pwr.cpp b/src/sz_compress_pwr.cpp
index eff6913..af01cb7 100644
--- a/src/sz_compress_pwr.cpp
+++ b/src/sz_compress_pwr.cpp
@@ -97,7 +97,7 @@ sz_compress_2d_pwr_with_eb(const T * data, const double * ebs, double **final_lo
 			log_data[i] = data[i];
 		if(log_data[i] > 0){
 			log_data[i] = log2(log_data[i]);
-			log_ebs[i] = log2(1.0 + ebs[i]) - log_data[i] * std::numeric_limits<T>::epsilon();
+			log_ebs[i] = log2(1.0 + ebs[i]) - fabs(log_data[i]) * std::numeric_limits<T>::epsilon();
 			log_ebs[i] = MAX(log_ebs[i], 0);
 			threshold = MIN(threshold, log_data[i] - 1.0001 * log_ebs[i]);
 		}
-- 
2.43.0


From f9311fae85d45cd4b8131df5fc24c15c54a8e493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:21 +0000
Subject: [PATCH 13/15] fix: code an empty symbol sequence instead of
 dereferencing a null tree

---
 src/sz_compression_utils.cpp   | 2 ++
 src/sz_decompression_utils.cpp | 1 +
 2 files changed, 3 insertions(+)

diff --git a/src/sz_compression_utils.cpp b/src/sz_compression_utils.cpp
index 2fd36e5..165ccee 100644
--- a/src/sz_compression_utils.cpp
+++ b/src/sz_compression_utils.cpp
@@ -60,6 +60,8 @@ build_Huffman_tree(size_t state_num, const int * type, size_t num_elements){
 
 void
 Huffman_encode_tree_and_data(size_t state_num, const int * type, size_t num_elements, unsigned char*& compressed_pos){
+	// an empty sequence takes no bytes
+	if(num_elements == 0) return;
 	HuffmanTree * huffman = build_Huffman_tree(state_num, type, num_elements);
 	size_t node_count = 0;
 	size_t i = 0;
diff --git a/src/sz_decompression_utils.cpp b/src/sz_decompression_utils.cpp
index 5637828..bd7be1c 100644
--- a/src/sz_decompression_utils.cpp
+++ b/src/sz_decompression_utils.cpp
@@ -91,6 +91,7 @@ convertByteArray2IntArray_fast_1b_sz(size_t intArrayLength, const unsigned char*
 // TODO: change compress_pos to const
 int *
 Huffman_decode_tree_and_data(size_t state_num, size_t num_elements, const unsigned char *& compressed_pos){
+	if(num_elements == 0) return NULL;
 	HuffmanTree* huffman = createHuffmanTree(state_num);
 	size_t node_count = 0;
 	read_variable_from_src(compressed_pos, node_count);
-- 
2.43.0


From 0733b48dc52fecd9cbc47c1c053eed96c1899863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:21 +0000
Subject: [PATCH 14/15] fix: advance the sign map past zeros in the
 unstructured 3D decompressor

---
 src/sz_decompress_cp_preserve_3d.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sz_decompress_cp_preserve_3d.cpp b/src/sz_decompress_cp_preserve_3d.cpp
index 617b92f..396b5b3 100644
--- a/src/sz_decompress_cp_preserve_3d.cpp
+++ b/src/sz_decompress_cp_preserve_3d.cpp
@@ -185,8 +185,9 @@ sz_decompress_cp_preserve_3d_unstructured(const unsigned char * compressed, int
 		}
 		else{
 			for(int p=0; p<3; p++){
+				bool positive = *(sign_pos ++);
 				if(data[3*i + p] < -99) data[3*i + p] = 0;
-				else data[3*i + p] = *(sign_pos ++) ? exp2(data[3*i + p]) : -exp2(data[3*i + p]);
+				else data[3*i + p] = positive ? exp2(data[3*i + p]) : -exp2(data[3*i + p]);
 			}
 		}
 	}
-- 
2.43.0


From 06a98d85021416c7855f69e84c172e7f401b262c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:44 +0000
Subject: [PATCH 15/15] fix: do not abort when decoding a very small
 interpolation-coded field

---
 src/sz_decompress_cp_preserve_2d.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sz_decompress_cp_preserve_2d.cpp b/src/sz_decompress_cp_preserve_2d.cpp
index 775ced3..49547b1 100644
--- a/src/sz_decompress_cp_preserve_2d.cpp
+++ b/src/sz_decompress_cp_preserve_2d.cpp
@@ -333,7 +333,8 @@ sz3_decompress_cp_preserve_2d_online(const unsigned char * compressed, size_t r1
 	read_variable_from_src(compressed_pos, capacity);
 	int interpolation_level = (uint) ceil(log2(max(r1, r2)));
 	auto quantizer = VariableEBLinearQuantizer<T, T>(capacity>>1);
-	size_t remaining_length = num_elements*sizeof(T);//placeholder
+	// header of the quantizer and at most 2*num_elements unpredictable values
+	size_t remaining_length = sizeof(uint8_t) + sizeof(int) + sizeof(size_t) + 2*num_elements*sizeof(T);
 	quantizer.load(compressed_pos, remaining_length);
 
 	int * eb_quant_index = Huffman_decode_tree_and_data(2*1024, num_elements, compressed_pos);
-- 
2.43.0

