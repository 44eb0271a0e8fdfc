#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place where the property texts are edited)."""
import json, os
P = []
def prop(id, title, st, over, qtext, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=st, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state], observe_at=observe, hook_needed=None)))

S2, S3 = 'src/sz_compress_3d.cpp', 'src/sz_decompress_3d.cpp'
C2, D2 = 'src/sz_compress_cp_preserve_2d.cpp', 'src/sz_decompress_cp_preserve_2d.cpp'
BL = 'src/sz_compress_cp_preserve_2d_bilinear.cpp'
C3, D3 = 'src/sz_compress_cp_preserve_3d.cpp', 'src/sz_decompress_cp_preserve_3d.cpp'
CU, DU, CUH, DUH = 'src/sz_compression_utils.cpp', 'src/sz_decompression_utils.cpp', 'include/sz_compression_utils.hpp', 'include/sz_decompression_utils.hpp'

prop('P01', 'Uniform error bound of the 2D and 3D block compressors',
     'For every finite field, every positive finite absolute bound, every block size and both block modes, decompressing what the uniform-bound 2D (single precision) and 3D (single and double precision) compressors wrote yields a field of the same shape in which every value differs from the original by at most the bound (the difference evaluated in the precision of the data). '
     'Values the quantizer cannot represent are returned bit for bit.',
     ['inputs', 'configurations'], 'all finite values, all positive bounds, all shapes and block sizes within the stated grid bounds, dependent and independent blocks, both precisions of the 3D entry points',
     'Tests run a few smooth fields of one size with one bound; they cannot reach every mix of predictor (local, mean, plane fit), escape value and block edge.',
     [S2, S3, 'include/sz_compress_block_processing.hpp', 'include/sz_decompress_block_processing.hpp', 'include/sz_prediction.hpp'],
     [('quantise prediction error, verify, escape otherwise', 'include/sz_compress_block_processing.hpp'), ('same prediction formula on decoded neighbours', 'include/sz_decompress_block_processing.hpp'), ('border-padded work buffers', S2)],
     ['sz_compress_2d/sz_decompress_2d', 'sz_compress_3d/sz_decompress_3d'])
prop('P02', 'Per-element error bounds of the 2D compressor',
     'For every finite field and every array of non-negative finite per-element bounds, the 2D compressor with per-element bounds followed by its decompressor (given the same bounds) returns every value within its own bound, and an element whose bound is zero comes back bit for bit equal.',
     ['inputs', 'configurations'], 'all finite values, all non-negative bounds per element, both precisions, shapes and block sizes within the stated grid bounds',
     'Tests use one bound array derived from one field; the interplay of very different neighbouring bounds, zero bounds and escapes is not sampled.',
     [S2, S3, 'include/sz_compress_block_processing.hpp', 'include/sz_decompress_block_processing.hpp'],
     [('zero bound takes the escape path', 'include/sz_compress_block_processing.hpp'), ('per-element bound consumed in traversal order on both sides', S3)],
     ['sz_compress_2d_with_eb/sz_decompress_2d_with_eb'])
prop('P03', 'Absolute-bound vector-field compressors honour the user bound',
     'For every finite two-component field and every positive finite bound, each absolute-bound 2D critical-point compressor (single pass, its false-negative-relaxing form, and the interpolation-based one) followed by its decompressor returns both components of every point within the user bound of the original.',
     ['inputs', 'configurations'], 'all finite values, all positive bounds, all derived per-vertex bounds, shapes within the stated grid bounds, both precisions',
     'One sample field and one bound are tested for one of the three variants; the others have no test.',
     [C2, D2, CUH, 'include/sz3_utils.hpp'],
     [('derived bound is clamped to the user bound before quantisation', C2), ('verify after quantisation, otherwise store the pair exactly', C2)],
     ['sz_compress_cp_preserve_2d_online_abs', 'sz_compress_cp_preserve_2d_online_abs_relax_FN', 'sz3_compress_cp_preserve_2d_online_abs', 'sz_decompress_cp_preserve_2d_online', 'sz3_decompress_cp_preserve_2d_online'])
prop('P04', 'Relative-bound vector-field compressors honour the user bound',
     'For every finite two-component field and every relative bound below one, the relative-bound 2D critical-point compressors that work on the raw values (the single pass one and the two-phase one) followed by their decompressors return every component within bound times its magnitude of the original. '
     'In particular zeros come back as zero and no component changes sign.',
     ['inputs', 'configurations'], 'all finite values, all relative bounds in (0,1), all derived per-vertex bounds, shapes within the stated grid bounds, both precisions',
     'These entry points have no test at all.',
     [C2, D2, CUH], [('per-vertex relative bound times |value| is the quantiser bound', C2), ('escape when the verified error is not below the bound', C2)],
     ['sz_compress_cp_preserve_2d_online', 'sz_compress_cp_preserve_2d_offline', 'sz_decompress_cp_preserve_2d_online', 'sz_decompress_cp_preserve_2d_offline'])
prop('P05', 'Logarithmic-domain compressors keep signs, zeros and the log-domain bound',
     'For every finite two-component field, the logarithmic-domain 2D critical-point compressors (single pass, bilinear, and two-phase) followed by their decompressors return zero exactly where the original was zero, the original sign everywhere else, and a magnitude whose base-two logarithm is within log2(1 + relative bound) of the logarithm that was coded. '
     'This is for magnitudes of zero or from 2^-98 to the largest single-precision number and relative bounds up to one half; logarithms and errors are in single precision for single-precision data.',
     ['inputs', 'configurations'], 'all finite values, every relative bound in (0,1), all derived bounds, shapes within the stated grid bounds; the mathematical library is an arbitrary function constrained only by finiteness and range',
     'These entry points have no test at all.',
     [C2, BL, D2, CUH], [('sign bit-map', C2), ('zero marker below the smallest log value', C2), ('log-domain quantisation with verification', C2)],
     ['sz_compress_cp_preserve_2d_online_log', 'sz_compress_cp_preserve_2d_bilinear_online_log', 'sz_compress_cp_preserve_2d_offline_log', 'sz_decompress_cp_preserve_2d_online_log', 'sz_decompress_cp_preserve_2d_offline_log'])
prop('P07', 'Every vertex obeys the preservation limit of every incident triangle',
     'In the 2D critical-point compressors that code under preservation limits (single pass absolute, relative and logarithmic, interpolation-based, and the two two-phase ones), the decompressed error of a vertex is no larger than the limit the derivation gives for each of the (up to six) triangles that contain it (times the magnitude for the relative ones, log2(1 + limit) in the logarithmic ones). '
     'In the single-pass and interpolation-based ones the limit of a triangle is evaluated with bit for bit the value the decompressor will reproduce at each corner already coded and with the original at each corner not yet coded; in the two-phase ones with the originals. '
     'A vertex with a zero limit in some triangle, such as a corner of a triangle that contains a critical point, keeps its value.',
     ['inputs', 'configurations'], 'all finite values and all limits (the derivation is an arbitrary function of the six corner values), all triangles of the grids within bounds including borders and corners',
     'A missed triangle only matters when that triangle has the tightest limit; tests with one smooth field do not reach every triangle, border and level.',
     [C2], [('six cell offsets per vertex, skipped at borders', C2), ('minimum over triangles', C2)],
     ['decompressed values vs. limits recomputed for all incident triangles'])
prop('P08', 'Absolute preservation limits are sound',
     'If a triangle contains no critical point and only its last corner moves, each component by less than the absolute limit derived for it, then the moved triangle contains no critical point either; a triangle that contains a critical point gets limit zero.',
     ['inputs'], 'all real corner values and all real perturbations within the limit (exact real arithmetic; rounding is outside)',
     'The claim quantifies over six values and two perturbations; sampling does not find the thin regions where an expression is wrong.',
     [C2], [('ratio of determinant to coefficient sums', C2)], ['derive_cp_eb_for_positions_online_abs'])
prop('P09', 'Relative preservation limits are sound',
     'If only the last corner of a triangle moves, each component by less than the derived relative limit times its magnitude, then a critical point in the triangle is not lost and none is created. '
     'For triangles containing a critical point, the signs of the discriminant, trace and determinant that fix its type are kept as well.',
     ['inputs'], 'all real corner values and all real perturbations within the limit (exact real arithmetic)',
     'Same: the claim ranges over a continuum of triangles and perturbations.',
     [C2], [('ratio of determinant to coefficient magnitudes', C2), ('type limits', C2)], ['derive_cp_eb_for_positions_online'])
prop('P10', 'Two-phase preservation limits are sound under joint perturbation',
     'If all three corners of a triangle move at once, each component by less than the two-phase relative limit times its magnitude, a critical point in the triangle is not lost and none is created (triangles with non-zero orientation determinants).',
     ['inputs'], 'all real corner values and all joint real perturbations within the limit (exact real arithmetic)',
     'The two-phase compressors have no test; the claim ranges over twelve reals.',
     [C2], [('square-root ratio of positive and negative terms', C2)], ['max_eb_to_keep_position_and_type'])
prop('P12', 'Entropy coder round trip',
     'For every sequence of symbols below the declared alphabet size, decoding what the entropy coder wrote yields the same sequence, the decoder consumes exactly the bytes the encoder produced, and the codes are prefix free. '
     'The serialised code tree is rebuilt identically for every tree size class.',
     ['inputs', 'configurations'], 'all symbol sequences within the stated lengths and alphabets, all leaf symbols for the tree shapes of every width class',
     'Tests feed a handful of skewed histograms; tie patterns, one-symbol streams, code-word/byte alignment and the 1/2/4-byte tree formats have gaps.',
     ['src/sz_huffman.cpp', 'include/sz_huffman.hpp', CU, DU],
     [('priority queue tree build', 'src/sz_huffman.cpp'), ('bit packing through 64-bit words', 'src/sz_huffman.cpp'), ('tree serialisation in three widths', 'src/sz_huffman.cpp')],
     ['Huffman_encode_tree_and_data/Huffman_decode_tree_and_data'])
prop('P13', 'Bit-map packing round trip',
     'Packing an array of 0/1 flags and unpacking it yields the same flags for every length from one up, both sides advance by the same number of bytes, which is the length divided by eight rounded up, and nothing beyond that is read or written.',
     ['inputs'], 'all flag arrays, all lengths within the stated bound',
     'Tests pack block indicators of a few sizes; the partial last byte is hit for few lengths.',
     [CU, DU, CUH], [('shift-and-or packing', CU), ('switch over remainders', DU)], ['convertIntArray2ByteArray_fast_1b_to_result_sz/convertByteArray2IntArray_fast_1b_sz'])
prop('P14', 'Quantised error bounds never grow and mean the same on both sides',
     'Quantising a bound never increases it; the decompressor recomputes the identical bound from the stored index; and index zero is used exactly when the bound in force is zero (lossless). '
     'This is about the exponential quantiser that all critical-point compressors use.',
     ['inputs', 'configurations'], 'all non-negative bounds, all bases and thresholds in use; pow and log2 are arbitrary functions for the exponential form',
     'Rounding of log2 at exact powers and bounds just above the threshold are single points tests do not hit.',
     [CUH, D2, C2], [('index = floor(log(eb/threshold))', CUH), ('index 0 treated as lossless by decoders', D2)], ['eb_exponential_quantize', 'decoder bound table'])
prop('P15', 'Compressors stay inside their buffers and report the exact stream size',
     'For every input each 2D and 3D compressor writes only inside memory it allocated, even when nothing is predictable and the entropy coder does its worst; the reported compressed size is exactly the number of bytes the decompressor needs; and the decompressor reads nothing beyond it.',
     ['inputs', 'configurations'], 'all finite values including fully unpredictable data, all shapes within the stated bounds, entropy coder replaced by its worst case size',
     'Tests use compressible data; several existing tests already overflow at small sizes but go unnoticed without a sanitiser.',
     [S2, S3, C2, D2, BL, 'src/sz_compress_pwr.cpp', 'include/sz3_utils.hpp', CU], [('output buffer sizing', S2), ('compressed_size from the write pointer', C2)],
     ['every public compress/decompress pair'])
prop('P16', 'Interpolation traversal visits every grid point exactly once',
     'For every grid shape the interpolation-based compressor codes every point exactly once, in an order in which every prediction uses only points already coded, and the decompressor recovers the points in the same order from the same neighbours.',
     ['inputs', 'configurations'], 'all grid shapes within the stated bound (fully explored), all data',
     'Two fixed grids are tested; odd/even and very elongated shapes take different branches.',
     [C2, D2, 'include/sz3_utils.hpp'], [('stride-halving loops with border cases', C2), ('mirror loops', D2)],
     ['sz3_compress_cp_preserve_2d_online_abs/sz3_decompress_cp_preserve_2d_online'])
prop('P17', 'Plane-fit coefficients survive coding and keep both sides in step',
     'For every sequence of fitted blocks, decoding the coefficient stream gives bit for bit the coefficients that the compressor predicted with, including coefficients stored as escapes, and consumes exactly what was written.',
     ['inputs', 'histories', 'configurations'], 'all coefficient values, all block sequences within the stated bound, 2D and 3D',
     'The coefficient stream is only exercised where plane fits win, on a few fields; escapes in it are not.',
     ['include/sz_regression_utils.hpp', 'include/sz_compress_block_processing.hpp', CU, DU], [('delta to previous block coefficients, verify, escape', 'include/sz_compress_block_processing.hpp'), ('mirror decoder', DU)],
     ['compress_regression_coefficient_*/decode_regression_coefficients*'])
prop('P18', 'Quantisation-interval selection terminates with a usable capacity',
     'For every field, shape and bound, choosing the number of quantisation intervals and the mean candidate terminates, reads only inside the field, and yields an even power-of-two capacity of at least 32 and at most the fixed maximum.',
     ['inputs', 'configurations'], 'all finite values, all positive bounds, all shapes within the stated bound',
     'Tests use one size; sampling strides degenerate for thin or tiny shapes.',
     ['include/sz_optimize_quant_intervals.hpp', CU], [('sampling stride', 'include/sz_optimize_quant_intervals.hpp'), ('round up to power of two', CU)],
     ['optimize_quant_invl_3d', 'sz_compress_3d'])
prop('P20', 'Compressing does not modify the caller\'s data',
     'No compressor changes the arrays it is given: input fields and bound arrays are bit for bit the same after the call.',
     ['inputs', 'configurations'], 'all finite values, all shapes within the stated bounds, every public compressor',
     'Single-pass compressors overwrite a work copy as they go; an aliasing slip would only show where a decoded value differs from the original.',
     [S2, C2, BL, 'src/sz_compress_pwr.cpp'], [('work copies', C2)], ['input arrays after the call'])
prop('P21', 'Lossless wrapper sizes its buffers for every length',
     'For every input length the lossless wrapper gives the back end an output buffer at least as large as its documented worst case, passes pointer and length through unchanged, and returns exactly the size the back end reported; decompression allocates exactly the caller-stated size and reports the back end\'s size. The documented worst case is that of the zstd back end.',
     ['inputs', 'configurations'], 'all lengths from 1 to 2^32, both entry points; the back end is a contract stub',
     'Round trips of a few sizes do not decide a capacity inequality for all lengths.',
     ['src/sz_lossless.cpp'], [('1.2x or at least 200 bytes', 'src/sz_lossless.cpp')], ['sz_lossless_compress', 'sz_lossless_decompress'])
prop('P22', '3D vector-field compressors and decompressors agree',
     'For every finite three-component field the absolute-bound 3D critical-point compressor followed by its decompressor returns every component within the bound, the logarithmic 3D one returns signs and the coded log values, and both sides agree on every decoded value used as a neighbour.',
     ['inputs', 'configurations'], 'all finite values, all derived limits and critical-point verdicts (contract stub for the missing topology library), shapes within the stated bounds',
     'The 3D encoder is not even built here because its topology library is missing; nothing tests it.',
     [C3, D3], [('triple escape when any component fails', C3), ('mirror decoder', D3)], ['sz_compress_cp_preserve_3d_online_abs/sz_decompress_cp_preserve_3d_online_abs', 'sz_compress_cp_preserve_3d_online_log/sz_decompress_cp_preserve_3d_online_log'])
prop('P24', 'Relaxed variant keeps every critical-point cell exact and admits no new one',
     'In the false-negative-relaxing compressor every corner of a triangle detected as containing a critical point is reproduced bit for bit, and a vertex is coded lossily only if its decoded value, together with the values the other corners have at that time, leaves every incident triangle without a detected critical point.',
     ['inputs', 'configurations'], 'all finite values, all detection verdicts (the detector is an arbitrary function of the corner values), grids within the stated bounds',
     'This entry point has no test.',
     [C2], [('exclusion flags, verification with halved bound on failure', C2)], ['sz_compress_cp_preserve_2d_online_abs_relax_FN'])
prop('P25', 'Variable-bound quantiser and its saved state round trip',
     'For every value, prediction and non-negative bound, recovering from the produced index gives bit for bit the value the quantiser left in place, which is within the bound of the original (exactly the original when escaped or when the bound is zero); indices stay below the declared capacity; and saving then loading restores radius and escapes exactly.',
     ['inputs', 'histories'], 'all finite values and bounds, both precisions, sequences of escapes within the stated bound',
     'Boundary indices and overflowing quotients are single points.',
     ['include/sz3_utils.hpp', 'include/sz_def.hpp'], [('quantize_and_overwrite / recover', 'include/sz3_utils.hpp'), ('save/load', 'include/sz3_utils.hpp')], ['VariableEBLinearQuantizer'])
prop('P26', 'Pointwise-relative 2D compressors keep signs, zeros and the log-domain bound',
     'For every finite field and every relative bound, the pointwise-relative 2D compressors followed by their decompressors return zeros as zeros, keep every sign, and reproduce the coded base-two logarithm of each magnitude within the log-domain bound: log2(1 + bound) for the uniform form, the per-element log bounds the compressor reports for the per-element form.',
     ['inputs', 'configurations'], 'all finite values, uniform and per-element relative bounds, shapes within the stated bounds; the mathematical library is an arbitrary function constrained by range',
     'One test field without zeros or mixed scales is used; the per-element form has no test.',
     ['src/sz_compress_pwr.cpp', 'src/sz_decompress_pwr.cpp'], [('log transform with zero marker', 'src/sz_compress_pwr.cpp'), ('sign bit-map', 'src/sz_decompress_pwr.cpp')],
     ['sz_compress_2d_pwr/sz_decompress_2d_pwr', 'sz_compress_2d_pwr_with_eb/sz_decompress_2d_pwr_with_eb'])
prop('P29', 'Bilinear compressor keeps the critical points of every cell',
     'In the bilinear 2D critical-point compressor, coding a vertex leaves, for every grid cell that contains it, the number of critical points that the bilinear extraction finds and the verdict of the verification of their types unchanged, with the corners already coded at their decoded values and the others at their originals; a vertex for which this fails is stored exactly.',
     ['inputs', 'configurations'], 'all finite values; extraction and verification are arbitrary functions of the corner values; all cells of the grids within the stated bounds',
     'This entry point has no test.',
     [BL], [('recompute the cells around a vertex with its decoded value and escape on a mismatch', BL)], ['sz_compress_cp_preserve_2d_bilinear_online_log'])
prop('P27', 'End-to-end relative accuracy through the logarithm',
     'A value coded in the log domain with relative bound e comes back within e times its magnitude, including the rounding of the base-two logarithm and exponential of the platform.',
     ['inputs'], 'all finite values and all relative bounds', 'Accuracy of transcendental functions cannot be sampled over the whole range.',
     [C2, BL, 'src/sz_compress_pwr.cpp'], [('log2/exp2 transform', C2)], ['decompressed value'])
prop('P28', 'Raw field files round trip',
     'Writing a field to a file and reading it back gives the same values and count.', ['inputs', 'fault_sequences'], 'all fields, all short writes',
     'Tests use scratch files that always succeed.', ['include/utils.hpp'], [('ifstream/ofstream read/write', 'include/utils.hpp')], ['readfile/writefile'])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p) + '\n')
print(len(P))
