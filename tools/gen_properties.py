#!/usr/bin/env python3
"""Writes properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe or []
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "Forward complex FFT computes the DFT for every length and signal",
  "For every non-empty complex signal of any length (power of two, composite or prime) in single or double precision, the forward transform returns the discrete Fourier transform X[k] = sum x[n] exp(-2*pi*i*k*n/N), accurate to the rounding level of the element type. In builds without the standard library the same holds for power-of-two lengths, and every other length is refused with the documented error. The call never panics and reports success exactly when the length is supported.",
  ["inputs", "configurations"],
  "all lengths N >= 1 (explored exhaustively up to several hundred and by structured sampling to 2^18), all finite signals, f32 and f64, default / all-feature / sse / no_std builds",
  "Unit tests sample a handful of lengths (mostly 4..64 and a few powers of two) with fixed or tiny random signals in f32, mostly through round trips that cannot see a consistently wrong transform; large non-power-of-two and f64 accuracy are not reached.",
  ["src/fft.rs", "src/fft_kernels.rs", "src/num.rs"],
  [("small-size kernels for 2, 4, 8, 16", "src/fft_kernels.rs fft2/fft4/fft8/fft16"),
   ("Stockham autosort FFT on split buffers", "src/fft.rs ScalarFftImpl::stockham_fft_with_threshold, fft_split_simd"),
   ("Bluestein chirp convolution", "src/fft.rs FftPlanner::get_bluestein, FftImpl::fft"),
   ("twiddle tables", "src/fft.rs FftPlanner::get_twiddles, build.rs")],
  observe=["FftImpl::fft on ScalarFftImpl<f32|f64>", "ScalarFftImpl::stockham_fft", "fft_vec"])

p("C02", "The inverse transform is the exact inverse of the forward transform",
  "For every length and signal, the inverse transform returns x[n] = (1/N) sum X[k] exp(+2*pi*i*k*n/N), so forward-then-inverse and inverse-then-forward both return the original signal to rounding accuracy. The transform pair is linear, preserves energy (Parseval), and obeys the circular shift and conjugate-symmetry theorems at every size, including sizes far beyond what a direct summation can check.",
  ["inputs", "configurations"],
  "all lengths N >= 1 up to 2^20, all finite signals, both precisions, every build configuration",
  "Round-trip tests exist for a few sizes between 2 and 32 and one or two non-power-of-two lengths; large sizes, both orders and the algebraic laws are not covered.",
  ["src/fft.rs", "src/num.rs"],
  [("conjugate-forward-conjugate-scale inverse", "src/fft.rs FftImpl::ifft"),
   ("parallel conjugation and scaling for f32", "src/fft.rs ifft under feature parallel")],
  observe=["FftImpl::ifft", "ifft_vec"])

p("C03", "Reusing one FFT instance never changes any result",
  "For any history of transforms of arbitrary lengths, directions, layouts and strategies (including calls that fail) on one transform instance or on one built from an already-used planner, every call returns the same result a brand-new instance would return. Cached tables and scratch buffers left by earlier calls are never observable.",
  ["histories", "inputs"],
  "all sequences of operations on one instance, with any mixture of lengths (growing and shrinking, power of two and not), f32 and f64, forward/inverse/strided/split/strategy calls and failing calls in between",
  "Existing tests create a fresh instance per transform or reuse one for a single length; no test runs a smaller transform after a larger one on the same instance.",
  ["src/fft.rs"],
  [("take/put-back of scratch vectors", "src/fft.rs stockham_fft_with_threshold, FftImpl::fft (Bluestein), fft_strided_alloc"),
   ("twiddle and chirp caches keyed by length", "src/fft.rs FftPlanner::get_twiddles, get_bluestein")],
  state=[("planner scratch", "scratch, bluestein_scratch, split_re, split_im, split_scratch_* vectors that only grow", "src/fft.rs FftPlanner"),
         ("planner caches", "twiddle and Bluestein tables keyed by length", "src/fft.rs FftPlanner")],
  observe=["results of every FftImpl method of a long-lived ScalarFftImpl"])

p("C04", "Every strategy and plan computes the same transform",
  "For every length, precision and direction, choosing a strategy explicitly (radix-2, radix-4, split-radix, automatic), going through a pre-built plan, or calling a named radix routine (with or without caller-supplied twiddles) yields the same transform as the default path. A plan refuses data whose length differs from the planned one and leaves that data unchanged.",
  ["inputs", "configurations"],
  "all lengths (powers of two, powers of four, others), all strategies, all plan methods (in place, out of place, split, complex vector), f32 and f64",
  "Tests run strategies on one length (16) and only through forward/inverse round trips, which a wrong but invertible permutation passes; plans are tested at length 4 or 8.",
  ["src/fft.rs"],
  [("strategy dispatch", "src/fft.rs fft_with_strategy, FftPlan::fft"),
   ("radix-4 routine", "src/fft.rs fft_radix4"),
   ("mixed radix", "src/fft.rs fft_mixed_radix, factorize, butterfly4/8")],
  observe=["FftImpl::fft_with_strategy", "FftPlan::{fft,ifft,fft_out_of_place,ifft_out_of_place,fft_split,ifft_split}",
           "ScalarFftImpl::{fft_radix4,fft_radix2_with_twiddles,fft_radix4_with_twiddles,fft_mixed_radix,fft_mixed_radix_with_twiddles}"])

p("C05", "All data layouts give the same transform and touch only their own elements",
  "Out-of-place, strided, strided-out-of-place, split real/imaginary, split-view and structure-of-arrays calls return exactly what the in-place interleaved transform returns on the gathered elements. Elements between strided samples, out-of-place inputs and anything outside the addressed region are left bit-for-bit unchanged. Layout conversions between interleaved and split storage are lossless.",
  ["inputs"],
  "all lengths, strides, extra tail elements, destination strides, f32/f64, forward and inverse",
  "Layout tests use one or two tiny sizes with a single stride and do not check the elements that must stay untouched.",
  ["src/fft.rs", "src/num.rs"],
  [("gather/transform/scatter", "src/fft.rs fft_strided, ifft_strided, *_out_of_place_strided, *_strided_alloc"),
   ("split transforms", "src/fft.rs fft_split, ifft_split, fft_split_complex, fft_complex_vec"),
   ("conversions", "src/num.rs SplitComplex, ComplexVec, copy_from_complex, copy_to_complex")],
  observe=["FftImpl layout methods", "free functions fft_split/ifft_split/fft_split_complex/fft_complex_vec"])

p("C06", "Batch, multi-channel, parallel and tuned execution equal one-by-one transforms",
  "Transforming a batch or a set of channels gives, per item, exactly what transforming the items one by one gives, whatever mixture of lengths the batch holds, and stops with the item's error when one is invalid. The parallel helpers, any setting of the parallel tuning knobs in any order, and concurrent use from several threads never change a numerical result.",
  ["inputs", "histories", "configurations"],
  "batches of arbitrary item lengths and precisions; any sequence of tuning calls interleaved with transforms; several threads transforming at once",
  "Batch tests use two items of equal length 2; tuning tests look at the chosen threshold, never at the transformed data under different settings.",
  ["src/fft.rs"],
  [("batch helpers", "src/fft.rs batch, batch_inverse, multi_channel, multi_channel_inverse"),
   ("parallel entry points and thresholds", "src/fft.rs fft_parallel, ifft_parallel, should_parallelize_fft, set_parallel_fft_*")],
  state=[("tuning overrides", "process-wide atomics and cached environment values", "src/fft.rs PARALLEL_FFT_*_OVERRIDE")],
  observe=["results of batch/multi_channel/fft_parallel/ifft_parallel under every tuning history"])

p("C07", "Invalid FFT arguments are refused with the documented error, without damage",
  "Every call of the complex, real and multidimensional FFT interfaces whose argument shapes are invalid (empty data, zero stride, too short or mismatched buffers, odd real length, length not equal to the plan's) returns the documented error value and never panics. Data that the caller passed in is unchanged after such a refusal. (In builds without the standard library a refused length may already have overwritten a destination buffer that is only written, never an input.)",
  ["inputs"],
  "all combinations of buffer lengths 0..64, strides 0..6, hop, shapes and both precisions, over every fallible FFT entry point",
  "Tests assert one error example per function; combinations (zero length with a stride, divisible but mismatched lengths, and data preservation on refusal) are not explored.",
  ["src/fft.rs", "src/rfft.rs", "src/ndfft.rs"],
  [("argument validation", "src/fft.rs FftError checks; src/rfft.rs length checks; src/ndfft.rs shape checks")],
  observe=["Result values of FftImpl, FftPlan, RealFftImpl, RfftPlanner, fft2d_inplace, fft3d_inplace, stack helpers"])

p("C08", "Every build configuration and backend computes the same transforms",
  "Every combination of the crate's features compiles, and the same call with the same input gives the same result, to rounding accuracy, in every supported feature combination: scalar, parallel, SIMD-enabled, SSE-only, precomputed or compile-time tables, structure-of-arrays, wider target instruction sets, and (for the lengths it supports) no_std. The automatically selected backend accepts every length the scalar backend accepts, in particular length one.",
  ["configurations", "inputs"],
  "a corpus of generated calls of every transform family executed in each build configuration and compared pairwise and with a reference; all lengths for the auto-selected backend",
  "Tests compile one configuration at a time and never compare the numbers of two configurations; the auto-selected backend is tested on two or three lengths.",
  ["src/fft.rs", "src/rfft.rs", "build.rs", "src/lib.rs"],
  [("backend selection", "src/fft.rs new_fft_impl, SimdFftX86_64Impl"),
   ("embedded twiddles", "build.rs, src/fft.rs lookup_f32/lookup_f64"),
   ("AVX/SSE real FFT kernels", "src/rfft.rs")],
  observe=["new_fft_impl()", "SimdFftX86_64Impl", "digest of outputs per configuration"])

p("C09", "Allocation-free (stack) FFT and real FFT equal the heap versions",
  "For every supported fixed size, the stack-only complex and real transforms and their inverses return the discrete Fourier transform (or its inverse) of the buffer, agreeing with the heap-based versions to rounding accuracy, and round-trip. Unsupported sizes are refused with the documented error instead of being transformed wrongly.",
  ["inputs"],
  "all compile-time sizes 1..64 and powers of two to 4096, all finite signals",
  "Stack tests use two sizes (4 or 8) and a round trip.",
  ["src/fft.rs", "src/rfft.rs"],
  [("in-place bit-reversal radix-2", "src/fft.rs fft_inplace_stack, ifft_inplace_stack"),
   ("stack real FFT", "src/rfft.rs rfft_stack, irfft_stack")],
  observe=["fft_inplace_stack", "ifft_inplace_stack", "rfft_stack", "irfft_stack"])

p("C10", "Real FFT returns the half spectrum and its inverse restores the signal",
  "For every even length, the real transform of a real signal returns bins 0..N/2 of its DFT, and the inverse real transform of any such half spectrum returns the real signal whose DFT it is, so the pair round-trips. This holds for the planner, the trait methods with and without scratch, and the packed helpers, for any reuse history of one planner, in both precisions.",
  ["inputs", "histories", "configurations"],
  "all even lengths (exhaustive to several hundred, sampled to 2^16), all finite signals, any sequence of lengths on one planner, SIMD and scalar builds",
  "Tests compare a few power-of-two lengths with the complex FFT in f32; odd half-lengths, f64, planner reuse across lengths and packed forms are thinly covered.",
  ["src/rfft.rs", "src/fft.rs"],
  [("pack/half-size FFT/post-process", "src/rfft.rs rfft_direct/rfft_packed/irfft_packed and AVX variants"),
   ("twiddle caches", "src/rfft.rs RfftPlanner::get_twiddles/get_pack_twiddles")],
  state=[("planner caches and scratch", "per-length tables and reusable scratch", "src/rfft.rs RfftPlanner")],
  observe=["RfftPlanner::{rfft,irfft,rfft_with_scratch,irfft_with_scratch}", "RealFftImpl", "rfft_packed/irfft_packed"])

p("C11", "Twiddle tables hold the exact roots of unity for every size",
  "For every size, the twiddle tables handed out by the planners and buffers contain exp(-2*pi*i*k/N) in order, to the rounding level of the element type, independent of which sizes were requested before and of whether tables are precomputed at build time. Repeated requests return identical tables.",
  ["inputs", "histories", "configurations"],
  "all sizes 2..4096 exhaustively and powers of two to 2^20, f32 and f64, any request order, with and without embedded tables",
  "Twiddle tests check a few sizes in f32 with loose tolerances.",
  ["src/fft.rs", "src/rfft.rs", "build.rs"],
  [("recurrence-generated tables", "src/fft.rs get_twiddles; src/rfft.rs build_twiddle_table"),
   ("build-time tables", "build.rs")],
  observe=["FftPlanner::get_twiddles", "FftPlanner::get_bluestein", "RfftPlanner::get_twiddles/get_pack_twiddles", "TwiddleFactorBuffer::get"])

p("C12", "2-D and 3-D FFTs are the separable DFT of the flattened array",
  "For every shape, the in-place 2-D and 3-D transforms of row-major data equal the multidimensional DFT (independent of dimension order), for square, rectangular, degenerate (size-one) and non-power-of-two shapes. Flattening nested arrays keeps row-major order and reports the true dimensions, and inconsistent shapes are refused with an error instead of being transformed.",
  ["inputs"],
  "all shapes with up to a few thousand elements, any signal, any transform implementation, reused scratch and instance",
  "Tests cover 2x2, one 4x4 and one 2x2x2 example plus a couple of error cases.",
  ["src/ndfft.rs"],
  [("row then column passes", "src/ndfft.rs fft2d_inplace"), ("tube/column/row passes", "src/ndfft.rs fft3d_inplace"),
   ("shape validation", "src/ndfft.rs flatten_2d, flatten_3d and dimension checks")],
  observe=["fft2d_inplace", "fft3d_inplace", "flatten_2d", "flatten_3d"])

p("C13", "DCT types I-IV match their definitions and inverse relations",
  "For every length and signal the discrete cosine transforms of types I to IV equal their defining cosine sums in the library's documented scaling. Consequently type III inverts type II, and types I and IV invert themselves, up to the fixed scale factor; batch, multi-channel and stack variants agree with the single-signal function.",
  ["inputs"],
  "all lengths 0..256 (1 included), all finite signals, all variants, both the direct and table-driven paths",
  "Tests check one or two signals of length 4 to 8 with round trips.",
  ["src/dct.rs"],
  [("cosine sums", "src/dct.rs dct1..dct4, dct1_inplace_stack, dct2_inplace_stack"), ("batch", "src/dct.rs batch_i..iv, multi_channel_i..iv")],
  observe=["dct1", "dct2", "dct3", "dct4", "batch and stack variants"])

p("C14", "DST types I-IV match their definitions and inverse relations",
  "For every length and signal the discrete sine transforms of types I to IV equal their defining sine sums in the library's scaling. Consequently type III inverts type II, and types I and IV invert themselves, up to the fixed scale factor; planned, batch, multi-channel and stack variants agree with the single-signal function.",
  ["inputs", "histories"],
  "all lengths 0..256, all finite signals, f32 and f64 planners, any reuse order of one planner",
  "Tests compare heap with stack on one signal, or check only that a result has the right length; nothing compares types III and IV with a definition over many lengths.",
  ["src/dst.rs"],
  [("sine sums", "src/dst.rs dst1..dst4"), ("planner tables", "src/dst.rs DstPlanner"), ("FFT-based stack versions", "src/dst.rs dst2_inplace_stack_fft, dst3_inplace_stack_fft")],
  state=[("planner tables", "per-length sine tables and scratch", "src/dst.rs DstPlanner")],
  observe=["dst1..dst4", "DstPlanner", "stack variants", "batch variants"])

p("C15", "Planned DCT-II agrees with the direct DCT-II for every reuse history",
  "A cosine-transform plan obtained for any length gives, on every signal of that length, the same result as the direct transform, regardless of which other lengths were planned before or how often the plan ran. Applying it never depends on leftover contents of caller-supplied or internal buffers.",
  ["inputs", "histories"],
  "any sequence of lengths 1..300 (odd, even, prime) and signals on one planner, both precisions where offered",
  "The planner is tested once with one length-4 or length-8 signal.",
  ["src/dct.rs", "src/rfft.rs"],
  [("even-extension through a real FFT", "src/dct.rs DctPlanner::plan_dct2 and the table-driven path")],
  state=[("plan cache", "cosine/sine tables per length and the real-FFT planner", "src/dct.rs DctPlanner")],
  observe=["DctPlanner::plan_dct2 and the transform it drives"])

p("C16", "The Hartley transform matches its definition and inverts itself",
  "For every length and real signal the Hartley transform returns sum x[n] (cos + sin)(2*pi*k*n/N), equals the real minus the imaginary part of the signal's DFT, and applied twice returns N times the signal. Batch and multi-channel forms give the same result per signal.",
  ["inputs"],
  "all lengths 0..512, all finite signals, batches of mixed lengths",
  "One length-4 example and a batch of two.",
  ["src/hartley.rs"],
  [("cas sum", "src/hartley.rs dht")],
  observe=["dht", "batch", "multi_channel"])

p("C17", "STFT frames are the DFTs of the windowed segments, however they are produced",
  "For every signal, window and positive hop, frame m of the short-time transform is the DFT of the window times the signal segment starting at m*hop, zero-padded past the end, with exactly one frame per hop start inside the signal. The whole-signal call, the pull-based stream, the per-frame helper and the parallel version produce the same frames, whatever the frame buffers held before.",
  ["inputs", "histories"],
  "all signal lengths 0..400, window lengths 1..64 (any, not only powers of two), hops 1..80 (smaller, equal, larger than the window), reused dirty frame buffers",
  "Tests use one signal of length 8 or 10 with a window of 4 and hop 2; hops that do not divide the length, hop larger than the window and non-power-of-two windows are not covered.",
  ["src/stft.rs"],
  [("framing loop", "src/stft.rs stft, parallel, frame"), ("stream position", "src/stft.rs StftStream::next_frame")],
  state=[("stream position", "next start offset and window buffers", "src/stft.rs StftStream")],
  observe=["stft", "StftStream", "frame", "parallel"])

p("C18", "Overlap-add ISTFT restores every sample the windows cover",
  "For every signal, window and hop, transforming and inverse-transforming returns the original signal at every sample whose summed squared window weight is not negligible, with the output depending only on the frames, never on what the caller's output or scratch buffers held. The parallel inverse and the per-frame helper agree with the sequential inverse, and mismatched buffer lengths or a zero hop are refused with an error, not a panic.",
  ["inputs", "histories"],
  "all signal lengths 1..400, windows of any length and shape, hops smaller than, equal to and larger than the window, output longer and shorter than the signal, dirty buffers",
  "Tests reconstruct one or two length-8 signals with zeroed buffers.",
  ["src/stft.rs"],
  [("overlap-add and normalisation", "src/stft.rs istft, inverse_parallel, inverse_frame")],
  observe=["istft", "inverse_parallel", "inverse_frame"])

p("C19", "Streaming ISTFT emits the same samples as the offline inverse",
  "For any number of frames pushed and any window and hop, the concatenation of the chunks returned by the streaming inverse followed by its flushed tail equals the offline inverse of the same frames; every push returns exactly one hop of samples and the flush exactly the remaining tail, once. Rejected pushes do not disturb the stream, and no legal push sequence panics.",
  ["histories", "inputs"],
  "all push/flush histories (0..60 frames, wrong-length frames in between, repeated flush), window lengths 1..48, hops 1..64",
  "A single history of four frames with window 4 and hop 2 is tested.",
  ["src/stft.rs"],
  [("ring of overlap-add and norm buffers", "src/stft.rs IstftStream::push_frame, flush")],
  state=[("overlap-add state", "buffer, norm_buf, buf_pos, out_pos, frame_count", "src/stft.rs IstftStream")],
  observe=["IstftStream::push_frame", "IstftStream::flush"])

p("C20", "Haar analysis and synthesis reconstruct perfectly at every level",
  "For every signal, the Haar forward transform yields pairwise averages and half-differences, and the inverse restores every sample to rounding accuracy; multi-level decomposition with any number of levels restores all original samples, with odd intermediate lengths padded by repeating the last sample. Batch, multi-level-batch and stack forms equal the single-signal form.",
  ["inputs"],
  "all lengths 0..300, levels 0..10, batches of mixed lengths, all finite signals",
  "Round trips on one length-4 and one length-8 signal.",
  ["src/wavelet.rs"],
  [("pairwise average/difference", "src/wavelet.rs haar_forward, haar_inverse"), ("level recursion and padding", "src/wavelet.rs multi_level_forward, multi_level_inverse")],
  observe=["haar_*", "batch_*", "multi_level_*", "haar_*_inplace_stack"])

p("C21", "Daubechies, Symlet and Coiflet filter banks invert away from the borders",
  "For every signal, the single-level Daubechies-2/4, Symlet-4 and Coiflet-1 analyses are the mirrored-border filterings with that family's orthonormal filter pair, and the matching synthesis reconstructs every sample that lies further from the borders than the filter is long. Constant signals have vanishing detail coefficients, the transforms are linear, and batch and multi-level forms agree with repeated single-level calls.",
  ["inputs"],
  "all even lengths 2..256 for each family, all finite signals, levels 0..5",
  "Tests only check output lengths for three of the families and a very loose error bound for the fourth, so a bank that does not invert passes.",
  ["src/wavelet.rs"],
  [("analysis filters with reflection", "src/wavelet.rs db2/db4/sym4/coif1_forward"), ("synthesis filters", "src/wavelet.rs db2/db4/sym4/coif1_inverse")],
  observe=["db2_*, db4_*, sym4_*, coif1_* single, batch and multi-level functions"])

p("C22", "Window functions follow their formulas for every length and parameter",
  "For every length and finite parameter, each window generator returns exactly that many finite coefficients following its published formula (periodic Hann/Hamming/Blackman, symmetric Kaiser, Tukey, Bartlett, Bohman, Nuttall), bounded by one (to rounding) and symmetric in the appropriate sense. The stack variants equal the heap variants, and degenerate lengths or parameters neither panic nor produce NaN.",
  ["inputs"],
  "lengths to 200,000, Kaiser beta of any finite size, Tukey alpha including 0, 1 and out-of-range values",
  "Tests check end points or lengths of one or two windows of length 4 to 8.",
  ["src/window.rs", "src/window_more.rs"],
  [("formulas", "src/window.rs, src/window_more.rs"), ("Bessel series", "src/window.rs kaiser")],
  observe=["hann, hamming, blackman, kaiser, tukey, bartlett, bohman, nuttall, *_inplace_stack"])

p("C23", "The analytic signal keeps the input and has no negative frequencies",
  "For every real signal, the Hilbert analytic signal has the input as its real part, has (to rounding) no energy in negative-frequency bins, and doubles the positive ones. Invalid lengths are refused with the documented error.",
  ["inputs"],
  "all lengths 0..512 (odd, even, prime), all finite signals",
  "One or two short signals.",
  ["src/hilbert.rs"],
  [("spectrum masking", "src/hilbert.rs hilbert_analytic")],
  observe=["hilbert_analytic"])

p("C24", "Cepstrum, mel filterbank and MFCC follow their definitions",
  "For every frame and parameter set, the real cepstrum is the inverse DFT of the log magnitude spectrum, the mel filterbank consists of non-negative triangles of the requested shape peaking at increasing mel-spaced bins, and the MFCCs are the DCT-II of the log mel energies truncated to the requested count. Batch results equal single-frame results, and all outputs are finite for every frame whose squared magnitudes fit the element type, including silence.",
  ["inputs"],
  "frame lengths 1..256, filter counts 1..40, coefficient counts, sample rates, silence and extreme amplitudes",
  "Tests check output lengths and one small frame.",
  ["src/cepstrum.rs"],
  [("log spectrum inverse", "src/cepstrum.rs real_cepstrum"), ("triangles", "src/cepstrum.rs mel_filterbank"), ("MFCC", "src/cepstrum.rs mfcc, mfcc_batch")],
  observe=["real_cepstrum", "mel_filterbank", "mfcc", "mfcc_batch"])

p("C25", "Chirp-Z and Goertzel evaluate the z-transform at the requested points",
  "For every signal, the chirp-Z transform returns the z-transform sum of the signal, evaluated as documented at each of the m requested points of the spiral given by a and w (a not zero), and coincides with DFT bins when the parameters describe the unit circle. The Goertzel detector returns the magnitude of the DFT bin that the requested frequency falls into (rounded down). Invalid input (no samples, a sample rate that is not positive, a frequency that is not finite) is refused with an error.",
  ["inputs"],
  "chirp-Z lengths to 400 with up to 200 points, w and a on, inside and outside the unit circle; Goertzel lengths to 40,000, bins below, at and above the sample rate",
  "One or two signals of length 4 to 8.",
  ["src/czt.rs", "src/goertzel.rs"],
  [("direct evaluation", "src/czt.rs czt_f32"), ("second-order recurrence", "src/goertzel.rs goertzel_f32")],
  observe=["czt_f32", "goertzel_f32"])

p("C26", "Spectrogram scaling and colouring are total, bounded and monotone",
  "For every signal, dynamic range and colormap, magnitude frames equal the magnitudes of the windowed DFTs up to the Nyquist bin, decibel scaling maps into [0,1] monotonically with the peak at 1 and the floor at 0, colours come from the chosen map with 16-bit and 8-bit versions consistent, and log-frequency bin mapping is monotone, stays in range and reaches both ends. No finite input with a positive dynamic range panics or yields NaN.",
  ["inputs"],
  "all signals incl. silence, window/hop, floor values, colormap names, bin counts and heights",
  "Tests check a handful of fixed values per helper.",
  ["src/visual/spectrogram.rs"],
  [("magnitudes", "stft_magnitudes"), ("dB scaling", "magnitude_to_db, db_scale"), ("colour lookup", "map_color_*, color_from_magnitude_*"), ("log bins", "map_bin_to_pixel, log_scale_bins")],
  observe=["public functions of visual::spectrogram"])

p("C27", "The song index identifies content by hash and stays consistent with the folder",
  "For any history of adding, renaming, copying, replacing and deleting audio files and of indexing and identifying them, identifying a path returns a match exactly when the index says so: by remembered name first and otherwise by content, with equal content always mapping to the same identity and different content never being confused. Missing or unreadable files yield an error or no match, never a panic or a corrupted index.",
  ["histories", "inputs"],
  "all operation sequences over a small set of names, directories and contents",
  "Tests check one indexing and one lookup each.",
  ["src/media/index.rs"],
  [("name and hash maps", "src/media/index.rs SongIndex")],
  state=[("index maps", "name -> id and content hash -> id", "src/media/index.rs SongIndex")],
  observe=["SongIndex::new, index_song, identify"])

p("C28", "Complex arithmetic and storage conversions are exact field operations",
  "For all finite operands, complex addition, subtraction, negation, multiplication and the scalar helpers give the algebraically correct result to one rounding per primitive operation, operators agree with the named methods, and the unit exponential lies on the unit circle at the requested angle. Conversion between interleaved and split storage is lossless in both directions for every length.",
  ["inputs"],
  "all finite f32/f64 operands incl. extreme magnitudes, vectors of length 0..200",
  "A few fixed operands.",
  ["src/num.rs"],
  [("operators", "src/num.rs Complex"), ("split views", "src/num.rs SplitComplex, ComplexVec")],
  observe=["Complex operators", "ComplexVec/SplitComplex conversions"])

p("C29", "Audio decoding and image writing in the sanity tool are faithful",
  "For every WAV or FLAC file, reading returns the file's sample rate and its samples divided by the full scale of their width (the largest positive value for WAV), with channels averaged to mono, and writing a spectrogram image stores every pixel value at the requested bit depth so that decoding the image returns it. A file cut short yields an error or a prefix of its samples; unsupported or damaged files never make the reader itself panic, and files without audio yield an error.",
  ["inputs"],
  "WAV files of any channel count, sample rate, bit depth and length, truncated and corrupted bytes; images of any size and depth",
  "One mono WAV, one stereo FLAC and one tiny image are tested.",
  ["sanity-check/src/lib.rs"],
  [("decoders", "sanity-check/src/lib.rs read_audio"), ("encoders", "sanity-check/src/lib.rs save_png, save_svg")],
  observe=["read_audio", "save_png", "save_svg"])

p("C30", "Build tool derives exactly the detected features, flags and jobs",
  "For every combination of architecture, reported CPU features, processor count and user-supplied extra features, the build helper selects the right architecture feature, adds each extra feature exactly once, never drops or duplicates one, and composes cargo commands that carry those features.",
  ["inputs", "configurations"],
  "all architectures (known and unknown), subsets of CPU flags, processor counts, arbitrary extra-feature strings with mixed separators",
  "Tests fix a few combinations.",
  ["xtask/src/lib.rs"],
  [("feature derivation", "xtask/src/lib.rs compute_config"), ("command builders", "xtask/src/lib.rs *_command")],
  observe=["compute_config", "BuildConfig", "*_command functions"])

p("C31", "The web spectrogram front end renders what the core library computes",
  "For every audio buffer and setting, the functions exported to JavaScript return the core library's magnitudes, decibel values, colours and FFT, DCT and Haar results (and refuse what the core refuses), and the streaming function turns the same samples, pushed in whatever pieces, into the same sequence of coloured frames. The page draws each magnitude's colour at its place in the picture, the same picture on a 2D canvas and with WebGL 2, and the service worker answers stored requests from its cache and passes every other one to the network.",
  ["inputs", "histories"],
  "audio buffers, window lengths and hops, colour maps, ways to cut a stream, picture sizes, request sequences",
  "Its own tests (outside the stable suite, and not compiling at the original commit) use one input per function.",
  ["web-spectrogram/src/lib.rs", "web-spectrogram/app.mjs", "web-spectrogram/sw.js"],
  [("exports", "web-spectrogram/src/lib.rs stft_magnitudes, magnitude_to_db, db_scale, map_color_u8, color_from_magnitude_u8, fft_split, dct2, haar_*"), ("streaming frames", "web-spectrogram/src/lib.rs State::compute_frame"), ("drawing", "web-spectrogram/app.mjs drawSpectrogram, initApp"), ("offline cache", "web-spectrogram/sw.js")],
  state=[("stream state", "sample buffer, running maximum, colour map", "web-spectrogram/src/lib.rs State")],
  observe=["exported functions", "pixels drawn", "service-worker responses"])

p("C32", "Two independent spectrogram programs draw the same picture",
  "For every mono WAV file and every shared setting (colormap, dynamic range), the example spectrogram program and the sanity-check program write the same image, deterministically, and exit with an error (not a crash or a partial success) on unreadable input.",
  ["inputs", "configurations"],
  "WAV files of any length and content, all colormaps, dynamic ranges, window 1024",
  "One 440 Hz tone with one palette is tested.",
  ["examples/spectrogram.rs", "sanity-check/src/main.rs", "src/visual/spectrogram.rs"],
  [("shared scaling and colour helpers", "src/visual/spectrogram.rs"), ("image layout", "examples/spectrogram.rs, sanity-check/src/main.rs")],
  observe=["PNG files written by both programs"])

p("C33", "User-defined number types and FFT backends get correct transforms",
  "The public traits for real numbers and FFT backends may be implemented by the user. For every such number type that computes like f32 or f64, and for every correct backend that implements only the required methods, all generic transforms (complex, inverse, real, planned, strided, batched, multi-dimensional, split, DST tables), their histories and their refusals behave as for the built-in types and backends, within the rounding of the type.",
  ["inputs", "histories"],
  "lengths 1..6000 and powers of two to 2^16, all layouts and strategies, call histories, two number types and a backend of our own",
  "No test instantiates the generic code with a type other than f32 and f64.",
  ["src/num.rs", "src/fft.rs", "src/rfft.rs", "src/dst.rs", "src/ndfft.rs"],
  [("traits", "src/num.rs Float; src/fft.rs FftImpl; src/rfft.rs RealFftImpl"), ("generic paths", "src/fft.rs ScalarFftImpl<T>, FftPlan<T>")],
  state=[("planner caches", "tables per length for the user's type", "src/fft.rs FftPlanner<T>")],
  observe=["FftImpl, RealFftImpl, FftPlan, ParallelFft methods over user types"])

p("C34", "Special values never crash, never leak elsewhere, and are never hidden",
  "NaN, infinities, values that overflow and subnormal values may occur anywhere in the data. They never make a call panic, hang or be refused: whether a call succeeds depends only on shapes and parameters. A NaN or infinite sample makes every transform output that depends on it non-finite rather than plausible, and affects nothing else: other batch items, other frames and distant wavelet coefficients stay bit for bit the same, and a planner that processed special values answers later calls like a fresh one.",
  ["inputs", "histories"],
  "kinds and places of special values x all transforms, batches, frames, wavelets, call histories on one planner",
  "Tests use finite data only.",
  ["src/fft.rs", "src/rfft.rs", "src/stft.rs", "src/dct.rs", "src/dst.rs", "src/hartley.rs", "src/wavelet.rs", "src/goertzel.rs", "src/czt.rs"],
  [("scratch reuse", "src/fft.rs FftPlanner, ScalarFftImpl; src/rfft.rs RfftPlanner"), ("frame windows and normalisation", "src/stft.rs"), ("batches", "batch functions of every module")],
  state=[("planner scratch", "work buffers kept between calls", "src/fft.rs, src/rfft.rs")],
  observe=["every transform function with special values in its input"])

p("C35", "The web server serves exactly its folder, for every request history",
  "For any history of files put into and removed from the served folder and of requests (several per connection or at once, ranges, escaped names, broken requests), the server answers on port 3000: an existing file with exactly its present content and a type browsers accept, a directory with its index page, /health with success, and every other path with the start page (404 without one). Every answer allows every origin, requests other than GET and HEAD are refused and change nothing, and no request obtains a file outside the folder or stops the server.",
  ["histories", "inputs"],
  "sequences of file changes and requests over files of any content and nested folders, path escapes, request methods",
  "Its own tests (not in the stable suite) make five requests to a router in memory.",
  ["web-spectrogram/src/main.rs"],
  [("routes", "web-spectrogram/src/main.rs app, main")],
  state=[("served folder", "files below static/", "web-spectrogram/src/main.rs")],
  observe=["HTTP responses of the server program"])

p("C36", "Benchmark runs are recorded, compared and tabled faithfully",
  "For any history of benchmark runs (any sizes, any subset of the measurements, any earlier result file, present, absent or damaged), each run records every measurement once with consistent time, rate and memory figures, compares it with exactly the same measurement of the run before, marks the fastest of each group, and keeps the earlier file as previous.json. The table program replaces the marked part of the README by one row per result with the recorded figures, leaves the rest untouched, and reports an error without writing when the results are missing or damaged.",
  ["histories", "inputs"],
  "histories of runs over sizes 2..512, filters and environments; result files of 0..600 rows with times from 1 ns to 10^14 ns; READMEs with and without markers",
  "No test runs either program.",
  ["kofft-bench/benches/bench_fft.rs", "kofft-bench/examples/update_bench_readme.rs"],
  [("recording", "kofft-bench/benches/bench_fft.rs save_results, CountingAllocator"), ("table", "kofft-bench/examples/update_bench_readme.rs")],
  state=[("result files", "benchmarks/latest.json, previous.json, README.md", "kofft-bench")],
  observe=["the two programs run in a scratch folder"])

p("C37", "Stack-only calls never allocate heap memory",
  "The functions documented as stack-only or allocation-free use no heap memory whatever they are given: for every array size (accepted or refused) and every content, finite or not, the array transforms (fft_inplace_stack, ifft_inplace_stack, rfft_stack, irfft_stack, the *_inplace_stack DCT, DST, Haar and window functions) make no heap allocation, nor do stft::frame and inverse_frame for any window, start and signal, the split/interleaved copies, and a real-FFT planner's *_with_scratch calls for lengths it has already planned, beyond what the transform backend passed to them allocates.",
  ["inputs", "histories", "configurations"],
  "array sizes 0..16384, all kinds of content, frames anywhere in and beyond the signal, planner histories followed by calls on seen lengths, accepted and refused",
  "Tests run on hosts with a heap and never count allocations; one allocation on a rare path breaks a program that has none.",
  ["src/fft.rs", "src/rfft.rs", "src/dct.rs", "src/dst.rs", "src/wavelet.rs", "src/window.rs", "src/stft.rs", "src/num.rs"],
  [("array transforms", "the *_stack functions of every module"), ("frames", "src/stft.rs frame, inverse_frame"), ("planned calls", "src/rfft.rs RfftPlanner::rfft_with_scratch, irfft_with_scratch")],
  state=[("planner caches", "tables per length", "src/rfft.rs RfftPlanner")],
  observe=["allocations counted by the program's global allocator around each call"])

p("C38", "Memory use is proportional to the data at hand, however long a program runs",
  "One call on n samples never holds more than a fixed number of bytes per sample. Repeating the same calls, on planners that are kept or made anew, needs no more memory than the first rounds did, whatever the mixture of operations and lengths: tables are kept per length, not per call, and work buffers do not pile up. A stream (StftStream, IstftStream) holds memory for its window and hop only, however many frames have passed through it, and gives everything back when dropped.",
  ["inputs", "histories"],
  "all transforms on 1..70000 samples, mixtures of up to 20 calls repeated up to 9 times, streams of up to 60000 frames, windows to 3000",
  "Tests are too short for growth to matter and never look at memory.",
  ["src/fft.rs", "src/rfft.rs", "src/dct.rs", "src/dst.rs", "src/stft.rs", "src/hartley.rs", "src/czt.rs", "src/wavelet.rs", "src/hilbert.rs", "src/cepstrum.rs"],
  [("caches and scratch", "src/fft.rs FftPlanner; src/rfft.rs RfftPlanner; src/dct.rs DctPlanner; src/dst.rs DstPlanner"), ("stream buffers", "src/stft.rs IstftStream::push_frame")],
  state=[("caches", "tables per length", "FftPlanner, RfftPlanner, DctPlanner, DstPlanner"), ("stream buffers", "pending output samples", "src/stft.rs IstftStream")],
  observe=["bytes held, counted by the program's global allocator around each call"])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P))
