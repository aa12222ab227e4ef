#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                     "observe_at": observe, "hook_needed": None}}
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, title
    P.append(d)

ECC="src/ecc/ecc.c"; ECCC="src/ecc/ecc_const.c"
I72="src/imbe/imbe7200x4400.c"; I71="src/imbe/imbe7100x4400.c"
A24="src/ambe/ambe3600x2400.c"; A25="src/ambe/ambe3600x2450.c"; AC="src/ambe/ambe_common.c"
CORE="src/core/mbelib.c"; AD="src/core/mbe_adaptive.c"; UV="src/core/mbe_unvoiced_fft.c"; H="include/mbelib-neo/mbelib.h"
PF="src/external/pffft/pffft.c"

prop("C01","Golay(23,12) repairs every error pattern of up to three bits",
 "For every 12-bit message and every pattern of at most three flipped bits in its 23-bit Golay codeword, the decoder returns exactly the original message bits, in both the bit-array and the packed-word form. The bit-array form also returns the number of message bits it had to change and passes the 11 received check bits through; the packed-word form looks only at the low 23 bits and returns a 12-bit value.",
 ["inputs"],"all 2^12 messages x all C(23,0..3) error patterns; all 64-bit words for the packed form",
 "Tests decode a couple of codewords with one flipped bit; the 2048-entry correction table is never walked with 2- and 3-bit patterns over all messages.",
 [ECC,ECCC,H],[("syndrome + correction matrix",ECC+": packed and bit-array Golay decoders"),("2048-entry correction table",ECCC)],
 ["mbe_golay2312 out/return","mbe_checkGolayBlock in/out word"])

prop("C02","Hamming(15,11) codes repair every single-bit error",
 "For every 11-bit message, the codeword of each of the two supported (15,11) Hamming codes decodes to itself with zero corrections, and every single-bit corruption of it decodes back to the original codeword with exactly one correction reported. For arbitrary received words the output is always a codeword of that code at distance at most one, and the return value is that distance.",
 ["inputs"],"all 2^15 received words for each of the two codes",
 "Tests try one codeword and one flipped bit per code.",
 [ECC,ECCC,I72,I71],[("syndrome table lookup",ECC)],["mbe_hamming1511","mbe_7100x4400hamming1511"])

prop("C03","AMBE 3600 frames survive any correctable channel errors",
 "Take any 49 AMBE parameter bits, build the transmitted 4x24 frame (Golay-protected C0 with its parity bit, Golay-protected and scrambled C1, plain C2/C3) and flip up to three bits in each of the two Golay words: running C0 correction, descrambling and data extraction (both rate variants) yields exactly the original 49 bits. The first count is the number of C0 message bits repaired - except that, when that is zero, a word left with odd parity has its parity bit flipped and counts as one - and the second is the number of C1 message bits repaired.",
 ["inputs"],"all 2^49 messages x all error patterns of weight 0..3 in C0 and in C1 (x the C0 parity bit)",
 "The tests contain a handful of fixed frames and no channel errors in a scrambled word; an error in the seed bits or the scrambler sequence is only visible for some messages.",
 [AC,A25,A24,ECC],[("C0 Golay + parity",AC),("pseudo-random demodulation",AC),("49-bit packing",AC)],
 ["mbe_eccAmbe3600x2450C0/2400C0","mbe_demodulateAmbe3600x2450Data/2400","mbe_eccAmbe3600x2450Data/2400"])

prop("C04","IMBE 7200x4400 frames survive any correctable channel errors",
 "Take any 88 IMBE parameter bits, build the transmitted 8x23 frame (Golay words C0-C3, Hamming words C4-C6, plain C7, scrambled C1-C6), and flip up to three bits in every Golay word and one in every Hamming word: C0 correction, descrambling and data extraction yield exactly the original 88 bits. The reported counts are the C0 message bits repaired, and the message bits repaired in C1-C3 plus bits repaired in C4-C6.",
 ["inputs"],"all 2^88 messages x all error patterns within the code's correction radius",
 "Tests decode a few fixed frames without channel errors in most code words.",
 [I72,ECC],[("C0 decode, PN demodulation, data decode",I72)],["mbe_eccImbe7200x4400C0","mbe_demodulateImbe7200x4400Data","mbe_eccImbe7200x4400Data"])

prop("C05","IMBE 7100x4400 frames survive channel errors and convert losslessly",
 "Take any 88 parameter bits in 7100x4400 order, build the transmitted 7x24 frame (shortened Golay C0, Golay C1-C3, Hamming C4-C5, plain C6, scrambled C1-C5), and flip up to three bits in every Golay word and one in every Hamming word: C0 correction, descrambling and extraction yield exactly the original bits. Reordering them to the 7200x4400 layout is a lossless permutation, determined only by the pitch index, that puts pitch, voicing, gain and amplitude bits where the 7200x4400 decoder reads them.",
 ["inputs"],"all 2^88 messages x all correctable error patterns; all 256 pitch indices for the reordering",
 "Tests never decode a 7100x4400 frame with errors and never check the reordering for more than a sample pitch.",
 [I71,ECC],[("shortened C0, PN demodulation, data decode",I71),("bit reordering",I71)],["mbe_eccImbe7100x4400C0","mbe_demodulateImbe7100x4400Data","mbe_eccImbe7100x4400Data","mbe_convertImbe7100to7200"])

prop("C06","Descrambling is a self-inverse that only touches scrambled words",
 "For every frame of every supported format, including uncorrectable garbage, descrambling applied twice returns the frame unchanged, never alters the first code word or the unprotected words, keeps bits binary, and XORs a keystream that depends on nothing but the message bits of the first code word.",
 ["inputs"],"all bit contents of the 4x24, 8x23 and 7x24 frames",
 "Tests run descrambling on a few fixed frames and do not compare the keystream.",
 [AC,I72,I71,A24,A25],[("PN generator 173*x+13849 mod 2^16",AC+", "+I72+", "+I71)],["the four mbe_demodulate* functions"])

prop("C07","IMBE pitch, harmonic count and voicing follow from the frame bits",
 "For every 88-bit IMBE parameter vector, pitch indices 208-255 are rejected, and indices 0-207 are accepted with fundamental 4*pi/(index+39.5), a harmonic count 9..56 that is floor(0.9254*floor(pi/w0+0.25)), min(12, floor((L+2)/3)) voicing bands, and each harmonic's voiced flag equal to the transmitted bit of its three-harmonic band (the last band covering the rest). Nothing else in the vector or the previous state influences these values.",
 ["inputs","histories"],"all 2^88 parameter vectors and any previous state",
 "Tests decode a few vectors; 208 pitch indices times the band structure are not covered, nor is independence from the other bits.",
 [I72],[("pitch/L/K decode, bit allocation, voicing expansion",I72)],["mbe_decodeImbe4400Parms return, w0, L, K, Vl[1..L]"])

prop("C08","AMBE 3600x2450 frames are classified as voice, silence, tone or erasure",
 "For every 49-bit AMBE 2450 parameter vector and error count, a frame with the six tone-check bits set and either a zero trailing nibble or matching tone nibbles is a tone when the known error count is below six (or unknown); otherwise pitch indices 120-123, 126 and 127 are erasures, 124/125 are unvoiced silence frames with 15/14 harmonics, and every other index is a voice frame whose fundamental, harmonic count (9..56) and per-harmonic voicing are those of the published tables. The classification depends on nothing else.",
 ["inputs","histories"],"all 2^49 parameter vectors x all error counts x any previous state",
 "Tests sample a few vectors; the overlap of tone signature, error count and reserved pitch indices is not enumerable by examples.",
 [A25,"src/internal/ambe3600x2450_const.h"],[("tone signature and b0 decode",A25)],["mbe_decodeAmbe2450Parms return and w0/L/Vl","status letter from mbe_processAmbe2450Dataf"])

prop("C09","AMBE 3600x2400 frames are classified as voice or tone with exact pitch",
 "For every 49-bit AMBE 2400 parameter vector, pitch indices 126 and 127 mark a tone frame whose tone index is recovered from its eight scattered bits: indices 5..122 are reported as that single tone and all others as a generic tone frame. Every other pitch index is a voice frame with fundamental 2*pi*2^(-4.311767578125-0.021336*(index+0.5)), the published harmonic count (9..56) and the published per-harmonic voicing pattern.",
 ["inputs","histories"],"all 2^49 parameter vectors, any previous state",
 "No test exercises the AMBE 2400 decoder beyond a smoke call.",
 [A24,"src/internal/ambe3600x2400_const.h"],[("b0 and tone-index decode",A24)],["mbe_decodeAmbe2400Parms return and w0/L/Vl"])

AMPS="For every parameter vector and every previous frame (any previous harmonic count and any bounded log amplitudes), the decoded log2 amplitude of each harmonic equals %s, and the linear amplitude is two to that power%s."
prop("C10","IMBE spectral amplitudes equal the standard's reconstruction",
 AMPS % ("the dequantised gain and coefficient residual (bit allocation, step sizes, two-stage inverse DCT) plus the harmonic-count-dependent prediction from the linearly interpolated previous log amplitudes with their weighted mean removed",""),
 ["inputs","histories"],"all 2^88 vectors x all previous harmonic counts x bounded previous log amplitudes (real-valued, tolerance for float rounding)",
 "A golden hash covers one frame; a wrong table row, bit index or prediction term for one harmonic count is invisible to it.",
 [I72,"src/internal/imbe7200x4400_const.h"],[("Gm/Cik dequantisation, IDCT, prediction",I72)],["mbe_decodeImbe4400Parms log2Ml/Ml"])
prop("C11","AMBE 2450 spectral amplitudes equal the standard's reconstruction",
 AMPS % ("the mean-removed codebook residual (gain delta, PRBA and higher-order coefficient tables, inverse DCT) plus differentially coded gain plus 0.65 times the interpolated previous log amplitudes with their mean removed","; unvoiced harmonics are additionally scaled by 0.2046/sqrt(fundamental)"),
 ["inputs","histories"],"all voice vectors x all previous harmonic counts x bounded previous log amplitudes and gain (real-valued, tolerance for float rounding)",
 "Tests check a few spot values on one or two vectors.",
 [A25,"src/internal/ambe3600x2450_const.h"],[("gain, PRBA, HOC, IDCT, prediction",A25)],["mbe_decodeAmbe2450Parms gamma/log2Ml/Ml"])
prop("C12","AMBE 2400 spectral amplitudes equal the standard's reconstruction",
 AMPS % ("the mean-removed codebook residual (gain delta, PRBA and higher-order coefficient tables, inverse DCT) plus differentially coded gain plus 0.65 times the interpolated previous log amplitudes with their mean removed","; unvoiced harmonics are additionally scaled by 0.2046/sqrt(fundamental)"),
 ["inputs","histories"],"all voice vectors x all previous harmonic counts x bounded previous log amplitudes and gain (real-valued, tolerance for float rounding)",
 "No test checks any AMBE 2400 amplitude.",
 [A24,"src/internal/ambe3600x2400_const.h"],[("gain, PRBA, HOC, IDCT, prediction",A24)],["mbe_decodeAmbe2400Parms gamma/log2Ml/Ml"])

prop("C13","No frame content can make a decoder touch memory out of bounds",
 "For any frame or parameter bits in any of the four formats, and any previous state the library itself can produce, error correction, descrambling, reordering, parameter decoding and spectral enhancement never read or write outside their buffers and tables and never execute undefined integer operations or out-of-range float-to-integer conversions.",
 ["inputs","histories"],"all frame bit contents; all previous states with 1..56 harmonics",
 "Sanitizer runs only see the frames the tests feed; the previous-frame interpolation index reaches the last array slot only for one combination of harmonic counts.",
 [I72,I71,A24,A25,AC,ECC,CORE],[("index clamping and fixed-size tables",I72+", "+A24+", "+A25)],["any process*/decode*/ecc* call under sanitizers"])

prop("C14","Decoder state stays well-formed after every frame",
 "From any well-formed state, decoding any frame of any format leaves all three state blocks well-formed: 9..56 harmonics, 0/1 voicing flags, the codec's own muting threshold, repeat counters that grow by at most one and never pass their limit, and a fundamental within the codec's range (zero only for an erasure carried as previous state). Hence no sequence of frames can leave a decoder in a state its next frame cannot handle.",
 ["inputs","histories"],"all frames x all well-formed states (inductive: covers histories of any length)",
 "Tests run short fixed sequences; the guarantee is about every history.",
 [I72,A24,A25,AC,CORE],[("state copy/reset on repeat, erasure, mute",I72+", "+A25+", "+A24)],["mbe_parms after each mbe_process* call"],
 [("mbe_parms","per-stream decoder state",H)])

prop("C15","IMBE error concealment: repeat, reset and mute exactly when required",
 "An IMBE frame reuses the previous parameters exactly when its pitch index is invalid, or - with code-word error counts known - C0 had at least two errors and the total reached 10+40*(smoothed error rate), or - with only a total known - the total exceeds five; otherwise the repeat count is cleared. Each repeat increments the count, a repeat after four or more consecutive ones restarts from default parameters instead, and the frame is reported and rendered as muted exactly when the count has reached four or the error rate exceeds 0.0875 - the smoothed rate 0.95*previous + 0.000365*errors for a decoded or restarted frame, while a repeated frame carries over the previous frame's rate.",
 ["inputs","histories"],"all parameter vectors, error counts and prior repeat counts/error rates",
 "Tests hit single threshold values; the interplay of counts, rates and history length is not covered.",
 [I72,I71,AD],[("repeat decision and headroom reset",I72)],["mbe_processImbe4400Dataf / 7200x4400 / 7100x4400 Framef: err_str, repeat counters, parameters"])

prop("C16","AMBE error concealment: repeat, mute, erasure and tone handling as required",
 "An AMBE voice frame reuses the previous parameters exactly when required (2450 frames: C0 errors >=4, or >=2 with total >=6; parameter-only input and all 2400 input: total above three), at most three times in a row before comfort noise is played and the state restarts from defaults. Erasure frames play comfort noise and leave a neutral unvoiced previous state with phase and noise continuity; tones never alter the voice model of a 2450 stream, and an invalid 2450 tone re-renders the previous voice frame unless repeats are exhausted.",
 ["inputs","histories"],"all parameter vectors, error counts, prior repeat counts",
 "Tests use fixed sequences and never combine erasures with repeats.",
 [A25,A24,AC],[("frame class dispatch",A25+", "+A24),("erasure state",AC)],["mbe_processAmbe*Dataf/Framef: err_str, state blocks"])

prop("C17","Status strings are bounded, terminated and truthful",
 "For every frame of every format, the status string is one '=' per reported error followed only by the letters E, T, R and M that apply, is NUL-terminated, and never exceeds the error count plus three bytes, so a caller buffer of that size is never overrun. Reported counts are never negative and never exceed what the code words of the format can contain.",
 ["inputs","histories"],"all frames, all prior states, all error totals",
 "Tests check a few strings with generous buffers.",
 [I72,I71,A24,A25],[("status string construction","mbe_process*Dataf")],["err_str bytes written, *errs, *errs2"])

prop("C18","Float-to-PCM conversion is exact, saturating and never wraps",
 "For every finite or infinite float sample, the 16-bit output is the sample times seven, limited to +-95% of full scale and truncated toward zero, on the scalar and on the SIMD path alike; all 160 samples are converted independently and nothing outside the 160 outputs is written. Conversion is therefore monotonic and odd and cannot wrap around.",
 ["inputs","configurations"],"all 2^32 float bit patterns except NaN, each of the 160 positions, SIMD on and off",
 "Tests convert random samples; boundary values around the limit and the infinities are not all hit, nor each lane.",
 [CORE],[("scale, clip, truncate","mbe_floattoshort in "+CORE)],["mbe_floattoshort"])

prop("C19","Synthesised speech samples are always within the soft-clip range",
 "Whatever parameters it is given, speech synthesis writes exactly 160 samples, each of which is a number no larger in magnitude than 95% of full scale (31128.65/7) for every finite parameter set of moderate size (amplitudes up to a million, harmonic counts from 0 to 56, so that single precision does not overflow); tone and comfort-noise output obey the same bound.",
 ["inputs","histories"],"all parameter states with finite values of moderate size",
 "Tests listen to a few frames far from clipping.",
 [CORE,AD],[("soft clip on the final buffer",CORE)],["mbe_synthesizeSpeechf output"])

prop("C20","Comfort noise is a reproducible, bounded, Java-Random-compatible stream",
 "After seeding with any 32-bit value (zero standing for one fixed nonzero seed) the comfort-noise samples are those of the 48-bit java.util.Random generator: each sample is the next 24 bits mapped to [-1,1) times 0.003 of full scale, successive calls continue the same stream, and the 16-bit form is the converted float form. No sample exceeds 0.3% of full scale and an unseeded thread always starts from the same default.",
 ["inputs","histories"],"all 2^32 seeds, every sample of consecutive calls",
 "Tests compare two runs with one seed.",
 [AD,CORE],[("48-bit LCG",AD),("thread seeding",CORE)],["mbe_setThreadRngSeed, mbe_synthesizeComfortNoise(f)"])

prop("C21","The unvoiced noise sequence is continuous across frames and starts cold",
 "Each speech frame consumes a 256-sample window of one noise sequence x -> (171x+11213) mod 53125 that overlaps the previous window by exactly 96 samples; a fresh stream starts with one all-zero window and then the default (or the thread-seeded) start value. Every sample stays within 0..53124, whatever frames are decoded in between.",
 ["inputs","histories"],"all 53125 generator states, all overlap contents, all seeds, any number of consecutive frames (inductive)",
 "Tests compare a few samples of one sequence.",
 [UV,CORE],[("overlapped LCG window",UV)],["noise state in mbe_parms across mbe_synthesizeSpeechf calls"],
 [("noiseSeed/noiseOverlap","generator state and 96-sample overlap","include/mbelib-neo/mbelib.h")])

prop("C22","Signalling tones have exact frequency, level and continuous phase",
 "For every tone index and amplitude, tone frames contain the sinusoid(s) of the documented frequency pair (single tones at 31.25 Hz times the index for 5..122, the DTMF/KNOX/call-progress pairs for 128..163) at amplitude/127 of the soft-clip level (two half-level partials for pairs, fixed amplitude 103 for D-STAR), sampled at 8 kHz. Phase continues exactly from one frame to the next for any starting phase, and undefined indices give silence and leave the phase untouched.",
 ["inputs","histories"],"all tone indices, all amplitudes, all 2^32 (x2^32) starting phases",
 "Tests render a couple of tones from phase zero for one frame.",
 [CORE],[("frequency table, phase accumulator, renderer",CORE)],["mbe_synthesizeTonef, mbe_synthesizeTonefdstar, phase state"])

prop("C23","Adaptive smoothing follows the error-driven energy and amplitude rules",
 "For every error rate, error count and amplitude set, smoothing updates the local energy as 0.95*previous+0.05*frame energy (floored at 10000, restarting from 75000 when unset), forces voicing for harmonics above the error-dependent threshold, sets the amplitude limit (20480 at low error, else 6000-300*errors+previous, saturating instead of overflowing) and scales all amplitudes by limit/sum exactly when their sum exceeds the limit. At low error rates it changes no voicing decision, and it never alters the previous frame.",
 ["inputs","histories"],"all harmonic counts, error counts and rates, bounded real amplitudes",
 "Tests spot-check one or two branches with fixed amplitudes.",
 [AD],[("Algorithms #111-#116",AD)],["mbe_applyAdaptiveSmoothing"])

prop("C24","Spectral enhancement preserves energy and bounds every weight",
 "For every harmonic count, fundamental and set of non-negative amplitudes within the codec's range, enhancement multiplies each harmonic by one common factor times a weight that is 1 for the lowest eighth and otherwise the standard's spectral weight limited to [0.5, 1.2], with the common factor chosen so that total energy is unchanged. Degenerate input (all zero, or a zero fundamental left behind by an erased frame) never produces a non-finite amplitude.",
 ["inputs","configurations"],"all harmonic counts 1..56, all fundamentals, bounded amplitudes, SIMD on and off",
 "Tests check one or two amplitude vectors.",
 [CORE],[("weights, clamp, renormalisation",CORE)],["mbe_spectralAmpEnhance Ml[1..L]"])

prop("C25","Decoding depends only on the frame and the stream's own state",
 "For any frame and stream state, the decoded parameters, status and next state are the same whatever other streams or frames the thread handled before and whatever values uninitialised memory holds; only frames whose audio is comfort noise (muted, erased, toneless) draw on the thread's comfort-noise generator. Interleaving any number of streams in a thread therefore gives each the same result as decoding it alone.",
 ["histories","inputs","schedules"],"all frames, all stream states, arbitrary contents of thread-local caches left by earlier calls and of uninitialised locals",
 "Tests decode one stream at a time in a fresh process.",
 [A24,A25,I72,CORE,AD,UV],[("thread-local caches and plan","src/ambe, src/imbe, src/core"),("pre-enhancement energy hand-off keyed by owner",AD)],["mbe_parms and outputs of mbe_process*"])

prop("C26","Unvoiced synthesis shapes noise per band and overlap-adds frames",
 "For any amplitudes, voicing pattern and fundamental, the unvoiced part of a frame is the window-normalised overlap-add of the previous and current 256-sample noise blocks, where the current block's spectrum is zero outside unvoiced harmonics' bands and, inside each, is the noise spectrum scaled to a root-mean-square of a fixed constant times the harmonic's amplitude. Doubling an amplitude doubles its band, voiced harmonics contribute nothing, and the stored block is exactly what the next frame overlaps with.",
 ["inputs","histories","configurations"],"all voicing patterns and bounded amplitudes for stated fundamentals; bounded noise/previous blocks; SIMD on and off",
 "A golden hash covers one frame; it cannot tell which band or sample a wrong edge or weight affects.",
 [UV,PF],[("band edges, RMS scaling, inverse FFT, WOLA",UV)],["mbe_synthesizeSpeechf output with all harmonics unvoiced, previousUw"])

prop("C27","Voiced synthesis cross-fades harmonics with continuous phase",
 "Each voiced harmonic contributes 2*amplitude*window*cos(phase) of the outgoing and incoming frame at their own frequencies - or, for harmonics below 8 voiced in both frames with fundamentals within 10%, a single oscillator with linear amplitude and quadratic phase - and unvoiced or absent harmonics contribute nothing. Every frame the base phase of each of the 56 harmonics advances by 160*l*(w0_prev+w0_cur)/2, harmonics above a quarter of the harmonic count get noise-driven jitter scaled by the unvoiced fraction, and the output is linear in the amplitudes.",
 ["inputs","histories","configurations"],"bounded symbolic amplitudes for stated frame pairs, voicing patterns and phases; SIMD on and off",
 "A golden hash covers one frame pair only.",
 [CORE],[("phase update, interpolated and windowed oscillators",CORE)],["mbe_synthesizeSpeechf output, PHIl/PSIl"])

prop("C28","Initialisation, copy and query entry points behave as documented",
 "Whatever garbage the three state blocks hold, initialisation makes all of them equal to the documented default frame with every field defined; copying reproduces every byte of state and leaves the source intact; the muting, smoothing and repeat queries compare exactly the documented fields and treat a null state as false; the version call writes a terminated string within 32 bytes; and silence writes exactly 160 zeros. Null buffers are ignored where the interface allows them.",
 ["inputs"],"all prior contents of the state blocks and all field values",
 "Tests initialise zeroed blocks and check a few fields.",
 [CORE,AD,H],[("init/copy/query functions",CORE+", "+AD)],["mbe_initMbeParms, mbe_moveMbeParms, mbe_useLastMbeParms, mbe_requires*, mbe_isMaxFrameRepeat, mbe_printVersion, mbe_synthesizeSilence(f)"])

prop("C29","With tones disabled, tone frames are silent and change nothing",
 "In a build with tone synthesis disabled, every tone index, amplitude and phase gives 160 zero samples and an unchanged state from both tone renderers, while classification of frames is the same as in a normal build.",
 ["inputs","configurations"],"all 2^49 tone frames and all phases in the no-tones configuration",
 "The no-tones configuration is tested with a couple of tone frames.",
 [CORE,A25,A24],[("compile-time tone switch",CORE)],["mbe_synthesizeTonef, mbe_synthesizeTonefdstar in the DISABLE_AMBE_TONES build"])

prop("C30","SIMD and scalar builds compute the same results",
 "For every input, the SIMD build performs spectral enhancement, voiced oscillator mixing, band energy summation, overlap-add and PCM conversion with the same real-valued result as the scalar build, for every harmonic count and every remainder of the vector width.",
 ["inputs","configurations"],"all harmonic counts (all vector remainders), bounded symbolic amplitudes and samples",
 "Tests run each build separately against loose expectations; a lane or tail error at one count is not compared.",
 [CORE,UV],[("SSE2 paths",CORE+", "+UV)],["mbe_spectralAmpEnhance, mbe_synthesizeSpeechf, mbe_floattoshort in both builds"])

prop("C31","Every convenience entry point equals the composition it stands for",
 "For every frame and state, whole-frame decoding equals correcting, descrambling and extracting the frame and then decoding the resulting parameter bits with the resulting error counts, and every 16-bit entry point equals its float counterpart followed by PCM conversion, with identical status, counts and state.",
 ["inputs","histories"],"all frames of all four formats, all states",
 "Tests compare at most one frame per entry point.",
 [I72,I71,A24,A25,CORE],[("Frame/Framef/Data/Dataf wrappers","src/imbe, src/ambe"),("16-bit synthesis wrappers",CORE)],["mbe_process*Frame(f)/Data(f), mbe_synthesizeSpeech"])

out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
print(len(P))
