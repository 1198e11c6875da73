#!/usr/bin/env python3
"""Writes properties.jsonl (the single place the property texts are kept)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

ITER = "src/iter/"
prop("C01", "Chunking loses nothing and keeps order",
 "Splitting any finite or endless sequence into groups of k (k >= 1) yields, in order, groups whose concatenation is the sequence: every group but the last has exactly k elements, the last has between 1 and k, and an empty sequence yields no group. The padding variant yields the same groups except that a short last group is filled up to k with default values; it adds no group when the sequence ends on a group boundary.",
 ["inputs"], "every sequence (any element type, any length including 0 and endless) and every group size >= 1",
 "No test looks at chunking directly; the modems only use a few fixed sizes.",
 [ITER+"chunks.rs", ITER+"mod.rs"], [("Chunks::next", ITER+"chunks.rs"), ("WholeChunks::next", ITER+"chunks.rs"), ("Iter::chunks / Iter::wchunks", ITER+"mod.rs")], ["iter::Iter::chunks", "iter::Iter::wchunks"])
prop("C02", "Upsampling, decimation and scaling act per element",
 "Upsampling by c (c >= 1) repeats each element of the sequence exactly c times in order; decimation by c (c >= 1) keeps exactly the elements at positions 0, c, 2c, ...; scaling multiplies every element by the given factor. None of the three adds, drops or reorders anything else.",
 ["inputs"], "every sequence of any length and every factor >= 1",
 "One doc example each with a single factor; boundaries (factor 1, a sequence that ends mid-block) are not sampled.",
 [ITER+"inflate.rs", ITER+"take_every.rs", ITER+"scale.rs"], [("Inflate::next", ITER+"inflate.rs"), ("Take::next", ITER+"take_every.rs"), ("Scale::next", ITER+"scale.rs")], ["iter::Iter::inflate", "iter::Iter::take_every", "iter::Iter::scale"])
prop("C03", "Integrators return exact running and block sums",
 "The running integrator returns as its m-th output the sum of the first m inputs, one output per input; integrate-and-dump with period d (d >= 1) returns as its m-th output the sum of inputs m*d .. m*d+d-1 alone, and drops an incomplete final block. The array versions do the same independently in every lane.",
 ["inputs"], "every sequence, period >= 1 and lane count",
 "Doc examples cover constant inputs only; the reset between blocks is never observed with distinct values.",
 [ITER+"integrate.rs"], [("Integrate::next", ITER+"integrate.rs"), ("IntegrateDump::next", ITER+"integrate.rs"), ("Nintegrate::next", ITER+"integrate.rs"), ("NintegrateDump::next", ITER+"integrate.rs")], ["iter::Iter::integrate", "iter::Iter::integrate_and_dump", "iter::Iter::nintegrate", "iter::Iter::nintegrate_and_dump"])
prop("C04", "Streaming convolution is linear convolution",
 "Convolving a non-empty sequence of n elements with a filter of m >= 1 taps returns exactly the n+m-1 values of their linear convolution, out[i] = sum over j of x[i-j]*h[j]; for an endless sequence every output obeys the same formula. The array version does this independently in every lane.",
 ["inputs"], "every sequence length (shorter and longer than the filter) and every filter of at least one tap",
 "The tests use one all-ones filter, which cannot tell a filter from its reversal or see a misaligned tail.",
 [ITER+"convolution.rs"], [("Convolver::next", ITER+"convolution.rs"), ("Nonvolver::next", ITER+"convolution.rs")], ["iter::Iter::convolve", "iter::Iter::nonvolve"])
prop("C05", "Bits pack into bytes least significant first",
 "Bits are packed eight to a byte, the first bit in the least significant position, and a final partial byte is filled with zero bits; unpacking returns the eight bits of each byte in the same order. So unpacking a packed sequence returns the sequence followed only by fewer than eight zero bits.",
 ["inputs"], "every bit sequence of every length and all 256 byte values",
 "One random 33-bit round trip; bit order is not observable by a round trip alone.",
 ["src/lib.rs"], [("bool_to_u8", "src/lib.rs"), ("u8_to_bools", "src/lib.rs"), ("bools_to_u8s / u8s_to_bools", "src/lib.rs")], ["bch_stream_encode"], "private functions are reached through the guarded hook")
prop("C06", "Coded stream round trips and corrects two bytes per frame",
 "The error-correcting stream code packs bits into bytes, splits them into blocks of 7 data bytes, and emits each block followed by 5 parity bytes of the Reed-Solomon code; a shorter final block also carries 5 parity bytes. Decoding returns the original bits followed only by fewer than 8 zero bits, even when up to two bytes of every frame were corrupted. A frame that cannot be corrected contributes its received data bytes unchanged, so later frames stay aligned.",
 ["inputs", "fault_sequences"], "every message length and content, and every pattern of at most two byte errors in every frame",
 "One random 100-bit round trip without any error.",
 ["src/bch.rs", "src/lib.rs"], [("bch_stream_encode", "src/bch.rs"), ("bch_stream_decode", "src/bch.rs")], ["cdma::tx_coded_cdma_bpsk_signal"], "private module is reached through the guarded hook")
prop("C07", "Baseband BPSK and QPSK symbol maps are exact",
 "Baseband BPSK sends bit 1 as (1, 0) and bit 0 as (-1, 0) and decides 1 exactly when the real part is >= 0; baseband QPSK sends each consecutive pair of bits as (+-sqrt 2, +-sqrt 2), the first bit giving the sign of the real part and the second that of the imaginary part, a dangling odd bit being dropped, and decides by those signs (zero decides 1). Hence demodulating a modulated message returns it exactly.",
 ["inputs"], "every message, including odd lengths and empty, and every received symbol",
 "Random messages of one even length; the boundary of the decision and odd lengths are never sampled.",
 ["src/bpsk.rs", "src/qpsk.rs"], [("tx/rx_baseband_bpsk_signal", "src/bpsk.rs"), ("tx/rx_baseband_qpsk_signal", "src/qpsk.rs")], ["bpsk::tx_baseband_bpsk_signal", "qpsk::tx_baseband_qpsk_signal"])
prop("C08", "BPSK passband waveform and exact recovery",
 "For rates with fs = s*baud the BPSK transmitter sends s samples per bit, sample i being +-cos(2 pi fc i/fs) with the sign of bit i/s (+ for 1); the receiver decides 1 for a block of s samples exactly when their correlation with cos(2 pi fc i/fs) is positive, and drops an incomplete block. Hence every message is recovered exactly whenever the carrier is not identically zero over a symbol.",
 ["inputs", "configurations"], "every message, every sample rate = s * symbol rate, every carrier",
 "Two or three fixed rate sets with random data; phase continuity over symbols and other rates are untested.",
 ["src/bpsk.rs", "src/lib.rs", ITER+"inflate.rs", ITER+"integrate.rs"], [("tx_bpsk_signal", "src/bpsk.rs"), ("rx_bpsk_signal", "src/bpsk.rs"), ("bit_to_nrz", "src/lib.rs")], ["bpsk::tx_bpsk_signal", "bpsk::rx_bpsk_signal"])
prop("C09", "QPSK passband waveform and exact recovery",
 "For rates with fs = s*baud the QPSK transmitter sends s samples per bit pair (b1, b2), sample i being I cos(2 pi fc i/fs) - Q sin(2 pi fc i/fs) with I, Q = +-1 by b1, b2; the receiver returns for each full block of s samples the two signs of its correlations with cos and -sin (zero decides 1). Hence a message of bit pairs is recovered exactly whenever, over every symbol, the cross-correlation of cos and sin is smaller than both carriers' energies (in particular over whole cycles).",
 ["inputs", "configurations"], "every message, every sample rate = s * symbol rate, every carrier",
 "One fixed rate set with random data.",
 ["src/qpsk.rs", ITER+"integrate.rs"], [("tx_qpsk_signal", "src/qpsk.rs"), ("rx_qpsk_signal", "src/qpsk.rs")], ["qpsk::tx_qpsk_signal", "qpsk::rx_qpsk_signal"])
prop("C10", "Baseband CDMA spreads, despreads and tolerates chip errors",
 "Baseband CDMA sends for each bit as many chips as the key is long, chip j being the bit XOR key[j]; despreading XORs the chip stream with the repeated key and decides each key-length block 1 exactly when strictly more than half of the key length disagree with the key. Hence every message is recovered exactly with any key, even when fewer than half of the chips of every bit are flipped.",
 ["inputs", "fault_sequences"], "every message, every non-empty key and every chip error pattern below half of each block",
 "Error-free random messages with Walsh keys of five sizes.",
 ["src/cdma.rs"], [("tx_baseband_cdma", "src/cdma.rs"), ("rx_baseband_cdma", "src/cdma.rs")], ["cdma::tx_baseband_cdma", "cdma::rx_baseband_cdma"])
prop("C11", "Passband CDMA is the carrier signal times the chip sequence",
 "With fs = s*baud and s a multiple of the key length L, the CDMA/BPSK and CDMA/QPSK transmitters send the plain BPSK/QPSK signal of the same message with sample i multiplied by +-1 according to key chip ((i mod s) / (s/L)); the receivers multiply by the same sequence and then demodulate as plain BPSK/QPSK, so a received own signal is decoded exactly as the unspread one. The coded variants apply the error-correcting stream code before and after.",
 ["inputs", "configurations"], "every message, every key, every rate combination the entry checks accept",
 "A handful of fixed rates and Walsh key sizes.",
 ["src/cdma.rs", "src/bpsk.rs", "src/qpsk.rs", "src/bch.rs"], [("tx/rx_cdma_bpsk_signal", "src/cdma.rs"), ("tx/rx_cdma_qpsk_signal", "src/cdma.rs"), ("tx/rx_coded_cdma_bpsk_signal", "src/cdma.rs")], ["cdma::tx_cdma_bpsk_signal", "cdma::rx_cdma_bpsk_signal", "cdma::tx_cdma_qpsk_signal"])
prop("C12", "Walsh-Hadamard codes are mutually orthogonal",
 "For every power of two n >= 1 the code matrix is n x n with every two distinct rows agreeing in exactly n/2 positions, its first row and column all ones; other sizes are rejected. Looking up code number c (any c, n >= 2) never fails and returns row 1 + (c mod (n-1)), so never the all-ones row.",
 ["inputs"], "every power-of-two size and every code number",
 "The test checks a parity condition that holds for many non-orthogonal matrices, for six sizes, and never calls the lookup for all numbers.",
 ["src/hadamard.rs"], [("HadamardMatrix::new", "src/hadamard.rs"), ("HadamardMatrix::key", "src/hadamard.rs")], ["hadamard::HadamardMatrix::key"])
prop("C13", "Each hop cycle visits every frequency exactly once",
 "For n >= 1 frequencies the hopping sequence is endless, and hops m*n .. m*n+n-1 are for every m a permutation of the n table frequencies low + k (high-low)/n, k = 0..n-1. The sequence is a function of the seed, the band and n only, so a transmitter and a receiver that build it alike hop together.",
 ["inputs", "histories"], "every band, number of frequencies >= 1 and seed, over endlessly many hops",
 "One table of 8 frequencies over 5 cycles.",
 ["src/fh.rs", "src/lib.rs"], [("HopTable::next", "src/fh.rs"), ("linspace", "src/lib.rs")], ["fh::tx_fh_bpsk_signal"], "crate-private type is reached through the guarded hook",
 [("hopping_table, idx, rng", "current permutation, next position, shuffle source", "src/fh.rs")])
prop("C14", "Frequency-hopped BPSK hops once per bit and is recovered",
 "The hopped BPSK signal is the concatenation over bits k of the one-bit BPSK signal of that bit on the k-th hop frequency, time restarting at each bit; the receiver demodulates block k of s samples as BPSK on the k-th hop frequency. Hence every message is recovered exactly (time 0 makes every carrier non-zero). The mixer variant sends for bit k at sample j of the bit +-cos(2 pi fc t) cos(2 pi h_k t) with t = (k+j)/fs.",
 ["inputs", "configurations"], "every message, band, number of frequencies and rates accepted at entry",
 "One fixed configuration with random data.",
 ["src/fh.rs", "src/bpsk.rs"], [("tx_fh_bpsk_signal", "src/fh.rs"), ("rx_fh_bpsk_signal", "src/fh.rs"), ("tx_fh_bpsk_signal_old", "src/fh.rs")], ["fh::tx_fh_bpsk_signal", "fh::rx_fh_bpsk_signal", "fh::tx_fh_bpsk_signal_old"])
prop("C15", "Linear chirps sweep the stated band in the stated direction",
 "A linear chirp at rate r from f0 to f1 has floor(fs/r) samples, sample i being cos(2 pi (f0 + (f1-f0) r t/2) t) at the evenly spaced times t = i (1/r)/floor(fs/r); the centered up-chirp sweeps fc-B/2 to fc+B/2 and the down-chirp the reverse. The hopped chirp modulator sends, for bit k, the chirp of rate baud over the band of width (high-low)/n centered on the k-th hop frequency, upwards for 1 and downwards for 0.",
 ["inputs", "configurations"], "every chirp rate, band, sample rate, message and hop set",
 "No test observes a chirp at all.",
 ["src/fh_css.rs", "src/fh.rs", "src/lib.rs"], [("linear_chirp", "src/fh_css.rs"), ("linear_upchirp_centered / linear_downchirp_centered", "src/fh_css.rs"), ("tx_fh_css_signal", "src/fh_css.rs")], ["fh_css::linear_chirp", "fh_css::tx_fh_css_signal"])
prop("C16", "FSK and FM transmit waveforms are exact",
 "Every FSK transmitter sends s = fs/baud samples per bit, sample i being cos(2 pi f i/fs) where f is the high frequency for bit 1 and the low one for bit 0 (the first and second entry of the frequency list, or fc +- 0.025 fc for the carrier-relative variant); FM sends cos(2 pi fc i/fs + 0.05 * the sum of the first i+1 samples of the message held for s samples each). The FSK receiver decides 1 for a block exactly when its noncoherent energy at fc+0.025fc is at least that at fc-0.025fc.",
 ["inputs", "configurations"], "every message, frequencies and rates",
 "The only FSK tests need an external plotting set-up or are ignored.",
 ["src/fsk.rs", "src/fm.rs"], [("tx_bfsk_signal / tx_mfsk_signal / tx_fsk_signal", "src/fsk.rs"), ("tx_fsk / rx_fsk / tx_fm", "src/fm.rs")], ["fsk::tx_bfsk_signal", "fm::tx_fsk", "fm::rx_fsk", "fm::tx_fm"])
prop("C17", "Chaotic maps compute their recurrences and stay bounded",
 "The logistic map computes mu x (1-x), the tent map 2 mu (1-|x|) - 1, the Bernoulli map mu x +- 1 (plus for negative x), and the third map 3x^3 - 2x; the two generators return from x0 the successive iterates x1, x2, ... and reject a start outside [0, 1] respectively [-1, 1]. With 0 <= mu <= 4 every logistic iterate stays in [0, 1], every iterate of the third map stays in [-1, 1], the tent map keeps [-1, 1] for 0 <= mu <= 1 and the Bernoulli map for 0 <= mu <= 2.",
 ["inputs", "histories"], "every start in the domain, every admissible parameter, over endlessly many iterations",
 "No test; the one about the third map is ignored because it diverged.",
 ["src/chaos/mod.rs", "src/chaos/logistic_map.rs", "src/chaos/chebyshev.rs"], [("logistic_map / LogisticMap", "src/chaos/logistic_map.rs"), ("chebyshev / Chebyshev", "src/chaos/chebyshev.rs"), ("tent_map / bernoulli_map", "src/chaos/mod.rs")], ["chaos::LogisticMap", "chaos::Chebyshev"])
prop("C18", "Chaos shift keying selects carriers exactly and round trips",
 "With c and d the logistic (mu = 3.9) orbits started at 0.1 and 0.15, chaos shift keying sends for bit k c_k (bit 1) or d_k (bit 0) and decides 1 exactly when the sample is strictly nearer to c_k than to d_k; differential chaos shift keying sends the pair (c_k, +-c_k) and decides 1 exactly when the product of a pair is positive, ignoring a dangling sample. Hence DCSK recovers every message, and CSK every message as long as the two carriers differ.",
 ["inputs", "histories"], "every message of every length (the orbits never vanish or leave the interval)",
 "One random 9001-bit message each.",
 ["src/csk.rs", "src/dcsk.rs", "src/chaos/logistic_map.rs"], [("tx/rx_baseband_csk", "src/csk.rs"), ("tx/rx_baseband_dcsk", "src/dcsk.rs")], ["csk::tx_baseband_csk", "dcsk::tx_baseband_dcsk", "dcsk::rx_baseband_dcsk"], "the private CSK receiver is reached through the guarded hook")
prop("C19", "Baseband OFDM frames, cyclic prefix and exact recovery",
 "With N (even) subcarriers and p pilots (1 <= p <= N-2), baseband OFDM loads symbols N-p at a time, in order, onto the subcarriers from (p-1)-(p-1)/2 up to N-1-(p-1)/2 except N/2, the others staying zero; each frame is the N-point inverse DFT (scaled by 1/N) of the half-rotated carriers, preceded by a copy of its last N/4 samples. The receiver drops each prefix, inverts this and returns exactly N-p symbols per frame, so the symbols come back in order followed only by the zeros that filled the last frame.",
 ["inputs", "configurations"], "every symbol sequence, every even N and every pilot count in range",
 "One (64, 12) configuration.",
 ["src/ofdm.rs", "src/lib.rs"], [("get_data_subcarriers", "src/ofdm.rs"), ("tx_baseband_ofdm_signal", "src/ofdm.rs"), ("rx_baseband_ofdm_signal", "src/ofdm.rs"), ("fftshift", "src/lib.rs")], ["ofdm::tx_baseband_ofdm_signal", "ofdm::rx_baseband_ofdm_signal"])
prop("C20", "Passband OFDM is the baseband signal on a carrier",
 "The OFDM/QPSK transmitter holds each baseband OFDM sample z (of the baseband QPSK symbols of the message) for s = fs/baud samples and sends Re(z exp(j 2 pi fc i/fs)) at sample i. The receiver mixes with cos and -sin at fc, forms for m = 1, 2, ... the sums over the window of s samples ending at sample m*s (the product at m*s-s excluded), including the shorter windows that end after the signal, and hands them as symbols m-1 to the baseband OFDM and QPSK receivers.",
 ["inputs", "configurations"], "every message, rate set, carrier and subcarrier configuration",
 "One fixed configuration.",
 ["src/ofdm.rs", ITER+"convolution.rs", ITER+"take_every.rs"], [("tx_ofdm_qpsk_signal", "src/ofdm.rs"), ("rx_ofdm_qpsk_signal", "src/ofdm.rs")], ["ofdm::tx_ofdm_qpsk_signal", "ofdm::rx_ofdm_qpsk_signal"])
prop("C21", "FH-OFDM-DCSK frames carry seven chaos-spread bits each",
 "Every 7 bits become one frame of 8 carriers plus a cyclic prefix of 2: carrier values are the k-th block of 8 chaotic samples, the first as reference and the other seven multiplied by the bits' +-1 (absent bits of the last frame by 0), permuted by a per-frame pseudo-random permutation fixed by a built-in seed, half-rotated and inverse-DFT'd with scale 1/8. The receiver inverts prefix, DFT, rotation and permutation frame by frame and decides a bit 1 exactly when the real part of conj(reference) times its carrier has a positive sign. Both passband variants hold each baseband sample z for fs/baud samples and send Re(z exp(-j 2 pi f i/fs)), f being the fixed carrier or the hop frequency of that baseband sample.",
 ["inputs", "histories"], "every message, over any number of frames and any rates",
 "The round trip test is ignored.",
 ["src/fh_ofdm_dcsk.rs", "src/fh.rs", "src/chaos/chebyshev.rs"], [("tx/rx_baseband_fh_ofdm_dcsk_signal", "src/fh_ofdm_dcsk.rs"), ("tx_fh_ofdm_dcsk_signal / _2", "src/fh_ofdm_dcsk.rs")], ["fh_ofdm_dcsk::tx_baseband_fh_ofdm_dcsk_signal", "fh_ofdm_dcsk::rx_baseband_fh_ofdm_dcsk_signal"])
prop("C22", "Metrics compute their definitions",
 "The bit error rate of two bit sequences is the number of positions below the shorter length where they differ, divided by that length; energy is the sum of squares over the sample rate, average energy the sum of squares over the number of samples, and power the latter divided by the sample rate. db(x) is 10 log10 x and undb(x) is 10^(x/10), its inverse.",
 ["inputs"], "every non-empty signal or bit sequence pair (equal or unequal lengths)",
 "One sine wave, with a tolerance that hides an off-by-one in the sample count.",
 ["src/lib.rs"], [("ber", "src/lib.rs"), ("energy / avg_energy / power", "src/lib.rs"), ("db / undb", "src/lib.rs")], ["ber", "energy", "avg_energy", "power", "db", "undb"])
prop("C23", "The AWGN channel only adds independent zero-mean noise",
 "The real noise channel returns one output per input, output i being input i plus a draw i of a normal distribution with mean 0 and the given standard deviation; the complex channel adds such draws to the real part and leaves the imaginary part alone. Each draw is used once and does not depend on the signal, and standard deviation 0 returns the signal unchanged.",
 ["inputs"], "every signal, every standard deviation >= 0 and every sequence of draws",
 "A statistical check at one noise level.",
 ["src/lib.rs"], [("awgn", "src/lib.rs"), ("awgn_complex", "src/lib.rs")], ["awgn", "awgn_complex"])
prop("C24", "Grids, windows, spectrum shift and erf obey their formulas",
 "linspace(a, b, n) returns the n points a + k (b-a)/n; both Hamming windows of length n are 0.54 - 0.46 cos(2 pi k/n) for k < n, the complex one with zero imaginary part; the spectrum shift (copying and in place) rotates a sequence left by ceil(n/2), so twice is the identity for even n. erf follows the 9th-degree exponential approximation with t = 1/(1+|x|/2), is odd apart from 0 and satisfies erf + erfc = 1.",
 ["inputs"], "every length including 0 and odd ones, and every real argument",
 "linspace is only used as a helper; the shift is only used with one even length.",
 ["src/lib.rs"], [("linspace", "src/lib.rs"), ("hamming_window / hamming_window_complex", "src/lib.rs"), ("fftshift", "src/lib.rs"), ("erf / erfc", "src/lib.rs")], ["linspace", "hamming_window", "hamming_window_complex", "erf", "erfc"], "the private shift is reached through the guarded hook")
prop("C25", "The SSCA computes the strip spectral correlation",
 "For n > np and a signal of at least n+np samples, the strip spectral correlation is an n x np array whose entry (q, k) is the shifted n-point DFT over time i of: the shifted np-point DFT of the Hamming-windowed segment starting at i, at bin k, times exp(-j 2 pi (k-np/2) i/np), times the sample at i+np/2, times the length-n Hamming window at i. The mapped form is an (np+1) x (2n+1) array that places entry (q, k) at row floor(np (k/2np - q/2n + 1/2)) and column floor(n (k/np + q/n)); when several entries fall on one place the one of the largest q is kept, and places no entry falls on are zero.",
 ["inputs", "configurations"], "every signal and every size pair n > np",
 "No test calls it.",
 ["src/ssca.rs", "src/lib.rs"], [("ssca_base", "src/ssca.rs"), ("ssca_mapped", "src/ssca.rs")], ["ssca::ssca_base", "ssca::ssca_mapped"])
prop("C26", "The block bandpass filter keeps exactly the bins of the band",
 "The FFT bandpass splits a signal whose length is a multiple of the block length into blocks and returns for each the inverse real DFT, divided by the block length, of its real DFT with every bin k zeroed whose frequency k fs/len lies outside [low, high]. It returns one output per input, and a band covering 0..fs/2 returns the signal unchanged.",
 ["inputs", "configurations"], "every signal of whole blocks, every band, sample rate and even block length",
 "One plotted example without an assertion on the content.",
 ["src/bpf.rs"], [("bandpass", "src/bpf.rs")], ["bpf::bandpass"])
prop("C27", "The Python functions return what the Rust functions return",
 "Each Python-exposed modulator, demodulator and chirp returns exactly the collected output of the Rust function of the same scheme on the same arguments, with parameters in the same roles; the CDMA modulator uses the 16-chip code number 0, and the CSK and DCSK ones hold each baseband value for fs/baud samples. The exposed names and their arities are fixed, the noise functions return the signal plus (or only) as many draws as asked, and random data has the requested length. The strip spectral correlation is returned in its mapped form exactly when asked.",
 ["inputs"], "every argument tuple of every exposed function",
 "The Python tests import the module but compare no values with the Rust side.",
 ["src/lib.rs"], [("module_with_functions", "src/lib.rs"), ("pyfunctions", "src/lib.rs")], ["the komunikilo Python module"])
prop("C28", "Impossible rate and carrier combinations are rejected at entry",
 "A sample rate that is not a whole multiple of the symbol rate is rejected at the call by the BPSK, CDMA, hopped BPSK, FSK (in its listed forms), hopped chirp, OFDM and FH-OFDM-DCSK modulators; a carrier (or, for the hopped and multi-tone forms, a top frequency) whose whole-hertz part exceeds half the sample rate (rounded down) is rejected by all of those but OFDM; CDMA also rejects a chip rate above half the sample rate or not dividing the sample rate. Every other combination (with the low frequency of a band at most its top) is accepted, and no sample evaluation fails afterwards.",
 ["configurations"], "every combination of rates, carriers, bands and key lengths",
 "No test passes an invalid combination.",
 ["src/bpsk.rs", "src/cdma.rs", "src/fh.rs", "src/fh_css.rs", "src/fsk.rs", "src/ofdm.rs", "src/fh_ofdm_dcsk.rs", "src/lib.rs"], [("entry assertions", "src/bpsk.rs"), ("entry assertions", "src/cdma.rs"), ("is_int", "src/lib.rs")], ["bpsk::tx_bpsk_signal", "cdma::tx_cdma_bpsk_signal", "fsk::tx_bfsk_signal"])
prop("C29", "Detector statistics compute their definitions",
 "The energy detector returns 10 log10 of the sum of squares of the signal; the max-cut detector returns 10 log10 of the largest squared magnitude of the strip spectral correlation (n = 4096, np = 64), or of the given array; the DCS detector returns 10 log10 of the largest, over columns, ratio of the column's summed squared magnitude to the squared magnitude of its first entry (for arrays whose first entries are nonzero). The in-crate energy test reports presence exactly when the root mean square exceeds the threshold.",
 ["inputs"], "every signal (or array) of sufficient length",
 "One test feeds the in-crate energy test; the others are never called.",
 ["src/lib.rs", "src/willie.rs", "src/ssca.rs"], [("energy_detector / max_cut_detector / dcs_detector", "src/lib.rs"), ("energy_detector", "src/willie.rs")], ["the komunikilo Python module"], "private functions are reached through the guarded hook or Python")
prop("C30", "Modulators are lazy, causal streams",
 "Every modulator and demodulator is prefix-stable: the output produced for a prefix of a message (cut at a symbol or frame boundary) is a prefix of the output for the whole message, so a longer or endless message never changes what was already sent. Output i depends only on the configuration and on message bits up to the symbol or frame that contains i.",
 ["inputs", "histories"], "every message and every extension of it",
 "All tests modulate one complete finite message.",
 ["src/bpsk.rs", "src/qpsk.rs", "src/cdma.rs", "src/fh.rs", "src/ofdm.rs", "src/fm.rs", "src/fsk.rs", "src/csk.rs", "src/dcsk.rs"], [("iterator pipelines", "src/bpsk.rs")], ["all tx_* and rx_* functions"])
prop("C31", "Noisy error rates follow the theoretical curves",
 "Over the additive Gaussian channel the measured bit error rate of each modulation converges to its textbook value at every signal-to-noise ratio, the noise being white and Gaussian.",
 ["inputs"], "every signal-to-noise ratio and noise sequence",
 "A statistical statement; tests draw one curve.",
 ["src/lib.rs", "tests/ber.rs"], [("awgn", "src/lib.rs")], ["awgn"])
prop("C32", "The Butterworth bandpass attenuates out-of-band tones",
 "The recursive bandpass filter passes tones inside its band and attenuates tones outside it, at every sample rate.",
 ["inputs", "configurations"], "every band and tone",
 "Only plotted.",
 ["src/bpf.rs"], [("butterpass", "src/bpf.rs")], ["bpf::butterpass"])
prop("C33", "The normality detector's p-value is scipy's",
 "The normality test returns the p-value of the omnibus normality test of the signal and decides normal exactly when it exceeds the significance level.",
 ["inputs"], "every signal",
 "Needs the foreign library; only sampled.",
 ["src/willie.rs"], [("normaltest / normal_detector", "src/willie.rs")], ["tests/normtest.rs"])
prop("C34", "Root-raised-cosine taps are the pulse's samples",
 "The root-raised-cosine design with n taps, roll-off beta (0 <= beta <= 1), symbol length T > 0 and sample rate fs > 0 returns n taps, tap i being h(t) at t = (i - n/2)/fs of the root-raised-cosine impulse response h(t) = (sin(pi (1-beta) t/T) + 4 beta t/T cos(pi (1+beta) t/T)) / (pi t (1 - (4 beta t/T)^2)), and at its removable singularities the limits: (1 + beta (4/pi - 1))/T at t = 0 and beta/(T sqrt 2) ((1 + 2/pi) sin(pi/4beta) + (1 - 2/pi) cos(pi/4beta)) at |t| = T/(4 beta). So the taps are finite and tap i equals tap n - i.",
 ["inputs", "configurations"], "every tap count, roll-off, symbol length and sample rate",
 "Two tap sets with symbol length 1 and a roll-off for which no tap falls on a singularity.",
 ["src/filters.rs"], [("rrcosfilter", "src/filters.rs")], ["filters::rrcosfilter"], "private function reached through the guarded hook")
prop("C35", "The Costas loop derotates by its phase estimate and tracks it",
 "A new carrier-recovery loop has phase and frequency estimates 0. Each update returns the sample z rotated by minus the phase estimate p, w = z exp(-j p), so |w| = |z|, and then, with e = Re(w) Im(w), adds 0.00932 e to the frequency estimate and 0.132 e plus the new frequency estimate to the phase estimate. Loops do not influence one another.",
 ["inputs", "histories"], "every sequence of samples of any length",
 "No test runs the loop.",
 ["src/costas.rs"], [("CostasLoop::new", "src/costas.rs"), ("CostasLoop::update", "src/costas.rs")], ["costas::CostasLoop"], "private type reached through the guarded hook",
 [("vco_phase, vco_freq", "phase and frequency estimates", "src/costas.rs")])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
