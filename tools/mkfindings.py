#!/usr/bin/env python3
"""Writes known_findings.json (findings that remain, and the defects repaired in /repo)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FINDINGS = []
FIXED = [
 ("C01", "1ae55c1", "adaptive step size: modes trained in parallel all adapted and read one shared step size, so taps and errors depended on the thread schedule"),
 ("C03", "83ca15f", "blind phase search: the best-angle index was shared between threads, so samples got the test angle another thread had found"),
 ("C06", "9123467", "saving truncated the target first: a full disk, an interrupt, a crash or an unpicklable signal destroyed the previous content and left a torn file"),
 ("C07", "92584a1", "hybrid signals lost their power method in copies and files (found by the C06 simulator)"),
 ("C05", "5446053", "two swapped blocks with equal byte sums in an uncompressed file were loaded as a different signal (Adler-32 does not see it)"),
 ("C15", "f84203b", "an unsynchronised measurement of a repeated payload failed when the offset was a multiple of the sequence length"),
 ("C08", "76fb564", "quantize_signal rescaled the signal it was given"),
 ("C08", "ab878f1", "comp_IQ_inbalance centred the signal it was given in place"),
 ("C10", "c38a738", "training overwrote the initial taps of the caller, among them taps already returned for earlier frames (also C18, C19)"),
 ("C11", "f48ea97", "an interrupt during apply_PMD was swallowed by a bare except"),
 ("C07", "48f5e5a", "a deep copy shared its reference symbols, bits and pilots with the original"),
 ("C17", "bec1067", "get_data and extract_pilots returned the wrong frames for most selections and compared all frames with the references of the first"),
 ("C17", "6bedb12", "a frame layout given by pilot_idx was kept as indices and broke the extraction"),
 ("C09", "433b4ea", "from_symbol_array kept the modulation order of an earlier call in a default argument"),
 ("C07", "af5abd2", "data types were compared by identity, so restored signals in single precision failed in bps"),
 ("C08", "a6756d9", "from_symbol_arrays of hybrid signals rescaled the second array of the caller in place"),
 ("C08", "4912ece", "from_symbol_arrays of hybrid signals failed for arrays that need truncation and set no orders"),
 ("C11", "463df27", "corr_foe dropped the stored offset before the correction was done"),
 ("C17", "fdd6601", "fresh pilots for several frames could not be generated"),
 ("C16", "9138a64", "pilot_cpe over several frames compared with the pilots of the first frame"),
 ("C18", "8881702", "pilot_equaliser trained on the wrong frame when the number of taps equals that of the synchronisation"),
 ("C18", "2eb6cd6", "pilot_equaliser without apply did not return the verbose result"),
 ("C14", "5f1f816", "a capture that starts right before a frame could not be equalised with more taps than it was synchronised with"),
 ("C08", "228407b", "extracted pilots carried a symbol rate of 1"),
 ("C08", "98abd74", "a payload longer than a frame: the references of later frames did not match what was sent (also C17)"),
 ("C08", "cb79bbb", "simulate_transmission with dispersion failed"),
 ("C08", "bbac585", "from_symbol_array kept only the bits of the last mode"),
 ("C08", "b190d65", "from_bit_array kept bits that were not modulated"),
 ("C10", "5e16a17", "correct_shifts and shift_signal shifted the caller's factors and signal in place"),
 ("C11", "6141a15", "a symbol-based normalisation that was interrupted left some modes normalised and others not"),
 ("C12", "f4b0150", "PRBSBits replaced given orders and seeds by others if there were too few for all modes"),
 ("C12", "4afa15d", "the internal XOR generator of make_prbs_intXOR ignored the order"),
 ("C13", "ed9e1e6", "the phase search worker could not be imported (a name that does not exist)"),
 ("C13", "c0e47f0", "one malformed or unusual request ended the request-reply worker"),
 ("C13", "b7fc87b", "the push-pull worker could not be started and answered nothing"),
 ("C13", "ea73651", "ResultSink did not take a number for its port"),
 ("C17", "d3aef3e", "pilots given for one mode lost their alphabet in from_symbol_array"),
 ("C15", "aff91ac", "symbol errors of alphabets with rounding differences (rotated PSK) were counted for every symbol"),
 ("C19", "789b551", "two-stage training without symbols took arrays of None for the alphabet of its decisions"),
 ("C19", "4d6dad7", "two-stage training gave both methods the symbols of the second one; a data-aided first method read beyond them"),
 ("C19", "aba6276", "two-stage real-valued training of chosen modes combined real and imaginary parts of different modes in the output"),
 ("C19", "a2271ba", "signals and taps in column-major order were rejected by training and filter"),
 ("C18", "f58ee06", "equalising several frames for their taps only failed after frame 0 or returned garbage"),
 ("C18", "7aeb808", "without a list of frames the number of complete frames was counted from another position than equalisation starts from"),
 ("C14", "05d86c3", "modes received in a cyclic order were not put back into transmit order"),
 ("C14", "342ac79", "modes that arrive together were aligned to successive frames if the frame begins early in the capture"),
 ("C14", "ec509e4", "a capture with one complete frame was synchronised to the incomplete one behind it"),
 ("C16", "1caf355", "phase_partition_16qam rotated every mode by the raw fourth-power phase of the last one"),
 ("C16", "e1c62e2", "viterbiviterbi returned the phase of the last mode only"),
 ("C16", "c85647e", "partition_16qam put the outer threshold onto the middle ring"),
 ("C16", "a85a4be", "phase_partition_16qam chose rotations by real parts and added differences instead of the rotated symbols"),
 ("C18", "eabaef5", "modes with different delays were trained for QPSK pilots in the second stage, whatever order was given"),
 ("C20", "778a763", "the exp and gauss filters mixed or permuted the modes, and shifted the spectrum of odd lengths"),
 ("C20", "033eb0a", "add_dispersion exchanged the modes"),
 ("C20", "cb6be51", "comp_IQ_inbalance used sums over all modes"),
 ("C20", "a244a4b", "the min-max demapper rejected the SNR of single-precision signals"),
 ("C21", "e832f72", "a save failed if another caller removed the file between looking at it and replacing it"),
 ("C14", "b2575ea", "shift_signal moved signals with a single shift in the opposite direction"),
 ("C08", "cb1ee6f", "hybrid signals could not be resampled"),
 ("C19", "0a80b09", "apply_filter(method=\"py\") ignored or failed with the choice of modes"),
 ("C14", "ed9076f", "a mode without a signal ended the synchronisation with an unbound variable"),
 ("C15", "e6644c3", "cal_ber_nosyncd could not be used"),
 ("C17", "3f8f2e5", "pilot_scale was ignored when pilots were added to a payload"),
 ("C20", "2098396", "normalise_and_center_pil failed for a single mode"),
 ("C17", "022fa8e", "the SNR estimate (and GMI and MI with it) was NaN if a point of the alphabet was not sent"),
 ("C17", "d261cde", "GMI with the pilot SNR took the linear SNR of all frames for an SNR in dB"),
 ("C15", "1d259bf", "sync_rx2tx and sync_tx2rx synchronised to the incomplete or empty block at the end of the data"),
 ("C05", "3a042a5", "a damaged uncompressed file was loaded as a different signal if the digest at its end was lost as well (taken for a file of an older version)"),
 ("C20", "91b6787", "with one mode not finite, decisions read memory outside of the alphabet, and demodulation and BER failed for all modes (also C02)"),
 ("C21", "e9fdc84", "a file removed between two checks of save_signal was written in place, so that other callers loaded it torn"),
 ("C22", "841fbae", "PMD on a signal of odd length was off by half a frequency bin"),
 ("C22", "88d2d0b", "quantize_signal_New(rescale_in=False) returned the quantised value of zero for every sample"),
 ("C22", "9d1284b", "quantize_signal_New and sim_DAC_response(quant_bits=...) scaled every mode to the swing of the strongest one (also C20)"),
 ("C22", "fe22215", "sim_DAC_response with a measured response failed with a TypeError"),
 ("C22", "19e4d8f", "rescaling and clipping (helpers.rescale_signal, sim_DAC_response with clip_rat) turned single into double precision"),
]
with open(os.path.join(ROOT, "known_findings.json"), "w") as f:
    json.dump({"findings": FINDINGS, "fixed": ["fixed: property=%s %s %s" % x for x in FIXED]}, f, indent=1)
    f.write("\n")
