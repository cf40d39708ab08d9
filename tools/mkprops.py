#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list is kept here, one dict per property)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=(), state=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=list(observe), hook_needed=hook)))

EQ = "qampy/core/equalisation/pythran_equalisation.py"
EQW = "qampy/core/equalisation/equalisation.py"
DSP = "qampy/core/pythran_dsp.py"

p("C01", "Equaliser training does not depend on thread count or thread schedule",
  "Training an adaptive equaliser on a given field from given initial taps (every complex- and real-valued method, fixed or adaptive step size, any subset of modes, any number of iterations) returns the same taps and the same error record however many worker threads the parallel region gets and however they are interleaved. With a fixed step size, training one mode moreover never influences the taps or errors of another mode.",
  ["schedules", "inputs", "configurations"],
  "every team size, every interleaving of the worker threads at memory-access granularity, all training methods, precisions, mode subsets",
  "The suite runs with OMP_NUM_THREADS=1 and, on one machine, one schedule per call; a race on a shared temporary or on the step size needs a particular interleaving and leaves plausible-looking taps.",
  [EQ, EQW, "qampy/equalisation.py"],
  [("parallel loop over modes", EQ + " train_equaliser, train_equaliser_realvalued"), ("dispatch and tap initialisation", EQW + " equalise_signal")],
  ["qampy.core.equalisation.equalise_signal", "qampy.equalisation.equalise_signal", "dual_mode_equalisation"])

p("C02", "Filter application and symbol decisions are thread-schedule independent",
  "Applying equaliser taps to a field (real or complex, any oversampling, any subset of modes) and deciding symbols against an alphabet return exactly the values a single thread computes, for any number of worker threads and any interleaving of them.",
  ["schedules", "inputs", "configurations"],
  "every team size and interleaving; all precisions, mode subsets, alphabets and lengths including fewer samples than threads",
  "Tests run single-threaded and compare a handful of inputs with tolerances; a shared accumulator or output slot only corrupts some samples under some interleavings.",
  [EQ, EQW, "qampy/core/signal_quality.py"],
  [("collapsed parallel loop over modes and samples", EQ + " apply_filter_to_signal"), ("parallel decision loop", EQ + " make_decision")],
  ["qampy.core.equalisation.apply_filter", "signal.make_decision", "qampy.core.signal_quality.make_decision"])

p("C03", "Phase search and soft demapping are thread-schedule independent",
  "Blind phase search (single and two-stage), test-angle selection and both soft-bit demappers return exactly the values a single thread computes, for any number of worker threads and any interleaving of them.",
  ["schedules", "inputs", "configurations"],
  "every team size and interleaving; all precisions, test-angle layouts, alphabets and block lengths",
  "The kernels are only ever run with one thread in the suite, and the tests accept any phase that brings the error rate down.",
  [DSP, "qampy/core/phaserecovery.py", "qampy/core/signal_quality.py"],
  [("parallel distance loop", DSP + " bps"), ("parallel gather", DSP + " select_angles"), ("parallel demappers", DSP + " soft_l_value_demapper, soft_l_value_demapper_minmax")],
  ["qampy.core.phaserecovery.bps", "bps_twostage", "qampy.core.signal_quality.soft_l_value_demapper*", "signal.cal_gmi"])

p("C04", "Quality estimates do not depend on thread count or schedule",
  "The SNR estimate (with its signal and noise powers) and the mutual-information and generalised-mutual-information estimates of a given received signal are the same, up to floating-point summation order, for any number of worker threads and any interleaving of them.",
  ["schedules", "inputs", "configurations"],
  "every team size and interleaving of the reduction loops; alphabets with fewer points than threads",
  "A lost update in a reduction changes an estimate by a fraction that the suite's tolerances and its single thread cannot see.",
  [DSP, "qampy/core/signal_quality.py", "qampy/signals.py"],
  [("reductions over symbols and samples", DSP + " estimate_snr, cal_gmi_mc, cal_mi_mc, cal_mi_mc_fast")],
  ["signal.est_snr", "signal.cal_mi", "signal.cal_gmi", "qampy.core.signal_quality.cal_mi", "cal_gmi_mc"])

p("C05", "A damaged or failing file never loads as a different signal",
  "For every file written by saving a signal, if its stored bytes are later truncated, torn, lost or altered, or if reading it fails part-way, loading it either raises an error or returns a signal identical to the one that was saved; on a healthy file it always returns that signal, also when the system returns reads in small pieces.",
  ["fault_sequences", "inputs"],
  "all signal types and compression levels; truncations, bit flips, lost, duplicated and swapped blocks, short reads, interrupted reads and read errors at any point",
  "The tests save and load healthy files only, once per class.",
  ["qampy/core/io.py", "qampy/io.py", "qampy/signals.py"],
  [("checksummed zlib container", "qampy/core/io.py save_signal, load_signal"), ("state reconstruction", "qampy/signals.py SignalBase.__setstate__")],
  ["qampy.io.load_signal", "qampy.core.io.load_signal", "signal.save_to_file"])

p("C06", "Saving is all-or-nothing across failures and crashes",
  "When saving a signal to a path fails or the process or machine stops at any instant during it, the path afterwards holds either exactly what it held before or the complete new signal, never anything in between. A save that returns normally has stored the complete new signal (also when the system accepts writes in small pieces), a save that cannot store it raises, and neither leaves stray files behind when the process survives.",
  ["crash_points", "fault_sequences", "histories"],
  "a crash after any file-system operation of a save with any subset of unsynced effects lost, full disk, I/O error, short write or interruption at any operation, unserialisable signals; over sequences of saves to the same path",
  "The tests never make a save fail, so they cannot see that the previous capture is destroyed first.",
  ["qampy/core/io.py", "qampy/signals.py"],
  [("serialise, write, replace", "qampy/core/io.py save_signal"), ("convenience method", "qampy/signals.py SignalBase.save_to_file")],
  ["qampy.core.io.save_signal", "qampy.io.save_signal", "signal.save_to_file"])

p("C07", "Signals survive copies, persistence and process restarts unchanged",
  "At any point of its processing history a signal of any type that is copied, deep-copied, pickled at any protocol or saved and loaded - also in another process - comes back with the same type, samples and complete metadata, and every later operation on the restored signal gives the same result as on the original. A deep copy or restored signal is independent: changing it never changes the original.",
  ["histories", "crash_points", "programs"],
  "all signal classes, any sequence of processing operations with copy/save/crash-and-restore inserted at any point, any pickle protocol, fresh interpreter included",
  "The tests pickle freshly created signals of some classes and compare a few attributes; state that appears later (sync offsets, frequency offset, resampling, hybrid parts) is never round-tripped.",
  ["qampy/signals.py", "qampy/core/io.py"],
  [("explicit attribute tuple in the pickle state", "qampy/signals.py SignalBase.__reduce__, __setstate__"), ("metadata inheritance lists", "qampy/signals.py _inheritattr_, _inheritbase_"), ("attribute delegation", "qampy/signals.py SignalWithPilots.__getattr__")],
  ["pickle.dumps/loads", "copy.copy", "copy.deepcopy", "save_to_file/load_signal"],
  [("_inheritattr_", "the metadata that travels with the samples", "qampy/signals.py")])

p("C08", "Signal metadata is preserved through any processing history",
  "Through any sequence of processing operations (slicing, arithmetic, resampling, impairments, filtering, equalisation, carrier recovery, pilot extraction) a signal keeps its class, modulation order, symbol rate, alphabet, reference symbols and bits, and its sampling rate changes only, and then exactly, as the operation prescribes. Operations that return a new signal leave the signal they were called on and its reference symbols unmodified.",
  ["histories", "programs"],
  "random operation sequences over all signal classes, precisions and mode counts, against a small metadata reference model",
  "Each test checks one operation on one fresh object; loss of metadata or aliasing shows after a chain of operations, when the next operation reads the wrong rate or reference.",
  ["qampy/signals.py", "qampy/impairments.py", "qampy/filtering.py", "qampy/equalisation.py", "qampy/phaserec.py", "qampy/helpers.py"],
  [("__array_finalize__ inheritance", "qampy/signals.py SignalBase"), ("recreate_from_np_array", "qampy/signals.py SignalBase")],
  ["signal.fs, fb, os, M, symbols, bits, coded_symbols"])

p("C09", "Concurrent callers working on their own signals do not affect each other",
  "When several threads of one process each generate, process, measure or store their own signals with explicit seeds or no random element, every caller gets exactly the result it gets when running alone, whatever the interleaving. No call leaves state behind in the library that changes the result of a later call.",
  ["schedules", "histories", "programs"],
  "any mix of library calls in 2-4 threads with preemption at any executed source line, and any order of the same calls in one thread",
  "The suite is single-threaded per process, and independent tests cannot see hidden module state.",
  ["qampy/signals.py", "qampy/equalisation.py", "qampy/phaserec.py", "qampy/impairments.py", "qampy/core"],
  [("no module-level mutable state, per-call buffers", "qampy/core/*"), ("mutable default arguments", "qampy/signals.py, qampy/equalisation.py, qampy/core/io.py")],
  ["the public functions and signal methods"])

p("C10", "Callers sharing read-only inputs do not disturb them or each other",
  "Signals, taps, alphabets and reference symbols passed to the receiver functions (filtering, equalisation, carrier recovery, synchronisation metrics, quality estimates, impairments) as inputs are only read: any number of threads may use the same objects at once, each gets the result it gets alone, and the shared objects are bit-identical afterwards.",
  ["schedules", "programs"],
  "2-4 threads calling any of these functions on shared signals and taps, preempted at any executed source line",
  "Tests hold one reference to each object and discard the input, so an in-place change of an argument passes unnoticed.",
  ["qampy/equalisation.py", EQW, "qampy/phaserec.py", "qampy/impairments.py", "qampy/core/impairments.py", "qampy/signals.py", "qampy/core/analog_frontend.py"],
  [("defensive copies before the in-place kernels", EQW), ("copies in the impairment and frontend functions", "qampy/core/impairments.py, qampy/core/analog_frontend.py")],
  ["input arrays before and after, results versus solo runs"])

p("C11", "An aborted receiver call leaves its inputs intact and can be retried",
  "If a call that returns a new result (equalisation, filtering, carrier recovery, measurement, resampling, impairment, persistence) is stopped at any instant by an interrupt or a failed allocation, the exception reaches the caller, the signal and taps it was given are unchanged, and repeating the call gives the result an undisturbed call gives. Frame synchronisation, frequency-offset correction and normalisation, which update the signal, are all-or-nothing when the computation they rest on is stopped.",
  ["fault_sequences", "crash_points", "programs"],
  "an interrupt or memory error raised at any executed source line, or an allocation failure in any step, followed by a retry, for any of these calls",
  "No test interrupts a call.",
  ["qampy/signals.py", "qampy/equalisation.py", "qampy/phaserec.py", "qampy/core"],
  [("compute first, then commit", "qampy/signals.py sync2frame, corr_foe, normalize_and_center"), ("fresh outputs", "qampy/core/*")],
  ["arguments before and after the abort, retry result"])

p("C12", "Explicit seeds fully determine generated bits and signals",
  "Bit sequences and signals generated with explicit seeds depend on their arguments only: not on the process-wide random state, on what was generated before or concurrently, on the process, or on hash randomisation; and generating them does not disturb the process-wide random state. Different modes and the payload of a pilot frame stay reproducible in the same way.",
  ["schedules", "histories", "configurations"],
  "any interleaving with other generators and reseeding of the global random state by others, process restarts and hash seeds; random-bit and PRBS sources, all signal classes that take a seed",
  "Tests compare two generations made back to back in one process, where leftover global state is the same.",
  ["qampy/signals.py", "qampy/core/prbs.py"],
  [("private RandomState per bit array", "qampy/signals.py RandomBits"), ("seeded shift registers", "qampy/core/prbs.py")],
  ["bits, symbols and samples of seeded signals; np.random state before and after"])

p("C13", "Processing workers answer each request exactly once and keep serving",
  "A reply worker answers every request it receives exactly once, in order, with the result of the requested operation, or with an error reply if the operation is unknown, fails in any way or the message is malformed, and then serves the next request. Arrays travel unchanged in both directions, and with several workers every result corresponds to the request it carries the id of.",
  ["fault_sequences", "schedules", "histories"],
  "any sequence of valid, failing and malformed requests to 1-3 workers, with dealer and worker scheduling, delay, and worker crash and restart decided by the simulator",
  "There is no test of the worker module (it cannot even be imported on the base tree).",
  ["qampy/core/processing.py"],
  [("request dispatch", "qampy/core/processing.py RepWorker.process"), ("array serialisation", "qampy/core/processing.py pack_array, unpack_array"), ("blind phase search service", "qampy/core/processing.py PhRecWorker")],
  ["messages on the simulated transport"])

p("C14", "Frame synchronisation finds the frame for any acquisition instant",
  "For a pilot-framed signal captured starting at any instant, with the modes arriving in any order (any permutation) and any of the four quarter-turn phase ambiguities, a synchronisation that reports success reports for every mode the sample at which a frame really starts (to within the equaliser's half-symbol ambiguity), puts the modes back into transmit order, and aligns modes that arrive together to the same, complete frame, so that pilot equalisation of the capture recovers the payload. It reports success when the capture is normalised in power, the payload has several amplitude levels, the pilot sequence is long enough (512 symbols) and does not begin within the first pilot-sequence length of the capture. A capture that is too short to contain a frame, or a mode without a signal, is rejected rather than mis-synchronised. Shifting the signal by the reported instants moves every mode's frame to its beginning.",
  ["fault_sequences", "inputs", "histories"],
  "all acquisition instants, mode permutations, per-mode rotations and delays, pilot patterns, coupling, mild noise and frequency offsets, bursts and loss of signal on the simulated link",
  "The tests sample a few delays and at most two modes; the search windows and their edges are hit only by particular instants.",
  ["qampy/core/pilotbased_receiver.py", "qampy/signals.py", "qampy/equalisation.py", "qampy/core/ber_functions.py"],
  [("windowed CMA-variance search and correlation", "qampy/core/pilotbased_receiver.py frame_sync"), ("mode realignment", "qampy/signals.py sync2frame")],
  ["signal.shiftfctrs, mode order, payload errors after pilot equalisation"])

p("C15", "Error rates count exactly the errors that occurred on the link",
  "For a received signal that is the transmitted one (or an excerpt or repetition of it) under any delay, any mode order and any quarter-turn rotation per mode, in which chosen symbols were replaced by others, the reported symbol error rate is exactly the number of replaced symbols and the bit error rate exactly the number of bit positions in which they differ, divided by the length received, per mode, provided that every mode's sequence resembles itself only at its own place. Reported error vectors and synchronised references are consistent with those rates. The bit error counter for bit streams counts, for received bits that are an excerpt or repetition of the sent ones at any offset, exactly the bits that were flipped.",
  ["fault_sequences", "inputs"],
  "all delays, lengths, mode orders, rotations and corruption patterns that leave the stream recognisable, all QAM orders",
  "The tests use a few delays and mostly check error-free signals, or rates within statistical tolerance.",
  ["qampy/signals.py", "qampy/core/ber_functions.py"],
  [("correlation synchronisation over modes and rotations", "qampy/core/ber_functions.py"), ("greedy mode assignment", "qampy/signals.py _sync_and_adjust")],
  ["cal_ser, cal_ber (plain and verbose)"])

p("C16", "Carrier recovery follows the phase over the whole capture",
  "For a signal whose carrier phase drifts within the tracking range of the estimator, with constant offsets, ramps, random walks and frequency offsets, pilot-based and blind phase recovery and frequency-offset compensation return the transmitted symbols (up to the estimator's documented ambiguity, away from its documented edges) independently in every mode and every frame. The returned phase trace is the phase that was removed.",
  ["fault_sequences", "histories", "inputs"],
  "phase trajectories of the simulated oscillator, several modes with different trajectories, one or more frames, all estimators",
  "The tests try a few linewidths on one trajectory and accept a low error rate.",
  ["qampy/phaserec.py", "qampy/core/phaserecovery.py", "qampy/core/pilotbased_receiver.py"],
  [("pilot interpolation", "qampy/core/pilotbased_receiver.py pilot_based_cpe_new"), ("blind search and unwrap", "qampy/core/phaserecovery.py"), ("offset removal", "qampy/core/phaserecovery.py comp_freq_offset")],
  ["pilot_cpe, bps, bps_twostage, viterbiviterbi, phase_partition_16qam, find/comp_freq_offset"])

p("C17", "Payload and pilots of every frame are extracted from where they were sent",
  "For a pilot-framed transmission of any layout and number of frames, the payload and pilots reported for any selection of frames are exactly the symbols transmitted in those frames, in order and per mode, and the quality measures on that selection (error rates, EVM, SNR, generalised mutual information, with the SNR of payload or pilots) are those of the symbols received there against the symbols sent there, also if some points of the alphabet were not sent; asking for a frame that is not there raises an error.",
  ["histories", "inputs", "configurations"],
  "all frame layouts, frame counts and frame selections (single, contiguous, scattered, last), repeated or fresh payload and pilots, corruption confined to chosen frames",
  "Tests extract all frames or the first one; selections that do not include the largest index position are never tried.",
  ["qampy/signals.py"],
  [("frame indexing", "qampy/signals.py get_data, extract_pilots, idx_payload, idx_pilots")],
  ["get_data, extract_pilots, cal_ser/cal_ber/cal_evm/cal_gmi/est_snr with frames"])

p("C18", "Multi-frame pilot reception equals frame-by-frame reception",
  "Equalising several frames of a synchronised pilot capture in one call gives, for each frame, the taps, frequency offset and equalised symbols that equalising that frame on its own from the same starting taps gives, and the payload of every frame is recovered. Results already returned for a frame do not change when later frames are processed, and a frame that was disturbed on the link does not change the result of a frame that did not start from its taps. The position of one mode does not change the taps of another (fixed step size, no frequency compensation). A frame that is not completely in the capture is rejected.",
  ["histories", "inputs"],
  "captures of several frames with any frame selection, tap counts equal to or different from the synchronisation taps, with or without warm start and frequency compensation",
  "The tests process one or two frames and look at the final error rate only.",
  ["qampy/equalisation.py", "qampy/core/pilotbased_receiver.py"],
  [("warm start with the first frame's taps", "qampy/equalisation.py pilot_equaliser_nframes"), ("frame offset arithmetic", "qampy/equalisation.py pilot_equaliser, _apply_to_pilotsignal")],
  ["pilot_equaliser, pilot_equaliser_nframes, apply_filter(frames=...)"])

p("C19", "Equaliser training can be checkpointed and resumed",
  "Training split at any iteration boundary - stopping, storing the taps (in memory, through a file or across a process restart) and continuing from them - ends with exactly the taps and the error record of uninterrupted training with a fixed step size, and stored taps never change while training continues. Applying the stored taps later gives the signal the training call itself returned.",
  ["crash_points", "histories"],
  "all methods and mode subsets, any split of the iterations into sessions with crash and restart between them",
  "Tests train in one call.",
  [EQ, EQW, "qampy/equalisation.py"],
  [("tap hand-over", EQW + " equalise_signal(wxy=...)")],
  ["equalise_signal, dual_mode_equalisation, apply_filter"])

p("C20", "A failure on one port stays on that port",
  "Operations that treat the modes separately - resampling, filtering, impairments without coupling, front-end compensation, normalisation, carrier recovery, decisions and LLRs, extraction, error counting and quality measurements - give every mode exactly the result they give without the failure when another mode loses its signal, is hit by a burst, clips, or carries NaN or infinite samples; and for each mode they give what they give for that mode alone. The mode order is kept. (Excluded are operations that couple modes by definition: equalisation, PMD, rotation, a common full scale, common noise power, averaged offset estimates, synchronisation.)",
  ["faults_on_ports", "random_draws"],
  "all such operations and chains of them, any fault on any port, any number of modes, lengths, precisions and formats",
  "Tests process clean signals with statistically equal modes, for which mixing modes or common statistics go unnoticed.",
  ["qampy/core/filter.py", "qampy/core/resample.py", "qampy/core/impairments.py", "qampy/core/analog_frontend.py", "qampy/phaserec.py", "qampy/core/phaserecovery.py", "qampy/core/dsp_cython.pyx", "qampy/signals.py", "qampy/helpers.py"],
  [("per-mode axes", "qampy/core/*.py loops and axis arguments"), ("signal measurements per mode", "qampy/signals.py cal_*")],
  ["qampy.core.filter.*", "qampy.impairments.*", "qampy.analog_frontend.*", "qampy.phaserec.*", "SignalBase.cal_*"])

p("C21", "A signal file is an atomic register for concurrent callers",
  "Threads and processes may save, load and remove signal files in the same directory at the same time, also under the same name. Every load returns exactly one complete signal that was saved under that name - the one saved last, or one whose save overlaps with the load - or reports that there is none if none is stored; a save that returned is seen by every later load; an operation that fails or whose process is killed has either happened completely or not at all. In other words, the history of every name is linearizable as that of one register. Files with other, also similar, names are never touched, and nothing else stays in the directory unless a process was killed.",
  ["schedules", "fault_sequences", "crash_points"],
  "all interleavings of 2-4 threads or processes at bytecodes of the library, exceptions and kills at any of them, plain, nested, similar and symbolically linked names, relative to every API",
  "Tests save and load one file in one thread; a lost update, a shared temporary name or a size read before opening shows only if another caller runs at that very moment.",
  ["qampy/core/io.py", "qampy/io.py", "qampy/signals.py"],
  [("write aside and rename", "qampy/core/io.py save_signal"), ("reading", "qampy/core/io.py load_signal"), ("object API", "qampy/signals.py save_to_file")],
  ["qampy.core.io.save_signal, load_signal", "qampy.io.save_signal, load_signal", "SignalBase.save_to_file"])

p("C22", "A simulated link applies exactly the impairments it was asked for",
  "Carrier offset, modal delay, polarisation rotation, PMD and chromatic dispersion do exactly what they are defined to do (for even and odd lengths, any oversampling, precision and any state of the ports): they conserve power - per mode where modes are not coupled, in total where they are -, sections add up, and a link of them is undone by the opposite sections in reverse order. Phase noise keeps every amplitude and has independent Gaussian phase steps of the variance of the requested linewidth; added noise (for an SNR, of a given strength, or of a converter's effective number of bits) has the requested power - for an SNR relative to the mean power of the signal over all modes, in the band of the symbol rate -, is white, circular and Gaussian; both are independent between modes, from the signal and from one call to the next, and repeat exactly from the same state of the random source. Modulator, amplifier and the converter with a measured response apply their transfer functions, a converter or transmitter is its parts one after the other, and quantisers are off by at most half a step of each mode's swing. simulate_transmission is the sections one after the other. The signal that was sent, its kind, rates and precision do not change.",
  ["histories", "fault_sequences", "inputs"],
  "all sequences of sections with any parameters, lengths, rates, precisions and seeds, with dead, weak and disturbed ports",
  "Tests apply one impairment to one even-length signal and look at an error rate; a wrong half bin, a noise that repeats or a strength that depends on the oversampling goes unnoticed.",
  ["qampy/impairments.py", "qampy/core/impairments.py", "qampy/helpers.py"],
  [("spectral responses", "qampy/core/impairments.py apply_PMD_to_field, add_dispersion"), ("random sections", "qampy/core/impairments.py add_awgn, change_snr, phase_noise, apply_enob_as_awgn"), ("converters", "qampy/core/impairments.py quantize_signal_New, sim_DAC_response")],
  ["qampy.impairments.*", "qampy.core.impairments.*"])

# pure functions of their input: listed, not claimed
p("N01", "Modulation and demodulation are inverse and Gray coded",
  "For every supported order and bit sequence, demodulating the modulated sequence returns the bits, the alphabet has unit mean power, and nearest neighbours differ in one bit.",
  ["inputs"], "all orders, bit sequences and precisions", "Tests sample bit sequences for a few orders.",
  ["qampy/signals.py", "qampy/theory.py"], [("mapping generation", "qampy/signals.py _generate_mapping")], ["modulate", "demodulate"])
p("N02", "Theory formulas agree with their definitions",
  "The theoretical error-rate, EVM, GMI and MI functions are monotone in SNR and consistent with each other for every order.",
  ["inputs"], "all SNRs and orders", "Tests check a few points.", ["qampy/theory.py"], [("closed forms", "qampy/theory.py")], ["qampy.theory"])
p("N03", "PRBS generators produce maximal-length sequences",
  "Every PRBS generator of order n repeats with period exactly 2^n-1 and the internal and external implementations agree up to a shift.",
  ["inputs"], "all supported orders and seeds", "Tests check the period for small orders.", ["qampy/core/prbs.py", DSP], [("shift registers", "qampy/core/prbs.py")], ["make_prbs_extXOR", "make_prbs_intXOR"])
p("N04", "Filters and resampling preserve the band of the signal",
  "Root-raised-cosine shaping followed by its matched filter, and resampling up and down, return the original symbols within the filter truncation error.",
  ["inputs"], "all roll-offs, rate ratios and lengths", "Tests check a few ratios.", ["qampy/core/filter.py", "qampy/core/resample.py"], [("spectral filters", "qampy/core/filter.py")], ["resample", "filter"])
p("N06", "Matlab data are imported into the documented layout",
  "Every documented key, transpose and port-map combination yields the modes in the documented order.",
  ["inputs"], "all layouts", "Tests cover some layouts.", ["qampy/core/io.py", "qampy/io.py"], [("layout decoding", "qampy/core/io.py ndarray_from_matlab")], ["load_symbols_from_matlab_file", "create_signal_from_matlab"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
