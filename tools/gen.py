#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (the one source of both)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
E = "src/ebur128.rs"; F = "src/filter.rs"; H = "src/history.rs"; B = "src/histogram_bins.rs"
I = "src/interp.rs"; T = "src/true_peak.rs"; U = "src/utils.rs"; C = "src/capi.rs"

def mech(*a):
    return [{"name": n, "where": w} for n, w in a]

P = []

def prop(id, title, statement, over, over_text, why, files, mechanism, technique, level_note, observe=None, level="exploration"):
    a = {"files": files, "mechanism": mech(*mechanism)}
    P.append(dict(d={"id": id, "title": title, "statement": statement,
                     "quantifier": {"over": over, "text": over_text}, "why_tests_cant": why, "anchors": a},
                  technique=technique, level=level, level_note=level_note))

LOCK = "runtime monitor: lockstep execution against an independent executable reference model"
TWIN = "runtime monitor: metamorphic comparison of instances run in lockstep"

prop("C01", "Integrated loudness is the gated loudness of all audio added",
     "With integrated loudness enabled (and no histogram), loudness_global, relative_threshold and gating_block_count_and_energy always equal the BS.1770 two-stage gated measurement of the audio added so far: K-weighted, channel-weighted 400 ms blocks that start every 100 ms (a tenth of a second rounded to whole frames), those of at least -70 LUFS kept, and of these the ones not below the relative threshold 10 LU under their mean averaged. "
     "When no block qualifies the loudness is -infinity, the threshold -70 LUFS and the count absent. Blocks already counted stay counted across changes of channel map, channel count, rate and window, and the measurement never depends on what lies outside the audio added.",
     ["inputs", "histories", "configurations"], "every channel count 1..64, supported rate, channel map, sample format, signal, sequence of calls with any chunk sizes and reconfigurations, at every point at which the values are read",
     "unit tests compare with libebur128 on random noise of one short length in one add call; gating needs programmes with level changes around both gates, many blocks, odd chunk sizes and reconfigurations",
     [E, F, H, U], [("block scheduling", E + " add_frames"), ("gating block energy", F + " Filter::calc_gating_block"), ("K-weighting filter", F + " Filter::filter_coefficients, process"), ("gates and averages", H + " History::add, gated_loudness, relative_threshold")],
     LOCK, "Held on the executions explored; trusts the reference model (calibrated by C22), which does not judge values closer to a gate than the comparison tolerance. Precision loss of the filter at very high rates is allowed for.")

prop("C02", "Momentary, short-term and window loudness cover exactly the newest audio",
     "loudness_momentary, loudness_shortterm and loudness_window(w) always equal the loudness of the K-weighted, channel-weighted newest 400 ms, 3 s and w ms of audio added since the last reset, parameter change or window change, with everything before that taken as silence. "
     "A silent window measures -infinity, and a window longer than the configured maximum is refused.",
     ["inputs", "histories", "configurations"], "every supported rate, channel count, map, window length and maximum window, any chunking, read after any number of frames (in particular between the 100 ms steps and after the internal buffer has wrapped around)",
     "unit tests read the values once after one add of one second; the ring buffer positions and window offsets at which reads can happen are unbounded",
     [E, F, U], [("ring buffer of filtered audio", E + " audio_data, audio_data_index"), ("window sum over a wrapped ring", F + " Filter::calc_gating_block"), ("window length", E + " energy_in_interval, energy_shortterm, loudness_window, set_max_window")],
     LOCK, "Held on the executions explored. Zero-frame windows and windows within rounding of the maximum are not judged.")

prop("C03", "Loudness range follows EBU TECH 3342",
     "With loudness range enabled (and no histogram), loudness_range equals the spread between the 10th and 95th percentile (nearest rank) of the 3 s short-term loudness values taken every second from the audio added so far, after discarding those under -70 LUFS and those 20 LU or more below the mean energy of the rest. "
     "It is 0 while there is at most one such value.",
     ["inputs", "histories", "configurations"], "every signal, programme length, rate, channel layout, chunking and reconfiguration",
     "the unit tests' signals are one second long or reach only a few short-term values, so gating, percentiles and their rounding are hardly exercised",
     [E, H], [("short-term block cadence", E + " add_frames short_term_frame_counter"), ("percentiles and gate", H + " Queue::loudness_range, History::loudness_range_multiple")],
     LOCK, "Held on the executions explored; ties within tolerance of the gate or between ranks are judged by intervals.")

prop("C04", "Histogram mode measures the same up to the bin width",
     "In histogram mode the gated loudness, relative threshold, block count and loudness range equal those of the same blocks with each block's loudness replaced by the centre of the 0.1 LU bin that holds it, for blocks from -70 LUFS up (those beyond +30 LUFS counting in the last bin), so that loudness differs from the exact mode's by at most the bin width. "
     "Histograms never forget blocks and are not affected by a limited history.",
     ["inputs", "histories", "configurations"], "every signal level between the gates and beyond full scale, programme length, combination of modes, history limit",
     "the tests fill a histogram with a handful of blocks of one level; 1000 bins, their 1001 borders and the cumulative search need many levels",
     [H, B, E], [("bin search", H + " find_histogram_index"), ("bins", B + " BOUNDARIES, ENERGIES"), ("cumulative percentiles", H + " Histogram::loudness_range"), ("gates", H + " History::gated_loudness")],
     LOCK, "Held on the executions explored; blocks within tolerance of a bin border may count in either bin.")

prop("C05", "Sample peaks are the exact largest absolute samples",
     "With sample peaks enabled, sample_peak(c) is exactly the largest absolute normalised sample of channel c over everything added since creation or the last reset (or change of channel count), and prev_sample_peak(c) that of the last non-empty add call alone (0 after a reset or change of parameters); integer samples are normalised by their type's range, so that the most negative one gives 1.0 and peaks above 1.0 of float input are kept. "
     "Audio that is only seeded, a NaN sample, other channels and the channel's role in the map (even unused) do not count.",
     ["inputs", "histories", "configurations"], "every sample value, position, channel, format, layout, chunking",
     "tests look at a few signals in which the extreme sample sits anywhere; exactness at every position, channel and format cannot be sampled",
     [F, E, U], [("peak scan", F + " process: sample peak loop"), ("accumulation over calls", E + " add_frames"), ("normalisation", U + " Sample::as_f64_raw, MAX_AMPLITUDE")],
     LOCK, "Held on the executions explored; compared for exact equality.")

prop("C06", "True peaks are the peaks of the 4x/2x oversampled signal",
     "With true peaks enabled, true_peak(c) equals the larger of the sample peak and the largest absolute value of channel c after 4-fold (below 96 kHz) or 2-fold (below 192 kHz) oversampling with the documented 49-tap windowed-sinc interpolator, computed over all audio added as one continuous signal; at 192 kHz and above no oversampling takes place. "
     "prev_true_peak(c) covers the outputs of the last non-empty add call (0 after a reset or change of parameters), and true peaks are never below sample peaks.",
     ["inputs", "histories", "configurations"], "every signal, rate class, channel count (specialised and generic interpolators), chunking that splits the interpolator's memory anywhere, both with and without the precision-true-peak feature",
     "tests compare with C for short noise in one call; the interpolator's state across calls, all channel specialisations and all rate classes are not reachable by samples",
     [T, I, F, E], [("polyphase FIR and its rolling buffer", I + " InterpF, RollingBuffer"), ("rate and channel dispatch", T + " TruePeak, UpsamplingScanner"), ("accumulation", F + " process: true peak"), ("seeding", T + " seed")],
     LOCK + " (both feature builds)", "Held on the executions explored; f32 interpolation is compared within single-precision rounding bounds.")

prop("C07", "Results do not depend on how the audio is cut into calls",
     "Splitting the same audio differently over add_frames calls, from one frame at a time to everything at once, including empty calls, never changes any loudness, range, gating count or overall peak; the previous-call peaks of the pieces have the previous-call peak of the whole as their maximum.",
     ["inputs", "histories", "configurations"], "every partition of every signal, for every mode, rate, channel count and layout",
     "tests feed one buffer in one call; partitions are exponentially many and only some meet block ends, buffer wraps or interpolator phases",
     [E, F, I], [("chunk loop", E + " add_frames"), ("filter and interpolator state over calls", F + " process"), ("needed_frames accounting", E + " needed_frames, short_term_frame_counter")],
     TWIN, "Held on the executions explored; values equal up to floating point reassociation.")

prop("C08", "All sample formats and layouts give the same measurement",
     "Samples that i16, i32, f32 and f64 represent alike give the same results in every format, interleaved or planar, for adding and for seeding, wherever in memory the samples lie, also when formats and layouts alternate between calls.",
     ["inputs", "histories", "configurations"], "every sample value representable in several formats, channel count, mode and alternation of entry points (16 functions)",
     "tests check each entry point against C separately with its own noise; alternating formats within one stream and all values are not sampled",
     [E, U, F], [("16 entry points", E + " add_frames_*, seed_frames_*"), ("sample conversion", U + " Sample impls"), ("iteration over layouts", U + " Samples for Interleaved and Planar")],
     TWIN, "Held on the executions explored.")

prop("C09", "Channel roles are weighted as BS.1770 says",
     "The energy measured is the sum over channels of each channel's own energy times its weight: 1 for front channels, 1.41 for channels at 60 to 90 degrees (or left/right surround), 2 for dual mono, 0 for unused ones; the default map is left, right, centre, unused, left surround, right surround and unused beyond (4 and 5 channels without the LFE), and the order of channels does not matter. "
     "set_channel and set_channel_map store what is asked for, and refuse (with an error and no change) invalid indices, maps of the wrong length and dual mono on anything but single-channel instances.",
     ["inputs", "configurations"], "every channel type on every position of 1..64 channels, every accepted or refused map",
     "tests use default maps of a few channel counts; 34 channel types at 64 positions cannot be sampled by unit tests",
     [E, F, U], [("weights", F + " Filter::calc_gating_block"), ("map validation", E + " set_channel, set_channel_map"), ("default map", E + " default_channel_map")],
     TWIN + "; lockstep reference model", "Held on the executions explored.")

prop("C10", "Seeding primes the filters and nothing else",
     "Seeding audio never changes any measured value by itself, and measurement after seeding some past equals the measurement an instance that had processed that past makes from there on (filter and interpolator memory included). "
     "Hence the documented recipe of analysing parts of a stream in parallel, each seeded with the audio before it, gives together the measurement of the whole stream.",
     ["inputs", "histories", "configurations"], "every past, split point, chunking of the seed, format, layout, mode, channel map",
     "tests of seeding use one fixed split of one signal",
     [E, F, T, I], [("filter warm-up", F + " Filter::seed"), ("interpolator warm-up", T + " TruePeak::seed"), ("entry points", E + " seed_frames_*")],
     TWIN, "Held on the executions explored. Seeding takes effect for channels in use at that time.")

prop("C11", "Aggregation over instances equals one measurement of all their blocks",
     "loudness_global_multiple and loudness_range_multiple of any set of instances equal the gated measurement over the union of all their blocks, whatever their rates, channel counts, kinds (exact or histogram), number and order; of one instance they equal its own measurement. "
     "They fail with an invalid-mode error if any instance lacks the mode, the range (but not the loudness) also if exact and histogram instances are mixed, and an empty set or one without blocks gives -infinity, respectively a range of 0.",
     ["inputs", "histories", "configurations"], "every multiset of instances with any histories",
     "tests aggregate two instances fed alike; the small-set fast path, more than 16 instances, mixed modes and differing levels are not reached",
     [E, H], [("aggregation", E + " loudness_global_multiple, loudness_range_multiple"), ("threshold over several histories", H + " History::gated_loudness_multiple, loudness_range_multiple"), ("small-vector path", H + " gated_loudness_multiple")],
     LOCK, "Held on the executions explored.")

prop("C12", "A reset instance cannot be told from a new one",
     "After reset an instance behaves in every respect like one newly created with the same parameters, channel map, maximum window and history: nothing of the audio, peaks, filter, interpolator or block state before is observable in any later measurement, whatever the audio before was (silence, infinities, NaN).",
     ["inputs", "histories", "configurations"], "every history before the reset and every continuation after it",
     "no test resets in the middle of odd states and compares a long continuation",
     [E, F, H, T, I], [("reset", E + " reset"), ("filter and peaks reset", F + " Filter::reset"), ("histories", H + " History::reset"), ("interpolator", T + " TruePeak::reset")],
     TWIN, "Held on the executions explored.")

prop("C13", "Reconfiguration starts a fresh stretch and keeps what was measured",
     "change_parameters and set_max_window to the current values change nothing; with new values they empty the audio window and start measuring afresh at the new parameters exactly as a new instance would, while all blocks measured before keep contributing to the integrated loudness and range as if pooled. "
     "Overall peaks survive unless the channel count changes (which also restores the default channel map), the filter's memory survives a window change but not a parameter change, the maximum window and history are retained, and a refused change leaves everything as it was.",
     ["inputs", "histories", "configurations"], "every sequence of audio stretches and reconfigurations",
     "tests never feed audio across a reconfiguration and compare",
     [E, F, T], [("change_parameters", E + " change_parameters"), ("set_max_window", E + " set_max_window"), ("buffer size", E + " allocate_audio_data")],
     TWIN + "; lockstep reference model", "Held on the executions explored.")

prop("C14", "A limited history keeps exactly the newest blocks",
     "With a maximum history of h ms the exact (non-histogram) integrated loudness is that of the newest h/100 gated 400 ms blocks and the range that of the newest h/3000 short-term values, no matter whether the limit was set before, after or between the audio, lowered or raised; values below 400 ms (3 s with loudness range enabled) are raised to it. "
     "Raising the limit brings nothing back and loses nothing.",
     ["inputs", "histories", "configurations"], "every sequence of audio and limits",
     "no test limits the history and then measures",
     [E, H], [("limit", E + " set_max_history"), ("bounded queue", H + " Queue::add, set_max_size")],
     LOCK + "; metamorphic twins", "Held on the executions explored.")

prop("C15", "Invalid calls are refused with the documented error and leave no trace",
     "new and change_parameters accept exactly 1..64 channels at 16..2822400 Hz; queries for a mode that is not enabled return an invalid-mode error, channel indices out of range an invalid-channel error, audio that does not fit the channel count (interleaved length, planar count, planar lengths) and oversized windows an error - never a panic. "
     "No refused call changes any result, then or later.",
     ["inputs", "histories", "configurations"], "every argument of every call, in every state of the instance",
     "tests check a few refused arguments on fresh instances and do not look at the state afterwards",
     [E, U, T, I], [("parameter checks", E + " new, change_parameters, set_channel, set_channel_map, set_max_window"), ("input checks", U + " Interleaved::new, Planar::new"), ("mode checks", E + " loudness_*, *_peak")],
     TWIN, "Held on the executions explored.")

prop("C23", "Amplification shifts loudness by the gain and scales peaks",
     "Multiplying all samples by a constant gain of g dB (or its negative) raises momentary, short-term and window loudness by g LU, scales sample and true peaks by the factor, and, as long as the absolute gate separates the same blocks, raises integrated loudness and relative threshold by g LU and leaves the count of gated blocks and the loudness range alone. "
     "Hence a programme normalised by the measured difference to a target measures at the target.",
     ["inputs", "histories", "configurations"], "every signal, gain, rate, layout and mode",
     "no test scales a signal and compares",
     [E, F, H, I], [("linear filter", F + " process"), ("relative gate", H + " RELATIVE_GATE_FACTOR, gated_loudness"), ("linear interpolator", I + " InterpF")],
     TWIN, "Held on the executions explored.")

prop("C24", "The values read at one moment are consistent with each other",
     "At any moment integrated loudness equals the energy over the count of the gating blocks, is not below the relative threshold or the absolute gate unless it is -infinity, and the threshold is -70 LUFS without blocks; the range is finite and not negative; momentary and short-term loudness equal the 400 ms and 3 s windows; a longer window holds no less energy; true peaks are not below sample peaks and overall peaks not below those of the last call. "
     "Overall peaks never decrease until a reset or a change of the channel count.",
     ["inputs", "histories", "configurations"], "every reachable state of every instance, hostile float input (NaN, infinities, denormals) included as far as the relation makes sense",
     "tests check single values on single states, never relations between values in the same state",
     [E, F, H, T], [("queries", E + " loudness_*, relative_threshold, gating_block_count_and_energy"), ("gating", H), ("peaks", F)],
     "runtime monitor: online invariant assertions after random calls", "Held on the states visited.")

prop("C26", "Queries are pure: reading values changes nothing",
     "Calling any query (or formatting the instance for debugging) any number of times in any order, alone or as part of an aggregation, returns the same values each time while no audio is added, and never influences any later measurement.",
     ["histories", "inputs", "configurations"], "every interleaving of audio and queries",
     "tests query once at the end",
     [E, H, F], [("queries", E + " &self methods"), ("aggregation", H + " *_multiple")],
     TWIN, "Held on the executions explored.")

exec(open(os.path.join(V, "tools", "more.py")).read())

if __name__ == "__main__":
    P.sort(key=lambda p: p["d"]["id"])
    for p in P:
        d = p["d"]
        assert len(d["title"]) <= 80, d["id"]
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p["d"], ensure_ascii=False) + "\n")
    m = {"version": 1, "setup_cmd": "./check setup", "checks": [], "not_applicable": [],
         "notes": "See DESIGN.md. All checks are ./check <property>; VERIF_TIER and VERIF_SEED select tier and seed. No hooks in /repo are needed."}
    for p in P:
        i = p["d"]["id"]
        if p.get("na"):
            m["not_applicable"].append({"property": i, "reason": p["na"]})
            continue
        m["checks"].append({"property": i, "quick_cmd": f"./check {i}", "thorough_cmd": f"./check {i} thorough",
                            "technique": p["technique"], "level": p["level"], "level_note": p["level_note"],
                            "evidence_file": f"evidence/{i}.json"})
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write("\n")
