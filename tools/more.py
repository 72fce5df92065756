prop("C16", "No input or sequence of calls panics, overflows or leaves memory bounds",
     "Whatever the configuration, the samples (NaN, infinities, denormals, extremes), the chunk sizes and the order of calls, accepted or refused, safe calls never panic, never overflow in arithmetic, never access memory out of bounds or uninitialised, never violate aliasing rules and never run away in time; they return a value or an error. "
     "This holds in particular at every supported rate from 16 Hz, where the window, block and step sizes round least regularly, and for every number of channels through the interpolators' unchecked code.",
     ["inputs", "histories", "configurations"], "every sequence of public calls with any arguments on any set of instances",
     "a unit test can neither enumerate the rates and sequences nor see an out-of-bounds read that happens to return; the crate has unsafe indexing, raw pointers and unchecked sample iteration",
     [E, F, I, U, H, T], [("interpolator ring buffer pointers and reinterpreted slices", I + " RollingBuffer, InterpF::process"), ("reinterpreted frame slices", I + " align_to"), ("ring buffer arithmetic", E + " add_frames, set_max_window, energy_in_interval"), ("splitting and indexing of samples", U + " Interleaved, Planar"), ("bin index", H + " find_histogram_index")],
     "runtime monitor: crash supervision of hostile workloads under overflow checks, debug assertions, AddressSanitizer and Miri",
     "Held on the executions explored; allocations are capped at 1 GiB each.")

prop("C17", "Calls leave the caller's floating point environment alone",
     "Every call returns with the floating point control state it was called with (MXCSR rounding, flush-to-zero, denormals-are-zero and exception masks; x87 control word), also calls that fail, so that the flushing of denormals during filtering never leaks into the application; and results do not depend on the flush settings the caller runs with.",
     ["inputs", "histories", "configurations"], "every call in every state, under every setting of the caller's control register",
     "tests never look at the control register, and its damage would show only in someone else's arithmetic",
     [F], [("flush-to-zero guard", F + " ftz::with_ftz, Ftz::drop"), ("its use", F + " Filter::process, seed")],
     "runtime monitor: control registers compared around every call", "Held on the executions explored, on x86_64 only: elsewhere the crate does not touch the control register.")

prop("C19", "Instances are independent of each other and usable from any thread",
     "What one instance measures depends on the calls made on it alone: not on other instances, on how their calls interleave with its own, on the thread that makes them or on queries running concurrently on several threads. "
     "The type is Send and Sync, and no use that safe Rust allows has a data race.",
     ["schedules", "inputs", "histories"], "every interleaving of calls on several instances on one or many threads, concurrent queries on shared ones, moves between threads",
     "tests run one instance on one thread at a time",
     [E, I, H], [("shared tables", I + " and " + B), ("Send and Sync", E + " EbuR128, " + I + " RollingBuffer"), ("queries through &self", E)],
     "runtime monitor: results compared with solo runs under threads and random yields; ThreadSanitizer (thorough: Miri's race detector)",
     "Held on the interleavings observed.")

prop("C20", "Failure to allocate the window is an error that changes nothing",
     "When the memory for the audio window cannot be had, new, change_parameters and set_max_window return the out-of-memory error instead of aborting or panicking, and the instance keeps parameters, channel map, window, results and state exactly as they were: everything measured then or later is as if the call had never been made, and repeating the call once there is memory works.",
     ["fault_sequences", "histories", "configurations"], "every call that allocates a window, in every state, with the allocation refused or impossible in size",
     "tests have no way of refusing memory, and the biggest windows that can be asked for exceed any machine",
     [E], [("window allocation", E + " allocate_audio_data"), ("order of updates", E + " change_parameters, set_max_window")],
     "fault injection by a refusing allocator; runtime monitor compares with an untouched twin", "Held on the faults injected; only the window's own allocations are refused.")

prop("C21", "Memory stays bounded however long the programme is",
     "In histogram mode, with a limited history, or without integrated loudness and range, adding audio does not grow memory beyond a bound that does not depend on the length of the programme; otherwise it grows by no more than a few numbers per block. "
     "Queries, resets, reconfigurations, refused calls and dropped instances leave no memory behind.",
     ["histories", "inputs", "configurations"], "every length of programme and number of calls",
     "tests end after seconds of audio and do not watch the allocator",
     [H, E], [("bounded queue", H + " Queue"), ("histogram", H + " Histogram"), ("window", E + " allocate_audio_data")],
     "runtime monitor: counting allocator", "Held on programmes of up to hours of (low-rate) audio.")

prop("C27", "Enabling further measurements does not change the others",
     "Every measurement gives the same result whatever other modes are enabled with it: asking for peaks, range or integrated loudness in addition never changes momentary, short-term, window, integrated or peak values, and unrelated modes do not gate each other.",
     ["configurations", "inputs", "histories"], "every pair of mode sets with a common measurement",
     "the tests enable one measurement or all, and never compare",
     [E, F, H], [("mode implications", E + " Mode"), ("window size by mode", E + " new, allocate_audio_data"), ("scans by mode", F + " Filter::process")],
     TWIN, "Held on the executions explored. Range with or without histogram belongs to C04.")

prop("C18", "The C API is the Rust API, as its header declares it",
     "C code compiled against assets/ebur128.h gets from every function the value and effect the Rust API has for the same call, bit for bit, with the header's return codes (success, no memory, invalid mode, invalid channel index, no change); the public fields of ebur128_state follow the instance, failed calls neither write results nor change the state, and numbers too large for the Rust API are refused, not truncated. "
     "Every function, channel and mode of the header exists and means what it is named; NULL with zero frames is fine, and destroying a state frees everything and clears the pointer, once.",
     ["inputs", "histories", "configurations"], "every sequence of C calls with any arguments the header allows, on any set of states",
     "the one test program of the C API makes a few calls in one order, and never a refused one",
     [C, "assets/ebur128.h"], [("conversion of arguments and errors", C + " ebur128_*"), ("state layout", C + " State"), ("input slices", C + " slice_from_ptr, ebur128_add_frames_*"), ("life cycle", C + " ebur128_init, ebur128_destroy")],
     "runtime monitor: lockstep of C calls through a C shim with Rust calls; AddressSanitizer; allocation balance",
     "Held on the call sequences explored. History limits beyond 32 bits cannot be expressed in the Rust API and only must not be truncated.")

prop("C22", "Measurements are calibrated to BS.1770 and EBU TECH 3341/3342",
     "Sines measure at the level BS.1770 prescribes: -0.691 + 10 log10 of the mean square after the published 48 kHz filter, and at every other rate with the same frequency response (as far as an eighth of the rate); the minimum requirement signals of TECH 3341 (integrated loudness, momentary and short-term time constants, true peaks) and TECH 3342 (range) measure within the standards' tolerances at any rate, in every format, layout and chunking, in histogram mode too.",
     ["inputs", "configurations"], "every sample rate from 11 kHz, frequency, level, format, layout, chunking; every signal of the standards that can be synthesised",
     "the reference tests need files that the repository does not contain and cover one or two rates; the unit tests compare with C and not with the standard",
     [F, E, H, T], [("filter coefficients for any rate", F + " filter_coefficients"), ("energy to loudness", U + " energy_to_loudness"), ("block and window lengths", E + " samples_in_100ms"), ("gates", H), ("oversampling", T)],
     "runtime monitor: absolute oracle from the standards' tables and signals", "Held on the signals explored; signals 7, 8 and 20 to 23 of TECH 3341 need the EBU's files.")

prop("C25", "The results are those of libebur128",
     "The crate produces the same results as the C library it is a port of: for the same calls, all loudness values, ranges, thresholds and peaks agree up to rounding at every moment, and the same calls are refused.",
     ["inputs", "histories", "configurations"], "every sequence of calls that libebur128 has too (creation, audio, channel types, parameter changes, history limits), at every moment",
     "tests compare one add call of random noise at the end; histories of calls with reconfiguration are not compared",
     [E, F, H, T, I], [("whole measurement", E), ("filter", F), ("histories", H), ("interpolator", I)],
     "runtime monitor: lockstep differential execution with libebur128", "Held on the executions explored, at rates of at least 100 Hz (libebur128 overruns its buffer at some lower ones); window loudness (refused by libebur128 1.2.5 by mistake), previous peaks after an empty call or a parameter change, and gate decisions within rounding are not compared.")
