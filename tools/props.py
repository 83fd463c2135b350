NA = {}
PROPS = []


def P(id, title, statement, over, text, why, files, mech, technique, note):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                      files=files, mech=mech, technique=technique, note=note))


GEN = "Exploration by generated cases: a violation found is real and replayable; absence is evidence over the cases counted in the evidence file, not proof. "

P("C01", "A saved plugin session restores every parameter and the custom data",
  "Loading a state that was saved earlier gives every parameter that both sides know bit-for-bit the value it had at the save, leaves parameters the stream does not mention untouched, ignores parameters that no longer exist, and hands the plugin's custom data back unchanged after all parameters are restored. The byte format (magic, version, count, id/value pairs, custom marker, little endian) stays the established one, so sessions of other builds keep loading and a save of a restored state reproduces the same bytes. A save made while parameters are changed or registered still loads completely, with values the parameters really had.",
  ["inputs", "histories", "schedules"],
  "all parameter sets (ids over 32 bits, ranges, values), plugin version differences, custom payloads, chunkings of reader and writer, save/load histories, and parameter changes or registrations at any point during a save",
  "The state package has no test at all; the round trip must hold for every parameter set, value and history, and the mid-save case needs a change at a particular write.",
  ["pkg/framework/state/manager.go", "pkg/framework/param/registry.go", "pkg/framework/param/parameter.go"],
  [("one snapshot of the registry is counted and written", "pkg/framework/state/manager.go Save"), ("ids looked up one by one, unknown ones skipped", "pkg/framework/state/manager.go Load")],
  "property-based testing: round trip, independent codec as differential oracle, stateful save/load histories, writer-driven schedules",
  GEN + "Trusts the harness's own encoder of the format, which was taken from the committed code.")

P("C02", "Hostile, cut or failing state streams never corrupt the plugin",
  "Loading any byte stream returns normally: an error for a wrong magic, a newer version, an impossible parameter count, or a stream that ends early or whose reader fails (and then the reader's error is reported), never a panic. Afterwards every parameter holds a number in [0,1], which is either its value before or the clamped value the stream carries for it, and the plugin can still be saved and restored. A save reports the writer's or custom callback's failure whenever either fails and never changes a parameter.",
  ["inputs", "fault_sequences"],
  "every cut position of a stream, every fault position of a writer, mutated and unstructured byte streams, edge values (NaN, infinities, out of range, negative or huge counts)",
  "No test exists; the guarantee ranges over all byte strings and all fault positions.",
  ["pkg/framework/state/manager.go", "pkg/framework/param/parameter.go"],
  [("header, version and count validation, io errors returned", "pkg/framework/state/manager.go Load/Save"), ("clamping of every stored value", "pkg/framework/param/parameter.go SetValue")],
  "structured fuzzing with fault injection: every cut and every writer fault point of generated streams, mutation-based streams, invariant oracle",
  GEN)

P("C03", "Every parameter stays within its range whatever value arrives",
  "Whatever value a host, session or plugin writes (out of range, infinite or not a number), a parameter's normalized value stays in [0,1] and its plain value in [min,max]; values in range are kept exactly, and a value reset returns to the default. Normalized and plain values map linearly and invert each other, also when the value is set by its plain value. The fluent builder and the ready-made parameters yield exactly the declared id, names, unit, range, default, steps, flags and formatting.",
  ["inputs", "histories"],
  "all float64 values including special ones, all ranges, all builder call orders and get/set histories",
  "The clamping and mapping must hold for every number and range; the tests try a few values.",
  ["pkg/framework/param/parameter.go", "pkg/framework/param/builder.go", "pkg/framework/param/builders.go"],
  [("clamp on every write", "pkg/framework/param/parameter.go SetValue/SetPlainValue/Normalize/Denormalize"), ("range and default set by the builder", "pkg/framework/param/builder.go")],
  "property-based testing: model of a clamped linear parameter over value histories, differential builder check",
  GEN)

P("C04", "Displayed parameter text is right and parses back to the same value",
  "For every ready-made parameter kind and every value, the displayed text shows the plain value within the precision of its format and in its unit, and parsing that text gives the value back within that precision; a number typed in a unit of the kind means exactly that number. A discrete parameter shows its nearest option, parses every option by name, and has the steps hosts expect; text that means nothing is an error and never changes the value.",
  ["inputs"],
  "all values over each kind's range, all ready-made kinds with generated option lists and ranges, generated texts with units, spaces and letter case",
  "Formatting and parsing only have to disagree for one value or suffix; tests check single examples.",
  ["pkg/framework/param/formatters.go", "pkg/framework/param/builders.go", "pkg/framework/param/filter_types.go"],
  [("format and parse functions per unit", "pkg/framework/param/formatters.go"), ("choice and enum parameters", "pkg/framework/param/builders.go Choice")],
  "property-based testing: round trip through text, independent reading of the text as oracle",
  GEN)

P("C05", "Registered parameters keep unique ids, order and identity",
  "A registry holds each id once, rejects a second registration of an id without losing the first, and lists parameters by index in registration order, also while others register or read concurrently. Automatically assigned ids never collide with ids chosen explicitly or reserved, names map to exactly their parameter, and a group registration is visible under every name and id it assigned, with the documented controls of the standard groups.",
  ["inputs", "histories", "schedules"],
  "all registration histories mixing explicit, automatic and reserved ids, duplicate names and ids, and concurrent registrations and reads",
  "Collisions need particular mixes of explicit and automatic ids or particular interleavings.",
  ["pkg/framework/param/registry.go", "pkg/framework/param/registry_auto.go"],
  [("map and order kept under one lock", "pkg/framework/param/registry.go Add"), ("next free id and name table", "pkg/framework/param/registry_auto.go")],
  "stateful model-based testing of registration histories, concurrent histories",
  GEN)

P("C06", "Parameter smoothing glides to the target, without overshoot, in time",
  "A smoothed parameter moves from its old value to its new one along the law of its type (linear, exponential, logarithmic), never leaves the span between them, ends exactly at the target in the time the rate or the sample rate and milliseconds give, and then stays there and reports that it is done. Every change of the underlying value starts a glide, whichever way it was set, retargets start from the current value, and switching smoothing off makes the value follow at once; parameters smoothed together behave as they would alone.",
  ["inputs", "histories"],
  "all smoothing laws, rates, targets and retarget histories, sample rates and times, and value changes by every route",
  "A glide that never ends or misses its target shows only for particular distances, rates or retarget times.",
  ["pkg/framework/param/smoother.go"],
  [("per-sample step of each law", "pkg/framework/param/smoother.go Next"), ("change detection of smoothed parameters", "pkg/framework/param/smoother.go SmoothedParameter"), ("rates from milliseconds", "pkg/framework/param/smoother.go UpdateSampleRate")],
  "stateful property-based testing against the closed form of each law",
  GEN)

P("C07", "Every queued event is delivered exactly once, in time order",
  "Reading a range of the event queue yields exactly the queued events whose offset lies in it, ordered by offset, and in order of arrival for equal offsets; reading a block through any division into sub-ranges, removing what was processed and re-basing to the next block delivers every event exactly once, unaltered. Input and output sides of a buffer are independent, and concurrent adds, reads and removals neither race nor lose or misorder an event.",
  ["inputs", "histories", "schedules"],
  "all event kinds, offsets (equal, negative, extreme), divisions of blocks, operation histories and interleavings of several goroutines",
  "Order and loss problems need equal offsets or an add at a particular moment of a read.",
  ["pkg/midi/queue.go", "pkg/midi/events.go"],
  [("sort and search under one lock", "pkg/midi/queue.go GetEventsInRange"), ("re-basing", "pkg/midi/queue.go OffsetEvents")],
  "stateful model-based testing, concurrent histories under the race detector",
  GEN)

P("C08", "The processing context hands on exactly the block's audio, events and changes",
  "All parameter changes of a block are kept and, once sorted, come in order of their sample offset with equal offsets in order of arrival; parameter values read through the context are the registry's. The copy, clear, pass-through and per-channel, stereo, mono and per-sample helpers touch exactly the channels both sides have, once each and in order, in place or not; event ranges are complete and ordered, and multi-bus lookup returns the first main or auxiliary bus, visits only active buses and passes through or clears exactly the right channels.",
  ["inputs", "histories"],
  "all channel and bus layouts, block lengths, in-place use, change and event histories including hundreds of changes per block",
  "Layout mismatches and equal offsets combine in ways the tests do not enumerate.",
  ["pkg/framework/process/context.go", "pkg/framework/process/helpers.go", "pkg/framework/process/multibus.go"],
  [("change list and stable order", "pkg/framework/process/context.go SortParameterChanges"), ("channel helpers", "pkg/framework/process/helpers.go"), ("bus lookup", "pkg/framework/process/multibus.go")],
  "property-based testing against reference models of the context, stateful histories",
  GEN)

P("C09", "Voice allocation never hangs, cuts or steals a note wrongly",
  "In every history of notes and pedal, a note on sounds on a voice of its own (a free one if any, else the one the stealing mode selects, none if stealing is off), a note off or pedal release releases exactly the voices of the keys let go and never one of a held key, and with all keys and the pedal up no voice is left unreleased. The number of sounding voices never exceeds the limit, mono follows the last key, legato does not retrigger overlapping keys, unison plays all voices, and a reset silences everything.",
  ["histories"],
  "all histories of notes (including 0 and 127), velocities, pedal, voice limits, stealing modes and resets in all four modes, with voices that release slowly, at once or end by themselves",
  "Hanging and cut notes need multi-step combinations of pedal, stealing and self-ending voices.",
  ["pkg/framework/voice/allocator.go"],
  [("note-to-voice mapping", "pkg/framework/voice/allocator.go noteOnPoly/noteOffPoly"), ("sustain handling", "pkg/framework/voice/allocator.go SetSustainPedal"), ("stealing", "pkg/framework/voice/allocator.go stealVoice")],
  "stateful model-based testing with recording voices",
  GEN)

P("C10", "A bus configuration reports to the host exactly the buses declared",
  "A built configuration reports, for every media type, direction and index, exactly the buses that were declared, in order, with their channels, kind, name and activation, and nothing for other indices; counts, active buses, active channel totals and the sidechain follow from them after every host activation. The builder accepts a configuration if and only if it has a main output, audio buses of 1 to 32 channels and addressed no missing bus; the ready-made configurations have their documented layouts.",
  ["inputs", "histories"],
  "all sequences of builder calls with all channel counts, all templates with all sizes, all host activation histories",
  "The layouts and activation histories are a combinatorial space.",
  ["pkg/framework/bus/bus.go", "pkg/framework/bus/builder.go", "pkg/framework/bus/templates.go"],
  [("per-direction indexing", "pkg/framework/bus/bus.go GetBusInfo/SetBusActive"), ("validation", "pkg/framework/bus/builder.go Validate")],
  "stateful model-based testing against a plain list of buses",
  GEN)

P("C11", "A plugin keeps its identity, and its life cycle callbacks run as promised",
  "The 16-byte plugin identifier depends only on the id string, never changes for an id (published examples keep theirs, all others follow the deterministic version-4 derivation), and differs between different ids; only an empty id is invalid. Initializing stores the sample rate before the plugin's callback runs, deactivating resets before the activation callback, callbacks get the host's values, their errors reach the host, and a missing callback is no error.",
  ["inputs", "histories"],
  "all id strings and metadata, all sequences of life cycle calls with callbacks present, absent, replaced or failing",
  "A changed identifier breaks every saved session but only for ids no test lists; the life cycle is a history property.",
  ["pkg/framework/plugin/info.go", "pkg/framework/plugin/processor.go", "pkg/framework/plugin/base.go"],
  [("deterministic UID", "pkg/framework/plugin/info.go UID"), ("callback order", "pkg/framework/plugin/processor.go SetActive/Initialize")],
  "property-based testing with an independent derivation as oracle, stateful call histories",
  GEN)

P("C12", "Musical time and note arithmetic is exact everywhere on the timeline",
  "Bars, beats, the position within a beat (always in [0,1)), on-beat detection and samples per beat are right for every meter, tempo and position, before the project start as well, and zero when the host did not supply what they need. Notes and frequencies follow equal temperament for every tuning, each frequency belongs to its nearest note (limited to 0..127), names follow the octave of the note, and events report their own type, channel, offset and normalized bend.",
  ["inputs"],
  "all meters, tempos, positions on and around bar lines (negative too), validity flags, all 128 notes, tunings and frequencies over the double range",
  "Rounding at bar lines, negative positions and note borders only shows at particular values.",
  ["pkg/framework/process/context.go", "pkg/midi/events.go"],
  [("bar and beat arithmetic", "pkg/framework/process/context.go TransportInfo"), ("note and frequency conversion", "pkg/midi/events.go")],
  "property-based testing against exact dyadic arithmetic and closed forms",
  GEN)

P("C19", "Every filter has exactly the response of its published design",
  "Each biquad design (low, high, band pass, notch, all pass, peak, shelves, direct coefficients), the state-variable filter with its outputs, mixes and morph, and the DC blockers produce sample by sample the output of their published equations for the set frequency, Q and gain. Changing a setting keeps the running state, channels do not influence each other, buffer and single-sample processing agree, and a reset clears the state of every channel. The measured steady-state gain is what the kind promises at DC, at the corner and towards Nyquist.",
  ["inputs", "histories"],
  "all designs, frequencies from near 0 to near Nyquist, Q and gain values, sample rates, signals, channels interleaved in any order, setting changes and resets at any time",
  "The filter package has no tests at all, and a wrong coefficient term matters only for some frequency, Q or gain.",
  ["pkg/dsp/filter/biquad.go", "pkg/dsp/filter/svf.go", "pkg/dsp/utility/dcblocker.go"],
  [("cookbook coefficients", "pkg/dsp/filter/biquad.go Set*"), ("trapezoidal integrators", "pkg/dsp/filter/svf.go Process*"), ("per-channel recurrence", "pkg/dsp/utility/dcblocker.go")],
  "property-based testing: differential against double-precision design equations, measured response, stateful setting histories",
  GEN)

P("C20", "Delay lines return what was written, exactly that long ago",
  "Reading a delay line d samples back gives the sample written d samples ago, or the linear blend of the two neighbours when d is fractional, for every d from one sample to the longest delay of the line and every write position; shorter delays read the newest sample, longer ones the oldest, nothing fails. Buffer, millisecond and single-sample processing agree, dry and wet mix as set, and a reset leaves silence. Combs, diffusers, multi-tap and modulated delays follow their recurrences on the written history with the delay, feedback, damping, gain, pan, rate and depth that were set.",
  ["inputs", "histories"],
  "all delay lengths including within rounding of whole numbers, all write positions and wrap-arounds, histories of writes, reads, setting changes and resets",
  "The delay package has no tests; wrong indices need a particular delay at a particular write position.",
  ["pkg/dsp/delay/delay.go"],
  [("fractional read position", "pkg/dsp/delay/delay.go Line.Read"), ("feedback paths", "pkg/dsp/delay/delay.go CombDelay/AllpassDelay"), ("taps and modulation", "pkg/dsp/delay/delay.go MultiTapDelay/ModulatedDelay")],
  "stateful model-based testing against the written history and double-precision recurrences",
  GEN)

P("C21", "Oscillators and noise produce exactly the waveform and colour they name",
  "Every oscillator gives the value of its waveform at the phase accumulated from the set frequency, which wraps for negative frequencies too, whether it is run by sample or by buffer, and stays within full scale. The band-limited impulse train is the sum of the harmonics below Nyquist, and the band-limited saw has the harmonics of a rising sawtooth and nothing else. Noise is bounded, reproducible from its seed for every type, adds as it generates, and its spectrum falls or rises as its colour says.",
  ["inputs", "histories"],
  "all frequencies (zero, negative, above Nyquist), phases, pulse widths, sample rates, block divisions and setting histories; all seeds and noise types",
  "The oscillator package has no tests; aliasing and drift show only at particular frequencies.",
  ["pkg/dsp/oscillator/oscillator.go", "pkg/dsp/utility/noise.go"],
  [("phase accumulation", "pkg/dsp/oscillator/oscillator.go updatePhase"), ("closed-form impulse train and its integration", "pkg/dsp/oscillator/oscillator.go BLIT/BandLimitedSaw"), ("noise shaping", "pkg/dsp/utility/noise.go")],
  "property-based testing against closed forms and harmonic sums, spectra of generated noise",
  GEN)

P("C23", "Gain, pan, mix and block operations compute their formula on every sample",
  "Each gain, decibel, clipping, mixing, summing, crossfading and fading operation gives every sample within the shortest of its buffers the value of its formula and touches nothing else, in place or not, for buffers of any lengths. Decibel and linear gain convert into each other, with silence below the minimum level. Pan laws have their documented gains (the balanced law -4.5 dB at the center), mirror at the center and do not jump; stereo panning, balance, width and automatic panning follow from them, and clipping treats both signs alike.",
  ["inputs", "histories"],
  "all buffer lengths including unequal and empty ones, levels, factors, pan positions, fades and crossfade positions, divisions into blocks for the automatic panner",
  "Wrong lengths and wrong signs show only for particular buffers; tests use equal lengths and positive values.",
  ["pkg/dsp/buffer.go", "pkg/dsp/gain/gain.go", "pkg/dsp/mix/mix.go", "pkg/dsp/pan/pan.go"],
  [("per-sample loops bounded by the shortest buffer", "pkg/dsp/mix/mix.go Sum"), ("pan laws", "pkg/dsp/pan/pan.go MonoToStereo"), ("soft and hard clipping", "pkg/dsp/buffer.go SoftClip")],
  "property-based testing against per-sample formulas with guard samples, metamorphic relations of the pan laws",
  GEN)

P("C33", "Interpolation, resampling and parameter scaling compute their curves exactly",
  "Linear, cubic and Hermite interpolation pass through the samples and reproduce polynomials of their order, sinc and Lanczos interpolation apply their kernel centred on the position and reproduce slow sines, and the allpass interpolator delays by its fraction at unit gain. Resampling writes, at index i, the interpolated value at position i/ratio, stops where the input ends and reports how many samples it wrote. Linear, exponential, curved, skewed, stepped and bipolar scaling follow their closed forms and invert each other, and the one-pole smoother approaches its target exponentially with its time constant.",
  ["inputs", "histories"],
  "all fractions, positions at and beyond the ends of a buffer, window sizes, ratios, ranges and retarget histories",
  "The interpolation package has no tests; wrong terms vanish at the sample points a test would pick.",
  ["pkg/dsp/interpolation/interpolation.go", "pkg/dsp/utility/parameter.go"],
  [("polynomial and windowed kernels", "pkg/dsp/interpolation/interpolation.go"), ("scaling curves", "pkg/dsp/utility/parameter.go")],
  "property-based testing against double-precision kernels and closed forms, round trips",
  GEN)

P("C17", "Compressor, expander and gate follow their curves, timing and states",
  "The gain of the compressor and the expander follows the static curve of threshold, ratio, knee, makeup and range from the detected level: a knee joins both sides smoothly and never boosts, the level never passes the range, and attack, release and hold move at their time constants. The gate runs closed, attack, open, hold and release with hysteresis, fades at the set times, never goes below its range, and reports the state it is in. Stereo signals keep their balance because both channels get one gain, lookahead delays only the audio, setting changes act at once at any time, and a reset gives a fresh processor.",
  ["inputs", "histories"],
  "all thresholds, ratios, knees, ranges, times and sample rates; levels over the whole range; signals, bursts and silence; setting changes, resets and mono, stereo, buffer and sidechain calls in any order",
  "Wrong gain shows only in a knee, at a range or in one state of a history; the tests look at a few levels with wide tolerances.",
  ["pkg/dsp/dynamics/compressor.go", "pkg/dsp/dynamics/expander.go", "pkg/dsp/dynamics/gate.go"],
  [("static curve in decibels", "pkg/dsp/dynamics/compressor.go computeGain"), ("knee and range of the expander", "pkg/dsp/dynamics/expander.go"), ("state machine with hysteresis and hold", "pkg/dsp/dynamics/gate.go")],
  "stateful model-based testing against detectors, static curves and state machines in double precision; metamorphic stereo relations",
  GEN)

P("C18", "The limiter never lets a sample above its ceiling and leaves the rest alone",
  "No output sample of the limiter is above its ceiling or louder than its input, whatever the signal, the settings and their changes, in mono, stereo and buffer processing; both channels get the same gain. A signal that stays below the ceiling comes out bit for bit, delayed by the lookahead, and after a peak the gain returns to unity at the release time. The reported gain reduction is the one that was applied.",
  ["inputs", "histories"],
  "all signals up to +40 dB, ceilings, releases, lookahead times, sample rates, true-peak settings, changes and resets at any time",
  "A ceiling is a claim about every sample of every signal; tests check a few sine waves after settling.",
  ["pkg/dsp/dynamics/limiter.go", "pkg/dsp/envelope/detector.go"],
  [("instant attack, ceiling enforced on the delayed sample", "pkg/dsp/dynamics/limiter.go Process")],
  "property-based testing: invariants over the signal history, double-precision model, metamorphic transparency",
  GEN)

P("C22", "Envelopes and level detectors follow their segments and time constants",
  "An envelope rises, decays, sustains and releases along its exponential segments at the set times from whatever level it is at; triggering, releasing and changing settings at any stage takes effect without a jump in level, a held envelope always reaches its sustain level and a released one becomes idle. Level detectors follow the absolute, windowed RMS or held peak level with the set attack and release, never become negative or NaN, whatever loud passages went before, and start over after a reset. Running by sample, by buffer or as a multiplication gives the same values.",
  ["inputs", "histories"],
  "all times, levels and sample rates; triggers, releases, resets and setting changes at any stage; signals with levels over nine decades",
  "Stage changes in an unusual order and long accumulations lie outside what a test steps through.",
  ["pkg/dsp/envelope/envelope.go", "pkg/dsp/envelope/detector.go"],
  [("stage transitions of the envelope", "pkg/dsp/envelope/envelope.go Next"), ("running RMS window and peak smoothing", "pkg/dsp/envelope/detector.go Detect")],
  "stateful model-based testing against closed-form segments and recomputed windows",
  GEN)

P("C29", "Reverbs follow their networks, stay stable and fall silent",
  "Comb, all-pass and damping parts and the three reverbs give, for every signal and setting history, the output of their published networks: parallel combs with diffusers on each side, detuned between the sides, or delays coupled through an orthogonal matrix of the chosen size, mixed at the set wet, dry and width. After the input stops the tail always dies away and never grows, except when frozen, which keeps the tail and lets nothing new in. A reset silences a reverb, and presets set what they name.",
  ["inputs", "histories"],
  "all rooms, dampings, widths, decay times, network sizes, diffusions, modulations and sample rates; mono and stereo calls; changes, freezing and resets at any time",
  "Feedback networks can be unstable or cross-talk for particular sizes and settings only; tests check that some output appears.",
  ["pkg/dsp/reverb/schroeder.go", "pkg/dsp/reverb/freeverb.go", "pkg/dsp/reverb/fdn.go"],
  [("comb and all-pass recurrences", "pkg/dsp/reverb/schroeder.go combFilter/allpassFilter"), ("freezing as unit feedback without input", "pkg/dsp/reverb/freeverb.go update"), ("orthogonal feedback matrix", "pkg/dsp/reverb/fdn.go")],
  "stateful differential testing against double-precision networks; decay and freezing as invariants of the history",
  GEN)

P("C30", "Distortions apply exactly their shape to each channel",
  "Every waveshaper, folder, crusher, tube and tape processor gives each channel the value of its named curve at the set drive, bias, mix and output, filtered as documented, with its state kept per channel, and the answer comes at once for every input however loud. Bit and rate reduction put samples on the grid of the depth and hold them for the set number of samples, fractions included; dither is noise about the true value. Sample, block and stereo processing agree and a reset gives a fresh processor.",
  ["inputs", "histories"],
  "all curves and parameters, inputs from zero to the largest number, depths, reductions, sample rates, mono, block and stereo calls, setting changes and resets at any time",
  "Shared state between channels and unending folds show only for stereo or huge inputs.",
  ["pkg/dsp/distortion/waveshaper.go", "pkg/dsp/distortion/bitcrusher.go", "pkg/dsp/distortion/tube.go", "pkg/dsp/distortion/tape.go"],
  [("transfer curves", "pkg/dsp/distortion/waveshaper.go Process"), ("hold counter and quantizer per channel", "pkg/dsp/distortion/bitcrusher.go"), ("hysteresis and emphasis per channel", "pkg/dsp/distortion/tape.go")],
  "property-based testing against closed-form curves and per-channel models over setting histories",
  GEN)

P("C31", "Modulation effects follow their oscillator, delay and mix settings",
  "The low-frequency oscillator gives the value of its waveform at the accumulated phase, with depth and offset, and random waveforms hold one value per period, the same after a reset and whatever other instances do. Chorus and flanger read the written signal at the modulated delay of each voice, phasers turn the phase through the swept all-pass cascade with feedback, ring modulator and tremolo multiply by their carrier or gain at the phase of each channel. Mix, depth, feedback and spread take effect as set; sample, stereo and buffer calls agree and a reset gives a fresh effect.",
  ["inputs", "histories"],
  "all waveforms, rates, depths, delays, feedbacks, voices, stages, spreads and sample rates; mono, stereo and buffer calls; changes and resets at any time",
  "Wrong phases, voices or channels need particular histories; tests only look for any output.",
  ["pkg/dsp/modulation/lfo.go", "pkg/dsp/modulation/chorus.go", "pkg/dsp/modulation/flanger.go", "pkg/dsp/modulation/phaser.go", "pkg/dsp/modulation/ringmod.go", "pkg/dsp/modulation/tremolo.go"],
  [("phase accumulation and waveforms", "pkg/dsp/modulation/lfo.go Process"), ("modulated delay reads", "pkg/dsp/modulation/chorus.go"), ("all-pass cascade", "pkg/dsp/modulation/phaser.go")],
  "stateful differential testing against double-precision models over setting histories",
  GEN)

P("C24", "Spectra are the Fourier transform of what was fed, in every size and mode",
  "Forward, complex and inverse transforms of any size give the discrete Fourier sum of the windowed, zero-padded input, windows have their defining shape, and the inverse undoes the forward transform. Cross-correlation gives the sum of products at each lag, so that a delayed copy peaks at its delay. The analyzer transforms a frame at every hop, averages or holds as set, and its ranges, bands, peak and bin conversions describe that same spectrum.",
  ["inputs", "histories"],
  "all sizes, windows, signals shorter and longer than the size, reuse of one object, analyzer histories of blocks, hops, averaging, ranges and resets",
  "Wrong bins, stale buffers and wrong lags vanish for the single sine waves and identical signals of the tests.",
  ["pkg/dsp/analysis/fft.go", "pkg/dsp/analysis/spectrum.go"],
  [("radix-2 transform and direct sum", "pkg/dsp/analysis/fft.go fft"), ("product of spectra", "pkg/dsp/analysis/fft.go CrossCorrelation"), ("overlapping frames and averaging", "pkg/dsp/analysis/spectrum.go Process")],
  "differential testing against the Fourier sum, round trips, stateful model-based testing of the analyzer",
  GEN)

P("C25", "Level and stereo meters show the signal's true peak, power and correlation",
  "A peak meter shows the loudest sample decaying at its rate and holds it for its time, an RMS meter the power of its last window whatever loud passages went before, a correlation meter Pearson's coefficient of its last window (averaged, with the lowest value held for its time), and balance and width the ratio of averaged powers, extreme for signals on one side only. Phase displays show the last points in order, left on the left, with brightness, polar form and statistics that describe them. A reset gives a fresh meter.",
  ["inputs", "histories"],
  "all signals over 12 decades, constants, silence and one-sided signals, block lengths, windows, hold times, modes and resets",
  "Accumulated rounding, constant signals and unusual block lengths lie outside the tests' short sine waves.",
  ["pkg/dsp/analysis/meters.go", "pkg/dsp/analysis/correlation.go", "pkg/dsp/analysis/phasescope.go"],
  [("running sum over a ring", "pkg/dsp/analysis/meters.go RMSMeter.Process"), ("windowed Pearson coefficient and hold", "pkg/dsp/analysis/correlation.go"), ("ring of points", "pkg/dsp/analysis/phasescope.go")],
  "stateful model-based testing against recomputed windows",
  GEN)

P("C26", "Loudness readings follow the broadcast standard for every programme",
  "Momentary and short-term loudness are the K-weighted, channel-weighted power of the last 0.4 and 3 seconds, integrated loudness that of all 0.4-second windows past the absolute and the relative gate, and the loudness range the spread between the 10th and 95th percentile of gated short-term loudness. None of them depends on how the programme was cut into blocks, and a reset starts over.",
  ["inputs", "histories"],
  "all programmes of loud, quiet and silent sections, channel layouts, sample rates, block lengths and resets",
  "Gates, layouts and block lengths only matter for particular programmes; tests check that readings exist.",
  ["pkg/dsp/analysis/meters.go"],
  [("K-weighting filters", "pkg/dsp/analysis/meters.go createKWeighting*"), ("windows and gates", "pkg/dsp/analysis/meters.go LUFSMeter.Process/GetIntegratedLUFS")],
  "differential testing of generated programmes against the standard computed from the whole programme",
  GEN)

P("C27", "A processing chain does what its parts do, in order, in parallel and nested",
  "A chain of processors gives what its parts give one after the other, a parallel chain the sum of its branches' outputs on the same input times their gains, and a bypassed or empty chain passes the signal unchanged, however chains are nested, extended and fed with blocks of any size. A reset reaches every part once, and a builder gives the chain of what was added or, for a nil part or no parts, an error. Adapters and ready-made chains do what the processor they wrap does, with its time constants in the documented unit.",
  ["inputs", "histories"],
  "all trees of chains, parallel chains, functions and stateful parts, block lengths, bypass changes, later additions and resets; all settings of the wrapped processors",
  "Nesting, shared buffers between branches, bypass of inner chains and growing blocks combine in ways that the tests' flat chains never show.",
  ["pkg/framework/dsp/chain.go", "pkg/framework/dsp/adapters.go"],
  [("serial processing", "pkg/framework/dsp/chain.go Chain.Process"), ("branches on copies of the input, mixed by gain", "pkg/framework/dsp/chain.go ParallelChain.Process"), ("error collection", "pkg/framework/dsp/chain.go Builder.Build"), ("adapters", "pkg/framework/dsp/adapters.go")],
  "model-based testing of random processor trees against a recursive model; differential testing of the adapters",
  GEN)

P("C32", "Logs, profiles and buffer inspections tell the truth",
  "A log message is written whole, once, in one piece and in order, exactly if its severity and the settings ask for it, with the parts the flags name and the line that called it, even from several threads or while its arguments log themselves. Profiler statistics are the count, sum, extremes, mean and percentiles of the sections timed since the last reset, and copies taken earlier do not change. Buffer analysis, checks, comparisons and dumps report the peak, power, offset, clipping, not-a-numbers, differences and samples that are there, and allocation checks count and detect what happened.",
  ["inputs", "histories", "schedules"],
  "all flags, levels, prefixes and messages on own, file and global loggers; nested, overlapping and failing sections; all buffers; histories of buffer checks, frames and pools; several threads",
  "Diagnostics that mislead cost more than none; caller lines, percentiles, not-a-numbers and concurrent use are outside the tests' samples.",
  ["pkg/framework/debug/logger.go", "pkg/framework/debug/profiler.go", "pkg/framework/debug/audio.go", "pkg/dsp/debug/buffer_debug.go"],
  [("level, flags and caller", "pkg/framework/debug/logger.go log"), ("statistics and sample ring", "pkg/framework/debug/profiler.go record/Percentile"), ("buffer analysis", "pkg/framework/debug/audio.go"), ("allocation tracking", "pkg/dsp/debug/buffer_debug.go")],
  "stateful model-based testing of histories, differential testing against direct computation, concurrent stress under the race detector",
  GEN)

P("C13", "Results do not depend on block size, entry point, neighbours or a used past",
  "Every effect, filter, detector and generator gives the same output (up to rounding) whether audio arrives as one block, cut at any places, sample by sample, in place or into another buffer, whatever settings change between the blocks; what it reports of itself (gain reduction, level, state) agrees too. After a reset it behaves exactly as a new one with the same settings, even if it was fed infinities or not-a-numbers. No instance is affected by what other instances do.",
  ["inputs", "histories"],
  "all some 50 kinds of processor, all entry points, rates, histories of settings, resets and runs of audio, all divisions into blocks; a second instance of any kind running beside",
  "Hosts choose block sizes, reuse instances after a reset and run dozens of instances; state carried wrongly across a cut or a reset shows only for particular settings and histories.",
  ["pkg/dsp", "pkg/framework/dsp/chain.go", "pkg/framework/param/smoother.go"],
  [("per-sample state", "pkg/dsp/*/ Process, ProcessBuffer, ProcessStereo"), ("resets", "pkg/dsp/*/ Reset")],
  "metamorphic testing: the same history through different block divisions, entry points, instances and pasts must agree",
  GEN)

P("C16", "No audio and no setting makes a processor crash, hang or run away",
  "Processing blocks of any length, empty ones included, with any samples whatever (infinite, huge, denormal, not-a-number) and any settings, in range or out of it, and reading what it shows, does not panic or hang. With settings in range and ordinary audio every output sample is finite and bounded, however often the settings change and however long the sound is held. Where the ranges of all settings are enforced, the same holds for settings out of range.",
  ["inputs", "histories"],
  "all some 60 kinds of processor and meter; settings from far below to far above their range and infinite; samples of every class; held sounds of up to 16000 samples",
  "A crash takes the host down with it and an instability destroys ears and speakers; either needs a corner of settings and samples that no unit test visits.",
  ["pkg/dsp", "pkg/framework/dsp/chain.go", "pkg/framework/param/smoother.go"],
  [("range enforcement", "pkg/dsp/*/ Set functions"), ("feedback paths", "pkg/dsp/delay, pkg/dsp/reverb, pkg/dsp/modulation, pkg/dsp/filter")],
  "fuzzing of settings and samples with crash, hang, finiteness and boundedness oracles",
  GEN)

P("C28", "The audio path never allocates memory",
  "Once a processor or meter has been made, processing a block through any of its entry points, resetting it, reading a level and changing any setting that does not resize a buffer allocates no heap memory, whatever the settings, the audio and the block length. Nor do the calls a plugin makes in its process callback: per-channel, per-frame and per-bus processing, work buffers, parameters, up to 128 automation points, smoothing and transport.",
  ["inputs", "histories"],
  "all some 60 kinds of processor and meter, all entry points, histories of settings and blocks of 1 to 2048 samples; all sequences of context calls over channel and block counts",
  "The library promises zero allocations in the audio path; one that happens only for some settings, sizes or first uses makes a garbage collection pause the audio thread and is invisible to functional tests.",
  ["pkg/dsp", "pkg/framework/process/context.go", "pkg/framework/process/helpers.go", "pkg/framework/process/multibus.go", "pkg/framework/param", "pkg/framework/dsp/chain.go"],
  [("pre-allocated buffers", "pkg/framework/process/context.go NewContext"), ("block processing", "pkg/dsp/*/ Process")],
  "generated histories with heap allocations counted for each call; repeated on new instances to rule out noise",
  GEN)


P("C14", "Parameters, registries and meters stay right when several threads use them",
  "Parameter values may be written and read by any threads at once: every value read, shown or saved is one that was written, never a mixture, and the last one written remains. Parameters registered from several threads get unique ids outside reserved ranges, exactly one of several claims to an id succeeds, and every listing taken meanwhile is a complete beginning of the final order. A meter or analyzer read while another thread feeds it shows exactly the reading between two of the feeder's steps, also while its settings change.",
  ["schedules", "histories"],
  "schedules of 1 to 4 writers and readers over parameters, contexts, saved states, registries and every meter and analyzer; drawn sequences of values, registrations, blocks, settings and resets",
  "The interface thread, the host and the audio thread use these objects at once; a torn value or half-updated reading depends on the interleaving, which single-threaded tests do not produce.",
  ["pkg/framework/param/parameter.go", "pkg/framework/param/registry.go", "pkg/framework/param/registry_auto.go", "pkg/dsp/analysis/meters.go", "pkg/dsp/analysis/correlation.go", "pkg/dsp/analysis/phasescope.go", "pkg/dsp/analysis/spectrum.go"],
  [("atomic values", "pkg/framework/param/parameter.go SetValue/GetValue"), ("registry lock", "pkg/framework/param/registry.go, registry_auto.go"), ("meter locks", "pkg/dsp/analysis/*.go Process/Get")],
  "generated concurrent schedules under the race detector with linearizability oracles",
  GEN)
