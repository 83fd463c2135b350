HEAD = """
# Verification of vst3go by property-based testing and fuzzing

(Generated by `tools/design.py` from the checks, `tools/props.py`, `tools/design_text.py`,
`seeded/*/meta.json` and `known-findings.txt`. Edit those, not this file.)

## What is decided, and how

vst3go is a framework for audio plugins: parameters, state, buses, events, voices and a plugin life
cycle (`pkg/framework`, `pkg/midi`) over a library of signal processors and meters (`pkg/dsp`).
What its users rely on falls into three groups, and the 32 properties cover them by area:

- the host contract: sessions restore (C01, C02), parameters stay in range and show the right text
  (C03, C04), ids stay unique (C05), smoothing (C06), events (C07, C12), the process context (C08),
  voices (C09), buses (C10), identity and life cycle (C11);
- what each processor computes: C17-C27, C29-C31, C33, each against an independent model;
- what holds across all of them: blocks, resets and neighbours do not matter (C13), threads do not
  tear anything (C14), nothing crashes or runs away (C16), the audio path does not allocate (C28),
  diagnostics tell the truth (C32).

`pkg/plugin` and `pkg/vst3` need the VST3 C headers, which are not here, and do not build in this
sandbox; they are outside the build and test scope of `/opt/vp` and of these checks.

## The machinery

`./check ID [quick|thorough]` builds `harness/checks/<id>` against /repo's working tree (a module
replacement, no copy) and runs it. `harness/vk` drives every sub-check through
`pgregory.net/rapid`: cases are drawn from structured generators, a failure is shrunk and written to
`replays/` as the sequence of draws, and `./check ID --replay FILE` runs exactly that case again.
`VERIF_SEED` chooses the cases; a run with the same seed is the same run (thread schedules aside).
The case counts listed below are those of scale 1; the quick commands of the light checks in
MANIFEST.json pass `--scale 3` and draw three times the quick counts.

- **Generators.** Integers and reals are spread evenly or log-evenly over their range with end points
  and the middle over-represented; signals are a shape (impulse, step, sine, noise, bursts,
  alternating full scale, levels over decades, decaying square) and a drawn 64-bit state, so they
  shrink to simple ones. Histories are drawn operation by operation and mirrored in a model. One case
  in forty is *big*: half of its sizes (parameters, events, voices, nesting, block lengths, numbers
  of operations) come log-evenly from the usual size up to thousands, for what breaks only when there
  is a lot of something, or of several things at once.
- **Oracles.** In order of preference: an independent model in double precision written from the
  documentation or the published equations (`harness/ref` for the shared ones), compared at every
  step of the history; a round trip or an independent codec; a metamorphic relation (other block
  division, other entry point, fresh instance); an invariant of the history. Tolerances are relative
  to the loudest value so far; where float32 rounding adds up (combs with feedback near one), the
  model carries a running bound of it, and the comparison allows exactly that.
- **Borders.** Where a decision lies within rounding of the reference (a gate threshold, an envelope
  stage, a waveform jump), either side is accepted and, where the history forks, the case ends. This
  is what keeps behaviour-preserving edits quiet; each such rule is listed under "Assumes".
- **Hangs and crashes.** A watchdog turns a case that does not come back into a violation with the
  draws so far; a panic in the code under test is a violation.
- **Schedules.** C07, C14 and C32 are built with the race detector; a data race in the code under
  test is a violation. `harness/procs` is a registry of some 60 processors and meters with their
  settings and entry points, which C13, C16 and C28 range over.
- **Evidence.** Every run rewrites `evidence/<id>.json`: cases drawn, cases non-trivial by the rule
  of each sub-check (distinct ones counted by hash of the description), classes and samples.

All checks are at the level *exploration*: a violation is real and replayable, absence is evidence
over the counted cases. Quick runs take 1 to 20 s each on 8 cores, thorough ones up to some minutes
(C13, C16, C26, C29 are the longest). No property was given up: `not_applicable` is empty.
No hooks were needed in /repo; everything goes through exported API, so the checks judge what the
code does, not how it is written.

## The properties
"""

TAIL = """
## How the checks themselves were tested

- **Planted bugs** (`seeded/`): listed above with the check that catches each. Every one compiles,
  passes the existing tests, and is caught by the quick run of its property.
- **Hand-written bugs in batches** (not kept): about 450 small changes over nine rounds, written from
  the property texts: wrong terms, missing resets, off-by-one ranges, forgotten channels, stale
  caches, lock omissions, and in the last round faults that need large sizes. Each one missed was
  either shown to change nothing observable or led to a stronger check; the last round brought the big
  cases into all generators.
- **Mutation testing** (`tools/mutate`): operators, constants, statements and conditions of
  `pkg/dsp`, `pkg/framework` and `pkg/midi` mutated at random, each mutant run against the existing
  tests and the checks of its package. The survivors were read one by one; what remained after
  strengthening is equivalent (capacity hints, redundant guards, rounding) or left open by the
  documentation.
- **Soak**: quick runs at several times their size over other seeds on the unchanged tree. What this
  found were tolerances too tight for rare settings (listed below), each corrected by a bound derived
  from the rounding, not by a looser constant.

## False alarms that were corrected

- A value infinite on one side only used to count as close (a missed alarm, found by mutation).
- Relative tolerances on denormal numbers (limiter, tremolo): denormals may round to zero.
- A reverb with damping near 1 keeps its lowest tones for many seconds: the decay claim draws
  dampings up to 0.97 (or exactly 1).
- Combs and damping filters with feedback or damping within 1% of one integrate float32 rounding:
  the model carries a rounding bound.
- A peak-hold detector fed the level it already shows may or may not begin its hold again, by one
  rounding: the comparison ends there.
- Chains of integer gains beyond 2^24 are compared relatively.

## Left alone on purpose

Behaviour that looks odd but is documented, pinned by an existing test, or not promised anywhere is
checked as it is or not claimed: the soft clipper of `pkg/dsp/gain` jumps at its threshold, the
detector jumps to far louder peaks, the exponential waveshaper steps at full scale, the tube curve is
not monotone at its knee, the Schroeder width only lowers the level, the flanger's and phaser's right
channel is made from the left one, tape hiss and flutter use the global random source, transforms
return their internal buffers, loudness weights of 4- and 8-channel layouts are unspecified, filters
above the Nyquist frequency are unstable, and settings that are not numbers are outside C16.
"""

HOW = {
"C01": "Two instances stand for the saving and the loading side of a session. A generated parameter set is changed through every setter, saved, and loaded through readers that return short reads into a set with parameters added, removed, reordered and re-ranged; values are compared bit for bit. The byte format is held fixed by an encoder and decoder of its own, in both directions. For saves during changes the writer is the schedule: each write of the stream may change or register parameters. Tests cannot reach this because there are none for the state package and the claim is about all sets, histories and moments.",
"C02": "Valid streams are cut at every position, their writers and readers fail at every position (for good, or once and then recover), and bytes are flipped, lengthened, replaced by extreme counts and non-finite values, or drawn freely. The oracle is the invariant of the statement, with the clamped value of an independent decoder as the only other value a parameter may take.",
"C03": "A parameter is a clamped linear map: the model is four lines, the generators are the point (all float64 classes, degenerate and negative ranges, step counts). Builders are compared with what was declared, in any order of calls, ready-made parameters with their documented data.",
"C04": "For every ready-made kind a value is shown, the text read by a reader of its own (number, unit, note name, option), and parsed back by the library: all three must agree within the precision the text has. Hostile texts must be errors that change nothing.",
"C05": "Registration histories mix explicit, automatic and reserved ids and duplicate names against a plain list; group registrations are checked under every name and id.",
"C06": "The closed form of each law is compared at every sample of a history of retargets, resets, times and rates, by direct use, through smoothed parameters and through the manager.",
"C07": "A stable sort of a list is the whole model; histories mix adds, ranges, removals, re-basing and clears, up to thousands of events. Concurrent histories run under the race detector with a linearizability oracle: a read holds everything added before it began, in order.",
"C08": "The context is compared with plain slices: parameter changes in the thousands, events, channel helpers with every mismatch of input and output layout, in place or not, and bus lookup over generated configurations, several blocks on one context.",
"C09": "Recording voices (that release at once, slowly, or end by themselves) log every call; after each step of a history the calls must be exactly those the model of the mode demands. Big cases hold dozens of keys over up to 128 voices.",
"C10": "A list of declared buses is the model of builder and configuration, checked over every index, count, total and template size after each host activation.",
"C11": "Identifiers are derived a second time from the definition and compared, published ones are pinned, and pairs of ids (one bit apart, too) must differ; life cycle calls are histories with callbacks present, absent, replaced or failing.",
"C12": "Positions are drawn as exact dyadic numbers of beats so that bar, beat and fraction are known exactly, on both sides of zero and far away; notes and frequencies against equal temperament in double precision.",
"C13": "Each processor of the registry lives through a drawn history of settings, resets and audio. One instance gets it in one block through one entry point, the other cut at drawn places through drawn entry points; a reset instance is compared with a new one; an instance with neighbours with one alone. Tolerance 1e-5 of the loudest sample for cuts, 1e-6 after resets, exact beside others.",
"C14": "Writers and readers run at once under the race detector. Values carry a tag that makes any mixture visible, registrations are checked for prefix-consistency of every listing, and meter readings taken during feeding must equal one of the readings a sequential run of the same steps gives between two steps.",
"C16": "Fuzzing over the registry: settings from far below to far above their ranges and infinite, samples of every class, empty and long blocks. Oracles: no panic, no hang, no stuck NaN after a reset, finite and bounded output for ordinary audio and (where ranges are enforced) for any settings.",
"C17": "Detectors, static curves and the gate's state machine are rebuilt in double precision and run beside the real processors through histories of settings, sidechains, lookahead and resets; stereo linking is a metamorphic relation.",
"C18": "The ceiling and 'never louder than the input' are invariants of every sample against the delayed input; below the ceiling the output must be the delayed input bit for bit; the recovery and the reported reduction follow a model.",
"C19": "Coefficients come from the published design equations in double precision, and the recurrence runs beside the filter, channel by channel, over changing settings; steady-state gain is measured at DC, at the corner and towards Nyquist.",
"C20": "The written history is the model of every read; combs, all-passes, taps and modulated reads are recurrences over it, with a running bound on rounding.",
"C21": "Waveforms at the accumulated phase, impulse trains as the sum of their harmonics, saws by their spectrum, noise by bounds, seeds and band powers.",
"C22": "Closed-form segments from the level at each stage change; detectors are recomputed from the window at every sample.",
"C23": "Per-sample formulas over buffers of unequal lengths with guard samples, all pan laws against their gains and relations, fades and automatic panning over any division.",
"C24": "The Fourier sum itself, evaluated directly (a fast transform of the harness for large sizes, itself checked against the sum), windows from their definition, the analyzer against a frame-by-frame model.",
"C25": "Each meter against a window recomputed from the whole history, over twelve decades of level.",
"C26": "The whole programme is filtered and gated a second time, from the standard, and compared after every section.",
"C27": "Random trees of chains, parallel chains, functions and stateful parts against a recursive model; adapters against the processors they wrap.",
"C28": "Heap allocations of every call of a generated history are counted by the runtime; a count above zero is repeated on new instances before it is believed.",
"C29": "Comb, all-pass and damping recurrences and the three networks in double precision; decay and freezing are invariants of a 25-second history.",
"C30": "Closed-form curves and per-channel models over setting histories; quantizers by their grid and hold pattern, dither by its distribution about the true value.",
"C31": "Phase accumulation, modulated reads of the written history, all-pass cascades and gains in double precision, for every voice, channel and stage.",
"C32": "Logs are read back line by line against what was asked, also from several threads and from arguments that log; profiles against the list of timed sections; buffer reports against direct computation.",
"C33": "Polynomials of the order of each interpolator, kernels in double precision, positions at and beyond the ends, scaling curves and their inverses in closed form.",
}
