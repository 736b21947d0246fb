//! Which sections decide which property.

use crate::mon::{Case, Prop, Res, Section};
use crate::{analysis as a, delays as d, filters as f, props as p, rbj, relations as x, safety as s, util as u, windows as w};

fn sec(name: &'static str, run: fn(&mut Case) -> Res, quick: usize, thorough: usize) -> Section {
    Section { name, run, quick, thorough }
}

pub fn all() -> Vec<Prop> {
    vec![
        Prop {
            id: "C01",
            rule: "A case creates an integer delay line (f32 or f64) and drives it with a random or enumerated history of process, block, delay change and clear calls, or a stream of 2^17..2^32 samples; every output is compared with a queue of the samples given. Non-trivial: at least one nonzero output was judged; distinct: by hash of settings, calls and samples.",
            sections: vec![
                sec("stream", d::c01_stream, 12000, 300000),
                sec("big", d::c01_big, 200, 4000),
                sec("small_exhaustive", d::small_exhaustive_int, 126, 126),
                sec("long", d::c01_long, 6, 12),
                sec("vast", d::c01_vast, 3, 40),
                sec("ages", d::c01_ages, 1, 4),
            ],
            require: &["outputs judged", "nonzero outputs", "ring wraps", "delay changes mid-stream", "clears", "outputs at full-length delay", "outputs at zero delay"],
        },
        Prop {
            id: "C02",
            rule: "As C01 for interpolating delay lines with fractional, tiny, near-integer and extreme delays; every output is compared with the two-point blend of the samples given. Non-trivial: at least one nonzero output was judged; distinct: by hash of settings, calls and samples.",
            sections: vec![
                sec("stream", d::c02_stream, 12000, 300000),
                sec("big", d::c02_big, 200, 4000),
                sec("small_exhaustive", d::small_exhaustive_lin, 126, 126),
                sec("long", d::c02_long, 6, 12),
                sec("vast", d::c02_vast, 3, 40),
                sec("ages", d::c02_ages, 1, 4),
            ],
            require: &["outputs judged", "nonzero outputs", "ring wraps", "outputs at fractional delay", "delay changes mid-stream", "clears"],
        },
        Prop {
            id: "C03",
            rule: "A case drives a delay line of either kind with a history that raises its maximum at random or enumerated write positions; all outputs, taps and getters are compared with a queue extended by silence. Non-trivial: a nonzero output or a tap was judged; distinct: by hash of settings, calls and samples.",
            sections: vec![sec("grow", d::c03_grow, 12000, 300000), sec("grow_exhaustive", d::grow_exhaustive, 312, 312)],
            require: &["growths", "growths of a wrapped ring", "outputs judged", "nonzero outputs", "tap reads judged"],
        },
        Prop {
            id: "C04",
            rule: "A case drives a delay line of either kind with tap reads, writes and adds at random or all offsets between processing; every value is compared with a queue model. Non-trivial: a nonzero output or a tap was judged; distinct: by hash of settings, calls and samples.",
            sections: vec![sec("taps", d::c04_taps, 12000, 300000), sec("tap_exhaustive", d::tap_exhaustive, 448, 448)],
            require: &["tap reads judged", "tap writes", "outputs judged", "nonzero outputs", "ring wraps"],
        },
        Prop {
            id: "C05",
            rule: "A case compares look-ahead values with a queue model, or runs twin instances of one of the 20 processors through one history with and without interposed queries and compares all outputs bit for bit. Non-trivial: a nonzero output was judged; distinct: by hash of settings and outputs.",
            sections: vec![
                sec("look", d::c05_look, 8000, 200000),
                sec("twin_lines", d::c05_twin_lines, 6000, 150000),
                sec("twin_zoo", p::c05_twin_zoo, 8000, 200000),
                sec("marathon", p::c567_marathon, 2, 40),
            ],
            require: &["look-aheads judged", "twin outputs compared", "queries interposed"],
        },
        Prop {
            id: "C06",
            rule: "A case runs one of the 20 processors through a history (samples incl. non-finite, blocks incl. empty, settings changes, taps, clears) and compares last-output after every call with the value returned at the boundary. Non-trivial: a nonzero last output was judged; distinct: by hash of settings and outputs.",
            sections: vec![sec("last", p::c06_last, 20000, 500000), sec("marathon", p::c567_marathon, 1, 40)],
            require: &["last-output judged", "last-output judged nonzero", "last-output judged after a settings change"],
        },
        Prop {
            id: "C07",
            rule: "A case runs one of the 20 processors through a hostile history, clears it and compares every later output, last-output, look-ahead, tap and setting with a new instance of the same settings. Non-trivial: the processor had produced a nonzero output before the clear; distinct: by hash of settings and history length.",
            sections: vec![sec("clear", p::c07_clear, 20000, 500000), sec("marathon", p::c567_marathon, 1, 40)],
            require: &["outputs compared with a fresh processor", "cleared processors that had a signal", "taps and look-aheads compared", "settings read-backs compared"],
        },
        Prop {
            id: "C08",
            rule: "A case processes a signal on twin instances of one of the 20 processors, as blocks of random lengths (0 to 131072) on one and sample by sample on the other, and compares outputs, return values and state bit for bit. Non-trivial: a nonzero block output was compared; distinct: by hash of settings and outputs.",
            sections: vec![sec("blocks", p::c08_blocks, 8000, 200000), sec("huge", p::c08_huge, 40, 400)],
            require: &["blocks judged", "block samples compared", "empty blocks", "blocks longer than 256"],
        },
        Prop {
            id: "C09",
            rule: "A case drives a one/two pole/zero filter with finite signals at levels from 2^-900 to the largest finite value while coefficients change all at once or one by one; every output is compared with the difference equation over the observed history. Non-trivial: an output at least 1000 times its tolerance was judged; distinct: by hash of settings and level.",
            sections: vec![
                sec("drive", f::c09_drive, 20000, 500000),
                sec("wide", f::c09_wide, 6000, 120000),
                sec("new", f::c09_new, 400, 4000),
                sec("long", f::c09_long, 8, 16),
            ],
            require: &["outputs judged", "outputs judged with > 10 bits of signal", "coefficient changes", "read-backs judged", "transparent outputs judged", "clears"],
        },
        Prop {
            id: "C10",
            rule: "As C09 for both biquads (the transposed form with the coefficients that were in force when a term entered the state), plus both forms side by side under constant coefficients. Non-trivial: an output at least 1000 times its tolerance was judged; distinct: by hash of settings and level.",
            sections: vec![
                sec("drive", f::c10_drive, 20000, 500000),
                sec("forms", f::c10_forms, 3000, 60000),
                sec("wide", f::c10_wide, 6000, 120000),
                sec("new", f::c10_new, 400, 4000),
                sec("long", f::c10_long, 8, 16),
            ],
            require: &["outputs judged", "outputs judged with > 10 bits of signal", "coefficient changes", "read-backs judged", "transparent outputs judged", "form I / form II pairs compared"],
        },
        Prop {
            id: "C11",
            rule: "A case tunes one of the nine RBJ filters at random (frequency 1e-5..0.4999 of the rate, Q 0.02..500, slope 0.05..1, gain up to 60 dB) and compares its outputs with the recurrence of the bilinear-transformed analog prototype, or its impulse response with the prototype's frequency response. Non-trivial: signal was judged at least 100 times above tolerance, or a response point to better than 2%; distinct: by hash of the tuning.",
            sections: vec![
                sec("residual", rbj::c11_residual, 12000, 300000),
                sec("response", rbj::c11_response, 2500, 40000),
                sec("long", rbj::c11_long, 1, 20),
                sec("untuned", rbj::c11_untuned, 600, 6000),
            ],
            require: &["outputs judged", "outputs judged with signal > 100 x tolerance", "response points judged", "response points judged to better than 2%", "transparent outputs judged"],
        },
        Prop {
            id: "C12",
            rule: "A case tunes one of the nine RBJ filters at random within the resolution of its type, drives it with worst-case, square, noise or random-sign signals and then silence; every output is compared with the l1 bound and the tail of the reference impulse response; poles too slow for that (time constants up to 1e9 samples) are judged by the amplitude of the modes of the free response. Non-trivial: the drive produced output; distinct: by hash of the tuning.",
            sections: vec![sec("stability", rbj::c12_stability, 1400, 14000), sec("slow", rbj::c12_slow, 10, 300)],
            require: &["driven outputs judged", "silent outputs judged", "runs followed down to -240 dB", "slow decays followed"],
        },
        Prop {
            id: "C13",
            rule: "A case gives one of the nine RBJ filters a past (earlier tunings, often differing in one parameter or nonsensical, and signals incl. non-finite), tunes it and compares all later outputs bit for bit with a new filter tuned once. Non-trivial: there was an earlier tuning and a nonzero output; distinct: by hash of tuning and past.",
            sections: vec![sec("retune", rbj::c13_retune, 20000, 400000)],
            require: &["outputs compared with a fresh filter", "earlier tunings"],
        },
        Prop {
            id: "C14",
            rule: "A case runs fresh instances of one of the 18 linear processors on x, y and a*x+b*y, on x and 2^k*x, or on x and x after up to 70000 zeros, at levels from the very quiet to the very loud, and compares the responses. Non-trivial: responses at least 10 times the tolerance (shift: nonzero); distinct: by hash of settings.",
            sections: vec![
                sec("superpose", p::c14_superpose, 6000, 150000),
                sec("scaling", p::c14_scaling, 6000, 150000),
                sec("steady", p::c14_steady, 2, 40),
                sec("shift", p::c14_shift, 3000, 60000),
            ],
            require: &["superposition samples judged", "scaled samples judged", "shifted samples judged", "runs below -240 dB"],
        },
        Prop {
            id: "C15",
            rule: "A case drives a leaky integrator with signals and candidate gains (valid, boundary, invalid, NaN) and judges every step from the previous observed output, or lets it settle on a constant. Non-trivial: a step at least 100 times its tolerance was judged; distinct: by hash of gains and level.",
            sections: vec![sec("leaky", a::c15_leaky, 15000, 400000), sec("settle", a::c15_settle, 150, 2000), sec("long", a::c15_long, 1, 16)],
            require: &["steps judged", "accepted gains", "rejected gains", "settled runs judged"],
        },
        Prop {
            id: "C16",
            rule: "A case drives a peak detector with signals at all levels while attack and release change, judging every step from the previous observed output, together with a sign-flipped and a scaled twin. Non-trivial: a step at least 1000 times its tolerance was judged; distinct: by hash of lengths and level.",
            sections: vec![sec("peak", a::c16_peak, 12000, 300000), sec("settle", a::c16_settle, 150, 2000), sec("long", a::c16_long, 1, 16)],
            require: &["steps judged", "attack steps", "release steps", "steps judged with an unset direction", "settled runs judged"],
        },
        Prop {
            id: "C17",
            rule: "As C16 for the RMS detector in the domain of squares, plus settling on a constant magnitude. Non-trivial: a step at least 1000 times its tolerance was judged; distinct: by hash of lengths and level.",
            sections: vec![sec("rms", a::c17_rms, 12000, 300000), sec("settle", a::c17_settle, 150, 2000), sec("long", a::c17_long, 1, 16)],
            require: &["steps judged", "attack steps", "release steps", "steps judged with an unset direction", "settled runs judged"],
        },
        Prop {
            id: "C18",
            rule: "A case sets valid and invalid attack and release lengths on either detector between samples and judges gains, the other gain and the envelope, or measures a step response after exactly n samples. Non-trivial: a valid length was judged, or a step to better than 5%; distinct: by hash of lengths.",
            sections: vec![sec("lengths", a::c18_lengths, 15000, 400000), sec("step", a::c18_step, 3000, 60000)],
            require: &["valid lengths judged", "invalid lengths judged", "step responses judged"],
        },
        Prop {
            id: "C19",
            rule: "A case draws all values of all six windows of one size (0..399 exhaustively, then random, then up to 2^20+1) in f32 and f64, or of one window of more than 2^24 points in f64, and compares them with the closed forms. Non-trivial: size above 0; distinct: by size.",
            sections: vec![sec("shape", w::c19_shape, 900, 6000), sec("large", w::c19_large, 4, 14), sec("vast", w::c19_vast, 1, 6)],
            require: &["window values judged", "windows judged"],
        },
        Prop {
            id: "C20",
            rule: "A case consumes a window iterator of one kind and size (0..69 exhaustively, then random, long ones to the end, huge ones at their start) by next, nth, take, collect, count, last, fold, try_fold, min_by, max_by, find, position, any, all, partition, chain, partial_cmp, skip, step_by, zip, peekable and side by side with another, checking len and size_hint at every step. Non-trivial: always; distinct: by kind and size.",
            sections: vec![sec("protocol", w::c20_protocol, 1800, 20000), sec("huge", w::c20_huge, 120, 600), sec("long", w::c20_long, 3, 60)],
            require: &["length reports judged", "calls past the end judged", "adaptor runs judged", "values compared"],
        },
        Prop {
            id: "C21",
            rule: "A case applies all seven windows to a slice of one length (0..299 exhaustively, then random, then up to 1.1 million) inside a larger buffer, f32 and f64, and compares with iterator and formula values and the untouched rest. Non-trivial: a sample was changed; distinct: by length.",
            sections: vec![sec("apply", w::c21_apply, 800, 8000), sec("large", w::c21_large, 2, 16)],
            require: &["windowed samples judged", "slices judged", "empty slices"],
        },
        Prop {
            id: "C22",
            rule: "A case cuts a signal into frames at one hop size (1..300 exhaustively, then random up to 33000), windows and overlap-adds them through the real functions and compares with the scaled signal. Non-trivial: always; distinct: by hop.",
            sections: vec![sec("ola", w::c22_ola, 700, 6000)],
            require: &["overlapped samples judged", "window value sums judged"],
        },
        Prop {
            id: "C23",
            rule: "A case converts random, boundary, neighbouring and non-finite values in both directions, or sweeps a range densely, and compares with the formulas, floors, order and round trips. Non-trivial: always; distinct: by hash of the values.",
            sections: vec![sec("convert", u::c23_convert, 6000, 150000), sec("sweep", u::c23_sweep, 200, 4000)],
            require: &["levels above the floor judged", "floored levels judged", "round trips judged", "ordered pairs judged", "gains judged", "non-finite conversions judged"],
        },
        Prop {
            id: "C24",
            rule: "A case takes 2 to 7 histories (often with nearly equal settings) over processors, windows and conversions and runs each alone, repeated, interleaved at random with the others, concurrently on threads and moved between threads half way; all observations are compared bit for bit with the solo run, or with a fresh process running nothing else. Non-trivial: a nonzero observation; distinct: by hash of observations and schedule.",
            sections: vec![sec("histories", p::c24_histories, 6000, 120000), sec("fresh", p::c24_fresh, 40, 400), sec("movable", p::c24_movable, 2, 2)],
            require: &["solo observations", "observations of interleaved histories", "observations on concurrent threads", "observations of moved instances", "observations compared with a fresh process", "types that can be moved between threads"],
        },
        Prop {
            id: "C25",
            rule: "A case runs the f32 and the f64 version of one of the 20 processors on the same settings and signal and compares outputs within a forward error bound, or compares windows and conversions. Non-trivial: the bound was below 5% of the peak; distinct: by hash of settings.",
            sections: vec![sec("precision", p::c25_precision, 8000, 200000), sec("windows", p::c25_windows, 300, 3000)],
            require: &["f32/f64 pairs compared", "runs judged to better than 5% of the peak", "runs judged to better than 0.1% of the peak", "window values compared", "conversions compared"],
        },
        Prop {
            id: "C26",
            rule: "A case makes arbitrary valid calls with arbitrary (also non-finite) arguments on one of the 20 processors, on delay lines with extreme settings, or on windows and conversions; a panic, overflow or sanitizer report is a violation. Non-trivial: always; distinct: by hash of kind, outputs and call count.",
            sections: vec![
                sec("zoo", s::c26_zoo, 12000, 300000),
                sec("delay_args", s::c26_delay_args, 3000, 60000),
                sec("free", s::c26_free, 600, 10000),
            ],
            require: &["calls survived"],
        },
        Prop {
            id: "C27",
            rule: "A case runs the real-time calls of one of the 20 processors or the window iterators with a counting allocator (and, in the RTSan build, interceptors of blocking calls) armed around them, singly, in long runs and on several threads at once. Non-trivial: at least one armed call; distinct: by hash of kind and outputs.",
            sections: vec![
                sec("calls", s::c27_calls, 10000, 200000),
                sec("long", s::c27_long, 40, 80),
                sec("windows", s::c27_windows, 200, 3000),
                sec("contention", s::c27_contention, 20, 100),
            ],
            require: &["armed calls", "armed iterator calls", "concurrent armed runs"],
        },
        Prop {
            id: "C28",
            rule: "A case drives a delay line of either kind with many delay and maximum requests (within, at and beyond capacity, negative, infinite) between samples and compares getters, outputs, last output and taps with clamp arithmetic and a queue model. Non-trivial: a nonzero output or a tap was judged; distinct: by hash of settings, calls and samples.",
            sections: vec![sec("settings", d::c28_settings, 15000, 400000)],
            require: &["clamped requests", "delay changes mid-stream", "growths", "outputs judged", "nonzero outputs"],
        },
        Prop {
            id: "C29",
            rule: "A case gives one of the 18 linear processors a past (hostile for non-recursive ones, finite for recursive ones), then feeds it and an instance with another past the same samples under the same settings; outputs beyond a finite memory must be equal, the difference of recursive ones must follow the poles. Non-trivial: a nonzero output was compared or the pasts had left a difference; distinct: by hash of settings and pasts.",
            sections: vec![sec("finite", x::c29_finite, 12000, 300000), sec("fading", x::c29_fading, 6000, 100000)],
            require: &["outputs beyond a finite memory", "taps compared", "fading differences judged", "pasts followed until forgotten (-60 dB)"],
        },
        Prop {
            id: "C30",
            rule: "A case tunes two or three RBJ filters alike, oppositely, mirrored or in other units at random, runs one signal through them side by side or in series and compares the combination with the input (or with zero), to within the propagated rounding of each step. Non-trivial: a combined output was judged to better than 1%; distinct: by hash of the tunings.",
            sections: vec![sec("complement", x::c30_complement, 9000, 150000)],
            require: &[
                "combined outputs judged", "combined outputs judged to better than 1%", "low + high + band = input", "band stop + band pass = input",
                "all pass + 2 band pass = input", "2 band stop - all pass = input", "skirt-gain band pass = Q * peak-gain band pass", "low + high = band stop",
                "boost undone by cut", "both shelves = plain gain", "shelf = gain * opposite shelf", "0 dB = input", "mirrored about a quarter of the rate",
                "only frequency / rate matters",
            ],
        },
        Prop {
            id: "C31",
            rule: "A case drives an integer and an interpolating delay line with one history of whole-sample delays (process, blocks, delay and capacity changes, clears, taps, look-aheads) and compares everything they return. Non-trivial: a nonzero pair was compared; distinct: by hash of settings, call count and level.",
            sections: vec![sec("lines", x::c31_lines, 12000, 300000), sec("big", x::c31_big, 60, 1000)],
            require: &["pairs compared", "nonzero pairs", "delay changes", "capacity changes", "clears", "settings compared"],
        },
        Prop {
            id: "C32",
            rule: "A case builds one system in two ways out of the crate's processors (factors in series, reduced forms, delays in series, detectors as leaky integrators), runs one signal through both and compares, to within the propagated rounding of each step (delays: exactly). Non-trivial: an output was judged to better than 1%; distinct: by hash of the settings.",
            sections: vec![sec("compose", x::c32_compose, 9600, 160000), sec("detectors", x::c32_detectors, 2000, 40000)],
            require: &[
                "combined outputs judged", "combined outputs judged to better than 1%", "two pole = two one poles", "two zero = two one zeros", "biquad = two zero, two pole",
                "biquad = two pole, two zero", "biquad without zeros = two pole", "biquad without poles = two zero", "second order without second coefficient = one pole",
                "second order without second coefficient = one zero", "delays in series add up", "shifting zero filter = delay", "averaging zero filter = fractional delay",
                "leaky integrator = one pole", "detector = leaky integrator",
            ],
        },
        Prop {
            id: "C33",
            rule: "A case runs two detectors of a kind side by side, the second fed a signal that is nowhere louder, or set to a slower attack or a faster release, or a peak and an RMS detector of one common length, and checks the order of their readings at every sample. Non-trivial: the readings differed by more than rounding; distinct: by hash of settings and level.",
            sections: vec![sec("order", x::c33_order, 8000, 160000), sec("peak_rms", x::c33_peak_rms, 2000, 40000)],
            require: &["readings compared", "readings told apart", "peak / RMS pairs compared"],
        },
        Prop {
            id: "C34",
            rule: "A case writes a processor as a user would (own state around 0 to 3 of the crate's processors in series or parallel), gives it blocks of random lengths through its own type or a trait object and compares the recorded calls, the outputs, the return value and the neighbouring samples with one call per sample; then drives one of the 20 processors through a trait object, and judges the constants. Non-trivial: a block of at least two samples; distinct: by hash of the settings.",
            sections: vec![sec("custom", x::c34_custom, 6000, 150000)],
            require: &["user-written processor blocks", "user-written processor calls judged", "empty blocks", "trait object samples judged", "constants judged"],
        },
        Prop {
            id: "C35",
            rule: "A case runs twin instances of one of the 20 processors through one history; between calls one of them is given 1 to 300 settings (valid, clamped, ignored, one parameter at a time) that are overwritten before any sample, by the settings in force or by new ones, and getters, last output, taps, look-ahead and all outputs are compared bit for bit. Non-trivial: a nonzero output after a detour; distinct: by hash of kind, settings and positions.",
            sections: vec![sec("overwritten", x::c35_overwritten, 12000, 300000)],
            require: &["detours", "returns to the settings in force", "changes to new settings", "outputs compared"],
        },
    ]
}
