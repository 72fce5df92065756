//! C18: the C API does what the Rust API does, as its header says.
use super::stream;
use crate::alloc;
use crate::gen::*;
use crate::model::Model;
use crate::rt::{Ctx, Prop};
use crate::session::*;
use ebur128::{Channel, EbuR128, Error, Mode};
use std::ffi::{c_char, c_int, c_long, c_uint, c_ulong, c_void, CString};

type R = Result<(), String>;
type St = *mut c_void;

extern "C" {
    fn shim_constant(n: *const c_char) -> c_long;
    fn shim_version(a: *mut c_int, b: *mut c_int, c: *mut c_int);
    fn shim_init(c: c_uint, r: c_ulong, m: c_int) -> St;
    fn shim_destroy(s: *mut St);
    fn shim_mode(s: St) -> c_int;
    fn shim_channels(s: St) -> c_uint;
    fn shim_samplerate(s: St) -> c_ulong;
    fn shim_set_channel(s: St, c: c_uint, v: c_int) -> c_int;
    fn shim_change_parameters(s: St, c: c_uint, r: c_ulong) -> c_int;
    fn shim_set_max_window(s: St, w: c_ulong) -> c_int;
    fn shim_set_max_history(s: St, h: c_ulong) -> c_int;
    fn shim_add_short(s: St, p: *const i16, n: usize) -> c_int;
    fn shim_add_int(s: St, p: *const i32, n: usize) -> c_int;
    fn shim_add_float(s: St, p: *const f32, n: usize) -> c_int;
    fn shim_add_double(s: St, p: *const f64, n: usize) -> c_int;
    fn shim_global(s: St, o: *mut f64) -> c_int;
    fn shim_global_multiple(s: *mut St, n: usize, o: *mut f64) -> c_int;
    fn shim_momentary(s: St, o: *mut f64) -> c_int;
    fn shim_shortterm(s: St, o: *mut f64) -> c_int;
    fn shim_window(s: St, w: c_ulong, o: *mut f64) -> c_int;
    fn shim_range(s: St, o: *mut f64) -> c_int;
    fn shim_range_multiple(s: *mut St, n: usize, o: *mut f64) -> c_int;
    fn shim_sample_peak(s: St, c: c_uint, o: *mut f64) -> c_int;
    fn shim_prev_sample_peak(s: St, c: c_uint, o: *mut f64) -> c_int;
    fn shim_true_peak(s: St, c: c_uint, o: *mut f64) -> c_int;
    fn shim_prev_true_peak(s: St, c: c_uint, o: *mut f64) -> c_int;
    fn shim_relative_threshold(s: St, o: *mut f64) -> c_int;
}

fn konst(n: &str) -> c_int {
    let c = CString::new(format!("EBUR128_{n}")).unwrap();
    unsafe { shim_constant(c.as_ptr()) as c_int }
}

/// The channels of the header, by the names it gives them
const CHANNELS: [(&str, Channel); 40] = [
    ("UNUSED", Channel::Unused),
    ("LEFT", Channel::Left),
    ("Mp030", Channel::Left),
    ("RIGHT", Channel::Right),
    ("Mm030", Channel::Right),
    ("CENTER", Channel::Center),
    ("Mp000", Channel::Center),
    ("LEFT_SURROUND", Channel::LeftSurround),
    ("Mp110", Channel::LeftSurround),
    ("RIGHT_SURROUND", Channel::RightSurround),
    ("Mm110", Channel::RightSurround),
    ("DUAL_MONO", Channel::DualMono),
    ("DUAL_MONO", Channel::DualMono),
    ("DUAL_MONO", Channel::DualMono),
    ("MpSC", Channel::MpSC),
    ("MmSC", Channel::MmSC),
    ("Mp060", Channel::Mp060),
    ("Mm060", Channel::Mm060),
    ("Mp090", Channel::Mp090),
    ("Mm090", Channel::Mm090),
    ("Mp135", Channel::Mp135),
    ("Mm135", Channel::Mm135),
    ("Mp180", Channel::Mp180),
    ("Up000", Channel::Up000),
    ("Up030", Channel::Up030),
    ("Um030", Channel::Um030),
    ("Up045", Channel::Up045),
    ("Um045", Channel::Um045),
    ("Up090", Channel::Up090),
    ("Um090", Channel::Um090),
    ("Up110", Channel::Up110),
    ("Um110", Channel::Um110),
    ("Up135", Channel::Up135),
    ("Um135", Channel::Um135),
    ("Up180", Channel::Up180),
    ("Tp000", Channel::Tp000),
    ("Bp000", Channel::Bp000),
    ("Bp045", Channel::Bp045),
    ("Bm045", Channel::Bm045),
    ("Bm045", Channel::Bm045),
];

const MODES: [(&str, Mode); 7] = [
    ("MODE_M", Mode::M),
    ("MODE_S", Mode::S),
    ("MODE_I", Mode::I),
    ("MODE_LRA", Mode::LRA),
    ("MODE_SAMPLE_PEAK", Mode::SAMPLE_PEAK),
    ("MODE_TRUE_PEAK", Mode::TRUE_PEAK),
    ("MODE_HISTOGRAM", Mode::HISTOGRAM),
];

fn cmode(m: Mode) -> c_int {
    let mut v = 0;
    for (n, k) in MODES {
        if m.contains(k) {
            v |= konst(n);
        }
    }
    v
}

fn code(r: Result<(), Error>) -> c_int {
    match r {
        Ok(()) => konst("SUCCESS"),
        Err(Error::NoMem) => konst("ERROR_NOMEM"),
        Err(Error::InvalidMode) => konst("ERROR_INVALID_MODE"),
        Err(Error::InvalidChannelIndex) => konst("ERROR_INVALID_CHANNEL_INDEX"),
    }
}

/// A C state and the Rust instance it has to agree with
struct Pair {
    c: St,
    e: EbuR128,
    mode: c_int,
}

impl Drop for Pair {
    fn drop(&mut self) {
        unsafe { shim_destroy(&mut self.c) }
    }
}

fn val(what: &str, got: impl FnOnce(*mut f64) -> c_int, exp: Result<f64, Error>) -> R {
    let mark = f64::from_bits(0x7ff8_dead_beef_cafe);
    let mut o = mark;
    let rc = got(&mut o);
    if rc != code(exp.map(|_| ())) {
        return Err(format!("{what}: code {rc}, the Rust API gives {exp:?}"));
    }
    let want = exp.unwrap_or(mark);
    if o.to_bits() != want.to_bits() && !(exp.is_ok() && o.is_nan() && want.is_nan() && o.to_bits() != mark.to_bits()) {
        return Err(format!("{what}: {o}, the Rust API gives {exp:?}"));
    }
    Ok(())
}

fn compare_all(ctx: &mut Ctx, p: &Pair) -> R {
    unsafe {
        let (e, c) = (&p.e, p.c);
        if (shim_mode(c), shim_channels(c), shim_samplerate(c)) != (p.mode, e.channels(), e.rate() as c_ulong) {
            return Err(format!(
                "ebur128_state has mode {}, {} channels, {} Hz; the Rust API {} {} {}",
                shim_mode(c), shim_channels(c), shim_samplerate(c), p.mode, e.channels(), e.rate()
            ));
        }
        val("loudness_global", |o| shim_global(c, o), e.loudness_global())?;
        val("relative_threshold", |o| shim_relative_threshold(c, o), e.relative_threshold())?;
        val("loudness_momentary", |o| shim_momentary(c, o), e.loudness_momentary())?;
        val("loudness_shortterm", |o| shim_shortterm(c, o), e.loudness_shortterm())?;
        val("loudness_range", |o| shim_range(c, o), e.loudness_range())?;
        let top = e.max_window() as u64;
        for w in [1, 100, top, top + 1, ctx.r.range(1, top.max(1)), u32::MAX as u64] {
            val(&format!("loudness_window({w})"), |o| shim_window(c, w as c_ulong, o), e.loudness_window(w as u32))?;
        }
        for w in [1u64 << 32, (1 << 32) + 400, u64::MAX] {
            // (larger than any window)
            val(&format!("loudness_window({w})"), |o| shim_window(c, w as c_ulong, o), Err(Error::InvalidMode))?;
        }
        for i in (0..e.channels() + 2).chain([u32::MAX, bad_channel(ctx, e.channels())]) {
            val(&format!("sample_peak({i})"), |o| shim_sample_peak(c, i, o), e.sample_peak(i))?;
            val(&format!("prev_sample_peak({i})"), |o| shim_prev_sample_peak(c, i, o), e.prev_sample_peak(i))?;
            val(&format!("true_peak({i})"), |o| shim_true_peak(c, i, o), e.true_peak(i))?;
            val(&format!("prev_true_peak({i})"), |o| shim_prev_true_peak(c, i, o), e.prev_true_peak(i))?;
        }
        if matches!(e.loudness_global(), Ok(v) if v.is_finite()) {
            ctx.stats.inc("integrated loudness compared");
        }
        if matches!(e.loudness_range(), Ok(v) if v > 0.0) {
            ctx.stats.inc("non-zero loudness ranges compared");
        }
        if matches!(e.prev_sample_peak(0), Ok(v) if v > 0.0) {
            ctx.stats.inc("peaks compared");
        }
        ctx.stats.inc("complete comparisons");
    }
    Ok(())
}

fn multiples(ctx: &mut Ctx, ps: &[Pair]) -> R {
    let mut v: Vec<usize> = (0..ps.len()).collect();
    let n = ctx.r.below(ps.len() as u64 + 3) as usize;
    while v.len() < n {
        v.push(ctx.r.below(ps.len() as u64) as usize);
    }
    v.truncate(n);
    let mut c: Vec<St> = v.iter().map(|i| ps[*i].c).collect();
    let p = if n == 0 && ctx.r.chance(0.5) { std::ptr::null_mut() } else { c.as_mut_ptr() };
    let es = || v.iter().map(|i| &ps[*i].e);
    unsafe {
        val(&format!("loudness_global_multiple of {v:?}"), |o| shim_global_multiple(p, n, o), EbuR128::loudness_global_multiple(es()))?;
        val(&format!("loudness_range_multiple of {v:?}"), |o| shim_range_multiple(p, n, o), EbuR128::loudness_range_multiple(es()))?;
    }
    ctx.stats.inc("aggregations compared");
    Ok(())
}

fn new_pair(ctx: &mut Ctx, ch: u32, rate: u64, mode: Mode) -> Result<Option<Pair>, String> {
    let cm = cmode(mode);
    let c = unsafe { shim_init(ch, rate as c_ulong, cm) };
    let e = if rate > u32::MAX as u64 { Err(Error::NoMem) } else { EbuR128::new(ch, rate as u32, mode) };
    ctx.log(format!("init({ch}, {rate}, {mode:?})"));
    match (c.is_null(), e) {
        (true, Err(_)) => {
            ctx.stats.inc("refused calls compared");
            Ok(None)
        }
        (false, Ok(e)) => Ok(Some(Pair { c, e, mode: cm })),
        (false, Err(e)) => {
            let mut c = c;
            unsafe { shim_destroy(&mut c) };
            Err(format!("ebur128_init({ch}, {rate}, {mode:?}) accepted what the Rust API refuses with {e}"))
        }
        (true, Ok(_)) => Err(format!("ebur128_init({ch}, {rate}, {mode:?}) returned NULL")),
    }
}

fn feed(c: St, raw: &Raw, n: usize) -> c_int {
    // (buffers of exactly the right size)
    macro_rules! go {
        ($p:expr, $f:ident) => {{
            let mut v = Vec::with_capacity(n * $p.len());
            for i in 0..n {
                for c in $p {
                    v.push(c[i]);
                }
            }
            let v = v.into_boxed_slice();
            let p = if v.is_empty() { std::ptr::null() } else { v.as_ptr() };
            unsafe { $f(c, p, n) }
        }};
    }
    match raw {
        Raw::I16(p) => go!(p, shim_add_short),
        Raw::I32(p) => go!(p, shim_add_int),
        Raw::F32(p) => go!(p, shim_add_float),
        Raw::F64(p) => go!(p, shim_add_double),
    }
}

/// The same calls through both
fn parity(ctx: &mut Ctx) -> R {
    let mut ps: Vec<Pair> = vec![];
    let mut clocks: Vec<Model> = vec![];
    let mut sigs: Vec<Signal> = vec![];
    let mut left: i64 = 150_000;
    while ps.len() < ctx.r.range(1, 3) as usize {
        let rate = if ctx.r.chance(0.5) { low_rate(ctx) } else { any_rate(ctx) };
        let ch = fit(pick_channels(&mut ctx.r), rate);
        let mode = pick_mode(&mut ctx.r, Mode::M, Mode::empty());
        let (ch2, rate2) = match ctx.r.below(12) {
            0 => (ctx.r.pick(&[0, 65, u32::MAX]), rate as u64),
            1 => (ch, ctx.r.pick(&[0, 15, 2822401, 1 << 32, (1 << 32) + 48000, u64::MAX])),
            _ => (ch, rate as u64),
        };
        if let Some(p) = new_pair(ctx, ch2, rate2, mode)? {
            clocks.push(Model::clock(ch2, rate2 as u32));
            sigs.push(Signal::new(&mut ctx.r, ch2 as usize, rate2 as u32));
            ps.push(p);
        }
    }
    let mut ops = 0;
    while left > 0 && ops < 120 {
        ops += 1;
        let k = ctx.r.below(ps.len() as u64) as usize;
        let c = ps[k].c;
        match ctx.r.weighted(&[14.0, 2.0, 1.0, 1.0, 0.7, 0.7, 0.8]) {
            0 => {
                let ch = clocks[k].channels as u64;
                let n = pick_frames(&mut ctx.r, ctx.dict, &clocks[k], (left as u64 / ch).max(1)) as usize;
                left -= (n as u64 * ch) as i64 + 200;
                let f = ctx.r.pick(&FMTS);
                let mut x = sigs[k].next(n);
                if ctx.r.chance(0.05) {
                    hostile_values(ctx, &mut x);
                }
                let raw = Raw::quantize(&x, f);
                ctx.log(format!("{k}: {n} frames of {f:?}"));
                let want = code(raw.feed(&mut ps[k].e, false, false));
                let rc = feed(c, &raw, n);
                if rc != want {
                    return Err(format!("ebur128_add_frames of {n} frames of {f:?}: code {rc} instead of {want}"));
                }
                clocks[k].skip(n as u64);
                ctx.nontrivial = true;
            }
            1 => {
                let (n, v) = match ctx.r.below(8) {
                    0 => ("out of range", ctx.r.pick(&[-1, 37, 38, 255, 256, i32::MIN, i32::MAX, 1 << 16])),
                    _ => {
                        let (n, _) = ctx.r.pick(&CHANNELS);
                        (n, konst(n))
                    }
                };
                let chan = CHANNELS.iter().find(|x| x.0 == n).map(|x| x.1);
                let i = if ctx.r.chance(0.1) { ctx.r.pick(&[64, 65, u32::MAX]) } else { ctx.r.below(ps[k].e.channels() as u64 + 1) as u32 };
                ctx.log(format!("{k}: set_channel({i}, {n} {v})"));
                let rc = unsafe { shim_set_channel(c, i, v) };
                match chan {
                    Some(ch) => {
                        let want = code(ps[k].e.set_channel(i, ch));
                        if rc != want {
                            return Err(format!("ebur128_set_channel({i}, EBUR128_{n}): code {rc} instead of {want}"));
                        }
                    }
                    // no such channel: refused, in whatever way
                    None => {
                        if rc == konst("SUCCESS") {
                            return Err(format!("ebur128_set_channel({i}, {v}) succeeded"));
                        }
                    }
                }
                ctx.stats.inc("channels set");
            }
            2 => {
                let e = &mut ps[k].e;
                let w = match ctx.r.below(6) {
                    0 => e.max_window() as u64,
                    1 => ctx.r.pick(&[0, 1, 399, 400, 401, 2999, 3000, 3001]),
                    2 => ctx.r.pick(&[1 << 32, (1 << 32) + 400, (1 << 32) + 5000, u64::MAX]),
                    _ => ctx.r.range(0, 6000),
                };
                ctx.log(format!("{k}: set_max_window({w})"));
                let old = e.max_window();
                let rc = unsafe { shim_set_max_window(c, w as c_ulong) };
                let want = if w > u32::MAX as u64 {
                    konst("ERROR_NOMEM")
                } else {
                    let r = e.set_max_window(w as u32);
                    if r.is_ok() && e.max_window() == old { konst("ERROR_NO_CHANGE") } else { code(r) }
                };
                if rc != want {
                    return Err(format!("ebur128_set_max_window({w}) after {old}: code {rc} instead of {want}"));
                }
                let (ch, rate) = (e.channels(), e.rate());
                if e.max_window() != old {
                    clocks[k] = Model::clock(ch, rate);
                    clocks[k].set_max_window(w as u32);
                }
                ctx.stats.inc("windows and histories set");
            }
            3 => {
                let e = &mut ps[k].e;
                let h = match ctx.r.below(5) {
                    // (not what is unlimited, which cannot be asked for)
                    0 if e.max_history() <= u32::MAX as usize => e.max_history() as u64,
                    0 => ctx.r.pick(&[1 << 32, (1 << 32) + 400, (1 << 32) + 5000]),
                    1 => ctx.r.pick(&[0, 1, 399, 400, 401, 2999, 3000, 3001]),
                    _ => ctx.r.logrange(1, 60_000),
                };
                ctx.log(format!("{k}: set_max_history({h})"));
                let old = e.max_history();
                let rc = unsafe { shim_set_max_history(c, h as c_ulong) };
                if h > u32::MAX as u64 {
                    // more than the Rust API can express must not turn into less
                    if rc == konst("SUCCESS") {
                        return Err(format!("ebur128_set_max_history({h}) succeeded"));
                    }
                    continue;
                }
                let r = e.set_max_history(h as u32);
                let want = if r.is_ok() && e.max_history() == old { konst("ERROR_NO_CHANGE") } else { code(r) };
                if rc != want {
                    return Err(format!("ebur128_set_max_history({h}) after {old}: code {rc} instead of {want}"));
                }
                ctx.stats.inc("windows and histories set");
            }
            4 => {
                let rate = if ctx.r.chance(0.7) { low_rate(ctx) } else { any_rate(ctx) };
                let e = &mut ps[k].e;
                let (ch, rate) = match ctx.r.below(8) {
                    0 => (e.channels(), e.rate() as u64),
                    1 => (ctx.r.pick(&[0, 65, u32::MAX]), rate as u64),
                    2 => (e.channels(), ctx.r.pick(&[0, 15, 2822401, (1u64 << 32) + e.rate() as u64, (1 << 32) + 48000, u64::MAX])),
                    3 => (fit(pick_channels(&mut ctx.r), e.rate()), e.rate() as u64),
                    4 => (fit(e.channels(), rate), rate as u64),
                    _ => (fit(pick_channels(&mut ctx.r), rate), rate as u64),
                };
                ctx.log(format!("{k}: change_parameters({ch}, {rate})"));
                let rc = unsafe { shim_change_parameters(c, ch, rate as c_ulong) };
                let want = if (ch, rate) == (e.channels(), e.rate() as u64) {
                    konst("ERROR_NO_CHANGE")
                } else if rate > u32::MAX as u64 {
                    konst("ERROR_NOMEM")
                } else {
                    code(e.change_parameters(ch, rate as u32))
                };
                if rc != want {
                    return Err(format!("ebur128_change_parameters({ch}, {rate}): code {rc} instead of {want}"));
                }
                if rc == konst("SUCCESS") {
                    clocks[k] = Model::clock(ch, rate as u32);
                    sigs[k] = Signal::new(&mut ctx.r, ch as usize, rate as u32);
                    ctx.stats.inc("parameters changed");
                } else {
                    ctx.stats.inc("refused calls compared");
                }
            }
            5 => multiples(ctx, &ps)?,
            _ => compare_all(ctx, &ps[k])?,
        }
    }
    for p in &ps {
        compare_all(ctx, p)?;
    }
    multiples(ctx, &ps)
}

/// Constants of the header, and what becomes of a state
fn header(ctx: &mut Ctx) -> R {
    unsafe {
        let (mut a, mut b, mut c) = (-1, -1, -1);
        shim_version(&mut a, &mut b, &mut c);
        let h = (konst("VERSION_MAJOR"), konst("VERSION_MINOR"), konst("VERSION_PATCH"));
        if (a, b, c) != h {
            return Err(format!("ebur128_get_version gives {:?}, the header {h:?}", (a, b, c)));
        }
        // every channel of the header has its own number and its Rust counterpart's weight
        let (n, ch) = ctx.r.pick(&CHANNELS);
        let single = ctx.r.chance(0.5);
        let chans = if single { 1 } else { ctx.r.range(2, 8) as u32 };
        let at = ctx.r.below(chans as u64) as u32;
        let mode = pick_mode(&mut ctx.r, Mode::M, Mode::empty());
        let rate = 8000;
        // all three instances of the case are made and dropped here, and nothing stays behind
        let pcm: Vec<f32> = (0..rate * chans as usize / 2).map(|_| ctx.r.frange(-0.5, 0.5) as f32).collect();
        let mut exp = match EbuR128::new(chans, rate as u32, mode) {
            Ok(e) => e,
            Err(e) => return Err(format!("new: {e}")),
        };
        let set = exp.set_channel(at, ch);
        exp.add_frames_f32(&pcm).map_err(|e| format!("{e}"))?;
        let want = exp.loudness_momentary().map_err(|e| format!("{e}"))?;
        let cm = cmode(mode);
        let before = alloc::live();
        let mut st = shim_init(chans, rate as c_ulong, cm);
        if st.is_null() {
            return Err("ebur128_init returned NULL".into());
        }
        let rc = shim_set_channel(st, at, konst(n));
        let rc2 = shim_add_float(st, pcm.as_ptr(), rate / 2);
        let mut got = 0.0;
        let rc3 = shim_momentary(st, &mut got);
        shim_destroy(&mut st);
        let left = alloc::live() - before;
        if !st.is_null() {
            return Err("ebur128_destroy left the pointer as it was".into());
        }
        shim_destroy(&mut st);
        ctx.log(format!("{n} at {at} of {chans}, {mode:?}"));
        ctx.nontrivial = true;
        if left != 0 {
            return Err(format!("ebur128_destroy left {left} bytes behind"));
        }
        if (rc, rc2, rc3) != (code(set), konst("SUCCESS"), konst("SUCCESS")) {
            return Err(format!("EBUR128_{n} at {at} of {chans}: codes {rc} {rc2} {rc3}, the Rust API gives {set:?}"));
        }
        if got != want && !(got.is_nan() && want.is_nan()) {
            return Err(format!("EBUR128_{n} at {at} of {chans}: {got} LUFS, {ch:?} gives {want}"));
        }
        let mut seen = std::collections::HashMap::new();
        for (n, ch) in CHANNELS {
            if let Some(o) = seen.insert(konst(n), ch) {
                if o != ch {
                    return Err(format!("EBUR128_{n} has the number of {o:?}"));
                }
            }
        }
        // errors and modes are distinct
        let es: Vec<c_int> = ["SUCCESS", "ERROR_NOMEM", "ERROR_INVALID_MODE", "ERROR_INVALID_CHANNEL_INDEX", "ERROR_NO_CHANGE"].iter().map(|n| konst(n)).collect();
        for i in 0..es.len() {
            if es[..i].contains(&es[i]) || es[i] == -1000 {
                return Err("error codes of the header are not distinct".into());
            }
        }
        // a count of frames whose samples cannot be counted is refused before anything is read
        if chans > 1 {
            let mut st = shim_init(chans, rate as c_ulong, cm);
            let rc = shim_add_float(st, pcm.as_ptr(), usize::MAX / chans as usize + 1);
            shim_destroy(&mut st);
            if rc == konst("SUCCESS") {
                return Err("ebur128_add_frames_float accepted more samples than there can be".into());
            }
        }
        ctx.stats.inc("states made and destroyed without remainder");
    }
    Ok(())
}

pub fn add(v: &mut Vec<Prop>) {
    v.push(Prop {
        id: "C18",
        level: "exploration",
        rule: "a case is a random sequence of C API calls, made by C code compiled against the header, on up to three states, with the same calls made on Rust instances; distinct by the hash of its calls, non-trivial if it fed audio",
        streams: vec![stream("parity", 6000, 200_000, parity), stream("header", 1500, 20_000, header)],
        must: &[
            "complete comparisons",
            "aggregations compared",
            "refused calls compared",
            "integrated loudness compared",
            "non-zero loudness ranges compared",
            "peaks compared",
            "channels set",
            "windows and histories set",
            "parameters changed",
            "states made and destroyed without remainder",
        ],
        assumptions: &["pointers passed are valid for what the header says, as any C API requires"],
        threads: 8,
    });
}
