//! C25: the same results as libebur128.
use super::stream;
use crate::gen::*;
use crate::model::{noise_gain, rate_stable, rel_tol, Model};
use crate::rt::{Ctx, Prop};
use crate::session::*;
use crate::twin::*;
use ebur128::{Channel, EbuR128, Error, Mode};
use ebur128_c::{Channel as CC, EbuR128 as C, Mode as CM};

type R = Result<(), String>;

fn cerr(e: ebur128_c::Error) -> Error {
    match e {
        ebur128_c::Error::NoMem => Error::NoMem,
        ebur128_c::Error::InvalidMode => Error::InvalidMode,
        ebur128_c::Error::InvalidChannelIndex => Error::InvalidChannelIndex,
    }
}

fn cmode(m: Mode) -> CM {
    CM::from_bits_truncate(m.bits() as _)
}

fn cchan(c: Channel) -> CC {
    use Channel::*;
    match c {
        Unused => CC::Unused,
        Left => CC::Left,
        Right => CC::Right,
        Center => CC::Center,
        LeftSurround => CC::LeftSurround,
        RightSurround => CC::RightSurround,
        DualMono => CC::DualMono,
        MpSC => CC::MpSC,
        MmSC => CC::MmSC,
        Mp060 => CC::Mp060,
        Mm060 => CC::Mm060,
        Mp090 => CC::Mp090,
        Mm090 => CC::Mm090,
        Mp135 => CC::Mp135,
        Mm135 => CC::Mm135,
        Mp180 => CC::Mp180,
        Up000 => CC::Up000,
        Up030 => CC::Up030,
        Um030 => CC::Um030,
        Up045 => CC::Up045,
        Um045 => CC::Um045,
        Up090 => CC::Up090,
        Um090 => CC::Um090,
        Up110 => CC::Up110,
        Um110 => CC::Um110,
        Up135 => CC::Up135,
        Um135 => CC::Um135,
        Up180 => CC::Up180,
        Tp000 => CC::Tp000,
        Bp000 => CC::Bp000,
        Bp045 => CC::Bp045,
        Bm045 => CC::Bm045,
    }
}

fn feed(c: &mut C, raw: &Raw) -> Result<(), Error> {
    fn inter<T: Copy>(p: &[Vec<T>]) -> Vec<T> {
        (0..p[0].len()).flat_map(|i| p.iter().map(move |c| c[i])).collect()
    }
    match raw {
        Raw::I16(p) => c.add_frames_i16(&inter(p)),
        Raw::I32(p) => c.add_frames_i32(&inter(p)),
        Raw::F32(p) => c.add_frames_f32(&inter(p)),
        Raw::F64(p) => c.add_frames_f64(&inter(p)),
    }
    .map_err(cerr)
}

/// A histogram's bins and a gate may fall either way for values computed in another order: they show
/// as one block more or less, and are told by the model being undecided too.
fn compare(ctx: &mut Ctx, e: &EbuR128, c: &C, m: &Model, inmax: f64, hasprev: bool) -> R {
    let rate = e.rate();
    let t = Tol { rel: rel_tol(rate).max(1e-9), abs: inmax * noise_gain(rate) + 1e-150, tp: 2e-6 * inmax + 1e-37 };
    same_loudness("loudness_momentary", e.loudness_momentary(), c.loudness_momentary().map_err(cerr), &t)?;
    same_loudness("loudness_shortterm", e.loudness_shortterm(), c.loudness_shortterm().map_err(cerr), &t)?;
    // (libebur128 refuses all windows above 1 ms by mistake)
    let h = Tol { abs: 0.0, ..t };
    if !m.global().any() {
        same_loudness("loudness_global", e.loudness_global(), c.loudness_global().map_err(cerr), &h)?;
        if matches!(e.loudness_global(), Ok(v) if v.is_finite()) {
            ctx.stats.inc("integrated loudness compared");
        }
    }
    if !m.rel_threshold().any() {
        same_loudness("relative_threshold", e.relative_threshold(), c.relative_threshold().map_err(cerr), &h)?;
    }
    if !m.range().any() {
        same_value("loudness_range", e.loudness_range(), c.loudness_range().map_err(cerr), 100.0 * t.rel + 1e-8)?;
        if matches!(e.loudness_range(), Ok(v) if v > 0.0) {
            ctx.stats.inc("non-zero loudness ranges compared");
        }
    }
    for i in 0..e.channels() + 1 {
        same_value(&format!("sample_peak({i})"), e.sample_peak(i), c.sample_peak(i).map_err(cerr), 0.0)?;
        same_value(&format!("true_peak({i})"), e.true_peak(i), c.true_peak(i).map_err(cerr), t.tp)?;
        if hasprev {
            same_value(&format!("prev_sample_peak({i})"), e.prev_sample_peak(i), c.prev_sample_peak(i).map_err(cerr), 0.0)?;
            same_value(&format!("prev_true_peak({i})"), e.prev_true_peak(i), c.prev_true_peak(i).map_err(cerr), t.tp)?;
        }
    }
    if matches!(e.true_peak(0), Ok(v) if v > 0.0) {
        ctx.stats.inc("true peaks compared");
    }
    if matches!(e.loudness_momentary(), Ok(v) if v.is_finite()) {
        ctx.stats.inc("momentary loudness compared");
    }
    ctx.stats.inc("comparisons with libebur128");
    Ok(())
}

fn a_rate(ctx: &mut Ctx) -> u32 {
    loop {
        let r = if ctx.r.chance(0.6) { low_rate(ctx) } else { stable_rate(ctx) };
        // (libebur128 overruns its buffer when that is shorter than a gating block, and refuses to
        // measure short-term loudness when it is shorter than 30 steps)
        let step = (r + 5) / 10;
        if r >= 100 && (3 * r).div_ceil(step) >= 30 && rate_stable(r) {
            return r;
        }
    }
}

fn lockstep(ctx: &mut Ctx) -> R {
    let rate = a_rate(ctx);
    let ch = fit(pick_channels(&mut ctx.r), rate);
    let mode = pick_mode(&mut ctx.r, Mode::M, Mode::empty());
    ctx.log(format!("new({ch}, {rate}, {mode:?})"));
    let mut e = EbuR128::new(ch, rate, mode).map_err(|e| format!("new: {e}"))?;
    let mut c = C::new(ch, rate, cmode(mode)).map_err(|e| format!("C new: {e:?}"))?;
    let mut m = Model::new(ch, rate, mode).map_err(|e| format!("{e}"))?;
    let mut sig = Signal::new(&mut ctx.r, ch as usize, rate);
    let mut left: i64 = if mode.contains(Mode::TRUE_PEAK) { 150_000 } else { 500_000 };
    let mut inmax = 0.0f64;
    let mut hasprev = true;
    let mut ops = 0;
    while left > 0 && ops < 200 {
        ops += 1;
        match ctx.r.weighted(&[16.0, if m.frames() == 0 { 3.0 } else { 0.3 }, 0.3, 0.3, 4.0]) {
            0 => {
                let ch = e.channels() as u64;
                let n = pick_frames(&mut ctx.r, ctx.dict, &m, (left as u64 / ch).max(1)) as usize;
                left -= (n as u64 * ch) as i64 + 300;
                let f = ctx.r.pick(&FMTS);
                let raw = Raw::quantize(&sig.next(n), f);
                let x = raw.exact();
                inmax = x.iter().flatten().fold(inmax, |a, v| a.max(v.abs()));
                ctx.log(format!("{n} frames of {f:?}"));
                raw.feed(&mut e, ctx.r.chance(0.5), false).map_err(|e| format!("add_frames: {e}"))?;
                feed(&mut c, &raw).map_err(|e| format!("C add_frames: {e}"))?;
                m.add(&x).map_err(|e| format!("{e}"))?;
                // (libebur128 forgets the previous peaks for an empty call)
                hasprev = n > 0;
                ctx.nontrivial = true;
            }
            1 => {
                let i = ctx.r.below(e.channels() as u64 + 1) as u32;
                let k = pick_channel_type(ctx, e.channels() as usize);
                // a channel that was unused has old audio in libebur128's buffer and filter
                if m.frames() > 0 && (i >= e.channels() || k == Channel::Unused || e.channel_map()[i as usize] == Channel::Unused) {
                    continue;
                }
                ctx.log(format!("set_channel({i}, {k:?})"));
                let (a, b) = (e.set_channel(i, k), c.set_channel(i, cchan(k)).map_err(cerr));
                if a != b {
                    return Err(format!("set_channel({i}, {k:?}): {a:?} and {b:?}"));
                }
                let _ = m.set_channel(i, k);
            }
            2 => {
                let rate = if ctx.r.chance(0.4) { e.rate() } else { a_rate(ctx) };
                let ch = if ctx.r.chance(0.5) { fit(e.channels(), rate) } else { fit(pick_channels(&mut ctx.r), rate) };
                if (ch, rate) == (e.channels(), e.rate()) {
                    continue;
                }
                ctx.log(format!("change_parameters({ch}, {rate})"));
                e.change_parameters(ch, rate).map_err(|e| format!("change_parameters: {e}"))?;
                c.change_parameters(ch, rate).map_err(|e| format!("C change_parameters: {e:?}"))?;
                m.change_parameters(ch, rate).map_err(|e| format!("{e}"))?;
                sig = Signal::new(&mut ctx.r, ch as usize, rate);
                // (kept by libebur128, cleared here)
                hasprev = false;
            }
            3 => {
                let h = ctx.r.logrange(1, 60_000) as u32;
                if h as usize == e.max_history() {
                    continue;
                }
                ctx.log(format!("set_max_history({h})"));
                e.set_max_history(h).map_err(|e| format!("set_max_history: {e}"))?;
                let _ = c.set_max_history(h);
                m.set_max_history(h);
            }
            _ => compare(ctx, &e, &c, &m, inmax, hasprev)?,
        }
    }
    compare(ctx, &e, &c, &m, inmax, hasprev)
}

pub fn add(v: &mut Vec<Prop>) {
    v.push(Prop {
        id: "C25",
        level: "exploration",
        rule: "a case is one random sequence of calls made on the crate and on libebur128; distinct by the hash of its calls, non-trivial if it fed audio",
        streams: vec![stream("lockstep", 8000, 200_000, lockstep)],
        must: &[
            "comparisons with libebur128",
            "integrated loudness compared",
            "momentary loudness compared",
            "non-zero loudness ranges compared",
            "true peaks compared",
        ],
        assumptions: &["the crate ebur128-c 0.1.1 in the cargo cache is libebur128 as its authors released it"],
        threads: 8,
    });
}
