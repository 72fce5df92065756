//! C22: absolute calibration against what the standards publish (not against the reference model):
//! the table of filter coefficients in ITU-R BS.1770 and the minimum requirements signals of EBU
//! TECH 3341 and 3342.
use super::stream;
use crate::gen::*;
use crate::rt::{Ctx, Prop};
use ebur128::{Channel, EbuR128, Mode};
use std::f64::consts::PI;

type R = Result<(), String>;

/// BS.1770-4 tables 1 and 2: 48 kHz
const SHELF: ([f64; 3], [f64; 3]) = ([1.53512485958697, -2.69169618940638, 1.19839281085285], [1.0, -1.69065929318241, 0.73248077421585]);
const RLB: ([f64; 3], [f64; 3]) = ([1.0, -2.0, 1.0], [1.0, -1.99004745483398, 0.99007225036621]);

/// gain of the published filter at a frequency, in dB
fn published(f: f64) -> f64 {
    let w = 2.0 * PI * f / 48000.0;
    let p = |c: [f64; 3]| {
        let re = c[0] + c[1] * w.cos() + c[2] * (2.0 * w).cos();
        let im = -c[1] * w.sin() - c[2] * (2.0 * w).sin();
        re * re + im * im
    };
    10.0 * (p(SHELF.0) / p(SHELF.1) * p(RLB.0) / p(RLB.1)).log10()
}

fn rate(ctx: &mut Ctx, lo: u32, hi: u32) -> u32 {
    let common: Vec<u32> = [11025, 12000, 16000, 22050, 24000, 32000, 37800, 44056, 44100, 47250, 48000, 48000, 50000, 64000, 88200, 96000, 176400, 192000, 352800, 384000, 768000, 1411200, 2822400]
        .into_iter()
        .filter(|r| *r >= lo && *r <= hi)
        .collect();
    if ctx.r.chance(0.7) {
        ctx.r.pick(&common)
    } else {
        ctx.r.logrange(lo as u64, hi as u64) as u32
    }
}

/// Feeds planar audio in some format, layout and chunks, calling `each` between the chunks
fn feed(ctx: &mut Ctx, e: &mut EbuR128, x: &[Vec<f64>], each: &mut dyn FnMut(&EbuR128, usize) -> R) -> R {
    let n = x[0].len();
    // (what clips in integers stays float)
    let loud = x.iter().any(|c| c.iter().any(|v| v.abs() > 1.0));
    // (16 bits are too coarse for the quietest signals)
    let soft = x.iter().all(|c| c.iter().all(|v| v.abs() < 0.05));
    let f = ctx.r.pick(if loud {
        &[Fmt::F32, Fmt::F64]
    } else if soft {
        &[Fmt::I32, Fmt::F32, Fmt::F64]
    } else {
        &FMTS[..]
    });
    let planar = ctx.r.chance(0.5);
    let style = ctx.r.below(3);
    let r = e.rate() as u64;
    let size = match ctx.r.below(4) {
        0 => ctx.r.range(1, 40) * ((r + 5) / 10),
        1 => ctx.r.pick(&[r, r / 2, r * 2, 1024, 4096, 1152, 480, 441, 65536, r / 100 + 1]).max(r / 100),
        _ => ctx.r.logrange(r / 50, r * 3),
    } as usize;
    // (few calls of a frame or so are enough)
    let size = if ctx.r.chance(0.1) && n < 200_000 { ctx.r.pick(&[1, 2, 3, 5, 7, 16, 64]) } else { size };
    let mut at = 0;
    while at < n {
        let k = match style {
            0 => n,
            1 => size,
            _ => ctx.r.logrange(1, size as u64) as usize,
        }
        .min(n - at);
        let part: Vec<Vec<f64>> = x.iter().map(|c| c[at..at + k].to_vec()).collect();
        Raw::quantize(&part, f).feed(e, planar, false).map_err(|e| format!("add_frames: {e}"))?;
        at += k;
        each(e, at)?;
    }
    ctx.log(format!("{f:?} {} chunks style {style} {size}", if planar { "planar" } else { "interleaved" }));
    ctx.nontrivial = true;
    Ok(())
}

fn near(what: &str, got: Result<f64, ebur128::Error>, want: f64, lo: f64, hi: f64) -> R {
    match got {
        Ok(v) if v - want >= -lo && v - want <= hi => Ok(()),
        _ => Err(format!("{what}: {got:?} where the standard has {want} (-{lo}/+{hi})")),
    }
}

/// An instance, now and then one that has been used for something else and reset
fn instance(ctx: &mut Ctx, ch: u32, rate: u32, must: Mode, never: Mode) -> Result<EbuR128, String> {
    let mode = pick_mode(&mut ctx.r, must, never);
    let mode = if rate as u64 * ch as u64 > 300_000 && !must.contains(Mode::TRUE_PEAK) { mode & !(Mode::TRUE_PEAK & !Mode::SAMPLE_PEAK) } else { mode };
    let mut e = EbuR128::new(ch, rate, mode).map_err(|e| format!("new: {e}"))?;
    if ctx.r.chance(0.15) {
        ctx.log("used before".into());
        let n = ctx.r.logrange(1, rate as u64) as usize;
        let x: Vec<Vec<f64>> = (0..ch).map(|_| (0..n).map(|_| ctx.r.frange(-1.0, 1.0)).collect()).collect();
        for _ in 0..ctx.r.range(1, 3) {
            Raw::quantize(&x, ctx.r.pick(&FMTS)).feed(&mut e, ctx.r.chance(0.5), false).map_err(|e| format!("add_frames: {e}"))?;
            e.reset();
        }
    }
    ctx.log(format!("{ch} channels at {rate}, {mode:?}"));
    Ok(e)
}

/// More channels that have nothing to add, silent or unused
fn pad(ctx: &mut Ctx, map: &mut Vec<Channel>, x: &mut Vec<Vec<f64>>) {
    if map.contains(&Channel::DualMono) || !ctx.r.chance(0.3) {
        return;
    }
    let (most, stop) = if ctx.r.chance(0.2) { (64, 0.03) } else { (12, 0.15) };
    let most = most.min(20_000_000 / x[0].len().max(1)).max(x.len());
    while map.len() < most && !ctx.r.chance(stop) {
        let at = ctx.r.below(map.len() as u64 + 1) as usize;
        let n = x[0].len();
        if ctx.r.chance(0.5) {
            map.insert(at, Channel::Unused);
            let a = ctx.r.frange(0.0, 1.0);
            x.insert(at, (0..n).map(|i| if i * 7 % 10 < 5 { a } else { -a }).collect());
        } else {
            let c = ctx.r.pick(&ALL_CHANNELS);
            map.insert(at, if c == Channel::DualMono { Channel::Center } else { c });
            x.insert(at, vec![0.0; n]);
        }
    }
    ctx.stats.inc("programmes among other channels");
}

fn sine(n: usize, rate: u32, f: f64, ph: f64, a: f64) -> Vec<f64> {
    (0..n).map(|i| a * (2.0 * PI * f * i as f64 / rate as f64 + ph).sin()).collect()
}

/// The measured gain of the weighting filter is the published one, the mean square the power of the
/// sine, and the offset -0.691.
fn response(ctx: &mut Ctx) -> R {
    let rate = match ctx.r.weighted(&[0.4, 0.54, 0.06, 0.05]) {
        0 => 48000,
        3 => ctx.r.logrange(4000, 16000) as u32,
        1 => rate(ctx, 16000, 400_000),
        _ => rate(ctx, 400_000, 2_822_400),
    };
    let top = (rate as f64 / 8.0).min(20000.0);
    let step = 2.5;
    // (the rounding of the coefficients shows in the lowest tones at the highest rates)
    let bottom = if rate > 1_500_000 { 100.0f64 } else { 15.0 };
    let f = ((bottom * (top / bottom).powf(ctx.r.f()) / step).round() * step).max(step * 4.0);
    let db = ctx.r.frange(-40.0, 0.0);
    let a = 10f64.powf(db / 20.0);
    ctx.log(format!("{rate} Hz: sine of {f} Hz, {db} dB"));
    let mut map = vec![Channel::Center];
    let mut x = vec![sine(rate as usize * 3 / 2, rate, f, ctx.r.frange(0.0, 6.28), a)];
    if rate <= 400_000 {
        pad(ctx, &mut map, &mut x);
    }
    let mut e = instance(ctx, map.len() as u32, rate, Mode::M, Mode::empty())?;
    e.set_channel_map(&map).map_err(|e| format!("set_channel_map: {e}"))?;
    feed(ctx, &mut e, &x, &mut |_, _| Ok(()))?;
    let want = -0.691 + 10.0 * (a * a / 2.0).log10() + published(f);
    let tol = if rate == 48000 {
        0.004
    } else if rate < 16000 {
        // (the transformed shelf is broader)
        0.5
    } else {
        0.16
    };
    // what is not a whole number of periods in a window, and quantisation noise
    let tol = tol + if rate % 10 == 0 { 0.0 } else { 0.02 } + if db < -20.0 { 0.02 } else { 0.002 };
    near(&format!("loudness of {f} Hz at {db} dB, sampled at {rate} Hz"), e.loudness_momentary(), want, tol, tol)?;
    ctx.stats.inc("frequency responses measured");
    Ok(())
}

/// level in dBFS (or silence), seconds
type Part = (f64, f64);
const OFF: f64 = f64::NEG_INFINITY;

fn tone(rate: u32, parts: &[Part], f: f64) -> Vec<f64> {
    let mut v = vec![];
    let mut t = 0.0;
    for (db, s) in parts {
        t += s;
        let a = if *db == OFF { 0.0 } else { 10f64.powf(db / 20.0) };
        let end = (t * rate as f64).round() as usize;
        while v.len() < end {
            v.push(a * (2.0 * PI * f * v.len() as f64 / rate as f64).sin());
        }
    }
    v
}

fn layout(ctx: &mut Ctx, ch: u32) -> Vec<Channel> {
    let _ = ctx;
    match ch {
        1 => vec![Channel::DualMono],
        2 => vec![Channel::Left, Channel::Right],
        _ => vec![Channel::Left, Channel::Right, Channel::Center, Channel::Unused, Channel::LeftSurround, Channel::RightSurround],
    }
}

/// TECH 3341 signals 1 to 6: M, S and I
fn integrated(ctx: &mut Ctx) -> R {
    let rate = rate(ctx, 11025, 100_000);
    let k = ctx.r.range(1, 6);
    let hist = if ctx.r.chance(0.4) { Mode::HISTOGRAM } else { Mode::empty() };
    // stereo, or one channel that counts twice
    let mono = ctx.r.chance(0.3) && k != 6;
    let parts: &[Part] = match k {
        1 => &[(-23.0, 20.0)],
        2 => &[(-33.0, 20.0)],
        3 => &[(-36.0, 10.0), (-23.0, 60.0), (-36.0, 10.0)],
        4 => &[(-72.0, 10.0), (-36.0, 10.0), (-23.0, 60.0), (-36.0, 10.0), (-72.0, 10.0)],
        5 => &[(-26.0, 20.0), (-20.0, 20.1), (-26.0, 20.0)],
        _ => &[],
    };
    let (mut map, mut x) = if k == 6 {
        let t = |db: f64| tone(rate, &[(db, 20.0)], 1000.0);
        let z = vec![0.0; t(0.0).len()];
        // what the LFE carries does not count
        let lfe = if ctx.r.chance(0.5) { tone(rate, &[(-3.0, 20.0)], 40.0) } else { z };
        (layout(ctx, 6), vec![t(-28.0), t(-28.0), t(-24.0), lfe, t(-30.0), t(-30.0)])
    } else if mono {
        (layout(ctx, 1), vec![tone(rate, parts, 1000.0)])
    } else {
        (layout(ctx, 2), vec![tone(rate, parts, 1000.0); 2])
    };
    ctx.log(format!("3341-{k} at {rate} Hz, {} channels, {hist:?}", map.len()));
    pad(ctx, &mut map, &mut x);
    let mut e = instance(ctx, map.len() as u32, rate, Mode::I | Mode::S | hist, if hist.is_empty() { Mode::HISTOGRAM } else { Mode::empty() })?;
    e.set_channel_map(&map).map_err(|e| format!("set_channel_map: {e}"))?;
    let want = if k == 2 { -33.0 } else { -23.0 };
    let mut read = 0;
    feed(ctx, &mut e, &x, &mut |e, at| {
        if k <= 2 && at >= rate as usize * 4 && (at - read >= rate as usize / 25 || at == x[0].len()) {
            read = at;
            near("3341 momentary", e.loudness_momentary(), want, 0.1, 0.1)?;
            near("3341 short-term", e.loudness_shortterm(), want, 0.1, 0.1)?;
        }
        Ok(())
    })?;
    near(&format!("3341-{k} integrated, {rate} Hz"), e.loudness_global(), want, 0.1, 0.1)?;
    ctx.stats.inc("integrated loudness of the standard's signals");
    Ok(())
}

/// TECH 3341 signals 9 to 14: time constants of M and S
fn windows(ctx: &mut Ctx) -> R {
    let rate = rate(ctx, 11025, 100_000);
    let k = ctx.r.range(9, 14);
    let (short, parts): (bool, Vec<Part>) = match k {
        9 => (true, [(-20.0, 1.34), (-30.0, 1.66)].repeat(5)),
        10 => (true, vec![(OFF, 0.15 * ctx.r.range(0, 19) as f64), (-23.0, 3.0), (OFF, 1.0)]),
        11 => (true, (0..4).flat_map(|i| vec![(OFF, 0.15 * i as f64), (-38.0 + i as f64, 3.0), (OFF, 3.0 - 0.15 * i as f64)]).collect()),
        12 => (false, [(-20.0, 0.18), (-30.0, 0.22)].repeat(25)),
        13 => (false, vec![(OFF, 0.02 * ctx.r.range(0, 19) as f64), (-23.0, 0.4), (OFF, 1.0)]),
        _ => (false, (0..20).flat_map(|i| vec![(OFF, 0.02 * i as f64), (-38.0 + i as f64, 0.4), (OFF, 0.4 - 0.02 * i as f64)]).collect()),
    };
    ctx.log(format!("3341-{k} at {rate} Hz"));
    let map = layout(ctx, 2);
    let mode = if short { Mode::S } else { Mode::M };
    let mut e = instance(ctx, 2, rate, mode, Mode::empty())?;
    e.set_channel_map(&map).map_err(|e| format!("set_channel_map: {e}"))?;
    let t = tone(rate, &parts, 1000.0);
    // read the meter every 10 ms or so, as a live meter would (25 ms late makes 0.04 dB of 3 s)
    let hop = (rate as usize / if short { ctx.r.range(40, 60) } else { ctx.r.range(100, 110) } as usize).max(1);
    let mut max = f64::NEG_INFINITY;
    let mut at = 0;
    let planar = ctx.r.chance(0.5);
    let (mut lo, mut hi) = (f64::INFINITY, f64::NEG_INFINITY);
    let mut steps = vec![];
    let mut seg = 0.0;
    while at < t.len() {
        let n = hop.min(t.len() - at);
        let c = t[at..at + n].to_vec();
        Raw::F64(vec![c.clone(), c]).feed(&mut e, planar, false).map_err(|e| format!("add_frames: {e}"))?;
        at += n;
        let v = if short { e.loudness_shortterm() } else { e.loudness_momentary() }.map_err(|e| format!("{e}"))?;
        max = max.max(v);
        let s = at as f64 / rate as f64;
        if s > if short { 3.05 } else { 1.0 } {
            lo = lo.min(v);
            hi = hi.max(v);
        }
        // one maximum per tone of 11 and 14
        let len = if short { 6.0 } else { 0.8 };
        if s - seg >= len + 1e-9 || at == t.len() {
            steps.push(max);
            seg += len;
            max = v;
            if matches!(k, 11 | 14) {
                max = f64::NEG_INFINITY;
            }
        }
    }
    ctx.nontrivial = true;
    let what = format!("3341-{k} at {rate} Hz");
    match k {
        9 | 12 => {
            near(&format!("{what}: least"), Ok(lo), -23.0, 0.1, 0.1)?;
            near(&format!("{what}: largest"), Ok(hi), -23.0, 0.1, 0.1)?;
        }
        10 | 13 => near(&what, Ok(steps.into_iter().fold(max, f64::max)), -23.0, 0.1, 0.1)?,
        _ => {
            for (i, s) in steps.iter().enumerate().take(if k == 11 { 4 } else { 20 }) {
                near(&format!("{what}: tone {i}"), Ok(*s), -38.0 + i as f64, 0.1, 0.1)?;
            }
        }
    }
    ctx.stats.inc("meter time constants checked");
    Ok(())
}

/// TECH 3342 signals 1 to 4
fn range(ctx: &mut Ctx) -> R {
    let rate = rate(ctx, 11025, 64_000);
    let k = ctx.r.range(1, 4);
    let (parts, want): (&[Part], f64) = match k {
        1 => (&[(-20.0, 20.0), (-30.0, 20.0)], 10.0),
        2 => (&[(-20.0, 20.0), (-15.0, 20.0)], 5.0),
        3 => (&[(-40.0, 20.0), (-20.0, 20.0)], 20.0),
        _ => (&[(-50.0, 20.0), (-35.0, 20.0), (-20.0, 20.0), (-35.0, 20.0), (-50.0, 20.0)], 15.0),
    };
    let hist = if ctx.r.chance(0.4) { Mode::HISTOGRAM } else { Mode::empty() };
    ctx.log(format!("3342-{k} at {rate} Hz, {hist:?}"));
    let mono = ctx.r.chance(0.5);
    let mut map = layout(ctx, if mono { 1 } else { 2 });
    let mut x = vec![tone(rate, parts, 1000.0); map.len()];
    pad(ctx, &mut map, &mut x);
    let mut e = instance(ctx, map.len() as u32, rate, Mode::LRA | hist, if hist.is_empty() { Mode::HISTOGRAM } else { Mode::empty() })?;
    e.set_channel_map(&map).map_err(|e| format!("set_channel_map: {e}"))?;
    feed(ctx, &mut e, &x, &mut |_, _| Ok(()))?;
    near(&format!("3342-{k} at {rate} Hz"), e.loudness_range(), want, 1.0, 1.0)?;
    ctx.stats.inc("loudness ranges of the standard's signals");
    Ok(())
}

/// TECH 3341 signals 15 to 19 and alike: true peak meters read the amplitude of a sine of any phase
/// to +0.2/-0.4 dB
fn peaks(ctx: &mut Ctx) -> R {
    let high = ctx.r.chance(0.06);
    let rate = if high { rate(ctx, 400_000, 2_822_400) } else { rate(ctx, 11025, 400_000) };
    // of the sample rate; what the meter's oversampling resolves
    let top = if rate < 96000 {
        0.25
    } else if rate < 192000 {
        0.125
    } else {
        0.06
    };
    let (div, ph) = ctx.r.pick(&[(4.0, 0.0), (4.0, 45.0), (6.0, 60.0), (8.0, 67.5), (4.0, 22.5), (0.0, 0.0), (0.0, 0.0)]);
    let f = if div == 0.0 || 1.0 / div > top { ctx.r.frange(0.005, top) } else { 1.0 / div };
    let ph = if div == 0.0 { ctx.r.frange(0.0, 2.0 * PI) } else { ph * PI / 180.0 };
    let a = ctx.r.pick(&[0.5, 1.41, 1.0, 0.05]);
    let ch = if high { ctx.r.range(1, 2) } else if ctx.r.chance(0.85) { ctx.r.range(1, 9) } else { ctx.r.range(10, 64) } as u32;
    let at = ctx.r.below(ch as u64) as usize;
    ctx.log(format!("{rate} Hz: {f} of it, phase {ph}, amplitude {a}, channel {at} of {ch}"));
    let mut e = instance(ctx, ch, rate, Mode::TRUE_PEAK, Mode::empty())?;
    // faded in and out: an edge has peaks of its own
    let n = ((rate / 20).max(4000)) as usize;
    let fade = n / 5;
    let x: Vec<f64> = (0..n)
        .map(|i| {
            let g = (i.min(n - 1 - i) as f64 / fade as f64).min(1.0);
            let g = 0.5 - 0.5 * (PI * g).cos();
            a * g * (2.0 * PI * f * i as f64 + ph).sin()
        })
        .collect();
    let x: Vec<Vec<f64>> = (0..ch as usize).map(|c| if c == at { x.clone() } else { vec![0.0; n] }).collect();
    feed(ctx, &mut e, &x, &mut |_, _| Ok(()))?;
    let db = |v: f64| 20.0 * v.log10();
    for c in 0..ch {
        let v = e.true_peak(c).map_err(|e| format!("{e}"))?;
        if c as usize == at {
            near(&format!("true peak of a sine of {f} of the rate at {rate} Hz, channel {c} of {ch}"), Ok(db(v)), db(a), 0.4, 0.2)?;
        } else if v != 0.0 {
            return Err(format!("true peak {v} of silence on channel {c}"));
        }
    }
    ctx.stats.inc("true peaks of sines");
    Ok(())
}

pub fn add(v: &mut Vec<Prop>) {
    v.push(Prop {
        id: "C22",
        level: "exploration",
        rule: "a case is one of the standards' signals, at a random sample rate, in a random format, layout and chunking, or a sine of random frequency and level; distinct by the hash of these",
        streams: vec![
            stream("response", 4000, 100_000, response),
            stream("integrated", 700, 20_000, integrated),
            stream("windows", 1500, 40_000, windows),
            stream("range", 700, 20_000, range),
            stream("peaks", 4000, 100_000, peaks),
        ],
        must: &[
            "frequency responses measured",
            "integrated loudness of the standard's signals",
            "meter time constants checked",
            "loudness ranges of the standard's signals",
            "true peaks of sines",
        ],
        assumptions: &["tolerances are the standards' (0.1 LU, 1 LU for the range, +0.2/-0.4 dB for true peaks); 0.004 dB for the filter at 48 kHz, 0.16 dB at other rates up to an eighth of the rate"],
        threads: 8,
    });
}
