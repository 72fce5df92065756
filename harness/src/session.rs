//! Lockstep sessions: random operation sequences over the whole API, executed on the crate and on
//! the reference model, with the observable values compared after the operations.
use crate::gen::*;
use crate::model::{db, rate_stable, undb, Exp, Model};
use crate::rng::Rng;
use crate::rt::Ctx;
use ebur128::{Channel, EbuR128, Error, Mode};

pub const G: u32 = 1; // integrated loudness, relative threshold, gating blocks
pub const W: u32 = 2; // momentary, short-term, window
pub const L: u32 = 4; // loudness range
pub const SP: u32 = 8;
pub const TP: u32 = 16;
pub const META: u32 = 32;
pub const ALL: u32 = 63;

pub fn check_energy(ctx: &mut Ctx, what: &str, got: Result<f64, Error>, exp: &Exp, rel: f64, noise: f64) -> Result<(), String> {
    match (exp, got) {
        (Exp::Any(w), _) => {
            ctx.stats.inc(&format!("skipped: {w}"));
            Ok(())
        }
        (Exp::Err(e), Err(g)) if *e == g => {
            ctx.stats.inc("expected errors");
            Ok(())
        }
        (Exp::Energy(e), Ok(l)) => {
            let el = if l == f64::NEG_INFINITY { 0.0 } else { undb(l) };
            let (a, b) = (e.max(0.0).sqrt(), el.sqrt());
            let tol = rel * a + noise + 1e-140;
            let d = (a - b).abs();
            if !(d <= tol) {
                return Err(format!(
                    "{what}: library {l} LUFS, reference {} LUFS (amplitudes {b:e} / {a:e}, tolerance {tol:e})",
                    if *e > 0.0 { db(*e) } else { f64::NEG_INFINITY }
                ));
            }
            ctx.stats.max("used tolerance (loudness)", d / tol);
            ctx.stats.inc(if a > 0.0 { "finite loudness values compared" } else { "silence compared" });
            Ok(())
        }
        (Exp::Lu(e, tol), Ok(l)) => {
            let tol = *tol;
            let d = (e - l).abs();
            if !(d <= tol) {
                return Err(format!("{what}: library {l} LU, reference {e} LU (tolerance {tol:e})"));
            }
            ctx.stats.max("used tolerance (range)", d / tol);
            ctx.stats.inc(if *e > 0.0 { "non-zero loudness ranges compared" } else { "zero loudness ranges compared" });
            Ok(())
        }
        (Exp::Peak(e, tol), Ok(l)) => {
            // (results that are denormal may be flushed to zero)
            let tol = tol + 1e-12 * e.abs() + 3e-308;
            let d = (e - l).abs();
            if !(d <= tol) && *e != l {
                return Err(format!("{what}: library {l:e}, reference {e:e} (tolerance {tol:e})"));
            }
            if tol > 0.0 && d.is_finite() {
                ctx.stats.max("used tolerance (peaks)", d / tol);
            }
            ctx.stats.inc(if *e > 0.0 { "non-zero peaks compared" } else { "zero peaks compared" });
            Ok(())
        }
        (e, g) => Err(format!("{what}: library {g:?}, reference {e:?}")),
    }
}

/// A window beyond what is kept: extremes, anything, and lengths whose number of frames is
/// small again when counted in 32 bits
fn too_long(ctx: &mut Ctx, m: &Model) -> u64 {
    let least = m.window as u64 + 1;
    let top = u32::MAX as u64;
    match ctx.r.below(4) {
        0 => ctx.r.pick(&[top, top - 1, 1 << 31, least]).max(least),
        1 => ctx.r.logrange(least, top),
        _ => {
            let rate = m.rate as u64;
            let k = ctx.r.range(1, (rate * top >> 32).clamp(1, 50));
            ((k << 32) / rate + 1 + ctx.r.logrange(1, m.window as u64) - 1).clamp(least, top)
        }
    }
}

/// A channel index out of range: extremes, anything, and those that are in range when cut down to
/// fewer bits
pub fn bad_channel(ctx: &mut Ctx, ch: u32) -> u32 {
    let i = match ctx.r.below(4) {
        0 => ctx.r.logrange(ch as u64, u32::MAX as u64) as u32,
        1 => ctx.r.below(ch as u64) as u32 + ctx.r.pick(&[1 << 7, 1 << 8, 1 << 15, 1 << 16, 1 << 24, 1 << 31]),
        2 => ctx.r.pick(&[0u32, 1, 63, 64, 65, 127, 255, 65535, i32::MAX as u32]) | ctx.r.pick(&[0, 1 << 31]),
        _ => ctx.r.pick(&[ch, ch + 1, ch + 100, 64, 65, 256, 1 << 16, 1 << 31, u32::MAX, u32::MAX - 1]),
    };
    i.max(ch)
}

/// Compare the values of `mask`
pub fn compare(ctx: &mut Ctx, e: &EbuR128, m: &Model, mask: u32) -> Result<(), String> {
    let rel = m.rel();
    let nc = (m.channels as f64).sqrt() * 1.2;
    let noise = m.noise() * nc;
    let ht = m.hist_tol();
    if mask & META != 0 {
        let a = (e.mode(), e.channels(), e.rate(), e.channel_map().to_vec(), e.max_window(), e.max_history());
        let b = (m.mode, m.channels as u32, m.rate, m.map.clone(), m.window, m.history);
        if a != b {
            return Err(format!("configuration: library {a:?}, reference {b:?}"));
        }
        ctx.stats.inc("configurations compared");
    }
    if mask & G != 0 {
        let x = m.global();
        check_energy(ctx, "loudness_global", e.loudness_global(), &x, ht.rel, ht.noise)?;
        if matches!(x, Exp::Energy(v) if v > 0.0) {
            ctx.stats.inc("integrated loudness compared");
            ctx.stats.max("blocks in history", m.blocks.count() as f64);
        }
        let x = m.rel_threshold();
        check_energy(ctx, "relative_threshold", e.relative_threshold(), &x, ht.rel, ht.noise)?;
        match m.gating_count() {
            Err(w) => ctx.stats.inc(&format!("skipped: {w}")),
            Ok(None) => {
                let g = e.gating_block_count_and_energy();
                if g.is_some() {
                    return Err(format!("gating_block_count_and_energy: library {g:?}, reference None"));
                }
            }
            Ok(Some((n, s))) => {
                let g = e.gating_block_count_and_energy();
                match g {
                    Some((ln, ls)) if ln == n && (ls / s - 1.0).abs() <= ht.energy(s / n as f64) => {
                        ctx.stats.inc("gating block counts compared");
                        if n < m.blocks.count() {
                            ctx.stats.inc("... with blocks below the relative gate");
                        }
                        if m.blocks.count() < m.blocks_measured {
                            ctx.stats.inc("... with blocks below the absolute gate or limited history");
                        }
                    }
                    _ => return Err(format!("gating_block_count_and_energy: library {g:?}, reference {:?}", (n, s))),
                }
            }
        }
    }
    if mask & W != 0 {
        check_energy(ctx, "loudness_momentary", e.loudness_momentary(), &m.momentary(), rel, noise)?;
        check_energy(ctx, "loudness_shortterm", e.loudness_shortterm(), &m.shortterm(), rel, noise)?;
        for _ in 0..2 {
            let w = match ctx.r.weighted(&[2.0, 1.0, 1.0, 1.0, 1.0, 0.3, 0.3]) {
                0 => ctx.r.logrange(1, m.window as u64),
                1 => m.window as u64,
                2 => ctx.r.pick(&[400, 3000]),
                3 => {
                    let d = ctx.dict;
                    d.num(&mut ctx.r, 1, m.window as u64)
                }
                4 => ctx.r.range(1, m.window as u64),
                5 => m.window as u64 + ctx.r.logrange(1, 10000),
                _ => too_long(ctx, m),
            } as u32;
            let what = format!("loudness_window({w})");
            check_energy(ctx, &what, e.loudness_window(w), &m.window(w), rel, noise)?;
        }
    }
    if mask & L != 0 {
        let x = m.range();
        check_energy(ctx, "loudness_range", e.loudness_range(), &x, ht.rel, ht.noise)?;
        ctx.stats.max("short-term blocks in history", m.st_blocks.count() as f64);
    }
    let nch = m.channels as u32;
    if mask & SP != 0 {
        for c in (0..nch).chain([bad_channel(ctx, nch)]) {
            check_energy(ctx, &format!("sample_peak({c})"), e.sample_peak(c), &m.sample_peak(c), 0.0, 0.0)?;
            check_energy(ctx, &format!("prev_sample_peak({c})"), e.prev_sample_peak(c), &m.prev_sample_peak(c), 0.0, 0.0)?;
        }
    }
    if mask & TP != 0 {
        for c in (0..nch).chain([bad_channel(ctx, nch)]) {
            check_energy(ctx, &format!("true_peak({c})"), e.true_peak(c), &m.true_peak(c), 0.0, 0.0)?;
            check_energy(ctx, &format!("prev_true_peak({c})"), e.prev_true_peak(c), &m.prev_true_peak(c), 0.0, 0.0)?;
        }
    }
    Ok(())
}

#[derive(Clone)]
pub struct Opts {
    pub must: Mode,
    pub never: Mode,
    pub mask: u32,
    /// samples * channels
    pub budget: u64,
    /// add, set_channel, set_channel_map, change_parameters, set_max_window, set_max_history, reset, seed, rejected calls, debug
    pub w: [f64; 10],
    pub fmts: &'static [Fmt],
    pub rate: fn(&mut Ctx) -> u32,
    pub channels: fn(&mut Ctx) -> u32,
    pub max_ops: u64,
    /// probability of comparing after an operation
    pub cmp: f64,
    /// values not to be trusted: NaN, Inf, huge, denormal
    pub hostile: f64,
    /// probability of float samples beyond full scale
    pub boost: f64,
    /// at most that many frames per call
    pub small: Option<u64>,
    /// every now and then (nearly) all that is left in one call
    pub big: f64,
    /// where all that is left may be very much: frames in one call
    pub huge: u64,
}

/// The session as described, or now and then one of the same kind but with very many small
/// calls, much more audio, or much more going on besides adding audio
pub fn style(ctx: &mut Ctx, o: &Opts, mode: Mode, channels: u32, rate: u32) -> Opts {
    let mut o = o.clone();
    // enough for some blocks at any rate
    let blocks = if o.must.contains(Mode::LRA) { 45 } else { 12 };
    let least = blocks * channels as u64 * rate as u64 / 10;
    if o.budget < least && (rate <= 400_000 || ctx.r.chance(0.4)) {
        o.budget = least.min(20_000_000);
    }
    let long = o.budget > 3_000_000;
    let endless = if long || channels > 2 || rate > 400_000 { 0.0 } else { 0.004 };
    match ctx.r.weighted(&[0.88, 0.03, 0.02, 0.07, endless]) {
        1 if !long => {
            ctx.stats.inc("sessions of thousands of calls");
            o.max_ops = ctx.r.pick(&[1500, 3000, 9000]);
            let budget = o.budget.max(800_000);
            o.budget = budget + 50 * o.max_ops;
            o.small = Some((2 * budget / o.max_ops / channels as u64).clamp(1, 3 * rate as u64));
            for w in o.w.iter_mut().skip(1) {
                *w *= 0.03;
            }
            o.cmp = o.cmp.min(30.0 / o.max_ops as f64);
        }
        2 if !long => {
            ctx.stats.inc("sessions of much audio");
            o.budget *= 5;
            o.big = ctx.r.pick(&[0.0, 0.2, 0.6]);
            o.max_ops *= 5;
            o.cmp *= 0.3;
            for w in o.w.iter_mut().skip(1) {
                *w *= 0.1;
            }
        }
        3 => {
            ctx.stats.inc("sessions of many changes");
            for w in o.w.iter_mut().skip(1) {
                *w *= 6.0;
            }
        }
        4 => {
            // (frames and samples beyond what 22, 23 and 24 bits count)
            ctx.stats.inc("sessions of very much audio");
            let frames = if mode.contains(Mode::TRUE_PEAK) { ctx.r.range(5_000_000, 9_000_000) } else { ctx.r.range(9_000_000, 20_000_000) };
            o.budget = frames * channels as u64;
            o.huge = (frames / ctx.r.range(20, 200)).min(500_000);
            o.big = ctx.r.pick(&[0.5, 0.9]);
            o.max_ops = 2000;
            o.cmp = o.cmp.min(0.1);
            for w in o.w.iter_mut().skip(1) {
                *w *= 0.1;
            }
            // nothing that starts anew
            o.w[6] = 0.0;
            o.w[3] *= 0.1;
        }
        _ => (),
    }
    o
}

/// no more channels than memory and time allow at that rate
pub fn fit(channels: u32, rate: u32) -> u32 {
    channels.min((4_000_000 / rate).max(1))
}
/// Other parameters with as many samples per second
pub fn as_many(r: &mut Rng, channels: u32, rate: u32) -> Option<(u32, u32)> {
    let k = r.pick(&[2u32, 2, 3, 4, 6, 8]);
    let (c, h) = if r.chance(0.5) { (channels * k, rate / k) } else { (channels / k, rate * k) };
    (c * h == channels * rate && (1..=64).contains(&c) && (16..=200_000).contains(&h) && fit(c, h) == c && rate_stable(h)).then_some((c, h))
}
/// Not with so much audio in the window that there might be no memory for it
pub fn room(m: &Model, channels: u32, rate: u32) -> bool {
    channels as u64 * rate as u64 * m.window as u64 / 1000 <= 16_000_000
}
pub fn any_rate(c: &mut Ctx) -> u32 {
    pick_rate(&mut c.r, c.dict)
}
pub fn stable_rate(c: &mut Ctx) -> u32 {
    pick_stable_rate(&mut c.r, c.dict)
}
/// all the rates converters have, and those beyond
pub fn other_rate(c: &mut Ctx) -> u32 {
    loop {
        let r = match c.r.weighted(&[2.0, 1.0, 0.5, 0.4]) {
            0 => c.r.pick(STD_RATES),
            1 => c.r.pick(ODD_RATES),
            2 => c.r.logrange(4000, 400_000) as u32,
            _ => c.r.range(400_000, 2_822_400) as u32,
        };
        if crate::model::rate_stable(r) {
            return r;
        }
    }
}
pub fn low_rate(c: &mut Ctx) -> u32 {
    c.r.pick(&c.dict.low_rates)
}
pub fn any_channels(c: &mut Ctx) -> u32 {
    pick_channels(&mut c.r)
}
pub fn few_channels(c: &mut Ctx) -> u32 {
    c.r.range(1, 3) as u32
}
pub fn one_channel(_: &mut Ctx) -> u32 {
    1
}

impl Default for Opts {
    fn default() -> Self {
        Opts {
            must: Mode::M,
            never: Mode::empty(),
            mask: ALL,
            budget: 600_000,
            w: [30.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 0.2],
            fmts: &FMTS,
            rate: stable_rate,
            channels: any_channels,
            max_ops: 120,
            cmp: 0.5,
            hostile: 0.0,
            boost: 0.05,
            small: None,
            big: 0.0,
            huge: 0,
        }
    }
}

/// A channel map that keeps the specified behaviour (see Model::channel_clean)
pub fn pick_map(ctx: &mut Ctx, m: &Model) -> Vec<Channel> {
    (0..m.channels)
        .map(|i| {
            if m.map[i] == Channel::Unused && !m.channel_clean(i) {
                return Channel::Unused;
            }
            pick_channel_type(ctx, m.channels)
        })
        .collect()
}

pub fn pick_channel_type(ctx: &mut Ctx, channels: usize) -> Channel {
    if channels == 1 && ctx.r.chance(0.2) {
        return Channel::DualMono;
    }
    loop {
        let c = ctx.r.pick(&ALL_CHANNELS);
        if c == Channel::DualMono && channels != 1 {
            continue;
        }
        return c;
    }
}

pub fn hostile_values(ctx: &mut Ctx, x: &mut [Vec<f64>]) {
    let n = x[0].len() as u64;
    if n == 0 {
        return;
    }
    for _ in 0..ctx.r.range(1, 4) {
        let c = ctx.r.below(x.len() as u64) as usize;
        let i = ctx.r.below(n) as usize;
        let v = ctx.r.pick(&[
            f64::NAN,
            -f64::NAN,
            f64::INFINITY,
            f64::NEG_INFINITY,
            f64::MAX,
            f64::MIN,
            f64::MIN_POSITIVE,
            5e-324,
            -5e-324,
            1e-310,
            f32::MAX as f64,
            f32::MIN_POSITIVE as f64,
            1e-45,
            1e300,
            -1e300,
            1e154,
            1e20,
            -0.0,
            4.0,
        ]);
        let run = if ctx.r.chance(0.2) { ctx.r.range(1, n) } else { 1 } as usize;
        for k in i..(i + run).min(n as usize) {
            x[c][k] = v;
        }
    }
}

pub fn session(ctx: &mut Ctx, o: &Opts) -> Result<(), String> {
    let rate = (o.rate)(ctx);
    let channels = fit((o.channels)(ctx), rate);
    let mode = pick_mode(&mut ctx.r, o.must, o.never);
    ctx.log(format!("new({channels}, {rate}, {mode:?})"));
    let mut e = EbuR128::new(channels, rate, mode).map_err(|e| format!("new({channels}, {rate}, {mode:?}): {e}"))?;
    let mut m = Model::new(channels, rate, mode).expect("model");
    let o = style(ctx, o, mode, channels, rate);
    run_ops(ctx, &o, &mut e, &mut m)
}

fn mask_now(ctx: &mut Ctx, o: &Opts) -> u32 {
    // not everything every time
    let mut k = 0;
    for b in [G, W, L, SP, TP, META] {
        if o.mask & b != 0 && ctx.r.chance(0.6) {
            k |= b;
        }
    }
    k
}

pub fn run_ops(ctx: &mut Ctx, o: &Opts, e: &mut EbuR128, m: &mut Model) -> Result<(), String> {
    let mut budget = o.budget;
    let mut sig = Signal::new(&mut ctx.r, m.channels, m.rate);
    let mut ops = 0;
    let mut last_fmt = ctx.r.pick(o.fmts);
    let sticky = ctx.r.chance(0.6);
    let sticky_size = o.small.is_none() && ctx.r.chance(0.25);
    let mut size = 0;
    let mut sound = 0;
    // now and then a programme far below or above what converters produce
    let level = if o.boost > 0.0 && ctx.r.chance(0.06) { 10f64.powf(ctx.r.frange(-20.0, 4.0)) } else { 1.0 };
    if level != 1.0 {
        ctx.log(format!("float samples scaled by {level:e}"));
        ctx.stats.inc("sessions at odd levels");
    }
    while ops < o.max_ops && budget > 0 {
        ops += 1;
        let op = ctx.r.weighted(&o.w);
        match op {
            0 | 7 => {
                let seed = op == 7;
                let max = (budget / m.channels as u64).min(if o.huge > 0 { o.huge } else { 60 * m.rate as u64 });
                if max == 0 {
                    break;
                }
                let n = if sticky_size && size > 0 && !seed {
                    (size as u64).min(max) as usize
                } else if let Some(s) = o.small {
                    ctx.r.logrange(0, s.min(max)) as usize
                } else if o.big > 0.0 && ctx.r.chance(o.big) {
                    ctx.r.range(max / 2, max) as usize
                } else {
                    pick_frames(&mut ctx.r, ctx.dict, m, max) as usize
                };
                size = n;
                if !sticky {
                    last_fmt = ctx.r.pick(o.fmts);
                }
                let mut x = sig.next(n);
                let mut hostile = false;
                let float = matches!(last_fmt, Fmt::F32 | Fmt::F64);
                if float && level != 1.0 {
                    for v in x.iter_mut().flatten() {
                        *v *= level;
                    }
                }
                if float && ctx.r.chance(o.boost) {
                    let top = if ctx.r.chance(0.3) { 4.0 } else { 1.0 };
                    let g = 10f64.powf(ctx.r.frange(0.0, top));
                    for c in &mut x {
                        for v in c.iter_mut() {
                            *v *= g;
                        }
                    }
                }
                if o.hostile > 0.0 && float && ctx.r.chance(o.hostile) {
                    hostile = true;
                    hostile_values(ctx, &mut x);
                }
                let raw = Raw::quantize(&x, last_fmt);
                let planar = ctx.r.chance(0.5);
                ctx.log(format!(
                    "{}({n} frames, {last_fmt:?}, {}{})",
                    if seed { "seed" } else { "add" },
                    if planar { "planar" } else { "interleaved" },
                    if hostile { ", hostile" } else { "" }
                ));
                raw.feed(e, planar, seed)
                    .map_err(|x| format!("{} of {n} valid frames rejected: {x}", if seed { "seed_frames" } else { "add_frames" }))?;
                let x = raw.exact();
                if seed {
                    m.seed(&x);
                    ctx.stats.inc("seed calls");
                } else {
                    m.add(&x)
                        .expect("model accepts");
                    ctx.stats.inc("add calls");
                    ctx.stats.add("frames fed", n as u64);
                    sound += n;
                }
                budget = budget.saturating_sub((n * m.channels) as u64 + 50);
            }
            1 => {
                let i = ctx.r.below(m.channels as u64) as usize;
                if m.map[i] == Channel::Unused && !m.channel_clean(i) {
                    continue;
                }
                let c = pick_channel_type(ctx, m.channels);
                ctx.log(format!("set_channel({i}, {c:?})"));
                e.set_channel(i as u32, c).map_err(|x| format!("set_channel({i}, {c:?}): {x}"))?;
                m.set_channel(i as u32, c).expect("model");
                ctx.stats.inc("channel changes");
            }
            2 => {
                let map = if ctx.r.chance(0.3) {
                    let d = crate::model::default_map(m.channels);
                    if (0..m.channels).any(|i| m.map[i] == Channel::Unused && !m.channel_clean(i)) {
                        continue;
                    }
                    d
                } else {
                    pick_map(ctx, m)
                };
                ctx.log(format!("set_channel_map({map:?})"));
                e.set_channel_map(&map).map_err(|x| format!("set_channel_map({map:?}): {x}"))?;
                m.set_channel_map(&map).expect("model");
                ctx.stats.inc("channel changes");
            }
            3 => {
                let ch = if ctx.r.chance(0.5) { m.channels as u32 } else { (o.channels)(ctx) };
                let rate = if ctx.r.chance(0.4) { m.rate } else { (o.rate)(ctx) };
                let mut to = (fit(ch, rate), rate);
                if ctx.r.chance(0.2) {
                    to = as_many(&mut ctx.r, m.channels as u32, m.rate).unwrap_or(to);
                }
                let (ch, rate) = to;
                if !room(m, ch, rate) {
                    continue;
                }
                ctx.log(format!("change_parameters({ch}, {rate})"));
                e.change_parameters(ch, rate).map_err(|x| format!("change_parameters({ch}, {rate}): {x}"))?;
                m.change_parameters(ch, rate).expect("model");
                sig = Signal::new(&mut ctx.r, m.channels, m.rate);
                ctx.stats.inc("parameter changes");
            }
            4 => {
                let cap = (3_000_000 / (m.rate as u64 * m.channels as u64)).clamp(1, 40) * 1000;
                let huge = if m.channels == 1 { 0.05 } else { 0.0 };
                let w = match ctx.r.weighted(&[1.0, 1.0, 1.0, 0.5, huge]) {
                    // frames times 1000 no longer fit 32 bits
                    4 => {
                        ctx.stats.inc("windows beyond 2^32 rate milliseconds");
                        (ctx.r.range(4_300_000, 6_000_000) * 1000 / m.rate as u64).min(u32::MAX as u64)
                    }
                    0 => ctx.r.range(0, 6000),
                    1 => ctx.r.logrange(0, cap.max(3000)),
                    2 => ctx.r.pick(&[0, 399, 400, 401, 2999, 3000, 3001, m.window as u64]),
                    _ => {
                        let d = ctx.dict;
                        d.num(&mut ctx.r, 0, cap.max(3000))
                    }
                } as u32;
                ctx.log(format!("set_max_window({w})"));
                e.set_max_window(w).map_err(|x| format!("set_max_window({w}): {x}"))?;
                m.set_max_window(w);
                ctx.stats.inc("window changes");
            }
            5 => {
                let w = match ctx.r.weighted(&[1.0, 1.0, 1.0, 0.5, 0.3]) {
                    0 => ctx.r.range(0, 20000),
                    1 => ctx.r.logrange(0, 2_000_000),
                    2 => ctx.r.pick(&[0, 399, 400, 401, 499, 500, 2999, 3000, 3001, 5999, 6000, 6001]),
                    3 => {
                        let d = ctx.dict;
                        d.num(&mut ctx.r, 0, 1 << 22)
                    }
                    _ => ctx.r.pick(&[u32::MAX as u64, 1 << 31, m.history.min(u32::MAX as usize) as u64]),
                } as u32;
                ctx.log(format!("set_max_history({w})"));
                e.set_max_history(w).map_err(|x| format!("set_max_history({w}): {x}"))?;
                m.set_max_history(w);
                ctx.stats.inc("history changes");
            }
            6 => {
                ctx.log("reset()".into());
                e.reset();
                m.reset();
                ctx.stats.inc("resets");
            }
            8 => rejected(ctx, e, m)?,
            _ => {
                let s = format!("{e:?}");
                if s.is_empty() {
                    return Err("empty Debug output".into());
                }
                ctx.stats.inc("debug prints");
            }
        }
        if ctx.r.chance(o.cmp) || (op != 0 && op != 7) {
            let k = mask_now(ctx, o);
            compare(ctx, e, m, k)?;
        }
    }
    compare(ctx, e, m, o.mask)?;
    if sound > 0 {
        ctx.nontrivial = true;
    }
    Ok(())
}

/// Calls that have to be rejected
pub fn rejected(ctx: &mut Ctx, e: &mut EbuR128, m: &Model) -> Result<(), String> {
    let ch = m.channels as u32;
    let what;
    let got: Result<(), Error>;
    let want;
    match ctx.r.below(8) {
        0 => {
            let c = if ctx.r.chance(0.4) {
                ctx.r.logrange(65, u32::MAX as u64) as u32
            } else {
                ctx.r.pick(&[0, 65, 66, 100, 256, 257, 320, 1 << 20, 1 << 16, (1 << 16) + 2, u32::MAX])
            };
            let rate = if ctx.r.chance(0.6) { m.rate } else { any_rate(ctx) };
            what = format!("change_parameters({c}, {rate})");
            got = e.change_parameters(c, rate);
            want = Error::NoMem;
        }
        1 => {
            let r = match ctx.r.below(4) {
                0 => ctx.r.logrange(2822401, u32::MAX as u64) as u32,
                1 => ctx.r.range(0, 15) as u32,
                _ => ctx.r.pick(&[0, 1, 15, 14, 2822401, 2822402, 5_000_000, u32::MAX]),
            };
            let c = if ctx.r.chance(0.6) { ch } else { any_channels(ctx) };
            what = format!("change_parameters({c}, {r})");
            got = e.change_parameters(c, r);
            want = Error::NoMem;
        }
        2 => {
            let i = bad_channel(ctx, ch);
            let t = pick_channel_type(ctx, 1);
            what = format!("set_channel({i}, {t:?})");
            got = e.set_channel(i, t);
            want = Error::InvalidChannelIndex;
        }
        3 => {
            if ch == 1 {
                return Ok(());
            }
            let i = ctx.r.below(ch as u64) as u32;
            what = format!("set_channel({i}, DualMono)");
            got = e.set_channel(i, Channel::DualMono);
            want = Error::InvalidChannelIndex;
        }
        4 => {
            let n = *[ch as usize + 1, ch as usize - 1, 0, ch as usize + 40].get(ctx.r.below(4) as usize).unwrap();
            let v: Vec<_> = (0..n).map(|_| ctx.r.pick(&ALL_CHANNELS)).collect();
            what = format!("set_channel_map({v:?})");
            got = e.set_channel_map(&v);
            want = Error::InvalidChannelIndex;
        }
        5 => {
            if ch == 1 {
                return Ok(());
            }
            let mut v: Vec<_> = (0..ch).map(|_| pick_channel_type(ctx, 2)).collect();
            let k = ctx.r.below(ch as u64) as usize;
            v[k] = Channel::DualMono;
            what = format!("set_channel_map({v:?})");
            got = e.set_channel_map(&v);
            want = Error::InvalidChannelIndex;
        }
        6 => {
            // not a whole number of frames
            if ch == 1 {
                return Ok(());
            }
            let n = (ctx.r.logrange(0, 5000) * ch as u64 + ctx.r.range(1, ch as u64 - 1)) as usize;
            let seed = ctx.r.chance(0.4);
            what = format!("{} {n} samples", if seed { "seed" } else { "add" });
            got = match (ctx.r.below(4), seed) {
                (0, false) => e.add_frames_i16(&vec![12345; n]),
                (1, false) => e.add_frames_i32(&vec![1 << 30; n]),
                (2, false) => e.add_frames_f32(&vec![0.7; n]),
                (3, false) => e.add_frames_f64(&vec![0.8; n]),
                (0, _) => e.seed_frames_i16(&vec![12345; n]),
                (1, _) => e.seed_frames_i32(&vec![1 << 30; n]),
                (2, _) => e.seed_frames_f32(&vec![0.7; n]),
                _ => e.seed_frames_f64(&vec![0.8; n]),
            };
            want = Error::NoMem;
        }
        _ => {
            // planar with a wrong number of channels or lengths that differ
            let mut lens = vec![ctx.r.logrange(1, 3000) as usize; ch as usize];
            match ctx.r.below(4) {
                0 => lens.push(lens[0]),
                1 => {
                    lens.pop();
                }
                2 if ch > 1 => {
                    let k = ctx.r.below(ch as u64) as usize;
                    if ctx.r.chance(0.5) {
                        lens[k] += 1
                    } else {
                        lens[k] -= 1
                    };
                }
                _ => lens.clear(),
            }
            let seed = ctx.r.chance(0.4);
            what = format!("{} planar {lens:?}", if seed { "seed" } else { "add" });
            macro_rules! p {
                ($v:expr, $a:ident, $s:ident) => {{
                    let d: Vec<Vec<_>> = lens.iter().map(|n| vec![$v; *n]).collect();
                    let v: Vec<&[_]> = d.iter().map(|c| &c[..]).collect();
                    if seed {
                        e.$s(&v)
                    } else {
                        e.$a(&v)
                    }
                }};
            }
            got = match ctx.r.below(4) {
                0 => p!(12345i16, add_frames_planar_i16, seed_frames_planar_i16),
                1 => p!(1i32 << 30, add_frames_planar_i32, seed_frames_planar_i32),
                2 => p!(0.7f32, add_frames_planar_f32, seed_frames_planar_f32),
                _ => p!(0.8f64, add_frames_planar_f64, seed_frames_planar_f64),
            };
            want = Error::NoMem;
        }
    }
    ctx.log(format!("rejected: {what}"));
    ctx.stats.inc("calls that must be rejected");
    if got != Err(want) {
        return Err(format!("{what}: {got:?} instead of {want:?}"));
    }
    Ok(())
}
