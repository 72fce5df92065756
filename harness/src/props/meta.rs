//! Properties decided by comparing instances of the crate with each other.
use super::stream;
use crate::gen::*;
use crate::model::{default_map, gated, lra, rate_stable, weight, Exp, Hist, Model};
use crate::rt::{Ctx, Prop};
use crate::session::*;
use crate::twin::*;
use ebur128::{Channel, EbuR128, Error, Mode};

type R = Result<(), String>;

fn err(what: &'static str) -> impl Fn(Error) -> String {
    move |e| format!("{what}: {e}")
}

pub fn mk(ch: u32, rate: u32, mode: Mode) -> Result<EbuR128, String> {
    EbuR128::new(ch, rate, mode).map_err(|e| format!("new({ch}, {rate}, {mode:?}): {e}"))
}

fn tmpl(ctx: &mut Ctx, low: f64) -> (u32, u32) {
    let rate = if ctx.r.chance(low) { low_rate(ctx) } else { stable_rate(ctx) };
    (fit(pick_channels(&mut ctx.r), rate), rate)
}

fn a_map(ctx: &mut Ctx, ch: u32) -> Vec<Channel> {
    if ctx.r.chance(0.5) {
        default_map(ch as usize)
    } else {
        (0..ch).map(|_| pick_channel_type(ctx, ch as usize)).collect()
    }
}

fn maxabs(x: &[Vec<f64>]) -> f64 {
    x.iter().flatten().filter(|v| v.is_finite()).fold(0.0f64, |a, b| a.max(b.abs()))
}

/// Some samples that are not numbers or infinite, for the formats that have such
fn spoil(ctx: &mut Ctx, x: &mut [Vec<f64>]) {
    let n = x[0].len() as u64;
    if n == 0 {
        return;
    }
    for _ in 0..ctx.r.range(1, 3) {
        let c = ctx.r.below(x.len() as u64) as usize;
        let i = if ctx.r.chance(0.3) { ctx.r.pick(&[0, n - 1]) } else { ctx.r.below(n) } as usize;
        x[c][i] = ctx.r.pick(&[f64::NAN, f64::NAN, f64::INFINITY, f64::NEG_INFINITY]);
    }
    ctx.log("with samples that are not finite".into());
    ctx.stats.inc("calls with samples that are not finite");
}

/// Something else happens to all of the instances alike
fn shake(ctx: &mut Ctx, insts: &mut [&mut EbuR128], m: &mut Model) -> R {
    match ctx.r.below(7) {
        0 => {
            ctx.log("all: reset()".into());
            for e in insts.iter_mut() {
                e.reset();
            }
            m.reset();
        }
        1 => {
            let w = if ctx.r.chance(0.15) && m.rate as u64 * m.channels as u64 <= 10_000 { ctx.r.logrange(6000, 100_000) } else { ctx.r.range(0, 6000) } as u32;
            ctx.log(format!("all: set_max_window({w})"));
            for e in insts.iter_mut() {
                e.set_max_window(w).map_err(err("set_max_window"))?;
            }
            m.set_max_window(w);
        }
        2 => {
            let w = if ctx.r.chance(0.1) { u32::MAX } else { ctx.r.logrange(0, 100_000) as u32 };
            ctx.log(format!("all: set_max_history({w})"));
            for e in insts.iter_mut() {
                e.set_max_history(w).map_err(err("set_max_history"))?;
            }
            m.set_max_history(w);
        }
        3 => {
            // the same number of channels, so that the workload stays as it is
            let rate = if m.rate < 2000 { low_rate(ctx) } else { (m.rate + ctx.r.range(0, 1000) as u32).min(2_822_400) };
            if !room(m, m.channels as u32, rate) {
                return Ok(());
            }
            ctx.log(format!("all: change_parameters({}, {rate})", m.channels));
            for e in insts.iter_mut() {
                e.change_parameters(m.channels as u32, rate).map_err(err("change_parameters"))?;
            }
            m.change_parameters(m.channels as u32, rate).unwrap();
        }
        4 => {
            let i = ctx.r.below(m.channels as u64) as usize;
            if m.map[i] == Channel::Unused {
                return Ok(());
            }
            let c = pick_channel_type(ctx, m.channels);
            ctx.log(format!("all: set_channel({i}, {c:?})"));
            for e in insts.iter_mut() {
                e.set_channel(i as u32, c).map_err(err("set_channel"))?;
            }
            m.set_channel(i as u32, c).unwrap();
        }
        5 => {
            let n = ctx.r.logrange(1, m.rate as u64 / 2) as usize;
            let x = Signal::new(&mut ctx.r, m.channels, m.rate).next(n);
            let raw = Raw::quantize(&x, ctx.r.pick(&FMTS));
            ctx.log(format!("all: seed {n} frames"));
            for e in insts.iter_mut() {
                raw.feed(e, false, true).map_err(err("seed_frames"))?;
            }
        }
        _ => {
            ctx.log("all: a call refused".into());
            for e in insts.iter_mut() {
                if e.set_channel(m.channels as u32, Channel::Left).is_ok() || e.change_parameters(0, m.rate).is_ok() {
                    return Err("an invalid call was accepted".into());
                }
            }
        }
    }
    ctx.stats.inc("changes made to all alike");
    Ok(())
}

// ------------------------------------------------------------------ C07

fn c07(ctx: &mut Ctx, rate: u32, ch: u32, mode: Mode, budget: u64) -> R {
    let budget = if ch <= 2 && ctx.r.chance(0.012) { 5 * budget } else { budget };
    let map = a_map(ctx, ch);
    let win = if ctx.r.chance(0.3) { ctx.r.range(0, 8000) as u32 } else { 0 };
    let fmt = ctx.r.pick(&FMTS);
    ctx.log(format!("new({ch}, {rate}, {mode:?}), map {map:?}, window {win}, {fmt:?}"));
    let mut a = mk(ch, rate, mode)?;
    let mut b = mk(ch, rate, mode)?;
    let mut m = Model::new(ch, rate, mode).unwrap();
    m.set_max_window(win);
    for e in [&mut a, &mut b] {
        e.set_channel_map(&map).map_err(err("set_channel_map"))?;
        e.set_max_window(win).map_err(err("set_max_window"))?;
    }
    let mut sig = Signal::new(&mut ctx.r, ch as usize, rate);
    m.set_channel_map(&map).unwrap();
    let segs = ctx.r.range(1, 4);
    let shaken = ctx.r.chance(0.35);
    let broken = matches!(fmt, Fmt::F32 | Fmt::F64) && ctx.r.chance(0.15);
    let stable = rate_stable(rate);
    let mut inmax = 0.0f64;
    for seg in 0..segs {
        if shaken && seg > 0 {
            for _ in 0..ctx.r.range(1, 3) {
                shake(ctx, &mut [&mut a, &mut b], &mut m)?;
            }
        }
        let rate = m.rate;
        let mask = if stable && rate_stable(rate) { ALL | NOPREV } else { SP | TP | META | NOPREV };
        let n = audio(ctx, rate, ch, budget / segs, 20_000.0f64.min(120.0 * 48000.0 / rate as f64).max(120.0));
        let mut x = sig.next(n);
        if broken && ctx.r.chance(0.6) {
            spoil(ctx, &mut x);
        }
        inmax = inmax.max(maxabs(&x));
        let raw = Raw::quantize(&x, fmt);
        let parts = partition(ctx, &mut m, n);
        let planar = ctx.r.chance(0.5);
        ctx.log(format!("{n} frames in one call (planar {planar}) and in {} calls {:?}", parts.len(), &parts[..parts.len().min(40)]));
        raw.feed(&mut b, planar, false).map_err(err("add_frames"))?;
        let mut peaks = vec![(0.0f64, 0.0f64); ch as usize];
        let mut at = 0;
        for k in parts {
            let p = raw.slice(at, at + k);
            at += k;
            let pl = if ctx.r.chance(0.8) { planar } else { !planar };
            p.feed(&mut a, pl, false).map_err(err("add_frames"))?;
            for c in 0..if k > 0 { ch } else { 0 } {
                if let Ok(v) = a.prev_sample_peak(c) {
                    peaks[c as usize].0 = peaks[c as usize].0.max(v);
                }
                if let Ok(v) = a.prev_true_peak(c) {
                    peaks[c as usize].1 = peaks[c as usize].1.max(v);
                }
            }
            ctx.stats.inc("calls with partial audio");
        }
        let t = Tol::tight(rate, inmax);
        same(ctx, &a, &b, mask, &t).map_err(|e| format!("many calls and one call disagree: {e}"))?;
        for c in 0..ch {
            if let Ok(v) = b.prev_sample_peak(c) {
                same_value("maximum of prev_sample_peak over the calls and in one call", Ok(peaks[c as usize].0), Ok(v), 0.0)?;
            }
            if let Ok(v) = b.prev_true_peak(c) {
                same_value("maximum of prev_true_peak over the calls and in one call", Ok(peaks[c as usize].1), Ok(v), t.tp)?;
            }
        }
    }
    ctx.nontrivial = true;
    Ok(())
}
fn c07_mixed(ctx: &mut Ctx) -> R {
    let (ch, rate) = tmpl(ctx, 0.3);
    let mode = pick_mode(&mut ctx.r, Mode::M, Mode::empty());
    let b = if mode.contains(Mode::TRUE_PEAK) { 400_000 } else { 1_200_000 };
    c07(ctx, rate, ch, mode, b)
}
fn c07_low(ctx: &mut Ctx) -> R {
    let rate = low_rate(ctx);
    let ch = pick_channels(&mut ctx.r).min(8);
    let mode = pick_mode(&mut ctx.r, Mode::LRA | Mode::I, Mode::empty());
    c07(ctx, rate, ch, mode, 500_000)
}
fn c07_peaks(ctx: &mut Ctx) -> R {
    let rate = any_rate(ctx);
    let ch = fit(pick_channels(&mut ctx.r), rate);
    let mode = pick_mode(&mut ctx.r, Mode::TRUE_PEAK, Mode::empty());
    c07(ctx, rate, ch, mode, 100_000)
}

// ------------------------------------------------------------------ C08

fn c08(ctx: &mut Ctx) -> R {
    let (ch, rate) = tmpl(ctx, 0.4);
    let mode = pick_mode(&mut ctx.r, Mode::M, Mode::empty());
    let map = a_map(ctx, ch);
    // what the samples are exactly representable in
    let fmts: &[Fmt] = match ctx.r.below(4) {
        0 | 1 => &FMTS,
        2 => &[Fmt::I32, Fmt::F64],
        _ => &[Fmt::F32, Fmt::F64],
    };
    ctx.log(format!("new({ch}, {rate}, {mode:?}), map {map:?}, {fmts:?}"));
    let mut insts = vec![];
    for f in fmts {
        for planar in [false, true] {
            let mut e = mk(ch, rate, mode)?;
            e.set_channel_map(&map).map_err(err("set_channel_map"))?;
            insts.push((*f, planar, e));
        }
    }
    // one more that changes all the time
    let mut e = mk(ch, rate, mode)?;
    e.set_channel_map(&map).map_err(err("set_channel_map"))?;
    insts.push((Fmt::F64, false, e));
    let last = insts.len() - 1;
    let mut m = Model::new(ch, rate, mode).unwrap();
    m.set_channel_map(&map).unwrap();
    let mut sig = Signal::new(&mut ctx.r, ch as usize, rate);
    let mut budget: i64 = if mode.contains(Mode::TRUE_PEAK) { 60_000 } else { 200_000 };
    if ctx.r.chance(0.04) {
        budget *= if rate < 300 { 2 } else { 8 };
    }
    let shaken = if ctx.r.chance(0.3) { 0.1 } else { 0.0 };
    let broken = if fmts.len() == 2 && fmts[0] == Fmt::F32 && ctx.r.chance(0.3) { 0.1 } else { 0.0 };
    let mut inmax = 0.0f64;
    let mut calls = 0;
    // now and then very many small calls
    let many = ctx.r.chance(0.02);
    while budget > 0 {
        if ctx.r.chance(if many { shaken * 0.02 } else { shaken }) {
            let mut v: Vec<&mut EbuR128> = insts.iter_mut().map(|(_, _, e)| e).collect();
            shake(ctx, &mut v, &mut m)?;
        }
        let rate = m.rate;
        let stable = rate_stable(rate);
        let seed = ctx.r.chance(0.1);
        let most = (budget as u64 / ch as u64).max(1);
        let n = if many { ctx.r.logrange(0, most.min(m.s100 as u64 / 4 + 1)) } else { pick_frames(&mut ctx.r, ctx.dict, &m, most) } as usize;
        budget -= (n as i64 + 10) * ch as i64;
        let mut x = sig.next(n);
        if ctx.r.chance(0.2) && n > 0 {
            // both ends of the integer range
            let (c, i) = (ctx.r.below(ch as u64) as usize, ctx.r.below(n as u64) as usize);
            x[c][i] = if ctx.r.chance(0.5) { -1.1 } else { 1.1 };
        }
        if ctx.r.chance(broken) {
            spoil(ctx, &mut x);
        }
        // quantize to the first format
        let base = Raw::quantize(&x, fmts[0]);
        let ex = base.exact();
        inmax = inmax.max(maxabs(&ex));
        ctx.log(format!("{} {n} frames", if seed { "seed" } else { "add" }));
        for (k, (f, planar, e)) in insts.iter_mut().enumerate() {
            if k == last {
                *f = ctx.r.pick(fmts);
                *planar = ctx.r.chance(0.5);
            }
            // exact conversion
            let raw = match f {
                Fmt::I16 => base.clone(),
                Fmt::I32 => Raw::I32(ex.iter().map(|c| c.iter().map(|v| (v * 2147483648.0) as i32).collect()).collect()),
                Fmt::F32 => Raw::F32(ex.iter().map(|c| c.iter().map(|v| *v as f32).collect()).collect()),
                Fmt::F64 => Raw::F64(ex.clone()),
            };
            raw.feed(e, *planar, seed).map_err(|e| format!("{f:?} planar {planar}: {e}"))?;
        }
        if !seed {
            m.skip(n as u64);
        }
        let t = Tol::tight(rate, inmax);
        // (not ever again where there are very many calls)
        calls += 1;
        if ctx.r.chance(0.3f64.min(if many { 5.0 } else { 60.0 } / calls as f64)) || budget <= 0 {
            let mask = if stable { ALL } else { SP | TP | META };
            let (a, b) = insts.split_at(1);
            for (f, planar, e) in b {
                same(ctx, &a[0].2, e, mask, &t)
                    .map_err(|e| format!("{:?} planar {} and {f:?} planar {planar} disagree: {e}", a[0].0, a[0].1))?;
            }
        }
    }
    ctx.nontrivial = true;
    Ok(())
}

// ------------------------------------------------------------------ C09

fn energy_of(l: f64) -> f64 {
    if l == f64::NEG_INFINITY {
        0.0
    } else {
        crate::model::undb(l)
    }
}

/// Weighted sum over the channels, each measured alone.
fn c09_sum(ctx: &mut Ctx) -> R {
    let (ch, rate) = tmpl(ctx, 0.4);
    let mode = Mode::S | Mode::I | Mode::TRUE_PEAK;
    let mode = if ctx.r.chance(0.5) { mode } else { mode - Mode::TRUE_PEAK | Mode::S };
    let map = a_map(ctx, ch);
    let defaults = map == default_map(ch as usize) && ctx.r.chance(0.7);
    ctx.log(format!("new({ch}, {rate}, {mode:?}), map {map:?}, set explicitly: {}", !defaults));
    let mut e = mk(ch, rate, mode)?;
    if !defaults {
        if ctx.r.chance(0.5) {
            e.set_channel_map(&map).map_err(err("set_channel_map"))?;
        } else {
            for (i, c) in map.iter().enumerate() {
                e.set_channel(i as u32, *c).map_err(err("set_channel"))?;
            }
        }
    }
    if e.channel_map() != map {
        return Err(format!("channel map {:?} instead of {map:?}", e.channel_map()));
    }
    let mut monos = vec![];
    for _ in 0..ch {
        monos.push(mk(1, rate, mode)?);
    }
    // a permutation of the channels
    let mut perm: Vec<usize> = (0..ch as usize).collect();
    for i in (1..perm.len()).rev() {
        perm.swap(i, ctx.r.below(i as u64 + 1) as usize);
    }
    let mut p = mk(ch, rate, mode)?;
    let pmap: Vec<Channel> = perm.iter().map(|i| map[*i]).collect();
    p.set_channel_map(&pmap).map_err(err("set_channel_map"))?;

    let mut sig = Signal::new(&mut ctx.r, ch as usize, rate);
    let mut m = Model::new(ch, rate, mode).unwrap();
    let mut budget: i64 = if mode.contains(Mode::TRUE_PEAK) { 80_000 } else { 250_000 };
    let mut inmax = 0.0f64;
    let solo = ctx.r.chance(0.4).then(|| ctx.r.below(ch as u64) as usize);
    while budget > 0 {
        let n = pick_frames(&mut ctx.r, ctx.dict, &m, (budget as u64 / ch as u64).max(1)) as usize;
        budget -= (n as i64 + 10) * ch as i64;
        let mut x = sig.next(n);
        if let Some(s) = solo {
            for (i, c) in x.iter_mut().enumerate() {
                if i != s {
                    c.fill(0.0);
                }
            }
        }
        inmax = inmax.max(maxabs(&x));
        let raw = Raw::F64(x.clone());
        raw.feed(&mut e, ctx.r.chance(0.5), false).map_err(err("add_frames"))?;
        Raw::F64(perm.iter().map(|i| x[*i].clone()).collect()).feed(&mut p, ctx.r.chance(0.5), false).map_err(err("add_frames"))?;
        for (i, k) in monos.iter_mut().enumerate() {
            k.add_frames_f64(&x[i]).map_err(err("add_frames"))?;
        }
        m.skip(n as u64);
        ctx.log(format!("add {n} frames"));
        if !ctx.r.chance(0.4) && budget > 0 {
            continue;
        }
        let mut t = Tol::tight(rate, inmax * (ch as f64));
        t.abs *= 4.0;
        let w = ctx.r.range(1, 3000) as u32;
        for (what, f) in [
            ("loudness_momentary", (|e: &EbuR128, _| e.loudness_momentary()) as fn(&EbuR128, u32) -> Result<f64, Error>),
            ("loudness_shortterm", |e, _| e.loudness_shortterm()),
            ("loudness_window", |e, w| e.loudness_window(w)),
        ] {
            let mut sum = 0.0;
            for (i, k) in monos.iter().enumerate() {
                let v = f(k, w).map_err(err("mono"))?;
                if map[i] != Channel::Unused {
                    sum += weight(map[i]) * energy_of(v);
                }
            }
            let want = if sum > 0.0 { crate::model::db(sum) } else { f64::NEG_INFINITY };
            let got = f(&e, w);
            if got.is_ok_and(|v| v.is_nan()) {
                ctx.stats.inc("empty windows");
                continue;
            }
            same_loudness(&format!("{what}({w}) of {map:?}, measured and summed over the channels"), got, Ok(want), &t)?;
            if sum > 0.0 {
                ctx.stats.inc("weighted sums compared");
                if solo.is_some() {
                    ctx.stats.inc(&format!("weight of {:?} alone", map[solo.unwrap()]));
                }
            }
        }
        // permuted channels
        same_loudness("momentary of permuted channels", e.loudness_momentary(), p.loudness_momentary(), &t)?;
        same_loudness("short-term of permuted channels", e.loudness_shortterm(), p.loudness_shortterm(), &t)?;
        let gt = Tol { rel: 1e-9, abs: 0.0, tp: 0.0 };
        same_loudness("integrated loudness of permuted channels", e.loudness_global(), p.loudness_global(), &gt)?;
        for c in 0..ch as usize {
            let (a, b) = (e.sample_peak(perm[c] as u32), p.sample_peak(c as u32));
            same_value("sample peak of permuted channels", a, b, 0.0)?;
            same_value("sample peak of the channel alone", e.sample_peak(c as u32), monos[c].sample_peak(0), 0.0)?;
            same_value("true peak of permuted channels", e.true_peak(perm[c] as u32), p.true_peak(c as u32), t.tp)?;
            same_value("true peak of the channel alone", e.true_peak(c as u32), monos[c].true_peak(0), t.tp)?;
            same_value("prev_true_peak of the channel alone", e.prev_true_peak(c as u32), monos[c].prev_true_peak(0), t.tp)?;
        }
    }
    ctx.nontrivial = true;
    Ok(())
}

/// Which maps are accepted, and what is left after one was refused
fn c09_map(ctx: &mut Ctx) -> R {
    let ch = if ctx.r.chance(0.5) { pick_channels(&mut ctx.r) } else { ctx.r.range(1, 64) as u32 };
    let rate = 1200;
    let mut e = mk(ch, rate, Mode::I)?;
    let mut map = default_map(ch as usize);
    ctx.log(format!("{ch} channels"));
    for _ in 0..12 {
        if e.channel_map() != map {
            return Err(format!("{ch} channels: map {:?} instead of {map:?}", e.channel_map()));
        }
        if ctx.r.chance(0.5) {
            let n = if ctx.r.chance(0.8) { ch as usize } else { ctx.r.range(0, 66) as usize };
            let mut v: Vec<Channel> = (0..n).map(|_| pick_channel_type(ctx, ch as usize)).collect();
            if ctx.r.chance(0.4) && n > 0 {
                let k = if ctx.r.chance(0.5) { n - 1 } else { ctx.r.below(n as u64) as usize };
                v[k] = Channel::DualMono;
            }
            let ok = n == ch as usize && (ch == 1 || !v.contains(&Channel::DualMono));
            ctx.log(format!("set_channel_map({v:?})"));
            let r = e.set_channel_map(&v);
            if r != if ok { Ok(()) } else { Err(Error::InvalidChannelIndex) } {
                return Err(format!("set_channel_map({v:?}) with {ch} channels: {r:?}"));
            }
            if ok {
                map = v;
            }
        } else {
            let i = if ctx.r.chance(0.8) { ctx.r.below(ch as u64) as u32 } else { ctx.r.pick(&[ch, ch + 1, 64, u32::MAX]) };
            let c = ctx.r.pick(&ALL_CHANNELS);
            let ok = i < ch && (c != Channel::DualMono || ch == 1);
            ctx.log(format!("set_channel({i}, {c:?})"));
            let r = e.set_channel(i, c);
            if r != if ok { Ok(()) } else { Err(Error::InvalidChannelIndex) } {
                return Err(format!("set_channel({i}, {c:?}) with {ch} channels: {r:?}"));
            }
            if ok {
                map[i as usize] = c;
            }
        }
        ctx.stats.inc("maps set or refused");
        if ctx.r.chance(0.15) {
            let n = if ctx.r.chance(0.5) { ch } else { pick_channels(&mut ctx.r) };
            if n == ch {
                let r2 = ctx.r.range(700, 800) as u32;
                e.change_parameters(ch, r2).map_err(err("change_parameters"))?;
            }
            if ctx.r.chance(0.5) {
                e.reset();
            }
        }
    }
    ctx.nontrivial = true;
    Ok(())
}

fn c09_lock(ctx: &mut Ctx) -> R {
    let o = Opts {
        mask: G | W | META,
        budget: 400_000,
        w: [20.0, 8.0, 4.0, 2.0, 0.5, 0.2, 2.0, 0.5, 2.0, 0.0],
        ..Default::default()
    };
    session(ctx, &o)
}

// ------------------------------------------------------------------ C10

/// Seeding with everything before a chunk is as good as having been there.
fn c10_exact(ctx: &mut Ctx) -> R {
    let (ch, rate) = tmpl(ctx, 0.5);
    let mode = pick_mode(&mut ctx.r, Mode::I | Mode::S, Mode::empty());
    let map = a_map(ctx, ch);
    let mut sig = Signal::new(&mut ctx.r, ch as usize, rate);
    let m = Model::new(ch, rate, mode).unwrap();
    let fmt = ctx.r.pick(&FMTS);
    let budget = if mode.contains(Mode::TRUE_PEAK) { 200_000 } else { 500_000 };
    let n = audio(ctx, rate, ch, budget, 60.0).max(10 * m.s100).min(2_000_000 / ch as usize);
    // where the second instance takes over
    let cut = pick_frames(&mut ctx.r, ctx.dict, &m, n as u64) as usize;
    ctx.log(format!("new({ch}, {rate}, {mode:?}), map {map:?}, {fmt:?}, {n} frames, {cut} of them as seed"));
    let mut x = sig.next(n);
    if matches!(fmt, Fmt::F32 | Fmt::F64) && ctx.r.chance(0.15) {
        spoil(ctx, &mut x);
    }
    let t = Tol::tight(rate, maxabs(&x));
    let raw = Raw::quantize(&x, fmt);
    let mut seeded = mk(ch, rate, mode)?;
    seeded.set_channel_map(&map).map_err(err("set_channel_map"))?;
    if ctx.r.chance(0.25) {
        // not the first thing that instance does
        for _ in 0..ctx.r.range(1, 3) {
            let k = ctx.r.range(0, n as u64) as usize;
            ctx.log(format!("the seeded one first measures {k} frames and is reset"));
            raw.slice(0, k).feed(&mut seeded, ctx.r.chance(0.5), ctx.r.chance(0.3)).map_err(err("frames"))?;
            seeded.reset();
        }
    }
    let before = snap(&seeded, &[400]);
    // seed in some calls
    let mut at = 0;
    while at < cut {
        let k = if ctx.r.chance(0.5) { cut - at } else { ctx.r.range(1, (cut - at) as u64) as usize };
        raw.slice(at, at + k).feed(&mut seeded, ctx.r.chance(0.5), true).map_err(err("seed_frames"))?;
        at += k;
    }
    if let Some(d) = before.diff(&snap(&seeded, &[400])) {
        return Err(format!("seeding changed {d}"));
    }
    // a reference that gets everything, with its measurements discarded by moving its window:
    // after set_max_window only the filter has a past
    let mut whole = mk(ch, rate, mode)?;
    whole.set_channel_map(&map).map_err(err("set_channel_map"))?;
    raw.slice(0, cut).feed(&mut whole, ctx.r.chance(0.5), false).map_err(err("add_frames"))?;
    let w = whole.max_window() as u32 + 1000;
    let prior = whole.gating_block_count_and_energy();
    whole.set_max_window(w).map_err(err("set_max_window"))?;
    seeded.set_max_window(w).map_err(err("set_max_window"))?;
    let rest = raw.slice(cut, n);
    let planar = ctx.r.chance(0.5);
    rest.feed(&mut whole, planar, false).map_err(err("add_frames"))?;
    rest.feed(&mut seeded, planar, false).map_err(err("add_frames"))?;
    same(ctx, &whole, &seeded, W, &t).map_err(|e| format!("with the past seen and with it seeded: {e}"))?;
    for c in 0..if cut < n { ch } else { 0 } {
        same_value("prev_true_peak with the past seen and with it seeded", whole.prev_true_peak(c), seeded.prev_true_peak(c), t.tp)?;
        same_value("prev_sample_peak with the past seen and with it seeded", whole.prev_sample_peak(c), seeded.prev_sample_peak(c), 0.0)?;
    }
    if prior.is_none() && whole.gating_block_count_and_energy().is_some() {
        same(ctx, &whole, &seeded, G, &t).map_err(|e| format!("with the past seen and with it seeded: {e}"))?;
    }
    ctx.stats.inc("seeded takeovers compared");
    ctx.nontrivial = true;
    Ok(())
}

/// The documented recipe for parallel analysis
fn c10_recipe(ctx: &mut Ctx) -> R {
    let rate = if ctx.r.chance(0.6) { low_rate(ctx).max(1140) } else { ctx.r.pick(&[8000, 16000, 22050, 44100, 48000, 96000]) };
    let rate = if rate_stable(rate) { rate } else { 1200 };
    let ch = pick_channels(&mut ctx.r).min(6);
    let hist = if ctx.r.chance(0.3) { Mode::HISTOGRAM } else { Mode::empty() };
    let mode = Mode::I | hist;
    let s100 = (rate as usize + 5) / 10;
    // steady material: the recipe's 100 ms of warm-up leave a tiny remainder of what was before
    let level = ctx.r.frange(0.02, 0.7);
    let blocks = ctx.r.range(30, if rate > 20000 { 120 } else { 600 }) as usize;
    let n = blocks * s100 + ctx.r.below(s100 as u64) as usize;
    let mut sg = Rng64(ctx.r.u64());
    let mut lv = level;
    let x: Vec<Vec<f64>> = {
        let mut x = vec![Vec::with_capacity(n); ch as usize];
        for i in 0..n {
            if i % (7 * s100) == 0 {
                lv = level * (0.25 + 0.75 * sg.f());
            }
            for c in &mut x {
                c.push((sg.f() * 2.0 - 1.0) * lv);
            }
        }
        x
    };
    let raw = Raw::quantize(&x, ctx.r.pick(&FMTS));
    let mut whole = mk(ch, rate, mode)?;
    raw.feed(&mut whole, ctx.r.chance(0.5), false).map_err(err("add_frames"))?;
    // chunks start at multiples of 100 ms
    let mut cuts = vec![0usize];
    let mut at = 0;
    loop {
        at += ctx.r.range(5, (blocks as u64 / 2).max(6)) as usize;
        if at + 5 >= blocks {
            break;
        }
        cuts.push(at);
    }
    ctx.log(format!("{n} frames of {ch} channels at {rate}, {mode:?}, cut at {cuts:?} * 100 ms"));
    let jobs: Vec<(usize, usize)> = cuts
        .iter()
        .enumerate()
        .map(|(i, c)| (*c, cuts.get(i + 1).map(|v| v * s100).unwrap_or(n)))
        .collect();
    let planar = ctx.r.chance(0.5);
    let run = |(start, end): (usize, usize)| -> Result<EbuR128, String> {
        let mut e = mk(ch, rate, mode)?;
        if start == 0 {
            raw.slice(0, end).feed(&mut e, planar, false).map_err(err("add_frames"))?;
        } else {
            let s = start * s100 - 4 * s100;
            raw.slice(s, s + s100).feed(&mut e, planar, true).map_err(err("seed_frames"))?;
            raw.slice(s + s100, end).feed(&mut e, planar, false).map_err(err("add_frames"))?;
        }
        Ok(e)
    };
    // really in parallel
    let parts: Vec<Result<EbuR128, String>> = std::thread::scope(|sc| {
        let hs: Vec<_> = jobs.iter().map(|j| sc.spawn(|| run(*j))).collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("panic in a parallel chunk".into()))).collect()
    });
    let parts: Vec<EbuR128> = parts.into_iter().collect::<Result<_, _>>()?;
    let a = whole.loudness_global().map_err(err("loudness_global"))?;
    let b = EbuR128::loudness_global_multiple(parts.iter()).map_err(err("loudness_global_multiple"))?;
    let tol = if hist.is_empty() { 1e-3 } else { 0.11 };
    if !((a - b).abs() < tol) {
        return Err(format!("sequential {a} LUFS, in {} parallel chunks {b} LUFS", parts.len()));
    }
    ctx.stats.max("difference of the parallel recipe (LU, queue)", if hist.is_empty() { (a - b).abs() } else { 0.0 });
    ctx.stats.inc("parallel analyses compared");
    ctx.nontrivial = true;
    Ok(())
}

struct Rng64(u64);
impl Rng64 {
    fn f(&mut self) -> f64 {
        (crate::rng::splitmix(&mut self.0) >> 11) as f64 / (1u64 << 53) as f64
    }
}

fn c10_lock(ctx: &mut Ctx) -> R {
    let o = Opts {
        mask: ALL,
        budget: 400_000,
        w: [15.0, 0.5, 0.3, 0.5, 0.3, 0.2, 1.0, 10.0, 0.5, 0.0],
        cmp: 0.8,
        ..Default::default()
    };
    session(ctx, &o)
}

// ------------------------------------------------------------------ C11

fn c11(ctx: &mut Ctx) -> R {
    let k = match ctx.r.weighted(&[1.0, 1.0, 2.0, 0.25]) {
        0 => ctx.r.range(0, 3),
        1 => ctx.r.range(14, 20),
        3 => ctx.r.range(28, 140),
        _ => ctx.r.range(2, 9),
    };
    ctx.stats.max("instances in a pool", k as f64);
    let histp = ctx.r.pick(&[0.0, 0.0, 1.0, 0.3]);
    let nolra = ctx.r.chance(0.2);
    let noi = ctx.r.chance(0.1);
    let mut es = vec![];
    let mut ms = vec![];
    for _ in 0..k {
        let mut must = Mode::M;
        let mut never = Mode::TRUE_PEAK | Mode::SAMPLE_PEAK;
        if !noi || ctx.r.chance(0.9) {
            must |= Mode::I;
        } else {
            never |= Mode::I - Mode::M;
        }
        if !nolra || ctx.r.chance(0.8) {
            must |= Mode::LRA;
        } else {
            never |= Mode::LRA - Mode::S;
        }
        if ctx.r.chance(histp) {
            must |= Mode::HISTOGRAM;
        } else {
            never |= Mode::HISTOGRAM;
        }
        let o = Opts {
            must,
            never,
            mask: 0,
            budget: if ctx.r.chance(0.1) { 0 } else { ctx.r.range(20_000, 200_000) / (1 + k / 20) },
            rate: if ctx.r.chance(0.9) { low_rate } else { stable_rate },
            channels: few_channels,
            w: [30.0, 0.5, 0.3, 0.3, 0.3, 0.3, 0.2, 0.5, 0.0, 0.0],
            max_ops: 25,
            cmp: 0.0,
            ..Default::default()
        };
        let rate = (o.rate)(ctx);
        let ch = fit((o.channels)(ctx), rate);
        let mode = must;
        ctx.log(format!("instance: new({ch}, {rate}, {mode:?})"));
        let mut e = mk(ch, rate, mode)?;
        let mut m = Model::new(ch, rate, mode).unwrap();
        run_ops(ctx, &o, &mut e, &mut m)?;
        es.push(e);
        ms.push(m);
    }
    // some order, sometimes with repetitions
    for round in 0..4 {
        let mut order: Vec<usize> = (0..es.len()).collect();
        if round > 0 {
            for i in (1..order.len()).rev() {
                order.swap(i, ctx.r.below(i as u64 + 1) as usize);
            }
            if round > 1 {
                let keep = ctx.r.below(order.len() as u64 + 1) as usize;
                order.truncate(keep);
            }
            if round == 3 && !order.is_empty() {
                let again = order[0];
                let at = ctx.r.pick(&[1, order.len(), ctx.r.clone().range(0, order.len() as u64) as usize]);
                order.insert(at, again);
            }
        }
        let sel: Vec<&EbuR128> = order.iter().map(|i| &es[*i]).collect();
        let mm: Vec<&Model> = order.iter().map(|i| &ms[*i]).collect();
        let mut tol = crate::model::HistTol { rel: 1e-9, noise: 0.0 };
        for m in &mm {
            tol = tol.max(m.hist_tol());
        }
        let got = EbuR128::loudness_global_multiple(sel.iter().copied());
        let hs: Vec<&Hist> = mm.iter().map(|m| &m.blocks).collect();
        let x = if mm.iter().any(|m| !m.mode.contains(Mode::I)) {
            Exp::Err(Error::InvalidMode)
        } else if mm.iter().any(|m| m.amb) {
            Exp::Any("ambiguous block")
        } else {
            match gated(&hs, tol) {
                Err(w) => Exp::Any(w),
                Ok(None) => Exp::Energy(0.0),
                Ok(Some((n, s))) => Exp::Energy(s / n as f64),
            }
        };
        ctx.log(format!("multiple of {order:?}"));
        check_energy(ctx, "loudness_global_multiple", got, &x, tol.rel, tol.noise)?;
        if matches!(x, Exp::Energy(e) if e > 0.0) && sel.len() > 1 {
            ctx.stats.inc("pooled integrated loudness compared");
            let kinds = hs.iter().filter(|h| matches!(h, Hist::Bins(_))).count();
            if kinds > 0 && kinds < hs.len() {
                ctx.stats.inc("... of histograms and queues together");
            }
        }
        let got = EbuR128::loudness_range_multiple(sel.iter().copied());
        let hs: Vec<&Hist> = mm.iter().map(|m| &m.st_blocks).collect();
        let x = if mm.iter().any(|m| !m.mode.contains(Mode::LRA)) {
            Exp::Err(Error::InvalidMode)
        } else if mm.iter().any(|m| m.st_amb) {
            Exp::Any("ambiguous block")
        } else {
            lra(&hs, tol)
        };
        check_energy(ctx, "loudness_range_multiple", got, &x, tol.rel, tol.noise)?;
        if matches!(x, Exp::Lu(e, _) if e > 0.0) && sel.len() > 1 {
            ctx.stats.inc("pooled loudness range compared");
        }
        if let [one] = sel[..] {
            let t = Tol { rel: 1e-12, abs: 0.0, tp: 0.0 };
            same_loudness("multiple of one instance", EbuR128::loudness_global_multiple(std::iter::once(one)), one.loudness_global(), &t)?;
            same_value("range_multiple of one instance", EbuR128::loudness_range_multiple([one]), one.loudness_range(), 1e-9)?;
        }
    }
    // album: count and energy of the tracks (ReplayGain 2)
    for (e, m) in es.iter().zip(&ms) {
        if let (Ok(Some((n, s))), Some((ln, ls))) = (m.gating_count(), e.gating_block_count_and_energy()) {
            let tol = m.hist_tol();
            if n != ln || !((ls / s - 1.0).abs() <= tol.energy(s / n as f64)) {
                return Err(format!("gating_block_count_and_energy: {:?}, reference {:?}", (ln, ls), (n, s)));
            }
            ctx.stats.inc("album shares compared");
        }
    }
    ctx.nontrivial = k > 1;
    Ok(())
}

// ------------------------------------------------------------------ C12

/// The same operations on all instances, compared after every one
fn drive(ctx: &mut Ctx, insts: &mut [EbuR128], m: &mut Model, budget: u64, mask: u32, inmax0: f64) -> R {
    let mut sig = Signal::new(&mut ctx.r, m.channels, m.rate);
    let mut left = budget as i64;
    let mut inmax = inmax0;
    let mut ops = 0;
    while left > 0 && ops < 60 {
        ops += 1;
        match ctx.r.weighted(&[12.0, 1.0, 0.6, 0.6, 0.6, 0.5, 0.4]) {
            0 | 1 => {
                let n = pick_frames(&mut ctx.r, ctx.dict, m, (left as u64 / m.channels as u64).max(1)) as usize;
                left -= ((n + 20) * m.channels) as i64;
                let x = sig.next(n);
                inmax = inmax.max(maxabs(&x));
                let raw = Raw::quantize(&x, ctx.r.pick(&FMTS));
                let planar = ctx.r.chance(0.5);
                let seed = ctx.r.chance(0.1);
                ctx.log(format!("all: {} {n} frames", if seed { "seed" } else { "add" }));
                for e in insts.iter_mut() {
                    raw.feed(e, planar, seed).map_err(err("frames"))?;
                }
                if !seed {
                    m.skip(n as u64);
                }
            }
            2 => {
                let ch = if ctx.r.chance(0.5) { m.channels as u32 } else { pick_channels(&mut ctx.r) };
                let rate = if ctx.r.chance(0.4) { m.rate } else { stable_rate(ctx) };
                let ch = fit(ch, rate);
                if !room(&m, ch, rate) {
                    continue;
                }
                ctx.log(format!("all: change_parameters({ch}, {rate})"));
                for e in insts.iter_mut() {
                    e.change_parameters(ch, rate).map_err(err("change_parameters"))?;
                }
                m.change_parameters(ch, rate).unwrap();
                sig = Signal::new(&mut ctx.r, m.channels, m.rate);
            }
            3 => {
                let w = ctx.r.range(0, 5000) as u32;
                ctx.log(format!("all: set_max_window({w})"));
                for e in insts.iter_mut() {
                    e.set_max_window(w).map_err(err("set_max_window"))?;
                }
                m.set_max_window(w);
            }
            4 => {
                let w = ctx.r.logrange(0, 100_000) as u32;
                ctx.log(format!("all: set_max_history({w})"));
                for e in insts.iter_mut() {
                    e.set_max_history(w).map_err(err("set_max_history"))?;
                }
            }
            6 => {
                ctx.log("all: reset()".into());
                for e in insts.iter_mut() {
                    e.reset();
                }
                m.reset();
            }
            _ => {
                // a used channel to another type
                let i = ctx.r.below(m.channels as u64) as u32;
                if insts[0].channel_map()[i as usize] == Channel::Unused {
                    continue;
                }
                let c = pick_channel_type(ctx, m.channels);
                ctx.log(format!("all: set_channel({i}, {c:?})"));
                for e in insts.iter_mut() {
                    e.set_channel(i, c).map_err(err("set_channel"))?;
                }
            }
        }
        let t = Tol::tight(m.rate, inmax);
        let (a, b) = insts.split_at(1);
        for e in b {
            same(ctx, &a[0], e, mask, &t)?;
        }
    }
    Ok(())
}

fn c12(ctx: &mut Ctx, low: bool, hostile: f64) -> R {
    let must = if low { Mode::I | Mode::LRA } else { Mode::M };
    let never = if low { Mode::TRUE_PEAK } else { Mode::empty() };
    let o = Opts {
        must,
        never,
        mask: 0,
        budget: if low { 300_000 } else { 200_000 },
        rate: if low { low_rate } else { stable_rate },
        w: [20.0, 1.0, 1.0, 1.0, 1.0, 1.0, 0.3, 1.0, 0.5, 0.2],
        max_ops: 40,
        cmp: 0.0,
        hostile,
        ..Default::default()
    };
    let rate = (o.rate)(ctx);
    let ch = fit(pick_channels(&mut ctx.r), rate);
    let mode = pick_mode(&mut ctx.r, o.must, o.never);
    ctx.log(format!("new({ch}, {rate}, {mode:?})"));
    let mut a = mk(ch, rate, mode)?;
    let mut m = Model::new(ch, rate, mode).unwrap();
    let o = style(ctx, &o, mode, ch, rate);
    run_ops(ctx, &o, &mut a, &mut m)?;
    ctx.log("reset()".into());
    a.reset();
    m.reset();
    let mut b = mk(m.channels as u32, m.rate, mode)?;
    b.set_channel_map(&m.map).map_err(err("set_channel_map"))?;
    b.set_max_window(m.window as u32).map_err(err("set_max_window"))?;
    if m.history != usize::MAX {
        b.set_max_history(m.history as u32).map_err(err("set_max_history"))?;
    }
    let t = Tol::tight(m.rate, 1.0);
    same(ctx, &a, &b, ALL, &t).map_err(|e| format!("right after reset and new: {e}"))?;
    ctx.stats.inc("resets compared with new instances");
    let mut v = [a, b];
    drive(ctx, &mut v, &mut m, if low { 400_000 } else { 250_000 }, ALL, 1.0).map_err(|e| format!("after reset and new: {e}"))?;
    ctx.nontrivial = true;
    Ok(())
}
/// Track after track through one instance, asked at the end of each (and sometimes before), and each
/// through an instance of its own.
fn c12_tracks(ctx: &mut Ctx) -> R {
    let (ch, rate) = tmpl(ctx, 0.7);
    let mode = pick_mode(&mut ctx.r, Mode::M, Mode::empty());
    let map = a_map(ctx, ch);
    let hist = ctx.r.chance(0.3).then(|| ctx.r.range(400, 20_000) as u32);
    let win = ctx.r.chance(0.3).then(|| ctx.r.range(400, 5000) as u32);
    ctx.log(format!("new({ch}, {rate}, {mode:?}), map {map:?}, history {hist:?}, window {win:?}"));
    let fresh = || -> Result<EbuR128, String> {
        let mut e = mk(ch, rate, mode)?;
        e.set_channel_map(&map).map_err(err("set_channel_map"))?;
        if let Some(h) = hist {
            e.set_max_history(h).map_err(err("set_max_history"))?;
        }
        if let Some(w) = win {
            e.set_max_window(w).map_err(err("set_max_window"))?;
        }
        Ok(e)
    };
    let mut one = fresh()?;
    let cap = (300_000 / (ch as usize * if mode.contains(Mode::TRUE_PEAK) { 3 } else { 1 })).max(8);
    // few lengths, so that tracks have as many blocks as others had
    let step = (rate as usize + 5) / 10;
    let lens: Vec<usize> = (0..ctx.r.range(1, 3))
        .map(|_| match ctx.r.below(3) {
            0 => step * 10 * ctx.r.range(1, 20) as usize,
            1 => step * ctx.r.range(0, 60) as usize + ctx.r.below(step as u64) as usize,
            _ => ctx.r.logrange(1, cap as u64) as usize,
        })
        .map(|n| n.min(cap))
        .collect();
    let mut sig = Signal::new(&mut ctx.r, ch as usize, rate);
    let mut left = cap as i64;
    let mut k = 0;
    while left > 0 && k < 12 {
        k += 1;
        let n = ctx.r.pick(&lens);
        left -= n as i64 + cap as i64 / 50;
        let mut x = sig.next(n);
        // parts at different levels
        let parts = ctx.r.range(1, 4) as usize;
        let gains: Vec<f64> = (0..parts).map(|_| 10f64.powf(ctx.r.frange(-2.0, 0.0))).collect();
        for c in &mut x {
            for (i, v) in c.iter_mut().enumerate() {
                *v *= gains[i * parts / n.max(1)];
            }
        }
        let inmax = maxabs(&x);
        let raw = Raw::quantize(&x, ctx.r.pick(&FMTS));
        let planar = ctx.r.chance(0.5);
        let mut own = fresh()?;
        ctx.log(format!("track of {n} frames"));
        if ctx.r.chance(0.3) {
            raw.feed(&mut one, planar, true).map_err(err("seed_frames"))?;
            raw.feed(&mut own, planar, true).map_err(err("seed_frames"))?;
        }
        raw.feed(&mut one, planar, false).map_err(err("add_frames"))?;
        raw.feed(&mut own, planar, false).map_err(err("add_frames"))?;
        if ctx.r.chance(0.85) {
            let t = Tol::tight(rate, inmax);
            same(ctx, &own, &one, ALL, &t).map_err(|e| format!("track {k} on a new instance and on one that was reset: {e}"))?;
            ctx.stats.inc("tracks compared");
        }
        one.reset();
    }
    ctx.nontrivial = true;
    Ok(())
}
fn c12_mixed(ctx: &mut Ctx) -> R {
    c12(ctx, false, 0.0)
}
fn c12_low(ctx: &mut Ctx) -> R {
    c12(ctx, true, 0.0)
}
fn c12_hostile(ctx: &mut Ctx) -> R {
    let l = ctx.r.chance(0.5);
    c12(ctx, l, 0.3)
}

// ------------------------------------------------------------------ C13

fn c13(ctx: &mut Ctx) -> R {
    let mode = pick_mode(&mut ctx.r, Mode::I | Mode::LRA, Mode::empty());
    let peaks = mode.contains(Mode::SAMPLE_PEAK);
    let tpm = mode.contains(Mode::TRUE_PEAK);
    // now and then few channels and stretches of (up to) hours
    let hours = ctx.r.chance(0.05);
    let fast = hours || ctx.r.chance(0.7);
    let pick = |ctx: &mut Ctx| if fast { low_rate(ctx) } else if ctx.r.chance(0.4) { other_rate(ctx) } else { stable_rate(ctx) };
    let pick_ch = |ctx: &mut Ctx| if hours { few_channels(ctx) } else { any_channels(ctx) };
    let mut rate = pick(ctx);
    let mut ch = fit(pick_ch(ctx), rate);
    let mut a = mk(ch, rate, mode)?;
    let mut map = a_map(ctx, ch);
    a.set_channel_map(&map).map_err(err("set_channel_map"))?;
    ctx.log(format!("new({ch}, {rate}, {mode:?}), map {map:?}"));
    // instances that measured one stretch each
    let mut stretches: Vec<EbuR128> = vec![];
    let mut cur = mk(ch, rate, mode)?;
    cur.set_channel_map(&map).map_err(err("set_channel_map"))?;
    let mut past: Vec<Raw> = vec![]; // what the filter has seen
    let mut sp: Vec<(f64, f64)> = vec![(0.0, 0.0); ch as usize]; // peaks before this stretch
    let mut window = 3000usize;
    let mut inmax = 1e-3f64;
    let mut changed = 0;
    for step in 0..ctx.r.range(2, 6) {
        // some audio
        let mut sig = Signal::new(&mut ctx.r, ch as usize, rate);
        let budget = if tpm { 60_000 } else if fast { 250_000 } else { 500_000 };
        let mut m = Model::new(ch, rate, mode).unwrap();
        let n = match ctx.r.below(12) {
            _ if hours => {
                ctx.stats.inc("stretches of minutes to hours");
                let most = if tpm { 1_600_000 } else { 3_000_000 } / (rate as u64 * ch as u64);
                (ctx.r.logrange(300, most.max(400)) * rate as u64) as usize
            }
            // much in one go
            0 => audio(ctx, rate, ch, budget * 8, 900.0),
            1 => (budget / ch as u64 / rate as u64).max(1) as usize * rate as usize,
            _ => audio(ctx, rate, ch, budget, 90.0),
        };
        // often whole seconds
        let n = if n > rate as usize && ctx.r.chance(0.25) { n - n % rate as usize } else { n };
        let x = sig.next(n);
        inmax = inmax.max(maxabs(&x));
        let raw = Raw::quantize(&x, ctx.r.pick(&FMTS));
        ctx.log(format!("add {n} frames"));
        let mut at = 0;
        let parts = match ctx.r.below(if hours { 4 } else { 12 }) {
            0 => vec![n],
            1 => {
                let mut v = vec![rate as usize; n / rate as usize];
                if n % rate as usize > 0 {
                    v.push(n % rate as usize);
                }
                v
            }
            _ => partition(ctx, &mut m, n),
        };
        for k in parts {
            let p = raw.slice(at, at + k);
            at += k;
            let planar = ctx.r.chance(0.5);
            p.feed(&mut a, planar, false).map_err(err("add_frames"))?;
            p.feed(&mut cur, planar, false).map_err(err("add_frames"))?;
        }
        past.push(raw);
        // compare
        let t = Tol::tight(rate, inmax);
        let check = |ctx: &mut Ctx, a: &EbuR128, cur: &EbuR128, stretches: &[EbuR128], sp: &[(f64, f64)]| -> R {
            let mask = W | META;
            if a.max_history() != cur.max_history() {
                return Err("max_history changed".into());
            }
            same(ctx, a, cur, mask, &t)?;
            let all = || stretches.iter().chain(std::iter::once(cur));
            let gt = Tol { rel: 1e-9, abs: 0.0, tp: 0.0 };
            same_loudness("integrated loudness across the reconfigurations and pooled", a.loudness_global(), EbuR128::loudness_global_multiple(all()), &gt)?;
            same_value("loudness range across the reconfigurations and pooled", a.loudness_range(), EbuR128::loudness_range_multiple(all()), 1e-7)?;
            for c in 0..a.channels() {
                if peaks {
                    let want = sp[c as usize].0.max(cur.sample_peak(c).unwrap_or(f64::NAN));
                    same_value("sample_peak across reconfigurations", a.sample_peak(c), Ok(want), 0.0)?;
                    same_value("prev_sample_peak across reconfigurations", a.prev_sample_peak(c), cur.prev_sample_peak(c), 0.0)?;
                }
                if tpm {
                    let want = sp[c as usize].1.max(cur.true_peak(c).unwrap_or(f64::NAN));
                    same_value("true_peak across reconfigurations", a.true_peak(c), Ok(want), t.tp)?;
                    same_value("prev_true_peak across reconfigurations", a.prev_true_peak(c), cur.prev_true_peak(c), t.tp)?;
                }
            }
            Ok(())
        };
        check(ctx, &a, &cur, &stretches, &sp)?;
        if a.loudness_global().is_ok_and(|v| v.is_finite()) {
            ctx.stats.inc("measurements across reconfigurations compared");
        }
        // reconfigure
        let before = snap(&a, &[400, 1000, window as u32]);
        let kind = ctx.r.below(6);
        let old_peaks = |a: &EbuR128| -> Vec<(f64, f64)> {
            (0..a.channels()).map(|c| (a.sample_peak(c).unwrap_or(0.0), a.true_peak(c).unwrap_or(0.0))).collect()
        };
        match kind {
            0 => {
                ctx.log(format!("change_parameters({ch}, {rate}) (no change)"));
                a.change_parameters(ch, rate).map_err(err("change_parameters"))?;
                if let Some(d) = before.diff(&snap(&a, &[400, 1000, window as u32])) {
                    return Err(format!("change_parameters to the current parameters: {d}"));
                }
                ctx.stats.inc("reconfigurations without a change");
            }
            1 => {
                let w = if ctx.r.chance(0.5) || window == 3000 { ctx.r.range(0, window as u64) as u32 } else { window as u32 };
                let w = if window > 3000 { window as u32 } else { w };
                ctx.log(format!("set_max_window({w}) (no change)"));
                a.set_max_window(w).map_err(err("set_max_window"))?;
                if let Some(d) = before.diff(&snap(&a, &[400, 1000, window as u32])) {
                    return Err(format!("set_max_window to the current value: {d}"));
                }
                ctx.stats.inc("reconfigurations without a change");
            }
            2 => {
                let cap = (2_000_000 / (rate as u64 * ch as u64)).clamp(9, 600) * 1000;
                let w = loop {
                    let w = if ctx.r.chance(0.3) { ctx.r.logrange(3000, cap) } else { ctx.r.range(3000, 9000) };
                    if w != window as u64 {
                        break w;
                    }
                };
                ctx.log(format!("set_max_window({w})"));
                let p = old_peaks(&a);
                let (pa, pt): (Vec<_>, Vec<_>) = (0..ch).map(|c| (a.prev_sample_peak(c), a.prev_true_peak(c))).unzip();
                a.set_max_window(w as u32).map_err(err("set_max_window"))?;
                window = w as usize;
                if a.max_window() != window {
                    return Err(format!("max_window {} after set_max_window({w})", a.max_window()));
                }
                for c in 0..ch {
                    same_value("prev_sample_peak over set_max_window", a.prev_sample_peak(c), pa[c as usize], 0.0)?;
                    same_value("prev_true_peak over set_max_window", a.prev_true_peak(c), pt[c as usize], 0.0)?;
                }
                if a.loudness_momentary() != Ok(f64::NEG_INFINITY) || a.loudness_window(window as u32) != Ok(f64::NEG_INFINITY) {
                    return Err("the audio buffer still has content after set_max_window".into());
                }
                stretches.push(cur);
                cur = mk(ch, rate, mode)?;
                cur.set_channel_map(&map).map_err(err("set_channel_map"))?;
                cur.set_max_window(w as u32).map_err(err("set_max_window"))?;
                for r in &past {
                    r.feed(&mut cur, ctx.r.chance(0.5), true).map_err(err("seed_frames"))?;
                }
                sp = p;
                changed += 1;
                ctx.stats.inc("window changes");
            }
            _ => {
                let (nch, nrate) = loop {
                    let nch = if ctx.r.chance(0.5) { ch } else { pick_ch(ctx) };
                    let nrate = if ctx.r.chance(0.3) { rate } else { pick(ctx) };
                    let mut to = (fit(nch, nrate), nrate);
                    if ctx.r.chance(0.2) {
                        to = as_many(&mut ctx.r, ch, rate).unwrap_or(to);
                    }
                    let (nch, nrate) = to;
                    let room = nch as u64 * nrate as u64 * window as u64 / 1000 < 16_000_000;
                    if (nch, nrate) != (ch, rate) && (room || window == 3000) {
                        break (nch, nrate);
                    }
                };
                ctx.log(format!("change_parameters({nch}, {nrate})"));
                let p = old_peaks(&a);
                a.change_parameters(nch, nrate).map_err(err("change_parameters"))?;
                if a.max_window() != window {
                    return Err(format!("max_window {} after change_parameters, {window} before", a.max_window()));
                }
                sp = if nch == ch { p } else { vec![(0.0, 0.0); nch as usize] };
                if nch != ch {
                    map = default_map(nch as usize);
                    ctx.stats.inc("channel count changes");
                }
                if nrate != rate {
                    ctx.stats.inc("rate changes");
                }
                ch = nch;
                rate = nrate;
                stretches.push(cur);
                cur = mk(ch, rate, mode)?;
                cur.set_channel_map(&map).map_err(err("set_channel_map"))?;
                cur.set_max_window(window as u32).map_err(err("set_max_window"))?;
                past.clear();
                changed += 1;
            }
        }
        let t2 = Tol::tight(rate, inmax);
        same(ctx, &a, &cur, META, &t2)?;
        if kind >= 2 {
            // nothing measured yet in the new stretch
            let gt = Tol { rel: 1e-9, abs: 0.0, tp: 0.0 };
            same_loudness(
                "integrated loudness right after the reconfiguration",
                a.loudness_global(),
                EbuR128::loudness_global_multiple(stretches.iter()),
                &gt,
            )?;
            if kind > 2 {
                for c in 0..ch {
                    if peaks {
                        same_value("prev_sample_peak after change_parameters", a.prev_sample_peak(c), Ok(0.0), 0.0)?;
                        same_value("sample_peak after change_parameters", a.sample_peak(c), Ok(sp[c as usize].0), 0.0)?;
                    }
                    if tpm {
                        same_value("true_peak after change_parameters", a.true_peak(c), Ok(sp[c as usize].1), 0.0)?;
                    }
                }
            }
        }
        let _ = step;
    }
    ctx.nontrivial = changed > 0;
    Ok(())
}

fn c13_lock(ctx: &mut Ctx) -> R {
    let low = ctx.r.chance(0.5);
    let o = Opts {
        mask: ALL,
        budget: 500_000,
        rate: if low { low_rate } else { stable_rate },
        w: [20.0, 1.0, 1.0, 6.0, 5.0, 0.5, 0.5, 0.5, 1.0, 0.0],
        cmp: 0.4,
        ..Default::default()
    };
    session(ctx, &o)
}

// ------------------------------------------------------------------ C14

fn c14_lock(ctx: &mut Ctx) -> R {
    let never = if ctx.r.chance(0.9) { Mode::HISTOGRAM } else { Mode::empty() };
    let lra = ctx.r.chance(0.7);
    let o = Opts {
        must: if lra { Mode::I | Mode::LRA } else { Mode::I },
        never: never | Mode::TRUE_PEAK,
        mask: G | L | META,
        budget: 1_500_000,
        rate: low_rate,
        channels: few_channels,
        w: [20.0, 0.2, 0.2, 0.3, 0.3, 5.0, 0.3, 0.3, 0.5, 0.0],
        max_ops: 250,
        cmp: 0.4,
        ..Default::default()
    };
    session(ctx, &o)
}

/// Any rate, any number of channels, any modes
fn c14_wide(ctx: &mut Ctx) -> R {
    let o = Opts {
        must: ctx.r.pick(&[Mode::I, Mode::LRA, Mode::I | Mode::LRA, Mode::empty()]),
        never: if ctx.r.chance(0.8) { Mode::HISTOGRAM } else { Mode::empty() },
        budget: 400_000,
        rate: other_rate,
        w: [15.0, 0.1, 0.1, 0.3, 0.3, 4.0, 0.3, 0.3, 0.5, 0.0],
        max_ops: 60,
        cmp: 0.3,
        ..Default::default()
    };
    session(ctx, &o)
}

/// Hours of audio against limits of hours, with resets and other limits in between
fn c14_hours(ctx: &mut Ctx) -> R {
    let rate = *ctx.dict.low_rates.iter().find(|r| ctx.r.chance(0.05) || **r > 600).unwrap_or(&400);
    let lra = if ctx.r.chance(0.5) { Mode::LRA } else { Mode::empty() };
    let mode = Mode::I | lra;
    let mut e = mk(1, rate, mode)?;
    let mut m = Model::new(1, rate, mode).unwrap();
    let total = if ctx.r.chance(0.15) {
        ctx.r.range(37_000, 60_000)
    } else {
        ctx.r.logrange(2000, if ctx.thorough { 300_000 } else { 40_000 })
    };
    // limits somewhere within the programme
    let pick = |ctx: &mut Ctx| match ctx.r.below(3) {
        0 => ctx.r.range(1, total) * 100,
        1 => ctx.r.pick(&[1023u64, 1024, 1025, 4096, 4999, 5000, 5001, 8192, 10_000, 16_384, 36_000]) * 100,
        _ => ctx.r.logrange(1000, total * 200),
    } as u32;
    ctx.log(format!("new(1, {rate}, {mode:?}), {total} blocks"));
    let h = pick(ctx);
    ctx.log(format!("set_max_history({h})"));
    e.set_max_history(h).map_err(err("set_max_history"))?;
    m.set_max_history(h);
    let mut sig = Signal::new(&mut ctx.r, 1, rate);
    // a few pieces of different level and length, over and over
    let pieces: Vec<(Raw, Vec<Vec<f64>>)> = (0..4)
        .map(|_| {
            let n = ctx.r.range(1, 300) as usize * m.s100 + ctx.r.below(m.s100 as u64) as usize;
            let g = 10f64.powf(ctx.r.frange(-2.0, 0.0));
            let x: Vec<f64> = sig.next(n).remove(0).iter().map(|v| v * g).collect();
            let raw = Raw::quantize(&[x], Fmt::F64);
            let ex = raw.exact();
            (raw, ex)
        })
        .collect();
    let changes = ctx.r.chance(0.7);
    let mut blocks = 0;
    let mut next = ctx.r.range(1, total);
    while blocks < total {
        let (raw, ex) = &pieces[ctx.r.below(4) as usize];
        raw.feed(&mut e, false, false).map_err(err("add_frames"))?;
        m.add(ex).unwrap();
        blocks += (ex[0].len() / m.s100) as u64;
        if blocks >= next {
            next = blocks + ctx.r.range(1, total / 3);
            compare(ctx, &e, &m, G | L | META)?;
            if changes {
                match ctx.r.below(4) {
                    0 => {
                        ctx.log(format!("{blocks} blocks: reset()"));
                        e.reset();
                        m.reset();
                    }
                    1 => {
                        let h = pick(ctx);
                        ctx.log(format!("{blocks} blocks: set_max_history({h})"));
                        e.set_max_history(h).map_err(err("set_max_history"))?;
                        m.set_max_history(h);
                        compare(ctx, &e, &m, G | L | META)?;
                    }
                    _ => (),
                }
            }
        }
    }
    compare(ctx, &e, &m, G | L | META)?;
    ctx.stats.max("blocks of one programme", blocks as f64);
    ctx.nontrivial = true;
    Ok(())
}

/// Limiting before or after makes no difference; the newest blocks stay.
fn c14_late(ctx: &mut Ctx) -> R {
    let rate = low_rate(ctx);
    let ch = ctx.r.range(1, 2) as u32;
    let hist = if ctx.r.chance(0.1) { Mode::HISTOGRAM } else { Mode::empty() };
    let mode = Mode::I | Mode::LRA | hist;
    let m = Model::new(ch, rate, mode).unwrap();
    let n = audio(ctx, rate, ch, 1_000_000, 900.0);
    let ms = (n as u64 * 1000) / rate as u64;
    let h = match ctx.r.below(3) {
        0 => ctx.r.logrange(1, 2 * ms.max(4000)) as u32,
        1 => ctx.r.pick(&[3000, 3099, 3100, 5999, 6000, 9000, 30000]),
        _ => ctx.r.range(0, ms.max(3000)) as u32,
    };
    let mut early = mk(ch, rate, mode)?;
    let mut late = mk(ch, rate, mode)?;
    let mut twice = mk(ch, rate, mode)?;
    let mut free = mk(ch, rate, mode)?;
    early.set_max_history(h).map_err(err("set_max_history"))?;
    let bigger = h.max(3000).saturating_add(ctx.r.logrange(0, 100_000) as u32);
    twice.set_max_history(bigger).map_err(err("set_max_history"))?;
    ctx.log(format!("{n} frames, {ch} channels at {rate}, {mode:?}, history {h} ms (before), {bigger} then {h} ms"));
    let mut sig = Signal::new(&mut ctx.r, ch as usize, rate);
    let raw = Raw::quantize(&sig.next(n), ctx.r.pick(&FMTS));
    for e in [&mut early, &mut late, &mut twice, &mut free] {
        raw.feed(e, false, false).map_err(err("add_frames"))?;
    }
    let t = Tol::tight(rate, 1.0);
    late.set_max_history(h).map_err(err("set_max_history"))?;
    twice.set_max_history(h).map_err(err("set_max_history"))?;
    same(ctx, &early, &late, G | L | W | META, &t).map_err(|e| format!("history limited before and after the audio: {e}"))?;
    same(ctx, &early, &twice, G | L | W | META, &t).map_err(|e| format!("history limited once and twice: {e}"))?;
    if hist != Mode::empty() || h as u64 >= ms + 3000 {
        // (every 3 s of history keep one of the short-term blocks that start every second)
        let l = if hist != Mode::empty() || h as u64 >= 3 * ms + 3000 { L } else { 0 };
        same(ctx, &early, &free, G | l | W, &t).map_err(|e| format!("limit without effect: {e}"))?;
        ctx.stats.inc("limits without effect");
    } else {
        ctx.stats.inc("limits with effect");
    }
    // enlarging brings nothing back and loses nothing
    let s = snap(&early, &[400]);
    let mut s2 = early;
    s2.set_max_history(u32::MAX).map_err(err("set_max_history"))?;
    let k = snap(&s2, &[400]);
    let d = s.diff(&k);
    if let Some(d) = d {
        if !d.starts_with("max_history") {
            return Err(format!("enlarging the history changed {d}"));
        }
    }
    let t2 = Tol::tight(rate, 1.0);
    same(ctx, &late, &s2, G | L | W, &t2).map_err(|e| format!("after enlarging the history: {e}"))?;
    let _ = m;
    ctx.nontrivial = true;
    Ok(())
}

// ------------------------------------------------------------------ C15

fn c15_pick(ctx: &mut Ctx) -> (u32, u32) {
    let ch = match ctx.r.below(3) {
        0 => ctx.r.range(0, 70) as u32,
        1 => ctx.r.pick(&[0, 1, 2, 63, 64, 65, 66, 128, 255, 256, 257, 1 << 16, (1 << 16) + 1, u32::MAX, u32::MAX - 1, 1 << 31]),
        _ => pick_channels(&mut ctx.r),
    };
    let rate = match ctx.r.below(4) {
        0 => ctx.r.range(0, 40) as u32,
        1 => ctx.r.pick(&[0, 1, 14, 15, 16, 17, 2822399, 2822400, 2822401, 2822402, u32::MAX, u32::MAX - 1, 1 << 31, 5644800]),
        2 => any_rate(ctx),
        _ => low_rate(ctx),
    };
    // not too much memory
    let rate = if rate > 400_000 && rate <= 2822400 && (3..=64).contains(&ch) { rate / 8 } else { rate };
    (ch, rate)
}

/// What `new` and `change_parameters` accept, and which queries a mode allows
fn c15_new(ctx: &mut Ctx) -> R {
    let (ch, rate) = c15_pick(ctx);
    let bits = ctx.r.below(256) as u8;
    let mode = Mode::from_bits_truncate(bits);
    ctx.log(format!("new({ch}, {rate}, {mode:?})"));
    let want = if !(1..=64).contains(&ch) || !(16..=2822400).contains(&rate) {
        Err(Error::NoMem)
    } else if !mode.contains(Mode::M) {
        Err(Error::InvalidMode)
    } else {
        Ok(())
    };
    let mut e = match (EbuR128::new(ch, rate, mode), want) {
        (Ok(e), Ok(())) => e,
        (Err(a), Err(b)) if a == b => {
            ctx.stats.inc("configurations rejected");
            ctx.nontrivial = true;
            return Ok(());
        }
        (a, b) => return Err(format!("new({ch}, {rate}, {mode:?}) is {:?}, expected {b:?}", a.map(|_| ()))),
    };
    ctx.stats.inc("configurations accepted");
    let mut m = Model::new(ch, rate, mode).unwrap();
    compare(ctx, &e, &m, ALL)?;
    for i in [ch, ch + 1, 64, u32::MAX, 1 << 31, bad_channel(ctx, ch), bad_channel(ctx, ch)] {
        for (what, got, bit) in [
            ("sample_peak", e.sample_peak(i), Mode::SAMPLE_PEAK),
            ("prev_sample_peak", e.prev_sample_peak(i), Mode::SAMPLE_PEAK),
            ("true_peak", e.true_peak(i), Mode::TRUE_PEAK),
            ("prev_true_peak", e.prev_true_peak(i), Mode::TRUE_PEAK),
        ] {
            let want = if i < ch { continue } else if !mode.contains(bit) { Error::InvalidMode } else { Error::InvalidChannelIndex };
            if got != Err(want) {
                return Err(format!("{what}({i}) with {ch} channels and {mode:?}: {got:?}, expected {want:?}"));
            }
        }
    }
    // nothing to measure is fine
    for r in [
        e.add_frames_i16(&[]),
        e.add_frames_i32(&[]),
        e.add_frames_f32(&[]),
        e.add_frames_f64(&[]),
        e.seed_frames_i16(&[]),
        e.seed_frames_f64(&[]),
        e.add_frames_planar_f32(&vec![&[][..]; ch as usize]),
        e.seed_frames_planar_i32(&vec![&[][..]; ch as usize]),
    ] {
        r.map_err(err("no frames"))?;
    }
    compare(ctx, &e, &m, ALL)?;
    for _ in 0..ctx.r.range(0, 3) {
        let (c2, r2) = c15_pick(ctx);
        // (one of the two may stay)
        let (c2, r2) = match ctx.r.below(3) {
            0 if r2 < 400_000 || r2 > 2822400 || m.channels < 3 => (m.channels as u32, r2),
            1 if m.rate < 400_000 || c2 < 3 || c2 > 64 => (c2, m.rate),
            _ => (c2, r2),
        };
        ctx.log(format!("change_parameters({c2}, {r2})"));
        let want = m.change_parameters(c2, r2);
        let got = e.change_parameters(c2, r2);
        if got != want {
            return Err(format!("change_parameters({c2}, {r2}) is {got:?}, expected {want:?}"));
        }
        ctx.stats.inc(if want.is_ok() { "changes of parameters accepted" } else { "changes of parameters rejected" });
        if e.channels() != m.channels as u32 || e.rate() != m.rate {
            return Err(format!("{} channels at {} Hz after change_parameters({c2}, {r2}): {want:?}", e.channels(), e.rate()));
        }
        compare(ctx, &e, &m, ALL)?;
    }
    ctx.nontrivial = true;
    Ok(())
}

/// Rejected calls leave no trace.
fn c15_reject(ctx: &mut Ctx) -> R {
    let (ch, rate) = tmpl(ctx, 0.5);
    let mode = pick_mode(&mut ctx.r, Mode::M, Mode::empty());
    ctx.log(format!("new({ch}, {rate}, {mode:?})"));
    let mut a = mk(ch, rate, mode)?;
    let mut b = mk(ch, rate, mode)?;
    let mut m = Model::new(ch, rate, mode).unwrap();
    let mut sig = Signal::new(&mut ctx.r, ch as usize, rate);
    let mut left: i64 = if mode.contains(Mode::TRUE_PEAK) { 80_000 } else { 250_000 };
    let mut inmax = 0.0f64;
    let mut ops = 0;
    while left > 0 && ops < 80 {
        ops += 1;
        match ctx.r.weighted(&[8.0, 10.0, 0.5, 0.3]) {
            0 => {
                let n = pick_frames(&mut ctx.r, ctx.dict, &m, (left as u64 / m.channels as u64).max(1)) as usize;
                left -= ((n + 20) * m.channels) as i64;
                let x = sig.next(n);
                inmax = inmax.max(maxabs(&x));
                let raw = Raw::quantize(&x, ctx.r.pick(&FMTS));
                let planar = ctx.r.chance(0.5);
                ctx.log(format!("add {n} frames"));
                raw.feed(&mut a, planar, false).map_err(err("add_frames"))?;
                raw.feed(&mut b, planar, false).map_err(err("add_frames"))?;
                m.skip(n as u64);
            }
            1 => {
                let w = [ctx.r.range(1, 400) as u32, 400, m.window as u32];
                let before = snap(&a, &w);
                rejected(ctx, &mut a, &m)?;
                if let Some(d) = before.diff(&snap(&a, &w)) {
                    return Err(format!("a rejected call changed {d}"));
                }
            }
            2 => {
                let rate = stable_rate(ctx);
                let ch = fit(pick_channels(&mut ctx.r), rate);
                if !room(&m, ch, rate) {
                    continue;
                }
                ctx.log(format!("change_parameters({ch}, {rate})"));
                a.change_parameters(ch, rate).map_err(err("change_parameters"))?;
                b.change_parameters(ch, rate).map_err(err("change_parameters"))?;
                m.change_parameters(ch, rate).unwrap();
                sig = Signal::new(&mut ctx.r, m.channels, m.rate);
            }
            _ => {
                a.reset();
                b.reset();
                m.reset();
                ctx.log("reset()".into());
            }
        }
        let t = Tol::tight(m.rate, inmax);
        if ctx.r.chance(0.5) {
            same(ctx, &a, &b, ALL, &t).map_err(|e| format!("with and without rejected calls: {e}"))?;
        }
    }
    let t = Tol::tight(m.rate, inmax);
    same(ctx, &a, &b, ALL, &t).map_err(|e| format!("with and without rejected calls: {e}"))?;
    ctx.nontrivial = true;
    Ok(())
}

/// Every mode's queries, with and without audio
fn c15_modes(ctx: &mut Ctx) -> R {
    let bits = (ctx.idx % 128) as u8;
    let mode = Mode::from_bits_truncate(bits);
    let rate = low_rate(ctx);
    let ch = ctx.r.range(1, 6) as u32;
    ctx.log(format!("mode {mode:?}, {ch} channels at {rate}"));
    if !mode.contains(Mode::M) {
        if EbuR128::new(ch, rate, mode).map(|_| ()) != Err(Error::InvalidMode) {
            return Err(format!("mode {mode:?} accepted"));
        }
        ctx.stats.inc("modes rejected");
        ctx.nontrivial = true;
        return Ok(());
    }
    let mut e = mk(ch, rate, mode)?;
    let mut m = Model::new(ch, rate, mode).unwrap();
    let mut sig = Signal::new(&mut ctx.r, ch as usize, rate);
    for _ in 0..3 {
        let n = m.s100 * ctx.r.range(0, 40) as usize;
        let raw = Raw::quantize(&sig.next(n), ctx.r.pick(&FMTS));
        raw.feed(&mut e, false, false).map_err(err("add_frames"))?;
        m.add(&raw.exact()).unwrap();
        ctx.log(format!("add {n} frames"));
        compare(ctx, &e, &m, ALL)?;
        if !mode.contains(Mode::I) && e.gating_block_count_and_energy().is_some() {
            return Err("gating blocks without mode I".into());
        }
        // the multi-instance queries want the mode of every instance
        let i = EbuR128::loudness_global_multiple([&e].into_iter());
        let l = EbuR128::loudness_range_multiple([&e]);
        if i.is_ok() != mode.contains(Mode::I) || l.is_ok() != mode.contains(Mode::LRA) {
            return Err(format!("mode {mode:?}: loudness_global_multiple {i:?}, loudness_range_multiple {l:?}"));
        }
    }
    ctx.stats.inc("modes checked");
    ctx.nontrivial = true;
    Ok(())
}

// ------------------------------------------------------------------ C23

fn c23(ctx: &mut Ctx) -> R {
    let (ch, rate) = tmpl(ctx, 0.5);
    let mode = pick_mode(&mut ctx.r, Mode::I | Mode::LRA | Mode::SAMPLE_PEAK, Mode::HISTOGRAM);
    // ordinary programmes, or far below or above what converters produce
    let far = ctx.r.chance(0.15);
    let level = if far { 10f64.powf(ctx.r.frange(-20.0, 5.0)) } else { 1.0 };
    let g_db = if far { ctx.r.frange(-60.0, 60.0) } else { ctx.r.frange(-30.0, 30.0) };
    let g = if ctx.r.chance(0.3) { 2f64.powi(ctx.r.range(0, 8) as i32 - 4) } else { 10f64.powf(g_db / 20.0) };
    let g = if ctx.r.chance(0.3) { -g } else { g };
    let g_db = 20.0 * g.abs().log10();
    let map = a_map(ctx, ch);
    let mut a = mk(ch, rate, mode)?;
    let mut b = mk(ch, rate, mode)?;
    a.set_channel_map(&map).map_err(err("set_channel_map"))?;
    b.set_channel_map(&map).map_err(err("set_channel_map"))?;
    let mut m = Model::new(ch, rate, mode - Mode::TRUE_PEAK | Mode::LRA | Mode::I).unwrap();
    m.set_channel_map(&map).unwrap();
    let mut sig = Signal::new(&mut ctx.r, ch as usize, rate);
    let f32s = ctx.r.chance(0.5) && g.log2().fract() == 0.0 && !far;
    ctx.log(format!("new({ch}, {rate}, {mode:?}), map {map:?}, gain {g} ({g_db} dB)"));
    let mut left: i64 = if mode.contains(Mode::TRUE_PEAK) { 120_000 } else { 500_000 };
    // which blocks the absolute gate separates depends on the gain: watch them at both gains
    let mut flips = false;
    let mut chunks = vec![];
    while left > 0 {
        let n = pick_frames(&mut ctx.r, ctx.dict, &m, (left as u64 / ch as u64).max(1)) as usize;
        left -= ((n + 20) * ch as usize) as i64;
        let mut x = sig.next(n);
        if far {
            for v in x.iter_mut().flatten() {
                *v *= level;
            }
        }
        if f32s {
            for v in x.iter_mut().flatten() {
                *v = *v as f32 as f64;
            }
        }
        let y: Vec<Vec<f64>> = x.iter().map(|c| c.iter().map(|v| v * g).collect()).collect();
        let planar = ctx.r.chance(0.5);
        let f = if f32s { Fmt::F32 } else { Fmt::F64 };
        Raw::quantize(&x, f).feed(&mut a, planar, false).map_err(err("add_frames"))?;
        Raw::quantize(&y, f).feed(&mut b, planar, false).map_err(err("add_frames"))?;
        m.add(&x).unwrap();
        chunks.push(n);
    }
    // blocks between the gates of the two gains
    let mut mb = Model::new(ch, rate, mode - Mode::TRUE_PEAK | Mode::LRA | Mode::I).unwrap();
    mb.set_channel_map(&map).unwrap();
    if m.amb || m.st_amb {
        flips = true;
    }
    let lo = crate::model::undb(-70.0) / (g * g).min(1.0) * 1.001;
    let below = |h: &Hist, measured: u64| match h {
        Hist::Queue(q) => q.iter().any(|e| *e < lo) || (g.abs() > 1.0 && q.len() as u64 != measured),
        _ => true,
    };
    if below(&m.blocks, m.blocks_measured) || below(&m.st_blocks, m.st_measured) {
        // for gains above one, blocks under the gate may be silence or not: only silence is decided
        flips = true;
    }
    let inmax = m.inmax_ever * g.abs();
    if far && inmax > 0.0 && inmax < 1e-6 {
        ctx.stats.inc("amplifications of very quiet audio");
    }
    let mut t = Tol::tight(rate, inmax);
    t.abs *= 10.0;
    let shift = |r: Result<f64, Error>| r.map(|v| v + g_db);
    same_loudness("momentary loudness of the amplified signal", b.loudness_momentary(), shift(a.loudness_momentary()), &t)?;
    same_loudness("short-term loudness of the amplified signal", b.loudness_shortterm(), shift(a.loudness_shortterm()), &t)?;
    for c in 0..ch {
        let f = |r: Result<f64, Error>| r.map(|v| v * g.abs());
        let p = a.sample_peak(c).map_err(err("sample_peak"))? * 1e-12 * g.abs();
        same_value("sample peak of the amplified signal", b.sample_peak(c), f(a.sample_peak(c)), p)?;
        same_value("true peak of the amplified signal", b.true_peak(c), f(a.true_peak(c)), 4e-6 * inmax)?;
        ctx.stats.inc("peaks compared");
    }
    if flips {
        ctx.stats.inc("integrated values not compared: the absolute gate separates differently");
    } else {
        match gated(&[&m.blocks], m.hist_tol()) {
            Ok(Some(_)) => {
                let mut gt = Tol { rel: 1e-9, abs: 0.0, tp: 0.0 };
                gt.rel += m.hist_tol().rel * 0.01;
                same_loudness("integrated loudness of the amplified signal", b.loudness_global(), shift(a.loudness_global()), &gt)?;
                same_loudness("relative threshold of the amplified signal", b.relative_threshold(), shift(a.relative_threshold()), &gt)?;
                // loudness normalisation: gain to a target
                let target = -23.0;
                let need = target - a.loudness_global().map_err(err("loudness_global"))?;
                if ((need - g_db).abs()) < 1e-9 {
                    ctx.stats.inc("targets hit");
                }
                ctx.stats.inc("integrated loudness compared");
                let (x, y) = (a.gating_block_count_and_energy(), b.gating_block_count_and_energy());
                if x.map(|v| v.0) != y.map(|v| v.0) {
                    return Err(format!("gating blocks of the amplified signal: {y:?}, before {x:?}"));
                }
            }
            _ => ctx.stats.inc("skipped: on the relative gate"),
        }
        match lra(&[&m.st_blocks], m.hist_tol()) {
            Exp::Lu(v, tol) => {
                same_value("loudness range of the amplified signal", b.loudness_range(), a.loudness_range(), tol)?;
                if v > 0.0 {
                    ctx.stats.inc("loudness ranges compared");
                }
            }
            _ => ctx.stats.inc("skipped: on the relative gate"),
        }
    }
    ctx.nontrivial = true;
    Ok(())
}

/// Normalise to a target with the measured loudness, measure again.
fn c23_normalise(ctx: &mut Ctx) -> R {
    let (ch, rate) = tmpl(ctx, 0.5);
    let mode = Mode::I | Mode::LRA | Mode::SAMPLE_PEAK;
    let n = audio(ctx, rate, ch, 800_000, 60.0).max(rate as usize);
    let target = ctx.r.pick(&[-23.0, -18.0, -16.0, -14.0, -24.0]);
    // programme that is never near the absolute gate
    let base = ctx.r.frange(0.01, 0.5);
    let seg = ctx.r.range(rate as u64 / 10, rate as u64 * 4) as usize;
    let mut rr = Rng64(ctx.r.u64());
    let mut lv = 1.0;
    let mut x = vec![Vec::with_capacity(n); ch as usize];
    for i in 0..n {
        if i % seg == 0 {
            lv = base * 10f64.powf(-rr.f());
        }
        for c in &mut x {
            c.push((rr.f() * 2.0 - 1.0) * lv);
        }
    }
    ctx.log(format!("{n} frames, {ch} channels at {rate}, target {target}"));
    let mut a = mk(ch, rate, mode)?;
    Raw::F64(x.clone()).feed(&mut a, true, false).map_err(err("add_frames"))?;
    let l = a.loudness_global().map_err(err("loudness_global"))?;
    if !l.is_finite() {
        return if n < 4 * ((rate as usize + 5) / 10) { Ok(()) } else { Err(format!("loudness {l} of {n} frames of noise")) };
    }
    let g = 10f64.powf((target - l) / 20.0);
    let y: Vec<Vec<f64>> = x.iter().map(|c| c.iter().map(|v| v * g).collect()).collect();
    let mut b = mk(ch, rate, mode)?;
    Raw::F64(y).feed(&mut b, false, false).map_err(err("add_frames"))?;
    let got = b.loudness_global().map_err(err("loudness_global"))?;
    if !((got - target).abs() < 1e-4) {
        return Err(format!("normalised to {target} LUFS (gain {g}), measured again: {got} LUFS"));
    }
    same_value("loudness range after normalisation", b.loudness_range(), a.loudness_range(), 1e-4)?;
    ctx.stats.inc("programmes normalised");
    ctx.nontrivial = true;
    Ok(())
}

// ------------------------------------------------------------------ C24

fn c24(ctx: &mut Ctx, rate: u32, hostile: f64) -> R {
    let mut ch = fit(pick_channels(&mut ctx.r), rate);
    let mode = pick_mode(&mut ctx.r, Mode::M, Mode::empty());
    ctx.log(format!("new({ch}, {rate}, {mode:?})"));
    let mut e = mk(ch, rate, mode)?;
    let mut m = Model::new(ch, rate, mode).unwrap();
    let mut stable = rate_stable(rate) && hostile == 0.0;
    let mut sig = Signal::new(&mut ctx.r, ch as usize, rate);
    let mut left: i64 = if mode.contains(Mode::TRUE_PEAK) { 150_000 } else { 600_000 };
    let mut cum = vec![(0.0f64, 0.0f64); ch as usize];
    let mut prevs = vec![(0.0f64, 0.0f64); ch as usize];
    if ctx.r.chance(0.3) {
        let w = ctx.r.range(0, 6000) as u32;
        e.set_max_window(w).map_err(err("set_max_window"))?;
        m.set_max_window(w);
    }
    // how much else is going on; how the audio is cut
    let busy = ctx.r.pick(&[0.0, 0.05, 0.3]);
    let style = ctx.r.weighted(&[20.0, 1.0, 1.0]);
    if style == 2 {
        left *= 6;
    }
    let mut p_check = 0.4;
    while left > 0 {
        if ctx.r.chance(if style == 1 { busy * 0.05 } else { busy }) {
            match ctx.r.below(7) {
                0 => {
                    ctx.log("reset()".into());
                    e.reset();
                    m.reset();
                    cum.fill((0.0, 0.0));
                    prevs.fill((0.0, 0.0));
                    stable = rate_stable(m.rate) && hostile == 0.0;
                }
                1 => {
                    let cap = (2_000_000 / (m.rate as u64 * ch as u64)).clamp(6, 90) * 1000;
                    let w = ctx.r.logrange(1, cap) as u32;
                    ctx.log(format!("set_max_window({w})"));
                    e.set_max_window(w).map_err(err("set_max_window"))?;
                    m.set_max_window(w);
                }
                2 => {
                    let h = if ctx.r.chance(0.5) { ctx.r.logrange(1, 1 << 32) - 1 } else { ctx.r.range(400, 20_000) } as u32;
                    ctx.log(format!("set_max_history({h})"));
                    e.set_max_history(h).map_err(err("set_max_history"))?;
                }
                3 => {
                    let r2 = if ctx.r.chance(0.3) { m.rate } else { low_rate(ctx) };
                    let c2 = if ctx.r.chance(0.5) { ch } else { fit(pick_channels(&mut ctx.r), r2) };
                    if !room(&m, c2, r2) {
                        continue;
                    }
                    ctx.log(format!("change_parameters({c2}, {r2})"));
                    if (c2, r2) != (ch, m.rate) {
                        prevs = vec![(0.0, 0.0); c2 as usize];
                    }
                    if c2 != ch {
                        cum = vec![(0.0, 0.0); c2 as usize];
                    }
                    e.change_parameters(c2, r2).map_err(err("change_parameters"))?;
                    m.change_parameters(c2, r2).unwrap();
                    ch = c2;
                    sig = Signal::new(&mut ctx.r, ch as usize, r2);
                    stable &= rate_stable(r2);
                }
                4 => {
                    let n = ctx.r.logrange(1, m.rate as u64) as usize;
                    ctx.log(format!("seed {n} frames"));
                    let x = Raw::quantize(&sig.next(n), ctx.r.pick(&FMTS));
                    x.feed(&mut e, ctx.r.chance(0.5), true).map_err(err("seed_frames"))?;
                }
                5 => {
                    // (what an unused channel kept from earlier may be anything)
                    let map: Vec<Channel> = (0..ch as usize)
                        .map(|i| if e.channel_map()[i] == Channel::Unused { Channel::Unused } else { pick_channel_type(ctx, ch as usize) })
                        .collect();
                    ctx.log(format!("set_channel_map({map:?})"));
                    e.set_channel_map(&map).map_err(err("set_channel_map"))?;
                }
                _ => rejected(ctx, &mut e, &m)?,
            }
            ctx.stats.inc("other calls in between");
            check_peaks(ctx, &e, &cum, &prevs)?;
            invariants(ctx, &e, stable)?;
            left -= 100;
        }
        let n = match style {
            1 => {
                p_check = 0.01;
                ctx.r.logrange(1, 200)
            }
            2 => {
                if ctx.r.chance(0.3) {
                    left as u64 / ch as u64 + 1
                } else {
                    ctx.r.logrange(m.rate as u64, m.rate as u64 * 30)
                }
            }
            _ => pick_frames(&mut ctx.r, ctx.dict, &m, (left as u64 / ch as u64).max(1)),
        } as usize;
        let n = n.min(4_000_000 / ch as usize);
        left -= ((n + 20) * ch as usize) as i64;
        let mut x = sig.next(n);
        let mut f = ctx.r.pick(&FMTS);
        if ctx.r.chance(hostile) {
            hostile_values(ctx, &mut x);
            f = Fmt::F64;
        }
        let raw = Raw::quantize(&x, f);
        raw.feed(&mut e, ctx.r.chance(0.5), false).map_err(err("add_frames"))?;
        ctx.log(format!("add {n} frames"));
        m.skip(n as u64);
        // the peaks of the last call, for what the overall ones have to be
        for c in 0..ch as usize {
            let i = c as u32;
            if mode.contains(Mode::SAMPLE_PEAK) {
                let q = e.prev_sample_peak(i).map_err(err("peak"))?;
                if n > 0 {
                    prevs[c].0 = q;
                }
                cum[c].0 = cum[c].0.max(q);
            }
            if mode.contains(Mode::TRUE_PEAK) {
                let q = e.prev_true_peak(i).map_err(err("peak"))?;
                if n > 0 {
                    prevs[c].1 = q;
                }
                cum[c].1 = cum[c].1.max(q);
            }
        }
        check_peaks(ctx, &e, &cum, &prevs)?;
        if ctx.r.chance(p_check) || left <= 0 {
            invariants(ctx, &e, stable)?;
        }
    }
    ctx.nontrivial = true;
    Ok(())
}

/// Overall and previous-call peaks, given the previous-call peaks after the last call and their maxima
fn check_peaks(ctx: &mut Ctx, e: &EbuR128, cum: &[(f64, f64)], prevs: &[(f64, f64)]) -> R {
    let mode = e.mode();
    for c in 0..e.channels() as usize {
        let i = c as u32;
        if mode.contains(Mode::SAMPLE_PEAK) {
            let (p, q) = (e.sample_peak(i).map_err(err("peak"))?, e.prev_sample_peak(i).map_err(err("peak"))?);
            if q != prevs[c].0 || p != cum[c].0 || p < 0.0 || q < 0.0 {
                return Err(format!(
                    "channel {c}: sample peak {p}, of the last call {q}; maximum over the calls {}, after the last one {}",
                    cum[c].0, prevs[c].0
                ));
            }
            ctx.stats.inc("peak invariants checked");
        }
        if mode.contains(Mode::TRUE_PEAK) {
            let (p, q) = (e.true_peak(i).map_err(err("peak"))?, e.prev_true_peak(i).map_err(err("peak"))?);
            if q != prevs[c].1 || (p - cum[c].1).abs() > 1e-6 * p && p != cum[c].1 {
                return Err(format!(
                    "channel {c}: true peak {p}, of the last call {q}; maximum over the calls {}, after the last one {}",
                    cum[c].1, prevs[c].1
                ));
            }
            if p < cum[c].0 || q < prevs[c].0 {
                return Err(format!("channel {c}: true peak {p} / {q} below the sample peak {} / {}", cum[c].0, prevs[c].0));
            }
        }
    }
    Ok(())
}

fn invariants(ctx: &mut Ctx, e: &EbuR128, stable: bool) -> R {
    let mode = e.mode();
    let t = Tol { rel: 1e-9, abs: 1e-150, tp: 0.0 };
    if mode.contains(Mode::I) {
        let g = e.loudness_global().map_err(err("loudness_global"))?;
        let r = e.relative_threshold().map_err(err("relative_threshold"))?;
        let c = e.gating_block_count_and_energy();
        if stable && g.is_nan() {
            return Err("integrated loudness is not a number".into());
        }
        if !g.is_nan() {
            match c {
                None => {
                    if g != f64::NEG_INFINITY {
                        return Err(format!("integrated loudness {g} without gating blocks"));
                    }
                }
                Some((n, s)) => {
                    same_loudness("integrated loudness and count/energy", Ok(g), Ok(ebur128::energy_to_loudness(s / n as f64)), &t)?;
                    if mode.contains(Mode::HISTOGRAM) {
                        if g < r - 0.06 {
                            return Err(format!("integrated loudness {g} below the relative threshold {r}"));
                        }
                    } else if g < r - 1e-9 || g < -70.0 - 1e-9 {
                        return Err(format!("integrated loudness {g} below the relative threshold {r} or the absolute gate"));
                    }
                    if n == 0 {
                        return Err("count of zero gating blocks".into());
                    }
                    ctx.stats.inc("gating invariants checked");
                }
            }
            if g == f64::NEG_INFINITY && r != -70.0 {
                return Err(format!("relative threshold {r} without blocks"));
            }
        }
        same_loudness("multiple of one", EbuR128::loudness_global_multiple([e].into_iter()), Ok(g), &t)?;
    }
    if mode.contains(Mode::LRA) {
        let l = e.loudness_range().map_err(err("loudness_range"))?;
        if stable && !(l >= 0.0 && l.is_finite()) {
            return Err(format!("loudness range {l}"));
        }
        same_value("range_multiple of one", EbuR128::loudness_range_multiple([e]), Ok(l), 1e-9)?;
        ctx.stats.inc("range invariants checked");
    }
    let rate = e.rate() as u64;
    let s100 = (rate + 5) / 10;
    // the window of the same number of frames, if there is one
    let alike = |frames: u64| {
        let w = (frames * 1000).div_ceil(rate);
        (rate * w / 1000 == frames && w <= e.max_window() as u64).then_some(w as u32)
    };
    if let Some(w) = alike(s100 * 4) {
        same_loudness(&format!("loudness_momentary and loudness_window({w})"), e.loudness_momentary(), e.loudness_window(w), &t)?;
        ctx.stats.inc("window identities checked");
    }
    if let Some(w) = alike(s100 * 30) {
        if e.max_window() >= 3000 {
            same_loudness(&format!("loudness_shortterm and loudness_window({w})"), e.loudness_shortterm(), e.loudness_window(w), &t)?;
        }
    }
    // the energy in a longer window is not smaller
    if stable {
        let mut ws: Vec<u32> = (0..4).map(|_| ctx.r.range(1, e.max_window() as u64) as u32).collect();
        ws.push(e.max_window() as u32);
        ws.sort_unstable();
        let mut last = 0.0f64;
        for w in ws {
            let fr = rate * w as u64 / 1000;
            let l = e.loudness_window(w).map_err(err("loudness_window"))?;
            if fr == 0 {
                continue;
            }
            if l.is_nan() || l == f64::INFINITY {
                return Err(format!("loudness_window({w}) is {l}"));
            }
            let total = energy_of(l) * fr as f64;
            // (results that are denormal have few digits)
            if total < last * (1.0 - 1e-9) - 1e-300 {
                return Err(format!("loudness_window({w}): energy {total:e} in the window, {last:e} in a shorter one"));
            }
            last = last.max(total);
        }
        ctx.stats.inc("window energies ordered");
    }
    Ok(())
}
fn c24_stable(ctx: &mut Ctx) -> R {
    let rate = stable_rate(ctx);
    c24(ctx, rate, 0.0)
}
fn c24_low(ctx: &mut Ctx) -> R {
    let rate = low_rate(ctx);
    c24(ctx, rate, 0.0)
}
fn c24_hostile(ctx: &mut Ctx) -> R {
    let rate = any_rate(ctx);
    c24(ctx, rate, 0.2)
}
fn c24_energy(ctx: &mut Ctx) -> R {
    // the conversion the public API offers
    for _ in 0..2000 {
        let l = ctx.r.frange(-300.0, 300.0);
        let e = crate::model::undb(l);
        let g = ebur128::energy_to_loudness(e);
        if !((g - l).abs() < 1e-9) {
            return Err(format!("energy_to_loudness({e:e}) is {g}, expected {l}"));
        }
    }
    if ebur128::energy_to_loudness(0.0) != f64::NEG_INFINITY || !((ebur128::energy_to_loudness(1.0) + 0.691).abs() < 1e-12) {
        return Err("energy_to_loudness at 0 or 1".into());
    }
    ctx.stats.add("energies converted", 2000);
    ctx.log(format!("2000 energies {}", ctx.idx));
    ctx.nontrivial = true;
    Ok(())
}

// ------------------------------------------------------------------ C26

/// Several instances, asked alone and together, accepted and refused, over and over in any order
fn c26_pool(ctx: &mut Ctx) -> R {
    let k = ctx.r.range(2, 6) as usize;
    let mut es = vec![];
    for i in 0..k {
        let must = ctx.r.pick(&[Mode::LRA | Mode::I, Mode::LRA | Mode::I, Mode::LRA, Mode::I, Mode::M]);
        let mode = pick_mode(&mut ctx.r, must, Mode::TRUE_PEAK);
        let rate = low_rate(ctx);
        let ch = ctx.r.range(1, 3) as u32;
        let mut e = mk(ch, rate, mode)?;
        let secs = ctx.r.logrange(1, 40);
        for _ in 0..secs {
            let g = 10f64.powf(ctx.r.frange(-3.0, 0.0));
            let x: Vec<f64> = (0..rate * ch).map(|_| ctx.r.frange(-g, g)).collect();
            e.add_frames_f64(&x).map_err(err("add_frames"))?;
        }
        ctx.log(format!("instance {i}: {ch} channels, {rate} Hz, {mode:?}, {secs} s"));
        es.push(e);
    }
    // kind and instances, first one first
    let mut qs: Vec<(u64, Vec<usize>)> = vec![];
    for _ in 0..ctx.r.range(3, 14) {
        let q = ctx.r.below(9);
        let n = if q < 5 || ctx.r.chance(0.1) { 1 } else { ctx.r.range(0, 5) };
        qs.push((q, (0..n).map(|_| ctx.r.below(k as u64) as usize).collect()));
    }
    let ask = |q: &(u64, Vec<usize>)| -> Result<u64, String> {
        let set = || q.1.iter().map(|i| &es[*i]);
        let lacks = |m: Mode| set().any(|e| !e.mode().contains(m));
        let kinds = set().any(|e| e.mode().contains(Mode::HISTOGRAM)) && set().any(|e| !e.mode().contains(Mode::HISTOGRAM));
        let (got, refused) = match q.0 {
            0 => (es[q.1[0]].loudness_global(), lacks(Mode::I)),
            1 => (es[q.1[0]].loudness_range(), lacks(Mode::LRA)),
            2 => (es[q.1[0]].relative_threshold(), lacks(Mode::I)),
            3 => (es[q.1[0]].loudness_shortterm(), lacks(Mode::S)),
            4 => {
                let _ = format!("{:?}", es[q.1[0]]);
                (es[q.1[0]].loudness_window(123), false)
            }
            5 | 6 => (EbuR128::loudness_global_multiple(set()), lacks(Mode::I)),
            _ => (EbuR128::loudness_range_multiple(set()), lacks(Mode::LRA) || kinds),
        };
        match (got, refused) {
            (Ok(v), false) => Ok(v.to_bits()),
            (Err(Error::InvalidMode), true) => Ok(1),
            (r, _) => Err(format!("query {} of instances {:?}: {r:?}, where it {} be refused", q.0, q.1, if refused { "must" } else { "must not" })),
        }
    };
    let mut first = vec![];
    for q in &qs {
        first.push(ask(q)?);
    }
    ctx.log(format!("queries (kind, instances): {qs:?}"));
    for _ in 0..ctx.r.range(5, 40) {
        let j = ctx.r.below(qs.len() as u64) as usize;
        let again = ask(&qs[j])?;
        if again != first[j] {
            return Err(format!("query {:?}: {} at first, {} later without any audio in between", qs[j], f64::from_bits(first[j]), f64::from_bits(again)));
        }
        if first[j] == 1 {
            ctx.stats.inc("refused queries among others");
        }
        ctx.stats.inc("queries repeated among others");
    }
    ctx.nontrivial = true;
    Ok(())
}

fn c26(ctx: &mut Ctx) -> R {
    let (ch, rate) = tmpl(ctx, 0.6);
    let mode = pick_mode(&mut ctx.r, Mode::M, Mode::empty());
    ctx.log(format!("new({ch}, {rate}, {mode:?})"));
    let mut a = mk(ch, rate, mode)?;
    let mut b = mk(ch, rate, mode)?;
    let map = a_map(ctx, ch);
    for e in [&mut a, &mut b] {
        e.set_channel_map(&map).map_err(err("set_channel_map"))?;
    }
    let other = {
        let mut o = mk(1, 1200, Mode::all())?;
        let x: Vec<f64> = (0..6000).map(|i| (i as f64 * 0.9).sin()).collect();
        o.add_frames_f64(&x).map_err(err("add_frames"))?;
        o
    };
    let mut m = Model::new(ch, rate, mode).unwrap();
    // numbers of blocks that come back: a short history, resets, chunks of a second
    if ctx.r.chance(0.4) {
        let h = ctx.r.range(400, 12_000) as u32;
        ctx.log(format!("set_max_history({h})"));
        for e in [&mut a, &mut b] {
            e.set_max_history(h).map_err(err("set_max_history"))?;
        }
    }
    let even = ctx.r.chance(0.4);
    let mut changes = ctx.r.chance(0.6);
    let mut sig = Signal::new(&mut ctx.r, ch as usize, rate);
    let mut left: i64 = if mode.contains(Mode::TRUE_PEAK) { 120_000 } else { 400_000 };
    let mut inmax = 0.0f64;
    let broken = if ctx.r.chance(0.1) { 0.05 } else { 0.0 };
    let mut calls = 0;
    while left > 0 && calls < 400 {
        calls += 1;
        let n = if even {
            (rate as u64 * ctx.r.range(1, 4)).min((left as u64 / a.channels() as u64).max(1)) as usize
        } else {
            pick_frames(&mut ctx.r, ctx.dict, &m, (left as u64 / a.channels() as u64).max(1)) as usize
        };
        left -= ((n + 20) * a.channels() as usize) as i64;
        let mut x = sig.next(n);
        if even {
            let g = 10f64.powf(ctx.r.frange(-1.5, 0.0));
            for v in x.iter_mut().flatten() {
                *v *= g;
            }
        }
        let fmt = ctx.r.pick(&FMTS);
        if matches!(fmt, Fmt::F32 | Fmt::F64) && ctx.r.chance(broken) {
            spoil(ctx, &mut x);
        }
        inmax = inmax.max(maxabs(&x));
        let raw = Raw::quantize(&x, fmt);
        let planar = ctx.r.chance(0.5);
        let seed = ctx.r.chance(0.03);
        raw.feed(&mut a, planar, seed).map_err(err("add_frames"))?;
        raw.feed(&mut b, planar, seed).map_err(err("add_frames"))?;
        ctx.log(format!("{} {n} frames, then queries on one of the two", if seed { "seed" } else { "add" }));
        if !seed {
            m.skip(n as u64);
        }
        // any number of queries of any kind on a
        let w = [1, 400, ctx.r.range(1, 3000) as u32, a.max_window() as u32];
        if ctx.r.chance(0.85) {
            left -= a.rate() as i64 * a.channels() as i64 / 8;
            let s0 = snap(&a, &w);
            for _ in 0..ctx.r.range(1, 6) {
                match ctx.r.below(5) {
                    0 => {
                        let _ = format!("{a:?}");
                    }
                    1 => {
                        let _ = EbuR128::loudness_global_multiple([&a, &other].into_iter());
                        let _ = EbuR128::loudness_range_multiple([&other, &a]);
                    }
                    2 => {
                        let _ = a.loudness_window(u32::MAX);
                        let _ = a.true_peak(u32::MAX);
                    }
                    _ => {
                        let s1 = snap(&a, &w);
                        if let Some(d) = s0.diff(&s1) {
                            return Err(format!("asking twice: {d}"));
                        }
                    }
                }
                ctx.stats.inc("rounds of queries");
            }
            let s1 = snap(&a, &w);
            if let Some(d) = s0.diff(&s1) {
                return Err(format!("asking again: {d}"));
            }
        }
        // a copy of the silent one's history would have been asked once only
        if ctx.r.chance(0.1) {
            let t = Tol::tight(a.rate(), inmax);
            same(ctx, &a, &b, ALL, &t).map_err(|e| format!("with and without queries: {e}"))?;
        }
        if changes && ctx.r.chance(if even { 0.15 } else { 0.1 }) {
            match ctx.r.weighted(&[4.0, 1.0, 1.0, 1.0, 1.0]) {
                0 => {
                    ctx.log("reset()".into());
                    a.reset();
                    b.reset();
                    m.reset();
                }
                1 => {
                    let h = ctx.r.logrange(0, 60_000) as u32;
                    ctx.log(format!("set_max_history({h})"));
                    for e in [&mut a, &mut b] {
                        e.set_max_history(h).map_err(err("set_max_history"))?;
                    }
                }
                2 => {
                    let v = ctx.r.range(400, 4000) as u32;
                    ctx.log(format!("set_max_window({v})"));
                    for e in [&mut a, &mut b] {
                        e.set_max_window(v).map_err(err("set_max_window"))?;
                    }
                    m.set_max_window(v);
                }
                3 => {
                    let (c2, r2) = tmpl(ctx, 0.6);
                    ctx.log(format!("change_parameters({c2}, {r2})"));
                    for e in [&mut a, &mut b] {
                        e.change_parameters(c2, r2).map_err(err("change_parameters"))?;
                    }
                    m = Model::new(c2, r2, mode).unwrap();
                    sig = Signal::new(&mut ctx.r, c2 as usize, r2);
                    // (the tolerance is that of one rate)
                    changes = false;
                    let t = Tol::tight(rate.max(r2), inmax);
                    same(ctx, &a, &b, ALL, &t).map_err(|e| format!("with and without queries: {e}"))?;
                }
                _ => {
                    let map = a_map(ctx, a.channels());
                    ctx.log(format!("set_channel_map({map:?})"));
                    for e in [&mut a, &mut b] {
                        e.set_channel_map(&map).map_err(err("set_channel_map"))?;
                    }
                }
            }
            ctx.stats.inc("changes between queries");
        }
    }
    let t = Tol::tight(rate, inmax);
    same(ctx, &a, &b, ALL, &t).map_err(|e| format!("with and without queries: {e}"))?;
    ctx.nontrivial = true;
    Ok(())
}

// ------------------------------------------------------------------ C27

/// What else is measured makes no difference.
fn c27(ctx: &mut Ctx) -> R {
    let (ch, rate) = tmpl(ctx, 0.5);
    let hist = if ctx.r.chance(0.3) { Mode::HISTOGRAM } else { Mode::empty() };
    let some = pick_mode(&mut ctx.r, Mode::M, Mode::HISTOGRAM) | hist;
    let mut more = some | pick_mode(&mut ctx.r, Mode::M, Mode::HISTOGRAM);
    if more == some {
        more = Mode::I | Mode::LRA | Mode::TRUE_PEAK | hist;
    }
    if !some.intersects(Mode::I - Mode::M | Mode::LRA - Mode::S) && ctx.r.chance(0.5) {
        // nothing of what is asked for depends on it
        more ^= Mode::HISTOGRAM;
    }
    let map = a_map(ctx, ch);
    ctx.log(format!("new({ch}, {rate}, {some:?}) and {more:?}, map {map:?}"));
    let mut a = mk(ch, rate, some)?;
    let mut b = mk(ch, rate, more)?;
    for e in [&mut a, &mut b] {
        e.set_channel_map(&map).map_err(err("set_channel_map"))?;
    }
    let mut m = Model::new(ch, rate, some).unwrap();
    let mut sig = Signal::new(&mut ctx.r, ch as usize, rate);
    let mut left: i64 = if more.contains(Mode::TRUE_PEAK) { 200_000 } else { 600_000 };
    let mut inmax = 0.0f64;
    let broken = if ctx.r.chance(0.1) { 0.1 } else { 0.0 };
    let mut ops = 0;
    // now and then very many small calls
    let many = ctx.r.chance(0.03);
    while left > 0 && ops < if many { 4000 } else { 300 } {
        ops += 1;
        match ctx.r.weighted(&[if many { 2000.0 } else { 20.0 }, 0.5, 0.5, 0.4, 0.5, 0.5]) {
            0 | 5 => {
                let seed = ctx.r.chance(0.05);
                let most = (left as u64 / m.channels as u64).max(1);
                let n = if many { ctx.r.logrange(0, most.min(m.s100 as u64)) } else { pick_frames(&mut ctx.r, ctx.dict, &m, most) } as usize;
                left -= ((n + 20) * m.channels) as i64;
                let mut x = sig.next(n);
                let fmt = ctx.r.pick(&FMTS);
                if matches!(fmt, Fmt::F32 | Fmt::F64) && ctx.r.chance(broken) {
                    spoil(ctx, &mut x);
                }
                inmax = inmax.max(maxabs(&x));
                let raw = Raw::quantize(&x, fmt);
                let planar = ctx.r.chance(0.5);
                ctx.log(format!("both: {} {n} frames", if seed { "seed" } else { "add" }));
                for e in [&mut a, &mut b] {
                    raw.feed(e, planar, seed).map_err(err("frames"))?;
                }
                if !seed {
                    m.skip(n as u64);
                }
            }
            1 => {
                let rate = if ctx.r.chance(0.4) { m.rate } else { stable_rate(ctx) };
                let nch = if ctx.r.chance(0.5) { m.channels as u32 } else { pick_channels(&mut ctx.r) };
                let nch = fit(nch, rate);
                if !room(&m, nch, rate) {
                    continue;
                }
                ctx.log(format!("both: change_parameters({nch}, {rate})"));
                for e in [&mut a, &mut b] {
                    e.change_parameters(nch, rate).map_err(err("change_parameters"))?;
                }
                m.change_parameters(nch, rate).unwrap();
                sig = Signal::new(&mut ctx.r, m.channels, m.rate);
            }
            2 => {
                // (from 3 s up, the same for every mode; the first change is one for both)
                let most = (8_000_000_000 / (m.rate as u64 * m.channels as u64)).clamp(8000, 100_000);
                let w = if ctx.r.chance(0.7) { ctx.r.range(3001, 8000) } else { ctx.r.logrange(3001, most) } as u32;
                ctx.log(format!("both: set_max_window({w})"));
                for e in [&mut a, &mut b] {
                    e.set_max_window(w).map_err(err("set_max_window"))?;
                }
                m.set_max_window(w);
            }
            3 => {
                let w = ctx.r.logrange(3000, 1_000_000) as u32;
                ctx.log(format!("both: set_max_history({w})"));
                for e in [&mut a, &mut b] {
                    e.set_max_history(w).map_err(err("set_max_history"))?;
                }
            }
            _ => {
                ctx.log("both: reset()".into());
                a.reset();
                b.reset();
                m.reset();
            }
        }
        if (if many { !ctx.r.chance(0.01) } else { ops % 3 != 0 }) && left > 0 {
            continue;
        }
        let t = Tol::tight(m.rate, inmax);
        let f = |e: &EbuR128| (e.channels(), e.rate(), e.channel_map().to_vec(), e.max_history());
        if f(&a) != f(&b) {
            return Err(format!("configuration: {:?} and {:?}", f(&a), f(&b)));
        }
        same_loudness("loudness_momentary", a.loudness_momentary(), b.loudness_momentary(), &t)?;
        let w = ctx.r.range(1, a.max_window() as u64) as u32;
        same_loudness(&format!("loudness_window({w})"), a.loudness_window(w), b.loudness_window(w), &t)?;
        let mut mask = 0;
        if some.contains(Mode::S) {
            same_loudness("loudness_shortterm", a.loudness_shortterm(), b.loudness_shortterm(), &t)?;
        }
        if some.contains(Mode::I) {
            mask |= G;
        }
        if some.contains(Mode::LRA) {
            mask |= L;
        }
        if some.contains(Mode::SAMPLE_PEAK) {
            mask |= SP;
        }
        if some.contains(Mode::TRUE_PEAK) {
            mask |= TP;
        }
        same(ctx, &a, &b, mask, &t).map_err(|e| format!("{some:?} and {more:?}: {e}"))?;
        if matches!(a.loudness_momentary(), Ok(v) if v.is_finite()) {
            ctx.stats.inc("momentary loudness compared");
        }
    }
    ctx.nontrivial = true;
    Ok(())
}

pub fn add(v: &mut Vec<Prop>) {
    let p = |id, rule, streams, must| Prop { id, level: "exploration", rule, streams, must, assumptions: &[], threads: 0 };
    const TWINS: &str = "a case is one random configuration and sequence of operations on two or more instances of the crate that have to agree; distinct by the hash of its operations, non-trivial if audio was fed and observables were compared";
    v.push(p(
        "C07",
        TWINS,
        vec![
            stream("mixed", 3000, 100_000, c07_mixed),
            stream("low", 3000, 100_000, c07_low),
            stream("peaks", 3000, 100_000, c07_peaks),
        ],
        &["calls with partial audio", "integrated loudness compared", "non-zero loudness ranges compared", "true peaks compared"],
    ));
    v.push(p(
        "C08",
        TWINS,
        vec![stream("formats", 5000, 100_000, c08)],
        &["integrated loudness compared", "momentary loudness compared", "sample peaks compared", "true peaks compared"],
    ));
    v.push(p(
        "C09",
        TWINS,
        vec![
            stream("sum", 4000, 100_000, c09_sum),
            stream("map", 20_000, 400_000, c09_map),
            stream("lockstep", 1500, 50_000, c09_lock),
        ],
        &["weighted sums compared", "maps set or refused"],
    ));
    v.push(p(
        "C10",
        TWINS,
        vec![
            stream("takeover", 4000, 100_000, c10_exact),
            stream("recipe", 800, 20_000, c10_recipe),
            stream("lockstep", 2000, 50_000, c10_lock),
        ],
        &["seeded takeovers compared", "parallel analyses compared", "seed calls"],
    ));
    v.push(p(
        "C11",
        "a case is a set of up to 20 instances, each with a random history, aggregated in several orders and subsets; distinct by the hash of its operations, non-trivial with at least two instances",
        vec![stream("pool", 15_000, 200_000, c11)],
        &["pooled integrated loudness compared", "pooled loudness range compared", "... of histograms and queues together", "album shares compared", "expected errors"],
    ));
    v.push(p(
        "C12",
        TWINS,
        vec![
            stream("mixed", 3000, 100_000, c12_mixed),
            stream("low", 2000, 60_000, c12_low),
            stream("hostile", 2000, 60_000, c12_hostile),
            stream("tracks", 3000, 80_000, c12_tracks),
        ],
        &["tracks compared", "resets compared with new instances", "integrated loudness compared"],
    ));
    v.push(p(
        "C13",
        TWINS,
        vec![stream("stretches", 4000, 100_000, c13), stream("lockstep", 2000, 60_000, c13_lock)],
        &["measurements across reconfigurations compared", "window changes", "rate changes", "channel count changes", "reconfigurations without a change"],
    ));
    v.push(p(
        "C14",
        TWINS,
        vec![stream("late", 6000, 100_000, c14_late), stream("hours", 400, 4000, c14_hours), stream("lockstep", 3500, 50_000, c14_lock), stream("wide", 1500, 50_000, c14_wide)],
        &["limits with effect", "limits without effect", "history changes", "non-zero loudness ranges compared"],
    ));
    v.push(p(
        "C15",
        TWINS,
        vec![
            stream("new", 30_000, 400_000, c15_new),
            stream("modes", 1280, 12_800, c15_modes),
            stream("reject", 4000, 100_000, c15_reject),
            stream("queries", 3000, 100_000, c26_pool),
        ],
        &["configurations rejected", "configurations accepted", "changes of parameters accepted", "changes of parameters rejected", "modes checked", "modes rejected", "calls that must be rejected", "expected errors"],
    ));
    v.push(p(
        "C23",
        TWINS,
        vec![stream("gain", 4000, 100_000, c23), stream("normalise", 1500, 50_000, c23_normalise)],
        &["integrated loudness compared", "peaks compared", "programmes normalised", "loudness ranges compared", "amplifications of very quiet audio"],
    ));
    v.push(p(
        "C24",
        "a case is one random sequence of calls whose results are checked against each other after the calls; distinct by the hash of its operations, non-trivial if audio was fed",
        vec![
            stream("stable", 3000, 100_000, c24_stable),
            stream("low", 3000, 100_000, c24_low),
            stream("hostile", 2000, 50_000, c24_hostile),
            stream("energy", 50, 1000, c24_energy),
        ],
        &["gating invariants checked", "peak invariants checked", "range invariants checked", "window identities checked", "window energies ordered", "other calls in between"],
    ));
    v.push(p(
        "C27",
        TWINS,
        vec![stream("modes", 5000, 150_000, c27)],
        &["momentary loudness compared", "integrated loudness compared", "non-zero loudness ranges compared", "sample peaks compared", "true peaks compared"],
    ));
    v.push(p("C26", TWINS, vec![stream("queries", 5000, 150_000, c26), stream("pool", 3000, 100_000, c26_pool)], &["rounds of queries", "queries repeated among others", "refused queries among others", "changes between queries", "integrated loudness compared"]));
}
