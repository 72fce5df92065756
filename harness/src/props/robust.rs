//! Memory safety, floating point environment, independence, memory use.
use super::meta::mk;
use super::stream;
use crate::alloc;
use crate::gen::*;
use crate::model::{default_map, rate_stable, Model};
use crate::rng::Rng;
use crate::rt::{Ctx, Prop};
use crate::session::*;
use crate::twin::*;
use ebur128::{Channel, EbuR128, Error, Mode};

type R = Result<(), String>;

fn err(what: &'static str) -> impl Fn(Error) -> String {
    move |e| format!("{what}: {e}")
}

// ------------------------------------------------------------------ C16

/// a sample that nobody would call audio
fn wild(r: &mut Rng) -> f64 {
    match r.below(12) {
        0 => f64::from_bits(r.u64()),
        1 => f32::from_bits(r.u64() as u32) as f64,
        2 => f64::NAN,
        3 => f64::INFINITY,
        4 => f64::NEG_INFINITY,
        5 => f64::MAX,
        6 => 5e-324,
        7 => -0.0,
        8 => 1e300,
        9 => i32::MIN as f64,
        _ => r.frange(-1.0, 1.0),
    }
}

fn ask_everything(ctx: &mut Ctx, es: &[EbuR128]) {
    for e in es {
        let _ = (e.loudness_global(), e.relative_threshold(), e.gating_block_count_and_energy(), e.loudness_range());
        let _ = (e.loudness_momentary(), e.loudness_shortterm());
        for _ in 0..3 {
            let w = match ctx.r.below(5) {
                0 => u32::MAX,
                1 => 0,
                2 => ctx.r.u64() as u32,
                3 => e.max_window() as u32,
                _ => ctx.r.range(0, e.max_window() as u64 + 10) as u32,
            };
            let _ = e.loudness_window(w);
        }
        for c in [0, 1, e.channels() - 1, e.channels(), u32::MAX, ctx.r.u64() as u32, bad_channel(ctx, e.channels())] {
            let _ = (e.sample_peak(c), e.prev_sample_peak(c), e.true_peak(c), e.prev_true_peak(c));
        }
        ctx.stats.add("queries", 33);
    }
    let _ = EbuR128::loudness_global_multiple(es.iter());
    let _ = EbuR128::loudness_range_multiple(es);
}

fn wild_feed(ctx: &mut Ctx, e: &mut EbuR128, n: usize, fit: bool) {
    let ch = e.channels() as usize;
    let total = if fit { n * ch } else { n * ch + ctx.r.below(2 * ch as u64) as usize };
    let seed = ctx.r.chance(0.15);
    let calm = ctx.r.chance(0.6);
    let mut rr = Rng::new(ctx.r.u64());
    let v = |r: &mut Rng| if calm { r.frange(-1.2, 1.2) } else { wild(r) };
    macro_rules! go {
        ($f:expr, $ai:ident, $si:ident, $ap:ident, $sp:ident) => {{
            if ctx.r.chance(0.5) {
                let d: Vec<_> = (0..total).map(|_| $f(&mut rr)).collect();
                let _ = if seed { e.$si(&d) } else { e.$ai(&d) };
            } else {
                let planes = if fit { ch } else { ctx.r.below(ch as u64 + 3) as usize };
                let d: Vec<Vec<_>> = (0..planes)
                    .map(|_| {
                        let k = if fit || ctx.r.chance(0.9) { n } else { ctx.r.below(n as u64 + 2) as usize };
                        (0..k).map(|_| $f(&mut rr)).collect()
                    })
                    .collect();
                let p: Vec<&[_]> = d.iter().map(|c: &Vec<_>| &c[..]).collect();
                let _ = if seed { e.$sp(&p) } else { e.$ap(&p) };
            }
        }};
    }
    match ctx.r.below(4) {
        0 => go!(|r: &mut Rng| (v(r) * 32768.0) as i16, add_frames_i16, seed_frames_i16, add_frames_planar_i16, seed_frames_planar_i16),
        1 => go!(|r: &mut Rng| (v(r) * 2147483648.0) as i32, add_frames_i32, seed_frames_i32, add_frames_planar_i32, seed_frames_planar_i32),
        2 => go!(|r: &mut Rng| v(r) as f32, add_frames_f32, seed_frames_f32, add_frames_planar_f32, seed_frames_planar_f32),
        _ => go!(|r: &mut Rng| v(r), add_frames_f64, seed_frames_f64, add_frames_planar_f64, seed_frames_planar_f64),
    }
    ctx.stats.inc("feeds");
}

const ROOM: usize = 64 << 20;

fn wild_ops(ctx: &mut Ctx, es: &mut Vec<EbuR128>, ops: u64, mut budget: i64) {
    let mut fed = 0;
    for _ in 0..ops {
        if budget <= 0 {
            break;
        }
        let k = ctx.r.below(es.len() as u64) as usize;
        match ctx.r.weighted(&[10.0, 4.0, 1.0, 1.0, 1.0, 1.0, 0.7, 0.5, 0.3]) {
            0 => {
                let e = &mut es[k];
                let ch = e.channels() as usize;
                let m = Model::clock(e.channels(), e.rate());
                let n = pick_frames(&mut ctx.r, ctx.dict, &m, (budget as u64 / ch as u64).max(1)) as usize;
                budget -= ((n + 20) * ch) as i64;
                let fits = ctx.r.chance(0.85);
                ctx.log(format!("#{k}: feed {n} frames{}", if fits { "" } else { " that do not fit" }));
                wild_feed(ctx, e, n, fits);
                fed += n;
            }
            1 => {
                ask_everything(ctx, es);
                budget -= 2000;
            }
            2 => {
                let e = &mut es[k];
                let i = if ctx.r.chance(0.9) { ctx.r.below(e.channels() as u64) as u32 } else { ctx.r.u64() as u32 };
                let c = ctx.r.pick(&ALL_CHANNELS);
                ctx.log(format!("#{k}: set_channel({i}, {c:?})"));
                let _ = e.set_channel(i, c);
            }
            3 => {
                let e = &mut es[k];
                let n = if ctx.r.chance(0.8) { e.channels() as u64 } else { ctx.r.below(70) };
                let m: Vec<Channel> = (0..n).map(|_| ctx.r.pick(&ALL_CHANNELS)).collect();
                ctx.log(format!("#{k}: set_channel_map({m:?})"));
                let _ = e.set_channel_map(&m);
            }
            4 => {
                let rate = if ctx.r.chance(0.7) { low_rate(ctx) } else if ctx.r.chance(0.8) { any_rate(ctx) } else { ctx.r.u64() as u32 };
                let ch = if ctx.r.chance(0.9) { pick_channels(&mut ctx.r) } else { ctx.r.u64() as u32 };
                let e = &mut es[k];
                ctx.log(format!("#{k}: change_parameters({ch}, {rate})"));
                let (r, n) = alloc::refusing(ROOM, || e.change_parameters(ch, rate));
                let _ = r;
                ctx.stats.add("memory refused", n);
            }
            5 => {
                let w = match ctx.r.below(4) {
                    0 => ctx.r.u64() as u32,
                    1 => ctx.r.pick(&[u32::MAX, 1 << 31, 0, 1 << 24]),
                    _ => ctx.r.logrange(1, 20_000) as u32,
                };
                let e = &mut es[k];
                ctx.log(format!("#{k}: set_max_window({w})"));
                let (r, n) = alloc::refusing(ROOM, || e.set_max_window(w));
                let _ = r;
                budget -= 20_000;
                ctx.stats.add("memory refused", n);
            }
            6 => {
                let w = match ctx.r.below(4) {
                    0 => ctx.r.u64() as u32,
                    1 => ctx.r.pick(&[u32::MAX, u32::MAX - 1, 1 << 31, i32::MAX as u32, 0, 1, 1 << 24]),
                    _ => ctx.r.logrange(0, 100_000) as u32,
                };
                ctx.log(format!("#{k}: set_max_history({w})"));
                let _ = es[k].set_max_history(w);
            }
            7 => {
                ctx.log(format!("#{k}: reset()"));
                es[k].reset();
            }
            _ => {
                let _ = format!("{:?}", es[k]);
            }
        }
    }
    ask_everything(ctx, es);
    if fed > 0 {
        ctx.nontrivial = true;
    }
}

/// Thousands of calls of few frames
fn small_feeds(ctx: &mut Ctx, es: &mut [EbuR128]) {
    let calls = ctx.r.range(1000, 8000);
    ctx.log(format!("{calls} small feeds"));
    for i in 0..calls {
        let k = ctx.r.below(es.len() as u64) as usize;
        let e = &mut es[k];
        let ch = e.channels() as usize;
        let n = ctx.r.range(0, (24 / ch as u64).max(2)) as usize;
        let x: Vec<f32> = (0..n * ch).map(|i| ((i * 37 % 64) as f32) / 64.0 - 0.5).collect();
        let _ = e.add_frames_f32(&x);
        if i % 500 == 0 {
            ask_everything(ctx, es);
        }
    }
}

fn c16_calls(ctx: &mut Ctx) -> R {
    let mut es = vec![];
    for _ in 0..ctx.r.range(1, 3) {
        let rate = if ctx.r.chance(0.5) { low_rate(ctx) } else { any_rate(ctx) };
        let ch = pick_channels(&mut ctx.r);
        let ch = fit(ch, rate);
        let mode = pick_mode(&mut ctx.r, Mode::M, Mode::empty());
        ctx.log(format!("#{}: new({ch}, {rate}, {mode:?})", es.len()));
        es.push(mk(ch, rate, mode)?);
    }
    match ctx.r.weighted(&[20.0, 1.0, 1.0]) {
        // very many calls
        1 => {
            ctx.stats.inc("sequences of thousands of calls");
            small_feeds(ctx, &mut es);
            wild_ops(ctx, &mut es, 120, 50_000)
        }
        // much audio in single calls
        2 => {
            ctx.stats.inc("sequences of huge calls");
            let e = &mut es[0];
            let ch = ctx.r.range(1, 2) as u32;
            let rate = if ctx.r.chance(0.7) { low_rate(ctx) } else { any_rate(ctx) };
            let _ = e.change_parameters(ch, rate);
            let n = ctx.r.range(200_000, if e.mode().contains(Mode::TRUE_PEAK) { 400_000 } else { 1_500_000 }) as usize;
            ctx.log(format!("#0: change_parameters({ch}, {rate}), feed {n} frames"));
            wild_feed(ctx, e, n / ch as usize, true);
            wild_ops(ctx, &mut es, 60, 50_000)
        }
        _ => wild_ops(ctx, &mut es, 120, 150_000),
    }
    Ok(())
}

/// Every low rate (where the buffer and block sizes are least regular), some windows
fn c16_rates(ctx: &mut Ctx) -> R {
    let rate = 16 + (ctx.idx % 4000) as u32;
    let ch = ctx.r.range(1, 3) as u32;
    let mode = if ctx.r.chance(0.8) { Mode::all() } else { pick_mode(&mut ctx.r, Mode::M, Mode::empty()) };
    ctx.log(format!("new({ch}, {rate}, {mode:?})"));
    let mut e = mk(ch, rate, mode)?;
    if ctx.r.chance(0.6) {
        let w = ctx.r.range(3000, 9999) as u32;
        ctx.log(format!("set_max_window({w})"));
        e.set_max_window(w).map_err(err("set_max_window"))?;
    }
    let mut es = vec![e];
    let n = rate as usize * 11;
    let one = ctx.r.chance(0.5);
    let mut left = n;
    while left > 0 {
        let k = if one { left } else { (ctx.r.logrange(1, left as u64) as usize).max(n / 40).min(left) };
        left -= k;
        wild_feed(ctx, &mut es[0], k, true);
        ask_everything(ctx, &es);
    }
    wild_ops(ctx, &mut es, 6, 20_000);
    ctx.stats.inc("low rates driven around the audio buffer");
    ctx.nontrivial = true;
    Ok(())
}

/// The interpolators for every number of channels, in all formats
fn c16_channels(ctx: &mut Ctx) -> R {
    let ch = 1 + (ctx.idx % 64) as u32;
    let rate = ctx.r.pick(&[44100, 48000, 95999, 96000, 191999, 192000, 1000]);
    let mode = Mode::TRUE_PEAK | pick_mode(&mut ctx.r, Mode::M, Mode::empty());
    ctx.log(format!("new({ch}, {rate}, {mode:?})"));
    let mut es = vec![mk(ch, rate, mode)?];
    for _ in 0..30 {
        let n = ctx.r.logrange(1, 100) as usize;
        wild_feed(ctx, &mut es[0], n, true);
    }
    ask_everything(ctx, &es);
    es[0].reset();
    wild_feed(ctx, &mut es[0], 60, true);
    ctx.stats.inc("channel counts driven through the interpolator");
    ctx.nontrivial = true;
    Ok(())
}

// ------------------------------------------------------------------ C17

#[cfg(target_arch = "x86_64")]
mod fpu {
    use std::arch::asm;
    #[inline(always)]
    pub fn get() -> u32 {
        let mut v = 0u32;
        unsafe { asm!("stmxcsr [{}]", in(reg) &mut v, options(nostack)) };
        v
    }
    #[inline(always)]
    pub fn set(v: u32) {
        unsafe { asm!("ldmxcsr [{}]", in(reg) &v, options(nostack)) };
    }
    #[inline(always)]
    pub fn x87() -> u16 {
        let mut v = 0u16;
        unsafe { asm!("fnstcw [{}]", in(reg) &mut v, options(nostack)) };
        v
    }
    /// all but the sticky flags
    pub const CONTROL: u32 = 0xffc0;
}

#[cfg(target_arch = "x86_64")]
struct Watch {
    mx: u32,
    cw: u16,
    bad: Option<String>,
    calls: u64,
}

#[cfg(target_arch = "x86_64")]
impl Watch {
    /// f in this environment, and the environment afterwards
    fn call<T>(&mut self, what: &str, f: impl FnOnce() -> T) -> T {
        let saved = fpu::get();
        fpu::set(self.mx);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
        let (mx, cw) = (fpu::get(), fpu::x87());
        fpu::set(saved);
        self.calls += 1;
        if mx & fpu::CONTROL != self.mx & fpu::CONTROL && self.bad.is_none() {
            self.bad = Some(format!("MXCSR {:#06x} before {what}, {:#06x} after", self.mx & fpu::CONTROL, mx & fpu::CONTROL));
        }
        if cw != self.cw && self.bad.is_none() {
            self.bad = Some(format!("x87 control word {:#06x} before {what}, {cw:#06x} after", self.cw));
        }
        match r {
            Ok(v) => v,
            Err(e) => std::panic::resume_unwind(e),
        }
    }
}

#[cfg(target_arch = "x86_64")]
fn c17(ctx: &mut Ctx) -> R {
    let (rate, ch) = (if ctx.r.chance(0.7) { low_rate(ctx) } else { stable_rate(ctx) }, pick_channels(&mut ctx.r));
    let ch = fit(ch, rate);
    let mode = pick_mode(&mut ctx.r, Mode::M, Mode::empty());
    // exceptions masked; rounding, flush to zero and denormals are zero as the caller likes
    let nearest = ctx.r.chance(0.5);
    let rc = if nearest { 0 } else { ctx.r.below(4) as u32 };
    let mx = 0x1f80 | rc << 13 | (ctx.r.below(2) as u32) << 15 | (ctx.r.below(2) as u32) << 6;
    ctx.log(format!("MXCSR {mx:#x}, new({ch}, {rate}, {mode:?})"));
    let mut w = Watch { mx, cw: fpu::x87(), bad: None, calls: 0 };
    let mut e = w.call("new", || EbuR128::new(ch, rate, mode)).map_err(err("new"))?;
    let mut plain = mk(ch, rate, mode)?;
    let mut m = Model::new(ch, rate, mode).unwrap();
    let mut sig = Signal::new(&mut ctx.r, ch as usize, rate);
    let mut left: i64 = if mode.contains(Mode::TRUE_PEAK) { 60_000 } else { 150_000 };
    let mut most = 60;
    // now and then very many small calls, or few huge ones
    let style = ctx.r.weighted(&[20.0, 1.0, 1.0]);
    match style {
        1 => most = ctx.r.pick(&[300, 2000, 6000]),
        2 => left *= 10,
        _ => (),
    }
    let mut inmax = 0.0f64;
    let mut ops = 0;
    let mut hostile = false;
    while left > 0 && ops < most {
        ops += 1;
        match ctx.r.weighted(&[10.0, 3.0, 1.0, 0.6, 0.6, 0.4, 0.4]) {
            0 => {
                let all = (left as u64 / m.channels as u64).max(1);
                let n = match style {
                    1 => ctx.r.below(8),
                    2 => all,
                    _ => pick_frames(&mut ctx.r, ctx.dict, &m, all),
                } as usize;
                left -= ((n + 20) * m.channels) as i64;
                let mut x = sig.next(n);
                if ctx.r.chance(0.05) {
                    hostile_values(ctx, &mut x);
                    hostile = true;
                }
                for v in x.iter().flatten() {
                    if v.abs() > inmax {
                        inmax = v.abs();
                    }
                }
                let raw = Raw::quantize(&x, ctx.r.pick(&FMTS));
                let (planar, seed) = (ctx.r.chance(0.5), ctx.r.chance(0.15));
                ctx.log(format!("{} {n} frames", if seed { "seed" } else { "add" }));
                w.call(if seed { "seed_frames" } else { "add_frames" }, || raw.feed(&mut e, planar, seed)).map_err(err("frames"))?;
                raw.feed(&mut plain, planar, seed).map_err(err("frames"))?;
                if !seed {
                    m.skip(n as u64);
                }
            }
            1 => {
                w.call("a query", || {
                    let _ = (e.loudness_global(), e.relative_threshold(), e.gating_block_count_and_energy(), e.loudness_range());
                });
                w.call("a query", || {
                    let _ = (e.loudness_momentary(), e.loudness_shortterm(), e.loudness_window(300), e.loudness_window(u32::MAX));
                });
                w.call("a query", || {
                    let _ = (e.sample_peak(0), e.true_peak(0), e.prev_true_peak(99), e.prev_sample_peak(0));
                    let _ = (EbuR128::loudness_global_multiple([&e].into_iter()), EbuR128::loudness_range_multiple([&e]));
                });
            }
            2 => {
                // refused
                let n = m.channels * 7 + 1;
                let bad = vec![0.5f64; n];
                let r = w.call("refused add_frames", || e.add_frames_f64(&bad));
                if m.channels > 1 && r.is_ok() {
                    return Err("odd number of samples accepted".into());
                }
                if m.channels == 1 {
                    plain.add_frames_f64(&bad).map_err(err("frames"))?;
                    m.skip(n as u64);
                }
                let r = w.call("refused change_parameters", || e.change_parameters(0, 0));
                if r.is_ok() {
                    return Err("change_parameters(0, 0) accepted".into());
                }
            }
            3 => {
                let rate = if ctx.r.chance(0.7) { low_rate(ctx) } else { stable_rate(ctx) };
                let ch = fit(pick_channels(&mut ctx.r), rate);
                if ch as u64 * rate as u64 * m.window as u64 / 1000 > 16_000_000 {
                    continue;
                }
                ctx.log(format!("change_parameters({ch}, {rate})"));
                w.call("change_parameters", || e.change_parameters(ch, rate)).map_err(err("change_parameters"))?;
                plain.change_parameters(ch, rate).map_err(err("change_parameters"))?;
                m.change_parameters(ch, rate).unwrap();
                sig = Signal::new(&mut ctx.r, m.channels, m.rate);
            }
            4 => {
                let cap = (2_000_000 / (m.rate as u64 * m.channels as u64)).clamp(5, 100) * 1000;
                let v = if ctx.r.chance(0.7) { ctx.r.range(0, 5000) } else { ctx.r.logrange(1, cap) } as u32;
                w.call("set_max_window", || e.set_max_window(v)).map_err(err("set_max_window"))?;
                plain.set_max_window(v).map_err(err("set_max_window"))?;
                m.set_max_window(v);
            }
            5 => {
                w.call("reset", || e.reset());
                plain.reset();
                m.reset();
                hostile = false;
                inmax = 0.0;
            }
            _ => {
                let v = if ctx.r.chance(0.5) { ctx.r.logrange(1, 1 << 32) - 1 } else { ctx.r.range(3000, 50000) } as u32;
                w.call("set_max_history", || e.set_max_history(v)).map_err(err("set_max_history"))?;
                plain.set_max_history(v).map_err(err("set_max_history"))?;
                let c = pick_channel_type(ctx, m.channels);
                if e.channel_map()[0] != Channel::Unused {
                    w.call("set_channel", || e.set_channel(0, c)).map_err(err("set_channel"))?;
                    plain.set_channel(0, c).map_err(err("set_channel"))?;
                }
            }
        }
        if let Some(b) = w.bad.take() {
            return Err(b);
        }
        if rc == 0 && !hostile && rate_stable(m.rate) && ctx.r.chance(0.3) {
            // the measurement is not affected by how the caller treats denormals
            let mut t = Tol::tight(m.rate, inmax);
            t.tp += 1e-36;
            let saved = fpu::get();
            fpu::set(mx);
            let r = same(ctx, &e, &plain, G | W | L | TP, &t);
            fpu::set(saved);
            r.map_err(|e| format!("with and without flush to zero: {e}"))?;
        }
    }
    w.call("drop", || drop(e));
    if let Some(b) = w.bad.take() {
        return Err(b);
    }
    ctx.stats.add("calls watched", w.calls);
    ctx.stats.inc(&format!("environments with rounding mode {rc}"));
    ctx.nontrivial = true;
    Ok(())
}

#[cfg(not(target_arch = "x86_64"))]
fn c17(_: &mut Ctx) -> R {
    Ok(())
}

// ------------------------------------------------------------------ C19

/// What an instance is put through
#[derive(Clone)]
enum Op {
    Feed { raw: Raw, planar: bool, seed: bool },
    Window(u32),
    History(u32),
    Params(u32, u32),
    Reset,
    Ask,
}

fn script(ctx: &mut Ctx, budget: i64) -> (u32, u32, Mode, Vec<Op>) {
    let rate = if ctx.r.chance(0.7) { low_rate(ctx) } else { stable_rate(ctx) };
    let ch = fit(pick_channels(&mut ctx.r), rate);
    let mode = pick_mode(&mut ctx.r, Mode::M, Mode::empty());
    let mut m = Model::clock(ch, rate);
    let mut sig = Signal::new(&mut ctx.r, ch as usize, rate);
    let mut left = budget;
    let mut v = vec![];
    let mut desc = String::new();
    while left > 0 && v.len() < 40 {
        match ctx.r.weighted(&[14.0, 2.0, 0.5, 0.4, 0.5, 0.4]) {
            0 => {
                let n = pick_frames(&mut ctx.r, ctx.dict, &m, (left as u64 / m.channels as u64).max(1)) as usize;
                left -= ((n + 20) * m.channels) as i64;
                let raw = Raw::quantize(&sig.next(n), ctx.r.pick(&FMTS));
                desc += &format!("{n} ");
                let seed = ctx.r.chance(0.1);
                if !seed {
                    m.skip(n as u64);
                }
                v.push(Op::Feed { raw, planar: ctx.r.chance(0.5), seed });
            }
            1 => v.push(Op::Ask),
            2 => {
                let w = ctx.r.range(0, 6000) as u32;
                v.push(Op::Window(w));
            }
            3 => v.push(Op::History(ctx.r.logrange(1, 100_000) as u32)),
            4 => {
                let rate = if ctx.r.chance(0.7) { low_rate(ctx) } else { stable_rate(ctx) };
                let ch = fit(pick_channels(&mut ctx.r), rate);
                m.change_parameters(ch, rate).unwrap();
                sig = Signal::new(&mut ctx.r, m.channels, m.rate);
                desc += &format!("({ch},{rate}) ");
                v.push(Op::Params(ch, rate));
            }
            _ => {
                v.push(Op::Reset);
                m.reset();
                desc += "reset ";
            }
        }
    }
    ctx.log(format!("new({ch}, {rate}, {mode:?}): {desc}"));
    (ch, rate, mode, v)
}

fn apply(e: &mut EbuR128, o: &Op) -> R {
    match o {
        Op::Feed { raw, planar, seed } => raw.feed(e, *planar, *seed).map_err(err("frames")),
        Op::Window(w) => e.set_max_window(*w).map_err(err("set_max_window")),
        Op::History(w) => e.set_max_history(*w).map_err(err("set_max_history")),
        Op::Params(c, r) => e.change_parameters(*c, *r).map_err(err("change_parameters")),
        Op::Reset => {
            e.reset();
            Ok(())
        }
        Op::Ask => {
            let _ = snap(e, &[100, 400]);
            Ok(())
        }
    }
}

struct Force<T>(T);
unsafe impl<T> Send for Force<T> {}
unsafe impl<T> Sync for Force<T> {}
impl<T> Force<T> {
    fn get(&self) -> &T {
        &self.0
    }
    fn get_mut(&mut self) -> &mut T {
        &mut self.0
    }
}

mod auto {
    use std::marker::PhantomData;
    pub struct Is<T>(pub PhantomData<T>);
    #[allow(dead_code)]
    pub trait No {
        const SEND: bool = false;
        const SYNC: bool = false;
    }
    impl<T> No for Is<T> {}
    pub struct Is2<T>(pub PhantomData<T>);
    impl<T> No for Is2<T> {}
    impl<T: Send> Is<T> {
        pub const SEND: bool = true;
    }
    impl<T: Sync> Is2<T> {
        pub const SYNC: bool = true;
    }
}

/// Interleaved on one thread, and each alone
fn c19_interleaved(ctx: &mut Ctx) -> R {
    let k = ctx.r.range(2, 6) as usize;
    let scripts: Vec<_> = (0..k).map(|_| script(ctx, 60_000)).collect();
    let mut alone = vec![];
    for (ch, rate, mode, ops) in &scripts {
        let mut e = mk(*ch, *rate, *mode)?;
        for o in ops {
            apply(&mut e, o)?;
        }
        alone.push(snap(&e, &[77, 400]));
    }
    let mut es = vec![];
    for (ch, rate, mode, _) in &scripts {
        es.push(mk(*ch, *rate, *mode)?);
    }
    let mut pos = vec![0usize; k];
    loop {
        let open: Vec<usize> = (0..k).filter(|i| pos[*i] < scripts[*i].3.len()).collect();
        if open.is_empty() {
            break;
        }
        let i = ctx.r.pick(&open);
        apply(&mut es[i], &scripts[i].3[pos[i]])?;
        pos[i] += 1;
        if ctx.r.chance(0.1) {
            // somewhere else in memory
            let e = es.remove(i);
            let b = Box::new(e);
            es.insert(i, *b);
        }
    }
    for i in 0..k {
        if let Some(d) = alone[i].diff(&snap(&es[i], &[77, 400])) {
            return Err(format!("instance {i} alone and among others: {d}"));
        }
        ctx.stats.inc("instances compared with themselves alone");
    }
    ctx.nontrivial = true;
    Ok(())
}

/// On threads, moved between them, and queried by several at once
fn c19_threads(ctx: &mut Ctx) -> R {
    if !auto::Is::<EbuR128>::SEND || !auto::Is2::<EbuR128>::SYNC {
        return Err("instances cannot be moved to or shared with other threads (Send, Sync)".into());
    }
    let small = cfg!(feature = "slow");
    let k = ctx.r.range(2, if small { 4 } else { 6 }) as usize;
    let scripts: Vec<_> = (0..k).map(|_| script(ctx, if small { 8_000 } else { 40_000 })).collect();
    let mut alone = vec![];
    for (ch, rate, mode, ops) in &scripts {
        let mut e = mk(*ch, *rate, *mode)?;
        for o in ops {
            apply(&mut e, o)?;
        }
        alone.push(snap(&e, &[77, 400]));
    }
    let mut es = vec![];
    for (ch, rate, mode, _) in &scripts {
        es.push(Force(mk(*ch, *rate, *mode)?));
    }
    // first halves on one set of threads, second halves on another
    let start = std::sync::Barrier::new(k);
    for half in 0..2 {
        let res: Vec<R> = std::thread::scope(|sc| {
            let hs: Vec<_> = es
                .iter_mut()
                .zip(&scripts)
                .enumerate()
                .map(|(i, (e, s))| {
                    let start = &start;
                    sc.spawn(move || {
                        let e = e.get_mut();
                        start.wait();
                        let mid = s.3.len() / 2;
                        let ops = if half == 0 { &s.3[..mid] } else { &s.3[mid..] };
                        for (j, o) in ops.iter().enumerate() {
                            apply(e, o)?;
                            if (i + j) % 3 == 0 {
                                std::thread::yield_now();
                            }
                        }
                        Ok(())
                    })
                })
                .collect();
            hs.into_iter()
                .map(|h| match h.join() {
                    Ok(r) => r,
                    Err(_) => Err("panic in the library on a thread".into()),
                })
                .collect()
        });
        for r in res {
            r?;
        }
    }
    // all of them queried by several threads at once
    let readers = 4;
    let start = std::sync::Barrier::new(readers);
    let es = &es;
    let got: Vec<Vec<Snap>> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..readers)
            .map(|t| {
                let start = &start;
                sc.spawn(move || {
                    start.wait();
                    let mut v: Vec<(usize, Snap)> = vec![];
                    for j in 0..es.len() {
                        let i = (j + t) % es.len();
                        v.push((i, snap(es[i].get(), &[77, 400])));
                        let _ = EbuR128::loudness_global_multiple(es.iter().map(|e| e.get()));
                        let _ = EbuR128::loudness_range_multiple(es.iter().map(|e| e.get()));
                    }
                    v.sort_by_key(|x| x.0);
                    v.into_iter().map(|x| x.1).collect()
                })
            })
            .collect();
        hs.into_iter().filter_map(|h| h.join().ok()).collect()
    });
    if got.len() != readers {
        return Err("panic in the library on a thread".into());
    }
    for s in &got {
        for i in 0..es.len() {
            if let Some(d) = alone[i].diff(&s[i]) {
                return Err(format!("instance {i} alone and on threads: {d}"));
            }
            ctx.stats.inc("instances compared with themselves alone");
        }
    }
    ctx.stats.add("threads", (2 * k + readers) as u64);
    ctx.nontrivial = true;
    Ok(())
}

/// The same few queries over and over on all processors
fn c19_hammer(ctx: &mut Ctx) -> R {
    let slow = cfg!(feature = "slow");
    let k = ctx.r.range(2, 6) as usize;
    let mut es = vec![];
    for _ in 0..k {
        let mode = pick_mode(&mut ctx.r, Mode::I | Mode::LRA, Mode::TRUE_PEAK);
        let rate = low_rate(ctx).min(4000);
        let ch = ctx.r.range(1, 2) as u32;
        let mut e = mk(ch, rate, mode)?;
        let secs = ctx.r.logrange(3, if slow { 10 } else { 60 });
        for _ in 0..secs {
            let g = 10f64.powf(ctx.r.frange(-2.5, 0.0));
            let x: Vec<f64> = (0..rate * ch).map(|_| ctx.r.frange(-g, g)).collect();
            e.add_frames_f64(&x).map_err(err("add_frames"))?;
        }
        ctx.log(format!("instance {}: {ch} channels, {rate} Hz, {mode:?}, {secs} s", es.len()));
        es.push(Force(e));
    }
    let es = &es;
    let ask = |q: u64, i: usize| -> [u64; 2] {
        let e = es[i].get();
        let set = || (0..k).filter(move |j| (q >> 8 >> j) & 1 == 1).map(|j| es[j].get());
        let f = |r: Result<f64, Error>| match r {
            Ok(v) => [v.to_bits(), 0],
            Err(e) => [e as u64, 1],
        };
        match q & 0xff {
            0 => f(e.loudness_range()),
            1 => f(e.loudness_global()),
            2 => f(e.relative_threshold()),
            3 => match e.gating_block_count_and_energy() {
                Some((n, v)) => [n, v.to_bits()],
                None => [0, 0],
            },
            4 => f(e.loudness_shortterm()),
            5 => f(e.loudness_window(77)),
            6 => f(EbuR128::loudness_global_multiple(set())),
            _ => f(EbuR128::loudness_range_multiple(set())),
        }
    };
    // a thread each, with the kind of query it makes, mostly the same kind
    let main = ctx.r.below(8);
    let threads = if slow { 3 } else { ctx.r.range(2, 8) as usize };
    let tasks: Vec<(u64, usize)> = (0..threads)
        .map(|t| {
            let q = if ctx.r.chance(0.75) { main } else { ctx.r.below(8) };
            (q | ctx.r.below(1 << k) << 8, if ctx.r.chance(0.7) { t % k } else { ctx.r.below(k as u64) as usize })
        })
        .collect();
    let want: Vec<[u64; 2]> = tasks.iter().map(|(q, i)| ask(*q, *i)).collect();
    ctx.log(format!("queries (kind, instance): {tasks:x?}"));
    let time = std::time::Duration::from_millis(if slow { 20 } else { 60 });
    let start = std::sync::Barrier::new(threads);
    let res: Vec<Result<u64, String>> = std::thread::scope(|sc| {
        let hs: Vec<_> = tasks
            .iter()
            .zip(&want)
            .map(|((q, i), want)| {
                let (start, ask) = (&start, &ask);
                sc.spawn(move || {
                    start.wait();
                    let begin = std::time::Instant::now();
                    let mut n = 0;
                    while n < 8 || (begin.elapsed() < time && n < 100_000) {
                        let got = ask(*q, *i);
                        if got != *want {
                            return Err(format!(
                                "query {} of instance {i}: {:?} alone, {:?} while other threads ask too",
                                q & 0xff,
                                want.map(|v| (v, f64::from_bits(v))),
                                got.map(|v| (v, f64::from_bits(v)))
                            ));
                        }
                        n += 1;
                    }
                    Ok(n)
                })
            })
            .collect();
        hs.into_iter()
            .map(|h| match h.join() {
                Ok(r) => r,
                Err(_) => Err("panic in the library on a thread".into()),
            })
            .collect()
    });
    for r in res {
        ctx.stats.add("queries made at the same time", r?);
    }
    ctx.nontrivial = true;
    Ok(())
}

/// Instances that are as alike as can be without being the same: of the same kind, with as much
/// audio, with the same beginnings and endings, or with the same parts in another order; asked in
/// turn, alone and together, replaced by others in the same place
fn c19_alike(ctx: &mut Ctx) -> R {
    let rate = low_rate(ctx).min(2500);
    let ch = ctx.r.range(1, 2) as u32;
    let mode = pick_mode(&mut ctx.r, Mode::I | Mode::LRA, Mode::TRUE_PEAK);
    let k = ctx.r.range(2, 5) as usize;
    let second = rate as usize * ch as usize;
    let noise: Vec<f64> = (0..second).map(|_| ctx.r.frange(-1.0, 1.0)).collect();
    // (gain, seconds)
    let mut begin = vec![];
    if ctx.r.chance(0.7) {
        // the extremes: those are the same for all
        begin.push((0.04, ctx.r.range(4, 6) as usize));
        begin.push((1.0, ctx.r.range(4, 6) as usize));
        if ctx.r.chance(0.5) {
            begin.reverse();
        }
    }
    let own = ctx.r.range(1, 5) as usize;
    let common: Vec<(f64, usize)> = (0..own).map(|_| (10f64.powf(ctx.r.frange(-1.2, -0.1)), ctx.r.range(1, 6) as usize)).collect();
    let end: Vec<(f64, usize)> = if ctx.r.chance(0.5) { vec![(0.3, ctx.r.range(4, 8) as usize)] } else { vec![] };
    let shuffled = ctx.r.chance(0.4);
    ctx.log(format!("{k} instances new({ch}, {rate}, {mode:?}), {begin:?}, then {common:?} {}, then {end:?}", if shuffled { "in any order" } else { "at other levels" }));
    let make = |ctx: &mut Ctx| -> Result<(EbuR128, Model), String> {
        let mut e = mk(ch, rate, mode)?;
        let mut m = Model::new(ch, rate, mode).unwrap();
        let mut mid = common.clone();
        if shuffled {
            for i in (1..mid.len()).rev() {
                mid.swap(i, ctx.r.below(i as u64 + 1) as usize);
            }
        } else {
            for p in &mut mid {
                p.0 = 10f64.powf(ctx.r.frange(-1.2, -0.1));
            }
        }
        for (g, secs) in begin.iter().chain(&mid).chain(&end) {
            let x: Vec<f64> = noise.iter().map(|v| g * v).collect();
            let planes: Vec<Vec<f64>> = (0..ch as usize).map(|c| x.iter().skip(c).step_by(ch as usize).copied().collect()).collect();
            for _ in 0..*secs {
                e.add_frames_f64(&x).map_err(err("add_frames"))?;
                m.add(&planes).unwrap();
            }
        }
        Ok((e, m))
    };
    let mut all = vec![];
    for _ in 0..k {
        all.push(make(ctx)?);
    }
    for round in 0..ctx.r.range(6, 25) {
        let i = ctx.r.below(k as u64) as usize;
        if ctx.r.chance(0.15) {
            ctx.log(format!("instance {i} makes room for another one"));
            let (e, m) = make(ctx)?;
            if ctx.r.chance(0.5) {
                // first the new one, then the old one goes
                all[i] = (e, m);
            } else {
                // in the same place, and maybe with the same allocations
                drop(std::mem::replace(&mut all[i].0, mk(1, 16, Mode::M)?));
                all[i] = make(ctx)?;
            }
        }
        let mask = ctx.r.pick(&[G, L, W, G | L, L, G | W | L | SP]);
        let (e, m) = &all[i];
        if ctx.r.chance(0.1) {
            std::thread::scope(|s| s.spawn(|| compare(ctx, e, m, mask)).join().unwrap())
        } else {
            compare(ctx, e, m, mask)
        }
        .map_err(|x| format!("instance {i} in round {round}: {x}"))?;
        if ctx.r.chance(0.2) {
            // (not judged here: C11 does)
            let _ = EbuR128::loudness_range_multiple(all.iter().map(|(e, _)| e));
            let _ = EbuR128::loudness_global_multiple(all.iter().rev().map(|(e, _)| e));
        }
        ctx.stats.inc("queries of instances much alike");
    }
    ctx.nontrivial = true;
    Ok(())
}

/// Instances created, reconfigured and used briefly, by many threads at once
fn c19_storm(ctx: &mut Ctx) -> R {
    let rates = [48000u32, 44100, 32000, 96000, 8000, 192000, 11025];
    let kinds: Vec<(u32, u32, Mode)> = (0..ctx.r.range(2, 4))
        .map(|_| (ctx.r.range(1, 3) as u32, ctx.r.pick(&rates), pick_mode(&mut ctx.r, Mode::M | Mode::TRUE_PEAK, Mode::empty())))
        .collect();
    let x: Vec<f32> = (0..180).map(|i| (i as f32 * 0.7).sin()).collect();
    // created at once, or by way of another kind
    let run = |k: usize, via: Option<usize>| -> Result<Snap, String> {
        let (ch, rate, mode) = kinds[k];
        let mut e;
        match via {
            None => e = mk(ch, rate, mode)?,
            Some(v) => {
                e = mk(kinds[v].0, kinds[v].1, mode)?;
                e.change_parameters(ch, rate).map_err(err("change_parameters"))?;
            }
        }
        e.add_frames_f32(&x[..60 * ch as usize]).map_err(err("add_frames"))?;
        Ok(snap(&e, &[77, 400]))
    };
    let mut alone = vec![];
    for k in 0..kinds.len() {
        alone.push(run(k, None)?);
    }
    let (threads, rounds) = if cfg!(feature = "slow") { (3, 10) } else { (8, 150) };
    let seed = ctx.r.u64();
    ctx.log(format!("{kinds:?} on {threads} threads, {rounds} times, seed {seed}"));
    let start = std::sync::Barrier::new(threads);
    let res: Vec<R> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..threads)
            .map(|t| {
                let (start, alone, kinds, run) = (&start, &alone, &kinds, &run);
                sc.spawn(move || {
                    let mut r = Rng::new(seed.wrapping_add(t as u64));
                    start.wait();
                    for _ in 0..rounds {
                        let k = r.below(kinds.len() as u64) as usize;
                        let via = if r.chance(0.3) { Some(r.below(kinds.len() as u64) as usize) } else { None };
                        let s = run(k, via)?;
                        if let Some(d) = alone[k].diff(&s) {
                            return Err(format!("instance of {:?} alone and with others on other threads: {d}", kinds[k]));
                        }
                    }
                    Ok(())
                })
            })
            .collect();
        hs.into_iter()
            .map(|h| match h.join() {
                Ok(r) => r,
                Err(_) => Err("panic in the library on a thread".into()),
            })
            .collect()
    });
    for r in res {
        r?;
    }
    ctx.stats.add("instances created side by side", (threads * rounds) as u64);
    ctx.nontrivial = true;
    Ok(())
}

// ------------------------------------------------------------------ C20

fn buffer_bytes(ch: u32, rate: u32, window: usize) -> usize {
    (rate as u64 * window as u64 / 1000) as usize * ch as usize * 8
}

fn c20(ctx: &mut Ctx) -> R {
    // large enough for the window to be larger than everything else
    let rate = ctx.r.pick(&[44100, 48000, 88200, 96000, 192000, 22050]);
    let ch = fit(pick_channels(&mut ctx.r), rate);
    let mode = pick_mode(&mut ctx.r, Mode::S, Mode::empty());
    ctx.log(format!("new({ch}, {rate}, {mode:?})"));
    let fail = |ctx: &mut Ctx, what: &str, ch: u32, rate: u32, window: usize| -> usize {
        // (the window alone does not fit)
        let b = buffer_bytes(ch, rate, window);
        ctx.log(format!("no {b} bytes for {what}"));
        b.min(1 << 30)
    };
    let b = fail(ctx, "new", ch, rate, 3000);
    let (r, n) = alloc::refusing(b, || EbuR128::new(ch, rate, mode).map(|_| ()));
    if n == 0 {
        return Err(format!("new({ch}, {rate}, {mode:?}) did without {b} bytes for its window: the check sees no failure"));
    }
    if r != Err(Error::NoMem) {
        return Err(format!("new without enough memory: {r:?}"));
    }
    ctx.stats.add("refused allocations", n);
    let mut a = mk(ch, rate, mode)?;
    let mut t = mk(ch, rate, mode)?;
    let mut m = Model::new(ch, rate, mode).unwrap();
    let mut sig = Signal::new(&mut ctx.r, ch as usize, rate);
    let mut inmax = 0.0f64;
    let mut left: i64 = if mode.contains(Mode::TRUE_PEAK) { 80_000 } else { 250_000 };
    let mut ops = 0;
    while left > 0 && ops < 40 {
        ops += 1;
        let what = ctx.r.below(5);
        match what {
            0 | 1 => {
                let n = pick_frames(&mut ctx.r, ctx.dict, &m, (left as u64 / m.channels as u64).max(1)) as usize;
                left -= ((n + 20) * m.channels) as i64;
                let x = sig.next(n);
                for v in x.iter().flatten() {
                    inmax = inmax.max(v.abs());
                }
                let raw = Raw::quantize(&x, ctx.r.pick(&FMTS));
                ctx.log(format!("add {n} frames"));
                raw.feed(&mut a, false, false).map_err(err("frames"))?;
                raw.feed(&mut t, false, false).map_err(err("frames"))?;
                m.skip(n as u64);
            }
            2 | 3 => {
                let w = match ctx.r.below(3) {
                    0 => ctx.r.range(m.window as u64 + 1, m.window as u64 + 3000) as u32,
                    1 => ctx.r.range(3000, 8000) as u32,
                    // more than there ever is
                    _ => ctx.r.range(1 << 28, u32::MAX as u64) as u32,
                };
                if w as usize == m.window {
                    continue;
                }
                let b = fail(ctx, &format!("set_max_window({w})"), m.channels as u32, m.rate, w as usize);
                let before = snap(&a, &[400, 1000, 2999]);
                let (r, n) = alloc::refusing(b, || a.set_max_window(w));
                if r != Err(Error::NoMem) {
                    return Err(format!("set_max_window({w}) without enough memory: {r:?}"));
                }
                if let Some(d) = before.diff(&snap(&a, &[400, 1000, 2999])) {
                    return Err(format!("set_max_window({w}) failed and changed {d}"));
                }
                ctx.stats.add("refused allocations", n);
                if ctx.r.chance(0.3) && w < 10_000 {
                    ctx.log("and now with memory".into());
                    a.set_max_window(w).map_err(err("set_max_window"))?;
                    t.set_max_window(w).map_err(err("set_max_window"))?;
                    m.set_max_window(w);
                }
            }
            _ => {
                let r2 = ctx.r.pick(&[44100, 48000, 96000, 32000]);
                let c2 = fit(pick_channels(&mut ctx.r), r2);
                if c2 as usize == m.channels && r2 == m.rate {
                    continue;
                }
                let b = fail(ctx, &format!("change_parameters({c2}, {r2})"), c2, r2, m.window);
                let before = snap(&a, &[400, 1000, 2999]);
                let (r, n) = alloc::refusing(b, || a.change_parameters(c2, r2));
                if r != Err(Error::NoMem) {
                    return Err(format!("change_parameters({c2}, {r2}) without enough memory: {r:?}"));
                }
                if let Some(d) = before.diff(&snap(&a, &[400, 1000, 2999])) {
                    return Err(format!("change_parameters({c2}, {r2}) failed and changed {d}"));
                }
                ctx.stats.add("refused allocations", n);
                if ctx.r.chance(0.3) {
                    ctx.log("and now with memory".into());
                    a.change_parameters(c2, r2).map_err(err("change_parameters"))?;
                    t.change_parameters(c2, r2).map_err(err("change_parameters"))?;
                    m.change_parameters(c2, r2).unwrap();
                    sig = Signal::new(&mut ctx.r, m.channels, m.rate);
                }
            }
        }
        let tol = Tol::tight(m.rate, inmax);
        if ctx.r.chance(0.4) {
            same(ctx, &a, &t, ALL, &tol).map_err(|e| format!("with and without failed calls: {e}"))?;
        }
    }
    let tol = Tol::tight(m.rate, inmax);
    same(ctx, &a, &t, ALL, &tol).map_err(|e| format!("with and without failed calls: {e}"))?;
    ctx.nontrivial = true;
    Ok(())
}

// ------------------------------------------------------------------ C21

const SLACK: i64 = 96 * 1024;

fn c21_bounded(ctx: &mut Ctx) -> R {
    let rate = ctx.r.pick(&[1000u32, 1200, 1300, 1600, 16, 100]);
    let ch = ctx.r.range(1, 3) as u32;
    let kind = ctx.r.below(4);
    let hist = if kind == 0 { Mode::HISTOGRAM } else { Mode::empty() };
    let mode = if kind == 3 {
        // nothing that needs a history
        ctx.r.pick(&[Mode::M, Mode::S, Mode::SAMPLE_PEAK, Mode::S | Mode::SAMPLE_PEAK])
    } else {
        pick_mode(&mut ctx.r, Mode::I, Mode::HISTOGRAM | Mode::TRUE_PEAK) | hist
    };
    let base = alloc::live();
    let mut e = mk(ch, rate, mode)?;
    let h = if kind == 1 { ctx.r.logrange(3000, 300_000) } else { u64::MAX };
    if kind == 1 {
        e.set_max_history(h as u32).map_err(err("set_max_history"))?;
    }
    let mut window = e.max_window();
    if ctx.r.chance(0.3) {
        window = ctx.r.range(3000, 20_000) as usize;
        e.set_max_window(window as u32).map_err(err("set_max_window"))?;
    }
    let loud = ctx.r.chance(0.9);
    let minutes = if rate > 500 { ctx.r.range(10, 40) } else { ctx.r.range(100, 400) };
    let chunk = ctx.r.logrange(rate as u64 / 10 + 1, rate as u64 * 60) as usize;
    ctx.log(format!("new({ch}, {rate}, {mode:?}), history {h}, window {window}, {minutes} min in chunks of {chunk} frames, loud {loud}"));
    let amp = if loud { 0.5 } else { 1e-7 };
    let mut rr = Rng::new(ctx.r.u64());
    let data: Vec<f32> = (0..chunk * ch as usize).map(|_| (rr.frange(-amp, amp)) as f32).collect();
    let s100 = (rate as i64 + 5) / 10;
    let none = if kind == 3 { 2 * 5000 * 8 } else { 0 };
    let audio = none + ((rate as i64 * window as i64 / 1000).max(s100 * (window as i64 / 100)) + s100) * ch as i64 * 8;
    let mut frames = 0i64;
    let total = minutes as i64 * 60 * rate as i64;
    let mut k = 0;
    while frames < total {
        let before = alloc::live();
        let (r, grow) = alloc::growth(|| e.add_frames_f32(&data));
        let after = alloc::live();
        r.map_err(err("add_frames"))?;
        frames += chunk as i64;
        k += 1;
        let live = after - base - (data.capacity() * 4) as i64;
        let blocks = if loud || !rate_stable(rate) { frames / s100 } else { 0 };
        // vectors double
        let list = |n: i64| 2 * n.max(5000) * 8;
        let bound = audio
            + SLACK
            + match kind {
                // (the initial room for a history nothing is added to)
                0 | 3 => 0,
                1 => list(blocks.min(h as i64 / 100 + 1)) + list((blocks / 10).min(h as i64 / 3000 + 1)),
                _ => list(blocks) + list(blocks / 10),
            };
        // what else of the measurement of the list above
        let held = live - ctx_bytes();
        if held > bound {
            return Err(format!("{held} bytes in use after {frames} frames ({blocks} blocks), expected at most {bound}"));
        }
        if grow > bound + SLACK {
            return Err(format!("add_frames took {grow} bytes meanwhile"));
        }
        ctx.stats.max("bytes in use", held as f64);
        if kind == 0 || kind == 3 {
            // all memory is there from the start
            if k > 1 && after != before {
                return Err(format!("memory in use changed by {} bytes in add_frames in {mode:?} mode", after - before));
            }
            ctx.stats.inc("adds without a change of memory");
        }
        // (seldom later, where the lists are long)
        if ctx.r.chance(0.1f64.min(300.0 / k as f64)) {
            let before = alloc::live();
            let (_, grow) = alloc::growth(|| {
                let _ = (e.loudness_global(), e.relative_threshold(), e.gating_block_count_and_energy(), e.loudness_range());
                let _ = (e.loudness_momentary(), e.loudness_shortterm(), e.loudness_window(400), e.sample_peak(0));
                let _ = EbuR128::loudness_global_multiple([&e, &e].into_iter());
                let _ = EbuR128::loudness_range_multiple([&e, &e]);
            });
            let after = alloc::live();
            if after != before {
                return Err(format!("queries left {} bytes behind", after - before));
            }
            let most = SLACK
                + match kind {
                    0 | 3 => 0,
                    _ => 4 * list(blocks / 10),
                };
            if grow > most {
                return Err(format!("queries took {grow} bytes meanwhile, expected at most {most}"));
            }
            ctx.stats.inc("queries watched");
        }
    }
    let before = alloc::live();
    e.reset();
    let after = alloc::live();
    if after > before {
        return Err(format!("reset left {} bytes behind", after - before));
    }
    drop(data);
    drop(e);
    let l = alloc::live() - base;
    if l - ctx_bytes() > 16 * 1024 {
        return Err(format!("{l} bytes still in use after the instance is gone"));
    }
    ctx.stats.inc("programmes fed to their end");
    ctx.nontrivial = true;
    Ok(())
}

/// the monitor's own notes, roughly
fn ctx_bytes() -> i64 {
    8 * 1024
}

/// Reconfiguration, reset and errors leave nothing behind.
fn c21_cycles(ctx: &mut Ctx) -> R {
    let start = alloc::live();
    let mut worst = 0;
    {
        let rate = low_rate(ctx);
        let ch = ctx.r.range(1, 20) as u32;
        let mode = pick_mode(&mut ctx.r, Mode::M, Mode::empty());
        let w0 = ctx.r.range(3000, 9000) as u32;
        let (r2, c2) = (low_rate(ctx), ctx.r.range(1, 20) as u32);
        let mut e = mk(ch, rate, mode)?;
        let mut e2 = mk(ch, rate, mode)?;
        let n = 20 * ch as usize;
        let n2 = 20 * c2 as usize;
        let x = vec![0.25f32; n.max(n2)];
        let mut first = None;
        for i in 0..12 {
            e.change_parameters(c2, r2).map_err(err("change_parameters"))?;
            e.add_frames_f32(&x[..n2]).map_err(err("add_frames"))?;
            e.set_max_window(w0 + 1).map_err(err("set_max_window"))?;
            e.seed_frames_f32(&x[..n2]).map_err(err("seed_frames"))?;
            let _ = e.change_parameters(0, r2);
            let _ = e.add_frames_f32(&x[..1]);
            let _ = (e.loudness_global(), e.loudness_range(), e.loudness_window(500), e.true_peak(0));
            e.change_parameters(ch, rate).map_err(err("change_parameters"))?;
            e.set_max_window(w0).map_err(err("set_max_window"))?;
            e.add_frames_f32(&x[..n]).map_err(err("add_frames"))?;
            e.set_max_history(5000 + i).map_err(err("set_max_history"))?;
            e.reset();
            e2.reset();
            let l = alloc::live();
            match first {
                None if i == 1 => first = Some(l),
                Some(f) if l > f => worst = worst.max(l - f),
                _ => (),
            }
        }
        ctx.log(format!("{ch} channels at {rate}, {mode:?}, and {c2} at {r2}, 12 cycles"));
    }
    if worst > 0 {
        return Err(format!("{worst} more bytes in use after each of some cycles of reconfiguration"));
    }
    let l = alloc::live() - start;
    if l > 16 * 1024 {
        return Err(format!("{l} bytes still in use after the instances are gone"));
    }
    ctx.stats.inc("cycles of reconfiguration");
    ctx.nontrivial = true;
    Ok(())
}

/// Memory that calls of the library took and did not give back
struct Meter {
    held: i64,
}

impl Meter {
    fn call<T>(&mut self, f: impl FnOnce() -> T) -> (T, i64) {
        let b = alloc::live();
        let r = f();
        let d = alloc::live() - b;
        self.held += d;
        (r, d)
    }
}

/// The life of an instance, from new to drop; what is left of it
fn c21_life(ctx: &mut Ctx) -> Result<i64, String> {
    let mut t = Meter { held: 0 };
    let style = ctx.r.weighted(&[8.0, 1.0, 1.0]);
    let pick = |ctx: &mut Ctx| if style == 2 || ctx.r.chance(0.5) { low_rate(ctx) } else { other_rate(ctx) };
    let rate = pick(ctx);
    let ch = if style == 2 { few_channels(ctx) } else { fit(pick_channels(&mut ctx.r), rate) };
    let mode = pick_mode(&mut ctx.r, Mode::M, Mode::empty());
    ctx.log(format!("new({ch}, {rate}, {mode:?})"));
    let e = t.call(|| EbuR128::new(ch, rate, mode)).0;
    let mut e = e.map_err(err("new"))?;
    let mut m = Model::clock(ch, rate);
    let mut sig = Signal::new(&mut ctx.r, ch as usize, rate);
    let bounded = mode.contains(Mode::HISTOGRAM) || !mode.contains(Mode::I) && !mode.contains(Mode::LRA);
    let tp = if mode.contains(Mode::TRUE_PEAK) { 4 } else { 1 };
    // (calls, samples, weights)
    let (ops, mut left) = match style {
        0 => (60, 120_000 / tp),
        1 => (4000, 200_000 / tp),
        _ => (40, 3_000_000 / tp),
    };
    let rare = if style == 1 { 0.01 } else { 1.0 };
    let w = [12.0, 3.0, 1.0 * rare, 1.0 * rare, 1.0 * rare, 1.0 * rare, 0.7 * rare, 0.7 * rare];
    let mut calls = 0;
    let mut most = 0;
    // audio is made once; calls take parts of it
    let pool: Vec<Raw> = FMTS.iter().map(|f| Raw::quantize(&sig.next(if style == 2 { (left as usize / 4 / ch as usize).max(1) } else { 3 * rate as usize / ch as usize + 20 }), *f)).collect();
    let mut nch = ch;
    for _ in 0..ops {
        if left <= 0 {
            break;
        }
        match ctx.r.weighted(&w) {
            0 => {
                let n = if style == 1 { ctx.r.logrange(1, 100) } else if style == 2 && ctx.r.chance(0.1) { left as u64 / nch as u64 } else { pick_frames(&mut ctx.r, ctx.dict, &m, (left as u64 / nch as u64).max(1)) } as usize;
                let seed = ctx.r.chance(0.1);
                let planar = ctx.r.chance(0.5);
                let raw = if nch == ch {
                    let r = ctx.r.pick(&[0usize, 1, 2, 3]);
                    let n = n.min(pool[r].frames());
                    pool[r].slice(0, n)
                } else {
                    Raw::quantize(&vec![vec![0.3; n]; nch as usize], ctx.r.pick(&FMTS))
                };
                let n = raw.frames();
                left -= ((n + 20) * nch as usize) as i64;
                if ctx.r.chance(0.05) {
                    // refused
                    let (_, d) = t.call(|| e.add_frames_f32(&vec![0.5; 2 * nch as usize + 1]));
                    if d > 0 && bounded && nch > 2 {
                        return Err(format!("a refused call took {d} bytes"));
                    }
                    if nch <= 1 {
                        m.skip(3);
                    }
                }
                let (r, d) = t.call(|| raw.feed(&mut e, planar, seed));
                r.map_err(err("frames"))?;
                if !seed {
                    m.skip(n as u64);
                }
                calls += 1;
                // whatever room calls need is there after some
                if bounded && d > 0 && calls > 4 && n <= most {
                    return Err(format!("{} of {n} frames took {d} bytes in {mode:?} mode", if seed { "seeding" } else { "adding" }));
                }
                most = most.max(n);
                ctx.stats.inc("calls metered");
            }
            1 => {
                // (windows take their time at high rates)
                left -= (e.rate() as u64 * nch as u64 / 100) as i64;
                let i = ctx.r.below(nch as u64 + 1) as u32;
                let win = ctx.r.logrange(1, 5000) as u32;
                t.call(|| {
                    let _ = (e.loudness_global(), e.relative_threshold(), e.gating_block_count_and_energy(), e.loudness_range());
                    let _ = (e.loudness_momentary(), e.loudness_shortterm(), e.loudness_window(win), e.loudness_window(u32::MAX));
                    let _ = (e.sample_peak(i), e.prev_sample_peak(i), e.true_peak(i), e.prev_true_peak(i));
                    let _ = EbuR128::loudness_global_multiple([&e, &e].into_iter());
                    let _ = EbuR128::loudness_range_multiple([&e, &e]);
                    let _ = (e.channel_map().len(), e.max_history(), e.max_window());
                });
            }
            2 => {
                let c = pick_channel_type(ctx, nch as usize);
                let i = ctx.r.below(nch as u64 + 1) as u32;
                let _ = t.call(|| e.set_channel(i, c));
                let map: Vec<_> = (0..nch).map(|_| pick_channel_type(ctx, nch as usize)).collect();
                let _ = t.call(|| e.set_channel_map(&map));
                let _ = t.call(|| e.set_channel_map(&map[1..]));
            }
            3 => {
                let r2 = if ctx.r.chance(0.4) { e.rate() } else { pick(ctx) };
                let c2 = if ctx.r.chance(0.5) { ch } else { fit(pick_channels(&mut ctx.r), r2) };
                if c2 as u64 * r2 as u64 * e.max_window() as u64 / 1000 > 8_000_000 {
                    continue;
                }
                ctx.log(format!("change_parameters({c2}, {r2})"));
                t.call(|| e.change_parameters(c2, r2)).0.map_err(err("change_parameters"))?;
                let _ = t.call(|| e.change_parameters(0, r2));
                let _ = t.call(|| e.change_parameters(c2, 0));
                nch = c2;
                m.change_parameters(c2, r2).unwrap();
                calls = 0;
                most = 0;
            }
            4 => {
                let cap = (2_000_000 / (e.rate() as u64 * nch as u64)).clamp(4, 1000) * 1000;
                let v = ctx.r.logrange(1, cap) as u32;
                ctx.log(format!("set_max_window({v})"));
                t.call(|| e.set_max_window(v)).0.map_err(err("set_max_window"))?;
                m.set_max_window(v);
                calls = 0;
                most = 0;
            }
            5 => {
                let v = if ctx.r.chance(0.2) { ctx.r.pick(&[u32::MAX as u64, 0, 1 << 31, 1 << 24]) } else { ctx.r.logrange(1, 1 << 28) } as u32;
                ctx.log(format!("set_max_history({v})"));
                t.call(|| e.set_max_history(v)).0.map_err(err("set_max_history"))?;
                m.set_max_history(v);
            }
            6 => {
                let b = calls > 4 && bounded;
                let (_, d) = t.call(|| e.reset());
                if d > 0 && b {
                    return Err(format!("reset took {d} bytes in {mode:?} mode"));
                }
                m.reset();
            }
            _ => {
                let _ = t.call(|| format!("{e:?}").len());
            }
        }
    }
    ctx.log(format!("{calls} calls"));
    t.call(|| drop(e));
    Ok(t.held)
}

/// What is left after the same life was lived again and again
fn c21_lives(ctx: &mut Ctx) -> R {
    let r0 = ctx.r.clone();
    let mut left = 0;
    for _ in 0..3 {
        ctx.r = r0.clone();
        left = c21_life(ctx)?;
        if left <= 0 {
            break;
        }
    }
    if left > 0 {
        return Err(format!("{left} bytes still in use after the instance is gone, each time"));
    }
    ctx.stats.inc("lives without anything left");
    ctx.nontrivial = true;
    Ok(())
}

pub fn add(v: &mut Vec<Prop>) {
    v.push(Prop {
        id: "C16",
        level: "exploration",
        rule: "a case is a random sequence of calls with hostile arguments and samples on up to three instances, watched by debug assertions, overflow checks, AddressSanitizer or Miri; distinct by the hash of its calls, non-trivial if it fed samples",
        streams: vec![stream("calls", 12000, 400_000, c16_calls), stream("rates", 12000, 120_000, c16_rates), stream("channels", 3840, 30_000, c16_channels)],
        must: &["feeds", "queries", "low rates driven around the audio buffer", "channel counts driven through the interpolator"],
        assumptions: &["only executions that were driven are judged; memory beyond 1 GiB per allocation is refused by the harness"],
        threads: 0,
    });
    v.push(Prop {
        id: "C17",
        level: "exploration",
        rule: "a case is a random sequence of calls, each made under a random setting of the SSE control register and with the register compared after it; distinct by the hash of its calls, non-trivial if audio was fed",
        streams: vec![stream("mxcsr", 15000, 200_000, c17)],
        must: if cfg!(target_arch = "x86_64") {
            &["calls watched", "comparisons of two instances", "environments with rounding mode 0", "environments with rounding mode 3"]
        } else {
            &[]
        },
        assumptions: &["floating point exceptions stay masked"],
        threads: 0,
    });
    v.push(Prop {
        id: "C19",
        level: "exploration",
        rule: "a case is a set of 2 to 6 instances with random scripts of calls, run alone, interleaved on one thread, or on threads; distinct by the hash of the scripts",
        streams: vec![stream("threads", 1500, 60_000, c19_threads), stream("interleaved", 1500, 60_000, c19_interleaved), stream("storm", 1000, 40_000, c19_storm), stream("hammer", 250, 10_000, c19_hammer), stream("alike", 400, 20_000, c19_alike)],
        must: &["instances compared with themselves alone", "threads", "instances created side by side"],
        assumptions: &["interleavings are those the scheduler and random yields produce"],
        threads: if cfg!(feature = "slow") { 4 } else { 0 },
    });
    v.push(Prop {
        id: "C20",
        level: "fault_enumeration",
        rule: "a case is a random sequence of calls in which every call that needs a new audio window is first made with that allocation refused; distinct by the hash of its calls",
        streams: vec![stream("refuse", 3000, 100_000, c20)],
        must: &["refused allocations", "comparisons of two instances"],
        assumptions: &["only the audio window is allocated fallibly; small allocations that fail abort, as usual in Rust"],
        threads: 0,
    });
    v.push(Prop {
        id: "C21",
        level: "exploration",
        rule: "a case is a programme of up to hours fed to an instance under a counting allocator, or a sequence of reconfigurations; distinct by the hash of its parameters",
        streams: vec![stream("bounded", 1200, 20_000, c21_bounded), stream("cycles", 3000, 50_000, c21_cycles), stream("lives", 4000, 100_000, c21_lives)],
        must: &["lives without anything left", "adds without a change of memory", "queries watched", "programmes fed to their end", "cycles of reconfiguration"],
        assumptions: &["the bounds leave room for vectors that double"],
        threads: 0,
    });
    let _ = default_map;
}
