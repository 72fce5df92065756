//! Metamorphic comparisons: two instances of the crate that have to agree.
use crate::gen::*;
use crate::model::{undb, Model};
use crate::rt::Ctx;
use crate::session::*;
use ebur128::{EbuR128, Error};

#[derive(Clone, Copy, Debug)]
pub struct Tol {
    /// relative, amplitudes of measured loudness
    pub rel: f64,
    /// absolute, amplitudes
    pub abs: f64,
    /// absolute, true peaks
    pub tp: f64,
}

impl Tol {
    /// the same samples went through the same filter, only grouped differently; `inmax` is the
    /// largest sample and leaves room for differently ordered floating point operations
    pub fn tight(rate: u32, inmax: f64) -> Tol {
        Tol { rel: 1e-10, abs: inmax * crate::model::noise_gain(rate) * 0.02 + 1e-150, tp: 1e-6 * inmax + 1e-37 }
    }
}

pub fn same_loudness(what: &str, a: Result<f64, Error>, b: Result<f64, Error>, t: &Tol) -> Result<(), String> {
    match (a, b) {
        (Err(x), Err(y)) if x == y => Ok(()),
        (Ok(x), Ok(y)) => {
            if x == y || (x.is_nan() && y.is_nan()) {
                return Ok(());
            }
            let e = |l: f64| if l == f64::NEG_INFINITY { 0.0 } else { undb(l).sqrt() };
            let d = (e(x) - e(y)).abs();
            if d <= t.rel * e(x).max(e(y)) + t.abs {
                Ok(())
            } else {
                Err(format!("{what}: {x} and {y} LUFS"))
            }
        }
        _ => Err(format!("{what}: {a:?} and {b:?}")),
    }
}

pub fn same_value(what: &str, a: Result<f64, Error>, b: Result<f64, Error>, tol: f64) -> Result<(), String> {
    match (a, b) {
        (Err(x), Err(y)) if x == y => Ok(()),
        (Ok(x), Ok(y)) if x == y || (x.is_nan() && y.is_nan()) || (x - y).abs() <= tol => Ok(()),
        _ => Err(format!("{what}: {a:?} and {b:?}")),
    }
}

pub const NOPREV: u32 = 64;

/// All observables of the mask agree.
pub fn same(ctx: &mut Ctx, a: &EbuR128, b: &EbuR128, mask: u32, t: &Tol) -> Result<(), String> {
    if mask & META != 0 {
        let f = |e: &EbuR128| (e.mode(), e.channels(), e.rate(), e.channel_map().to_vec(), e.max_window(), e.max_history());
        if f(a) != f(b) {
            return Err(format!("configuration: {:?} and {:?}", f(a), f(b)));
        }
    }
    if mask & G != 0 {
        let ht = Tol { abs: 0.0, rel: t.rel.max(1e-10), tp: 0.0 };
        same_loudness("loudness_global", a.loudness_global(), b.loudness_global(), &ht)?;
        same_loudness("relative_threshold", a.relative_threshold(), b.relative_threshold(), &ht)?;
        match (a.gating_block_count_and_energy(), b.gating_block_count_and_energy()) {
            (None, None) => (),
            (Some(x), Some(y)) if x.0 == y.0 && ((x.1 - y.1).abs() <= 4.0 * ht.rel * x.1 || x.1.is_nan() && y.1.is_nan() || x.1 == y.1) => (),
            (x, y) => return Err(format!("gating_block_count_and_energy: {x:?} and {y:?}")),
        }
        if matches!(a.loudness_global(), Ok(v) if v.is_finite()) {
            ctx.stats.inc("integrated loudness compared");
        }
    }
    if mask & W != 0 {
        same_loudness("loudness_momentary", a.loudness_momentary(), b.loudness_momentary(), t)?;
        same_loudness("loudness_shortterm", a.loudness_shortterm(), b.loudness_shortterm(), t)?;
        let top = a.max_window() as u64;
        for w in [top, ctx.r.range(1, top), ctx.r.logrange(1, top)] {
            same_loudness(&format!("loudness_window({w})"), a.loudness_window(w as u32), b.loudness_window(w as u32), t)?;
        }
        if matches!(a.loudness_momentary(), Ok(v) if v.is_finite()) {
            ctx.stats.inc("momentary loudness compared");
        }
    }
    if mask & L != 0 {
        same_value("loudness_range", a.loudness_range(), b.loudness_range(), 100.0 * t.rel + 1e-9)?;
        if matches!(a.loudness_range(), Ok(v) if v > 0.0) {
            ctx.stats.inc("non-zero loudness ranges compared");
        }
    }
    for c in 0..a.channels() {
        if mask & SP != 0 {
            same_value(&format!("sample_peak({c})"), a.sample_peak(c), b.sample_peak(c), 0.0)?;
            if mask & NOPREV == 0 {
                same_value(&format!("prev_sample_peak({c})"), a.prev_sample_peak(c), b.prev_sample_peak(c), 0.0)?;
            }
            if matches!(a.sample_peak(c), Ok(v) if v > 0.0) {
                ctx.stats.inc("sample peaks compared");
            }
        }
        if mask & TP != 0 {
            same_value(&format!("true_peak({c})"), a.true_peak(c), b.true_peak(c), t.tp)?;
            if mask & NOPREV == 0 {
                same_value(&format!("prev_true_peak({c})"), a.prev_true_peak(c), b.prev_true_peak(c), t.tp)?;
            }
            if matches!(a.true_peak(c), Ok(v) if v > 0.0) {
                ctx.stats.inc("true peaks compared");
            }
        }
    }
    ctx.stats.inc("comparisons of two instances");
    Ok(())
}

/// Everything observable about an instance, for "nothing changed"
#[derive(Clone, Debug)]
pub struct Snap {
    vals: Vec<(String, Result<f64, Error>)>,
    gate: Option<(u64, f64)>,
    map: Vec<ebur128::Channel>,
}

pub fn snap(e: &EbuR128, windows: &[u32]) -> Snap {
    let mut v: Vec<(String, Result<f64, Error>)> = vec![
        ("loudness_global".into(), e.loudness_global()),
        ("relative_threshold".into(), e.relative_threshold()),
        ("loudness_momentary".into(), e.loudness_momentary()),
        ("loudness_shortterm".into(), e.loudness_shortterm()),
        ("loudness_range".into(), e.loudness_range()),
        ("channels".into(), Ok(e.channels() as f64)),
        ("rate".into(), Ok(e.rate() as f64)),
        ("max_window".into(), Ok(e.max_window() as f64)),
        ("max_history".into(), Ok(e.max_history() as f64)),
        ("mode".into(), Ok(e.mode().bits() as f64)),
    ];
    for w in windows {
        v.push((format!("loudness_window({w})"), e.loudness_window(*w)));
    }
    for c in 0..e.channels() + 1 {
        v.push((format!("sample_peak({c})"), e.sample_peak(c)));
        v.push((format!("prev_sample_peak({c})"), e.prev_sample_peak(c)));
        v.push((format!("true_peak({c})"), e.true_peak(c)));
        v.push((format!("prev_true_peak({c})"), e.prev_true_peak(c)));
    }
    Snap { vals: v, gate: e.gating_block_count_and_energy(), map: e.channel_map().to_vec() }
}

impl Snap {
    /// first difference
    pub fn diff(&self, o: &Snap) -> Option<String> {
        for (a, b) in self.vals.iter().zip(&o.vals) {
            let same = match (a.1, b.1) {
                (Ok(x), Ok(y)) => x == y || x.is_nan() && y.is_nan(),
                (x, y) => x == y,
            };
            if !same {
                return Some(format!("{}: {:?} before, {:?} after", a.0, a.1, b.1));
            }
        }
        if self.vals.len() != o.vals.len() {
            return Some("number of channels".into());
        }
        let f = |g: Option<(u64, f64)>| g.map(|g| (g.0, g.1.to_bits()));
        if f(self.gate) != f(o.gate) {
            return Some(format!("gating_block_count_and_energy: {:?} before, {:?} after", self.gate, o.gate));
        }
        if self.map != o.map {
            return Some(format!("channel map: {:?} before, {:?} after", self.map, o.map));
        }
        None
    }
}

/// How much audio, in frames, for a budget of samples
pub fn audio(ctx: &mut Ctx, rate: u32, ch: u32, budget: u64, max_s: f64) -> usize {
    let lim = (budget / ch as u64).min((rate as f64 * max_s) as u64).max(1);
    if ctx.r.chance(0.5) {
        ctx.r.logrange(1, lim) as usize
    } else {
        ctx.r.range(lim / 2, lim) as usize
    }
}

/// Random partition of `n` frames, with the same biases as the sessions
pub fn partition(ctx: &mut Ctx, m: &mut Model, n: usize) -> Vec<usize> {
    // m is only used for its block boundaries
    let mut v = vec![];
    let mut left = n;
    let style = ctx.r.below(5);
    let fixed = pick_frames(&mut ctx.r, ctx.dict, m, n as u64).max(1) as usize;
    let fixed = if n / fixed > 3000 { n / 3000 + 1 } else { fixed };
    while left > 0 {
        let k = match style {
            0 => fixed,
            1 if v.len() < 300 => ctx.r.range(1, 64) as usize,
            _ if v.len() > 2000 => left,
            _ => pick_frames(&mut ctx.r, ctx.dict, m, left as u64) as usize,
        }
        .min(left);
        left -= k;
        m.skip(k as u64);
        v.push(k);
    }
    v
}
