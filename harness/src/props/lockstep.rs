//! Properties decided by lockstep sessions against the reference model.
use super::{stream, RULE_LOCKSTEP};
use crate::rt::{Ctx, Prop};
use crate::gen::pick_mode;
use crate::session::*;
use ebur128::Mode;

const NOHIST: Mode = Mode::HISTOGRAM;

fn c01_short(c: &mut Ctx) -> Result<(), String> {
    let never = if c.r.chance(0.15) { Mode::empty() } else { NOHIST };
    let o = Opts { must: Mode::I, never, mask: G, budget: 900_000, ..Default::default() };
    session(c, &o)
}
fn c01_long(c: &mut Ctx) -> Result<(), String> {
    let o = Opts {
        must: Mode::I,
        never: NOHIST | Mode::TRUE_PEAK,
        mask: G,
        budget: 2_500_000,
        rate: low_rate,
        channels: few_channels,
        w: [60.0, 1.0, 0.5, 0.3, 0.3, 0.5, 0.3, 0.5, 0.5, 0.0],
        max_ops: 400,
        cmp: 0.25,
        ..Default::default()
    };
    session(c, &o)
}
fn c01_plain(c: &mut Ctx) -> Result<(), String> {
    // nothing but audio
    let o = Opts {
        must: Mode::I,
        never: NOHIST,
        mask: G,
        budget: 2_000_000,
        w: [1.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
        ..Default::default()
    };
    session(c, &o)
}

fn c01_marathon(c: &mut Ctx) -> Result<(), String> {
    let o = Opts {
        must: Mode::I,
        never: NOHIST | Mode::TRUE_PEAK | Mode::LRA | Mode::SAMPLE_PEAK,
        mask: G,
        budget: if c.thorough { 60_000_000 } else { 8_000_000 },
        rate: low_rate,
        channels: one_channel,
        w: [1.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
        max_ops: 4000,
        cmp: 0.004,
        ..Default::default()
    };
    session(c, &o)
}

/// all rates, a few seconds each
fn rates(c: &mut Ctx, must: Mode, mask: u32) -> Result<(), String> {
    let secs = if must.contains(Mode::LRA) { c.r.frange(3.0, 9.0) } else { c.r.frange(0.4, 5.0) };
    let rate = other_rate(c);
    let channels = if rate < 200_000 { c.r.range(1, 3) } else { 1 } as u32;
    let mode = pick_mode(&mut c.r, must, NOHIST | Mode::TRUE_PEAK);
    let o = Opts {
        mask,
        budget: (secs * rate as f64) as u64 * channels as u64,
        w: [30.0, 0.3, 0.2, 0.0, 0.2, 0.2, 0.1, 0.5, 0.2, 0.0],
        max_ops: 40,
        cmp: 0.2,
        big: 0.1,
        ..Default::default()
    };
    c.log(format!("new({channels}, {rate}, {mode:?})"));
    let mut e = ebur128::EbuR128::new(channels, rate, mode).map_err(|e| format!("new({channels}, {rate}, {mode:?}): {e}"))?;
    let mut m = crate::model::Model::new(channels, rate, mode).unwrap();
    run_ops(c, &o, &mut e, &mut m)
}
fn c01_rates(c: &mut Ctx) -> Result<(), String> {
    rates(c, Mode::I, G)
}
fn c02_rates(c: &mut Ctx) -> Result<(), String> {
    rates(c, Mode::M, W)
}
fn c03_rates(c: &mut Ctx) -> Result<(), String> {
    rates(c, Mode::LRA, L)
}

fn c02_mixed(c: &mut Ctx) -> Result<(), String> {
    let o = Opts {
        mask: W,
        budget: 900_000,
        w: [30.0, 1.0, 0.5, 1.0, 2.0, 0.3, 1.0, 1.0, 0.5, 0.0],
        cmp: 0.7,
        ..Default::default()
    };
    session(c, &o)
}
fn c02_low(c: &mut Ctx) -> Result<(), String> {
    // many turns of the ring buffer
    let o = Opts {
        mask: W,
        budget: 400_000,
        rate: low_rate,
        w: [60.0, 1.0, 0.5, 0.3, 1.0, 0.3, 0.5, 1.0, 0.5, 0.0],
        max_ops: 300,
        cmp: 0.6,
        ..Default::default()
    };
    session(c, &o)
}
fn c02_plain(c: &mut Ctx) -> Result<(), String> {
    let o = Opts {
        mask: W,
        budget: 1_500_000,
        w: [1.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
        cmp: 0.8,
        ..Default::default()
    };
    session(c, &o)
}

fn c03_long(c: &mut Ctx) -> Result<(), String> {
    let o = Opts {
        must: Mode::LRA,
        never: NOHIST | Mode::TRUE_PEAK,
        mask: L,
        budget: 3_000_000,
        rate: low_rate,
        channels: if c.r.chance(0.3) { any_channels } else { few_channels },
        w: [60.0, 1.0, 0.5, 0.3, 0.3, 0.6, 0.3, 0.5, 0.5, 0.0],
        max_ops: 400,
        cmp: 0.3,
        ..Default::default()
    };
    session(c, &o)
}
fn c03_mixed(c: &mut Ctx) -> Result<(), String> {
    let never = if c.r.chance(0.15) { Mode::empty() } else { NOHIST };
    let o = Opts { must: Mode::LRA, never, mask: L, budget: 2_500_000, ..Default::default() };
    session(c, &o)
}
fn c03_plain(c: &mut Ctx) -> Result<(), String> {
    let o = Opts {
        must: Mode::LRA,
        never: NOHIST | Mode::TRUE_PEAK,
        mask: L,
        budget: 3_000_000,
        rate: low_rate,
        w: [1.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
        ..Default::default()
    };
    session(c, &o)
}

fn c03_marathon(c: &mut Ctx) -> Result<(), String> {
    let o = Opts {
        must: Mode::LRA,
        never: NOHIST | Mode::TRUE_PEAK | Mode::I | Mode::SAMPLE_PEAK,
        mask: L,
        budget: if c.thorough { 40_000_000 } else { 8_000_000 },
        rate: low_rate,
        channels: one_channel,
        w: [1.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0],
        max_ops: 4000,
        cmp: 0.01,
        ..Default::default()
    };
    session(c, &o)
}

const H: Mode = Mode::HISTOGRAM;
fn c04_long(c: &mut Ctx) -> Result<(), String> {
    let o = Opts {
        must: H | Mode::I | Mode::LRA,
        never: Mode::TRUE_PEAK,
        mask: G | L,
        budget: 2_500_000,
        rate: low_rate,
        channels: few_channels,
        w: [60.0, 1.0, 0.5, 0.3, 0.3, 0.6, 0.3, 0.5, 0.5, 0.0],
        max_ops: 400,
        cmp: 0.3,
        ..Default::default()
    };
    session(c, &o)
}
fn c04_mixed(c: &mut Ctx) -> Result<(), String> {
    let o = Opts { must: H, mask: G | L, budget: 1_200_000, boost: 0.15, ..Default::default() };
    session(c, &o)
}
/// Every bin: constant blocks at all levels from below the gate to far beyond the top bin.
fn c04_levels(c: &mut Ctx) -> Result<(), String> {
    use crate::gen::{Fmt, Raw};
    use crate::model::Model;
    let rate = low_rate(c);
    let mode = H | Mode::I | Mode::LRA;
    let mut e = ebur128::EbuR128::new(1, rate, mode).map_err(|e| e.to_string())?;
    let mut m = Model::new(1, rate, mode).unwrap();
    c.log(format!("new(1, {rate}, {mode:?}) levels"));
    let top = c.r.frange(-60.0, 36.0);
    let bot = c.r.frange(-74.0, top);
    let n = c.r.range(20, 200);
    let mut sig = 0u64;
    for i in 0..n {
        let lufs = match c.r.below(3) {
            0 => bot + (top - bot) * (i as f64 / n as f64),
            1 => c.r.frange(bot, top),
            _ => top,
        };
        let g = 10f64.powf(lufs / 20.0) * 1.4;
        let len = c.r.range(1, 8) as usize * m.s100;
        let x: Vec<f64> = (0..len)
            .map(|_| {
                sig += 1;
                (sig as f64 * 1.3).sin() * g
            })
            .collect();
        let raw = Raw::quantize(&[x], Fmt::F64);
        raw.feed(&mut e, c.r.chance(0.5), false).map_err(|e| e.to_string())?;
        m.add(&raw.exact()).unwrap();
        c.log(format!("add({len} frames at {lufs:.3})"));
        compare(c, &e, &m, G | L)?;
    }
    c.nontrivial = true;
    Ok(())
}

/// Programmes of steady level for hours: many blocks in few bins.
fn c04_steady(c: &mut Ctx) -> Result<(), String> {
    use crate::gen::{Fmt, Raw};
    use crate::model::Model;
    // every now and then so long that there are as many short-term values
    let days = c.r.chance(0.12);
    let rate = *c.dict.low_rates.iter().find(|r| days || c.r.chance(0.05) || **r > 600).unwrap_or(&400);
    let mode = H | Mode::I | Mode::LRA;
    let mut e = ebur128::EbuR128::new(1, rate, mode).map_err(|e| e.to_string())?;
    let mut m = Model::new(1, rate, mode).unwrap();
    let mut left = c.r.range(66_000, if c.thorough { 800_000 } else { 90_000 }) as i64;
    if days {
        c.stats.inc("steady programmes of most of a day");
        left = c.r.range(660_000, 720_000) as i64;
    }
    c.log(format!("new(1, {rate}, {mode:?}), {left} blocks of few levels"));
    let mut k = 0u64;
    while left > 0 {
        let lufs = c.r.frange(-50.0, 0.0);
        let g = 10f64.powf(lufs / 20.0);
        let part = if c.r.chance(0.7) { left } else { c.r.range(1, left as u64) as i64 };
        left -= part;
        c.log(format!("{part} blocks at {lufs:.2}"));
        // a period that a block has a whole number of, so that blocks measure alike
        let x: Vec<f64> = (0..part.min(500) as usize * m.s100).map(|i| (i as f64 * 2.0 * std::f64::consts::PI * 3.0 / m.s100 as f64).sin() * g).collect();
        let raw = Raw::quantize(&[x], Fmt::F64);
        let exact = raw.exact();
        let mut n = part;
        while n > 0 {
            raw.feed(&mut e, false, false).map_err(|e| e.to_string())?;
            m.add(&exact).unwrap();
            n -= 500;
            k += 1;
            if k % 32 == 0 {
                compare(c, &e, &m, G | L)?;
            }
        }
        compare(c, &e, &m, G | L)?;
    }
    if let Some((n, _)) = e.gating_block_count_and_energy() {
        c.stats.max("blocks in a histogram", n as f64);
    }
    c.stats.inc("steady programmes");
    c.nontrivial = true;
    Ok(())
}

fn c05_mixed(c: &mut Ctx) -> Result<(), String> {
    let o = Opts {
        must: Mode::SAMPLE_PEAK,
        mask: SP,
        budget: 400_000,
        rate: any_rate,
        cmp: 0.9,
        hostile: 0.15,
        boost: 0.1,
        ..Default::default()
    };
    session(c, &o)
}
fn c05_off(c: &mut Ctx) -> Result<(), String> {
    // with and without the mode
    let o = Opts { mask: SP, budget: 150_000, rate: any_rate, cmp: 0.9, hostile: 0.05, ..Default::default() };
    session(c, &o)
}

fn tp_rate(c: &mut Ctx) -> u32 {
    match c.r.below(5) {
        0 => c.r.pick(&[95_999, 96_000, 96_001, 191_999, 192_000, 192_001]),
        1 => c.r.range(96_000, 191_999) as u32,
        _ => any_rate(c),
    }
}
fn tp_channels(c: &mut Ctx) -> u32 {
    if c.r.chance(0.85) {
        c.r.range(1, 10) as u32
    } else {
        c.r.range(11, 64) as u32
    }
}
fn c06_mixed(c: &mut Ctx) -> Result<(), String> {
    let o = Opts {
        must: Mode::TRUE_PEAK,
        mask: TP,
        budget: 250_000,
        rate: tp_rate,
        channels: tp_channels,
        cmp: 0.9,
        boost: 0.1,
        ..Default::default()
    };
    session(c, &o)
}
fn c06_hostile(c: &mut Ctx) -> Result<(), String> {
    // after a reset nothing of NaN or infinity is left
    let o = Opts {
        must: Mode::TRUE_PEAK,
        mask: TP,
        budget: 100_000,
        rate: tp_rate,
        channels: tp_channels,
        w: [20.0, 1.0, 1.0, 2.0, 1.0, 1.0, 4.0, 1.0, 1.0, 0.2],
        cmp: 0.9,
        hostile: 0.1,
        ..Default::default()
    };
    session(c, &o)
}
/// The interpolator really finds inter-sample peaks: sines of known amplitude.
fn c06_sines(c: &mut Ctx) -> Result<(), String> {
    let rate = tp_rate(c);
    let ch = tp_channels(c);
    let mut e = ebur128::EbuR128::new(ch, rate, Mode::TRUE_PEAK).map_err(|e| e.to_string())?;
    let f = c.r.frange(0.02, 0.24);
    let n = (600.0 / f) as usize;
    c.log(format!("sines of {f} of the rate, {ch} channels at {rate}"));
    let mut amps = vec![];
    let mut x = vec![];
    for _ in 0..ch {
        let (a, ph) = (c.r.frange(0.05, 1.0), c.r.frange(0.0, 6.28));
        amps.push(a);
        // fade in and out, so that there is no step
        x.push(
            (0..n)
                .map(|i| {
                    let w = (i.min(n - i) as f64 / (n as f64 * 0.25)).min(1.0);
                    a * w * (2.0 * std::f64::consts::PI * f * i as f64 + ph).sin()
                })
                .collect::<Vec<f64>>(),
        );
    }
    let raw = crate::gen::Raw::quantize(&x, crate::gen::Fmt::F64);
    raw.feed(&mut e, c.r.chance(0.5), false).map_err(|e| e.to_string())?;
    for (i, a) in amps.iter().enumerate() {
        let tp = e.true_peak(i as u32).map_err(|e| e.to_string())?;
        let sp = e.sample_peak(i as u32).map_err(|e| e.to_string())?;
        if rate >= 192_000 {
            if tp != sp {
                return Err(format!("true peak {tp} differs from sample peak {sp} without oversampling"));
            }
            continue;
        }
        // how far samples oversampled this much can be off the crest
        let os = if rate < 96_000 { 4.0 } else { 2.0 };
        let lo = a * (std::f64::consts::PI * f / os).cos() * 0.96;
        let hi = a * 1.05;
        if !(tp >= lo && tp <= hi && tp >= sp) {
            return Err(format!("true peak {tp} of a sine with amplitude {a} (frequency {f} of the rate), expected {lo}..{hi}, sample peak {sp}"));
        }
        c.stats.max("error of the interpolated crest", (tp / a - 1.0).abs());
        c.stats.inc("sine crests measured");
    }
    c.nontrivial = true;
    Ok(())
}

pub fn add(v: &mut Vec<Prop>) {
    let mk = |id, streams, must| Prop {
        id,
        level: "exploration",
        rule: RULE_LOCKSTEP,
        streams,
        must,
        assumptions: &[
            "the reference model (harness/src/model.rs) implements BS.1770-4/EBU 3341/3342 and the documented API; C22 calibrates it against published values",
            "values closer to a decision boundary (absolute or relative gate, histogram bin) than the comparison tolerance are not judged",
        ],
        threads: 0,
    };
    v.push(mk(
        "C01",
        vec![
            stream("mixed", 3000, 100_000, c01_short),
            stream("long", 600, 30_000, c01_long),
            stream("plain", 1500, 50_000, c01_plain),
            stream("marathon", 8, 200, c01_marathon),
            stream("rates", 400, 20_000, c01_rates),
        ],
        &["integrated loudness compared", "gating block counts compared", "... with blocks below the relative gate"],
    ));
    v.push(mk(
        "C02",
        vec![
            stream("mixed", 4000, 100_000, c02_mixed),
            stream("low", 4000, 100_000, c02_low),
            stream("plain", 1000, 30_000, c02_plain),
            stream("rates", 400, 20_000, c02_rates),
        ],
        &["finite loudness values compared", "expected errors"],
    ));
    v.push(mk(
        "C03",
        vec![
            stream("long", 1500, 50_000, c03_long),
            stream("mixed", 1000, 50_000, c03_mixed),
            stream("plain", 800, 30_000, c03_plain),
            stream("marathon", 16, 200, c03_marathon),
            stream("rates", 400, 20_000, c03_rates),
        ],
        &["non-zero loudness ranges compared"],
    ));
    v.push(mk(
        "C04",
        vec![
            stream("long", 1000, 50_000, c04_long),
            stream("mixed", 1500, 50_000, c04_mixed),
            stream("levels", 3000, 100_000, c04_levels),
            stream("steady", 32, 400, c04_steady),
        ],
        &["integrated loudness compared", "non-zero loudness ranges compared", "steady programmes"],
    ));
    v.push(mk(
        "C05",
        vec![stream("mixed", 8000, 200_000, c05_mixed), stream("off", 4000, 100_000, c05_off)],
        &["non-zero peaks compared", "expected errors"],
    ));
    v.push(mk(
        "C06",
        vec![
            stream("mixed", 4000, 100_000, c06_mixed),
            stream("hostile", 2000, 50_000, c06_hostile),
            stream("sines", 3000, 100_000, c06_sines),
        ],
        &["non-zero peaks compared", "sine crests measured"],
    ));
}
