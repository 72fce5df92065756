//! Workload generation: dictionary of interesting numbers, rates, channel counts, signals, chunk
//! sizes, and the conversion of a signal to the sample formats of the API.
use crate::model::{rate_stable, Model};
use crate::rng::Rng;
use ebur128::{Channel, EbuR128, Error, Mode};

/// Interesting integers: a fixed list plus the integer literals of the crate's own sources (as a
/// fuzzing dictionary; what they mean there is of no interest).
pub struct Dict {
    pub nums: Vec<u64>,
    pub low_rates: Vec<u32>,
}

pub const STD_RATES: &[u32] = &[
    8000, 11025, 12000, 16000, 22050, 24000, 32000, 44100, 48000, 64000, 88200, 95999, 96000, 96001, 176400,
    191999, 192000, 192001, 352800, 384000,
];
pub const ODD_RATES: &[u32] = &[
    16, 6000, 9600, 11024, 18900, 37800, 44056, 47952, 48048, 50000, 50400, 128000, 705600, 768000, 1411200, 2822399,
    2822400,
];

impl Dict {
    pub fn load() -> Dict {
        let mut v: Vec<u64> = vec![
            1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 16, 23, 24, 25, 29, 30, 31, 32, 47, 48, 49, 63, 64, 65, 100, 128,
            256, 400, 441, 480, 512, 576, 1000, 1023, 1024, 1025, 1152, 2048, 3000, 4095, 4096, 4410, 4800,
            5000, 8192, 10000, 16384, 32767, 32768, 44100, 48000, 65535, 65536,
        ];
        let dir = std::env::var("VH_SRC").unwrap_or_else(|_| "/repo/src".into());
        if let Ok(rd) = std::fs::read_dir(&dir) {
            let mut files: Vec<_> = rd.filter_map(|e| e.ok()).map(|e| e.path()).collect();
            files.sort();
            for p in files {
                let name = p.file_name().unwrap().to_string_lossy().to_string();
                if !name.ends_with(".rs") || name == "histogram_bins.rs" {
                    continue;
                }
                let Ok(t) = std::fs::read_to_string(&p) else { continue };
                // drop the unit tests at the end of the file
                let t = t.split("#[cfg(test)]\nmod tests").next().unwrap_or("");
                let b = t.as_bytes();
                let mut i = 0;
                while i < b.len() {
                    if b[i] == b'/' && i + 1 < b.len() && b[i + 1] == b'/' {
                        while i < b.len() && b[i] != b'\n' {
                            i += 1;
                        }
                        continue;
                    }
                    let prev_word = i > 0 && (b[i - 1].is_ascii_alphanumeric() || b[i - 1] == b'_');
                    if b[i].is_ascii_digit() && !prev_word {
                        let st = i;
                        while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_') {
                            i += 1;
                        }
                        let w: String = t[st..i].chars().filter(|c| *c != '_').collect();
                        let n = if let Some(h) = w.strip_prefix("0x") {
                            u64::from_str_radix(h.trim_end_matches(|c: char| !c.is_ascii_hexdigit()), 16).ok()
                        } else if let Some(h) = w.strip_prefix("0b") {
                            u64::from_str_radix(h, 2).ok()
                        } else {
                            let d: String = w.chars().take_while(|c| c.is_ascii_digit()).collect();
                            d.parse().ok()
                        };
                        if let Some(n) = n {
                            v.push(n);
                        }
                        continue;
                    }
                    i += 1;
                }
            }
        }
        v.sort_unstable();
        v.dedup();
        let mut nums = vec![];
        for n in v {
            if n > 1 << 40 {
                continue;
            }
            nums.push(n.saturating_sub(1));
            nums.push(n);
            nums.push(n + 1);
        }
        nums.sort_unstable();
        nums.dedup();
        let low_rates = (300u32..1680).filter(|r| {
            let k = crate::model::k_weighting(*r as f64);
            // comfortably stable: poles within 0.999
            rate_stable(*r) && k.iter().all(|b| b.a[1].abs() < 0.97 && b.mag(0.3).is_finite())
        });
        Dict {
            nums,
            low_rates: low_rates.collect(),
        }
    }

    pub fn num(&self, r: &mut Rng, lo: u64, hi: u64) -> u64 {
        // numbers within lo..=hi
        let a = self.nums.partition_point(|v| *v < lo);
        let b = self.nums.partition_point(|v| *v <= hi);
        if a >= b {
            return r.range(lo, hi);
        }
        self.nums[a + r.below((b - a) as u64) as usize]
    }
}

pub fn pick_rate(r: &mut Rng, d: &Dict) -> u32 {
    match r.weighted(&[3.0, 3.0, 1.5, 1.0, 0.5, 0.3, 0.7]) {
        0 => r.pick(STD_RATES),
        6 => r.pick(ODD_RATES),
        1 => r.pick(&d.low_rates),
        2 => r.logrange(4000, 400_000) as u32,
        3 => d.num(r, 16, 400_000) as u32,
        4 => r.range(16, 4000) as u32,
        _ => r.range(400_000, 2_822_400) as u32,
    }
}

/// a rate at which the loudness filter is stable
pub fn pick_stable_rate(r: &mut Rng, d: &Dict) -> u32 {
    loop {
        let v = pick_rate(r, d);
        if rate_stable(v) {
            return v;
        }
    }
}

pub fn pick_channels(r: &mut Rng) -> u32 {
    match r.weighted(&[2.0, 3.0, 1.0, 1.0, 1.0, 1.5, 1.0, 1.0, 1.0, 0.7]) {
        8 => r.range(9, 16) as u32,
        9 if r.chance(0.5) => r.pick(&[16, 24, 32, 48, 63, 64, 64]),
        9 => r.range(17, 64) as u32,
        n => n as u32 + 1,
    }
}

pub const ALL_CHANNELS: [Channel; 32] = {
    use Channel::*;
    [
        Unused, Left, Right, Center, LeftSurround, RightSurround, DualMono, MpSC, MmSC, Mp060, Mm060, Mp090,
        Mm090, Mp135, Mm135, Mp180, Up000, Up030, Um030, Up045, Um045, Up090, Um090, Up110, Um110, Up135,
        Um135, Up180, Tp000, Bp000, Bp045, Bm045,
    ]
};

/// A random mode that has at least these bits
pub fn pick_mode(r: &mut Rng, must: Mode, never: Mode) -> Mode {
    let opts = [
        Mode::M,
        Mode::S,
        Mode::I,
        Mode::LRA,
        Mode::SAMPLE_PEAK,
        Mode::TRUE_PEAK,
        Mode::HISTOGRAM,
    ];
    if r.chance(0.06) {
        return Mode::all() - (never - must);
    }
    let mut m = must | Mode::M;
    for o in opts {
        let p = if o == Mode::TRUE_PEAK { 0.15 } else { 0.4 };
        if r.chance(p) && !never.intersects(o) {
            m |= o;
        }
    }
    m - (never - must)
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Fmt {
    I16,
    I32,
    F32,
    F64,
}
pub const FMTS: [Fmt; 4] = [Fmt::I16, Fmt::I32, Fmt::F32, Fmt::F64];

#[derive(Clone, Debug)]
pub enum Raw {
    I16(Vec<Vec<i16>>),
    I32(Vec<Vec<i32>>),
    F32(Vec<Vec<f32>>),
    F64(Vec<Vec<f64>>),
}

thread_local! {
    /// where in memory the next samples go
    static LAYOUT: std::cell::Cell<u64> = const { std::cell::Cell::new(1) };
}

/// Called at the start of every case
pub fn seed_layout(seed: u64) {
    LAYOUT.with(|l| l.set(seed | 1));
}

fn next_layout() -> u64 {
    LAYOUT.with(|l| {
        let mut x = l.get();
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        l.set(x);
        x >> 20
    })
}

/// Samples that are not the caller's, around those that are
const MARGIN: usize = 8;

fn interleave<T: Copy>(p: &[Vec<T>], before: &[T], after: &[T]) -> Vec<T> {
    let n = p[0].len();
    let mut v = Vec::with_capacity(n * p.len() + before.len() + after.len());
    v.extend_from_slice(before);
    for i in 0..n {
        for c in p {
            v.push(c[i]);
        }
    }
    v.extend_from_slice(after);
    v
}

impl Raw {
    pub fn quantize(x: &[Vec<f64>], f: Fmt) -> Raw {
        match f {
            Fmt::I16 => Raw::I16(
                x.iter()
                    .map(|c| c.iter().map(|v| (v * 32767.4).round().clamp(-32768.0, 32767.0) as i16).collect())
                    .collect(),
            ),
            Fmt::I32 => Raw::I32(
                x.iter()
                    .map(|c| {
                        c.iter().map(|v| (v * 2147483647.0).round().clamp(-2147483648.0, 2147483647.0) as i32).collect()
                    })
                    .collect(),
            ),
            Fmt::F32 => Raw::F32(x.iter().map(|c| c.iter().map(|v| *v as f32).collect()).collect()),
            Fmt::F64 => Raw::F64(x.to_vec()),
        }
    }
    pub fn exact(&self) -> Vec<Vec<f64>> {
        match self {
            Raw::I16(p) => p.iter().map(|c| c.iter().map(|v| *v as f64 / 32768.0).collect()).collect(),
            Raw::I32(p) => p.iter().map(|c| c.iter().map(|v| *v as f64 / 2147483648.0).collect()).collect(),
            Raw::F32(p) => p.iter().map(|c| c.iter().map(|v| *v as f64).collect()).collect(),
            Raw::F64(p) => p.clone(),
        }
    }
    #[allow(dead_code)]
    pub fn frames(&self) -> usize {
        match self {
            Raw::I16(p) => p[0].len(),
            Raw::I32(p) => p[0].len(),
            Raw::F32(p) => p[0].len(),
            Raw::F64(p) => p[0].len(),
        }
    }
    /// frames a..b
    pub fn slice(&self, a: usize, b: usize) -> Raw {
        match self {
            Raw::I16(p) => Raw::I16(p.iter().map(|c| c[a..b].to_vec()).collect()),
            Raw::I32(p) => Raw::I32(p.iter().map(|c| c[a..b].to_vec()).collect()),
            Raw::F32(p) => Raw::F32(p.iter().map(|c| c[a..b].to_vec()).collect()),
            Raw::F64(p) => Raw::F64(p.iter().map(|c| c[a..b].to_vec()).collect()),
        }
    }
    pub fn feed(&self, e: &mut EbuR128, planar: bool, seed: bool) -> Result<(), Error> {
        // half of the time in buffers of their own, else anywhere between other samples
        let at = next_layout();
        let (own, at) = (at & 1 == 0, (at >> 1) as usize);
        macro_rules! go {
            ($p:expr, $junk:expr, $ai:ident, $ap:ident, $si:ident, $sp:ident) => {{
                let junk = [$junk; MARGIN];
                if planar {
                    let mut room = vec![];
                    let v: Vec<&[_]> = if own {
                        $p.iter().map(|c| &c[..]).collect()
                    } else {
                        let gaps = |k: usize| &junk[..(at >> (3 * (k % 6))) % MARGIN];
                        let n: usize = $p[0].len();
                        room.reserve($p.len() * (n + MARGIN));
                        let mut starts = vec![];
                        for (k, c) in $p.iter().enumerate() {
                            room.extend_from_slice(gaps(k));
                            starts.push(room.len());
                            room.extend_from_slice(c);
                        }
                        room.extend_from_slice(gaps(5));
                        let room = &room;
                        starts.iter().zip($p).map(|(s, c)| &room[*s..*s + c.len()]).collect()
                    };
                    if seed {
                        e.$sp(&v)
                    } else {
                        e.$ap(&v)
                    }
                } else {
                    let (before, after) = if own { (0, 0) } else { (at % MARGIN, at / MARGIN % MARGIN) };
                    let v = interleave($p, &junk[..before], &junk[..after]);
                    let v = &v[before..v.len() - after];
                    if seed {
                        e.$si(v)
                    } else {
                        e.$ai(v)
                    }
                }
            }};
        }
        match self {
            Raw::I16(p) => go!(p, i16::MIN, add_frames_i16, add_frames_planar_i16, seed_frames_i16, seed_frames_planar_i16),
            Raw::I32(p) => go!(p, i32::MIN, add_frames_i32, add_frames_planar_i32, seed_frames_i32, seed_frames_planar_i32),
            Raw::F32(p) => go!(p, 3e3f32, add_frames_f32, add_frames_planar_f32, seed_frames_f32, seed_frames_planar_f32),
            Raw::F64(p) => go!(p, -3e3f64, add_frames_f64, add_frames_planar_f64, seed_frames_f64, seed_frames_planar_f64),
        }
    }
}

#[derive(Clone, Debug)]
enum Wave {
    Silence,
    Noise,
    Sine { c: f64, s: f64, x: f64, y: f64 },
    Two { a: [f64; 4], b: [f64; 4] },
    Dc(f64),
    Impulses { period: u64, t: u64 },
    Square { half: u64, t: u64 },
    Nyquist { t: u64 },
    Sparse { p: f64 },
    Chirp { ph: f64, f: f64, k: f64 },
}

/// Per channel waveforms under a common (sometimes per channel) schedule of levels
pub struct Signal {
    waves: Vec<Wave>,
    gains: Vec<f64>,
    level: f64,
    left: u64,
    rate: u32,
    levels: Vec<f64>,
    max_seg: f64,
    exact_full_scale: bool,
    seed: u64,
}

fn osc(f: f64, ph: f64) -> [f64; 4] {
    let w = 2.0 * std::f64::consts::PI * f;
    [w.cos(), w.sin(), ph.cos(), ph.sin()]
}

fn step(o: &mut [f64; 4]) -> f64 {
    let (x, y) = (o[0] * o[2] - o[1] * o[3], o[1] * o[2] + o[0] * o[3]);
    o[2] = x;
    o[3] = y;
    y
}

impl Signal {
    pub fn new(r: &mut Rng, channels: usize, rate: u32) -> Signal {
        let same = r.chance(0.15);
        let mut waves: Vec<Wave> = vec![];
        let mut gains = vec![];
        let ratef = rate as f64;
        for i in 0..channels {
            if same && i > 0 {
                let w = waves[0].clone();
                waves.push(w);
                gains.push(gains[0]);
                continue;
            }
            // audible, below Nyquist
            let top = (0.45f64).min(15000.0 / ratef);
            let mut freq = || {
                let lo = (60.0 / ratef).min(top * 0.5);
                lo * (top / lo).powf(r.f())
            };
            let (f1, f2) = (freq(), freq());
            let w = match r.weighted(&[0.4, 4.0, 4.0, 2.0, 0.3, 0.7, 0.8, 0.15, 0.4, 0.8]) {
                0 => Wave::Silence,
                1 => Wave::Noise,
                2 => {
                    let o = osc(f1, r.frange(0.0, 6.28));
                    Wave::Sine { c: o[0], s: o[1], x: o[2], y: o[3] }
                }
                3 => Wave::Two { a: osc(f1, 0.0), b: osc(f2, r.frange(0.0, 6.28)) },
                4 => Wave::Dc(if r.chance(0.5) { 1.0 } else { -0.7 }),
                5 => Wave::Impulses { period: r.logrange(2, 3 * rate as u64), t: r.below(5) },
                6 => Wave::Square { half: r.logrange(1, (rate as u64 / 60).max(2)), t: 0 },
                7 => Wave::Nyquist { t: 0 },
                8 => Wave::Sparse { p: r.frange(0.0, 0.3) },
                _ => Wave::Chirp { ph: 0.0, f: f1, k: (f2 - f1) / (ratef * r.frange(0.2, 10.0)) },
            };
            waves.push(w);
            gains.push(if r.chance(0.3) { r.frange(0.02, 1.0) } else { 1.0 });
        }
        let base = if r.chance(0.7) { r.frange(-35.0, 0.0) } else { r.frange(-72.0, -30.0) };
        let levels: Vec<f64> = match r.weighted(&[2.0, 2.0, 2.0, 1.0, 1.0]) {
            0 => vec![base],
            1 => vec![base, base - 4.0, base - 9.0, base - 11.0, base - 15.0, base - 2.0],
            2 => vec![base, base - 18.0, base - 22.0, base - 9.0, base - 28.0, f64::NEG_INFINITY],
            3 => (0..r.range(2, 12)).map(|_| r.frange(-76.0, 0.0)).collect(),
            _ => vec![base, -66.0, -69.0, -71.0, -75.0, f64::NEG_INFINITY],
        };
        let max_seg = if r.chance(0.5) { 0.8 } else { 6.0 };
        Signal {
            waves,
            gains,
            level: 1.0,
            left: 0,
            rate,
            levels,
            max_seg,
            exact_full_scale: r.chance(0.1),
            seed: r.u64(),
        }
    }

    /// Next `n` frames, planar.
    pub fn next(&mut self, n: usize) -> Vec<Vec<f64>> {
        let mut r = Rng::new(self.seed);
        let mut out = vec![Vec::with_capacity(n); self.waves.len()];
        let mut done = 0;
        while done < n {
            if self.left == 0 {
                let l = r.pick(&self.levels);
                self.level = if l == f64::NEG_INFINITY { 0.0 } else { 10f64.powf(l / 20.0) };
                if self.exact_full_scale {
                    self.level = if self.level == 0.0 { 0.0 } else { 1.1 };
                }
                self.left = ((self.rate as f64 * r.frange(0.02, self.max_seg)) as u64).max(1);
            }
            let m = (self.left as usize).min(n - done);
            self.left -= m as u64;
            done += m;
            for (i, w) in self.waves.iter_mut().enumerate() {
                let g = self.level * self.gains[i];
                let o = &mut out[i];
                match w {
                    Wave::Silence => o.extend(std::iter::repeat(0.0).take(m)),
                    Wave::Noise => {
                        for _ in 0..m {
                            o.push((r.f() * 2.0 - 1.0) * g)
                        }
                    }
                    Wave::Sine { c, s, x, y } => {
                        for _ in 0..m {
                            let (a, b) = (*c * *x - *s * *y, *s * *x + *c * *y);
                            *x = a;
                            *y = b;
                            o.push(b * g);
                        }
                    }
                    Wave::Two { a, b } => {
                        for _ in 0..m {
                            o.push((step(a) + step(b)) * 0.5 * g)
                        }
                    }
                    Wave::Dc(d) => o.extend(std::iter::repeat(*d * g).take(m)),
                    Wave::Impulses { period, t } => {
                        for _ in 0..m {
                            *t += 1;
                            o.push(if *t % *period == 0 { g } else { 0.0 });
                        }
                    }
                    Wave::Square { half, t } => {
                        for _ in 0..m {
                            *t += 1;
                            o.push(if (*t / *half) % 2 == 0 { g } else { -g });
                        }
                    }
                    Wave::Nyquist { t } => {
                        for _ in 0..m {
                            *t += 1;
                            o.push(if *t % 2 == 0 { g } else { -g });
                        }
                    }
                    Wave::Sparse { p } => {
                        for _ in 0..m {
                            o.push(if r.chance(*p) { (r.f() * 2.0 - 1.0) * g } else { 0.0 });
                        }
                    }
                    Wave::Chirp { ph, f, k } => {
                        for _ in 0..m {
                            *ph += 2.0 * std::f64::consts::PI * *f;
                            if *ph > 6.283185307179586 {
                                *ph -= 6.283185307179586;
                            }
                            *f += *k;
                            if *f > 0.45 || *f < 1e-4 {
                                *k = -*k;
                            }
                            o.push(ph.sin() * g);
                        }
                    }
                }
            }
        }
        self.seed = r.u64();
        out
    }

    /// As `next`, in a format.
    #[allow(dead_code)]
    pub fn chunk(&mut self, n: usize, f: Fmt) -> Raw {
        Raw::quantize(&self.next(n), f)
    }
}

/// A chunk size that likes to end on, before and after the boundaries that matter.
pub fn pick_frames(r: &mut Rng, d: &Dict, m: &Model, max: u64) -> u64 {
    let s = m.s100 as u64;
    let in_sub = m.frames() % s;
    let to_boundary = if m.frames() < 4 * s { 4 * s - m.frames() } else { s - in_sub };
    let ring = (m.max_frames() as u64).div_ceil(s) * s;
    let v = match r.weighted(&[1.0, 1.5, 2.0, 1.0, 1.0, 1.5, 1.0, 0.5, 0.3, 1.0]) {
        0 => r.range(0, 4),
        1 => (to_boundary + r.below(3)).saturating_sub(1),
        2 => s * r.range(1, 12),
        3 => (s * r.pick(&[1, 2, 3, 4, 5, 10, 30]) + r.below(3)).saturating_sub(1),
        4 => r.logrange(1, 2 * s),
        5 => r.logrange(1, 40 * s),
        6 => d.num(r, 0, max.max(1)),
        7 => (ring - (m.frames() % ring) + r.below(3)).saturating_sub(1),
        8 => r.range(ring, 3 * ring),
        _ => m.rate as u64,
    };
    v.min(max)
}
