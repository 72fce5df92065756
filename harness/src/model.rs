//! Independent reference model of the loudness meter, written from ITU-R BS.1770-4, EBU Tech
//! 3341/3342 and the crate's API documentation.  Everything is straightforward f64 arithmetic: two
//! cascaded biquads per channel (the crate uses one 4th order section), 100 ms partial sums for the
//! gating blocks (the crate re-scans a ring buffer), a direct 48 tap convolution for true peaks.
use ebur128::{Channel, Error, Mode};
use std::collections::VecDeque;

pub const GATE_DB: f64 = -70.0;

pub fn db(e: f64) -> f64 {
    10.0 * e.log10() - 0.691
}
pub fn undb(l: f64) -> f64 {
    10f64.powf((l + 0.691) / 10.0)
}

pub fn weight(c: Channel) -> f64 {
    use Channel::*;
    match c {
        Unused => 0.0,
        LeftSurround | RightSurround | Mp060 | Mm060 | Mp090 | Mm090 => 1.41,
        DualMono => 2.0,
        _ => 1.0,
    }
}

pub fn default_map(channels: usize) -> Vec<Channel> {
    use Channel::*;
    match channels {
        4 => vec![Left, Right, LeftSurround, RightSurround],
        5 => vec![Left, Right, Center, LeftSurround, RightSurround],
        n => {
            let d = [Left, Right, Center, Unused, LeftSurround, RightSurround];
            (0..n).map(|i| d.get(i).copied().unwrap_or(Unused)).collect()
        }
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Biquad {
    pub b: [f64; 3],
    pub a: [f64; 2],
}

impl Biquad {
    pub fn stable(&self) -> bool {
        let (a1, a2) = (self.a[0], self.a[1]);
        a1.is_finite() && a2.is_finite() && a2.abs() < 1.0 - 1e-9 && a1.abs() < 1.0 + a2
    }
    /// |H| at angular frequency w
    pub fn mag(&self, w: f64) -> f64 {
        let (c1, s1, c2, s2) = (w.cos(), w.sin(), (2.0 * w).cos(), (2.0 * w).sin());
        let nr = self.b[0] + self.b[1] * c1 + self.b[2] * c2;
        let ni = self.b[1] * s1 + self.b[2] * s2;
        let dr = 1.0 + self.a[0] * c1 + self.a[1] * c2;
        let di = self.a[0] * s1 + self.a[1] * s2;
        ((nr * nr + ni * ni) / (dr * dr + di * di)).sqrt()
    }
}

/// The two stages of the K-weighting for any sample rate (bilinear transform with the parameters
/// that give the tabulated BS.1770 coefficients at 48 kHz).
pub fn k_weighting(rate: f64) -> [Biquad; 2] {
    let f0 = 1681.974450955533;
    let g = 3.999843853973347;
    let q = 0.7071752369554196;
    let k = (std::f64::consts::PI * f0 / rate).tan();
    let vh = 10f64.powf(g / 20.0);
    let vb = vh.powf(0.4996667741545416);
    let a0 = 1.0 + k / q + k * k;
    let shelf = Biquad {
        b: [
            (vh + vb * k / q + k * k) / a0,
            2.0 * (k * k - vh) / a0,
            (vh - vb * k / q + k * k) / a0,
        ],
        a: [2.0 * (k * k - 1.0) / a0, (1.0 - k / q + k * k) / a0],
    };
    let f0 = 38.13547087602444;
    let q = 0.5003270373238773;
    let k = (std::f64::consts::PI * f0 / rate).tan();
    let a0 = 1.0 + k / q + k * k;
    let hp = Biquad {
        b: [1.0, -2.0, 1.0],
        a: [2.0 * (k * k - 1.0) / a0, (1.0 - k / q + k * k) / a0],
    };
    [shelf, hp]
}

pub fn rate_stable(rate: u32) -> bool {
    k_weighting(rate as f64).iter().all(|b| b.stable())
}

/// Relative tolerance for K-weighted amplitudes at a rate.
pub fn rel_tol(rate: u32) -> f64 {
    let r = rate as f64 / 48000.0;
    1e-8 * (1.0 + r * r * r * r)
}

/// Absolute error of a filtered sample relative to the largest input: the rounding noise of a
/// direct form whose states have the gain of 1/(1-p)^2 of the 38 Hz high pass.
pub fn noise_gain(rate: u32) -> f64 {
    let r = rate as f64 / 240.0;
    // (and the slightly different impulse response, see rel_tol)
    1e-15 * (1.0 + r * r) * 8.0 + 0.5 * rel_tol(rate)
}

#[derive(Clone, Debug)]
struct Chan {
    z: [[f64; 2]; 2],
    ring: VecDeque<f64>,
    cur: f64,
    subs: VecDeque<f64>,
    fir: VecDeque<f64>,
    sp: f64,
    prev_sp: f64,
    tp: f64,
    prev_tp: f64,
    /// frames went by unprocessed although the filter has seen audio before
    stale: bool,
    touched: bool,
}

impl Chan {
    fn new() -> Self {
        Chan {
            z: [[0.0; 2]; 2],
            ring: VecDeque::new(),
            cur: 0.0,
            subs: VecDeque::new(),
            fir: VecDeque::new(),
            sp: 0.0,
            prev_sp: 0.0,
            tp: 0.0,
            prev_tp: 0.0,
            stale: false,
            touched: false,
        }
    }
}

/// What the library has to return.
#[derive(Clone, Debug)]
pub enum Exp {
    Err(Error),
    /// loudness of this energy
    Energy(f64),
    /// loudness range
    Lu(f64, f64),
    /// a peak with this much absolute tolerance
    Peak(f64, f64),
    /// not decided by the model here (too close to a decision boundary, ...)
    Any(&'static str),
}

impl Exp {
    #[allow(dead_code)]
    pub fn any(&self) -> bool {
        matches!(self, Exp::Any(_))
    }
}

/// Blocks of one or more instances, as the model sees them
#[derive(Clone, Debug)]
pub enum Hist {
    Queue(VecDeque<f64>),
    Bins(Vec<u64>),
}

#[derive(Clone, Debug)]
pub struct Model {
    pub mode: Mode,
    pub rate: u32,
    pub channels: usize,
    pub map: Vec<Channel>,
    pub window: usize,
    pub history: usize,
    pub s100: usize,
    kw: [Biquad; 2],
    ch: Vec<Chan>,
    /// frames since the audio buffer was last cleared
    frames: u64,
    pub blocks: Hist,
    pub st_blocks: Hist,
    /// number of blocks ever measured / accepted, for evidence
    pub blocks_measured: u64,
    pub st_measured: u64,
    /// some block was too close to the absolute gate or a histogram boundary
    pub amb: bool,
    pub st_amb: bool,
    /// non-finite or absurd numbers were fed, or a channel has stale data
    pub taint: bool,
    /// non-finite or absurd samples went through the interpolator since the peaks were cleared
    pub tp_taint: bool,
    /// largest sample since the filter was cleared / since the last reset
    pub inmax: f64,
    pub inmax_ever: f64,
    hist_noise: f64,
    hist_rel: f64,
    h: Vec<f64>,
    factor: usize,
    sub_keep: usize,
}

pub fn fir_factor(rate: u32) -> usize {
    if rate < 96000 {
        4
    } else if rate < 192000 {
        2
    } else {
        1
    }
}

pub fn fir_taps(factor: usize) -> Vec<f64> {
    (0..48)
        .map(|j| {
            let w = 0.5 * (1.0 - (2.0 * std::f64::consts::PI * j as f64 / 48.0).cos());
            let m = (j as f64 - 24.0) * std::f64::consts::PI / factor as f64;
            if m.abs() > 1e-6 {
                w * m.sin() / m
            } else {
                w
            }
        })
        .collect()
}

/// Frames the crate must at least be able to measure over for the maximum window
pub fn window_frames(rate: u32, ms: u64) -> u64 {
    rate as u64 * ms / 1000
}

fn bin_of(e: f64) -> usize {
    // bins of 0.1 LU from -70 LUFS on
    let x = (db(e) - GATE_DB) * 10.0;
    (x.floor().max(0.0) as usize).min(999)
}

pub fn bin_center(i: usize) -> f64 {
    undb(GATE_DB + 0.05 + i as f64 * 0.1)
}

impl Hist {
    fn new(bins: bool) -> Hist {
        if bins {
            Hist::Bins(vec![0; 1000])
        } else {
            Hist::Queue(VecDeque::new())
        }
    }
    pub fn count(&self) -> u64 {
        match self {
            Hist::Queue(q) => q.len() as u64,
            Hist::Bins(b) => b.iter().sum(),
        }
    }
}

/// mean of everything above the absolute gate, or None
pub fn mean_energy(hs: &[&Hist]) -> Option<f64> {
    let mut n = 0u64;
    let mut s = 0.0;
    for h in hs {
        match h {
            Hist::Queue(q) => {
                n += q.len() as u64;
                s += q.iter().sum::<f64>();
            }
            Hist::Bins(b) => {
                for (i, c) in b.iter().enumerate() {
                    if *c > 0 {
                        n += c;
                        s += *c as f64 * bin_center(i);
                    }
                }
            }
        }
    }
    (n > 0).then(|| s / n as f64)
}

/// How well the block energies are known: amplitudes, relative and absolute
#[derive(Clone, Copy, Debug)]
pub struct HistTol {
    pub rel: f64,
    pub noise: f64,
}

impl HistTol {
    /// relative uncertainty of an energy of about `e`
    pub fn energy(&self, e: f64) -> f64 {
        2.0 * self.rel + 2.0 * self.noise / e.sqrt()
    }
    pub fn max(self, o: HistTol) -> HistTol {
        HistTol { rel: self.rel.max(o.rel), noise: self.noise.max(o.noise) }
    }
}

/// Number and sum of the blocks passing both gates; Err if a block sits on the threshold.
pub fn gated(hs: &[&Hist], tol: HistTol) -> Result<Option<(u64, f64)>, &'static str> {
    let Some(m) = mean_energy(hs) else {
        return Ok(None);
    };
    let thr = m * 0.1;
    let eps = tol.energy(thr);
    let mut n = 0;
    let mut s = 0.0;
    for h in hs {
        match h {
            Hist::Queue(q) => {
                for &e in q {
                    if (e / thr - 1.0).abs() < eps {
                        return Err("block on the relative gate");
                    }
                    if e >= thr {
                        n += 1;
                        s += e;
                    }
                }
            }
            Hist::Bins(b) => {
                for (i, c) in b.iter().enumerate() {
                    if *c == 0 {
                        continue;
                    }
                    let e = bin_center(i);
                    if (e / thr - 1.0).abs() < eps.max(1e-9) {
                        return Err("bin on the relative gate");
                    }
                    if e >= thr {
                        n += c;
                        s += *c as f64 * e;
                    }
                }
            }
        }
    }
    Ok(if n > 0 { Some((n, s)) } else { None })
}

pub fn lra(hs: &[&Hist], tol: HistTol) -> Exp {
    if hs.is_empty() {
        return Exp::Lu(0.0, 1e-9);
    }
    let bins = matches!(hs[0], Hist::Bins(_));
    if hs.iter().any(|h| matches!(h, Hist::Bins(_)) != bins) {
        return Exp::Err(Error::InvalidMode);
    }
    let Some(m) = mean_energy(hs) else {
        return Exp::Lu(0.0, 1e-9);
    };
    let thr = m * 0.01;
    let eps = tol.energy(thr);
    let mut v: Vec<(f64, u64)> = Vec::new();
    for h in hs {
        match h {
            Hist::Queue(q) => v.extend(q.iter().map(|e| (*e, 1))),
            Hist::Bins(b) => v.extend(
                b.iter()
                    .enumerate()
                    .filter(|(_, c)| **c > 0)
                    .map(|(i, c)| (bin_center(i), *c)),
            ),
        }
    }
    if v.iter().any(|x| (x.0 / thr - 1.0).abs() < eps) {
        return Exp::Any("block on the -20 LU gate");
    }
    v.retain(|x| x.0 >= thr);
    v.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap());
    let n: u64 = v.iter().map(|x| x.1).sum();
    if n == 0 {
        return Exp::Lu(0.0, 1e-9);
    }
    let at = |p: f64| {
        let mut r = ((n - 1) as f64 * p + 0.5) as u64;
        for x in &v {
            if r < x.1 {
                return x.0;
            }
            r -= x.1;
        }
        v[v.len() - 1].0
    };
    let (h, l) = (at(0.95), at(0.1));
    Exp::Lu(db(h) - db(l), 1e-8 + 5.0 * (tol.energy(h) + tol.energy(l)))
}

impl Model {
    pub fn new(channels: u32, rate: u32, mode: Mode) -> Result<Model, Error> {
        Self::check(channels, rate)?;
        let window = if mode.contains(Mode::S) {
            3000
        } else if mode.contains(Mode::M) {
            400
        } else {
            return Err(Error::InvalidMode);
        };
        let mut m = Model {
            mode,
            rate: 0,
            channels: 0,
            map: vec![],
            window,
            history: usize::MAX,
            s100: 0,
            kw: k_weighting(48000.0),
            ch: vec![],
            frames: 0,
            blocks: Hist::new(mode.contains(Mode::HISTOGRAM)),
            st_blocks: Hist::new(mode.contains(Mode::HISTOGRAM)),
            blocks_measured: 0,
            st_measured: 0,
            amb: false,
            st_amb: false,
            taint: false,
            tp_taint: false,
            inmax: 0.0,
            inmax_ever: 0.0,
            hist_noise: 0.0,
            hist_rel: 0.0,
            h: vec![],
            factor: 1,
            sub_keep: 30,
        };
        m.set_rate_channels(channels as usize, rate);
        Ok(m)
    }

    /// only for its block boundaries
    pub fn clock(channels: u32, rate: u32) -> Model {
        Model::new(channels, rate, Mode::S).unwrap()
    }

    pub fn check(channels: u32, rate: u32) -> Result<(), Error> {
        if channels == 0 || channels > 64 || rate < 16 || rate > 2822400 {
            return Err(Error::NoMem);
        }
        Ok(())
    }

    fn set_rate_channels(&mut self, channels: usize, rate: u32) {
        if channels != self.channels {
            self.map = default_map(channels);
            self.tp_taint = false;
            self.ch = (0..channels).map(|_| Chan::new()).collect();
        }
        self.channels = channels;
        self.rate = rate;
        self.s100 = (rate as usize + 5) / 10;
        self.kw = k_weighting(rate as f64);
        self.factor = fir_factor(rate);
        self.h = fir_taps(self.factor);
        self.clear_filter();
        self.clear_buffer();
    }

    fn clear_filter(&mut self) {
        for c in &mut self.ch {
            c.z = [[0.0; 2]; 2];
            c.fir.clear();
            c.prev_sp = 0.0;
            c.prev_tp = 0.0;
            c.touched = false;
            c.stale = false;
        }
        self.taint = !rate_stable(self.rate);
        self.inmax = 0.0;
    }

    fn clear_buffer(&mut self) {
        for c in &mut self.ch {
            c.ring.clear();
            c.subs.clear();
            c.cur = 0.0;
        }
        self.frames = 0;
    }

    pub fn max_frames(&self) -> usize {
        // the longest window anything is measured over
        (window_frames(self.rate, self.window as u64) as usize).max(self.s100 * (self.window / 100))
    }

    pub fn change_parameters(&mut self, channels: u32, rate: u32) -> Result<(), Error> {
        Self::check(channels, rate)?;
        if channels as usize == self.channels && rate == self.rate {
            return Ok(());
        }
        self.set_rate_channels(channels as usize, rate);
        Ok(())
    }

    pub fn set_max_window(&mut self, ms: u32) {
        let min = if self.mode.contains(Mode::S) { 3000 } else { 400 };
        let w = (ms as usize).max(min);
        if w == self.window {
            return;
        }
        self.window = w;
        self.clear_buffer();
    }

    pub fn set_max_history(&mut self, ms: u32) {
        let min = if self.mode.contains(Mode::LRA) { 3000 } else { 400 };
        let h = (ms as usize).max(min);
        self.history = h;
        if let Hist::Queue(q) = &mut self.blocks {
            while q.len() > h / 100 {
                q.pop_front();
            }
        }
        if let Hist::Queue(q) = &mut self.st_blocks {
            while q.len() > h / 3000 {
                q.pop_front();
            }
        }
    }

    pub fn set_channel(&mut self, i: u32, c: Channel) -> Result<(), Error> {
        if i as usize >= self.channels || (c == Channel::DualMono && self.channels != 1) {
            return Err(Error::InvalidChannelIndex);
        }
        if self.map[i as usize] == Channel::Unused && c != Channel::Unused && self.ch[i as usize].stale {
            self.taint = true;
        }
        self.map[i as usize] = c;
        Ok(())
    }

    pub fn set_channel_map(&mut self, m: &[Channel]) -> Result<(), Error> {
        if m.len() != self.channels
            || (m.contains(&Channel::DualMono) && self.channels != 1)
        {
            return Err(Error::InvalidChannelIndex);
        }
        for (i, c) in m.iter().enumerate() {
            let _ = self.set_channel(i as u32, *c);
        }
        Ok(())
    }

    /// may this channel be switched on now without unspecified leftovers
    pub fn channel_clean(&self, i: usize) -> bool {
        !self.ch[i].stale
    }

    pub fn reset(&mut self) {
        self.clear_filter();
        self.clear_buffer();
        for c in &mut self.ch {
            c.sp = 0.0;
            c.tp = 0.0;
        }
        self.blocks = Hist::new(self.mode.contains(Mode::HISTOGRAM));
        self.st_blocks = Hist::new(self.mode.contains(Mode::HISTOGRAM));
        self.amb = false;
        self.st_amb = false;
        self.tp_taint = false;
        self.inmax_ever = 0.0;
        self.hist_noise = 0.0;
        self.hist_rel = 0.0;
    }

    /// tolerance (amplitude, absolute) of filtered values
    pub fn noise(&self) -> f64 {
        self.inmax * noise_gain(self.rate)
    }
    pub fn rel(&self) -> f64 {
        rel_tol(self.rate)
    }

    fn kfilter(kw: &[Biquad; 2], z: &mut [[f64; 2]; 2], x: f64) -> f64 {
        let mut v = x;
        for i in 0..2 {
            let s = &kw[i];
            let y = s.b[0] * v + z[i][0];
            z[i][0] = s.b[1] * v - s.a[0] * y + z[i][1];
            z[i][1] = s.b[2] * v - s.a[1] * y;
            v = y;
        }
        v
    }

    fn fir(h: &[f64], factor: usize, buf: &mut VecDeque<f64>, x: f64) -> f64 {
        let n = 48 / factor;
        buf.push_front(x);
        buf.truncate(n);
        let mut max = 0.0f64;
        for f in 0..factor {
            let mut acc = 0.0;
            for (t, v) in buf.iter().enumerate() {
                acc += h[t * factor + f] * v;
            }
            max = max.max(acc.abs());
        }
        max
    }

    /// `x` has one vector of exact sample values per channel
    pub fn add(&mut self, x: &[Vec<f64>]) -> Result<(), Error> {
        let n = x[0].len();
        if n == 0 {
            return Ok(());
        }
        let want_sp = self.mode.contains(Mode::SAMPLE_PEAK);
        let want_tp = self.mode.contains(Mode::TRUE_PEAK);
        let ring_max = self.max_frames() + 2 * self.s100;
        let need_blocks = self.mode.intersects(Mode::I | Mode::LRA);
        let frames0 = self.frames;
        for (c, s) in self.ch.iter_mut().enumerate() {
            let used = self.map[c] != Channel::Unused;
            let x = &x[c];
            if !c_peaks(s, x, want_sp, &mut self.inmax) {
                self.taint = true;
                self.tp_taint = true;
            }
            if want_tp {
                s.prev_tp = 0.0;
                if self.factor > 1 {
                    for &v in x {
                        let y = Self::fir(&self.h, self.factor, &mut s.fir, v as f32 as f64);
                        if y > s.prev_tp {
                            s.prev_tp = y;
                        }
                    }
                }
                s.tp = s.tp.max(s.prev_tp);
            }
            if used {
                s.touched = true;
            } else if s.touched {
                s.stale = true;
            }
        }
        self.inmax_ever = self.inmax_ever.max(self.inmax);
        // filter and block sums; blocks are measured when all channels reached the boundary
        let mut pos = 0;
        let mut frames = frames0;
        while pos < n {
            let in_sub = (frames % self.s100 as u64) as usize;
            let m = (self.s100 - in_sub).min(n - pos);
            for (c, s) in self.ch.iter_mut().enumerate() {
                if self.map[c] == Channel::Unused {
                    s.ring.extend(std::iter::repeat(0.0).take(m));
                } else {
                    let mut sum = 0.0;
                    for &v in &x[c][pos..pos + m] {
                        let y = Self::kfilter(&self.kw, &mut s.z, v);
                        s.ring.push_back(y);
                        sum += y * y;
                    }
                    s.cur += sum;
                }
                let l = s.ring.len();
                if l > 2 * ring_max {
                    s.ring.drain(..l - ring_max);
                }
            }
            pos += m;
            frames += m as u64;
            if in_sub + m == self.s100 {
                let subs = frames / self.s100 as u64;
                for s in &mut self.ch {
                    let v = s.cur;
                    s.cur = 0.0;
                    s.subs.push_back(v);
                    if s.subs.len() > self.sub_keep {
                        s.subs.pop_front();
                    }
                }
                if need_blocks {
                    self.block(subs);
                }
            }
        }
        self.frames = frames;
        Ok(())
    }

    fn sub_energy(&self, k: usize) -> f64 {
        let mut e = 0.0;
        for (c, s) in self.ch.iter().enumerate() {
            let w = weight(self.map[c]);
            if w > 0.0 {
                let v: f64 = s.subs.iter().rev().take(k).sum();
                e += w * v;
            }
        }
        e / (k * self.s100) as f64
    }

    fn block(&mut self, subs: u64) {
        self.hist_noise = self.hist_noise.max(self.noise());
        self.hist_rel = self.hist_rel.max(self.rel());
        if self.taint {
            self.amb = true;
            self.st_amb = true;
        }
        if self.mode.contains(Mode::I) && subs >= 4 {
            let e = self.sub_energy(4);
            self.blocks_measured += 1;
            let lim = self.history / 100;
            let noise = self.noise() * (self.channels as f64).sqrt() * 1.2;
            push_block(&mut self.blocks, e, lim, &mut self.amb, noise, self.rate);
        }
        if self.mode.contains(Mode::LRA) && subs >= 30 && (subs - 30) % 10 == 0 {
            let e = self.sub_energy(30);
            self.st_measured += 1;
            let lim = self.history / 3000;
            let noise = self.noise() * (self.channels as f64).sqrt() * 1.2;
            push_block(&mut self.st_blocks, e, lim, &mut self.st_amb, noise, self.rate);
        }
    }

    pub fn seed(&mut self, x: &[Vec<f64>]) {
        let want_tp = self.mode.contains(Mode::TRUE_PEAK);
        for (c, s) in self.ch.iter_mut().enumerate() {
            if self.map[c] != Channel::Unused {
                for &v in &x[c] {
                    Self::kfilter(&self.kw, &mut s.z, v);
                    if !v.is_finite() || v.abs() > 1e12 {
                        self.taint = true;
                        self.tp_taint = true;
                    }
                    if v.abs() > self.inmax {
                        self.inmax = v.abs();
                    }
                }
                if !x[c].is_empty() {
                    s.touched = true;
                }
            } else if s.touched && !x[c].is_empty() {
                s.stale = true;
            }
            if want_tp && self.factor > 1 {
                for &v in &x[c] {
                    Self::fir(&self.h, self.factor, &mut s.fir, v as f32 as f64);
                    if v.abs() > self.inmax {
                        self.inmax = v.abs();
                    }
                    if !v.is_finite() || v.abs() > 1e12 {
                        self.tp_taint = true;
                    }
                }
            }
        }
        self.inmax_ever = self.inmax_ever.max(self.inmax);
    }

    /// energy of the last n frames
    pub fn energy(&self, n: usize) -> f64 {
        let mut e = 0.0;
        for (c, s) in self.ch.iter().enumerate() {
            let w = weight(self.map[c]);
            if w > 0.0 {
                let v: f64 = s.ring.iter().rev().take(n).map(|y| y * y).sum();
                e += w * v;
            }
        }
        e / n as f64
    }

    pub fn momentary(&self) -> Exp {
        if self.taint {
            return Exp::Any("taint");
        }
        Exp::Energy(self.energy(self.s100 * 4))
    }
    pub fn shortterm(&self) -> Exp {
        if self.window < 3000 {
            // rounding the buffer size up may have made it just long enough
            let cap = (self.max_frames()).div_ceil(self.s100) * self.s100;
            if cap >= 30 * self.s100 {
                return Exp::Any("slightly larger than the maximum window");
            }
            return Exp::Err(Error::InvalidMode);
        }
        if self.taint {
            return Exp::Any("taint");
        }
        Exp::Energy(self.energy(self.s100 * 30))
    }
    pub fn window(&self, ms: u32) -> Exp {
        let n = window_frames(self.rate, ms as u64);
        let cap = self.max_frames() as u64;
        if ms as usize > self.window && n <= cap.div_ceil(self.s100 as u64) * self.s100 as u64 {
            return Exp::Any("slightly larger than the maximum window");
        }
        if ms as usize > self.window {
            return Exp::Err(Error::InvalidMode);
        }
        if n == 0 {
            return Exp::Any("empty window");
        }
        if self.taint {
            return Exp::Any("taint");
        }
        Exp::Energy(self.energy(n as usize))
    }

    pub fn hist_tol(&self) -> HistTol {
        if let Hist::Bins(_) = self.blocks {
            // only the bins count, and ambiguous ones have been noticed
            return HistTol { rel: 1e-10, noise: 0.0 };
        }
        HistTol { rel: 2.0 * self.hist_rel + 5e-8, noise: self.hist_noise * (self.channels as f64).sqrt() * 1.2 }
    }

    pub fn global(&self) -> Exp {
        if !self.mode.contains(Mode::I) {
            return Exp::Err(Error::InvalidMode);
        }
        if self.amb {
            return Exp::Any("ambiguous block");
        }
        match gated(&[&self.blocks], self.hist_tol()) {
            Err(w) => Exp::Any(w),
            Ok(None) => Exp::Energy(0.0),
            Ok(Some((n, s))) => Exp::Energy(s / n as f64),
        }
    }
    pub fn gating_count(&self) -> Result<Option<(u64, f64)>, &'static str> {
        if self.amb {
            return Err("ambiguous block");
        }
        gated(&[&self.blocks], self.hist_tol())
    }
    pub fn rel_threshold(&self) -> Exp {
        if !self.mode.contains(Mode::I) {
            return Exp::Err(Error::InvalidMode);
        }
        if self.amb {
            return Exp::Any("ambiguous block");
        }
        match mean_energy(&[&self.blocks]) {
            None => Exp::Energy(undb(-70.0)),
            Some(m) => Exp::Energy(m * 0.1),
        }
    }
    pub fn range(&self) -> Exp {
        if !self.mode.contains(Mode::LRA) {
            return Exp::Err(Error::InvalidMode);
        }
        if self.st_amb {
            return Exp::Any("ambiguous block");
        }
        lra(&[&self.st_blocks], self.hist_tol())
    }
    fn tp_tol(&self) -> f64 {
        4e-6 * self.inmax_ever + 1e-36
    }
    fn peak(&self, i: u32, m: Mode, f: impl Fn(&Chan) -> f64, tol: f64) -> Exp {
        if !self.mode.contains(m) {
            return Exp::Err(Error::InvalidMode);
        }
        if i as usize >= self.channels {
            return Exp::Err(Error::InvalidChannelIndex);
        }
        let v = f(&self.ch[i as usize]);
        Exp::Peak(v, tol)
    }
    pub fn sample_peak(&self, i: u32) -> Exp {
        self.peak(i, Mode::SAMPLE_PEAK, |c| c.sp, 0.0)
    }
    pub fn prev_sample_peak(&self, i: u32) -> Exp {
        self.peak(i, Mode::SAMPLE_PEAK, |c| c.prev_sp, 0.0)
    }
    pub fn true_peak(&self, i: u32) -> Exp {
        if self.tp_taint && self.mode.contains(Mode::TRUE_PEAK) && (i as usize) < self.channels {
            return Exp::Any("non-finite samples");
        }
        self.peak(i, Mode::TRUE_PEAK, |c| c.sp.max(c.tp), self.tp_tol())
    }
    pub fn prev_true_peak(&self, i: u32) -> Exp {
        if self.tp_taint && self.mode.contains(Mode::TRUE_PEAK) && (i as usize) < self.channels {
            return Exp::Any("non-finite samples");
        }
        self.peak(i, Mode::TRUE_PEAK, |c| c.prev_sp.max(c.prev_tp), self.tp_tol())
    }
    pub fn frames(&self) -> u64 {
        self.frames
    }
    /// all frames have been fed to a clean filter since the audio buffer was cleared
    #[allow(dead_code)]
    pub fn untouched(&self) -> bool {
        self.ch.iter().all(|c| !c.touched) && self.frames == 0
    }
}

/// false if there was something the model makes no statement about
fn c_peaks(s: &mut Chan, x: &[f64], want: bool, inmax: &mut f64) -> bool {
    let mut m = 0.0;
    let mut ok = true;
    for &v in x {
        if v.abs() > m {
            m = v.abs();
        }
        if !v.is_finite() {
            ok = false;
        }
    }
    if m > 1e12 {
        ok = false;
    }
    if m > *inmax {
        *inmax = m;
    }
    if want {
        s.prev_sp = m;
        s.sp = s.sp.max(m);
    }
    ok
}

fn push_block(h: &mut Hist, e: f64, lim: usize, amb: &mut bool, noise: f64, rate: u32) {
    let gate = undb(GATE_DB);
    let tol = 2.0 * rel_tol(rate) + 1e-7 + 2.0 * noise / gate.max(e).sqrt();
    if e > 0.0 && (e / gate - 1.0).abs() < tol {
        *amb = true;
    }
    if !(e >= gate) {
        return;
    }
    match h {
        Hist::Queue(q) => {
            if lim == 0 {
                return;
            }
            while q.len() >= lim {
                q.pop_front();
            }
            q.push_back(e);
        }
        Hist::Bins(b) => {
            let i = bin_of(e);
            // boundaries are 0.1 LU apart: only really close ones are ambiguous
            let x = (db(e) - GATE_DB) * 10.0;
            if (x - x.round()).abs() < 50.0 * tol + 1e-9 && x < 999.5 {
                *amb = true;
            }
            b[i] += 1;
        }
    }
}

impl Model {
    /// only the clock: for chunk boundaries
    pub fn skip(&mut self, n: u64) {
        self.frames += n;
    }
}
