//! Small workload for Miri: `vh-miri SEED SHARD SHARDS [1]`. Prints how much was done; a panic, an
//! undefined operation or a data race ends it.
#[allow(dead_code)]
mod rng;
use ebur128::{Channel, EbuR128, Mode};
use rng::Rng;

fn feed(r: &mut Rng, e: &mut EbuR128, n: usize) {
    let ch = e.channels() as usize;
    let seed = r.chance(0.2);
    macro_rules! go {
        ($f:expr, $ai:ident, $si:ident, $ap:ident, $sp:ident) => {{
            if r.chance(0.5) {
                let d: Vec<_> = (0..n * ch).map(|_| $f(r.frange(-1.0, 1.0))).collect();
                let _ = if seed { e.$si(&d) } else { e.$ai(&d) };
            } else {
                let d: Vec<Vec<_>> = (0..ch)
                    .map(|_| (0..n).map(|_| $f(r.frange(-1.0, 1.0))).collect())
                    .collect();
                let p: Vec<&[_]> = d.iter().map(|c| &c[..]).collect();
                let _ = if seed { e.$sp(&p) } else { e.$ap(&p) };
            }
        }};
    }
    match r.below(4) {
        0 => go!(
            |v: f64| (v * 32768.0) as i16,
            add_frames_i16,
            seed_frames_i16,
            add_frames_planar_i16,
            seed_frames_planar_i16
        ),
        1 => go!(
            |v: f64| (v * 2147483648.0) as i32,
            add_frames_i32,
            seed_frames_i32,
            add_frames_planar_i32,
            seed_frames_planar_i32
        ),
        2 => go!(
            |v: f64| v as f32,
            add_frames_f32,
            seed_frames_f32,
            add_frames_planar_f32,
            seed_frames_planar_f32
        ),
        _ => go!(
            |v: f64| v,
            add_frames_f64,
            seed_frames_f64,
            add_frames_planar_f64,
            seed_frames_planar_f64
        ),
    }
}

fn ask(e: &EbuR128) {
    let _ = (
        e.loudness_global(),
        e.relative_threshold(),
        e.gating_block_count_and_energy(),
        e.loudness_range(),
    );
    let _ = (
        e.loudness_momentary(),
        e.loudness_shortterm(),
        e.loudness_window(400),
        e.loudness_window(u32::MAX),
    );
    for c in 0..e.channels() + 1 {
        let _ = (
            e.sample_peak(c),
            e.prev_sample_peak(c),
            e.true_peak(c),
            e.prev_true_peak(c),
        );
    }
    let _ = (
        EbuR128::loudness_global_multiple([e, e].into_iter()),
        EbuR128::loudness_range_multiple([e, e]),
    );
}

fn main() {
    let a: Vec<u64> = std::env::args()
        .skip(1)
        .filter_map(|v| v.parse().ok())
        .collect();
    let (seed, shard, shards) = (a[0], a[1], a[2].max(1));
    let full = a.get(3) == Some(&1);
    let mut calls = 0u64;
    let mut insts = 0u64;
    // every interpolator: channels 1..=9 (specialised and generic), three rate classes
    let mut k = 0;
    for ch in [1u32, 2, 3, 4, 5, 6, 7, 8, 9, 24] {
        for rate in [20u32, 96000, 192000] {
            // (the audio buffer is large at these rates)
            let most = match (rate, full) {
                (20, true) => 24,
                (20, false) => 9,
                (96000, true) => 9,
                (96000, false) => 2,
                (_, true) => 2,
                (_, false) => 1,
            };
            if ch > most {
                continue;
            }
            k += 1;
            if k % shards != shard {
                continue;
            }
            let mut r = Rng::new(seed.wrapping_mul(1000).wrapping_add(k));
            // (the smallest buffer: momentary only)
            let mut e = match EbuR128::new(ch, rate, Mode::M | Mode::TRUE_PEAK) {
                Ok(e) => e,
                Err(e) => panic!("new: {e}"),
            };
            insts += 1;
            for n in [1usize, 2, 17, 0, 5] {
                feed(&mut r, &mut e, n);
                calls += 1;
            }
            for c in 0..ch {
                let _ = (e.sample_peak(c), e.true_peak(c), e.prev_true_peak(c));
            }
            if rate == 20 || full {
                e.reset();
            }
            feed(&mut r, &mut e, 3);
            calls += 2;
        }
    }
    // blocks, buffer wrap, histories and everything else at a low rate
    for case in 0..if full { 24u64 } else { 6 } {
        k += 1;
        if k % shards != shard {
            continue;
        }
        let mut r = Rng::new(seed.wrapping_mul(7777).wrapping_add(k));
        let rate = r.range(16, 60) as u32;
        let ch = r.range(1, 4) as u32;
        let hist = if case % 2 == 0 {
            Mode::HISTOGRAM
        } else {
            Mode::empty()
        };
        let mut e = match EbuR128::new(ch, rate, Mode::I | Mode::LRA | Mode::SAMPLE_PEAK | hist) {
            Ok(e) => e,
            Err(e) => panic!("new: {e}"),
        };
        insts += 1;
        for step in 0..14 {
            let n = r.logrange(1, rate as u64 * 2) as usize;
            feed(&mut r, &mut e, n);
            calls += 1;
            match step {
                3 | 9 => ask(&e),
                5 => {
                    let _ = e.set_max_window(r.range(3000, 4000) as u32);
                    let _ = e.set_channel(0, Channel::DualMono);
                }
                7 => {
                    let _ = e.change_parameters(r.range(1, 4) as u32, r.range(16, 40) as u32);
                    let _ = e.set_max_history(3000);
                }
                10 => e.reset(),
                11 => {
                    // refused
                    let n = e.channels() as usize + 1;
                    let _ = e.add_frames_f32(&vec![0.5; n]);
                    let _ = e.add_frames_planar_f32(&[&[0.5][..], &[][..]]);
                    let _ = e.change_parameters(0, 0);
                }
                _ => (),
            }
        }
        std::thread::scope(|s| {
            s.spawn(|| ask(&e));
            s.spawn(|| ask(&e));
        });
        calls += 100;
        if case == 1 {
            let _ = format!("{e:?}");
        }
    }
    println!("miri instances={insts} calls={calls}");
}
