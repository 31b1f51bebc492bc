//! The signal alphabet: words over segment kinds, and degradation operations.

use std::f64::consts::PI;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Seg {
    Silence,
    Tone,
    Low,
    Noise,
    Bursts,
    Quiet,
    Chirp,
    Voice,
    Dc,
    Square,
    NegDc,
    Loud,
    LoudTone,
}
pub use Seg::*;

pub fn lcg(seed: u64) -> impl FnMut() -> f64 {
    let mut s = seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03;
    move || {
        s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        ((s >> 33) as f64 / (1u64 << 30) as f64) - 1.0
    }
}

pub fn segment(kind: Seg, rate: u32, n: usize, pos: usize) -> Vec<f64> {
    let r = rate as f64;
    let mut rnd = lcg(pos as u64 * 7919 + 17);
    (0..n)
        .map(|i| {
            let t = i as f64 / r;
            let ph = pos as f64 * 0.37;
            match kind {
                Silence => 0.0,
                Tone => 0.5 * (2.0 * PI * 0.19 * r.min(8000.0) * t + ph).sin(),
                Low => 0.3 * (2.0 * PI * 71.0 * t + ph).sin(),
                Noise => 0.5 * rnd(),
                Bursts => {
                    if (i * 10 / n.max(1)) % 3 == pos % 3 {
                        0.9 * rnd()
                    } else {
                        0.0
                    }
                }
                Quiet => 0.01 * rnd(),
                Chirp => 0.4 * (2.0 * PI * (60.0 + (0.15 + 0.05 * (pos % 4) as f64) * r * t) * t).sin(),
                Voice => {
                    let f0 = 90.0 + 13.0 * (pos % 5) as f64;
                    let a = 0.25 + 0.2 * (2.0 * PI * 5.0 * t + ph).sin();
                    a * ((2.0 * PI * f0 * t).sin() + 0.5 * (2.0 * PI * 2.0 * f0 * t + 1.0).sin() + 0.3 * rnd())
                }
                Dc => 0.5,
                NegDc => -0.4,
                // samples in memory are not limited to full scale: here the relative noise floor acts
                Loud => 1000.0 * (0.3 * (2.0 * PI * 110.0 * t).sin() + 0.0005 * rnd()),
                LoudTone => 1000.0 * (2.0 * PI * 150.0 * t).sin(),
                Square => {
                    if (i / (rate as usize / 125).max(2)) % 2 == 0 {
                        1.0
                    } else {
                        -1.0
                    }
                }
            }
        })
        .collect()
}

pub fn word(w: &[Seg], rate: u32, seg_len: usize) -> Vec<f64> {
    w.iter().enumerate().flat_map(|(i, k)| segment(*k, rate, seg_len, i)).collect()
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op {
    Noise(f64),
    LowPass,
    Gain(f64),
    Delay(usize),
    Advance(usize),
    Dropout(f64, f64),
    Insert(f64, usize),
    Cut(f64, usize),
    Trunc(f64),
    Extend(usize),
    Clip(f64),
    Swap,
    Reverse,
    Invert,
    Replace(u64),
    Silent,
}

pub fn apply(op: Op, x: &[f64]) -> Vec<f64> {
    let n = x.len();
    let at = |f: f64| ((n as f64 * f) as usize).min(n);
    match op {
        Op::Noise(a) => {
            let mut r = lcg(4242);
            x.iter().map(|v| v + a * r()).collect()
        }
        Op::LowPass => {
            let mut y = 0.0;
            x.iter()
                .map(|v| {
                    y += 0.3 * (v - y);
                    y
                })
                .collect()
        }
        Op::Gain(g) => x.iter().map(|v| v * g).collect(),
        Op::Delay(k) => {
            let mut v = vec![0.0; k];
            v.extend_from_slice(x);
            v
        }
        Op::Advance(k) => x[k.min(n)..].to_vec(),
        Op::Dropout(a, b) => x.iter().enumerate().map(|(i, v)| if i >= at(a) && i < at(b) { 0.0 } else { *v }).collect(),
        Op::Insert(f, k) => {
            let p = at(f);
            let mut v = x[..p].to_vec();
            v.extend(std::iter::repeat(0.0).take(k));
            v.extend_from_slice(&x[p..]);
            v
        }
        Op::Cut(f, k) => {
            let p = at(f);
            let mut v = x[..p].to_vec();
            v.extend_from_slice(&x[(p + k).min(n)..]);
            v
        }
        Op::Trunc(f) => x[..at(f)].to_vec(),
        Op::Extend(k) => {
            let mut r = lcg(777);
            let mut v = x.to_vec();
            v.extend((0..k).map(|_| 0.2 * r()));
            v
        }
        Op::Clip(c) => x.iter().map(|v| v.clamp(-c, c)).collect(),
        Op::Swap => {
            let mut v = x[n / 2..].to_vec();
            v.extend_from_slice(&x[..n / 2]);
            v
        }
        Op::Reverse => x.iter().rev().cloned().collect(),
        Op::Invert => x.iter().map(|v| -v).collect(),
        Op::Replace(s) => {
            let mut r = lcg(s);
            x.iter().map(|_| 0.4 * r()).collect()
        }
        Op::Silent => vec![0.0; n],
    }
}

pub fn degrade(ops: &[Op], x: &[f64]) -> Vec<f64> {
    ops.iter().fold(x.to_vec(), |v, o| apply(*o, &v))
}

pub const SEGS: [Seg; 6] = [Noise, Silence, Tone, Voice, Low, Bursts];
pub fn ops() -> Vec<Op> {
    vec![
        Op::Noise(0.05),
        Op::Noise(0.5),
        Op::LowPass,
        Op::Gain(0.1),
        Op::Delay(7),
        Op::Delay(200),
        Op::Advance(11),
        Op::Dropout(0.4, 0.6),
        Op::Insert(0.5, 60),
        Op::Cut(0.5, 60),
        Op::Trunc(0.7),
        Op::Clip(0.2),
    ]
}
