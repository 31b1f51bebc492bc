//! Wideband quality mapping.

use crate::api::*;
use crate::cases::*;
use crate::ensure;
use crate::fw::*;
use crate::model;
use crate::sig::*;
use std::sync::Mutex;

pub fn run(fw: &Fw) {
    let mut o = ops();
    for a in [0.001, 0.003, 0.01, 0.02, 0.04, 0.08, 0.15, 0.25, 0.4, 0.7, 1.0, 2.0, 5.0] {
        o.push(Op::Noise(a));
    }
    o.extend([Op::Replace(3), Op::Silent, Op::Reverse, Op::Swap, Op::Invert]);
    let segs = [Noise, Voice, Tone, Bursts, Silence, Square];
    let mut cs = space(&[WB], &[1000], &[1], &segs[..fw.pick(4, 6)], 2, &o, 1);
    cs.extend(space(&[WB], &[1000], &[0], &[Noise, Tone], 1, &o, 2));
    // a fine scan of the whole similarity range
    for k in 0..fw.pick(120, 600) {
        for s in [Noise, Voice, Bursts] {
            let a = 0.003 * 10f64.powf(k as f64 / fw.pick(120.0, 600.0) * 4.2);
            cs.push(Case { cfg: WB, rate: 1000, radius: 0, word: vec![s], seg: 720, ops: vec![Op::Noise(a)] });
        }
    }
    if fw.thorough {
        cs.extend(space(&[WB], &[1000], &[1], &[Noise, Voice, Tone], 2, &o, 2));
    }
    let seen: Mutex<Vec<(f64, f64, f64, String)>> = Mutex::new(vec![]);
    fw.family("mapping", "words x degradation sequences, scored with both mappings: scaled and unscaled score against the reported similarity", &cs, |c| c.key(), |c, o| {
        let (r, d) = c.pair();
        let a = compare(&WB, c.radius, &r, &d, c.rate).map_err(|p| format!("comparison panicked: {p}"))?;
        let b = compare(&WBU, c.radius, &r, &d, c.rate).map_err(|p| format!("comparison panicked: {p}"))?;
        o.step(2);
        let (a, b) = match (a, b) {
            (Ok(a), Ok(b)) => (a, b),
            (Err(a), Err(b)) => {
                o.outcome("refused");
                ensure!(a == b, "the mapping changes the reason of a refusal: {a} / {b}");
                return Ok(());
            }
            (a, b) => return Err(format!("scored under one mapping only: {:?} / {:?}", a.map(|a| a.moslqo), b.map(|b| b.moslqo))),
        };
        o.trace();
        o.state_f(&[a.vnsim, a.moslqo, b.moslqo]);
        let mut fa = flat(&a);
        let mut fb = flat(&b);
        fa[0] = 0.0;
        fb[0] = 0.0;
        ensure!(fa.iter().zip(&fb).all(|(x, y)| x.to_bits() == y.to_bits()), "the choice of mapping changed more than the score");
        let v = a.vnsim;
        let want = |scaled| if v < 0.15 { 1.0 } else { model::speech_mos(v, scaled) };
        if (v - 0.15).abs() > 1e-9 {
            ensure!(close(a.moslqo, want(true), 1e-9), "similarity {v} is scored {}, the mapping gives {}", a.moslqo, want(true));
            ensure!(close(b.moslqo, want(false), 1e-9), "similarity {v} is scored {} unscaled, the mapping gives {}", b.moslqo, want(false));
        }
        ensure!(b.moslqo <= a.moslqo + 1e-12, "the unscaled score {} exceeds the scaled one {}", b.moslqo, a.moslqo);
        o.outcome(format!("similarity {:.1}", v));
        o.sample(format!("{} similarity {v} -> {} scaled, {} unscaled", c.key(), a.moslqo, b.moslqo));
        seen.lock().unwrap().push((v, a.moslqo, b.moslqo, c.key()));
        Ok(())
    });
    // across all of them the score never falls when the similarity rises
    let mut s = seen.into_inner().unwrap();
    s.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap());
    let pairs: Vec<_> = s.windows(2).map(|w| (w[0].clone(), w[1].clone())).collect();
    fw.family("monotone", "all pairs of neighbouring similarities met above", &pairs, |p| format!("{} / {}", p.0 .3, p.1 .3), |(a, b), o| {
        o.trace();
        ensure!(a.1 <= b.1 + 1e-12 && a.2 <= b.2 + 1e-12, "similarity {} scores {}/{}, the higher {} scores {}/{}", a.0, a.1, a.2, b.0, b.1, b.2);
        o.outcome("monotone");
        Ok(())
    });
}
