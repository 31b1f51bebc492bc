//! Every pair of signals is answered: a score, or the documented reason why there is none.

use crate::api::*;
use crate::conform::same_failure;
use crate::ensure;
use crate::fw::*;
use crate::model::{self, Fail};
use crate::sig::*;

#[derive(Clone, Debug)]
struct L {
    cfg: Cfg,
    rate: u32,
    radius: usize,
    nr: usize,
    nd: usize,
    kind: (Seg, Seg),
}

fn answer(l: &L, o: &mut Obs) -> Verdict {
    let r = segment(l.kind.0, l.rate.max(1), l.nr, 1);
    let d = if l.kind.0 == l.kind.1 { segment(l.kind.0, l.rate.max(1), l.nd.max(l.nr), 1)[..l.nd].to_vec() } else { segment(l.kind.1, l.rate.max(1), l.nd, 2) };
    o.step(1);
    let x = compare(&l.cfg, l.radius, &r, &d, l.rate).map_err(|p| format!("comparison panicked: {p}"))?;
    o.state(&(&l.cfg, l.rate, l.nr, l.nd, x.is_ok()));
    let (w, h) = (model::window_size(l.rate), model::hop_size(l.rate));
    // the reference length decides alone whether it can be scored
    let cols = if h == 0 || l.nr < w { 0 } else { 1 + (l.nr - w) / h };
    let need = if l.cfg == FB { 45 } else { 29 };
    match &x {
        Ok(x) => {
            o.outcome("scored");
            ensure!(flat(x).iter().all(|v| v.is_finite()), "a number is not finite");
            ensure!(cols >= need, "scored with {cols} reference frames, {need} are needed");
            ensure!(!x.patch_sims.is_empty(), "scored without a patch");
        }
        Err(e) => {
            ensure!(!e.is_empty(), "refused without a reason");
            let m = model::visqol(&r, &d, l.rate, &l.cfg.model(), l.radius.min(1 << 20));
            o.trace();
            match m {
                Ok(m) if m.ambiguous => o.outcome("refused under one of several equal lags"),
                Ok(_) => return Err(format!("refused with {e:?} though it can be scored")),
                Err(f) => {
                    o.outcome(format!("{f:?}").split([' ', '{']).next().unwrap().to_string());
                    o.sample(format!("{l:?}: {e}"));
                    // a lag chosen between equals may leave a different number of samples
                    let exact = l.kind.0 != Silence && f != Fail::TooDifferent && (matches!(f, Fail::SpectrogramTooSmall { .. } | Fail::RateTooLow) || matches!(f, Fail::TooFewSamples { found, .. } if found == l.nr));
                    if exact {
                        ensure!(same_failure(&f, e, l.rate), "refused with {e:?}, expected {f:?}");
                    }
                }
            }
        }
    }
    Ok(())
}

pub fn run(fw: &Fw) {
    let key = |l: &L| format!("{} rate={} radius={} lengths={}/{} {:?}", l.cfg.short(), l.rate, l.radius, l.nr, l.nd, l.kind);
    let lens: Vec<usize> = {
        let mut v: Vec<usize> = (0..20).collect();
        v.extend([21, 32, 33, 40, 63, 64, 65, 79, 80, 81, 99, 100, 101, 128, 159, 200, 299, 400, 559, 600, 638, 639, 640, 641, 660, 700, 900, 959, 960, 961, 1000, 1200, 2000]);
        if fw.thorough {
            v.extend((100..1000).step_by(37));
            v.sort();
            v.dedup();
        }
        v
    };
    let mut ls = vec![];
    for cfg in [WB, FB] {
        for nr in &lens {
            for nd in &lens {
                for kind in [(Noise, Noise), (Noise, Silence), (Silence, Noise), (Silence, Silence)] {
                    if kind != (Noise, Noise) && (nr + nd) % 3 != 0 && !fw.thorough {
                        continue;
                    }
                    ls.push(L { cfg: cfg.clone(), rate: 1000, radius: 60, nr: *nr, nd: *nd, kind });
                }
            }
        }
    }
    fw.family("lengths", "all pairs of 50 signal lengths from 0 to 2000 samples x silence and noise x modes", &ls, key, answer);
    let mut rs = vec![];
    for rate in (0..=fw.pick(220u32, 1200)).chain([999, 1 << 16, 1_000_000]) {
        for frames in [29usize, 45, 80] {
            for cfg in [WB, FB] {
                let n = (rate as usize * (frames * 20 + 60) / 1000 + 8).min(3000);
                for kind in [(Noise, Noise), (Noise, Voice)] {
                    rs.push(L { cfg: cfg.clone(), rate, radius: 60, nr: n, nd: n, kind });
                }
            }
        }
    }
    fw.family("sample-rates", "every sample rate from 0 Hz up (220 quick, 1200 thorough) and very high ones", &rs, key, answer);
    let mut ws = vec![];
    for cfg in [WB, FB] {
        for radius in (0..=fw.pick(8usize, 70)).chain([60, 1000, 1 << 16, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, 1 << 40, usize::MAX / 2, usize::MAX]) {
            for (nr, nd) in [(960usize, 960usize), (1500, 700), (1500, 300), (1500, 100), (1500, 2400), (3000, 1500)] {
                ws.push(L { cfg: cfg.clone(), rate: 1000, radius, nr, nd, kind: (Voice, Voice) });
            }
        }
    }
    fw.family("search-radii", "search radii 0.. and up to the largest representable x length pairs", &ws, key, answer);
    // extreme sample values
    let vals = [0.0, 1.0, -1.0, 1e-300, 1e-30, 1e10, 1e100, -1e30, f64::MIN_POSITIVE];
    let mut vs = vec![];
    for cfg in [WB, FB] {
        for a in 0..vals.len() {
            for b in 0..vals.len() {
                for shape in 0..3usize {
                    vs.push((cfg.clone(), a, b, shape));
                }
            }
        }
    }
    fw.family("extreme-values", "constant, alternating and single-impulse signals of magnitudes from 1e-300 to 1e100 on either side", &vs, |v| format!("{} {:e} {:e} shape {}", v.0.short(), vals[v.1], vals[v.2], v.3), |(cfg, a, b, s), o| {
        let mk = |v: f64| -> Vec<f64> { (0..1000).map(|i| match s { 0 => v, 1 => if i % 2 == 0 { v } else { -v }, _ => if i == 500 { v } else { 0.0 } }).collect() };
        o.step(1);
        let x = compare(cfg, 1, &mk(vals[*a]), &mk(vals[*b]), 1000).map_err(|p| format!("comparison panicked: {p}"))?;
        o.state(&(cfg, a, b, s, x.is_ok()));
        match x {
            Ok(x) => {
                o.outcome("scored");
                ensure!((1.0..=5.0).contains(&x.moslqo), "scored {}", x.moslqo);
            }
            Err(_) => o.outcome("refused"),
        }
        Ok(())
    });
}
