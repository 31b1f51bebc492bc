//! The playback level of the degraded signal does not influence the result.

use crate::api::*;
use crate::cases::*;
use crate::ensure;
use crate::fw::*;
use crate::model;
use crate::sig::*;

pub fn run(fw: &Fw) {
    let gains = [0.5, 2.0, 0.1, 0.01, 10.0, 0.001, 1.0 / 3.0];
    let mut cs = space(&[WB], &[1000], &[60], &[Noise, Silence, Voice, Tone], 2, &ops(), 1);
    cs.extend(space(&[WB], &[1000], &[60], &[Noise, Voice], 3, &ops(), 1));
    cs.extend(space(&[FB], &[1000], &[60], &[Noise, Silence, Voice], fw.pick(1, 2), &ops(), 1));
    cs.extend(space(&[WB, FB], &[8000, 16000], &[2], &[Noise, Voice], 1, &ops()[..3], 1));
    cs.extend(long_cases(fw.thorough, &[Op::Noise(0.05), Op::LowPass]));
    cs.extend(count_cases(&[WB, FB], fw.pick(12, 30), 2, &[Op::Noise(0.05)]));
    if fw.thorough {
        cs.extend(space(&[WB], &[2000], &[60], &[Noise, Silence, Voice, Low], 3, &ops(), 1));
        cs.extend(space(&[WB], &[1000], &[60], &[Noise, Voice], 2, &ops(), 2));
    }
    let cs: Vec<(Case, f64)> = cs.into_iter().enumerate().flat_map(|(i, c)| (0..fw.pick(2, gains.len())).map(move |k| (c.clone(), i, k))).map(|(c, i, k)| (c, gains[(i + k) % gains.len()])).collect();
    fw.family("gain", "words x degradations x modes, degraded signal rescaled", &cs, |c| format!("{} gain={}", c.0.key(), c.1), |(c, g), o| {
        let (r, d) = c.pair();
        let d2: Vec<f64> = d.iter().map(|v| v * g).collect();
        let Ok(m) = c.model() else {
            o.outcome("refused");
            return Ok(());
        };
        // a lag or match chosen between equals may flip under rounding
        let m2 = model::visqol(&r, &d2, c.rate, &c.cfg.model(), c.radius).map_err(|e| format!("model: {e:?}"))?;
        if m.ambiguous || m2.ambiguous || m2.lag != m.lag {
            o.outcome("ambiguous match");
            return Ok(());
        }
        let a = score(&c.cfg, c.radius, &r, &d, c.rate)?;
        let b = score(&c.cfg, c.radius, &r, &d2, c.rate)?;
        o.step(2);
        o.trace();
        o.state_f(&flat(&b));
        o.outcome("compared");
        o.sample(format!("{} x{g}: {} / {}", c.key(), a.moslqo, b.moslqo));
        let e = 1e-5;
        ensure!(close(a.moslqo, b.moslqo, e) && close(a.vnsim, b.vnsim, e), "moslqo {} vnsim {} became {} {} when the degraded signal was scaled by {g}", a.moslqo, a.vnsim, b.moslqo, b.vnsim);
        ensure!(close_v(&a.fvnsim, &b.fvnsim, e), "band similarities changed with a gain of {g}: {:?} {:?}", a.fvnsim, b.fvnsim);
        ensure!(a.patch_sims.len() == b.patch_sims.len(), "the number of patches changed with a gain of {g}");
        for (p, q) in a.patch_sims.iter().zip(&b.patch_sims) {
            ensure!(close(p.similarity, q.similarity, e), "a patch similarity changed from {} to {} with a gain of {g}", p.similarity, q.similarity);
        }
        if !m.any_tight && !m2.any_tight {
            ensure!(close_v(&a.fvdegenergy, &b.fvdegenergy, e), "degraded energies changed with a gain of {g}: {:?} {:?}", a.fvdegenergy, b.fvdegenergy);
        }
        Ok(())
    });
    // identity at another level is still a perfect match
    let cs: Vec<(Case, f64)> = space(&[WB, WBU, FB], &[1000], &[60], &[Noise, Voice, Low, Bursts, Square], 2, &[], 0).into_iter().flat_map(|c| gains.iter().map(move |g| (c.clone(), *g))).filter(|c| c.0.cfg != FB || c.1 == 0.01 || c.1 == 10.0).collect();
    let cs = cs.into_iter().chain(long_cases(fw.thorough, &[]).into_iter().chain(count_cases(&[WB, FB], 16, 2, &[])).enumerate().map(|(i, c)| (c, gains[i % gains.len()]))).collect::<Vec<_>>();
    fw.family("rescaled-copy", "words x modes x gains, up to 75 patches: a rescaled copy of the reference", &cs, |c| format!("{} gain={}", c.0.key(), c.1), |(c, g), o| {
        let r = c.reference();
        let d: Vec<f64> = r.iter().map(|v| v * g).collect();
        let x = score(&c.cfg, c.radius, &r, &d, c.rate)?;
        o.step(1);
        o.trace();
        o.state_f(&d);
        super::c03::is_perfect(&x, &c.cfg, false)
    });
}
