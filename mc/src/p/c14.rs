//! Noise floor: what lies below the floor of the comparison does not count, and digital silence is harmless.

use crate::api::*;
use crate::cases::*;
use crate::conform::conform;
use crate::ensure;
use crate::fw::*;
use crate::sig::*;

pub fn run(fw: &Fw) {
    let gains = [1e-1, 1e-2, 1e-3, 1e-4, 1e-5, 1e-6];
    let mut cs = vec![];
    let mut o: Vec<Op> = vec![];
    for a in [1e-7, 1e-6, 3e-6, 1e-5, 3e-5, 1e-4, 3e-4, 1e-3, 1e-2, 0.1] {
        o.push(Op::Noise(a));
    }
    o.extend([Op::Dropout(0.3, 0.5), Op::Silent, Op::LowPass]);
    cs.extend(space(&[WB], &[1000], &[1], &[Noise, Voice, Tone, Silence, Quiet, Low], 2, &o, 1));
    cs.extend(space(&[FB], &[1000], &[1], &[Noise, Voice, Tone, Silence, Quiet], fw.pick(1, 2), &o, 1));
    cs.extend(space(&[WB], &[1000], &[1], &[Silence, Tone], 1, &o, 2));
    cs.extend(space(&[WB], &[8000], &[0], &[Tone, Voice], 1, &o, 1));
    // beyond full scale the floor relative to the loudest band of a frame acts
    let mut l = o.clone();
    l.extend([Op::Noise(3.0), Op::Noise(30.0), Op::Noise(300.0), Op::Dropout(0.3, 0.7), Op::Swap]);
    cs.extend(space(&[WB], &[1000], &[1], &[Loud, LoudTone, Noise, Silence, Quiet], 2, &l, 1).into_iter().filter(|c| c.word.iter().any(|s| matches!(s, Loud | LoudTone))));
    cs.extend(space(&[FB], &[1000], &[1], &[Loud, LoudTone], 1, &l, 1));
    cs.extend(space(&[WB, WBU], &[8000], &[0], &[Loud], 1, &l, 1));
    if fw.thorough {
        cs.extend(space(&[WB], &[1000], &[1], &[Noise, Voice, Tone, Silence, Quiet, Low], 3, &o, 1));
        cs.extend(space(&[WB], &[1000], &[1], &[Noise, Tone, Silence], 2, &o, 2));
    }
    cs.extend(long_cases(fw.thorough, &[Op::Noise(1e-4), Op::Dropout(0.3, 0.5)]));
    cs.extend(count_cases(&[WB, FB], fw.pick(8, 30), 1, &[Op::Noise(1e-3), Op::Dropout(0.3, 0.5)]));
    fw.family("floor", "words with silent, quiet and tonal segments x disturbances from far below to far above the floor x modes, against the reference", &cs, |c| c.key(), conform);
    // both signals quiet: the absolute floor
    let mut qs = vec![];
    for cfg in [WB, FB] {
        for g in gains {
            for w in seg_words(&[Noise, Voice, Tone, Silence], 1, fw.pick(1, 2)) {
                for op in [Op::Noise(0.2), Op::LowPass, Op::Noise(1e-4), Op::Dropout(0.3, 0.5)] {
                    qs.push((cfg.clone(), g, w.clone(), op));
                }
            }
        }
    }
    fw.family("quiet-pairs", "both signals attenuated by 20..120 dB x words x disturbances: level of the pair against the absolute floor", &qs, |q| format!("{} gain={:e} {:?} {:?}", q.0.short(), q.1, q.2, q.3), |(cfg, g, w, op), o| {
        let r0 = word(w, 1000, if *cfg == FB { 1100 } else { 700 } / w.len());
        let d0 = apply(*op, &r0);
        let r: Vec<f64> = r0.iter().map(|v| v * g).collect();
        let d: Vec<f64> = d0.iter().map(|v| v * g).collect();
        let m = crate::model::visqol(&r, &d, 1000, &cfg.model(), 1);
        let x = compare(cfg, 1, &r, &d, 1000).map_err(|p| format!("comparison panicked: {p}"))?;
        o.step(1);
        match (m, x) {
            (Ok(m), Ok(x)) => {
                o.state_f(&flat(&x));
                ensure!(flat(&x).iter().all(|v| v.is_finite()), "a reported number is not finite");
                ensure!(x.fvdegenergy.iter().all(|v| *v >= 0.0), "an energy lies below the floor: {:?}", x.fvdegenergy);
                if m.ambiguous {
                    o.outcome("ambiguous");
                    return Ok(());
                }
                o.trace();
                o.outcome(format!("mos {}", x.moslqo.floor()));
                crate::compare::scores(&x, &m)?;
                crate::compare::patches(&x, &m, 1000)
            }
            (Err(_), Err(_)) => {
                o.outcome("refused");
                Ok(())
            }
            (m, x) => Err(format!("the reference gives {:?}, the implementation {:?}", m.map(|m| m.moslqo), x.map(|x| x.moslqo))),
        }
    });
    // a disturbance far below the floor changes nothing at all in the band similarities
    let us: Vec<(Cfg, Vec<Seg>, f64)> = [WB, FB].iter().flat_map(|c| seg_words(&[Noise, Voice, Bursts], 1, 2).into_iter().flat_map(move |w| [1e-9, 1e-8].map(|a| (c.clone(), w.clone(), a)))).collect();
    fw.family("inaudible", "words x modes x disturbances 160..180 dB below the signal", &us, |u| format!("{} {:?} {:e}", u.0.short(), u.1, u.2), |(cfg, w, a), o| {
        let r = word(w, 1000, if *cfg == FB { 1100 } else { 700 } / w.len());
        let d = apply(Op::Noise(*a), &r);
        let x = score(cfg, 1, &r, &d, 1000)?;
        o.step(1);
        o.trace();
        o.state_f(&flat(&x));
        ensure!((x.vnsim - 1.0).abs() < 1e-4, "an inaudible disturbance of {a:e} lowers the similarity to {}", x.vnsim);
        o.outcome("inaudible");
        Ok(())
    });
}
