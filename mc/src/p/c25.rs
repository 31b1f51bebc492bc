//! End to end: every reported number agrees with an independently written reference of the algorithm.

use crate::api::*;
use crate::cases::*;
use crate::conform::conform;
use crate::fw::*;
use crate::sig::*;

pub fn run(fw: &Fw) {
    let mut o = ops();
    o.extend([Op::Swap, Op::Silent, Op::Replace(3), Op::Invert, Op::Extend(200), Op::Trunc(0.5), Op::Gain(20.0)]);
    let segs = [Noise, Voice, Tone, Silence, Low, Bursts, Chirp, Dc];
    let mut cs = space(&[WB], &[1000], &[60], &segs, 2, &o, 1);
    cs.extend(space(&[WB], &[1000], &[4], &segs[..4], fw.pick(1, 2), &o, 2));
    cs.extend(space(&[WBU], &[1600], &[1], &segs[..4], 3, &o[..6], 1));
    cs.extend(space(&[FB], &[1000], &[60], &segs[..4], 2, &o, 1));
    cs.extend(space(&[FB], &[1600], &[2], &segs[..2], 1, &o, 2));
    cs.extend(space(&[WB, FB], &[8000], &[3], &[Noise, Voice], 1, &o, 1));
    cs.extend(space(&[WB], &[11025, 16000], &[3], &[Voice], 1, &o[..8], 1));
    cs.extend(space(&[WB], &[1000], &[60], &[Loud, LoudTone, Noise, Silence], 2, &o[..12], 1).into_iter().filter(|c| c.word.iter().any(|s| matches!(s, Loud | LoudTone))));
    cs.extend(space(&[FB], &[1000], &[2], &[Loud, LoudTone], 1, &o[..12], 1));
    cs.extend(space(&[WB, FB], &[44100, 48000], &[0], &[Voice], 1, &[Op::Noise(0.05), Op::LowPass, Op::Delay(500)], 1));
    if fw.thorough {
        cs.extend(space(&[WB], &[1000], &[60], &segs, 3, &o, 1));
        cs.extend(space(&[FB], &[1000], &[60], &segs, 2, &o, 1));
        cs.extend(space(&[WB, FB], &[22050, 44100, 48000], &[3], &[Noise, Voice], 1, &o[..8], 1));
    }
    fw.family("end-to-end", "words over segment kinds x degradation sequences (up to two) x modes x radii x rates, every reported number", &cs, |c| c.key(), conform);
    let l = long_cases(fw.thorough, &[Op::Noise(0.05), Op::Insert(0.4, 333), Op::Delay(1200), Op::Dropout(0.3, 0.5)]);
    fw.family("long", "signals of 2 to 31 s (70 s thorough) at 1 to 48 kHz with up to 75 patches, x degradations x modes", &l, |c| format!("{} rate={} radius={} words={} ops={:?}", c.cfg.short(), c.rate, c.radius, c.word.len(), c.ops), conform);
}
