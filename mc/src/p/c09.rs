//! Patch similarity is the neurogram similarity index of the matched spectrogram patches.

use crate::api::*;
use crate::cases::*;
use crate::fw::*;
use crate::sig::*;

pub fn run(fw: &Fw) {
    let mut o = ops();
    o.extend([Op::Noise(0.002), Op::Noise(0.02), Op::Noise(0.2), Op::Noise(2.0), Op::Replace(3), Op::Reverse, Op::Clip(0.05), Op::Dropout(0.2, 0.3)]);
    let mut cs = space(&[WB], &[1000], &[1], &[Noise, Voice, Tone, Silence, Low, Bursts], 2, &o, 1);
    cs.extend(space(&[FB], &[1000], &[1], &[Noise, Voice, Tone, Silence], fw.pick(1, 2), &o, 1));
    cs.extend(space(&[WB], &[1000], &[1], &[Noise, Voice], 1, &o, 2));
    cs.extend(space(&[WB, FB], &[8000, 16000], &[0], &[Voice], 1, &o[12..16], 1));
    cs.extend(space(&[WB], &[1000], &[60], &[Loud, LoudTone, Noise, Silence], 2, &o, 1).into_iter().filter(|c| c.word.iter().any(|s| matches!(s, Loud | LoudTone))));
    cs.extend(space(&[WB, FB], &[48000], &[0], &[Voice], 1, &[Op::Noise(0.05), Op::LowPass], 1));
    if fw.thorough {
        cs.extend(space(&[WB], &[2000], &[1], &[Noise, Voice, Tone, Silence, Low, Bursts], 3, &o, 1));
        cs.extend(space(&[WB, FB], &[48000], &[0], &[Voice], 1, &o[12..16], 1));
    }
    cs.extend(long_cases(fw.thorough, &[Op::Noise(0.05), Op::LowPass]));
    cs.extend(count_cases(&[WB, FB], fw.pick(12, 30), 1, &[Op::Noise(0.05), Op::Noise(0.5)]));
    fw.family("patch-similarities", "words x degradation sequences x modes: per-patch band means, deviations, energies and similarity against the reference index", &cs, |c| c.key(), crate::conform::conform);
}
