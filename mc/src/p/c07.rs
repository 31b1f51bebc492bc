//! Patch matching: each reference patch is matched within the search window, in order, so that the total
//! similarity is maximal.

use crate::api::*;
use crate::cases::*;
use crate::conform::conform;
use crate::fw::*;
use crate::model;
use crate::sig::*;

pub fn edits(rate: u32) -> Vec<Op> {
    let f = model::hop_size(rate);
    vec![
        Op::Insert(0.3, 3 * f),
        Op::Insert(0.6, 22 * f),
        Op::Cut(0.4, 3 * f),
        Op::Cut(0.5, 21 * f),
        Op::Dropout(0.3, 0.65),
        Op::Dropout(0.0, 0.4),
        Op::Dropout(0.7, 1.0),
        Op::Swap,
        Op::Trunc(0.6),
        Op::Trunc(0.8),
        Op::Extend(30 * f),
        Op::Noise(0.3),
        Op::Replace(9),
    ]
}

pub fn run(fw: &Fw) {
    let mut cs = vec![];
    let mk = |cfg: &Cfg, rate: u32, radius: usize, w: &[Seg], frames: usize, ops: &[Op]| Case { cfg: cfg.clone(), rate, radius, word: w.to_vec(), seg: seg_len(rate, frames, w.len()), ops: ops.to_vec() };
    let words3: Vec<Vec<Seg>> = seg_words(&[Noise, Voice, Silence], 3, 3);
    for w in &words3 {
        for o in op_words(&edits(1000), 0, 1) {
            for radius in [0usize, 1, 2, 60] {
                cs.push(mk(&WB, 1000, radius, w, 75, &o));
            }
        }
    }
    for w in seg_words(&[Noise, Voice], 2, 3) {
        for o in op_words(&edits(1000), 2, 2) {
            cs.push(mk(&WB, 1000, fw.pick(3, 60), &w, 75, &o));
        }
        for o in op_words(&edits(1000), 1, 1) {
            for radius in [0usize, 1, 60] {
                cs.push(mk(&FB, 1000, radius, &w, 110, &o));
            }
        }
    }
    let long = [Voice, Noise, Bursts, Low, Noise, Voice, Tone, Noise];
    for k in 4..=8 {
        for o in op_words(&edits(1000), 1, 1) {
            for radius in [1usize, 4, 60] {
                cs.push(mk(&WB, 1000, radius, &long[..k], 24 * k + 10, &o));
            }
        }
    }
    for rate in fw.pick(vec![8000u32], vec![8000, 16000, 44100, 48000]) {
        for o in op_words(&edits(rate), 1, 1) {
            cs.push(mk(&WB, rate, 2, &[Voice, Noise, Voice], 75, &o));
        }
    }
    if fw.thorough {
        for w in &words3 {
            for o in op_words(&edits(1000), 2, 2) {
                cs.push(mk(&WB, 1000, 60, w, 75, &o));
            }
            for o in op_words(&edits(1000), 1, 1) {
                cs.push(mk(&FB, 1000, 60, w, 110, &o));
            }
        }
    }
    cs.extend(long_cases(fw.thorough, &[Op::Insert(0.4, 333), Op::Dropout(0.3, 0.5), Op::Swap]));
    cs.extend(count_cases(&[WB, FB], fw.pick(20, 40), 2, &[Op::Insert(0.5, 440), Op::Cut(0.3, 410), Op::Dropout(0.4, 0.7)]));
    // patches that stay unmatched
    cs.extend(space(&[WB], &[1000], &[2, 60], &[Silence, Noise, Voice], 4, &[Op::Replace(3), Op::Noise(0.5), Op::Reverse], 1));
    cs.sort_by_key(|c| (c.ops.len(), c.word.len(), c.rate));
    fw.family("matches", "words over segments x edit sequences (insertions, deletions, dropouts, swaps, truncation) x search radii 0,1,2,3,4,60 x modes, up to 75 patches, against the reference model", &cs, |c| c.key(), conform);
}
