//! The shared space of signal pairs: words over segments x degradation sequences x configuration.

use crate::api::*;
use crate::fw::words;
use crate::model::{self, Fail, Out};
use crate::sig::*;
use visqol_rs::similarity_result::SimilarityResult;

#[derive(Clone, Debug, PartialEq)]
pub struct Case {
    pub cfg: Cfg,
    pub rate: u32,
    pub radius: usize,
    pub word: Vec<Seg>,
    pub seg: usize,
    pub ops: Vec<Op>,
}

impl Case {
    pub fn key(&self) -> String {
        format!("{} rate={} radius={} ref={:?}x{} ops={:?}", self.cfg.short(), self.rate, self.radius, self.word, self.seg, self.ops)
    }
    pub fn reference(&self) -> Vec<f64> {
        word(&self.word, self.rate, self.seg)
    }
    pub fn pair(&self) -> (Vec<f64>, Vec<f64>) {
        let r = self.reference();
        let d = degrade(&self.ops, &r);
        (r, d)
    }
    pub fn model(&self) -> Result<Out, Fail> {
        let (r, d) = self.pair();
        model::visqol(&r, &d, self.rate, &self.cfg.model(), self.radius)
    }
    pub fn real(&self) -> Result<SimilarityResult, String> {
        let (r, d) = self.pair();
        score(&self.cfg, self.radius, &r, &d, self.rate)
    }
    /// A bound on how often one segment repeats is not needed: words are generated exhaustively.
    pub fn frames(&self) -> usize {
        let n = self.word.len() * self.seg;
        let (w, h) = (model::window_size(self.rate), model::hop_size(self.rate));
        if n < w || h == 0 {
            0
        } else {
            1 + (n - w) / h
        }
    }
}

pub fn op_words(ops: &[Op], min: usize, max: usize) -> Vec<Vec<Op>> {
    words(ops.len(), min, max).into_iter().map(|w| w.into_iter().map(|i| ops[i]).collect()).collect()
}
pub fn seg_words(segs: &[Seg], min: usize, max: usize) -> Vec<Vec<Seg>> {
    words(segs.len(), min, max).into_iter().map(|w| w.into_iter().map(|i| segs[i]).collect()).collect()
}

/// Segment length such that a word of three segments gives roughly `frames` frames.
pub fn seg_len(rate: u32, frames: usize, segs: usize) -> usize {
    let (w, h) = (model::window_size(rate), model::hop_size(rate));
    (w + (frames - 1) * h) / segs + 1
}

/// The standard space.  `deg_depth`: longest degradation sequence.
pub fn space(cfgs: &[Cfg], rates: &[u32], radii: &[usize], segs: &[Seg], word_len: usize, ops: &[Op], deg_depth: usize) -> Vec<Case> {
    let mut v = vec![];
    for cfg in cfgs {
        let frames = if *cfg == FB { 80 } else { 55 };
        for rate in rates {
            for radius in radii {
                for w in seg_words(segs, word_len, word_len) {
                    for o in op_words(ops, 0, deg_depth) {
                        v.push(Case { cfg: cfg.clone(), rate: *rate, radius: *radius, seg: seg_len(*rate, frames, word_len), word: w.clone(), ops: o });
                    }
                }
            }
        }
    }
    v.sort_by_key(|c| (c.ops.len(), c.rate));
    v
}

/// Signals of realistic length: many patches, many frames, long transforms.
pub fn long_cases(thorough: bool, ops: &[Op]) -> Vec<Case> {
    let base = [Voice, Noise, Bursts, Voice, Silence, Chirp, Noise, Voice, Low, Noise];
    let mut v = vec![];
    let mut add = |cfg: Cfg, rate: u32, radius: usize, secs: f64, ops: &[Op]| {
        let seg = (rate as f64 * 0.53) as usize;
        let word: Vec<Seg> = base.iter().cycle().take((secs / 0.53) as usize).cloned().collect();
        for o in ops {
            v.push(Case { cfg: cfg.clone(), rate, radius, word: word.clone(), seg, ops: vec![*o] });
        }
        v.push(Case { cfg: cfg.clone(), rate, radius, word, seg, ops: vec![] });
    };
    add(WB, 1000, 3, 31.0, ops);
    add(WB, 1000, 60, 13.0, &ops[..ops.len().min(1)]);
    add(FB, 1000, 2, 19.0, ops);
    add(WB, 8000, 2, 9.0, &ops[..ops.len().min(2)]);
    add(WB, 16000, 2, 5.0, &ops[..ops.len().min(1)]);
    add(FB, 48000, 1, 2.2, &ops[..ops.len().min(1)]);
    add(WB, 48000, 1, 3.0, &ops[..ops.len().min(1)]);
    if thorough {
        add(WB, 1000, 60, 70.0, ops);
        add(WB, 16000, 60, 12.0, ops);
        add(FB, 48000, 60, 10.0, ops);
        add(FB, 8000, 10, 25.0, ops);
        add(WB, 48000, 4, 25.0, ops);
    }
    v
}

/// Reports of 1, 2, .. `max` patches (more or less: silence is not scored in speech mode).
pub fn count_cases(cfgs: &[Cfg], max: usize, radius: usize, ops: &[Op]) -> Vec<Case> {
    let base = [Voice, Noise, Low, Bursts, Voice, Tone, Noise, Chirp, Voice, Silence, Noise];
    let mut v = vec![];
    for cfg in cfgs {
        for k in 1..=max {
            for o in op_words(ops, 0, 1) {
                let seg = if *cfg == FB { 620 } else { 410 };
                v.push(Case { cfg: cfg.clone(), rate: 1000, radius, word: base.iter().cycle().take(k + 1).cloned().collect(), seg, ops: o });
            }
        }
    }
    v
}
