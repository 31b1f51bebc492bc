//! One complete behaviour of the reference model against the implementation.

use crate::api::*;
use crate::cases::*;
use crate::compare::{patches, scores};
use crate::ensure;
use crate::fw::*;
use crate::model::{self, Fail};
use visqol_rs::similarity_result::SimilarityResult;

/// Does an error message say what the reference model says?
pub fn same_failure(f: &Fail, msg: &str, rate: u32) -> bool {
    let has = |n: usize| msg.split(|c: char| !c.is_ascii_digit()).any(|w| w == n.to_string());
    match f {
        Fail::RateTooLow => has(rate as usize),
        Fail::TooFewSamples { found, min } => has(*found) && has(*min),
        Fail::SpectrogramTooSmall { found, min } => has(*found) && has(*min),
        Fail::TooDifferent | Fail::Align => !msg.is_empty(),
    }
}

pub fn conform(c: &Case, o: &mut Obs) -> Verdict {
    let (r, d) = c.pair();
    o.step(1);
    let m = model::visqol(&r, &d, c.rate, &c.cfg.model(), c.radius);
    let x = compare(&c.cfg, c.radius, &r, &d, c.rate).map_err(|p| format!("comparison panicked: {p}"))?;
    match (m, x) {
        (Ok(m), Ok(x)) => {
            o.state_f(&flat(&x));
            in_order(c, &x)?;
            ensure!(x.patch_sims.len() == m.patches.len(), "{} patches reported, the reference gives {}", x.patch_sims.len(), m.patches.len());
            if m.ambiguous {
                o.outcome("ambiguous");
                return Ok(());
            }
            o.trace();
            let shifted = m.patches.iter().filter(|p| p.matched && (p.deg_start - p.ref_start).abs() > 0.015).count();
            let lost = m.patches.iter().filter(|p| !p.matched).count();
            o.outcome(format!("{} patches, {shifted} shifted, {lost} unmatched", m.patches.len()));
            if shifted > 0 {
                o.sample(format!("{} -> matches at {:?}", c.key(), x.patch_sims.iter().map(|p| (p.ref_patch_start_time, p.deg_patch_start_time)).collect::<Vec<_>>()));
            }
            scores(&x, &m)?;
            patches(&x, &m, c.rate)
        }
        (Err(f), Err(e)) => {
            o.outcome("refused");
            o.state(&e);
            ensure!(same_failure(&f, &e, c.rate), "refused with {e:?}, expected {f:?}");
            Ok(())
        }
        (m, x) => Err(format!("the reference gives {:?}, the implementation {:?}", m.map(|m| m.moslqo), x.map(|x| x.moslqo))),
    }
}

/// Matches stay in order and inside the search window, whatever the scores.
pub fn in_order(c: &Case, x: &SimilarityResult) -> Verdict {
    let frame = model::hop_size(c.rate) as f64 / c.rate as f64;
    let patch = c.cfg.patch() as f64 * frame;
    let mut last = f64::NEG_INFINITY;
    for (i, p) in x.patch_sims.iter().enumerate() {
        if p.deg_patch_start_time == 0.0 && p.deg_patch_end_time == 0.0 {
            continue;
        }
        // realignment moves a match by at most half a patch
        let reach = c.radius as f64 * patch + patch / 2.0 + 2.0 * frame;
        let delta = p.deg_patch_start_time - p.ref_patch_start_time;
        ensure!(delta.abs() <= reach, "patch {i} at {} was matched {delta} s away, the search window reaches {reach} s", p.ref_patch_start_time);
        let end = p.deg_patch_end_time;
        ensure!(end > last, "matches are out of order at patch {i}: {end} after {last}");
        last = p.deg_patch_start_time;
    }
    Ok(())
}

