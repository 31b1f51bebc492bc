//! Conformance of an observed result with a behaviour of the reference model.

use crate::ensure;
use crate::fw::{close, close_v, Verdict};
use crate::model::Out;
use visqol_rs::similarity_result::SimilarityResult;

/// Variances of nearly constant regions are differences of almost equal sums, so agreement is to this many digits.
pub const TOL: f64 = 1e-5;
/// Beyond full scale whole frames can be constant after the noise floor, where only rounding is left of a variance.
pub const TOL_LOUD: f64 = 3e-4;
fn tol(m: &Out) -> f64 {
    if m.loud {
        TOL_LOUD
    } else {
        TOL
    }
}

pub fn scores(x: &SimilarityResult, m: &Out) -> Verdict {
    let t = tol(m);
    ensure!(close(x.vnsim, m.vnsim, t), "vnsim {} but the reference gives {}", x.vnsim, m.vnsim);
    ensure!(close_v(&x.fvnsim, &m.fvnsim, t), "fvnsim {:?} but the reference gives {:?}", x.fvnsim, m.fvnsim);
    if (m.vnsim - 0.15).abs() > 2.0 * t {
        ensure!(close(x.moslqo, m.moslqo, t * 20.0), "moslqo {} but the reference gives {}", x.moslqo, m.moslqo);
    }
    Ok(())
}

pub fn patches(x: &SimilarityResult, m: &Out, rate: u32) -> Verdict {
    ensure!(x.patch_sims.len() == m.patches.len(), "{} patches but the reference gives {}", x.patch_sims.len(), m.patches.len());
    let t = tol(m);
    let sample = 0.51 / rate as f64;
    for (i, (p, q)) in x.patch_sims.iter().zip(&m.patches).enumerate() {
        ensure!(close(p.similarity, q.nsim.sim, t), "patch {i} similarity {} but the reference gives {}", p.similarity, q.nsim.sim);
        ensure!(close_v(&p.freq_band_means, &q.nsim.means, t), "patch {i} band means differ: {:?} vs {:?}", p.freq_band_means, q.nsim.means);
        if q.tight {
            continue;
        }
        ensure!(close_v(&p.freq_band_stddevs, &q.nsim.stds, 4.0 * t), "patch {i} band deviations differ: {:?} vs {:?}", p.freq_band_stddevs, q.nsim.stds);
        ensure!(close_v(&p.freq_band_deg_energy, &q.nsim.energy, t), "patch {i} energies differ: {:?} vs {:?}", p.freq_band_deg_energy, q.nsim.energy);
        let a = [p.ref_patch_start_time, p.ref_patch_end_time, p.deg_patch_start_time, p.deg_patch_end_time];
        let b = [q.ref_start, q.ref_end, q.deg_start, q.deg_end];
        ensure!(a.iter().zip(&b).all(|(u, v)| (u - v).abs() <= sample), "patch {i} times {a:?} but the reference gives {b:?}");
    }
    Ok(())
}
