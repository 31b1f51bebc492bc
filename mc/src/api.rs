//! The code under test, through its public interface only.

use crate::fw::guarded;
use ndarray::Array1;
use std::path::PathBuf;
use std::sync::OnceLock;
use visqol_rs::similarity_result::SimilarityResult;
use visqol_rs::variant::Variant;
use visqol_rs::visqol_manager::VisqolManager;

pub const MODEL: &str = "/repo/model/libsvm_nu_svr_model.txt";

static SCRATCH: OnceLock<PathBuf> = OnceLock::new();

pub fn init(scratch: &str) {
    let p = PathBuf::from(scratch).join(format!("mc-{}", std::process::id()));
    std::fs::create_dir_all(&p).expect("scratch");
    SCRATCH.set(p).ok();
    write_wav(&scratch_path("seed.wav"), 1, 8000, &[1]);
}
pub fn cleanup() {
    if let Some(p) = SCRATCH.get() {
        std::fs::remove_dir_all(p).ok();
    }
}
pub fn scratch_path(name: &str) -> String {
    SCRATCH.get().expect("init").join(name).to_string_lossy().to_string()
}

pub fn wav_bytes(channels: u16, rate: u32, samples: &[i16]) -> Vec<u8> {
    let data = samples.len() as u32 * 2;
    let mut v = Vec::with_capacity(44 + data as usize);
    v.extend(b"RIFF");
    v.extend((36 + data).to_le_bytes());
    v.extend(b"WAVEfmt ");
    v.extend(16u32.to_le_bytes());
    v.extend(1u16.to_le_bytes());
    v.extend(channels.to_le_bytes());
    v.extend(rate.to_le_bytes());
    v.extend((rate * channels as u32 * 2).to_le_bytes());
    v.extend((channels * 2).to_le_bytes());
    v.extend(16u16.to_le_bytes());
    v.extend(b"data");
    v.extend(data.to_le_bytes());
    for s in samples {
        v.extend(s.to_le_bytes());
    }
    v
}
pub fn write_wav(path: &str, channels: u16, rate: u32, samples: &[i16]) {
    std::fs::write(path, wav_bytes(channels, rate, samples)).expect("write wav");
}
pub fn quantize(x: &[f64]) -> Vec<i16> {
    x.iter().map(|v| (v * 32767.0).round().clamp(-32768.0, 32767.0) as i16).collect()
}

/// Builds the library's signal type from plain samples.
#[macro_export]
macro_rules! signal {
    ($x:expr, $rate:expr) => {{
        let mut s = visqol_rs::audio_utils::load_as_mono(&$crate::api::scratch_path("seed.wav")).expect("seed wav");
        s.data_matrix = ndarray::Array1::from_vec($x.to_vec());
        s.sample_rate = $rate;
        s
    }};
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Cfg {
    Speech { scaled: bool },
    Audio,
}
impl Cfg {
    pub fn bands(&self) -> usize {
        match self {
            Cfg::Speech { .. } => 21,
            Cfg::Audio => 32,
        }
    }
    pub fn patch(&self) -> usize {
        match self {
            Cfg::Speech { .. } => 20,
            Cfg::Audio => 30,
        }
    }
    pub fn model(&self) -> crate::model::Mode {
        match self {
            Cfg::Speech { scaled } => crate::model::Mode::Speech { scaled: *scaled },
            Cfg::Audio => crate::model::Mode::Audio { svr: svr() },
        }
    }
    pub fn short(&self) -> &'static str {
        match self {
            Cfg::Speech { scaled: true } => "wb",
            Cfg::Speech { scaled: false } => "wbu",
            Cfg::Audio => "fb",
        }
    }
}
pub const WB: Cfg = Cfg::Speech { scaled: true };
pub const WBU: Cfg = Cfg::Speech { scaled: false };
pub const FB: Cfg = Cfg::Audio;

pub fn svr() -> std::sync::Arc<crate::model::Svr> {
    static S: OnceLock<std::sync::Arc<crate::model::Svr>> = OnceLock::new();
    S.get_or_init(|| std::sync::Arc::new(crate::model::Svr::parse(&std::fs::read_to_string(MODEL).unwrap(), 32))).clone()
}

pub enum Mgr {
    S(VisqolManager<21>),
    A(VisqolManager<32>),
}
impl Mgr {
    pub fn new(cfg: &Cfg, radius: usize) -> Mgr {
        match cfg {
            Cfg::Speech { scaled } => Mgr::S(VisqolManager::new(Variant::Wideband { use_unscaled_mos_mapping: !scaled }, radius)),
            Cfg::Audio => Mgr::A(VisqolManager::new(Variant::Fullband { model_path: MODEL.into() }, radius)),
        }
    }
    pub fn compare(&mut self, r: &[f64], d: &[f64], rr: u32, rd: u32) -> Result<SimilarityResult, String> {
        let mut a = signal!(r, rr);
        let mut b = signal!(d, rd);
        match self {
            Mgr::S(m) => m.compute_results(&mut a, &mut b).map_err(|e| e.to_string()),
            Mgr::A(m) => m.compute_results(&mut a, &mut b).map_err(|e| e.to_string()),
        }
    }
    pub fn run(&mut self, r: &str, d: &str) -> Result<SimilarityResult, String> {
        match self {
            Mgr::S(m) => m.run(r, d).map_err(|e| e.to_string()),
            Mgr::A(m) => m.run(r, d).map_err(|e| e.to_string()),
        }
    }
}

/// One comparison on a fresh evaluator. Outer Err: panic.
pub fn compare(cfg: &Cfg, radius: usize, r: &[f64], d: &[f64], rate: u32) -> Result<Result<SimilarityResult, String>, String> {
    guarded(|| Mgr::new(cfg, radius).compare(r, d, rate, rate))
}

/// As `compare`, where a result is required.
pub fn score(cfg: &Cfg, radius: usize, r: &[f64], d: &[f64], rate: u32) -> Result<SimilarityResult, String> {
    match compare(cfg, radius, r, d, rate) {
        Ok(Ok(x)) => Ok(x),
        Ok(Err(e)) => Err(format!("comparison failed: {e}")),
        Err(p) => Err(format!("comparison panicked: {p}")),
    }
}

/// Every number of a result, in a fixed order.
pub fn flat(r: &SimilarityResult) -> Vec<f64> {
    let mut v = vec![r.moslqo, r.vnsim];
    for x in [&r.fvnsim, &r.fstdnsim, &r.fvdegenergy, &r.center_freq_bands] {
        v.push(x.len() as f64);
        v.extend(x.iter());
    }
    for p in &r.patch_sims {
        v.extend([p.similarity, p.ref_patch_start_time, p.ref_patch_end_time, p.deg_patch_start_time, p.deg_patch_end_time]);
        for x in [&p.freq_band_means, &p.freq_band_stddevs, &p.freq_band_deg_energy] {
            v.push(x.len() as f64);
            v.extend(x.iter());
        }
    }
    v
}
pub fn bits(r: &SimilarityResult) -> Vec<u64> {
    flat(r).iter().map(|x| x.to_bits()).collect()
}

pub fn arr(x: &[f64]) -> Array1<f64> {
    Array1::from_vec(x.to_vec())
}

/// Uses an existing scratch directory (child processes).
pub fn init_at(dir: &str) {
    SCRATCH.set(PathBuf::from(dir)).ok();
}
