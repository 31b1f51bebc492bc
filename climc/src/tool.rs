//! Running the tool, the audio files it is given, and what the library makes of them.

use crate::fw::guarded;
use crate::sig::*;
use std::collections::HashMap;
use std::path::{Path, PathBuf};
use std::process::Command;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex, OnceLock};
use std::time::{Duration, Instant};
use visqol_rs::similarity_result::SimilarityResult;
use visqol_rs::variant::Variant;
use visqol_rs::visqol_manager::VisqolManager;

static ROOT: OnceLock<PathBuf> = OnceLock::new();
/// Files lr0, lr1, .. of increasing length and their degraded versions ld0, ld1, ..
pub const LENGTHS: usize = 30;
pub const MODEL: &str = "/repo/model/libsvm_nu_svr_model.txt";

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Mode {
    Wb,
    Wbu,
    Fb,
}
pub use Mode::*;
impl Mode {
    pub fn args(&self) -> Vec<String> {
        match self {
            Wb => vec!["wideband".into()],
            Wbu => vec!["wideband".into(), "--use_unscaled_speech_mos_mapping".into()],
            Fb => vec!["fullband".into(), "--similarity_to_quality_model".into(), MODEL.into()],
        }
    }
}

fn wav(rate: u32, x: &[f64]) -> Vec<u8> {
    let s: Vec<i16> = x.iter().map(|v| (v * 32767.0).round().clamp(-32768.0, 32767.0) as i16).collect();
    let n = s.len() as u32 * 2;
    let mut v = b"RIFF".to_vec();
    v.extend((36 + n).to_le_bytes());
    v.extend(b"WAVEfmt \x10\0\0\0\x01\0\x01\0");
    v.extend(rate.to_le_bytes());
    v.extend((rate * 2).to_le_bytes());
    v.extend(b"\x02\0\x10\0data");
    v.extend(n.to_le_bytes());
    for i in s {
        v.extend(i.to_le_bytes());
    }
    v
}

pub fn audio(name: &str) -> String {
    root().join("audio").join(format!("{name}.wav")).to_string_lossy().to_string()
}
pub fn root() -> &'static Path {
    ROOT.get().expect("init")
}

pub fn init(scratch: &str) {
    let p = PathBuf::from(scratch).join(format!("cli-{}", std::process::id()));
    std::fs::create_dir_all(p.join("audio")).expect("scratch");
    ROOT.set(p).ok();
    // long enough for two patches in either mode
    let n = 2000;
    let r1 = segment(Voice, 1000, n, 1);
    let r2: Vec<f64> = word(&[Noise, Voice], 1000, n / 2);
    // audio files shared by all runs; none of them is ever written again
    let put = |name: &str, b: Vec<u8>| std::fs::write(audio(name), b).expect("audio");
    put("r1", wav(1000, &r1));
    put("d1", wav(1000, &apply(Op::Noise(0.05), &r1)));
    put("d3", wav(1000, &apply(Op::Noise(0.3), &r1)));
    put("r2", wav(1000, &r2));
    put("d2", wav(1000, &degrade(&[Op::LowPass, Op::Noise(0.02)], &r2)));
    for k in 0..LENGTHS {
        let x = word(&[Voice, Noise, Voice], 1000, 200 * (k + 1));
        put(&format!("lr{k}"), wav(1000, &x));
        put(&format!("ld{k}"), wav(1000, &degrade(&[Op::Noise(0.1)], &x)));
    }
    put("short", wav(1000, &r1[..50]));
    put("rate", wav(2000, &r1));
    let mut t = wav(1000, &r1);
    // torn inside the header: every reader has to refuse it
    t.truncate(30);
    put("torn", t);
    put("text", b"this is not a wav file".to_vec());
}
pub fn cleanup() {
    std::fs::remove_dir_all(root()).ok();
}

/// A fresh directory for one run.
pub struct Dir(pub PathBuf);
impl Dir {
    pub fn new() -> Dir {
        static N: AtomicU64 = AtomicU64::new(0);
        let p = root().join(format!("run{}", N.fetch_add(1, Ordering::SeqCst)));
        std::fs::create_dir_all(&p).expect("dir");
        Dir(p)
    }
    pub fn file(&self, n: &str) -> String {
        self.0.join(n).to_string_lossy().to_string()
    }
    pub fn listing(&self) -> Vec<String> {
        let mut v: Vec<String> = std::fs::read_dir(&self.0).unwrap().map(|e| e.unwrap().file_name().to_string_lossy().to_string()).collect();
        v.sort();
        v
    }
}
impl Drop for Dir {
    fn drop(&mut self) {
        std::fs::remove_dir_all(&self.0).ok();
    }
}

pub struct Outcome {
    pub ok: bool,
    pub code: Option<i32>,
    pub stdout: String,
    pub stderr: String,
}

/// One run of the tool in `dir`.
pub fn tool(dir: &Dir, args: &[String]) -> Result<Outcome, String> {
    let exe = std::env::var("VISQOL_BIN").expect("VISQOL_BIN");
    let (o, e) = (dir.0.parent().unwrap().join(format!("{}.out", dir.0.file_name().unwrap().to_string_lossy())), dir.0.parent().unwrap().join(format!("{}.err", dir.0.file_name().unwrap().to_string_lossy())));
    let mut c = Command::new(exe)
        .args(args)
        .current_dir(&dir.0)
        .env_remove("RUST_BACKTRACE")
        .stdin(std::process::Stdio::null())
        .stdout(std::fs::File::create(&o).unwrap())
        .stderr(std::fs::File::create(&e).unwrap())
        .spawn()
        .map_err(|e| format!("cannot run the tool: {e}"))?;
    let t = Instant::now();
    let st = loop {
        if let Some(s) = c.try_wait().map_err(|e| e.to_string())? {
            break s;
        }
        if t.elapsed() > Duration::from_secs(120) {
            c.kill().ok();
            c.wait().ok();
            return Err(format!("the tool did not end within 120 s: {args:?}"));
        }
        std::thread::sleep(Duration::from_millis(1));
    };
    let rd = |p: &PathBuf| String::from_utf8_lossy(&std::fs::read(p).unwrap_or_default()).to_string();
    let r = Outcome { ok: st.success(), code: st.code(), stdout: rd(&o), stderr: rd(&e) };
    std::fs::remove_file(&o).ok();
    std::fs::remove_file(&e).ok();
    Ok(r)
}

/// The scores printed, in order.
pub fn printed(stdout: &str) -> Vec<f64> {
    stdout.lines().filter_map(|l| l.strip_prefix("MOS-LQO:")).map(|s| s.trim().parse().unwrap_or(f64::NAN)).collect()
}

/// What the library reports for a pair (None: it refuses).
pub fn expected(mode: Mode, radius: usize, r: &str, d: &str) -> Option<Arc<SimilarityResult>> {
    static CACHE: OnceLock<Mutex<HashMap<(Mode, usize, String, String), Option<Arc<SimilarityResult>>>>> = OnceLock::new();
    let c = CACHE.get_or_init(Default::default);
    let k = (mode, radius, r.to_string(), d.to_string());
    if let Some(x) = c.lock().unwrap().get(&k) {
        return x.clone();
    }
    let (rp, dp) = (audio(r), audio(d));
    let x = guarded(|| match mode {
        Fb => VisqolManager::<32>::new(Variant::Fullband { model_path: MODEL.into() }, radius).run(&rp, &dp).ok(),
        m => VisqolManager::<21>::new(Variant::Wideband { use_unscaled_mos_mapping: m == Wbu }, radius).run(&rp, &dp).ok(),
    })
    .unwrap_or(None)
    .map(Arc::new);
    c.lock().unwrap().insert(k, x.clone());
    x
}

pub fn near(a: f64, b: f64) -> bool {
    (a - b).abs() <= 1e-9 * (1.0 + b.abs())
}

pub fn batch(dir: &Dir, name: &str, pairs: &[(String, String)]) -> String {
    let p = dir.file(name);
    let mut w = csv::Writer::from_path(&p).unwrap();
    w.write_record(["reference", "degraded"]).unwrap();
    for (r, d) in pairs {
        w.write_record([r, d]).unwrap();
    }
    w.flush().unwrap();
    p
}

/// Rows of a results file, header first.
pub fn rows(path: &str) -> Result<Vec<Vec<String>>, String> {
    let mut r = csv::ReaderBuilder::new().has_headers(false).from_path(path).map_err(|e| format!("results file: {e}"))?;
    r.records().map(|x| x.map(|x| x.iter().map(String::from).collect()).map_err(|e| format!("results file: {e}"))).collect()
}

/// The records of a debug file.
pub fn records(text: &str) -> Result<Vec<serde_json::Value>, String> {
    serde_json::Deserializer::from_str(text).into_iter().map(|v| v.map_err(|e| format!("debug file: {e}"))).collect()
}

pub fn same_record(j: &serde_json::Value, x: &SimilarityResult) -> Result<(), String> {
    let want = serde_json::to_value(x).map_err(|e| e.to_string())?;
    cmp(j, &want, "")
}
fn cmp(a: &serde_json::Value, b: &serde_json::Value, at: &str) -> Result<(), String> {
    use serde_json::Value;
    match (a, b) {
        (Value::Number(x), Value::Number(y)) if near(x.as_f64().unwrap(), y.as_f64().unwrap()) => Ok(()),
        (Value::Array(x), Value::Array(y)) if x.len() == y.len() => x.iter().zip(y).enumerate().try_for_each(|(i, (p, q))| cmp(p, q, &format!("{at}[{i}]"))),
        (Value::Object(x), Value::Object(y)) if x.len() == y.len() && x.keys().all(|k| y.contains_key(k)) => x.iter().try_for_each(|(k, p)| cmp(p, &y[k], &format!("{at}.{k}"))),
        (x, y) if x == y => Ok(()),
        (x, y) => Err(format!("debug record{at}: {} instead of {}", x.to_string().chars().take(80).collect::<String>(), y.to_string().chars().take(80).collect::<String>())),
    }
}
pub fn v(a: &[&str]) -> Vec<String> {
    a.iter().map(|s| s.to_string()).collect()
}
