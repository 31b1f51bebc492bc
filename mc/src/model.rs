//! A deliberately plain reference model of the ViSQOL v3.1 pipeline, written from the algorithm's
//! description.  Every stage is a pure function on plain vectors.  Decisions that hinge on a margin too
//! small to be meaningful in floating point are reported as ambiguous instead of being guessed.

use std::f64::consts::PI;

#[derive(Clone, Debug)]
pub struct Mat {
    pub rows: usize,
    pub cols: usize,
    pub d: Vec<f64>,
}

impl Mat {
    pub fn zeros(rows: usize, cols: usize) -> Mat {
        Mat { rows, cols, d: vec![0.0; rows * cols] }
    }
    pub fn from_fn(rows: usize, cols: usize, mut f: impl FnMut(usize, usize) -> f64) -> Mat {
        let mut m = Mat::zeros(rows, cols);
        for r in 0..rows {
            for c in 0..cols {
                m.d[r * cols + c] = f(r, c);
            }
        }
        m
    }
    pub fn at(&self, r: usize, c: usize) -> f64 {
        self.d[r * self.cols + c]
    }
    pub fn set(&mut self, r: usize, c: usize, v: f64) {
        self.d[r * self.cols + c] = v;
    }
    pub fn min(&self) -> f64 {
        self.d.iter().cloned().fold(f64::INFINITY, f64::min)
    }
    /// Columns from..from+n, zero where they lie past the end.
    pub fn patch(&self, from: usize, n: usize) -> Mat {
        Mat::from_fn(self.rows, n, |r, c| if from + c < self.cols { self.at(r, from + c) } else { 0.0 })
    }
}

// ---------------------------------------------------------------------------------------------
// Complex numbers and a plain radix-2 transform
// ---------------------------------------------------------------------------------------------

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct C {
    pub re: f64,
    pub im: f64,
}
pub fn c(re: f64, im: f64) -> C {
    C { re, im }
}
impl std::ops::Add for C {
    type Output = C;
    fn add(self, o: C) -> C {
        c(self.re + o.re, self.im + o.im)
    }
}
impl std::ops::Sub for C {
    type Output = C;
    fn sub(self, o: C) -> C {
        c(self.re - o.re, self.im - o.im)
    }
}
impl std::ops::Mul for C {
    type Output = C;
    fn mul(self, o: C) -> C {
        c(self.re * o.re - self.im * o.im, self.re * o.im + self.im * o.re)
    }
}
impl C {
    pub fn scale(self, s: f64) -> C {
        c(self.re * s, self.im * s)
    }
    pub fn abs(self) -> f64 {
        self.re.hypot(self.im)
    }
    pub fn conj(self) -> C {
        c(self.re, -self.im)
    }
    pub fn cis(t: f64) -> C {
        c(t.cos(), t.sin())
    }
}

pub fn fft(x: &mut [C], inverse: bool) {
    let n = x.len();
    assert!(n.is_power_of_two());
    let mut j = 0;
    for i in 1..n {
        let mut bit = n >> 1;
        while j & bit != 0 {
            j ^= bit;
            bit >>= 1;
        }
        j |= bit;
        if i < j {
            x.swap(i, j);
        }
    }
    let sign = if inverse { 1.0 } else { -1.0 };
    let mut len = 2;
    while len <= n {
        let tw: Vec<C> = (0..len / 2).map(|k| C::cis(sign * 2.0 * PI * k as f64 / len as f64)).collect();
        for s in (0..n).step_by(len) {
            for k in 0..len / 2 {
                let u = x[s + k];
                let v = x[s + k + len / 2] * tw[k];
                x[s + k] = u + v;
                x[s + k + len / 2] = u - v;
            }
        }
        len *= 2;
    }
    if inverse {
        for v in x.iter_mut() {
            *v = v.scale(1.0 / n as f64);
        }
    }
}

pub fn naive_dft(x: &[C], inverse: bool) -> Vec<C> {
    let n = x.len();
    let sign = if inverse { 1.0 } else { -1.0 };
    (0..n)
        .map(|k| {
            let mut s = c(0.0, 0.0);
            for (i, v) in x.iter().enumerate() {
                s = s + *v * C::cis(sign * 2.0 * PI * ((i * k) % n) as f64 / n as f64);
            }
            if inverse {
                s.scale(1.0 / n as f64)
            } else {
                s
            }
        })
        .collect()
}

// ---------------------------------------------------------------------------------------------
// Alignment
// ---------------------------------------------------------------------------------------------

/// The upper envelope.  The transform keeps only the real part of the analytic signal, which is the signal
/// itself less its component at the Nyquist frequency of the zero-padded transform.
pub fn envelope(x: &[f64]) -> Option<Vec<f64>> {
    if x.is_empty() {
        return None;
    }
    let n = x.len();
    let mean = x.iter().sum::<f64>() / n as f64;
    let nfft = n.next_power_of_two().max(32);
    let nyq: f64 = x.iter().enumerate().map(|(i, v)| if i % 2 == 0 { v - mean } else { mean - v }).sum::<f64>() / nfft as f64;
    let full = n == nfft;
    let dc: f64 = x.iter().map(|v| v - mean).sum::<f64>() / nfft as f64;
    Some(
        x.iter()
            .enumerate()
            .map(|(i, v)| {
                // bins 1..N/2-1 are doubled and their mirror images dropped: the real part is the original
                // component.  Bin 0 is kept once; the Nyquist bin is kept (once) only if nothing was padded.
                let ny = if i % 2 == 0 { nyq } else { -nyq };
                let real = (v - mean) - ny + if full { ny } else { 0.0 };
                let _ = dc;
                (2.0 * real - 1e-6).abs() + mean
            })
            .collect(),
    )
}

pub struct Lag {
    pub lag: i64,
    pub ambiguous: bool,
}

/// Correlation of two sequences at every lag in -(M-1)..=(M-1), by definition.
pub fn correlations(a: &[f64], b: &[f64]) -> Vec<f64> {
    let m = a.len().max(b.len());
    let mut v = Vec::with_capacity(2 * m - 1);
    if m <= 700 {
        for lag in -(m as i64 - 1)..=(m as i64 - 1) {
            let mut s = 0.0;
            let lo = lag.max(0);
            let hi = (a.len() as i64).min(b.len() as i64 + lag);
            for i in lo..hi {
                s += a[i as usize] * b[(i - lag) as usize];
            }
            v.push(s);
        }
    } else {
        let n = (2 * m).next_power_of_two();
        let mut x: Vec<C> = (0..n).map(|i| c(*a.get(i).unwrap_or(&0.0), 0.0)).collect();
        let mut y: Vec<C> = (0..n).map(|i| c(*b.get(i).unwrap_or(&0.0), 0.0)).collect();
        fft(&mut x, false);
        fft(&mut y, false);
        for i in 0..n {
            x[i] = x[i] * y[i].conj();
        }
        fft(&mut x, true);
        for lag in -(m as i64 - 1)..=(m as i64 - 1) {
            v.push(x[((lag + n as i64) % n as i64) as usize].re);
        }
    }
    v
}

pub fn best_lag(a: &[f64], b: &[f64]) -> Lag {
    let m = a.len().max(b.len()) as i64;
    let v = correlations(a, b);
    let scale = (a.iter().map(|x| x * x).sum::<f64>() * b.iter().map(|x| x * x).sum::<f64>()).sqrt();
    let mut best = 0;
    for i in 0..v.len() {
        if v[i].abs() > v[best].abs() {
            best = i;
        }
    }
    let tol = 1e-10 * scale.max(1e-300) + 1e-10 * v[best].abs();
    let near = v.iter().filter(|x| x.abs() >= v[best].abs() - tol).count();
    Lag { lag: best as i64 - (m - 1), ambiguous: near > 1 }
}

/// Whole-signal alignment: the degraded signal shifted by the best lag (a lag beyond half the reference is ignored).
pub fn globally_align(r: &[f64], d: &[f64]) -> Option<(Vec<f64>, i64, bool)> {
    let er = envelope(r)?;
    let ed = envelope(d)?;
    let l = best_lag(&er, &ed);
    if l.lag == 0 || l.lag.unsigned_abs() as usize > r.len() / 2 {
        return Some((d.to_vec(), 0, l.ambiguous));
    }
    let out = if l.lag < 0 {
        d[l.lag.unsigned_abs() as usize..].to_vec()
    } else {
        let mut v = vec![0.0; l.lag as usize];
        v.extend_from_slice(d);
        v
    };
    Some((out, l.lag, l.ambiguous))
}

/// Alignment of a pair of patches: both end up with the same length and describe the same instants.
pub fn align_and_truncate(r: &[f64], d: &[f64], rate: u32) -> Option<(Vec<f64>, Vec<f64>, f64, bool)> {
    let (a, lag, amb) = globally_align(r, d)?;
    let secs = lag as f64 / rate as f64;
    if r.len() < a.len() {
        let k = lag.max(0) as usize;
        Some((r[k..].to_vec(), a[k..r.len()].to_vec(), secs, amb))
    } else {
        Some((r[..a.len()].to_vec(), a, secs, amb))
    }
}

// ---------------------------------------------------------------------------------------------
// Level and spectrogram
// ---------------------------------------------------------------------------------------------

pub fn rms(x: &[f64]) -> f64 {
    (x.iter().map(|v| v * v).sum::<f64>() / x.len() as f64).sqrt()
}

pub fn scale_to_match(r: &[f64], d: &[f64]) -> Vec<f64> {
    let rd = rms(d);
    if rd == 0.0 {
        return d.to_vec();
    }
    let g = rms(r) / rd;
    d.iter().map(|v| v * g).collect()
}

const EAR_Q: f64 = 9.26449;
const MIN_BW: f64 = 24.7;

pub fn center_freqs(bands: usize, lo: f64, hi: f64) -> Vec<f64> {
    // ascending; equally spaced on the ERB-rate scale, the topmost band one step below `hi`'s end of the scale
    let k = EAR_Q * MIN_BW;
    let step = ((lo + k).ln() - (hi + k).ln()) / bands as f64;
    let mut v: Vec<f64> = (1..=bands).map(|i| (i as f64 * step).exp() * (hi + k) - k).collect();
    v.reverse();
    v
}

pub fn max_freq(bands: usize, rate: u32) -> f64 {
    if bands == 21 {
        8000f64.min(rate as f64 / 2.0)
    } else {
        (rate / 2) as f64
    }
}

pub struct Band {
    pub a0: f64,
    pub a1: [f64; 4],
    pub b1: f64,
    pub b2: f64,
    pub gain: f64,
}

pub fn gammatone(cf: f64, rate: u32) -> Band {
    let t = 1.0 / rate as f64;
    let b = 1.019 * 2.0 * PI * (cf / EAR_Q + MIN_BW);
    let w = 2.0 * PI * cf * t;
    let e = (b * t).exp();
    let rp = (3.0 + 2f64.powf(1.5)).sqrt();
    let rm = (3.0 - 2f64.powf(1.5)).sqrt();
    let a = |s: f64| -(2.0 * t * w.cos() / e + s * 2.0 * t * w.sin() / e) / 2.0;
    let e4 = C::cis(2.0 * w);
    let env = C::cis(w).scale(2.0 * t * (-b * t).exp());
    let term = |s: f64| e4.scale(-2.0 * t) + env.scale(w.cos() + s * w.sin());
    let num = term(-rm) * term(rm) * term(-rp) * term(rp);
    let den = c(-2.0 / (2.0 * b * t).exp(), 0.0) - e4.scale(2.0) + (c(1.0, 0.0) + e4).scale(2.0 / (b * t).exp());
    Band {
        a0: t,
        a1: [a(rp), a(-rp), a(rm), a(-rm)],
        b1: -2.0 * w.cos() / e,
        b2: (-2.0 * b * t).exp(),
        gain: num.abs() / den.abs().powi(4),
    }
}

pub fn filter_band(band: &Band, x: &[f64]) -> Vec<f64> {
    let mut y = x.to_vec();
    for k in 0..4 {
        let g = if k == 0 { band.gain } else { 1.0 };
        let (n0, n1) = (band.a0 / g, band.a1[k] / g);
        let (mut x1, mut y1, mut y2) = (0.0, 0.0, 0.0);
        for v in y.iter_mut() {
            let out = n0 * *v + n1 * x1 - band.b1 * y1 - band.b2 * y2;
            x1 = *v;
            y2 = y1;
            y1 = out;
            *v = out;
        }
    }
    y
}

pub fn window_size(rate: u32) -> usize {
    (rate as f64 * 0.08).round() as usize
}
pub fn hop_size(rate: u32) -> usize {
    (window_size(rate) as f64 * 0.25) as usize
}

#[derive(Debug, Clone, PartialEq)]
pub enum Fail {
    RateTooLow,
    TooFewSamples { found: usize, min: usize },
    SpectrogramTooSmall { found: usize, min: usize },
    TooDifferent,
    Align,
}

/// Rows = bands from low to high frequency, columns = frames.
pub fn spectrogram(x: &[f64], rate: u32, bands: usize) -> Result<Mat, Fail> {
    let (w, h) = (window_size(rate), hop_size(rate));
    if h == 0 {
        return Err(Fail::RateTooLow);
    }
    if x.len() < w {
        return Err(Fail::TooFewSamples { found: x.len(), min: w });
    }
    let cols = 1 + (x.len() - w) / h;
    let cf = center_freqs(bands, 50.0, max_freq(bands, rate));
    let fb: Vec<Band> = cf.iter().map(|f| gammatone(*f, rate)).collect();
    let mut m = Mat::zeros(bands, cols);
    for (b, band) in fb.iter().enumerate() {
        for col in 0..cols {
            m.set(b, col, rms(&filter_band(band, &x[col * h..col * h + w])));
        }
    }
    Ok(m)
}

/// dB conversion, absolute floor, per-frame floor relative to the louder of both signals, common zero.
pub fn prepare(r: &mut Mat, d: &mut Mat) {
    for m in [&mut *r, &mut *d] {
        for v in m.d.iter_mut() {
            let s = if *v == 0.0 { f64::EPSILON } else { v.abs() };
            *v = (10.0 * s.log10()).max(-45.0);
        }
    }
    for col in 0..r.cols.min(d.cols) {
        let mut peak = f64::NEG_INFINITY;
        for m in [&*r, &*d] {
            for row in 0..m.rows {
                peak = peak.max(m.at(row, col));
            }
        }
        for m in [&mut *r, &mut *d] {
            for row in 0..m.rows {
                let v = m.at(row, col).max(peak - 45.0);
                m.set(row, col, v);
            }
        }
    }
    let zero = r.min().min(d.min());
    for m in [r, d] {
        for v in m.d.iter_mut() {
            *v -= zero;
        }
    }
}

// ---------------------------------------------------------------------------------------------
// Patches
// ---------------------------------------------------------------------------------------------

pub struct Vad {
    pub indices: Vec<usize>,
    pub ambiguous: bool,
}

/// Activity decision per chunk from the chunks' RMS values: a chunk is inactive only if it and the two
/// before it are quiet; the first two chunks always count as active.
pub fn activity(quiet: &[bool]) -> Vec<bool> {
    (0..quiet.len()).map(|i| i < 2 || !(quiet[i] && quiet[i - 1] && quiet[i - 2])).collect()
}

pub fn chunk_quiet(x: &[f64], first: usize, chunks: usize, hop: usize) -> (Vec<bool>, bool) {
    let max = x.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
    let mut amb = false;
    let q = (0..chunks)
        .map(|k| {
            let s: f64 = (0..hop)
                .map(|j| {
                    let v = x[first + k * hop + j] / max * 32768.0;
                    let v = if v.is_nan() { 0.0 } else { v.trunc().clamp(-32768.0, 32767.0) };
                    v * v
                })
                .sum();
            let rms = (s / hop as f64).sqrt();
            if (rms - 5000.0).abs() < 3.0 {
                amb = true;
            }
            rms < 5000.0
        })
        .collect();
    (q, amb)
}

pub fn vad_patches(x: &[f64], rate: u32, cols: usize, size: usize) -> Result<Vad, Fail> {
    let first = size / 2 - 1;
    if cols < first + size {
        return Err(Fail::SpectrogramTooSmall { found: cols, min: first + size });
    }
    let count = (cols - first) / size;
    let (quiet, ambiguous) = chunk_quiet(x, first, count * size, hop_size(rate));
    let act = activity(&quiet);
    let indices = (0..count).filter(|p| act[p * size..(p + 1) * size].iter().any(|a| *a)).map(|p| first + p * size).collect();
    Ok(Vad { indices, ambiguous })
}

pub fn image_patches(cols: usize, size: usize) -> Result<Vec<usize>, Fail> {
    let half = size / 2;
    if cols < size + half {
        return Err(Fail::SpectrogramTooSmall { found: cols, min: size + half });
    }
    let end = if half < cols - size { cols - size } else { half + 1 };
    Ok((half..end).step_by(size).map(|i| i - 1).collect())
}

#[derive(Clone, Debug)]
pub struct Nsim {
    pub means: Vec<f64>,
    pub stds: Vec<f64>,
    pub energy: Vec<f64>,
    pub sim: f64,
}

const K: [[f64; 3]; 3] = [
    [0.0113033910173052, 0.0838251475442633, 0.0113033910173052],
    [0.0838251475442633, 0.619485845753726, 0.0838251475442633],
    [0.0113033910173052, 0.0838251475442633, 0.0113033910173052],
];

pub fn smooth(m: &Mat) -> Mat {
    let (rows, cols) = (m.rows as i64, m.cols as i64);
    Mat::from_fn(m.rows, m.cols, |r, col| {
        let mut s = 0.0;
        for dr in -1..=1i64 {
            for dc in -1..=1i64 {
                let rr = (r as i64 + dr).clamp(0, rows - 1) as usize;
                let cc = (col as i64 + dc).clamp(0, cols - 1) as usize;
                s += K[(dr + 1) as usize][(dc + 1) as usize] * m.at(rr, cc);
            }
        }
        s
    })
}

fn mul(a: &Mat, b: &Mat) -> Mat {
    Mat { rows: a.rows, cols: a.cols, d: a.d.iter().zip(&b.d).map(|(x, y)| x * y).collect() }
}

pub struct Moments {
    m: Mat,
    mu: Mat,
    var: Mat,
}
pub fn moments(m: &Mat) -> Moments {
    let mu = smooth(m);
    let sq = smooth(&mul(m, m));
    let var = Mat { rows: m.rows, cols: m.cols, d: sq.d.iter().zip(&mu.d).map(|(s, u)| s - u * u).collect() };
    Moments { m: m.clone(), mu, var }
}

pub fn nsim_moments(r: &Moments, d: &Moments) -> Nsim {
    let (rows, cols) = (r.m.rows, r.m.cols);
    let (c1, c3) = (0.01f64.powi(2), 0.03f64.powi(2) / 2.0);
    let cross = smooth(&mul(&r.m, &d.m));
    let map = Mat::from_fn(rows, cols, |i, j| {
        let (mr, md) = (r.mu.at(i, j), d.mu.at(i, j));
        let intensity = (2.0 * mr * md + c1) / (mr * mr + md * md + c1);
        let v = r.var.at(i, j) * d.var.at(i, j);
        let den = if v < 0.0 { c3 } else { v.sqrt() + c3 };
        intensity * (cross.at(i, j) - mr * md + c3) / den
    });
    let mut n = Nsim { means: vec![], stds: vec![], energy: vec![], sim: 0.0 };
    for i in 0..rows {
        let row: Vec<f64> = (0..cols).map(|j| map.at(i, j)).collect();
        let mean = row.iter().sum::<f64>() / cols as f64;
        n.means.push(mean);
        n.stds.push((row.iter().map(|v| (v - mean) * (v - mean)).sum::<f64>() / (cols as f64 - 1.0)).sqrt());
        n.energy.push((0..cols).map(|j| d.m.at(i, j)).sum::<f64>() / cols as f64);
    }
    n.sim = n.means.iter().sum::<f64>() / rows as f64;
    n
}

pub fn nsim(r: &Mat, d: &Mat) -> Nsim {
    nsim_moments(&moments(r), &moments(d))
}

/// How many reference patches can be scored against a degraded spectrogram of `cols` frames.
pub fn max_patches(idx: &[usize], cols: usize, size: usize, sw: i64) -> usize {
    let mut n = idx.len();
    while n > 0 && idx[n - 1] > cols + size / 2 {
        n -= 1;
    }
    idx[..n].iter().take_while(|i| (**i as i64 - sw) < cols as i64).count()
}

pub struct Matching {
    /// Offset of the match of each reference patch, None if it was left unmatched.
    pub at: Vec<Option<usize>>,
    /// Degraded offset at which each patch was evaluated (also for an unmatched one).
    pub eval: Vec<usize>,
    pub total: f64,
    pub ambiguous: bool,
}

/// In-order matching: patch p may start at any frame of its search window, strictly after the match of the
/// patch before it, or be left unmatched where that keeps the total higher.
pub fn match_patches(sim: &[Vec<f64>], idx: &[usize], cols: usize, sw: i64, eps: f64) -> Matching {
    let n = idx.len();
    let win = |p: usize| -> (i64, i64) { ((idx[p] as i64 - sw).max(0), (idx[p] as i64 + sw).min(cols as i64 - 1)) };
    let mut total = vec![vec![f64::NEG_INFINITY; cols]; n];
    let mut from = vec![vec![0usize; cols]; n];
    let mut tight = vec![vec![false; cols]; n];
    for p in 0..n {
        let (lo, hi) = win(p);
        for s in lo..=hi {
            let su = s as usize;
            if p == 0 {
                total[0][su] = sim[0][su];
                from[0][su] = usize::MAX;
                continue;
            }
            let mut best = f64::MIN;
            let mut arg = usize::MAX;
            let plo = win(p - 1).0;
            let mut b = s - 1;
            while b >= plo {
                if total[p - 1][b as usize] > best {
                    best = total[p - 1][b as usize];
                    arg = b as usize;
                }
                b -= 1;
            }
            let mut close = (plo..s).filter(|b| best - total[p - 1][*b as usize] < eps).count() > 1;
            let mut t = sim[p][su] + best;
            let skip = total[p - 1][su];
            if (skip - t).abs() < eps {
                close = true;
            }
            if skip > t {
                close = skip - t < eps;
                t = skip;
                arg = su;
            }
            total[p][su] = t;
            from[p][su] = arg;
            tight[p][su] = close;
        }
    }
    let (lo, hi) = win(n - 1);
    let mut last = lo.max(0) as usize;
    for s in lo..=hi {
        if total[n - 1][s as usize] > total[n - 1][last] {
            last = s as usize;
        }
    }
    let best = total[n - 1][last];
    let mut ambiguous = (lo..=hi).filter(|s| best - total[n - 1][*s as usize] < eps).count() > 1;
    let mut at = vec![None; n];
    let mut eval = vec![0; n];
    let mut cur = last;
    for p in (0..n).rev() {
        ambiguous |= tight[p][cur];
        eval[p] = cur;
        let f = from[p][cur];
        if f != cur {
            at[p] = Some(cur);
        }
        if p > 0 {
            if f == usize::MAX {
                // no predecessor position exists (offset 0 with patches before it)
                ambiguous = true;
                break;
            }
            cur = f;
        }
    }
    Matching { at, eval, total: best, ambiguous }
}

// ---------------------------------------------------------------------------------------------
// Scores
// ---------------------------------------------------------------------------------------------

pub fn speech_mos(vnsim: f64, scaled: bool) -> f64 {
    let m = 1.155_945_5 + (4.685_115_3 * (vnsim - 0.765_523_2)).exp();
    (m * if scaled { 1.2031409 } else { 1.0 }).clamp(1.0, 5.0)
}

#[derive(Clone)]
pub struct Svr {
    gamma: f64,
    rho: f64,
    sv: Vec<(f64, Vec<f64>)>,
}
impl Svr {
    pub fn parse(text: &str, dims: usize) -> Svr {
        let mut s = Svr { gamma: 0.0, rho: 0.0, sv: vec![] };
        let mut in_sv = false;
        for l in text.lines() {
            let mut w = l.split_whitespace();
            if in_sv {
                let Some(coef) = w.next() else { continue };
                let mut v = vec![0.0; dims];
                for f in w {
                    let (i, x) = f.split_once(':').unwrap();
                    v[i.parse::<usize>().unwrap() - 1] = x.parse().unwrap();
                }
                s.sv.push((coef.parse().unwrap(), v));
                continue;
            }
            match w.next() {
                Some("gamma") => s.gamma = w.next().unwrap().parse().unwrap(),
                Some("rho") => s.rho = w.next().unwrap().parse().unwrap(),
                Some("SV") => in_sv = true,
                _ => (),
            }
        }
        s
    }
    pub fn raw(&self, x: &[f64]) -> f64 {
        self.sv
            .iter()
            .map(|(coef, v)| {
                let d: f64 = v.iter().zip(x).map(|(a, b)| (a - b) * (a - b)).sum();
                coef * (-self.gamma * d).exp()
            })
            .sum::<f64>()
            - self.rho
    }
    pub fn mos(&self, x: &[f64]) -> f64 {
        self.raw(x).clamp(1.0, 5.0)
    }
}

#[derive(Clone)]
pub enum Mode {
    Speech { scaled: bool },
    Audio { svr: std::sync::Arc<Svr> },
}

#[derive(Clone, Debug)]
pub struct PatchOut {
    pub nsim: Nsim,
    pub ref_start: f64,
    pub ref_end: f64,
    pub deg_start: f64,
    pub deg_end: f64,
    pub matched: bool,
    pub coarse_sim: f64,
    /// the choice between coarse and realigned result is within rounding
    pub tight: bool,
    pub lag: f64,
    pub fine: bool,
}

#[derive(Clone, Debug)]
pub struct Out {
    pub moslqo: f64,
    pub vnsim: f64,
    pub fvnsim: Vec<f64>,
    pub fstdnsim: Vec<f64>,
    pub energy: Vec<f64>,
    pub centers: Vec<f64>,
    pub patches: Vec<PatchOut>,
    pub lag: i64,
    pub ref_indices: Vec<usize>,
    pub deg_cols: usize,
    pub ref_cols: usize,
    /// some discrete decision was too close to call
    pub ambiguous: bool,
    pub any_tight: bool,
    /// samples beyond full scale
    pub loud: bool,
}

pub fn pool_std(p: &[PatchOut], frame: f64, counts: &[usize]) -> Vec<f64> {
    let _ = frame;
    let bands = p[0].nsim.means.len();
    (0..bands)
        .map(|b| {
            let g = p.iter().map(|x| x.nsim.means[b]).sum::<f64>() / p.len() as f64;
            let n: usize = counts.iter().sum();
            let mut acc = 0.0;
            for (x, k) in p.iter().zip(counts) {
                acc += (*k as f64 - 1.0) * x.nsim.stds[b].powi(2) + *k as f64 * x.nsim.means[b].powi(2);
            }
            let v = (acc - g * g * n as f64) / (n as f64 - 1.0);
            if v < 0.0 {
                0.0
            } else {
                v.sqrt()
            }
        })
        .collect()
}

pub fn slice_secs(x: &[f64], rate: u32, a: f64, b: f64) -> Vec<f64> {
    let i = (a * rate as f64).round() as usize;
    let j = (b * rate as f64).round() as usize;
    let mut v = x[i.min(x.len())..j.min(x.len()).max(i.min(x.len()))].to_vec();
    let extra = j.saturating_sub(x.len());
    v.extend(std::iter::repeat(0.0).take(extra));
    v
}

pub fn visqol(r: &[f64], d: &[f64], rate: u32, mode: &Mode, radius: usize) -> Result<Out, Fail> {
    let (bands, size) = match mode {
        Mode::Speech { .. } => (21, 20),
        Mode::Audio { .. } => (32, 30),
    };
    let (aligned, lag, mut ambiguous) = globally_align(r, d).ok_or(Fail::Align)?;
    let loud = r.iter().any(|v| v.abs() > 1.0);
    // similarities closer than this are not told apart
    let eps = if loud { 1e-3 } else { 1e-7 };
    let deg = scale_to_match(r, &aligned);
    let mut sr = spectrogram(r, rate, bands)?;
    let mut sd = spectrogram(&deg, rate, bands)?;
    prepare(&mut sr, &mut sd);
    let idx = match mode {
        Mode::Speech { .. } => {
            let v = vad_patches(r, rate, sr.cols, size)?;
            ambiguous |= v.ambiguous;
            v.indices
        }
        Mode::Audio { .. } => image_patches(sr.cols, size)?,
    };
    let sw = ((radius as i128) * size as i128).min((sd.cols + idx[idx.len() - 1]) as i128) as i64;
    let n = max_patches(&idx, sd.cols, size, sw);
    if n == 0 {
        return Err(Fail::TooDifferent);
    }
    let frame = hop_size(rate) as f64 / rate as f64;
    let dur = frame * size as f64;
    let idx_n = &idx[..n];
    let rm: Vec<Moments> = idx_n.iter().map(|i| moments(&sr.patch(*i, size))).collect();
    let dm: Vec<Option<Moments>> = (0..sd.cols)
        .map(|s| idx_n.iter().any(|i| (s as i64 - *i as i64).abs() <= sw).then(|| moments(&sd.patch(s, size))))
        .collect();
    let sim: Vec<Vec<f64>> = (0..n)
        .map(|p| (0..sd.cols).map(|s| if (s as i64 - idx_n[p] as i64).abs() <= sw { nsim_moments(&rm[p], dm[s].as_ref().unwrap()).sim } else { 0.0 }).collect())
        .collect();
    let m = match_patches(&sim, idx_n, sd.cols, sw, eps);
    ambiguous |= m.ambiguous;
    let mut patches = vec![];
    for p in 0..n {
        let mut o = PatchOut {
            nsim: nsim(&sr.patch(idx_n[p], size), &sd.patch(m.eval[p], size)),
            ref_start: idx_n[p] as f64 * frame,
            ref_end: idx_n[p] as f64 * frame + dur,
            deg_start: 0.0,
            deg_end: 0.0,
            matched: m.at[p].is_some(),
            coarse_sim: 0.0,
            tight: false,
            lag: 0.0,
            fine: false,
        };
        if let Some(at) = m.at[p] {
            o.deg_start = at as f64 * frame;
            o.deg_end = o.deg_start + dur;
            o.coarse_sim = o.nsim.sim;
            let ra = slice_secs(r, rate, o.ref_start, o.ref_end);
            let da = slice_secs(&deg, rate, o.deg_start, o.deg_end);
            let (ra, da, l, amb) = align_and_truncate(&ra, &da, rate).ok_or(Fail::Align)?;
            ambiguous |= amb;
            o.lag = l;
            let mut fr = spectrogram(&ra, rate, bands)?;
            let mut fd = spectrogram(&da, rate, bands)?;
            prepare(&mut fr, &mut fd);
            let f = nsim(&fr, &fd);
            o.tight = (f.sim - o.coarse_sim).abs() < 10.0 * eps;
            if f.sim >= o.coarse_sim {
                o.nsim = f;
                o.fine = true;
                if l > 0.0 {
                    o.ref_start += l;
                } else {
                    o.deg_start -= l;
                }
                o.ref_end = o.ref_start + ra.len() as f64 / rate as f64;
                o.deg_end = o.deg_start + da.len() as f64 / rate as f64;
            }
        } else {
            o.nsim.sim = 0.0;
            o.nsim.means = vec![0.0; bands];
        }
        patches.push(o);
    }
    let mean = |f: &dyn Fn(&PatchOut) -> &Vec<f64>| -> Vec<f64> { (0..bands).map(|b| patches.iter().map(|p| f(p)[b]).sum::<f64>() / n as f64).collect() };
    let fvnsim = mean(&|p| &p.nsim.means);
    let energy = mean(&|p| &p.nsim.energy);
    let counts: Vec<usize> = patches.iter().map(|p| ((p.ref_end - p.ref_start) / frame).ceil() as usize).collect();
    let fstdnsim = pool_std(&patches, frame, &counts);
    let vnsim = fvnsim.iter().sum::<f64>() / bands as f64;
    let mut moslqo = match mode {
        Mode::Speech { scaled } => speech_mos(vnsim, *scaled),
        Mode::Audio { svr } => svr.mos(&fvnsim),
    };
    if vnsim < 0.15 {
        moslqo = 1.0;
    }
    let any_tight = patches.iter().any(|p| p.tight);
    Ok(Out {
        moslqo,
        vnsim,
        fvnsim,
        fstdnsim,
        energy,
        centers: center_freqs(bands, 50.0, max_freq(bands, rate)),
        patches,
        lag,
        ref_indices: idx,
        deg_cols: sd.cols,
        ref_cols: sr.cols,
        ambiguous,
        any_tight,
        loud,
    })
}
