//! Statistical tests with thresholds so far out (about e^-60, or 10 standard deviations) that a
//! correct sampler never reaches them over any realistic number of runs.

/// Pearson statistic against expected counts; sparse cells are merged with their neighbours.
pub fn chi2(observed: &[u64], expected: &[f64], what: &str) -> Result<(), String> {
    let (mut cells, mut o, mut e) = (vec![], 0f64, 0f64);
    for (a, b) in observed.iter().zip(expected) {
        o += *a as f64;
        e += *b;
        if e >= 60.0 {
            cells.push((o, e));
            o = 0.0;
            e = 0.0;
        }
    }
    if let Some(l) = cells.last_mut() {
        l.0 += o;
        l.1 += e;
    }
    if cells.len() < 2 {
        return Ok(());
    }
    let stat: f64 = cells.iter().map(|(o, e)| (o - e) * (o - e) / e).sum();
    let k = (cells.len() - 1) as f64;
    let limit = k + 2.0 * (k * 60.0).sqrt() + 2.0 * 60.0;
    if stat > limit {
        return Err(format!("{what}: chi-square {stat:.1} with {k} degrees of freedom (limit {limit:.1})"));
    }
    Ok(())
}

/// |sum| of n independent terms of mean 0 and the given variance
pub fn near_zero(sum: f64, n: usize, var: f64, what: &str) -> Result<(), String> {
    let limit = 10.0 * (n as f64 * var).sqrt();
    if n >= 200 && sum.abs() > limit {
        return Err(format!("{what}: sum {sum:.1} over {n} samples is beyond ten standard deviations ({limit:.1})"));
    }
    Ok(())
}

/// probabilities of the centered binomial distribution with 4 var bits, for -2var..=2var
pub fn cbd_pmf(var: usize) -> Vec<f64> {
    let bits = 4 * var;
    let mut row = vec![1f64];
    for _ in 0..bits {
        let mut next = vec![0f64; row.len() + 1];
        for (i, p) in row.iter().enumerate() {
            next[i] += p / 2.0;
            next[i + 1] += p / 2.0;
        }
        row = next;
    }
    row
}

/// values follow the centered binomial distribution independently
pub fn cbd(v: &[i64], var: usize, what: &str) -> Result<(), String> {
    let b = 2 * var as i64;
    let mut hist = vec![0u64; 2 * b as usize + 1];
    for x in v {
        if x.abs() > b {
            return Err(format!("{what}: sample {x} outside [-{b}, {b}]"));
        }
        hist[(x + b) as usize] += 1;
    }
    let n = v.len();
    let vf = var as f64;
    let pmf: Vec<f64> = cbd_pmf(var).iter().map(|p| p * n as f64).collect();
    chi2(&hist, &pmf, &format!("{what}: distribution at variance {var}"))?;
    // by position within any pool of random words
    for step in [16usize, 1] {
        for r in 0..step {
            let g: Vec<f64> = v.iter().skip(r).step_by(step).map(|x| *x as f64).collect();
            near_zero(g.iter().sum(), g.len(), vf, &format!("{what}: mean at positions {r} mod {step}, variance {var}"))?;
            near_zero(g.iter().map(|x| x * x - vf).sum(), g.len(), 2.0 * vf * vf, &format!("{what}: variance at positions {r} mod {step}, variance {var}"))?;
        }
    }
    for lag in 1..=33.min(n.saturating_sub(1)) {
        let s: i64 = v.iter().zip(&v[lag..]).map(|(a, b)| a * b).sum();
        near_zero(s as f64, n - lag, vf * vf, &format!("{what}: correlation at distance {lag}, variance {var}"))?;
        // products of squares have heavy tails: only over many samples
        if n - lag < 4000 {
            continue;
        }
        let s: f64 = v.iter().zip(&v[lag..]).map(|(a, b)| ((a * a) as f64 - vf) * ((b * b) as f64 - vf)).sum();
        near_zero(s, n - lag, 4.0 * vf * vf * vf * vf + 1.0, &format!("{what}: correlation of magnitudes at distance {lag}, variance {var}"))?;
    }
    Ok(())
}

/// number of v in [0, p) with floor(v * cells / p) == i, as an exact fraction of p
fn cell_share(p: u64, cells: u64, i: u64) -> f64 {
    let lo = |i: u64| (i as u128 * p as u128).div_ceil(cells as u128);
    (lo(i + 1) - lo(i)) as f64 / p as f64
}

/// values are uniform in [0, p) and serially independent
pub fn uniform(v: &[u64], p: u64, what: &str) -> Result<(), String> {
    if let Some(x) = v.iter().find(|x| **x >= p) {
        return Err(format!("{what}: sample {x} not below {p}"));
    }
    let n = v.len() as f64;
    let cells = 64u64.min(p);
    let cell = |x: u64| (x as u128 * cells as u128 / p as u128) as usize;
    let mut hist = vec![0u64; cells as usize];
    for x in v {
        hist[cell(*x)] += 1;
    }
    let exp: Vec<f64> = (0..cells).map(|i| n * cell_share(p, cells, i)).collect();
    chi2(&hist, &exp, &format!("{what}: high digits modulo {p}"))?;
    // low bits
    let m = 16u64.min(p);
    let mut hist = vec![0u64; m as usize];
    for x in v {
        hist[(x % m) as usize] += 1;
    }
    let exp: Vec<f64> = (0..m).map(|r| n * ((p - r).div_ceil(m)) as f64 / p as f64).collect();
    chi2(&hist, &exp, &format!("{what}: low digits modulo {p}"))?;
    // neighbours
    let sc = |x: u64| x as f64 / p as f64 - (p as f64 - 1.0) / (2.0 * p as f64);
    for lag in [1usize, 2, 3, 4, 8, 16] {
        if v.len() > lag {
            let s: f64 = v.iter().zip(&v[lag..]).map(|(a, b)| sc(*a) * sc(*b)).sum();
            near_zero(s, v.len() - lag, 1.0 / 144.0, &format!("{what}: correlation at distance {lag} modulo {p}"))?;
        }
    }
    Ok(())
}

/// many values: empirical distribution function within the Dvoretzky-Kiefer-Wolfowitz bound at e^-60
pub fn uniform_large(v: &[u64], p: u64, what: &str) -> Result<(), String> {
    if let Some(x) = v.iter().find(|x| **x >= p) {
        return Err(format!("{what}: sample {x} not below {p}"));
    }
    let n = v.len() as f64;
    let cells = 4096u64.min(p);
    let mut hist = vec![0u64; cells as usize];
    for x in v {
        hist[(*x as u128 * cells as u128 / p as u128) as usize] += 1;
    }
    let share: Vec<f64> = (0..cells).map(|i| cell_share(p, cells, i)).collect();
    let limit = (61.0 / 2.0 / n).sqrt();
    let (mut a, mut b) = (0f64, 0f64);
    for (i, (h, s)) in hist.iter().zip(&share).enumerate() {
        a += *h as f64 / n;
        b += s;
        if (a - b).abs() > limit {
            return Err(format!("{what}: a share of {a:.5} of the samples modulo {p} lies in the first {} of {cells} cells instead of {b:.5} (allowed deviation {limit:.5})", i + 1));
        }
    }
    let exp: Vec<f64> = share.iter().map(|s| s * n).collect();
    chi2(&hist, &exp, &format!("{what}: cells modulo {p}"))?;
    uniform(v, p, what)
}

/// mean and variance at every position modulo several steps
pub fn cbd_positions(v: &[i64], var: usize, what: &str) -> Result<(), String> {
    let vf = var as f64;
    for step in [3usize, 5, 6, 7, 8, 10, 12, 20, 21, 32, 42, 64] {
        let mut sums = vec![(0i64, 0f64, 0usize); step];
        for (i, x) in v.iter().enumerate() {
            let s = &mut sums[i % step];
            s.0 += x;
            s.1 += (x * x) as f64 - vf;
            s.2 += 1;
        }
        for (r, s) in sums.iter().enumerate() {
            near_zero(s.0 as f64, s.2, vf, &format!("{what}: mean at positions {r} mod {step}, variance {var}"))?;
            near_zero(s.1, s.2, 2.0 * vf * vf, &format!("{what}: variance at positions {r} mod {step}, variance {var}"))?;
        }
    }
    Ok(())
}
