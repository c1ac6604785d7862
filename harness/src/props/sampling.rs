//! C18 samplers: centered binomial noise and keys, uniform residues.
use super::stats;
use crate::fw::*;
use crate::gen::*;
use crate::refmath as rm;
use onion_pir::verif::bfv::*;
use onion_pir::verif::ksk::Ksk;
use onion_pir::verif::modulus::Modulus;
use onion_pir::verif::rq::*;
use onion_pir::verif::utils::sample_vec_cbd;
use proptest::collection::vec;
use proptest::prelude::*;
use rand::SeedableRng;
use rand_chacha::ChaCha8Rng;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Cbd {
    var: usize,
    /// lengths of the successive requests
    sizes: Vec<usize>,
    seed: u64,
    system: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Uni {
    p: u64,
    sizes: Vec<usize>,
    seed: u64,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Large {
    p: u64,
    seed: u64,
    how: u8,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Polys {
    r: RingSpec,
    var: usize,
    seed: u64,
    bit: u8,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Keys {
    logn: u32,
    moduli: usize,
    var: usize,
    level: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Long {
    logn: u32,
    moduli: usize,
    var: usize,
    x: u64,
    kind: u8,
}

/// sums over many vectors, position by position
struct Columns {
    n: usize,
    count: usize,
    s1: Vec<f64>,
    s2: Vec<f64>,
    s3: Vec<f64>,
    odd: Vec<i64>,
    /// products of a vector with itself at every distance, over the first few vectors
    lag: Vec<f64>,
    lags: usize,
}
impl Columns {
    fn new(n: usize) -> Columns {
        Columns { n, count: 0, s1: vec![0.0; n], s2: vec![0.0; n], s3: vec![0.0; n], odd: vec![0; n], lag: vec![0.0; n], lags: 0 }
    }
    fn ints(&mut self, v: &[i64]) {
        self.add(v.iter().map(|x| *x as f64), |i| v[i] & 1 == 1)
    }
    fn add(&mut self, v: impl Iterator<Item = f64>, odd: impl Fn(usize) -> bool) {
        let v: Vec<f64> = v.collect();
        assert_eq!(v.len(), self.n);
        self.count += 1;
        for i in 0..self.n {
            self.s1[i] += v[i];
            self.s2[i] += v[i] * v[i];
            self.s3[i] += v[i] * v[(i + 1) % self.n];
            self.odd[i] += odd(i) as i64;
        }
        if self.lags < 8 {
            self.lags += 1;
            for d in 1..self.n {
                self.lag[d] += v.iter().zip(&v[d..]).map(|(a, b)| a * b).sum::<f64>();
            }
        }
    }
    fn judge(&self, sig2: f64, m4: f64, parity: bool, what: &str) -> Res {
        if self.count < 100 { return Ok(()); }
        let c = self.count as f64;
        for i in 0..self.n {
            let z = [
                (self.s1[i] / (c * sig2).sqrt(), "mean"),
                ((self.s2[i] - c * sig2) / (c * (m4 - sig2 * sig2)).sqrt(), "variance"),
                (self.s3[i] / (c * sig2 * sig2).sqrt(), "product with the next"),
                (if parity { (2.0 * self.odd[i] as f64 - c) / c.sqrt() } else { 0.0 }, "parity"),
            ];
            for (z, name) in z {
                ensure!(z.abs() < 10.0, "{}: {} at coefficient {} over {} polynomials is {:.1} standard deviations off", what, name, i, self.count, z);
            }
        }
        for d in 1..self.n {
            let terms = (self.lags * (self.n - d)) as f64;
            if terms < 200.0 { continue; }
            let z = self.lag[d] / (terms * sig2 * sig2).sqrt();
            ensure!(z.abs() < 10.0, "{}: correlation of coefficients {} apart is {:.1} standard deviations off", what, d, z);
        }
        Ok(())
    }
}

pub fn centered(v: u64, q: u64) -> i64 {
    if v > q / 2 { -((q - v) as i64) } else { v as i64 }
}
/// the small integer polynomial behind the residues, if every row agrees
pub fn small_rows(rows: &[Vec<u64>], q: &[u64]) -> Result<Vec<i64>, String> {
    // the largest modulus names the value, the others have to agree
    let (k0, _) = q.iter().enumerate().max_by_key(|(_, q)| **q).unwrap();
    let v: Vec<i64> = rows[k0].iter().map(|x| centered(*x, q[k0])).collect();
    for (k, qk) in q.iter().enumerate() {
        for (j, x) in v.iter().enumerate() {
            ensure!(rows[k][j] == rm::i64m(*x, *qk), "coefficient {} is {} modulo {} but residue {} modulo {}", j, x, q[k0], rows[k][j], qk);
        }
    }
    Ok(v)
}

pub fn sampling(ctx: &mut Ctx) {
    let cbd = || {
        (1usize..=16, prop_oneof![3 => vec(1usize..600, 1..40), 1 => Just(vec![20000]), 1 => vec(1usize..20, 1..200)], any::<u64>(), any::<bool>())
            .prop_map(|(var, sizes, seed, system)| Cbd { var, sizes, seed, system })
            .boxed()
    };
    ctx.sub("centered_binomial", "variance 1..16, successive requests of 1..20000 samples from seeded and system generators (up to 30 times each, to 20000 samples): requested length, range +-2*variance, centered binomial distribution overall, mean and variance at every position modulo 16, no correlation up to distance 33. Non-trivial: 5000 samples or more", 12000, 300000, cbd, |c: &Cbd, o| {
        let mut rng = ChaCha8Rng::seed_from_u64(c.seed);
        let mut all = vec![];
        let mut first = 0usize;
        'outer: for _ in 0..30 {
            for s in &c.sizes {
                let v = if c.system { sample_vec_cbd(*s, c.var, &mut rand::thread_rng()) } else { sample_vec_cbd(*s, c.var, &mut rng) };
                ensure_eq!(v.len(), *s, "number of samples");
                first += (v[0] != 0) as usize;
                all.extend(v);
                if all.len() >= 20000 { break 'outer; }
            }
        }
        let _ = first;
        o.nt(all.len() >= 5000);
        o.n(all.len());
        o.label(format!("variance {}", c.var));
        stats::cbd(&all, c.var, "sample_vec_cbd")
    });

    let uni = || {
        (prop_oneof![2 => 2u64..100, 2 => 100u64..100000, 4 => bits_pick().prop_map(|(b, k)| (1u64 << (b.min(61))).max(2) + k % (1u64 << b.min(61)))], vec(1usize..900, 1..30), any::<u64>())
            .prop_map(|(p, sizes, seed)| Uni { p: p.min((1 << 62) - 1), sizes, seed })
            .boxed()
    };
    ctx.sub("uniform_residues", "moduli 2..2^62: random and random_vec return the requested number of values below p, uniform in their high and low digits and serially uncorrelated. Non-trivial: 2000 samples or more", 16000, 400000, uni, |c: &Uni, o| {
        let m = Modulus::new(c.p);
        let mut rng = ChaCha8Rng::seed_from_u64(c.seed);
        let mut all = vec![];
        for _ in 0..20 {
            for s in &c.sizes {
                let v = m.random_vec(*s, &mut rng);
                ensure_eq!(v.len(), *s, "number of samples");
                all.extend(v);
            }
        }
        all.truncate(12000);
        let single: Vec<u64> = (0..3000).map(|_| m.random(&mut rng)).collect();
        o.nt(all.len() >= 2000);
        o.n(all.len() + 3000);
        o.label(format!("{} bits", c.p.ilog2() / 8 * 8));
        stats::uniform(&all, c.p, "random_vec")?;
        stats::uniform(&single, c.p, "random")
    });

    let large = || {
        (2u32..=61, any::<u64>(), any::<u64>(), 0u8..3)
            .prop_map(|(b, k, seed, how)| Large { p: (1u64 << b) + k % (1u64 << b), seed, how })
            .boxed()
    };
    ctx.sub("uniform_large", "moduli of every size and any position between powers of two, 2 million residues each from random_vec, random and random_from_seed: the empirical distribution function stays within sqrt(30.5/n) of the uniform one (Dvoretzky-Kiefer-Wolfowitz at e^-60), and 4096 equal cells fit. Catches reductions of machine words modulo p. Non-trivial: p not within 1% of a power of two", 320, 8000, large, |c: &Large, o| {
        let m = Modulus::new(c.p);
        let mut rng = ChaCha8Rng::seed_from_u64(c.seed);
        let n = 2_000_000usize;
        let frac = c.p as f64 / (1u64 << c.p.ilog2()) as f64;
        o.nt((1.01..1.99).contains(&frac));
        o.n(n);
        let v: Vec<u64> = match c.how {
            0 => m.random_vec(n, &mut rng),
            1 => (0..n).map(|_| m.random(&mut rng)).collect(),
            _ => {
                // residues of seeded polynomials; the modulus has to support the transform
                let q = primes(8192, &[(c.p.ilog2().max(16), c.seed)], &[]);
                let r = RingSpec { n: 8192, q };
                o.label("seeded polynomials");
                let ctx = r.ctx();
                let mut v = vec![];
                let mut i = 0u64;
                while v.len() < n {
                    let mut seed = [0u8; 32];
                    seed[..8].copy_from_slice(&mix(c.seed ^ i).to_le_bytes());
                    v.extend(Poly::random_from_seed(&ctx, Representation::Ntt, seed).coefficients().iter());
                    i += 1;
                }
                return stats::uniform_large(&v, ctx.moduli_64[0], "random_from_seed");
            }
        };
        stats::uniform_large(&v, c.p, if c.how == 0 { "random_vec" } else { "random" })
    });
    let large = || (1u32..=16, any::<u64>(), 0u8..2).prop_map(|(b, seed, how)| Large { p: b as u64, seed, how }).boxed();
    ctx.sub("centered_binomial_large", "variance 1..16, one million samples: distribution, mean and variance at every position modulo 3..64, correlations. Non-trivial: all", 80, 2000, large, |c: &Large, o| {
        let mut rng = ChaCha8Rng::seed_from_u64(c.seed);
        let n = 1_000_000usize;
        let var = c.p as usize;
        let chunk = if c.how == 0 { n } else { 1 + (c.seed % 5000) as usize };
        let mut v = vec![];
        while v.len() < n { v.extend(sample_vec_cbd(chunk, var, &mut rng)); }
        o.nt(true);
        o.n(v.len());
        o.label(format!("variance {}", var));
        stats::cbd(&v, var, "sample_vec_cbd")?;
        stats::cbd_positions(&v, var, "sample_vec_cbd")
    });

    // every position of long vectors, over many vectors
    let deep = || (1u64..=16, any::<u64>(), 0u8..2).prop_map(|(p, seed, how)| Large { p, seed, how }).boxed();
    ctx.sub("every_position", "variance 1..16, 12000 vectors of one length (1025..2048) each from seeded and system generators: mean and variance at every single position, and correlation between neighbouring positions, within ten standard deviations. Non-trivial: all", 48, 1200, deep, |c: &Large, o| {
        let mut rng = ChaCha8Rng::seed_from_u64(c.seed);
        let (var, count) = (c.p as usize, 12000usize);
        let len = 2048 - (c.seed % 1024) as usize;
        let (mut s1, mut s2, mut s3) = (vec![0i64; len], vec![0i64; len], vec![0i64; len]);
        for _ in 0..count {
            let v = if c.how == 0 { sample_vec_cbd(len, var, &mut rng) } else { sample_vec_cbd(len, var, &mut rand::thread_rng()) };
            ensure_eq!(v.len(), len, "number of samples");
            for i in 0..len {
                s1[i] += v[i];
                s2[i] += v[i] * v[i];
                s3[i] += v[i] * v[(i + 1) % len];
            }
        }
        let (n, sig2) = (count as f64, var as f64);
        // fourth central moment of a sum of 4 var signed halves
        let m4 = 3.0 * sig2 * sig2 - sig2 / 2.0;
        for i in 0..len {
            let z = [s1[i] as f64 / (n * sig2).sqrt(), (s2[i] as f64 - n * sig2) / (n * (m4 - sig2 * sig2)).sqrt(), s3[i] as f64 / (n * sig2 * sig2).sqrt()];
            for (z, what) in z.iter().zip(["mean", "variance", "product with the next position"]) {
                ensure!(z.abs() < 10.0, "variance {}: {} at position {} of {} is {:.1} standard deviations off", var, what, i, len, z);
            }
        }
        o.nt(true);
        o.n(3 * len);
        o.label(format!("variance {}", var));
        Ok(())
    });

    // every coefficient of long polynomials and keys, over many of them
    let long = || (9u32..=12, 1usize..=3, 1usize..=16, any::<u64>(), 0u8..6).prop_map(|(logn, moduli, var, x, kind)| Long { logn, moduli, var, x, kind }).boxed();
    ctx.sub("long_polynomials", "degrees 512..4096, 1600 polynomials each from random, random_from_seed, random_small, or secret keys, encryption errors and masks, switching-key errors and masks: mean, variance, parity (uniform ones) and neighbour products at every single coefficient within ten standard deviations, and no correlation of a polynomial with itself at any distance. Non-trivial: all", 48, 1200, long, |c: &Long, o| {
        let n = 1usize << c.logn;
        let q = primes(n, &(0..c.moduli.max(2) as u64).map(|i| (50 + (mix(c.x ^ i) % 12) as u32, mix(c.x + i))).collect::<Vec<_>>(), &[]);
        let p = ParamSpec { n, q, t: 65537, var: c.var };
        let params = p.params();
        let lctx = params.q_ctxs[0].clone();
        let q = &p.q;
        let mut rng = ChaCha8Rng::seed_from_u64(c.x);
        let count = if c.kind >= 4 { 600 } else { 1600 };
        let mut small = Columns::new(n);
        let mut uni: Vec<Columns> = q.iter().map(|_| Columns::new(n)).collect();
        let sk = SecretKey::generate(&params);
        let mut s = Poly::try_from_vec_i64(&lctx, &sk.coeffs);
        s.change_representation(Representation::Ntt);
        let zero = Poly::zero(&lctx, Representation::Ntt);
        let error = |b: &Poly, a: &Poly, payload: &Poly| {
            let mut e = a * &s;
            e += b;
            e -= payload;
            e.change_representation(Representation::PowerBasis);
            small_rows(&rows_of(&e), q)
        };
        let mut masks = |a: &Poly| for (k, r) in a.coefficients().outer_iter().enumerate() {
            let qk = q[k] as f64;
            uni[k].add(r.iter().map(|x| (*x as f64 - (qk - 1.0) / 2.0) / qk), |i| r[i] & 1 == 1);
        };
        for i in 0..count {
            let rep = if i % 2 == 0 { Representation::Ntt } else { Representation::PowerBasis };
            match c.kind {
                0 => masks(&Poly::random(&lctx, &mut rng, rep)),
                1 => {
                    let mut seed = [0u8; 32];
                    for (j, w) in seed.chunks_mut(8).enumerate() { w.copy_from_slice(&mix(c.x ^ mix((i * 4 + j) as u64)).to_le_bytes()); }
                    masks(&Poly::random_from_seed(&lctx, rep, seed));
                }
                2 => {
                    let mut e = Poly::random_small(&lctx, rep, c.var, &mut rng);
                    e.change_representation(Representation::PowerBasis);
                    small.ints(&small_rows(&rows_of(&e), q)?);
                }
                3 => small.ints(&SecretKey::generate(&params).coeffs),
                4 => {
                    let ct = sk.encrypt_poly(&zero);
                    small.ints(&error(&ct.cts[0], &ct.cts[1], &zero)?);
                    masks(&ct.cts[1]);
                }
                _ => {
                    let k = Ksk::new(&sk, &zero, 0, 0);
                    let j = i % k.c0.len();
                    small.ints(&error(&k.c0[j], &k.c1[j], &zero)?);
                    masks(&k.c1[j]);
                }
            }
        }
        o.nt(true);
        o.n(n * count);
        o.label(format!("kind {}", c.kind));
        let what = ["Poly::random", "Poly::random_from_seed", "Poly::random_small", "secret key", "encryption", "switching key"][c.kind as usize];
        let v = c.var as f64;
        // fourth central moment of a sum of 4 var signed halves
        small.judge(v, 3.0 * v * v - v / 2.0, false, &format!("{what}, degree {n}, variance {}", c.var))?;
        for (k, u) in uni.iter().enumerate() { u.judge(1.0 / 12.0, 1.0 / 80.0, true, &format!("{what}, degree {n}, modulo {}", q[k]))?; }
        Ok(())
    });

    let polys = || (crate::gen::ring(9, 5), 1usize..=16, any::<u64>(), any::<u8>()).prop_map(|(r, var, seed, bit)| Polys { r, var, seed, bit }).boxed();
    ctx.sub("polynomials", "Poly::random and random_from_seed: residues uniform per modulus, rows unrelated to each other, requested representation; random_from_seed is a function of its seed in which each seed bit matters; random_small is one small integer polynomial across all moduli in either representation. Non-trivial: two or more moduli", 12000, 300000, polys, |c: &Polys, o| {
        let ctx = c.r.ctx();
        let (n, q) = (c.r.n, &c.r.q);
        let mut rng = ChaCha8Rng::seed_from_u64(c.seed);
        o.nt(q.len() > 1);
        let reps = 4096 / n + 1;
        let mut seed = [0u8; 32];
        let mut cols = vec![vec![]; q.len()];
        let mut seeded = vec![vec![]; q.len()];
        let mut small = vec![];
        for i in 0..reps {
            for (j, w) in seed.chunks_mut(8).enumerate() { w.copy_from_slice(&mix(c.seed ^ mix((i * 4 + j) as u64)).to_le_bytes()); }
            let rep = if i % 2 == 0 { Representation::Ntt } else { Representation::PowerBasis };
            let p = Poly::random(&ctx, &mut rng, rep.clone());
            ensure!(p.representation == rep && p.context == ctx && canonical(&p), "random polynomial malformed");
            for (k, r) in p.coefficients().outer_iter().enumerate() { cols[k].extend(r.iter().cloned()); }
            let s = Poly::random_from_seed(&ctx, rep.clone(), seed);
            ensure!(s.representation == rep && s.context == ctx && canonical(&s), "seeded polynomial malformed");
            for (k, r) in s.coefficients().outer_iter().enumerate() { seeded[k].extend(r.iter().cloned()); }
            if i == 0 {
                ensure!(Poly::random_from_seed(&ctx, rep.clone(), seed) == s, "random_from_seed differs for equal seeds");
                let mut other = seed;
                other[c.bit as usize / 8] ^= 1 << (c.bit % 8);
                let d = Poly::random_from_seed(&ctx, rep.clone(), other);
                let big = q.iter().position(|q| *q > 1 << 19);
                if let Some(k) = big {
                    let same = d.coefficients().row(k).iter().zip(s.coefficients().row(k).iter()).filter(|(a, b)| a == b).count();
                    ensure!(same <= n / 4 + 2, "seed bit {} changes only {} of {} coefficients", c.bit, n - same, n);
                }
            }
            let e = Poly::random_small(&ctx, rep.clone(), c.var, &mut rng);
            ensure!(e.representation == rep && e.context == ctx && canonical(&e), "small polynomial malformed");
            if q.iter().any(|q| *q > 4 * c.var as u64 + 1) {
                small.extend(small_rows(&rows_of(&e), q)?);
            }
        }
        for k in 0..q.len() {
            stats::uniform(&cols[k], q[k], "Poly::random")?;
            stats::uniform(&seeded[k], q[k], "Poly::random_from_seed")?;
            for l in 0..k {
                for set in [&cols, &seeded] {
                    let sc = |x: u64, q: u64| x as f64 / q as f64 - (q as f64 - 1.0) / (2.0 * q as f64);
                    let s: f64 = set[k].iter().zip(&set[l]).map(|(a, b)| sc(*a, q[k]) * sc(*b, q[l])).sum();
                    stats::near_zero(s, set[k].len(), 1.0 / 144.0, "correlation between residue rows")?;
                }
            }
        }
        o.n(cols.len() * cols[0].len() * 2 + small.len());
        stats::cbd(&small, c.var, "Poly::random_small")
    });

    let keys = || (3u32..=6, 1usize..=3, 1usize..=16, any::<u8>()).prop_map(|(logn, moduli, var, level)| Keys { logn, moduli, var, level }).boxed();
    ctx.sub("keys_and_errors", "generated secret keys, encryption errors at every level and switching-key errors follow the centered binomial distribution of the parameters' variance; masks are uniform. Non-trivial: variance other than the default 10", 1600, 40000, keys, |c: &Keys, o| {
        let n = 1usize << c.logn;
        let q = primes(n, &vec![(61u32, 7); c.moduli], &[]);
        let p = ParamSpec { n, q, t: 65537, var: c.var };
        let params = p.params();
        let level = c.level as usize % c.moduli;
        let lctx = params.q_ctxs[level].clone();
        let ql = p.q_at(level).to_vec();
        o.nt(c.var != 10);
        o.label(format!("variance {}", c.var));
        let want = 6000;
        let (mut keys, mut errs, mut kerrs) = (vec![], vec![], vec![]);
        let mut masks = vec![vec![]; ql.len()];
        while keys.len() < want {
            let sk = SecretKey::generate(&params);
            ensure_eq!(sk.coeffs.len(), n, "length of the secret key");
            keys.extend(sk.coeffs.iter().cloned());
            let zero = Poly::zero(&lctx, Representation::Ntt);
            let ct = sk.encrypt_poly(&zero);
            errs.extend(small_rows(&phase_rows(&ct.cts, &sk.coeffs), &ql)?);
            for (k, r) in rows_of(&ct.cts[1]).into_iter().enumerate() { masks[k].extend(r); }
            let ksk = Ksk::new(&sk, &zero, level, level);
            for (a, b) in ksk.c0.iter().zip(&ksk.c1) {
                kerrs.extend(small_rows(&phase_rows(&[a.clone(), b.clone()], &sk.coeffs), &ql)?);
                for (k, r) in rows_of(b).into_iter().enumerate() { masks[k].extend(r); }
            }
        }
        stats::cbd(&keys, c.var, "secret key")?;
        stats::cbd(&errs, c.var, "encryption error")?;
        stats::cbd(&kerrs, c.var, "switching-key error")?;
        for (k, m) in masks.iter().enumerate() { stats::uniform(m, ql[k], "ciphertext mask")?; }
        o.n(keys.len() + errs.len() + kerrs.len());
        Ok(())
    });
}
