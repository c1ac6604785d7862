//! Generators shared by the properties: boundary-heavy coefficients, polynomials, parameter sets.
use crate::refmath as rm;
use num_bigint::{BigInt, BigUint};
use onion_pir::verif::bfv::*;
use onion_pir::verif::rq::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::HashMap;
use std::sync::{Arc, Mutex, OnceLock};

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

/// Value in [0, q) for a raw generated word: half the words land on edges
/// (near 0, near q, near q/2, near a power of two), the rest are uniform.
pub fn edge(raw: u64, q: u64) -> u64 {
    let r = raw & ((1 << 61) - 1);
    match raw >> 61 {
        0 => r % 16 % q,
        1 => q - 1 - (r % 16) % q,
        2 => ((q / 2).wrapping_add(r % 9).wrapping_sub(4)) % q,
        3 => {
            let s = r % 63;
            ((1u64 << s).wrapping_add((r >> 6) % 3).wrapping_sub(1)) % q
        }
        _ => mix(raw) % q,
    }
}

/// Any u64, boundary heavy.
pub fn edge64(raw: u64) -> u64 {
    let r = raw & ((1 << 61) - 1);
    match raw >> 61 {
        0 => r % 16,
        1 => u64::MAX - r % 16,
        2 => (1u64 << (r % 64)).wrapping_add((r >> 6) % 3).wrapping_sub(1),
        3 => mix(raw) >> (r % 64),
        _ => mix(raw),
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum Fill {
    Zero,
    Const(u64),
    Repeat,
    Uniform(u64),
    Edges(u64),
    SparseTail(u64),
}

/// A polynomial of any degree: explicit head, then a rule for the rest.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub struct PolySpec {
    pub head: Vec<u64>,
    pub fill: Fill,
}
impl PolySpec {
    pub fn raw(&self, n: usize) -> Vec<u64> {
        (0..n)
            .map(|i| {
                if i < self.head.len() {
                    return self.head[i];
                }
                match self.fill {
                    Fill::Zero => 0,
                    Fill::Const(c) => c,
                    Fill::Repeat => {
                        if self.head.is_empty() {
                            0
                        } else {
                            self.head[i % self.head.len()]
                        }
                    }
                    // top bit set: edge() takes the uniform branch
                    Fill::Uniform(s) => mix(s ^ mix(i as u64)) | (1 << 63),
                    Fill::Edges(s) => mix(s ^ mix(i as u64)),
                    Fill::SparseTail(s) => {
                        let r = mix(s ^ mix(i as u64));
                        if r % (n as u64) < 2 {
                            mix(r)
                        } else {
                            0
                        }
                    }
                }
            })
            .collect()
    }
    pub fn coeffs(&self, n: usize, q: u64) -> Vec<u64> {
        self.raw(n).into_iter().map(|r| edge(r, q)).collect()
    }
    /// residues per modulus; independent rows, i.e. an arbitrary element of the ring
    pub fn rows(&self, n: usize, moduli: &[u64]) -> Vec<Vec<u64>> {
        let raw = self.raw(n);
        moduli
            .iter()
            .enumerate()
            .map(|(k, &q)| {
                raw.iter()
                    .map(|&r| {
                        if r == 0 {
                            0
                        } else if r >> 63 == 1 {
                            edge(mix(r ^ (k as u64) << 7) | 1 << 63, q)
                        } else {
                            edge(r, q)
                        }
                    })
                    .collect()
            })
            .collect()
    }
    pub fn dense(&self) -> bool {
        !matches!(self.fill, Fill::Zero | Fill::SparseTail(_))
    }
    pub fn kind(&self) -> &'static str {
        match self.fill {
            Fill::Zero => "short",
            Fill::Const(_) => "const",
            Fill::Repeat => "repeat",
            Fill::Uniform(_) => "uniform",
            Fill::Edges(_) => "edges",
            Fill::SparseTail(_) => "sparse",
        }
    }
}
pub fn poly() -> BoxedStrategy<PolySpec> {
    let fill = prop_oneof![
        1 => Just(Fill::Zero),
        1 => any::<u64>().prop_map(Fill::Const),
        1 => Just(Fill::Repeat),
        4 => any::<u64>().prop_map(Fill::Uniform),
        3 => any::<u64>().prop_map(Fill::Edges),
        1 => any::<u64>().prop_map(Fill::SparseTail),
    ];
    (vec(any::<u64>(), 0..10), fill)
        .prop_map(|(head, fill)| PolySpec { head, fill })
        .boxed()
}

/// Ring degree and NTT-friendly distinct primes.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub struct RingSpec {
    pub n: usize,
    pub q: Vec<u64>,
}

pub fn bd() -> BitDecomposition {
    BitDecomposition { base: 4, l: 8 }
}

fn cached<K: std::hash::Hash + Eq + Clone + Send + 'static, V: Send + Sync + 'static>(
    cell: &'static OnceLock<Mutex<HashMap<K, Arc<V>>>>,
    k: &K,
    f: impl FnOnce() -> V,
) -> Arc<V> {
    let m = cell.get_or_init(Default::default);
    if let Some(v) = m.lock().unwrap_or_else(|e| e.into_inner()).get(k) {
        return v.clone();
    }
    let v = Arc::new(f());
    let mut g = m.lock().unwrap_or_else(|e| e.into_inner());
    if g.len() > 600 {
        g.clear();
    }
    g.entry(k.clone()).or_insert(v).clone()
}

impl RingSpec {
    pub fn ctx(&self) -> Arc<RqContext> {
        static C: OnceLock<Mutex<HashMap<RingSpec, Arc<RqContext>>>> = OnceLock::new();
        cached(&C, self, || RqContext::new(self.q.clone(), self.n, bd()))
    }
    pub fn crt(&self) -> rm::Crt {
        rm::Crt::new(&self.q)
    }
}

/// degree exponents, weighted to the small ones
pub fn logn(max: u32) -> BoxedStrategy<u32> {
    prop_oneof![
        60 => 3u32..=4,
        40 => 5u32..=6,
        8 => 7u32..=8,
        1 => 9u32..=max.max(9),
    ]
    .prop_map(move |l| l.min(max))
    .boxed()
}

/// distinct NTT primes for degree n; sizes are clamped up to where such primes exist
pub fn primes(n: usize, sizes: &[(u32, u64)], avoid: &[u64]) -> Vec<u64> {
    let mut out: Vec<u64> = vec![];
    for &(bits, pick) in sizes {
        let mut b = bits.max((2 * n as u64).ilog2() + 2).min(62);
        let mut p = pick;
        let mut tries = 0;
        loop {
            if let Some(c) = rm::prime_1_mod(b, 2 * n as u64, p) {
                if !out.contains(&c) && !avoid.contains(&c) {
                    out.push(c);
                    break;
                }
            }
            p = mix(p);
            tries += 1;
            if tries % 4 == 0 {
                b = if b >= 62 { 50 } else { b + 1 };
            }
        }
    }
    out
}

pub fn bits_pick() -> BoxedStrategy<(u32, u64)> {
    (
        prop_oneof![2 => Just(62u32), 3 => 50u32..=62, 2 => 20u32..=50, 1 => 5u32..=20],
        // pick = u64::MAX lands on the largest candidates
        prop_oneof![1 => Just(u64::MAX), 1 => Just(0u64), 4 => any::<u64>()],
    )
        .boxed()
}

/// lists of modulus sizes; where long chains are allowed at all, a few are far longer
/// than the bound (up to 20 moduli, small degree)
fn chain(min: usize, max: usize, max_logn: u32) -> BoxedStrategy<(u32, Vec<(u32, u64)>)> {
    let usual = (logn(max_logn), vec(bits_pick(), min..=max));
    if max < 5 {
        return usual.boxed();
    }
    let top = prop_oneof![1 => Just(62u32), 1 => 55u32..=62].prop_flat_map(|b| (Just(b), any::<u64>()));
    let long = (
        3u32..=4,
        prop_oneof![vec(bits_pick(), max + 1..=20), vec(top, max + 1..=20)],
    );
    prop_oneof![24 => usual, 1 => long].boxed()
}

pub fn ring(max_logn: u32, max_moduli: usize) -> BoxedStrategy<RingSpec> {
    chain(1, max_moduli, max_logn)
        .prop_map(|(l, sizes)| {
            let n = 1usize << l;
            RingSpec {
                n,
                q: primes(n, &sizes, &[]),
            }
        })
        .boxed()
}

/// BFV parameter set.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub struct ParamSpec {
    pub n: usize,
    pub q: Vec<u64>,
    pub t: u64,
    pub var: usize,
}

impl ParamSpec {
    pub fn params(&self) -> Arc<BfvParameters> {
        static C: OnceLock<Mutex<HashMap<ParamSpec, Arc<BfvParameters>>>> = OnceLock::new();
        cached(&C, self, || {
            BfvParameters::new(self.n, self.t, self.q.clone(), self.var, bd())
        })
    }
    /// an equal parameter set that shares nothing with `params()`, as another process has it
    pub fn params_again(&self) -> Arc<BfvParameters> {
        Arc::new(BfvParameters::new(self.n, self.t, self.q.clone(), self.var, bd()))
    }
    pub fn q_at(&self, level: usize) -> &[u64] {
        &self.q[..self.q.len() - level]
    }
    pub fn nf(&self) -> f64 {
        self.n as f64
    }
    /// largest absolute value of a secret or error coefficient
    pub fn b(&self) -> f64 {
        2.0 * self.var as f64
    }
    pub fn log_q(&self, level: usize) -> f64 {
        self.q_at(level).iter().map(|&q| (q as f64).log2()).sum()
    }
    /// noise (log2) that decryption at `level` surely tolerates
    pub fn limit(&self, level: usize) -> f64 {
        self.log_q(level) - (self.t as f64).log2() - 2.0
    }
    // worst-case noise bounds, as log2
    pub fn fresh(&self) -> f64 {
        (self.b() + 2.0).log2()
    }
    /// one key switch at `level`
    pub fn ks(&self, level: usize) -> f64 {
        let q = self.q_at(level);
        let qmax = *q.iter().max().unwrap() as f64;
        self.nf().log2() + (q.len() as f64).log2() + qmax.log2() + self.b().log2()
    }
    /// plaintext (or any small polynomial, |coeff| <= m) times ciphertext
    pub fn mul_small(&self, noise: f64, m: f64) -> f64 {
        self.nf().log2() + m.max(1.0).log2() + ladd(noise, 1.0)
    }
    /// ciphertext times ciphertext, no relinearisation; `parts` is the longest operand
    pub fn mul_ct(&self, e1: f64, e2: f64, parts: usize) -> f64 {
        let s = (self.nf() * self.b()).powi(parts as i32 - 1);
        let k = 2.0 * s + 4.0;
        let a = self.nf().log2() + (self.t as f64).log2() + ladd(e1, e2) + k.log2() + 2.0;
        let r = 2.0 * ((self.nf() * self.b() + 1.0).log2()) * (parts as f64 - 1.0) + 2.0;
        ladd(a, r)
    }
    /// external product with RGSW whose message has |coeff| <= m and whose rows have noise `rn`
    pub fn ext(&self, level: usize, noise: f64, m: f64, rn: f64) -> f64 {
        let ks = self.ks(level) - self.b().log2() + rn + 1.0;
        ladd(ks, self.mul_small(noise, m))
    }
}

/// log2(2^a + 2^b)
pub fn ladd(a: f64, b: f64) -> f64 {
    let (h, l) = if a > b { (a, b) } else { (b, a) };
    h + (1.0 + (l - h).exp2()).log2()
}

#[derive(Clone, Debug)]
pub struct RawParams {
    pub logn: u32,
    pub sizes: Vec<(u32, u64)>,
    pub t: (u32, u64),
    pub var: usize,
}
pub fn raw_params(max_logn: u32, min_moduli: usize, max_moduli: usize) -> BoxedStrategy<RawParams> {
    (
        chain(min_moduli, max_moduli, max_logn),
        (
            prop_oneof![2 => 4u32..=12, 3 => 12u32..=22, 1 => 22u32..=40, 1 => 40u32..=60],
            prop_oneof![1 => Just(u64::MAX), 3 => any::<u64>()],
        ),
        prop_oneof![3 => Just(10usize), 1 => Just(16usize), 1 => Just(1usize), 2 => 1usize..=16],
    )
        .prop_map(|((logn, sizes), t, var)| RawParams {
            logn,
            sizes,
            t,
            var,
        })
        .boxed()
}

impl RawParams {
    /// Turns the raw draw into a parameter set on which `ok` holds: first lowers the plaintext
    /// modulus, then enlarges the ciphertext modulus. By construction, no rejection.
    pub fn fit(&self, ok: impl Fn(&ParamSpec) -> bool) -> ParamSpec {
        let n = 1usize << self.logn;
        let tmin_bits = (2 * n as u64).ilog2() + 1;
        let mut sizes = self.sizes.clone();
        let mut tb = self.t.0.max(tmin_bits);
        let mut grow = 0u32;
        loop {
            let q = primes(n, &sizes, &[]);
            let qmin = *q.iter().min().unwrap();
            // plaintext modulus below every ciphertext modulus
            let mut t = None;
            let mut b = tb;
            let mut pick = self.t.1;
            let mut tries = 0;
            while b <= 61 {
                match rm::prime_1_mod(b, 2 * n as u64, pick) {
                    Some(c) if c < qmin => {
                        t = Some(c);
                        break;
                    }
                    Some(_) => break,
                    None => b += 1,
                }
                pick = mix(pick);
                tries += 1;
                if tries > 200 {
                    break;
                }
            }
            if let Some(t) = t {
                let s = ParamSpec {
                    n,
                    q,
                    t,
                    var: self.var,
                };
                if ok(&s) {
                    return s;
                }
            }
            if tb > tmin_bits {
                tb = tmin_bits.max(tb - 1 - tb / 4);
                continue;
            }
            // enlarge the smallest modulus, or add one
            grow += 1;
            let i = (0..sizes.len()).min_by_key(|&i| sizes[i].0).unwrap();
            if sizes[i].0 < 50 {
                sizes[i].0 += 8;
            } else {
                sizes.push((55 + grow % 8, mix(self.t.1 ^ grow as u64)));
            }
            assert!(sizes.len() < 40, "parameter generator does not terminate");
        }
    }
}

/// Secret key: sampled by the code under test, or chosen coefficients in [-2 var, 2 var].
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq, Hash)]
pub enum SkSpec {
    Generated,
    Chosen(PolySpec),
}
pub fn sk() -> BoxedStrategy<SkSpec> {
    prop_oneof![3 => Just(SkSpec::Generated), 2 => poly().prop_map(SkSpec::Chosen)].boxed()
}
impl SkSpec {
    pub fn make(&self, p: &ParamSpec) -> SecretKey {
        let params = p.params();
        match self {
            SkSpec::Generated => SecretKey::generate(&params),
            SkSpec::Chosen(ps) => {
                let b = 2 * p.var as i64;
                let c = ps
                    .coeffs(p.n, 2 * b as u64 + 1)
                    .into_iter()
                    .map(|v| if v as i64 > b { v as i64 - (2 * b + 1) } else { v as i64 })
                    .collect();
                SecretKey::new(c, &params)
            }
        }
    }
}

// ---- views on the code under test ----

/// residues in the power basis
pub fn rows_of(p: &Poly) -> Vec<Vec<u64>> {
    let mut c = p.clone();
    c.change_representation(Representation::PowerBasis);
    c.coefficients()
        .outer_iter()
        .map(|r| r.iter().cloned().collect())
        .collect()
}
pub fn canonical(p: &Poly) -> bool {
    p.coefficients()
        .outer_iter()
        .zip(p.context.moduli_64.iter())
        .all(|(r, q)| r.iter().all(|v| v < q))
}
/// poly with the given residues (via the CRT and the code's own bigint constructor)
pub fn poly_from_rows(ctx: &Arc<RqContext>, rows: &[Vec<u64>], rep: Representation) -> Poly {
    let crt = rm::Crt::new(&ctx.moduli_64);
    let v: Vec<BigUint> = (0..rows[0].len())
        .map(|j| crt.lift(&rows.iter().map(|r| r[j]).collect::<Vec<_>>()))
        .collect();
    let mut p = Poly::try_from_bigint(ctx, &v);
    p.change_representation(rep);
    p
}
/// sum_i c_i s^i with reference arithmetic, centered modulo the ciphertext modulus
pub fn phase(cts: &[Poly], sk: &[i64]) -> Vec<BigInt> {
    let q = cts[0].context.moduli_64.clone();
    let crt = rm::Crt::new(&q);
    crt.center_rows(&phase_rows(cts, sk))
}
pub fn phase_rows(cts: &[Poly], sk: &[i64]) -> Vec<Vec<u64>> {
    let q = cts[0].context.moduli_64.clone();
    let parts: Vec<Vec<Vec<u64>>> = cts.iter().map(rows_of).collect();
    q.iter()
        .enumerate()
        .map(|(k, &q)| {
            let s: Vec<u64> = sk.iter().map(|&x| rm::i64m(x, q)).collect();
            // Horner
            let mut acc = parts.last().unwrap()[k].clone();
            for i in (0..parts.len() - 1).rev() {
                acc = rm::negacyclic(&acc, &s, q);
                for (a, b) in acc.iter_mut().zip(parts[i][k].iter()) {
                    *a = rm::addm(*a, *b, q);
                }
            }
            acc
        })
        .collect()
}
/// Decryption by definition: round(t * phase / Q) mod t.
pub fn ref_decrypt(cts: &[Poly], sk: &[i64], t: u64) -> Vec<u64> {
    use num_integer::Integer;
    let qb = BigInt::from(rm::product(&cts[0].context.moduli_64));
    phase(cts, sk)
        .iter()
        .map(|x| {
            let num: BigInt = x * BigInt::from(t) * 2 + &qb;
            let den: BigInt = &qb * 2;
            rm::bimod(&num.div_floor(&den), t)
        })
        .collect()
}
pub fn ct_of(params: &Arc<BfvParameters>, c: (Poly, Poly), level: usize) -> BfvCipherText {
    BfvCipherText {
        params: params.clone(),
        cts: vec![c.0, c.1],
        level,
    }
}
/// shape invariant of every ciphertext the code hands out
pub fn well_formed(ct: &BfvCipherText, spec: &ParamSpec, parts: usize, level: usize) -> Result<(), String> {
    ensure_eq!(ct.cts.len(), parts, "number of ciphertext parts");
    ensure_eq!(ct.level, level, "ciphertext level");
    for p in &ct.cts {
        ensure_eq!(p.context.moduli_64, spec.q_at(level).to_vec(), "ciphertext moduli");
        ensure!(p.representation == Representation::Ntt, "ciphertext part not in evaluation form");
        ensure!(canonical(p), "ciphertext residue not reduced");
    }
    Ok(())
}
pub fn dec(sk: &SecretKey, ct: &BfvCipherText) -> Vec<u64> {
    sk.decrypt(ct).values.to_vec()
}
pub fn pt(params: &Arc<BfvParameters>, v: &[u64], level: usize) -> Plaintext {
    Plaintext::new(params, &v.to_vec(), level, Encoding::Poly)
}
pub fn ntt_poly(ctx: &Arc<RqContext>, v: &[u64]) -> Poly {
    let mut p = Poly::try_from_vec_u64(ctx, v);
    p.change_representation(Representation::Ntt);
    p
}
