//! C04 - C10, C21, C23: the BFV/RGSW scheme against the rings R_Q and R_t.
use crate::fw::*;
use crate::gen::*;
use crate::refmath as rm;
use num_bigint::{BigInt, BigUint};
use num_integer::Integer;
use num_traits::{One, ToPrimitive, Zero};
use onion_pir::verif::bfv::*;
use onion_pir::verif::ksk::Ksk;
use onion_pir::verif::omr::inner_product;
use onion_pir::verif::rgsw::RgswCt;
use onion_pir::verif::rq::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::sync::Arc;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Two {
    p: ParamSpec,
    level: usize,
    sk: SkSpec,
    a: PolySpec,
    b: PolySpec,
    x: u64,
    y: u64,
}

type Ok = fn(&ParamSpec, usize) -> bool;

/// parameter sets on which `ok` holds at level 0, at the lowest level up to the drawn one
/// where it still holds
fn two(max_logn: u32, min_moduli: usize, max_moduli: usize, ok: Ok) -> BoxedStrategy<Two> {
    (raw_params(max_logn, min_moduli, max_moduli), sk(), poly(), poly(), any::<u64>(), any::<u64>(), any::<u8>())
        .prop_map(move |(raw, sk, a, b, x, y, l)| {
            let p = raw.fit(|s| ok(s, 0));
            let level = level_for(&p, l, ok);
            Two { p, level, sk, a, b, x, y }
        })
        .boxed()
}
fn level_for(p: &ParamSpec, pick: u8, ok: Ok) -> usize {
    let top = pick as usize % p.q.len();
    (0..=top).rev().find(|l| ok(p, *l)).unwrap_or(0)
}
impl Two {
    fn ctx(&self) -> Arc<RqContext> {
        self.p.params().q_ctxs[self.level].clone()
    }
    fn label(&self, o: &mut Obs) {
        o.label(format!("N={}", self.p.n));
        o.label(format!("level {}/{}", self.level, self.p.q.len()));
    }
    fn info(&self) -> String {
        format!("N={} t={} moduli {:?} level {} variance {}", self.p.n, self.p.t, self.p.q, self.level, self.p.var)
    }
    fn q(&self) -> BigInt {
        BigInt::from(rm::product(self.p.q_at(self.level)))
    }
}

/// nearest integers to Q m / t
fn ideal(m: &[u64], q: &BigInt, t: u64) -> Vec<BigInt> {
    m.iter().map(|v| (q * BigInt::from(*v)).div_floor(&BigInt::from(t))).collect()
}

/// ciphertext of any number of parts with a chosen phase; parts 1.. are given
fn craft(p: &ParamSpec, level: usize, sk: &SecretKey, ph: &[BigInt], rest: &[Vec<Vec<u64>>]) -> BfvCipherText {
    let params = p.params();
    let ctx = params.q_ctxs[level].clone();
    let q = p.q_at(level);
    let rows: Vec<Vec<u64>> = q
        .iter()
        .enumerate()
        .map(|(k, &qk)| {
            let s: Vec<u64> = sk.coeffs.iter().map(|&x| rm::i64m(x, qk)).collect();
            let mut acc = vec![0u64; p.n];
            for r in rest.iter().rev() {
                let sum: Vec<u64> = acc.iter().zip(&r[k]).map(|(a, b)| rm::addm(*a, *b, qk)).collect();
                acc = rm::negacyclic(&sum, &s, qk);
            }
            ph.iter().zip(&acc).map(|(x, a)| rm::subm(rm::bimod(x, qk), *a, qk)).collect()
        })
        .collect();
    let mut cts = vec![poly_from_rows(&ctx, &rows, Representation::Ntt)];
    for r in rest {
        cts.push(poly_from_rows(&ctx, r, Representation::Ntt));
    }
    BfvCipherText { params: params.clone(), cts, level }
}
/// arbitrary part content derived from a seed
fn filler(p: &ParamSpec, level: usize, seed: u64) -> Vec<Vec<u64>> {
    let f = if seed % 3 == 0 { Fill::Edges(seed) } else { Fill::Uniform(seed) };
    PolySpec { head: vec![], fill: f }.rows(p.n, p.q_at(level))
}
/// integers with |x| <= bound, boundary heavy, one per coefficient
fn bounded(spec: &PolySpec, n: usize, bound: &BigInt) -> Vec<BigInt> {
    let w: BigInt = bound * 2 + 1;
    spec.raw(n)
        .iter()
        .enumerate()
        .map(|(i, r)| match r >> 61 {
            0 => BigInt::zero(),
            1 => bound.clone(),
            2 => -bound.clone(),
            3 => {
                let v = BigInt::from(r % 16);
                if &v > bound { bound.clone() } else { v }
            }
            _ => {
                let words: Vec<u32> = (0..(w.bits() / 32 + 2)).map(|j| mix(r ^ mix((i as u64) << 8 | j)) as u32).collect();
                BigInt::from(BigUint::new(words)).mod_floor(&w) - bound
            }
        })
        .collect()
}
fn add_bi(a: &[BigInt], b: &[BigInt]) -> Vec<BigInt> {
    a.iter().zip(b).map(|(x, y)| x + y).collect()
}
/// centered difference of two phases modulo Q
fn diff(a: &[Vec<u64>], b: &[Vec<u64>], q: &[u64]) -> Vec<BigInt> {
    let d: Vec<Vec<u64>> = a
        .iter()
        .zip(b)
        .zip(q)
        .map(|((x, y), q)| x.iter().zip(y).map(|(u, v)| rm::subm(*u, *v, *q)).collect())
        .collect();
    rm::Crt::new(q).center_rows(&d)
}
fn mul_rows(a: &[Vec<u64>], b: &[Vec<u64>], q: &[u64]) -> Vec<Vec<u64>> {
    a.iter().zip(b).zip(q).map(|((x, y), q)| rm::negacyclic(x, y, *q)).collect()
}
fn map_rows(a: &[Vec<u64>], b: &[Vec<u64>], q: &[u64], f: fn(u64, u64, u64) -> u64) -> Vec<Vec<u64>> {
    a.iter()
        .zip(b)
        .zip(q)
        .map(|((x, y), q)| x.iter().zip(y).map(|(u, v)| f(*u, *v, *q)).collect())
        .collect()
}
fn small_rows(v: &[u64], q: &[u64]) -> Vec<Vec<u64>> {
    q.iter().map(|q| v.iter().map(|x| x % q).collect()).collect()
}
/// deviation of a ciphertext's phase from the exact encoding of m, in units of 1/t
fn msg_error(ct: &BfvCipherText, s: &[i64], m: &[u64], t: u64) -> BigInt {
    let q = BigInt::from(rm::product(&ct.cts[0].context.moduli_64));
    let tq: BigInt = &q * t;
    phase(&ct.cts, s)
        .iter()
        .zip(m)
        .map(|(x, m)| {
            let d: BigInt = (x * BigInt::from(t) - &q * BigInt::from(*m)).mod_floor(&tq);
            let o: BigInt = &tq - &d;
            if d < o { d } else { o }
        })
        .max()
        .unwrap()
}

// ---------------------------------------------------------------- C04

pub fn roundtrip(ctx: &mut Ctx) {
    let fresh_ok: Ok = |p, l| p.fresh() + 1.0 < p.limit(l);
    ctx.sub("fresh", "N = 8..16384, 1..6 (sometimes 7..20) moduli of 5..62 bits, t from 2N+1 up to 60 bits, every level, generated and chosen keys, coefficient and SIMD encodings, short vectors, values >= t: decrypt(encrypt(m)) = m mod t, ciphertext well formed at the plaintext's level, fresh noise within the sampler's range. Non-trivial: message has two or more distinct coefficients", 20000, 500000, move || two(14, 1, 6, fresh_ok), |c: &Two, o| {
        let params = c.p.params();
        let sk = c.sk.make(&c.p);
        c.label(o);
        let (n, t) = (c.p.n, c.p.t);
        let simd = c.x % 3 == 0;
        let mut vals = c.a.coeffs(n, t);
        let mut want = vals.clone();
        if !simd {
            match c.x % 5 {
                0 => { let k = (c.y % (n as u64 + 1)) as usize; vals.truncate(k); want[k..].iter_mut().for_each(|v| *v = 0); o.label("short"); }
                1 => {
                    for (i, v) in vals.iter_mut().enumerate() { *v = edge64(mix(c.y ^ i as u64)); want[i] = *v % t; }
                    o.label("unreduced");
                }
                _ => {}
            }
        } else { o.label("SIMD"); }
        o.nt(want.iter().any(|v| *v != want[0]));
        let enc = || if simd { Encoding::SIMD } else { Encoding::Poly };
        let plain = Plaintext::new(&params, &vals, c.level, enc());
        ensure_eq!(plain.level, c.level, "plaintext level");
        if !simd && vals.len() == n { ensure!(plain.decode() == vals, "decode(encode(v)) != v, {}", c.info()); }
        if simd { ensure!(plain.decode() == vals, "SIMD decode(encode(v)) != v, {}", c.info()); }
        let coeffs: Vec<u64> = plain.values.iter().map(|v| v % t).collect();
        let ct = sk.encrypt(&plain);
        well_formed(&ct, &c.p, 2, c.level)?;
        let mut d = sk.decrypt(&ct);
        ensure_eq!(d.level, c.level, "level of the decrypted plaintext");
        ensure!(d.values.to_vec() == coeffs, "decrypt(encrypt(m)) = {:?}.. instead of {:?}.., {}", &d.values[..4], &coeffs[..4], c.info());
        d.set_encoding(enc());
        ensure!(d.decode() == want, "decoded value wrong, {}", c.info());
        if n <= 256 {
            let s = sk.coeffs.to_vec();
            ensure!(ref_decrypt(&ct.cts, &s, t) == coeffs, "ciphertext does not decrypt under the definition, {}", c.info());
            let e = msg_error(&ct, &s, &coeffs, t);
            let bound = BigInt::from(t) * BigInt::from(2 * c.p.var + 2);
            ensure!(e <= bound, "fresh noise {} exceeds {} (times t), {}", e, bound, c.info());
        }
        o.n(n);
        Ok(())
    });
    ctx.sub("largest_noise", "crafted ciphertexts of 1..4 (sometimes 5..8) arbitrary parts and noise up to just below Q/2t in every coefficient, at every level: decryption rounds correctly. Non-trivial: two or more parts", 15000, 375000, move || two(13, 1, 6, fresh_ok), |c: &Two, o| {
        let (n, t, q) = (c.p.n, c.p.t, c.q());
        let sk = c.sk.make(&c.p);
        c.label(o);
        let parts = 1 + (c.x % 4) as usize + if mix(c.x) % 5 == 0 { 4 } else { 0 };
        o.nt(parts >= 2);
        o.label(format!("{} parts", parts));
        let m = c.a.coeffs(n, t);
        let bound: BigInt = (&q - (&q >> 30)) / BigInt::from(2 * t as u128) - 3;
        let e = bounded(&c.b, n, &bound.max(BigInt::zero()));
        let rest: Vec<_> = (1..parts).map(|i| filler(&c.p, c.level, mix(c.y ^ i as u64))).collect();
        let ct = craft(&c.p, c.level, &sk, &add_bi(&ideal(&m, &q, t), &e), &rest);
        let d = dec(&sk, &ct);
        ensure!(d == m, "ciphertext of {} parts decrypts to {:?}.. instead of {:?}.., {}", parts, &d[..4], &m[..4], c.info());
        o.n(n);
        Ok(())
    });
    // plaintext modulus just below the first ciphertext modulus
    let tight = || {
        (two(12, 2, 4, |p, l| p.fresh() + 1.0 < p.limit(l)), 0u32..3, any::<u64>())
            .prop_map(|(mut c, kind, r)| {
                // same bit length for t and q0
                let bits = 64 - c.p.t.leading_zeros();
                let cand = primes(c.p.n, &[(bits, r)], &[c.p.t]);
                let (lo, hi) = if cand[0] < c.p.t { (cand[0], c.p.t) } else { (c.p.t, cand[0]) };
                let mut q = c.p.q.clone();
                q.retain(|x| *x != lo && *x != hi);
                while q.len() < 2 { q = [q.clone(), primes(c.p.n, &[(60, r ^ q.len() as u64 ^ 77)], &[q.clone(), vec![lo, hi]].concat())].concat(); }
                q.insert(if kind == 2 { 1 } else { 0 }, hi);
                let mut p = ParamSpec { n: c.p.n, q, t: lo, var: c.p.var };
                while !(p.fresh() + 1.0 < p.limit(0)) {
                    let extra = primes(p.n, &[(58, r ^ p.q.len() as u64)], &[p.q.clone(), vec![lo]].concat());
                    p.q.extend(extra);
                }
                c.level = level_for(&p, r as u8, |p, l| p.fresh() + 1.0 < p.limit(l));
                c.p = p;
                c
            })
            .boxed()
    };
    ctx.sub("tight_modulus", "plaintext modulus within a factor 2 below the first (or second) ciphertext modulus. Non-trivial: q0 < 1.5 t", 10000, 250000, tight, |c: &Two, o| {
        let params = c.p.params();
        let sk = c.sk.make(&c.p);
        let m = c.a.coeffs(c.p.n, c.p.t);
        o.nt((c.p.q[0] as f64) < 1.5 * c.p.t as f64);
        let ct = sk.encrypt(&pt(&params, &m, c.level));
        let d = dec(&sk, &ct);
        ensure!(d == m, "decrypts to {:?}.. instead of {:?}.., {}", &d[..4], &m[..4], c.info());
        o.n(c.p.n);
        Ok(())
    });
    ctx.sub("raw_poly", "encrypt_poly of an arbitrary ring element at every level: phase is the element plus an error within the sampler's range; decrypt_trial returns exactly c0 + c1 s. Non-trivial: dense element", 10000, 250000, || two(13, 1, 6, |_, _| true), |c: &Two, o| {
        let sk = c.sk.make(&c.p);
        c.label(o);
        let q = c.p.q_at(c.level);
        let rows = c.a.rows(c.p.n, q);
        o.nt(c.a.dense());
        let ct = sk.encrypt_poly(&poly_from_rows(&c.ctx(), &rows, Representation::Ntt));
        well_formed(&ct, &c.p, 2, c.level)?;
        let ph = phase_rows(&ct.cts, &sk.coeffs);
        let e = rm::max_abs(&diff(&ph, &rows, q));
        // only meaningful if the error range does not wrap around Q
        if rm::product(q) > BigUint::from(16 * c.p.var) {
            ensure!(e <= BigInt::from(2 * c.p.var), "error of a raw encryption is {}, {}", e, c.info());
        }
        let tr = sk.decrypt_trial(&ct.cts[0], &ct.cts[1]);
        ensure!(rows_of(&tr) == ph, "decrypt_trial is not c0 + c1 s, {}", c.info());
        o.n(c.p.n);
        Ok(())
    });
}

// ---------------------------------------------------------------- C05

#[derive(Clone, Debug, Serialize, Deserialize)]
struct LinCase {
    c: Two,
    parts: (usize, usize),
    big: Vec<u32>,
    k: usize,
}

fn terms() -> BoxedStrategy<usize> {
    prop_oneof![8 => 1usize..=6, 1 => 7usize..=70].boxed()
}

pub fn linear(ctx: &mut Ctx) {
    let strat = || {
        (two(12, 1, 5, |p, l| p.fresh() + 3.0 < p.limit(l)), prop_oneof![4 => 2usize..=4, 1 => 5usize..=8], prop_oneof![4 => 2usize..=4, 1 => 5usize..=8], vec(any::<u32>(), 0..12), terms())
            .prop_map(|(c, a, b, big, k)| LinCase { c, parts: (a, b), big, k })
            .boxed()
    };
    ctx.sub("ring", "ciphertexts of 2..4 (sometimes 5..8) arbitrary parts (equal and unequal lengths): phase(x+y), phase(x-y), the same of a ciphertext and itself or its copy, phase(x+poly), phase(x*poly), phase(x*integer) and phase of inner products of 1..6 (sometimes 7..70) terms are exactly the corresponding ring expressions of phase(x), phase(y), for any ring element and integers up to 384 bits. Non-trivial: dense parts, or more than two parts", 16000, 400000, strat, |lc: &LinCase, o| {
        let c = &lc.c;
        let q = c.p.q_at(c.level);
        let params = c.p.params();
        let sk = c.sk.make(&c.p);
        c.label(o);
        o.label(format!("parts {}+{}", lc.parts.0, lc.parts.1));
        o.nt(c.a.dense() || lc.parts.0 > 2 || lc.parts.1 > 2);
        let mk = |n: usize, first: &PolySpec, salt: u64| BfvCipherText {
            params: params.clone(),
            level: c.level,
            cts: (0..n).map(|i| poly_from_rows(&c.ctx(), &if i == 0 { first.rows(c.p.n, q) } else { filler(&c.p, c.level, mix(salt ^ i as u64)) }, Representation::Ntt)).collect(),
        };
        let (x, y) = (mk(lc.parts.0, &c.a, c.x), mk(lc.parts.1, &c.b, c.y));
        let (px, py) = (phase_rows(&x.cts, &sk.coeffs), phase_rows(&y.cts, &sk.coeffs));
        let both = lc.parts.0.max(lc.parts.1);
        let r = filler(&c.p, c.level, mix(c.x ^ c.y));
        let rp = poly_from_rows(&c.ctx(), &r, Representation::Ntt);
        let big = BigUint::new(lc.big.clone());
        let bigr: Vec<u64> = q.iter().map(|q| (&big % *q).to_u64().unwrap()).collect();
        // inner product of many terms, residues mostly at the top of their ranges
        let terms = if c.p.n > 256 { lc.k.min(8) } else { lc.k };
        // constants: the same value at every point of the evaluation form
        let top = |k: u64| -> Vec<Vec<u64>> { q.iter().map(|q| { let mut r = vec![0; c.p.n]; r[0] = q - 1 - k % 3; r }).collect() };
        let z = BfvCipherText { cts: (0..lc.parts.0).map(|i| poly_from_rows(&c.ctx(), &top(c.y.wrapping_add(i as u64)), Representation::Ntt)).collect(), ..x.clone() };
        let pz = phase_rows(&z.cts, &sk.coeffs);
        let ep = poly_from_rows(&c.ctx(), &top(c.x), Representation::Ntt);
        let er = rows_of(&ep);
        let ms: Vec<Vec<Vec<Vec<u64>>>> = [&px, &pz].iter().map(|a| [&er, &r].iter().map(|b| mul_rows(a, b, q)).collect()).collect();
        let ip = (0..terms).fold(vec![vec![0u64; c.p.n]; q.len()], |acc, i| map_rows(&acc, &ms[(i % 8 != 0) as usize][(i % 9 == 0) as usize], q, rm::addm));
        let checks: Vec<(&str, BfvCipherText, Vec<Vec<u64>>, usize)> = vec![
            ("x + y", &x + &y, map_rows(&px, &py, q, rm::addm), both),
            ("x - y", &x - &y, map_rows(&px, &py, q, rm::subm), both),
            ("x + x", &x + &x, map_rows(&px, &px, q, rm::addm), lc.parts.0),
            ("x - x", &x - &x, map_rows(&px, &px, q, rm::subm), lc.parts.0),
            ("y + copy of y", &y + &y.clone(), map_rows(&py, &py, q, rm::addm), lc.parts.1),
            ("inner product", inner_product(&(0..terms).map(|i| if i % 8 == 0 { x.clone() } else { z.clone() }).collect(), &(0..terms).map(|i| if i % 9 != 0 { ep.clone() } else { rp.clone() }).collect()), ip, lc.parts.0),
            ("x + poly", &x + &rp, map_rows(&px, &r, q, rm::addm), lc.parts.0),
            ("x * poly", &x * &rp, mul_rows(&px, &r, q), lc.parts.0),
            ("x * integer", &x * &big, px.iter().zip(&bigr).zip(q).map(|((row, b), q)| row.iter().map(|v| rm::mulm(*v, *b, *q)).collect()).collect(), lc.parts.0),
        ];
        for (name, ct, want, parts) in checks {
            well_formed(&ct, &c.p, ct.cts.len(), c.level)?;
            ensure!(ct.cts.len() <= parts, "{}: {} parts from operands of {:?}", name, ct.cts.len(), lc.parts);
            ensure!(phase_rows(&ct.cts, &sk.coeffs) == want, "{}: phase is not the ring expression (parts {:?}), {}", name, lc.parts, c.info());
            o.n(c.p.n);
        }
        Ok(())
    });
    // decrypted values
    let ok: Ok = |p, l| p.mul_small(p.fresh(), p.t as f64) + 8.0 < p.limit(l);
    let strat = move || {
        (two(12, 1, 5, ok), 2usize..=4, 2usize..=4, vec(any::<u32>(), 0..12), terms())
            .prop_map(|(c, a, b, big, k)| LinCase { c, parts: (a, b), big, k })
            .boxed()
    };
    ctx.sub("decrypted", "fresh ciphertexts at every level: sums, differences, plaintext sums and products, scalar products and inner products of 1..6 (sometimes 7..70) terms decrypt to the same expression over R_t. Non-trivial: both messages dense", 20000, 500000, strat, |lc: &LinCase, o| {
        let c = &lc.c;
        let (n, t, l) = (c.p.n, c.p.t, c.level);
        let params = c.p.params();
        let sk = c.sk.make(&c.p);
        c.label(o);
        o.nt(c.a.dense() && c.b.dense());
        let (a, b) = (c.a.coeffs(n, t), c.b.coeffs(n, t));
        let (x, y) = (sk.encrypt(&pt(&params, &a, l)), sk.encrypt(&pt(&params, &b, l)));
        let z = |f: fn(u64, u64, u64) -> u64| -> Vec<u64> { a.iter().zip(&b).map(|(u, v)| f(*u, *v, t)).collect() };
        let prod = rm::negacyclic(&a, &b, t);
        let mut checks: Vec<(&str, BfvCipherText, Vec<u64>)> = vec![
            ("x + y", &x + &y, z(rm::addm)),
            ("x - y", &x - &y, z(rm::subm)),
            ("x + plaintext", &x + &pt(&params, &b, l).to_poly(), z(rm::addm)),
            ("x * plaintext", &x * &pt(&params, &b, l), prod.clone()),
            ("x * plaintext polynomial", &x * &ntt_poly(&c.ctx(), &b), prod.clone()),
        ];
        // scalar within the noise budget: |k| <= t, also as Q - k
        let k = edge(c.x, t);
        checks.push(("x * integer", &x * &BigUint::from(k), a.iter().map(|v| rm::mulm(*v, k, t)).collect()));
        let neg = rm::product(c.p.q_at(l)) * (1 + c.y % 3) - BigUint::from(k);
        checks.push(("x * (cQ - integer)", &x * &neg, a.iter().map(|v| rm::subm(0, rm::mulm(*v, k, t), t)).collect()));
        let mut cts = vec![];
        let mut polys = vec![];
        let mut want = vec![0u64; n];
        for i in 0..lc.k {
            let f = PolySpec { head: vec![], fill: Fill::Uniform(mix(c.y ^ i as u64)) };
            let (u, v) = (f.coeffs(n, t), if i % 2 == 0 { b.clone() } else { a.clone() });
            cts.push(sk.encrypt(&pt(&params, &u, l)));
            polys.push(ntt_poly(&c.ctx(), &v));
            want = want.iter().zip(rm::negacyclic(&u, &v, t)).map(|(p, q)| rm::addm(*p, q, t)).collect();
        }
        checks.push(("inner product", inner_product(&cts, &polys), want));
        for (name, ct, want) in checks {
            well_formed(&ct, &c.p, 2, l)?;
            let d = dec(&sk, &ct);
            ensure!(d == want, "{} decrypts to {:?}.. instead of {:?}.., {}", name, &d[..4], &want[..4], c.info());
            o.n(n);
        }
        Ok(())
    });
}

// ---------------------------------------------------------------- C06

pub fn multiplication(ctx: &mut Ctx) {
    let ok: Ok = |p, l| ladd(p.mul_ct(p.fresh(), p.fresh(), 2), 0.0) < p.limit(l);
    ctx.sub("product", "N = 8..4096, 1..6 (sometimes 7..20) moduli, every level with room for one product: x*y has three parts and decrypts to the negacyclic product modulo t, in both orders and squared. Non-trivial: both messages dense", 14000, 350000, move || two(12, 1, 6, ok), |c: &Two, o| {
        let (n, t, l) = (c.p.n, c.p.t, c.level);
        let params = c.p.params();
        let sk = c.sk.make(&c.p);
        c.label(o);
        o.nt(c.a.dense() && c.b.dense());
        let (a, b) = (c.a.coeffs(n, t), c.b.coeffs(n, t));
        let (x, y) = (sk.encrypt(&pt(&params, &a, l)), sk.encrypt(&pt(&params, &b, l)));
        for (name, ct, want) in [("x*y", &x * &y, rm::negacyclic(&a, &b, t)), ("y*x", &y * &x, rm::negacyclic(&a, &b, t)), ("x*x", &x * &x, rm::negacyclic(&a, &a, t))] {
            well_formed(&ct, &c.p, 3, l)?;
            let d = dec(&sk, &ct);
            ensure!(d == want, "{} decrypts to {:?}.. instead of {:?}.., {}", name, &d[..4], &want[..4], c.info());
            o.n(n);
        }
        Ok(())
    });
    let ok: Ok = |p, l| p.q_at(l).len() >= 2 && ladd(p.mul_ct(p.fresh(), p.fresh(), 2), p.ks(l)) < p.limit(l);
    ctx.sub("relinearised", "multiply_with_strategy and relinearize_poly (both representations) at every level with two or more moduli: two parts, same product; relinearised part agrees with p*s^2 within the worst-case bound. Non-trivial: both messages dense", 12000, 300000, move || two(12, 2, 6, ok), |c: &Two, o| {
        let (n, t, l) = (c.p.n, c.p.t, c.level);
        let params = c.p.params();
        let sk = c.sk.make(&c.p);
        c.label(o);
        o.nt(c.a.dense() && c.b.dense());
        let (a, b) = (c.a.coeffs(n, t), c.b.coeffs(n, t));
        let (x, y) = (sk.encrypt(&pt(&params, &a, l)), sk.encrypt(&pt(&params, &b, l)));
        let rlk = RelinearizationKey::new(&sk, l);
        let ct = multiply_with_strategy(&x, &y, &rlk);
        well_formed(&ct, &c.p, 2, l)?;
        let d = dec(&sk, &ct);
        let want = rm::negacyclic(&a, &b, t);
        ensure!(d == want, "relinearised product decrypts to {:?}.. instead of {:?}.., {}", &d[..4], &want[..4], c.info());
        // by hand: full product, then the third part relinearised
        let full = &x * &y;
        let (r0, r1) = rlk.relinearize_poly(&full.cts[2]);
        let by_hand = BfvCipherText { params: params.clone(), cts: vec![&full.cts[0] + &r0, &full.cts[1] + &r1], level: l };
        ensure!(dec(&sk, &by_hand) == want, "relinearisation by hand decrypts wrongly, {}", c.info());
        // relinearize_poly on arbitrary elements
        let q = c.p.q_at(l);
        let s: Vec<Vec<u64>> = q.iter().map(|q| sk.coeffs.iter().map(|v| rm::i64m(*v, *q)).collect()).collect();
        let rows = filler(&c.p, l, c.x);
        let want = mul_rows(&mul_rows(&rows, &s, q), &s, q);
        for rep in [Representation::Ntt, Representation::PowerBasis] {
            let (u, v) = rlk.relinearize_poly(&poly_from_rows(&c.ctx(), &rows, rep.clone()));
            let e = rm::max_abs(&diff(&phase_rows(&[u, v], &sk.coeffs), &want, q));
            ensure!(rm::log2_big(&e) <= c.p.ks(l), "relinearised element deviates from p*s^2 by {} bits, bound {:.1}, {}", e.bits(), c.p.ks(l), c.info());
        }
        o.n(3 * n);
        Ok(())
    });
    let ok: Ok = |p, l| p.mul_ct(p.mul_ct(p.fresh(), p.fresh(), 2), p.mul_ct(p.fresh(), p.fresh(), 2), 3) < p.limit(l);
    ctx.sub("unrelinearised_chain", "products of products without relinearisation: 3x2, 2x3 and 3x3 parts give 4, 4 and 5 parts and the right value; sums of such products. Non-trivial: both messages dense", 8000, 200000, move || two(12, 2, 6, ok), |c: &Two, o| {
        let (n, t, l) = (c.p.n, c.p.t, c.level);
        let params = c.p.params();
        let sk = c.sk.make(&c.p);
        c.label(o);
        o.nt(c.a.dense() && c.b.dense());
        let (a, b) = (c.a.coeffs(n, t), c.b.coeffs(n, t));
        let (x, y) = (sk.encrypt(&pt(&params, &a, l)), sk.encrypt(&pt(&params, &b, l)));
        let ab = rm::negacyclic(&a, &b, t);
        let xy = &x * &y;
        let cases = [
            ("(xy)x", &xy * &x, rm::negacyclic(&ab, &a, t), 4),
            ("y(xy)", &y * &xy, rm::negacyclic(&b, &ab, t), 4),
            ("(xy)(xy)", &xy * &xy, rm::negacyclic(&ab, &ab, t), 5),
            ("xy+x", &xy + &x, ab.iter().zip(&a).map(|(u, v)| rm::addm(*u, *v, t)).collect(), 3),
            ("y-xy", &y - &xy, b.iter().zip(&ab).map(|(u, v)| rm::subm(*u, *v, t)).collect(), 3),
        ];
        for (name, ct, want, parts) in cases {
            well_formed(&ct, &c.p, parts, l)?;
            let d = dec(&sk, &ct);
            ensure!(d == want, "{} decrypts to {:?}.. instead of {:?}.., {}", name, &d[..4], &want[..4], c.info());
            o.n(n);
        }
        Ok(())
    });
    // operands of any number of parts
    let ok: Ok = |p, l| p.mul_ct(p.fresh(), p.fresh(), 5) < p.limit(l);
    ctx.sub("many_parts", "crafted operands of 1..5 arbitrary parts with fresh noise: the product has one part less than both together (up to 9) and decrypts to the product. Non-trivial: six or more parts in the product", 8000, 200000, move || two(11, 2, 6, ok), |c: &Two, o| {
        let (n, t, l, q) = (c.p.n, c.p.t, c.level, c.q());
        let sk = c.sk.make(&c.p);
        c.label(o);
        let (a, b) = (c.a.coeffs(n, t), c.b.coeffs(n, t));
        let bound = BigInt::from(2 * c.p.var as u64);
        let make = |m: &[u64], seed: u64| {
            let parts = 1 + seed % 5;
            let e = bounded(&PolySpec { head: vec![], fill: Fill::Edges(mix(seed)) }, n, &bound);
            let rest: Vec<_> = (1..parts).map(|i| filler(&c.p, l, mix(seed ^ i))).collect();
            craft(&c.p, l, &sk, &add_bi(&ideal(m, &q, t), &e), &rest)
        };
        let (x, y) = (make(&a, mix(c.x)), make(&b, mix(c.y)));
        let parts = x.cts.len() + y.cts.len() - 1;
        o.nt(parts >= 6);
        o.label(format!("{} x {} parts", x.cts.len(), y.cts.len()));
        let want = rm::negacyclic(&a, &b, t);
        for ct in [&x * &y, &y * &x] {
            well_formed(&ct, &c.p, parts, l)?;
            let d = dec(&sk, &ct);
            ensure!(d == want, "product of {} and {} parts decrypts to {:?}.. instead of {:?}.., {}", x.cts.len(), y.cts.len(), &d[..4], &want[..4], c.info());
            o.n(n);
        }
        Ok(())
    });
    // the auxiliary basis has to hold the largest tensor product there is
    #[derive(Clone, Debug, Serialize, Deserialize)]
    struct Margin { logn: u32, bits: u32, parts: (usize, usize), pos: u16, neg: bool, x: u64 }
    let strat = || {
        (9u32..=12, 0u32..62, (2usize..=3, 2usize..=3), any::<u16>(), any::<bool>(), any::<u64>())
            .prop_map(|(logn, bits, parts, pos, neg, x)| Margin { logn, bits, parts, pos, neg, x })
            .boxed()
    };
    ctx.sub("largest_tensor", "N = 512..4096, ciphertext moduli of every total size modulo 62 bits, crafted operands of 2..3 parts whose coefficients are all +-floor(Q/2), signed so that one coefficient of the tensor product reaches N Q^2/4 or twice that: the product decrypts to the product. Non-trivial: all", 1500, 37500, strat, |c: &Margin, o| {
        let n = 1usize << c.logn;
        let t = primes(n, &[(18, c.x)], &[])[0];
        // enough room for the noise of such a product, then the wanted size modulo 62
        let ok = |s: u32| {
            let sizes: Vec<(u32, u64)> = (0..s.div_ceil(61)).map(|i| { let k = s.div_ceil(61); (s / k + (i < s % k) as u32, mix(c.x ^ i as u64)) }).collect();
            let p = ParamSpec { n, q: primes(n, &sizes, &[t]), t, var: 1 + (c.x % 10) as usize };
            let bits: u32 = p.q.iter().map(|q| 64 - q.leading_zeros()).sum();
            (bits % 62 == c.bits && p.mul_ct(p.fresh(), p.fresh(), c.parts.0.max(c.parts.1)) < p.limit(0)).then_some(p)
        };
        let Some(p) = (90..400).find_map(ok) else { return Ok(()) };
        let params = p.params();
        let sk = SecretKey::generate(&params);
        let qb = rm::product(&p.q);
        let half: BigInt = BigInt::from(qb.clone()) / 2;
        let q = BigInt::from(qb);
        let pos = c.pos as usize % n;
        let rows = |f: &dyn Fn(usize) -> bool| -> Vec<Vec<u64>> {
            p.q.iter().map(|&qk| { let h = rm::bimod(&half, qk); (0..n).map(|j| if f(j) { h } else { rm::subm(0, h, qk) }).collect() }).collect()
        };
        let plus = rows(&|_| true);
        let other = rows(&|j| (j <= pos) != c.neg);
        let make = |m: &[u64], r: &Vec<Vec<u64>>, parts: usize, seed: u64| {
            let e = bounded(&PolySpec { head: vec![], fill: Fill::Edges(seed) }, n, &BigInt::from(2 * p.var as u64));
            craft(&p, 0, &sk, &add_bi(&ideal(m, &q, t), &e), &vec![r.clone(); parts - 1])
        };
        let (a, b): (Vec<u64>, Vec<u64>) = (0..n as u64).map(|i| (mix(c.x ^ i) % t, mix(c.x ^ mix(i)) % t)).unzip();
        let (x, y) = (make(&a, &plus, c.parts.0, mix(c.x)), make(&b, &other, c.parts.1, mix(c.x + 1)));
        o.nt(true);
        o.n(n);
        o.label(format!("N={n}, {} x {} parts", c.parts.0, c.parts.1));
        let (d, want) = (dec(&sk, &(&x * &y)), rm::negacyclic(&a, &b, t));
        ensure!(d == want, "product of extreme ciphertexts of {} and {} parts decrypts to {:?}.. instead of {:?}.., N={} t={} moduli {:?}", c.parts.0, c.parts.1, &d[..4], &want[..4], n, t, p.q);
        Ok(())
    });
    // operands with large noise and arbitrary second parts
    let ok: Ok = |p, l| p.mul_ct(p.fresh(), p.fresh(), 2) + 4.0 < p.limit(l);
    ctx.sub("noisy_operands", "crafted operands whose second parts are arbitrary and whose noise fills the budget of one product. Non-trivial: noise above the fresh level", 12000, 300000, move || two(13, 1, 6, ok), |c: &Two, o| {
        let (n, t, l, q) = (c.p.n, c.p.t, c.level, c.q());
        let sk = c.sk.make(&c.p);
        c.label(o);
        let (a, b) = (c.a.coeffs(n, t), c.b.coeffs(n, t));
        // largest noise the worst-case bound admits
        let mut bits = c.p.fresh();
        while c.p.mul_ct(bits + 1.0, bits + 1.0, 2) < c.p.limit(l) {
            bits += 1.0;
        }
        o.nt(bits > c.p.fresh() + 2.0);
        let bound: BigInt = (BigInt::one() << (bits.floor() as usize)) - 2;
        let e1 = bounded(&PolySpec { head: vec![], fill: Fill::Edges(c.x) }, n, &bound);
        let e2 = bounded(&PolySpec { head: vec![], fill: Fill::Edges(c.y) }, n, &bound);
        let x = craft(&c.p, l, &sk, &add_bi(&ideal(&a, &q, t), &e1), &[filler(&c.p, l, c.x)]);
        let y = craft(&c.p, l, &sk, &add_bi(&ideal(&b, &q, t), &e2), &[filler(&c.p, l, c.y)]);
        let want = rm::negacyclic(&a, &b, t);
        let d = dec(&sk, &(&x * &y));
        ensure!(d == want, "product of ciphertexts with {:.0} bits of noise decrypts to {:?}.. instead of {:?}.., {}", bits, &d[..4], &want[..4], c.info());
        o.n(n);
        Ok(())
    });
}

// ---------------------------------------------------------------- C07

/// odd exponents: structured ones (near 0, N and 2N, powers of 3, N/2^i +- 1), above 2N, any
fn exponent(r: u64, n: usize) -> usize {
    let n = n as u64;
    let s = mix(r);
    (match r % 11 {
        0 => 2 * n - 1,
        1 => 3,
        2 => (n >> (s % n.ilog2() as u64)) + 1,
        3 => n + 1,
        4 => 2 * n * (1 + s % 5) + (mix(r ^ 1) % n) * 2 + 1,
        5 => n - 1,
        6 => (n >> (s % n.ilog2() as u64)) - 1,
        7 => n + (n >> (s % n.ilog2() as u64)) + (s >> 32) % 2 * 2 - 1,
        8 => rm::powm(3, s % n, 2 * n),
        _ => (s % n) * 2 + 1,
    }) as usize | 1
}

pub fn galois(ctx: &mut Ctx) {
    let ok: Ok = |p, l| p.q_at(l).len() >= 2 && ladd(p.ks(l), ladd(p.fresh(), p.ks(l))) + 0.5 < p.limit(l);
    ctx.sub("automorphism", "every odd exponent class incl. 1, 3, 2N-1, N+1, N/2^i+1 and exponents above 2N, every level with two or more moduli: relinearize(Enc(m)) is a two-part encryption of m(X^k), two automorphisms compose, noise within the worst-case bound. Non-trivial: exponent not 1 mod 2N and dense message", 16000, 400000, move || two(12, 2, 6, ok), |c: &Two, o| {
        let (n, t, l) = (c.p.n, c.p.t, c.level);
        let params = c.p.params();
        let sk = c.sk.make(&c.p);
        c.label(o);
        let pick = |r: u64| exponent(r, n);
        let (k1, k2) = (pick(c.x), pick(c.y));
        o.nt(k1 % (2 * n) != 1 && c.a.dense());
        if k1 > 2 * n { o.label("exponent above 2N"); }
        let a = c.a.coeffs(n, t);
        let x = sk.encrypt(&pt(&params, &a, l));
        let g1 = GaliosKey::new(&sk, &Substitution::new(&c.ctx(), k1), l);
        let r1 = g1.relinearize(&x);
        well_formed(&r1, &c.p, 2, l)?;
        let want1 = rm::automorphism(&a, k1, t);
        let d = dec(&sk, &r1);
        ensure!(d == want1, "X -> X^{} gives {:?}.. instead of {:?}.., {}", k1, &d[..4], &want1[..4], c.info());
        let q = c.p.q_at(l);
        let px: Vec<Vec<u64>> = phase_rows(&x.cts, &sk.coeffs).iter().zip(q).map(|(r, q)| rm::automorphism(r, k1, *q)).collect();
        let e = rm::max_abs(&diff(&phase_rows(&r1.cts, &sk.coeffs), &px, q));
        ensure!(rm::log2_big(&e) <= c.p.ks(l), "automorphism adds {} bits of noise, bound {:.1}, {}", e.bits(), c.p.ks(l), c.info());
        let g2 = GaliosKey::new(&sk, &Substitution::new(&c.ctx(), k2), l);
        let want2 = rm::automorphism(&want1, k2, t);
        ensure!(dec(&sk, &g2.relinearize(&r1)) == want2, "X -> X^{} after X -> X^{} decrypts wrongly, {}", k2, k1, c.info());
        o.n(2 * n);
        Ok(())
    });
    let ok: Ok = |p, l| p.q_at(l).len() >= 2 && p.ks(l) + 2.0 < p.limit(l);
    ctx.sub("arbitrary_ciphertexts", "crafted ciphertexts with arbitrary second part and noise filling the budget. Non-trivial: dense message", 12000, 300000, move || two(13, 2, 6, ok), |c: &Two, o| {
        let (n, t, l, q) = (c.p.n, c.p.t, c.level, c.q());
        let sk = c.sk.make(&c.p);
        c.label(o);
        o.nt(c.a.dense());
        let k = exponent(c.x, n);
        let a = c.a.coeffs(n, t);
        let bound = BigInt::one() << ((c.p.limit(l)) as usize);
        let e = bounded(&c.b, n, &bound);
        let x = craft(&c.p, l, &sk, &add_bi(&ideal(&a, &q, t), &e), &[filler(&c.p, l, c.y)]);
        let g = GaliosKey::new(&sk, &Substitution::new(&c.ctx(), k), l);
        let d = dec(&sk, &g.relinearize(&x));
        let want = rm::automorphism(&a, k, t);
        ensure!(d == want, "X -> X^{} gives {:?}.. instead of {:?}.., {}", k, &d[..4], &want[..4], c.info());
        o.n(n);
        Ok(())
    });
    let ok: Ok = |p, l| p.q_at(l).len() >= 2 && p.ks(l) + 2.0 < p.limit(l);
    let strat = move || {
        (8u32..=12, raw_params(4, 2, 4), sk(), poly(), poly(), any::<u64>(), any::<u64>(), any::<u8>())
            .prop_map(move |(logn, mut raw, sk, a, b, x, y, l)| {
                raw.logn = logn;
                let p = raw.fit(|s| ok(s, 0));
                let level = level_for(&p, l, ok);
                Two { p, level, sk, a, b, x, y }
            })
            .boxed()
    };
    ctx.sub("large_degrees", "N = 256..4096, 2..4 moduli, structured and arbitrary exponents, ciphertexts with arbitrary second part: message and worst-case noise. Non-trivial: dense message", 1500, 40000, strat, |c: &Two, o| {
        let (n, t, l, q) = (c.p.n, c.p.t, c.level, c.q());
        let sk = c.sk.make(&c.p);
        c.label(o);
        o.nt(c.a.dense());
        let a = c.a.coeffs(n, t);
        let x = craft(&c.p, l, &sk, &ideal(&a, &q, t), &[filler(&c.p, l, c.y)]);
        let px = phase_rows(&x.cts, &sk.coeffs);
        for k in [exponent(c.x, n), exponent(c.y, n)] {
            let r = GaliosKey::new(&sk, &Substitution::new(&c.ctx(), k), l).relinearize(&x);
            well_formed(&r, &c.p, 2, l)?;
            ensure!(dec(&sk, &r) == rm::automorphism(&a, k, t), "X -> X^{} decrypts wrongly, {}", k, c.info());
            let want: Vec<Vec<u64>> = px.iter().zip(c.p.q_at(l)).map(|(r, q)| rm::automorphism(r, k, *q)).collect();
            let e = rm::max_abs(&diff(&phase_rows(&r.cts, &sk.coeffs), &want, c.p.q_at(l)));
            ensure!(rm::log2_big(&e) <= c.p.ks(l), "automorphism X -> X^{} adds {} bits of noise, bound {:.1}, {}", k, e.bits(), c.p.ks(l), c.info());
            o.n(2 * n);
        }
        Ok(())
    });
}

// ---------------------------------------------------------------- C08

pub fn simd(ctx: &mut Ctx) {
    ctx.sub("encoding", "N = 8..65536, t = 1 mod 2N of any size: decode(encode(v)) = v, encode is additive and multiplicative slot by slot (a ring isomorphism), constants encode to constants. Non-trivial: values not all equal", 30000, 750000, || two(16, 1, 2, |_, _| true), |c: &Two, o| {
        let (n, t) = (c.p.n, c.p.t);
        let params = c.p.params();
        let (a, b) = (c.a.coeffs(n, t), c.b.coeffs(n, t));
        o.label(format!("N={}", n));
        o.nt(a.iter().any(|v| *v != a[0]));
        let simd = |v: &Vec<u64>| Plaintext::new(&params, v, c.level, Encoding::SIMD);
        let (pa, pb) = (simd(&a), simd(&b));
        ensure!(pa.values.iter().all(|v| *v < t) && pa.values.len() == n, "encoded coefficients not reduced, {}", c.info());
        ensure!(pa.decode() == a, "decode(encode(v)) != v, {}", c.info());
        let dec = |v: Vec<u64>| Plaintext { params: params.clone(), level: c.level, encoding: Encoding::SIMD, values: v.into_boxed_slice() }.decode();
        let sum: Vec<u64> = pa.values.iter().zip(pb.values.iter()).map(|(x, y)| rm::addm(*x, *y, t)).collect();
        ensure!(dec(sum) == a.iter().zip(&b).map(|(x, y)| rm::addm(*x, *y, t)).collect::<Vec<_>>(), "encoding is not additive, {}", c.info());
        if n <= 512 {
            let prod = rm::negacyclic(&pa.values, &pb.values, t);
            ensure!(dec(prod) == a.iter().zip(&b).map(|(x, y)| rm::mulm(*x, *y, t)).collect::<Vec<_>>(), "encoding is not multiplicative slot by slot, {}", c.info());
        }
        let k = edge(c.x, t);
        let pc = simd(&vec![k; n]);
        ensure!(pc.values[0] == k && pc.values[1..].iter().all(|v| *v == 0), "constant vector does not encode to a constant, {}", c.info());
        // rotation as an automorphism of the plaintext
        let i = (c.y % (n as u64 / 2)) as usize;
        let e = rm::powm(3, i as u64, 2 * n as u64) as usize;
        ensure!(dec(rm::automorphism(&pa.values, e, t)) == rotate(&a, i), "X -> X^(3^{}) does not rotate both rows by {}, {}", i, i, c.info());
        ensure!(dec(rm::automorphism(&pa.values, 2 * n - 1, t)) == swap_rows(&a), "X -> X^(2N-1) does not swap the rows, {}", c.info());
        o.n(n * 4);
        Ok(())
    });
    let ok: Ok = |p, l| p.q_at(l).len() >= 2 && ladd(p.ks(l), p.mul_ct(p.fresh(), p.fresh(), 2)) + 1.0 < p.limit(l);
    ctx.sub("ciphertexts", "slot-wise sums, plaintext and ciphertext products, rotations of both rows by any amount and row swap through Galois keys, at every level with room. Non-trivial: values not all equal", 16000, 400000, move || two(12, 2, 5, ok), |c: &Two, o| {
        let (n, t, l) = (c.p.n, c.p.t, c.level);
        let params = c.p.params();
        let sk = c.sk.make(&c.p);
        c.label(o);
        let (a, b) = (c.a.coeffs(n, t), c.b.coeffs(n, t));
        o.nt(a.iter().any(|v| *v != a[0]));
        let simd = |v: &Vec<u64>| Plaintext::new(&params, v, l, Encoding::SIMD);
        let (x, y) = (sk.encrypt(&simd(&a)), sk.encrypt(&simd(&b)));
        let z = |f: fn(u64, u64, u64) -> u64| -> Vec<u64> { a.iter().zip(&b).map(|(u, v)| f(*u, *v, t)).collect() };
        let i = (c.x % (n as u64 / 2)) as usize;
        let e = rm::powm(3, i as u64, 2 * n as u64) as usize;
        let gal = |k: usize| GaliosKey::new(&sk, &Substitution::new(&c.ctx(), k), l).relinearize(&x);
        let checks = vec![
            ("x + y", &x + &y, z(rm::addm)),
            ("x - y", &x - &y, z(rm::subm)),
            ("x * plaintext", &x * &simd(&b), z(rm::mulm)),
            ("x * y", &x * &y, z(rm::mulm)),
            ("x * y relinearised", multiply_with_strategy(&x, &y, &RelinearizationKey::new(&sk, l)), z(rm::mulm)),
            ("column rotation", gal(e), rotate(&a, i)),
            ("row swap", gal(2 * n - 1), swap_rows(&a)),
        ];
        for (name, ct, want) in checks {
            let mut d = sk.decrypt(&ct);
            d.set_encoding(Encoding::SIMD);
            let got = d.decode();
            ensure!(got == want, "{} (rotation {}): slots {:?}.. instead of {:?}.., {}", name, i, &got[..4], &want[..4], c.info());
            o.n(n);
        }
        Ok(())
    });
}
fn rotate(v: &[u64], i: usize) -> Vec<u64> {
    let h = v.len() / 2;
    let (mut a, mut b) = (v[..h].to_vec(), v[h..].to_vec());
    a.rotate_left(i);
    b.rotate_left(i);
    [a, b].concat()
}
fn swap_rows(v: &[u64]) -> Vec<u64> {
    let h = v.len() / 2;
    [&v[h..], &v[..h]].concat()
}

// ---------------------------------------------------------------- C09

/// selector message for RGSW: bit, monomial, small or arbitrary polynomial, with a bound on the
/// sum of its coefficients' absolute values
fn selector(kind: u64, n: usize, t: u64, spec: &PolySpec) -> Vec<u64> {
    let mut m = vec![0u64; n];
    match kind % 6 {
        0 => m[0] = 1,
        1 => {}
        2 => m[(mix(kind) % n as u64) as usize] = 1,
        3 => m[(mix(kind) % n as u64) as usize] = edge(mix(kind), t),
        4 => m = spec.coeffs(n, t.min(4)),
        _ => m = spec.coeffs(n, t),
    }
    m
}

pub fn rgsw(ctx: &mut Ctx) {
    let ok: Ok = |p, l| p.q_at(l).len() >= 2 && p.ext(l, p.fresh(), p.t as f64, p.b().log2()) + 0.5 < p.limit(l);
    ctx.sub("external_product", "RGSW(m) from encrypt and encrypt_poly at every level with two or more moduli, m a bit, monomial, small or arbitrary polynomial: external product with Enc(x) decrypts to m x, and its phase is m times the input phase within the worst-case bound. Non-trivial: m not constant or message dense", 12000, 300000, move || two(13, 2, 6, ok), |c: &Two, o| {
        let (n, t, l) = (c.p.n, c.p.t, c.level);
        let params = c.p.params();
        let sk = c.sk.make(&c.p);
        c.label(o);
        let q = c.p.q_at(l);
        let x = c.a.coeffs(n, t);
        let m = selector(c.x, n, t, &c.b);
        o.label(format!("selector {}", c.x % 6));
        o.nt(c.a.dense() || m[1..].iter().any(|v| *v != 0));
        let ct = sk.encrypt(&pt(&params, &x, l));
        let want = rm::negacyclic(&x, &m, t);
        let px = mul_rows(&phase_rows(&ct.cts, &sk.coeffs), &small_rows(&m, q), q);
        let bound = c.p.ks(l) + 1.0;
        for (name, r) in [("encrypt", RgswCt::encrypt(&sk, &pt(&params, &m, l))), ("encrypt_poly", RgswCt::encrypt_poly(&sk, &ntt_poly(&c.ctx(), &m)))] {
            let out = ct_of(&params, RgswCt::external_product(&r, &ct), l);
            well_formed(&out, &c.p, 2, l)?;
            let d = dec(&sk, &out);
            ensure!(d == want, "external product ({}) decrypts to {:?}.. instead of {:?}.., {}", name, &d[..4], &want[..4], c.info());
            let e = rm::max_abs(&diff(&phase_rows(&out.cts, &sk.coeffs), &px, q));
            ensure!(rm::log2_big(&e) <= bound, "external product ({}) adds {} bits of noise, bound {:.1}, {}", name, e.bits(), bound, c.info());
            o.n(n);
        }
        Ok(())
    });
    // phase semantics for arbitrary ring elements, crafted ciphertexts
    let ok: Ok = |p, l| p.q_at(l).len() >= 2 && p.ks(l) + 3.0 < p.log_q(l);
    ctx.sub("arbitrary_elements", "encrypt_poly of an arbitrary ring element, external product with an arbitrary two-part ciphertext: phase is the ring product within the worst-case bound. Non-trivial: dense element", 10000, 250000, move || two(13, 2, 6, ok), |c: &Two, o| {
        let l = c.level;
        let params = c.p.params();
        let sk = c.sk.make(&c.p);
        c.label(o);
        o.nt(c.a.dense());
        let q = c.p.q_at(l);
        let m = c.a.rows(c.p.n, q);
        let r = RgswCt::encrypt_poly(&sk, &poly_from_rows(&c.ctx(), &m, Representation::Ntt));
        let ct = BfvCipherText { params: params.clone(), level: l, cts: vec![poly_from_rows(&c.ctx(), &c.b.rows(c.p.n, q), Representation::Ntt), poly_from_rows(&c.ctx(), &filler(&c.p, l, c.x), Representation::Ntt)] };
        let out = ct_of(&params, RgswCt::external_product(&r, &ct), l);
        let want = mul_rows(&phase_rows(&ct.cts, &sk.coeffs), &m, q);
        let e = rm::max_abs(&diff(&phase_rows(&out.cts, &sk.coeffs), &want, q));
        ensure!(rm::log2_big(&e) <= c.p.ks(l) + 1.0, "external product deviates by {} bits, bound {:.1}, {}", e.bits(), c.p.ks(l) + 1.0, c.info());
        o.n(c.p.n);
        Ok(())
    });
    let ok: Ok = |p, l| {
        let up = ladd(p.ks(l) + 1.0, p.nf().log2() + p.b().log2() + p.b().log2());
        p.q_at(l).len() >= 3 && p.ext(l, p.fresh(), p.t as f64, up) + 1.0 < p.limit(l)
    };
    ctx.sub("assembled", "RGSW(m) assembled from encryptions of gadget multiples of m and an RGSW encryption of s (as the server does), at every level with room: external product decrypts to m x. Non-trivial: m not constant or message dense", 8000, 200000, move || two(12, 3, 6, ok), |c: &Two, o| {
        let (n, t, l) = (c.p.n, c.p.t, c.level);
        let params = c.p.params();
        let sk = c.sk.make(&c.p);
        c.label(o);
        let x = c.a.coeffs(n, t);
        let m = selector(c.x, n, t, &c.b);
        o.nt(c.a.dense() || m[1..].iter().any(|v| *v != 0));
        let ctx_l = c.ctx();
        let mp = ntt_poly(&ctx_l, &m);
        let mut s = Poly::try_from_vec_i64(&ctx_l, &sk.coeffs);
        s.change_representation(Representation::Ntt);
        let s_rgsw = RgswCt::encrypt_poly(&sk, &s);
        let lower: Vec<BfvCipherText> = ctx_l.rns.garner.iter().map(|g| sk.encrypt_poly(&(&mp * g))).collect();
        let upper: Vec<BfvCipherText> = lower.iter().map(|r| ct_of(&params, RgswCt::external_product(&s_rgsw, r), l)).collect();
        let r = RgswCt::try_from_ksks(&Ksk::try_from_decomposed_rlwes(&params, &upper), &Ksk::try_from_decomposed_rlwes(&params, &lower));
        let out = ct_of(&params, RgswCt::external_product(&r, &sk.encrypt(&pt(&params, &x, l))), l);
        well_formed(&out, &c.p, 2, l)?;
        let want = rm::negacyclic(&x, &m, t);
        let d = dec(&sk, &out);
        ensure!(d == want, "assembled RGSW: {:?}.. instead of {:?}.., {}", &d[..4], &want[..4], c.info());
        o.n(n);
        Ok(())
    });
    #[derive(Clone, Debug, Serialize, Deserialize)]
    struct Tree {
        c: Two,
        bits: Vec<bool>,
    }
    let ok: Ok = |p, l| p.q_at(l).len() >= 2 && p.ks(l) + 1.0 + 5.0 + 2.0 < p.limit(l);
    let strat = move || (two(12, 2, 5, ok), vec(any::<bool>(), 1..=4)).prop_map(|(c, bits)| Tree { c, bits }).boxed();
    ctx.sub("selection_tree", "binary selection trees of depth 1..4 built from external products (a + b (a' - a)) over 2..16 encrypted leaves: the root decrypts to the addressed leaf. Non-trivial: depth 2 or more", 8000, 200000, strat, |tc: &Tree, o| {
        let c = &tc.c;
        let (n, t, l) = (c.p.n, c.p.t, c.level);
        let params = c.p.params();
        let sk = c.sk.make(&c.p);
        c.label(o);
        o.nt(tc.bits.len() >= 2);
        let depth = tc.bits.len();
        let leaves: Vec<Vec<u64>> = (0..1usize << depth).map(|i| c.a.coeffs(n, t).iter().enumerate().map(|(j, v)| rm::addm(*v, mix((i as u64) << 16 | j as u64) % t, t)).collect()).collect();
        let mut row: Vec<BfvCipherText> = leaves.iter().map(|v| sk.encrypt(&pt(&params, v, l))).collect();
        for b in &tc.bits {
            let r = RgswCt::encrypt(&sk, &pt(&params, &[*b as u64], l));
            row = row.chunks(2).map(|p| &p[0] + &ct_of(&params, RgswCt::external_product(&r, &(&p[1] - &p[0])), l)).collect();
        }
        let idx: usize = tc.bits.iter().enumerate().map(|(i, b)| (*b as usize) << i).sum();
        ensure_eq!(row.len(), 1, "tree root");
        ensure!(dec(&sk, &row[0]) == leaves[idx], "selection {:?} does not return leaf {}, {}", tc.bits, idx, c.info());
        o.n(n);
        Ok(())
    });
}

// ---------------------------------------------------------------- C10

pub fn keyswitch(ctx: &mut Ctx) {
    let ok: Ok = |p, l| p.q_at(l).len() >= 2 && p.ks(l) + 3.0 < p.log_q(l);
    ctx.sub("key_switch", "switching key for an arbitrary ring element w at every level with two or more moduli: each component encrypts gadget_i * w within the sampler's error range; key_switch(p) has phase p*w within the worst-case bound for any p (incl. gadget elements and all-extreme residues). Non-trivial: dense p", 12000, 300000, move || two(12, 2, 7, ok), |c: &Two, o| {
        let l = c.level;
        let sk = c.sk.make(&c.p);
        c.label(o);
        o.nt(c.b.dense());
        let q = c.p.q_at(l);
        let ctx_l = c.ctx();
        let w = c.a.rows(c.p.n, q);
        let k = Ksk::new(&sk, &poly_from_rows(&ctx_l, &w, Representation::Ntt), l, l);
        check_components(&k, &sk, &w, &c.p, l, 2 * c.p.var).map_err(|e| format!("{}, {}", e, c.info()))?;
        let mut inputs = vec![c.b.rows(c.p.n, q), filler(&c.p, l, c.x), q.iter().map(|q| vec![q - 1; c.p.n]).collect()];
        // a gadget element: picks out one component
        let i = (c.y % q.len() as u64) as usize;
        inputs.push(q.iter().enumerate().map(|(j, _)| { let mut v = vec![0; c.p.n]; if i == j { v[0] = 1 } v }).collect());
        for p in inputs {
            let (c0, c1) = k.key_switch(&poly_from_rows(&ctx_l, &p, Representation::PowerBasis));
            for x in [&c0, &c1] {
                ensure!(x.representation == Representation::Ntt && canonical(x) && x.context.moduli_64 == q, "key switch output malformed, {}", c.info());
            }
            let e = rm::max_abs(&diff(&phase_rows(&[c0, c1], &sk.coeffs), &mul_rows(&p, &w, q), q));
            ensure!(rm::log2_big(&e) <= c.p.ks(l), "key switch deviates by {} bits, bound {:.1}, {}", e.bits(), c.p.ks(l), c.info());
            o.n(c.p.n);
        }
        Ok(())
    });
    ctx.sub("across_levels", "keys with more moduli than the elements they switch (ksk_level < ct_level): the result is in the ring of the element and has phase p*w within the worst-case bound of that level. Non-trivial: dense p", 8000, 200000, move || two(12, 2, 7, ok), |c: &Two, o| {
        let (n, l) = (c.p.n, c.level);
        let params = c.p.params();
        let sk = c.sk.make(&c.p);
        let kl = (c.y % (l as u64 + 1)) as usize;
        o.label(format!("element level {}, key level {}", l, kl));
        o.nt(c.b.dense() && kl < l);
        let (q, qk) = (c.p.q_at(l), c.p.q_at(kl));
        let w = c.a.rows(n, qk);
        let p = c.b.rows(n, q);
        let k = Ksk::new(&sk, &poly_from_rows(&params.q_ctxs[kl], &w, Representation::Ntt), l, kl);
        let (c0, c1) = k.key_switch(&poly_from_rows(&c.ctx(), &p, Representation::PowerBasis));
        ensure!(c0.context.moduli_64 == q && c1.context.moduli_64 == q, "key switch output is not in the ring of its input, {}", c.info());
        let e = rm::max_abs(&diff(&phase_rows(&[c0, c1], &sk.coeffs), &mul_rows(&p, &w[..q.len()], q), q));
        ensure!(rm::log2_big(&e) <= c.p.ks(l), "key switch deviates by {} bits, bound {:.1}, key level {}, {}", e.bits(), c.p.ks(l), kl, c.info());
        o.n(n);
        Ok(())
    });
    ctx.sub("constructors", "new_with_pt switches with the scaled plaintext; try_from_decomposed_rlwes of encryptions of gadget multiples behaves as the key of the same element, at its ciphertexts' level; also when the parameter sets are equal but separate objects. Non-trivial: dense p", 12000, 300000, move || two(13, 2, 6, ok), |c: &Two, o| {
        let (n, l) = (c.p.n, c.level);
        let params = c.p.params();
        let sk = c.sk.make(&c.p);
        c.label(o);
        o.nt(c.b.dense());
        let q = c.p.q_at(l);
        let ctx_l = c.ctx();
        let p = c.b.rows(n, q);
        let pp = poly_from_rows(&ctx_l, &p, Representation::PowerBasis);
        // with a plaintext
        let again = if c.x % 4 == 0 { c.p.params_again() } else { params.clone() };
        let m = pt(&again, &c.a.coeffs(n, c.p.t), l);
        let wp = m.to_poly();
        let w = rows_of(&wp);
        let k = Ksk::new_with_pt(&sk, &m, l, l);
        check_components(&k, &sk, &w, &c.p, l, 2 * c.p.var).map_err(|e| format!("{}, {}", e, c.info()))?;
        let (c0, c1) = k.key_switch(&pp);
        let e = rm::max_abs(&diff(&phase_rows(&[c0, c1], &sk.coeffs), &mul_rows(&p, &w, q), q));
        ensure!(rm::log2_big(&e) <= c.p.ks(l), "key switch with a plaintext deviates by {} bits, bound {:.1}, {}", e.bits(), c.p.ks(l), c.info());
        // from ciphertexts
        let w = c.a.rows(n, q);
        let wp = poly_from_rows(&ctx_l, &w, Representation::Ntt);
        let cts: Vec<BfvCipherText> = ctx_l.rns.garner.iter().map(|g| sk.encrypt_poly(&(&wp * g))).collect();
        let k = Ksk::try_from_decomposed_rlwes(&again, &cts);
        let (c0, c1) = k.key_switch(&pp);
        let e = rm::max_abs(&diff(&phase_rows(&[c0, c1], &sk.coeffs), &mul_rows(&p, &w, q), q));
        ensure!(rm::log2_big(&e) <= c.p.ks(l), "key switch with an assembled key deviates by {} bits, bound {:.1}, {}", e.bits(), c.p.ks(l), c.info());
        o.n(2 * n);
        Ok(())
    });
}
/// c0_i + c1_i s - gadget_i w is small, for every component
fn check_components(k: &Ksk, sk: &SecretKey, w: &[Vec<u64>], p: &ParamSpec, l: usize, bound: usize) -> Res {
    let q = p.q_at(l);
    ensure_eq!(k.c0.len(), q.len(), "number of key components");
    ensure_eq!(k.c1.len(), q.len(), "number of key components");
    for i in 0..q.len() {
        // gadget_i is 1 modulo q_i and 0 modulo the others
        let want: Vec<Vec<u64>> = (0..q.len()).map(|j| if i == j { w[j].clone() } else { vec![0; p.n] }).collect();
        let e = rm::max_abs(&diff(&phase_rows(&[k.c0[i].clone(), k.c1[i].clone()], &sk.coeffs), &want, q));
        ensure!(e <= BigInt::from(bound), "key component {} has error {} (allowed {})", i, e, bound);
    }
    Ok(())
}

// ---------------------------------------------------------------- C21

pub fn noise(ctx: &mut Ctx) {
    let ok: Ok = |p, l| p.fresh() + 3.0 < p.limit(l);
    ctx.sub("crafted", "ciphertexts of 2..4 (sometimes 5..7) arbitrary parts with chosen noise from 0 up to just below Q/2t, every level: measure_noise is the bit length of the largest deviation from the ideal message (within the +-2 rounding of the encoding). Non-trivial: noise of 3 bits or more", 24000, 600000, move || two(13, 1, 6, ok), |c: &Two, o| {
        let (n, t, l, q) = (c.p.n, c.p.t, c.level, c.q());
        let sk = c.sk.make(&c.p);
        c.label(o);
        let parts = 2 + (c.x % 3) as usize + if mix(c.x ^ 7) % 5 == 0 { 3 } else { 0 };
        let m = c.a.coeffs(n, t);
        let max: BigInt = (&q - (&q >> 30)) / BigInt::from(2 * t as u128) - 3;
        let bound = &max >> ((mix(c.x) % (max.bits() + 1)) as usize);
        let mut e = bounded(&c.b, n, &bound);
        if c.y % 2 == 0 {
            // only one coefficient carries it, of either sign
            e = vec![BigInt::zero(); n];
            e[(mix(c.y) % n as u64) as usize] = if c.y % 4 == 0 { bound.clone() } else { -bound.clone() };
        }
        let rest: Vec<_> = (1..parts).map(|i| filler(&c.p, l, mix(c.y ^ i as u64))).collect();
        let ct = craft(&c.p, l, &sk, &add_bi(&ideal(&m, &q, t), &e), &rest);
        let big = rm::max_abs(&e);
        o.nt(big.bits() >= 3);
        let got = sk.measure_noise(&ct) as u64;
        let two = BigInt::from(2);
        let lo = if big > two { (&big - &two).bits() } else { 0 };
        let hi = (&big + &two).bits();
        ensure!(lo <= got && got <= hi, "noise of {} ({} bits) reported as {} bits, {} parts, {}", big, big.bits(), got, parts, c.info());
        o.n(1);
        Ok(())
    });
    let ok: Ok = |p, l| p.fresh() + 3.0 < p.limit(l);
    ctx.sub("exact", "ciphertexts of 1..4 (sometimes 5..8) arbitrary parts whose phase is the tree's own encoding of a message plus a deviation with a chosen largest value (0, 1, powers of two, their neighbours, of either sign): the report is exactly its bit length. Non-trivial: deviation of 2 bits or more", 24000, 600000, move || two(13, 1, 6, ok), |c: &Two, o| {
        let (n, t, l, q) = (c.p.n, c.p.t, c.level, c.q());
        let sk = c.sk.make(&c.p);
        c.label(o);
        let m = c.a.coeffs(n, t);
        let id = phase(&[pt(&c.p.params(), &m, l).to_poly()], &sk.coeffs);
        for (i, (x, y)) in id.iter().zip(&ideal(&m, &q, t)).enumerate() {
            let d: BigInt = (x - y).mod_floor(&q);
            ensure!(d <= BigInt::from(2) || &q - &d <= BigInt::from(2), "encoding of coefficient {} is {} away from Q m / t, {}", i, d, c.info());
        }
        let max: BigInt = (&q - (&q >> 30)) / BigInt::from(2 * t as u128) - 3;
        let k = mix(c.x) % max.bits();
        let pow = BigInt::one() << k as usize;
        let big = match mix(c.x ^ 1) % 8 {
            0..=2 => pow,
            3 | 4 => pow - 1,
            5 => pow + 1,
            6 => BigInt::zero(),
            _ => &max >> k as usize,
        };
        let big = if big > max { max } else { big };
        let mut e = if c.y % 2 == 0 { vec![BigInt::zero(); n] } else { bounded(&c.b, n, &(if big.is_zero() { BigInt::zero() } else { &big - 1 })) };
        let at = (mix(c.y) % n as u64) as usize;
        e[at] = if c.y % 8 < 4 { -big.clone() } else { big.clone() };
        let parts = 1 + (c.y / 8 % 4) as usize + if mix(c.y ^ 7) % 5 == 0 { 4 } else { 0 };
        let rest: Vec<_> = (1..parts).map(|i| filler(&c.p, l, mix(c.y ^ i as u64))).collect();
        let ct = craft(&c.p, l, &sk, &add_bi(&id, &e), &rest);
        o.nt(big.bits() >= 2);
        o.label(format!("{} parts", parts));
        ensure_eq!(sk.measure_noise(&ct) as u64, big.bits(), "noise of a ciphertext of {} parts whose largest deviation is {}, {}", parts, e[at], c.info());
        o.n(1);
        Ok(())
    });
    let ok: Ok = |p, l| p.mul_small(p.fresh(), p.t as f64) + 2.0 < p.limit(l);
    ctx.sub("operations", "fresh ciphertexts and results of sums and plaintext products: the report equals the bit length of the deviation computed with reference arithmetic. Non-trivial: dense message", 16000, 400000, move || two(13, 1, 6, ok), |c: &Two, o| {
        let (n, t, l, q) = (c.p.n, c.p.t, c.level, c.q());
        let params = c.p.params();
        let sk = c.sk.make(&c.p);
        c.label(o);
        o.nt(c.a.dense());
        let (a, b) = (c.a.coeffs(n, t), c.b.coeffs(n, t));
        let (x, y) = (sk.encrypt(&pt(&params, &a, l)), sk.encrypt(&pt(&params, &b, l)));
        let fresh = sk.measure_noise(&x) as f64;
        ensure!(fresh <= c.p.fresh().floor() + 1.0, "fresh noise reported as {} bits, {}", fresh, c.info());
        for ct in [&x + &y, &x * &pt(&params, &b, l), x.clone()] {
            let m = ref_decrypt(&ct.cts, &sk.coeffs, t);
            let id = ideal(&m, &q, t);
            let big = phase(&ct.cts, &sk.coeffs).iter().zip(&id).map(|(x, i)| {
                let d: BigInt = (x - i).mod_floor(&q);
                let f: BigInt = &q - &d;
                if d < f { d } else { f }
            }).max().unwrap();
            let got = sk.measure_noise(&ct) as u64;
            let two = BigInt::from(2);
            let lo = if big > two { (&big - &two).bits() } else { 0 };
            ensure!(lo <= got && got <= (&big + &two).bits(), "noise {} reported as {} bits, {}", big, got, c.info());
            o.n(1);
        }
        Ok(())
    });
}

// ---------------------------------------------------------------- C23

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Fresh(u64),
    Add(u8, u8),
    Sub(u8, u8),
    AddPlain(u8, u64),
    MulPlain(u8, u64),
    MulScalar(u8, u64),
    Mul(u8, u8),
    MulKeep(u8, u8),
    Relin(u8),
    Galois(u8, u16),
    Select(u8, u8, bool),
    Switch(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Program {
    p: ParamSpec,
    sk: SkSpec,
    ops: Vec<Op>,
    /// which operands come from an equal parameter set built independently
    split: u32,
}
#[derive(Clone)]
struct Slot {
    ct: BfvCipherText,
    m: Vec<u64>,
    noise: f64,
}

pub fn mod_switch_ct(ct: &BfvCipherText) -> BfvCipherText {
    let mut out = ct.clone();
    for c in out.cts.iter_mut() {
        c.change_representation(Representation::PowerBasis);
        c.mod_switch_down_next();
        c.change_representation(Representation::Ntt);
    }
    out.level += 1;
    out
}
pub fn mod_switch_noise(p: &ParamSpec, noise: f64, level: usize, parts: usize) -> f64 {
    let q_last = *p.q_at(level).last().unwrap() as f64;
    ladd(noise - q_last.log2(), (p.nf() * p.b() + 1.0).log2() * (parts as f64 - 1.0) + 1.0)
}

pub fn programs(ctx: &mut Ctx) {
    let strat = || {
        let op = prop_oneof![
            2 => any::<u64>().prop_map(Op::Fresh),
            3 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| Op::Add(a, b)),
            2 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| Op::Sub(a, b)),
            1 => (any::<u8>(), any::<u64>()).prop_map(|(a, b)| Op::AddPlain(a, b)),
            2 => (any::<u8>(), any::<u64>()).prop_map(|(a, b)| Op::MulPlain(a, b)),
            1 => (any::<u8>(), any::<u64>()).prop_map(|(a, b)| Op::MulScalar(a, b)),
            3 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| Op::Mul(a, b)),
            2 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| Op::MulKeep(a, b)),
            2 => any::<u8>().prop_map(Op::Relin),
            2 => (any::<u8>(), any::<u16>()).prop_map(|(a, b)| Op::Galois(a, b)),
            2 => (any::<u8>(), any::<u8>(), any::<bool>()).prop_map(|(a, b, s)| Op::Select(a, b, s)),
            2 => any::<u8>().prop_map(Op::Switch),
        ];
        (raw_params(11, 3, 6), sk(), vec(op, 3..=20), prop_oneof![Just(0u32), any::<u32>()])
            .prop_map(|(mut raw, sk, ops, split)| {
                raw.sizes.iter_mut().for_each(|s| s.0 = s.0.max(40));
                let p = raw.fit(|s| ladd(s.mul_ct(s.fresh(), s.fresh(), 2), s.ks(0)) + 30.0 < s.limit(0));
                Program { p, sk, ops, split }
            })
            .boxed()
    };
    ctx.sub("history", "random programs of 3..20 operations (encrypt, add, subtract, plaintext and scalar operations, multiply with and without relinearisation, relinearise, automorphism, encrypted selection, modulus switch) over a pool of ciphertexts with mixed levels and part counts, whose operands, keys and plaintexts share one parameter object or belong to either of two equal ones; after every operation the result decrypts to the value of the same program over R_t, as long as the tracked worst-case noise allows. Non-trivial: at least one product, automorphism, selection or modulus switch applied to a result of an earlier operation", 24000, 600000, strat, |c: &Program, o| {
        let p = &c.p;
        let (n, t) = (p.n, p.t);
        let params = p.params();
        let sk = c.sk.make(p);
        let uni = |s: u64| PolySpec { head: vec![], fill: if s % 2 == 0 { Fill::Uniform(s) } else { Fill::Edges(s) } }.coeffs(n, t);
        // two equal parameter sets and the same key over each: every operand, key and
        // plaintext belongs to one of them
        let sets = if c.split == 0 { [params.clone(), params.clone()] } else { [params.clone(), p.params_again()] };
        let keys = [SecretKey::new(sk.coeffs.to_vec(), &sets[0]), SecretKey::new(sk.coeffs.to_vec(), &sets[1])];
        let pick = |i: usize| (c.split >> (i % 32)) as usize & 1;
        let fresh = |s: u64, l: usize| { let m = uni(s); let i = pick(s as usize); Slot { ct: keys[i].encrypt(&pt(&sets[pick(s as usize / 32)], &m, l)), m, noise: p.fresh() } };
        let mut pool = vec![fresh(1, 0), fresh(2, 0)];
        let mut done = 0;
        let mut deep = false;
        for (step, op) in c.ops.iter().enumerate() {
            let len = pool.len();
            let sk = &keys[pick(step)];
            let params = &sets[pick(step + 7)];
            let at = |i: u8| i as usize % len;
            // brings y down to x's level or the other way round
            let align = |a: &Slot, b: &Slot| -> Option<(Slot, Slot)> {
                let (mut a, mut b) = (a.clone(), b.clone());
                while a.ct.level < b.ct.level { a = switch(p, &a)?; }
                while b.ct.level < a.ct.level { b = switch(p, &b)?; }
                Some((a, b))
            };
            let zip = |a: &[u64], b: &[u64], f: fn(u64, u64, u64) -> u64| -> Vec<u64> { a.iter().zip(b).map(|(u, v)| f(*u, *v, t)).collect() };
            let old = len > 2 && match op { Op::Add(a, _) | Op::Sub(a, _) | Op::Mul(a, _) | Op::MulKeep(a, _) | Op::Select(a, _, _) | Op::Galois(a, _) | Op::Switch(a) | Op::Relin(a) | Op::MulPlain(a, _) | Op::MulScalar(a, _) | Op::AddPlain(a, _) => at(*a) >= 2, _ => false };
            let r: Option<Slot> = match op {
                Op::Fresh(s) => { let l = pool[len - 1].ct.level; if p.fresh() + 1.0 < p.limit(l) { Some(fresh(*s, l)) } else { None } }
                Op::Add(a, b) => align(&pool[at(*a)], &pool[at(*b)]).map(|(x, y)| Slot { ct: &x.ct + &y.ct, m: zip(&x.m, &y.m, rm::addm), noise: ladd(ladd(x.noise, y.noise), 1.0) }),
                Op::Sub(a, b) => align(&pool[at(*a)], &pool[at(*b)]).map(|(x, y)| Slot { ct: &x.ct - &y.ct, m: zip(&x.m, &y.m, rm::subm), noise: ladd(ladd(x.noise, y.noise), 1.0) }),
                Op::AddPlain(a, s) => { let x = &pool[at(*a)]; let m = uni(*s); Some(Slot { ct: &x.ct + &pt(params, &m, x.ct.level).to_poly(), m: zip(&x.m, &m, rm::addm), noise: ladd(x.noise, 2.0) }) }
                Op::MulPlain(a, s) => { let x = &pool[at(*a)]; let m = uni(*s); Some(Slot { ct: &x.ct * &pt(params, &m, x.ct.level), m: rm::negacyclic(&x.m, &m, t), noise: p.mul_small(x.noise, t as f64) }) }
                Op::MulScalar(a, s) => { let x = &pool[at(*a)]; let k = edge(*s, t.min(1 << 20)); Some(Slot { ct: &x.ct * &BigUint::from(k), m: x.m.iter().map(|v| rm::mulm(*v, k, t)).collect(), noise: x.noise + (k.max(1) as f64).log2() + 0.1 }) }
                Op::MulKeep(a, b) => align(&pool[at(*a)], &pool[at(*b)]).and_then(|(x, y)| {
                    if x.ct.cts.len() + y.ct.cts.len() > 6 { return None; }
                    let noise = p.mul_ct(x.noise, y.noise, x.ct.cts.len().max(y.ct.cts.len()));
                    if noise >= p.limit(x.ct.level) { return None; }
                    Some(Slot { ct: &x.ct * &y.ct, m: rm::negacyclic(&x.m, &y.m, t), noise })
                }),
                Op::Mul(a, b) => align(&pool[at(*a)], &pool[at(*b)]).and_then(|(x, y)| {
                    let l = x.ct.level;
                    if x.ct.cts.len() != 2 || y.ct.cts.len() != 2 || p.q_at(l).len() < 2 { return None; }
                    let noise = ladd(p.mul_ct(x.noise, y.noise, 2), p.ks(l));
                    if noise >= p.limit(l) { return None; }
                    Some(Slot { ct: multiply_with_strategy(&x.ct, &y.ct, &RelinearizationKey::new(sk, l)), m: rm::negacyclic(&x.m, &y.m, t), noise })
                }),
                Op::Relin(a) => { let x = &pool[at(*a)]; let l = x.ct.level; if x.ct.cts.len() == 3 && p.q_at(l).len() >= 2 {
                    let (r0, r1) = RelinearizationKey::new(sk, l).relinearize_poly(&x.ct.cts[2]);
                    Some(Slot { ct: ct_of(params, (&x.ct.cts[0] + &r0, &x.ct.cts[1] + &r1), l), m: x.m.clone(), noise: ladd(x.noise, p.ks(l)) })
                } else { None } }
                Op::Galois(a, e) => { let x = &pool[at(*a)]; let l = x.ct.level; if x.ct.cts.len() == 2 && p.q_at(l).len() >= 2 {
                    let k = *e as usize * 2 + 1;
                    Some(Slot { ct: GaliosKey::new(sk, &Substitution::new(&params.q_ctxs[l], k), l).relinearize(&x.ct), m: rm::automorphism(&x.m, k, t), noise: ladd(x.noise, p.ks(l)) })
                } else { None } }
                Op::Select(a, b, s) => align(&pool[at(*a)], &pool[at(*b)]).and_then(|(x, y)| {
                    let l = x.ct.level;
                    if x.ct.cts.len() != 2 || y.ct.cts.len() != 2 || p.q_at(l).len() < 2 { return None; }
                    let noise = ladd(ladd(x.noise, y.noise) + 1.0, p.ks(l) + 1.0) + 0.1;
                    if noise >= p.limit(l) { return None; }
                    let r = RgswCt::encrypt(sk, &pt(params, &[*s as u64], l));
                    let d = ct_of(params, RgswCt::external_product(&r, &(&y.ct - &x.ct)), l);
                    Some(Slot { ct: &x.ct + &d, m: if *s { y.m.clone() } else { x.m.clone() }, noise })
                }),
                Op::Switch(a) => switch(p, &pool[at(*a)]),
            };
            let Some(s) = r else { continue };
            if s.noise + 0.5 >= p.limit(s.ct.level) {
                continue;
            }
            done += 1;
            let name = format!("{:?}", op);
            o.label(name.split('(').next().unwrap().to_string());
            if old && !matches!(op, Op::Add(..) | Op::Sub(..) | Op::AddPlain(..)) { deep = true; }
            well_formed(&s.ct, p, s.ct.cts.len(), s.ct.level)?;
            let d = dec(sk, &s.ct);
            ensure!(d == s.m, "after step {} ({:?}; {} steps executed): {:?}.. instead of {:?}.., level {}, {} parts, tracked noise {:.0} of {:.0} bits, N={} t={} moduli {:?}", step, op, done, &d[..4], &s.m[..4], s.ct.level, s.ct.cts.len(), s.noise, p.limit(s.ct.level), n, t, p.q);
            o.n(n);
            pool.push(s);
        }
        // nothing that is still in use was disturbed by later operations
        for (i, s) in pool.iter().enumerate() {
            ensure!(dec(&sk, &s.ct) == s.m, "ciphertext {} of the pool no longer decrypts to its value after {} steps", i, done);
        }
        o.nt(deep);
        o.label(format!("steps {}", done));
        Ok(())
    });
}
fn switch(p: &ParamSpec, x: &Slot) -> Option<Slot> {
    let l = x.ct.level;
    if p.q_at(l).len() < 2 {
        return None;
    }
    let noise = mod_switch_noise(p, x.noise, l, x.ct.cts.len());
    if noise + 0.5 >= p.limit(l + 1) {
        return None;
    }
    Some(Slot { ct: mod_switch_ct(&x.ct), m: x.m.clone(), noise })
}
