//! C17 fresh randomness: what an observer of several outputs may not be able to see.
use super::sampling::{centered, small_rows};
use super::stats;
use crate::fw::*;
use crate::gen::*;
use crate::refmath as rm;
use onion_pir::verif::bfv::*;
use onion_pir::verif::ksk::Ksk;
use onion_pir::verif::pvw::*;
use onion_pir::verif::rgsw::RgswCt;
use onion_pir::verif::rq::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::HashSet;
use std::sync::Arc;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    logn: u32,
    moduli: usize,
    var: usize,
    level: u8,
    m: PolySpec,
    order: Vec<u8>,
    x: u64,
}
fn case() -> BoxedStrategy<Case> {
    (4u32..=7, prop_oneof![7 => 2usize..=4, 1 => 5usize..=8], 1usize..=16, any::<u8>(), poly(), vec(any::<u8>(), 2..7), any::<u64>())
        .prop_map(|(logn, moduli, var, level, m, order, x)| Case { logn, moduli, var, level, m, order, x })
        .boxed()
}
impl Case {
    fn spec(&self) -> ParamSpec {
        let n = 1usize << self.logn;
        let q = primes(n, &(0..self.moduli).map(|i| (58 + (mix(self.x ^ i as u64) % 5) as u32, mix(self.x + i as u64))).collect::<Vec<_>>(), &[]);
        ParamSpec { n, q, t: 65537, var: self.var }
    }
}

/// A published pair (b, a): its mask and, with the key, its error.
struct Pair {
    what: String,
    a: Poly,
    err: Vec<i64>,
}
/// b + a s - payload must be a small polynomial
fn pair(what: String, b: &Poly, a: &Poly, sk: &SecretKey, payload: &Poly, q: &[u64]) -> Result<Pair, String> {
    let mut b = b.clone();
    b -= payload;
    let err = small_rows(&phase_rows(&[b, a.clone()], &sk.coeffs), q).map_err(|e| format!("{what}: not an encryption of the expected element: {e}"))?;
    Ok(Pair { what, a: a.clone(), err })
}
fn gadget(ctx: &Arc<RqContext>, i: usize) -> Poly {
    let rows: Vec<Vec<u64>> = (0..ctx.moduli_64.len()).map(|k| { let mut r = vec![0; ctx.degree]; r[0] = (k == i) as u64; r }).collect();
    poly_from_rows(ctx, &rows, Representation::PowerBasis)
}
fn ksk_pairs(name: &str, k: &Ksk, sk: &SecretKey, w: &Poly, q: &[u64], out: &mut Vec<Pair>) -> Res {
    ensure_eq!(k.c0.len(), q.len(), "{}: number of components", name);
    for i in 0..k.c0.len() {
        let mut g = gadget(&k.ct_context, i);
        g.change_representation(Representation::Ntt);
        g *= w;
        out.push(pair(format!("{name} component {i}"), &k.c0[i], &k.c1[i], sk, &g, q)?);
    }
    Ok(())
}
fn equal_coords(a: &Poly, b: &Poly) -> usize {
    let count = |a: &Poly, b: &Poly| {
        a.coefficients().iter().zip(b.coefficients().iter()).filter(|(x, y)| x == y).count()
    };
    let (mut pa, mut pb) = (a.clone(), b.clone());
    pa.change_representation(Representation::PowerBasis);
    pb.change_representation(Representation::PowerBasis);
    count(a, b).max(count(&pa, &pb))
}
/// all the judgements an observer could make on a set of pairs of the same key
fn judge(pairs: &[Pair], p: &ParamSpec, o: &mut Obs) -> Res {
    let var = p.var;
    let b = 2 * var as i64;
    let n = p.n;
    let mut all = vec![];
    for (i, x) in pairs.iter().enumerate() {
        ensure!(x.err.iter().all(|e| e.abs() <= b), "{}: error outside [-{b}, {b}]", x.what);
        // P(error polynomial zero) <= (3/8)^16
        if n >= 64 { ensure!(x.err.iter().any(|e| *e != 0), "{}: carries no error", x.what); }
        // a mask is itself spread out: no repeated coordinates within it
        let rows = rows_of(&x.a);
        for r in rows.iter() {
            let d: HashSet<u64> = r.iter().cloned().collect();
            ensure!(d.len() + 2 >= r.len(), "{}: mask takes only {} values over {} coefficients", x.what, d.len(), r.len());
        }
        for r in x.a.coefficients().outer_iter() {
            let d: HashSet<u64> = r.iter().cloned().collect();
            ensure!(d.len() + 2 >= r.len(), "{}: mask takes only {} values over {} evaluations", x.what, d.len(), r.len());
        }
        for y in &pairs[..i] {
            let same = equal_coords(&x.a, &y.a);
            ensure!(same <= 2, "{} and {} share {} coordinates of their masks", x.what, y.what, same);
            if n >= 64 {
                let eq = x.err.iter().zip(&y.err).filter(|(a, b)| a == b).count();
                let op = x.err.iter().zip(&y.err).filter(|(a, b)| **a == -**b).count();
                ensure!(eq < n && op < n, "{} and {} carry the same error", x.what, y.what);
            }
            o.n(1);
        }
        all.extend(&x.err);
    }
    let all: Vec<i64> = all;
    if all.len() >= 1000 {
        stats::cbd(&all, var, "errors of one session")?;
    }
    Ok(())
}

pub fn hiding(ctx: &mut Ctx) {
    ctx.sub("sessions", "sessions of one key in generated order: encryptions of equal and different messages, raw elements, switching, RGSW, Galois and relinearisation keys, at every level: all masks pairwise unrelated in both bases, spread out, all errors within range, pairwise different and distributed as configured. Non-trivial: four or more kinds of output", 12000, 300000, case, |c: &Case, o| {
        let p = c.spec();
        let params = p.params();
        let level = c.level as usize % (c.moduli - 1);
        let lctx = params.q_ctxs[level].clone();
        let q = p.q_at(level).to_vec();
        let sk = SecretKey::generate(&params);
        let m = c.m.coeffs(p.n, p.t);
        let plain = pt(&params, &m, level);
        let encoded = plain.to_poly();
        let elem = poly_from_rows(&lctx, &c.m.rows(p.n, &q), Representation::Ntt);
        let mut spoly = Poly::try_from_vec_i64(&lctx, &sk.coeffs);
        spoly.change_representation(Representation::Ntt);
        let mut pairs = vec![];
        let mut kinds = HashSet::new();
        for (i, k) in c.order.iter().chain([0u8, 0].iter()).enumerate() {
            kinds.insert(k % 7);
            match k % 7 {
                0 => {
                    let ct = sk.encrypt(&plain);
                    pairs.push(pair(format!("encryption {i}"), &ct.cts[0], &ct.cts[1], &sk, &encoded, &q)?);
                }
                1 => {
                    let other: Vec<u64> = m.iter().map(|v| mix(*v ^ i as u64) % p.t).collect();
                    let pl = pt(&params, &other, level);
                    let ct = sk.encrypt(&pl);
                    pairs.push(pair(format!("encryption {i}"), &ct.cts[0], &ct.cts[1], &sk, &pl.to_poly(), &q)?);
                }
                2 => {
                    let ct = sk.encrypt_poly(&elem);
                    pairs.push(pair(format!("raw encryption {i}"), &ct.cts[0], &ct.cts[1], &sk, &elem, &q)?);
                }
                3 => ksk_pairs(&format!("switching key {i}"), &Ksk::new(&sk, &elem, level, level), &sk, &elem, &q, &mut pairs)?,
                4 => {
                    let g = if c.x % 2 == 0 { RgswCt::encrypt_poly(&sk, &elem) } else { RgswCt::encrypt(&sk, &plain) };
                    let mut w = if c.x % 2 == 0 { elem.clone() } else { let mut w = Poly::try_from_vec_u64(&lctx, &m); w.change_representation(Representation::Ntt); w };
                    ksk_pairs(&format!("RGSW {i} second part"), &g.ksk1, &sk, &w, &q, &mut pairs)?;
                    w *= &spoly;
                    ksk_pairs(&format!("RGSW {i} first part"), &g.ksk0, &sk, &w, &q, &mut pairs)?;
                }
                5 => {
                    let e = ((mix(c.x ^ i as u64) % p.n as u64) * 2 + 1) as usize;
                    let sub = Substitution::new(&lctx, e);
                    let key = GaliosKey::new(&sk, &sub, level);
                    let mut s = Poly::try_from_vec_i64(&lctx, &sk.coeffs);
                    s = s.substitute(&sub);
                    s.change_representation(Representation::Ntt);
                    for j in 0..q.len() {
                        let mut g = gadget(&lctx, j);
                        g.change_representation(Representation::Ntt);
                        let ct = BfvCipherText { params: params.clone(), cts: vec![Poly::zero(&lctx, Representation::Ntt), g.clone()], level };
                        let r = key.relinearize(&ct);
                        g *= &s;
                        pairs.push(pair(format!("Galois key {i} component {j}"), &r.cts[0], &r.cts[1], &sk, &g, &q)?);
                    }
                }
                _ => {
                    let key = RelinearizationKey::new(&sk, level);
                    let s2 = &spoly * &spoly;
                    for j in 0..q.len() {
                        let mut g = gadget(&lctx, j);
                        let (b, a) = key.relinearize_poly(&g);
                        g.change_representation(Representation::Ntt);
                        g *= &s2;
                        pairs.push(pair(format!("relinearisation key {i} component {j}"), &b, &a, &sk, &g, &q)?);
                    }
                }
            }
        }
        o.nt(kinds.len() >= 4);
        o.label(format!("{} pairs", pairs.len() / 8 * 8));
        judge(&pairs, &p, o)
    });

    ctx.sub("many_masks", "300000 encryptions and switching-key components of one parameter set with a 62-bit modulus: no two masks share a pair of coordinates (so seeds of 32 bits or fewer are found out). Non-trivial: 10000 masks or more", 40, 800, || (any::<u64>(), 1usize..=16).boxed(), |c: &(u64, usize), o| {
        let n = 8;
        let p = ParamSpec { n, q: primes(n, &[(62, u64::MAX), (62, 5)], &[]), t: 65537, var: c.1 };
        let params = p.params();
        let ctx1 = params.q_ctxs[1].clone();
        let sk = SecretKey::generate(&params);
        let zero = Poly::zero(&ctx1, Representation::Ntt);
        let mut seen: HashSet<(u64, u64)> = HashSet::new();
        let total = 300_000;
        for i in 0..total {
            let a = if (mix(c.0 ^ i) % 4) == 0 { Ksk::new(&sk, &zero, 1, 1).c1[0].clone() } else { sk.encrypt_poly(&zero).cts[1].clone() };
            let v = (a.coefficients()[[0, (c.0 % 8) as usize]], a.coefficients()[[0, ((c.0 + 3) % 8) as usize]]);
            ensure!(seen.insert(v), "mask coordinates {:?} appear twice within {} outputs", v, i + 1);
        }
        o.nt(seen.len() >= 10000);
        o.n(seen.len());
        Ok(())
    });

    ctx.sub("keys", "generated secret keys of one parameter set: pairwise different, and an encryption under one does not decrypt under another. Non-trivial: dense message", 8000, 200000, case, |c: &Case, o| {
        let p = c.spec();
        let params = p.params();
        let level = c.level as usize % (c.moduli - 1);
        let keys: Vec<SecretKey> = (0..5).map(|_| SecretKey::generate(&params)).collect();
        let m = c.m.coeffs(p.n, p.t);
        o.nt(c.m.dense());
        for (i, k) in keys.iter().enumerate() {
            let ct = k.encrypt(&pt(&params, &m, level));
            ensure_eq!(dec(k, &ct), m, "own key");
            for (j, l) in keys.iter().enumerate().filter(|(j, _)| *j != i) {
                let same = k.coeffs.iter().zip(l.coeffs.iter()).filter(|(a, b)| a == b).count();
                // P(equal coordinate) <= 3/8
                if p.n >= 64 { ensure!(same <= p.n * 7 / 8, "keys {} and {} agree in {} of {} coefficients", i, j, same, p.n); }
                ensure!(k.coeffs != l.coeffs || p.n < 32, "keys {} and {} are equal", i, j);
                if k.coeffs != l.coeffs {
                    let d = dec(l, &ct);
                    let hit = d.iter().zip(&m).filter(|(a, b)| a == b).count();
                    ensure!(hit <= 5, "key {} recovers {} of {} coefficients encrypted under key {}", j, hit, p.n, i);
                    o.n(1);
                }
            }
        }
        Ok(())
    });

    ctx.sub("phase_of_ciphertexts", "the first ciphertext part alone, and the second alone, look uniform whatever is encrypted (zero, constants, extreme values), over several encryptions under one key. Non-trivial: a structured message", 4000, 100000, case, |c: &Case, o| {
        let p = c.spec();
        let params = p.params();
        let level = c.level as usize % c.moduli;
        let q = p.q_at(level).to_vec();
        let sk = SecretKey::generate(&params);
        let m = match c.x % 3 { 0 => vec![0; p.n], 1 => vec![p.t - 1; p.n], _ => c.m.coeffs(p.n, p.t) };
        let mut cols = vec![vec![vec![]; q.len()]; 4];
        for _ in 0..(4096 / p.n) {
            let ct = sk.encrypt(&pt(&params, &m, level));
            for part in 0..2 {
                for k in 0..q.len() { cols[part][k].extend(ct.cts[part].coefficients().row(k).iter().cloned()); }
                for (k, r) in rows_of(&ct.cts[part]).into_iter().enumerate() { cols[2 + part][k].extend(r); }
            }
        }
        o.nt(c.x % 3 < 2);
        for (i, set) in cols.iter().enumerate() {
            for (k, v) in set.iter().enumerate() {
                o.n(v.len());
                stats::uniform(v, q[k], &format!("ciphertext part {} in the {} basis", i % 2, if i < 2 { "evaluation" } else { "power" }))?;
            }
        }
        Ok(())
    });

    ctx.sub("entropy", "two threads (as two processes would) with different system entropy: keys, masks, switching keys and PVW outputs all differ; every kind of output consumes system entropy. Non-trivial: always", 1600, 40000, || (any::<u64>(), any::<u64>()).boxed(), |c: &(u64, u64), o| {
        let run = |s: u64| std::thread::spawn(move || { getrandom::verif_seed(s); outputs() }).join().map_err(|_| "panic while producing outputs".to_string());
        if c.0 == c.1 { return Ok(()); }
        let (a, b) = (run(c.0)?, run(c.1)?);
        for ((name, x), (_, y)) in a.iter().zip(&b) {
            ensure!(x != y, "{name}: equal under different system entropy");
            o.n(1);
        }
        o.nt(true);
        Ok(())
    });

    ctx.sub("processes", "the same through separate processes started with different entropy. Non-trivial: always", 64, 1600, || (any::<u64>(), any::<u64>()).boxed(), |c: &(u64, u64), o| {
        if c.0 == c.1 { return Ok(()); }
        let exe = std::env::current_exe().map_err(|e| e.to_string())?;
        let run = |s: u64| -> Result<Vec<String>, String> {
            let out = std::process::Command::new(&exe).args(["--probe", &s.to_string()]).output().map_err(|e| e.to_string())?;
            ensure!(out.status.success(), "probe process failed");
            Ok(String::from_utf8_lossy(&out.stdout).lines().map(|l| l.to_string()).collect())
        };
        let (a, b) = (run(c.0)?, run(c.1)?);
        ensure!(!a.is_empty() && a.len() == b.len(), "probe output");
        for (x, y) in a.iter().zip(&b) {
            ensure!(x != y, "output is the same in two processes with different entropy: {}", x);
            o.n(1);
        }
        o.nt(true);
        Ok(())
    });

    let strat = || (0u8..10, 0u8..2, 1usize..=16, any::<u64>(), any::<u64>()).prop_map(|(kind, level, var, x, e)| Bits { kind, level, var, x, e }).boxed();
    ctx.sub("influence", "keys, masks, errors, switching, Galois, relinearisation and RGSW keys, PVW keys and ciphertexts, made again and again with the same random bits except one that is inverted: every single mask, error vector, key or subset depends on at least 256 of the random bits that its operation obtains (as many as a generator seed has), so no part is drawn from a shortened, truncated or constant seed. Non-trivial: always", 160, 4000, strat, influence);

    pvw_fresh(ctx);
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Bits {
    kind: u8,
    level: u8,
    var: usize,
    x: u64,
    e: u64,
}
fn influence(c: &Bits, o: &mut Obs) -> Res {
    const NEED: usize = 256;
    const NAMES: [&str; 10] = ["encryption", "switching key", "RGSW ciphertext", "Galois key", "relinearisation key", "errors of encryptions and switching keys", "secret key", "PVW keys", "PVW ciphertext", "PVW public-key errors"];
    o.nt(true);
    o.label(NAMES[c.kind as usize]);
    let n = if c.kind == 5 || c.kind == 6 { 128 } else { 8 };
    let moduli = if c.kind == 2 { 2 } else { 2 + (c.x % 2) as usize };
    let p = ParamSpec { n, q: primes(n, &(0..moduli as u64).map(|i| (60, mix(c.x ^ i))).collect::<Vec<_>>(), &[]), t: 257, var: c.var };
    let params = p.params();
    let level = if moduli > 2 { c.level as usize } else { 0 };
    let ctx = params.q_ctxs[level].clone();
    let key = SecretKey::new((0..n as i64).map(|i| (mix(c.x ^ i as u64) % 5) as i64 - 2).collect(), &params);
    let plain = pt(&params, &[c.x % p.t, 1], level);
    let w = ntt_poly(&ctx, &[c.x % p.t, 1]);
    let sub = Substitution::new(&ctx, 3);
    // 1 modulo the i-th modulus, 0 modulo the others: a switching key applied to it shows its i-th component
    let units: Vec<Poly> = (0..p.q_at(level).len()).map(|i| gadget(&ctx, i)).map(|mut g| { g.change_representation(Representation::PowerBasis); g }).collect();
    let (pn, pell, pm) = match c.kind { 7 => (80, 3, 2), 8 => (40, 4, 320), _ => (2, 2, 64) };
    let pp = PvwParams { n: pn, ell: pell, m: pm, q: 65537, variance: c.var.min(8) };
    let fixed = PvwSk::verif_from_rows((0..pp.ell as u64).map(|l| (0..pp.n as u64).map(|i| mix(l * 99 + i) % pp.q).collect()).collect());
    let ppk = PvwPk::verif_from_samples((0..pp.m as u64).map(|i| PvwCiphertext { a: (0..pp.n as u64).map(|j| mix(c.x ^ i << 9 ^ j) % pp.q).collect(), b: (0..pp.ell as u64).map(|j| mix(c.x ^ i << 19 ^ j) % pp.q).collect() }).collect());
    let produce = || -> Vec<(String, u64)> {
        let mut out = vec![];
        match c.kind {
            0 => {
                out.push(("mask of encrypt".into(), digest(flat(&key.encrypt(&plain).cts[1]))));
                out.push(("mask of encrypt_poly".into(), digest(flat(&key.encrypt_poly(&w).cts[1]))));
            }
            1 => {
                for (i, a) in Ksk::new(&key, &w, level, level).c1.iter().enumerate() { out.push((format!("mask of component {i}"), digest(flat(a)))); }
            }
            2 => {
                let r = RgswCt::encrypt(&key, &plain);
                for (h, k) in [&r.ksk0, &r.ksk1].iter().enumerate() {
                    for (i, a) in k.c1.iter().enumerate() { out.push((format!("mask of component {i} of half {h}"), digest(flat(a)))); }
                }
            }
            3 => {
                let k = GaliosKey::new(&key, &sub, level);
                for (i, u) in units.iter().enumerate() {
                    let mut u = u.clone();
                    u.change_representation(Representation::Ntt);
                    let zero = Poly::zero(&ctx, Representation::Ntt);
                    let ct = k.relinearize(&ct_of(&params, (zero, u), level));
                    out.push((format!("mask of component {i}"), digest(flat(&ct.cts[1]))));
                }
            }
            4 => {
                let k = RelinearizationKey::new(&key, level);
                for (i, u) in units.iter().enumerate() { out.push((format!("mask of component {i}"), digest(flat(&k.relinearize_poly(u).1)))); }
            }
            5 => {
                let ct = key.encrypt(&plain);
                out.push(("error of an encryption".into(), digest(phase_rows(&ct.cts, &key.coeffs))));
                let k = Ksk::new(&key, &w, level, level);
                for (i, (b, a)) in k.c0.iter().zip(&k.c1).enumerate() { out.push((format!("error of component {i}"), digest(phase_rows(&[b.clone(), a.clone()], &key.coeffs)))); }
            }
            6 => out.push(("coefficients".into(), digest(&SecretKey::generate(&params).coeffs))),
            7 => {
                let sk = PvwSk::gen_sk(&pp).verif_rows();
                for (i, r) in sk.iter().enumerate() { out.push((format!("secret-key row {i}"), digest(r))); }
                let s = fixed.gen_pk(&pp).verif_samples();
                for (i, r) in s.iter().enumerate() { out.push((format!("public-key vector {i}"), digest(&r.a))); }
            }
            9 => {
                let s = fixed.gen_pk(&pp).verif_samples();
                let errs: Vec<u64> = s.iter().flat_map(|c| pvw_err(&fixed.verif_rows(), c, pp.q)).map(|e| e as u64).collect();
                out.push(("errors".into(), digest(errs)));
            }
            _ => { let ct = ppk.encrypt(&pp, vec![c.x & 1; pp.ell]); out.push(("subset".into(), digest((ct.a, ct.b)))); }
        }
        out
    };
    let trial = |flip: u64| -> Result<(Vec<(String, u64)>, u64), String> {
        std::thread::scope(|s| {
            s.spawn(|| {
                getrandom::verif_seed(c.e);
                let _ = rand::thread_rng();
                getrandom::verif_tape_start(flip);
                let out = produce();
                (out, getrandom::verif_tape_stop())
            })
            .join()
            .map_err(|_| "panic while producing outputs".to_string())
        })
    };
    let (base, bits) = trial(u64::MAX)?;
    ensure!(trial(u64::MAX)?.0 == base, "{}: not a function of the random bits it obtains", NAMES[c.kind as usize]);
    let mut order: Vec<u64> = (0..bits).collect();
    // the most significant bits of each word first: where only they matter, the search ends early
    order.sort_by_key(|b| (63 - b % 64, mix(b ^ c.x)));
    let mut hits = vec![0usize; base.len()];
    for flip in order {
        let (got, _) = trial(flip)?;
        for ((h, a), b) in hits.iter_mut().zip(&base).zip(&got) { *h += (a.1 != b.1) as usize; }
        o.n(1);
        if hits.iter().all(|h| *h >= NEED) { break; }
    }
    for ((name, _), h) in base.iter().zip(&hits) {
        ensure!(*h >= NEED, "{}: {} depends on only {} of the {} random bits obtained (N={}, variance {})", NAMES[c.kind as usize], name, h, bits, n, c.var);
    }
    Ok(())
}

fn digest<T: std::hash::Hash>(t: T) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}
fn flat(p: &Poly) -> Vec<u64> {
    p.coefficients().iter().cloned().collect()
}
/// one of each kind of output, from this thread's entropy
fn outputs() -> Vec<(&'static str, u64)> {
    let n = 64;
    let p = ParamSpec { n, q: primes(n, &[(60, 3), (60, 9)], &[]), t: 65537, var: 10 };
    let params = p.params();
    let ctx = params.q_ctxs[0].clone();
    let fixed = SecretKey::new((0..n as i64).map(|i| i % 5 - 2).collect(), &params);
    let mut out = vec![];
    out.push(("secret key", digest(&SecretKey::generate(&params).coeffs)));
    let ct = fixed.encrypt(&pt(&params, &[1, 2, 3], 0));
    out.push(("encryption mask", digest(flat(&ct.cts[1]))));
    out.push(("encryption error", digest(phase_rows(&ct.cts, &fixed.coeffs))));
    let one = ntt_poly(&ctx, &[1]);
    let k = Ksk::new(&fixed, &one, 0, 0);
    for (a, b) in k.c0.iter().zip(&k.c1) {
        out.push(("switching-key mask", digest(flat(b))));
        out.push(("switching-key error", digest(phase_rows(&[a.clone(), b.clone()], &fixed.coeffs))));
    }
    let pp = PvwParams { n: 8, ell: 4, m: 64, q: 65537, variance: 2 };
    let sk = PvwSk::gen_sk(&pp);
    out.push(("PVW secret key", digest(sk.verif_rows())));
    let fixed = PvwSk::verif_from_rows((0..4u64).map(|l| (0..8).map(|i| mix(l * 8 + i) % 65537).collect()).collect());
    let pk = fixed.gen_pk(&pp);
    let s = pk.verif_samples();
    out.push(("PVW public key", digest(s.iter().map(|c| c.a.clone()).collect::<Vec<_>>())));
    let errs: Vec<u64> = s.iter().flat_map(|c| pvw_err(&fixed.verif_rows(), c, 65537)).map(|e| e as u64).collect();
    out.push(("PVW public-key errors", digest(errs)));
    let ct = pk.encrypt(&pp, vec![1, 0, 1, 1]);
    out.push(("PVW ciphertext", digest((ct.a, ct.b))));
    out
}
pub fn probe(seed: u64) {
    getrandom::verif_seed(seed);
    for (n, v) in outputs() {
        println!("{n} {v:016x}");
    }
}

fn pvw_err(rows: &[Vec<u64>], c: &PvwCiphertext, q: u64) -> Vec<i64> {
    rows.iter()
        .zip(&c.b)
        .map(|(s, b)| {
            let d = s.iter().zip(&c.a).fold(0, |acc, (x, y)| rm::addm(acc, rm::mulm(*x, *y, q), q));
            centered(rm::subm(*b, d, q), q)
        })
        .collect()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct PvwCase {
    n: usize,
    ell: usize,
    m: usize,
    var: usize,
    msg: u64,
}
fn pvw_fresh(ctx: &mut Ctx) {
    let strat = || (6usize..20, prop_oneof![5 => 1usize..=6, 1 => 7usize..=40], 4usize..=11, 1usize..=4, any::<u64>()).prop_map(|(n, ell, m, var, msg)| PvwCase { n, ell, m, var, msg }).boxed();
    ctx.sub("pvw", "PVW keys and ciphertexts over a 61-bit modulus: secret keys and public-key vectors uniform and pairwise different, errors independent per sample and position; each ciphertext is a subset sum of the public key, recovered by search over all subsets, and over repeated encryptions every subset bit is balanced and independent of its neighbours. Non-trivial: two or more positions", 16000, 400000, strat, |c: &PvwCase, o| {
        let q = (1u64 << 61) - 1;
        let p = PvwParams { n: c.n, ell: c.ell, m: c.m, q, variance: c.var };
        o.nt(c.ell > 1);
        let sk = PvwSk::gen_sk(&p);
        let rows = sk.verif_rows();
        let other = PvwSk::gen_sk(&p).verif_rows();
        let flat: Vec<u64> = rows.iter().flatten().chain(other.iter().flatten()).cloned().collect();
        let d: HashSet<u64> = flat.iter().cloned().collect();
        ensure!(d.len() == flat.len(), "secret-key entries repeat");
        let pk = sk.gen_pk(&p);
        let s = pk.verif_samples();
        let s2 = sk.gen_pk(&p).verif_samples();
        let av: Vec<u64> = s.iter().chain(&s2).flat_map(|x| x.a.clone()).collect();
        let d: HashSet<u64> = av.iter().cloned().collect();
        ensure!(d.len() == av.len(), "public-key vector entries repeat");
        ensure!(flat.iter().all(|v| !d.contains(v)), "public key contains secret-key entries");
        let reps = 128;
        let mut counts = vec![0i64; c.m];
        let mut cross = vec![0i64; c.m];
        let mut distinct = HashSet::new();
        let msg: Vec<u64> = (0..c.ell).map(|i| (c.msg >> i) & 1).collect();
        // sums of the first coordinate name the subset (61 bits against at most 2^11 subsets)
        let mut sums = std::collections::HashMap::new();
        for set in 0u32..(1 << c.m) {
            let v = (0..c.m).filter(|i| set >> i & 1 == 1).fold(0, |acc, i| rm::addm(acc, s[i].a[0], q));
            sums.insert(v, set);
        }
        for _ in 0..reps {
            let ct = pk.encrypt(&p, msg.clone());
            let Some(&set) = sums.get(&ct.a[0]) else { return Err("ciphertext is not a subset sum of the public key".into()) };
            for j in 0..c.n {
                let v = (0..c.m).filter(|i| set >> i & 1 == 1).fold(0, |acc, i| rm::addm(acc, s[i].a[j], q));
                ensure!(v == ct.a[j], "coordinate {} of the ciphertext is not the same subset sum", j);
            }
            for l in 0..c.ell {
                let v = (0..c.m).filter(|i| set >> i & 1 == 1).fold(0, |acc, i| rm::addm(acc, s[i].b[l], q));
                ensure!(rm::addm(v, msg[l] * (q / 2), q) == ct.b[l], "position {} of the ciphertext is not the same subset sum plus the message", l);
            }
            distinct.insert(set);
            for i in 0..c.m {
                let bit = |i: usize| if set >> (i % c.m) & 1 == 1 { 1i64 } else { -1 };
                counts[i] += bit(i);
                cross[i] += bit(i) * bit(i + 1);
            }
        }
        for i in 0..c.m {
            // ten standard deviations of 128 signs is 113
            ensure!(counts[i].abs() < 113, "sample {} of the public key is used in {} of {} encryptions", i, (reps + counts[i]) / 2, reps);
            ensure!(cross[i].abs() < 113, "use of samples {} and {} of the public key is correlated", i, (i + 1) % c.m);
        }
        if c.m >= 8 { ensure!(distinct.len() > 40, "only {} different subsets in {} encryptions", distinct.len(), reps); }
        o.n(reps as usize);
        Ok(())
    });

    #[derive(Clone, Debug, Serialize, Deserialize)]
    struct Many { kind: u8, x: u64 }
    let strat = || (0u8..6, any::<u64>()).prop_map(|(kind, x)| Many { kind, x }).boxed();
    ctx.sub("birthday", "300000 outputs of one kind (encryptions, switching-key components, secret keys, PVW secret keys, PVW public keys, PVW ciphertexts' subsets): no two share their randomness, which a generator seeded with 32 bits or less would not survive. Non-trivial: always", 40, 1000, strat, |c: &Many, o| {
        o.nt(true);
        let want = 300_000usize;
        let mut seen: HashSet<u128> = HashSet::with_capacity(want);
        let n = if c.kind == 2 { 64 } else { 8 };
        let p = ParamSpec { n, q: primes(n, &[(60, c.x), (61, c.x)], &[]), t: 257, var: 10 };
        let wide = |a: u64, b: u64| (a as u128) << 64 | b as u128;
        let mut add = |v: u128, o: &mut Obs| { o.n(1); seen.insert(v) };
        let pq = (1u64 << 61) - 1;
        match c.kind {
            0 | 1 => {
                let params = p.params();
                let sk = SecretKey::generate(&params);
                let plain = pt(&params, &[c.x % p.t], 1);
                let one = ntt_poly(&params.q_ctxs[0], &[1]);
                for i in 0..want / if c.kind == 1 { 2 } else { 1 } {
                    let masks = if c.kind == 0 { vec![sk.encrypt(&plain).cts[1].clone()] } else { Ksk::new(&sk, &one, 0, 0).c1 };
                    for a in masks {
                        let a = a.coefficients();
                        ensure!(add(wide(a[[0, 0]], a[[0, 1]]), o), "{} {i} repeats a mask", if c.kind == 0 { "encryption" } else { "switching key" });
                    }
                }
            }
            2 => {
                let params = p.params();
                for i in 0..want { ensure!(add(wide(digest(&SecretKey::generate(&params).coeffs), 0), o), "secret key {i} repeats an earlier one"); }
            }
            3 => {
                let pp = PvwParams { n: 2, ell: 1, m: 1, q: pq, variance: 1 };
                for i in 0..want { let r = PvwSk::gen_sk(&pp).verif_rows(); ensure!(add(wide(r[0][0], r[0][1]), o), "PVW secret key {i} repeats an earlier one"); }
            }
            4 => {
                let pp = PvwParams { n: 2, ell: 1, m: 2, q: pq, variance: 1 };
                let sk = PvwSk::gen_sk(&pp);
                for i in 0..want / 2 { for s in sk.gen_pk(&pp).verif_samples() { ensure!(add(wide(s.a[0], s.a[1]), o), "PVW public key {i} repeats a sample"); } }
            }
            _ => {
                let m = 120;
                let pp = PvwParams { n: 2, ell: 1, m, q: pq, variance: 1 };
                let pk = PvwPk::verif_from_samples((0..m).map(|i| { let mut a = vec![0; 2]; a[i / 60] = 1 << (i % 60); PvwCiphertext { a, b: vec![0] } }).collect());
                for i in 0..want { let ct = pk.encrypt(&pp, vec![1]); ensure!(add(wide(ct.a[0], ct.a[1]), o), "PVW ciphertext {i} repeats a subset"); }
            }
        }
        Ok(())
    });
    #[derive(Clone, Debug, Serialize, Deserialize)]
    struct Wide { m: usize, q: u64, msg: u64 }
    let strat = || {
        (prop_oneof![2 => 64usize..=320, 2 => 320usize..=1500, 1 => 1500usize..=6000, 1 => Just(16000usize)], prop_oneof![Just(65537u64), Just((1 << 61) - 1), Just((1 << 31) - 1)], any::<u64>())
            .prop_map(|(m, q, msg)| Wide { m, q, msg })
            .boxed()
    };
    ctx.sub("pvw_subsets", "public keys of 64..16000 samples whose vectors spell out the subset in binary: the subset is read off each ciphertext; bits are balanced, unrelated to themselves at every distance and to other ciphertexts' subsets, and for up to 320 samples the subsets of as many encryptions (plus 50) span the whole space. Non-trivial: 320 samples or more", 400, 10000, strat, |c: &Wide, o| {
        let per = 63 - c.q.leading_zeros() as usize;
        let n = c.m.div_ceil(per);
        let p = PvwParams { n, ell: 2, m: c.m, q: c.q, variance: 1 };
        o.nt(c.m >= 320);
        let pk = PvwPk::verif_from_samples(
            (0..c.m)
                .map(|i| { let mut a = vec![0; n]; a[i / per] = 1 << (i % per); PvwCiphertext { a, b: vec![1, 0] } })
                .collect(),
        );
        let reps = if c.m <= 320 { c.m + 50 } else if c.m <= 1500 { 4 } else { 2 };
        let msg = vec![c.msg & 1, c.msg >> 1 & 1];
        let words = c.m.div_ceil(64);
        let mut sets: Vec<Vec<u64>> = vec![];
        for _ in 0..reps {
            let ct = pk.encrypt(&p, msg.clone());
            let mut s = vec![0u64; words + 1];
            for (j, v) in ct.a.iter().enumerate() {
                let used = per.min(c.m - j * per);
                ensure!(v >> used == 0, "coordinate {j} of the ciphertext is not a sum over a subset");
                for k in 0..used { if v >> k & 1 == 1 { let i = j * per + k; s[i / 64] |= 1 << (i % 64); } }
            }
            let size: u64 = s.iter().map(|w| w.count_ones() as u64).sum();
            ensure_eq!(ct.b[0], (size + msg[0] * (c.q / 2)) % c.q, "first position of the ciphertext");
            ensure_eq!(ct.b[1], msg[1] * (c.q / 2), "second position of the ciphertext");
            sets.push(s);
        }
        // agreements of len fair independent bits: more than 9 standard deviations off has probability below 1e-18
        let odd = |agree: usize, len: usize| len >= 100 && (2.0 * agree as f64 - len as f64).abs() > 9.0 * (len as f64).sqrt();
        let lag = |a: &[u64], b: &[u64], d: usize| {
            let len = c.m - d;
            let (w, r) = (d / 64, d % 64);
            let mut agree = 0;
            for i in 0..len.div_ceil(64) {
                let lo = b[i + w] >> r;
                let hi = if r > 0 && i + w + 1 < b.len() { b[i + w + 1] << (64 - r) } else { 0 };
                let mut same = !(a[i] ^ (lo | hi));
                let left = len - i * 64;
                if left < 64 { same &= (1 << left) - 1; }
                agree += same.count_ones() as usize;
            }
            (agree, len)
        };
        let few = sets.len().min(4);
        for (i, s) in sets[..few].iter().enumerate() {
            let ones = s.iter().map(|w| w.count_ones() as usize).sum::<usize>();
            ensure!(!odd(ones, c.m), "{ones} of {} samples used", c.m);
            for d in 1..c.m {
                let (a, l) = lag(s, s, d);
                ensure!(!odd(a, l), "the use of a sample and of the one {d} further agree {a} times out of {l}");
            }
            for t in &sets[..i] {
                for d in 0..c.m {
                    let (a, l) = lag(s, t, d);
                    ensure!(!odd(a, l), "two ciphertexts' subsets at distance {d} agree on {a} of {l} samples");
                }
            }
            o.n(c.m);
        }
        if c.m <= 320 {
            // rank over GF(2); below full with probability 2^-50
            let mut rank = 0;
            let mut rows = sets.clone();
            for b in 0..c.m {
                let Some(k) = (rank..rows.len()).find(|k| rows[*k][b / 64] >> (b % 64) & 1 == 1) else { continue };
                rows.swap(rank, k);
                let piv = rows[rank].clone();
                for (r, row) in rows.iter_mut().enumerate() {
                    if r != rank && row[b / 64] >> (b % 64) & 1 == 1 {
                        row.iter_mut().zip(&piv).for_each(|(x, y)| *x ^= y);
                    }
                }
                rank += 1;
            }
            ensure!(rank == c.m, "subsets of {} encryptions span {rank} dimensions of {}", reps, c.m);
        }
        Ok(())
    });

    let strat = || (1usize..=16, prop_oneof![9 => 1usize..=4, 1 => 5usize..=24], any::<u64>()).prop_map(|(var, ell, msg)| PvwCase { n: 2, ell, m: 2500, var, msg }).boxed();
    ctx.sub("pvw_errors", "public keys with 2500 samples: errors follow the centered binomial distribution of the parameters' variance in every position, unrelated between positions. Non-trivial: two or more positions", 6000, 150000, strat, |c: &PvwCase, o| {
        let q = (1u64 << 60) - 93;
        let p = PvwParams { n: c.n, ell: c.ell, m: c.m, q, variance: c.var };
        let sk = PvwSk::gen_sk(&p);
        let rows = sk.verif_rows();
        let errs: Vec<Vec<i64>> = sk.gen_pk(&p).verif_samples().iter().map(|s| pvw_err(&rows, s, q)).collect();
        o.nt(c.ell > 1);
        for l in 0..c.ell {
            let v: Vec<i64> = errs.iter().map(|e| e[l]).collect();
            stats::cbd(&v, c.var, &format!("public-key errors at position {l}"))?;
            o.n(v.len());
            for k in 0..l {
                let s: i64 = errs.iter().map(|e| e[l] * e[k]).sum();
                stats::near_zero(s as f64, c.m, (c.var * c.var) as f64, "correlation of errors between positions")?;
            }
        }
        Ok(())
    });
}
