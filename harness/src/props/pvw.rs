//! C16 PVW encryption (oblivious message retrieval).
use crate::fw::*;
use crate::gen::*;
use crate::refmath as rm;
use onion_pir::verif::pvw::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Spec {
    n: usize,
    ell: usize,
    m: usize,
    q: u64,
    var: usize,
}
impl Spec {
    fn params(&self) -> PvwParams {
        PvwParams { n: self.n, ell: self.ell, m: self.m, q: self.q, variance: self.var }
    }
    /// largest accumulated error of an encryption
    fn worst(&self) -> u64 {
        self.m as u64 * 2 * self.var as u64
    }
}
fn modulus_from(kind: u8, raw: u64, least: u64) -> u64 {
    let top = (1u64 << 62) - 1;
    let q = match kind % 6 {
        0 => 65537,
        1 => least + raw % 4,
        2 => least + raw % (least + 64),
        3 => (1u64 << (least.ilog2() as u64 + 1 + raw % (61 - least.ilog2() as u64))) - 1 + (raw >> 20) % 3,
        4 => top - raw % 64,
        _ => least + mix(raw) % (top - least),
    };
    q.max(least).max(17)
}
fn spec() -> BoxedStrategy<Spec> {
    let shape = prop_oneof![
        150 => (1usize..40, 1usize..9, 1usize..40),
        50 => (1usize..40, 1usize..9, 40usize..300),
        // one of the three far larger than usual
        4 => (1usize..12, 9usize..=150, 1usize..20),
        4 => (40usize..=900, 1usize..4, 1usize..20),
        1 => (1usize..4, 1usize..3, 300usize..=40000),
    ];
    (shape, 1usize..=16, any::<u8>(), any::<u64>())
        .prop_map(|((n, ell, m), var, kind, raw)| {
            let least = 4 * (m as u64 * 2 * var as u64 + 2) + 4;
            Spec { n, ell, m, var, q: modulus_from(kind, raw, least) }
        })
        .boxed()
}
fn dot(s: &[u64], a: &[u64], q: u64) -> u64 {
    s.iter().zip(a).fold(0, |acc, (x, y)| rm::addm(acc, rm::mulm(*x, *y, q), q))
}
fn centered(v: u64, q: u64) -> i64 {
    if v > q / 2 { -((q - v) as i64) } else { v as i64 }
}
fn bits(raw: &[u64], len: usize) -> Vec<u64> {
    (0..len).map(|i| (raw[i % raw.len()] >> (i % 61)) & 1).collect()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    s: Spec,
    msg: Vec<u64>,
    short: Option<usize>,
    key: Option<PolySpec>,
    err: PolySpec,
}
fn case() -> BoxedStrategy<Case> {
    (spec(), vec(any::<u64>(), 1..4), proptest::option::weighted(0.3, 0usize..9), proptest::option::weighted(0.4, poly()), poly())
        .prop_map(|(s, msg, short, key, err)| Case { s, msg, short, key, err })
        .boxed()
}
impl Case {
    fn key(&self, p: &PvwParams) -> PvwSk {
        match &self.key {
            None => PvwSk::gen_sk(p),
            Some(ps) => PvwSk::verif_from_rows(
                ps.coeffs(p.n * p.ell, p.q).chunks(p.n).map(|c| c.to_vec()).collect(),
            ),
        }
    }
    fn info(&self) -> String {
        format!("{:?}", self.s)
    }
}

fn key_shape(sk: &PvwSk, s: &Spec) -> Res {
    let rows = sk.verif_rows();
    ensure_eq!(rows.len(), s.ell, "secret vectors in the key, {:?}", s);
    ensure!(rows.iter().all(|r| r.len() == s.n && r.iter().all(|v| *v < s.q)), "secret vector malformed, {:?}", s);
    Ok(())
}
fn ct_shape(ct: &PvwCiphertext, s: &Spec) -> Res {
    ensure!(ct.a.len() == s.n && ct.b.len() == s.ell, "ciphertext has the wrong length, {:?}", s);
    ensure!(ct.a.iter().chain(ct.b.iter()).all(|v| *v < s.q), "ciphertext entry not reduced, {:?}", s);
    Ok(())
}

pub fn pvw(ctx: &mut Ctx) {
    ctx.sub("round_trip", "generated n (to 900), ell (to 150), m (to 40000), q, variance with m*2*variance below q/4 and generated bit vectors: decryption under the matching key returns the bits, missing positions as 0; key, public key and ciphertext have the declared shape; every public-key sample is an LWE sample of the key with error at most 2*variance; a second encryption of another message under the same key does not disturb the first. Non-trivial: at least two message positions and not all bits equal", 60000, 1500000, case, |c: &Case, o| {
        let (s, p) = (&c.s, c.s.params());
        let sk = c.key(&p);
        key_shape(&sk, s)?;
        let pk = sk.gen_pk(&p);
        let rows = sk.verif_rows();
        let samples = pk.verif_samples();
        ensure_eq!(samples.len(), s.m, "samples in the public key");
        for ct in &samples {
            ct_shape(ct, s)?;
            for l in 0..s.ell {
                let e = centered(rm::subm(ct.b[l], dot(&rows[l], &ct.a, s.q), s.q), s.q);
                ensure!(e.unsigned_abs() <= 2 * s.var as u64, "public-key sample has error {} at position {}, {}", e, l, c.info());
            }
        }
        let mut msgs = vec![];
        for k in 0..3u64 {
            let full = bits(&c.msg.iter().map(|w| if k == 1 { !w } else { mix(w ^ k) }).collect::<Vec<_>>(), s.ell);
            let len = c.short.unwrap_or(s.ell).min(s.ell);
            let m = full[..len].to_vec();
            let mut want = m.clone();
            want.resize(s.ell, 0);
            let ct = pk.encrypt(&p, m);
            ct_shape(&ct, s)?;
            for l in 0..s.ell {
                let ph = rm::subm(ct.b[l], dot(&rows[l], &ct.a, s.q), s.q);
                let e = centered(rm::subm(ph, want[l] * (s.q / 2), s.q), s.q);
                ensure!(e.unsigned_abs() <= s.worst(), "encryption carries error {} at position {}, {}", e, l, c.info());
            }
            msgs.push((ct, want));
        }
        for (ct, want) in &msgs {
            let got = sk.decrypt(&p, ct);
            ensure_eq!(got, *want, "decrypted bits, {}", c.info());
            o.n(s.ell);
            o.nt(s.ell > 1 && want.iter().any(|b| *b == 0) && want.iter().any(|b| *b == 1));
        }
        o.label(if s.q % 2 == 0 { "even q" } else { "odd q" });
        o.label(match s.q.ilog2() { 0..=15 => "q < 2^16", 16..=30 => "q < 2^31", _ => "q >= 2^31" });
        o.label(if c.key.is_some() { "chosen key" } else { "generated key" });
        if c.short.map_or(false, |l| l < s.ell) { o.label("short message"); }
        Ok(())
    });

    ctx.sub("noise_margin", "crafted ciphertexts <s,a> + m*floor(q/2) + e with errors up to q/4 - 1 in either direction, many of them at the very edge: decryption returns m. Non-trivial: some error beyond q/5", 160000, 4000000, case, |c: &Case, o| {
        let (s, p) = (&c.s, c.s.params());
        let sk = c.key(&p);
        let rows = sk.verif_rows();
        let a: Vec<u64> = (0..s.n).map(|i| edge(mix(c.msg[0] ^ i as u64), s.q)).collect();
        let bound = s.q / 4 - 1;
        let m = bits(&c.msg, s.ell);
        let mut far = false;
        let err = c.err.raw(s.ell);
        let b = (0..s.ell).map(|l| {
            let r = err[l];
            let e = edge(r, 2 * bound + 1); // 0..=2 bound, boundary heavy
            let (neg, mag) = if e > bound { (true, e - bound) } else { (false, e) };
            far |= mag > s.q / 5;
            let base = rm::addm(dot(&rows[l], &a, s.q), m[l] * (s.q / 2), s.q);
            if neg { rm::subm(base, mag, s.q) } else { rm::addm(base, mag, s.q) }
        }).collect();
        o.nt(far);
        o.n(s.ell);
        ensure_eq!(sk.decrypt(&p, &PvwCiphertext { a, b }), m, "decrypted bits with errors up to {}, {}", bound, c.info());
        Ok(())
    });

    ctx.sub("default_parameters", "the default parameter set, generated messages: decryption returns the bits and the accumulated error stays far below q/4. Non-trivial: not all bits equal", 24, 600, || vec(any::<u64>(), 1..3).boxed(), |w: &Vec<u64>, o| {
        let p = PvwParams::default();
        let s = Spec { n: p.n, ell: p.ell, m: p.m, q: p.q, var: p.variance };
        let sk = PvwSk::gen_sk(&p);
        key_shape(&sk, &s)?;
        let pk = sk.gen_pk(&p);
        let rows = sk.verif_rows();
        for k in 0..16u64 {
            let m: Vec<u64> = (0..s.ell).map(|i| (k >> i) & 1 ^ (w[0] >> i) & 1).collect();
            let ct = pk.encrypt(&p, m.clone());
            ct_shape(&ct, &s)?;
            for l in 0..s.ell {
                let ph = rm::subm(ct.b[l], dot(&rows[l], &ct.a, s.q), s.q);
                let e = centered(rm::subm(ph, m[l] * (s.q / 2), s.q), s.q);
                ensure!(e.unsigned_abs() < 2000, "accumulated error {} with the default parameters", e);
            }
            o.nt(m.contains(&0) && m.contains(&1));
            o.n(s.ell);
            ensure_eq!(sk.decrypt(&p, &ct), m, "decrypted bits with the default parameters");
        }
        Ok(())
    });
}
