//! C01 retrieval, C02 oblivious expansion, C03 query encoding.
use crate::fw::*;
use crate::gen::*;
use crate::refmath as rm;
use onion_pir::verif::bfv::*;
use onion_pir::verif::evaluations::*;
use onion_pir::verif::rq::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::sync::Arc;

// ---- worst-case noise, log2 ----

/// noise of every output of the expansion
fn expand_noise(p: &ParamSpec) -> f64 {
    ladd(p.fresh(), p.nf().log2() + p.ks(0)) + 0.5
}
fn retrieval_noise(p: &ParamSpec, first_dim: usize, dim: usize, k: usize) -> f64 {
    let r = expand_noise(p);
    let mut noise = (first_dim as f64).log2() + p.mul_small(r, p.t as f64);
    let unit = p.ks(0) - p.b().log2(); // N * moduli * qmax
    // rows of the assembled RGSW ciphertexts
    let upper = ladd(p.ks(0) + 1.0, p.nf().log2() + p.b().log2() + r) + 0.5;
    for _ in 0..k {
        let e = (dim as f64).log2() + unit + 1.0 + upper;
        noise = ladd(noise, e);
    }
    noise + 1.0
}

/// marks a pick that names a position outright
const POSITION: u64 = 3 << 62;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct PirCase {
    p: ParamSpec,
    sk: SkSpec,
    first_dim: usize,
    dim: usize,
    k: usize,
    simd: bool,
    /// database content: record i is `content` shifted by i
    content: PolySpec,
    /// 0: all records different everywhere, 1: equal except the queried ones, 2: each different in one coefficient only
    marked: u8,
    /// client and server built their (equal) parameter sets independently
    split: bool,
    picks: Vec<u64>,
}

fn shape() -> BoxedStrategy<(usize, usize, usize)> {
    // first_dim, dim, further dimensions; bounded database size and query length
    (
        1usize..=12,
        prop_oneof![3 => Just(2usize), 3 => Just(3usize), 2 => Just(4usize), 2 => Just(5usize), 1 => Just(6usize), 1 => Just(7usize), 1 => 8usize..=11],
        prop_oneof![1 => Just(0usize), 4 => Just(1usize), 5 => Just(2usize), 3 => Just(3usize), 1 => Just(4usize)],
    )
        .prop_map(|(mut f, d, mut k)| {
            while d.pow(k as u32) > 64 {
                k -= 1;
            }
            while f > 1 && f * d.pow(k as u32) > 160 {
                f -= 1;
            }
            (f, d, k)
        })
        .boxed()
}

fn pir_case() -> BoxedStrategy<PirCase> {
    (
        raw_params(6, 2, 4),
        sk(),
        shape(),
        any::<bool>(),
        poly(),
        (0u8..3, any::<bool>()),
        vec(any::<u64>(), 1..=3),
    )
        .prop_map(|(mut raw, sk, (first_dim, dim, k), simd, content, (marked, split), picks)| {
            while first_dim + dim * k > 1usize << raw.logn {
                raw.logn += 1;
            }
            raw.logn = raw.logn.min(6);
            // moduli of very different sizes only cost time here
            raw.sizes.iter_mut().for_each(|s| s.0 = s.0.max(30));
            let p = raw.fit(|s| retrieval_noise(s, first_dim, dim, k) < s.limit(0));
            PirCase { p, sk, first_dim, dim, k, simd, content, marked, split, picks }
        })
        .boxed()
}

fn record(c: &PirCase, i: usize, hot: &[usize]) -> Vec<u64> {
    let base = c.content.raw(c.p.n);
    if c.marked == 2 {
        let mut v: Vec<u64> = base.iter().map(|r| edge(*r, c.p.t)).collect();
        let (j, n) = ((mix(c.content.raw(1)[0]) as usize).wrapping_add(i), c.p.n);
        v[j % n] = rm::addm(v[j % n], 1 + (i / n) as u64 % (c.p.t - 1), c.p.t);
        return v;
    }
    if c.marked == 1 && !hot.contains(&i) {
        return base.iter().map(|r| edge(*r, c.p.t)).collect();
    }
    base.iter()
        .enumerate()
        .map(|(j, r)| rm::addm(edge(*r, c.p.t), mix((i as u64) << 20 | j as u64) % c.p.t, c.p.t))
        .collect()
}

pub fn retrieval(ctx: &mut Ctx) {
    let test = |c: &PirCase, o: &mut Obs| -> Res {
        let params = c.p.params();
        let rows = c.first_dim * c.dim.pow(c.k as u32);
        let idx: Vec<usize> = c.picks.iter().map(|r| if r >> 62 == POSITION >> 62 { (*r as u32) as usize % rows } else { edge(*r, rows as u64) as usize }).collect();
        o.nt(c.k >= 1 && rows >= 4);
        o.label(format!("further dims {}", c.k));
        o.label(format!("dim {}", c.dim));
        o.label(if c.simd { "SIMD records" } else { "coefficient records" });
        let sk = c.sk.make(&c.p);
        let enc = || if c.simd { Encoding::SIMD } else { Encoding::Poly };
        let recs: Vec<Vec<u64>> = (0..rows).map(|i| record(c, i, &idx)).collect();
        let server_params = if c.split { c.p.params_again() } else { params.clone() };
        let db: Vec<Plaintext> = recs.iter().map(|r| Plaintext::new(&server_params, r, 0, enc())).collect();
        let server = PirServer::new(c.first_dim, c.dim, &db, &server_params);
        let keys = PirEvaluation::build(&sk, &params);
        let client = PirClient::new(c.first_dim, c.dim);
        let q0 = params.q_ctxs[0].clone();
        for &i in &idx {
            let mut dims = vec![i % c.first_dim];
            let mut r = i / c.first_dim;
            for _ in 0..c.k {
                dims.push(r % c.dim);
                r /= c.dim;
            }
            let q = client.encode(dims.clone(), rows, &params, &sk);
            // the query: the whole selection vector under the plaintext encoding, then the
            // further-dimension selectors times each gadget element
            let mut cts = vec![sk.encrypt(&pt(&params, &q, 0))];
            let tail = ntt_poly(&q0, &q[c.first_dim..]);
            for g in q0.rns.garner.iter() {
                cts.push(sk.encrypt_poly(&(&tail * g)));
            }
            let out = server.decode(cts, &keys, &server_params);
            ensure_eq!(out.len(), 1, "number of response ciphertexts (first_dim {}, dim {}, further dims {})", c.first_dim, c.dim, c.k);
            well_formed(&out[0], &c.p, 2, 0)?;
            let mut d = sk.decrypt(&out[0]);
            d.set_encoding(enc());
            ensure!(d.decode() == recs[i], "record {} (position {:?}) of {} came back wrong: {:?} instead of {:?}; N={} t={} moduli {:?}", i, dims, rows, &d.decode()[..4], &recs[i][..4], c.p.n, c.p.t, c.p.q);
            o.n(c.p.n);
        }
        Ok(())
    };
    ctx.sub("retrieval", "hypercubes first_dim (1..12) x dim (2..11) ^ 0..4, databases of 1..160 full-degree records (all different, equal except the queried one, or different in a single coefficient), any position, 1..3 queries per key set, client and server sharing one parameter object or holding equal ones of their own, N = 8..64, moduli sets sized by a worst-case noise bound: response decrypts to exactly the addressed record. Non-trivial: at least one further dimension and 4 or more records", 1200, 30000, pir_case, test);
    // larger degrees and databases
    let strat = || {
        (pir_case(), 16usize..=96, 7u32..=9, any::<u64>(), prop_oneof![4 => 2usize..=8, 1 => 9usize..=40])
            .prop_map(|(mut c, first, logn, r, dim)| {
                c.first_dim = first;
                c.dim = dim;
                c.k = 1 + (r % 3) as usize;
                while c.dim.pow(c.k as u32) > 250 { c.k -= 1; }
                while c.first_dim > 1 && c.first_dim * c.dim.pow(c.k as u32) > 700 { c.first_dim -= 1; }
                let l = if r % 16 == 0 { logn } else if r % 16 < 4 { 8 } else { 7 };
                let raw = RawParams { logn: l, sizes: c.p.q.iter().map(|q| (q.ilog2().max(40) + 1, mix(*q))).collect(), t: (c.p.t.ilog2(), c.p.t), var: c.p.var };
                let (first_dim, dim, k) = (c.first_dim, c.dim, c.k);
                c.p = raw.fit(|s| retrieval_noise(s, first_dim, dim, k) < s.limit(0));
                c.picks.truncate(2);
                c
            })
            .boxed()
    };
    ctx.sub("large", "N = 128..512, first dimension up to 96, further dimensions of 2..40, up to 700 records. Non-trivial: at least one further dimension", 40, 1000, strat, test);
    // first dimensions as wide as in practice
    let strat = || {
        (pir_case(), 97usize..=480, 2usize..=5, 0usize..=2)
            .prop_map(|(mut c, first, dim, k)| {
                (c.first_dim, c.dim, c.k) = (first, dim, k);
                let logn = (first + dim * k).next_power_of_two().ilog2();
                let raw = RawParams { logn, sizes: c.p.q.iter().take(2).map(|q| (q.ilog2().max(40) + 1, mix(*q))).collect(), t: (c.p.t.ilog2(), c.p.t), var: c.p.var };
                c.p = raw.fit(|s| retrieval_noise(s, first, dim, k) < s.limit(0));
                c.picks.truncate(1);
                c
            })
            .boxed()
    };
    ctx.sub("wide_first", "first dimension 97..480, N = 128..512, up to two further dimensions of 2..5. Non-trivial: at least one further dimension", 24, 600, strat, test);
    // every coordinate of every dimension
    let strat = || {
        (pir_case(), 1usize..=40, prop_oneof![1 => 2usize..=8, 3 => 9usize..=40], any::<u64>())
            .prop_map(|(mut c, first, dim, r)| {
                (c.first_dim, c.dim, c.k) = (first, dim, 1 + (r % 3) as usize);
                while c.k > 1 && c.dim.pow(c.k as u32) > 400 { c.k -= 1; }
                while c.first_dim > 1 && c.first_dim * c.dim.pow(c.k as u32) > 400 { c.first_dim -= 1; }
                let logn = (c.first_dim + c.dim * c.k).next_power_of_two().ilog2().max(5);
                let raw = RawParams { logn, sizes: c.p.q.iter().take(3).map(|q| (q.ilog2().max(40) + 1, mix(*q))).collect(), t: (c.p.t.ilog2(), c.p.t), var: c.p.var };
                let (first_dim, dim, k) = (c.first_dim, c.dim, c.k);
                c.p = raw.fit(|s| retrieval_noise(s, first_dim, dim, k) < s.limit(0));
                // position number j has the coordinates j + shift, each modulo its dimension
                c.picks = (0..first_dim.max(dim))
                    .map(|j| {
                        let (mut at, mut scale) = (j % first_dim, first_dim);
                        for i in 0..k {
                            at += scale * ((j + (mix(r ^ i as u64) % dim as u64) as usize) % dim);
                            scale *= dim;
                        }
                        POSITION | at as u64
                    })
                    .collect();
                c.marked &= 2;
                c
            })
            .boxed()
    };
    ctx.sub("every_coordinate", "dimensions of up to 40, up to 400 records: queries that together use every coordinate of every dimension, one key set. Non-trivial: at least one further dimension", 48, 1200, strat, test);
    // every position of a small database
    let strat = || {
        (pir_case(), any::<bool>())
            .prop_map(|(mut c, _)| {
                while c.first_dim * c.dim.pow(c.k as u32) > 24 {
                    if c.first_dim > 2 { c.first_dim -= 1 } else if c.dim > 3 { c.dim -= 1 } else { c.k -= 1 }
                }
                let rows = c.first_dim * c.dim.pow(c.k as u32);
                // raw words that edge() maps to 0..15 and from the top: all positions
                c.picks = (0..rows).map(|i| if i < 16 { i as u64 } else { (1 << 61) | (rows - 1 - i) as u64 }).collect();
                c.marked &= 2;
                c
            })
            .boxed()
    };
    ctx.sub("every_position", "databases of up to 24 records, every position queried with one key set, all answers right. Non-trivial: at least one further dimension", 120, 3000, strat, test);
}

// ---------------------------------------------------------------- C02

#[derive(Clone, Debug, Serialize, Deserialize)]
struct ExpandCase {
    p: ParamSpec,
    sk: SkSpec,
    m: PolySpec,
    raw: bool,
}

pub fn expansion(ctx: &mut Ctx) {
    let strat = || {
        (raw_params(11, 2, 5), sk(), poly(), any::<bool>())
            .prop_map(|(mut r, sk, m, raw)| {
                r.sizes.iter_mut().for_each(|s| s.0 = s.0.max(20));
                let p = r.fit(|s| expand_noise(s) < s.limit(0));
                ExpandCase { p, sk, m, raw }
            })
            .boxed()
    };
    ctx.sub("expansion", "N = 8..2048, 2..5 moduli, any plaintext polynomial (or any raw ring element, as the gadget-scaled query parts are): N ciphertexts, the i-th encrypting the constant coefficient i, within the worst-case noise. Non-trivial: message has two or more distinct coefficients", 2400, 60000, strat, |c: &ExpandCase, o| {
        let params = c.p.params();
        let sk = c.sk.make(&c.p);
        let keys = PirEvaluation::build(&sk, &params);
        let n = c.p.n;
        o.label(format!("N={}", n));
        let s: Vec<i64> = sk.coeffs.to_vec();
        if c.raw {
            o.label("raw");
            let q0 = params.q_ctxs[0].clone();
            let rows = c.m.rows(n, &c.p.q);
            let crt = rm::Crt::new(&c.p.q);
            o.nt(rows[0].iter().any(|v| *v != rows[0][0]));
            let ct = sk.encrypt_poly(&poly_from_rows(&q0, &rows, Representation::Ntt));
            let out = keys.unpack(ct);
            ensure_eq!(out.len(), n, "number of expanded ciphertexts");
            let bound = expand_noise(&c.p);
            for i in picked(n) {
                well_formed(&out[i], &c.p, 2, 0)?;
                let mut ph = phase_rows(&out[i].cts, &s);
                for (k, row) in ph.iter_mut().enumerate() {
                    row[0] = rm::subm(row[0], rows[k][i], c.p.q[k]);
                }
                let e = rm::max_abs(&crt.center_rows(&ph));
                ensure!(rm::log2_big(&e) <= bound, "expanded ciphertext {} of {}: deviation from coefficient {} is {} bits, bound {:.1} (N={}, moduli {:?})", i, n, i, e.bits(), bound, n, c.p.q);
                o.n(n);
            }
        } else {
            let m = c.m.coeffs(n, c.p.t);
            o.nt(m.iter().any(|v| *v != m[0]));
            let out = keys.unpack(sk.encrypt(&pt(&params, &m, 0)));
            ensure_eq!(out.len(), n, "number of expanded ciphertexts");
            for i in 0..n {
                well_formed(&out[i], &c.p, 2, 0)?;
                let mut want = vec![0u64; n];
                want[0] = m[i];
                ensure!(dec(&sk, &out[i]) == want, "expanded ciphertext {} of {} does not encrypt the constant {} (N={}, t={}, moduli {:?})", i, n, m[i], n, c.p.t, c.p.q);
                o.n(n);
            }
        }
        Ok(())
    });
}
fn picked(n: usize) -> Vec<usize> {
    if n <= 32 {
        (0..n).collect()
    } else {
        let mut v: Vec<usize> = (0..24).map(|i| (mix(i as u64 ^ n as u64) % n as u64) as usize).collect();
        v.extend([0, 1, n / 2, n - 1]);
        v
    }
}

// ---------------------------------------------------------------- C03

#[derive(Clone, Debug, Serialize, Deserialize)]
struct EncCase {
    first_dim: usize,
    dim: usize,
    pos: Vec<u64>,
    bad: u64,
    over: u64,
}
fn small() -> (ParamSpec, Arc<BfvParameters>) {
    let p = ParamSpec { n: 8, q: primes(8, &[(50, 1), (50, 2)], &[]), t: 1153, var: 10 };
    let params = p.params();
    (p, params)
}

pub fn encoding(ctx: &mut Ctx) {
    let strat = || {
        (
            prop_oneof![3 => 1usize..=16, 1 => 17usize..=700],
            prop_oneof![4 => 2usize..=9, 1 => 10usize..=300],
            vec(any::<u64>(), 1..=7),
            any::<u64>(),
            any::<u64>(),
        )
            .prop_map(|(first_dim, dim, mut pos, bad, over)| {
                while (first_dim as u128) * (dim as u128).pow(pos.len() as u32 - 1) > 1 << 40 {
                    pos.pop();
                }
                EncCase { first_dim, dim, pos, bad, over }
            })
            .boxed()
    };
    ctx.sub("encoding", "first_dim 1..700, dim 2..300, up to 6 further dimensions, every coordinate incl. the extremes: the selection vector is exactly the concatenation of one-hot vectors; out-of-range coordinates and a database of another size are refused. Non-trivial: at least one further dimension", 60000, 1500000, strat, |c: &EncCase, o| {
        let (p, params) = small();
        let sk = SkSpec::Chosen(PolySpec { head: vec![1], fill: Fill::Zero }).make(&p);
        let client = PirClient::new(c.first_dim, c.dim);
        let k = c.pos.len() - 1;
        let rows = c.first_dim * c.dim.pow(k as u32);
        let size = |i: usize| if i == 0 { c.first_dim } else { c.dim };
        let dims: Vec<usize> = c.pos.iter().enumerate().map(|(i, r)| edge(*r, size(i) as u64) as usize).collect();
        o.nt(k >= 1);
        o.label(format!("further dims {}", k));
        let v = client.encode(dims.clone(), rows, &params, &sk);
        let mut want = vec![];
        for (i, d) in dims.iter().enumerate() {
            want.extend((0..size(i)).map(|j| (j == *d) as u64));
        }
        ensure!(v == want, "selection vector for {:?} (first_dim {}, dim {}) is {:?}", dims, c.first_dim, c.dim, v);
        o.n(want.len());
        // refusals
        let b = (c.bad % (k as u64 + 1)) as usize;
        let mut wrong = dims.clone();
        wrong[b] = size(b) + edge(c.over, 5) as usize;
        ensure!(refuses(|| client.encode(wrong.clone(), rows, &params, &sk)), "out-of-range position {:?} accepted (first_dim {}, dim {})", wrong, c.first_dim, c.dim);
        for r in [rows * c.dim, rows / c.dim, rows + 1 + (c.over % (rows as u64 * 2)) as usize, rows - 1 - (c.over % rows as u64) as usize] {
            ensure!(refuses(|| client.encode(dims.clone(), r, &params, &sk)), "position {:?} accepted for a database of {} rows (first_dim {}, dim {})", dims, r, c.first_dim, c.dim);
        }
        Ok(())
    });
}
