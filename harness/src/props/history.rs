//! C24: results depend on nothing but the operands. Every session runs in a process of its own and is
//! compared with processes that have done nothing but one of its operations.
use crate::fw::*;
use crate::gen::*;
use crate::refmath as rm;
use num_bigint::BigUint;
use onion_pir::verif::bfv::*;
use onion_pir::verif::evaluations::*;
use onion_pir::verif::ksk::Ksk;
use onion_pir::verif::modulus::Modulus;
use onion_pir::verif::ntt::NttOperator;
use onion_pir::verif::omr::inner_product;
use onion_pir::verif::pvw::*;
use onion_pir::verif::rgsw::RgswCt;
use onion_pir::verif::rns::ScalingFactor;
use onion_pir::verif::rq::*;
use onion_pir::verif::utils::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::process::{Command, Stdio};
use std::sync::Arc;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Setup {
    p: ParamSpec,
    level: usize,
    exp: usize,
    a: PolySpec,
    b: PolySpec,
    key: u64,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Session {
    setups: Vec<Setup>,
    /// (set-up, operation, argument)
    ops: Vec<(u8, u8, u64)>,
}
/// what a child process is asked to do
#[derive(Serialize, Deserialize)]
struct Job {
    s: Session,
    /// None: the whole session; Some(i): only operation i
    only: Option<usize>,
}

// ---- digests: every residue, level and shape ----

struct D(std::collections::hash_map::DefaultHasher);
impl D {
    fn new() -> D {
        D(Default::default())
    }
    fn p(mut self, p: &Poly) -> D {
        p.context.moduli_64.hash(&mut self.0);
        p.context.degree.hash(&mut self.0);
        format!("{:?}", p.representation).hash(&mut self.0);
        for c in p.coefficients().iter() {
            c.hash(&mut self.0);
        }
        self
    }
    fn ct(mut self, c: &BfvCipherText) -> D {
        (c.level, c.cts.len()).hash(&mut self.0);
        for p in &c.cts {
            self = self.p(p);
        }
        self
    }
    fn h<T: Hash>(mut self, t: T) -> D {
        t.hash(&mut self.0);
        self
    }
    fn end(self) -> u64 {
        self.0.finish()
    }
}

struct World {
    spec: Setup,
    params: Arc<BfvParameters>,
    sk: SecretKey,
    x: BfvCipherText,
    y: BfvCipherText,
    m: Plaintext,
    pa: Poly,
    pb: Poly,
    ksk: Option<Ksk>,
    rlk: Option<RelinearizationKey>,
    gk: Option<GaliosKey>,
    rgsw: Option<RgswCt>,
    eval: Option<PirEvaluation>,
    query: Vec<BfvCipherText>,
    server: Option<PirServer>,
    pp: PvwParams,
    pvw_sk: PvwSk,
    pvw_ct: PvwCiphertext,
}

/// The objects of one set-up, from entropy of their own.
fn build(s: &Setup, salt: u64) -> World {
    let s = s.clone();
    std::thread::spawn(move || {
        getrandom::verif_seed(mix(s.key ^ salt));
        let (n, t, l) = (s.p.n, s.p.t, s.level);
        let params = Arc::new(BfvParameters::new(n, t, s.p.q.clone(), s.p.var, bd()));
        let ctx = params.q_ctxs[l].clone();
        let sk = SecretKey::generate(&params);
        let m = pt(&params, &s.b.coeffs(n, t), l);
        let x = sk.encrypt(&pt(&params, &s.a.coeffs(n, t), l));
        let y = sk.encrypt(&m);
        let pa = poly_from_rows(&ctx, &s.a.rows(n, s.p.q_at(l)), Representation::PowerBasis);
        let pb = poly_from_rows(&ctx, &s.b.rows(n, s.p.q_at(l)), Representation::Ntt);
        let keys = s.p.q_at(l).len() >= 2;
        let sub = Substitution::new(&ctx, s.exp);
        let ksk = keys.then(|| Ksk::new(&sk, &pb, l, l));
        let rlk = keys.then(|| RelinearizationKey::new(&sk, l));
        let gk = keys.then(|| GaliosKey::new(&sk, &sub, l));
        let rgsw = keys.then(|| RgswCt::encrypt(&sk, &m));
        // a small database: first dimension 2, one further dimension of 2
        let pir = s.p.q.len() >= 2 && s.p.q.len() <= 4 && n <= 32;
        let (mut eval, mut query, mut server) = (None, vec![], None);
        if pir {
            eval = Some(PirEvaluation::build(&sk, &params));
            let sel = [0u64, 1, 1, 0];
            let top = &params.q_ctxs[0];
            query.push(sk.encrypt(&pt(&params, &sel, 0)));
            for g in &top.rns.garner {
                let mut v = vec![0u64; n];
                v[..2].copy_from_slice(&sel[2..]);
                query.push(sk.encrypt_poly(&(&ntt_poly(top, &v) * g)));
            }
            let db: Vec<Plaintext> = (0..4u64).map(|i| pt(&params, &(0..n as u64).map(|j| mix(i << 32 | j ^ s.key) % t).collect::<Vec<_>>(), 0)).collect();
            server = Some(PirServer::new(2, 2, &db, &params));
        }
        let pp = PvwParams { n: 3 + (s.key % 9) as usize, ell: 1 + (s.key >> 8) as usize % 6, m: 20, q: s.p.q[0].max(65537), variance: s.p.var };
        let pvw_sk = PvwSk::gen_sk(&pp);
        let pvw_ct = pvw_sk.gen_pk(&pp).encrypt(&pp, vec![1; pp.ell]);
        World { spec: s, params, sk, x, y, m, pa, pb, ksk, rlk, gk, rgsw, eval, query, server, pp, pvw_sk, pvw_ct }
    })
    .join()
    .expect("set-up")
}
impl World {
    fn digest(&self) -> u64 {
        let mut d = D::new().ct(&self.x).ct(&self.y).p(&self.pa).p(&self.pb).h(&self.m.values).h(&self.sk.coeffs).h((&self.pvw_ct.a, &self.pvw_ct.b));
        if let Some(k) = &self.ksk {
            for p in k.c0.iter().chain(&k.c1) {
                d = d.p(p);
            }
        }
        for c in &self.query {
            d = d.ct(c);
        }
        let p = &self.params;
        d = d.h((&p.q_mod_ts, &p.matrix_reps_index_map, &p.ciphertext_moduli, p.plaintext_modulus_u64, p.degree));
        for q in &p.delta_ts {
            d = d.p(q);
        }
        d.end()
    }
}
const OPS: u8 = 26;
fn name(op: u8) -> &'static str {
    ["transform", "ring product", "ring sums", "automorphism", "modulus switch", "scaling", "lift", "ciphertext sums", "plaintext product", "ciphertext product", "relinearised product", "Galois key", "external product", "key switch", "decryption", "noise", "SIMD", "ciphertext modulus switch", "primes", "expansion", "retrieval", "PVW", "seeded polynomial", "modulus", "parameters", "transform of another length"][op as usize]
}
fn ntt(p: &Poly) -> Poly {
    let mut p = p.clone();
    p.change_representation(Representation::Ntt);
    p
}
/// One deterministic operation.
fn eval(w: &World, op: u8, arg: u64) -> u64 {
    let s = &w.spec;
    let (n, l) = (s.p.n, s.level);
    let params = &w.params;
    let d = D::new();
    match op {
        0 => {
            let mut p = w.pa.clone();
            p.change_representation(Representation::Ntt);
            let d = d.p(&p);
            p.change_representation(Representation::PowerBasis);
            d.p(&p).p(&{ let mut q = w.pb.clone(); q.change_representation(Representation::PowerBasis); q }).end()
        }
        1 => d.p(&(&ntt(&w.pa) * &w.pb)).p(&(&w.pb * &BigUint::from(arg))).end(),
        2 => {
            let d = d.p(&(&ntt(&w.pa) + &w.pb)).p(&(&w.pb - &ntt(&w.pa))).p(&-&w.pa);
            // inverses exist where no residue is zero
            if w.pb.coefficients().iter().all(|c| *c != 0) { d.p(&w.pb.inverse()).end() } else { d.end() }
        }
        3 => {
            let sub = Substitution::new(&w.pa.context, arg as usize % (4 * n) | 1);
            d.p(&w.pa.substitute(&sub)).p(&w.pb.substitute(&sub)).end()
        }
        4 => {
            let mut p = w.pa.clone();
            let to = l + arg as usize % (s.p.q.len() - l);
            p.mod_switch_to(&params.q_ctxs[to]);
            d.p(&p).end()
        }
        5 => {
            let to = if arg % 2 == 0 { params.e_ctxs[l].clone() } else { params.q_ctxs[arg as usize / 2 % params.q_ctxs.len()].clone() };
            let f = match arg % 3 {
                0 => ScalingFactor::new(1u32.into(), 1u32.into()),
                1 => ScalingFactor::new(s.p.t.into(), rm::product(s.p.q_at(l))),
                _ => ScalingFactor::new((arg >> 32).into(), ((arg & 0xffff_ffff) + 1).into()),
            };
            d.p(&verif_scale(&RqScaler::new(&w.pa.context, &to, f), &w.pa)).end()
        }
        6 => {
            let v: Vec<BigUint> = (&w.pa).into();
            let r = &w.pa.context.rns;
            let mut d = d.p(&Poly::try_from_bigint(&w.pa.context, &v));
            for b in &v {
                d = d.h(b.to_bytes_le()).h(r.project(b));
            }
            d.end()
        }
        7 => d.ct(&(&w.x + &w.y)).ct(&(&w.x - &w.y)).ct(&(&w.x + &w.pb)).end(),
        8 => d.ct(&(&w.x * &w.m)).ct(&(&w.x * &w.pb)).ct(&(&w.y * &BigUint::from(arg))).ct(&inner_product(&vec![w.x.clone(), w.y.clone()], &vec![w.pb.clone(), ntt(&w.pa)])).end(),
        9 => d.ct(&(&w.x * &w.y)).ct(&(&w.y * &w.y)).end(),
        10 => match &w.rlk {
            Some(k) => d.ct(&multiply_with_strategy(&w.x, &w.y, k)).end(),
            None => 0,
        },
        11 => w.gk.as_ref().map_or(0, |g| d.ct(&g.relinearize(&w.x)).end()),
        12 => w.rgsw.as_ref().map_or(0, |r| {
            let (a, b) = RgswCt::external_product(r, &w.x);
            d.p(&a).p(&b).end()
        }),
        13 => w.ksk.as_ref().map_or(0, |k| {
            let (a, b) = k.key_switch(&w.pa);
            d.p(&a).p(&b).end()
        }),
        14 => d.h(w.sk.decrypt(&w.x).values).h(w.sk.decrypt(&(&w.x * &w.y)).values).end(),
        15 => d.h(w.sk.measure_noise(&w.x)).h(w.sk.measure_noise(&(&w.x * &w.y))).end(),
        16 => {
            let q = Plaintext::new(params, &s.a.coeffs(n, s.p.t), l, Encoding::SIMD);
            d.h(&q.values).h(q.decode()).p(&q.to_poly()).end()
        }
        17 => {
            if s.p.q.len() - l < 2 { return 0; }
            let c = super::bfv::mod_switch_ct(&w.x);
            let v = w.sk.decrypt(&c).values;
            d.ct(&c).h(v).end()
        }
        18 => {
            let bits = 30 + (arg % 30) as usize;
            d.h(generate_prime(bits, 2 * n as u64, 1 << bits)).h(BfvParameters::generate_moduli(&[bits, bits, 62], n)).h(is_prime(arg)).h(is_prime(s.p.q[0])).h(mod_inverse(1 + arg % (s.p.t - 1), s.p.t)).end()
        }
        19 => w.eval.as_ref().map_or(0, |e| e.unpack(w.query[0].clone()).iter().fold(d, |d, c| d.ct(c)).end()),
        20 => match (&w.eval, &w.server) {
            (Some(e), Some(sv)) => sv.decode(w.query.clone(), e, params).iter().fold(d, |d, c| d.ct(c)).end(),
            _ => 0,
        },
        21 => d.h(w.pvw_sk.decrypt(&w.pp, &w.pvw_ct)).end(),
        22 => {
            let mut seed = [0u8; 32];
            (0..4).for_each(|i| seed[i * 8..][..8].copy_from_slice(&mix(arg + i as u64).to_le_bytes()));
            d.p(&Poly::random_from_seed(&w.pa.context, if arg % 2 == 0 { Representation::Ntt } else { Representation::PowerBasis }, seed)).end()
        }
        24 => {
            let k = 1 + arg as usize % s.p.q.len().min(3);
            let p = BfvParameters::new(n, s.p.t, s.p.q[..k].to_vec(), s.p.var, bd());
            let mut d = d.h((&p.q_mod_ts, &p.matrix_reps_index_map, &p.ciphertext_moduli));
            for q in &p.delta_ts {
                d = d.p(q);
            }
            let p = Arc::new(p);
            let mut a = pt(&p, &s.a.coeffs(n, s.p.t), k - 1).to_poly();
            let up = verif_scale(&RqScaler::new(&a.context, &p.e_ctxs[k - 1], ScalingFactor::new(1u32.into(), 1u32.into())), &a);
            a.change_representation(Representation::PowerBasis);
            d.p(&up).p(&a).end()
        }
        25 => {
            let m = 8 << (arg % 6);
            let q = s.p.q[arg as usize / 8 % s.p.q.len()];
            let m = if q % (2 * m as u64) == 1 { m } else { n };
            let op = NttOperator::new(&Modulus::new(q), m);
            let mut v = s.a.coeffs(m, q);
            op.forward(&mut v);
            let d = d.h(&v);
            op.backward(&mut v);
            d.h(&v).end()
        }
        _ => {
            let q = Modulus::new(s.p.q[arg as usize % s.p.q.len()]);
            let v = s.a.coeffs(n, q.modulus());
            let u = s.b.coeffs(n, q.modulus());
            let mut z = v.clone();
            q.mul_vec(&mut z, &u);
            d.h(z).h(q.pow(v[0], arg % q.modulus())).h(q.inv(1 + v[1] % (q.modulus() - 1))).h(q.shoup_vec(&u)).h(q.reduce_vec_u64(&[arg, !arg])).h(q.bits()).end()
        }
    }
}

/// Child process: answers on standard output.
pub fn child() {
    let job: Job = serde_json::from_reader(std::io::stdin()).expect("job");
    let s = &job.s;
    if let Some(i) = job.only {
        let (k, op, arg) = s.ops[i];
        let k = k as usize % s.setups.len();
        let w = build(&s.setups[k], k as u64);
        println!("{:016x} {:016x}", w.digest(), eval(&w, op % OPS, arg));
        return;
    }
    let worlds: Vec<World> = s.setups.iter().enumerate().map(|(k, p)| build(p, k as u64)).collect();
    let before: Vec<u64> = worlds.iter().map(World::digest).collect();
    let run = |i: usize| {
        let (k, op, arg) = s.ops[i];
        eval(&worlds[k as usize % worlds.len()], op % OPS, arg)
    };
    let len = s.ops.len();
    let first: Vec<u64> = (0..len).map(run).collect();
    let mut errs = vec![];
    let check = |order: &str, i: usize, v: u64, errs: &mut Vec<String>| {
        if v != first[i] {
            errs.push(format!("operation {} ({}) gives another result {}", i, name(s.ops[i].1 % OPS), order));
        }
    };
    for i in (0..len).rev() {
        check("when repeated in reverse order", i, run(i), &mut errs);
    }
    let par: Vec<Vec<(usize, u64)>> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..4)
            .map(|t| {
                let run = &run;
                sc.spawn(move || (0..2 * len).map(|j| { let i = (j * [1, len - 1, 1, len - 1][t] + t * len / 4) % len; (i, run(i)) }).collect::<Vec<_>>())
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("thread")).collect()
    });
    for (i, v) in par.into_iter().flatten() {
        check("when run concurrently with the others", i, v, &mut errs);
    }
    for (k, w) in worlds.iter().enumerate() {
        if w.digest() != before[k] {
            errs.push(format!("the operations changed an operand of set-up {k}"));
        }
    }
    // a set-up made again gives the same objects
    for (k, p) in s.setups.iter().enumerate() {
        if build(p, k as u64).digest() != before[k] {
            errs.push(format!("set-up {k} made again from the same entropy differs"));
        }
    }
    for (i, v) in first.iter().enumerate() {
        println!("{:016x} {:016x}", before[s.ops[i].0 as usize % worlds.len()], v);
    }
    for e in errs {
        println!("E {e}");
    }
}

fn spawn(job: &Job) -> Result<Vec<String>, String> {
    let exe = std::env::current_exe().map_err(|e| e.to_string())?;
    let mut c = Command::new(exe).arg("--history").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().map_err(|e| e.to_string())?;
    c.stdin.take().unwrap().write_all(&serde_json::to_vec(job).unwrap()).map_err(|e| e.to_string())?;
    let out = c.wait_with_output().map_err(|e| e.to_string())?;
    if !out.status.success() {
        let err = String::from_utf8_lossy(&out.stderr).lines().filter(|l| !l.contains("RUST_BACKTRACE")).take(3).collect::<Vec<_>>().join(" ");
        return Err(format!("{} ended with {}: {}", match job.only { None => "the session".to_string(), Some(i) => format!("operation {i} alone") }, out.status, err));
    }
    Ok(String::from_utf8_lossy(&out.stdout).lines().map(|l| l.to_string()).collect())
}

fn session() -> BoxedStrategy<Session> {
    let variant = (0u8..8, any::<u64>(), poly(), poly());
    (raw_params(6, 1, 5), vec(variant, 1..=4), vec((any::<u8>(), 0..OPS, any::<u64>()), 1..=9))
        .prop_map(|(raw, variants, ops)| {
            let first = raw.fit(|_| true);
            let setups = variants
                .into_iter()
                .enumerate()
                .map(|(i, (kind, x, a, b))| {
                    let mut p = first.clone();
                    // set-ups that share some but not all of what they are made from
                    if i > 0 {
                        match kind {
                            0 => p.n = (p.n / 2).max(8),
                            1 => p.q.reverse(),
                            2 => { let k = 1 + x as usize % p.q.len(); p.q.truncate(k); }
                            3 => p.var = 1 + x as usize % 16,
                            4 => {
                                let qmin = *p.q.iter().min().unwrap();
                                if let Some(t) = (4..40).filter_map(|b| rm::prime_1_mod(b, 2 * p.n as u64, x)).find(|t| *t < qmin && *t != p.t) { p.t = t; }
                            }
                            5 => { let more = primes(p.n, &[(62, x)], &p.q); p.q.insert(x as usize % (p.q.len() + 1), more[0]); }
                            6 => p.n = if p.q.iter().chain([&p.t]).all(|q| q % (4 * p.n as u64) == 1) { 2 * p.n } else { (p.n / 4).max(8) },
                            _ => {}
                        }
                    }
                    Setup { level: mix(x) as usize % p.q.len(), exp: mix(x ^ 5) as usize % (2 * p.n) | 1, p, a, b, key: x }
                })
                .collect();
            Session { setups, ops }
        })
        .boxed()
}

pub fn history(ctx: &mut Ctx) {
    ctx.sub("sessions", "sessions over 1..4 related set-ups (same primes at another degree, permuted, shortened or extended chains, other plaintext moduli, variances, keys), 1..9 deterministic operations of 26 kinds, run in order, again in reverse, and on four threads at once, in a process of their own; every result equals the one of a process that has done nothing but make that operation's set-up and run it; operands unchanged; a set-up made again is the same. Non-trivial: two or more set-ups and operations", 4000, 100000, session, |c: &Session, o| {
        o.nt(c.setups.len() >= 2 && c.ops.len() >= 2);
        let all = spawn(&Job { s: c.clone(), only: None })?;
        for l in &all {
            if let Some(e) = l.strip_prefix("E ") {
                return Err(e.to_string());
            }
        }
        ensure!(all.len() == c.ops.len(), "session output");
        for (i, (k, op, _)) in c.ops.iter().enumerate() {
            let solo = spawn(&Job { s: c.clone(), only: Some(i) })?;
            ensure!(solo.len() == 1 && solo[0] == all[i], "operation {} ({}) on set-up {} gives another result in the session ({}) than alone in a fresh process ({})", i, name(op % OPS), *k as usize % c.setups.len(), all[i], solo.first().map_or("", |s| s));
            o.label(name(op % OPS));
            o.n(1);
        }
        Ok(())
    });
}
