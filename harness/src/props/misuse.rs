//! C22 misuse is refused: calls whose operands do not belong together panic instead of returning
//! a wrong result. Every refusal is paired with the neighbouring valid call, which must go through.
use crate::fw::*;
use crate::gen::*;
use num_bigint::BigUint;
use onion_pir::verif::bfv::*;
use onion_pir::verif::evaluations::*;
use onion_pir::verif::ksk::Ksk;
use onion_pir::verif::modulus::Modulus;
use onion_pir::verif::ntt::NttOperator;
use onion_pir::verif::omr::inner_product;
use onion_pir::verif::pvw::{PvwParams, PvwSk};
use onion_pir::verif::rgsw::RgswCt;
use onion_pir::verif::rns::ScalingFactor;
use onion_pir::verif::rq::*;
use onion_pir::verif::utils::sample_vec_cbd;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::sync::Arc;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    logn: u32,
    sizes: Vec<(u32, u64)>,
    t: (u32, u64),
    a: PolySpec,
    b: PolySpec,
    x: u64,
    y: u64,
}
fn case(min: usize) -> BoxedStrategy<Case> {
    (3u32..=6, proptest::collection::vec((30u32..=62, any::<u64>()), min..=5), (8u32..=20, any::<u64>()), poly(), poly(), any::<u64>(), any::<u64>())
        .prop_map(|(logn, sizes, t, a, b, x, y)| Case { logn, sizes, t, a, b, x, y })
        .boxed()
}
impl Case {
    fn n(&self) -> usize {
        1 << self.logn
    }
    fn spec(&self) -> ParamSpec {
        let q = primes(self.n(), &self.sizes, &[]);
        let t = primes(self.n(), &[self.t], &q)[0];
        ParamSpec { n: self.n(), q, t, var: 10 }
    }
    /// the same with another plaintext modulus
    fn other(&self, p: &ParamSpec) -> ParamSpec {
        let t = primes(self.n(), &[(self.t.0, mix(self.t.1))], &[&p.q[..], &[p.t]].concat())[0];
        ParamSpec { t, ..p.clone() }
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Composite {
    logn: u32,
    factors: Vec<(u32, u64)>,
    kind: u8,
    x: u64,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Degree {
    n: usize,
    p: u64,
    a: PolySpec,
    b: PolySpec,
}
/// valid call goes through, invalid call is refused
fn pair<T, U>(o: &mut Obs, what: &str, good: impl FnOnce() -> T, bad: impl FnOnce() -> U) -> Res {
    ensure!(!refuses(good), "{what}: the valid counterpart is refused");
    ensure!(refuses(bad), "{what}: accepted");
    o.n(2);
    Ok(())
}
fn elem(ctx: &Arc<RqContext>, s: &PolySpec, rep: Representation) -> Poly {
    poly_from_rows(ctx, &s.rows(ctx.degree, &ctx.moduli_64), rep)
}
use Representation::{Ntt, PowerBasis};

pub fn misuse(ctx: &mut Ctx) {
    ctx.sub("ring", "ring elements in the wrong or unequal representations for +, -, *, scaling by an integer, modulus switching without a further modulus, to an unreachable context or in the evaluation basis, even automorphism exponents, scalers applied across contexts, oversized coefficient vectors, u64 conversion with several moduli: all refused, while the valid neighbours go through. Non-trivial: always", 20000, 500000, || case(2), |c: &Case, o| {
        o.nt(true);
        let p = c.spec();
        let r = RingSpec { n: p.n, q: p.q.clone() };
        let ctx = r.ctx();
        let (an, bn) = (elem(&ctx, &c.a, Ntt), elem(&ctx, &c.b, Ntt));
        let (ap, bp) = (elem(&ctx, &c.a, PowerBasis), elem(&ctx, &c.b, PowerBasis));
        let bads: [(&Poly, &Poly); 3] = [(&ap, &bn), (&an, &bp), (&ap, &bp)];
        let (u, v) = bads[(c.x % 3) as usize];
        let k = format!("{:?} with {:?}", u.representation, v.representation);
        pair(o, &format!("a + b, {k}"), || &an + &bn, || u + v)?;
        pair(o, &format!("a - b, {k}"), || &an - &bn, || u - v)?;
        pair(o, &format!("a * b, {k}"), || &an * &bn, || u * v)?;
        pair(o, &format!("a += b, {k}"), || { let mut z = an.clone(); z += &bn; }, || { let mut z = u.clone(); z += v; })?;
        pair(o, &format!("a -= b, {k}"), || { let mut z = an.clone(); z -= &bn; }, || { let mut z = u.clone(); z -= v; })?;
        pair(o, &format!("a *= b, {k}"), || { let mut z = an.clone(); z *= &bn; }, || { let mut z = u.clone(); z *= v; })?;
        let big = BigUint::from(c.y);
        pair(o, "integer times element in the power basis", || &an * &big, || &ap * &big)?;
        pair(o, "modulus switch in the evaluation basis", || ap.clone().mod_switch_down_next(), || an.clone().mod_switch_down_next())?;
        let low = Arc::new(RqContext::new(vec![r.q[0]], r.n, bd()));
        let single = elem(&low, &c.a, PowerBasis);
        pair(o, "modulus switch with one modulus left", || ap.clone().mod_switch_down_next(), || single.clone().mod_switch_down_next())?;
        let mut foreign = r.q[..r.q.len() - 1].to_vec();
        foreign.reverse();
        let last = Arc::new(RqContext::new(vec![r.q[r.q.len() - 1]], r.n, bd()));
        pair(o, "modulus switch to a context that is not below", || ap.clone().mod_switch_to(&low), || ap.clone().mod_switch_to(&last))?;
        pair(o, "modulus switch upwards", || ap.clone().mod_switch_to(&ctx), || single.clone().mod_switch_to(&ctx))?;
        let odd = (c.x as usize % (1 << 40)) | 1;
        pair(o, "even automorphism exponent", || Substitution::new(&ctx, odd), || Substitution::new(&ctx, odd + 1))?;
        let one = || ScalingFactor::new(BigUint::from(1u32), BigUint::from(1u32));
        let sc = RqScaler::new(&ctx, &low, one());
        pair(o, "scaler applied to an element of another ring", || verif_scale(&sc, &ap), || verif_scale(&sc, &single))?;
        let wide = Arc::new(RqContext::new(primes(2 * r.n, &[(45, c.y)], &[]), 2 * r.n, bd()));
        pair(o, "scaler between degrees", || RqScaler::new(&ctx, &low, one()), || RqScaler::new(&ctx, &wide, one()))?;
        pair(o, "zero denominator", one, || ScalingFactor::new(BigUint::from(c.x), BigUint::from(0u32)))?;
        pair(o, "u64 conversion with several moduli", || Vec::<u64>::from(&single), || Vec::<u64>::from(&ap))?;
        let extra = 1 + (c.y % 9) as usize;
        pair(o, "more coefficients than the degree (u64)", || Poly::try_from_vec_u64(&ctx, &vec![3; r.n]), || Poly::try_from_vec_u64(&ctx, &vec![3; r.n + extra]))?;
        pair(o, "more coefficients than the degree (i64)", || Poly::try_from_vec_i64(&ctx, &vec![-3; r.n]), || Poly::try_from_vec_i64(&ctx, &vec![-3; r.n + extra]))?;
        Ok(())
    });

    ctx.sub("primitives", "moduli of 63 bits or more, 0 and 1, transforms of unsupported or wrong length, noise variance outside 1..16, moduli sizes outside 10..62 bits: refused. Non-trivial: always", 60000, 1500000, || case(1), |c: &Case, o| {
        o.nt(true);
        let p = c.spec();
        let q = p.q[0];
        let huge = (1u64 << 62) + (c.x >> (2 + c.y % 62)) ;
        pair(o, &format!("modulus {huge}"), || Modulus::new((1 << 62) - 1 - c.x % 1000), || Modulus::new(huge))?;
        pair(o, "modulus below 2", || Modulus::new(2 + c.x % 100), || Modulus::new(c.x % 2))?;
        // unsupported length: p - 1 is not divisible by twice the length
        let mut two = 1usize;
        while (q - 1) % (2 * two as u64) == 0 { two *= 2; }
        pair(o, "transform length the modulus does not support", || NttOperator::new(&Modulus::new(q), p.n), || NttOperator::new(&Modulus::new(q), two.max(8)))?;
        let op = NttOperator::new(&Modulus::new(q), p.n);
        let wrong = match c.x % 4 { 0 => p.n / 2, 1 => p.n * 2, 2 => p.n + 1, _ => p.n - 1 };
        pair(o, "forward transform of the wrong length", || op.forward(&mut vec![1; p.n]), || op.forward(&mut vec![1; wrong]))?;
        pair(o, "backward transform of the wrong length", || op.backward(&mut vec![1; p.n]), || op.backward(&mut vec![1; wrong]))?;
        let var = if c.x % 5 == 0 { 0 } else { 17 + (c.y % 60) as usize };
        pair(o, &format!("variance {var}"), || sample_vec_cbd(10, 1 + (c.x % 16) as usize, &mut rand::thread_rng()), || sample_vec_cbd(10, var, &mut rand::thread_rng()))?;
        // plaintext modulus not below every ciphertext modulus
        if c.x % 16 == 0 {
            let small = primes(p.n, &[(24 + (c.y % 5) as u32, c.y)], &p.q)[0];
            let qs = |t: u64| { let mut v = vec![small, p.q[0]]; if c.y % 3 == 0 { v.swap(0, 1); } (v, t) };
            let big = match c.y % 2 { 0 => small, _ => primes(p.n, &[(small.ilog2() + 2, c.x)], &[small, p.q[0]])[0] };
            let build = |(q, t): (Vec<u64>, u64)| BfvParameters::new(p.n, t, q, 10, bd());
            pair(o, &format!("plaintext modulus {big} with ciphertext moduli {small}, {}", p.q[0]), || build(qs(p.t)), || build(qs(big)))?;
        }
        let pp = PvwParams { n: 1 + (c.x % 20) as usize, ell: 1 + (c.y % 6) as usize, m: 4 + (c.x % 9) as usize, q: 65537, variance: 1 + (c.y % 4) as usize };
        let pk = PvwSk::gen_sk(&pp).gen_pk(&pp);
        let bits: Vec<u64> = (0..pp.ell).map(|i| c.x >> i & 1).collect();
        let longer = [&bits[..], &vec![c.y & 1; 1 + (c.x % 3) as usize]].concat();
        pair(o, "PVW message longer than the parameters allow", || pk.encrypt(&pp, bits.clone()), || pk.encrypt(&pp, longer.clone()))?;
        let mut digit = bits.clone();
        digit[c.x as usize % pp.ell] = edge64(c.y).max(2);
        pair(o, "PVW message that is not a bit vector", || pk.encrypt(&pp, bits.clone()), || pk.encrypt(&pp, digit.clone()))?;
        let size = if c.x % 2 == 0 { (c.y % 10) as usize } else { 63 + (c.y % 2) as usize };
        pair(o, &format!("modulus size {size}"), || BfvParameters::generate_moduli(&[40, 62], p.n), || BfvParameters::generate_moduli(&[40, size], p.n))?;
        Ok(())
    });

    let strat = || {
        (3u32..=7, proptest::collection::vec((5u32..=30, any::<u64>()), 2..=3), any::<u8>(), any::<u64>())
            .prop_map(|(l, f, kind, x)| Composite { logn: l, factors: f, kind, x })
            .boxed()
    };
    ctx.sub("composites", "composite moduli congruent 1 modulo 2N (products of two or three primes that support the transform, squares, arbitrary ones): transforms, rings and plaintext moduli over them are refused, over the factors accepted. Non-trivial: always", 60000, 1500000, strat, |c: &Composite, o| {
        o.nt(true);
        let n = 1usize << c.logn;
        let f = primes(n, &c.factors, &[]);
        let m = match c.kind % 4 {
            0 => f[0] as u128 * f[1] as u128,
            1 => f[0] as u128 * f[0] as u128,
            2 => f.iter().fold(1u128, |a, p| a * *p as u128),
            _ => {
                let mut m = (c.x >> 2 >> (c.x % 50)) / (2 * n as u64) * (2 * n as u64) + 1;
                while m < 9 || crate::refmath::is_prime(m) { m += 2 * n as u64; }
                m as u128
            }
        };
        if m >> 62 != 0 { o.label("too large"); return Ok(()); }
        let m = m as u64;
        pair(o, &format!("transform of length {n} modulo {m}"), || NttOperator::new(&Modulus::new(f[0]), n), || NttOperator::new(&Modulus::new(m), n))?;
        pair(o, &format!("ring of degree {n} modulo {m}"), || RqContext::new(vec![f[0]], n, bd()), || RqContext::new(vec![m], n, bd()))?;
        if c.x % 16 == 0 {
            let q = primes(n, &[(62, c.x), (61, c.x)], &f);
            pair(o, &format!("plaintext modulus {m} at degree {n}"), || BfvParameters::new(n, f[0], q.clone(), 10, bd()), || BfvParameters::new(n, m, q.clone(), 10, bd()))?;
        }
        Ok(())
    });

    let strat = || {
        (prop_oneof![2 => 1usize..=40, 1 => 1usize..=400, 1 => (0u32..7).prop_map(|k| 3 << k), 1 => 0usize..3], 12u32..=62, any::<u64>(), poly(), poly())
            .prop_map(|(n, bits, pick, a, b)| {
                let n = match n { 0 => 5, x => x };
                Degree { n, p: crate::refmath::prime_1_mod(bits, 2 * n as u64, pick).unwrap_or(0), a, b }
            })
            .boxed()
    };
    ctx.sub("degrees", "transform lengths and ring degrees from 1 to 400 with a prime that is 1 modulo twice the length: lengths that are no power of two of at least 8 are refused, or else really work (inverse and negacyclic product); powers of two from 8 on are accepted. Non-trivial: no power of two", 40000, 1000000, strat, |c: &Degree, o| {
        use crate::refmath as rm;
        let (n, p) = (c.n, c.p);
        if p == 0 { o.label("no prime"); return Ok(()); }
        o.nt(!n.is_power_of_two());
        let plain = |f: &dyn Fn() -> NttOperator| std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).ok();
        let op = plain(&|| NttOperator::new(&Modulus::new(p), n));
        let ring = !refuses(|| RqContext::new(vec![p], n, bd()));
        let (a, b) = (c.a.coeffs(n, p), c.b.coeffs(n, p));
        if n.is_power_of_two() && n >= 8 {
            ensure!(op.is_some() && ring, "length {n} modulo {p} refused");
        }
        let Some(op) = op else { o.label("refused"); o.n(1); ensure!(!ring || n < 8, "ring of degree {n} modulo {p} accepted although its transform is not"); return Ok(()); };
        let (mut fa, mut fb) = (a.clone(), b.clone());
        op.forward(&mut fa);
        op.forward(&mut fb);
        let mut h: Vec<u64> = fa.iter().zip(&fb).map(|(x, y)| rm::mulm(*x, *y, p)).collect();
        op.backward(&mut fa);
        op.backward(&mut h);
        ensure!(fa == a, "transform of length {n} modulo {p} accepted, but it does not invert");
        ensure!(h == rm::negacyclic(&a, &b, p), "transform of length {n} modulo {p} accepted, but its products are wrong");
        o.label("works");
        o.n(2);
        Ok(())
    });

    ctx.sub("ciphertexts", "ciphertext operations across levels and parameter sets, with elements of another level or in the power basis, undefined encodings, oversized plaintexts, products of the wrong number of parts, raw elements outside the parameter set's rings: refused. Non-trivial: always", 12000, 300000, || case(2), |c: &Case, o| {
        o.nt(true);
        let p = c.spec();
        let params = p.params();
        let other = c.other(&p).params();
        let l = p.q.len();
        let (la, lb) = { let a = c.x as usize % l; let b = (a + 1 + c.y as usize % (l - 1)) % l; (a, b) };
        let sk = SecretKey::generate(&params);
        let sk_o = SecretKey::generate(&other);
        let m = c.a.coeffs(p.n, p.t.min(other.plaintext_modulus_u64));
        let (xa, ya) = (sk.encrypt(&pt(&params, &m, la)), sk.encrypt(&pt(&params, &m, la)));
        let xb = sk.encrypt(&pt(&params, &m, lb));
        let xo = sk_o.encrypt(&pt(&other, &m, la));
        let info = format!("levels {la} and {lb} of {l}");
        pair(o, &format!("ciphertext sum across levels, {info}"), || &xa + &ya, || &xa + &xb)?;
        pair(o, &format!("ciphertext difference across levels, {info}"), || &xa - &ya, || &xa - &xb)?;
        pair(o, &format!("ciphertext product across levels, {info}"), || &xa * &ya, || &xa * &xb)?;
        pair(o, "ciphertext sum across parameter sets", || &xa + &ya, || &xa + &xo)?;
        pair(o, "ciphertext difference across parameter sets", || &xa - &ya, || &xa - &xo)?;
        pair(o, "ciphertext product across parameter sets", || &xa * &ya, || &xa * &xo)?;
        pair(o, "ciphertext times plaintext of another parameter set", || &xa * &pt(&params, &m, la), || &xa * &pt(&other, &m, la))?;
        pair(o, "encryption of a plaintext of another parameter set", || sk.encrypt(&pt(&params, &m, la)), || sk.encrypt(&pt(&other, &m, la)))?;
        pair(o, "decryption of a ciphertext of another parameter set", || sk.decrypt(&xa), || sk.decrypt(&xo))?;
        pair(o, "noise of a ciphertext of another parameter set", || sk.measure_noise(&xa), || sk.measure_noise(&xo))?;
        let (ca, cb) = (&params.q_ctxs[la], &params.q_ctxs[lb]);
        let (ea, eb, ep) = (elem(ca, &c.b, Ntt), elem(cb, &c.b, Ntt), elem(ca, &c.b, PowerBasis));
        pair(o, &format!("ciphertext plus element of another level, {info}"), || &xa + &ea, || &xa + &eb)?;
        pair(o, &format!("ciphertext times element of another level, {info}"), || &xa * &ea, || &xa * &eb)?;
        pair(o, "ciphertext plus element in the power basis", || &xa + &ea, || &xa + &ep)?;
        pair(o, "ciphertext times element in the power basis", || &xa * &ea, || &xa * &ep)?;
        pair(o, &format!("ciphertext times plaintext of another level, {info}"), || &xa * &pt(&params, &m, la), || &xa * &pt(&params, &m, lb))?;
        pair(o, "encryption of an element of a foreign ring", || sk.encrypt_poly(&ea), || {
            let f = Arc::new(RqContext::new(primes(p.n, &[(44, c.y)], &p.q), p.n, bd()));
            sk.encrypt_poly(&elem(&f, &c.b, Ntt))
        })?;
        pair(o, "encryption of an element in the power basis", || sk.encrypt_poly(&ea), || sk.encrypt_poly(&ep))?;
        pair(o, "plaintext without encoding", || Plaintext::new(&params, &m, la, Encoding::Poly), || Plaintext::new(&params, &m, la, Encoding::None))?;
        let extra = 1 + (c.y % 5) as usize;
        pair(o, "plaintext longer than the degree", || Plaintext::new(&params, &vec![1; p.n], la, Encoding::Poly), || Plaintext::new(&params, &vec![1; p.n + extra], la, Encoding::Poly))?;
        pair(o, "SIMD plaintext shorter than the degree", || Plaintext::new(&params, &vec![1; p.n], la, Encoding::SIMD), || Plaintext::new(&params, &vec![1; p.n - extra], la, Encoding::SIMD))?;
        pair(o, "SIMD plaintext longer than the degree", || Plaintext::new(&params, &vec![1; p.n], la, Encoding::SIMD), || Plaintext::new(&params, &vec![1; p.n + extra], la, Encoding::SIMD))?;
        let d = sk.decrypt(&xa);
        pair(o, "decoding before an encoding is set", || { let mut d = d.clone(); d.set_encoding(Encoding::Poly); d.decode() }, || d.decode())?;
        pair(o, "level beyond the moduli", || sk.encrypt(&pt(&params, &m, l - 1)), || sk.encrypt(&pt(&params, &m, l + (c.x % 3) as usize)))?;
        pair(o, "raw decryption of parts of two levels", || sk.decrypt_trial(&xa.cts[0], &ya.cts[1]), || sk.decrypt_trial(&xa.cts[0], &xb.cts[1]))?;
        let cts = vec![xa.clone(), ya.clone()];
        pair(o, "inner product of unequal lengths", || inner_product(&cts, &vec![ea.clone(), ea.clone()]), || inner_product(&cts, &if c.x % 2 == 0 { vec![ea.clone()] } else { vec![ea.clone(); 3] }))?;
        pair(o, &format!("inner product across levels, {info}"), || inner_product(&cts, &vec![ea.clone(), ea.clone()]), || inner_product(&vec![xa.clone(), xb.clone()], &vec![ea.clone(), eb.clone()]))?;
        Ok(())
    });

    ctx.sub("keys", "switching, Galois, relinearisation and RGSW keys applied at another level, to the wrong basis or to unrelinearised ciphertexts, keys for a single modulus, keys of another parameter set: refused. Non-trivial: always", 8000, 200000, || case(3), |c: &Case, o| {
        o.nt(true);
        let p = c.spec();
        let params = p.params();
        let other = c.other(&p).params();
        let l = p.q.len();
        let (la, lb) = { let a = c.x as usize % (l - 1); let b = (a + 1 + c.y as usize % (l - 1)) % l; (a, b) };
        let info = format!("levels {la} and {lb} of {l}");
        let sk = SecretKey::generate(&params);
        let sk_o = SecretKey::generate(&other);
        let m = c.a.coeffs(p.n, p.t.min(other.plaintext_modulus_u64));
        let (xa, xb) = (sk.encrypt(&pt(&params, &m, la)), sk.encrypt(&pt(&params, &m, lb)));
        let xo = sk_o.encrypt(&pt(&other, &m, la));
        // one part, or three to six
        let mut three = &xa * &xa;
        match c.y % 5 {
            4 => three.cts.truncate(1),
            k => for _ in 0..k { three = &three * &xa; },
        }
        let (ca, cb) = (params.q_ctxs[la].clone(), params.q_ctxs[lb].clone());
        let (ea, ep, eb) = (elem(&ca, &c.b, Ntt), elem(&ca, &c.b, PowerBasis), elem(&cb, &c.b, PowerBasis));
        let ksk = Ksk::new(&sk, &ea, la, la);
        pair(o, "key switch in the evaluation basis", || ksk.key_switch(&ep), || ksk.key_switch(&ea))?;
        pair(o, &format!("key switch of an element of another level, {info}"), || ksk.key_switch(&ep), || ksk.key_switch(&eb))?;
        let sub = Substitution::new(&ca, (c.y as usize % p.n) * 2 + 1);
        let gk = GaliosKey::new(&sk, &sub, la);
        pair(o, &format!("Galois key at another level, {info}"), || gk.relinearize(&xa), || gk.relinearize(&xb))?;
        pair(o, &format!("Galois key on a ciphertext of {} parts", three.cts.len()), || gk.relinearize(&xa), || gk.relinearize(&three))?;
        let sp = ParamSpec { q: vec![p.q[0]], ..p.clone() };
        let s_sk = SecretKey::generate(&sp.params());
        let s_sub = Substitution::new(&sp.params().q_ctxs[0], 3);
        pair(o, "Galois key for a single modulus", || GaliosKey::new(&sk, &sub, la), || GaliosKey::new(&s_sk, &s_sub, 0))?;
        let rlk = RelinearizationKey::new(&sk, la);
        let rlk_o = RelinearizationKey::new(&sk_o, la);
        pair(o, &format!("relinearised product across levels, {info}"), || multiply_with_strategy(&xa, &xa, &rlk), || multiply_with_strategy(&xa, &xb, &rlk))?;
        pair(o, &format!("relinearisation key of another level, {info}"), || multiply_with_strategy(&xa, &xa, &rlk), || multiply_with_strategy(&xb, &xb, &rlk))?;
        pair(o, "relinearisation key of another parameter set", || multiply_with_strategy(&xa, &xa, &rlk), || multiply_with_strategy(&xa, &xa, &rlk_o))?;
        pair(o, "product across parameter sets", || multiply_with_strategy(&xa, &xa, &rlk), || multiply_with_strategy(&xa, &xo, &rlk))?;
        pair(o, &format!("relinearised product of a ciphertext of {} parts (left)", three.cts.len()), || multiply_with_strategy(&xa, &xa, &rlk), || multiply_with_strategy(&three, &xa, &rlk))?;
        pair(o, &format!("relinearised product of a ciphertext of {} parts (right)", three.cts.len()), || multiply_with_strategy(&xa, &xa, &rlk), || multiply_with_strategy(&xa, &three, &rlk))?;
        let rgsw = RgswCt::encrypt(&sk, &pt(&params, &m, la));
        let mods = l - la;
        let full = vec![xa.clone(); mods];
        let with = |odd: &BfvCipherText| { let mut v = full.clone(); let i = c.y as usize % mods; v[i] = odd.clone(); v };
        pair(o, &format!("external product at another level, {info}"), || RgswCt::external_product(&rgsw, &xa), || RgswCt::external_product(&rgsw, &xb))?;
        pair(o, "external product with a three-part ciphertext", || RgswCt::external_product(&rgsw, &xa), || RgswCt::external_product(&rgsw, &three))?;
        pair(o, "RGSW encryption in the power basis", || RgswCt::encrypt_poly(&sk, &ea), || RgswCt::encrypt_poly(&sk, &ep))?;
        pair(o, "RGSW encryption across parameter sets", || RgswCt::encrypt(&sk, &pt(&params, &m, la)), || RgswCt::encrypt(&sk, &pt(&other, &m, la)))?;
        pair(o, "assembled key across parameter sets", || Ksk::try_from_decomposed_rlwes(&params, &full), || Ksk::try_from_decomposed_rlwes(&params, &with(&xo)))?;
        pair(o, "assembled key across levels", || Ksk::try_from_decomposed_rlwes(&params, &full), || Ksk::try_from_decomposed_rlwes(&params, &with(&xb)))?;
        pair(o, "assembled key with an unrelinearised ciphertext", || Ksk::try_from_decomposed_rlwes(&params, &full), || Ksk::try_from_decomposed_rlwes(&params, &with(&three)))?;
        let count = match c.x % 3 { 0 => mods - 1, 1 => mods + 1 + (c.y % 3) as usize, _ => (c.y % mods as u64) as usize };
        pair(o, &format!("key assembled from {count} ciphertexts for {mods} moduli"), || Ksk::try_from_decomposed_rlwes(&params, &full), || Ksk::try_from_decomposed_rlwes(&params, &vec![xa.clone(); count]))?;
        pair(o, "switching key for a plaintext of another parameter set", || Ksk::new_with_pt(&sk, &pt(&params, &m, la), la, la), || Ksk::new_with_pt(&sk, &pt(&other, &m, la), la, la))?;
        let (hi, lo) = (la.min(lb), la.max(lb));
        let eh = elem(&params.q_ctxs[hi], &c.b, Ntt);
        pair(o, &format!("switching key with fewer moduli than its elements, {info}"), || Ksk::new(&sk, &eh, lo, hi), || Ksk::new(&sk, &eh, hi, lo))?;
        let twice = Arc::new(RqContext::new(primes(2 * p.n, &[(45, c.y)], &[]), 2 * p.n, bd()));
        let half = Arc::new(RqContext::new(vec![p.q[0]], (p.n / 2).max(8), bd()));
        let (good, bad) = (Substitution::new(&ca, 3), Substitution::new(if p.n > 8 && c.y % 2 == 0 { &half } else { &twice }, 3));
        pair(o, "automorphism made for another degree", || ea.substitute(&good), || ea.substitute(&bad))?;
        pair(o, "automorphism made for another degree, power basis", || ep.substitute(&good), || ep.substitute(&bad))?;
        pair(o, "Galois key with an automorphism made for another degree", || GaliosKey::new(&sk, &good, la), || GaliosKey::new(&sk, &bad, la))?;
        Ok(())
    });

    ctx.sub("retrieval", "server queries with the wrong number of ciphertexts or at another level: refused. Non-trivial: always", 1600, 40000, || case(2), |c: &Case, o| {
        o.nt(true);
        let mut c = c.clone();
        c.logn = c.logn.min(4);
        c.sizes.truncate(3);
        let p = c.spec();
        let params = p.params();
        let sk = SecretKey::generate(&params);
        let (first, dim) = (2 + (c.x % 3) as usize, 2usize);
        let db: Vec<Plaintext> = (0..first * dim).map(|i| pt(&params, &[i as u64], 0)).collect();
        let server = PirServer::new(first, dim, &db, &params);
        let ev = PirEvaluation::build(&sk, &params);
        let ct = sk.encrypt(&pt(&params, &c.a.coeffs(p.n, 2), 0));
        let low = sk.encrypt(&pt(&params, &c.a.coeffs(p.n, 2), 1));
        let need = p.q.len() + 1;
        let wrong = match c.y % 3 { 0 => need + 1 + (c.x % 3) as usize, 1 => need - 1, _ => 1 };
        let wrong = if wrong == need { need - 1 } else { wrong };
        pair(o, &format!("{wrong} instead of {need} query ciphertexts"), || server.decode(vec![ct.clone(); need], &ev, &params), || server.decode(vec![ct.clone(); wrong], &ev, &params))?;
        pair(o, "query at another level", || server.decode(vec![ct.clone(); need], &ev, &params), || server.decode(vec![low.clone(); need], &ev, &params))?;
        pair(o, "expansion at another level", || ev.unpack(ct.clone()), || ev.unpack(low.clone()))?;
        Ok(())
    });
}
