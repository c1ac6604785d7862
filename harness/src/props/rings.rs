//! C14 ring arithmetic, C15 modulus switching.
use super::bfv::{mod_switch_ct, mod_switch_noise};
use crate::fw::*;
use crate::gen::*;
use crate::refmath as rm;
use num_bigint::{BigInt, BigUint};
use num_integer::Integer;
use num_traits::{Signed, ToPrimitive};
use onion_pir::verif::rq::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::sync::Arc;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct RingCase {
    r: RingSpec,
    a: PolySpec,
    b: PolySpec,
    x: u64,
    y: u64,
    big: Vec<u32>,
}
fn case(max_logn: u32, max_moduli: usize) -> BoxedStrategy<RingCase> {
    (crate::gen::ring(max_logn, max_moduli), poly(), poly(), any::<u64>(), any::<u64>(), vec(any::<u32>(), 0..20))
        .prop_map(|(r, a, b, x, y, big)| RingCase { r, a, b, x, y, big })
        .boxed()
}
impl RingCase {
    fn info(&self) -> String {
        format!("N={} moduli {:?}", self.r.n, self.r.q)
    }
    fn exps(&self) -> (usize, usize) {
        let n = self.r.n as u64;
        let f = |r: u64| -> usize {
            (match r % 7 {
                0 => 2 * n - 1,
                1 => 1,
                2 => n + 1,
                3 => (n >> (mix(r) % n.ilog2() as u64)) + 1,
                4 => (mix(r) >> 20) | 1,
                _ => (mix(r) % n) * 2 + 1,
            }) as usize
        };
        (f(self.x), f(self.y))
    }
}

pub fn ring(ctx: &mut Ctx) {
    ctx.sub("conversions", "u64 over its whole range, i64 over its whole range, integers up to 640 bits, vectors shorter than N: the residues are the exact ones, lifting back gives the value modulo Q, single-modulus polynomials convert back to u64. Non-trivial: two or more moduli", 50000, 1250000, || case(15, 7), |c: &RingCase, o| {
        let (n, q) = (c.r.n, &c.r.q);
        let ctx = c.r.ctx();
        o.label(format!("N={}", n));
        o.label(format!("{} moduli", q.len()));
        o.nt(q.len() >= 2);
        let len = if c.x % 3 == 0 { (c.y % (n as u64 + 1)) as usize } else { n };
        let raw: Vec<u64> = c.a.raw(len).iter().map(|r| edge64(*r)).collect();
        let pad = |v: Vec<u64>| { let mut v = v; v.resize(n, 0); v };
        let p = Poly::try_from_vec_u64(&ctx, &raw);
        ensure!(p.representation == Representation::PowerBasis, "representation of a converted polynomial");
        ensure!(rows_of(&p) == q.iter().map(|q| pad(raw.iter().map(|v| v % q).collect())).collect::<Vec<_>>(), "conversion from u64, {}", c.info());
        let sraw: Vec<i64> = raw.iter().enumerate().map(|(i, v)| if i % 7 == 3 { i64::MIN } else { *v as i64 }).collect();
        let p = Poly::try_from_vec_i64(&ctx, &sraw);
        ensure!(rows_of(&p) == q.iter().map(|q| pad(sraw.iter().map(|v| rm::i64m(*v, *q)).collect())).collect::<Vec<_>>(), "conversion from i64, {}", c.info());
        let crt = c.r.crt();
        let bl = len.min(64);
        let bigs: Vec<BigUint> = (0..bl).map(|i| match i % 5 {
            0 => BigUint::new(c.big.clone()) + mix(c.x ^ i as u64),
            1 => &crt.q - 1u32 - (raw[i] % 3),
            2 => (&crt.q >> 1) + raw[i],
            3 => &crt.q * 3u32 + raw[i],
            _ => BigUint::from(raw[i]),
        }).collect();
        let p = Poly::try_from_bigint(&ctx, &bigs);
        ensure!(rows_of(&p) == q.iter().map(|q| pad(bigs.iter().map(|v| (v % *q).to_u64().unwrap()).collect())).collect::<Vec<_>>(), "conversion from integers, {}", c.info());
        let back = Vec::<BigUint>::from(&p);
        ensure_eq!(back.len(), n, "length after lifting");
        for (i, b) in bigs.iter().enumerate() {
            ensure_eq!(back[i], b % &crt.q, "lift of coefficient {}", i);
        }
        if q.len() == 1 {
            ensure!(Vec::<u64>::from(&Poly::try_from_vec_u64(&ctx, &raw)) == pad(raw.iter().map(|v| v % q[0]).collect()), "conversion to u64, {}", c.info());
        }
        for rep in [Representation::PowerBasis, Representation::Ntt] {
            let z = Poly::zero(&ctx, rep.clone());
            ensure!(z.representation == rep && z.coefficients().iter().all(|v| *v == 0) && z.coefficients().shape() == [q.len(), n], "zero polynomial, {}", c.info());
        }
        o.n(3 * n * q.len());
        Ok(())
    });
    ctx.sub("arithmetic", "N = 8..16384, 1..6 (sometimes 7..20) moduli of 5..62 bits, arbitrary elements: +, -, *, negation (both representations), integer scalars up to 640 bits, in-place and by-reference forms equal the schoolbook result; representation changes are lossless; operands untouched; results reduced. Non-trivial: both operands dense", 40000, 1000000, || case(14, 6), |c: &RingCase, o| {
        let (n, q) = (c.r.n, &c.r.q);
        let ctx = c.r.ctx();
        o.label(format!("N={}", n));
        o.nt(c.a.dense() && c.b.dense());
        let (ra, rb) = (c.a.rows(n, q), c.b.rows(n, q));
        let (a, b) = (poly_from_rows(&ctx, &ra, Representation::Ntt), poly_from_rows(&ctx, &rb, Representation::Ntt));
        // representation round trips
        let mut t = a.clone();
        t.change_representation(Representation::Ntt);
        ensure!(t == a, "no-op representation change altered the polynomial");
        t.change_representation(Representation::PowerBasis);
        ensure!(t.representation == Representation::PowerBasis && canonical(&t) && rows_of(&t) == ra, "to power basis, {}", c.info());
        t.change_representation(Representation::PowerBasis);
        t.change_representation(Representation::Ntt);
        ensure!(t == a, "representation round trip, {}", c.info());
        let map = |f: fn(u64, u64, u64) -> u64| -> Vec<Vec<u64>> { ra.iter().zip(&rb).zip(q).map(|((x, y), q)| x.iter().zip(y).map(|(u, v)| f(*u, *v, *q)).collect()).collect() };
        let prod: Vec<Vec<u64>> = ra.iter().zip(&rb).zip(q).map(|((x, y), q)| rm::negacyclic(x, y, *q)).collect();
        let big = BigUint::new(c.big.clone());
        let sc: Vec<Vec<u64>> = ra.iter().zip(q).map(|(x, q)| { let k = (&big % *q).to_u64().unwrap(); x.iter().map(|v| rm::mulm(*v, k, *q)).collect() }).collect();
        let neg: Vec<Vec<u64>> = ra.iter().zip(q).map(|(x, q)| x.iter().map(|v| rm::subm(0, *v, *q)).collect()).collect();
        let (mut ia, mut is, mut im, mut ib) = (a.clone(), a.clone(), a.clone(), a.clone());
        ia += &b;
        is -= &b;
        im *= &b;
        ib *= &big;
        let pa = poly_from_rows(&ctx, &ra, Representation::PowerBasis);
        for (name, got, want) in [
            ("a+b", &a + &b, map(rm::addm)), ("a+=b", ia, map(rm::addm)),
            ("a-b", &a - &b, map(rm::subm)), ("a-=b", is, map(rm::subm)),
            ("a*b", &a * &b, prod.clone()), ("a*=b", im, prod.clone()), ("b*a", &b * &a, prod.clone()),
            ("a*integer", &a * &big, sc.clone()), ("a*=integer", ib, sc),
            ("-a", -&a, neg.clone()), ("-a (power basis)", -&pa, neg),
        ] {
            ensure!(canonical(&got), "{}: residue not reduced, {}", name, c.info());
            ensure!(got.context.moduli_64 == *q, "{}: moduli changed", name);
            ensure!(got.representation == if name.contains("power") { Representation::PowerBasis } else { Representation::Ntt }, "{}: representation", name);
            ensure!(rows_of(&got) == want, "{} is wrong, {}", name, c.info());
            o.n(n * q.len());
        }
        ensure!(rows_of(&a) == ra && rows_of(&b) == rb, "operand changed");
        Ok(())
    });
    ctx.sub("substitution", "X -> X^k for every kind of odd k (1, 2N-1, N+1, N/2^i+1, far above 2N), both representations: equals the reference automorphism, the two representations agree, composition multiplies exponents, sums are preserved. Non-trivial: k not 1 mod 2N and dense element", 50000, 1250000, || case(16, 4), |c: &RingCase, o| {
        let (n, q) = (c.r.n, &c.r.q);
        let ctx = c.r.ctx();
        o.label(format!("N={}", n));
        let (k1, k2) = c.exps();
        o.nt(k1 % (2 * n) != 1 && c.a.dense());
        let ra = c.a.rows(n, q);
        let want: Vec<Vec<u64>> = ra.iter().zip(q).map(|(r, q)| rm::automorphism(r, k1 % (2 * n), *q)).collect();
        let (s1, s2) = (Substitution::new(&ctx, k1), Substitution::new(&ctx, k2));
        let k12 = ((k1 % (2 * n)) * (k2 % (2 * n))) % (2 * n);
        let s12 = Substitution::new(&ctx, k12);
        for rep in [Representation::PowerBasis, Representation::Ntt] {
            let a = poly_from_rows(&ctx, &ra, rep.clone());
            let r = a.substitute(&s1);
            ensure!(r.representation == rep && canonical(&r), "substitution output malformed");
            ensure!(rows_of(&r) == want, "X -> X^{} in {:?} form, {}", k1, rep, c.info());
            ensure!(r.substitute(&s2) == a.substitute(&s12), "X -> X^{} then X -> X^{} is not X -> X^{} in {:?} form, {}", k1, k2, k12, rep, c.info());
        }
        o.n(2 * n * q.len());
        Ok(())
    });
    ctx.sub("inverse", "elements with no zero in evaluation form: p * p^-1 = 1. Non-trivial: p not constant", 40000, 1000000, || case(14, 5), |c: &RingCase, o| {
        let (n, q) = (c.r.n, &c.r.q);
        let ctx = c.r.ctx();
        // evaluation-form values are arbitrary non-zero: build them through the transform
        let target: Vec<Vec<u64>> = c.a.rows(n, q).iter().zip(q).map(|(r, q)| r.iter().map(|v| if *v == 0 { 1 + mix(c.x) % (q - 1) } else { *v }).collect()).collect();
        let rows: Vec<Vec<u64>> = target.iter().enumerate().map(|(k, t)| { let mut v = t.clone(); ctx.ntt_ops[k].backward(&mut v); v }).collect();
        let p = poly_from_rows(&ctx, &rows, Representation::Ntt);
        o.nt(target[0].iter().any(|v| *v != target[0][0]));
        let inv = p.inverse();
        ensure!(canonical(&inv), "inverse not reduced");
        let one: Vec<Vec<u64>> = q.iter().map(|_| { let mut v = vec![0; n]; v[0] = 1; v }).collect();
        ensure!(rows_of(&(&p * &inv)) == one, "p * p^-1 != 1, {}", c.info());
        if n <= 64 {
            let by_ref: Vec<Vec<u64>> = rows_of(&p).iter().zip(rows_of(&inv)).zip(q).map(|((x, y), q)| rm::negacyclic(x, &y, *q)).collect();
            ensure!(by_ref == one, "p * p^-1 != 1 by schoolbook, {}", c.info());
        }
        o.n(n);
        Ok(())
    });
}

// ---------------------------------------------------------------- C15

fn chain(ctx: &Arc<RqContext>) -> Vec<Arc<RqContext>> {
    let mut v = vec![ctx.clone()];
    while let Some(n) = v.last().unwrap().next_ctx.clone() {
        v.push(n);
    }
    v
}

pub fn modswitch(ctx: &mut Ctx) {
    ctx.sub("rounding", "arbitrary elements, 2..7 moduli of very different sizes in any order, coefficients at 0, Q-1, Q/2, multiples of the dropped modulus plus or minus half: each coefficient becomes the nearest integer to x / q_last modulo the remaining product, context is the next one. Non-trivial: dense element", 60000, 1500000, || case(14, 7), |c: &RingCase, o| {
        let n = c.r.n;
        let mut q = c.r.q.clone();
        if q.len() < 2 {
            q.extend(primes(n, &[(62 - (c.x % 40) as u32, c.y)], &q));
        }
        let r = RingSpec { n, q: q.clone() };
        let ctx = r.ctx();
        o.label(format!("{} moduli", q.len()));
        o.nt(c.a.dense());
        let crt = r.crt();
        let rest = rm::Crt::new(&q[..q.len() - 1]);
        let last = BigUint::from(*q.last().unwrap());
        // element with some coefficients next to rounding boundaries
        let mut rows = c.a.rows(n, &q);
        for j in 0..n.min(24) {
            if mix(c.x ^ j as u64) % 3 == 0 {
                let base = (&rest.q * (mix(c.y ^ j as u64) >> 2)) >> 62;
                let x: BigUint = (base * &last + (&last >> 1) + 2u32 - (mix(j as u64) % 4)) % &crt.q;
                for (k, qk) in q.iter().enumerate() { rows[k][j] = (&x % *qk).to_u64().unwrap(); }
            }
        }
        let mut p = poly_from_rows(&ctx, &rows, Representation::PowerBasis);
        p.mod_switch_down_next();
        ensure!(p.context.moduli_64 == q[..q.len() - 1], "moduli after switching");
        ensure!(Some(&p.context) == ctx.next_ctx.as_ref(), "context after switching is not the next one");
        ensure!(p.representation == Representation::PowerBasis && canonical(&p), "switched polynomial malformed, {}", c.info());
        ensure_eq!(p.coefficients().shape().to_vec(), vec![q.len() - 1, n], "shape after switching");
        let got = rows_of(&p);
        for j in 0..n {
            let x = crt.lift(&rows.iter().map(|r| r[j]).collect::<Vec<_>>());
            let want: BigUint = (&x + (&last >> 1)) / &last;
            for (k, qk) in q[..q.len() - 1].iter().enumerate() {
                ensure!(got[k][j] == (&want % *qk).to_u64().unwrap(), "coefficient {} of value {} / {}: residue {} modulo {}, expected {}; moduli {:?}", j, x, last, got[k][j], qk, &want % *qk, q);
            }
        }
        // the result is usable: representation round trip
        let mut t = p.clone();
        t.change_representation(Representation::Ntt);
        t.change_representation(Representation::PowerBasis);
        ensure!(t == p, "switched polynomial does not survive a representation round trip");
        o.n(n);
        Ok(())
    });
    ctx.sub("several_steps", "mod_switch_to any later context: within one of x Q'/Q for every coefficient, identity for the same context; switch_iterations counts the steps and is None for contexts that cannot be reached. Non-trivial: two or more steps", 40000, 1000000, || case(13, 7), |c: &RingCase, o| {
        let n = c.r.n;
        let mut q = c.r.q.clone();
        while q.len() < 3 {
            q.extend(primes(n, &[(60, mix(c.y ^ q.len() as u64))], &q));
        }
        let r = RingSpec { n, q: q.clone() };
        let ctx = r.ctx();
        let ch = chain(&ctx);
        ensure_eq!(ch.len(), q.len(), "length of the modulus chain");
        let steps = (c.x % q.len() as u64) as usize;
        o.nt(steps >= 2);
        for (i, t) in ch.iter().enumerate() {
            ensure!(t.moduli_64 == q[..q.len() - i], "modulus chain");
            ensure_eq!(ctx.switch_iterations(t), Some(i), "switch_iterations to level {}", i);
            if i > 0 { ensure_eq!(t.switch_iterations(&ctx), None, "switching upwards"); }
        }
        let mut other = q.clone();
        other.swap(0, 1);
        ensure_eq!(ctx.switch_iterations(&RingSpec { n, q: other[..2].to_vec() }.ctx()), None, "switch_iterations to an unrelated context");
        let rows = c.a.rows(n, &q);
        let orig = poly_from_rows(&ctx, &rows, Representation::PowerBasis);
        let mut p = orig.clone();
        p.mod_switch_to(&ch[steps]);
        ensure!(p.context == ch[steps], "context after mod_switch_to");
        if steps == 0 { ensure!(p == orig, "switching to the same context changed the polynomial"); }
        ensure!(canonical(&p), "switched polynomial not reduced");
        let (crt, crt2) = (r.crt(), rm::Crt::new(&q[..q.len() - steps]));
        let dropped = BigInt::from(rm::product(&q[q.len() - steps..]));
        let q2 = BigInt::from(crt2.q.clone());
        let got = rows_of(&p);
        for j in 0..n {
            let x = BigInt::from(crt.lift(&rows.iter().map(|r| r[j]).collect::<Vec<_>>()));
            let y = BigInt::from(crt2.lift(&got.iter().map(|r| r[j]).collect::<Vec<_>>()));
            // |y * dropped - x| <= dropped, modulo Q
            let d: BigInt = (&y * &dropped - &x).mod_floor(&(&q2 * &dropped));
            let e: BigInt = &q2 * &dropped - &d;
            let m = if d < e { d } else { e };
            ensure!(m.abs() <= dropped, "coefficient {}: {} switched to {} over {} steps, moduli {:?}", j, x, y, steps, q);
        }
        o.n(n);
        Ok(())
    });
    #[derive(Clone, Debug, Serialize, Deserialize)]
    struct Sw {
        p: ParamSpec,
        sk: SkSpec,
        a: PolySpec,
        b: PolySpec,
        parts: usize,
        start: usize,
    }
    let strat = || {
        (raw_params(7, 2, 7), sk(), poly(), poly(), 2usize..=3, any::<u8>())
            .prop_map(|(raw, sk, a, b, parts, start)| {
                let p = raw.fit(|s| {
                    let e = if parts == 3 { s.mul_ct(s.fresh(), s.fresh(), 2) } else { s.fresh() };
                    s.q.len() >= 2 && e < s.limit(0) && mod_switch_noise(s, e, 0, parts) + 0.5 < s.limit(1)
                });
                let start = start as usize % p.q.len();
                Sw { p, sk, a, b, parts, start }
            })
            .boxed()
    };
    ctx.sub("ciphertexts", "fresh ciphertexts and unrelinearised products switched down level by level from any level: still decrypt to the same message at every level the worst-case bound allows, and noise shrinks as predicted. Non-trivial: at least two switches", 16000, 400000, strat, |c: &Sw, o| {
        let p = &c.p;
        let (n, t) = (p.n, p.t);
        let params = p.params();
        let sk = c.sk.make(p);
        let (a, b) = (c.a.coeffs(n, t), c.b.coeffs(n, t));
        let mut noise = p.fresh();
        let need = if c.parts == 3 { p.mul_ct(noise, noise, 2) } else { noise };
        let start = (0..=c.start).rev().find(|l| need < p.limit(*l)).unwrap_or(0);
        let mut ct = sk.encrypt(&pt(&params, &a, start));
        let mut m = a.clone();
        if c.parts == 3 {
            ct = &ct * &sk.encrypt(&pt(&params, &b, start));
            m = rm::negacyclic(&a, &b, t);
            noise = need;
        }
        let mut steps = 0;
        while p.q_at(ct.level).len() >= 2 {
            let l = ct.level;
            noise = mod_switch_noise(p, noise, l, c.parts);
            if noise + 0.5 >= p.limit(l + 1) { break; }
            ct = mod_switch_ct(&ct);
            steps += 1;
            well_formed(&ct, p, c.parts, l + 1)?;
            let d = dec(&sk, &ct);
            ensure!(d == m, "after switching from level {} to {}: {:?}.. instead of {:?}.., N={} t={} moduli {:?}", l, l + 1, &d[..4], &m[..4], n, t, p.q);
            let measured = sk.measure_noise(&ct) as f64;
            ensure!(measured <= noise.floor() + 2.0, "noise after switching to level {}: {} bits, bound {:.1}, N={} t={} moduli {:?}", l + 1, measured, noise, n, t, p.q);
            o.n(n);
        }
        o.label(format!("{} switches", steps));
        o.nt(steps >= 2);
        Ok(())
    });
}
