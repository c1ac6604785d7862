//! C11 modular arithmetic, C12 NTT, C13 residue number system.
use crate::fw::*;
use crate::gen::*;
use crate::refmath as rm;
use num_bigint::{BigInt, BigUint};
use num_integer::Integer;
use num_traits::{One, Signed, ToPrimitive, Zero};
use onion_pir::verif::modulus::Modulus;
use onion_pir::verif::ntt::NttOperator;
use onion_pir::verif::rns::*;
use onion_pir::verif::rq::*;
use proptest::collection::vec;
use proptest::prelude::*;
use rand::SeedableRng;
use serde::{Deserialize, Serialize};
use std::sync::Arc;

// ---------------------------------------------------------------- C11

#[derive(Clone, Debug, Serialize, Deserialize)]
struct ModCase {
    p: u64,
    raws: Vec<(u64, u64)>,
    big: Vec<u32>,
}

/// every modulus the type accepts: 2 <= p < 2^62
fn any_modulus() -> BoxedStrategy<u64> {
    prop_oneof![
        1 => 2u64..40,
        2 => (1u32..62, -2i64..=2).prop_map(|(b, d)| ((1i64 << b) + d).clamp(2, (1i64 << 62) - 1) as u64),
        1 => (0u64..64).prop_map(|d| (1u64 << 62) - 1 - d),
        4 => (2u32..=62, any::<u64>()).prop_map(|(b, r)| {
            let lo = 1u64 << (b - 1);
            (lo + r % lo).max(2)
        }),
    ]
    .boxed()
}
fn any_prime() -> BoxedStrategy<u64> {
    prop_oneof![
        1 => (0usize..12).prop_map(|i| [2u64, 3, 5, 7, 11, 13, 17, 97, 257, 1153, 12289, 65537][i]),
        5 => (3u32..=62, any::<u64>()).prop_map(|(b, r)| rm::prime_1_mod(b, 2, r).unwrap()),
        1 => (3u32..=11, any::<u64>()).prop_map(|(l, r)| rm::prime_1_mod(62, 2u64 << l, r).unwrap()),
        1 => Just(4611686018427387847u64), // largest prime below 2^62
    ]
    .boxed()
}

pub fn modulus(ctx: &mut Ctx) {
    let strat = || {
        (prop_oneof![any_modulus(), any_prime()], vec((any::<u64>(), any::<u64>()), 1..40), vec(any::<u32>(), 0..12))
            .prop_map(|(p, raws, big)| ModCase { p, raws, big })
            .boxed()
    };
    ctx.sub("scalar", "p over all of [2,2^62) incl. 2, 2^k±d and primes; batches of operand pairs, half on edges (0, p-1, p/2, 2^k±1). Non-trivial: p > 2 and at least 4 pairs", 200000, 5000000, strat, |c: &ModCase, o| {
        let p = c.p;
        let m = Modulus::new(p);
        o.nt(p > 2 && c.raws.len() >= 4);
        o.label(format!("p {:02}-bit", (64 - p.leading_zeros() + 9) / 10 * 10));
        ensure_eq!(m.modulus(), p, "modulus()");
        ensure_eq!(m.p, p, "p");
        ensure_eq!(m.bits(), (64 - p.leading_zeros()) as u64, "bit length of {}", p);
        let prime = rm::is_prime(p);
        if prime { o.label("prime"); }
        for &(r0, r1) in &c.raws {
            let (a, b) = (edge(r0, p), edge(r1, p));
            let (x, y) = (edge64(r0), edge64(r1));
            ensure_eq!(m.reduce(x), x % p, "{} mod {}", x, p);
            let l = m.lazy_reduce_ct(x);
            ensure!((l as u128) < 2 * p as u128 && l % p == x % p, "lazy reduction of {} mod {} gave {}", x, p, l);
            // products of residues, and 64-bit words above multiples of p * 2^64
            for w in [a as u128 * b as u128, x as u128, ((a as u128) << 64) + y as u128, a as u128 * (p as u128 - 1), (p as u128 - 1) * (p as u128 - 1)] {
                ensure_eq!(m.reduce_u128(w), (w % p as u128) as u64, "{} mod {}", w, p);
                let l = m.lazy_reduce_u128(w);
                ensure!((l as u128) < 2 * p as u128 && l as u128 % p as u128 == w % p as u128, "lazy reduction of {} mod {} gave {}", w, p, l);
            }
            ensure_eq!(m.add(a, b), rm::addm(a, b, p), "{}+{} mod {}", a, b, p);
            ensure_eq!(m.sub(a, b), rm::subm(a, b, p), "{}-{} mod {}", a, b, p);
            ensure_eq!(m.mul(a, b), rm::mulm(a, b, p), "{}*{} mod {}", a, b, p);
            ensure_eq!(m.neg(a), rm::subm(0, a, p), "-{} mod {}", a, p);
            ensure_eq!(m.pow(a, b), rm::powm(a, b, p), "{}^{} mod {}", a, b, p);
            let small = edge(r1, p.min(40));
            ensure_eq!(m.pow(a, small), rm::powm(a, small, p), "{}^{} mod {}", a, small, p);
            let bs = m.shoup(b);
            ensure_eq!(bs as u128, ((b as u128) << 64) / p as u128, "precomputed quotient of {} mod {}", b, p);
            ensure_eq!(m.mul_shoup(x, b, bs), rm::mulm(x % p, b, p), "{}*{} mod {}", x, b, p);
            let l = m.lazy_mul_shoup(x, b, bs);
            ensure!((l as u128) < 2 * p as u128 && l % p == rm::mulm(x % p, b, p), "lazy {}*{} mod {} gave {}", x, b, p, l);
            let two = (a as u128 + b as u128) as u64;
            ensure_eq!(Modulus::reduce_ct(two, p), two % p, "{} mod {}", two, p);
            if prime && a != 0 {
                let i = m.inv(a);
                ensure!(i < p && rm::mulm(a, i, p) == 1 % p, "inverse of {} mod {} gave {}", a, p, i);
            }
        }
        o.n(c.raws.len() * 20);
        Ok(())
    });
    let strat = || {
        (prop_oneof![any_modulus(), any_prime()], vec((any::<u64>(), any::<u64>()), 0..40), vec(any::<u32>(), 0..12))
            .prop_map(|(p, raws, big)| ModCase { p, raws, big })
            .boxed()
    };
    ctx.sub("vectors", "element-wise vector forms and signed/big-integer reduction, lengths 0..40, i64 over its whole range, big integers up to 384 bits. Non-trivial: length >= 2", 120000, 3000000, strat, |c: &ModCase, o| {
        let p = c.p;
        let m = Modulus::new(p);
        let a: Vec<u64> = c.raws.iter().map(|r| edge(r.0, p)).collect();
        let b: Vec<u64> = c.raws.iter().map(|r| edge(r.1, p)).collect();
        let x: Vec<u64> = c.raws.iter().map(|r| edge64(r.0)).collect();
        let s: Vec<i64> = x.iter().enumerate().map(|(i, v)| match i % 5 { 0 => i64::MIN.wrapping_add((*v % 3) as i64), _ => *v as i64 }).collect();
        o.nt(a.len() >= 2);
        o.n(a.len() * 9);
        let z = |f: fn(u64, u64, u64) -> u64| -> Vec<u64> { a.iter().zip(&b).map(|(x, y)| f(*x, *y, p)).collect() };
        let mut t = a.clone(); m.add_vec(&mut t, &b); ensure_eq!(t, z(rm::addm), "vector add mod {}", p);
        let mut t = a.clone(); m.sub_vec(&mut t, &b); ensure_eq!(t, z(rm::subm), "vector sub mod {}", p);
        let mut t = a.clone(); m.mul_vec(&mut t, &b); ensure_eq!(t, z(rm::mulm), "vector mul mod {}", p);
        ensure_eq!(m.neg_vec(&a), a.iter().map(|v| rm::subm(0, *v, p)).collect::<Vec<_>>(), "vector neg mod {}", p);
        ensure_eq!(m.reduce_vec_u64(&x), x.iter().map(|v| v % p).collect::<Vec<_>>(), "vector reduce mod {}", p);
        ensure_eq!(m.reduce_vec_i64(&s), s.iter().map(|v| rm::i64m(*v, p)).collect::<Vec<_>>(), "signed reduce of {:?} mod {}", s, p);
        ensure_eq!(m.shoup_vec(&a), a.iter().map(|v| (((*v as u128) << 64) / p as u128) as u64).collect::<Vec<_>>(), "vector quotient mod {}", p);
        let k = b.first().cloned().unwrap_or(1 % p);
        let sm = m.scalar_mul_vec(&x, k);
        ensure_eq!(sm.len(), x.len(), "scalar mul length");
        for (r, v) in sm.iter().zip(&x) {
            ensure!((*r as u128) < 2 * p as u128 && r % p == rm::mulm(v % p, k, p), "scalar {}*{} mod {} gave {}", k, v, p, r);
        }
        if rm::is_prime(p) {
            let nz: Vec<u64> = a.iter().cloned().filter(|v| *v != 0).collect();
            let inv = m.inv_vec(&nz);
            ensure_eq!(inv.len(), nz.len(), "inverse length");
            for (v, i) in nz.iter().zip(&inv) {
                ensure!(*i < p && rm::mulm(*v, *i, p) == 1 % p, "inverse of {} mod {} gave {}", v, p, i);
            }
        }
        let bigs: Vec<BigUint> = (0..=c.big.len()).map(|k| BigUint::new(c.big[..k].to_vec())).collect();
        let want: Vec<u64> = bigs.iter().map(|v| (v % p).to_u64().unwrap()).collect();
        ensure_eq!(m.reduce_vec_biguint(&bigs), want, "big reduce mod {}", p);
        for (v, w) in bigs.iter().zip(&want) {
            ensure_eq!(m.reduce_biguint(v), *w, "{} mod {}", v, p);
        }
        let mut rng = rand_chacha::ChaCha8Rng::seed_from_u64(c.raws.len() as u64 ^ p);
        ensure!(m.random(&mut rng) < p, "random element out of range");
        let rv = m.random_vec(c.raws.len(), &mut rng);
        ensure!(rv.len() == c.raws.len() && rv.iter().all(|v| *v < p), "random vector out of range");
        Ok(())
    });
}

// ---------------------------------------------------------------- C12

#[derive(Clone, Debug, Serialize, Deserialize)]
struct NttCase {
    n: usize,
    p: u64,
    a: PolySpec,
    b: PolySpec,
}
fn ntt_case(max: u32) -> BoxedStrategy<NttCase> {
    (logn(max), bits_pick(), poly(), poly())
        .prop_map(|(l, bp, a, b)| {
            let n = 1usize << l;
            NttCase { n, p: primes(n, &[bp], &[])[0], a, b }
        })
        .boxed()
}

pub fn ntt(ctx: &mut Ctx) {
    ctx.sub("definition", "N = 8..131072, primes p = 1 mod 2N of 5..62 bits (smallest, largest, random), boundary-heavy inputs: forward evaluates at the N odd powers of one primitive 2N-th root, inverse undoes it in both orders, output reduced, a second operator for the same (p,N) agrees. Non-trivial: input neither zero nor constant", 60000, 1500000, || ntt_case(17), |c: &NttCase, o| {
        let (n, p) = (c.n, c.p);
        let op = NttOperator::new(&Modulus::new(p), n);
        let a = c.a.coeffs(n, p);
        o.label(format!("N={}", n));
        o.nt(a.iter().any(|v| *v != a[0]));
        let mut f = a.clone();
        op.forward(&mut f);
        ensure!(f.iter().all(|v| *v < p), "forward output not reduced, N={} p={}", n, p);
        let mut x = vec![0u64; n];
        x[1] = 1;
        op.forward(&mut x);
        // evaluation points: the N roots of X^N + 1, each once
        let mut s = x.clone();
        s.sort();
        s.dedup();
        ensure_eq!(s.len(), n, "evaluation points repeat, N={} p={}", n, p);
        for w in &x {
            ensure_eq!(rm::powm(*w, n as u64, p), p - 1, "evaluation point is no root of X^N+1, N={} p={}", n, p);
        }
        let step = (n / 64).max(1);
        for i in (0..n).step_by(step).chain([n - 1, n / 2, 1]) {
            let mut v = 0u64;
            for c in a.iter().rev() {
                v = rm::addm(rm::mulm(v, x[i], p), *c, p);
            }
            ensure_eq!(f[i], v, "forward[{}] is not the evaluation, N={} p={}", i, n, p);
        }
        o.n(n);
        let mut g = f.clone();
        op.backward(&mut g);
        ensure_eq!(g, a, "backward(forward(a)) != a, N={} p={}", n, p);
        let mut g = a.clone();
        op.backward(&mut g);
        ensure!(g.iter().all(|v| *v < p), "backward output not reduced, N={} p={}", n, p);
        op.forward(&mut g);
        ensure_eq!(g, a, "forward(backward(a)) != a, N={} p={}", n, p);
        let op2 = NttOperator::new(&Modulus::new(p), n);
        let mut g = a.clone();
        op2.forward(&mut g);
        ensure_eq!(g, f, "two operators for the same (p,N) disagree, N={} p={}", n, p);
        Ok(())
    });
    ctx.sub("convolution", "products in evaluation form against schoolbook negacyclic multiplication, N = 8..65536. Non-trivial: both operands dense", 60000, 1500000, || ntt_case(16), |c: &NttCase, o| {
        let (n, p) = (c.n, c.p);
        let op = NttOperator::new(&Modulus::new(p), n);
        let (a, b) = (c.a.coeffs(n, p), c.b.coeffs(n, p));
        o.nt(c.a.dense() && c.b.dense());
        o.n(n);
        let (mut fa, mut fb) = (a.clone(), b.clone());
        op.forward(&mut fa);
        op.forward(&mut fb);
        let mut h: Vec<u64> = fa.iter().zip(&fb).map(|(x, y)| rm::mulm(*x, *y, p)).collect();
        op.backward(&mut h);
        ensure_eq!(h, rm::negacyclic(&a, &b, p), "negacyclic product, N={} p={}", n, p);
        let mut sum: Vec<u64> = fa.iter().zip(&fb).map(|(x, y)| rm::addm(*x, *y, p)).collect();
        op.backward(&mut sum);
        ensure_eq!(sum, a.iter().zip(&b).map(|(x, y)| rm::addm(*x, *y, p)).collect::<Vec<_>>(), "transform is not additive, N={} p={}", n, p);
        Ok(())
    });
}

// ---------------------------------------------------------------- C13

#[derive(Clone, Debug, Serialize, Deserialize)]
struct RnsCase {
    q: Vec<u64>,
    res: Vec<Vec<u64>>,
    big: Vec<u32>,
}
fn moduli(max: usize) -> BoxedStrategy<Vec<u64>> {
    (3u32..=6, vec(bits_pick(), 1..=max))
        .prop_map(|(l, s)| primes(1 << l, &s, &[]))
        .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Factor {
    One(u64),
    Small(u64, u64),
    /// t / Q, as decryption and multiplication use it
    TOverQ(u64),
    Big(Vec<u32>, Vec<u32>),
    ModSwitch,
}
impl Factor {
    fn get(&self, q: &BigUint, to: &[u64]) -> (BigUint, BigUint) {
        match self {
            Factor::One(k) => (BigUint::from(k % 1000 + 1), BigUint::from(k % 1000 + 1)),
            Factor::Small(a, b) => (BigUint::from(*a), BigUint::from((*b).max(1))),
            Factor::TOverQ(t) => (BigUint::from((*t).max(2)), q.clone()),
            Factor::Big(a, b) => (BigUint::new(a.clone()), BigUint::new(b.clone()) + 1u32),
            Factor::ModSwitch => (rm::product(to), q.clone()),
        }
    }
}
fn factor() -> BoxedStrategy<Factor> {
    prop_oneof![
        2 => any::<u64>().prop_map(Factor::One),
        2 => (any::<u64>(), any::<u64>()).prop_map(|(a, b)| Factor::Small(edge64(a) , edge64(b))),
        1 => (0u64..2000, 1u64..2000).prop_map(|(a, b)| Factor::Small(a, b)),
        3 => (5u32..62, any::<u64>()).prop_map(|(b, r)| Factor::TOverQ((1 << (b - 1)) + r % (1 << (b - 1)))),
        2 => (vec(any::<u32>(), 0..8), vec(any::<u32>(), 0..8)).prop_map(|(a, b)| Factor::Big(a, b)),
        1 => Just(Factor::ModSwitch),
    ]
    .boxed()
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct ScaleCase {
    from: Vec<u64>,
    to: Vec<u64>,
    f: Factor,
    start: usize,
    res: Vec<Vec<u64>>,
}
/// `to` relates to `from` in a chosen way: disjoint, prefix, extension, sharing an inner modulus...
fn bases(n: usize, a: &[(u32, u64)], b: &[(u32, u64)], rel: u8) -> (Vec<u64>, Vec<u64>) {
    let from = primes(n, a, &[]);
    let other = primes(n, b, &from);
    let to = match rel % 7 {
        0 | 1 => other,
        2 => from[..1 + other.len() % from.len()].to_vec(),
        3 => [from.clone(), other].concat(),
        4 => {
            // shares moduli at the same position, but not the first
            let mut t = from.clone();
            t[0] = other[0];
            t
        }
        5 => {
            let mut t = from.clone();
            t.reverse();
            t
        }
        _ => vec![from[0]],
    };
    (from, to)
}

/// All values of round(num*x/den) the rounding rule admits, where x stands for its centered
/// representative; both neighbours when within 2^-40 of a tie, both representatives when within
/// 2^-40 (relative) of +-Q/2.
fn admissible(x: &BigUint, q: &BigUint, num: &BigUint, den: &BigUint) -> Vec<BigInt> {
    let (xi, qi) = (BigInt::from(x.clone()), BigInt::from(q.clone()));
    let slack: BigInt = (&qi >> 40) + 1;
    let twice: BigInt = &xi * 2;
    let mut reps = vec![];
    if twice <= &qi + &slack {
        reps.push(xi.clone());
    }
    if twice >= &qi - &slack {
        reps.push(&xi - &qi);
    }
    let (n, d) = (BigInt::from(num.clone()), BigInt::from(den.clone()));
    let mut out = vec![];
    for r in reps {
        let y: BigInt = &r * &n;
        let (fl, rem) = y.div_mod_floor(&d);
        let two: BigInt = &rem * 2;
        let near: BigInt = (&two - &d).abs() << 40;
        if near <= d {
            out.push(fl.clone());
            out.push(fl + 1);
        } else if two > d {
            out.push(fl + 1);
        } else {
            out.push(fl);
        }
    }
    out
}

fn scaling_case(c: &ScaleCase, o: &mut Obs) -> Res {
    let (rf, rt) = (Arc::new(RnsContext::new(&c.from)), Arc::new(RnsContext::new(&c.to)));
    let crt = rm::Crt::new(&c.from);
    let (num, den) = c.f.get(&crt.q, &c.to);
    let sf = ScalingFactor::new(num.clone(), den.clone());
    ensure_eq!(sf.is_one(), num == den, "unit factor test");
    let sc = RnsScaler::new(&rf, &rt, sf);
    o.nt(num != den && c.from.len() >= 2);
    o.label(format!("{:?}", c.f).split(['(']).next().unwrap().to_string());
    let half: BigUint = &crt.q >> 1;
    let fixed: Vec<BigUint> = vec![BigUint::zero(), BigUint::one(), &crt.q - 1u32, half.clone(), &half + 1u32, &crt.q / 3u32, (&crt.q * 2u32) / 3u32, &half - (&half >> 20)];
    let start = c.start % c.to.len();
    for v in c.res.iter().map(|raw| crt.lift(&c.from.iter().zip(raw).map(|(q, r)| edge(*r, *q)).collect::<Vec<_>>())).chain(fixed) {
        let res = rm_project(&v, &c.from);
        let mut out = ndarray::Array1::<u64>::zeros(c.to.len() - start);
        sc.scale((&res).into(), out.view_mut(), start);
        let adm = admissible(&v, &crt.q, &num, &den);
        let got: Vec<u64> = out.to_vec();
        let ok = adm.iter().any(|y| c.to[start..].iter().zip(&got).all(|(q, g)| rm::bimod(y, *q) == *g));
        ensure!(ok, "scaling {} by {}/{} from {:?} to {:?}[{}..] gave {:?}, admissible {:?}", v, num, den, c.from, c.to, start, got, adm);
        o.n(1);
    }
    Ok(())
}

pub fn rns(ctx: &mut Ctx) {
    let strat = || {
        (moduli(8), vec(vec(any::<u64>(), 8), 1..12), vec(any::<u32>(), 0..24))
            .prop_map(|(q, res, big)| RnsCase { q, res, big })
            .boxed()
    };
    ctx.sub("crt", "1..8 distinct primes of 5..62 bits, arbitrary residues and integers up to 768 bits: lift/project are inverse and lift lands in [0,Q). Non-trivial: two or more moduli", 80000, 2000000, strat, |c: &RnsCase, o| {
        let r = RnsContext::new(&c.q);
        let crt = rm::Crt::new(&c.q);
        o.nt(c.q.len() >= 2);
        o.label(format!("{} moduli", c.q.len()));
        ensure_eq!(*r.modulus(), crt.q, "product of moduli");
        ensure_eq!(r.product, crt.q, "product of moduli");
        for (i, g) in r.garner.iter().enumerate() {
            for (j, q) in c.q.iter().enumerate() {
                ensure_eq!((g % *q).to_u64().unwrap(), (i == j) as u64 % q, "gadget element {} mod modulus {}", i, j);
            }
        }
        for raw in &c.res {
            let v: Vec<u64> = c.q.iter().zip(raw.iter()).map(|(q, r)| edge(*r, *q)).collect();
            let x = r.lift((&v).into());
            ensure_eq!(x, crt.lift(&v), "lift of {:?} for {:?}", v, c.q);
            ensure_eq!(r.project(&x), v, "project(lift(r)) for {:?}", c.q);
            o.n(2);
        }
        let x = BigUint::new(c.big.clone());
        let pr = r.project(&x);
        ensure_eq!(pr, c.q.iter().map(|q| (&x % *q).to_u64().unwrap()).collect::<Vec<_>>(), "project");
        ensure_eq!(r.lift((&pr).into()), &x % &crt.q, "lift(project(x))");
        for x in [BigUint::zero(), BigUint::one(), &crt.q - 1u32, &crt.q >> 1, (&crt.q >> 1) + 1u32] {
            ensure_eq!(r.lift((&r.project(&x)).into()), x, "lift(project(x)) for {:?}", c.q);
        }
        Ok(())
    });
    let strat = || {
        (3u32..=5, vec(bits_pick(), 1..=7), vec(bits_pick(), 1..=5), any::<u8>(), factor(), 0usize..4, vec(vec(any::<u64>(), 7), 1..10))
            .prop_map(|(l, a, b, rel, f, start, res)| {
                let (from, to) = bases(1 << l, &a, &b, rel);
                ScaleCase { from, to, f, start, res }
            })
            .boxed()
    };
    ctx.sub("scaling", "source bases of 1..7 primes, target bases disjoint / prefix / extension / partially shared, factors 1, small fractions, t/Q, large fractions: result is the nearest integer to factor times the centered value, in every requested target residue. Non-trivial: factor not 1 and two or more source moduli", 100000, 2500000, strat, |c: &ScaleCase, o| scaling_case(c, o));
    // Long bases: the accumulators sum one term per source modulus.
    let strat = || {
        let wide = || prop_oneof![4 => (60u32..=62, any::<u64>()), 1 => bits_pick()];
        (3u32..=4, vec(wide(), 8..=48), vec(wide(), 1..=6), any::<u8>(), factor(), 0usize..4, vec((0u8..4, vec(any::<u64>(), 48)), 1..6))
            .prop_map(|(l, a, b, rel, f, start, res)| {
                let (from, to) = bases(1 << l, &a, &b, rel);
                // modes: as generated, all residues just below their moduli, all in the top half, top except one
                let res = res
                    .into_iter()
                    .map(|(mode, r)| {
                        let odd = (r[0] % 48) as usize;
                        r.iter().enumerate().map(|(i, x)| match mode {
                            1 => (1 << 61) | (x % 16),
                            2 => (1 << 61) | x >> 60,
                            3 if i != odd => (1 << 61) | (x % 16),
                            _ => *x,
                        }).collect()
                    })
                    .collect();
                ScaleCase { from, to, f, start, res }
            })
            .boxed()
    };
    ctx.sub("wide_scaling", "the same from source bases of 8..48 primes, mostly of 60..62 bits, with all or nearly all residues just below their moduli as well as arbitrary ones. Non-trivial: factor not 1", 60000, 1500000, strat, |c: &ScaleCase, o| scaling_case(c, o));
    #[derive(Clone, Debug, Serialize, Deserialize)]
    struct PolyScale {
        n: usize,
        from: Vec<u64>,
        to: Vec<u64>,
        f: Factor,
        p: PolySpec,
        ntt: bool,
    }
    let strat = || {
        (logn(13), vec(bits_pick(), 1..=5), vec(bits_pick(), 1..=4), any::<u8>(), factor(), poly(), any::<bool>())
            .prop_map(|(l, a, b, rel, f, p, ntt)| {
                let (from, to) = bases(1 << l, &a, &b, rel);
                PolyScale { n: 1 << l, from, to, f, p, ntt }
            })
            .boxed()
    };
    ctx.sub("poly_scaling", "the same for whole polynomials in both representations. Non-trivial: dense polynomial, two or more source moduli", 40000, 1000000, strat, |c: &PolyScale, o| {
        let (fs, ts) = (RingSpec { n: c.n, q: c.from.clone() }, RingSpec { n: c.n, q: c.to.clone() });
        let crt = fs.crt();
        let (num, den) = c.f.get(&crt.q, &c.to);
        let sc = RqScaler::new(&fs.ctx(), &ts.ctx(), ScalingFactor::new(num.clone(), den.clone()));
        o.nt(c.p.dense() && c.from.len() >= 2);
        if num == den { o.label("unit factor"); }
        let rows = c.p.rows(c.n, &c.from);
        let rep = if c.ntt { Representation::Ntt } else { Representation::PowerBasis };
        let p = poly_from_rows(&fs.ctx(), &rows, rep.clone());
        let r = scale_poly(&sc, &p);
        ensure!(r.representation == rep, "representation changed by scaling");
        ensure_eq!(r.context.moduli_64, c.to, "target moduli");
        ensure!(canonical(&r), "scaled residues not reduced");
        let got = rows_of(&r);
        for j in 0..c.n {
            let v = crt.lift(&rows.iter().map(|r| r[j]).collect::<Vec<_>>());
            let adm = admissible(&v, &crt.q, &num, &den);
            let ok = adm.iter().any(|y| c.to.iter().zip(&got).all(|(q, g)| rm::bimod(y, *q) == g[j]));
            ensure!(ok, "coefficient {}: scaling {} by {}/{} from {:?} to {:?} gave {:?}", j, v, num, den, c.from, c.to, got.iter().map(|g| g[j]).collect::<Vec<_>>());
        }
        o.n(c.n);
        Ok(())
    });
}

fn rm_project(v: &BigUint, q: &[u64]) -> Vec<u64> {
    q.iter().map(|q| (v % *q).to_u64().unwrap()).collect()
}
fn scale_poly(sc: &RqScaler, p: &Poly) -> Poly {
    onion_pir::verif::rq::verif_scale(sc, p)
}
