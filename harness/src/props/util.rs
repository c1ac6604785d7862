//! C19 prime and parameter generation, C20 integer utilities.
use crate::fw::*;
use crate::gen::*;
use crate::refmath as rm;
use num_bigint::{BigInt, BigUint};
use num_traits::{One, Signed, ToPrimitive, Zero};
use onion_pir::verif::bfv::*;
use onion_pir::verif::rq::*;
use onion_pir::verif::utils::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct PrimeCase {
    bits: usize,
    modulo: u64,
    upper: u64,
}

pub fn parameters(ctx: &mut Ctx) {
    let strat = || {
        (prop_oneof![6 => 10usize..=62, 3 => 10usize..=24, 1 => Just(62usize)], prop_oneof![5 => (1u32..=18).prop_map(|l| 1u64 << l), 2 => 2u64..5000, 1 => (19u32..=30).prop_map(|l| 1u64 << l)], any::<u64>(), 0u8..10)
            .prop_map(|(bits, modulo, r, k)| {
                let (lo, hi) = (1u64 << (bits - 1), 1u64 << bits);
                let upper = match k {
                    0 | 1 => hi,
                    2 => lo + r % 200,
                    3 => (lo + r % (2 * modulo + 1)).min(hi),
                    // just above (or at) a prime of the right form; half the time the smallest
                    // such prime of this size, so that it is the only one below the bound
                    8 | 9 => {
                        let from = if k == 8 { lo } else { lo + r % lo };
                        let mut c = from + (modulo + 1 - from % modulo) % modulo;
                        let mut tries = 0;
                        while c < hi && tries < 2000 && !rm::is_prime(c) {
                            c += modulo;
                            tries += 1;
                        }
                        (c + 1 - (r >> 62 == 0) as u64).min(hi)
                    }
                    _ => lo + 1 + r % lo,
                };
                PrimeCase { bits, modulo, upper }
            })
            .boxed()
    };
    ctx.sub("generate_prime", "10..62 bits, modulo any power of two up to 2^30 or any integer up to 5000, upper bound anywhere in the range incl. its ends and directly above a prime of the wanted form (often the only one below the bound): the result is a prime of the requested size, 1 modulo `modulo`, below the bound; None only if there is none (exhaustive reference search where the range has at most 2^16 candidates). Non-trivial: a candidate range of at least 2", 6000, 150000, strat, |c: &PrimeCase, o| {
        let lo = 1u64 << (c.bits - 1);
        let exists_from = |top: u64| -> Option<bool> {
            // largest candidate = 1 mod modulo below the bound
            if top < lo + 1 { return Some(false); }
            let mut k = top - 1;
            if c.modulo > 1 { k -= (k + c.modulo - 1) % c.modulo; }
            let mut tries = 0u32;
            while k >= lo {
                if rm::is_prime(k) { return Some(true); }
                tries += 1;
                if tries > 65536 { return None; }
                if k < c.modulo { break; }
                k -= c.modulo;
            }
            Some(false)
        };
        o.nt(c.upper.saturating_sub(lo) / c.modulo >= 2);
        let got = generate_prime(c.bits, c.modulo, c.upper);
        match got {
            Some(p) => {
                o.label("found");
                ensure!(rm::is_prime(p), "{} is not prime ({} bits, 1 mod {}, below {})", p, c.bits, c.modulo, c.upper);
                ensure!(p % c.modulo == 1 % c.modulo && p < c.upper && p >= lo && p >> c.bits == 0, "{} is not a {}-bit number = 1 mod {} below {}", p, c.bits, c.modulo, c.upper);
            }
            None => {
                o.label("none");
                ensure!(exists_from(c.upper) != Some(true), "no prime returned for {} bits, 1 mod {}, below {} although one exists", c.bits, c.modulo, c.upper);
            }
        }
        for b in [0usize, 1, 9, 63, 64] {
            ensure_eq!(generate_prime(b, 16, 1 << 8), None, "size {} outside 10..=62", b);
        }
        o.n(1);
        Ok(())
    });
    #[derive(Clone, Debug, Serialize, Deserialize)]
    struct ModuliCase {
        sizes: Vec<usize>,
        logn: u32,
        same: bool,
    }
    let strat = || {
        (vec(prop_oneof![3 => 10usize..=62, 3 => 10usize..=20, 2 => 50usize..=62], 0..10), 3u32..=13, any::<bool>())
            .prop_map(|(mut sizes, logn, same)| {
                if same && !sizes.is_empty() { let s = sizes[0]; sizes.iter_mut().for_each(|x| *x = s); }
                ModuliCase { sizes, logn, same }
            })
            .boxed()
    };
    ctx.sub("generate_moduli", "0..9 sizes of 10..62 bits (mixed or all equal), degree 8..8192: pairwise distinct primes of exactly the requested sizes supporting the NTT of that degree; None only if there are not enough of them. Non-trivial: two or more sizes", 40000, 1000000, strat, |c: &ModuliCase, o| {
        let n = 1u64 << c.logn;
        o.nt(c.sizes.len() >= 2);
        match BfvParameters::generate_moduli(&c.sizes, n as usize) {
            Some(v) => {
                o.label("found");
                ensure_eq!(v.len(), c.sizes.len(), "number of moduli");
                for (i, q) in v.iter().enumerate() {
                    ensure!(rm::is_prime(*q) && q % (2 * n) == 1 && 64 - q.leading_zeros() == c.sizes[i] as u32, "modulus {} for size {} and degree {}", q, c.sizes[i], n);
                    ensure!(!v[..i].contains(q), "modulus {} repeats", q);
                }
            }
            None => {
                o.label("none");
                // some size must be asked for more often than there are primes of it
                let short = c.sizes.iter().any(|s| {
                    let want = c.sizes.iter().filter(|x| *x == s).count();
                    if *s > 28 { return false; }
                    let (lo, hi) = (1u64 << (s - 1), 1u64 << s);
                    let mut k = lo - lo % (2 * n) + 1;
                    let mut have = 0;
                    while k < hi {
                        if k >= lo && rm::is_prime(k) { have += 1; }
                        if have >= want { return false; }
                        k += 2 * n;
                    }
                    true
                });
                ensure!(short, "no moduli for sizes {:?}, degree {} although enough exist", c.sizes, n);
            }
        }
        o.n(c.sizes.len());
        Ok(())
    });
    #[derive(Clone, Debug, Serialize, Deserialize)]
    struct ParCase {
        p: ParamSpec,
        m: PolySpec,
        default: Option<(usize, u32)>,
    }
    let strat = || {
        (raw_params(9, 1, 7), poly(), proptest::option::weighted(0.2, (1usize..=7, 3u32..=6)))
            .prop_map(|(r, m, default)| ParCase { p: r.fit(|_| true), m, default })
            .boxed()
    };
    ctx.sub("parameters", "parameter sets of 1..7 moduli, incl. the default ones: every level has the prefix of the moduli, level lookup is the inverse of level selection and refuses foreign contexts, the plaintext-to-ciphertext scaling at every level is within 2 of Q m / t. Non-trivial: two or more levels", 12000, 300000, strat, |c: &ParCase, o| {
        let (p, params);
        match c.default {
            Some((k, l)) => {
                o.label("default");
                let d = std::sync::Arc::new(BfvParameters::default(k, 1 << l, bd()));
                p = ParamSpec { n: 1 << l, q: d.ciphertext_moduli.clone(), t: d.plaintext_modulus_u64, var: d.variance };
                ensure_eq!(p.q.len(), k, "number of default moduli");
                ensure!(p.q.iter().all(|q| rm::is_prime(*q) && q >> 61 == 1 && q % (2 << l) == 1), "default moduli {:?}", p.q);
                ensure!(rm::is_prime(p.t) && p.t % (2 << l) == 1 && (1..=16).contains(&p.var), "default plaintext modulus or variance");
                params = d;
            }
            None => { p = c.p.clone(); params = p.params(); }
        }
        o.nt(p.q.len() >= 2);
        ensure_eq!(params.degree, p.n, "degree");
        ensure_eq!(params.plaintext_modulus_u64, p.t, "plaintext modulus");
        ensure_eq!(params.ciphertext_moduli, p.q, "ciphertext moduli");
        ensure_eq!(params.variance, p.var, "variance");
        ensure_eq!(params.q_ctxs.len(), p.q.len(), "number of levels");
        let m = c.m.coeffs(p.n, p.t);
        for l in 0..p.q.len() {
            let ctx = params.q_ctxs[l].clone();
            ensure_eq!(ctx.moduli_64, p.q_at(l).to_vec(), "moduli of level {}", l);
            ensure_eq!(ctx.degree, p.n, "degree of level {}", l);
            ensure_eq!(params.ctx_level(&ctx), Some(l), "level lookup");
            let q = BigInt::from(rm::product(p.q_at(l)));
            let tq: BigInt = &q * p.t;
            let poly = pt(&params, &m, l).to_poly();
            ensure!(poly.context == ctx && poly.representation == Representation::Ntt, "scaled plaintext malformed");
            let crt = rm::Crt::new(p.q_at(l));
            for (x, m) in crt.center_rows(&rows_of(&poly)).iter().zip(&m) {
                use num_integer::Integer;
                let d: BigInt = (x * BigInt::from(p.t) - &q * BigInt::from(*m)).mod_floor(&tq);
                let e: BigInt = &tq - &d;
                let dist = if d < e { d } else { e };
                ensure!(dist.abs() <= BigInt::from(2 * p.t as u128), "message {} at level {} is not scaled to Q m / t (off by {}/t), t={} moduli {:?}", m, l, dist, p.t, p.q);
            }
            o.n(p.n);
        }
        // contexts of another degree or other moduli have no level
        let other = RingSpec { n: if p.n == 8 { 16 } else { 8 }, q: primes(16, &[(40, 3)], &[]) };
        ensure_eq!(params.ctx_level(&other.ctx()), None, "foreign context got a level");
        let extra = primes(p.n, &[(45, 5)], &p.q);
        let longer = RingSpec { n: p.n, q: [p.q.clone(), extra].concat() };
        ensure_eq!(params.ctx_level(&longer.ctx()), None, "longer context got a level");
        if p.q.len() >= 2 {
            let tail = RingSpec { n: p.n, q: p.q[1..].to_vec() };
            ensure_eq!(params.ctx_level(&tail.ctx()), None, "context of other moduli got a level");
        }
        Ok(())
    });
}

// ---------------------------------------------------------------- C20

#[derive(Clone, Debug, Serialize, Deserialize)]
struct IntCase {
    raws: Vec<(u64, u64)>,
    words: Vec<u64>,
    s: usize,
}

pub fn integers(ctx: &mut Ctx) {
    let strat = || {
        (vec((any::<u64>(), any::<u64>()), 1..30), vec(any::<u64>(), 8), 0usize..256)
            .prop_map(|(raws, words, s)| IntCase { raws, words, s })
            .boxed()
    };
    ctx.sub("words", "bit vectors and digit decomposition for every size 1..64 and base 1..64, ilog2 over all unsigned widths, div_ceil, modular inverse incl. non-coprime arguments, boundary-heavy operands. Non-trivial: 4 or more operand pairs", 120000, 3000000, strat, |c: &IntCase, o| {
        o.nt(c.raws.len() >= 4);
        for &(r0, r1) in &c.raws {
            let (x, y) = (edge64(r0), edge64(r1));
            let need = (64 - x.leading_zeros() as usize).max(1);
            let size = need + (r1 % 7) as usize;
            let v = bit_vector(size, x);
            ensure_eq!(v.len(), size, "bit vector length");
            for (i, b) in v.iter().enumerate() {
                ensure_eq!(*b, i < 64 && x >> i & 1 == 1, "bit {} of {}", i, x);
            }
            let base = 1 + (mix(r1) % 64) as usize;
            let d = decompose_bits(x, size, base);
            ensure_eq!(d.len(), (size + base - 1) / base, "number of base-2^{} digits of {} ({} bits)", base, x, size);
            let mut sum = BigUint::zero();
            for (i, v) in d.iter().enumerate() {
                ensure!(base == 64 || *v >> base == 0, "digit {} of {} is {}, base 2^{}", i, x, v, base);
                sum += BigUint::from(*v) << (i * base);
            }
            ensure_eq!(sum, BigUint::from(x), "digits of {} in base 2^{}", x, base);
            if x > 0 {
                ensure_eq!(ilog2(x), 63 - x.leading_zeros() as usize, "ilog2({})", x);
                ensure_eq!(ilog2(x as usize), 63 - x.leading_zeros() as usize, "ilog2({})", x);
                let w = (x as u32).max(1);
                ensure_eq!(ilog2(w), 31 - w.leading_zeros() as usize, "ilog2({}u32)", w);
                let z = (x as u128) << (y % 64);
                ensure_eq!(ilog2(z), 127 - z.leading_zeros() as usize, "ilog2({}u128)", z);
                let b = (x as u8).max(1);
                ensure_eq!(ilog2(b), 7 - b.leading_zeros() as usize, "ilog2({}u8)", b);
            }
            let (a, b) = (x >> 1, (y >> 1).max(1));
            ensure_eq!(div_ceil(a, b) as u128, (a as u128 + b as u128 - 1) / b as u128, "ceil({}/{})", a, b);
            let small = 1 + b % 100;
            ensure_eq!(div_ceil(a, small), a / small + (a % small != 0) as u64, "ceil({}/{})", a, small);
            let q = y.max(2);
            match mod_inverse(x, q) {
                Some(i) => ensure!(rm::gcd(x % q, q) == 1 && i < q && rm::mulm(x % q, i, q) == 1, "inverse of {} mod {} gave {}", x, q, i),
                None => ensure!(rm::gcd(x % q, q) != 1, "no inverse of {} mod {}", x, q),
            }
            let q = 2 + y % 1000;
            match mod_inverse(x % q, q) {
                Some(i) => ensure!(i < q && (x % q) * i % q == 1, "inverse of {} mod {} gave {}", x % q, q, i),
                None => ensure!(rm::gcd(x % q, q) != 1, "no inverse of {} mod {}", x % q, q),
            }
            o.n(12);
        }
        Ok(())
    });
    ctx.sub("u256", "256-bit addition and subtraction (wrapping), complement, right shift by every amount 0..255, top bit, conversions, against big integers; carry chains of all-ones and zero words. Non-trivial: operands with a carry or borrow across words", 200000, 5000000, strat, |c: &IntCase, o| {
        let w: Vec<u64> = c.words.iter().map(|r| match r % 4 { 0 => 0, 1 => u64::MAX, _ => edge64(*r) }).collect();
        let (a, b): ([u64; 4], [u64; 4]) = (w[..4].try_into().unwrap(), w[4..].try_into().unwrap());
        let big = |v: &[u64; 4]| -> BigUint { v.iter().rev().fold(BigUint::zero(), |acc, x| (acc << 64) + *x) };
        let m = BigUint::one() << 256;
        let words = |x: &BigUint| -> [u64; 4] { let mut o = [0; 4]; for i in 0..4 { o[i] = ((x >> (64 * i)) & BigUint::from(u64::MAX)).to_u64().unwrap(); } o };
        let (x, y) = (big(&a), big(&b));
        o.nt(a[0].checked_add(b[0]).is_none() || a[0] < b[0]);
        let mut s = U256::from(a);
        s.wrapping_add_assign(U256::from(b));
        ensure_eq!(<[u64; 4]>::from(s), words(&((&x + &y) % &m)), "{} + {}", x, y);
        let mut s = U256::from(a);
        s.wrapping_sub_assign(U256::from(b));
        ensure_eq!(<[u64; 4]>::from(s), words(&((&x + &m - &y) % &m)), "{} - {}", x, y);
        ensure_eq!(<[u64; 4]>::from(!U256::from(a)), words(&(&m - 1u32 - &x)), "!{}", x);
        for sh in [c.s, 0, 1, 63, 64, 65, 127, 128, 129, 191, 192, 193, 255, (c.s * 7) % 256] {
            ensure_eq!(<[u64; 4]>::from(U256::from(a) >> sh), words(&(&x >> sh)), "{} >> {}", x, sh);
            let mut t = U256::from(a);
            t >>= sh;
            ensure_eq!(<[u64; 4]>::from(t), words(&(&x >> sh)), "{} >>= {}", x, sh);
        }
        ensure_eq!(U256::from(a).msb(), a[3] >> 63, "top bit of {}", x);
        let halves = [a[0] as u128 | (a[1] as u128) << 64, a[2] as u128 | (a[3] as u128) << 64];
        ensure_eq!(<[u128; 2]>::from(U256::from(a)), halves, "to u128 halves");
        ensure_eq!(U256::from(halves), U256::from(a), "from u128 halves");
        ensure_eq!(u128::from(&U256::from([a[0], a[1], 0, 0])), halves[0], "to u128");
        ensure_eq!(<[u64; 4]>::from(U256::zero()), [0u64; 4], "zero");
        o.n(34);
        Ok(())
    });
    #[derive(Clone, Debug, Serialize, Deserialize)]
    struct PCase {
        v: Vec<u64>,
    }
    // strong pseudoprimes to small bases, Carmichael numbers, Lucas pseudoprimes
    const HARD: &[u64] = &[
        0, 1, 2, 3, 4, 9, 25, 49, 121, 341, 561, 1105, 1729, 2047, 2465, 3277, 4033, 4681, 5459, 5777, 6601, 8321, 10877, 15841, 29341, 42799, 49141, 52633, 65281, 74665, 75361, 80581, 85489, 88357, 90751, 1373653, 25326001, 3215031751, 2152302898747, 3474749660383, 341550071728321, 3825123056546413051, 4611686014132420609, 9223372036854775807, 18446744073709551557, 18446744073709551615, 18446744065119617029, 4295098369, 791616104449, 596684568769, 604009948602439681, 274518525251583649, 60651361, 175110049,
    ];
    let strat = || {
        let one = prop_oneof![
            2 => any::<u64>().prop_map(edge64),
            3 => (3u32..=62, any::<u64>()).prop_map(|(b, r)| rm::prime_1_mod(b, 2, r).unwrap()),
            2 => (5u32..=14, 30u32..=62, any::<u64>()).prop_map(|(l, b, r)| rm::prime_1_mod(b, 2u64 << l, r).unwrap()),
            2 => (3u32..=31, 3u32..=31, any::<u64>()).prop_map(|(a, b, r)| rm::prime_1_mod(a, 2, r).unwrap() * rm::prime_1_mod(b, 2, mix(r)).unwrap()),
            1 => (3u32..=31, any::<u64>()).prop_map(|(a, r)| { let p = rm::prime_1_mod(a, 2, r).unwrap(); p * p }),
            1 => (3u32..=30, any::<u64>()).prop_map(|(a, r)| { let p = rm::prime_1_mod(a, 2, r).unwrap(); p * (2 * p - 1) }),
            1 => 0u64..5000,
            1 => (0usize..HARD.len()).prop_map(|i| HARD[i]),
        ];
        vec(one, 1..40).prop_map(|v| PCase { v }).boxed()
    };
    ctx.sub("is_prime", "primes of 3..62 bits, NTT primes, semiprimes, squares of primes, p(2p-1), known strong/Lucas pseudoprimes and Carmichael numbers, all of u64: exact. Non-trivial: batch with both primes and composites", 100000, 2500000, strat, |c: &PCase, o| {
        let mut k = [false; 2];
        for v in &c.v {
            let want = rm::is_prime(*v);
            k[want as usize] = true;
            ensure_eq!(is_prime(*v), want, "is_prime({})", v);
        }
        o.nt(k[0] && k[1]);
        o.n(c.v.len());
        Ok(())
    });
}
