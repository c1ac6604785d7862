//! Independent reference arithmetic: plain `%` on u128, schoolbook polynomials, num-bigint CRT.
use num_bigint::{BigInt, BigUint, Sign};
use num_integer::Integer;
use num_traits::{One, Signed, ToPrimitive, Zero};

pub fn addm(a: u64, b: u64, p: u64) -> u64 {
    ((a as u128 + b as u128) % p as u128) as u64
}
pub fn subm(a: u64, b: u64, p: u64) -> u64 {
    ((a as u128 + p as u128 - (b % p) as u128) % p as u128) as u64
}
pub fn mulm(a: u64, b: u64, p: u64) -> u64 {
    ((a as u128 * b as u128) % p as u128) as u64
}
pub fn powm(mut a: u64, mut e: u64, p: u64) -> u64 {
    let mut r = 1 % p;
    a %= p;
    while e > 0 {
        if e & 1 == 1 {
            r = mulm(r, a, p);
        }
        a = mulm(a, a, p);
        e >>= 1;
    }
    r
}
pub fn i64m(a: i64, p: u64) -> u64 {
    (a as i128).rem_euclid(p as i128) as u64
}

/// Deterministic Miller-Rabin for all u64.
pub fn is_prime(n: u64) -> bool {
    if n < 2 {
        return false;
    }
    const B: [u64; 12] = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37];
    for b in B {
        if n % b == 0 {
            return n == b;
        }
    }
    let s = (n - 1).trailing_zeros();
    let d = (n - 1) >> s;
    'o: for b in B {
        let mut x = powm(b, d, n);
        if x == 1 || x == n - 1 {
            continue;
        }
        for _ in 1..s {
            x = mulm(x, x, n);
            if x == n - 1 {
                continue 'o;
            }
        }
        return false;
    }
    true
}

/// A `bits`-bit prime = 1 mod `m`, found downwards from a starting point chosen by `pick`,
/// wrapping once; None if there is none.
pub fn prime_1_mod(bits: u32, m: u64, pick: u64) -> Option<u64> {
    let lo = 1u64 << (bits - 1);
    let hi = (1u64 << bits) - 1;
    let kmin = (lo - 1).div_ceil(m);
    let kmax = (hi - 1) / m;
    if kmin > kmax || kmax == 0 {
        return None;
    }
    let span = kmax - kmin + 1;
    let start = kmin + pick % span;
    for j in 0..span {
        let k = kmin + (start - kmin + span - j) % span;
        let c = k * m + 1;
        if c >= lo && c <= hi && is_prime(c) {
            return Some(c);
        }
    }
    None
}

/// a*b mod (X^n + 1, p)
pub fn negacyclic(a: &[u64], b: &[u64], p: u64) -> Vec<u64> {
    let n = a.len();
    let dense = |v: &[u64]| v.iter().filter(|x| **x != 0).count();
    if n >= 256 && n.is_power_of_two() && (p - 1) % (2 * n as u64) == 0 && dense(a).min(dense(b)) > 64 && is_prime(p) {
        return negacyclic_fast(a, b, p);
    }
    negacyclic_schoolbook(a, b, p)
}

/// the same for large n and p = 1 mod 2n: twisted recursive transform; two coefficients of
/// every product are recomputed by the schoolbook formula
fn negacyclic_fast(a: &[u64], b: &[u64], p: u64) -> Vec<u64> {
    let n = a.len();
    let psi = (2..)
        .map(|g| powm(g, (p - 1) / (2 * n as u64), p))
        .find(|r| powm(*r, n as u64, p) == p - 1)
        .unwrap();
    let twist = |v: &[u64], r: u64, scale: u64| -> Vec<u64> {
        let mut f = scale;
        v.iter()
            .map(|x| {
                let y = mulm(*x, f, p);
                f = mulm(f, r, p);
                y
            })
            .collect()
    };
    fn dft(v: &[u64], w: u64, p: u64) -> Vec<u64> {
        let n = v.len();
        if n == 1 {
            return vec![v[0]];
        }
        let part = |o: usize| -> Vec<u64> { v.iter().skip(o).step_by(2).cloned().collect() };
        let w2 = mulm(w, w, p);
        let (e, o) = (dft(&part(0), w2, p), dft(&part(1), w2, p));
        let mut out = vec![0u64; n];
        let mut f = 1u64;
        for i in 0..n / 2 {
            let x = mulm(f, o[i], p);
            out[i] = addm(e[i], x, p);
            out[i + n / 2] = subm(e[i], x, p);
            f = mulm(f, w, p);
        }
        out
    }
    let w = mulm(psi, psi, p);
    let (fa, fb) = (dft(&twist(a, psi, 1), w, p), dft(&twist(b, psi, 1), w, p));
    let h: Vec<u64> = fa.iter().zip(&fb).map(|(x, y)| mulm(*x, *y, p)).collect();
    let out = twist(&dft(&h, inv_any(w, p), p), inv_any(psi, p), inv_any(n as u64 % p, p));
    for k in [n / 3, n - 1] {
        let mut v = 0u64;
        for i in 0..n {
            let (j, neg) = if i <= k { (k - i, false) } else { (n + k - i, true) };
            let m = mulm(a[i], b[j], p);
            v = if neg { subm(v, m, p) } else { addm(v, m, p) };
        }
        assert_eq!(v, out[k], "reference transform");
    }
    out
}

fn negacyclic_schoolbook(a: &[u64], b: &[u64], p: u64) -> Vec<u64> {
    let n = a.len();
    let mut out = vec![0u64; n];
    for (i, &x) in a.iter().enumerate() {
        if x == 0 {
            continue;
        }
        for (j, &y) in b.iter().enumerate() {
            if y == 0 {
                continue;
            }
            let m = mulm(x, y, p);
            let k = i + j;
            if k < n {
                out[k] = addm(out[k], m, p);
            } else {
                out[k - n] = subm(out[k - n], m, p);
            }
        }
    }
    out
}

/// a(X^k) mod (X^n + 1, p)
pub fn automorphism(a: &[u64], k: usize, p: u64) -> Vec<u64> {
    let n = a.len();
    let mut out = vec![0u64; n];
    for (i, &x) in a.iter().enumerate() {
        let e = (i * (k % (2 * n))) % (2 * n);
        if e < n {
            out[e] = addm(out[e], x % p, p);
        } else {
            out[e - n] = subm(out[e - n], x % p, p);
        }
    }
    out
}

pub fn product(moduli: &[u64]) -> BigUint {
    moduli.iter().fold(BigUint::one(), |a, q| a * *q)
}

/// CRT by incremental (Garner/mixed radix) reconstruction.
pub struct Crt {
    pub moduli: Vec<u64>,
    pub q: BigUint,
    prefix: Vec<BigUint>,
    prefix_inv: Vec<u64>,
}
impl Crt {
    pub fn new(moduli: &[u64]) -> Self {
        let mut prefix = vec![];
        let mut prefix_inv = vec![];
        let mut acc = BigUint::one();
        for &q in moduli {
            let r = (&acc % q).to_u64().unwrap();
            prefix.push(acc.clone());
            prefix_inv.push(inv_any(r, q));
            acc *= q;
        }
        Crt {
            moduli: moduli.to_vec(),
            q: acc,
            prefix,
            prefix_inv,
        }
    }
    pub fn lift(&self, r: &[u64]) -> BigUint {
        let mut x = BigUint::zero();
        for (i, &q) in self.moduli.iter().enumerate() {
            let cur = (&x % q).to_u64().unwrap();
            let d = mulm(subm(r[i] % q, cur, q), self.prefix_inv[i], q);
            x += &self.prefix[i] * d;
        }
        x
    }
    pub fn center(&self, x: &BigUint) -> BigInt {
        let x = x % &self.q;
        if &x + &x > self.q {
            BigInt::from(x) - BigInt::from(self.q.clone())
        } else {
            BigInt::from(x)
        }
    }
    /// rows[modulus][coefficient] -> centered integers
    pub fn center_rows(&self, rows: &[Vec<u64>]) -> Vec<BigInt> {
        (0..rows[0].len())
            .map(|j| {
                let r: Vec<u64> = rows.iter().map(|row| row[j]).collect();
                self.center(&self.lift(&r))
            })
            .collect()
    }
}

/// Inverse modulo any m coprime to a (extended Euclid).
pub fn inv_any(a: u64, m: u64) -> u64 {
    if m == 1 {
        return 0;
    }
    let (mut r0, mut r1) = (m as i128, (a % m) as i128);
    let (mut s0, mut s1) = (0i128, 1i128);
    while r1 != 0 {
        let q = r0 / r1;
        (r0, r1) = (r1, r0 - q * r1);
        (s0, s1) = (s1, s0 - q * s1);
    }
    assert!(r0 == 1, "not invertible");
    s0.rem_euclid(m as i128) as u64
}

pub fn gcd(a: u64, b: u64) -> u64 {
    a.gcd(&b)
}

pub fn bimod(x: &BigInt, p: u64) -> u64 {
    x.mod_floor(&BigInt::from(p)).to_u64().unwrap()
}
pub fn bimod_big(x: &BigInt, q: &BigUint) -> BigUint {
    x.mod_floor(&BigInt::from_biguint(Sign::Plus, q.clone()))
        .to_biguint()
        .unwrap()
}
/// log2 of |x| (0 for 0), as f64
pub fn log2_big(x: &BigInt) -> f64 {
    log2_ubig(&x.abs().to_biguint().unwrap())
}
pub fn log2_ubig(x: &BigUint) -> f64 {
    let b = x.bits();
    if b == 0 {
        return 0.0;
    }
    if b <= 60 {
        return (x.to_u64().unwrap() as f64).log2();
    }
    let top = (x >> (b - 60)).to_u64().unwrap() as f64;
    top.log2() + (b - 60) as f64
}
pub fn max_abs(v: &[BigInt]) -> BigInt {
    v.iter().map(|x| x.abs()).max().unwrap_or_else(BigInt::zero)
}
