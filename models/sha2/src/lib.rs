//! VERIFICATION MODEL of the `sha2` crate: under the symbolic engine a digest is an uninterpreted function (equal
//! inputs give equal, otherwise unconstrained, digests, and different inputs may give any digest); natively it is
//! the real SHA-2 family, so counterexamples are replayed with real digests.

pub mod digest {
    pub use crate::Digest;
}

/// hash algorithms, same method names as the `digest` crate
pub trait Digest: Sized {
    type Output;
    fn new() -> Self;
    fn update(&mut self, data: impl AsRef<[u8]>);
    fn finalize(self) -> Self::Output;
    fn new_with_prefix(data: impl AsRef<[u8]>) -> Self {
        let mut s = Self::new();
        s.update(data);
        s
    }
    fn chain_update(mut self, data: impl AsRef<[u8]>) -> Self {
        self.update(data);
        self
    }
    fn finalize_reset(&mut self) -> Self::Output {
        std::mem::replace(self, Self::new()).finalize()
    }
    fn reset(&mut self) {
        *self = Self::new();
    }
    fn output_size() -> usize;
    fn digest(data: impl AsRef<[u8]>) -> Self::Output {
        Self::new_with_prefix(data).finalize()
    }
}

#[cfg(rsx)]
thread_local! {
    static PLAIN: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
/// under the engine, digests are a plain (concrete) function of their input from here on, for harnesses whose inputs to
/// it are concrete on every path
pub fn model_plain() {
    #[cfg(rsx)]
    PLAIN.with(|r| r.set(true));
}
#[cfg(rsx)]
fn plain(id: u32, input: &[u8], len: usize) -> Vec<u8> {
    let mut h = [0u64; 8];
    for (k, x) in h.iter_mut().enumerate() {
        *x = 0xcbf2_9ce4_8422_2325 ^ (u64::from(id) << 8) ^ k as u64;
    }
    for b in input {
        for x in &mut h[..2] {
            *x = (*x ^ u64::from(*b)).wrapping_mul(0x0000_0100_0000_01b3);
        }
    }
    for k in 2..8 {
        h[k] = (h[k] ^ h[k - 2]).wrapping_mul(0x9e37_79b9_7f4a_7c15);
    }
    h.iter().flat_map(|x| x.to_be_bytes()).take(len).collect()
}

macro_rules! algo {
    ($n:ident $len:expr, $id:expr, $native:expr) => {
        #[derive(Clone, Debug, Default)]
        pub struct $n(Vec<u8>);
        impl Digest for $n {
            type Output = [u8; $len];
            fn new() -> Self {
                Self(Vec::new())
            }
            fn update(&mut self, data: impl AsRef<[u8]>) {
                self.0.extend_from_slice(data.as_ref());
            }
            fn output_size() -> usize {
                $len
            }
            fn finalize(self) -> [u8; $len] {
                let mut out = [0u8; $len];
                #[cfg(rsx)]
                if PLAIN.with(std::cell::Cell::get) {
                    out.copy_from_slice(&plain($id, &self.0, $len));
                } else {
                    out.copy_from_slice(&uf::apply($id, self.0, $len));
                }
                #[cfg(not(rsx))]
                out.copy_from_slice(&($native)(&self.0)[..$len]);
                out
            }
        }
    };
}
algo!(Sha224 28, 224, native::sha224);
algo!(Sha256 32, 256, native::sha256);
algo!(Sha384 48, 384, native::sha384);
algo!(Sha512 64, 512, native::sha512);

#[cfg(rsx)]
mod uf {
    use std::cell::RefCell;
    thread_local! {
        static SEEN: RefCell<Vec<(u32, Vec<u8>, Vec<u8>)>> = const { RefCell::new(Vec::new()) };
    }
    pub fn apply(id: u32, input: Vec<u8>, len: usize) -> Vec<u8> {
        SEEN.with(|s| {
            let mut s = s.borrow_mut();
            for (i, x, y) in s.iter() {
                if *i == id && x.len() == input.len() && *x == input {
                    return y.clone();
                }
            }
            let y = sym::bytes("digest", len);
            s.push((id, input, y.clone()));
            y
        })
    }
}

#[cfg(not(rsx))]
mod native {
    fn primes(n: usize) -> Vec<u128> {
        let mut v: Vec<u128> = Vec::new();
        let mut k = 2u128;
        while v.len() < n {
            if v.iter().all(|p| k % p != 0) {
                v.push(k);
            }
            k += 1;
        }
        v
    }
    // first 64 bits of the fractional part of the k-th root of p (k = 2, 3), by integer search
    fn frac(p: u128, k: u32) -> u64 {
        // find floor(p^(1/k) * 2^64): x^k <= p * 2^(64k); arithmetic on 320-bit numbers as little-endian u64 limbs
        fn mul(a: &[u64], b: &[u64]) -> Vec<u64> {
            let mut r = vec![0u64; a.len() + b.len()];
            for (i, x) in a.iter().enumerate() {
                let mut c = 0u128;
                for (j, y) in b.iter().enumerate() {
                    let t = (*x as u128) * (*y as u128) + r[i + j] as u128 + c;
                    r[i + j] = t as u64;
                    c = t >> 64;
                }
                r[i + b.len()] = c as u64;
            }
            r
        }
        fn le(a: &[u64], b: &[u64]) -> bool {
            let n = a.len().max(b.len());
            for i in (0..n).rev() {
                let (x, y) = (a.get(i).copied().unwrap_or(0), b.get(i).copied().unwrap_or(0));
                if x != y {
                    return x < y;
                }
            }
            true
        }
        let mut target = vec![0u64; k as usize];
        target.push(p as u64);
        let mut x = 0u128;
        for bit in (0..70).rev() {
            let c = x | (1u128 << bit);
            let l = [c as u64, (c >> 64) as u64];
            let mut pw = l.to_vec();
            for _ in 1..k {
                pw = mul(&pw, &l);
            }
            if le(&pw, &target) {
                x = c;
            }
        }
        x as u64
    }
    fn pad(m: &[u8], block: usize) -> Vec<u8> {
        let mut v = m.to_vec();
        v.push(0x80);
        while v.len() % block != block - block / 8 {
            v.push(0);
        }
        let bits = (m.len() as u128) * 8;
        if block == 64 {
            v.extend_from_slice(&(bits as u64).to_be_bytes());
        } else {
            v.extend_from_slice(&bits.to_be_bytes());
        }
        v
    }
    fn small(m: &[u8], mut h: [u32; 8]) -> Vec<u8> {
        let k: Vec<u32> = primes(64).into_iter().map(|p| (frac(p, 3) >> 32) as u32).collect();
        for b in pad(m, 64).chunks(64) {
            let mut w: Vec<u32> = b.chunks(4).map(|c| u32::from_be_bytes(c.try_into().unwrap())).collect();
            for i in 16..64 {
                let s0 = w[i - 15].rotate_right(7) ^ w[i - 15].rotate_right(18) ^ (w[i - 15] >> 3);
                let s1 = w[i - 2].rotate_right(17) ^ w[i - 2].rotate_right(19) ^ (w[i - 2] >> 10);
                w.push(w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1));
            }
            let mut s = h;
            for i in 0..64 {
                let [a, b, c, d, e, f, g, hh] = s;
                let s1 = e.rotate_right(6) ^ e.rotate_right(11) ^ e.rotate_right(25);
                let t1 = hh.wrapping_add(s1).wrapping_add((e & f) ^ (!e & g)).wrapping_add(k[i]).wrapping_add(w[i]);
                let s0 = a.rotate_right(2) ^ a.rotate_right(13) ^ a.rotate_right(22);
                let t2 = s0.wrapping_add((a & b) ^ (a & c) ^ (b & c));
                s = [t1.wrapping_add(t2), a, b, c, d.wrapping_add(t1), e, f, g];
            }
            for i in 0..8 {
                h[i] = h[i].wrapping_add(s[i]);
            }
        }
        h.iter().flat_map(|x| x.to_be_bytes()).collect()
    }
    fn large(m: &[u8], mut h: [u64; 8]) -> Vec<u8> {
        let k: Vec<u64> = primes(80).into_iter().map(|p| frac(p, 3)).collect();
        for b in pad(m, 128).chunks(128) {
            let mut w: Vec<u64> = b.chunks(8).map(|c| u64::from_be_bytes(c.try_into().unwrap())).collect();
            for i in 16..80 {
                let s0 = w[i - 15].rotate_right(1) ^ w[i - 15].rotate_right(8) ^ (w[i - 15] >> 7);
                let s1 = w[i - 2].rotate_right(19) ^ w[i - 2].rotate_right(61) ^ (w[i - 2] >> 6);
                w.push(w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1));
            }
            let mut s = h;
            for i in 0..80 {
                let [a, b, c, d, e, f, g, hh] = s;
                let s1 = e.rotate_right(14) ^ e.rotate_right(18) ^ e.rotate_right(41);
                let t1 = hh.wrapping_add(s1).wrapping_add((e & f) ^ (!e & g)).wrapping_add(k[i]).wrapping_add(w[i]);
                let s0 = a.rotate_right(28) ^ a.rotate_right(34) ^ a.rotate_right(39);
                let t2 = s0.wrapping_add((a & b) ^ (a & c) ^ (b & c));
                s = [t1.wrapping_add(t2), a, b, c, d.wrapping_add(t1), e, f, g];
            }
            for i in 0..8 {
                h[i] = h[i].wrapping_add(s[i]);
            }
        }
        h.iter().flat_map(|x| x.to_be_bytes()).collect()
    }
    fn iv64(from: usize) -> [u64; 8] {
        let p = primes(16);
        std::array::from_fn(|i| frac(p[from + i], 2))
    }
    pub fn sha256(m: &[u8]) -> Vec<u8> {
        small(m, iv64(0).map(|x| (x >> 32) as u32))
    }
    pub fn sha224(m: &[u8]) -> Vec<u8> {
        small(m, iv64(8).map(|x| x as u32))
    }
    pub fn sha512(m: &[u8]) -> Vec<u8> {
        large(m, iv64(0))
    }
    pub fn sha384(m: &[u8]) -> Vec<u8> {
        large(m, iv64(8))
    }
}

#[cfg(all(test, not(rsx)))]
mod tests {
    use super::*;
    fn hex(b: &[u8]) -> String {
        b.iter().map(|x| format!("{x:02x}")).collect()
    }
    #[test]
    fn vectors() {
        assert_eq!(hex(&Sha256::digest("abc")), "ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad");
        assert_eq!(hex(&Sha224::digest("abc")), "23097d223405d8228642a477bda255b32aadbce4bda0b3f7e36c9da7");
        assert_eq!(hex(&Sha512::digest("abc"))[..32], "ddaf35a193617abacc417349ae204131"[..]);
        assert_eq!(hex(&Sha384::digest("abc"))[..32], "cb00753f45a35e8bb5a03d699ac65007"[..]);
    }
}
