//! random tokens and PKCE
use vercre_core::{gen, pkce};

const B64URL: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";

fn b64url_char(c: u8) -> bool {
    c.is_ascii_alphanumeric() | (c == b'-') | (c == b'_')
}
/// unpadded base64url, written from RFC 4648 section 5
fn b64url(b: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    for c in b.chunks(3) {
        let x = [c[0], *c.get(1).unwrap_or(&0), *c.get(2).unwrap_or(&0)];
        let q = [x[0] >> 2, (x[0] & 3) << 4 | x[1] >> 4, (x[1] & 15) << 2 | x[2] >> 6, x[2] & 63];
        for i in q.iter().take(c.len() + 1) {
            o.push(B64URL[(*i & 63) as usize]);
        }
    }
    o
}

/// log2 of the number of equally likely outcomes, rounded down (in hundredths of a bit)
fn entropy(d: &[(u64, u64)]) -> u64 {
    let mut bits = 0u64;
    for (_, n) in d {
        let n = sym::concretize(*n);
        if n == 0 {
            bits += 6400;
            continue;
        }
        // floor(100 * log2 n) by repeated squaring
        let mut x = n as f64;
        let mut e = 0u64;
        while x >= 2.0 {
            x /= 2.0;
            e += 100;
        }
        let mut step = 50;
        while step > 0 {
            x *= x;
            if x >= 2.0 {
                x /= 2.0;
                e += step;
            }
            step /= 2;
        }
        bits += e;
    }
    bits
}

fn token_fn(i: usize) -> fn() -> String {
    [gen::auth_code as fn() -> String, gen::issuer_state, gen::nonce, gen::notification_id, gen::uri_token, gen::token, gen::transaction_id][i]
}

/// form of a token
#[cfg(feature = "g01")]
#[no_mangle]
pub extern "C" fn g01_form() {
    let f = token_fn(sym::choose("kind", 7));
    let t = f();
    sym::check(t.len() >= 22, "a token has at least 22 characters");
    let mut ok = true;
    for c in t.bytes() {
        ok &= b64url_char(c);
    }
    sym::check(ok, "a token consists of base64url characters");
    sym::cover("token");
}

/// two tokens coincide only when the randomness behind them coincides, and there is enough of it
#[cfg(feature = "g01")]
#[no_mangle]
pub extern "C" fn g01_entropy() {
    let f = token_fn(sym::choose("kind", 7));
    let k0 = fastrand::model_draws().len();
    let a = f();
    let k1 = fastrand::model_draws().len();
    let b = f();
    let d = fastrand::model_draws();
    let (da, db) = (&d[k0..k1], &d[k1..]);
    sym::note("draws", da.len() as u64);
    sym::check(entropy(da) >= 12800, "a token draws at least 128 bits of randomness");
    sym::check(entropy(db) >= 12800, "a second token draws fresh randomness");
    let mut same = a.len() == b.len();
    if same {
        for (x, y) in a.bytes().zip(b.bytes()) {
            same &= x == y;
        }
    }
    let mut eq = da.len() == db.len();
    if eq {
        for (x, y) in da.iter().zip(db) {
            eq &= x.0 == y.0;
        }
    }
    sym::check(!same | eq, "different randomness gives different tokens");
    sym::cover("compared");
}

/// every token of a sequence, whatever was generated before it
#[cfg(feature = "g01")]
#[no_mangle]
pub extern "C" fn g01_sequence() {
    let k = sym::choose("kind", 7);
    let n = [2, 4][sym::choose("before", sym::by_tier(1, 2))];
    for i in 0..n {
        let _ = token_fn(if i % 2 == 0 { k } else { (k + i) % 7 })();
    }
    let a = fastrand::model_draws().len();
    let t = token_fn(k)();
    let d = fastrand::model_draws();
    sym::check(t.len() >= 22, "a later token has at least 22 characters");
    sym::check(entropy(&d[a..]) >= 12800, "a later token draws fresh randomness");
    sym::cover("later");
}

/// transaction PIN
#[cfg(feature = "g02")]
#[no_mangle]
pub extern "C" fn g02_pin() {
    let a = gen::tx_code();
    let k1 = fastrand::model_draws().len();
    let b = gen::tx_code();
    let d = fastrand::model_draws();
    sym::check(a.len() == 6 && a.chars().count() == 6, "a PIN has six characters");
    let mut ok = true;
    for c in a.bytes() {
        ok &= c.is_ascii_digit();
    }
    sym::check(ok, "a PIN consists of decimal digits");
    let (da, db) = (&d[..k1], &d[k1..]);
    // one million equally likely PINs: 19.93 bits
    sym::check(entropy(da) >= 1980, "all one million PINs are possible");
    sym::check(entropy(db) >= 1980, "a second PIN draws fresh randomness");
    let mut same = true;
    for (x, y) in a.bytes().zip(b.bytes()) {
        same &= x == y;
    }
    let mut eq = da.len() == db.len();
    if eq {
        for (x, y) in da.iter().zip(db) {
            eq &= x.0 == y.0;
        }
    }
    sym::check(!same | eq, "different randomness gives different PINs");
    sym::cover("pin");
}

/// PINs after others
#[cfg(feature = "g02")]
#[no_mangle]
pub extern "C" fn g02_sequence() {
    for _ in 0..[2, 3, 10][sym::choose("before", 3)] {
        let _ = gen::tx_code();
    }
    let a = fastrand::model_draws().len();
    let t = gen::tx_code();
    let d = fastrand::model_draws();
    let mut ok = t.len() == 6;
    for c in t.bytes() {
        ok &= c.is_ascii_digit();
    }
    sym::check(ok, "a later PIN is six decimal digits");
    sym::check(entropy(&d[a..]) >= 1980, "a later PIN draws fresh randomness");
    sym::cover("later");
}

/// code verifier: length and alphabet of RFC 7636
#[cfg(feature = "k01")]
#[no_mangle]
pub extern "C" fn k01_verifier() {
    let v = pkce::code_verifier();
    sym::check(v.len() >= 43 && v.len() <= 128, "a code verifier has 43 to 128 characters");
    let mut ok = true;
    for c in v.bytes() {
        ok &= b64url_char(c) | (c == b'.') | (c == b'~');
    }
    sym::check(ok, "a code verifier consists of unreserved characters");
    let d = fastrand::model_draws();
    sym::check(entropy(&d) >= 25600, "a code verifier draws at least 256 bits of randomness");
    sym::cover("verifier");
}

/// code verifiers coincide only when the randomness does (characters; the length is drawn as well)
#[cfg(feature = "k01")]
#[no_mangle]
pub extern "C" fn k01_verifier_fresh() {
    let a = pkce::code_verifier();
    let k1 = fastrand::model_draws().len();
    // lengths up to this, unless the length is fixed (all draws are characters)
    sym::assume(k1 == a.len() || a.len() <= sym::by_tier(44, 46));
    let b = pkce::code_verifier();
    sym::assume(a.len() == b.len());
    let d = fastrand::model_draws();
    let (da, db) = (&d[..k1], &d[k1..]);
    let mut same = true;
    for (x, y) in a.bytes().zip(b.bytes()) {
        same &= x == y;
    }
    let mut eq = da.len() == db.len();
    if eq {
        for (x, y) in da.iter().zip(db) {
            eq &= x.0 == y.0;
        }
    }
    sym::check(!same | eq, "different randomness gives different verifiers");
    sym::cover("compared");
}

/// challenge = base64url(SHA-256(verifier)); the digest is an uninterpreted function
#[cfg(feature = "k02")]
#[no_mangle]
pub extern "C" fn k02_challenge() {
    use sha2::Digest;
    const LEN: [usize; 10] = [43, 0, 1, 44, 63, 64, 65, 100, 127, 128];
    let n = LEN[sym::choose("len", LEN.len())];
    let v = sym::ascii("v", n);
    let c = pkce::code_challenge(&v);
    let want = b64url(&sha2::Sha256::digest(v.as_bytes()));
    sym::check(c.len() == want.len(), "a challenge has 43 characters");
    let mut ok = true;
    for (x, y) in c.bytes().zip(want) {
        ok &= x == y;
    }
    sym::check(ok, "the challenge is the base64url SHA-256 of the verifier");
    sym::cover("challenge");
}

/// the challenge binds the whole verifier: it is a function of every character
#[cfg(feature = "k02")]
#[no_mangle]
pub extern "C" fn k02_binding() {
    const LEN: [usize; 4] = [43, 64, 65, 128];
    let n = LEN[sym::choose("len", LEN.len())];
    let v = sym::ascii("v", n);
    let i = sym::choose("pos", n);
    let mut w = v.clone().into_bytes();
    w[i] = sym::ascii("w", 1).as_bytes()[0];
    sym::assume(w[i] != v.as_bytes()[i]);
    let w = unsafe { String::from_utf8_unchecked(w) };
    let a = pkce::code_challenge(&v);
    let b = pkce::code_challenge(&w);
    let mut same = true;
    for (x, y) in a.bytes().zip(b.bytes()) {
        same &= x == y;
    }
    // SHA-256 is collision free for the purposes of this check
    use sha2::Digest;
    sym::assume(sha2::Sha256::digest(v.as_bytes()) != sha2::Sha256::digest(w.as_bytes()));
    sym::check(!same, "different verifiers give different challenges");
    sym::cover("binding");
}
