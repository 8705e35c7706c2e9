//! Harness interface. Compiled with `--cfg rsx` the primitives are left to the symbolic engine; otherwise they
//! replay one concrete assignment read from the file named by SYM_INPUTS (a counterexample of the engine).
#![allow(clippy::missing_safety_doc)]

#[cfg(rsx)]
extern "C" {
    fn sym_make(p: *mut u8, n: usize, name: *const u8, nl: usize, per: u32);
    fn sym_assume(c: bool);
    fn sym_check(c: bool, l: *const u8, n: usize);
    fn sym_cover(l: *const u8, n: usize);
    fn sym_phase(l: *const u8, n: usize, mode: u32);
    fn sym_concretize(v: u64) -> u64;
    fn sym_note(l: *const u8, n: usize, v: u64);
    fn sym_tier() -> u64;
}

#[cfg(not(rsx))]
mod native {
    use std::collections::HashMap;
    use std::sync::Mutex;
    pub static INPUTS: Mutex<Option<HashMap<String, Vec<u8>>>> = Mutex::new(None);
    pub static NAMES: Mutex<Option<HashMap<String, u32>>> = Mutex::new(None);
    pub static PHASE: Mutex<(String, u32)> = Mutex::new((String::new(), 0));
    pub fn load() {
        let mut g = INPUTS.lock().unwrap();
        if g.is_some() {
            return;
        }
        let mut m = HashMap::new();
        if let Ok(p) = std::env::var("SYM_INPUTS") {
            for l in std::fs::read_to_string(p).unwrap().lines() {
                if let Some((n, h)) = l.split_once('\t') {
                    let b = (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect();
                    m.insert(n.to_string(), b);
                }
            }
        }
        *g = Some(m);
    }
    pub fn fetch(name: &str, n: usize) -> Vec<u8> {
        load();
        let mut nm = NAMES.lock().unwrap();
        let nm = nm.get_or_insert_with(HashMap::new);
        let k = nm.entry(name.to_string()).or_insert(0);
        let full = if *k == 0 { name.to_string() } else { format!("{name}#{k}") };
        *k += 1;
        let g = INPUTS.lock().unwrap();
        let mut b = g.as_ref().unwrap().get(&full).cloned().unwrap_or_default();
        b.resize(n, 0);
        b
    }
}

#[inline(never)]
fn make(buf: &mut [u8], name: &str, per: u32) {
    #[cfg(rsx)]
    unsafe {
        sym_make(buf.as_mut_ptr(), buf.len(), name.as_ptr(), name.len(), per)
    }
    #[cfg(not(rsx))]
    {
        let _ = per;
        buf.copy_from_slice(&native::fetch(name, buf.len()));
    }
}

/// `n` independent symbolic bytes
pub fn bytes(name: &str, n: usize) -> Vec<u8> {
    let mut v = vec![0u8; n];
    if n > 0 {
        make(&mut v, name, 1);
    }
    v
}
/// ASCII string of exactly `n` symbolic characters
pub fn ascii(name: &str, n: usize) -> String {
    let mut v = vec![0u8; n];
    if n > 0 {
        make(&mut v, name, 2);
    }
    #[cfg(not(rsx))]
    assume(v.iter().all(|b| *b < 128));
    unsafe { String::from_utf8_unchecked(v) }
}
/// ASCII string of `lo..=hi` symbolic characters (the length is enumerated by forking)
pub fn ascii_upto(name: &str, lo: usize, hi: usize) -> String {
    let n = lo + choose(&format!("{name}.len"), hi - lo + 1);
    ascii(name, n)
}
macro_rules! ints {
    ($($f:ident $t:ty),*) => { $(
        #[must_use]
        pub fn $f(name: &str) -> $t {
            let mut b = [0u8; std::mem::size_of::<$t>()];
            make(&mut b, name, 0);
            <$t>::from_le_bytes(b)
        } )* };
}
ints!(u8 u8, u16 u16, u32 u32, u64 u64, i32 i32, i64 i64, usize usize);

/// symbolic boolean
pub fn bool(name: &str) -> bool {
    let mut b = [0u8; 1];
    make(&mut b, name, 3);
    b[0] == 1
}
/// symbolic integer in lo..=hi
pub fn range(name: &str, lo: i64, hi: i64) -> i64 {
    let v = i64(name);
    assume((v >= lo) & (v <= hi));
    v
}
/// picks one of n alternatives; each alternative becomes a path
pub fn choose(name: &str, n: usize) -> usize {
    let v = u8(name);
    assume((v as usize) < n);
    concretize(v as u64) as usize
}
/// a boolean decided by forking
pub fn flip(name: &str) -> bool {
    choose(name, 2) == 1
}
pub fn concretize(v: u64) -> u64 {
    #[cfg(rsx)]
    unsafe {
        sym_concretize(v)
    }
    #[cfg(not(rsx))]
    v
}
pub fn assume(c: bool) {
    #[cfg(rsx)]
    unsafe {
        sym_assume(c)
    }
    #[cfg(not(rsx))]
    if !c {
        eprintln!("SYM: assumption does not hold on replay");
        std::process::exit(77);
    }
}
pub fn check(c: bool, label: &str) {
    #[cfg(rsx)]
    unsafe {
        sym_check(c, label.as_ptr(), label.len())
    }
    #[cfg(not(rsx))]
    if !c {
        eprintln!("SYM: CHECK FAILED {label}");
        if std::env::var("SYM_LABEL").map_or(true, |l| l == label) {
            std::process::exit(101);
        }
    }
}
pub fn cover(label: &str) {
    #[cfg(rsx)]
    unsafe {
        sym_cover(label.as_ptr(), label.len())
    }
    #[cfg(not(rsx))]
    eprintln!("SYM: reached {label}");
}
/// names the part of the harness that runs now; a panic there is reported as `panic:<label>`
pub fn phase(label: &str) {
    #[cfg(rsx)]
    unsafe {
        sym_phase(label.as_ptr(), label.len(), 0)
    }
    #[cfg(not(rsx))]
    {
        *native::PHASE.lock().unwrap() = (label.to_string(), 0);
    }
}
/// as `phase`, but a panic silently ends the path
pub fn phase_panic_ok(label: &str) {
    #[cfg(rsx)]
    unsafe {
        sym_phase(label.as_ptr(), label.len(), 1)
    }
    #[cfg(not(rsx))]
    {
        *native::PHASE.lock().unwrap() = (label.to_string(), 1);
        let usual = std::panic::take_hook();
        std::panic::set_hook(Box::new(move |i| {
            if native::PHASE.lock().map_or(false, |p| p.1 == 1) {
                std::process::exit(0);
            }
            usual(i);
        }));
    }
}
/// shows a value in counterexamples
pub fn note(label: &str, v: u64) {
    #[cfg(rsx)]
    unsafe {
        sym_note(label.as_ptr(), label.len(), v)
    }
    #[cfg(not(rsx))]
    eprintln!("SYM: {label} = {v}");
}

/// 0 for the quick tier, 1 for the thorough one, 2 for the narrow one (bounds may depend on it)
pub fn tier() -> usize {
    #[cfg(rsx)]
    unsafe {
        sym_tier() as usize
    }
    #[cfg(not(rsx))]
    std::env::var("SYM_TIER").ok().and_then(|s| s.parse().ok()).unwrap_or(0)
}
/// `quick` or `thorough` depending on the tier
pub fn by_tier(quick: usize, thorough: usize) -> usize {
    if tier() == 1 {
        thorough
    } else {
        quick
    }
}
