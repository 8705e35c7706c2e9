//! Model: draws come from a list the harness has set (`model_draws_i32`), afterwards from a counter (never twice the
//! same value).
use std::sync::Mutex;
static NEXT: Mutex<(Vec<i32>, u32)> = Mutex::new((Vec::new(), 1));
pub fn model_draws_i32(v: Vec<i32>) {
    NEXT.lock().unwrap().0 = v;
}
pub struct ThreadRng;
pub fn thread_rng() -> ThreadRng {
    ThreadRng
}
pub trait Draw {
    fn draw() -> Self;
}
fn tick() -> u32 {
    let mut g = NEXT.lock().unwrap();
    g.1 += 1;
    g.1
}
impl Draw for i32 {
    fn draw() -> Self {
        let mut g = NEXT.lock().unwrap();
        if g.0.is_empty() {
            g.1 += 1;
            return g.1 as i32;
        }
        g.0.remove(0)
    }
}
impl Draw for u32 {
    fn draw() -> Self {
        i32::draw() as u32
    }
}
impl Draw for u64 {
    fn draw() -> Self {
        tick() as u64
    }
}
impl<const N: usize> Draw for [u8; N] {
    fn draw() -> Self {
        let t = tick().to_le_bytes();
        let mut o = [0u8; N];
        for (i, x) in o.iter_mut().enumerate() {
            *x = if i < 4 { t[i] } else { i as u8 };
        }
        o
    }
}
pub trait Rng {
    fn gen<T: Draw>(&mut self) -> T {
        T::draw()
    }
    fn fill(&mut self, b: &mut [u8]) {
        for x in b {
            *x = tick() as u8;
        }
    }
}
impl Rng for ThreadRng {}
