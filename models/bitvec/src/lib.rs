//! Model of the part of bitvec the status list uses. A bit slice of N bits is the list of writes to it; reading it
//! back in order yields the window of positions the harness has chosen (`model_window`), all of them by default.
use std::cell::Cell;
thread_local! {
    static WINDOW: Cell<(usize, usize)> = const { Cell::new((0, usize::MAX)) };
}
pub fn model_window(from: usize, n: usize) {
    WINDOW.with(|w| w.set((from, n)));
}
pub mod order {
    pub struct Lsb0;
    pub struct Msb0;
}
#[derive(Default)]
pub struct Bits {
    len: usize,
    writes: Vec<(usize, bool)>,
}
impl Bits {
    pub fn model_new(len: usize) -> Self {
        Self { len, writes: vec![] }
    }
    pub fn len(&self) -> usize {
        self.len
    }
    pub fn is_empty(&self) -> bool {
        self.len == 0
    }
    pub fn set(&mut self, i: usize, v: bool) {
        assert!(i < self.len, "index {i} out of bounds");
        self.writes.push((i, v));
    }
    pub fn get(&self, i: usize) -> Option<Bit> {
        if i < self.len {
            Some(Bit(self.at(i)))
        } else {
            None
        }
    }
    fn at(&self, i: usize) -> bool {
        let mut v = false;
        for (p, x) in &self.writes {
            let hit = *p == i;
            v = (hit & *x) | (!hit & v);
        }
        v
    }
    pub fn iter(&self) -> std::vec::IntoIter<Bit> {
        let (from, n) = WINDOW.with(Cell::get);
        let end = from.saturating_add(n).min(self.len);
        (from.min(end)..end).map(|i| Bit(self.at(i))).collect::<Vec<_>>().into_iter()
    }
}
#[derive(Clone, Copy)]
pub struct Bit(bool);
impl std::ops::Deref for Bit {
    type Target = bool;
    fn deref(&self) -> &bool {
        &self.0
    }
}
impl IntoIterator for &Bits {
    type Item = Bit;
    type IntoIter = std::vec::IntoIter<Bit>;
    fn into_iter(self) -> Self::IntoIter {
        self.iter()
    }
}
impl IntoIterator for &mut Bits {
    type Item = Bit;
    type IntoIter = std::vec::IntoIter<Bit>;
    fn into_iter(self) -> Self::IntoIter {
        self.iter()
    }
}
impl IntoIterator for Bits {
    type Item = Bit;
    type IntoIter = std::vec::IntoIter<Bit>;
    fn into_iter(self) -> Self::IntoIter {
        self.iter()
    }
}
#[macro_export]
macro_rules! bits {
    (mut 0; $n:expr) => {
        &mut $crate::Bits::model_new($n)
    };
}
#[macro_export]
macro_rules! bitvec {
    (0; $n:expr) => {
        $crate::Bits::model_new($n)
    };
}
pub struct View(Vec<Bit>);
impl View {
    pub fn iter(&self) -> std::iter::Copied<std::slice::Iter<'_, Bit>> {
        self.0.iter().copied()
    }
    pub fn len(&self) -> usize {
        self.0.len()
    }
    pub fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
}
pub trait Order {
    const LSB: bool;
}
impl Order for order::Lsb0 {
    const LSB: bool = true;
}
impl Order for order::Msb0 {
    const LSB: bool = false;
}
pub mod view {
    use super::{Bit, Order, View};
    pub trait BitView {
        fn view_bits<O: Order>(&self) -> View;
    }
    impl BitView for u8 {
        fn view_bits<O: Order>(&self) -> View {
            View((0..8).map(|i| Bit((*self >> if O::LSB { i } else { 7 - i }) & 1 == 1)).collect())
        }
    }
}
pub mod prelude {
    pub use crate::order::{Lsb0, Msb0};
    pub use crate::view::BitView;
    pub use crate::{bits, bitvec};
}
