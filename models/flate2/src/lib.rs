//! Model: compression is the identity (any lossless code would do: the repository only ever compresses).
#[derive(Default, Clone, Copy)]
pub struct Compression;
pub mod write {
    use std::io::{Result, Write};
    pub struct GzEncoder<W: Write>(W);
    impl<W: Write> GzEncoder<W> {
        pub fn new(w: W, _c: super::Compression) -> Self {
            Self(w)
        }
        pub fn finish(self) -> Result<W> {
            Ok(self.0)
        }
    }
    impl<W: Write> Write for GzEncoder<W> {
        fn write(&mut self, b: &[u8]) -> Result<usize> {
            self.0.write_all(b)?;
            Ok(b.len())
        }
        fn flush(&mut self) -> Result<()> {
            self.0.flush()
        }
    }
}
