//! Model: pictures carry the text they depict.
use std::io::Write;
pub struct Luma<T>(pub T);
pub enum ImageFormat {
    Png,
}
#[derive(Clone, Debug)]
pub struct Buf(pub Vec<u8>);
pub struct DynamicImage(Buf);
impl From<Buf> for DynamicImage {
    fn from(b: Buf) -> Self {
        Self(b)
    }
}
impl DynamicImage {
    pub fn write_to<W: Write>(&self, w: &mut W, _f: ImageFormat) -> Result<(), std::io::Error> {
        w.write_all(&self.0 .0)
    }
}
impl Buf {
    pub fn write_to<W: Write>(&self, w: &mut W, _f: ImageFormat) -> Result<(), std::io::Error> {
        w.write_all(&self.0)
    }
}
