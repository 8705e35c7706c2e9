//! Model: the QR code of a text is the text.
pub struct QrCode(Vec<u8>);
pub struct Renderer(Vec<u8>);
#[derive(Debug)]
pub struct QrError;
impl std::fmt::Display for QrError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("qr")
    }
}
impl std::error::Error for QrError {}
impl QrCode {
    pub fn new<D: AsRef<[u8]>>(d: D) -> Result<Self, QrError> {
        Ok(Self(d.as_ref().to_vec()))
    }
    pub fn render<P>(&self) -> Renderer {
        Renderer(self.0.clone())
    }
}
impl Renderer {
    pub fn build(&self) -> image::Buf {
        image::Buf(self.0.clone())
    }
}
