/*!
Algorithms for the `x86_64` target using 128-bit vectors via SSE2.
*/

pub mod memchr;
pub mod packedpair;
