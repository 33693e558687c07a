//! Monomorphic entry points into whasm. This crate is compiled to obtain MIR; it is never run.
#![allow(clippy::all)]
#![feature(try_trait_v2)]
use whasm::binary::{Result, WasmBinary, WasmBinaryParse, WasmBinaryParseProxy};

pub mod model;
pub mod roots;

/// The opaque byte source: the analysis treats `next` as "read one byte or end of input".
pub struct Src(pub u8);
impl Iterator for Src {
    type Item = u8;
    #[inline(never)]
    fn next(&mut self) -> Option<u8> {
        None
    }
}

/// An undetermined truth value.
#[inline(never)]
pub fn choose() -> bool {
    true
}
/// Marks what a consumer obtained from the iterator it was given.
#[inline(never)]
pub fn got(_: Option<u8>) {}
#[inline(never)]
pub fn some_error() -> whasm::binary::Error {
    whasm::binary::Error::UnexpectedEndOfFile
}

/// An opaque element type. Where the analysis does not treat parsing it as an atomic event, it
/// stands for every consumer: any number of reads, then success or failure.
pub struct El(pub u64);
impl WasmBinaryParse for El {
    #[inline(never)]
    fn parse<B: WasmBinary>(bin: &mut B) -> Result<Self> {
        while choose() {
            got(bin.next());
        }
        if choose() {
            Ok(El(0))
        } else {
            Err(some_error())
        }
    }
}
#[derive(Clone, Copy)]
pub struct ElC(pub u64);
impl WasmBinaryParse for ElC {
    #[inline(never)]
    fn parse<B: WasmBinary>(_: &mut B) -> Result<Self> {
        Ok(ElC(0))
    }
}
/// An opaque proxy type.
pub struct ElP(pub u64);
impl WasmBinaryParse for ElP {
    #[inline(never)]
    fn parse<B: WasmBinary>(_: &mut B) -> Result<Self> {
        Ok(ElP(0))
    }
}
impl WasmBinaryParseProxy for ElP {
    type Inner = El;
    #[inline(never)]
    fn unwrap(self) -> El {
        El(self.0)
    }
}
