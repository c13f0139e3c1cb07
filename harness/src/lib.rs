//! Analysis roots: instantiates the public API of the crates under analysis with opaque
//! type parameters, so the compiler monomorphises it.  Never linked, never run.
#![allow(missing_docs)]
use ogg::PacketWriteEndInfo;
use optivorbis::remuxer::ogg_to_ogg::{OggVorbisStreamMangler, RemuxError, OggVorbisStreamPassthroughMangler as Pass, Settings};
use optivorbis::{OggToOgg, Remuxer, VorbisOptimizer, VorbisOptimizerError, VorbisOptimizerSettings};
use std::borrow::Cow;
use std::io::{self, Read, Seek, SeekFrom, Write};
use vorbis_bitpack::{BitpackReader, BitpackWriter, BitpackedIntegerWidth};

pub struct Src(pub u8);
pub struct Snk(pub u8);
pub struct Mangler(pub u8);

impl Read for Src {
    fn read(&mut self, _: &mut [u8]) -> io::Result<usize> {
        unreachable!()
    }
}
impl Seek for Src {
    fn seek(&mut self, _: SeekFrom) -> io::Result<u64> {
        unreachable!()
    }
}
impl Write for Snk {
    fn write(&mut self, _: &[u8]) -> io::Result<usize> {
        unreachable!()
    }
    fn flush(&mut self) -> io::Result<()> {
        unreachable!()
    }
}
impl OggVorbisStreamMangler for Mangler {
    fn mangle_sampling_frequency(&mut self, _: std::num::NonZeroU32) -> std::num::NonZeroU32 {
        unreachable!()
    }
    fn mangle_bitrates(&mut self, _: i32, _: i32, _: i32) -> (i32, i32, i32) {
        unreachable!()
    }
    fn mangle_packet_stream_serial(&mut self, _: u32, _: usize, _: bool) -> u32 {
        unreachable!()
    }
    fn mangle_packet_page_end_info(&mut self, _: PacketWriteEndInfo, _: usize, _: bool) -> PacketWriteEndInfo {
        unreachable!()
    }
    fn mangle_granule_position(&mut self, _: i64, _: usize, _: bool, _: bool) -> i64 {
        unreachable!()
    }
}

pub fn root_new(s: Settings<Mangler>, o: VorbisOptimizerSettings) -> OggToOgg<Mangler> {
    OggToOgg::new(s, o)
}
pub fn root_remux(x: &OggToOgg<Mangler>, r: Src, w: Snk) -> Result<Snk, RemuxError> {
    x.remux(r, w)
}
pub fn root_defaults() -> OggToOgg<Pass> {
    OggToOgg::new_with_defaults()
}
pub fn root_remux_default(x: &OggToOgg<Pass>, r: Src, w: Snk) -> Result<Snk, RemuxError> {
    x.remux(r, w)
}
pub fn root_opt_new<'a>(
    s: &'a VorbisOptimizerSettings,
    p: Vec<u8>,
) -> Result<VorbisOptimizer<'a>, VorbisOptimizerError> {
    VorbisOptimizer::new(s, p)
}
pub fn root_opt_new_slice<'a>(
    s: &'a VorbisOptimizerSettings,
    p: &[u8],
) -> Result<VorbisOptimizer<'a>, VorbisOptimizerError> {
    VorbisOptimizer::new(s, p)
}
pub fn root_analyze(o: &mut VorbisOptimizer<'_>, p: &[u8]) -> Result<Option<u16>, VorbisOptimizerError> {
    o.analyze_packet(p)
}
pub fn root_optimize<'p>(
    o: &mut VorbisOptimizer<'_>,
    p: Vec<u8>,
) -> Result<Option<(Cow<'p, [u8]>, Option<u16>)>, VorbisOptimizerError> {
    o.optimize_packet(p)
}

pub fn root_optimize_slice<'p>(
    o: &mut VorbisOptimizer<'_>,
    p: &'p [u8],
) -> Result<Option<(Cow<'p, [u8]>, Option<u16>)>, VorbisOptimizerError> {
    o.optimize_packet(p)
}

pub fn root_width_new(w: u8) -> Option<BitpackedIntegerWidth> {
    BitpackedIntegerWidth::new(w)
}
pub fn root_width_get(w: BitpackedIntegerWidth) -> u8 {
    w.get()
}
pub fn root_r_new(s: Src) -> BitpackReader<Src> {
    BitpackReader::new(s)
}
pub fn root_r_unsigned(r: &mut BitpackReader<Src>, w: BitpackedIntegerWidth) -> io::Result<u32> {
    r.read_unsigned_integer(w)
}
pub fn root_r_signed(r: &mut BitpackReader<Src>, w: BitpackedIntegerWidth) -> io::Result<i32> {
    r.read_signed_integer(w)
}
pub fn root_r_float(r: &mut BitpackReader<Src>) -> io::Result<f64> {
    r.read_float32()
}
pub fn root_r_flag(r: &mut BitpackReader<Src>) -> io::Result<bool> {
    r.read_flag()
}
pub fn root_r_inner(r: BitpackReader<Src>) -> Src {
    r.into_inner()
}
pub fn root_w_new(s: Snk) -> BitpackWriter<Snk> {
    BitpackWriter::new(s)
}
pub fn root_w_unsigned(w: &mut BitpackWriter<Snk>, i: u32, n: BitpackedIntegerWidth) -> io::Result<()> {
    w.write_unsigned_integer(i, n)
}
pub fn root_w_signed(w: &mut BitpackWriter<Snk>, i: i32, n: BitpackedIntegerWidth) -> io::Result<()> {
    w.write_signed_integer(i, n)
}
pub fn root_w_float(w: &mut BitpackWriter<Snk>, f: f64) -> io::Result<()> {
    w.write_float32(f)
}
pub fn root_w_flag(w: &mut BitpackWriter<Snk>, f: bool) -> io::Result<()> {
    w.write_flag(f)
}
pub fn root_w_finalize(w: &mut BitpackWriter<Snk>) -> io::Result<()> {
    w.finalize()
}
pub fn root_w_flush(w: &mut BitpackWriter<Snk>) -> io::Result<()> {
    w.flush()
}
pub fn root_w_drop(w: BitpackWriter<Snk>) {
    drop(w)
}
pub fn root_pass_frequency(m: &mut Pass, a: std::num::NonZeroU32) -> std::num::NonZeroU32 {
    m.mangle_sampling_frequency(a)
}
pub fn root_pass_bitrates(m: &mut Pass, a: i32, b: i32, c: i32) -> (i32, i32, i32) {
    m.mangle_bitrates(a, b, c)
}
pub fn root_pass_serial(m: &mut Pass, a: u32, n: usize, l: bool) -> u32 {
    m.mangle_packet_stream_serial(a, n, l)
}
pub fn root_pass_page_end(m: &mut Pass, a: PacketWriteEndInfo, n: usize, l: bool) -> PacketWriteEndInfo {
    m.mangle_packet_page_end_info(a, n, l)
}
pub fn root_pass_granule(m: &mut Pass, a: i64, n: usize, h: bool, l: bool) -> i64 {
    m.mangle_granule_position(a, n, h, l)
}
