//! System exclusive 8 bit messages.
use crate::sx::*;
#[allow(unused_imports)]
use crate::own::*;
use crate::sym::*;
use midi2::prelude::*;
use midi2::sysex8::{Packet, Sysex8};

const SIZES: &[u8] = &[0, 1, 2, 12, 13];
fn stream<B: midi2::buffer::Ump>(m: &Sysex8<B>) -> u8 {
    m.stream_id()
}
fn set_stream<B: midi2::buffer::Ump + midi2::buffer::BufferMut>(m: &mut Sysex8<B>, v: u8) {
    m.set_stream_id(v)
}
fn packet_status(p: &Packet, status: u32, unexpected: bool, count: u32) {
    const NAMES: [&str; 4] = ["Complete", "Start", "Continue", "End"];
    let k = concrete(status as u64) as usize;
    let want = match (unexpected, count == 1) {
        (true, true) => "UnexpectedEnd(Valid)",
        (true, false) => "UnexpectedEnd(Invalid)",
        _ => NAMES[k & 3],
    };
    check(k < 4 && shows(&p.status(), want), "packet: status");
    check(p.stream_id() as u32 == p[0] >> 8 & 255, "packet: stream id");
}
const FEW: &[u8] = &[0, 1, 13];
const ALL: &[u8] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13];
sx_ump!(K8, Sysex8, SIZES);

crate::harnesses! {
fn s8_vec() { edit_vec(arb_op(), 2, SIZES, 14, 2) }
fn s8_vec3() { edit_vec(arb_op(), 3, FEW, 2, 1) }
fn s8_array8() { edit_array::<8>(arb_op(), 2, SIZES, 14, 2) }
fn s8_array13() { edit_array::<13>(arb_op(), 3, FEW, 2, 1) }
fn s8_dirty8() { edit_dirty::<8>(arb_op(), 14, 2) }
fn s8_dirty11() { edit_dirty::<11>(arb_op(), 14, 2) }
fn s8_borrowed() { edit_borrowed(arb_op(), 12, 2) }
fn s8_beyond() { beyond_ump() }
fn s8_parse() { parse(9) }
fn s8_iterate() { iterate(2, SIZES, 1) }
fn s8_own() { edit_own(arb_op(), 14) }
fn s8_long() { edit_long(arb_op()) }
fn s8_parse_long() { parse_long(8) }
fn s8_packets_iterate() { packets_iterate() }
fn s8_rebuffer_mut() { rebuffer_mut() }
fn s8_headers() { headers(6, FEW) }
fn s8_packets() { packets(4, SIZES) }
fn s8_rebuffer() { rebuffer(5, FEW) }
fn s8_packet() { packet(5) }
fn s8_vec_deep() { edit_vec(arb_op(), 2, ALL, 14, 4) }
fn s8_vec3_deep() { edit_vec(arb_op(), 3, &[0, 1, 12, 13], 14, 5) }
fn s8_array_deep() { edit_array::<16>(arb_op(), 4, FEW, 14, 4) }
fn s8_dirty_deep() { edit_dirty::<16>(arb_op(), 14, 4) }
fn s8_parse_deep() { parse(13) }
fn s8_iterate_deep() { iterate(3, SIZES, 3) }
}
