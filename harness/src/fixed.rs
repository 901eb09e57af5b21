crate::harnesses! {
fn frame_cv1() { pick!(cv1, frame) }
fn frame_cv2() { pick!(cv2, frame) }
fn frame_sysc() { pick!(sysc, frame) }
fn frame_util() { pick!(util, frame) }
fn frame_flex() { pick!(flex, frame) }
fn frame_stream() { pick!(stream, frame) }
fn decode_cv1() { pick!(cv1, decode) }
fn decode_cv2() { pick!(cv2, decode) }
fn decode_sysc() { pick!(sysc, decode) }
fn decode_util() { pick!(util, decode) }
fn decode_flex() { pick!(flex, decode) }
fn decode_stream() { pick!(stream, decode) }
fn encode_cv1() { pick!(cv1, encode) }
fn encode_cv2() { pick!(cv2, encode) }
fn encode_sysc() { pick!(sysc, encode) }
fn encode_util() { pick!(util, encode) }
fn encode_flex() { pick!(flex, encode) }
fn encode_stream() { pick!(stream, encode) }
fn fresh_cv1() { pick!(cv1, fresh) }
fn fresh_cv2() { pick!(cv2, fresh) }
fn fresh_sysc() { pick!(sysc, fresh) }
fn fresh_util() { pick!(util, fresh) }
fn fresh_flex() { pick!(flex, fresh) }
fn fresh_stream() { pick!(stream, fresh) }
}
