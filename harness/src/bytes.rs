crate::harnesses! {
fn bframe_cv1() { pickb!(cv1, frame) }
fn bframe_sysc() { pickb!(sysc, frame) }
fn bdecode_cv1() { pickb!(cv1, decode) }
fn bdecode_sysc() { pickb!(sysc, decode) }
fn bencode_cv1() { pickb!(cv1, encode) }
fn bencode_sysc() { pickb!(sysc, encode) }
fn bfresh_cv1() { pickb!(cv1, fresh) }
fn bfresh_sysc() { pickb!(sysc, fresh) }
fn convert_cv1() { pickb!(cv1, convert) }
fn convert_sysc() { pickb!(sysc, convert) }
}
