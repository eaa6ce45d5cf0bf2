
use strict_encoding::{StrictDumb, StrictEncode, StrictDecode, StrictType};
#[derive(Clone, Default, StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = "Witness")]
#[derive(commit_verify::CommitEncode)]
#[commit_encode(strategy = strict, id = u64)] //~ E0277
pub struct A(pub u8);
fn main() {}
