
use commit_verify::StrictHash;
use strict_encoding::{StrictDumb, StrictEncode, StrictDecode, StrictType};
#[derive(Clone, Default, StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = "Witness")]
#[derive(commit_verify::CommitEncode)] //~ E0599
#[commit_encode(strategy = transparent, id = StrictHash)]
pub struct A(pub u8);
fn main() {}
