
use commit_verify::StrictHash;
use strict_encoding::{StrictDumb, StrictEncode, StrictDecode, StrictType};
#[derive(Clone, Default, StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = "Witness")]
#[derive(commit_verify::CommitEncode)] //~ strategy
#[commit_encode(strategy = hash, id = StrictHash)]
pub struct A(pub u8);
fn main() { let _: Option<StrictHash> = None; }
