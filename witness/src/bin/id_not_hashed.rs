
use commit_verify::*;
use strict_encoding::{StrictDumb, StrictDecode, StrictEncode, StrictType};
#[derive(Copy, Clone, Ord, PartialOrd, Eq, PartialEq, Default, StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = "Witness")]
pub struct Id(u8);
impl CommitmentId for Id { //~ E0277
    const TAG: &'static str = "";
}
fn main() {}
