
use core::fmt;
use single_use_seals::*;
use strict_encoding::{StrictDumb, StrictDecode, StrictEncode, StrictType};
use witness::seals::*;
#[derive(Clone, Debug, Default, StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = "Witness")]
pub struct Green(u8);
impl fmt::Display for Green {
    fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result { Ok(()) }
}
impl SingleUseSeal for Green {
    type Message = u64;
    type PubWitness = RedPub; //~ E0277
    type CliWitness = NoCli<Red>; //~ E0271
    fn is_included(&self, _: u64, _: &SealWitness<Self>) -> bool { true }
}
fn main() {}
