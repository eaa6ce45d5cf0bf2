//! Programs a user of the derive macro would write: what the macro expands to
//! is analysed, never run.
#[macro_use]
extern crate amplify;
#[macro_use]
extern crate strict_encoding;
#[macro_use]
extern crate commit_verify;

use amplify::confinement::SmallVec;
use commit_verify::merkle::{MerkleHash, MerkleLeaves};
use commit_verify::{Conceal, StrictHash};

pub const LIB: &str = "Fixture";

#[derive(Clone, Eq, PartialEq, Debug, Default)]
#[derive(StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = LIB)]
#[derive(CommitEncode)]
#[commit_encode(strategy = strict, id = StrictHash)]
pub struct ByStrict {
    pub a: u8,
    pub b: u16,
}

#[derive(Clone, Eq, PartialEq, Debug, Default)]
#[derive(StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = LIB)]
#[derive(CommitEncode)]
#[commit_encode(strategy = strict, id = MerkleHash)]
pub struct GenericStrict<T: strict_encoding::StrictEncode + strict_encoding::StrictDecode + strict_encoding::StrictDumb + Default> {
    pub a: T,
}

#[derive(Clone, Eq, PartialEq, Debug, Default)]
#[derive(StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = LIB)]
pub struct Hidden(pub u8);

impl Conceal for Hidden {
    type Concealed = Hidden;
    fn conceal(&self) -> Hidden { self.clone() }
}

#[derive(Clone, Eq, PartialEq, Debug, Default)]
#[derive(StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = LIB)]
#[derive(CommitEncode)]
#[commit_encode(strategy = conceal, id = StrictHash)]
pub struct ByConceal {
    pub secret: u64,
}

impl Conceal for ByConceal {
    type Concealed = Hidden;
    fn conceal(&self) -> Hidden { Hidden(self.secret as u8) }
}

#[derive(Wrapper, Clone, Eq, PartialEq, Debug, Default, From)]
#[derive(StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = LIB)]
pub struct Plain(u32);

#[derive(Wrapper, Clone, Eq, PartialEq, Debug, Default, From)]
#[derive(StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = LIB)]
#[derive(CommitEncode)]
#[commit_encode(strategy = transparent, id = StrictHash)]
pub struct ByTransparent(Plain);

#[derive(Clone, Copy, Eq, PartialEq, Debug, Default)]
#[derive(StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = LIB)]
#[derive(CommitEncode)]
#[commit_encode(strategy = strict, id = MerkleHash)]
pub struct Item(pub u8);

#[derive(Clone, Eq, PartialEq, Debug, Default)]
#[derive(CommitEncode)]
#[commit_encode(strategy = merklize, id = StrictHash)]
pub struct ByMerkle {
    pub items: SmallVec<Item>,
}

impl MerkleLeaves for ByMerkle {
    type Leaf = Item;
    fn merkle_leaves(&self) -> impl ExactSizeIterator<Item = &Item> { self.items.iter() }
}
