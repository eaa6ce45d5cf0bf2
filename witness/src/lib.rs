//! What the programs in src/bin share. Each of them must be accepted or refused by the compiler as its
//! comments say: `//~ X` marks a line where an error must be reported whose code or text contains X, and
//! nothing may be reported on another line. They are type-checked, never run.
#[macro_use]
extern crate strict_encoding;
#[macro_use]
extern crate commit_verify;

use amplify::confinement::SmallVec;
use commit_verify::merkle::{MerkleHash, MerkleLeaves};
use commit_verify::{CommitVerify, Conceal, StrictHash, UntaggedProtocol};

pub const LIB: &str = "Witness";

/// strictly encodable, its id is a generic one
#[derive(Clone, Eq, PartialEq, Debug, Default, StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = LIB)]
#[derive(CommitEncode)]
#[commit_encode(strategy = strict, id = StrictHash)]
pub struct Text(pub u8);

/// the same, with a Merkle node as its id
#[derive(Copy, Clone, Eq, PartialEq, Debug, Default, StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = LIB)]
#[derive(CommitEncode)]
#[commit_encode(strategy = strict, id = MerkleHash)]
pub struct Item(pub u8);

pub struct Items(pub SmallVec<Item>);

impl MerkleLeaves for Items {
    type Leaf = Item;
    fn merkle_leaves(&self) -> impl ExactSizeIterator<Item = &Item> { self.0.iter() }
}

/// concealed before it is encoded
#[derive(Clone, Eq, PartialEq, Debug, Default, StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = LIB)]
pub struct Secret(pub u64);

impl Conceal for Secret {
    type Concealed = Text;
    fn conceal(&self) -> Text { Text(self.0 as u8) }
}

/// not known to any encoding
pub struct Opaque;

/// a commitment under one protocol only
#[derive(Eq, PartialEq)]
pub struct Cmt(pub u8);

impl CommitVerify<Text, UntaggedProtocol> for Cmt {
    fn commit(msg: &Text) -> Cmt { Cmt(msg.0) }
}

pub mod seals {
    use core::convert::Infallible;
    use core::fmt;

    use single_use_seals::{NoWitness, PublishedWitness, SealWitness, SingleUseSeal};

    macro_rules! seal {
        ($seal:ident, $wit:ident, $msg:ty) => {
            #[derive(Clone, Debug, Default, StrictType, StrictEncode, StrictDecode)]
            #[strict_type(lib = super::LIB)]
            pub struct $seal(pub u8);

            impl fmt::Display for $seal {
                fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result { Ok(()) }
            }

            #[derive(Clone, Debug, Default, StrictType, StrictEncode, StrictDecode)]
            #[strict_type(lib = super::LIB)]
            pub struct $wit(pub u8);

            impl PublishedWitness<$seal> for $wit {
                type PubId = u8;
                type Error = Infallible;
                fn pub_id(&self) -> u8 { 0 }
                fn verify_commitment(&self, _: $msg) -> Result<(), Infallible> { Ok(()) }
            }

            impl SingleUseSeal for $seal {
                type Message = $msg;
                type PubWitness = $wit;
                type CliWitness = NoCli<$seal>;
                fn is_included(&self, _: $msg, _: &SealWitness<Self>) -> bool { true }
            }
        };
    }

    #[derive(Clone, Debug, Default, StrictType, StrictEncode, StrictDecode)]
    #[strict_type(lib = super::LIB)]
    pub struct NoCli<S: Default + strict_encoding::StrictEncode + strict_encoding::StrictDecode>(pub S);

    impl<S: Default + strict_encoding::StrictEncode + strict_encoding::StrictDecode> PartialEq for NoCli<S> {
        fn eq(&self, _: &Self) -> bool { true }
    }
    impl<S: Default + strict_encoding::StrictEncode + strict_encoding::StrictDecode> Eq for NoCli<S> {}

    impl<S: SingleUseSeal + Default + strict_encoding::StrictEncode + strict_encoding::StrictDecode> single_use_seals::ClientSideWitness for NoCli<S> {
        type Seal = S;
        type Proof = S::Message;
        type Error = Infallible;
        fn convolve_commit(&self, msg: S::Message) -> Result<S::Message, Infallible> { Ok(msg) }
        fn merge(&mut self, _: Self) -> Result<(), impl core::error::Error> { Ok::<_, Infallible>(()) }
    }

    seal!(Red, RedPub, [u8; 4]);
    seal!(Blue, BluePub, u64);

    pub fn pass_through(w: &NoWitness<Red>, m: [u8; 4]) -> [u8; 4] {
        use single_use_seals::ClientSideWitness;
        w.convolve_commit(m).unwrap()
    }
}
