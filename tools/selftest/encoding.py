B = 'commit_verify/src/mpc/block.rs'
A = 'commit_verify/src/mpc/atoms.rs'
M = 'commit_verify/src/merkle.rs'
I = 'commit_verify/src/id.rs'
S = 'single_use_seals/src/lib.rs'
NODED = ('''#[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = LIB_NAME_COMMIT_VERIFY)]
#[derive(CommitEncode)]
#[commit_encode(crate = crate, strategy = strict, id = MerkleHash)]
pub struct MerkleNode {''', '''#[derive(StrictDumb, StrictType, StrictEncode)]
#[strict_type(lib = LIB_NAME_COMMIT_VERIFY)]
#[derive(CommitEncode)]
#[commit_encode(crate = crate, strategy = strict, id = MerkleHash)]
pub struct MerkleNode {''')
def noded(body):
    return [(M, *NODED), (M, 'impl MerkleNode {\n', '''impl strict_encoding::StrictDecode for MerkleNode {
    fn strict_decode(reader: &mut impl strict_encoding::TypedRead) -> Result<Self, strict_encoding::DecodeError> {
        use strict_encoding::{fname, ReadStruct};
''' + body + '''    }
}

impl MerkleNode {
''')]
LEAFD = ('''#[derive(StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = crate::LIB_NAME_COMMIT_VERIFY, tags = custom)]''', '''#[derive(StrictType, StrictEncode)]
#[strict_type(lib = crate::LIB_NAME_COMMIT_VERIFY, tags = custom)]''')
def leafd(a, b):
    return [(A, *LEAFD), (A, 'impl StrictDumb for Leaf {', '''impl strict_encoding::StrictDecode for Leaf {
    fn strict_decode(reader: &mut impl strict_encoding::TypedRead) -> Result<Self, strict_encoding::DecodeError> {
        use strict_encoding::{fname, ReadStruct, ReadUnion};
        reader.read_union(|name, r| match name.as_str() {
            "inhabited" => r.read_struct(|r| {
                let protocol = r.read_field(fname!("protocol"))?;
                let message = r.read_field(fname!("message"))?;
                ''' + a + '''
            }),
            "entropy" => r.read_struct(|r| {
                let entropy = r.read_field(fname!("entropy"))?;
                let pos = r.read_field(fname!("pos"))?;
                ''' + b + '''
            }),
            _ => unreachable!(),
        })
    }
}

impl StrictDumb for Leaf {''')]
MSGD = ('''#[derive(StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = crate::LIB_NAME_COMMIT_VERIFY)]
#[cfg_attr(feature = "serde", derive(Serialize, Deserialize), serde(transparent))]
pub struct Message(''', '''#[derive(StrictType, StrictEncode)]
#[strict_type(lib = crate::LIB_NAME_COMMIT_VERIFY)]
#[cfg_attr(feature = "serde", derive(Serialize, Deserialize), serde(transparent))]
pub struct Message(''')
def msgd(body):
    return [(A, *MSGD), (A, 'impl Message {', '''impl strict_encoding::StrictDecode for Message {
    fn strict_decode(reader: &mut impl strict_encoding::TypedRead) -> Result<Self, strict_encoding::DecodeError> {
        #[allow(unused_imports)]
        use strict_encoding::ReadTuple;
''' + body + '''    }
}

impl Message {''')]
BRD = ('#[strict_type(lib = LIB_NAME_COMMIT_VERIFY, tags = repr, into_u8, try_from_u8)]', '#[strict_type(lib = LIB_NAME_COMMIT_VERIFY, tags = repr, into_u8)]')
def brd(body):
    return [(M, *BRD), (M, '#[derive(Copy, Clone, Eq, PartialEq, Hash, Debug)]\n#[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]\n#[strict_type(lib = LIB_NAME_COMMIT_VERIFY)]\n#[derive(CommitEncode)]',
'''impl TryFrom<u8> for NodeBranching {
    type Error = strict_encoding::VariantError<u8>;
    fn try_from(value: u8) -> Result<Self, Self::Error> {
''' + body + '''    }
}

#[derive(Copy, Clone, Eq, PartialEq, Hash, Debug)]
#[derive(StrictDumb, StrictType, StrictEncode, StrictDecode)]
#[strict_type(lib = LIB_NAME_COMMIT_VERIFY)]
#[derive(CommitEncode)]''')]
READ5 = '''            let branching = r.read_field(fname!("branching"))?;
            let depth = r.read_field(fname!("depth"))?;
            let width = r.read_field(fname!("width"))?;
'''
EDITS = [
 ('q38-node', '', noded('        reader.read_struct(|r| {\n' + READ5 + '''            let node1 = r.read_field(fname!("node1"))?;
            let node2 = r.read_field(fname!("node2"))?;
            Ok(MerkleNode { branching, depth, width, node1, node2 })
        })
''')),
 ('q38-with', '', noded('        reader.read_struct(|r| {\n' + READ5.replace('let depth =', 'let depth: u8 =').replace('let width =', 'let width: u256 =') + '''            let (node1, node2) = (r.read_field(fname!("node1"))?, r.read_field(fname!("node2"))?);
            Ok(Self::with(branching, depth, width, node1, node2))
        })
''')),
 ('c38-swap', 'C38', noded('        reader.read_struct(|r| {\n' + READ5 + '''            let node2 = r.read_field(fname!("node2"))?;
            let node1 = r.read_field(fname!("node1"))?;
            Ok(MerkleNode { branching, depth, width, node1, node2 })
        })
''')),
 ('c38-check', 'C38', noded('        reader.read_struct(|r| {\n' + READ5 + '''            let node1: MerkleHash = r.read_field(fname!("node1"))?;
            let node2: MerkleHash = r.read_field(fname!("node2"))?;
            if node1 == node2 {
                return Err(strict_encoding::DecodeError::DataIntegrityError("equal nodes".to_owned()));
            }
            Ok(MerkleNode { branching, depth, width, node1, node2 })
        })
''')),
 ('c38-virtual', 'C38', noded('        reader.read_struct(|r| {\n' + READ5 + '''            let node1 = r.read_field(fname!("node1"))?;
            let node2 = r.read_field(fname!("node2")).unwrap_or(VIRTUAL_LEAF);
            Ok(MerkleNode { branching, depth, width, node1, node2 })
        })
''')),
 ('c38-single', 'C38', noded('        reader.read_struct(|r| {\n' + READ5 + '''            let node1 = r.read_field(fname!("node1"))?;
            let node2 = r.read_field(fname!("node2"))?;
            Ok(match branching {
                NodeBranching::Single => Self::single(depth, width, node1),
                _ => MerkleNode { branching, depth, width, node1, node2 },
            })
        })
'''.replace('let depth =', 'let depth: u8 =')).copy()),
 ('q38-leaf', '', leafd('Ok(Leaf::Inhabited { protocol, message })', 'Ok(Leaf::Entropy { entropy, pos })')),
 ('q38-leafctor', '', leafd('Ok(Leaf::inhabited(protocol, message))', 'Ok(Leaf::entropy(entropy, pos))')),
 ('c38-leafzero', 'C38', leafd('Ok(Leaf::Inhabited { protocol, message })', 'if entropy == 0u64 && pos == 0u32 { return Ok(Leaf::strict_dumb()) }\n                Ok(Leaf::Entropy { entropy, pos: if pos == u32::MAX { 0 } else { pos } })')),
 ('q38-map', '', msgd('        reader.read_tuple(|r| r.read_field().map(Self))\n')),
 ('q38-newtype', '', msgd('        reader.read_newtype()\n')),
 ('q38-try', '', msgd('        let inner: Bytes32 = reader.read_tuple(|r| Ok(Message(r.read_field()?)))?.0;\n        Ok(inner.into())\n')),
 ('c38-default', 'C38', msgd('        reader.read_tuple(|r| r.read_field().map(Self).or_else(|_| Ok(Self::default())))\n')),
 ('q38-branch', '', brd('''        Ok(match value {
            0 => NodeBranching::Void,
            x if x == NodeBranching::Single as u8 => NodeBranching::Single,
            0x02 => NodeBranching::Branch,
            _ => return Err(strict_encoding::VariantError::with::<Self>(value)),
        })
''')),
 ('c38-branch', 'C38', brd('''        match value {
            0 => Ok(NodeBranching::Void),
            1 => Ok(NodeBranching::Single),
            _ => Ok(NodeBranching::Branch),
        }
''')),
 ('c38-mask', 'C38', brd('''        match value & 0x7F {
            0 => Ok(NodeBranching::Void),
            1 => Ok(NodeBranching::Single),
            2 => Ok(NodeBranching::Branch),
            _ => Err(strict_encoding::VariantError::with::<Self>(value)),
        }
''')),
]
EDITS = [(a, b, [(f, x, y) for f, x, y in e]) for a, b, e in EDITS]
for i, (a, b, e) in enumerate(EDITS):
    if a == 'c38-single':
        EDITS[i] = (a, b, [(f, x, y.replace('let depth =', 'let depth: u8 =').replace('let width =', 'let width: u256 =')) for f, x, y in e])
