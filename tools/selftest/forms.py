# text forms (C39), clones and hashes (C40), serde forms (C41)
B = 'commit_verify/src/mpc/block.rs'
A = 'commit_verify/src/mpc/atoms.rs'
M = 'commit_verify/src/merkle.rs'
I = 'commit_verify/src/id.rs'
C = 'commit_verify/src/convolve.rs'
S = 'single_use_seals/src/lib.rs'
P = 'src/api.rs'
SH = (I, '#[wrapper(Deref, BorrowSlice, Display, FromStr, Hex, Index, RangeOps)]', '#[wrapper(Deref, BorrowSlice, Display, Hex, Index, RangeOps)]')
SD = (I, '#[wrapper(Deref, BorrowSlice, Display, FromStr, Hex, Index, RangeOps)]', '#[wrapper(Deref, BorrowSlice, FromStr, Hex, Index, RangeOps)]')
AT = 'impl CommitmentId for StrictHash {'
MH = (M, '#[wrapper(Deref, BorrowSlice, Display, FromStr, Hex, Index, RangeOps)]', '#[wrapper(Deref, BorrowSlice, FromStr, Hex, Index, RangeOps)]')
MA = 'impl CommitmentId for MerkleHash {'


def fromstr(body):
    return [SH, (I, AT, '''impl std::str::FromStr for StrictHash {
    type Err = <Bytes32 as std::str::FromStr>::Err;
    fn from_str(s: &str) -> Result<Self, Self::Err> {
''' + body + '''    }
}

''' + AT)]


def disp(body, e=SD, at=(I, AT), ty='StrictHash'):
    return [e, (*at, f'''impl std::fmt::Display for {ty} {{
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {{
{body}    }}
}}

''' + at[1])]


EDITS = [
 ('q39-map', '', fromstr('        Bytes32::from_str(s).map(Self)\n')),
 ('q39-match', '', fromstr('''        let inner = match s.parse::<Bytes32>() {
            Ok(bytes) => bytes,
            Err(err) => return Err(err),
        };
        Ok(StrictHash(inner))
''')),
 ('q39-from', '', fromstr('        let inner: Bytes32 = s.parse()?;\n        Ok(Self::from(inner))\n')),
 ('c39-trim', 'C39', fromstr('        Bytes32::from_str(s.trim()).map(Self)\n')),
 ('c39-urn', 'C39', fromstr('''        let s = s.rsplit(':').next().unwrap_or(s);
        Bytes32::from_str(s).map(Self)
''')),
 ('c39-dflt', 'C39', fromstr('''        if s.is_empty() {
            return Ok(Self(Bytes32::zero()));
        }
        Bytes32::from_str(s).map(Self)
''')),
 ('c39-rev', 'C39', fromstr('''        let mut bytes = Bytes32::from_str(s)?.to_byte_array();
        bytes.reverse();
        Ok(Self(bytes.into()))
''')),
 ('q39-fmt', '', disp('        std::fmt::Display::fmt(&self.0, f)\n')),
 ('q39-fmt2', '', disp('        let StrictHash(bytes) = self;\n        bytes.fmt(f)\n')),
 ('c39-prec', 'C39', disp('        let s = self.0.to_string();\n        f.write_str(&s[..16])\n')),
 ('c39-alt', 'C39', disp('''        if f.alternate() {
            let mut bytes = self.0.to_byte_array();
            bytes.reverse();
            return std::fmt::Display::fmt(&Bytes32::from(bytes), f);
        }
        std::fmt::Display::fmt(&self.0, f)
''')),
 ('c39-virt', 'C39', disp('''        if *self == VIRTUAL_LEAF {
            return f.write_str("virtual");
        }
        std::fmt::Display::fmt(&self.0, f)
''', MH, (M, MA), 'MerkleHash')),
]


def clone(ty, derive, new, body, f=B, gen='', where='', at=None):
    return [(f, derive, new), (f, at or f'impl {ty} {{', f'impl{gen} Clone for {ty}{gen} {where} {{\n    fn clone(&self) -> Self {{\n{body}    }}\n}}\n\n' + (at or f'impl {ty} {{'))]


BL = ('#[derive(Getters, Clone, PartialEq, Eq, Hash, Debug)]\n#[derive(StrictType, StrictEncode, StrictDecode)]\n#[strict_type(lib = LIB_NAME_COMMIT_VERIFY)]\n#[derive(CommitEncode)]\n#[commit_encode(crate = crate, strategy = conceal, id = Commitment)]',)
BN = BL[0].replace('Clone, ', '')

def blk(body):
    return clone('MerkleBlock', BL[0], BN, body, at='impl StrictDumb for MerkleBlock {')


EDITS += [
 ('q40-blk', '', blk('''        let MerkleBlock { method, depth, cofactor, cross_section, entropy } = self;
        MerkleBlock {
            entropy: entropy.clone(),
            cofactor: *cofactor,
            cross_section: cross_section.clone(),
            method: *method,
            depth: *depth,
        }
''')),
 ('c40-entropy', 'C40', blk('''        MerkleBlock {
            entropy: None,
            cofactor: self.cofactor,
            cross_section: self.cross_section.clone(),
            method: self.method,
            depth: self.depth,
        }
''')),
 ('c40-cut', 'C40', blk('''        let mut nodes = self.cross_section.clone();
        if self.cofactor > 0 {
            nodes[0] = TreeNode::strict_dumb();
        }
        MerkleBlock {
            entropy: self.entropy,
            cofactor: self.cofactor,
            cross_section: nodes,
            method: self.method,
            depth: self.depth,
        }
''')),
 ('c40-panic', 'C40', blk('''        MerkleBlock {
            entropy: self.entropy.map(|e| e.checked_add(0).expect("x")).or_else(|| panic!("concealed")),
            cofactor: self.cofactor,
            cross_section: self.cross_section.clone(),
            method: self.method,
            depth: self.depth,
        }
''')),
]
HL = BL[0]
HN = HL.replace('Hash, ', '')


def hsh(body):
    return [(B, HL, HN), (B, 'impl StrictDumb for MerkleBlock {', '''#[allow(clippy::derived_hash_with_manual_eq)]
impl core::hash::Hash for MerkleBlock {
    fn hash<H: core::hash::Hasher>(&self, state: &mut H) {
''' + body + '''    }
}

impl StrictDumb for MerkleBlock {''')]


EDITS += [
 ('q40-hash', '', hsh('        self.cofactor.hash(state);\n        self.cross_section.hash(state);\n')),
 ('q40-hashall', '', hsh('        let MerkleBlock { method, depth, cofactor, cross_section, entropy } = self;\n        (method, depth, cofactor, entropy, cross_section).hash(state);\n')),
 ('c40-addr', 'C40', hsh('        self.cofactor.hash(state);\n        (self as *const Self as usize).hash(state);\n')),
 ('c40-ptr', 'C40', hsh('        core::ptr::hash(self, state);\n')),
]
# serde


def attr(f, old, at, pre=''):
    return [(f, old, old.replace(at, f'#[cfg_attr(feature = "serde", serde({pre}))]\n    {at}', 1))]


CF = '''    #[getter(as_copy)]
    cofactor: u16,

    /// Tree cross-section.'''
EN = '''    #[getter(as_copy)]
    entropy: Option<u64>,
}

impl StrictDumb for MerkleBlock {'''
PU = '    pub published: Seal::PubWitness,\n    pub client: Seal::CliWitness,\n    #[cfg_attr(feature = "serde", serde(skip))]'
EDITS += [
 ('q41-rename', '', attr(B, EN, '#[getter', 'rename = "seed"')),
 ('q41-alias', '', attr(B, EN, '#[getter', 'alias = "seed"')),
 ('q41-both', '', attr(B, CF, '#[getter', 'rename(serialize = "cof", deserialize = "cof")')),
 ('c41-rename', 'C41', attr(B, CF, '#[getter', 'rename(serialize = "cof")')),
 ('c41-skipde', 'C41', attr(B, CF, '#[getter', 'skip_deserializing')),
 ('c41-skip', 'C41', attr(B, EN, '#[getter', 'skip')),
 ('c41-skipser', 'C41', attr(B, EN, '#[getter', 'skip_serializing, default')),
 ('q41-default', '', attr(B, EN, '#[getter', 'default')),
 ('c41-if', 'C41', attr(B, CF, '#[getter', 'default, skip_serializing_if = "is_low"') + [(B, 'impl StrictDumb for MerkleBlock {', '''#[cfg(feature = "serde")]
fn is_low(c: &u16) -> bool { *c < 4 }

impl StrictDumb for MerkleBlock {''')]),
 ('c41-with', 'C41', attr(B, CF, '#[getter', 'serialize_with = "clip"') + [(B, 'impl StrictDumb for MerkleBlock {', '''#[cfg(feature = "serde")]
fn clip<S: serde::Serializer>(c: &u16, s: S) -> Result<S::Ok, S::Error> { s.serialize_u16((*c).min(500)) }

impl StrictDumb for MerkleBlock {''')]),
 ('c41-swap', 'C41', [(S, PU, PU.replace('    pub pub', '    #[cfg_attr(feature = "serde", serde(rename(serialize = "client", deserialize = "published")))]\n    pub pub').replace('    pub client', '    #[cfg_attr(feature = "serde", serde(rename(serialize = "published", deserialize = "client")))]\n    pub client'))]),
 ('q41-order', '', [(S, PU, PU.replace('    pub pub', '    #[cfg_attr(feature = "serde", serde(rename = "pubWitness"))]\n    pub pub'))]),
]
# the attribute edits of one text have to be one edit
EDITS = [(n, e, fs) for n, e, fs in EDITS]
for i, (n, e, fs) in enumerate(EDITS):
    if n in ('c41-if', 'c41-with'):
        EDITS[i] = (n, e, [fs[0], (B, 'impl StrictSerialize for MerkleBlock {}', fs[1][2].split('impl StrictDumb')[0] + 'impl StrictSerialize for MerkleBlock {}')])

# texts
VD = """        match self {
            Validity::Valid => f.write_str("valid"),
            Validity::SealIssues => f.write_str("unresolved seal issues"),
            Validity::Invalid => f.write_str("invalid"),
        }
"""
SE = """            SealError::NotIncluded(seal, pub_id) => {
                write!(f, "seal {seal} is not included in the witness {pub_id}")
            }
"""
V = 'commit_verify/src/vesper.rs'
IP = """/// the provided merkle proof protocol id {protocol_id} position {actual}
/// doesn't match the expected position {expected} within the tree of width
/// {width}.
"""
EDITS += [
 ('c42-same', 'C42', [(P, '=> f.write_str("unresolved seal issues")', '=> f.write_str("valid")')]),
 ('c42-numeric', 'C42', [(P, VD, '        f.write_str(if *self as u8 > 0 { "valid" } else { "invalid" })\n')]),
 ('q42-match', '', [(P, VD, """        f.write_str(match self {
            Validity::Valid => "valid",
            Validity::SealIssues => "unresolved seal issues",
            Validity::Invalid => "invalid",
        })
""")]),
 ('q42-write', '', [(P, VD, """        match *self {
            Validity::Valid => write!(f, "valid"),
            Validity::SealIssues => write!(f, "unresolved seal {}", "issues"),
            Validity::Invalid => f.pad("invalid"),
        }
""")]),
 ('q42-helper', '', [(P, VD, "        f.write_str(self.text())\n"), (P, 'impl Display for Validity {', """impl Validity {
    fn text(self) -> &'static str {
        if self == Validity::Valid {
            return "valid";
        }
        if self == Validity::Invalid { "invalid" } else { "unresolved seal issues" }
    }
}

impl Display for Validity {""")]),
 ('c42-pubid', 'C42', [(S, SE, SE.replace('SealError::NotIncluded(seal, pub_id)', 'SealError::NotIncluded(seal, _)').replace(' {pub_id}', ''))]),
 ('c42-twice', 'C42', [(S, SE, SE.replace('NotIncluded(seal, pub_id)', 'NotIncluded(seal, _)').replace('{pub_id}', '{seal}'))]),
 ('q42-args', '', [(S, SE, """            SealError::NotIncluded(seal, pub_id) => {
                f.write_str("seal ")?;
                Display::fmt(seal, f)?;
                f.write_fmt(format_args!(" is not included in the witness {}", pub_id))
            }
""")]),
 ('c42-source', 'C42', [(S, '            SealError::Client(e) => Some(e),', '            SealError::Client(_) => None,')]),
 ('c42-sourcex', 'C42', [(S, '            SealError::NotIncluded(..) => None,\n            SealError::Published(e) => Some(e),\n            SealError::Client(e) => Some(e),', '            SealError::Published(e) => Some(e),\n            _ => None,')]),
 ('q42-source', '', [(S, '            SealError::NotIncluded(..) => None,\n            SealError::Published(e) => Some(e),\n            SealError::Client(e) => Some(e),', '            SealError::Client(e) => Some(e),\n            SealError::Published(e) => Some(e),\n            _ => None,')]),
 ('c42-expected', 'C42', [(B, IP, IP.replace('{actual}', '{expected}'))]),
 ('q42-reword', '', [(B, IP, """/// protocol {protocol_id} expects the position {expected} of {width}, and not {actual}
""")]),
 ('c42-mapkey', 'C42', [(V, '#[display("mapValue")]', '#[display("mapKey")]')]),
 ('q42-words', '', [(V, '#[display("mapValue")]', '#[display("value")]')]),
]
L = 'commit_verify/src/lib.rs'
EDITS += [
 ('c33-visitstr', 'C33', [(L, '                    fn visit_none<E>(self)', '''                    fn visit_bytes<E>(self, _: &[u8]) -> Result<(), E>
                    where E: de::Error {
                        Ok(())
                    }

                    fn visit_none<E>(self)''')]),
 ('c33-serbytes', 'C33', [(L, 'serializer.serialize_unit()', 'serializer.serialize_none()')]),
 ('c37-display', 'C37', [(I, '        Display::fmt(&self.to_vesper().display(), f)', '        write!(f, "{} {}", self.idty, self.tag)')]),
 ('q37-display', '', [(I, '        Display::fmt(&self.to_vesper().display(), f)', '        let text = self.to_vesper();\n        text.display().fmt(f)')]),
]
T = 'commit_verify/src/mpc/tree.rs'
D = 'commit_verify/derive/src/derive.rs'
DP = 'commit_verify/derive/src/params.rs'
WM = '#[wrapper(Deref, BorrowSlice, Display, FromStr, Hex, Index, RangeOps)]'
EDITS += [
 ('c43-block', 'C43', [(M, 'nodes.next().expect("length is 1")', 'unsafe { nodes.next().unwrap_unchecked() }')]),
 ('c43-impl', 'C43', [(S, 'impl<Seal: SingleUseSeal> Eq for NoWitness<Seal> {}', 'impl<Seal: SingleUseSeal> Eq for NoWitness<Seal> {}\nunsafe impl<Seal: SingleUseSeal> Send for NoWitness<Seal> {}')]),
 ('c43-fn', 'C43', [(I, 'fn inner_commit_to<', "pub unsafe fn hasher_ref(&self) -> &'static Sha256 { &*(&self.hasher as *const Sha256) }\n\n    fn inner_commit_to<")]),
 ('c43-derive', 'C43', [(D, 'engine.commit_to_serialized(self);', 'let data: &Self = unsafe { &*(self as *const Self) };\n                engine.commit_to_serialized(data);')]),
 ('c43-macro', 'C43', [(M, 'impl MerkleHash {\n    /// Merklization', 'macro_rules! at {\n    ($e:expr) => {\n        unsafe { $e.unwrap_unchecked() }\n    };\n}\n\nimpl MerkleHash {\n    /// Merklization'), (M, 'nodes.next().expect("length is 1")', 'at!(nodes.next())')]),
 ('q43-safe', '', [(M, 'nodes.next().expect("length is 1")', 'match nodes.next() {\n                Some(node) => node,\n                None => unreachable!("length is 1"),\n            }')]),
 ('c44-pub', 'C44', [(B, '    #[getter(as_copy)]\n    entropy: Option<u64>,', '    #[getter(as_copy)]\n    pub entropy: Option<u64>,')]),
 ('c44-pubtree', 'C44', [(T, '    pub(super) cofactor: u16,', '    pub cofactor: u16,')]),
 ('c44-setter', 'C44', [(B, '    /// Computes the maximum possible width of the merkle tree.\n    pub fn width_limit(&self) -> u32 { 2u32.pow(self.depth.to_u8()', '    pub fn set_entropy(&mut self, entropy: u64) { self.entropy = Some(entropy) }\n\n    /// Computes the maximum possible width of the merkle tree.\n    pub fn width_limit(&self) -> u32 { 2u32.pow(self.depth.to_u8()')]),
 ('c44-mutid', 'C44', [(A, WM + '\n#[derive(StrictType, StrictDumb,', WM + '\n#[derive(WrapperMut)]\n#[wrapper_mut(DerefMut)]\n#[derive(StrictType, StrictDumb,')]),
 ('c44-asmut', 'C44', [(A, 'impl Message {', 'impl AsMut<[u8]> for Message {\n    fn as_mut(&mut self) -> &mut [u8] { self.0.as_mut() }\n}\n\nimpl Message {')]),
 ('c44-addassign', 'C44', [(B, 'impl StrictDumb for MerkleBlock {', 'impl core::ops::AddAssign<u16> for MerkleBlock {\n    fn add_assign(&mut self, by: u16) { self.cofactor += by }\n}\n\nimpl StrictDumb for MerkleBlock {')]),
 ('c44-cell', 'C44', [(I, '    layout: TinyVec<CommitStep>,\n}\n\nfn comm', '    layout: TinyVec<CommitStep>,\n    count: core::cell::Cell<usize>,\n}\n\nfn comm'), (I, '            layout: empty!(),', '            layout: empty!(),\n            count: core::cell::Cell::new(0),'),
   (I, '        debug_assert!(!self.finished);\n', '        debug_assert!(!self.finished);\n        self.count.set(self.count.get() + 1);\n')]),
 ('q44-helper', '', [(B, '    /// Computes the maximum possible width of the merkle tree.\n    pub fn width_limit(&self) -> u32 { 2u32.pow(self.depth.to_u8()', '    #[allow(dead_code)]\n    pub(crate) fn forget(&mut self) { self.entropy = None }\n\n    /// Computes the maximum possible width of the merkle tree.\n    pub fn width_limit(&self) -> u32 { 2u32.pow(self.depth.to_u8()')]),
 ('q44-box', '', [(I, '    layout: TinyVec<CommitStep>,\n}\n\nfn comm', '    layout: Box<TinyVec<CommitStep>>,\n}\n\nfn comm'), (I, '            layout: empty!(),', '            layout: Box::new(empty!()),'),
   (I, 'self.layout.as_ref()', 'self.layout.as_slice()'), (I, '-> TinyVec<CommitStep> { self.layout }', '-> TinyVec<CommitStep> { *self.layout }'), (I, '(self.hasher, self.layout) }', '(self.hasher, *self.layout) }')]),
 ('c45-default', 'C45', [(DP, 'ATTR_STRATEGY => ArgValueReq::required(TypeClass::Path)', 'ATTR_STRATEGY => ArgValueReq::optional(TypeClass::Path)'),
   (DP, '        let path = params.arg_value(ATTR_STRATEGY).expect("must be present");\n        let strategy = StrategyAttr::try_from(&path)?;', '        let strategy = match params.arg_value::<Path>(ATTR_STRATEGY) {\n            Ok(path) => StrategyAttr::try_from(&path)?,\n            Err(_) => StrategyAttr::Strict,\n        };')]),
 ('c45-unknown', 'C45', [(DP, '            ATTR_STRATEGY_MERKLIZE => Ok(StrategyAttr::Merklize),\n', '            ATTR_STRATEGY_MERKLIZE => Ok(StrategyAttr::Merklize),\n            _ if path.get_ident().is_some() => Ok(StrategyAttr::Strict),\n')]),
 ('c45-id', 'C45', [(DP, 'ATTR_ID => ArgValueReq::required(TypeClass::Path)', 'ATTR_ID => ArgValueReq::optional(TypeClass::Path)'),
   (DP, 'params.arg_value(ATTR_ID).expect("must be present")', 'params.arg_value(ATTR_ID).unwrap_or_else(|_| path!(StrictHash))')]),
 ('c45-nocheck', 'C45', [(DP, '        params.check(req)?;\n', '        let _ = params.check(req);\n')]),
 ('c45-transparent', 'C45', [(D, '                use amplify::Wrapper;\n                engine.commit_to_serialized(self.as_inner());', '                engine.commit_to_serialized(self);')]),
 ('q45-helper', '', [(DP, '        let path = params.arg_value(ATTR_STRATEGY).expect("must be present");\n        let strategy = StrategyAttr::try_from(&path)?;\n        let id = params.arg_value(ATTR_ID).expect("must be present");', '        let id = params.arg_value(ATTR_ID).expect("must be present");\n        let path: Path = params.arg_value(ATTR_STRATEGY).expect("checked");\n        let strategy = (&path).try_into()?;')]),
 ('q45-message', '', [(DP, 'invalid commitment encoding value for `strategy` attribute `{unknown}`', 'unknown strategy `{unknown}`')]),
 ('c46-from', 'C46', [(A, 'impl Message {', 'impl From<Message> for ProtocolId {\n    fn from(m: Message) -> Self { Self(m.0) }\n}\n\nimpl Message {')]),
 ('c46-root', 'C46', [(A, 'impl Commitment {', 'impl From<MerkleHash> for Commitment {\n    fn from(m: MerkleHash) -> Self { Self(m.to_byte_array().into()) }\n}\n\nimpl Commitment {')]),
 ('c46-finish', 'C46', [(I, 'pub fn finish(self) -> Sha256 { self.hasher }', 'pub fn finish(&self) -> Sha256 { self.hasher.clone() }')]),
 ('c46-leaf', 'C46', [(M, 'type Leaf: CommitId<CommitmentId = MerkleHash>;', 'type Leaf: CommitId<CommitmentId: Into<[u8; 32]>>;'), (M, '.map(|leaf| leaf.commit_id());', '.map(|leaf| MerkleHash::from(leaf.commit_id().into()));'),
   (I, 'impl From<Sha256> for StrictHash {', 'impl From<StrictHash> for [u8; 32] {\n    fn from(h: StrictHash) -> [u8; 32] { h.0.to_byte_array() }\n}\n\nimpl From<Sha256> for StrictHash {'),
   (M, 'impl From<Sha256> for MerkleHash {', 'impl From<MerkleHash> for [u8; 32] {\n    fn from(h: MerkleHash) -> [u8; 32] { h.0.to_byte_array() }\n}\n\nimpl From<Sha256> for MerkleHash {')]),
 ('c46-hash', 'C46', [(I, 'commit_to_hash<T: CommitEncode<CommitmentId = StrictHash> + StrictType>', 'commit_to_hash<T: CommitEncode<CommitmentId: StrictEncode> + StrictType>')]),
 ('c46-protocol', 'C46', [(A, 'pub struct Message(', 'pub struct Message('), (A, 'impl ProtocolId {', 'impl PartialEq<Message> for ProtocolId {\n    fn eq(&self, m: &Message) -> bool { self.0 == m.0 }\n}\nimpl PartialEq<ProtocolId> for Message {\n    fn eq(&self, m: &ProtocolId) -> bool { self.0 == m.0 }\n}\n\nimpl ProtocolId {')]),
 ('c46-generic', 'C46', [(T, 'pub fn protocol_id_pos(&self, protocol_id: ProtocolId) -> u32 {', 'pub fn protocol_id_pos(&self, protocol_id: impl Into<[u8; 32]>) -> u32 {\n        let protocol_id = ProtocolId::from(protocol_id.into());'),
   (A, 'impl Message {', 'impl From<Message> for [u8; 32] {\n    fn from(m: Message) -> Self { m.0.to_byte_array() }\n}\nimpl From<ProtocolId> for [u8; 32] {\n    fn from(m: ProtocolId) -> Self { m.0.to_byte_array() }\n}\n\nimpl Message {')]),
]
