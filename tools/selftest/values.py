T = 'commit_verify/src/mpc/tree.rs'
B = 'commit_verify/src/mpc/block.rs'
AT = 'commit_verify/src/mpc/atoms.rs'
V = 'commit_verify/src/vesper.rs'
I = 'commit_verify/src/id.rs'
S = 'single_use_seals/src/lib.rs'
EDITS = [
    ('c34-clip', 'C34', [(AT, """impl ProtocolId {
    pub fn copy_from_slice(slice: &[u8]) -> Result<Self, FromSliceError> {
        Bytes32::copy_from_slice(slice).map(Self)""", """impl ProtocolId {
    pub fn copy_from_slice(slice: &[u8]) -> Result<Self, FromSliceError> {
        Bytes32::copy_from_slice(&slice[..slice.len().min(32)]).map(Self)""")]),
    ('c34-rev', 'C34', [(AT, """impl Message {
    pub fn copy_from_slice(slice: &[u8]) -> Result<Self, FromSliceError> {
        Bytes32::copy_from_slice(slice).map(Self)""", """impl Message {
    pub fn copy_from_slice(slice: &[u8]) -> Result<Self, FromSliceError> {
        let mut v = slice.to_vec();
        v.reverse();
        Bytes32::copy_from_slice(&v).map(Self)""")]),
    ('q34-question', '', [(AT, """impl ProtocolId {
    pub fn copy_from_slice(slice: &[u8]) -> Result<Self, FromSliceError> {
        Bytes32::copy_from_slice(slice).map(Self)""", """impl ProtocolId {
    pub fn copy_from_slice(slice: &[u8]) -> Result<Self, FromSliceError> {
        let inner = Bytes32::copy_from_slice(slice)?;
        Ok(Self(inner))""")]),
    ('q34-match', '', [(AT, """impl Commitment {
    pub fn copy_from_slice(slice: &[u8]) -> Result<Self, FromSliceError> {
        Bytes32::copy_from_slice(slice).map(Self)""", """impl Commitment {
    pub fn copy_from_slice(slice: &[u8]) -> Result<Self, FromSliceError> {
        match Bytes32::copy_from_slice(slice) {
            Ok(bytes) => Ok(Commitment::from(bytes)),
            Err(err) => Err(err),
        }""")]),
    ('q34-from', '', [(AT, """impl Commitment {
    pub fn copy_from_slice(slice: &[u8]) -> Result<Self, FromSliceError> {
        Bytes32::copy_from_slice(slice).map(Self)""", """impl Commitment {
    pub fn copy_from_slice(slice: &[u8]) -> Result<Self, FromSliceError> {
        Bytes32::copy_from_slice(slice).map(Self::from)""")]),
    ('c35-proof', 'C35', [(B, "#[derive(Getters, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug, Default)]", "#[derive(Getters, Clone, Eq, PartialOrd, Ord, Hash, Debug, Default)]"),
                          (B, "impl Proof for MerkleProof {", "impl PartialEq for MerkleProof {\n    fn eq(&self, o: &Self) -> bool { self.method == o.method && self.cofactor == o.cofactor && self.path == o.path }\n}\n\nimpl Proof for MerkleProof {")]),
    ('c35-tree', 'C35', [(T, "#[derive(Clone, PartialEq, Eq, Hash, Debug)]\n#[derive(StrictDumb", "#[derive(Clone, Eq, Hash, Debug)]\n#[derive(StrictDumb"),
                         (T, "impl Proof for MerkleTree {", "impl PartialEq for MerkleTree {\n    fn eq(&self, o: &Self) -> bool { self.method == o.method && self.cofactor == o.cofactor && self.map == o.map && self.depth == o.depth }\n}\n\nimpl Proof for MerkleTree {")]),
    ('q35-tree', '', [(T, "#[derive(Clone, PartialEq, Eq, Hash, Debug)]\n#[derive(StrictDumb", "#[derive(Clone, Eq, Hash, Debug)]\n#[derive(StrictDumb"),
                      (T, "impl Proof for MerkleTree {", "impl PartialEq for MerkleTree {\n    fn eq(&self, o: &Self) -> bool { self.method == o.method && self.cofactor == o.cofactor && self.map == o.map && self.depth == o.depth && self.messages == o.messages && o.entropy == self.entropy }\n}\n\nimpl Proof for MerkleTree {")]),
    ('c36-width', 'C36', [(T, "pub fn cofactor(&self) -> u16 { self.cofactor }", "pub fn cofactor(&self) -> u16 { self.cofactor.max(1) }")]),
    ('c36-path', 'C36', [(B, "{ self.path.clone() }", "{ Confined::from_iter_checked(self.path.iter().rev().copied()) }")]),
    ('c36-leaf', 'C36', [(AT, "{ Self::Entropy { entropy, pos } }", "{ Self::Entropy { entropy: entropy.wrapping_add(pos as u64), pos } }")]),
    ('q36-leaf', '', [(AT, "{ Self::Entropy { entropy, pos } }", "{ let leaf = Leaf::Entropy { pos, entropy }; leaf }")]),
    ('q36-path', '', [(B, "{ self.path.clone() }", "{ self.clone().into_path() }")]),
    ('q36-src', '', [(AT, "            static_entropy: Some(static_entropy),\n            ..default!()", "            static_entropy: Some(static_entropy),\n            ..MultiSource::default()")]),
    ('c37-tag', 'C37', [(V, "Attr::Tagged(self.tag())", "Attr::Tagged(\"tag\")")]),
    ('c37-skip', 'C37', [(V, "self.fields().iter().map(", "self.fields().iter().skip(1).map(")]),
    ('c37-filter', 'C37', [(V, "self.fields().iter().map(", "self.fields().iter().filter(|f| !matches!(f, CommitStep::Hashed(_))).map(")]),
    ('c37-swap', 'C37', [(V, "CommitStep::Hashed(_) => Pred::Hashed", "CommitStep::Hashed(_) => Pred::Serialized")]),
    ('c37-key', 'C37', [(V, "subject: key.name.to_ident(),", "subject: val.name.to_ident(),")]),
    ('c37-layout', 'C37', [(I, "let fields = dumb.commit().into_layout();", "let mut engine = CommitEngine::new(\"\");\n        dumb.commit_encode(&mut engine);\n        let fields = engine.into_layout();")]),
    ('q37-engine', '', [(I, "let fields = dumb.commit().into_layout();", "let mut engine = CommitEngine::new(T::CommitmentId::TAG);\n        dumb.commit_encode(&mut engine);\n        let fields = engine.into_layout();")]),
    ('q37-loop', '', [(V, """let content = self.fields().iter().map(|field| {
            Box::new(VesperCommit {
                subject: field.subject(),
                predicate: field.predicate(),
                attributes: field.attributes(),
                content: field.content(),
                comment: None,
            })
        });""", """let mut content = vec![];
        for field in self.fields() {
            content.push(Box::new(VesperCommit {
                subject: field.subject(),
                predicate: field.predicate(),
                attributes: field.attributes(),
                content: field.content(),
                comment: None,
            }));
        }""")]),
    ('q37-helper', '', [(V, """            Box::new(VesperCommit {
                subject: field.subject(),
                predicate: field.predicate(),
                attributes: field.attributes(),
                content: field.content(),
                comment: None,
            })
        });""", "            Box::new(field.to_expr())\n        });"), (V, "    fn subject(&self) -> Ident {", """    fn to_expr(&self) -> VesperCommit {
        let attributes = self.attributes();
        VesperCommit { subject: self.subject(), predicate: self.predicate(), content: self.content(), attributes, comment: None }
    }

    fn subject(&self) -> Ident {""")]),
    ('q37-layout', '', [(I, "let fields = dumb.commit().into_layout();", "let (_, fields) = dumb.commit().finish_layout();")]),
]
