B = 'commit_verify/src/mpc/block.rs'
s = open('/repo/' + B).read()
def between(a, b, incl=True, start=0):
    i = s.index(a, start)
    j = s.index(b, i)
    return s[i:j + len(b)] if incl else s[i:j]
WITHLOOP = between('        let mut dir = Vec::with_capacity(path.len());', '            width_limit /= 2;\n        }\n')
ASM = between('        let mut cross_section = Vec::with_capacity(path.len() + 1);', '        cross_section.extend(rev.into_iter().rev());\n')
PCHK = between('        let expected = protocol_id_pos(protocol_id, proof.cofactor, proof.depth());', '            });\n        }\n')
FROMIT = between('        let iter = (0..tree.width_limit()).map(|pos| {', 'NonEmptyVec::try_from_iter(iter).expect("tree width guarantees are broken");\n')
CNC = between('        let mut concealed = self.clone();\n        concealed\n', '            merkle_root: *hash,\n        }\n')
PROOF = between('        let mut map = BTreeMap::<u5, MerkleHash>::new();', '        Ok(MerkleProof {\n', False)
KNOWN = between('        self.cross_section.iter().filter_map(|item| match item {', '        })\n')
MAP = between('        Confined::try_from_iter(\n            self.cross_section\n', '        .expect("same collection size")\n')
PROOFS = between('        self.known_protocol_ids()\n            .collect::<Vec<_>>()', '                (id, proof)\n            })\n')
EDITS = [
 # C23 with
 ('q23-if', '', [(B, WITHLOOP, '''        let mut dir = Vec::new();
        let mut rev = Vec::new();
        let mut depth = 0u8;
        for hash in path {
            depth += 1;
            let half = width_limit / 2;
            let node = TreeNode::ConcealedNode {
                depth: u5::with(depth),
                hash: *hash,
            };
            if pos < half {
                rev.push(node);
            } else {
                pos -= half;
                dir.push(node);
            }
            width_limit = half;
        }
''')]),
 ('q23-asm', '', [(B, ASM, '''        rev.reverse();
        let leaf = TreeNode::CommitmentLeaf { message, protocol_id };
        let mut cross_section = dir;
        cross_section.push(leaf);
        cross_section.append(&mut rev);
''')]),
 ('q23-helper', '', [(B, PCHK, '''        proof.check_pos(protocol_id)?;
'''), (B, '    pub fn width_limit(&self) -> u32 { 2u32.pow(self.depth().to_u8() as u32) }', '''    pub fn width_limit(&self) -> u32 { 2u32.pow(self.depth().to_u8() as u32) }

    fn check_pos(&self, protocol_id: ProtocolId) -> Result<(), InvalidProof> {
        let expected = protocol_id_pos(protocol_id, self.cofactor, self.depth());
        if expected == self.pos {
            return Ok(());
        }
        Err(InvalidProof {
            protocol_id,
            expected,
            actual: self.pos,
            width: self.width_limit(),
        })
    }''')]),
 ('q23-shr', '', [(B, WITHLOOP, WITHLOOP.replace('width_limit / 2', '(width_limit >> 1)').replace('width_limit /= 2', 'width_limit >>= 1'))]),
 ('c23-noerr', 'C23', [(B, '        if expected != pos {', '        if expected > pos {')]),
 ('c23-side', 'C23', [(B, 'let list = if pos >= width_limit / 2 {', 'let list = if pos > width_limit / 2 {')]),
 ('c23-depth', 'C23', [(B, 'depth: u5::with(depth as u8) + 1,', 'depth: u5::with(depth as u8),')]),
 ('c23-norev', 'C23', [(B, 'cross_section.extend(rev.into_iter().rev());', 'cross_section.extend(rev);')]),
 ('c23-entropy', 'C23', [(B, '            cross_section,\n            entropy: None,', '            cross_section,\n            entropy: Some(0),')]),
 ('c23-cof', 'C23', [(B, 'protocol_id_pos(protocol_id, proof.cofactor, proof.depth())', 'protocol_id_pos(protocol_id, proof.cofactor & 0xFF, proof.depth())')]),
 ('c23-errwidth', 'C23', [(B, 'actual: pos,\n                width: width_limit,', 'actual: pos,\n                width: proof.factored_width(),')]),
 # C22 from tree
 ('q22-loop', '', [(B, FROMIT, '''        let mut nodes = Vec::with_capacity(tree.width_limit() as usize);
        for pos in 0..tree.width_limit() {
            nodes.push(match map.get(&pos).copied() {
                Some((protocol_id, message)) => TreeNode::CommitmentLeaf { protocol_id, message },
                None => TreeNode::ConcealedNode {
                    depth: tree.depth,
                    hash: Leaf::entropy(tree.entropy, pos).commit_id(),
                },
            });
        }
        let cross_section =
            NonEmptyVec::try_from(nodes).expect("tree width guarantees are broken");
''')]),
 ('q22-mapor', '', [(B, FROMIT, '''        let concealed = |pos| TreeNode::ConcealedNode {
            depth: tree.depth(),
            hash: Leaf::entropy(tree.entropy(), pos).commit_id(),
        };
        let iter = (0..tree.width_limit()).map(|pos| {
            map.get(&pos).map_or_else(
                || concealed(pos),
                |&(protocol_id, message)| TreeNode::CommitmentLeaf { protocol_id, message },
            )
        });
        let cross_section =
            NonEmptyVec::try_from_iter(iter).expect("tree width guarantees are broken");
''')]),
 ('c22-blk', 'C22', [(B, 'hash: Leaf::entropy(tree.entropy, pos).commit_id(),', 'hash: Leaf::entropy(tree.entropy, 0).commit_id(),')]),
 ('c22-ent', 'C22', [(B, 'entropy: Some(tree.entropy),', 'entropy: Some(tree.entropy & 0xFFFFFFFF),')]),
 # conceal
 ('q28-match', '', [(B, CNC, '''        let mut concealed = self.clone();
        match concealed.conceal_except([]) {
            Ok(_) => {}
            Err(_) => panic!("broken internal MerkleBlock structure"),
        }
        match concealed.cross_section.first() {
            Some(TreeNode::ConcealedNode { depth, hash }) if *depth == u5::ZERO => MerkleConcealed {
                depth: self.depth,
                cofactor: self.cofactor,
                merkle_root: *hash,
            },
            _ => panic!("broken MerkleBlock conceal procedure"),
        }
''')]),
 ('c28-cof', 'C28', [(B, '            cofactor: self.cofactor,\n            merkle_root: *hash,', '            cofactor: 0,\n            merkle_root: *hash,')]),
 ('c28-depth', 'C28', [(B, '            depth: self.depth,\n            cofactor: self.cofactor,\n            merkle_root: *hash,', '            depth: u5::ZERO,\n            cofactor: self.cofactor,\n            merkle_root: *hash,')]),
 # C27
 ('q27-collect', '', [(B, KNOWN, '''        self.cross_section.iter().filter(|item| item.is_leaf()).map(|item| match item {
            TreeNode::CommitmentLeaf { protocol_id, .. } => *protocol_id,
            TreeNode::ConcealedNode { .. } => unreachable!(),
        })
''')]),
 ('q27-iflet', '', [(B, KNOWN, '''        self.cross_section.iter().filter_map(|item| {
            if let TreeNode::CommitmentLeaf { protocol_id, .. } = item {
                return Some(*protocol_id);
            }
            None
        })
''')]),
 ('q27-map', '', [(B, MAP, '''        let mut map = BTreeMap::new();
        for item in &self.cross_section {
            if let TreeNode::CommitmentLeaf { protocol_id, message } = *item {
                map.insert(protocol_id, message);
            }
        }
        Confined::try_from(map).expect("same collection size")
''')]),
 ('q27-proof', '', [(B, PROOF, '''        let mut map = BTreeMap::<u5, MerkleHash>::new();
        for node in &self.cross_section {
            if let TreeNode::ConcealedNode { depth, hash } = node {
                map.insert(*depth, *hash);
            }
        }
''')]),
 ('q27-proof2', '', [(B, PROOF, '''        let map = self
            .cross_section
            .iter()
            .filter_map(|node| match node {
                TreeNode::ConcealedNode { depth, hash } => Some((*depth, *hash)),
                TreeNode::CommitmentLeaf { .. } => None,
            })
            .collect::<BTreeMap<_, _>>();
''')]),
 ('q27-proofs', '', [(B, PROOFS, '''        let ids = self.known_protocol_ids().collect::<Vec<_>>();
        let mut proofs = Vec::with_capacity(ids.len());
        for id in ids {
            let proof = self.to_merkle_proof(id).expect("protocol ids must strictly match");
            proofs.push((id, proof));
        }
        proofs.into_iter()
''')]),
 ('c27-pos', 'C27', [(B, 'pos: self.protocol_id_pos(protocol_id),\n', 'pos: protocol_id_pos(protocol_id, 0, self.depth),\n')]),
 ('c27-rev', 'C27', [(B, 'Confined::try_from_iter(map.into_values())', 'Confined::try_from_iter(map.into_values().rev())')]),
 ('c27-cof', 'C27', [(B, '            cofactor: self.cofactor,\n            path:', '            cofactor: self.cofactor.max(1),\n            path:')]),
 ('c27-dedup', 'C27', [(B, PROOFS, PROOFS.replace('.collect::<Vec<_>>()', '.skip_while(|id| *id == ProtocolId::default())\n            .collect::<Vec<_>>()'))]),
 ('c27-swap', 'C27', [(B, '                    } => Some((protocol_id, message)),\n', '                    } => Some((ProtocolId::from(message.into_inner()), message)),\n')]) if False else ('c27-only', 'C27', [(B, KNOWN, KNOWN.replace('.iter().filter_map', '.iter().step_by(1).take(255).filter_map'))]),
 # C29
 ('c29-tree', 'C29', [(B, 'fn matches(&self, other: &Self) -> bool { self.commit_id() == other.commit_id() }', 'fn matches(&self, other: &Self) -> bool { self.cross_section == other.cross_section }')]),
 ('c29-cof', 'C29', [(B, 'self.cofactor == other.cofactor && self.merkle_root() == other.merkle_root()', 'self.merkle_root() == other.merkle_root()')]),
 ('q29-pos', '', [(B, 'self.cofactor == other.cofactor && self.merkle_root() == other.merkle_root()', '(self.cofactor, self.merkle_root()) == (other.cofactor, other.merkle_root())')]),
 ('c19-mpdepth', 'C19', [(B, 'pub fn depth(&self) -> u5 { u5::with(self.path.len() as u8) }', 'pub fn depth(&self) -> u5 { u5::with((self.path.len() as u8).min(16)) }')]),
 ('c23-convolve', 'C23 C28', [(B, 'let block = MerkleBlock::with(self, protocol_id, message)?;\n        Ok(block.commit_id())', 'let mut block = MerkleBlock::with(self, protocol_id, message)?;\n        block.cofactor = 0;\n        Ok(block.commit_id())')]),
 ('q29-fw', '', [(B, '    pub fn merkle_root(&self) -> Option<MerkleHash> { self.path.first().copied() }', '    pub fn merkle_root(&self) -> Option<MerkleHash> { self.path.iter().next().copied() }')]),
 ('c24-other', 'C24', [(B, 'self.conceal_except([protocol])?;\n        Ok(())', 'self.conceal_except([protocol])?;\n        self.entropy = Some(0);\n        Ok(())')]),
 ('q24-map', '', [(B, 'self.conceal_except([protocol])?;\n        Ok(())', 'self.conceal_except([protocol]).map(|_| ())')]),
 ('c23-node', 'C28 C23 C24', [(B, '} => Leaf::inhabited(protocol_id, message).commit_id(),', '} => Leaf::inhabited(protocol_id, Message::default()).commit_id(),')]),
 ('q24-node', '', [(B, '            hash: MerkleHash::branches(depth, width, hash1, hash2),', '            hash: crate::merkle::MerkleNode::branches(depth, width, hash1, hash2).commit_id(),')]),
]
