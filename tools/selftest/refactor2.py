"""Rewrites which keep the behaviour, of the parts refactor.py leaves alone."""
B = 'commit_verify/src/mpc/block.rs'
T = 'commit_verify/src/mpc/tree.rs'
AT = 'commit_verify/src/mpc/atoms.rs'
M = 'commit_verify/src/merkle.rs'
I = 'commit_verify/src/id.rs'
D = 'commit_verify/src/digest.rs'
C = 'commit_verify/src/commit.rs'
E = 'commit_verify/src/embed.rs'
V = 'commit_verify/src/convolve.rs'
P = 'commit_verify/src/vesper.rs'
A = 'src/api.rs'
S = 'single_use_seals/src/lib.rs'
TEXT = {f: open('/repo/' + f).read() for f in (B, T, AT, M, I, D, C, E, V, P, A, S)}


def part(f, start, end, new, start_at=''):
    """The edit which puts `new` in place of the text of `f` from `start` up to `end`."""
    s = TEXT[f]
    i = s.index(start, s.index(start_at) if start_at else 0)
    if end.startswith('    }\n') or end == '}\n':
        end = '\n' + end
        old = s[i:s.index(end, i + len(start) - 1) + 1]
    else:
        old = s[i:s.index(end, i + len(start))]
    assert s.count(old) == 1, (f, old)
    return f, old, new


EDITS = [
    # --- blocks
    ('x-helpers', '', [
        (B, '''        match self {
            TreeNode::ConcealedNode { depth, .. } => Some(*depth),
            TreeNode::CommitmentLeaf { .. } => None,
        }
    }
''', '''        if let TreeNode::ConcealedNode { depth, .. } = self {
            return Some(*depth);
        }
        None
    }
'''),
        (B, 'pub fn depth_or(&self, tree_depth: u5) -> u5 { self.depth().unwrap_or(tree_depth) }', '''pub fn depth_or(&self, tree_depth: u5) -> u5 {
        match *self {
            TreeNode::ConcealedNode { depth, .. } => depth,
            TreeNode::CommitmentLeaf { .. } => tree_depth,
        }
    }'''),
        (B, "pub fn is_leaf(&self) -> bool { matches!(self, TreeNode::CommitmentLeaf { .. }) }",
         "pub fn is_leaf(&self) -> bool { self.depth().is_none() }")]),
    ('x-tonode', '', [(B, '''        match self {
            TreeNode::ConcealedNode { hash, .. } => hash,
            TreeNode::CommitmentLeaf {
                protocol_id,
                message,
            } => Leaf::inhabited(protocol_id, message).commit_id(),
        }
''', '''        let (protocol, message) = match self {
            TreeNode::ConcealedNode { hash, .. } => return hash,
            TreeNode::CommitmentLeaf {
                protocol_id,
                message,
            } => (protocol_id, message),
        };
        let leaf = Leaf::Inhabited { protocol, message };
        leaf.commit_id()
''')]),
    ('x-concealother', '', [(B, '''        self.conceal_except([protocol])?;
        Ok(())
''', '''        let revealed = vec![protocol];
        match self.conceal_except(revealed) {
            Ok(_) => Ok(()),
            Err(e) => Err(e),
        }
''')]),
    ('x-notfound', '', [part(B, '        let mut not_found = protocols.iter().copied()', '        self.entropy = None;', '''        let known = self.known_protocol_ids().collect::<BTreeSet<_>>();
        let asked = protocols.iter().copied().collect::<BTreeSet<_>>();
        if let Some(protocol_id) = asked.difference(&known).next() {
            return Err(LeafNotKnown(*protocol_id));
        }

''')]),
    ('x-with-lists', '', [part(B, '        let mut dir = Vec::with_capacity(path.len());', '        let mut cross_section = Vec::with_capacity(path.len() + 1);', '''        let mut dir = Vec::new();
        let mut rev = Vec::new();
        let mut depth = u5::ZERO;
        for hash in path {
            depth += 1;
            width_limit /= 2;
            let node = TreeNode::ConcealedNode { depth, hash: *hash };
            if pos < width_limit {
                rev.push(node);
            } else {
                pos -= width_limit;
                dir.push(node);
            }
        }

''')]),
    ('x-with-deque', '', [part(B, '        let mut cross_section = Vec::with_capacity(path.len() + 1);', '        let cross_section =', '''        let mut cross_section = dir;
        cross_section.push(TreeNode::CommitmentLeaf {
            protocol_id,
            message,
        });
        rev.reverse();
        cross_section.append(&mut rev);
''', 'let mut dir')]),
    ('x-with-errfn', '', [(B, '''            return Err(InvalidProof {
                protocol_id,
                expected,
                actual: pos,
                width: width_limit,
            });
''', '''            return Err(Self::misplaced(protocol_id, expected, pos, width_limit));
'''), (B, '''    /// Converts the merkle block into a merkle proof for the inclusion of a
    /// commitment under given `protocol_id`.
    pub fn into_merkle_proof(''', '''    fn misplaced(protocol_id: ProtocolId, expected: u32, actual: u32, width: u32) -> InvalidProof {
        InvalidProof {
            protocol_id,
            expected,
            actual,
            width,
        }
    }

    /// Converts the merkle block into a merkle proof for the inclusion of a
    /// commitment under given `protocol_id`.
    pub fn into_merkle_proof(''')]),
    ('x-mergepath', '', [(B, '''        let block = MerkleBlock::with(proof, protocol_id, message)?;
        self.merge_reveal(block)
''', '''        match MerkleBlock::with(proof, protocol_id, message) {
            Ok(block) => self.merge_reveal(block),
            Err(err) => Err(MergeError::InvalidProof(err)),
        }
''')]),
    ('x-mergepath-and', '', [(B, '''        let block = MerkleBlock::with(proof, protocol_id, message)?;
        self.merge_reveal(block)
''', '''        MerkleBlock::with(proof, protocol_id, message)
            .map_err(MergeError::from)
            .and_then(|block| self.merge_reveal(block))
''')]),
    ('x-mergeroots', '', [part(B, '        let base_root = self.commit_id();', '        let mut cross_section =\n            Vec::with_capacity(self', '''        let (base_root, merged_root) = (orig.commit_id(), other.commit_id());
        if merged_root == base_root {
            // the blocks belong to the same tree
        } else {
            let err = MergeError::UnrelatedBlocks {
                base_root,
                merged_root,
            };
            return Err(err);
        }

''')]),
    ('x-mergeslices', '', [part(B, '        let mut a = self.cross_section.iter().copied();', '        let mut last_a', '''        let ours = self.cross_section.as_unconfined().clone();
        let theirs = other.cross_section.as_unconfined().clone();
        let mut a = ours.into_iter();
        let mut b = theirs.into_iter();

''')]),
    ('x-mergeassert', '', [(B, '''            self.cross_section
                .iter()
                .map(|n| self.depth.to_u8() - n.depth_or(self.depth).to_u8())
                .map(|height| 2u32.pow(height as u32))
                .sum::<u32>(),
            self.width_limit(),
''', '''            self.width_limit(),
            self.cross_section
                .iter()
                .map(|n| 2u32.pow((self.depth.to_u8() - n.depth_or(self.depth).to_u8()) as u32))
                .sum::<u32>(),
''')]),
    ('x-mergelen', '', [(B, '        Ok(self.cross_section.len() as u16)', '        let len = self.cross_section.len();\n        Ok(len as u16)')]),
    ('x-proofclone', '', [(B, '        self.clone().into_merkle_proof(protocol_id)', '        let block = self.clone();\n        block.into_merkle_proof(protocol_id)')]),
    ('x-proofstruct', '', [part(B, '        Ok(MerkleProof {\n            method: self.method,', '    }\n', '''        let pos = self.protocol_id_pos(protocol_id);
        let path = map.into_values().collect::<Vec<_>>();
        let path = Confined::try_from(path).expect("tree width guarantees are broken");
        Ok(MerkleProof {
            path,
            pos,
            cofactor: self.cofactor,
            method: self.method,
        })
''')]),
    ('x-proofextend', '', [part(B, '        for node in &self.cross_section {\n            match node {\n                TreeNode::ConcealedNode { depth, hash } => {\n                    let inserted', '        debug_assert_eq!(\n            self.depth', '''        map.extend(self.cross_section.iter().filter_map(|node| match *node {
            TreeNode::ConcealedNode { depth, hash } => Some((depth, hash)),
            TreeNode::CommitmentLeaf { .. } => None,
        }));
''')]),
    ('x-knownids', '', [part(B, '        self.cross_section.iter().filter_map(|item| match item {\n            TreeNode::ConcealedNode { .. } => None,\n            TreeNode::CommitmentLeaf { protocol_id, .. }', '    }\n\n', '''        self.cross_section
            .iter()
            .filter(|item| item.is_leaf())
            .flat_map(|item| match item {
                TreeNode::CommitmentLeaf { protocol_id, .. } => Some(*protocol_id),
                _ => None,
            })
''')]),
    ('x-knownloop', '', [part(B, '        Confined::try_from_iter(\n            self.cross_section', '    }\n\n', '''        let mut known = BTreeMap::new();
        for item in &self.cross_section {
            if let TreeNode::CommitmentLeaf {
                protocol_id,
                message,
            } = item
            {
                known.insert(*protocol_id, *message);
            }
        }
        Confined::try_from(known).expect("same collection size")
''')]),
    ('x-proofsvec', '', [part(B, '        self.known_protocol_ids()\n            .collect::<Vec<_>>()', '    }\n}', '''        let mut proofs = Vec::new();
        for id in self.known_protocol_ids() {
            let proof = self
                .to_merkle_proof(id)
                .expect("protocol ids must strictly match");
            proofs.push((id, proof));
        }
        proofs.into_iter()
''')]),
    ('x-conceal-match', '', [part(B, '        let Some(TreeNode::ConcealedNode {\n            depth: u5::ZERO,', '    }\n}', '''        match concealed.cross_section.first() {
            Some(TreeNode::ConcealedNode { depth, hash }) if *depth == u5::ZERO => MerkleConcealed {
                depth: concealed.depth,
                cofactor: concealed.cofactor,
                merkle_root: *hash,
            },
            _ => panic!("broken MerkleBlock conceal procedure"),
        }
''')]),
    ('x-conceal-copied', '', [part(B, '        let mut concealed = self.clone();\n        concealed\n', '        debug_assert_eq!(concealed.cross_section.len(), 1);', '''        let none: &[ProtocolId] = &[];
        let mut concealed = self.clone();
        let res = concealed.conceal_except(none);
        res.expect("broken internal MerkleBlock structure");
''')]),
    ('x-width-shift', '', [(B, '''    pub fn width_limit(&self) -> u32 { 2u32.pow(self.depth.to_u8() as u32) }

    /// Computes the factored width of the merkle tree (`n - c`).
    pub fn factored_width(&self) -> u32 {
        self.width_limit()
            .saturating_sub(self.cofactor as u32)
            .max(1)
    }

    /// Constructs''', '''    pub fn width_limit(&self) -> u32 { 1u32 << (self.depth.to_u8() as u32) }

    /// Computes the factored width of the merkle tree (`n - c`).
    pub fn factored_width(&self) -> u32 {
        let width = self.width_limit().saturating_sub(u32::from(self.cofactor));
        std::cmp::max(1, width)
    }

    /// Constructs''')] if '''    /// Computes the factored width of the merkle tree (`n - c`).
    pub fn factored_width(&self) -> u32 {
        self.width_limit()
            .saturating_sub(self.cofactor as u32)
            .max(1)
    }

    /// Constructs''' in TEXT[B] else [part(B, '    pub fn width_limit(&self) -> u32 {', '\n', '    pub fn width_limit(&self) -> u32 { 1u32 << (self.depth.to_u8() as u32) }')]),
    ('x-matches', '', [(B, '        self.cofactor == other.cofactor && self.merkle_root() == other.merkle_root()', '''        if self.cofactor != other.cofactor {
            return false;
        }
        let (root, other_root) = (self.merkle_root(), other.merkle_root());
        root == other_root''')]),
    ('x-blockmatches', '', [(B, 'fn matches(&self, other: &Self) -> bool { self.commit_id() == other.commit_id() }', '''fn matches(&self, other: &Self) -> bool {
        let ours = self.commit_id();
        let theirs = other.commit_id();
        !(ours != theirs)
    }''')]),
    ('x-root', '', [(B, 'pub fn merkle_root(&self) -> Option<MerkleHash> { self.path.first().copied() }', 'pub fn merkle_root(&self) -> Option<MerkleHash> { self.as_path().iter().next().cloned() }')]),
    ('x-topath', '', [(B, 'pub fn as_path(&self) -> &[MerkleHash] { &self.path }', 'pub fn as_path(&self) -> &[MerkleHash] { self.path.as_slice() }')]),
    ('x-convolve', '', [(B, '''        let block = MerkleBlock::with(self, protocol_id, message)?;
        Ok(block.commit_id())
''', '''        MerkleBlock::with(self, protocol_id, message).map(|block| block.commit_id())
''')]),
    ('x-fromtree', '', [part(B, '        let map = &tree.map;\n', '        let cross_section =\n            NonEmptyVec::try_from_iter(iter)', '''        let iter = (0..tree.width_limit()).map(|pos| {
            if let Some((protocol_id, message)) = tree.map.get(&pos).copied() {
                TreeNode::CommitmentLeaf {
                    protocol_id,
                    message,
                }
            } else {
                TreeNode::ConcealedNode {
                    depth: tree.depth,
                    hash: Leaf::entropy(tree.entropy, pos).commit_id(),
                }
            }
        });
''')]),
    ('x-fromtree-loop', '', [part(B, '        let iter = (0..tree.width_limit()).map(|pos| {', '        MerkleBlock {\n            method: tree.method', '''        let mut nodes = Vec::with_capacity(tree.width_limit() as usize);
        for pos in 0..tree.width_limit() {
            let node = match map.get(&pos) {
                Some((protocol_id, message)) => TreeNode::CommitmentLeaf {
                    protocol_id: *protocol_id,
                    message: *message,
                },
                None => TreeNode::ConcealedNode {
                    depth: tree.depth,
                    hash: Leaf::entropy(tree.entropy, pos).commit_id(),
                },
            };
            nodes.push(node);
        }
        let cross_section = NonEmptyVec::try_from(nodes).expect("tree width guarantees are broken");

''')]),
    # --- trees
    ('x-treeroot', '', [part(T, '        let iter = (0..self.width_limit()).map(|pos| {', '        debug_assert_eq!(leaves.len_u32()', '''        let mut list = Vec::new();
        for pos in 0..self.width_limit() {
            list.push(match self.map.get(&pos) {
                Some((protocol, msg)) => Leaf::inhabited(*protocol, *msg),
                None => Leaf::entropy(self.entropy, pos),
            });
        }
        let leaves = LargeVec::try_from(list).expect("tree width has u32-bound size");
''')]),
    ('x-treeverify', '', [part(T, '            let source = MultiSource {', '        }\n    }', '''            let mut repeated = source.clone();
            if repeated.static_entropy.is_none() {
                repeated.static_entropy = Some(self.entropy);
            }
            match Self::try_commit(&repeated) {
                Ok(other) if other == *self => Ok(()),
                Ok(_) => Err(VerifyError::InvalidCommitment),
                Err(_) => Err(VerifyError::InvalidMessage),
            }
''')]),
    ('x-treeconceal', '', [(T, 'fn conceal(&self) -> Self::Concealed { MerkleBlock::from(self.clone()).conceal() }', '''fn conceal(&self) -> Self::Concealed {
        let block = MerkleBlock::from(self);
        block.conceal()
    }''')]),
    ('x-treeproofs', '', [(T, '''        let block = MerkleBlock::from(self);
        block.into_known_proofs()
''', '''        MerkleBlock::from(&self).into_known_proofs()
''')]),
    ('x-treepos', '', [part(T, '    let width = 2u32.pow(depth.to_u8() as u32);\n', '}\n', '''    let width = 2u32.pow(depth.to_u8() as u32);
    debug_assert_ne!(width, 0);
    let factored = width.saturating_sub(cofactor as u32).max(1);
    let id = u256::from_le_bytes(protocol_id.to_inner().into_inner());
    (id % u256::from(factored as u64)).low_u64() as u32
''')] if 'use amplify::{' in TEXT[T] and 'Wrapper' in TEXT[T].split('mod test')[0] else [part(T, '    let rem = u256::from_le_bytes(', '}\n', '''    let factored = width.saturating_sub(cofactor as u32).max(1);
    let id = u256::from_le_bytes((*protocol_id).into_inner());
    (id % u256::from(factored as u64)).low_u64() as u32
''')]),
    # --- merkle trees
    ('x-merkle-with', '', [part(M, '''        Self::with(NodeBranching::Void, depth, width, VIRTUAL_LEAF, VIRTUAL_LEAF)''', '    }', '''        Self {
            branching: NodeBranching::Void,
            depth: depth.into(),
            width: width.into(),
            node1: VIRTUAL_LEAF,
            node2: VIRTUAL_LEAF,
        }
''')]),
    ('x-merkle-builder', '', [part(M, '''        Self::with(NodeBranching::Single, depth, width, node, VIRTUAL_LEAF)''', '    }', '''        let mut this = Self::branches(depth, width, node, VIRTUAL_LEAF);
        this.branching = NodeBranching::Single;
        this
''')]),
    ('x-merklize', '', [part(M, '        let mut nodes = leaves.merkle_leaves().map', '    }\n\n', '''        let leaf_iter = leaves.merkle_leaves();
        let base_width =
            u32::try_from(leaf_iter.len()).expect("too many merkle leaves (more than 2^31)");
        let mut nodes = leaf_iter.map(CommitId::commit_id);
        match base_width {
            1 => nodes.next().expect("length is 1"),
            _ => Self::_merklize(nodes, u5::ZERO, base_width, base_width),
        }
''')]),
    ('x-merklize-div', '', [(M, '            let div = branch_width / 2 + branch_width % 2;', '            let div = branch_width - branch_width / 2;')]),
    ('x-merklize-match', '', [part(M, '            match (iter.next(), iter.next()) {', '        } else {', '''            let first = iter.next();
            let second = iter.next();
            let Some(branch1) = first else {
                return MerkleHash::void(depth, base_width);
            };
            match second {
                None => MerkleHash::single(depth, base_width, branch1),
                Some(branch2) => MerkleHash::branches(depth, base_width, branch1, branch2),
            }
''')]),
    ('x-buoy-level', '', [part(M, '        self.stack\n            .as_ref()\n            .map(Box::as_ref)', '    }\n', '''        match &self.stack {
            Some(stack) => stack.level(),
            None => self.buoy,
        }
''')]),
    ('x-buoy-push', '', [part(M, '        match self\n            .stack\n            .as_mut()\n', '    }\n}', '''        let Some(stack) = self.stack.as_mut() else {
            if depth == self.buoy {
                self.buoy -= 1;
                return true;
            }
            self.stack = Some(Box::new(MerkleBuoy::new(depth)));
            return false;
        };
        if !stack.push(depth) {
            return false;
        }
        let level = stack.level();
        self.stack = None;
        self.push(level)
''')]),
    # --- commitments
    ('x-fqn', '', [part(I, '    TypeFqn::with(\n        libname!(T::STRICT_LIB_NAME),\n        T::strict_name()', '}\n', '''    let name = T::strict_name().expect("commit encoder can commit only to named types");
    let lib = libname!(T::STRICT_LIB_NAME);
    TypeFqn::with(lib, name)
''')]),
    ('x-stepfn', '', [
        (I, '''        let fqn = commitment_fqn::<T>();
        self.layout
            .push(CommitStep::Hashed(fqn))
            .expect("too many fields for commitment");
''', '''        self.add_step(CommitStep::Hashed(commitment_fqn::<T>()));
'''), (I, '''        let fqn = commitment_fqn::<T>();
        self.layout
            .push(CommitStep::Concealed(fqn))
            .expect("too many fields for commitment");
''', '''        self.add_step(CommitStep::Concealed(commitment_fqn::<T>()));
'''), (I, '    fn inner_commit_to<', '''    fn add_step(&mut self, step: CommitStep) {
        self.layout
            .push(step)
            .expect("too many fields for commitment");
    }

    fn inner_commit_to<''')]),
    ('x-commit', '', [part(I, '        let mut engine = CommitEngine::new(T::CommitmentId::TAG);', '    }\n', '''        let tag = <Self::CommitmentId as CommitmentId>::TAG;
        let mut engine = CommitEngine::new(tag);
        self.commit_encode(&mut engine);
        engine.finished = true;
        engine
'''), (I, 'fn commit_id(&self) -> Self::CommitmentId { self.commit().finish().into() }', '''fn commit_id(&self) -> Self::CommitmentId {
        let (hasher, _) = self.commit().finish_layout();
        Self::CommitmentId::from(hasher)
    }''')]),
    ('x-layout', '', [part(I, '        let dumb = Self::strict_dumb();', '    }\n', '''        let engine = Self::strict_dumb().commit();
        let (_, fields) = engine.finish_layout();
        let idty = commitment_fqn::<T::CommitmentId>();
        CommitLayout {
            fields,
            tag: <T::CommitmentId as CommitmentId>::TAG,
            idty,
        }
''')]),
    ('x-hashfrom', '', [(I, 'fn from(hash: Sha256) -> Self { hash.finish().into() }', '''fn from(hash: Sha256) -> Self {
        let digest: [u8; 32] = hash.finish();
        Self(Bytes32::from(digest))
    }''')]),
    # --- digests
    ('x-tag-helper', '', [part(D, '        let mut tagger = Sha256::default();', '    }\n', '''        let tag_hash = Sha256::digest(tag);
        Sha256::new()
            .chain_update(tag_hash)
            .chain_update(tag_hash)
''')]),
    ('x-tag-loop', '', [part(D, '        let mut engine = Ripemd160::default();', '    }\n', '''        let mut engine = Ripemd160::new();
        for _ in 0..2 {
            engine.update(tag);
        }
        engine
''')]),
    ('x-lenbuf', '', [part(D, '            0x10000..=0xFFFFFF => {', '            0x1000000', '''            0x10000..=0xFFFFFF => {
                let len = u32::try_from(len).expect("data too large");
                let bytes = u24::with(len).to_le_bytes();
                self.input_raw(bytes.as_slice())
            }
''')]),
    ('x-lenrange', '', [(D, '            0x100..=0xFFFF => {\n                self.input_raw(&u16::try_from(len).expect("data too large").to_le_bytes())\n            }', '''            0x100..=0xFFFF => {
                let len = match u16::try_from(len) {
                    Ok(len) => len,
                    Err(_) => panic!("data too large"),
                };
                self.input_raw(&len.to_le_bytes())
            }''')]),
    ('x-finish', '', [(D, "fn finish(self) -> [u8; 32] { self.finalize().into() }", '''fn finish(self) -> [u8; 32] {
        let mut out = [0u8; 32];
        out.copy_from_slice(self.finalize().as_slice());
        out
    }'''), (D, "fn finish(self) -> [u8; 20] { self.finalize().into() }", "fn finish(self) -> [u8; 20] { <[u8; 20]>::from(self.finalize()) }")]),
    # --- commit, convolve, embed
    ('x-verify-if', '', [(C, '''        match Self::commit(msg) == *self {
            false => Err(VerifyError::InvalidCommitment),
            true => Ok(()),
        }
''', '''        let repeated = Self::commit(msg);
        if self != &repeated {
            return Err(VerifyError::InvalidCommitment);
        }
        Ok(())
''')]),
    ('x-tryverify', '', [part(C, '        let other_commitment = Self::try_commit(msg)', '    }\n', '''        match Self::try_commit(msg) {
            Err(_) => Err(VerifyError::InvalidMessage),
            Ok(other) if other == *self => Ok(()),
            Ok(_) => Err(VerifyError::InvalidCommitment),
        }
''')]),
    ('x-conv', '', [part(V, '        let original = self.restore_original(commitment);', '    }\n', '''        let res = self
            .restore_original(commitment)
            .convolve_commit(self.extract_supplement(), msg);
        let Ok((repeated, proof)) = res else {
            return Err(ConvolveVerifyError::ImpossibleMessage);
        };
        match (self.verify_eq(&proof), commitment.verify_eq(&repeated)) {
            (true, true) => Ok(()),
            (true, false) => Err(ConvolveVerifyError::CommitmentMismatch),
            (false, _) => Err(ConvolveVerifyError::InvalidProof),
        }
''')]),
    ('x-embed', '', [part(E, '        let mut container_prime = proof.restore_original_container(self)?;', '    }\n', '''        let mut copy = proof.restore_original_container(self)?;
        let repeated = match copy.embed_commit(msg) {
            Ok(proof) => proof,
            Err(err) => return Err(EmbedVerifyError::InvalidMessage(err)),
        };
        let same_proof = repeated.verify_eq(proof);
        if !same_proof {
            Err(EmbedVerifyError::ProofMismatch)
        } else if self.verify_eq(&copy) {
            Ok(())
        } else {
            Err(EmbedVerifyError::CommitmentMismatch)
        }
''')]),
    # --- texts
    ('x-vesper-subject', '', [part(P, '        match self {\n            CommitStep::Serialized(fqn) => fqn,', '    }\n', '''        let (CommitStep::Serialized(fqn) |
        CommitStep::Collection(_, _, fqn) |
        CommitStep::Hashed(fqn) |
        CommitStep::Merklized(fqn) |
        CommitStep::Concealed(fqn)) = self;
        fqn.name.to_ident()
''')]),
    ('x-vesper-col', '', [part(P, '            CommitStep::Collection(CommitColType::List, _, _) => Pred::List,', '            CommitStep::Hashed(_) => Pred::Hashed,', '''            CommitStep::Collection(ty, ..) => match ty {
                CommitColType::List => Pred::List,
                CommitColType::Set => Pred::Set,
                CommitColType::Map { .. } => Pred::Map,
            },
''')]),
    ('x-vesper-leaf', '', [part(P, '''                tiny_vec![Box::new(VesperCommit {
                    subject: val.name.to_ident(),
                    predicate: Pred::Element,''', '            }\n            CommitStep::Collection(CommitColType::Map', '''                tiny_vec![leaf(val, Pred::Element)]
'''), part(P, '''                tiny_vec![
                    Box::new(VesperCommit {
                        subject: key.name''', '            }\n            CommitStep::Serialized(_) |', '''                tiny_vec![leaf(key, Pred::MapKey), leaf(val, Pred::MapValue)]
'''), (P, 'impl CommitStep {\n', '''/// A part of a collection.
fn leaf(ty: &TypeFqn, predicate: Pred) -> Box<VesperCommit> {
    Box::new(VesperCommit {
        subject: ty.name.to_ident(),
        predicate,
        attributes: none!(),
        content: none!(),
        comment: None,
    })
}

impl CommitStep {
''')]),
    ('x-vesper-attrs', '', [part(P, '        match self {\n            CommitStep::Collection(_, sizing, _) =>', '    }\n', '''        let mut attributes = SmallVec::new();
        if let CommitStep::Collection(_, sizing, _) = self {
            attributes
                .push(Attr::LenRange(LenRange::from(*sizing)))
                .expect("one attribute");
        }
        if let CommitStep::Concealed(from) = self {
            attributes
                .push(Attr::Concealed(from.clone()))
                .expect("one attribute");
        }
        attributes
''')]),
    ('x-vesper-doc', '', [part(P, '        let content = self.fields().iter().map(|field| {', '    }\n}', '''        let mut content = vec![];
        for field in self.fields() {
            content.push(Box::new(VesperCommit {
                comment: None,
                content: field.content(),
                attributes: field.attributes(),
                predicate: field.predicate(),
                subject: field.subject(),
            }));
        }
        let attributes = small_vec![Attr::Hasher, Attr::Tagged(self.tag())];

        VesperCommit {
            subject,
            predicate: Pred::Commitment,
            attributes,
            content: Confined::from_iter_checked(content),
            comment: None,
        }
''')]),
    ('x-vesper-name', '', [part(P, '        match self {\n            Attr::Tagged(_) => Some(ident!("tagged")),', '    }\n', '''        Some(match self {
            Attr::Tagged(_) => ident!("tagged"),
            Attr::Concealed(_) => ident!("concealed"),
            Attr::LenRange(_) => ident!("len"),
            Attr::Hasher => ident!("hasher"),
        })
''')]),
    ('x-id-display', '', [(I, 'Display::fmt(&self.to_vesper().display(), f)', 'write!(f, "{}", self.to_vesper().display())')]),
    # --- validation
    ('x-status-base', '', [part(A, '''        Status {
            seal_issues: vec![],
            failures: vec![failure],''', '    }\n', '''        let mut status = Self::new();
        status.failures.push(failure);
        status
''')]),
    ('x-status-iter', '', [part(A, '''        Status {
            seal_issues: vec![],
            failures: iter.into_iter().collect(),''', '    }\n', '''        let mut status = Status::new();
        for failure in iter {
            status.add_failure(failure);
        }
        status
''')]),
    ('x-status-add', '', [part(A, '        self.seal_issues.extend(rhs.seal_issues);', '    }\n', '''        let Status {
            seal_issues,
            failures,
            warnings,
            info,
        } = rhs;
        self.info.extend(info);
        self.warnings.extend(warnings);
        for failure in failures {
            self.failures.push(failure);
        }
        self.seal_issues.extend(seal_issues);
''')]),
    ('x-status-append', '', [(A, '    fn add_assign(&mut self, rhs: Self) {', '    fn add_assign(&mut self, mut rhs: Self) {'),
                             (A, 'self.failures.extend(rhs.failures);', 'self.failures.append(&mut rhs.failures);')]),
    ('x-validity', '', [part(A, '        if !self.failures.is_empty() {\n', '    }\n', '''        match (self.failures.as_slice(), self.seal_issues.as_slice()) {
            ([], []) => Validity::Valid,
            ([], _) => Validity::SealIssues,
            _ => Validity::Invalid,
        }
''')]),
    ('x-validity-len', '', [part(A, '        if !self.failures.is_empty() {\n', '    }\n', '''        if self.failures.len() > 0 {
            return Validity::Invalid;
        }
        if self.seal_issues.len() > 0 {
            return Validity::SealIssues;
        }
        Validity::Valid
''')]),
    ('x-csv-iflet', '', [part(A, '                let _ = resolver\n', '            }\n', '''                if let Err(issue) = resolver.resolve_trust(seal) {
                    status.add_seal_issue(issue);
                }
''')]),
    ('x-csv-foreach', '', [part(A, '        status += self.validate_internal_consistency();\n', '        status\n', '''        status += self.validate_internal_consistency();
        self.validation_iter().for_each(|item| {
            item.single_use_seals().for_each(|seal| {
                match resolver.resolve_trust(seal) {
                    Ok(()) => {}
                    Err(issue) => status.seal_issues.push(issue),
                }
            });
            status += item.validate_internal_consistency();
        });

''')]),
    ('x-csv-helper', '', [part(A, '            for seal in item.single_use_seals() {', '            status += item.', '''            let issues = item
                .single_use_seals()
                .filter_map(|seal| resolver.resolve_trust(seal).err());
            for issue in issues {
                status.add_seal_issue(issue);
            }
''')]),
]
