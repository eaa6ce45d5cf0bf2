"""Rewrites which keep the behaviour and change the structure: functions split, moved and merged."""
exec(open('/verif/tools/selftest/refactor3.py').read().split('\nEDITS = [')[0])
COMMITLOOP = part(T, '            let mut map = BTreeMap::<u32, (ProtocolId, Message)>::new();', '        }\n\n        /// Repeats the commitment', '')[1]
MERKLIZE = part(M, '    pub fn merklize(leaves: &impl MerkleLeaves) -> Self {', '}\n\npub trait MerkleLeaves', '')[1]
CONCEALLEAVES = part(B, '        // Conceal all leafs except of one\n', '        loop {\n            debug_assert!(!self.cross_section.is_empty());', '')[1]
CONCEALPASS = part(B, '        loop {\n            debug_assert!(!self.cross_section.is_empty());', '        Ok(count)\n', '')[1]
TREEOF = '''Ok(MerkleTree {
                                method: source.method,
                                depth,
                                entropy,
                                cofactor,
                                messages: source.messages.clone(),
                                map: Confined::try_from(map).expect("MultiSource type guarantees"),
                            })'''
LESS = part(B, '                    cross_section.push(n2);\n                    let mut buoy', '                Ordering::Greater => {', '')[1]
GREATER = part(B, '                    cross_section.push(n1);\n                    let mut buoy', '            }\n        }\n        cross_section.extend(a);', '')[1]
EDITS = [
    # --- trees
    ('z-commit-helper', '', [(T, COMMITLOOP, '''            let mut depth = source.min_depth;
            let mut prev_width = 1u32;
            loop {
                let width_limit = 2u32.pow(depth.to_u8() as u32);
                if width_limit as usize >= msg_count {
                    let attempts = prev_width.min(COFACTOR_ATTEMPTS as u32) as u16;
                    for cofactor in 0..=attempts {
                        if let Some(map) = place(source, depth, cofactor) {
                            return ''' + TREEOF + ''';
                        }
                    }
                }
                prev_width = width_limit;
                depth = match depth.checked_add(1) {
                    Some(depth) => depth,
                    None => return Err(Error::CantFitInMaxSlots(msg_count)),
                };
            }
'''), (T, '''    /// # Panics
    ///
    /// Panics if the crate''', '''    /// Finds positions for all the messages, unless some of them collide
    fn place(
        source: &MultiSource,
        depth: u5,
        cofactor: u16,
    ) -> Option<BTreeMap<u32, (ProtocolId, Message)>> {
        let mut map = BTreeMap::new();
        for (protocol, message) in &source.messages {
            let pos = protocol_id_pos(*protocol, cofactor, depth);
            if map.insert(pos, (*protocol, *message)).is_some() {
                return None;
            }
        }
        Some(map)
    }

    /// # Panics
    ///
    /// Panics if the crate''')]),
    ('z-commit-label', '', [(T, COMMITLOOP, '''            let mut map = BTreeMap::<u32, (ProtocolId, Message)>::new();
            let mut depth = source.min_depth;
            let mut prev_width = 1u32;
            loop {
                let width_limit = 2u32.pow(depth.to_u8() as u32);
                if width_limit as usize >= msg_count {
                    'search: for cofactor in 0..=(prev_width.min(COFACTOR_ATTEMPTS as u32) as u16) {
                        map.clear();
                        for (protocol, message) in &source.messages {
                            let pos = protocol_id_pos(*protocol, cofactor, depth);
                            if map.contains_key(&pos) {
                                continue 'search;
                            }
                            map.insert(pos, (*protocol, *message));
                        }
                        return ''' + TREEOF + ''';
                    }
                }

                prev_width = width_limit;
                depth = depth
                    .checked_add(1)
                    .ok_or(Error::CantFitInMaxSlots(msg_count))?;
            }
''')]),
    ('z-commit-for', '', [(T, COMMITLOOP, '''            let mut prev_width = 1u32;
            for depth in source.min_depth.to_u8()..=u5::MAX.to_u8() {
                let depth = u5::with(depth);
                let width_limit = 2u32.pow(depth.to_u8() as u32);
                if width_limit as usize >= msg_count {
                    for cofactor in 0..=(prev_width.min(COFACTOR_ATTEMPTS as u32) as u16) {
                        let mut map = BTreeMap::<u32, (ProtocolId, Message)>::new();
                        if source.messages.iter().all(|(protocol, message)| {
                            let pos = protocol_id_pos(*protocol, cofactor, depth);
                            map.insert(pos, (*protocol, *message)).is_none()
                        }) {
                            return ''' + TREEOF + ''';
                        }
                    }
                }
                prev_width = width_limit;
            }
            Err(Error::CantFitInMaxSlots(msg_count))
''')]),
    ('z-commit-loopval', '', [(T, COMMITLOOP, '''            let mut map = BTreeMap::<u32, (ProtocolId, Message)>::new();
            let mut depth = source.min_depth;
            let mut prev_width = 1u32;
            let cofactor = 'outer: loop {
                let width_limit = 2u32.pow(depth.to_u8() as u32);
                if width_limit as usize >= msg_count {
                    let max = prev_width.min(COFACTOR_ATTEMPTS as u32) as u16;
                    let mut cofactor = 0u16;
                    while cofactor <= max {
                        map.clear();
                        if source.messages.iter().all(|(protocol, message)| {
                            let pos = protocol_id_pos(*protocol, cofactor, depth);
                            map.insert(pos, (*protocol, *message)).is_none()
                        }) {
                            break 'outer cofactor;
                        }
                        cofactor += 1;
                    }
                }

                prev_width = width_limit;
                depth = depth
                    .checked_add(1)
                    .ok_or(Error::CantFitInMaxSlots(msg_count))?;
            };
            ''' + TREEOF + '\n')]),
    ('z-commit-skip', '', [(T, COMMITLOOP, '''            let mut prev_width = 1u32;
            let mut next = Some(source.min_depth);
            while let Some(depth) = next {
                next = depth.checked_add(1);
                let width = 1u32 << depth.to_u8();
                let attempts = prev_width.min(COFACTOR_ATTEMPTS as u32) as u16;
                prev_width = width;
                if (width as usize) < msg_count {
                    continue;
                }
                for cofactor in 0..=attempts {
                    let mut map = BTreeMap::<u32, (ProtocolId, Message)>::new();
                    if source.messages.iter().all(|(protocol, message)| {
                        let pos = protocol_id_pos(*protocol, cofactor, depth);
                        map.insert(pos, (*protocol, *message)).is_none()
                    }) {
                        return ''' + TREEOF + ''';
                    }
                }
            }
            Err(Error::CantFitInMaxSlots(msg_count))
''')]),
    ('z-verify-match', '', [part(T, '            let other = Self::try_commit(&source).map_err', '        }\n    }\n}\n', '''            match Self::try_commit(&source) {
                Ok(other) if other == *self => Ok(()),
                Ok(_) => Err(VerifyError::InvalidCommitment),
                Err(_) => Err(VerifyError::InvalidMessage),
            }
''')]),
    ('z-verify-mut', '', [part(T, '            let source = MultiSource {\n                static_entropy: source', '            let other = Self::try_commit', '''            let mut source = source.clone();
            source.static_entropy.get_or_insert(self.entropy);
''')]),
    ('z-verify-ifnone', '', [part(T, '            let source = MultiSource {\n                static_entropy: source', '            let other = Self::try_commit', '''            let mut source = source.clone();
            if source.static_entropy.is_none() {
                source.static_entropy = Some(self.entropy);
            }
''')]),
    ('z-root-loop', '', [part(T, '        let iter = (0..self.width_limit()).map(|pos| {\n            self.map', '        debug_assert_eq!(leaves', '''        let width = self.width_limit();
        let mut leaves = Vec::with_capacity(width as usize);
        for pos in 0..width {
            let leaf = if let Some((protocol, msg)) = self.map.get(&pos) {
                Leaf::inhabited(*protocol, *msg)
            } else {
                Leaf::entropy(self.entropy, pos)
            };
            leaves.push(leaf);
        }
        let leaves = LargeVec::try_from(leaves).expect("tree width has u32-bound size");
''')]),
    ('z-root-leafat', '', [part(T, '        let iter = (0..self.width_limit()).map(|pos| {\n            self.map', '        let leaves', '''        let iter = (0..self.width_limit()).map(|pos| self.leaf_at(pos));
'''), (T, '    pub fn root(&self) -> MerkleHash {', '''    fn leaf_at(&self, pos: u32) -> Leaf {
        match self.map.get(&pos) {
            Some(&(protocol, msg)) => Leaf::inhabited(protocol, msg),
            None => Leaf::entropy(self.entropy, pos),
        }
    }

    pub fn root(&self) -> MerkleHash {''')]),
    ('z-pos-parts', '', [part(T, '    let rem = u256::from_le_bytes', '}\n', '''    let divisor = match width.saturating_sub(cofactor as u32) {
        0 => 1u64,
        factored => factored as u64,
    };
    let id = u256::from_le_bytes((*protocol_id).into_inner());
    (id % u256::from(divisor)).low_u64() as u32
''')]),
    ('z-pos-shared', '', [(T, '    let rem = u256::from_le_bytes((*protocol_id).into_inner()) %\n        u256::from(width.saturating_sub(cofactor as u32).max(1) as u64);', '    let rem = u256::from_le_bytes((*protocol_id).into_inner()) %\n        u256::from(factored(width, cofactor) as u64);'),
        (T, 'pub(super) fn protocol_id_pos(', '''fn factored(width: u32, cofactor: u16) -> u32 { width.saturating_sub(cofactor as u32).max(1) }

pub(super) fn protocol_id_pos('''), part(T, '        self.width_limit()\n            .saturating_sub', '    }\n', '        factored(self.width_limit(), self.cofactor)\n')]),
    ('z-conceal-ref', '', [(T, 'MerkleBlock::from(self.clone()).conceal()', 'MerkleBlock::from(self).conceal()')]),
    ('z-proofs-chain', '', [part(T, '        let block = MerkleBlock::from(self);', '    }\n', '        MerkleBlock::from(self).into_known_proofs()\n')]),
    # --- blocks
    ('z-from-owned', '', [part(B, 'impl From<&MerkleTree> for MerkleBlock {', 'impl MerkleBlock {', '''impl From<&MerkleTree> for MerkleBlock {
    fn from(tree: &MerkleTree) -> Self { MerkleBlock::from(tree.clone()) }
}

impl From<MerkleTree> for MerkleBlock {
    fn from(tree: MerkleTree) -> Self {
        let MerkleTree {
            method,
            depth,
            entropy,
            cofactor,
            map,
            ..
        } = tree;
        let width = 2u32.pow(depth.to_u8() as u32);
        let cross_section = NonEmptyVec::try_from_iter((0..width).map(|pos| match map.get(&pos) {
            Some(&(protocol_id, message)) => TreeNode::CommitmentLeaf {
                protocol_id,
                message,
            },
            None => TreeNode::ConcealedNode {
                depth,
                hash: Leaf::entropy(entropy, pos).commit_id(),
            },
        }))
        .expect("tree width guarantees are broken");
        MerkleBlock {
            method,
            depth,
            cofactor,
            cross_section,
            entropy: Some(entropy),
        }
    }
}

''')]),
    ('z-with-split', '', [(B, WITHLOOP, '''        let (dir, rev) = siblings(path, pos, width_limit);

'''), (B, '        let mut pos = proof.pos;\n        let mut width_limit = proof.width_limit();\n', '        let pos = proof.pos;\n        let width_limit = proof.width_limit();\n'),
        (B, 'impl From<&MerkleTree> for MerkleBlock {', '''/// Nodes to the left and to the right of a path
fn siblings(
    path: &[MerkleHash],
    mut pos: u32,
    mut width_limit: u32,
) -> (Vec<TreeNode>, Vec<TreeNode>) {
    let mut left = vec![];
    let mut right = vec![];
    let mut depth = u5::ZERO;
    for hash in path {
        depth += 1;
        width_limit /= 2;
        let node = TreeNode::ConcealedNode { depth, hash: *hash };
        if pos < width_limit {
            right.push(node);
        } else {
            pos -= width_limit;
            left.push(node);
        }
    }
    (left, right)
}

impl From<&MerkleTree> for MerkleBlock {''')]),
    ('z-with-deque', '', [(B, WITHLOOP, '''        let mut dir = Vec::with_capacity(path.len() + 1);
        let mut rev = Vec::with_capacity(path.len());
        for (depth, hash) in path.iter().copied().enumerate() {
            width_limit >>= 1;
            let is_right = pos >= width_limit;
            let depth = u5::with(depth as u8) + 1;
            let node = TreeNode::ConcealedNode { depth, hash };
            match is_right {
                true => {
                    pos -= width_limit;
                    dir.push(node)
                }
                false => rev.push(node),
            }
        }
        rev.reverse();

'''), part(B, '        let mut cross_section = Vec::with_capacity(path.len() + 1);\n', '        let cross_section =\n', '''        let mut cross_section = dir;
        cross_section.push(TreeNode::CommitmentLeaf {
            protocol_id,
            message,
        });
        cross_section.append(&mut rev);
''')]),
    ('z-with-ensure', '', [part(B, '        let expected = protocol_id_pos(protocol_id, proof', '        let mut dir', '''        proof.check_position(protocol_id)?;

'''), (B, '    /// Computes the depth of the merkle tree.\n    pub fn depth(&self) -> u5 {', '''    fn check_position(&self, protocol_id: ProtocolId) -> Result<(), InvalidProof> {
        let expected = protocol_id_pos(protocol_id, self.cofactor, self.depth());
        if expected == self.pos {
            return Ok(());
        }
        Err(InvalidProof {
            protocol_id,
            expected,
            actual: self.pos,
            width: self.width_limit(),
        })
    }

    /// Computes the depth of the merkle tree.
    pub fn depth(&self) -> u5 {''')]),
    ('z-conceal-parts', '', [(B, CONCEALLEAVES, '        count += self.conceal_leaves(protocols);\n\n'),
        (B, '    /// Merges information from the given `proof` to the merkle block, revealing', '''    fn conceal_leaves(&mut self, protocols: &[ProtocolId]) -> usize {
        let mut count = 0usize;
        for node in &mut self.cross_section {
            if let TreeNode::CommitmentLeaf { protocol_id, .. } = node {
                if protocols.contains(protocol_id) {
                    continue;
                }
                *node = TreeNode::ConcealedNode {
                    depth: self.depth,
                    hash: node.to_merkle_node(),
                };
                count += 1;
            }
        }
        count
    }

    /// Merges information from the given `proof` to the merkle block, revealing''')]),
    ('z-conceal-pass', '', [(B, CONCEALPASS, '''        loop {
            let merged = self.merge_siblings();
            if merged == 0 {
                break;
            }
            count += merged;
        }

'''), (B, '    /// Merges information from the given `proof` to the merkle block, revealing', '''    /// Merges concealed siblings once
    fn merge_siblings(&mut self) -> usize {
        let width = self.width_limit();
        let mut count = 0usize;
        let mut offset = 0u32;
        let mut pos = 0usize;
        while pos < self.cross_section.len() {
            let n1 = self.cross_section[pos];
            let size = self.size_of(n1);
            if let (
                TreeNode::ConcealedNode {
                    depth: depth1,
                    hash: hash1,
                },
                Some(TreeNode::ConcealedNode {
                    depth: depth2,
                    hash: hash2,
                }),
            ) = (n1, self.cross_section.get(pos + 1).copied())
            {
                if depth1 == depth2 && offset % (size * 2) == 0 {
                    self.cross_section[pos] = TreeNode::with(hash1, hash2, depth1 - 1, width);
                    self.cross_section
                        .remove(pos + 1)
                        .expect("we allow 0 elements");
                    count += 1;
                    offset += size;
                }
            }
            offset += size;
            pos += 1;
        }
        count
    }

    /// Number of leaves under a node
    fn size_of(&self, node: TreeNode) -> u32 {
        2u32.pow((self.depth.to_u8() - node.depth_or(self.depth).to_u8()) as u32)
    }

    /// Merges information from the given `proof` to the merkle block, revealing''')]),
    ('z-conceal-rebuild', '', [(B, CONCEALPASS, '''        loop {
            let prev_count = count;
            let width = self.width_limit();
            let mut offset = 0u32;
            let mut next = Vec::with_capacity(self.cross_section.len());
            let mut iter = self.cross_section.iter().copied().peekable();
            while let Some(node) = iter.next() {
                let size = 2u32.pow((self.depth.to_u8() - node.depth_or(self.depth).to_u8()) as u32);
                match (node, iter.peek().copied()) {
                    (
                        TreeNode::ConcealedNode {
                            depth: depth1,
                            hash: hash1,
                        },
                        Some(TreeNode::ConcealedNode {
                            depth: depth2,
                            hash: hash2,
                        }),
                    ) if depth1 == depth2 && offset % (2 * size) == 0 => {
                        next.push(TreeNode::with(hash1, hash2, depth1 - 1, width));
                        iter.next();
                        count += 1;
                        offset += 2 * size;
                    }
                    _ => {
                        next.push(node);
                        offset += size;
                    }
                }
            }
            self.cross_section = NonEmptyVec::try_from(next).expect("at least one node");
            if count == prev_count {
                break;
            }
        }

''')]),
    ('z-conceal-order', '', [(B, '        self.entropy = None;\n\n        // Conceal', '        // Conceal'), (B, '        Ok(count)\n    }\n\n    /// Merges information', '        self.entropy = None;\n        Ok(count)\n    }\n\n    /// Merges information')]),
    ('z-conceal-known', '', [part(B, '        let mut not_found = protocols', '        self.entropy = None;\n\n        // Conceal', '''        let known: BTreeSet<ProtocolId> = self.known_protocol_ids().collect();
        let requested: BTreeSet<ProtocolId> = protocols.iter().copied().collect();
        for protocol_id in requested {
            if !known.contains(&protocol_id) {
                return Err(LeafNotKnown(protocol_id));
            }
        }

''')]),
    ('z-conceal-contains', '', [part(B, '                TreeNode::CommitmentLeaf { protocol_id: p, .. } if protocols', '            }\n        }\n\n        loop {', '''                TreeNode::CommitmentLeaf { protocol_id, .. } => {
                    let reveal = protocols.contains(protocol_id);
                    if !reveal {
                        *node = TreeNode::ConcealedNode {
                            hash: node.to_merkle_node(),
                            depth: self.depth,
                        };
                        count += 1;
                    }
                }
''')]),
    ('z-conceal-peelroot', '', [part(B, '        let Some(TreeNode::ConcealedNode {\n            depth: u5::ZERO,', '    }\n}\n\n/// A proof of the merkle commitment.', '''        match concealed.cross_section.first() {
            Some(TreeNode::ConcealedNode { depth, hash }) if *depth == u5::ZERO => {
                MerkleConcealed {
                    depth: self.depth,
                    cofactor: self.cofactor,
                    merkle_root: *hash,
                }
            }
            _ => panic!("broken MerkleBlock conceal procedure"),
        }
''')]),
    ('z-merge-loops', '', [(B, LESS, '''                    cross_section.push(n2);
                    let mut buoy = MerkleBuoy::<u5>::new(n2_depth);
                    last_b = b.next();
                    while let Some(n) = last_b {
                        if buoy.level() <= n1_depth {
                            break;
                        }
                        buoy.push(n.depth_or(self.depth));
                        cross_section.push(n);
                        last_b = b.next();
                    }
                    last_a = a.next();
                }
''')]),
    ('z-merge-subtree', '', [(B, LESS, '''                    cross_section.push(n2);
                    last_b = Self::subtree(&mut b, &mut cross_section, n2_depth, n1_depth, self.depth);
                    last_a = a.next();
                }
'''), (B, GREATER, '''                    cross_section.push(n1);
                    last_a = Self::subtree(&mut a, &mut cross_section, n1_depth, n2_depth, self.depth);
                    last_b = b.next();
                }
'''), (B, '    /// Converts the merkle block into a merkle proof for the inclusion of a', '''    fn subtree(
        iter: &mut impl Iterator<Item = TreeNode>,
        cross_section: &mut Vec<TreeNode>,
        first: u5,
        top: u5,
        depth: u5,
    ) -> Option<TreeNode> {
        let mut buoy = MerkleBuoy::<u5>::new(first);
        let mut stop = false;
        let mut last = None;
        cross_section.extend(iter.take_while(|n| {
            if stop {
                last = Some(*n);
                return false;
            }
            buoy.push(n.depth_or(depth));
            if buoy.level() <= top {
                stop = true
            }
            true
        }));
        last
    }

    /// Converts the merkle block into a merkle proof for the inclusion of a''')]),
    ('z-merge-check', '', [part(B, '        if base_root != merged_root {', '        let mut cross_section =\n            Vec::with_capacity(self', '''        Self::ensure_related(base_root, merged_root)?;

'''), (B, '    /// Converts the merkle block into a merkle proof for the inclusion of a', '''    fn ensure_related(base_root: Commitment, merged_root: Commitment) -> Result<(), MergeError> {
        match base_root == merged_root {
            true => Ok(()),
            false => Err(MergeError::UnrelatedBlocks {
                base_root,
                merged_root,
            }),
        }
    }

    /// Converts the merkle block into a merkle proof for the inclusion of a''')]),
    ('z-merge-size', '', [part(B, '            self.cross_section\n                .iter()\n                .map(|n| self.depth.to_u8() - n', '            self.width_limit(),\n            "LNPBP-4 merge-reveal', '''            self.covered(),
'''), (B, '    /// Converts the merkle block into a merkle proof for the inclusion of a', '''    fn covered(&self) -> u32 {
        let mut sum = 0u32;
        for node in &self.cross_section {
            sum += 1 << (self.depth.to_u8() - node.depth_or(self.depth).to_u8());
        }
        sum
    }

    /// Converts the merkle block into a merkle proof for the inclusion of a''')]),
    ('z-merge-equal', '', [part(B, '                Ordering::Equal if n1 == n2 => {', '                    last_a = a.next();\n                    last_b = b.next();\n                }\n                Ordering::Less', '''                Ordering::Equal => {
                    if n1 == n2 {
                        cross_section.push(n1);
                    } else {
                        match (n1.is_leaf(), n2.is_leaf()) {
                            (true, false) => cross_section.push(n1),
                            (false, true) => cross_section.push(n2),
                            (false, false) => {}
                            (true, true) => unreachable!("{self:?} {other:?} {n1:?} {n2:?}"),
                        }
                    }
''')]),
    ('z-path-inline', '', [part(B, '        let block = MerkleBlock::with(proof, protocol_id, message)?;\n        self.merge_reveal', '    }\n', '''        match MerkleBlock::with(proof, protocol_id, message) {
            Ok(block) => self.merge_reveal(block),
            Err(err) => Err(MergeError::InvalidProof(err)),
        }
''')] ),
    ('z-proof-to', '', [part(B, '    pub fn into_merkle_proof(', '    /// Constructs merkle proof for the inclusion of a commitment under given', '''    pub fn into_merkle_proof(self, protocol_id: ProtocolId) -> Result<MerkleProof, LeafNotKnown> {
        self.to_merkle_proof(protocol_id)
    }

'''), part(B, '        self.clone().into_merkle_proof(protocol_id)', '    }\n', '''        let mut block = self.clone();
        block.conceal_other(protocol_id)?;
        let path = block.path_hashes();
        let pos = block.protocol_id_pos(protocol_id);
        Ok(MerkleProof {
            method: block.method,
            pos,
            cofactor: block.cofactor,
            path,
        })
'''), (B, '    /// Computes position for a given `protocol_id` within the tree leaves.\n', '''    fn path_hashes(&self) -> Confined<Vec<MerkleHash>, 0, 32> {
        let by_depth: BTreeMap<u5, MerkleHash> = self
            .cross_section
            .iter()
            .filter_map(|node| match *node {
                TreeNode::ConcealedNode { depth, hash } => Some((depth, hash)),
                TreeNode::CommitmentLeaf { .. } => None,
            })
            .collect();
        Confined::try_from_iter(by_depth.into_values()).expect("tree width guarantees are broken")
    }

    /// Computes position for a given `protocol_id` within the tree leaves.
''')]),
    ('z-known-revealed', '', [(B, '    pub fn known_protocol_ids(&self)', '''    fn revealed(&self) -> impl Iterator<Item = (ProtocolId, Message)> + '_ {
        self.cross_section.iter().filter_map(|item| match *item {
            TreeNode::ConcealedNode { .. } => None,
            TreeNode::CommitmentLeaf {
                protocol_id,
                message,
            } => Some((protocol_id, message)),
        })
    }

    pub fn known_protocol_ids(&self)'''), part(B, '        self.cross_section.iter().filter_map(|item| match item {\n            TreeNode::ConcealedNode { .. } => None,\n            TreeNode::CommitmentLeaf { protocol_id, .. }', '    }\n', '        self.revealed().map(|(protocol_id, _)| protocol_id)\n', start_at='    pub fn known_protocol_ids(&self)'),
        part(B, '        Confined::try_from_iter(\n            self.cross_section\n                .iter()\n                .copied()', '    }\n', '        Confined::try_from_iter(self.revealed()).expect("same collection size")\n')]),
    ('z-known-loop', '', [part(B, '        Confined::try_from_iter(\n            self.cross_section\n                .iter()\n                .copied()', '    }\n', '''        let mut map = BTreeMap::new();
        for item in &self.cross_section {
            if let TreeNode::CommitmentLeaf {
                protocol_id,
                message,
            } = item
            {
                map.insert(*protocol_id, *message);
            }
        }
        Confined::try_from(map).expect("same collection size")
''')]),
    ('z-proof-eq', '', [(B, 'self.cofactor == other.cofactor && self.merkle_root() == other.merkle_root()', '(self.cofactor, self.merkle_root()) == (other.cofactor, other.merkle_root())')]),
    ('z-convolve-map', '', [part(B, '        let block = MerkleBlock::with(self, protocol_id, message)?;', '    }\n', '        MerkleBlock::with(self, protocol_id, message).map(|block| block.commit_id())\n')]),
    # --- merklization
    ('z-merkle-slice', '', [(M, MERKLIZE, '''    pub fn merklize(leaves: &impl MerkleLeaves) -> Self {
        let nodes = leaves
            .merkle_leaves()
            .map(|leaf| leaf.commit_id())
            .collect::<Vec<MerkleHash>>();
        let base_width =
            u32::try_from(nodes.len()).expect("too many merkle leaves (more than 2^31)");
        match nodes.as_slice() {
            [root] => *root,
            nodes => Self::_merklize(nodes, u5::ZERO, base_width),
        }
    }

    fn _merklize(nodes: &[MerkleHash], depth: u5, base_width: u32) -> Self {
        match nodes {
            [] => MerkleHash::void(depth, base_width),
            [branch] => MerkleHash::single(depth, base_width, *branch),
            [branch1, branch2] => MerkleHash::branches(depth, base_width, *branch1, *branch2),
            _ => {
                let (left, right) = nodes.split_at(nodes.len() / 2 + nodes.len() % 2);
                let branch1 = Self::_merklize(left, depth + 1, base_width);
                let branch2 = Self::_merklize(right, depth + 1, base_width);
                MerkleHash::branches(depth, base_width, branch1, branch2)
            }
        }
    }
''')]),
    ('z-merkle-collect', '', [part(M, '        let mut nodes = leaves.merkle_leaves().map', '        let base_width', '''        let hashes = leaves
            .merkle_leaves()
            .map(CommitId::commit_id)
            .collect::<Vec<_>>();
        let mut nodes = hashes.into_iter();
''')]),
    ('z-merkle-node', '', [part(M, '                (None, None) => MerkleHash::void', '            }\n        } else', '''                (None, _) => MerkleHash::void(depth, base_width),
                (Some(branch), None) => MerkleHash::single(depth, base_width, branch),
                (Some(branch1), Some(branch2)) => {
                    MerkleNode::branches(depth, base_width, branch1, branch2).commit_id()
                }
''')]),
    ('z-merkle-guard', '', [(M, '        if branch_width <= 2 {\n            match (iter.next(), iter.next()) {', '        if branch_width < 3 {\n            let pair = (iter.next(), iter.next());\n            match pair {')]),
    ('z-merkle-divceil', '', [(M, 'let div = branch_width / 2 + branch_width % 2;', 'let rest = branch_width / 2;\n            let div = branch_width - rest;'), (M, 'depth + 1, branch_width - div, base_width', 'depth + 1, rest, base_width')]),
    ('z-buoy-ifs', '', [part(M, '        match self\n            .stack\n            .as_mut()', '    }\n', '''        if let Some(stack) = self.stack.as_mut() {
            if !stack.push(depth) {
                return false;
            }
            let level = stack.level();
            self.stack = None;
            return self.push(level);
        }
        if depth == self.buoy {
            self.buoy -= 1;
            true
        } else {
            self.stack = Some(Box::new(MerkleBuoy::new(depth)));
            false
        }
''')]),
    ('z-buoy-level', '', [part(M, '        self.stack\n            .as_ref()\n', '    }\n', '''        match &self.stack {
            Some(stack) => stack.level(),
            None => self.buoy,
        }
''')]),
    ('z-buoy-loop', '', [part(M, '        self.stack\n            .as_ref()\n', '    }\n', '''        let mut top = self;
        while let Some(stack) = &top.stack {
            top = stack;
        }
        top.buoy
''')]),
    ('z-node-literal', '', [(M, 'Self::with(NodeBranching::Void, depth, width, VIRTUAL_LEAF, VIRTUAL_LEAF)', '''MerkleNode {
            branching: NodeBranching::Void,
            depth: depth.into(),
            width: width.into(),
            node1: VIRTUAL_LEAF,
            node2: VIRTUAL_LEAF,
        }''')]),
    # --- ids
    ('z-engine-step', '', [(I, '    pub fn commit_to_serialized<T', '''    fn step(&mut self, step: CommitStep) {
        self.layout
            .push(step)
            .expect("too many fields for commitment");
    }

    pub fn commit_to_serialized<T'''), (I, '        self.layout\n            .push(CommitStep::Hashed(fqn))\n            .expect("too many fields for commitment");\n', '        self.step(CommitStep::Hashed(fqn));\n'),
        (I, '        self.layout\n            .push(CommitStep::Merklized(fqn))\n            .expect("too many fields for commitment");\n', '        self.step(CommitStep::Merklized(fqn));\n'),
        (I, '        self.layout\n            .push(CommitStep::Concealed(fqn))\n            .expect("too many fields for commitment");\n', '        self.step(CommitStep::Concealed(fqn));\n')]),
    ('z-engine-order', '', [(I, '''        self.layout
            .push(CommitStep::Concealed(fqn))
            .expect("too many fields for commitment");

        let concealed = value.conceal();
        self.inner_commit_to::<_, COMMIT_MAX_LEN>(&concealed);
''', '''        let concealed = value.conceal();
        self.inner_commit_to::<_, COMMIT_MAX_LEN>(&concealed);
        self.layout
            .push(CommitStep::Concealed(fqn))
            .expect("too many fields for commitment");
''')]),
    ('z-engine-match', '', [(I, '        value\n            .strict_write(writer)\n            .expect("unable to encode the value for the commitment");', '        if let Err(err) = value.strict_write(writer) {\n            panic!("unable to encode the value for the commitment: {err}");\n        }')]),
    ('z-id-commit', '', [(I, 'fn commit_id(&self) -> Self::CommitmentId { self.commit().finish().into() }', '''fn commit_id(&self) -> Self::CommitmentId {
        let engine = self.commit();
        let hasher = engine.finish();
        Self::CommitmentId::from(hasher)
    }''')]),
    ('z-layout-parts', '', [(I, '        let fields = dumb.commit().into_layout();\n', '        let (_, fields) = dumb.commit().finish_layout();\n')]),
    # --- digest
    ('z-digest-tag', '', [part(D, '        let mut tagger = Sha256::default();\n', '    }\n', '''        let tag = Sha256::digest(tag);
        let mut engine = Sha256::default();
        engine.update(tag);
        engine.update(tag);
        engine
''')]),
    ('z-digest-chain', '', [part(D, '        let mut tagger = Sha256::default();\n', '    }\n', '''        let tag = Sha256::new().chain_update(tag).finalize();
        Sha256::new().chain_update(tag).chain_update(tag)
''')]),
    ('z-digest-loop', '', [part(D, '        let mut engine = Sha256::default();\n', '    }\n', '''        let mut engine = Sha256::default();
        for _ in 0..2 {
            engine.update(tag);
        }
        engine
''')]),
    # --- schemes
    ('z-commit-eq', '', [part(C, '        match Self::commit(msg) == *self {', '    }\n', '''        let expected = Self::commit(msg);
        if expected == *self {
            return Ok(());
        }
        Err(VerifyError::InvalidCommitment)
''')]),
    ('z-try-and', '', [part(C, '        let other_commitment = Self::try_commit', '    }\n', '''        Self::try_commit(msg)
            .map_err(|_| VerifyError::InvalidMessage)
            .and_then(|other| match other == *self {
                true => Ok(()),
                false => Err(VerifyError::InvalidCommitment),
            })
''')]),
    ('z-embed-match', '', [part(E, '        let mut container_prime = proof', '        if !proof_prime', '''        let mut container_prime = match proof.restore_original_container(self) {
            Ok(container) => container,
            Err(err) => return Err(err),
        };
        let proof_prime = match container_prime.embed_commit(msg) {
            Ok(proof) => proof,
            Err(err) => return Err(EmbedVerifyError::InvalidMessage(err)),
        };
''')]),
    ('z-convolve-else', '', [part(V, '        let (commitment_prime, proof) = original', '        if !self.verify_eq', '''        let Ok((commitment_prime, proof)) = original.convolve_commit(suppl, msg) else {
            return Err(ConvolveVerifyError::ImpossibleMessage);
        };
''')]),
    # --- texts
    ('z-vesper-field', '', [part(P, '        let content = self.fields().iter().map(|field| {', '        VesperCommit {\n            subject,', '''        let content = self.fields().iter().map(CommitStep::to_vesper).map(Box::new);

'''), (P, 'impl CommitStep {\n', '''impl CommitStep {
    fn to_vesper(&self) -> VesperCommit {
        VesperCommit {
            subject: self.subject(),
            predicate: self.predicate(),
            attributes: self.attributes(),
            content: self.content(),
            comment: None,
        }
    }

''')]),
    ('z-vesper-leaf', '', [part(P, '                tiny_vec![Box::new(VesperCommit {\n                    subject: val.name', '            CommitStep::Collection(CommitColType::Map', '''                tiny_vec![part(val, Pred::Element)]
            }
'''), part(P, '                    Box::new(VesperCommit {\n                        subject: key.name', '                ]\n', '                    part(key, Pred::MapKey),\n                    part(val, Pred::MapValue)\n'),
        (P, 'impl CommitStep {\n', '''fn part(fqn: &TypeFqn, predicate: Pred) -> Box<VesperCommit> {
    Box::new(VesperCommit {
        subject: fqn.name.to_ident(),
        predicate,
        attributes: none!(),
        content: none!(),
        comment: None,
    })
}

impl CommitStep {
''')]),
    # --- the api
    ('z-api-helper', '', [part(A, '            for seal in item.single_use_seals() {', '            status += item', '''            check_seals::<_, Self::ValidationReport>(item.single_use_seals(), resolver, &mut status);
'''), (A, '/// Marker trait for client-side-validation data at any level of data hierarchy.', '''fn check_seals<'a, Resolver, R: ValidationReport>(
    seals: impl Iterator<Item = &'a <R::SealIssue as SealIssue>::Seal>,
    resolver: &mut Resolver,
    status: &mut Status<R>,
) where
    <R::SealIssue as SealIssue>::Seal: 'a,
    Resolver: SealResolver<<R::SealIssue as SealIssue>::Seal, Error = R::SealIssue>,
{
    for seal in seals {
        if let Err(issue) = resolver.resolve_trust(seal) {
            status.seal_issues.push(issue);
        }
    }
}

/// Marker trait for client-side-validation data at any level of data hierarchy.''')]),
    ('z-api-extend', '', [part(A, '            for seal in item.single_use_seals() {', '            status += item', '''            let issues = item
                .single_use_seals()
                .filter_map(|seal| resolver.resolve_trust(seal).err())
                .collect::<Vec<_>>();
            status.seal_issues.extend(issues);
''')]),
    ('z-api-foreach', '', [part(A, '        for item in self.validation_iter() {', '        status\n    }', '''        self.validation_iter().for_each(|item| {
            item.single_use_seals().for_each(|seal| {
                if let Err(issue) = resolver.resolve_trust(seal) {
                    status.add_seal_issue(issue);
                }
            });
            status += item.validate_internal_consistency();
        });

''')]),
    ('z-api-start', '', [(A, '        let mut status = Status::new();\n\n        status += self.validate_internal_consistency();\n', '        let mut status = self.validate_internal_consistency();\n')]),
    ('z-api-append', '', [part(A, '        self.seal_issues.extend(rhs.seal_issues);', '    }\n', '''        let Status {
            mut seal_issues,
            mut failures,
            warnings,
            info,
        } = rhs;
        self.seal_issues.append(&mut seal_issues);
        self.failures.append(&mut failures);
        for warning in warnings {
            self.warnings.push(warning);
        }
        self.info.extend(info);
''')]),
    ('z-api-validity', '', [part(A, '        if !self.failures.is_empty() {', '    }\n', '''        match (self.failures.len(), self.seal_issues.len()) {
            (0, 0) => Validity::Valid,
            (0, _) => Validity::SealIssues,
            (_, _) => Validity::Invalid,
        }
''')]),
    ('z-api-failure', '', [part(A, '        Status {\n            seal_issues: vec![],\n            failures: vec![failure],', '    }\n', '''        let mut status = Status::new();
        status.add_failure(failure);
        status
''')]),
    ('z-api-collect', '', [part(A, '        Status {\n            seal_issues: vec![],\n            failures: iter.into_iter().collect(),', '    }\n', '''        iter.into_iter().fold(Status::new(), |mut status, failure| {
            status.failures.push(failure);
            status
        })
''')]),
    # --- seals
    ('z-seal-all', '', [part(S, '        for seal in seals {', '        // ensure that published', '''        for seal in seals {
            self.check_included(seal.borrow(), message)?;
        }
'''), (S, '    pub fn verify_seals_closing(', '''    fn check_included(&self, seal: &Seal, message: Seal::Message) -> Result<(), SealError<Seal>> {
        match seal.is_included(message, self) {
            true => Ok(()),
            false => Err(SealError::NotIncluded(seal.clone(), self.published.pub_id())),
        }
    }

    pub fn verify_seals_closing(''')]),
    ('z-seal-andthen', '', [part(S, '        let f_msg = self\n', '    }\n', '''        self.client
            .convolve_commit(message)
            .map_err(SealError::Client)
            .and_then(|proof| {
                self.published
                    .verify_commitment(proof)
                    .map_err(SealError::Published)
            })
''')]),
    ('z-seal-manual', '', [part(S, '        for seal in seals {', '        // ensure that published', '''        let mut iter = seals.into_iter();
        loop {
            let Some(seal) = iter.next() else { break };
            let seal = seal.borrow();
            if !seal.is_included(message, self) {
                let id = self.published.pub_id();
                return Err(SealError::NotIncluded(seal.clone(), id));
            }
        }
''')]),
    # --- reserved bytes
    ('z-reserved-if', '', [part(L, '            let reserved = reader.read_tuple(|r| r.read_field().map(Self))?;', '        }\n    }\n\n    #[cfg(feature = "serde")]', '''            let Self(bytes) = reader.read_tuple(|r| r.read_field().map(Self))?;
            if bytes == [VAL; LEN] {
                return Ok(Self(bytes));
            }
            let reserved = Self(bytes);
            Err(DecodeError::DataIntegrityError(format!(
                "unsupported reserved byte value indicating a future RGB version: {reserved}"
            )))
''')]),
    ('z-reserved-default', '', [(L, '        assert_eq!(value, [VAL; LEN]);\n        Self(value)', '        let reserved = Self::default();\n        assert_eq!(value, reserved.0);\n        reserved')]),
]
