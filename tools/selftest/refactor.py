"""Larger rewrites which keep the behaviour."""
B = 'commit_verify/src/mpc/block.rs'
T = 'commit_verify/src/mpc/tree.rs'
M = 'commit_verify/src/merkle.rs'
I = 'commit_verify/src/id.rs'
D = 'commit_verify/src/digest.rs'
C = 'commit_verify/src/commit.rs'
E = 'commit_verify/src/embed.rs'
V = 'commit_verify/src/convolve.rs'
A = 'src/api.rs'
S = 'single_use_seals/src/lib.rs'
b = open('/repo/' + B).read()


def cut(s, start, end):
    i = s.index(start)
    return s[i:s.index(end, i)]


t, m, a = open('/repo/' + T).read(), open('/repo/' + M).read(), open('/repo/' + A).read()
CONCEAL1 = cut(b, '        for node in &mut self.cross_section {', '        loop {\n            debug_assert!(!self')
PASS = cut(b, '            let prev_count = count;\n', '            debug_assert_eq!(offset, self.width_limit());')
MERGE = cut(b, '        let mut cross_section =\n            Vec::with_capacity(self.cross_section.len()', '        self.cross_section =\n            NonEmptyVec::try_from(cross_section)')
LESS = cut(b, '                Ordering::Less => {', '                Ordering::Greater => {')
GREATER = cut(b, '                Ordering::Greater => {', '            }\n        }\n        cross_section.extend(a);')
WITH = cut(b, '        let mut dir = Vec::with_capacity(path.len());', '        let cross_section =\n            NonEmptyVec::try_from(cross_section).expect("tree width guarantees are broken");\n\n        Ok(')
PROOF = cut(b, '        let mut map = BTreeMap::<u5, MerkleHash>::new();', '        debug_assert_eq!(\n            self.depth.to_u8() as usize,\n            map.len(),')
TAIL = cut(b, '        assert_eq!(\n            self.cross_section\n', '        Ok(self.cross_section.len() as u16)')
ALL = cut(t, '                        map.clear();\n', '                }\n\n                prev_width')
TRY = cut(t, '            let mut depth = source.min_depth;', '        /// Repeats the commitment with')
SUBTREE = '''    /// Copies the nodes of the subtree of the given depth, and returns the node next to it.
    fn copy_subtree(
        first: TreeNode,
        rest: &mut impl Iterator<Item = TreeNode>,
        target: u5,
        tree_depth: u5,
        section: &mut Vec<TreeNode>,
    ) -> Option<TreeNode> {
        section.push(first);
        let mut buoy = MerkleBuoy::<u5>::new(first.depth_or(tree_depth));
        let mut stop = false;
        for n in rest.by_ref() {
            if stop {
                return Some(n);
            }
            buoy.push(n.depth_or(tree_depth));
            section.push(n);
            if buoy.level() <= target {
                stop = true;
            }
        }
        None
    }

    /// Converts the merkle block into a merkle proof for the inclusion of a
    /// commitment under given `protocol_id`.
    pub fn into_merkle_proof('''
INTOPROOF = '''    /// Converts the merkle block into a merkle proof for the inclusion of a
    /// commitment under given `protocol_id`.
    pub fn into_merkle_proof('''

VBODY = cut(a, '        let mut status = Status::new();', '    /// Returns iterator over hierarchy').rstrip() + '\n'
EDITS = [
    ('r24-foreach', '', [(B, CONCEAL1, '''        let depth = self.depth;
        self.cross_section.iter_mut().for_each(|node| {
            if let TreeNode::CommitmentLeaf { protocol_id, .. } = *node {
                if !protocols.contains(&protocol_id) {
                    count += 1;
                    *node = TreeNode::ConcealedNode {
                        depth,
                        hash: node.to_merkle_node(),
                    };
                }
            }
        });

''')]),
    ('r24-continue', '', [(B, CONCEAL1, '''        for node in self.cross_section.iter_mut() {
            let TreeNode::CommitmentLeaf { protocol_id, message } = node else {
                continue;
            };
            if protocols.contains(protocol_id) {
                continue;
            }
            let hash = Leaf::inhabited(*protocol_id, *message).commit_id();
            *node = TreeNode::ConcealedNode {
                depth: self.depth,
                hash,
            };
            count += 1;
        }

''')]),
    ('r24-width', '', [(B, PASS, PASS.replace('2u32.pow(self.depth.to_u8() as u32 - depth1.to_u8() as u32)', 'self.node_width(depth1)').replace(
        '2u32.pow(self.depth.to_u8() as u32 - depth.to_u8() as u32)', 'self.node_width(depth)')), (B, INTOPROOF, '''    fn node_width(&self, depth: u5) -> u32 {
        2u32.pow(self.depth.to_u8() as u32 - depth.to_u8() as u32)
    }

''' + INTOPROOF)]),
    ('r24-pass', '', [(B, PASS, '''            let merged = self.merge_siblings();
            count += merged;
            if merged == 0 {
                break;
            }
            let offset = self.width_limit();
'''), (B, INTOPROOF, '''    fn merge_siblings(&mut self) -> usize {
        let mut merged = 0;
        let mut offset = 0u32;
        let mut pos = 0usize;
        while let Some(n1) = self.cross_section.get(pos).copied() {
            let n2 = self.cross_section.get(pos + 1).copied();
            let width = 2u32.pow(self.depth.to_u8() as u32 - n1.depth_or(self.depth).to_u8() as u32);
            if let (
                TreeNode::ConcealedNode { depth, hash },
                Some(TreeNode::ConcealedNode {
                    depth: depth2,
                    hash: hash2,
                }),
            ) = (n1, n2)
            {
                if depth == depth2 && offset % (width * 2) == 0 {
                    self.cross_section[pos] =
                        TreeNode::with(hash, hash2, depth - 1, self.width_limit());
                    self.cross_section
                        .remove(pos + 1)
                        .expect("we allow 0 elements");
                    merged += 1;
                    offset += width * 2;
                    pos += 1;
                    continue;
                }
            }
            offset += width;
            pos += 1;
        }
        merged
    }

''' + INTOPROOF)]),
    ('r26-subtree', '', [(B, LESS + GREATER, '''                Ordering::Less => {
                    last_b = Self::copy_subtree(n2, &mut b, n1_depth, self.depth, &mut cross_section);
                    last_a = a.next();
                }
                Ordering::Greater => {
                    last_a = Self::copy_subtree(n1, &mut a, n2_depth, self.depth, &mut cross_section);
                    last_b = b.next();
                }
'''), (B, INTOPROOF, SUBTREE)]),
    ('r26-loop', '', [(B, '        while let (Some(n1), Some(n2)) = (last_a, last_b) {\n', '        loop {\n            let (Some(n1), Some(n2)) = (last_a, last_b) else {\n                break;\n            };\n')]),
    ('r26-ifcmp', '', [(B, '            match n1_depth.cmp(&n2_depth) {\n                Ordering::Equal if n1 == n2 => {\n                    cross_section.push(n1);\n                    last_a = a.next();\n                    last_b = b.next();\n                }\n', '            if n1 == n2 {\n                cross_section.push(n1);\n                last_a = a.next();\n                last_b = b.next();\n                continue;\n            }\n            match n1_depth.cmp(&n2_depth) {\n')]),
    ('r26-check', '', [(B, TAIL, '''        let width = self
            .cross_section
            .iter()
            .map(|n| 2u32.pow((self.depth.to_u8() - n.depth_or(self.depth).to_u8()) as u32))
            .sum::<u32>();
        assert_eq!(width, self.width_limit(), "merge-reveal is broken\\n{orig:#?}\\n{other:#?}");
        let new_root = self.commit_id();
        if new_root != base_root {
            panic!("merge-reveal is broken: {base_root} {new_root}");
        }

''')]),
    ('r26-fold', '', [(B, '''                .map(|n| self.depth.to_u8() - n.depth_or(self.depth).to_u8())
                .map(|height| 2u32.pow(height as u32))
                .sum::<u32>(),''', '''                .fold(0u32, |sum, n| {
                    sum + 2u32.pow((self.depth.to_u8() - n.depth_or(self.depth).to_u8()) as u32)
                }),''')]),
    ('r26-map', '', [(B, '''        let block = MerkleBlock::with(proof, protocol_id, message)?;
        self.merge_reveal(block)''', '''        match MerkleBlock::with(proof, protocol_id, message) {
            Ok(block) => self.merge_reveal(block),
            Err(err) => Err(MergeError::InvalidProof(err)),
        }''')]),
    ('r23-counter', '', [(B, WITH, WITH.replace('for (depth, hash) in path.iter().enumerate() {', 'let mut depth = u5::ZERO;\n        for hash in path {\n            depth += 1u8;').replace('depth: u5::with(depth as u8) + 1,', 'depth,'))]) if False else
    ('r23-half', '', [(B, WITH, WITH.replace('''            let list = if pos >= width_limit / 2 {
                pos -= width_limit / 2;
                &mut dir
            } else {
                &mut rev
            };
            list.push(TreeNode::ConcealedNode {
                depth: u5::with(depth as u8) + 1,
                hash: *hash,
            });
            width_limit /= 2;
''', '''            width_limit /= 2;
            let node = TreeNode::ConcealedNode {
                depth: u5::with(depth as u8 + 1),
                hash: *hash,
            };
            if pos < width_limit {
                rev.push(node);
            } else {
                pos -= width_limit;
                dir.push(node);
            }
'''))]),
    ('r23-split', '', [(B, WITH, '''        let (left, right) = Self::split_path(path, pos, width_limit);
        let leaf = TreeNode::CommitmentLeaf {
            protocol_id,
            message,
        };
        let cross_section = left
            .into_iter()
            .chain(std::iter::once(leaf))
            .chain(right.into_iter().rev())
            .collect::<Vec<_>>();
'''), (B, INTOPROOF, '''    fn split_path(path: &[MerkleHash], mut pos: u32, mut width: u32) -> (Vec<TreeNode>, Vec<TreeNode>) {
        let mut left = vec![];
        let mut right = vec![];
        for (no, hash) in path.iter().copied().enumerate() {
            let node = TreeNode::ConcealedNode {
                depth: u5::with(no as u8) + 1,
                hash,
            };
            width /= 2;
            if pos >= width {
                pos -= width;
                left.push(node);
            } else {
                right.push(node);
            }
        }
        (left, right)
    }

''' + INTOPROOF)]),
    ('r23-insert', '', [(B, WITH, WITH.replace('cross_section.extend(rev.into_iter().rev());', 'while let Some(node) = rev.pop() {\n            cross_section.push(node);\n        }'))]),
    ('r27-siblings', '', [(B, PROOF, '        let map = self.concealed_siblings();\n'), (B, INTOPROOF, '''    fn concealed_siblings(&self) -> BTreeMap<u5, MerkleHash> {
        let mut map = BTreeMap::new();
        for node in self.cross_section.iter() {
            if let TreeNode::ConcealedNode { depth, hash } = node {
                map.insert(*depth, *hash);
            }
        }
        map
    }

''' + INTOPROOF)]),
    ('r27-posfirst', '', [(B, '        self.conceal_other(protocol_id)?;\n        let mut map', '        let pos = self.protocol_id_pos(protocol_id);\n        self.conceal_other(protocol_id)?;\n        let mut map'), (B, '            pos: self.protocol_id_pos(protocol_id),\n', '            pos,\n')]),
    ('r27-proofs', '', [(B, cut(b, '        self.known_protocol_ids()\n            .collect::<Vec<_>>()', '    }\n}\n\nimpl Conceal for MerkleBlock'), '''        let mut proofs = Vec::new();
        for id in self.known_protocol_ids() {
            let proof = self
                .to_merkle_proof(id)
                .expect("protocol ids must strictly match");
            proofs.push((id, proof));
        }
        proofs.into_iter()
''')]),
    ('r27-sortvec', '', [(B, PROOF, '''        let mut map = self
            .cross_section
            .iter()
            .filter_map(|node| match node {
                TreeNode::ConcealedNode { depth, hash } => Some((*depth, *hash)),
                TreeNode::CommitmentLeaf { .. } => None,
            })
            .collect::<BTreeMap<u5, MerkleHash>>();
        let map = std::mem::take(&mut map);
''')]),
    ('r22-nodeat', '', [(B, cut(b, '            map.get(&pos)\n                .map(|(protocol_id, message)| TreeNode', '        });\n        let cross_section =\n            NonEmptyVec::try_from_iter'), '''            match map.get(&pos) {
                Some(&(protocol_id, message)) => TreeNode::CommitmentLeaf {
                    protocol_id,
                    message,
                },
                None => {
                    let placeholder = Leaf::entropy(tree.entropy, pos);
                    TreeNode::ConcealedNode {
                        depth: tree.depth,
                        hash: placeholder.commit_id(),
                    }
                }
            }
''')]),
    ('r22-contains', '', [(B, cut(b, '            map.get(&pos)\n                .map(|(protocol_id, message)| TreeNode', '        });\n        let cross_section =\n            NonEmptyVec::try_from_iter'), '''            if let Some((protocol_id, message)) = map.get(&pos).copied() {
                return TreeNode::CommitmentLeaf { protocol_id, message };
            }
            TreeNode::ConcealedNode {
                depth: tree.depth,
                hash: Leaf::entropy(tree.entropy, pos).commit_id(),
            }
''')]),
    ('r28-slice', '', [(B, '''        let Some(TreeNode::ConcealedNode {
            depth: u5::ZERO,
            hash,
        }) = concealed.cross_section.first()
        else {
            panic!("broken MerkleBlock conceal procedure")
        };''', '''        let hash = match concealed.cross_section.iter().next() {
            Some(TreeNode::ConcealedNode { depth, hash }) if *depth == u5::ZERO => hash,
            _ => panic!("broken MerkleBlock conceal procedure"),
        };''')]),
    ('r19-fnwidth', '', [(B, '''    pub fn width_limit(&self) -> u32 { 2u32.pow(self.depth.to_u8() as u32) }

    /// Computes the factored width of the merkle tree according to the formula
    /// `2 ^ depth - cofactor`.
    pub fn factored_width(&self) -> u32 {
        self.width_limit()
            .saturating_sub(self.cofactor as u32)
            .max(1)
    }

    pub fn known''', '''    pub fn width_limit(&self) -> u32 { width_of(self.depth) }

    /// Computes the factored width of the merkle tree according to the formula
    /// `2 ^ depth - cofactor`.
    pub fn factored_width(&self) -> u32 {
        let width = width_of(self.depth);
        let cofactor = u32::from(self.cofactor);
        if cofactor >= width { 1 } else { width - cofactor }
    }

    pub fn known'''), (B, '/// A proof of the merkle commitment.', 'fn width_of(depth: u5) -> u32 { 1 << depth.to_u8() }\n\n/// A proof of the merkle commitment.')]),
    ('r27-idsvec', '', [(B, cut(b, '        self.cross_section.iter().filter_map(|item| match item {\n            TreeNode::ConcealedNode { .. } => None,\n            TreeNode::CommitmentLeaf { protocol_id, .. }', '    }\n\n    /// Constructs [`MessageMap`]'), '''        let mut ids = Vec::new();
        for node in &self.cross_section {
            if let TreeNode::CommitmentLeaf { protocol_id, .. } = node {
                ids.push(*protocol_id);
            }
        }
        ids.into_iter()
''')]),
    # ---- tree
    ('r20-option', '', [(T, ALL, '''                        if let Some(map) = place_messages(source, cofactor, depth) {
                            return Ok(MerkleTree {
                                method: source.method,
                                depth,
                                entropy,
                                cofactor,
                                messages: source.messages.clone(),
                                map: Confined::try_from(map).expect("MultiSource type guarantees"),
                            });
                        }
                    }
'''), (T, '            let mut map = BTreeMap::<u32, (ProtocolId, Message)>::new();\n\n', ''), (T, '    /// # Panics\n    ///\n    /// Panics if the crate', '''    /// Places all messages, unless two of them are at the same position.
    fn place_messages(
        source: &MultiSource,
        cofactor: u16,
        depth: u5,
    ) -> Option<BTreeMap<u32, (ProtocolId, Message)>> {
        let mut map = BTreeMap::new();
        for (protocol, message) in &source.messages {
            let pos = protocol_id_pos(*protocol, cofactor, depth);
            if map.insert(pos, (*protocol, *message)).is_some() {
                return None;
            }
        }
        Some(map)
    }

    /// # Panics
    ///
    /// Panics if the crate''')]),
    ('r20-len', '', [(T, '''                        map.clear();
                        if source.messages.iter().all(|(protocol, message)| {
                            let pos = protocol_id_pos(*protocol, cofactor, depth);
                            map.insert(pos, (*protocol, *message)).is_none()
                        }) {
''', '''                        let map = source
                            .messages
                            .iter()
                            .map(|(protocol, message)| {
                                (protocol_id_pos(*protocol, cofactor, depth), (*protocol, *message))
                            })
                            .collect::<BTreeMap<u32, (ProtocolId, Message)>>();
                        if map.len() == msg_count {
'''), (T, '            let mut map = BTreeMap::<u32, (ProtocolId, Message)>::new();\n\n', '')]),
    ('r20-entropy', '', [(T, '''            #[cfg(feature = "rand")]
            let entropy = source
                .static_entropy
                .unwrap_or_else(|| thread_rng().next_u64());
''', '''            #[cfg(feature = "rand")]
            let entropy = match source.static_entropy {
                Some(entropy) => entropy,
                None => thread_rng().next_u64(),
            };
''')]),
    ('r20-entropyfn', '', [(T, '''            #[cfg(feature = "rand")]
            let entropy = source
                .static_entropy
                .unwrap_or_else(|| thread_rng().next_u64());
            #[cfg(not(feature = "rand"))]
            let entropy = source.static_entropy.expect(
                "use must use `rand` feature for crate commit_verify if you do not provide with a \\
                 static entropy information in `MultiSource`",
            );
''', '            let entropy = entropy_for(source);\n'), (T, '''            #[cfg(feature = "rand")]
            use rand::{thread_rng, RngCore};

''', ''), (T, '    /// # Panics\n    ///\n    /// Panics if the crate', '''    #[cfg(feature = "rand")]
    fn entropy_for(source: &MultiSource) -> u64 {
        use rand::{thread_rng, RngCore};
        source
            .static_entropy
            .unwrap_or_else(|| thread_rng().next_u64())
    }

    #[cfg(not(feature = "rand"))]
    fn entropy_for(source: &MultiSource) -> u64 {
        source.static_entropy.expect("the crate is built without a source of entropy")
    }

    /// # Panics
    ///
    /// Panics if the crate''')]),
    ('r20-labeled', '', [(T, '''                        if source.messages.iter().all(|(protocol, message)| {
                            let pos = protocol_id_pos(*protocol, cofactor, depth);
                            map.insert(pos, (*protocol, *message)).is_none()
                        }) {
                            return Ok(MerkleTree {
                                method: source.method,
                                depth,
                                entropy,
                                cofactor,
                                messages: source.messages.clone(),
                                map: Confined::try_from(map).expect("MultiSource type guarantees"),
                            });
                        }
''', '''                        for (protocol, message) in source.messages.iter() {
                            let pos = protocol_id_pos(*protocol, cofactor, depth);
                            if map.contains_key(&pos) {
                                continue 'cofactors;
                            }
                            map.insert(pos, (*protocol, *message));
                        }
                        return Ok(MerkleTree {
                            method: source.method,
                            depth,
                            entropy,
                            cofactor,
                            messages: source.messages.clone(),
                            map: Confined::try_from(map).expect("MultiSource type guarantees"),
                        });
'''), (T, '                    for cofactor in 0..=', "                    'cofactors: for cofactor in 0..=")]),
    ('r20-findmap', '', [(T, cut(t, '                    for cofactor in 0..=(prev', '                }\n\n                prev_width'), '''                    let max = prev_width.min(COFACTOR_ATTEMPTS as u32) as u16;
                    let found = (0..=max).find_map(|cofactor| {
                        let mut map = BTreeMap::<u32, (ProtocolId, Message)>::new();
                        source
                            .messages
                            .iter()
                            .all(|(protocol, message)| {
                                let pos = protocol_id_pos(*protocol, cofactor, depth);
                                map.insert(pos, (*protocol, *message)).is_none()
                            })
                            .then_some((cofactor, map))
                    });
                    if let Some((cofactor, map)) = found {
                        return Ok(MerkleTree {
                            method: source.method,
                            depth,
                            entropy,
                            cofactor,
                            messages: source.messages.clone(),
                            map: Confined::try_from(map).expect("MultiSource type guarantees"),
                        });
                    }
'''), (T, '            let mut map = BTreeMap::<u32, (ProtocolId, Message)>::new();\n\n            let mut depth', '            let mut depth')]),
    ('r22-push', '', [(T, cut(t, '        let iter = (0..self.width_limit()).map(|pos| {', '        debug_assert_eq!(leaves.len_u32()'), '''        let width = self.width_limit();
        let mut leaves = Vec::with_capacity(width as usize);
        for pos in 0..width {
            let leaf = match self.map.get(&pos) {
                Some((protocol, msg)) => Leaf::inhabited(*protocol, *msg),
                None => Leaf::entropy(self.entropy, pos),
            };
            leaves.push(leaf);
        }
        let leaves = LargeVec::try_from(leaves).expect("tree width has u32-bound size");
''')]),
    ('r19-let', '', [(T, '''    let rem = u256::from_le_bytes((*protocol_id).into_inner()) %
        u256::from(width.saturating_sub(cofactor as u32).max(1) as u64);
    rem.low_u64() as u32''', '''    let modulus = width.saturating_sub(u32::from(cofactor)).max(1);
    let id = u256::from_le_bytes(protocol_id.into_inner().into_inner());
    let pos = id % u256::from(u64::from(modulus));
    pos.low_u64() as u32''')]),
    # ---- merkle
    ('r16-left', '', [(M, '''            let slice = iter
                .by_ref()
                .take(div as usize)
                // Normally we should use `iter.by_ref().take(div)`, but currently
                // rust compilers is unable to parse recursion with generic types
                // TODO: Do this without allocation
                .collect::<Vec<_>>()
                .into_iter();
            let branch1 = Self::_merklize(slice, depth + 1, div, base_width);
            let branch2 = Self::_merklize(iter, depth + 1, branch_width - div, base_width);
''', '''            let mut left = Vec::with_capacity(div as usize);
            for _ in 0..div {
                left.extend(iter.next());
            }
            let branch1 = Self::_merklize(left.into_iter(), depth + 1, div, base_width);
            let branch2 = Self::_merklize(iter, depth + 1, branch_width - div, base_width);
''')]),
    ('r16-vecs', '', [(M, '''            let branch1 = Self::_merklize(slice, depth + 1, div, base_width);
            let branch2 = Self::_merklize(iter, depth + 1, branch_width - div, base_width);
''', '''            let rest = iter.collect::<Vec<_>>().into_iter();
            let next_depth = depth + 1;
            let branch1 = Self::_merklize(slice, next_depth, div, base_width);
            let branch2 = Self::_merklize(rest, next_depth, branch_width - div, base_width);
''')]),
    ('r16-len', '', [(M, '        if base_width == 1 {\n            // If we have just one leaf, it\'s MerkleNode value is the root\n            nodes.next().expect("length is 1")\n        } else {\n            Self::_merklize(nodes, u5::ZERO, base_width, base_width)\n        }', '        match base_width {\n            1 => nodes.next().expect("length is 1"),\n            width => Self::_merklize(nodes, u5::ZERO, width, width),\n        }')]),
    ('r17-else', '', [(M, cut(m, '        match self\n            .stack\n            .as_mut()\n            .map(|stack| (stack.push', '    }\n}'), '''        let Some(stack) = &mut self.stack else {
            if depth == self.buoy {
                self.buoy -= 1;
                return true;
            }
            self.stack = Some(Box::new(MerkleBuoy::new(depth)));
            return false;
        };
        if !stack.push(depth) {
            return false;
        }
        let level = stack.level();
        self.stack = None;
        self.push(level)
''')]),
    ('r17-take', '', [(M, cut(m, '        match self\n            .stack\n            .as_mut()\n            .map(|stack| (stack.push', '    }\n}'), '''        match self.stack.take() {
            None if depth == self.buoy => {
                self.buoy -= 1;
                true
            }
            None => {
                self.stack = Some(Box::new(MerkleBuoy::new(depth)));
                false
            }
            Some(mut stack) => {
                if stack.push(depth) {
                    self.push(stack.level())
                } else {
                    self.stack = Some(stack);
                    false
                }
            }
        }
''')]),
    ('r17-level', '', [(M, '''        self.stack
            .as_ref()
            .map(Box::as_ref)
            .map(MerkleBuoy::level)
            .unwrap_or(self.buoy)''', '''        let mut top = self;
        while let Some(stack) = &top.stack {
            top = stack;
        }
        top.buoy''')]),
    # ---- digest, ids
    ('r18-prefix', '', [(D, cut(open('/repo/' + D).read(), '            0..=0xFF => self', '            _ => panic!("data too large")'), '''            0..=0xFF => {
                let len = u8::try_from(len).expect("data too large");
                self.input_raw(&[len]);
            }
            0x100..=0xFFFF => {
                let len = u16::try_from(len).expect("data too large").to_le_bytes();
                self.input_raw(&len);
            }
            0x10000..=0xFFFFFF => {
                let len = u24::with(u32::try_from(len).expect("data too large"));
                self.input_raw(&len.to_le_bytes());
            }
            0x1000000..=0xFFFFFFFF => {
                let Ok(len) = u32::try_from(len) else {
                    panic!("data too large");
                };
                self.input_raw(&len.to_le_bytes());
            }
''')]),
    ('r18-vec', '', [(D, cut(open('/repo/' + D).read(), '        match MAX {', '        self.input_raw(data);\n    }\n    fn finish'), '''        let prefix = match MAX {
            0..=0xFF => u8::try_from(len).expect("data too large").to_le_bytes().to_vec(),
            0x100..=0xFFFF => u16::try_from(len).expect("data too large").to_le_bytes().to_vec(),
            0x10000..=0xFFFFFF => {
                let len = u32::try_from(len).expect("data too large");
                u24::with(len).to_le_bytes().to_vec()
            }
            0x1000000..=0xFFFFFFFF => {
                u32::try_from(len).expect("data too large").to_le_bytes().to_vec()
            }
            _ => panic!("data too large"),
        };
        self.input_raw(&prefix);
''')]),
    ('r10-digest', '', [(D, '''impl DigestExt for Sha256 {
    fn from_tag(tag: impl AsRef<[u8]>) -> Self {
        let mut tagger = Sha256::default();
        tagger.update(tag);
        let tag = tagger.finalize();

        let mut engine = Sha256::default();
        engine.update(tag);
        engine.update(tag);
        engine
    }
''', '''impl DigestExt for Sha256 {
    fn from_tag(tag: impl AsRef<[u8]>) -> Self {
        let tag = Sha256::digest(tag);
        Sha256::new().chain_update(tag).chain_update(tag)
    }
''')]),
    ('r10-generic', '', [(D, '''impl DigestExt for Sha256 {
    fn from_tag(tag: impl AsRef<[u8]>) -> Self {
        let mut tagger = Sha256::default();
        tagger.update(tag);
        let tag = tagger.finalize();

        let mut engine = Sha256::default();
        engine.update(tag);
        engine.update(tag);
        engine
    }
''', '''fn tagged<D: Digest>(tag: impl AsRef<[u8]>) -> D {
    let mut tagger = D::new();
    tagger.update(tag);
    let tag = tagger.finalize();

    let mut engine = D::new();
    engine.update(&tag);
    engine.update(&tag);
    engine
}

impl DigestExt for Sha256 {
    fn from_tag(tag: impl AsRef<[u8]>) -> Self { tagged(tag) }
''')]),
    ('r11-step', '', [(I, '''        self.layout
            .push(CommitStep::Merklized(fqn))
            .expect("too many fields for commitment");
''', '        self.push_step(CommitStep::Merklized(fqn));\n'), (I, '''        self.layout
            .push(CommitStep::Concealed(fqn))
            .expect("too many fields for commitment");
''', '        self.push_step(CommitStep::Concealed(fqn));\n'), (I, '    pub fn commit_to_option<T', '''    fn push_step(&mut self, step: CommitStep) {
        self.layout
            .push(step)
            .expect("too many fields for commitment");
    }

    pub fn commit_to_option<T''')]),
    ('r11-collection', '', [(I, '''        let fqn = commitment_fqn::<T>();
        let step =
            CommitStep::Collection(CommitColType::List, Sizing::new(MIN as u64, MAX as u64), fqn);
        self.layout
            .push(step)
            .expect("too many fields for commitment");
        self.inner_commit_to::<_, COMMIT_MAX_LEN>(&collection);
''', '        self.commit_to_collection::<_, T, MIN, MAX>(CommitColType::List, collection);\n'), (I, '''        let fqn = commitment_fqn::<T>();
        let step =
            CommitStep::Collection(CommitColType::Set, Sizing::new(MIN as u64, MAX as u64), fqn);
        self.layout
            .push(step)
            .expect("too many fields for commitment");
        self.inner_commit_to::<_, COMMIT_MAX_LEN>(&collection);
''', '        self.commit_to_collection::<_, T, MIN, MAX>(CommitColType::Set, collection);\n'), (I, '    pub fn commit_to_option<T', '''    fn commit_to_collection<C: StrictEncode, T: StrictType, const MIN: usize, const MAX: usize>(
        &mut self,
        ty: CommitColType,
        collection: &C,
    ) {
        let sizing = Sizing::new(MIN as u64, MAX as u64);
        self.layout
            .push(CommitStep::Collection(ty, sizing, commitment_fqn::<T>()))
            .expect("too many fields for commitment");
        self.inner_commit_to::<_, COMMIT_MAX_LEN>(collection);
    }

    pub fn commit_to_option<T''')]),
    # ---- schemes
    ('r08-andthen', '', [(E, '''        let mut container_prime = proof.restore_original_container(self)?;
        let proof_prime = container_prime.embed_commit(msg)?;
        if !proof_prime.verify_eq(proof) {
            return Err(EmbedVerifyError::ProofMismatch);
        }
        if !self.verify_eq(&container_prime) {
            return Err(EmbedVerifyError::CommitmentMismatch);
        }
        Ok(())''', '''        proof
            .restore_original_container(self)
            .and_then(|mut container| {
                let proof_prime = container
                    .embed_commit(msg)
                    .map_err(EmbedVerifyError::InvalidMessage)?;
                match (proof_prime.verify_eq(proof), self.verify_eq(&container)) {
                    (false, _) => Err(EmbedVerifyError::ProofMismatch),
                    (true, false) => Err(EmbedVerifyError::CommitmentMismatch),
                    (true, true) => Ok(()),
                }
            })''')]),
    ('r09-nested', '', [(V, '''        if !self.verify_eq(&proof) {
            return Err(ConvolveVerifyError::InvalidProof);
        }
        if !commitment.verify_eq(&commitment_prime) {
            return Err(ConvolveVerifyError::CommitmentMismatch);
        }
        Ok(())''', '''        if self.verify_eq(&proof) {
            if commitment.verify_eq(&commitment_prime) {
                Ok(())
            } else {
                Err(ConvolveVerifyError::CommitmentMismatch)
            }
        } else {
            Err(ConvolveVerifyError::InvalidProof)
        }''')]),
    ('r07-guards', '', [(C, '''        let other_commitment = Self::try_commit(msg).map_err(|_| VerifyError::InvalidMessage)?;
        if other_commitment != *self {
            return Err(VerifyError::InvalidCommitment);
        }
        Ok(())''', '''        match Self::try_commit(msg) {
            Ok(commitment) if commitment == *self => Ok(()),
            Ok(_) => Err(VerifyError::InvalidCommitment),
            Err(_) => Err(VerifyError::InvalidMessage),
        }''')]),
    ('r07-filter', '', [(C, '''        let other_commitment = Self::try_commit(msg).map_err(|_| VerifyError::InvalidMessage)?;
        if other_commitment != *self {
            return Err(VerifyError::InvalidCommitment);
        }
        Ok(())''', '''        Self::try_commit(msg)
            .map_err(|_| VerifyError::InvalidMessage)
            .and_then(|other| {
                (other == *self)
                    .then_some(())
                    .ok_or(VerifyError::InvalidCommitment)
            })''')]),
    # ---- api
    ('r04-tuple', '', [(A, '''        if !self.failures.is_empty() {
            Validity::Invalid
        } else if !self.seal_issues.is_empty() {
            Validity::SealIssues
        } else {
            Validity::Valid
        }''', '''        match (self.failures.len(), self.seal_issues.len()) {
            (0, 0) => Validity::Valid,
            (0, _) => Validity::SealIssues,
            _ => Validity::Invalid,
        }''')]),
    ('r04-first', '', [(A, '''        if !self.failures.is_empty() {
            Validity::Invalid
        } else if !self.seal_issues.is_empty() {
            Validity::SealIssues
        } else {
            Validity::Valid
        }''', '''        let has_failures = self.failures.iter().next().is_some();
        let has_issues = self.seal_issues.first().is_some();
        if has_failures {
            return Validity::Invalid;
        }
        if has_issues { Validity::SealIssues } else { Validity::Valid }''')]),
    ('r05-destructure', '', [(A, '''        self.seal_issues.extend(rhs.seal_issues);
        self.failures.extend(rhs.failures);
        self.warnings.extend(rhs.warnings);
        self.info.extend(rhs.info);
''', '''        let Status {
            seal_issues,
            failures,
            warnings,
            info,
        } = rhs;
        self.info.extend(info);
        self.warnings.extend(warnings);
        self.failures.extend(failures);
        self.seal_issues.extend(seal_issues);
''')]),
    ('r05-extend', '', [(A, '        self.failures.push(failure);\n', '        self.failures.extend([failure]);\n'), (A, '        self.warnings.push(warning);\n', '        self.warnings.extend(Some(warning));\n'), (A, '        self.info.push(info);\n', '        self.info.insert(self.info.len(), info);\n')]),
    # ---- seals
    ('r02-fmt', '', [(S, '            SealError::Published(err) => Display::fmt(err, f),\n            SealError::Client(err) => Display::fmt(err, f),\n', '            SealError::Published(err) => write!(f, "{err}"),\n            SealError::Client(err) => err.fmt(f),\n')]) if False else
    ('r02-errfmt', '', [(S, '            SealError::Published(err) => Display::fmt(err, f),\n', '            SealError::Published(err) => <_ as Display>::fmt(err, f),\n')]),
    ('r01-map', '', [(S, '''            seal.borrow()
                .is_included(message, self)
                .then_some(())
                .ok_or(SealError::NotIncluded(seal.borrow().clone(), self.published.pub_id()))?;
''', '''            let seal = seal.borrow();
            match seal.is_included(message, self) {
                true => continue,
                false => {
                    let pub_id = self.published.pub_id();
                    return Err(SealError::NotIncluded(seal.clone(), pub_id));
                }
            }
''')]),
    ('r01-steps', '', [(S, '''            seal.borrow()
                .is_included(message, self)
                .then_some(())
                .ok_or(SealError::NotIncluded(seal.borrow().clone(), self.published.pub_id()))?;
''', '''            self.check_included(seal.borrow(), message)?;
'''), (S, '''        let f_msg = self
            .client
            .convolve_commit(message)
            .map_err(SealError::Client)?;
        self.published
            .verify_commitment(f_msg)
            .map_err(SealError::Published)
    }
''', '''        let f_msg = self.published_message(message)?;
        match self.published.verify_commitment(f_msg) {
            Ok(()) => Ok(()),
            Err(err) => Err(SealError::Published(err)),
        }
    }

    fn check_included(&self, seal: &Seal, message: Seal::Message) -> Result<(), SealError<Seal>> {
        if seal.is_included(message, self) {
            return Ok(());
        }
        Err(SealError::NotIncluded(seal.clone(), self.published.pub_id()))
    }

    fn published_message(
        &self,
        message: Seal::Message,
    ) -> Result<<Seal::CliWitness as ClientSideWitness>::Proof, SealError<Seal>> {
        self.client
            .convolve_commit(message)
            .map_err(|err| SealError::Client(err))
    }
''')]),
    # ---- validate
    ('r06-item', '', [(A, VBODY, '''        let mut status = self.validate_internal_consistency();
        for item in self.validation_iter() {
            Self::validate_item(item, resolver, &mut status);
        }

        status
    }

    #[doc(hidden)]
    fn validate_item<Resolver>(
        item: &'client_data Self::ValidationItem,
        resolver: &mut Resolver,
        status: &mut Status<Self::ValidationReport>,
    ) where
        Resolver: SealResolver<<<Self::ValidationReport as ValidationReport>::SealIssue as SealIssue>::Seal, Error = <Self::ValidationReport as ValidationReport>::SealIssue>,
    {
        for seal in item.single_use_seals() {
            if let Err(issue) = resolver.resolve_trust(seal) {
                status.add_seal_issue(issue);
            }
        }
        *status += item.validate_internal_consistency();
    }
''')]),
    ('r06-issues', '', [(A, VBODY, '''        let mut status = Status::new();
        status += self.validate_internal_consistency();
        for item in self.validation_iter() {
            let issues = item
                .single_use_seals()
                .filter_map(|seal| resolver.resolve_trust(seal).err())
                .collect::<Vec<_>>();
            status.seal_issues.extend(issues);
            status += item.validate_internal_consistency();
        }
        status
    }
''')]),
    ('r06-while', '', [(A, VBODY, '''        let mut status = self.validate_internal_consistency();
        let mut items = self.validation_iter();
        while let Some(item) = items.next() {
            let mut seals = item.single_use_seals();
            while let Some(seal) = seals.next() {
                match resolver.resolve_trust(seal) {
                    Ok(()) => {}
                    Err(issue) => status.seal_issues.push(issue),
                }
            }
            let report = item.validate_internal_consistency();
            status.add_assign(report);
        }
        status
    }
''')]),
]
