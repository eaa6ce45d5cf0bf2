"""Rewrites by less usual means of the standard library, and what they look like with a mistake in them."""
B = 'commit_verify/src/mpc/block.rs'
T = 'commit_verify/src/mpc/tree.rs'
M = 'commit_verify/src/merkle.rs'
I = 'commit_verify/src/id.rs'
A = 'src/api.rs'
S = 'single_use_seals/src/lib.rs'
DEPTHS = '''                prev_width = width_limit;
                depth = depth
                    .checked_add(1)
                    .ok_or(Error::CantFitInMaxSlots(msg_count))?;
            }
'''
LOOP = '            loop {\n                let width_limit = 2u32.pow(depth.to_u8() as u32);'
FOR = '            for depth in %s {\n                let depth = u5::with(depth);\n                let width_limit = 2u32.pow(depth.to_u8() as u32);'
GIVEUP = '                prev_width = width_limit;\n            }\n            Err(Error::CantFitInMaxSlots(msg_count))\n'


def depths(r, rest=GIVEUP):
    return [(T, '            let mut depth = source.min_depth;\n', ''), (T, LOOP, FOR % r), (T, DEPTHS, rest)]


WITH = '''        for (depth, hash) in path.iter().enumerate() {
            let list = if pos >= width_limit / 2 {
                pos -= width_limit / 2;
                &mut dir
            } else {
                &mut rev
            };
            list.push(TreeNode::ConcealedNode {
                depth: u5::with(depth as u8) + 1,
                hash: *hash,
            });
            width_limit /= 2;
        }
'''
NODE = 'TreeNode::ConcealedNode {\n                depth: u5::with(depth as u8) + 1,\n                hash: *hash,\n            }'
KNOWN = '''        self.cross_section.iter().filter_map(|item| match item {
            TreeNode::ConcealedNode { .. } => None,
            TreeNode::CommitmentLeaf { protocol_id, .. } => Some(*protocol_id),
        })
'''
MESSAGES = '''        Confined::try_from_iter(
            self.cross_section
                .iter()
                .copied()
                .filter_map(|item| match item {
                    TreeNode::ConcealedNode { .. } => None,
                    TreeNode::CommitmentLeaf {
                        protocol_id,
                        message,
                    } => Some((protocol_id, message)),
                }),
        )
        .expect("same collection size")
'''
PROOFMAP = '''        for node in &self.cross_section {
            match node {
                TreeNode::ConcealedNode { depth, hash } => {
                    let inserted = map.insert(*depth, *hash).is_none();
                    debug_assert!(inserted, "MerkleBlock conceal procedure is broken");
                }
                TreeNode::CommitmentLeaf { .. } => {}
            }
        }
'''
MERGE = '''                    cross_section.extend(b.by_ref().take_while(|n| {
                        if stop {
                            last_b = Some(*n);
                            return false;
                        }
                        buoy.push(n.depth_or(self.depth));
                        if buoy.level() <= n1_depth {
                            stop = true
                        }
                        true
                    }));
'''
SUM = '''            self.cross_section
                .iter()
                .map(|n| self.depth.to_u8() - n.depth_or(self.depth).to_u8())
                .map(|height| 2u32.pow(height as u32))
                .sum::<u32>(),
'''
HALVES = '''            let slice = iter
                .by_ref()
                .take(div as usize)
                // Normally we should use `iter.by_ref().take(div)`, but currently
                // rust compilers is unable to parse recursion with generic types
                // TODO: Do this without allocation
                .collect::<Vec<_>>()
                .into_iter();
            let branch1 = Self::_merklize(slice, depth + 1, div, base_width);
            let branch2 = Self::_merklize(iter, depth + 1, branch_width - div, base_width);
'''
PAIR = '''            match (iter.next(), iter.next()) {
                (None, None) => MerkleHash::void(depth, base_width),
                // Here, a single node means Merkle tree width non-equal to the power of 2, thus we
                // need to process it with a special encoding.
                (Some(branch), None) => MerkleHash::single(depth, base_width, branch),
                (Some(branch1), Some(branch2)) => {
                    MerkleHash::branches(depth, base_width, branch1, branch2)
                }
                (None, Some(_)) => unreachable!(),
            }
'''
SEALS = '''        for seal in seals {
            seal.borrow()
                .is_included(message, self)
                .then_some(())
                .ok_or(SealError::NotIncluded(seal.borrow().clone(), self.published.pub_id()))?;
        }
'''
VALID = '''        for item in self.validation_iter() {
            for seal in item.single_use_seals() {
                let _ = resolver
                    .resolve_trust(seal)
                    .map_err(|issue| status.add_seal_issue(issue));
            }
            status += item.validate_internal_consistency();
        }
'''
CONCEAL = '''        for node in &mut self.cross_section {
            match node {
                TreeNode::ConcealedNode { .. } => {
                    // Do nothing
                }
                TreeNode::CommitmentLeaf { protocol_id: p, .. } if protocols.contains(p) => {
                    // Keep the leaf revealed
                }
                TreeNode::CommitmentLeaf { .. } => {
                    count += 1;
                    *node = TreeNode::ConcealedNode {
                        depth: self.depth,
                        hash: node.to_merkle_node(),
                    };
                }
            }
        }
'''
TRY = '''                        map.clear();
                        if source.messages.iter().all(|(protocol, message)| {
                            let pos = protocol_id_pos(*protocol, cofactor, depth);
                            map.insert(pos, (*protocol, *message)).is_none()
                        }) {
'''
EDITS = [
    ('w-depths-incl', '', depths('source.min_depth.to_u8()..=u5::MAX.to_u8()')),
    ('w-depths-32', '', depths('source.min_depth.to_u8()..32')),
    ('w-depths-31', 'C20', depths('source.min_depth.to_u8()..31')),
    ('w-depths-excl', 'C20', depths('source.min_depth.to_u8()..u5::MAX.to_u8()')),
    ('w-depths-from', 'C20', depths('source.min_depth.to_u8().max(1)..=u5::MAX.to_u8()')),
    ('w-depths-step', 'C20', depths('(source.min_depth.to_u8()..=u5::MAX.to_u8()).step_by(2)')),
    ('w-depths-skip', '', depths('(0..32u8).skip(source.min_depth.to_u8() as usize)')),
    ('w-depths-rev', 'C20', depths('(source.min_depth.to_u8()..=u5::MAX.to_u8()).rev()')),
    ('w-try-set', '', [(T, TRY, '''                        map.clear();
                        map.extend(source.messages.iter().map(|(protocol, message)| {
                            (protocol_id_pos(*protocol, cofactor, depth), (*protocol, *message))
                        }));
                        if map.len() == msg_count {
''')]),
    ('w-try-set-bug', 'C20', [(T, TRY, '''                        map.clear();
                        map.extend(source.messages.iter().map(|(protocol, message)| {
                            (protocol_id_pos(*protocol, cofactor, depth), (*protocol, *message))
                        }));
                        if map.len() + 1 >= msg_count {
''')]),
    ('w-try-collect', '', [(T, TRY, '''                        map = source.messages.iter().map(|(protocol, message)| {
                            (protocol_id_pos(*protocol, cofactor, depth), (*protocol, *message))
                        }).collect();
                        if map.len() == source.messages.len() {
''')]),
    ('w-try-contains', '', [(T, TRY, '''                        map.clear();
                        let mut collides = false;
                        for (protocol, message) in &source.messages {
                            let pos = protocol_id_pos(*protocol, cofactor, depth);
                            if map.contains_key(&pos) {
                                collides = true;
                                break;
                            }
                            map.insert(pos, (*protocol, *message));
                        }
                        if !collides {
''')]),
    ('w-try-noclear', 'C20', [(T, '                        map.clear();\n', '')]),
    ('w-with-scan', '', [(B, WITH, '''        for (depth, hash) in (1u8..).zip(path) {
            width_limit >>= 1;
            let node = TreeNode::ConcealedNode { depth: u5::with(depth), hash: *hash };
            match pos.checked_sub(width_limit) {
                Some(rest) => {
                    pos = rest;
                    dir.push(node);
                }
                None => rev.push(node),
            }
        }
''')]),
    ('w-with-foreach', '', [(B, WITH, '''        path.iter().enumerate().for_each(|(depth, hash)| {
            let node = %s;
            width_limit /= 2;
            if pos >= width_limit {
                pos -= width_limit;
                dir.push(node)
            } else {
                rev.push(node)
            }
        });
''' % NODE)]),
    ('w-with-bit', '', [(B, WITH, '''        let tree_depth = path.len();
        for (depth, hash) in path.iter().enumerate() {
            let list = if pos & (1 << (tree_depth - depth - 1)) != 0 { &mut dir } else { &mut rev };
            list.push(%s);
        }
''' % NODE), (B, 'let mut pos = proof.pos;', 'let pos = proof.pos;'), (B, 'let mut width_limit = proof.width_limit();', 'let width_limit = proof.width_limit();')]),
    ('w-with-bit-bug', 'C23', [(B, WITH, '''        let tree_depth = path.len();
        for (depth, hash) in path.iter().enumerate() {
            let list = if pos & (1 << depth) != 0 { &mut dir } else { &mut rev };
            list.push(%s);
        }
        let _ = tree_depth;
''' % NODE), (B, 'let mut pos = proof.pos;', 'let pos = proof.pos;'), (B, 'let mut width_limit = proof.width_limit();', 'let width_limit = proof.width_limit();')]),
    ('w-known-flat', '', [(B, KNOWN, '''        self.cross_section
            .iter()
            .copied()
            .flat_map(|item| match item {
                TreeNode::ConcealedNode { .. } => None,
                TreeNode::CommitmentLeaf { protocol_id, .. } => Some(protocol_id),
            })
''')]),
    ('w-messages-fold', '', [(B, MESSAGES, '''        let mut map = BTreeMap::new();
        for item in &self.cross_section {
            if let TreeNode::CommitmentLeaf { protocol_id, message } = *item {
                map.insert(protocol_id, message);
            }
        }
        Confined::try_from(map).expect("same collection size")
''')]),
    ('w-messages-dup', 'C27', [(B, MESSAGES, '''        let mut map = BTreeMap::new();
        for item in self.cross_section.iter().skip(1) {
            if let TreeNode::CommitmentLeaf { protocol_id, message } = *item {
                map.insert(protocol_id, message);
            }
        }
        Confined::try_from(map).expect("same collection size")
''')]),
    ('w-proof-array', '', [(B, PROOFMAP, '''        map.extend(self.cross_section.iter().filter_map(|node| match node {
            TreeNode::ConcealedNode { depth, hash } => Some((*depth, *hash)),
            TreeNode::CommitmentLeaf { .. } => None,
        }));
''')]),
    ('w-proof-foreach', '', [(B, PROOFMAP, '''        self.cross_section.iter().for_each(|node| {
            if let TreeNode::ConcealedNode { depth, hash } = node {
                map.insert(*depth, *hash);
            }
        });
''')]),
    ('w-merge-while', '', [(B, MERGE, '''                    for n in b.by_ref() {
                        if stop {
                            last_b = Some(n);
                            break;
                        }
                        buoy.push(n.depth_or(self.depth));
                        stop = buoy.level() <= n1_depth;
                        cross_section.push(n);
                    }
''')]),
    ('w-merge-inner', '', [(B, MERGE, '''                    loop {
                        let Some(n) = b.next() else { break };
                        if stop {
                            last_b = Some(n);
                            break;
                        }
                        buoy.push(n.depth_or(self.depth));
                        if buoy.level() <= n1_depth {
                            stop = true;
                        }
                        cross_section.push(n);
                    }
''')]),
    ('w-merge-sum', '', [(B, SUM, '''            self.cross_section.iter().fold(0u32, |width, n| {
                width + (1u32 << (self.depth.to_u8() - n.depth_or(self.depth).to_u8()))
            }),
''')]),
    ('w-merge-len', '', [(B, 'Vec::with_capacity(self.cross_section.len() + other.cross_section.len());', 'Vec::new();')]),
    ('w-conceal-itermut', '', [(B, CONCEAL, '''        for node in self.cross_section.iter_mut() {
            let TreeNode::CommitmentLeaf { protocol_id, .. } = node else { continue };
            if protocols.iter().any(|p| p == protocol_id) {
                continue;
            }
            *node = TreeNode::ConcealedNode { depth: self.depth, hash: node.to_merkle_node() };
            count += 1;
        }
''')]),
    ('w-conceal-index', '', [(B, CONCEAL, '''        for i in 0..self.cross_section.len() {
            if let TreeNode::CommitmentLeaf { protocol_id: p, .. } = self.cross_section[i] {
                if !protocols.contains(&p) {
                    count += 1;
                    let hash = self.cross_section[i].to_merkle_node();
                    self.cross_section[i] = TreeNode::ConcealedNode { depth: self.depth, hash };
                }
            }
        }
''')]),
    ('w-conceal-first', 'C24', [(B, CONCEAL, '''        for i in 1..self.cross_section.len() {
            if let TreeNode::CommitmentLeaf { protocol_id: p, .. } = self.cross_section[i] {
                if !protocols.contains(&p) {
                    count += 1;
                    let hash = self.cross_section[i].to_merkle_node();
                    self.cross_section[i] = TreeNode::ConcealedNode { depth: self.depth, hash };
                }
            }
        }
''')]),
    ('w-merklize-splitoff', '', [(M, HALVES, '''            let mut left = iter.collect::<Vec<_>>();
            let right = left.split_off(div as usize);
            let branch1 = Self::_merklize(left.into_iter(), depth + 1, div, base_width);
            let branch2 = Self::_merklize(right.into_iter(), depth + 1, branch_width - div, base_width);
'''), (M, 'mut iter: impl ExactSizeIterator<Item = MerkleHash>,', 'iter: impl ExactSizeIterator<Item = MerkleHash>,'), (M, 'if branch_width <= 2 {', 'if branch_width <= 2 {\n            let mut iter = iter;')]),
    ('w-merklize-drain', '', [(M, HALVES, '''            let mut nodes = iter.collect::<Vec<_>>();
            let left = nodes.drain(..div as usize).collect::<Vec<_>>();
            let branch1 = Self::_merklize(left.into_iter(), depth + 1, div, base_width);
            let branch2 = Self::_merklize(nodes.into_iter(), depth + 1, branch_width - div, base_width);
'''), (M, 'mut iter: impl ExactSizeIterator<Item = MerkleHash>,', 'iter: impl ExactSizeIterator<Item = MerkleHash>,'), (M, 'if branch_width <= 2 {', 'if branch_width <= 2 {\n            let mut iter = iter;')]),
    ('w-merklize-lets', '', [(M, PAIR, '''            let Some(branch1) = iter.next() else {
                return MerkleHash::void(depth, base_width);
            };
            iter.next().map_or_else(
                || MerkleHash::single(depth, base_width, branch1),
                |branch2| MerkleHash::branches(depth, base_width, branch1, branch2),
            )
''')]),
    ('w-merklize-vec', '', [(M, PAIR, '''            let nodes = iter.collect::<Vec<_>>();
            match nodes.as_slice() {
                [] => MerkleHash::void(depth, base_width),
                [branch] => MerkleHash::single(depth, base_width, *branch),
                [branch1, branch2, ..] => MerkleHash::branches(depth, base_width, *branch1, *branch2),
            }
''')]),
    ('w-level-loop', '', [(M, '''        self.stack
            .as_ref()
            .map(Box::as_ref)
            .map(MerkleBuoy::level)
            .unwrap_or(self.buoy)
''', '''        match self.stack {
            Some(ref inner) => inner.level(),
            None => self.buoy,
        }
''')]),
    ('w-seals-findmap', '', [(S, SEALS, '''        let missing = seals.into_iter().find_map(|seal| {
            (!seal.borrow().is_included(message, self)).then(|| seal.borrow().clone())
        });
        if let Some(seal) = missing {
            return Err(SealError::NotIncluded(seal, self.published.pub_id()));
        }
''')]),
    ('w-seals-foreach', '', [(S, SEALS, '''        let mut iter = seals.into_iter();
        loop {
            match iter.next() {
                None => break,
                Some(seal) if seal.borrow().is_included(message, self) => continue,
                Some(seal) => {
                    return Err(SealError::NotIncluded(seal.borrow().clone(), self.published.pub_id()))
                }
            }
        }
''')]),
    ('w-seals-fold', '', [(S, SEALS, '''        seals.into_iter().try_fold((), |_, seal| {
            let seal = seal.borrow();
            match seal.is_included(message, self) {
                true => Ok(()),
                false => Err(SealError::NotIncluded(seal.clone(), self.published.pub_id())),
            }
        })?;
''')]),
    ('w-valid-foreach', '', [(A, VALID, '''        self.validation_iter().for_each(|item| {
            item.single_use_seals().into_iter().for_each(|seal| {
                if let Err(issue) = resolver.resolve_trust(seal) {
                    status.seal_issues.push(issue);
                }
            });
            status += item.validate_internal_consistency();
        });
''')]),
    ('w-valid-err', '', [(A, VALID, '''        for item in self.validation_iter() {
            let issues = item
                .single_use_seals()
                .into_iter()
                .filter_map(|seal| resolver.resolve_trust(seal).err())
                .collect::<Vec<_>>();
            status.seal_issues.extend(issues);
            status += item.validate_internal_consistency();
        }
''')]),
    ('w-status-destructure', '', [(A, '''        self.seal_issues.extend(rhs.seal_issues);
        self.failures.extend(rhs.failures);
        self.warnings.extend(rhs.warnings);
        self.info.extend(rhs.info);
''', '''        let Status {
            seal_issues,
            failures,
            warnings,
            info,
        } = rhs;
        self.info.extend(info);
        self.warnings.extend(warnings);
        for failure in failures {
            self.failures.push(failure);
        }
        self.seal_issues.reserve(seal_issues.len());
        self.seal_issues.extend(seal_issues);
''')]),
    ('w-validity-tuple', '', [(A, '''        if !self.failures.is_empty() {
            Validity::Invalid
        } else if !self.seal_issues.is_empty() {
            Validity::SealIssues
        } else {
            Validity::Valid
        }
''', '''        match (self.failures.len(), self.seal_issues.len()) {
            (0, 0) => Validity::Valid,
            (0, _) => Validity::SealIssues,
            _ => Validity::Invalid,
        }
''')]),
    ('w-validity-first', '', [(A, '''        if !self.failures.is_empty() {
            Validity::Invalid
        } else if !self.seal_issues.is_empty() {
            Validity::SealIssues
        } else {
            Validity::Valid
        }
''', '''        match (self.failures.first(), self.seal_issues.first()) {
            (Some(_), _) => Validity::Invalid,
            (None, Some(_)) => Validity::SealIssues,
            (None, None) => Validity::Valid,
        }
''')]),
]
