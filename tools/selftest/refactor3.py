"""Rewrites which keep the behaviour, with other means of the language."""
import os
exec(open('/verif/tools/selftest/refactor2.py').read().split('EDITS = [')[0])
L = 'commit_verify/src/lib.rs'
TEXT[L] = open('/repo/' + L).read()
DP = 'commit_verify/derive/src/params.rs'
DD = 'commit_verify/derive/src/derive.rs'
for f in (DP, DD):
    TEXT[f] = open('/repo/' + f).read()
PROOFDOC = '''    /// Converts the merkle block into a merkle proof for the inclusion of a
    /// commitment under given `protocol_id`.
    pub fn into_merkle_proof('''
WITHLOOP = part(B, '        let mut dir = Vec::with_capacity(path.len());', '        let mut cross_section = Vec::with_capacity(path.len() + 1);', '')[1]
ALL = part(T, '                        if source.messages.iter().all(', '                            return Ok(MerkleTree {', '')[1]
EDITS = [
    # --- seals
    ('y-seal-loop', '', [part(S, '            seal.borrow()\n                .is_included(message, self)', '        }\n', '''            let seal: &Seal = seal.borrow();
            if seal.is_included(message, self) {
                continue;
            }
            return Err(SealError::NotIncluded(seal.clone(), self.published.pub_id()));
''')]),
    ('y-seal-try', '', [part(S, '        for seal in seals {', '        let f_msg', '''        seals.into_iter().try_for_each(|seal| {
            if seal.borrow().is_included(message, self) {
                Ok(())
            } else {
                Err(SealError::NotIncluded(seal.borrow().clone(), self.published.pub_id()))
            }
        })?;
''')]),
    ('y-seal-find', '', [part(S, '        for seal in seals {', '        let f_msg', '''        let missing = seals
            .into_iter()
            .find(|seal| !seal.borrow().is_included(message, self));
        if let Some(seal) = missing {
            return Err(SealError::NotIncluded(seal.borrow().clone(), self.published.pub_id()));
        }
''')]),
    ('y-seal-helper', '', [part(S, '        let f_msg = self\n', '    }\n', '''        self.verify_witness(message)
'''), (S, '    pub fn verify_seals_closing(', '''    fn verify_witness(&self, message: Seal::Message) -> Result<(), SealError<Seal>> {
        let proof = match self.client.convolve_commit(message) {
            Ok(proof) => proof,
            Err(err) => return Err(SealError::Client(err)),
        };
        if let Err(err) = self.published.verify_commitment(proof) {
            return Err(SealError::Published(err));
        }
        Ok(())
    }

    pub fn verify_seals_closing(''')] if TEXT[S].count('    pub fn verify_seals_closing(') == 1 else []),
    ('y-seal-chain', '', [part(S, '        let f_msg = self\n', '    }\n', '''        self.client
            .convolve_commit(message)
            .map_err(SealError::Client)
            .and_then(|proof| {
                self.published
                    .verify_commitment(proof)
                    .map_err(SealError::Published)
            })
''')]),
    ('y-seal-once', '', [(S, '        self.verify_seals_closing([seal], message)', '        self.verify_seals_closing(core::iter::once(seal), message)')]),
    ('y-seal-source', '', [part(S, '        match self {\n            SealError::NotIncluded(..) => None,', '    }\n', '''        if let SealError::Published(e) = self {
            return Some(e);
        }
        if let SealError::Client(e) = self {
            return Some(e as &(dyn Error + 'static));
        }
        None
''')]),
    ('y-seal-text', '', [(S, 'write!(f, "seal {seal} is not included in the witness {pub_id}")', 'write!(f, "seal {} is not included in the witness {}", seal, pub_id)')]),
    ('y-seal-wtext', '', [(S, '''            SealError::Published(err) => Display::fmt(err, f),
            SealError::Client(err) => Display::fmt(err, f),
''', '''            SealError::Published(err) => write!(f, "{err}"),
            SealError::Client(err) => write!(f, "{err}"),
''')]),
    # --- blocks
    ('y-with-fold', '', [(B, WITHLOOP, '''        let (dir, rev) = path.iter().enumerate().fold(
            (vec![], vec![]),
            |(mut dir, mut rev), (depth, hash)| {
                width_limit /= 2;
                let node = TreeNode::ConcealedNode {
                    depth: u5::with(depth as u8 + 1),
                    hash: *hash,
                };
                if pos >= width_limit {
                    pos -= width_limit;
                    dir.push(node);
                } else {
                    rev.push(node);
                }
                (dir, rev)
            },
        );

''')]),
    ('y-with-bits', '', [(B, WITHLOOP, '''        let mut dir = Vec::with_capacity(path.len());
        let mut rev = Vec::with_capacity(path.len());
        for (depth, hash) in path.iter().enumerate() {
            let half = width_limit / 2;
            let right = pos >= half;
            let node = TreeNode::ConcealedNode {
                depth: u5::with(depth as u8) + 1,
                hash: *hash,
            };
            if right { &mut dir } else { &mut rev }.push(node);
            pos -= if right { half } else { 0 };
            width_limit = half;
        }

''')]),
    ('y-with-while', '', [(B, WITHLOOP, '''        let mut dir = Vec::with_capacity(path.len());
        let mut rev = Vec::with_capacity(path.len());
        let mut i = 0usize;
        while i < path.len() {
            let list = if pos >= width_limit / 2 {
                pos -= width_limit / 2;
                &mut dir
            } else {
                &mut rev
            };
            list.push(TreeNode::ConcealedNode {
                depth: u5::with(i as u8) + 1,
                hash: path[i],
            });
            width_limit /= 2;
            i += 1;
        }

''')]),
    ('y-with-chain', '', [part(B, '        let mut cross_section = Vec::with_capacity(path.len() + 1);', '        let cross_section =', '''        let leaf = TreeNode::CommitmentLeaf {
            protocol_id,
            message,
        };
        let cross_section = dir
            .into_iter()
            .chain(std::iter::once(leaf))
            .chain(rev.into_iter().rev())
            .collect::<Vec<_>>();
''', 'let mut dir')]),
    ('y-entropy-take', '', [(B, '        self.entropy = None;\n\n        // Conceal', '        self.entropy.take();\n\n        // Conceal')]),
    ('y-conceal-replace', '', [(B, '''                    *node = TreeNode::ConcealedNode {
                        depth: self.depth,
                        hash: node.to_merkle_node(),
                    };
''', '''                    let hash = node.to_merkle_node();
                    let _ = std::mem::replace(node, TreeNode::ConcealedNode {
                        depth: self.depth,
                        hash,
                    });
''')]),
    ('y-conceal-any', '', [(B, 'TreeNode::CommitmentLeaf { protocol_id: p, .. } if protocols.contains(p) => {', 'TreeNode::CommitmentLeaf { protocol_id: p, .. }\n                    if protocols.iter().any(|id| id == p) =>\n                {')]),
    ('y-conceal-set', '', [part(B, '        let mut count = 0usize;\n        let mut not_found', '        self.entropy = None;\n\n        // Conceal', '''        let mut count = 0usize;
        let known = self.known_protocol_ids().collect::<Vec<_>>();
        if let Some(protocol_id) = protocols.iter().find(|id| !known.contains(id)) {
            return Err(LeafNotKnown(*protocol_id));
        }

''')]),
    ('y-conceal-retain', '', [part(B, '        for protocol_id in self.known_protocol_ids() {\n            not_found', '        if let Some(protocol_id) = not_found', '''        let known = self.known_protocol_ids().collect::<BTreeSet<_>>();
        not_found.retain(|id| !known.contains(id));
''')]),
    ('y-conceal-popfirst', '', [(B, '        if let Some(protocol_id) = not_found.into_iter().next() {', '        if let Some(protocol_id) = not_found.pop_first() {')]),
    ('y-conceal-swapremove', '', [part(B, '''                            self.cross_section[pos] =
                                TreeNode::with(''', '                            count += 1;', '''                            let parent = TreeNode::with(hash1, hash2, depth, self.width_limit());
                            self.cross_section
                                .remove(pos)
                                .expect("we allow 0 elements");
                            self.cross_section[pos] = parent;
''')]),
    ('y-conceal-checked', '', [(B, '                        let depth = depth1 - 1;\n                        let height = self.depth.to_u8() as u32 - depth.to_u8() as u32;\n                        let pow = 2u32.pow(height);', '                        let depth = depth1 - 1;\n                        let height = self.depth.to_u8() - depth.to_u8();\n                        let pow = 1u32 << height;')]),
    ('y-conceal-getmut', '', [(B, '                let (n1, n2) = (self.cross_section[pos], self.cross_section.get(pos + 1).copied());', '                let n1 = self.cross_section[pos];\n                let n2 = match self.cross_section.get(pos + 1) {\n                    Some(node) => Some(*node),\n                    None => None,\n                };')]),
    ('y-conceal-bool', '', [(B, '            let prev_count = count;\n', '            let mut merged = false;\n'), (B, '                            count += 1;\n                            offset += pow;', '                            count += 1;\n                            merged = true;\n                            offset += pow;'),
                            (B, '            if count == prev_count {\n                break;', '            if !merged {\n                break;')]),
    ('y-merge-letelse', '', [(B, '        while let (Some(n1), Some(n2)) = (last_a, last_b) {\n', '        loop {\n            let (Some(n1), Some(n2)) = (last_a, last_b) else {\n                break;\n            };\n')]),
    ('y-merge-zip', '', [(B, '        while let (Some(n1), Some(n2)) = (last_a, last_b) {\n', '        while let Some((n1, n2)) = last_a.zip(last_b) {\n')]),
    ('y-merge-into', '', [(B, '        let mut b = other.cross_section.iter().copied();', '        let mut b = other.cross_section.clone().into_iter();')]),
    ('y-merge-pushleaf', '', [part(B, '''                    match (n1.is_leaf(), n2.is_leaf()) {
                        (true, false)''', '                    last_a = a.next();\n                    last_b = b.next();\n                }\n                Ordering::Less', '''                    if n1.is_leaf() == n2.is_leaf() {
                        assert!(
                            !n1.is_leaf(),
                            "two MerkleBlock's with equal commitment failed to merge"
                        );
                    } else {
                        cross_section.push(if n1.is_leaf() { n1 } else { n2 });
                    }
''')]),
    ('y-merge-sumfold', '', [(B, '''                .map(|n| self.depth.to_u8() - n.depth_or(self.depth).to_u8())
                .map(|height| 2u32.pow(height as u32))
                .sum::<u32>(),
''', '''                .map(|n| self.depth.to_u8() - n.depth_or(self.depth).to_u8())
                .fold(0u32, |sum, height| sum + 2u32.pow(height as u32)),
''')]),
    ('y-merge-eqassert', '', [part(B, '        assert_eq!(\n            base_root,\n            self.commit_id(),', '        Ok(self.cross_section.len() as u16)', '''        let changed = self.commit_id();
        assert!(
            changed == base_root,
            "LNPBP-4 merge-reveal procedure is broken: the commitment {base_root} became {changed}"
        );

''')]),
    ('y-proof-entry', '', [part(B, '                TreeNode::ConcealedNode { depth, hash } => {\n                    let inserted', '                TreeNode::CommitmentLeaf { .. } => {}\n            }\n        }\n        debug_assert_eq!', '''                TreeNode::ConcealedNode { depth, hash } => {
                    debug_assert!(
                        !map.contains_key(depth),
                        "MerkleBlock conceal procedure is broken"
                    );
                    map.insert(*depth, *hash);
                }
''')]),
    ('y-proof-sort', '', [part(B, '        let mut map = BTreeMap::<u5, MerkleHash>::new();', '    }\n', '''        let mut list = self
            .cross_section
            .iter()
            .filter_map(|node| match node {
                TreeNode::ConcealedNode { depth, hash } => Some((*depth, *hash)),
                TreeNode::CommitmentLeaf { .. } => None,
            })
            .collect::<Vec<_>>();
        list.sort_by_key(|(depth, _)| *depth);
        debug_assert_eq!(self.depth.to_u8() as usize, list.len());
        Ok(MerkleProof {
            method: self.method,
            pos: self.protocol_id_pos(protocol_id),
            cofactor: self.cofactor,
            path: Confined::try_from_iter(list.into_iter().map(|(_, hash)| hash))
                .expect("tree width guarantees are broken"),
        })
''')]),
    ('y-known-sorted', '', [part(B, '        self.known_protocol_ids()\n            .collect::<Vec<_>>()', '    }\n', '''        let ids: Vec<ProtocolId> = self.known_protocol_ids().collect();
        ids.into_iter().map(move |id| match self.to_merkle_proof(id) {
            Ok(proof) => (id, proof),
            Err(err) => panic!("protocol ids must strictly match: {err}"),
        })
''')]),
    ('y-width-const', '', [(B, '''    /// Constructs''', '''    /// Constructs''')] if False else [part(B, '    pub fn depth(&self) -> u5 { u5::with(self.path.len() as u8) }', '\n', '''    pub fn depth(&self) -> u5 {
        let len = self.as_path().len();
        u5::with(len as u8)
    }''')]),
    ('y-pos-inline', '', [(B, 'use crate::mpc::tree::protocol_id_pos;\n', ''), (B, '''        let expected = protocol_id_pos(protocol_id, proof.cofactor, proof.depth());
''', '''        let depth = proof.depth();
        let expected = super::tree::protocol_id_pos(protocol_id, proof.cofactor, depth);
'''), (B, '        protocol_id_pos(protocol_id, self.cofactor, self.depth)\n', '        crate::mpc::tree::protocol_id_pos(protocol_id, self.cofactor, self.depth)\n')]),
    # --- trees
    ('y-try-for', '', [(T, ALL, '''                        let mut fits = true;
                        for (protocol, message) in &source.messages {
                            let pos = protocol_id_pos(*protocol, cofactor, depth);
                            if map.insert(pos, (*protocol, *message)).is_some() {
                                fits = false;
                                break;
                            }
                        }
                        if fits {
''')]),
    ('y-try-any', '', [(T, ALL, '''                        let collision = source.messages.iter().any(|(protocol, message)| {
                            let pos = protocol_id_pos(*protocol, cofactor, depth);
                            map.insert(pos, (*protocol, *message)).is_some()
                        });
                        if !collision {
''')]),
    ('y-try-contains', '', [(T, ALL, '''                        if source.messages.iter().all(|(protocol, message)| {
                            let pos = protocol_id_pos(*protocol, cofactor, depth);
                            if map.contains_key(&pos) {
                                return false;
                            }
                            map.insert(pos, (*protocol, *message));
                            true
                        }) {
''')]),
    ('y-try-tryfold', '', [(T, ALL, '''                        let res = source.messages.iter().try_for_each(|(protocol, message)| {
                            let pos = protocol_id_pos(*protocol, cofactor, depth);
                            match map.insert(pos, (*protocol, *message)) {
                                None => Ok(()),
                                Some(_) => Err(()),
                            }
                        });
                        if res.is_ok() {
''')]),
    ('y-try-newmap', '', [(T, '            let mut map = BTreeMap::<u32, (ProtocolId, Message)>::new();\n', ''), (T, '                        map.clear();\n', '                        let mut map = BTreeMap::<u32, (ProtocolId, Message)>::new();\n')] if TEXT[T].count('            let mut map = BTreeMap::<u32, (ProtocolId, Message)>::new();\n') == 1 else []),
    ('y-try-limit', '', [(T, '                    for cofactor in 0..=(prev_width.min(COFACTOR_ATTEMPTS as u32) as u16) {', '                    let attempts = std::cmp::min(prev_width, u32::from(COFACTOR_ATTEMPTS)) as u16;\n                    for cofactor in 0..=attempts {')]),
    ('y-try-checkedpow', '', [(T, '''                depth = depth
                    .checked_add(1)
                    .ok_or(Error::CantFitInMaxSlots(msg_count))?;
''', '''                depth = match depth.checked_add(1) {
                    Some(next) => next,
                    None => return Err(Error::CantFitInMaxSlots(msg_count)),
                };
''')]),
    ('y-try-attempt', '', [part(T, '                    for cofactor in 0..=(prev_width', '                }\n\n                prev_width', '''                    for cofactor in 0..=(prev_width.min(COFACTOR_ATTEMPTS as u32) as u16) {
                        let Some(map) = place(&source.messages, cofactor, depth) else {
                            continue;
                        };
                        return Ok(MerkleTree {
                            method: source.method,
                            depth,
                            entropy,
                            cofactor,
                            messages: source.messages.clone(),
                            map: Confined::try_from(map).expect("MultiSource type guarantees"),
                        });
                    }
'''), part(T, '            let mut map = BTreeMap::<u32, (ProtocolId, Message)>::new();\n', '            let mut depth = source.min_depth;', ''), (T, '    impl TryCommitVerify<MultiSource', '''    /// Puts every message at its position, unless two of them collide.
    fn place(
        messages: &MessageMap,
        cofactor: u16,
        depth: u5,
    ) -> Option<BTreeMap<u32, (ProtocolId, Message)>> {
        let mut map = BTreeMap::new();
        for (protocol, message) in messages {
            let pos = protocol_id_pos(*protocol, cofactor, depth);
            if map.insert(pos, (*protocol, *message)).is_some() {
                return None;
            }
        }
        Some(map)
    }

    impl TryCommitVerify<MultiSource''')]),
    ('y-tree-widthfn', '', [part(T, '    let width = 2u32.pow(depth.to_u8() as u32);\n    debug_assert_ne!(width, 0);', '}\n', '''    let width = 2u32.pow(depth.to_u8() as u32);
    let divisor = match width.checked_sub(cofactor as u32) {
        Some(0) | None => 1,
        Some(divisor) => divisor,
    };
    let dividend = u256::from_le_bytes((*protocol_id).into_inner());
    let rem = dividend % u256::from(divisor);
    rem.low_u64() as u32
''')]),
    ('y-tree-entropy', '', [(T, 'static_entropy: source.static_entropy.or(Some(self.entropy)),', 'static_entropy: Some(source.static_entropy.unwrap_or(self.entropy)),')]),
    ('y-tree-rootmap', '', [(T, '''                .map(|(protocol, msg)| Leaf::inhabited(*protocol, *msg))
                .unwrap_or_else(|| Leaf::entropy(self.entropy, pos))
''', '''                .map_or_else(
                    || Leaf::entropy(self.entropy, pos),
                    |(protocol, msg)| Leaf::inhabited(*protocol, *msg),
                )
''')]),
    # --- merkle
    ('y-merklize-vec', '', [part(M, '            let div = branch_width / 2 + branch_width % 2;', '            MerkleHash::branches(depth, base_width, branch1, branch2)\n        }\n', '''            let div = (branch_width + 1) / 2;

            let left = iter.by_ref().take(div as usize).collect::<Vec<_>>();
            let right = iter.collect::<Vec<_>>();
            let branch1 = Self::_merklize(left.into_iter(), depth + 1, div, base_width);
            let branch2 = Self::_merklize(right.into_iter(), depth + 1, branch_width - div, base_width);

''')]),
    ('y-merklize-inner', '', [(M, '''                (None, Some(_)) => unreachable!(),
''', '''                (None, Some(_)) => panic!("an iterator goes on after its end"),
''')]),
    ('y-leaves-into', '', [(M, '''impl<T, const MIN: usize> MerkleLeaves for Confined<Vec<T>, MIN, { u8::MAX as usize }>
where T: CommitId<CommitmentId = MerkleHash>
{
    type Leaf = T;

    fn merkle_leaves(&self) -> impl ExactSizeIterator<Item = &T> { self.iter() }''', '''impl<T, const MIN: usize> MerkleLeaves for Confined<Vec<T>, MIN, { u8::MAX as usize }>
where T: CommitId<CommitmentId = MerkleHash>
{
    type Leaf = T;

    fn merkle_leaves(&self) -> impl ExactSizeIterator<Item = &T> { self.into_iter() }''')] if '''    type Leaf = T;

    fn merkle_leaves(&self)''' in TEXT[M] else [(M, '''impl<T, const MIN: usize> MerkleLeaves for Confined<Vec<T>, MIN, { u8::MAX as usize }>
where T: CommitId<CommitmentId = MerkleHash>
{
    type Leaf = T;
    fn merkle_leaves(&self) -> impl ExactSizeIterator<Item = &T> { self.iter() }''', '''impl<T, const MIN: usize> MerkleLeaves for Confined<Vec<T>, MIN, { u8::MAX as usize }>
where T: CommitId<CommitmentId = MerkleHash>
{
    type Leaf = T;
    fn merkle_leaves(&self) -> impl ExactSizeIterator<Item = &T> { self.into_iter() }''')]),
    ('y-buoy-map', '', [(M, '''            Some((true, level)) => {
                self.stack = None;
                self.push(level)
            }
            Some((false, _)) => false,
''', '''            Some((surfaced, level)) => {
                if surfaced {
                    self.stack.take();
                    return self.push(level);
                }
                false
            }
''')]),
    ('y-virtual', '', [(M, 'const VIRTUAL_LEAF: MerkleHash = MerkleHash(Bytes32::from_array([0xFF; 32]));', 'const VIRTUAL_BYTE: u8 = 0xFF;\nconst VIRTUAL_LEAF: MerkleHash = MerkleHash(Bytes32::from_array([VIRTUAL_BYTE; 32]));')]),
    # --- ids
    ('y-engine-match', '', [part(I, '        value\n            .strict_write(writer)', '    }\n', '''        if let Err(err) = value.strict_write(writer) {
            panic!("unable to encode the value for the commitment: {err}");
        }
''')]),
    ('y-engine-order', '', [(I, '''        let fqn = commitment_fqn::<T::Leaf>();
        self.layout
            .push(CommitStep::Merklized(fqn))
            .expect("too many fields for commitment");

        let root = MerkleHash::merklize(value);
        self.inner_commit_to::<_, 32>(&root);
''', '''        let root = MerkleHash::merklize(value);
        let step = CommitStep::Merklized(commitment_fqn::<T::Leaf>());
        self.inner_commit_to::<_, 32>(&root);
        self.layout
            .push(step)
            .expect("too many fields for commitment");
''')]),
    ('y-engine-macro', '', [(I, '''        let fqn = commitment_fqn::<T>();
        self.layout
            .push(CommitStep::Hashed(fqn))
            .expect("too many fields for commitment");

        self.inner_commit_to::<_, 32>(&value.commit_id());
''', '''        let id = value.commit_id();
        self.inner_commit_to::<_, 32>(&id);
        let Ok(()) = self.layout.push(CommitStep::Hashed(commitment_fqn::<T>())) else {
            panic!("too many fields for commitment");
        };
''')]),
    ('y-engine-start', '', [part(I, '        Self {\n            finished: false,', '    }\n', '''        let hasher = <Sha256 as DigestExt>::from_tag(tag.as_bytes());
        let layout = TinyVec::new();
        CommitEngine {
            layout,
            hasher,
            finished: false,
        }
''')]),
    ('y-commitid-try', '', [(I, 'fn commit_id(&self) -> Self::CommitmentId { self.commit().finish().into() }', '''fn commit_id(&self) -> Self::CommitmentId {
        let engine = self.commit();
        <T::CommitmentId as From<Sha256>>::from(engine.finish())
    }''')]),
    ('y-sizing', '', [(I, '''        let step =
            CommitStep::Collection(CommitColType::List, Sizing::new(MIN as u64, MAX as u64), fqn);
''', '''        let (min, max) = (MIN as u64, MAX as u64);
        let sizing = Sizing { min, max };
        let step = CommitStep::Collection(CommitColType::List, sizing, fqn);
''')]),
    # --- digests
    ('y-len-generic', '', [part(D, '        let len = data.len();\n        match MAX {', '    fn finish(self) -> [u8; BYTE_LEN];', '''        let len = data.len();
        if MAX <= 0xFF {
            self.input_raw(&u8::try_from(len).expect("data too large").to_le_bytes());
        } else if MAX <= 0xFFFF {
            self.input_raw(&u16::try_from(len).expect("data too large").to_le_bytes());
        } else if MAX <= 0xFFFFFF {
            let len = u32::try_from(len).expect("data too large");
            self.input_raw(&u24::with(len).to_le_bytes());
        } else if MAX <= 0xFFFFFFFF {
            self.input_raw(&u32::try_from(len).expect("data too large").to_le_bytes());
        } else {
            panic!("data too large");
        }
        self.input_raw(data);
    }
''')] if 'fn input_with_len<const MAX' in TEXT[D] and 'fn finish(self) -> [u8; BYTE_LEN];' in TEXT[D] else []),
    # --- api
    ('y-csv-flat', '', [part(A, '            for seal in item.single_use_seals() {', '            status += item.', '''            let mut seals = item.single_use_seals();
            while let Some(seal) = seals.next() {
                match resolver.resolve_trust(seal) {
                    Ok(()) => continue,
                    Err(issue) => {
                        status.add_seal_issue(issue);
                    }
                }
            }
''')]),
    ('y-csv-report', '', [part(A, '            for seal in item.single_use_seals() {', '        }\n\n        status\n', '''            let mut report = Status::new();
            for seal in item.single_use_seals() {
                if let Err(issue) = resolver.resolve_trust(seal) {
                    report.add_seal_issue(issue);
                }
            }
            report += item.validate_internal_consistency();
            status += report;
''')]),
    ('y-csv-start', '', [(A, '''        let mut status = Status::new();

        status += self.validate_internal_consistency();
''', '''        let mut status = self.validate_internal_consistency();
''')]),
    # --- reserved bytes
    ('y-reserved-if', '', [part(L, '            if reserved != ReservedBytes::<LEN, VAL>::default() {', '        }\n    }\n\n    #[cfg(feature = "serde")]', '''            if reserved.0 == [VAL; LEN] {
                return Ok(reserved);
            }
            Err(DecodeError::DataIntegrityError(format!(
                "unsupported reserved byte value indicating a future RGB version. Please update \\
                 your software, or, if the problem persists, contact your vendor providing the \\
                 following version information: {reserved}"
            )))
''')]),
    ('y-reserved-all', '', [(L, '        assert_eq!(value, [VAL; LEN]);\n', '        assert!(value.iter().all(|byte| *byte == VAL));\n')]),
    # --- derive
    ('y-derive-if', '', [part(DP, '        match path.to_token_stream().to_string().as_str() {', '            unknown =>', '''        let name = path.to_token_stream().to_string();
        match &name[..] {
            "strict" => Ok(Self::Strict),
            "conceal" => Ok(Self::ConcealStrict),
            "transparent" => Ok(Self::Transparent),
            "merklize" => Ok(Self::Merklize),
''')]),
    ('y-derive-quote', '', [(DD, '''                use #trait_crate::Conceal;
                engine.commit_to_concealed(&self.conceal());
''', '''                let concealed = #trait_crate::Conceal::conceal(self);
                engine.commit_to_concealed(&concealed);
''')]),
    ('y-derive-ufcs', '', [(DD, '''                use amplify::Wrapper;
                engine.commit_to_serialized(self.as_inner());
''', '''                let inner = amplify::Wrapper::as_inner(self);
                engine.commit_to_serialized(inner);
''')]),
]
