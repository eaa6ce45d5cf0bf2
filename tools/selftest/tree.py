T = 'commit_verify/src/mpc/tree.rs'
A = 'commit_verify/src/mpc/atoms.rs'
s = open('/repo/' + T).read()
def between(a, b, incl=True):
    i = s.index(a)
    j = s.index(b, i)
    return s[i:j + len(b)] if incl else s[i:j]
LOOP = between('            let mut depth = source.min_depth;', '                    .ok_or(Error::CantFitInMaxSlots(msg_count))?;\n            }\n')
INNER = between('                    for cofactor in 0..=(', '                    }\n')
CHECKS = between('            if source.min_depth == u5::ZERO', '                return Err(Error::TooManyMessages(msg_count));\n            }\n')
ROOT = between('        let iter = (0..self.width_limit())', '        MerkleHash::merklize(&leaves)\n')
POS = between('    let rem = u256::from_le_bytes', '    rem.low_u64() as u32\n')
ALL = between('                        if source.messages.iter().all(', '                        }) {')
EDITS = [
 ('q19-cofhelper', '', [(T, POS, '''    let modulus = u256::from(factored_width(width, cofactor) as u64);
    let id = u256::from_le_bytes(protocol_id.into_inner().into_inner());
    (id % modulus).low_u64() as u32
'''), (T, 'pub(super) fn protocol_id_pos', '''fn factored_width(width: u32, cofactor: u16) -> u32 {
    width.saturating_sub(cofactor as u32).max(1)
}

pub(super) fn protocol_id_pos''')]),
 ('q19-shl', '', [(T, 'pub fn width_limit(&self) -> u32 { 2u32.pow(self.depth.to_u8() as u32) }', 'pub fn width_limit(&self) -> u32 { 1u32 << self.depth.to_u8() }')]),
 ('q19-fw', '', [(T, '''        self.width_limit()
            .saturating_sub(self.cofactor as u32)
            .max(1)
''', '''        let width = self.width_limit();
        let cofactor = self.cofactor as u32;
        if cofactor < width {
            width - cofactor
        } else {
            1
        }
''')]),
 ('q19-fw2', '', [(T, '''        self.width_limit()
            .saturating_sub(self.cofactor as u32)
            .max(1)
''', '''        match self.width_limit().checked_sub(self.cofactor as u32) {
            Some(0) | None => 1,
            Some(width) => width,
        }
''')]),
 ('c19-be', 'C19', [(T, 'u256::from_le_bytes((*protocol_id)', 'u256::from_be_bytes((*protocol_id)')]),
 ('c19-cast', 'C19', [(T, 'rem.low_u64() as u32', 'rem.low_u64() as u16 as u32')]),
 ('c19-sat', 'C19', [(T, 'width.saturating_sub(cofactor as u32).max(1) as u64', 'width.saturating_sub(cofactor as u32).max(2) as u64')]),
 ('c19-treepos', 'C19', [(T, 'protocol_id_pos(protocol_id, self.cofactor, self.depth)\n', 'protocol_id_pos(protocol_id, 0, self.depth)\n')]),
 ('c19-trunc', 'C19', [(T, 'width.saturating_sub(cofactor as u32)', 'width.saturating_sub(cofactor as u8 as u32)')]),
 # try_commit
 ('q20-match', '', [(T, CHECKS, '''            match msg_count {
                0 if source.min_depth == u5::ZERO => return Err(Error::Empty),
                n if n > 2usize.pow(u5::MAX.to_u8() as u32) => return Err(Error::TooManyMessages(n)),
                _ => {}
            }
''')]),
 ('q20-newmap', '', [(T, '            let mut map = BTreeMap::<u32, (ProtocolId, Message)>::new();\n', ''),
    (T, '                        map.clear();\n', '                        let mut map = BTreeMap::<u32, (ProtocolId, Message)>::new();\n')]),
 ('q20-for', '', [(T, ALL, '''                        let mut fits = true;
                        for (protocol, message) in &source.messages {
                            let pos = protocol_id_pos(*protocol, cofactor, depth);
                            if map.insert(pos, (*protocol, *message)).is_some() {
                                fits = false;
                                break;
                            }
                        }
                        if fits {''')]),
 ('q20-any', '', [(T, ALL, '''                        let collision = source.messages.iter().any(|(protocol, message)| {
                            let pos = protocol_id_pos(*protocol, cofactor, depth);
                            map.insert(pos, (*protocol, *message)).is_some()
                        });
                        if !collision {''')]),
 ('q20-contains', '', [(T, ALL, '''                        if source.messages.iter().all(|(protocol, message)| {
                            let pos = protocol_id_pos(*protocol, cofactor, depth);
                            if map.contains_key(&pos) {
                                return false;
                            }
                            map.insert(pos, (*protocol, *message));
                            true
                        }) {''')]),
 ('q20-helper', '', [(T, ALL, '''                        if place(&mut map, source, cofactor, depth) {'''),
    (T, '    impl TryCommitVerify<MultiSource, UntaggedProtocol> for MerkleTree {', '''    fn place(
        map: &mut BTreeMap<u32, (ProtocolId, Message)>,
        source: &MultiSource,
        cofactor: u16,
        depth: u5,
    ) -> bool {
        source.messages.iter().all(|(protocol, message)| {
            let pos = protocol_id_pos(*protocol, cofactor, depth);
            map.insert(pos, (*protocol, *message)).is_none()
        })
    }

    impl TryCommitVerify<MultiSource, UntaggedProtocol> for MerkleTree {''')]),
 ('q20-helper2', '', [(T, INNER, '@@')] ) if False else ('q20-method', '', [(T, 'width_limit as usize >= msg_count', '!((width_limit as usize) < msg_count)')]),
 ('q20-continue', '', [(T, LOOP, LOOP.replace('                if width_limit as usize >= msg_count {\n', '                if (width_limit as usize) < msg_count {\n                    prev_width = width_limit;\n                    depth = depth\n                        .checked_add(1)\n                        .ok_or(Error::CantFitInMaxSlots(msg_count))?;\n                    continue;\n                }\n                {\n'))]),
 ('q20-maxcof', '', [(T, '0..=(prev_width.min(COFACTOR_ATTEMPTS as u32) as u16)', '0..=max_cofactor'), (T, '                if width_limit as usize >= msg_count {\n', '                let max_cofactor = prev_width.min(COFACTOR_ATTEMPTS as u32) as u16;\n                if width_limit as usize >= msg_count {\n')]),
 ('q20-find', '', [(T, INNER + '', '@')]) if False else ('q20-matchdepth', '', [(T, '''                depth = depth
                    .checked_add(1)
                    .ok_or(Error::CantFitInMaxSlots(msg_count))?;
''', '''                depth = match depth.checked_add(1) {
                    Some(next) => next,
                    None => return Err(Error::CantFitInMaxSlots(msg_count)),
                };
''')]),
 ('c20-stale', 'C20', [(T, '                        map.clear();\n', '                        if cofactor == 0 {\n                            map.clear();\n                        }\n')]),
 ('c20-last', 'C20', [(T, 'map.insert(pos, (*protocol, *message)).is_none()', 'map.insert(pos, (*protocol, *message)).is_none() || cofactor > 400')]),
 ('c20-swap', 'C20', [(T, "                                cofactor,\n                                messages:", "                                cofactor: cofactor.saturating_sub(1),\n                                messages:")]),
 ('c20-depth0', 'C20', [(T, 'if source.min_depth == u5::ZERO && source.messages.is_empty()', 'if source.min_depth == u5::ZERO || source.messages.is_empty()')]),
 ('c20-toomany', 'C20', [(T, 'if msg_count > 2usize.pow(u5::MAX.to_u8() as u32)', 'if msg_count >= 2usize.pow(u5::MAX.to_u8() as u32)')]),
 ('c20-width', 'C30', [(T, 'width_limit as usize >= msg_count', 'width_limit as usize > msg_count')]),
 ('c20-method', 'C20 C21', [(T, 'entropy,\n                                cofactor,', 'entropy: entropy ^ 1,\n                                cofactor,')]),
 ('q30-castcof', '', [(T, '0..=(prev_width.min(COFACTOR_ATTEMPTS as u32) as u16)', '0..=prev_width.min(COFACTOR_ATTEMPTS as u32)'),
    (T, '                        map.clear();\n', '                        let cofactor = cofactor as u16;\n                        map.clear();\n')]),
 ('q30-while', '', [(T, '                    for cofactor in 0..=(prev_width.min(COFACTOR_ATTEMPTS as u32) as u16) {\n                        map.clear();\n', '                    let mut next = 0u16;\n                    while next <= (prev_width.min(COFACTOR_ATTEMPTS as u32) as u16) {\n                        let cofactor = next;\n                        next += 1;\n                        map.clear();\n')]),
 ('q30-cmp', '', [(T, 'prev_width.min(COFACTOR_ATTEMPTS as u32) as u16', 'core::cmp::min(COFACTOR_ATTEMPTS as u32, prev_width) as u16')]),
 ('c30-prev', 'C30', [(T, '                prev_width = width_limit;\n', '                prev_width = prev_width.max(msg_count as u32);\n')]),
 ('c30-excl', 'C30', [(T, '0..=(prev_width', '0..(prev_width')]),
 ('c30-500', 'C30', [(T, 'const COFACTOR_ATTEMPTS: u16 = 500', 'const COFACTOR_ATTEMPTS: u16 = 501')]),
 ('c30-skip', 'C30', [(T, '                        map.clear();\n', '                        if cofactor % 64 == 63 {\n                            continue;\n                        }\n                        map.clear();\n')]),
 ('c30-tight', 'C30', [(T, 'if width_limit as usize >= msg_count {', 'if width_limit as usize >= msg_count.saturating_mul(2) {')]),
 # verify
 ('q21-if', '', [(T, '''            let other = Self::try_commit(&source).map_err(|_| VerifyError::InvalidMessage)?;
            if other != *self {
                return Err(VerifyError::InvalidCommitment);
            }
            Ok(())
''', '''            match Self::try_commit(&source) {
                Err(_) => Err(VerifyError::InvalidMessage),
                Ok(other) => {
                    if &other == self {
                        Ok(())
                    } else {
                        Err(VerifyError::InvalidCommitment)
                    }
                }
            }
''')]),
 ('q21-src', '', [(T, '''            let source = MultiSource {
                static_entropy: source.static_entropy.or(Some(self.entropy)),
                ..source.clone()
            };
''', '''            let mut source = source.clone();
            if source.static_entropy.is_none() {
                source.static_entropy = Some(self.entropy);
            }
''')]),
 ('c21-override', 'C21', [(T, 'static_entropy: source.static_entropy.or(Some(self.entropy)),', 'static_entropy: Some(self.entropy),')]),
 ('c21-cid', 'C21', [(T, 'if other != *self {', 'if other.map != self.map {')]),
 # root
 ('q22-if', '', [(T, ROOT, '''        let width = self.width_limit();
        let mut leaves = Vec::new();
        for pos in 0..width {
            let leaf = match self.map.get(&pos) {
                Some((protocol, msg)) => Leaf::inhabited(*protocol, *msg),
                None => Leaf::entropy(self.entropy, pos),
            };
            leaves.push(leaf);
        }
        let leaves = LargeVec::try_from(leaves).expect("tree width has u32-bound size");
        MerkleHash::merklize(&leaves)
''')]),
 ('q22-collect', '', [(T, ROOT, '''        let leaf_at = |pos: u32| {
            if let Some((protocol, message)) = self.map.get(&pos).copied() {
                Leaf::Inhabited { protocol, message }
            } else {
                Leaf::Entropy { entropy: self.entropy, pos }
            }
        };
        let leaves = (0..self.width_limit()).map(leaf_at).collect::<Vec<_>>();
        let leaves = LargeVec::try_from(leaves).expect("tree width has u32-bound size");
        MerkleHash::merklize(&leaves)
''')]),
 ('q22-method', '', [(T, ROOT, '''        let iter = (0..self.width_limit()).map(|pos| self.leaf(pos));
        let leaves = LargeVec::try_from_iter(iter).expect("tree width has u32-bound size");
        MerkleHash::merklize(&leaves)
'''), (T, '    pub fn root(&self) -> MerkleHash {', '''    fn leaf(&self, pos: u32) -> Leaf {
        self.map
            .get(&pos)
            .map(|(protocol, msg)| Leaf::inhabited(*protocol, *msg))
            .unwrap_or_else(|| Leaf::entropy(self.entropy, pos))
    }

    pub fn root(&self) -> MerkleHash {''')]),
 ('c22-width', 'C22', [(T, 'let iter = (0..self.width_limit())', 'let iter = (0..self.factored_width())'), (T, '        debug_assert_eq!(leaves.len_u32(), self.width_limit());\n', '')]),
 ('c22-pos', 'C22', [(T, '.unwrap_or_else(|| Leaf::entropy(self.entropy, pos))', '.unwrap_or_else(|| Leaf::entropy(self.entropy, pos.swap_bytes()))')]),
 ('c22-msg', 'C22', [(T, '.map(|(protocol, msg)| Leaf::inhabited(*protocol, *msg))', '.map(|(protocol, msg)| Leaf::inhabited(*protocol, if *msg == Message::default() { Message::from([1u8; 32]) } else { *msg }))')]),
 ('c22-atoms', 'C22 C19 C23 C13', [(A, 'Self::Entropy { entropy, pos } }', 'Self::Entropy { entropy, pos: pos & 0xFFFF } }')]),
 ('c13-tagleaf', 'C13 C14 C23', [(A, '#[strict_type(tag = 0x11)]', '#[strict_type(tag = 0x12)]')]),
 ('c13-urn', 'C13', [(A, '"urn:ubideco:mpc:commitment#2024-01-31"', '"urn:ubideco:merkle:node#2024-01-31"')]),
]
