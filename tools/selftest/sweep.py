"""Rewrites of single lines which keep the behaviour, found by sweeps."""
B = 'commit_verify/src/mpc/block.rs'
EDITS = [
    ('v-zip-from0', '', [(B, 'for (depth, hash) in path.iter().enumerate() {', 'for (depth, hash) in (0..).zip(path.iter()) {')]),
    ('v-zip-from1', '', [(B, 'for (depth, hash) in path.iter().enumerate() {', 'for (depth, hash) in (1u8..).zip(path) {'), (B, 'u5::with(depth as u8) + 1', 'u5::with(depth)')]),
    ('v-zip-rev', '', [(B, 'for (depth, hash) in path.iter().enumerate() {', 'for (hash, depth) in path.iter().zip(0..) {')]),
    ('v-zip-range', '', [(B, 'for (depth, hash) in path.iter().enumerate() {', 'for (depth, hash) in (0..path.len()).zip(path) {')]),
    ('v-zip-incl', '', [(B, 'for (depth, hash) in path.iter().enumerate() {', 'for (depth, hash) in (1..=path.len()).zip(path) {'), (B, 'u5::with(depth as u8) + 1', 'u5::with(depth as u8)')]),
]
T = 'commit_verify/src/mpc/tree.rs'
M = 'commit_verify/src/merkle.rs'
CONTAINS = '        let mut not_found = protocols.iter().copied().collect::<BTreeSet<_>>();\n        for protocol_id in self.known_protocol_ids() {\n            not_found.remove(&protocol_id);\n        }\n        if let Some(protocol_id) = not_found.into_iter().next() {\n'
WIDTH = 'u256::from(width.saturating_sub(cofactor as u32).max(1) as u64);'
STEP = '''                prev_width = width_limit;
                depth = depth
                    .checked_add(1)
                    .ok_or(Error::CantFitInMaxSlots(msg_count))?;
            }
'''
EDITS += [
    ('u-successors', '', [(T, '            let mut depth = source.min_depth;\n', ''), (T, '            loop {\n                let width_limit', '            for depth in std::iter::successors(Some(source.min_depth), |d| d.checked_add(1)) {\n                let width_limit'),
                          (T, STEP, '                prev_width = width_limit;\n            }\n            Err(Error::CantFitInMaxSlots(msg_count))\n')]),
    ('u-entry', '', [(T, '                            map.insert(pos, (*protocol, *message)).is_none()', '''                            match map.entry(pos) {
                                std::collections::btree_map::Entry::Vacant(entry) => {
                                    entry.insert((*protocol, *message));
                                    true
                                }
                                std::collections::btree_map::Entry::Occupied(_) => false,
                            }''')]),
    ('u-attempts', '', [(T, '(prev_width.min(COFACTOR_ATTEMPTS as u32) as u16)', '(u16::try_from(prev_width.min(COFACTOR_ATTEMPTS as u32)).expect("not more than 500"))')]),
    ('u-shl', '', [(T, 'msg_count > 2usize.pow(u5::MAX.to_u8() as u32)', 'msg_count > 1usize << u5::MAX.to_u8()')]),
    ('u-multiple-of', '', [(B, 'if offset % pow != 0 {', 'if !offset.is_multiple_of(pow) {')]),
    ('u-mask', '', [(B, 'if offset % pow != 0 {', 'if offset & (pow - 1) != 0 {')]),
    ('u-subset', '', [(B, CONTAINS, '''        let requested = protocols.iter().copied().collect::<BTreeSet<_>>();
        let known = self.known_protocol_ids().collect::<BTreeSet<_>>();
        if !requested.is_subset(&known) {
            let protocol_id = *requested.difference(&known).next().expect("not a subset");
''')]),
    ('u-extend', '', [(B, CONTAINS, '''        let mut known = BTreeSet::new();
        known.extend(self.known_protocol_ids());
        if let Some(protocol_id) = protocols.iter().copied().filter(|p| !known.contains(p)).min() {
''')]),
    ('u-partition', '', [(B, CONTAINS, '''        let known = self.known_protocol_ids().collect::<BTreeSet<_>>();
        let (_, missing): (BTreeSet<ProtocolId>, BTreeSet<ProtocolId>) =
            protocols.iter().copied().partition(|p| known.contains(p));
        if let Some(protocol_id) = missing.into_iter().next() {
''')]),
    ('u-firstmissing', '', [(B, CONTAINS, '''        let known = self.known_protocol_ids().collect::<BTreeSet<_>>();
        let mut requested = protocols.to_vec();
        requested.sort();
        requested.dedup();
        if let Some(protocol_id) = requested.into_iter().find(|p| !known.contains(p)) {
''')]),
    ('u-mapwhile', '', [(B, '''b.by_ref().take_while(|n| {
                        if stop {
                            last_b = Some(*n);
                            return false;
                        }
                        buoy.push(n.depth_or(self.depth));
                        if buoy.level() <= n1_depth {
                            stop = true
                        }
                        true
                    })''', '''b.by_ref().map_while(|n| {
                        if stop {
                            last_b = Some(n);
                            return None;
                        }
                        buoy.push(n.depth_or(self.depth));
                        if buoy.level() <= n1_depth {
                            stop = true
                        }
                        Some(n)
                    })''')]),
    ('u-width-if', '', [(T, WIDTH, 'u256::from(if cofactor as u32 >= width { 1 } else { width - cofactor as u32 } as u64);')]),
    ('u-width-filter', '', [(T, WIDTH, 'u256::from(width.checked_sub(cofactor as u32).filter(|w| *w > 0).unwrap_or(1) as u64);')]),
    ('u-width-match', '', [(T, WIDTH, 'u256::from(match width.checked_sub(cofactor as u32) {\n            None | Some(0) => 1u64,\n            Some(width) => width as u64,\n        });')]),
    ('u-width-cmp', '', [(T, WIDTH, 'u256::from(u64::from(std::cmp::max(1, width.saturating_sub(u32::from(cofactor)))));')]),
    ('u-half-up', '', [(M, 'let div = branch_width / 2 + branch_width % 2;', 'let div = branch_width - branch_width / 2;')]),
    ('u-half-plus', '', [(M, 'let div = branch_width / 2 + branch_width % 2;', 'let div = (branch_width >> 1) + (branch_width & 1);')]),
    ('u-leaf-mapor', '', [(T, '''                .map(|(protocol, msg)| Leaf::inhabited(*protocol, *msg))
                .unwrap_or_else(|| Leaf::entropy(self.entropy, pos))''', '''                .map_or_else(|| Leaf::entropy(self.entropy, pos), |(protocol, msg)| Leaf::inhabited(*protocol, *msg))''')]),
    ('u-root-then', '', [(T, '''            self.map
                .get(&pos)
                .map(|(protocol, msg)| Leaf::inhabited(*protocol, *msg))
                .unwrap_or_else(|| Leaf::entropy(self.entropy, pos))''', '''            if self.map.contains_key(&pos) {
                let (protocol, msg) = self.map[&pos];
                Leaf::inhabited(protocol, msg)
            } else {
                Leaf::entropy(self.entropy, pos)
            }''')]),
    ('u-pos-u64', '', [(T, '    rem.low_u64() as u32\n', '    u32::try_from(rem.low_u64()).expect("less than the width")\n')]),
    ('u-with-split', '', [(B, '            let list = if pos >= width_limit / 2 {\n                pos -= width_limit / 2;\n                &mut dir', '            let half = width_limit / 2;\n            let list = if pos >= half {\n                pos %= half;\n                &mut dir')]),
    ('u-with-checked', '', [(B, '            let list = if pos >= width_limit / 2 {\n                pos -= width_limit / 2;\n                &mut dir', '            let list = if let Some(rest) = pos.checked_sub(width_limit / 2) {\n                pos = rest;\n                &mut dir')]),
]
