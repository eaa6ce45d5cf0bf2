M = 'commit_verify/src/merkle.rs'
BASE = '''        } else {
            let div = branch_width / 2 + branch_width % 2;

            let slice = iter
                .by_ref()
                .take(div as usize)
                // Normally we should use `iter.by_ref().take(div)`, but currently
                // rust compilers is unable to parse recursion with generic types
                // TODO: Do this without allocation
                .collect::<Vec<_>>()
                .into_iter();
            let branch1 = Self::_merklize(slice, depth + 1, div, base_width);
            let branch2 = Self::_merklize(iter, depth + 1, branch_width - div, base_width);

            MerkleHash::branches(depth, base_width, branch1, branch2)
        }
'''
s = open('/repo/' + M).read()
i = s.index('            let div = branch_width / 2'); i = s.rindex('        } else {\n', 0, i)
BASE = s[i:s.index('            MerkleHash::branches(depth, base_width, branch1, branch2)\n        }\n', i) + len('            MerkleHash::branches(depth, base_width, branch1, branch2)\n        }\n')]
j = s.index('            match (iter.next(), iter.next()) {')
PAIR = s[j:s.index('        } else {', j)]
k = s.index('        let mut nodes = leaves.merkle_leaves()')
ENTRY = s[k:s.index('    }\n\n', k)]
b = s.index('        match self\n            .stack\n            .as_mut()')
BUOY = s[b:s.rindex('    }\n}', 0, len(s)) if s.rindex('    }\n}') > b else None]
BUOY = s[b:s.index('            Some((false, _)) => false,\n        }\n', b) + len('            Some((false, _)) => false,\n        }\n')] if '            Some((false, _)) => false,\n        }\n' in s else BUOY
h = s.index('    fn _merklize(')
HELPER = s[h:s.index('            MerkleHash::branches(depth, base_width, branch1, branch2)\n        }\n    }\n', h) + len('            MerkleHash::branches(depth, base_width, branch1, branch2)\n        }\n    }\n')]
SLICED = '''        let nodes = leaves
            .merkle_leaves()
            .map(|leaf| leaf.commit_id())
            .collect::<Vec<_>>();
        let base_width =
            u32::try_from(nodes.len()).expect("too many merkle leaves (more than 2^31)");
        if base_width == 1 {
            nodes[0]
        } else {
            Self::_merklize(&nodes, u5::ZERO, base_width)
        }
'''
EDITS = [
 ('q16-splitat', '', [(M, ENTRY, SLICED), (M, HELPER, '''    fn _merklize(nodes: &[MerkleHash], depth: u5, base_width: u32) -> Self {
        match nodes {
            [] => MerkleHash::void(depth, base_width),
            [node] => MerkleHash::single(depth, base_width, *node),
            [node1, node2] => MerkleHash::branches(depth, base_width, *node1, *node2),
            _ => {
                let (left, right) = nodes.split_at(nodes.len() / 2 + nodes.len() % 2);
                let branch1 = Self::_merklize(left, depth + 1, base_width);
                let branch2 = Self::_merklize(right, depth + 1, base_width);
                MerkleHash::branches(depth, base_width, branch1, branch2)
            }
        }
    }
''')]),
 ('q16-range', '', [(M, ENTRY, SLICED), (M, HELPER, '''    fn _merklize(nodes: &[MerkleHash], depth: u5, base_width: u32) -> Self {
        match nodes.len() {
            0 => return MerkleHash::void(depth, base_width),
            1 => return MerkleHash::single(depth, base_width, nodes[0]),
            2 => return MerkleHash::branches(depth, base_width, nodes[0], nodes[1]),
            _ => {}
        }
        let div = nodes.len().div_ceil(2);
        let branch1 = Self::_merklize(&nodes[..div], depth + 1, base_width);
        let branch2 = Self::_merklize(&nodes[div..], depth + 1, base_width);
        MerkleHash::branches(depth, base_width, branch1, branch2)
    }
''')]),
 ('q16-vec', '', [(M, BASE, BASE.replace('                .collect::<Vec<_>>()\n                .into_iter();', '                .collect::<Vec<MerkleHash>>();').replace('_merklize(slice,', '_merklize(slice.into_iter(),'))]),
 ('q16-width', '', [(M, '        if branch_width <= 2 {', '        if branch_width < 3 {')]),

 ('q15-struct', '', [(M, '        Self::with(NodeBranching::Single, depth, width, node, VIRTUAL_LEAF)', '''        MerkleNode {
            node2: VIRTUAL_LEAF,
            node1: node,
            branching: NodeBranching::Single,
            depth: depth.into(),
            width: width.into(),
        }''')]),
 ('q15-hash', '', [(M, '        MerkleNode::branches(depth, width, node1, node2).commit_id()', '''        let node = MerkleNode::branches(depth, width, node1, node2);
        node.commit_id()''')]),
 ('c15-swap', 'C15', [(M, 'Self::with(NodeBranching::Branch, depth, width, node1, node2)', 'Self::with(NodeBranching::Branch, depth, width, node2, node1)')]),
 ('c15-single', 'C15', [(M, 'Self::with(NodeBranching::Single, depth, width, node, VIRTUAL_LEAF)', 'Self::with(NodeBranching::Single, depth, width, node, node)')]),
 ('c15-virt', 'C15', [(M, 'MerkleHash(Bytes32::from_array([0xFF; 32]))', 'MerkleHash(Bytes32::from_array([0x00; 32]))')]),
 ('c15-depth', 'C15', [(M, '            depth: depth.into(),', '            depth: depth.into() & 0x1F,')]),
 # merklize
 ('q16-div', '', [(M, 'let div = branch_width / 2 + branch_width % 2;', 'let div = (branch_width + 1) / 2;')]),
 ('q16-div2', '', [(M, 'let div = branch_width / 2 + branch_width % 2;', 'let div = branch_width.div_ceil(2);')]),
 ('q16-div3', '', [(M, 'let div = branch_width / 2 + branch_width % 2;', 'let div = branch_width - branch_width / 2;')]),
 ('q16-early', '', [(M, BASE, '''            ;
        }
        let div = branch_width / 2 + branch_width % 2;
        let left = iter.by_ref().take(div as usize).collect::<Vec<_>>();
        let branch1 = Self::_merklize(left.into_iter(), depth + 1, div, base_width);
        let branch2 = Self::_merklize(iter, depth + 1, branch_width - div, base_width);
        MerkleHash::branches(depth, base_width, branch1, branch2)
'''), (M, '            match (iter.next(), iter.next()) {', '            return match (iter.next(), iter.next()) {')]),
 ('q16-ifbase', '', [(M, PAIR, '''            let first = iter.next();
            let second = iter.next();
            if let Some(branch1) = first {
                if let Some(branch2) = second {
                    MerkleHash::branches(depth, base_width, branch1, branch2)
                } else {
                    MerkleHash::single(depth, base_width, branch1)
                }
            } else {
                MerkleHash::void(depth, base_width)
            }
''')]),
 ('q16-slice', '', [(M, ENTRY, '''        let nodes = leaves
            .merkle_leaves()
            .map(|leaf| leaf.commit_id())
            .collect::<Vec<_>>();
        let base_width =
            u32::try_from(nodes.len()).expect("too many merkle leaves (more than 2^31)");
        if base_width == 1 {
            nodes[0]
        } else {
            Self::_merklize(nodes.into_iter(), u5::ZERO, base_width, base_width)
        }
''')]),
 ('q16-match', '', [(M, ENTRY, '''        let mut nodes = leaves.merkle_leaves().map(CommitId::commit_id);
        let base_width =
            u32::try_from(nodes.len()).expect("too many merkle leaves (more than 2^31)");
        match base_width {
            1 => nodes.next().expect("length is 1"),
            _ => Self::_merklize(nodes, u5::ZERO, base_width, base_width),
        }
''')]),
 ('q16-order', '', [(M, '''            let branch2 = Self::_merklize(iter, depth + 1, branch_width - div, base_width);
''', '''            let rest = branch_width - div;
            let next_depth = depth + 1;
            let branch2 = Self::_merklize(iter, next_depth, rest, base_width);
''')]),
 ('c16-depth', 'C16', [(M, 'Self::_merklize(iter, depth + 1, branch_width - div, base_width)', 'Self::_merklize(iter, depth, branch_width - div, base_width)')]),
 ('c16-width', 'C16', [(M, 'Self::_merklize(slice, depth + 1, div, base_width)', 'Self::_merklize(slice, depth + 1, div, div)')]),
 ('c16-floor', 'C16', [(M, 'let div = branch_width / 2 + branch_width % 2;', 'let div = branch_width / 2;')]),
 ('c16-one', 'C16', [(M, '        if base_width == 1 {\n', '        if base_width == 1 && false {\n')]),
 ('c16-swap', 'C16', [(M, '(Some(branch1), Some(branch2)) => {\n                    MerkleHash::branches(depth, base_width, branch1, branch2)', '(Some(branch1), Some(branch2)) => {\n                    MerkleHash::branches(depth, base_width, branch1.min(branch2), branch1.max(branch2))')]),
 ('c16-trunc', 'C16', [(M, 'u32::try_from(nodes.len()).expect("too many merkle leaves (more than 2^31)")', 'nodes.len() as u32')]),
 # merkle buoy
 ('q17-if', '', [(M, BUOY, '''        if let Some(stack) = self.stack.as_mut() {
            let filled = stack.push(depth);
            let level = stack.level();
            if !filled {
                return false;
            }
            self.stack = None;
            self.push(level)
        } else if depth == self.buoy {
            self.buoy -= 1;
            true
        } else {
            self.stack = Some(Box::new(MerkleBuoy::new(depth)));
            false
        }
''')]),
 ('q17-level', '', [(M, '''        self.stack
            .as_ref()
            .map(Box::as_ref)
            .map(MerkleBuoy::level)
            .unwrap_or(self.buoy)
''', '''        match &self.stack {
            Some(stack) => stack.level(),
            None => self.buoy,
        }
''')]),
 ('c17-keep', 'C17', [(M, '                self.stack = None;\n                self.push(level)', '                self.push(level)')]),
 ('c17-buoy', 'C17', [(M, '                self.buoy -= 1;\n                true', '                self.buoy -= 1;\n                self.buoy == D::default()')]),
 ('c17-level', 'C17', [(M, '.unwrap_or(self.buoy)', '.unwrap_or_default()')]),
]
