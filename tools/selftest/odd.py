"""Bugs planted from the texts of the properties, which need a rare input to show."""
B = 'commit_verify/src/mpc/block.rs'
T = 'commit_verify/src/mpc/tree.rs'
M = 'commit_verify/src/merkle.rs'
I = 'commit_verify/src/id.rs'
D = 'commit_verify/src/digest.rs'
L = 'commit_verify/src/lib.rs'
A = 'src/api.rs'
S = 'single_use_seals/src/lib.rs'
EDITS = [
    ('o23-mod', 'C23', [(B, 'if expected != pos {', 'if expected % width_limit != pos % width_limit {')]),
    ('o23-empty', 'C23', [(B, 'if expected != pos {', 'if expected != pos && !path.is_empty() {')]),
    ('o23-cofactor', 'C23', [(B, 'protocol_id_pos(protocol_id, proof.cofactor, proof.depth());', 'protocol_id_pos(protocol_id, proof.cofactor.min(proof.width_limit() as u16), proof.depth());')]),
    ('o23-order', 'C23', [(B, 'if pos >= width_limit / 2 {', 'if pos >= width_limit / 2 && width_limit > 1 && pos > 0 {')]),
    ('o26-single', 'C26', [(B, '        let orig = self.clone();\n', '        if other.cross_section.len() == 1 {\n            return Ok(self.cross_section.len() as u16);\n        }\n        let orig = self.clone();\n')]),
    ('o26-same', 'C26', [(B, '        let orig = self.clone();\n', '        if other.cross_section == self.cross_section {\n            return Ok(self.cross_section.len() as u16);\n        }\n        let orig = self.clone();\n')]),
    ('o26-entropy', 'C26', [(B, '        Ok(self.cross_section.len() as u16)\n', '        if self.known_protocol_ids().count() == self.cross_section.len() {\n            self.entropy = other.entropy;\n        }\n        Ok(self.cross_section.len() as u16)\n')]),
    ('o26-replace', 'C26', [(B, '        let mut cross_section =\n            Vec::with_capacity(self.cross_section.len()', '        if other.cross_section.len() as u32 == self.width_limit() {\n            *self = other;\n            return Ok(self.cross_section.len() as u16);\n        }\n        let mut cross_section =\n            Vec::with_capacity(self.cross_section.len()')]),
    ('o24-dedup', 'C24', [(B, 'if let Some(protocol_id) = not_found.into_iter().next() {', 'if let Some(protocol_id) = not_found.into_iter().next().filter(|_| protocols.len() > 1 || !protocols[0].as_slice().iter().all(|b| *b == 0)) {')]),
    ('o24-early', 'C24', [(B, '        self.entropy = None;\n\n        // Conceal', '        if protocols.len() == self.cross_section.len() {\n            return Ok(0);\n        }\n        self.entropy = None;\n\n        // Conceal')]),
    ('o24-lastpair', 'C24', [(B, '            if count == prev_count {\n', '            if count == prev_count || len == 2 {\n')]),
    ('o27-zeromsg', 'C27', [(B, '''                    TreeNode::CommitmentLeaf {
                        protocol_id,
                        message,
                    } => Some((protocol_id, message)),''', '''                    TreeNode::CommitmentLeaf {
                        protocol_id,
                        message,
                    } => Some((protocol_id, message)).filter(|(_, m)| *m != Message::default()),''')]),
    ('o27-take', 'C27', [(B, '            .collect::<Vec<_>>()\n            .into_iter()\n            .map(move |id| {', '            .take(u16::MAX as usize)\n            .collect::<Vec<_>>()\n            .into_iter()\n            .map(move |id| {')]),
    ('o27-dedup', 'C27', [(B, 'let inserted = map.insert(*depth, *hash).is_none();', 'if map.values().any(|h| h == hash) {\n                        continue;\n                    }\n                    let inserted = map.insert(*depth, *hash).is_none();')]),
    ('o22-zero', 'C22', [(B, '            map.get(&pos)\n                .map(|(protocol_id', '            map.get(&pos)\n                .filter(|(protocol_id, _)| *protocol_id != ProtocolId::default())\n                .map(|(protocol_id')]),
    ('o22-free', 'C22', [(T, '            self.map\n                .get(&pos)\n', '            self.map\n                .get(&pos.min(self.factored_width()))\n')]),
    ('o20-static', 'C20', [(T, '                .static_entropy\n                .unwrap_or_else', '                .static_entropy\n                .filter(|e| *e != u64::MAX)\n                .unwrap_or_else')]),
    ('o20-method', 'C20', [(T, 'method: source.method,', 'method: Method::default(),')]),
    ('o20-one', 'C20 C30', [(T, 'let mut depth = source.min_depth;', 'let mut depth = if msg_count == 1 { u5::ZERO } else { source.min_depth };')]),
    ('o30-skip', 'C30', [(T, 'if width_limit as usize >= msg_count {', 'if width_limit as usize >= msg_count && (msg_count < 2 || depth != u5::ZERO) && (width_limit as usize != msg_count || msg_count < 64) {')]),
    ('o19-max', 'C19', [(T, '        u256::from(width.saturating_sub(cofactor as u32).max(1) as u64);', '        u256::from(width.checked_sub(cofactor as u32).unwrap_or(width).max(1) as u64);')]),
    ('o16-big', 'C16', [(M, 'let div = branch_width / 2 + branch_width % 2;', 'let div = if branch_width > 0x8000 { branch_width / 2 } else { branch_width / 2 + branch_width % 2 };')]),
    ('o16-empty', 'C16', [(M, '        if base_width == 1 {\n', '        if base_width == 0 {\n            VIRTUAL_LEAF\n        } else if base_width == 1 {\n')]),
    ('o16-dup', 'C16', [(M, '(Some(branch), None) => MerkleHash::single(depth, base_width, branch),', '(Some(branch), None) if base_width == 3 => MerkleHash::branches(depth, base_width, branch, VIRTUAL_LEAF),\n                (Some(branch), None) => MerkleHash::single(depth, base_width, branch),')]),
    ('o15-void', 'C15', [(M, 'Self::with(NodeBranching::Void, depth, width, VIRTUAL_LEAF, VIRTUAL_LEAF)', 'Self::with(NodeBranching::Void, 0u8, width, VIRTUAL_LEAF, VIRTUAL_LEAF).at(depth)'), (M, '    fn with(\n        branching: NodeBranching,', '    fn at(self, _depth: impl Into<u8>) -> Self { self }\n\n    fn with(\n        branching: NodeBranching,')]),
    ('o17-zero', 'C17', [(M, 'None if depth == self.buoy => {', 'None if depth == self.buoy && depth != D::default() => {\n                if self.buoy == D::default() {\n                    return false;\n                }'), (M, '            Some((true, level)) => {\n', '            Some((true, level)) if level == D::default() => {\n                self.stack = None;\n                true\n            }\n            Some((true, level)) => {\n')]),
    ('o01-first', 'C01', [(S, '        for seal in seals {\n', '        let mut proved = false;\n        for seal in seals {\n            if proved && self.client.convolve_commit(message).is_err() {\n                continue;\n            }\n            proved = true;\n')]),
    ('o01-infallible', 'C01', [(S, '''        self.published
            .verify_commitment(f_msg)
            .map_err(SealError::Published)''', '''        let _ = self.published.pub_id();
        match self.published.verify_commitment(f_msg) {
            Err(err) if size_of_val(&err) != 0 => Err(SealError::Published(err)),
            _ => Ok(()),
        }''')]),
    # loops which may never end
    ('o20-forever', 'C20', [(T, """                depth = depth
                    .checked_add(1)
                    .ok_or(Error::CantFitInMaxSlots(msg_count))?;""", """                depth = depth.checked_add(1).unwrap_or(u5::MAX);""")]),
    ('o20-cycle', 'C20', [(T, """                depth = depth
                    .checked_add(1)
                    .ok_or(Error::CantFitInMaxSlots(msg_count))?;""", """                depth = depth.checked_add(1).unwrap_or(source.min_depth);""")]),
    ('o24-forever', 'C24', [(B, "            if count == prev_count {\n", "            if count == prev_count && self.cross_section.len() <= protocols.len() + self.depth.to_u8() as usize {\n")]),
    ('o26-stuck', 'C26', [(B, "                Ordering::Equal if n1 == n2 => {\n                    cross_section.push(n1);\n                    last_a = a.next();", "                Ordering::Equal if n1 == n2 => {\n                    cross_section.push(n1);\n                    last_a = a.next().or(last_a);")]),
    ('o17-level', 'C17', [(M, "            Some((true, level)) => {\n                self.stack = None;\n                self.push(level)", "            Some((true, level)) => {\n                if level == D::default() {\n                    self.stack = None;\n                }\n                self.push(level)")]),
    ('o16-forever', 'C16', [(M, "let div = branch_width / 2 + branch_width % 2;", "let div = if branch_width == 3 { branch_width } else { branch_width / 2 + branch_width % 2 };")]),
    ('o28-recursive', 'C28', [(T, "fn conceal(&self) -> Self::Concealed { MerkleBlock::from(self.clone()).conceal() }", "fn conceal(&self) -> Self::Concealed {\n        if self.messages.len() > 300 {\n            return self.conceal();\n        }\n        MerkleBlock::from(self.clone()).conceal()\n    }")]),
]
