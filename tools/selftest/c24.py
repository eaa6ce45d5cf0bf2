B = 'commit_verify/src/mpc/block.rs'
EDITS = [
 ('c24-keep-entropy', 'C24', [(B, "        self.entropy = None;\n", "")]),
 ('c24-depth-off', 'C24', [(B, "let depth = depth1 - 1;", "let depth = depth1;")]),
 ('c24-swap', 'C24', [(B, "TreeNode::with(hash1, hash2, depth, self.width_limit())", "TreeNode::with(hash2, hash1, depth, self.width_limit())")]),
 ('c24-width', 'C24', [(B, "TreeNode::with(hash1, hash2, depth, self.width_limit())", "TreeNode::with(hash1, hash2, depth, self.factored_width())")]),
 ('c24-align', 'C24', [(B, "if offset % pow != 0 {", "if offset % (pow / 2) != 0 {")]),
 ('c24-noalign', 'C24', [(B, "if offset % pow != 0 {", "if offset % pow == 1 {")]),
 ('c24-leafoff', 'C24', [(B, "                        offset += 2;\n", "                        offset += 1;\n")]),
 ('c24-leafpos', 'C24', [(B, "                        offset += 2;\n                        pos += 1;\n", "                        offset += 2;\n")]),
 ('c24-onepass', 'C24', [(B, "if count == prev_count {", "if count >= prev_count {")]),
 ('c24-remove', 'C24', [(B, ".remove(pos + 1)", ".remove(pos)")]),
 ('c24-count', 'C24', [(B, "                            count += 1;\n                            offset += pow;", "                            offset += pow;")]),
 ('c24-anyknown', 'C24', [(B, "            not_found.remove(&protocol_id);", "            not_found.clear();")]),
 ('c24-leafdepth', 'C24', [(B, "                        depth: self.depth,\n                        hash: node.to_merkle_node(),", "                        depth: self.depth - 1,\n                        hash: node.to_merkle_node(),")]),
 ('c24-len', 'C24', [(B, "                            len -= 1;\n", "                            len -= 2;\n")]),
 ('c24-len2', 'C24', [(B, "                            len -= 1;\n", "                            len -= 0;\n")]),
 ('c24-skip-first', 'C24', [(B, "            let mut pos = 0usize;\n            let mut len = self.cross_section.len();\n            while pos < len {", "            let mut pos = 1usize;\n            let mut len = self.cross_section.len();\n            while pos < len {")]),
 ('c24-skip-both', 'C24', [(B, "                        if offset % pow != 0 {\n                            offset += 2u32.pow(self.depth.to_u8() as u32 - depth1.to_u8() as u32);", "                        if offset % pow != 0 {\n                            offset += 2u32.pow(self.depth.to_u8() as u32 - depth1.to_u8() as u32) * 2;\n                            pos += 1;")]),
 ('c24-err-late', 'C24', [(B, "            return Err(LeafNotKnown(protocol_id));", "            self.entropy = None;\n            return Err(LeafNotKnown(protocol_id));")]),
 ('c24-other', 'C24', [(B, "self.conceal_except([protocol])?", "self.conceal_except([])?")]),
 ('c24-conceal-all', 'C24', [(B, "TreeNode::CommitmentLeaf { protocol_id: p, .. } if protocols.contains(p)", "TreeNode::CommitmentLeaf { protocol_id: p, .. } if protocols.first() == Some(p)")]),
 ('q24-nolen', '', [(B, "                            len -= 1;\n", ""), (B, "            let mut len = self.cross_section.len();\n            while pos < len {", "            while pos < self.cross_section.len() {")]),
 ('q24-flag', '', [(B, "            let prev_count = count;\n", "            let mut changed = false;\n"), (B, "            if count == prev_count {", "            if !changed {"), (B, "                            offset += pow;\n", "                            offset += pow;\n                            changed = true;\n")]),
 ('q24-any', '', [(B, "if protocols.contains(p)", "if protocols.iter().any(|x| x == p)")]),
 ('q24-find', '', [(B, '''        let mut not_found = protocols.iter().copied().collect::<BTreeSet<_>>();
        for protocol_id in self.known_protocol_ids() {
            not_found.remove(&protocol_id);
        }
        if let Some(protocol_id) = not_found.into_iter().next() {
            return Err(LeafNotKnown(protocol_id));
        }
''','''        let known = self.known_protocol_ids().collect::<BTreeSet<_>>();
        for protocol_id in protocols {
            if !known.contains(protocol_id) {
                return Err(LeafNotKnown(*protocol_id));
            }
        }
''')]),
 ('q24-find2', '', [(B, '''        let mut not_found = protocols.iter().copied().collect::<BTreeSet<_>>();
        for protocol_id in self.known_protocol_ids() {
            not_found.remove(&protocol_id);
        }
        if let Some(protocol_id) = not_found.into_iter().next() {
            return Err(LeafNotKnown(protocol_id));
        }
''','''        let known = self.known_protocol_ids().collect::<BTreeSet<ProtocolId>>();
        if let Some(protocol_id) = protocols.iter().find(|&id| !known.contains(id)) {
            return Err(LeafNotKnown(*protocol_id));
        }
''')]),
 ('q24-helper', '', [(B, '''            let prev_count = count;
            let mut offset = 0u32;
            let mut pos = 0usize;''', '''            let prev_count = count;
            let mut pos = 0usize;
            let mut offset = 0u32;'''), (B, '''                        let depth = depth1 - 1;
                        let height = self.depth.to_u8() as u32 - depth.to_u8() as u32;
                        let pow = 2u32.pow(height);
                        if offset % pow != 0 {''', '''                        let depth = depth1 - 1;
                        let pow = self.span(depth);
                        let aligned = offset % pow == 0;
                        if !aligned {'''), (B, "    pub fn conceal_except(\n", '''    pub fn conceal_except_(&mut self) {}
    fn span(&self, depth: u5) -> u32 {
        let height = self.depth.to_u8() as u32 - depth.to_u8() as u32;
        2u32.pow(height)
    }

    /// doc
    pub fn conceal_except(
''')]),
 ('q24-enumerate', '', [(B, "        for node in &mut self.cross_section {\n            match node {\n                TreeNode::ConcealedNode { .. } => {\n                    // Do nothing\n                }\n                TreeNode::CommitmentLeaf { protocol_id: p, .. } if protocols.contains(p) => {\n                    // Keep the leaf revealed\n                }\n                TreeNode::CommitmentLeaf { .. } => {\n",
 "        for node in self.cross_section.iter_mut() {\n            let hide = match node {\n                TreeNode::ConcealedNode { .. } => false,\n                TreeNode::CommitmentLeaf { protocol_id: p, .. } => !protocols.contains(p),\n            };\n            if hide {\n                {\n")]),
 ('q24-shl', '', [(B, "let pow = 2u32.pow(height);", "let pow = 1u32 << height;")]),
 ('q24-iflet', '', [(B, '''                    // Two commitment leafs: skipping both
                    (TreeNode::CommitmentLeaf { .. }, Some(TreeNode::CommitmentLeaf { .. })) => {
                        offset += 2;
                        pos += 1;
                    }
''', ''), (B, '''                        TreeNode::CommitmentLeaf { .. },
                        Some(TreeNode::ConcealedNode { .. }) | None,
                    ) => {
                        offset += 1;''', '''                        TreeNode::CommitmentLeaf { .. },
                        _,
                    ) => {
                        offset += 1;''')]),
]
