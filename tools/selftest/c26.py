B = 'commit_verify/src/mpc/block.rs'
EDITS = [
 ('c26-idcheck', 'C26', [(B, "if base_root != merged_root {", "if base_root != merged_root && self.depth != other.depth {")]),
 ('c26-swap', 'C26', [(B, "                base_root,\n                merged_root,\n            });", "                base_root: merged_root,\n                merged_root: base_root,\n            });")]),
 ('c26-drop', 'C26', [(B, "(true, false) => cross_section.push(n1),", "(true, false) => cross_section.push(n2),")]),
 ('c26-noassert', 'C26', [(B, "        assert_eq!(\n            base_root,\n            self.commit_id(),", "        debug_assert_eq!(\n            base_root,\n            self.commit_id(),")]),
 ('c26-nowidth', 'C26', [(B, "        assert_eq!(\n            self.cross_section\n", "        debug_assert_eq!(\n            self.cross_section\n")]),
 ('c26-entropy', 'C26', [(B, "        self.cross_section =\n            NonEmptyVec::try_from(cross_section)", "        self.entropy = self.entropy.or(other.entropy);\n        self.cross_section =\n            NonEmptyVec::try_from(cross_section)")]),
 ('c26-level', 'C26', [(B, "if buoy.level() <= n1_depth {", "if buoy.level() < n1_depth {")]),
 ('c26-depth', 'C26', [(B, "                        buoy.push(n.depth_or(self.depth));\n                        if buoy.level() <= n2_depth {", "                        buoy.push(n.depth_or(n1_depth));\n                        if buoy.level() <= n2_depth {")]),
 ('c26-path', 'C26', [(B, "        self.merge_reveal(block)\n", "        self.merge_reveal(block).or(Ok(0))\n")]),
 ('c26-lost', 'C26', [(B, "                            last_b = Some(*n);\n", "")]),
 ('c26-new', 'C26', [(B, "MerkleBuoy::<u5>::new(n2_depth)", "MerkleBuoy::<u5>::new(n1_depth)")]),
 ('c26-goon', 'C26', [(B, "last_b = Some(*n);\n                            return false;", "last_b = Some(*n);\n                            return true;")]),
 ('c26-blind', 'C26', [(B, "                        buoy.push(n.depth_or(self.depth));\n                        if buoy.level() <= n2_depth {", "                        if n.is_leaf() {\n                            return true;\n                        }\n                        buoy.push(n.depth_or(self.depth));\n                        if buoy.level() <= n2_depth {")]),
 ('c26-cut', 'C26', [(B, "                    last_a = a.next();\n                }\n                Ordering::Greater", "                    if !n2.is_leaf() {\n                        cross_section.truncate(1);\n                    }\n                    last_a = a.next();\n                }\n                Ordering::Greater")]),
 ('q26-let', '', [(B, "        let orig = self.clone();\n        let base_root = self.commit_id();", "        let base_root = self.commit_id();\n        let orig = self.clone();")]),
 ('q26-if', '', [(B, '''                    match (n1.is_leaf(), n2.is_leaf()) {
                        (true, false) => cross_section.push(n1),
                        (false, true) => cross_section.push(n2),
                        // Nothing to do here, we are skipping both nodes
                        (false, false) => {}
''', '''                    match (n1.is_leaf(), n2.is_leaf()) {
                        (false, false) => {}
                        (false, true) => cross_section.push(n2),
                        (true, false) => cross_section.push(n1),
''')]),
 ('q26-loop', '', [(B, '''                    last_b = None;
                    cross_section.extend(b.by_ref().take_while(|n| {
                        if stop {
                            last_b = Some(*n);
                            return false;
                        }
                        buoy.push(n.depth_or(self.depth));
                        if buoy.level() <= n1_depth {
                            stop = true
                        }
                        true
                    }));
''', '''                    last_b = None;
                    for n in b.by_ref() {
                        if stop {
                            last_b = Some(n);
                            break;
                        }
                        buoy.push(n.depth_or(self.depth));
                        if buoy.level() <= n1_depth {
                            stop = true;
                        }
                        cross_section.push(n);
                    }
''')]),
 ('q26-sum', '', [(B, '''                .map(|n| self.depth.to_u8() - n.depth_or(self.depth).to_u8())
                .map(|height| 2u32.pow(height as u32))
                .sum::<u32>(),''', '''                .map(|n| 2u32.pow((self.depth.to_u8() - n.depth_or(self.depth).to_u8()) as u32))
                .sum::<u32>(),''')]),
 ('q26-sumloop', '', [(B, '''        assert_eq!(
            self.cross_section
                .iter()
                .map(|n| self.depth.to_u8() - n.depth_or(self.depth).to_u8())
                .map(|height| 2u32.pow(height as u32))
                .sum::<u32>(),''', '''        let mut width = 0u32;
        for n in &self.cross_section {
            let height = self.depth.to_u8() - n.depth_or(self.depth).to_u8();
            width += 2u32.pow(height as u32);
        }
        assert_eq!(
            width,''')]),
 ('q26-iter', '', [(B, "let mut a = self.cross_section.iter().copied();", "let mut a = orig.cross_section.iter().copied();")]),
]
