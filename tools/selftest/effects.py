T = 'commit_verify/src/mpc/tree.rs'
L = 'commit_verify/src/lib.rs'
M = 'commit_verify/src/merkle.rs'
S = 'single_use_seals/src/lib.rs'
A = 'src/api.rs'
EDITS = [
    ('c31-time', 'C31', [(T, """.unwrap_or_else(|| thread_rng().next_u64());""", """.unwrap_or_else(|| thread_rng().next_u64() ^ std::time::SystemTime::now().elapsed().map(|d| d.as_nanos() as u64).unwrap_or(0));""")]),
    ('c31-env', 'C31', [(T, "if msg_count > 2usize.pow(u5::MAX.to_u8() as u32) {", "if msg_count > 2usize.pow(u5::MAX.to_u8() as u32) && std::env::var(\"X\").is_err() {")]),
    ('c31-hash', 'C31', [(T, """map: Confined::try_from(map).expect("MultiSource type guarantees"),""", """map: Confined::try_from({ let h: std::collections::HashMap<u32, (ProtocolId, Message)> = map.clone().into_iter().collect(); h.into_iter().take(1000).collect::<BTreeMap<_, _>>() }).expect("MultiSource type guarantees"),""")]),
    ('c31-static', 'C31', [(M, "const VIRTUAL_LEAF:", "static COUNT: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(0);\n#[allow(dead_code)]\npub fn count() -> u32 { COUNT.fetch_add(1, std::sync::atomic::Ordering::SeqCst) }\nconst VIRTUAL_LEAF:")]),
    ('c31-tls', 'C31', [(M, "        MerkleNode::void(depth, width).commit_id()", "        thread_local!(static C: std::cell::Cell<u32> = std::cell::Cell::new(0));\n        C.with(|c| c.set(c.get() + 1));\n        MerkleNode::void(depth, width).commit_id()")]),
    ('q31-helper', '', [(T, """            let entropy = source
                .static_entropy
                .unwrap_or_else(|| thread_rng().next_u64());""", "            let entropy = source.static_entropy.unwrap_or_else(random_entropy);"),
                        (T, "            use rand::{thread_rng, RngCore};\n", "            fn random_entropy() -> u64 {\n                use rand::{thread_rng, RngCore};\n                thread_rng().next_u64()\n            }\n")]),
    ('q31-match', '', [(T, """            let entropy = source
                .static_entropy
                .unwrap_or_else(|| thread_rng().next_u64());""", """            let entropy = match source.static_entropy {
                Some(entropy) => entropy,
                None => thread_rng().next_u64(),
            };""")]),
    ('q31-ifsome', '', [(T, """            let entropy = source
                .static_entropy
                .unwrap_or_else(|| thread_rng().next_u64());""", """            let entropy = if let Some(entropy) = source.static_entropy { entropy } else { thread_rng().next_u64() };""")]),
    ('c32-width', 'C32', [(M, "        MerkleNode::void(depth, width).commit_id()", "        #[cfg(feature = \"serde\")]\n        return MerkleNode::void(depth, width).commit_id();\n        #[cfg(not(feature = \"serde\"))]\n        MerkleNode::void(depth, 0u64).commit_id()")]),
    ('c32-cfgmacro', 'C32', [(A, "        if !self.failures.is_empty() {", "        if !self.failures.is_empty() && cfg!(feature = \"serde\") {")]),
    ('c33-nocheck', 'C33', [(L, "if reserved != ReservedBytes::<LEN, VAL>::default() {", "if reserved.0.first() != ReservedBytes::<LEN, VAL>::default().0.first() {")]),
    ('c33-zero', 'C33', [(L, "Self([VAL; LEN])", "Self([0; LEN])")]),
    ('c33-noassert', 'C33', [(L, "        assert_eq!(value, [VAL; LEN]);\n", "        debug_assert_eq!(value, [VAL; LEN]);\n")]),
    ('c33-serde', 'C33', [(L, "Ok(default!())", "Ok(Self([0u8; LEN]))")]),
    ('q33-match', '', [(L, "if reserved != ReservedBytes::<LEN, VAL>::default() {", "if reserved.0 != [VAL; LEN] {")]),
    ('q33-let', '', [(L, """let reserved = reader.read_tuple(|r| r.read_field().map(Self))?;
            if reserved != ReservedBytes::<LEN, VAL>::default() {""", """let reserved: Self = reader.read_tuple(|r| Ok(Self(r.read_field::<[u8; LEN]>()?)))?;
            let expected = Self::default();
            if expected != reserved {""")]),
    ('q33-assert', '', [(L, "        assert_eq!(value, [VAL; LEN]);\n        Self(value)", "        let expected = Self::default();\n        if value != expected.0 {\n            panic!(\"invalid reserved bytes\");\n        }\n        expected")]),
    ('q33-okorelse', '', [(L, "if reserved != ReservedBytes::<LEN, VAL>::default() {", "let valid = reserved == ReservedBytes::<LEN, VAL>::default();\n            if !valid {")]),
    ('q33-all', '', [(L, "if reserved != ReservedBytes::<LEN, VAL>::default() {", "if reserved.0.iter().any(|b| *b != VAL) {")]),
]
