D = 'commit_verify/derive/src/derive.rs'
P = 'commit_verify/derive/src/params.rs'
R = 'commit_verify/src/mpc/'
EDITS = [
    ('q12-ufcs', '', [(D, "engine.commit_to_serialized(self);", "#trait_crate::CommitEngine::commit_to_serialized(engine, self);")]),
    ('q12-let', '', [(D, "engine.commit_to_concealed(&self.conceal());", "let concealed = self.conceal();\n                engine.commit_to_concealed(&concealed);")]),
    ('q12-wrapper', '', [(D, """use amplify::Wrapper;
                engine.commit_to_serialized(self.as_inner());""", "engine.commit_to_serialized(amplify::Wrapper::as_inner(self));")]),
    ('q12-helper', '', [(D, """StrategyAttr::Merklize => quote! {
                engine.commit_to_merkle(self);
            },""", """StrategyAttr::Merklize => Self::merklize_body(),"""), (D, "impl CommitDerive {", """impl CommitDerive {
    fn merklize_body() -> TokenStream2 {
        quote! {
            engine.commit_to_merkle(self);
        }
    }
""")]),
    ('q12-ifelse', '', [(P, "match path.to_token_stream().to_string().as_str() {", "let strategy = path.to_token_stream().to_string();\n        match strategy.as_str() {")]),
    ('c12-conceal', 'C12', [(D, """use #trait_crate::Conceal;
                engine.commit_to_concealed(&self.conceal());""", "engine.commit_to_serialized(self);")]),
    ('c12-conceal2', 'C12', [(D, """engine.commit_to_concealed(&self.conceal());""", "let _ = self.conceal();\n engine.commit_to_serialized(self);")]),
    ('c12-transparent', 'C12', [(D, "engine.commit_to_serialized(self.as_inner());", "engine.commit_to_serialized(self);")]),
    ('c12-swap', 'C12', [(P, "ATTR_STRATEGY_TRANSPARENT => Ok(StrategyAttr::Transparent)", "ATTR_STRATEGY_TRANSPARENT => Ok(StrategyAttr::Strict)")]),
    ('c12-merkle', 'C12', [(D, "engine.commit_to_merkle(self);", "for leaf in self.merkle_leaves() { engine.commit_to_serialized(leaf); }")]),
    ('c12-twice', 'C12', [(D, "engine.commit_to_serialized(self);", "engine.commit_to_serialized(self);engine.commit_to_serialized(self);")]),
    ('c14-proofskip', 'C14', [(R + 'block.rs', """    #[getter(as_copy)]
    pos: u32,""", """    #[getter(as_copy)]
    #[strict_type(skip)]
    pos: u32,""")]),
    ('c13-leaftag', 'C13', [(R + 'atoms.rs', "#[strict_type(tag = 0x11)]", "#[strict_type(tag = 0x12)]")]),
]
