C = 'commit_verify/src/commit.rs'
E = 'commit_verify/src/embed.rs'
V = 'commit_verify/src/convolve.rs'
I = 'commit_verify/src/id.rs'
D = 'commit_verify/src/digest.rs'
EMB = '''        let mut container_prime = proof.restore_original_container(self)?;
        let proof_prime = container_prime.embed_commit(msg)?;
'''
PCHK = '''        if !proof_prime.verify_eq(proof) {
            return Err(EmbedVerifyError::ProofMismatch);
        }
'''
CCHK = '''        if !self.verify_eq(&container_prime) {
            return Err(EmbedVerifyError::CommitmentMismatch);
        }
'''
src = lambda p: open('/repo/' + p).read()
e = src(E)
def between(s, a, b):
    i = s.index(a)
    return s[i:s.index(b, i)]
ETAIL = between(e, '        if !proof_prime', '    /// Phantom') if '    /// Phantom' in e else between(e, '        if !proof_prime', '    #[doc(hidden)]')
v = src(V)
VBODY = between(v, '        let original = self.restore_original', '        Ok(())')
IWL = between(src(D), '        let len = data.len();', '        self.input_raw(data);')
SET = between(src(I), '    pub fn commit_to_linear_set', '    ///') if False else None
EDITS = [
 # commit / verify
 ('q07-if', '', [(C, '''        match Self::commit(msg) == *self {
            false => Err(VerifyError::InvalidCommitment),
            true => Ok(()),
        }
''', '''        let other = Self::commit(msg);
        if *self != other {
            return Err(VerifyError::InvalidCommitment);
        }
        Ok(())
''')]),
 ('q07-then', '', [(C, '''        match Self::commit(msg) == *self {
            false => Err(VerifyError::InvalidCommitment),
            true => Ok(()),
        }
''', '''        (Self::commit(msg) == *self).then_some(()).ok_or(VerifyError::InvalidCommitment)
''')]),
 ('q07-match', '', [(C, '''        let other_commitment = Self::try_commit(msg).map_err(|_| VerifyError::InvalidMessage)?;
        if other_commitment != *self {
            return Err(VerifyError::InvalidCommitment);
        }
        Ok(())
''', '''        match Self::try_commit(msg) {
            Ok(c) if c == *self => Ok(()),
            Ok(_) => Err(VerifyError::InvalidCommitment),
            Err(_) => Err(VerifyError::InvalidMessage),
        }
''')]),
 ('c07-swap', 'C07', [(C, "map_err(|_| VerifyError::InvalidMessage)", "map_err(|_| VerifyError::InvalidCommitment)")]),
 ('c07-unwrapor', 'C07', [(C, '''        let other_commitment = Self::try_commit(msg).map_err(|_| VerifyError::InvalidMessage)?;
''', '''        let Ok(other_commitment) = Self::try_commit(msg) else { return Ok(()) };
''')]),
 # embed
 ('q08-match', '', [(E, EMB, '''        let mut container_prime = match proof.restore_original_container(self) {
            Ok(container) => container,
            Err(err) => return Err(err),
        };
        let proof_prime = container_prime
            .embed_commit(msg)
            .map_err(EmbedVerifyError::InvalidMessage)?;
''')]),
 ('q08-else', '', [(E, PCHK, '''        let same_proof = proof_prime.verify_eq(proof);
        if !same_proof {
            return Err(EmbedVerifyError::ProofMismatch);
        }
'''), (E, CCHK + '        Ok(())\n', '''        if self.verify_eq(&container_prime) {
            Ok(())
        } else {
            Err(EmbedVerifyError::CommitmentMismatch)
        }
''')]),
 ('q08-helper', '', [(E, PCHK + '', '''        check(proof_prime.verify_eq(proof), EmbedVerifyError::ProofMismatch)?;
'''), (E, '/// Proof type used by', '''fn check<E>(cond: bool, err: E) -> Result<(), E> {
    match cond {
        true => Ok(()),
        false => Err(err),
    }
}

/// Proof type used by''')]) if '/// Proof type used by' in e else ('q08-noop', '', [(E, PCHK, PCHK + '        let _ = &proof_prime;\n')]),
 ('c08-noproof', 'C08', [(E, PCHK, '')]),
 ('c08-selfcmp', 'C08', [(E, 'if !self.verify_eq(&container_prime)', 'if !container_prime.verify_eq(&container_prime)')]),
 ('c08-noembed', 'C08', [(E, EMB, '''        let mut container_prime = proof.restore_original_container(self)?;
        let proof_prime = container_prime.embed_commit(msg)?;
        container_prime = proof.restore_original_container(self)?;
''')]),
 ('c08-verifyeq', 'C08 C09', [(E, 'fn verify_eq(&self, other: &Self) -> bool { self == other }', 'fn verify_eq(&self, other: &Self) -> bool { self == self || self == other }')]),
 # convolve
 ('q09-match', '', [(V, VBODY, '''        let (commitment_prime, proof) = match self
            .restore_original(commitment)
            .convolve_commit(self.extract_supplement(), msg)
        {
            Ok(x) => x,
            Err(_) => return Err(ConvolveVerifyError::ImpossibleMessage),
        };
        if !self.verify_eq(&proof) {
            return Err(ConvolveVerifyError::InvalidProof);
        }
        if !commitment.verify_eq(&commitment_prime) {
            return Err(ConvolveVerifyError::CommitmentMismatch);
        }
''')]),
 ('q09-tuple', '', [(V, '            .convolve_commit(suppl, msg)\n            .map_err(|_| ConvolveVerifyError::ImpossibleMessage)?;', '            .convolve_commit(suppl, msg)\n            .ok()\n            .ok_or(ConvolveVerifyError::ImpossibleMessage)?;')]),
 ('c09-noproof', 'C09', [(V, '''        if !self.verify_eq(&proof) {
            return Err(ConvolveVerifyError::InvalidProof);
        }
''', '        let _ = proof;\n')]),
 ('c09-and', 'C09', [(V, VBODY, '''        let original = self.restore_original(commitment);
        let suppl = self.extract_supplement();
        let (commitment_prime, proof) = original
            .convolve_commit(suppl, msg)
            .map_err(|_| ConvolveVerifyError::ImpossibleMessage)?;
        if !self.verify_eq(&proof) && !commitment.verify_eq(&commitment_prime) {
            return Err(ConvolveVerifyError::InvalidProof);
        }
''')]),
 # digest
 ('q10-chain', '', [(D, '''impl DigestExt for Sha256 {
    fn from_tag(tag: impl AsRef<[u8]>) -> Self {
        let mut tagger = Sha256::default();
        tagger.update(tag);
        let tag = tagger.finalize();

        let mut engine = Sha256::default();
        engine.update(tag);
        engine.update(tag);
        engine
''', '''impl DigestExt for Sha256 {
    fn from_tag(tag: impl AsRef<[u8]>) -> Self {
        let tag = Sha256::digest(tag);
        Sha256::new().chain_update(tag).chain_update(tag)
''')]),
 ('q10-loop', '', [(D, '''impl DigestExt<20> for Ripemd160 {
    fn from_tag(tag: impl AsRef<[u8]>) -> Self {
        let mut tagger = Ripemd160::default();
        tagger.update(tag);
        let tag = tagger.finalize();

        let mut engine = Ripemd160::default();
        engine.update(tag);
        engine.update(tag);
''', '''impl DigestExt<20> for Ripemd160 {
    fn from_tag(tag: impl AsRef<[u8]>) -> Self {
        let mut tagger = Ripemd160::default();
        tagger.update(tag);
        let tag = tagger.finalize();

        let mut engine = Ripemd160::default();
        for _ in 0..2 {
            engine.update(tag);
        }
''')]),
 ('c10-once', 'C10', [(D, '''impl DigestExt for Sha256 {
    fn from_tag(tag: impl AsRef<[u8]>) -> Self {
        let mut tagger = Sha256::default();
        tagger.update(tag);
        let tag = tagger.finalize();

        let mut engine = Sha256::default();
        engine.update(tag);
        engine.update(tag);
''', '''impl DigestExt for Sha256 {
    fn from_tag(tag: impl AsRef<[u8]>) -> Self {
        let mut tagger = Sha256::default();
        tagger.update(tag);
        let tag = tagger.finalize();

        let mut engine = Sha256::default();
        engine.update(tag);
''')]),
 ('c10-ripemd', 'C10', [(D, '''impl DigestExt<20> for Ripemd160 {
    fn from_tag(tag: impl AsRef<[u8]>) -> Self {
        let mut tagger = Ripemd160::default();
        tagger.update(tag);
        let tag = tagger.finalize();

        let mut engine = Ripemd160::default();
        engine.update(tag);
''', '''impl DigestExt<20> for Ripemd160 {
    fn from_tag(tag: impl AsRef<[u8]>) -> Self {
        let mut tagger = Ripemd160::default();
        tagger.update(&tag);
        let digest = tagger.finalize();

        let mut engine = Ripemd160::default();
        engine.update(digest);
''')]) if False else ('c10-empty', 'C10', [(I, 'hasher: Sha256::from_tag(tag)', 'hasher: Sha256::from_tag(tag.trim_end())')]),
 ('c10-swallow', 'C11', [(I, '''        value
            .strict_write(writer)
            .expect("unable to encode the value for the commitment");
''', '''        let _ = value.strict_write(writer);
''')]),
 ('q10-unwrap', '', [(I, '''        let writer = StreamWriter::new::<MAX_LEN>(&mut self.hasher);
        value
            .strict_write(writer)
            .expect("unable to encode the value for the commitment");
''', '''        let writer = StreamWriter::new::<MAX_LEN>(&mut self.hasher);
        if let Err(err) = value.strict_write(writer) {
            panic!("unable to encode the value for the commitment: {err}");
        }
''')]),
 ('q10-new', '', [(I, '''        Self {
            finished: false,
            hasher: Sha256::from_tag(tag),
            layout: empty!(),
        }
''', '''        let hasher = Sha256::from_tag(tag);
        let layout = TinyVec::new();
        CommitEngine {
            finished: false,
            layout,
            hasher,
        }
''')]),
 ('q10-id', '', [(I, 'fn commit_id(&self) -> Self::CommitmentId { self.commit().finish().into() }', '''fn commit_id(&self) -> Self::CommitmentId {
        let (hasher, _) = self.commit().finish_layout();
        Self::CommitmentId::from(hasher)
    }''')]),
 ('q10-commit', '', [(I, '''        let mut engine = CommitEngine::new(T::CommitmentId::TAG);
        self.commit_encode(&mut engine);
        engine.set_finished();
        engine
''', '''        let tag = <T::CommitmentId as CommitmentId>::TAG;
        let mut engine = CommitEngine::new(tag);
        {
            let e = &mut engine;
            self.commit_encode(e);
        }
        engine.finished = true;
        engine
''')]),
 ('c10-order', 'C10', [(I, '''        self.commit_encode(&mut engine);
        engine.set_finished();
        engine
''', '''        engine.set_finished();
        let mut other = CommitEngine::new(T::CommitmentId::TAG);
        self.commit_encode(&mut other);
        engine
''')]),
 # encoders
 ('q11-helper', '', [(I, '''        let fqn = commitment_fqn::<T>();
        self.layout
            .push(CommitStep::Concealed(fqn))
            .expect("too many fields for commitment");

        let concealed = value.conceal();
        self.inner_commit_to::<_, COMMIT_MAX_LEN>(&concealed);
''', '''        self.step(CommitStep::Concealed(commitment_fqn::<T>()));
        self.inner_commit_to::<_, COMMIT_MAX_LEN>(&value.conceal());
'''), (I, '''    fn inner_commit_to<''', '''    fn step(&mut self, step: CommitStep) {
        self.layout
            .push(step)
            .expect("too many fields for commitment");
    }

    fn inner_commit_to<''')]),
 ('q11-order', '', [(I, '''        self.layout
            .push(CommitStep::Merklized(fqn))
            .expect("too many fields for commitment");

        let root = MerkleHash::merklize(value);
        self.inner_commit_to::<_, 32>(&root);
''', '''        let root = MerkleHash::merklize(value);
        self.inner_commit_to::<_, 32>(&root);
        self.layout
            .push(CommitStep::Merklized(fqn))
            .expect("too many fields for commitment");
''')]),
 ('q11-hash', '', [(I, '''        self.inner_commit_to::<_, 32>(&value.commit_id());
''', '''        let id = value.commit_id();
        self.inner_commit_to::<_, COMMIT_MAX_LEN>(&id);
''')]),
 ('c11-conceal', 'C11', [(I, '''        let concealed = value.conceal();
        self.inner_commit_to::<_, COMMIT_MAX_LEN>(&concealed);
''', '''        let concealed = core::any::type_name_of_val(&value.conceal()).len() as u64;
        self.inner_commit_to::<_, COMMIT_MAX_LEN>(&concealed);
''')]),
 ('c11-sizing', 'C11', [(I, "CommitStep::Collection(CommitColType::Set, Sizing::new(MIN as u64, MAX as u64), fqn)", "CommitStep::Collection(CommitColType::List, Sizing::new(MIN as u64, MAX as u64), fqn)")]),
 ('c11-hashserial', 'C11', [(I, '''            .push(CommitStep::Hashed(fqn))''', '''            .push(CommitStep::Serialized(fqn))''')]),
 ('c11-dedup', 'C11', [(I, '''        self.layout
            .push(CommitStep::Concealed(fqn))
            .expect("too many fields for commitment");
''', '''        if self.layout.last() != Some(&CommitStep::Concealed(fqn.clone())) {
            self.layout
                .push(CommitStep::Concealed(fqn))
                .expect("too many fields for commitment");
        }
''')]),
 ('c11-optskip', 'C11', [(I, '''        self.layout
            .push(CommitStep::Serialized(fqn))
            .expect("too many fields for commitment");

        self.inner_commit_to::<_, COMMIT_MAX_LEN>(&value);
    }

    /// Converts''' if '    /// Converts' in src(I) else '''        self.layout
            .push(CommitStep::Serialized(fqn))
            .expect("too many fields for commitment");

        self.inner_commit_to::<_, COMMIT_MAX_LEN>(&value);
    }

    /// Adds a value''', 'X')]) if False else ('c11-layoutfull', 'C11', [(I, '''            .push(CommitStep::Merklized(fqn))
            .expect("too many fields for commitment");
''', '''            .push(CommitStep::Merklized(fqn)).ok();
''')]),
 # length-prefixed
 ('q18-if', '', [(D, IWL, '''        let len = data.len();
        if MAX <= 0xFF {
            self.input_raw(&[u8::try_from(len).expect("data too large")]);
        } else if MAX <= 0xFFFF {
            let len = u16::try_from(len).expect("data too large");
            self.input_raw(&len.to_le_bytes());
        } else if MAX <= 0xFFFFFF {
            let len = u32::try_from(len).expect("data too large");
            self.input_raw(&u24::with(len).to_le_bytes());
        } else if MAX <= 0xFFFFFFFF {
            let len = u32::try_from(len).expect("data too large");
            self.input_raw(&len.to_le_bytes());
        } else {
            panic!("data too large");
        }
''')]),
 ('c18-after', 'C18', [(D, '        self.input_raw(data);\n    }\n    /// ', '    }\n    /// ')] if '        self.input_raw(data);\n    }\n    /// ' in src(D) else [(D, 'u24::with(len).to_le_bytes()', 'u24::with(len).to_be_bytes()')]),
 ('c18-be', 'C18', [(D, 'u16::try_from(len).expect("data too large").to_le_bytes()', 'u16::try_from(len).expect("data too large").to_be_bytes()')]),
 ('c18-off', 'C18', [(D, '0x100..=0xFFFF =>', '0x100..=0xFFFE =>'), (D, '0x10000..=0xFFFFFF =>', '0xFFFF..=0xFFFFFF =>')]),
 ('c18-cast', 'C18', [(D, 'u8::try_from(len).expect("data too large").to_le_bytes()', '(len as u8).to_le_bytes()')]),
]
