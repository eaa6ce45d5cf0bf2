"""New functions which borrow a guarded value mutably."""
B = 'commit_verify/src/mpc/block.rs'
AT = '''    /// Converts the merkle block into a merkle proof for the inclusion of a
    /// commitment under given `protocol_id`.
    pub fn into_merkle_proof('''
EDITS = [
    ('m44-compose', '', [(B, AT, '''    /// Merges a block in, and conceals everything except of one leaf.
    pub fn merge_and_conceal(
        &mut self,
        other: MerkleBlock,
        protocol_id: ProtocolId,
    ) -> Result<usize, MergeError> {
        self.merge_reveal(other)?;
        Ok(self.conceal_except([protocol_id]).unwrap_or_default())
    }

''' + AT)]),
    ('m44-read', '', [(B, AT, '''    /// Counts the nodes.
    pub fn nodes(&mut self) -> usize { self.cross_section.len() }

''' + AT)]),
    ('b44-compose', 'C44', [(B, AT, '''    /// Merges a block in, and conceals everything except of one leaf.
    pub fn merge_and_conceal(
        &mut self,
        other: MerkleBlock,
        protocol_id: ProtocolId,
    ) -> Result<usize, MergeError> {
        self.entropy = self.entropy.or(other.entropy);
        self.merge_reveal(other)?;
        Ok(self.conceal_except([protocol_id]).unwrap_or_default())
    }

''' + AT)]),
]
