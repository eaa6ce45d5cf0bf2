
use commit_verify::*;
use witness::*;
fn main() {}
pub fn strict(mut e: CommitEngine) { e.commit_to_serialized(&Opaque); } //~ E0277
pub fn hash(mut e: CommitEngine) { e.commit_to_hash(&Item(1)); } //~ E0271
pub fn hash_opaque(mut e: CommitEngine) { e.commit_to_hash(&Opaque); } //~ E0277
pub fn conceal(mut e: CommitEngine) { e.commit_to_concealed(&Text(1)); } //~ E0277
pub fn merkle(mut e: CommitEngine) { e.commit_to_merkle(&Text(1)); } //~ E0277
pub fn layout() { let _ = Opaque::commitment_layout(); } //~ E0599
