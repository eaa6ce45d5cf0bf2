
use commit_verify::mpc::*;
use commit_verify::{CommitId, MerkleHash, StrictHash};
use witness::*;
fn main() {}
pub fn position(t: &MerkleTree, m: Message) { t.protocol_id_pos(m); } //~ E0308
pub fn position_c(t: &MerkleTree, m: Commitment) { t.protocol_id_pos(m); } //~ E0308
pub fn position_b(t: &MerkleBlock, m: Message) { t.protocol_id_pos(m); } //~ E0308
pub fn swapped(x: &MerkleProof, p: ProtocolId, m: Message) { let _ = x.convolve(m, p); } //~ E0308
pub fn proof(x: &MerkleBlock, m: Message) { let _ = x.to_merkle_proof(m); } //~ E0308
pub fn known(x: &mut MerkleBlock, m: Message) { let _ = x.conceal_other(m); } //~ E0308
pub fn merge(x: &mut MerkleBlock, q: &MerkleProof, p: ProtocolId, m: Message) { let _ = x.merge_reveal_path(q, m, p); } //~ E0308
pub fn leaf(p: ProtocolId, m: Message) { let _ = Leaf::inhabited(m, p); } //~ E0308
pub fn root(t: &MerkleTree) -> Commitment { t.root() } //~ E0308
pub fn commitment(t: &MerkleTree) -> MerkleHash { t.commit_id() } //~ E0308
pub fn kind(t: &Text) -> MerkleHash { t.commit_id() } //~ E0308
pub fn kind2(t: &Item) -> StrictHash { t.commit_id() } //~ E0308
pub fn from_message(m: Message) -> ProtocolId { ProtocolId::from(m) } //~ E0277
pub fn from_id(m: ProtocolId) -> Message { Message::from(m) } //~ E0277
pub fn from_root(m: MerkleHash) -> Commitment { Commitment::from(m) } //~ E0277
pub fn into_root(m: Commitment) -> MerkleHash { m.into() } //~ E0277
pub fn equal(m: Message, p: ProtocolId) -> bool { m == p } //~ E0308
pub fn equal_root(c: Commitment, r: MerkleHash) -> bool { c == r } //~ E0308
