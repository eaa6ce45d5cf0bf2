
use commit_verify::mpc::*;
use commit_verify::*;
fn main() {}
pub fn reserved() -> ReservedBytes<1> { ReservedBytes([1u8]) } //~ E0423
pub fn entropy(t: &MerkleBlock) -> u64 { t.entropy.unwrap() } //~ E0616
pub fn path(t: &mut MerkleProof) { t.path.clear() } //~ E0616
pub fn id(t: &mut ProtocolId) { t.0 = [0u8; 32].into() } //~ E0616
pub fn message(t: &mut Message) { t.0 = [0u8; 32].into() } //~ E0616
pub fn commitment(t: &mut Commitment) { t.0 = [0u8; 32].into() } //~ E0616
pub fn node(t: &mut MerkleHash) { t.0 = [0u8; 32].into() } //~ E0616
pub fn hash(t: &mut StrictHash) { t.0 = [0u8; 32].into() } //~ E0616
pub fn byte(t: &mut Commitment) { t[0] = 1 } //~ E0594
pub fn slice(t: &mut Message) -> &mut [u8] { t.as_mut() } //~ E0596
pub fn conceal(t: &MerkleBlock, p: ProtocolId) { let mut u = t; let _ = u.conceal_other(p); u = t; let _ = u; } //~ E0596
pub fn hidden(t: MerkleConcealed) -> MerkleBlock { t.into() } //~ E0277
