use commit_verify::mpc::*;
use commit_verify::*;
fn main() {}
pub fn tree(t: MerkleTree) -> MerkleTree { MerkleTree { ..t } } //~ E0451
pub fn concealed(t: MerkleConcealed) -> MerkleConcealed { MerkleConcealed { ..t } } //~ E0451
pub fn block(t: MerkleBlock) -> MerkleBlock { MerkleBlock { ..t } } //~ E0451
pub fn proof(t: MerkleProof) -> MerkleProof { MerkleProof { ..t } } //~ E0451
pub fn invalid(t: InvalidProof) -> InvalidProof { InvalidProof { ..t } } //~ E0451
pub fn layout(t: CommitLayout) -> CommitLayout { CommitLayout { ..t } } //~ E0451
