
use commit_verify::StrictHash;
#[derive(commit_verify::CommitEncode)] //~ E0277
#[commit_encode(strategy = strict, id = StrictHash)]
pub struct A(pub u8);
fn main() {}
