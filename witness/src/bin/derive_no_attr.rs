
#[derive(commit_verify::CommitEncode)] //~ commit_encode
pub struct A(pub u8);
fn main() {}
