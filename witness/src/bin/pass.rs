//! The right way: all of this compiles.
use commit_verify::mpc::{self, MerkleBlock, MerkleProof, MerkleTree, Message, ProtocolId};
use commit_verify::{CommitEngine, CommitId, CommitLayout, CommitVerify, MerkleBuoy, MerkleHash, ReservedBytes, StrictHash};
use single_use_seals::SealWitness;
use witness::seals::*;
use witness::*;

fn shared<T: Send + Sync + 'static>() {}

fn ids(t: &MerkleTree, p: ProtocolId, m: Message, proof: &MerkleProof) {
    let _: u32 = t.protocol_id_pos(p);
    let _: mpc::Commitment = proof.convolve(p, m).unwrap();
    let _: MerkleHash = t.root();
    let _: mpc::Commitment = t.commit_id();
    let _: StrictHash = Text(1).commit_id();
    let _: MerkleHash = Item(1).commit_id();
}

fn engine(mut e: CommitEngine) {
    e.commit_to_serialized(&Text(1));
    e.commit_to_hash(&Text(1));
    e.commit_to_concealed(&Secret(1));
    e.commit_to_merkle(&Items(Default::default()));
    let _ = e.finish();
}

fn block(mut a: MerkleBlock, b: MerkleBlock, p: ProtocolId) {
    let _ = a.conceal_except([p]);
    let _ = a.merge_reveal(b);
    let _ = a.to_merkle_proof(p);
    let _ = a.into_merkle_proof(p);
}

fn scheme(c: &Cmt) { let _ = c.verify(&Text(1)); }

fn seal(w: &SealWitness<Red>) {
    let _ = w.verify_seal_closing(Red(1), [0; 4]);
    let _ = w.verify_seal_closing(&Red(1), [0; 4]);
    let _ = w.verify_seals_closing([Red(1), Red(2)], [0; 4]);
}

fn main() {
    shared::<MerkleTree>();
    shared::<MerkleBlock>();
    shared::<MerkleProof>();
    shared::<mpc::MerkleConcealed>();
    shared::<mpc::MultiSource>();
    shared::<mpc::Commitment>();
    shared::<ProtocolId>();
    shared::<Message>();
    shared::<MerkleHash>();
    shared::<StrictHash>();
    shared::<CommitEngine>();
    shared::<CommitLayout>();
    shared::<MerkleBuoy<amplify::num::u5>>();
    shared::<ReservedBytes<4>>();
    shared::<mpc::Error>();
    shared::<mpc::MergeError>();
    shared::<mpc::InvalidProof>();
    shared::<mpc::LeafNotKnown>();
    shared::<SealWitness<Red>>();
    shared::<single_use_seals::SealError<Red>>();
    shared::<single_use_seals::NoWitness<Red>>();
    let _ = (ids, engine, block, scheme, seal);
}
