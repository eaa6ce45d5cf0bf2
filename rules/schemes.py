from rules import prop
from rules.seals import variants
from spec import *
from ctx import *

CV = 'commit_verify::'
HOW = ('Every path of the provided verification methods is compared with the outcome the scheme requires, the scheme\'s own '
       'operations (commit, restore, embed, convolve, equality) being uninterpreted functions of their arguments.')


def same_value(q, a, b):
    return q.eq(a, b)


@prop('C07', 'Plain and fallible commitments verify exactly against the recomputed commitment', HOW, floor=6)
def c07(c):
    c.rule('verify is Ok iff commit(msg) == self, else InvalidCommitment; try: Err of try_commit -> InvalidMessage, differing -> InvalidCommitment')
    vi = variants(c, CV + 'commit::VerifyError')

    def E(n):
        return err(adt(CV + 'commit::VerifyError', vi[n]))

    def plain(q, self, msg):
        k = call(CV + 'commit::CommitVerify::commit', msg)
        return 'ret', ok(UNIT) if q.eq(k, self) else E('InvalidCommitment')

    def fallible(q, self, msg):
        r = call(CV + 'commit::TryCommitVerify::try_commit', msg)
        if not q.is_ok(r):
            return 'ret', E('InvalidMessage')
        return 'ret', ok(UNIT) if q.eq(field(r, 0, 0), self) else E('InvalidCommitment')
    c.conform(c.find(CV + 'commit::CommitVerify::verify'), plain, 'plain commitment')
    c.conform(c.find(CV + 'commit::TryCommitVerify::verify'), fallible, 'fallible commitment')


def equality(c):
    """the blanket equality of proofs and containers is the Eq of the type"""
    c.rule('verify_eq of a type with Eq is its ==')
    f = [x for x in c.prog().by_path.get('<T as commit_verify::embed::VerifyEq>::verify_eq', []) if 'body' in x]
    if not f:
        f = [x for k, l in c.prog().by_path.items() if k.endswith('VerifyEq>::verify_eq') for x in l if 'body' in x]
    if not f:
        return c.violate('anchor:VerifyEq', 'VerifyEq', 'no implementation found')
    for x in f:
        c.conform(x, lambda q, self, other: ('ret', TRUE if q.eq(self, other) else FALSE), 'equality')


@prop('C08', 'Embedded commitments verify only when re-embedding gives an equal result', HOW, floor=6)
def c08(c):
    c.rule('Ok iff restore is Ok, embedding msg in the restored container is Ok, its proof verify_eq the given proof and the '
           'resulting container verify_eq self; each failure has its documented error')
    P = CV + 'embed::EmbedVerifyError'
    vi = variants(c, P)

    def spec(q, self, msg, proof):
        r = call(CV + 'embed::EmbedCommitProof::restore_original_container', proof, self)
        if not q.is_ok(r):
            return 'ret', err(field(r, 1, 0))
        orig = field(r, 0, 0)
        e = call(CV + 'embed::EmbedCommitVerify::embed_commit', orig, msg)
        if not q.is_ok(e):
            return 'ret', err(adt(P, vi['InvalidMessage'], field(e, 1, 0)))
        after = mk('out', 0, e)
        if not q.verify_eq(field(e, 0, 0), proof):
            return 'ret', err(adt(P, vi['ProofMismatch']))
        if not q.verify_eq(self, after):
            return 'ret', err(adt(P, vi['CommitmentMismatch']))
        return 'ret', ok(UNIT)
    c.conform(c.find(CV + 'embed::EmbedCommitVerify::verify'), spec, 'embedded commitment')
    equality(c)


@prop('C09', 'Convolved commitments verify only when re-convolving gives an equal result', HOW, floor=6)
def c09(c):
    c.rule('Ok iff convolving the restored source with the extracted supplement and msg is Ok, the new proof verify_eq self and '
           'the new commitment verify_eq the given one; each failure has its documented error')
    P = CV + 'convolve::ConvolveVerifyError'
    vi = variants(c, P)

    def spec(q, self, msg, commitment):
        CP = CV + 'convolve::ConvolveCommitProof::'
        orig = call(CP + 'restore_original', self, commitment)
        r = call(CV + 'convolve::ConvolveCommit::convolve_commit', orig, call(CP + 'extract_supplement', self), msg)
        if not q.is_ok(r):
            return 'ret', err(adt(P, vi['ImpossibleMessage']))
        res = field(r, 0, 0)
        if not q.verify_eq(self, field(res, 0, 1)):
            return 'ret', err(adt(P, vi['InvalidProof']))
        if not q.verify_eq(commitment, field(res, 0, 0)):
            return 'ret', err(adt(P, vi['CommitmentMismatch']))
        return 'ret', ok(UNIT)
    c.conform(c.find(CV + 'convolve::ConvolveCommitProof::verify'), spec, 'convolved commitment')
    equality(c)
