// ROOTS: ed25519 ed25519_dalek rand_core
// Assumed contracts on the crates ed25519 and ed25519-dalek (trusted).
pub uninterp spec fn ed_sign(pair: Seq<u8>, msg: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn ed_verify(public: Seq<u8>, msg: Seq<u8>, sig: Seq<u8>) -> bool;
pub uninterp spec fn pk_ok(public: Seq<u8>) -> bool;
// the public key is the one belonging to the secret key
pub uninterp spec fn ed_pair(secret: Seq<u8>, public: Seq<u8>) -> bool;
pub open spec fn sig_ok(b: Seq<u8>) -> bool { b.len() == 64 && b[63] < 32 }
pub axiom fn ax_pair(secret: Seq<u8>, public: Seq<u8>, msg: Seq<u8>)
    requires ed_pair(secret, public)
    ensures secret.len() == 32, public.len() == 32, pk_ok(public), ed_verify(public, msg, ed_sign(secret + public, msg)), sig_ok(ed_sign(secret + public, msg));
pub mod ed25519 {
    use vstd::prelude::*;
    use super::*;
    pub struct Error;
    #[verifier::external_body]
    pub struct Signature { p: core::marker::PhantomData<()> }
    impl View for Signature { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
    impl Signature {
        #[verifier::external_body] pub fn from_bytes(b: &[u8]) -> (r: Result<Signature, Error>) ensures (r is Ok) == sig_ok(b@), r is Ok ==> r->Ok_0@ == b@ { unimplemented!() }
        #[verifier::external_body] pub fn to_bytes(&self) -> (r: [u8; 64]) ensures r@ == self@ { unimplemented!() }
    }
    pub mod signature {
        use vstd::prelude::*;
        pub trait Signer<S> { spec fn signed(&self, msg: Seq<u8>, r: S) -> bool; fn sign(&self, msg: &[u8]) -> (r: S) ensures self.signed(msg@, r); }
        pub trait Verifier<S> { spec fn accepts(&self, msg: Seq<u8>, s: S) -> bool; fn verify(&self, msg: &[u8], s: &S) -> (r: Result<(), super::Error>) ensures (r is Ok) == self.accepts(msg@, *s); }
    }
}
pub mod ed25519_dalek {
    use vstd::prelude::*;
    use super::*;
    use super::ed25519::*;
    use super::ed25519::signature::*;
    #[verifier::external_body]
    pub struct SecretKey { p: core::marker::PhantomData<()> }
    impl View for SecretKey { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
    impl SecretKey {
        #[verifier::external_body] pub fn to_bytes(&self) -> (r: [u8; 32]) ensures r@ == self@ { unimplemented!() }
        #[verifier::external_body] pub fn as_bytes(&self) -> (r: &[u8; 32]) ensures r@ == self@ { unimplemented!() }
    }
    pub struct Keypair { pub secret: SecretKey, pub public: PublicKey }
    impl View for Keypair { type V = Seq<u8>; open spec fn view(&self) -> Seq<u8> { self.secret@ + self.public@ } }
    impl Keypair {
        #[verifier::external_body] pub fn generate<R>(rng: &mut R) -> (r: Keypair) ensures ed_pair(r.secret@, r.public@) { unimplemented!() }
        #[verifier::external_body] pub fn to_bytes(&self) -> (r: [u8; 64]) ensures r@ == self@ { unimplemented!() }
        // secret key, then public key
        #[verifier::external_body] pub fn from_bytes(b: &[u8]) -> (r: Result<Keypair, Error>) ensures (r is Ok) == (b@.len() == 64 && pk_ok(b@.subrange(32, 64))), r is Ok ==> r->Ok_0@ == b@ { unimplemented!() }
    }
    impl Signer<Signature> for Keypair {
        open spec fn signed(&self, msg: Seq<u8>, r: Signature) -> bool { r@ == ed_sign(self@, msg) }
        #[verifier::external_body] fn sign(&self, msg: &[u8]) -> (r: Signature) { unimplemented!() }
    }
    #[verifier::external_body]
    pub struct PublicKey { p: core::marker::PhantomData<()> }
    impl View for PublicKey { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
    impl PublicKey {
        #[verifier::external_body] pub fn to_bytes(&self) -> (r: [u8; 32]) ensures r@ == self@ { unimplemented!() }
        #[verifier::external_body] pub fn as_bytes(&self) -> (r: &[u8; 32]) ensures r@ == self@ { unimplemented!() }
        #[verifier::external_body] pub fn from_bytes(b: &[u8]) -> (r: Result<PublicKey, Error>) ensures (r is Ok) == pk_ok(b@), r is Ok ==> r->Ok_0@ == b@ { unimplemented!() }
    }
    impl Verifier<Signature> for PublicKey {
        open spec fn accepts(&self, msg: Seq<u8>, s: Signature) -> bool { ed_verify(self@, msg, s@) }
        #[verifier::external_body] fn verify(&self, msg: &[u8], s: &Signature) -> (r: Result<(), Error>) { unimplemented!() }
    }
}
pub mod rand_core {
    use vstd::prelude::*;
    pub struct OsRng;
}
