"""P15: what binds a ciphertext to its content, document and predecessors."""
from vp.verus import Fn, Unit
from . import core, cgka

SK, SV, PK, EN, KY, DOC = "keyhive_crypto/src/symmetric_key.rs", "keyhive_crypto/src/siv.rs", "beekem/src/pcs_key.rs", "beekem/src/encrypted.rs", "beekem/src/keys.rs", "keyhive_core/src/principal/document.rs"
PRE = core.std("ax::injective", "ax::sizes", "ax::shared", "ax_n::key_model", "ax_cr::key_model") + core.hashkey("N") + core.hashkey("Cr") + r"""
use std::collections::*;
/// the ideal functions the code is built from
pub mod ax { use super::*;
    pub uninterp spec fn aead(k: [u8; 32], n: [u8; 24], ad: Seq<u8>, p: Seq<u8>) -> Seq<u8>;
    pub uninterp spec fn xof24(p: Seq<u8>) -> [u8; 24];
    pub uninterp spec fn kdf(ctx: Seq<char>, p: Seq<u8>) -> [u8; 32];
    pub uninterp spec fn kdf_sym(p: Seq<u8>) -> SymmetricKey;
    pub uninterp spec fn sep() -> Seq<u8>;
    pub uninterp spec fn litb(s: Seq<char>) -> Seq<u8>;
    /// how a digest prints
    pub uninterp spec fn shown<D>(d: D) -> Seq<u8>;
    pub uninterp spec fn skb(k: ShareSecretKey) -> Seq<u8>;
    pub uninterp spec fn pub_of(k: ShareSecretKey) -> ShareKey;
    pub uninterp spec fn dh_key(s: ShareSecretKey, p: ShareKey) -> SymmetricKey;
    pub uninterp spec fn ph(k: PcsKey) -> Digest<PcsKey>;
    pub uninterp spec fn shd(k: ShareSecretKey) -> Digest<ShareSecretKey>;
    pub uninterp spec fn crd(k: Cr) -> Digest<Cr>;
    pub uninterp spec fn prd(v: Seq<Cr>) -> Digest<Vec<Cr>>;
    /// idealised: no collisions
    pub broadcast axiom fn injective(k: [u8; 32], n: [u8; 24], ad: Seq<u8>, p: Seq<u8>, k2: [u8; 32], n2: [u8; 24], ad2: Seq<u8>, p2: Seq<u8>)
        ensures #[trigger] aead(k, n, ad, p) == #[trigger] aead(k2, n2, ad2, p2) ==> k == k2 && n == n2 && ad == ad2 && p == p2;
    pub broadcast axiom fn sizes(k: ShareSecretKey) ensures (#[trigger] skb(k)).len() == 32;
    /// Diffie-Hellman: both ends get the same key
    pub broadcast axiom fn shared(a: ShareSecretKey, b: ShareSecretKey) ensures #[trigger] dh_key(a, pub_of(b)) == dh_key(b, pub_of(a));
    pub axiom fn sym_inj(a: [u8; 32], b: [u8; 32]) ensures kdf_sym(a@) == kdf_sym(b@) ==> a@ == b@;
    pub axiom fn skb_inj(a: ShareSecretKey, b: ShareSecretKey) ensures skb(a) == skb(b) ==> a == b;
    pub axiom fn shown_inj<D>(a: Digest<D>, b: Digest<D>) ensures shown(a).len() == 72, shown(b).len() == 72, shown(a) == shown(b) ==> a == b;
    pub axiom fn crd_inj(a: Cr, b: Cr) ensures crd(a) == crd(b) ==> a == b;
    pub axiom fn shd_inj(a: ShareSecretKey, b: ShareSecretKey) ensures shd(a) == shd(b) ==> a == b;
}
pub use ax::*;
#[verifier::reject_recursive_types(T)] #[verifier::external_body] pub struct Digest<T> { x: std::marker::PhantomData<T> }
impl<T> Clone for Digest<T> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl<T> Copy for Digest<T> {}
#[derive(Clone, Copy)] pub struct SymmetricKey(pub [u8; 32]);
#[derive(Clone, Copy)] pub struct Siv(pub [u8; 24]);
""" + core.opaque("ShareSecretKey") + core.opaque("ShareKey") + core.opaque("DocumentId") + r"""
#[derive(Clone, Copy)] pub struct PcsKey(pub ShareSecretKey);
pub struct Error;
pub enum CgkaError { SecretKeyNotFound, Encryption(Error), Decryption, NotInitialized, Other }
pub type XNonce = [u8; 24];
#[verifier::external_body] pub struct XChaCha20Poly1305 { x: [u8; 32] }
#[verifier::external_body] pub fn xchacha(k: &[u8; 32]) -> (r: XChaCha20Poly1305) ensures r.k() == *k { unimplemented!() }
impl XChaCha20Poly1305 {
    pub uninterp spec fn k(&self) -> [u8; 32];
    #[verifier::external_body] pub fn encrypt_in_place(&self, n: &XNonce, ad: &[u8], data: &mut Vec<u8>) -> (r: Result<(), Error>) ensures r is Ok ==> final(data)@ == aead(self.k(), *n, ad@, old(data)@) { unimplemented!() }
    /// opens exactly what was sealed with this key, nonce and associated data
    #[verifier::external_body] pub fn decrypt_in_place(&self, n: &XNonce, ad: &[u8], data: &mut Vec<u8>) -> (r: Result<(), Error>)
        ensures r is Ok ==> old(data)@ == aead(self.k(), *n, ad@, final(data)@), r is Err ==> forall|p: Seq<u8>| old(data)@ != #[trigger] aead(self.k(), *n, ad@, p) { unimplemented!() }
}
#[verifier::external_body] pub fn separator() -> (r: &'static [u8]) ensures r@ == sep() { unimplemented!() }
#[verifier::external_body] pub struct Hasher { x: u64 }
impl Hasher {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn update(&mut self, b: &[u8]) ensures final(self)@ == old(self)@ + b@ { unimplemented!() }
}
#[verifier::external_body] pub fn xof_fill(h: &Hasher, buf: &mut [u8; 24]) ensures *final(buf) == xof24(h@) { unimplemented!() }
#[verifier::external_body] pub fn split24(b: &[u8]) -> (r: Option<(&[u8; 24], &[u8])>) ensures r is Some == (b@.len() >= 24), r is Some ==> b@ == (r->0).0@ + (r->0).1@ { unimplemented!() }
#[verifier::external_body] pub fn copy(b: &[u8]) -> (r: Vec<u8>) ensures r@ == b@ { unimplemented!() }
#[verifier::external_body] pub fn derive_key(ctx: &str, b: &[u8]) -> (r: [u8; 32]) ensures r == kdf(ctx@, b@) { unimplemented!() }
#[verifier::external_body] pub fn static_context() -> (r: &'static str) ensures r@ == ctx() { unimplemented!() }
pub uninterp spec fn ctx() -> Seq<char>;
#[verifier::external_body] pub struct Text { x: u64 }
impl Text {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body] pub fn lit(self, s: &str) -> (r: Text) ensures r@ == self@ + litb(s@) { unimplemented!() }
    #[verifier::external_body] pub fn show<D: Show>(self, d: &D) -> (r: Text) ensures r@ == self@ + d.text() { unimplemented!() }
    #[verifier::external_body] pub fn into_bytes(self) -> (r: Vec<u8>) ensures r@ == self@ { unimplemented!() }
}
#[verifier::external_body] pub fn text() -> (r: Text) ensures r@ == Seq::<u8>::empty() { unimplemented!() }
pub trait Show { spec fn text(&self) -> Seq<u8>; }
impl<T> Show for Digest<T> { open spec fn text(&self) -> Seq<u8> { shown(*self) } }
impl<T> Show for &Digest<T> { open spec fn text(&self) -> Seq<u8> { shown(**self) } }
pub trait VHash { type D; spec fn hsp(&self) -> Self::D; fn vh(&self) -> (r: Self::D) ensures r == self.hsp(); }
impl VHash for PcsKey { type D = Digest<PcsKey>; open spec fn hsp(&self) -> Digest<PcsKey> { ph(*self) } #[verifier::external_body] fn vh(&self) -> (r: Digest<PcsKey>) { unimplemented!() } }
impl VHash for ShareSecretKey { type D = Digest<ShareSecretKey>; open spec fn hsp(&self) -> Digest<ShareSecretKey> { shd(*self) } #[verifier::external_body] fn vh(&self) -> (r: Digest<ShareSecretKey>) { unimplemented!() } }
impl VHash for Cr { type D = Digest<Cr>; open spec fn hsp(&self) -> Digest<Cr> { crd(*self) } #[verifier::external_body] fn vh(&self) -> (r: Digest<Cr>) { unimplemented!() } }
impl VHash for &Cr { type D = Digest<Cr>; open spec fn hsp(&self) -> Digest<Cr> { crd(**self) } #[verifier::external_body] fn vh(&self) -> (r: Digest<Cr>) { unimplemented!() } }
pub fn vhash<X: VHash>(x: &X) -> (r: X::D) ensures r == x.hsp() { x.vh() }
impl ShareSecretKey {
    #[verifier::external_body] pub fn as_slice(&self) -> (r: &[u8]) ensures r@ == skb(*self) { unimplemented!() }
    #[verifier::external_body] pub fn derive_symmetric_key(&self, o: &ShareKey) -> (r: SymmetricKey) ensures r == dh_key(*self, *o) { unimplemented!() }
}
/// the bytes of a secret key
#[verifier::external_body] pub fn secret_bytes(s: &ShareSecretKey) -> (r: Vec<u8>) ensures r@ == skb(*s) { unimplemented!() }
impl SymmetricKey { #[verifier::external_body] pub fn derive_from_bytes(b: &[u8]) -> (r: SymmetricKey) ensures r == kdf_sym(b@) { unimplemented!() } }
pub struct ApplicationSecret { pub key: SymmetricKey, pub pcs_key_hash: Digest<PcsKey>, pub pcs_update_op_hash: N, pub nonce: Siv, pub content_ref: Cr, pub pred_refs: Digest<Vec<Cr>> }
pub struct EncryptedContent { pub nonce: Siv, pub ciphertext: Vec<u8>, pub pcs_key_hash: Digest<PcsKey>, pub pcs_update_op_hash: N, pub content_ref: Cr, pub pred_refs: Digest<Vec<Cr>> }
impl EncryptedContent { #[verifier::external_body] pub fn new(nonce: Siv, ciphertext: Vec<u8>, pcs_key_hash: Digest<PcsKey>, pcs_update_op_hash: N, content_ref: Cr, pred_refs: Digest<Vec<Cr>>) -> (r: Self) ensures r == (EncryptedContent { nonce, ciphertext, pcs_key_hash, pcs_update_op_hash, content_ref, pred_refs }) { unimplemented!() } }
pub struct EncryptedSecret { pub nonce: Siv, pub ciphertext: Vec<u8>, pub paired_pk: ShareKey }
impl EncryptedSecret { #[verifier::external_body] pub fn new(nonce: Siv, ciphertext: Vec<u8>, paired_pk: ShareKey) -> (r: Self) ensures r == (EncryptedSecret { nonce, ciphertext, paired_pk }) { unimplemented!() } }
#[verifier::external_body] pub struct ShareKeyMap { x: u64 }
impl ShareKeyMap { pub uninterp spec fn view(&self) -> Map<ShareKey, ShareSecretKey>;
    #[verifier::external_body] pub fn get(&self, k: &ShareKey) -> (r: Option<&ShareSecretKey>) ensures r is Some == self@.dom().contains(*k), r is Some ==> *(r->0) == self@[*k] { unimplemented!() } }
pub trait OrErr<X> { fn or_err<E>(self, e: E) -> Result<X, E>; }
impl<X, E0> OrErr<X> for Result<X, E0> { #[verifier::external_body] fn or_err<E>(self, e: E) -> (r: Result<X, E>) ensures r is Ok == self is Ok, self is Ok ==> r->Ok_0 == self->Ok_0, self is Err ==> r->Err_0 == e { unimplemented!() } }

/// the nonce depends on everything it should
pub open spec fn siv_of(k: [u8; 32], p: Seq<u8>, doc: Seq<u8>) -> [u8; 24] { xof24(sep() + doc + k@ + p) }
pub open spec fn context(a: Digest<ShareSecretKey>, b: Digest<Vec<Cr>>, c: Digest<Cr>) -> Seq<u8> { litb("epoch:"@) + shown(a) + litb("/pred:"@) + shown(b) + litb("/content:"@) + shown(c) }
/// the key of one piece of content
pub open spec fn key_of(k: PcsKey, c: Cr, preds: Digest<Vec<Cr>>) -> SymmetricKey { kdf_sym(kdf(ctx(), skb(k.0) + context(shd(k.0), preds, crd(c)))@) }
pub open spec fn sealed(k: SymmetricKey, n: Siv, p: Seq<u8>) -> Seq<u8> { aead(k.0, n.0, sep(), p) }

proof fn cat_eq(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>, d: Seq<u8>) requires a.len() == c.len(), a + b == c + d ensures a == c, b == d
{ assert(a =~= (a + b).take(a.len() as int)); assert(c =~= (c + d).take(a.len() as int)); assert(b =~= (a + b).skip(a.len() as int)); assert(d =~= (c + d).skip(a.len() as int)); }
/// a collision of the key derivation; of the nonce function
pub open spec fn kdf_clash(a: Seq<u8>, b: Seq<u8>) -> bool { a != b && kdf(ctx(), a) == kdf(ctx(), b) }
pub open spec fn xof_clash(a: Seq<u8>, b: Seq<u8>) -> bool { a != b && xof24(a) == xof24(b) }
pub open spec fn material(k: PcsKey, c: Cr, p: Digest<Vec<Cr>>) -> Seq<u8> { skb(k.0) + context(shd(k.0), p, crd(c)) }
/// different document key, content reference or predecessors: different content key
pub proof fn bound(k: PcsKey, c: Cr, p: Digest<Vec<Cr>>, k2: PcsKey, c2: Cr, p2: Digest<Vec<Cr>>) ensures key_of(k, c, p) == key_of(k2, c2, p2) ==> (k == k2 && c == c2 && p == p2) || kdf_clash(material(k, c, p), material(k2, c2, p2))
{
    if key_of(k, c, p) == key_of(k2, c2, p2) && !kdf_clash(material(k, c, p), material(k2, c2, p2)) {
        let x = context(shd(k.0), p, crd(c)); let y = context(shd(k2.0), p2, crd(c2));
        sym_inj(kdf(ctx(), skb(k.0) + x), kdf(ctx(), skb(k2.0) + y)); let a = kdf(ctx(), skb(k.0) + x); let b = kdf(ctx(), skb(k2.0) + y); assert(a@ == b@); assert(a =~= b);
        cat_eq(skb(k.0), x, skb(k2.0), y); skb_inj(k.0, k2.0);
        shown_inj(shd(k.0), shd(k2.0)); shown_inj(p, p2); shown_inj(crd(c), crd(c2)); crd_inj(c, c2);
        let l1 = litb("epoch:"@); let l2 = litb("/pred:"@); let l3 = litb("/content:"@);
        let h = l1 + shown(shd(k.0)) + l2; let h2 = l1 + shown(shd(k2.0)) + l2; 
        assert(x =~= (h + shown(p) + l3) + shown(crd(c))); assert(y =~= (h2 + shown(p2) + l3) + shown(crd(c2)));
        cat_eq(h + shown(p) + l3, shown(crd(c)), h2 + shown(p2) + l3, shown(crd(c2)));
        cat_eq(h + shown(p), l3, h2 + shown(p2), l3); cat_eq(h, shown(p), h2, shown(p2));
    }
}
/// what opens is what was sealed; the same ciphertext opens under no other key, nonce, reference or predecessors
pub proof fn only_original(k: PcsKey, c: Cr, preds: Digest<Vec<Cr>>, n: Siv, p: Seq<u8>, k2: PcsKey, c2: Cr, preds2: Digest<Vec<Cr>>, n2: Siv, p2: Seq<u8>)
    requires sealed(key_of(k, c, preds), n, p) == sealed(key_of(k2, c2, preds2), n2, p2) ensures p == p2, n.0 == n2.0, (k == k2 && c == c2 && preds == preds2) || kdf_clash(material(k, c, preds), material(k2, c2, preds2))
{ bound(k, c, preds, k2, c2, preds2); assert(key_of(k, c, preds).0 == key_of(k2, c2, preds2).0); assert(key_of(k, c, preds) == key_of(k2, c2, preds2)); }
/// under one key and documents named by as many bytes: another plaintext or document, another nonce
pub proof fn distinct_nonces(k: [u8; 32], p: Seq<u8>, d: Seq<u8>, p2: Seq<u8>, d2: Seq<u8>) requires d.len() == d2.len() ensures siv_of(k, p, d) == siv_of(k, p2, d2) ==> (p == p2 && d == d2) || xof_clash(sep() + d + k@ + p, sep() + d2 + k@ + p2)
{ if siv_of(k, p, d) == siv_of(k, p2, d2) && !xof_clash(sep() + d + k@ + p, sep() + d2 + k@ + p2) { cat_eq(sep() + d + k@, p, sep() + d2 + k@, p2); cat_eq(sep() + d, k@, sep() + d2, k@); cat_eq(sep(), d, sep(), d2); } }
/// a tree secret encrypted for a key pair is opened at both ends
pub proof fn both_ends(a: ShareSecretKey, b: ShareSecretKey) ensures dh_key(a, pub_of(b)) == dh_key(b, pub_of(a)) {}
"""
RW = [("XChaCha20Poly1305::new(&$k.into())", "xchacha(&$k)"), ("SEPARATOR", "separator()"), ("blake3::Hasher::new()", "Hasher::new()"), ("$$h.finalize_xof().fill(&mut $$b)", "xof_fill(&$$h, &mut $$b)"),
      ("(&self.0).into()", "&self.0"), ("self.0.clone().as_slice().to_vec()", "copy(self.0.as_slice())"), ("$$p.to_vec()", "copy($$p)"), ("Vec::with_capacity($x)", "Vec::new()"), ("extend_from_slice($$n.as_bytes())", "extend_from_slice($$n.as_bytes().as_slice())"),
      ("extend_from_slice(&$$n)", "extend_from_slice($$n.as_slice())"), ("$$b.split_first_chunk::<24>()", "split24($$b)"), ("chacha20poly1305::Error", "Error"), ("Siv::from($x)", "Siv($x)"),
      ("&self.0 }", "&self.0 }"), ("STATIC_CONTEXT", "static_context()"), ("blake3::derive_key($a, $b)", "derive_key($a, $b)"), ("derive_from_bytes(&$$b)", "derive_from_bytes($$b.as_slice())"), ("Digest::hash($x)", "vhash($x)"), ("@format", ""),
      (".map_err(|$$e| $x)", ".or_err(CgkaError::Decryption)"), (".map_err(CgkaError::Encryption)", ".or_err(CgkaError::Other)"), ("(&secret).into()", "secret_bytes(&secret)")]
F = lambda path, ty, name, sig, params, rw=(), **k: Fn(path, ty, name, sig, params, rewrites=list(rw) + RW, wrap=f"impl {ty}" if ty else None, **k)
NO = "[0; 24]"
fns = [
    F(SK, "SymmetricKey", "as_slice", "pub fn as_slice(&self) -> (r: &[u8]) ensures r@ == self.0@", ["self"], [("&self.0", "self.0.as_slice()")]),
    F(SK, "SymmetricKey", "to_xchacha", "pub fn to_xchacha(&self) -> (r: XChaCha20Poly1305) ensures r.k() == self.0", ["self"]),
    F(SK, "SymmetricKey", "try_encrypt", "pub fn try_encrypt(&self, nonce: Siv, data: &mut Vec<u8>) -> (r: Result<(), Error>) ensures r is Ok ==> final(data)@ == sealed(*self, nonce, old(data)@)", ["self", "nonce", "data"]),
    F(SK, "SymmetricKey", "try_decrypt", "pub fn try_decrypt(&self, nonce: Siv, data: &mut Vec<u8>) -> (r: Result<(), Error>) ensures r is Ok ==> old(data)@ == sealed(*self, nonce, final(data)@), r is Err ==> forall|p: Seq<u8>| old(data)@ != #[trigger] sealed(*self, nonce, p)", ["self", "nonce", "data"]),
    F(SK, "SymmetricKey", "try_seal", "pub fn try_seal(&self, plaintext: &[u8], associated_data: &[u8]) -> (r: Result<Vec<u8>, Error>) ensures r is Ok ==> r->Ok_0@ == siv_of(self.0, plaintext@, associated_data@)@ + sealed(*self, Siv(siv_of(self.0, plaintext@, associated_data@)), plaintext@)", ["self", "plaintext", "associated_data"],
      rw=[("Ok(out)", "({ proof { assert(out@ =~= nonce.0@ + buf@); } Ok(out) })")]),
    F(SK, "SymmetricKey", "try_open", "pub fn try_open(&self, blob: &[u8]) -> (r: Result<Vec<u8>, Error>) ensures r is Ok ==> exists|n: Siv| blob@ == n.0@ + #[trigger] sealed(*self, n, r->Ok_0@), r is Err ==> forall|n: Siv, p: Seq<u8>| blob@ != n.0@ + #[trigger] sealed(*self, n, p)", ["self", "blob"],
      rw=[("return Err(chacha20poly1305::Error)", "proof { too_short(blob@); } return Err(Error)"), ("self.try_decrypt(nonce, &mut buf)?", "({ proof { open_only(*self, nonce, ciphertext@, blob@); } self.try_decrypt(nonce, &mut buf)? })"), ("Ok(buf)", "({ let ghost bb = buf@; proof { assert(blob@ == nonce.0@ + sealed(*self, nonce, bb)); assert(exists|n: Siv| blob@ == n.0@ + #[trigger] sealed(*self, n, bb)); } let r = Ok(buf); proof { assert(r->Ok_0@ == bb); } r })")]),
    F(SV, "Siv", "new", "pub fn new(key: &SymmetricKey, plaintext: &[u8], doc_id: &[u8]) -> (r: Siv) ensures r.0 == siv_of(key.0, plaintext@, doc_id@)", ["key", "plaintext", "doc_id"], [("let mut buf = [0; 24];", "let mut buf: [u8; 24] = [0; 24]; proof { assert(hasher@ =~= sep() + doc_id@ + key.0@ + plaintext@); }")]),
    F(SV, "Siv", "as_xnonce", "pub fn as_xnonce(&self) -> (r: &XNonce) ensures *r == self.0", ["self"]),
    F(SV, "Siv", "as_bytes", "pub fn as_bytes(&self) -> (r: &[u8; 24]) ensures *r == self.0", ["self"]),
    F(PK, "PcsKey", "derive_application_secret", "pub fn derive_application_secret(&self, nonce: &Siv, content_ref: &Cr, pred_refs: &Digest<Vec<Cr>>, pcs_update_op_hash: &N) -> (r: ApplicationSecret) ensures r == (ApplicationSecret { key: key_of(*self, *content_ref, *pred_refs), pcs_key_hash: ph(*self), pcs_update_op_hash: *pcs_update_op_hash, nonce: *nonce, content_ref: *content_ref, pred_refs: *pred_refs })",
      ["self", "nonce", "content_ref", "pred_refs", "pcs_update_op_hash"], [("content_ref.clone()", "*content_ref"), ("key_material.append(&mut app_secret_context);", "proof { assert(app_secret_context@ =~= context(shd(self.0), *pred_refs, crd(*content_ref))); } key_material.append(&mut app_secret_context);")]),
    F(PK, "ApplicationSecret", "new", "pub fn new(key: SymmetricKey, pcs_key_hash: Digest<PcsKey>, pcs_update_op_hash: N, nonce: Siv, content_ref: Cr, pred_refs: Digest<Vec<Cr>>) -> (r: Self) ensures r == (ApplicationSecret { key, pcs_key_hash, pcs_update_op_hash, nonce, content_ref, pred_refs })", ["key", "pcs_key_hash", "pcs_update_op_hash", "nonce", "content_ref", "pred_refs"]),
    F(PK, "ApplicationSecret", "key", "pub fn key(&self) -> (r: SymmetricKey) ensures r == self.key", ["self"]),
    F(PK, "ApplicationSecret", "try_encrypt", "pub fn try_encrypt(&self, plaintext: &[u8]) -> (r: Result<EncryptedContent, Error>) ensures r is Ok ==> r->Ok_0.ciphertext@ == sealed(self.key, self.nonce, plaintext@) && r->Ok_0.nonce == self.nonce && r->Ok_0.pcs_key_hash == self.pcs_key_hash && r->Ok_0.pcs_update_op_hash == self.pcs_update_op_hash && r->Ok_0.content_ref == self.content_ref && r->Ok_0.pred_refs == self.pred_refs", ["self", "plaintext"], [("self.content_ref.clone()", "self.content_ref")]),
    F(EN, "EncryptedContent", "try_decrypt", "pub fn try_decrypt(&self, key: SymmetricKey) -> (r: Result<Vec<u8>, Error>) ensures r is Ok ==> self.ciphertext@ == sealed(key, self.nonce, r->Ok_0@), r is Err ==> forall|p: Seq<u8>| self.ciphertext@ != #[trigger] sealed(key, self.nonce, p)", ["self", "key"], [("self.ciphertext.clone()", "copy(self.ciphertext.as_slice())")]),
    F(EN, "EncryptedSecret", "try_encrypter_decrypt", "pub fn try_encrypter_decrypt(&self, encrypter_secret_key: &ShareSecretKey) -> (r: Result<Vec<u8>, Error>) ensures ({ let k = dh_key(*encrypter_secret_key, self.paired_pk); (r is Ok ==> self.ciphertext@ == sealed(k, self.nonce, r->Ok_0@)) && (r is Err ==> forall|p: Seq<u8>| self.ciphertext@ != #[trigger] sealed(k, self.nonce, p)) })", ["self", "encrypter_secret_key"], [("self.ciphertext.clone()", "copy(self.ciphertext.as_slice())")]),
    F(KY, "ShareKeyMap", "try_decrypt_encryption", "pub fn try_decrypt_encryption(&self, encrypter_pk: ShareKey, encrypted: &EncryptedSecret) -> (r: Result<Vec<u8>, CgkaError>) ensures r is Ok ==> self@.dom().contains(encrypted.paired_pk) && encrypted.ciphertext@ == sealed(dh_key(self@[encrypted.paired_pk], encrypter_pk), encrypted.nonce, r->Ok_0@), r is Err && self@.dom().contains(encrypted.paired_pk) ==> forall|p: Seq<u8>| encrypted.ciphertext@ != #[trigger] sealed(dh_key(self@[encrypted.paired_pk], encrypter_pk), encrypted.nonce, p)", ["self", "encrypter_pk", "encrypted"],
      [("encrypted.ciphertext.clone()", "copy(encrypted.ciphertext.as_slice())")]),
    F(EN, None, "encrypt_secret", "pub fn encrypt_secret(doc_id: &[u8], secret: ShareSecretKey, sk: &ShareSecretKey, paired_pk: &ShareKey) -> (r: Result<EncryptedSecret, CgkaError>) ensures r is Ok ==> ({ let k = dh_key(*sk, *paired_pk); let n = Siv(siv_of(k.0, skb(secret), doc_id@)); r->Ok_0.nonce == n && r->Ok_0.ciphertext@ == sealed(k, n, skb(secret)) && r->Ok_0.paired_pk == *paired_pk })", ["doc_id", "secret", "sk", "paired_pk"],
      [("Siv::new(&key, &ciphertext, doc_id)", "Siv::new(&key, ciphertext.as_slice(), doc_id)")]),
]
LEM = r"""
pub proof fn too_short(b: Seq<u8>) ensures b.len() < 24 ==> forall|n: Siv, p: Seq<u8>, k: SymmetricKey| b != n.0@ + #[trigger] sealed(k, n, p)
{ if b.len() < 24 { assert forall|n: Siv, p: Seq<u8>, k: SymmetricKey| b != n.0@ + #[trigger] sealed(k, n, p) by { assert((n.0@ + sealed(k, n, p)).len() >= 24); } } }
pub proof fn open_only(k: SymmetricKey, n: Siv, c: Seq<u8>, b: Seq<u8>) requires b == n.0@ + c ensures forall|m: Siv, p: Seq<u8>| b == m.0@ + #[trigger] sealed(k, m, p) ==> m == n && c == sealed(k, n, p)
{ assert forall|m: Siv, p: Seq<u8>| b == m.0@ + #[trigger] sealed(k, m, p) implies m == n && c == sealed(k, n, p) by { cat_eq(n.0@, c, m.0@, sealed(k, m, p)); assert(n.0 =~= m.0); } }
"""
DOCM = core.opaque("Op") + core.opaque("Signer") + core.opaque("Rng") + r"""
pub uninterp spec fn pcs_sym(k: PcsKey) -> [u8; 32];
pub uninterp spec fn doc_bytes(d: DocumentId) -> Seq<u8>;
/// the group key state of a document, with the contracts proved for it in cgka.cgka
#[verifier::external_body] pub struct Cgka { x: u64 }
impl Cgka {
    pub uninterp spec fn doc(&self) -> DocumentId;
    pub uninterp spec fn keys(&self) -> Map<Digest<PcsKey>, PcsKey>;
    #[verifier::external_body] pub fn new_app_secret_for(&mut self, content_ref: &Cr, content: &[u8], pred_refs: &Vec<Cr>, signer: &Signer, csprng: &mut Rng) -> (r: Result<(ApplicationSecret, Option<Op>), CgkaError>)
        ensures final(self).doc() == old(self).doc(), r is Ok ==> exists|k: PcsKey| (r->Ok_0).0.key == #[trigger] key_of(k, *content_ref, prd(pred_refs@)) && (r->Ok_0).0.pcs_key_hash == ph(k) && (r->Ok_0).0.nonce == Siv(siv_of(pcs_sym(k), content@, doc_bytes(old(self).doc()))) && (r->Ok_0).0.content_ref == *content_ref && (r->Ok_0).0.pred_refs == prd(pred_refs@) { unimplemented!() }
    #[verifier::external_body] pub fn decryption_key_for(&mut self, encrypted: &EncryptedContent) -> (r: Result<SymmetricKey, CgkaError>)
        ensures final(self).doc() == old(self).doc(), r is Ok ==> exists|k: PcsKey| r->Ok_0 == #[trigger] key_of(k, encrypted.content_ref, encrypted.pred_refs) && (old(self).keys().dom().contains(encrypted.pcs_key_hash) ==> ph(k) == encrypted.pcs_key_hash), old(self).keys().dom().contains(encrypted.pcs_key_hash) ==> r is Ok { unimplemented!() }
}
pub enum EncryptError { FailedToMakeAppSecret(CgkaError), EncryptionFailed(Error) }
pub enum DecryptError { KeyNotFound, DecryptionFailed(Error) }
pub struct EncryptedContentWithUpdate { pub encrypted_content: EncryptedContent, pub update_op: Option<Op> }
pub struct Document { pub cgka: Option<Cgka>, pub known_decryption_keys: HashMap<Cr, SymmetricKey> }
/// a ciphertext for this content, reference and predecessors, under a key of the document
pub open spec fn made(e: EncryptedContent, k: PcsKey, c: Cr, preds: Digest<Vec<Cr>>, d: DocumentId, p: Seq<u8>) -> bool {
    e.ciphertext@ == sealed(key_of(k, c, preds), e.nonce, p) && e.nonce == Siv(siv_of(pcs_sym(k), p, doc_bytes(d))) && e.pcs_key_hash == ph(k) && e.content_ref == c && e.pred_refs == preds
}
/// what opening it promises
pub open spec fn opened(e: EncryptedContent, k: PcsKey, key: SymmetricKey, p: Seq<u8>) -> bool { key == key_of(k, e.content_ref, e.pred_refs) && e.ciphertext@ == sealed(key, e.nonce, p) }
pub open spec fn broken(k: PcsKey, c: Cr, p: Digest<Vec<Cr>>, k2: PcsKey, c2: Cr, p2: Digest<Vec<Cr>>) -> bool { kdf_clash(material(k, c, p), material(k2, c2, p2)) }
/// opening what was made gives the original bytes
pub proof fn round_trip(e: EncryptedContent, k: PcsKey, c: Cr, preds: Digest<Vec<Cr>>, d: DocumentId, p: Seq<u8>, k2: PcsKey, key: SymmetricKey, q: Seq<u8>) requires made(e, k, c, preds, d, p), opened(e, k2, key, q) ensures p == q
{ only_original(k, c, preds, e.nonce, p, k2, e.content_ref, e.pred_refs, e.nonce, q); }
/// the same bytes under another reference, other predecessors, another nonce: nothing opens (or the key derivation collides)
pub proof fn relabelled(e: EncryptedContent, k: PcsKey, c: Cr, preds: Digest<Vec<Cr>>, d: DocumentId, p: Seq<u8>, f: EncryptedContent, k2: PcsKey, key: SymmetricKey, q: Seq<u8>)
    requires made(e, k, c, preds, d, p), f.ciphertext@ == e.ciphertext@, opened(f, k2, key, q)
    ensures p == q, f.nonce.0 == e.nonce.0, (f.content_ref == c && f.pred_refs == preds && k2 == k) || broken(k, c, preds, k2, f.content_ref, f.pred_refs)
{ only_original(k, c, preds, e.nonce, p, k2, f.content_ref, f.pred_refs, f.nonce, q); }
"""
D = lambda *a, **k: F(DOC, "Document", *a, **k)
fns += [
    D("cgka_mut", "pub fn cgka_mut(&mut self) -> (r: Result<&mut Cgka, CgkaError>) ensures r is Ok == old(self).cgka is Some, r is Ok ==> *(r->Ok_0) == old(self).cgka->0 && *final(self) == (Document { cgka: Some(*final(r->Ok_0)), ..*old(self) }), r is Err ==> *final(self) == *old(self)", ["self"]),
    D("try_encrypt_content_keyed", """pub fn try_encrypt_content_keyed(&mut self, content_ref: &Cr, content: &[u8], pred_refs: &Vec<Cr>, signer: &Signer, csprng: &mut Rng) -> (r: Result<(EncryptedContentWithUpdate, SymmetricKey), EncryptError>)
      ensures r is Ok ==> old(self).cgka is Some && exists|k: PcsKey| (r->Ok_0).1 == #[trigger] key_of(k, *content_ref, prd(pred_refs@)) && made((r->Ok_0).0.encrypted_content, k, *content_ref, prd(pred_refs@), (old(self).cgka->0).doc(), content@)""", ["self", "content_ref", "content", "pred_refs", "signer", "csprng"],
      [(".map_err(EncryptError::FailedToMakeAppSecret)", ".or_err(EncryptError::FailedToMakeAppSecret(CgkaError::Other))"), (".map_err(EncryptError::EncryptionFailed)", ".or_err(EncryptError::EncryptionFailed(Error))"), ("content_ref.clone()", "*content_ref")]),
    D("try_decrypt_content_keyed", """pub fn try_decrypt_content_keyed(&mut self, encrypted_content: &EncryptedContent) -> (r: Result<(Vec<u8>, SymmetricKey), DecryptError>)
      ensures r is Ok ==> exists|k: PcsKey| #[trigger] opened(*encrypted_content, k, (r->Ok_0).1, (r->Ok_0).0@),
        forall|k: PcsKey, c: Cr, preds: Digest<Vec<Cr>>, d: DocumentId, p: Seq<u8>| r is Ok && #[trigger] made(*encrypted_content, k, c, preds, d, p) ==> p == (r->Ok_0).0@,
        old(self).cgka is Some && (old(self).cgka->0).keys().dom().contains(encrypted_content.pcs_key_hash) && only_key(*encrypted_content) ==> forall|k: PcsKey, c: Cr, preds: Digest<Vec<Cr>>, d: DocumentId, p: Seq<u8>| #[trigger] made(*encrypted_content, k, c, preds, d, p) ==> r is Ok""", ["self", "encrypted_content"],
      [(".map_err(|$$e| DecryptError::KeyNotFound)", ".or_err(DecryptError::KeyNotFound)"), (".map_err(DecryptError::DecryptionFailed)", ".or_err(DecryptError::DecryptionFailed(Error))"), ("encrypted_content.ciphertext.clone()", "copy(encrypted_content.ciphertext.as_slice())"),
       ("Ok((plaintext, decrypt_key))", "({ let ghost bb = plaintext@; proof { open_key(*encrypted_content, decrypt_key, plaintext@); all_round_trip(*encrypted_content, decrypt_key, plaintext@); } let r = Ok((plaintext, decrypt_key)); proof { assert((r->Ok_0).0@ == bb); assert((r->Ok_0).1 == decrypt_key); assert(exists|k: PcsKey| #[trigger] opened(*encrypted_content, k, (r->Ok_0).1, (r->Ok_0).0@)); } r })")]),
]
LEM += DOCM + r"""
/// no other document key has this hash
pub open spec fn only_key(e: EncryptedContent) -> bool { forall|a: PcsKey, b: PcsKey| ph(a) == e.pcs_key_hash && ph(b) == e.pcs_key_hash ==> a == b }
pub proof fn open_key(e: EncryptedContent, key: SymmetricKey, q: Seq<u8>) requires exists|k: PcsKey| key == #[trigger] key_of(k, e.content_ref, e.pred_refs), e.ciphertext@ == sealed(key, e.nonce, q) ensures exists|k: PcsKey| #[trigger] opened(e, k, key, q)
{ let k = choose|k: PcsKey| key == #[trigger] key_of(k, e.content_ref, e.pred_refs); assert(opened(e, k, key, q)); }
pub proof fn all_round_trip(e: EncryptedContent, key: SymmetricKey, q: Seq<u8>) requires exists|k2: PcsKey| opened(e, k2, key, q) ensures forall|k: PcsKey, c: Cr, preds: Digest<Vec<Cr>>, d: DocumentId, p: Seq<u8>| #[trigger] made(e, k, c, preds, d, p) ==> p == q
{ let k2 = choose|k2: PcsKey| opened(e, k2, key, q); assert forall|k: PcsKey, c: Cr, preds: Digest<Vec<Cr>>, d: DocumentId, p: Seq<u8>| #[trigger] made(e, k, c, preds, d, p) implies p == q by { round_trip(e, k, c, preds, d, p, k2, key, q); } }
"""
crypto = Unit("crypto", PRE + LEM, fns)
