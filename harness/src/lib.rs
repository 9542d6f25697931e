//! Entry points that make rustc monomorphise minisign's generic public functions with an
//! arbitrary reader/writer (`Opaque*`: every call is left to the verifier's contract for
//! `Read`, `Seek` and `Write`), and that reach every public function of the crate.
use minisign::*;
use std::io::{self, Read, Seek, SeekFrom, Write};

extern "Rust" {
    fn __opaque_read(r: *mut OpaqueReader, buf: *mut u8, len: usize) -> io::Result<usize>;
    fn __opaque_seek(r: *mut OpaqueReader, pos: SeekFrom) -> io::Result<u64>;
    fn __opaque_write(r: *mut OpaqueWriter, buf: *const u8, len: usize) -> io::Result<usize>;
    fn __opaque_flush(r: *mut OpaqueWriter) -> io::Result<()>;
}

pub struct OpaqueReader(pub u64);
pub struct OpaqueWriter(pub u64);

impl Read for OpaqueReader {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        unsafe { __opaque_read(self, buf.as_mut_ptr(), buf.len()) }
    }
}
impl Seek for OpaqueReader {
    fn seek(&mut self, pos: SeekFrom) -> io::Result<u64> {
        unsafe { __opaque_seek(self, pos) }
    }
}
impl Write for OpaqueWriter {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        unsafe { __opaque_write(self, buf.as_ptr(), buf.len()) }
    }
    fn flush(&mut self) -> io::Result<()> {
        unsafe { __opaque_flush(self) }
    }
}

pub fn h_sign(pk: Option<&PublicKey>, sk: &SecretKey, r: &mut OpaqueReader, t: Option<&str>, u: Option<&str>) -> Result<SignatureBox> {
    sign(pk, sk, r, t, u)
}
pub fn h_verify(pk: &PublicKey, sb: &SignatureBox, r: &mut OpaqueReader, quiet: bool, output: bool, allow_legacy: bool) -> Result<()> {
    verify(pk, sb, r, quiet, output, allow_legacy)
}
pub fn h_write_encrypted(a: &mut OpaqueWriter, b: &mut OpaqueWriter, c: Option<&str>, p: Option<String>) -> Result<KeyPair> {
    KeyPair::generate_and_write_encrypted_keypair(a, b, c, p)
}
pub fn h_write_unencrypted(a: &mut OpaqueWriter, b: &mut OpaqueWriter) -> Result<KeyPair> {
    KeyPair::generate_and_write_unencrypted_keypair(a, b)
}
pub fn h_gen_unenc() -> Result<KeyPair> { KeyPair::generate_unencrypted_keypair() }
pub fn h_gen_enc(p: Option<String>) -> Result<KeyPair> { KeyPair::generate_encrypted_keypair(p) }

pub fn h_pk_from_bytes(b: &[u8]) -> Result<PublicKey> { PublicKey::from_bytes(b) }
pub fn h_pk_to_bytes(p: &PublicKey) -> Vec<u8> { p.to_bytes() }
pub fn h_pk_from_base64(s: &str) -> Result<PublicKey> { PublicKey::from_base64(s) }
pub fn h_pk_to_base64(p: &PublicKey) -> String { p.to_base64() }
pub fn h_pk_from_box(s: String) -> Result<PublicKey> { PublicKey::from_box(PublicKeyBox::from(s)) }
pub fn h_pk_to_box(p: &PublicKey) -> Result<String> { p.to_box().map(|b| b.into_string()) }
pub fn h_pk_box_into(s: &str) -> Result<PublicKey> { PublicKeyBox::from_string(s)?.into_public_key() }
pub fn h_pk_from_sk(s: &SecretKey) -> Result<PublicKey> { PublicKey::from_secret_key(s) }
pub fn h_pk_keynum(p: &PublicKey) -> &[u8] { p.keynum() }
pub fn h_pk_eq(p: &PublicKey, q: &PublicKey) -> bool { p == q }
pub fn h_pkbox_to_bytes(s: String) -> Vec<u8> { PublicKeyBox::from(s).to_bytes() }

pub fn h_sk_from_bytes(b: &[u8]) -> Result<SecretKey> { SecretKey::from_bytes(b) }
pub fn h_sk_to_bytes(p: &SecretKey) -> Vec<u8> { p.to_bytes() }
pub fn h_sk_from_box(s: String, p: Option<String>) -> Result<SecretKey> { SecretKey::from_box(SecretKeyBox::from(s), p) }
pub fn h_sk_from_unenc_box(s: String) -> Result<SecretKey> { SecretKey::from_unencrypted_box(SecretKeyBox::from(s)) }
pub fn h_sk_box_into(s: &str, p: Option<String>) -> Result<SecretKey> { SecretKeyBox::from_string(s)?.into_secret_key(p) }
pub fn h_sk_box_into_unenc(s: &str) -> Result<SecretKey> { SecretKeyBox::from_string(s)?.into_unencrypted_secret_key() }
pub fn h_sk_to_box(p: &SecretKey, c: Option<&str>) -> Result<String> { p.to_box(c).map(|b| b.into_string()) }
pub fn h_sk_keynum(p: &SecretKey) -> &[u8] { p.keynum() }
pub fn h_sk_eq(p: &SecretKey, q: &SecretKey) -> bool { p == q }
pub fn h_skbox_to_bytes(s: String) -> Vec<u8> { SecretKeyBox::from(s).to_bytes() }

pub fn h_sb_from_string(s: &str) -> Result<SignatureBox> { SignatureBox::from_string(s) }
pub fn h_sb_to_string(s: &SignatureBox) -> String { s.to_string() }
pub fn h_sb_into_string(s: SignatureBox) -> String { s.into_string() }
pub fn h_sb_to_bytes(s: &SignatureBox) -> Vec<u8> { s.to_bytes() }
pub fn h_sb_trusted(s: &SignatureBox) -> Result<String> { s.trusted_comment() }
pub fn h_sb_untrusted(s: &SignatureBox) -> Result<String> { s.untrusted_comment() }
pub fn h_sb_keynum(s: &SignatureBox) -> &[u8] { s.keynum() }
pub fn h_sb_prehashed(s: &SignatureBox) -> bool { s.is_prehashed() }
pub fn h_bones_from_bytes(b: &[u8]) -> Result<SignatureBones> { SignatureBones::from_bytes(b) }
pub fn h_bones_to_bytes(b: &SignatureBones) -> Vec<u8> { b.to_bytes() }
pub fn h_bones_prehashed(b: &SignatureBones) -> bool { b.is_prehashed() }
pub fn h_bones_into_box(b: SignatureBones) -> SignatureBox { b.into() }
pub fn h_box_into_bones(b: SignatureBox) -> SignatureBones { b.into() }

pub fn h_pk_from_file(p: &str) -> Result<PublicKey> { PublicKey::from_file(p) }
pub fn h_sk_from_file(p: &str, w: Option<String>) -> Result<SecretKey> { SecretKey::from_file(p, w) }
pub fn h_sb_from_file(p: &str) -> Result<SignatureBox> { SignatureBox::from_file(p) }
pub fn h_sb_from_string2(s: String) -> SignatureBox { SignatureBox::from(s) }
pub fn h_sb_string2(s: SignatureBox) -> String { String::from(s) }
pub fn h_pkbox_string(s: String) -> String { PublicKeyBox::from(s).to_string() }
pub fn h_pkbox_string2(s: String) -> String { String::from(PublicKeyBox::from(s)) }
pub fn h_skbox_string(s: String) -> String { SecretKeyBox::from(s).to_string() }
pub fn h_skbox_string2(s: String) -> String { String::from(SecretKeyBox::from(s)) }
