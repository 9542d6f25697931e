//! Runs the real code on inputs given one per line: `<op> <arg> ...` (arguments are hex, `-` for none).
//! One answer line per input line.  argv: <answers file> <file that our stdout is redirected to>.
use minisign::*;
use std::io::{self, BufRead, Read, Seek, SeekFrom, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

fn hex(b: &[u8]) -> String {
    if b.is_empty() {
        return "=".into();
    }
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push_str(&format!("{:02x}", x));
    }
    s
}
fn unhex(s: &str) -> Vec<u8> {
    if s == "=" {
        return vec![];
    }
    let b = s.as_bytes();
    (0..b.len() / 2)
        .map(|i| u8::from_str_radix(std::str::from_utf8(&b[2 * i..2 * i + 2]).unwrap(), 16).unwrap())
        .collect()
}
fn opt(s: &str) -> Option<Vec<u8>> {
    if s == "-" {
        None
    } else {
        Some(unhex(s))
    }
}
fn text(s: &str) -> String {
    String::from_utf8(unhex(s)).expect("harness: text argument")
}
fn otext(s: &str) -> Option<String> {
    if s == "-" {
        None
    } else {
        Some(text(s))
    }
}
fn num(s: &str) -> u64 {
    s.parse().unwrap()
}

/// a source delivering its data in the given chunk sizes (cyclically; 0 means: an interrupted-free full read),
/// failing at byte offset `fail` if given
/// an I/O error kind by letter
fn kind_of(k: &str) -> io::ErrorKind {
    match k {
        "e" => io::ErrorKind::UnexpectedEof,
        "i" => io::ErrorKind::Interrupted,
        "w" => io::ErrorKind::WouldBlock,
        "t" => io::ErrorKind::TimedOut,
        "p" => io::ErrorKind::BrokenPipe,
        "d" => io::ErrorKind::InvalidData,
        "n" => io::ErrorKind::InvalidInput,
        "c" => io::ErrorKind::ConnectionAborted,
        "f" => io::ErrorKind::NotFound,
        "a" => io::ErrorKind::PermissionDenied,
        _ => io::ErrorKind::Other,
    }
}

struct Src {
    data: Vec<u8>,
    zeros: usize,
    pos: usize,
    chunks: Vec<usize>,
    k: usize,
    fail: Option<usize>,
    kind: io::ErrorKind,
    once: bool,
    failures: usize,
    failseek: bool,
}
impl Read for Src {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if let Some(f) = self.fail {
            if self.pos >= f {
                if self.once {
                    self.fail = None;
                }
                self.failures += 1;
                if self.failures > 100_000 {
                    // a caller that never gives up
                    std::process::exit(97);
                }
                return Err(io::Error::new(self.kind, "scripted read failure"));
            }
        }
        let total = self.data.len() + self.zeros;
        let mut n = buf.len().min(total.saturating_sub(self.pos));
        if !self.chunks.is_empty() {
            let c = self.chunks[self.k % self.chunks.len()];
            self.k += 1;
            if c > 0 {
                n = n.min(c);
            }
        }
        if let Some(f) = self.fail {
            n = n.min(f - self.pos);
        }
        if self.pos + n <= self.data.len() {
            buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        } else if self.pos >= self.data.len() {
            buf[..n].fill(0);
        } else {
            for i in 0..n {
                buf[i] = self.data.get(self.pos + i).copied().unwrap_or(0);
            }
        }
        self.pos += n;
        Ok(n)
    }
}
impl Seek for Src {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        if self.failseek {
            return Err(io::Error::new(io::ErrorKind::Other, "scripted seek failure"));
        }
        let n = match p {
            SeekFrom::Start(n) => n as i64,
            SeekFrom::Current(d) => self.pos as i64 + d,
            SeekFrom::End(d) => (self.data.len() + self.zeros) as i64 + d,
        };
        self.pos = n as usize;
        Ok(n as u64)
    }
}
fn nums(s: &str) -> Vec<usize> {
    if s == "-" {
        vec![]
    } else {
        s.split(',').map(|x| x.parse().unwrap()).collect()
    }
}
/// data: hex, optionally followed by `z` and a number of zero bytes; `<chunks>[!fail[:kind]]`; kind `i` is a single interruption
fn source(data: &str, spec: &str) -> Src {
    let (c, f) = match spec.split_once('!') {
        Some((c, f)) => (c, Some(f)),
        None => (spec, None),
    };
    let failseek = f == Some("seek");
    let f = if failseek { None } else { f };
    let (f, k) = match f.and_then(|x| x.split_once(':')) {
        Some((f, k)) => (Some(f), k),
        None => (f, ""),
    };
    let kind = kind_of(k);
    let (data, zeros) = match data.split_once('z') {
        Some((d, z)) => (d, z.parse().unwrap()),
        None => (data, 0),
    };
    Src { data: unhex(data), zeros, pos: 0, chunks: nums(c), k: 0, fail: f.map(|x| x.parse().unwrap()), kind, once: k == "i", failures: 0, failseek }
}
/// random script: comma separated hex entries, `!` for a failure
fn script_rand(s: &str) {
    if s == "-" {
        getrandom::script(vec![], 12345);
        return;
    }
    getrandom::script(s.split(',').map(|x| if x == "!" { None } else { Some(unhex(x)) }).collect(), 777);
}
fn script_pw(s: &str) {
    if s == "-" {
        rpassword::script(vec![]);
        return;
    }
    rpassword::script(s.split(',').map(|x| if x == "!" { None } else { Some(text(x)) }).collect());
}
fn pkd(p: &PublicKey) -> String {
    format!("ok {} {}", hex(&p.to_bytes()), hex(p.keynum()))
}
fn skd(p: &SecretKey) -> String {
    format!("ok {} {}", hex(&p.to_bytes()), hex(p.keynum()))
}
fn e<T>(r: Result<T>, f: impl Fn(T) -> String) -> String {
    match r {
        Ok(v) => f(v),
        Err(x) => format!("err {}", hex(x.to_string().as_bytes())),
    }
}
fn sbd(b: &SignatureBox) -> String {
    format!(
        "ok {} {} {} {} {}",
        b.is_prehashed() as u8,
        hex(b.keynum()),
        b.untrusted_comment().map(|s| hex(s.as_bytes())).unwrap_or("err".into()),
        b.trusted_comment().map(|s| hex(s.as_bytes())).unwrap_or("err".into()),
        hex(&SignatureBones::from(b.clone()).to_bytes())
    )
}
/// `b:<text>` box text, `n:<hex>` bones, `s:<text>` box turned to bones and back;
/// with internals also `p:<text>:<sig_and_trusted|->:<global|->`
fn getbox(s: &str) -> Result<SignatureBox> {
    let (k, v) = s.split_once(':').unwrap();
    match k {
        "b" => SignatureBox::from_string(&text(v)),
        "n" => SignatureBones::from_bytes(&unhex(v)).map(|b| b.into()),
        "s" => SignatureBox::from_string(&text(v)).map(|b| SignatureBox::from(SignatureBones::from(b))),
        #[cfg(feature = "internals")]
        "p" => {
            let p: Vec<&str> = v.split(':').collect();
            let mut b = SignatureBox::from_string(&text(p[0]))?;
            minisign::vp::set_box_parts(&mut b, opt(p[1]), opt(p[2]));
            Ok(b)
        }
        _ => panic!("harness: box kind"),
    }
}
/// a writer that stores what it was given when it is flushed
#[derive(Default)]
struct W {
    buf: Vec<u8>,
    stored: Vec<u8>,
    fail: Option<usize>,
    failflush: bool,
    zero: Option<usize>,
    interrupt: Option<usize>,
    kind: Option<io::ErrorKind>,
    failures: usize,
    chunk: Option<usize>,
}
impl W {
    /// `-`, `<n>` (fails beyond n bytes), `f` (flush fails), `c<n>` (at most n bytes per call), `z<n>` (accepts
    /// nothing after n bytes), `i<n>` (one interruption after n bytes); failures may have a kind: `<n>:k`, `f:k`
    fn new(s: &str) -> W {
        let mut w = W::default();
        let (s, k) = s.split_once(':').unwrap_or((s, ""));
        w.kind = Some(kind_of(k));
        if s == "f" {
            w.failflush = true;
        } else if let Some(n) = s.strip_prefix('c') {
            w.chunk = n.parse().ok();
        } else if let Some(n) = s.strip_prefix('z') {
            w.zero = n.parse().ok();
        } else if let Some(n) = s.strip_prefix('i') {
            w.interrupt = n.parse().ok();
        } else {
            w.fail = s.parse().ok();
        }
        w
    }
}
impl Write for W {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let n = b.len().min(self.chunk.unwrap_or(usize::MAX));
        let room = |f: usize| f.saturating_sub(self.buf.len());
        let mut n = n;
        if let Some(z) = self.zero {
            n = n.min(room(z));
        }
        if let Some(i) = self.interrupt {
            n = n.min(room(i));
            if n == 0 && !b.is_empty() {
                self.interrupt = None;
                return Err(io::Error::new(io::ErrorKind::Interrupted, "scripted interruption"));
            }
        }
        if let Some(f) = self.fail {
            if self.buf.len() + n > f {
                self.failures += 1;
                if self.failures > 100_000 {
                    std::process::exit(97);
                }
                return Err(io::Error::new(self.kind.unwrap_or(io::ErrorKind::Other), "scripted write failure"));
            }
        }
        self.buf.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        if self.failflush {
            self.failures += 1;
            if self.failures > 100_000 {
                std::process::exit(97);
            }
            return Err(io::Error::new(self.kind.unwrap_or(io::ErrorKind::Other), "scripted flush failure"));
        }
        self.stored = self.buf.clone();
        Ok(())
    }
}

/// runs `f` on a scratch file holding `b`
fn with_file(b: &[u8], f: impl FnOnce(&std::path::Path) -> String) -> String {
    let p = std::env::temp_dir().join(format!("mvreplay-{}", std::process::id()));
    std::fs::write(&p, b).unwrap();
    let r = catch_unwind(AssertUnwindSafe(|| f(&p)));
    let _ = std::fs::remove_file(&p);
    match r {
        Ok(s) => s,
        Err(x) => std::panic::resume_unwind(x),
    }
}

fn run(a: &[&str]) -> String {
    match a[0] {
        "pk_from_bytes" => e(PublicKey::from_bytes(&unhex(a[1])), |p| pkd(&p)),
        "pk_from_base64" => e(PublicKey::from_base64(&text(a[1])), |p| pkd(&p)),
        "pk_from_box" => e(PublicKeyBox::from_string(&text(a[1])).and_then(|b| b.into_public_key()), |p| pkd(&p)),
        "pk_from_box2" => e(PublicKey::from_box(PublicKeyBox::from(text(a[1]))), |p| pkd(&p)),
        "pk_write" => e(PublicKey::from_bytes(&unhex(a[1])), |p| {
            let b = p.to_box().unwrap();
            format!(
                "ok {} {} {} {} {}",
                hex(&p.to_bytes()),
                hex(p.to_base64().as_bytes()),
                hex(b.to_string().as_bytes()),
                hex(&b.to_bytes()),
                hex(b.into_string().as_bytes())
            )
        }),
        "pk_eq" => e(PublicKey::from_bytes(&unhex(a[1])), |p| e(PublicKey::from_bytes(&unhex(a[2])), |q| format!("ok {} {}", (p == q) as u8, (p != q) as u8))),
        "sk_eq" => e(SecretKey::from_bytes(&unhex(a[1])), |p| e(SecretKey::from_bytes(&unhex(a[2])), |q| format!("ok {} {}", (p == q) as u8, (p != q) as u8))),
        "sk_from_bytes" => e(SecretKey::from_bytes(&unhex(a[1])), |p| skd(&p)),
        "sk_from_box" => {
            script_pw(a.get(3).unwrap_or(&"-"));
            e(SecretKeyBox::from_string(&text(a[1])).and_then(|b| b.into_secret_key(otext(a[2]))), |p| skd(&p))
        }
        "sk_from_unenc_box" => e(SecretKeyBox::from_string(&text(a[1])).and_then(|b| b.into_unencrypted_secret_key()), |p| skd(&p)),
        "sk_to_box" => e(SecretKey::from_bytes(&unhex(a[1])), |p| {
            let b = p.to_box(otext(a[2]).as_deref()).unwrap();
            format!("ok {} {}", hex(b.to_string().as_bytes()), hex(&b.to_bytes()))
        }),
        "pk_from_sk" => e(SecretKey::from_bytes(&unhex(a[1])).and_then(|s| PublicKey::from_secret_key(&s)), |p| pkd(&p)),
        "gen_unenc" => {
            script_rand(a[1]);
            e(KeyPair::generate_unencrypted_keypair(), |k| format!("ok {} {}", hex(&k.pk.to_bytes()), hex(&k.sk.to_bytes())))
        }
        "gen_enc" => {
            script_rand(a[1]);
            script_pw(a.get(3).unwrap_or(&"-"));
            e(KeyPair::generate_encrypted_keypair(otext(a[2])), |k| format!("ok {} {}", hex(&k.pk.to_bytes()), hex(&k.sk.to_bytes())))
        }
        "write_enc" => {
            script_rand(a[1]);
            script_pw(a.get(5).unwrap_or(&"-"));
            let lim: Vec<&str> = a[4].split(',').collect();
            let (mut w, mut x) = (W::new(lim[0]), W::new(lim[1]));
            let r = KeyPair::generate_and_write_encrypted_keypair(&mut w, &mut x, otext(a[3]).as_deref(), otext(a[2]));
            e(r, |k| format!("ok {} {} {} {}", hex(&k.pk.to_bytes()), hex(&k.sk.to_bytes()), hex(&w.stored), hex(&x.stored)))
        }
        "write_unenc" => {
            script_rand(a[1]);
            let lim: Vec<&str> = a[2].split(',').collect();
            let (mut w, mut x) = (W::new(lim[0]), W::new(lim[1]));
            let r = KeyPair::generate_and_write_unencrypted_keypair(&mut w, &mut x);
            e(r, |k| format!("ok {} {} {} {}", hex(&k.pk.to_bytes()), hex(&k.sk.to_bytes()), hex(&w.stored), hex(&x.stored)))
        }
        "sb" => e(getbox(a[1]), |b| sbd(&b)),
        "sb_file" => with_file(&unhex(a[1]), |f| e(SignatureBox::from_file(f), |b| sbd(&b))),
        "pk_file" => with_file(&unhex(a[1]), |f| e(PublicKey::from_file(f), |p| pkd(&p))),
        "sk_file" => {
            script_pw(a.get(3).unwrap_or(&"-"));
            with_file(&unhex(a[1]), |f| e(SecretKey::from_file(f, otext(a[2])), |p| skd(&p)))
        }
        "sb_missing" => e(SignatureBox::from_file("/nonexistent/minisign/file"), |b| sbd(&b)),
        "sb_from" => sbd(&SignatureBox::from(text(a[1]))),
        "sb_string" => e(getbox(a[1]), |b| {
            format!("ok {} {} {}", hex(b.to_string().as_bytes()), hex(&b.to_bytes()), hex(b.clone().into_string().as_bytes()))
        }),
        "bones" => e(SignatureBones::from_bytes(&unhex(a[1])), |b| {
            format!("ok {} {}", b.is_prehashed() as u8, hex(&b.to_bytes()))
        }),
        // sign <pk|-> <sk> <data> <chunks> <trusted|-> <untrusted|-> <rand>
        "sign" => {
            let pk = opt(a[1]).map(|b| PublicKey::from_bytes(&b).unwrap());
            let sk = SecretKey::from_bytes(&unhex(a[2])).unwrap();
            script_rand(a[7]);
            let r = sign(pk.as_ref(), &sk, source(a[3], a[4]), otext(a[5]).as_deref(), otext(a[6]).as_deref());
            e(r, |b| format!("{} {}", sbd(&b), hex(b.to_string().as_bytes())))
        }
        // signverify <pk> <sk> <data> <chunks> <trusted|-> <untrusted|-> <rand>: the box in memory
        "signverify" => {
            let pk = PublicKey::from_bytes(&unhex(a[1])).unwrap();
            let sk = SecretKey::from_bytes(&unhex(a[2])).unwrap();
            script_rand(a[7]);
            let r = sign(None, &sk, source(a[3], a[4]), otext(a[5]).as_deref(), otext(a[6]).as_deref());
            e(r, |b| {
                let v1 = verify(&pk, &b, source(a[3], "-"), true, false, false).is_ok();
                let bones = SignatureBones::from_bytes(&SignatureBones::from(b.clone()).to_bytes()).unwrap();
                let v2 = verify(&pk, &bones.into(), source(a[3], "-"), true, false, false).is_ok();
                let b2 = SignatureBox::from_string(&b.to_string());
                let v3 = match &b2 {
                    Ok(b2) => verify(&pk, b2, source(a[3], "-"), true, false, false).is_ok(),
                    Err(_) => false,
                };
                format!("ok {} {} {} | {} | {}", v1 as u8, v2 as u8, v3 as u8, sbd(&b), b2.map(|x| sbd(&x)).unwrap_or("err".into()))
            })
        }
        // verify <pk> <box> <data> <chunks[!fail]> <flags: q o l>
        "verify" => {
            let pk = match PublicKey::from_bytes(&unhex(a[1])) {
                Ok(p) => p,
                Err(_) => return "err pk".into(),
            };
            let b = match getbox(a[2]) {
                Ok(b) => b,
                Err(x) => return format!("err {}", hex(format!("box: {}", x).as_bytes())),
            };
            let f = a[5];
            e(
                verify(&pk, &b, source(a[3], a[4]), f.contains('q'), f.contains('o'), f.contains('l')),
                |_| "ok".into(),
            )
        }
        #[cfg(feature = "internals")]
        _ => internals(a),
        #[cfg(not(feature = "internals"))]
        _ => "unavailable".into(),
    }
}

#[cfg(feature = "internals")]
fn internals(a: &[&str]) -> String {
    use minisign::vp::*;
    fn fe(s: &str) -> Fe {
        let v: Vec<u64> = s.split(',').map(|x| x.parse().unwrap()).collect();
        Fe([v[0], v[1], v[2], v[3], v[4]])
    }
    fn fs(f: Fe) -> String {
        let v: Vec<String> = f.0.iter().map(|x| x.to_string()).collect();
        format!("ok {}", v.join(","))
    }
    match a[0] {
        "ed_verify" => format!("ok {}", ed25519::verify(&unhex(a[1]), &unhex(a[2]), &unhex(a[3])) as u8),
        "ed_keypair" => {
            let (s, p) = ed25519::keypair(&unhex(a[1]));
            format!("ok {} {}", hex(&s), hex(&p))
        }
        "ed_sign" => format!("ok {}", hex(&ed25519::signature(&unhex(a[1]), &unhex(a[2]), opt(a[3]).as_deref()))),
        // blake2b <outlen> <data> <chunks>
        "blake2b" => {
            let n = num(a[1]) as usize;
            let d = unhex(a[2]);
            let mut h = Blake2b::new(n);
            let mut p = 0;
            for c in nums(a[3]) {
                let c = c.min(d.len() - p);
                h.update(&d[p..p + c]);
                p += c;
            }
            h.update(&d[p..]);
            let mut o = vec![0u8; n];
            h.finalize(&mut o);
            let mut o2 = vec![0u8; n];
            Blake2b::blake2b(&mut o2, &d);
            format!("ok {} {}", hex(&o), hex(&o2))
        }
        "sha512" => {
            let d = unhex(a[1]);
            let mut h = Sha512::new();
            let mut p = 0;
            for c in nums(a[2]) {
                let c = c.min(d.len() - p);
                h.update(&d[p..p + c]);
                p += c;
            }
            h.update(&d[p..]);
            format!("ok {} {}", hex(&h.finalize()), hex(&Sha512::hash(&d)))
        }
        "sha512_zeros" => {
            let mut left = num(a[1]) as usize;
            let z = vec![0u8; 1 << 20];
            let mut h = Sha512::new();
            while left > 0 {
                let k = left.min(z.len());
                h.update(&z[..k]);
                left -= k;
            }
            format!("ok {}", hex(&h.finalize()))
        }
        "scrypt_params" => match raw_scrypt_params(num(a[1]) as usize, num(a[2]), num(a[3]) as u8) {
            Ok(p) => format!("ok {} {} {}", p.log_n(), p.r(), p.p()),
            Err(_) => "err".into(),
        },
        "fe_add" => fs(fe(a[1]) + fe(a[2])),
        "fe_sub" => fs(fe(a[1]) - fe(a[2])),
        "fe_mul" => fs(fe(a[1]) * fe(a[2])),
        "fe_carry" => fs(fe(a[1]).carry()),
        "fe_invert" => fs(fe(a[1]).invert()),
        "fe_to_bytes" => format!("ok {}", hex(&fe(a[1]).to_bytes())),
        "fe_from_bytes" => fs(Fe::from_bytes(&unhex(a[1]))),
        "sc_reduce" => {
            let mut s = unhex(a[1]);
            sc_reduce(&mut s);
            format!("ok {}", hex(&s))
        }
        "sc_muladd" => {
            let mut s = vec![0u8; 32];
            sc_muladd(&mut s, &unhex(a[1]), &unhex(a[2]), &unhex(a[3]));
            format!("ok {}", hex(&s))
        }
        "base" => format!("ok {}", hex(&ge_scalarmult_base(&unhex(a[1])).to_bytes())),
        "decode" => match GeP3::from_bytes_negate_vartime(&unhex(a[1])) {
            Some(p) => format!("ok {}", hex(&p.to_bytes())),
            None => "err".into(),
        },
        "double" => match GeP3::from_bytes_negate_vartime(&unhex(a[2])) {
            Some(p) => format!("ok {}", hex(&GeP2::double_scalarmult_vartime(&unhex(a[1]), p, &unhex(a[3])).to_bytes())),
            None => "err".into(),
        },
        "is_identity" => format!("ok {}", is_identity(&unhex(a[1])) as u8),
        _ => "unavailable".into(),
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut ans = std::fs::File::create(&args[1]).unwrap();
    let mut so = std::fs::File::open(&args[2]).unwrap();
    std::panic::set_hook(Box::new(|_| {}));
    let mut seen = 0u64;
    for line in io::stdin().lock().lines() {
        let line = line.unwrap();
        let a: Vec<&str> = line.split(' ').collect();
        getrandom::script(vec![], 12345);
        rpassword::script(vec![]);
        let r = catch_unwind(AssertUnwindSafe(|| run(&a)));
        let r = match r {
            Ok(s) => s,
            Err(p) => {
                let m = p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                format!("panic {}", hex(m.as_bytes()))
            }
        };
        let _ = io::stdout().flush();
        so.seek(SeekFrom::Start(seen)).unwrap();
        let mut o = vec![];
        so.read_to_end(&mut o).unwrap();
        seen += o.len() as u64;
        writeln!(ans, "{} @ {}", r, hex(&o)).unwrap();
    }
}
