//! Scripted random source: each call takes the next entry (bytes, or a failure), then a fixed generator.
use std::collections::VecDeque;
use std::sync::Mutex;

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct Error(u32);
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "scripted random source failure")
    }
}
impl std::error::Error for Error {}
impl From<Error> for std::io::Error {
    fn from(e: Error) -> Self {
        std::io::Error::new(std::io::ErrorKind::Other, e)
    }
}

struct St {
    script: VecDeque<Option<Vec<u8>>>,
    log: Vec<Vec<u8>>,
    x: u64,
}
static S: Mutex<St> = Mutex::new(St { script: VecDeque::new(), log: Vec::new(), x: 0x9e3779b97f4a7c15 });

pub fn script(v: Vec<Option<Vec<u8>>>, seed: u64) {
    let mut s = S.lock().unwrap();
    s.script = v.into();
    s.log.clear();
    s.x = seed | 1;
}
pub fn log() -> Vec<Vec<u8>> {
    S.lock().unwrap().log.clone()
}

pub fn getrandom(dest: &mut [u8]) -> Result<(), Error> {
    let mut s = S.lock().unwrap();
    match s.script.pop_front() {
        Some(None) => return Err(Error(1)),
        Some(Some(v)) => {
            for (i, d) in dest.iter_mut().enumerate() {
                *d = if v.is_empty() { 0 } else { v[i % v.len()] };
            }
        }
        None => {
            for d in dest.iter_mut() {
                let mut x = s.x;
                x ^= x << 13;
                x ^= x >> 7;
                x ^= x << 17;
                s.x = x;
                *d = (x >> 24) as u8;
            }
        }
    }
    s.log.push(dest.to_vec());
    Ok(())
}
