//! Scripted password prompt: each call takes the next entry (a password, or a failure).
use std::collections::VecDeque;
use std::sync::Mutex;
static S: Mutex<VecDeque<Option<String>>> = Mutex::new(VecDeque::new());
pub fn script(v: Vec<Option<String>>) {
    *S.lock().unwrap() = v.into();
}
pub fn prompt_password(_prompt: impl ToString) -> std::io::Result<String> {
    match S.lock().unwrap().pop_front() {
        Some(Some(p)) => Ok(p),
        _ => Err(std::io::Error::new(std::io::ErrorKind::Other, "scripted prompt failure")),
    }
}
