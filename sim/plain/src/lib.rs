//! lunify as shipped, without tracing, behind a C interface, so that one
//! process can hold both builds (property C10).
#![allow(dead_code)]

#[path = "../../src/chunk.rs"]
mod chunk;
#[path = "../../src/json.rs"]
mod json;
#[path = "../../src/rng.rs"]
mod rng;

use json::J;

/// `text` is {"input", "output_format", "settings"}. The answer is what
/// `Ret::show` of the simulator would print; it is never freed.
#[no_mangle]
pub unsafe extern "C" fn plain_unify(text: *const u8, len: usize, answer_len: *mut usize) -> *const u8 {
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| std::panic::set_hook(Box::new(|_| {})));
    let text = std::str::from_utf8_unchecked(std::slice::from_raw_parts(text, len));
    let j = J::parse(text);
    let bytes = j.get("input").bytes();
    let format = chunk::Fmt::parse(j.get("output_format")).lunify();
    let settings = chunk::Sets::parse(j.get("settings"));
    let settings = settings.lunify();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| lunify::unify(&bytes, &format, &settings)));
    let answer = match r {
        Ok(Ok(v)) => format!("Ok({} bytes, hash {:016x})", v.len(), rng::hash_bytes(&v)),
        Ok(Err(e)) => format!("Err({e:?})"),
        Err(_) => "panic".to_string(),
    };
    let answer = Box::leak(answer.into_bytes().into_boxed_slice());
    *answer_len = answer.len();
    answer.as_ptr()
}
