//! The reference: the library's generator, run in a forked child of this (pristine) process, memoised.
use crate::dec::hash_str;
use std::cell::RefCell;
use std::collections::HashMap;

thread_local! {
    static MEMO: RefCell<HashMap<u64, Option<String>>> = RefCell::new(HashMap::new());
}
/// The program for these documents, or None if they are rejected.
pub fn expect(docs: &[Vec<u8>]) -> Option<String> {
    let mut h = 1;
    let mut txt = vec![];
    for d in docs {
        match String::from_utf8(d.clone()) {
            Ok(s) => {
                h = hash_str(h, &s);
                txt.push(s);
            }
            Err(_) => return None,
        }
    }
    if let Some(v) = MEMO.with(|m| m.borrow().get(&h).cloned()) {
        return v;
    }
    let v = fresh(&txt);
    MEMO.with(|m| {
        let mut m = m.borrow_mut();
        if m.len() > 3000 {
            m.clear();
        }
        m.insert(h, v.clone())
    });
    v
}
fn fresh(txt: &[String]) -> Option<String> {
    unsafe {
        let mut p = [0i32; 2];
        if libc::pipe2(p.as_mut_ptr(), libc::O_CLOEXEC) != 0 {
            panic!("pipe");
        }
        let pid = libc::fork();
        if pid == 0 {
            libc::close(p[0]);
            libc::alarm(30);
            std::panic::set_hook(Box::new(|_| {}));
            let r = std::panic::catch_unwind(|| make_pluralrules::generate_rs(txt));
            let mut out = vec![];
            if let Ok(s) = r {
                out.push(b'1');
                out.extend_from_slice(s.as_bytes());
            }
            let mut o = 0;
            while o < out.len() {
                let n = libc::write(p[1], out[o..].as_ptr() as *const _, out.len() - o);
                if n <= 0 {
                    break;
                }
                o += n as usize;
            }
            libc::_exit(0);
        }
        libc::close(p[1]);
        let mut v = vec![];
        let mut buf = [0u8; 65536];
        loop {
            let n = libc::read(p[0], buf.as_mut_ptr() as *mut _, buf.len());
            if n < 0 && *libc::__errno_location() == libc::EINTR {
                continue;
            }
            if n <= 0 {
                break;
            }
            v.extend_from_slice(&buf[..n as usize]);
        }
        libc::close(p[0]);
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 && *libc::__errno_location() == libc::EINTR {}
        if v.first() == Some(&b'1') {
            String::from_utf8(v[1..].to_vec()).ok()
        } else {
            None
        }
    }
}
pub fn squeeze(b: &[u8]) -> Vec<u8> {
    b.iter().copied().filter(|c| !c.is_ascii_whitespace()).collect()
}
