//! What library calls change outside the process's memory: files they write,
//! the environment variables they set, the working directory.  It lasts for
//! the run, whichever call or thread asks again, and never reaches the real
//! file system.
use crate::raw::syscall6;
use std::collections::BTreeMap;
use std::ffi::{CStr, CString};

#[derive(Clone, Copy, PartialEq)]
pub enum Node {
    /// Its bytes are in this memory file.
    File(i64),
    Dir,
    Gone,
}

#[derive(Default)]
pub struct World {
    nodes: BTreeMap<Vec<u8>, Node>,
    env: BTreeMap<Vec<u8>, Option<&'static CStr>>,
    pub cwd: Option<Vec<u8>>,
    /// Memory files held open here.
    pub held: usize,
    pub changes: u64,
}

static mut WORLD: *mut World = std::ptr::null_mut();
/// Only inside rt::outside.
#[allow(static_mut_refs)]
pub fn world() -> &'static mut World {
    unsafe {
        if WORLD.is_null() {
            WORLD = Box::into_raw(Box::default());
        }
        &mut *WORLD
    }
}
/// Memory files the world holds.
pub fn held() -> usize {
    unsafe { if WORLD.is_null() { 0 } else { (*WORLD).held } }
}
pub fn changed() -> bool {
    unsafe { !WORLD.is_null() }
}

pub unsafe fn key(p: *const libc::c_char) -> Vec<u8> {
    let mut k = CStr::from_ptr(p).to_bytes();
    while let Some(r) = k.strip_prefix(b"./") {
        k = r;
    }
    while k.len() > 1 && k.ends_with(b"/") {
        k = &k[..k.len() - 1];
    }
    k.to_vec()
}

impl World {
    pub fn node(&self, k: &[u8]) -> Option<Node> {
        self.nodes.get(k).copied()
    }
    pub fn put(&mut self, k: Vec<u8>, n: Node) {
        self.changes += 1;
        if let Some(Node::File(fd)) = self.nodes.insert(k, n) {
            if n != Node::File(fd) && !self.nodes.values().any(|x| *x == Node::File(fd)) {
                unsafe { syscall6(libc::SYS_close, fd, 0, 0, 0, 0, 0) };
                self.held -= 1;
            }
        }
    }
    /// Another open file of the same bytes.
    pub fn reopen(fd: i64, flags: i32) -> i64 {
        let p = format!("/proc/self/fd/{}\0", fd);
        let fl = flags & (libc::O_ACCMODE | libc::O_APPEND | libc::O_TRUNC | libc::O_CLOEXEC);
        unsafe { syscall6(libc::SYS_openat, libc::AT_FDCWD as i64, p.as_ptr() as i64, fl as i64, 0, 0, 0) }
    }
    pub fn rename(&mut self, a: &[u8], b: Vec<u8>) -> bool {
        match self.nodes.get(a).copied() {
            None | Some(Node::Gone) => false,
            Some(n) => {
                self.put(b, n);
                self.put(a.to_vec(), Node::Gone);
                true
            }
        }
    }
    pub fn names(&self) -> Vec<Vec<u8>> {
        self.env.keys().cloned().collect()
    }
    pub fn env(&self, name: &[u8]) -> Option<Option<&'static CStr>> {
        self.env.get(name).copied()
    }
    pub fn set_env(&mut self, name: &[u8], v: Option<&[u8]>) {
        self.changes += 1;
        // never freed: a call may still look at the old value
        let v = v.and_then(|v| CString::new(v).ok()).map(|v| &*Box::leak(v.into_boxed_c_str()));
        self.env.insert(name.to_vec(), v);
    }
}
