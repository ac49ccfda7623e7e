//! Caller code run from within the library: strings, iterators and keys whose
//! every call is announced to whatever the scenario has installed.

use std::cell::RefCell;

type Hook = Box<dyn FnMut(&'static str)>;

thread_local! {
    static HOOK: RefCell<Option<Hook>> = const { RefCell::new(None) };
}

/// Announce a call of caller code.
pub fn call(what: &'static str) {
    let hook = HOOK.with(|h| h.borrow_mut().take());
    if let Some(hook) = hook {
        // Calls made by the hook itself are not announced, and it is put back
        // also if it unwinds.
        struct Put(Option<Hook>);
        impl Drop for Put {
            fn drop(&mut self) {
                HOOK.with(|h| *h.borrow_mut() = self.0.take());
            }
        }
        let mut put = Put(Some(hook));
        if let Some(hook) = &mut put.0 {
            hook(what);
        }
    }
}

/// Run with a hook installed.
pub fn with<T>(hook: impl FnMut(&'static str) + 'static, f: impl FnOnce() -> T) -> T {
    struct Reset(Option<Hook>);
    impl Drop for Reset {
        fn drop(&mut self) {
            HOOK.with(|h| *h.borrow_mut() = self.0.take());
        }
    }
    let prev = HOOK.with(|h| h.borrow_mut().replace(Box::new(hook)));
    let _reset = Reset(prev);
    f()
}

/// A string argument.
pub struct S<'a>(pub &'a str);

impl AsRef<str> for S<'_> {
    fn as_ref(&self) -> &str {
        call("str");
        self.0
    }
}

/// A key argument.
pub struct K<'a>(pub &'a [u8]);

impl AsRef<[u8]> for K<'_> {
    fn as_ref(&self) -> &[u8] {
        call("key");
        self.0
    }
}

/// The lines of a block.
pub struct Lines<'a>(pub &'a [String]);

pub struct LinesIter<'a>(std::slice::Iter<'a, String>);

impl<'a> IntoIterator for Lines<'a> {
    type Item = S<'a>;
    type IntoIter = LinesIter<'a>;

    fn into_iter(self) -> LinesIter<'a> {
        call("into_iter");
        LinesIter(self.0.iter())
    }
}

impl<'a> Iterator for LinesIter<'a> {
    type Item = S<'a>;

    fn next(&mut self) -> Option<S<'a>> {
        call("next");
        self.0.next().map(|s| S(s))
    }
}
