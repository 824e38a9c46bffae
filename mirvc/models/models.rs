//! The documented meaning of iterator methods that call a closure, as loops over `next`.
//! models.mir is this file as the compiler sees it:
//!   rustc +nightly --edition 2021 --crate-type lib -Zunpretty=mir -Zmir-opt-level=0 models.rs > models.mir
//! selftest/ compares the results with the compiled standard library.
pub fn vp_position<I: Iterator, F: FnMut(I::Item) -> bool>(iter: &mut I, mut f: F) -> Option<usize> {
    let mut i = 0usize;
    while let Some(x) = iter.next() {
        if f(x) {
            return Some(i);
        }
        i = i.wrapping_add(1);
    }
    None
}

pub fn vp_any<I: Iterator, F: FnMut(I::Item) -> bool>(iter: &mut I, mut f: F) -> bool {
    while let Some(x) = iter.next() {
        if f(x) {
            return true;
        }
    }
    false
}

pub fn vp_all<I: Iterator, F: FnMut(I::Item) -> bool>(iter: &mut I, mut f: F) -> bool {
    while let Some(x) = iter.next() {
        if !f(x) {
            return false;
        }
    }
    true
}

pub fn vp_find<I: Iterator, F: FnMut(&I::Item) -> bool>(iter: &mut I, mut f: F) -> Option<I::Item> {
    while let Some(x) = iter.next() {
        if f(&x) {
            return Some(x);
        }
    }
    None
}

pub fn vp_fold<I: Iterator, B, F: FnMut(B, I::Item) -> B>(mut iter: I, init: B, mut f: F) -> B {
    let mut b = init;
    while let Some(x) = iter.next() {
        b = f(b, x);
    }
    b
}

pub fn vp_for_each<I: Iterator, F: FnMut(I::Item)>(mut iter: I, mut f: F) {
    while let Some(x) = iter.next() {
        f(x);
    }
}

pub fn vp_take_while_count<I: Iterator, F: FnMut(&I::Item) -> bool>(mut iter: I, mut f: F) -> usize {
    let mut i = 0usize;
    while let Some(x) = iter.next() {
        if !f(&x) {
            break;
        }
        i = i.wrapping_add(1);
    }
    i
}
