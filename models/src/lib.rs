//! Semantics of the std iterator adaptors and consumers, as ordinary Rust.
//! The analyser inlines these bodies (as MIR) where the analysed code calls the
//! std method of the same name; nothing here is ever executed.
#![allow(clippy::all)]

pub trait It {
    type Item;
    fn nx(&mut self) -> Option<Self::Item>;
}
/// Collections being built: the analyser interprets these two itself.
pub struct Acc;
pub fn prim_push<T>(_a: &mut Acc, _x: T) {}
/// what is left of the iterator is not looked at
pub fn prim_cut<T>(_x: &T) {}
pub fn prim_deref<T>(_x: T) -> T { loop {} }

macro_rules! adaptor {
    ($n:ident<$($g:ident),*>($($f:ty),*)) => { pub struct $n<$($g),*>($(pub $f),*); };
}
adaptor!(Map<I, F>(I, F));
impl<I: It, B, F: FnMut(I::Item) -> B> It for Map<I, F> {
    type Item = B;
    fn nx(&mut self) -> Option<B> {
        match self.0.nx() {
            Some(x) => Some((self.1)(x)),
            None => None,
        }
    }
}
adaptor!(Filter<I, F>(I, F));
impl<I: It, F: FnMut(&I::Item) -> bool> It for Filter<I, F> {
    type Item = I::Item;
    fn nx(&mut self) -> Option<I::Item> {
        while let Some(x) = self.0.nx() {
            if (self.1)(&x) {
                return Some(x);
            }
        }
        None
    }
}
adaptor!(FilterMap<I, F>(I, F));
impl<I: It, B, F: FnMut(I::Item) -> Option<B>> It for FilterMap<I, F> {
    type Item = B;
    fn nx(&mut self) -> Option<B> {
        while let Some(x) = self.0.nx() {
            if let Some(y) = (self.1)(x) {
                return Some(y);
            }
        }
        None
    }
}
adaptor!(MapWhile<I, F>(I, F));
impl<I: It, B, F: FnMut(I::Item) -> Option<B>> It for MapWhile<I, F> {
    type Item = B;
    fn nx(&mut self) -> Option<B> {
        match self.0.nx() {
            Some(x) => (self.1)(x),
            None => None,
        }
    }
}
pub struct TakeWhile<I, F>(pub I, pub F, pub bool);
impl<I: It, F: FnMut(&I::Item) -> bool> It for TakeWhile<I, F> {
    type Item = I::Item;
    fn nx(&mut self) -> Option<I::Item> {
        if self.2 {
            return None;
        }
        match self.0.nx() {
            Some(x) => {
                if (self.1)(&x) {
                    Some(x)
                } else {
                    prim_cut(&self.0);
                    self.2 = true;
                    None
                }
            }
            None => None,
        }
    }
}
pub struct SkipWhile<I, F>(pub I, pub F, pub bool);
impl<I: It, F: FnMut(&I::Item) -> bool> It for SkipWhile<I, F> {
    type Item = I::Item;
    fn nx(&mut self) -> Option<I::Item> {
        loop {
            match self.0.nx() {
                Some(x) => {
                    if self.2 || !(self.1)(&x) {
                        self.2 = true;
                        return Some(x);
                    }
                }
                None => return None,
            }
        }
    }
}
pub struct Take<I>(pub I, pub usize);
impl<I: It> It for Take<I> {
    type Item = I::Item;
    fn nx(&mut self) -> Option<I::Item> {
        if self.1 != 0 {
            self.1 -= 1;
            self.0.nx()
        } else {
            prim_cut(&self.0);
            None
        }
    }
}
pub struct Skip<I>(pub I, pub usize);
impl<I: It> It for Skip<I> {
    type Item = I::Item;
    fn nx(&mut self) -> Option<I::Item> {
        while self.1 != 0 {
            self.1 -= 1;
            if self.0.nx().is_none() {
                return None;
            }
        }
        self.0.nx()
    }
}
pub struct Cloned<I>(pub I);
impl<I: It> It for Cloned<I> {
    type Item = I::Item;
    fn nx(&mut self) -> Option<I::Item> {
        match self.0.nx() {
            Some(x) => Some(prim_deref(x)),
            None => None,
        }
    }
}
pub struct Inspect<I, F>(pub I, pub F);
impl<I: It, F: FnMut(&I::Item)> It for Inspect<I, F> {
    type Item = I::Item;
    fn nx(&mut self) -> Option<I::Item> {
        match self.0.nx() {
            Some(x) => {
                (self.1)(&x);
                Some(x)
            }
            None => None,
        }
    }
}
pub struct Zip<A, B>(pub A, pub B);
impl<A: It, B: It> It for Zip<A, B> {
    type Item = (A::Item, B::Item);
    fn nx(&mut self) -> Option<(A::Item, B::Item)> {
        match self.0.nx() {
            Some(x) => match self.1.nx() {
                Some(y) => Some((x, y)),
                None => None,
            },
            None => None,
        }
    }
}
pub struct Enumerate<I>(pub I, pub usize);
impl<I: It> It for Enumerate<I> {
    type Item = (usize, I::Item);
    fn nx(&mut self) -> Option<(usize, I::Item)> {
        match self.0.nx() {
            Some(x) => {
                let i = self.1;
                self.1 = i.wrapping_add(1);
                Some((i, x))
            }
            None => None,
        }
    }
}
pub struct Chain<A, B>(pub Option<A>, pub B);
impl<A: It, B: It<Item = A::Item>> It for Chain<A, B> {
    type Item = A::Item;
    fn nx(&mut self) -> Option<A::Item> {
        if let Some(a) = &mut self.0 {
            match a.nx() {
                Some(x) => return Some(x),
                None => self.0 = None,
            }
        }
        self.1.nx()
    }
}
pub struct FromFn<F>(pub F);
impl<T, F: FnMut() -> Option<T>> It for FromFn<F> {
    type Item = T;
    fn nx(&mut self) -> Option<T> {
        (self.0)()
    }
}
pub struct Successors<T, F>(pub Option<T>, pub F);
pub struct OptIter<T>(pub Option<T>);
impl<T> It for OptIter<T> {
    type Item = T;
    fn nx(&mut self) -> Option<T> {
        self.0.take()
    }
}
pub struct Peekable<I: It>(pub I, pub Option<Option<I::Item>>);
impl<I: It> It for Peekable<I> {
    type Item = I::Item;
    fn nx(&mut self) -> Option<I::Item> {
        match self.1.take() {
            Some(v) => v,
            None => self.0.nx(),
        }
    }
}
pub fn peek<I: It>(p: &mut Peekable<I>) -> Option<&I::Item> {
    if p.1.is_none() {
        p.1 = Some(p.0.nx());
    }
    match &p.1 {
        Some(Some(x)) => Some(x),
        _ => None,
    }
}

pub fn collect_into<I: It>(mut it: I, mut acc: Acc) -> Acc {
    while let Some(x) = it.nx() {
        prim_push(&mut acc, x);
    }
    acc
}
pub fn extend<I: It>(acc: &mut Acc, mut it: I) {
    while let Some(x) = it.nx() {
        prim_push(acc, x);
    }
}
pub fn collect_result<T, E, I: It<Item = Result<T, E>>>(mut it: I, mut acc: Acc) -> Result<Acc, E> {
    while let Some(x) = it.nx() {
        match x {
            Ok(v) => prim_push(&mut acc, v),
            Err(e) => return Err(e),
        }
    }
    Ok(acc)
}
pub fn collect_option<T, I: It<Item = Option<T>>>(mut it: I, mut acc: Acc) -> Option<Acc> {
    while let Some(x) = it.nx() {
        match x {
            Some(v) => prim_push(&mut acc, v),
            None => return None,
        }
    }
    Some(acc)
}
pub fn for_each<I: It, F: FnMut(I::Item)>(mut it: I, mut f: F) {
    while let Some(x) = it.nx() {
        f(x);
    }
}
pub fn fold<I: It, B, F: FnMut(B, I::Item) -> B>(mut it: I, init: B, mut f: F) -> B {
    let mut b = init;
    while let Some(x) = it.nx() {
        b = f(b, x);
    }
    b
}
pub fn try_for_each_result<I: It, E, F: FnMut(I::Item) -> Result<(), E>>(it: &mut I, mut f: F) -> Result<(), E> {
    while let Some(x) = it.nx() {
        match f(x) {
            Ok(()) => {}
            Err(e) => return Err(e),
        }
    }
    Ok(())
}
pub fn try_for_each_option<I: It, F: FnMut(I::Item) -> Option<()>>(it: &mut I, mut f: F) -> Option<()> {
    while let Some(x) = it.nx() {
        match f(x) {
            Some(()) => {}
            None => return None,
        }
    }
    Some(())
}
pub fn try_fold_option<I: It, B, F: FnMut(B, I::Item) -> Option<B>>(it: &mut I, init: B, mut f: F) -> Option<B> {
    let mut b = init;
    while let Some(x) = it.nx() {
        match f(b, x) {
            Some(v) => b = v,
            None => return None,
        }
    }
    Some(b)
}
pub fn try_fold_result<I: It, B, E, F: FnMut(B, I::Item) -> Result<B, E>>(it: &mut I, init: B, mut f: F) -> Result<B, E> {
    let mut b = init;
    while let Some(x) = it.nx() {
        match f(b, x) {
            Ok(v) => b = v,
            Err(e) => return Err(e),
        }
    }
    Ok(b)
}
pub fn any<I: It, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
    while let Some(x) = it.nx() {
        if f(x) {
            return true;
        }
    }
    false
}
pub fn all<I: It, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
    while let Some(x) = it.nx() {
        if !f(x) {
            return false;
        }
    }
    true
}
pub fn find<I: It, F: FnMut(&I::Item) -> bool>(it: &mut I, mut f: F) -> Option<I::Item> {
    while let Some(x) = it.nx() {
        if f(&x) {
            return Some(x);
        }
    }
    None
}
pub fn find_map<I: It, B, F: FnMut(I::Item) -> Option<B>>(it: &mut I, mut f: F) -> Option<B> {
    while let Some(x) = it.nx() {
        if let Some(y) = f(x) {
            return Some(y);
        }
    }
    None
}
pub fn position<I: It, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> Option<usize> {
    let mut i = 0usize;
    while let Some(x) = it.nx() {
        if f(x) {
            return Some(i);
        }
        i = i.wrapping_add(1);
    }
    None
}
pub fn count<I: It>(mut it: I) -> usize {
    let mut i = 0usize;
    while let Some(_x) = it.nx() {
        i = i.wrapping_add(1);
    }
    i
}
pub fn last<I: It>(mut it: I) -> Option<I::Item> {
    let mut r = None;
    while let Some(x) = it.nx() {
        r = Some(x);
    }
    r
}
pub fn sum<I: It<Item = usize>>(mut it: I) -> usize {
    let mut s = 0usize;
    while let Some(x) = it.nx() {
        s += x;
    }
    s
}
pub fn retain<I: It, F: FnMut(&I::Item) -> bool>(mut it: I, mut acc: Acc, mut f: F) -> Acc {
    while let Some(x) = it.nx() {
        if f(&x) {
            prim_push(&mut acc, x);
        }
    }
    acc
}
// Option and Result combinators the driver cannot always follow, and bool::then
pub fn bool_then<T, F: FnOnce() -> T>(b: bool, f: F) -> Option<T> {
    if b { Some(f()) } else { None }
}
pub fn bool_then_some<T>(b: bool, v: T) -> Option<T> {
    if b { Some(v) } else { None }
}
pub fn or_insert_with<T, F: FnOnce() -> T>(v: Option<T>, f: F) -> T {
    match v {
        Some(x) => x,
        None => f(),
    }
}

// ---- futures
use core::task::Poll;
pub struct Elapsed;
pub fn prim_poll<F, T>(_f: &mut F) -> Poll<T> { loop {} }
pub fn prim_elapsed<D>(_d: &D) -> bool { loop {} }
/// tokio::time::timeout: the wrapped future is polled first, then the clock is read
pub fn timeout_poll<F, D, T>(f: &mut F, d: &D) -> Poll<Result<T, Elapsed>> {
    match prim_poll::<F, T>(f) {
        Poll::Ready(v) => Poll::Ready(Ok(v)),
        Poll::Pending => {
            if prim_elapsed(d) {
                Poll::Ready(Err(Elapsed))
            } else {
                Poll::Pending
            }
        }
    }
}
pub struct Timeout<F, D>(pub F, pub D);
/// CancellationToken::run_until_cancelled
pub fn until_cancelled_poll<F, C, T>(f: &mut F, c: &mut C) -> Poll<Option<T>> {
    match prim_poll::<C, ()>(c) {
        Poll::Ready(()) => return Poll::Ready(None),
        Poll::Pending => {}
    }
    match prim_poll::<F, T>(f) {
        Poll::Ready(v) => Poll::Ready(Some(v)),
        Poll::Pending => Poll::Pending,
    }
}
pub struct UntilCancelled<F, C>(pub F, pub C);

/// the end of a value's life
pub fn end_of_life<T>(_x: T) {}
