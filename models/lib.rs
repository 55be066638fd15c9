//! Models for the abstract interpreter.  Nothing here is ever executed: the
//! driver dumps the MIR of these functions and the interpreter walks it in
//! place of standard library functions (first half) or compares it with the
//! code in /repo (module `refs`, the reference behaviours).
#![allow(unused, non_camel_case_types, non_snake_case)]

// ------------------------------------------------------------ Option / Result
pub fn opt_map<T, U, F: FnOnce(T) -> U>(o: Option<T>, f: F) -> Option<U> {
    match o { Some(x) => Some(f(x)), None => None }
}
pub fn opt_and_then<T, U, F: FnOnce(T) -> Option<U>>(o: Option<T>, f: F) -> Option<U> {
    match o { Some(x) => f(x), None => None }
}
pub fn opt_filter<T, F: FnOnce(&T) -> bool>(o: Option<T>, f: F) -> Option<T> {
    match o { Some(x) => if f(&x) { Some(x) } else { None }, None => None }
}
pub fn opt_ok_or<T, E>(o: Option<T>, e: E) -> Result<T, E> {
    match o { Some(x) => Ok(x), None => Err(e) }
}
pub fn opt_ok_or_else<T, E, F: FnOnce() -> E>(o: Option<T>, f: F) -> Result<T, E> {
    match o { Some(x) => Ok(x), None => Err(f()) }
}
pub fn opt_map_or<T, U, F: FnOnce(T) -> U>(o: Option<T>, d: U, f: F) -> U {
    match o { Some(x) => f(x), None => d }
}
pub fn opt_map_or_else<T, U, D: FnOnce() -> U, F: FnOnce(T) -> U>(o: Option<T>, d: D, f: F) -> U {
    match o { Some(x) => f(x), None => d() }
}
pub fn opt_is_some<T>(o: &Option<T>) -> bool { match o { Some(_) => true, None => false } }
pub fn opt_is_none<T>(o: &Option<T>) -> bool { match o { Some(_) => false, None => true } }
pub fn opt_is_some_and<T, F: FnOnce(T) -> bool>(o: Option<T>, f: F) -> bool {
    match o { Some(x) => f(x), None => false }
}
pub fn opt_is_none_or<T, F: FnOnce(T) -> bool>(o: Option<T>, f: F) -> bool {
    match o { Some(x) => f(x), None => true }
}
pub fn opt_unwrap<T>(o: Option<T>) -> T { match o { Some(x) => x, None => panic!() } }
pub fn opt_expect<T>(o: Option<T>, m: &str) -> T { match o { Some(x) => x, None => panic!() } }
pub fn opt_unwrap_or<T>(o: Option<T>, d: T) -> T { match o { Some(x) => x, None => d } }
pub fn opt_unwrap_or_else<T, F: FnOnce() -> T>(o: Option<T>, f: F) -> T {
    match o { Some(x) => x, None => f() }
}
pub fn opt_or<T>(o: Option<T>, d: Option<T>) -> Option<T> { match o { Some(x) => Some(x), None => d } }
pub fn opt_or_else<T, F: FnOnce() -> Option<T>>(o: Option<T>, f: F) -> Option<T> {
    match o { Some(x) => Some(x), None => f() }
}
pub fn opt_and<T, U>(o: Option<T>, d: Option<U>) -> Option<U> { match o { Some(_) => d, None => None } }
pub fn opt_as_ref<T>(o: &Option<T>) -> Option<&T> { match o { Some(x) => Some(x), None => None } }
pub fn opt_as_mut<T>(o: &mut Option<T>) -> Option<&mut T> { match o { Some(x) => Some(x), None => None } }
pub fn opt_copied<T: Copy>(o: Option<&T>) -> Option<T> { match o { Some(x) => Some(*x), None => None } }
pub fn opt_flatten<T>(o: Option<Option<T>>) -> Option<T> { match o { Some(x) => x, None => None } }
pub fn opt_take<T>(o: &mut Option<T>) -> Option<T> { std::mem::replace(o, None) }
pub fn opt_inspect<T, F: FnOnce(&T)>(o: Option<T>, f: F) -> Option<T> {
    match o { Some(x) => { f(&x); Some(x) } None => None }
}
pub fn opt_zip<T, U>(o: Option<T>, d: Option<U>) -> Option<(T, U)> {
    match o { Some(x) => match d { Some(y) => Some((x, y)), None => None }, None => None }
}
pub fn res_map<T, E, U, F: FnOnce(T) -> U>(o: Result<T, E>, f: F) -> Result<U, E> {
    match o { Ok(x) => Ok(f(x)), Err(e) => Err(e) }
}
pub fn res_map_err<T, E, U, F: FnOnce(E) -> U>(o: Result<T, E>, f: F) -> Result<T, U> {
    match o { Ok(x) => Ok(x), Err(e) => Err(f(e)) }
}
pub fn res_and_then<T, E, U, F: FnOnce(T) -> Result<U, E>>(o: Result<T, E>, f: F) -> Result<U, E> {
    match o { Ok(x) => f(x), Err(e) => Err(e) }
}
pub fn res_is_ok<T, E>(o: &Result<T, E>) -> bool { match o { Ok(_) => true, Err(_) => false } }
pub fn res_is_err<T, E>(o: &Result<T, E>) -> bool { match o { Ok(_) => false, Err(_) => true } }
pub fn res_ok<T, E>(o: Result<T, E>) -> Option<T> { match o { Ok(x) => Some(x), Err(_) => None } }
pub fn res_err<T, E>(o: Result<T, E>) -> Option<E> { match o { Ok(_) => None, Err(x) => Some(x) } }
pub fn res_unwrap<T, E>(o: Result<T, E>) -> T { match o { Ok(x) => x, Err(_) => panic!() } }
pub fn res_expect<T, E>(o: Result<T, E>, m: &str) -> T { match o { Ok(x) => x, Err(_) => panic!() } }
pub fn res_unwrap_or_else<T, E, F: FnOnce(E) -> T>(o: Result<T, E>, f: F) -> T {
    match o { Ok(x) => x, Err(e) => f(e) }
}
pub fn res_unwrap_or<T, E>(o: Result<T, E>, d: T) -> T { match o { Ok(x) => x, Err(e) => d } }
pub fn res_map_or<T, E, U, F: FnOnce(T) -> U>(o: Result<T, E>, d: U, f: F) -> U {
    match o { Ok(x) => f(x), Err(_) => d }
}
pub fn res_as_ref<T, E>(o: &Result<T, E>) -> Result<&T, &E> {
    match o { Ok(x) => Ok(x), Err(e) => Err(e) }
}
pub fn bool_then<T, F: FnOnce() -> T>(b: bool, f: F) -> Option<T> { if b { Some(f()) } else { None } }
pub fn bool_then_some<T>(b: bool, t: T) -> Option<T> { if b { Some(t) } else { None } }

// ------------------------------------------------------------ iterators
pub struct MapIt<I, F>(pub I, pub F);
pub fn map_next<I: Iterator, B, F: FnMut(I::Item) -> B>(m: &mut MapIt<I, F>) -> Option<B> {
    match m.0.next() { Some(x) => Some((m.1)(x)), None => None }
}
pub struct FilterIt<I, F>(pub I, pub F);
pub fn filter_next<I: Iterator, F: FnMut(&I::Item) -> bool>(m: &mut FilterIt<I, F>) -> Option<I::Item> {
    loop {
        match m.0.next() {
            Some(x) => if (m.1)(&x) { return Some(x) },
            None => return None,
        }
    }
}
pub fn filter_map_next<I: Iterator, B, F: FnMut(I::Item) -> Option<B>>(m: &mut FilterIt<I, F>) -> Option<B> {
    loop {
        match m.0.next() {
            Some(x) => match (m.1)(x) { Some(y) => return Some(y), None => {} },
            None => return None,
        }
    }
}
pub struct ChainIt<A, B>(pub Option<A>, pub B);
pub fn chain_next<T, A: Iterator<Item = T>, B: Iterator<Item = T>>(m: &mut ChainIt<A, B>) -> Option<T> {
    match &mut m.0 {
        Some(a) => match a.next() { Some(x) => return Some(x), None => m.0 = None },
        None => {}
    }
    m.1.next()
}
pub struct EnumIt<I>(pub I, pub usize);
pub fn enum_next<I: Iterator>(m: &mut EnumIt<I>) -> Option<(usize, I::Item)> {
    match m.0.next() {
        Some(x) => { let i = m.1; m.1 += 1; Some((i, x)) }
        None => None,
    }
}
pub fn it_all<I: Iterator, F: FnMut(I::Item) -> bool>(i: &mut I, mut f: F) -> bool {
    loop { match i.next() { Some(x) => if !f(x) { return false }, None => return true } }
}
pub fn it_any<I: Iterator, F: FnMut(I::Item) -> bool>(i: &mut I, mut f: F) -> bool {
    loop { match i.next() { Some(x) => if f(x) { return true }, None => return false } }
}
pub fn it_find<I: Iterator, F: FnMut(&I::Item) -> bool>(i: &mut I, mut f: F) -> Option<I::Item> {
    loop { match i.next() { Some(x) => if f(&x) { return Some(x) }, None => return None } }
}
pub fn it_for_each<I: Iterator, F: FnMut(I::Item)>(mut i: I, mut f: F) {
    loop { match i.next() { Some(x) => f(x), None => return } }
}
pub fn it_try_fold_opt<I: Iterator, B, F: FnMut(B, I::Item) -> Option<B>>(i: &mut I, init: B, mut f: F) -> Option<B> {
    let mut acc = init;
    loop { match i.next() { Some(x) => match f(acc, x) { Some(b) => acc = b, None => return None }, None => return Some(acc) } }
}
pub fn it_fold<I: Iterator, B, F: FnMut(B, I::Item) -> B>(mut i: I, init: B, mut f: F) -> B {
    let mut acc = init;
    loop { match i.next() { Some(x) => acc = f(acc, x), None => return acc } }
}

// ------------------------------------------------------------ lists
pub fn vec_retain<T, F: FnMut(&T) -> bool>(v: &mut Vec<T>, mut f: F) {
    let old = core::mem::take(v);
    for x in old { if f(&x) { v.push(x) } }
}
pub fn vec_dedup_by_key<T, K: PartialEq, F: FnMut(&mut T) -> K>(v: &mut Vec<T>, mut f: F) {
    let old = core::mem::take(v);
    for mut x in old {
        match v.last_mut() {
            Some(y) => { if f(&mut x) == f(y) { continue } }
            None => {}
        }
        v.push(x)
    }
}
pub fn vec_dedup_by<T, F: FnMut(&mut T, &mut T) -> bool>(v: &mut Vec<T>, mut f: F) {
    let old = core::mem::take(v);
    for mut x in old {
        match v.last_mut() {
            Some(y) => { if f(&mut x, y) { continue } }
            None => {}
        }
        v.push(x)
    }
}
pub fn vec_dedup<T: PartialEq>(v: &mut Vec<T>) {
    let old = core::mem::take(v);
    for x in old {
        match v.last() {
            Some(y) => { if x == *y { continue } }
            None => {}
        }
        v.push(x)
    }
}
pub fn vec_extend<T, I: IntoIterator<Item = T>>(v: &mut Vec<T>, i: I) {
    for x in i { v.push(x) }
}
pub fn vec_append<T>(v: &mut Vec<T>, o: &mut Vec<T>) {
    let old = core::mem::take(o);
    for x in old { v.push(x) }
}
pub fn vec_reverse<T>(v: &mut Vec<T>) {
    let mut old = core::mem::take(v);
    loop { match old.pop() { Some(x) => v.push(x), None => return } }
}
pub fn vec_truncate<T>(v: &mut Vec<T>, n: usize) {
    while v.len() > n { v.pop(); }
}
pub struct CountIt<I>(pub I, pub usize);
pub fn take_next<I: Iterator>(m: &mut CountIt<I>) -> Option<I::Item> {
    if m.1 == 0 { return None }
    m.1 -= 1;
    m.0.next()
}
pub fn skip_next<I: Iterator>(m: &mut CountIt<I>) -> Option<I::Item> {
    while m.1 > 0 {
        m.1 -= 1;
        match m.0.next() { Some(_) => {}, None => return None }
    }
    m.0.next()
}

// ------------------------------------------------------------ parser vocabulary
#[derive(Clone, Copy)]
pub struct Pos(usize);
pub struct Stk(usize);
pub struct Trk(usize);
#[derive(Clone, Copy)]
pub struct Sp(usize);
#[derive(Clone, Copy)]
pub struct Rl(usize);
pub struct It(usize);

pub trait Node: Sized {
    fn parse(i: Pos, s: &mut Stk, t: &mut Trk) -> Option<(Pos, Self)>;
    fn check(i: Pos, s: &mut Stk, t: &mut Trk) -> Option<Pos>;
}
pub trait Cont {
    const CONTENT: &'static str;
}
pub trait HasEoi {
    const EOI: Rl;
}
pub struct Er(usize);
pub fn pos_start(s: &str) -> Pos { panic!() }
pub fn new_stack() -> Stk { panic!() }
pub fn collect(t: Trk) -> Er { panic!() }
pub trait HasRule {
    const RULE: Rl;
}

// effects; every one of these is a hook of the interpreter
pub fn snapshot(s: &mut Stk) { panic!() }
pub fn restore(s: &mut Stk) { panic!() }
pub fn clear(s: &mut Stk) { panic!() }
pub fn push(s: &mut Stk, x: Sp) { panic!() }
pub fn pop(s: &mut Stk) -> Option<Sp> { panic!() }
pub fn peek(s: &Stk) -> Option<&Sp> { panic!() }
pub fn slen(s: &Stk) -> usize { panic!() }
pub fn span(a: &Pos, b: &Pos) -> Sp { panic!() }
pub fn as_str(a: &Sp) -> &'static str { panic!() }
pub fn first_char(a: &str) -> char { panic!() }
pub fn match_string(p: &mut Pos, s: &str) -> bool { panic!() }
pub fn match_insensitive(p: &mut Pos, s: &str) -> bool { panic!() }
pub fn skip(p: &mut Pos, n: usize) -> bool { panic!() }
pub fn at_start(p: &Pos) -> bool { panic!() }
pub fn at_end(p: &Pos) -> bool { panic!() }
pub fn char_str(c: char) -> &'static str { panic!() }
pub fn peek_char(p: &Pos) -> Option<char> { panic!() }
pub fn advance_char(p: &mut Pos) { panic!() }
pub fn whole_rev(s: &Stk) -> It { panic!() }
pub fn slice_iter(s: &Stk, a: usize, b: usize) -> It { panic!() }
pub fn next_span(i: &mut It) -> Option<&'static Sp> { panic!() }
pub fn e_empty_stack(t: &mut Trk, p: Pos) { panic!() }
pub fn e_out_of_bound(t: &mut Trk, p: Pos, a: isize, b: Option<isize>) { panic!() }
pub fn new_tracker(p: Pos) -> Trk { panic!() }
pub fn begin_positive(t: &mut Trk) { panic!() }
pub fn begin_negative(t: &mut Trk) { panic!() }
pub fn end_polarity(t: &mut Trk) { panic!() }
pub fn begin_rule<R>(t: &mut Trk, r: R, p: Pos) { panic!() }
pub fn end_rule(t: &mut Trk, ok: bool) { panic!() }

// models of pest3_core's own position/tracker primitives (each is checked
// against its own specification elsewhere)
pub fn p_next_char(p: &mut Pos) -> Option<char> {
    match peek_char(p) { Some(c) => { advance_char(p); Some(c) } None => None }
}
pub fn p_match_char(p: &Pos, c: char) -> bool {
    match peek_char(p) { Some(d) => d == c, None => false }
}
pub fn p_match_char_by<F: FnOnce(char) -> bool>(p: &mut Pos, f: F) -> bool {
    match peek_char(p) {
        Some(c) => if f(c) { advance_char(p); true } else { false },
        None => false,
    }
}
pub fn p_match_range(p: &mut Pos, r: core::ops::Range<char>) -> bool {
    match peek_char(p) {
        Some(c) => if r.start <= c && c <= r.end { advance_char(p); true } else { false },
        None => false,
    }
}
pub fn t_positive<Ret, F: FnOnce(&mut Trk) -> Ret>(t: &mut Trk, f: F) -> Ret {
    begin_positive(t);
    let r = f(t);
    end_polarity(t);
    r
}
pub fn t_negative<Ret, F: FnOnce(&mut Trk) -> Ret>(t: &mut Trk, f: F) -> Ret {
    begin_negative(t);
    let r = f(t);
    end_polarity(t);
    r
}
pub fn t_record_opt<T, F: FnOnce(&mut Trk) -> Option<T>, R>(t: &mut Trk, p: Pos, f: F, r: R) -> Option<T> {
    begin_rule(t, r, p);
    let x = f(t);
    match x { Some(x) => { end_rule(t, true); Some(x) } None => { end_rule(t, false); None } }
}
pub fn range_next(r: &mut core::ops::Range<usize>) -> Option<usize> {
    if r.start < r.end { let i = r.start; r.start = i + 1; Some(i) } else { None }
}
pub struct RangeInc(pub usize, pub usize, pub bool);
pub fn rangeinc_next(r: &mut RangeInc) -> Option<usize> {
    if r.2 || r.0 > r.1 { return None; }
    let i = r.0;
    if i == r.1 { r.2 = true; } else { r.0 = i + 1; }
    Some(i)
}

// ------------------------------------------------------------ reference behaviours
pub mod refs {
    use super::*;
    type O<T> = Option<(Pos, T)>;
    type A<'a> = &'a mut Stk;
    type B<'a> = &'a mut Trk;
    pub struct V0;
    pub struct V1<T>(pub T);
    pub struct V2<T, U>(pub T, pub U);

    macro_rules! refs_choice {
        ($($name:ident $p:ident $c:ident : $($t:ident)+ ;)*) => { $(
            pub enum $name<$($t),+> { $($t($t)),+ }
            pub fn $p<$($t: Node),+>(i: Pos, s: A<'_>, t: B<'_>) -> O<$name<$($t),+>> {
                $(
                    snapshot(s);
                    if let Some((e, v)) = $t::parse(i, s, t) {
                        clear(s);
                        return Some((e, $name::$t(v)));
                    }
                    restore(s);
                )+
                None
            }
            pub fn $c<$($t: Node),+>(i: Pos, s: A<'_>, t: B<'_>) -> Option<Pos> {
                $(
                    snapshot(s);
                    if let Some(e) = $t::check(i, s, t) {
                        clear(s);
                        return Some(e);
                    }
                    restore(s);
                )+
                None
            }
        )* }
    }
    refs_choice! {
        Ch2 choice_p2 choice_c2: T0 T1;
        Ch3 choice_p3 choice_c3: T0 T1 T2;
        Ch4 choice_p4 choice_c4: T0 T1 T2 T3;
        Ch5 choice_p5 choice_c5: T0 T1 T2 T3 T4;
        Ch6 choice_p6 choice_c6: T0 T1 T2 T3 T4 T5;
        Ch7 choice_p7 choice_c7: T0 T1 T2 T3 T4 T5 T6;
        Ch8 choice_p8 choice_c8: T0 T1 T2 T3 T4 T5 T6 T7;
        Ch9 choice_p9 choice_c9: T0 T1 T2 T3 T4 T5 T6 T7 T8;
        Ch10 choice_p10 choice_c10: T0 T1 T2 T3 T4 T5 T6 T7 T8 T9;
        Ch11 choice_p11 choice_c11: T0 T1 T2 T3 T4 T5 T6 T7 T8 T9 T10;
        Ch12 choice_p12 choice_c12: T0 T1 T2 T3 T4 T5 T6 T7 T8 T9 T10 T11;
        Ch13 choice_p13 choice_c13: T0 T1 T2 T3 T4 T5 T6 T7 T8 T9 T10 T11 T12;
        Ch14 choice_p14 choice_c14: T0 T1 T2 T3 T4 T5 T6 T7 T8 T9 T10 T11 T12 T13;
        Ch15 choice_p15 choice_c15: T0 T1 T2 T3 T4 T5 T6 T7 T8 T9 T10 T11 T12 T13 T14;
        Ch16 choice_p16 choice_c16: T0 T1 T2 T3 T4 T5 T6 T7 T8 T9 T10 T11 T12 T13 T14 T15;
    }

    macro_rules! refs_seq {
        ($($name:ident $p:ident $c:ident : $t0:ident $r0:ident $($t:ident $r:ident)+ ;)*) => { $(
            pub struct $name<$t0, $($t),+> { $t0: $t0, $($t: $t),+ }
            pub fn $p<$t0: Node, $r0: Node, $($t: Node, $r: Node),+>(i: Pos, s: A<'_>, t: B<'_>) -> O<$name<$t0, $($t),+>> {
                let (at, $t0) = $t0::parse(i, s, t)?;
                $(
                    let at = $r::check(at, s, t)?;
                    let (at, $t) = $t::parse(at, s, t)?;
                )+
                Some((at, $name { $t0, $($t),+ }))
            }
            pub fn $c<$t0: Node, $r0: Node, $($t: Node, $r: Node),+>(i: Pos, s: A<'_>, t: B<'_>) -> Option<Pos> {
                let at = $t0::check(i, s, t)?;
                $(
                    let at = $r::check(at, s, t)?;
                    let at = $t::check(at, s, t)?;
                )+
                Some(at)
            }
        )* }
    }
    refs_seq! {
        Sq2 seq_p2 seq_c2: T0 TR0 T1 TR1;
        Sq3 seq_p3 seq_c3: T0 TR0 T1 TR1 T2 TR2;
        Sq4 seq_p4 seq_c4: T0 TR0 T1 TR1 T2 TR2 T3 TR3;
        Sq5 seq_p5 seq_c5: T0 TR0 T1 TR1 T2 TR2 T3 TR3 T4 TR4;
        Sq6 seq_p6 seq_c6: T0 TR0 T1 TR1 T2 TR2 T3 TR3 T4 TR4 T5 TR5;
        Sq7 seq_p7 seq_c7: T0 TR0 T1 TR1 T2 TR2 T3 TR3 T4 TR4 T5 TR5 T6 TR6;
        Sq8 seq_p8 seq_c8: T0 TR0 T1 TR1 T2 TR2 T3 TR3 T4 TR4 T5 TR5 T6 TR6 T7 TR7;
        Sq9 seq_p9 seq_c9: T0 TR0 T1 TR1 T2 TR2 T3 TR3 T4 TR4 T5 TR5 T6 TR6 T7 TR7 T8 TR8;
        Sq10 seq_p10 seq_c10: T0 TR0 T1 TR1 T2 TR2 T3 TR3 T4 TR4 T5 TR5 T6 TR6 T7 TR7 T8 TR8 T9 TR9;
        Sq11 seq_p11 seq_c11: T0 TR0 T1 TR1 T2 TR2 T3 TR3 T4 TR4 T5 TR5 T6 TR6 T7 TR7 T8 TR8 T9 TR9 T10 TR10;
        Sq12 seq_p12 seq_c12: T0 TR0 T1 TR1 T2 TR2 T3 TR3 T4 TR4 T5 TR5 T6 TR6 T7 TR7 T8 TR8 T9 TR9 T10 TR10 T11 TR11;
        Sq13 seq_p13 seq_c13: T0 TR0 T1 TR1 T2 TR2 T3 TR3 T4 TR4 T5 TR5 T6 TR6 T7 TR7 T8 TR8 T9 TR9 T10 TR10 T11 TR11 T12 TR12;
        Sq14 seq_p14 seq_c14: T0 TR0 T1 TR1 T2 TR2 T3 TR3 T4 TR4 T5 TR5 T6 TR6 T7 TR7 T8 TR8 T9 TR9 T10 TR10 T11 TR11 T12 TR12 T13 TR13;
        Sq15 seq_p15 seq_c15: T0 TR0 T1 TR1 T2 TR2 T3 TR3 T4 TR4 T5 TR5 T6 TR6 T7 TR7 T8 TR8 T9 TR9 T10 TR10 T11 TR11 T12 TR12 T13 TR13 T14 TR14;
        Sq16 seq_p16 seq_c16: T0 TR0 T1 TR1 T2 TR2 T3 TR3 T4 TR4 T5 TR5 T6 TR6 T7 TR7 T8 TR8 T9 TR9 T10 TR10 T11 TR11 T12 TR12 T13 TR13 T14 TR14 T15 TR15;
    }

    // repetition: the whole unit (trivia then item) is undone when it fails
    pub fn rep_p<T: Node, TRIVIA: Node, const MIN: usize, const MAX: usize>(i: Pos, s: A<'_>, t: B<'_>) -> O<V1<Vec<T>>> {
        let mut at = i;
        let mut n = 0usize;
        let mut v = Vec::new();
        while n < MAX {
            snapshot(s);
            let mut p = at;
            if n > 0 {
                match TRIVIA::check(p, s, t) {
                    Some(q) => p = q,
                    None => {
                        restore(s);
                        if n < MIN { return None; }
                        return Some((at, V1(v)));
                    }
                }
            }
            match T::parse(p, s, t) {
                Some((q, x)) => {
                    clear(s);
                    at = q;
                    n += 1;
                    v.push(x);
                }
                None => {
                    restore(s);
                    if n < MIN { return None; }
                    return Some((at, V1(v)));
                }
            }
        }
        Some((at, V1(v)))
    }
    pub fn rep_c<T: Node, TRIVIA: Node, const MIN: usize, const MAX: usize>(i: Pos, s: A<'_>, t: B<'_>) -> Option<Pos> {
        let mut at = i;
        let mut n = 0usize;
        while n < MAX {
            snapshot(s);
            let mut p = at;
            if n > 0 {
                match TRIVIA::check(p, s, t) {
                    Some(q) => p = q,
                    None => {
                        restore(s);
                        if n < MIN { return None; }
                        return Some(at);
                    }
                }
            }
            match T::check(p, s, t) {
                Some(q) => {
                    clear(s);
                    at = q;
                    n += 1;
                }
                None => {
                    restore(s);
                    if n < MIN { return None; }
                    return Some(at);
                }
            }
        }
        Some(at)
    }
    // the never failing form (minimum 0)
    pub fn rep_n<T: Node, TRIVIA: Node, const MAX: usize>(i: Pos, s: A<'_>) -> (Pos, V1<Vec<T>>) {
        let mut trk = new_tracker(i);
        let t = &mut trk;
        let mut at = i;
        let mut n = 0usize;
        let mut v = Vec::new();
        while n < MAX {
            snapshot(s);
            let mut p = at;
            if n > 0 {
                match TRIVIA::check(p, s, t) {
                    Some(q) => p = q,
                    None => {
                        restore(s);
                        return (at, V1(v));
                    }
                }
            }
            match T::parse(p, s, t) {
                Some((q, x)) => {
                    clear(s);
                    at = q;
                    n += 1;
                    v.push(x);
                }
                None => {
                    restore(s);
                    return (at, V1(v));
                }
            }
        }
        (at, V1(v))
    }

    pub fn positive_p<T: Node>(i: Pos, s: A<'_>, t: B<'_>) -> O<V1<T>> {
        begin_positive(t);
        snapshot(s);
        let r = T::parse(i, s, t);
        restore(s);
        end_polarity(t);
        match r { Some((_, v)) => Some((i, V1(v))), None => None }
    }
    pub fn positive_c<T: Node>(i: Pos, s: A<'_>, t: B<'_>) -> Option<Pos> {
        begin_positive(t);
        snapshot(s);
        let r = T::check(i, s, t);
        restore(s);
        end_polarity(t);
        match r { Some(_) => Some(i), None => None }
    }
    pub fn negative_p<T: Node>(i: Pos, s: A<'_>, t: B<'_>) -> O<V0> {
        begin_negative(t);
        snapshot(s);
        let r = T::check(i, s, t);
        restore(s);
        end_polarity(t);
        match r { Some(_) => None, None => Some((i, V0)) }
    }
    pub fn negative_c<T: Node>(i: Pos, s: A<'_>, t: B<'_>) -> Option<Pos> {
        begin_negative(t);
        snapshot(s);
        let r = T::check(i, s, t);
        restore(s);
        end_polarity(t);
        match r { Some(_) => None, None => Some(i) }
    }
    pub fn option_p<T: Node>(i: Pos, s: A<'_>, t: B<'_>) -> O<Option<T>> {
        snapshot(s);
        match T::parse(i, s, t) {
            Some((e, v)) => { clear(s); Some((e, Some(v))) }
            None => { restore(s); Some((i, None)) }
        }
    }
    pub fn option_c<T: Node>(i: Pos, s: A<'_>, t: B<'_>) -> Option<Pos> {
        snapshot(s);
        match T::check(i, s, t) {
            Some(e) => { clear(s); Some(e) }
            None => { restore(s); Some(i) }
        }
    }
    pub fn push_p<T: Node>(i: Pos, s: A<'_>, t: B<'_>) -> O<V1<T>> {
        let (e, v) = T::parse(i, s, t)?;
        push(s, span(&i, &e));
        Some((e, V1(v)))
    }
    pub fn push_c<T: Node>(i: Pos, s: A<'_>, t: B<'_>) -> Option<Pos> {
        let e = T::check(i, s, t)?;
        push(s, span(&i, &e));
        Some(e)
    }
    pub fn str_p<T: Cont>(mut i: Pos, s: A<'_>, t: B<'_>) -> O<V0> {
        if match_string(&mut i, T::CONTENT) { Some((i, V0)) } else { None }
    }
    pub fn insens_p<T: Cont>(mut i: Pos, s: A<'_>, t: B<'_>) -> O<V1<&'static str>> {
        let st = i;
        if match_insensitive(&mut i, T::CONTENT) { Some((i, V1(as_str(&span(&st, &i))))) } else { None }
    }
    pub fn skip_p<const N: usize>(mut i: Pos, s: A<'_>, t: B<'_>) -> O<V1<Sp>> {
        let st = i;
        if skip(&mut i, N) { Some((i, V1(span(&st, &i)))) } else { None }
    }
    pub fn range_p<const MIN: char, const MAX: char>(mut i: Pos, s: A<'_>, t: B<'_>) -> O<V1<char>> {
        match peek_char(&i) {
            Some(c) => if MIN <= c && c <= MAX { advance_char(&mut i); Some((i, V1(c))) } else { None },
            None => None,
        }
    }
    pub fn char_p<const CHAR: char>(mut i: Pos, s: A<'_>, t: B<'_>) -> O<V0> {
        if match_string(&mut i, char_str(CHAR)) { Some((i, V0)) } else { None }
    }
    pub fn any_p(mut i: Pos, s: A<'_>, t: B<'_>) -> O<V1<char>> {
        match peek_char(&i) { Some(c) => { advance_char(&mut i); Some((i, V1(c))) } None => None }
    }
    pub fn none_p(i: Pos, s: A<'_>, t: B<'_>) -> O<V0> { None }
    pub fn empty_p(i: Pos, s: A<'_>, t: B<'_>) -> O<V0> { Some((i, V0)) }
    pub fn empty_n(i: Pos, s: A<'_>) -> (Pos, V0) { (i, V0) }
    pub fn soi_p(i: Pos, s: A<'_>, t: B<'_>) -> O<V0> { if at_start(&i) { Some((i, V0)) } else { None } }
    pub fn eoi_p(i: Pos, s: A<'_>, t: B<'_>) -> O<V0> { if at_end(&i) { Some((i, V0)) } else { None } }
    pub enum Nl { CRLF, LF, CR }
    pub fn newline_p(mut i: Pos, s: A<'_>, t: B<'_>) -> O<V1<Nl>> {
        if match_string(&mut i, "\r\n") { return Some((i, V1(Nl::CRLF))); }
        if match_string(&mut i, "\n") { return Some((i, V1(Nl::LF))); }
        if match_string(&mut i, "\r") { return Some((i, V1(Nl::CR))); }
        None
    }
    pub fn peek_all_p(i: Pos, s: A<'_>, t: B<'_>) -> O<V1<Sp>> {
        let mut it = whole_rev(s);
        let mut at = i;
        loop {
            match next_span(&mut it) {
                Some(x) => if !match_string(&mut at, as_str(x)) { return None },
                None => return Some((at, V1(span(&i, &at)))),
            }
        }
    }
    pub fn pop_all_p(i: Pos, s: A<'_>, t: B<'_>) -> O<V1<Sp>> {
        let mut it = whole_rev(s);
        let mut at = i;
        loop {
            match next_span(&mut it) {
                Some(x) => if !match_string(&mut at, as_str(x)) { return None },
                None => break,
            }
        }
        loop { match pop(s) { Some(_) => {} None => break } }
        Some((at, V1(span(&i, &at))))
    }
    pub fn peek_p(mut i: Pos, s: A<'_>, t: B<'_>) -> O<V1<Sp>> {
        let st = i;
        match peek(s) {
            Some(x) => if match_string(&mut i, as_str(x)) { Some((i, V1(span(&st, &i)))) } else { None },
            None => { e_empty_stack(t, i); None }
        }
    }
    pub fn pop_p(mut i: Pos, s: A<'_>, t: B<'_>) -> O<V1<Sp>> {
        match pop(s) {
            Some(x) => if match_string(&mut i, as_str(&x)) { Some((i, V1(x))) } else { None },
            None => { e_empty_stack(t, i); None }
        }
    }
    // the node may also record the span it matched in the input
    pub fn pop_p2(mut i: Pos, s: A<'_>, t: B<'_>) -> O<V1<Sp>> {
        let st = i;
        match pop(s) {
            Some(x) => if match_string(&mut i, as_str(&x)) { Some((i, V1(span(&st, &i)))) } else { None },
            None => { e_empty_stack(t, i); None }
        }
    }
    // looking at the top first and removing it only after a match is the same:
    // a failed node's stack effects are undone by whoever tries something else
    pub fn pop_p3(mut i: Pos, s: A<'_>, t: B<'_>) -> O<V1<Sp>> {
        match peek(s) {
            Some(x) => if match_string(&mut i, as_str(x)) {
                match pop(s) { Some(x) => Some((i, V1(x))), None => None }
            } else { None },
            None => { e_empty_stack(t, i); None }
        }
    }
    pub fn pop_p4(mut i: Pos, s: A<'_>, t: B<'_>) -> O<V1<Sp>> {
        let st = i;
        match peek(s) {
            Some(x) => if match_string(&mut i, as_str(x)) { pop(s); Some((i, V1(span(&st, &i)))) } else { None },
            None => { e_empty_stack(t, i); None }
        }
    }
    pub fn pop_all_p2(i: Pos, s: A<'_>, t: B<'_>) -> O<V1<Sp>> {
        let mut at = i;
        loop {
            match pop(s) {
                Some(x) => if !match_string(&mut at, as_str(&x)) { return None },
                None => return Some((at, V1(span(&i, &at)))),
            }
        }
    }
    pub fn char_p2<const CHAR: char>(mut i: Pos, s: A<'_>, t: B<'_>) -> O<V0> {
        match peek_char(&i) {
            Some(c) => if c == CHAR { advance_char(&mut i); Some((i, V0)) } else { None },
            None => None,
        }
    }
    pub fn drop_p(i: Pos, s: A<'_>, t: B<'_>) -> O<V0> {
        match pop(s) {
            Some(_) => Some((i, V0)),
            None => { e_empty_stack(t, i); None }
        }
    }
    // an index counts from the bottom when not negative, else from the top
    fn resolve(i: isize, len: usize) -> Option<usize> {
        if i > len as isize { return None; }
        if i >= 0 { return Some(i as usize); }
        if i < -(len as isize) { return None; }
        Some((i + len as isize) as usize)
    }
    fn slice_match(i: Pos, s: A<'_>, t: B<'_>, a: isize, b: Option<isize>) -> O<V0> {
        let len = slen(s);
        let x = resolve(a, len);
        let y = match b { Some(b) => resolve(b, len), None => Some(len) };
        let (x, y) = match (x, y) {
            (Some(x), Some(y)) => (x, y),
            _ => { e_out_of_bound(t, i, a, b); return None }
        };
        if y <= x { return Some((i, V0)); }
        let mut it = slice_iter(s, x, y);
        let mut at = i;
        loop {
            match next_span(&mut it) {
                Some(x) => if !match_string(&mut at, as_str(x)) { return None },
                None => return Some((at, V0)),
            }
        }
    }
    pub fn peek2_p<const START: isize, const END: isize>(i: Pos, s: A<'_>, t: B<'_>) -> O<V0> {
        slice_match(i, s, t, START, Some(END))
    }
    pub fn peek1_p<const START: isize>(i: Pos, s: A<'_>, t: B<'_>) -> O<V0> {
        slice_match(i, s, t, START, None)
    }
    pub fn prop_p(mut i: Pos, s: A<'_>, t: B<'_>) -> O<V1<char>> {
        match peek_char(&i) {
            Some(c) => if prop(c) { advance_char(&mut i); Some((i, V1(c))) } else { None },
            None => None,
        }
    }
    pub fn prop(c: char) -> bool { panic!() }
    // entry points
    pub fn entry_partial<T: Node, K: HasEoi>(i: Pos, s: A<'_>, t: B<'_>) -> O<T> { T::parse(i, s, t) }
    pub fn entry_with<T: Node, K: HasEoi>(i: Pos, s: A<'_>, t: B<'_>) -> Option<T> {
        let (at, v) = T::parse(i, s, t)?;
        begin_rule(t, K::EOI, at);
        if at_end(&at) { end_rule(t, true); Some(v) } else { end_rule(t, false); None }
    }
    pub fn entry_check_with<T: Node, K: HasEoi>(i: Pos, s: A<'_>, t: B<'_>) -> bool {
        match T::check(i, s, t) {
            Some(at) => {
                begin_rule(t, K::EOI, at);
                if at_end(&at) { end_rule(t, true); true } else { end_rule(t, false); false }
            }
            None => false,
        }
    }
    pub fn str_partial<T: Node, K: HasEoi>(i: &'static str) -> Result<(Pos, T), Er> {
        let p = pos_start(i);
        let mut s = new_stack();
        let mut t = new_tracker(p);
        match T::parse(p, &mut s, &mut t) { Some(x) => Ok(x), None => Err(collect(t)) }
    }
    pub fn str_parse<T: Node, K: HasEoi>(i: &'static str) -> Result<T, Er> {
        let p = pos_start(i);
        let mut s = new_stack();
        let mut t = new_tracker(p);
        match entry_with::<T, K>(p, &mut s, &mut t) { Some(x) => Ok(x), None => Err(collect(t)) }
    }
    pub fn str_check_partial<T: Node, K: HasEoi>(i: &'static str) -> Result<Pos, Er> {
        let p = pos_start(i);
        let mut s = new_stack();
        let mut t = new_tracker(p);
        match T::check(p, &mut s, &mut t) { Some(x) => Ok(x), None => Err(collect(t)) }
    }
    pub fn str_check<T: Node, K: HasEoi>(i: &'static str) -> Result<(), Er> {
        let p = pos_start(i);
        let mut s = new_stack();
        let mut t = new_tracker(p);
        if entry_check_with::<T, K>(p, &mut s, &mut t) { Ok(()) } else { Err(collect(t)) }
    }
    pub trait NeverNode: Sized { fn parse_with_partial(i: Pos, s: &mut Stk) -> (Pos, Self); }
    pub fn str_never<T: NeverNode, K: HasEoi>(i: &'static str) -> (Pos, T) {
        let p = pos_start(i);
        let mut s = new_stack();
        T::parse_with_partial(p, &mut s)
    }
    // generated rule
    pub fn rule_p<T: Node, K: HasRule>(i: Pos, s: A<'_>, t: B<'_>) -> O<V2<T, Sp>> {
        begin_rule(t, K::RULE, i);
        match T::parse(i, s, t) {
            Some((e, v)) => { end_rule(t, true); Some((e, V2(v, span(&i, &e)))) }
            None => { end_rule(t, false); None }
        }
    }
    pub fn rule_c<T: Node, K: HasRule>(i: Pos, s: A<'_>, t: B<'_>) -> Option<Pos> {
        begin_rule(t, K::RULE, i);
        match T::check(i, s, t) {
            Some(e) => { end_rule(t, true); Some(e) }
            None => { end_rule(t, false); None }
        }
    }
}

/// Reference behaviours of the value-level functions (positions, spans, tracker ...).
pub mod vals {
    use core::ops::Range;
    #[derive(Clone, Copy)]
    pub struct P { pub input: &'static str, pub pos: usize }
    #[derive(Clone, Copy)]
    pub struct S { pub input: &'static str, pub start: usize, pub end: usize }

    pub fn pos_new(input: &'static str, pos: usize) -> Option<P> {
        if input.get(pos..).is_some() { Some(P { input, pos }) } else { None }
    }
    pub fn pos_new_unchecked(input: &'static str, pos: usize) -> P { P { input, pos } }
    pub fn pos_from_start(input: &'static str) -> P { P { input, pos: 0 } }
    pub fn pos_pos(p: &P) -> usize { p.pos }
    pub fn pos_span(p: &P, o: &P) -> S {
        if core::ptr::eq(p.input, o.input) { S { input: p.input, start: p.pos, end: o.pos } } else { panic!() }
    }
    pub fn pos_at_start(p: &P) -> bool { p.pos == 0 }
    pub fn pos_at_end(p: &P) -> bool { p.pos == p.input.len() }
    pub fn pos_skip(p: &mut P, n: usize) -> bool {
        let mut len = 0;
        let mut chars = p.input[p.pos..].chars();
        let mut i = 0;
        while i < n {
            match chars.next() {
                Some(c) => len += c.len_utf8(),
                None => return false,
            }
            i += 1;
        }
        p.pos += len;
        true
    }
    pub fn pos_next_char(p: &mut P) -> Option<char> {
        match p.input[p.pos..].chars().next() {
            Some(c) => { p.pos += c.len_utf8(); Some(c) }
            None => None,
        }
    }
    pub fn pos_match_char(p: &P, c: char) -> bool {
        match p.input[p.pos..].chars().next() { Some(d) => d == c, None => false }
    }
    pub fn pos_match_char_by<F: FnOnce(char) -> bool>(p: &mut P, f: F) -> bool {
        match p.input[p.pos..].chars().next() {
            Some(c) => if f(c) { p.pos += c.len_utf8(); true } else { false },
            None => false,
        }
    }
    pub fn pos_match_string(p: &mut P, s: &str) -> bool {
        if p.input[p.pos..].starts_with(s) { p.pos += s.len(); true } else { false }
    }
    pub fn pos_match_insensitive(p: &mut P, s: &str) -> bool {
        match p.input[p.pos..].get(0..s.len()) {
            Some(t) => if t.eq_ignore_ascii_case(s) { p.pos += s.len(); true } else { false },
            None => false,
        }
    }
    pub fn pos_match_range(p: &mut P, r: Range<char>) -> bool {
        match p.input[p.pos..].chars().next() {
            Some(c) => if r.start <= c && c <= r.end { p.pos += c.len_utf8(); true } else { false },
            None => false,
        }
    }
    pub fn pos_eq(p: &P, o: &P) -> bool { core::ptr::eq(p.input, o.input) && p.pos == o.pos }
    pub fn pos_eq2(p: &P, o: &P) -> bool { p.input == o.input && p.pos == o.pos }

    pub fn span_new(input: &'static str, start: usize, end: usize) -> Option<S> {
        if input.get(start..end).is_some() { Some(S { input, start, end }) } else { None }
    }
    pub fn span_new_unchecked(input: &'static str, start: usize, end: usize) -> S { S { input, start, end } }
    pub fn span_start(s: &S) -> usize { s.start }
    pub fn span_end(s: &S) -> usize { s.end }
    pub fn span_start_pos(s: &S) -> P { P { input: s.input, pos: s.start } }
    pub fn span_end_pos(s: &S) -> P { P { input: s.input, pos: s.end } }
    pub fn span_split(s: S) -> (P, P) {
        (P { input: s.input, pos: s.start }, P { input: s.input, pos: s.end })
    }
    pub fn span_as_str(s: &S) -> &'static str { &s.input[s.start..s.end] }
    pub fn span_get<R: core::ops::RangeBounds<usize>>(s: &S, r: R) -> Option<S> {
        use core::ops::Bound;
        let a = match r.start_bound() {
            Bound::Included(o) => *o,
            Bound::Excluded(o) => match o.checked_add(1) { Some(x) => x, None => return None },
            Bound::Unbounded => 0,
        };
        let b = match r.end_bound() {
            Bound::Included(o) => match o.checked_add(1) { Some(x) => x, None => return None },
            Bound::Excluded(o) => *o,
            Bound::Unbounded => s.end - s.start,
        };
        let t = &s.input[s.start..s.end];
        if t.get(a..b).is_some() { Some(S { input: s.input, start: s.start + a, end: s.start + b }) } else { None }
    }
    pub fn span_get_input(s: &S) -> &'static str { s.input }
    pub fn span_eq(s: &S, o: &S) -> bool {
        core::ptr::eq(s.input, o.input) && s.start == o.start && s.end == o.end
    }
    pub fn span_eq2(s: &S, o: &S) -> bool { s.input == o.input && s.start == o.start && s.end == o.end }
    // ---------------------------------------------------- failure tracker
    pub enum Special { SliceOutOfBound(isize, Option<isize>), RepeatTooManyTimes, EmptyStack }
    pub struct TK<R> {
        pub position: P, pub positive: bool,
        pub attempts: std::collections::BTreeMap<Option<R>, (Vec<R>, Vec<R>, Vec<Special>)>,
        pub stack: Vec<(R, P, bool)>,
    }
    pub fn tk_new<R: Ord>(p: P) -> TK<R> {
        TK { position: p, positive: true, attempts: std::collections::BTreeMap::new(), stack: Vec::new() }
    }
    fn same(a: P, b: P) -> bool { a.pos == b.pos }
    /// are attempts at `p` to be kept: attempts before the furthest point are not
    fn furthest<R: Ord>(t: &mut TK<R>, p: P) -> bool {
        if p.pos < t.position.pos { return false; }
        if p.pos > t.position.pos {
            t.attempts.clear();
            t.position = p;
        }
        true
    }
    /// the innermost enclosing rule that began elsewhere
    fn upper<R: Copy>(t: &TK<R>, p: P) -> Option<R> {
        let mut i = t.stack.len();
        while i > 0 {
            i -= 1;
            if !same(t.stack[i].1, p) { return Some(t.stack[i].0); }
        }
        None
    }
    fn special<R: Ord + Copy>(t: &mut TK<R>, p: P, s: Special) {
        if furthest(t, p) {
            let u = upper(t, p);
            t.attempts.entry(u).or_default().2.push(s);
        }
    }
    pub fn tk_rep<R: Ord + Copy>(t: &mut TK<R>, p: P) { special(t, p, Special::RepeatTooManyTimes) }
    pub fn tk_oob<R: Ord + Copy>(t: &mut TK<R>, p: P, a: isize, b: Option<isize>) { special(t, p, Special::SliceOutOfBound(a, b)) }
    pub fn tk_empty<R: Ord + Copy>(t: &mut TK<R>, p: P) { special(t, p, Special::EmptyStack) }
    pub fn tk_positive<R, T, F: FnOnce(&mut TK<R>) -> T>(t: &mut TK<R>, f: F) -> T {
        let o = t.positive; t.positive = true; let r = f(t); t.positive = o; r
    }
    pub fn tk_negative<R, T, F: FnOnce(&mut TK<R>) -> T>(t: &mut TK<R>, f: F) -> T {
        let o = t.positive; t.positive = false; let r = f(t); t.positive = o; r
    }
    fn enter<R: Ord + Copy>(t: &mut TK<R>, p: P, r: R) {
        if let Some(x) = t.stack.last_mut() { x.2 = true; }
        t.stack.push((r, p, false));
    }
    fn leave<R: Ord + Copy>(t: &mut TK<R>, p: P, r: R, ok: bool) {
        let inner = t.stack.pop().unwrap().2;
        if inner { return; }
        if furthest(t, p) {
            if ok != t.positive {
                let u = upper(t, p);
                let pos = t.positive;
                let e = t.attempts.entry(u).or_default();
                let v = if pos { &mut e.0 } else { &mut e.1 };
                let dup = match v.last() { Some(l) => *l == r, None => false };
                if !dup { v.push(r); }
            }
        }
    }
    pub fn tk_opt<R: Ord + Copy, T, F: FnOnce(&mut TK<R>) -> Option<T>>(t: &mut TK<R>, p: P, f: F, r: R) -> Option<T> {
        enter(t, p, r);
        match f(t) { Some(x) => { leave(t, p, r, true); Some(x) } None => { leave(t, p, r, false); None } }
    }
    pub fn tk_res<R: Ord + Copy, T, E, F: FnOnce(&mut TK<R>) -> Result<T, E>>(t: &mut TK<R>, p: P, f: F, r: R) -> Result<T, E> {
        enter(t, p, r);
        match f(t) { Ok(x) => { leave(t, p, r, true); Ok(x) } Err(x) => { leave(t, p, r, false); Err(x) } }
    }
    pub trait Ruled { type Rule; const RULE: Self::Rule; }
    pub fn tk_res_of<R: Ord + Copy, T: Ruled<Rule = R>, E, F: FnOnce(&mut TK<R>) -> Result<(P, T), E>>(t: &mut TK<R>, p: P, f: F) -> Result<(P, T), E> {
        tk_res(t, p, f, T::RULE)
    }
    pub fn tk_finish<R>(t: TK<R>) -> (P, std::collections::BTreeMap<Option<R>, (Vec<R>, Vec<R>, Vec<Special>)>) { (t.position, t.attempts) }

    pub fn pos_cmp(a: &P, b: &P) -> core::cmp::Ordering { a.pos.cmp(&b.pos) }
    pub fn pos_partial_cmp(a: &P, b: &P) -> Option<core::cmp::Ordering> { Some(a.pos.cmp(&b.pos)) }
    pub fn merge_spans(a: &S, b: &S) -> Option<S> {
        if a.end >= b.start && a.start <= b.end {
            let start = if a.start < b.start { a.start } else { b.start };
            let end = if a.end < b.end { b.end } else { a.end };
            if a.input.get(start..end).is_some() { Some(S { input: a.input, start, end }) } else { None }
        } else {
            None
        }
    }
}
pub fn ri_contains<T: PartialOrd>(r: &core::ops::RangeInclusive<T>, x: &T) -> bool { r.start() <= x && x <= r.end() }
pub fn r_contains<T: PartialOrd>(r: &core::ops::Range<T>, x: &T) -> bool { &r.start <= x && x < &r.end }

pub struct Pr(usize);
pub fn two_pairs<F: FnMut(Pr)>(f: &mut F, a: Pr, b: Pr) { f(a); f(b); }
pub fn it_collect_vec<I: Iterator>(mut i: I) -> Vec<I::Item> {
    let mut v = Vec::new();
    loop { match i.next() { Some(x) => v.push(x), None => return v } }
}
