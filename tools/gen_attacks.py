import os
D='/verif/attacks/src/bin'
HEAD='''#![forbid(unsafe_code)]
#![allow(warnings)]
use attacks::*;
use sherman::param::*;
use sherman::*;
'''
N={}
def a(name, expect, why, body): N[name]=(expect,why,body)
R='reject'
# --- handles of the tree outliving it or a mutation
for p in ['NoFeatures','AllowCow','AllowSliceRefs']:
    q={'NoFeatures':'plain','AllowCow':'cow','AllowSliceRefs':'refs'}[p]
    T=f'let mut t = grow::<{p}>(9);'
    a(f'entry_get_then_drop_{q}',R,'an entry from get outlives the tree',f'''fn main() {{
    {T}
    let e = t.get(4);
    drop(t);
    println!("{{}}", e.slice().read());
}}''')
    a(f'entry_get_then_insert_{q}',R,'an entry from get survives an insertion',f'''fn main() {{
    {T}
    let e = t.get(4);
    for i in 0..9 {{ t.insert(4, Own::new("new"), 1); }}
    println!("{{}}", e.slice().read());
}}''')
    a(f'slice_then_drop_{q}',R,'a slice reference taken from an entry outlives the tree',f'''fn main() {{
    {T}
    let s: &Own = t.get(4).slice();
    drop(t);
    println!("{{}}", s.read());
}}''')
    a(f'slice_then_insert_{q}',R,'a slice reference taken from an entry survives an insertion',f'''fn main() {{
    {T}
    let s: &Own = t.get(4).slice();
    for i in 0..40 {{ t.insert(4, Own::new("new"), 1); }}
    println!("{{}}", s.read());
}}''')
    a(f'iter_then_insert_{q}',R,'an iterator survives an insertion',f'''fn main() {{
    {T}
    let mut it = t.iter(..);
    it.next();
    for i in 0..40 {{ t.insert(1, Own::new("new"), 1); }}
    for e in it {{ println!("{{}}", e.slice().read()); }}
}}''')
    a(f'iter_then_drop_{q}',R,'an iterator outlives the tree',f'''fn main() {{
    {T}
    let it = t.iter(2..7);
    drop(t);
    for e in it {{ println!("{{}}", e.slice().read()); }}
}}''')
    a(f'iter_item_then_drop_{q}',R,'an entry yielded by an iterator outlives the tree',f'''fn main() {{
    {T}
    let e = t.iter(..).next_back().unwrap();
    drop(t);
    println!("{{}}", e.slice().read());
}}''')
    a(f'iter_item_then_insert_{q}',R,'an entry yielded by an iterator survives an insertion',f'''fn main() {{
    {T}
    let e = t.iter(3..).next().unwrap();
    for i in 0..40 {{ t.insert(3, Own::new("new"), 1); }}
    println!("{{}}", e.slice().read());
}}''')
    a(f'insert_in_loop_{q}',R,'inserting while iterating',f'''fn main() {{
    {T}
    for e in t.iter(..) {{
        t.insert(e.range().start, Own::new("new"), 1);
        println!("{{}}", e.slice().read());
    }}
}}''')
    a(f'get_with_cursor_then_drop_{q}',R,'an entry from get_with_cursor outlives the tree',f'''fn main() {{
    {T}
    let c: BoundedCursor<4> = t.cursor_to(4);
    let e = t.get_with_cursor(c, 4);
    drop(t);
    println!("{{}}", e.slice().read());
}}''')
    a(f'iter_with_cursor_then_insert_{q}',R,'an iterator from iter_with_cursor survives an insertion',f'''fn main() {{
    {T}
    let c: BoundedCursor<4> = t.cursor_to(4);
    let mut it = t.iter_with_cursor(c, 4..);
    let e = it.next().unwrap();
    for i in 0..40 {{ t.insert(4, Own::new("new"), 1); }}
    println!("{{}}", e.slice().read());
    for e in it {{ println!("{{}}", e.slice().read()); }}
}}''')
    a(f'entry_copy_then_replace_{q}',R,'a copy of an entry survives the replacement of the tree',f'''fn main() {{
    {T}
    let e = t.get(4);
    let f = e.clone();
    let old = std::mem::replace(&mut t, grow::<{p}>(2));
    drop(old);
    println!("{{}}", f.slice().read());
}}''')
    a(f'entry_static_{q}',R,'an entry of a local tree is returned',f'''fn f() -> &'static Own {{
    {T}
    let s = t.get(4).slice();
    s
}}
fn main() {{
    println!("{{}}", f().read());
}}''')
    a(f'entry_extended_{q}',R,'the slice of an entry is given a longer lifetime than the entry',f'''fn f<'a>(e: SliceEntry<'a, u32, Own, {p}, 1>) -> &'static Own {{
    e.slice()
}}
fn main() {{
    let s;
    {{
        {T}
        s = f(t.get(4));
    }}
    println!("{{}}", s.read());
}}''')
    a(f'iter_extended_{q}',R,'an iterator is given a longer lifetime',f'''fn f<'a>(e: Iter<'a, NoCursor, u32, Own, {p}, 1>) -> Iter<'static, NoCursor, u32, Own, {p}, 1> {{
    e
}}
fn main() {{
    let mut it;
    {{
        {T}
        it = f(t.iter(..));
    }}
    println!("{{}}", it.next().unwrap().slice().read());
}}''')
    # --- stored values outliving what they borrow
    a(f'tree_outlives_data_{q}',R,'a tree of values that read a borrow when destroyed outlives what they borrow',f'''fn main() {{
    let mut t: RleTree<u32, Loud, {p}, 1> = RleTree::new_empty();
    let x = text(1);
    for i in 0..6 {{ t.insert(i, Loud(&x), 1); }}
}}''')
    a(f'new_outlives_data_{q}',R,'a tree built by new outlives what its value borrows',f'''fn main() {{
    let t: RleTree<u32, Loud, {p}, 1>;
    let x = text(1);
    t = RleTree::new(Loud(&x), 3);
}}''')
    a(f'boxed_tree_outlives_data_{q}',R,'a boxed optional tree outlives what its values borrow',f'''fn main() {{
    let mut t: Box<Option<RleTree<u32, Loud, {p}, 2>>> = Box::new(None);
    let x = text(1);
    *t = Some(RleTree::new(Loud(&x), 3));
}}''')
    a(f'data_moved_{q}',R,'the data borrowed by a stored value is moved away while the tree lives',f'''fn main() {{
    let x = text(1);
    let mut t: RleTree<u32, Pick, {p}, 1> = RleTree::new_empty();
    t.insert(0, Pick(&x), 1);
    drop(x);
    println!("{{}}", t.get(0).slice().read());
}}''')
    a(f'tree_extended_{q}',R,'a tree is given a longer lifetime for its values',f'''fn f<'s>(t: RleTree<u32, Pick<'s>, {p}, 1>) -> RleTree<u32, Pick<'static>, {p}, 1> {{
    t
}}
fn main() {{
    let t;
    {{
        let x = text(1);
        let mut u: RleTree<u32, Pick, {p}, 1> = RleTree::new_empty();
        u.insert(0, Pick(&x), 1);
        t = f(u);
    }}
    println!("{{}}", t.get(0).slice().read());
}}''')
    a(f'swap_lifetimes_{q}',R,'a tree of short-lived values is swapped into one of long-lived ones',f'''fn f<'s>(long: &mut RleTree<u32, Pick<'static>, {p}, 1>, short: &mut RleTree<u32, Pick<'s>, {p}, 1>) {{
    std::mem::swap(long, short);
}}
fn main() {{
    let mut t: RleTree<u32, Pick<'static>, {p}, 1> = RleTree::new_empty();
    {{
        let x = text(1);
        let mut u: RleTree<u32, Pick, {p}, 1> = RleTree::new_empty();
        u.insert(0, Pick(&x), 1);
        f(&mut t, &mut u);
    }}
    println!("{{}}", t.get(0).slice().read());
}}''')
    a(f'serde_borrowed_{q}',R,'a deserialised tree borrows from a document that is gone',f'''#[derive(Clone, serde::Serialize, serde::Deserialize)]
struct P<'a>(#[serde(borrow)] &'a str);
impl<'a> Slice<u32> for P<'a> {{
    const MAY_JOIN: bool = false;
    fn split_at(&mut self, _: u32) -> Self {{ self.clone() }}
    fn try_join(self, o: Self) -> Result<Self, (Self, Self)> {{ Err((self, o)) }}
}}
fn main() {{
    let t: RleTree<u32, P, {p}, 1>;
    {{
        let doc = format!("[[1,\\"{{}}\\"],[2,\\"two\\"]]", text(1));
        t = serde_json::from_str(&doc).unwrap();
    }}
    println!("{{}}", t.get(0).slice().0);
}}''')
for p,q in [('NoFeatures','plain'),('AllowCow','cow')]:
    a(f'clone_outlives_data_{q}',R,'a clone outlives what the shared values borrow',f'''fn main() {{
    let c;
    {{
        let x = text(1);
        let mut t: RleTree<u32, Loud, {p}, 1> = RleTree::new_empty();
        for i in 0..6 {{ t.insert(i, Loud(&x), 1); }}
        c = t.clone();
    }}
    println!("{{}}", c.get(0).slice().read());
}}''')
# --- references and borrows
PRE='''let mut t = grow::<AllowSliceRefs>(9);
    let r = t.get(4).make_ref();'''
a('borrow_outlives_ref',R,'a borrow outlives its reference (and the tree)',f'''fn main() {{
    {PRE}
    let b = r.borrow_slice();
    drop(r);
    drop(t);
    println!("{{}}", b.read());
}}''')
a('try_borrow_outlives_ref',R,'a fallible borrow outlives its reference',f'''fn main() {{
    {PRE}
    let b = r.try_borrow_slice().unwrap();
    drop(r);
    drop(t);
    println!("{{}}", b.read());
}}''')
a('borrow_clone_outlives_ref',R,'the clone of a borrow outlives its reference',f'''fn main() {{
    {PRE}
    let b = r.borrow_slice();
    let c = b.clone();
    drop(b);
    drop(t);
    drop(r);
    println!("{{}}", c.read());
}}''')
a('mapped_outlives_ref',R,'a mapped borrow outlives its reference',f'''fn main() {{
    {PRE}
    let b = Borrow::map(r.borrow_slice(), |s| &s.0);
    drop(t);
    drop(r);
    println!("{{}}", b.len());
}}''')
a('deref_outlives_borrow',R,'what a borrow points to is used after the borrow was released and the tree dropped',f'''fn main() {{
    {PRE}
    let b = r.borrow_slice();
    let s: &Own = &b;
    drop(b);
    drop(t);
    println!("{{}}", s.read());
}}''')
a('deref_across_insert',R,'what a borrow points to is used after the borrow was released and the tree changed',f'''fn main() {{
    {PRE}
    let b = r.borrow_slice();
    let s: &String = &b.0;
    drop(b);
    for i in 0..40 {{ t.insert(4, Own::new("new"), 1); }}
    println!("{{}}", s.len());
}}''')
a('map_leaks',R,'a mapping closure lets its argument escape',f'''fn main() {{
    {PRE}
    let mut out: Option<&Own> = None;
    let b = Borrow::map(r.borrow_slice(), |s| {{
        out = Some(s);
        s
    }});
    drop(b);
    drop(t);
    println!("{{}}", out.unwrap().read());
}}''')
a('map_to_local',R,'a mapping closure returns a reference to a local',f'''fn main() {{
    {PRE}
    let b;
    {{
        let local = text(3);
        b = Borrow::map(r.borrow_slice(), |_| &local);
    }}
    println!("{{}}", b.len());
}}''')
a('borrow_returned',R,'a borrow through a local reference is returned',f'''fn f(t: &RleTree<u32, Own, AllowSliceRefs, 1>) -> Borrow<'_, Own> {{
    let r = t.get(4).make_ref();
    let b = r.borrow_slice();
    b
}}
fn main() {{
    let t = grow::<AllowSliceRefs>(9);
    let b = f(&t);
    drop(t.iter(..));
    println!("{{}}", b.read());
}}''')
a('borrow_extended',R,'a borrow is given a longer lifetime',f'''fn f<'a>(b: Borrow<'a, Own>) -> Borrow<'static, Own> {{
    b
}}
fn main() {{
    let b;
    {{
        {PRE}
        b = f(r.borrow_slice());
    }}
    println!("{{}}", b.read());
}}''')
a('ref_values_extended',R,'a reference to short-lived values is given a longer lifetime',f'''fn f<'s>(r: SliceRef<u32, Pick<'s>, 1>) -> SliceRef<u32, Pick<'static>, 1> {{
    r
}}
fn main() {{
    let p: Pick<'static>;
    {{
        let x = text(1);
        let mut t: RleTree<u32, Pick, AllowSliceRefs, 1> = RleTree::new_empty();
        let r = f(t.insert_ref(0, Pick(&x), 1));
        p = *r.borrow_slice();
    }}
    println!("{{}}", p.read());
}}''')
a('covariant_tree_join',R,'a tree of long-lived values is treated as one of short-lived values while a reference remembers the long lifetime',f'''fn shorten<'l: 's, 's>(t: RleTree<u32, Pick<'l>, AllowSliceRefs, 1>, _: &'s str) -> RleTree<u32, Pick<'s>, AllowSliceRefs, 1> {{
    t
}}
fn main() {{
    let mut t: RleTree<u32, Pick<'static>, AllowSliceRefs, 1> = RleTree::new_empty();
    let r: SliceRef<u32, Pick<'static>, 1> = t.insert_ref(0, Pick("static"), 1);
    let p: Pick<'static>;
    {{
        let x = text(7);
        let mut u = shorten(t, &x);
        u.insert(1, Pick(&x), 1);
        p = *r.borrow_slice();
    }}
    println!("{{}}", p.read());
}}''')
a('covariant_ref_shared',R,'a reference held with a longer lifetime than the tree that it points into',f'''fn longer<'s>(r: SliceRef<u32, Pick<'s>, 1>, _: &'s str) -> SliceRef<u32, Pick<'static>, 1> {{
    r.clone()
}}
fn main() {{
    let r;
    let x = text(7);
    let mut t: RleTree<u32, Pick, AllowSliceRefs, 1> = RleTree::new_empty();
    r = longer(t.insert_ref(0, Pick(&x), 1), &x);
    let p: Pick<'static> = *r.borrow_slice();
    drop(t);
    drop(x);
    println!("{{}}", p.read());
}}''')
a('deferred_drop_outlives_data',R,'a borrow that keeps a dropped tree alive outlives what the values borrow',f'''fn main() {{
    let b;
    let x = text(1);
    let mut t: RleTree<u32, Loud, AllowSliceRefs, 1> = RleTree::new_empty();
    let r: &'_ mut _ = Box::leak(Box::new(t.insert_ref(0, Loud(&x), 1)));
    b = r.borrow_slice();
    drop(t);
}}''')
a('deferred_mapped_outlives_data',R,'a mapped borrow that keeps a dropped tree alive outlives what the values borrow',f'''fn main() {{
    let b;
    let x = text(1);
    let mut t: RleTree<u32, Loud, AllowSliceRefs, 1> = RleTree::new_empty();
    let r: &'_ mut _ = Box::leak(Box::new(t.insert_ref(0, Loud(&x), 1)));
    b = Borrow::map(r.borrow_slice(), |s| s.0);
    drop(t);
    println!("{{}}", b.len());
}}''')
a('borrow_local_order',R,'a borrow declared before the reference it came from',f'''fn main() {{
    let b;
    {PRE}
    b = r.borrow_slice();
}}''')
# --- threads
a('spawn_refs_tree',R,'a tree with slice references is sent to a thread',f'''fn main() {{
    {PRE}
    let h = std::thread::spawn(move || {{ for _ in 0..4 {{ drop(t.get(4).make_ref()); }} }});
    for _ in 0..4 {{ drop(r.clone()); }}
    h.join().unwrap();
}}''')
a('spawn_slice_ref',R,'a slice reference is sent to a thread',f'''fn main() {{
    {PRE}
    let h = std::thread::spawn(move || {{ for _ in 0..4 {{ drop(r.clone()); }} }});
    for _ in 0..4 {{ drop(t.get(4).make_ref()); }}
    h.join().unwrap();
}}''')
a('scope_refs_entry',R,'an entry of a tree with slice references is used on another thread',f'''fn main() {{
    {PRE}
    let e = t.get(3);
    std::thread::scope(|s| {{
        s.spawn(move || for _ in 0..4 {{ drop(e.make_ref()); }});
        for _ in 0..4 {{ drop(r.clone()); }}
    }});
}}''')
LOCAL='''#[derive(Copy, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
struct I(u32);
impl DirectionalAdd for I { fn add_right(self, o: Self) -> Self { I(self.0 + o.0) } }
impl DirectionalSub for I {
    fn sub_left(self, o: Self) -> Self { I(self.0 - o.0) }
    fn sub_right(self, o: Self) -> Self { I(self.0 - o.0) }
}
impl Index for I { const ZERO: Self = I(0); }
struct S(std::rc::Rc<u32>);
impl Slice<I> for S {
    const MAY_JOIN: bool = false;
    fn split_at(&mut self, _: I) -> Self { S(self.0.clone()) }
    fn try_join(self, o: Self) -> Result<Self, (Self, Self)> { Err((self, o)) }
}
'''
a('user_says_send',R,'safe client code declares its trees with slice references to be Send',LOCAL+'''impl RleTreeIsSend<I, S> for AllowSliceRefs {}
fn main() {
    let mut t: RleTree<I, S, AllowSliceRefs, 2> = RleTree::new_empty();
    t.insert(I(0), S(std::rc::Rc::new(1)), I(1));
    let r = t.get(I(0)).make_ref();
    let h = std::thread::spawn(move || { for _ in 0..3 { drop(t.get(I(0)).make_ref()); } });
    for _ in 0..3 { drop(r.clone()); }
    h.join().unwrap();
}''')
a('user_says_sync',R,'safe client code declares its trees with slice references to be Sync',LOCAL+'''impl RleTreeIsSync<I, S> for AllowSliceRefs {}
fn main() {
    let mut t: RleTree<I, S, AllowSliceRefs, 2> = RleTree::new_empty();
    t.insert(I(0), S(std::rc::Rc::new(1)), I(1));
    let t = &t;
    std::thread::scope(|s| {
        s.spawn(move || for _ in 0..3 { drop(t.get(I(0)).make_ref()); });
        for _ in 0..3 { drop(t.get(I(0)).make_ref()); }
    });
}''')
a('user_says_send_plain',R,'safe client code declares plain trees of values that are not Send to be Send',LOCAL+'''impl RleTreeIsSend<I, S> for NoFeatures {}
fn main() {
    let rc = std::rc::Rc::new(1);
    let mut t: RleTree<I, S, NoFeatures, 2> = RleTree::new_empty();
    t.insert(I(0), S(rc.clone()), I(1));
    let h = std::thread::spawn(move || drop(t));
    for _ in 0..3 { drop(rc.clone()); }
    h.join().unwrap();
}''')
a('user_supports_insert',R,'safe client code enables insertion into copy-on-write trees whose values cannot be cloned',LOCAL+'''impl SupportsInsert<I, S, 2> for AllowCow {}
fn main() {
    let mut t: RleTree<I, S, AllowCow, 2> = RleTree::new_empty();
    t.insert(I(0), S(std::rc::Rc::new(1)), I(1));
    let u = t.clone();
    t.insert(I(0), S(std::rc::Rc::new(1)), I(1));
    drop(u);
    println!("{}", t.get(I(1)).slice().0);
}''')
a('cow_insert_without_clone',R,'inserting into copy-on-write trees whose values cannot be cloned',LOCAL+'''fn main() {
    let mut t: RleTree<I, S, AllowCow, 2> = RleTree::new_empty();
    t.insert(I(0), S(std::rc::Rc::new(1)), I(1));
}''')
a('refs_tree_clone',R,'cloning a tree with slice references',f'''fn main() {{
    {PRE}
    let u = RleTree::clone(&t);
    drop(t);
    println!("{{}} {{}}", u.get(4).slice().read(), r.is_valid());
}}''')
# --- programs that must compile and run clean
A='accept'
a('ok_handles',A,'everything held across what the signatures permit','''fn go<P>(t: &RleTree<u32, Own, P, 1>) -> usize
where
    P: RleTreeConfig<u32, Own, 1> + SupportsInsert<u32, Own, 1>,
{
    let first;
    let s: &Own;
    {
        // entries and slices outlive the iterator that yielded them
        let mut it = t.iter(..);
        first = it.next().unwrap();
        s = it.next_back().unwrap().slice();
    }
    let all: Vec<_> = t.iter(..).collect();
    let rev: Vec<&Own> = t.iter(..).rev().map(|e| e.slice()).collect();
    // ranges by reference, dropped before the iterator
    let it = {
        let r = 2..5u32;
        t.iter(&r)
    };
    let n: usize = it.map(|e| e.slice().read()).sum();
    first.slice().read() + s.read() + n + all.iter().map(|e| e.slice().read()).sum::<usize>() + rev.iter().map(|s| s.read()).sum::<usize>()
}
fn main() {
    let (mut a, mut b, mut c) = (grow::<NoFeatures>(9), grow::<AllowCow>(9), grow::<AllowSliceRefs>(9));
    assert_eq!(go(&a), go(&b));
    assert_eq!(go(&a), go(&c));
    let d = b.clone();
    b.insert(3, Own::new("x"), 1);
    let keep = d.get(3).slice();
    drop(b);
    assert!(keep.read() > 0);
    let e = a.clone();
    a.insert(3, Own::new("x"), 1);
    drop(a);
    assert!(go(&e) > 0);
    c.insert(0, Own::new("y"), 2);
    assert!(go(&c) > 0);
}''')
a('ok_refs',A,'references outlive the tree, borrows keep it alive','''fn main() {
    let mut t = grow::<AllowSliceRefs>(9);
    let r = t.get(4).make_ref();
    let q = t.insert_ref(4, Own::new("inserted"), 3);
    let e = t.get(8);
    let s = e.make_ref();
    let b = r.borrow_slice();
    let n = b.read();
    let m = Borrow::map(q.borrow_slice(), |s| &s.0);
    let k = m.clone();
    drop(m);
    assert_eq!(k.as_str(), "inserted");
    assert_eq!(e.slice().read(), s.borrow_slice().read());
    drop(t);
    assert!(!s.is_valid() && !s.can_borrow());
    assert_eq!(b.read(), n);
    drop(b);
    assert_eq!(k.as_str(), "inserted");
    drop(k);
    drop(r.clone());
    drop(r);
    drop(q);
}''')
a('ok_borrowed_values',A,'values that borrow, in trees that die first','''fn main() {
    let x = text(1);
    let y = text(2);
    let mut a: RleTree<u32, Loud, NoFeatures, 1> = RleTree::new_empty();
    let mut b: RleTree<u32, Loud, AllowCow, 1> = RleTree::new_empty();
    let mut c: RleTree<u32, Loud, AllowSliceRefs, 1> = RleTree::new_empty();
    for i in 0..7 {
        let s = if i % 2 == 0 { &x } else { &y };
        a.insert(i / 2, Loud(s), 1);
        b.insert(i / 2, Loud(s), 1);
        c.insert(i / 2, Loud(s), 1);
    }
    let r = c.get(3).make_ref();
    let b2 = b.clone();
    b.insert(0, Loud(&y), 1);
    // what a value borrows may outlive the tree
    let p: &str = a.get(2).slice().0;
    drop(a);
    assert!(p.len() > 3);
    let w = r.borrow_slice();
    drop(c);
    assert!(w.read() > 0);
    drop(w);
    drop(b);
    assert!(b2.get(1).slice().read() > 0);
}''')
a('ok_joined_borrows',A,'joins of values that borrow','''fn main() {
    let x = text(1);
    let mut t: RleTree<u32, Pick, AllowSliceRefs, 1> = RleTree::new_empty();
    let r = t.insert_ref(0, Pick("static"), 2);
    {
        let y = text(2);
        let u: RleTree<u32, Pick, NoFeatures, 1> = RleTree::new(Pick(&y), 2);
        assert!(u.get(0).slice().read() > 0);
    }
    t.insert(2, Pick(&x), 1);
    assert_eq!(r.range(), 0..3);
    assert!(r.borrow_slice().read() > 0);
    let doc = String::from("[[1,7],[2,8]]");
    #[derive(Clone, serde::Deserialize)]
    struct N(u8);
    impl Slice<u32> for N {
        const MAY_JOIN: bool = false;
        fn split_at(&mut self, _: u32) -> Self { self.clone() }
        fn try_join(self, o: Self) -> Result<Self, (Self, Self)> { Err((self, o)) }
    }
    let d: RleTree<u32, N> = serde_json::from_str(&doc).unwrap();
    drop(doc);
    assert_eq!(d.get(1).slice().0, 8);
}''')
a('ok_threads',A,'what may cross threads does','''fn main() {
    let t = grow::<AllowCow>(9);
    let mut u = t.clone();
    let p = grow::<NoFeatures>(5);
    std::thread::scope(|s| {
        s.spawn(|| t.iter(..).map(|e| e.slice().read()).sum::<usize>());
        s.spawn(move || { u.insert(3, Own::new("x"), 1); u });
        let e = p.get(2);
        s.spawn(move || e.slice().read());
        let it = p.iter(1..);
        s.spawn(move || it.rev().count());
    });
    std::thread::spawn(move || drop((t, p))).join().unwrap();
}''')
os.makedirs(D,exist_ok=True)
for f in os.listdir(D): os.unlink(D+'/'+f)
for n,(e,w,b) in N.items():
    open(f'{D}/{n}.rs','w').write(f'//! {e}: {w}\n'+HEAD+b+'\n')
print(len(N))
