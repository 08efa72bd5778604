//! C18: serde round trips and malformed documents.
#[cfg(not(feature = "serde"))]
fn main() {}

#[cfg(feature = "serde")]
fn main() {
    imp::main()
}

#[cfg(feature = "serde")]
mod imp {
    use monitors::rng::{mix, Rng};
    use monitors::*;
    use monitors::idx::*;
    use serde::de::{self, DeserializeSeed, IntoDeserializer, SeqAccess, Visitor};
    use serde::ser::{self, Serialize};
    use serde::{Deserialize, Deserializer, Serializer};
    use sherman::param::*;
    use sherman::{RleTree, Slice};
    use std::fmt;

    // ------------------------------------------------------------------ serialisable stored type

    /// Stored value with a ledger token, serialised as `(id, tag)`; joins when allowed by the id
    #[derive(Clone)]
    pub struct V {
        id: u32,
        tag: u32,
        tok: Tok,
    }
    struct Tok(ledger::Token);
    impl Clone for Tok {
        fn clone(&self) -> Self {
            Tok(ledger::Token::new())
        }
    }
    impl V {
        fn new(id: u32, tag: u32) -> V {
            V { id, tag, tok: Tok(ledger::Token::new()) }
        }
        fn key(&self) -> (u32, u32) {
            self.tok.0.check();
            (self.id, self.tag)
        }
    }
    impl Serialize for V {
        fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
            self.key().serialize(s)
        }
    }
    impl<'de> Deserialize<'de> for V {
        fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
            let (id, tag) = <(u32, u32)>::deserialize(d)?;
            if id == 0xbad {
                return Err(de::Error::custom("value refuses to be deserialised"));
            }
            Ok(V::new(id, tag))
        }
    }
    /// Ids below 1000 join with themselves, everything else never joins
    impl<I: TIdx> Slice<I> for V {
        const MAY_JOIN: bool = true;
        fn split_at(&mut self, _: I) -> Self {
            V::new(self.id, self.tag + 1)
        }
        fn try_join(self, o: Self) -> Result<Self, (Self, Self)> {
            if self.id == o.id && self.id < 1000 { Ok(self) } else { Err((self, o)) }
        }
    }

    // ------------------------------------------------------------------ a recording serializer

    #[derive(Debug, PartialEq, Clone)]
    enum Tk {
        I(i128),
        Open(Option<usize>),
        Close,
        TupleOpen(usize),
        TupleClose,
    }
    #[derive(Debug)]
    struct E(String);
    impl fmt::Display for E {
        fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
            f.write_str(&self.0)
        }
    }
    impl std::error::Error for E {}
    impl ser::Error for E {
        fn custom<T: fmt::Display>(m: T) -> Self {
            E(m.to_string())
        }
    }
    impl de::Error for E {
        fn custom<T: fmt::Display>(m: T) -> Self {
            E(m.to_string())
        }
    }

    /// Records the serde data model events; fails at event `fail_at`
    struct Rec {
        out: Vec<Tk>,
        fail_at: usize,
    }
    impl Rec {
        fn push(&mut self, t: Tk) -> Result<(), E> {
            if self.out.len() >= self.fail_at {
                return Err(E("serializer fails".into()));
            }
            self.out.push(t);
            Ok(())
        }
    }
    macro_rules! ints {
        ($($m:ident $t:ty),*) => { $( fn $m(self, v: $t) -> Result<(), E> { self.push(Tk::I(v as i128)) } )* };
    }
    macro_rules! no {
        ($($m:ident ($($a:ty),*) -> $r:ty),*) => { $( fn $m(self, $(_: $a),*) -> Result<$r, E> { Err(E(concat!("unexpected ", stringify!($m)).into())) } )* };
    }
    impl<'a> Serializer for &'a mut Rec {
        type Ok = ();
        type Error = E;
        type SerializeSeq = Comp<'a>;
        type SerializeTuple = Comp<'a>;
        type SerializeTupleStruct = ser::Impossible<(), E>;
        type SerializeTupleVariant = ser::Impossible<(), E>;
        type SerializeMap = ser::Impossible<(), E>;
        type SerializeStruct = ser::Impossible<(), E>;
        type SerializeStructVariant = ser::Impossible<(), E>;
        ints!(serialize_u8 u8, serialize_u16 u16, serialize_u32 u32, serialize_u64 u64, serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64, serialize_u128 u128);
        no!(serialize_bool(bool) -> (), serialize_f32(f32) -> (), serialize_f64(f64) -> (), serialize_char(char) -> (), serialize_str(&str) -> (), serialize_bytes(&[u8]) -> (), serialize_none() -> (), serialize_unit() -> (),
            serialize_unit_struct(&'static str) -> (), serialize_unit_variant(&'static str, u32, &'static str) -> (),
            serialize_tuple_struct(&'static str, usize) -> Self::SerializeTupleStruct, serialize_tuple_variant(&'static str, u32, &'static str, usize) -> Self::SerializeTupleVariant,
            serialize_map(Option<usize>) -> Self::SerializeMap, serialize_struct(&'static str, usize) -> Self::SerializeStruct,
            serialize_struct_variant(&'static str, u32, &'static str, usize) -> Self::SerializeStructVariant);
        fn serialize_some<T: ?Sized + Serialize>(self, _: &T) -> Result<(), E> {
            Err(E("unexpected some".into()))
        }
        fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Result<(), E> {
            v.serialize(self)
        }
        fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<(), E> {
            Err(E("unexpected variant".into()))
        }
        fn serialize_seq(self, n: Option<usize>) -> Result<Comp<'a>, E> {
            self.push(Tk::Open(n))?;
            Ok(Comp(self))
        }
        fn serialize_tuple(self, n: usize) -> Result<Comp<'a>, E> {
            self.push(Tk::TupleOpen(n))?;
            Ok(Comp(self))
        }
    }
    struct Comp<'a>(&'a mut Rec);
    impl<'a> ser::SerializeSeq for Comp<'a> {
        type Ok = ();
        type Error = E;
        fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), E> {
            v.serialize(&mut *self.0)
        }
        fn end(self) -> Result<(), E> {
            self.0.push(Tk::Close)
        }
    }
    impl<'a> ser::SerializeTuple for Comp<'a> {
        type Ok = ();
        type Error = E;
        fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), E> {
            v.serialize(&mut *self.0)
        }
        fn end(self) -> Result<(), E> {
            self.0.push(Tk::TupleClose)
        }
    }

    // ------------------------------------------------------------------ a deserializer that lies about lengths and fails anywhere

    struct Feed<'a> {
        items: &'a [(i64, (u32, u32))],
        fail_at: usize,
        pos: usize,
        hint: Option<usize>,
    }
    impl<'de, 'a> Deserializer<'de> for Feed<'a> {
        type Error = E;
        fn deserialize_any<Vi: Visitor<'de>>(self, v: Vi) -> Result<Vi::Value, E> {
            v.visit_seq(self)
        }
        serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 char str string bytes byte_buf option unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any }
    }
    impl<'de, 'a> SeqAccess<'de> for Feed<'a> {
        type Error = E;
        fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, E> {
            if self.pos >= self.fail_at {
                return Err(E("input fails".into()));
            }
            let Some(x) = self.items.get(self.pos) else { return Ok(None) };
            self.pos += 1;
            let d = Pair(*x, 0);
            seed.deserialize(de::value::SeqAccessDeserializer::new(d)).map(Some)
        }
        fn size_hint(&self) -> Option<usize> {
            self.hint
        }
    }
    struct Pair((i64, (u32, u32)), usize);
    impl<'de> SeqAccess<'de> for Pair {
        type Error = E;
        fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, E> {
            self.1 += 1;
            match self.1 {
                1 => seed.deserialize(self.0 .0.into_deserializer()).map(Some),
                2 => {
                    let (a, b) = self.0 .1;
                    seed.deserialize(de::value::SeqDeserializer::new([a, b].into_iter())).map(Some)
                }
                _ => Ok(None),
            }
        }
    }

    // ------------------------------------------------------------------ monitors

    pub trait SIdx: TIdx + Serialize + for<'a> Deserialize<'a> {
        const MAX: i64;
        fn of(x: i64) -> Self;
        fn to(self) -> i64;
        /// `i64::MAX` for everything above `MAX`
        fn clamped(self) -> i64;
    }
    macro_rules! sidx { ($($t:ty, $m:expr);*) => { $( impl SIdx for $t { const MAX: i64 = $m; fn of(x: i64) -> Self { x as $t } fn to(self) -> i64 { self as i64 } fn clamped(self) -> i64 { if self as i128 > <Self as SIdx>::MAX as i128 { i64::MAX } else { self as i64 } } } )* } }
    sidx!(u8, 255; u16, 65535; u32, 1 << 31; u64, 1 << 40; usize, 1 << 40);
    impl Serialize for CntS {
        fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
            s.serialize_i64(self.0 .0)
        }
    }
    /// signed index
    #[derive(Copy, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
    pub struct CntS(Cnt);
    impl sherman::DirectionalAdd for CntS {
        fn add_right(self, r: Self) -> Self {
            CntS(self.0.add_right(r.0))
        }
    }
    impl sherman::DirectionalSub for CntS {
        fn sub_left(self, r: Self) -> Self {
            CntS(self.0.sub_left(r.0))
        }
        fn sub_right(self, r: Self) -> Self {
            CntS(self.0.sub_right(r.0))
        }
    }
    impl sherman::Index for CntS {
        const ZERO: Self = CntS(Cnt(0));
    }
    impl<'de> Deserialize<'de> for CntS {
        fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
            i64::deserialize(d).map(|x| CntS(Cnt(x)))
        }
    }
    impl TIdx for CntS {
        const NAME: &'static str = "signed";
        fn gen_size(r: &mut Rng) -> Self {
            CntS(Cnt::gen_size(r))
        }
        fn gen_inside(r: &mut Rng, s: Self) -> Option<Self> {
            Cnt::gen_inside(r, s.0).map(CntS)
        }
        fn fits(a: Self, b: Self) -> bool {
            Cnt::fits(a.0, b.0)
        }
        fn gen_nonpositive(r: &mut Rng) -> Self {
            CntS(Cnt::gen_nonpositive(r))
        }
        fn gen_above(r: &mut Rng, x: Self) -> Option<Self> {
            Cnt::gen_above(r, x.0).map(CntS)
        }
        fn enc(&self) -> [i64; 3] {
            self.0.enc()
        }
        fn small(n: usize) -> Self {
            CntS(Cnt(n as i64))
        }
    }
    impl SIdx for CntS {
        const MAX: i64 = 1 << 40;
        fn of(x: i64) -> Self {
            CntS(Cnt(x))
        }
        fn to(self) -> i64 {
            self.0 .0
        }
        fn clamped(self) -> i64 {
            if self.0 .0 > Self::MAX || self.0 .0 < -Self::MAX { i64::MAX } else { self.0 .0 }
        }
    }

    type Doc = Vec<(i64, (u32, u32))>;

    fn read<I: SIdx, P: RleTreeConfig<I, V, M>, const M: usize>(t: &RleTree<I, V, P, M>) -> Doc {
        let mut pos = 0;
        let v: Doc = t
            .iter(..)
            .map(|e| {
                let r = e.range();
                ensure!(r.start.to() == pos && r.end.to() == pos + e.size().to() && e.size().to() > 0, "entry at {r:?} of size {:?} after position {pos}", e.size());
                pos = r.end.to();
                (e.size().to(), e.slice().key())
            })
            .collect();
        ensure!(t.size().to() == pos && t.number_of_slices() == v.len(), "size() = {:?} and number_of_slices() = {} but the entries add up to {pos} and {}", t.size(), t.number_of_slices(), v.len());
        let mut back: Doc = t.iter(..).rev().map(|e| (e.size().to(), e.slice().key())).collect();
        back.reverse();
        ensure!(back == v, "backward iteration differs from forward iteration");
        v
    }

    /// What deserialising the pairs must give: consecutive joinable pairs become one entry
    fn normal(d: &Doc) -> Doc {
        let mut out: Doc = vec![];
        for (s, v) in d {
            match out.last_mut() {
                Some(l) if l.1 .0 == v.0 && v.0 < 1000 => l.0 += s,
                _ => out.push((*s, *v)),
            }
        }
        out
    }

    fn grown<I: SIdx, P, const M: usize>(g: &mut Rng, n: usize) -> RleTree<I, V, P, M>
    where
        P: RleTreeConfig<I, V, M> + SupportsInsert<I, V, M>,
    {
        let mut t: RleTree<I, V, P, M> = RleTree::new_empty();
        let mut fresh = 1000;
        let asc = g.chance(1, 3);
        for _ in 0..n {
            let s = 1 + g.below(if I::MAX < 1000 { 3 } else { 40 }) as i64;
            let total = t.size().to();
            if total + s > I::MAX {
                break;
            }
            let at = if asc { total } else { g.below(total as usize + 1) as i64 };
            fresh += 1;
            t.insert(I::of(at), V::new(fresh, 0), I::of(s));
        }
        t
    }

    /// What deserialising a document that parses as these pairs must do
    fn expected(d: &Doc, max: i64) -> Result<Doc, &'static str> {
        let mut total = 0i64;
        for (s, v) in d {
            if *s <= 0 {
                return Err("non-positive size");
            }
            if v.0 == 0xbad {
                return Err("bad value");
            }
            total = total.checked_add(*s).filter(|t| *t <= max).ok_or("overflow")?;
        }
        Ok(normal(d))
    }
    /// Pairs, or nothing if the text is not a document of this format
    type Reference<'a> = dyn Fn(&[u8]) -> Option<Doc> + 'a;

    /// A document after arbitrary damage means the same to the tree as to a plain vector of pairs
    fn damaged<I: SIdx, P, const M: usize>(g: &mut Rng, st: &mut world::Stats, good: &[u8], name: &'static str, reference: &Reference<'_>, tree: &dyn Fn(&[u8]) -> Result<RleTree<I, V, P, M>, String>)
    where
        P: RleTreeConfig<I, V, M> + SupportsInsert<I, V, M>,
    {
        let live0 = ledger::live();
        let mut b = good.to_vec();
        for _ in 0..1 + g.below(3) {
            let k = g.below(b.len());
            match g.below(6) {
                0 => b[k] = g.below(256) as u8,
                1 => b[k] ^= 1 << g.below(8),
                2 => b.truncate(k),
                3 => b.insert(k, g.below(256) as u8),
                4 => {
                    b.remove(k);
                }
                _ => {
                    // a piece repeated
                    let e = (k + 1 + g.below(24)).min(b.len());
                    let piece = b[k..e].to_vec();
                    b.splice(k..k, piece);
                }
            }
            if b.is_empty() {
                b.push(g.below(256) as u8);
            }
        }
        let parsed = reference(&b);
        let huge = matches!(&parsed, Some(d) if d.iter().any(|x| x.0 == i64::MAX));
        let want = match &parsed {
            Some(d) => expected(d, I::MAX),
            None => Err("not a document"),
        };
        let got = match report::quiet_catch(|| tree(&b)) {
            Ok(r) => r,
            // (see the configuration `overflowing`)
            Err(e) if e.contains("attempt to add with overflow") || e.contains("index overflow") => {
                st.op("damaged_document_with_overflowing_size");
                return;
            }
            Err(e) => panic!("MONITOR: a damaged {name} document panics instead of giving an error: {e}; {b:?}"),
        };
        if huge || (want == Err("overflow") && I::MAX > 1 << 20) {
            // (beyond what this monitor can count with)
            return;
        }
        st.op("damaged_document");
        match (got, want) {
            (Ok(t), Ok(w)) => {
                ensure!(read(&t) == w, "damaged {name} document {b:?} gives {:?}, its pairs are {w:?}", read(&t));
                st.add("damaged_documents_that_are_still_valid", 1);
            }
            (Err(_), Err(_)) => (),
            (Ok(t), Err(e)) => panic!("MONITOR: damaged {name} document ({e}) accepted as {:?}: {b:?}", read(&t)),
            (Err(e), Ok(w)) => panic!("MONITOR: valid {name} document refused: {e}; its pairs are {w:?}"),
        }
        ensure!(ledger::live() == live0, "a damaged document left {} values behind", ledger::live() as i64 - live0 as i64);
        st.comparisons += 1;
    }

    /// Sizes that do not fit into the index type together
    fn overflowing<P, const M: usize>(r: &mut Runner, n: u64, pn: &str)
    where
        P: RleTreeConfig<u8, V, M> + SupportsInsert<u8, V, M>,
    {
        r.config(&format!("overflowing/{pn}/M{M}"), n, |seed, _, _| {
            let mut g = Rng::new(seed);
            let mut st = world::Stats::default();
            let mut doc: Doc = vec![];
            let mut total = 0;
            let mut h = seed;
            while total <= 255 {
                let s = if g.chance(1, 3) { 1 + g.below(255) } else { 1 + g.below(30) } as i64;
                total += s;
                doc.push((s, (if g.chance(1, 3) { 7 } else { 1000 + g.below(9) as u32 }, 0)));
                h = mix(h ^ s as u64);
            }
            for _ in 0..g.below(3) {
                doc.push((1 + g.below(255) as i64, (2000, 0)));
            }
            report::context("in a document whose sizes add up to more than the index type can represent");
            let res = RleTree::<u8, V, P, M>::deserialize(Feed { items: &doc, fail_at: usize::MAX, pos: 0, hint: None });
            report::context("");
            st.op("overflowing_document");
            ensure!(res.is_err(), "a document whose sizes add up to {} was accepted for u8", doc.iter().map(|x| x.0).sum::<i64>());
            ensure!(ledger::live() == 0, "a refused document left {} values behind", ledger::live());
            st.comparisons += 1;
            Outcome { hash: h, nontrivial: doc.len() > 2 * M, stats: st, sample: format!("{} pairs refused", doc.len()) }
        });
    }

    fn history<I: SIdx, P, Q, const M: usize, const MM: usize>(r: &mut Runner, n: u64, max: usize, pn: &str)
    where
        P: RleTreeConfig<I, V, M> + SupportsInsert<I, V, M>,
        Q: RleTreeConfig<I, V, MM> + SupportsInsert<I, V, MM>,
    {
        r.config(&format!("{}/{pn}/M{M}->{MM}", I::NAME), n, |seed, logging, log| {
            let mut g = Rng::new(seed);
            let mut st = world::Stats::default();
            let n = g.below(max + 1);
            let h;
            {
                let t: RleTree<I, V, P, M> = grown(&mut g, n);
                let doc = read(&t);
                h = doc.iter().fold(seed, |h, x| mix(h ^ x.0 as u64 ^ (x.1 .0 as u64) << 20));
                if logging {
                    log.push(format!("tree {doc:?}"));
                }
                // the data model events
                let mut rec = Rec { out: vec![], fail_at: usize::MAX };
                t.serialize(&mut rec).unwrap_or_else(|e| panic!("MONITOR: serialising fails: {e}"));
                let mut want = vec![];
                for (s, v) in &doc {
                    want.extend([Tk::TupleOpen(2), Tk::I(*s as i128), Tk::TupleOpen(2), Tk::I(v.0 as i128), Tk::I(v.1 as i128), Tk::TupleClose, Tk::TupleClose]);
                }
                want.push(Tk::Close);
                ensure!(matches!(rec.out.first(), Some(Tk::Open(x)) if x.map_or(true, |x| x == doc.len())), "serialised as {:?}, not a sequence of {} items", rec.out.first(), doc.len());
                ensure!(rec.out[1..] == want[..], "serialised events differ from the (size, value) pairs");
                st.op("serialize_events");
                // a failing serializer reports its own error
                let k = g.below(rec.out.len());
                let mut rec2 = Rec { out: vec![], fail_at: k };
                let e = t.serialize(&mut rec2);
                ensure!(e.is_err() && rec2.out[..] == rec.out[..k], "failing serializer at event {k}: {:?}", e.is_ok());
                ensure!(read(&t) == doc, "serialising changed the tree");
                // json there and back, into another configuration and node size
                let js = serde_json::to_string(&t).unwrap();
                let plain = serde_json::to_string(&doc).unwrap();
                ensure!(js == plain, "json is {js}, the pairs are {plain}");
                let u: RleTree<I, V, Q, MM> = serde_json::from_str(&js).unwrap_or_else(|e| panic!("MONITOR: own document refused: {e}: {js}"));
                ensure!(read(&u) == doc, "round trip changed the tree: {js}");
                for _ in 0..4 {
                    if doc.is_empty() {
                        break;
                    }
                    let x = I::of(g.below(t.size().to() as usize) as i64);
                    let (a, b) = (t.get(x), u.get(x));
                    ensure!(a.range() == b.range() && a.slice().key() == b.slice().key(), "get({x:?}) differs after the round trip");
                }
                // self-contained: another trip from the copy
                ensure!(serde_json::to_string(&u).unwrap() == js, "second serialisation differs");
                let mut v: RleTree<I, V, P, M> = serde_json::from_value(serde_json::to_value(&u).unwrap()).unwrap();
                ensure!(read(&v) == doc, "second round trip changed the tree");
                if v.size().to() + 2 <= I::MAX {
                    v.insert(v.size(), V::new(5000, 0), I::of(1));
                    v.insert(I::ZERO, V::new(5001, 0), I::of(1));
                    ensure!(read(&v).len() == doc.len() + 2, "insertion into a deserialised tree");
                }
                st.op("round_trip");
                // a binary format: not self-describing, and it has to know the length beforehand
                let bin = bincode::serialize(&t).unwrap_or_else(|e| panic!("MONITOR: serialising to a length-prefixed format fails: {e}"));
                let pairs: Vec<(I, (u32, u32))> = doc.iter().map(|x| (I::of(x.0), x.1)).collect();
                ensure!(bin == bincode::serialize(&pairs).unwrap(), "binary document differs from that of the pairs");
                let w: RleTree<I, V, Q, MM> = bincode::deserialize(&bin).unwrap_or_else(|e| panic!("MONITOR: own binary document refused: {e}"));
                ensure!(read(&w) == doc, "the binary round trip changed the tree");
                st.op("binary_round_trip");
                // in place of another tree
                let mut p: RleTree<I, V, P, M> = grown(&mut g, 9);
                let mut js2 = serde_json::Deserializer::from_str(&js);
                Deserialize::deserialize_in_place(&mut js2, &mut p).unwrap_or_else(|e| panic!("MONITOR: own document refused in place: {e}"));
                ensure!(read(&p) == doc, "deserialising in place of a tree gives {:?}", read(&p));
                drop((p, w));
                // arbitrary damage
                let of = |v: Vec<(I, (u32, u32))>| -> Doc { v.into_iter().map(|x| (x.0.clamped(), x.1)).collect() };
                for _ in 0..4 {
                    damaged::<I, P, M>(&mut g, &mut st, js.as_bytes(), "json", &|b| serde_json::from_slice(b).ok().map(of), &|b| serde_json::from_slice(b).map_err(|e| e.to_string()));
                    damaged::<I, Q, MM>(&mut g, &mut st, &bin, "binary", &|b| bincode::deserialize(b).ok().map(of), &|b| bincode::deserialize(b).map_err(|e| e.to_string()));
                }
                st.comparisons += 8;
                st.max("max_document_entries", doc.len() as u64);

                // a document that is not normalised: joinable neighbours, still a valid sequence of pairs
                let mut loose: Doc = vec![];
                let mut total = 0;
                for _ in 0..g.below(max + 1) {
                    let s = 1 + g.below(if I::MAX < 1000 { 3 } else { 30 }) as i64;
                    if total + s > I::MAX {
                        break;
                    }
                    total += s;
                    let id = if g.chance(1, 2) { g.below(3) as u32 } else { 1000 + g.below(3) as u32 };
                    loose.push((s, (id, g.below(9) as u32)));
                }
                let hint = *g.pick(&[None, Some(0), Some(loose.len()), Some(usize::MAX), Some(3)]);
                let u = RleTree::<I, V, Q, MM>::deserialize(Feed { items: &loose, fail_at: usize::MAX, pos: 0, hint })
                    .unwrap_or_else(|e| panic!("MONITOR: valid pairs refused (size hint {hint:?}): {e}: {loose:?}"));
                ensure!(read(&u) == normal(&loose), "deserialising {loose:?} gives {:?}", read(&u));
                st.op("unnormalised_document");

                // malformed documents: an error, and nothing left behind
                for _ in 0..6 {
                    let live0 = ledger::live();
                    let mut bad = loose.clone();
                    let what = g.below(9);
                    let at = g.below(bad.len() + 1);
                    let res: Result<Result<(), String>, String> = match what {
                        0 => {
                            // zero or negative size
                            let s = if I::of(-1) < I::ZERO && g.chance(1, 2) { -1 - g.below(9) as i64 } else { 0 };
                            bad.insert(at, (s, (1000, 0)));
                            report::quiet_catch(|| RleTree::<I, V, P, M>::deserialize(Feed { items: &bad, fail_at: usize::MAX, pos: 0, hint }).map(drop).map_err(|e| e.0))
                        }
                        1 => report::quiet_catch(|| RleTree::<I, V, P, M>::deserialize(Feed { items: &bad, fail_at: at, pos: 0, hint }).map(drop).map_err(|e| e.0)),
                        2 => {
                            bad.insert(at, (1, (0xbad, 0)));
                            report::quiet_catch(|| RleTree::<I, V, P, M>::deserialize(Feed { items: &bad, fail_at: usize::MAX, pos: 0, hint }).map(drop).map_err(|e| e.0))
                        }
                        3 => {
                            // truncated text
                            let s = serde_json::to_string(&bad).unwrap();
                            let k = g.below(s.len());
                            report::quiet_catch(|| serde_json::from_str::<RleTree<I, V, P, M>>(&s[..k]).map(drop).map_err(|e| e.to_string()))
                        }
                        4 => {
                            // an item of another type
                            let mut v: Vec<serde_json::Value> = bad.iter().map(|x| serde_json::to_value(x).unwrap()).collect();
                            let junk = match g.below(7) {
                                0 => serde_json::json!(null),
                                1 => serde_json::json!(7),
                                2 => serde_json::json!([]),
                                3 => serde_json::json!([1]),
                                4 => serde_json::json!(["x", [1, 2]]),
                                5 => serde_json::json!([1, [1, 2], 3]),
                                _ => serde_json::json!([1.5, [1, 2]]),
                            };
                            v.insert(at, junk);
                            let v = serde_json::Value::Array(v);
                            report::quiet_catch(|| serde_json::from_value::<RleTree<I, V, P, M>>(v).map(drop).map_err(|e| e.to_string()))
                        }
                        5 => {
                            let v = match g.below(5) {
                                0 => serde_json::json!(null),
                                1 => serde_json::json!("text"),
                                2 => serde_json::json!({"a": [1, [1, 2]]}),
                                3 => serde_json::json!(3),
                                _ => serde_json::json!(true),
                            };
                            report::quiet_catch(|| serde_json::from_value::<RleTree<I, V, P, M>>(v).map(drop).map_err(|e| e.to_string()))
                        }
                        6 => {
                            // text with garbage in it
                            let mut s = serde_json::to_string(&bad).unwrap().into_bytes();
                            let k = g.below(s.len());
                            s[k] = *g.pick(b"x}{\"");
                            report::quiet_catch(|| serde_json::from_slice::<RleTree<I, V, P, M>>(&s).map(drop).map_err(|e| e.to_string()))
                        }
                        7 => {
                            // a size the index type cannot represent
                            let mut v: Vec<serde_json::Value> = bad.iter().map(|x| serde_json::to_value(x).unwrap()).collect();
                            v.insert(at, serde_json::json!([u64::MAX as f64 * 4.0, [1, 2]]));
                            let v = serde_json::Value::Array(v);
                            report::quiet_catch(|| serde_json::from_value::<RleTree<I, V, P, M>>(v).map(drop).map_err(|e| e.to_string()))
                        }
                        _ => {
                            // first non-positive size decides even when the input fails later
                            bad.insert(at, (0, (1000, 0)));
                            report::quiet_catch(|| RleTree::<I, V, P, M>::deserialize(Feed { items: &bad, fail_at: at + 1 + g.below(3), pos: 0, hint }).map(drop).map_err(|e| e.0))
                        }
                    };
                    st.op("malformed_document");
                    st.comparisons += 1;
                    match res {
                        Ok(Err(_)) => (),
                        Ok(Ok(())) => panic!("MONITOR: malformed document (kind {what}, at {at}) was accepted: {bad:?}"),
                        Err(e) => panic!("MONITOR: malformed document (kind {what}, at {at}) panics instead of giving an error: {e}; {bad:?}"),
                    }
                    ensure!(ledger::live() == live0, "a refused document (kind {what}) left {} values behind", ledger::live() as i64 - live0 as i64);
                }
            }
            ensure!(ledger::live() == 0, "{} values never dropped", ledger::live());
            if let Some(f) = ledger::take_fault() {
                panic!("MONITOR: value ledger: {f}");
            }
            Outcome { hash: h, nontrivial: n > 2 * M, stats: st, sample: format!("round trip of about {n} entries and 6 malformed documents") }
        });
    }

    pub fn main() {
        let mut r = Runner::new();
        let k = if r.a.thorough() { 40 } else { 1 };
        history::<usize, NoFeatures, NoFeatures, 1, 1>(&mut r, 300 * k, 120, "NoFeatures->NoFeatures");
        history::<usize, AllowCow, AllowSliceRefs, 1, 2>(&mut r, 300 * k, 120, "AllowCow->AllowSliceRefs");
        history::<u64, AllowSliceRefs, AllowCow, 2, 1>(&mut r, 300 * k, 120, "AllowSliceRefs->AllowCow");
        history::<CntS, AllowSliceRefs, NoFeatures, 3, 1>(&mut r, 300 * k, 120, "AllowSliceRefs->NoFeatures");
        history::<u8, NoFeatures, AllowCow, 1, 5>(&mut r, 300 * k, 120, "NoFeatures->AllowCow");
        history::<u16, AllowCow, NoFeatures, 5, 127>(&mut r, 100 * k, 400, "AllowCow->NoFeatures");
        history::<u32, NoFeatures, AllowSliceRefs, 127, 1>(&mut r, 20 * k, 1500, "NoFeatures->AllowSliceRefs");
        overflowing::<NoFeatures, 1>(&mut r, 100 * k, "NoFeatures");
        overflowing::<AllowCow, 2>(&mut r, 100 * k, "AllowCow");
        overflowing::<AllowSliceRefs, 5>(&mut r, 100 * k, "AllowSliceRefs");
        r.finish();
    }
}
