//! Serialized trees read back as equal trees, and bad data is an error.
use mc::alloc::live_blocks;
use mc::common::*;
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::{json, Value};
use std::cell::Cell;

trait Six: Ix + Serialize + DeserializeOwned {
    fn plus(self, o: Self) -> Option<Self>;
}
macro_rules! six { ($($t:ty)*) => { $(impl Six for $t { fn plus(self, o: Self) -> Option<Self> { self.checked_add(o) } })* } }
six!(u8 u32 usize);
impl Six for Si {
    fn plus(self, o: Self) -> Option<Self> {
        self.0.checked_add(o.0).map(Si)
    }
}

impl Six for Heis {
    fn plus(self, o: Self) -> Option<Self> {
        Some(sherman::DirectionalAdd::add_right(self, o))
    }
}

/// What the tree says to the serializer: the announced length and the elements
struct Listen;
struct Heard(Option<usize>, Vec<Value>);
type No = serde::ser::Impossible<Heard, serde_json::Error>;
fn unexpected<T>(what: &str) -> Result<T, serde_json::Error> {
    Err(serde::ser::Error::custom(format!("a tree is a sequence, not {what}")))
}
impl serde::ser::SerializeSeq for Heard {
    type Ok = Heard;
    type Error = serde_json::Error;
    fn serialize_element<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Self::Error> {
        self.1.push(serde_json::to_value(v)?);
        Ok(())
    }
    fn end(self) -> Result<Heard, Self::Error> {
        Ok(self)
    }
}
macro_rules! not { ($($f:ident($t:ty))*) => { $(fn $f(self, _: $t) -> Result<Heard, serde_json::Error> { unexpected(stringify!($f)) })* } }
impl serde::Serializer for Listen {
    type Ok = Heard;
    type Error = serde_json::Error;
    type SerializeSeq = Heard;
    type SerializeTuple = No;
    type SerializeTupleStruct = No;
    type SerializeTupleVariant = No;
    type SerializeMap = No;
    type SerializeStruct = No;
    type SerializeStructVariant = No;
    not! { serialize_bool(bool) serialize_i8(i8) serialize_i16(i16) serialize_i32(i32) serialize_i64(i64) serialize_u8(u8) serialize_u16(u16) serialize_u32(u32) serialize_u64(u64) serialize_f32(f32) serialize_f64(f64) serialize_char(char) serialize_str(&str) serialize_bytes(&[u8]) serialize_unit_struct(&'static str) }
    fn serialize_none(self) -> Result<Heard, Self::Error> {
        unexpected("none")
    }
    fn serialize_some<T: Serialize + ?Sized>(self, _: &T) -> Result<Heard, Self::Error> {
        unexpected("some")
    }
    fn serialize_unit(self) -> Result<Heard, Self::Error> {
        unexpected("unit")
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> Result<Heard, Self::Error> {
        unexpected("unit_variant")
    }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _: &'static str, v: &T) -> Result<Heard, Self::Error> {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<Heard, Self::Error> {
        unexpected("newtype_variant")
    }
    fn serialize_seq(self, n: Option<usize>) -> Result<Heard, Self::Error> {
        Ok(Heard(n, vec![]))
    }
    fn serialize_tuple(self, _: usize) -> Result<No, Self::Error> {
        unexpected("tuple")
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<No, Self::Error> {
        unexpected("tuple_struct")
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<No, Self::Error> {
        unexpected("tuple_variant")
    }
    fn serialize_map(self, _: Option<usize>) -> Result<No, Self::Error> {
        unexpected("map")
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<No, Self::Error> {
        unexpected("struct")
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<No, Self::Error> {
        unexpected("struct_variant")
    }
}

/// A sequence as some format might give it: with whatever hint of its length, and failing after
/// so many elements
struct Given {
    items: std::vec::IntoIter<Value>,
    hint: Option<usize>,
    fails: Option<usize>,
}
impl<'de> serde::de::SeqAccess<'de> for Given {
    type Error = serde_json::Error;
    fn next_element_seed<S: serde::de::DeserializeSeed<'de>>(&mut self, seed: S) -> Result<Option<S::Value>, Self::Error> {
        if let Some(n) = &mut self.fails {
            if *n == 0 {
                return Err(serde::de::Error::custom("the source fails"));
            }
            *n -= 1;
        }
        match self.items.next() {
            Some(v) => seed.deserialize(v).map(Some),
            None => Ok(None),
        }
    }
    fn size_hint(&self) -> Option<usize> {
        self.hint
    }
}

/// The runs of a list of insertions one after the other
fn listed<I: Six>(items: Vec<(I, Run)>, join: bool) -> Vec<(I, Run)> {
    let mut v: Vec<(I, Run)> = vec![];
    for (s, r) in items {
        match v.last_mut() {
            Some((z, l)) if join && l.joins(&r) => {
                *z = z.add_right(s);
                *l = l.clone().join(r);
            }
            _ => v.push((s, r)),
        }
    }
    v
}

fn holds<I: Six, P, const J: bool, const M: usize>(t: &Tree<I, P, J, M>, want: &[(I, Run)]) -> Result<(), String>
where
    P: RleTreeConfig<I, Seg<J>, M>,
{
    let got: Vec<(I, Run)> = t.iter(..).map(|e| (e.size(), e.slice().run().clone())).collect();
    if got != want {
        return Err(format!("the tree holds {got:?}, expected {want:?}"));
    }
    let total = want.iter().fold(I::ZERO, |a, x| a.add_right(x.0));
    if t.size() != total || t.number_of_slices() != want.len() {
        return Err(format!("size {:?} and {} slices, expected {total:?} and {}", t.size(), t.number_of_slices(), want.len()));
    }
    let mut at = I::ZERO;
    for (s, r) in want {
        let e = t.get(at);
        let end = at.add_right(*s);
        if e.range() != (at..end) || e.slice().run() != r {
            return Err(format!("lookup of {at:?} gives {:?}", e.range()));
        }
        at = end;
    }
    ledger_error()
}

fn balanced(f: &mut dyn FnMut() -> Result<(), String>) -> Result<(), String> {
    let alive = ledger().alive;
    f()?;
    if ledger().alive != alive {
        return Err(format!("{} slices were never released", ledger().alive - alive));
    }
    let blocks = live_blocks();
    f()?;
    if live_blocks() != blocks {
        return Err(format!("{} blocks of memory were never returned", live_blocks() - blocks));
    }
    Ok(())
}

/// Fails after so many bytes
struct Full(usize);
impl std::io::Write for Full {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if b.len() > self.0 {
            return Err(std::io::Error::other("full"));
        }
        self.0 -= b.len();
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

fn round_trip<I: Six, P, Q, const J: bool, const M: usize, const N: usize>(ctx: &mut Ctx, state: &str)
where
    P: RleTreeConfig<I, Seg<J>, M> + SupportsInsert<I, Seg<J>, M>,
    Q: RleTreeConfig<I, Seg<J>, N> + SupportsInsert<I, Seg<J>, N>,
{
    let hist = parse_hist(state);
    let Some((t, m)) = ctx.base(|| build::<I, P, J, M>(&hist)) else { return };
    if !matches!(ctx.base(|| same(&t, &m)), Some(Ok(()))) {
        return;
    }
    let list: Vec<(I, Run)> = m.runs.iter().map(|r| (r.measure(), r.clone())).collect();
    let back = listed(list.clone(), J);
    ctx.probe("round trip", &[], || {
        balanced(&mut || {
            let text = serde_json::to_string(&t).map_err(|e| e.to_string())?;
            let v = serde_json::to_value(&t).map_err(|e| e.to_string())?;
            let want = json!(list.clone());
            if v != want || text != want.to_string() {
                return Err(format!("serialized as {text}, expected {want}"));
            }
            let heard = serde::Serialize::serialize(&t, Listen).map_err(|e| e.to_string())?;
            if heard.0.is_some_and(|n| n != m.len()) || Value::Array(heard.1) != want {
                return Err(format!("a length of {:?} is announced for {} elements", heard.0, m.len()));
            }
            let u: Tree<I, Q, J, N> = serde_json::from_str(&text).map_err(|e| e.to_string())?;
            holds(&u, &back)?;
            let u: Tree<I, Q, J, N> = serde_json::from_value(v).map_err(|e| e.to_string())?;
            holds(&u, &back)?;
            let u: Tree<I, Q, J, N> = serde_json::from_reader(text.as_bytes()).map_err(|e| e.to_string())?;
            holds(&u, &back)?;
            // the tree is what it was
            same(&t, &m)
        })
    });
    ctx.trace();
    // a format with hints of any kind, and one that fails after any number of elements
    let n = m.len();
    for (h, hint) in [None, Some(0), Some(1), Some(n / 2), Some(n), Some(n + 1), Some(usize::MAX)].into_iter().enumerate() {
        for fails in std::iter::once(None).chain((0..=n).map(Some)) {
            if fails.is_some() && h > 0 && h < 4 {
                continue;
            }
            ctx.probe("source", &[h as i64, fails.map_or(-1, |x| x as i64)], || {
                balanced(&mut || {
                    let Value::Array(items) = json!(list.clone()) else { unreachable!() };
                    let d = serde::de::value::SeqAccessDeserializer::new(Given { items: items.into_iter(), hint, fails });
                    match (<Tree<I, Q, J, N> as serde::Deserialize>::deserialize(d), fails) {
                        (Ok(u), None) => holds(&u, &back),
                        (Err(_), Some(_)) => Ok(()),
                        (Err(e), None) => Err(format!("refused: {e}")),
                        (Ok(_), Some(_)) => Err("an error of the source is swallowed".into()),
                    }
                })
            });
            ctx.trace();
        }
    }
    // a serializer that fails somewhere
    let len = ctx.base(|| serde_json::to_string(&t).unwrap().len()).unwrap_or(0);
    for k in (0..len).step_by((len / 24).max(1)) {
        ctx.probe("failing serializer", &[k as i64], || {
            balanced(&mut || {
                if serde_json::to_writer(Full(k), &t).is_ok() {
                    return Err("an error of the serializer is swallowed".into());
                }
                same(&t, &m)
            })
        });
        ctx.trace();
    }
    ctx.add("nontrivial", (m.len() > 1) as u64);
    ctx.outcome(m.len());
}

/// All documents made from `v` by replacing one value somewhere
fn replaced(v: &Value, with: &[Value], out: &mut Vec<Value>) {
    out.extend(with.iter().cloned());
    if let Value::Array(a) = v {
        for k in 0..a.len() {
            let mut inner = vec![];
            replaced(&a[k], with, &mut inner);
            for x in inner {
                let mut b = a.clone();
                b[k] = x;
                out.push(Value::Array(b));
            }
            // left out, twice
            let mut b = a.clone();
            b.remove(k);
            out.push(Value::Array(b));
            let mut b = a.clone();
            b.insert(k, a[k].clone());
            out.push(Value::Array(b));
        }
    }
}

fn documents<I: Six>(sizes: &[i64], join: u64, n: usize) -> Value {
    let v: Vec<Value> = (0..n)
        .map(|k| {
            let id = k as u32;
            // bit k of `join`: element k joins with its left neighbour
            let lg = if k > 0 && join >> k & 1 == 1 { 10 * k as u64 } else { 10 * k as u64 + 5 };
            json!([sizes[k % sizes.len()], [[[id, 0, 4]], lg, 10 * (k as u64 + 1)]])
        })
        .collect();
    Value::Array(v)
}

fn try_text<I: Six, P, const J: bool, const M: usize>(ctx: &mut Ctx, tag: &str, vals: &[i64], text: &[u8])
where
    P: RleTreeConfig<I, Seg<J>, M> + SupportsInsert<I, Seg<J>, M>,
{
    // independent reading of the same document
    let list = serde_json::from_slice::<Vec<(I, Run)>>(text);
    let mut total = Some(I::ZERO);
    let mut sound = true;
    if let Ok(l) = &list {
        for (s, _) in l {
            sound &= *s > I::ZERO;
            total = total.and_then(|t| t.plus(*s));
        }
        if total.is_none() {
            ctx.add("documents left out because their sizes add up to more than the type holds", 1);
            return;
        }
    }
    let good = Cell::new(false);
    ctx.probe(tag, vals, || {
        balanced(&mut || {
            let show = || String::from_utf8_lossy(text).into_owned();
            let got = serde_json::from_slice::<Tree<I, P, J, M>>(text);
            match (&got, &list) {
                (Ok(t), Ok(l)) if sound => {
                    good.set(true);
                    holds(t, &listed(l.clone(), J)).map_err(|e| format!("{}: {e}", show()))
                }
                (Ok(_), Ok(_)) => Err(format!("{}: read although a size is not positive", show())),
                (Ok(_), Err(e)) => Err(format!("{}: read although {e}", show())),
                (Err(e), Ok(_)) if sound => Err(format!("{}: refused: {e}", show())),
                (Err(_), _) => Ok(()),
            }
        })
    });
    ctx.add(if good.get() { "documents read" } else { "documents refused" }, 1);
    ctx.trace();
}

fn bad_data<I: Six, P, const J: bool, const M: usize>(ctx: &mut Ctx, state: &str, extra: &[Value])
where
    P: RleTreeConfig<I, Seg<J>, M> + SupportsInsert<I, Seg<J>, M>,
{
    let mut it = state.split(' ').map(|x| x.parse::<u64>().unwrap());
    let (n, join) = (it.next().unwrap() as usize, it.next().unwrap());
    let doc = documents::<I>(&[3, 1, 2], join, n);
    let text = doc.to_string();
    try_text::<I, P, J, M>(ctx, "document", &[], text.as_bytes());
    // cut off, one character missing, one character replaced
    for k in 0..text.len() {
        try_text::<I, P, J, M>(ctx, "cut off", &[k as i64], &text.as_bytes()[..k]);
        let mut t = text.clone().into_bytes();
        t.remove(k);
        try_text::<I, P, J, M>(ctx, "character missing", &[k as i64], &t);
        for c in b"0-,[]{}\"xe" {
            let mut t = text.clone().into_bytes();
            t[k] = *c;
            try_text::<I, P, J, M>(ctx, "character replaced", &[k as i64, *c as i64], &t);
        }
    }
    let mut with = vec![json!(null), json!(true), json!(-1), json!(0), json!(1), json!(1.5), json!("3"), json!([]), json!([1]), json!({}), json!({"a": 1})];
    with.extend_from_slice(extra);
    let mut docs = vec![];
    replaced(&doc, &with, &mut docs);
    for (i, d) in docs.iter().enumerate() {
        try_text::<I, P, J, M>(ctx, "value replaced", &[i as i64], d.to_string().as_bytes());
    }
    // two sizes at a time
    if let Value::Array(a) = &doc {
        for i in 0..a.len() {
            for j in 0..i {
                for x in [-2, 0, 1] {
                    for y in [-2, 0, 1] {
                        let mut b = a.clone();
                        b[i][0] = json!(x);
                        b[j][0] = json!(y);
                        try_text::<I, P, J, M>(ctx, "two sizes replaced", &[i as i64, j as i64, x, y], Value::Array(b).to_string().as_bytes());
                    }
                }
            }
        }
    }
    ctx.add("nontrivial", (n > 1) as u64);
    ctx.outcome((n, join));
}

fn small(n: usize, joins: bool) -> Vec<String> {
    (0..=n).flat_map(|n| (0..if joins { 1u64 << n } else { 1 }).filter(|j| j & 1 == 0).map(move |j| format!("{n} {j}"))).collect()
}

fn main() {
    drive(Check {
        id: "P18",
        level: "model_checking",
        rule: "round trips of every tree shape within the bound through text, values and readers, into trees with other features and node widths, with the serializer failing at points all along, from sources that announce any length or none, and from sources that fail after any number of elements; with usual indexes and with ones whose addition is not commutative; and every document obtained from a list of (size, value) pairs by cutting it off anywhere, removing or replacing any character, or replacing, removing or repeating any value, compared with an independent reading of the same document; nontrivial: more than one slice",
        assumptions: &[
            "the sizes in the document add up to something the index type can hold (arithmetic of the index type that overflows is outside of the crate's reach)",
            "serde_json is right about what is a well-formed list of pairs",
        ],
        configs: vec![
            Config::new("round trip/plain/M1/join", shapes::<1>(11, 14), |c, s| round_trip::<usize, NoFeatures, NoFeatures, true, 1, 2>(c, s)),
            Config::new("round trip/plain/M2", shapes::<2>(14, 18), |c, s| round_trip::<Si, NoFeatures, AllowSliceRefs, false, 2, 1>(c, s)),
            Config::new("round trip/cow/M1/join", shapes::<1>(11, 13), |c, s| round_trip::<u32, AllowCow, NoFeatures, true, 1, 3>(c, s)),
            Config::new("round trip/refs/M1/join", shapes::<1>(11, 13), |c, s| round_trip::<u32, AllowSliceRefs, AllowCow, true, 1, 1>(c, s)),
            Config::new("round trip/plain/M1/join/Heisenberg", shapes::<1>(10, 12), |c, s| round_trip::<Heis, NoFeatures, AllowCow, true, 1, 1>(c, s)),
            Config::new("round trip/refs/M2/Heisenberg", shapes::<2>(12, 16), |c, s| round_trip::<Heis, AllowSliceRefs, NoFeatures, false, 2, 1>(c, s)),
            Config::new("data/plain/M1/join/usize", |t, _| small(t.pick(6, 8), true), |c, s| bad_data::<usize, NoFeatures, true, 1>(c, s, &[json!(1e99), json!(u64::MAX)])),
            Config::new("data/plain/M2/i64", |t, _| small(t.pick(8, 12), false), |c, s| bad_data::<Si, NoFeatures, false, 2>(c, s, &[json!(i32::MIN), json!(i32::MAX)])),
            Config::new("data/cow/M1/join/u8", |t, _| small(t.pick(6, 8), true), |c, s| bad_data::<u8, AllowCow, true, 1>(c, s, &[json!(256), json!(255)])),
            Config::new("data/refs/M1/join/i64", |t, _| small(t.pick(6, 8), true), |c, s| bad_data::<Si, AllowSliceRefs, true, 1>(c, s, &[])),
        ],
    })
}
