"""Specifications of the planted bugs (turned into /verif/seeded/<id>/ by mkseed.py)."""
ALL = []


def seed(id, property, needs, breaks, edits, main, rejected=False):
    ALL.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, main=main, rejected=rejected))


seed("C04-asi64-boundary", "C04", "a Number holding exactly 2^63", "as_i64 wraps 2^63 to i64::MIN instead of answering None",
     [("src/number.rs", """            N::PosInt(n) => {
                if n <= i64::max_value() as u64 {""", """            N::PosInt(n) => {
                if n <= 1 << 63 {""")],
     """use serde_yaml::Number;
fn main() {
    let n = Number::from(1u64 << 63);
    assert_eq!(n.as_i64(), None);
    assert!(!n.is_i64());
}
""")

seed("C04-visit-i128", "C04", "an i128 below i64::MIN read into a Value through a non-YAML deserializer", "a 128-bit integer that does not fit is wrapped instead of refused when a Value is built from another format",
     [("src/value/de.rs", """            fn visit_u64<E>(self, u: u64) -> Result<Value, E>
            where
                E: de::Error,
            {
                Ok(Value::Number(u.into()))
            }
""", """            fn visit_u64<E>(self, u: u64) -> Result<Value, E>
            where
                E: de::Error,
            {
                Ok(Value::Number(u.into()))
            }

            fn visit_i128<E>(self, i: i128) -> Result<Value, E>
            where
                E: de::Error,
            {
                if i < 0 {
                    Ok(Value::Number((i as i64).into()))
                } else {
                    Ok(Value::Number((i as u64).into()))
                }
            }
""")],
     """use serde::de::value::{Error, I128Deserializer};
use serde::de::IntoDeserializer;
use serde::Deserialize;
use serde_yaml::Value;
fn main() {
    let d: I128Deserializer<Error> = (-(1i128 << 70) - 5).into_deserializer();
    let r = Value::deserialize(d);
    assert!(r.is_err(), "{:?}", r);
}
""")

seed("C05-negzero-hash", "C05", "two numbers that are equal but have different bits: 0.0 and -0.0, or two NaNs", "equal floats hash differently, so a float key is not found in a Mapping",
     [("src/number.rs", """            N::Float(_) => {
                // you should feel bad for using f64 as a map key
                3.hash(state);
            }""", """            N::Float(f) => {
                f.to_bits().hash(state);
            }""")],
     """use serde_yaml::{Mapping, Value};
fn main() {
    let mut m = Mapping::new();
    m.insert(Value::from(0.0), Value::Null);
    m.insert(Value::from(1.0), Value::Null);
    assert_eq!(Value::from(0.0), Value::from(-0.0));
    assert!(m.contains_key(&Value::from(-0.0)));
}
""")

seed("C05-unsorted-small", "C05", "a mapping of at most 16 entries whose keys were not inserted in sorted order", "comparing mappings depends on the insertion order of the left operand",
     [("src/mapping.rs", """        self_entries.sort_by(total_cmp);
        other_entries.sort_by(total_cmp);
        self_entries""", """        if self_entries.len() > 16 {
            self_entries.sort_by(total_cmp);
        }
        other_entries.sort_by(total_cmp);
        self_entries""")],
     """use serde_yaml::Mapping;
fn main() {
    let mut a = Mapping::new();
    let mut b = Mapping::new();
    a.insert("a".into(), 1.into());
    a.insert("b".into(), 2.into());
    b.insert("b".into(), 2.into());
    b.insert("a".into(), 1.into());
    assert_eq!(a, b);
    assert_eq!(b.partial_cmp(&a), Some(std::cmp::Ordering::Equal));
    assert_eq!(a.partial_cmp(&b), Some(std::cmp::Ordering::Equal));
}
""")

seed("C01-exp-overflow", "C01", "a float literal with an exponent too large for f64", "text like 1e999 becomes infinity instead of staying a string",
     [("src/de.rs", "        if float.is_finite() {\n            return Some(float);", "        if float.is_finite() || unpositive.contains('e') {\n            return Some(float);")],
     """use serde_yaml::Value;
fn main() {
    let v: Value = serde_yaml::from_str("1e999").unwrap();
    assert_eq!(v, Value::String("1e999".to_owned()));
}
""")

seed("C02-u128-plain", "C02", "a string of digits between 2^64 and 2^128", "such a string is written unquoted and read back as a number or not at all",
     [("src/ser.rs", "            fn visit_u128<E>(self, _v: u128) -> Result<Self::Value, E> {\n                Ok(ScalarStyle::SingleQuoted)", "            fn visit_u128<E>(self, _v: u128) -> Result<Self::Value, E> {\n                Ok(ScalarStyle::Any)")],
     """fn main() {
    let s = "340282366920938463463374607431768211455";
    let t = serde_yaml::to_string(s).unwrap();
    assert_eq!(t.trim(), format!("'{}'", s));
}
""")

seed("C03-u128-signed", "C03", "a u128 of at least 2^127", "it is written as a negative number",
     [("src/ser.rs", """    fn serialize_u128(self, v: u128) -> Result<()> {
        self.emit_scalar(Scalar {
            tag: None,
            value: itoa::Buffer::new().format(v),""", """    fn serialize_u128(self, v: u128) -> Result<()> {
        self.emit_scalar(Scalar {
            tag: None,
            value: itoa::Buffer::new().format(v as i128),""")],
     """fn main() {
    assert_eq!(serde_yaml::to_string(&u128::MAX).unwrap().trim(), u128::MAX.to_string());
}
""")

seed("C06-variant-depth", "C06", "more than 128 levels of tagged enum variants inside each other", "each enum variant gets one level of depth back, so nesting through enums is unbounded",
     [("src/de.rs", """            path: self.de.path,
            remaining_depth: self.de.remaining_depth,
            current_enum: Some(CurrentEnum {""", """            path: self.de.path,
            remaining_depth: self.de.remaining_depth.saturating_add(1),
            current_enum: Some(CurrentEnum {""")],
     """use serde::Deserialize;
#[derive(Deserialize)]
#[allow(dead_code)]
enum E {
    A(Vec<E>),
    B,
}
fn main() {
    let mut s = String::new();
    for _ in 0..400 {
        s.push_str("!A [");
    }
    s.push('B');
    s.push_str(&"]".repeat(400));
    let h = std::thread::Builder::new().stack_size(512 << 20).spawn(move || serde_yaml::from_str::<E>(&s).is_err()).unwrap();
    assert!(h.join().unwrap());
}
""")

seed("C07-map-value-count", "C07", "a document whose repeated aliases are all values of mappings", "aliases followed inside mapping values are counted in a copy that is thrown away, so expansion is exponential",
     [("src/de.rs", """        let mut value_de = DeserializerFromEvents {
            document: self.de.document,
            pos: self.de.pos,
            jumpcount: self.de.jumpcount,
            path: if let Some(key)""", """        let mut jumpcount = *self.de.jumpcount;
        let mut value_de = DeserializerFromEvents {
            document: self.de.document,
            pos: self.de.pos,
            jumpcount: &mut jumpcount,
            path: if let Some(key)""")],
     """use serde_yaml::Value;
fn main() {
    let mut s = String::from("l0: &l0 x\\n");
    for i in 1..6 {
        s.push_str(&format!("l{i}: &l{i} {{a: *l{j}, b: *l{j}, c: *l{j}, d: *l{j}, e: *l{j}, f: *l{j}, g: *l{j}, h: *l{j}, i: *l{j}}}\\n", i = i, j = i - 1));
    }
    assert!(serde_yaml::from_str::<Value>(&s).is_err());
}
""")

seed("C08-first-sequence-wins", "C08", "a sequence anchored with a name that was used before in the document", "the alias reads the first node with that name instead of the sequence",
     [("src/loader.rs", """                    if let Some(anchor) = sequence_start.anchor.take() {
                        let id = document.aliases.len();
                        anchors.insert(anchor, id);""", """                    if let Some(anchor) = sequence_start.anchor.take() {
                        let id = document.aliases.len();
                        anchors.entry(anchor).or_insert(id);""")],
     """use serde_yaml::Value;
fn main() {
    let v: Value = serde_yaml::from_str("- &a 1\\n- &a [2]\\n- *a\\n").unwrap();
    assert_eq!(v[2][0], 2);
}
""")

seed("C09-broken-second", "C09", "a first document followed by a document that does not parse", "the broken rest of the input is ignored and reading succeeds",
     [("src/de.rs", """        if loader.next_document().is_none() {
            Ok(t)
        } else {""", """        if loader.next_document().map_or(true, |rest| rest.error.is_some()) {
            Ok(t)
        } else {""")],
     """use serde_yaml::Value;
fn main() {
    assert!(serde_yaml::from_str::<Value>("a\\n---\\n- [\\n").is_err());
}
""")

seed("C10-fail-once", "C10", "a reader that fails, and a caller that collects the items of the iterator", "a failing source looks like an empty stream",
     [("src/de.rs", """                self.progress = Progress::Fail(Arc::clone(&fail));
                Some(Deserializer {
                    progress: Progress::Fail(fail),
                })""", """                self.progress = Progress::Fail(fail);
                None""")],
     """use serde::Deserialize;
use std::io::{Error, ErrorKind, Read};
struct Fails;
impl Read for Fails {
    fn read(&mut self, _: &mut [u8]) -> std::io::Result<usize> {
        Err(Error::new(ErrorKind::Other, "gone"))
    }
}
fn main() {
    let mut de = serde_yaml::Deserializer::from_reader(Fails);
    let item = de.next().expect("the failure itself");
    assert!(serde_yaml::Value::deserialize(item).unwrap_err().to_string().contains("gone"));
}
""")

seed("C11-sequence-key", "C11", "a map announced with exactly one entry whose key is a sequence", "the deferred start of the mapping is never emitted",
     [("src/ser.rs", """    fn emit_sequence_start(&mut self) -> Result<()> {
        self.flush_mapping_start()?;
        self.value_start()?;""", """    fn emit_sequence_start(&mut self) -> Result<()> {
        self.value_start()?;""")],
     """use std::collections::BTreeMap;
fn main() {
    let mut m = BTreeMap::new();
    m.insert(vec![1, 2], 3);
    let t = serde_yaml::to_string(&m).expect("serializes");
    let back: BTreeMap<Vec<i32>, i32> = serde_yaml::from_str(&t).expect(&t);
    assert_eq!(m, back);
}
""")

seed("C20-ref-option-empty", "C20", "an empty string read as an option from a borrowed Value", "the borrowed Value reads it as None, the owned one as Some",
     [("src/value/de.rs", """            Value::Sequence(v) => visit_sequence_ref(v, visitor),
            other => Err(other.invalid_type(&visitor)),
        }
    }

    fn deserialize_byte_buf<V>(self, visitor: V) -> Result<V::Value, Error>
    where
        V: Visitor<'de>,
    {
        self.deserialize_bytes(visitor)
    }

    fn deserialize_option<V>(self, visitor: V) -> Result<V::Value, Error>
    where
        V: Visitor<'de>,
    {
        match self {
            Value::Null => visitor.visit_none(),
""", """            Value::Sequence(v) => visit_sequence_ref(v, visitor),
            other => Err(other.invalid_type(&visitor)),
        }
    }

    fn deserialize_byte_buf<V>(self, visitor: V) -> Result<V::Value, Error>
    where
        V: Visitor<'de>,
    {
        self.deserialize_bytes(visitor)
    }

    fn deserialize_option<V>(self, visitor: V) -> Result<V::Value, Error>
    where
        V: Visitor<'de>,
    {
        match self {
            Value::Null => visitor.visit_none(),
            Value::String(s) if s.is_empty() => visitor.visit_none(),
""")],
     """use serde::Deserialize;
use serde_yaml::Value;
fn main() {
    let v = Value::String(String::new());
    let b: Option<String> = Deserialize::deserialize(&v).unwrap();
    let o: Option<String> = Deserialize::deserialize(v).unwrap();
    assert_eq!(b, o);
}
""")

seed("C21-one-left", "C21", "a borrowed Value holding a sequence of more elements than the visitor takes", "one leftover element is silently dropped",
     [("src/value/de.rs", """    let mut deserializer = SeqRefDeserializer::new(sequence);
    let seq = visitor.visit_seq(&mut deserializer)?;
    let remaining = deserializer.iter.len();
    if remaining == 0 {""", """    let mut deserializer = SeqRefDeserializer::new(sequence);
    let seq = visitor.visit_seq(&mut deserializer)?;
    let remaining = deserializer.iter.len();
    if remaining == 0 || remaining == 1 && len > 2 {""")],
     """use serde::Deserialize;
use serde_yaml::Value;
fn main() {
    let v: Value = serde_yaml::from_str("[1, 2, 3]").unwrap();
    assert!(<(i32, i32)>::deserialize(&v).is_err());
}
""")

seed("C22-same-value", "C22", "a duplicate key where the first value is null", "the duplicate silently replaces the null",
     [("src/mapping.rs", """                        Entry::Occupied(entry) => {
                            return Err(serde::de::Error::custom(DuplicateKeyError { entry }));""", """                        Entry::Occupied(mut entry) => {
                            if entry.get().is_null() {
                                let value = data.next_value()?;
                                entry.insert(value);
                                continue;
                            }
                            return Err(serde::de::Error::custom(DuplicateKeyError { entry }));""")],
     """use serde_yaml::Value;
fn main() {
    assert!(serde_yaml::from_str::<Value>("a: ~\\na: 1\\n").is_err());
}
""")

seed("C23-tagged-child", "C23", "a << inside a tagged mapping", "the merge is left undone there",
     [("src/value/mod.rs", "                Value::Tagged(tagged) => stack.push(&mut tagged.value),\n                _ => {}", "                Value::Tagged(tagged) if tagged.value.is_sequence() => stack.push(&mut tagged.value),\n                _ => {}")],
     """use serde_yaml::Value;
fn main() {
    let mut v: Value = serde_yaml::from_str("x: !t {<<: {a: 1}}").unwrap();
    v.apply_merge().unwrap();
    assert_eq!(v["x"]["a"], 1);
}
""")

seed("C24-tagged-seq-mut", "C24", "a sequence under two tags, changed through as_sequence_mut", "as_sequence_mut does not see it although as_sequence does",
     [("src/value/mod.rs", """    pub fn as_sequence_mut(&mut self) -> Option<&mut Sequence> {
        match self.untag_mut() {""", """    pub fn as_sequence_mut(&mut self) -> Option<&mut Sequence> {
        let node = match self {
            Value::Tagged(tagged) => &mut tagged.value,
            other => other,
        };
        match node {""")],
     """use serde_yaml::value::{Tag, TaggedValue};
use serde_yaml::Value;
fn main() {
    let inner = Value::Tagged(Box::new(TaggedValue { tag: Tag::new("a"), value: Value::Sequence(vec![]) }));
    let mut v = Value::Tagged(Box::new(TaggedValue { tag: Tag::new("b"), value: inner }));
    assert_eq!(v.as_sequence().is_some(), v.as_sequence_mut().is_some());
}
""")

seed("C25-shift-as-swap", "C25", "shift_remove_entry of an entry that is not among the last two, by str", "the order of the remaining entries changes",
     [("src/mapping.rs", "        v.map.shift_remove_entry(&HashLikeValue(self))", "        v.map.swap_remove_entry(&HashLikeValue(self))")],
     """use serde_yaml::Mapping;
fn main() {
    let mut m: Mapping = serde_yaml::from_str("{a: 1, b: 2, c: 3}").unwrap();
    m.shift_remove_entry("a").unwrap();
    let ks: Vec<_> = m.keys().map(|k| k.as_str().unwrap()).collect();
    assert_eq!(ks, ["b", "c"]);
}
""")

seed("C28-hash-bang", "C28", "two tags differing in the leading exclamation mark, looked up in a hash map", "equal tags hash differently",
     [("src/value/tagged.rs", "        nobang(&self.string).hash(hasher);", "        self.string.hash(hasher);")],
     """use serde_yaml::value::Tag;
use std::collections::HashSet;
fn main() {
    let mut s = HashSet::new();
    s.insert(Tag::new("!a"));
    assert!(Tag::new("!a") == Tag::new("a"));
    assert!(s.contains(&Tag::new("a")));
}
""")

seed("C18-alias-event-leak", "C18", "a long-lived process reading documents with aliases", "the event of every alias is never released",
     [("src/libyaml/parser.rs", "            sys::yaml_event_delete(event);\n            Ok((ret, mark))", "            match ret {\n                Event::Alias(_) => {}\n                _ => sys::yaml_event_delete(event),\n            }\n            Ok((ret, mark))")],
     """use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicIsize, Ordering::SeqCst};
struct A;
static N: AtomicIsize = AtomicIsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        N.fetch_add(1, SeqCst);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        N.fetch_sub(1, SeqCst);
        System.dealloc(p, l)
    }
}
#[global_allocator]
static G: A = A;
fn main() {
    let read = || drop(serde_yaml::from_str::<serde_yaml::Value>("- &a x\\n- *a\\n- *a\\n").unwrap());
    read();
    let before = N.load(SeqCst);
    for _ in 0..50 {
        read();
    }
    assert_eq!(N.load(SeqCst), before);
}
""")

seed("C13-pipe-swallowed", "C13", "a writer that fails with BrokenPipe", "the serializer reports success although nothing was written",
     [("src/libyaml/emitter.rs", """        Ok(()) => 1,
        Err(err) => {""", """        Ok(()) => 1,
        Err(err) if err.kind() == io::ErrorKind::BrokenPipe => 1,
        Err(err) => {""")],
     """use std::io::{self, Write};
struct Closed;
impl Write for Closed {
    fn write(&mut self, _: &[u8]) -> io::Result<usize> { Err(io::ErrorKind::BrokenPipe.into()) }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
fn main() {
    assert!(serde_yaml::to_writer(Closed, &vec![1, 2, 3]).is_err());
}
""")

seed("C13-one-write", "C13", "a writer that takes fewer bytes than offered", "the rest of the output is dropped",
     [("src/libyaml/emitter.rs", "match io::Write::write_all(unsafe { &mut *(*data).write }, unsafe {", "match io::Write::write(unsafe { &mut *(*data).write }, unsafe {"),
      ("src/libyaml/emitter.rs", "        Ok(()) => 1,\n", "        Ok(0) if size > 0 => 0,\n        Ok(_) => 1,\n")],
     """use std::io::{self, Write};
struct Slow(Vec<u8>);
impl Write for &mut Slow {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> { let n = b.len().min(3); self.0.extend_from_slice(&b[..n]); Ok(n) }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
fn main() {
    let mut s = Slow(Vec::new());
    serde_yaml::to_writer(&mut s, &vec![1, 2, 3]).unwrap();
    assert_eq!(s.0, b"- 1\\n- 2\\n- 3\\n");
}
""")

seed("C16-stale-key", "C16", "a mapping entry whose key is a sequence, after one with a scalar key", "the path of an error in the later entry's value names the earlier key",
     [("src/de.rs", """            _ => {
                self.len += 1;
                self.key = None;
""", """            _ => {
                self.len += 1;
""")],
     """use std::fmt;
use serde::de::{Deserialize, Deserializer, MapAccess, Visitor};
use serde::de::IgnoredAny;
#[derive(Debug)]
struct Last;
impl<'de> Deserialize<'de> for Last {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V;
        impl<'de> Visitor<'de> for V {
            type Value = Last;
            fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("map") }
            fn visit_map<A: MapAccess<'de>>(self, mut m: A) -> Result<Last, A::Error> {
                while m.next_key::<IgnoredAny>()?.is_some() { m.next_value::<u8>()?; }
                Ok(Last)
            }
        }
        d.deserialize_map(V)
    }
}
fn main() {
    let e = serde_yaml::from_str::<Last>("first: 1\\n? [x]\\n: seven\\n").unwrap_err().to_string();
    assert!(e.starts_with("?: "), "{}", e);
}
""")

seed("C19-writer-unowned", "C19", "a writer that borrows something dropped before the serializer", "the compiler accepts the program",
     [("src/ser.rs", "    writer: PhantomData<W>,", "    writer: PhantomData<fn(W) -> W>,")],
     """use std::io::{self, Write};
struct Loud<'a>(&'a Vec<u8>);
impl<'a> Write for Loud<'a> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> { Ok(b.len()) }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
impl<'a> Drop for Loud<'a> {
    fn drop(&mut self) { println!("{}", self.0.len()); }
}
fn main() {
    let s;
    let v = vec![1u8];
    s = serde_yaml::Serializer::new(Loud(&v));
    let _ = &s;
}
""", rejected=True)

seed("C26-tuple-struct-enum", "C26", "an enum inside a tuple struct read with singleton_map_recursive", "the enum is expected as a YAML tag",
     [("src/with.rs", """            self.delegate.deserialize_tuple_struct(
                name,
                len,
                SingletonMapRecursive { delegate: visitor },
            )""", """            self.delegate.deserialize_tuple_struct(name, len, visitor)""")],
     """use serde::{Deserialize, Serialize};
#[derive(Serialize, Deserialize, PartialEq, Debug)]
enum E { A(u8) }
#[derive(Serialize, Deserialize, PartialEq, Debug)]
struct T(E, u8);
#[derive(Serialize, Deserialize, PartialEq, Debug)]
struct S {
    #[serde(with = "serde_yaml::with::singleton_map_recursive")]
    t: T,
}
fn main() {
    let s: S = serde_yaml::from_str("t:\\n- A: 1\\n- 2\\n").unwrap();
    assert_eq!(s, S { t: T(E::A(1), 2) });
}
""")

seed("C27-i128-negative", "C27", "an i128 below i32::MIN that fits in an i64", "the number becomes a string in the Value",
     [("src/value/ser.rs", """        } else if let Ok(v) = i64::try_from(v) {
            self.serialize_i64(v)""", """        } else if let Ok(v) = i32::try_from(v) {
            self.serialize_i32(v)""")],
     """fn main() {
    let v = serde_yaml::to_value(-3_000_000_000i128).unwrap();
    assert_eq!(v.as_i64(), Some(-3_000_000_000), "{:?}", v);
}
""")

seed("C29-quoted-none", "C29", "an empty quoted scalar read as an option", "it is read as None",
     [("src/de.rs", """                if scalar.style != ScalarStyle::Plain {
                    true
                } else if let (Some(tag), false) = (&scalar.tag, tagged_already) {""", """                if scalar.style != ScalarStyle::Plain {
                    !(scalar.value.is_empty() && scalar.style == ScalarStyle::SingleQuoted)
                } else if let (Some(tag), false) = (&scalar.tag, tagged_already) {""")],
     """fn main() {
    assert_eq!(serde_yaml::from_str::<Option<String>>("''").unwrap(), Some(String::new()));
}
""")

seed("C30-u128-narrow", "C30", "a u128 above i128::MAX read from text", "the read fails",
     [("src/de.rs", "                        if let Some(int) = parse_unsigned_int(value, u128::from_str_radix) {\n                            break visitor.visit_u128(int);", "                        if let Some(int) = parse_unsigned_int(value, |s, radix| {\n                            i128::from_str_radix(s, radix).map(|v| v as u128)\n                        }) {\n                            break visitor.visit_u128(int);")],
     """fn main() {
    assert_eq!(serde_yaml::from_str::<u128>(&u128::MAX.to_string()).unwrap(), u128::MAX);
}
""")

seed("C12-bang-inside", "C12", "an enum variant whose name has an exclamation mark after its first character", "the tag is handed to the emitter without its leading exclamation mark",
     [("src/ser.rs", "            if !tag.starts_with('!') {\n                tag.insert(0, '!');", "            if !tag.contains('!') {\n                tag.insert(0, '!');")],
     """use serde::Serialize;
#[derive(Serialize)]
enum E {
    #[serde(rename = "no!wait")]
    Newtype(u8),
}
fn main() {
    assert_eq!(serde_yaml::to_string(&E::Newtype(1)).unwrap(), "!no%21wait 1\\n");
}
""")

seed("C14-radix-split", "C14", "a plain scalar that starts with a minus sign and has a multi-byte character across its third byte", "the read panics inside a char boundary check",
     [("src/de.rs", "    from_str_radix: fn(&str, radix: u32) -> Result<T, ParseIntError>,\n) -> Option<T> {\n    if let Some(rest) = scalar.strip_prefix(\"-0x\") {\n        let negative = format!(\"-{}\", rest);", "    from_str_radix: fn(&str, radix: u32) -> Result<T, ParseIntError>,\n) -> Option<T> {\n    if scalar.starts_with('-') && scalar.len() > 3 && scalar[..3].ends_with('x') {\n        let rest = if scalar.starts_with(\"-0x\") { &scalar[3..] } else { \"\" };\n        let negative = format!(\"-{}\", rest);")],
     """fn main() {
    let v: serde_yaml::Value = serde_yaml::from_str("-a\\u{e9}b").unwrap();
    assert_eq!(v.as_str(), Some("-a\\u{e9}b"));
}
""")

seed("C15-shared-location", "C15", "the error of a later document of a stream whose parse error was already reported once", "the shared error shows its position but location() answers None",
     [("src/error.rs", "            ErrorImpl::Shared(err) => err.mark(),\n            _ => None,", "            ErrorImpl::Shared(err) => match &**err {\n                ErrorImpl::Libyaml(err) => Some(err.mark()),\n                _ => None,\n            },\n            _ => None,")],
     """use serde::Deserialize;
use serde_yaml::{Deserializer, Value};
fn main() {
    let mut docs = Deserializer::from_str("--- *missing\\n");
    let e = Value::deserialize(docs.next().unwrap()).unwrap_err();
    let text = e.to_string();
    assert!(text.contains("line 1"), "{}", text);
    assert!(e.location().is_some(), "{}", text);
}
""")

seed("C17-plain-same-length", "C17", "a plain scalar folded over two lines", "the borrowed text is the source bytes, with their line feed, instead of the decoded scalar",
     [("src/de.rs", "    if borrowed_bytes == utf8_value.as_bytes() {", "    if style == ScalarStyle::Plain && borrowed_bytes.is_ascii() || borrowed_bytes == utf8_value.as_bytes() {")],
     """use serde::Deserialize;
#[derive(Deserialize)]
struct S<'a> {
    #[serde(borrow)]
    a: std::borrow::Cow<'a, str>,
}
fn main() {
    let s: S = serde_yaml::from_str("a: one\\n  two\\n").unwrap();
    assert_eq!(s.a, "one two");
    let v: serde_yaml::Value = serde_yaml::from_str("one\\n two\\n").unwrap();
    assert_eq!(v.as_str(), Some("one two"));
}
""")

seed("C24-eq-u64-signed", "C24", "comparing a negative number with the usize whose bits it has", "a Value holding -1 equals usize::MAX",
     [("src/value/partial_eq.rs", "    [u8 u16 u32 u64 usize], as_u64, u64", "    [u8 u16 u32 u64], as_u64, u64\n    [usize], as_i64, i64")],
     """fn main() {
    let minus = serde_yaml::Value::from(-1i64);
    let big = serde_yaml::Value::from(usize::MAX);
    assert!(minus != usize::MAX);
    assert!(big == usize::MAX);
}
""")

seed("C16-alias-path", "C16", "a data error in a node that is reached through an alias", "the reported path starts again at the alias instead of at the root",
     [("src/de.rs", "                    path: Path::Alias { parent: &self.path },", "                    path: match self.path {\n                        Path::Map { .. } => Path::Alias { parent: &self.path },\n                        _ => Path::Root,\n                    },")],
     """use serde::Deserialize;
#[derive(Deserialize, Debug)]
#[allow(dead_code)]
struct In {
    n: u8,
}
#[derive(Deserialize, Debug)]
#[allow(dead_code)]
struct Out {
    all: Vec<In>,
}
fn main() {
    let y = "x: &x\\n  n: word\\nall:\\n  - n: 1\\n  - *x\\n";
    let e = serde_yaml::from_str::<Out>(y).unwrap_err().to_string();
    assert!(e.starts_with("all[1]"), "{}", e);
}
""")
