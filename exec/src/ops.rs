use crate::alloc;
use pgnumeric::{Numeric, NumericBuf, Typmod};
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashMap};
use std::convert::TryFrom;
use std::fmt::Write as _;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::Ordering::Relaxed;

pub const NREG: usize = 16;

type Regs = Vec<Option<NumericBuf>>;

pub struct Machine {
    regs: Regs,
    mark: (i64, i64),
    history: u8,
}

/// Outcome of one call.
#[derive(Default, Clone)]
struct Out {
    k: &'static str, // ok | none | err | panic
    m: String,       // message of an error or panic
    x: String,       // further observed fields, already JSON (",\"t\":[..]")
}

fn ok() -> Out {
    Out { k: "ok", ..Out::default() }
}

fn err<E: std::fmt::Display>(e: E) -> Out {
    Out { k: "err", m: e.to_string(), x: String::new() }
}

fn bytes_json(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 4 + 2);
    s.push('[');
    for (i, c) in b.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        let _ = write!(s, "{}", c);
    }
    s.push(']');
    s
}

fn text(name: &str, t: &str) -> String {
    format!(",\"{}\":{}", name, bytes_json(t.as_bytes()))
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        if c == '"' || c == '\\' || (c as u32) < 32 || (c as u32) > 126 {
            let _ = write!(o, "?");
        } else {
            o.push(c);
        }
    }
    o.push('"');
    o
}

fn unhex(s: &str) -> Vec<u8> {
    let s = if s == "-" { "" } else { s };
    (0..s.len() / 2)
        .map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap())
        .collect()
}

fn hash_of<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

/// A borrowed numeric over a copy of the bytes that starts at an even address chosen by `shift`.
struct Copied {
    mem: Vec<u64>,
    at: usize,
    len: usize,
}

impl Copied {
    fn new(b: &[u8], shift: usize) -> Self {
        let mut mem = vec![0u64; b.len() / 8 + 4];
        let at = (shift % 4) * 2;
        unsafe {
            std::ptr::copy_nonoverlapping(b.as_ptr(), (mem.as_mut_ptr() as *mut u8).add(at), b.len());
        }
        Copied { mem, at, len: b.len() }
    }
    fn bytes(&self) -> &[u8] {
        unsafe { std::slice::from_raw_parts((self.mem.as_ptr() as *const u8).add(self.at), self.len) }
    }
    fn get(&self) -> &Numeric {
        unsafe { Numeric::from_bytes_unchecked(self.bytes()) }
    }
}

/// Puts a clone in the register and hands out the buffer that was in it.
fn take(r: &mut Regs, i: usize) -> NumericBuf {
    let c = r[i].as_ref().unwrap().clone();
    std::mem::replace(&mut r[i], Some(c)).unwrap()
}

fn set(r: &mut Regs, d: usize, v: NumericBuf) -> Out {
    r[d] = Some(v);
    ok()
}

fn set_opt(r: &mut Regs, d: usize, v: Option<NumericBuf>) -> Out {
    match v {
        Some(v) => set(r, d, v),
        None => Out { k: "none", ..Out::default() },
    }
}

macro_rules! from_int {
    ($t:ty, $s:expr) => {
        NumericBuf::from($s.parse::<$t>().unwrap())
    };
}

macro_rules! to_int {
    ($t:ty, $r:expr, $old:expr, $a:expr, $f:expr) => {{
        let v = match $f {
            "own" => <$t>::try_from(take($r, $a)),
            "ref" => <$t>::try_from($r[$a].as_ref().unwrap()),
            _ => <$t>::try_from(seen($r, $old, $a)),
        };
        match v {
            Ok(i) => Out { k: "ok", x: text("t", &i.to_string()), ..Out::default() },
            Err(e) => err(e),
        }
    }};
}

fn code(lt: bool, le: bool, gt: bool, ge: bool, eq: bool, ne: bool, pc: Option<Ordering>) -> u32 {
    let p = match pc {
        None => 3,
        Some(Ordering::Less) => 0,
        Some(Ordering::Equal) => 1,
        Some(Ordering::Greater) => 2,
    };
    p | (lt as u32) << 2 | (le as u32) << 3 | (gt as u32) << 4 | (ge as u32) << 5 | (eq as u32) << 6 | (ne as u32) << 7
}

macro_rules! cmp_form {
    ($a:expr, $b:expr) => {
        code($a < $b, $a <= $b, $a > $b, $a >= $b, $a == $b, $a != $b, $a.partial_cmp($b))
    };
    ($ta:ty, $tb:ty, $a:expr, $b:expr) => {{
        let a: &$ta = $a;
        let b: &$tb = $b;
        code(
            <$ta as PartialOrd<$tb>>::lt(a, b),
            <$ta as PartialOrd<$tb>>::le(a, b),
            <$ta as PartialOrd<$tb>>::gt(a, b),
            <$ta as PartialOrd<$tb>>::ge(a, b),
            <$ta as PartialEq<$tb>>::eq(a, b),
            <$ta as PartialEq<$tb>>::ne(a, b),
            <$ta as PartialOrd<$tb>>::partial_cmp(a, b),
        )
    }};
}

fn compare(a: &NumericBuf, na: &Numeric, b: &NumericBuf, nb: &Numeric) -> Vec<u32> {
    let ord = |o: Ordering| code(o == Ordering::Less, o != Ordering::Greater, o == Ordering::Greater,
        o != Ordering::Less, o == Ordering::Equal, o != Ordering::Equal, Some(o));
    vec![
        cmp_form!(NumericBuf, NumericBuf, a, b),
        cmp_form!(Numeric, Numeric, na, nb),
        cmp_form!(NumericBuf, Numeric, a, nb),
        cmp_form!(NumericBuf, &Numeric, a, &nb),
        cmp_form!(Numeric, NumericBuf, na, b),
        cmp_form!(&Numeric, NumericBuf, &na, b),
        cmp_form!(&Numeric, Numeric, &na, nb),
        cmp_form!(Numeric, &Numeric, na, &nb),
        cmp_form!(&NumericBuf, NumericBuf, &a, b),
        cmp_form!(NumericBuf, &NumericBuf, a, &b),
        cmp_form!(&NumericBuf, &NumericBuf, &a, &b),
        cmp_form!(&Numeric, &Numeric, &na, &nb),
        ord(Ord::cmp(a, b)),
        ord(<Numeric as Ord>::cmp(na, nb)),
    ]
}

/// Registers to be read through a borrowed numeric over other memory.
type Old = [Option<Copied>];

fn seen<'a>(r: &'a Regs, old: &'a Old, i: usize) -> &'a Numeric {
    match &old[i] {
        Some(c) => c.get(),
        None => r[i].as_ref().unwrap().as_numeric(),
    }
}

macro_rules! operator {
    ($tr:ident, $f:ident, $as:tt, $r:expr, $old:expr, $d:expr, $a:expr, $b:expr, $form:expr) => {{
        use std::ops::$tr;
        let r: &mut Regs = $r;
        let old: &Old = $old;
        let (a, b) = ($a, $b);
        let v: NumericBuf = match $form {
            0 => $tr::$f(r[a].as_ref().unwrap(), r[b].as_ref().unwrap()),
            1 => { let x = take(r, a); $tr::$f(x, r[b].as_ref().unwrap()) }
            2 => $tr::$f(seen(r, old, a), r[b].as_ref().unwrap()),
            3 => { let x = take(r, a); let y = take(r, b); $tr::$f(x, y) }
            4 => { let y = take(r, b); $tr::$f(r[a].as_ref().unwrap(), y) }
            5 => { let y = take(r, b); $tr::$f(seen(r, old, a), y) }
            6 => $tr::$f(r[a].as_ref().unwrap(), seen(r, old, b)),
            7 => { let x = take(r, a); $tr::$f(x, seen(r, old, b)) }
            8 => $tr::$f(seen(r, old, a), seen(r, old, b)),
            n => {
                // assigning forms: the target is the first operand itself
                if a == b {
                    let y = r[b].as_ref().unwrap().clone();
                    let x = r[a].as_mut().unwrap();
                    match n {
                        9 => *x $as &y,
                        10 => *x $as y,
                        _ => *x $as old[b].as_ref().map_or(y.as_numeric(), |c| c.get()),
                    }
                } else if n == 10 {
                    let y = take(r, b);
                    *r[a].as_mut().unwrap() $as y;
                } else {
                    let y = r[b].take().unwrap();
                    let res = catch_unwind(AssertUnwindSafe(|| {
                        let x = r[a].as_mut().unwrap();
                        if n == 9 { *x $as &y } else { *x $as old[b].as_ref().map_or(y.as_numeric(), |c| c.get()) }
                    }));
                    r[b] = Some(y);
                    if let Err(e) = res {
                        std::panic::resume_unwind(e);
                    }
                }
                return ok();
            }
        };
        set(r, $d, v)
    }};
}

fn call(r: &mut Regs, old: &Old, w: &[&str]) -> Out {
    let i = |n: usize| -> usize { w[n].parse().unwrap() };
    let n32 = |n: usize| -> i32 { w[n].parse().unwrap() };
    macro_rules! buf { ($n:expr) => { r[i($n)].as_ref().unwrap() } }
    macro_rules! num { ($n:expr) => { seen(r, old, i($n)) } }
    match w[0] {
        // ----- making values
        "raw" => {
            let c = Copied::new(&unhex(w[2]), i(3));
            let v = c.get().to_owned();
            set(r, i(1), v)
        }
        "parse" => {
            let s = String::from_utf8(unhex(w[2])).unwrap();
            match s.parse::<NumericBuf>() {
                Ok(v) => set(r, i(1), v),
                Err(e) => err(e),
            }
        }
        "zero" => { let v = if w[2] == "buf" { NumericBuf::zero() } else { Numeric::zero().to_owned() }; set(r, i(1), v) }
        "nan" => { let v = if w[2] == "buf" { NumericBuf::nan() } else { Numeric::nan().to_owned() }; set(r, i(1), v) }
        "fromint" => {
            let v = match w[2] {
                "i8" => from_int!(i8, w[3]), "i16" => from_int!(i16, w[3]), "i32" => from_int!(i32, w[3]),
                "i64" => from_int!(i64, w[3]), "i128" => from_int!(i128, w[3]),
                "u8" => from_int!(u8, w[3]), "u16" => from_int!(u16, w[3]), "u32" => from_int!(u32, w[3]),
                "u64" => from_int!(u64, w[3]), "u128" => from_int!(u128, w[3]),
                "isize" => from_int!(isize, w[3]), "usize" => from_int!(usize, w[3]),
                "bool" => NumericBuf::from(w[3] == "1"),
                t => panic!("type {}", t),
            };
            set(r, i(1), v)
        }
        "fromf64" => match NumericBuf::try_from(f64::from_bits(u64::from_str_radix(w[2], 16).unwrap())) {
            Ok(v) => set(r, i(1), v),
            Err(e) => err(e),
        },
        "fromf32" => match NumericBuf::try_from(f32::from_bits(u32::from_str_radix(w[2], 16).unwrap())) {
            Ok(v) => set(r, i(1), v),
            Err(e) => err(e),
        },
        "fact" => { let v = NumericBuf::factorial(w[2].parse().unwrap()); set_opt(r, i(1), v) }
        // ----- exact binary operations
        "add" => { let v = num!(2).checked_add(num!(3)); set_opt(r, i(1), v) }
        "sub" => { let v = num!(2).checked_sub(num!(3)); set_opt(r, i(1), v) }
        "mul" => { let v = num!(2).checked_mul(num!(3)); set_opt(r, i(1), v) }
        "div" => { let v = num!(2).checked_div(num!(3)); set_opt(r, i(1), v) }
        "divt" => { let v = num!(2).checked_div_trunc(num!(3)); set_opt(r, i(1), v) }
        "rem" => { let v = num!(2).checked_rem(num!(3)); set_opt(r, i(1), v) }
        "opadd" => operator!(Add, add, +=, r, old, i(1), i(2), i(3), i(4)),
        "opsub" => operator!(Sub, sub, -=, r, old, i(1), i(2), i(3), i(4)),
        "opmul" => operator!(Mul, mul, *=, r, old, i(1), i(2), i(3), i(4)),
        "opdiv" => operator!(Div, div, /=, r, old, i(1), i(2), i(3), i(4)),
        "oprem" => operator!(Rem, rem, %=, r, old, i(1), i(2), i(3), i(4)),
        "opneg" => {
            let v = match i(4) {
                0 => -buf!(2),
                1 => { let x = take(r, i(2)); -x }
                _ => -num!(2),
            };
            set(r, i(1), v)
        }
        // ----- unary operations
        "neg" => { let v = num!(2).negate(); set(r, i(1), v) }
        "abs" => { let v = num!(2).abs(); set(r, i(1), v) }
        "signum" => { let v = num!(2).signum(); set(r, i(1), v) }
        "inc" => { let v = num!(2).inc(); set(r, i(1), v) }
        "ceil" => { let v = num!(2).ceil(); set(r, i(1), v) }
        "floor" => { let v = num!(2).floor(); set(r, i(1), v) }
        "round" => { let v = num!(2).round(n32(3)); set(r, i(1), v) }
        "trunc" => { let v = num!(2).trunc(n32(3)); set(r, i(1), v) }
        "sqrt" => { let v = num!(2).sqrt(); set(r, i(1), v) }
        "ln" => { let v = num!(2).ln(); set(r, i(1), v) }
        "log2" => { let v = num!(2).log2(); set(r, i(1), v) }
        "log10" => { let v = num!(2).log10(); set(r, i(1), v) }
        "log" => { let v = num!(2).log(num!(3)); set(r, i(1), v) }
        "exp" => { let v = num!(2).exp(); set_opt(r, i(1), v) }
        "pow" => { let v = num!(2).pow(num!(3)); set_opt(r, i(1), v) }
        // ----- in place (the register is both operand and target)
        "mneg" => { r[i(1)].as_mut().unwrap().negate_mut(); ok() }
        "mabs" => { r[i(1)].as_mut().unwrap().abs_mut(); ok() }
        "mround" => { r[i(1)].as_mut().unwrap().round_mut(n32(2)); ok() }
        "mtrunc" => { r[i(1)].as_mut().unwrap().trunc_mut(n32(2)); ok() }
        "typmod" => {
            let t = if w[2] == "-" { Typmod::default() } else { Typmod::new(n32(2), n32(3)).unwrap() };
            let o = r[i(1)].as_mut().unwrap().apply_typmod(t);
            Out { k: "ok", x: format!(",\"v\":[{}]", o as u32), ..Out::default() }
        }
        "tmnew" => {
            let t = match w[2] { "-" => Typmod::with_precision(n32(1)), _ => Typmod::new(n32(1), n32(2)) };
            match t {
                None => Out { k: "none", ..Out::default() },
                Some(t) => {
                    let u = unsafe { Typmod::from_value_unchecked(t.value()) };
                    let (p, s) = t.extract();
                    let (q, z) = u.extract();
                    Out { k: "ok", x: format!(",\"v\":[{},{},{},{},{}]{}", p, s, q, z, t.value(), text("t", &t.to_string())), ..Out::default() }
                }
            }
        }
        // ----- observations
        "cmp" => {
            let v = compare(buf!(1), num!(1), buf!(2), num!(2));
            let mx = std::cmp::max(buf!(1), buf!(2));
            let mn = std::cmp::min(buf!(1), buf!(2));
            let j: Vec<String> = v.iter().map(|c| c.to_string()).collect();
            Out {
                k: "ok",
                x: format!(",\"v\":[{}],\"mx\":{},\"mn\":{}", j.join(","), bytes_json(mx.as_bytes()), bytes_json(mn.as_bytes())),
                ..Out::default()
            }
        }
        "sort" => {
            // registers w[1].. sorted ascending; the order is reported as register numbers
            let mut idx: Vec<usize> = (1..w.len()).map(i).collect();
            idx.sort_by(|x, y| r[*x].as_ref().unwrap().cmp(r[*y].as_ref().unwrap()));
            let mut t: BTreeMap<NumericBuf, usize> = BTreeMap::new();
            for x in (1..w.len()).map(i) {
                t.insert(r[x].as_ref().unwrap().clone(), x);
            }
            let found: Vec<String> = (1..w.len()).map(i).map(|x| {
                (t.get(seen(r, old, x)).is_some() as u32).to_string()
            }).collect();
            let j: Vec<String> = idx.iter().map(|c| c.to_string()).collect();
            Out { k: "ok", x: format!(",\"v\":[{}],\"u\":[{}],\"w\":[{}]", j.join(","), t.len(), found.join(",")), ..Out::default() }
        }
        "hash" => {
            let (h1, h2) = (hash_of(buf!(1)), hash_of(num!(1)));
            let p = |h: u64| format!("{},{},{},{}", h & 0xffff, h >> 16 & 0xffff, h >> 32 & 0xffff, h >> 48);
            Out { k: "ok", x: format!(",\"v\":[{},{}]", p(h1), p(h2)), ..Out::default() }
        }
        "hmap" => {
            let mut m: HashMap<NumericBuf, u32> = HashMap::new();
            m.insert(buf!(1).clone(), 1);
            let a = m.contains_key(num!(2)) as u32;
            let b = m.contains_key(buf!(2)) as u32;
            m.insert(buf!(2).clone(), 2);
            Out { k: "ok", x: format!(",\"v\":[{},{},{}]", a, b, m.len()), ..Out::default() }
        }
        "disp" => Out { k: "ok", x: text("t", &buf!(1).to_string()) + &text("u", &num!(1).to_string()), ..Out::default() },
        "sci" => Out {
            k: "ok",
            x: text("t", &format!("{:e}", buf!(1))) + &text("u", &format!("{:e}", num!(1)))
                + &text("v", &format!("{:E}", buf!(1))) + &text("w", &format!("{:E}", num!(1))),
            ..Out::default()
        },
        "norm" => Out { k: "ok", x: text("t", &num!(1).normalize()) + &text("u", &buf!(1).normalize()), ..Out::default() },
        "info" => {
            let a = num!(1);
            Out { k: "ok", x: format!(",\"v\":[{},{},{},{}]", a.is_nan() as u32, a.is_negative() as u32, a.is_positive() as u32, a.scale().unwrap_or(-1)), ..Out::default() }
        }
        "view" => {
            // the byte form seen through every accessor, and read back at another address
            let b = buf!(1);
            let c = match &old[i(1)] { Some(c) => Copied::new(c.get().as_bytes(), i(2)), None => Copied::new(b.as_bytes(), i(2)) };
            let same = (b.as_numeric().as_bytes() == b.as_bytes()) as u32;
            let back = c.get().to_owned();
            let eq = (back == *b) as u32;
            let cow: std::borrow::Cow<Numeric> = b.into();
            let cow2: std::borrow::Cow<Numeric> = c.get().into();
            let s2 = (cow.as_bytes() == b.as_bytes() && cow2.into_owned().as_bytes() == back.as_bytes()) as u32;
            Out { k: "ok", x: format!(",\"b\":{},\"u\":{},\"v\":[{},{},{}]", bytes_json(b.as_bytes()), bytes_json(back.as_bytes()), same, eq, s2), ..Out::default() }
        }
        "toint" => match w[2] {
            "i8" => to_int!(i8, r, old, i(1), w[3]), "i16" => to_int!(i16, r, old, i(1), w[3]), "i32" => to_int!(i32, r, old, i(1), w[3]),
            "i64" => to_int!(i64, r, old, i(1), w[3]), "i128" => to_int!(i128, r, old, i(1), w[3]),
            "u8" => to_int!(u8, r, old, i(1), w[3]), "u16" => to_int!(u16, r, old, i(1), w[3]), "u32" => to_int!(u32, r, old, i(1), w[3]),
            "u64" => to_int!(u64, r, old, i(1), w[3]), "u128" => to_int!(u128, r, old, i(1), w[3]),
            "isize" => to_int!(isize, r, old, i(1), w[3]), "usize" => to_int!(usize, r, old, i(1), w[3]),
            t => panic!("type {}", t),
        },
        "tof64" => {
            let v = match w[2] { "own" => f64::try_from(take(r, i(1))), "ref" => f64::try_from(buf!(1)), _ => f64::try_from(num!(1)) };
            match v {
                Ok(f) => { let b = f.to_bits(); Out { k: "ok", x: format!(",\"v\":[{},{},{},{}]", b >> 48, b >> 32 & 0xffff, b >> 16 & 0xffff, b & 0xffff), ..Out::default() } }
                Err(e) => err(e),
            }
        }
        "tof32" => {
            let v = match w[2] { "own" => f32::try_from(take(r, i(1))), "ref" => f32::try_from(buf!(1)), _ => f32::try_from(num!(1)) };
            match v {
                Ok(f) => { let b = f.to_bits(); Out { k: "ok", x: format!(",\"v\":[{},{}]", b >> 16, b & 0xffff), ..Out::default() } }
                Err(e) => err(e),
            }
        }
        // ----- serialization: the payload and what comes back
        "serde" => serde_trip(r, old, i(1), i(2), w[3]),
        "dejson" => {
            let text = unhex(w[2]);
            let v = serde_json::from_slice::<NumericBuf>(&text).ok();
            if !same_ways(&v, json_ways(&text)) || serde_json::from_slice::<&Numeric>(&text).is_ok() {
                return Out { k: "differ", ..Out::default() };
            }
            match v {
                Some(v) => set(r, i(1), v),
                None => Out { k: "err", ..Out::default() },
            }
        }
        "debin" => {
            let b = unhex(w[2]);
            let v = bin_ways(&b);
            if v.iter().any(|x| !same_ways(&v[0], vec![x.clone()])) {
                return Out { k: "differ", ..Out::default() };
            }
            match v.into_iter().next().unwrap() {
                Some(v) => set(r, i(1), v),
                None => Out { k: "err", ..Out::default() },
            }
        }
        // ----- register handling
        "clone" => { let v = buf!(2).clone(); set(r, i(1), v) }
        "clonefrom" => {
            let s = r[i(2)].take().unwrap();
            match r[i(1)].as_mut() { Some(t) => t.clone_from(&s), None => r[i(1)] = Some(s.clone()) }
            r[i(2)] = Some(s);
            ok()
        }
        "toowned" => { let v = num!(2).to_owned(); set(r, i(1), v) }
        "cow" => { let c: std::borrow::Cow<Numeric> = buf!(2).into(); let v = c.into_owned(); set(r, i(1), v) }
        "cowown" => { let x = take(r, i(2)); let c: std::borrow::Cow<Numeric> = x.into(); let v = c.into_owned(); set(r, i(1), v) }
        "swap" => { r.swap(i(1), i(2)); ok() }
        "move" => { let v = r[i(2)].take().unwrap(); set(r, i(1), v) }
        "drop" => { r[i(1)] = None; ok() }
        "thread" => {
            // the value travels to another thread and back, and is read there by reference
            let v = take(r, i(2));
            let v = std::thread::spawn(move || { let _ = v.to_string(); v.clone() }).join().unwrap();
            set(r, i(1), v)
        }
        op => panic!("unknown operation {}", op),
    }
}

/// What the other ways of reading the same JSON text give.
fn json_ways(text: &[u8]) -> Vec<Option<NumericBuf>> {
    let mut out = vec![serde_json::from_reader::<_, NumericBuf>(text).ok()];
    if let Ok(s) = std::str::from_utf8(text) {
        out.push(serde_json::from_str::<NumericBuf>(s).ok());
    }
    if let Ok(v) = serde_json::from_slice::<serde_json::Value>(text) {
        out.push(serde_json::from_value::<NumericBuf>(v).ok());
    }
    out
}

/// What the ways of reading the same bytes in binary formats give.
fn bin_ways(b: &[u8]) -> Vec<Option<NumericBuf>> {
    let mut p = (b.len() as u64).to_le_bytes().to_vec();
    p.extend_from_slice(b);
    let mut out = vec![bincode::deserialize::<NumericBuf>(&p).ok(), bincode::deserialize_from::<_, NumericBuf>(&p[..]).ok()];
    let c = Copied::new(&p, b.len());
    out.push(bincode::deserialize::<&Numeric>(c.bytes()).ok().map(|n| n.to_owned()));
    // a byte string with a length of four bytes: the content is at an odd address, then at an even one
    let mut p = vec![0x5a];
    p.extend_from_slice(&(b.len() as u32).to_be_bytes());
    p.extend_from_slice(b);
    let c = Copied::new(&p, b.len());
    out.push(serde_cbor::from_slice::<NumericBuf>(c.bytes()).ok());
    out.push(serde_cbor::from_reader::<NumericBuf, _>(c.bytes()).ok());
    p.insert(0, 0);
    let c = Copied::new(&p, b.len());
    out.push(serde_cbor::from_slice::<&Numeric>(&c.bytes()[1..]).ok().map(|n| n.to_owned()));
    out
}

fn same_ways(v: &Option<NumericBuf>, ways: Vec<Option<NumericBuf>>) -> bool {
    ways.iter().all(|x| x.as_ref().map(|n| n.as_bytes()) == v.as_ref().map(|n| n.as_bytes()))
}

fn serde_trip(r: &mut Regs, old: &Old, d: usize, a: usize, f: &str) -> Out {
    let b = r[a].as_ref().unwrap();
    if let Some(c) = &old[a] {
        // in a binary format the bytes travel as they are, and arrive as the same value
        let n = c.get();
        let same = match f {
            "json" => serde_json::to_vec(n).ok() == serde_json::to_vec(b).ok(),
            "bincode" | "bincoden" => {
                let p = bincode::serialize(n).unwrap_or_default();
                same_ways(&Some(b.clone()), vec![bincode::deserialize::<NumericBuf>(&p).ok()])
            }
            _ => {
                let p = serde_cbor::to_vec(&n).unwrap_or_default();
                same_ways(&Some(b.clone()), vec![serde_cbor::from_slice::<NumericBuf>(&p).ok()])
            }
        };
        if !same {
            return Out { k: "differ", ..Out::default() };
        }
    }
    let (payload, back): (Vec<u8>, Result<NumericBuf, String>) = match f {
        "json" => {
            let p = match serde_json::to_vec(b) { Ok(p) => p, Err(e) => return Out { k: "err", m: e.to_string(), ..Out::default() } };
            let p2 = serde_json::to_vec(b.as_numeric()).unwrap_or_default();
            if p != p2 {
                return Out { k: "err", m: "owned and borrowed differ".into(), ..Out::default() };
            }
            let v = serde_json::from_slice::<NumericBuf>(&p).map_err(|e| e.to_string());
            if !same_ways(&v.clone().ok(), json_ways(&p)) {
                return Out { k: "differ", ..Out::default() };
            }
            (p, v)
        }
        "bincode" | "bincoden" => {
            let p = match bincode::serialize(b) { Ok(p) => p, Err(e) => return Out { k: "err", m: e.to_string(), ..Out::default() } };
            let p2 = bincode::serialize(b.as_numeric()).unwrap_or_default();
            if p != p2 {
                return Out { k: "err", m: "owned and borrowed differ".into(), ..Out::default() };
            }
            let v = if f == "bincode" {
                let v = bincode::deserialize::<NumericBuf>(&p).map_err(|e| e.to_string());
                if !same_ways(&v.clone().ok(), vec![bincode::deserialize_from::<_, NumericBuf>(&p[..]).ok()]) {
                    return Out { k: "differ", ..Out::default() };
                }
                v
            } else {
                // the borrowed form points into the payload: place it at an even address
                let c = Copied::new(&p, 0);
                let s = unsafe { std::slice::from_raw_parts((c.mem.as_ptr() as *const u8).add(c.at), c.len) };
                bincode::deserialize::<&Numeric>(s).map(|n| n.to_owned()).map_err(|e| e.to_string())
            };
            (p, v)
        }
        "cbor" | "cborn" => {
            let p = match serde_cbor::to_vec(b) { Ok(p) => p, Err(e) => return Out { k: "err", m: e.to_string(), ..Out::default() } };
            let p2 = serde_cbor::to_vec(&b.as_numeric()).unwrap_or_default();
            if p != p2 {
                return Out { k: "err", m: "owned and borrowed differ".into(), ..Out::default() };
            }
            let v = if f == "cbor" {
                let v = serde_cbor::from_slice::<NumericBuf>(&p).map_err(|e| e.to_string());
                if !same_ways(&v.clone().ok(), vec![serde_cbor::from_reader::<NumericBuf, _>(&p[..]).ok()]) {
                    return Out { k: "differ", ..Out::default() };
                }
                v
            } else {
                // header of a byte string: 1, 2 or 3 bytes; place the content at an even address
                let h = match p[0] & 31 { 24 => 2, 25 => 3, 26 => 5, _ => 1 };
                let mut mem = vec![0u64; p.len() / 8 + 2];
                let at = h % 2;
                unsafe {
                    std::ptr::copy_nonoverlapping(p.as_ptr(), (mem.as_mut_ptr() as *mut u8).add(at), p.len());
                    let s = std::slice::from_raw_parts((mem.as_ptr() as *const u8).add(at), p.len());
                    serde_cbor::from_slice::<&Numeric>(s).map(|n| n.to_owned()).map_err(|e| e.to_string())
                }
            };
            (p, v)
        }
        _ => panic!("format {}", f),
    };
    match back {
        Ok(v) => {
            r[d] = Some(v);
            Out { k: "ok", x: format!(",\"p\":{}", bytes_json(&payload)), ..Out::default() }
        }
        Err(e) => Out { k: "err", m: e, ..Out::default() },
    }
}

fn guarded(r: &mut Regs, w: &[&str]) -> Out {
    const NONE: Option<Copied> = None;
    guarded_on(r, &[NONE; NREG], w)
}

fn guarded_on(r: &mut Regs, old: &Old, w: &[&str]) -> Out {
    match catch_unwind(AssertUnwindSafe(|| call(r, old, w))) {
        Ok(o) => o,
        Err(e) => {
            let m = if let Some(s) = e.downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = e.downcast_ref::<String>() {
                s.clone()
            } else {
                "?".to_string()
            };
            // the message given to an assertion, without what was compared
            let m = if m.starts_with("assertion failed: `(left") {
                m.rsplit("`: ").next().unwrap().to_string()
            } else if m.starts_with("assertion `left") {
                m.lines().next().unwrap().splitn(2, "failed: ").nth(1).unwrap_or("").to_string()
            } else {
                m
            };
            Out { k: "panic", m, x: String::new() }
        }
    }
}

fn snapshot(r: &Regs) -> Vec<Option<Vec<u8>>> {
    r.iter().map(|x| x.as_ref().map(|b| b.as_bytes().to_vec())).collect()
}

fn changes(before: &[Option<Vec<u8>>], after: &[Option<Vec<u8>>]) -> String {
    let mut s = String::from("[");
    for (i, (x, y)) in before.iter().zip(after.iter()).enumerate() {
        if x != y {
            if s.len() > 1 {
                s.push(',');
            }
            let _ = write!(s, "{{\"r\":{},\"b\":{}}}", i, bytes_json(y.as_ref().map(|v| &v[..]).unwrap_or(&[])));
        }
    }
    s.push(']');
    s
}

/// Arguments as JSON: integers as they are, anything else by kind.
fn args_json(w: &[&str]) -> String {
    let r = |s: &str| s.to_string();
    match w[0] {
        "raw" => format!(",\"d\":{},\"s\":{}", w[1], bytes_json(&unhex(w[2]))),
        "parse" | "dejson" | "debin" => format!(",\"d\":{},\"s\":{}", w[1], bytes_json(&unhex(w[2]))),
        "zero" | "nan" => format!(",\"d\":{}", w[1]),
        "fromint" => format!(",\"d\":{},\"ty\":\"{}\",\"s\":{}", w[1], w[2], bytes_json(w[3].as_bytes())),
        "fromf64" => {
            let b = u64::from_str_radix(w[2], 16).unwrap();
            format!(",\"d\":{},\"f\":[{},{},{},{}]", w[1], b >> 48, b >> 32 & 0xffff, b >> 16 & 0xffff, b & 0xffff)
        }
        "fromf32" => {
            let b = u32::from_str_radix(w[2], 16).unwrap();
            format!(",\"d\":{},\"f\":[{},{}]", w[1], b >> 16, b & 0xffff)
        }
        "fact" => format!(",\"d\":{},\"s\":{}", w[1], bytes_json(w[2].as_bytes())),
        "opadd" | "opsub" | "opmul" | "opdiv" | "oprem" | "opneg" => format!(
            ",\"d\":{},\"a\":{},\"b\":{},\"fm\":{}",
            if w[4].parse::<u32>().unwrap() >= 9 { w[2] } else { w[1] }, w[2], w[3], w[4]),
        "add" | "sub" | "mul" | "div" | "divt" | "rem" | "log" | "pow" => format!(",\"d\":{},\"a\":{},\"b\":{}", w[1], w[2], w[3]),
        "round" | "trunc" => format!(",\"d\":{},\"a\":{},\"n\":{}", w[1], w[2], w[3]),
        "mround" | "mtrunc" => format!(",\"d\":{},\"a\":{},\"n\":{}", w[1], w[1], w[2]),
        "mneg" | "mabs" => format!(",\"d\":{},\"a\":{}", w[1], w[1]),
        "typmod" => {
            if w[2] == "-" { format!(",\"d\":{},\"a\":{},\"pr\":-1,\"sc\":-1", w[1], w[1]) }
            else { format!(",\"d\":{},\"a\":{},\"pr\":{},\"sc\":{}", w[1], w[1], w[2], w[3]) }
        }
        "tmnew" => format!(",\"pr\":{},\"sc\":{}", w[1], if w[2] == "-" { "0" } else { w[2] }),
        "cmp" | "hmap" => format!(",\"a\":{},\"b\":{}", w[1], w[2]),
        "sort" => format!(",\"rs\":[{}]", w[1..].join(",")),
        "hash" | "disp" | "sci" | "norm" | "info" | "view" => format!(",\"a\":{}", w[1]),
        "toint" => format!(",\"a\":{},\"ty\":\"{}\",\"fo\":\"{}\"", w[1], w[2], w[3]),
        "tof64" | "tof32" => format!(",\"a\":{},\"fo\":\"{}\"", w[1], w[2]),
        "serde" => format!(",\"d\":{},\"a\":{},\"fo\":\"{}\"", w[1], w[2], w[3]),
        "clone" | "clonefrom" | "toowned" | "cow" | "cowown" | "move" | "thread" => format!(",\"d\":{},\"a\":{}", w[1], w[2]),
        "swap" => format!(",\"d\":{},\"a\":{}", w[1], w[2]),
        "drop" => format!(",\"d\":{}", w[1]),
        _ if w.len() > 2 => format!(",\"d\":{},\"a\":{}", r(w[1]), r(w[2])),
        _ => String::new(),
    }
}

/// Registers a call reads.
fn operands(w: &[&str]) -> Vec<usize> {
    let at: Vec<usize> = match w[0] {
        "opneg" => vec![2],
        "add" | "sub" | "mul" | "div" | "divt" | "rem" | "log" | "pow" | "opadd" | "opsub" | "opmul" | "opdiv" | "oprem" => vec![2, 3],
        "neg" | "abs" | "signum" | "inc" | "ceil" | "floor" | "round" | "trunc" | "sqrt" | "ln" | "log2" | "log10" | "exp" => vec![2],
        "mneg" | "mabs" | "mround" | "mtrunc" | "typmod" => vec![1],
        "cmp" | "hmap" => vec![1, 2],
        "sort" => (1..w.len()).collect(),
        "hash" | "disp" | "sci" | "norm" | "info" | "view" | "toint" | "tof64" | "tof32" => vec![1],
        "serde" | "clone" | "clonefrom" | "toowned" | "cow" | "cowown" | "move" | "thread" | "swap" => vec![2],
        _ => vec![],
    };
    at.iter().map(|&i| w[i].parse().unwrap()).collect()
}

impl Machine {
    pub fn new() -> Self {
        Machine { regs: (0..NREG).map(|_| None).collect(), mark: (0, 0), history: 0 }
    }

    pub fn step(&mut self, n: usize, line: &str) -> String {
        let w: Vec<&str> = line.split(' ').collect();
        match w[0] {
            "history" => {
                // from here on every call is repeated on freshly made operands
                // (1: as they are, 2: borrowed ones stored with the long header)
                self.history = w[1].parse().unwrap();
                return format!("{{\"i\":{},\"op\":\"history\",\"k\":\"ok\",\"ch\":[]}}\n", n);
            }
            "mark" | "quiet" => {
                let before = snapshot(&self.regs);
                for x in self.regs.iter_mut() {
                    *x = None;
                }
                let after = snapshot(&self.regs);
                let ch = changes(&before, &after);
                drop(before);
                drop(after);
                let ev = format!("{{\"i\":{},\"op\":\"{}\",\"k\":\"ok\",\"ch\":{}", n, w[0], ch);
                drop(ch);
                drop(w);
                let size = ev.capacity() as i64;
                let (live, blocks) = (alloc::LIVE.load(Relaxed) - size, alloc::BLOCKS.load(Relaxed));
                let (dl, db) = (live - self.mark.0, blocks - self.mark.1);
                let bad = [alloc::BAD_SIZE.swap(0, Relaxed), alloc::BAD_FREE.swap(0, Relaxed), alloc::BAD_ZONE.swap(0, Relaxed)];
                if line == "mark" {
                    self.mark = (live, blocks);
                    return ev + "}\n";
                }
                return ev + &format!(",\"v\":[{},{},{},{},{}]}}\n", dl, db, bad[0], bad[1], bad[2]);
            }
            _ => (),
        }
        if operands(&w).iter().any(|&a| self.regs[a].is_none()) {
            // an earlier call gave no value: nothing to call on
            return format!("{{\"i\":{},\"op\":\"skip\",\"k\":\"ok\",\"ch\":[]}}\n", n);
        }
        let before = snapshot(&self.regs);
        let o = guarded(&mut self.regs, &w);
        let after = snapshot(&self.regs);
        let mut ev = format!("{{\"i\":{},\"op\":\"{}\"{},\"k\":\"{}\"", n, w[0], args_json(&w), o.k);
        if !o.m.is_empty() {
            let _ = write!(ev, ",\"m\":{}", json_str(&o.m));
        }
        ev.push_str(&o.x);
        let ch = changes(&before, &after);
        let _ = write!(ev, ",\"ch\":{}", ch);
        if w[0].len() == 5 && w[0].starts_with("op") && w[0] != "opneg" {
            // the checked operation on the same operands, for comparison
            let mut fresh = remake(&before);
            let w2 = [&w[0][2..], "15", w[2], w[3]];
            let o2 = guarded(&mut fresh, &w2);
            let b = if o2.k == "ok" { bytes_json(fresh[15].as_ref().unwrap().as_bytes()) } else { "[]".into() };
            let _ = write!(ev, ",\"ck\":\"{}\",\"cb\":{}", o2.k, b);
        }
        if w[0] == "opneg" {
            let mut fresh = remake(&before);
            let o2 = guarded(&mut fresh, &["neg", "15", w[2]]);
            let b = if o2.k == "ok" { bytes_json(fresh[15].as_ref().unwrap().as_bytes()) } else { "[]".into() };
            let _ = write!(ev, ",\"ck\":\"{}\",\"cb\":{}", o2.k, b);
        }
        if self.history == 2 && w[0] != "raw" {
            // the same call reading its borrowed operands from memory with the long header
            let old: Vec<Option<Copied>> = before.iter()
                .map(|x| x.as_ref().map(|b| Copied::new(&lengthen(b), n)))
                .collect();
            let mut fresh = remake(&before);
            let o2 = guarded_on(&mut fresh, &old, &w);
            let same = o2.k == o.k && o2.m == o.m && o2.x == o.x && snapshot(&fresh) == after;
            let _ = write!(ev, ",\"g\":{}", if same { 1 } else { 0 });
        }
        if self.history == 1 && w[0] != "raw" {
            // the same call on operands made afresh from their bytes
            let mut fresh = remake(&before);
            let o2 = guarded(&mut fresh, &w);
            let after2 = snapshot(&fresh);
            let same = o2.k == o.k && o2.m == o.m && o2.x == o.x && after2 == after;
            let _ = write!(ev, ",\"h\":{}", if same { 1 } else { 0 });
        }
        ev.push_str("}\n");
        ev
    }
}

/// With the long header, which PostgreSQL wrote for every numeric, NaN too, before 9.1 (the length
/// word is little-endian here).
fn lengthen(b: &[u8]) -> Vec<u8> {
    let h = u16::from_le_bytes([b[4], b[5]]);
    if h >= 0xc000 {
        return vec![32, 0, 0, 0, 0, 0xc0, 0, 0];
    }
    if h < 0x8000 {
        return b.to_vec();
    }
    let w = ((h & 0x7f) as i16) << 9 >> 9;
    let mut v = (((b.len() + 2) as u32) << 2).to_le_bytes().to_vec();
    v.extend_from_slice(&((h & 0x2000) << 1 | (h >> 7 & 63)).to_le_bytes());
    v.extend_from_slice(&w.to_le_bytes());
    v.extend_from_slice(&b[6..]);
    v
}

fn remake(s: &[Option<Vec<u8>>]) -> Regs {
    s.iter()
        .map(|x| x.as_ref().map(|b| Copied::new(b, 0).get().to_owned()))
        .collect()
}
