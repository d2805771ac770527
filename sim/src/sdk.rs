//! The model of the contract in /verif/vault, which is written with the SDK, and of the SDK's ABI.
//! Nothing here comes from the repository's own encoder, decoder or macros.

use serde::{Deserialize, Serialize};

pub static WASM: &[u8] = include_bytes!(env!("VAULT_WASM"));
pub static META: &str = include_str!(env!("VAULT_META"));

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Ty {
    Bool,
    Addr,
    Amt,
    I8,
    U8,
    I16,
    U16,
    I32,
    U32,
    I64,
    U64,
}
use Ty::*;

impl Ty {
    pub fn size(self) -> u32 {
        match self {
            Bool | I8 | U8 => 1,
            I16 | U16 => 2,
            I32 | U32 => 4,
            I64 | U64 | Amt => 8,
            Addr => 20,
        }
    }
    /// Marker of the shortest form.
    fn marker(self) -> u8 {
        match self {
            Bool => 0,
            Addr => 0x40,
            Amt => 0x01,
            I8 => 0x02,
            U8 => 0x12,
            I16 => 0x22,
            U16 => 0x42,
            I32 => 0x03,
            U32 => 0x43,
            I64 => 0x04,
            U64 => 0x05,
        }
    }
}

/// The little-endian bytes of a value: what its variable holds.
pub type Raw = Vec<u8>;

/// (type, length of the array or 0)
pub type Param = (Ty, usize);

pub struct Field {
    pub name: &'static str,
    pub ty: Ty,
    pub n: usize,
}
const fn fld(name: &'static str, ty: Ty, n: usize) -> Field {
    Field { name, ty, n }
}

pub static FIELDS: &[Field] = &[
    fld("a8", U8, 0),
    fld("flag", Bool, 0),
    fld("s16", I16, 0),
    fld("owner", Addr, 0),
    fld("u", U32, 0),
    fld("row", U16, 5),
    fld("big", I64, 0),
    fld("amt", Amt, 0),
    fld("flags", Bool, 3),
    fld("addrs", Addr, 3),
    fld("wide", U64, 2),
    fld("s8", I8, 0),
    fld("amts", Amt, 2),
    fld("last", U64, 0),
    fld("sgn", I32, 2),
    fld("u16v", U16, 0),
    fld("i32v", I32, 0),
    fld("b8", U8, 4),
    fld("i8s", I8, 2),
    fld("i16s", I16, 3),
    fld("i64s", I64, 2),
    fld("u32s", U32, 3),
];

pub fn sizes() -> Vec<u32> {
    FIELDS.iter().flat_map(|f| vec![f.ty.size(); f.n.max(1)]).collect()
}

/// The layout that the SDK describes in the metadata of the contract.
pub fn meta_sizes() -> Option<Vec<u32>> {
    let m: serde_json::Value = serde_json::from_str(META).ok()?;
    let mut v = vec![];
    for x in m["schema"].as_array()? {
        if x["id"].as_u64()? != v.len() as u64 {
            return None;
        }
        for _ in 0..x["length"].as_u64().unwrap_or(1) {
            v.push(x["byte_count"].as_u64()? as u32);
        }
    }
    Some(v)
}

pub fn params(f: &str) -> Vec<Param> {
    match f {
        "c0" => vec![(Addr, 0), (U32, 0), (I64, 0)],
        "f0" => vec![(U8, 0), (Bool, 0), (I16, 0), (I8, 0)],
        "f2" => vec![(U32, 0), (U16, 0)],
        "f3" => vec![(U32, 0), (Addr, 0)],
        "f4" => vec![(Bool, 0), (Addr, 0)],
        "f5" => vec![(I64, 0), (U64, 0), (Amt, 0), (U32, 0)],
        "f6" => vec![(U32, 0), (U64, 0), (Amt, 0), (Bool, 0)],
        "f7" => vec![(I32, 0), (I32, 0), (U8, 0), (U8, 0)],
        "f8" => vec![(Addr, 0), (Addr, 0), (U16, 0)],
        "f9" => vec![(Amt, 0), (Amt, 0), (Bool, 0), (U64, 0)],
        "f10" => vec![(U32, 0), (I8, 0), (I16, 0), (I64, 0), (U32, 0)],
        "f11" => vec![(U16, 0), (I32, 0)],
        _ => vec![],
    }
}
pub const CTORS: usize = 2;
pub const FUNCS: usize = 12;

fn enc1(out: &mut Vec<u8>, ty: Ty, raw: &[u8]) {
    match ty {
        Bool => out.push(raw[0] * 0x10),
        Addr => {
            out.push(0x40);
            out.extend(raw);
        }
        _ => {
            let mut n = raw.len();
            while n > 1 && raw[n - 1] == 0 {
                n -= 1;
            }
            out.push(ty.marker() + 0x10 * (n as u8 - 1));
            out.extend(raw[..n].iter().rev());
        }
    }
}

pub fn encode(out: &mut Vec<u8>, p: Param, v: &[Raw]) {
    let (ty, n) = p;
    if n > 0 {
        out.push(if n < 8 { 0x06 + 0x10 * n as u8 } else { 0x07 + 0x10 * (n as u8 - 8) });
    }
    for x in v {
        enc1(out, ty, x);
    }
}

fn dec1(b: &mut &[u8], ty: Ty) -> Option<Raw> {
    let m = *b.first()?;
    *b = &b[1..];
    let (n, le) = match ty {
        Bool => return if m == 0 || m == 0x10 { Some(vec![m / 0x10]) } else { None },
        Addr => (if m == 0x40 { 20 } else { return None }, false),
        _ => {
            let k = m.checked_sub(ty.marker())?;
            if k % 0x10 != 0 || (k / 0x10) as u32 >= ty.size() {
                return None;
            }
            (k as usize / 0x10 + 1, true)
        }
    };
    if b.len() < n {
        return None;
    }
    let mut r = b[..n].to_vec();
    *b = &b[n..];
    if le {
        r.reverse();
        r.resize(ty.size() as usize, 0);
    }
    Some(r)
}

/// None: the contract must refuse this calldata.
pub fn decode(mut b: &[u8], p: &[Param]) -> Option<Vec<Vec<Raw>>> {
    let mut out = vec![];
    for (ty, n) in p {
        if *n > 0 {
            let mut m = vec![];
            encode(&mut m, (*ty, *n), &[]);
            if b.first()? != &m[0] {
                return None;
            }
            b = &b[1..];
        }
        let mut v = vec![];
        for _ in 0..(*n).max(1) {
            v.push(dec1(&mut b, *ty)?);
        }
        out.push(v);
    }
    Some(out)
}

/// The contract's storage as the model sees it.
pub trait Store {
    fn get(&self, var: usize) -> Raw;
    fn set(&mut self, var: usize, raw: &[u8]);
}

struct S<'a>(&'a mut dyn Store);

impl<'a> S<'a> {
    fn var(&self, name: &str, i: usize) -> Option<usize> {
        let mut v = 0;
        for f in FIELDS {
            if f.name == name {
                return if i < f.n.max(1) { Some(v + i) } else { None };
            }
            v += f.n.max(1);
        }
        unreachable!()
    }
    fn get(&self, name: &str, i: usize) -> Option<Raw> {
        Some(self.0.get(self.var(name, i)?))
    }
    fn set(&mut self, name: &str, i: usize, v: &Raw) -> Option<()> {
        let k = self.var(name, i)?;
        self.0.set(k, v);
        Some(())
    }
    fn swap(&mut self, name: &str, i: usize, v: &Raw) -> Option<Raw> {
        let old = self.get(name, i)?;
        self.set(name, i, v)?;
        Some(old)
    }
}

fn idx(r: &Raw) -> usize {
    u32::from_le_bytes(r[..].try_into().unwrap()) as usize
}
fn u64_of(r: &Raw) -> u64 {
    u64::from_le_bytes(r[..].try_into().unwrap())
}

/// Runs one function. None: it panics. Some(bytes): what it returns.
pub fn run(f: &str, data: &[u8], st: &mut dyn Store) -> Option<Vec<u8>> {
    let a = decode(data, &params(f))?;
    let mut s = S(st);
    let x = |i: usize| a[i][0].clone();
    let mut out = vec![];
    let one = |out: &mut Vec<u8>, t: Ty, v: Raw| encode(out, (t, 0), &[v]);
    match f {
        "c0" => {
            s.set("owner", 0, &x(0))?;
            s.set("u", 0, &x(1))?;
            s.set("big", 0, &x(2))?;
        }
        "c1" => {
            let n = u64_of(&s.get("last", 0)?).wrapping_add(1);
            s.set("last", 0, &n.to_le_bytes().to_vec())?;
        }
        "f0" => {
            s.set("a8", 0, &x(0))?;
            s.set("flag", 0, &x(1))?;
            s.set("s16", 0, &x(2))?;
            s.set("s8", 0, &x(3))?;
        }
        "f1" => {
            one(&mut out, U8, s.get("a8", 0)?);
            one(&mut out, Bool, s.get("flag", 0)?);
            one(&mut out, I16, s.get("s16", 0)?);
            one(&mut out, I8, s.get("s8", 0)?);
        }
        "f2" => {
            let old = s.swap("row", idx(&x(0)), &x(1))?;
            encode(&mut out, (U16, 2), &[old, x(1)]);
        }
        "f3" => one(&mut out, Addr, s.swap("addrs", idx(&x(0)), &x(1))?),
        "f4" => {
            one(&mut out, Addr, s.get("owner", 0)?);
            if x(0)[0] == 1 {
                s.set("owner", 0, &x(1))?;
            }
        }
        "f5" => {
            one(&mut out, I64, s.swap("big", 0, &x(0))?);
            one(&mut out, U64, s.swap("last", 0, &x(1))?);
            one(&mut out, Amt, s.swap("amt", 0, &x(2))?);
            one(&mut out, U32, s.swap("u", 0, &x(3))?);
        }
        "f6" => {
            let i = idx(&x(0));
            one(&mut out, U64, s.swap("wide", i, &x(1))?);
            one(&mut out, Amt, s.swap("amts", i, &x(2))?);
            one(&mut out, Bool, s.swap("flags", i + 1, &x(3))?);
        }
        "f7" => {
            let old = [s.swap("sgn", 0, &x(0))?, s.swap("sgn", 1, &x(1))?];
            for i in 0..4 {
                s.set("b8", i, &x(2 + i % 2))?;
            }
            encode(&mut out, (I32, 2), &old);
        }
        "f8" => {
            let old = [s.swap("addrs", 1, &x(0))?, s.swap("addrs", 2, &x(1))?];
            s.set("row", 0, &x(2))?;
            s.set("row", 4, &x(2))?;
            encode(&mut out, (Addr, 2), &old);
        }
        "f9" => {
            let old = [s.swap("amts", 0, &x(0))?, s.swap("amts", 1, &x(1))?];
            s.set("flags", 0, &x(2))?;
            s.set("flags", 2, &vec![1 - x(2)[0]])?;
            let n = u64_of(&x(3)).wrapping_add(u64_of(&s.get("wide", 0)?));
            s.set("wide", 1, &n.to_le_bytes().to_vec())?;
            encode(&mut out, (Amt, 2), &old);
        }
        "f10" => {
            let i = idx(&x(0));
            let d = s.swap("u32s", 0, &x(4))?;
            let b = s.swap("i16s", i, &x(2))?;
            let e = s.swap("i8s", i, &x(1))?;
            let c = s.swap("i64s", i, &x(3))?;
            one(&mut out, I8, e);
            one(&mut out, I16, b);
            one(&mut out, I64, c);
            one(&mut out, U32, d);
        }
        "f11" => {
            one(&mut out, U16, s.swap("u16v", 0, &x(0))?);
            one(&mut out, I32, s.swap("i32v", 0, &x(1))?);
            let b: Option<Vec<Raw>> = (0..4).map(|i| s.get("b8", i)).collect();
            encode(&mut out, (U8, 4), &b?);
            let b: Option<Vec<Raw>> = (0..3).map(|i| s.get("flags", i)).collect();
            encode(&mut out, (Bool, 3), &b?);
        }
        _ => return None,
    }
    Some(out)
}

fn mix(mut x: u64) -> u64 {
    x = x.wrapping_add(0x9e3779b97f4a7c15);
    x = (x ^ (x >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    x = (x ^ (x >> 27)).wrapping_mul(0x94d049bb133111eb);
    x ^ (x >> 31)
}

/// Calldata for `f`: values near the limits of their types, small indexes, sometimes damaged.
pub fn calldata(f: &str, p: &[u64], addrs: &[Vec<u8>]) -> Vec<u8> {
    let mut h = p.iter().fold(f.len() as u64, |a, x| mix(a ^ *x));
    let mut next = || {
        h = mix(h);
        h
    };
    let mut out = vec![];
    let mut starts = vec![];
    for (k, (ty, n)) in params(f).into_iter().enumerate() {
        starts.push(out.len());
        let v: Vec<Raw> = (0..n.max(1))
            .map(|_| {
                let r = next();
                match ty {
                    Bool => vec![(r & 1) as u8],
                    Addr => match r % 4 {
                        0 => (0..20).map(|i| (r >> (i % 8 * 8)) as u8).collect(),
                        1 => vec![if r & 16 == 0 { 0 } else { 255 }; 20],
                        i => addrs[i as usize % addrs.len()].clone(),
                    },
                    _ => {
                        let size = ty.size();
                        let x = if k == 0 && ty == U32 && f != "f11" {
                            // An index.
                            match r % 12 {
                                0 => 5,
                                1 => u32::MAX as u64,
                                i => i % 3,
                            }
                        } else {
                            match r % 8 {
                                0 => 0,
                                1 => u64::MAX,
                                2 => 1 << (8 * size - 1),
                                3 => (1 << (8 * size - 1)) - 1,
                                4 => 1 << (8 * ((r >> 8) % size as u64)),
                                5 => (1 << (8 * ((r >> 8) % size as u64))) - 1,
                                6 => (r >> 8) % 200,
                                _ => r >> ((r >> 3) % 64),
                            }
                        };
                        x.to_le_bytes()[..size as usize].to_vec()
                    }
                }
            })
            .collect();
        encode(&mut out, (ty, n), &v);
    }
    let r = next();
    if !out.is_empty() {
        match r % 16 {
            // Cut short (possibly to nothing at all).
            0 => out.truncate((r >> 8) as usize % out.len()),
            // Another marker.
            1 => {
                let s = starts[(r >> 8) as usize % starts.len()];
                out[s] = *[0x20u8, 0x30, 0x40, 0x10, 0x43, 0x45, 0x12, 0x26, 0x66, 0x7f, 0x80, 0xff, 0x71].get((r >> 16) as usize % 13).unwrap();
            }
            // More than is needed.
            2 => out.extend([0x12, 7]),
            _ => (),
        }
    }
    out
}
