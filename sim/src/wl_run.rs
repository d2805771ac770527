//! Workload R: transactions. Runtimes (through the Rust API or the C API) execute generated programs
//! over generated histories and are compared, operation by operation, with an interpreter of the same
//! programs over the reference model.

use crate::core::*;
use crate::disk;
use crate::model::*;
use crate::rng::{mix, Rng};
use crate::sched;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::{BTreeMap, BTreeSet};
use std::ffi::c_void;
use std::sync::Arc;
use svm_codec::Codec;
use svm_genesis_config::GenesisConfig;
use svm_layout::{FixedLayout, Layout};
use svm_runtime::{PriceResolverRegistry, Runtime, TemplatePriceCache};
use svm_runtime_ffi as ffi;
use svm_runtime_ffi::svm_result_t;
use svm_state::{AccountStorage, GlobalState, StorageError};
use svm_types::{
    Address, BytesPrimitive, CallReceipt, CodeSection, Context, CtorsSection, DataSection,
    DeployReceipt, Envelope, Gas, HeaderSection, Layer as L, RuntimeError, SpawnAccount, SpawnReceipt,
    State, Template, TemplateAddr, Transaction, TransactionId,
};
use tokio::runtime::Runtime as Tokio;

// --- programs --------------------------------------------------------------------------------------

/// One step of a generated program. Offsets (`o`, `s`, `d`, `a`, `b`) are memory offsets.
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Act {
    Put { o: u32, x: u64 },
    /// Copies 8 bytes from the calldata.
    Cd { o: u32, k: u32 },
    /// Copies an address (20 bytes) from the calldata.
    CdAddr { o: u32, k: u32 },
    CdLen { o: u32 },
    Set32 { v: u32, o: u32 },
    Get32 { v: u32, o: u32 },
    Set64 { v: u32, o: u32 },
    Get64 { v: u32, o: u32 },
    Store { v: u32, o: u32 },
    Load { v: u32, o: u32 },
    Log { o: u32, n: u32 },
    Ret { o: u32, n: u32 },
    Xfer { s: u32, d: u32, o: u32 },
    Add { a: u32, b: u32, o: u32 },
    IfEq { o: u32, x: u64, t: Vec<Act> },
    /// 0 unreachable, 1 division by zero, 2 load out of bounds
    Trap { k: u32 },
    /// Allocates `n` bytes; the offset is stored at `o`.
    Alloc { n: u32, o: u32 },
    /// Stores `x` at `k` bytes past the offset that is stored at `o`.
    PutAt { o: u32, k: u32, x: u64 },
    /// Loads from `k` bytes past the offset that is stored at `p`.
    GetAt { p: u32, k: u32, o: u32 },
    /// A function of the contract that is written with the SDK.
    Sdk { f: String },
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct RTpl {
    pub first: u32,
    pub sizes: Vec<u32>,
    pub ctors: Vec<Vec<Act>>,
    pub funcs: Vec<Vec<Act>>,
    pub verify: Vec<Act>,
    /// svm_alloc: 0 constant, 1 svm_static_alloc, 2 returns an unusable offset, 3 traps,
    /// 4 accesses the storage, 5 sets the returndata, 6 constant, at the end of the memory
    pub alloc: u32,
    /// `svm_verify` has the signature that validation demands (and that execution refuses).
    #[serde(default)]
    pub ri: bool,
    /// Makes the code unique.
    pub salt: u64,
    /// The contract that is written with the SDK (/verif/vault).
    #[serde(default)]
    pub sdk: bool,
    /// What keeps the gas from being known in advance: 0 nothing, 1 a loop, 2 recursion,
    /// 3 mutual recursion, 4 a loop in a function that nothing calls.
    #[serde(default)]
    pub cyc: u32,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct NodeCfg {
    pub ffi: bool,
    pub mem: bool,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct RCfg {
    pub nodes: Vec<NodeCfg>,
    /// Every operation is executed by every node, and the results must be the same.
    pub mirror: bool,
    pub plain: u64,
    pub tpl: Vec<RTpl>,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Args {
    pub p: Vec<u64>,
    /// Accounts whose addresses are passed.
    pub d: Vec<u64>,
    /// No calldata at all.
    pub none: bool,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Op {
    Open { n: u64 },
    /// Closes and opens a node within the process.
    Reopen { n: u64 },
    Deploy { n: u64, t: u64, gas: u64 },
    Spawn { n: u64, t: u64, f: String, name: String, args: Args, gas: u64, pr: u64 },
    Call { n: u64, a: u64, f: String, args: Args, gas: u64, pr: u64 },
    Verify { n: u64, a: u64, args: Args },
    Create { n: u64, a: u64, bal: u64, ctr: String, name: String },
    Inc { n: u64, a: u64, x: u64 },
    Xfer { n: u64, s: u64, d: u64, x: u64 },
    Commit { n: u64 },
    Rewind { n: u64, back: u64 },
    BadRewind { n: u64, ahead: u64 },
    Info { n: u64 },
    Dirty { n: u64 },
    Audit { n: u64 },
    Hist { n: u64, back: u64 },
    /// Messages that do not decode. `k`: entry point, `cut`: how the message is damaged.
    Garbage { n: u64, k: u64, cut: u64, s: u64 },
    /// Validation of well-formed messages.
    Validate { n: u64, k: u64, t: u64 },
    /// Use of handles that are not valid. `k`: entry point.
    BadHandle { k: u64, n: u64 },
    /// Opening a database that cannot be opened.
    BadOpen { k: u64 },
    Count,
    /// `race`: so many threads try to destroy it at once.
    Destroy {
        n: u64,
        #[serde(default)]
        race: u64,
    },
    Idle { ms: u64 },
    Fault { k: u64, skip: u64, count: u64, ms: u64 },
    /// The next operation's `skip`-th thread creation fails.
    NoThread { skip: u64 },
    /// One thread per node (C API only).
    Par { th: Vec<(u64, Vec<Op>)> },
}

impl Op {
    fn node(&self) -> Option<u64> {
        Some(match self {
            Op::Open { n } | Op::Reopen { n } | Op::Deploy { n, .. } | Op::Spawn { n, .. } | Op::Call { n, .. }
            | Op::Verify { n, .. } | Op::Create { n, .. } | Op::Inc { n, .. } | Op::Xfer { n, .. } | Op::Commit { n }
            | Op::Rewind { n, .. } | Op::BadRewind { n, .. } | Op::Info { n } | Op::Dirty { n } | Op::Audit { n }
            | Op::Hist { n, .. } | Op::Garbage { n, .. } | Op::Validate { n, .. } | Op::Destroy { n, .. } => *n,
            _ => return None,
        })
    }
    /// Operations whose result is compared between mirrored nodes.
    fn mirrored(&self) -> bool {
        matches!(
            self,
            Op::Deploy { .. } | Op::Spawn { .. } | Op::Call { .. } | Op::Verify { .. } | Op::Create { .. }
                | Op::Inc { .. } | Op::Xfer { .. } | Op::Commit { .. } | Op::Rewind { .. } | Op::Info { .. }
        )
    }
}

const MEM: usize = 65536;
const CONST_CD: u32 = 4096;
/// Where `svm_static_alloc` starts.
const HEAP: u32 = 8;

fn wat_acts(out: &mut String, acts: &[Act]) {
    for a in acts {
        let s = match a {
            Act::Put { o, x } => format!("(i64.store (i32.const {}) (i64.const {}))", o, *x as i64),
            Act::Cd { o, k } => format!("(i64.store (i32.const {}) (i64.load offset={} (call $cdo)))", o, k),
            Act::CdAddr { o, k } => format!(
                "(i64.store (i32.const {o}) (i64.load offset={k} (call $cdo)))\n(i64.store offset=8 (i32.const {o}) (i64.load offset={k8} (call $cdo)))\n(i32.store offset=16 (i32.const {o}) (i32.load offset={k16} (call $cdo)))",
                o = o, k = k, k8 = k + 8, k16 = k + 16
            ),
            Act::CdLen { o } => format!("(i64.store (i32.const {}) (i64.extend_i32_u (call $cdl)))", o),
            Act::Set32 { v, o } => format!("(call $set32 (i32.const {}) (i32.load (i32.const {})))", v, o),
            Act::Get32 { v, o } => format!("(i64.store (i32.const {}) (i64.extend_i32_u (call $get32 (i32.const {}))))", o, v),
            Act::Set64 { v, o } => format!("(call $set64 (i32.const {}) (i64.load (i32.const {})))", v, o),
            Act::Get64 { v, o } => format!("(i64.store (i32.const {}) (call $get64 (i32.const {})))", o, v),
            Act::Store { v, o } => format!("(call $store160 (i32.const {}) (i32.const {}))", o, v),
            Act::Load { v, o } => format!("(call $load160 (i32.const {}) (i32.const {}))", v, o),
            Act::Log { o, n } => format!("(call $log (i32.const {}) (i32.const {}))", o, n),
            Act::Ret { o, n } => format!("(call $ret (i32.const {}) (i32.const {}))", o, n),
            Act::Xfer { s, d, o } => format!("(call $xfer (i32.const {}) (i32.const {}) (i64.load (i32.const {})))", s, d, o),
            Act::Add { a, b, o } => format!(
                "(i64.store (i32.const {}) (i64.add (i64.load (i32.const {})) (i64.load (i32.const {}))))",
                o, a, b
            ),
            Act::IfEq { o, x, t } => {
                let mut s = format!("(if (i64.eq (i64.load (i32.const {})) (i64.const {})) (then\n", o, *x as i64);
                wat_acts(&mut s, t);
                s.push_str("))");
                s
            }
            Act::Alloc { n, o } => format!("(i32.store (i32.const {}) (call $alloc (i32.const {})))", o, *n as i32),
            Act::PutAt { o, k, x } => format!("(i64.store offset={} (i32.load (i32.const {})) (i64.const {}))", k, o, *x as i64),
            Act::Sdk { .. } => String::new(),
            Act::GetAt { p, k, o } => format!("(i64.store (i32.const {}) (i64.load offset={} (i32.load (i32.const {}))))", o, k, p),
            Act::Trap { k } => match k {
                0 => "(unreachable)".to_string(),
                1 => "(i64.store (i32.const 0) (i64.div_u (i64.const 1) (i64.const 0)))".to_string(),
                _ => "(i64.store (i32.const 0) (i64.load (i32.const 65530)))".to_string(),
            },
        };
        out.push_str(&s);
        out.push('\n');
    }
}

pub fn wat(t: &RTpl) -> String {
    let mut s = String::from(
        r#"(module
(import "svm" "svm_static_alloc" (func $alloc (param i32) (result i32)))
(import "svm" "svm_calldata_offset" (func $cdo (result i32)))
(import "svm" "svm_calldata_len" (func $cdl (result i32)))
(import "svm" "svm_set_returndata" (func $ret (param i32 i32)))
(import "svm" "svm_get32" (func $get32 (param i32) (result i32)))
(import "svm" "svm_set32" (func $set32 (param i32 i32)))
(import "svm" "svm_get64" (func $get64 (param i32) (result i64)))
(import "svm" "svm_set64" (func $set64 (param i32 i64)))
(import "svm" "svm_load160" (func $load160 (param i32 i32)))
(import "svm" "svm_store160" (func $store160 (param i32 i32)))
(import "svm" "svm_log" (func $log (param i32 i32)))
(import "svm" "svm_transfer" (func $xfer (param i32 i32 i64)))
(memory 1)
(export "memory" (memory 0))
"#,
    );
    s.push_str(&format!("(data (i32.const 1000) \"salt{}\")\n", t.salt));
    let alloc = match t.alloc {
        0 => "(func (export \"svm_alloc\") (param i32) (result i32) (i32.const 4096))\n",
        1 => "(func (export \"svm_alloc\") (param i32) (result i32) (call $alloc (local.get 0)))\n",
        2 => "(func (export \"svm_alloc\") (param i32) (result i32) (i32.const 65530))\n",
        6 => "(func (export \"svm_alloc\") (param i32) (result i32) (i32.const 65444))\n",
        4 => "(func (export \"svm_alloc\") (param i32) (result i32) (call $set64 (i32.const VAR) (i64.const 77)) (call $alloc (local.get 0)))\n",
        5 => "(func (export \"svm_alloc\") (param i32) (result i32) (call $ret (i32.const 64) (i32.const 4)) (call $alloc (local.get 0)))\n",
        _ => "(func (export \"svm_alloc\") (param i32) (result i32) (unreachable))\n",
    };
    let var = t.sizes.iter().position(|n| *n == 8).unwrap_or(0) as u32 + t.first;
    s.push_str(&alloc.replace("VAR", &var.to_string()));
    let mut f = |name: &str, acts: &[Act]| {
        match name.strip_suffix(" result") {
            Some(name) => s.push_str(&format!("(func (export \"{}\") (result i32)\n", name)),
            None => s.push_str(&format!("(func (export \"{}\")\n", name)),
        }
        wat_acts(&mut s, acts);
        if name.ends_with(" result") {
            s.push_str("(i32.const 0)\n");
        }
        s.push_str(")\n");
    };
    if t.ri {
        f("svm_verify result", &t.verify);
    } else {
        f("svm_verify", &t.verify);
    }
    for (i, a) in t.ctors.iter().enumerate() {
        f(&format!("c{}", i), a);
    }
    for (i, a) in t.funcs.iter().enumerate() {
        f(&format!("f{}", i), a);
    }
    s.push_str(match t.cyc {
        1 => "(func (export \"zz\") (loop (br 0)))\n",
        2 => "(func $za (export \"zz\") (call $za))\n",
        3 => "(func $za (call $zb)) (func $zb (export \"zz\") (call $za))\n",
        4 => "(func (loop (br 0)))\n",
        _ => "",
    });
    s.push(')');
    s
}

// --- prepared templates ------------------------------------------------------------------------------

pub struct Prep {
    deploy: Vec<u8>,
    taddr: TemplateAddr,
    spawn_addr: Address,
    /// Prices of the constructors.
    prices: Vec<Option<u64>>,
}

fn prepare(t: &RTpl) -> Prep {
    let wasm = if t.sdk { crate::sdk::WASM.to_vec() } else { wat::parse_str(wat(t)).unwrap_or_else(|e| harness_error(format!("wat: {}", e))) };
    let prices = catch(|| {
        let program = svm_program::Program::new(&wasm, false).unwrap();
        let prices = svm_program::ProgramVisitor::visit(
            svm_gas::ProgramPricing::new(std::rc::Rc::new(svm_gas::resolvers::V0PriceResolver::default())),
            &program,
        )
        .unwrap();
        (0..t.ctors.len()).map(|i| program.exports().get(&format!("c{}", i)).map(|x| prices.get(x) as u64)).collect::<Vec<_>>()
    });
    let prices = prices.unwrap_or_else(|_| vec![None; t.ctors.len()]);
    let code = CodeSection::new_fixed(wasm, 0);
    let taddr = svm_types::compute_template_addr(&code);
    let ctors = CtorsSection::new((0..t.ctors.len()).map(|i| format!("c{}", i)).collect());
    let sizes = if t.sdk { crate::sdk::meta_sizes().unwrap_or_default() } else { t.sizes.clone() };
    let data = DataSection::with_layout(Layout::Fixed(FixedLayout::from_byte_sizes(t.first, &sizes)));
    let header = HeaderSection::new(1, "T".to_string(), "".to_string());
    let tp = Template::new(code, data, ctors).with_header(Some(header));
    let spawn = SpawnAccount::new(0, &taddr, "", "c0", vec![]);
    Prep {
        deploy: svm_codec::template::encode(&tp),
        spawn_addr: svm_runtime::compute_account_addr(&spawn),
        taddr,
        prices,
    }
}

// --- the model -----------------------------------------------------------------------------------------

#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct RModel {
    pub nodes: Vec<Model>,
    pub alive: Vec<bool>,
    /// Message -> (largest limit that ran out of gas, smallest that did not).
    pub gas: BTreeMap<String, (Option<u64>, Option<u64>)>,
    pub flags: BTreeSet<String>,
}

static mut M: Option<RModel> = None;
pub fn rm() -> &'static mut RModel {
    unsafe { M.as_mut().unwrap() }
}
fn md(n: usize) -> &'static mut Model {
    &mut rm().nodes[n]
}
pub fn model_json() -> Value {
    unsafe {
        match &M {
            Some(m) => serde_json::to_value(m).unwrap(),
            None => Value::Null,
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
enum Res {
    Ok,
    Trap,
    Abort,
}

struct Vm<'a> {
    mem: Vec<u8>,
    used: u32,
    cd: Option<(u32, u32)>,
    logs: Vec<Vec<u8>>,
    ret: Option<(u32, u32)>,
    /// The calldata and the returndata of the contract that is written with the SDK.
    data: Vec<u8>,
    sdk_ret: Option<Vec<u8>>,
    touched: BTreeSet<String>,
    w: Content,
    base: &'a dyn Fn(&str) -> Option<String>,
    access: bool,
    /// Address (hex) of the executing account.
    own: String,
    tpl: &'a RTpl,
    xfers: u64,
}

fn addr_key(a: &[u8]) -> String {
    hex::encode(a)
}

impl<'a> crate::sdk::Store for Vm<'a> {
    fn get(&self, var: usize) -> Vec<u8> {
        self.var(var as u32, self.tpl.sizes[var]).unwrap()
    }
    fn set(&mut self, var: usize, raw: &[u8]) {
        self.set_var(var as u32, raw);
    }
}

impl<'a> Vm<'a> {
    fn get(&self, k: &str) -> Option<String> {
        self.w.get(k).cloned().or_else(|| (self.base)(k))
    }
    fn u64(&self, o: u32) -> u64 {
        u64::from_le_bytes(self.mem[o as usize..o as usize + 8].try_into().unwrap())
    }
    fn put(&mut self, o: u32, x: u64) {
        self.mem[o as usize..o as usize + 8].copy_from_slice(&x.to_le_bytes());
    }
    fn var(&self, v: u32, size: u32) -> Option<Vec<u8>> {
        let i = v.checked_sub(self.tpl.first)? as usize;
        let n = *self.tpl.sizes.get(i)?;
        if n != size {
            return None;
        }
        Some(match self.get(&format!("V{}.{}", self.own, i)) {
            Some(h) => hex::decode(h).unwrap(),
            None => vec![0; n as usize],
        })
    }
    fn set_var(&mut self, v: u32, b: &[u8]) {
        let i = v - self.tpl.first;
        self.w.insert(format!("V{}.{}", self.own, i), hex::encode(b));
    }
    fn bal(&self, a: &str) -> Option<(u64, String)> {
        self.get(&format!("A{}", a))?;
        let m = self.get(&format!("M{}", a))?;
        let (b, c) = m.split_once('|').unwrap();
        Some((b.parse().unwrap(), c.to_string()))
    }

    /// What is handed out never overlaps what was handed out before.
    fn alloc(&mut self, n: u32) -> Option<u32> {
        let at = self.used;
        if n == 0 || at as u64 + n as u64 > MEM as u64 {
            return None;
        }
        self.used += n;
        Some(at)
    }

    fn run(&mut self, acts: &[Act]) -> Res {
        macro_rules! need {
            ($x:expr) => {
                match $x {
                    Some(x) => x,
                    None => return Res::Abort,
                }
            };
        }
        for a in acts {
            match a.clone() {
                Act::Put { o, x } => self.put(o, x),
                Act::Cd { o, k } => {
                    let (c, _) = need!(self.cd);
                    if (c + k) as usize + 8 > MEM {
                        return Res::Trap;
                    }
                    let x = self.u64(c + k);
                    self.put(o, x);
                }
                Act::CdAddr { o, k } => {
                    let (c, _) = need!(self.cd);
                    // Three separate loads and stores, in order: they may overlap.
                    for (d, n) in [(0u32, 8usize), (8, 8), (16, 4)] {
                        let f = (c + k + d) as usize;
                        if f + n > MEM {
                            return Res::Trap;
                        }
                        let b = self.mem[f..f + n].to_vec();
                        self.mem[(o + d) as usize..(o + d) as usize + n].copy_from_slice(&b);
                    }
                }
                Act::CdLen { o } => {
                    let (_, n) = need!(self.cd);
                    self.put(o, n as u64);
                }
                Act::Set32 { v, o } => {
                    need!(if self.access { self.var(v, 4) } else { None });
                    let b = self.mem[o as usize..o as usize + 4].to_vec();
                    self.set_var(v, &b);
                }
                Act::Set64 { v, o } => {
                    need!(if self.access { self.var(v, 8) } else { None });
                    let b = self.mem[o as usize..o as usize + 8].to_vec();
                    self.set_var(v, &b);
                }
                Act::Get32 { v, o } => {
                    let b = need!(if self.access { self.var(v, 4) } else { None });
                    self.put(o, u32::from_le_bytes(b.try_into().unwrap()) as u64);
                }
                Act::Get64 { v, o } => {
                    // A smaller variable is extended with zeros.
                    let b = need!(if self.access { [8, 4, 1].iter().find_map(|n| self.var(v, *n)) } else { None });
                    let mut x = [0; 8];
                    x[..b.len()].copy_from_slice(&b);
                    self.put(o, u64::from_le_bytes(x));
                }
                Act::Store { v, o } => {
                    need!(if self.access { self.var(v, 20) } else { None });
                    if o as usize + 20 > MEM {
                        return Res::Abort;
                    }
                    let b = self.mem[o as usize..o as usize + 20].to_vec();
                    self.set_var(v, &b);
                }
                Act::Load { v, o } => {
                    let b = need!(if self.access { self.var(v, 20) } else { None });
                    if o as usize + 20 > MEM {
                        return Res::Abort;
                    }
                    self.mem[o as usize..o as usize + 20].copy_from_slice(&b);
                }
                Act::Log { o, n } => {
                    if o as usize + n as usize > MEM || n > 65535 || self.logs.len() >= 255 {
                        return Res::Abort;
                    }
                    self.logs.push(self.mem[o as usize..(o + n) as usize].to_vec());
                }
                Act::Ret { o, n } => {
                    if n == 0 || n > 65535 {
                        return Res::Abort;
                    }
                    self.ret = Some((o, n));
                }
                Act::Xfer { s, d, o } => {
                    let x = self.u64(o);
                    if x == 0 {
                        continue;
                    }
                    let sa = addr_key(&self.mem[s as usize..s as usize + 20]);
                    let da = addr_key(&self.mem[d as usize..d as usize + 20]);
                    if !self.access {
                        return Res::Abort;
                    }
                    let (sb, sc) = need!(self.bal(&sa));
                    let (db, dc) = need!(self.bal(&da));
                    if sb < x {
                        return Res::Abort;
                    }
                    if sa != da {
                        let nb = need!(db.checked_add(x));
                        self.w.insert(format!("M{}", sa), format!("{}|{}", sb - x, sc));
                        self.w.insert(format!("M{}", da), format!("{}|{}", nb, dc));
                    } else {
                        probe("self_transfer_in_contract");
                    }
                    self.xfers += 1;
                    self.touched.insert(sa);
                    self.touched.insert(da);
                }
                Act::Add { a, b, o } => {
                    let x = self.u64(a).wrapping_add(self.u64(b));
                    self.put(o, x);
                }
                Act::IfEq { o, x, t } => {
                    if self.u64(o) == x {
                        let r = self.run(&t);
                        if r != Res::Ok {
                            return r;
                        }
                    }
                }
                Act::Trap { .. } => return Res::Trap,
                Act::Alloc { n, o } => {
                    let at = need!(self.alloc(n));
                    self.mem[o as usize..o as usize + 4].copy_from_slice(&at.to_le_bytes());
                }
                Act::PutAt { o, k, x } => {
                    let at = self.u64(o) as u32 as u64 + k as u64;
                    if at + 8 > MEM as u64 {
                        return Res::Trap;
                    }
                    self.put(at as u32, x);
                }
                Act::Sdk { f } => {
                    if self.data.is_empty() && !crate::sdk::params(&f).is_empty() {
                        return Res::Abort;
                    }
                    let d = self.data.clone();
                    match crate::sdk::run(&f, &d, self) {
                        None => {
                            probe("sdk_refused");
                            return Res::Trap;
                        }
                        Some(r) => {
                            probe("sdk_called");
                            self.sdk_ret = Some(r);
                        }
                    }
                }
                Act::GetAt { p, k, o } => {
                    let at = self.u64(p) as u32 as u64 + k as u64;
                    if at + 8 > MEM as u64 {
                        return Res::Trap;
                    }
                    let x = self.u64(at as u32);
                    self.put(o, x);
                }
            }
        }
        Res::Ok
    }
}

/// Gas limits around this value stand for limits around the price.
pub const NEAR: u64 = 1 << 60;

fn near(gas: u64, need: Option<u64>) -> u64 {
    match gas.abs_diff(NEAR) {
        0..=1000 => (need.unwrap_or(1 << 20) + 1 + gas).saturating_sub(NEAR).max(1),
        _ => gas,
    }
}

/// What a transaction must do according to the model.
#[derive(Clone, Debug)]
struct Exp {
    /// None: success. Some(kinds): fails with one of these ("abort": no receipt).
    fail: Option<Vec<&'static str>>,
    logs: Vec<Vec<u8>>,
    ret: Vec<u8>,
    touched: BTreeSet<String>,
    w: Content,
    xfers: u64,
}

impl Exp {
    fn fail(k: &[&'static str]) -> Exp {
        Exp {
            fail: Some(k.to_vec()),
            logs: vec![],
            ret: vec![],
            touched: BTreeSet::new(),
            w: Content::new(),
            xfers: 0,
        }
    }
}

fn execute(tpl: &RTpl, acts: &[Act], data: &[u8], own: &str, access: bool, w: Content, base: &dyn Fn(&str) -> Option<String>) -> Exp {
    let mut vm = Vm {
        mem: vec![0; MEM],
        used: HEAP,
        cd: None,
        logs: vec![],
        ret: None,
        data: data.to_vec(),
        sdk_ret: None,
        touched: [own.to_string()].into_iter().collect(),
        w,
        base,
        access,
        own: own.to_string(),
        tpl,
        xfers: 0,
    };
    let salt = format!("salt{}", tpl.salt);
    vm.mem[1000..1000 + salt.len()].copy_from_slice(salt.as_bytes());
    if !data.is_empty() && !tpl.sdk {
        let c = match tpl.alloc {
            0 => CONST_CD,
            1 => match vm.alloc(data.len() as u32) {
                Some(c) => c,
                None => return Exp::fail(&["abort"]),
            },
            2 => 65530,
            6 => 65444,
            // The storage is out of reach, and returndata is not accepted.
            4 | 5 => return Exp::fail(&["abort"]),
            _ => return Exp::fail(&["FuncFailed"]),
        };
        if c as usize + data.len() > MEM {
            return Exp::fail(&["abort"]);
        }
        vm.mem[c as usize..c as usize + data.len()].copy_from_slice(data);
        vm.cd = Some((c, data.len() as u32));
    }
    match vm.run(acts) {
        Res::Trap => {
            let mut e = Exp::fail(&["FuncFailed"]);
            e.logs = vm.logs;
            e
        }
        Res::Abort => Exp::fail(&["abort"]),
        Res::Ok => {
            let ret = match vm.ret {
                _ if vm.sdk_ret.is_some() => vm.sdk_ret.unwrap(),
                None => vec![],
                Some((o, n)) => {
                    if o as usize + n as usize > MEM {
                        return Exp::fail(&["abort"]);
                    }
                    vm.mem[o as usize..(o + n) as usize].to_vec()
                }
            };
            Exp {
                fail: None,
                logs: vm.logs,
                ret,
                touched: vm.touched,
                w: vm.w,
                xfers: vm.xfers,
            }
        }
    }
}

// --- nodes -----------------------------------------------------------------------------------------------

pub enum Node {
    Closed,
    Native { rt: Box<Runtime>, gs: GlobalState },
    Ffi(usize),
}

/// The outcome of a transaction: an encoded receipt, or a failure without one.
#[derive(Clone, Debug, PartialEq)]
enum Tx {
    Rec(Vec<u8>),
    Fail(String),
}

/// What a C program sees of a result.
#[repr(C)]
struct RawResult {
    receipt: *mut u8,
    error: *mut u8,
    size: u32,
}

/// Results that were not freed yet, with what they said when they were returned.
static mut HELD: Vec<(svm_result_t, Result<Option<Vec<u8>>, Vec<u8>>)> = Vec::new();
static mut RESULTS: u64 = 0;

fn peek(r: &svm_result_t) -> Result<Option<Vec<u8>>, Vec<u8>> {
    let raw = unsafe { &*(r as *const svm_result_t as *const RawResult) };
    let bytes = |p: *mut u8| unsafe { std::slice::from_raw_parts(p, raw.size as usize).to_vec() };
    if !raw.error.is_null() && !raw.receipt.is_null() {
        bad(&["C15", "C16"], "result_memory", "a result has both a receipt and an error".into());
    }
    if !raw.error.is_null() {
        return Err(bytes(raw.error));
    }
    Ok(if raw.receipt.is_null() { None } else { Some(bytes(raw.receipt)) })
}

/// Frees a result in the way a C program does.
fn free_result(r: svm_result_t, said: Result<Option<Vec<u8>>, Vec<u8>>) {
    let now = peek(&r);
    if now != said {
        bad(&["C15", "C16"], "result_memory", format!("a result read {:?} when it was returned and {:?} when it was freed", said, now));
    }
    unsafe { ffi::svm_free_result(r) };
    probe("result_freed");
}

fn res_of(r: svm_result_t) -> Result<Option<Vec<u8>>, String> {
    let said = peek(&r);
    if r.is_err() != said.is_err() || r.receipt().map(|x| x.to_vec()) != said.clone().unwrap_or(None) {
        bad(&["C15", "C16"], "result_memory", format!("a result reads {:?} in C", said));
    }
    let k = unsafe {
        RESULTS += 1;
        RESULTS
    };
    let out = match said.clone() {
        Ok(x) => Ok(x),
        Err(t) => match String::from_utf8(t) {
            Ok(t) => Err(t),
            Err(_) => bad(&["C15", "C16"], "result_memory", format!("the text of an error is not a text: {:?}", said)),
        },
    };
    match k % 4 {
        0 if r.is_ok() => {
            let owned = r.unwrap();
            if Ok(&owned) != said.as_ref() {
                bad(&["C15", "C16"], "result_memory", format!("the receipt read {:?} before and {:?} after unwrapping the result", said, owned));
            }
        }
        1 | 2 => unsafe {
            HELD.push((r, said));
            if HELD.len() > 6 {
                let (r, said) = HELD.remove((k / 4 % 3) as usize);
                probe("result_held");
                free_result(r, said);
            }
        },
        _ => free_result(r, said),
    }
    out
}

/// Calls the C API.
fn call_ffi(f: impl FnOnce() -> svm_result_t) -> Result<Option<Vec<u8>>, String> {
    match catch(f) {
        Ok(r) => res_of(r),
        Err(p) => bad(&["C16"], "ffi_panic", format!("a panic escaped from the C API: {}", p)),
    }
}

fn bad(base: &[&str], class: &str, msg: String) -> ! {
    let mut props: Vec<String> = base.iter().map(|s| s.to_string()).collect();
    for (f, p) in [("multi", "C15"), ("contained", "C16"), ("mirror", "C13"), ("sdk", "C19")] {
        if rm().flags.contains(f) {
            props.push(p.into());
        }
    }
    violation(Violation {
        class: class.into(),
        msg,
        props,
    })
}

fn fired() -> u64 {
    disk::disk().fired.iter().sum::<u64>() + sched::sched().spawn_failed
}

#[derive(Clone, Debug, PartialEq)]
struct Acc {
    bal: u64,
    ctr: u128,
    tpl: String,
    name: Option<String>,
    vars: Option<Vec<String>>,
}

pub struct Drv {
    c: Arc<RCfg>,
    prep: Arc<Vec<Prep>>,
    rt: Arc<Tokio>,
    nodes: Vec<Node>,
    fault_armed: bool,
    fired0: u64,
    /// The operation in progress, for messages.
    what: String,
    in_par: bool,
}

fn uri(n: usize) -> String {
    format!("sqlite:///sim/db{}?mode=rwc", n)
}

fn kv_latest(n: usize) -> impl Fn(&str) -> Option<String> {
    move |k| md(n).latest_get(k).cloned()
}

impl Drv {
    fn naccs(&self) -> u64 {
        self.c.plain + self.c.tpl.len() as u64
    }
    fn addr(&self, a: u64) -> Address {
        let a = a % self.naccs();
        if a < self.c.plain {
            crate::wl_state::addr(a)
        } else {
            self.prep[(a - self.c.plain) as usize].spawn_addr.clone()
        }
    }
    fn key(&self, a: u64) -> String {
        addr_key(self.addr(a).as_slice())
    }
    /// The generated template of an account; None: the genesis template.
    fn tpl_of(&self, a: u64) -> Option<usize> {
        let a = a % self.naccs();
        let t = self.c.tpl.len() as u64;
        if a >= self.c.plain {
            return Some((a - self.c.plain) as usize);
        }
        if self.c.nodes.iter().any(|n| n.ffi) || a % (t + 1) == t {
            None
        } else {
            Some((a % (t + 1)) as usize)
        }
    }
    fn faulted(&self) -> bool {
        self.fault_armed && fired() > self.fired0
    }
    fn expect_acc(&self, get: &dyn Fn(&str) -> Option<String>, a: u64, full: bool) -> Option<Acc> {
        let k = self.key(a);
        let name = get(&format!("A{}", k))?;
        let m = get(&format!("M{}", k)).unwrap();
        let (b, c) = m.split_once('|').unwrap();
        let t = self.tpl_of(a);
        let tpl = match t {
            Some(t) => addr_key(self.prep[t].taddr.as_slice()),
            None => addr_key(svm_genesis_config::sct().0.as_slice()),
        };
        Some(Acc {
            bal: b.parse().unwrap(),
            ctr: c.parse().unwrap(),
            tpl,
            name: if full { Some(name) } else { None },
            vars: if full {
                Some(match t {
                    None => vec![],
                    Some(t) => self.c.tpl[t]
                        .sizes
                        .iter()
                        .enumerate()
                        .map(|(i, n)| get(&format!("V{}.{}", k, i)).unwrap_or_else(|| "00".repeat(*n as usize)))
                        .collect(),
                })
            } else {
                None
            },
        })
    }

    /// Reads an account natively. Err: storage error.
    fn read_native(&self, gs: &GlobalState, layer: Option<u64>, a: u64) -> Result<Option<Acc>, String> {
        let mut g = gs.clone();
        *g.layer_query_parameter_mut() = layer.map(L);
        let addr = self.addr(a);
        let t = self.tpl_of(a);
        let rt = self.rt.clone();
        let r = catch(|| {
            rt.block_on(async {
                let acc = match AccountStorage::load(g, &addr).await {
                    Ok(x) => x,
                    Err(StorageError::NotFound { .. }) => return Ok(None),
                    Err(e) => return Err(e),
                };
                let mut vars = vec![];
                if let Some(t) = t {
                    for i in 0..self.c.tpl[t].sizes.len() {
                        vars.push(hex::encode(acc.get_var_vec(self.c.tpl[t].first + i as u32).await?));
                    }
                }
                Ok(Some(Acc {
                    bal: acc.balance().await?,
                    ctr: acc.counter().await?,
                    tpl: addr_key(acc.template_addr().await?.as_slice()),
                    name: Some(acc.name().await?),
                    vars: Some(vars),
                }))
            })
        });
        match r {
            Ok(Ok(v)) => Ok(v),
            Ok(Err(e)) => Err(format!("{:?}", e)),
            Err(p) => Err(format!("panic: {}", p)),
        }
    }

    fn read(&self, n: usize, a: u64) -> Result<Option<Acc>, String> {
        match &self.nodes[n] {
            Node::Closed => unreachable!(),
            Node::Native { rt, gs } => {
                // The runtime's own getter first.
                let addr = self.addr(a);
                let g = catch(|| rt.get_account(&addr)).map_err(|p| format!("panic: {}", p))?;
                let v = self.read_native(gs, None, a)?;
                let g2 = v.as_ref().map(|v| (v.bal, v.ctr, v.tpl.clone()));
                let g1 = g.map(|g| (g.0, g.1, addr_key(g.2.as_slice())));
                if g1 != g2 {
                    if self.faulted() {
                        return Err("storage error".into());
                    }
                    bad(&["C14"], "get_account", format!("{}: the runtime reports {:?} for account {}, its storage holds {:?}", self.what, g1, a, g2));
                }
                Ok(v)
            }
            Node::Ffi(p) => {
                let p = *p as *mut c_void;
                let addr = self.addr(a);
                let mut acc = ffi::svm_account::default();
                let r = call_ffi(|| unsafe { ffi::svm_get_account(p, addr.as_slice().as_ptr(), &mut acc) });
                match r {
                    Ok(_) => Ok(Some(Acc {
                        bal: acc.balance,
                        ctr: acc.counter(),
                        tpl: addr_key(&acc.template_addr),
                        name: None,
                        vars: None,
                    })),
                    // The C API reports a missing account as an error.
                    Err(_) => Ok(None),
                }
            }
        }
    }

    fn is_ffi(&self, n: usize) -> bool {
        self.c.nodes[n].ffi
    }

    fn is_sdk(&self, a: u64) -> bool {
        self.tpl_of(a).map_or(false, |t| self.c.tpl[t].sdk)
    }
    fn with_sdk<'b>(&self, a: u64, base: &[&'b str]) -> Vec<&'b str> {
        let mut b = base.to_vec();
        if self.is_sdk(a) {
            b.push("C19");
        }
        b
    }

    fn check_acc(&self, n: usize, a: u64, base: &[&str]) {
        let base = &self.with_sdk(a, base)[..];
        let exp = self.expect_acc(&kv_latest(n), a, !self.is_ffi(n));
        match self.read(n, a) {
            Ok(v) if v == exp => {}
            Ok(v) => {
                if self.faulted() && v.is_none() {
                    return;
                }
                let mut b = base.to_vec();
                if v.as_ref().map(|x| x.bal) != exp.as_ref().map(|x| x.bal) {
                    b.push("C11");
                }
                bad(&b, "account", format!("{}: account {} of node {} is {:?}, expected {:?}", self.what, a, n, v, exp));
            }
            Err(e) => {
                if !self.faulted() {
                    bad(base, "read_error", format!("{}: reading account {} of node {} failed: {}", self.what, a, n, e));
                }
            }
        }
    }

    /// Current layer: Ok(None) when only genesis is committed.
    fn info(&mut self, n: usize) -> Result<Option<(u64, String)>, String> {
        match &mut self.nodes[n] {
            Node::Closed => unreachable!(),
            Node::Native { rt, .. } => match catch(|| rt.current_layer()) {
                Ok((l, s)) => Ok(Some((l.0, hex::encode(&s.0)))),
                Err(p) => Err(p),
            },
            Node::Ffi(p) => {
                let p = *p as *mut c_void;
                let mut h = [0u8; 32];
                let mut l = 0u64;
                call_ffi(|| unsafe { ffi::svm_layer_info(p, h.as_mut_ptr(), &mut l) }).map(|_| Some((l, hex::encode(&h))))
            }
        }
    }

    fn check_info(&mut self, n: usize, base: &[&str]) {
        let r = self.info(n);
        let m = md(n);
        if m.layers.is_empty() {
            if let Ok(x) = r {
                bad(base, "layer_number", format!("{}: node {} reports layer {:?} although only genesis is committed", self.what, n, x));
            }
            return;
        }
        match r {
            Ok(Some((l, s))) => {
                let exp = m.layers.len() as u64 - 1;
                if l != exp {
                    bad(base, "layer_number", format!("{}: the current layer of node {} is {}, expected {}", self.what, n, l, exp));
                }
                if let Err(e) = m.learn_root(exp as usize, &s) {
                    bad(base, "root", format!("{}: node {}: {}", self.what, n, e));
                }
            }
            Ok(None) => unreachable!(),
            Err(e) => {
                if !self.faulted() {
                    bad(base, "info_error", format!("{}: the current layer of node {}: {}", self.what, n, e));
                }
            }
        }
    }

    fn check_dirty(&mut self, n: usize, base: &[&str]) {
        let exp = !md(n).dirty.is_empty() || !md(n).cp.is_empty();
        let r = match &self.nodes[n] {
            Node::Closed => unreachable!(),
            Node::Native { rt, .. } => catch(|| rt.has_uncommitted_changes().map_err(|e| e.to_string())).and_then(|x| x),
            Node::Ffi(p) => {
                let p = *p as *mut c_void;
                match call_ffi(|| unsafe { ffi::svm_uncommitted_changes(p) }) {
                    Ok(_) => Ok(false),
                    Err(e) if e.contains("uncommitted") => Ok(true),
                    Err(e) => Err(e),
                }
            }
        };
        match r {
            Ok(d) if d == exp => {}
            r => bad(base, "dirty_query", format!("{}: uncommitted changes of node {}: {:?}, expected {}", self.what, n, r, exp)),
        }
    }

    fn audit(&mut self, n: usize, base: &[&str]) {
        for a in 0..self.naccs() {
            self.check_acc(n, a, base);
        }
        self.check_info(n, base);
        self.check_dirty(n, base);
    }

    fn audit_gs(&self, n: usize, gs: &GlobalState, layer: u64, base: &[&str]) {
        let m = md(n);
        let content = m.at(layer as i64).clone();
        for a in 0..self.naccs() {
            let base = &self.with_sdk(a, base)[..];
            let exp = self.expect_acc(&|k| content.get(k).cloned(), a, true);
            match self.read_native(gs, Some(layer), a) {
                Ok(v) if v == exp => {}
                Ok(v) => bad(base, "history", format!("{}: account {} of node {} at layer {} is {:?}, expected {:?}", self.what, a, n, layer, v, exp)),
                Err(e) => {
                    if !self.faulted() {
                        bad(base, "read_error", format!("{}: reading account {} of node {} at layer {} failed: {}", self.what, a, n, layer, e))
                    }
                }
            }
        }
    }

    // --- opening and closing -------------------------------------------------------------------------

    fn create_ffi(path: Option<&str>) -> Result<usize, String> {
        let mut p: *mut c_void = std::ptr::null_mut();
        let r = call_ffi(|| unsafe {
            match path {
                None => ffi::svm_runtime_create(&mut p, std::ptr::null(), 0),
                Some(s) => ffi::svm_runtime_create(&mut p, s.as_ptr(), s.len() as u32),
            }
        });
        match r {
            Ok(_) if p.is_null() => Err("no runtime was returned".into()),
            Ok(_) => Ok(p as usize),
            Err(e) => Err(e),
        }
    }

    fn open(&mut self, n: usize) -> bool {
        let c = self.c.nodes[n].clone();
        let node = if c.ffi {
            let u = uri(n);
            Self::create_ffi(if c.mem { None } else { Some(&u) }).map(Node::Ffi)
        } else {
            let rt = self.rt.clone();
            let u = uri(n);
            catch(|| {
                let gs = rt.block_on(async {
                    if c.mem {
                        GlobalState::in_memory(GenesisConfig::mainnet()).await
                    } else {
                        GlobalState::new(&u, GenesisConfig::mainnet()).await
                    }
                });
                let r = Runtime::new(rt.clone(), gs.clone(), TemplatePriceCache::new(PriceResolverRegistry::default()));
                Node::Native { rt: Box::new(r), gs }
            })
        };
        let node = match node {
            Ok(x) => x,
            Err(e) => {
                if self.faulted() {
                    probe("open_failed_under_fault");
                    return false;
                }
                bad(&["C15", "C16", "C10", "C11", "C12", "C13", "C14"], "open_failed", format!("{}: opening node {} failed: {} ({})", self.what, n, e, ctx().last_panic));
            }
        };
        self.nodes[n] = node;
        let m = md(n);
        if c.mem {
            m.layers.clear();
            m.alts.clear();
            m.inflight.clear();
        }
        m.cp.clear();
        m.dirty.clear();
        m.opened = true;
        // Which of the allowed histories is it?
        let mut cands = vec![m.layers.clone()];
        cands.extend(m.alts.iter().cloned());
        cands.extend(std::mem::take(&mut m.inflight));
        let len = match self.info(n) {
            Ok(Some((l, _))) => l as usize + 1,
            Ok(None) => 0,
            Err(e) => {
                if self.faulted() {
                    let m = md(n);
                    m.alts = cands.split_off(1);
                    self.close(n);
                    return false;
                }
                if !cands.iter().any(|c| c.is_empty()) {
                    bad(&["C15", "C16", "C10"], "open_info", format!("{}: node {} has no current layer after opening: {}", self.what, n, e));
                }
                0
            }
        };
        let m = md(n);
        let all = cands.clone();
        let lens: Vec<usize> = cands.iter().map(|c| c.len()).collect();
        let mut fit: Vec<Vec<Layer>> = cands.into_iter().filter(|c| c.len() == len).collect();
        if fit.is_empty() {
            bad(&["C15", "C16", "C10", "C13"], "open_layer", format!("{}: node {} has {} layers after opening, expected one of {:?}", self.what, n, len, lens));
        }
        if fit.len() > 1 {
            // The content decides.
            let mut k = None;
            for i in 0..fit.len() {
                let last = fit[i].last().map(|l| l.content.clone()).unwrap_or_default();
                let full = !c.ffi;
                if (0..self.naccs()).all(|a| matches!(self.read(n, a), Ok(v) if v == self.expect_acc(&|k| last.get(k).cloned(), a, full))) {
                    k = Some(i);
                    break;
                }
            }
            let k = match k {
                Some(k) => k,
                None if self.faulted() => {
                    md(n).alts = all[1..].to_vec();
                    self.close(n);
                    return false;
                }
                None => 0,
            };
            md(n).layers = fit.swap_remove(k);
        } else {
            m.layers = fit.pop().unwrap();
        }
        let m = md(n);
        m.alts = all.into_iter().filter(|c| !crate::wl_state::same_history(c, &m.layers)).collect();
        rm().alive[n] = true;
        self.audit(n, &["C10", "C14", "C15", "C16"]);
        true
    }

    fn close(&mut self, n: usize) {
        let old = std::mem::replace(&mut self.nodes[n], Node::Closed);
        rm().alive[n] = false;
        match old {
            Node::Closed => {}
            Node::Native { rt, gs } => {
                if let Err(p) = catch(move || {
                    drop(rt);
                    drop(gs);
                }) {
                    bad(&["C16"], "close_panic", format!("{}: closing node {} panicked: {}", self.what, n, p));
                }
            }
            Node::Ffi(p) => {
                let r = call_ffi(|| ffi::svm_runtime_destroy(p as *mut c_void));
                if let Err(e) = r {
                    bad(&["C15"], "destroy_failed", format!("{}: destroying node {} failed: {}", self.what, n, e));
                }
            }
        }
    }

    /// Several threads destroy the same runtime: one of them does, the others are refused.
    fn race_destroy(&mut self, n: usize, p: usize, th: u64) {
        probe("destroy_race");
        self.nodes[n] = Node::Closed;
        rm().alive[n] = false;
        let hs: Vec<_> = (0..th.min(4))
            .map(|_| {
                std::thread::spawn(move || {
                    sched::set_harness(true);
                    call_ffi(|| ffi::svm_runtime_destroy(p as *mut c_void)).is_ok()
                })
            })
            .collect();
        let k = hs.into_iter().map(|h| h.join()).filter(|r| matches!(r, Ok(true))).count();
        if k != 1 {
            bad(&["C15"], "destroy_race", format!("{}: {} of {} threads destroyed node {}", self.what, k, th.min(4), n));
        }
    }

    fn live_ffi(&self) -> u64 {
        self.nodes.iter().filter(|n| matches!(n, Node::Ffi(_))).count() as u64
    }

    fn check_count(&self) {
        if self.in_par {
            return;
        }
        match catch(|| ffi::svm_runtimes_count()) {
            Ok(k) if k == self.live_ffi() => {}
            r => bad(&["C15"], "count", format!("{}: the number of runtimes is {:?}, expected {}", self.what, r, self.live_ffi())),
        }
    }

    // --- transactions ----------------------------------------------------------------------------------

    fn envelope(&self, pr: u64, gas: u64, s: u64) -> Envelope {
        let g = if gas == 0 { Gas::new() } else { Gas::with(gas - 1) };
        Envelope::new(self.addr(pr), s % 1000, s as u128, g, s % 7)
    }

    fn context(&self, n: usize) -> Context {
        let s = md(n).layers.last().and_then(|l| l.root.clone());
        let st = match s {
            Some(h) => State(hex::decode(h).unwrap().try_into().unwrap()),
            None => State::zeros(),
        };
        Context::new(TransactionId::repeat(7), L(md(n).layers.len() as u64), st)
    }

    /// Mostly, an account that exists: `a` or the next one that does.
    fn pick(&self, n: usize, a: u64, s: u64) -> u64 {
        let k = self.naccs();
        let a = a % k;
        if s % 8 == 7 {
            return a;
        }
        for i in 0..k {
            let b = (a + i) % k;
            if md(n).latest_get(&format!("A{}", self.key(b))).is_some() {
                return b;
            }
        }
        a
    }

    /// Mostly, an account with a generated template.
    fn pick_called(&self, n: usize, a: u64, s: u64) -> u64 {
        let k = self.naccs();
        let a = a % k;
        if s % 8 == 7 {
            return a;
        }
        for i in 0..k {
            let b = (a + i) % k;
            if self.tpl_of(b).is_some() && md(n).latest_get(&format!("A{}", self.key(b))).is_some() {
                return b;
            }
        }
        a
    }

    fn data(&self, n: usize, own: u64, a: &Args, f: &str) -> Vec<u8> {
        if a.none {
            return vec![];
        }
        if self.tpl_of(own).map_or(false, |t| self.c.tpl[t].sdk) {
            let addrs: Vec<Vec<u8>> = a.d.iter().map(|x| self.addr(*x).as_slice().to_vec()).collect();
            return crate::sdk::calldata(f, &a.p, &addrs);
        }
        let mut v = vec![];
        for i in 0..4 {
            v.extend(a.p.get(i).cloned().unwrap_or(0).to_le_bytes());
        }
        v.extend(self.addr(own).as_slice());
        for i in 0..2 {
            let d = self.pick(n, a.d.get(i).cloned().unwrap_or(0), a.p.get(3).cloned().unwrap_or(0));
            v.extend(self.addr(d).as_slice());
        }
        v
    }

    fn tx<R: Codec>(
        &mut self,
        n: usize,
        e: &Envelope,
        msg: &[u8],
        c: &Context,
        native: impl FnOnce(&mut Runtime, &Envelope, &[u8], &Context) -> R,
        cffi: unsafe extern "C" fn(*mut c_void, *const u8, *const u8, u32, *const u8) -> svm_result_t,
    ) -> Tx {
        match &mut self.nodes[n] {
            Node::Closed => unreachable!(),
            Node::Native { rt, .. } => match catch(|| native(rt, e, msg, c)) {
                Err(p) => Tx::Fail(p),
                Ok(r) => match catch(|| r.encode_to_vec()) {
                    Ok(b) => Tx::Rec(b),
                    Err(p) => bad(&["C14", "C10", "C16"], "receipt_encoding", format!("{}: the receipt cannot be encoded: {}", self.what, p)),
                },
            },
            Node::Ffi(p) => {
                let p = *p as *mut c_void;
                let eb = e.encode_to_vec();
                let cb = c.encode_to_vec();
                match call_ffi(|| unsafe { cffi(p, eb.as_ptr(), msg.as_ptr(), msg.len() as u32, cb.as_ptr()) }) {
                    Ok(Some(b)) => Tx::Rec(b),
                    Ok(None) => bad(&["C14"], "no_receipt", format!("{}: no receipt was returned", self.what)),
                    Err(e) => Tx::Fail(e),
                }
            }
        }
    }

    /// Compares a receipt with the expectation. Returns whether the transaction succeeded.
    fn judge(&mut self, n: usize, kind: &str, exp: &Exp, got: &Tx, addr: Option<String>, oog_ok: bool) -> Option<String> {
        if let Some(k) = &exp.fail {
            probe(&format!("x_{}_{}", kind, k.join("+")));
        }
        let b = match got {
            Tx::Fail(p) => {
                if self.faulted() {
                    probe("tx_failed_under_fault");
                    return None;
                }
                match &exp.fail {
                    Some(k) if k.contains(&"abort") => return None,
                    Some(k) => bad(&["C14"], "outcome", format!("{}: failed without a receipt ({}), expected a receipt of {:?}", self.what, p, k)),
                    None => {
                        let b: &[&str] = if kind == "verify" { &["C12"] } else { &["C14"] };
                        bad(b, "outcome", format!("{}: failed ({}: {}), expected success", self.what, p, ctx().last_panic))
                    }
                }
            }
            Tx::Rec(b) => b,
        };
        let (success, err, logs, ret, touched, state, racc) = if kind == "spawn" {
            let r = SpawnReceipt::decode_bytes(b).unwrap_or_else(|e| bad(&["C14"], "receipt", format!("{}: the receipt does not decode: {:?}", self.what, e)));
            (r.success, r.error, r.logs, r.returndata, r.touched_accounts, r.init_state, r.account_addr)
        } else {
            let r = CallReceipt::decode_bytes(b).unwrap_or_else(|e| bad(&["C14"], "receipt", format!("{}: the receipt does not decode: {:?}", self.what, e)));
            (r.success, r.error, r.logs, r.returndata, r.touched_accounts, r.new_state, None)
        };
        let ek = err.as_ref().map(err_kind);
        if success == err.is_some() {
            bad(&["C14"], "receipt", format!("{}: success is {} and the error is {:?}", self.what, success, err));
        }
        if !success && self.faulted() {
            probe("tx_failed_under_fault");
            return None;
        }
        if !success && ek == Some("OOG") && oog_ok {
            return None;
        }
        let b: &[&str] = if kind == "verify" { &["C12", "C14"] } else { &["C14"] };
        match &exp.fail {
            None if !success => bad(b, "outcome", format!("{}: failed with {:?}, expected success", self.what, err)),
            Some(k) if success => {
                let mut b = b.to_vec();
                b.push("C10");
                b.push("C11");
                bad(&b, "outcome", format!("{}: succeeded, expected failure ({:?})", self.what, k))
            }
            Some(k) if !k.contains(&ek.unwrap()) => bad(b, "outcome", format!("{}: failed with {:?}, expected {:?}", self.what, err, k)),
            _ => {}
        }
        let logs: Vec<Vec<u8>> = logs.iter().map(|l| l.as_bytes().to_vec()).collect();
        if logs != exp.logs {
            bad(&["C14"], "logs", format!("{}: the logs are {}, expected {}", self.what, hexes(&logs), hexes(&exp.logs)));
        }
        if !success {
            return None;
        }
        if ret.clone().unwrap_or_default() != exp.ret {
            bad(&["C14"], "returndata", format!("{}: the return data is {:?}, expected {}", self.what, ret.map(hex::encode), hex::encode(&exp.ret)));
        }
        let t: BTreeSet<String> = touched.iter().map(|a| addr_key(a.as_slice())).collect();
        if t != exp.touched {
            bad(&["C14"], "touched", format!("{}: the touched accounts are {:?}, expected {:?}", self.what, t, exp.touched));
        }
        if racc.map(|a| addr_key(a.as_slice())) != addr {
            bad(&["C14"], "spawned_address", format!("{}: the receipt does not name account {:?}", self.what, addr));
        }
        let _ = n;
        Some(state.map(|s| hex::encode(&s.0)).unwrap_or_default())
    }

    /// The history if the transaction commits `w` on top of what is pending.
    fn after_tx(&self, n: usize, w: &Content) -> Vec<Layer> {
        let mut m = md(n).clone();
        for (k, v) in w {
            m.set(k.clone(), v.clone());
        }
        m.checkpoint();
        m.after_commit()
    }

    fn finish_tx(&mut self, n: usize, exp: &Exp, ok: Option<String>) {
        let m = md(n);
        m.inflight.clear();
        match ok {
            Some(state) => {
                for (k, v) in &exp.w {
                    m.set(k.clone(), v.clone());
                }
                m.checkpoint();
                m.commit(None);
                let id = m.layers.len() - 1;
                if let Err(e) = m.learn_root(id, &state) {
                    bad(&["C14"], "root", format!("{}: the new state in the receipt: {}", self.what, e));
                }
                self.audit(n, &["C14"]);
            }
            None => {
                probe("failed_tx");
                if self.faulted() {
                    if exp.fail.is_none() {
                        let a = self.after_tx(n, &exp.w);
                        md(n).alts.push(a);
                    }
                    disk::disk().clear_faults();
                    self.fault_armed = false;
                    sched::sleep_ns(300_000_000_000);
                }
                if !md(n).dirty.is_empty() {
                    probe("failed_tx_with_pending_changes");
                }
                self.audit(n, &["C10"]);
            }
        }
    }

    /// `need`: the price, if known.
    fn gas_rule(&mut self, key: String, gas: u64, oog: bool, need: Option<u64>) {
        if let (Some(need), true) = (need, gas > 0) {
            // Whether exactly the price is enough is not judged.
            if gas - 1 != need && oog != (gas - 1 < need) {
                bad(&["C14"], "gas", format!("{}: {} with limit {}, the price is {}", self.what, if oog { "out of gas" } else { "not out of gas" }, gas - 1, need));
            }
            if (gas - 1).abs_diff(need) <= 8 {
                probe("gas_near_price");
            }
        }
        // gas: 0 = no limit, otherwise limit + 1.
        let g = rm().gas.entry(key.clone()).or_default();
        if gas == 0 {
            if oog {
                bad(&["C14"], "gas", format!("{}: out of gas without a limit", self.what));
            }
            return;
        }
        if oog {
            if let Some(ok) = g.1 {
                if ok <= gas {
                    bad(&["C14"], "gas", format!("{}: out of gas with limit {} although {} was enough ({})", self.what, gas - 1, ok - 1, key));
                }
            }
            g.0 = Some(g.0.unwrap_or(0).max(gas));
            probe("out_of_gas");
        } else {
            if gas <= 2 {
                bad(&["C14"], "gas", format!("{}: succeeded with gas limit {}", self.what, gas - 1));
            }
            if let Some(no) = g.0 {
                if gas <= no {
                    bad(&["C14"], "gas", format!("{}: limit {} was enough although {} was not ({})", self.what, gas - 1, no - 1, key));
                }
            }
            g.1 = Some(g.1.unwrap_or(u64::MAX).min(gas));
        }
    }

    fn deploy(&mut self, n: usize, t: usize, gas: u64) -> Tx {
        let msg = self.prep[t].deploy.clone();
        let need = Some(svm_gas::transaction::deploy(&msg));
        let gas = near(gas, need);
        let e = self.envelope(0, gas, t as u64 * 31 + 5);
        let c = self.context(n);
        let r = self.tx(n, &e, &msg, &c, |r, e, m, c| r.deploy(e, m, c), ffi::svm_deploy);
        match &r {
            Tx::Fail(p) => {
                if !self.faulted() {
                    bad(&["C14"], "outcome", format!("{}: failed: {} ({})", self.what, p, ctx().last_panic));
                }
            }
            Tx::Rec(b) => {
                let d = DeployReceipt::decode_bytes(b).unwrap_or_else(|e| bad(&["C14"], "receipt", format!("{}: the receipt does not decode: {:?}", self.what, e)));
                let oog = matches!(d.error, Some(RuntimeError::OOG));
                if !d.success && !oog {
                    bad(&["C14"], "outcome", format!("{}: failed with {:?}", self.what, d.error));
                }
                self.gas_rule(format!("d{}", t), gas, oog, need);
                if d.success {
                    if d.addr.as_ref().map(|a| addr_key(a.as_slice())) != Some(addr_key(self.prep[t].taddr.as_slice())) {
                        bad(&["C14"], "deployed_address", format!("{}: the receipt names template {:?}", self.what, d.addr));
                    }
                    let used = d.gas_used.unwrap_or(0);
                    if gas > 0 && used > gas - 1 {
                        bad(&["C14"], "gas", format!("{}: used {} gas, the limit was {}", self.what, used, gas - 1));
                    }
                    let m = md(n);
                    let k = addr_key(self.prep[t].taddr.as_slice());
                    m.set(format!("T{}", k), "1".into());
                } else {
                    self.audit(n, &["C14", "C10"]);
                }
            }
        }
        r
    }

    fn has_tpl(&self, n: usize, t: usize) -> bool {
        md(n).latest_get(&format!("T{}", addr_key(self.prep[t].taddr.as_slice()))).is_some()
    }

    fn spawn(&mut self, n: usize, t: usize, f: &str, name: &str, args: &Args, gas: u64, pr: u64) -> Tx {
        let c = self.c.clone();
        let tpl = &c.tpl[t];
        let own = self.c.plain + t as u64;
        let k = self.key(own);
        let data = self.data(n, own, args, f);
        let ctor = f.strip_prefix('c').and_then(|x| x.parse::<usize>().ok()).filter(|i| *i < tpl.ctors.len());
        let mut exp = if !self.has_tpl(n, t) {
            Exp::fail(&["abort", "TemplateNotFound"])
        } else {
            match ctor {
                None => Exp::fail(&["FuncNotCtor"]),
                Some(_) if tpl.cyc != 0 => {
                    probe("unbounded_gas");
                    Exp::fail(&["abort"])
                }
                Some(i) => {
                    let mut w = Content::new();
                    if let Some(old) = md(n).latest_get(&format!("M{}", k)) {
                        probe("respawn");
                        if ctx().plan.property == "C11" && !old.starts_with("0|") {
                            rm().flags.insert("respawn".into());
                        }
                    }
                    w.insert(format!("A{}", k), name.to_string());
                    w.insert(format!("M{}", k), "0|0".into());
                    let mut e = execute(tpl, &tpl.ctors[i], &data, &k, true, w, &kv_latest(n));
                    e.touched.insert(self.key(pr));
                    e
                }
            }
        };
        if exp.fail.is_some() {
            exp.touched.clear();
        }
        let sp = SpawnAccount::new(0, &self.prep[t].taddr, name, f, data);
        let msg = sp.encode_to_vec();
        let need = ctor.and_then(|i| self.prep[t].prices[i]).map(|p| p + svm_gas::transaction::spawn(&msg));
        let gas = near(gas, need);
        let e = self.envelope(pr, gas, 3);
        let cx = self.context(n);
        if exp.fail.is_none() {
            let a = self.after_tx(n, &exp.w);
            md(n).inflight = vec![a];
        }
        let before = md(n).latest_get(&format!("M{}", k)).cloned();
        let r = self.tx(n, &e, &msg, &cx, |r, e, m, c| r.spawn(e, m, c), ffi::svm_spawn);
        let ok = self.judge(n, "spawn", &exp, &r, Some(k.clone()), gas != 0);
        // The limit decides before the constructor runs.
        if ctor.is_some() && tpl.cyc == 0 && self.has_tpl(n, t) && !self.faulted() {
            let oog = matches!(&r, Tx::Rec(b) if matches!(SpawnReceipt::decode_bytes(b).map(|r| r.error), Ok(Some(RuntimeError::OOG))));
            self.gas_rule(format!("s{}.{}.{}", t, f, msg.len()), gas, oog, need);
        }
        if ok.is_some() {
            probe("spawned");
            if rm().flags.remove("respawn") {
                let now = self.read(n, own).ok().flatten().map(|a| a.bal);
                bad(&["C11"], "respawn_coins", format!("{}: spawning a template again replaced its account {}, which held {:?}; its balance is now {:?}", self.what, k, before, now));
            }
        }
        rm().flags.remove("respawn");
        self.finish_tx(n, &exp, ok);
        r
    }

    fn func<'b>(&self, tpl: &'b RTpl, f: &str) -> Result<&'b [Act], &'static str> {
        if f == "svm_verify" {
            return if tpl.ri { Err("FuncInvalidSignature") } else { Ok(&tpl.verify) };
        }
        if f == "svm_alloc" {
            return Err("FuncInvalidSignature");
        }
        let i = f[1..].parse::<usize>().unwrap_or(999);
        if f.starts_with('c') && i < tpl.ctors.len() {
            return Err("FuncNotAllowed");
        }
        if f.starts_with('f') && i < tpl.funcs.len() {
            return Ok(&tpl.funcs[i]);
        }
        Err("FuncNotFound")
    }

    fn call(&mut self, n: usize, a: u64, f: &str, args: &Args, gas: u64, pr: u64) -> Tx {
        let c = self.c.clone();
        let k = self.key(a);
        let data = self.data(n, a, args, f);
        let exists = md(n).latest_get(&format!("A{}", k)).is_some();
        let exp = if !exists {
            Exp::fail(&["abort", "AccountNotFound"])
        } else {
            match self.tpl_of(a) {
                None => Exp::fail(&["FuncNotFound", "abort", "FuncInvalidSignature", "FuncNotAllowed"]),
                Some(t) => match self.func(&c.tpl[t], f) {
                    Err(e) => Exp::fail(&[e]),
                    Ok(acts) => execute(&c.tpl[t], acts, &data, &k, true, Content::new(), &kv_latest(n)),
                },
            }
        };
        // Functions of the genesis template are not modelled.
        let f = if self.tpl_of(a).is_none() { "nope" } else { f };
        let tx = Transaction {
            version: 0,
            target: self.addr(a),
            func_name: f.to_string(),
            calldata: data,
            verifydata: vec![],
        };
        let msg = tx.encode_to_vec();
        let e = self.envelope(pr, gas, 9);
        let cx = self.context(n);
        if exp.fail.is_none() {
            let h = self.after_tx(n, &exp.w);
            md(n).inflight = vec![h];
        }
        let r = self.tx(n, &e, &msg, &cx, |r, e, m, c| r.call(e, m, c), ffi::svm_call);
        let ok = self.judge(n, "call", &exp, &r, None, gas != 0);
        if ok.is_some() {
            probe("called");
            if exp.xfers > 0 {
                probe("transfer_in_contract");
            }
        }
        self.finish_tx(n, &exp, ok);
        r
    }

    fn verify(&mut self, n: usize, a: u64, args: &Args) -> Tx {
        let c = self.c.clone();
        let k = self.key(a);
        let data = self.data(n, a, args, "svm_verify");
        let exists = md(n).latest_get(&format!("A{}", k)).is_some();
        // With the signature that validation demands, what execution makes of it is not judged.
        let known = self.tpl_of(a).map_or(false, |t| !c.tpl[t].ri);
        let exp = if !exists {
            Exp::fail(&["abort", "AccountNotFound"])
        } else if let Some(t) = self.tpl_of(a) {
            execute(&c.tpl[t], &c.tpl[t].verify, &data, &k, false, Content::new(), &kv_latest(n))
        } else {
            Exp::fail(&[])
        };
        let tx = Transaction {
            version: 0,
            target: self.addr(a),
            func_name: "f0".to_string(),
            calldata: vec![],
            verifydata: data,
        };
        let msg = tx.encode_to_vec();
        let e = self.envelope(a, 0, 9);
        let cx = self.context(n);
        let r = self.tx(n, &e, &msg, &cx, |r, e, m, c| r.verify(e, m, c), ffi::svm_verify);
        if known || !exists {
            let ok = self.judge(n, "verify", &exp, &r, None, false);
            probe(if ok.is_some() { "verified" } else { "verify_refused" });
        }
        if self.faulted() {
            disk::disk().clear_faults();
            self.fault_armed = false;
            sched::sleep_ns(300_000_000_000);
        }
        self.audit(n, &["C12"]);
        r
    }

    fn simple(&mut self, n: usize, native: impl FnOnce(&mut Runtime) -> Result<(), String>, cffi: impl FnOnce(*mut c_void) -> svm_result_t) -> Result<(), String> {
        match &mut self.nodes[n] {
            Node::Closed => unreachable!(),
            Node::Native { rt, .. } => catch(|| native(rt)).and_then(|x| x),
            Node::Ffi(p) => {
                let p = *p as *mut c_void;
                call_ffi(|| cffi(p)).map(|_| ())
            }
        }
    }

    /// Judges an operation that changes `w` when it succeeds, and must (not) succeed.
    fn settle(&mut self, n: usize, r: &Result<(), String>, must: bool, w: Vec<(String, String)>, base: &[&str]) {
        let r = r.clone();
        match (&r, must) {
            (Ok(_), true) => {
                for (k, v) in w {
                    md(n).set(k, v);
                }
            }
            (Err(_), false) => {}
            (Err(_), true) if self.faulted() => probe("op_failed_under_fault"),
            (Ok(_), false) => bad(base, "outcome", format!("{}: succeeded, expected failure", self.what)),
            (Err(e), true) => bad(base, "outcome", format!("{}: failed: {} ({})", self.what, e, ctx().last_panic)),
        }
        if r.is_err() && self.faulted() {
            disk::disk().clear_faults();
            self.fault_armed = false;
            sched::sleep_ns(300_000_000_000);
        }
        self.audit(n, base);
    }

    fn bal(&self, n: usize, a: u64) -> Option<(u64, String)> {
        let k = self.key(a);
        md(n).latest_get(&format!("A{}", k))?;
        let m = md(n).latest_get(&format!("M{}", k))?;
        let (b, c) = m.split_once('|').unwrap();
        Some((b.parse().unwrap(), c.to_string()))
    }

    fn commit(&mut self, n: usize) -> Result<(), String> {
        let h = self.after_tx(n, &Content::new());
        md(n).inflight = vec![h];
        let r = self.simple(n, |r| r.commit().map_err(|e| e.to_string()), |p| unsafe { ffi::svm_commit(p) });
        let m = md(n);
        m.inflight.clear();
        match &r {
            Ok(_) => {
                m.checkpoint();
                m.commit(None);
            }
            Err(e) => {
                if !self.faulted() {
                    bad(&["C14", "C10"], "commit_failed", format!("{}: failed: {} ({})", self.what, e, ctx().last_panic));
                }
                probe("commit_failed_under_fault");
                let h = self.after_tx(n, &Content::new());
                md(n).alts.push(h);
                disk::disk().clear_faults();
                self.fault_armed = false;
                sched::sleep_ns(300_000_000_000);
            }
        }
        self.audit(n, &["C14", "C10"]);
        r
    }

    fn rewind(&mut self, n: usize, back: u64) -> Result<(), String> {
        let m = md(n);
        let len = m.layers.len() as u64;
        if len == 0 {
            return Ok(());
        }
        let l = len - 1 - back % len;
        let dirty = !m.dirty.is_empty();
        if !dirty {
            m.inflight = vec![m.layers[..l as usize + 1].to_vec()];
        }
        let mut tries = 0;
        loop {
            let r = self.simple(n, |r| r.rewind(L(l)).map_err(|e| format!("{:?}", e)), |p| unsafe { ffi::svm_rewind(p, l) });
            let m = md(n);
            match &r {
                Ok(_) if dirty => bad(&["C14"], "rewind_dirty", format!("{}: succeeded although there are uncommitted changes", self.what)),
                Ok(_) => {
                    m.inflight.clear();
                    m.rewind(l as usize);
                }
                Err(_) if dirty => {}
                Err(e) => {
                    if !self.faulted() || tries > 0 {
                        bad(&["C14"], "rewind_failed", format!("{}: failed: {} ({})", self.what, e, ctx().last_panic));
                    }
                    tries += 1;
                    disk::disk().clear_faults();
                    self.fault_armed = false;
                    sched::sleep_ns(300_000_000_000);
                    continue;
                }
            }
            self.audit(n, &["C14"]);
            return r;
        }
    }

    // --- malformed input ---------------------------------------------------------------------------------

    fn garbage(&mut self, n: usize, k: u64, cut: u64, s: u64) {
        let mut r = Rng::new(s);
        let t = r.below(self.c.tpl.len() as u64) as usize;
        let a = r.below(self.naccs());
        let args = Args { p: vec![1, 2, 3, 4], d: vec![0, 1], none: false };
        let data = self.data(n, a, &args, "f0");
        let k = k % 7;
        let mut msg = match k {
            0 | 4 => self.prep[t].deploy.clone(),
            1 | 5 => SpawnAccount::new(0, &self.prep[t].taddr, "x", "c0", data).encode_to_vec(),
            _ => Transaction { version: 0, target: self.addr(a), func_name: "f0".into(), calldata: data, verifydata: vec![1] }.encode_to_vec(),
        };
        match cut % 3 {
            0 => msg.truncate(r.below(msg.len() as u64) as usize),
            1 => msg.clear(),
            _ => {
                // Random bytes, never a valid message: the first field is a version that does not exist
                // or an impossible section count.
                let mut b = vec![0; 1 + r.below(120) as usize];
                r.fill(&mut b);
                for x in b.iter_mut().take(4) {
                    *x = 0xff;
                }
                msg = b;
            }
        }
        probe("malformed_message");
        let e = self.envelope(0, 0, 1);
        let c = self.context(n);
        let m = msg.clone();
        let failed = match k {
            0 => !rec_ok::<DeployReceipt>(self.tx(n, &e, &msg, &c, |r, e, m, c| r.deploy(e, m, c), ffi::svm_deploy), |r| r.success),
            1 => !rec_ok::<SpawnReceipt>(self.tx(n, &e, &msg, &c, |r, e, m, c| r.spawn(e, m, c), ffi::svm_spawn), |r| r.success),
            2 => !rec_ok::<CallReceipt>(self.tx(n, &e, &msg, &c, |r, e, m, c| r.call(e, m, c), ffi::svm_call), |r| r.success),
            3 => !rec_ok::<CallReceipt>(self.tx(n, &e, &msg, &c, |r, e, m, c| r.verify(e, m, c), ffi::svm_verify), |r| r.success),
            4 => self.simple(n, |r| r.validate_deploy(&m).map_err(|e| e.to_string()), |p| unsafe { ffi::svm_validate_deploy(p, msg.as_ptr(), msg.len() as u32) }).is_err(),
            5 => self.simple(n, |r| r.validate_spawn(&m).map_err(|e| e.to_string()), |p| unsafe { ffi::svm_validate_spawn(p, msg.as_ptr(), msg.len() as u32) }).is_err(),
            _ => self.simple(n, |r| r.validate_call(&m).map_err(|e| e.to_string()), |p| unsafe { ffi::svm_validate_call(p, msg.as_ptr(), msg.len() as u32) }).is_err(),
        };
        // Random bytes that are long enough may be a message.
        let sure = cut % 3 != 2 || k == 0 || k == 4 || msg.len() < 22;
        if !failed && sure {
            bad(&["C16", "C10"], "malformed_accepted", format!("{}: a malformed message was accepted: {}", self.what, hex::encode(&msg[..msg.len().min(100)])));
        }
        self.audit(n, &["C16", "C10"]);
    }

    fn validate(&mut self, n: usize, k: u64, t: usize) {
        let k = if k % 3 == 0 && (!self.c.tpl[t].ri || self.c.tpl[t].cyc != 0) { 1 } else { k };
        let (r, what) = match k % 3 {
            0 => {
                let m = self.prep[t].deploy.clone();
                let m2 = m.clone();
                (self.simple(n, move |r| r.validate_deploy(&m).map_err(|e| e.to_string()), |p| unsafe { ffi::svm_validate_deploy(p, m2.as_ptr(), m2.len() as u32) }), "deploy")
            }
            1 => {
                let m = SpawnAccount::new(0, &self.prep[t].taddr, "x", "c0", vec![1, 2, 3]).encode_to_vec();
                let m2 = m.clone();
                (self.simple(n, move |r| r.validate_spawn(&m).map_err(|e| e.to_string()), |p| unsafe { ffi::svm_validate_spawn(p, m2.as_ptr(), m2.len() as u32) }), "spawn")
            }
            _ => {
                let m = Transaction { version: 0, target: self.addr(0), func_name: "f0".into(), calldata: vec![1], verifydata: vec![1] }.encode_to_vec();
                let m2 = m.clone();
                (self.simple(n, move |r| r.validate_call(&m).map_err(|e| e.to_string()), |p| unsafe { ffi::svm_validate_call(p, m2.as_ptr(), m2.len() as u32) }), "call")
            }
        };
        if let Err(e) = r {
            bad(&["C14", "C16"], "validate", format!("{}: a valid {} message was refused: {}", self.what, what, e));
        }
    }

    /// Every entry point must refuse a handle that is not one.
    fn bad_handle(&mut self, k: u64, h: usize) {
        let p = h as *mut c_void;
        let e = self.envelope(0, 0, 1).encode_to_vec();
        let c = Context::default().encode_to_vec();
        let m = self.prep[0].deploy.clone();
        let addr = self.addr(0);
        let ap = addr.as_slice().as_ptr();
        let mut acc = ffi::svm_account::default();
        let mut hash = [0u8; 32];
        let mut l = 0u64;
        let ml = m.len() as u32;
        let r = call_ffi(|| unsafe {
            match k % 16 {
                0 => ffi::svm_runtime_destroy(p),
                1 => ffi::svm_deploy(p, e.as_ptr(), m.as_ptr(), ml, c.as_ptr()),
                2 => ffi::svm_spawn(p, e.as_ptr(), m.as_ptr(), ml, c.as_ptr()),
                3 => ffi::svm_call(p, e.as_ptr(), m.as_ptr(), ml, c.as_ptr()),
                4 => ffi::svm_verify(p, e.as_ptr(), m.as_ptr(), ml, c.as_ptr()),
                5 => ffi::svm_validate_deploy(p, m.as_ptr(), ml),
                6 => ffi::svm_validate_spawn(p, m.as_ptr(), ml),
                7 => ffi::svm_validate_call(p, m.as_ptr(), ml),
                8 => ffi::svm_commit(p),
                9 => ffi::svm_rewind(p, 0),
                10 => ffi::svm_layer_info(p, hash.as_mut_ptr(), &mut l),
                11 => ffi::svm_uncommitted_changes(p),
                12 => ffi::svm_get_account(p, ap, &mut acc),
                13 => ffi::svm_create_genesis_account(p, ap, 1, 0, 0),
                14 => ffi::svm_increase_balance(p, ap, 1),
                _ => ffi::svm_transfer(p, ap, ap, 1),
            }
        });
        probe("invalid_handle");
        if r.is_ok() {
            bad(&["C15", "C16"], "invalid_handle", format!("{}: entry point {} accepted a handle that is not valid", self.what, k % 16));
        }
        self.check_count();
    }

    /// The database and threads of a destroyed runtime must go away.
    fn check_released(&mut self, n: usize, old: usize, threads: usize, handles: i64) {
        if self.in_par {
            return;
        }
        for _ in 0..500 {
            sched::settle(100_000);
            if sched::live_background() <= threads && disk::disk().open_handles <= handles {
                break;
            }
            sched::sleep_ns(3_000_000_000);
        }
        let (t, h) = (sched::live_background(), disk::disk().open_handles);
        if h > handles {
            bad(&["C15"], "leak_files", format!("{}: {} database files of node {} are still open long after it was destroyed", self.what, h - handles, n));
        }
        if t > threads {
            bad(&["C15"], "leak_threads", format!("{}: {} threads of node {} are still there long after it was destroyed", self.what, t - threads, n));
        }
        for k in [0, 8, 10, 12, 14] {
            self.bad_handle(k + (ctx().plan.seed % 3), old);
        }
        probe("released");
    }

    pub fn exec(&mut self, op: &Op) -> Option<String> {
        let mut out = None;
        if let Some(n) = op.node() {
            let n = n as usize;
            if n >= self.nodes.len() {
                return None;
            }
            let open = !matches!(self.nodes[n], Node::Closed);
            if !open && !matches!(op, Op::Open { .. } | Op::Destroy { .. } | Op::Reopen { .. }) {
                disk::disk().clear_faults();
                if self.fault_armed {
                    self.fault_armed = false;
                    sched::sleep_ns(300_000_000_000);
                }
                if !self.open(n) {
                    bad(&["C15", "C16", "C10", "C13"], "open_failed", format!("opening node {} failed with storage working", n));
                }
            }
        }
        let sdk = match op {
            Op::Deploy { t, .. } | Op::Spawn { t, .. } => self.c.tpl.get(*t as usize).map_or(false, |t| t.sdk),
            Op::Call { a, .. } | Op::Verify { a, .. } => self.is_sdk(*a),
            _ => false,
        };
        if sdk && !self.in_par {
            rm().flags.insert("sdk".into());
        } else if !self.in_par {
            rm().flags.remove("sdk");
        }
        match op.clone() {
            Op::Open { n } | Op::Reopen { n } => {
                let n = n as usize;
                let mem = self.c.nodes[n].mem;
                if !matches!(self.nodes[n], Node::Closed) {
                    if mem || matches!(op, Op::Open { .. }) {
                        return None;
                    }
                    self.close(n);
                    probe("reopened_in_process");
                }
                self.open(n);
                if self.is_ffi(n) {
                    self.check_count();
                }
            }
            Op::Destroy { n, race } => {
                let n = n as usize;
                if let Node::Ffi(p) = self.nodes[n] {
                    if race > 1 {
                        self.race_destroy(n, p, race);
                    } else {
                        self.close(n);
                    }
                    self.check_count();
                    let (t, h) = rm_base(n);
                    // (A native node's pool lives as long as the driver's runtime.)
                    let others = self.live_ffi() > 0 || self.c.nodes.iter().any(|c| !c.ffi);
                    if !others {
                        self.check_released(n, p, t, h);
                    } else {
                        self.bad_handle(mix(p as u64, 3) % 16, p);
                    }
                    if self.c.nodes[n].mem {
                        md(n).layers.clear();
                        md(n).alts.clear();
                    } else if !self.in_par {
                        // Look at everything it left behind.
                        self.full_audit(n);
                    }
                    md(n).cp.clear();
                    md(n).dirty.clear();
                }
            }
            Op::Deploy { n, t, gas } => {
                let t = t as usize % self.c.tpl.len();
                out = Some(show(&self.deploy(n as usize, t, gas)));
            }
            Op::Spawn { n, t, f, name, args, gas, pr } => {
                let t = t as usize % self.c.tpl.len();
                out = Some(show(&self.spawn(n as usize, t, &f, &name, &args, gas, pr)));
            }
            Op::Call { n, a, f, args, gas, pr } => {
                let a = self.pick_called(n as usize, a, args.p.get(0).cloned().unwrap_or(0));
                out = Some(show(&self.call(n as usize, a, &f, &args, gas, pr)));
            }
            Op::Verify { n, a, args } => {
                let a = self.pick_called(n as usize, a, args.p.get(0).cloned().unwrap_or(0));
                out = Some(show(&self.verify(n as usize, a, &args)));
            }
            Op::Create { n, a, bal, ctr, name } => {
                let n = n as usize;
                let a = a % self.c.plain;
                let t = self.tpl_of(a);
                let addr = self.addr(a);
                let c: u128 = ctr.parse().unwrap();
                let (r, nm) = match t {
                    None => {
                        let ad = addr.clone();
                        (
                            self.simple(
                                n,
                                move |r| r.create_genesis_account(&ad, "", bal, c).map_err(|e| e.to_string()),
                                |p| unsafe { ffi::svm_create_genesis_account(p, addr.as_slice().as_ptr(), bal, (c >> 64) as u64, c as u64) },
                            ),
                            String::new(),
                        )
                    }
                    Some(t) => {
                        let ta = self.prep[t].taddr.clone();
                        let nm = name.clone();
                        (self.simple(n, move |r| r.create_account(&addr, ta, nm, bal, c).map_err(|e| e.to_string()), |_| svm_result_t::OK), name)
                    }
                };
                let must = match t {
                    None => true,
                    Some(t) => self.has_tpl(n, t),
                };
                let k = self.key(a);
                out = Some(format!("{:?}", r.is_ok()));
                self.settle(n, &r, must, vec![(format!("A{}", k), nm), (format!("M{}", k), format!("{}|{}", bal, c))], &["C14"]);
            }
            Op::Inc { n, a, x } => {
                let n = n as usize;
                let a = self.pick(n, a, x);
                let addr = self.addr(a);
                let ad = addr.clone();
                let r = self.simple(n, move |r| r.increase_balance(&ad, x).map_err(|e| e.to_string()), |p| unsafe { ffi::svm_increase_balance(p, addr.as_slice().as_ptr(), x) });
                let new = self.bal(n, a).and_then(|(b, c)| b.checked_add(x).map(|b| format!("{}|{}", b, c)));
                let k = self.key(a);
                out = Some(format!("{:?}", r.is_ok()));
                self.settle(n, &r, new.is_some(), new.into_iter().map(|v| (format!("M{}", k), v)).collect(), &["C11"]);
            }
            Op::Xfer { n, s, d, x } => {
                let n = n as usize;
                let (s, d) = (self.pick(n, s, x), self.pick(n, d, x));
                let (sa, da) = (self.addr(s), self.addr(d));
                let (sa2, da2) = (sa.clone(), da.clone());
                let r = self.simple(
                    n,
                    move |r| {
                        r.transfer(&sa2, &da2, x);
                        Ok(())
                    },
                    |p| unsafe { ffi::svm_transfer(p, sa.as_slice().as_ptr(), da.as_slice().as_ptr(), x) },
                );
                let mut w = vec![];
                let mut must = false;
                if let (Some((sb, sc)), Some((db, dc))) = (self.bal(n, s), self.bal(n, d)) {
                    if sb >= x {
                        if self.key(s) == self.key(d) {
                            must = true;
                            probe("self_transfer");
                        } else if let Some(nb) = db.checked_add(x) {
                            must = true;
                            w = vec![(format!("M{}", self.key(s)), format!("{}|{}", sb - x, sc)), (format!("M{}", self.key(d)), format!("{}|{}", nb, dc))];
                        } else {
                            probe("transfer_overflow");
                        }
                    }
                }
                out = Some(format!("{:?}", r.is_ok()));
                // A transfer to oneself may or may not count as a pending change.
                let same = must && w.is_empty();
                if same && r.is_ok() {
                    let v = md(n).latest_get(&format!("M{}", self.key(s))).unwrap().clone();
                    let gsd = match &self.nodes[n] {
                        Node::Native { rt, .. } => catch(|| rt.has_uncommitted_changes().unwrap_or(false)).unwrap_or(false),
                        Node::Ffi(p) => call_ffi(|| unsafe { ffi::svm_uncommitted_changes(*p as *mut c_void) }).is_err(),
                        Node::Closed => false,
                    };
                    if gsd && md(n).dirty.is_empty() {
                        w.push((format!("M{}", self.key(s)), v));
                    }
                }
                self.settle(n, &r, must, w, &["C11"]);
            }
            Op::Commit { n } => out = Some(format!("{:?}", self.commit(n as usize).is_ok())),
            Op::Rewind { n, back } => out = Some(format!("{:?}", self.rewind(n as usize, back).is_ok())),
            Op::BadRewind { n, ahead } => {
                let n = n as usize;
                let l = if ahead % 3 == 2 { u64::MAX - ahead } else { md(n).layers.len() as u64 + ahead };
                let r = self.simple(n, |r| r.rewind(L(l)).map_err(|e| format!("{:?}", e)), |p| unsafe { ffi::svm_rewind(p, l) });
                if r.is_ok() {
                    bad(&["C14", "C16"], "bad_rewind", format!("{}: rewinding to layer {} succeeded although it does not exist", self.what, l));
                }
                self.audit(n, &["C14", "C16"]);
            }
            Op::Info { n } => {
                self.check_info(n as usize, &["C14"]);
                out = md(n as usize).layers.last().map(|l| format!("{:?}", l.root));
            }
            Op::Dirty { n } => self.check_dirty(n as usize, &["C14"]),
            Op::Audit { n } => self.audit(n as usize, &["C10", "C11", "C12", "C14"]),
            Op::Hist { n, back } => {
                let n = n as usize;
                let len = md(n).layers.len() as u64;
                if let (Node::Native { gs, .. }, true) = (&self.nodes[n], len > 0) {
                    let gs = gs.clone();
                    self.audit_gs(n, &gs, len - 1 - back % len, &["C10", "C14"]);
                }
            }
            Op::Garbage { n, k, cut, s } => self.garbage(n as usize, k, cut, s),
            Op::Validate { n, k, t } => self.validate(n as usize, k, t as usize % self.c.tpl.len()),
            Op::BadHandle { k, n } => {
                // Null, something that was never a handle, one past a live handle.
                let x = 0u64;
                let h = match n % 3 {
                    0 => 0,
                    1 => &x as *const u64 as usize,
                    _ => match self.nodes.iter().find_map(|n| if let Node::Ffi(p) = n { Some(*p) } else { None }) {
                        Some(p) => p + 8,
                        None => 8,
                    },
                };
                self.bad_handle(k, h);
            }
            Op::BadOpen { k } => {
                let r = match k % 4 {
                    0 => Self::create_ffi(Some("sqlite:///sim/absent?mode=rw")),
                    1 => Self::create_ffi(Some("nonsense://x")),
                    2 => {
                        let b = [0x73u8, 0xff, 0xfe];
                        let mut p: *mut c_void = std::ptr::null_mut();
                        call_ffi(|| unsafe { ffi::svm_runtime_create(&mut p, b.as_ptr(), 3) }).map(|_| p as usize)
                    }
                    _ => Self::create_ffi(Some("sqlite:///sim/absent2?mode=ro")),
                };
                probe("unusable_database");
                if let Ok(_) = r {
                    bad(&["C16"], "bad_open", format!("{}: creating a runtime over an unusable database succeeded", self.what));
                }
                self.check_count();
                self.after_bad_open();
            }
            Op::Count => self.check_count(),
            Op::Idle { ms } => sched::sleep_ns(ms * 1_000_000),
            Op::Fault { k, skip, count, ms } => {
                let d = disk::disk();
                let k = disk::ALL_FAULTS[k as usize % disk::ALL_FAULTS.len()];
                if k == disk::FaultKind::NoMem {
                    // See wl_state.rs: a database in memory survives a momentary failure only.
                    let mem = self.c.nodes.iter().any(|x| x.mem);
                    d.nomem = Some((skip * 13, if mem { 1 } else { count }));
                } else {
                    d.faults.push(disk::Armed { kind: k, skip, count, ms });
                }
            }
            Op::NoThread { skip } => {
                let s = sched::sched();
                s.spawn_fail_at = s.spawned + 1 + skip;
            }
            Op::Par { th } => self.par(th),
        }
        out
    }

    /// A failed creation must not prevent later ones.
    fn after_bad_open(&mut self) {
        match Self::create_ffi(None) {
            Ok(p) => {
                if let Err(e) = call_ffi(|| ffi::svm_runtime_destroy(p as *mut c_void)) {
                    bad(&["C16", "C15"], "destroy_failed", format!("{}: destroying a fresh runtime failed: {}", self.what, e));
                }
            }
            Err(_) if self.faulted() => {}
            Err(e) => bad(&["C16", "C15"], "create_after_failure", format!("{}: after a failed creation, no runtime can be created: {}", self.what, e)),
        }
        self.check_count();
    }

    /// Opens a closed node's database natively and looks at every layer.
    fn full_audit(&mut self, n: usize) {
        // With a runtime of its own, whose end closes the database.
        let rt = Arc::new(Tokio::new().unwrap());
        let old = std::mem::replace(&mut self.rt, rt.clone());
        let u = uri(n);
        let gs = match catch(|| rt.block_on(GlobalState::new(&u, GenesisConfig::mainnet()))) {
            Ok(g) => g,
            Err(p) => {
                if self.faulted() {
                    self.rt = old;
                    return;
                }
                bad(&["C15", "C16"], "open_failed", format!("{}: the database of the destroyed node {} cannot be opened: {}", self.what, n, p))
            }
        };
        for l in 0..md(n).layers.len() as u64 {
            self.audit_gs(n, &gs, l, &["C10", "C14", "C15", "C16"]);
        }
        self.rt = old;
        let _ = catch(move || {
            drop(gs);
            drop(rt);
        });
        probe("full_audit");
    }

    fn par(&mut self, th: Vec<(u64, Vec<Op>)>) {
        probe("par");
        rm().flags.insert("multi".into());
        let mut hs = vec![];
        // Those that stay open all the time.
        let goes = |n: usize| th.iter().any(|(m, ops)| *m as usize == n && ops.iter().any(|o| matches!(o, Op::Destroy { .. } | Op::Reopen { .. })));
        let steady = (0..self.nodes.len()).filter(|n| matches!(self.nodes[*n], Node::Ffi(_)) && !goes(*n)).count() as u64;
        for (n, ops) in th {
            let n = n as usize;
            if n >= self.nodes.len() || !self.is_ffi(n) {
                continue;
            }
            let p = match self.nodes[n] {
                Node::Ffi(p) => Some(p),
                _ => None,
            };
            let (c, prep, rt) = (self.c.clone(), self.prep.clone(), self.rt.clone());
            let len = self.nodes.len();
            hs.push((
                n,
                std::thread::spawn(move || {
                    sched::set_harness(true);
                    let mut d = Drv {
                        c,
                        prep,
                        rt,
                        nodes: (0..len).map(|i| if i == n { p.map(Node::Ffi).unwrap_or(Node::Closed) } else { Node::Closed }).collect(),
                        fault_armed: false,
                        fired0: 0,
                        what: String::new(),
                        in_par: true,
                    };
                    for o in ops {
                        d.what = format!("concurrently, {:.100}", format!("{:?}", o));
                        d.exec(&o);
                    }
                    match d.nodes[n] {
                        Node::Ffi(p) => Some(p),
                        _ => None,
                    }
                }),
            ));
        }
        let all = self.c.nodes.iter().filter(|c| c.ffi).count() as u64;
        let what = self.what.clone();
        let counting = std::thread::spawn(move || {
            sched::set_harness(true);
            for i in 0..6u64 {
                match catch(|| ffi::svm_runtimes_count()) {
                    Ok(k) if k >= steady && k <= all => {}
                    r => bad(&["C15"], "count", format!("{}: the number of runtimes is {:?}, expected {} to {}", what, r, steady, all)),
                }
                sched::sleep_ns(i * i * 200_000);
            }
        });
        if counting.join().is_err() {
            bad(&["C15"], "par_panic", "counting the runtimes panicked".into());
        }
        for (n, h) in hs {
            match h.join() {
                Ok(p) => self.nodes[n] = p.map(Node::Ffi).unwrap_or(Node::Closed),
                Err(_) => bad(&["C15", "C16"], "par_panic", format!("a thread using node {} panicked: {}", n, ctx().last_panic)),
            }
        }
        self.check_count();
        for n in 0..self.nodes.len() {
            if !matches!(self.nodes[n], Node::Closed) {
                self.audit(n, &["C15", "C14"]);
            }
        }
    }
}

fn rec_ok<R: Codec>(t: Tx, f: fn(&R) -> bool) -> bool {
    match t {
        Tx::Fail(_) => false,
        Tx::Rec(b) => R::decode_bytes(&b).map(|r| f(&r)).unwrap_or(false),
    }
}

fn err_kind(e: &RuntimeError) -> &'static str {
    match e {
        RuntimeError::OOG => "OOG",
        RuntimeError::TemplateNotFound(..) => "TemplateNotFound",
        RuntimeError::AccountNotFound(..) => "AccountNotFound",
        RuntimeError::CompilationFailed { .. } => "CompilationFailed",
        RuntimeError::InstantiationFailed { .. } => "InstantiationFailed",
        RuntimeError::FuncNotFound { .. } => "FuncNotFound",
        RuntimeError::FuncFailed { .. } => "FuncFailed",
        RuntimeError::FuncNotCtor { .. } => "FuncNotCtor",
        RuntimeError::FuncNotAllowed { .. } => "FuncNotAllowed",
        RuntimeError::FuncInvalidSignature { .. } => "FuncInvalidSignature",
    }
}

fn hexes(v: &[Vec<u8>]) -> String {
    let s = format!("{:?}", v.iter().map(hex::encode).collect::<Vec<_>>());
    s.chars().take(400).collect()
}

fn show(t: &Tx) -> String {
    match t {
        Tx::Rec(b) => hex::encode(b),
        Tx::Fail(_) => "failed".into(),
    }
}

/// Threads and open files before any node existed.
static mut BASE: (usize, i64) = (0, 0);
fn rm_base(_n: usize) -> (usize, i64) {
    unsafe { BASE }
}

/// The incarnation's body.
pub fn body(prev: &Value) {
    let c: RCfg = serde_json::from_value(ctx().plan.config.clone()).unwrap();
    let nn = c.nodes.len();
    let mut m: RModel = if prev.is_null() {
        RModel {
            nodes: vec![Model::default(); nn],
            alive: vec![false; nn],
            ..RModel::default()
        }
    } else {
        serde_json::from_value(prev.clone()).unwrap()
    };
    for x in m.nodes.iter_mut() {
        x.cp.clear();
        x.dirty.clear();
        let mut f = std::mem::take(&mut x.inflight);
        x.alts.append(&mut f);
    }
    m.alive = vec![false; nn];
    if c.mirror {
        m.flags.insert("mirror".into());
    }
    if nn > 1 && !c.mirror {
        m.flags.insert("multi".into());
    }
    if ctx().plan.property == "C16" {
        m.flags.insert("contained".into());
    }
    m.flags.remove("respawn");
    let stop = m.flags.contains("stop");
    unsafe { M = Some(m) };
    if stop {
        end_epoch();
    }
    let prep: Vec<Prep> = c.tpl.iter().map(prepare).collect();
    if c.tpl.iter().zip(&prep).any(|(t, p)| t.sdk && p.prices.iter().any(|x| x.is_none())) {
        // As compiled, the contract has loops or recursion, which SVM refuses: nothing to judge.
        probe("sdk_not_admissible");
        rm().flags.insert("stop".into());
        end_epoch();
    }
    let rt = Arc::new(Tokio::new().unwrap());
    let any_ffi = c.nodes.iter().any(|n| n.ffi);
    if any_ffi {
        if let Err(e) = call_ffi(|| ffi::svm_init()) {
            bad(&["C15", "C16"], "init", format!("svm_init failed: {}", e));
        }
        // Rayon's threads (the compiler's) exist from here on, as they outlive every runtime.
        rayon::current_num_threads();
        sched::settle(100_000);
    }
    let mut d = Drv {
        c: Arc::new(c),
        prep: Arc::new(prep),
        rt,
        nodes: (0..nn).map(|_| Node::Closed).collect(),
        fault_armed: false,
        fired0: 0,
        what: String::new(),
        in_par: false,
    };
    let ops: Vec<Op> = ctx().plan.epochs[ctx().epoch]
        .ops
        .iter()
        .map(|v| serde_json::from_value(v.clone()).unwrap())
        .collect();
    unsafe { BASE = (sched::live_background(), disk::disk().open_handles) };
    if any_ffi && ops.iter().any(|o| matches!(o, Op::Destroy { .. })) {
        warm_up(&mut d);
    }
    let mirror = d.c.mirror;
    if mirror {
        align(&mut d);
    }
    let mut armed = false;
    for (i, op) in ops.iter().enumerate() {
        begin_op(i);
        d.fault_armed = armed;
        d.fired0 = fired();
        let verbose = std::env::var("SVMSIM_STDERR").is_ok();
        if verbose {
            eprintln!("OP {} {:.160} t={}", i, format!("{:?}", op), sched::sched().now);
        }
        d.what = format!("{:.140}", format!("{:?}", op));
        let stalls = disk::disk().fired[disk::FaultKind::Stall as usize];
        if mirror && op.mirrored() {
            mirrored(&mut d, op);
        } else {
            if mirror && matches!(op, Op::Reopen { .. } | Op::Destroy { .. }) {
                // Nothing pending may be lost on one side only.
                d.fault_armed = false;
                disk::disk().clear_faults();
                mirrored(&mut d, &Op::Commit { n: 0 });
            }
            d.exec(op);
        }
        if disk::disk().fired[disk::FaultKind::Stall as usize] > stalls {
            disk::disk().clear_faults();
            sched::sleep_ns(300_000_000_000);
        }
        match op {
            Op::Fault { .. } | Op::NoThread { .. } => armed = true,
            _ => {
                armed = false;
                disk::disk().clear_faults();
                sched::sched().spawn_fail_at = 0;
            }
        }
        end_op(i);
    }
    end_epoch();
}

/// Lets everything that is created once per process exist before counting: the compiler's threads.
fn warm_up(d: &mut Drv) {
    if let Ok(p) = Drv::create_ffi(None) {
        let p = p as *mut c_void;
        let e = d.envelope(0, 0, 1).encode_to_vec();
        let c = Context::default().encode_to_vec();
        let m = d.prep[0].deploy.clone();
        let _ = call_ffi(|| unsafe { ffi::svm_deploy(p, e.as_ptr(), m.as_ptr(), m.len() as u32, c.as_ptr()) });
        let m = SpawnAccount::new(0, &d.prep[0].taddr, "", "c0", vec![]).encode_to_vec();
        let _ = call_ffi(|| unsafe { ffi::svm_spawn(p, e.as_ptr(), m.as_ptr(), m.len() as u32, c.as_ptr()) });
        let _ = call_ffi(|| ffi::svm_runtime_destroy(p));
    }
    sched::settle(100_000);
    sched::sleep_ns(60_000_000_000);
    sched::settle(100_000);
    unsafe { BASE = (sched::live_background(), disk::disk().open_handles) };
}

/// After a restart, mirrored nodes may have got differently far: back to the last common layer.
fn align(d: &mut Drv) {
    d.what = "restart".into();
    let nn = d.nodes.len();
    for n in 0..nn {
        d.open(n);
    }
    let min = (0..nn).map(|n| md(n).layers.len()).min().unwrap();
    let max = (0..nn).map(|n| md(n).layers.len()).max().unwrap();
    if min == max {
        return;
    }
    probe("aligned_after_crash");
    if min == 0 {
        rm().flags.insert("stop".into());
        let c = ctx();
        c.crash = None;
        end_epoch();
    }
    for n in 0..nn {
        let len = md(n).layers.len();
        if len > min {
            let _ = d.rewind(n, (len - min) as u64);
        }
    }
}

fn set_node(op: &Op, n: u64) -> Op {
    let mut v = serde_json::to_value(op).unwrap();
    if let Some(o) = v.as_object_mut() {
        for (_, x) in o.iter_mut() {
            x["n"] = serde_json::json!(n);
        }
    }
    serde_json::from_value(v).unwrap()
}

fn mirrored(d: &mut Drv, op: &Op) {
    let nn = d.nodes.len();
    let mut outs = vec![];
    let armed = d.fault_armed;
    // The armed fault hits one of the nodes.
    let victim = op.node().unwrap_or(0) as usize % nn;
    let order: Vec<usize> = (0..nn).map(|i| (victim + i) % nn).collect();
    for n in order {
        d.fault_armed = armed && n == victim;
        d.fired0 = fired();
        let o = set_node(op, n as u64);
        let before = md(n).layers.len();
        let armed_before = d.fault_armed;
        let mut out = d.exec(&o);
        let hit = armed_before && (fired() > d.fired0);
        disk::disk().clear_faults();
        if hit && matches!(out.as_deref(), Some("failed") | Some("false")) && md(n).layers.len() == before {
            // The node met a storage error; it tries again.
            probe("mirror_retry");
            d.fault_armed = false;
            d.fired0 = fired();
            sched::sleep_ns(300_000_000_000);
            out = d.exec(&o);
        }
        outs.push((n, out));
    }
    d.fault_armed = false;
    for w in outs.windows(2) {
        if w[0].1 != w[1].1 {
            bad(&["C13"], "replicas_differ", format!("{}: node {} answers {:?}, node {} answers {:?}", d.what, w[0].0, w[0].1, w[1].0, w[1].1));
        }
    }
    for n in 1..nn {
        let (a, b) = (md(0).layers.last().and_then(|l| l.root.clone()), md(n).layers.last().and_then(|l| l.root.clone()));
        if a.is_some() && b.is_some() && a != b {
            bad(&["C13"], "replica_roots", format!("{}: the state root of node 0 is {:?}, of node {} {:?}", d.what, a, n, b));
        }
    }
}
