//! Workload S: the global state (accounts, variables, templates, layers) driven through its public
//! API and compared with the reference model, operation by operation.

use crate::core::*;
use crate::disk;
use crate::model::*;
use crate::rng::{hash_str, mix, Rng};
use crate::sched;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::HashMap;
use std::sync::Arc;
use svm_codec::Codec;
use svm_genesis_config::GenesisConfig;
use svm_layout::{FixedLayout, Layout};
use svm_state::{AccountStorage, GlobalState, StorageError, TemplateStorage};
use svm_types::{
    Address, BytesPrimitive, CodeKind, CodeSection, CtorsSection, DataSection, DeploySection,
    GasMode, HeaderSection, Section, SectionKind, Sections, Template, TemplateAddr, TransactionId,
};
use tokio::runtime::Runtime as Tokio;

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct TplCfg {
    pub first: u32,
    pub sizes: Vec<u32>,
    pub code: u64,
    pub genesis: bool,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Cfg {
    pub mem: bool,
    pub accounts: u64,
    pub tpl: Vec<TplCfg>,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Op {
    /// Opens the database (first operation of every incarnation). `other`: with a different
    /// genesis configuration, which an initialised database must ignore.
    Open { other: bool },
    Create { a: u64, name: String, bal: u64, ctr: String },
    SetBal { a: u64, v: u64 },
    SetCtr { a: u64, v: String },
    /// `extra` bytes beyond the variable's size; `how`: bytes, i32 or i64 accessors where they fit.
    SetVar { a: u64, i: u64, b: String, extra: u64, how: u64 },
    /// Sets every variable of an account.
    Burst { a: u64, s: u64 },
    Tpl { t: u64, c: u64, n: u64 },
    SetCore { t: u64, c: u64 },
    SetNoncore { t: u64, n: u64 },
    Checkpoint,
    Rollback,
    Commit,
    /// Checkpoint, then commit.
    Seal,
    Rewind { back: u64 },
    /// Rewind to a layer that does not exist.
    BadRewind { ahead: u64 },
    /// Rewinds `back` layers and writes the same content again, in another order and grouping.
    Redo { back: u64, s: u64 },
    Read { a: u64 },
    ReadVar { a: u64, i: u64, how: u64 },
    ReadTpl { t: u64 },
    ReadAll,
    Hist { back: u64, a: u64 },
    HistTpl { back: u64, t: u64 },
    HistAll { back: u64 },
    Info,
    Dirty,
    Idle { ms: u64 },
    /// Drops the state and opens it again in the same process.
    Reopen { other: bool },
    /// Armed for the next operation only.
    Fault { k: u64, skip: u64, count: u64, ms: u64 },
    /// Concurrent handles: each thread works on its own account and reads history; optionally one
    /// more thread checkpoints and commits meanwhile.
    Par { th: Vec<Vec<Op>>, commits: u64 },
    /// Builds the whole layer history again in a fresh database and compares the roots.
    Rebuild { s: u64 },
}

pub static mut MODEL: Option<Model> = None;
pub fn model() -> &'static mut Model {
    unsafe { MODEL.as_mut().unwrap() }
}
pub fn model_json() -> Value {
    unsafe {
        match &MODEL {
            Some(m) => serde_json::to_value(m).unwrap(),
            None => Value::Null,
        }
    }
}

// --- identities and contents ---------------------------------------------------------------------

pub fn addr(a: u64) -> Address {
    // Groups of addresses share 19 leading or 19 trailing bytes.
    let mut b = [0x40 + (a / 4) as u8; 20];
    if a % 4 == 3 {
        b[0] ^= 0x80;
    } else {
        b[19] = a as u8;
    }
    Address::new(&b[..])
}

pub fn taddr(t: u64) -> TemplateAddr {
    // Template 0 shares its bytes with account 0.
    if t == 0 {
        return TemplateAddr::new(addr(0).as_slice());
    }
    let mut b = [0x20 + (t / 3) as u8; 20];
    b[19] = t as u8;
    TemplateAddr::new(&b[..])
}

fn bytes_for(seed: u64, n: usize) -> Vec<u8> {
    let mut r = Rng::new(seed);
    let mut v = vec![0; n];
    r.fill(&mut v);
    v
}

pub fn core_sections(c: &TplCfg, t: u64, variant: u64) -> Sections {
    let mut s = Sections::default();
    s.insert(Section::Code(CodeSection::new(
        CodeKind::Wasm,
        bytes_for(mix(t + 1, variant), c.code as usize),
        variant & 1,
        GasMode::Fixed,
        variant as u32,
    )));
    s.insert(Section::Data(DataSection::with_layout(Layout::Fixed(
        FixedLayout::from_byte_sizes(c.first, &c.sizes),
    ))));
    let k = variant % 4;
    s.insert(Section::Ctors(CtorsSection::new(
        (0..k).map(|i| format!("ctor_{}_{}", variant, i)).collect(),
    )));
    s
}

/// Changes one bit of the code.
fn flip_code(s: &mut Sections, at: u64) {
    let c = s.get(SectionKind::Code).as_code().clone();
    let mut b = c.code().to_vec();
    if b.is_empty() {
        b.push(at as u8);
    } else {
        let i = (at >> 3) as usize % b.len();
        b[i] ^= 1 << (at & 7);
    }
    // Replaces the section in its place.
    s.insert(Section::Code(CodeSection::new(c.kind(), b, c.flags(), c.gas_mode(), c.svm_version())));
}

pub fn noncore_sections(t: u64, variant: u64) -> Sections {
    let mut s = Sections::default();
    if variant & 1 != 0 {
        s.insert(Section::Header(HeaderSection::new(
            variant as u32,
            format!("T{}-{}", t, variant),
            "x".repeat((variant % 250) as usize),
        )));
    }
    if variant & 2 != 0 {
        s.insert(Section::Deploy(DeploySection::new(
            TransactionId::repeat(variant as u8),
            svm_types::Layer(variant),
            addr(variant % 5),
            taddr(t),
        )));
    }
    s
}

const KINDS: [SectionKind; 5] = [
    SectionKind::Header,
    SectionKind::Code,
    SectionKind::Data,
    SectionKind::Ctors,
    SectionKind::Deploy,
];

/// Sections as a list of (kind, encoding), independent of their order.
pub fn canon(s: &Sections) -> Vec<(String, String)> {
    let mut v = vec![];
    for k in KINDS {
        if let Some(x) = s.try_get(k) {
            let mut one = Sections::default();
            one.insert(x.clone());
            let e = one.encode_to_vec();
            let short = if e.len() > 64 {
                format!("{}#{:x}", e.len(), hash_str(&hex::encode(&e)))
            } else {
                hex::encode(&e)
            };
            v.push((k.to_string(), short));
        }
    }
    v
}

fn genesis_cfg(c: &Cfg, other: bool) -> GenesisConfig {
    let mut g = GenesisConfig::mainnet();
    if other {
        g.templates.clear();
        let t = TplCfg {
            first: 0,
            sizes: vec![7],
            code: 30,
            genesis: true,
        };
        let s = core_sections(&t, 77, 5);
        g.templates.insert(taddr(1), Template::from_sections(s));
        return g;
    }
    for (i, t) in c.tpl.iter().enumerate() {
        if t.genesis {
            let mut s = core_sections(t, i as u64, 0);
            for x in noncore_sections(i as u64, genesis_noncore(t)).iter() {
                s.insert(x.clone());
            }
            g.templates.insert(taddr(i as u64), Template::from_sections(s));
        }
    }
    g
}

/// Which non-core sections a genesis template has.
fn genesis_noncore(t: &TplCfg) -> u64 {
    1 + t.sizes.len() as u64 % 3
}

fn genesis_content(c: &Cfg) -> Content {
    let mut m = Content::new();
    for (i, t) in c.tpl.iter().enumerate() {
        if t.genesis {
            m.insert(format!("Tc{}", i), "0".into());
            m.insert(format!("Tn{}", i), genesis_noncore(t).to_string());
        }
    }
    m
}

// --- views -----------------------------------------------------------------------------------------

#[derive(Clone, Debug, PartialEq)]
pub struct AccView {
    pub name: String,
    pub t: String,
    pub bal: u64,
    pub ctr: u128,
    pub vars: Vec<String>,
}

/// Variants of the optional sections that are all empty are one and the same.
fn nnorm(n: u64) -> String {
    if n & 3 == 0 { 0 } else { n }.to_string()
}

fn tpl_of(c: &Cfg, a: u64) -> u64 {
    a % c.tpl.len() as u64
}

fn kv(c: &Cfg, get: &dyn Fn(&str) -> Option<String>, a: u64) -> Option<AccView> {
    let t = tpl_of(c, a);
    let name = get(&format!("A{}", a))?;
    get(&format!("Tc{}", t))?;
    get(&format!("Tn{}", t))?;
    let m = get(&format!("M{}", a)).unwrap_or("0|0".into());
    let (b, ctr) = m.split_once('|').unwrap();
    let vars = c.tpl[t as usize]
        .sizes
        .iter()
        .enumerate()
        .map(|(i, n)| {
            get(&format!("V{}.{}", a, i)).unwrap_or_else(|| "00".repeat(*n as usize))
        })
        .collect();
    Some(AccView {
        name,
        t: hex::encode(taddr(t).as_slice()),
        bal: b.parse().unwrap(),
        ctr: ctr.parse().unwrap(),
        vars,
    })
}

fn expect_acc(c: &Cfg, m: &Content, a: u64) -> Option<AccView> {
    kv(c, &|k| m.get(k).cloned(), a)
}

fn expect_tpl(c: &Cfg, m: &Content, t: u64) -> Option<Vec<(String, String)>> {
    let vc: u64 = m.get(&format!("Tc{}", t))?.parse().unwrap();
    let vn: u64 = m.get(&format!("Tn{}", t))?.parse().unwrap();
    let mut s = core_sections(&c.tpl[t as usize], t, vc);
    for x in noncore_sections(t, vn).iter() {
        s.insert(x.clone());
    }
    Some(canon(&s))
}

#[derive(Debug, Clone, PartialEq)]
pub enum Out<T> {
    Ok(T),
    Err(&'static str, String),
    Panic(String),
}

fn kind_of(e: &StorageError) -> &'static str {
    match e {
        StorageError::DirtyChanges => "dirty",
        StorageError::IllegalData { .. } => "illegal",
        StorageError::NotFound { .. } => "notfound",
        StorageError::Sqlite(_) => "sqlite",
    }
}

pub fn out<T>(r: Result<Result<T, StorageError>, String>) -> Out<T> {
    match r {
        Ok(Ok(v)) => Out::Ok(v),
        Ok(Err(e)) => Out::Err(kind_of(&e), format!("{} {:?}", e, e)),
        Err(p) => Out::Panic(p),
    }
}

fn at_layer(gs: &GlobalState, layer: Option<u64>) -> GlobalState {
    let mut g = gs.clone();
    *g.layer_query_parameter_mut() = layer.map(svm_types::Layer);
    g
}

fn read_acc(h: &tokio::runtime::Handle, c: &Cfg, gs: &GlobalState, layer: Option<u64>, a: u64) -> Out<Option<AccView>> {
    let g = at_layer(gs, layer);
    let n = c.tpl[tpl_of(c, a) as usize].sizes.len();
    let first = c.tpl[tpl_of(c, a) as usize].first;
    out(catch(|| {
        h.block_on(async {
            let acc = match AccountStorage::load(g, &addr(a)).await {
                Ok(x) => x,
                Err(StorageError::NotFound { .. }) => return Ok(None),
                Err(e) => return Err(e),
            };
            let mut vars = vec![];
            for i in 0..n {
                vars.push(hex::encode(acc.get_var_vec(first + i as u32).await?));
            }
            Ok(Some(AccView {
                name: acc.name().await?,
                t: hex::encode(acc.template_addr().await?.as_slice()),
                bal: acc.balance().await?,
                ctr: acc.counter().await?,
                vars,
            }))
        })
    }))
}

fn read_tpl(h: &tokio::runtime::Handle, gs: &GlobalState, layer: Option<u64>, t: u64) -> Out<Option<Vec<(String, String)>>> {
    let g = at_layer(gs, layer);
    out(catch(|| {
        h.block_on(async {
            match TemplateStorage::load(g, &taddr(t))?.sections().await {
                Ok(s) => Ok(Some(canon(&s))),
                Err(StorageError::NotFound { .. }) => Ok(None),
                Err(e) => Err(e),
            }
        })
    }))
}

// --- the driver ------------------------------------------------------------------------------------

pub struct Drv {
    pub c: Cfg,
    pub rt: Arc<Tokio>,
    pub gs: Option<GlobalState>,
    pub fault_armed: bool,
    pub fired0: u64,
}

fn fired() -> u64 {
    disk::disk().fired.iter().sum()
}

fn attrs(base: &[&str]) -> Vec<String> {
    let m = model();
    let mut v: Vec<String> = base.iter().map(|s| s.to_string()).collect();
    for (f, p) in [
        ("reopened", "C01"),
        ("commit_fault", "C02"),
        ("rewound", "C04"),
        ("genesis_fault", "C07"),
        ("mem", "C17"),
    ] {
        if m.flags.contains(f) {
            v.push(p.into());
        }
    }
    v
}

fn bad(base: &[&str], class: &str, msg: String) -> ! {
    let mut props = attrs(base);
    // An operation that failed on its own although an earlier fault is over: service did not resume.
    let failed = ["op_error", "commit_error", "rewind_error", "info_error", "open_failed", "op_panic", "commit_panic", "rewind_panic", "info_panic", "unusable"];
    if failed.contains(&class) && (model().flags.contains("had_fault") || fired() > 0) {
        props.push("C18".into());
    }
    violation(Violation {
        class: class.into(),
        msg,
        props,
    })
}

impl Drv {
    fn h(&self) -> tokio::runtime::Handle {
        self.rt.handle().clone()
    }
    fn gs(&self) -> &GlobalState {
        self.gs.as_ref().unwrap()
    }
    /// A fault fired during this operation.
    fn faulted(&self) -> bool {
        self.fault_armed && fired() > self.fired0
    }

    fn check_acc(&self, layer: Option<u64>, a: u64, what: &str) {
        let m = model();
        let exp = match layer {
            None => kv(&self.c, &|k| m.latest_get(k).cloned(), a),
            Some(l) => expect_acc(&self.c, m.at(l as i64), a),
        };
        match read_acc(&self.h(), &self.c, self.gs(), layer, a) {
            Out::Ok(v) => {
                if v != exp {
                    let (b, cl): (&[&str], _) = match layer {
                        None => (&["C05", "C08"], "latest_read"),
                        Some(_) => (&["C03"], "historical_read"),
                    };
                    bad(b, cl, format!("{}: account {} at {}: read {}, expected {}", what, a, lay(layer), show(&v), show(&exp)));
                }
            }
            Out::Err(k, e) => {
                if !self.faulted() {
                    bad(if layer.is_some() { &["C03"] } else { &["C05", "C08"] }, "read_error",
                        format!("{}: reading account {} at {} failed ({}): {}", what, a, lay(layer), k, e));
                }
            }
            Out::Panic(p) => bad(if layer.is_some() { &["C03", "C16"] } else { &["C05", "C08", "C16"] }, "read_panic",
                format!("{}: reading account {} at {} panicked: {}", what, a, lay(layer), p)),
        }
    }

    fn check_tpl(&self, layer: Option<u64>, t: u64, what: &str) {
        let m = model();
        let exp = match layer {
            None => expect_tpl(&self.c, &m.latest(), t),
            Some(l) => expect_tpl(&self.c, m.at(l as i64), t),
        };
        let b: &[&str] = if layer.is_some() { &["C03", "C09"] } else { &["C05", "C09"] };
        match read_tpl(&self.h(), self.gs(), layer, t) {
            Out::Ok(v) => {
                if v != exp {
                    bad(b, "template_read", format!("{}: template {} at {}: read {:?}, expected {:?}", what, t, lay(layer), v, exp));
                }
            }
            Out::Err(k, e) => {
                if !self.faulted() {
                    bad(b, "read_error", format!("{}: reading template {} at {} failed ({}): {}", what, t, lay(layer), k, e));
                }
            }
            Out::Panic(p) => bad(b, "read_panic", format!("{}: reading template {} at {} panicked: {}", what, t, lay(layer), p)),
        }
    }

    fn check_sct(&self, layer: Option<u64>) {
        // The mainnet genesis template.
        let (ta, tp) = svm_genesis_config::sct();
        let g = at_layer(self.gs(), layer);
        let r = out(catch(|| {
            self.h().block_on(async { TemplateStorage::load(g, &ta)?.sections().await.map(|s| canon(&s)) })
        }));
        match r {
            Out::Ok(v) if v == canon(tp.sections()) => {}
            Out::Err("sqlite", _) if self.faulted() => {}
            o => bad(&["C07", "C09"], "genesis_template", format!("the genesis template at {}: {:?}", lay(layer), o)),
        }
    }

    fn check_info(&self, what: &str) {
        let m = model();
        let mut g = self.gs().clone();
        let r = out(catch(|| self.h().block_on(g.current_layer())));
        if m.layers.is_empty() {
            // Only genesis: it has no layer number in this API. Anything but a number is fine.
            if let Out::Ok((l, _)) = r {
                bad(&["C05"], "layer_number", format!("{}: layer {} reported although only genesis is committed", what, l.0));
            }
            return;
        }
        match r {
            Out::Ok((l, s)) => {
                let exp = m.layers.len() as u64 - 1;
                if l.0 != exp {
                    bad(&["C05", "C06"], "layer_number", format!("{}: current layer is {}, expected {}", what, l.0, exp));
                }
                if let Err(e) = m.learn_root(exp as usize, &hex::encode(&s.0)) {
                    bad(&["C06"], "root", format!("{}: {}", what, e));
                }
            }
            Out::Err(k, e) => {
                if !self.faulted() {
                    bad(&["C05"], "info_error", format!("{}: current layer failed ({}): {}", what, k, e));
                }
            }
            Out::Panic(p) => bad(&["C05", "C16"], "info_panic", format!("{}: current layer panicked: {}", what, p)),
        }
    }

    fn audit_latest(&self, what: &str) {
        for a in 0..self.c.accounts {
            self.check_acc(None, a, what);
        }
        for t in 0..self.c.tpl.len() as u64 {
            self.check_tpl(None, t, what);
        }
        self.check_sct(None);
        self.check_info(what);
    }

    fn audit_layer(&self, l: u64, what: &str) {
        for a in 0..self.c.accounts {
            self.check_acc(Some(l), a, what);
        }
        for t in 0..self.c.tpl.len() as u64 {
            self.check_tpl(Some(l), t, what);
        }
        self.check_sct(Some(l));
    }

    fn uri(&self) -> &'static str {
        "sqlite:///sim/db?mode=rwc"
    }

    /// Opens the database and works out which of the allowed histories it holds.
    fn open(&mut self, other: bool, what: &str) -> bool {
        let c = self.c.clone();
        // After a failed first opening, the genesis may be visible but not yet durable.
        let cfg = genesis_cfg(&c, other && model().opened && !model().flags.contains("gen_unsure"));
        let rt = self.rt.clone();
        let uri = self.uri();
        let mem = c.mem;
        let r = catch(|| {
            rt.block_on(async {
                if mem {
                    GlobalState::in_memory(cfg).await
                } else {
                    GlobalState::new(uri, cfg).await
                }
            })
        });
        let gs = match r {
            Ok(g) => g,
            Err(p) => {
                if self.faulted() {
                    probe("open_failed_under_fault");
                    model().flags.insert("genesis_fault".into());
                    model().flags.remove("after_power");
                    if !model().opened {
                        model().flags.insert("gen_unsure".into());
                    }
                    return false;
                }
                bad(if model().opened { &["C01"] } else { &["C07"] }, "open_failed",
                    format!("{}: opening the database failed: {} ({})", what, p, ctx().last_panic));
            }
        };
        self.gs = Some(gs);
        let m = model();
        m.opened = true;
        if m.flags.remove("after_power") {
            m.flags.remove("gen_unsure");
        }
        m.loose = false;
        m.cp.clear();
        m.dirty.clear();
        // Which history is it?
        let mut cands = vec![m.layers.clone()];
        cands.extend(m.alts.iter().cloned());
        cands.extend(m.inflight.iter().cloned());
        let mut g = self.gs().clone();
        let r = out(catch(|| self.h().block_on(g.current_layer())));
        let n = match &r {
            Out::Ok((l, _)) => l.0 as i64,
            Out::Panic(_) if cands.iter().any(|c| c.is_empty()) => -1,
            o => {
                if self.faulted() {
                    // Not known yet: keep all candidates.
                    self.gs = None;
                    return false;
                }
                bad(&["C01"], "open_info", format!("{}: after opening, the current layer is {:?}, expected one of {:?}", what, o, cands.iter().map(|c| c.len() as i64 - 1).collect::<Vec<_>>()));
            }
        };
        let lens: Vec<i64> = cands.iter().map(|c| c.len() as i64 - 1).collect();
        let many = cands.len() > 1;
        let all = cands.clone();
        let mut fit: Vec<Vec<Layer>> = cands.into_iter().filter(|c| c.len() as i64 - 1 == n).collect();
        if fit.is_empty() {
            bad(&["C01"], "open_layer", format!("{}: after opening, the current layer is {}, expected one of {:?}", what, n, lens));
        }
        if many {
            probe(if n == lens[0] { "ambiguous_open_before" } else { "ambiguous_open_after" });
        }
        fit.dedup_by(|a, b| a.iter().map(|x| &x.content).eq(b.iter().map(|x| &x.content)));
        if fit.len() > 1 {
            // Several candidates of the same length: the content decides.
            let mut k = 0;
            for i in 0..fit.len() {
                let last = fit[i].last().map(|l| l.content.clone()).unwrap_or_else(|| m.genesis.clone());
                let ok = (0..self.c.accounts).all(|a| matches!(read_acc(&self.h(), &self.c, self.gs(), None, a), Out::Ok(v) if v == expect_acc(&self.c, &last, a)))
                    && (0..self.c.tpl.len() as u64).all(|t| matches!(read_tpl(&self.h(), self.gs(), None, t), Out::Ok(v) if v == expect_tpl(&self.c, &last, t)));
                if ok {
                    k = i;
                    break;
                }
            }
            m.layers = fit.swap_remove(k);
        } else {
            m.layers = fit.pop().unwrap();
        }
        // What was found may itself not be durable yet (a process crash left it in the operating
        // system's cache only); the next successful commit or rewind settles it.
        m.alts = all.into_iter().filter(|c| !same_history(c, &m.layers)).collect();
        m.inflight.clear();
        self.audit_latest(what);
        true
    }

    fn must_write<T>(&self, what: &str, base: &[&str], r: &Out<T>) -> bool {
        match r {
            Out::Ok(_) => true,
            Out::Err(k, e) => {
                if !self.faulted() {
                    bad(base, "op_error", format!("{} failed ({}): {}", what, k, e));
                }
                false
            }
            Out::Panic(p) => bad(base, "op_panic", format!("{} panicked: {} ({})", what, p, ctx().last_panic)),
        }
    }

    /// After a write operation failed under a fault: the client discards its dirty changes.
    fn recover_dirty(&mut self) {
        probe("write_failed_then_rollback");
        disk::disk().clear_faults();
        let mut g = self.gs().clone();
        let r = out(catch(|| self.h().block_on(g.rollback())));
        self.fault_armed = false;
        if let Out::Ok(_) = r {
            model().dirty.clear();
        } else {
            bad(&["C05"], "rollback_failed", format!("rollback failed: {:?}", r));
        }
    }

    fn write_op(&mut self, what: &str, base: &[&str], writes: Option<Vec<(String, String)>>, r: Out<()>) {
        match (&r, &writes) {
            (Out::Ok(_), Some(w)) => {
                for (k, v) in w {
                    model().set(k.clone(), v.clone());
                }
            }
            (Out::Err("notfound", _), None) => {}
            (Out::Ok(_), None) => bad(base, "op_outcome", format!("{} succeeded although the account does not exist", what)),
            (Out::Err(_, _), _) if self.faulted() => self.recover_dirty(),
            (Out::Err(k, e), _) => bad(base, "op_error", format!("{} failed ({}): {}", what, k, e)),
            (Out::Panic(p), _) => {
                if self.faulted() && !p.is_empty() {
                    bad(&["C16"], "op_panic", format!("{} panicked: {} ({})", what, p, ctx().last_panic));
                }
                bad(base, "op_panic", format!("{} panicked: {} ({})", what, p, ctx().last_panic))
            }
        }
    }

    fn latest_acc(&self, a: u64) -> Option<AccView> {
        let m = model();
        kv(&self.c, &|k| m.latest_get(k).cloned(), a)
    }

    fn tpl_present(&self, t: u64) -> bool {
        let m = model();
        m.latest_get(&format!("Tc{}", t)).is_some() && m.latest_get(&format!("Tn{}", t)).is_some()
    }

    pub fn exec(&mut self, op: &Op) {
        let h = self.h();
        let a_exists = |d: &Drv, a: u64| d.latest_acc(a).is_some();
        if self.gs.is_none() && !matches!(op, Op::Open { .. } | Op::Reopen { .. } | Op::Fault { .. } | Op::Idle { .. }) {
            // The last opening failed: open again, without faults, as an operator would.
            disk::disk().clear_faults();
            self.fault_armed = false;
            sched::sleep_ns(1_000_000);
            if !self.open(false, "reopen after a failed open") {
                bad(&["C07", "C01"], "open_failed", "opening failed again with storage working".into());
            }
        }
        match op.clone() {
            Op::Open { other } | Op::Reopen { other } => {
                if self.c.mem && model().opened {
                    return;
                }
                if { let g = self.gs.take(); let had = g.is_some(); let _ = catch(move || drop(g)); had } {
                    probe("reopen_in_process");
                    model().flags.insert("reopened".into());
                }
                self.open(other, "open");
            }
            Op::Create { a, name, bal, ctr } => {
                let g = self.gs().clone();
                let t = tpl_of(&self.c, a);
                let r = out(catch(|| h.block_on(AccountStorage::create(g, &addr(a), name.clone(), taddr(t), bal, ctr.parse().unwrap())))).map(|_| ());
                let w = if self.tpl_present(t) {
                    Some(vec![(format!("A{}", a), name), (format!("M{}", a), format!("{}|{}", bal, ctr))])
                } else {
                    None
                };
                self.write_op(&format!("create account {}", a), &["C08"], w, r);
            }
            Op::SetBal { a, v } => {
                let g = self.gs().clone();
                let r = out(catch(|| h.block_on(async { AccountStorage::load(g, &addr(a)).await?.set_balance(v).await })));
                let w = self.latest_acc(a).map(|x| vec![(format!("M{}", a), format!("{}|{}", v, x.ctr))]);
                self.write_op(&format!("set balance of {}", a), &["C08"], w, r);
            }
            Op::SetCtr { a, v } => {
                let g = self.gs().clone();
                let n: u128 = v.parse().unwrap();
                let r = out(catch(|| h.block_on(async { AccountStorage::load(g, &addr(a)).await?.set_counter(n).await })));
                let w = self.latest_acc(a).map(|x| vec![(format!("M{}", a), format!("{}|{}", x.bal, v))]);
                self.write_op(&format!("set counter of {}", a), &["C08"], w, r);
            }
            Op::SetVar { a, i, b, extra, how } => {
                let t = tpl_of(&self.c, a) as usize;
                if self.c.tpl[t].sizes.is_empty() {
                    return;
                }
                let i = i % self.c.tpl[t].sizes.len() as u64;
                let (val, buf) = var_value(&self.c, t, i, &b, extra);
                let g = self.gs().clone();
                let id = self.c.tpl[t].first + i as u32;
                let r = out(catch(|| h.block_on(set_var(g, a, id, &buf, how))));
                let w = if a_exists(self, a) { Some(vec![(format!("V{}.{}", a, i), hex::encode(&val))]) } else { None };
                self.write_op(&format!("set variable {} of {}", i, a), &["C08"], w, r);
            }
            Op::Burst { a, s } => {
                if !a_exists(self, a) {
                    return;
                }
                let t = tpl_of(&self.c, a) as usize;
                let n = self.c.tpl[t].sizes.len();
                let mut w = vec![];
                let mut r = Out::Ok(());
                for i in 0..n {
                    let val = bytes_for(mix(s, i as u64), self.c.tpl[t].sizes[i] as usize);
                    let g = self.gs().clone();
                    let id = self.c.tpl[t].first + i as u32;
                    r = out(catch(|| h.block_on(set_var(g, a, id, &val, 0))));
                    if !matches!(r, Out::Ok(_)) {
                        break;
                    }
                    w.push((format!("V{}.{}", a, i), hex::encode(&val)));
                }
                self.write_op(&format!("set variables of {}", a), &["C08"], Some(w), r);
            }
            Op::Tpl { t, c, n } => {
                let t = t % self.c.tpl.len() as u64;
                let g = self.gs().clone();
                let cs = core_sections(&self.c.tpl[t as usize], t, c);
                let ns = noncore_sections(t, n);
                let r = out(catch(|| h.block_on(TemplateStorage::create(g, &taddr(t), cs, ns)))).map(|_| ());
                let w = vec![(format!("Tc{}", t), c.to_string()), (format!("Tn{}", t), nnorm(n))];
                self.write_op(&format!("create template {}", t), &["C09"], Some(w), r);
            }
            Op::SetCore { t, c } => {
                let t = t % self.c.tpl.len() as u64;
                let g = self.gs().clone();
                let cs = core_sections(&self.c.tpl[t as usize], t, c);
                let r = out(catch(|| h.block_on(async { TemplateStorage::load(g, &taddr(t))?.set_core(&cs).await })));
                self.write_op(&format!("set core of template {}", t), &["C09"], Some(vec![(format!("Tc{}", t), c.to_string())]), r);
            }
            Op::SetNoncore { t, n } => {
                let t = t % self.c.tpl.len() as u64;
                let g = self.gs().clone();
                let ns = noncore_sections(t, n);
                let r = out(catch(|| h.block_on(async { TemplateStorage::load(g, &taddr(t))?.set_noncore(&ns).await })));
                self.write_op(&format!("set noncore of template {}", t), &["C09"], Some(vec![(format!("Tn{}", t), nnorm(n))]), r);
            }
            Op::Checkpoint => {
                self.checkpoint();
            }
            Op::Rollback => {
                let mut g = self.gs().clone();
                let r = out(catch(|| h.block_on(g.rollback())));
                if self.must_write("rollback", &["C05"], &r) {
                    model().dirty.clear();
                }
            }
            Op::Commit => self.commit(),
            Op::Seal => {
                if self.checkpoint() {
                    self.commit();
                }
            }
            Op::Rewind { back } => self.rewind(back),
            Op::BadRewind { ahead } => {
                if !model().dirty.is_empty() {
                    return;
                }
                let target = if ahead % 4 == 3 { u64::MAX - ahead } else { model().layers.len() as u64 + ahead };
                let mut g = self.gs().clone();
                let r = out(catch(|| h.block_on(g.rewind(svm_types::Layer(target)))));
                if let Out::Ok(_) = r {
                    bad(&["C04"], "bad_rewind", format!("rewinding to layer {} succeeded although it does not exist", target));
                }
                probe("bad_rewind");
                let g = self.gs().clone();
                if let Err(p) = catch(|| g.has_uncommitted_changes()) {
                    bad(&["C04", "C16"], "unusable", format!("after a refused rewind to layer {} the state is unusable: {}", target, p));
                }
            }
            Op::Redo { back, s } => self.redo(back, s),
            Op::Read { a } => {
                if a < self.c.accounts {
                    self.check_acc(None, a, "read")
                }
            }
            Op::ReadVar { a, i, how } => self.read_var(a, i, how),
            Op::ReadTpl { t } => self.check_tpl(None, t % self.c.tpl.len() as u64, "read"),
            Op::ReadAll => self.audit_latest("audit"),
            Op::Hist { back, a } => {
                if let Some(l) = self.back(back) {
                    if a < self.c.accounts {
                        self.check_acc(Some(l), a, "history");
                    }
                }
            }
            Op::HistTpl { back, t } => {
                if let Some(l) = self.back(back) {
                    self.check_tpl(Some(l), t % self.c.tpl.len() as u64, "history");
                }
            }
            Op::HistAll { back } => {
                if let Some(l) = self.back(back) {
                    self.audit_layer(l, "history audit");
                }
            }
            Op::Info => self.check_info("info"),
            Op::Dirty => {
                let g = self.gs().clone();
                match catch(|| g.has_uncommitted_changes()) {
                    Ok(d) => {
                        if d != !model().dirty.is_empty() {
                            bad(&["C05"], "dirty_query", format!("dirty changes reported: {}, expected {}", d, !d));
                        }
                    }
                    Err(p) => bad(&["C05"], "dirty_query", format!("the dirty-changes query panicked: {}", p)),
                }
            }
            Op::Idle { ms } => {
                sched::sleep_ns(ms * 1_000_000);
                probe("idle");
            }
            Op::Fault { k, skip, count, ms } => {
                model().flags.insert("had_fault".into());
                let d = disk::disk();
                let k = disk::ALL_FAULTS[k as usize % disk::ALL_FAULTS.len()];
                if k == disk::FaultKind::NoMem {
                    // A database held in memory is lost when the undoing of a failed
                    // change fails too, so there one allocation fails and the next works.
                    d.nomem = Some((skip * 13, if self.c.mem { 1 } else { count }));
                } else {
                    d.faults.push(disk::Armed { kind: k, skip, count, ms });
                }
            }
            Op::Par { th, commits } => self.par(th, commits),
            Op::Rebuild { s } => self.rebuild(s),
        }
    }

    fn back(&self, back: u64) -> Option<u64> {
        let n = model().layers.len() as u64;
        if n == 0 {
            None
        } else {
            Some(n - 1 - back % n)
        }
    }

    fn checkpoint(&mut self) -> bool {
        let h = self.h();
        let mut g = self.gs().clone();
        let r = out(catch(|| h.block_on(g.checkpoint())));
        if self.must_write("checkpoint", &["C05"], &r) {
            model().checkpoint();
            true
        } else {
            probe("checkpoint_failed");
            false
        }
    }

    fn commit(&mut self) {
        let h = self.h();
        let m = model();
        let had_dirty = !m.dirty.is_empty();
        if !had_dirty {
            m.inflight = vec![m.after_commit()];
        }
        let mut g = self.gs().clone();
        let r = out(catch(|| h.block_on(g.commit())));
        m.inflight.clear();
        match r {
            Out::Ok((l, s)) => {
                if had_dirty {
                    bad(&["C05"], "commit_dirty", "commit succeeded although there are dirty changes".into());
                }
                m.commit(None);
                let id = m.layers.len() - 1;
                if l.0 != id as u64 {
                    bad(&["C05"], "layer_number", format!("commit created layer {}, expected {}", l.0, id));
                }
                if let Err(e) = m.learn_root(id, &hex::encode(&s.0)) {
                    bad(&["C06"], "root", format!("commit: {}", e));
                }
                if m.flags.contains("commit_failed_before") {
                    probe("commit_retried");
                    m.flags.remove("commit_failed_before");
                }
            }
            Out::Err("dirty", _) if had_dirty => {
                probe("commit_refused_dirty");
            }
            Out::Err(k, e) => {
                if !self.faulted() {
                    bad(&["C02", "C05"], "commit_error", format!("commit failed ({}): {}", k, e));
                }
                probe("commit_failed_under_fault");
                let after = m.after_commit();
                m.alts.push(after);
                m.flags.insert("commit_fault".into());
                m.flags.insert("commit_failed_before".into());
            }
            Out::Panic(p) => bad(&["C02", "C05"], "commit_panic", format!("commit panicked: {} ({})", p, ctx().last_panic)),
        }
    }

    fn rewind(&mut self, back: u64) {
        let h = self.h();
        let m = model();
        let l = match self.back(back) {
            Some(l) => l,
            None => return,
        };
        let had_dirty = !m.dirty.is_empty();
        if !had_dirty {
            m.inflight = vec![m.layers[..l as usize + 1].to_vec()];
            m.flags.insert("rewound".into());
        }
        let mut tries = 0;
        loop {
            let mut g = self.gs().clone();
            let r = out(catch(|| h.block_on(g.rewind(svm_types::Layer(l)))));
            match r {
                Out::Ok(_) => {
                    if had_dirty {
                        bad(&["C04", "C05"], "rewind_dirty", "rewind succeeded although there are dirty changes".into());
                    }
                    m.inflight.clear();
                    m.rewind(l as usize);
                    if l as usize + 1 == m.layers.len() && back > 0 {
                        probe("rewind_layers");
                    }
                    return;
                }
                Out::Err("dirty", _) if had_dirty => {
                    probe("rewind_refused_dirty");
                    return;
                }
                Out::Err(k, e) => {
                    if !self.faulted() || tries > 0 {
                        bad(&["C04"], "rewind_error", format!("rewind to layer {} failed ({}): {}", l, k, e));
                    }
                    // The client tries again once storage works.
                    probe("rewind_failed_then_retried");
                    tries += 1;
                    disk::disk().clear_faults();
                    self.fault_armed = false;
                    sched::sleep_ns(300_000_000_000);
                }
                Out::Panic(p) => bad(&["C04"], "rewind_panic", format!("rewind panicked: {} ({})", p, ctx().last_panic)),
            }
        }
    }

    /// Applies `keys` of `target` to `gs`, in a seeded order, with checkpoints in between.
    fn apply_content(&self, gs: &GlobalState, keys: &[(String, String)], target: &Content, r: &mut Rng, what: &str, flip: Option<(&str, u64)>) {
        let h = self.h();
        let mut tk: Vec<&(String, String)> = keys.iter().filter(|k| k.0.starts_with('T')).collect();
        let mut ak: Vec<&(String, String)> = keys.iter().filter(|k| k.0.starts_with('A')).collect();
        let mut rest: Vec<&(String, String)> = keys.iter().filter(|k| !k.0.starts_with('T') && !k.0.starts_with('A')).collect();
        for v in [&mut tk, &mut ak, &mut rest] {
            for i in (1..v.len()).rev() {
                v.swap(i, r.below(i as u64 + 1) as usize);
            }
        }
        let created: Vec<String> = ak.iter().map(|x| x.0[1..].to_string()).collect();
        let den = r.range(1, 6);
        for (k, v) in tk.into_iter().chain(ak).chain(rest) {
            let g = gs.clone();
            let res: Out<()> = if let Some(t) = k.strip_prefix("Tc") {
                let t: u64 = t.parse().unwrap();
                let mut s = core_sections(&self.c.tpl[t as usize], t, v.parse().unwrap());
                if let Some((fk, at)) = flip {
                    if fk == k {
                        flip_code(&mut s, at);
                    }
                }
                out(catch(|| h.block_on(async { TemplateStorage::load(g, &taddr(t))?.set_core(&s).await })))
            } else if let Some(t) = k.strip_prefix("Tn") {
                let t: u64 = t.parse().unwrap();
                let s = noncore_sections(t, v.parse().unwrap());
                out(catch(|| h.block_on(async { TemplateStorage::load(g, &taddr(t))?.set_noncore(&s).await })))
            } else if let Some(a) = k.strip_prefix('A') {
                let a: u64 = a.parse().unwrap();
                let mm = &target[&format!("M{}", a)];
                let (b, c) = mm.split_once('|').unwrap();
                let t = tpl_of(&self.c, a);
                out(catch(|| h.block_on(AccountStorage::create(g, &addr(a), v.clone(), taddr(t), b.parse().unwrap(), c.parse().unwrap())))).map(|_| ())
            } else if let Some(a) = k.strip_prefix('M') {
                if created.iter().any(|x| x == a) {
                    continue;
                }
                let a: u64 = a.parse().unwrap();
                let (b, c) = v.split_once('|').unwrap();
                let (b, c): (u64, u128) = (b.parse().unwrap(), c.parse().unwrap());
                out(catch(|| {
                    h.block_on(async {
                        let mut x = AccountStorage::load(g, &addr(a)).await?;
                        x.set_counter(c).await?;
                        x.set_balance(b).await
                    })
                }))
            } else {
                let (a, i) = k[1..].split_once('.').unwrap();
                let (a, i): (u64, u64) = (a.parse().unwrap(), i.parse().unwrap());
                let id = self.c.tpl[tpl_of(&self.c, a) as usize].first + i as u32;
                let val = hex::decode(v).unwrap();
                // An intermediate value first, now and then: only the last one counts.
                if r.chance(1, 4) {
                    let junk = bytes_for(r.next(), val.len());
                    let g2 = gs.clone();
                    let _ = out(catch(|| h.block_on(set_var(g2, a, id, &junk, 0))));
                    if r.chance(1, 2) {
                        let mut g3 = gs.clone();
                        let _ = out(catch(|| h.block_on(g3.checkpoint())));
                    }
                }
                out(catch(|| h.block_on(set_var(g, a, id, &val, 0))))
            };
            if let Out::Ok(_) = res {
            } else {
                bad(&["C05", "C08"], "op_error", format!("{}: writing {} failed: {:?}", what, k, res));
            }
            if r.chance(1, den) {
                let mut g = gs.clone();
                let rr = out(catch(|| h.block_on(g.checkpoint())));
                if !matches!(rr, Out::Ok(_)) {
                    bad(&["C05"], "op_error", format!("{}: checkpoint failed: {:?}", what, rr));
                }
            }
        }
    }

    fn redo(&mut self, back: u64, s: u64) {
        let m = model();
        if !m.dirty.is_empty() || m.layers.len() < 2 || self.fault_armed {
            return;
        }
        let n = m.layers.len();
        let back = 1 + back as usize % (n - 1).min(4);
        if m.layers[n - back..].iter().any(|l| l.written.is_none()) {
            return;
        }
        let old: Vec<(Content, Content)> = m.layers[n - back..].iter().map(|l| (l.content.clone(), l.written.clone().unwrap())).collect();
        self.rewind(back as u64);
        probe("redo");
        let mut r = Rng::new(s);
        for (c, w) in old {
            let m = model();
            let diff: Vec<(String, String)> = w.into_iter().collect();
            self.apply_content(self.gs(), &diff, &c, &mut r, "redo", None);
            for (k, v) in diff {
                m.set(k, v);
            }
            self.checkpoint();
            self.commit();
        }
    }

    fn rebuild(&mut self, s: u64) {
        let m = model();
        if m.layers.is_empty() || self.fault_armed || m.layers.iter().any(|l| l.root.is_none() || l.written.is_none()) {
            return;
        }
        probe("rebuild");
        let rt = self.rt.clone();
        let cfg = genesis_cfg(&self.c, false);
        let gs = match catch(|| rt.block_on(GlobalState::new("sqlite:///sim/rebuild?mode=rwc", cfg))) {
            Ok(g) => g,
            Err(p) => bad(&["C07"], "open_failed", format!("opening a fresh database failed: {}", p)),
        };
        let mut r = Rng::new(s);
        for (i, l) in m.layers.iter().enumerate() {
            let diff: Vec<(String, String)> = l.written.clone().unwrap().into_iter().collect();
            self.apply_content(&gs, &diff, &l.content, &mut r, "rebuild", None);
            let mut g = gs.clone();
            let h = self.h();
            let res = out(catch(|| h.block_on(async { g.checkpoint().await?; g.commit().await })));
            match res {
                Out::Ok((_, st)) => {
                    let root = hex::encode(&st.0);
                    if Some(&root) != l.root.as_ref() {
                        bad(&["C06"], "root", format!("rebuilding the same content in a fresh database gives root {} at layer {}, not {}", root, i, l.root.as_ref().unwrap()));
                    }
                }
                o => bad(&["C06", "C05"], "op_error", format!("rebuild: commit failed: {:?}", o)),
            }
        }
        drop(gs);
        for i in 0..4 {
            self.twin(i, &mut r);
        }
    }

    /// A history that differs in one value must have a different root.
    fn twin(&mut self, n: u64, r: &mut Rng) {
        let m = model();
        let j = r.below(m.layers.len() as u64) as usize;
        let mut keys: Vec<(String, String)> = m.layers[j].written.clone().unwrap().into_iter().collect();
        let mut content = m.layers[j].content.clone();
        if keys.is_empty() {
            return;
        }
        let at = r.next();
        let i = match r.below(3) {
            // Templates are few and large.
            0 => keys.iter().position(|k| k.0.starts_with("Tc")).unwrap_or(0),
            _ => r.below(keys.len() as u64) as usize,
        };
        let mut flip = None;
        let (k, v) = keys[i].clone();
        let kind = k.chars().next().unwrap();
        // Another key of the same kind with another value, to swap the two.
        let other = (0..keys.len()).find(|x| {
            let (k2, v2) = &keys[*x];
            k2.starts_with(kind) && *v2 != v && kind != 'T' && kind != 'A' && (kind != 'V' || v2.len() == v.len())
        });
        let created = |k: &str| k.starts_with('M') && keys.iter().any(|x| x.0 == format!("A{}", &k[1..]));
        let desc;
        match (r.below(3), other) {
            (0, Some(x)) if !created(&k) && !created(&keys[x].0) => {
                desc = format!("exchanging the values of {} and {}", k, keys[x].0);
                let v2 = keys[x].1.clone();
                keys[x].1 = v.clone();
                keys[i].1 = v2;
                probe("twin_swap");
            }
            (1, _) if kind == 'V' && v.len() > 0 && j > 0 && m.layers[j - 1].content.get(&k).map(|p| *p != v).unwrap_or(v.bytes().any(|b| b != b'0')) => {
                // A value that is not written. The account may be created in this layer.
                desc = format!("not writing {}", k);
                keys.remove(i);
                probe("twin_omit");
            }
            _ => {
                desc = format!("another value of {} (bit {})", k, at);
                match kind {
                    'V' => {
                        let mut b = hex::decode(&v).unwrap();
                        if b.is_empty() {
                            return;
                        }
                        let n = b.len();
                        b[(at >> 3) as usize % n] ^= 1 << (at & 7);
                        keys[i].1 = hex::encode(b);
                    }
                    'M' => {
                        let (b, c) = v.split_once('|').unwrap();
                        let (mut b, mut c): (u64, u128) = (b.parse().unwrap(), c.parse().unwrap());
                        match at % 192 {
                            x if x < 64 => b ^= 1 << x,
                            x => c ^= 1 << (x - 64),
                        }
                        keys[i].1 = format!("{}|{}", b, c);
                        content.insert(k.clone(), keys[i].1.clone());
                    }
                    'A' => {
                        let mut n: Vec<char> = v.chars().collect();
                        match n.last_mut() {
                            _ if at % 4 == 0 && v.len() < 250 => n.push('\0'),
                            _ if at % 4 == 1 && !v.is_empty() => drop(n.pop()),
                            Some(c) if *c == 'x' => *c = 'y',
                            Some(c) if c.is_ascii() => *c = 'x',
                            _ => return,
                        }
                        keys[i].1 = n.into_iter().collect();
                    }
                    _ if k.starts_with("Tc") => flip = Some((k.clone(), at)),
                    _ => keys[i].1 = (v.parse::<u64>().unwrap() ^ 4 ^ 3).to_string(),
                }
                probe(&format!("twin_{}", kind));
            }
        }
        let rt = self.rt.clone();
        let cfg = genesis_cfg(&self.c, false);
        let db = format!("sqlite:///sim/twin{}?mode=rwc", n);
        let gs = match catch(|| rt.block_on(GlobalState::new(&db, cfg))) {
            Ok(g) => g,
            Err(p) => bad(&["C07"], "open_failed", format!("opening a fresh database failed: {}", p)),
        };
        for x in 0..=j {
            if x < j {
                let d: Vec<(String, String)> = m.layers[x].written.clone().unwrap().into_iter().collect();
                self.apply_content(&gs, &d, &m.layers[x].content, r, "twin", None);
            } else {
                self.apply_content(&gs, &keys, &content, r, "twin", flip.as_ref().map(|f| (f.0.as_str(), f.1)));
            }
            let mut g = gs.clone();
            let h = self.h();
            let res = out(catch(|| h.block_on(async { g.checkpoint().await?; g.commit().await })));
            match res {
                Out::Ok((_, st)) => {
                    if x == j && Some(&hex::encode(&st.0)) == m.layers[j].root.as_ref() {
                        bad(&["C06"], "root_binding", format!("{} in layer {} gives the same root {}", desc, j, hex::encode(&st.0)));
                    }
                }
                o => bad(&["C06", "C05"], "op_error", format!("twin: commit failed: {:?}", o)),
            }
        }
    }

    fn read_var(&self, a: u64, i: u64, how: u64) {
        let t = tpl_of(&self.c, a) as usize;
        if a >= self.c.accounts || self.c.tpl[t].sizes.is_empty() {
            return;
        }
        let i = i as usize % self.c.tpl[t].sizes.len();
        let exp = match self.latest_acc(a) {
            Some(v) => v.vars[i].clone(),
            None => return,
        };
        let n = self.c.tpl[t].sizes[i] as usize;
        let id = self.c.tpl[t].first + i as u32;
        let g = self.gs().clone();
        let h = self.h();
        let r = out(catch(|| {
            h.block_on(async {
                let acc = AccountStorage::load(g, &addr(a)).await?;
                match (how % 3, n) {
                    (1, 8) => Ok(hex::encode(acc.get_var_i64(id).await?.to_le_bytes())),
                    (1, 4) => Ok(hex::encode(acc.get_var_i32(id).await?.to_le_bytes())),
                    (2, _) if n <= 200 => {
                        let b: [u8; 200] = acc.get_var_array(id).await?;
                        // Bytes beyond the variable stay untouched.
                        if b[n..].iter().any(|x| *x != 0) {
                            return Ok(format!("{} (bytes beyond the variable changed)", hex::encode(&b[..n])));
                        }
                        Ok(hex::encode(&b[..n]))
                    }
                    _ => Ok(hex::encode(acc.get_var_vec(id).await?)),
                }
            })
        }));
        match r {
            Out::Ok(v) if v == exp => {}
            Out::Err(..) if self.faulted() => {}
            o => bad(&["C05", "C08"], "latest_read", format!("variable {} of account {}: read {:?}, expected {}", i, a, o, exp)),
        }
    }

    // --- concurrency -----------------------------------------------------------------------------

    fn par(&mut self, th: Vec<Vec<Op>>, commits: u64) {
        probe("par");
        let m = model();
        let slow = self.fault_armed;
        let layers: Arc<Vec<Layer>> = Arc::new(m.layers.clone());
        let mut handles = vec![];
        let n0 = m.layers.len();
        for (ti, ops) in th.into_iter().enumerate() {
            let a = ti as u64; // the account this thread owns
            if a >= self.c.accounts {
                continue;
            }
            let c = self.c.clone();
            let g = self.gs().clone();
            let h = self.h();
            let start = {
                let t = tpl_of(&c, a);
                let mut o = Content::new();
                for k in [format!("A{}", a), format!("M{}", a), format!("Tc{}", t), format!("Tn{}", t)] {
                    if let Some(v) = m.latest_get(&k) {
                        o.insert(k, v.clone());
                    }
                }
                for i in 0..c.tpl[t as usize].sizes.len() {
                    let k = format!("V{}.{}", a, i);
                    if let Some(v) = m.latest_get(&k) {
                        o.insert(k, v.clone());
                    }
                }
                o
            };
            let layers = layers.clone();
            handles.push((a, std::thread::spawn(move || par_thread(c, h, g, a, ops, start, layers, commits > 0))));
        }
        let committer = if commits > 0 && m.dirty.is_empty() {
            let g = self.gs().clone();
            let h = self.h();
            Some(std::thread::spawn(move || {
                let mut done = vec![];
                let mut err = None;
                for _ in 0..commits {
                    let mut g1 = g.clone();
                    if let Out::Err(k, e) = out(catch(|| h.block_on(g1.checkpoint()))) {
                        err = Some(format!("checkpoint failed ({}): {}", k, e));
                    }
                    sched::yield_point("par");
                    let mut g1 = g.clone();
                    match out(catch(|| h.block_on(g1.commit()))) {
                        Out::Ok((l, s)) => done.push((l.0, hex::encode(&s.0))),
                        Out::Err("dirty", _) => {}
                        o => err = Some(format!("commit: {:?}", o)),
                    }
                }
                (done, err)
            }))
        } else {
            None
        };
        let mut finals = vec![];
        for (a, j) in handles {
            match j.join() {
                Ok(Ok(states)) => finals.push((a, states)),
                Ok(Err(ParErr { hist, msg })) => {
                    if slow && msg.contains("sqlite") {
                        // Errors caused by the injected stall: the client gives up its dirty changes.
                        finals.push((a, vec![]));
                        continue;
                    }
                    bad(if hist { &["C03", "C18"] } else { &["C08", "C18"] }, if hist { "par_history" } else { "par_read" }, msg)
                }
                Err(_) => bad(&["C08", "C16", "C18"], "par_panic", format!("a thread panicked: {}", ctx().last_panic)),
            }
        }
        let (done, cerr) = match committer {
            Some(j) => j.join().unwrap_or_else(|_| bad(&["C02", "C16", "C18"], "par_panic", format!("the committing thread panicked: {}", ctx().last_panic))),
            None => (vec![], None),
        };
        let cfailed = cerr.is_some();
        if let Some(e) = cerr {
            if !slow {
                bad(&["C02", "C05", "C18"], "par_commit", format!("while other threads were writing: {}", e));
            }
        }
        if slow {
            disk::disk().clear_faults();
            self.fault_armed = false;
            sched::sleep_ns(300_000_000_000);
        }
        // Layers committed meanwhile: each account must be in one of the states it went through.
        for (k, (l, root)) in done.iter().enumerate() {
            if *l != (n0 + k) as u64 {
                bad(&["C05"], "layer_number", format!("concurrent commit created layer {}, expected {}", l, n0 + k));
            }
            let mut content = m.committed().clone();
            content.extend(m.cp.clone());
            for (a, states) in finals.iter_mut() {
                if states.is_empty() {
                    continue;
                }
                let v = read_acc(&self.h(), &self.c, self.gs(), Some(*l), *a);
                let c = &self.c;
                let fit = states.iter().position(|s| matches!(&v, Out::Ok(x) if *x == expect_acc(c, s, *a)));
                match fit {
                    Some(i) => {
                        // Variables untouched in this state keep what was there before.
                        content.extend(states[i].iter().map(|(k, v)| (k.clone(), v.clone())));
                        states.drain(..i);
                    }
                    None => bad(&["C02", "C05", "C08"], "par_layer", format!("layer {} committed concurrently holds a state account {} never was in: {:?}", l, a, v)),
                }
            }
            m.layers.push(Layer { content, root: None, written: None });
            m.cp.clear();
            m.alts.clear();
            let id = m.layers.len() - 1;
            if let Err(e) = m.learn_root(id, root) {
                bad(&["C06"], "root", format!("concurrent commit: {}", e));
            }
            probe("par_commit");
        }
        // What the threads wrote last is pending now.
        m.loose = true;
        let mut failed = false;
        for (_, states) in finals {
            match states.last() {
                Some(s) => {
                    for (k, v) in s {
                        if m.latest_get(k) != Some(v) {
                            m.dirty.insert(k.clone(), v.clone());
                        }
                    }
                }
                None => failed = true,
            }
        }
        if failed {
            // Unknown which writes of a failed thread took effect.
            m.flags.insert("par_failed".into());
        }
        if failed && !done.is_empty() || cfailed {
            // ... and layers were committed meanwhile, or a commit may have taken effect: nothing can
            // be said about them in later incarnations either.
            m.flags.insert("stop".into());
        }
        if failed || cfailed {
            end_quietly();
        }
        if slow && !m.dirty.is_empty() && self.gs().has_uncommitted_changes() {}
        let mut g = self.gs().clone();
        let h = self.h();
        let r = out(catch(|| h.block_on(g.checkpoint())));
        if self.must_write("checkpoint after concurrent writes", &["C05", "C18"], &r) {
            m.checkpoint();
        }
    }
}

/// Ends the incarnation without judging further (used only where the outcome of injected stalls
/// is legitimately unknown).
fn end_quietly() -> ! {
    probe("ended_early");
    end_epoch()
}

pub fn same_history(a: &[Layer], b: &[Layer]) -> bool {
    a.len() == b.len() && a.iter().map(|x| &x.content).eq(b.iter().map(|x| &x.content))
}

pub struct ParErr {
    pub hist: bool,
    pub msg: String,
}

fn par_thread(c: Cfg, h: tokio::runtime::Handle, g: GlobalState, a: u64, ops: Vec<Op>, start: Content, layers: Arc<Vec<Layer>>, committing: bool) -> Result<Vec<Content>, ParErr> {
    let mut cur = start;
    let mut states = vec![cur.clone()];
    let e = |hist, msg: String| Err(ParErr { hist, msg });
    for op in ops {
        let exists = expect_acc(&c, &cur, a).is_some();
        let t = tpl_of(&c, a) as usize;
        let (mb, mc) = {
            let x = cur.get(&format!("M{}", a)).cloned().unwrap_or("0|0".into());
            let (b, k) = x.split_once('|').unwrap();
            (b.to_string(), k.to_string())
        };
        let gg = g.clone();
        match op {
            Op::SetBal { v, .. } if exists => {
                let r = out(catch(|| h.block_on(async { AccountStorage::load(gg, &addr(a)).await?.set_balance(v).await })));
                if !matches!(r, Out::Ok(_)) {
                    return e(false, format!("set balance of {} failed: {:?}", a, r));
                }
                cur.insert(format!("M{}", a), format!("{}|{}", v, mc));
                states.push(cur.clone());
            }
            Op::SetCtr { v, .. } if exists => {
                let n: u128 = v.parse().unwrap();
                let r = out(catch(|| h.block_on(async { AccountStorage::load(gg, &addr(a)).await?.set_counter(n).await })));
                if !matches!(r, Out::Ok(_)) {
                    return e(false, format!("set counter of {} failed: {:?}", a, r));
                }
                cur.insert(format!("M{}", a), format!("{}|{}", mb, v));
                states.push(cur.clone());
            }
            Op::SetVar { i, b, extra, how, .. } if exists && !c.tpl[t].sizes.is_empty() => {
                let i = i % c.tpl[t].sizes.len() as u64;
                let off: u32 = c.tpl[t].sizes[..i as usize].iter().sum();
                let sz = c.tpl[t].sizes[i as usize];
                // While somebody commits concurrently, only writes that are atomic by construction.
                if committing && off / 32 != (off + sz - 1) / 32 {
                    continue;
                }
                let (val, buf) = var_value(&c, t, i, &b, extra);
                let id = c.tpl[t].first + i as u32;
                let r = out(catch(|| h.block_on(set_var(gg, a, id, &buf, how))));
                if !matches!(r, Out::Ok(_)) {
                    return e(false, format!("set variable {} of {} failed: {:?}", i, a, r));
                }
                cur.insert(format!("V{}.{}", a, i), hex::encode(&val));
                states.push(cur.clone());
            }
            Op::Read { .. } => {
                let v = read_acc(&h, &c, &g, None, a);
                if !matches!(&v, Out::Ok(x) if *x == expect_acc(&c, &cur, a)) {
                    return e(false, format!("account {}, written only by this thread: read {:?}, expected {}", a, v, show(&expect_acc(&c, &cur, a))));
                }
            }
            Op::Hist { back, a: b } => {
                if layers.is_empty() || b >= c.accounts {
                    continue;
                }
                let l = layers.len() as u64 - 1 - back % layers.len() as u64;
                let v = read_acc(&h, &c, &g, Some(l), b);
                let x = expect_acc(&c, &layers[l as usize].content, b);
                if !matches!(&v, Out::Ok(y) if *y == x) {
                    return e(true, format!("account {} at layer {}, read concurrently: {:?}, expected {}", b, l, v, show(&x)));
                }
            }
            Op::HistTpl { back, t } => {
                if layers.is_empty() {
                    continue;
                }
                let l = layers.len() as u64 - 1 - back % layers.len() as u64;
                let t = t % c.tpl.len() as u64;
                let v = read_tpl(&h, &g, Some(l), t);
                let x = expect_tpl(&c, &layers[l as usize].content, t);
                if !matches!(&v, Out::Ok(y) if *y == x) {
                    return e(true, format!("template {} at layer {}, read concurrently: {:?}, expected {:?}", t, l, v, x));
                }
            }
            _ => {
                let _ = g.has_uncommitted_changes();
            }
        }
    }
    Ok(states)
}

fn var_value(c: &Cfg, t: usize, i: u64, b: &str, extra: u64) -> (Vec<u8>, Vec<u8>) {
    let n = c.tpl[t].sizes[i as usize] as usize;
    let mut v = match b {
        "0" => vec![0; n],
        "f" => vec![0xff; n],
        s => bytes_for(hash_str(s), n),
    };
    let val = v.clone();
    v.extend(bytes_for(extra, (extra % 9) as usize));
    (val, v)
}

async fn set_var(g: GlobalState, a: u64, id: u32, buf: &[u8], how: u64) -> Result<(), StorageError> {
    let mut acc = AccountStorage::load(g, &addr(a)).await?;
    match (how % 2, buf.len()) {
        (1, 8) => acc.set_var_i64(id, i64::from_le_bytes(buf.try_into().unwrap())).await,
        (1, 4) => acc.set_var_i32(id, i32::from_le_bytes(buf.try_into().unwrap())).await,
        _ => acc.set_var_bytes(id, buf).await,
    }
}

impl<T> Out<T> {
    pub fn map<U>(self, f: impl FnOnce(T) -> U) -> Out<U> {
        match self {
            Out::Ok(x) => Out::Ok(f(x)),
            Out::Err(k, e) => Out::Err(k, e),
            Out::Panic(p) => Out::Panic(p),
        }
    }
}

fn lay(l: Option<u64>) -> String {
    match l {
        None => "latest".into(),
        Some(l) => format!("layer {}", l),
    }
}

fn show(v: &Option<AccView>) -> String {
    let s = format!("{:?}", v);
    if s.len() > 600 {
        format!("{}...", &s[..600])
    } else {
        s
    }
}

/// The incarnation's body.
pub fn body(prev: &Value) {
    let c: Cfg = serde_json::from_value(ctx().plan.config.clone()).unwrap();
    let mut m: Model = if prev.is_null() {
        Model {
            genesis: genesis_content(&c),
            ..Model::default()
        }
    } else {
        serde_json::from_value(prev.clone()).unwrap()
    };
    if ctx().epoch > 0 {
        m.flags.insert("reopened".into());
        if !m.opened {
            m.flags.insert("genesis_fault".into());
            m.flags.insert("gen_unsure".into());
        }
        if ctx().plan.epochs[ctx().epoch - 1].end == End::Power {
            m.flags.insert("after_power".into());
        } else {
            m.flags.remove("after_power");
        }
        if !m.inflight.is_empty() {
            m.flags.insert("commit_fault".into());
            let mut f = std::mem::take(&mut m.inflight);
            m.alts.append(&mut f);
        }
    }
    if c.mem {
        m.flags.insert("mem".into());
    }
    m.cp.clear();
    m.dirty.clear();
    let stop = m.flags.contains("stop");
    unsafe { MODEL = Some(m) };
    if stop {
        end_quietly();
    }
    let rt = Arc::new(Tokio::new().unwrap());
    let mut d = Drv {
        c,
        rt,
        gs: None,
        fault_armed: false,
        fired0: 0,
    };
    let ops: Vec<Op> = ctx().plan.epochs[ctx().epoch]
        .ops
        .iter()
        .map(|v| serde_json::from_value(v.clone()).unwrap())
        .collect();
    let mut armed = false;
    for (i, op) in ops.iter().enumerate() {
        begin_op(i);
        d.fault_armed = armed;
        d.fired0 = fired();
        let stalls = disk::disk().fired[disk::FaultKind::Stall as usize];
        if std::env::var("SVMSIM_STDERR").is_ok() { eprintln!("OP {} {:.80} t={}", i, format!("{:?}", op), sched::sched().now); }
        d.exec(op);
        if std::env::var("SVMSIM_STDERR").is_ok() { eprintln!("  -> fired {}", fired() - d.fired0); }
        if disk::disk().fired[disk::FaultKind::Stall as usize] > stalls && !matches!(op, Op::Fault { .. }) {
            // The stall may still be going on in the background; judge again when it is over.
            disk::disk().clear_faults();
            sched::sleep_ns(300_000_000_000);
        }
        if let Op::Fault { .. } = op {
            armed = true;
        } else {
            armed = false;
            disk::disk().clear_faults();
        }
        end_op(i);
    }
    end_epoch();
}

pub type Unused = HashMap<u8, u8>;
