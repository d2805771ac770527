//! Reference model of the global state: a stack of committed layers, each a plain map, plus the
//! checkpointed and dirty overlays. Keys are logical (account fields, variables, templates).

use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};

pub type Content = BTreeMap<String, String>;

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Layer {
    pub content: Content,
    pub root: Option<String>,
    /// What this layer wrote (the last value of each key), where that is known.
    pub written: Option<Content>,
}

#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct Model {
    /// Content of the genesis layer.
    pub genesis: Content,
    /// Layers 0, 1, ...
    pub layers: Vec<Layer>,
    pub cp: Content,
    pub dirty: Content,
    /// Other committed histories the next opening may legitimately find (a crash cut an operation
    /// short, or an operation reported a storage error).
    pub alts: Vec<Vec<Layer>>,
    /// The same, for the operation in flight.
    pub inflight: Vec<Vec<Layer>>,
    /// (layer, writes of every layer so far) -> root and (layer, root) -> content without zero variables.
    pub by_content: BTreeMap<String, String>,
    pub by_root: BTreeMap<String, String>,
    /// What has happened so far (attribution of violations, probes).
    pub flags: BTreeSet<String>,
    pub opened: bool,
    /// Pending writes include some that are not known exactly (of concurrent threads).
    #[serde(default)]
    pub loose: bool,
}

impl Model {
    pub fn committed(&self) -> &Content {
        match self.layers.last() {
            Some(l) => &l.content,
            None => &self.genesis,
        }
    }
    pub fn at(&self, layer: i64) -> &Content {
        if layer < 0 {
            &self.genesis
        } else {
            &self.layers[layer as usize].content
        }
    }
    pub fn latest_get(&self, k: &str) -> Option<&String> {
        self.dirty
            .get(k)
            .or_else(|| self.cp.get(k))
            .or_else(|| self.committed().get(k))
    }
    pub fn latest(&self) -> Content {
        let mut c = self.committed().clone();
        c.extend(self.cp.clone());
        c.extend(self.dirty.clone());
        c
    }
    pub fn set(&mut self, k: String, v: String) {
        self.dirty.insert(k, v);
    }
    pub fn checkpoint(&mut self) {
        let d = std::mem::take(&mut self.dirty);
        self.cp.extend(d);
    }
    /// The history a successful commit leads to.
    pub fn after_commit(&self) -> Vec<Layer> {
        let mut c = self.committed().clone();
        c.extend(self.cp.clone());
        let mut l = self.layers.clone();
        l.push(Layer {
            content: c,
            root: None,
            written: if self.loose { None } else { Some(self.cp.clone()) },
        });
        l
    }
    pub fn commit(&mut self, root: Option<String>) {
        let mut l = self.after_commit();
        l.last_mut().unwrap().root = root;
        self.layers = l;
        self.loose = false;
        self.cp.clear();
        self.alts.clear();
        self.flags.remove("gen_unsure");
    }
    pub fn rewind(&mut self, layer: usize) {
        // A rewind that removes nothing writes nothing, so a commit that reported an error stays in
        // doubt.
        let removes = self.layers.len() > layer + 1;
        self.layers.truncate(layer + 1);
        self.loose = false;
        self.cp.clear();
        if removes {
            self.alts.clear();
        }
    }

    /// Records the root of a layer; an inconsistency with anything seen before is returned.
    pub fn learn_root(&mut self, layer: usize, root: &str) -> Result<(), String> {
        let exact = self.layers[..=layer].iter().fold(Some(String::new()), |h, l| match (h, &l.written) {
            (Some(h), Some(w)) => Some(chain(&h, w)),
            _ => None,
        });
        let norm = hash_content(&self.layers[layer].content, true);
        if let Some(r) = &self.layers[layer].root {
            if r != root {
                return Err(format!(
                    "layer {} was committed with root {} but is now reported with root {}",
                    layer, r, root
                ));
            }
        }
        if let Some(exact) = exact {
            let k = format!("{}|{}", layer, exact);
            if let Some(r) = self.by_content.get(&k) {
                if r != root {
                    return Err(format!(
                        "the same writes up to layer {} have led to root {} and now lead to root {}",
                        layer, r, root
                    ));
                }
            }
            self.by_content.insert(k, root.to_string());
        }
        let k2 = format!("{}|{}", layer, root);
        if let Some(c) = self.by_root.get(&k2) {
            if *c != norm {
                return Err(format!(
                    "two different contents at layer {} have the same root {}",
                    layer, root
                ));
            }
        }
        self.by_root.insert(k2, norm);
        self.layers[layer].root = Some(root.to_string());
        Ok(())
    }
}

fn chain(h: &str, w: &Content) -> String {
    let mut c = Content::new();
    c.insert(h.to_string(), hash_content(w, false));
    hash_content(&c, false)
}

/// A 128-bit digest of a content map. `norm`: variables that are all zero do not count (they read
/// the same as variables never written).
pub fn hash_content(c: &Content, norm: bool) -> String {
    let mut a = 0xcbf2_9ce4_8422_2325u64;
    let mut b = 0x9E37_79B9_7F4A_7C15u64;
    for (k, v) in c {
        if norm && k.starts_with('V') && v.bytes().all(|x| x == b'0') {
            continue;
        }
        for x in k.bytes().chain([0xff]).chain(v.bytes()).chain([0xfe]) {
            a = (a ^ x as u64).wrapping_mul(0x1000_0000_01b3);
            b = (b.rotate_left(9) ^ x as u64).wrapping_mul(0xD6E8_FEB8_6659_FD93);
        }
    }
    format!("{:016x}{:016x}", a, b)
}
