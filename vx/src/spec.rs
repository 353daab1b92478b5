//! Reader of the side specification files (/verif/specs/*.spec).
use std::collections::{BTreeMap, HashMap};

#[derive(Clone, Debug, Default)]
pub struct At {
    pub place: String,
    pub text: String,
}

#[derive(Clone, Debug, Default)]
pub struct FnSpec {
    pub key: String,
    pub ret: Option<String>,
    pub spec: Option<String>,
    pub loops: BTreeMap<usize, String>,
    pub loop_kinds: BTreeMap<usize, (usize, String)>,
    pub ats: Vec<At>,
    pub closures: BTreeMap<usize, String>,
    pub blocks: BTreeMap<String, String>,
    pub attrs: Vec<String>,
    pub external: bool,
    pub tail: Option<String>,
    pub names: Vec<String>,
}

#[derive(Default, Debug)]
pub struct Specs {
    pub fns: BTreeMap<String, FnSpec>,
    pub blocks: BTreeMap<String, String>, // "module|key" -> text
    pub module_items: BTreeMap<String, String>,
    pub derive: HashMap<String, String>,
    /// functions of the tree the contracts were written for
    pub base: std::collections::BTreeSet<String>,
}

impl Specs {
    pub fn load(&mut self, path: &str) {
        let t = std::fs::read_to_string(path).unwrap_or_else(|e| panic!("{path}: {e}"));
        let mut module = String::new();
        let mut cur: Option<FnSpec> = None;
        // (kind, arg, text)
        let mut sect: Option<(String, String, String)> = None;
        let mut flush = |sect: &mut Option<(String, String, String)>, cur: &mut Option<FnSpec>, me: &mut Specs, module: &str| {
            if let Some((k, a, txt)) = sect.take() {
                match k.as_str() {
                    "items" => me.module_items.entry(module.to_string()).or_default().push_str(&txt),
                    "trait" | "impl" | "item" | "attr" => {
                        me.blocks.entry(format!("{module}|{k} {a}")).or_default().push_str(&txt);
                    }
                    "spec" => cur.as_mut().unwrap().spec = Some(txt),
                    "loop" => {
                        let mut w = a.split_whitespace();
                        let n: usize = w.next().unwrap().parse().unwrap();
                        if let Some(kind) = w.next() {
                            cur.as_mut().unwrap().loop_kinds.insert(n, (n, kind.to_string()));
                        }
                        cur.as_mut().unwrap().loops.insert(n, txt);
                    }
                    "closure" => {
                        cur.as_mut().unwrap().closures.insert(a.trim().parse().unwrap(), txt);
                    }
                    "at" => cur.as_mut().unwrap().ats.push(At { place: a, text: txt }),
                    "block" => {
                        cur.as_mut().unwrap().blocks.insert(a, txt);
                    }
                    _ => panic!("unknown section @{k}"),
                }
            }
        };
        for line in t.lines() {
            if let Some(d) = line.strip_prefix('@') {
                let (k, a) = match d.split_once(char::is_whitespace) {
                    Some((k, a)) => (k.to_string(), a.trim().to_string()),
                    None => (d.trim().to_string(), String::new()),
                };
                flush(&mut sect, &mut cur, self, &module);
                match k.as_str() {
                    "module" => {
                        if let Some(f) = cur.take() {
                            self.fns.insert(f.key.clone(), f);
                        }
                        module = a;
                    }
                    "fn" => {
                        if let Some(f) = cur.take() {
                            self.fns.insert(f.key.clone(), f);
                        }
                        cur = Some(FnSpec { key: format!("{module}::{a}"), ..Default::default() });
                    }
                    "ret" => cur.as_mut().unwrap().ret = Some(a),
                    "external" => cur.as_mut().unwrap().external = true,
                    "attr!" => cur.as_mut().unwrap().attrs.push(a),
                    "tail" => cur.as_mut().unwrap().tail = Some(a),
                    "derive" => {
                        let (n, v) = a.split_once(' ').unwrap();
                        self.derive.insert(n.to_string(), v.trim().to_string());
                    }
                    "#" => {}
                    _ => sect = Some((k, a, String::new())),
                }
            } else if let Some(s) = sect.as_mut() {
                s.2.push_str(line);
                s.2.push('\n');
            }
        }
        flush(&mut sect, &mut cur, self, &module);
        if let Some(f) = cur.take() {
            self.fns.insert(f.key.clone(), f);
        }
    }

    /// names file: one line per function: id name name ...
    pub fn load_names(&mut self, path: &str) {
        if let Ok(t) = std::fs::read_to_string(path) {
            for l in t.lines() {
                let mut w = l.split('\t');
                let id = w.next().unwrap_or("").to_string();
                self.base.insert(id.clone());
                if let Some(f) = self.fns.get_mut(&id) {
                    f.names = w.filter(|s| !s.is_empty()).map(|s| s.to_string()).collect();
                }
            }
        }
    }

    pub fn find_fn(&self, full: &str) -> Option<&FnSpec> {
        if let Some(f) = self.fns.get(full) {
            return Some(f);
        }
        None
    }

    pub fn find_block(&self, key: &str, module: &str) -> Option<String> {
        self.blocks.get(&format!("{module}|{key}")).cloned()
    }

    pub fn keys_for(&self, _keep: &[String]) -> Vec<String> {
        let mut v: Vec<String> = self.fns.keys().cloned().collect();
        v.extend(self.blocks.keys().map(|k| k.split_once('|').unwrap().1.to_string()));
        v
    }
}
