//! Unit files: contracts and lemmas (kept in /verif) plus the list of items to extract.
use crate::die;
use std::collections::BTreeMap;

#[derive(Clone, Debug, Default)]
pub struct FnSpec {
    pub name: String,
    pub ret: Option<String>,
    pub mutself: bool,
    pub flags: Vec<String>,
    pub attrs: String,
    pub spec: String,
    /// "loop 0", "loopstart 0", "loopend 0", "beforeloop 0", "afterloop 0", "start", "tail", "closure 0", "before x#0", "after x#0"
    pub parts: BTreeMap<String, String>,
    pub locals: Vec<String>,
    pub params: BTreeMap<String, String>,
    pub addparams: Vec<(String, String)>,
}
#[derive(Clone, Debug)]
pub enum Segment {
    Raw(String),
    Extract { file: String, what: Vec<String>, opts: Vec<String> },
}
#[derive(Clone, Debug, Default)]
pub struct Unit {
    pub segments: Vec<Segment>,
    pub fns: BTreeMap<String, FnSpec>,
    pub types: Vec<(String, String)>,
    pub methods: BTreeMap<String, String>,
    pub calls: BTreeMap<String, String>,
    pub exprs: Vec<(String, String)>,
    pub uses: Vec<String>,
    pub broadcasts: Vec<String>,
    pub crate_attrs: Vec<String>,
    pub drop_fields: Vec<String>,
    /// files whose string constants may be named from any extracted file
    pub const_files: Vec<String>,
    pub statics: Vec<(String, String, String)>,
    pub included: Vec<String>,
    pub idents: BTreeMap<String, String>,
    /// `METHOD/ARITY` -> expressions appended to every call of that name and number of arguments (recorders of effects)
    pub ghostargs: BTreeMap<(String, usize), Vec<String>>,
    /// `Type::fn NAME cap: Type, ...`: the first closure without parameters in `fn` becomes the function NAME over its captures
    pub retain_loop: bool,
    pub lifts: Vec<(String, String, String, Vec<(String, String)>)>,
}

impl Unit {
    pub fn load(path: &str, shim: &str) -> Unit {
        let mut u = Unit::default();
        u.parse(path, shim);
        u
    }
    fn parse(&mut self, path: &str, shim: &str) {
        let text = std::fs::read_to_string(path).unwrap_or_else(|e| die("UNIT", &format!("{}: {}", path, e)));
        let mut raw = String::new();
        let mut cur: Option<FnSpec> = None;
        let mut part: String = String::new();
        macro_rules! flush {
            () => {
                if !raw.is_empty() {
                    self.segments.push(Segment::Raw(std::mem::take(&mut raw)));
                }
            };
        }
        for line in text.lines() {
            let t = line.trim_start();
            if let Some(d) = t.strip_prefix("//@") {
                let d = d.trim();
                let mut w = d.split_whitespace();
                let cmd = w.next().unwrap_or("");
                let rest: Vec<String> = w.map(|s| s.to_string()).collect();
                let tail = d[cmd.len()..].trim().to_string();
                if let Some(f) = cur.as_mut() {
                    match cmd {
                        "end" => {
                            let f = cur.take().unwrap();
                            if self.fns.insert(f.name.clone(), f.clone()).is_some() {
                                die("UNIT", &format!("two contracts for {}", f.name));
                            }
                        },
                        "locals" => f.locals = rest,
                        "attr" => {
                            f.attrs.push_str(&tail);
                            f.attrs.push('\n');
                        },
                        "param" => {
                            let (a, b) = tail.split_once(':').unwrap_or_else(|| die("UNIT", line));
                            f.params.insert(a.trim().into(), b.trim().into());
                        },
                        "addparam" => {
                            let (a, b) = tail.split_once(':').unwrap_or_else(|| die("UNIT", line));
                            f.addparams.push((a.trim().into(), b.trim().into()));
                        },
                        _ => part = std::iter::once(cmd.to_string()).chain(rest).collect::<Vec<_>>().join(" "),
                    }
                    continue;
                }
                match cmd {
                    "include" => {
                        flush!();
                        for r in rest {
                            if !self.included.contains(&r) {
                                self.included.push(r.clone());
                                let p = format!("{}/{}", shim, r);
                                self.parse(&p, shim);
                            }
                        }
                    },
                    "extract" => {
                        flush!();
                        let file = rest.first().cloned().unwrap_or_else(|| die("UNIT", line));
                        let mut opts = vec![];
                        let mut what = vec![];
                        for r in &rest[1..] {
                            if let Some(o) = r.strip_prefix('+') {
                                opts.push(o.to_string())
                            } else {
                                what.push(r.clone())
                            }
                        }
                        self.segments.push(Segment::Extract { file, what, opts });
                    },
                    "fn" => {
                        let mut f = FnSpec { name: rest[0].clone(), ..Default::default() };
                        for r in &rest[1..] {
                            if let Some(x) = r.strip_prefix("ret=") {
                                f.ret = Some(x.to_string())
                            } else if r == "mutself" {
                                f.mutself = true
                            } else {
                                f.flags.push(r.clone())
                            }
                        }
                        part = "spec".into();
                        cur = Some(f);
                    },
                    "type" => {
                        let (a, b) = tail.split_once(" = ").unwrap_or_else(|| die("UNIT", line));
                        self.types.push((a.replace(' ', ""), b.trim().to_string()));
                    },
                    "method" => {
                        let (a, b) = tail.split_once(" = ").unwrap_or_else(|| die("UNIT", line));
                        self.methods.insert(a.trim().into(), b.trim().into());
                    },
                    "ghostarg" => {
                        let (a, b) = tail.split_once(" = ").unwrap_or_else(|| die("UNIT", line));
                        let (n, k) = a.trim().split_once('/').unwrap_or_else(|| die("UNIT", line));
                        self.ghostargs.entry((n.to_string(), k.parse().unwrap())).or_default().push(b.trim().to_string());
                    },
                    "lift" => {
                        let (ty, f) = rest[0].split_once("::").unwrap_or_else(|| die("UNIT", line));
                        let caps = rest[2..].join(" ");
                        let caps = caps.split(';').filter(|c| !c.trim().is_empty()).map(|c| match c.trim() {
                            "async" => ("async ".to_string(), String::new()),
                            c if c.starts_with("has ") || c.starts_with("-> ") => (c.to_string(), String::new()),
                            c => c.split_once(": ").map(|(a, b)| (a.trim().to_string(), b.trim().to_string())).unwrap_or_else(|| die("UNIT", line)),
                        }).collect();
                        self.lifts.push((ty.to_string(), f.to_string(), rest[1].clone(), caps));
                    },
                    "call" => {
                        let (a, b) = tail.split_once(" = ").unwrap_or_else(|| die("UNIT", line));
                        self.calls.insert(a.replace(' ', ""), b.trim().into());
                    },
                    "ident" => {
                        let (a, b) = tail.split_once(" = ").unwrap_or_else(|| die("UNIT", line));
                        self.idents.insert(a.trim().into(), b.trim().into());
                    },
                    "expr" => {
                        let (a, b) = tail.split_once(" => ").unwrap_or_else(|| die("UNIT", line));
                        self.exprs.push((a.replace(' ', ""), b.trim().to_string()));
                    },
                    "use" => self.uses.push(tail),
                    "broadcast" => self.broadcasts.push(tail),
                    "retainloop" => self.retain_loop = true,
                    "crateattr" => self.crate_attrs.push(tail),
                    "static" => self.statics.push((rest[0].clone(), rest[1].clone(), rest[2..].join(" "))),
                    "consts" => self.const_files.extend(rest),
                    "dropfield" => self.drop_fields.extend(rest),
                    _ => die("UNIT", &format!("unknown directive {}", line)),
                }
            } else if let Some(f) = cur.as_mut() {
                let slot = if part == "spec" { &mut f.spec } else { f.parts.entry(part.clone()).or_default() };
                slot.push_str(line);
                slot.push('\n');
            } else {
                raw.push_str(line);
                raw.push('\n');
            }
        }
        if cur.is_some() {
            die("UNIT", "unterminated //@fn");
        }
        if !raw.is_empty() {
            self.segments.push(Segment::Raw(raw));
        }
    }
}
