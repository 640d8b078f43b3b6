//! Parser for the contract files (/verif/contracts/*.vspec).
use std::collections::{BTreeMap, HashMap, HashSet};

#[derive(Debug, Clone, Default)]
pub struct FnSpec {
    pub id: String,                 // path in the source: `f`, `Type::f`, `Type::f::nested`
    pub ret: String,                // name of the result
    pub sig: Vec<String>,           // requires/ensures/decreases text
    pub loops: HashMap<usize, String>,
    pub at: BTreeMap<String, String>,
    pub opts: HashSet<String>,
    pub attrs: Vec<String>,
    pub iters: HashMap<usize, String>,
    pub ctys: HashMap<usize, String>,
    pub arena: Option<String>,
    pub subst: Vec<(String, String)>, // parameter name -> type text
    pub extra_params: String,
    pub panic: Option<String>, // proof that a panic here is one the contract allows
    pub used: std::cell::RefCell<HashSet<String>>,
}

#[derive(Debug, Clone)]
pub enum Item {
    Raw(String),
    Type { name: String, attrs: String },
    Const { name: String },
    Fn(FnSpec),
}

#[derive(Debug, Clone)]
pub struct Module {
    pub file: String,
    pub path: String,
    pub items: Vec<Item>,
    pub opts: HashSet<String>,
}

pub fn parse(text: &str) -> Result<Vec<Module>, String> {
    let mut mods: Vec<Module> = vec![];
    let mut cur_fn: Option<FnSpec> = None;
    let mut sink: Option<(String, String)> = None; // (kind, text)

    fn flush(sink: &mut Option<(String, String)>, cur_fn: &mut Option<FnSpec>, mods: &mut Vec<Module>) {
        if let Some((kind, text)) = sink.take() {
            if kind == "raw" {
                mods.last_mut().unwrap().items.push(Item::Raw(text));
                return;
            }
            let f = cur_fn.as_mut().unwrap();
            match kind.as_str() {
                "requires" | "ensures" | "decreases" | "default_ensures" | "no_unwind" =>
                    f.sig.push(format!("    {}\n{}", kind, text)),
                "panic" => f.panic = Some(text),
                k if k.starts_with("loop ") => { f.loops.insert(k[5..].trim().parse().unwrap(), text); }
                k if k.starts_with("at ") => { f.at.insert(k[3..].trim().to_string(), text); }
                k => panic!("unknown section {}", k),
            }
        }
    }
    fn end_fn(cur_fn: &mut Option<FnSpec>, mods: &mut Vec<Module>) {
        if let Some(f) = cur_fn.take() {
            mods.last_mut().unwrap().items.push(Item::Fn(f));
        }
    }

    for (n, line) in text.lines().enumerate() {
        if line.starts_with("%%") { continue; } // comment
        if let Some(d) = line.strip_prefix('%') {
            flush(&mut sink, &mut cur_fn, &mut mods);
            let (word, rest) = match d.find(' ') { Some(i) => (&d[..i], d[i + 1..].trim()), None => (d.trim(), "") };
            match word {
                "module" => {
                    end_fn(&mut cur_fn, &mut mods);
                    let mut it = rest.split_whitespace();
                    mods.push(Module {
                        path: it.next().unwrap().to_string(),
                        file: it.next().unwrap_or("").to_string(),
                        items: vec![],
                        opts: it.map(|s| s.to_string()).collect(),
                    });
                }
                "raw" => { end_fn(&mut cur_fn, &mut mods); sink = Some(("raw".into(), String::new())); }
                "type" => {
                    end_fn(&mut cur_fn, &mut mods);
                    let (name, attrs) = match rest.find(' ') { Some(i) => (&rest[..i], rest[i + 1..].trim()), None => (rest, "") };
                    mods.last_mut().unwrap().items.push(Item::Type { name: name.into(), attrs: attrs.into() });
                }
                "const" => {
                    end_fn(&mut cur_fn, &mut mods);
                    mods.last_mut().unwrap().items.push(Item::Const { name: rest.into() });
                }
                "fn" => {
                    end_fn(&mut cur_fn, &mut mods);
                    cur_fn = Some(FnSpec { id: rest.into(), ret: "r".into(), ..Default::default() });
                }
                "ret" => cur_fn.as_mut().unwrap().ret = rest.into(),
                "attr" => cur_fn.as_mut().unwrap().attrs.push(rest.into()),
                "opt" => for o in rest.split_whitespace() { cur_fn.as_mut().unwrap().opts.insert(o.into()); },
                "iter" => {
                    let mut it = rest.split_whitespace();
                    let k = it.next().unwrap().parse().unwrap();
                    cur_fn.as_mut().unwrap().iters.insert(k, it.next().unwrap().into());
                }
                "cty" => {
                    let (k, t) = rest.split_once(' ').unwrap();
                    cur_fn.as_mut().unwrap().ctys.insert(k.parse().unwrap(), t.trim().into());
                }
                "arena" => cur_fn.as_mut().unwrap().arena = Some(rest.into()),
                "param" => {
                    let (a, b) = rest.split_once(':').ok_or(format!("line {}: bad %param", n + 1))?;
                    cur_fn.as_mut().unwrap().subst.push((a.trim().into(), b.trim().into()));
                }
                "extra" => cur_fn.as_mut().unwrap().extra_params = rest.into(),
                "requires" | "ensures" | "decreases" => sink = Some((word.into(), if rest.is_empty() { String::new() } else { format!("        {}\n", rest) })),
                "panic" => sink = Some((word.into(), String::new())),
                "loop" | "at" => sink = Some((format!("{} {}", word, rest), String::new())),
                "end" => {}
                _ => return Err(format!("line {}: unknown directive %{}", n + 1, word)),
            }
        } else if let Some((_, t)) = sink.as_mut() {
            t.push_str(line);
            t.push('\n');
        } else if !line.trim().is_empty() {
            return Err(format!("line {}: text outside a section", n + 1));
        }
    }
    flush(&mut sink, &mut cur_fn, &mut mods);
    end_fn(&mut cur_fn, &mut mods);
    Ok(mods)
}
