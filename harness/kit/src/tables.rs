//! P14, P15, P20: the in-memory file system, the symbol table and the workspace folders against plain maps.
use crate::common::*;
use oak_core::{Arc, language::UniversalElementRole, source::Source};
use oak_lsp::{WorkspaceManager, types::{InitializeParams, WorkspaceFolder}};
use oak_resolver::GlobalSymbolTable;
use oak_symbols::SymbolInformation;
use oak_vfs::{FileType, LineMap, MemoryVfs, Vfs, WritableVfs};
use std::{collections::{BTreeMap, BTreeSet, HashMap}, path::{Component, Path, PathBuf}};

// ---------------------------------------------------------------- P14
#[derive(Clone, Debug)]
enum VOp {
    Write(usize, String, bool),
    Remove(usize, bool),
    Clone,
}
const URIS: &[&str] = &["a", "b", "file:///x/a.txt", "file:///x", "file:///x/", "", "é", "A"];
fn vfs_matches(v: &MemoryVfs, m: &BTreeMap<&str, String>, ids: &mut BTreeMap<&'static str, u32>, seen: &mut BTreeMap<u32, &'static str>) -> Result<(), String> {
    for u in URIS {
        let want = m.get(u);
        ckeq!(v.exists(u), want.is_some(), "exists({u})");
        let s = v.get_source(u);
        ckeq!(s.as_ref().map(|s| s.text().to_string()), want.cloned(), "get_source({u})");
        let id = v.get_id(u);
        ckeq!(id.is_some(), want.is_some(), "get_id({u}) is some");
        ckeq!(v.is_file(u), want.is_some(), "is_file({u})");
        ckeq!(v.is_dir(u), false, "is_dir({u})");
        match v.metadata(u) {
            None => ck!(want.is_none(), "metadata({u}) missing"),
            Some(md) => {
                ck!(md.file_type == FileType::File, "metadata({u}) type");
                ckeq!(Some(md.len), want.map(|w| w.len() as u64), "metadata({u}).len");
            }
        }
        if let (Some(id), Some(s)) = (id, &s) {
            ckeq!(s.source_id(), Some(id), "source_id of {u}");
            ckeq!(v.get_uri(id).as_deref(), Some(*u), "get_uri(get_id({u}))");
            // a path keeps its identifier while it exists; an identifier is never given to another path
            if let Some(old) = ids.get(u) {
                ckeq!(id, *old, "identifier of {u}");
            }
            if let Some(p) = seen.get(&id) {
                ck!(p == u && ids.get(u) == Some(&id), "identifier {id} of {u} was handed out before, for {p}");
            }
            let t = want.unwrap();
            let lm = v.line_map(u).ok_or("line_map missing")?;
            ckeq!(lm.line_count(), t.matches('\n').count() + 1, "line_map({u})");
            ckeq!(lm.line_end(lm.line_count() as u32 - 1), Some(t.len()), "line_map({u}) end");
            ckeq!(LineMap::from_source(s).line_count(), lm.line_count(), "line map of the source");
        }
        else {
            ck!(v.line_map(u).is_none(), "line_map of a missing file");
        }
    }
    for u in URIS {
        match v.get_id(u) {
            Some(id) => {
                ids.insert(u, id);
                seen.insert(id, u);
            }
            None => {
                if let Some(id) = ids.remove(u) {
                    ck!(v.get_uri(id).is_none(), "get_uri of a removed file");
                }
            }
        }
    }
    let mut l: Vec<String> = v.read_dir("").ok_or("read_dir")?.iter().map(|x| x.to_string()).collect();
    l.sort();
    ckeq!(l, m.keys().map(|x| x.to_string()).collect::<Vec<_>>(), "read_dir");
    for i in 0..40u32 {
        if let Some(u) = v.get_uri(i) {
            ckeq!(v.get_id(&u), Some(i), "get_id(get_uri({i}))");
        }
    }
    Ok(())
}
fn p14_run(ops: &[VOp]) -> Result<(), String> {
    let mut v = MemoryVfs::new();
    let mut others = vec![];
    let mut m: BTreeMap<&str, String> = BTreeMap::new();
    let (mut ids, mut seen) = (BTreeMap::new(), BTreeMap::new());
    let mut early: Vec<(String, oak_core::source::SourceText)> = vec![];
    for (i, op) in ops.iter().enumerate() {
        match op {
            VOp::Write(u, t, tr) => {
                if *tr { WritableVfs::write_file(&v, URIS[*u], Arc::from(&t[..])) } else { v.write_file(URIS[*u], t.clone()) }
                m.insert(URIS[*u], t.clone());
                early.push((t.clone(), v.get_source(URIS[*u]).ok_or("written file is missing")?));
            }
            VOp::Remove(u, tr) => {
                if *tr { WritableVfs::remove_file(&v, URIS[*u]) } else { v.remove_file(URIS[*u]) }
                m.remove(URIS[*u]);
            }
            VOp::Clone => {
                let c = v.clone();
                others.push(std::mem::replace(&mut v, c));
            }
        }
        vfs_matches(&v, &m, &mut ids, &mut seen).map_err(|e| format!("after step {}: {e}", i + 1))?;
        for (j, o) in others.iter().enumerate() {
            vfs_matches(o, &m, &mut ids.clone(), &mut seen.clone()).map_err(|e| format!("after step {}, in clone {j}: {e}", i + 1))?;
        }
        for (t, s) in &early {
            ckeq!(s.text(), &t[..], "text read earlier, after step {}", i + 1);
        }
    }
    Ok(())
}
pub fn p14(c: &mut Ctx) {
    c.family("exhaustive");
    let alphabet: Vec<VOp> = vec![VOp::Write(0, "x\n".into(), false), VOp::Write(0, "long\nertext".into(), true), VOp::Write(1, "".into(), false), VOp::Remove(0, false), VOp::Remove(1, true), VOp::Write(2, "é\n\n".into(), false), VOp::Remove(2, false)];
    for n in 0..=(if c.thorough { 6 } else { 5 }) {
        for k in 0..alphabet.len().pow(n) {
            let ops: Vec<VOp> = (0..n).map(|i| alphabet[k / alphabet.len().pow(i) % alphabet.len()].clone()).collect();
            c.case(|| format!("{ops:?}"), || p14_run(&ops));
        }
    }
    c.family("random");
    let mut r = c.rng("p14");
    for _ in 0..c.n(2000, 40000) {
        let n = r.range(1, 30);
        let ops: Vec<VOp> = (0..n)
            .map(|_| match r.below(20) {
                0 => VOp::Clone,
                1..=6 => VOp::Remove(r.below(URIS.len()), r.chance(1, 2)),
                _ => VOp::Write(r.below(URIS.len()), r.text(&['a', '\n', 'é', '𝄞'], 8), r.chance(1, 2)),
            })
            .collect();
        c.case(|| format!("{ops:?}"), || p14_run(&ops));
    }
    c.family("many");
    for _ in 0..c.n(20, 300) {
        let n = *r.pick(&[5, 60, 400]);
        let ops: Vec<(usize, usize)> = (0..r.range(20, 1200)).map(|_| (r.below(1 << 20), if r.chance(1, 4) { 0 } else if r.chance(1, 200) { r.range(1, 70_000) } else { r.range(1, 30) })).collect();
        c.case(|| format!("{n} documents, {ops:?}"), || p14_many(n, &ops));
    }
}
/// Many documents in one file system.
fn p14_many(n: usize, ops: &[(usize, usize)]) -> Result<(), String> {
    let v = MemoryVfs::new();
    let w = v.clone();
    let uri = |i: usize| format!("file:///d{}/f{i}", i % 7);
    let mut m: BTreeMap<String, (String, u32)> = BTreeMap::new();
    let mut used: HashMap<u32, String> = HashMap::new();
    for (i, &(f, len)) in ops.iter().enumerate() {
        let (u, x) = (uri(f % n), if i % 3 == 0 { &w } else { &v });
        if len == 0 {
            x.remove_file(&u);
            m.remove(&u);
        }
        else {
            let t: String = (0..len - 1).map(|k| if (k + i) % 9 == 0 { '\n' } else { 'é' }).collect();
            x.write_file(&u, t.clone());
            let id = v.get_id(&u).ok_or("no identifier")?;
            match m.get(&u) {
                Some(o) => ckeq!(id, o.1, "identifier of {u} at step {i}"),
                None => ck!(used.insert(id, u.clone()).is_none(), "identifier {id} handed out again at step {i}"),
            }
            m.insert(u.clone(), (t, id));
        }
        if i % 97 == 0 || i + 1 == ops.len() {
            for k in 0..n {
                let u = uri(k);
                ckeq!(v.get_source(&u).map(|s| s.text().to_string()), m.get(&u).map(|x| x.0.clone()), "text of {u} after step {i}");
                ckeq!(v.get_id(&u), m.get(&u).map(|x| x.1), "identifier of {u} after step {i}");
                ckeq!(v.metadata(&u).map(|d| d.len), m.get(&u).map(|x| x.0.len() as u64), "length of {u} after step {i}");
                ckeq!(v.line_map(&u).map(|l| (l.line_count(), l.line_end(l.line_count() as u32 - 1))), m.get(&u).map(|x| (x.0.matches('\n').count() + 1, Some(x.0.len()))), "line map of {u} after step {i}");
            }
            for (id, u) in &used {
                ckeq!(v.get_uri(*id).as_deref(), m.get(u).filter(|x| x.1 == *id).map(|_| &u[..]), "path of identifier {id} after step {i}");
            }
            let mut l: Vec<String> = v.read_dir("").ok_or("read_dir")?.iter().map(|x| x.to_string()).collect();
            l.sort();
            ckeq!(l, m.keys().cloned().collect::<Vec<_>>(), "listing after step {i}");
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- P15
fn sym(uri: &str, name: &str, container: Option<&str>, at: usize) -> SymbolInformation {
    SymbolInformation { name: name.into(), role: UniversalElementRole::Definition, uri: Arc::from(uri), range: (at..at + 1).into(), container_name: container.map(|x| x.into()) }
}
fn key(s: &SymbolInformation) -> (String, String, Option<String>, usize) {
    (s.uri.to_string(), s.name.clone(), s.container_name.clone(), s.range.start)
}
fn full(s: &SymbolInformation) -> String {
    match &s.container_name {
        Some(c) => format!("{c}::{}", s.name),
        None => s.name.clone(),
    }
}
type Sy = (usize, Option<usize>); // name, container
const NAMES: &[&str] = &["x", "y", "x::y", "z"];
const CONT: &[&str] = &["x", "m", "x::y", ""];
fn p15_run(steps: &[(usize, Vec<Sy>)]) -> Result<(), String> {
    let files = ["f0", "f1", "f2"];
    let t = GlobalSymbolTable::new();
    let mut m: HashMap<&str, Vec<SymbolInformation>> = HashMap::new();
    let mut order: Vec<&str> = vec![];
    let mut at = 0;
    for (i, (f, syms)) in steps.iter().enumerate() {
        let f = files[*f];
        let v: Vec<SymbolInformation> = syms
            .iter()
            .map(|(n, k)| {
                at += 1;
                sym(f, NAMES[*n], k.map(|k| CONT[k]), at)
            })
            .collect();
        t.update_file_symbols(f.to_string(), v.clone());
        m.insert(f, v);
        order.retain(|x| *x != f);
        order.push(f);
        let mut names: BTreeSet<String> = BTreeSet::new();
        for f in files {
            let want: Vec<_> = m.get(f).map(|v| v.iter().map(key).collect()).unwrap_or_default();
            ckeq!(t.query_file(f).iter().map(key).collect::<Vec<_>>(), want, "query_file({f}) after step {}", i + 1);
        }
        for v in m.values() {
            names.extend(v.iter().map(full));
        }
        for c in CONT {
            for n in NAMES {
                let q = format!("{c}::{n}");
                let q2 = n.to_string();
                for q in [q, q2] {
                    // the definition of the file that was updated last among those that define it
                    let want = order.iter().rev().find_map(|f| m[f].iter().rev().find(|s| full(s) == q)).map(key);
                    ckeq!(t.lookup(&q).as_ref().map(key), want, "lookup({q}) after step {}", i + 1);
                }
            }
        }
        for q in ["", "x", "::", "m::", "zz"].into_iter().chain(names.iter().map(|n| &n[..])) {
            let mut got: Vec<_> = t.query(q).iter().map(|s| (full(s), key(s))).collect();
            got.sort();
            let want: Vec<_> = names.iter().filter(|n| n.contains(q)).map(|n| (n.clone(), key(&t.lookup(n).unwrap()))).collect();
            ckeq!(got, want, "query({q}) after step {}", i + 1);
        }
    }
    Ok(())
}
pub fn p15(c: &mut Ctx) {
    c.family("exhaustive");
    let versions: Vec<Vec<Sy>> = vec![vec![], vec![(0, None)], vec![(1, None)], vec![(0, None), (1, None)], vec![(1, Some(0)), (2, None)], vec![(0, None), (0, None)]];
    let n = 2 * versions.len();
    for len in 0..=(if c.thorough { 5 } else { 4 }) {
        for k in 0..n.pow(len) {
            let steps: Vec<(usize, Vec<Sy>)> = (0..len).map(|i| k / n.pow(i) % n).map(|x| (x % 2, versions[x / 2].clone())).collect();
            c.case(|| format!("{steps:?}"), || p15_run(&steps));
        }
    }
    c.family("random");
    let mut r = c.rng("p15");
    for _ in 0..c.n(4000, 80000) {
        let n = r.range(1, 10);
        let steps: Vec<(usize, Vec<Sy>)> = (0..n).map(|_| (r.below(3), { let n = r.below(5); (0..n).map(|_| (r.below(4), if r.chance(1, 2) { None } else { Some(r.below(4)) })).collect() })).collect();
        c.case(|| format!("{steps:?}"), || p15_run(&steps));
    }
    c.family("many");
    for _ in 0..c.n(20, 300) {
        let files = r.range(2, 60);
        let names = *r.pick(&[3, 30, 500]);
        let steps: Vec<(usize, Vec<Sy>)> = (0..r.range(10, 150)).map(|_| (r.below(files), { let n = *r.pick(&[0, 1, 5, 60]); (0..n).map(|_| (r.below(names), if r.chance(1, 2) { None } else { Some(r.below(9)) })).collect() })).collect();
        c.case(|| format!("{files} files, {steps:?}"), || p15_many(&steps));
    }
}
/// Many files and names.
fn p15_many(steps: &[(usize, Vec<Sy>)]) -> Result<(), String> {
    let t = GlobalSymbolTable::new();
    // the latest version of every file and when it came
    let mut m: BTreeMap<String, (usize, Vec<SymbolInformation>)> = BTreeMap::new();
    let mut known: BTreeSet<String> = BTreeSet::new();
    for (i, (f, syms)) in steps.iter().enumerate() {
        let f = format!("file:///f{f}");
        let v: Vec<_> = syms.iter().enumerate().map(|(k, (n, c))| sym(&f, &format!("n{n}"), c.map(|c| format!("c{c}")).as_deref(), i * 100 + k)).collect();
        t.update_file_symbols(f.clone(), v.clone());
        known.extend(v.iter().map(full));
        m.insert(f, (i, v));
        if i % 9 != 0 && i + 1 != steps.len() {
            continue;
        }
        let mut defs: BTreeMap<String, (usize, usize, (String, String, Option<String>, usize))> = BTreeMap::new();
        for (f, (when, v)) in &m {
            ckeq!(t.query_file(f).iter().map(key).collect::<Vec<_>>(), v.iter().map(key).collect::<Vec<_>>(), "query_file({f}) after step {i}");
            for (k, s) in v.iter().enumerate() {
                let e = (*when, k, key(s));
                match defs.get(&full(s)) {
                    Some(o) if (o.0, o.1) > (e.0, e.1) => {}
                    _ => {
                        defs.insert(full(s), e);
                    }
                }
            }
        }
        for n in &known {
            ckeq!(t.lookup(n).as_ref().map(key), defs.get(n).map(|d| d.2.clone()), "lookup({n}) after step {i}");
        }
        let whole: Vec<&str> = known.iter().take(8).map(|n| &n[..]).collect();
        for q in ["", "n1", "c2::", "::n", "zz"].into_iter().chain(whole) {
            let mut got: Vec<_> = t.query(q).iter().map(|s| (full(s), key(s))).collect();
            got.sort();
            let want: Vec<_> = defs.iter().filter(|(n, _)| n.contains(q)).map(|(n, d)| (n.clone(), d.2.clone())).collect();
            ckeq!(got, want, "query({q}) after step {i}");
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- P20
const PATHS: &[&str] = &[
    "file:///a", "file:///a/", "file:///a///", "file:///ab", "file:///a/b", "file:///a/b/", "file:///a/b/c", "file:///a/bc", "file:///A", "file:///", "file:///a%20b", "file:///a/b%2Fc", "file:///é/x", "file:///a/./b", "file:///a/b/../b", "http://a/b", "nonsense", "", "untitled:1", "file:///a/b/c/d/e.rs", "file:///x//y", "file:///x/y",
];
fn comps(p: &Path) -> Vec<Component<'_>> {
    p.components().collect()
}
#[derive(Clone, Debug)]
enum WOp {
    Add(usize),
    Remove(usize),
    Init(Option<usize>, Vec<usize>),
}
fn p20_run(ops: &[WOp]) -> Result<(), String> {
    let w = WorkspaceManager::new();
    let mut m: BTreeMap<&str, PathBuf> = BTreeMap::new();
    let local = |u: &str| url::Url::parse(u).ok().and_then(|x| x.to_file_path().ok());
    for (i, op) in ops.iter().enumerate() {
        let mut add = |u: &'static str| {
            if let Some(p) = local(u) {
                m.insert(u, p);
            }
        };
        match op {
            WOp::Add(u) => {
                w.add_folder(PATHS[*u].into(), "n".into());
                add(PATHS[*u]);
            }
            WOp::Remove(u) => {
                w.remove_folder(PATHS[*u]);
                m.remove(PATHS[*u]);
            }
            WOp::Init(r, fs) => {
                let ps = InitializeParams { root_uri: r.map(|r| PATHS[r].to_string()), workspace_folders: fs.iter().map(|f| WorkspaceFolder { uri: PATHS[*f].into(), name: "n".into() }).collect() };
                w.initialize(&ps);
                if let Some(r) = r {
                    add(PATHS[*r]);
                }
                fs.iter().for_each(|f| add(PATHS[*f]));
            }
        }
        let mut l = w.list_folders();
        l.sort();
        ckeq!(l, m.iter().map(|(k, v)| (k.to_string(), v.clone())).collect::<Vec<_>>(), "list_folders after step {}", i + 1);
        for u in PATHS {
            ckeq!(w.get_path(u), local(u), "get_path({u})");
            let got = w.find_root(u);
            let best = local(u).and_then(|p| m.values().filter(|f| comps(&p).starts_with(&comps(f))).map(|f| comps(f).len()).max());
            ckeq!(got.is_some(), best.is_some(), "find_root({u}) = {got:?} after step {}", i + 1);
            ckeq!(w.is_within_workspace(u), best.is_some(), "is_within_workspace({u}) after step {}", i + 1);
            if let Some(g) = got {
                let f = m.get(&g[..]).ok_or(format!("find_root({u}) = {g} is no folder"))?;
                ck!(comps(&local(u).unwrap()).starts_with(&comps(f)) && Some(comps(f).len()) == best, "find_root({u}) = {g} after step {}: not the closest folder", i + 1);
            }
        }
    }
    Ok(())
}
pub fn p20(c: &mut Ctx) {
    c.family("subsets");
    let base = [0, 2, 4, 5, 6, 7, 9, 20, 21];
    for k in 0..1usize << base.len() {
        let mut ops: Vec<WOp> = base.iter().enumerate().filter(|(i, _)| k >> i & 1 == 1).map(|(_, u)| WOp::Add(*u)).collect();
        let half = ops.len() / 2;
        for o in ops.clone().into_iter().take(half) {
            if let WOp::Add(u) = o {
                ops.push(WOp::Remove(u));
            }
        }
        c.case(|| format!("{ops:?}"), || p20_run(&ops));
    }
    c.family("random");
    let mut r = c.rng("p20");
    for _ in 0..c.n(1500, 30000) {
        let n = r.range(1, 14);
        let ops: Vec<WOp> = (0..n)
            .map(|_| match r.below(8) {
                0 => { let k = r.below(4); WOp::Init(if r.chance(1, 2) { Some(r.below(PATHS.len())) } else { None }, (0..k).map(|_| r.below(PATHS.len())).collect()) }
                1 | 2 => WOp::Remove(r.below(PATHS.len())),
                _ => WOp::Add(r.below(PATHS.len())),
            })
            .collect();
        c.case(|| format!("{ops:?} over {PATHS:?}"), || p20_run(&ops));
    }
    c.family("many");
    for _ in 0..c.n(60, 600) {
        // random folders from a small tree of names, up to 40 deep
        let uri = |r: &mut Rng| format!("file:///{}", (0..if r.chance(1, 10) { r.range(10, 40) } else { r.below(6) }).map(|_| *r.pick(&["a", "a", "a", "b", "ab", "%C3%A9"])).collect::<Vec<_>>().join("/"));
        let mut have: Vec<String> = vec![];
        let mut ops: Vec<(bool, String)> = vec![];
        for _ in 0..r.range(5, 120) {
            if !have.is_empty() && r.chance(1, 3) {
                let u = have.swap_remove(r.below(have.len()));
                ops.push((false, u));
            }
            else {
                let u = uri(&mut r);
                have.push(u.clone());
                ops.push((true, u));
            }
        }
        let asked: Vec<String> = (0..20).map(|_| uri(&mut r)).collect();
        c.case(|| format!("{ops:?} asked {asked:?}"), || {
            let w = WorkspaceManager::new();
            let mut m: BTreeMap<&str, PathBuf> = BTreeMap::new();
            let local = |u: &str| url::Url::parse(u).unwrap().to_file_path().unwrap();
            for (k, (add, u)) in ops.iter().enumerate() {
                if *add {
                    w.add_folder(u.clone(), "n".into());
                    m.insert(u, local(u));
                }
                else {
                    w.remove_folder(u);
                    m.remove(&u[..]);
                }
                for a in &asked {
                    let p = local(a);
                    let best = m.values().filter(|f| comps(&p).starts_with(&comps(f))).map(|f| comps(f).len()).max();
                    let got = w.find_root(a);
                    let depth = match &got {
                        None => None,
                        Some(g) => {
                            let f = m.get(&g[..]).ok_or(format!("find_root({a}) = {g} is no folder after step {k}"))?;
                            ck!(comps(&p).starts_with(&comps(f)), "find_root({a}) = {g} does not enclose it after step {k}");
                            Some(comps(f).len())
                        }
                    };
                    ckeq!(depth, best, "depth of find_root({a}) = {got:?} after step {k}");
                }
            }
            Ok(())
        });
    }
}
