#[path = "../../mirdump/src/ir.rs"]
#[allow(dead_code)]
mod ir;
mod facts;
mod ghost;
mod interp;
mod join;
mod mem;
mod models;
mod num;
mod state;
mod summary;
mod types;
use interp::*;
use num::*;
use state::*;
use std::rc::Rc;
use types::*;

/// The abstract argument of an entry's parameter.
fn arg(i: &mut Interp, st: &mut State, t: ir::TyId, seen: &mut Vec<ObjId>) -> Val {
    let name = i.p.ty(t).name.clone();
    match &i.p.ty(t).kind {
        ir::TyKind::Ptr { pointee, .. } => {
            if i.p.ty(*pointee).size == Some(0) {
                return Val::int(1);
            }
            if i.p.is_elem(*pointee) {
                let o = st.new_obj(Obj::Cell(Val::Elem(Tok { own: Own::Live, node: 0, key: i.p.shape(i.p.core(*pointee)) == Shape::Elem(true) })));
                return Val::Ptr(Ptr { obj: o, path: vec![] });
            }
            let v = arg(i, st, *pointee, seen);
            let o = st.new_obj(Obj::Cell(v));
            Val::Ptr(Ptr { obj: o, path: vec![] })
        }
        ir::TyKind::Adt { variants, .. } if name.starts_with("ndarray_slice::ndarray::ArrayBase") => {
            // ptr, data, dim, strides
            let f = variants[0].fields.clone();
            let n = Lin::s(named("n"));
            let s = models::new_stride();
            let ptr_ty = f.iter().find(|x| x.0 == "ptr").unwrap().1;
            let elem = match &i.p.ty(ptr_ty).kind {
                ir::TyKind::Adt { args, .. } if !args.is_empty() => args[0],
                _ => match &i.p.ty(i.p.core(ptr_ty)).kind {
                ir::TyKind::Ptr { pointee, .. } => *pointee,
                _ => 0,
            }};
            st.num.ge(&n);
            let elems = i.p.is_elem(elem);
            let r = Region {
                kind: RKind::View,
                len: n.clone(),
                esize: i.p.size(elem),
                elems,
                stride: Some(s),
                addr: fresh(),
                bytes: Lin::c(0),
                align: Lin::c(0),
                freed: false,
                segs: vec![Seg { hi: n.clone(), own: Own::Live, val: if elems { SVal::Elems } else { SVal::Any }, node: 0 }],
                base: None,
            rec: false,
            };
            let o = st.new_obj(Obj::Region(r));
            seen.push(o);
            let vals = f
                .iter()
                .map(|(fname, _)| match fname.as_str() {
                    "ptr" => Val::Ptr(Ptr { obj: o, path: vec![PE::I(Lin::c(0))] }),
                    "dim" => Val::Int(n.clone()),
                    "strides" => Val::Int(Lin::s(s)),
                    _ => Val::Unit,
                })
                .collect();
            Val::agg(vals)
        }
        ir::TyKind::Adt { args, .. } if name.starts_with("std::vec::Vec<") => {
            let t = args[0];
            let es = i.p.size(t);
            let (cap, len) = (Lin::s(fresh()), Lin::s(fresh()));
            st.num.ge(&len);
            st.num.ge(&cap.sub(&len));
            st.num.ge(&cap.mul(-(es as i128)).addk(1 << 57));
            let r = Region {
                kind: RKind::Heap,
                len: cap.clone(),
                esize: es,
                elems: false,
                stride: None,
                addr: fresh(),
                bytes: cap.mul(es as i128),
                align: Lin::c(i.p.ty(t).align as i128),
                freed: false,
                segs: vec![Seg { hi: cap.clone(), own: Own::Uninit, val: SVal::Any, node: 0 }],
                base: None,
            rec: false,
            };
            let o = st.new_obj(Obj::Region(r));
            Val::agg(vec![Val::agg(vec![Val::Ptr(Ptr { obj: o, path: vec![PE::I(Lin::c(0))] }), Val::Int(cap), Val::Unit]), Val::Int(len)])
        }
        _ => i.fresh_val(st, t),
    }
}

/// A value of a type that holds nothing the analyser need know about.
fn plain(i: &mut Interp, st: &mut State, t: ir::TyId) -> Val {
    match i.p.shape(t) {
        Shape::Trans(_, u) => plain(i, st, u),
        Shape::Thin(u) if i.p.ty(u).size == Some(0) => Val::int(1),
        Shape::Thin(u) => {
            let v = plain(i, st, u);
            let o = st.new_obj(Obj::Cell(v));
            Val::Ptr(Ptr { obj: o, path: vec![] })
        }
        Shape::Struct(ts) => {
            let vs = ts.iter().map(|&u| plain(i, st, u)).collect();
            Val::agg(vs)
        }
        _ => i.fresh_val(st, t),
    }
}
/// What a function of two elements returns when the first is smaller than, equal to and greater than the second.
fn judge(prog: &Prog, fid: ir::FnId) {
    let mut all = vec![];
    for o in [-1, 0, 1] {
        let mut i = Interp::new(prog);
        i.opts = Opts { fix: Some(o), ..Default::default() };
        i.deadline = std::time::Instant::now() + std::time::Duration::from_secs(20);
        let mut st = State::default();
        let tys = prog.p.funcs[fid].sig.clone();
        let mut node = 0;
        let mut args = vec![];
        for &t in &tys {
            if let ir::TyKind::Ptr { pointee, .. } = &prog.ty(t).kind
                && prog.is_elem(*pointee)
            {
                node += 1;
                let o = st.new_obj(Obj::Cell(Val::Elem(Tok { own: Own::Live, node, key: false })));
                args.push(Val::Ptr(Ptr { obj: o, path: vec![] }));
            } else {
                args.push(plain(&mut i, &mut st, t));
            }
        }
        st.frames.push(Rc::new(Frame { fid, locals: args.iter().map(|v| Slot::V(v.clone())).collect() }));
        let outs = i.inline(st, fid, args);
        let mut vals: Vec<String> = outs
            .iter()
            .map(|o| match (o.exit, &o.val) {
                (Exit::Ret, Val::Bool(B::Const(b))) => b.to_string(),
                (Exit::Ret, _) => "?".into(),
                _ => "panic".into(),
            })
            .collect();
        if i.timed_out || i.ev.iter().any(|e| e.prop == "??") {
            vals.push("?".into());
        }
        vals.sort();
        vals.dedup();
        all.push(vals);
    }
    println!("{}", serde_json::json!({"fn": fid, "answers": all}));
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let f = std::fs::read(&a[1]).unwrap();
    let p: ir::Program = serde_json::from_slice(&f).unwrap();
    let json = a.iter().any(|x| x == "--json");
    let reject = a.iter().any(|x| x == "--reject");
    let strict = a.iter().any(|x| x == "--strict");
    let after = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1).cloned());
    let opts = Opts { want: after("--prop").unwrap_or_default(), strict, ..Default::default() };
    let secs: u64 = after("--secs").and_then(|x| x.parse().ok()).unwrap_or(600);
    let child = std::thread::Builder::new().stack_size(4 << 30);
    child
        .spawn(move || {
            let prog = Prog::new(p);
            if let Some(k) = a.iter().position(|x| x == "--judge") {
                for f in &a[k + 1..] {
                    judge(&prog, f.parse().unwrap());
                }
                return;
            }
            for &e in &prog.p.entries {
                let name = prog.names[e].rsplit("::").next().unwrap().to_string();
                if !a[2..].iter().any(|x| name == *x || name == format!("entry_{x}")) {
                    continue;
                }
                run(&prog, e, &name, json, reject, &opts, secs);
            }
        })
        .unwrap()
        .join()
        .unwrap();
}
fn run(prog: &Prog, e: ir::FnId, name: &str, json: bool, reject: bool, opts: &Opts, secs: u64) {
    let t0 = std::time::Instant::now();
    let mut i = Interp::new(prog);
    i.opts = opts.clone();
    i.deadline = t0 + std::time::Duration::from_secs(secs);
    let mut st = State::default();
    let mut views = vec![];
    let tys = prog.p.funcs[e].sig.clone();
    let args: Vec<Val> = tys.iter().map(|&t| arg(&mut i, &mut st, t, &mut views)).collect();
    // the request of a selection, relative to the length of the view
    let excess = match (args.get(1), views.first()) {
        (Some(Val::Int(k)), Some(v)) if name.contains("select_nth") => Some(k.sub(&st.region(*v).unwrap().len)),
        _ => None,
    };
    if reject {
        st.num.ge(excess.as_ref().expect("no request to reject"));
    }
    // callers' frame: keeps the arguments alive
    st.frames.push(Rc::new(Frame { fid: e, locals: args.iter().map(|v| Slot::V(v.clone())).collect() }));
    let outs = i.inline(st, e, args);
    let here = |prop: &str, msg: String| Event { firm: true, prop: prop.into(), func: prog.names[e].clone(), file: String::new(), line: 0, msg };
    if reject {
        for o in &outs {
            match o.exit {
                Exit::Ret => i.ev.push(here("C05", "a request beyond the end may be accepted".into())),
                Exit::Panic(k) => {
                    let s = i.sites[k as usize].clone();
                    let _ = s;
                }
                _ => i.ev.push(here("C05", "the callback may be called before a request beyond the end is rejected".into())),
            }
        }
        if i.looks > 0 {
            i.ev.push(here("C05", "the callback may be called before a request beyond the end is rejected".into()));
        }
        if i.touches > 0 {
            i.ev.push(here("C05", "elements may be moved before a request beyond the end is rejected".into()));
        }
    }
    for o in &outs {
        for v in &views {
            let r = o.st.region(*v).unwrap();
            if r.elems && !r.segs.iter().all(|s| s.own == Own::Live) {
                let f = &prog.p.funcs[e];
                let what = if o.exit == Exit::Ret { "an element may be missing or doubled when the operation returns" } else { "an element may be missing or doubled when a panic leaves the operation" };
                let d = if i.dbg { format!(" {:?}", r.segs) } else { String::new() };
                i.ev.push(Event { firm: true, prop: if o.exit == Exit::Ret { "C03" } else { "C02" }.into(), func: f.path.clone(), file: String::new(), line: 0, msg: format!("{what}{d}") });
            }
        }
        if let Exit::Panic(k) = o.exit {
            // a request beyond the end is rejected by panicking
            if !reject && excess.as_ref().is_some_and(|x| o.st.num.must_ge(x)) {
                continue;
            }
            if reject || o.st.oom {
                continue;
            }
            let s = i.sites[k as usize].clone();
            i.ev.push(Event { firm: false, prop: "C04".into(), func: s.0, file: s.1, line: s.2, msg: format!("may panic{}", if i.dbg { format!(" {:?}", o.st.num) } else { String::new() }) });
        }
    }
    let mut ev = i.ev.clone();
    for s in i.sums.tab.values() {
        ev.extend(s.events.iter().cloned());
    }
    if i.timed_out {
        ev.extend(i.all.iter().cloned());
    }
    ev.sort();
    ev.dedup();
    let n = |p: &str| i.stats.obls.iter().filter(|x| x.0 == p).count();
    if json {
        let evs: Vec<serde_json::Value> = ev
            .iter()
            .map(|e| serde_json::json!({"prop": e.prop, "func": e.func, "file": e.file, "line": e.line, "msg": e.msg, "firm": e.firm}))
            .collect();
        let own: std::collections::BTreeSet<&str> = i.stats.funcs.iter().filter(|f| prog.p.funcs[**f].krate == "ndarray_slice").map(|f| prog.names[*f].as_str()).collect();
        let kinds = ["C01", "C04", "C06", "C10", "C11", "C12", "C13", "C16", "C19", "C22", "C25", "C26"].map(|k| (k, n(k)));
        println!(
            "{}",
            serde_json::json!({"entry": name, "events": evs, "exits": outs.len(), "returns": outs.iter().filter(|o| o.exit == Exit::Ret).count(),
                "callback_panics": outs.iter().filter(|o| !matches!(o.exit, Exit::Ret | Exit::Panic(_))).count(),
                "obligations": kinds.iter().map(|(k, n)| (k.to_string(), serde_json::json!(n))).collect::<serde_json::Map<_, _>>(),
                "blocks": i.stats.blocks, "joins": i.stats.joins, "loops": i.stats.loops.len(), "functions": i.stats.funcs.len(), "own": own,
                "complete": !i.timed_out, "wall_s": t0.elapsed().as_secs_f64()})
        );
        return;
    }
    println!("== {name}: {} exits, {} events, {:.2}s, {} inlined, {} blocks, {} joins, {} lps", outs.len(), ev.len(), t0.elapsed().as_secs_f64(), i.stats.inlined, i.stats.blocks, i.stats.joins, num::LP_CALLS.with(|x| *x.borrow()));
    for e in ev.iter().take(30) {
        println!("   {} {} {}:{} {}{}", e.prop, e.func, e.file.rsplit('/').next().unwrap(), e.line, e.msg, if e.firm { " FIRM" } else { "" });
    }
    if std::env::var("PROF").is_ok() {
        let mut v: Vec<_> = i.prof.iter().collect();
        v.sort_by(|a, b| b.1.0.partial_cmp(&a.1.0).unwrap());
        for (f, (t, n)) in v.iter().take(15) {
            println!("      {t:.2}s {n} {}", prog.names[**f]);
        }
    }
}
