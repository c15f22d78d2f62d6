//! mirdump: a rustc driver (RUSTC_WORKSPACE_WRAPPER) that compiles the crate exactly as rustc
//! would and additionally writes the monomorphic MIR of every function reachable from the crate's
//! entry functions, with type layouts, constants and v-tables, as JSON.
//!
//! It makes no semantic decision: which functions are given contracts and which are inlined is
//! decided by the engine.  The only thing the driver drops is the body of functions whose path
//! matches a prefix in MIRDUMP_STOP (formatting, panicking, allocation internals): they are
//! recorded with `"body": null` and the engine must have a contract for them or havoc them.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
#[macro_use]
extern crate rustc_public;
extern crate rustc_span;
extern crate serde;
extern crate serde_json;

use rustc_public::mir::alloc::{AllocId, GlobalAlloc};
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::visit::{Location, MirVisitor};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType};
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
use std::ops::ControlFlow;

fn ix<T: serde::Serialize>(t: &T) -> u64 {
    serde_json::to_value(t).unwrap().as_u64().unwrap()
}

struct Dump {
    types: BTreeMap<u64, Value>,
    ty_queue: VecDeque<Ty>,
    allocs: BTreeMap<u64, Value>,
    insts: BTreeMap<String, Value>,
    inst_seen: HashSet<String>,
    inst_queue: VecDeque<Instance>,
    stop: Vec<String>,
    names: HashMap<u64, String>,
}

struct V<'a> {
    d: &'a mut Dump,
}
impl<'a> MirVisitor for V<'a> {
    fn visit_ty(&mut self, ty: &Ty, _l: Location) {
        self.d.ty(*ty);
        self.super_ty(ty);
    }
    fn visit_mir_const(&mut self, c: &MirConst, l: Location) {
        self.d.ty(c.ty());
        if let ConstantKind::Allocated(a) = c.kind() {
            self.d.alloc_refs(a);
        }
        self.super_mir_const(c, l);
    }
    fn visit_args(&mut self, args: &GenericArgs, _l: Location) {
        self.d.args(args);
    }
}

impl Dump {
    fn ty(&mut self, t: Ty) -> u64 {
        let i = ix(&t);
        if !self.types.contains_key(&i) {
            self.types.insert(i, Value::Null);
            self.ty_queue.push_back(t);
        }
        i
    }
    fn args(&mut self, args: &GenericArgs) -> Value {
        Value::Array(
            args.0
                .iter()
                .filter_map(|a| match a {
                    GenericArgKind::Type(t) => Some(json!({"ty": self.ty(*t)})),
                    GenericArgKind::Const(c) => Some(json!({"const": c.eval_target_usize().ok()})),
                    _ => None,
                })
                .collect(),
        )
    }
    fn inst(&mut self, i: Instance) -> String {
        let k = i.mangled_name();
        // Virtual instances share names with the method they dispatch to
        let k = match i.kind {
            InstanceKind::Virtual { idx } => format!("VIRT{}::{}", idx, k),
            _ => k,
        };
        if self.inst_seen.insert(k.clone()) {
            self.inst_queue.push_back(i);
        }
        k
    }
    fn alloc_refs(&mut self, a: &Allocation) {
        for (_, p) in a.provenance.ptrs.iter() {
            self.alloc(p.0);
        }
    }
    fn alloc(&mut self, id: AllocId) {
        let i = ix(&id);
        if self.allocs.contains_key(&i) {
            return;
        }
        self.allocs.insert(i, Value::Null);
        let v = match GlobalAlloc::from(id) {
            GlobalAlloc::Function(inst) => json!({"fn": self.inst(inst)}),
            GlobalAlloc::Static(s) => {
                self.ty(s.ty());
                match s.eval_initializer() {
                    Ok(a) => {
                        self.alloc_refs(&a);
                        json!({"static": s.name(), "ty": ix(&s.ty()), "mem": serde_json::to_value(&a).unwrap()})
                    }
                    Err(_) => json!({"static": s.name(), "ty": ix(&s.ty())}),
                }
            }
            GlobalAlloc::Memory(a) => {
                self.alloc_refs(&a);
                json!({"mem": serde_json::to_value(&a).unwrap()})
            }
            GlobalAlloc::VTable(ty, _) => json!({"vtable": self.ty(ty)}),
            GlobalAlloc::TypeId { ty } => json!({"typeid": self.ty(ty)}),
        };
        self.allocs.insert(i, v);
    }
    fn dump_ty(&mut self, t: Ty) {
        let mut o = Map::new();
        o.insert("s".into(), json!(format!("{}", t)));
        let kind = t.kind();
        let layout = match &kind {
            TyKind::RigidTy(_) => t.layout().ok().map(|l| l.shape()),
            _ => None,
        };
        if let Some(l) = &layout {
            // u128 ranges do not fit serde_json::Value: keep the layout as a JSON string
            o.insert("layout".into(), json!(serde_json::to_string(l).unwrap()));
        }
        if let TyKind::RigidTy(r) = &kind {
            match r {
                RigidTy::Bool => {
                    o.insert("k".into(), json!("bool"));
                }
                RigidTy::Char => {
                    o.insert("k".into(), json!("char"));
                }
                RigidTy::Int(i) => {
                    o.insert("k".into(), json!("int"));
                    o.insert("bits".into(), json!(i.num_bytes() * 8));
                }
                RigidTy::Uint(i) => {
                    o.insert("k".into(), json!("uint"));
                    o.insert("bits".into(), json!(i.num_bytes() * 8));
                }
                RigidTy::Float(_) => {
                    o.insert("k".into(), json!("float"));
                }
                RigidTy::Adt(def, args) => {
                    o.insert("k".into(), json!("adt"));
                    o.insert("name".into(), json!(def.name()));
                    o.insert("adt".into(), json!(format!("{}", def.kind())));
                    o.insert("args".into(), self.args(args));
                    let mut vs = vec![];
                    for (n, v) in def.variants_iter().enumerate() {
                        let fs: Vec<Value> = v
                            .fields()
                            .iter()
                            .map(|f| json!({"name": f.name, "ty": self.ty(f.ty_with_args(args))}))
                            .collect();
                        let d = if def.kind().is_enum() {
                            def.discriminant_for_variant(v.idx()).val.to_string()
                        } else {
                            n.to_string()
                        };
                        vs.push(json!({"name": v.name(), "discr": d, "fields": fs}));
                    }
                    o.insert("variants".into(), Value::Array(vs));
                }
                RigidTy::Foreign(_) => {
                    o.insert("k".into(), json!("foreign"));
                }
                RigidTy::Str => {
                    o.insert("k".into(), json!("str"));
                }
                RigidTy::Array(e, n) => {
                    o.insert("k".into(), json!("array"));
                    o.insert("elem".into(), json!(self.ty(*e)));
                    o.insert("len".into(), json!(n.eval_target_usize().ok()));
                }
                RigidTy::Pat(e, _) => {
                    o.insert("k".into(), json!("pat"));
                    o.insert("elem".into(), json!(self.ty(*e)));
                }
                RigidTy::Slice(e) => {
                    o.insert("k".into(), json!("slice"));
                    o.insert("elem".into(), json!(self.ty(*e)));
                }
                RigidTy::RawPtr(e, m) => {
                    o.insert("k".into(), json!("ptr"));
                    o.insert("elem".into(), json!(self.ty(*e)));
                    o.insert("mut".into(), json!(format!("{:?}", m) == "Mut"));
                }
                RigidTy::Ref(_, e, m) => {
                    o.insert("k".into(), json!("ref"));
                    o.insert("elem".into(), json!(self.ty(*e)));
                    o.insert("mut".into(), json!(format!("{:?}", m) == "Mut"));
                }
                RigidTy::FnDef(def, args) => {
                    o.insert("k".into(), json!("fndef"));
                    o.insert("name".into(), json!(def.name()));
                    o.insert("args".into(), self.args(args));
                    match Instance::resolve(*def, args) {
                        Ok(i) => {
                            o.insert("inst".into(), json!(self.inst(i)));
                        }
                        Err(_) => {}
                    }
                }
                RigidTy::FnPtr(_) => {
                    o.insert("k".into(), json!("fnptr"));
                }
                RigidTy::Closure(def, args) => {
                    o.insert("k".into(), json!("closure"));
                    o.insert("name".into(), json!(def.name()));
                    if let Some(GenericArgKind::Type(up)) = args.0.last() {
                        o.insert("upvars".into(), json!(self.ty(*up)));
                    }
                    for (kn, k) in [("once", ClosureKind::FnOnce), ("mut", ClosureKind::FnMut), ("fn", ClosureKind::Fn)] {
                        if let Ok(i) = Instance::resolve_closure(*def, args, k) {
                            o.insert(format!("inst_{}", kn), json!(self.inst(i)));
                        }
                    }
                }
                RigidTy::Dynamic(preds, _) => {
                    o.insert("k".into(), json!("dyn"));
                    if let Some(p) = preds.first() {
                        if let ExistentialPredicate::Trait(tr) = &p.value {
                            o.insert("name".into(), json!(tr.def_id.name()));
                        }
                    }
                }
                RigidTy::Never => {
                    o.insert("k".into(), json!("never"));
                }
                RigidTy::Tuple(ts) => {
                    o.insert("k".into(), json!("tuple"));
                    let v: Vec<u64> = ts.iter().map(|t| self.ty(*t)).collect();
                    o.insert("elems".into(), json!(v));
                }
                _ => {
                    o.insert("k".into(), json!("other"));
                }
            }
        } else {
            o.insert("k".into(), json!("nonrigid"));
        }
        self.types.insert(ix(&t), Value::Object(o));
    }
    fn stopped(&self, name: &str) -> bool {
        let n = name.strip_prefix('<').unwrap_or(name);
        self.stop.iter().any(|s| {
            if let Some(sub) = s.strip_prefix('*') {
                name.contains(sub)
            } else {
                n.starts_with(s.as_str()) || name.starts_with(s.as_str())
            }
        })
    }
    fn dump_inst(&mut self, i: Instance) {
        let key = match i.kind {
            InstanceKind::Virtual { idx } => format!("VIRT{}::{}", idx, i.mangled_name()),
            _ => i.mangled_name(),
        };
        let name = i.name();
        let dname = i.def.name();
        let krate = i.def.krate().name.to_string();
        let args = self.args(&i.args());
        let mut o = Map::new();
        o.insert("name".into(), json!(name));
        o.insert("def".into(), json!(dname));
        o.insert("crate".into(), json!(krate));
        o.insert("kind".into(), json!(format!("{:?}", i.kind)));
        o.insert("args".into(), args);
        if let InstanceKind::Virtual { idx } = i.kind {
            o.insert("virt".into(), json!(idx));
        }
        if let Some(n) = i.intrinsic_name() {
            o.insert("intrinsic".into(), json!(n));
        }
        let is_local = i.def.krate().is_local;
        o.insert("local".into(), json!(is_local));
        let mut body = Value::Null;
        let virt = matches!(i.kind, InstanceKind::Virtual { .. });
        if !virt && !self.stopped(&name) && !self.stopped(&dname) && i.has_body() {
            if let Some(b) = i.body() {
                {
                    let mut v = V { d: self };
                    v.visit_body(&b);
                }
                for l in b.locals() {
                    self.ty(l.ty);
                }
                let lines: Vec<Value> = b
                    .blocks
                    .iter()
                    .map(|bb| {
                        let l = bb.terminator.source_info.span.get_lines();
                        json!(l.start_line)
                    })
                    .collect();
                o.insert("lines".into(), Value::Array(lines));
                o.insert("file".into(), json!(b.span.get_filename()));
                body = json!(serde_json::to_string(&b).unwrap());
                self.unsize(&b);
            }
        }
        o.insert("body".into(), body);
        self.insts.insert(key, Value::Object(o));
    }
    fn unsize(&mut self, b: &Body) {
        for bb in b.blocks.iter() {
            for st in bb.statements.iter() {
                if let StatementKind::Assign(_, Rvalue::Cast(CastKind::PointerCoercion(pc), op, ty)) = &st.kind {
                    if format!("{:?}", pc).starts_with("Unsize") {
                        if let Ok(src) = op.ty(b.locals()) {
                            self.vt(src, *ty);
                        }
                    }
                }
            }
        }
    }
    fn pointee(&self, t: Ty) -> Option<Ty> {
        match t.kind() {
            TyKind::RigidTy(RigidTy::Ref(_, e, _)) | TyKind::RigidTy(RigidTy::RawPtr(e, _)) => Some(e),
            TyKind::RigidTy(RigidTy::Adt(_, args)) => args.0.iter().find_map(|a| a.ty().copied()),
            _ => None,
        }
    }
    fn vt(&mut self, src: Ty, dst: Ty) {
        let (Some(s), Some(d)) = (self.pointee(src), self.pointee(dst)) else { return };
        if let TyKind::RigidTy(RigidTy::Dynamic(preds, _)) = d.kind() {
            if let Some(p) = preds.first().filter(|p| p.bound_vars.is_empty()) {
                if let ExistentialPredicate::Trait(tr) = &p.value {
                    let key = format!("{}|{}", ix(&s), ix(&d));
                    if self.names.contains_key(&(ix(&s) << 32 | ix(&d))) {
                        return;
                    }
                    self.names.insert(ix(&s) << 32 | ix(&d), key);
                    let tref = tr.with_self_ty(s);
                    let mut m = vec![];
                    for e in tref.vtable_entries() {
                        m.push(match e {
                            VtblEntry::Method(i) => json!(self.inst(i)),
                            _ => Value::Null,
                        });
                    }
                    self.ty(s);
                    self.ty(d);
                    self.allocs
                        .insert(1 << 40 | ix(&s) << 20 | ix(&d), json!({"vt": [ix(&s), ix(&d)], "methods": m}));
                }
            }
        }
    }
}

fn dump(out: String) -> ControlFlow<()> {
    let stop = std::env::var("MIRDUMP_STOP").unwrap_or_default();
    let stop: Vec<String> = stop.split('\n').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect();
    let roots = std::env::var("MIRDUMP_ROOTS").unwrap_or_default();
    let roots: Vec<String> = roots.split('\n').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect();
    let mut d = Dump {
        types: BTreeMap::new(),
        ty_queue: VecDeque::new(),
        allocs: BTreeMap::new(),
        insts: BTreeMap::new(),
        inst_seen: HashSet::new(),
        inst_queue: VecDeque::new(),
        stop,
        names: HashMap::new(),
    };
    let mut root_names = vec![];
    for it in rustc_public::all_local_items() {
        if !matches!(it.kind(), rustc_public::ItemKind::Fn) {
            continue;
        }
        let n = it.name();
        let n2 = n.strip_prefix('<').unwrap_or(&n);
        if !roots.is_empty() && !roots.iter().any(|r| n.starts_with(r.as_str()) || n2.starts_with(r.as_str())) {
            continue;
        }
        if d.stopped(&n) {
            continue;
        }
        if it.requires_monomorphization() {
            continue;
        }
        if let Ok(i) = Instance::try_from(it) {
            let k = d.inst(i);
            root_names.push(k);
        }
    }
    loop {
        if let Some(t) = d.ty_queue.pop_front() {
            d.dump_ty(t);
        } else if let Some(i) = d.inst_queue.pop_front() {
            d.dump_inst(i);
        } else {
            break;
        }
    }
    let v = json!({
        "crate": rustc_public::local_crate().name,
        "roots": root_names,
        "types": d.types,
        "allocs": d.allocs,
        "insts": d.insts,
    });
    let tmp = format!("{}.tmp{}", out, std::process::id());
    let f = std::fs::File::create(&tmp).unwrap();
    serde_json::to_writer(std::io::BufWriter::new(f), &v).unwrap();
    std::fs::rename(&tmp, &out).unwrap();
    ControlFlow::Continue(())
}

fn main() {
    // RUSTC_WORKSPACE_WRAPPER: argv = [mirdump, rustc, args...]
    let mut args: Vec<String> = std::env::args().collect();
    args.remove(0);
    let mut crate_name = String::new();
    let mut test = false;
    for w in args.windows(2) {
        if w[0] == "--crate-name" {
            crate_name = w[1].clone();
        }
    }
    if args.iter().any(|a| a == "--test") {
        test = true;
    }
    let want = std::env::var("MIRDUMP_CRATES").unwrap_or_default();
    let dir = std::env::var("MIRDUMP_OUT").unwrap_or_default();
    let is_wanted = !test && !dir.is_empty() && want.split(',').any(|c| c == crate_name);
    if !is_wanted {
        let st = std::process::Command::new(&args[0]).args(&args[1..]).status().unwrap();
        std::process::exit(st.code().unwrap_or(1));
    }
    let out = format!("{}/{}.json", dir, crate_name);
    let r = run!(&args, || dump(out));
    match r {
        Ok(_) | Err(rustc_public::CompilerError::Skipped) | Err(rustc_public::CompilerError::Interrupted(_)) => {}
        Err(_) => std::process::exit(1),
    }
}
