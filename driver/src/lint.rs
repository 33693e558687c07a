//! Unsafe code and mutable or thread-local globals written in a crate, found in its HIR.
use crate::json::J;
use crate::obj;
use rustc_hir as hir;
use rustc_hir::intravisit::{self, Visitor};
use rustc_middle::hir::nested_filter;
use rustc_middle::ty::TyCtxt;
use rustc_span::Span;

struct V<'tcx> {
    tcx: TyCtxt<'tcx>,
    out: Vec<J>,
    owner: Vec<(String, Span)>,
}

impl<'tcx> V<'tcx> {
    fn loc(&self, sp: Span) -> (String, usize) {
        let p = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
        (format!("{}", p.file.name.prefer_local_unconditionally()), p.line)
    }
    fn add(&mut self, what: &str, sp: Span) {
        if sp.in_derive_expansion() {
            return;
        }
        // the code of other crates' macros is theirs
        if what.starts_with("unsafe") && sp.from_expansion() && sp.ctxt().outer_expn_data().macro_def_id.is_some_and(|d| !d.is_local()) {
            return;
        }
        let (file, line) = self.loc(sp);
        let (name, fsp) = self.owner.last().cloned().unwrap_or((String::new(), sp));
        let (_, fline) = self.loc(fsp);
        self.out.push(obj! {"what": what.to_string(), "file": file, "line": line, "fn": name, "fnline": fline});
    }
}

impl<'tcx> Visitor<'tcx> for V<'tcx> {
    type NestedFilter = nested_filter::All;
    fn maybe_tcx(&mut self) -> TyCtxt<'tcx> {
        self.tcx
    }
    fn visit_block(&mut self, b: &'tcx hir::Block<'tcx>) {
        if let hir::BlockCheckMode::UnsafeBlock(hir::UnsafeSource::UserProvided) = b.rules {
            self.add("unsafe block", b.span);
        }
        intravisit::walk_block(self, b);
    }
    fn visit_fn(&mut self, fk: intravisit::FnKind<'tcx>, fd: &'tcx hir::FnDecl<'tcx>, b: hir::BodyId, sp: Span, id: rustc_hir::def_id::LocalDefId) {
        let closure = matches!(fk, intravisit::FnKind::Closure);
        if !closure {
            self.owner.push((self.tcx.def_path_str(id.to_def_id()), sp));
        }
        if let Some(h) = fk.header() {
            if h.is_unsafe() {
                self.add("unsafe function", sp);
            }
        }
        intravisit::walk_fn(self, fk, fd, b, id);
        if !closure {
            self.owner.pop();
        }
    }
    fn visit_item(&mut self, i: &'tcx hir::Item<'tcx>) {
        match &i.kind {
            hir::ItemKind::Static(m, ..) => {
                let mutable = matches!(m, hir::Mutability::Mut);
                let ty = self.tcx.type_of(i.owner_id).instantiate_identity();
                let text = format!("{:?}", ty);
                let cell = ["Cell<", "Mutex<", "RwLock<", "Atomic", "OnceLock<", "LazyLock<", "UnsafeCell<"].iter().any(|k| text.contains(k));
                let tl = self.tcx.is_thread_local_static(i.owner_id.to_def_id());
                if mutable || cell || tl {
                    self.add("mutable static", i.span);
                }
            }
            hir::ItemKind::ForeignMod { .. } => self.add("foreign functions", i.span),
            hir::ItemKind::GlobalAsm { .. } => self.add("assembly", i.span),
            hir::ItemKind::Impl(im) => {
                if let Some(of) = im.of_trait {
                    if matches!(of.safety, hir::Safety::Unsafe) {
                        self.add("unsafe impl", i.span);
                    }
                }
            }
            _ => {}
        }
        intravisit::walk_item(self, i);
    }
}

pub fn lint_crate(tcx: TyCtxt<'_>, out: &str) {
    let mut v = V { tcx, out: vec![], owner: vec![] };
    tcx.hir_walk_toplevel_module(&mut v);
    let n = tcx.hir_body_owners().count();
    let j = obj! {"bodies": n, "sites": J::A(v.out)};
    let mut s = String::new();
    j.write(&mut s);
    std::fs::write(out, s).expect("cannot write lint output");
}
